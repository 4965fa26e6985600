// P05 2D index and size values behave as coordinate pairs of their own kind
#include <dlaf/common/index2d.h>
#include <dlaf/communication/index.h>
#include <dlaf/matrix/index.h>
#include "textmodel.h"
using namespace dlaf;
using namespace dlaf::common;
using S = SizeType;
//@ def F = include/dlaf/common/index2d.h
struct TagA; struct TagB;
template <class F>
static auto with_type(int ty, F f) {
  if (ty == 0) return f(int(0));
  if (ty == 1) return f(S(0));
  if (ty == 2) return f((signed char)(0));
  return f(short(0));
}
#define IDX(r, c) common::Index2D<I, TagA>(static_cast<I>(r), static_cast<I>(c))
#define SIZ(r, c) common::Size2D<I, TagA>(static_cast<I>(r), static_cast<I>(c))
//@ def V = r=-2..3|-100..100|-10**4..10**4, c=-2..3|-100..100|-10**4..10**4
//@ def W = p=-2..3|-100..100|-10**4..10**4, q=-2..3|-100..100|-10**4..10**4
static bool fits(int ty, S a) { return ty != 2 || (a >= -128 && a < 128); }

//@ law access ; about: $F: row, col, rows, cols, get, constructors ; dom: ty=0..3, $V
extern "C" bool law_access(int ty, S r, S c) {
  verif::assume(fits(ty, r) && fits(ty, c));
  return with_type(ty, [&](auto z) {
    using I = decltype(z);
    const auto i = IDX(r, c);
    const auto s = SIZ(r, c);
    const common::Index2D<I, TagA> ia(std::array<I, 2>{I(r), I(c)});
    const common::Size2D<I, TagA> sa(std::array<I, 2>{I(r), I(c)});
    const common::Index2D<I, TagA> ir(Coord::Row, I(r), I(c)), ic(Coord::Col, I(c), I(r)), ir0(Coord::Row, I(r)), ic0(Coord::Col, I(c)), none;
    return i.row() == r && i.col() == c && s.rows() == r && s.cols() == c && i.template get<Coord::Row>() == r && i.template get<Coord::Col>() == c && i.get(Coord::Row) == r &&
           i.get(Coord::Col) == c && s.template get<Coord::Row>() == r && s.template get<Coord::Col>() == c && s.get(Coord::Row) == r && s.get(Coord::Col) == c && ia.row() == r && ia.col() == c &&
           sa.rows() == r && sa.cols() == c && ir.row() == r && ir.col() == c && ic.row() == r && ic.col() == c && ir0.row() == r && ir0.col() == 0 && ic0.row() == 0 && ic0.col() == c &&
           !none.isValid();
  });
}
//@ law orthogonal ; about: $F: orthogonal ; dom: x=0..1
extern "C" bool law_orthogonal(int x) {
  const auto c = x ? Coord::Row : Coord::Col;
  return orthogonal(c) == (x ? Coord::Col : Coord::Row);
}
//@ law validity ; about: $F: isValid, isIn, isInOrOn, isEmpty ; dom: ty=0..3, $V, $W
extern "C" bool law_validity(int ty, S r, S c, S p, S q) {
  verif::assume(fits(ty, r) && fits(ty, c) && fits(ty, p) && fits(ty, q));
  return with_type(ty, [&](auto z) {
    using I = decltype(z);
    const auto i = IDX(r, c);
    const auto s = SIZ(p, q);
    const bool in = r >= 0 && c >= 0 && r < p && c < q;
    const bool on = r >= 0 && c >= 0 && p >= 0 && q >= 0 && r <= p && c <= q;
    return i.isValid() == (r >= 0 && c >= 0) && s.isValid() == (p >= 0 && q >= 0) && i.isIn(s) == in && i.isInOrOn(s) == on && (p < 0 || q < 0 || s.isEmpty() == (p * q == 0));
  });
}
//@ law sub_window ; about: $F: isInSub ; dom: ty=0..1, r=0..12|0..1000, c=0..12|0..1000, p=0..12|0..1000, q=0..12|0..1000, m=0..5|0..100, n=0..5|0..100
extern "C" bool law_sub_window(int ty, S r, S c, S p, S q, S m, S n) {
  return with_type(ty, [&](auto z) {
    using I = decltype(z);
    return IDX(r, c).isInSub(IDX(p, q), SIZ(m, n)) == (r >= p && c >= q && r < p + m && c < q + n);
  });
}
//@ law compare ; about: $F: operator==, operator!= ; dom: ty=0..3, $V, p={0,1,2}|-100..100, q={0,1,2}|-100..100, k=0..3
extern "C" bool law_compare(int ty, S r, S c, S p, S q, int k) {
  if (k & 1) p = r;
  if (k & 2) q = c;
  verif::assume(fits(ty, r) && fits(ty, c) && fits(ty, p) && fits(ty, q));
  return with_type(ty, [&](auto z) {
    using I = decltype(z);
    const bool e = r == p && c == q;
    return (IDX(r, c) == IDX(p, q)) == e && (IDX(r, c) != IDX(p, q)) == !e && (SIZ(r, c) == SIZ(p, q)) == e && (SIZ(r, c) != SIZ(p, q)) == !e;
  });
}
//@ law arithmetic ; about: $F: operator+, operator- ; dom: ty=0..1, $V, $W
extern "C" bool law_arithmetic(int ty, S r, S c, S p, S q) {
  return with_type(ty, [&](auto z) {
    using I = decltype(z);
    return IDX(r, c) + SIZ(p, q) == IDX(r + p, c + q) && IDX(r, c) - SIZ(p, q) == IDX(r - p, c - q) && IDX(r, c) - IDX(p, q) == SIZ(r - p, c - q) &&
           SIZ(r, c) + SIZ(p, q) == SIZ(r + p, c + q) && SIZ(r, c) - SIZ(p, q) == SIZ(r - p, c - q);
  });
}
//@ law transposition ; about: $F: transpose, transposed, indexFromOrigin, sizeFromOrigin ; dom: ty=0..3, $V
extern "C" bool law_transposition(int ty, S r, S c) {
  verif::assume(fits(ty, r) && fits(ty, c));
  return with_type(ty, [&](auto z) {
    using I = decltype(z);
    auto i = IDX(r, c);
    auto s = SIZ(r, c);
    const auto ti = transposed(i);
    const auto ts = transposed(s);
    const bool unchanged = i == IDX(r, c) && s == SIZ(r, c);
    i.transpose();
    s.transpose();
    return unchanged && ti == IDX(c, r) && ts == SIZ(c, r) && i == IDX(c, r) && s == SIZ(c, r) && indexFromOrigin(SIZ(r, c)) == IDX(r, c) && sizeFromOrigin(IDX(r, c)) == SIZ(r, c);
  });
}
//@ law linear_size ; about: $F: linear_size ; dom: ty=0..3, r=0..3|0..120|0..30000|0..2**31-1, c=0..3|0..120|0..30000|0..2**31-1
extern "C" bool law_linear_size(int ty, S r, S c) {
  verif::assume(ty < 2 || (ty == 2 ? r < 128 && c < 128 : r < 32768 && c < 32768));
  return with_type(ty, [&](auto z) {
    using I = decltype(z);
    return SIZ(r, c).linear_size() == r * c;
  });
}
//@ def L = ty=0..2, p=1..5|1..127|1..2**31-1, q=1..5|1..127|1..2**31-1, r=0..p-1, c=0..q-1
//@ law linear ; about: $F: computeLinearIndexRowMajor, computeLinearIndexColMajor, computeLinearIndex ; dom: $L
extern "C" bool law_linear(int ty, S p, S q, S r, S c) {
  verif::assume(ty != 2 || (p < 128 && q < 128));
  return with_type(ty, [&](auto z) {
    using I = decltype(z);
    const auto i = IDX(r, c);
    const auto s = SIZ(p, q);
    return computeLinearIndexRowMajor<S>(i, s) == r * q + c && computeLinearIndexColMajor<S>(i, s) == c * p + r && computeLinearIndex<S>(Ordering::RowMajor, i, s) == r * q + c &&
           computeLinearIndex<S>(Ordering::ColumnMajor, i, s) == c * p + r && computeLinearIndexRowMajor<std::size_t>(i, s) == std::size_t(r * q + c) &&
           computeLinearIndexColMajor<std::size_t>(i, s) == std::size_t(c * p + r);
  });
}
//@ law coords ; about: $F: computeCoordsRowMajor, computeCoordsColMajor, computeCoords ; dom: $L
extern "C" bool law_coords(int ty, S p, S q, S r, S c) {
  verif::assume(ty != 2 || (p < 128 && q < 128));
  return with_type(ty, [&](auto z) {
    using I = decltype(z);
    const auto i = IDX(r, c);
    const auto s = SIZ(p, q);
    return computeCoordsRowMajor(r * q + c, s) == i && computeCoordsColMajor(c * p + r, s) == i && computeCoords(Ordering::RowMajor, r * q + c, s) == i &&
           computeCoords(Ordering::ColumnMajor, c * p + r, s) == i;
  });
}
//@ law linear_outside ; about: $F: computeLinearIndexRowMajor, computeLinearIndexColMajor ; dom: p=0..5|0..1000, q=0..5|0..1000, r=0..5|0..1000, c=0..5|0..1000, k=0..3, x=0..3
extern "C" void rej_linear_outside(S p, S q, S r, S c, int k, S x) {
  if (k & 1) r = p + x; else c = q + x;
  const GlobalTileIndex i(r, c);
  const GlobalTileSize s(p, q);
  if (k & 2) (void) computeLinearIndexRowMajor<S>(i, s);
  else (void) computeLinearIndexColMajor<S>(i, s);
}
//@ law linear_negative ; about: $F: computeLinearIndexRowMajor, computeLinearIndexColMajor ; dom: p=1..5|1..1000, q=1..5|1..1000, r=0..p-1, c=0..q-1, k=0..3, x=-3..-1
extern "C" void rej_linear_negative(S p, S q, S r, S c, int k, S x) {
  if (k & 1) r = x; else c = x;
  const GlobalTileIndex i(r, c);
  const GlobalTileSize s(p, q);
  if (k & 2) (void) computeLinearIndexRowMajor<S>(i, s);
  else (void) computeLinearIndexColMajor<S>(i, s);
}
//@ law linear_overflow ; about: $F: computeLinearIndex: the result type must hold the result ; dom: p=1..1000|1..2**20, q=1..1000|1..2**20, r=0..p-1, c=0..q-1, k=0..1
extern "C" void rej_linear_overflow(S p, S q, S r, S c, int k) {
  const GlobalTileIndex i(r, c);
  const GlobalTileSize s(p, q);
  verif::assume((k ? r * q + c : c * p + r) > 127);
  if (k) (void) computeLinearIndexRowMajor<signed char>(i, s);
  else (void) computeLinearIndexColMajor<signed char>(i, s);
}
//@ law coords_outside ; about: $F: computeCoordsRowMajor, computeCoordsColMajor ; dom: p=0..5|0..1000, q=0..5|0..1000, k=0..3, x=0..3|0..1000
extern "C" void rej_coords_outside(S p, S q, int k, S x) {
  const GlobalTileSize s(p, q);
  const S l = k & 1 ? p * q + x : -1 - x;
  if (k & 2) (void) computeCoordsRowMajor(l, s);
  else (void) computeCoordsColMajor(l, s);
}
//@ law text ; about: $F: operator<< writes (row, column) ; dom: ty=0..3, k=0..1, $V ; unroll=16 ; events=none ; ends=1
extern "C" bool law_text(int ty, int k, S r, S c) {
  verif::assume(fits(ty, r) && fits(ty, c));
  return with_type(ty, [&](auto z) {
    using I = decltype(z);
    return k ? text::prints(IDX(r, c), "(%, %)", long(r), long(c)) : text::prints(SIZ(r, c), "(%, %)", long(r), long(c));
  });
}
//@ law coord_text ; about: $F: coord2str ; dom: x=0..1
extern "C" bool law_coord_text(int x) {
  const char* s = coord2str(x ? Coord::Row : Coord::Col);
  return x ? s[0] == 'R' && s[1] == 'O' && s[2] == 'W' && s[3] == 0 : s[0] == 'C' && s[1] == 'O' && s[2] == 'L' && s[3] == 0;
}
//@ law empty_of_invalid ; about: $F: isEmpty of an invalid size is rejected ; dom: ty=0..3, r=-1..-1|-100..-1, c=-5..5|-100..100, k=0..1
extern "C" void rej_empty_of_invalid(int ty, S r, S c, int k) {
  with_type(ty, [&](auto z) {
    using I = decltype(z);
    return k ? SIZ(r, c).isEmpty() : SIZ(c, r).isEmpty();
  });
}
