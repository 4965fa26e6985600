// P18 panels: extents, external tiles, reset; broadcasts of panels
//@ algorithm
#include "algo.h"
#include "ranks.h"
#include <dlaf/communication/broadcast_panel.h>
#include <dlaf/matrix/panel.h>
#include <dlaf/sender/transform.h>
//@ def PA = include/dlaf/matrix/panel.h
//@ def BP = include/dlaf/communication/broadcast_panel.h: broadcast; include/dlaf/matrix/panel.h
namespace ex = pika::execution::experimental;
using dlaf::internal::Policy;
using dlaf::internal::transform;
using matrix::Panel;
using matrix::StoreTransposed;
namespace {
template <class X> void go(X&& x) { ex::start_detached(std::forward<X>(x)); }
// what a task sees: extents and elements
template <S D> struct Seen { S rows = -1, cols = -1; double v[D * D]; };
template <S D> auto look(Seen<D>& s) { return transform(Policy<MC>(), [&s](const auto& t) { s.rows = t.size().rows(); s.cols = t.size().cols(); for (S j = 0; j < t.size().cols(); ++j) for (S i = 0; i < t.size().rows(); ++i) s.v[i + j * D] = *t.ptr({i, j}); }); }
// element (i, j) of the tile := f(i, j)
template <class F> auto put(F f) { return transform(Policy<MC>(), [f](const auto& t) { for (S j = 0; j < t.size().cols(); ++j) for (S i = 0; i < t.size().rows(); ++i) *t.ptr({i, j}) = f(i, j); }); }
S lower(S a, S b) { return a < b ? a : b; }
// position along the panel -> index of a tile of the matrix
template <Coord axis> LocalTileIndex at(S k) { return LocalTileIndex(orthogonal(axis), k); }
template <Coord axis> GlobalTileIndex gat(S k) { return axis == Coord::Col ? GlobalTileIndex(k, 0) : GlobalTileIndex(0, k); }
template <Coord axis> GlobalElementIndex eat(S k) { return axis == Coord::Col ? GlobalElementIndex(k, 0) : GlobalElementIndex(0, k); }
// One process of a grid of P along the panel, the first tile on process `src`; N elements in tiles of B, panel width B2
template <Coord axis> matrix::Distribution dist(S n, S b, S n2, S b2, int P, int me, int src) {
  if (axis == Coord::Col) return matrix::Distribution(GlobalElementSize(n, n2), TileElementSize(b, b2), comm::Size2D(P, 1), comm::Index2D(me, 0), comm::Index2D(src, 0));
  return matrix::Distribution(GlobalElementSize(n2, n), TileElementSize(b2, b), comm::Size2D(1, P), comm::Index2D(0, me), comm::Index2D(0, src));
}
constexpr S D = 4;
// extents of tile k (global) when the range starts at element e; the panel has width w
template <Coord axis, StoreTransposed ST, class P> bool extents(P& panel, const matrix::Distribution& d, S n, S b, S w, S e, S endtile, int P_, int me, int src) {
  bool ok = true;
  S local = 0, seen = 0;
  Seen<D> s[8], t[8];
  for (S k = 0; k * b < n; ++k) {
    if ((k + src) % P_ != me) continue;
    const S l = local++;
    if (k < e / b || k >= endtile) continue;
    const S len = lower(b, n - k * b) - (k == e / b ? e % b : 0);
    const double c = k;
    go(panel.readwrite(at<axis>(l)) | put([c](S i, S j) { return 100 * c + 10 * i + j; }));
    go(panel.read(at<axis>(l)) | look(s[seen]));
    go(panel.read(at<axis>(l)) | look(t[seen]));
    algo::done();
    const bool flip = (axis == Coord::Row) != (ST == StoreTransposed::Yes);
    ok &= s[seen].rows == (flip ? w : len) && s[seen].cols == (flip ? len : w) && t[seen].rows == s[seen].rows && t[seen].cols == s[seen].cols;
    for (S j = 0; j < s[seen].cols; ++j) for (S i = 0; i < s[seen].rows; ++i) ok &= s[seen].v[i + j * D] == 100 * c + 10 * i + j && t[seen].v[i + j * D] == s[seen].v[i + j * D];
    ++seen;
  }
  S n_it = 0;
  for (const auto& ij : panel.iteratorLocal()) { ok &= ij.template get<axis>() == 0; ++n_it; }
  return ok && n_it == seen && panel.rangeStart() == e / b && panel.rangeEnd() == endtile && panel.offsetElement() == e;
}
template <class P> void wide(P& p, S w) { if constexpr (P::coord == Coord::Row) p.setWidth(w); else p.setHeight(w); }
template <Coord axis, StoreTransposed ST> bool shapes(S n, S b, S b2, int P, int src) {
  bool ok = true;
  const S nt = (n + b - 1) / b;
  for (int lazy = 0; lazy < 2; ++lazy) for (int me = 0; me < P; ++me) {
    algo::late(lazy);
    const auto d = dist<axis>(n, b, 3 * b2, b2, P, me, src);
    {
      Panel<axis, double, CPU, ST> p(d);
      ok &= p.parentDistribution() == d;
      ok &= extents<axis, ST>(p, d, n, b, b2, 0, nt, P, me, src);
      p.reset(); p.setRange(gat<axis>(1), gat<axis>(nt)); wide(p, 1);
      ok &= extents<axis, ST>(p, d, n, b, 1, b, nt, P, me, src);
      p.reset(); p.setRangeStart(gat<axis>(1));
      ok &= extents<axis, ST>(p, d, n, b, b2, b, nt, P, me, src);
      p.reset(); p.setRangeStart(eat<axis>(b + 1));
      ok &= extents<axis, ST>(p, d, n, b, b2, b + 1, nt, P, me, src);
      p.reset(); p.setRange(gat<axis>(0), gat<axis>(nt - 1));
      ok &= extents<axis, ST>(p, d, n, b, b2, 0, nt - 1, P, me, src);
      p.reset(); p.setRangeStart(eat<axis>(2 * b)); p.setRangeEnd(gat<axis>(nt)); wide(p, b2);
      ok &= extents<axis, ST>(p, d, n, b, b2, 2 * b, nt, P, me, src);
      p.reset(); p.setRangeStart(eat<axis>(b + 1)); wide(p, 1);
      ok &= extents<axis, ST>(p, d, n, b, 1, b + 1, nt, P, me, src);
      p.reset(); p.setRangeStart(gat<axis>(2));
      ok &= extents<axis, ST>(p, d, n, b, b2, 2 * b, nt, P, me, src);
    }
    {
      Panel<axis, double, CPU, ST> p(d, gat<axis>(1));   // the first tile has no workspace
      ok &= extents<axis, ST>(p, d, n, b, b2, b, nt, P, me, src);
      p.reset(); p.setRangeStart(eat<axis>(2 * b - 1));
      ok &= extents<axis, ST>(p, d, n, b, b2, 2 * b - 1, nt, P, me, src);
    }
    algo::done();
  }
  algo::late(false);
  return ok;
}
// external tiles are seen where they were set, until the panel is reset, and are not written
template <Coord axis> bool external(const S* p) {
  Arr<double, 6, 6> a, a0;
  a.fill(p, 0); algo::put(a0, a);
  bool ok = true;
  for (int lazy = 0; lazy < 2; ++lazy) {
    algo::late(lazy);
    Seen<D> s[8];
    {
      auto m = local(a, 2, 2);
      Panel<axis, double, CPU> pan(m.distribution()), other(m.distribution());
      pan.setTile(at<axis>(1), m.read(LocalTileIndex(2, 0)));
      go(pan.read(at<axis>(1)) | look(s[0])); go(pan.read(at<axis>(1)) | look(s[1]));
      go(pan.readwrite(at<axis>(0)) | put([](S i, S j) { return 1. + i + 10 * j; }));
      other.setTile(at<axis>(2), pan.read(at<axis>(0))); other.setTile(at<axis>(0), pan.read(at<axis>(1)));
      go(other.read(at<axis>(2)) | look(s[2])); go(other.read(at<axis>(0)) | look(s[3]));
      go(pan.read(at<axis>(0)) | look(s[4]));
      pan.reset();
      go(m.readwrite(LocalTileIndex(2, 0)) | put([](S, S) { return 5.; }));   // after the readers
      go(pan.readwrite(at<axis>(1)) | put([](S i, S j) { return 2. + i + 10 * j; }));
      go(pan.read(at<axis>(1)) | look(s[5]));
      pan.reset(); other.reset();
      pan.setTile(at<axis>(0), m.read(LocalTileIndex(0, 1)));
      go(pan.read(at<axis>(0)) | look(s[6]));
      go(pan.readwrite(at<axis>(1)) | put([](S i, S j) { return 3. + i + 10 * j; }));
      go(pan.read(at<axis>(1)) | look(s[7]));
    }
    algo::done();
    for (S k = 0; k < 8; ++k) ok &= s[k].rows == 2 && s[k].cols == 2;
    for (S j = 0; j < 2; ++j) for (S i = 0; i < 2; ++i) {
      const S k = i + j * D;
      const double want[8] = {a0(4 + i, j), a0(4 + i, j), 1. + i + 10 * j, a0(4 + i, j), 1. + i + 10 * j, 2. + i + 10 * j, a0(i, 2 + j), 3. + i + 10 * j};
      for (S q = 0; q < 8; ++q) ok &= algo::same(s[q].v[k], want[q]);
      ok &= algo::same(a(4 + i, j), 5.);
      a(4 + i, j) = a0(4 + i, j);
    }
    ok &= a.equal(a0);
  }
  algo::late(false);
  return ok;
}
// Every process puts the part of its own copy of a N x B panel in its panel, process `root` broadcasts; also transposed
template <Coord axis, StoreTransposed ST, S N, S B, int R, int C, bool BOTH> bool bcast(const S* p, int root, S first, S firstT, S w, int sr, int sc) {
  constexpr int PA = axis == Coord::Col ? R : C, PB = axis == Coord::Col ? C : R;   // processes along the panel, across
  constexpr S NT = (N + B - 1) / B, endT = ST == StoreTransposed::Yes || N % B == 0 ? NT : NT - 1;   // tiles which are not transposed must be square
  Arr<double, N, B> a[PB];
  for (int q = 0; q < PB; ++q) a[q].fill(p, 100 * q);
  bool ok = true;
  algo::everywhere<R, C>([&](comm::CommunicatorGrid& g) {
    auto row = g.row_communicator_pipeline(); auto col = g.col_communicator_pipeline();
    const matrix::Distribution d(GlobalElementSize(N, N), TileElementSize(B, B), g.size(), g.rank(), comm::Index2D(sr, sc));
    const int ma = axis == Coord::Col ? g.rank().row() : g.rank().col(), mb = axis == Coord::Col ? g.rank().col() : g.rank().row();
    const int srca = axis == Coord::Col ? sr : sc, srcb = axis == Coord::Col ? sc : sr;
    Seen<D> s[NT], t[NT];
    {
      Panel<axis, double, CPU> pan(d);
      Panel<orthogonal(axis), double, CPU, ST> panT(d);
      pan.setRange(gat<axis>(first), gat<axis>(NT)); panT.setRange(gat<orthogonal(axis)>(firstT), gat<orthogonal(axis)>(endT));
      wide(pan, w); wide(panT, w);
      if (mb == root) for (S k = first; k < NT; ++k) if ((k + srca) % PA == ma) go(pan.readwrite(at<axis>(k / PA)) | put([&, k](S i, S j) { return axis == Coord::Col ? a[root](k * B + i, j) : a[root](k * B + j, i); }));
      if constexpr (BOTH) comm::broadcast(root, pan, panT, row, col);
      else if constexpr (axis == Coord::Col) comm::broadcast(root, pan, row);
      else comm::broadcast(root, pan, col);
      for (S k = first; k < NT; ++k) if ((k + srca) % PA == ma) go(pan.read(at<axis>(k / PA)) | look(s[k]));
      if (BOTH) for (S k = firstT; k < endT; ++k) if ((k + srcb) % PB == mb) go(panT.read(at<orthogonal(axis)>(k / PB)) | look(t[k]));
    }
    algo::done();
    for (S k = 0; k < NT; ++k) {
      const S len = lower(B, N - k * B), r = axis == Coord::Col ? len : w, c = axis == Coord::Col ? w : len;
      const bool mine = k >= first && (k + srca) % PA == ma, mineT = BOTH && k >= firstT && k < endT && (k + srcb) % PB == mb;
      ok &= s[k].rows == (mine ? r : -1) && s[k].cols == (mine ? c : -1) && t[k].rows == (mineT ? r : -1) && t[k].cols == (mineT ? c : -1);
      for (S j = 0; j < w; ++j) for (S i = 0; i < len; ++i) {
        const S x = axis == Coord::Col ? i + j * D : j + i * D;
        if (mine) ok &= algo::same(s[k].v[x], a[root](k * B + i, j));
        if (mineT) ok &= algo::same(t[k].v[x], a[root](k * B + i, j));
      }
    }
  });
  return ok & verif_all_met();
}
}
//@ law shapes_col ; about: $PA: tileSize, setRange, setRangeStart, setRangeEnd, setWidth, reset, read, readwrite ; dom: p=ptr
extern "C" bool law_shapes_col(const S*) { return shapes<Coord::Col, StoreTransposed::No>(11, 3, 2, 1, 0) & shapes<Coord::Col, StoreTransposed::No>(8, 2, 3, 2, 1); }
//@ law shapes_row ; about: $PA: tileSize, setRange, setRangeStart, setRangeEnd, setHeight, reset, read, readwrite ; dom: p=ptr
extern "C" bool law_shapes_row(const S*) { return shapes<Coord::Row, StoreTransposed::No>(11, 3, 2, 1, 0) & shapes<Coord::Row, StoreTransposed::No>(9, 2, 3, 3, 2); }
//@ law shapes_col_t ; about: $PA: StoreTransposed ; dom: p=ptr
extern "C" bool law_shapes_col_t(const S*) { return shapes<Coord::Col, StoreTransposed::Yes>(8, 3, 2, 2, 1); }
//@ law shapes_row_t ; about: $PA: StoreTransposed ; dom: p=ptr
extern "C" bool law_shapes_row_t(const S*) { return shapes<Coord::Row, StoreTransposed::Yes>(9, 3, 2, 2, 0); }
//@ law external ; about: $PA: setTile, isExternal, reset, read, readwrite ; dom: p=ptr
extern "C" bool law_external(const S* p) { return external<Coord::Col>(p) & external<Coord::Row>(p); }
//@ law bcast ; about: $BP ; dom: p=ptr
extern "C" bool law_bcast(const S* p) { return bcast<Coord::Col, StoreTransposed::No, 7, 2, 2, 2, false>(p, 1, 1, 1, 2, 0, 1) & bcast<Coord::Row, StoreTransposed::No, 7, 2, 2, 2, false>(p, 0, 0, 0, 1, 1, 0) & bcast<Coord::Col, StoreTransposed::No, 3, 2, 2, 1, false>(p, 0, 0, 0, 2, 0, 0); }
//@ law bcast_both_col ; about: $BP ; dom: p=ptr
extern "C" bool law_bcast_both_col(const S* p) { return bcast<Coord::Col, StoreTransposed::No, 7, 2, 2, 2, true>(p, 1, 1, 2, 2, 0, 1) & bcast<Coord::Col, StoreTransposed::Yes, 6, 2, 2, 2, true>(p, 0, 0, 0, 1, 1, 1) & bcast<Coord::Col, StoreTransposed::No, 5, 2, 2, 1, true>(p, 0, 1, 1, 2, 1, 0); }
//@ law bcast_both_row ; about: $BP ; dom: p=ptr
extern "C" bool law_bcast_both_row(const S* p) { return bcast<Coord::Row, StoreTransposed::No, 7, 2, 2, 2, true>(p, 1, 1, 1, 2, 0, 1) & bcast<Coord::Row, StoreTransposed::Yes, 6, 2, 1, 3, true>(p, 0, 0, 1, 1, 0, 1) & bcast<Coord::Row, StoreTransposed::No, 5, 2, 1, 1, true>(p, 0, 1, 1, 2, 0, 0); }
//@ law bcast_both_big ; about: $BP ; dom: p=ptr
extern "C" bool law_bcast_both_big(const S* p) { return bcast<Coord::Col, StoreTransposed::No, 9, 2, 3, 2, true>(p, 1, 1, 1, 2, 2, 1) & bcast<Coord::Row, StoreTransposed::No, 9, 2, 2, 3, true>(p, 1, 0, 2, 2, 1, 2); }
