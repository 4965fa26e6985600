// P01 Index maps realise exactly the 2D block-cyclic distribution
//@ src: src/matrix/distribution.cpp
#include "blockcyclic.h"
using namespace dlaf;
using namespace dlaf::util::matrix;
using namespace ref;
namespace dd = dlaf::matrix::internal::distribution;
//@ def U = include/dlaf/matrix/util_distribution.h
//@ def D = include/dlaf/matrix/distribution.h, src/matrix/distribution.cpp
//@ def X = include/dlaf/matrix/distribution_extensions.h

//@ law tile_of_element ; about: $U: tile_from_element, tile_element_from_element ; dom: b=1..5|1..1000000, o=0..b-1, e=0..30|0..10**9|0..10**14
extern "C" bool law_tile_of_element(S b, S o, S e) {
  const S t = tile_from_element(e, b, o), x = tile_element_from_element(e, b, o);
  const S first = t == 0 ? 0 : t * b - o, last = (t + 1) * b - o;
  return t >= 0 && first <= e && e < last && x == e - first;
}
//@ law element_of_tile ; about: $U: element_from_tile_and_tile_element ; dom: b=1..5|1..1000000, o=0..b-1, t=0..6|0..100000|0..10**12, x=0..where(t==0,b-o,b)-1
extern "C" S impl_element_of_tile(S b, S o, S t, S x) { return element_from_tile_and_tile_element(t, x, b, o); }
extern "C" S spec_element_of_tile(S b, S o, S t, S x) { return t == 0 ? x : t * b - o + x; }
//@ def G1 = k=1..4|1..1000, g=1..6|1..5000, r=0..g-1, s=0..g-1, o=0..k-1, t=0..30|0..10**9|0..10**13
//@ law rank_of_tile ; about: $U: rank_global_tile ; dom: $G1
extern "C" int impl_rank_of_tile(S k, int g, int, int s, S o, S t) { return rank_global_tile(t, k, g, s, o); }
extern "C" int spec_rank_of_tile(S k, int g, int, int s, S o, S t) { return static_cast<int>(((t + o) / k + s) % g); }
//@ law local_tile ; about: $U: local_tile_from_global_tile ; dom: $G1
extern "C" S impl_local_tile(S k, int g, int r, int s, S o, S t) { return local_tile_from_global_tile(t, k, g, r, s, o); }
extern "C" S spec_local_tile(S k, int g, int r, int s, S o, S t) {
  const Axis a{1 << 30, 1, k, g, r, s, o};
  return a.tile_owner(t) == r ? a.local_tile(t) : -1;
}
//@ law next_local_tile ; about: $U: next_local_tile_from_global_tile ; dom: $G1
// the number of earlier tiles on this rank
extern "C" S impl_next_local_tile(S k, int g, int r, int s, S o, S t) { return next_local_tile_from_global_tile(t, k, g, r, s, o); }
extern "C" S spec_next_local_tile(S k, int g, int r, int s, S o, S t) { return Axis{1 << 30, 1, k, g, r, s, o}.count_tiles(t, r); }
//@ law global_of_local ; about: $U: global_tile_from_local_tile ; dom: $G1
// the result is stored on this rank, and its local index is the one asked for
extern "C" bool law_global_of_local(S k, int g, int r, int s, S o, S t) {
  const S i = global_tile_from_local_tile(t, k, g, r, s, o);
  const Axis a{1 << 30, 1, k, g, r, s, o};
  return i >= 0 && a.tile_owner(i) == r && a.local_tile(i) == t;
}

// ---- members of Distribution, both coordinates, every constructor parameter free
//@ def A = an=1..20|1..100000|10**9..10**12, at=1..4|1..300, ak=1..3|1..20, ag=1..4|1..100, ar=0..ag-1, as_=0..ag-1, ao=0..2*ak*at|0..ak*at*ag*2
//@ def B = bn=1..20|1..100000|10**9..10**12, bt=1..4|1..300, bk=1..3|1..20, bg=1..4|1..100, br=0..bg-1, bs=0..bg-1, bo=0..2*bk*bt|0..bk*bt*bg*2
//@ def AB = $A, $B
//@ def E = ae=0..an-1, be=0..bn-1
// tiles of the extents
//@ def T = ai=0..(an-1+ao%(ak*at))//at-(ao%(ak*at))//at, bi=0..(bn-1+bo%(bk*bt))//bt-(bo%(bk*bt))//bt
//@ law d_tile_of_element ; about: $D: global_tile_from_global_element, global_tile_index ; dom: $AB, $E
extern "C" bool law_d_tile_of_element(AX(a), AX(b), S ae, S be) {
  const auto A = MK(a), B = MK(b);
  const auto d = make(A, B);
  const auto ij = d.global_tile_index(GlobalElementIndex{ae, be});
  return d.template global_tile_from_global_element<Coord::Row>(ae) == A.tile(ae) && d.template global_tile_from_global_element<Coord::Col>(be) == B.tile(be) &&
         ij.row() == A.tile(ae) && ij.col() == B.tile(be);
}
//@ law d_tile_element ; about: $D: tile_element_from_global_element, tile_element_index ; dom: $AB, $E
extern "C" bool law_d_tile_element(AX(a), AX(b), S ae, S be) {
  const auto A = MK(a), B = MK(b);
  const auto d = make(A, B);
  const auto x = d.tile_element_index(GlobalElementIndex{ae, be});
  return d.tile_element_from_global_element<Coord::Row>(ae) == A.in_tile(ae) && d.tile_element_from_global_element<Coord::Col>(be) == B.in_tile(be) &&
         x.row() == A.in_tile(ae) && x.col() == B.in_tile(be);
}
//@ law d_element_of_tile ; about: $D: global_element_from_global_tile_and_tile_element, global_element_index ; dom: $AB, $E
extern "C" bool law_d_element_of_tile(AX(a), AX(b), S ae, S be) {
  const auto A = MK(a), B = MK(b);
  const auto d = make(A, B);
  const auto e = d.global_element_index(GlobalTileIndex{A.tile(ae), B.tile(be)}, TileElementIndex{A.in_tile(ae), B.in_tile(be)});
  return d.global_element_from_global_tile_and_tile_element<Coord::Row>(A.tile(ae), A.in_tile(ae)) == ae &&
         d.global_element_from_global_tile_and_tile_element<Coord::Col>(B.tile(be), B.in_tile(be)) == be && e.row() == ae && e.col() == be;
}
//@ law d_rank ; about: $D: rank_global_tile, rank_global_element ; dom: $AB, $E
extern "C" bool law_d_rank(AX(a), AX(b), S ae, S be) {
  const auto A = MK(a), B = MK(b);
  const auto d = make(A, B);
  const auto q = d.rank_global_tile(GlobalTileIndex{A.tile(ae), B.tile(be)});
  return d.rank_global_tile<Coord::Row>(A.tile(ae)) == A.owner(ae) && d.rank_global_tile<Coord::Col>(B.tile(be)) == B.owner(be) && q.row() == A.owner(ae) &&
         q.col() == B.owner(be) && d.rank_global_element<Coord::Row>(ae) == A.owner(ae) && d.rank_global_element<Coord::Col>(be) == B.owner(be);
}
//@ law d_local_tile ; about: $D: local_tile_from_global_tile, local_tile_from_global_element ; dom: $AB, $E
extern "C" bool law_d_local_tile(AX(a), AX(b), S ae, S be) {
  const auto A = MK(a), B = MK(b);
  const auto d = make(A, B);
  const S lr = A.owner(ae) == A.r ? A.local_tile(A.tile(ae)) : -1, lc = B.owner(be) == B.r ? B.local_tile(B.tile(be)) : -1;
  return d.local_tile_from_global_tile<Coord::Row>(A.tile(ae)) == lr && d.local_tile_from_global_tile<Coord::Col>(B.tile(be)) == lc &&
         d.local_tile_from_global_element<Coord::Row>(ae) == lr && d.local_tile_from_global_element<Coord::Col>(be) == lc;
}
//@ law d_local_tile_index ; about: $D: local_tile_index ; n=150000 ; dom: an=1..12, at=1..3, ak=1..2, ag=1..2, ar=0..ag-1, as_=0..ag-1, ao=0..2*ak*at, bn=1..12, bt=1..3, bk=1..2, bg=1..2, br=0..bg-1, bs=0..bg-1, bo=0..2*bk*bt, $E
extern "C" bool law_d_local_tile_index(AX(a), AX(b), S ae, S be) {
  const auto A = MK(a), B = MK(b);
  verif::assume(A.owner(ae) == A.r && B.owner(be) == B.r);
  const auto l = make(A, B).local_tile_index(GlobalTileIndex{A.tile(ae), B.tile(be)});
  return l.row() == A.local_tile(A.tile(ae)) && l.col() == B.local_tile(B.tile(be));
}
//@ law d_next_local ; about: $D: next_local_tile_from_global_tile, next_local_tile_from_global_element ; dom: $AB, $E, $T
extern "C" bool law_d_next_local(AX(a), AX(b), S ae, S be, S ai, S bi) {
  const auto A = MK(a), B = MK(b);
  const auto d = make(A, B);
  return d.next_local_tile_from_global_tile<Coord::Row>(ai) == A.count_tiles(ai, A.r) && d.next_local_tile_from_global_tile<Coord::Col>(bi) == B.count_tiles(bi, B.r) &&
         d.next_local_tile_from_global_tile<Coord::Row>(A.tiles()) == A.count_tiles(A.tiles(), A.r) &&
         d.next_local_tile_from_global_tile<Coord::Col>(B.tiles()) == B.count_tiles(B.tiles(), B.r) &&
         d.next_local_tile_from_global_element<Coord::Row>(ae) == A.count_tiles(A.tile(ae), A.r) &&
         d.next_local_tile_from_global_element<Coord::Col>(be) == B.count_tiles(B.tile(be), B.r);
}
//@ law d_local_element ; about: $D: local_element_from_global_element ; dom: $AB, $E
extern "C" bool law_d_local_element(AX(a), AX(b), S ae, S be) {
  const auto A = MK(a), B = MK(b);
  const auto d = make(A, B);
  const S lr = A.owner(ae) == A.r ? A.local_element(ae) : -1, lc = B.owner(be) == B.r ? B.local_element(be) : -1;
  return d.local_element_from_global_element<Coord::Row>(ae) == lr && d.local_element_from_global_element<Coord::Col>(be) == lc;
}
// from local to global: one coordinate owned, the other arbitrary
//@ law d_from_local_row ; about: $D: global_element_from_local_element, local_tile_from_local_element, tile_element_from_local_element, global_tile_from_local_tile, global_element_from_local_tile_and_tile_element, local_element_from_local_tile_and_tile_element ; dom: $AB, ae=0..an-1
extern "C" bool law_d_from_local_row(AX(a), AX(b), S e) {
  Axis A = MK(a); const auto B = MK(b);
  A.r = A.owner(e);
  const auto d = make(A, B);
  constexpr auto rc = Coord::Row;
  const S l = A.local_element(e), i = A.tile(e), li = A.local_tile(i), x = A.in_tile(e);
  return d.global_element_from_local_element<rc>(l) == e && d.local_tile_from_local_element<rc>(l) == li && d.tile_element_from_local_element<rc>(l) == x &&
         d.global_tile_from_local_tile<rc>(li) == i && d.global_element_from_local_tile_and_tile_element<rc>(li, x) == e &&
         d.local_element_from_local_tile_and_tile_element<rc>(li, x) == l;
}
//@ law d_from_local_col ; about: $D: global_element_from_local_element, local_tile_from_local_element, tile_element_from_local_element, global_tile_from_local_tile, global_element_from_local_tile_and_tile_element, local_element_from_local_tile_and_tile_element ; dom: $AB, be=0..bn-1
extern "C" bool law_d_from_local_col(AX(a), AX(b), S e) {
  const Axis A = MK(a); auto B = MK(b);
  B.r = B.owner(e);
  const auto d = make(A, B);
  constexpr auto rc = Coord::Col;
  const S l = B.local_element(e), i = B.tile(e), li = B.local_tile(i), x = B.in_tile(e);
  return d.global_element_from_local_element<rc>(l) == e && d.local_tile_from_local_element<rc>(l) == li && d.tile_element_from_local_element<rc>(l) == x &&
         d.global_tile_from_local_tile<rc>(li) == i && d.global_element_from_local_tile_and_tile_element<rc>(li, x) == e &&
         d.local_element_from_local_tile_and_tile_element<rc>(li, x) == l;
}
//@ law d_global_tile_of_local ; about: $D: global_tile_index(LocalTileIndex) ; dom: $AB, $E
extern "C" bool law_d_global_tile_of_local(AX(a), AX(b), S ae, S be) {
  Axis A = MK(a), B = MK(b);
  A.r = A.owner(ae); B.r = B.owner(be);
  const auto d = make(A, B);
  const auto ij = d.global_tile_index(LocalTileIndex{A.local_tile(A.tile(ae)), B.local_tile(B.tile(be))});
  return ij.row() == A.tile(ae) && ij.col() == B.tile(be);
}
// rank-explicit variants agree with the definition on the owner, seen from any rank
//@ law x_on_rank ; about: $X: *_on_rank, local_tile_from_global_tile_any_rank ; dom: $AB, $E
extern "C" bool law_x_on_rank(AX(a), AX(b), S ae, S be) {
  const auto A = MK(a), B = MK(b);
  const auto d = make(A, B);
  const int qa = A.owner(ae), qb = B.owner(be);
  const S la = A.local_element(ae), lb = B.local_element(be), ta = A.tile(ae), tb = B.tile(be);
  return dd::global_element_from_local_element_on_rank<Coord::Row>(d, qa, la) == ae && dd::global_element_from_local_element_on_rank<Coord::Col>(d, qb, lb) == be &&
         dd::local_tile_from_local_element_on_rank<Coord::Row>(d, qa, la) == A.local_tile(ta) && dd::local_tile_from_local_element_on_rank<Coord::Col>(d, qb, lb) == B.local_tile(tb) &&
         dd::tile_element_from_local_element_on_rank<Coord::Row>(d, qa, la) == A.in_tile(ae) && dd::tile_element_from_local_element_on_rank<Coord::Col>(d, qb, lb) == B.in_tile(be) &&
         dd::global_tile_from_local_tile_on_rank<Coord::Row>(d, qa, A.local_tile(ta)) == ta && dd::global_tile_from_local_tile_on_rank<Coord::Col>(d, qb, B.local_tile(tb)) == tb &&
         dd::local_tile_from_global_tile_any_rank<Coord::Row>(d, ta) == A.local_tile(ta) && dd::local_tile_from_global_tile_any_rank<Coord::Col>(d, tb) == B.local_tile(tb);
}
// all constructors describe the same thing
//@ law d_ctor_tile_offset ; about: $D: constructors with a tile offset ; dom: $AB, ap=0..3|0..50, bp=0..3|0..50
extern "C" bool law_d_ctor_tile_offset(AX(a), AX(b), S ap, S bp) {
  Axis A = MK(a), B = MK(b);
  const Distribution d(GlobalElementSize{A.n, B.n}, GlobalElementSize{A.blk(), B.blk()}, TileElementSize{A.t, B.t}, comm::Size2D{A.g, B.g}, comm::Index2D{A.r, B.r},
                       comm::Index2D{A.s, B.s}, GlobalTileIndex{ap, bp}, GlobalElementIndex{A.o, B.o});
  A.o += ap * A.t; B.o += bp * B.t;
  return d == make(A, B);
}
//@ law d_ctor_single_tile ; about: $D: constructors without block size ; dom: $AB, ap=0..3|0..50, bp=0..3|0..50
extern "C" bool law_d_ctor_single_tile(AX(a), AX(b), S ap, S bp) {
  Axis A = MK(a), B = MK(b);
  A.k = B.k = 1;
  const Distribution d1(GlobalElementSize{A.n, B.n}, TileElementSize{A.t, B.t}, comm::Size2D{A.g, B.g}, comm::Index2D{A.r, B.r}, comm::Index2D{A.s, B.s}, GlobalElementIndex{A.o, B.o});
  const Distribution d2(GlobalElementSize{A.n, B.n}, TileElementSize{A.t, B.t}, comm::Size2D{A.g, B.g}, comm::Index2D{A.r, B.r}, comm::Index2D{A.s, B.s}, GlobalTileIndex{ap, bp},
                        GlobalElementIndex{A.o, B.o});
  const bool r = d1 == make(A, B);
  A.o += ap * A.t; B.o += bp * B.t;
  return r && d2 == make(A, B);
}
//@ law d_ctor_local ; about: $D: local constructor ; dom: $AB
extern "C" bool law_d_ctor_local(AX(a), AX(b)) {
  Axis A = MK(a), B = MK(b);
  A.k = B.k = 1; A.g = B.g = 1; A.r = B.r = A.s = B.s = 0;
  const Distribution d(LocalElementSize{A.n, B.n}, TileElementSize{A.t, B.t}, GlobalElementIndex{A.o, B.o});
  return d == make(A, B);
}
//@ law d_fields ; about: $D: accessors after construction ; dom: $AB
extern "C" bool law_d_fields(AX(a), AX(b)) {
  const Axis A = MK(a), B = MK(b);
  const auto d = make(A, B);
  return d.size() == GlobalElementSize{A.n, B.n} && d.block_size() == GlobalElementSize{A.blk(), B.blk()} && d.tile_size() == TileElementSize{A.t, B.t} &&
         d.grid_size() == comm::Size2D{A.g, B.g} && d.rank_index() == comm::Index2D{A.r, B.r} && d.source_rank_index() == comm::Index2D{A.src(), B.src()} &&
         d.offset() == GlobalElementIndex{A.off(), B.off()};
}
//@ law d_move ; about: $D: copies and moves keep the value ; dom: $AB
extern "C" bool law_d_move(AX(a), AX(b)) {
  const Axis A = MK(a), B = MK(b);
  const auto ref_ = make(A, B);
  auto d = make(A, B);
  Distribution e(std::move(d));
  Distribution f;
  const bool empty = f == d;
  f = std::move(e);
  return f == ref_ && empty && e == Distribution();
}
// arguments outside of the domain are reported
//@ law d_bad_size ; about: $D: constructor checks ; dom: which=0..9, $AB
extern "C" void rej_d_bad_size(int which, AX(a), AX(b)) {
  Axis A = MK(a), B = MK(b);
  Axis& Z = which % 2 ? A : B;
  S ablk = A.blk(), bblk = B.blk();
  if (which / 2 == 0) Z.n = -Z.n;
  else if (which / 2 == 1) { if (which % 2) ablk = A.t * A.k + 1; else bblk = B.t * B.k + 1; if (which % 2) verif::assume(A.t > 1); else verif::assume(B.t > 1); }
  else if (which / 2 == 2) Z.r = Z.g + Z.r;
  else if (which / 2 == 3) Z.s = Z.g + Z.s;
  else Z.s = -1 - Z.s;
  Distribution d(GlobalElementSize{A.n, B.n}, GlobalElementSize{ablk, bblk}, TileElementSize{A.t, B.t}, comm::Size2D{A.g, B.g}, comm::Index2D{A.r, B.r}, comm::Index2D{A.s, B.s},
                 GlobalElementIndex{A.o, B.o});
}
//@ law bad_index ; about: $U: indices and layouts outside of the domain are rejected ; dom: w=0..26, k=1..4|1..1000, g=1..6|1..5000, r=0..g-1, s=0..g-1, o=0..k-1, t=0..30|0..10**9, x=0..3|0..10**6, n=0..1
extern "C" void rej_bad_index(int w, S k, int g, int r, int s, S o, S t, S x, int n) {
  const S low = -1 - x;
  const int up = n ? static_cast<int>(low) : g + static_cast<int>(x);
  if (w == 0) (void) tile_from_element(low, k, o);
  else if (w == 1) (void) tile_from_element(t, n ? low : 0, 0);
  else if (w == 2) (void) tile_from_element(t, k, n ? low : k + x);
  else if (w == 3) (void) tile_element_from_element(low, k, o);
  else if (w == 4) (void) tile_element_from_element(t, n ? low : 0, 0);
  else if (w == 5) (void) tile_element_from_element(t, k, n ? low : k + x);
  else if (w == 6) (void) element_from_tile_and_tile_element(low, o, k, 0);
  else if (w == 7) (void) element_from_tile_and_tile_element(t, n ? low : k + x, k, 0);
  else if (w == 8) (void) element_from_tile_and_tile_element(0, k - o + (n ? 0 : x), k, o);
  else if (w == 9) (void) element_from_tile_and_tile_element(t + 1, 0, k, n ? low : k + x);
  else if (w == 10) (void) rank_global_tile(low, k, g, s, o);
  else if (w == 11) (void) rank_global_tile(t, n ? low : 0, g, s, n ? low : 0);
  else if (w == 12) (void) rank_global_tile(t, k, n ? static_cast<int>(low) : 0, n ? static_cast<int>(low) : 0, o);
  else if (w == 13) (void) rank_global_tile(t, k, g, up, o);
  else if (w == 14) (void) rank_global_tile(t, k, g, s, n ? low : k + x);
  else if (w == 15) (void) local_tile_from_global_tile(low, k, g, r, s, o);
  else if (w == 16) (void) local_tile_from_global_tile(t, k, g, up, s, o);
  else if (w == 17) (void) local_tile_from_global_tile(t, k, g, r, up, o);
  else if (w == 18) (void) local_tile_from_global_tile(t, k, g, r, s, n ? low : k + x);
  else if (w == 19) (void) next_local_tile_from_global_tile(low, k, g, r, s, o);
  else if (w == 20) (void) next_local_tile_from_global_tile(t, k, g, up, s, o);
  else if (w == 21) (void) next_local_tile_from_global_tile(t, k, g, r, up, o);
  else if (w == 22) (void) next_local_tile_from_global_tile(t, k, g, r, s, n ? low : k + x);
  else if (w == 23) (void) global_tile_from_local_tile(low, k, g, r, s, o);
  else if (w == 24) (void) global_tile_from_local_tile(t, k, g, up, s, o);
  else if (w == 25) (void) global_tile_from_local_tile(t, k, g, r, up, o);
  else (void) global_tile_from_local_tile(t, k, g, r, s, n ? low : k + x);
}
//@ law bad_layout ; about: $U: empty blocks and grids are rejected ; dom: w=0..7, k=1..4|1..1000, g=1..6|1..5000, t=0..30|0..10**9, x=0..3|0..10**6
extern "C" void rej_bad_layout(int w, S k, int g, S t, S x) {
  const S z = -x;
  const int zi = static_cast<int>(-x);
  if (w == 0) (void) rank_global_tile(t, z, g, 0, 0);
  else if (w == 1) (void) rank_global_tile(t, k, zi, 0, 0);
  else if (w == 2) (void) local_tile_from_global_tile(t, z, g, 0, 0, 0);
  else if (w == 3) (void) local_tile_from_global_tile(t, k, zi, 0, 0, 0);
  else if (w == 4) (void) next_local_tile_from_global_tile(t, z, g, 0, 0, 0);
  else if (w == 5) (void) next_local_tile_from_global_tile(t, k, zi, 0, 0, 0);
  else if (w == 6) (void) global_tile_from_local_tile(t, z, g, 0, 0, 0);
  else (void) global_tile_from_local_tile(t, k, zi, 0, 0, 0);
}
// an index outside of the matrix (or of its local part) is rejected by every member
static S outside(int n, S limit, S x) { return n ? -1 - x : limit + x; }
template <Coord rc> static void member(int w, const Distribution& d, const Axis& a, int n, S x) {
  const S ge = outside(n, a.n, x), gt = outside(n, a.tiles(), x), lt = outside(n, a.count_tiles(a.tiles(), a.r), x), le = outside(n, a.count(a.n, a.r), x);
  if (w == 0) (void) d.template global_tile_from_global_element<rc>(ge);
  else if (w == 1) (void) d.template tile_element_from_global_element<rc>(ge);
  else if (w == 2) (void) d.template local_tile_from_global_element<rc>(ge);
  else if (w == 3) (void) d.template local_element_from_global_element<rc>(ge);
  else if (w == 4) (void) d.template next_local_tile_from_global_element<rc>(ge);
  else if (w == 5) (void) d.template rank_global_element<rc>(ge);
  else if (w == 6) (void) d.template rank_global_tile<rc>(gt);
  else if (w == 7) (void) d.template local_tile_from_global_tile<rc>(gt);
  else if (w == 8) (void) d.template next_local_tile_from_global_tile<rc>(n ? gt : gt + 1);
  else if (w == 9) (void) d.template global_tile_size_of<rc>(gt);
  else if (w == 10) (void) d.template global_element_from_global_tile_and_tile_element<rc>(gt, 0);
  else if (w == 11) (void) d.template global_tile_from_local_tile<rc>(lt);
  else if (w == 12) (void) d.template local_tile_size_of<rc>(lt);
  else if (w == 13) (void) d.template local_element_from_local_tile_and_tile_element<rc>(lt, 0);
  else if (w == 14) (void) d.template global_element_from_local_tile_and_tile_element<rc>(lt, 0);
  else if (w == 15) (void) d.template global_element_from_local_element<rc>(le);
  else if (w == 16) (void) d.template local_tile_from_local_element<rc>(le);
  else if (w == 17) (void) d.template tile_element_from_local_element<rc>(le);
  else if (w == 18) (void) d.template global_element_from_global_tile_and_tile_element<rc>(0, outside(n, a.t, x));
  else if (w == 19) (void) dd::local_tile_from_global_tile_any_rank<rc>(d, gt);
  else if (w == 20) (void) dd::global_tile_from_local_tile_on_rank<rc>(d, a.r, lt);
  else if (w == 21) (void) dd::global_tile_from_local_tile_on_rank<rc>(d, static_cast<int>(outside(n, a.g, x)), 0);
  else (void) dd::global_element_from_local_element_on_rank<rc>(d, static_cast<int>(outside(n, a.g, x)), 0);
}
//@ law d_outside_row ; about: $D: indices outside of the matrix are rejected ; n=60000 ; dom: w=0..22, x=0..3|0..10**6, n=0..1, $AB
extern "C" void rej_d_outside_row(int w, S x, int n, AX(a), AX(b)) { const Axis A = MK(a), B = MK(b); member<Coord::Row>(w, make(A, B), A, n, x); }
//@ law d_outside_col ; about: $D: indices outside of the matrix are rejected ; n=60000 ; dom: w=0..22, x=0..3|0..10**6, n=0..1, $AB
extern "C" void rej_d_outside_col(int w, S x, int n, AX(a), AX(b)) { const Axis A = MK(a), B = MK(b); member<Coord::Col>(w, make(A, B), B, n, x); }
//@ law d_outside ; about: $D: two-dimensional indices outside of the matrix are rejected ; n=60000 ; dom: w=0..7, c=0..1, x=0..3|0..10**6, n=0..1, $AB
extern "C" void rej_d_outside(int w, int c, S x, int n, AX(a), AX(b)) {
  const Axis A = MK(a), B = MK(b);
  const Axis& Z = c ? B : A;
  const Distribution d = make(A, B);
  const S ge = outside(n, Z.n, x), gt = outside(n, Z.tiles(), x), lt = outside(n, Z.count_tiles(Z.tiles(), Z.r), x);
  if (w == 0) (void) d.global_tile_index(c ? GlobalElementIndex(0, ge) : GlobalElementIndex(ge, 0));
  else if (w == 1) (void) d.tile_element_index(c ? GlobalElementIndex(0, ge) : GlobalElementIndex(ge, 0));
  else if (w == 2) (void) d.rank_global_tile(c ? GlobalTileIndex(0, gt) : GlobalTileIndex(gt, 0));
  else if (w == 3) (void) d.local_tile_index(c ? GlobalTileIndex(0, gt) : GlobalTileIndex(gt, 0));
  else if (w == 4) (void) d.tile_size_of(c ? GlobalTileIndex(0, gt) : GlobalTileIndex(gt, 0));
  else if (w == 5) (void) d.global_tile_index(c ? LocalTileIndex(0, lt) : LocalTileIndex(lt, 0));
  else if (w == 6) (void) d.tile_size_of(c ? LocalTileIndex(0, lt) : LocalTileIndex(lt, 0));
  else { const S e = outside(n, Z.tile_size(0), x); (void) d.global_element_index(GlobalTileIndex(0, 0), c ? TileElementIndex(0, e) : TileElementIndex(e, 0)); }
}
//@ law d_not_mine ; about: $D: local_tile_index of a tile of another rank is rejected ; n=60000 ; dom: $AB, $E
extern "C" void rej_d_not_mine(AX(a), AX(b), S ae, S be) {
  const Axis A = MK(a), B = MK(b);
  verif::assume(A.owner(ae) != A.r || B.owner(be) != B.r);
  (void) make(A, B).local_tile_index(GlobalTileIndex(A.tile(ae), B.tile(be)));
}
