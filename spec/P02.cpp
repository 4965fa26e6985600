// P02 Tile sizes and local sizes partition the global matrix exactly
//@ src: src/matrix/distribution.cpp
#include "blockcyclic.h"
using namespace dlaf;
using namespace ref;
namespace dd = dlaf::matrix::internal::distribution;
//@ def D = include/dlaf/matrix/distribution.h, src/matrix/distribution.cpp
//@ def X = include/dlaf/matrix/distribution_extensions.h
//@ def A = an=0..20|1..100000|10**9..10**12, at=1..4|1..300, ak=1..3|1..20, ag=1..4|1..100, ar=0..ag-1, as_=0..ag-1, ao=0..2*ak*at|0..ak*at*ag*2
//@ def B = bn=0..20|1..100000|10**9..10**12, bt=1..4|1..300, bk=1..3|1..20, bg=1..4|1..100, br=0..bg-1, bs=0..bg-1, bo=0..2*bk*bt|0..bk*bt*bg*2
//@ def AB = $A, $B
//@ def T = ai=0..(an-1+ao%(ak*at))//at-(ao%(ak*at))//at, bi=0..(bn-1+bo%(bk*bt))//bt-(bo%(bk*bt))//bt

//@ law nr_tiles ; about: $D: nr_tiles, compute_global_nr_tiles ; dom: $AB
extern "C" bool law_nr_tiles(AX(a), AX(b)) {
  const auto A = MK(a), B = MK(b);
  const auto d = make(A, B);
  return d.nr_tiles() == GlobalTileSize{A.tiles(), B.tiles()};
}
//@ law tile_size_of ; about: $D: global_tile_size_of, tile_size_of ; dom: $AB, $T
extern "C" bool law_tile_size_of(AX(a), AX(b), S ai, S bi) {
  const auto A = MK(a), B = MK(b);
  const auto d = make(A, B);
  verif::assume(A.n > 0 && B.n > 0);
  const S sa = A.tile_size(ai), sb = B.tile_size(bi);
  return d.global_tile_size_of<Coord::Row>(ai) == sa && d.global_tile_size_of<Coord::Col>(bi) == sb && d.tile_size_of(GlobalTileIndex{ai, bi}) == TileElementSize{sa, sb} && sa > 0 &&
         sa <= A.t && sb > 0 && sb <= B.t;
}
// the tiles are contiguous: consecutive begins differ by the size, the last one ends at the extent
//@ law tiles_cover ; about: $D: global_tile_size_of, global_element_from_global_tile_and_tile_element ; dom: $AB, $T
extern "C" bool law_tiles_cover(AX(a), AX(b), S ai, S bi) {
  const auto A = MK(a), B = MK(b);
  const auto d = make(A, B);
  verif::assume(A.n > 0 && B.n > 0);
  const S ea = d.global_element_from_global_tile_and_tile_element<Coord::Row>(ai, 0) + d.global_tile_size_of<Coord::Row>(ai);
  const S eb = d.global_element_from_global_tile_and_tile_element<Coord::Col>(bi, 0) + d.global_tile_size_of<Coord::Col>(bi);
  const S na = ai + 1 == d.nr_tiles().rows() ? A.n : d.global_element_from_global_tile_and_tile_element<Coord::Row>(ai + 1, 0);
  const S nb = bi + 1 == d.nr_tiles().cols() ? B.n : d.global_element_from_global_tile_and_tile_element<Coord::Col>(bi + 1, 0);
  return ea == na && eb == nb;
}
//@ law local_nr_tiles ; about: $D: local_nr_tiles ; dom: $AB
extern "C" bool law_local_nr_tiles(AX(a), AX(b)) {
  const auto A = MK(a), B = MK(b);
  return make(A, B).local_nr_tiles() == LocalTileSize{A.n == 0 ? 0 : A.count_tiles(A.tiles(), A.r), B.n == 0 ? 0 : B.count_tiles(B.tiles(), B.r)};
}
//@ law local_size ; about: $D: local_size, compute_local_size ; dom: $AB
extern "C" bool law_local_size(AX(a), AX(b)) {
  const auto A = MK(a), B = MK(b);
  return make(A, B).local_size() == LocalElementSize{A.n == 0 ? 0 : A.count(A.n, A.r), B.n == 0 ? 0 : B.count(B.n, B.r)};
}
//@ law local_size_sums ; about: $D: local_size ; dom: an=0..40|1..3000, at=1..4|1..100, ak=1..3|1..20, ag=1..4, ar=0..ag-1, as_=0..ag-1, ao=0..2*ak*at|0..ak*at*ag*2, $B ; ends=1
// the local sizes over all ranks add up to the extent; a missing or doubled tile cannot be compensated
extern "C" bool law_local_size_sums(AX(a), AX(b)) {
  Axis A = MK(a); const auto B = MK(b);
  S rows = 0, tiles = 0;
  for (int q = 0; q < 4; ++q) {
    A.r = q < A.g ? q : 0;
    const auto d = make(A, B);
    rows += q < A.g ? d.local_size().rows() : 0;
    tiles += q < A.g ? d.local_nr_tiles().rows() : 0;
  }
  return rows == A.n && tiles == A.tiles();
}
//@ law local_tile_size ; about: $D: local_tile_size_of, tile_size_of(LocalTileIndex) ; dom: $AB, $T
extern "C" bool law_local_tile_size(AX(a), AX(b), S ai, S bi) {
  Axis A = MK(a), B = MK(b);
  verif::assume(A.n > 0 && B.n > 0);
  A.r = A.tile_owner(ai); B.r = B.tile_owner(bi);
  const auto d = make(A, B);
  const S la = A.local_tile(ai), lb = B.local_tile(bi);
  return d.local_tile_size_of<Coord::Row>(la) == A.tile_size(ai) && d.local_tile_size_of<Coord::Col>(lb) == B.tile_size(bi) &&
         d.tile_size_of(LocalTileIndex{la, lb}) == TileElementSize{A.tile_size(ai), B.tile_size(bi)};
}
//@ law nr_blocks ; about: $D: nr_blocks, local_nr_blocks ; dom: $AB
// (for a matrix that is not empty)
extern "C" bool law_nr_blocks(AX(a), AX(b)) {
  const auto A = MK(a), B = MK(b);
  verif::assume(A.n > 0 && B.n > 0);
  const auto d = make(A, B);
  Axis A1 = A, B1 = B;  // one tile per block
  A1.t = A.blk(); A1.k = 1; B1.t = B.blk(); B1.k = 1;
  return d.nr_blocks() == GlobalBlockSize{A1.tiles(), B1.tiles()} && (A.count(A.n, A.r) == 0 || d.local_nr_blocks().rows() == A1.count_tiles(A1.tiles(), A.r)) &&
         (B.count(B.n, B.r) == 0 || d.local_nr_blocks().cols() == B1.count_tiles(B1.tiles(), B.r)) &&
         d.single_tile_per_block() == (A.k == 1 && B.k == 1);
}
// distances
//@ law distance_to_adjacent ; about: $X: distance_to_adjacent_tile ; dom: $AB, ae=0..an-1, be=0..bn-1
extern "C" bool law_distance_to_adjacent(AX(a), AX(b), S ae, S be) {
  const auto A = MK(a), B = MK(b);
  const auto d = make(A, B);
  return dd::distance_to_adjacent_tile<Coord::Row>(d, ae) == A.tile_end(A.tile(ae)) - ae && dd::distance_to_adjacent_tile<Coord::Col>(d, be) == B.tile_end(B.tile(be)) - be;
}
//@ law global_distance ; about: $X: global_tile_element_distance ; dom: $AB, $T, aj=ai+1..ai+5|ai, bj=bi..bi+5
extern "C" bool law_global_distance(AX(a), AX(b), S ai, S bi, S aj, S bj) {
  const auto A = MK(a), B = MK(b);
  const auto d = make(A, B);
  verif::assume(A.n > 0 && B.n > 0);
  aj = aj < A.tiles() ? aj : A.tiles(); bj = bj < B.tiles() ? bj : B.tiles();
  return dd::global_tile_element_distance<Coord::Row>(d, ai, aj) == (aj == A.tiles() ? A.n : A.tile_begin(aj)) - A.tile_begin(ai) &&
         dd::global_tile_element_distance<Coord::Col>(d, bi, bj) == (bj == B.tiles() ? B.n : B.tile_begin(bj)) - B.tile_begin(bi);
}
//@ law local_distance ; about: $X: local_element_distance_from_global_tile, local_element_distance_from_local_tile ; dom: $AB, $T, aj=ai..ai+20, bj=bi..bi+20
extern "C" bool law_local_distance(AX(a), AX(b), S ai, S bi, S aj, S bj) {
  const auto A = MK(a), B = MK(b);
  const auto d = make(A, B);
  verif::assume(A.n > 0 && B.n > 0);
  aj = aj < A.tiles() ? aj : A.tiles(); bj = bj < B.tiles() ? bj : B.tiles();
  const S ca = A.count(aj == A.tiles() ? A.n : A.tile_begin(aj), A.r) - A.count(A.tile_begin(ai), A.r);
  const S cb = B.count(bj == B.tiles() ? B.n : B.tile_begin(bj), B.r) - B.count(B.tile_begin(bi), B.r);
  const LocalTileIndex l0{A.count_tiles(ai, A.r), B.count_tiles(bi, B.r)}, l1{A.count_tiles(aj, A.r), B.count_tiles(bj, B.r)};
  return dd::local_element_distance_from_global_tile<Coord::Row>(d, ai, aj) == ca && dd::local_element_distance_from_global_tile<Coord::Col>(d, bi, bj) == cb &&
         dd::local_element_distance_from_local_tile<Coord::Row>(d, l0.row(), l1.row()) == ca && dd::local_element_distance_from_local_tile<Coord::Col>(d, l0.col(), l1.col()) == cb &&
         dd::local_element_distance_from_local_tile(d, l0, l1) == LocalElementSize{ca, cb};
}
//@ law linear_index ; about: $X: local_tile_linear_index, global_tile_linear_index ; dom: $AB, ae=0..an-1, be=0..bn-1
extern "C" bool law_linear_index(AX(a), AX(b), S ae, S be) {
  Axis A = MK(a), B = MK(b);
  A.r = A.owner(ae); B.r = B.owner(be);
  const auto d = make(A, B);
  const LocalTileIndex l{A.local_tile(A.tile(ae)), B.local_tile(B.tile(be))};
  return dd::global_tile_linear_index(d, GlobalElementIndex{ae, be}) == A.tile(ae) + B.tile(be) * A.tiles() &&
         dd::local_tile_linear_index(d, l) == l.row() + l.col() * A.count_tiles(A.tiles(), A.r);
}
//@ law bad_range ; about: $X: distances and linear indices outside of the matrix are rejected ; n=60000 ; dom: w=0..13, c=0..1, x=0..3|0..10**6, n=0..1, $AB
extern "C" void rej_bad_range(int w, int c, S x, int n, AX(a), AX(b)) {
  const auto A = MK(a), B = MK(b);
  const Axis& Z = c ? B : A;
  const auto d = make(A, B);
  const S gt = Z.tiles(), lt = Z.count_tiles(Z.tiles(), Z.r);
  auto both = [&](auto f) { c ? f(std::integral_constant<Coord, Coord::Col>{}) : f(std::integral_constant<Coord, Coord::Row>{}); };
  const S ge = n ? -1 - x : Z.n + x, ol = n ? -1 - x : lt + x;
  both([&](auto rc) {
    constexpr Coord C = decltype(rc)::value;
    if (w == 0) (void) dd::distance_to_adjacent_tile<C>(d, ge);
    else if (w == 1) (void) dd::global_tile_element_distance<C>(d, gt, gt + 1 + x);           // begin behind the last tile
    else if (w == 2) (void) dd::global_tile_element_distance<C>(d, -1 - x, gt);
    else if (w == 3) { verif::assume(gt > 1); (void) dd::global_tile_element_distance<C>(d, gt - 1, x % (gt - 1)); }   // end before begin
    else if (w == 4) (void) dd::global_tile_element_distance<C>(d, 0, gt + 1 + x);
    else if (w == 5) (void) dd::local_element_distance_from_local_tile<C>(d, 0, lt + 1 + x);
    else if (w == 6) (void) dd::local_element_distance_from_local_tile<C>(d, -1 - x, lt);
    else if (w == 7) { verif::assume(lt > 0); (void) dd::local_element_distance_from_local_tile<C>(d, lt, x % lt); }
    else if (w == 8) (void) dd::local_element_distance_from_global_tile<C>(d, 0, gt + 1 + x);
    else if (w == 9) (void) dd::local_element_distance_from_global_tile<C>(d, -1 - x, gt);
    else if (w == 10) { verif::assume(gt > 0); (void) dd::local_element_distance_from_global_tile<C>(d, gt, x % gt); }
    else if (w == 11) (void) dd::global_tile_linear_index(d, c ? GlobalElementIndex(0, ge) : GlobalElementIndex(ge, 0));
    else if (w == 12) (void) dd::local_tile_linear_index(d, c ? LocalTileIndex(0, ol) : LocalTileIndex(ol, 0));
    else (void) dd::local_element_distance_from_local_tile<C>(d, lt + 1 + x, lt + 1 + x);
  });
}
