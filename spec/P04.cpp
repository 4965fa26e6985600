// P04 Row and column quantities are never interchanged
//
// Two statements per query: exchanging the roles of rows and columns in everything that is given exchanges them in the
// answer, and an answer about rows stays the same whatever the columns are.
//@ src: src/matrix/distribution.cpp
#include "blockcyclic.h"
#include <dlaf/communication/communicator_grid.h>
#include <dlaf/matrix/col_major_layout.h>
#include <dlaf/matrix/matrix_base.h>
#include <dlaf/matrix/views.h>
#include <dlaf/util_matrix.h>
using namespace dlaf;
using namespace ref;
using dlaf::matrix::SubDistributionSpec;
using dlaf::matrix::internal::MatrixBase;
namespace dd = dlaf::matrix::internal::distribution;
//@ def D = include/dlaf/matrix/distribution.h
//@ def X = include/dlaf/matrix/distribution_extensions.h
//@ def V = include/dlaf/matrix/views.h
//@ def A = an=1..20|1..100000|10**9..10**10, at=1..4|1..300, ak=1..3|1..20, ag=1..4|1..100, ar=0..ag-1, as_=0..ag-1, ao=0..2*ak*at|0..ak*at*ag*2
//@ def B = bn=1..20|1..100000|10**8..10**9//2, bt=1..4|1..300, bk=1..3|1..20, bg=1..4|1..100, br=0..bg-1, bs=0..bg-1, bo=0..2*bk*bt|0..bk*bt*bg*2
//@ def C = cn=1..20|1..100000, ct=1..4|1..300, ck=1..3|1..20, cg=1..4|1..100, cr=0..cg-1, cs=0..cg-1, co=0..2*ck*ct|0..ck*ct*cg*2
//@ def SUB = ai=0..an-1, am=1..an-ai, bi=0..bn-1, bm=1..bn-bi
//@ def AB = $A, $B
#define SW(x, y) (x.template get<Coord::Row>() == y.template get<Coord::Col>() && x.template get<Coord::Col>() == y.template get<Coord::Row>())
static bool same_but_swapped(const Distribution& d, const Distribution& e) {
  return SW(d.size(), e.size()) && SW(d.local_size(), e.local_size()) && SW(d.nr_tiles(), e.nr_tiles()) && SW(d.local_nr_tiles(), e.local_nr_tiles()) && SW(d.nr_blocks(), e.nr_blocks()) &&
         SW(d.local_nr_blocks(), e.local_nr_blocks()) && SW(d.block_size(), e.block_size()) && SW(d.tile_size(), e.tile_size()) && SW(d.rank_index(), e.rank_index()) &&
         SW(d.grid_size(), e.grid_size()) && SW(d.source_rank_index(), e.source_rank_index()) && SW(d.offset(), e.offset());
}
//@ law swap ; about: $D: Distribution; src/matrix/distribution.cpp ; dom: $AB
extern "C" bool law_swap(AX(a), AX(b)) { return same_but_swapped(make(MK(a), MK(b)), make(MK(b), MK(a))); }
//@ law swap_plain ; about: $D: constructors ; dom: $AB, k=0..3
extern "C" bool law_swap_plain(AX(a), AX(b), int k) {
  const auto A = MK(a), B = MK(b);
  auto build = [&](const Axis& r, const Axis& c) {
    if (k == 0) return Distribution(LocalElementSize{r.n, c.n}, TileElementSize{r.t, c.t}, GlobalElementIndex{r.o, c.o});
    if (k == 1) return Distribution(GlobalElementSize{r.n, c.n}, TileElementSize{r.t, c.t}, comm::Size2D{r.g, c.g}, comm::Index2D{r.r, c.r}, comm::Index2D{r.s, c.s}, GlobalElementIndex{r.o, c.o});
    if (k == 2) return Distribution(GlobalElementSize{r.n, c.n}, TileElementSize{r.t, c.t}, comm::Size2D{r.g, c.g}, comm::Index2D{r.r, c.r}, comm::Index2D{r.s, c.s}, GlobalTileIndex{r.o / r.t, c.o / c.t}, GlobalElementIndex{r.o % r.t, c.o % c.t});
    return Distribution(GlobalElementSize{r.n, c.n}, GlobalElementSize{r.blk(), c.blk()}, TileElementSize{r.t, c.t}, comm::Size2D{r.g, c.g}, comm::Index2D{r.r, c.r}, comm::Index2D{r.s, c.s}, GlobalTileIndex{r.o / r.t, c.o / c.t}, GlobalElementIndex{r.o % r.t, c.o % c.t});
  };
  return same_but_swapped(build(A, B), build(B, A));
}
//@ law swap_part ; about: $D: Distribution(Distribution, SubDistributionSpec) ; dom: $AB, $SUB
extern "C" bool law_swap_part(AX(a), AX(b), S ai, S am, S bi, S bm) {
  const auto A = MK(a), B = MK(b);
  return same_but_swapped(Distribution(make(A, B), SubDistributionSpec{GlobalElementIndex{ai, bi}, GlobalElementSize{am, bm}}),
                          Distribution(make(B, A), SubDistributionSpec{GlobalElementIndex{bi, ai}, GlobalElementSize{bm, am}}));
}
//@ law swap_blocks ; about: $D: create_single_tile_per_block_distribution ; dom: $AB
extern "C" bool law_swap_blocks(AX(a), AX(b)) {
  const auto A = MK(a), B = MK(b);
  return same_but_swapped(dlaf::matrix::internal::create_single_tile_per_block_distribution(make(A, B)), dlaf::matrix::internal::create_single_tile_per_block_distribution(make(B, A)));
}
//@ law swap_retile ; about: include/dlaf/matrix/matrix_base.h: MatrixBase(Distribution, LocalTileSize) ; dom: $AB, p=1..5, q=1..5
extern "C" bool law_swap_retile(AX(a), AX(b), S p, S q) {
  auto A = MK(a), B = MK(b);
  A.k = B.k = 1;
  A.t *= p, B.t *= q;
  A.o = B.o = 0;
  const MatrixBase x(make(A, B), {p, q}), y(make(B, A), {q, p});
  return same_but_swapped(x.distribution(), y.distribution()) && SW(x.size(), y.size()) && SW(x.block_size(), y.block_size()) && SW(x.tile_size(), y.tile_size()) && SW(x.nr_tiles(), y.nr_tiles()) &&
         SW(x.rank_index(), y.rank_index()) && SW(x.grid_size(), y.grid_size()) && SW(x.source_rank_index(), y.source_rank_index());
}
// every query that has a coordinate as its template argument; x is the number of the query
template <Coord rc>
static S ask(int x, const Distribution& d, S e, S i, S l, S m, int r, bool has_m, bool has_l) {  // e: element, i: tile, l: local tile, m: local element, r: rank
  switch (x) {
    case 0: return d.global_element_from_global_tile_and_tile_element<rc>(i, 0);
    case 1: return d.rank_global_element<rc>(e);
    case 2: return d.rank_global_tile<rc>(i);
    case 3: return d.global_tile_from_global_element<rc>(e);
    case 4: return d.local_tile_from_global_element<rc>(e);
    case 5: return d.local_tile_from_global_tile<rc>(i);
    case 6: return d.next_local_tile_from_global_element<rc>(e);
    case 7: return d.next_local_tile_from_global_tile<rc>(i);
    case 8: return d.tile_element_from_global_element<rc>(e);
    case 9: return d.local_element_from_global_element<rc>(e);
    case 10: return d.global_tile_size_of<rc>(i);
    case 11: return dd::global_tile_offset<rc>(d);
    case 12: return dd::global_tile_element_offset<rc>(d);
    case 13: return dd::local_tile_offset_on_rank<rc>(d, r);
    case 14: return dd::local_tile_element_offset_on_rank<rc>(d, r);
    case 15: return has_m ? dd::local_tile_from_local_element_on_rank<rc>(d, r, m) : 0;
    case 16: return has_m ? dd::tile_element_from_local_element_on_rank<rc>(d, r, m) : 0;
    case 17: return has_l ? dd::global_tile_from_local_tile_on_rank<rc>(d, r, l) : 0;
    case 18: return has_m ? dd::global_element_from_local_element_on_rank<rc>(d, r, m) : 0;
    case 19: return dd::local_tile_from_global_tile_any_rank<rc>(d, i);
    case 20: return dd::distance_to_adjacent_tile<rc>(d, e);
    case 21: return dd::global_tile_element_distance<rc>(d, 0, i);
    case 22: return l < d.local_nr_tiles().template get<rc>() ? d.global_tile_from_local_tile<rc>(l) : 0;
    case 23: return l < d.local_nr_tiles().template get<rc>() ? d.local_tile_size_of<rc>(l) : 0;
    case 24: return m < d.local_size().template get<rc>() ? d.global_element_from_local_element<rc>(m) : 0;
    case 25: return m < d.local_size().template get<rc>() ? d.local_tile_from_local_element<rc>(m) : 0;
    case 26: return m < d.local_size().template get<rc>() ? d.tile_element_from_local_element<rc>(m) : 0;
    case 27: return l <= d.local_nr_tiles().template get<rc>() ? dd::local_element_distance_from_local_tile<rc>(d, 0, l) : 0;
    case 28: return dd::local_element_distance_from_global_tile<rc>(d, 0, i);
    default: return l < d.local_nr_tiles().template get<rc>() && m < d.local_tile_size_of<rc>(l) ? d.global_element_from_local_tile_and_tile_element<rc>(l, m) : 0;
  }
}
//@ def Q = ae=0..an-1, al=0..3|0..an-1, am=0..3|0..an-1, aq=0..ag-1
//@ law rows_as_columns ; about: $D, $X: every query by coordinate ; dom: x=0..29, $AB, $Q ; n=60000
extern "C" bool law_rows_as_columns(int x, AX(a), AX(b), S ae, S al, S am, int aq) {
  const auto A = MK(a), B = MK(b);
  const auto d = make(A, B), e = make(B, A);
  return ask<Coord::Row>(x, d, ae, A.tile(ae), al, am, aq, am < A.count(A.n, aq), al < A.count_tiles(A.tiles(), aq)) == ask<Coord::Col>(x, e, ae, A.tile(ae), al, am, aq, am < A.count(A.n, aq), al < A.count_tiles(A.tiles(), aq));
}
//@ law rows_alone ; about: $D, $X: every query by row is independent of the columns ; dom: x=0..29, $AB, $C, $Q ; n=60000
extern "C" bool law_rows_alone(int x, AX(a), AX(b), AX(c), S ae, S al, S am, int aq) {
  const auto A = MK(a), B = MK(b), C = MK(c);
  return ask<Coord::Row>(x, make(A, B), ae, A.tile(ae), al, am, aq, am < A.count(A.n, aq), al < A.count_tiles(A.tiles(), aq)) == ask<Coord::Row>(x, make(A, C), ae, A.tile(ae), al, am, aq, am < A.count(A.n, aq), al < A.count_tiles(A.tiles(), aq));
}
//@ law columns_alone ; about: $D, $X: every query by column is independent of the rows ; dom: x=0..29, $AB, $C, $Q ; n=60000
extern "C" bool law_columns_alone(int x, AX(a), AX(b), AX(c), S ae, S al, S am, int aq) {
  const auto A = MK(a), B = MK(b), C = MK(c);
  return ask<Coord::Col>(x, make(B, A), ae, A.tile(ae), al, am, aq, am < A.count(A.n, aq), al < A.count_tiles(A.tiles(), aq)) == ask<Coord::Col>(x, make(C, A), ae, A.tile(ae), al, am, aq, am < A.count(A.n, aq), al < A.count_tiles(A.tiles(), aq));
}
//@ law pairs ; about: $D: queries by pair ; dom: $AB, ae=0..an-1, be=0..bn-1, k=0..8
extern "C" bool law_pairs(AX(a), AX(b), S ae, S be, int k) {
  const auto A = MK(a), B = MK(b);
  const auto d = make(A, B), e = make(B, A);
  const GlobalElementIndex x{ae, be}, y{be, ae};
  const GlobalTileIndex i{A.tile(ae), B.tile(be)}, j{B.tile(be), A.tile(ae)};
  const bool mine = A.owner(ae) == A.r && B.owner(be) == B.r;
  const LocalTileIndex l{A.local_tile(i.row()), B.local_tile(i.col())}, m{l.col(), l.row()};
  switch (k) {
    case 0: return SW(d.global_tile_index(x), e.global_tile_index(y));
    case 1: return SW(d.rank_global_tile(i), e.rank_global_tile(j));
    case 2: return SW(d.tile_element_index(x), e.tile_element_index(y));
    case 3: return SW(d.tile_size_of(i), e.tile_size_of(j));
    case 4: return SW(d.global_element_index(i, d.tile_element_index(x)), e.global_element_index(j, e.tile_element_index(y)));
    case 5: return !mine || SW(d.global_tile_index(l), e.global_tile_index(m));
    case 6: return !mine || SW(d.tile_size_of(l), e.tile_size_of(m));
    case 7: return !mine || SW(d.local_tile_index(i), e.local_tile_index(j));
    default: return d.single_tile_per_block() == e.single_tile_per_block();
  }
}
//@ law pairs_apart ; about: $X: distances and parts ; dom: $AB, $SUB, ae=0..am-1, be=0..bm-1, al=0..3, bl=0..3, k=0..1
extern "C" bool law_pairs_apart(AX(a), AX(b), S ai, S am, S bi, S bm, S ae, S be, S al, S bl, int k) {
  const auto A = MK(a), B = MK(b);
  const auto d = make(A, B), e = make(B, A);
  if (k == 0) {
    const Distribution p(d, SubDistributionSpec{GlobalElementIndex{ai, bi}, GlobalElementSize{am, bm}}), q(e, SubDistributionSpec{GlobalElementIndex{bi, ai}, GlobalElementSize{bm, am}});
    const GlobalTileIndex i = p.global_tile_index(GlobalElementIndex{ae, be}), j = q.global_tile_index(GlobalElementIndex{be, ae});
    return SW(dd::global_tile_index_from_sub_distribution(d, GlobalElementIndex{ai, bi}, p, i), dd::global_tile_index_from_sub_distribution(e, GlobalElementIndex{bi, ai}, q, j)) &&
           SW(dd::tile_element_offset_from_sub_distribution(d, GlobalElementIndex{ai, bi}, p, i), dd::tile_element_offset_from_sub_distribution(e, GlobalElementIndex{bi, ai}, q, j));
  }
  const LocalTileSize n = d.local_nr_tiles();
  if (al > n.rows() || bl > n.cols()) return true;
  return SW(dd::local_element_distance_from_local_tile(d, LocalTileIndex{0, 0}, LocalTileIndex{al, bl}), dd::local_element_distance_from_local_tile(e, LocalTileIndex{0, 0}, LocalTileIndex{bl, al}));
}
//@ law matrix_view ; about: $V: View, SubMatrixView ; dom: $AB, ai=0..an-1, bi=0..bn-1, ae=ai..an-1, be=bi..bn-1
extern "C" bool law_matrix_view(AX(a), AX(b), S ai, S bi, S ae, S be) {
  const auto A = MK(a), B = MK(b);
  const dlaf::matrix::SubMatrixView v(make(A, B), GlobalElementIndex{ai, bi}), w(make(B, A), GlobalElementIndex{bi, ai});
  if (!SW(v.offset(), w.offset()) || !SW(v.begin(), w.begin()) || !SW(v.offsetElement(), w.offsetElement())) return false;
  if (A.owner(ae) != A.r || B.owner(be) != B.r) return true;
  const S l = A.local_tile(A.tile(ae)), m = B.local_tile(B.tile(be));
  const auto s = v(LocalTileIndex{l, m}), t = w(LocalTileIndex{m, l});
  return SW(s.origin, t.origin) && SW(s.size, t.size);
}
//@ law predicates ; about: include/dlaf/util_matrix.h: what is square, equal or multipliable is so for the transposed matrices ; dom: $AB, k=0..3
extern "C" bool law_predicates(AX(a), AX(b), int k) {
  using namespace dlaf::matrix;
  const auto A = MK(a), B = MK(b);
  const MatrixBase x(make(A, B)), y(make(B, A));
  if (k == 0) return square_size(x) == (A.n == B.n) && square_size(x) == square_size(y);
  if (k == 1) return square_block_size(x) == (A.blk() == B.blk()) && square_block_size(y) == square_block_size(x);
  if (k == 2) return square_tile_size(x) == (A.t == B.t) && square_tile_size(y) == square_tile_size(x);
  return equal_size(x, y) == (A.n == B.n);
}
