// P03 Sub-distributions, views and retiling address exactly the parent's elements
//@ src: src/matrix/distribution.cpp
#include "blockcyclic.h"
#include <dlaf/matrix/matrix_base.h>
#include <dlaf/matrix/views.h>
#include <dlaf/util_matrix.h>
using namespace dlaf;
using namespace ref;
using dlaf::matrix::SubDistributionSpec;
namespace dd = dlaf::matrix::internal::distribution;
//@ def D = src/matrix/distribution.cpp
//@ def X = include/dlaf/matrix/distribution_extensions.h
//@ def V = include/dlaf/matrix/views.h
//@ def A = an=1..20|1..100000|10**9..10**12, at=1..4|1..300, ak=1..3|1..20, ag=1..4|1..100, ar=0..ag-1, as_=0..ag-1, ao=0..2*ak*at|0..ak*at*ag*2
//@ def B = bn=1..20|1..100000|10**9..10**12, bt=1..4|1..300, bk=1..3|1..20, bg=1..4|1..100, br=0..bg-1, bs=0..bg-1, bo=0..2*bk*bt|0..bk*bt*bg*2
//@ def SUB = ai=0..an-1, am=1..an-ai, bi=0..bn-1, bm=1..bn-bi
//@ def E = ae=0..am-1, be=0..bm-1
//@ def AB = $A, $B
static Distribution sub(const Axis& A, const Axis& B, S ai, S am, S bi, S bm) {
  return Distribution(make(A, B), SubDistributionSpec{GlobalElementIndex{ai, bi}, GlobalElementSize{am, bm}});
}
// element e of the sub-distribution is element origin+e of the parent: same owner, same stored element
template <Coord rc>
static bool same_place(const Distribution& d, const Axis& A, S o, S m, S e) {
  const S p = o + e;
  const bool mine = A.owner(p) == A.r;
  return d.rank_global_element<rc>(e) == A.owner(p) && d.local_element_from_global_element<rc>(e) == (mine ? A.local_element(p) - A.count(o, A.r) : -1) &&
         d.local_tile_from_global_element<rc>(e) == (mine ? A.local_tile(A.tile(p)) - A.count_tiles(A.tile(o), A.r) : -1) &&
         d.global_tile_from_global_element<rc>(e) == A.tile(p) - A.tile(o) && d.tile_element_from_global_element<rc>(e) == A.in_tile(p) - (A.tile(p) == A.tile(o) ? A.in_tile(o) : 0) &&
         d.size().template get<rc>() == m && d.local_size().template get<rc>() == A.count(o + m, A.r) - A.count(o, A.r) && d.nr_tiles().template get<rc>() == A.tile(o + m - 1) - A.tile(o) + 1 &&
         d.local_nr_tiles().template get<rc>() == A.count_tiles(A.tile(o + m - 1) + 1, A.r) - A.count_tiles(A.tile(o), A.r);
}
//@ law sub_row ; about: $D: Distribution(Distribution, SubDistributionSpec) ; dom: $AB, $SUB, $E
extern "C" bool law_sub_row(AX(a), AX(b), S ai, S am, S bi, S bm, S ae, S be) {
  const auto A = MK(a), B = MK(b);
  return same_place<Coord::Row>(sub(A, B, ai, am, bi, bm), A, ai, am, ae);
}
//@ law sub_col ; about: $D: Distribution(Distribution, SubDistributionSpec) ; dom: $AB, $SUB, $E
extern "C" bool law_sub_col(AX(a), AX(b), S ai, S am, S bi, S bm, S ae, S be) {
  const auto A = MK(a), B = MK(b);
  return same_place<Coord::Col>(sub(A, B, ai, am, bi, bm), B, bi, bm, be);
}
//@ law sub_keeps ; about: $D: Distribution(Distribution, SubDistributionSpec) ; dom: $AB, $SUB
extern "C" bool law_sub_keeps(AX(a), AX(b), S ai, S am, S bi, S bm) {
  const auto A = MK(a), B = MK(b);
  const auto d = make(A, B);
  const auto e = sub(A, B, ai, am, bi, bm);
  return e.block_size() == d.block_size() && e.tile_size() == d.tile_size() && e.rank_index() == d.rank_index() && e.grid_size() == d.grid_size();
}
//@ law sub_empty ; about: $D: Distribution(Distribution, SubDistributionSpec) ; dom: $AB, ai=0..an, bi=0..bn, bm=0..bn-bi
extern "C" bool law_sub_empty(AX(a), AX(b), S ai, S bi, S bm) {
  const auto A = MK(a), B = MK(b);
  const auto e = sub(A, B, ai, 0, bi, bm);
  return e.size() == GlobalElementSize{0, bm} && e.nr_tiles().rows() == 0 && e.local_nr_tiles().rows() == 0 && e.local_size().rows() == 0;
}
//@ law sub_sub ; about: $D: Distribution(Distribution, SubDistributionSpec) ; dom: $AB, $SUB, ax=0..am-1, ay=1..am-ax, bx=0..bm-1, by=1..bm-bx
extern "C" bool law_sub_sub(AX(a), AX(b), S ai, S am, S bi, S bm, S ax, S ay, S bx, S by) {
  const auto A = MK(a), B = MK(b);
  return Distribution(sub(A, B, ai, am, bi, bm), SubDistributionSpec{GlobalElementIndex{ax, bx}, GlobalElementSize{ay, by}}) == sub(A, B, ai + ax, ay, bi + bx, by);
}
//@ law sub_outside ; about: $D: Distribution(Distribution, SubDistributionSpec) ; dom: which=0..5, $AB, $SUB
extern "C" void rej_sub_outside(int which, AX(a), AX(b), S ai, S am, S bi, S bm) {
  const auto A = MK(a), B = MK(b);
  if (which == 0) am = A.n - ai + am;
  else if (which == 1) bm = B.n - bi + bm;
  else if (which == 2) ai = -1 - ai;
  else if (which == 3) bi = -1 - bi;
  else if (which == 4) am = -am;
  else bm = -bm;
  sub(A, B, ai, am, bi, bm);
}
//@ law parent_tile ; about: $X: global_tile_index_from_sub_distribution, tile_element_offset_from_sub_distribution, is_compatible_sub_distribution ; dom: $AB, $SUB, $E
extern "C" bool law_parent_tile(AX(a), AX(b), S ai, S am, S bi, S bm, S ae, S be) {
  const auto A = MK(a), B = MK(b);
  const auto d = make(A, B), e = sub(A, B, ai, am, bi, bm);
  const GlobalElementIndex o{ai, bi};
  const GlobalTileIndex t{A.tile(ai + ae) - A.tile(ai), B.tile(bi + be) - B.tile(bi)};
  const auto x = dd::tile_element_offset_from_sub_distribution(d, o, e, t);
  return dd::is_compatible_sub_distribution(d, o, e) && dd::global_tile_index_from_sub_distribution(d, o, e, t) == GlobalTileIndex{A.tile(ai + ae), B.tile(bi + be)} &&
         x == TileElementIndex{t.row() == 0 ? A.in_tile(ai) : 0, t.col() == 0 ? B.in_tile(bi) : 0};
}
//@ law block_dist ; about: $D: create_single_tile_per_block_distribution ; dom: $AB, ae=0..an-1, be=0..bn-1
extern "C" bool law_block_dist(AX(a), AX(b), S ae, S be) {
  Axis A = MK(a), B = MK(b);
  A.r = A.owner(ae); B.r = B.owner(be);
  const auto d = make(A, B);
  A.t = A.blk(); A.k = 1; B.t = B.blk(); B.k = 1;
  return dlaf::matrix::internal::create_single_tile_per_block_distribution(d) == make(A, B);
}
//@ law block_dist_empty ; about: $D: create_single_tile_per_block_distribution of an empty matrix ; dom: $AB
extern "C" bool law_block_dist_empty(AX(a), AX(b)) {
  Axis A = MK(a), B = MK(b);
  A.n = B.n = 0;
  const auto d = dlaf::matrix::internal::create_single_tile_per_block_distribution(make(A, B));
  return d.nr_tiles() == GlobalTileSize{0, 0} && d.local_nr_tiles() == LocalTileSize{0, 0};
}
//@ law retile ; about: include/dlaf/matrix/matrix_base.h: MatrixBase(Distribution, LocalTileSize) ; dom: $AB, ap=1..4, bp=1..4
// (matrices have no offset)
extern "C" bool law_retile(AX(a), AX(b), S ap, S bp) {
  Axis A = MK(a), B = MK(b);
  A.o = B.o = 0;
  Axis A1 = A, B1 = B;
  A.k = B.k = 1; A.t *= ap; B.t *= bp;       // one tile per block, block = ap * t
  const dlaf::matrix::internal::MatrixBase m(make(A, B), LocalTileSize{ap, bp});
  A1.k = ap; B1.k = bp;
  return m.distribution() == make(A1, B1);
}
//@ law retile_bad ; about: include/dlaf/matrix/matrix_base.h: MatrixBase(Distribution, LocalTileSize) ; dom: $AB, ap=2..4, bp=2..4, c=0..1
extern "C" void rej_retile_bad(AX(a), AX(b), S ap, S bp, bool c) {
  Axis A = MK(a), B = MK(b);
  A.o = B.o = 0;
  A.k = B.k = 1;
  if (c) { A.t = A.t * ap + 1; B.t *= bp; }
  else { B.t = B.t * bp + 1; A.t *= ap; }
  const dlaf::matrix::internal::MatrixBase m(make(A, B), LocalTileSize{ap, bp});
}
//@ law retile_multi ; about: include/dlaf/matrix/matrix_base.h: MatrixBase(Distribution, LocalTileSize) ; dom: $AB, c=0..1
extern "C" void rej_retile_multi(AX(a), AX(b), bool c) {
  Axis A = MK(a), B = MK(b);
  A.o = B.o = 0;
  (c ? A : B).k += 1;
  const dlaf::matrix::internal::MatrixBase m(make(A, B), LocalTileSize{1, 1});
}
// ---- views
static S clamp0(S x) { return x > 0 ? x : 0; }
//@ def W = ai=0..an-1, bi=0..bn-1, ae=ai..an-1, be=bi..bn-1
// (a local matrix has fewer than 2^63 tiles)
//@ def AV = an=1..20|1..100000|10**9..10**10, at=1..4|1..300, ak=1..3|1..20, ag=1..4|1..100, ar=0..ag-1, as_=0..ag-1, ao=0..2*ak*at|0..ak*at*ag*2
//@ def BV = bn=1..20|1..100000|10**8..10**9//2, bt=1..4|1..300, bk=1..3|1..20, bg=1..4|1..100, br=0..bg-1, bs=0..bg-1, bo=0..2*bk*bt|0..bk*bt*bg*2
//@ law matrix_view ; about: $V: View, SubMatrixView ; dom: $AV, $BV, $W
extern "C" bool law_matrix_view(AX(a), AX(b), S ai, S bi, S ae, S be) {
  Axis A = MK(a), B = MK(b);
  A.r = A.owner(ae); B.r = B.owner(be);
  const dlaf::matrix::SubMatrixView v(make(A, B), GlobalElementIndex{ai, bi});
  const LocalTileIndex l{A.local_tile(A.tile(ae)), B.local_tile(B.tile(be))};
  const auto r = v.iteratorLocal();
  const bool in = isIndexInRange(l, r);
  const auto first = *r.begin();
  const auto last = *std::prev(r.end());
  const auto s = v(l);
  const S oa = clamp0(ai - A.tile_begin(A.tile(ae))), ob = clamp0(bi - B.tile_begin(B.tile(be)));
  return in && first == LocalTileIndex{A.count_tiles(A.tile(ai), A.r), B.count_tiles(B.tile(bi), B.r)} && v.begin() == first &&
         last == LocalTileIndex{A.count_tiles(A.tiles(), A.r) - 1, B.count_tiles(B.tiles(), B.r) - 1} && v.offset() == GlobalTileIndex{A.tile(ai), B.tile(bi)} &&
         v.offsetElement() == GlobalElementIndex{ai, bi} && s.origin == TileElementIndex{oa, ob} &&
         s.size == TileElementSize{A.tile_size(A.tile(ae)) - oa, B.tile_size(B.tile(be)) - ob};
}
//@ law panel_view ; about: $V: View, SubPanelView ; dom: $AV, $BV, ai=0..an-1, bi=0..bn-1, ae=ai..an-1, nc=1..3|1..300
extern "C" bool law_panel_view(AX(a), AX(b), S ai, S bi, S ae, S nc) {
  Axis A = MK(a), B = MK(b);
  verif::assume(B.in_tile(bi) + nc <= B.t);
  A.r = A.owner(ae); B.r = B.owner(bi);
  const dlaf::matrix::SubPanelView v(make(A, B), GlobalElementIndex{ai, bi}, nc);
  const LocalTileIndex l{A.local_tile(A.tile(ae)), B.local_tile(B.tile(bi))};
  const auto r = v.iteratorLocal();
  const bool in = isIndexInRange(l, r);
  const auto first = *r.begin();
  const auto last = *std::prev(r.end());
  const auto s = v(l);
  const S oa = clamp0(ai - A.tile_begin(A.tile(ae))), ob = B.in_tile(bi), rest = B.tile_size(B.tile(bi)) - ob;
  return in && first == LocalTileIndex{A.count_tiles(A.tile(ai), A.r), l.col()} && last == LocalTileIndex{A.count_tiles(A.tiles(), A.r) - 1, l.col()} && v.cols() == nc &&
         s.origin == TileElementIndex{oa, ob} && s.size == TileElementSize{A.tile_size(A.tile(ae)) - oa, nc < rest ? nc : rest};
}
//@ law view_outside ; about: $V: View ; dom: $AB, c=0..1, x=0..5
extern "C" void rej_view_outside(AX(a), AX(b), bool c, S x) {
  const Axis A = MK(a), B = MK(b);
  const dlaf::matrix::SubMatrixView v(make(A, B), GlobalElementIndex{c ? A.n + x : 0, c ? 0 : B.n + x});
}
//@ law parent_bad ; about: $X: tile indices outside of the part, and parts of another distribution, are rejected ; n=60000 ; dom: w=0..7, x=0..3|0..10**6, k=0..1, $AB, $SUB
extern "C" void rej_parent_bad(int w, S x, int k, AX(a), AX(b), S ai, S am, S bi, S bm) {
  Axis A = MK(a), B = MK(b);
  const auto e = sub(A, B, ai, am, bi, bm);
  const S er = e.nr_tiles().rows(), ec = e.nr_tiles().cols();
  verif::assume(er > 0 && ec > 0);
  GlobalTileIndex t{0, 0};
  GlobalElementIndex o{ai, bi};
  if (w == 0) t = {er + x, 0};
  else if (w == 1) t = {0, ec + x};
  else if (w == 2) t = {-1 - x, 0};
  else if (w == 3) t = {0, -1 - x};
  else if (w == 4) A.t *= 2;          // another tile size
  else if (w == 5) B.k += 1;          // another block size
  else if (w == 6) { A.g += 1; A.s = A.r; }          // another grid
  else { verif::assume(A.g > 1); A.r = A.r ? A.r - 1 : A.r + 1; }   // another rank
  const auto d = make(A, B);
  if (k) (void) dd::global_tile_index_from_sub_distribution(d, o, e, t);
  else (void) dd::tile_element_offset_from_sub_distribution(d, o, e, t);
}
