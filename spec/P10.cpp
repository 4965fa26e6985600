// P10 Memory layouts place all elements inside the allocation, without overlap
//@ src: src/matrix/distribution.cpp
#define VERIF_DECL_ONLY
#define PTRS void *p0, void *p1, void *p2, void *p3
#define P4 p0, p1, p2, p3
#include "blockcyclic.h"
#include <dlaf/matrix/tile.h>
#include <dlaf/matrix/col_major_layout.h>
using namespace dlaf;
using namespace dlaf::matrix;
using namespace ref;
using EL = TYPE;
// Recorder of the tiles that a matrix creates
namespace rec {
struct entry { S rows, cols, ld; const EL* p; };
inline entry e[16];
inline int n;
inline S mem[16];  // allocations: number of bytes
inline int nmem;
}
namespace dlaf::matrix::internal {
template <class T, Device D> class TilePipeline;
template <>
class TilePipeline<EL, Device::CPU> {
public:
  explicit TilePipeline(Tile<EL, Device::CPU>&& t) {
    rec::e[rec::n++] = {t.size().rows(), t.size().cols(), t.ld(), t.ptr()};
  }
  void reset() {}
};
}
#include <dlaf/matrix/matrix.h>
//@ variants: TYPE=SizeType | TYPE=short
//@ def L = include/dlaf/matrix/col_major_layout.h
//@ def A = an=0..20|1..100000|10**9..10**12, at=1..4|1..300, ak=1..3|1..20, ag=1..4|1..100, ar=0..ag-1, as_=0..ag-1
//@ def B = bn=0..20|1..100000|10**9..10**12, bt=1..4|1..300, bk=1..3|1..20, bg=1..4|1..100, br=0..bg-1, bs=0..bg-1
//@ def M = include/dlaf/matrix/matrix.h
// addresses and sizes of the allocations of the reference heap
namespace rec { inline char* blk[4]; }
namespace dlaf::memory::internal {
inline umpire::Allocator heap;
umpire::Allocator& getUmpireHostAllocator() { return heap; }
}
namespace umpire {
inline void* Allocator::allocate(std::size_t b) { rec::mem[rec::nmem] = static_cast<S>(b); return rec::blk[rec::nmem++]; }
inline void Allocator::deallocate(void*) {}
}
[[gnu::always_inline]] static void reset(void* p0, void* p1, void* p2, void* p3) {
  rec::n = 0; rec::nmem = 0;
  rec::blk[0] = (char*) p0; rec::blk[1] = (char*) p1; rec::blk[2] = (char*) p2; rec::blk[3] = (char*) p3;
}
//@ law cm_offset ; about: $L: tile_offset, ld_tile, tile_size_of ; dom: $A, $B, ld=0..10|1..10**6, ai=0..20|0..1000, bi=0..20|0..1000
extern "C" bool law_cm_offset(S an, S at, S ak, int ag, int ar, int as_, S bn, S bt, S bk, int bg, int br, int bs, S ld, S ai, S bi) {
  const Axis A{an, at, ak, ag, ar, as_, 0}, B{bn, bt, bk, bg, br, bs, 0};
  const auto d = make(A, B);
  const auto nt = d.local_nr_tiles();
  verif::assume(ai < nt.rows() && bi < nt.cols() && ld >= d.local_size().rows());
  const ColMajorLayout l(d, ld);
  const LocalTileIndex ij(ai, bi);
  // in local storage all the tiles but the last are complete
  return l.tile_offset(ij) == ai * at + bi * bt * ld && l.ld_tile(ij) == ld && l.tile_size_of(ij) == d.tile_size_of(ij);
}
// the last element of the tile is the last one of its memory, and it lies in the memory of the matrix, whose last element it is for the last tile
//@ law cm_min_size ; about: $L: min_mem_size, min_tile_mem_size ; dom: $A, $B, ld=0..10|1..10**6, ai=0..20|0..1000, bi=0..20|0..1000
extern "C" bool law_cm_min_size(S an, S at, S ak, int ag, int ar, int as_, S bn, S bt, S bk, int bg, int br, int bs, S ld, S ai, S bi) {
  const Axis A{an, at, ak, ag, ar, as_, 0}, B{bn, bt, bk, bg, br, bs, 0};
  const auto d = make(A, B);
  const auto nt = d.local_nr_tiles();
  verif::assume(ai < nt.rows() && bi < nt.cols() && ld >= d.local_size().rows());
  const ColMajorLayout l(d, ld);
  const LocalTileIndex ij(ai, bi);
  const auto s = d.tile_size_of(ij);
  const auto z = d.local_size();
  return l.min_tile_mem_size(ij) == (s.cols() - 1) * ld + s.rows() && l.min_mem_size() == (z.cols() - 1) * ld + z.rows();
}
//@ law cm_empty ; about: $L: min_mem_size ; dom: $A, $B, ld=1..10|1..10**6
extern "C" bool law_cm_empty(S an, S at, S ak, int ag, int ar, int as_, S bn, S bt, S bk, int bg, int br, int bs, S ld) {
  const Axis A{an, at, ak, ag, ar, as_, 0}, B{bn, bt, bk, bg, br, bs, 0};
  const auto d = make(A, B);
  verif::assume(d.local_size().isEmpty());
  const ColMajorLayout l(d, ld);
  return l.min_mem_size() == 0;
}
//@ law cm_accept ; about: $L: ColMajorLayout(leading dimension, offset) ; dom: $A, $B, ld=-2..10|-5..3000
extern "C" bool law_cm_accept(S an, S at, S ak, int ag, int ar, int as_, S bn, S bt, S bk, int bg, int br, int bs, S ld) {
  const Axis A{an, at, ak, ag, ar, as_, 0}, B{bn, bt, bk, bg, br, bs, 0};
  const auto d = make(A, B);
  const auto z = d.local_size();
  verif::assume(ld >= 1 && (z.isEmpty() || ld >= z.rows()));
  const ColMajorLayout l(d, ld);
  return l.distribution() == d && l.allocation_layout() == AllocationLayout::ColMajor && l.size() == z && l.nr_tiles() == d.local_nr_tiles() && l.tile_size() == TileElementSize(at, bt);
}
//@ law cm_ld ; about: $L: ColMajorLayout(leading dimension) ; dom: $A, $B, ld=-2..10|-5..3000
extern "C" void rej_cm_ld(S an, S at, S ak, int ag, int ar, int as_, S bn, S bt, S bk, int bg, int br, int bs, S ld) {
  const Axis A{an, at, ak, ag, ar, as_, 0}, B{bn, bt, bk, bg, br, bs, 0};
  const auto d = make(A, B);
  const auto z = d.local_size();
  verif::assume(ld < 1 || (!z.isEmpty() && ld < z.rows()));
  const ColMajorLayout l(d, ld);
  (void) l;
}
//@ law cm_offset_rejected ; about: $L: ColMajorLayout(offset) ; dom: an=0..20|1..100000, at=1..4|1..300, bn=0..20|1..100000, bt=1..4|1..300, ao=0..3, bo=0..3, ld=0..2
extern "C" void rej_cm_offset_rejected(S an, S at, S bn, S bt, S ao, S bo, S ld) {
  const Axis A{an, at, 1, 1, 0, 0, ao}, B{bn, bt, 1, 1, 0, 0, bo};
  const auto d = make(A, B);
  verif::assume(A.off() != 0 || B.off() != 0);
  const ColMajorLayout l(d, an + 1 + ld);
  (void) l;
}
// Construction of a matrix: which tiles exist, where they are in which allocation, and with which leading dimension
template <int R, int C>
[[gnu::always_inline]] bool tiles_in(S m, S n, S mt, S nt) { return (m - 1) / mt + 1 == R && (n - 1) / nt + 1 == C; }
[[gnu::always_inline]] static S ext(S n, S t, S i) { return (i + 1) * t <= n ? t : n - i * t; }
[[gnu::always_inline]] static S padded(S rows) {
  const S al = 64 / static_cast<S>(sizeof(EL)) > 1 ? 64 / static_cast<S>(sizeof(EL)) : 1;
  return rows < al ? rows : (rows + al - 1) / al * al;
}
template <int R, int C>
[[gnu::always_inline]] bool colmajor(S mt, S nt, S ml, S nl, PTRS, const AllocationSpec& a, S ld) {
  reset(p0, p1, p2, p3);
  const S m = (R - 1) * mt + ml, n = (C - 1) * nt + nl;
  Matrix<EL, Device::CPU> x(GlobalElementSize(m, n), TileElementSize(mt, nt), a);
  bool ok = rec::n == R * C && rec::nmem == 1 && rec::mem[0] == (ld * (n - 1) + m) * S(sizeof(EL)) && x.allocation_layout() == AllocationLayout::ColMajor;
  for (int j = 0; j < C; ++j)
    for (int i = 0; i < R; ++i) {
      const auto& e = rec::e[i + j * R];
      ok = ok && e.rows == ext(m, mt, i) && e.cols == ext(n, nt, j) && e.ld == ld && e.p == reinterpret_cast<EL*>(rec::blk[0]) + i * mt + j * nt * ld;
    }
  return ok;
}
template <int R, int C>
[[gnu::always_inline]] bool bytiles(S mt, S nt, S ml, S nl, PTRS, const AllocationSpec& a, bool pad, S ld) {
  reset(p0, p1, p2, p3);
  const S m = (R - 1) * mt + ml, n = (C - 1) * nt + nl;
  Matrix<EL, Device::CPU> x(GlobalElementSize(m, n), TileElementSize(mt, nt), a);
  bool ok = rec::n == R * C && rec::nmem == R * C && x.allocation_layout() == AllocationLayout::Tiles;
  for (int j = 0; j < C; ++j)
    for (int i = 0; i < R; ++i) {
      const auto& e = rec::e[i + j * R];
      const S r = ext(m, mt, i), c = ext(n, nt, j), l = ld > 0 ? ld : pad ? padded(r) : r;
      ok = ok && e.rows == r && e.cols == c && e.ld == l && rec::mem[i + j * R] == l * c * S(sizeof(EL)) && e.p == reinterpret_cast<EL*>(rec::blk[i + j * R]);
    }
  return ok;
}
//@ def T = mt=1..6|1..300, nt=1..6|1..300, ml=1..mt, nl=1..nt, p0=ptr, p1=ptr, p2=ptr, p3=ptr
//@ law cm_compact ; about: $M: Matrix(ColMajor, Compact) ; dom: $T ; unroll=6
extern "C" bool law_cm_compact(S mt, S nt, S ml, S nl, PTRS) { return colmajor<2, 2>(mt, nt, ml, nl, P4, AllocationSpec(AllocationLayout::ColMajor, Ld::Compact), mt + ml); }
//@ law cm_padded ; about: $M: Matrix(ColMajor, Padded) ; dom: $T ; unroll=6
extern "C" bool law_cm_padded(S mt, S nt, S ml, S nl, PTRS) { return colmajor<2, 2>(mt, nt, ml, nl, P4, AllocationSpec(AllocationLayout::ColMajor, Ld::Padded), padded(mt + ml)); }
//@ law cm_padded_default ; about: $M: Matrix(ColMajor) ; dom: $T ; unroll=6
extern "C" bool law_cm_padded_default(S mt, S nt, S ml, S nl, PTRS) { return colmajor<2, 1>(mt, nt, ml, nl, P4, AllocationSpec(AllocationLayout::ColMajor), padded(mt + ml)); }
//@ law cm_explicit ; about: $M: Matrix(ColMajor, ld) ; dom: $T, x=0..10|0..10000 ; unroll=6
extern "C" bool law_cm_explicit(S mt, S nt, S ml, S nl, PTRS, S x) { return colmajor<2, 2>(mt, nt, ml, nl, P4, AllocationSpec(AllocationLayout::ColMajor, mt + ml + x), mt + ml + x); }
//@ law tiles_compact ; about: $M: Matrix(Tiles, Compact) ; dom: $T ; unroll=6
extern "C" bool law_tiles_compact(S mt, S nt, S ml, S nl, PTRS) { return bytiles<2, 2>(mt, nt, ml, nl, P4, AllocationSpec(AllocationLayout::Tiles, Ld::Compact), false, 0); }
//@ law tiles_default ; about: $M: Matrix(Tiles) ; dom: $T ; unroll=6
extern "C" bool law_tiles_default(S mt, S nt, S ml, S nl, PTRS) { return bytiles<1, 2>(mt, nt, ml, nl, P4, AllocationSpec(AllocationLayout::Tiles), false, 0); }
//@ law tiles_padded ; about: $M: Matrix(Tiles, Padded) ; dom: $T ; unroll=6
extern "C" bool law_tiles_padded(S mt, S nt, S ml, S nl, PTRS) { return bytiles<2, 2>(mt, nt, ml, nl, P4, AllocationSpec(AllocationLayout::Tiles, Ld::Padded), true, 0); }
//@ law tiles_explicit ; about: $M: Matrix(Tiles, ld) ; dom: $T, x=0..10|0..10000 ; unroll=6
extern "C" bool law_tiles_explicit(S mt, S nt, S ml, S nl, PTRS, S x) { return bytiles<2, 2>(mt, nt, ml, nl, P4, AllocationSpec(AllocationLayout::Tiles, mt + x), false, mt + x); }
// blocks of 2 x 2 tiles, the last block row has one tile: each block is one allocation with its own leading dimension
template <int l, int C>
[[gnu::always_inline]] bool blocks(S mt, S nt, S ml, S nl, PTRS, S x) {
  reset(p0, p1, p2, p3);
  const S m = 2 * mt + ml, n = (C - 1) * nt + nl;
  const Distribution d(GlobalElementSize(m, n), GlobalElementSize(2 * mt, 2 * nt), TileElementSize(mt, nt), comm::Size2D(1, 1), comm::Index2D(0, 0), comm::Index2D(0, 0));
  AllocationSpec a(AllocationLayout::Blocks);
  if constexpr (l == 1) a.set_ld(Ld::Compact);
  if constexpr (l == 2) a.set_ld(Ld::Padded);
  if constexpr (l == 3) a.set_ld(2 * mt + x);
  Matrix<EL, Device::CPU> q(d, a);
  const auto ld = [&](S rows) { return l == 2 ? padded(rows) : l == 3 ? 2 * mt + x : rows; };
  bool ok = rec::n == 3 * C && rec::nmem == (C > 2 ? 4 : 2) && q.allocation_layout() == AllocationLayout::Blocks;
  for (int j = 0; j < C; ++j)
    for (int i = 0; i < 3; ++i) {
      const auto& e = rec::e[i + j * 3];
      const int b = i / 2 + j / 2 * 2;
      const S rows = i < 2 ? 2 * mt : ml;
      const S width = j / 2 * 2 + 1 < C - 1 ? 2 * nt : j / 2 * 2 + 1 == C - 1 ? nt + nl : nl;
      ok = ok && e.rows == (i < 2 ? mt : ml) && e.cols == (j < C - 1 ? nt : nl) && e.ld == ld(rows) && rec::mem[b] == ld(rows) * width * S(sizeof(EL)) &&
           e.p == reinterpret_cast<EL*>(rec::blk[b]) + i % 2 * mt + j % 2 * nt * ld(rows);
    }
  return ok;
}
//@ law blocks_default_1 ; about: $M: Matrix(Blocks) ; dom: p0=ptr, p1=ptr, p2=ptr, p3=ptr, x=0..10|0..10000 ; unroll=8
extern "C" bool law_blocks_default_1(PTRS, S x) { return blocks<0, 3>(3, 2, 1, 2, P4, x); }
//@ law blocks_default_2 ; about: $M: Matrix(Blocks) ; dom: p0=ptr, p1=ptr, p2=ptr, p3=ptr, x=0..10|0..10000 ; unroll=8
extern "C" bool law_blocks_default_2(PTRS, S x) { return blocks<0, 2>(5, 4, 5, 1, P4, x); }
//@ law blocks_default_3 ; about: $M: Matrix(Blocks) ; dom: p0=ptr, p1=ptr, p2=ptr, p3=ptr, x=0..10|0..10000 ; unroll=8
extern "C" bool law_blocks_default_3(PTRS, S x) { return blocks<0, 3>(9, 1, 2, 1, P4, x); }
//@ law blocks_compact_4 ; about: $M: Matrix(Blocks) ; dom: p0=ptr, p1=ptr, p2=ptr, p3=ptr, x=0..10|0..10000 ; unroll=8
extern "C" bool law_blocks_compact_4(PTRS, S x) { return blocks<1, 3>(3, 2, 1, 2, P4, x); }
//@ law blocks_compact_5 ; about: $M: Matrix(Blocks) ; dom: p0=ptr, p1=ptr, p2=ptr, p3=ptr, x=0..10|0..10000 ; unroll=8
extern "C" bool law_blocks_compact_5(PTRS, S x) { return blocks<1, 2>(5, 4, 5, 1, P4, x); }
//@ law blocks_compact_6 ; about: $M: Matrix(Blocks) ; dom: p0=ptr, p1=ptr, p2=ptr, p3=ptr, x=0..10|0..10000 ; unroll=8
extern "C" bool law_blocks_compact_6(PTRS, S x) { return blocks<1, 3>(9, 1, 2, 1, P4, x); }
//@ law blocks_padded_7 ; about: $M: Matrix(Blocks) ; dom: p0=ptr, p1=ptr, p2=ptr, p3=ptr, x=0..10|0..10000 ; unroll=8
extern "C" bool law_blocks_padded_7(PTRS, S x) { return blocks<2, 3>(3, 2, 1, 2, P4, x); }
//@ law blocks_padded_8 ; about: $M: Matrix(Blocks) ; dom: p0=ptr, p1=ptr, p2=ptr, p3=ptr, x=0..10|0..10000 ; unroll=8
extern "C" bool law_blocks_padded_8(PTRS, S x) { return blocks<2, 2>(5, 4, 5, 1, P4, x); }
//@ law blocks_padded_9 ; about: $M: Matrix(Blocks) ; dom: p0=ptr, p1=ptr, p2=ptr, p3=ptr, x=0..10|0..10000 ; unroll=8
extern "C" bool law_blocks_padded_9(PTRS, S x) { return blocks<2, 3>(9, 1, 2, 1, P4, x); }
//@ law blocks_explicit_10 ; about: $M: Matrix(Blocks) ; dom: p0=ptr, p1=ptr, p2=ptr, p3=ptr ; unroll=8
extern "C" bool law_blocks_explicit_10(PTRS) { return blocks<3, 3>(3, 2, 1, 2, P4, 5); }
//@ law blocks_explicit_11 ; about: $M: Matrix(Blocks) ; dom: p0=ptr, p1=ptr, p2=ptr, p3=ptr, x=0..10|0..10000 ; unroll=8
extern "C" bool law_blocks_explicit_11(PTRS, S x) { return blocks<3, 2>(5, 4, 5, 1, P4, x); }
//@ law blocks_explicit_12 ; about: $M: Matrix(Blocks) ; dom: p0=ptr, p1=ptr, p2=ptr, p3=ptr ; unroll=8
extern "C" bool law_blocks_explicit_12(PTRS) { return blocks<3, 3>(9, 1, 2, 1, P4, 5); }
// memory supplied by the user
//@ law user_memory ; about: $M: Matrix(layout, ptr) ; dom: $T, x=0..10|0..10000 ; unroll=6
extern "C" bool law_user_memory(S mt, S nt, S ml, S nl, PTRS, S x) {
  reset(p0, p1, p2, p3);
  const S m = mt + ml, n = nt + nl, ld = m + x;
  const Distribution d(GlobalElementSize(m, n), TileElementSize(mt, nt), comm::Size2D(1, 1), comm::Index2D(0, 0), comm::Index2D(0, 0));
  Matrix<EL, Device::CPU> q(ColMajorLayout(d, ld), reinterpret_cast<EL*>(p0));
  bool ok = rec::n == 4 && rec::nmem == 0 && q.allocation_layout() == AllocationLayout::ColMajor;
  for (int j = 0; j < 2; ++j)
    for (int i = 0; i < 2; ++i) {
      const auto& e = rec::e[i + j * 2];
      ok = ok && e.rows == (i < 1 ? mt : ml) && e.cols == (j < 1 ? nt : nl) && e.ld == ld && e.p == reinterpret_cast<EL*>(p0) + i * mt + j * nt * ld;
    }
  return ok;
}
template <int l>
[[gnu::always_inline]] void too_small(S mt, S nt, S ml, S nl, PTRS, S x) {
  reset(p0, p1, p2, p3);
  const S m = mt + ml, n = nl;
  constexpr auto k = l == 0 ? AllocationLayout::ColMajor : l == 1 ? AllocationLayout::Blocks : AllocationLayout::Tiles;
  Matrix<EL, Device::CPU> q(GlobalElementSize(m, n), TileElementSize(mt, nt), AllocationSpec(k, (l == 0 ? m : mt) - x));
}
template <int l, int z>
[[gnu::always_inline]] bool empty(S mt, S nt, S n) {
  rec::n = rec::nmem = 0;
  constexpr auto k = l == 0 ? AllocationLayout::ColMajor : l == 1 ? AllocationLayout::Blocks : AllocationLayout::Tiles;
  Matrix<EL, Device::CPU> q(GlobalElementSize(z ? 0 : n, z ? n : 0), TileElementSize(mt, nt), AllocationSpec(k, 1));
  return rec::n == 0 && rec::nmem == 0;
}
//@ law small_ld_cm ; about: $M: compute_ld ; dom: $T, x=1..10 ; unroll=3
extern "C" void rej_small_ld_cm(S mt, S nt, S ml, S nl, PTRS, S x) { too_small<0>(mt, nt, ml, nl, P4, x); }
//@ law empty_cm ; about: $M: Matrix without local elements ; dom: mt=1..6|1..300, nt=1..6|1..300, n=0..3|0..1000 ; unroll=3
extern "C" bool law_empty_cm(S mt, S nt, S n) { return empty<0, 0>(mt, nt, n) && empty<0, 1>(mt, nt, n); }
//@ law small_ld_blocks ; about: $M: compute_ld ; dom: p0=ptr, p1=ptr, p2=ptr, p3=ptr, x=1..10 ; unroll=8
extern "C" void rej_small_ld_blocks(PTRS, S x) { too_small<1>(3, 2, 1, 2, P4, x); }
//@ law empty_blocks ; about: $M: Matrix without local elements ; dom: mt=1..6|1..300, nt=1..6|1..300, n=0..3|0..1000 ; unroll=3
extern "C" bool law_empty_blocks(S mt, S nt, S n) { return empty<1, 0>(mt, nt, n) && empty<1, 1>(mt, nt, n); }
//@ law small_ld_tiles ; about: $M: compute_ld ; dom: $T, x=1..10 ; unroll=3
extern "C" void rej_small_ld_tiles(S mt, S nt, S ml, S nl, PTRS, S x) { too_small<2>(mt, nt, ml, nl, P4, x); }
//@ law empty_tiles ; about: $M: Matrix without local elements ; dom: mt=1..6|1..300, nt=1..6|1..300, n=0..3|0..1000 ; unroll=3
extern "C" bool law_empty_tiles(S mt, S nt, S n) { return empty<2, 0>(mt, nt, n) && empty<2, 1>(mt, nt, n); }
//@ law spec_defaults ; about: include/dlaf/matrix/allocation.h ; dom: l=0..2, d=0..2, x=1..100
extern "C" bool law_spec_defaults(S l, S d, S x) {
  const auto lay = [](S q) { return q == 0 ? AllocationLayout::ColMajor : q == 1 ? AllocationLayout::Blocks : AllocationLayout::Tiles; };
  const AllocationSpec a1(lay(l)), a2(lay(l), Ld::Compact), a3(lay(l), x), a4(AllocationLayoutDefault{}, Ld::Padded);
  const LdSpec dflt = lay(l) == AllocationLayout::ColMajor ? Ld::Padded : Ld::Compact;
  AllocationSpec a5 = a1;
  a5.set_layout(lay(d)).set_ld(x + 1);
  return a1.layout() == lay(l) && a2.layout() == lay(l) && a3.layout() == lay(l) && std::get<Ld>(a1.ld()) == std::get<Ld>(dflt) && std::get<Ld>(a2.ld()) == Ld::Compact &&
         std::get<SizeType>(a3.ld()) == x && std::get<Ld>(a4.ld()) == Ld::Padded && a5.layout() == lay(d) && std::get<SizeType>(a5.ld()) == x + 1 && a1.layout() == lay(l);
}
