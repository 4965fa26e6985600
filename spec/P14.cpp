// P14 Tile accesses keep their dependencies alive and release them exactly once
#include <optional>
#include <pika/async_rw_mutex.hpp>
#include <dlaf/types.h>
namespace dlaf::matrix {
template <class T, Device D> class Tile;
template <class T, Device D> class Tile<const T, D>;
}
using TL = dlaf::matrix::Tile<float, dlaf::Device::CPU>;
using CTL = dlaf::matrix::Tile<const float, dlaf::Device::CPU>;
// Reference access to a shared tile: every access is released exactly once
namespace access {
inline int released[4];
struct handle {
  int id;
  TL* t;
  handle(int i, TL* p) : id(i), t(p) {}
  handle(handle&& o) noexcept : id(o.id), t(o.t) { o.id = 0; o.t = nullptr; }
  handle& operator=(handle&& o) noexcept {
    if (this != &o) { drop(); id = o.id; t = o.t; o.id = 0; o.t = nullptr; }
    return *this;
  }
  void drop() { if (id != 0) ++released[id]; id = 0; }
  ~handle() { drop(); }
};
}
namespace pika::execution::experimental {
template <>
class async_rw_mutex_access_wrapper<TL, const CTL, async_rw_mutex_access_type::read> {
  access::handle h;
public:
  async_rw_mutex_access_wrapper(int i, TL* p) : h(i, p) {}
  async_rw_mutex_access_wrapper(async_rw_mutex_access_wrapper&&) = default;
  async_rw_mutex_access_wrapper& operator=(async_rw_mutex_access_wrapper&&) = default;
  const CTL& get() const;
};
template <>
class async_rw_mutex_access_wrapper<TL, const CTL, async_rw_mutex_access_type::readwrite> {
  access::handle h;
public:
  async_rw_mutex_access_wrapper(int i, TL* p) : h(i, p) {}
  async_rw_mutex_access_wrapper(async_rw_mutex_access_wrapper&&) = default;
  async_rw_mutex_access_wrapper& operator=(async_rw_mutex_access_wrapper&&) = default;
  TL& get() { return *h.t; }
};
}
#include <dlaf/matrix/tile.h>
using namespace dlaf;
using namespace dlaf::matrix;
namespace mi = dlaf::matrix::internal;
using S = SizeType;
using RO = mi::TileAsyncRwMutexReadOnlyWrapper<float, Device::CPU>;
using RW = mi::TileAsyncRwMutexReadWriteWrapper<float, Device::CPU>;
inline const CTL& RO::get() const { return *h.t; }
[[gnu::always_inline]] static TL make(S m, S n, S ld, float* p) { return TL(TileElementSize(m, n), memory::MemoryView<float, Device::CPU>(p, m + ld * (n - 1)), ld); }
[[gnu::always_inline]] static void reset() { for (int i = 0; i < 4; ++i) access::released[i] = 0; }
[[gnu::always_inline]] static bool is(int a, int b, int c) { return access::released[1] == a && access::released[2] == b && access::released[3] == c; }
[[gnu::always_inline]] static SubTileSpec spec(S i, S j, S r, S s) { return SubTileSpec{TileElementIndex(i, j), TileElementSize(r, s)}; }
template <class X>
[[gnu::always_inline]] bool at(const X& t, S r, S s, S ld, const float* p) { return t.size().rows() == r && t.size().cols() == s && t.ld() == ld && t.ptr() == p; }
//@ def F = include/dlaf/matrix/tile.h
//@ def T = m=1..5|1..100, n=1..5|1..100, ld=m..m+3, p=ptr, i=0..m-1, j=0..n-1, r=1..m-i, s=1..n-j
//@ law read_sub ; about: $F: createSubTileAsyncRwMutex(read-only access) ; dom: $T ; ends=1
extern "C" bool law_read_sub(S m, S n, S ld, float* p, S i, S j, S r, S s) {
  reset();
  TL parent = make(m, n, ld, p);
  bool ok;
  {
    CTL t = mi::createSubTileAsyncRwMutex<float, Device::CPU>(RO(1, &parent), spec(i, j, r, s));
    ok = is(0, 0, 0) && at(t, r, s, ld, p + i + ld * j);
  }
  return ok && is(1, 0, 0);
}
//@ law write_whole ; about: $F: createTileAsyncRwMutex(read-write access) ; dom: $T ; ends=1
extern "C" bool law_write_whole(S m, S n, S ld, float* p, S i, S j, S r, S s) {
  reset();
  TL parent = make(m, n, ld, p);
  bool ok;
  {
    TL t = mi::createTileAsyncRwMutex<float, Device::CPU>(RW(1, &parent));
    ok = is(0, 0, 0) && at(t, m, n, ld, p);
  }
  return ok && is(1, 0, 0) && at(parent, m, n, ld, p);
}
//@ law write_sub ; about: $F: createSubTileAsyncRwMutex(read-write access), of a sub-tile again ; dom: $T, u=0..1 ; ends=1
extern "C" bool law_write_sub(S m, S n, S ld, float* p, S i, S j, S r, S s, int u) {
  reset();
  TL parent = make(m, n, ld, p);
  bool ok;
  {
    TL t = mi::createSubTileAsyncRwMutex<float, Device::CPU>(RW(1, &parent), spec(i, j, r, s));
    ok = is(0, 0, 0) && at(t, r, s, ld, p + i + ld * j);
    if (u) {
      TL q = mi::createSubTileAsyncRwMutex<float, Device::CPU>(std::move(t), spec(r - 1, s - 1, 1, 1));
      ok = ok && is(0, 0, 0) && at(q, 1, 1, ld, p + i + r - 1 + ld * (j + s - 1));
    }
    ok = ok && is(u, 0, 0);
  }
  return ok && is(1, 0, 0);
}
//@ law moved ; about: $F: Tile move construction and assignment keep the access ; dom: $T, u=0..1 ; ends=1
extern "C" bool law_moved(S m, S n, S ld, float* p, S i, S j, S r, S s, int u) {
  reset();
  TL parent = make(m, n, ld, p);
  bool ok;
  {
    TL a = mi::createSubTileAsyncRwMutex<float, Device::CPU>(RW(1, &parent), spec(i, j, r, s));
    TL b(std::move(a));
    ok = is(0, 0, 0) && at(b, r, s, ld, p + i + ld * j) && a.size().isEmpty();
    {
      TL c = u ? mi::createTileAsyncRwMutex<float, Device::CPU>(RW(2, &parent)) : TL();
      ok = ok && is(0, 0, 0);
      c = std::move(b);
      ok = ok && is(0, u, 0) && at(c, r, s, ld, p + i + ld * j) && b.size().isEmpty();
    }
    ok = ok && is(1, u, 0);
  }
  return ok && is(1, u, 0);
}
//@ law moved_read ; about: $F: Tile of constant elements: move construction and assignment keep the access ; dom: $T, u=0..1 ; ends=1
extern "C" bool law_moved_read(S m, S n, S ld, float* p, S i, S j, S r, S s, int u) {
  reset();
  TL parent = make(m, n, ld, p);
  bool ok;
  {
    CTL a = mi::createSubTileAsyncRwMutex<float, Device::CPU>(RO(1, &parent), spec(i, j, r, s));
    CTL b(std::move(a));
    ok = is(0, 0, 0) && at(b, r, s, ld, p + i + ld * j);
    {
      CTL c = u ? mi::createSubTileAsyncRwMutex<float, Device::CPU>(RO(2, &parent), spec(0, 0, 1, 1)) : CTL();
      c = std::move(b);
      ok = ok && is(0, u, 0) && at(c, r, s, ld, p + i + ld * j);
    }
    ok = ok && is(1, u, 0);
  }
  return ok && is(1, u, 0);
}
// the access ends with the last disjoint sub-tile, whatever the order in which they and the prepared tile go
template <int A, int B, int C, bool again>
[[gnu::always_inline]] bool disjoint(S m, S n, S ld, float* p, S i, S j, S r, S s) {
  reset();
  TL parent = make(m, n, ld, p);
  bool ok;
  {
    std::optional<TL> t[3];
    t[0].emplace(mi::prepareDisjointTile(mi::createTileAsyncRwMutex<float, Device::CPU>(RW(1, &parent))));
    if (again) *t[0] = mi::prepareDisjointTile(std::move(*t[0]));
    ok = is(0, 0, 0) && at(*t[0], m, n, ld, p);
    t[1].emplace(mi::createDisjointSubTile(*t[0], spec(i, j, r, s)));
    t[2].emplace(mi::createDisjointSubTile(*t[0], spec(0, 0, 1, 1)));
    ok = ok && is(0, 0, 0) && at(*t[1], r, s, ld, p + i + ld * j) && at(*t[2], 1, 1, ld, p) && at(*t[0], m, n, ld, p);
    t[A].reset();
    ok = ok && is(0, 0, 0);
    t[B].reset();
    ok = ok && is(0, 0, 0);
    t[C].reset();
    ok = ok && is(1, 0, 0);
  }
  return ok && is(1, 0, 0);
}
//@ law disjoint_012 ; about: $F: prepareDisjointTile, createDisjointSubTile ; dom: $T ; ends=1
extern "C" bool law_disjoint_012(S m, S n, S ld, float* p, S i, S j, S r, S s) { return disjoint<0, 1, 2, false>(m, n, ld, p, i, j, r, s); }
//@ law disjoint_021 ; about: $F: prepareDisjointTile, createDisjointSubTile ; dom: $T ; ends=1
extern "C" bool law_disjoint_021(S m, S n, S ld, float* p, S i, S j, S r, S s) { return disjoint<0, 2, 1, true>(m, n, ld, p, i, j, r, s); }
//@ law disjoint_102 ; about: $F: prepareDisjointTile, createDisjointSubTile ; dom: $T ; ends=1
extern "C" bool law_disjoint_102(S m, S n, S ld, float* p, S i, S j, S r, S s) { return disjoint<1, 0, 2, false>(m, n, ld, p, i, j, r, s); }
//@ law disjoint_120 ; about: $F: prepareDisjointTile, createDisjointSubTile ; dom: $T ; ends=1
extern "C" bool law_disjoint_120(S m, S n, S ld, float* p, S i, S j, S r, S s) { return disjoint<1, 2, 0, true>(m, n, ld, p, i, j, r, s); }
//@ law disjoint_210 ; about: $F: prepareDisjointTile, createDisjointSubTile ; dom: $T ; ends=1
extern "C" bool law_disjoint_210(S m, S n, S ld, float* p, S i, S j, S r, S s) { return disjoint<2, 1, 0, false>(m, n, ld, p, i, j, r, s); }
//@ law disjoint_untracked ; about: $F: createDisjointSubTile of a tile without access ; dom: $T ; ends=1
extern "C" bool law_disjoint_untracked(S m, S n, S ld, float* p, S i, S j, S r, S s) {
  reset();
  TL parent = mi::prepareDisjointTile(make(m, n, ld, p));
  TL t = mi::createDisjointSubTile(parent, spec(i, j, r, s));
  return is(0, 0, 0) && at(t, r, s, ld, p + i + ld * j);
}
//@ law disjoint_exclusive ; about: $F: createDisjointSubTile of an exclusive access is rejected ; dom: p=ptr ; ends=1
extern "C" void rej_disjoint_exclusive(float* p) {
  TL parent = make(2, 2, 2, p);
  TL a = mi::createTileAsyncRwMutex<float, Device::CPU>(RW(1, &parent));
  TL b = mi::createDisjointSubTile(a, spec(0, 0, 1, 1));
}
//@ law disjoint_read ; about: $F: prepareDisjointTile of a read-only access is rejected ; dom: p=ptr ; ends=1
extern "C" void rej_disjoint_read(float* p) {
  TL parent = make(2, 2, 2, p);
  TL a = mi::prepareDisjointTile(mi::createSubTileAsyncRwMutex<float, Device::CPU>(RO(1, &parent), spec(0, 0, 1, 1)));
}
//@ law outside ; about: $F: a window that does not fit into the tile is rejected ; dom: $T, k=0..3, x=1..3
extern "C" void rej_outside(S m, S n, S ld, float* p, S i, S j, S r, S s, int k, S x) {
  TL parent = make(m, n, ld, p);
  if (k == 0) i = -x;
  else if (k == 1) j = -x;
  else if (k == 2) r = m - i + x;
  else s = n - j + x;
  (void) parent.subTileReference(spec(i, j, r, s));
}
//@ law overlap ; about: $F: subTileSpecsOverlap ; dom: i=0..5, j=0..5, r=0..4, s=0..4, k=0..5, l=0..5, q=0..4, t=0..4
extern "C" bool law_overlap(S i, S j, S r, S s, S k, S l, S q, S t) {
  const bool e = std::max(i, k) < std::min(i + r, k + q) && std::max(j, l) < std::min(j + s, l + t);   // a common element exists
  return mi::subTileSpecsOverlap(spec(i, j, r, s), spec(k, l, q, t)) == e;
}
//@ law data ; about: $F: create_data: columns as blocks ; dom: $T
extern "C" bool law_data(S m, S n, S ld, float* p, S i, S j, S r, S s) {
  const TL t = make(m, n, ld, p);
  const auto d = common::make_data(t);
  const S e = r - 1 + (s - 1) * m;   // any element of the tile, counted by columns
  const S k = common::data_iscontiguous(d) ? e : e / common::data_blocksize(d) * common::data_stride(d) + e % common::data_blocksize(d);
  return common::data_pointer(d) == p && common::data_count(d) == m * n && k == r - 1 + ld * (s - 1);
}
//@ law element ; about: $F: operator(), ptr ; dom: $T
extern "C" bool law_element(S m, S n, S ld, float* p, S i, S j, S r, S s) {
  const TL t = make(m, n, ld, p);
  const CTL& c = t;
  return &t(TileElementIndex(i, j)) == p + i + ld * j && t.ptr(TileElementIndex(i, j)) == p + i + ld * j && &c(TileElementIndex(i, j)) == p + i + ld * j && c.ptr(TileElementIndex(i, j)) == p + i + ld * j &&
         t.ptr() == p && c.ptr() == p && t.ld() == ld && t.size() == TileElementSize(m, n) && t.is_contiguous() == (m == ld);
}
//@ law element_bad ; about: $F: ptr outside the tile is rejected ; dom: $T, k=0..3, x=0..3
extern "C" void rej_element_bad(S m, S n, S ld, float* p, S i, S j, S r, S s, int k, S x) {
  const TL t = make(m, n, ld, p);
  if (k == 0) i = m + x; else if (k == 1) j = n + x; else if (k == 2) i = -1 - x; else j = -1 - x;
  (void) t.ptr(TileElementIndex(i, j));
}
//@ law memory ; about: $F: a tile larger than its memory or with a short leading dimension is rejected ; dom: m=1..5, n=1..5, ld=m..m+3, p=ptr, k=0..1, x=1..3
extern "C" void rej_memory(S m, S n, S ld, float* p, int k, S x) {
  const S have = m + ld * (n - 1);
  if (k == 0) TL t(TileElementSize(m, n), memory::MemoryView<float, Device::CPU>(p, have - x > 0 ? have - x : 0), ld);
  else TL t(TileElementSize(m, n), memory::MemoryView<float, Device::CPU>(p, 1000), m - x);
}
