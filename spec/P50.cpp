// P50 Configured values reach the resource they name: memory pools
//@ stubs: cfg
//@ flags: -fno-threadsafe-statics -std=c++20
//@ variants: VERIF_CPU=1 | VERIF_GPU=1
#include <cstddef>
#include <dlaf/common/assert.h>
#include <dlaf/memory/memory_chunk.h>
#ifdef VERIF_GPU
#define DLAF_WITH_GPU
namespace dlaf::memory::internal {
void initializeUmpireDeviceAllocator(std::size_t, std::size_t, std::size_t, double, double);
void finalizeUmpireDeviceAllocator();
umpire::Allocator& getUmpireDeviceAllocator();
}
#endif
#include <memory/memory_chunk.cpp>
#undef DLAF_WITH_GPU
using namespace verif_pools;
using namespace dlaf::memory::internal;
#define INL [[gnu::always_inline]] inline
namespace {
// the pool k is made over the memory m with these values
INL bool pool(int k, int m, long i, long n, long a, double f, double r) {
  const long want = (blocks >= 2 && releasable >= long(f * double(actual))) ? long(r * double(actual)) : 0;
  return (made[k].strategy == 1) & (made[k].over == m) & (made[k].args[0] == i) & (made[k].args[1] == n) & (made[k].args[2] == a) & (made[k].coalesced == want);
}
INL bool threadsafe(int k, int over) { return (made[k].strategy == 2) & (made[k].over == 4 + over); }
}
//@ def D = i=0..10**6, n=0..10**6, a=0..4096, f=0..12, r=0..12, s=0..10**4, l=0..10**4, b=0..4
//@ def O = initial=1 ; mem=8
//@ law host ; about: src/memory/memory_chunk.cpp: initializeUmpireHostAllocator ; dom: $D ; $O
extern "C" bool law_host(long i, long n, long a, long f, long r, long s, long l, long b) {
  actual = s, releasable = l, blocks = b;
  const double F = double(f) / 8, R = double(r) / 8;
  initializeUmpireHostAllocator(std::size_t(i), std::size_t(n), std::size_t(a), F, R);
  bool ok = true;
#ifdef VERIF_GPU
  ok = ok & (count == 2) & pool(0, 2, i, n, a, F, R) & threadsafe(1, 0) & (getUmpireHostAllocator().id == 5);
  finalizeUmpireHostAllocator();
  initializeUmpireHostAllocator(std::size_t(i), std::size_t(n), std::size_t(a), F, R);
  ok = ok & (count == 2) & (getUmpireHostAllocator().id == 5) & (getUmpireDeviceAllocator().id == 3);
#else
  ok = ok & (count == 0) & (getUmpireHostAllocator().id == 1);
  finalizeUmpireHostAllocator();
#endif
  return ok;
}
#ifdef VERIF_GPU
//@ law device ; about: src/memory/memory_chunk.cpp: initializeUmpireDeviceAllocator ; dom: $D ; $O ; if=VERIF_GPU
extern "C" bool law_device(long i, long n, long a, long f, long r, long s, long l, long b) {
  actual = s, releasable = l, blocks = b;
  const double F = double(f) / 8, R = double(r) / 8;
  initializeUmpireDeviceAllocator(std::size_t(i), std::size_t(n), std::size_t(a), F, R);
  bool ok = (count == 2) & pool(0, 3, i, n, a, F, R) & threadsafe(1, 0) & (getUmpireDeviceAllocator().id == 5);
  finalizeUmpireDeviceAllocator();
  initializeUmpireDeviceAllocator(std::size_t(i), std::size_t(n), std::size_t(a), F, R);
  return ok & (count == 2) & (getUmpireDeviceAllocator().id == 5) & (getUmpireHostAllocator().id == 2);
}
//@ law each ; about: src/memory/memory_chunk.cpp: both pools ; dom: $D ; $O ; if=VERIF_GPU
extern "C" bool law_each(long i, long n, long a, long f, long r, long s, long l, long b) {
  actual = s, releasable = l, blocks = b;
  const double F = double(f) / 8, R = double(r) / 8;
  initializeUmpireHostAllocator(std::size_t(i), std::size_t(n), std::size_t(a), F, R);
  initializeUmpireDeviceAllocator(std::size_t(n), std::size_t(i), std::size_t(a + 1), R, F);
  return (count == 4) & pool(0, 2, i, n, a, F, R) & threadsafe(1, 0) & pool(2, 3, n, i, a + 1, R, F) & threadsafe(3, 2) & (getUmpireHostAllocator().id == 5) & (getUmpireDeviceAllocator().id == 7);
}
#endif
