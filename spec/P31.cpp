// P31 BLAS/LAPACK calls from tasks run single-threaded and restore the setting
//@ src: src/common/single_threaded_blas.cpp
//@ variants: Z=1 | -UDLAF_ASSERT_MODERATE_ENABLE | DLAF_WITH_MKL=1 | DLAF_WITH_MKL=1,-UDLAF_WITH_OPENMP
#include <dlaf/common/single_threaded_blas.h>
#include <omp.h>
#include <pthread.h>
#include <thread>
// Reference OpenMP: one setting per thread
namespace omp {
inline long self;
inline int setting[3];
}
extern "C" {
pthread_t pthread_self() noexcept { return omp::self; }
int omp_get_max_threads() noexcept { return omp::setting[omp::self]; }
void omp_set_num_threads(int n) noexcept { omp::setting[omp::self] = n; }
int omp_get_num_threads() noexcept { return 1; }
int omp_get_thread_num() noexcept { return 0; }
int omp_get_num_procs() noexcept { return 77; }
int omp_get_thread_limit() noexcept { return 1000; }
int omp_in_parallel() noexcept { return 0; }
int omp_get_level() noexcept { return 0; }
}
// Reference MKL: one setting per thread (0: not set), the previous one is returned
namespace mkl { inline int setting[3]; }
extern "C" int mkl_set_num_threads_local(int n) noexcept {
  const int old = mkl::setting[omp::self];
  mkl::setting[omp::self] = n;
  return old;
}
using dlaf::common::internal::SingleThreadedBlasScope;
//@ def A = src/common/single_threaded_blas.cpp: SingleThreadedBlasScope
//@ law scope ; about: $A: one thread inside, previous setting outside ; dom: n=1..1000, t=0..2 ; initial=1 ; ends=1 ; if=!-UDLAF_WITH_OPENMP
extern "C" bool law_scope(int n, long t) {
  omp::self = t;
  omp::setting[0] = omp::setting[1] = omp::setting[2] = 55;
  omp::setting[t] = n;
  bool ok;
  {
    SingleThreadedBlasScope s;
    ok = omp::setting[t] == 1;
  }
  for (int i = 0; i < 3; ++i) ok = ok && omp::setting[i] == (i == t ? n : 55);   // other threads are not affected
  return ok;
}
//@ law nested ; about: $A: nested scopes ; dom: n=1..1000, d=0..3 ; initial=1 ; if=!-UDLAF_WITH_OPENMP
extern "C" bool law_nested(int n, int d) {
  omp::self = 0;
  omp::setting[0] = n;
  bool ok;
  {
    SingleThreadedBlasScope s;
    {
      SingleThreadedBlasScope t;
      if (d > 1) { SingleThreadedBlasScope u; if (omp::setting[0] != 1) return false; }
      ok = omp::setting[0] == 1;
    }
    ok = ok && omp::setting[0] == 1;
  }
  return ok && omp::setting[0] == n;
}
//@ law sequence ; about: $A: consecutive scopes, the setting changed in between and inside ; dom: n=1..1000, m=1..1000, k=1..1000 ; initial=1 ; if=!-UDLAF_WITH_OPENMP
extern "C" bool law_sequence(int n, int m, int k) {
  omp::self = 0;
  omp::setting[0] = n;
  { SingleThreadedBlasScope s; }
  if (omp::setting[0] != n) return false;
  omp::setting[0] = m;
  { SingleThreadedBlasScope s; if (omp::setting[0] != 1) return false; omp::setting[0] = k; }
  return omp::setting[0] == m;
}
//@ law two_threads ; about: $A: scopes of two threads ; dom: n=1..1000, m=1..1000, k=0..1 ; initial=1 ; if=!-UDLAF_WITH_OPENMP
extern "C" bool law_two_threads(int n, int m, int k) {
  omp::setting[0] = n;
  omp::setting[1] = m;
  alignas(SingleThreadedBlasScope) char a[sizeof(SingleThreadedBlasScope)], b[sizeof(SingleThreadedBlasScope)];
  omp::self = 0;
  auto* p = new (a) SingleThreadedBlasScope;
  omp::self = 1;
  auto* q = new (b) SingleThreadedBlasScope;
  bool ok = omp::setting[0] == 1 && omp::setting[1] == 1;
  omp::self = k;
  (k ? q : p)->~SingleThreadedBlasScope();
  ok = ok && omp::setting[k] == (k ? m : n) && omp::setting[1 - k] == 1;
  omp::self = 1 - k;
  (k ? p : q)->~SingleThreadedBlasScope();
  return ok && omp::setting[0] == n && omp::setting[1] == m;
}
//@ law wrong_thread ; about: $A: a scope that ends on another thread is rejected ; dom: t=0..2, u=0..2 ; initial=1 ; if=!MODERATE
extern "C" void rej_wrong_thread(long t, long u) {
  verif::assume(t != u);
  alignas(SingleThreadedBlasScope) char a[sizeof(SingleThreadedBlasScope)];
  omp::self = t;
  auto* p = new (a) SingleThreadedBlasScope;
  omp::self = u;
  p->~SingleThreadedBlasScope();
}
//@ law mkl_scope ; about: $A: one MKL thread inside, previous MKL setting outside, nested and consecutive scopes ; dom: n=0..1000, m=0..1000, t=0..2 ; initial=1 ; if=MKL
extern "C" bool law_mkl_scope(int n, int m, long t) {
  omp::self = t;
  mkl::setting[0] = mkl::setting[1] = mkl::setting[2] = 55;
  mkl::setting[t] = n;
  bool ok;
  {
    SingleThreadedBlasScope s;
    ok = mkl::setting[t] == 1;
    { SingleThreadedBlasScope u; ok = ok && mkl::setting[t] == 1; }
    ok = ok && mkl::setting[t] == 1;
  }
  for (int i = 0; i < 3; ++i) ok = ok && mkl::setting[i] == (i == t ? n : 55);
  mkl::setting[t] = m;
  { SingleThreadedBlasScope s; ok = ok && mkl::setting[t] == 1; }
  return ok && mkl::setting[t] == m;
}
//@ law unique ; about: include/dlaf/common/single_threaded_blas.h: a scope cannot be copied or moved ; dom: x=0..1
extern "C" bool law_unique(int) {
  using T = SingleThreadedBlasScope;
  return !std::is_copy_constructible_v<T> && !std::is_move_constructible_v<T> && !std::is_copy_assignable_v<T> && !std::is_move_assignable_v<T>;
}
