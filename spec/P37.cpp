// P37 Tile kernels pass the tile's own geometry to BLAS and LAPACK (vector kernel with real factor)
//@ src: src/blas/scal.cpp
#include <complex>
#include <dlaf/blas/scal.h>
#include <dlaf/types.h>
#include <limits>
namespace seen {
inline long calls, n, incx;
inline int routine;
inline double a;
inline const void* x;
}
extern "C" {
void csscal_(const int* n, const float* a, const void* x, const int* incx) noexcept { ++seen::calls; seen::routine = 1; seen::n = *n; seen::a = *a; seen::x = x; seen::incx = *incx; }
void zdscal_(const int* n, const double* a, const void* x, const int* incx) noexcept { ++seen::calls; seen::routine = 2; seen::n = *n; seen::a = *a; seen::x = x; seen::incx = *incx; }
}
//@ law scal ; about: src/blas/scal.cpp: blas::scal ; dom: t=1..2, n=0..100|0..2**31-1, a=f64, x=ptr, incx=-3..3|-2**31..2**31-1
extern "C" bool law_scal(int t, long n, double a, void* x, long incx) {
  seen::calls = 0;
  if (t == 1) { a = static_cast<float>(a); blas::scal(n, static_cast<float>(a), static_cast<std::complex<float>*>(x), incx); }
  else blas::scal(n, a, static_cast<std::complex<double>*>(x), incx);
  return seen::calls == 1 && seen::routine == t && seen::n == n && seen::a == a && seen::x == x && seen::incx == incx;
}
//@ law scal_range ; about: src/blas/scal.cpp: counts that do not fit are rejected ; dom: t=1..2, k=0..1, n=-2**40..2**40|2**31..2**40, a=f64, x=ptr
extern "C" void rej_scal_range(int t, int k, long n, double a, void* x) {
  verif::assume(n > std::numeric_limits<int>::max() || n < std::numeric_limits<int>::min());
  const long m = k ? n : 3, i = k ? 1 : n;
  if (t == 1) blas::scal(m, static_cast<float>(a), static_cast<std::complex<float>*>(x), i);
  else blas::scal(m, a, static_cast<std::complex<double>*>(x), i);
}
