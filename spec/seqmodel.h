// Meaning of what the algorithms call outside of DLA-Future: BLAS and LAPACK routines as in blasmodel.h, for both element
// types. Include first; define VERIF_MODELS before it for a spec with own models.
#pragma once
#include "blasmodel.h"
namespace ref {
using Z = std::complex<double>;
template <class T> VI void lacpy(lapack::MatrixType u, I m, I n, const T* a, I la, T* b, I lb) {
  for (I j = 0; j < n; ++j) for (I i = 0; i < m; ++i)
    if (u == lapack::MatrixType::General || (u == lapack::MatrixType::Lower ? i >= j : i <= j)) b[i + j * lb] = a[i + j * la];
}
template <class T> VI void laset(lapack::MatrixType u, I m, I n, T off, T dg, T* a, I la) {
  for (I j = 0; j < n; ++j) for (I i = 0; i < m; ++i)
    if (u == lapack::MatrixType::General || (u == lapack::MatrixType::Lower ? i >= j : i <= j)) a[i + j * la] = i == j ? dg : off;
}
VI double mag(double x) { return __builtin_fabs(x); }
VI double mag(Z x) { return __builtin_sqrt(x.real() * x.real() + x.imag() * x.imag()); }
// largest absolute value of the stored part
template <class T> VI double maxabs(bool general, blas::Uplo u, I m, I n, const T* a, I la) {
  double r = 0;
  for (I j = 0; j < n; ++j) for (I i = 0; i < m; ++i)
    if (general || (u == blas::Uplo::Lower ? i >= j : i <= j)) { const double x = mag(a[i + j * la]); r = r < x ? x : r; }
  return r;
}
// T := T^-1 in place, stored part only
template <class T> VI void trtri(blas::Uplo u, blas::Diag d, I n, T* a, I la) {
  // column j of the inverse of a lower matrix / row of an upper one, by substitution
  T x[MAXN * MAXN];
  for (I j = 0; j < n; ++j) {
    for (I q = 0; q < n; ++q) {
      const I i = u == blas::Uplo::Lower ? q : n - 1 - q;
      if (u == blas::Uplo::Lower ? i < j : i > j) continue;
      T s(i == j ? 1 : 0);
      for (I p = 0; p < n; ++p)
        if (u == blas::Uplo::Lower ? p >= j && p < i : p <= j && p > i) s -= mul(a[i + p * la], x[p + j * MAXN]);
      x[i + j * MAXN] = d == blas::Diag::Unit ? s : mul(s, inv(a[i + i * la]));
    }
  }
  for (I j = 0; j < n; ++j) for (I i = 0; i < n; ++i) {
    if (i == j ? d == blas::Diag::Unit : (u == blas::Uplo::Lower) != (i > j)) continue;
    a[i + j * la] = x[i + j * MAXN];
  }
}
// L^H L or U U^H, stored part only
template <class T> VI void lauum(blas::Uplo u, I n, T* a, I la) {
  T x[MAXN * MAXN];
  for (I j = 0; j < n; ++j) for (I i = 0; i < n; ++i) {
    if (i != j && (u == blas::Uplo::Lower) != (i > j)) continue;
    T s(0);
    for (I p = 0; p < n; ++p) {
      if (u == blas::Uplo::Lower) { if (p >= i && p >= j) s += mul(cj(a[p + i * la]), a[p + j * la]); }
      else if (p >= i && p >= j) s += mul(a[i + p * la], cj(a[j + p * la]));
    }
    x[i + j * MAXN] = i == j ? T(re(s)) : s;
  }
  for (I j = 0; j < n; ++j) for (I i = 0; i < n; ++i)
    if (i == j || (u == blas::Uplo::Lower) == (i > j)) a[i + j * la] = x[i + j * MAXN];
}
// A := inv(L) A inv(L^H) or inv(U^H) A inv(U), stored part only
template <class T> VI void hegst(blas::Uplo u, I n, T* a, I la, const T* b, I lb) {
  T x[MAXN * MAXN];
  for (I j = 0; j < n; ++j) for (I i = 0; i < n; ++i) x[i + j * MAXN] = her(u, a, la, i, j);
  const auto N = blas::Op::NoTrans, C = blas::Op::ConjTrans;
  const auto ND = blas::Diag::NonUnit;
  if (u == blas::Uplo::Lower) { trsm(blas::Side::Left, u, N, ND, n, n, T(1), b, lb, x, MAXN); trsm(blas::Side::Right, u, C, ND, n, n, T(1), b, lb, x, MAXN); }
  else { trsm(blas::Side::Left, u, C, ND, n, n, T(1), b, lb, x, MAXN); trsm(blas::Side::Right, u, N, ND, n, n, T(1), b, lb, x, MAXN); }
  for (I j = 0; j < n; ++j) for (I i = 0; i < n; ++i)
    if (i == j || (u == blas::Uplo::Lower) == (i > j)) a[i + j * la] = i == j ? T(re(x[i + j * MAXN])) : x[i + j * MAXN];
}
// T of I - V T V^H = H(1) .. H(k), V unit lower trapezoidal
template <class T> VI void larft(I n, I k, const T* v, I lv, const T* tau, T* t, I lt) {
  for (I i = 0; i < k; ++i) {
    T y[MAXN];
    for (I j = 0; j < i; ++j) {
      T s = cj(v[i + j * lv]);   // row i, where v_i is 1
      for (I p = i + 1; p < n; ++p) s += mul(cj(v[p + j * lv]), v[p + i * lv]);
      y[j] = mul(-tau[i], s);
    }
    for (I j = 0; j < i; ++j) { T s(0); for (I p = j; p < i; ++p) s += mul(t[j + p * lt], y[p]); t[j + i * lt] = s; }
    t[i + i * lt] = tau[i];
  }
}
// H^H (alpha, x)^T = (beta, 0)^T with H = I - tau (1, v)^T (1, v)^H
VI void larfg(I n, double* al, double* x, I ix, double* tau) {
  if (n <= 1) { *tau = 0; return; }
  double s = 0;
  for (I i = 0; i < n - 1; ++i) s += x[i * ix] * x[i * ix];
  const double nr = __builtin_sqrt(*al * *al + s), beta = *al < 0 ? nr : -nr;
  *tau = (beta - *al) / beta;
  const double sc = 1 / (*al - beta);
  for (I i = 0; i < n - 1; ++i) x[i * ix] *= sc;
  *al = beta;
}
VI void larfg(I n, Z* al, Z* x, I ix, Z* tau) {
  if (n <= 0) { *tau = Z(0); return; }
  double s = 0;
  for (I i = 0; i < n - 1; ++i) s += re(mul(x[i * ix], cj(x[i * ix])));
  const double ar = al->real(), ai = al->imag();
  const double nr = __builtin_sqrt(ar * ar + ai * ai + s), beta = ar < 0 ? nr : -nr;
  *tau = Z((beta - ar) / beta, -ai / beta);
  const Z sc = inv(Z(ar - beta, ai));
  for (I i = 0; i < n - 1; ++i) x[i * ix] = mul(x[i * ix], sc);
  *al = Z(beta, 0);
}
}
#ifndef VERIF_MODELS
namespace blas {
#define VERIF_BLAS(T) \
  void trsm(Layout, Side s, Uplo u, Op o, Diag d, int64_t m, int64_t n, T al, T const* a, int64_t la, T* b, int64_t lb) { ref::trsm<T>(s, u, o, d, m, n, al, a, la, b, lb); } \
  void trmm(Layout, Side s, Uplo u, Op o, Diag d, int64_t m, int64_t n, T al, T const* a, int64_t la, T* b, int64_t lb) { ref::trmm<T>(s, u, o, d, m, n, al, a, la, b, lb); } \
  void gemm(Layout, Op oa, Op ob, int64_t m, int64_t n, int64_t k, T al, T const* a, int64_t la, T const* b, int64_t lb, T be, T* c, int64_t lc) { ref::gemm<T>(oa, ob, m, n, k, al, a, la, b, lb, be, c, lc); } \
  void hemm(Layout, Side s, Uplo u, int64_t m, int64_t n, T al, T const* a, int64_t la, T const* b, int64_t lb, T be, T* c, int64_t lc) { ref::hemm<T>(s, u, m, n, al, a, la, b, lb, be, c, lc); } \
  void herk(Layout, Uplo u, Op o, int64_t n, int64_t k, double al, T const* a, int64_t la, double be, T* c, int64_t lc) { ref::herk<T>(u, o, n, k, al, a, la, be, c, lc); } \
  void her2k(Layout, Uplo u, Op o, int64_t n, int64_t k, T al, T const* a, int64_t la, T const* b, int64_t lb, double be, T* c, int64_t lc) { ref::her2k<T>(u, o, n, k, al, a, la, b, lb, be, c, lc); } \
  void gemv(Layout, Op o, int64_t m, int64_t n, T al, T const* a, int64_t la, T const* x, int64_t ix, T be, T* y, int64_t iy) { ref::gemv<T>(o, m, n, al, a, la, x, ix, be, y, iy); } \
  void hemv(Layout, Uplo u, int64_t n, T al, T const* a, int64_t la, T const* x, int64_t ix, T be, T* y, int64_t iy) { for (int64_t i = 0; i < n; ++i) { T s(0); for (int64_t p = 0; p < n; ++p) s += ref::mul(ref::her(u, a, la, i, p), x[p * ix]); y[i * iy] = ref::upd(be, y[i * iy], ref::mul(al, s)); } } \
  void ger(Layout, int64_t m, int64_t n, T al, T const* x, int64_t ix, T const* y, int64_t iy, T* a, int64_t la) { for (int64_t j = 0; j < n; ++j) for (int64_t i = 0; i < m; ++i) a[i + j * la] += ref::mul(al, ref::mul(x[i * ix], ref::cj(y[j * iy]))); } \
  void her2(Layout, Uplo u, int64_t n, T al, T const* x, int64_t ix, T const* y, int64_t iy, T* a, int64_t la) { for (int64_t j = 0; j < n; ++j) for (int64_t i = 0; i < n; ++i) { if (i != j && (u == Uplo::Lower) != (i > j)) continue; const T z = a[i + j * la] + ref::mul(al, ref::mul(x[i * ix], ref::cj(y[j * iy]))) + ref::mul(ref::cj(al), ref::mul(y[i * iy], ref::cj(x[j * ix]))); a[i + j * la] = i == j ? T(ref::re(z)) : z; } } \
  void trmv(Layout, Uplo u, Op o, Diag d, int64_t n, T const* a, int64_t la, T* x, int64_t ix) { T t[ref::MAXN]; for (int64_t i = 0; i < n; ++i) { T s(0); for (int64_t p = 0; p < n; ++p) s += ref::mul(ref::tri(u, o, d, a, la, i, p), x[p * ix]); t[i] = s; } for (int64_t i = 0; i < n; ++i) x[i * ix] = t[i]; } \
  void axpy(int64_t n, T al, T const* x, int64_t ix, T* y, int64_t iy) { for (int64_t i = 0; i < n; ++i) y[i * iy] += ref::mul(al, x[i * ix]); } \
  void copy(int64_t n, T const* x, int64_t ix, T* y, int64_t iy) { for (int64_t i = 0; i < n; ++i) y[i * iy] = x[i * ix]; } \
  void scal(int64_t n, T al, T* x, int64_t ix) { for (int64_t i = 0; i < n; ++i) x[i * ix] = ref::mul(al, x[i * ix]); } \
  T dot(int64_t n, T const* x, int64_t ix, T const* y, int64_t iy) { T s(0); for (int64_t i = 0; i < n; ++i) s += ref::mul(ref::cj(x[i * ix]), y[i * iy]); return s; } \
  double nrm2(int64_t n, T const* x, int64_t ix) { double s = 0; for (int64_t i = 0; i < n; ++i) s += ref::re(ref::mul(ref::cj(x[i * ix]), x[i * ix])); return __builtin_sqrt(s); }
VERIF_BLAS(double)
VERIF_BLAS(ref::Z)
#undef VERIF_BLAS
#define D_ double
void syrk(Layout, Uplo u, Op o, int64_t n, int64_t k, D_ al, D_ const* a, int64_t la, D_ be, D_* c, int64_t lc) { ref::herk<D_>(u, o, n, k, al, a, la, be, c, lc); }
void syr2k(Layout, Uplo u, Op o, int64_t n, int64_t k, D_ al, D_ const* a, int64_t la, D_ const* b, int64_t lb, D_ be, D_* c, int64_t lc) { ref::her2k<D_>(u, o, n, k, al, a, la, b, lb, be, c, lc); }
void symm(Layout, Side s, Uplo u, int64_t m, int64_t n, D_ al, D_ const* a, int64_t la, D_ const* b, int64_t lb, D_ be, D_* c, int64_t lc) { ref::hemm<D_>(s, u, m, n, al, a, la, b, lb, be, c, lc); }
void rot(int64_t n, D_* x, int64_t ix, D_* y, int64_t iy, D_ c, D_ s) { for (int64_t i = 0; i < n; ++i) { const D_ a = x[i * ix], b = y[i * iy]; x[i * ix] = c * a + s * b; y[i * iy] = c * b - s * a; } }
}
namespace lapack {
VI blas::Uplo up_(Uplo u) { return u == Uplo::Lower ? blas::Uplo::Lower : blas::Uplo::Upper; }
#define VERIF_LAPACK(T) \
  int64_t potrf(Uplo u, int64_t n, T* a, int64_t la) { return ref::potrf<T>(up_(u), n, a, la); } \
  int64_t trtri(Uplo u, Diag d, int64_t n, T* a, int64_t la) { ref::trtri<T>(up_(u), d, n, a, la); return 0; } \
  int64_t lauum(Uplo u, int64_t n, T* a, int64_t la) { ref::lauum<T>(up_(u), n, a, la); return 0; } \
  void larfg(int64_t n, T* al, T* x, int64_t ix, T* tau) { ref::larfg(n, al, x, ix, tau); } \
  void larft(Direction d, StoreV s, int64_t n, int64_t k, T const* v, int64_t lv, T const* tau, T* t, int64_t lt) { if (d != Direction::Forward || s != StoreV::Columnwise) verif_stop(); ref::larft<T>(n, k, v, lv, tau, t, lt); } \
  void lacpy(MatrixType u, int64_t m, int64_t n, T const* a, int64_t la, T* b, int64_t lb) { ref::lacpy<T>(u, m, n, a, la, b, lb); } \
  void laset(MatrixType u, int64_t m, int64_t n, T o, T d, T* a, int64_t la) { ref::laset<T>(u, m, n, o, d, a, la); } \
  double lange(Norm nm, int64_t m, int64_t n, T const* a, int64_t la) { if (nm != Norm::Max) verif_stop(); return ref::maxabs<T>(true, blas::Uplo::Lower, m, n, a, la); } \
  double lantr(Norm nm, Uplo u, Diag d, int64_t m, int64_t n, T const* a, int64_t la) { if (nm != Norm::Max || d != Diag::NonUnit) verif_stop(); return ref::maxabs<T>(false, up_(u), m, n, a, la); }
VERIF_LAPACK(double)
VERIF_LAPACK(ref::Z)
#undef VERIF_LAPACK
int64_t sygst(int64_t it, Uplo u, int64_t n, D_* a, int64_t la, D_ const* b, int64_t lb) { if (it != 1) verif_stop(); ref::hegst<D_>(up_(u), n, a, la, b, lb); return 0; }
int64_t hegst(int64_t it, Uplo u, int64_t n, ref::Z* a, int64_t la, ref::Z* b, int64_t lb) { if (it != 1) verif_stop(); ref::hegst<ref::Z>(up_(u), n, a, la, b, lb); return 0; }
#undef D_
}
#endif
