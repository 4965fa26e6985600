// Reference meaning of the BLAS and LAPACK routines that the algorithms call (column-major, unblocked), for the spec only.
#pragma once
#include <complex>
#include <blas.hh>
#include <lapack.hh>
namespace ref {
using I = int64_t;
template <class T> struct num { using base = T; };
template <class T> struct num<std::complex<T>> { using base = T; };
#define VI inline
VI double cj(double x) { return x; }
VI std::complex<double> cj(std::complex<double> x) { return {x.real(), -x.imag()}; }
VI double mul(double a, double b) { return a * b; }
VI std::complex<double> mul(std::complex<double> a, std::complex<double> b) { return {a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()}; }
VI double inv(double a) { return 1 / a; }
VI std::complex<double> inv(std::complex<double> a) { const double d = a.real() * a.real() + a.imag() * a.imag(); return {a.real() / d, -a.imag() / d}; }
VI double re(double x) { return x; }
VI double re(std::complex<double> x) { return x.real(); }
VI double root(double x) { return __builtin_sqrt(x); }
// element (i, j) of op(A)
template <class T> VI T el(blas::Op op, const T* a, I ld, I i, I j) { return op == blas::Op::NoTrans ? a[i + j * ld] : op == blas::Op::Trans ? a[j + i * ld] : cj(a[j + i * ld]); }
// element (i, j) of op(A) for a triangular A
template <class T> VI T tri(blas::Uplo u, blas::Op op, blas::Diag d, const T* a, I ld, I i, I j) {
  const I r = op == blas::Op::NoTrans ? i : j, c = op == blas::Op::NoTrans ? j : i;
  if (r == c) return d == blas::Diag::Unit ? T(1) : el(op, a, ld, i, j);
  if ((u == blas::Uplo::Lower) != (r > c)) return T(0);
  return el(op, a, ld, i, j);
}
// element (i, j) of a hermitian A
template <class T> VI T her(blas::Uplo u, const T* a, I ld, I i, I j) {
  if (i == j) return T(re(a[i + j * ld]));
  return (u == blas::Uplo::Lower) == (i > j) ? a[i + j * ld] : cj(a[j + i * ld]);
}
template <class T> VI bool isz(T x) { return x == T(0); }
template <class T> VI T upd(T beta, T c, T x) { return isz(beta) ? x : mul(beta, c) + x; }
template <class T> VI void gemm(blas::Op oa, blas::Op ob, I m, I n, I k, T al, const T* a, I la, const T* b, I lb, T be, T* c, I lc) {
  for (I j = 0; j < n; ++j) for (I i = 0; i < m; ++i) {
    T s(0);
    for (I p = 0; p < k; ++p) s += mul(el(oa, a, la, i, p), el(ob, b, lb, p, j));
    c[i + j * lc] = upd(be, c[i + j * lc], mul(al, s));
  }
}
template <class T> VI void hemm(blas::Side sd, blas::Uplo u, I m, I n, T al, const T* a, I la, const T* b, I lb, T be, T* c, I lc) {
  for (I j = 0; j < n; ++j) for (I i = 0; i < m; ++i) {
    T s(0);
    if (sd == blas::Side::Left) for (I p = 0; p < m; ++p) s += mul(her(u, a, la, i, p), b[p + j * lb]);
    else for (I p = 0; p < n; ++p) s += mul(b[i + p * lb], her(u, a, la, p, j));
    c[i + j * lc] = upd(be, c[i + j * lc], mul(al, s));
  }
}
template <class T> VI void herk(blas::Uplo u, blas::Op o, I n, I k, typename num<T>::base al, const T* a, I la, typename num<T>::base be, T* c, I lc) {
  const blas::Op o2 = o == blas::Op::NoTrans ? blas::Op::ConjTrans : blas::Op::NoTrans;
  const blas::Op o1 = o == blas::Op::NoTrans ? blas::Op::NoTrans : blas::Op::ConjTrans;
  for (I j = 0; j < n; ++j) for (I i = 0; i < n; ++i) {
    if (i != j && (u == blas::Uplo::Lower) != (i > j)) continue;
    T s(0);
    for (I p = 0; p < k; ++p) s += mul(el(o1, a, la, i, p), el(o2, a, la, p, j));
    T& x = c[i + j * lc];
    const T y = upd(T(be), x, mul(T(al), s));
    x = i == j ? T(re(y)) : y;
  }
}
template <class T> VI void her2k(blas::Uplo u, blas::Op o, I n, I k, T al, const T* a, I la, const T* b, I lb, typename num<T>::base be, T* c, I lc) {
  const blas::Op o2 = o == blas::Op::NoTrans ? blas::Op::ConjTrans : blas::Op::NoTrans;
  const blas::Op o1 = o == blas::Op::NoTrans ? blas::Op::NoTrans : blas::Op::ConjTrans;
  for (I j = 0; j < n; ++j) for (I i = 0; i < n; ++i) {
    if (i != j && (u == blas::Uplo::Lower) != (i > j)) continue;
    T s(0), t(0);
    for (I p = 0; p < k; ++p) { s += mul(el(o1, a, la, i, p), el(o2, b, lb, p, j)); t += mul(el(o1, b, lb, i, p), el(o2, a, la, p, j)); }
    T& x = c[i + j * lc];
    const T y = upd(T(be), x, mul(al, s) + mul(cj(al), t));
    x = i == j ? T(re(y)) : y;
  }
}
template <class T, I N> struct tmp_ { T v[N]; };
inline constexpr I MAXN = 8;
template <class T> VI void trmm(blas::Side sd, blas::Uplo u, blas::Op o, blas::Diag d, I m, I n, T al, const T* a, I la, T* b, I lb) {
  if (sd == blas::Side::Left) {
    for (I j = 0; j < n; ++j) {
      T t[MAXN];
      for (I i = 0; i < m; ++i) { T s(0); for (I p = 0; p < m; ++p) s += mul(tri(u, o, d, a, la, i, p), b[p + j * lb]); t[i] = s; }
      for (I i = 0; i < m; ++i) b[i + j * lb] = mul(al, t[i]);
    }
  }
  else {
    for (I i = 0; i < m; ++i) {
      T t[MAXN];
      for (I j = 0; j < n; ++j) { T s(0); for (I p = 0; p < n; ++p) s += mul(b[i + p * lb], tri(u, o, d, a, la, p, j)); t[j] = s; }
      for (I j = 0; j < n; ++j) b[i + j * lb] = mul(al, t[j]);
    }
  }
}
template <class T> VI void trsm(blas::Side sd, blas::Uplo u, blas::Op o, blas::Diag d, I m, I n, T al, const T* a, I la, T* b, I lb) {
  const bool low = (u == blas::Uplo::Lower) == (o == blas::Op::NoTrans);   // op(A) is lower triangular
  if (sd == blas::Side::Left) {
    for (I j = 0; j < n; ++j) for (I q = 0; q < m; ++q) {
      const I i = low ? q : m - 1 - q;
      T s = mul(al, b[i + j * lb]);
      for (I p = 0; p < m; ++p) if (low ? p < i : p > i) s -= mul(tri(u, o, d, a, la, i, p), b[p + j * lb]);
      b[i + j * lb] = d == blas::Diag::Unit ? s : mul(s, inv(tri(u, o, d, a, la, i, i)));
    }
  }
  else {
    for (I i = 0; i < m; ++i) for (I q = 0; q < n; ++q) {
      const I j = low ? n - 1 - q : q;
      T s = mul(al, b[i + j * lb]);
      for (I p = 0; p < n; ++p) if (low ? p > j : p < j) s -= mul(b[i + p * lb], tri(u, o, d, a, la, p, j));
      b[i + j * lb] = d == blas::Diag::Unit ? s : mul(s, inv(tri(u, o, d, a, la, j, j)));
    }
  }
}
template <class T> VI void gemv(blas::Op o, I m, I n, T al, const T* a, I la, const T* x, I ix, T be, T* y, I iy) {
  const I r = o == blas::Op::NoTrans ? m : n, c = o == blas::Op::NoTrans ? n : m;
  for (I i = 0; i < r; ++i) { T s(0); for (I p = 0; p < c; ++p) s += mul(el(o, a, la, i, p), x[p * ix]); y[i * iy] = upd(be, y[i * iy], mul(al, s)); }
}
template <class T> VI I potrf(blas::Uplo u, I n, T* a, I la) {
  for (I j = 0; j < n; ++j) {   // L(i, j) or U(j, i)
    auto at = [&](I i, I k) -> T& { return u == blas::Uplo::Lower ? a[i + k * la] : a[k + i * la]; };
    double s = re(at(j, j));
    for (I p = 0; p < j; ++p) s -= re(mul(at(j, p), cj(at(j, p))));
    const double r = root(s);
    at(j, j) = T(r);
    for (I i = j + 1; i < n; ++i) {
      T x = at(i, j);
      for (I p = 0; p < j; ++p) x -= u == blas::Uplo::Lower ? mul(at(i, p), cj(at(j, p))) : mul(cj(at(j, p)), at(i, p));
      at(i, j) = mul(x, T(1 / r));
    }
  }
  return 0;
}
}
