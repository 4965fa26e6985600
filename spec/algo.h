// Common part of the specs about whole algorithms: tasks, processes and workers run in turn, one thread (stubs/seq), BLAS and LAPACK have
// their textbook meaning (seqmodel.h), matrices are small and their elements arbitrary.
#pragma once
#ifndef VERIF_FIBERS
#define VERIF_FIBERS
#endif
#include "stdmodel.h"
#include "seqmodel.h"
#include <dlaf/matrix/matrix.h>
#include <dlaf/matrix/matrix_ref.h>
#include <dlaf/tune.h>
#include <dlaf/common/single_threaded_blas.h>
using namespace dlaf;
using S = SizeType;
using Z = std::complex<double>;
namespace bl = blas;
inline constexpr auto MC = Backend::MC;
inline constexpr auto CPU = Device::CPU;
namespace dlaf {   // one set of parameters per law
TuneParameters& getTuneParameters() { static TuneParameters* p = nullptr; if (!p) p = new TuneParameters(); return *p; }
}
namespace dlaf::common::internal {   // the number of threads of BLAS is the subject of P31
SingleThreadedBlasScope::SingleThreadedBlasScope() {}
SingleThreadedBlasScope::~SingleThreadedBlasScope() {}
}
#define ALGO_ETI(T) \
  namespace dlaf::matrix { template class Tile<const T, Device::CPU>; template class Tile<T, Device::CPU>; template class Matrix<const T, Device::CPU>; template class Matrix<T, Device::CPU>; } \
  namespace dlaf::memory { template class MemoryView<T, Device::CPU>; }
ALGO_ETI(double)
ALGO_ETI(Z)
namespace algo {
// tasks run in program order, or (late) as late as possible and the youngest first; done(): wait for all of them
VI void late(bool l) { pika::execution::experimental::stub::cur().lazy = l; }
VI void done() { pika::execution::experimental::stub::cur().finish(); }
// the k-th arbitrary number of the input: -1 .. 1, not 0
VI double num(const S* p, S k) { return (p[k] & 2047) * (1 / 1024.) - (1 - 1 / 4096.); }
VI void make(double& x, const S* p, S k) { x = num(p, 2 * k); }
VI void make(Z& x, const S* p, S k) { x = Z(num(p, 2 * k), num(p, 2 * k + 1)); }
// a fixed scalar: algorithms may look at it to decide what to do
VI void scalar(double& x) { x = 1.25; }
VI void scalar(Z& x) { x = Z(1.25, -0.5); }
VI double dist(double a, double b) { return __builtin_fabs(a - b); }
VI double dist(Z a, Z b) { return __builtin_fabs(a.real() - b.real()) + __builtin_fabs(a.imag() - b.imag()); }
#ifdef VERIF_MEET   // only the communication and the completion of all tasks are of interest, not the numbers
template <class T> VI bool near(T, T) { return true; }
template <class T> VI bool same(T, T) { return true; }
#else
template <class T> VI bool near(T a, T b) { return dist(a, b) < 1e-8; }
template <class T> VI bool same(T a, T b) { return !(dist(a, b) > 0); }
#endif
// a matrix of M x N elements with leading dimension LD, column-major, including the elements of the padding
template <class T, S M, S N, S LD = M> struct Arr {
  T v[LD * N > 0 ? LD * N : 1];
  VI T& operator()(S i, S j) { return v[i + j * LD]; }
  VI void fill(const S* p, S off) { for (S k = 0; k < LD * N; ++k) make(v[k], p, off + k); }
  VI bool close(Arr& o) { bool ok = true; for (S k = 0; k < LD * N; ++k) ok &= near(v[k], o.v[k]); return ok; }
  VI bool equal(Arr& o) { bool ok = true; for (S k = 0; k < LD * N; ++k) ok &= same(v[k], o.v[k]); return ok; }
};
// a local matrix on top of an array, tiles of MB x NB
template <class T, S M, S N, S LD> VI matrix::Matrix<T, CPU> local(Arr<T, M, N, LD>& a, S mb, S nb) {
  matrix::Distribution d(LocalElementSize(M, N), TileElementSize(mb, nb));
  return matrix::Matrix<T, CPU>(matrix::ColMajorLayout(d, LD), a.v);
}
template <class T, S M, S N, S LD> VI void diagonal(Arr<T, M, N, LD>& a, double x) { for (S j = 0; j < (M < N ? M : N); ++j) a(j, j) += x; }
// where a matrix lives: tiles of MB x NB, first tile on process (SR, SC)
template <class A> struct On { A& a; S mb, nb; int sr, sc; };
template <class A> VI On<A> on(A& a, S mb, S nb, int sr = 0, int sc = 0) { return {a, mb, nb, sr, sc}; }
template <class A> VI On<A> on(A& a, S nb) { return {a, nb, nb, 0, 0}; }
// every element (i, j) satisfies f
template <S M, S N, class F> VI bool all(F f) { bool ok = true; for (S j = 0; j < N; ++j) for (S i = 0; i < M; ++i) ok &= bool(f(i, j)); return ok; }
// x = y
template <class A> VI void put(A& x, A& y) { for (S k = 0; k < static_cast<S>(sizeof(x.v) / sizeof(x.v[0])); ++k) x.v[k] = y.v[k]; }
VI double cj(double x) { return x; }
VI Z cj(Z x) { return Z(x.real(), -x.imag()); }
VI double re(double x) { return x; }
VI double re(Z x) { return x.real(); }
}
using algo::Arr;
using algo::local;
// laws of a spec are instances of one template over (type, sizes, process grid); R = 0: the local algorithm
inline constexpr auto Lft = bl::Side::Left, Rgt = bl::Side::Right;
inline constexpr auto Low = bl::Uplo::Lower, Upp = bl::Uplo::Upper;
inline constexpr auto NT = bl::Op::NoTrans, TR = bl::Op::Trans, CT = bl::Op::ConjTrans;
inline constexpr auto ND = bl::Diag::NonUnit, UD = bl::Diag::Unit;
