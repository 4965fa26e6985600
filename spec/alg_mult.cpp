// P35 general and hermitian multiplication compute C := alpha A B + beta C
//@ algorithm
#include "algo.h"
#include "ranks.h"
#include <dlaf/multiplication/general.h>
#include <dlaf/multiplication/general/impl.h>
#include <dlaf/multiplication/hermitian.h>
#include <dlaf/multiplication/hermitian/impl.h>
#define ETI(T) namespace dlaf { namespace multiplication::internal { template struct General<Backend::MC, Device::CPU, T>; template struct Hermitian<Backend::MC, Device::CPU, T>; } namespace matrix::internal { template class MatrixRef<const T, Device::CPU>; template class MatrixRef<T, Device::CPU>; } }
ETI(double)
ETI(Z)
//@ def GE = include/dlaf/multiplication/general.h, include/dlaf/multiplication/general/impl.h
//@ def HE = include/dlaf/multiplication/hermitian.h, include/dlaf/multiplication/hermitian/impl.h
using matrix::internal::MatrixRef;
namespace {
template <class T> T val(int zero) { T x; algo::scalar(x); return zero == 1 ? T(0) : zero == 2 ? T(1) : x; }
// C := beta C + alpha A B, A hermitian: its lower triangle is given
template <class T, S N, S K, S NB, S KB, int R, int C> bool hemm(const S* p, int alpha, int beta, int sr = 0, int sc = 0) {
  Arr<T, N, N> a, a0; Arr<T, N, K> b, b0, c, r;
  a.fill(p, 0); b.fill(p, 100); c.fill(p, 200);
  for (S j = 0; j < N; ++j) a(j, j) = algo::re(a(j, j));
  algo::put(a0, a); algo::put(b0, b);
  const T al = val<T>(alpha), be = val<T>(beta) * 0.5;
  for (S j = 0; j < K; ++j) for (S i = 0; i < N; ++i) { T s = T(0); for (S k = 0; k < N; ++k) s += (i >= k ? a(i, k) : algo::cj(a(k, i))) * b(k, j); r(i, j) = be * c(i, j) + al * s; }
  const bool ok = algo::run<R, C>(sizeof(T) > 8, [&](auto& ma, auto& mb, auto& mc, auto&... g) { hermitian_multiplication<MC, CPU, T>(g..., Lft, Low, al, ma, mb, be, mc); },
                                  algo::on(a, NB, NB, sr, sc), algo::on(b, NB, KB, sr, sc), algo::on(c, NB, KB, sr, sc));
  return ok & a.equal(a0) & b.equal(b0) & c.close(r);
}
// sub-matrices: A (M x K at (ma, ka)), B (K x N at (kb, nb)), C (M x N at (mc, nc)) of 5 x 5 matrices
template <class T, int R, int C> bool gemm(const S* p, int alpha, int beta, S M, S N, S K, S ma, S ka, S kb, S nb, S mc, S nc, int sr = 0, int sc = 0) {
  constexpr S D = 6, NB = 2;
  Arr<T, D, D> a, a0, b, b0, c, r;
  a.fill(p, 0); b.fill(p, 100); c.fill(p, 200);
  algo::put(a0, a); algo::put(b0, b); algo::put(r, c);
  const T al = val<T>(alpha), be = val<T>(beta) * 0.5;
  for (S j = 0; j < N; ++j) for (S i = 0; i < M; ++i) { T s = T(0); for (S k = 0; k < K; ++k) s += a(ma + i, ka + k) * b(kb + k, nb + j); r(mc + i, nc + j) = be * c(mc + i, nc + j) + al * s; }
  const bool ok = algo::run<R, C>(sizeof(T) > 8, [&](auto& xa, auto& xb, auto& xc, auto&... g) {
    MatrixRef<const T, CPU> va(xa, matrix::internal::SubMatrixSpec{{ma, ka}, {M, K}}), vb(xb, matrix::internal::SubMatrixSpec{{kb, nb}, {K, N}});
    MatrixRef<T, CPU> vc(xc, matrix::internal::SubMatrixSpec{{mc, nc}, {M, N}});
    if constexpr (sizeof...(g) == 0) multiplication::internal::generalMatrix<MC, CPU, T>(NT, NT, al, va, vb, be, vc);
    else {
      auto& grid = std::get<0>(std::tie(g...));
      auto row = grid.row_communicator_pipeline(); auto col = grid.col_communicator_pipeline();
      multiplication::internal::generalMatrix<MC, CPU, T>(row, col, al, va, vb, be, vc);
    }
  }, algo::on(a, NB, NB, sr, sc), algo::on(b, NB, NB, sr, sc), algo::on(c, NB, NB, sr, sc));
  return ok & a.equal(a0) & b.equal(b0) & c.close(r);
}
}
//@ law hermitian ; about: $HE: call_LL ; dom: p=ptr
extern "C" bool law_hermitian(const S* p) { return hemm<double, 5, 3, 2, 2, 0, 0>(p, 0, 0) & hemm<Z, 5, 3, 2, 2, 0, 0>(p, 0, 2) & hemm<double, 2, 3, 2, 2, 0, 0>(p, 2, 1) & hemm<double, 3, 2, 2, 2, 0, 0>(p, 1, 2); }
//@ law hermitian_2x2 ; about: $HE: call_LL ; dom: p=ptr
extern "C" bool law_hermitian_2x2(const S* p) { return hemm<double, 5, 3, 2, 2, 2, 2>(p, 0, 0); }
//@ law hermitian_src ; about: $HE: call_LL ; dom: p=ptr
extern "C" bool law_hermitian_src(const S* p) { return hemm<Z, 3, 2, 1, 1, 3, 1>(p, 0, 2, 1, 0) & hemm<Z, 3, 2, 1, 1, 1, 2>(p, 0, 0, 0, 1); }
//@ law hermitian_scalars ; about: $HE: call_LL ; dom: p=ptr
extern "C" bool law_hermitian_scalars(const S* p) { return hemm<double, 3, 2, 2, 2, 2, 1>(p, 2, 1) & hemm<double, 3, 2, 2, 2, 1, 2>(p, 1, 2); }
//@ law general ; about: $GE: callNN ; dom: p=ptr
extern "C" bool law_general(const S* p) { return gemm<double, 0, 0>(p, 0, 0, 5, 3, 4, 0, 0, 0, 0, 0, 0) & gemm<Z, 0, 0>(p, 0, 2, 3, 2, 4, 2, 2, 2, 2, 0, 4) & gemm<double, 0, 0>(p, 2, 1, 2, 3, 3, 3, 1, 1, 2, 1, 2); }
//@ law general_2x2 ; about: $GE: callNN ; dom: p=ptr
extern "C" bool law_general_2x2(const S* p) { return gemm<double, 2, 2>(p, 0, 0, 5, 3, 4, 0, 0, 0, 0, 0, 0); }
//@ law general_sub ; about: $GE: callNN ; dom: p=ptr
extern "C" bool law_general_sub(const S* p) { return gemm<double, 2, 2>(p, 0, 2, 3, 4, 4, 2, 2, 2, 2, 2, 2); }
//@ law general_src ; about: $GE: callNN ; dom: p=ptr
extern "C" bool law_general_src(const S* p) { return gemm<Z, 3, 1>(p, 0, 2, 3, 2, 4, 1, 0, 0, 2, 1, 4, 1, 0) & gemm<Z, 1, 2>(p, 2, 1, 2, 3, 4, 0, 2, 2, 1, 0, 1, 0, 1); }
