// P52 reduction to band: A = Q B Q^H with the reflectors that are returned, and the back-transformation applies that Q
//@ algorithm
#include "algo.h"
#include "ranks.h"
#include <dlaf/eigensolver/reduction_to_band.h>
#include <dlaf/eigensolver/reduction_to_band/impl.h>
#include <dlaf/eigensolver/bt_reduction_to_band.h>
#include <dlaf/eigensolver/bt_reduction_to_band/impl.h>
#include <dlaf/factorization/qr.h>
#include <dlaf/factorization/qr/t_factor_impl.h>
#include <dlaf/multiplication/general/impl.h>
#define ETI(T) namespace dlaf { namespace factorization::internal { template struct QR_Tfactor<Backend::MC, Device::CPU, T>; } namespace multiplication::internal { template struct General<Backend::MC, Device::CPU, T>; } namespace eigensolver::internal { template struct ReductionToBand<Backend::MC, Device::CPU, T>; template struct BackTransformationReductionToBand<Backend::MC, Device::CPU, T>; } namespace matrix::internal { template class MatrixRef<const T, Device::CPU>; template class MatrixRef<T, Device::CPU>; } }
ETI(double)
ETI(Z)
//@ def RB = include/dlaf/eigensolver/reduction_to_band.h, include/dlaf/eigensolver/reduction_to_band/impl.h
//@ def BT = include/dlaf/eigensolver/bt_reduction_to_band.h, include/dlaf/eigensolver/bt_reduction_to_band/impl.h
//@ def TF = include/dlaf/factorization/qr.h, include/dlaf/factorization/qr/t_factor_impl.h
using eigensolver::internal::reduction_to_band;
using eigensolver::internal::bt_reduction_to_band;
namespace {
// x := (I - tau v v^H) x, v = (1, a(b + j + 1 : n, j)) at row b + j; from the right: x := x (I - tau v v^H)^H
template <class T, S N, S M> void reflect(Arr<T, N, N>& a, S b, S j, T tau, Arr<T, N, M>& x) {
  for (S c = 0; c < M; ++c) {
    T s = x(b + j, c);
    for (S i = b + j + 1; i < N; ++i) s += algo::cj(a(i, j)) * x(i, c);
    s *= tau;
    x(b + j, c) -= s;
    for (S i = b + j + 1; i < N; ++i) x(i, c) -= a(i, j) * s;
  }
}
template <class T, S N> void reflect_right(Arr<T, N, N>& a, S b, S j, T tau, Arr<T, N, N>& x) {
  for (S r = 0; r < N; ++r) {
    T s = x(r, b + j);
    for (S i = b + j + 1; i < N; ++i) s += x(r, i) * a(i, j);
    s *= algo::cj(tau);
    x(r, b + j) -= s;
    for (S i = b + j + 1; i < N; ++i) x(r, i) -= s * algo::cj(a(i, j));
  }
}
template <class T, S N, S NB, S B, int R, int C> bool reduce(const S* p, int sr = 0, int sc = 0) {
  constexpr S NR = N - B - 1;
  Arr<T, N, N> a, a0, x;
  T taus[NR]; int got[NR] = {};
  a.fill(p, 0);
  for (S j = 0; j < N; ++j) a(j, j) = algo::re(a(j, j));
  algo::put(a0, a);
  bool ok = true;
  ok &= algo::run<R, C>(sizeof(T) > 8, [&](auto& m, auto&... g) {
    auto t = reduction_to_band<MC, CPU, T>(g..., m, B);
    const auto& d = t.distribution();
    ok &= d.size() == GlobalElementSize(NR, 1);
    const int nc = R ? C : 1, me = R ? m.rankIndex().col() : 0;
    // the tiles of the scaling factors live where the columns of the matrix live, on every process of the column
    for (S k = 0, l = 0; k * NB < NR; ++k) {
      if ((k + sc) % nc != me) continue;
      auto tile = pika::this_thread::experimental::sync_wait(t.read(LocalTileIndex(l++, 0)));
      const S n = NR - k * NB < NB ? NR - k * NB : NB;
      ok &= tile.get().size() == TileElementSize(n, 1);
      for (S i = 0; i < n; ++i) { const T v = tile.get()({i, 0}); if (got[k * NB + i]++) ok &= algo::near(v, taus[k * NB + i]); else taus[k * NB + i] = v; }
    }
  }, algo::on(a, NB, NB, sr, sc));
  for (S j = 0; j < NR; ++j) ok &= got[j] == (R ? R : 1);
  // a band matrix
  for (S j = 0; j < N; ++j) for (S i = 0; i < N; ++i) x(i, j) = i >= j && i - j <= B ? (i == j ? T(algo::re(a(i, j))) : a(i, j)) : j > i && j - i <= B ? algo::cj(a(j, i)) : T(0);
  for (S j = NR - 1; j >= 0; --j) {
    double v2 = 1;
    for (S i = B + j + 1; i < N; ++i) v2 += algo::re(a(i, j) * algo::cj(a(i, j)));
    ok &= algo::near(2 * algo::re(taus[j]), algo::re(taus[j] * algo::cj(taus[j])) * v2);   // unitary
    reflect(a, B, j, taus[j], x);
    reflect_right(a, B, j, taus[j], x);
  }
  return ok & algo::all<N, N>([&](S i, S j) { return i >= j ? algo::near(x(i, j), a0(i, j)) : i / NB == j / NB || algo::same(a(i, j), a0(i, j)); });
}
// the back-transformation of given reflectors: C := H(1) H(2) .. H(n) C
template <class T, S N, S M, S NB, S B, int R, int C> bool back(const S* p, int sr = 0, int sc = 0) {
  constexpr S NR = N - B - 1;
  Arr<T, N, N> v, v0; Arr<T, N, M> c, r; Arr<T, NR, 1> t;
  v.fill(p, 0); c.fill(p, 200); t.fill(p, 300); algo::put(v0, v); algo::put(r, c);
  bool ok = algo::run<R, C>(sizeof(T) > 8, [&](auto& mv, auto& mc, auto&... g) {
    matrix::Matrix<T, CPU> mt(matrix::Distribution(GlobalElementSize(NR, 1), TileElementSize(NB, 1), comm::Size2D(mv.commGridSize().cols(), 1), comm::Index2D(mv.rankIndex().col(), 0), comm::Index2D(mv.sourceRankIndex().col(), 0)));
    const int nc = R ? C : 1, me = R ? mv.rankIndex().col() : 0;
    for (S k = 0, l = 0; k * NB < NR; ++k) {
      if ((k + sc) % nc != me) continue;
      auto tile = pika::this_thread::experimental::sync_wait(mt.readwrite(LocalTileIndex(l++, 0)));
      for (S i = 0; i < NB && k * NB + i < NR; ++i) tile({i, 0}) = t(k * NB + i, 0);
    }
    matrix::internal::MatrixRef<T, CPU> rc(mc);
    bt_reduction_to_band<MC, CPU, T>(g..., B, rc, mv, mt);
  }, algo::on(v, NB, NB, sr, sc), algo::on(c, NB, NB, sr, sc));
  for (S j = NR - 1; j >= 0; --j) reflect(v0, B, j, t(j, 0), r);
  return ok & v.equal(v0) & c.close(r);
}
}
//@ law reduce ; about: $RB ; dom: p=ptr ; generic=1
extern "C" bool law_reduce(const S* p) { return reduce<double, 5, 2, 2, 0, 0>(p) & reduce<Z, 5, 2, 2, 0, 0>(p); }
//@ law reduce_sub ; about: $RB ; dom: p=ptr ; generic=1
extern "C" bool law_reduce_sub(const S* p) { return reduce<double, 7, 4, 2, 0, 0>(p); }
//@ law reduce_2x2 ; about: $RB ; dom: p=ptr ; generic=1
extern "C" bool law_reduce_2x2(const S* p) { return reduce<double, 6, 2, 2, 2, 2>(p); }
//@ law reduce_src ; about: $RB ; dom: p=ptr ; generic=1
extern "C" bool law_reduce_src(const S* p) { return reduce<Z, 5, 2, 2, 2, 1>(p, 1, 0) & reduce<double, 6, 2, 2, 1, 3>(p, 0, 2); }
//@ law reduce_sub_2x2 ; about: $RB ; dom: p=ptr ; generic=1
extern "C" bool law_reduce_sub_2x2(const S* p) { return reduce<double, 7, 4, 2, 2, 2>(p); }
//@ law back ; about: $BT ; dom: p=ptr
extern "C" bool law_back(const S* p) { return back<double, 6, 3, 2, 2, 0, 0>(p) & back<Z, 5, 3, 2, 2, 0, 0>(p); }
//@ law back_sub ; about: $BT ; dom: p=ptr
extern "C" bool law_back_sub(const S* p) { return back<double, 7, 3, 4, 2, 0, 0>(p); }
//@ law back_2x2 ; about: $BT ; dom: p=ptr
extern "C" bool law_back_2x2(const S* p) { return back<double, 6, 3, 2, 2, 2, 2>(p); }
//@ law back_src ; about: $BT ; dom: p=ptr
extern "C" bool law_back_src(const S* p) { return back<Z, 5, 2, 2, 2, 2, 1>(p, 1, 0) & back<double, 6, 3, 2, 2, 1, 3>(p, 0, 2); }
