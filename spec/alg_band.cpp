// P53 band to tridiagonal and its back-transformation: Q T Q^H = A, Q unitary, Q as the back-transformation applies it
//@ algorithm
#include "algo.h"
#include "ranks.h"
#include <dlaf/eigensolver/band_to_tridiag.h>
#include <dlaf/eigensolver/band_to_tridiag/mc.h>
#include <dlaf/eigensolver/bt_band_to_tridiag.h>
#include <dlaf/eigensolver/bt_band_to_tridiag/impl.h>
#define ETI(T) namespace dlaf { namespace eigensolver::internal { template struct BandToTridiag<Backend::MC, Device::CPU, T>; template struct BackTransformationT2B<Backend::MC, Device::CPU, T>; } namespace matrix::internal { template class MatrixRef<const T, Device::CPU>; template class MatrixRef<T, Device::CPU>; } }
ETI(double)
ETI(Z)
//@ def BT = include/dlaf/eigensolver/band_to_tridiag.h, include/dlaf/eigensolver/band_to_tridiag/mc.h
//@ def BB = include/dlaf/eigensolver/bt_band_to_tridiag.h, include/dlaf/eigensolver/bt_band_to_tridiag/impl.h
using eigensolver::internal::band_to_tridiagonal;
using eigensolver::internal::bt_band_to_tridiagonal;
namespace {
template <class T, S N, S NB, S B, int R, int C> bool tridiag(const S* p, S base, S group, int sr = 0, int sc = 0) {
  Arr<T, N, N> a, a0, e;
  double d[N], f[N];
  int got = 0;
  a.fill(p, 0);
  for (S j = 0; j < N; ++j) a(j, j) = algo::re(a(j, j));
  algo::put(a0, a);
  for (S j = 0; j < N; ++j) for (S i = 0; i < N; ++i) e(i, j) = i == j;
  getTuneParameters().band_to_tridiag_1d_block_size_base = base;
  getTuneParameters().bt_band_to_tridiag_hh_apply_group_size = group;
  bool ok = true;
  ok &= algo::run<R, C>(sizeof(T) > 8, [&](auto& ma, auto& me, auto&... g) {
    auto r = band_to_tridiagonal<MC>(g..., Low, B, ma);
    ok &= r.tridiagonal.distribution().size() == GlobalElementSize(N, 2) && matrix::local_matrix(r.tridiagonal);
    for (S k = 0; k * NB < N; ++k) {
      auto tile = pika::this_thread::experimental::sync_wait(r.tridiagonal.read(LocalTileIndex(k, 0)));
      const S n = N - k * NB < NB ? N - k * NB : NB;
      ok &= tile.get().size() == TileElementSize(n, 2);
      for (S i = 0; i < n; ++i) {
        const double x = tile.get()({i, 0});
        if (got) ok &= algo::near(x, d[k * NB + i]); else d[k * NB + i] = x;
        if (k * NB + i == N - 1) continue;
        const double y = tile.get()({i, 1});
        if (got) ok &= algo::near(y, f[k * NB + i]); else f[k * NB + i] = y;
      }
    }
    ++got;
    matrix::internal::MatrixRef<T, CPU> ref(me);
    bt_band_to_tridiagonal<MC>(g..., B, ref, r.hh_reflectors);
  }, algo::on(a, NB, NB, sr, sc), algo::on(e, NB, NB, sr, sc));
  ok &= a.equal(a0);
  return ok & algo::all<N, N>([&](S i, S j) {
    T s(0), u(0);
    for (S k = 0; k < N; ++k) {
      T x = e(i, k) * d[k];
      if (k > 0) x += e(i, k - 1) * f[k - 1];
      if (k < N - 1) x += e(i, k + 1) * f[k];
      s += x * algo::cj(e(j, k));
      u += algo::cj(e(k, i)) * e(k, j);
    }
    return algo::near(u, T(i == j)) && (i < j || algo::near(s, i - j <= B ? a0(i, j) : T(0)));
  });
}
}
//@ law band ; about: $BT, $BB ; dom: p=ptr ; generic=1
extern "C" bool law_band(const S* p) { return tridiag<double, 6, 4, 2, 0, 0>(p, 4, 2); }
//@ law band_z ; about: $BT, $BB ; dom: p=ptr ; generic=1
extern "C" bool law_band_z(const S* p) { return tridiag<Z, 5, 2, 2, 0, 0>(p, 2, 1); }
//@ law band_wide ; about: $BT, $BB ; dom: p=ptr ; generic=1
extern "C" bool law_band_wide(const S* p) { return tridiag<double, 7, 3, 3, 0, 0>(p, 3, 3); }
//@ law band_2x2 ; about: $BT, $BB ; dom: p=ptr ; generic=1
extern "C" bool law_band_2x2(const S* p) { return tridiag<double, 6, 2, 2, 2, 2>(p, 2, 2); }
//@ law band_src ; about: $BT, $BB ; dom: p=ptr ; generic=1
extern "C" bool law_band_src(const S* p) { return tridiag<Z, 5, 2, 2, 2, 1>(p, 2, 1, 1, 0); }
//@ law band_small_base ; about: $BT, include/dlaf/eigensolver/internal/get_1d_block_size.h ; dom: p=ptr ; generic=1
extern "C" bool law_band_small_base(const S* p) { return tridiag<double, 5, 4, 2, 2, 1>(p, 2, 2); }
//@ law band_odd_base ; about: $BT, include/dlaf/eigensolver/internal/get_1d_block_size.h ; dom: p=ptr ; generic=1
extern "C" bool law_band_odd_base(const S* p) { return tridiag<double, 6, 2, 2, 2, 1>(p, 5, 2); }
