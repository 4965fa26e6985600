// P40 / P41 the eigensolvers as a whole, around a model of the tridiagonal solver: E^H A E and E^H B E are what the
// tridiagonal problem says, for all requested columns
//@ algorithm
#include "algo.h"
#include "ranks.h"
#include <dlaf/eigensolver/eigensolver.h>
#include <dlaf/eigensolver/eigensolver/impl.h>
#include <dlaf/eigensolver/gen_eigensolver.h>
#include <dlaf/eigensolver/gen_eigensolver/impl.h>
#include <dlaf/eigensolver/reduction_to_band/impl.h>
#include <dlaf/eigensolver/bt_reduction_to_band/impl.h>
#include <dlaf/eigensolver/band_to_tridiag/mc.h>
#include <dlaf/eigensolver/bt_band_to_tridiag/impl.h>
#include <dlaf/eigensolver/gen_to_std/impl.h>
#include <dlaf/factorization/cholesky/impl.h>
#include <dlaf/factorization/qr/t_factor_impl.h>
#include <dlaf/multiplication/general/impl.h>
#include <dlaf/solver/triangular/impl.h>
namespace {
double dd[16], ff[16];   // the tridiagonal matrix that was handed over
long solved;
template <class T, class E> void model(matrix::Matrix<T, CPU>& tri, matrix::Matrix<T, CPU>& evals, matrix::Matrix<E, CPU>& evecs) {
  const S n = tri.size().rows(), nb = tri.block_size().rows();
  for (S k = 0; k * nb < n; ++k) {
    auto t = pika::this_thread::experimental::sync_wait(tri.readwrite(LocalTileIndex(k, 0)));
    auto w = pika::this_thread::experimental::sync_wait(evals.readwrite(LocalTileIndex(k, 0)));
    for (S i = 0; i < nb && k * nb + i < n; ++i) {
      dd[k * nb + i] = t({i, 0}); t({i, 0}) = 77.0;
      if (k * nb + i < n - 1) ff[k * nb + i] = t({i, 1});
      t({i, 1}) = 78.0;
      w({i, 0}) = 10.0 + k * nb + i;
    }
  }
  // eigenvector k is unit vector k + 1 mod n
  const auto& d = evecs.distribution();
  for (S j = 0; j < d.local_nr_tiles().cols(); ++j) for (S i = 0; i < d.local_nr_tiles().rows(); ++i) {
    auto t = pika::this_thread::experimental::sync_wait(evecs.readwrite(LocalTileIndex(i, j)));
    const auto o = d.global_element_index(d.global_tile_index(LocalTileIndex(i, j)), {0, 0});
    for (S y = 0; y < t.size().cols(); ++y) for (S x = 0; x < t.size().rows(); ++x) t({x, y}) = E((o.row() + x) == (o.col() + y + 1) % n);
  }
  ++solved;
}
}
namespace dlaf::eigensolver::internal {
template <Backend B, Device D, class T> void TridiagSolver<B, D, T>::call(Matrix<T, CPU>& t, Matrix<T, D>& w, Matrix<T, D>& e) { model(t, w, e); }
template <Backend B, Device D, class T> void TridiagSolver<B, D, T>::call(Matrix<T, CPU>& t, Matrix<T, D>& w, Matrix<std::complex<T>, D>& e) { model(t, w, e); }
template <Backend B, Device D, class T> void TridiagSolver<B, D, T>::call(comm::CommunicatorGrid&, Matrix<T, CPU>& t, Matrix<T, D>& w, Matrix<T, D>& e) { model(t, w, e); }
template <Backend B, Device D, class T> void TridiagSolver<B, D, T>::call(comm::CommunicatorGrid&, Matrix<T, CPU>& t, Matrix<T, D>& w, Matrix<std::complex<T>, D>& e) { model(t, w, e); }
template struct TridiagSolver<Backend::MC, Device::CPU, double>;
}
#define ETI(T) namespace dlaf { namespace factorization::internal { template struct QR_Tfactor<Backend::MC, Device::CPU, T>; template struct Cholesky<Backend::MC, Device::CPU, T>; } \
  namespace multiplication::internal { template struct General<Backend::MC, Device::CPU, T>; } namespace solver::internal { template struct Triangular<Backend::MC, Device::CPU, T>; } \
  namespace eigensolver::internal { template struct ReductionToBand<Backend::MC, Device::CPU, T>; template struct BackTransformationReductionToBand<Backend::MC, Device::CPU, T>; \
    template struct BandToTridiag<Backend::MC, Device::CPU, T>; template struct BackTransformationT2B<Backend::MC, Device::CPU, T>; template struct GenToStd<Backend::MC, Device::CPU, T>; \
    template struct Eigensolver<Backend::MC, Device::CPU, T>; template struct GenEigensolver<Backend::MC, Device::CPU, T>; } \
  namespace matrix::internal { template class MatrixRef<const T, Device::CPU>; template class MatrixRef<T, Device::CPU>; } }
ETI(double)
ETI(Z)
//@ def EIG = include/dlaf/eigensolver/eigensolver.h, include/dlaf/eigensolver/eigensolver/impl.h
//@ def GEN = include/dlaf/eigensolver/gen_eigensolver.h, include/dlaf/eigensolver/gen_eigensolver/impl.h
namespace {
enum Problem { STD, GENERAL, FACTORISED };
// the full matrix behind a stored lower triangle
template <class T, S N> void hermitian(Arr<T, N, N>& a) { for (S j = 0; j < N; ++j) { a(j, j) = algo::re(a(j, j)); for (S i = 0; i < j; ++i) a(i, j) = algo::cj(a(j, i)); } }
template <class T, S N, S NB, int R, int C> bool eig(const S* p, Problem what, S end, bool result, int sr = 0, int sc = 0) {
  Arr<T, N, N> a, b, fa, fb, e, er;
  Arr<double, N, 1> w;
  a.fill(p, 0); b.fill(p, 100); e.fill(p, 200);
  algo::put(fa, a); hermitian(fa);
  if (what == FACTORISED) {   // b: a lower factor
    algo::diagonal(b, 3);
    for (S j = 0; j < N; ++j) b(j, j) = algo::re(b(j, j));
    for (S j = 0; j < N; ++j) for (S i = 0; i < N; ++i) { T s(0); for (S k = 0; k <= i && k <= j; ++k) s += b(i, k) * algo::cj(b(j, k)); fb(i, j) = s; }
  }
  else { algo::diagonal(b, 8); algo::put(fb, b); hermitian(fb); algo::put(b, fb); }
  if (what == STD) for (S j = 0; j < N; ++j) for (S i = 0; i < N; ++i) fb(i, j) = i == j;
  getTuneParameters().eigensolver_min_band = 2;
  getTuneParameters().band_to_tridiag_1d_block_size_base = 2;
  solved = 0;
  bool ok = true;
  auto check = [&](auto& mw) {
    for (S k = 0; k * NB < N; ++k) {
      auto t = pika::this_thread::experimental::sync_wait(mw.read(LocalTileIndex(k, 0)));
      for (S i = 0; i < NB && k * NB + i < N; ++i) ok &= algo::same(t.get()({i, 0}), 10.0 + k * NB + i);
    }
  };
  ok &= algo::run<R, C>(sizeof(T) > 8, [&](auto& ma, auto& mb, auto& me, auto&... g) {
    if (result) {
      auto r = what == STD ? (end == N ? hermitian_eigensolver<MC>(g..., Low, ma) : hermitian_eigensolver<MC>(g..., Low, ma, 0, end))
             : what == GENERAL ? (end == N ? hermitian_generalized_eigensolver<MC>(g..., Low, ma, mb) : hermitian_generalized_eigensolver<MC>(g..., Low, ma, mb, 0, end))
                               : (end == N ? hermitian_generalized_eigensolver_factorized<MC>(g..., Low, ma, mb) : hermitian_generalized_eigensolver_factorized<MC>(g..., Low, ma, mb, 0, end));
      check(r.eigenvalues);
      ok &= r.eigenvectors.size() == me.size() && r.eigenvectors.block_size() == ma.block_size();
      const auto& d = r.eigenvectors.distribution();
      for (S j = 0; j < d.local_nr_tiles().cols(); ++j) for (S i = 0; i < d.local_nr_tiles().rows(); ++i) {
        auto t = pika::this_thread::experimental::sync_wait(r.eigenvectors.read(LocalTileIndex(i, j)));
        const auto o = d.global_element_index(d.global_tile_index(LocalTileIndex(i, j)), {0, 0});
        for (S y = 0; y < t.get().size().cols(); ++y) for (S x = 0; x < t.get().size().rows(); ++x) er(o.row() + x, o.col() + y) = t.get()({x, y});
      }
    }
    else {
      matrix::Matrix<double, CPU> mw(LocalElementSize(N, 1), TileElementSize(NB, 1));
      if (what == STD) { if (end == N) hermitian_eigensolver<MC>(g..., Low, ma, mw, me); else hermitian_eigensolver<MC>(g..., Low, ma, mw, me, 0, end); }
      else if (what == GENERAL) { if (end == N) hermitian_generalized_eigensolver<MC>(g..., Low, ma, mb, mw, me); else hermitian_generalized_eigensolver<MC>(g..., Low, ma, mb, mw, me, 0, end); }
      else { if (end == N) hermitian_generalized_eigensolver_factorized<MC>(g..., Low, ma, mb, mw, me); else hermitian_generalized_eigensolver_factorized<MC>(g..., Low, ma, mb, mw, me, 0, end); }
      check(mw);
    }
  }, algo::on(a, NB, NB, sr, sc), algo::on(b, NB, NB, sr, sc), algo::on(e, NB, NB, result ? 0 : sr, result ? 0 : sc));
  if (result) algo::put(e, er);
  ok &= solved == (R ? R * C : 1);
  auto tri = [&](S i, S j) { return i == j ? dd[i] : i == j + 1 ? ff[j] : j == i + 1 ? ff[i] : 0.0; };
  Arr<T, N, N> ae, be;
  for (S j = 0; j < end; ++j) for (S i = 0; i < N; ++i) {
    T s(0), u(0);
    for (S k = 0; k < N; ++k) { s += fa(i, k) * e(k, j); u += fb(i, k) * e(k, j); }
    ae(i, j) = s; be(i, j) = u;
  }
  for (S j = 0; j < end; ++j) for (S i = 0; i < end; ++i) {
    T s(0), u(0);
    for (S k = 0; k < N; ++k) { s += algo::cj(e(k, i)) * ae(k, j); u += algo::cj(e(k, i)) * be(k, j); }
    ok &= algo::near(u, T(i == j)) & algo::near(s, T(tri((i + 1) % N, (j + 1) % N)));
  }
  return ok;
}
}
//@ law std ; about: $EIG ; dom: p=ptr ; generic=1
extern "C" bool law_std(const S* p) { return eig<double, 5, 2, 0, 0>(p, STD, 5, false) & eig<Z, 4, 2, 0, 0>(p, STD, 4, true); }
//@ law gen ; about: $GEN ; dom: p=ptr ; generic=1
extern "C" bool law_gen(const S* p) { return eig<double, 5, 2, 0, 0>(p, GENERAL, 5, true) & eig<Z, 4, 2, 0, 0>(p, GENERAL, 4, false); }
//@ law fac ; about: $GEN ; dom: p=ptr ; generic=1
extern "C" bool law_fac(const S* p) { return eig<double, 5, 2, 0, 0>(p, FACTORISED, 5, false) & eig<Z, 3, 2, 0, 0>(p, FACTORISED, 3, true); }
//@ law part_std ; about: $EIG ; dom: p=ptr ; generic=1
extern "C" bool law_part_std(const S* p) { return eig<double, 5, 2, 0, 0>(p, STD, 3, false) & eig<double, 5, 2, 0, 0>(p, STD, 2, true) & eig<double, 5, 2, 0, 0>(p, STD, 0, false); }
//@ law part_gen ; about: $GEN ; dom: p=ptr ; generic=1
extern "C" bool law_part_gen(const S* p) { return eig<double, 5, 2, 0, 0>(p, GENERAL, 3, true) & eig<double, 5, 2, 0, 0>(p, FACTORISED, 1, false); }
//@ law band4 ; about: $EIG ; dom: p=ptr ; generic=1
extern "C" bool law_band4(const S* p) { return eig<double, 6, 4, 0, 0>(p, STD, 5, false); }
//@ law std_2x1 ; about: $EIG ; dom: p=ptr ; generic=1
extern "C" bool law_std_2x1(const S* p) { return eig<double, 4, 2, 2, 1>(p, STD, 4, false, 1, 0); }
//@ law part_2x2 ; about: $EIG ; dom: p=ptr ; generic=1
extern "C" bool law_part_2x2(const S* p) { return eig<double, 4, 2, 2, 2>(p, STD, 3, true); }
//@ law gen_1x2 ; about: $GEN ; dom: p=ptr ; generic=1
extern "C" bool law_gen_1x2(const S* p) { return eig<double, 4, 2, 1, 2>(p, GENERAL, 3, false); }
//@ law fac_2x1 ; about: $GEN ; dom: p=ptr ; generic=1
extern "C" bool law_fac_2x1(const S* p) { return eig<Z, 4, 2, 2, 1>(p, FACTORISED, 2, true); }
// requests that make no sense are refused
namespace {
template <int R, int C> void bad(const S* p, S begin, S end, bool upper = false) {
  Arr<double, 4, 4> a, b, e;
  a.fill(p, 0); b.fill(p, 100); e.fill(p, 200);
  algo::run<R, C>(false, [&](auto& ma, auto&, auto& me, auto&... g) {
    matrix::Matrix<double, CPU> mw(LocalElementSize(4, 1), TileElementSize(2, 1));
    hermitian_eigensolver<MC>(g..., upper ? Upp : Low, ma, mw, me, begin, end);
  }, algo::on(a, 2), algo::on(b, 2), algo::on(e, 2));
}
}
//@ law bad_begin ; about: $EIG ; dom: p=ptr
extern "C" void rej_bad_begin(const S* p) { bad<0, 0>(p, 1, 3); }
//@ law bad_end ; about: $EIG ; dom: p=ptr
extern "C" void rej_bad_end(const S* p) { bad<0, 0>(p, 0, 5); }
//@ law bad_neg ; about: $EIG ; dom: p=ptr
extern "C" void rej_bad_neg(const S* p) { bad<0, 0>(p, 0, -1); }
//@ law bad_begin_g ; about: $EIG ; dom: p=ptr
extern "C" void rej_bad_begin_g(const S* p) { bad<1, 2>(p, 1, 3); }
//@ law bad_end_g ; about: $EIG ; dom: p=ptr
extern "C" void rej_bad_end_g(const S* p) { bad<1, 2>(p, 0, 5); }
//@ law bad_uplo ; about: $EIG ; dom: p=ptr
extern "C" void rej_bad_uplo(const S* p) { bad<0, 0>(p, 0, 4, true); }
