// P38 Cholesky factorisation, inverses and the reduction to standard form: the result is right, other tiles are untouched
//@ algorithm
#include "algo.h"
#include "ranks.h"
#include <dlaf/factorization/cholesky.h>
#include <dlaf/factorization/cholesky/impl.h>
#include <dlaf/inverse/triangular.h>
#include <dlaf/inverse/triangular/impl.h>
#include <dlaf/inverse/cholesky.h>
#include <dlaf/inverse/cholesky/impl.h>
#include <dlaf/eigensolver/gen_to_std.h>
#include <dlaf/eigensolver/gen_to_std/impl.h>
#include <dlaf/solver/triangular/impl.h>
#include <dlaf/multiplication/triangular/impl.h>
#include <dlaf/multiplication/hermitian/impl.h>
#define ETI(T) namespace dlaf { namespace factorization::internal { template struct Cholesky<Backend::MC, Device::CPU, T>; } namespace inverse::internal { template struct Triangular<Backend::MC, Device::CPU, T>; template struct AssembleCholeskyInverse<Backend::MC, Device::CPU, T>; } namespace eigensolver::internal { template struct GenToStd<Backend::MC, Device::CPU, T>; } }
ETI(double)
ETI(Z)
//@ def CF = include/dlaf/factorization/cholesky.h, include/dlaf/factorization/cholesky/impl.h
//@ def IT = include/dlaf/inverse/triangular.h, include/dlaf/inverse/triangular/impl.h
//@ def IC = include/dlaf/inverse/cholesky.h, include/dlaf/inverse/cholesky/impl.h
//@ def GS = include/dlaf/eigensolver/gen_to_std.h, include/dlaf/eigensolver/gen_to_std/impl.h
namespace {
// does the tile of element (i, j) contain elements of the triangle?
bool touched(bl::Uplo u, S nb, S i, S j) { return u == Low ? i / nb >= j / nb : i / nb <= j / nb; }
bool inside(bl::Uplo u, S i, S j) { return u == Low ? i >= j : i <= j; }
// the triangle of `a` is that of `r`, the tiles beside it are those of `a0`
template <class T, S N> bool triangle(bl::Uplo u, S nb, Arr<T, N, N>& a, Arr<T, N, N>& r, Arr<T, N, N>& a0) {
  return algo::all<N, N>([&](S i, S j) { return inside(u, i, j) ? algo::near(a(i, j), r(i, j)) : touched(u, nb, i, j) | algo::same(a(i, j), a0(i, j)); });
}
template <class T, S N> void spd(Arr<T, N, N>& a, const S* p, double shift) {
  a.fill(p, 0);
  for (S j = 0; j < N; ++j) a(j, j) = algo::re(a(j, j)) + shift;
}
template <class T, S N, S NB, int R, int C> bool cholesky(bl::Uplo u, const S* p, int sr = 0, int sc = 0) {
  Arr<T, N, N> a, r, a0;
  spd(a, p, 12.); algo::put(r, a); algo::put(a0, a);
  const bool ok = algo::run<R, C>(sizeof(T) > 8, [&](auto& m, auto&... g) { cholesky_factorization<MC, CPU, T>(g..., u, m); }, algo::on(a, NB, NB, sr, sc));
  ref::potrf<T>(u, N, r.v, N);
  return ok & triangle(u, NB, a, r, a0);
}
template <class T, S N, S NB, int R, int C> bool trinv(bl::Uplo u, bl::Diag d, const S* p, int sr = 0, int sc = 0) {
  Arr<T, N, N> a, r, a0;
  spd(a, p, 4.); algo::put(r, a); algo::put(a0, a);
  const bool ok = algo::run<R, C>(sizeof(T) > 8, [&](auto& m, auto&... g) { triangular_inverse<MC, CPU, T>(g..., u, d, m); }, algo::on(a, NB, NB, sr, sc));
  ref::trtri<T>(u, d, N, r.v, N);
  return ok & triangle(u, NB, a, r, a0);
}
template <class T, S N, S NB, int R, int C> bool cholinv(bl::Uplo u, const S* p, int sr = 0, int sc = 0) {
  Arr<T, N, N> a, r, a0;
  spd(a, p, 4.); algo::put(r, a); algo::put(a0, a);
  const bool ok = algo::run<R, C>(sizeof(T) > 8, [&](auto& m, auto&... g) { inverse_from_cholesky_factor<MC, CPU, T>(g..., u, m); }, algo::on(a, NB, NB, sr, sc));
  ref::trtri<T>(u, ND, N, r.v, N);
  Arr<T, N, N> q;   // L^-H L^-1 or U^-1 U^-H
  for (S j = 0; j < N; ++j) for (S i = 0; i < N; ++i) {
    T s = T(0);
    for (S k = 0; k < N; ++k)
      if (u == Low ? k >= i && k >= j : k >= i && k >= j) s += u == Low ? algo::cj(r(k, i)) * r(k, j) : r(i, k) * algo::cj(r(j, k));
    q(i, j) = s;
  }
  return ok & triangle(u, NB, a, q, a0);
}
template <class T, S N, S NB, int R, int C> bool genstd(bl::Uplo u, const S* p, int sr = 0, int sc = 0) {
  Arr<T, N, N> a, a0, b, b0, h;
  spd(a, p, 2.); algo::put(a0, a);
  spd(b, p + 1000, 4.); algo::put(b0, b);
  const bool ok = algo::run<R, C>(sizeof(T) > 8, [&](auto& m, auto& l, auto&... g) { eigensolver::internal::generalized_to_standard<MC, CPU, T>(g..., u, m, l); }, algo::on(a, NB, NB, sr, sc), algo::on(b, NB, NB, sr, sc));
  for (S j = 0; j < N; ++j) for (S i = 0; i < N; ++i) h(i, j) = inside(u, i, j) ? a0(i, j) : algo::cj(a0(j, i));
  ref::trsm<T>(u == Low ? Lft : Rgt, u, NT, ND, N, N, T(1), b0.v, N, h.v, N);
  ref::trsm<T>(u == Low ? Rgt : Lft, u, CT, ND, N, N, T(1), b0.v, N, h.v, N);
  // the triangular matrix may be modified for a while only
  return ok & triangle(u, NB, a, h, a0) & triangle(u, NB, b, b0, b0);
}
}
//@ law chol_l ; about: $CF: call_L ; dom: p=ptr
extern "C" bool law_chol_l(const S* p) { return cholesky<double, 5, 2, 0, 0>(Low, p) & cholesky<Z, 5, 2, 0, 0>(Low, p); }
//@ law chol_l_2x2 ; about: $CF: call_L ; dom: p=ptr
extern "C" bool law_chol_l_2x2(const S* p) { return cholesky<double, 5, 2, 2, 2>(Low, p); }
//@ law chol_l_src ; about: $CF: call_L ; dom: p=ptr
extern "C" bool law_chol_l_src(const S* p) { return cholesky<Z, 3, 1, 3, 1>(Low, p, 1, 0) & cholesky<Z, 3, 1, 1, 2>(Low, p, 0, 1); }
//@ law chol_u ; about: $CF: call_U ; dom: p=ptr
extern "C" bool law_chol_u(const S* p) { return cholesky<double, 5, 2, 0, 0>(Upp, p) & cholesky<Z, 5, 2, 0, 0>(Upp, p); }
//@ law chol_u_2x2 ; about: $CF: call_U ; dom: p=ptr
extern "C" bool law_chol_u_2x2(const S* p) { return cholesky<double, 5, 2, 2, 2>(Upp, p); }
//@ law chol_u_src ; about: $CF: call_U ; dom: p=ptr
extern "C" bool law_chol_u_src(const S* p) { return cholesky<Z, 3, 1, 3, 1>(Upp, p, 1, 0) & cholesky<Z, 3, 1, 1, 2>(Upp, p, 0, 1); }
//@ law trinv_l ; about: $IT: call_L ; dom: p=ptr
extern "C" bool law_trinv_l(const S* p) { return trinv<double, 5, 2, 0, 0>(Low, ND, p) & trinv<Z, 5, 2, 0, 0>(Low, UD, p); }
//@ law trinv_l_2x2 ; about: $IT: call_L ; dom: p=ptr
extern "C" bool law_trinv_l_2x2(const S* p) { return trinv<double, 5, 2, 2, 2>(Low, ND, p); }
//@ law trinv_l_src ; about: $IT: call_L ; dom: p=ptr
extern "C" bool law_trinv_l_src(const S* p) { return trinv<Z, 3, 1, 3, 1>(Low, UD, p, 1, 0) & trinv<Z, 3, 1, 1, 2>(Low, ND, p, 0, 1); }
//@ law trinv_u ; about: $IT: call_U ; dom: p=ptr
extern "C" bool law_trinv_u(const S* p) { return trinv<double, 5, 2, 0, 0>(Upp, ND, p) & trinv<Z, 5, 2, 0, 0>(Upp, UD, p); }
//@ law trinv_u_2x2 ; about: $IT: call_U ; dom: p=ptr
extern "C" bool law_trinv_u_2x2(const S* p) { return trinv<double, 5, 2, 2, 2>(Upp, ND, p); }
//@ law trinv_u_src ; about: $IT: call_U ; dom: p=ptr
extern "C" bool law_trinv_u_src(const S* p) { return trinv<Z, 3, 1, 3, 1>(Upp, UD, p, 1, 0) & trinv<Z, 3, 1, 1, 2>(Upp, ND, p, 0, 1); }
//@ law cholinv_l ; about: $IC: call_L ; dom: p=ptr
extern "C" bool law_cholinv_l(const S* p) { return cholinv<double, 5, 2, 0, 0>(Low, p) & cholinv<Z, 5, 2, 0, 0>(Low, p); }
//@ law cholinv_l_2x2 ; about: $IC: call_L ; dom: p=ptr
extern "C" bool law_cholinv_l_2x2(const S* p) { return cholinv<double, 5, 2, 2, 2>(Low, p); }
//@ law cholinv_l_src ; about: $IC: call_L ; dom: p=ptr
extern "C" bool law_cholinv_l_src(const S* p) { return cholinv<Z, 3, 1, 3, 1>(Low, p, 1, 0) & cholinv<Z, 3, 1, 1, 2>(Low, p, 0, 1); }
//@ law cholinv_u ; about: $IC: call_U ; dom: p=ptr
extern "C" bool law_cholinv_u(const S* p) { return cholinv<double, 5, 2, 0, 0>(Upp, p) & cholinv<Z, 5, 2, 0, 0>(Upp, p); }
//@ law cholinv_u_2x2 ; about: $IC: call_U ; dom: p=ptr
extern "C" bool law_cholinv_u_2x2(const S* p) { return cholinv<double, 5, 2, 2, 2>(Upp, p); }
//@ law cholinv_u_src ; about: $IC: call_U ; dom: p=ptr
extern "C" bool law_cholinv_u_src(const S* p) { return cholinv<Z, 3, 1, 3, 1>(Upp, p, 1, 0) & cholinv<Z, 3, 1, 1, 2>(Upp, p, 0, 1); }
//@ law gen_l ; about: $GS: call_L ; dom: p=ptr
extern "C" bool law_gen_l(const S* p) { return genstd<double, 5, 2, 0, 0>(Low, p) & genstd<Z, 5, 2, 0, 0>(Low, p); }
//@ law gen_l_2x2 ; about: $GS: call_L ; dom: p=ptr
extern "C" bool law_gen_l_2x2(const S* p) { return genstd<double, 5, 2, 2, 2>(Low, p); }
//@ law gen_l_src ; about: $GS: call_L ; dom: p=ptr
extern "C" bool law_gen_l_src(const S* p) { return genstd<Z, 3, 1, 3, 1>(Low, p, 1, 0) & genstd<Z, 3, 1, 1, 2>(Low, p, 0, 1); }
//@ law gen_u ; about: $GS: call_U ; dom: p=ptr
extern "C" bool law_gen_u(const S* p) { return genstd<double, 5, 2, 0, 0>(Upp, p) & genstd<Z, 5, 2, 0, 0>(Upp, p); }
//@ law gen_u_2x2 ; about: $GS: call_U ; dom: p=ptr
extern "C" bool law_gen_u_2x2(const S* p) { return genstd<double, 5, 2, 2, 2>(Upp, p); }
//@ law gen_u_src ; about: $GS: call_U ; dom: p=ptr
extern "C" bool law_gen_u_src(const S* p) { return genstd<Z, 3, 1, 3, 1>(Upp, p, 1, 0) & genstd<Z, 3, 1, 1, 2>(Upp, p, 0, 1); }
