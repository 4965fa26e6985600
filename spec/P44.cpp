// P44 C and ScaLAPACK entry points forward to the routine of their own type   (fwd_*)
// P45 ScaLAPACK descriptors are mapped field by field                         (map_*, rej_)
// P46 The C API suspends the task runtime on every exit                       (exit_*)
// The real entry points, with an algorithm, a matrix and a runtime that record what they are given.
//@ stubs: capi
//@ src: src/matrix/distribution.cpp
//@ flags: -DDLAF_WITH_SCALAPACK -DOMPI_SKIP_MPICXX
#include <map.h>
#include <run.h>
#include <c_api/utils.cpp>
std::unordered_map<int, dlaf::comm::CommunicatorGrid> dlaf_grids;
#include <c_api/factorization/cholesky.cpp>
#include <c_api/inverse/cholesky.cpp>
#include <c_api/eigensolver/eigensolver.cpp>
#include <c_api/eigensolver/gen_eigensolver.cpp>
extern "C" int toupper(int c) noexcept { return c >= 97 && c <= 122 ? c - 32 : c; }
using S = dlaf::SizeType;
using F = float; using Dd = double; using Cc = std::complex<float>; using Zz = std::complex<double>;
namespace {
[[gnu::always_inline]] inline void reset() {
  capi::events = 0; capi::running = false; capi::runs = 0; capi::pending = 0; capi::used_while_suspended = false; capi::c.o = capi::NONE; capi::c.n = 0;
  for (int i = 0; i < 12; ++i) capi::log_[i] = 0;
}
// two grids of different shapes
[[gnu::always_inline]] inline void grids(int k, int other, int r, int c, int rr, int rc) {
  dlaf_grids.clear();
  dlaf_grids.try_emplace(other, dlaf::comm::Communicator(MPI_Comm(8)), 7, 9, dlaf::common::Ordering::RowMajor);
  dlaf_grids.try_emplace(k, dlaf::comm::Communicator(MPI_Comm(16)), r, c, dlaf::common::Ordering::RowMajor);
  capi::rank_row = rr; capi::rank_col = rc;
}
[[gnu::always_inline]] inline DLAF_descriptor make(int m, int n, int mb, int nb, int sr, int sc, int ld) { return DLAF_descriptor{m, n, mb, nb, sr, sc, 0, 0, ld}; }
template <class T> [[gnu::always_inline]] inline bool is(const capi::desc& d, const T* p, const DLAF_descriptor& q, int r, int c, int rr, int rc) {
  const dlaf::SizeType mem = dlaf::matrix::ColMajorLayout(dlaf::matrix::Distribution({q.m, q.n}, {q.mb, q.nb}, {r, c}, {rr, rc}, {q.isrc, q.jsrc}), q.ld).min_mem_size();
  return (d.p == p) & (d.m == q.m) & (d.n == q.n) & (d.mb == q.mb) & (d.nb == q.nb) & (d.gr == r) & (d.gc == c) & (d.rr == rr) & (d.rc == rc) & (d.sr == q.isrc) & (d.sc == q.jsrc) & (d.mem == mem) & (d.kind == capi::kind<T>::v);
}
template <class T> [[gnu::always_inline]] inline bool isw(const capi::desc& d, const T* p, const DLAF_descriptor& q) {   // the eigenvalues are a local column
  return (d.p == p) & (d.m == q.m) & (d.n == 1) & (d.mb == q.mb) & (d.gr == 1) & (d.gc == 1) & (d.rr == 0) & (d.rc == 0) & (d.mem == q.m) & (d.kind == capi::kind<T>::v);
}
template <class T> [[gnu::always_inline]] inline bool same(capi::op o, int k, char u) { return (capi::runs == 1) & (capi::c.o == o) & (capi::c.type == capi::kind<T>::v) & (capi::c.lower == (u == 'L')) & !capi::c.general & (capi::c.g == &dlaf_grids.at(k)); }
// resumed before anything, suspended after everything, every result waited for in between
[[gnu::always_inline]] inline bool clean(int results) {
  bool ok = (capi::log_[0] == capi::RESUME) & (capi::log_[1] == capi::RUN) & !capi::running & (capi::pending == 0) & !capi::used_while_suspended & (capi::events == 3 + results);
  for (int i = 0; i < results; ++i) ok = ok & (capi::log_[2 + i] == capi::WAIT);
  return ok & (capi::log_[2 + results] == capi::SUSPEND);
}
[[gnu::always_inline]] inline void ints(int* d, int ctx, int m, int n, const DLAF_descriptor& q) { d[0] = 1; d[1] = ctx; d[2] = m; d[3] = n; d[4] = q.mb; d[5] = q.nb; d[6] = q.isrc; d[7] = q.jsrc; d[8] = q.ld; }
}
template <class T> struct real { using t = T; };
template <class T> struct real<std::complex<T>> { using t = T; };
[[gnu::always_inline]] inline DLAF_descriptor second(const DLAF_descriptor& q) { return make(q.m, q.n, q.mb + 1, q.nb + 2, 1 - q.isrc, q.jsrc == 2 ? 0 : q.jsrc + 1, q.ld + 1); }
[[gnu::always_inline]] inline DLAF_descriptor third(const DLAF_descriptor& q) { return make(q.m, q.n, q.mb + 2, q.nb + 1, q.isrc, q.jsrc == 0 ? 2 : q.jsrc - 1, q.ld + 2); }
[[gnu::always_inline]] inline DLAF_descriptor larger(DLAF_descriptor q, int a, int b) { q.m += a; q.n += b; return q; }
#define ARGS(T) (int k, int u, T* a, T* b, T* z, real<T>::t* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, S ib, S ie)
#define START(M, N) reset(); grids(k, k + 5, gr, gc, rr, rc); const char c = static_cast<char>(u); const auto q = make(M, N, mb, nb, sr, sc, ld); (void) c;
#define START_P START(n, n) int d[9], d2[9], d3[9]; const auto q2 = second(q), q3 = third(q); ints(d, k, m, m + 1, q); ints(d2, k, m + 2, m, q2); ints(d3, k, m, m, q3); int info = 77; (void) info;
#define AT(i, p, q) is(capi::c.m[i], p, q, gr, gc, rr, rc)
//@ law fwd_potrf_s ; about: src/c_api/factorization/cholesky.cpp dlaf_cholesky_factorization_s ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_potrf_s ARGS(float) {
  START(m, n)
  const int r = dlaf_cholesky_factorization_s(k, c, a, q);
  return r == 0 && same<float>(capi::POTRF, k, c) && capi::c.n == 1 && AT(0, a, q);
}
//@ law exit_potrf_s ; about: src/c_api/factorization/cholesky.h dlaf_cholesky_factorization_s ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_potrf_s ARGS(float) {
  START(m, n)
  const int r = dlaf_cholesky_factorization_s(k, c, a, q);
  return r == 0 && clean(1);
}
//@ law fwd_ppotrf_s ; about: src/c_api/factorization/cholesky.cpp dlaf_pspotrf ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_ppotrf_s ARGS(float) {
  START_P
  dlaf_pspotrf(c, n, a, 1, 1, d, &info);
  return info == 0 && same<float>(capi::POTRF, k, c) && capi::c.n == 1 && AT(0, a, q);
}
//@ law exit_ppotrf_s ; about: src/c_api/factorization/cholesky.h dlaf_pspotrf ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_ppotrf_s ARGS(float) {
  START_P
  dlaf_pspotrf(c, n, a, 1, 1, d, &info);
  return clean(1);
}
//@ law fwd_potri_s ; about: src/c_api/inverse/cholesky.cpp dlaf_inverse_from_cholesky_factor_s ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_potri_s ARGS(float) {
  START(m, n)
  const int r = dlaf_inverse_from_cholesky_factor_s(k, c, a, q);
  return r == 0 && same<float>(capi::POTRI, k, c) && capi::c.n == 1 && AT(0, a, q);
}
//@ law exit_potri_s ; about: src/c_api/inverse/cholesky.h dlaf_inverse_from_cholesky_factor_s ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_potri_s ARGS(float) {
  START(m, n)
  const int r = dlaf_inverse_from_cholesky_factor_s(k, c, a, q);
  return r == 0 && clean(1);
}
//@ law fwd_ppotri_s ; about: src/c_api/inverse/cholesky.cpp dlaf_pspotri ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_ppotri_s ARGS(float) {
  START_P
  dlaf_pspotri(c, n, a, 1, 1, d, &info);
  return info == 0 && same<float>(capi::POTRI, k, c) && capi::c.n == 1 && AT(0, a, q);
}
//@ law exit_ppotri_s ; about: src/c_api/inverse/cholesky.h dlaf_pspotri ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_ppotri_s ARGS(float) {
  START_P
  dlaf_pspotri(c, n, a, 1, 1, d, &info);
  return clean(1);
}
//@ law fwd_eig_s ; about: src/c_api/eigensolver/eigensolver.cpp dlaf_symmetric_eigensolver_s ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_eig_s ARGS(float) {
  START(m, n)
  const auto q3 = larger(third(q), 1, 2);
  const int r = dlaf_symmetric_eigensolver_s(k, c, a, q, w, z, q3);
  return r == 0 && same<float>(capi::EIG, k, c) && capi::c.n == 3 && AT(0, a, q) && isw(capi::c.m[1], w, q3) && AT(2, z, q3) && capi::c.begin == 0 && capi::c.end == q.m;
}
//@ law exit_eig_s ; about: src/c_api/eigensolver/eigensolver.h dlaf_symmetric_eigensolver_s ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_eig_s ARGS(float) {
  START(m, n)
  const auto q3 = larger(third(q), 1, 2);
  const int r = dlaf_symmetric_eigensolver_s(k, c, a, q, w, z, q3);
  return r == 0 && clean(2);
}
//@ law fwd_peig_s ; about: src/c_api/eigensolver/eigensolver.cpp dlaf_pssyevd ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_fwd_peig_s ARGS(float) {
  START_P
  dlaf_pssyevd(c, n, a, 1, 1, d, w, z, 1, 1, d3, &info);
  return info == 0 && same<float>(capi::EIG, k, c) && capi::c.n == 3 && AT(0, a, q) && isw(capi::c.m[1], w, q3) && AT(2, z, q3) && capi::c.begin == 0 && capi::c.end == n;
}
//@ law exit_peig_s ; about: src/c_api/eigensolver/eigensolver.h dlaf_pssyevd ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_exit_peig_s ARGS(float) {
  START_P
  dlaf_pssyevd(c, n, a, 1, 1, d, w, z, 1, 1, d3, &info);
  return clean(2);
}
//@ law fwd_gen_s ; about: src/c_api/eigensolver/gen_eigensolver.cpp dlaf_symmetric_generalized_eigensolver_s ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_gen_s ARGS(float) {
  START(m, n)
  const auto q2 = larger(second(q), 2, 1), q3 = larger(third(q), 1, 2);
  const int r = dlaf_symmetric_generalized_eigensolver_s(k, c, a, q, b, q2, w, z, q3);
  return r == 0 && same<float>(capi::GEN, k, c) && capi::c.n == 4 && AT(0, a, q) && AT(1, b, q2) && isw(capi::c.m[2], w, q3) && AT(3, z, q3) && capi::c.begin == 0 && capi::c.end == q.m;
}
//@ law exit_gen_s ; about: src/c_api/eigensolver/gen_eigensolver.h dlaf_symmetric_generalized_eigensolver_s ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_gen_s ARGS(float) {
  START(m, n)
  const auto q2 = larger(second(q), 2, 1), q3 = larger(third(q), 1, 2);
  const int r = dlaf_symmetric_generalized_eigensolver_s(k, c, a, q, b, q2, w, z, q3);
  return r == 0 && clean(2);
}
//@ law fwd_pgen_s ; about: src/c_api/eigensolver/gen_eigensolver.cpp dlaf_pssygvd ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_fwd_pgen_s ARGS(float) {
  START_P
  dlaf_pssygvd(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, &info);
  return info == 0 && same<float>(capi::GEN, k, c) && capi::c.n == 4 && AT(0, a, q) && AT(1, b, q2) && isw(capi::c.m[2], w, q3) && AT(3, z, q3) && capi::c.begin == 0 && capi::c.end == n;
}
//@ law exit_pgen_s ; about: src/c_api/eigensolver/gen_eigensolver.h dlaf_pssygvd ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_exit_pgen_s ARGS(float) {
  START_P
  dlaf_pssygvd(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, &info);
  return clean(2);
}
//@ law fwd_gen_fac_s ; about: src/c_api/eigensolver/gen_eigensolver.cpp dlaf_symmetric_generalized_eigensolver_factorized_s ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_gen_fac_s ARGS(float) {
  START(m, n)
  const auto q2 = larger(second(q), 2, 1), q3 = larger(third(q), 1, 2);
  const int r = dlaf_symmetric_generalized_eigensolver_factorized_s(k, c, a, q, b, q2, w, z, q3);
  return r == 0 && same<float>(capi::GENFAC, k, c) && capi::c.n == 4 && AT(0, a, q) && AT(1, b, q2) && isw(capi::c.m[2], w, q3) && AT(3, z, q3) && capi::c.begin == 0 && capi::c.end == q.m;
}
//@ law exit_gen_fac_s ; about: src/c_api/eigensolver/gen_eigensolver.h dlaf_symmetric_generalized_eigensolver_factorized_s ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_gen_fac_s ARGS(float) {
  START(m, n)
  const auto q2 = larger(second(q), 2, 1), q3 = larger(third(q), 1, 2);
  const int r = dlaf_symmetric_generalized_eigensolver_factorized_s(k, c, a, q, b, q2, w, z, q3);
  return r == 0 && clean(2);
}
//@ law fwd_pgen_fac_s ; about: src/c_api/eigensolver/gen_eigensolver.cpp dlaf_pssygvd_factorized ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_fwd_pgen_fac_s ARGS(float) {
  START_P
  dlaf_pssygvd_factorized(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, &info);
  return info == 0 && same<float>(capi::GENFAC, k, c) && capi::c.n == 4 && AT(0, a, q) && AT(1, b, q2) && isw(capi::c.m[2], w, q3) && AT(3, z, q3) && capi::c.begin == 0 && capi::c.end == n;
}
//@ law exit_pgen_fac_s ; about: src/c_api/eigensolver/gen_eigensolver.h dlaf_pssygvd_factorized ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_exit_pgen_fac_s ARGS(float) {
  START_P
  dlaf_pssygvd_factorized(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, &info);
  return clean(2);
}
//@ law fwd_eig_part_s ; about: src/c_api/eigensolver/eigensolver.cpp dlaf_symmetric_eigensolver_partial_spectrum_s ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_eig_part_s ARGS(float) {
  START(m, n)
  const auto q3 = larger(third(q), 1, 2);
  const int r = dlaf_symmetric_eigensolver_partial_spectrum_s(k, c, a, q, w, z, q3, ib, ie);
  return r == 0 && same<float>(capi::EIG, k, c) && capi::c.n == 3 && AT(0, a, q) && isw(capi::c.m[1], w, q3) && AT(2, z, q3) && capi::c.begin == ib && capi::c.end == ie;
}
//@ law exit_eig_part_s ; about: src/c_api/eigensolver/eigensolver.h dlaf_symmetric_eigensolver_partial_spectrum_s ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_eig_part_s ARGS(float) {
  START(m, n)
  const auto q3 = larger(third(q), 1, 2);
  const int r = dlaf_symmetric_eigensolver_partial_spectrum_s(k, c, a, q, w, z, q3, ib, ie);
  return r == 0 && clean(2);
}
//@ law fwd_peig_part_s ; about: src/c_api/eigensolver/eigensolver.cpp dlaf_pssyevd_partial_spectrum ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_fwd_peig_part_s ARGS(float) {
  START_P
  if (n == 0 ? ib != 1 || ie != 0 : ib > ie || ie > n) return true;
  dlaf_pssyevd_partial_spectrum(c, n, a, 1, 1, d, w, z, 1, 1, d3, ib, ie, &info);
  return info == 0 && same<float>(capi::EIG, k, c) && capi::c.n == 3 && AT(0, a, q) && isw(capi::c.m[1], w, q3) && AT(2, z, q3) && capi::c.begin == ib - 1 && capi::c.end == ie;
}
//@ law exit_peig_part_s ; about: src/c_api/eigensolver/eigensolver.h dlaf_pssyevd_partial_spectrum ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_exit_peig_part_s ARGS(float) {
  START_P
  if (n == 0 ? ib != 1 || ie != 0 : ib > ie || ie > n) return true;
  dlaf_pssyevd_partial_spectrum(c, n, a, 1, 1, d, w, z, 1, 1, d3, ib, ie, &info);
  return clean(2);
}
//@ law fwd_gen_part_s ; about: src/c_api/eigensolver/gen_eigensolver.cpp dlaf_symmetric_generalized_eigensolver_partial_spectrum_s ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_gen_part_s ARGS(float) {
  START(m, n)
  const auto q2 = larger(second(q), 2, 1), q3 = larger(third(q), 1, 2);
  const int r = dlaf_symmetric_generalized_eigensolver_partial_spectrum_s(k, c, a, q, b, q2, w, z, q3, ib, ie);
  return r == 0 && same<float>(capi::GEN, k, c) && capi::c.n == 4 && AT(0, a, q) && AT(1, b, q2) && isw(capi::c.m[2], w, q3) && AT(3, z, q3) && capi::c.begin == ib && capi::c.end == ie;
}
//@ law exit_gen_part_s ; about: src/c_api/eigensolver/gen_eigensolver.h dlaf_symmetric_generalized_eigensolver_partial_spectrum_s ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_gen_part_s ARGS(float) {
  START(m, n)
  const auto q2 = larger(second(q), 2, 1), q3 = larger(third(q), 1, 2);
  const int r = dlaf_symmetric_generalized_eigensolver_partial_spectrum_s(k, c, a, q, b, q2, w, z, q3, ib, ie);
  return r == 0 && clean(2);
}
//@ law fwd_pgen_part_s ; about: src/c_api/eigensolver/gen_eigensolver.cpp dlaf_pssygvd_partial_spectrum ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_fwd_pgen_part_s ARGS(float) {
  START_P
  if (n == 0 ? ib != 1 || ie != 0 : ib > ie || ie > n) return true;
  dlaf_pssygvd_partial_spectrum(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, ib, ie, &info);
  return info == 0 && same<float>(capi::GEN, k, c) && capi::c.n == 4 && AT(0, a, q) && AT(1, b, q2) && isw(capi::c.m[2], w, q3) && AT(3, z, q3) && capi::c.begin == ib - 1 && capi::c.end == ie;
}
//@ law exit_pgen_part_s ; about: src/c_api/eigensolver/gen_eigensolver.h dlaf_pssygvd_partial_spectrum ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_exit_pgen_part_s ARGS(float) {
  START_P
  if (n == 0 ? ib != 1 || ie != 0 : ib > ie || ie > n) return true;
  dlaf_pssygvd_partial_spectrum(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, ib, ie, &info);
  return clean(2);
}
//@ law fwd_gen_fac_part_s ; about: src/c_api/eigensolver/gen_eigensolver.cpp dlaf_symmetric_generalized_eigensolver_partial_spectrum_factorized_s ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_gen_fac_part_s ARGS(float) {
  START(m, n)
  const auto q2 = larger(second(q), 2, 1), q3 = larger(third(q), 1, 2);
  const int r = dlaf_symmetric_generalized_eigensolver_partial_spectrum_factorized_s(k, c, a, q, b, q2, w, z, q3, ib, ie);
  return r == 0 && same<float>(capi::GENFAC, k, c) && capi::c.n == 4 && AT(0, a, q) && AT(1, b, q2) && isw(capi::c.m[2], w, q3) && AT(3, z, q3) && capi::c.begin == ib && capi::c.end == ie;
}
//@ law exit_gen_fac_part_s ; about: src/c_api/eigensolver/gen_eigensolver.h dlaf_symmetric_generalized_eigensolver_partial_spectrum_factorized_s ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_gen_fac_part_s ARGS(float) {
  START(m, n)
  const auto q2 = larger(second(q), 2, 1), q3 = larger(third(q), 1, 2);
  const int r = dlaf_symmetric_generalized_eigensolver_partial_spectrum_factorized_s(k, c, a, q, b, q2, w, z, q3, ib, ie);
  return r == 0 && clean(2);
}
//@ law fwd_pgen_fac_part_s ; about: src/c_api/eigensolver/gen_eigensolver.cpp dlaf_pssygvd_partial_spectrum_factorized ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_fwd_pgen_fac_part_s ARGS(float) {
  START_P
  if (n == 0 ? ib != 1 || ie != 0 : ib > ie || ie > n) return true;
  dlaf_pssygvd_partial_spectrum_factorized(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, ib, ie, &info);
  return info == 0 && same<float>(capi::GENFAC, k, c) && capi::c.n == 4 && AT(0, a, q) && AT(1, b, q2) && isw(capi::c.m[2], w, q3) && AT(3, z, q3) && capi::c.begin == ib - 1 && capi::c.end == ie;
}
//@ law exit_pgen_fac_part_s ; about: src/c_api/eigensolver/gen_eigensolver.h dlaf_pssygvd_partial_spectrum_factorized ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_exit_pgen_fac_part_s ARGS(float) {
  START_P
  if (n == 0 ? ib != 1 || ie != 0 : ib > ie || ie > n) return true;
  dlaf_pssygvd_partial_spectrum_factorized(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, ib, ie, &info);
  return clean(2);
}
//@ law fwd_potrf_d ; about: src/c_api/factorization/cholesky.cpp dlaf_cholesky_factorization_d ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_potrf_d ARGS(double) {
  START(m, n)
  const int r = dlaf_cholesky_factorization_d(k, c, a, q);
  return r == 0 && same<double>(capi::POTRF, k, c) && capi::c.n == 1 && AT(0, a, q);
}
//@ law exit_potrf_d ; about: src/c_api/factorization/cholesky.h dlaf_cholesky_factorization_d ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_potrf_d ARGS(double) {
  START(m, n)
  const int r = dlaf_cholesky_factorization_d(k, c, a, q);
  return r == 0 && clean(1);
}
//@ law fwd_ppotrf_d ; about: src/c_api/factorization/cholesky.cpp dlaf_pdpotrf ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_ppotrf_d ARGS(double) {
  START_P
  dlaf_pdpotrf(c, n, a, 1, 1, d, &info);
  return info == 0 && same<double>(capi::POTRF, k, c) && capi::c.n == 1 && AT(0, a, q);
}
//@ law exit_ppotrf_d ; about: src/c_api/factorization/cholesky.h dlaf_pdpotrf ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_ppotrf_d ARGS(double) {
  START_P
  dlaf_pdpotrf(c, n, a, 1, 1, d, &info);
  return clean(1);
}
//@ law fwd_potri_d ; about: src/c_api/inverse/cholesky.cpp dlaf_inverse_from_cholesky_factor_d ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_potri_d ARGS(double) {
  START(m, n)
  const int r = dlaf_inverse_from_cholesky_factor_d(k, c, a, q);
  return r == 0 && same<double>(capi::POTRI, k, c) && capi::c.n == 1 && AT(0, a, q);
}
//@ law exit_potri_d ; about: src/c_api/inverse/cholesky.h dlaf_inverse_from_cholesky_factor_d ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_potri_d ARGS(double) {
  START(m, n)
  const int r = dlaf_inverse_from_cholesky_factor_d(k, c, a, q);
  return r == 0 && clean(1);
}
//@ law fwd_ppotri_d ; about: src/c_api/inverse/cholesky.cpp dlaf_pdpotri ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_ppotri_d ARGS(double) {
  START_P
  dlaf_pdpotri(c, n, a, 1, 1, d, &info);
  return info == 0 && same<double>(capi::POTRI, k, c) && capi::c.n == 1 && AT(0, a, q);
}
//@ law exit_ppotri_d ; about: src/c_api/inverse/cholesky.h dlaf_pdpotri ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_ppotri_d ARGS(double) {
  START_P
  dlaf_pdpotri(c, n, a, 1, 1, d, &info);
  return clean(1);
}
//@ law fwd_eig_d ; about: src/c_api/eigensolver/eigensolver.cpp dlaf_symmetric_eigensolver_d ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_eig_d ARGS(double) {
  START(m, n)
  const auto q3 = larger(third(q), 1, 2);
  const int r = dlaf_symmetric_eigensolver_d(k, c, a, q, w, z, q3);
  return r == 0 && same<double>(capi::EIG, k, c) && capi::c.n == 3 && AT(0, a, q) && isw(capi::c.m[1], w, q3) && AT(2, z, q3) && capi::c.begin == 0 && capi::c.end == q.m;
}
//@ law exit_eig_d ; about: src/c_api/eigensolver/eigensolver.h dlaf_symmetric_eigensolver_d ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_eig_d ARGS(double) {
  START(m, n)
  const auto q3 = larger(third(q), 1, 2);
  const int r = dlaf_symmetric_eigensolver_d(k, c, a, q, w, z, q3);
  return r == 0 && clean(2);
}
//@ law fwd_peig_d ; about: src/c_api/eigensolver/eigensolver.cpp dlaf_pdsyevd ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_fwd_peig_d ARGS(double) {
  START_P
  dlaf_pdsyevd(c, n, a, 1, 1, d, w, z, 1, 1, d3, &info);
  return info == 0 && same<double>(capi::EIG, k, c) && capi::c.n == 3 && AT(0, a, q) && isw(capi::c.m[1], w, q3) && AT(2, z, q3) && capi::c.begin == 0 && capi::c.end == n;
}
//@ law exit_peig_d ; about: src/c_api/eigensolver/eigensolver.h dlaf_pdsyevd ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_exit_peig_d ARGS(double) {
  START_P
  dlaf_pdsyevd(c, n, a, 1, 1, d, w, z, 1, 1, d3, &info);
  return clean(2);
}
//@ law fwd_gen_d ; about: src/c_api/eigensolver/gen_eigensolver.cpp dlaf_symmetric_generalized_eigensolver_d ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_gen_d ARGS(double) {
  START(m, n)
  const auto q2 = larger(second(q), 2, 1), q3 = larger(third(q), 1, 2);
  const int r = dlaf_symmetric_generalized_eigensolver_d(k, c, a, q, b, q2, w, z, q3);
  return r == 0 && same<double>(capi::GEN, k, c) && capi::c.n == 4 && AT(0, a, q) && AT(1, b, q2) && isw(capi::c.m[2], w, q3) && AT(3, z, q3) && capi::c.begin == 0 && capi::c.end == q.m;
}
//@ law exit_gen_d ; about: src/c_api/eigensolver/gen_eigensolver.h dlaf_symmetric_generalized_eigensolver_d ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_gen_d ARGS(double) {
  START(m, n)
  const auto q2 = larger(second(q), 2, 1), q3 = larger(third(q), 1, 2);
  const int r = dlaf_symmetric_generalized_eigensolver_d(k, c, a, q, b, q2, w, z, q3);
  return r == 0 && clean(2);
}
//@ law fwd_pgen_d ; about: src/c_api/eigensolver/gen_eigensolver.cpp dlaf_pdsygvd ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_fwd_pgen_d ARGS(double) {
  START_P
  dlaf_pdsygvd(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, &info);
  return info == 0 && same<double>(capi::GEN, k, c) && capi::c.n == 4 && AT(0, a, q) && AT(1, b, q2) && isw(capi::c.m[2], w, q3) && AT(3, z, q3) && capi::c.begin == 0 && capi::c.end == n;
}
//@ law exit_pgen_d ; about: src/c_api/eigensolver/gen_eigensolver.h dlaf_pdsygvd ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_exit_pgen_d ARGS(double) {
  START_P
  dlaf_pdsygvd(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, &info);
  return clean(2);
}
//@ law fwd_gen_fac_d ; about: src/c_api/eigensolver/gen_eigensolver.cpp dlaf_symmetric_generalized_eigensolver_factorized_d ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_gen_fac_d ARGS(double) {
  START(m, n)
  const auto q2 = larger(second(q), 2, 1), q3 = larger(third(q), 1, 2);
  const int r = dlaf_symmetric_generalized_eigensolver_factorized_d(k, c, a, q, b, q2, w, z, q3);
  return r == 0 && same<double>(capi::GENFAC, k, c) && capi::c.n == 4 && AT(0, a, q) && AT(1, b, q2) && isw(capi::c.m[2], w, q3) && AT(3, z, q3) && capi::c.begin == 0 && capi::c.end == q.m;
}
//@ law exit_gen_fac_d ; about: src/c_api/eigensolver/gen_eigensolver.h dlaf_symmetric_generalized_eigensolver_factorized_d ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_gen_fac_d ARGS(double) {
  START(m, n)
  const auto q2 = larger(second(q), 2, 1), q3 = larger(third(q), 1, 2);
  const int r = dlaf_symmetric_generalized_eigensolver_factorized_d(k, c, a, q, b, q2, w, z, q3);
  return r == 0 && clean(2);
}
//@ law fwd_pgen_fac_d ; about: src/c_api/eigensolver/gen_eigensolver.cpp dlaf_pdsygvd_factorized ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_fwd_pgen_fac_d ARGS(double) {
  START_P
  dlaf_pdsygvd_factorized(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, &info);
  return info == 0 && same<double>(capi::GENFAC, k, c) && capi::c.n == 4 && AT(0, a, q) && AT(1, b, q2) && isw(capi::c.m[2], w, q3) && AT(3, z, q3) && capi::c.begin == 0 && capi::c.end == n;
}
//@ law exit_pgen_fac_d ; about: src/c_api/eigensolver/gen_eigensolver.h dlaf_pdsygvd_factorized ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_exit_pgen_fac_d ARGS(double) {
  START_P
  dlaf_pdsygvd_factorized(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, &info);
  return clean(2);
}
//@ law fwd_eig_part_d ; about: src/c_api/eigensolver/eigensolver.cpp dlaf_symmetric_eigensolver_partial_spectrum_d ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_eig_part_d ARGS(double) {
  START(m, n)
  const auto q3 = larger(third(q), 1, 2);
  const int r = dlaf_symmetric_eigensolver_partial_spectrum_d(k, c, a, q, w, z, q3, ib, ie);
  return r == 0 && same<double>(capi::EIG, k, c) && capi::c.n == 3 && AT(0, a, q) && isw(capi::c.m[1], w, q3) && AT(2, z, q3) && capi::c.begin == ib && capi::c.end == ie;
}
//@ law exit_eig_part_d ; about: src/c_api/eigensolver/eigensolver.h dlaf_symmetric_eigensolver_partial_spectrum_d ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_eig_part_d ARGS(double) {
  START(m, n)
  const auto q3 = larger(third(q), 1, 2);
  const int r = dlaf_symmetric_eigensolver_partial_spectrum_d(k, c, a, q, w, z, q3, ib, ie);
  return r == 0 && clean(2);
}
//@ law fwd_peig_part_d ; about: src/c_api/eigensolver/eigensolver.cpp dlaf_pdsyevd_partial_spectrum ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_fwd_peig_part_d ARGS(double) {
  START_P
  if (n == 0 ? ib != 1 || ie != 0 : ib > ie || ie > n) return true;
  dlaf_pdsyevd_partial_spectrum(c, n, a, 1, 1, d, w, z, 1, 1, d3, ib, ie, &info);
  return info == 0 && same<double>(capi::EIG, k, c) && capi::c.n == 3 && AT(0, a, q) && isw(capi::c.m[1], w, q3) && AT(2, z, q3) && capi::c.begin == ib - 1 && capi::c.end == ie;
}
//@ law exit_peig_part_d ; about: src/c_api/eigensolver/eigensolver.h dlaf_pdsyevd_partial_spectrum ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_exit_peig_part_d ARGS(double) {
  START_P
  if (n == 0 ? ib != 1 || ie != 0 : ib > ie || ie > n) return true;
  dlaf_pdsyevd_partial_spectrum(c, n, a, 1, 1, d, w, z, 1, 1, d3, ib, ie, &info);
  return clean(2);
}
//@ law fwd_gen_part_d ; about: src/c_api/eigensolver/gen_eigensolver.cpp dlaf_symmetric_generalized_eigensolver_partial_spectrum_d ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_gen_part_d ARGS(double) {
  START(m, n)
  const auto q2 = larger(second(q), 2, 1), q3 = larger(third(q), 1, 2);
  const int r = dlaf_symmetric_generalized_eigensolver_partial_spectrum_d(k, c, a, q, b, q2, w, z, q3, ib, ie);
  return r == 0 && same<double>(capi::GEN, k, c) && capi::c.n == 4 && AT(0, a, q) && AT(1, b, q2) && isw(capi::c.m[2], w, q3) && AT(3, z, q3) && capi::c.begin == ib && capi::c.end == ie;
}
//@ law exit_gen_part_d ; about: src/c_api/eigensolver/gen_eigensolver.h dlaf_symmetric_generalized_eigensolver_partial_spectrum_d ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_gen_part_d ARGS(double) {
  START(m, n)
  const auto q2 = larger(second(q), 2, 1), q3 = larger(third(q), 1, 2);
  const int r = dlaf_symmetric_generalized_eigensolver_partial_spectrum_d(k, c, a, q, b, q2, w, z, q3, ib, ie);
  return r == 0 && clean(2);
}
//@ law fwd_pgen_part_d ; about: src/c_api/eigensolver/gen_eigensolver.cpp dlaf_pdsygvd_partial_spectrum ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_fwd_pgen_part_d ARGS(double) {
  START_P
  if (n == 0 ? ib != 1 || ie != 0 : ib > ie || ie > n) return true;
  dlaf_pdsygvd_partial_spectrum(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, ib, ie, &info);
  return info == 0 && same<double>(capi::GEN, k, c) && capi::c.n == 4 && AT(0, a, q) && AT(1, b, q2) && isw(capi::c.m[2], w, q3) && AT(3, z, q3) && capi::c.begin == ib - 1 && capi::c.end == ie;
}
//@ law exit_pgen_part_d ; about: src/c_api/eigensolver/gen_eigensolver.h dlaf_pdsygvd_partial_spectrum ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_exit_pgen_part_d ARGS(double) {
  START_P
  if (n == 0 ? ib != 1 || ie != 0 : ib > ie || ie > n) return true;
  dlaf_pdsygvd_partial_spectrum(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, ib, ie, &info);
  return clean(2);
}
//@ law fwd_gen_fac_part_d ; about: src/c_api/eigensolver/gen_eigensolver.cpp dlaf_symmetric_generalized_eigensolver_partial_spectrum_factorized_d ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_gen_fac_part_d ARGS(double) {
  START(m, n)
  const auto q2 = larger(second(q), 2, 1), q3 = larger(third(q), 1, 2);
  const int r = dlaf_symmetric_generalized_eigensolver_partial_spectrum_factorized_d(k, c, a, q, b, q2, w, z, q3, ib, ie);
  return r == 0 && same<double>(capi::GENFAC, k, c) && capi::c.n == 4 && AT(0, a, q) && AT(1, b, q2) && isw(capi::c.m[2], w, q3) && AT(3, z, q3) && capi::c.begin == ib && capi::c.end == ie;
}
//@ law exit_gen_fac_part_d ; about: src/c_api/eigensolver/gen_eigensolver.h dlaf_symmetric_generalized_eigensolver_partial_spectrum_factorized_d ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_gen_fac_part_d ARGS(double) {
  START(m, n)
  const auto q2 = larger(second(q), 2, 1), q3 = larger(third(q), 1, 2);
  const int r = dlaf_symmetric_generalized_eigensolver_partial_spectrum_factorized_d(k, c, a, q, b, q2, w, z, q3, ib, ie);
  return r == 0 && clean(2);
}
//@ law fwd_pgen_fac_part_d ; about: src/c_api/eigensolver/gen_eigensolver.cpp dlaf_pdsygvd_partial_spectrum_factorized ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_fwd_pgen_fac_part_d ARGS(double) {
  START_P
  if (n == 0 ? ib != 1 || ie != 0 : ib > ie || ie > n) return true;
  dlaf_pdsygvd_partial_spectrum_factorized(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, ib, ie, &info);
  return info == 0 && same<double>(capi::GENFAC, k, c) && capi::c.n == 4 && AT(0, a, q) && AT(1, b, q2) && isw(capi::c.m[2], w, q3) && AT(3, z, q3) && capi::c.begin == ib - 1 && capi::c.end == ie;
}
//@ law exit_pgen_fac_part_d ; about: src/c_api/eigensolver/gen_eigensolver.h dlaf_pdsygvd_partial_spectrum_factorized ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_exit_pgen_fac_part_d ARGS(double) {
  START_P
  if (n == 0 ? ib != 1 || ie != 0 : ib > ie || ie > n) return true;
  dlaf_pdsygvd_partial_spectrum_factorized(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, ib, ie, &info);
  return clean(2);
}
//@ law fwd_potrf_c ; about: src/c_api/factorization/cholesky.cpp dlaf_cholesky_factorization_c ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_potrf_c ARGS(Cc) {
  START(m, n)
  const int r = dlaf_cholesky_factorization_c(k, c, a, q);
  return r == 0 && same<Cc>(capi::POTRF, k, c) && capi::c.n == 1 && AT(0, a, q);
}
//@ law exit_potrf_c ; about: src/c_api/factorization/cholesky.h dlaf_cholesky_factorization_c ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_potrf_c ARGS(Cc) {
  START(m, n)
  const int r = dlaf_cholesky_factorization_c(k, c, a, q);
  return r == 0 && clean(1);
}
//@ law fwd_ppotrf_c ; about: src/c_api/factorization/cholesky.cpp dlaf_pcpotrf ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_ppotrf_c ARGS(Cc) {
  START_P
  dlaf_pcpotrf(c, n, a, 1, 1, d, &info);
  return info == 0 && same<Cc>(capi::POTRF, k, c) && capi::c.n == 1 && AT(0, a, q);
}
//@ law exit_ppotrf_c ; about: src/c_api/factorization/cholesky.h dlaf_pcpotrf ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_ppotrf_c ARGS(Cc) {
  START_P
  dlaf_pcpotrf(c, n, a, 1, 1, d, &info);
  return clean(1);
}
//@ law fwd_potri_c ; about: src/c_api/inverse/cholesky.cpp dlaf_inverse_from_cholesky_factor_c ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_potri_c ARGS(Cc) {
  START(m, n)
  const int r = dlaf_inverse_from_cholesky_factor_c(k, c, a, q);
  return r == 0 && same<Cc>(capi::POTRI, k, c) && capi::c.n == 1 && AT(0, a, q);
}
//@ law exit_potri_c ; about: src/c_api/inverse/cholesky.h dlaf_inverse_from_cholesky_factor_c ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_potri_c ARGS(Cc) {
  START(m, n)
  const int r = dlaf_inverse_from_cholesky_factor_c(k, c, a, q);
  return r == 0 && clean(1);
}
//@ law fwd_ppotri_c ; about: src/c_api/inverse/cholesky.cpp dlaf_pcpotri ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_ppotri_c ARGS(Cc) {
  START_P
  dlaf_pcpotri(c, n, a, 1, 1, d, &info);
  return info == 0 && same<Cc>(capi::POTRI, k, c) && capi::c.n == 1 && AT(0, a, q);
}
//@ law exit_ppotri_c ; about: src/c_api/inverse/cholesky.h dlaf_pcpotri ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_ppotri_c ARGS(Cc) {
  START_P
  dlaf_pcpotri(c, n, a, 1, 1, d, &info);
  return clean(1);
}
//@ law fwd_eig_c ; about: src/c_api/eigensolver/eigensolver.cpp dlaf_hermitian_eigensolver_c ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_eig_c ARGS(Cc) {
  START(m, n)
  const auto q3 = larger(third(q), 1, 2);
  const int r = dlaf_hermitian_eigensolver_c(k, c, a, q, w, z, q3);
  return r == 0 && same<Cc>(capi::EIG, k, c) && capi::c.n == 3 && AT(0, a, q) && isw(capi::c.m[1], w, q3) && AT(2, z, q3) && capi::c.begin == 0 && capi::c.end == q.m;
}
//@ law exit_eig_c ; about: src/c_api/eigensolver/eigensolver.h dlaf_hermitian_eigensolver_c ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_eig_c ARGS(Cc) {
  START(m, n)
  const auto q3 = larger(third(q), 1, 2);
  const int r = dlaf_hermitian_eigensolver_c(k, c, a, q, w, z, q3);
  return r == 0 && clean(2);
}
//@ law fwd_peig_c ; about: src/c_api/eigensolver/eigensolver.cpp dlaf_pcheevd ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_fwd_peig_c ARGS(Cc) {
  START_P
  dlaf_pcheevd(c, n, a, 1, 1, d, w, z, 1, 1, d3, &info);
  return info == 0 && same<Cc>(capi::EIG, k, c) && capi::c.n == 3 && AT(0, a, q) && isw(capi::c.m[1], w, q3) && AT(2, z, q3) && capi::c.begin == 0 && capi::c.end == n;
}
//@ law exit_peig_c ; about: src/c_api/eigensolver/eigensolver.h dlaf_pcheevd ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_exit_peig_c ARGS(Cc) {
  START_P
  dlaf_pcheevd(c, n, a, 1, 1, d, w, z, 1, 1, d3, &info);
  return clean(2);
}
//@ law fwd_gen_c ; about: src/c_api/eigensolver/gen_eigensolver.cpp dlaf_hermitian_generalized_eigensolver_c ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_gen_c ARGS(Cc) {
  START(m, n)
  const auto q2 = larger(second(q), 2, 1), q3 = larger(third(q), 1, 2);
  const int r = dlaf_hermitian_generalized_eigensolver_c(k, c, a, q, b, q2, w, z, q3);
  return r == 0 && same<Cc>(capi::GEN, k, c) && capi::c.n == 4 && AT(0, a, q) && AT(1, b, q2) && isw(capi::c.m[2], w, q3) && AT(3, z, q3) && capi::c.begin == 0 && capi::c.end == q.m;
}
//@ law exit_gen_c ; about: src/c_api/eigensolver/gen_eigensolver.h dlaf_hermitian_generalized_eigensolver_c ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_gen_c ARGS(Cc) {
  START(m, n)
  const auto q2 = larger(second(q), 2, 1), q3 = larger(third(q), 1, 2);
  const int r = dlaf_hermitian_generalized_eigensolver_c(k, c, a, q, b, q2, w, z, q3);
  return r == 0 && clean(2);
}
//@ law fwd_pgen_c ; about: src/c_api/eigensolver/gen_eigensolver.cpp dlaf_pchegvd ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_fwd_pgen_c ARGS(Cc) {
  START_P
  dlaf_pchegvd(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, &info);
  return info == 0 && same<Cc>(capi::GEN, k, c) && capi::c.n == 4 && AT(0, a, q) && AT(1, b, q2) && isw(capi::c.m[2], w, q3) && AT(3, z, q3) && capi::c.begin == 0 && capi::c.end == n;
}
//@ law exit_pgen_c ; about: src/c_api/eigensolver/gen_eigensolver.h dlaf_pchegvd ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_exit_pgen_c ARGS(Cc) {
  START_P
  dlaf_pchegvd(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, &info);
  return clean(2);
}
//@ law fwd_gen_fac_c ; about: src/c_api/eigensolver/gen_eigensolver.cpp dlaf_hermitian_generalized_eigensolver_factorized_c ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_gen_fac_c ARGS(Cc) {
  START(m, n)
  const auto q2 = larger(second(q), 2, 1), q3 = larger(third(q), 1, 2);
  const int r = dlaf_hermitian_generalized_eigensolver_factorized_c(k, c, a, q, b, q2, w, z, q3);
  return r == 0 && same<Cc>(capi::GENFAC, k, c) && capi::c.n == 4 && AT(0, a, q) && AT(1, b, q2) && isw(capi::c.m[2], w, q3) && AT(3, z, q3) && capi::c.begin == 0 && capi::c.end == q.m;
}
//@ law exit_gen_fac_c ; about: src/c_api/eigensolver/gen_eigensolver.h dlaf_hermitian_generalized_eigensolver_factorized_c ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_gen_fac_c ARGS(Cc) {
  START(m, n)
  const auto q2 = larger(second(q), 2, 1), q3 = larger(third(q), 1, 2);
  const int r = dlaf_hermitian_generalized_eigensolver_factorized_c(k, c, a, q, b, q2, w, z, q3);
  return r == 0 && clean(2);
}
//@ law fwd_pgen_fac_c ; about: src/c_api/eigensolver/gen_eigensolver.cpp dlaf_pchegvd_factorized ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_fwd_pgen_fac_c ARGS(Cc) {
  START_P
  dlaf_pchegvd_factorized(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, &info);
  return info == 0 && same<Cc>(capi::GENFAC, k, c) && capi::c.n == 4 && AT(0, a, q) && AT(1, b, q2) && isw(capi::c.m[2], w, q3) && AT(3, z, q3) && capi::c.begin == 0 && capi::c.end == n;
}
//@ law exit_pgen_fac_c ; about: src/c_api/eigensolver/gen_eigensolver.h dlaf_pchegvd_factorized ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_exit_pgen_fac_c ARGS(Cc) {
  START_P
  dlaf_pchegvd_factorized(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, &info);
  return clean(2);
}
//@ law fwd_eig_part_c ; about: src/c_api/eigensolver/eigensolver.cpp dlaf_hermitian_eigensolver_partial_spectrum_c ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_eig_part_c ARGS(Cc) {
  START(m, n)
  const auto q3 = larger(third(q), 1, 2);
  const int r = dlaf_hermitian_eigensolver_partial_spectrum_c(k, c, a, q, w, z, q3, ib, ie);
  return r == 0 && same<Cc>(capi::EIG, k, c) && capi::c.n == 3 && AT(0, a, q) && isw(capi::c.m[1], w, q3) && AT(2, z, q3) && capi::c.begin == ib && capi::c.end == ie;
}
//@ law exit_eig_part_c ; about: src/c_api/eigensolver/eigensolver.h dlaf_hermitian_eigensolver_partial_spectrum_c ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_eig_part_c ARGS(Cc) {
  START(m, n)
  const auto q3 = larger(third(q), 1, 2);
  const int r = dlaf_hermitian_eigensolver_partial_spectrum_c(k, c, a, q, w, z, q3, ib, ie);
  return r == 0 && clean(2);
}
//@ law fwd_peig_part_c ; about: src/c_api/eigensolver/eigensolver.cpp dlaf_pcheevd_partial_spectrum ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_fwd_peig_part_c ARGS(Cc) {
  START_P
  if (n == 0 ? ib != 1 || ie != 0 : ib > ie || ie > n) return true;
  dlaf_pcheevd_partial_spectrum(c, n, a, 1, 1, d, w, z, 1, 1, d3, ib, ie, &info);
  return info == 0 && same<Cc>(capi::EIG, k, c) && capi::c.n == 3 && AT(0, a, q) && isw(capi::c.m[1], w, q3) && AT(2, z, q3) && capi::c.begin == ib - 1 && capi::c.end == ie;
}
//@ law exit_peig_part_c ; about: src/c_api/eigensolver/eigensolver.h dlaf_pcheevd_partial_spectrum ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_exit_peig_part_c ARGS(Cc) {
  START_P
  if (n == 0 ? ib != 1 || ie != 0 : ib > ie || ie > n) return true;
  dlaf_pcheevd_partial_spectrum(c, n, a, 1, 1, d, w, z, 1, 1, d3, ib, ie, &info);
  return clean(2);
}
//@ law fwd_gen_part_c ; about: src/c_api/eigensolver/gen_eigensolver.cpp dlaf_hermitian_generalized_eigensolver_partial_spectrum_c ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_gen_part_c ARGS(Cc) {
  START(m, n)
  const auto q2 = larger(second(q), 2, 1), q3 = larger(third(q), 1, 2);
  const int r = dlaf_hermitian_generalized_eigensolver_partial_spectrum_c(k, c, a, q, b, q2, w, z, q3, ib, ie);
  return r == 0 && same<Cc>(capi::GEN, k, c) && capi::c.n == 4 && AT(0, a, q) && AT(1, b, q2) && isw(capi::c.m[2], w, q3) && AT(3, z, q3) && capi::c.begin == ib && capi::c.end == ie;
}
//@ law exit_gen_part_c ; about: src/c_api/eigensolver/gen_eigensolver.h dlaf_hermitian_generalized_eigensolver_partial_spectrum_c ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_gen_part_c ARGS(Cc) {
  START(m, n)
  const auto q2 = larger(second(q), 2, 1), q3 = larger(third(q), 1, 2);
  const int r = dlaf_hermitian_generalized_eigensolver_partial_spectrum_c(k, c, a, q, b, q2, w, z, q3, ib, ie);
  return r == 0 && clean(2);
}
//@ law fwd_pgen_part_c ; about: src/c_api/eigensolver/gen_eigensolver.cpp dlaf_pchegvd_partial_spectrum ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_fwd_pgen_part_c ARGS(Cc) {
  START_P
  if (n == 0 ? ib != 1 || ie != 0 : ib > ie || ie > n) return true;
  dlaf_pchegvd_partial_spectrum(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, ib, ie, &info);
  return info == 0 && same<Cc>(capi::GEN, k, c) && capi::c.n == 4 && AT(0, a, q) && AT(1, b, q2) && isw(capi::c.m[2], w, q3) && AT(3, z, q3) && capi::c.begin == ib - 1 && capi::c.end == ie;
}
//@ law exit_pgen_part_c ; about: src/c_api/eigensolver/gen_eigensolver.h dlaf_pchegvd_partial_spectrum ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_exit_pgen_part_c ARGS(Cc) {
  START_P
  if (n == 0 ? ib != 1 || ie != 0 : ib > ie || ie > n) return true;
  dlaf_pchegvd_partial_spectrum(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, ib, ie, &info);
  return clean(2);
}
//@ law fwd_gen_fac_part_c ; about: src/c_api/eigensolver/gen_eigensolver.cpp dlaf_hermitian_generalized_eigensolver_partial_spectrum_factorized_c ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_gen_fac_part_c ARGS(Cc) {
  START(m, n)
  const auto q2 = larger(second(q), 2, 1), q3 = larger(third(q), 1, 2);
  const int r = dlaf_hermitian_generalized_eigensolver_partial_spectrum_factorized_c(k, c, a, q, b, q2, w, z, q3, ib, ie);
  return r == 0 && same<Cc>(capi::GENFAC, k, c) && capi::c.n == 4 && AT(0, a, q) && AT(1, b, q2) && isw(capi::c.m[2], w, q3) && AT(3, z, q3) && capi::c.begin == ib && capi::c.end == ie;
}
//@ law exit_gen_fac_part_c ; about: src/c_api/eigensolver/gen_eigensolver.h dlaf_hermitian_generalized_eigensolver_partial_spectrum_factorized_c ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_gen_fac_part_c ARGS(Cc) {
  START(m, n)
  const auto q2 = larger(second(q), 2, 1), q3 = larger(third(q), 1, 2);
  const int r = dlaf_hermitian_generalized_eigensolver_partial_spectrum_factorized_c(k, c, a, q, b, q2, w, z, q3, ib, ie);
  return r == 0 && clean(2);
}
//@ law fwd_pgen_fac_part_c ; about: src/c_api/eigensolver/gen_eigensolver.cpp dlaf_pchegvd_partial_spectrum_factorized ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_fwd_pgen_fac_part_c ARGS(Cc) {
  START_P
  if (n == 0 ? ib != 1 || ie != 0 : ib > ie || ie > n) return true;
  dlaf_pchegvd_partial_spectrum_factorized(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, ib, ie, &info);
  return info == 0 && same<Cc>(capi::GENFAC, k, c) && capi::c.n == 4 && AT(0, a, q) && AT(1, b, q2) && isw(capi::c.m[2], w, q3) && AT(3, z, q3) && capi::c.begin == ib - 1 && capi::c.end == ie;
}
//@ law exit_pgen_fac_part_c ; about: src/c_api/eigensolver/gen_eigensolver.h dlaf_pchegvd_partial_spectrum_factorized ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_exit_pgen_fac_part_c ARGS(Cc) {
  START_P
  if (n == 0 ? ib != 1 || ie != 0 : ib > ie || ie > n) return true;
  dlaf_pchegvd_partial_spectrum_factorized(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, ib, ie, &info);
  return clean(2);
}
//@ law fwd_potrf_z ; about: src/c_api/factorization/cholesky.cpp dlaf_cholesky_factorization_z ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_potrf_z ARGS(Zz) {
  START(m, n)
  const int r = dlaf_cholesky_factorization_z(k, c, a, q);
  return r == 0 && same<Zz>(capi::POTRF, k, c) && capi::c.n == 1 && AT(0, a, q);
}
//@ law exit_potrf_z ; about: src/c_api/factorization/cholesky.h dlaf_cholesky_factorization_z ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_potrf_z ARGS(Zz) {
  START(m, n)
  const int r = dlaf_cholesky_factorization_z(k, c, a, q);
  return r == 0 && clean(1);
}
//@ law fwd_ppotrf_z ; about: src/c_api/factorization/cholesky.cpp dlaf_pzpotrf ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_ppotrf_z ARGS(Zz) {
  START_P
  dlaf_pzpotrf(c, n, a, 1, 1, d, &info);
  return info == 0 && same<Zz>(capi::POTRF, k, c) && capi::c.n == 1 && AT(0, a, q);
}
//@ law exit_ppotrf_z ; about: src/c_api/factorization/cholesky.h dlaf_pzpotrf ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_ppotrf_z ARGS(Zz) {
  START_P
  dlaf_pzpotrf(c, n, a, 1, 1, d, &info);
  return clean(1);
}
//@ law fwd_potri_z ; about: src/c_api/inverse/cholesky.cpp dlaf_inverse_from_cholesky_factor_z ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_potri_z ARGS(Zz) {
  START(m, n)
  const int r = dlaf_inverse_from_cholesky_factor_z(k, c, a, q);
  return r == 0 && same<Zz>(capi::POTRI, k, c) && capi::c.n == 1 && AT(0, a, q);
}
//@ law exit_potri_z ; about: src/c_api/inverse/cholesky.h dlaf_inverse_from_cholesky_factor_z ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_potri_z ARGS(Zz) {
  START(m, n)
  const int r = dlaf_inverse_from_cholesky_factor_z(k, c, a, q);
  return r == 0 && clean(1);
}
//@ law fwd_ppotri_z ; about: src/c_api/inverse/cholesky.cpp dlaf_pzpotri ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_ppotri_z ARGS(Zz) {
  START_P
  dlaf_pzpotri(c, n, a, 1, 1, d, &info);
  return info == 0 && same<Zz>(capi::POTRI, k, c) && capi::c.n == 1 && AT(0, a, q);
}
//@ law exit_ppotri_z ; about: src/c_api/inverse/cholesky.h dlaf_pzpotri ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_ppotri_z ARGS(Zz) {
  START_P
  dlaf_pzpotri(c, n, a, 1, 1, d, &info);
  return clean(1);
}
//@ law fwd_eig_z ; about: src/c_api/eigensolver/eigensolver.cpp dlaf_hermitian_eigensolver_z ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_eig_z ARGS(Zz) {
  START(m, n)
  const auto q3 = larger(third(q), 1, 2);
  const int r = dlaf_hermitian_eigensolver_z(k, c, a, q, w, z, q3);
  return r == 0 && same<Zz>(capi::EIG, k, c) && capi::c.n == 3 && AT(0, a, q) && isw(capi::c.m[1], w, q3) && AT(2, z, q3) && capi::c.begin == 0 && capi::c.end == q.m;
}
//@ law exit_eig_z ; about: src/c_api/eigensolver/eigensolver.h dlaf_hermitian_eigensolver_z ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_eig_z ARGS(Zz) {
  START(m, n)
  const auto q3 = larger(third(q), 1, 2);
  const int r = dlaf_hermitian_eigensolver_z(k, c, a, q, w, z, q3);
  return r == 0 && clean(2);
}
//@ law fwd_peig_z ; about: src/c_api/eigensolver/eigensolver.cpp dlaf_pzheevd ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_fwd_peig_z ARGS(Zz) {
  START_P
  dlaf_pzheevd(c, n, a, 1, 1, d, w, z, 1, 1, d3, &info);
  return info == 0 && same<Zz>(capi::EIG, k, c) && capi::c.n == 3 && AT(0, a, q) && isw(capi::c.m[1], w, q3) && AT(2, z, q3) && capi::c.begin == 0 && capi::c.end == n;
}
//@ law exit_peig_z ; about: src/c_api/eigensolver/eigensolver.h dlaf_pzheevd ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_exit_peig_z ARGS(Zz) {
  START_P
  dlaf_pzheevd(c, n, a, 1, 1, d, w, z, 1, 1, d3, &info);
  return clean(2);
}
//@ law fwd_gen_z ; about: src/c_api/eigensolver/gen_eigensolver.cpp dlaf_hermitian_generalized_eigensolver_z ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_gen_z ARGS(Zz) {
  START(m, n)
  const auto q2 = larger(second(q), 2, 1), q3 = larger(third(q), 1, 2);
  const int r = dlaf_hermitian_generalized_eigensolver_z(k, c, a, q, b, q2, w, z, q3);
  return r == 0 && same<Zz>(capi::GEN, k, c) && capi::c.n == 4 && AT(0, a, q) && AT(1, b, q2) && isw(capi::c.m[2], w, q3) && AT(3, z, q3) && capi::c.begin == 0 && capi::c.end == q.m;
}
//@ law exit_gen_z ; about: src/c_api/eigensolver/gen_eigensolver.h dlaf_hermitian_generalized_eigensolver_z ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_gen_z ARGS(Zz) {
  START(m, n)
  const auto q2 = larger(second(q), 2, 1), q3 = larger(third(q), 1, 2);
  const int r = dlaf_hermitian_generalized_eigensolver_z(k, c, a, q, b, q2, w, z, q3);
  return r == 0 && clean(2);
}
//@ law fwd_pgen_z ; about: src/c_api/eigensolver/gen_eigensolver.cpp dlaf_pzhegvd ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_fwd_pgen_z ARGS(Zz) {
  START_P
  dlaf_pzhegvd(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, &info);
  return info == 0 && same<Zz>(capi::GEN, k, c) && capi::c.n == 4 && AT(0, a, q) && AT(1, b, q2) && isw(capi::c.m[2], w, q3) && AT(3, z, q3) && capi::c.begin == 0 && capi::c.end == n;
}
//@ law exit_pgen_z ; about: src/c_api/eigensolver/gen_eigensolver.h dlaf_pzhegvd ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_exit_pgen_z ARGS(Zz) {
  START_P
  dlaf_pzhegvd(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, &info);
  return clean(2);
}
//@ law fwd_gen_fac_z ; about: src/c_api/eigensolver/gen_eigensolver.cpp dlaf_hermitian_generalized_eigensolver_factorized_z ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_gen_fac_z ARGS(Zz) {
  START(m, n)
  const auto q2 = larger(second(q), 2, 1), q3 = larger(third(q), 1, 2);
  const int r = dlaf_hermitian_generalized_eigensolver_factorized_z(k, c, a, q, b, q2, w, z, q3);
  return r == 0 && same<Zz>(capi::GENFAC, k, c) && capi::c.n == 4 && AT(0, a, q) && AT(1, b, q2) && isw(capi::c.m[2], w, q3) && AT(3, z, q3) && capi::c.begin == 0 && capi::c.end == q.m;
}
//@ law exit_gen_fac_z ; about: src/c_api/eigensolver/gen_eigensolver.h dlaf_hermitian_generalized_eigensolver_factorized_z ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_gen_fac_z ARGS(Zz) {
  START(m, n)
  const auto q2 = larger(second(q), 2, 1), q3 = larger(third(q), 1, 2);
  const int r = dlaf_hermitian_generalized_eigensolver_factorized_z(k, c, a, q, b, q2, w, z, q3);
  return r == 0 && clean(2);
}
//@ law fwd_pgen_fac_z ; about: src/c_api/eigensolver/gen_eigensolver.cpp dlaf_pzhegvd_factorized ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_fwd_pgen_fac_z ARGS(Zz) {
  START_P
  dlaf_pzhegvd_factorized(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, &info);
  return info == 0 && same<Zz>(capi::GENFAC, k, c) && capi::c.n == 4 && AT(0, a, q) && AT(1, b, q2) && isw(capi::c.m[2], w, q3) && AT(3, z, q3) && capi::c.begin == 0 && capi::c.end == n;
}
//@ law exit_pgen_fac_z ; about: src/c_api/eigensolver/gen_eigensolver.h dlaf_pzhegvd_factorized ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_exit_pgen_fac_z ARGS(Zz) {
  START_P
  dlaf_pzhegvd_factorized(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, &info);
  return clean(2);
}
//@ law fwd_eig_part_z ; about: src/c_api/eigensolver/eigensolver.cpp dlaf_hermitian_eigensolver_partial_spectrum_z ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_eig_part_z ARGS(Zz) {
  START(m, n)
  const auto q3 = larger(third(q), 1, 2);
  const int r = dlaf_hermitian_eigensolver_partial_spectrum_z(k, c, a, q, w, z, q3, ib, ie);
  return r == 0 && same<Zz>(capi::EIG, k, c) && capi::c.n == 3 && AT(0, a, q) && isw(capi::c.m[1], w, q3) && AT(2, z, q3) && capi::c.begin == ib && capi::c.end == ie;
}
//@ law exit_eig_part_z ; about: src/c_api/eigensolver/eigensolver.h dlaf_hermitian_eigensolver_partial_spectrum_z ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_eig_part_z ARGS(Zz) {
  START(m, n)
  const auto q3 = larger(third(q), 1, 2);
  const int r = dlaf_hermitian_eigensolver_partial_spectrum_z(k, c, a, q, w, z, q3, ib, ie);
  return r == 0 && clean(2);
}
//@ law fwd_peig_part_z ; about: src/c_api/eigensolver/eigensolver.cpp dlaf_pzheevd_partial_spectrum ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_fwd_peig_part_z ARGS(Zz) {
  START_P
  if (n == 0 ? ib != 1 || ie != 0 : ib > ie || ie > n) return true;
  dlaf_pzheevd_partial_spectrum(c, n, a, 1, 1, d, w, z, 1, 1, d3, ib, ie, &info);
  return info == 0 && same<Zz>(capi::EIG, k, c) && capi::c.n == 3 && AT(0, a, q) && isw(capi::c.m[1], w, q3) && AT(2, z, q3) && capi::c.begin == ib - 1 && capi::c.end == ie;
}
//@ law exit_peig_part_z ; about: src/c_api/eigensolver/eigensolver.h dlaf_pzheevd_partial_spectrum ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_exit_peig_part_z ARGS(Zz) {
  START_P
  if (n == 0 ? ib != 1 || ie != 0 : ib > ie || ie > n) return true;
  dlaf_pzheevd_partial_spectrum(c, n, a, 1, 1, d, w, z, 1, 1, d3, ib, ie, &info);
  return clean(2);
}
//@ law fwd_gen_part_z ; about: src/c_api/eigensolver/gen_eigensolver.cpp dlaf_hermitian_generalized_eigensolver_partial_spectrum_z ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_gen_part_z ARGS(Zz) {
  START(m, n)
  const auto q2 = larger(second(q), 2, 1), q3 = larger(third(q), 1, 2);
  const int r = dlaf_hermitian_generalized_eigensolver_partial_spectrum_z(k, c, a, q, b, q2, w, z, q3, ib, ie);
  return r == 0 && same<Zz>(capi::GEN, k, c) && capi::c.n == 4 && AT(0, a, q) && AT(1, b, q2) && isw(capi::c.m[2], w, q3) && AT(3, z, q3) && capi::c.begin == ib && capi::c.end == ie;
}
//@ law exit_gen_part_z ; about: src/c_api/eigensolver/gen_eigensolver.h dlaf_hermitian_generalized_eigensolver_partial_spectrum_z ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_gen_part_z ARGS(Zz) {
  START(m, n)
  const auto q2 = larger(second(q), 2, 1), q3 = larger(third(q), 1, 2);
  const int r = dlaf_hermitian_generalized_eigensolver_partial_spectrum_z(k, c, a, q, b, q2, w, z, q3, ib, ie);
  return r == 0 && clean(2);
}
//@ law fwd_pgen_part_z ; about: src/c_api/eigensolver/gen_eigensolver.cpp dlaf_pzhegvd_partial_spectrum ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_fwd_pgen_part_z ARGS(Zz) {
  START_P
  if (n == 0 ? ib != 1 || ie != 0 : ib > ie || ie > n) return true;
  dlaf_pzhegvd_partial_spectrum(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, ib, ie, &info);
  return info == 0 && same<Zz>(capi::GEN, k, c) && capi::c.n == 4 && AT(0, a, q) && AT(1, b, q2) && isw(capi::c.m[2], w, q3) && AT(3, z, q3) && capi::c.begin == ib - 1 && capi::c.end == ie;
}
//@ law exit_pgen_part_z ; about: src/c_api/eigensolver/gen_eigensolver.h dlaf_pzhegvd_partial_spectrum ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_exit_pgen_part_z ARGS(Zz) {
  START_P
  if (n == 0 ? ib != 1 || ie != 0 : ib > ie || ie > n) return true;
  dlaf_pzhegvd_partial_spectrum(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, ib, ie, &info);
  return clean(2);
}
//@ law fwd_gen_fac_part_z ; about: src/c_api/eigensolver/gen_eigensolver.cpp dlaf_hermitian_generalized_eigensolver_partial_spectrum_factorized_z ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_fwd_gen_fac_part_z ARGS(Zz) {
  START(m, n)
  const auto q2 = larger(second(q), 2, 1), q3 = larger(third(q), 1, 2);
  const int r = dlaf_hermitian_generalized_eigensolver_partial_spectrum_factorized_z(k, c, a, q, b, q2, w, z, q3, ib, ie);
  return r == 0 && same<Zz>(capi::GENFAC, k, c) && capi::c.n == 4 && AT(0, a, q) && AT(1, b, q2) && isw(capi::c.m[2], w, q3) && AT(3, z, q3) && capi::c.begin == ib && capi::c.end == ie;
}
//@ law exit_gen_fac_part_z ; about: src/c_api/eigensolver/gen_eigensolver.h dlaf_hermitian_generalized_eigensolver_partial_spectrum_factorized_z ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=i64, ie=i64
extern "C" bool law_exit_gen_fac_part_z ARGS(Zz) {
  START(m, n)
  const auto q2 = larger(second(q), 2, 1), q3 = larger(third(q), 1, 2);
  const int r = dlaf_hermitian_generalized_eigensolver_partial_spectrum_factorized_z(k, c, a, q, b, q2, w, z, q3, ib, ie);
  return r == 0 && clean(2);
}
//@ law fwd_pgen_fac_part_z ; about: src/c_api/eigensolver/gen_eigensolver.cpp dlaf_pzhegvd_partial_spectrum_factorized ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_fwd_pgen_fac_part_z ARGS(Zz) {
  START_P
  if (n == 0 ? ib != 1 || ie != 0 : ib > ie || ie > n) return true;
  dlaf_pzhegvd_partial_spectrum_factorized(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, ib, ie, &info);
  return info == 0 && same<Zz>(capi::GENFAC, k, c) && capi::c.n == 4 && AT(0, a, q) && AT(1, b, q2) && isw(capi::c.m[2], w, q3) && AT(3, z, q3) && capi::c.begin == ib - 1 && capi::c.end == ie;
}
//@ law exit_pgen_fac_part_z ; about: src/c_api/eigensolver/gen_eigensolver.h dlaf_pzhegvd_partial_spectrum_factorized ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, ib=1..10, ie=0..9
extern "C" bool law_exit_pgen_fac_part_z ARGS(Zz) {
  START_P
  if (n == 0 ? ib != 1 || ie != 0 : ib > ie || ie > n) return true;
  dlaf_pzhegvd_partial_spectrum_factorized(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, ib, ie, &info);
  return clean(2);
}

//@ law map_descriptor ; about: src/c_api/utils.cpp make_dlaf_descriptor ; dom: m=i32, n=i32, d=ptr ; mem=4
extern "C" bool law_map_descriptor(int m, int n, const int* d) {
  const DLAF_descriptor q = make_dlaf_descriptor(m, n, 1, 1, d);
  return q.m == m && q.n == n && q.mb == d[4] && q.nb == d[5] && q.isrc == d[6] && q.jsrc == d[7] && q.i == 0 && q.j == 0 && q.ld == d[8];
}
//@ law map_position_i ; about: src/c_api/utils.cpp make_dlaf_descriptor ; dom: m=0..9, i=-5..0|2..9, j=1..3, d=ptr ; mem=4
extern "C" void rej_map_position_i(int m, int i, int j, const int* d) { make_dlaf_descriptor(m, m, i, j, d); }
//@ law map_position_j ; about: src/c_api/utils.cpp make_dlaf_descriptor ; dom: m=0..9, j=-5..0|2..9, i=1..3, d=ptr ; mem=4
extern "C" void rej_map_position_j(int m, int j, int i, const int* d) { make_dlaf_descriptor(m, m, i, j, d); }
//@ law map_layout ; about: src/c_api/utils.cpp make_layout ; dom: m=1..9, n=1..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=9..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2
extern "C" bool law_map_layout(int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc) {
  grids(4, 5, gr, gc, rr, rc);
  const auto l = make_layout(make(m, n, mb, nb, sr, sc, ld), dlaf_grids.at(4));
  const auto& d = l.distribution();
  const dlaf::LocalTileIndex t(1, 1), r(1, 0);
  const bool in = d.local_nr_tiles().rows() > 1 && d.local_nr_tiles().cols() > 1;
  return d.size().rows() == m && d.size().cols() == n && d.block_size().rows() == mb && d.block_size().cols() == nb && d.tile_size().rows() == mb && d.tile_size().cols() == nb &&
         d.grid_size().rows() == gr && d.grid_size().cols() == gc && d.rank_index().row() == rr && d.rank_index().col() == rc && d.source_rank_index().row() == sr && d.source_rank_index().col() == sc &&
         d.offset().row() == 0 && d.offset().col() == 0 && (!in || (l.tile_offset(t) == mb + static_cast<S>(ld) * nb && l.tile_offset(r) == mb));
}
//@ law map_ld ; about: src/c_api/utils.cpp make_layout ; dom: m=2..9, n=2..9, mb=1..4, nb=1..4, q=0..8
extern "C" void rej_map_ld(int m, int n, int mb, int nb, int q) {
  grids(4, 5, 1, 1, 0, 0);
  make_layout(make(m, n, mb, nb, 0, 0, q % m), dlaf_grids.at(4));
}
//@ law map_order ; about: src/c_api/utils.cpp char2order ; dom: c=0..127
extern "C" bool law_map_order(int c) { return char2order(static_cast<char>(c)) == (c == 'C' || c == 'c' ? dlaf::common::Ordering::ColumnMajor : dlaf::common::Ordering::RowMajor); }
//@ law map_context ; about: src/c_api/utils.cpp grid_from_context ; dom: k=i32, o=i32
extern "C" bool law_map_context(int k, int o) {
  if (k == o) return true;
  dlaf_grids.clear();
  dlaf_grids.try_emplace(o, dlaf::comm::Communicator(MPI_Comm(8)), 7, 9, dlaf::common::Ordering::RowMajor);
  dlaf_grids.try_emplace(k, dlaf::comm::Communicator(MPI_Comm(16)), 2, 3, dlaf::common::Ordering::RowMajor);
  auto& g = grid_from_context(k);
  auto& h = grid_from_context(o);
  return &g == &dlaf_grids.at(k) && g.rows == 2 && g.cols == 3 && &h == &dlaf_grids.at(o) && h.rows == 7;
}
//@ law map_no_context ; about: src/c_api/utils.cpp grid_from_context ; dom: k=i32, o=i32
extern "C" void rej_map_no_context(int k, int o) {
  if (k == o) verif_stop();
  dlaf_grids.clear();
  dlaf_grids.try_emplace(o, dlaf::comm::Communicator(MPI_Comm(8)), 7, 9, dlaf::common::Ordering::RowMajor);
  grid_from_context(k);
}
//@ law map_rej_potrf_i1 ; about: src/c_api/factorization/cholesky.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rej_potrf_i1(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  reset(); grids(k, k + 5, gr, gc, rr, rc); const char c = static_cast<char>(u); auto q = make(m, n, mb, nb, sr, sc, ld); auto q2 = second(q), q3 = third(q); (void) q2; (void) q3;
  q.i = bad;
  dlaf_cholesky_factorization_d(k, c, a, q);
}
//@ law map_rej_potrf_j1 ; about: src/c_api/factorization/cholesky.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rej_potrf_j1(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  reset(); grids(k, k + 5, gr, gc, rr, rc); const char c = static_cast<char>(u); auto q = make(m, n, mb, nb, sr, sc, ld); auto q2 = second(q), q3 = third(q); (void) q2; (void) q3;
  q.j = bad;
  dlaf_cholesky_factorization_d(k, c, a, q);
}
//@ law map_rejp_potrf_i1 ; about: src/c_api/factorization/cholesky.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_potrf_i1(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  i1 = bad + 1;
  dlaf_pdpotrf(c, n, a, i1, j1, d, &info);
}
//@ law map_rejp_potrf_j1 ; about: src/c_api/factorization/cholesky.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_potrf_j1(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  j1 = bad + 1;
  dlaf_pdpotrf(c, n, a, i1, j1, d, &info);
}
//@ law map_rejp_potrf_type1 ; about: src/c_api/factorization/cholesky.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_potrf_type1(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  d[0] = bad + 1;
  dlaf_pdpotrf(c, n, a, i1, j1, d, &info);
}
//@ law map_rej_potri_i1 ; about: src/c_api/inverse/cholesky.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rej_potri_i1(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  reset(); grids(k, k + 5, gr, gc, rr, rc); const char c = static_cast<char>(u); auto q = make(m, n, mb, nb, sr, sc, ld); auto q2 = second(q), q3 = third(q); (void) q2; (void) q3;
  q.i = bad;
  dlaf_inverse_from_cholesky_factor_d(k, c, a, q);
}
//@ law map_rej_potri_j1 ; about: src/c_api/inverse/cholesky.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rej_potri_j1(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  reset(); grids(k, k + 5, gr, gc, rr, rc); const char c = static_cast<char>(u); auto q = make(m, n, mb, nb, sr, sc, ld); auto q2 = second(q), q3 = third(q); (void) q2; (void) q3;
  q.j = bad;
  dlaf_inverse_from_cholesky_factor_d(k, c, a, q);
}
//@ law map_rejp_potri_i1 ; about: src/c_api/inverse/cholesky.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_potri_i1(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  i1 = bad + 1;
  dlaf_pdpotri(c, n, a, i1, j1, d, &info);
}
//@ law map_rejp_potri_j1 ; about: src/c_api/inverse/cholesky.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_potri_j1(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  j1 = bad + 1;
  dlaf_pdpotri(c, n, a, i1, j1, d, &info);
}
//@ law map_rejp_potri_type1 ; about: src/c_api/inverse/cholesky.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_potri_type1(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  d[0] = bad + 1;
  dlaf_pdpotri(c, n, a, i1, j1, d, &info);
}
//@ law map_rej_eig_i1 ; about: src/c_api/eigensolver/eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rej_eig_i1(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  reset(); grids(k, k + 5, gr, gc, rr, rc); const char c = static_cast<char>(u); auto q = make(m, n, mb, nb, sr, sc, ld); auto q2 = second(q), q3 = third(q); (void) q2; (void) q3;
  q.i = bad;
  dlaf_symmetric_eigensolver_d(k, c, a, q, w, z, q3);
}
//@ law map_rej_eig_i3 ; about: src/c_api/eigensolver/eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rej_eig_i3(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  reset(); grids(k, k + 5, gr, gc, rr, rc); const char c = static_cast<char>(u); auto q = make(m, n, mb, nb, sr, sc, ld); auto q2 = second(q), q3 = third(q); (void) q2; (void) q3;
  q3.i = bad;
  dlaf_symmetric_eigensolver_d(k, c, a, q, w, z, q3);
}
//@ law map_rej_eig_j1 ; about: src/c_api/eigensolver/eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rej_eig_j1(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  reset(); grids(k, k + 5, gr, gc, rr, rc); const char c = static_cast<char>(u); auto q = make(m, n, mb, nb, sr, sc, ld); auto q2 = second(q), q3 = third(q); (void) q2; (void) q3;
  q.j = bad;
  dlaf_symmetric_eigensolver_d(k, c, a, q, w, z, q3);
}
//@ law map_rej_eig_j3 ; about: src/c_api/eigensolver/eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rej_eig_j3(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  reset(); grids(k, k + 5, gr, gc, rr, rc); const char c = static_cast<char>(u); auto q = make(m, n, mb, nb, sr, sc, ld); auto q2 = second(q), q3 = third(q); (void) q2; (void) q3;
  q3.j = bad;
  dlaf_symmetric_eigensolver_d(k, c, a, q, w, z, q3);
}
//@ law map_rejp_eig_i1 ; about: src/c_api/eigensolver/eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_eig_i1(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  i1 = bad + 1;
  dlaf_pdsyevd(c, n, a, i1, j1, d, w, z, i3, j3, d3, &info);
}
//@ law map_rejp_eig_i3 ; about: src/c_api/eigensolver/eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_eig_i3(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  i3 = bad + 1;
  dlaf_pdsyevd(c, n, a, i1, j1, d, w, z, i3, j3, d3, &info);
}
//@ law map_rejp_eig_j1 ; about: src/c_api/eigensolver/eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_eig_j1(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  j1 = bad + 1;
  dlaf_pdsyevd(c, n, a, i1, j1, d, w, z, i3, j3, d3, &info);
}
//@ law map_rejp_eig_j3 ; about: src/c_api/eigensolver/eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_eig_j3(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  j3 = bad + 1;
  dlaf_pdsyevd(c, n, a, i1, j1, d, w, z, i3, j3, d3, &info);
}
//@ law map_rejp_eig_type1 ; about: src/c_api/eigensolver/eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_eig_type1(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  d[0] = bad + 1;
  dlaf_pdsyevd(c, n, a, i1, j1, d, w, z, i3, j3, d3, &info);
}
//@ law map_rejp_eig_type3 ; about: src/c_api/eigensolver/eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_eig_type3(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  d3[0] = bad + 1;
  dlaf_pdsyevd(c, n, a, i1, j1, d, w, z, i3, j3, d3, &info);
}
//@ law map_rejp_eig_ctx3 ; about: src/c_api/eigensolver/eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_eig_ctx3(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  d3[1] = k + bad;
  dlaf_pdsyevd(c, n, a, i1, j1, d, w, z, i3, j3, d3, &info);
}
//@ law map_rej_eig_part_i1 ; about: src/c_api/eigensolver/eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rej_eig_part_i1(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  reset(); grids(k, k + 5, gr, gc, rr, rc); const char c = static_cast<char>(u); auto q = make(m, n, mb, nb, sr, sc, ld); auto q2 = second(q), q3 = third(q); (void) q2; (void) q3;
  q.i = bad;
  dlaf_symmetric_eigensolver_partial_spectrum_d(k, c, a, q, w, z, q3, 0, m);
}
//@ law map_rej_eig_part_i3 ; about: src/c_api/eigensolver/eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rej_eig_part_i3(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  reset(); grids(k, k + 5, gr, gc, rr, rc); const char c = static_cast<char>(u); auto q = make(m, n, mb, nb, sr, sc, ld); auto q2 = second(q), q3 = third(q); (void) q2; (void) q3;
  q3.i = bad;
  dlaf_symmetric_eigensolver_partial_spectrum_d(k, c, a, q, w, z, q3, 0, m);
}
//@ law map_rej_eig_part_j1 ; about: src/c_api/eigensolver/eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rej_eig_part_j1(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  reset(); grids(k, k + 5, gr, gc, rr, rc); const char c = static_cast<char>(u); auto q = make(m, n, mb, nb, sr, sc, ld); auto q2 = second(q), q3 = third(q); (void) q2; (void) q3;
  q.j = bad;
  dlaf_symmetric_eigensolver_partial_spectrum_d(k, c, a, q, w, z, q3, 0, m);
}
//@ law map_rej_eig_part_j3 ; about: src/c_api/eigensolver/eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rej_eig_part_j3(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  reset(); grids(k, k + 5, gr, gc, rr, rc); const char c = static_cast<char>(u); auto q = make(m, n, mb, nb, sr, sc, ld); auto q2 = second(q), q3 = third(q); (void) q2; (void) q3;
  q3.j = bad;
  dlaf_symmetric_eigensolver_partial_spectrum_d(k, c, a, q, w, z, q3, 0, m);
}
//@ law map_rejp_eig_part_i1 ; about: src/c_api/eigensolver/eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_eig_part_i1(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  i1 = bad + 1;
  dlaf_pdsyevd_partial_spectrum(c, n, a, i1, j1, d, w, z, i3, j3, d3, n ? 1 : 1, n, &info);
}
//@ law map_rejp_eig_part_i3 ; about: src/c_api/eigensolver/eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_eig_part_i3(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  i3 = bad + 1;
  dlaf_pdsyevd_partial_spectrum(c, n, a, i1, j1, d, w, z, i3, j3, d3, n ? 1 : 1, n, &info);
}
//@ law map_rejp_eig_part_j1 ; about: src/c_api/eigensolver/eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_eig_part_j1(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  j1 = bad + 1;
  dlaf_pdsyevd_partial_spectrum(c, n, a, i1, j1, d, w, z, i3, j3, d3, n ? 1 : 1, n, &info);
}
//@ law map_rejp_eig_part_j3 ; about: src/c_api/eigensolver/eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_eig_part_j3(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  j3 = bad + 1;
  dlaf_pdsyevd_partial_spectrum(c, n, a, i1, j1, d, w, z, i3, j3, d3, n ? 1 : 1, n, &info);
}
//@ law map_rejp_eig_part_type1 ; about: src/c_api/eigensolver/eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_eig_part_type1(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  d[0] = bad + 1;
  dlaf_pdsyevd_partial_spectrum(c, n, a, i1, j1, d, w, z, i3, j3, d3, n ? 1 : 1, n, &info);
}
//@ law map_rejp_eig_part_type3 ; about: src/c_api/eigensolver/eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_eig_part_type3(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  d3[0] = bad + 1;
  dlaf_pdsyevd_partial_spectrum(c, n, a, i1, j1, d, w, z, i3, j3, d3, n ? 1 : 1, n, &info);
}
//@ law map_rejp_eig_part_ctx3 ; about: src/c_api/eigensolver/eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_eig_part_ctx3(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  d3[1] = k + bad;
  dlaf_pdsyevd_partial_spectrum(c, n, a, i1, j1, d, w, z, i3, j3, d3, n ? 1 : 1, n, &info);
}
//@ law map_rej_gen_i1 ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rej_gen_i1(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  reset(); grids(k, k + 5, gr, gc, rr, rc); const char c = static_cast<char>(u); auto q = make(m, n, mb, nb, sr, sc, ld); auto q2 = second(q), q3 = third(q); (void) q2; (void) q3;
  q.i = bad;
  dlaf_symmetric_generalized_eigensolver_d(k, c, a, q, b, q2, w, z, q3);
}
//@ law map_rej_gen_i2 ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rej_gen_i2(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  reset(); grids(k, k + 5, gr, gc, rr, rc); const char c = static_cast<char>(u); auto q = make(m, n, mb, nb, sr, sc, ld); auto q2 = second(q), q3 = third(q); (void) q2; (void) q3;
  q2.i = bad;
  dlaf_symmetric_generalized_eigensolver_d(k, c, a, q, b, q2, w, z, q3);
}
//@ law map_rej_gen_i3 ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rej_gen_i3(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  reset(); grids(k, k + 5, gr, gc, rr, rc); const char c = static_cast<char>(u); auto q = make(m, n, mb, nb, sr, sc, ld); auto q2 = second(q), q3 = third(q); (void) q2; (void) q3;
  q3.i = bad;
  dlaf_symmetric_generalized_eigensolver_d(k, c, a, q, b, q2, w, z, q3);
}
//@ law map_rej_gen_j1 ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rej_gen_j1(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  reset(); grids(k, k + 5, gr, gc, rr, rc); const char c = static_cast<char>(u); auto q = make(m, n, mb, nb, sr, sc, ld); auto q2 = second(q), q3 = third(q); (void) q2; (void) q3;
  q.j = bad;
  dlaf_symmetric_generalized_eigensolver_d(k, c, a, q, b, q2, w, z, q3);
}
//@ law map_rej_gen_j2 ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rej_gen_j2(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  reset(); grids(k, k + 5, gr, gc, rr, rc); const char c = static_cast<char>(u); auto q = make(m, n, mb, nb, sr, sc, ld); auto q2 = second(q), q3 = third(q); (void) q2; (void) q3;
  q2.j = bad;
  dlaf_symmetric_generalized_eigensolver_d(k, c, a, q, b, q2, w, z, q3);
}
//@ law map_rej_gen_j3 ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rej_gen_j3(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  reset(); grids(k, k + 5, gr, gc, rr, rc); const char c = static_cast<char>(u); auto q = make(m, n, mb, nb, sr, sc, ld); auto q2 = second(q), q3 = third(q); (void) q2; (void) q3;
  q3.j = bad;
  dlaf_symmetric_generalized_eigensolver_d(k, c, a, q, b, q2, w, z, q3);
}
//@ law map_rejp_gen_i1 ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_gen_i1(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  i1 = bad + 1;
  dlaf_pdsygvd(c, n, a, i1, j1, d, b, i2, j2, d2, w, z, i3, j3, d3, &info);
}
//@ law map_rejp_gen_i2 ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_gen_i2(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  i2 = bad + 1;
  dlaf_pdsygvd(c, n, a, i1, j1, d, b, i2, j2, d2, w, z, i3, j3, d3, &info);
}
//@ law map_rejp_gen_i3 ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_gen_i3(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  i3 = bad + 1;
  dlaf_pdsygvd(c, n, a, i1, j1, d, b, i2, j2, d2, w, z, i3, j3, d3, &info);
}
//@ law map_rejp_gen_j1 ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_gen_j1(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  j1 = bad + 1;
  dlaf_pdsygvd(c, n, a, i1, j1, d, b, i2, j2, d2, w, z, i3, j3, d3, &info);
}
//@ law map_rejp_gen_j2 ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_gen_j2(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  j2 = bad + 1;
  dlaf_pdsygvd(c, n, a, i1, j1, d, b, i2, j2, d2, w, z, i3, j3, d3, &info);
}
//@ law map_rejp_gen_j3 ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_gen_j3(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  j3 = bad + 1;
  dlaf_pdsygvd(c, n, a, i1, j1, d, b, i2, j2, d2, w, z, i3, j3, d3, &info);
}
//@ law map_rejp_gen_type1 ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_gen_type1(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  d[0] = bad + 1;
  dlaf_pdsygvd(c, n, a, i1, j1, d, b, i2, j2, d2, w, z, i3, j3, d3, &info);
}
//@ law map_rejp_gen_type2 ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_gen_type2(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  d2[0] = bad + 1;
  dlaf_pdsygvd(c, n, a, i1, j1, d, b, i2, j2, d2, w, z, i3, j3, d3, &info);
}
//@ law map_rejp_gen_type3 ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_gen_type3(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  d3[0] = bad + 1;
  dlaf_pdsygvd(c, n, a, i1, j1, d, b, i2, j2, d2, w, z, i3, j3, d3, &info);
}
//@ law map_rejp_gen_ctx2 ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_gen_ctx2(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  d2[1] = k + bad;
  dlaf_pdsygvd(c, n, a, i1, j1, d, b, i2, j2, d2, w, z, i3, j3, d3, &info);
}
//@ law map_rejp_gen_ctx3 ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_gen_ctx3(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  d3[1] = k + bad;
  dlaf_pdsygvd(c, n, a, i1, j1, d, b, i2, j2, d2, w, z, i3, j3, d3, &info);
}
//@ law map_rej_gen_fac_i1 ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rej_gen_fac_i1(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  reset(); grids(k, k + 5, gr, gc, rr, rc); const char c = static_cast<char>(u); auto q = make(m, n, mb, nb, sr, sc, ld); auto q2 = second(q), q3 = third(q); (void) q2; (void) q3;
  q.i = bad;
  dlaf_symmetric_generalized_eigensolver_factorized_d(k, c, a, q, b, q2, w, z, q3);
}
//@ law map_rej_gen_fac_i2 ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rej_gen_fac_i2(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  reset(); grids(k, k + 5, gr, gc, rr, rc); const char c = static_cast<char>(u); auto q = make(m, n, mb, nb, sr, sc, ld); auto q2 = second(q), q3 = third(q); (void) q2; (void) q3;
  q2.i = bad;
  dlaf_symmetric_generalized_eigensolver_factorized_d(k, c, a, q, b, q2, w, z, q3);
}
//@ law map_rej_gen_fac_i3 ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rej_gen_fac_i3(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  reset(); grids(k, k + 5, gr, gc, rr, rc); const char c = static_cast<char>(u); auto q = make(m, n, mb, nb, sr, sc, ld); auto q2 = second(q), q3 = third(q); (void) q2; (void) q3;
  q3.i = bad;
  dlaf_symmetric_generalized_eigensolver_factorized_d(k, c, a, q, b, q2, w, z, q3);
}
//@ law map_rej_gen_fac_j1 ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rej_gen_fac_j1(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  reset(); grids(k, k + 5, gr, gc, rr, rc); const char c = static_cast<char>(u); auto q = make(m, n, mb, nb, sr, sc, ld); auto q2 = second(q), q3 = third(q); (void) q2; (void) q3;
  q.j = bad;
  dlaf_symmetric_generalized_eigensolver_factorized_d(k, c, a, q, b, q2, w, z, q3);
}
//@ law map_rej_gen_fac_j2 ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rej_gen_fac_j2(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  reset(); grids(k, k + 5, gr, gc, rr, rc); const char c = static_cast<char>(u); auto q = make(m, n, mb, nb, sr, sc, ld); auto q2 = second(q), q3 = third(q); (void) q2; (void) q3;
  q2.j = bad;
  dlaf_symmetric_generalized_eigensolver_factorized_d(k, c, a, q, b, q2, w, z, q3);
}
//@ law map_rej_gen_fac_j3 ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rej_gen_fac_j3(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  reset(); grids(k, k + 5, gr, gc, rr, rc); const char c = static_cast<char>(u); auto q = make(m, n, mb, nb, sr, sc, ld); auto q2 = second(q), q3 = third(q); (void) q2; (void) q3;
  q3.j = bad;
  dlaf_symmetric_generalized_eigensolver_factorized_d(k, c, a, q, b, q2, w, z, q3);
}
//@ law map_rejp_gen_fac_i1 ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_gen_fac_i1(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  i1 = bad + 1;
  dlaf_pdsygvd_factorized(c, n, a, i1, j1, d, b, i2, j2, d2, w, z, i3, j3, d3, &info);
}
//@ law map_rejp_gen_fac_i2 ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_gen_fac_i2(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  i2 = bad + 1;
  dlaf_pdsygvd_factorized(c, n, a, i1, j1, d, b, i2, j2, d2, w, z, i3, j3, d3, &info);
}
//@ law map_rejp_gen_fac_i3 ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_gen_fac_i3(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  i3 = bad + 1;
  dlaf_pdsygvd_factorized(c, n, a, i1, j1, d, b, i2, j2, d2, w, z, i3, j3, d3, &info);
}
//@ law map_rejp_gen_fac_j1 ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_gen_fac_j1(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  j1 = bad + 1;
  dlaf_pdsygvd_factorized(c, n, a, i1, j1, d, b, i2, j2, d2, w, z, i3, j3, d3, &info);
}
//@ law map_rejp_gen_fac_j2 ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_gen_fac_j2(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  j2 = bad + 1;
  dlaf_pdsygvd_factorized(c, n, a, i1, j1, d, b, i2, j2, d2, w, z, i3, j3, d3, &info);
}
//@ law map_rejp_gen_fac_j3 ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_gen_fac_j3(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  j3 = bad + 1;
  dlaf_pdsygvd_factorized(c, n, a, i1, j1, d, b, i2, j2, d2, w, z, i3, j3, d3, &info);
}
//@ law map_rejp_gen_fac_type1 ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_gen_fac_type1(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  d[0] = bad + 1;
  dlaf_pdsygvd_factorized(c, n, a, i1, j1, d, b, i2, j2, d2, w, z, i3, j3, d3, &info);
}
//@ law map_rejp_gen_fac_type2 ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_gen_fac_type2(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  d2[0] = bad + 1;
  dlaf_pdsygvd_factorized(c, n, a, i1, j1, d, b, i2, j2, d2, w, z, i3, j3, d3, &info);
}
//@ law map_rejp_gen_fac_type3 ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_gen_fac_type3(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  d3[0] = bad + 1;
  dlaf_pdsygvd_factorized(c, n, a, i1, j1, d, b, i2, j2, d2, w, z, i3, j3, d3, &info);
}
//@ law map_rejp_gen_fac_ctx2 ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_gen_fac_ctx2(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  d2[1] = k + bad;
  dlaf_pdsygvd_factorized(c, n, a, i1, j1, d, b, i2, j2, d2, w, z, i3, j3, d3, &info);
}
//@ law map_rejp_gen_fac_ctx3 ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, bad=-3..-1|1..9
extern "C" void rej_map_rejp_gen_fac_ctx3(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int bad) {
  START_P (void) a; (void) b; (void) z; (void) w; int i1 = 1, j1 = 1, i2 = 1, j2 = 1, i3 = 1, j3 = 1; (void) i2; (void) j2; (void) i3; (void) j3;
  dlaf_grids.try_emplace(k + bad, dlaf::comm::Communicator(MPI_Comm(24)), gr, gc, dlaf::common::Ordering::RowMajor);
  d3[1] = k + bad;
  dlaf_pdsygvd_factorized(c, n, a, i1, j1, d, b, i2, j2, d2, w, z, i3, j3, d3, &info);
}
//@ law map_rejp_eig_part_low ; about: src/c_api/eigensolver/eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=1..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, x=1..50
extern "C" void rej_map_rejp_eig_part_low(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int x) {
  START_P (void) a; (void) b; (void) z; (void) w;
  const S ib = -x + 1, ie = n;
  dlaf_pdsyevd_partial_spectrum(c, n, a, 1, 1, d, w, z, 1, 1, d3, ib, ie, &info);
}
//@ law map_rejp_eig_part_high ; about: src/c_api/eigensolver/eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=1..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, x=1..50
extern "C" void rej_map_rejp_eig_part_high(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int x) {
  START_P (void) a; (void) b; (void) z; (void) w;
  const S ib = 1, ie = n + x;
  dlaf_pdsyevd_partial_spectrum(c, n, a, 1, 1, d, w, z, 1, 1, d3, ib, ie, &info);
}
//@ law map_rejp_eig_part_order ; about: src/c_api/eigensolver/eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=2..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, x=1..50
extern "C" void rej_map_rejp_eig_part_order(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int x) {
  START_P (void) a; (void) b; (void) z; (void) w;
  const S ie = 1 + x % (n - 1), ib = ie + 1;
  dlaf_pdsyevd_partial_spectrum(c, n, a, 1, 1, d, w, z, 1, 1, d3, ib, ie, &info);
}
//@ law map_rejp_eig_part_empty_begin ; about: src/c_api/eigensolver/eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..0, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, x=1..50
extern "C" void rej_map_rejp_eig_part_empty_begin(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int x) {
  START_P (void) a; (void) b; (void) z; (void) w;
  const S ib = x + 1, ie = 0;
  dlaf_pdsyevd_partial_spectrum(c, n, a, 1, 1, d, w, z, 1, 1, d3, ib, ie, &info);
}
//@ law map_rejp_eig_part_empty_begin0 ; about: src/c_api/eigensolver/eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..0, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, x=1..50
extern "C" void rej_map_rejp_eig_part_empty_begin0(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int x) {
  START_P (void) a; (void) b; (void) z; (void) w;
  const S ib = 1 - x, ie = 0;
  dlaf_pdsyevd_partial_spectrum(c, n, a, 1, 1, d, w, z, 1, 1, d3, ib, ie, &info);
}
//@ law map_rejp_eig_part_empty_end ; about: src/c_api/eigensolver/eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..0, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, x=1..50
extern "C" void rej_map_rejp_eig_part_empty_end(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int x) {
  START_P (void) a; (void) b; (void) z; (void) w;
  const S ib = 1, ie = x;
  dlaf_pdsyevd_partial_spectrum(c, n, a, 1, 1, d, w, z, 1, 1, d3, ib, ie, &info);
}
//@ law map_rejp_eig_part_empty_end_neg ; about: src/c_api/eigensolver/eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..0, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, x=1..50
extern "C" void rej_map_rejp_eig_part_empty_end_neg(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int x) {
  START_P (void) a; (void) b; (void) z; (void) w;
  const S ib = 1, ie = -x;
  dlaf_pdsyevd_partial_spectrum(c, n, a, 1, 1, d, w, z, 1, 1, d3, ib, ie, &info);
}
//@ law map_rejp_gen_part_low ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=1..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, x=1..50
extern "C" void rej_map_rejp_gen_part_low(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int x) {
  START_P (void) a; (void) b; (void) z; (void) w;
  const S ib = -x + 1, ie = n;
  dlaf_pdsygvd_partial_spectrum(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, ib, ie, &info);
}
//@ law map_rejp_gen_part_high ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=1..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, x=1..50
extern "C" void rej_map_rejp_gen_part_high(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int x) {
  START_P (void) a; (void) b; (void) z; (void) w;
  const S ib = 1, ie = n + x;
  dlaf_pdsygvd_partial_spectrum(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, ib, ie, &info);
}
//@ law map_rejp_gen_part_order ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=2..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, x=1..50
extern "C" void rej_map_rejp_gen_part_order(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int x) {
  START_P (void) a; (void) b; (void) z; (void) w;
  const S ie = 1 + x % (n - 1), ib = ie + 1;
  dlaf_pdsygvd_partial_spectrum(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, ib, ie, &info);
}
//@ law map_rejp_gen_part_empty_begin ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..0, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, x=1..50
extern "C" void rej_map_rejp_gen_part_empty_begin(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int x) {
  START_P (void) a; (void) b; (void) z; (void) w;
  const S ib = x + 1, ie = 0;
  dlaf_pdsygvd_partial_spectrum(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, ib, ie, &info);
}
//@ law map_rejp_gen_part_empty_begin0 ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..0, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, x=1..50
extern "C" void rej_map_rejp_gen_part_empty_begin0(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int x) {
  START_P (void) a; (void) b; (void) z; (void) w;
  const S ib = 1 - x, ie = 0;
  dlaf_pdsygvd_partial_spectrum(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, ib, ie, &info);
}
//@ law map_rejp_gen_part_empty_end ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..0, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, x=1..50
extern "C" void rej_map_rejp_gen_part_empty_end(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int x) {
  START_P (void) a; (void) b; (void) z; (void) w;
  const S ib = 1, ie = x;
  dlaf_pdsygvd_partial_spectrum(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, ib, ie, &info);
}
//@ law map_rejp_gen_part_empty_end_neg ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..0, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, x=1..50
extern "C" void rej_map_rejp_gen_part_empty_end_neg(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int x) {
  START_P (void) a; (void) b; (void) z; (void) w;
  const S ib = 1, ie = -x;
  dlaf_pdsygvd_partial_spectrum(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, ib, ie, &info);
}
//@ law map_rejp_gen_fac_part_low ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=1..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, x=1..50
extern "C" void rej_map_rejp_gen_fac_part_low(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int x) {
  START_P (void) a; (void) b; (void) z; (void) w;
  const S ib = -x + 1, ie = n;
  dlaf_pdsygvd_partial_spectrum_factorized(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, ib, ie, &info);
}
//@ law map_rejp_gen_fac_part_high ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=1..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, x=1..50
extern "C" void rej_map_rejp_gen_fac_part_high(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int x) {
  START_P (void) a; (void) b; (void) z; (void) w;
  const S ib = 1, ie = n + x;
  dlaf_pdsygvd_partial_spectrum_factorized(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, ib, ie, &info);
}
//@ law map_rejp_gen_fac_part_order ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=2..9, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, x=1..50
extern "C" void rej_map_rejp_gen_fac_part_order(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int x) {
  START_P (void) a; (void) b; (void) z; (void) w;
  const S ie = 1 + x % (n - 1), ib = ie + 1;
  dlaf_pdsygvd_partial_spectrum_factorized(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, ib, ie, &info);
}
//@ law map_rejp_gen_fac_part_empty_begin ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..0, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, x=1..50
extern "C" void rej_map_rejp_gen_fac_part_empty_begin(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int x) {
  START_P (void) a; (void) b; (void) z; (void) w;
  const S ib = x + 1, ie = 0;
  dlaf_pdsygvd_partial_spectrum_factorized(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, ib, ie, &info);
}
//@ law map_rejp_gen_fac_part_empty_begin0 ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..0, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, x=1..50
extern "C" void rej_map_rejp_gen_fac_part_empty_begin0(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int x) {
  START_P (void) a; (void) b; (void) z; (void) w;
  const S ib = 1 - x, ie = 0;
  dlaf_pdsygvd_partial_spectrum_factorized(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, ib, ie, &info);
}
//@ law map_rejp_gen_fac_part_empty_end ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..0, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, x=1..50
extern "C" void rej_map_rejp_gen_fac_part_empty_end(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int x) {
  START_P (void) a; (void) b; (void) z; (void) w;
  const S ib = 1, ie = x;
  dlaf_pdsygvd_partial_spectrum_factorized(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, ib, ie, &info);
}
//@ law map_rejp_gen_fac_part_empty_end_neg ; about: src/c_api/eigensolver/gen_eigensolver.h ; dom: k=-3..2147483000, u={76,85}, a=ptr, b=ptr, z=ptr, w=ptr, m=0..9, n=0..0, mb=1..4, nb=1..4, sr=0..1, sc=0..2, ld=11..20, gr=2..3, gc=3..4, rr=0..1, rc=0..2, x=1..50
extern "C" void rej_map_rejp_gen_fac_part_empty_end_neg(int k, int u, double* a, double* b, double* z, double* w, int m, int n, int mb, int nb, int sr, int sc, int ld, int gr, int gc, int rr, int rc, int x) {
  START_P (void) a; (void) b; (void) z; (void) w;
  const S ib = 1, ie = -x;
  dlaf_pdsygvd_partial_spectrum_factorized(c, n, a, 1, 1, d, b, 1, 1, d2, w, z, 1, 1, d3, ib, ie, &info);
}
