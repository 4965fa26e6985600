// P34 Public entry points reject arguments outside their domain and hand the others to the implementation they name
//@ src: src/matrix/distribution.cpp
#include <dlaf/eigensolver/band_to_tridiag/api.h>
#include <dlaf/eigensolver/bt_band_to_tridiag.h>
#include <dlaf/eigensolver/bt_reduction_to_band.h>
#include <dlaf/eigensolver/gen_to_std.h>
#include <dlaf/eigensolver/reduction_to_band.h>
#include <dlaf/eigensolver/tridiag_solver.h>
#include <dlaf/eigensolver/eigensolver.h>
#include <dlaf/eigensolver/gen_eigensolver.h>
#include <dlaf/factorization/cholesky.h>
#include <dlaf/inverse/cholesky.h>
#include <dlaf/inverse/triangular.h>
#include <dlaf/multiplication/general.h>
#include <dlaf/multiplication/hermitian.h>
#include <dlaf/multiplication/triangular.h>
#include <dlaf/permutations/general.h>
#include <dlaf/solver/triangular.h>
// The implementations are replaced, for a combination of backend and device that the library does not instantiate, by
// functions that write down which of them was called with which arguments.
using namespace dlaf;
using matrix::Matrix;
using matrix::internal::MatrixRef;
constexpr auto X = Backend::GPU;
constexpr auto C = Device::CPU;
using M = Matrix<double, C>;
using CM = Matrix<const double, C>;
using R = MatrixRef<double, C>;
using CR = MatrixRef<const double, C>;
namespace rec {
inline long what;          // sequence of the calls
inline const void *p[5], *g;
inline long s[4];
inline double d[2];
static void call(long k) { what = what * 64 + k; }
}
namespace dlaf::eigensolver::internal {
template <>
struct BandToTridiag<X, C, double> {
  static TridiagResult<double, C> call_L(const SizeType b, CM& a) noexcept;
  static TridiagResult<double, C> call_L(comm::CommunicatorGrid& g, const SizeType b, CM& a) noexcept;
};
}
#include <dlaf/eigensolver/band_to_tridiag.h>
extern M verif_matrix();
extern eigensolver::internal::TridiagResult<double, C> verif_tridiag();
#define GRID comm::CommunicatorGrid& g
#define G0 rec::g = nullptr
#define G1 rec::g = &g
namespace dlaf::factorization::internal {
template <> void Cholesky<X, C, double>::call_L(M& a) { G0; rec::p[0] = &a; rec::call(1); }
template <> void Cholesky<X, C, double>::call_U(M& a) { G0; rec::p[0] = &a; rec::call(2); }
template <> void Cholesky<X, C, double>::call_L(GRID, M& a) { G1; rec::p[0] = &a; rec::call(3); }
template <> void Cholesky<X, C, double>::call_U(GRID, M& a) { G1; rec::p[0] = &a; rec::call(4); }
}
namespace dlaf::inverse::internal {
template <> void Triangular<X, C, double>::call_L(blas::Diag d, M& a) { G0; rec::p[0] = &a; rec::s[0] = long(d); rec::call(1); }
template <> void Triangular<X, C, double>::call_U(blas::Diag d, M& a) { G0; rec::p[0] = &a; rec::s[0] = long(d); rec::call(2); }
template <> void Triangular<X, C, double>::call_L(GRID, blas::Diag d, M& a) { G1; rec::p[0] = &a; rec::s[0] = long(d); rec::call(3); }
template <> void Triangular<X, C, double>::call_U(GRID, blas::Diag d, M& a) { G1; rec::p[0] = &a; rec::s[0] = long(d); rec::call(4); }
template <> void AssembleCholeskyInverse<X, C, double>::call_L(M& a) { rec::p[1] = &a; rec::call(5); }
template <> void AssembleCholeskyInverse<X, C, double>::call_U(M& a) { rec::p[1] = &a; rec::call(6); }
template <> void AssembleCholeskyInverse<X, C, double>::call_L(GRID, M& a) { rec::p[1] = &a; rec::p[2] = &g; rec::call(7); }
template <> void AssembleCholeskyInverse<X, C, double>::call_U(GRID, M& a) { rec::p[1] = &a; rec::p[2] = &g; rec::call(8); }
}
#define SOLVE(N, K) \
  template <> void Triangular<X, C, double>::call_##N(blas::Diag d, double al, CM& a, T2& b) { G0; keep(d, al, a, b); rec::s[1] = long(blas::Op::NoTrans); rec::call(K); } \
  template <> void Triangular<X, C, double>::call_##N(GRID, blas::Diag d, double al, CM& a, T2& b) { G1; keep(d, al, a, b); rec::s[1] = long(blas::Op::NoTrans); rec::call(K + 1); }
#define SOLVET(N, K) \
  template <> void Triangular<X, C, double>::call_##N(blas::Op op, blas::Diag d, double al, CM& a, T2& b) { G0; keep(d, al, a, b); rec::s[1] = long(op); rec::call(K); }
#define SOLVETG(N, K) \
  template <> void Triangular<X, C, double>::call_##N(GRID, blas::Op op, blas::Diag d, double al, CM& a, T2& b) { G1; keep(d, al, a, b); rec::s[1] = long(op); rec::call(K); }
namespace dlaf::solver::internal {
using T2 = R;
template <> void triangular_solver_zero_alpha<X, C, double>(R& b) { rec::p[1] = &b; rec::call(9); }
static void keep(blas::Diag d, double al, CM& a, R& b) { rec::s[0] = long(d); rec::d[0] = al; rec::p[0] = &a; rec::p[1] = &b; }
SOLVE(LLN, 1) SOLVE(LUN, 3) SOLVE(RLN, 5) SOLVE(RUN, 7) SOLVET(LLT, 1) SOLVETG(LLT, 2) SOLVET(LUT, 3) SOLVETG(LUT, 4) SOLVET(RLT, 5) SOLVETG(RLT, 6) SOLVET(RUT, 7) SOLVETG(RUT, 8)
}
namespace dlaf::multiplication::internal {
using T2 = M;
static void keep(blas::Diag d, double al, CM& a, M& b) { rec::s[0] = long(d); rec::d[0] = al; rec::p[0] = &a; rec::p[1] = &b; }
SOLVE(LLN, 1) SOLVE(LUN, 3) SOLVE(RLN, 5) SOLVE(RUN, 7) SOLVET(LLT, 1) SOLVET(LUT, 3) SOLVET(RLT, 5) SOLVET(RUT, 7)
static void keep(double al, const void* a, const void* b, double be, const void* c) { rec::d[0] = al; rec::d[1] = be; rec::p[0] = a; rec::p[1] = b; rec::p[2] = c; }
template <> void Hermitian<X, C, double>::call_LL(const double al, CM& a, CM& b, const double be, M& c) { G0; keep(al, &a, &b, be, &c); rec::call(1); }
template <> void Hermitian<X, C, double>::call_LL(GRID, const double al, CM& a, CR& b, const double be, M& c) { G1; keep(al, &a, &b, be, &c); rec::call(2); }
template <> void General<X, C, double>::callNN(const double al, CR& a, CR& b, const double be, R& c) { G0; keep(al, &a, &b, be, &c); rec::call(1); }
}
namespace dlaf::eigensolver::internal {
template <> void GenToStd<X, C, double>::call_L(M& a, M& b) { G0; rec::p[0] = &a; rec::p[1] = &b; rec::call(1); }
template <> void GenToStd<X, C, double>::call_U(M& a, M& b) { G0; rec::p[0] = &a; rec::p[1] = &b; rec::call(2); }
template <> void GenToStd<X, C, double>::call_L(GRID, M& a, M& b) { G1; rec::p[0] = &a; rec::p[1] = &b; rec::call(3); }
template <> void GenToStd<X, C, double>::call_U(GRID, M& a, M& b) { G1; rec::p[0] = &a; rec::p[1] = &b; rec::call(4); }
template <> M ReductionToBand<X, C, double>::call(M& a, const SizeType n) { G0; rec::p[0] = &a; rec::s[0] = n; rec::call(1); return verif_matrix(); }
template <> M ReductionToBand<X, C, double>::call(GRID, M& a, const SizeType n) { G1; rec::p[0] = &a; rec::s[0] = n; rec::call(2); return verif_matrix(); }
TridiagResult<double, C> BandToTridiag<X, C, double>::call_L(const SizeType n, CM& a) noexcept { G0; rec::p[0] = &a; rec::s[0] = n; rec::call(1); return verif_tridiag(); }
TridiagResult<double, C> BandToTridiag<X, C, double>::call_L(GRID, const SizeType n, CM& a) noexcept { G1; rec::p[0] = &a; rec::s[0] = n; rec::call(2); return verif_tridiag(); }
template <> void BackTransformationReductionToBand<X, C, double>::call(SizeType n, R& c, CM& v, CM& t) { G0; rec::s[0] = n; rec::p[0] = &c; rec::p[1] = &v; rec::p[2] = &t; rec::call(1); }
template <> void BackTransformationReductionToBand<X, C, double>::call(GRID, SizeType n, R& c, CM& v, CM& t) { G1; rec::s[0] = n; rec::p[0] = &c; rec::p[1] = &v; rec::p[2] = &t; rec::call(2); }
template <> void BackTransformationT2B<X, C, double>::call(SizeType n, R& c, CM& v) { G0; rec::s[0] = n; rec::p[0] = &c; rec::p[1] = &v; rec::call(1); }
template <> void BackTransformationT2B<X, C, double>::call(GRID, SizeType n, R& c, CM& v) { G1; rec::s[0] = n; rec::p[0] = &c; rec::p[1] = &v; rec::call(2); }
template <> void TridiagSolver<X, C, double>::call(M& t, M& w, M& z) { G0; rec::p[0] = &t; rec::p[1] = &w; rec::p[2] = &z; rec::call(1); }
template <> void TridiagSolver<X, C, double>::call(GRID, M& t, M& w, M& z) { G1; rec::p[0] = &t; rec::p[1] = &w; rec::p[2] = &z; rec::call(2); }
template <> void Eigensolver<X, C, double>::call(blas::Uplo u, M& a, M& w, M& z, SizeType i, SizeType e) { G0; rec::s[0] = long(u); rec::s[1] = i; rec::s[2] = e; rec::p[0] = &a; rec::p[1] = &w; rec::p[2] = &z; rec::call(1); }
template <> void Eigensolver<X, C, double>::call(GRID, blas::Uplo u, M& a, M& w, M& z, SizeType i, SizeType e) { G1; rec::s[0] = long(u); rec::s[1] = i; rec::s[2] = e; rec::p[0] = &a; rec::p[1] = &w; rec::p[2] = &z; rec::call(2); }
template <> void GenEigensolver<X, C, double>::call(blas::Uplo u, M& a, M& b, M& w, M& z, Factorization f, SizeType i, SizeType e) { G0; rec::s[0] = long(u); rec::s[1] = i; rec::s[2] = e; rec::s[3] = long(f); rec::p[0] = &a; rec::p[1] = &w; rec::p[2] = &z; rec::p[3] = &b; rec::call(1); }
template <> void GenEigensolver<X, C, double>::call(GRID, blas::Uplo u, M& a, M& b, M& w, M& z, Factorization f, SizeType i, SizeType e) { G1; rec::s[0] = long(u); rec::s[1] = i; rec::s[2] = e; rec::s[3] = long(f); rec::p[0] = &a; rec::p[1] = &w; rec::p[2] = &z; rec::p[3] = &b; rec::call(2); }
}
namespace dlaf::permutations::internal {
template <> void Permutations<X, C, double, Coord::Row>::call(SizeType i, SizeType e, Matrix<const SizeType, C>& p, CM& a, M& b) { rec::s[0] = i; rec::s[1] = e; rec::p[0] = &p; rec::p[1] = &a; rec::p[2] = &b; rec::call(1); }
template <> void Permutations<X, C, double, Coord::Col>::call(SizeType i, SizeType e, Matrix<const SizeType, C>& p, CM& a, M& b) { rec::s[0] = i; rec::s[1] = e; rec::p[0] = &p; rec::p[1] = &a; rec::p[2] = &b; rec::call(2); }
}
namespace {
struct Probe : comm::CommunicatorGrid {
  void set(int r, int c, int i, int j) { grid_size_ = {r, c}; position_ = {i, j}; }
};
// what is known about a matrix: size, block, tiles per block, grid, rank
struct Dim {
  long m, n, bm, bn, pm = 1, pn = 1;
  int gr = 1, gc = 1, i = 0, j = 0;
  bool square() const { return m == n; }
  bool square_block() const { return bm == bn; }
  bool square_tile() const { return bm / pm == bn / pn; }
  bool single() const { return pm == 1 && pn == 1; }
  bool local() const { return gr == 1 && gc == 1; }
  bool on(const Dim& o) const { return gr == o.gr && gc == o.gc && i == o.i && j == o.j; }
};
template <class T>
struct Store {
  alignas(T) inline static unsigned char raw[5][sizeof(T)];
};
template <class T = M, int K>
T& make(const Dim& d) {
  using matrix::Distribution;
  M* p = reinterpret_cast<M*>(Store<M>::raw[K]);
  new (static_cast<matrix::internal::MatrixBase*>(p))
      matrix::internal::MatrixBase(Distribution(GlobalElementSize(d.m, d.n), GlobalElementSize(d.bm, d.bn), TileElementSize(d.bm / d.pm, d.bn / d.pn), comm::Size2D(d.gr, d.gc), comm::Index2D(d.i, d.j), comm::Index2D(0, 0)));
  return *p;
}
comm::CommunicatorGrid& grid(const Dim& d) {
  alignas(Probe) static unsigned char raw[sizeof(Probe)];
  Probe* p = reinterpret_cast<Probe*>(raw);
  p->set(d.gr, d.gc, d.i, d.j);
  return *p;
}
void need(bool b) { if (!b) verif_stop(); }
}
// one matrix: size, block, tiles per block; square cases are frequent
//@ def A = m=0..3, n=m|m|m|0..3, b=1..4, e=b|b|b|1..4, q=1|1|1|1..2, r=1|1|1|1..2
// process grids of the call and of the matrix, and the positions in them
//@ def G = x=1..2, y=1..2, i=0..x-1, j=0..y-1, v=x|x|x|1..2, w=y|y|y|1..2, k=i|i|i|0..v-1, l=j|j|j|0..w-1
//@ def L = x=1|1|1|1..2, y=1|1|1|1..2
//@ def O = initial=1 ; n=8000 ; unroll=4
#define AP long m, long n, long b, long e, long q, long r
#define GP int x, int y, int i, int j, int v, int w, int k, int l
#define UPLO(u) (u == 1 ? blas::Uplo::Upper : u == 0 ? blas::Uplo::Lower : blas::Uplo::General)
namespace {
void sane(const Dim& d) { verif::assume(d.bm % d.pm == 0 && d.bn % d.pn == 0 && d.i < d.gr && d.j < d.gc); }
const void* at(comm::CommunicatorGrid* g) { return g; }
struct Call {   // the grid of the call: none for the local variants
  Dim d;
  comm::CommunicatorGrid* g = nullptr;
  explicit Call(int) {}
  Call(int x, int y, int i, int j) { d.gr = x; d.gc = y; d.i = i; d.j = j; g = &grid(d); }
  bool fits(const Dim& a) const { return g ? a.on(d) : a.local(); }
};
long result(const Call& c, bool same) { return rec::what * 2 + (same && rec::g == at(c.g)); }
void expect(const Call& c, long k) { rec::what = k; rec::g = at(c.g); }
}
#define COMMA ,
// local / distributed pair of laws: F(call, dimensions of the matrices, further arguments, run the real function?)
#define PAIR(NAME, P, Q) \
  extern "C" long impl_##NAME(AP, int x, int y P) { return NAME(Call(0), Dim{m, n, b, e, q, r, x, y} Q, true); } \
  extern "C" long spec_##NAME(AP, int x, int y P) { return NAME(Call(0), Dim{m, n, b, e, q, r, x, y} Q, false); } \
  extern "C" long impl_##NAME##_grid(AP, GP P) { return NAME(Call(x, y, i, j), Dim{m, n, b, e, q, r, v, w, k, l} Q, true); } \
  extern "C" long spec_##NAME##_grid(AP, GP P) { return NAME(Call(x, y, i, j), Dim{m, n, b, e, q, r, v, w, k, l} Q, false); }

//@ law cholesky ; about: include/dlaf/factorization/cholesky.h: cholesky_factorization (local) ; dom: $A, $L, u=0..1 ; $O
//@ law cholesky_grid ; about: include/dlaf/factorization/cholesky.h: cholesky_factorization (distributed) ; dom: $A, $G, u=0..1 ; $O
static long cholesky(const Call& c, const Dim& d, int u, bool real) {
  sane(d);
  M& a = make<M, 0>(d);
  if (!real)
    need(d.square() && d.square_block() && d.single() && c.fits(d)), rec::p[0] = &a, expect(c, (c.g ? 3 : 1) + u);
  else if (c.g)
    cholesky_factorization<X, C, double>(*c.g, UPLO(u), a);
  else
    cholesky_factorization<X, C, double>(UPLO(u), a);
  return result(c, rec::p[0] == &a);
}
PAIR(cholesky, COMMA int u, COMMA u)
//@ law tri_inverse ; about: include/dlaf/inverse/triangular.h: triangular_inverse (local) ; dom: $A, $L, u=0..1, z=0..1 ; $O
//@ law tri_inverse_grid ; about: include/dlaf/inverse/triangular.h: triangular_inverse (distributed) ; dom: $A, $G, u=0..1, z=0..1 ; $O
static long tri_inverse(const Call& c, const Dim& d, int u, int z, bool real) {
  sane(d);
  M& a = make<M, 0>(d);
  const auto diag = z ? blas::Diag::Unit : blas::Diag::NonUnit;
  if (!real)
    need(d.square() && d.square_tile() && c.fits(d)), rec::p[0] = &a, rec::s[0] = long(diag), expect(c, (c.g ? 3 : 1) + u);
  else if (c.g)
    triangular_inverse<X, C, double>(*c.g, UPLO(u), diag, a);
  else
    triangular_inverse<X, C, double>(UPLO(u), diag, a);
  return result(c, rec::p[0] == &a && rec::s[0] == long(diag));
}
PAIR(tri_inverse, COMMA int u COMMA int z, COMMA u COMMA z)
//@ law cholesky_inverse ; about: include/dlaf/inverse/cholesky.h: inverse_from_cholesky_factor (local) ; dom: $A, $L, u=0..1 ; $O
//@ law cholesky_inverse_grid ; about: include/dlaf/inverse/cholesky.h: inverse_from_cholesky_factor (distributed) ; dom: $A, $G, u=0..1 ; $O
static long cholesky_inverse(const Call& c, const Dim& d, int u, bool real) {
  sane(d);
  M& a = make<M, 0>(d);
  rec::s[0] = long(blas::Diag::NonUnit);
  if (!real)
    need(d.square() && d.square_tile() && c.fits(d)), rec::p[0] = rec::p[1] = &a, rec::p[2] = c.g, expect(c, c.g ? (3 + u) * 64 + 7 + u : (1 + u) * 64 + 5 + u);
  else if (c.g)
    inverse_from_cholesky_factor<X, C, double>(*c.g, UPLO(u), a);
  else
    inverse_from_cholesky_factor<X, C, double>(UPLO(u), a);
  return result(c, rec::p[0] == &a && rec::p[1] == &a && rec::p[2] == at(c.g) && rec::s[0] == long(blas::Diag::NonUnit));
}
PAIR(cholesky_inverse, COMMA int u, COMMA u)
//@ law reduction ; about: include/dlaf/eigensolver/reduction_to_band.h: reduction_to_band (local) ; dom: $A, $L, s=-2..4|1..4|2..3 ; $O
//@ law reduction_grid ; about: include/dlaf/eigensolver/reduction_to_band.h: reduction_to_band (distributed) ; dom: $A, $G, s=-2..4|1..4|2..3 ; $O
static long reduction(const Call& c, const Dim& d, long s, bool real) {
  sane(d);
  M& a = make<M, 0>(d);
  alignas(M) static unsigned char to[sizeof(M)];
  if (!real)
    need(d.square() && d.square_block() && d.single() && c.fits(d) && s >= 2), need(d.bm % s == 0), rec::p[0] = &a, rec::s[0] = s, expect(c, c.g ? 2 : 1), new (to) M(verif_matrix());
  else if (c.g)
    new (to) M(eigensolver::internal::reduction_to_band<X, C, double>(*c.g, a, s));
  else
    new (to) M(eigensolver::internal::reduction_to_band<X, C, double>(a, s));
  return result(c, rec::p[0] == &a && rec::s[0] == s);
}
PAIR(reduction, COMMA long s, COMMA s)
//@ law tridiagonal ; about: include/dlaf/eigensolver/band_to_tridiag.h: band_to_tridiagonal (local) ; dom: $A, $L, s=-2..4|1..4|2..3, u=0|0|0..2 ; $O
//@ law tridiagonal_grid ; about: include/dlaf/eigensolver/band_to_tridiag.h: band_to_tridiagonal (distributed) ; dom: $A, $G, s=-2..4|1..4|2..3, u=0|0|0..2 ; $O
static long tridiagonal(const Call& c, const Dim& d, long s, int u, bool real) {
  sane(d);
  M& a = make<M, 0>(d);
  using T = eigensolver::internal::TridiagResult<double, C>;
  alignas(T) static unsigned char to[sizeof(T)];
  const bool one = c.g && c.d.local();   // a grid of one process runs the local variant
  if (!real)
    need(d.square() && d.square_block() && d.single() && c.fits(d) && s >= 2 && u == 0), need(d.bm % s == 0), rec::p[0] = &a, rec::s[0] = s, expect(one ? Call(0) : c, c.g && !one ? 2 : 1), new (to) T(verif_tridiag());
  else if (c.g)
    new (to) T(eigensolver::internal::band_to_tridiagonal<X, C, double>(*c.g, UPLO(u), s, a));
  else
    new (to) T(eigensolver::internal::band_to_tridiagonal<X, C, double>(UPLO(u), s, a));
  return result(one ? Call(0) : c, rec::p[0] == &a && rec::s[0] == s);
}
PAIR(tridiagonal, COMMA long s COMMA int u, COMMA s COMMA u)

// two matrices: the second one follows the first in most cases
//@ def BB = o=b|b|b|1..4, p=e|e|e|1..4, s=1|1|1|1..2, t=1|1|1|1..2
//@ def B = f=m|m|m|0..3, h=n|n|n|0..3, $BB
//@ def H = c=x|x|x|1..2, d=y|y|y|1..2, g=i|i|i|0..c-1, z=j|j|j|0..d-1
//@ def LL = $L, c=1|1|1|1..2, d=1|1|1|1..2
#define BP , long f, long h, long o, long p, long s, long t
#define PAIR2(NAME, P, Q) \
  extern "C" long impl_##NAME(AP BP, int x, int y, int c, int d P) { return NAME(Call(0), Dim{m, n, b, e, q, r, x, y}, Dim{f, h, o, p, s, t, c, d} Q, true); } \
  extern "C" long spec_##NAME(AP BP, int x, int y, int c, int d P) { return NAME(Call(0), Dim{m, n, b, e, q, r, x, y}, Dim{f, h, o, p, s, t, c, d} Q, false); } \
  extern "C" long impl_##NAME##_grid(AP BP, GP, int c, int d, int g, int z P) { return NAME(Call(x, y, i, j), Dim{m, n, b, e, q, r, v, w, k, l}, Dim{f, h, o, p, s, t, c, d, g, z} Q, true); } \
  extern "C" long spec_##NAME##_grid(AP BP, GP, int c, int d, int g, int z P) { return NAME(Call(x, y, i, j), Dim{m, n, b, e, q, r, v, w, k, l}, Dim{f, h, o, p, s, t, c, d, g, z} Q, false); }
//@ law generalized ; about: include/dlaf/eigensolver/gen_to_std.h: generalized_to_standard (local) ; dom: $A, $B, $LL, u=0..1|0..2 ; $O
//@ law generalized_grid ; about: include/dlaf/eigensolver/gen_to_std.h: generalized_to_standard (distributed) ; dom: $A, $B, $G, $H, u=0..1|0..2 ; $O
static long generalized(const Call& c, const Dim& d, const Dim& k, int u, bool real) {
  sane(d), sane(k);
  M &a = make<M, 0>(d), &l = make<M, 1>(k);
  if (!real)
    need(d.square() && d.square_block() && d.single() && c.fits(d) && k.single() && c.fits(k) && k.m == d.m && k.n == d.n && k.bm == d.bm && k.bn == d.bn && u < 2), rec::p[0] = &a, rec::p[1] = &l, expect(c, (c.g ? 3 : 1) + u);
  else if (c.g)
    eigensolver::internal::generalized_to_standard<X, C, double>(*c.g, UPLO(u), a, l);
  else
    eigensolver::internal::generalized_to_standard<X, C, double>(UPLO(u), a, l);
  return result(c, rec::p[0] == &a && rec::p[1] == &l);
}
PAIR2(generalized, COMMA int u, COMMA u)
//@ law bt_reduction ; about: include/dlaf/eigensolver/bt_reduction_to_band.h: bt_reduction_to_band (local) ; dom: m=0..5, n=m|m|m|0..5, b=1..4, e=b|b|b|1..4, q=1|1|1|1..2, r=1|1|1|1..2, $B, $LL, u=0..5, N=0..5 ; $O
static long bt_reduction(const Call& c, const Dim& d, const Dim& k, long u, long N, bool real) {
  sane(d), sane(k);
  M &v = make<M, 0>(d), &e = make<M, 1>(k), &t = make<M, 2>(Dim{N, 1, 1, 1});
  R er(e);
  if (!real) {
    const long last = d.m - u - 1;
    need(d.square() && d.square_block() && d.single() && c.fits(d) && k.single() && c.fits(k) && k.m == d.m && k.bm == d.bm && N == (last <= 0 ? 0 : (last + d.bm - 1) / d.bm));
    rec::p[0] = &er, rec::p[1] = &v, rec::p[2] = &t, rec::s[0] = u, expect(c, 1);
  } else
    eigensolver::internal::bt_reduction_to_band<X, C, double>(u, er, v, t);
  return result(c, rec::p[0] == &er && rec::p[1] == &v && rec::p[2] == &t && rec::s[0] == u);
}
extern "C" long impl_bt_reduction(AP BP, int x, int y, int c, int d, long u, long N) { return bt_reduction(Call(0), Dim{m, n, b, e, q, r, x, y}, Dim{f, h, o, p, s, t, c, d}, u, N, true); }
extern "C" long spec_bt_reduction(AP BP, int x, int y, int c, int d, long u, long N) { return bt_reduction(Call(0), Dim{m, n, b, e, q, r, x, y}, Dim{f, h, o, p, s, t, c, d}, u, N, false); }
//@ law bt_reduction_grid ; about: include/dlaf/eigensolver/bt_reduction_to_band.h: bt_reduction_to_band (distributed) ; dom: m=0..7, n=m|m|m|0..5, b=1..4|1..2, e=b|b|b|1..4, q=1|1|1|1..2, r=1|1|1|1..2, $B, $G, $H, u=0..5, N=0..4|0..2 ; $O
static long bt_reduction_grid(const Call& c, const Dim& d, const Dim& k, long u, long N, bool real) {
  sane(d), sane(k);
  M &v = make<M, 0>(d), &e = make<M, 1>(k), &t = make<M, 2>(Dim{N, 1, 1, 1});
  R er(e);
  if (!real) {
    need(d.square() && d.square_block() && d.single() && c.fits(d) && k.single() && c.fits(k) && k.m == d.m && k.bm == d.bm);
    const long blocks = d.m - u - 1 <= 0 ? 0 : (d.m - u - 1 + d.bm - 1) / d.bm;   // columns of tiles with reflectors; how many of them are here?
    need(N == (blocks + d.gc - 1 - d.j) / d.gc);
    rec::p[0] = &er, rec::p[1] = &v, rec::p[2] = &t, rec::s[0] = u, expect(c, 2);
  } else
    eigensolver::internal::bt_reduction_to_band<X, C, double>(*c.g, u, er, v, t);
  return result(c, rec::p[0] == &er && rec::p[1] == &v && rec::p[2] == &t && rec::s[0] == u);
}
extern "C" long impl_bt_reduction_grid(AP BP, GP, int c, int d, int g, int z, long u, long N) { return bt_reduction_grid(Call(x, y, i, j), Dim{m, n, b, e, q, r, v, w, k, l}, Dim{f, h, o, p, s, t, c, d, g, z}, u, N, true); }
extern "C" long spec_bt_reduction_grid(AP BP, GP, int c, int d, int g, int z, long u, long N) { return bt_reduction_grid(Call(x, y, i, j), Dim{m, n, b, e, q, r, v, w, k, l}, Dim{f, h, o, p, s, t, c, d, g, z}, u, N, false); }
//@ law bt_tridiagonal ; about: include/dlaf/eigensolver/bt_band_to_tridiag.h: bt_band_to_tridiagonal (local) ; dom: $A, $B, $LL, u=-2..4|1..4|2..3 ; $O
//@ law bt_tridiagonal_grid ; about: include/dlaf/eigensolver/bt_band_to_tridiag.h: bt_band_to_tridiagonal (distributed) ; dom: $A, $B, $G, $H, u=-2..4|1..4|2..3 ; $O
static long bt_tridiagonal(const Call& c, const Dim& d, const Dim& k, long u, bool real) {
  sane(d), sane(k);
  M &v = make<M, 0>(d), &e = make<M, 1>(k);
  R er(e);
  if (!real)
    need(d.square() && d.square_block() && d.single() && c.fits(d) && k.single() && c.fits(k) && k.m == d.m && k.bm == d.bm && u >= 2), need(d.bm % u == 0), rec::p[0] = &er, rec::p[1] = &v, rec::s[0] = u, expect(c, c.g ? 2 : 1);
  else if (c.g)
    eigensolver::internal::bt_band_to_tridiagonal<X, C, double>(*c.g, u, er, v);
  else
    eigensolver::internal::bt_band_to_tridiagonal<X, C, double>(u, er, v);
  return result(c, rec::p[0] == &er && rec::p[1] == &v && rec::s[0] == u);
}
PAIR2(bt_tridiagonal, COMMA long u, COMMA u)

// the first tile has the size of the matrix when that is smaller
static bool multipliable(const Dim& a, const Dim& b, const Dim& c, bool ta, bool tb) {
  const auto t = [](const Dim& d, bool tr, bool row) { return tr != row ? d.m : d.n; };
  const auto s = [](const Dim& d, bool tr, bool row) { return tr != row ? d.bm / d.pm : d.bn / d.pn; };
  const bool sizes = t(a, ta, true) == t(c, false, true) && t(a, ta, false) == t(b, tb, true) && t(b, tb, false) == t(c, false, false);
  if (a.m == 0 || a.n == 0 || c.m == 0 || c.n == 0) return sizes;
  return sizes && a.on(b) && b.on(c) && s(a, ta, true) == s(c, false, true) && s(a, ta, false) == s(b, tb, true) && s(b, tb, false) == s(c, false, false);
}
//@ def SDU = S=0..1, U=0..1, T=0..2, D=0..1, al={-1,2,0}
//@ def K = f=m|m|m|0..3, h=m|0..3, o=b|b|b|1..4, p=b|1..4, s=1|1|1|1..2, t=1|1|1|1..2
#define SP , int S, int U, int T, int D, double al
#define SQ , S, U, T, D, al
#define OPTIONS \
  const auto side = S ? blas::Side::Right : blas::Side::Left; \
  const auto op = T == 0 ? blas::Op::NoTrans : T == 1 ? blas::Op::Trans : blas::Op::ConjTrans; \
  const auto diag = D ? blas::Diag::Unit : blas::Diag::NonUnit
//@ law tri_solver ; about: include/dlaf/solver/triangular.h: triangular_solver (local) ; dom: $A, $K, $LL, $SDU ; $O
//@ law tri_solver_grid ; about: include/dlaf/solver/triangular.h: triangular_solver (distributed) ; dom: $A, $K, $G, $H, $SDU ; $O
static long tri_solver(const Call& c, const Dim& d, const Dim& k, int S, int U, int T, int D, double al, bool real) {
  sane(d), sane(k);
  OPTIONS;
  M &a = make<M, 0>(d), &b = make<M, 1>(k);
  R br(b);
  if (!real) {
    need(d.square() && d.square_block() && d.single() && k.single() && c.fits(d) && c.fits(k) && (S ? multipliable(k, d, k, false, T) : multipliable(d, k, k, T, false)));
    rec::p[0] = &a, rec::p[1] = &br, rec::s[0] = long(diag), rec::s[1] = long(op), rec::d[0] = al, expect(c, S * 4 + U * 2 + 1 + (c.g ? 1 : 0));
    if (al == 0) rec::what = 9;
  } else if (c.g)
    solver::internal::triangular_solver<X, C, double>(*c.g, side, UPLO(U), op, diag, al, a, br);
  else
    solver::internal::triangular_solver<X, C, double>(side, UPLO(U), op, diag, al, a, br);
  if (al == 0) return rec::what * 2 + (rec::p[1] == &br);
  return result(c, rec::p[0] == &a && rec::p[1] == &br && rec::s[0] == long(diag) && rec::s[1] == long(op) && rec::d[0] == al);
}
PAIR2(tri_solver, SP, SQ)
//@ law triangular ; about: include/dlaf/multiplication/triangular.h: triangular_multiplication (local) ; dom: $A, $K, $LL, $SDU ; $O
//@ law triangular_grid ; about: include/dlaf/multiplication/triangular.h: triangular_multiplication (distributed) ; dom: $A, $K, $G, $H, $SDU ; $O
static long triangular(const Call& c, const Dim& d, const Dim& k, int S, int U, int T, int D, double al, bool real) {
  sane(d), sane(k);
  OPTIONS;
  M &a = make<M, 0>(d), &b = make<M, 1>(k);
  if (!real) {
    need(d.square() && d.square_block() && d.single() && k.single() && c.fits(d) && c.fits(k) && (S ? multipliable(k, d, k, false, T) : multipliable(d, k, k, T, false)));
    need(!c.g || T == 0);   // not implemented
    rec::p[0] = &a, rec::p[1] = &b, rec::s[0] = long(diag), rec::s[1] = long(op), rec::d[0] = al, expect(c, S * 4 + U * 2 + 1 + (c.g ? 1 : 0));
  } else if (c.g)
    triangular_multiplication<X, C, double>(*c.g, side, UPLO(U), op, diag, al, a, b);
  else
    triangular_multiplication<X, C, double>(side, UPLO(U), op, diag, al, a, b);
  return result(c, rec::p[0] == &a && rec::p[1] == &b && rec::s[0] == long(diag) && rec::s[1] == long(op) && rec::d[0] == al);
}
PAIR2(triangular, SP, SQ)

// three and more matrices
//@ def V = f=m|m|m|0..3, h=1|1|1|0..2, o=b|b|b|1..4, p=1|1|2|3, s=1|1|1|1..2, t=1|1|1|1..2
//@ def Z = M=m|m|m|m|0..3, N=m|m|m|m|0..3, E=b|b|b|b|1..4, F=b|b|b|b|1..4, P=1|1|1|1|1..2, Q=1|1|1|1|1..2
//@ def LZ = c=1|1|1|1..2, d=1|1|1|1..2, $L, I=1|1|1|1..2, J=1|1|1|1..2
//@ def HZ = I=x|x|x|x|1..2, J=y|y|y|y|1..2, g=i|i|i|i|0..I-1, z=j|j|j|j|0..J-1
#define ZP , long f, long h, long o, long p, long s, long t, long M, long N, long E, long F, long P, long Q, int c, int d
#define LP int x, int y, int I, int J
#define GZ GP, int I, int J, int g, int z
#define PAIR3(NAME, P_, Q_) \
  extern "C" long impl_##NAME(AP ZP, LP P_) { return NAME(Call(0), Dim{m, n, b, e, q, r, x, y}, Dim{f, h, o, p, s, t, c, d}, Dim{M, N, E, F, P, Q, I, J} Q_, true); } \
  extern "C" long spec_##NAME(AP ZP, LP P_) { return NAME(Call(0), Dim{m, n, b, e, q, r, x, y}, Dim{f, h, o, p, s, t, c, d}, Dim{M, N, E, F, P, Q, I, J} Q_, false); } \
  extern "C" long impl_##NAME##_grid(AP ZP, GZ P_) { return NAME(Call(x, y, i, j), Dim{m, n, b, e, q, r, v, w, k, l}, Dim{f, h, o, p, s, t, c, d}, Dim{M, N, E, F, P, Q, I, J, g, z} Q_, true); } \
  extern "C" long spec_##NAME##_grid(AP ZP, GZ P_) { return NAME(Call(x, y, i, j), Dim{m, n, b, e, q, r, v, w, k, l}, Dim{f, h, o, p, s, t, c, d}, Dim{M, N, E, F, P, Q, I, J, g, z} Q_, false); }
//@ law eigen ; about: include/dlaf/eigensolver/eigensolver.h: hermitian_eigensolver (local) ; dom: $A, $V, $Z, $LZ, u=0..2, B=0|0|0|-1..1, W=m|m|0..m|-1..4 ; $O
//@ law eigen_grid ; about: include/dlaf/eigensolver/eigensolver.h: hermitian_eigensolver (distributed) ; dom: $A, $V, $Z, c=1|1|1|1..2, d=1|1|1|1..2, $G, $HZ, u=0..2, B=0|0|0|-1..1, W=m|m|0..m|-1..4 ; $O
static bool spectrum(const Call& c, const Dim& a, const Dim& w, const Dim& z, long B, long W) {
  return a.square() && a.square_block() && a.single() && c.fits(a) && w.local() && w.single() && w.m == a.m && w.bm == a.bm && c.fits(z) && z.single() && z.m == a.m && z.n == a.n && z.bm == a.bm &&
         z.bn == a.bn && B == 0 && W >= 0 && W <= a.m;
}
static long eigen(const Call& c, const Dim& d, const Dim& v, const Dim& e, int u, long B, long W, bool real) {
  sane(d), sane(v), sane(e);
  M &a = make<M, 0>(d), &w = make<M, 1>(v), &z = make<M, 2>(e);
  if (!real)
    need(spectrum(c, d, v, e, B, W)), rec::p[0] = &a, rec::p[1] = &w, rec::p[2] = &z, rec::s[0] = long(UPLO(u)), rec::s[1] = B, rec::s[2] = W, expect(c, c.g ? 2 : 1);
  else if (c.g)
    hermitian_eigensolver<X, C, double>(*c.g, UPLO(u), a, w, z, B, W);
  else
    hermitian_eigensolver<X, C, double>(UPLO(u), a, w, z, B, W);
  return result(c, rec::p[0] == &a && rec::p[1] == &w && rec::p[2] == &z && rec::s[0] == long(UPLO(u)) && rec::s[1] == B && rec::s[2] == W);
}
PAIR3(eigen, COMMA int u COMMA long B COMMA long W, COMMA u COMMA B COMMA W)
//@ law eigen_all ; about: include/dlaf/eigensolver/eigensolver.h: hermitian_eigensolver (local, all eigenvalues) ; dom: $A, $V, $Z, $LZ, u=0..2 ; $O
//@ law eigen_all_grid ; about: include/dlaf/eigensolver/eigensolver.h: hermitian_eigensolver (distributed, all eigenvalues) ; dom: $A, $V, $Z, c=1|1|1|1..2, d=1|1|1|1..2, $G, $HZ, u=0..2 ; $O
static long eigen_all(const Call& c, const Dim& d, const Dim& v, const Dim& e, int u, bool real) {
  if (!real) return eigen(c, d, v, e, u, 0, d.m, false);
  sane(d), sane(v), sane(e);
  M &a = make<M, 0>(d), &w = make<M, 1>(v), &z = make<M, 2>(e);
  if (c.g)
    hermitian_eigensolver<X, C, double>(*c.g, UPLO(u), a, w, z);
  else
    hermitian_eigensolver<X, C, double>(UPLO(u), a, w, z);
  return result(c, rec::p[0] == &a && rec::p[1] == &w && rec::p[2] == &z && rec::s[0] == long(UPLO(u)) && rec::s[1] == 0 && rec::s[2] == d.m);
}
PAIR3(eigen_all, COMMA int u, COMMA u)
//@ law tridiag ; about: include/dlaf/eigensolver/tridiag_solver.h: tridiagonal_eigensolver (local) ; dom: $A, f=m|m|m|0..3, h=2|2|2|0..2, o=b|b|b|1..4, p=2|2|2|1..3, s=1|1|1|1..2, t=1|1|1|1..2, $Z, $LZ, V=m|m|m|0..3, U=1|1|1|0..2, O=b|b|b|1..4 ; $O
//@ law tridiag_grid ; about: include/dlaf/eigensolver/tridiag_solver.h: tridiagonal_eigensolver (distributed) ; dom: $A, f=m|m|m|0..3, h=2|2|2|0..2, o=b|b|b|1..4, p=2|2|2|1..3, s=1|1|1|1..2, t=1|1|1|1..2, $Z, c=1|1|1|1..2, d=1|1|1|1..2, $G, $HZ, V=m|m|m|0..3, U=1|1|1|0..2, O=b|b|b|1..4 ; $O
static long tridiag(const Call& c, const Dim& d, const Dim& k, const Dim&, long V, long U, long O, bool real) {
  sane(d), sane(k);
  const Dim h{V, U, O, 1};
  M &z = make<M, 0>(d), &t = make<M, 1>(k), &w = make<M, 2>(h);
  if (!real)
    need(k.local() && k.n == 2 && k.bn == 2 && k.single() && h.n == 1 && c.fits(d) && d.square() && d.square_block() && d.single() && k.bm == d.bm && k.bm == h.bm && k.m == d.m && k.m == h.m), rec::p[0] = &t,
        rec::p[1] = &w, rec::p[2] = &z, expect(c, c.g ? 2 : 1);
  else if (c.g)
    eigensolver::internal::tridiagonal_eigensolver<X, C, double>(*c.g, t, w, z);
  else
    eigensolver::internal::tridiagonal_eigensolver<X, C, double>(t, w, z);
  return result(c, rec::p[0] == &t && rec::p[1] == &w && rec::p[2] == &z);
}
PAIR3(tridiag, COMMA long V COMMA long U COMMA long O, COMMA V COMMA U COMMA O)
//@ law hermitian ; about: include/dlaf/multiplication/hermitian.h: hermitian_multiplication (local) ; dom: $A, $K, M=f|f|f|0..3, N=h|h|h|0..3, E=o|o|o|1..4, F=p|p|p|1..4, P=1|1|1|1|1..2, Q=1|1|1|1|1..2, $LZ, S=0|0|0..1, u=0|0|0..2, al={-1,2,0}, be={-1,2,0}, odd=0|0|0|0..1 ; $O
//@ law hermitian_grid ; about: include/dlaf/multiplication/hermitian.h: hermitian_multiplication (distributed) ; dom: $A, $K, M=f|f|f|0..3, N=h|h|h|0..3, E=o|o|o|1..4, F=p|p|p|1..4, P=1|1|1|1|1..2, Q=1|1|1|1|1..2, c=1|1|1|1..2, d=1|1|1|1..2, $G, $HZ, S=0|0|0..1, u=0|0|0..2, al={-1,2,0}, be={-1,2,0}, odd=0|0|0|0..1 ; $O
static long hermitian(const Call& c, const Dim& d, const Dim& k, const Dim& e, int S, int u, double al, double be, int odd, bool real) {
  Dim kk = k;
  if (c.g && odd == 0) kk.gr = c.d.gr, kk.gc = c.d.gc, kk.i = c.d.i, kk.j = c.d.j;
  sane(d), sane(kk), sane(e);
  M &a = make<M, 0>(d), &b = make<M, 1>(kk), &o = make<M, 2>(e);
  CR br(b);
  const auto side = S ? blas::Side::Right : blas::Side::Left;
  if (!real) {
    need(d.square() && d.square_block() && d.single() && kk.single() && e.single() && c.fits(d) && c.fits(kk) && c.fits(e) && S == 0 && u == 0 && multipliable(d, kk, e, false, false));
    rec::p[0] = &a, rec::p[1] = c.g ? static_cast<const void*>(&br) : &b, rec::p[2] = &o, rec::d[0] = al, rec::d[1] = be, expect(c, c.g ? 2 : 1);
  } else if (c.g)
    ::dlaf::internal::hermitian_multiplication<X, C, double>(*c.g, side, UPLO(u), al, a, br, be, o);
  else
    hermitian_multiplication<X, C, double>(side, UPLO(u), al, a, b, be, o);
  return result(c, rec::p[0] == &a && rec::p[1] == (c.g ? static_cast<const void*>(&br) : &b) && rec::p[2] == &o && rec::d[0] == al && rec::d[1] == be);
}
PAIR3(hermitian, COMMA int S COMMA int u COMMA double al COMMA double be COMMA int odd, COMMA S COMMA u COMMA al COMMA be COMMA odd)
//@ law general ; about: include/dlaf/multiplication/general.h: generalMatrix (local) ; dom: m=0..3, n=0..3, b=1..4, e=1..4, q=1|1|1|1..2, r=1|1|1|1..2, f=n|n|n|0..3, h=m|0..3, o=e|e|e|1..4, p=b|1..4, s=1|1|1|1..2, t=1|1|1|1..2, M=m|m|m|0..3, N=h|h|h|0..3, E=b|b|b|1..4, F=p|p|p|1..4, P=1|1|1|1|1..2, Q=1|1|1|1|1..2, $LZ, S=0|0|0..2, u=0|0|0..2, al={-1,2,0}, be={-1,2,0} ; $O
static long general(const Call& c, const Dim& d, const Dim& k, const Dim& e, int S, int u, double al, double be, bool real) {
  sane(d), sane(k), sane(e);
  M &a = make<M, 0>(d), &b = make<M, 1>(k), &o = make<M, 2>(e);
  CR ar(a), br(b);
  R orf(o);
  const auto op = [](int t) { return t == 0 ? blas::Op::NoTrans : t == 1 ? blas::Op::Trans : blas::Op::ConjTrans; };
  if (!real)
    need(d.local() && k.local() && e.local()), multipliable(d, k, e, false, false) ? void() : verif_stop_heavy(), need(S == 0 && u == 0), rec::p[0] = &ar, rec::p[1] = &br, rec::p[2] = &orf, rec::d[0] = al, rec::d[1] = be, expect(c, 1);
  else
    multiplication::internal::generalMatrix<X, C, double>(op(S), op(u), al, ar, br, be, orf);
  return result(c, rec::p[0] == &ar && rec::p[1] == &br && rec::p[2] == &orf && rec::d[0] == al && rec::d[1] == be);
}
extern "C" long impl_general(AP ZP, LP, int S, int u, double al, double be) { return general(Call(0), Dim{m, n, b, e, q, r, x, y}, Dim{f, h, o, p, s, t, c, d}, Dim{M, N, E, F, P, Q, I, J}, S, u, al, be, true); }
extern "C" long spec_general(AP ZP, LP, int S, int u, double al, double be) { return general(Call(0), Dim{m, n, b, e, q, r, x, y}, Dim{f, h, o, p, s, t, c, d}, Dim{M, N, E, F, P, Q, I, J}, S, u, al, be, false); }
//@ def ODD = odd=0|0|0|0..9
namespace {
// a matrix like d with one difference
Dim differs(Dim d, int odd) {
  switch (odd) {
    case 1: ++d.m; break;
    case 2: ++d.n; break;
    case 3: ++d.m, ++d.n; break;
    case 4: d.bm *= 2; break;
    case 5: d.bn *= 2; break;
    case 6: d.bm *= 2, d.bn *= 2; break;
    case 7: d.bm *= 2, d.bn *= 2, d.pm *= 2, d.pn *= 2; break;
    case 8: ++d.gr; break;
    case 9: d.gc = d.gc + 1, d.j = d.gc - 1; break;
    default: break;
  }
  return d;
}
}
//@ law general_eigen ; about: include/dlaf/eigensolver/gen_eigensolver.h: hermitian_generalized_eigensolver and hermitian_generalized_eigensolver_factorized (local) ; dom: $A, $V, $Z, $LZ, u=0..2, fac=0..1, B=0|0|0|-1..1, W=m|m|0..m|-1..4, $ODD ; $O
//@ law general_eigen_grid ; about: include/dlaf/eigensolver/gen_eigensolver.h: hermitian_generalized_eigensolver and hermitian_generalized_eigensolver_factorized (distributed) ; dom: $A, $V, $Z, c=1|1|1|1..2, d=1|1|1|1..2, $G, $HZ, u=0..2, fac=0..1, B=0|0|0|-1..1, W=m|m|0..m|-1..4, $ODD ; $O
static long general_eigen(const Call& c, const Dim& d, const Dim& v, const Dim& e, int u, int fac, long B, long W, int odd, bool real) {
  const Dim l = differs(d, odd);
  sane(d), sane(v), sane(e), sane(l);
  M &a = make<M, 0>(d), &w = make<M, 1>(v), &z = make<M, 2>(e), &b = make<M, 3>(l);
  const long f = long(fac ? eigensolver::internal::Factorization::already_factorized : eigensolver::internal::Factorization::do_factorization);
  if (!real)
    need(spectrum(c, d, v, e, B, W) && c.fits(l) && odd == 0), rec::p[0] = &a, rec::p[1] = &w, rec::p[2] = &z, rec::p[3] = &b, rec::s[0] = long(UPLO(u)), rec::s[1] = B, rec::s[2] = W, rec::s[3] = f, expect(c, c.g ? 2 : 1);
  else if (c.g) {
    if (fac)
      hermitian_generalized_eigensolver_factorized<X, C, double>(*c.g, UPLO(u), a, b, w, z, B, W);
    else
      hermitian_generalized_eigensolver<X, C, double>(*c.g, UPLO(u), a, b, w, z, B, W);
  } else if (fac)
    hermitian_generalized_eigensolver_factorized<X, C, double>(UPLO(u), a, b, w, z, B, W);
  else
    hermitian_generalized_eigensolver<X, C, double>(UPLO(u), a, b, w, z, B, W);
  return result(c, rec::p[0] == &a && rec::p[1] == &w && rec::p[2] == &z && rec::p[3] == &b && rec::s[0] == long(UPLO(u)) && rec::s[1] == B && rec::s[2] == W && rec::s[3] == f);
}
PAIR3(general_eigen, COMMA int u COMMA int fac COMMA long B COMMA long W COMMA int odd, COMMA u COMMA fac COMMA B COMMA W COMMA odd)
//@ law general_eigen_all ; about: include/dlaf/eigensolver/gen_eigensolver.h: hermitian_generalized_eigensolver and hermitian_generalized_eigensolver_factorized (local, all eigenvalues) ; dom: $A, $V, $Z, $LZ, u=0..2, fac=0..1, $ODD ; $O
//@ law general_eigen_all_grid ; about: include/dlaf/eigensolver/gen_eigensolver.h: hermitian_generalized_eigensolver and hermitian_generalized_eigensolver_factorized (distributed, all eigenvalues) ; dom: $A, $V, $Z, c=1|1|1|1..2, d=1|1|1|1..2, $G, $HZ, u=0..2, fac=0..1, $ODD ; $O
static long general_eigen_all(const Call& c, const Dim& d, const Dim& v, const Dim& e, int u, int fac, int odd, bool real) {
  if (!real) return general_eigen(c, d, v, e, u, fac, 0, d.m, odd, false);
  const Dim l = differs(d, odd);
  sane(d), sane(v), sane(e), sane(l);
  M &a = make<M, 0>(d), &w = make<M, 1>(v), &z = make<M, 2>(e), &b = make<M, 3>(l);
  const long f = long(fac ? eigensolver::internal::Factorization::already_factorized : eigensolver::internal::Factorization::do_factorization);
  if (c.g) {
    if (fac)
      hermitian_generalized_eigensolver_factorized<X, C, double>(*c.g, UPLO(u), a, b, w, z);
    else
      hermitian_generalized_eigensolver<X, C, double>(*c.g, UPLO(u), a, b, w, z);
  } else if (fac)
    hermitian_generalized_eigensolver_factorized<X, C, double>(UPLO(u), a, b, w, z);
  else
    hermitian_generalized_eigensolver<X, C, double>(UPLO(u), a, b, w, z);
  return result(c, rec::p[0] == &a && rec::p[1] == &w && rec::p[2] == &z && rec::p[3] == &b && rec::s[0] == long(UPLO(u)) && rec::s[1] == 0 && rec::s[2] == d.m && rec::s[3] == f);
}
PAIR3(general_eigen_all, COMMA int u COMMA int fac COMMA int odd, COMMA u COMMA fac COMMA odd)
//@ law permute ; about: include/dlaf/permutations/general.h: permute (local part) ; dom: $A, $G, f=0..3|m, h=1|1|1|0..2, o=b|b|b|1..4, p=1|1..2, c=1|1|1|1..2, s=1|1|1|1..2, B=0|0..1|-1..3, E=0..3|-1..4, $ODD, col=0..1 ; $O
static long permute_local(const Dim& d, const Dim& k, long B, long E, int odd, int col, bool real) {
  const Dim l = differs(d, odd);
  sane(d), sane(k), sane(l);
  M &in = make<M, 0>(d), &out = make<M, 1>(l);
  auto& perms = reinterpret_cast<Matrix<SizeType, C>&>(make<M, 2>(k));
  if (!real) {
    const long tile = d.bm / d.pm, n = col ? d.n : d.m, t = (d.m + tile - 1) / tile, gr = col ? d.gc : d.gr, me = col ? d.j : d.i;
    need(d.square() && d.square_block() && d.single() && odd == 0 && k.local() && k.single() && k.bm == d.bm && k.n == 1 && 0 <= B && B <= E && E <= t);
    long mine = 0;
    for (long x = 0; x < 4; ++x)
      if (x < n && x / d.bm % gr == me) ++mine;
    need(k.m == mine);
    rec::p[0] = &perms, rec::p[1] = &in, rec::p[2] = &out, rec::s[0] = B, rec::s[1] = E, rec::what = 1 + col;
  } else if (col)
    permutations::permute<X, C, double, Coord::Col>(B, E, perms, in, out);
  else
    permutations::permute<X, C, double, Coord::Row>(B, E, perms, in, out);
  return rec::what * 2 + (rec::p[0] == &perms && rec::p[1] == &in && rec::p[2] == &out && rec::s[0] == B && rec::s[1] == E);
}
extern "C" long impl_permute(AP, GP, long f, long h, long o, long p, int c, long s, long B, long E, int odd, int col) { return permute_local(Dim{m, n, b, e, q, r, v, w, k, l}, Dim{f, h, o, p, s, 1, c, 1}, B, E, odd, col, true); }
extern "C" long spec_permute(AP, GP, long f, long h, long o, long p, int c, long s, long B, long E, int odd, int col) { return permute_local(Dim{m, n, b, e, q, r, v, w, k, l}, Dim{f, h, o, p, s, 1, c, 1}, B, E, odd, col, false); }
