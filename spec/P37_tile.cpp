// P37 Tile kernels pass the tile's own geometry to BLAS and LAPACK
//@ variants: TYPE=float,BASE=float | TYPE=double,BASE=double | TYPE=std::complex<float>,BASE=float | TYPE=std::complex<double>,BASE=double
#include <complex>
#include <dlaf/blas/tile.h>
#include <dlaf/blas/tile_extensions.h>
#include <dlaf/lapack/tile.h>
#include <dlaf/lapack/tile_extensions.h>
using namespace dlaf;
using S = SizeType;
using Z_ = TYPE; using BZ = BASE;
namespace dlaf::common::internal {   // the setting of the threads is P31
SingleThreadedBlasScope::SingleThreadedBlasScope() {}
SingleThreadedBlasScope::~SingleThreadedBlasScope() {}
}
namespace ti = dlaf::tile::internal;
using CT = matrix::Tile<const Z_, Device::CPU>;
using MT = matrix::Tile<Z_, Device::CPU>;
template <class T>
[[gnu::always_inline]] static T make(S m, S n, S ld, void* p) {
  return T(TileElementSize(m, n), memory::MemoryView<Z_, Device::CPU>(static_cast<Z_*>(p), n == 0 ? 0 : m + ld * (n - 1)), ld);
}
[[gnu::always_inline]] static const Z_* cp(void* p) { return static_cast<const Z_*>(p); }
[[gnu::always_inline]] static Z_* mp(void* p) { return static_cast<Z_*>(p); }
template <class X>
[[gnu::always_inline]] X val_(double r, double i) {
  if constexpr (std::is_same_v<X, BZ>) return static_cast<X>(r);
  else return X(static_cast<BZ>(r), static_cast<BZ>(i));
}
[[gnu::always_inline]] static Z_ val(double r, double i) { return val_<Z_>(r, i); }
[[gnu::always_inline]] static blas::Op op(int k) { return k == 0 ? blas::Op::NoTrans : k == 1 ? blas::Op::Trans : blas::Op::ConjTrans; }
[[gnu::always_inline]] static blas::Uplo up(int k) { return k ? blas::Uplo::Lower : blas::Uplo::Upper; }
[[gnu::always_inline]] static blas::Side side(int k) { return k ? blas::Side::Left : blas::Side::Right; }
[[gnu::always_inline]] static blas::Diag diag(int k) { return k ? blas::Diag::Unit : blas::Diag::NonUnit; }
constexpr auto CM = blas::Layout::ColMajor;
static void stop_unless(bool b) { if (!b) verif_stop(); }
//@ def F = include/dlaf/blas/tile.h
//@ def A = am=1..4|1..100, an=1..4|1..100, la=am..am+3, a=ptr
//@ def B = bm=1..4|1..100|am|an, bn=1..4|1..100|am|an, lb=bm..bm+3, b=ptr
//@ def C = cm=am|an|bm|1..4|1..100, cn=bm|bn|an|1..4, lc=cm..cm+3, c=ptr
//@ law gemm ; about: $F: gemm ; dom: i=0..2, j=0..2, x=f64, y=f64, z=f64, w=f64, $A, $B, $C ; events=blas
extern "C" void impl_gemm(int i, int j, double x, double y, double z, double w, S am, S an, S la, void* a, S bm, S bn, S lb, void* b, S cm, S cn, S lc, void* c) {
  ti::gemm(op(i), op(j), val(x, y), make<CT>(am, an, la, a), make<CT>(bm, bn, lb, b), val(z, w), make<MT>(cm, cn, lc, c));
}
extern "C" void spec_gemm(int i, int j, double x, double y, double z, double w, S am, S an, S la, void* a, S bm, S bn, S lb, void* b, S cm, S cn, S lc, void* c) {
  const S m = i ? an : am, k = i ? am : an, k2 = j ? bn : bm, n = j ? bm : bn;
  stop_unless(m == cm && n == cn && k == k2);
  blas::gemm(CM, op(i), op(j), m, n, k, val(x, y), cp(a), la, cp(b), lb, val(z, w), mp(c), lc);
}
//@ def CD = CPU tiles
//@ law hemm ; about: $F: hemm ; dom: i=0..1, j=0..1, x=f64, y=f64, z=f64, w=f64, am=1..4|1..100, an=am|am|1..4, la=am..am+3, a=ptr, bm=am|1..4, bn=1..3|an, lb=bm..bm+3, b=ptr, cm=bm|am, cn=bn|bn|an, lc=cm..cm+3, c=ptr ; events=blas
extern "C" void impl_hemm(int i, int j, double x, double y, double z, double w, S am, S an, S la, void* a, S bm, S bn, S lb, void* b, S cm, S cn, S lc, void* c) {
  ti::hemm(side(i), up(j), val(x, y), make<CT>(am, an, la, a), make<CT>(bm, bn, lb, b), val(z, w), make<MT>(cm, cn, lc, c));
}
extern "C" void spec_hemm(int i, int j, double x, double y, double z, double w, S am, S an, S la, void* a, S bm, S bn, S lb, void* b, S cm, S cn, S lc, void* c) {
  stop_unless(am == an && bm == cm && bn == cn && am == (i ? cm : cn));
  blas::hemm(CM, side(i), up(j), cm, cn, val(x, y), cp(a), la, cp(b), lb, val(z, w), mp(c), lc);
}
static bool real_or_not_trans(int i) { return std::is_same_v<Z_, BZ> || i != 1; }   // a transposed (not conjugated) complex update is not hermitian
//@ law her2k ; about: $F: her2k ; dom: i=0..1, j=0..2, x=f64, y=f64, z=f64, am=1..4|1..100, an=1..4|1..100, la=am..am+3, a=ptr, bm=am|am|an, bn=an|an|am, lb=bm..bm+3, b=ptr, cm=am|an, cn=cm|cm|an, lc=cm..cm+3, c=ptr ; events=blas
extern "C" void impl_her2k(int i, int j, double x, double y, double z, S am, S an, S la, void* a, S bm, S bn, S lb, void* b, S cm, S cn, S lc, void* c) {
  ti::her2k(up(i), op(j), val(x, y), make<CT>(am, an, la, a), make<CT>(bm, bn, lb, b), static_cast<BZ>(z), make<MT>(cm, cn, lc, c));
}
extern "C" void spec_her2k(int i, int j, double x, double y, double z, S am, S an, S la, void* a, S bm, S bn, S lb, void* b, S cm, S cn, S lc, void* c) {
  stop_unless(real_or_not_trans(j) && am == bm && an == bn && cm == cn && cm == (j ? an : am));
  blas::her2k(CM, up(i), op(j), cm, j ? am : an, val(x, y), cp(a), la, cp(b), lb, static_cast<BZ>(z), mp(c), lc);
}
//@ law herk ; about: $F: herk ; dom: i=0..1, j=0..2, x=f64, z=f64, am=1..4|1..100, an=1..4|1..100, la=am..am+3, a=ptr, cm=am|an, cn=cm|cm|an, lc=cm..cm+3, c=ptr ; events=blas
extern "C" void impl_herk(int i, int j, double x, double z, S am, S an, S la, void* a, S cm, S cn, S lc, void* c) {
  ti::herk(up(i), op(j), static_cast<BZ>(x), make<CT>(am, an, la, a), static_cast<BZ>(z), make<MT>(cm, cn, lc, c));
}
extern "C" void spec_herk(int i, int j, double x, double z, S am, S an, S la, void* a, S cm, S cn, S lc, void* c) {
  stop_unless(real_or_not_trans(j) && cm == cn && cm == (j ? an : am));
  blas::herk(CM, up(i), op(j), cm, j ? am : an, static_cast<BZ>(x), cp(a), la, static_cast<BZ>(z), mp(c), lc);
}
//@ def TR = i=0..1, u=0..1, j=0..2, d=0..1, x=f64, y=f64, am=1..4|1..100, an=am|am|am|1..4, la=am..am+3, a=ptr, bm=am|1..4, bn=an|1..4, lb=bm..bm+3, b=ptr
//@ law trmm ; about: $F: trmm ; dom: $TR ; events=blas
extern "C" void impl_trmm(int i, int u, int j, int d, double x, double y, S am, S an, S la, void* a, S bm, S bn, S lb, void* b) {
  ti::trmm(side(i), up(u), op(j), diag(d), val(x, y), make<CT>(am, an, la, a), make<MT>(bm, bn, lb, b));
}
extern "C" void spec_trmm(int i, int u, int j, int d, double x, double y, S am, S an, S la, void* a, S bm, S bn, S lb, void* b) {
  stop_unless(am == an && am == (i ? bm : bn));
  blas::trmm(CM, side(i), up(u), op(j), diag(d), bm, bn, val(x, y), cp(a), la, mp(b), lb);
}
//@ law trsm ; about: $F: trsm ; dom: $TR ; events=blas
extern "C" void impl_trsm(int i, int u, int j, int d, double x, double y, S am, S an, S la, void* a, S bm, S bn, S lb, void* b) {
  ti::trsm(side(i), up(u), op(j), diag(d), val(x, y), make<CT>(am, an, la, a), make<MT>(bm, bn, lb, b));
}
extern "C" void spec_trsm(int i, int u, int j, int d, double x, double y, S am, S an, S la, void* a, S bm, S bn, S lb, void* b) {
  stop_unless(am == an && am == (i ? bm : bn));
  blas::trsm(CM, side(i), up(u), op(j), diag(d), bm, bn, val(x, y), cp(a), la, mp(b), lb);
}
//@ law trmm3 ; about: $F: trmm3 ; dom: $TR, cm=bm|bm|am, cn=bn|bn|an, lc=cm..cm+3, c=ptr ; events=blas|lapack
extern "C" void impl_trmm3(int i, int u, int j, int d, double x, double y, S am, S an, S la, void* a, S bm, S bn, S lb, void* b, S cm, S cn, S lc, void* c) {
  ti::trmm3(side(i), up(u), op(j), diag(d), val(x, y), make<CT>(am, an, la, a), make<CT>(bm, bn, lb, b), make<MT>(cm, cn, lc, c));
}
extern "C" void spec_trmm3(int i, int u, int j, int d, double x, double y, S am, S an, S la, void* a, S bm, S bn, S lb, void* b, S cm, S cn, S lc, void* c) {
  stop_unless(am == an && am == (i ? cm : cn) && bm == cm && bn == cn && b != c);
  lapack::lacpy(lapack::MatrixType::General, cm, cn, cp(b), lb, mp(c), lc);
  blas::trmm(CM, side(i), up(u), op(j), diag(d), cm, cn, val(x, y), cp(a), la, mp(c), lc);
}
//@ law trmm3_same ; about: $F: trmm3: input and output tile in the same memory ; dom: n=1..5, b=ptr
extern "C" void rej_trmm3_same(S n, void* b) {
  ti::trmm3(blas::Side::Left, blas::Uplo::Lower, blas::Op::NoTrans, blas::Diag::Unit, val(1, 0), make<CT>(n, n, n, b), make<CT>(n, n, n, b), make<MT>(n, n, n, b));
}
//@ def E = include/dlaf/blas/tile_extensions.h
//@ law add ; about: $E: add ; dom: x=f64, y=f64, am=1..4|1..100, an=1..3, la=am..am+3, a=ptr, bm=am|am|1..3, bn=an|an|1..3, lb=bm..bm+3, b=ptr ; events=blas ; unroll=3
extern "C" void impl_add(double x, double y, S am, S an, S la, void* a, S bm, S bn, S lb, void* b) { ti::add(val(x, y), make<CT>(am, an, la, a), make<MT>(bm, bn, lb, b)); }
extern "C" void spec_add(double x, double y, S am, S an, S la, void* a, S bm, S bn, S lb, void* b) {
  stop_unless(am == bm && an == bn);
  for (S j = 0; j < an; ++j) blas::axpy(am, val(x, y), cp(a) + la * j, 1, mp(b) + lb * j, 1);
}
//@ law add_empty ; about: $E: add: an empty tile ; dom: x=f64, y=f64, m=0..1, n=0..3, a=ptr, b=ptr ; events=blas
extern "C" void impl_add_empty(double x, double y, S m, S n, void* a, void* b) {
  verif::assume(m == 0 || n == 0);
  ti::add(val(x, y), make<CT>(m, n, 1, a), make<MT>(m, n, 1, b));
}
extern "C" void spec_add_empty(double x, double y, S m, S n, void* a, void* b) { verif::assume(m == 0 || n == 0); }
// the product with an empty inner dimension: only the factor and the output tile matter
//@ law scal ; about: $E: scal ; dom: x=f64, y=f64, m=1..4|1..100, n=1..4|1..100, ld=m..m+3, a=ptr ; events=blas
extern "C" void impl_scal(double x, double y, S m, S n, S ld, void* a) { ti::scal(val(x, y), make<MT>(m, n, ld, a)); }
extern "C" void spec_scal(double x, double y, S m, S n, S ld, void* a) {
  blas::gemm(CM, blas::Op::NoTrans, blas::Op::NoTrans, m, n, 0, Z_(0), static_cast<const Z_*>(nullptr), ld, static_cast<const Z_*>(nullptr), 1, val(x, y), mp(a), ld);
}
//@ def L = include/dlaf/lapack/tile.h
//@ def M = m=1..4|1..100, n=m|m|1..4|1..100, ld=m..m+3, a=ptr
[[gnu::always_inline]] static lapack::Norm norm(int k) { return k == 0 ? lapack::Norm::One : k == 1 ? lapack::Norm::Two : k == 2 ? lapack::Norm::Inf : k == 3 ? lapack::Norm::Fro : lapack::Norm::Max; }
//@ law lange ; about: $L: lange ; dom: k=0..4, $M ; events=lapack
extern "C" BZ impl_lange(int k, S m, S n, S ld, void* a) { return ti::lange(norm(k), make<MT>(m, n, ld, a)); }
extern "C" BZ spec_lange(int k, S m, S n, S ld, void* a) { return lapack::lange(norm(k), m, n, cp(a), ld); }
//@ law lantr ; about: $L: lantr ; dom: k=0..4, u=0..1, d=0..1, $M ; events=lapack
extern "C" BZ impl_lantr(int k, int u, int d, S m, S n, S ld, void* a) { return ti::lantr(norm(k), up(u), diag(d), make<MT>(m, n, ld, a)); }
extern "C" BZ spec_lantr(int k, int u, int d, S m, S n, S ld, void* a) {
  stop_unless(u ? m >= n : m <= n);
  return lapack::lantr(norm(k), up(u), diag(d), m, n, cp(a), ld);
}
[[gnu::always_inline]] static lapack::MatrixType mtype(int k) { return k == 0 ? lapack::MatrixType::Upper : k == 1 ? lapack::MatrixType::Lower : lapack::MatrixType::General; }
[[gnu::always_inline]] static blas::Uplo up3(int k) { return k == 0 ? blas::Uplo::Upper : k == 1 ? blas::Uplo::Lower : blas::Uplo::General; }
//@ law laset ; about: $L: laset ; dom: u=0..2, x=f64, y=f64, z=f64, w=f64, $M ; events=lapack
extern "C" void impl_laset(int u, double x, double y, double z, double w, S m, S n, S ld, void* a) { ti::laset(up3(u), val(x, y), val(z, w), make<MT>(m, n, ld, a)); }
extern "C" void spec_laset(int u, double x, double y, double z, double w, S m, S n, S ld, void* a) { lapack::laset(mtype(u), m, n, val(x, y), val(z, w), mp(a), ld); }
//@ law set0 ; about: $L: set0 ; dom: $M ; events=lapack
extern "C" void impl_set0(S m, S n, S ld, void* a) { ti::set0(make<MT>(m, n, ld, a)); }
extern "C" void spec_set0(S m, S n, S ld, void* a) { lapack::laset(lapack::MatrixType::General, m, n, Z_(0), Z_(0), mp(a), ld); }
//@ law lauum ; about: $L: lauum ; dom: u=0..1, $M ; events=lapack
extern "C" void impl_lauum(int u, S m, S n, S ld, void* a) { ti::lauum(up(u), make<MT>(m, n, ld, a)); }
extern "C" void spec_lauum(int u, S m, S n, S ld, void* a) {
  stop_unless(m == n);
  stop_unless(lapack::lauum(up(u), m, mp(a), ld) == 0);
}
//@ law hegst ; about: $L: hegst ; dom: k=0..4, u=0..1, $M, bm=m|m|1..4, bn=bm|bm|n, lb=bm..bm+3, b=ptr ; events=lapack
extern "C" void impl_hegst(int k, int u, S m, S n, S ld, void* a, S bm, S bn, S lb, void* b) { ti::hegst(k, up(u), make<MT>(m, n, ld, a), make<MT>(bm, bn, lb, b)); }
extern "C" void spec_hegst(int k, int u, S m, S n, S ld, void* a, S bm, S bn, S lb, void* b) {
  stop_unless(m == n && bm == m && bn == m && k >= 1 && k <= 3);
  stop_unless(lapack::hegst(k, up(u), m, mp(a), ld, mp(b), lb) == 0);
}
//@ law potrf_info ; about: $L: potrfInfo ; dom: u=0..1, $M ; events=lapack
extern "C" long impl_potrf_info(int u, S m, S n, S ld, void* a) { return ti::potrfInfo(up(u), make<MT>(m, n, ld, a)); }
extern "C" long spec_potrf_info(int u, S m, S n, S ld, void* a) {
  stop_unless(m == n);
  const long i = lapack::potrf(up(u), m, mp(a), ld);
  stop_unless(i >= 0);
  return i;
}
//@ law potrf ; about: $L: potrf ; dom: u=0..1, $M ; events=lapack
extern "C" void impl_potrf(int u, S m, S n, S ld, void* a) { ti::potrf(up(u), make<MT>(m, n, ld, a)); }
extern "C" void spec_potrf(int u, S m, S n, S ld, void* a) {
  stop_unless(m == n);
  stop_unless(lapack::potrf(up(u), m, mp(a), ld) == 0);
}
//@ law trtri_info ; about: $L: trtri_info ; dom: u=0..1, d=0..1, $M ; events=lapack
extern "C" long impl_trtri_info(int u, int d, S m, S n, S ld, void* a) { return ti::trtri_info(up(u), diag(d), make<MT>(m, n, ld, a)); }
extern "C" long spec_trtri_info(int u, int d, S m, S n, S ld, void* a) {
  stop_unless(m == n);
  const long i = lapack::trtri(up(u), diag(d), m, mp(a), ld);
  stop_unless(i >= 0);
  return i;
}
//@ law trtri ; about: $L: trtri ; dom: u=0..1, d=0..1, $M ; events=lapack
extern "C" void impl_trtri(int u, int d, S m, S n, S ld, void* a) { ti::trtri(up(u), diag(d), make<MT>(m, n, ld, a)); }
extern "C" void spec_trtri(int u, int d, S m, S n, S ld, void* a) {
  stop_unless(m == n);
  stop_unless(lapack::trtri(up(u), diag(d), m, mp(a), ld) == 0);
}
//@ law scale_col ; about: $L: scaleCol ; dom: x=f64, y=f64, $M, c=-2..n+1 ; events=blas
extern "C" void impl_scale_col(double x, double y, S m, S n, S ld, void* a, S c) { ti::scaleCol(val(x, y), c, make<MT>(m, n, ld, a)); }
extern "C" void spec_scale_col(double x, double y, S m, S n, S ld, void* a, S c) {
  stop_unless(c >= 0 && c < n);
  blas::scal(m, val(x, y), mp(a) + ld * c, 1);
}
//@ law lacpy ; about: $L: lacpy ; dom: $M, bm=m|m|1..4, bn=n|n|1..4, lb=bm..bm+3, b=ptr ; events=lapack
extern "C" void impl_lacpy(S m, S n, S ld, void* a, S bm, S bn, S lb, void* b) { dlaf::tile::lacpy(make<CT>(m, n, ld, a), make<MT>(bm, bn, lb, b)); }
extern "C" void spec_lacpy(S m, S n, S ld, void* a, S bm, S bn, S lb, void* b) {
  stop_unless(m == bm && n == bn);
  lapack::lacpy(lapack::MatrixType::General, m, n, cp(a), ld, mp(b), lb);
}
//@ law lacpy_region ; about: $L: lacpy of a region ; dom: r=1..4, s=1..4, $M, i=0..4, j=0..4, bm=m|1..6, bn=n|1..6, lb=bm..bm+3, b=ptr, k=0..4, l=0..4 ; events=lapack
extern "C" void impl_lacpy_region(S r, S s, S m, S n, S ld, void* a, S i, S j, S bm, S bn, S lb, void* b, S k, S l) {
  dlaf::tile::lacpy(TileElementSize(r, s), TileElementIndex(i, j), make<CT>(m, n, ld, a), TileElementIndex(k, l), make<MT>(bm, bn, lb, b));
}
extern "C" void spec_lacpy_region(S r, S s, S m, S n, S ld, void* a, S i, S j, S bm, S bn, S lb, void* b, S k, S l) {
  stop_unless(i + r <= m && j + s <= n && k + r <= bm && l + s <= bn);
  lapack::lacpy(lapack::MatrixType::General, r, s, cp(a) + i + ld * j, ld, mp(b) + k + lb * l, lb);
}
//@ law copy ; about: include/dlaf/matrix/copy_tile.h: copy ; dom: $M, bm=m|m|1..4, bn=n|n|1..4, lb=bm..bm+3, b=ptr ; events=lapack
extern "C" void impl_copy(S m, S n, S ld, void* a, S bm, S bn, S lb, void* b) { matrix::internal::copy(make<CT>(m, n, ld, a), make<MT>(bm, bn, lb, b)); }
extern "C" void spec_copy(S m, S n, S ld, void* a, S bm, S bn, S lb, void* b) {
  stop_unless(m == bm && n == bn);
  lapack::lacpy(lapack::MatrixType::General, m, n, cp(a), ld, mp(b), lb);
}
// the workspace variants of lauum and trtri
//@ def X = include/dlaf/lapack/tile_extensions.h
//@ law lauum_workspace ; about: $X: lauum_workspace ; dom: u=0..1, $M, wm=m|m..m+3|1..4, wn=n|n..n+3|1..4, lw=wm..wm+3, w=ptr ; events=blas|lapack
extern "C" void impl_lauum_workspace(int u, S m, S n, S ld, void* a, S wm, S wn, S lw, void* w) { ti::lauum_workspace(up(u), make<MT>(m, n, ld, a), make<MT>(wm, wn, lw, w)); }
extern "C" void spec_lauum_workspace(int u, S m, S n, S ld, void* a, S wm, S wn, S lw, void* w) {   // w := the triangle; w := L^H w or w U^H; back
  stop_unless(m == n && wm >= m && wn >= m);
  lapack::laset(lapack::MatrixType::General, m, m, Z_(0), Z_(0), mp(w), lw);
  lapack::lacpy(mtype(u), m, m, cp(a), ld, mp(w), lw);
  blas::trmm(CM, u ? blas::Side::Left : blas::Side::Right, up(u), blas::Op::ConjTrans, blas::Diag::NonUnit, m, m, Z_(1), cp(a), ld, mp(w), lw);
  lapack::lacpy(mtype(u), m, m, cp(w), lw, mp(a), ld);
}
//@ law trtri_workspace ; about: $X: trtri_workspace ; dom: u=0..1, d=0..1, $M, wm=m|m..m+3|1..4, wn=n|n..n+3|1..4, lw=wm..wm+3, w=ptr ; events=blas|lapack
extern "C" void impl_trtri_workspace(int u, int d, S m, S n, S ld, void* a, S wm, S wn, S lw, void* w) { ti::trtri_workspace(up(u), diag(d), make<MT>(m, n, ld, a), make<MT>(wm, wn, lw, w)); }
extern "C" void spec_trtri_workspace(int u, int d, S m, S n, S ld, void* a, S wm, S wn, S lw, void* w) {   // w := I; w := A^-1 w; back without a unit diagonal
  stop_unless(m == n);
  if (m == 1 && d) return;   // the inverse of (1)
  stop_unless(wm >= m && wn >= m);
  lapack::laset(lapack::MatrixType::General, m, m, Z_(0), Z_(1), mp(w), lw);
  blas::trsm(CM, blas::Side::Left, up(u), blas::Op::NoTrans, diag(d), m, m, Z_(1), cp(a), ld, mp(w), lw);
  if (d) lapack::lacpy(mtype(u), m - 1, m - 1, cp(w) + (u ? 1 : lw), lw, mp(a) + (u ? 1 : ld), ld);
  else lapack::lacpy(mtype(u), m, m, cp(w), lw, mp(a), ld);
}
