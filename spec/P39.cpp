// P39 LAPACK failures are returned or reported
//@ variants: TYPE=float,BASE=float,CPLX=0 | TYPE=double,BASE=double,CPLX=0 | TYPE=std::complex<float>,BASE=float,CPLX=1 | TYPE=std::complex<double>,BASE=double,CPLX=1
#include <complex>
#include <dlaf/lapack/tile.h>
#include <dlaf/lapack/tile_extensions.h>
using namespace dlaf;
using S = SizeType;
using Z_ = TYPE; using BZ = BASE;
namespace dlaf::common::internal {   // the setting of the threads is P31
SingleThreadedBlasScope::SingleThreadedBlasScope() {}
SingleThreadedBlasScope::~SingleThreadedBlasScope() {}
}
// LAPACK with an arbitrary outcome
static int64_t info_;
namespace lapack {
int64_t potrf(Uplo, int64_t, Z_*, int64_t) { return info_; }
int64_t trtri(Uplo, Diag, int64_t, Z_*, int64_t) { return info_; }
int64_t lauum(Uplo, int64_t, Z_*, int64_t) { return info_; }
int64_t stedc(Job, int64_t, BZ*, BZ*, BZ*, int64_t) { return info_; }
#if CPLX
int64_t hegst(int64_t, Uplo, int64_t, Z_*, int64_t, Z_*, int64_t) { return info_; }
#else
int64_t sygst(int64_t, Uplo, int64_t, Z_*, int64_t, const Z_*, int64_t) { return info_; }
#endif
}
namespace ti = dlaf::tile::internal;
using MT = matrix::Tile<Z_, Device::CPU>;
using RT = matrix::Tile<BZ, Device::CPU>;
template <class T, class X = typename T::ElementType>
[[gnu::always_inline]] static T make(S m, S n, S ld, void* p) {
  return T(TileElementSize(m, n), memory::MemoryView<X, Device::CPU>(static_cast<X*>(p), n == 0 ? 0 : m + ld * (n - 1)), ld);
}
[[gnu::always_inline]] static blas::Uplo up(int k) { return k ? blas::Uplo::Lower : blas::Uplo::Upper; }
[[gnu::always_inline]] static blas::Diag diag(int k) { return k ? blas::Diag::Unit : blas::Diag::NonUnit; }
//@ def F = include/dlaf/lapack/tile.h
//@ def A = n=1..4|1..100, l=n..n+3, a=ptr, b=ptr
//@ law potrf ; about: $F: potrf ; dom: e=-5..-1|1..100|1..10**15, u=0..1, $A
extern "C" void rej_potrf(int64_t e, int u, S n, S l, void* a, void*) {
  verif::assume(e != 0);
  info_ = e;
  ti::potrf(up(u), make<MT>(n, n, l, a));
}
//@ law trtri ; about: $F: trtri ; dom: e=-5..-1|1..100|1..10**15, u=0..1, d=0..1, $A
extern "C" void rej_trtri(int64_t e, int u, int d, S n, S l, void* a, void*) {
  verif::assume(e != 0);
  info_ = e;
  ti::trtri(up(u), diag(d), make<MT>(n, n, l, a));
}
//@ law lauum ; about: $F: lauum ; dom: e=-5..-1|1..100|1..10**15, u=0..1, $A
extern "C" void rej_lauum(int64_t e, int u, S n, S l, void* a, void*) {
  verif::assume(e != 0);
  info_ = e;
  ti::lauum(up(u), make<MT>(n, n, l, a));
}
//@ law hegst ; about: $F: hegst ; dom: e=-5..-1|1..100|1..10**15, k=1..3, u=0..1, $A
extern "C" void rej_hegst(int64_t e, int k, int u, S n, S l, void* a, void* b) {
  verif::assume(e != 0);
  info_ = e;
  ti::hegst(k, up(u), make<MT>(n, n, l, a), make<MT>(n, n, l, b));
}
//@ law stedc ; about: $F: stedc ; dom: e=-5..-1|1..100|1..10**15, $A
extern "C" void rej_stedc(int64_t e, S n, S l, void* a, void* b) {
  verif::assume(e != 0);
  info_ = e;
  ti::stedc(make<RT>(n, 2, l, a), make<RT>(n, n, l, b));
}
// without a failure nothing is reported, and the variants with a status return it as it is
//@ law fine ; about: $F: success is not reported ; dom: u=0..1, d=0..1, k=1..3, $A
extern "C" bool law_fine(int u, int d, int k, S n, S l, void* a, void* b) {
  info_ = 0;
  auto t = make<MT>(n, n, l, a), s = make<MT>(n, n, l, b);
  ti::potrf(up(u), t);
  ti::trtri(up(u), diag(d), t);
  ti::lauum(up(u), t);
  ti::hegst(k, up(u), t, s);
  ti::stedc(make<RT>(n, 2, l, a), make<RT>(n, n, l, b));
  return true;
}
//@ law returned ; about: $F: potrfInfo, trtri_info ; dom: e=0..100|0..10**12, u=0..1, d=0..1, $A
extern "C" bool law_returned(int64_t e, int u, int d, S n, S l, void* a, void*) {
  info_ = e;
  auto t = make<MT>(n, n, l, a);
  return ti::potrfInfo(up(u), t) == e && ti::trtri_info(up(u), diag(d), t) == e;
}
