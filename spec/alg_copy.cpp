// P19 copies between matrices: every element arrives at the equal position, every message has one sender and one receiver
//@ algorithm
#include "algo.h"
#include "ranks.h"
#include <dlaf/matrix/copy.h>
#include <dlaf/matrix/matrix_ref.h>
#define ETI(T) namespace dlaf::matrix::internal { template class MatrixRef<const T, Device::CPU>; template class MatrixRef<T, Device::CPU>; }
ETI(double)
ETI(Z)
//@ def CO = include/dlaf/matrix/copy.h
namespace ex = pika::execution::experimental;
using matrix::internal::MatrixRef;
using matrix::internal::SubMatrixSpec;
namespace {
// from tiles of MA x NA, first one on (AR, AC), to tiles of MB x NB, first one on (BR, BC)
template <class T, S M, S N, int R, int C> bool redist(const S* p, S ma, S na, S mb, S nb, int ar, int ac, int br, int bc) {
  Arr<T, M, N> a, a0, b;
  a.fill(p, 0); b.fill(p, 200); algo::put(a0, a);
  const bool ok = algo::run<R, C>(false, [&](auto& x, auto& y, auto& g) { matrix::Matrix<const T, CPU>& cx = x; matrix::copy(cx, y, g); }, algo::on(a, ma, na, ar, ac), algo::on(b, mb, nb, br, bc));
  return ok & a.equal(a0) & b.equal(a0);
}
// the second column of tiles of the source is ready long before the first one on process `who`, the order of the
// destination is the other way round
template <class T, S M, S N, int R, int C> bool late_source(const S* p, S mb, S nb, int ar, int ac, int br, int bc, int who) {
  Arr<T, M, N> a, a0, b;
  a.fill(p, 0); b.fill(p, 200); algo::put(a0, a);
  const bool ok = algo::run<R, C>(false, [&](auto& x, auto& y, auto& g) {
    algo::late(ranks::of(g.fullCommunicator())->rank == who);
    matrix::Matrix<const T, CPU>& cx = x;
    matrix::copy(cx, y, g);
  }, algo::on(a, mb, nb, ar, ac), algo::on(b, mb, nb, br, bc));
  return ok & a.equal(a0) & b.equal(a0);
}
template <class T, S M, S N, int R, int C> bool same(const S* p, S mb, S nb, int sr, int sc) {
  Arr<T, M, N> a, a0, b;
  a.fill(p, 0); b.fill(p, 200); algo::put(a0, a);
  const bool ok = algo::run<R, C>(true, [&](auto& x, auto& y, auto&...) { matrix::Matrix<const T, CPU>& cx = x; matrix::copy(cx, y); }, algo::on(a, mb, nb, sr, sc), algo::on(b, mb, nb, sr, sc));
  return ok & a.equal(a0) & b.equal(a0);
}
// a range of local tiles
bool range(const S* p) {
  Arr<double, 6, 6> a, a0, b, r;
  a.fill(p, 0); b.fill(p, 200); algo::put(a0, a); algo::put(r, b);
  for (S j = 0; j < 4; ++j) for (S i = 0; i < 2; ++i) r(4 + i, j) = a(2 + i, 2 + j);
  const bool ok = algo::run<0, 0>(true, [&](auto& x, auto& y) { matrix::Matrix<const double, CPU>& cx = x; matrix::copy(LocalTileSize(1, 2), LocalTileIndex(1, 1), cx, LocalTileIndex(2, 0), y); }, algo::on(a, 2, 2), algo::on(b, 2, 2));
  return ok & a.equal(a0) & b.equal(r);
}
bool range_same(const S* p) {
  Arr<double, 5, 5> a, a0, b, r;
  a.fill(p, 0); b.fill(p, 200); algo::put(a0, a); algo::put(r, b);
  for (S j = 2; j < 5; ++j) for (S i = 0; i < 4; ++i) r(i, j) = a(i, j);
  const bool ok = algo::run<0, 0>(false, [&](auto& x, auto& y) { matrix::Matrix<const double, CPU>& cx = x; matrix::copy(LocalTileIndex(0, 1), LocalTileSize(2, 2), cx, y); }, algo::on(a, 2, 2), algo::on(b, 2, 2));
  return ok & a.equal(a0) & b.equal(r);
}
// sub-matrices with equal tiles
template <class T, int R, int C> bool views(const S* p, S ia, S ja, S ib, S jb, S m, S n, int sr = 0, int sc = 0) {
  constexpr S D = 7;
  Arr<T, D, D> a, a0, b, r;
  a.fill(p, 0); b.fill(p, 200); algo::put(a0, a); algo::put(r, b);
  for (S j = 0; j < n; ++j) for (S i = 0; i < m; ++i) r(ib + i, jb + j) = a(ia + i, ja + j);
  const bool ok = algo::run<R, C>(true, [&](auto& x, auto& y, auto&...) {
    MatrixRef<const T, CPU> va(x, SubMatrixSpec{{ia, ja}, {m, n}});
    MatrixRef<T, CPU> vb(y, SubMatrixSpec{{ib, jb}, {m, n}});
    matrix::internal::copy(va, vb);
  }, algo::on(a, 2, 2, sr, sc), algo::on(b, 2, 2, sr, sc));
  return ok & a.equal(a0) & b.equal(r);
}
}
//@ law all ; about: $CO: copy ; dom: p=ptr
extern "C" bool law_all(const S* p) { return same<double, 5, 3, 0, 0>(p, 2, 2, 0, 0) & same<Z, 5, 4, 2, 2>(p, 2, 1, 1, 1) & same<double, 3, 5, 3, 1>(p, 1, 2, 2, 0); }
//@ law part ; about: $CO: copy ; dom: p=ptr
extern "C" bool law_part(const S* p) { return range(p) & range_same(p); }
//@ law views ; about: $CO: copy, include/dlaf/matrix/matrix_ref.h ; dom: p=ptr
extern "C" bool law_views(const S* p) { return views<double, 0, 0>(p, 0, 2, 4, 0, 3, 4) & views<Z, 0, 0>(p, 1, 3, 3, 1, 4, 3) & views<double, 2, 2>(p, 0, 4, 4, 0, 3, 3) & views<double, 2, 1>(p, 1, 2, 5, 2, 2, 4, 1, 0); }
//@ law redist_local ; about: $CO: copy ; dom: p=ptr
extern "C" bool law_redist_local(const S* p) { return redist<double, 5, 6, 1, 1>(p, 2, 1, 4, 3, 0, 0, 0, 0) & redist<Z, 4, 3, 1, 1>(p, 3, 2, 1, 2, 0, 0, 0, 0); }
//@ law redist_2x1 ; about: $CO: copy ; dom: p=ptr
extern "C" bool law_redist_2x1(const S* p) { return redist<double, 8, 2, 2, 1>(p, 2, 1, 2, 1, 0, 0, 1, 0) & redist<double, 7, 3, 2, 1>(p, 1, 2, 2, 1, 1, 0, 1, 0) & redist<Z, 4, 3, 2, 1>(p, 2, 2, 1, 2, 0, 0, 1, 0); }
//@ law redist_1x2 ; about: $CO: copy ; dom: p=ptr
extern "C" bool law_redist_1x2(const S* p) { return redist<double, 2, 8, 1, 2>(p, 1, 2, 1, 2, 0, 0, 0, 1) & redist<double, 3, 7, 1, 2>(p, 2, 1, 1, 2, 0, 1, 0, 0) & redist<Z, 3, 4, 1, 2>(p, 2, 2, 2, 1, 0, 0, 0, 1); }
//@ law redist_2x2 ; about: $CO: copy ; dom: p=ptr
extern "C" bool law_redist_2x2(const S* p) { return redist<double, 7, 6, 2, 2>(p, 1, 2, 2, 1, 1, 0, 0, 1) & redist<double, 5, 6, 2, 2>(p, 2, 2, 2, 2, 0, 0, 1, 1); }
//@ law redist_src ; about: $CO: copy ; dom: p=ptr
extern "C" bool law_redist_src(const S* p) { return redist<double, 6, 3, 3, 1>(p, 1, 1, 2, 1, 2, 0, 1, 0) & redist<Z, 5, 5, 1, 3>(p, 2, 1, 1, 3, 0, 1, 0, 2) & redist<double, 0, 3, 2, 1>(p, 1, 1, 2, 1, 0, 0, 1, 0); }
//@ law order ; about: $CO: copy ; dom: p=ptr
extern "C" bool law_order(const S* p) { return late_source<double, 6, 3, 2, 1>(p, 1, 1, 0, 0, 1, 0, 0) & late_source<double, 4, 3, 2, 1>(p, 1, 1, 0, 0, 1, 0, 1) & late_source<double, 3, 6, 1, 2>(p, 1, 1, 0, 0, 0, 1, 0) & late_source<double, 4, 4, 2, 2>(p, 1, 1, 0, 0, 1, 1, 3); }
