// P15 sub-pipelines are ordered between the accesses of their parent; P16 waiting waits for every access to every local tile
//@ algorithm
#include "algo.h"
#include "ranks.h"
#include <dlaf/sender/transform.h>
//@ def MA = include/dlaf/matrix/matrix.h
//@ def SP = include/dlaf/matrix/matrix.h: set_up_sub_pipelines, set_up_retiled_sub_pipelines; include/dlaf/matrix/internal/tile_pipeline.h, include/dlaf/matrix/tile.h: splitTileDisjoint
namespace ex = pika::execution::experimental;
using dlaf::internal::Policy;
using dlaf::internal::transform;
namespace {
template <class X> void go(X&& x) { ex::start_detached(std::forward<X>(x)); }
// x := 2 x + c on every element: the order of such tasks shows in the result
auto step(double c) { return transform(Policy<MC>(), [c](const auto& t) { for (S j = 0; j < t.size().cols(); ++j) for (S i = 0; i < t.size().rows(); ++i) { auto& x = *t.ptr({i, j}); x = 2. * x + c; } }); }
template <class M> void all(M& m, double c) { for (S j = 0; j < m.distribution().local_nr_tiles().cols(); ++j) for (S i = 0; i < m.distribution().local_nr_tiles().rows(); ++i) go(m.readwrite(LocalTileIndex(i, j)) | step(c)); }
template <class M> void backwards(M& m, double c) { for (S j = m.distribution().local_nr_tiles().cols() - 1; j >= 0; --j) for (S i = m.distribution().local_nr_tiles().rows() - 1; i >= 0; --i) go(m.readwrite(LocalTileIndex(i, j)) | step(c)); }
// copies what a reader of the tiles sees into `o`
template <class M, class A> void look(M& m, A& o) {
  const auto& d = m.distribution();
  for (S j = 0; j < d.local_nr_tiles().cols(); ++j) for (S i = 0; i < d.local_nr_tiles().rows(); ++i) {
    const S r0 = i * d.tile_size().rows(), c0 = j * d.tile_size().cols();
    go(m.read(LocalTileIndex(i, j)) | transform(Policy<MC>(), [r0, c0, &o](const auto& t) { for (S j = 0; j < t.size().cols(); ++j) for (S i = 0; i < t.size().rows(); ++i) o(r0 + i, c0 + j) = *t.ptr({i, j}); }));
  }
}
template <class T, S M, S N> struct Seq {
  Arr<T, M, N> a, r;
  Seq(const S* p) { a.fill(p, 0); algo::put(r, a); }
  void then(double c) { for (S j = 0; j < N; ++j) for (S i = 0; i < M; ++i) r(i, j) = 2. * r(i, j) + c; }
  template <class F> bool run(F f, S mb, S nb) {
    Arr<T, M, N> a0; algo::put(a0, a);
    bool ok = true;
    for (int lazy = 0; lazy < 2; ++lazy) {
      algo::put(a, a0);
      algo::late(lazy);
      { auto m = local(a, mb, nb); f(m); algo::done(); }
      ok &= a.close(r);
    }
    algo::late(false);
    return ok;
  }
};
}
// accesses to one matrix happen in the order of the program; readers see what the last writer before them wrote
//@ law accesses ; about: include/dlaf/matrix/internal/tile_pipeline.h: read, readwrite ; dom: p=ptr
extern "C" bool law_accesses(const S* p) {
  Seq<double, 3, 3> s(p); Arr<double, 3, 3> o1, r1, o2, r2;
  s.then(1); algo::put(r1, s.r); s.then(2); s.then(3); algo::put(r2, s.r); s.then(4);
  bool ok = true;
  ok &= s.run([&](auto& m) { all(m, 1); look(m, o1); backwards(m, 2); all(m, 3); look(m, o2); backwards(m, 4); algo::done(); ok &= o1.close(r1) & o2.close(r2); }, 2, 2);
  return ok;
}
//@ law sub_pipeline ; about: $SP ; dom: p=ptr
extern "C" bool law_sub_pipeline(const S* p) {
  Seq<double, 3, 3> s(p); Arr<double, 3, 3> o1, r1;
  for (int c = 1; c <= 5; ++c) { s.then(c); if (c == 3) algo::put(r1, s.r); }
  bool ok = true;
  ok &= s.run([&](auto& m) {
    all(m, 1);
    { auto sub = m.sub_pipeline(); all(m, 4); backwards(m, 5); all(sub, 2); all(sub, 3); look(sub, o1); }
    algo::done();
    ok &= o1.close(r1);
  }, 2, 2);
  return ok;
}
// released one by one, by a move, by assignment; sub-pipelines of sub-pipelines
//@ law sub_release ; about: $SP; include/dlaf/matrix/matrix.h: done ; dom: p=ptr
extern "C" bool law_sub_release(const S* p) {
  Seq<double, 3, 4> s(p);
  for (int c = 1; c <= 6; ++c) s.then(c);
  return s.run([&](auto& m) {
    auto sub = m.sub_pipeline();
    all(m, 2);
    all(sub, 1);
    for (S j = 0; j < 2; ++j) for (S i = 0; i < 2; ++i) sub.done(LocalTileIndex(i, j));
    auto sub2 = m.sub_pipeline(); auto sub3 = m.sub_pipeline();
    { auto subsub = sub2.sub_pipeline(); all(sub2, 4); all(sub3, 5); all(m, 6); all(subsub, 3); }
    auto moved = std::move(sub2);
    moved = std::move(sub3);
    { auto last = std::move(moved); }
  }, 2, 2);
}
//@ law sub_const ; about: $SP; include/dlaf/matrix/matrix.h: sub_pipeline_const ; dom: p=ptr
extern "C" bool law_sub_const(const S* p) {
  Seq<Z, 3, 3> s(p); Arr<Z, 3, 3> o1, o2, o3, r1;
  s.then(1); algo::put(r1, s.r); s.then(2);
  bool ok = true;
  ok &= s.run([&](auto& m) {
    all(m, 1);
    { auto sub = m.sub_pipeline_const(); auto re = m.retiled_sub_pipeline_const(LocalTileSize(2, 1)); all(m, 2); look(sub, o1); look(re, o2); look(sub, o3); }
    algo::done();
    ok &= o1.close(r1) & o2.close(r1) & o3.close(r1);
  }, 2, 2);
  return ok;
}
// smaller tiles: same elements at the same positions
//@ law retiled ; about: $SP; include/dlaf/matrix/matrix.h: retiled_sub_pipeline ; dom: p=ptr
extern "C" bool law_retiled(const S* p) {
  Seq<double, 7, 5> s(p); Arr<double, 7, 5> o1, r1;
  for (int c = 1; c <= 4; ++c) { s.then(c); if (c == 2) algo::put(r1, s.r); }
  bool ok = true;
  ok &= s.run([&](auto& m) {
    all(m, 1);
    { auto sub = m.retiled_sub_pipeline(LocalTileSize(2, 3)); all(m, 4); all(sub, 2); look(sub, o1); backwards(sub, 3); ok &= sub.distribution().tile_size() == TileElementSize(2, 1) && sub.distribution().local_nr_tiles() == LocalTileSize(4, 5); }
    algo::done();
    ok &= o1.close(r1);
  }, 4, 3);
  return ok;
}
//@ law retiled_done ; about: $SP; include/dlaf/matrix/matrix.h: retiled_sub_pipeline, done ; dom: p=ptr
extern "C" bool law_retiled_done(const S* p) {
  Seq<double, 3, 4> s(p);
  for (int c = 1; c <= 3; ++c) s.then(c);
  return s.run([&](auto& m) {
    auto sub = m.retiled_sub_pipeline(LocalTileSize(1, 2));
    all(m, 3);
    { auto subsub = sub.sub_pipeline(); all(sub, 2); all(subsub, 1); }
    for (S j = 3; j >= 0; --j) for (S i = 0; i < 2; ++i) sub.done(GlobalTileIndex(i, j));
  }, 2, 2);
}
// waiting: no access to any tile is pending afterwards, whoever asked for it
//@ law wait ; about: $MA: wait_local_tiles ; dom: p=ptr
extern "C" bool law_wait(const S* p) {
  Seq<double, 3, 5> s(p);
  s.then(1); s.then(2); s.then(3);
  bool ok = true;
  ok &= s.run([&](auto& m) {
    long ends = 0;
    auto count = [&](auto&& x) { go(std::forward<decltype(x)>(x) | ex::then([&ends](auto&&...) { ++ends; })); };
    all(m, 1);
    for (S j = 0; j < 3; ++j) for (S i = 0; i < 2; ++i) { count(m.read(LocalTileIndex(i, j))); count(m.read(GlobalTileIndex(i, j))); }
    { auto sub = m.sub_pipeline(); backwards(sub, 2); for (S j = 0; j < 3; ++j) count(sub.read(LocalTileIndex(1, j))); }
    all(m, 3);
    for (S j = 2; j >= 0; --j) count(m.read(LocalTileIndex(0, j)));
    m.wait_local_tiles();
    ok &= ends == 18;
    ok &= s.a.close(s.r);
  }, 2, 2);
  return ok;
}
//@ law wait_empty ; about: $MA: wait_local_tiles ; dom: p=ptr
extern "C" bool law_wait_empty(const S* p) {
  Seq<double, 2, 0> s(p); Seq<double, 2, 2> t(p);
  t.then(1); t.then(2);
  bool ok = s.run([&](auto& m) { m.wait_local_tiles(); auto sub = m.sub_pipeline(); sub.wait_local_tiles(); }, 2, 2);
  ok &= t.run([&](auto& m) { { auto sub = m.retiled_sub_pipeline(LocalTileSize(2, 2)); all(sub, 1); sub.wait_local_tiles(); all(sub, 2); } m.wait_local_tiles(); m.wait_local_tiles(); ok &= t.a.close(t.r); }, 2, 2);
  return ok;
}
// the destructor of a matrix does not wait, and its tasks are still done
//@ law destroyed ; about: $MA ; dom: p=ptr
extern "C" bool law_destroyed(const S* p) {
  Arr<double, 3, 3> a, r;
  a.fill(p, 0);
  for (S k = 0; k < 9; ++k) r.v[k] = 2 * (2 * a.v[k] + 1) + 2;
  algo::late(true);
  { auto m = local(a, 2, 2); all(m, 1); { auto sub = m.sub_pipeline(); all(sub, 2); } }
  { matrix::Matrix<double, CPU> own(LocalElementSize(3, 3), TileElementSize(2, 2)); all(own, 1); }
  algo::done();
  algo::late(false);
  return a.close(r);
}
