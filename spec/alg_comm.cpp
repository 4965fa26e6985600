// P24, P27 asynchronous communication of tiles: the right data at the right place, tiles and communicators held as long as
// needed and no longer. An operation of the MPI model completes as late as MPI allows, receiving buffers are filled only then,
// and sending buffers must keep their contents until then (ranks.h).
//@ algorithm
#include "algo.h"
#include "ranks.h"
#include <dlaf/communication/kernels/all_reduce.h>
#include <dlaf/communication/kernels/broadcast.h>
#include <dlaf/communication/kernels/p2p.h>
#include <dlaf/communication/kernels/p2p_allsum.h>
#include <dlaf/communication/kernels/reduce.h>
#include <dlaf/sender/with_temporary_tile.h>
//@ def BC = include/dlaf/communication/kernels/internal/broadcast.h, src/communication/kernels/broadcast.cpp, include/dlaf/sender/with_temporary_tile.h, include/dlaf/sender/transform_mpi.h
//@ def RE = include/dlaf/communication/kernels/internal/reduce.h, src/communication/kernels/reduce.cpp, include/dlaf/sender/with_temporary_tile.h
//@ def AR = include/dlaf/communication/kernels/internal/all_reduce.h, src/communication/kernels/all_reduce.cpp, include/dlaf/sender/with_temporary_tile.h
//@ def PP = include/dlaf/communication/kernels/internal/p2p.h, include/dlaf/communication/kernels/p2p_allsum.h, src/communication/kernels/p2p.cpp, include/dlaf/sender/transform_mpi.h
//@ def CP = include/dlaf/communication/communicator_pipeline.h, include/dlaf/sender/transform_mpi.h
//@ def WT = include/dlaf/sender/with_temporary_tile.h
namespace ex = pika::execution::experimental;
namespace {
#define T0 LocalTileIndex(0, 0)
#define T1 LocalTileIndex(0, 1)
// NP processes in a row, each with a matrix of one tile of M x N and a leading dimension of LD; f(matrix, pipeline, rank)
template <class T, S M, S N, S LD, int NP> struct Row {
  Arr<T, M, N, LD> a[NP], r[NP];
  Row(const S* p) { for (int k = 0; k < NP; ++k) { a[k].fill(p, 100 * k); algo::put(r[k], a[k]); } }
  template <class F> bool run(F f, S nb = N) {
    algo::everywhere<1, NP>([&](comm::CommunicatorGrid& g) {
      const int me = g.rank().col();
      auto chain = g.row_communicator_pipeline();
      auto m = local(a[me], M, nb);
      f(m, chain, me);
      algo::done();
    });
    bool ok = verif_all_met();
    for (int k = 0; k < NP; ++k) ok &= a[k].close(r[k]);
    return ok;
  }
};
template <class X> void go(X&& x) { ex::start_detached(std::forward<X>(x)); }
// the task of the program that comes next: overwrites the tile
template <class M> void clobber(M& m, LocalTileIndex ij = T0) {
  go(m.readwrite(ij) | dlaf::internal::transform(dlaf::internal::Policy<MC>(), [](const auto& t) { for (S j = 0; j < t.size().cols(); ++j) for (S i = 0; i < t.size().rows(); ++i) *t.ptr({i, j}) = 7.; }));
}
template <class A> void sevens(A& a, S m, S n) { for (S j = 0; j < n; ++j) for (S i = 0; i < m; ++i) a(i, j) = 7.; }
template <class T, S M, S N, S LD, int NP> bool bcast(const S* p, int root) {
  Row<T, M, N, LD, NP> w(p);
  for (int k = 0; k < NP; ++k) for (S j = 0; j < N; ++j) for (S i = 0; i < M; ++i) w.r[k](i, j) = w.a[root](i, j);
  sevens(w.r[root], M, N);
  return w.run([&](auto& m, auto& chain, int me) {
    if (me == root) { go(comm::schedule_bcast_send(chain.exclusive(), m.read(T0))); clobber(m); }
    else go(comm::schedule_bcast_recv(chain.exclusive(), root, m.readwrite(T0)));
  });
}
template <class T, S M, S N, S LD, int NP> bool reduce(const S* p, int root) {
  Row<T, M, N, LD, NP> w(p);
  for (S j = 0; j < N; ++j) for (S i = 0; i < M; ++i) { T s = T(0); for (int k = 0; k < NP; ++k) s += w.a[k](i, j); w.r[root](i, j) = s; }
  for (int k = 0; k < NP; ++k) if (k != root) sevens(w.r[k], M, N);
  return w.run([&](auto& m, auto& chain, int me) {
    if (me == root) go(comm::schedule_reduce_recv_in_place(chain.exclusive(), MPI_SUM, m.readwrite(T0)));
    else { go(comm::schedule_reduce_send(chain.exclusive(), root, MPI_SUM, m.read(T0))); clobber(m); }
  });
}
// in: first tile, out: second tile
template <class T, S M, S N, S LD, int NP> bool allreduce(const S* p, bool max) {
  Row<T, M, 2 * N, LD, NP> w(p);
  for (S j = 0; j < N; ++j) for (S i = 0; i < M; ++i) {
    T s = w.a[0](i, j);
    for (int k = 1; k < NP; ++k) { if constexpr (sizeof(T) == 8) s = max ? (s < w.a[k](i, j) ? w.a[k](i, j) : s) : s + w.a[k](i, j); else s += w.a[k](i, j); }
    for (int k = 0; k < NP; ++k) w.r[k](i, N + j) = s;
  }
  for (int k = 0; k < NP; ++k) sevens(w.r[k], M, N);
  return w.run([&](auto& m, auto& chain, int) { go(comm::scheduleAllReduce(chain.exclusive(), max ? MPI_MAX : MPI_SUM, m.read(T0), m.readwrite(T1))); clobber(m); }, N);
}
template <class T, S M, S N, S LD, int NP> bool allreduce_in_place(const S* p) {
  Row<T, M, N, LD, NP> w(p);
  for (S j = 0; j < N; ++j) for (S i = 0; i < M; ++i) { T s = T(0); for (int k = 0; k < NP; ++k) s += w.a[k](i, j); for (int k = 0; k < NP; ++k) w.r[k](i, j) = s; }
  return w.run([&](auto& m, auto& chain, int) { go(comm::schedule_all_reduce_in_place(chain.exclusive(), MPI_SUM, m.readwrite(T0))); });
}
// the two tiles of process `from` go to the tiles of process `to`, the second one first; shared access
template <class T, S M, S N, S LD, int NP> bool p2p(const S* p, int from, int to, bool cross) {
  Row<T, M, 2 * N, LD, NP> w(p);
  for (S j = 0; j < 2 * N; ++j) for (S i = 0; i < M; ++i) w.r[to](i, j) = w.a[from](i, cross ? (j + N) % (2 * N) : j);
  sevens(w.r[from], M, 2 * N);
  return w.run([&](auto& m, auto& chain, int me) {
    if (me == from) {
      go(comm::schedule_send(chain.shared(), to, 5, m.read(T1))); go(comm::schedule_send(chain.shared(), to, 4, m.read(T0)));
      clobber(m, T0); clobber(m, T1);
    }
    else if (me == to) { go(comm::schedule_recv(chain.shared(), from, cross ? 5 : 4, m.readwrite(T0))); go(comm::schedule_recv(chain.shared(), from, cross ? 4 : 5, m.readwrite(T1))); }
  }, N);
}
template <class T, S M, S N, S LD> bool sum_p2p(const S* p) {
  Row<T, M, 2 * N, LD, 2> w(p);
  for (S j = 0; j < N; ++j) for (S i = 0; i < M; ++i) { w.r[0](i, N + j) = w.r[1](i, N + j) = w.a[0](i, j) + w.a[1](i, j); }
  for (int k = 0; k < 2; ++k) sevens(w.r[k], M, N);
  return w.run([&](auto& m, auto& chain, int me) { go(comm::schedule_sum_p2p<MC>(chain.shared(), 1 - me, 3, m.read(T0), m.readwrite(T1))); clobber(m); }, N);
}
}
//@ law broadcast ; about: $BC: schedule_bcast_send, schedule_bcast_recv, transformMPI ; dom: p=ptr
extern "C" bool law_broadcast(const S* p) { return bcast<double, 3, 2, 3, 2>(p, 0) & bcast<double, 3, 2, 5, 3>(p, 1) & bcast<Z, 2, 2, 2, 2>(p, 1) & bcast<Z, 1, 2, 3, 3>(p, 2) & bcast<double, 2, 1, 4, 2>(p, 0); }
//@ law reduce ; about: $RE: schedule_reduce_send, schedule_reduce_recv_in_place ; dom: p=ptr
extern "C" bool law_reduce(const S* p) { return reduce<double, 3, 2, 3, 2>(p, 0) & reduce<double, 3, 2, 5, 3>(p, 1) & reduce<Z, 2, 2, 2, 2>(p, 1) & reduce<Z, 1, 2, 3, 3>(p, 2) & reduce<double, 2, 2, 3, 1>(p, 0); }
//@ law all_reduce ; about: $AR: scheduleAllReduce ; dom: p=ptr
extern "C" bool law_all_reduce(const S* p) { return allreduce<double, 3, 2, 3, 2>(p, false) & allreduce<double, 3, 2, 5, 3>(p, false) & allreduce<Z, 2, 1, 2, 2>(p, false) & allreduce<Z, 2, 2, 3, 2>(p, false); }
//@ law all_reduce_max ; about: $AR: scheduleAllReduce ; dom: p=ptr
extern "C" bool law_all_reduce_max(const S* p) { return allreduce<double, 1, 2, 1, 2>(p, true) & allreduce<double, 2, 1, 3, 3>(p, true); }
//@ law all_reduce_in_place ; about: $AR: schedule_all_reduce_in_place ; dom: p=ptr
extern "C" bool law_all_reduce_in_place(const S* p) { return allreduce_in_place<double, 3, 2, 3, 2>(p) & allreduce_in_place<double, 3, 2, 5, 3>(p) & allreduce_in_place<Z, 2, 2, 3, 2>(p); }
//@ law p2p ; about: $PP: schedule_send, schedule_recv ; dom: p=ptr
extern "C" bool law_p2p(const S* p) { return p2p<double, 3, 2, 3, 2>(p, 0, 1, false) & p2p<double, 3, 2, 5, 3>(p, 2, 1, true) & p2p<Z, 2, 2, 2, 2>(p, 1, 0, true) & p2p<Z, 1, 2, 3, 3>(p, 0, 2, false); }
//@ law sum_p2p ; about: $PP: schedule_sum_p2p ; dom: p=ptr
extern "C" bool law_sum_p2p(const S* p) { return sum_p2p<double, 3, 2, 3>(p) & sum_p2p<Z, 2, 1, 3>(p); }
// what one process asks for one after the other goes out in this order, whatever becomes ready first
//@ law in_order ; about: $CP: exclusive, shared, CommunicatorPipeline, transformMPI ; dom: p=ptr
extern "C" bool law_in_order(const S* p) {
  Row<double, 2, 2, 2, 3> w(p);
  for (int k = 0; k < 3; ++k) for (S i = 0; i < 2; ++i) { w.r[k](i, 0) = w.a[1](i, 0); w.r[k](i, 1) = w.a[0](i, 1) + w.a[1](i, 1) + w.a[2](i, 1); }
  return w.run([&](auto& m, auto& chain, int me) {
    auto first = chain.exclusive();
    go(comm::schedule_all_reduce_in_place(chain.exclusive(), MPI_SUM, m.readwrite(T1)));
    if (me == 1) go(comm::schedule_bcast_send(std::move(first), m.read(T0)));
    else go(comm::schedule_bcast_recv(std::move(first), 1, m.readwrite(T0)));
  }, 1);
}
// a communicator is given back once the operation is posted, a tile once it is complete: both receive before they send
//@ law released_when_posted ; about: $CP: consumeCommunicatorWrapper, MPICallHelper, transformMPI ; dom: p=ptr
extern "C" bool law_released_when_posted(const S* p) {
  Row<Z, 2, 2, 3, 2> w(p);
  for (int k = 0; k < 2; ++k) for (S i = 0; i < 2; ++i) w.r[k](i, 1) = w.a[1 - k](i, 0);
  return w.run([&](auto& m, auto& chain, int me) {
    go(comm::schedule_recv(chain.exclusive(), 1 - me, 0, m.readwrite(T1)));
    go(comm::schedule_send(chain.exclusive(), 1 - me, 0, m.read(T0)));
  }, 1);
}
// point-to-point operations and a collective one in turn, several rounds; the pipelines of a grid go round
//@ law rounds ; about: $CP: exclusive, shared, sub_pipeline ; dom: p=ptr
extern "C" bool law_rounds(const S* p) {
  Row<double, 2, 3, 4, 2> w(p);
  for (int k = 0; k < 2; ++k) for (S i = 0; i < 2; ++i) { const double x = w.a[0](i, 0) + w.a[1](i, 0), y = w.a[1 - k](i, 1); w.r[k](i, 0) = x + x; w.r[k](i, 2) = y; }
  return w.run([&](auto& m, auto& chain, int me) {
    go(comm::schedule_all_reduce_in_place(chain.exclusive(), MPI_SUM, m.readwrite(T0)));
    if (me == 0) { go(comm::schedule_send(chain.shared(), 1, 1, m.read(T1))); }
    else { auto s = chain.sub_pipeline(); go(comm::schedule_send(s.shared(), 0, 1, m.read(T1))); go(comm::schedule_recv(s.shared(), 0, 1, m.readwrite(LocalTileIndex(0, 2)))); }
    if (me == 0) go(comm::schedule_recv(chain.shared(), 1, 1, m.readwrite(LocalTileIndex(0, 2))));
    go(comm::schedule_all_reduce_in_place(chain.exclusive(), MPI_SUM, m.readwrite(T0)));
  }, 1);
}
// a staging tile: filled if asked, written back if asked, contiguous if asked
namespace {
template <bool TO, bool FROM, bool CONT, S M, S N, S LD> bool staged(const S* p) {
  using namespace dlaf::internal;
  Arr<double, M, N, LD> a, r;
  a.fill(p, 0); algo::put(r, a);
  const bool flat = M == LD, direct = !CONT || flat;
  bool ok = true;
  for (S j = 0; j < N; ++j) for (S i = 0; i < M; ++i) if (direct || FROM) r(i, j) = TO || direct ? 2 * a(i, j) + 1 : i + 10 * j;
  for (int lazy = 0; lazy < 2; ++lazy) {
    Arr<double, M, N, LD> b;
    algo::put(b, a);
    algo::late(lazy);
    {
      auto m = local(b, M, N);
      double* home = b.v;
      long calls = 0;
      go(withTemporaryTile<CPU, TO ? CopyToDestination::Yes : CopyToDestination::No, FROM ? CopyFromDestination::Yes : CopyFromDestination::No, CONT ? RequireContiguous::Yes : RequireContiguous::No>(
          m.readwrite(T0), [&](auto& t) {
            ++calls;
            ok &= t.size() == TileElementSize(M, N) && (!CONT || t.is_contiguous()) && (t.ptr() == home) == direct;
            return ex::just(std::cref(t)) | transform(Policy<MC>(), [](const auto& t) {
              for (S j = 0; j < N; ++j) for (S i = 0; i < M; ++i) { double& x = *t.ptr({i, j}); x = TO || !CONT || M == LD ? 2 * x + 1 : i + 10 * j; }
            });
          }));
      algo::done();
      ok &= calls == 1;
    }
    ok &= b.equal(r);
  }
  algo::late(false);
  return ok;
}
template <S M, S N, S LD> bool staged_all(const S* p) {
  return staged<false, false, false, M, N, LD>(p) & staged<true, false, false, M, N, LD>(p) & staged<false, true, false, M, N, LD>(p) & staged<true, true, false, M, N, LD>(p) &
         staged<false, false, true, M, N, LD>(p) & staged<true, false, true, M, N, LD>(p) & staged<false, true, true, M, N, LD>(p) & staged<true, true, true, M, N, LD>(p);
}
}
//@ law staged ; about: $WT: withTemporaryTile ; dom: p=ptr
extern "C" bool law_staged(const S* p) { return staged_all<2, 3, 2>(p) & staged_all<3, 1, 3>(p); }
//@ law staged_strided ; about: $WT: withTemporaryTile ; dom: p=ptr
extern "C" bool law_staged_strided(const S* p) { return staged_all<2, 2, 3>(p); }
