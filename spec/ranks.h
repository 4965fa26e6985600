// Several processes in one law: each runs to its end in turn, and what it receives is bound by name to what the others
// send (verif_late/verif_bind, engine/laws.py), so that the order of the processes does not matter. Reference meaning of MPI.
#pragma once
#include <mpi.h>
#include <dlaf/communication/communicator_grid.h>
#include <dlaf/common/with_result_of.h>
extern "C" {
double verif_late(long, long, long, long, long) noexcept;
void verif_bind(long, long, long, long, long, double) noexcept;
long verif_seq(long, long, long, long, long) noexcept;
void verif_meet(long n, long who, long what1, long what2, long, long, long, long, long) noexcept;
bool verif_all_met() noexcept;
[[noreturn]] void verif_order() noexcept;
bool verif_here(long who, long, long, long, long, long) noexcept;   // whether `who` takes part in the meeting by now
}
namespace ranks {
struct Comm { long id; int rank, size, dups; bool live; };   // a communicator as seen by one process
struct Type { long n, b, s; MPI_Datatype t; bool committed; };
inline Comm* of(MPI_Comm c) { Comm* p = reinterpret_cast<Comm*>(c); if (!p->live) verif_stop(); return p; }
inline long epoch = 0;   // which run of the processes: communicators of different runs are different
inline MPI_Comm make(long id, int rank, int size) { return reinterpret_cast<MPI_Comm>(new Comm{id, rank, size, 0, true}); }
// doubles per element; 0: a derived type
inline int width(MPI_Datatype t) { return t == MPI_DOUBLE ? 1 : t == MPI_CXX_DOUBLE_COMPLEX || t == MPI_C_DOUBLE_COMPLEX ? 2 : 0; }
// the doubles of a buffer (types may be freed while an operation is under way)
struct Buf {
  double* q; long n, b, s;
  template <class F> void each(F f) const { for (long i = 0; i < n; ++i) for (long j = 0; j < b; ++j) f(i * b + j, q[i * s + j]); }
  long size() const { return n * b; }
};
inline Buf buf(const void* p, int count, MPI_Datatype t) {
  double* q = static_cast<double*>(const_cast<void*>(p));
  const int w = width(t);
  if (w) return {q, 1, static_cast<long>(count) * w, 0};
  if (t == MPI_LONG || t == MPI_LONG_LONG || t == MPI_UINT64_T || t == MPI_INT64_T || t == MPI_INT || t == MPI_SIGNED_CHAR || t == MPI_BYTE || t == MPI_CHAR) verif_stop();
  const Type* v = reinterpret_cast<const Type*>(t);
  const int u = width(v->t);
  if (count != 1 || !v->committed || !u) verif_stop();
  return {q, v->n, v->b * u, v->s * u};
}
// An operation under way. It completes when all who take part have done so (the latest that MPI allows); only then does a
// receiving buffer have its contents, and until then a sending buffer must keep its own.
struct Req { long n, a, b, c, d, e; bool over; Req(long n, long a, long b, long c, long d, long e) : n(n), a(a), b(b), c(c), d(d), e(e), over(false) {} virtual void finish() = 0; };
template <class F> struct Op final : Req { F f; Op(F f, long n, long a, long b, long c, long d, long e) : Req(n, a, b, c, d, e), f(f) {} void finish() override { f(); } };
template <class F> inline void post(F f, MPI_Request* r, long n, long a, long b, long c, long d, long e) {
#ifdef VERIF_FIBERS
  ++pika::execution::experimental::stub::posts;
  if (r) { *r = reinterpret_cast<MPI_Request>(static_cast<Req*>(new Op<F>(f, n, a, b, c, d, e))); return; }
#endif
  f();
}
// the buffer of an operation that completes has the value it had when the operation was posted
inline void keeps(double x, double posted) { if (__builtin_bit_cast(long, x) != __builtin_bit_cast(long, posted)) verif_stop(); }
enum Kind : long { BCAST = 1, REDUCE, ALLREDUCE, BARRIER, SEND };
inline long opid(MPI_Op op) { return op == MPI_SUM ? 1 : op == MPI_MAX ? 2 : op == MPI_MIN ? 3 : (verif_stop(), 0); }
inline double combine(long op, double a, double b) { return op == 1 ? a + b : op == 2 ? (a < b ? b : a) : (b < a ? b : a); }
}
extern "C" {
int MPI_Comm_size(MPI_Comm c, int* s) { *s = ranks::of(c)->size; return MPI_SUCCESS; }
int MPI_Comm_rank(MPI_Comm c, int* r) { *r = ranks::of(c)->rank; return MPI_SUCCESS; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* o) { ranks::Comm* p = ranks::of(c); ++p->dups; *o = ranks::make(p->id * 32 + p->dups, p->rank, p->size); return MPI_SUCCESS; }
int MPI_Comm_free(MPI_Comm* c) { ranks::of(*c)->live = false; *c = MPI_COMM_NULL; return MPI_SUCCESS; }
int MPI_Type_vector(int n, int b, int s, MPI_Datatype t, MPI_Datatype* r) { *r = reinterpret_cast<MPI_Datatype>(new ranks::Type{n, b, s, t, false}); return MPI_SUCCESS; }
int MPI_Type_commit(MPI_Datatype* t) { reinterpret_cast<ranks::Type*>(*t)->committed = true; return MPI_SUCCESS; }
int MPI_Type_free(MPI_Datatype* t) { delete reinterpret_cast<ranks::Type*>(*t); *t = MPI_DATATYPE_NULL; return MPI_SUCCESS; }
int MPI_Ibcast(void* p, int n, MPI_Datatype t, int root, MPI_Comm c, MPI_Request* req) {
  const ranks::Comm* m = ranks::of(c);
  const long s = verif_seq(m->id, m->rank, 0, 0, 0), id = m->id;
  if (root < 0 || root >= m->size) verif_stop();
  const bool sends = m->rank == root;
  const ranks::Buf b = ranks::buf(p, n, t);
  if (sends) b.each([&](long i, double& x) { verif_bind(id, s, i, -1, 0, x); });
  verif_meet(m->size, m->rank, ranks::BCAST * 1000 + root, b.size(), id, s, 0, 0, 0);
  ranks::post([=] { b.each([&](long i, double& x) { const double v = verif_late(id, s, i, -1, 0); if (sends) ranks::keeps(x, v); else x = v; }); }, req, m->size, id, s, 0, 0, 0);
  return MPI_SUCCESS;
}
int MPI_Bcast(void* p, int n, MPI_Datatype t, int root, MPI_Comm c) { return MPI_Ibcast(p, n, t, root, c, nullptr); }
static int verif_reduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c, MPI_Request* req) {   // root < 0: all
  const ranks::Comm* m = ranks::of(c);
  const long s = verif_seq(m->id, m->rank, 0, 0, 0), o = ranks::opid(op), id = m->id, size = m->size, me = m->rank;
  const bool gets = root < 0 || m->rank == root;
  if (root >= m->size || !ranks::width(t) || (in == MPI_IN_PLACE && !gets) || (gets && in == out)) verif_stop();
  if (ranks::width(t) == 2 && o != 1) verif_stop();   // complex numbers have no order
  const ranks::Buf src = ranks::buf(in == MPI_IN_PLACE ? out : in, n, t), dst = ranks::buf(out, n, t);
  src.each([&](long i, double& x) { verif_bind(m->id, s, i, m->rank, 1, x); });
  verif_meet(m->size, m->rank, (root < 0 ? ranks::ALLREDUCE : ranks::REDUCE) * 1000 + (root < 0 ? 0 : root), static_cast<long>(n) * ranks::width(t) * 8 + o, m->id, s, 0, 0, 0);
  ranks::post([=] {
    if (!gets || in != MPI_IN_PLACE) src.each([&](long i, double& x) { ranks::keeps(x, verif_late(id, s, i, me, 1)); });
    if (gets) dst.each([&](long i, double& x) {
      double r = verif_late(id, s, i, 0, 1);
      for (int q = 1; q < size; ++q) r = ranks::combine(o, r, verif_late(id, s, i, q, 1));
      x = r;
    });
  }, req, m->size, m->id, s, 0, 0, 0);
  return MPI_SUCCESS;
}
int MPI_Ireduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c, MPI_Request* q) { if (root < 0) verif_stop(); return verif_reduce(in, out, n, t, op, root, c, q); }
int MPI_Reduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { if (root < 0) verif_stop(); return verif_reduce(in, out, n, t, op, root, c, nullptr); }
int MPI_Iallreduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request* q) { return verif_reduce(in, out, n, t, op, -1, c, q); }
int MPI_Allreduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return verif_reduce(in, out, n, t, op, -1, c, nullptr); }
int MPI_Ibarrier(MPI_Comm c, MPI_Request* q) { const ranks::Comm* m = ranks::of(c); const long s = verif_seq(m->id, m->rank, 0, 0, 0); verif_meet(m->size, m->rank, ranks::BARRIER * 1000, 0, m->id, s, 0, 0, 0); ranks::post([] {}, q, m->size, m->id, s, 0, 0, 0); return MPI_SUCCESS; }
int MPI_Barrier(MPI_Comm c) { return MPI_Ibarrier(c, nullptr); }
static int verif_p2p(bool send, void* p, int n, MPI_Datatype t, int peer, int tag, MPI_Comm c, MPI_Request* q) {
  const ranks::Comm* m = ranks::of(c);
  if (peer < 0 || peer >= m->size || tag < 0) verif_stop();
  const int src = send ? m->rank : peer, dst = send ? peer : m->rank;
  const long path = src * 64 + dst, s = verif_seq(m->id, path, tag, send ? 1 : 2, 0);
  const ranks::Buf b = ranks::buf(p, n, t);
  if (send) b.each([&](long i, double& x) { verif_bind(m->id, path, i, tag, 16 + s, x); });
  verif_meet(2, send ? 0 : 1, ranks::SEND, b.size(), m->id, path, tag, s, 1);
  const long id = m->id;
  ranks::post([=] { b.each([&](long i, double& x) { const double v = verif_late(id, path, i, tag, 16 + s); if (send) ranks::keeps(x, v); else x = v; }); }, q, 2, m->id, path, tag, s, 1);
  return MPI_SUCCESS;
}
int MPI_Isend(const void* p, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* q) { return verif_p2p(true, const_cast<void*>(p), n, t, d, tag, c, q); }
int MPI_Irecv(void* p, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* q) { return verif_p2p(false, p, n, t, d, tag, c, q); }
int MPI_Send(const void* p, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return verif_p2p(true, const_cast<void*>(p), n, t, d, tag, c, nullptr); }
int MPI_Recv(void* p, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Status*) { return verif_p2p(false, p, n, t, d, tag, c, nullptr); }
}
#ifdef VERIF_FIBERS
bool verif_mpi_test(MPI_Request q) {
  if (q == MPI_REQUEST_NULL) return true;
  auto* r = reinterpret_cast<ranks::Req*>(q);
  bool ok = true;
  if (r->over) return ok;
  for (long w = 0; w < r->n; ++w) ok = ok && verif_here(w, r->a, r->b, r->c, r->d, r->e);
  if (ok) { r->over = true; r->finish(); }
  return ok;
}
#endif
namespace dlaf::comm {
// The communicators of a grid are the subject of P25: here they are what they should be. `comm` has a rank per process,
// row-major.
CommunicatorGrid::CommunicatorGrid(Communicator comm, IndexT_MPI nrows, IndexT_MPI ncols, common::Ordering, std::size_t npipelines) {
  const int r = comm.rank() / ncols, c = comm.rank() % ncols;
  position_ = Index2D(r, c);
  grid_size_ = Size2D(nrows, ncols);
  full_ = Communicator(ranks::make(100 * ranks::epoch + 1, comm.rank(), nrows * ncols));
  row_ = Communicator(ranks::make(100 * ranks::epoch + 2 + r, c, ncols));
  col_ = Communicator(ranks::make(100 * ranks::epoch + 10 + c, r, nrows));
  full_pipelines_ = RoundRobinPipeline<CommunicatorType::Full>(npipelines, dlaf::internal::WithResultOf([&]() { return CommunicatorPipeline<CommunicatorType::Full>{full_.clone(), position_, grid_size_}; }));
  row_pipelines_ = RoundRobinPipeline<CommunicatorType::Row>(npipelines, dlaf::internal::WithResultOf([&]() { return CommunicatorPipeline<CommunicatorType::Row>{row_.clone(), position_, grid_size_}; }));
  col_pipelines_ = RoundRobinPipeline<CommunicatorType::Col>(npipelines, dlaf::internal::WithResultOf([&]() { return CommunicatorPipeline<CommunicatorType::Col>{col_.clone(), position_, grid_size_}; }));
}
void CommunicatorGrid::wait_all_communicators() {}
}
namespace algo {
// runs f(grid) for every process of an R x C grid; the tasks of processes with an odd rank run as late as possible
template <int R, int C, class F> inline void everywhere(F f) {
  ++ranks::epoch;
  auto go = [&](int r) {
    dlaf::comm::CommunicatorGrid grid(dlaf::comm::Communicator(ranks::make(0, r, R * C)), R, C, dlaf::common::Ordering::RowMajor, 3);
    late(r % 2);
    f(grid);
    done();
  };
#ifdef VERIF_FIBERS
  pika::execution::experimental::stub::processes(R * C, go);
#else
  for (int r = 0; r < R * C; ++r) go(r);
#endif
  late(false);
}
// Global matrix of M x N in tiles of MB x NB, over an R x C grid, first tile on process (SR, SC). f(local matrix) is run
// by every process on its part of `a`; afterwards the parts are written back.
template <class T, S M, S N, S LD> struct Part {
  T v[(M + 1) * (N + 1)];
  dlaf::matrix::Distribution d;
  Arr<T, M, N, LD>& a;
  Part(const dlaf::comm::CommunicatorGrid& g, Arr<T, M, N, LD>& x, S mb, S nb, int sr, int sc)
      : d(dlaf::GlobalElementSize(M, N), dlaf::TileElementSize(mb, nb), g.size(), g.rank(), dlaf::comm::Index2D(sr, sc)), a(x), mb_(mb), nb_(nb), gr(g.size()), me(g.rank()), s(sr, sc) {
    visit([](T& mine, T& glob) { mine = glob; });
  }
  S mb_, nb_; dlaf::comm::Size2D gr; dlaf::comm::Index2D me, s;
  // own arithmetic of the block-cyclic distribution
  template <class F> void visit(F f) {
    for (S j = 0; j < N; ++j) for (S i = 0; i < M; ++i) {
      const S ti = i / mb_, tj = j / nb_;
      if ((ti + s.row()) % gr.rows() != me.row() || (tj + s.col()) % gr.cols() != me.col()) continue;
      const S li = ti / gr.rows() * mb_ + i % mb_, lj = tj / gr.cols() * nb_ + j % nb_;
      f(v[li + lj * (M + 1)], a(i, j));
    }
  }
  dlaf::matrix::Matrix<T, CPU> matrix() { return dlaf::matrix::Matrix<T, CPU>(dlaf::matrix::ColMajorLayout(d, M + 1), v); }
  void back(Arr<T, M, N, LD>& out) { done(); for (S j = 0; j < N; ++j) for (S i = 0; i < M; ++i) {
      const S ti = i / mb_, tj = j / nb_;
      if ((ti + s.row()) % gr.rows() != me.row() || (tj + s.col()) % gr.cols() != me.col()) continue;
      out(i, j) = v[ti / gr.rows() * mb_ + i % mb_ + (tj / gr.cols() * nb_ + j % nb_) * (M + 1)];
    } }
};
// f(matrices...) on one process (R = 0; the tasks as late as possible if `lazy`) or f(matrices..., grid) on every process
template <int R, int C, class F, class... A> inline bool run(bool lazy, F f, On<A>... o) {
  if constexpr (R == 0) {
    late(lazy);
    auto go = [&](auto... m) { f(m...); };
    go(local(o.a, o.mb, o.nb)...);
    done();
    late(false);
    return true;
  }
  else {
    everywhere<R, C>([&](dlaf::comm::CommunicatorGrid& g) {
      auto go = [&](auto... part) {
        auto go2 = [&](auto... m) { f(m..., g); };
        go2(part.matrix()...);
        (part.back(part.a), ...);
      };
      go(Part(g, o.a, o.mb, o.nb, o.sr, o.sc)...);
    });
    return verif_all_met();
  }
}
}
