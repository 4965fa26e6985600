// Reference semantics of the MPI calls used by the library, compiled into the analysed module in place of the MPI library.
// A communicator handle carries its size and rank; a derived datatype points to its description.
#pragma once
#include <mpi.h>
#include <new>
extern "C" {
long verif_any_red(long value, long op, long comm) noexcept;    // result of a reduction, as a function of this process' contribution
long verif_any_recv(long k, long peer, long comm) noexcept;     // element k received from peer
void verif_mpi_give(long k, long value, long peer, long comm) noexcept;   // this process hands element k to peer
void verif_mpi_contribute(long k, long value, long root, long op, long comm) noexcept;
void verif_mpi_call(long what, long n, long comm) noexcept;
}
namespace mpimodel {
struct Vec { long n, b, s; MPI_Datatype t; bool committed; };
inline int last_tag;
static MPI_Comm comm(long c, int size, int rank) { return reinterpret_cast<MPI_Comm>((c & ~0xffffL) + size * 256 + rank); }
static int size(MPI_Comm c) { return static_cast<int>((reinterpret_cast<long>(c) >> 8) & 0xff); }
static int rank(MPI_Comm c) { return static_cast<int>(reinterpret_cast<long>(c) & 0xff); }
static long num(const void* p) { return reinterpret_cast<long>(p); }
// visits the elements of (count, type) in order
template <class F> static void each(void* p, int count, MPI_Datatype t, F f) {
  long* q = static_cast<long*>(p);
  if (t == MPI_LONG) {
    for (int i = 0; i < count; ++i) f(i, q[i]);
  }
  else {
    const Vec* v = reinterpret_cast<const Vec*>(t);
    if (count != 1 || !v->committed || v->t != MPI_LONG) verif_stop();
    for (long i = 0; i < v->n; ++i)
      for (long j = 0; j < v->b; ++j) f(i * v->b + j, q[i * v->s + j]);
  }
}
}
extern "C" {
int MPI_Comm_size(MPI_Comm c, int* s) { *s = mpimodel::size(c); return MPI_SUCCESS; }
int MPI_Comm_rank(MPI_Comm c, int* r) { *r = mpimodel::rank(c); return MPI_SUCCESS; }
int MPI_Type_vector(int n, int b, int s, MPI_Datatype t, MPI_Datatype* r) {
  *r = reinterpret_cast<MPI_Datatype>(new mpimodel::Vec{n, b, s, t, false});
  return MPI_SUCCESS;
}
int MPI_Type_commit(MPI_Datatype* t) { reinterpret_cast<mpimodel::Vec*>(*t)->committed = true; return MPI_SUCCESS; }
int MPI_Type_free(MPI_Datatype* t) { delete reinterpret_cast<mpimodel::Vec*>(*t); *t = MPI_DATATYPE_NULL; return MPI_SUCCESS; }
int MPI_Send(const void* p, int n, MPI_Datatype t, int dest, int tag, MPI_Comm c) {
  mpimodel::last_tag = tag;
  verif_mpi_call(1, 0, mpimodel::num(c));
  mpimodel::each(const_cast<void*>(p), n, t, [&](long k, long& x) { verif_mpi_give(k, x, dest, mpimodel::num(c)); });
  return MPI_SUCCESS;
}
int MPI_Recv(void* p, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status*) {
  mpimodel::last_tag = tag;
  verif_mpi_call(2, 0, mpimodel::num(c));
  mpimodel::each(p, n, t, [&](long k, long& x) { x = verif_any_recv(k, src, mpimodel::num(c)); });
  return MPI_SUCCESS;
}
int MPI_Bcast(void* p, int n, MPI_Datatype t, int root, MPI_Comm c) {
  verif_mpi_call(3, root, mpimodel::num(c));
  mpimodel::each(p, n, t, [&](long k, long& x) {
    if (root == mpimodel::rank(c)) verif_mpi_give(k, x, -1, mpimodel::num(c));
    else x = verif_any_recv(k, root, mpimodel::num(c));
  });
  return MPI_SUCCESS;
}
int MPI_Allreduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  verif_mpi_call(4, n, mpimodel::num(c));
  if (t != MPI_LONG) verif_stop();
  const long* src = static_cast<const long*>(in == MPI_IN_PLACE ? out : in);
  long* dst = static_cast<long*>(out);
  for (int i = 0; i < n; ++i) dst[i] = verif_any_red(src[i], mpimodel::num(op), mpimodel::num(c));
  return MPI_SUCCESS;
}
int MPI_Reduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
  const bool isroot = root == mpimodel::rank(c);
  verif_mpi_call(5, n, mpimodel::num(c));
  if (t != MPI_LONG || (in == MPI_IN_PLACE && !isroot)) verif_stop();
  const long* src = static_cast<const long*>(in == MPI_IN_PLACE ? out : in);
  long* dst = static_cast<long*>(out);
  for (int i = 0; i < n; ++i) {
    if (isroot) dst[i] = verif_any_red(src[i], mpimodel::num(op), mpimodel::num(c));
    else verif_mpi_contribute(i, src[i], root, mpimodel::num(op), mpimodel::num(c));
  }
  return MPI_SUCCESS;
}
}
