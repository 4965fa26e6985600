// P23 Communication operations pass peer, root, operation and buffers unchanged
//@ src: src/communication/communicator.cpp src/communication/communicator_impl.cpp src/communication/datatypes.cpp
//@ flags: -DOMPI_SKIP_MPICXX
#include "mpimodel.h"
#include <dlaf/common/data_descriptor.h>
#include <dlaf/communication/sync/all_reduce.h>
#include <dlaf/communication/sync/basic.h>
#include <dlaf/communication/sync/reduce.h>
#include <dlaf/communication/sync/broadcast.h>
using namespace dlaf;
using dlaf::common::DataDescriptor;
using S = long;
using D = DataDescriptor<long>;
using C = DataDescriptor<const long>;
//@ def A = include/dlaf/communication/sync/all_reduce.h
//@ def B = include/dlaf/communication/sync/basic.h
//@ def R = include/dlaf/communication/sync/reduce.h
//@ def X = include/dlaf/communication/sync/broadcast.h
//@ def SH = n=1..3, b=1..2, s=b..b+2
//@ def CO = c=ptr, z=1..4, r=0..z-1
//@ def OPT = mem=8 ; unroll=7 ; n=3000 ; initial=1 ; memlanes=250 ; events=verif_mpi.*
static MPI_Op op(S o) { return reinterpret_cast<MPI_Op>(o); }
static S red(S x, S o, MPI_Comm c) { return mpimodel::size(c) == 1 ? x : verif_any_red(x, o, mpimodel::num(c)); }
//@ law all_reduce ; about: $A: allReduce ; dom: p=ptr, q=ptr, $SH, b2=1..4, s2=b2..b2+2, $CO, o=ptr ; $OPT ; ends=1
extern "C" void impl_all_reduce(const S* p, S* q, S n, S b, S s, S b2, S s2, S c, int z, int r, S o) {
  verif::assume(n * b % b2 == 0);
  comm::Communicator cm(mpimodel::comm(c, z, r));
  comm::sync::allReduce(cm, op(o), C(p, n, b, s), D(q, n * b / b2, b2, s2));
}
extern "C" void spec_all_reduce(const S* p, S* q, S n, S b, S s, S b2, S s2, S c, int z, int r, S o) {
  verif::assume(n * b % b2 == 0);
  const MPI_Comm m = mpimodel::comm(c, z, r);
  if (z > 1) verif_mpi_call(4, n * b, mpimodel::num(m));
  for (S k = 0; k < n * b; ++k) q[k / b2 * s2 + k % b2] = red(p[k / b * s + k % b], o, m);
}
//@ law all_reduce_in_place ; about: $A: allReduceInPlace ; dom: q=ptr, $SH, $CO, o=ptr ; $OPT ; ends=1
extern "C" void impl_all_reduce_in_place(S* q, S n, S b, S s, S c, int z, int r, S o) {
  comm::Communicator cm(mpimodel::comm(c, z, r));
  comm::sync::allReduceInPlace(cm, op(o), D(q, n, b, s));
}
extern "C" void spec_all_reduce_in_place(S* q, S n, S b, S s, S c, int z, int r, S o) {
  const MPI_Comm m = mpimodel::comm(c, z, r);
  if (z == 1) return;
  verif_mpi_call(4, n * b, mpimodel::num(m));
  for (S k = 0; k < n * b; ++k) q[k / b * s + k % b] = red(q[k / b * s + k % b], o, m);
}
//@ law reduce ; about: $R: reduce, reduceRecv, reduceSend ; dom: p=ptr, q=ptr, $SH, b2=1..4, s2=b2..b2+2, $CO, o=ptr, t=0..z-1 ; $OPT ; ends=1
extern "C" void impl_reduce(const S* p, S* q, S n, S b, S s, S b2, S s2, S c, int z, int r, S o, int t) {
  verif::assume(n * b % b2 == 0);
  comm::Communicator cm(mpimodel::comm(c, z, r));
  comm::sync::reduce(t, cm, op(o), C(p, n, b, s), D(q, n * b / b2, b2, s2));
}
extern "C" void spec_reduce(const S* p, S* q, S n, S b, S s, S b2, S s2, S c, int z, int r, S o, int t) {
  verif::assume(n * b % b2 == 0);
  const MPI_Comm m = mpimodel::comm(c, z, r);
  if (z > 1) verif_mpi_call(5, n * b, mpimodel::num(m));
  for (S k = 0; k < n * b; ++k) {
    const S x = p[k / b * s + k % b];
    if (t == r) q[k / b2 * s2 + k % b2] = red(x, o, m);
    else verif_mpi_contribute(k, x, t, o, mpimodel::num(m));
  }
}
//@ law reduce_in_place ; about: $R: reduceInPlace, reduceRecvInPlace ; dom: q=ptr, $SH, $CO, o=ptr, t=0..z-1 ; $OPT ; ends=1
extern "C" void impl_reduce_in_place(S* q, S n, S b, S s, S c, int z, int r, S o, int t) {
  comm::Communicator cm(mpimodel::comm(c, z, r));
  comm::sync::reduceInPlace(t, cm, op(o), D(q, n, b, s));
}
extern "C" void spec_reduce_in_place(S* q, S n, S b, S s, S c, int z, int r, S o, int t) {
  const MPI_Comm m = mpimodel::comm(c, z, r);
  if (z == 1) return;
  verif_mpi_call(5, n * b, mpimodel::num(m));
  for (S k = 0; k < n * b; ++k) {
    S& x = q[k / b * s + k % b];
    if (t == r) x = red(x, o, m);
    else verif_mpi_contribute(k, x, t, o, mpimodel::num(m));
  }
}
//@ law reduce_recv ; about: $R: reduceRecv ; dom: p=ptr, q=ptr, $SH, s2=b..b+2, $CO, o=ptr ; $OPT ; ends=1
extern "C" void impl_reduce_recv(const S* p, S* q, S n, S b, S s, S s2, S c, int z, int r, S o) {
  comm::Communicator cm(mpimodel::comm(c, z, r));
  comm::sync::reduceRecv(cm, op(o), C(p, n, b, s), D(q, n, b, s2));
}
extern "C" void spec_reduce_recv(const S* p, S* q, S n, S b, S s, S s2, S c, int z, int r, S o) {
  const MPI_Comm m = mpimodel::comm(c, z, r);
  if (z > 1) verif_mpi_call(5, n * b, mpimodel::num(m));
  for (S k = 0; k < n * b; ++k) q[k / b * s2 + k % b] = red(p[k / b * s + k % b], o, m);
}
//@ law reduce_bad_root ; about: $R: reduce, reduceInPlace reject a root outside the communicator ; dom: p=ptr, q=ptr, c=ptr, z=1..4, r=0..z-1, o=ptr, x=0..100000, k=0..3 ; ends=1
extern "C" void rej_reduce_bad_root(const S* p, S* q, S c, int z, int r, S o, int x, int k) {
  comm::Communicator cm(mpimodel::comm(c, z, r));
  const int root = k & 1 ? z + x : -1 - x;
  if (k & 2) comm::sync::reduce(root, cm, op(o), C(p, 1), D(q, 1));
  else comm::sync::reduceInPlace(root, cm, op(o), D(q, 1));
}
//@ law send ; about: $B: send_to ; dom: p=ptr, $SH, $CO, t=0..z-1 ; $OPT ; ends=1
extern "C" void impl_send(const S* p, S n, S b, S s, S c, int z, int r, int t) {
  comm::Communicator cm(mpimodel::comm(c, z, r));
  comm::sync::send_to(t, cm, C(p, n, b, s));
}
extern "C" void spec_send(const S* p, S n, S b, S s, S c, int z, int r, int t) {
  const S m = mpimodel::num(mpimodel::comm(c, z, r));
  verif_mpi_call(1, 0, m);
  for (S k = 0; k < n * b; ++k) verif_mpi_give(k, p[k / b * s + k % b], t, m);
}
//@ law receive ; about: $B: receive_from ; dom: q=ptr, $SH, $CO, t=0..z-1 ; $OPT ; ends=1
extern "C" void impl_receive(S* q, S n, S b, S s, S c, int z, int r, int t) {
  comm::Communicator cm(mpimodel::comm(c, z, r));
  comm::sync::receive_from(t, cm, D(q, n, b, s));
}
extern "C" void spec_receive(S* q, S n, S b, S s, S c, int z, int r, int t) {
  const S m = mpimodel::num(mpimodel::comm(c, z, r));
  verif_mpi_call(2, 0, m);
  for (S k = 0; k < n * b; ++k) q[k / b * s + k % b] = verif_any_recv(k, t, m);
}
//@ law same_tag ; about: $B: send_to, receive_from ; dom: p=ptr, q=ptr, $CO, t=0..z-1 ; unroll=7 ; n=3000 ; initial=1 ; ends=1
extern "C" bool law_same_tag(const S* p, S* q, S c, int z, int r, int t) {
  comm::Communicator cm(mpimodel::comm(c, z, r));
  mpimodel::last_tag = -77;
  comm::sync::send_to(t, cm, C(p, 1));
  const int a = mpimodel::last_tag;
  mpimodel::last_tag = -78;
  comm::sync::receive_from(t, cm, D(q, 1));
  return a == mpimodel::last_tag && a >= 0;
}
//@ law scalar ; about: $B: send_to, receive_from of pointer arguments ; dom: p=ptr, q=ptr, n=1..5, $CO, t=0..z-1 ; $OPT ; ends=1
extern "C" void impl_scalar(S* p, S* q, S n, S c, int z, int r, int t) {
  comm::Communicator cm(mpimodel::comm(c, z, r));
  comm::sync::send_to(t, cm, common::make_data(p, n));
  comm::sync::receive_from(t, cm, common::make_data(q, n));
}
extern "C" void spec_scalar(S* p, S* q, S n, S c, int z, int r, int t) {
  const S m = mpimodel::num(mpimodel::comm(c, z, r));
  verif_mpi_call(1, 0, m);
  for (S k = 0; k < n; ++k) verif_mpi_give(k, p[k], t, m);
  verif_mpi_call(2, 0, m);
  for (S k = 0; k < n; ++k) q[k] = verif_any_recv(k, t, m);
}
//@ law broadcast_send ; about: $X: send ; dom: p=ptr, $SH, $CO ; $OPT ; ends=1
extern "C" void impl_broadcast_send(S* p, S n, S b, S s, S c, int z, int r) {
  comm::Communicator cm(mpimodel::comm(c, z, r));
  comm::sync::broadcast::send(cm, D(p, n, b, s));
}
extern "C" void spec_broadcast_send(S* p, S n, S b, S s, S c, int z, int r) {
  const S m = mpimodel::num(mpimodel::comm(c, z, r));
  verif_mpi_call(3, r, m);
  for (S k = 0; k < n * b; ++k) verif_mpi_give(k, p[k / b * s + k % b], -1, m);
}
//@ law broadcast_receive ; about: $X: receive_from ; dom: q=ptr, $SH, $CO, t=0..z-1 ; $OPT ; ends=1
extern "C" void impl_broadcast_receive(S* q, S n, S b, S s, S c, int z, int r, int t) {
  verif::assume(t != r);
  comm::Communicator cm(mpimodel::comm(c, z, r));
  comm::sync::broadcast::receive_from(t, cm, D(q, n, b, s));
}
extern "C" void spec_broadcast_receive(S* q, S n, S b, S s, S c, int z, int r, int t) {
  verif::assume(t != r);
  const S m = mpimodel::num(mpimodel::comm(c, z, r));
  verif_mpi_call(3, t, m);
  for (S k = 0; k < n * b; ++k) q[k / b * s + k % b] = verif_any_recv(k, t, m);
}
//@ law same_buffer ; about: $A: allReduce, $R: reduceRecv, reduce: input and output must differ ; dom: q=ptr, n=1..3, b=1..2, s=b..b+2, c=ptr, z=1..4, r=0..z-1, o=ptr, k=0..2 ; unroll=7 ; ends=1
extern "C" void rej_same_buffer(S* q, S n, S b, S s, S c, int z, int r, S o, int k) {
  verif::assume(z == 1 || n == 1 || s == b);   // with a temporary buffer the same memory is harmless
  comm::Communicator cm(mpimodel::comm(c, z, r));
  const D d(q, n, b, s);
  if (k == 0) comm::sync::allReduce(cm, op(o), d, d);
  else if (k == 1) comm::sync::reduceRecv(cm, op(o), d, d);
  else comm::sync::reduce(r, cm, op(o), d, d);
}
//@ law self_broadcast ; about: $X: receive_from: the sender does not receive ; dom: q=ptr, $SH, $CO ; unroll=7 ; ends=1
extern "C" void rej_self_broadcast(S* q, S n, S b, S s, S c, int z, int r) {
  comm::Communicator cm(mpimodel::comm(c, z, r));
  comm::sync::broadcast::receive_from(r, cm, D(q, n, b, s));
}
