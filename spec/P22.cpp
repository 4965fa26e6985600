// P22 No MPI error code is ignored
//@ src: src/communication/communicator.cpp src/communication/communicator_impl.cpp src/communication/datatypes.cpp
//@ flags: -DOMPI_SKIP_MPICXX
#include <mpi.h>
// Reference MPI in which call number `at` fails with code `code`.
namespace fail {
inline long calls, at;
inline int code;
static int rc() { return calls++ == at ? code : MPI_SUCCESS; }
}
extern "C" {
int MPI_Type_vector(int, int, int, MPI_Datatype, MPI_Datatype* r) { *r = reinterpret_cast<MPI_Datatype>(0x7000); return fail::rc(); }
int MPI_Type_commit(MPI_Datatype*) { return fail::rc(); }
int MPI_Type_free(MPI_Datatype* t) { *t = MPI_DATATYPE_NULL; return fail::rc(); }
int MPI_Comm_dup(MPI_Comm, MPI_Comm* r) { *r = reinterpret_cast<MPI_Comm>(0x9000); return fail::rc(); }
int MPI_Comm_free(MPI_Comm* c) { *c = MPI_COMM_NULL; return fail::rc(); }
int MPI_Comm_size(MPI_Comm, int* s) { *s = 4; return fail::rc(); }
int MPI_Comm_rank(MPI_Comm, int* s) { *s = 1; return fail::rc(); }
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm) { return fail::rc(); }
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*) { return fail::rc(); }
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm) { return fail::rc(); }
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm) { return fail::rc(); }
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm) { return fail::rc(); }
}
#include <dlaf/communication/communicator.h>
#include <dlaf/communication/message.h>
#include <dlaf/communication/sync/all_reduce.h>
#include <dlaf/communication/sync/basic.h>
#include <dlaf/communication/sync/broadcast.h>
#include <dlaf/communication/sync/reduce.h>
using namespace dlaf;
using D = common::DataDescriptor<double>;
using C = common::DataDescriptor<const double>;
//@ def E = include/dlaf/communication/error.h: mpi_call
//@ law mpi_call ; about: $E ; dom: e=i32
extern "C" void rej_mpi_call(int e) {
  verif::assume(e != MPI_SUCCESS);
  DLAF_MPI_CHECK_ERROR(e);
}
//@ law mpi_call_ok ; about: $E ; dom: e=i32
extern "C" bool law_mpi_call_ok(int e) {
  (void) e;
  DLAF_MPI_CHECK_ERROR(MPI_SUCCESS);
  return true;
}
static void operation(int k, double* p, double* q, bool s1, bool s2) {
  const C in = s1 ? C(p, 2, 3, 5) : C(p, 6);
  const D out = s2 ? D(q, 2, 3, 4) : D(q, 6);
  if (k == 0) comm::internal::type_handler<double> t(2, 3, 5);
  else if (k == 1) auto m = comm::make_message(in);
  else if (k == 2) { comm::internal::type_handler<double> t(2, 3, 5), u(1, 2, 3); t = std::move(u); }
  else {
    comm::Communicator c(reinterpret_cast<MPI_Comm>(0x5550));
    if (k == 4) comm::Communicator d = c.clone();
    else if (k == 5) comm::Communicator d = comm::make_communicator_managed(reinterpret_cast<MPI_Comm>(0x5558));
    else if (k == 6) comm::sync::send_to(2, c, in);
    else if (k == 7) comm::sync::receive_from(2, c, out);
    else if (k == 8) comm::sync::broadcast::send(c, out);
    else if (k == 9) comm::sync::broadcast::receive_from(2, c, out);
    else if (k == 10) comm::sync::allReduce(c, MPI_SUM, in, out);
    else if (k == 11) comm::sync::allReduceInPlace(c, MPI_SUM, out);
    else if (k == 12) comm::sync::reduce(1, c, MPI_SUM, in, out);
    else if (k == 13) comm::sync::reduce(2, c, MPI_SUM, in, out);
    else if (k == 14) comm::sync::reduceInPlace(1, c, MPI_SUM, out);
    else if (k == 15) comm::sync::reduceInPlace(2, c, MPI_SUM, out);
  }
}
static long count(int k, double* p, double* q, bool s1, bool s2) {
  fail::calls = 0;
  fail::at = -1;
  operation(k, p, q, s1, s2);
  return fail::calls;
}
//@ def OP = p=ptr, q=ptr, s1=bool, s2=bool
//@ law failing_call ; about: communicator.h, communicator_impl.cpp, type_handler.h, message.h, sync/*.h: whichever MPI call of an operation fails, the program stops with a report ; dom: k=0..15, at=0..11, $OP, e=i32 ; n=4000 ; unroll=8 ; initial=1
extern "C" void rej_failing_call(int k, long at, double* p, double* q, bool s1, bool s2, int e) {
  verif::assume(e != MPI_SUCCESS);
  const long n = count(k, p, q, s1, s2);
  verif::assume(at < n);
  fail::calls = 0;
  fail::at = at;
  fail::code = e;
  operation(k, p, q, s1, s2);
}
//@ law good_calls ; about: the same operations complete when no MPI call fails ; dom: k=0..15, $OP ; n=2000 ; unroll=8 ; initial=1
extern "C" bool law_good_calls(int k, double* p, double* q, bool s1, bool s2) {
  return count(k, p, q, s1, s2) > 0 || (k == 1 && !s1);
}
