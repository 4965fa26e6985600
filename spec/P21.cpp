// P21 A message describes exactly the elements of its data
//@ src: src/communication/datatypes.cpp
//@ flags: -DOMPI_SKIP_MPICXX
#include "mpimodel.h"
#include <complex>
#include <vector>
#include <dlaf/common/data_descriptor.h>
#include <dlaf/communication/message.h>
using namespace dlaf;
using dlaf::common::DataDescriptor;
using S = long;
extern "C" void verif_mpi_elem(const void* p) noexcept;
extern "C" void verif_mpi_vec(long n, long b, long s, const void* t) noexcept;
//@ def M = include/dlaf/communication/message.h: Message, include/dlaf/communication/type_handler.h: type_handler
//@ def D = p=ptr, n=0..4, b=0..4, s=0..8
//@ def O = unroll=18 ; n=6000 ; initial=1 ; events=verif_mpi.*
template <class M> static void visit(const M& m) {
  mpimodel::each(const_cast<long*>(m.data()), m.count(), m.mpi_type(), [&](long, long& x) { verif_mpi_elem(&x); });
}
//@ law elements ; about: $M: the elements described by (data, count, mpi_type) are the elements of the data, in order ; dom: $D ; $O ; ends=1
extern "C" void impl_elements(S* p, S n, S b, S s) {
  verif::assume(s >= b || n <= 1);
  visit(comm::make_message(DataDescriptor<S>(p, n, b, s)));
}
extern "C" void spec_elements(S* p, S n, S b, S s) {
  verif::assume(s >= b || n <= 1);
  for (S k = 0; k < n * b; ++k) verif_mpi_elem(p + k / b * s + k % b);
}
//@ law elements_const ; about: $M for data which can only be read ; dom: $D ; $O ; ends=1
extern "C" void impl_elements_const(const S* p, S n, S b, S s) {
  verif::assume(s >= b || n <= 1);
  visit(comm::make_message(DataDescriptor<const S>(p, n, b, s)));
}
extern "C" void spec_elements_const(const S* p, S n, S b, S s) {
  verif::assume(s >= b || n <= 1);
  for (S k = 0; k < n * b; ++k) verif_mpi_elem(p + k / b * s + k % b);
}
//@ law elements_moved ; about: $M: a moved message ; dom: $D, k=0..1 ; $O ; ends=1
extern "C" void impl_elements_moved(S* p, S n, S b, S s, int k) {
  verif::assume(s >= b || n <= 1);
  auto m = comm::make_message(DataDescriptor<S>(p, n, b, s));
  auto l = comm::make_message(DataDescriptor<S>(p, 1));
  if (k == 0) {
    auto q = std::move(m);
    visit(q);
  }
  else {
    l = std::move(m);
    visit(l);
  }
}
extern "C" void spec_elements_moved(S* p, S n, S b, S s, int k) {
  verif::assume(s >= b || n <= 1);
  for (S i = 0; i < n * b; ++i) verif_mpi_elem(p + i / b * s + i % b);
}
//@ law elements_linear ; about: $M: contiguous data, arrays, pointers with a length ; dom: p=ptr, n=0..12, k=0..2 ; $O ; ends=1
extern "C" void impl_elements_linear(S* p, S n, int k) {
  if (k == 0) visit(comm::make_message(common::make_data(p, n)));
  else if (k == 1) visit(comm::make_message(common::make_data(static_cast<const S*>(p), n)));
  else visit(comm::make_message(DataDescriptor<S[4]>(p)));
}
extern "C" void spec_elements_linear(S* p, S n, int k) {
  for (S i = 0; i < (k == 2 ? 4 : n); ++i) verif_mpi_elem(p + i);
}
//@ law strided_type ; about: $M: sizes of the derived type, for every representable size ; dom: p=ptr, n=2..2147483647, b=0..2147483647, s=0..2147483647 ; n=20000 ; initial=1
extern "C" bool law_strided_type(S* p, S n, S b, S s) {
  verif::assume(s > b);
  const auto m = comm::make_message(DataDescriptor<S>(p, n, b, s));
  const auto* v = reinterpret_cast<const mpimodel::Vec*>(m.mpi_type());
  return m.data() == p && m.count() == 1 && v->n == n && v->b == b && v->s == s && v->t == MPI_LONG && v->committed;
}
//@ law linear_type ; about: $M: contiguous data use the basic type, for every representable size ; dom: p=ptr, n=1..100000, b=0..2147483647, k=0..1 ; n=20000 ; initial=1
extern "C" bool law_linear_type(S* p, S n, S b, int k) {
  verif::assume(n * b <= 2147483647);
  const auto m = comm::make_message(k ? DataDescriptor<S>(p, n, b, b) : DataDescriptor<S>(p, n * b));
  return m.data() == p && m.count() == n * b && m.mpi_type() == MPI_LONG;
}
//@ law too_long ; about: $M: a size which MPI cannot represent is rejected ; dom: p=ptr, x=1..1000000000000, k=0..3 ; n=20000 ; initial=1
extern "C" void rej_too_long(S* p, S x, int k) {
  const S l = 2147483647 + x;
  const auto m = comm::make_message(k == 0 ? DataDescriptor<S>(p, l) : k == 1 ? DataDescriptor<S>(p, l, 1, 2) : k == 2 ? DataDescriptor<S>(p, 2, l, l + 1) : DataDescriptor<S>(p, 2, 1, l));
  if (m.count() < 0) return;
}
template <class T> static bool basetype(T* p) {
  const MPI_Datatype t = comm::mpi_datatype<T>::type;
  const auto m = comm::make_message(DataDescriptor<T>(p, 3, 2, 4));
  const auto c = comm::make_message(DataDescriptor<const T>(p, 3, 2, 4));
  const auto d = comm::make_message(DataDescriptor<T>(p, 5));
  const auto e = comm::make_message(DataDescriptor<const T>(p, 5));
  return reinterpret_cast<const mpimodel::Vec*>(m.mpi_type())->t == t && reinterpret_cast<const mpimodel::Vec*>(c.mpi_type())->t == t && d.mpi_type() == t && e.mpi_type() == t &&
         m.data() == p && c.data() == p && d.data() == p && e.data() == p;
}
//@ law base_types ; about: $M: element type of the message for all element types of the library ; dom: p=ptr ; n=100 ; initial=1
extern "C" bool law_base_types(void* p) {
  return basetype(static_cast<float*>(p)) && basetype(static_cast<double*>(p)) && basetype(static_cast<std::complex<float>*>(p)) && basetype(static_cast<std::complex<double>*>(p)) &&
         basetype(static_cast<int*>(p)) && basetype(static_cast<long*>(p)) && basetype(static_cast<char*>(p)) && basetype(static_cast<unsigned*>(p)) && basetype(static_cast<bool*>(p));
}
