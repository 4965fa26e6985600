// P36 Option values are dispatched exhaustively to their own implementation
#include <dlaf/blas/enum_output.h>
#include <dlaf/communication/communicator_type.h>
#include <dlaf/eigensolver/tridiag_solver/coltype.h>
#include <dlaf/memory/memory_type.h>
#include <dlaf/types.h>
#include <dlaf/util_lapack.h>
#include <lapack.hh>
#include "textmodel.h"
using dlaf::internal::FormatShort;
using text::prints;
//@ def F = include/dlaf/blas/enum_output.h
//@ law text_diag ; about: $F: operator<<(Diag) ; dom: k=0..3 ; unroll=16 ; events=none ; ends=1
extern "C" bool law_text_diag(int k) {
  switch (k) {
    case 0: return prints(blas::Diag::Unit, "Unit");
    case 1: return prints(blas::Diag::NonUnit, "NonUnit");
    case 2: return prints(FormatShort<blas::Diag>{blas::Diag::Unit}, "U");
    default: return prints(FormatShort<blas::Diag>{blas::Diag::NonUnit}, "N");
  }
}
//@ law text_layout ; about: $F: operator<<(Layout) ; dom: k=0..3 ; unroll=16 ; events=none ; ends=1
extern "C" bool law_text_layout(int k) {
  switch (k) {
    case 0: return prints(blas::Layout::RowMajor, "RowMajor");
    case 1: return prints(blas::Layout::ColMajor, "ColMajor");
    case 2: return prints(FormatShort<blas::Layout>{blas::Layout::RowMajor}, "R");
    default: return prints(FormatShort<blas::Layout>{blas::Layout::ColMajor}, "C");
  }
}
//@ law text_op ; about: $F: operator<<(Op) ; dom: k=0..5 ; unroll=16 ; events=none ; ends=1
extern "C" bool law_text_op(int k) {
  switch (k) {
    case 0: return prints(blas::Op::NoTrans, "NoTrans");
    case 1: return prints(blas::Op::Trans, "Trans");
    case 2: return prints(blas::Op::ConjTrans, "ConjTrans");
    case 3: return prints(FormatShort<blas::Op>{blas::Op::NoTrans}, "N");
    case 4: return prints(FormatShort<blas::Op>{blas::Op::Trans}, "T");
    default: return prints(FormatShort<blas::Op>{blas::Op::ConjTrans}, "C");
  }
}
//@ law text_side ; about: $F: operator<<(Side) ; dom: k=0..3 ; unroll=16 ; events=none ; ends=1
extern "C" bool law_text_side(int k) {
  switch (k) {
    case 0: return prints(blas::Side::Left, "Left");
    case 1: return prints(blas::Side::Right, "Right");
    case 2: return prints(FormatShort<blas::Side>{blas::Side::Left}, "L");
    default: return prints(FormatShort<blas::Side>{blas::Side::Right}, "R");
  }
}
//@ law text_uplo ; about: $F: operator<<(Uplo) ; dom: k=0..5 ; unroll=16 ; events=none ; ends=1
extern "C" bool law_text_uplo(int k) {
  switch (k) {
    case 0: return prints(blas::Uplo::Lower, "Lower");
    case 1: return prints(blas::Uplo::Upper, "Upper");
    case 2: return prints(blas::Uplo::General, "General");
    case 3: return prints(FormatShort<blas::Uplo>{blas::Uplo::Lower}, "L");
    case 4: return prints(FormatShort<blas::Uplo>{blas::Uplo::Upper}, "U");
    default: return prints(FormatShort<blas::Uplo>{blas::Uplo::General}, "G");
  }
}
//@ law text_format ; about: include/dlaf/common/format_short.h: FormatShort deduced from any value category ; dom: k=0..2 ; unroll=16 ; events=none ; ends=1
extern "C" bool law_text_format(int k) {
  const blas::Uplo c = blas::Uplo::Upper;
  blas::Uplo v = blas::Uplo::Upper;
  switch (k) {
    case 0: return prints(FormatShort{c}, "U");
    case 1: return prints(FormatShort{v}, "U");
    default: return prints(FormatShort{blas::Uplo::Lower}, "L");
  }
}
//@ law text_device ; about: include/dlaf/types.h: operator<<(Device), operator<<(Backend) ; dom: k=0..5 ; unroll=16 ; events=none ; ends=1
extern "C" bool law_text_device(int k) {
  using namespace dlaf;
  switch (k) {
    case 0: return prints(Device::CPU, "CPU");
    case 1: return prints(Device::GPU, "GPU");
    case 2: return prints(Backend::MC, "MC");
    case 3: return prints(Backend::GPU, "GPU");
    case 4: return prints(DefaultDevice_v<Backend::MC>, "CPU") && prints(DefaultDevice_v<Backend::GPU>, "GPU");
    default: return prints(DefaultBackend_v<Device::CPU>, "MC") && prints(DefaultBackend_v<Device::GPU>, "GPU") && Device::Default == Device::CPU && Backend::Default == Backend::MC;
  }
}
//@ law text_column ; about: include/dlaf/eigensolver/tridiag_solver/coltype.h: operator<<(ColType) ; dom: k=0..3 ; unroll=16 ; events=none ; ends=1
extern "C" bool law_text_column(int k) {
  using dlaf::eigensolver::internal::ColType;
  switch (k) {
    case 0: return prints(ColType::UpperHalf, "UpperHalf");
    case 1: return prints(ColType::LowerHalf, "LowerHalf");
    case 2: return prints(ColType::Dense, "Dense");
    default: return prints(ColType::Deflated, "Deflated");
  }
}
//@ law matrix_type ; about: include/dlaf/util_lapack.h: uploToMatrixType ; dom: k=0..2
extern "C" bool law_matrix_type(int k) {
  switch (k) {
    case 0: return lapack::uploToMatrixType(blas::Uplo::Lower) == lapack::MatrixType::Lower;
    case 1: return lapack::uploToMatrixType(blas::Uplo::Upper) == lapack::MatrixType::Upper;
    default: return lapack::uploToMatrixType(blas::Uplo::General) == lapack::MatrixType::General;
  }
}
//@ law matrix_type_bad ; about: include/dlaf/util_lapack.h: uploToMatrixType of a value that is no triangle ; dom: c=0..127
extern "C" void rej_matrix_type_bad(int c) {
  verif::assume(c != 'U' && c != 'L' && c != 'G');
  (void) lapack::uploToMatrixType(static_cast<blas::Uplo>(c));
}
[[gnu::always_inline]] static blas::Uplo uplo(int k) { return k == 0 ? blas::Uplo::Lower : k == 1 ? blas::Uplo::Upper : blas::Uplo::General; }
[[gnu::always_inline]] static lapack::MatrixType type(int k) { return k == 0 ? lapack::MatrixType::Lower : k == 1 ? lapack::MatrixType::Upper : lapack::MatrixType::General; }
// the call reaches the routine of LAPACK++ with the same arguments in the same order
//@ law copy ; about: include/dlaf/util_lapack.h: lacpy(Uplo) ; dom: t=0..3, k=0..2, m=i64, n=i64, a=ptr, lda=i64, b=ptr, ldb=i64
extern "C" void impl_copy(int t, int k, long m, long n, const void* a, long lda, void* b, long ldb) {
  switch (t) {
    case 0: return lapack::lacpy(uplo(k), m, n, static_cast<const float*>(a), lda, static_cast<float*>(b), ldb);
    case 1: return lapack::lacpy(uplo(k), m, n, static_cast<const double*>(a), lda, static_cast<double*>(b), ldb);
    case 2: return lapack::lacpy(uplo(k), m, n, static_cast<const std::complex<float>*>(a), lda, static_cast<std::complex<float>*>(b), ldb);
    default: return lapack::lacpy(uplo(k), m, n, static_cast<const std::complex<double>*>(a), lda, static_cast<std::complex<double>*>(b), ldb);
  }
}
extern "C" void spec_copy(int t, int k, long m, long n, const void* a, long lda, void* b, long ldb) {
  switch (t) {
    case 0: return lapack::lacpy(type(k), m, n, static_cast<const float*>(a), lda, static_cast<float*>(b), ldb);
    case 1: return lapack::lacpy(type(k), m, n, static_cast<const double*>(a), lda, static_cast<double*>(b), ldb);
    case 2: return lapack::lacpy(type(k), m, n, static_cast<const std::complex<float>*>(a), lda, static_cast<std::complex<float>*>(b), ldb);
    default: return lapack::lacpy(type(k), m, n, static_cast<const std::complex<double>*>(a), lda, static_cast<std::complex<double>*>(b), ldb);
  }
}
//@ law set ; about: include/dlaf/util_lapack.h: laset(Uplo) ; dom: t=0..1, k=0..2, m=i64, n=i64, alpha=f64, beta=f64, a=ptr, lda=i64
extern "C" void impl_set(int t, int k, long m, long n, double alpha, double beta, void* a, long lda) {
  if (t == 0) return lapack::laset(uplo(k), m, n, static_cast<float>(alpha), static_cast<float>(beta), static_cast<float*>(a), lda);
  return lapack::laset(uplo(k), m, n, alpha, beta, static_cast<double*>(a), lda);
}
extern "C" void spec_set(int t, int k, long m, long n, double alpha, double beta, void* a, long lda) {
  if (t == 0) return lapack::laset(type(k), m, n, static_cast<float>(alpha), static_cast<float>(beta), static_cast<float*>(a), lda);
  return lapack::laset(type(k), m, n, alpha, beta, static_cast<double*>(a), lda);
}
//@ law set_complex ; about: include/dlaf/util_lapack.h: laset(Uplo) ; dom: t=0..1, k=0..2, m=i64, n=i64, r=f64, i=f64, s=f64, j=f64, a=ptr, lda=i64
extern "C" void impl_set_complex(int t, int k, long m, long n, double r, double i, double s, double j, void* a, long lda) {
  if (t == 0) return lapack::laset(uplo(k), m, n, std::complex<float>(r, i), std::complex<float>(s, j), static_cast<std::complex<float>*>(a), lda);
  return lapack::laset(uplo(k), m, n, std::complex<double>(r, i), std::complex<double>(s, j), static_cast<std::complex<double>*>(a), lda);
}
extern "C" void spec_set_complex(int t, int k, long m, long n, double r, double i, double s, double j, void* a, long lda) {
  if (t == 0) return lapack::laset(type(k), m, n, std::complex<float>(r, i), std::complex<float>(s, j), static_cast<std::complex<float>*>(a), lda);
  return lapack::laset(type(k), m, n, std::complex<double>(r, i), std::complex<double>(s, j), static_cast<std::complex<double>*>(a), lda);
}
//@ law communicator_type ; about: include/dlaf/communication/communicator_type.h: coord_to_communicator_type ; dom: k=0..1
extern "C" bool law_communicator_type(int k) {
  using namespace dlaf;
  return comm::coord_to_communicator_type(k ? Coord::Row : Coord::Col) == (k ? comm::CommunicatorType::Row : comm::CommunicatorType::Col);
}
//@ law memory ; about: include/dlaf/memory/memory_type.h: get_memory_type without devices ; dom: p=ptr
extern "C" bool law_memory(const void* p) { return dlaf::memory::internal::get_memory_type(p) == dlaf::memory::internal::MemoryType::Host; }
