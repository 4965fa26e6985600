// P20 Every element type travels as the MPI type of its own representation
//@ flags: -DOMPI_SKIP_MPICXX
#include <type_traits>
#include <dlaf/communication/datatypes.h>
//@ src: src/communication/datatypes.cpp
using namespace dlaf::comm;
//@ def F = src/communication/datatypes.cpp
//@ def G = include/dlaf/communication/datatypes.h
template <class T> static MPI_Datatype ty() { return mpi_datatype<T>::type; }
//@ law char ; about: $F: mpi_datatype<char> ; initial=1
extern "C" bool law_char() { return ty<char>() == MPI_CHAR; }
//@ law const_char ; about: $G: mpi_datatype<const char> ; initial=1
extern "C" bool law_const_char() { return ty<const char>() == ty<char>(); }
//@ law short ; about: $F: mpi_datatype<short> ; initial=1
extern "C" bool law_short() { return ty<short>() == MPI_SHORT; }
//@ law const_short ; about: $G: mpi_datatype<const short> ; initial=1
extern "C" bool law_const_short() { return ty<const short>() == ty<short>(); }
//@ law int ; about: $F: mpi_datatype<int> ; initial=1
extern "C" bool law_int() { return ty<int>() == MPI_INT; }
//@ law const_int ; about: $G: mpi_datatype<const int> ; initial=1
extern "C" bool law_const_int() { return ty<const int>() == ty<int>(); }
//@ law long ; about: $F: mpi_datatype<long> ; initial=1
extern "C" bool law_long() { return ty<long>() == MPI_LONG; }
//@ law const_long ; about: $G: mpi_datatype<const long> ; initial=1
extern "C" bool law_const_long() { return ty<const long>() == ty<long>(); }
//@ law long_long ; about: $F: mpi_datatype<long long> ; initial=1
extern "C" bool law_long_long() { return ty<long long>() == MPI_LONG_LONG || ty<long long>() == MPI_LONG_LONG_INT; }
//@ law const_long_long ; about: $G: mpi_datatype<const long long> ; initial=1
extern "C" bool law_const_long_long() { return ty<const long long>() == ty<long long>(); }
//@ law unsigned_char ; about: $F: mpi_datatype<unsigned char> ; initial=1
extern "C" bool law_unsigned_char() { return ty<unsigned char>() == MPI_UNSIGNED_CHAR; }
//@ law const_unsigned_char ; about: $G: mpi_datatype<const unsigned char> ; initial=1
extern "C" bool law_const_unsigned_char() { return ty<const unsigned char>() == ty<unsigned char>(); }
//@ law unsigned_short ; about: $F: mpi_datatype<unsigned short> ; initial=1
extern "C" bool law_unsigned_short() { return ty<unsigned short>() == MPI_UNSIGNED_SHORT; }
//@ law const_unsigned_short ; about: $G: mpi_datatype<const unsigned short> ; initial=1
extern "C" bool law_const_unsigned_short() { return ty<const unsigned short>() == ty<unsigned short>(); }
//@ law unsigned_int ; about: $F: mpi_datatype<unsigned int> ; initial=1
extern "C" bool law_unsigned_int() { return ty<unsigned int>() == MPI_UNSIGNED; }
//@ law const_unsigned_int ; about: $G: mpi_datatype<const unsigned int> ; initial=1
extern "C" bool law_const_unsigned_int() { return ty<const unsigned int>() == ty<unsigned int>(); }
//@ law unsigned_long ; about: $F: mpi_datatype<unsigned long> ; initial=1
extern "C" bool law_unsigned_long() { return ty<unsigned long>() == MPI_UNSIGNED_LONG; }
//@ law const_unsigned_long ; about: $G: mpi_datatype<const unsigned long> ; initial=1
extern "C" bool law_const_unsigned_long() { return ty<const unsigned long>() == ty<unsigned long>(); }
//@ law unsigned_long_long ; about: $F: mpi_datatype<unsigned long long> ; initial=1
extern "C" bool law_unsigned_long_long() { return ty<unsigned long long>() == MPI_UNSIGNED_LONG_LONG; }
//@ law const_unsigned_long_long ; about: $G: mpi_datatype<const unsigned long long> ; initial=1
extern "C" bool law_const_unsigned_long_long() { return ty<const unsigned long long>() == ty<unsigned long long>(); }
//@ law float ; about: $F: mpi_datatype<float> ; initial=1
extern "C" bool law_float() { return ty<float>() == MPI_FLOAT; }
//@ law const_float ; about: $G: mpi_datatype<const float> ; initial=1
extern "C" bool law_const_float() { return ty<const float>() == ty<float>(); }
//@ law double ; about: $F: mpi_datatype<double> ; initial=1
extern "C" bool law_double() { return ty<double>() == MPI_DOUBLE; }
//@ law const_double ; about: $G: mpi_datatype<const double> ; initial=1
extern "C" bool law_const_double() { return ty<const double>() == ty<double>(); }
//@ law bool ; about: $F: mpi_datatype<bool> ; initial=1
extern "C" bool law_bool() { return ty<bool>() == MPI_CXX_BOOL || ty<bool>() == MPI_C_BOOL; }
//@ law const_bool ; about: $G: mpi_datatype<const bool> ; initial=1
extern "C" bool law_const_bool() { return ty<const bool>() == ty<bool>(); }
//@ law complex_float ; about: $F: mpi_datatype<std::complex<float>> ; initial=1
extern "C" bool law_complex_float() { return ty<std::complex<float>>() == MPI_CXX_FLOAT_COMPLEX || ty<std::complex<float>>() == MPI_C_FLOAT_COMPLEX; }
//@ law const_complex_float ; about: $G: mpi_datatype<const std::complex<float>> ; initial=1
extern "C" bool law_const_complex_float() { return ty<const std::complex<float>>() == ty<std::complex<float>>(); }
//@ law complex_double ; about: $F: mpi_datatype<std::complex<double>> ; initial=1
extern "C" bool law_complex_double() { return ty<std::complex<double>>() == MPI_CXX_DOUBLE_COMPLEX || ty<std::complex<double>>() == MPI_C_DOUBLE_COMPLEX; }
//@ law const_complex_double ; about: $G: mpi_datatype<const std::complex<double>> ; initial=1
extern "C" bool law_const_complex_double() { return ty<const std::complex<double>>() == ty<std::complex<double>>(); }
