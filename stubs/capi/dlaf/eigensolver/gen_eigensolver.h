#pragma once
#include <run.h>
namespace dlaf {
#define GEN_(NAME, OP) \
template <Backend B, Device D, class T> void NAME(comm::CommunicatorGrid& g, blas::Uplo u, matrix::Matrix<T, D>& a, matrix::Matrix<T, D>& b_, matrix::Matrix<BaseType<T>, D>& w, matrix::Matrix<T, D>& z, SizeType b, SizeType e) { \
  capi::start<T>(capi::OP, g, u); capi::arg(a, false); capi::arg(b_, false); capi::arg(w, true); capi::arg(z, true); capi::c.begin = b; capi::c.end = e; } \
template <Backend B, Device D, class T> void NAME(comm::CommunicatorGrid& g, blas::Uplo u, matrix::Matrix<T, D>& a, matrix::Matrix<T, D>& b_, matrix::Matrix<BaseType<T>, D>& w, matrix::Matrix<T, D>& z) { NAME<B, D, T>(g, u, a, b_, w, z, 0, a.d.m); }
GEN_(hermitian_generalized_eigensolver, GEN)
GEN_(hermitian_generalized_eigensolver_factorized, GENFAC)
}
