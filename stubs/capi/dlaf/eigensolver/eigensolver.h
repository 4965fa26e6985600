#pragma once
#include <run.h>
namespace dlaf {
template <Backend B, Device D, class T> void hermitian_eigensolver(comm::CommunicatorGrid& g, blas::Uplo u, matrix::Matrix<T, D>& a, matrix::Matrix<BaseType<T>, D>& w, matrix::Matrix<T, D>& z, SizeType b, SizeType e) {
  capi::start<T>(capi::EIG, g, u); capi::arg(a, false); capi::arg(w, true); capi::arg(z, true); capi::c.begin = b; capi::c.end = e;
}
template <Backend B, Device D, class T> void hermitian_eigensolver(comm::CommunicatorGrid& g, blas::Uplo u, matrix::Matrix<T, D>& a, matrix::Matrix<BaseType<T>, D>& w, matrix::Matrix<T, D>& z) { hermitian_eigensolver<B, D, T>(g, u, a, w, z, 0, a.d.m); }
}
