#pragma once
#include <run.h>
namespace dlaf {
template <Backend B, Device D, class T> void inverse_from_cholesky_factor(comm::CommunicatorGrid& g, blas::Uplo u, matrix::Matrix<T, D>& a) { capi::start<T>(capi::POTRI, g, u); capi::arg(a, true); }
}
