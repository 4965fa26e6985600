#pragma once
#include <run.h>
namespace dlaf {
template <Backend B, Device D, class T> void cholesky_factorization(comm::CommunicatorGrid& g, blas::Uplo u, matrix::Matrix<T, D>& a) { capi::start<T>(capi::POTRF, g, u); capi::arg(a, true); }
}
