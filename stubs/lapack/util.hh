#pragma once
#include_next <lapack/util.hh>
#ifndef VERIF_LAPACK_SHIM
#define VERIF_LAPACK_SHIM
namespace lapack { inline const char* to_c_string(MatrixType v) { return matrixtype2str(v); } }
#endif
