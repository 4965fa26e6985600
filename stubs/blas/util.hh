#pragma once
#include_next <blas/util.hh>
// Newer BLAS++ interface that DLA-Future uses.
#ifndef VERIF_BLAS_SHIM
#define VERIF_BLAS_SHIM
#include <string>
namespace blas {
inline const char* to_c_string(Layout v) { return layout2str(v); }
inline const char* to_c_string(Op v) { return op2str(v); }
inline const char* to_c_string(Uplo v) { return uplo2str(v); }
inline const char* to_c_string(Diag v) { return diag2str(v); }
inline const char* to_c_string(Side v) { return side2str(v); }
inline void from_string(const std::string& s, Uplo* v) { *v = char2uplo(s.at(0)); }
}
#endif
