#pragma once
#include <dlaf/matrix/matrix.h>
namespace dlaf::matrix {
// a mirror behaves as if it were on another device: results arrive in the source when it is destroyed
template <class T, Device A, Device B>
class MatrixMirror {
  Matrix<T, B>& src;
  Matrix<T, A> tgt;
  struct As { const Matrix<T, B>& m; const Distribution& distribution() const { return m.dist; } long min_mem_size() const { return m.d.mem; } };
public:
  MatrixMirror(Matrix<T, B>& s) : src(s), tgt(As{s}, static_cast<const T*>(s.d.p)) { if (!capi::running) capi::used_while_suspended = true; }
  MatrixMirror(const MatrixMirror&) = delete;
  ~MatrixMirror() { copyTargetToSource(); }
  void copyTargetToSource() { if (tgt.busy) src.work(); tgt.busy = false; }
  void copySourceToTarget() { if (src.busy) tgt.work(); }
  Matrix<T, A>& get() { return tgt; }
  Matrix<T, B>& getSource() { return src; }
};
}
