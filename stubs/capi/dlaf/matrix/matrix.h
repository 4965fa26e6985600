#pragma once
// A matrix is what it was made from: memory and distribution.  Pending work is what nobody waited for yet.
#include <complex>
#include <pika/runtime.hpp>
#include <dlaf/matrix/col_major_layout.h>
#include <dlaf/matrix/distribution.h>
#include <dlaf/types.h>
namespace capi {
using D = dlaf::matrix::Distribution;
struct desc {   // everything that identifies a matrix for the algorithms
  const void* p; long m, n, mb, nb, gr, gc, rr, rc, sr, sc, mem; int kind; bool on_host;
};
template <class T> struct kind;
template <> struct kind<float> { static constexpr int v = 1; };
template <> struct kind<double> { static constexpr int v = 2; };
template <> struct kind<std::complex<float>> { static constexpr int v = 3; };
template <> struct kind<std::complex<double>> { static constexpr int v = 4; };
inline bool used_while_suspended;
inline int pending;   // results nobody waited for
}
namespace dlaf::matrix {
template <class T, Device D> class Matrix;
template <class T, Device D>
class Matrix<const T, D> {
public:
  capi::desc d;
  Distribution dist;
  bool busy = false;
  template <class L> Matrix(const L& l, const T* p) : dist(l.distribution()) {
    d = {p, dist.size().rows(), dist.size().cols(), dist.block_size().rows(), dist.block_size().cols(), dist.grid_size().rows(), dist.grid_size().cols(), dist.rank_index().row(), dist.rank_index().col(), dist.source_rank_index().row(), dist.source_rank_index().col(), l.min_mem_size(), capi::kind<T>::v, true};
  }
  Matrix(Matrix&& o) : d(o.d), dist(o.dist), busy(o.busy) { o.busy = false; }
  ~Matrix() { if (busy) ++capi::pending; }
  const Distribution& distribution() const noexcept { return dist; }
  void wait_local_tiles() noexcept { if (busy) capi::note(capi::WAIT); busy = false; if (!capi::running) capi::used_while_suspended = true; }
  void waitLocalTiles() noexcept { wait_local_tiles(); }
  void work() { busy = true; if (!capi::running) capi::used_while_suspended = true; }
};
template <class T, Device D>
class Matrix : public Matrix<const T, D> {
public:
  using Matrix<const T, D>::Matrix;
};
}
