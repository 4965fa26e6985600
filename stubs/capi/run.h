#pragma once
#include <blas.hh>
#include <dlaf/communication/communicator_grid.h>
#include <dlaf/matrix/matrix.h>
namespace capi {
enum op { NONE, POTRF, POTRI, EIG, GEN, GENFAC };
struct call { op o; int type; bool lower, general; const dlaf::comm::CommunicatorGrid* g; desc m[4]; int n; long begin, end; };
inline call c;
inline int runs;
template <class M> [[gnu::always_inline]] inline void arg(M& m, bool result) { c.m[c.n] = m.d; ++c.n; if (result) m.work(); }
template <class T> [[gnu::always_inline]] inline void start(op o, const dlaf::comm::CommunicatorGrid& g, blas::Uplo u) {
  note(RUN); ++runs;
  c.o = o; c.type = kind<T>::v; c.lower = u == blas::Uplo::Lower; c.general = u == blas::Uplo::General; c.g = &g; c.n = 0; c.begin = -1; c.end = -1;
}
}
