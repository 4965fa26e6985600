// P52 the triangular solver solves op(A) X = alpha B or X op(A) = alpha B
//@ algorithm
#include "algo.h"
#include "ranks.h"
#include <dlaf/solver/triangular.h>
#include <dlaf/solver/triangular/impl.h>
namespace dlaf::solver::internal { template struct Triangular<Backend::MC, Device::CPU, double>; template struct Triangular<Backend::MC, Device::CPU, Z>; }
//@ def F = include/dlaf/solver/triangular.h, include/dlaf/solver/triangular/impl.h
template <class T, S M, S N, S MB, S NB, int R, int C>
static bool go(bl::Side sd, bl::Uplo u, bl::Op o, bl::Diag d, const S* p, int sr = 0, int sc = 0, bool zero = false) {
  const bool left = sd == Lft;
  T alpha; algo::scalar(alpha); if (zero) alpha = T(0);
  Arr<T, M, N, M + 1> b, b2;
  b.fill(p, 100); b2.fill(p, 100);
  auto run = [&](auto& a, auto& a0, S nb) {
    a.fill(p, 1); a0.fill(p, 1); algo::diagonal(a, 4); algo::diagonal(a0, 4);
    bool ok = true;
    if constexpr (R == 0) {
      auto ma = local(a, nb, nb);
      auto mb = local(b, MB, NB);
      algo::late(sizeof(T) > 8);
      triangular_solver<MC, CPU, T>(sd, u, o, d, alpha, ma, mb);
      algo::done();
    }
    else {
      algo::everywhere<R, C>([&](comm::CommunicatorGrid& g) {
        algo::Part pa(g, a0, nb, nb, sr, sc);
        algo::Part pb(g, b2, MB, NB, sr, sc);
        auto ma = pa.matrix(); auto mb = pb.matrix();
        triangular_solver<MC, CPU, T>(g, sd, u, o, d, alpha, ma, mb);
        pb.back(b); pa.back(a);
      });
      ok &= verif_all_met();
    }
    ok &= a.equal(a0);   // the triangular matrix is only read
    ref::trsm<T>(sd, u, o, d, M, N, alpha, a0.v, left ? M : N, b2.v, M + 1);
    return ok & b.close(b2);
  };
  if (left) { Arr<T, M, M> a, a0; return run(a, a0, MB); }
  Arr<T, N, N> a, a0;
  return run(a, a0, NB);
}
//@ law lln ; about: $F: call_LLN ; dom: p=ptr
extern "C" bool law_lln(const S* p) { return go<double, 5, 3, 2, 2, 0, 0>(Lft, Low, NT, ND, p) & go<Z, 5, 3, 2, 2, 0, 0>(Lft, Low, NT, UD, p); }
//@ law lln_2x2 ; about: $F: call_LLN ; dom: p=ptr
extern "C" bool law_lln_2x2(const S* p) { return go<double, 5, 3, 2, 2, 2, 2>(Lft, Low, NT, ND, p); }
//@ law lln_src ; about: $F: call_LLN ; dom: p=ptr
extern "C" bool law_lln_src(const S* p) { return go<Z, 3, 2, 1, 1, 3, 1>(Lft, Low, NT, ND, p, 1, 0) & go<Z, 2, 3, 1, 1, 1, 2>(Lft, Low, NT, ND, p, 0, 1); }
//@ law llt ; about: $F: call_LLT ; dom: p=ptr
extern "C" bool law_llt(const S* p) { return go<double, 5, 3, 2, 2, 0, 0>(Lft, Low, TR, UD, p) & go<Z, 5, 3, 2, 2, 0, 0>(Lft, Low, TR, ND, p) & go<Z, 5, 3, 2, 2, 0, 0>(Lft, Low, CT, ND, p); }
//@ law llt_2x2 ; about: $F: call_LLT ; dom: p=ptr
extern "C" bool law_llt_2x2(const S* p) { return go<double, 5, 3, 2, 2, 2, 2>(Lft, Low, CT, ND, p); }
//@ law llt_src ; about: $F: call_LLT ; dom: p=ptr
extern "C" bool law_llt_src(const S* p) { return go<Z, 3, 2, 1, 1, 3, 1>(Lft, Low, CT, ND, p, 1, 0) & go<Z, 2, 3, 1, 1, 1, 2>(Lft, Low, CT, ND, p, 0, 1); }
//@ law lun ; about: $F: call_LUN ; dom: p=ptr
extern "C" bool law_lun(const S* p) { return go<double, 5, 3, 2, 2, 0, 0>(Lft, Upp, NT, ND, p) & go<Z, 5, 3, 2, 2, 0, 0>(Lft, Upp, NT, UD, p); }
//@ law lun_2x2 ; about: $F: call_LUN ; dom: p=ptr
extern "C" bool law_lun_2x2(const S* p) { return go<double, 5, 3, 2, 2, 2, 2>(Lft, Upp, NT, ND, p); }
//@ law lun_src ; about: $F: call_LUN ; dom: p=ptr
extern "C" bool law_lun_src(const S* p) { return go<Z, 3, 2, 1, 1, 3, 1>(Lft, Upp, NT, ND, p, 1, 0) & go<Z, 2, 3, 1, 1, 1, 2>(Lft, Upp, NT, ND, p, 0, 1); }
//@ law lut ; about: $F: call_LUT ; dom: p=ptr
extern "C" bool law_lut(const S* p) { return go<double, 5, 3, 2, 2, 0, 0>(Lft, Upp, TR, UD, p) & go<Z, 5, 3, 2, 2, 0, 0>(Lft, Upp, TR, ND, p) & go<Z, 5, 3, 2, 2, 0, 0>(Lft, Upp, CT, ND, p); }
//@ law lut_2x2 ; about: $F: call_LUT ; dom: p=ptr
extern "C" bool law_lut_2x2(const S* p) { return go<double, 5, 3, 2, 2, 2, 2>(Lft, Upp, CT, ND, p); }
//@ law lut_src ; about: $F: call_LUT ; dom: p=ptr
extern "C" bool law_lut_src(const S* p) { return go<Z, 3, 2, 1, 1, 3, 1>(Lft, Upp, CT, ND, p, 1, 0) & go<Z, 2, 3, 1, 1, 1, 2>(Lft, Upp, CT, ND, p, 0, 1); }
//@ law rln ; about: $F: call_RLN ; dom: p=ptr
extern "C" bool law_rln(const S* p) { return go<double, 3, 5, 2, 2, 0, 0>(Rgt, Low, NT, ND, p) & go<Z, 3, 5, 2, 2, 0, 0>(Rgt, Low, NT, UD, p); }
//@ law rln_2x2 ; about: $F: call_RLN ; dom: p=ptr
extern "C" bool law_rln_2x2(const S* p) { return go<double, 3, 5, 2, 2, 2, 2>(Rgt, Low, NT, ND, p); }
//@ law rln_src ; about: $F: call_RLN ; dom: p=ptr
extern "C" bool law_rln_src(const S* p) { return go<Z, 2, 3, 1, 1, 1, 3>(Rgt, Low, NT, ND, p, 0, 2) & go<Z, 3, 2, 1, 1, 2, 1>(Rgt, Low, NT, ND, p, 1, 0); }
//@ law rlt ; about: $F: call_RLT ; dom: p=ptr
extern "C" bool law_rlt(const S* p) { return go<double, 3, 5, 2, 2, 0, 0>(Rgt, Low, TR, UD, p) & go<Z, 3, 5, 2, 2, 0, 0>(Rgt, Low, TR, ND, p) & go<Z, 3, 5, 2, 2, 0, 0>(Rgt, Low, CT, ND, p); }
//@ law rlt_2x2 ; about: $F: call_RLT ; dom: p=ptr
extern "C" bool law_rlt_2x2(const S* p) { return go<double, 3, 5, 2, 2, 2, 2>(Rgt, Low, CT, ND, p); }
//@ law rlt_src ; about: $F: call_RLT ; dom: p=ptr
extern "C" bool law_rlt_src(const S* p) { return go<Z, 2, 3, 1, 1, 1, 3>(Rgt, Low, CT, ND, p, 0, 2) & go<Z, 3, 2, 1, 1, 2, 1>(Rgt, Low, CT, ND, p, 1, 0); }
//@ law run ; about: $F: call_RUN ; dom: p=ptr
extern "C" bool law_run(const S* p) { return go<double, 3, 5, 2, 2, 0, 0>(Rgt, Upp, NT, ND, p) & go<Z, 3, 5, 2, 2, 0, 0>(Rgt, Upp, NT, UD, p); }
//@ law run_2x2 ; about: $F: call_RUN ; dom: p=ptr
extern "C" bool law_run_2x2(const S* p) { return go<double, 3, 5, 2, 2, 2, 2>(Rgt, Upp, NT, ND, p); }
//@ law run_src ; about: $F: call_RUN ; dom: p=ptr
extern "C" bool law_run_src(const S* p) { return go<Z, 2, 3, 1, 1, 1, 3>(Rgt, Upp, NT, ND, p, 0, 2) & go<Z, 3, 2, 1, 1, 2, 1>(Rgt, Upp, NT, ND, p, 1, 0); }
//@ law rut ; about: $F: call_RUT ; dom: p=ptr
extern "C" bool law_rut(const S* p) { return go<double, 3, 5, 2, 2, 0, 0>(Rgt, Upp, TR, UD, p) & go<Z, 3, 5, 2, 2, 0, 0>(Rgt, Upp, TR, ND, p) & go<Z, 3, 5, 2, 2, 0, 0>(Rgt, Upp, CT, ND, p); }
//@ law rut_2x2 ; about: $F: call_RUT ; dom: p=ptr
extern "C" bool law_rut_2x2(const S* p) { return go<double, 3, 5, 2, 2, 2, 2>(Rgt, Upp, CT, ND, p); }
//@ law rut_src ; about: $F: call_RUT ; dom: p=ptr
extern "C" bool law_rut_src(const S* p) { return go<Z, 2, 3, 1, 1, 1, 3>(Rgt, Upp, CT, ND, p, 0, 2) & go<Z, 3, 2, 1, 1, 2, 1>(Rgt, Upp, CT, ND, p, 1, 0); }
//@ law lln_zero ; about: $F: call_LLN ; dom: p=ptr
extern "C" bool law_lln_zero(const S* p) { return go<double, 5, 3, 2, 2, 0, 0>(Lft, Low, NT, ND, p, 0, 0, true) & go<double, 5, 3, 2, 2, 1, 2>(Lft, Low, NT, ND, p, 0, 0, true); }
//@ law llt_zero ; about: $F: call_LLT ; dom: p=ptr
extern "C" bool law_llt_zero(const S* p) { return go<double, 5, 3, 2, 2, 0, 0>(Lft, Low, TR, ND, p, 0, 0, true) & go<double, 5, 3, 2, 2, 1, 2>(Lft, Low, TR, ND, p, 0, 0, true); }
//@ law lun_zero ; about: $F: call_LUN ; dom: p=ptr
extern "C" bool law_lun_zero(const S* p) { return go<double, 5, 3, 2, 2, 0, 0>(Lft, Upp, NT, ND, p, 0, 0, true) & go<double, 5, 3, 2, 2, 1, 2>(Lft, Upp, NT, ND, p, 0, 0, true); }
//@ law lut_zero ; about: $F: call_LUT ; dom: p=ptr
extern "C" bool law_lut_zero(const S* p) { return go<double, 5, 3, 2, 2, 0, 0>(Lft, Upp, TR, ND, p, 0, 0, true) & go<double, 5, 3, 2, 2, 1, 2>(Lft, Upp, TR, ND, p, 0, 0, true); }
//@ law rln_zero ; about: $F: call_RLN ; dom: p=ptr
extern "C" bool law_rln_zero(const S* p) { return go<double, 3, 5, 2, 2, 0, 0>(Rgt, Low, NT, ND, p, 0, 0, true) & go<double, 3, 5, 2, 2, 1, 2>(Rgt, Low, NT, ND, p, 0, 0, true); }
//@ law rlt_zero ; about: $F: call_RLT ; dom: p=ptr
extern "C" bool law_rlt_zero(const S* p) { return go<double, 3, 5, 2, 2, 0, 0>(Rgt, Low, TR, ND, p, 0, 0, true) & go<double, 3, 5, 2, 2, 1, 2>(Rgt, Low, TR, ND, p, 0, 0, true); }
//@ law run_zero ; about: $F: call_RUN ; dom: p=ptr
extern "C" bool law_run_zero(const S* p) { return go<double, 3, 5, 2, 2, 0, 0>(Rgt, Upp, NT, ND, p, 0, 0, true) & go<double, 3, 5, 2, 2, 1, 2>(Rgt, Upp, NT, ND, p, 0, 0, true); }
//@ law rut_zero ; about: $F: call_RUT ; dom: p=ptr
extern "C" bool law_rut_zero(const S* p) { return go<double, 3, 5, 2, 2, 0, 0>(Rgt, Upp, TR, ND, p, 0, 0, true) & go<double, 3, 5, 2, 2, 1, 2>(Rgt, Upp, TR, ND, p, 0, 0, true); }
