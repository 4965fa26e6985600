// P50 Configured values reach the resource they name: tuning parameters that are used
//@ flags: -fno-threadsafe-statics -std=c++20
#include <cstddef>
inline long verif_threads = 1;
#define VERIF_THREADS static_cast<std::size_t>(verif_threads)
#include <pika/runtime.hpp>
#include <dlaf/eigensolver/internal/get_1d_block_size.h>
#include <dlaf/eigensolver/internal/get_band_size.h>
#include <dlaf/eigensolver/internal/get_red2band_barrier_busy_wait.h>
#include <dlaf/eigensolver/internal/get_red2band_panel_nworkers.h>
#include <dlaf/eigensolver/internal/get_tridiag_rank1_barrier_busy_wait.h>
#include <dlaf/eigensolver/internal/get_tridiag_rank1_nworkers.h>
#include <dlaf/factorization/qr/internal/get_tfactor_barrier_busy_wait.h>
#include <dlaf/factorization/qr/internal/get_tfactor_num_workers.h>
#include <dlaf/matrix/allocation.h>
#include <tune.cpp>
using namespace dlaf;
using S = SizeType;
namespace {
// a different value for every parameter
void given(long t) {
  verif_threads = t;
  auto& p = getTuneParameters();
  p.tfactor_num_threads = p.red2band_panel_num_threads = p.tridiag_rank1_num_threads = 1000;
  p.tfactor_num_streams = 1001;
  p.tfactor_barrier_busy_wait_us = 1002, p.red2band_barrier_busy_wait_us = 1003, p.tridiag_rank1_barrier_busy_wait_us = 1004;
  p.eigensolver_min_band = 1005, p.band_to_tridiag_1d_block_size_base = 1006, p.bt_band_to_tridiag_hh_apply_group_size = 1007;
}
// as many workers as are asked for, if there are that many and one is left for everything else
bool workers(std::size_t got, long asked, long t, bool all = false) {
  const bool exact = asked >= 1 && asked <= (all ? t : t - 1);
  return (exact ? got == std::size_t(asked) : true) & (got >= 1) & (got <= std::size_t(t)) & (asked > t || got <= std::size_t(asked > 1 ? asked : 1));
}
bool lasts(std::chrono::duration<double> d, long us) { return d == std::chrono::duration<double>(std::chrono::microseconds(us)); }
}
//@ def D = t=1..300, n=0..400
//@ def O = initial=1 ; mem=8
//@ law tfactor_threads ; about: include/dlaf/factorization/qr/internal/get_tfactor_num_workers.h ; dom: $D ; $O
extern "C" bool law_tfactor_threads(long t, long n) {
  given(t);
  getTuneParameters().tfactor_num_threads = std::size_t(n);
  return workers(factorization::internal::get_tfactor_num_workers<Backend::MC>(), n, t);
}
//@ law tfactor_streams ; about: include/dlaf/factorization/qr/internal/get_tfactor_num_workers.h ; dom: $D ; $O
extern "C" bool law_tfactor_streams(long t, long n) {
  given(t);
  getTuneParameters().tfactor_num_streams = std::size_t(n);
  return factorization::internal::get_tfactor_num_workers<Backend::GPU>() == std::size_t(n > 1 ? n : 1);
}
//@ law red2band_threads ; about: include/dlaf/eigensolver/internal/get_red2band_panel_nworkers.h ; dom: $D ; $O
extern "C" bool law_red2band_threads(long t, long n) {
  given(t);
  getTuneParameters().red2band_panel_num_threads = std::size_t(n);
  return workers(eigensolver::internal::get_red2band_panel_num_workers(), n, t);
}
//@ law rank1_threads ; about: include/dlaf/eigensolver/internal/get_tridiag_rank1_nworkers.h ; dom: $D ; $O
extern "C" bool law_rank1_threads(long t, long n) {
  given(t);
  getTuneParameters().tridiag_rank1_num_threads = std::size_t(n);
  return workers(eigensolver::internal::get_tridiag_rank1_num_workers(), n, t, true);
}
//@ law waits ; about: include/dlaf/eigensolver/internal/get_red2band_barrier_busy_wait.h, include/dlaf/eigensolver/internal/get_tridiag_rank1_barrier_busy_wait.h, include/dlaf/factorization/qr/internal/get_tfactor_barrier_busy_wait.h ; dom: t=1..300, a=0..10**6, b=0..10**6, c=0..10**6 ; $O
extern "C" bool law_waits(long t, long a, long b, long c) {
  given(t);
  auto& p = getTuneParameters();
  p.tfactor_barrier_busy_wait_us = std::size_t(a), p.red2band_barrier_busy_wait_us = std::size_t(b), p.tridiag_rank1_barrier_busy_wait_us = std::size_t(c);
  return lasts(factorization::internal::getTFactorBarrierBusyWait(), a) & lasts(eigensolver::internal::getReductionToBandBarrierBusyWait(), b) & lasts(eigensolver::internal::getTridiagRank1BarrierBusyWait(), c);
}
//@ law block ; about: include/dlaf/eigensolver/internal/get_1d_block_size.h ; dom: t=1..300, nb=1..8|2..400|1..20000, base=1..20000|nb..nb+3|1..nb ; $O
extern "C" bool law_block(long t, long nb, long base) {
  given(t);
  getTuneParameters().band_to_tridiag_1d_block_size_base = base;
  const S r = eigensolver::internal::get1DBlockSize(nb);
  return (r >= nb) & (r % nb == 0) & (base < nb ? r == nb : (r <= base) & (r + nb > base));
}
//@ law band ; about: include/dlaf/eigensolver/internal/get_band_size.h ; dom: t=1..300, nb=1..200, min=2..220|max(2,nb)..nb+1 ; $O ; unroll=110
extern "C" bool law_band(long t, long nb, long min) {
  given(t);
  getTuneParameters().eigensolver_min_band = min;
  const S r = eigensolver::internal::getBandSize(nb);
  S want = nb;   // the smallest divisor of the block that is not below the minimum
  for (S b = nb; b >= 1; --b) if (nb % b == 0 && b >= min) want = b;
  return r == want;
}
//@ law layout ; about: include/dlaf/matrix/allocation.h: layout ; dom: t=1..300, l={0,1,2}, a={0,1,2} ; $O
extern "C" bool law_layout(long t, long l, long a) {
  using matrix::AllocationLayout;
  constexpr AllocationLayout L[3] = {AllocationLayout::ColMajor, AllocationLayout::Blocks, AllocationLayout::Tiles};
  given(t);
  const AllocationLayout wanted = l == 0 ? L[0] : l == 1 ? L[1] : L[2], asked = a == 0 ? L[0] : a == 1 ? L[1] : L[2];
  getTuneParameters().default_allocation_layout = wanted;
  return (matrix::AllocationSpec().layout() == wanted) & (matrix::AllocationSpec(asked).layout() == asked);
}
