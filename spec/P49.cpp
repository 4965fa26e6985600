// P49 Initialisation and finalisation are paired; P50 Configured values reach the resource they name
//@ stubs: cfg
//@ flags: -fno-threadsafe-statics -std=c++20
//@ variants: VERIF_NEW_PIKA=1 | -UVERIF_NEW_PIKA | VERIF_NEW_PIKA=1,VERIF_GPU=1 | -UVERIF_NEW_PIKA,VERIF_GPU=1
#include "config.h"
using namespace dlaf;
namespace {
// what happens, in order, and with what values
enum What { START = 1, STOP, HOST, HOST_END, DEVICE, DEVICE_END, POOL, POOL_END, GPU_POLLING, N_WHAT };
int times[N_WHAT];
long with[N_WHAT][6];
INL void happens(What w, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
  ++times[w];
  const long v[6] = {a, b, c, d, e, f};
  for (int k = 0; k < 6; ++k) with[w][k] = v[k];
}
INL bool is(What w, int n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
  const long v[6] = {a, b, c, d, e, f};
  bool ok = times[w] == n;
  for (int k = 0; k < 6; ++k) ok = ok & (with[w][k] == v[k]);
  return ok;
}
INL void nothing_yet() {
  for (int w = 0; w < N_WHAT; ++w) times[w] = 0;
}
bool mpi_on;
int level;
}
void pika::mpi::experimental::verif_start_polling(exception_mode) { happens(START); }
void pika::mpi::experimental::verif_stop_polling() { happens(STOP); }
namespace verif_cfg {
void pool(long a, long b, long c, long d, long e, long f) { happens(POOL, a, b, c, d, e, f); }
void pool_end() { happens(POOL_END); }
void gpu_polling() { happens(GPU_POLLING); }
}
namespace dlaf::memory::internal {
void initializeUmpireHostAllocator(std::size_t a, std::size_t b, std::size_t c, double d, double e) { happens(HOST, long(a), long(b), long(c), long(d), long(e)); }
void finalizeUmpireHostAllocator() { happens(HOST_END); }
#ifdef VERIF_GPU
void initializeUmpireDeviceAllocator(std::size_t a, std::size_t b, std::size_t c, double d, double e) { happens(DEVICE, long(a), long(b), long(c), long(d), long(e)); }
void finalizeUmpireDeviceAllocator() { happens(DEVICE_END); }
#endif
}
extern "C" {
int MPI_Initialized(int* f) { *f = mpi_on; return MPI_SUCCESS; }
int MPI_Query_thread(int* l) { *l = level; return MPI_SUCCESS; }
int MPI_Abort(MPI_Comm, int) { verif_stop_moderate(); return 0; }
}
namespace {
using namespace cfgmodel;
void nothing_given() { env_set = cmd_set = help = 0; }
configuration user(long u) {
  configuration c;
  long k = 0;
#define X(K, N) c.N = decltype(c.N)(u + 5 * ++k);
  CONFIGURATION(X) UNUSED_STREAMS(X)
#undef X
  c.print_config = false;
  return c;
}
bool equal(const configuration& a, const configuration& b) {
  bool ok = true;
#define X(K, N) ok = ok & (a.N == b.N);
  CONFIGURATION(X) UNUSED_STREAMS(X)
#undef X
  return ok;
}
#ifdef VERIF_GPU
constexpr bool gpu = true;
#else
constexpr bool gpu = false;
#endif
// everything is started once, with the values of the configuration, what uses memory after the memory
bool started(const configuration& c, bool mpi) {
  bool ok = is(START, mpi);
  ok = ok & is(HOST, 1, long(c.umpire_host_memory_pool_initial_block_bytes), long(c.umpire_host_memory_pool_next_block_bytes), long(c.umpire_host_memory_pool_alignment_bytes), long(c.umpire_host_memory_pool_coalescing_free_ratio),
               long(c.umpire_host_memory_pool_coalescing_reallocation_ratio));
#ifdef VERIF_GPU
  ok = ok & is(DEVICE, 1, long(c.umpire_device_memory_pool_initial_block_bytes), long(c.umpire_device_memory_pool_next_block_bytes), long(c.umpire_device_memory_pool_alignment_bytes),
               long(c.umpire_device_memory_pool_coalescing_free_ratio), long(c.umpire_device_memory_pool_coalescing_reallocation_ratio));
#ifdef VERIF_NEW_PIKA
  const long np = long(c.num_np_gpu_streams), hp = long(c.num_hp_gpu_streams);
#else
  const long np = long(c.num_np_gpu_streams_per_thread), hp = long(c.num_hp_gpu_streams_per_thread);
#endif
  ok = ok & is(POOL, 1, 0, np, hp, with[POOL][3], long(c.num_gpu_blas_handles), long(c.num_gpu_lapack_handles)) & (times[GPU_POLLING] == 1);
#endif
  return ok & (times[HOST_END] + times[DEVICE_END] + times[POOL_END] + times[STOP] == 0);
}
// and released once
bool released(bool mpi) {
  return (times[STOP] == mpi) & (times[HOST_END] == 1) & (times[DEVICE_END] == gpu) & (times[POOL_END] == gpu) & (times[START] + times[HOST] + times[DEVICE] + times[POOL] + times[GPU_POLLING] == 0);
}
}
//@ def O = initial=1 ; n=400 ; mem=8
//@ law history ; about: src/init.cpp: initialize, finalize: two rounds ; dom: u=0..10**6, v=0..10**6, m={0,1}, m2={0,1} ; $O
extern "C" bool law_history(long u, long v, long m, long m2) {
  nothing_given();
  level = MPI_THREAD_MULTIPLE;
  mpi_on = m;
  const configuration none, one = user(u), two = user(v);
  nothing_yet();
  initialize(pika::verif_options::variables_map{}, one);
  bool ok = started(one, m) & equal(internal::getConfiguration(), one);
  nothing_yet();
  finalize();
  ok = ok & released(m) & equal(internal::getConfiguration(), none);
  mpi_on = m2;
  nothing_yet();
  initialize(0, nullptr, two);
  ok = ok & started(two, m2) & equal(internal::getConfiguration(), two);
  nothing_yet();
  finalize();
  return ok & released(m2) & equal(internal::getConfiguration(), none);
}
//@ law scoped ; about: src/init.cpp: ScopedInitializer ; dom: u=0..10**6, v=0..10**6, m={0,1} ; $O
extern "C" bool law_scoped(long u, long v, long m) {
  nothing_given();
  level = MPI_THREAD_MULTIPLE;
  mpi_on = m;
  const configuration none, one = user(u), two = user(v);
  bool ok = true;
  nothing_yet();
  {
    ScopedInitializer s(0, nullptr, one);
    ok = ok & started(one, m) & equal(internal::getConfiguration(), one);
    nothing_yet();
  }
  ok = ok & released(m) & equal(internal::getConfiguration(), none);
  nothing_yet();
  {
    ScopedInitializer s(pika::verif_options::variables_map{}, two);
    ok = ok & started(two, m) & equal(internal::getConfiguration(), two);
    nothing_yet();
  }
  return ok & released(m) & equal(internal::getConfiguration(), none);
}
//@ law help ; about: src/init.cpp: initialize: with the option help ; dom: u=0..10**6, m={0,1}, h=1..3 ; $O
extern "C" void rej_help(long u, long m, long h) {
  nothing_given();
  help = h;
  mpi_on = m, level = MPI_THREAD_MULTIPLE;
  initialize(0, nullptr, user(u));
}
//@ law twice ; about: src/init.cpp: initialize twice ; dom: u=0..10**6, m={0,1} ; $O
extern "C" void rej_twice(long u, long m) {
  nothing_given();
  level = MPI_THREAD_MULTIPLE;
  mpi_on = m;
  initialize(0, nullptr, user(u));
  initialize(0, nullptr, user(u));
}
//@ law end_first ; about: src/init.cpp: finalize before initialize ; dom: u=0..10**6, m={0,1} ; $O
extern "C" void rej_end_first(long, long m) {
  nothing_given();
  mpi_on = m;
  finalize();
}
//@ law end_twice ; about: src/init.cpp: finalize twice ; dom: u=0..10**6, m={0,1} ; $O
extern "C" void rej_end_twice(long u, long m) {
  nothing_given();
  level = MPI_THREAD_MULTIPLE;
  mpi_on = m;
  initialize(0, nullptr, user(u));
  finalize();
  finalize();
}
//@ law thread_level ; about: src/init.cpp: initialize: thread support of MPI ; dom: u=0..10**6, l={0,1,2} ; $O
extern "C" void rej_thread_level(long u, long l) {
  static_assert(MPI_THREAD_SINGLE == 0 && MPI_THREAD_MULTIPLE == 3);
  nothing_given();
  level = int(l);
  mpi_on = true;
  initialize(0, nullptr, user(u));
}
//@ law no_mpi ; about: src/init.cpp: initialize: without MPI, its thread support does not matter ; dom: u=0..10**6, l={0,1,2,3} ; $O
extern "C" bool law_no_mpi(long u, long l) {
  nothing_given();
  level = int(l);
  mpi_on = false;
  nothing_yet();
  initialize(0, nullptr, user(u));
  return started(user(u), false);
}
//@ law applied ; about: src/init.cpp: initialize: with what the environment and the command line give ; dom: u=0..10**6, m={0,1}, eb=-10**6..10**6, cb=-10**6..10**6 ; $O
extern "C" bool law_applied(long u, long m, long eb, long cb) {
  for (int k = 0; k < P_END; ++k) slot[k][0] = char(k + 1), slot[k][1] = 0;
  env_set = 0x5555555555555555, cmd_set = 0x3333333333333333, help = 0, env_base = eb, cmd_base = cb;
#define X(K, N) env_set &= ~(1l << P_##N), cmd_set &= ~(1l << P_##N);
  X(B, print_config) DUMP(X)
#undef X
  level = MPI_THREAD_MULTIPLE;
  mpi_on = m;
  configuration now = user(u);
  internal::updateConfiguration({}, now);
  nothing_yet();
  initialize(0, nullptr, user(u));
  return started(now, m) & equal(internal::getConfiguration(), now);
}
