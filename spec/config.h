// Configuration and start of the library, with reference models of text, environment, command line, MPI and pika.
#pragma once
#include <algorithm>
#include <array>
#include <cctype>
#include <cstddef>
#include <cstdlib>
#include <exception>
#include <iostream>
#include <memory>
#include <optional>
#include <string>
#include <pika/init.hpp>
#include <pika/mpi.hpp>
#include <pika/runtime.hpp>
#include <dlaf/common/assert.h>
#include <dlaf/communication/error.h>
#include <dlaf/matrix/allocation_io.h>
#include <dlaf/memory/memory_chunk.h>
#define INL [[gnu::always_inline]] inline
// every parameter: kind, name; the kinds are N (std::size_t), S (SizeType), D (double), B (bool)
#define CONFIGURATION(X) \
  X(B, print_config) STREAMS(X) X(N, umpire_host_memory_pool_initial_block_bytes) X(N, umpire_host_memory_pool_next_block_bytes) X(N, umpire_host_memory_pool_alignment_bytes) \
  X(D, umpire_host_memory_pool_coalescing_free_ratio) X(D, umpire_host_memory_pool_coalescing_reallocation_ratio) X(N, umpire_device_memory_pool_initial_block_bytes) \
  X(N, umpire_device_memory_pool_next_block_bytes) X(N, umpire_device_memory_pool_alignment_bytes) X(D, umpire_device_memory_pool_coalescing_free_ratio) \
  X(D, umpire_device_memory_pool_coalescing_reallocation_ratio) X(N, num_gpu_blas_handles) X(N, num_gpu_lapack_handles)
#ifdef VERIF_NEW_PIKA
#define STREAMS(X) X(N, num_np_gpu_streams) X(N, num_hp_gpu_streams)
#define UNUSED_STREAMS(X) X(N, num_np_gpu_streams_per_thread) X(N, num_hp_gpu_streams_per_thread)
#else
#define STREAMS(X) X(N, num_np_gpu_streams_per_thread) X(N, num_hp_gpu_streams_per_thread)
#define UNUSED_STREAMS(X) X(N, num_np_gpu_streams) X(N, num_hp_gpu_streams)
#endif
#define TUNE(X) \
  X(N, tfactor_num_threads) X(N, tfactor_num_streams) X(N, tfactor_barrier_busy_wait_us) X(N, red2band_panel_num_threads) X(N, red2band_barrier_busy_wait_us) X(N, tridiag_rank1_num_threads) \
  X(N, tridiag_rank1_barrier_busy_wait_us) X(S, eigensolver_min_band) X(S, band_to_tridiag_1d_block_size_base) X(S, bt_band_to_tridiag_hh_apply_group_size) X(N, communicator_grid_num_pipelines)
#define DUMP(X) \
  X(B, debug_dump_cholesky_factorization_data) X(B, debug_dump_generalized_to_standard_data) X(B, debug_dump_generalized_eigensolver_data) X(B, debug_dump_eigensolver_data) \
  X(B, debug_dump_reduction_to_band_data) X(B, debug_dump_band_to_tridiagonal_data) X(B, debug_dump_inverse_from_cholesky_factor_data) X(B, debug_dump_triangular_inverse_data) \
  X(B, debug_dump_tridiag_solver_data)
enum Param {
#define X(K, N) P_##N,
  CONFIGURATION(X) TUNE(X) DUMP(X) P_default_allocation_layout, P_END
#undef X
};
using Hash = unsigned long;
namespace cfgmodel {
INL constexpr Hash step(Hash h, char c) { return h * 1099511628211ul + static_cast<unsigned char>(c); }
INL constexpr Hash hash(const char* s, Hash h = 0) {
  for (; *s; ++s) h = step(h, *s);
  return h;
}
constexpr char upper(char c) { return c >= 'a' && c <= 'z' ? char(c - 32) : c; }
constexpr Hash env_name(const char* s) {
  Hash h = hash("DLAF_");
  for (; *s; ++s) h = step(h, upper(*s));
  return h;
}
constexpr Hash cmd_name(const char* s) {
  Hash h = hash("dlaf:");
  for (; *s; ++s) h = step(h, *s == '_' ? '-' : *s);
  return h;
}
constexpr Hash shown_name(const char* s) { return hash(" = ", hash(s, hash("  "))); }
constexpr Hash ENV[P_END] = {
#define X(K, N) env_name(#N),
    CONFIGURATION(X) TUNE(X) DUMP(X) env_name("default_allocation_layout")
#undef X
};
constexpr Hash CMD[P_END] = {
#define X(K, N) cmd_name(#N),
    CONFIGURATION(X) TUNE(X)
#undef X
#define X(K, N) 0,
        DUMP(X)
#undef X
            hash("dlaf:default_allocation_layout")};
INL int find(const Hash* t, Hash h) {
  for (int k = 0; k < P_END; ++k)
    if (t[k] == h) return k;
  return -1;
}
// what the user gives
inline long env_set, cmd_set, env_base, cmd_base, help;
inline bool env_on;
inline char slot[P_END][8];
INL long number(long base, int k) { return base + 17 * k; }
// what is shown
inline Hash shown[64];
inline double value[64];
inline int nshown;
// options that are described
inline Hash option[64];
inline char kind[64];
inline int noptions;
}
namespace std {
struct verif_text {   // hash, and the first characters
  Hash h = 0, scale = 1;
  long n = 0;
  unsigned long first = 0;
  static constexpr long npos = -1;
  verif_text() = default;
  INL verif_text(const char* s) {
    for (; *s; ++s) {
      h = cfgmodel::step(h, *s), scale *= 1099511628211ul;
      put(static_cast<unsigned char>(*s));
      ++n;
    }
  }
  INL void put(unsigned long c) { first |= n < 8 ? c << 8 * n : 0ul; }
  INL unsigned char at(long i) const { return static_cast<unsigned char>(first >> 8 * i); }
  INL long find(const char*) const { return npos; }
  INL const verif_text& c_str() const { return *this; }
  INL bool empty() const { return n == 0; }
  INL long size() const { return n; }
  struct iterator {
    unsigned long* p;
    long i;
    struct reference {
      unsigned long* p;
      long i;
      INL operator char() const { return static_cast<char>(*p >> 8 * i); }
      INL void operator=(int c) const { *p = (*p & ~(255ul << 8 * i)) | static_cast<unsigned long>(c & 255) << 8 * i; }
    };
    INL reference operator*() const { return {p, i}; }
    INL iterator& operator++() { ++i; return *this; }
    INL bool operator==(const iterator& o) const { return i == o.i; }
    INL bool operator!=(const iterator& o) const { return i != o.i; }
  };
  INL iterator begin() { return {&first, 0}; }
  INL iterator end() { return {&first, n}; }
  INL iterator cbegin() { return begin(); }
  INL iterator cend() { return end(); }
};
INL verif_text operator+(const verif_text& x, const verif_text& y) {
  verif_text r;
  r.h = x.h * y.scale + y.h, r.scale = x.scale * y.scale, r.n = x.n + y.n;
  return r;
}
INL verif_text operator+(const char* x, const verif_text& y) { return verif_text(x) + y; }
INL verif_text operator+(const verif_text& x, const char* y) { return x + verif_text(y); }
INL bool same_text(const verif_text& x, const verif_text& y) {   // short ones
  if (x.n != y.n) return false;
  return x.first == y.first;
}
INL bool operator==(const verif_text& x, const verif_text& y) { return same_text(x, y); }
INL bool operator!=(const verif_text& x, const verif_text& y) { return !same_text(x, y); }
INL bool operator==(const verif_text& x, const char* y) { return same_text(x, verif_text(y)); }
INL bool operator!=(const verif_text& x, const char* y) { return !same_text(x, verif_text(y)); }
INL char* verif_getenv(const verif_text& s) {
  const int k = cfgmodel::find(cfgmodel::ENV, s.h);
  return k < 0 || !(cfgmodel::env_set >> k & 1) ? nullptr : cfgmodel::slot[k];
}
INL unsigned long long verif_stoull(const verif_text& s) { return static_cast<unsigned long long>(cfgmodel::number(cfgmodel::env_base, s.at(0) - 1)); }
INL long long verif_stoll(const verif_text& s) { return cfgmodel::number(cfgmodel::env_base, s.at(0) - 1); }
INL double verif_stod(const verif_text& s) { return static_cast<double>(cfgmodel::number(cfgmodel::env_base, s.at(0) - 1)); }
struct verif_ostream {};
struct verif_endl_t {};
INL verif_ostream& operator<<(verif_ostream& o, const char* s) {
  for (; *s; ++s)
    if (*s == '\n') ++cfgmodel::nshown;
    else cfgmodel::shown[cfgmodel::nshown] = cfgmodel::step(cfgmodel::shown[cfgmodel::nshown], *s);
  return o;
}
INL verif_ostream& operator<<(verif_ostream& o, char c) { const char s[2] = {c, 0}; return o << s; }
INL void start_showing() { cfgmodel::nshown = 0; for (Hash& h : cfgmodel::shown) h = 0; }
INL verif_ostream& operator<<(verif_ostream& o, verif_endl_t) { ++cfgmodel::nshown; return o; }
INL verif_ostream& operator<<(verif_ostream& o, const verif_text&) { return o; }
INL verif_ostream& operator<<(verif_ostream& o, const string&) { return o; }
template <class T, class = std::enable_if_t<std::is_arithmetic_v<T> || std::is_enum_v<T>>>
INL verif_ostream& operator<<(verif_ostream& o, T v) { cfgmodel::value[cfgmodel::nshown] = static_cast<double>(v); return o; }
inline verif_ostream verif_cout, verif_cerr;
inline constexpr verif_endl_t verif_endl{};
INL int verif_toupper(int c) { return c >= 97 && c <= 122 ? c - 32 : c; }
[[noreturn]] INL void verif_end() noexcept { ::verif_stop(); }
[[noreturn]] INL void verif_exit(int) noexcept { ::verif_stop_moderate(); }
}
namespace dlaf::matrix {   // the names of the layouts are the subject of P36
INL AllocationLayout allocation_layout_from(const std::verif_text& s) { return s.at(0) == 1 ? AllocationLayout::Blocks : AllocationLayout::Tiles; }
}
namespace pika::verif_options {
struct variable_value {
  int k;
  template <class T>
  INL T as() const {
    if constexpr (std::is_same_v<T, std::verif_text>) { return std::verif_text("\2"); }
    else return static_cast<T>(cfgmodel::number(cfgmodel::cmd_base, k));
  }
};
struct variables_map {
  INL std::size_t count(const std::verif_text& s) const {
    const Hash h = s.h;
    if (h == cfgmodel::hash("dlaf:help")) return static_cast<std::size_t>(cfgmodel::help);
    const int k = cfgmodel::find(cfgmodel::CMD, h);
    return k >= 0 && (cfgmodel::cmd_set >> k & 1);
  }
  INL variable_value operator[](const std::verif_text& s) const { return {cfgmodel::find(cfgmodel::CMD, s.h)}; }
};
template <class T> constexpr char kind_of = std::is_same_v<T, std::size_t> ? 'N' : std::is_same_v<T, dlaf::SizeType> ? 'S' : std::is_same_v<T, double> ? 'D' : std::is_same_v<T, bool> ? 'B' : std::is_same_v<T, std::verif_text> ? 'T' : '?';
struct value_semantic { char kind; };
template <class T> INL value_semantic value() { return {kind_of<T>}; }
INL value_semantic bool_switch() { return {'B'}; }
struct add {
  INL add operator()(const char* n, const char*) const { return (*this)(n, value_semantic{'B'}, ""); }
  INL add operator()(const char* n, value_semantic v, const char*) const {
    cfgmodel::option[cfgmodel::noptions] = cfgmodel::hash(n);
    cfgmodel::kind[cfgmodel::noptions++] = v.kind;
    return *this;
  }
};
struct options_description {
  INL options_description(const char*) {}
  INL add add_options() const { return {}; }
};
INL std::verif_ostream& operator<<(std::verif_ostream& o, const options_description&) { return o; }
struct parsed {};
INL parsed parse_command_line(int, const char* const*, const options_description&) { return {}; }
INL void store(parsed, variables_map&) {}
INL void notify(variables_map&) {}
}
namespace pika::mpi::experimental {
void verif_start_polling(exception_mode);
void verif_stop_polling();
}
#define program_options verif_options
#define string verif_text
#define ostream verif_ostream
#define cerr verif_cerr
#define cout verif_cout
#define endl verif_endl
#define terminate verif_end
#define toupper verif_toupper
#define exit verif_exit
#define getenv verif_getenv
#define stoull verif_stoull
#define stoll verif_stoll
#define stod verif_stod
#define start_polling verif_start_polling
#define stop_polling verif_stop_polling
#undef PIKA_VERSION_FULL
#ifdef VERIF_NEW_PIKA
#define PIKA_VERSION_FULL 0x001F00
#else
#define PIKA_VERSION_FULL 0x001E00
#endif
#ifdef VERIF_GPU
#define DLAF_WITH_GPU
namespace dlaf::memory::internal {
void initializeUmpireDeviceAllocator(std::size_t, std::size_t, std::size_t, double, double);
void finalizeUmpireDeviceAllocator();
}
#endif
#include <dlaf/init.h>
#include <dlaf/tune.h>
namespace dlaf {
std::ostream& operator<<(std::ostream& os, const TuneParameters& params);
}
#include <init.cpp>
#include <tune.cpp>
#undef DLAF_WITH_GPU
