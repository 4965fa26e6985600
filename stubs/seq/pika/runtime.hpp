#pragma once
#include <string>
#include <pika/execution.hpp>
namespace pika {
namespace resource {
inline threads::thread_pool_base stub_pool;
inline threads::thread_pool_base& get_thread_pool(const char*) { return stub_pool; }
inline threads::thread_pool_base& get_thread_pool(const std::string&) { return stub_pool; }
inline std::size_t get_num_threads(const char*) { return VERIF_THREADS; }
inline std::size_t get_num_threads(const std::string&) { return VERIF_THREADS; }
inline std::size_t get_num_threads() { return VERIF_THREADS; }
}
inline bool is_runtime_initialized() { return true; }
inline std::size_t get_os_thread_count() { return VERIF_THREADS; }
inline void wait() { execution::experimental::stub::cur().finish(); }
inline void suspend() {}
inline void resume() {}
inline void finalize() {}
}
