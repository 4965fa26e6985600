#pragma once
#include <string>
#include <pika/execution.hpp>
namespace pika {
namespace resource {
inline threads::thread_pool_base& get_thread_pool(const char*) { static threads::thread_pool_base p; return p; }
inline threads::thread_pool_base& get_thread_pool(const std::string&) { static threads::thread_pool_base p; return p; }
inline std::size_t get_num_threads(const std::string&) { return 4; }
inline std::size_t get_num_threads() { return 4; }
}
inline bool is_runtime_initialized() { return true; }
inline std::size_t get_os_thread_count() { return 4; }
inline void wait() { namespace ex = execution::experimental; while (!ex::stub::pollers().empty()) ex::stub::poll_once(); }
inline void suspend() {}
inline void resume() {}
inline void finalize() {}
}
