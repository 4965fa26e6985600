#pragma once
#include <functional>
#include <pika/program_options.hpp>
#include <pika/runtime.hpp>
namespace pika {
namespace resource { class partitioner {}; }
struct init_params {
  program_options::options_description desc_cmdline;
  std::function<void(resource::partitioner&, const program_options::variables_map&)> rp_callback;
};
inline int init(std::function<int(program_options::variables_map&)>, int, const char* const*, const init_params& = {}) { return 0; }
inline int init(std::function<int(int, char**)>, int, const char* const*, const init_params& = {}) { return 0; }
inline int init(std::nullptr_t, int, const char* const*, const init_params& = {}) { return 0; }
inline void start(std::nullptr_t, int, const char* const*, const init_params& = {}) {}
inline void start(int, const char* const*, const init_params& = {}) {}
inline int stop() { return 0; }
struct scoped_finalize { ~scoped_finalize() {} };
}
