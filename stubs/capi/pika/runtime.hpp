#pragma once
// Records when the task runtime is resumed and suspended.
#include <cstdint>
#define resume stub_resume_
#define suspend stub_suspend_
#include_next <pika/runtime.hpp>
#undef resume
#undef suspend
namespace capi {
enum ev { RESUME = 1, RUN, WAIT, SUSPEND };
inline long log_[12];
inline int events;
inline bool running;
[[gnu::always_inline]] inline void note(long e) { log_[events] = e; ++events; }
}
namespace pika {
[[gnu::always_inline]] inline void resume() { capi::note(capi::RESUME); capi::running = true; }
[[gnu::always_inline]] inline void suspend() { capi::note(capi::SUSPEND); capi::running = false; }
}
