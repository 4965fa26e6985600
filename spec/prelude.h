// Force-included before every analysed unit: the assertion macros of /repo are mapped to one opaque call that stands
// for "the program stops with a report", so that the value graphs carry the precondition instead of the text of the report.
#pragma once
#include <mpi.h>
extern "C" {
[[noreturn]] void verif_stop() noexcept;         // DLAF_ASSERT
[[noreturn]] void verif_stop_moderate() noexcept;
[[noreturn]] void verif_stop_heavy() noexcept;
int MPI_Abort(MPI_Comm, int) __attribute__((noreturn));
}
#ifdef VERIF_REAL_ASSERT   // the assertions themselves are the subject
#include "reportmodel.h"
#endif
#include <dlaf/common/assert.h>
#ifdef VERIF_REAL_ASSERT
#undef string
#undef ostream
#undef ostringstream
#undef cerr
#undef terminate
#endif
namespace verif {
[[gnu::always_inline]] inline void chk(bool b) noexcept { if (!b) verif_stop(); }
[[gnu::always_inline]] inline void chk_moderate(bool b) noexcept { if (!b) verif_stop_moderate(); }
[[gnu::always_inline]] inline void chk_heavy(bool b) noexcept { if (!b) verif_stop_heavy(); }
}
#if !defined(VERIF_REAL_ASSERT) && defined(VERIF_ASSERT_ARGS)   // for queries over what assertions evaluate
namespace verif {
template <class... T> void checked(bool, const T&...) noexcept;
}
#undef DLAF_ASSERT
#undef DLAF_ASSERT_MODERATE
#undef DLAF_ASSERT_HEAVY
#define DLAF_ASSERT(Expr, ...) ::verif::checked(static_cast<bool>(Expr), ##__VA_ARGS__)
#define DLAF_ASSERT_MODERATE(Expr, ...) ::verif::checked(static_cast<bool>(Expr), ##__VA_ARGS__)
#define DLAF_ASSERT_HEAVY(Expr, ...) ::verif::checked(static_cast<bool>(Expr), ##__VA_ARGS__)
#elif !defined(VERIF_REAL_ASSERT)
#undef DLAF_ASSERT
#undef DLAF_ASSERT_MODERATE
#undef DLAF_ASSERT_HEAVY
#undef DLAF_UNIMPLEMENTED
#undef DLAF_INVALID_OPTION_VALUE
#undef DLAF_UNREACHABLE
#undef DLAF_UNREACHABLE_PLAIN
#ifdef DLAF_ASSERT_ENABLE
#define DLAF_ASSERT(Expr, ...) ::verif::chk(static_cast<bool>(Expr))
#else
#define DLAF_ASSERT(Expr, ...)
#endif
#ifdef DLAF_ASSERT_MODERATE_ENABLE
#define DLAF_ASSERT_MODERATE(Expr, ...) ::verif::chk_moderate(static_cast<bool>(Expr))
#else
#define DLAF_ASSERT_MODERATE(Expr, ...)
#endif
#ifdef DLAF_ASSERT_HEAVY_ENABLE
#define DLAF_ASSERT_HEAVY(Expr, ...) ::verif::chk_heavy(static_cast<bool>(Expr))
#else
#define DLAF_ASSERT_HEAVY(Expr, ...)
#endif
#define DLAF_UNIMPLEMENTED(...) ::verif_stop()
#define DLAF_INVALID_OPTION_VALUE(o, a, e) ::verif_stop()
#define DLAF_UNREACHABLE(...) (::verif_stop(), std::move(*std::unique_ptr<__VA_ARGS__>()))
#define DLAF_UNREACHABLE_PLAIN ::verif_stop()
#endif
extern "C" {
[[noreturn]] void verif_assume_failed() noexcept;
long verif_any(long) noexcept;
long verif_any2(long, long) noexcept;
}
namespace verif {
[[gnu::always_inline]] inline void assume(bool b) noexcept { if (!b) verif_assume_failed(); }
}
