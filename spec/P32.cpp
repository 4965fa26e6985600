// P32 Assertions have no effect on results
//@ flags: -DVERIF_REAL_ASSERT
#include <memory>
#include <dlaf/common/assert.h>
//@ variants: ON= | -UDLAF_ASSERT_ENABLE | -UDLAF_ASSERT_MODERATE_ENABLE | -UDLAF_ASSERT_HEAVY_ENABLE | -UDLAF_ASSERT_ENABLE,-UDLAF_ASSERT_MODERATE_ENABLE,-UDLAF_ASSERT_HEAVY_ENABLE
extern "C" bool verif_cond(int) noexcept;
extern "C" int verif_val(int) noexcept;
//@ def F = include/dlaf/common/assert.h
#ifdef DLAF_ASSERT_ENABLE
//@ law fails ; about: $F: DLAF_ASSERT ; dom: a=-5..5|-10**9..10**9, b=-5..5|-10**9..10**9 ; if=!REPORT|UDLAF_ASSERT_ENABLE ; ends=1
extern "C" void rej_fails(int a, int b) { verif::assume(a >= b); DLAF_ASSERT(a < b, "text", a, b); }
#else
//@ law off ; about: $F: DLAF_ASSERT disabled ; dom: a=-5..5|-10**9..10**9, b=-5..5|-10**9..10**9 ; events=.* ; if=UDLAF_ASSERT_ENABLE
extern "C" int impl_off(int a, int b) { DLAF_ASSERT(verif_cond(a), "text", verif_val(a), b); return a; }
extern "C" int spec_off(int a, int b) { return a; }
#endif
#ifdef DLAF_ASSERT_MODERATE_ENABLE
//@ law fails_moderate ; about: $F: DLAF_ASSERT_MODERATE ; dom: a=-5..5|-10**9..10**9, b=-5..5|-10**9..10**9 ; if=!REPORT|UDLAF_ASSERT_MODERATE_ENABLE ; ends=1
extern "C" void rej_fails_moderate(int a, int b) { verif::assume(a >= b); DLAF_ASSERT_MODERATE(a < b, "text", a, b); }
#else
//@ law off_moderate ; about: $F: DLAF_ASSERT_MODERATE disabled ; dom: a=-5..5|-10**9..10**9, b=-5..5|-10**9..10**9 ; events=.* ; if=UDLAF_ASSERT_MODERATE_ENABLE
extern "C" int impl_off_moderate(int a, int b) { DLAF_ASSERT_MODERATE(verif_cond(a), "text", verif_val(a), b); return a; }
extern "C" int spec_off_moderate(int a, int b) { return a; }
#endif
#ifdef DLAF_ASSERT_HEAVY_ENABLE
//@ law fails_heavy ; about: $F: DLAF_ASSERT_HEAVY ; dom: a=-5..5|-10**9..10**9, b=-5..5|-10**9..10**9 ; if=!REPORT|UDLAF_ASSERT_HEAVY_ENABLE ; ends=1
extern "C" void rej_fails_heavy(int a, int b) { verif::assume(a >= b); DLAF_ASSERT_HEAVY(a < b, "text", a, b); }
#else
//@ law off_heavy ; about: $F: DLAF_ASSERT_HEAVY disabled ; dom: a=-5..5|-10**9..10**9, b=-5..5|-10**9..10**9 ; events=.* ; if=UDLAF_ASSERT_HEAVY_ENABLE
extern "C" int impl_off_heavy(int a, int b) { DLAF_ASSERT_HEAVY(verif_cond(a), "text", verif_val(a), b); return a; }
extern "C" int spec_off_heavy(int a, int b) { return a; }
#endif
// an assertion that holds does nothing but evaluate its arguments
//@ law holds ; about: $F: do_assert ; dom: a=-5..5|-10**9..10**9, b=-5..5|-10**9..10**9 ; events=.*
extern "C" int impl_holds(int a, int b) { verif::assume(a < b); DLAF_ASSERT(a < b, "text", a, b); DLAF_ASSERT_MODERATE(a < b, "text"); DLAF_ASSERT_HEAVY(b > a, b); return a - b; }
extern "C" int spec_holds(int a, int b) { verif::assume(a < b); return a - b; }
//@ law unimplemented ; about: $F: DLAF_UNIMPLEMENTED ; dom: a=-5..5|-10**9..10**9 ; ends=1
extern "C" void rej_unimplemented(int a) { DLAF_UNIMPLEMENTED(a); }
//@ law option ; about: $F: DLAF_INVALID_OPTION_VALUE ; dom: a=-5..5|-10**9..10**9 ; ends=1
extern "C" void rej_option(int a) { DLAF_INVALID_OPTION_VALUE("o", a, "x, y"); }
//@ law unreachable_plain ; about: $F: DLAF_UNREACHABLE_PLAIN ; dom: a=-5..5|-10**9..10**9 ; ends=1
extern "C" void rej_unreachable_plain(int a) { DLAF_UNREACHABLE_PLAIN; }
//@ law unreachable ; about: $F: DLAF_UNREACHABLE ; dom: a=-5..5|-10**9..10**9 ; ends=1
static int pick(int a) { if (a > 0) return 1; return DLAF_UNREACHABLE(int); }
extern "C" void rej_unreachable(int a) { verif::assume(a <= 0); pick(a); }

