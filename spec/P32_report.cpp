// P32 Assertions: a failing check reports the location, the condition and the messages, and ends the program after that
//@ flags: -DVERIF_REAL_ASSERT -DVERIF_REPORT
#include <memory>
#include <dlaf/common/assert.h>
//@ def F = include/dlaf/common/assert.h, include/dlaf/common/source_location.h
using dlaf::common::internal::source_location;
using dlaf::internal::do_assert;
[[gnu::always_inline]] static void clear() { std::verif_cerr.id = 2; text::len = 0; text::shown = -1; text::ended = -1; }
// shown, and shown before the end; the end is the last thing
[[gnu::always_inline]] static bool reported() { return text::shown == text::ended && text::ended > 0; }
//@ law report ; about: $F: do_assert ; dom: line=1..100000, a=-5..5|-10**9..10**9, b=-5..5 ; unroll=70 ; events=none
extern "C" bool law_report(unsigned line, int a, int b) {
  clear();
  do_assert(false, source_location{"file.h", line, "f()"}, "a<b", "msg", a, b);
  const long v[] = {line, a, b};
  return text::is("[ERROR] file.h:% : f()\na<b\nmsg\n%\n%\n\n", v) && text::ended == text::len - 0 && text::shown >= 0;
}
//@ law report_one ; about: $F: do_assert ; dom: line=1..100000 ; unroll=70 ; events=none
extern "C" bool law_report_one(unsigned line) {
  clear();
  do_assert(false, source_location{"file.h", line, "f()"}, "a<b", "msg");
  const long v[] = {line};
  return text::is("[ERROR] file.h:% : f()\na<b\nmsg\n\n", v) && text::ended == text::len && text::shown >= 0;
}
//@ law silent ; about: $F: do_assert ; dom: line=1..100000, a=-5..5 ; unroll=70 ; events=none
extern "C" bool law_silent(unsigned line, int a) {
  clear();
  do_assert(true, source_location{"file.h", line, "f()"}, "a<b", "msg", a);
  return text::len == 0 && text::ended == -1 && text::shown == -1;
}
//@ law option_report ; about: $F: invalid_option_value ; dom: line=1..100000, a=-5..5|-10**9..10**9 ; unroll=90 ; events=none
extern "C" bool law_option_report(unsigned line, int a) {
  clear();
  dlaf::internal::invalid_option_value(source_location{"file.h", line, "f()"}, "opt", a, "x, y");
  const long v[] = {line, a};
  return text::is("[ERROR] file.h:% : f()\nInvalid option for opt. Got '%' but expected one of x, y.\n", v) && text::ended == text::len && text::shown >= 0;
}
//@ law location ; about: $F: SOURCE_LOCATION ; dom: line=1..100000 ; unroll=40 ; events=none
extern "C" bool law_location(unsigned line) {
#line 100 "x.h"
  const source_location l = SOURCE_LOCATION();
  return l.line == 100 && l.filename[0] == 'x' && l.filename[3] == 0 && l.function_name != nullptr;
}
