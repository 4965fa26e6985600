// Reference output of a report: all text goes to one log, in the order in which it is written; the standard error stream
// remembers that the log was handed over to it. With VERIF_REPORT the end of the program is only recorded.
#pragma once
#include <exception>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
namespace text {
inline long buf[96];
inline bool number[96];
inline long len, shown = -1, ended = -1;
[[gnu::always_inline]] inline void add(const char* s, long n) {
  for (long i = 0; i < n; ++i) { buf[len + i] = s[i]; number[len + i] = false; }
  len += n;
}
[[gnu::always_inline]] inline void add(long v) { buf[len] = v; number[len] = true; ++len; }
[[gnu::always_inline]] inline bool is(const char* s, const long* values) {   // the output is exactly this text, % for a number
  long i = 0, k = 0;
  bool same = true;
  for (; s[i] != 0; ++i) {
    const bool n = s[i] == '%';
    same = same && number[i] == n && buf[i] == (n ? values[k] : s[i]);
    if (n) ++k;
  }
  return same && len == i;
}
}
namespace std {
struct verif_ostream {
  int id = 0;
  [[gnu::always_inline]] inline void put(const char* s) {
    long n = 0;
    while (s[n] != 0) ++n;
    text::add(s, n);
  }
};
struct verif_string : verif_ostream {    // text that becomes a string has already been written to the log
  verif_string() = default;
  verif_string(const char* s) { put(s); }
};
struct verif_ostringstream : verif_ostream {
  verif_string str() const { return {}; }
};
[[gnu::always_inline]] inline verif_ostream& operator<<(verif_ostream& o, const char* s) { o.put(s); return o; }
[[gnu::always_inline]] inline verif_ostream& operator<<(verif_ostream& o, char c) { text::add(&c, 1); return o; }
[[gnu::always_inline]] inline verif_ostream& operator<<(verif_ostream& o, const verif_string&) { if (o.id == 2) text::shown = text::len; return o; }
template <class T, class = std::enable_if_t<std::is_integral_v<T>>>
[[gnu::always_inline]] inline verif_ostream& operator<<(verif_ostream& o, T v) { text::add(static_cast<long>(v)); return o; }
inline verif_ostream verif_cerr{2};
#ifdef VERIF_REPORT
[[gnu::always_inline]] inline void verif_end() noexcept { text::ended = text::len; }
#else
[[noreturn, gnu::always_inline]] inline void verif_end() noexcept { ::verif_stop(); }
#endif
}
#define string verif_string
#define ostream verif_ostream
#define ostringstream verif_ostringstream
#define cerr verif_cerr
#define terminate verif_end
