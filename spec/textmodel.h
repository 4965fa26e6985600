// Reference text output: everything that is written to any stream is appended to one list of characters and numbers.
#pragma once
#include <ostream>
#include <streambuf>
namespace text {
inline long buf[64];
inline bool number[64];
inline long len;
[[gnu::always_inline]] inline void add(const char* s, long n) {
  for (long i = 0; i < n; ++i) { buf[len + i] = s[i]; number[len + i] = false; }
  len += n;
}
[[gnu::always_inline]] inline void add(long v) { buf[len] = v; number[len] = true; ++len; }
template <class... Ts>
[[gnu::always_inline]] inline bool is(const char* s, Ts... vs) {   // the output is exactly this text, % for a number
  const long values[] = {vs..., 0};
  long i = 0, k = 0;
  bool same = true;
  for (; s[i] != 0; ++i) {
    const bool n = s[i] == '%';
    same = same && number[i] == n && buf[i] == (n ? values[k] : s[i]);
    if (n) ++k;
  }
  return same && len == i;
}
}
extern "C" std::ostream* verif_stream() noexcept;
namespace text {
template <class T, class... Ts>
[[gnu::always_inline]] bool prints(const T& v, const char* s, Ts... vs) {
  len = 0;
  std::ostream& o = *verif_stream();
  return &(o << v) == &o && is(s, vs...);
}
}
extern "C" {
__attribute__((no_builtin)) inline unsigned long strlen(const char* s) noexcept {
  unsigned long n = 0;
  while (s[n] != 0) ++n;
  return n;
}
std::ostream& verif_text_insert(std::ostream& o, const char* s, long n) __asm__("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l");
std::ostream& verif_text_insert(std::ostream& o, const char* s, long n) { text::add(s, n); return o; }
std::ostream& verif_text_put(std::ostream* o, char c) __asm__("_ZNSo3putEc");
std::ostream& verif_text_put(std::ostream* o, char c) { text::add(&c, 1); return *o; }
std::ostream& verif_text_write(std::ostream* o, const char* s, long n) __asm__("_ZNSo5writeEPKcl");
std::ostream& verif_text_write(std::ostream* o, const char* s, long n) { text::add(s, n); return *o; }
std::ostream& verif_text_long(std::ostream* o, long v) __asm__("_ZNSo9_M_insertIlEERSoT_");
std::ostream& verif_text_long(std::ostream* o, long v) { text::add(v); return *o; }
std::ostream& verif_text_ulong(std::ostream* o, unsigned long v) __asm__("_ZNSo9_M_insertImEERSoT_");
std::ostream& verif_text_ulong(std::ostream* o, unsigned long v) { text::add(static_cast<long>(v)); return *o; }
std::ostream& verif_text_int(std::ostream* o, int v) __asm__("_ZNSolsEi");
std::ostream& verif_text_int(std::ostream* o, int v) { text::add(v); return *o; }
std::ostream& verif_text_short(std::ostream* o, short v) __asm__("_ZNSolsEs");
std::ostream& verif_text_short(std::ostream* o, short v) { text::add(v); return *o; }
}
