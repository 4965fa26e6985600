// P48 Configuration precedence and names are consistent
//@ stubs: cfg
//@ flags: -fno-threadsafe-statics
//@ variants: VERIF_NEW_PIKA=1 | -UVERIF_NEW_PIKA
#include "config.h"
using namespace dlaf;
void pika::mpi::experimental::verif_start_polling(exception_mode) {}
void pika::mpi::experimental::verif_stop_polling() {}
namespace dlaf::memory::internal {
void initializeUmpireHostAllocator(std::size_t, std::size_t, std::size_t, double, double) {}
void finalizeUmpireHostAllocator() {}
}
namespace {
using namespace cfgmodel;
void given(long e, long c, long eb, long cb, bool on) {
  env_set = e, cmd_set = c, env_base = eb, cmd_base = cb, env_on = on;
  for (int k = 0; k < P_END; ++k) slot[k][0] = char(k + 1), slot[k][1] = 0;
#define X(K, N) text_##K(P_##N);
#define text_N(p)
#define text_S(p)
#define text_D(p)
#define text_B(p) (slot[p][0] = 'O', slot[p][1] = on ? 'n' : 'F', slot[p][2] = on ? 0 : 'f', slot[p][3] = 0)
  CONFIGURATION(X) TUNE(X) DUMP(X)
#undef X
  slot[P_default_allocation_layout][0] = 1;
}
template <class T>
T expected(int k, T user) {
  if constexpr (std::is_same_v<T, bool>)
    return (cmd_set >> k & 1) || (env_set >> k & 1 ? env_on : user);
  else
    return cmd_set >> k & 1 ? T(number(cmd_base, k)) : env_set >> k & 1 ? T(number(env_base, k)) : user;
}
configuration user(long u, bool on) {
  configuration c;
  long k = 0;
#define X(K, N) c.N = decltype(c.N)(u + 5 * ++k);
  CONFIGURATION(X) UNUSED_STREAMS(X)
#undef X
  c.print_config = on;
  return c;
}
}
//@ def D = eb=-10**6..10**6, cb=-10**6..10**6, u=0..10**6
//@ def O = initial=1 ; n=400 ; mem=8
// E, C: parameters given by the environment and by the command line; ON: text of the boolean ones; W: what the user asks for
template <long E, long C, bool ON, bool W>
INL bool sources(long eb, long cb, long u) {
  given(E, C, eb, cb, ON);
  for (int k = 0; k < P_END; ++k)
    if (CMD[k] == 0) cmd_set &= ~(1l << k);
  const configuration was = user(u, W);
  configuration cfg = was;
  internal::updateConfiguration({}, cfg);
  bool ok = true;
#define X(K, N) ok = ok & (cfg.N == expected(P_##N, was.N));
  CONFIGURATION(X)
#undef X
#define X(K, N) ok = ok & (cfg.N == was.N);
  UNUSED_STREAMS(X)
#undef X
  const TuneParameters tune;
#define X(K, N) ok = ok & (getTuneParameters().N == expected(P_##N, tune.N));
  TUNE(X) DUMP(X)
#undef X
  const int layout = P_default_allocation_layout;
  ok = ok & (getTuneParameters().default_allocation_layout == (cmd_set >> layout & 1 ? matrix::AllocationLayout::Tiles : env_set >> layout & 1 ? matrix::AllocationLayout::Blocks : tune.default_allocation_layout));
  return ok;
}
//@ law nothing ; about: src/init.cpp: updateConfiguration: value of every parameter ; dom: $D ; $O
extern "C" bool law_nothing(long eb, long cb, long u) { return sources<0, 0, 0, 0>(eb, cb, u); }
//@ law nothing_on ; about: src/init.cpp: updateConfiguration: value of every parameter ; dom: $D ; $O
extern "C" bool law_nothing_on(long eb, long cb, long u) { return sources<0, 0, 0, 1>(eb, cb, u); }
//@ law environment_on ; about: src/init.cpp: updateConfiguration: value of every parameter ; dom: $D ; $O
extern "C" bool law_environment_on(long eb, long cb, long u) { return sources<-1, 0, 1, 0>(eb, cb, u); }
//@ law environment_off ; about: src/init.cpp: updateConfiguration: value of every parameter ; dom: $D ; $O
extern "C" bool law_environment_off(long eb, long cb, long u) { return sources<-1, 0, 0, 1>(eb, cb, u); }
//@ law command_line ; about: src/init.cpp: updateConfiguration: value of every parameter ; dom: $D ; $O
extern "C" bool law_command_line(long eb, long cb, long u) { return sources<0, -1, 0, 0>(eb, cb, u); }
//@ law both ; about: src/init.cpp: updateConfiguration: value of every parameter ; dom: $D ; $O
extern "C" bool law_both(long eb, long cb, long u) { return sources<-1, -1, 0, 1>(eb, cb, u); }
//@ law both_on ; about: src/init.cpp: updateConfiguration: value of every parameter ; dom: $D ; $O
extern "C" bool law_both_on(long eb, long cb, long u) { return sources<-1, -1, 1, 0>(eb, cb, u); }
//@ law mixed_1 ; about: src/init.cpp: updateConfiguration: value of every parameter ; dom: $D ; $O
extern "C" bool law_mixed_1(long eb, long cb, long u) { return sources<0x5555555555555555, 0x3333333333333333, 1, 0>(eb, cb, u); }
//@ law mixed_2 ; about: src/init.cpp: updateConfiguration: value of every parameter ; dom: $D ; $O
extern "C" bool law_mixed_2(long eb, long cb, long u) { return sources<0x5555555555555555, ~0x3333333333333333, 0, 1>(eb, cb, u); }
//@ law mixed_3 ; about: src/init.cpp: updateConfiguration: value of every parameter ; dom: $D ; $O
extern "C" bool law_mixed_3(long eb, long cb, long u) { return sources<~0x5555555555555555, 0x0f0f0f0f0f0f0f0f, 1, 1>(eb, cb, u); }
// every parameter that can be given on the command line is described once, with its own type
//@ law options ; about: src/init.cpp: getOptionsDescription ; dom: k=0..40 ; $O
extern "C" bool law_options(long) {
  getOptionsDescription();
  bool ok = noptions <= 64;
  int n = 2;   // the help, and the layout
#define text_N 'N'
#define text_S 'S'
#define text_D 'D'
#define text_B 'B'
#define X(K, N) { bool found = false; for (int i = 0; i < noptions; ++i) if (option[i] == cmd_name(#N)) { ok = ok & !found & (kind[i] == text_##K); found = true; } ok = ok & found; ++n; }
  CONFIGURATION(X) UNUSED_STREAMS(X) TUNE(X)
#undef X
  bool found = false;
  for (int i = 0; i < noptions; ++i)
    if (option[i] == CMD[P_default_allocation_layout]) { ok = ok & !found & (kind[i] == 'T'); found = true; }
  return ok & found & (noptions >= n);
}
// what is printed with the name of a parameter is its value
//@ law shown ; about: src/init.cpp, src/tune.cpp: operator<< ; dom: u=0..10**6, w={0,1}, v=0..10**6 ; $O
extern "C" bool law_shown(long u, long w, long v) {
  std::start_showing();
  const configuration c = user(u, w);
  std::cout << c;
  bool ok = true;
#define X(K, N) { bool found = false; for (int i = 0; i < nshown; ++i) if (shown[i] == shown_name(#N)) { ok = ok & !found & (value[i] == double(c.N)); found = true; } ok = ok & (found | (P_##N == P_print_config)); }
#define Y(K, N) for (int i = 0; i < nshown; ++i) if (shown[i] == shown_name(#N)) ok = ok & (value[i] == double(c.N));
  CONFIGURATION(X)
  UNUSED_STREAMS(Y)
#undef X
#undef Y
  TuneParameters t;
  long k = 0;
#define X(K, N) t.N = decltype(t.N)(v + 5 * ++k);
  TUNE(X)
#undef X
  t.default_allocation_layout = v & 1 ? matrix::AllocationLayout::Tiles : matrix::AllocationLayout::Blocks;
  std::start_showing();
  std::cout << t;
#define X(K, N) for (int i = 0, found = 0; i < nshown; ++i) if (shown[i] == shown_name(#N)) { ok = ok & !found & (value[i] == double(t.N)); found = 1; }
  TUNE(X)
#undef X
  return ok;
}
//@ law parse_bool ; about: src/init.cpp: parseFromString<bool> ; dom: k=0..15 ; $O ; unroll=20
extern "C" bool law_parse_bool(long) {
  const auto is = [](const char* s, int v) {
    const auto r = internal::parseFromString<bool>::call(s);
    return v < 0 ? !r.has_value() : r.has_value() && *r == (v == 1);
  };
  return is("ON", 1) & is("on", 1) & is("On", 1) & is("TRUE", 1) & is("true", 1) & is("YES", 1) & is("yes", 1) & is("1", 1) & is("OFF", 0) & is("off", 0) & is("FALSE", 0) & is("False", 0) & is("NO", 0) & is("nO", 0) & is("0", 0) &
         is("", -1) & is("2", -1) & is("ONE", -1) & is("yess", -1) & is("of", -1) & is("tru", -1) & is("10", -1);
}
// an environment variable that is set to no boolean value is reported
//@ law wrong_bool ; about: src/init.cpp: updateConfigurationValue ; dom: k=0..100, w={0,1}, u=0..10**6 ; $O
extern "C" void rej_wrong_bool(long, long w, long u) {
  given(1l << P_print_config, 0, 0, 0, true);
  slot[P_print_config][0] = 'x';
  configuration cfg = user(u, w);
  internal::updateConfiguration({}, cfg);
}
