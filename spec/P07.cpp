// P07 Integer conversions never silently change a value
#include <dlaf/types.h>
using namespace dlaf;
template <class To, class From>
static bool representable(From v) {
  if constexpr (std::is_signed_v<From>) {
    if (v < 0) return std::is_signed_v<To> && static_cast<long>(v) >= static_cast<long>(std::numeric_limits<To>::min());
  }
  return static_cast<unsigned long>(v) <= static_cast<unsigned long>(std::numeric_limits<To>::max());
}
template <class A, class B>
static bool equal(A a, B b) {
  return (std::is_signed_v<A> && static_cast<long>(a) < 0) == (std::is_signed_v<B> && static_cast<long>(b) < 0) && static_cast<unsigned long>(a) == static_cast<unsigned long>(b);
}
//@ def F = include/dlaf/types.h
template <class To, class From>
static bool same(From v) {
  verif::assume(representable<To>(v));
  return equal(integral_cast<To>(v), v);
}
template <class To, class From>
static void reject(From v) {
  verif::assume(!representable<To>(v));
  (void) integral_cast<To>(v);
}
template <template <class, class> class Op, class From>
static auto to_any(int ty, From v) {
  switch (ty) {
    case 0: return Op<signed char, From>::f(v);
    case 1: return Op<unsigned char, From>::f(v);
    case 2: return Op<short, From>::f(v);
    case 3: return Op<unsigned short, From>::f(v);
    case 4: return Op<int, From>::f(v);
    case 5: return Op<unsigned, From>::f(v);
    case 6: return Op<long, From>::f(v);
    default: return Op<unsigned long, From>::f(v);
  }
}
template <class To, class From> struct Same { static bool f(From v) { return same<To>(v); } };
template <class To, class From> struct Reject { static void f(From v) { reject<To>(v); } };
template <template <class, class> class Op>
static auto from_any(int fy, int ty, long v) {
  switch (fy) {
    case 0: return to_any<Op>(ty, static_cast<signed char>(v));
    case 1: return to_any<Op>(ty, static_cast<unsigned char>(v));
    case 2: return to_any<Op>(ty, static_cast<short>(v));
    case 3: return to_any<Op>(ty, static_cast<unsigned short>(v));
    case 4: return to_any<Op>(ty, static_cast<int>(v));
    case 5: return to_any<Op>(ty, static_cast<unsigned>(v));
    case 6: return to_any<Op>(ty, static_cast<long>(v));
    default: return to_any<Op>(ty, static_cast<unsigned long>(v));
  }
}
//@ law keeps ; about: $F: integral_cast, to_signed, to_unsigned for all pairs of integer types ; dom: fy=0..7, ty=0..7, v=i64 ; n=200000
extern "C" bool law_keeps(int fy, int ty, long v) { return from_any<Same>(fy, ty, v); }
//@ law rejects ; about: $F: integral_cast, to_signed, to_unsigned for all pairs of integer types ; dom: fy=0..7, ty=0..7, v=i64 ; n=200000
extern "C" void rej_rejects(int fy, int ty, long v) { from_any<Reject>(fy, ty, v); }
template <class From>
static bool helpers(int k, From v) {
  switch (k) {
    case 0: verif::assume(representable<int>(v)); return equal(to_int(v), v);
    case 1: verif::assume(representable<unsigned>(v)); return equal(to_uint(v), v);
    case 2: verif::assume(representable<std::size_t>(v)); return equal(to_sizet(v), v);
    default: verif::assume(representable<SizeType>(v)); return equal(to_SizeType(v), v);
  }
}
template <class From>
static void helpers_rej(int k, From v) {
  switch (k) {
    case 0: verif::assume(!(representable<int>(v))); (void) to_int(v); return;
    case 1: verif::assume(!(representable<unsigned>(v))); (void) to_uint(v); return;
    case 2: verif::assume(!(representable<std::size_t>(v))); (void) to_sizet(v); return;
    default: verif::assume(!(representable<SizeType>(v))); (void) to_SizeType(v); return;
  }
}
static_assert(std::is_same_v<decltype(to_int(0l)), int> && std::is_same_v<decltype(to_uint(0l)), unsigned> && std::is_same_v<decltype(to_sizet(0l)), std::size_t> &&
              std::is_same_v<decltype(to_SizeType(0u)), SizeType>);
//@ law named ; about: $F: to_int, to_uint, to_sizet, to_SizeType ; dom: fy=0..3, k=0..3, v=i64
extern "C" bool law_named(int fy, int k, long v) {
  switch (fy) {
    case 0: return helpers(k, v);
    case 1: return helpers(k, static_cast<unsigned long>(v));
    case 2: return helpers(k, static_cast<int>(v));
    default: return helpers(k, static_cast<unsigned>(v));
  }
}
//@ law named_rej ; about: $F: to_int, to_uint, to_sizet, to_SizeType ; dom: fy=0..3, k=0..3, v=i64
extern "C" void rej_named_rej(int fy, int k, long v) {
  switch (fy) {
    case 0: return helpers_rej(k, v);
    case 1: return helpers_rej(k, static_cast<unsigned long>(v));
    case 2: return helpers_rej(k, static_cast<int>(v));
    default: return helpers_rej(k, static_cast<unsigned>(v));
  }
}
