#pragma once
#include <complex>
#include <memory>
#include <type_traits>
#include <utility>
#include <tuple>
#define CAN(NAME, EXPR) \
  template <class X, class = void> struct NAME##_t : std::false_type {}; \
  template <class X> struct NAME##_t<X, std::void_t<decltype(EXPR)>> : std::true_type {}; \
  template <class X> inline constexpr bool NAME = NAME##_t<X>::value;
#define WITNESS(NAME, ABOUT, POSITIVE, FORBIDDEN) \
  static_assert(POSITIVE, "CONTROL " #NAME); \
  static_assert(!(FORBIDDEN), "WITNESS " #NAME);
#define MUST(NAME, ABOUT, ...) static_assert((__VA_ARGS__), "WITNESS " #NAME);
// all element types of the library
template <template <class> class P> inline constexpr bool all_v = P<float>::value && P<double>::value && P<std::complex<float>>::value && P<std::complex<double>>::value;
template <template <class> class P> inline constexpr bool any_v = P<float>::value || P<double>::value || P<std::complex<float>>::value || P<std::complex<double>>::value;
#define FORALL(NAME, ...) \
  template <class T> struct NAME##_p : std::bool_constant<(__VA_ARGS__)> {}; \
  inline constexpr bool NAME##_all = all_v<NAME##_p>; inline constexpr bool NAME##_any = any_v<NAME##_p>;
