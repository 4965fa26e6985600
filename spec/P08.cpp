// P08 Integer and scalar helper functions compute their mathematical definition
#include <dlaf/types.h>
#include <dlaf/util_math.h>
#include <dlaf/util_string.h>
#include <algorithm>
using namespace dlaf;
using S = SizeType;
//@ def F = include/dlaf/util_math.h
//@ def N = 0..6|0..10**4|0..10**9|0..2**62
//@ law ceil_div ; about: $F: ceilDiv ; dom: n=$N, d=1..6|1..10**4|1..10**9|1..2**61
extern "C" bool law_ceil_div(S n, S d) {
  const S r = util::ceilDiv(n, d);
  return (n == 0 ? r == 0 : (n - 1) / d + 1 == r) && util::ceilDiv<std::size_t>(n, d) == std::size_t(r);
}
//@ law ceil_div_int ; about: $F: ceilDiv ; dom: n=0..10**9, d=1..10**9
extern "C" bool law_ceil_div_int(int n, int d) { return util::ceilDiv(n, d) == (n / d + (n % d ? 1 : 0)); }
//@ law sum_mul ; about: $F: ptrdiff_t::sum, mul, size_t::sum, mul ; dom: a=-50..50|-2**30..2**30, b=-50..50|-2**30..2**30
extern "C" bool law_sum_mul(int a, S b) {
  bool r = util::ptrdiff_t::sum(a, b) == S(a) + b && util::ptrdiff_t::mul(a, b) == S(a) * b && util::ptrdiff_t::sum(b, a) == S(a) + b && util::ptrdiff_t::mul(b, a) == S(a) * b;
  if (a >= 0 && b >= 0) r = r && util::size_t::sum(a, b) == std::size_t(S(a) + b) && util::size_t::mul(a, b) == std::size_t(S(a) * b);
  return r;
}
// int operands are not multiplied in int
//@ law wide ; about: $F: ptrdiff_t::sum, mul, size_t::sum, mul ; dom: a=0..100|2**30..2**31-1, b=0..100|2**30..2**31-1
extern "C" bool law_wide(int a, int b) {
  const S x = a, y = b;
  return util::ptrdiff_t::sum(a, b) == x + y && util::ptrdiff_t::mul(a, b) == x * y && util::size_t::sum(a, b) == std::size_t(x + y) && util::size_t::mul(a, b) == std::size_t(x * y);
}
//@ law sum_neg ; about: $F: size_t::sum, mul: negative operands are rejected ; dom: a=-50..-1|-2**31..-1, b=0..100|0..10**9, k=0..3
extern "C" void rej_sum_neg(S a, int b, int k) {
  if (k == 0) (void) util::size_t::sum(a, b);
  else if (k == 1) (void) util::size_t::sum(b, a);
  else if (k == 2) (void) util::size_t::mul(a, b);
  else (void) util::size_t::mul(b, a);
}
//@ law sum_big ; about: $F: ptrdiff_t::sum, mul: operands that do not fit are rejected ; dom: b=0..100, k=0..3, x=0..2**40
extern "C" void rej_sum_big(int b, int k, S x) {
  const std::size_t a = (std::size_t(1) << 63) + std::size_t(x);
  if (k == 0) (void) util::ptrdiff_t::sum(a, b);
  else if (k == 1) (void) util::ptrdiff_t::sum(b, a);
  else if (k == 2) (void) util::ptrdiff_t::mul(a, b);
  else (void) util::ptrdiff_t::mul(b, a);
}
// the nearest integer to size * percent / 100, never outside [0, size]
//@ law percent ; about: $F: percent_to_index ; dom: n=0..10|0..1000|0..10**6, h=0..200
extern "C" bool law_percent(S n, int h) {   // h half percents: all quantities are exact
  const S num = n * h, r = util::internal::percent_to_index(n, h * 0.5), f = util::internal::percent_to_index(n, static_cast<float>(h) * 0.5f);
  const S e = (num + 100) / 200;   // round half up
  verif::assume(n <= 50000);       // float products stay exact
  return r == e && f == e;
}
//@ law percent_bounds ; about: $F: percent_to_index ; dom: n=0..10|0..1000|0..10**9, p=f64
extern "C" bool law_percent_bounds(S n, double p) {
  verif::assume(p >= 0 && p <= 100);
  const S r = util::internal::percent_to_index(n, p);
  return r >= 0 && r <= n && (p != 0 || r == 0) && (p != 100 || r == n) && r * 100.0 <= n * p + 50.5 && r * 100.0 >= n * p - 50.5;
}
//@ law percent_bad ; about: $F: percent_to_index ; dom: n=1..1000, p=f64, k=0..2
extern "C" void rej_percent_bad(S n, double p, int k) {
  if (k == 0) { verif::assume(p < 0 || p > 100); }
  else { p = 50; n = -n; }
  (void) util::internal::percent_to_index(n, p);
}
//@ law same_sign ; about: $F: sameSign ; dom: a=fspecial, b=fspecial
extern "C" bool law_same_sign(double a, double b) {
  verif::assume(a == a && b == b);
  const bool na = a < 0 || (a == 0 && 1 / a < 0), nb = b < 0 || (b == 0 && 1 / b < 0);
  return util::sameSign(a, b) == (na == nb) && util::sameSign(static_cast<float>(a), static_cast<float>(b)) == (na == nb);
}
//@ law conjugate ; about: include/dlaf/types.h: conj ; dom: a=f64, b=f64
extern "C" bool law_conjugate(double a, double b) {
  const auto z = dlaf::conj(std::complex<double>(a, b));
  const auto f = dlaf::conj(std::complex<float>(static_cast<float>(a), static_cast<float>(b)));
  static_assert(std::is_same_v<decltype(dlaf::conj(1.0)), double> && std::is_same_v<decltype(dlaf::conj(1.0f)), float>);
  return z.real() == a && z.imag() == -b && f.real() == static_cast<float>(a) && f.imag() == -static_cast<float>(b) && dlaf::conj(a) == a && dlaf::conj(static_cast<float>(b)) == static_cast<float>(b);
}
// a complex addition costs 2, a complex multiplication 6 (4 products, 2 sums) real operations
//@ law operations ; about: include/dlaf/types.h: total_ops, TypeInfo ; dom: a=0..1000, b=0..1000
extern "C" bool law_operations(int a, int b) {
  const double x = a, y = b;
  return total_ops<float>(x, y) == x + y && total_ops<double>(x, y) == x + y && total_ops<std::complex<float>>(x, y) == 2 * x + 6 * y && total_ops<std::complex<double>>(x, y) == 2 * x + 6 * y &&
         total_ops<const std::complex<double>>(x, y) == 2 * x + 6 * y && total_ops<const double>(x, y) == x + y;
}
//@ law split_points ; about: $F: interleaveSplits ; dom: l=1..12|1..1000, b=1..12|1..1000, o=0..b, p=0..b, k=0..8 ; unroll=4 ; ends=1
extern "C" S impl_split_points(S l, S b, S o, S p, S k) {
  verif::assume((l - (o < p ? o : p) + b - 1) / b <= 2);
  const auto v = util::interleaveSplits(l, b, o, p);
  const S n = static_cast<S>(v.size());
  return k == 8 ? n : k < n ? v[static_cast<std::size_t>(k)] : -1;
}
static S next(S x, S o, S b) { return o > x ? o : o + ((x - o) / b + 1) * b; }
extern "C" S spec_split_points(S l, S b, S o, S p, S k) {   // 0, then every point of either sequence below l in increasing order, then l
  verif::assume((l - (o < p ? o : p) + b - 1) / b <= 2);
  S x = 0, n = 0;
  for (int i = 0; i < 8; ++i) {
    if (n == k && k != 8) return x;
    ++n;
    if (x == l) return k == 8 ? n : -1;
    const S y = std::min(next(x, o, b), next(x, p, b));
    x = y < l ? y : l;
  }
  return -7;
}
//@ law split_bad ; about: $F: interleaveSplits ; dom: l=1..100, b=1..100, o=0..b, p=0..b, k=0..5, x=1..100 ; unroll=2 ; ends=1
extern "C" void rej_split_bad(S l, S b, S o, S p, int k, S x) {
  if (k == 0) l = 1 - x;
  else if (k == 1) { b = 1 - x; o = p = 0; }
  else if (k == 2) o = b + x;
  else if (k == 3) o = -x;
  else if (k == 4) p = b + x;
  else p = -x;
  (void) util::interleaveSplits(l, b, o, p);
}
extern "C" int tolower(int c) noexcept { return c >= 'A' && c <= 'Z' ? c - 'A' + 'a' : c; }
//@ law lower ; about: include/dlaf/util_string.h: copy_to_lower ; dom: a=0..127, b=0..127, c=0..127 ; unroll=6 ; events=none ; ends=1
extern "C" bool law_lower(int a, int b, int c) {
  const char t[3] = {static_cast<char>(a), static_cast<char>(b), static_cast<char>(c)};
  const std::string s(t, 3);
  const std::string r = dlaf::util::copy_to_lower(s);
  return r.size() == 3 && r[0] == tolower(a) && r[1] == tolower(b) && r[2] == tolower(c) && s[0] == t[0] && s[2] == t[2];
}
