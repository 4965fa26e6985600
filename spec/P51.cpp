// P51 Generic wrappers and helpers preserve what they wrap
#include <chrono>
#include <dlaf/common/callable_object.h>
#include <dlaf/common/consume_rvalues.h>
#include <dlaf/common/timer.h>
#include <dlaf/common/unwrap.h>
#include <dlaf/common/vector.h>
#include <dlaf/common/with_result_of.h>
#include <dlaf/sender/typelist.h>
#include <dlaf/traits.h>
using dlaf::SizeType;
//@ def C = include/dlaf/common/callable_object.h
//@ def R = include/dlaf/common/consume_rvalues.h
//@ def W = include/dlaf/common/with_result_of.h
//@ def U = include/dlaf/common/unwrap.h
//@ def V = include/dlaf/common/vector.h
namespace probe {
inline int alive, moved, copied;
struct R {  // a resource
  long v;
  bool own = true;
  explicit R(long v) : v(v) { ++alive; }
  R(R&& o) noexcept : v(o.v), own(o.own) { o.own = false; ++moved; }
  R(const R& o) : v(o.v), own(o.own) { if (own) ++alive; ++copied; }
  R& operator=(R&&) = delete;
  ~R() { if (own) --alive; }
};
[[gnu::always_inline]] inline void reset() { alive = moved = copied = 0; }
}
using probe::R;
namespace fn {
// overloads: value category and constness of every argument must survive
inline int f(long& a, long b) { a += b; return 1; }
inline int f(const long& a, long b) { return a == b ? 20 : 21; }
inline int f(long&& a, long b) { a -= b; return 3; }
inline long& f(long* p) { return *p; }
DLAF_MAKE_CALLABLE_OBJECT(f);
}
//@ law callable ; about: $C: DLAF_MAKE_CALLABLE_OBJECT ; dom: a=-9..9|-10**9..10**9, b=-9..9|-10**9..10**9
extern "C" bool law_callable(long a, long b) {
  long x = a, y = a;
  const long c = a;
  const int r1 = fn::f_o(x, b), r2 = fn::f_o(c, b), r3 = fn::f_o(std::move(y), b);
  long z = 0;
  fn::f_o(&z) = b;
  return r1 == 1 && x == a + b && r2 == (a == b ? 20 : 21) && r3 == 3 && y == a - b && z == b;
}
//@ law consume ; about: $R: ConsumeRvalues: rvalue arguments are gone when the call returns, lvalue arguments stay ; dom: a=-9..9|-10**9..10**9, b=-9..9|-10**9..10**9
extern "C" bool law_consume(long a, long b) {
  probe::reset();
  R x(a), y(b);
  long during = 0;
  auto call = dlaf::common::internal::ConsumeRvalues{[&](R&& p, R& q) { during = probe::alive; q.v += 1; return p.v + q.v; }};
  const long r = std::move(call)(std::move(x), y);
  return r == a + b + 1 && during == 2 && probe::alive == 1 && !x.own && y.own && y.v == b + 1 && probe::copied == 0;
}
//@ law consume_lvalue ; about: $R: ConsumeRvalues called as an lvalue, twice ; dom: a=-9..9|-10**9..10**9, b=-9..9|-10**9..10**9
extern "C" bool law_consume_lvalue(long a, long b) {
  probe::reset();
  R x(a), y(b);
  long sum = 0;
  auto call = dlaf::common::internal::ConsumeRvalues{[&sum, n = 0](R&& p) mutable { sum += p.v + n; ++n; }};
  call(std::move(x));
  const int mid = probe::alive;
  call(std::move(y));
  return sum == a + b + 1 && mid == 1 && probe::alive == 0 && probe::copied == 0;
}
//@ law consume_reference ; about: $R: ConsumeRvalues returns the reference that the function returns ; dom: a=-9..9|-10**9..10**9
extern "C" bool law_consume_reference(long a) {
  long x = 0;
  auto call = dlaf::common::internal::ConsumeRvalues{[](long& p) -> long& { return p; }};
  call(x) = a;
  static_assert(std::is_same_v<decltype(std::move(call)(x)), long&>);
  return x == a;
}
//@ law unwrapping ; about: $U: Unwrapping ; dom: a=-9..9|-10**9..10**9, b=-9..9|-10**9..10**9
extern "C" bool law_unwrapping(long a, long b) {
  probe::reset();
  long x = a;
  R y(b);
  auto call = dlaf::common::internal::Unwrapping{[](long& p, R&& q, const long& c) { p += 1; R z(std::move(q)); return p + z.v + c; }};
  const long c = 7;
  const long r = std::move(call)(std::ref(x), std::move(y), std::cref(c));
  return r == a + 1 + b + 7 && x == a + 1 && !y.own && probe::alive == 0 && probe::copied == 0;
}
//@ law unwrap_plain ; about: $U: unwrap ; dom: a=-9..9|-10**9..10**9
extern "C" bool law_unwrap_plain(long a) {
  long x = a;
  auto w = std::ref(x);
  using namespace dlaf::common::internal;
  static_assert(std::is_same_v<decltype(unwrap(x)), long&> && std::is_same_v<decltype(unwrap(w)), long&> && std::is_same_v<decltype(unwrap(std::move(x))), long&&>);
  return &unwrap(x) == &x && &unwrap(w) == &x;
}
namespace probe {
struct Fixed {  // cannot be moved
  long v;
  explicit Fixed(long v) : v(v) {}
  Fixed(Fixed&&) = delete;
};
}
//@ law with_result_of ; about: $W: WithResultOf ; dom: a=-9..9|-10**9..10**9
extern "C" bool law_with_result_of(long a) {
  int calls = 0;
  std::optional<probe::Fixed> o;
  o.emplace(dlaf::internal::WithResultOf([&] { ++calls; return probe::Fixed(a + calls); }));
  const int n = calls;
  dlaf::internal::WithResultOf w([&] { ++calls; return a + calls; });
  const int lazy = calls;
  const long r1 = w;
  return o->v == a + 1 && n == 1 && lazy == 1 && r1 == a + 2 && calls == 2;
}
namespace probe {
inline long ticks;
struct Clock {
  using duration = std::chrono::duration<long, std::micro>;
  using rep = duration::rep;
  using period = duration::period;
  using time_point = std::chrono::time_point<Clock>;
  static constexpr bool is_steady = true;
  static time_point now() { return time_point(duration(ticks)); }
};
}
//@ law timer ; about: include/dlaf/common/timer.h: Timer ; dom: t0=0..10**6|0..10**12, d=0..10**6, e=0..10**6
extern "C" bool law_timer(long t0, long d, long e) {
  probe::ticks = t0;
  const dlaf::common::Timer<probe::Clock> t;
  probe::ticks = t0 + d;
  const double a = t.elapsed();
  probe::ticks = t0 + d + e;
  const double b = t.elapsed();
  return a == static_cast<double>(d) / 1e6 && b == static_cast<double>(d + e) / 1e6;
}
namespace vec {
template <class F>
[[gnu::always_inline]] inline void with(F f) { f(); }
}
//@ law vector_index ; about: $V: operator[], at, size ; dom: a=-9..9|-10**9..10**9, b=-9..9|-10**9..10**9, c=-9..9|-10**9..10**9, i=0..2 ; unroll=6 ; events=none ; ends=1
extern "C" bool law_vector_index(long a, long b, long c, SizeType i) {
  dlaf::common::internal::vector<long> v(SizeType(3));
  v[0] = a; v[1] = b; v.at(SizeType(2)) = c;
  const auto& w = v;
  const long e = i == 0 ? a : i == 1 ? b : c;
  return v.size() == 3 && w.size() == 3 && v[i] == e && w[i] == e && v.at(i) == e && w.at(i) == e && &v[i] == v.data() + i;
}
//@ law vector_fill ; about: $V: vector(size, value), resize, reserve ; dom: a=-9..9|-10**9..10**9, b=-9..9|-10**9..10**9 ; unroll=6 ; events=none ; ends=1
extern "C" bool law_vector_fill(long a, long b) {
  using V = dlaf::common::internal::vector<long>;
  V v(SizeType(2), a);
  const bool ok1 = v.size() == 2 && v[0] == a && v[1] == a;
  v.resize(SizeType(4), b);
  const bool ok2 = v.size() == 4 && v[1] == a && v[2] == b && v[3] == b;
  v.resize(SizeType(1));
  const bool ok3 = v.size() == 1 && v[0] == a;
  V w;
  w.reserve(SizeType(3));
  const bool ok4 = w.size() == 0 && w.capacity() >= 3;
  V z(SizeType(2));
  return ok1 && ok2 && ok3 && ok4 && z.size() == 2 && z[0] == 0 && z[1] == 0;
}
//@ law vector_negative ; about: $V: negative sizes and indices are rejected ; dom: n=-9..-1|-10**9..-1, k=0..6 ; unroll=6 ; events=none ; ends=1
extern "C" void rej_vector_negative(SizeType n, int k) {
  using V = dlaf::common::internal::vector<long>;
  V v(SizeType(2), 1l);
  switch (k) {
    case 0: { V x(n); break; }
    case 1: { V x(n, 1l); break; }
    case 2: v.reserve(n); break;
    case 3: v.resize(n); break;
    case 4: v.resize(n, 1l); break;
    case 5: v[n] = 1; break;
    default: v.at(n) = 1;
  }
}
namespace tl {
template <class... Ts> struct P;
template <class T> struct Ptr { using type = T*; };
}
//@ law typelist ; about: include/dlaf/sender/typelist.h ; dom: x=0..100
extern "C" bool law_typelist(int) {
  using namespace dlaf::internal;
  using tl::P;
  return std::is_same_v<UniquePack_t<P<>>, P<>> && std::is_same_v<UniquePack_t<P<int>>, P<int>> && std::is_same_v<UniquePack_t<P<int, int>>, P<int>> &&
         std::is_same_v<UniquePack_t<P<int, char, int, long, char, int>>, P<int, char, long>> && std::is_same_v<UniquePack_t<P<char, const char, char&, char>>, P<char, const char, char&>> &&
         std::is_same_v<TransformPack_t<P<>, tl::Ptr>, P<>> && std::is_same_v<TransformPack_t<P<int, char>, tl::Ptr>, P<int*, char*>> &&
         std::is_same_v<PrependPack_t<P<>, int>, P<int>> && std::is_same_v<PrependPack_t<P<int, char>, long>, P<long, int, char>> &&
         Contains_v<int, char, int> && !Contains_v<int, char, long> && !Contains_v<int> && Contains_v<int, int>;
}
namespace tl {
template <class F, class S, class = void> struct fits : std::false_type {};
template <class F, class S> struct fits<F, S, dlaf::enable_if_signature_t<F, S>> : std::true_type {};
template <class U, class V, class = void> struct conv : std::false_type {};
template <class U, class V> struct conv<U, V, dlaf::enable_if_convertible_t<U, V>> : std::true_type {};
}
//@ law signature ; about: include/dlaf/traits.h ; dom: x=0..100
extern "C" bool law_signature(int) {
  using tl::fits;
  using tl::conv;
  return fits<float (*)(double, double), int(int, float)>::value && fits<float (*)(double, double), void(int, float)>::value && !fits<void (*)(double, double), int(int, float)>::value &&
         !fits<float (*)(double), int(int, float)>::value && std::is_same_v<dlaf::enable_if_signature_t<int (*)(), int(), char>, char> && conv<int, double>::value && !conv<int, void*>::value &&
         conv<tl::P<int>*, void*>::value && std::is_same_v<dlaf::enable_if_convertible_t<int, long, char>, char>;
}
