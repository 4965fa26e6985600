#pragma once
#include "version_stub.hpp"

#include <cstddef>
#include <cstdlib>
#include <deque>
#include <exception>
#include <functional>
#include <iostream>
#include <memory>
#include <optional>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>

#ifndef VERIF_THREADS
#define VERIF_THREADS 4
#endif
namespace pika {
namespace threads { class thread_pool_base { public: std::size_t get_os_thread_count() const { return VERIF_THREADS; } }; }
namespace execution {
enum class thread_priority { default_, low, normal, high_recursive, boost, high, bound };
enum class thread_stacksize { small_, medium, large, huge, nostack, current, default_ };

namespace experimental {

// ---------------------------------------------------------------- sender protocol of the stand-in
template <class S, class = void>
struct is_sender : std::false_type {};
template <class S>
struct is_sender<S, std::void_t<typename std::decay_t<S>::stub_values>> : std::true_type {};
template <class S>
inline constexpr bool is_sender_v = is_sender<S>::value;

template <class S>
using stub_values_t = typename std::decay_t<S>::stub_values;

namespace stub {
template <template <class...> class Tuple, class T>
struct retuple;
template <template <class...> class Tuple, class... Ts>
struct retuple<Tuple, std::tuple<Ts...>> { using type = Tuple<Ts...>; };

template <class F, class Tup>
struct apply_result;
template <class F, class... Ts>
struct apply_result<F, std::tuple<Ts...>> { using type = std::invoke_result_t<F, Ts...>; };

template <class R> struct as_values { using type = std::tuple<R>; };
template <> struct as_values<void> { using type = std::tuple<>; };

template <class Tup> struct decay_tuple;
template <class... Ts> struct decay_tuple<std::tuple<Ts...>> { using type = std::tuple<std::decay_t<Ts>...>; };
template <class Tup> struct lvalue_tuple;
template <class... Ts> struct lvalue_tuple<std::tuple<Ts...>> { using type = std::tuple<std::decay_t<Ts>&...>; };
template <class Tup> struct clvalue_tuple;
template <class... Ts> struct clvalue_tuple<std::tuple<Ts...>> { using type = std::tuple<const std::decay_t<Ts>&...>; };

// pollers: functions returning true when they made progress; run by sync_wait
inline std::deque<std::function<bool()>>& pollers() { static std::deque<std::function<bool()>> p; return p; }
inline bool poll_once() {
  bool progress = false;
  auto n = pollers().size();
  for (std::size_t i = 0; i < n; ++i) {
    auto f = std::move(pollers().front());
    pollers().pop_front();
    if (f()) progress = true; else pollers().push_back(std::move(f));
  }
  return progress;
}

// move-only callable
template <class... Ts>
struct callback_base { virtual void call(Ts... ts) = 0; virtual ~callback_base() = default; };
template <class K, class... Ts>
struct callback_impl final : callback_base<Ts...> {
  K k; explicit callback_impl(K&& k) : k(std::move(k)) {}
  void call(Ts... ts) override { std::move(k)(std::forward<Ts>(ts)...); }
};
template <class... Ts>
struct callback {
  std::unique_ptr<callback_base<Ts...>> p;
  template <class K, class = std::enable_if_t<!std::is_same_v<std::decay_t<K>, callback>>>
  callback(K&& k) : p(new callback_impl<std::decay_t<K>, Ts...>(std::decay_t<K>(std::forward<K>(k)))) {}
  callback(callback&&) = default;
  callback& operator=(callback&&) = default;
  void operator()(Ts... ts) { auto q = std::move(p); q->call(std::forward<Ts>(ts)...); }
};
template <class Tup> struct callback_for;
template <class... Ts> struct callback_for<std::tuple<Ts...>> { using type = callback<Ts...>; };
}

template <class S>
struct sender_traits {
  template <template <class...> class Tuple, template <class...> class Variant>
  using value_types = Variant<typename stub::retuple<Tuple, stub_values_t<S>>::type>;
  template <template <class...> class Variant>
  using error_types = Variant<std::exception_ptr>;
  static constexpr bool sends_done = false;
};

// ---------------------------------------------------------------- just
template <class... Ts>
struct just_sender {
  using stub_values = std::tuple<Ts...>;
  std::tuple<Ts...> vals;
  template <class K>
  void submit(K&& k) && { std::apply([&](auto&... v) { std::forward<K>(k)(std::move(v)...); }, vals); }
};
inline constexpr struct just_t {
  template <class... Ts>
  [[nodiscard]] auto operator()(Ts&&... ts) const { return just_sender<std::decay_t<Ts>...>{{std::forward<Ts>(ts)...}}; }
} just{};

// ---------------------------------------------------------------- partial application
template <class Tag, class... Args>
struct partial {
  std::tuple<Args...> args;
  template <class S, class = std::enable_if_t<is_sender_v<S>>>
  friend auto operator|(S&& s, partial p) {
    return std::apply([&](auto&... a) { return Tag{}(std::forward<S>(s), std::move(a)...); }, p.args);
  }
};

// ---------------------------------------------------------------- then
template <class S, class F>
struct then_sender {
  using R = typename stub::apply_result<F, stub_values_t<S>>::type;
  using stub_values = typename stub::as_values<R>::type;
  S s; F f;
  template <class K>
  void submit(K&& k) && {
    std::move(s).submit([f = std::move(f), k = std::decay_t<K>(std::forward<K>(k))](auto&&... ts) mutable {
      if constexpr (std::is_void_v<R>) { std::move(f)(std::forward<decltype(ts)>(ts)...); std::move(k)(); }
      else std::move(k)(std::move(f)(std::forward<decltype(ts)>(ts)...));
    });
  }
};
struct then_t {
  template <class S, class F, class = std::enable_if_t<is_sender_v<S>>>
  [[nodiscard]] auto operator()(S&& s, F&& f) const { return then_sender<std::decay_t<S>, std::decay_t<F>>{std::forward<S>(s), std::forward<F>(f)}; }
  template <class F>
  [[nodiscard]] auto operator()(F&& f) const { return partial<then_t, std::decay_t<F>>{{std::forward<F>(f)}}; }
};
inline constexpr then_t then{};

// ---------------------------------------------------------------- bulk
template <class S, class N, class F>
struct bulk_sender {
  using stub_values = stub_values_t<S>;
  S s; N n; F f;
  template <class K>
  void submit(K&& k) && {
    std::move(s).submit([n = n, f = std::move(f), k = std::decay_t<K>(std::forward<K>(k))](auto&&... ts) mutable {
      for (N i = 0; i < n; ++i) f(i, ts...);
      std::move(k)(std::forward<decltype(ts)>(ts)...);
    });
  }
};
struct bulk_t {
  template <class S, class N, class F, class = std::enable_if_t<is_sender_v<S>>>
  [[nodiscard]] auto operator()(S&& s, N n, F&& f) const { return bulk_sender<std::decay_t<S>, N, std::decay_t<F>>{std::forward<S>(s), n, std::forward<F>(f)}; }
  template <class N, class F, class = std::enable_if_t<!is_sender_v<N>>>
  [[nodiscard]] auto operator()(N n, F&& f) const { return partial<bulk_t, N, std::decay_t<F>>{{n, std::forward<F>(f)}}; }
};
inline constexpr bulk_t bulk{};

// ---------------------------------------------------------------- let_value
template <class S, class F>
struct let_value_sender {
  using stored = typename stub::decay_tuple<stub_values_t<S>>::type;
  using inner = std::decay_t<typename stub::apply_result<F, typename stub::lvalue_tuple<stub_values_t<S>>::type>::type>;
  using stub_values = stub_values_t<inner>;
  S s; F f;
  template <class K>
  void submit(K&& k) && {
    std::move(s).submit([f = std::move(f), k = std::decay_t<K>(std::forward<K>(k))](auto&&... ts) mutable {
      auto st = std::make_shared<std::pair<stored, F>>(stored(std::forward<decltype(ts)>(ts)...), std::move(f));
      auto in = std::apply([&](auto&... v) { return std::move(st->second)(v...); }, st->first);
      std::move(in).submit([st, k = std::move(k)](auto&&... us) mutable { std::move(k)(std::forward<decltype(us)>(us)...); st.reset(); });
    });
  }
};
struct let_value_t {
  template <class S, class F, class = std::enable_if_t<is_sender_v<S>>>
  [[nodiscard]] auto operator()(S&& s, F&& f) const { return let_value_sender<std::decay_t<S>, std::decay_t<F>>{std::forward<S>(s), std::forward<F>(f)}; }
  template <class F>
  [[nodiscard]] auto operator()(F&& f) const { return partial<let_value_t, std::decay_t<F>>{{std::forward<F>(f)}}; }
};
inline constexpr let_value_t let_value{};

// ---------------------------------------------------------------- when_all
template <class... Ss>
struct when_all_sender {
  using stub_values = decltype(std::tuple_cat(std::declval<typename stub::decay_tuple<stub_values_t<Ss>>::type>()...));
  using opt = std::tuple<std::optional<typename stub::decay_tuple<stub_values_t<Ss>>::type>...>;
  std::tuple<Ss...> ss;
  template <class K>
  struct state {
    opt vals; std::size_t left; std::decay_t<K> k;
    void done() {
      if (--left) return;
      finish(std::index_sequence_for<Ss...>{});
    }
    template <std::size_t... I>
    void finish(std::index_sequence<I...>) {
      auto all = std::tuple_cat(std::move(*std::get<I>(vals))...);
      (std::get<I>(vals).reset(), ...);
      std::apply([&](auto&... v) { std::move(k)(std::move(v)...); }, all);
    }
  };
  template <class ST, std::size_t... I>
  void go(std::shared_ptr<ST> st, std::index_sequence<I...>) {
    (std::move(std::get<I>(ss)).submit([st](auto&&... ts) mutable {
      std::get<I>(st->vals).emplace(std::forward<decltype(ts)>(ts)...);
      st->done(); st.reset();
    }), ...);
  }
  template <class K>
  void submit(K&& k) && {
    auto st = std::shared_ptr<state<K>>(new state<K>{{}, sizeof...(Ss), std::decay_t<K>(std::forward<K>(k))});
    go(st, std::index_sequence_for<Ss...>{});
  }
};
inline constexpr struct when_all_t {
  template <class... Ss, class = std::enable_if_t<(is_sender_v<Ss> && ...)>>
  [[nodiscard]] auto operator()(Ss&&... ss) const { return when_all_sender<std::decay_t<Ss>...>{{std::forward<Ss>(ss)...}}; }
} when_all{};

template <class S>
struct when_all_vector_sender {
  using one = stub_values_t<S>;
  static_assert(std::tuple_size_v<one> <= 1);
  static constexpr bool is_void = std::tuple_size_v<one> == 0;
  template <class T, bool V> struct el { using type = char; };
  template <class T> struct el<T, false> { using type = std::decay_t<std::tuple_element_t<0, T>>; };
  using E = typename el<one, is_void>::type;
  using stub_values = std::conditional_t<is_void, std::tuple<>, std::tuple<std::vector<E>>>;
  std::vector<S> ss;
  template <class K>
  void submit(K&& k) && {
    struct state { std::vector<std::optional<E>> v; std::size_t left; std::decay_t<K> k;
      void done() { if (--left) return;
        if constexpr (is_void) std::move(k)();
        else { std::vector<E> r; r.reserve(v.size()); for (auto& x : v) r.push_back(std::move(*x)); v.clear(); std::move(k)(std::move(r)); } } };
    auto st = std::shared_ptr<state>(new state{{}, ss.size() + 1, std::decay_t<K>(std::forward<K>(k))});
    st->v.resize(ss.size());
    auto local = std::move(ss);
    for (std::size_t i = 0; i < local.size(); ++i)
      std::move(local[i]).submit([st, i](auto&&... ts) mutable {
        if constexpr (!is_void) (st->v[i].emplace(std::forward<decltype(ts)>(ts)), ...);
        (void) i; st->done(); st.reset();
      });
    st->done();
  }
};
inline constexpr struct when_all_vector_t {
  template <class S>
  [[nodiscard]] auto operator()(std::vector<S> ss) const { return when_all_vector_sender<S>{std::move(ss)}; }
  template <class V, class = typename V::value_type>
  [[nodiscard]] auto operator()(V&& ss) const { std::vector<typename V::value_type> v; for (auto& s : ss) v.push_back(std::move(s)); return when_all_vector_sender<typename V::value_type>{std::move(v)}; }
} when_all_vector{};

// ---------------------------------------------------------------- type erasure
template <class... Ts>
class unique_any_sender {
  struct base { virtual void submit(stub::callback<Ts...> k) = 0; virtual ~base() = default; };
  template <class S> struct impl final : base { S s; explicit impl(S s) : s(std::move(s)) {} void submit(stub::callback<Ts...> k) override { std::move(s).submit([k = std::move(k)](auto&&... ts) mutable { k(Ts(std::forward<decltype(ts)>(ts))...); }); } };
  std::unique_ptr<base> p;
public:
  using stub_values = std::tuple<Ts...>;
  unique_any_sender() = default;
  template <class S, class = std::enable_if_t<is_sender_v<S> && !std::is_same_v<std::decay_t<S>, unique_any_sender>>>
  unique_any_sender(S&& s) : p(new impl<std::decay_t<S>>(std::forward<S>(s))) {}
  unique_any_sender(unique_any_sender&&) = default;
  unique_any_sender& operator=(unique_any_sender&&) = default;
  unique_any_sender(const unique_any_sender&) = delete;
  unique_any_sender& operator=(const unique_any_sender&) = delete;
  void reset() { p.reset(); }
  bool empty() const noexcept { return !p; }
  explicit operator bool() const noexcept { return !empty(); }
  template <class K> void submit(K&& k) && { auto q = std::move(p); q->submit(stub::callback<Ts...>(std::forward<K>(k))); }
};
template <class... Ts>
class any_sender {
  struct base { virtual void submit(stub::callback<Ts...> k) = 0; virtual std::unique_ptr<base> clone() const = 0; virtual ~base() = default; };
  template <class S> struct impl final : base { S s; explicit impl(S s) : s(std::move(s)) {} void submit(stub::callback<Ts...> k) override { std::move(s).submit([k = std::move(k)](auto&&... ts) mutable { k(Ts(std::forward<decltype(ts)>(ts))...); }); } std::unique_ptr<base> clone() const override { return std::unique_ptr<base>(new impl(s)); } };
  std::unique_ptr<base> p;
public:
  using stub_values = std::tuple<Ts...>;
  any_sender() = default;
  template <class S, class = std::enable_if_t<is_sender_v<S> && !std::is_same_v<std::decay_t<S>, any_sender>>>
  any_sender(S&& s) : p(new impl<std::decay_t<S>>(std::forward<S>(s))) {}
  any_sender(any_sender&&) = default;
  any_sender& operator=(any_sender&&) = default;
  any_sender(const any_sender& o) : p(o.p ? o.p->clone() : nullptr) {}
  any_sender& operator=(const any_sender& o) { p = o.p ? o.p->clone() : nullptr; return *this; }
  void reset() { p.reset(); }
  bool empty() const noexcept { return !p; }
  explicit operator bool() const noexcept { return !empty(); }
  template <class K> void submit(K&& k) && { auto q = std::move(p); q->submit(stub::callback<Ts...>(std::forward<K>(k))); }
};
inline constexpr struct make_unique_any_sender_t {
  template <class S> [[nodiscard]] auto operator()(S&& s) const { using U = typename stub::retuple<unique_any_sender, stub_values_t<S>>::type; return U(std::forward<S>(s)); }
} make_unique_any_sender{};
inline constexpr struct make_any_sender_t {
  template <class S> [[nodiscard]] auto operator()(S&& s) const { using U = typename stub::retuple<any_sender, stub_values_t<S>>::type; return U(std::forward<S>(s)); }
} make_any_sender{};

// ---------------------------------------------------------------- shared state: split, ensure_started
namespace stub {
template <class Tup> struct shared_state;
template <class... Ts>
struct shared_state<std::tuple<Ts...>> {
  std::optional<std::tuple<std::decay_t<Ts>...>> vals;
  std::vector<callback<>> waiting;
  bool started = false;
  std::function<void()> start_f;
  void set(Ts... ts) { vals.emplace(std::forward<Ts>(ts)...); auto w = std::move(waiting); waiting.clear(); for (auto& c : w) c(); }
};
}
template <class S>
struct split_sender {
  using state = stub::shared_state<stub_values_t<S>>;
  using stub_values = typename stub::clvalue_tuple<stub_values_t<S>>::type;
  struct holder { state st; std::optional<S> s; };
  std::shared_ptr<holder> h;
  template <class K>
  void submit(K&& k) const {
    auto go = [h = h, k = std::decay_t<K>(std::forward<K>(k))]() mutable { std::apply([&](const auto&... v) { std::move(k)(v...); }, *h->st.vals); };
    if (h->st.vals) { go(); return; }
    h->st.waiting.emplace_back(std::move(go));
    if (!h->st.started) {
      h->st.started = true;
      auto s = std::move(*h->s); h->s.reset();
      std::move(s).submit([h = h](auto&&... ts) mutable { auto hh = std::move(h); hh->st.set(std::forward<decltype(ts)>(ts)...); });
    }
  }
};
struct split_t {
  template <class S, class = std::enable_if_t<is_sender_v<S>>>
  [[nodiscard]] auto operator()(S&& s) const { using SS = split_sender<std::decay_t<S>>; auto h = std::make_shared<typename SS::holder>(); h->s.emplace(std::forward<S>(s)); return SS{std::move(h)}; }
  [[nodiscard]] auto operator()() const { return partial<split_t>{}; }
};
inline constexpr split_t split{};

template <class S>
struct ensure_started_sender {
  using stub_values = typename stub::decay_tuple<stub_values_t<S>>::type;
  using state = stub::shared_state<stub_values_t<S>>;
  std::shared_ptr<state> st;
  ensure_started_sender(std::shared_ptr<state> s) : st(std::move(s)) {}
  ensure_started_sender(ensure_started_sender&&) = default;
  ensure_started_sender& operator=(ensure_started_sender&&) = default;
  template <class K>
  void submit(K&& k) && {
    auto s = std::move(st);
    auto go = [k = std::decay_t<K>(std::forward<K>(k))](state* p) mutable {
      auto v = std::move(*p->vals);
      p->vals.reset();
      std::apply([&](auto&... x) { std::move(k)(std::move(x)...); }, v); };
    if (s->vals) { go(s.get()); return; }
    state* raw = s.get();
    raw->waiting.emplace_back([go = std::move(go), raw]() mutable { go(raw); });
  }
};
struct ensure_started_t {
  template <class S, class = std::enable_if_t<is_sender_v<S>>>
  [[nodiscard]] auto operator()(S&& s) const {
    using ES = ensure_started_sender<std::decay_t<S>>;
    auto st = std::make_shared<typename ES::state>();
    std::decay_t<S> local(std::forward<S>(s));
    std::move(local).submit([st](auto&&... ts) mutable { auto p = std::move(st); p->set(std::forward<decltype(ts)>(ts)...); });
    return ES{st};
  }
  [[nodiscard]] auto operator()() const { return partial<ensure_started_t>{}; }
};
inline constexpr ensure_started_t ensure_started{};

struct start_detached_t {
  template <class S, class = std::enable_if_t<is_sender_v<S>>>
  void operator()(S&& s) const { std::decay_t<S> local(std::forward<S>(s)); std::move(local).submit([](auto&&...) {}); }
  auto operator()() const { return partial<start_detached_t>{}; }
};
inline constexpr start_detached_t start_detached{};

// ---------------------------------------------------------------- small adaptors
template <class S>
struct drop_value_sender {
  using stub_values = std::tuple<>;
  S s;
  template <class K> void submit(K&& k) && { std::move(s).submit([k = std::decay_t<K>(std::forward<K>(k))](auto&&... ts) mutable { { std::tuple<std::decay_t<decltype(ts)>...> sink(std::forward<decltype(ts)>(ts)...); } std::move(k)(); }); }
};
struct drop_value_t {
  template <class S, class = std::enable_if_t<is_sender_v<S>>>
  [[nodiscard]] auto operator()(S&& s) const { return drop_value_sender<std::decay_t<S>>{std::forward<S>(s)}; }
  [[nodiscard]] auto operator()() const { return partial<drop_value_t>{}; }
};
inline constexpr drop_value_t drop_value{};

template <class S>
struct drop_operation_state_sender {
  using stub_values = typename stub::decay_tuple<stub_values_t<S>>::type;
  S s;
  template <class K> void submit(K&& k) && { std::move(s).submit(std::forward<K>(k)); }
};
struct drop_operation_state_t {
  template <class S, class = std::enable_if_t<is_sender_v<S>>>
  [[nodiscard]] auto operator()(S&& s) const { return drop_operation_state_sender<std::decay_t<S>>{std::forward<S>(s)}; }
  [[nodiscard]] auto operator()() const { return partial<drop_operation_state_t>{}; }
};
inline constexpr drop_operation_state_t drop_operation_state{};

template <class S>
struct unpack_sender {
  using tup = std::decay_t<std::tuple_element_t<0, stub_values_t<S>>>;
  template <class T> struct to_tuple;
  template <class... Ts> struct to_tuple<std::tuple<Ts...>> { using type = std::tuple<Ts...>; };
  template <class A, class B> struct to_tuple<std::pair<A, B>> { using type = std::tuple<A, B>; };
  using stub_values = typename to_tuple<tup>::type;
  S s;
  template <class K> void submit(K&& k) && { std::move(s).submit([k = std::decay_t<K>(std::forward<K>(k))](auto&& t) mutable { std::apply([&](auto&&... v) { std::move(k)(std::forward<decltype(v)>(v)...); }, std::forward<decltype(t)>(t)); }); }
};
struct unpack_t {
  template <class S, class = std::enable_if_t<is_sender_v<S>>>
  [[nodiscard]] auto operator()(S&& s) const { return unpack_sender<std::decay_t<S>>{std::forward<S>(s)}; }
  [[nodiscard]] auto operator()() const { return partial<unpack_t>{}; }
};
inline constexpr unpack_t unpack{};

// split_tuple: a sender of a tuple becomes a tuple of senders of its elements
template <class S, std::size_t I>
struct split_tuple_sender {
  using tup = std::decay_t<std::tuple_element_t<0, stub_values_t<S>>>;
  using stub_values = std::tuple<std::tuple_element_t<I, tup>>;
  split_sender<S> s;
  template <class K> void submit(K&& k) && { s.submit([k = std::decay_t<K>(std::forward<K>(k))](const tup& t) mutable { std::move(k)(std::move(std::get<I>(const_cast<tup&>(t)))); }); }
};
struct split_tuple_t {
  template <class S, class = std::enable_if_t<is_sender_v<S>>>
  [[nodiscard]] auto operator()(S&& s) const { using D = std::decay_t<S>; using tup = std::decay_t<std::tuple_element_t<0, stub_values_t<D>>>; return make(split_t{}(std::forward<S>(s)), static_cast<D*>(nullptr), std::make_index_sequence<std::tuple_size_v<tup>>{}); }
  template <class SS, class D, std::size_t... I>
  static auto make(SS ss, D*, std::index_sequence<I...>) { return std::tuple<split_tuple_sender<D, I>...>{split_tuple_sender<D, I>{ss}...}; }
  [[nodiscard]] auto operator()() const { return partial<split_tuple_t>{}; }
};
inline constexpr split_tuple_t split_tuple{};

// ---------------------------------------------------------------- schedulers
struct thread_pool_scheduler {
  threads::thread_pool_base* pool = nullptr;
  thread_priority priority = thread_priority::normal;
  thread_stacksize stacksize = thread_stacksize::default_;
  thread_pool_scheduler() = default;
  explicit thread_pool_scheduler(threads::thread_pool_base* p) : pool(p) {}
};
inline thread_pool_scheduler with_priority(thread_pool_scheduler s, thread_priority p) { s.priority = p; return s; }
inline thread_pool_scheduler with_stacksize(thread_pool_scheduler s, thread_stacksize p) { s.stacksize = p; return s; }
inline thread_priority get_priority(const thread_pool_scheduler& s) { return s.priority; }

template <class Sched>
struct schedule_sender { using stub_values = std::tuple<>; Sched sched; template <class K> void submit(K&& k) && { std::forward<K>(k)(); } };
inline constexpr struct schedule_t { template <class Sched> [[nodiscard]] auto operator()(Sched s) const { return schedule_sender<Sched>{s}; } } schedule{};

template <class S, class Sched>
struct continues_on_sender {
  using stub_values = typename stub::decay_tuple<stub_values_t<S>>::type;
  S s; Sched sched;
  template <class K> void submit(K&& k) && { std::move(s).submit([k = std::decay_t<K>(std::forward<K>(k))](auto&&... ts) mutable { std::tuple<std::decay_t<decltype(ts)>...> v(std::forward<decltype(ts)>(ts)...); std::apply([&](auto&... x) { std::move(k)(std::move(x)...); }, v); }); }
};
struct continues_on_t {
  template <class S, class Sched, class = std::enable_if_t<is_sender_v<S>>>
  [[nodiscard]] auto operator()(S&& s, Sched sched) const { return continues_on_sender<std::decay_t<S>, Sched>{std::forward<S>(s), sched}; }
  template <class Sched, class = std::enable_if_t<!is_sender_v<Sched>>>
  [[nodiscard]] auto operator()(Sched sched) const { return partial<continues_on_t, Sched>{{sched}}; }
};
inline constexpr continues_on_t continues_on{};
inline constexpr continues_on_t transfer{};
}  // namespace experimental
}  // namespace execution

namespace this_thread::experimental {
struct sync_wait_t {
  template <class S, class = std::enable_if_t<execution::experimental::is_sender_v<S>>>
  auto operator()(S&& s) const {
    namespace ex = pika::execution::experimental;
    using V = typename ex::stub::decay_tuple<ex::stub_values_t<S>>::type;
    std::optional<V> r;
    std::decay_t<S> local(std::forward<S>(s));
    std::move(local).submit([&r](auto&&... ts) { r.emplace(std::forward<decltype(ts)>(ts)...); });
    while (!r) {
      if (ex::stub::pollers().empty()) { std::cerr << "pika stub: sync_wait would never complete\n"; std::abort(); }
      ex::stub::poll_once();
    }
    if constexpr (std::tuple_size_v<V> == 1) return std::move(std::get<0>(*r));
  }
  auto operator()() const { return execution::experimental::partial<sync_wait_t>{}; }
};
inline constexpr sync_wait_t sync_wait{};
}
}  // namespace pika
