// Stand-in for pika's senders on one thread. A sender is an object with `poll()`, which makes progress and returns what
// it waits for (null: it completed), and `get() &&` for the values of a completed sender. A submitted task is polled until
// it completes; it is woken by what it waits for. Two schedules: `lazy` false: tasks run as soon as they can, in the order
// of submission; true: no task runs before the program waits for something, and then the youngest one that can runs first.
// Tasks that never complete stop (a deadlock).
#pragma once
#include <cstddef>
#include <cstdlib>
#include <exception>
#include <functional>
#include <memory>
#include <optional>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>

extern "C" [[noreturn]] void verif_stop() noexcept;
extern "C" [[noreturn]] void verif_order() noexcept;
#ifdef VERIF_FIBERS   // tasks that block (semaphores, barriers) are suspended and go on later
extern "C" long verif_fiber_start(void (*)(void*), void*);
extern "C" bool verif_fiber_resume(long);
extern "C" void verif_fiber_suspend();
#endif
#define VERIF_INL [[gnu::always_inline]]
#ifndef VERIF_THREADS
#ifdef VERIF_FIBERS
#define VERIF_THREADS 4
#else
#define VERIF_THREADS 1
#endif
#endif

#ifdef VERIF_MUST_USE   // a value that stands for work which somebody has to start
#define VERIF_WORK [[nodiscard]] __attribute__((warn_unused))
#else
#define VERIF_WORK
#endif
namespace pika {
namespace threads { class thread_pool_base { public: std::size_t get_os_thread_count() const { return VERIF_THREADS; } }; }
namespace execution {
enum class thread_priority { default_, low, normal, high_recursive, boost, high, bound };
enum class thread_stacksize { small_, medium, large, huge, nostack, current, default_ };

namespace experimental {
template <class S, class = void>
struct is_sender : std::false_type {};
template <class S>
struct is_sender<S, std::void_t<typename std::decay_t<S>::stub_values>> : std::true_type {};
template <class S>
inline constexpr bool is_sender_v = is_sender<S>::value;
template <class S>
using stub_values_t = typename std::decay_t<S>::stub_values;   // std::tuple of what get() yields

namespace stub {
struct task;
struct node { task* waiters = nullptr; bool done = false; };   // something that happens once
struct task {
  task* next = nullptr;
#ifdef VERIF_FIBERS
  node* result = nullptr; long fiber = 0; bool slept = false;
  static void enter(void* p) { task* t = static_cast<task*>(p); t->result = t->poll(); }
#endif
  virtual node* poll() = 0; virtual ~task() = default;
};
struct scheduler {
  task *head = nullptr, *tail = nullptr;
  long open = 0;
  bool busy = false, lazy = false;
  task* current = nullptr;   // with VERIF_FIBERS: the task that runs
  void push(task* t) { t->next = nullptr; if (tail) tail->next = t; else head = t; tail = t; }
  bool step() {
    task* t = head;
    if (!t) return false;
    if (lazy && t != tail) {
      task* b = t;
      while (b->next != tail) b = b->next;
      t = tail; tail = b; b->next = nullptr;
    }
    else { head = t->next; if (!head) tail = nullptr; }
#ifdef VERIF_FIBERS
    task* outer = std::exchange(current, t);
    bool ended = true;
    if (t->fiber) ended = verif_fiber_resume(t->fiber);
    else { t->fiber = verif_fiber_start(&task::enter, t); ended = t->fiber == 0; }
    current = outer;
    if (!ended) return true;   // suspended: pushed again when what it waits for happens
    t->fiber = 0;
    node* n = t->result;
    if (std::exchange(t->slept, false) && n) { push(t); return true; }   // what it waits for may have happened meanwhile
#else
    node* n = t->poll();
#endif
    if (n) { t->next = n->waiters; n->waiters = t; }
    else { --open; delete t; }
    return true;
  }
  void run() { if (busy) return; busy = true; while (step()) {} busy = false; }
  void submit(task* t) { ++open; push(t); if (!lazy) run(); }
  void finish() {
    run();
#ifdef VERIF_FIBERS
    while (open) { stuck(); run(); }
#endif
    if (open) verif_order();
  }
#ifdef VERIF_FIBERS
  node mpi;   // what tasks wait in for other processes
  static void stuck();
#endif
};
#ifdef VERIF_FIBERS   // each process has its own (0: outside of the processes); a process that cannot go on lets the others run
inline scheduler scheds[10];
inline int process = 0;
inline scheduler& cur() { return scheds[process]; }
inline long posts = 0;   // of messages
inline long met = 0;   // barriers passed
#else
inline scheduler sched;
inline scheduler& cur() { return sched; }
#endif
inline void fire(node* n) {
  n->done = true;
  task* w = n->waiters;
  n->waiters = nullptr;
  while (w) { task* x = w->next; cur().push(w); w = x; }
}
inline void wake(node* n) { fire(n); n->done = false; }
#ifdef VERIF_FIBERS
inline void scheduler::stuck() {
  if (!process) verif_order();
  const int me = process;
  verif_fiber_suspend();
  process = me;
  wake(&cur().mpi);
}
#endif
// what a blocked piece of a task waits in: others run meanwhile
inline void block(node& n) {
#ifdef VERIF_FIBERS
  if (task* me = cur().current) {
    me->next = n.waiters; n.waiters = me;
    me->slept = true;
    verif_fiber_suspend();
    cur().current = me;
    return;
  }
  if (!cur().step()) scheduler::stuck();
#else
  if (!cur().step()) verif_order();
#endif
}
#ifdef VERIF_FIBERS
template <class S> inline void wait(S& s) {
  for (;;) {
    task* me = cur().current;
    if (me) me->slept = false;
    node* n = s.poll();
    if (!n) break;
    if (n->done || (me && me->slept)) continue;
    block(*n);
  }
}
// runs f(0) .. f(n - 1) as processes
template <class F> struct process_arg { F* f; int r; };
template <class F> inline void process_enter(void* p) { auto* a = static_cast<process_arg<F>*>(p); (*a->f)(a->r); }
template <class F> inline void processes(int n, F f) {
  process_arg<F> args[9];
  long h[9];
  for (int r = 0; r < n; ++r) { args[r] = {&f, r}; process = r + 1; h[r] = verif_fiber_start(&process_enter<F>, &args[r]); }
  for (;;) {
    const long before = posts;
    bool open = false, ended = false;
    for (int r = 0; r < n; ++r) {
      if (!h[r]) continue;
      process = r + 1;
      if (verif_fiber_resume(h[r])) { h[r] = 0; ended = true; }
      else open = true;
    }
    if (!open) break;
    if (posts == before && !ended) verif_order();   // all wait for each other
  }
  process = 0;
}
#else
template <class S> VERIF_INL inline void wait(S& s) { while (s.poll()) if (!cur().step()) verif_order(); }
#endif
template <template <class...> class Tuple, class T> struct retuple;
template <template <class...> class Tuple, class... Ts> struct retuple<Tuple, std::tuple<Ts...>> { using type = Tuple<Ts...>; };
template <class F, class Tup> struct apply_result;
template <class F, class... Ts> struct apply_result<F, std::tuple<Ts...>> { using type = std::invoke_result_t<F, Ts...>; };
template <class R> struct as_values { using type = std::tuple<R>; };
template <> struct as_values<void> { using type = std::tuple<>; };
template <class Tup> struct decay_tuple;
template <class... Ts> struct decay_tuple<std::tuple<Ts...>> { using type = std::tuple<std::decay_t<Ts>...>; };
template <class Tup> struct lvalue_tuple;
template <class... Ts> struct lvalue_tuple<std::tuple<Ts...>> { using type = std::tuple<std::decay_t<Ts>&...>; };
template <class Tup> struct clvalue_tuple;
template <class... Ts> struct clvalue_tuple<std::tuple<Ts...>> { using type = std::tuple<const std::decay_t<Ts>&...>; };
template <class F, class... Ts, std::size_t... I>
VERIF_INL inline decltype(auto) applyi(F& f, std::tuple<Ts...>& t, std::index_sequence<I...>) { return std::move(f)(std::forward<Ts>(std::get<I>(t))...); }
template <class F, class... Ts>
VERIF_INL inline decltype(auto) apply(F& f, std::tuple<Ts...>& t) { return applyi(f, t, std::index_sequence_for<Ts...>{}); }
}

template <class S>
struct sender_traits {
  template <template <class...> class Tuple, template <class...> class Variant>
  using value_types = Variant<typename stub::retuple<Tuple, stub_values_t<S>>::type>;
  template <template <class...> class Variant>
  using error_types = Variant<std::exception_ptr>;
  static constexpr bool sends_done = false;
};

// ---------------------------------------------------------------- just
template <class... Ts>
struct just_sender {
  using stub_values = std::tuple<Ts...>;
  std::tuple<Ts...> vals;
  VERIF_INL stub::node* poll() { return nullptr; }
  VERIF_INL stub_values get() && { return std::move(vals); }
  VERIF_INL stub_values get() const& { return vals; }
};
inline constexpr struct just_t {
  template <class... Ts>
  [[nodiscard]] VERIF_INL auto operator()(Ts&&... ts) const { return just_sender<std::decay_t<Ts>...>{std::tuple<std::decay_t<Ts>...>(std::forward<Ts>(ts)...)}; }
} just{};

template <class Tag, class... Args>
struct VERIF_WORK partial {
  std::tuple<Args...> args;
  template <class S, class = std::enable_if_t<is_sender_v<S>>>
  VERIF_INL friend auto operator|(S&& s, partial p) { return run(std::forward<S>(s), p, std::index_sequence_for<Args...>{}); }
  template <class S, std::size_t... I>
  VERIF_INL static auto run(S&& s, partial& p, std::index_sequence<I...>) { return Tag{}(std::forward<S>(s), std::move(std::get<I>(p.args))...); }
};

// ---------------------------------------------------------------- then
template <class S, class F>
struct VERIF_WORK then_sender {
  using R = typename stub::apply_result<F, stub_values_t<S>>::type;
  using stub_values = typename stub::as_values<R>::type;
  S s; F f;
  std::optional<stub_values> r = std::nullopt;
  VERIF_INL stub::node* poll() {
    if (r) return nullptr;
    if (stub::node* n = s.poll()) return n;
    auto v = std::move(s).get();
    if constexpr (std::is_void_v<R>) { stub::apply(f, v); r.emplace(); }
    else r.emplace(stub::apply(f, v));
    return nullptr;
  }
  VERIF_INL stub_values get() && { return std::move(*r); }
};
struct then_t {
  template <class S, class F, class = std::enable_if_t<is_sender_v<S>>>
  [[nodiscard]] VERIF_INL auto operator()(S&& s, F&& f) const { return then_sender<std::decay_t<S>, std::decay_t<F>>{std::forward<S>(s), std::forward<F>(f)}; }
  template <class F>
  [[nodiscard]] VERIF_INL auto operator()(F&& f) const { return partial<then_t, std::decay_t<F>>{std::tuple<std::decay_t<F>>(std::forward<F>(f))}; }
};
inline constexpr then_t then{};

// ---------------------------------------------------------------- bulk
template <class S, class N, class F>
struct VERIF_WORK bulk_sender {
  using stub_values = stub_values_t<S>;
  S s; N n; F f;
  std::optional<stub_values> r = std::nullopt;
  VERIF_INL stub::node* poll() {
    if (r) return nullptr;
    if (stub::node* w = s.poll()) return w;
    r.emplace(std::move(s).get());
#ifdef VERIF_FIBERS   // the workers run side by side, first to last or last to first, each up to its next barrier
    if (n > 1) {
      stub::task* outer = std::exchange(stub::cur().current, nullptr);
      auto one = [this](int i) { std::apply([&](auto&... x) { f(static_cast<N>(i), x...); }, *r); };
      using F1 = decltype(one);
      stub::process_arg<F1> args[8];
      long h[8];
      if (n > 8) verif_stop();
      const bool back = stub::cur().lazy;
      const int m = static_cast<int>(n);
      for (int j = 0; j < m; ++j) { const int i = back ? m - 1 - j : j; args[i] = {&one, i}; h[i] = verif_fiber_start(&stub::process_enter<F1>, &args[i]); }
      for (;;) {
        const long before = stub::met;
        bool open = false, ended = false;
        for (int j = 0; j < m; ++j) {
          const int i = back ? m - 1 - j : j;
          if (!h[i]) continue;
          if (verif_fiber_resume(h[i])) { h[i] = 0; ended = true; }
          else open = true;
        }
        if (!open) break;
        if (stub::met == before && !ended) verif_order();
      }
      stub::cur().current = outer;
      return nullptr;
    }
#endif
    for (N i = 0; i < n; ++i) std::apply([&](auto&... x) { f(i, x...); }, *r);
    return nullptr;
  }
  VERIF_INL stub_values get() && { return std::move(*r); }
};
struct bulk_t {
  template <class S, class N, class F, class = std::enable_if_t<is_sender_v<S>>>
  [[nodiscard]] VERIF_INL auto operator()(S&& s, N n, F&& f) const { return bulk_sender<std::decay_t<S>, N, std::decay_t<F>>{std::forward<S>(s), n, std::forward<F>(f)}; }
  template <class N, class F, class = std::enable_if_t<!is_sender_v<N>>>
  [[nodiscard]] VERIF_INL auto operator()(N n, F&& f) const { return partial<bulk_t, N, std::decay_t<F>>{std::tuple<N, std::decay_t<F>>(n, std::forward<F>(f))}; }
};
inline constexpr bulk_t bulk{};

// ---------------------------------------------------------------- let_value
template <class S, class F>
struct VERIF_WORK let_value_sender {
  using inner = std::decay_t<typename stub::apply_result<F, typename stub::lvalue_tuple<stub_values_t<S>>::type>::type>;
  using stub_values = typename stub::decay_tuple<stub_values_t<inner>>::type;
  S s; F f;
  std::optional<typename stub::decay_tuple<stub_values_t<S>>::type> v = std::nullopt;
  std::optional<inner> in = std::nullopt;
  VERIF_INL stub::node* poll() {
    if (!in) {
      if (stub::node* n = s.poll()) return n;
      v.emplace(std::move(s).get());
      in.emplace(std::apply([&](auto&... x) { return std::move(f)(x...); }, *v));
    }
    return in->poll();
  }
  VERIF_INL stub_values get() && { return std::move(*in).get(); }
};
struct let_value_t {
  template <class S, class F, class = std::enable_if_t<is_sender_v<S>>>
  [[nodiscard]] VERIF_INL auto operator()(S&& s, F&& f) const { return let_value_sender<std::decay_t<S>, std::decay_t<F>>{std::forward<S>(s), std::forward<F>(f)}; }
  template <class F>
  [[nodiscard]] VERIF_INL auto operator()(F&& f) const { return partial<let_value_t, std::decay_t<F>>{std::tuple<std::decay_t<F>>(std::forward<F>(f))}; }
};
inline constexpr let_value_t let_value{};

// ---------------------------------------------------------------- when_all
template <class... Ss>
struct when_all_sender {
  using stub_values = decltype(std::tuple_cat(std::declval<typename stub::decay_tuple<stub_values_t<Ss>>::type>()...));
  std::tuple<Ss...> ss;
  VERIF_INL stub::node* poll() { return std::apply([](auto&... s) { stub::node* n = nullptr; ((n = keep(n, s.poll())), ...); return n; }, ss); }
  VERIF_INL static stub::node* keep(stub::node* a, stub::node* b) { return a ? a : b; }
  VERIF_INL stub_values get() && { return go(std::index_sequence_for<Ss...>{}); }
  template <std::size_t... I>
  VERIF_INL stub_values go(std::index_sequence<I...>) { return std::tuple_cat(typename stub::decay_tuple<stub_values_t<Ss>>::type(std::move(std::get<I>(ss)).get())...); }
};
inline constexpr struct when_all_t {
  template <class... Ss, class = std::enable_if_t<(is_sender_v<Ss> && ...)>>
  [[nodiscard]] VERIF_INL auto operator()(Ss&&... ss) const { return when_all_sender<std::decay_t<Ss>...>{std::tuple<std::decay_t<Ss>...>(std::forward<Ss>(ss)...)}; }
} when_all{};

template <class S>
struct when_all_vector_sender {
  using one = stub_values_t<S>;
  static_assert(std::tuple_size_v<one> <= 1);
  static constexpr bool is_void = std::tuple_size_v<one> == 0;
  template <class T, bool V> struct el { using type = char; };
  template <class T> struct el<T, false> { using type = std::decay_t<std::tuple_element_t<0, T>>; };
  using E = typename el<one, is_void>::type;
  using stub_values = std::conditional_t<is_void, std::tuple<>, std::tuple<std::vector<E>>>;
  std::vector<S> ss;
  stub::node* poll() { stub::node* n = nullptr; for (auto& s : ss) { stub::node* m = s.poll(); n = n ? n : m; } return n; }
  stub_values get() && {
    if constexpr (is_void) { for (auto& s : ss) std::move(s).get(); return {}; }
    else {
      std::vector<E> r; r.reserve(ss.size());
      for (auto& s : ss) r.push_back(E(std::get<0>(std::move(s).get())));
      return stub_values(std::move(r));
    }
  }
};
inline constexpr struct when_all_vector_t {
  template <class S>
  [[nodiscard]] auto operator()(std::vector<S> ss) const { return when_all_vector_sender<S>{std::move(ss)}; }
  template <class V, class = typename V::value_type>
  [[nodiscard]] auto operator()(V&& ss) const { std::vector<typename V::value_type> v; v.reserve(ss.size()); for (auto& s : ss) v.push_back(std::move(s)); return when_all_vector_sender<typename V::value_type>{std::move(v)}; }
} when_all_vector{};

// ---------------------------------------------------------------- type-erased senders
namespace stub {
template <class... Ts>
struct any_base { virtual node* poll() = 0; virtual std::tuple<Ts...> get() = 0; virtual any_base* clone() const = 0; virtual ~any_base() = default; };
template <bool Copy, class S, class... Ts>
struct any_impl final : any_base<Ts...> {
  S s;
  template <class U> explicit any_impl(U&& u) : s(std::forward<U>(u)) {}
  node* poll() override { return s.poll(); }
  std::tuple<Ts...> get() override { return std::tuple<Ts...>(std::move(s).get()); }
  any_base<Ts...>* clone() const override { if constexpr (Copy) return new any_impl(s); else verif_stop(); }
};
}
template <class... Ts>
class VERIF_WORK unique_any_sender {
  stub::any_base<Ts...>* p = nullptr;
public:
  using stub_values = std::tuple<Ts...>;
  unique_any_sender() = default;
  template <class S, class = std::enable_if_t<is_sender_v<S> && !std::is_same_v<std::decay_t<S>, unique_any_sender>>>
  VERIF_INL unique_any_sender(S&& s) : p(new stub::any_impl<false, std::decay_t<S>, Ts...>(std::forward<S>(s))) {}
  VERIF_INL unique_any_sender(unique_any_sender&& o) noexcept : p(std::exchange(o.p, nullptr)) {}
  VERIF_INL unique_any_sender& operator=(unique_any_sender&& o) noexcept { auto* q = std::exchange(o.p, nullptr); reset(); p = q; return *this; }
  ~unique_any_sender() { reset(); }
  void reset() { if (auto* q = std::exchange(p, nullptr)) delete q; }
  bool empty() const noexcept { return !p; }
  explicit operator bool() const noexcept { return !empty(); }
  VERIF_INL stub::node* poll() { if (!p) verif_stop(); return p->poll(); }
  VERIF_INL stub_values get() && { stub_values r(p->get()); reset(); return r; }
};
template <class... Ts>
class VERIF_WORK any_sender {
  stub::any_base<Ts...>* p = nullptr;
public:
  using stub_values = std::tuple<Ts...>;
  any_sender() = default;
  template <class S, class = std::enable_if_t<is_sender_v<S> && !std::is_same_v<std::decay_t<S>, any_sender>>>
  VERIF_INL any_sender(S&& s) : p(new stub::any_impl<true, std::decay_t<S>, Ts...>(std::forward<S>(s))) {}
  VERIF_INL any_sender(any_sender&& o) noexcept : p(std::exchange(o.p, nullptr)) {}
  VERIF_INL any_sender& operator=(any_sender&& o) noexcept { auto* q = std::exchange(o.p, nullptr); reset(); p = q; return *this; }
  any_sender(const any_sender& o) : p(o.p ? o.p->clone() : nullptr) {}
  any_sender& operator=(const any_sender& o) { if (this != &o) { reset(); p = o.p ? o.p->clone() : nullptr; } return *this; }
  ~any_sender() { reset(); }
  void reset() { if (auto* q = std::exchange(p, nullptr)) delete q; }
  bool empty() const noexcept { return !p; }
  explicit operator bool() const noexcept { return !empty(); }
  VERIF_INL stub::node* poll() { if (!p) verif_stop(); return p->poll(); }
  VERIF_INL stub_values get() && { stub_values r(p->get()); reset(); return r; }
};
inline constexpr struct make_unique_any_sender_t {
  template <class S> [[nodiscard]] VERIF_INL auto operator()(S&& s) const { using U = typename stub::retuple<unique_any_sender, stub_values_t<S>>::type; return U(std::forward<S>(s)); }
} make_unique_any_sender{};
inline constexpr struct make_any_sender_t {
  template <class S> [[nodiscard]] VERIF_INL auto operator()(S&& s) const { using U = typename stub::retuple<any_sender, stub_values_t<S>>::type; return U(std::forward<S>(s)); }
} make_any_sender{};

// ---------------------------------------------------------------- shared and started senders
template <class S>
struct VERIF_WORK split_sender {
  using vals = typename stub::decay_tuple<stub_values_t<S>>::type;
  using stub_values = typename stub::clvalue_tuple<stub_values_t<S>>::type;
  struct state : stub::node { bool busy = false; std::optional<S> s; std::optional<vals> v; };
  std::shared_ptr<state> h;
  VERIF_INL stub::node* poll() {
    if (h->v) return nullptr;
    if (h->busy) return &*h;   // another task is at it
    h->busy = true;
    stub::node* n = h->s->poll();
    h->busy = false;
    if (n) { if (h->waiters) stub::wake(&*h); return n; }
    h->v.emplace(std::move(*h->s).get());
    h->s.reset();
    stub::fire(&*h);
    return nullptr;
  }
  VERIF_INL stub_values get() const { return std::apply([](const auto&... x) { return stub_values(x...); }, *h->v); }
};
struct split_t {
  template <class S, class = std::enable_if_t<is_sender_v<S>>>
  [[nodiscard]] VERIF_INL auto operator()(S&& s) const { using SS = split_sender<std::decay_t<S>>; auto h = std::make_shared<typename SS::state>(); h->s.emplace(std::forward<S>(s)); return SS{std::move(h)}; }
  [[nodiscard]] VERIF_INL auto operator()() const { return partial<split_t>{}; }
};
inline constexpr split_t split{};

template <class V> struct started_state : stub::node { std::optional<V> v; int refs = 2; void drop() { if (--refs == 0) delete this; } };
template <class S>
struct started_task final : stub::task {
  using V = typename stub::decay_tuple<stub_values_t<S>>::type;
  S s; started_state<V>* st;
  template <class U> started_task(U&& u, started_state<V>* x) : s(std::forward<U>(u)), st(x) {}
  stub::node* poll() override {
    if (stub::node* n = s.poll()) return n;
    st->v.emplace(std::move(s).get());
    stub::fire(st);
    st->drop();
    return nullptr;
  }
};
template <class S>
struct ensure_started_sender {
  using stub_values = typename stub::decay_tuple<stub_values_t<S>>::type;
  started_state<stub_values>* st;
  explicit ensure_started_sender(started_state<stub_values>* x) : st(x) {}
  ensure_started_sender(ensure_started_sender&& o) noexcept : st(std::exchange(o.st, nullptr)) {}
  ensure_started_sender& operator=(ensure_started_sender&& o) noexcept { auto* q = std::exchange(o.st, nullptr); if (st) st->drop(); st = q; return *this; }
  ~ensure_started_sender() { if (st) st->drop(); }
  VERIF_INL stub::node* poll() { return st->done ? nullptr : st; }
  VERIF_INL stub_values get() && { stub_values r(std::move(*st->v)); st->v.reset(); return r; }
};
struct ensure_started_t {
  template <class S, class = std::enable_if_t<is_sender_v<S>>>
  [[nodiscard]] VERIF_INL auto operator()(S&& s) const {
    using D = std::decay_t<S>;
    auto* st = new started_state<typename ensure_started_sender<D>::stub_values>();
    stub::cur().submit(new started_task<D>(std::forward<S>(s), st));
    return ensure_started_sender<D>(st);
  }
  [[nodiscard]] VERIF_INL auto operator()() const { return partial<ensure_started_t>{}; }
};
inline constexpr ensure_started_t ensure_started{};

template <class S>
struct detached_task final : stub::task {
  S s;
  template <class U> explicit detached_task(U&& u) : s(std::forward<U>(u)) {}
  stub::node* poll() override { if (stub::node* n = s.poll()) return n; (void) std::move(s).get(); return nullptr; }
};
struct start_detached_t {
  template <class S, class = std::enable_if_t<is_sender_v<S>>>
  VERIF_INL void operator()(S&& s) const { stub::cur().submit(new detached_task<std::decay_t<S>>(std::forward<S>(s))); }
  VERIF_INL auto operator()() const { return partial<start_detached_t>{}; }
};
inline constexpr start_detached_t start_detached{};

// ---------------------------------------------------------------- small adaptors
template <class S>
struct drop_value_sender {
  using stub_values = std::tuple<>;
  S s;
  VERIF_INL stub::node* poll() { return s.poll(); }
  VERIF_INL stub_values get() && { (void) std::move(s).get(); return {}; }
};
struct drop_value_t {
  template <class S, class = std::enable_if_t<is_sender_v<S>>>
  [[nodiscard]] VERIF_INL auto operator()(S&& s) const { return drop_value_sender<std::decay_t<S>>{std::forward<S>(s)}; }
  [[nodiscard]] VERIF_INL auto operator()() const { return partial<drop_value_t>{}; }
};
inline constexpr drop_value_t drop_value{};

template <class S>
struct drop_operation_state_sender {
  using stub_values = typename stub::decay_tuple<stub_values_t<S>>::type;
  S s;
  VERIF_INL stub::node* poll() { return s.poll(); }
  VERIF_INL stub_values get() && { return stub_values(std::move(s).get()); }
};
struct drop_operation_state_t {
  template <class S, class = std::enable_if_t<is_sender_v<S>>>
  [[nodiscard]] VERIF_INL auto operator()(S&& s) const { return drop_operation_state_sender<std::decay_t<S>>{std::forward<S>(s)}; }
  [[nodiscard]] VERIF_INL auto operator()() const { return partial<drop_operation_state_t>{}; }
};
inline constexpr drop_operation_state_t drop_operation_state{};

template <class S>
struct unpack_sender {
  using tup = std::decay_t<std::tuple_element_t<0, stub_values_t<S>>>;
  template <class T> struct to_tuple;
  template <class... Ts> struct to_tuple<std::tuple<Ts...>> { using type = std::tuple<Ts...>; };
  template <class A, class B> struct to_tuple<std::pair<A, B>> { using type = std::tuple<A, B>; };
  using stub_values = typename to_tuple<tup>::type;
  S s;
  VERIF_INL stub::node* poll() { return s.poll(); }
  VERIF_INL stub_values get() && { auto v = std::move(s).get(); return stub_values(tup(std::get<0>(std::move(v)))); }
};
struct unpack_t {
  template <class S, class = std::enable_if_t<is_sender_v<S>>>
  [[nodiscard]] VERIF_INL auto operator()(S&& s) const { return unpack_sender<std::decay_t<S>>{std::forward<S>(s)}; }
  [[nodiscard]] VERIF_INL auto operator()() const { return partial<unpack_t>{}; }
};
inline constexpr unpack_t unpack{};

template <class S> struct split_tuple_state;
template <class S, std::size_t I>
struct split_tuple_sender {
  using tup = std::decay_t<std::tuple_element_t<0, stub_values_t<S>>>;
  using stub_values = std::tuple<std::tuple_element_t<I, tup>>;
  std::shared_ptr<split_tuple_state<S>> h;
  VERIF_INL stub::node* poll() {
    if (h->v) return nullptr;
    if (h->busy) return &*h;
    h->busy = true;
    stub::node* n = h->s->poll();
    h->busy = false;
    if (n) { if (h->waiters) stub::wake(&*h); return n; }
    auto v = std::move(*h->s).get();
    h->v.emplace(std::get<0>(std::move(v)));
    h->s.reset();
    stub::fire(&*h);
    return nullptr;
  }
  VERIF_INL stub_values get() && { return stub_values(std::move(std::get<I>(*h->v))); }
};
template <class S> struct split_tuple_state : stub::node { bool busy = false; std::optional<S> s; std::optional<std::decay_t<std::tuple_element_t<0, stub_values_t<S>>>> v; };
struct split_tuple_t {
  template <class S, class = std::enable_if_t<is_sender_v<S>>>
  [[nodiscard]] auto operator()(S&& s) const {
    using D = std::decay_t<S>; using tup = std::decay_t<std::tuple_element_t<0, stub_values_t<D>>>;
    auto h = std::make_shared<split_tuple_state<D>>();
    h->s.emplace(std::forward<S>(s));
    return make<D>(std::move(h), std::make_index_sequence<std::tuple_size_v<tup>>{});
  }
  template <class D, class H, std::size_t... I>
  static auto make(H h, std::index_sequence<I...>) { return std::tuple<split_tuple_sender<D, I>...>{split_tuple_sender<D, I>{h}...}; }
  [[nodiscard]] auto operator()() const { return partial<split_tuple_t>{}; }
};
inline constexpr split_tuple_t split_tuple{};

// ---------------------------------------------------------------- schedulers
struct thread_pool_scheduler {
  thread_pool_scheduler() = default;
  explicit thread_pool_scheduler(threads::thread_pool_base*) {}
};
VERIF_INL inline thread_pool_scheduler with_priority(thread_pool_scheduler s, thread_priority) { return s; }
VERIF_INL inline thread_pool_scheduler with_stacksize(thread_pool_scheduler s, thread_stacksize) { return s; }
inline thread_priority get_priority(const thread_pool_scheduler&) { return thread_priority::normal; }
template <class Sched>
struct schedule_sender { using stub_values = std::tuple<>; Sched sched; VERIF_INL stub::node* poll() { return nullptr; } VERIF_INL stub_values get() && { return {}; } };
inline constexpr struct schedule_t { template <class Sched> [[nodiscard]] VERIF_INL auto operator()(Sched s) const { return schedule_sender<Sched>{s}; } } schedule{};
template <class S, class Sched>
struct continues_on_sender {
  using stub_values = typename stub::decay_tuple<stub_values_t<S>>::type;
  S s;
  VERIF_INL stub::node* poll() { return s.poll(); }
  VERIF_INL stub_values get() && { return stub_values(std::move(s).get()); }
};
struct continues_on_t {
  template <class S, class Sched, class = std::enable_if_t<is_sender_v<S>>>
  [[nodiscard]] VERIF_INL auto operator()(S&& s, Sched) const { return continues_on_sender<std::decay_t<S>, Sched>{std::forward<S>(s)}; }
  template <class Sched, class = std::enable_if_t<!is_sender_v<Sched>>>
  [[nodiscard]] VERIF_INL auto operator()(Sched sched) const { return partial<continues_on_t, Sched>{std::tuple<Sched>(sched)}; }
};
inline constexpr continues_on_t continues_on{};
inline constexpr continues_on_t transfer{};
}  // namespace experimental
}  // namespace execution

namespace this_thread::experimental {
struct sync_wait_t {
  template <class S, class = std::enable_if_t<execution::experimental::is_sender_v<S>>>
  VERIF_INL auto operator()(S&& s) const {
    namespace ex = pika::execution::experimental;
    using V = typename ex::stub::decay_tuple<ex::stub_values_t<S>>::type;
    std::decay_t<S> l(std::forward<S>(s));
    ex::stub::wait(l);
    V r(std::move(l).get());
    if constexpr (std::tuple_size_v<V> == 1) return std::move(std::get<0>(r));
  }
  VERIF_INL auto operator()() const { return execution::experimental::partial<sync_wait_t>{}; }
};
inline constexpr sync_wait_t sync_wait{};
}
}  // namespace pika
