#pragma once
#include <pika/execution.hpp>
namespace pika::execution::experimental {
enum class async_rw_mutex_access_type { readwrite, read };
namespace stub {
template <class T>
struct rw_group {
  std::shared_ptr<T> value;
  bool ready = false;
  std::vector<callback<>> waiting;
  std::shared_ptr<rw_group> next;
  ~rw_group() { if (next) { auto n = std::move(next); n->set_ready(); } }
  void set_ready() { ready = true; auto w = std::move(waiting); waiting.clear(); for (auto& c : w) c(); }
};
}
template <class RW, class R, async_rw_mutex_access_type A>
class async_rw_mutex_access_wrapper;
template <class RW, class R>
class async_rw_mutex_access_wrapper<RW, R, async_rw_mutex_access_type::read> {
  std::shared_ptr<stub::rw_group<std::decay_t<RW>>> g;
public:
  explicit async_rw_mutex_access_wrapper(std::shared_ptr<stub::rw_group<std::decay_t<RW>>> g) : g(std::move(g)) {}
  async_rw_mutex_access_wrapper(async_rw_mutex_access_wrapper&&) = default;
  async_rw_mutex_access_wrapper& operator=(async_rw_mutex_access_wrapper&&) = default;
  async_rw_mutex_access_wrapper(const async_rw_mutex_access_wrapper&) = default;
  async_rw_mutex_access_wrapper& operator=(const async_rw_mutex_access_wrapper&) = default;
  const R& get() const { return *g->value; }
};
template <class RW, class R>
class async_rw_mutex_access_wrapper<RW, R, async_rw_mutex_access_type::readwrite> {
  std::shared_ptr<stub::rw_group<std::decay_t<RW>>> g;
public:
  explicit async_rw_mutex_access_wrapper(std::shared_ptr<stub::rw_group<std::decay_t<RW>>> g) : g(std::move(g)) {}
  async_rw_mutex_access_wrapper(async_rw_mutex_access_wrapper&&) = default;
  async_rw_mutex_access_wrapper& operator=(async_rw_mutex_access_wrapper&&) = default;
  async_rw_mutex_access_wrapper(const async_rw_mutex_access_wrapper&) = delete;
  async_rw_mutex_access_wrapper& operator=(const async_rw_mutex_access_wrapper&) = delete;
  RW& get() { return *g->value; }
};
template <class RW, class R = RW>
class async_rw_mutex {
  using T = std::decay_t<RW>;
  using group = stub::rw_group<T>;
  std::shared_ptr<T> value;
  std::shared_ptr<group> last;
  bool last_read = false;
  std::shared_ptr<group> fresh() {
    auto n = std::make_shared<group>(); n->value = value;
    if (last) last->next = n; else n->ready = true;
    return n;
  }
public:
  using read_type = R;
  using readwrite_type = RW;
  using read_access_type = async_rw_mutex_access_wrapper<RW, R, async_rw_mutex_access_type::read>;
  using readwrite_access_type = async_rw_mutex_access_wrapper<RW, R, async_rw_mutex_access_type::readwrite>;
  template <class W>
  struct access_sender {
    using stub_values = std::tuple<W>;
    std::shared_ptr<group> g;
    template <class K> void submit(K&& k) && {
      auto gg = std::move(g);
      if (gg->ready) { std::forward<K>(k)(W(std::move(gg))); return; }
      auto raw = gg.get();
      // the group keeps the waiter, the waiter must own the group only once it is ready
      raw->waiting.emplace_back([w = std::weak_ptr<group>(gg), k = std::decay_t<K>(std::forward<K>(k))]() mutable { std::move(k)(W(w.lock())); });
    }
  };
  async_rw_mutex() : value(std::make_shared<T>()) {}
  template <class U, class = std::enable_if_t<!std::is_same_v<std::decay_t<U>, async_rw_mutex>>>
  explicit async_rw_mutex(U&& u) : value(std::make_shared<T>(std::forward<U>(u))) {}
  async_rw_mutex(async_rw_mutex&&) = default;
  async_rw_mutex& operator=(async_rw_mutex&&) = default;
  async_rw_mutex(const async_rw_mutex&) = delete;
  async_rw_mutex& operator=(const async_rw_mutex&) = delete;
  [[nodiscard]] access_sender<read_access_type> read() {
    if (!(last && last_read)) { auto n = fresh(); auto old = std::move(last); last = n; last_read = true; }
    return {last};
  }
  [[nodiscard]] access_sender<readwrite_access_type> readwrite() {
    auto n = fresh(); auto old = std::move(last); last = n; last_read = false;
    return {n};
  }
};
}
