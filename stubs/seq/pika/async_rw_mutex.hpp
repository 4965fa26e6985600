// A value with accesses in the order in which they are requested: consecutive reads share it, a readwrite has it alone, and
// an access starts when all earlier ones have been given back.
#pragma once
#include <pika/execution.hpp>
namespace pika::execution::experimental {
enum class async_rw_mutex_access_type { readwrite, read };
namespace stub {
template <class T>
struct rw_cell {
  T value;
  int refs = 1;
  rw_cell() : value() {}
  template <class U> explicit rw_cell(U&& u) : value(std::forward<U>(u)) {}
  void drop() { if (--refs == 0) delete this; }
};
template <class T>
struct rw_phase : node {   // one readwrite access, or consecutive reads
  rw_cell<T>* c; rw_phase* next = nullptr; int refs; bool read;
  rw_phase(rw_cell<T>* x, int n, bool r) : c(x), refs(n), read(r) { ++c->refs; }
  void drop() {
    if (--refs) return;
    rw_phase* n = next;
    c->drop();
    delete this;
    if (n) { fire(n); n->drop(); }
  }
};
}
template <class RW, class R, async_rw_mutex_access_type A>
class async_rw_mutex_access_wrapper;
template <class RW, class R>
class async_rw_mutex_access_wrapper<RW, R, async_rw_mutex_access_type::read> {
  using P = stub::rw_phase<std::decay_t<RW>>;
  P* p;
public:
  VERIF_INL explicit async_rw_mutex_access_wrapper(P* x) : p(x) {}
  VERIF_INL async_rw_mutex_access_wrapper(async_rw_mutex_access_wrapper&& o) noexcept : p(std::exchange(o.p, nullptr)) {}
  VERIF_INL async_rw_mutex_access_wrapper& operator=(async_rw_mutex_access_wrapper&& o) noexcept { P* q = std::exchange(o.p, nullptr); if (p) p->drop(); p = q; return *this; }
  VERIF_INL async_rw_mutex_access_wrapper(const async_rw_mutex_access_wrapper& o) : p(o.p) { if (p) ++p->refs; }
  VERIF_INL async_rw_mutex_access_wrapper& operator=(const async_rw_mutex_access_wrapper& o) { if (this != &o) { if (p) p->drop(); p = o.p; if (p) ++p->refs; } return *this; }
  VERIF_INL ~async_rw_mutex_access_wrapper() { if (p) p->drop(); }
  VERIF_INL const R& get() const { return p->c->value; }
};
template <class RW, class R>
class async_rw_mutex_access_wrapper<RW, R, async_rw_mutex_access_type::readwrite> {
  using P = stub::rw_phase<std::decay_t<RW>>;
  P* p;
public:
  VERIF_INL explicit async_rw_mutex_access_wrapper(P* x) : p(x) {}
  VERIF_INL async_rw_mutex_access_wrapper(async_rw_mutex_access_wrapper&& o) noexcept : p(std::exchange(o.p, nullptr)) {}
  VERIF_INL async_rw_mutex_access_wrapper& operator=(async_rw_mutex_access_wrapper&& o) noexcept { P* q = std::exchange(o.p, nullptr); if (p) p->drop(); p = q; return *this; }
  async_rw_mutex_access_wrapper(const async_rw_mutex_access_wrapper&) = delete;
  async_rw_mutex_access_wrapper& operator=(const async_rw_mutex_access_wrapper&) = delete;
  VERIF_INL ~async_rw_mutex_access_wrapper() { if (p) p->drop(); }
  VERIF_INL RW& get() { return p->c->value; }
};
template <class RW, class R = RW>
class async_rw_mutex {
  using T = std::decay_t<RW>;
  using C = stub::rw_cell<T>;
  using P = stub::rw_phase<T>;
  C* c;
  P* last = nullptr;
  void clear() { if (last) last->drop(); if (c) c->drop(); last = nullptr; c = nullptr; }
  void open(bool r) {
    P* p = new P(c, last ? 2 : 1, r);
    if (last) { last->next = p; last->drop(); }
    else p->done = true;
    last = p;
  }
public:
  using read_type = R;
  using readwrite_type = RW;
  using read_access_type = async_rw_mutex_access_wrapper<RW, R, async_rw_mutex_access_type::read>;
  using readwrite_access_type = async_rw_mutex_access_wrapper<RW, R, async_rw_mutex_access_type::readwrite>;
  template <class W>
  class access_sender {
    P* p;
  public:
    using stub_values = std::tuple<W>;
    VERIF_INL explicit access_sender(P* x) : p(x) { ++p->refs; }
    VERIF_INL access_sender(access_sender&& o) noexcept : p(std::exchange(o.p, nullptr)) {}
    VERIF_INL access_sender& operator=(access_sender&& o) noexcept { P* q = std::exchange(o.p, nullptr); if (p) p->drop(); p = q; return *this; }
    VERIF_INL access_sender(const access_sender& o) : p(o.p) { static_assert(std::is_same_v<W, read_access_type>); if (p) ++p->refs; }
    VERIF_INL ~access_sender() { if (p) p->drop(); }
    VERIF_INL stub::node* poll() { return p->done ? nullptr : p; }
    VERIF_INL stub_values get() && { return stub_values(W(std::exchange(p, nullptr))); }
  };
  async_rw_mutex() : c(new C()) {}
  template <class U, class = std::enable_if_t<!std::is_same_v<std::decay_t<U>, async_rw_mutex>>>
  explicit async_rw_mutex(U&& u) : c(new C(std::forward<U>(u))) {}
  VERIF_INL async_rw_mutex(async_rw_mutex&& o) noexcept : c(std::exchange(o.c, nullptr)), last(std::exchange(o.last, nullptr)) {}
  VERIF_INL async_rw_mutex& operator=(async_rw_mutex&& o) noexcept { if (this != &o) { clear(); c = std::exchange(o.c, nullptr); last = std::exchange(o.last, nullptr); } return *this; }
  async_rw_mutex(const async_rw_mutex&) = delete;
  async_rw_mutex& operator=(const async_rw_mutex&) = delete;
  VERIF_INL ~async_rw_mutex() { clear(); }
  [[nodiscard]] VERIF_INL access_sender<read_access_type> read() { if (!last || !last->read) open(true); return access_sender<read_access_type>(last); }
  [[nodiscard]] VERIF_INL access_sender<readwrite_access_type> readwrite() { open(false); return access_sender<readwrite_access_type>(last); }
};
}
