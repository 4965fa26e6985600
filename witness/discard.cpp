// positive and negative controls of the rule `discarded`
#include <pika/execution.hpp>
#include <dlaf/sender/transform.h>
namespace ex = pika::execution::experimental;
namespace di = dlaf::internal;
template <class S> auto make(S s) { return std::move(s) | ex::then([](int) { return 1; }); }
void simple(int x) {
  ex::just(x) | ex::then([](int) {});  // dropped
  ex::then(ex::just(x), [](int) {});  // dropped
  make(ex::just(x));  // dropped
  di::transform(di::Policy<dlaf::Backend::MC>(), [](int) {}, ex::just(x));  // dropped
  ex::split(make(ex::just(x)));  // dropped
  ex::then([](int) {});  // dropped
  ex::unique_any_sender<int> a(make(ex::just(x)));  // dropped
  auto b = make(ex::just(x));  // dropped
  auto c = make(ex::just(x));
  ex::start_detached(std::move(c));
  ex::start_detached(make(ex::just(x)));
  ex::just(x) | ex::then([](int) {}) | ex::start_detached();
  ex::unique_any_sender<int> d(make(ex::just(x)));
  d = make(ex::just(x));
}
template <class T> void generic(T x) {
  ex::just(x) | ex::then([](T) {});  // dropped
  make(ex::just(x));  // dropped
  di::transform(di::Policy<dlaf::Backend::MC>(), [](T) {}, ex::just(x));  // dropped
  ex::start_detached(make(ex::just(x)));
}
template void generic<int>(int);
