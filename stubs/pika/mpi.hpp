#pragma once
#include <mpi.h>
#include <string>
#include <pika/execution.hpp>
namespace pika::mpi::experimental {
enum class exception_mode { no_handler, install_handler };
inline void start_polling(exception_mode = exception_mode::no_handler, std::string = "") {}
inline void stop_polling() {}
inline const std::string& get_pool_name() { static std::string n = "default"; return n; }
namespace ex = pika::execution::experimental;
template <class S, class F>
struct transform_mpi_sender {
  template <class T> struct res;
  template <class... Ts> struct res<std::tuple<Ts...>> { using type = std::invoke_result_t<F, std::decay_t<Ts>&..., MPI_Request*>; };
  using R = typename res<ex::stub_values_t<S>>::type;
  using stub_values = typename ex::stub::as_values<R>::type;
  using stored = typename ex::stub::decay_tuple<ex::stub_values_t<S>>::type;
  S s; F f;
  template <class K> void submit(K&& k) && {
    std::move(s).submit([f = std::move(f), k = std::decay_t<K>(std::forward<K>(k))](auto&&... ts) mutable {
      struct op { stored v; MPI_Request req = MPI_REQUEST_NULL; std::decay_t<K> k; };
      auto o = std::shared_ptr<op>(new op{stored(std::forward<decltype(ts)>(ts)...), MPI_REQUEST_NULL, std::move(k)});
      if constexpr (std::is_void_v<R>) {
        std::apply([&](auto&... v) { std::move(f)(v..., &o->req); }, o->v);
        ex::stub::pollers().push_back([o] { int flag = 0; MPI_Test(&o->req, &flag, MPI_STATUS_IGNORE); if (flag) std::move(o->k)(); return flag != 0; });
      }
      else {
        auto r = std::make_shared<std::decay_t<R>>(std::apply([&](auto&... v) { return std::move(f)(v..., &o->req); }, o->v));
        ex::stub::pollers().push_back([o, r] { int flag = 0; MPI_Test(&o->req, &flag, MPI_STATUS_IGNORE); if (flag) std::move(o->k)(std::move(*r)); return flag != 0; });
      }
    });
  }
};
struct transform_mpi_t {
  template <class S, class F, class = std::enable_if_t<ex::is_sender_v<S>>>
  [[nodiscard]] auto operator()(S&& s, F&& f) const { return transform_mpi_sender<std::decay_t<S>, std::decay_t<F>>{std::forward<S>(s), std::forward<F>(f)}; }
  template <class F>
  [[nodiscard]] auto operator()(F&& f) const { return ex::partial<transform_mpi_t, std::decay_t<F>>{{std::forward<F>(f)}}; }
};
inline constexpr transform_mpi_t transform_mpi{};
}
