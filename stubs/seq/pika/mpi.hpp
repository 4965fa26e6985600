#pragma once
#include <mpi.h>
#include <string>
#include <pika/execution.hpp>
#ifdef VERIF_FIBERS
bool verif_mpi_test(MPI_Request);
#endif
namespace pika::mpi::experimental {
enum class exception_mode { no_handler, install_handler };
inline void start_polling(exception_mode = exception_mode::no_handler, std::string = "") {}
inline void stop_polling() {}
inline const char* get_pool_name() { return "default"; }
namespace ex = pika::execution::experimental;
template <class S, class F>
struct transform_mpi_sender {
  template <class T> struct res;
  template <class... Ts> struct res<std::tuple<Ts...>> { using type = std::invoke_result_t<F, std::decay_t<Ts>&..., MPI_Request*>; };
  using R = typename res<ex::stub_values_t<S>>::type;
  using stub_values = typename ex::stub::as_values<R>::type;
  S s; F f;
  std::optional<stub_values> r = std::nullopt;
#ifdef VERIF_FIBERS   // an operation is complete when the processes it needs have posted theirs
  using V = typename ex::stub::decay_tuple<ex::stub_values_t<S>>::type;
  std::optional<V> v = std::nullopt;
  MPI_Request req = MPI_REQUEST_NULL;
  ex::stub::node* poll() {
    if (r && !v) return nullptr;
    if (!v) {
      if (ex::stub::node* n = s.poll()) return n;
      v.emplace(std::move(s).get());
      std::apply([&](auto&... x) {
        if constexpr (std::is_void_v<R>) { std::move(f)(x..., &req); r.emplace(); }
        else r.emplace(std::move(f)(x..., &req));
      }, *v);
    }
    if (!verif_mpi_test(req)) return &ex::stub::cur().mpi;
    v.reset();
    return nullptr;
  }
#else
  VERIF_INL ex::stub::node* poll() {
    if (r) return nullptr;
    if (ex::stub::node* n = s.poll()) return n;
    typename ex::stub::decay_tuple<ex::stub_values_t<S>>::type v = std::move(s).get();
    MPI_Request req = MPI_REQUEST_NULL;   // operations complete at once in the model of MPI
    std::apply([&](auto&... x) {
      if constexpr (std::is_void_v<R>) { std::move(f)(x..., &req); r.emplace(); }
      else r.emplace(std::move(f)(x..., &req));
    }, v);
    return nullptr;
  }
#endif
  VERIF_INL stub_values get() && { return std::move(*r); }
};
struct transform_mpi_t {
  template <class S, class F, class = std::enable_if_t<ex::is_sender_v<S>>>
  [[nodiscard]] VERIF_INL auto operator()(S&& s, F&& f) const { return transform_mpi_sender<std::decay_t<S>, std::decay_t<F>>{std::forward<S>(s), std::forward<F>(f)}; }
  template <class F>
  [[nodiscard]] VERIF_INL auto operator()(F&& f) const { return ex::partial<transform_mpi_t, std::decay_t<F>>{std::tuple<std::decay_t<F>>(std::forward<F>(f))}; }
};
inline constexpr transform_mpi_t transform_mpi{};
}
