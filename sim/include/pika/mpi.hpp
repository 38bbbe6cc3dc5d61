#pragma once
#include <mpi.h>
#include <optional>
#include <string>
#include <tuple>

#include <pika/execution.hpp>
#include <sim/simmpi.hpp>

namespace pika::mpi::experimental {
enum class exception_mode { no_handler, install_handler };
struct PollState {
  int starts = 0, stops = 0;
};
inline PollState& poll_state() {
  static PollState s;
  return s;
}
inline void start_polling(exception_mode = exception_mode::install_handler, std::string = "") {
  ++poll_state().starts;
}
inline void stop_polling() {
  ++poll_state().stops;
}
inline const std::string& get_pool_name() {
  static const std::string s = "default";
  return s;
}
}

namespace sim::ex {
// f(args..., &request) in a task; the arguments stay alive until the request has completed
template <class R, class F, class... Ts>
struct MpiNode final : one<R>::node, Recv<Ts...> {
  NodePtr<Ts...> pred;
  F f;
  std::optional<std::tuple<std::decay_t<Ts>...>> vals;
  using RS = std::conditional_t<std::is_void_v<R>, int, R>;
  std::optional<RS> res;
  MPI_Request req = MPI_REQUEST_NULL;
  typename one<R>::recv* out = nullptr;
  template <class G>
  MpiNode(NodePtr<Ts...> p, G&& g) : pred(std::move(p)), f(std::forward<G>(g)) {}
  void start(typename one<R>::recv& r) override {
    out = &r;
    pred->start(*this);
  }
  void set_value(Ts&&... ts) override {
    vals.emplace(static_cast<Ts&&>(ts)...);
    sim::post([this] { call(); }, 1);
  }
  void call() {
    try {
      std::apply(
          [this](auto&... vs) {
            if constexpr (std::is_void_v<R>)
              std::move(f)(vs..., &req);
            else
              res.emplace(std::move(f)(vs..., &req));
          },
          *vals);
    }
    catch (...) {
      auto* r = out;
      r->set_error(std::current_exception());
      return;
    }
    if (req == MPI_REQUEST_NULL)
      finish();
    else
      simmpi::on_done(req, [this] { finish(); });
  }
  void finish() {
    auto* r = out;
    if constexpr (std::is_void_v<R>)
      r->set_value();
    else
      r->set_value(std::move(*res));
  }
  void set_error(std::exception_ptr e) override {
    out->set_error(e);
  }
};
template <class F, class... Ts>
auto make_transform_mpi(NodePtr<Ts...> p, F&& f) {
  using Fd = std::decay_t<F>;
  using R = std::invoke_result_t<Fd, std::decay_t<Ts>&..., MPI_Request*>;
  return typename one<R>::sender(new MpiNode<R, Fd, Ts...>(std::move(p), std::forward<F>(f)));
}
template <class F>
struct transform_mpi_t : Closure<transform_mpi_t<F>> {
  F f;
  explicit transform_mpi_t(F ff) : f(std::move(ff)) {}
  template <class S>
  auto apply(S&& s) && {
    return make_transform_mpi(take_node(std::forward<S>(s)), std::move(f));
  }
};
}
namespace pika::mpi::experimental {
template <class F>
auto transform_mpi(F&& f) {
  return sim::ex::transform_mpi_t<std::decay_t<F>>(std::forward<F>(f));
}
}
