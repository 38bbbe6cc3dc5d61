// Senders with the semantics DLA-Future relies on, on top of the deterministic kernel.
//
// A sender is an owning handle to a node; starting the node connects it to a receiver, after which the
// node is the operation state: what it stores lives until the consumer destroys it. This is where the
// semantics that matter to the library are visible (who keeps a tile or a communicator alive, and until
// when), so each adaptor keeps and releases values exactly where pika's does:
//  - just, continues_on, when_all, let_value, bulk, ensure_started send references to values that stay in
//    the operation state until it is destroyed;
//  - split and ensure_started release the operation state of their predecessor once it is done;
//  - drop_operation_state destroys the predecessor's operation state before forwarding.
// No node touches itself after it has called set_value.
#pragma once
#include <algorithm>
#include <atomic>
#include <cstddef>
#include <exception>
#include <functional>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>

#include <sim/kernel.hpp>

namespace sim::ex {

struct SenderTag {};

template <class... Ts>
struct Recv {
  virtual void set_value(Ts&&... ts) = 0;
  virtual void set_error(std::exception_ptr e) = 0;

protected:
  ~Recv() = default;
};

template <class... Ts>
struct Node {
  virtual ~Node() = default;
  virtual void start(Recv<Ts...>& r) = 0;
  virtual Node* clone() const {
    sim::fail("harness", std::string("copy of a sender that cannot be copied: ") + __PRETTY_FUNCTION__);
  }
};

template <class... Ts>
using NodePtr = std::unique_ptr<Node<Ts...>>;

// a sender sending Ts (each a value type or a reference)
template <class... Ts>
class Sender : public SenderTag {
public:
  using node_type = Node<Ts...>;
  template <template <class...> class Tuple, template <class...> class Variant>
  using value_types = Variant<Tuple<std::decay_t<Ts>...>>;

  Sender() = default;
  explicit Sender(node_type* n) : n_(n) {}
  explicit Sender(std::unique_ptr<node_type> n) : n_(std::move(n)) {}
  Sender(Sender&&) = default;
  Sender(const Sender& o) : n_(o.n_ ? o.n_->clone() : nullptr) {}
  Sender& operator=(Sender&&) = default;
  Sender& operator=(const Sender& o) {
    if (this != &o)
      n_.reset(o.n_ ? o.n_->clone() : nullptr);
    return *this;
  }
  std::unique_ptr<node_type> take() && {
    if (!n_)
      sim::fail("empty-sender", "use of an empty (moved-from) sender");
    return std::move(n_);
  }
  std::unique_ptr<node_type> take() const& {
    if (!n_)
      sim::fail("empty-sender", "use of an empty (moved-from) sender");
    return std::unique_ptr<node_type>(n_->clone());
  }
  std::unique_ptr<node_type> take() & {
    return static_cast<const Sender&>(*this).take();
  }
  bool has_node() const noexcept {
    return static_cast<bool>(n_);
  }

private:
  std::unique_ptr<node_type> n_;
};

template <class S>
inline constexpr bool is_sender_v = std::is_base_of_v<SenderTag, std::decay_t<S>>;

// ---- helper types
template <class T>
struct pred_of;
template <class... Ts>
Sender<Ts...> sender_base_impl(const Sender<Ts...>*);
template <class S>
using sender_base_t = decltype(sender_base_impl(static_cast<std::decay_t<S>*>(nullptr)));

template <class S>
auto take_node(S&& s) {
  using B = sender_base_t<S>;
  if constexpr (std::is_lvalue_reference_v<S>)
    return static_cast<const B&>(s).take();
  else
    return static_cast<B&&>(s).take();
}

// sends one R (nothing for void)
template <class R>
struct one {
  using sender = Sender<R>;
  using node = Node<R>;
  using recv = Recv<R>;
};
template <>
struct one<void> {
  using sender = Sender<>;
  using node = Node<>;
  using recv = Recv<>;
};

// ---- just
template <class... Vs>
struct JustNode final : Node<Vs...> {
  std::tuple<Vs...> vals;
  template <class... Us>
  explicit JustNode(int, Us&&... us) : vals(std::forward<Us>(us)...) {}
  void start(Recv<Vs...>& r) override {
    std::apply([&](Vs&... vs) { r.set_value(std::move(vs)...); }, vals);
  }
  Node<Vs...>* clone() const override {
    if constexpr ((... && std::is_trivially_copyable_v<Vs>))
      return std::apply([](const Vs&... vs) { return new JustNode(0, vs...); }, vals);
    else
      return Node<Vs...>::clone();
  }
};
template <class... Us>
auto just(Us&&... us) {
  return Sender<std::decay_t<Us>...>(new JustNode<std::decay_t<Us>...>(0, std::forward<Us>(us)...));
}

// ---- then
template <class R, class F, class... Ts>
struct ThenNode final : one<R>::node, Recv<Ts...> {
  NodePtr<Ts...> pred;
  F f;
  typename one<R>::recv* out = nullptr;
  template <class G>
  ThenNode(NodePtr<Ts...> p, G&& g) : pred(std::move(p)), f(std::forward<G>(g)) {}
  void start(typename one<R>::recv& r) override {
    out = &r;
    pred->start(*this);
  }
  void set_value(Ts&&... ts) override {
    auto* r = out;
    if constexpr (std::is_void_v<R>) {
      try {
        std::move(f)(static_cast<Ts&&>(ts)...);
      }
      catch (...) {
        r->set_error(std::current_exception());
        return;
      }
      r->set_value();
    }
    else {
      // the result is passed on as the temporary it is
      struct Holder {
        F& f;
      };
      std::exception_ptr err;
      if constexpr (std::is_reference_v<R>) {
        std::remove_reference_t<R>* res = nullptr;
        try {
          res = std::addressof(std::move(f)(static_cast<Ts&&>(ts)...));
        }
        catch (...) {
          err = std::current_exception();
        }
        if (err)
          r->set_error(err);
        else
          r->set_value(static_cast<R&&>(*res));
      }
      else {
        std::optional<R> res;
        try {
          res.emplace(std::move(f)(static_cast<Ts&&>(ts)...));
        }
        catch (...) {
          err = std::current_exception();
        }
        if (err)
          r->set_error(err);
        else
          r->set_value(std::move(*res));
      }
    }
  }
  void set_error(std::exception_ptr e) override {
    out->set_error(e);
  }
};

template <class Derived>
struct Closure {};
template <class S, class C, std::enable_if_t<is_sender_v<S> && std::is_base_of_v<Closure<C>, C>, int> = 0>
auto operator|(S&& s, Closure<C>&& c) {
  return static_cast<C&&>(c).apply(std::forward<S>(s));
}
template <class S, class C, std::enable_if_t<is_sender_v<S> && std::is_base_of_v<Closure<C>, C>, int> = 0>
auto operator|(S&& s, const Closure<C>& c) {
  return C(static_cast<const C&>(c)).apply(std::forward<S>(s));
}

template <class F, class... Ts>
auto make_then(NodePtr<Ts...> p, F&& f) {
  using Fd = std::decay_t<F>;
  using R = std::invoke_result_t<Fd, Ts...>;
  return typename one<R>::sender(new ThenNode<R, Fd, Ts...>(std::move(p), std::forward<F>(f)));
}
template <class F>
struct then_t : Closure<then_t<F>> {
  F f;
  explicit then_t(F ff) : f(std::move(ff)) {}
  template <class S>
  auto apply(S&& s) && {
    return make_then(take_node(std::forward<S>(s)), std::move(f));
  }
};
template <class F, std::enable_if_t<!is_sender_v<F>, int> = 0>
auto then(F&& f) {
  return then_t<std::decay_t<F>>(std::forward<F>(f));
}
template <class S, class F, std::enable_if_t<is_sender_v<S>, int> = 0>
auto then(S&& s, F&& f) {
  return make_then(take_node(std::forward<S>(s)), std::forward<F>(f));
}

// ---- schedulers
struct thread_pool_scheduler {
  int prio = 0;  // -1 low, 0 default/normal, 1 high
  bool nostack = false;
  thread_pool_scheduler() = default;
  template <class Pool>
  explicit thread_pool_scheduler(Pool*) {}
  bool operator==(const thread_pool_scheduler& o) const {
    return prio == o.prio && nostack == o.nostack;
  }
};

struct ScheduleNode final : Node<> {
  thread_pool_scheduler s;
  Recv<>* out = nullptr;
  explicit ScheduleNode(thread_pool_scheduler ss) : s(ss) {}
  void start(Recv<>& r) override {
    out = &r;
    sim::post(
        [this, ns = s.nostack] {
          sim::NoStack guard(ns);
          out->set_value();
        },
        s.prio);
  }
  Node<>* clone() const override {
    return new ScheduleNode(s);
  }
};
inline auto schedule(const thread_pool_scheduler& s) {
  return Sender<>(new ScheduleNode(s));
}

template <class... Ts>
struct ContinuesNode final : Node<std::decay_t<Ts>...>, Recv<Ts...> {
  NodePtr<Ts...> pred;
  thread_pool_scheduler s;
  Recv<std::decay_t<Ts>...>* out = nullptr;
  std::optional<std::tuple<std::decay_t<Ts>...>> vals;
  ContinuesNode(NodePtr<Ts...> p, thread_pool_scheduler ss) : pred(std::move(p)), s(ss) {}
  void start(Recv<std::decay_t<Ts>...>& r) override {
    out = &r;
    pred->start(*this);
  }
  void set_value(Ts&&... ts) override {
    vals.emplace(static_cast<Ts&&>(ts)...);
    sim::post(
        [this, ns = s.nostack] {
          sim::NoStack guard(ns);
          std::apply([r = out](auto&... vs) { r->set_value(std::move(vs)...); }, *vals);
        },
        s.prio);
  }
  void set_error(std::exception_ptr e) override {
    out->set_error(e);
  }
};
template <class... Ts>
auto make_continues(NodePtr<Ts...> p, const thread_pool_scheduler& s) {
  return Sender<std::decay_t<Ts>...>(new ContinuesNode<Ts...>(std::move(p), s));
}
struct continues_on_t : Closure<continues_on_t> {
  thread_pool_scheduler s;
  explicit continues_on_t(thread_pool_scheduler ss) : s(ss) {}
  template <class S>
  auto apply(S&& p) && {
    return make_continues(take_node(std::forward<S>(p)), s);
  }
};
inline auto continues_on(const thread_pool_scheduler& s) {
  return continues_on_t(s);
}
template <class S, std::enable_if_t<is_sender_v<S>, int> = 0>
auto continues_on(S&& p, const thread_pool_scheduler& s) {
  return make_continues(take_node(std::forward<S>(p)), s);
}

// ---- drop_operation_state
template <class... Ts>
struct DropOpNode final : Node<std::decay_t<Ts>...>, Recv<Ts...> {
  NodePtr<Ts...> pred;
  Recv<std::decay_t<Ts>...>* out = nullptr;
  explicit DropOpNode(NodePtr<Ts...> p) : pred(std::move(p)) {}
  void start(Recv<std::decay_t<Ts>...>& r) override {
    out = &r;
    pred->start(*this);
  }
  void set_value(Ts&&... ts) override {
    std::tuple<std::decay_t<Ts>...> v(static_cast<Ts&&>(ts)...);
    auto* r = out;
    pred.reset();
    std::apply([r](auto&... vs) { r->set_value(std::move(vs)...); }, v);
  }
  void set_error(std::exception_ptr e) override {
    auto* r = out;
    pred.reset();
    r->set_error(e);
  }
};
template <class... Ts>
auto make_drop_op(NodePtr<Ts...> p) {
  return Sender<std::decay_t<Ts>...>(new DropOpNode<Ts...>(std::move(p)));
}
struct drop_op_t : Closure<drop_op_t> {
  template <class S>
  auto apply(S&& p) && {
    return make_drop_op(take_node(std::forward<S>(p)));
  }
};
inline auto drop_operation_state() {
  return drop_op_t{};
}
template <class S, std::enable_if_t<is_sender_v<S>, int> = 0>
auto drop_operation_state(S&& p) {
  return make_drop_op(take_node(std::forward<S>(p)));
}

// ---- drop_value
template <class... Ts>
struct DropValueNode final : Node<>, Recv<Ts...> {
  NodePtr<Ts...> pred;
  Recv<>* out = nullptr;
  explicit DropValueNode(NodePtr<Ts...> p) : pred(std::move(p)) {}
  void start(Recv<>& r) override {
    out = &r;
    pred->start(*this);
  }
  void set_value(Ts&&...) override {
    out->set_value();
  }
  void set_error(std::exception_ptr e) override {
    out->set_error(e);
  }
};
template <class... Ts>
auto make_drop_value(NodePtr<Ts...> p) {
  return Sender<>(new DropValueNode<Ts...>(std::move(p)));
}
struct drop_value_t : Closure<drop_value_t> {
  template <class S>
  auto apply(S&& p) && {
    return make_drop_value(take_node(std::forward<S>(p)));
  }
};
inline auto drop_value() {
  return drop_value_t{};
}
template <class S, std::enable_if_t<is_sender_v<S>, int> = 0>
auto drop_value(S&& p) {
  return make_drop_value(take_node(std::forward<S>(p)));
}

// ---- unpack
template <class Tup>
struct unpack_traits;
template <class... Es>
struct unpack_traits<std::tuple<Es...>> {
  using lref = Sender<const Es&...>;
  using lnode = Node<const Es&...>;
  using lrecv = Recv<const Es&...>;
  using rval = Sender<Es...>;
  using rnode = Node<Es...>;
  using rrecv = Recv<Es...>;
};
template <class A, class B>
struct unpack_traits<std::pair<A, B>> : unpack_traits<std::tuple<A, B>> {};
template <class T>
struct UnpackNode final
    : std::conditional_t<std::is_lvalue_reference_v<T>, typename unpack_traits<std::decay_t<T>>::lnode,
                         typename unpack_traits<std::decay_t<T>>::rnode>,
      Recv<T> {
  using out_t = std::conditional_t<std::is_lvalue_reference_v<T>, typename unpack_traits<std::decay_t<T>>::lrecv,
                                   typename unpack_traits<std::decay_t<T>>::rrecv>;
  NodePtr<T> pred;
  out_t* out = nullptr;
  explicit UnpackNode(NodePtr<T> p) : pred(std::move(p)) {}
  void start(out_t& r) override {
    out = &r;
    pred->start(*this);
  }
  void set_value(T&& t) override {
    auto* r = out;
    if constexpr (std::is_lvalue_reference_v<T>)
      std::apply([r](const auto&... vs) { r->set_value(vs...); }, t);
    else
      std::apply([r](auto&... vs) { r->set_value(std::move(vs)...); }, t);
  }
  void set_error(std::exception_ptr e) override {
    out->set_error(e);
  }
};
template <class T>
auto make_unpack(NodePtr<T> p) {
  using Tr = unpack_traits<std::decay_t<T>>;
  if constexpr (std::is_lvalue_reference_v<T>)
    return typename Tr::lref(new UnpackNode<T>(std::move(p)));
  else
    return typename Tr::rval(new UnpackNode<T>(std::move(p)));
}
struct unpack_t : Closure<unpack_t> {
  template <class S>
  auto apply(S&& p) && {
    return make_unpack(take_node(std::forward<S>(p)));
  }
};
inline auto unpack() {
  return unpack_t{};
}

// ---- when_all
template <class... Ts>
struct concat_types;
template <class... As>
struct concat_types<Sender<As...>> {
  using sender = Sender<std::decay_t<As>...>;
  using node = Node<std::decay_t<As>...>;
  using recv = Recv<std::decay_t<As>...>;
};
template <class... As, class... Bs, class... Rest>
struct concat_types<Sender<As...>, Sender<Bs...>, Rest...> : concat_types<Sender<As..., Bs...>, Rest...> {};

template <class Parent, class... Ts>
struct WhenAllChild final : Recv<Ts...> {
  NodePtr<Ts...> pred;
  Parent* parent = nullptr;
  std::optional<std::tuple<std::decay_t<Ts>...>> vals;
  void set_value(Ts&&... ts) override {
    vals.emplace(static_cast<Ts&&>(ts)...);
    parent->child_done();
  }
  void set_error(std::exception_ptr e) override {
    if (!parent->err)
      parent->err = e;
    parent->child_done();
  }
};
template <class Parent, class B>
struct when_all_child;
template <class Parent, class... Ts>
struct when_all_child<Parent, Sender<Ts...>> {
  using type = WhenAllChild<Parent, Ts...>;
};

template <class... Bs>
struct WhenAllNode final : concat_types<Bs...>::node {
  using recv_t = typename concat_types<Bs...>::recv;
  std::tuple<typename when_all_child<WhenAllNode, Bs>::type...> children;
  std::size_t left = sizeof...(Bs);
  recv_t* out = nullptr;
  std::exception_ptr err;

  template <class... Ss>
  explicit WhenAllNode(int, Ss&&... ss) {
    init(std::index_sequence_for<Ss...>{}, std::forward<Ss>(ss)...);
  }
  template <std::size_t... Is, class... Ss>
  void init(std::index_sequence<Is...>, Ss&&... ss) {
    ((std::get<Is>(children).pred = take_node(std::forward<Ss>(ss)), std::get<Is>(children).parent = this), ...);
  }
  void start(recv_t& r) override {
    out = &r;
    // the last child may complete and destroy this
    std::apply([](auto&... c) { (c.pred->start(c), ...); }, children);
  }
  void child_done() {
    if (--left)
      return;
    auto* r = out;
    if (err) {
      r->set_error(err);
      return;
    }
    std::apply(
        [r](auto&... c) {
          auto refs = std::tuple_cat(to_refs(*c.vals)...);
          std::apply([r](auto&&... vs) { r->set_value(std::move(vs)...); }, std::move(refs));
        },
        children);
  }
  template <class... Us>
  static std::tuple<Us&...> to_refs(std::tuple<Us...>& t) {
    return std::apply([](Us&... us) { return std::tuple<Us&...>(us...); }, t);
  }
};
template <class... Ss>
auto when_all(Ss&&... ss) {
  static_assert(sizeof...(Ss) > 0);
  static_assert((... && is_sender_v<Ss>), "when_all takes senders");
  return typename concat_types<sender_base_t<Ss>...>::sender(
      new WhenAllNode<sender_base_t<Ss>...>(0, std::forward<Ss>(ss)...));
}

// ---- when_all_vector
template <class... Ts>
struct WhenAllVecNode;
template <class T>
struct WhenAllVecNode<T> final : Node<std::vector<std::decay_t<T>>> {
  using V = std::decay_t<T>;
  struct Child final : Recv<T> {
    NodePtr<T> pred;
    WhenAllVecNode* parent = nullptr;
    std::optional<V> val;
    void set_value(T&& t) override {
      val.emplace(static_cast<T&&>(t));
      parent->child_done();
    }
    void set_error(std::exception_ptr e) override {
      if (!parent->err)
        parent->err = e;
      parent->child_done();
    }
  };
  std::vector<Child> children;
  std::size_t left = 0;
  Recv<std::vector<V>>* out = nullptr;
  std::exception_ptr err;
  template <class S>
  explicit WhenAllVecNode(std::vector<S>&& v) : children(v.size()), left(v.size()) {
    for (std::size_t i = 0; i < v.size(); ++i) {
      children[i].pred = take_node(std::move(v[i]));
      children[i].parent = this;
    }
  }
  void start(Recv<std::vector<V>>& r) override {
    out = &r;
    const std::size_t n = children.size();
    if (n == 0) {
      r.set_value(std::vector<V>{});
      return;
    }
    auto* c = children.data();
    for (std::size_t i = 0; i < n; ++i)
      c[i].pred->start(c[i]);
  }
  void child_done() {
    if (--left)
      return;
    auto* r = out;
    if (err) {
      r->set_error(err);
      return;
    }
    std::vector<V> res;
    res.reserve(children.size());
    for (auto& c : children)
      res.push_back(std::move(*c.val));
    r->set_value(std::move(res));
  }
};
template <>
struct WhenAllVecNode<> final : Node<> {
  struct Child final : Recv<> {
    NodePtr<> pred;
    WhenAllVecNode* parent = nullptr;
    void set_value() override {
      parent->child_done();
    }
    void set_error(std::exception_ptr e) override {
      if (!parent->err)
        parent->err = e;
      parent->child_done();
    }
  };
  std::vector<Child> children;
  std::size_t left = 0;
  Recv<>* out = nullptr;
  std::exception_ptr err;
  template <class S>
  explicit WhenAllVecNode(std::vector<S>&& v) : children(v.size()), left(v.size()) {
    for (std::size_t i = 0; i < v.size(); ++i) {
      children[i].pred = take_node(std::move(v[i]));
      children[i].parent = this;
    }
  }
  void start(Recv<>& r) override {
    out = &r;
    const std::size_t n = children.size();
    if (n == 0) {
      r.set_value();
      return;
    }
    auto* c = children.data();
    for (std::size_t i = 0; i < n; ++i)
      c[i].pred->start(c[i]);
  }
  void child_done() {
    if (--left)
      return;
    auto* r = out;
    if (err)
      r->set_error(err);
    else
      r->set_value();
  }
};
template <class T>
Sender<std::vector<std::decay_t<T>>> when_all_vector_type(Sender<T>*);
inline Sender<> when_all_vector_type(Sender<>*);
template <class B>
struct when_all_vec_node;
template <class... Ts>
struct when_all_vec_node<Sender<Ts...>> {
  using type = WhenAllVecNode<Ts...>;
};
template <class S>
auto when_all_vector(std::vector<S>&& v) {
  using B = sender_base_t<S>;
  using R = decltype(when_all_vector_type(static_cast<B*>(nullptr)));
  return R(new typename when_all_vec_node<B>::type(std::move(v)));
}
template <class S>
auto when_all_vector(const std::vector<S>& v) {
  return when_all_vector(std::vector<S>(v));
}
template <class S>
auto when_all_vector(std::vector<S>& v) {
  return when_all_vector(std::vector<S>(v));
}

// ---- split
template <class... Ts>
struct SplitState final : Recv<Ts...> {
  using recv_t = Recv<const std::decay_t<Ts>&...>;
  NodePtr<Ts...> pred;
  bool started = false, done = false;
  std::optional<std::tuple<std::decay_t<Ts>...>> vals;
  std::exception_ptr err;
  std::vector<recv_t*> waiting;
  std::shared_ptr<SplitState> keep;  // while the predecessor runs

  void set_value(Ts&&... ts) override {
    vals.emplace(static_cast<Ts&&>(ts)...);
    finish();
  }
  void set_error(std::exception_ptr e) override {
    err = e;
    finish();
  }
  void finish() {
    auto self = std::move(keep);
    done = true;
    pred.reset();
    auto w = std::move(waiting);
    waiting.clear();
    for (auto* r : w)
      deliver(*r);
  }
  void deliver(recv_t& r) {
    if (err)
      r.set_error(err);
    else
      std::apply([&r](const auto&... vs) { r.set_value(vs...); }, *vals);
  }
};
template <class... Ts>
struct SplitNode final : Node<const std::decay_t<Ts>&...> {
  using State = SplitState<Ts...>;
  std::shared_ptr<State> st;
  explicit SplitNode(std::shared_ptr<State> s) : st(std::move(s)) {}
  void start(typename State::recv_t& r) override {
    auto s = st;  // this may be destroyed by the receiver
    if (s->done) {
      s->deliver(r);
      return;
    }
    s->waiting.push_back(&r);
    if (!s->started) {
      s->started = true;
      s->keep = s;
      s->pred->start(*s);
    }
  }
  Node<const std::decay_t<Ts>&...>* clone() const override {
    return new SplitNode(st);
  }
};
template <class... Ts>
auto make_split(NodePtr<Ts...> p) {
  auto st = std::make_shared<SplitState<Ts...>>();
  st->pred = std::move(p);
  return Sender<const std::decay_t<Ts>&...>(new SplitNode<Ts...>(std::move(st)));
}
struct split_t : Closure<split_t> {
  template <class S>
  auto apply(S&& p) && {
    return make_split(take_node(std::forward<S>(p)));
  }
};
inline auto split() {
  return split_t{};
}
template <class S, std::enable_if_t<is_sender_v<S>, int> = 0>
auto split(S&& p) {
  return make_split(take_node(std::forward<S>(p)));
}

// ---- split_tuple: each element is sent once, by value
template <std::size_t I, class E, class... Ts>
struct SplitTupleNode final : Node<E>, Recv<const std::decay_t<Ts>&...> {
  using State = SplitState<Ts...>;
  std::shared_ptr<State> st;
  Recv<E>* out = nullptr;
  explicit SplitTupleNode(std::shared_ptr<State> s) : st(std::move(s)) {}
  void start(Recv<E>& r) override {
    out = &r;
    auto s = st;
    typename State::recv_t& me = *this;
    if (s->done) {
      s->deliver(me);
      return;
    }
    s->waiting.push_back(&me);
    if (!s->started) {
      s->started = true;
      s->keep = s;
      s->pred->start(*s);
    }
  }
  void set_value(const std::decay_t<Ts>&... t) override {
    out->set_value(std::move(const_cast<E&>(std::get<I>(t...))));
  }
  void set_error(std::exception_ptr e) override {
    out->set_error(e);
  }
};
template <class T, std::size_t... Is>
auto make_split_tuple(NodePtr<T> p, std::index_sequence<Is...>) {
  auto st = std::make_shared<SplitState<T>>();
  st->pred = std::move(p);
  using Tup = std::decay_t<T>;
  return std::make_tuple(Sender<std::tuple_element_t<Is, Tup>>(
      new SplitTupleNode<Is, std::tuple_element_t<Is, Tup>, T>(st))...);
}
template <class T>
auto make_split_tuple(NodePtr<T> p) {
  return make_split_tuple(std::move(p), std::make_index_sequence<std::tuple_size_v<std::decay_t<T>>>{});
}
struct split_tuple_t : Closure<split_tuple_t> {
  template <class S>
  auto apply(S&& p) && {
    return make_split_tuple(take_node(std::forward<S>(p)));
  }
};
inline auto split_tuple() {
  return split_tuple_t{};
}
template <class S, std::enable_if_t<is_sender_v<S>, int> = 0>
auto split_tuple(S&& p) {
  return make_split_tuple(take_node(std::forward<S>(p)));
}

// ---- ensure_started
template <class... Ts>
struct EnsureState final : Recv<Ts...> {
  using recv_t = Recv<std::decay_t<Ts>...>;
  NodePtr<Ts...> pred;
  bool done = false;
  std::optional<std::tuple<std::decay_t<Ts>...>> vals;
  std::exception_ptr err;
  recv_t* waiting = nullptr;
  std::shared_ptr<EnsureState> keep;
  void set_value(Ts&&... ts) override {
    vals.emplace(static_cast<Ts&&>(ts)...);
    finish();
  }
  void set_error(std::exception_ptr e) override {
    err = e;
    finish();
  }
  void finish() {
    auto self = std::move(keep);
    done = true;
    pred.reset();
    if (auto* r = std::exchange(waiting, nullptr))
      deliver(*r);
  }
  void deliver(recv_t& r) {
    if (err)
      r.set_error(err);
    else
      std::apply([&r](auto&... vs) { r.set_value(std::move(vs)...); }, *vals);
  }
};
template <class... Ts>
struct EnsureNode final : Node<std::decay_t<Ts>...> {
  using State = EnsureState<Ts...>;
  std::shared_ptr<State> st;
  explicit EnsureNode(std::shared_ptr<State> s) : st(std::move(s)) {}
  void start(typename State::recv_t& r) override {
    auto s = st;
    if (s->done)
      s->deliver(r);
    else
      s->waiting = &r;
  }
};
template <class... Ts>
auto make_ensure(NodePtr<Ts...> p) {
  auto st = std::make_shared<EnsureState<Ts...>>();
  st->pred = std::move(p);
  st->keep = st;
  auto* s = st.get();
  auto res = Sender<std::decay_t<Ts>...>(new EnsureNode<Ts...>(std::move(st)));
  s->pred->start(*s);
  return res;
}
struct ensure_started_t : Closure<ensure_started_t> {
  template <class S>
  auto apply(S&& p) && {
    return make_ensure(take_node(std::forward<S>(p)));
  }
};
inline auto ensure_started() {
  return ensure_started_t{};
}
template <class S, std::enable_if_t<is_sender_v<S>, int> = 0>
auto ensure_started(S&& p) {
  return make_ensure(take_node(std::forward<S>(p)));
}

// ---- let_value
template <class B, class F, class... Ts>
struct LetNode;
template <class... Us, class F, class... Ts>
struct LetNode<Sender<Us...>, F, Ts...> final : Node<Us...>, Recv<Ts...> {
  NodePtr<Ts...> pred;
  F f;
  std::optional<std::tuple<std::decay_t<Ts>...>> vals;
  NodePtr<Us...> inner;  // destroyed before the values
  Recv<Us...>* out = nullptr;
  template <class G>
  LetNode(NodePtr<Ts...> p, G&& g) : pred(std::move(p)), f(std::forward<G>(g)) {}
  void start(Recv<Us...>& r) override {
    out = &r;
    pred->start(*this);
  }
  void set_value(Ts&&... ts) override {
    auto* r = out;
    try {
      vals.emplace(static_cast<Ts&&>(ts)...);
      inner = std::apply([&](auto&... vs) { return take_node(std::move(f)(vs...)); }, *vals);
    }
    catch (...) {
      r->set_error(std::current_exception());
      return;
    }
    inner->start(*r);
  }
  void set_error(std::exception_ptr e) override {
    out->set_error(e);
  }
};
template <class F, class... Ts>
auto make_let(NodePtr<Ts...> p, F&& f) {
  using Fd = std::decay_t<F>;
  using S = sender_base_t<std::invoke_result_t<Fd, std::decay_t<Ts>&...>>;
  return S(new LetNode<S, Fd, Ts...>(std::move(p), std::forward<F>(f)));
}
template <class F>
struct let_value_t : Closure<let_value_t<F>> {
  F f;
  explicit let_value_t(F ff) : f(std::move(ff)) {}
  template <class S>
  auto apply(S&& s) && {
    return make_let(take_node(std::forward<S>(s)), std::move(f));
  }
};
template <class F, std::enable_if_t<!is_sender_v<F>, int> = 0>
auto let_value(F&& f) {
  return let_value_t<std::decay_t<F>>(std::forward<F>(f));
}
template <class S, class F, std::enable_if_t<is_sender_v<S>, int> = 0>
auto let_value(S&& s, F&& f) {
  return make_let(take_node(std::forward<S>(s)), std::forward<F>(f));
}

// ---- bulk: os_threads workers, each taking the next index
template <class N, class F, class... Ts>
struct BulkNode final : Node<std::decay_t<Ts>...>, Recv<Ts...> {
  NodePtr<Ts...> pred;
  N n;
  F f;
  std::optional<std::tuple<std::decay_t<Ts>...>> vals;
  N next{0};
  std::size_t workers = 0;
  std::exception_ptr err;
  Recv<std::decay_t<Ts>...>* out = nullptr;
  template <class G>
  BulkNode(NodePtr<Ts...> p, N nn, G&& g) : pred(std::move(p)), n(nn), f(std::forward<G>(g)) {}
  void start(Recv<std::decay_t<Ts>...>& r) override {
    out = &r;
    pred->start(*this);
  }
  void set_value(Ts&&... ts) override {
    vals.emplace(static_cast<Ts&&>(ts)...);
    if (!(n > N{0})) {
      workers = 1;
      done();
      return;
    }
    const std::size_t w = sim::config().os_threads;
    workers = w < static_cast<std::size_t>(n) ? w : static_cast<std::size_t>(n);
    for (std::size_t i = 0, e = workers; i < e; ++i)
      sim::post([this] {
        while (next < n) {
          const N i = next;
          ++next;
          try {
            std::apply([&](auto&... vs) { f(i, vs...); }, *vals);
          }
          catch (...) {
            err = std::current_exception();
          }
          // so that indices are handed to different workers
          if (next < n)
            sim::yield();
        }
        done();
      });
  }
  void done() {
    if (--workers)
      return;
    auto* r = out;
    if (err)
      r->set_error(err);
    else
      std::apply([r](auto&... vs) { r->set_value(std::move(vs)...); }, *vals);
  }
  void set_error(std::exception_ptr e) override {
    out->set_error(e);
  }
};
template <class N, class F, class... Ts>
auto make_bulk(NodePtr<Ts...> p, N n, F&& f) {
  return Sender<std::decay_t<Ts>...>(
      new BulkNode<N, std::decay_t<F>, Ts...>(std::move(p), n, std::forward<F>(f)));
}
template <class N, class F>
struct bulk_t : Closure<bulk_t<N, F>> {
  N n;
  F f;
  bulk_t(N nn, F ff) : n(nn), f(std::move(ff)) {}
  template <class S>
  auto apply(S&& s) && {
    return make_bulk(take_node(std::forward<S>(s)), n, std::move(f));
  }
};
template <class N, class F, std::enable_if_t<std::is_integral_v<std::decay_t<N>>, int> = 0>
auto bulk(N n, F&& f) {
  return bulk_t<std::decay_t<N>, std::decay_t<F>>(n, std::forward<F>(f));
}
template <class S, class N, class F, std::enable_if_t<is_sender_v<S>, int> = 0>
auto bulk(S&& s, N n, F&& f) {
  return make_bulk(take_node(std::forward<S>(s)), n, std::forward<F>(f));
}

// ---- any senders
template <class Dst, class Src>
struct ConvertNode;
template <class... Us, class... Ts>
struct ConvertNode<Sender<Us...>, Sender<Ts...>> final : Node<Us...>, Recv<Ts...> {
  NodePtr<Ts...> pred;
  Recv<Us...>* out = nullptr;
  explicit ConvertNode(NodePtr<Ts...> p) : pred(std::move(p)) {}
  void start(Recv<Us...>& r) override {
    out = &r;
    pred->start(*this);
  }
  void set_value(Ts&&... ts) override {
    auto* r = out;
    std::tuple<Us...> v(static_cast<Ts&&>(ts)...);
    std::apply([r](auto&... vs) { r->set_value(static_cast<Us&&>(vs)...); }, v);
  }
  void set_error(std::exception_ptr e) override {
    out->set_error(e);
  }
  Node<Us...>* clone() const override {
    return new ConvertNode(NodePtr<Ts...>(pred->clone()));
  }
};
template <class Dst, class Src>
struct convert;
template <class... Ts>
struct convert<Sender<Ts...>, Sender<Ts...>> {
  static NodePtr<Ts...> call(NodePtr<Ts...> p) {
    return p;
  }
};
template <class... Us, class... Ts>
struct convert<Sender<Us...>, Sender<Ts...>> {
  static NodePtr<Us...> call(NodePtr<Ts...> p) {
    return NodePtr<Us...>(new ConvertNode<Sender<Us...>, Sender<Ts...>>(std::move(p)));
  }
};

template <class... Ts>
class any_sender : public Sender<Ts...> {
public:
  any_sender() = default;
  any_sender(const any_sender&) = default;
  any_sender(any_sender&&) = default;
  any_sender& operator=(const any_sender&) = default;
  any_sender& operator=(any_sender&&) = default;
  template <class S, std::enable_if_t<is_sender_v<S> && !std::is_same_v<std::decay_t<S>, any_sender>, int> = 0>
  any_sender(S&& s)
      : Sender<Ts...>(convert<Sender<Ts...>, sender_base_t<S>>::call(take_node(std::forward<S>(s)))) {}
  bool empty() const noexcept {
    return !this->has_node();
  }
  explicit operator bool() const noexcept {
    return this->has_node();
  }
};
template <class... Ts>
class unique_any_sender : public Sender<Ts...> {
public:
  unique_any_sender() = default;
  unique_any_sender(const unique_any_sender&) = delete;
  unique_any_sender(unique_any_sender&&) = default;
  unique_any_sender& operator=(const unique_any_sender&) = delete;
  unique_any_sender& operator=(unique_any_sender&&) = default;
  template <class S,
            std::enable_if_t<is_sender_v<S> && !std::is_same_v<std::decay_t<S>, unique_any_sender>, int> = 0>
  unique_any_sender(S&& s)
      : Sender<Ts...>(convert<Sender<Ts...>, sender_base_t<S>>::call(take_node(std::forward<S>(s)))) {}
  bool empty() const noexcept {
    return !this->has_node();
  }
  explicit operator bool() const noexcept {
    return this->has_node();
  }
};
template <template <class...> class A, class B>
struct decay_any;
template <template <class...> class A, class... Ts>
struct decay_any<A, Sender<Ts...>> {
  using type = A<std::decay_t<Ts>...>;
};
template <class S>
auto make_any_sender(S&& s) {
  return typename decay_any<any_sender, sender_base_t<S>>::type(std::forward<S>(s));
}
template <class S>
auto make_unique_any_sender(S&& s) {
  return typename decay_any<unique_any_sender, sender_base_t<S>>::type(std::forward<S>(s));
}

// ---- consumers
template <class... Ts>
struct DetachedOp final : Recv<Ts...> {
  NodePtr<Ts...> node;
  explicit DetachedOp(NodePtr<Ts...> n) : node(std::move(n)) {
    sim::detached_begin();
  }
  void set_value(Ts&&...) override {
    sim::detached_end();
    delete this;
  }
  void set_error(std::exception_ptr e) override {
    try {
      std::rethrow_exception(e);
    }
    catch (const std::exception& x) {
      sim::fail("exception", std::string("error in a detached operation: ") + x.what());
    }
    catch (...) {
      sim::fail("exception", "error in a detached operation");
    }
  }
};
template <class... Ts>
void do_start_detached(NodePtr<Ts...> n) {
  auto* op = new DetachedOp<Ts...>(std::move(n));
  op->node->start(*op);
}
template <class S>
void start_detached(S&& s) {
  do_start_detached(take_node(std::forward<S>(s)));
}
struct start_detached_t : Closure<start_detached_t> {
  template <class S>
  void apply(S&& s) && {
    start_detached(std::forward<S>(s));
  }
};
inline auto start_detached() {
  return start_detached_t{};
}

template <class... Ts>
struct SyncOp final : Recv<Ts...> {
  std::optional<std::tuple<std::decay_t<Ts>...>> vals;
  std::exception_ptr err;
  bool done = false;
  sim::Fiber* waiter = nullptr;
  void set_value(Ts&&... ts) override {
    vals.emplace(static_cast<Ts&&>(ts)...);
    wake();
  }
  void set_error(std::exception_ptr e) override {
    err = e;
    wake();
  }
  void wake() {
    done = true;
    if (auto* w = std::exchange(waiter, nullptr))
      sim::resume(w);
  }
};
template <class... Ts>
auto do_sync_wait(NodePtr<Ts...> n) {
  static_assert(sizeof...(Ts) <= 1, "sync_wait of a sender of more than one value");
  SyncOp<Ts...> op;
  n->start(op);
  if (!op.done) {
    op.waiter = sim::self();
    sim::suspend("sync_wait");
  }
  if (op.err)
    std::rethrow_exception(op.err);
  if constexpr (sizeof...(Ts) == 1)
    return std::move(std::get<0>(*op.vals));
}
template <class S>
auto sync_wait(S&& s) {
  return do_sync_wait(take_node(std::forward<S>(s)));
}
struct sync_wait_t : Closure<sync_wait_t> {
  template <class S>
  auto apply(S&& s) && {
    return do_sync_wait(take_node(std::forward<S>(s)));
  }
};
inline auto sync_wait() {
  return sync_wait_t{};
}

template <class S>
struct sender_traits {
  template <template <class...> class Tuple, template <class...> class Variant>
  using value_types = typename sender_base_t<S>::template value_types<Tuple, Variant>;
};

}  // namespace sim::ex
