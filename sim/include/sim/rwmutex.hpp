// async_rw_mutex: access is granted in the order in which read() and readwrite() were called. Consecutive
// reads form a group that shares the access; a group is granted when nothing refers to the previous one
// any more (its senders, operation states and wrappers).
#pragma once
#include <algorithm>
#include <memory>
#include <utility>
#include <vector>

#include <sim/exec.hpp>

namespace sim::ex {
enum class async_rw_mutex_access_type { read, readwrite };

template <class RW>
struct RwCell {
  RW value;
  template <class U>
  explicit RwCell(U&& u) : value(std::forward<U>(u)) {}
};

template <class RW, class R>
struct RwGroup {
  struct Waiter {
    virtual void granted() = 0;

  protected:
    ~Waiter() = default;
  };
  std::shared_ptr<RwCell<RW>> cell;
  bool write;
  bool ready = false;
  std::vector<Waiter*> waiting;
  std::shared_ptr<RwGroup> next;

  RwGroup(std::shared_ptr<RwCell<RW>> c, bool w) : cell(std::move(c)), write(w) {}
  ~RwGroup() {
    cell.reset();
    if (auto n = std::move(next))
      n->grant();
  }
  // the caller holds a reference
  void grant() {
    ready = true;
    auto w = std::move(waiting);
    waiting.clear();
    // readers are woken in an unspecified order
    if (w.size() > 1 && sim::config().task_order != sim::TaskOrder::Fifo)
      for (std::size_t i = w.size() - 1; i > 0; --i)
        std::swap(w[i], w[static_cast<std::size_t>(sim::random_u64() % (i + 1))]);
    for (Waiter* x : w)
      x->granted();
  }
};

template <class RW, class R, async_rw_mutex_access_type type>
class async_rw_mutex_access_wrapper;

template <class RW, class R>
class async_rw_mutex_access_wrapper<RW, R, async_rw_mutex_access_type::read> {
  using Group = RwGroup<RW, R>;
  std::shared_ptr<Group> g_;

public:
  explicit async_rw_mutex_access_wrapper(std::shared_ptr<Group> g) : g_(std::move(g)) {}
  async_rw_mutex_access_wrapper() = delete;
  async_rw_mutex_access_wrapper(async_rw_mutex_access_wrapper&&) = default;
  async_rw_mutex_access_wrapper(const async_rw_mutex_access_wrapper&) = default;
  async_rw_mutex_access_wrapper& operator=(async_rw_mutex_access_wrapper&&) = default;
  async_rw_mutex_access_wrapper& operator=(const async_rw_mutex_access_wrapper&) = default;
  const R& get() const {
    if (!g_)
      sim::fail("moved-from", "get() on a moved-from read access");
    return g_->cell->value;
  }
  operator const R&() const {
    return get();
  }
};

template <class RW, class R>
class async_rw_mutex_access_wrapper<RW, R, async_rw_mutex_access_type::readwrite> {
  using Group = RwGroup<RW, R>;
  std::shared_ptr<Group> g_;

public:
  explicit async_rw_mutex_access_wrapper(std::shared_ptr<Group> g) : g_(std::move(g)) {}
  async_rw_mutex_access_wrapper() = delete;
  async_rw_mutex_access_wrapper(async_rw_mutex_access_wrapper&&) = default;
  async_rw_mutex_access_wrapper(const async_rw_mutex_access_wrapper&) = delete;
  async_rw_mutex_access_wrapper& operator=(async_rw_mutex_access_wrapper&&) = default;
  async_rw_mutex_access_wrapper& operator=(const async_rw_mutex_access_wrapper&) = delete;
  RW& get() const {
    if (!g_)
      sim::fail("moved-from", "get() on a moved-from readwrite access");
    return g_->cell->value;
  }
  operator RW&() const {
    return get();
  }
};

template <class RW, class R, async_rw_mutex_access_type type>
struct RwNode final : Node<async_rw_mutex_access_wrapper<RW, R, type>>, RwGroup<RW, R>::Waiter {
  using Group = RwGroup<RW, R>;
  using Wrapper = async_rw_mutex_access_wrapper<RW, R, type>;
  std::shared_ptr<Group> g;
  Recv<Wrapper>* out = nullptr;
  explicit RwNode(std::shared_ptr<Group> gg) : g(std::move(gg)) {}
  void start(Recv<Wrapper>& r) override {
    out = &r;
    if (g->ready)
      granted();
    else
      g->waiting.push_back(this);
  }
  void granted() override {
    auto* r = out;
    r->set_value(Wrapper(std::move(g)));
  }
  Node<Wrapper>* clone() const override {
    if constexpr (type == async_rw_mutex_access_type::read)
      return new RwNode(g);
    else
      return Node<Wrapper>::clone();
  }
};

template <class RW, class R = RW, class Allocator = void>
class async_rw_mutex {
  using Group = RwGroup<std::decay_t<RW>, const std::decay_t<R>>;

public:
  using read_type = const std::decay_t<R>;
  using readwrite_type = std::decay_t<RW>;
  using read_access_type =
      async_rw_mutex_access_wrapper<readwrite_type, read_type, async_rw_mutex_access_type::read>;
  using readwrite_access_type =
      async_rw_mutex_access_wrapper<readwrite_type, read_type, async_rw_mutex_access_type::readwrite>;

  async_rw_mutex() = delete;
  template <class U, std::enable_if_t<!std::is_same_v<std::decay_t<U>, async_rw_mutex>, int> = 0>
  explicit async_rw_mutex(U&& u) : cell_(std::make_shared<RwCell<readwrite_type>>(std::forward<U>(u))) {}
  async_rw_mutex(async_rw_mutex&&) = default;
  async_rw_mutex(const async_rw_mutex&) = delete;
  async_rw_mutex& operator=(async_rw_mutex&&) = default;
  async_rw_mutex& operator=(const async_rw_mutex&) = delete;

  auto read() {
    if (!cur_ || cur_->write)
      push(false);
    return Sender<read_access_type>(
        new RwNode<readwrite_type, read_type, async_rw_mutex_access_type::read>(cur_));
  }
  auto readwrite() {
    push(true);
    return Sender<readwrite_access_type>(
        new RwNode<readwrite_type, read_type, async_rw_mutex_access_type::readwrite>(cur_));
  }

private:
  void push(bool write) {
    auto g = std::make_shared<Group>(cell_, write);
    if (!cur_)
      g->ready = true;
    else
      cur_->next = g;
    cur_ = std::move(g);  // may grant the new group, if nothing else holds the old one
  }
  std::shared_ptr<RwCell<readwrite_type>> cell_;
  std::shared_ptr<Group> cur_;
};
}  // namespace sim::ex
