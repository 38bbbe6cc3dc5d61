// C09: SingleThreadedBlasScope
#include <omp.h>
#include <unistd.h>

#include <memory>
#include <optional>
#include <thread>
#include <vector>

#include <dlaf/common/single_threaded_blas.h>

#include "pbt.hpp"

using dlaf::common::internal::SingleThreadedBlasScope;
using pbt::Gen;

namespace {
struct Node {
  int set_before = 0;  // omp_set_num_threads before entering (0: leave)
  bool throws = false;
  bool sets_inside = false;
  int inside = 0;
  bool other_thread = false;
  std::vector<Node> children;
};
Node gen_node(Gen& g, int depth) {
  Node n;
  n.set_before = g.chance(1, 2) ? static_cast<int>(g.range(1, 12)) : 0;
  n.throws = g.chance(1, 4);
  n.sets_inside = g.chance(1, 4);
  n.inside = n.sets_inside ? static_cast<int>(g.range(1, 9)) : 0;
  n.other_thread = g.chance(1, 6);
  if (depth < 3)
    for (auto k = g.below(3); k > 0; --k)
      n.children.push_back(gen_node(g, depth + 1));
  return n;
}
int size(const Node& n) {
  int s = 1;
  for (auto& c : n.children)
    s += size(c);
  return s;
}
bool has_throw(const Node& n) {
  if (n.throws)
    return true;
  for (auto& c : n.children)
    if (has_throw(c))
      return true;
  return false;
}
void show(Gen& g, const Node& n) {
  g << "(" << n.set_before << (n.throws ? "!" : "") << (n.other_thread ? "t" : "") << (n.sets_inside ? pbt::cat("i", n.inside) : "");
  for (auto& c : n.children)
    show(g, c);
  g << ")";
}
struct Boom {};

// visits the node: what is the thread count before is the thread count after
void visit(const Node& n, bool inside_scope) {
  if (n.set_before && !inside_scope)
    omp_set_num_threads(n.set_before);
  const int before = omp_get_max_threads();
  try {
    SingleThreadedBlasScope scope;
    PBT_EQ(omp_get_max_threads(), 1, "inside a scope");
    int team = 0;
#pragma omp parallel
#pragma omp atomic
    ++team;
    PBT_EQ(team, 1, "parallel region inside a scope");
    for (const auto& c : n.children) {
      visit(c, true);
      PBT_EQ(omp_get_max_threads(), 1, "after a nested scope ended");
    }
    if (n.other_thread) {
      // the scope is a matter of the calling thread only
      const int want = 5;
      int got = 0, got2 = 0;
      std::thread t([&] {
        omp_set_num_threads(want);
        {
          SingleThreadedBlasScope other;
          got2 = omp_get_max_threads();
        }
        got = omp_get_max_threads();
      });
      t.join();
      PBT_EQ(got, want, "another thread's setting");
      PBT_EQ(got2, 1, "another thread's scope");
      PBT_EQ(omp_get_max_threads(), 1, "after another thread's scope ended");
    }
    if (n.sets_inside)
      omp_set_num_threads(n.inside);
    if (n.throws)
      throw Boom{};
    if (n.sets_inside)
      PBT_EQ(omp_get_max_threads(), n.inside, "set inside");
  }
  catch (Boom&) {
    PBT_CHECK(n.throws, "exception from nowhere");
  }
  PBT_EQ(omp_get_max_threads(), before, "after the scope ended");
}
}  // namespace

PBT_SUB(nesting, 40000, 600000, "at least 3 scopes, nested or in sequence, with an exception leaving one of them") {
  const int top = static_cast<int>(g.range(1, 12));
  std::vector<Node> seq;
  for (auto k = g.range(1, 3); k > 0; --k)
    seq.push_back(gen_node(g, 0));
  int total = 0;
  bool thr = false;
  for (auto& n : seq) {
    total += size(n);
    thr |= has_throw(n);
    show(g, n);
  }
  g << " from " << top;
  g.nontrivial_if(total >= 3 && thr);
  omp_set_num_threads(top);
  for (auto& n : seq)
    visit(n, false);
}

// Task schedulers may run several scopes on one thread: the ones that are well nested in time restore
PBT_SUB(heap_scopes, 60000, 800000, "at least 3 scopes alive at once, ended in reverse order with settings in between") {
  const int top = static_cast<int>(g.range(1, 12));
  omp_set_num_threads(top);
  std::vector<std::unique_ptr<SingleThreadedBlasScope>> st;
  std::vector<int> before;
  std::size_t deepest = 0;
  std::string h;
  for (auto k = g.range(1, 16); k > 0; --k) {
    const auto what = g.below(3);
    if (what < 2 || st.empty()) {
      if (st.empty() && g.boolean()) {
        const int n = static_cast<int>(g.range(1, 9));
        omp_set_num_threads(n);
        h += pbt::cat("set", n, " ");
      }
      before.push_back(omp_get_max_threads());
      st.push_back(std::make_unique<SingleThreadedBlasScope>());
      h += "enter ";
      PBT_EQ(omp_get_max_threads(), 1, "in a scope");
    }
    else {
      st.pop_back();
      PBT_EQ(omp_get_max_threads(), before.back(), "after the scope ended: ", h);
      before.pop_back();
      h += "leave ";
    }
    deepest = std::max(deepest, st.size());
  }
  while (!st.empty()) {
    st.pop_back();
    PBT_EQ(omp_get_max_threads(), before.back(), "after the scope ended: ", h);
    before.pop_back();
  }
  using S = SingleThreadedBlasScope;
  PBT_CHECK(!std::is_copy_constructible_v<S> && !std::is_move_constructible_v<S> && !std::is_copy_assignable_v<S> &&
                !std::is_move_assignable_v<S>,
            "a scope can be copied or moved: it would be ended twice");
  g << h << "from " << top;
  g.nontrivial_if(deepest >= 3);
}

PBT_SUB(wrong_thread, 300, 3000, "always: a scope is ended on another thread than it was begun on") {
  const int n = static_cast<int>(g.range(1, 8));
  g << "threads " << n;
  g.nontrivial();
  const bool died = pbt::dies([&] {
    omp_set_num_threads(n);
    auto s = std::make_unique<SingleThreadedBlasScope>();
    std::thread t([&] { s.reset(); });
    t.join();
    _exit(0);
  });
  PBT_CHECK(died, "ending a scope on another thread went unnoticed");
}
