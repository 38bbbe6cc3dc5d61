// C34: max norm of a distributed matrix. Oracle: the maximum over the elements.
#include <dlaf/auxiliary/norm.h>

#include "algo.hpp"

using namespace algo;

namespace {
template <class T>
void case_norm(Gen& g) {
  const auto s = gen_setup(g, 6, false);
  const bool lower = g.boolean();
  Shape h;
  if (lower)
    h = gen_square(g, s, 30, 8);
  else {
    const SizeType mb = g.range(1, 8), nb = g.range(1, 8);
    const SizeType m = gen_size(g, mb, 30), n = gen_size(g, nb, 30);
    h = gen_rect(g, s, m, mb, n, nb);
  }
  auto a = random_dense<T>(h.m, h.n, g.seed());
  // where the largest element is decides: anywhere in the part that counts
  std::string where = "random";
  if (h.m > 0 && h.n > 0 && g.chance(3, 4)) {
    SizeType i = g.range(0, h.m - 1), j = g.range(0, h.n - 1);
    if (g.chance(1, 3))
      i = h.m - 1;
    if (g.chance(1, 3))
      j = lower ? i : h.n - 1;
    if (lower && i < j)
      std::swap(i, j);
    a(i, j) = a(i, j) + T(g.boolean() ? 7. : -7.);
    where = pbt::cat("(", i, ",", j, ")");
  }
  else if (g.chance(1, 4)) {
    for (auto& x : a.a)
      x = T(0);
    where = "zero";
  }
  double e = 0;
  for (SizeType j = 0; j < h.n; ++j)
    for (SizeType i = 0; i < h.m; ++i)
      if (!lower || i >= j)
        e = std::max(e, std::abs(a(i, j)));
  if (lower)
    a = with_sentinels(a, blas::Uplo::Lower);
  const dlaf::comm::Index2D root(static_cast<int>(g.below(static_cast<pbt::u64>(s.rows))), static_cast<int>(g.below(static_cast<pbt::u64>(s.cols))));
  const int repeat = g.chance(1, 4) ? 2 : 1;
  g << (lower ? " lower " : " general ") << str(h) << " largest: " << where << " root " << root.row() << "," << root.col();
  g.nontrivial_if(h.m > h.mb && h.n > h.nb && s.nranks() > 1);
  Dense<T> out(h.m, h.n);
  std::vector<double> got;
  run_setup(s, [&](CommunicatorGrid* grid) {
    auto m = make_matrix<T>(h, grid);
    fill(m, a);
    using NormSender = ex::unique_any_sender<double>;
    std::vector<NormSender> n;
    // calls may be in flight together; the results may be waited for in another order
    for (int r = 0; r < repeat; ++r)
      n.push_back(dlaf::auxiliary::max_norm<Backend::MC, Device::CPU, T>(*grid, root, lower ? blas::Uplo::Lower : blas::Uplo::General, as_const_matrix(m)));
    // work after the norm waits for the reads
    collect(m, out);
    for (auto& x : n) {
      const double v = tt::sync_wait(std::move(x));
      if (grid->rank() == root)
        got.push_back(v);
    }
  });
  check_unchanged(out, a, "matrix");
  PBT_EQ(got.size(), static_cast<std::size_t>(repeat));
  for (double v : got)
    PBT_CHECK(std::abs(v - e) <= 4 * eps * e, "norm ", v, " instead of ", e);
}
}  // namespace

PBT_SUB(max_norm, 60000, 400000, "more than one block in both directions, more than one rank") {
  with_type(g, [&](auto t) { case_norm<decltype(t)>(g); });
}
