// C02: ranges over 2D indices visit every index of the rectangle exactly once, in column-major order.
#include <algorithm>
#include <iterator>
#include <vector>

#include <dlaf/common/range2d.h>
#include <dlaf/communication/index.h>
#include <dlaf/matrix/index.h>
#include <dlaf/types.h>

#include "pbt.hpp"

using dlaf::SizeType;
using pbt::Gen;

namespace {
template <class Index, class Size>
void range_case(Gen& g) {
  using I = typename Index::IndexType;
  const I r0 = static_cast<I>(g.range(0, 9)), c0 = static_cast<I>(g.range(0, 9));
  const I nr = static_cast<I>(g.edge(0, 14)), nc = static_cast<I>(g.edge(0, 14));
  const int form = static_cast<int>(g.below(4));
  const bool origin = form >= 2;
  const Index b = origin ? Index(0, 0) : Index(r0, c0);
  const Size sz(nr, nc);
  const Index e = b + sz;
  g << "begin=" << b << " size=" << sz << " form=" << form;
  g.nontrivial_if(nr > 1 && nc > 1 && nr != nc);
  g.label(nr == 0 || nc == 0 ? "empty" : "non-empty");
  auto range = form == 0   ? dlaf::common::iterate_range2d(b, sz)
               : form == 1 ? dlaf::common::iterate_range2d(b, e)
               : form == 2 ? dlaf::common::iterate_range2d(sz)
                           : dlaf::common::iterate_range2d(e);
  std::vector<Index> model;
  for (I j = 0; j < nc; ++j)
    for (I i = 0; i < nr; ++i)
      model.push_back(Index(b.row() + i, b.col() + j));
  std::vector<Index> got;
  for (const auto& ij : range) {
    got.push_back(ij);
    PBT_CHECK(got.size() <= model.size(), "the range yields more than ", model.size(), " indices");
  }
  PBT_CHECK(got.size() == model.size(), "the range yields ", got.size(), " of ", model.size(), " indices");
  for (std::size_t k = 0; k < got.size(); ++k)
    PBT_CHECK(got[k] == model[k], "element ", k, " is ", got[k], " expected ", model[k]);
  PBT_CHECK(range.empty() == model.empty(), "empty()");
  PBT_CHECK(range.end() - range.begin() == static_cast<SizeType>(model.size()), "distance");
  // membership agrees with enumeration
  for (int k = 0; k < 6; ++k) {
    const Index p(static_cast<I>(g.range(0, 25)), static_cast<I>(g.range(0, 25)));
    const bool in = std::find(model.begin(), model.end(), p) != model.end();
    PBT_CHECK(isIndexInRange(p, range) == in, p, " membership");
  }
  // random walk of the iterator against positions of the model
  if (!model.empty()) {
    auto it = range.begin();
    SizeType pos = 0;
    const auto n = static_cast<SizeType>(model.size());
    const int steps = static_cast<int>(g.range(1, 12));
    for (int s = 0; s < steps; ++s) {
      const SizeType target = g.edge(0, n);
      const SizeType d = target - pos;
      switch (g.below(8)) {
        case 0:
          it += d;
          pos = target;
          break;
        case 1:
          it -= -d;
          pos = target;
          break;
        case 2:
          it = it + d;
          pos = target;
          break;
        case 3:
          it = d + it;
          pos = target;
          break;
        case 4:
          it = it - (-d);
          pos = target;
          break;
        case 5:
          if (pos < n) {
            if (g.boolean())
              ++it;
            else {
              auto old = it++;
              PBT_CHECK(old == it - 1 && *old == model[static_cast<std::size_t>(pos)], "post increment");
            }
            ++pos;
          }
          break;
        case 6:
          if (pos > 0) {
            if (g.boolean())
              --it;
            else {
              auto old = it--;
              PBT_CHECK(old == it + 1, "post decrement");
            }
            --pos;
          }
          break;
        default: {
          const SizeType at = g.range(0, n - 1);
          const Index v = it[at - pos];
          PBT_CHECK(v == model[static_cast<std::size_t>(at)], "subscript ", at - pos, " from ", pos, " gives ", v);
        }
      }
      PBT_CHECK(it - range.begin() == pos, "position ", it - range.begin(), " expected ", pos);
      PBT_CHECK(range.end() - it == n - pos, "distance to end");
      PBT_CHECK((it == range.end()) == (pos == n) && (it != range.end()) == (pos != n), "end comparison");
      if (pos < n) {
        PBT_CHECK(*it == model[static_cast<std::size_t>(pos)], "deref at ", pos, " gives ", *it);
        PBT_CHECK(it->row() == (*it).row() && it->col() == (*it).col(), "arrow");
      }
      const SizeType op = g.range(0, n);
      auto other = range.begin() + op;
      PBT_CHECK((it < other) == (pos < op) && (it <= other) == (pos <= op) && (it > other) == (pos > op) &&
                    (it >= other) == (pos >= op) && (it == other) == (pos == op) && (it != other) == (pos != op),
                "comparisons of ", pos, " and ", op);
      PBT_CHECK(it - other == pos - op, "difference");
    }
    // standard algorithms
    PBT_CHECK(std::distance(range.begin(), range.end()) == n, "std::distance");
    const auto target = model[static_cast<std::size_t>(g.range(0, n - 1))];
    auto f = std::find(range.begin(), range.end(), target);
    PBT_CHECK(f != range.end() && *f == target, "std::find");
  }
}
}  // namespace

PBT_SUB(rectangles, 250000, 6000000,
        "rectangle with both extents > 1 and different; enumeration, membership and random iterator walks") {
  switch (g.below(4)) {
    case 0:
      return range_case<dlaf::GlobalTileIndex, dlaf::GlobalTileSize>(g);
    case 1:
      return range_case<dlaf::LocalTileIndex, dlaf::LocalTileSize>(g);
    case 2:
      return range_case<dlaf::comm::Index2D, dlaf::comm::Size2D>(g);
    default:
      return range_case<dlaf::TileElementIndex, dlaf::TileElementSize>(g);
  }
}

PBT_SUB(large, 60000, 1500000, "rectangles with up to 10^12 indices, sampled positions") {
  const SizeType nr = g.logrange(1, 1000000), nc = g.logrange(1, 1000000);
  const dlaf::GlobalElementIndex b(g.logrange(0, SizeType(1) << 40), g.logrange(0, SizeType(1) << 40));
  const dlaf::GlobalElementSize sz(nr, nc);
  g << "begin=" << b << " size=" << sz;
  g.nontrivial_if(nr > 1 && nc > 1);
  auto range = dlaf::common::iterate_range2d(b, sz);
  PBT_CHECK(range.end() - range.begin() == nr * nc, "size");
  for (int k = 0; k < 4; ++k) {
    const SizeType pos = g.edge(0, nr * nc - 1);
    const auto p = range.begin()[pos];
    PBT_CHECK(p.row() == b.row() + pos % nr && p.col() == b.col() + pos / nr, "at ", pos, ": ", p);
    PBT_CHECK(isIndexInRange(p, range), p);
  }
  PBT_CHECK(!isIndexInRange(b + sz, range), "end corner is not inside");
  PBT_CHECK(!isIndexInRange(dlaf::GlobalElementIndex(b.row() + nr, b.col()), range), "below");
  PBT_CHECK(!isIndexInRange(dlaf::GlobalElementIndex(b.row(), b.col() + nc), range), "right");
}

PBT_SUB(rejects_inverted, 1500, 15000, "a range whose end lies before its begin") {
  const dlaf::LocalTileIndex b(g.range(0, 5), g.range(0, 5));
  const bool rows = g.boolean();
  const SizeType d = g.range(1, 5);
  const dlaf::LocalTileIndex e(b.row() + (rows ? -d : g.range(0, 3)), b.col() + (rows ? g.range(0, 3) : -d));
  g << b << " to " << e;
  g.nontrivial();
  PBT_CHECK(pbt::dies([&] {
              volatile auto x = dlaf::common::iterate_range2d(b, e).end() - dlaf::common::iterate_range2d(b, e).begin();
              (void) x;
            }),
            "inverted range accepted");
}
