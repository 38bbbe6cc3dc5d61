// C01: two-dimensional indices and sizes; linearisation is a bijection.
#include <array>
#include <cstdint>
#include <limits>
#include <sstream>
#include <string>

#include <dlaf/common/index2d.h>
#include <dlaf/communication/index.h>
#include <dlaf/matrix/index.h>
#include <dlaf/types.h>

#include "pbt.hpp"

using dlaf::Coord;
using dlaf::SizeType;
using dlaf::common::Ordering;
using pbt::Gen;
struct Tag;
template <class I>
using Ix = dlaf::common::Index2D<I, Tag>;
template <class I>
using Sz = dlaf::common::Size2D<I, Tag>;
using i128 = __int128;

namespace {
template <class I>
I dim(Gen& g, SizeType cap) {
  const SizeType mx = std::min<SizeType>(cap, std::numeric_limits<I>::max());
  return static_cast<I>(g.chance(1, 3) ? g.logrange(1, mx) : g.range(1, std::min<SizeType>(mx, 12)));
}

template <class I, class L>
void linear_case(Gen& g) {
  const SizeType lin_max = static_cast<SizeType>(std::min<std::uint64_t>(
      static_cast<std::uint64_t>(std::numeric_limits<L>::max()),
      static_cast<std::uint64_t>(std::numeric_limits<SizeType>::max())));
  I r = dim<I>(g, SizeType(1) << 40);
  // the product must fit the linear index
  const SizeType cmax = std::max<SizeType>(1, lin_max / r);
  if (r > lin_max)
    r = static_cast<I>(lin_max);
  I c = dim<I>(g, std::min<SizeType>(cmax, SizeType(1) << 40));
  const SizeType n = static_cast<SizeType>(r) * static_cast<SizeType>(c);
  const Sz<I> dims(r, c);
  PBT_CHECK(dims.linear_size() == n, "linear_size of ", +r, "x", +c, " is ", dims.linear_size());
  const SizeType k = g.edge(0, n - 1);
  const Ordering o = g.boolean() ? Ordering::ColumnMajor : Ordering::RowMajor;
  g << "dims=(" << +r << "," << +c << ") linear=" << k << (o == Ordering::RowMajor ? " row" : " col")
    << " sizeof(I)=" << sizeof(I) << " sizeof(L)=" << sizeof(L);
  g.nontrivial_if(r > 1 && c > 1 && r != c);
  const Ix<I> p = dlaf::common::computeCoords(o, k, dims);
  const SizeType er = o == Ordering::RowMajor ? k / c : k % r;
  const SizeType ec = o == Ordering::RowMajor ? k % c : k / r;
  PBT_CHECK(p.row() == er && p.col() == ec, "coords of ", k, " are ", p, " expected (", er, ",", ec, ")");
  PBT_CHECK(p.isIn(dims), p, " not in ", dims);
  const Ix<I> p2 = o == Ordering::RowMajor ? dlaf::common::computeCoordsRowMajor(k, dims)
                                           : dlaf::common::computeCoordsColMajor(k, dims);
  PBT_CHECK(p2 == p, "named variant gives ", p2, " generic gives ", p);
  const L back = dlaf::common::computeLinearIndex<L>(o, p, dims);
  PBT_CHECK(static_cast<std::uint64_t>(back) == static_cast<std::uint64_t>(k), "linear(coords(", k, ")) = ", +back);
  const L back2 = o == Ordering::RowMajor ? dlaf::common::computeLinearIndexRowMajor<L>(p, dims)
                                          : dlaf::common::computeLinearIndexColMajor<L>(p, dims);
  PBT_CHECK(back2 == back, "named linear variant differs: ", +back2, " ", +back);
  // neighbours: the next linear index is the next position in the stated order
  if (k + 1 < n) {
    const Ix<I> q = dlaf::common::computeCoords(o, k + 1, dims);
    const bool in_line = o == Ordering::RowMajor ? p.col() + 1 < c : p.row() + 1 < r;
    if (o == Ordering::RowMajor)
      PBT_CHECK(in_line ? (q.row() == p.row() && q.col() == p.col() + 1) : (q.row() == p.row() + 1 && q.col() == 0),
                p, " is followed by ", q);
    else
      PBT_CHECK(in_line ? (q.col() == p.col() && q.row() == p.row() + 1) : (q.col() == p.col() + 1 && q.row() == 0),
                p, " is followed by ", q);
  }
  // transposition swaps the orders
  const auto td = dlaf::common::transposed(dims);
  const auto other = o == Ordering::RowMajor ? Ordering::ColumnMajor : Ordering::RowMajor;
  PBT_CHECK(dlaf::common::computeCoords(other, k, td) == dlaf::common::transposed(p),
            "transposed linearisation differs");
}

template <class I>
void alg_case(Gen& g) {
  // keep sums in range: values of a quarter of the range
  const SizeType mx = std::min<SizeType>(std::numeric_limits<I>::max() / 4, SizeType(1) << 50);
  auto val = [&](bool neg) {
    SizeType v = g.chance(1, 3) ? g.logrange(0, mx) : g.range(0, std::min<SizeType>(mx, 6));
    return static_cast<I>(neg && g.chance(1, 4) ? -v : v);
  };
  const I a = val(true), b = val(true), c = val(true), d = val(true), e = val(true), f = val(true);
  g << "I" << sizeof(I) << " p=(" << +a << "," << +b << ") s=(" << +c << "," << +d << ") t=(" << +e << "," << +f << ")";
  g.nontrivial_if(a != b || c != d);
  const Ix<I> p(a, b), q(e, f);
  const Sz<I> s(c, d), t(e, f);
  PBT_CHECK(p.row() == a && p.col() == b && s.rows() == c && s.cols() == d, "accessors");
  PBT_CHECK(p.template get<Coord::Row>() == a && p.template get<Coord::Col>() == b, "get<>");
  PBT_CHECK(p.get(Coord::Row) == a && p.get(Coord::Col) == b && s.get(Coord::Row) == c && s.get(Coord::Col) == d, "get()");
  PBT_CHECK(Ix<I>(std::array<I, 2>{a, b}) == p && Sz<I>(std::array<I, 2>{c, d}) == s, "array constructor");
  PBT_CHECK(Ix<I>(Coord::Row, a, b) == p && Ix<I>(Coord::Col, b, a) == p, "component constructor");
  PBT_CHECK(Sz<I>(Coord::Row, c, d) == s && Sz<I>(Coord::Col, d, c) == s, "component constructor");
  PBT_CHECK(Ix<I>(Coord::Row, a) == Ix<I>(a, 0) && Ix<I>(Coord::Col, b) == Ix<I>(0, b), "default fixed");
  PBT_CHECK(dlaf::orthogonal(Coord::Row) == Coord::Col && dlaf::orthogonal(Coord::Col) == Coord::Row, "orthogonal");
  PBT_CHECK(std::string(dlaf::coord2str(Coord::Row)) == "ROW" && std::string(dlaf::coord2str(Coord::Col)) == "COL", "coord2str");
  // equality
  PBT_CHECK((p == q) == (a == e && b == f) && (p != q) == !(a == e && b == f), p, q);
  PBT_CHECK((s == t) == (c == e && d == f) && (s != t) == !(c == e && d == f), s, t);
  // validity
  PBT_CHECK(p.isValid() == (a >= 0 && b >= 0) && s.isValid() == (c >= 0 && d >= 0), p, s);
  PBT_CHECK(!Ix<I>().isValid(), "default index is valid");
  if (s.isValid())
    PBT_CHECK(s.isEmpty() == (c == 0 || d == 0), s);
  // arithmetic
  const auto ps = p + s;
  PBT_CHECK(ps.row() == a + c && ps.col() == b + d, ps);
  PBT_CHECK((ps - s) == p, "(p + s) - s");
  PBT_CHECK((ps - p) == s, "(p + s) - p");
  const auto pq = p - q;
  PBT_CHECK(pq.rows() == a - e && pq.cols() == b - f && (q + pq) == p, pq);
  const auto st = s + t;
  PBT_CHECK(st.rows() == c + e && st.cols() == d + f && (st - t) == s && (st - s) == t, st);
  PBT_CHECK(((p + s) + t) == (p + (s + t)), "associativity");
  PBT_CHECK(dlaf::common::indexFromOrigin(s).row() == c && dlaf::common::indexFromOrigin(s).col() == d &&
                dlaf::common::sizeFromOrigin(dlaf::common::indexFromOrigin(s)) == s,
            "origin conversions");
  PBT_CHECK(dlaf::common::sizeFromOrigin(p).rows() == a && dlaf::common::sizeFromOrigin(p).cols() == b, "sizeFromOrigin");
  // transposition is an involution exchanging components
  const auto tp = dlaf::common::transposed(p);
  PBT_CHECK(tp.row() == b && tp.col() == a && dlaf::common::transposed(tp) == p, tp);
  auto ts = s;
  ts.transpose();
  PBT_CHECK(ts.rows() == d && ts.cols() == c && ts == dlaf::common::transposed(s), ts);
  // containment
  if (p.isValid() && s.isValid()) {
    const bool in = a < c && b < d, on = a <= c && b <= d;
    PBT_CHECK(p.isIn(s) == in, p, " in ", s);
    PBT_CHECK(p.isInOrOn(s) == on, p, " in or on ", s);
    if (q.isValid()) {
      const bool sub = a >= e && a - e < c && b >= f && b - f < d;
      PBT_CHECK(p.isInSub(q, s) == sub, p, " in sub ", q, " + ", s);
    }
  }
  else {
    PBT_CHECK(!p.isIn(s) && !p.isInOrOn(s), "invalid ", p, " reported inside ", s);
  }
  std::ostringstream o1, o2;
  o1 << p;
  o2 << s;
  PBT_EQ(o1.str(), pbt::cat("(", +a, ", ", +b, ")"));
  PBT_EQ(o2.str(), pbt::cat("(", +c, ", ", +d, ")"));
}
}  // namespace

PBT_SUB(linearisation, 400000, 12000000,
        "a generated grid with both dimensions > 1 and different, linear index at ends/inside, both orderings, all index widths") {
  switch (g.below(8)) {
    case 0:
      return linear_case<SizeType, SizeType>(g);
    case 1:
      return linear_case<SizeType, std::size_t>(g);
    case 2:
      return linear_case<int, int>(g);
    case 3:
      return linear_case<int, SizeType>(g);
    case 4:
      return linear_case<std::int8_t, int>(g);
    case 5:
      return linear_case<std::int16_t, std::uint16_t>(g);
    case 6:
      return linear_case<std::int8_t, std::uint8_t>(g);
    default:
      return linear_case<int, unsigned>(g);
  }
}

PBT_SUB(algebra, 400000, 8000000, "generated index/size triples whose components differ (incl. negative components)") {
  switch (g.below(4)) {
    case 0:
      return alg_case<SizeType>(g);
    case 1:
      return alg_case<int>(g);
    case 2:
      return alg_case<std::int16_t>(g);
    default:
      return alg_case<std::int8_t>(g);
  }
}

// every position of a small grid: the linearisation enumerates each exactly once, in the stated order
PBT_SUB(enumeration, 20000, 400000, "whole small grids with both dimensions > 1") {
  const SizeType r = g.range(1, 17), c = g.range(1, 17);
  const Ordering o = g.boolean() ? Ordering::ColumnMajor : Ordering::RowMajor;
  g << "grid " << r << "x" << c;
  g.nontrivial_if(r > 1 && c > 1);
  const dlaf::comm::Size2D gs(static_cast<int>(r), static_cast<int>(c));
  std::vector<int> seen(static_cast<std::size_t>(r * c), 0);
  for (SizeType i = 0; i < r; ++i)
    for (SizeType j = 0; j < c; ++j) {
      const dlaf::comm::Index2D p(static_cast<int>(i), static_cast<int>(j));
      const auto k = dlaf::common::computeLinearIndex<SizeType>(o, p, gs);
      PBT_CHECK(k >= 0 && k < r * c, "linear index ", k, " out of range");
      ++seen[static_cast<std::size_t>(k)];
      PBT_CHECK(k == (o == Ordering::RowMajor ? i * c + j : j * r + i), p, " -> ", k);
      PBT_CHECK(dlaf::common::computeCoords(o, k, gs) == p, "coords(linear(", p, "))");
    }
  for (auto s : seen)
    PBT_CHECK(s == 1, "a linear index was produced ", s, " times");
}

// positions outside of the grid are rejected, not mapped
PBT_SUB(rejects_outside, 2000, 20000, "an index or linear index outside of the grid") {
  const SizeType r = g.range(1, 9), c = g.range(1, 9);
  const Ordering o = g.boolean() ? Ordering::ColumnMajor : Ordering::RowMajor;
  const Sz<SizeType> dims(r, c);
  g.nontrivial();
  if (g.boolean()) {
    const SizeType k = g.boolean() ? -1 - g.range(0, 3) : r * c + g.range(0, 3);
    g << "linear " << k << " of " << r << "x" << c;
    PBT_CHECK(pbt::dies([&] { volatile auto x = dlaf::common::computeCoords(o, k, dims).row(); (void) x; }),
              "linear index ", k, " of a ", r, "x", c, " grid was accepted");
  }
  else {
    Ix<SizeType> p(g.range(0, r - 1), g.range(0, c - 1));
    if (g.boolean())
      p = Ix<SizeType>(g.boolean() ? -1 : r, p.col());
    else
      p = Ix<SizeType>(p.row(), g.boolean() ? -1 : c);
    g << "index " << p << " of " << r << "x" << c;
    PBT_CHECK(pbt::dies([&] { volatile auto x = dlaf::common::computeLinearIndex<SizeType>(o, p, dims); (void) x; }),
              "index ", p, " of a ", r, "x", c, " grid was accepted");
  }
}
