// C39: filling of matrices, predicates on matrices, printed matrices. Oracle: element-wise definitions; what is
// printed is parsed and evaluated.
#include <sstream>

#include <lapack.hh>

#include <dlaf/matrix/matrix_mirror.h>
#include <dlaf/matrix/matrix_ref.h>
#include <dlaf/matrix/panel.h>
#include <dlaf/matrix/print_csv.h>
#include <dlaf/matrix/print_numpy.h>
#include <dlaf/util_matrix.h>

#include "algo.hpp"

using namespace algo;
namespace mx = dlaf::matrix;
using dlaf::LocalTileSize;
using dlaf::LocalElementSize;

namespace {
// a distribution with everything: tiles smaller than blocks, offset, source rank
struct Dist {
  GlobalElementSize size{0, 0};
  TileElementSize tile{1, 1};
  int per_r = 1, per_c = 1;  // tiles per block
  int src_r = 0, src_c = 0;
  GlobalElementIndex offset{0, 0};
  AllocationSpec alloc;
  // the matrix is the part at the offset of this one
  Distribution make(CommunicatorGrid* grid) const {
    const GlobalElementSize b(tile.rows() * per_r, tile.cols() * per_c), n(offset.row() + size.rows(), offset.col() + size.cols());
    if (!grid)
      return Distribution(n, b, tile, {1, 1}, {0, 0}, {0, 0});
    return Distribution(n, b, tile, grid->size(), grid->rank(), {src_r, src_c});
  }
  mx::internal::SubMatrixSpec part() const {
    return {offset, size};
  }
  std::string str() const {
    return pbt::cat(" ", size.rows(), "x", size.cols(), " tiles ", tile.rows(), "x", tile.cols(), " (", per_r, "x", per_c, " per block) src ", src_r, ",", src_c, " offset ", offset.row(), ",", offset.col(), " layout ", static_cast<int>(alloc.layout()));
  }
};
void gen_place(Gen& g, const Setup& s, Dist& d) {
  if (!s.local) {
    d.src_r = static_cast<int>(g.below(static_cast<pbt::u64>(s.rows)));
    d.src_c = static_cast<int>(g.below(static_cast<pbt::u64>(s.cols)));
  }
  d.alloc = gen_alloc(g, d.offset.row() + d.size.rows());
}
enum class Kind { Plain, Blocks, Part };
Dist gen_dist(Gen& g, const Setup& s, bool square, Kind kind) {
  Dist d;
  const SizeType mb = g.range(1, 6), nb = square ? mb : g.range(1, 6);
  const SizeType m = gen_size(g, mb, std::min<SizeType>(24, mb * 7)), n = square ? m : gen_size(g, nb, std::min<SizeType>(24, nb * 7));
  d.size = {m, n};
  d.tile = {mb, nb};
  if (kind != Kind::Plain && g.chance(1, 3)) {
    d.per_r = static_cast<int>(g.range(1, 3));
    d.per_c = square ? d.per_r : static_cast<int>(g.range(1, 3));
  }
  if (kind == Kind::Part && g.chance(1, 3)) {
    const auto o = g.range(0, mb * d.per_r * 2);
    d.offset = {o, square ? o : g.range(0, nb * d.per_c * 2)};
  }
  gen_place(g, s, d);
  return d;
}

enum class Fill { Elements, Op, Identity, Zero, ZeroPart, Random, Hermitian, Banded, Positive, Diagonal };
const char* name_of(Fill f) {
  const char* n[] = {"set", "set(op)", "identity", "zero", "zero part", "random", "hermitian", "banded", "positive definite", "non zero diagonal"};
  return n[static_cast<int>(f)];
}
template <class T>
void run_fill(Fill f, Mat<T>& m, SizeType band, blas::Op op, std::uint64_t seed) {
  switch (f) {
    case Fill::Elements:
      return mx::util::set(m, [seed](const GlobalElementIndex& i) { return random_value<T>(seed, i.row(), i.col()); });
    case Fill::Op:
      return mx::util::set(m, [seed](const GlobalElementIndex& i) { return random_value<T>(seed, i.row(), i.col()); }, op);
    case Fill::Identity:
      return mx::util::set_identity(m);
    case Fill::Zero:
    case Fill::ZeroPart:
      return mx::util::set0<Backend::MC>(pika::execution::thread_priority::normal, m);
    case Fill::Random:
      return mx::util::set_random(m);
    case Fill::Hermitian:
      return mx::util::set_random_hermitian(m);
    case Fill::Banded:
      return mx::util::set_random_hermitian_banded(m, band);
    case Fill::Positive:
      return mx::util::set_random_hermitian_positive_definite(m);
    case Fill::Diagonal:
      return mx::util::set_random_non_zero_diagonal(m);
  }
}

template <class T>
void case_fill(Gen& g) {
  auto s = gen_setup(g, 6);
  auto s2 = s;  // another cluster for the same matrix
  const auto f = g.pick({Fill::Elements, Fill::Op, Fill::Identity, Fill::Zero, Fill::ZeroPart, Fill::Random, Fill::Hermitian, Fill::Banded, Fill::Positive, Fill::Diagonal});
  const bool random = f == Fill::Random || f == Fill::Hermitian || f == Fill::Banded || f == Fill::Positive || f == Fill::Diagonal;
  const bool square = random && f != Fill::Random;
  auto d = gen_dist(g, s, square, Kind::Blocks);
  auto d2 = d;
  const auto op = f == Fill::Op ? gen_op(g) : blas::Op::NoTrans;
  const SizeType band = g.range(0, std::max<SizeType>(1, d.size.rows()));
  const auto seed = g.seed();
  const bool again = random && g.boolean();
  g << d.str() << " " << name_of(f);
  if (f == Fill::Banded)
    g << " " << band;
  if (again) {
    s2 = gen_setup(g, 6);
    d2.src_r = d2.src_c = 0;
    gen_place(g, s2, d2);
    d2.per_r = 1;  // which tiles are in a block says where they are, not what is in them
    d2.per_c = 1;
    g << " again on" << d2.str();
  }
  g.label(name_of(f));
  g.nontrivial_if(s.nranks() > 1 && d.size.rows() > d.tile.rows() && d.size.cols() > d.tile.cols());
  const auto m = d.size.rows(), n = d.size.cols();
  const auto old = sentinel<T>();
  Dense<T> a(m, n, T(-99)), first(m, n, T(-99)), a2(m, n, T(-99));
  const auto zseed = g.seed();
  std::vector<std::vector<char>> in_zero(static_cast<std::size_t>(m), std::vector<char>(static_cast<std::size_t>(n), 0));
  run_setup(s, [&](CommunicatorGrid* grid) {
    Mat<T> mat(d.make(grid), d.alloc);
    fill(mat, [old](SizeType, SizeType) { return old; });
    collect(mat, first);
    if (f == Fill::ZeroPart) {
      const auto ln = mat.distribution().local_nr_tiles();
      const auto me = static_cast<std::uint64_t>(sim::cur_rank());
      const auto pick = [&](SizeType n, int k) { return static_cast<SizeType>(mix(zseed ^ (me * 8 + static_cast<std::uint64_t>(k))) % static_cast<std::uint64_t>(n + 1)); };
      SizeType r0 = pick(ln.rows(), 0), r1 = pick(ln.rows(), 1), c0 = pick(ln.cols(), 2), c1 = pick(ln.cols(), 3);
      if (r0 > r1)
        std::swap(r0, r1);
      if (c0 > c1)
        std::swap(c0, c1);
      mx::util::set0<Backend::MC>(pika::execution::thread_priority::high, LocalTileIndex(r0, c0), LocalTileSize(r1 - r0, c1 - c0), mat);
      const auto& dist = mat.distribution();
      for (SizeType j = c0; j < c1; ++j)
        for (SizeType i = r0; i < r1; ++i) {
          const auto ij = dist.global_tile_index(LocalTileIndex(i, j));
          const auto o = dist.global_element_index(ij, {0, 0});
          const auto sz = dist.tile_size_of(ij);
          for (SizeType c = 0; c < sz.cols(); ++c)
            for (SizeType r = 0; r < sz.rows(); ++r)
              in_zero[static_cast<std::size_t>(o.row() + r)][static_cast<std::size_t>(o.col() + c)] = 1;
        }
    }
    else
      run_fill(f, mat, band, op, seed);
    collect(mat, a);
  });
  for (const auto& x : first.a)
    PBT_CHECK(is_sentinel(x), "an earlier access reads ", x);
  for (SizeType j = 0; j < n; ++j)
    for (SizeType i = 0; i < m; ++i) {
      const T x = a(i, j);
      const auto at = [&] { return pbt::cat(name_of(f), ": element (", i, ",", j, ") is ", x); };
      switch (f) {
        case Fill::Elements:
          PBT_CHECK(x == random_value<T>(seed, i, j), at());
          break;
        case Fill::Op: {
          const T e = op == blas::Op::NoTrans ? random_value<T>(seed, i, j) : op == blas::Op::Trans ? random_value<T>(seed, j, i) : conj(random_value<T>(seed, j, i));
          PBT_CHECK(x == e, at(), " instead of ", e);
          break;
        }
        case Fill::Identity:
          PBT_CHECK(x == (i == j ? T(1) : T(0)), at());
          break;
        case Fill::Zero:
          PBT_CHECK(x == T(0), at());
          break;
        case Fill::ZeroPart:
          if (in_zero[static_cast<std::size_t>(i)][static_cast<std::size_t>(j)])
            PBT_CHECK(x == T(0), at());
          else
            PBT_CHECK(is_sentinel(x), at());
          break;
        case Fill::Random:
          PBT_CHECK(std::abs(x) <= 1 + 4 * eps, at());
          break;
        case Fill::Diagonal:
          PBT_CHECK(std::abs(x) <= 1 + 4 * eps, at());
          if (i == j)
            PBT_CHECK(std::abs(x) >= 0.1 - 4 * eps, at());
          break;
        case Fill::Hermitian:
        case Fill::Banded:
        case Fill::Positive:
          PBT_CHECK(x == conj(a(j, i)), at(), ", element (", j, ",", i, ") is ", a(j, i));
          if (i != j || f != Fill::Positive)
            PBT_CHECK(std::abs(x) <= 1 + 4 * eps, at());
          if (f == Fill::Positive && i == j)
            PBT_CHECK(std::abs(real(x) - 2. * static_cast<double>(n)) <= 1 + 1e-9, at());
          if (f == Fill::Banded && std::abs(i - j) > band)
            PBT_CHECK(x == T(0), at(), " outside of the band of ", band);
          break;
      }
    }
  if (f == Fill::Positive && n > 0) {
    auto l = a;
    PBT_EQ(lapack::potrf(lapack::Uplo::Lower, n, l.a.data(), n), 0, "the matrix is not positive definite: potrf");
  }
  if (random) {
    // tiles differ: no two elements of (real) random numbers are equal, except mirrored ones
    std::map<double, std::pair<SizeType, SizeType>> seen;
    SizeType same = 0;
    for (SizeType j = 0; j < n; ++j)
      for (SizeType i = 0; i < m; ++i) {
        if (f != Fill::Random && f != Fill::Diagonal && i < j)
          continue;
        const double v = std::abs(std::real(a(i, j))) ;
        if (v == 0 || std::abs(v - 0.1) < 1e-9)
          continue;
        same += seen.emplace(v, std::make_pair(i, j)).second ? 0 : 1;
      }
    PBT_CHECK(same <= 2, name_of(f), ": ", same, " of ", m * n, " random values occur twice");
  }
  if (!again)
    return;
  run_setup(s2, [&](CommunicatorGrid* grid) {
    Mat<T> mat(d2.make(grid), d2.alloc);
    run_fill(f, mat, band, op, seed);
    collect(mat, a2);
  });
  for (SizeType j = 0; j < n; ++j)
    for (SizeType i = 0; i < m; ++i)
      PBT_CHECK(a(i, j) == a2(i, j), name_of(f), ": element (", i, ",", j, ") depends on where it is: ", a(i, j), " vs ", a2(i, j));
}

// ---- panels
template <class T, dlaf::Coord axis, mx::StoreTransposed st>
void case_panel(Gen& g) {
  auto s = gen_setup(g, 6);
  auto d = gen_dist(g, s, false, Kind::Plain);
  if (d.size.rows() == 0 || d.size.cols() == 0)
    d.size = {d.tile.rows(), d.tile.cols()};
  g << d.str();
  g.nontrivial_if(s.nranks() > 1 && d.size.rows() > d.tile.rows() && d.size.cols() > d.tile.cols());
  run_setup(s, [&](CommunicatorGrid* grid) {
    mx::Panel<axis, T, Device::CPU, st> p(d.make(grid));
    for (int k = 0; k < 2; ++k) {
      mx::util::set0<Backend::MC>(pika::execution::thread_priority::normal, p);
      for (const auto& ij : p.iteratorLocal()) {
        auto w = tt::sync_wait(p.readwrite(ij));
        for (SizeType c = 0; c < w.size().cols(); ++c)
          for (SizeType r = 0; r < w.size().rows(); ++r) {
            PBT_CHECK(w({r, c}) == T(0), "element (", r, ",", c, ") of tile ", ij.row(), ",", ij.col(), " of the panel is ", w({r, c}));
            w({r, c}) = T(5);
          }
      }
      p.reset();
    }
  });
}

// ---- predicates
void case_predicates(Gen& g) {
  auto s = gen_setup(g, 6);
  auto a = gen_dist(g, s, false, Kind::Part), b = gen_dist(g, s, false, Kind::Part), c = gen_dist(g, s, false, Kind::Part);
  const auto opa = gen_op(g), opb = gen_op(g);
  // most triples can be multiplied, up to one change
  const auto gm = g.chance(3, 4);
  if (gm) {
    const bool ta = opa != blas::Op::NoTrans, tb = opb != blas::Op::NoTrans;
    const SizeType m = g.range(1, 9), k = g.range(1, 9), n = g.range(1, 9);
    const SizeType mt = g.range(1, 4), kt = g.range(1, 4), nt = g.range(1, 4);
    const auto set = [&](Dist& d, SizeType r, SizeType c, SizeType rt, SizeType ct, bool t) {
      d.per_r = d.per_c = 1;
      d.offset = {0, 0};
      d.size = t ? GlobalElementSize{c, r} : GlobalElementSize{r, c};
      d.tile = t ? TileElementSize{ct, rt} : TileElementSize{rt, ct};
    };
    set(a, m, k, mt, kt, ta);
    set(b, k, n, kt, nt, tb);
    set(c, m, n, mt, nt, false);
    auto& d = *g.pick({&a, &b, &c});
    switch (g.below(5)) {
      case 0:
        d.size = {d.size.rows() + g.range(-1, 1), d.size.cols()};
        break;
      case 1:
        d.size = {d.size.rows(), d.size.cols() + g.range(-1, 1)};
        break;
      case 2:
        d.tile = {d.tile.rows() + g.range(0, 1), d.tile.cols() + g.range(0, 1)};
        break;
      case 3:
        d.offset = {g.range(0, 3), g.range(0, 3)};
        break;
      default:
        break;
    }
  }
  g << a.str() << b.str() << c.str();
  bool mult = false;
  run_setup(s, [&](CommunicatorGrid* grid) {
    for (auto* d : {&a, &b, &c})  // (the allocation may have been made for fewer rows)
      d->alloc = AllocationSpec(d->alloc.layout());
    Mat<double> fa(a.make(grid), a.alloc), fb(b.make(grid), b.alloc), fc(c.make(grid), c.alloc);
    using Ref = mx::internal::MatrixRef<const double, Device::CPU>;
    Ref ma(fa, a.part()), mb(fb, b.part()), mc(fc, c.part());
    const auto one = [](const Dist& d, Ref& m) {
      PBT_EQ(mx::square_size(m), d.size.rows() == d.size.cols(), "square_size");
      PBT_EQ(mx::square_tile_size(m), d.tile.rows() == d.tile.cols(), "square_tile_size");
      PBT_EQ(mx::square_block_size(m), d.tile.rows() * d.per_r == d.tile.cols() * d.per_c, "square_block_size");
      PBT_EQ(mx::single_tile_per_block(m), d.per_r == 1 && d.per_c == 1, "single_tile_per_block");
    };
    one(a, ma);
    one(b, mb);
    one(c, mc);
    PBT_EQ(mx::equal_size(ma, mb), a.size == b.size, "equal_size");
    PBT_EQ(mx::equal_tile_size(fa, fb), a.tile == b.tile, "equal_tile_size");
    PBT_EQ(mx::equal_block_size(fa, fb), a.tile.rows() * a.per_r == b.tile.rows() * b.per_r && a.tile.cols() * a.per_c == b.tile.cols() * b.per_c, "equal_block_size");
    PBT_EQ(mx::local_matrix(ma), s.nranks() == 1, "local_matrix");
    PBT_CHECK(mx::same_process_grid(ma, fc), "same_process_grid");
    PBT_CHECK(mx::equal_distributions(fa, fa), "equal_distributions");
    if (grid) {
      PBT_CHECK(mx::equal_process_grid(ma, *grid), "equal_process_grid");
      Mat<double> loc(LocalElementSize(3, 3), TileElementSize(2, 2));
      PBT_EQ(mx::equal_process_grid(loc, *grid), s.nranks() == 1, "equal_process_grid of a local matrix");
      PBT_EQ(mx::same_process_grid(loc, ma), s.nranks() == 1, "same_process_grid of a local matrix");
    }
    // first tile: what the offset leaves of it
    const auto sizes = [](const Dist& d, bool t) {
      const auto ft = [](SizeType n, SizeType nb, SizeType o) { return std::min(n, nb - o % nb); };
      std::array<SizeType, 6> x{d.size.rows(), d.size.cols(), d.tile.rows(), d.tile.cols(), ft(d.size.rows(), d.tile.rows(), d.offset.row()), ft(d.size.cols(), d.tile.cols(), d.offset.col())};
      if (t)
        for (std::size_t i = 0; i < 6; i += 2)
          std::swap(x[i], x[i + 1]);
      return x;
    };
    const auto x = sizes(a, opa != blas::Op::NoTrans), y = sizes(b, opb != blas::Op::NoTrans), z = sizes(c, false);
    const auto fits = [&](std::size_t i) { return x[i] == z[i] && x[i + 1] == y[i] && y[i + 1] == z[i + 1]; };
    const bool some_empty = a.size.isEmpty() || c.size.isEmpty();
    if (some_empty || !b.size.isEmpty()) {
      const bool e = some_empty ? fits(0) : fits(0) && fits(2) && fits(4);
      PBT_EQ(mx::multipliable(ma, mb, mc, opa, opb), e, "multipliable");
      mult = e;
    }
  });
  g.nontrivial_if(gm);
  g.label(mult ? "multipliable" : "not multipliable");
}

// ---- printing
struct Parser {
  std::string s;
  std::size_t p = 0;
  void ws() {
    while (p < s.size() && std::isspace(static_cast<unsigned char>(s[p])))
      ++p;
  }
  bool end() {
    ws();
    return p == s.size();
  }
  bool take(const std::string& t) {
    ws();
    if (s.compare(p, t.size(), t) != 0)
      return false;
    p += t.size();
    return true;
  }
  void expect(const std::string& t) {
    PBT_CHECK(take(t), "'", t, "' expected in the output at ", p, ": ...", s.substr(p, 60));
  }
  double num() {
    ws();
    if (take("np.nan"))
      return std::nan("");
    char* e = nullptr;
    const double v = std::strtod(s.c_str() + p, &e);
    PBT_CHECK(e != s.c_str() + p && std::isalpha(static_cast<unsigned char>(s[p])) == 0, "a number expected in the output at ", p, ": ...", s.substr(p, 60));
    p = static_cast<std::size_t>(e - s.c_str());
    return v;
  }
  SizeType integer() {
    return static_cast<SizeType>(num());
  }
  template <class T>
  T value() {
    if constexpr (is_complex_v<T>) {
      const double r = num();
      ws();
      PBT_CHECK(p < s.size() && (s[p] == '+' || s[p] == '-'), "sign expected in the output at ", p);
      const double i = num();
      expect("j");
      return T(r, i);
    }
    else
      return num();
  }
};
bool near(double a, double b) {
  return (std::isnan(a) && std::isnan(b)) || std::abs(a - b) <= 1e-5 * std::abs(b);
}
template <class T>
bool near_value(const T& a, const T& b) {
  if constexpr (is_complex_v<T>)
    return near(a.real(), b.real()) && near(a.imag(), b.imag());
  else
    return near(a, b);
}
template <class T>
T print_value(std::uint64_t seed, SizeType i, SizeType j) {
  const auto h = mix(seed ^ mix(static_cast<std::uint64_t>(i * 1000 + j)));
  T x = random_value<T>(seed, i, j);
  switch (h % 7) {
    case 0:
      x = T(static_cast<double>(h % 2001) - 1000.);
      break;
    case 1:
      x = x * T(1e10);
      break;
    case 2:
      x = x * T(1e-10);
      break;
    case 3:
      x = T(0);
      break;
    case 4:
      if constexpr (!is_complex_v<T>)
        x = std::nan("");
      break;
    default:
      break;
  }
  return x;
}
// array expression: the elements of a tile
template <class T>
Dense<T> parse_numpy_tile(Parser& p) {
  p.expect("np.array([");
  std::vector<T> v;
  while (!p.take("]")) {
    v.push_back(p.value<T>());
    if (!p.take(",")) {
      p.expect("]");
      break;
    }
  }
  p.expect(",");
  p.expect("dtype=np.");
  p.expect(is_complex_v<T> ? "csingle" : "single");
  p.expect(").reshape(");
  const auto r = p.integer();
  p.expect(",");
  const auto c = p.integer();
  p.expect(")");
  PBT_EQ(static_cast<SizeType>(v.size()), r * c, "elements to be reshaped");
  const bool t = p.take(".T");
  Dense<T> a(r, c);
  for (SizeType i = 0; i < r; ++i)
    for (SizeType j = 0; j < c; ++j)
      a(i, j) = v[static_cast<std::size_t>(i * c + j)];
  return t ? transpose(a, false) : a;
}
template <class T>
void case_numpy(Gen& g) {
  auto s = gen_setup(g, 6);
  auto d = gen_dist(g, s, false, Kind::Part);
  const auto seed = g.seed();
  const bool mirror = g.boolean();
  g << d.str();
  g.nontrivial_if(s.nranks() > 1 && d.size.rows() > d.tile.rows() && d.size.cols() > d.tile.cols());
  const auto m = d.size.rows(), n = d.size.cols();
  std::vector<std::string> text(static_cast<std::size_t>(s.nranks()));
  Dense<T> after(d.offset.row() + m, d.offset.col() + n);
  run_setup(s, [&](CommunicatorGrid* grid) {
    Mat<T> mat(d.make(grid), d.alloc);
    fill(mat, [seed, o = d.offset](SizeType i, SizeType j) { return print_value<T>(seed, i - o.row(), j - o.col()); });
    std::ostringstream os;
    if (d.offset != GlobalElementIndex(0, 0)) {
      mx::internal::MatrixRef<const T, Device::CPU> part(mat, d.part());
      mx::print(dlaf::format::numpy{}, "A_1", part, os);
    }
    else if (mirror) {
      mx::MatrixMirror<const T, Device::CPU, Device::CPU> mm(mat);
      mx::print(dlaf::format::numpy{}, "A_1", mm.get(), os);
    }
    else
      mx::print(dlaf::format::numpy{}, "A_1", mat, os);
    text[static_cast<std::size_t>(sim::cur_rank())] = os.str();
    fill(mat, [](SizeType, SizeType) { return T(3); });  // not what was printed
    collect(mat, after);
  });
  for (const auto& x : after.a)
    PBT_CHECK(x == T(3), "a later write is lost");
  std::vector<int> times(static_cast<std::size_t>(m * n), 0);
  for (const auto& t : text) {
    Parser p{t};
    p.expect("A_1");
    p.expect("=");
    p.expect("np.zeros((");
    PBT_EQ(p.integer(), m, "printed rows");
    p.expect(",");
    PBT_EQ(p.integer(), n, "printed columns");
    p.expect("), dtype=np.");
    p.expect(is_complex_v<T> ? "csingle" : "single");
    p.expect(")");
    while (!p.end()) {
      p.expect("A_1[");
      const auto r0 = p.integer();
      p.expect(":");
      const auto r1 = p.integer();
      p.expect(",");
      const auto c0 = p.integer();
      p.expect(":");
      const auto c1 = p.integer();
      p.expect("]");
      p.expect("=");
      const auto a = parse_numpy_tile<T>(p);
      PBT_CHECK(a.m == r1 - r0 && a.n == c1 - c0 && r0 >= 0 && c0 >= 0 && r1 <= m && c1 <= n, "an array of ", a.m, "x", a.n, " for the elements ", r0, ":", r1, ",", c0, ":", c1);
      for (SizeType j = 0; j < a.n; ++j)
        for (SizeType i = 0; i < a.m; ++i) {
          ++times[static_cast<std::size_t>(r0 + i + (c0 + j) * m)];
          PBT_CHECK(near_value(a(i, j), print_value<T>(seed, r0 + i, c0 + j)), "printed element (", r0 + i, ",", c0 + j, ") is ", a(i, j), " instead of ", print_value<T>(seed, r0 + i, c0 + j));
        }
    }
  }
  for (int t : times)
    PBT_EQ(t, 1, "times that an element is printed");
}
template <class T>
void parse_csv(std::istringstream& is, SizeType m, SizeType n, std::uint64_t seed, GlobalElementIndex at, double tol) {
  for (SizeType i = 0; i < m; ++i) {
    std::string line;
    PBT_CHECK(static_cast<bool>(std::getline(is, line)), "line ", i, " is missing");
    std::istringstream ls(line);
    for (SizeType j = 0; j < n; ++j) {
      const T e = print_value<T>(seed, at.row() + i, at.col() + j);
      char comma = 0;
      T x{};
      if (std::isnan(std::abs(e))) {
        std::string w;
        std::getline(ls, w, ',');
        PBT_CHECK(w.find("nan") != std::string::npos, "element (", i, ",", j, ") is printed as ", w);
        continue;
      }
      ls >> x >> comma;
      PBT_CHECK(ls && comma == ',', "line ", i, ", column ", j, " is not a value: ", line);
      PBT_CHECK(std::abs(x - e) <= tol * std::abs(e), "printed element (", i, ",", j, ") is ", x, " instead of ", e);
    }
    std::string rest;
    ls >> rest;
    PBT_CHECK(rest.empty(), "line ", i, " has more than ", n, " values: ", line);
  }
}
template <class T>
void case_csv(Gen& g) {
  Setup s;
  s.cfg = gen_config(g, 1);
  auto d = gen_dist(g, s, false, Kind::Blocks);
  const auto seed = g.seed();
  g << d.str();
  g.nontrivial_if(d.size.rows() > d.tile.rows() && d.size.cols() > d.tile.cols());
  run_setup(s, [&](CommunicatorGrid*) {
    Mat<T> mat(d.make(nullptr), d.alloc);
    fill(mat, [seed](SizeType i, SizeType j) { return print_value<T>(seed, i, j); });
    std::ostringstream os;
    mx::print(dlaf::format::csv{}, "name", mat, os);
    fill(mat, [](SizeType, SizeType) { return T(3); });
    std::istringstream is(os.str());
    std::string line;
    std::getline(is, line);
    PBT_EQ(line, std::string("name"), "first line");
    parse_csv<T>(is, d.size.rows(), d.size.cols(), seed, {0, 0}, 1e-5);
    PBT_CHECK(!std::getline(is, line), "more lines than rows: ", line);
    // a tile
    if (!d.size.isEmpty()) {
      fill(mat, [seed](SizeType i, SizeType j) { return print_value<T>(seed, i, j); });
      const auto& dist = mat.distribution();
      const auto nt = dist.nr_tiles();
      const GlobalTileIndex ij(static_cast<SizeType>(seed % static_cast<std::uint64_t>(nt.rows())), static_cast<SizeType>(seed / 64 % static_cast<std::uint64_t>(nt.cols())));
      auto w = tt::sync_wait(mat.read(ij));
      const auto o = dist.global_element_index(ij, {0, 0});
      std::ostringstream o1, o2;
      mx::print(dlaf::format::csv{}, w.get(), o1);
      std::istringstream i1(o1.str());
      parse_csv<T>(i1, w.get().size().rows(), w.get().size().cols(), seed, o, 1e-4);
      PBT_CHECK(!std::getline(i1, line), "more lines than rows: ", line);
      mx::print(dlaf::format::numpy{}, w.get(), o2);
      Parser p{o2.str()};
      const auto t = parse_numpy_tile<T>(p);
      PBT_CHECK(p.end(), "more than an array is printed");
      PBT_CHECK(t.m == w.get().size().rows() && t.n == w.get().size().cols(), "size of the printed tile");
      for (SizeType j = 0; j < t.n; ++j)
        for (SizeType i = 0; i < t.m; ++i)
          PBT_CHECK(near_value(t(i, j), w.get()({i, j})), "printed element (", i, ",", j, ") of a tile is ", t(i, j), " instead of ", w.get()({i, j}));
    }
  });
}

// ---- mirrors on the same device are the matrix itself
template <class T>
void case_mirror(Gen& g) {
  auto s = gen_setup(g, 4);
  auto d = gen_dist(g, s, false, Kind::Blocks);
  g << d.str();
  g.nontrivial_if(d.size.rows() > d.tile.rows());
  Dense<T> out(d.size.rows(), d.size.cols());
  const auto seed = g.seed();
  run_setup(s, [&](CommunicatorGrid* grid) {
    Mat<T> mat(d.make(grid), d.alloc);
    fill(mat, [](SizeType, SizeType) { return T(1); });
    {
      mx::MatrixMirror<T, Device::CPU, Device::CPU> mm(mat);
      PBT_CHECK(&mm.getSource() == &mat, "source of a mirror");
      mm.copySourceToTarget();
      fill(mm.get(), [seed](SizeType i, SizeType j) { return random_value<T>(seed, i, j); });
      mm.copyTargetToSource();
      mx::MatrixMirror<const T, Device::CPU, Device::CPU> mc(mat);
      PBT_CHECK(&mc.getSource() == &mat, "source of a mirror");
      collect(mc.get(), out);
    }
    fill(mat, [](SizeType, SizeType) { return T(7); });
  });
  for (SizeType j = 0; j < out.n; ++j)
    for (SizeType i = 0; i < out.m; ++i)
      PBT_CHECK(out(i, j) == random_value<T>(seed, i, j), "element (", i, ",", j, ") read through a mirror is ", out(i, j));
}
}  // namespace

PBT_SUB(fill, 16000, 400000, "more than one tile in both directions, more than one rank") {
  with_type(g, [&](auto t) { case_fill<decltype(t)>(g); });
}
PBT_SUB(panels, 2000, 40000, "more than one tile in both directions, more than one rank") {
  switch (g.below(4)) {
    case 0:
      return case_panel<double, dlaf::Coord::Col, mx::StoreTransposed::No>(g);
    case 1:
      return case_panel<double, dlaf::Coord::Row, mx::StoreTransposed::No>(g);
    case 2:
      return case_panel<zdouble, dlaf::Coord::Col, mx::StoreTransposed::Yes>(g);
    default:
      return case_panel<zdouble, dlaf::Coord::Row, mx::StoreTransposed::Yes>(g);
  }
}
PBT_SUB(predicates, 12000, 200000, "sizes that can be multiplied, up to one change") {
  case_predicates(g);
}
PBT_SUB(numpy, 8000, 200000, "more than one tile in both directions, more than one rank") {
  with_type(g, [&](auto t) { case_numpy<decltype(t)>(g); });
}
PBT_SUB(csv, 8000, 200000, "more than one tile in both directions") {
  with_type(g, [&](auto t) { case_csv<decltype(t)>(g); });
}
PBT_SUB(mirror, 3000, 40000, "more than one tile") {
  with_type(g, [&](auto t) { case_mirror<decltype(t)>(g); });
}
