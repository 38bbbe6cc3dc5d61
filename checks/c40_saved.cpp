// C40: matrices saved in files. Oracle: the elements at their positions in a file in memory (a stand-in for HDF5), and
// what is read back with any other distribution.
#include <dlaf/matrix/hdf5.h>

#include "algo.hpp"

using namespace algo;
namespace mx = dlaf::matrix;
using mx::internal::FileHDF5;
using Mode = FileHDF5::FileMode;

namespace {
struct Place {
  TileElementSize tile{1, 1};
  int per_r = 1, per_c = 1;
  int src_r = 0, src_c = 0;
  AllocationSpec alloc;
  bool local = false;  // every rank has a matrix of its own
  Distribution make(GlobalElementSize n, CommunicatorGrid* grid) const {
    const GlobalElementSize b(tile.rows() * per_r, tile.cols() * per_c);
    if (!grid || local)
      return Distribution(n, b, tile, {1, 1}, {0, 0}, {0, 0});
    return Distribution(n, b, tile, grid->size(), grid->rank(), {src_r, src_c});
  }
};
Place gen_place(Gen& g, const Setup& s, SizeType m) {
  Place p;
  p.tile = {g.range(1, 6), g.range(1, 6)};
  if (g.chance(1, 4)) {
    p.per_r = static_cast<int>(g.range(1, 3));
    p.per_c = static_cast<int>(g.range(1, 3));
  }
  p.local = !s.local && g.chance(1, 4);
  if (!s.local) {
    p.src_r = static_cast<int>(g.below(static_cast<pbt::u64>(s.rows)));
    p.src_c = static_cast<int>(g.below(static_cast<pbt::u64>(s.cols)));
  }
  p.alloc = gen_alloc(g, m);
  g << (p.local ? " local" : "") << " tiles " << p.tile.rows() << "x" << p.tile.cols() << "(" << p.per_r << "x" << p.per_c << ")@" << p.src_r << "," << p.src_c << "L" << static_cast<int>(p.alloc.layout());
  return p;
}
template <class T>
struct Saved {
  std::string name;
  GlobalElementSize size{0, 0};
  Place from, to;
  std::uint64_t seed = 0;
  bool rewrite = false;  // the matrix is changed right after it was written
  bool twice = false;    // read twice, the first result is changed
  Dense<T> now, back;
  std::vector<Dense<T>> backs;  // local matrices: of each rank
};
template <class T>
T value(std::uint64_t seed, SizeType i, SizeType j) {
  auto x = random_value<T>(seed, i, j);
  if (mix(seed ^ static_cast<std::uint64_t>(i * 77 + j)) % 16 == 0)
    x = sentinel<T>();  // bits count, not numbers
  return x;
}
template <class T>
Saved<T> gen_saved(Gen& g, const Setup& s, int k) {
  Saved<T> v;
  v.name = pbt::cat("/", "mab"[k % 3], k);
  v.size = {gen_size(g, 4, 20), gen_size(g, 4, 20)};
  g << " " << v.name << (is_complex_v<T> ? " z " : " d ") << v.size.rows() << "x" << v.size.cols() << " from";
  v.from = gen_place(g, s, v.size.rows());
  g << " to";
  v.to = gen_place(g, s, v.size.rows());
  v.seed = g.seed();
  v.rewrite = g.boolean();
  v.twice = g.chance(1, 4);
  v.back = v.now = Dense<T>(v.size.rows(), v.size.cols(), T(-3));
  v.backs.assign(static_cast<std::size_t>(s.nranks()), v.back);
  return v;
}
template <class T>
void write(Saved<T>& v, const FileHDF5& file, CommunicatorGrid* grid) {
  Mat<T> m(v.from.make(v.size, grid), v.from.alloc);
  // of local matrices only that of the first rank is saved
  const auto me = v.from.local && grid ? static_cast<std::uint64_t>(grid->rank().row() * grid->size().cols() + grid->rank().col()) : 0;
  const bool saved = !v.from.local || !grid || grid->rankFullCommunicator(grid->rank()) == 0;
  const auto seed = v.seed + (saved ? 0 : 1000 + me);
  fill(m, [seed](SizeType i, SizeType j) { return value<T>(seed, i, j); });
  file.write(as_const_matrix(m), v.name);
  if (v.rewrite)
    fill(m, [](SizeType, SizeType) { return T(11); });
  if (saved)
    collect(m, v.now);
  wait(m);
}
template <class T>
Mat<T> read_one(const Saved<T>& v, const FileHDF5& file, CommunicatorGrid* grid) {
  if (grid && !v.to.local)
    return file.read<T>(v.name, v.to.tile, *grid, {v.to.src_r, v.to.src_c});
  return file.read<T>(v.name, v.to.tile);
}
template <class T>
void read(Saved<T>& v, const FileHDF5& file, CommunicatorGrid* grid) {
  auto m = read_one(v, file, grid);
  auto place = v.to;
  place.per_r = place.per_c = 1;
  PBT_CHECK(m.distribution() == place.make(v.size, grid), "distribution of ", v.name, " after reading: ", m.distribution().size().rows(), "x", m.distribution().size().cols());
  if (v.twice) {
    auto o = read_one(v, file, grid);
    fill(o, [](SizeType, SizeType) { return T(13); });
  }
  auto& out = v.to.local ? v.backs[static_cast<std::size_t>(sim::cur_rank())] : v.back;
  collect(m, out);
  wait(m);
}
template <class T>
void judge(const Saved<T>& v, const simh5::File& f, const Setup& s) {
  const auto m = v.size.rows(), n = v.size.cols();
  const auto it = f.sets.find(v.name);
  PBT_CHECK(it != f.sets.end(), "no dataset ", v.name);
  const auto& d = *it->second;
  constexpr std::size_t k = is_complex_v<T> ? 2 : 1;
  PBT_CHECK(d.dims.size() == 3 && d.dims[0] == static_cast<hsize_t>(n) && d.dims[1] == static_cast<hsize_t>(m) && d.dims[2] == k, "extents of the dataset ", v.name);
  PBT_EQ(d.type, 8, "type of the dataset");
  Dense<T> e(m, n);
  for (SizeType j = 0; j < n; ++j)
    for (SizeType i = 0; i < m; ++i)
      e(i, j) = value<T>(v.seed, i, j);
  const auto same = [&](const Dense<T>& a, const char* what) {
    for (SizeType j = 0; j < n; ++j)
      for (SizeType i = 0; i < m; ++i)
        PBT_CHECK(same_bits(a(i, j), e(i, j)), what, " of ", v.name, " (", i, ",", j, ") is ", a(i, j), " instead of ", e(i, j));
  };
  for (int w : d.writes)
    PBT_EQ(w, 1, pbt::cat("times that an element of ", v.name, " is written"));
  Dense<T> in_file(m, n);
  if (m * n > 0)
    std::memcpy(in_file.a.data(), d.data.data(), d.data.size());
  same(in_file, "element in the file");
  for (SizeType j = 0; j < n; ++j)
    for (SizeType i = 0; i < m; ++i)
      PBT_CHECK(v.rewrite ? v.now(i, j) == T(11) : same_bits(v.now(i, j), e(i, j)), "element (", i, ",", j, ") of the saved matrix is now ", v.now(i, j));
  if (v.to.local)
    for (const auto& b : v.backs)
      same(b, "element read");
  else
    same(v.back, "element read");
  (void) s;
}

void case_history(Gen& g) {
  auto s = gen_setup(g, 6);
  const int count = static_cast<int>(g.range(1, 4));
  const bool mpio = !s.local;
  const bool reopen = g.boolean();
  // the ranks of the file are those of the grid, in an order of its own
  const bool reversed = mpio && g.chance(1, 4);
  g << (reopen ? " reopened" : "") << (reversed ? " reversed" : "");
  std::vector<Saved<double>> ds;
  std::vector<Saved<zdouble>> zs;
  std::vector<std::pair<bool, std::size_t>> order, back;
  bool interesting = false;
  for (int k = 0; k < count; ++k) {
    if (g.boolean()) {
      zs.push_back(gen_saved<zdouble>(g, s, k));
      order.push_back({true, zs.size() - 1});
      interesting = interesting || (zs.back().size.rows() > 6 && zs.back().size.cols() > 6);
    }
    else {
      ds.push_back(gen_saved<double>(g, s, k));
      order.push_back({false, ds.size() - 1});
      interesting = interesting || (ds.back().size.rows() > 6 && ds.back().size.cols() > 6);
    }
  }
  back = order;
  for (std::size_t i = back.size(); i > 1; --i)
    std::swap(back[i - 1], back[g.below(i)]);
  g.nontrivial_if(interesting && s.nranks() > 1);
  simh5::world() = simh5::World();
  run_setup(s, [&](CommunicatorGrid* grid) {
    std::optional<FileHDF5> file;
    if (mpio)
      file.emplace(grid->fullCommunicator(), "saved.h5");
    else
      file.emplace("saved.h5", Mode::readwrite);
    for (auto [z, i] : order)
      z ? write(zs[i], *file, grid) : write(ds[i], *file, grid);
    file->flush();
    if (mpio) {
      // what others wrote is in the file when they are here
      auto comm = grid->fullCommunicator();
      MPI_Barrier(comm);
    }
    if (reopen)
      file.emplace("saved.h5", Mode::readonly);
    for (auto [z, i] : back)
      z ? read(zs[i], *file, grid) : read(ds[i], *file, grid);
  });
  const auto& w = simh5::world();
  PBT_EQ(w.files.size(), std::size_t(1), "files");
  const auto& f = *w.files.at("saved.h5");
  PBT_EQ(f.open, 0, "handles left open");
  for (const auto& v : ds)
    judge(v, f, s);
  for (const auto& v : zs)
    judge(v, f, s);
  PBT_EQ(f.sets.size(), order.size(), "datasets");
}

// ---- what is refused
void case_refused(Gen& g) {
  const auto kind = g.below(5);
  Setup s = gen_setup(g, 4, false);
  const bool control = g.chance(1, 4);
  const char* names[] = {"distributed matrix, local file", "other type", "no such dataset", "existing dataset", "read only"};
  g << " " << names[kind] << (control ? " (control)" : "");
  g.label(names[kind]);
  g.nontrivial();
  if (kind == 0 && s.nranks() == 1)
    s.rows = s.rows * 2, s.cfg.nranks = s.nranks();
  const auto run = [&] {
    simh5::world() = simh5::World();
    run_setup(s, [&](CommunicatorGrid* grid) {
      Mat<double> a(Distribution({5, 5}, {2, 2}, grid->size(), grid->rank(), {0, 0}));
      fill(a, [](SizeType i, SizeType j) { return static_cast<double>(i * 10 + j); });
      if (kind == 0 && !control) {
        FileHDF5 f(pbt::cat("f", sim::cur_rank()), Mode::readwrite);
        f.write(as_const_matrix(a), "/a");
        return;
      }
      {
        FileHDF5 f(grid->fullCommunicator(), "f");
        f.write(as_const_matrix(a), "/a");
        if (kind == 3 && !control)
          f.write(as_const_matrix(a), "/a");
        else
          f.write(as_const_matrix(a), "/b");
      }
      FileHDF5 f("f", Mode::readonly);
      if (kind == 1 && !control)
        f.read<float>("/a", TileElementSize(2, 2));
      else if (kind == 2 && !control)
        f.read<double>("/c", TileElementSize(2, 2));
      else if (kind == 4 && !control) {
        Mat<double> l(dlaf::LocalElementSize(2, 2), TileElementSize(1, 1));
        fill(l, [](SizeType, SizeType) { return 1.; });
        f.write(as_const_matrix(l), "/d");
      }
      else {
        auto b = f.read<double>("/a", TileElementSize(3, 1));
        wait(b);
      }
    });
  };
  if (control)
    run();
  else
    PBT_CHECK(pbt::dies([&] { run(); }), "accepted: ", names[kind]);
}
}  // namespace

PBT_SUB(histories, 16000, 400000, "a matrix of more than 6x6, more than one rank") {
  case_history(g);
}
PBT_SUB(refused, 500, 5000, "always") {
  case_refused(g);
}
