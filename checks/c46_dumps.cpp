// C46: the debug dumps. Oracle: the matrices given and returned, bit for bit, in files in memory (a stand-in for HDF5);
// one file for every call; the same results without the dumps; what one stage returns is what the next one is given.
#include <regex>

#include <dlaf/eigensolver/band_to_tridiag.h>
#include <dlaf/eigensolver/eigensolver.h>
#include <dlaf/eigensolver/gen_eigensolver.h>
#include <dlaf/eigensolver/gen_to_std.h>
#include <dlaf/eigensolver/reduction_to_band.h>
#include <dlaf/eigensolver/tridiag_solver.h>
#include <dlaf/factorization/cholesky.h>
#include <dlaf/inverse/cholesky.h>
#include <dlaf/inverse/triangular.h>
#include <dlaf/matrix/hdf5.h>

#include "hermitian_inputs.hpp"

using namespace algo;

namespace {
enum Kind { chol, inv_chol, inv_tri, gen_std, red_band, band_trid, trid, eig, gen_eig, kinds };
const char* const kind_names[] = {"cholesky", "inverse of factor", "triangular inverse", "to standard", "to band",
                                  "to tridiagonal", "tridiagonal solver", "eigensolver", "generalized eigensolver"};
// a matrix of doubles as it is in a file
struct Raw {
  SizeType m = 0, n = 0, dims = 1;
  std::vector<double> a;
};
template <class T>
Raw raw(const Dense<T>& d) {
  Raw r;
  r.m = d.m;
  r.n = d.n;
  r.dims = is_complex_v<T> ? 2 : 1;
  r.a.resize(d.a.size() * static_cast<std::size_t>(r.dims));
  if (!d.a.empty())
    std::memcpy(r.a.data(), d.a.data(), d.a.size() * sizeof(T));
  return r;
}
bool same_double(double a, double b) {
  return std::memcmp(&a, &b, sizeof(double)) == 0;
}
void same(const Raw& a, const Raw& b, const std::string& what) {
  PBT_CHECK(a.m == b.m && a.n == b.n && a.dims == b.dims, what, ": ", a.m, "x", a.n, "x", a.dims, " instead of ", b.m, "x", b.n, "x", b.dims);
  for (std::size_t i = 0; i < a.a.size(); ++i) {
    const auto e = static_cast<SizeType>(i) / a.dims;
    PBT_CHECK(same_double(a.a[i], b.a[i]), what, ": element (", e % a.m, ",", e / a.m, ") is ", a.a[i], " instead of ", b.a[i]);
  }
}

struct Call {
  Kind kind = chol;
  bool complex = false;
  Shape h, hb, hd, hw, hv;
  blas::Uplo uplo = blas::Uplo::Lower;
  blas::Diag diag = blas::Diag::NonUnit;
  SizeType band = 0, end = 0;
  bool factorized = false;
  Tridiagonal t;
  Dense<double> da, db;   // inputs
  Dense<zdouble> za, zb;
  // outputs with and without dumps: matrix, other matrix, eigenvectors, values (or tridiagonal) of every rank
  struct Out {
    Dense<double> a, b, v;
    Dense<zdouble> za, zb, zv;
    std::vector<Dense<double>> w;
  } out[2];
};
template <class T>
auto& mat_a(Call& c) {
  if constexpr (is_complex_v<T>)
    return c.za;
  else
    return c.da;
}
template <class T>
auto& mat_b(Call& c) {
  if constexpr (is_complex_v<T>)
    return c.zb;
  else
    return c.db;
}
template <class T>
auto& out_a(Call::Out& o) {
  if constexpr (is_complex_v<T>)
    return o.za;
  else
    return o.a;
}
template <class T>
auto& out_b(Call::Out& o) {
  if constexpr (is_complex_v<T>)
    return o.zb;
  else
    return o.b;
}
template <class T>
auto& out_v(Call::Out& o) {
  if constexpr (is_complex_v<T>)
    return o.zv;
  else
    return o.v;
}

template <class T>
Call gen_call(Gen& g, const Setup& s, Kind kind) {
  Call c;
  c.kind = kind;
  c.complex = is_complex_v<T>;
  g << " [" << kind_names[kind] << (c.complex ? " z" : " d");
  c.h = gen_square(g, s, 20, 6);
  const bool band = kind == red_band || kind == band_trid;
  if (band) {
    c.band = g.range(2, 4);
    c.h.nb = c.h.mb = c.band * g.pick({1, 2});
    g << " nb=" << c.h.nb << " band=" << c.band;
  }
  if ((kind == eig || kind == gen_eig) && c.h.nb < 2) {
    c.h.nb = c.h.mb = 2;
    g << " (nb=2)";
  }
  if (g.chance(1, 6)) {  // one tile
    c.h.n = c.h.m = g.range(1, c.h.nb);
    g << " n=" << c.h.n;
  }
  const auto n = c.h.n;
  c.h.alloc = gen_alloc(g, n);
  c.hb = c.hv = c.h;
  c.hb.alloc = gen_alloc(g, n);
  c.hv.alloc = gen_alloc(g, n);
  c.hd = c.hw = c.h;
  c.hd.src_r = c.hd.src_c = c.hw.src_r = c.hw.src_c = 0;
  c.hd.n = c.hd.nb = 2;
  c.hw.n = c.hw.nb = 1;
  c.hd.alloc = gen_alloc(g, n);
  c.hw.alloc = gen_alloc(g, n);
  c.end = n;
  constexpr auto L = blas::Uplo::Lower;
  auto& a = mat_a<T>(c);
  auto& b = mat_b<T>(c);
  const auto factor = [&](blas::Uplo u, std::uint64_t seed) {
    auto f = random_triangular<T>(n, u, blas::Diag::NonUnit, seed);
    for (SizeType i = 0; i < n; ++i)
      f(i, i) = T(std::abs(f(i, i)));
    return f;
  };
  switch (kind) {
    case chol:
      a = with_sentinels(random_hpd<T>(n, g.seed()), L);
      break;
    case inv_chol:
      c.uplo = gen_uplo(g);
      a = factor(c.uplo, g.seed());
      break;
    case inv_tri:
      c.uplo = gen_uplo(g);
      c.diag = gen_diag(g);
      a = random_triangular<T>(n, c.uplo, c.diag, g.seed());
      break;
    case gen_std:
      a = with_sentinels(random_hermitian<T>(n, g.seed()), L);
      b = factor(L, g.seed());
      break;
    case red_band:
    case band_trid:
      a = with_sentinels(random_hermitian<T>(n, g.seed()), L);
      break;
    case trid:
      c.t = gen_tridiagonal(g, n);
      break;
    case eig:
      a = with_sentinels(random_hermitian<T>(n, g.seed()), L);
      c.end = gen_end(g, n);
      break;
    default:
      a = with_sentinels(random_hermitian<T>(n, g.seed()), L);
      c.factorized = g.boolean();
      b = c.factorized ? factor(L, g.seed()) : with_sentinels(random_hpd<T>(n, g.seed()), L);
      c.end = gen_end(g, n);
      g << (c.factorized ? " factorized" : "");
  }
  g << "]";
  return c;
}
template <class T>
void perform(Call& c, Call::Out& o, CommunicatorGrid& grid, std::size_t me) {
  constexpr auto B = Backend::MC;
  constexpr auto D = Device::CPU;
  constexpr auto L = blas::Uplo::Lower;
  namespace ei = dlaf::eigensolver::internal;
  if (c.kind == trid) {
    auto mt = make_matrix<double>(c.hd, nullptr);
    auto mw = make_matrix<double>(c.hw, nullptr);
    auto mv = make_matrix<T>(c.h, &grid);
    const auto& t = c.t;
    fill(mt, [&t](SizeType i, SizeType j) { return j == 0 ? t.d[static_cast<std::size_t>(i)] : t.e[static_cast<std::size_t>(i)]; });
    fill(mw, [](SizeType, SizeType) { return sentinel<double>(); });
    fill(mv, [](SizeType, SizeType) { return sentinel<T>(); });
    ei::tridiagonal_eigensolver<B, D, T>(grid, mt, mw, mv);
    collect(mw, o.w[me]);
    collect(mv, out_v<T>(o));
    return;
  }
  auto ma = make_matrix<T>(c.h, &grid);
  fill(ma, mat_a<T>(c));
  switch (c.kind) {
    case chol:
      dlaf::cholesky_factorization<B, D, T>(grid, L, ma);
      break;
    case inv_chol:
      dlaf::inverse_from_cholesky_factor<B, D, T>(grid, c.uplo, ma);
      break;
    case inv_tri:
      dlaf::triangular_inverse<B, D, T>(grid, c.uplo, c.diag, ma);
      break;
    case gen_std: {
      auto mb = make_matrix<T>(c.hb, &grid);
      fill(mb, mat_b<T>(c));
      ei::generalized_to_standard<B, D, T>(grid, L, ma, mb);
      break;
    }
    case red_band:
      ei::reduction_to_band<B, D, T>(grid, ma, c.band);
      break;
    case band_trid: {
      auto ret = ei::band_to_tridiagonal<B, D, T>(grid, L, c.band, as_const_matrix(ma));
      collect(ret.tridiagonal, o.w[me]);
      break;
    }
    case eig:
    case gen_eig: {
      auto mw = make_matrix<double>(c.hw, nullptr);
      auto mv = make_matrix<T>(c.hv, &grid);
      fill(mw, [](SizeType, SizeType) { return sentinel<double>(); });
      fill(mv, [](SizeType, SizeType) { return sentinel<T>(); });
      const SizeType zero = 0, n = c.h.n;
      if (c.kind == eig)
        c.end == n ? dlaf::hermitian_eigensolver<B, D, T>(grid, L, ma, mw, mv)
                   : dlaf::hermitian_eigensolver<B, D, T>(grid, L, ma, mw, mv, zero, c.end);
      else {
        auto mb = make_matrix<T>(c.hb, &grid);
        fill(mb, mat_b<T>(c));
        if (c.factorized)
          dlaf::hermitian_generalized_eigensolver_factorized<B, D, T>(grid, L, ma, mb, mw, mv, zero, c.end);
        else
          dlaf::hermitian_generalized_eigensolver<B, D, T>(grid, L, ma, mb, mw, mv, zero, c.end);
        collect(mb, out_b<T>(o));
      }
      collect(mw, o.w[me]);
      collect(mv, out_v<T>(o));
      break;
    }
    default:
      break;
  }
  collect(ma, out_a<T>(o));
}

// what is in the files
struct Reader {
  std::map<std::string, std::size_t> next;  // by name
  std::size_t used = 0;
  using Sets = std::map<std::string, Raw>;
  // the sets of the file of the next call
  Sets take(const std::string& name, std::initializer_list<const char*> sets) {
    const auto key = pbt::cat(name, "#", next[name]++);
    const auto& files = simh5::world().files;
    const auto it = files.find(key);
    PBT_CHECK(it != files.end(), "there is no file number ", next[name] - 1, " named ", name, "...");
    ++used;
    const auto& f = *it->second;
    PBT_EQ(f.open, 0, pbt::cat(key, ": handles left open"));
    PBT_EQ(f.sets.size(), sets.size(), pbt::cat(key, ": datasets"));
    Sets r;
    for (const char* s : sets) {
      const auto d = f.sets.find(std::string("/") + s);
      PBT_CHECK(d != f.sets.end(), key, ": there is no dataset /", s);
      const auto& x = *d->second;
      PBT_EQ(x.dims.size(), std::size_t(3), pbt::cat(key, " ", s, ": dimensions"));
      PBT_EQ(x.type, 8, pbt::cat(key, " ", s, ": size of the elements"));
      for (int w : x.writes)
        PBT_EQ(w, 1, pbt::cat(key, " ", s, ": times that an element is written"));
      Raw raw;
      raw.n = static_cast<SizeType>(x.dims[0]);
      raw.m = static_cast<SizeType>(x.dims[1]);
      raw.dims = static_cast<SizeType>(x.dims[2]);
      raw.a.resize(x.data.size() / 8);
      if (!raw.a.empty())
        std::memcpy(raw.a.data(), x.data.data(), x.data.size());
      r[s] = std::move(raw);
    }
    return r;
  }
};

// the settings that are on
struct Flags {
  bool on[kinds] = {};
};

template <class T>
void judge(Call& c, const Flags& f, const Setup& s, Reader& r) {
  const std::string t = is_complex_v<T> ? "z" : "d";
  auto& o = c.out[0];
  const bool one_rank = s.nranks() == 1;
  const auto in_a = raw(mat_a<T>(c)), in_b = raw(mat_b<T>(c)), now_a = raw(out_a<T>(o)), now_v = raw(out_v<T>(o));
  const auto name = [&](const char* n) { return n + t; };
  // reduction to band and what follows in the eigensolvers; the input of the reduction is known
  const auto stages = [&](const Raw& input, const Raw* evals) {
    std::optional<Raw> band, tri;
    if (f.on[red_band]) {
      const auto d = r.take(name("reduction_to_band-"), {"input", "band"});
      same(d.at("input"), input, "input of the reduction to band");
      band = d.at("band");
    }
    if (f.on[band_trid] && !one_rank) {
      const auto d = r.take(name("band_to_tridiag-"), {"input", "tridiagonal"});
      if (band)
        same(d.at("input"), *band, "input of the reduction to tridiagonal");
      tri = d.at("tridiagonal");
    }
    if (f.on[trid] && c.h.n > 0) {
      const auto d = r.take("tridiag_solver-d", {"input", "evals", "evecs"});
      if (tri)
        same(d.at("input"), *tri, "input of the tridiagonal solver");
      if (evals)
        same(d.at("evals"), *evals, "eigenvalues of the tridiagonal solver");
    }
  };
  for (const auto& w : o.w)
    same(raw(w), raw(o.w[0]), "values on another rank");
  const auto values = raw(o.w[0]);
  switch (c.kind) {
    case chol:
      if (f.on[chol]) {
        const auto d = r.take(name("cholesky-factorization-"), {"input", "cholesky"});
        same(d.at("input"), in_a, "input of the factorization");
        same(d.at("cholesky"), now_a, "factor");
      }
      break;
    case inv_chol:
      {
        std::optional<Raw> inverse;  // of the factor, the first half
        if (f.on[inv_tri]) {
          const auto d = r.take(name(c.uplo == blas::Uplo::Lower ? "triangular-inverse-L-" : "triangular-inverse-U-"), {"input", "triangular_inverse"});
          same(d.at("input"), in_a, "input of the triangular inverse");
          inverse = d.at("triangular_inverse");
        }
        if (f.on[inv_chol]) {
          const auto d = r.take(name(c.uplo == blas::Uplo::Lower ? "inverse-from-cholesky-factor-L-" : "inverse-from-cholesky-factor-U-"),
                                {"input", "inverse_from_cholesky_factor"});
          if (inverse)  // the dump is that of the second half
            same(d.at("input"), *inverse, "input of the inverse from a factor");
          same(d.at("inverse_from_cholesky_factor"), now_a, "inverse from a factor");
        }
      }
      break;
    case inv_tri:
      if (f.on[inv_tri]) {
        const auto d = r.take(name(c.uplo == blas::Uplo::Lower ? "triangular-inverse-L-" : "triangular-inverse-U-"), {"input", "triangular_inverse"});
        same(d.at("input"), in_a, "input of the triangular inverse");
        same(d.at("triangular_inverse"), now_a, "triangular inverse");
      }
      break;
    case gen_std:
      if (f.on[gen_std]) {
        const auto d = r.take(name("gen_to_std-"), {"input-a", "cholesky", "std"});
        same(d.at("input-a"), in_a, "matrix of the generalized problem");
        same(d.at("cholesky"), in_b, "factor of the generalized problem");
        same(d.at("std"), now_a, "matrix of the standard problem");
      }
      break;
    case red_band:
      if (f.on[red_band]) {
        const auto d = r.take(name("reduction_to_band-"), {"input", "band"});
        same(d.at("input"), in_a, "input of the reduction to band");
        same(d.at("band"), now_a, "band matrix");
      }
      break;
    case band_trid:
      if (f.on[band_trid] && !one_rank) {
        const auto d = r.take(name("band_to_tridiag-"), {"input", "tridiagonal"});
        same(d.at("input"), in_a, "input of the reduction to tridiagonal");
        same(d.at("tridiagonal"), values, "tridiagonal matrix");
      }
      break;
    case trid:
      if (f.on[trid] && c.h.n > 0) {
        const auto d = r.take("tridiag_solver-d", {"input", "evals", "evecs"});
        Dense<double> in(c.h.n, 2), v(c.h.n, c.h.n);
        for (SizeType i = 0; i < c.h.n; ++i) {
          in(i, 0) = c.t.d[static_cast<std::size_t>(i)];
          in(i, 1) = c.t.e[static_cast<std::size_t>(i)];
        }
        for (std::size_t i = 0; i < v.a.size(); ++i)
          v.a[i] = real(out_v<T>(o).a[i]);
        same(d.at("input"), raw(in), "tridiagonal matrix");
        same(d.at("evals"), values, "eigenvalues");
        same(d.at("evecs"), raw(v), "eigenvectors");
      }
      break;
    case eig:
      if (f.on[eig]) {
        const auto d = r.take(name("eigensolver-"), {"input", "evals", "evecs"});
        same(d.at("input"), in_a, "input of the eigensolver");
        same(d.at("evals"), values, "eigenvalues");
        same(d.at("evecs"), now_v, "eigenvectors");
      }
      stages(in_a, &values);
      break;
    default: {
      const auto now_b = raw(out_b<T>(o));
      if (f.on[gen_eig]) {
        const char* const b = c.factorized ? "input-b-factorized" : "input-b";
        const auto d = r.take(name(c.factorized ? "generalized-eigensolver-factorized-" : "generalized-eigensolver-"), {"input-a", b, "evals", "evecs"});
        same(d.at("input-a"), in_a, "matrix A of the generalized eigensolver");
        same(d.at(b), in_b, "matrix B of the generalized eigensolver");
        same(d.at("evals"), values, "generalized eigenvalues");
        same(d.at("evecs"), now_v, "generalized eigenvectors");
      }
      if (f.on[chol] && !c.factorized) {
        const auto d = r.take(name("cholesky-factorization-"), {"input", "cholesky"});
        same(d.at("input"), in_b, "input of the factorization");
        same(d.at("cholesky"), now_b, "factor of B");
      }
      std::optional<Raw> std_a;
      if (f.on[gen_std]) {
        const auto d = r.take(name("gen_to_std-"), {"input-a", "cholesky", "std"});
        same(d.at("input-a"), in_a, "matrix of the generalized problem");
        same(d.at("cholesky"), now_b, "factor of the generalized problem");
        std_a = d.at("std");
      }
      if (f.on[eig]) {
        const auto d = r.take(name("eigensolver-"), {"input", "evals", "evecs"});
        if (std_a)
          same(d.at("input"), *std_a, "input of the eigensolver");
        else
          std_a = d.at("input");
        same(d.at("evals"), values, "eigenvalues");
      }
      if (std_a)
        stages(*std_a, &values);
      else if (f.on[red_band]) {
        // nothing else says what its input is
        auto copy = r;
        stages(copy.take(name("reduction_to_band-"), {"input", "band"}).at("input"), &values);
      }
      else
        stages(Raw(), &values);
    }
  }
}

void case_history(Gen& g) {
  auto s = gen_setup(g, 6, false);
  s.np = std::max<std::size_t>(2, s.np);
  gen_eigensolver_tune(g, s);
  Flags f;
  g << " dumps:";
  for (int k = 0; k < kinds; ++k) {
    f.on[k] = g.chance(2, 3);
    if (f.on[k])
      g << " " << kind_names[k] << ",";
  }
  const int count = static_cast<int>(g.range(1, 3));
  std::vector<Call> calls;
  bool many = false, dumped = false;
  for (int i = 0; i < count; ++i) {
    // half of the time the function of the call before
    const auto kind = i > 0 && g.boolean() ? calls.back().kind : static_cast<Kind>(g.below(kinds));
    const bool complex = i > 0 && g.boolean() ? calls.back().complex : g.boolean();
    calls.push_back(complex ? gen_call<zdouble>(g, s, kind) : gen_call<double>(g, s, kind));
    const auto& c = calls.back();
    many = many || c.h.n > 2 * c.h.nb;
    dumped = dumped || f.on[kind];
  }
  g.nontrivial_if(many && dumped && s.nranks() > 1);
  const auto nr = static_cast<std::size_t>(s.nranks());
  for (auto& c : calls)
    for (auto& o : c.out) {
      const auto n = c.h.n;
      c.complex ? (o.za = o.zb = o.zv = Dense<zdouble>(n, n), 0) : (o.a = o.b = o.v = Dense<double>(n, n), 0);
      const SizeType cols = c.kind == band_trid ? 2 : c.kind == trid || c.kind == eig || c.kind == gen_eig ? 1 : 0;
      o.w.assign(nr, Dense<double>(cols ? n : 0, cols));
    }
  // first with the dumps, then without
  for (int pass = 0; pass < 2; ++pass) {
    auto p = s;
    if (pass == 0) {
      const auto base = s.tune;
      p.tune = [base, f](dlaf::TuneParameters& t) {
        base(t);
        t.debug_dump_cholesky_factorization_data = f.on[chol];
        t.debug_dump_inverse_from_cholesky_factor_data = f.on[inv_chol];
        t.debug_dump_triangular_inverse_data = f.on[inv_tri];
        t.debug_dump_generalized_to_standard_data = f.on[gen_std];
        t.debug_dump_reduction_to_band_data = f.on[red_band];
        t.debug_dump_band_to_tridiagonal_data = f.on[band_trid];
        t.debug_dump_tridiag_solver_data = f.on[trid];
        t.debug_dump_eigensolver_data = f.on[eig];
        t.debug_dump_generalized_eigensolver_data = f.on[gen_eig];
      };
    }
    simh5::world() = simh5::World();
    simh5::world().numbered = true;
    run_setup(p, [&](CommunicatorGrid* grid) {
      const auto me = static_cast<std::size_t>(grid->rank().row() * s.cols + grid->rank().col());
      for (auto& c : calls)
        c.complex ? perform<zdouble>(c, c.out[pass], *grid, me) : perform<double>(c, c.out[pass], *grid, me);
    });
    if (pass == 0) {
      Reader r;
      for (auto& c : calls)
        c.complex ? judge<zdouble>(c, f, s, r) : judge<double>(c, f, s, r);
      PBT_EQ(simh5::world().files.size(), r.used, "files");
    }
    else
      PBT_EQ(simh5::world().files.size(), std::size_t(0), "files although no dump is asked for");
  }
  for (auto& c : calls) {
    const auto close = [&](const auto& x, const auto& y, const char* what) {
      double d = 0, m = 0;
      for (std::size_t i = 0; i < x.a.size(); ++i) {
        if (is_sentinel(x.a[i]) && is_sentinel(y.a[i]))
          continue;
        d = std::max(d, std::isnan(std::abs(x.a[i] - y.a[i])) ? std::numeric_limits<double>::infinity() : std::abs(x.a[i] - y.a[i]));
        m = std::max(m, std::abs(y.a[i]));
      }
      PBT_CHECK(d <= 1e-8 * (m + 1), kind_names[c.kind], ": ", what, " differ by ", d, " from those without dumps");
    };
    const auto &o = c.out[0], &q = c.out[1];
    if (c.kind <= gen_std) {
      close(o.a, q.a, "results");
      close(o.za, q.za, "results");
    }
    else if (c.kind >= trid)
      close(o.w[0], q.w[0], "eigenvalues");
  }
}
}  // namespace

PBT_SUB(history, 2000, 60000, "dumps on more than one rank, a matrix of more than two tiles") {
  case_history(g);
}
