// C44: the miniapps. They run as they are, on the simulated cluster: what they are asked on the command line is what
// they call, wait for and report. Oracle: a model of the output, read the way the scripts of the repository read it.
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>

#include <atomic>
#include <cmath>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>

#include <blas/util.hh>

#include <dlaf/init.h>
#include <dlaf/miniapp/dispatch.h>
#include <dlaf/miniapp/kernel_runner.h>
#include <dlaf/miniapp/options.h>
#include <dlaf/miniapp/scale_eigenvectors.h>
#include <dlaf/miniapp/work_tiles.h>

#include "algo.hpp"
#include "miniapp_probe.hpp"

// ---- the simulated processes share their globals: initialization of the library is not part of this check (C37)
namespace dlaf {
pika::program_options::options_description getOptionsDescription() {
  return pika::program_options::options_description("none");
}
namespace {
int live_scopes = 0;
}
ScopedInitializer::ScopedInitializer(const pika::program_options::variables_map&, const configuration&) {
  ++live_scopes;
}
ScopedInitializer::~ScopedInitializer() {
  --live_scopes;
}
}  // namespace dlaf

using namespace algo;

#define APPS(X)                                                                                              \
  X(cholesky) X(eigensolver) X(gen_eigensolver) X(gen_to_std) X(triangular_solver) X(triangular_multiplication) \
  X(inverse_from_cholesky_factor) X(triangular_inverse) X(reduction_to_band) X(band_to_tridiag)              \
  X(bt_band_to_tridiag) X(bt_reduction_to_band) X(tridiag_solver) X(redistribution) X(communication)          \
  X(laset) X(larft_gemv)
namespace {
// ---- what is observed
struct Observed {
  std::vector<std::vector<std::string>> calls;  // per rank
  std::vector<std::string> types;
  std::vector<long> pending, reads;
  bool early = false;
};
Observed seen;
probe::Harm the_harm;
}  // namespace
namespace probe {
const Harm& harm() {
  return the_harm;
}
void called(const std::string& words, char type) {
  const auto r = static_cast<std::size_t>(sim::cur_rank());
  seen.calls[r].push_back(words);
  if (type != '?')
    seen.types[r] += type;
}
void scheduled() {
  ++seen.pending[static_cast<std::size_t>(sim::cur_rank())];
}
void completed() {
  --seen.pending[static_cast<std::size_t>(sim::cur_rank())];
}
void time_read() {
  const auto r = static_cast<std::size_t>(sim::cur_rank());
  ++seen.reads[r];
  seen.early = seen.early || seen.pending[r] != 0;
}
}  // namespace probe

namespace {
// what is written, kept and passed on
struct Tee : std::stringbuf {
  std::streambuf* to;
  explicit Tee(std::streambuf* t) : to(t) {}
  int overflow(int c) override {
    to->sputc(static_cast<char>(c));
    return std::stringbuf::overflow(c);
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    to->sputn(s, n);
    return std::stringbuf::xsputn(s, n);
  }
  int sync() override {
    return to->pubsync();
  }
};
struct Captured {
  std::streambuf *o = std::cout.rdbuf(), *e = std::cerr.rdbuf();
  Tee out{e}, err{e};
  Captured() {
    std::cout.rdbuf(&out);
    std::cerr.rdbuf(&err);
  }
  ~Captured() {
    std::cout.rdbuf(o);
    std::cerr.rdbuf(e);
  }
};

// ---- a command line and what follows from it
struct Job {
  int app = 0;
  std::string name;
  int (*main)(int, char**) = nullptr;
  std::vector<std::string> args;
  int rows = 1, cols = 1;
  long nruns = 1, nwarmups = 1;
  int check = 0;  // none, last, all
  bool csv = false, local = false, has_check = false, gflops = true;
  char type = 'd';
  std::string info;
  unsigned threads = 1;
  std::string words;                       // of the call
  std::string report;                      // after the time and the performance
  std::map<std::string, std::string> csv_values;
  SizeType m = 0, n = 0, last = 0;         // size of the result, columns that count
  char uplo = 'L';
  double add_mul = 0;                      // number of additions, and of multiplications
};
std::string up(char c) {
  return std::string(1, static_cast<char>(std::toupper(c)));
}
template <class... A>
std::string str(const A&... a) {
  std::ostringstream s;
  (s << ... << a);
  return s.str();
}
std::string pair_of(SizeType a, SizeType b) {
  return str("(", a, ", ", b, ")");
}
std::string shape(SizeType m, SizeType n, SizeType mb, SizeType nb) {
  return str(m, "x", n, "/", mb, "x", nb);
}

int (*main_of(const std::string& name))(int, char**) {
  static void* lib = [] {
    char exe[4096];
    const auto n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    exe[n > 0 ? n : 0] = 0;
    void* h = dlopen(pbt::cat(exe, ".0.so").c_str(), RTLD_LAZY | RTLD_LOCAL);
    if (!h)
      pbt::harness_error(pbt::cat("dlopen: ", dlerror()));
    return h;
  }();
  const auto sym = "_Z" + std::to_string(name.size() + 13) + "miniapp_" + name + "_mainiPPc";
  void* p = dlsym(lib, sym.c_str());
  if (!p)
    pbt::harness_error(pbt::cat("no ", sym));
  return reinterpret_cast<int (*)(int, char**)>(p);
}
Job gen_job(Gen& g, std::vector<int> apps) {
  Job j;
  pika::sim_rt::state().initialized = true;
  static const std::vector<std::string> names{
#define ROW(n) #n,
      APPS(ROW)};
  j.app = g.pick_from(apps);
  j.name = names[static_cast<std::size_t>(j.app - 1)];
  j.main = main_of(j.name);
  const auto opt = [&](const std::string& o, const auto& v) {
    if (g.boolean())
      j.args.push_back(str("--", o, "=", v));
    else {
      j.args.push_back("--" + o);
      j.args.push_back(str(v));
    }
  };
  // values that are the default may be left out
  const auto opt_default = [&](const std::string& o, const auto& v, bool is_default) {
    if (!is_default || g.boolean())
      opt(o, v);
  };
  const auto letter = [&](char c) { return g.boolean() ? c : static_cast<char>(std::tolower(c)); };
  do {
    j.rows = static_cast<int>(g.pick({1, 2, 3, 1, 2}));
    j.cols = static_cast<int>(g.pick({1, 2, 3, 2, 1}));
  } while (j.rows * j.cols > 6);
  opt_default("grid-rows", j.rows, j.rows == 1);
  opt_default("grid-cols", j.cols, j.cols == 1);
  if (j.rows * j.cols == 1 && g.boolean()) {
    j.local = true;
    j.args.push_back("--local");
  }
  j.nruns = g.pick({1, 2, 3, 1});
  opt_default("nruns", j.nruns, j.nruns == 1);
  j.nwarmups = g.pick({1, 0, 2, 1});
  opt_default("nwarmups", j.nwarmups, j.nwarmups == 1);
  j.type = g.pick({'d', 'z'});
  opt_default("type", letter(static_cast<char>(std::toupper(j.type))), j.type == 'd');
  opt_default("backend", g.pick({"default", "mc"}), true);
  if (g.boolean()) {
    j.csv = true;
    j.args.push_back("--csv");
  }
  if (g.chance(1, 3)) {
    j.info = g.pick({"label, x", "a", "key, value, other key, 17"});
    opt("pp-info", j.info);
  }
  j.has_check = j.app <= 3;
  j.check = static_cast<int>(g.below(3));
  opt_default("check-result", j.check == 0 ? "none" : j.check == 1 ? "last" : "all", j.check == 0);

  // sizes
  const SizeType max = j.app == 2 || j.app == 3 ? 14 : 20;
  // bands are not narrower than 2
  const bool banded = j.app == 2 || j.app == 3 || (j.app >= 9 && j.app <= 12);
  const SizeType nb = g.range(banded ? 2 : 1, 6);
  SizeType m = std::max<SizeType>(1, gen_size(g, nb, max));
  const std::string T = up(j.type);  // as it is reported
  const std::string t(1, j.type);
  auto& c = j.csv_values;
  const auto square = [&] {
    if (j.app == 1 && j.check != 0 && g.boolean())
      m = nb * g.range(1, 4);
    opt("matrix-size", m);
    opt("block-size", nb);
    c["matrixsize"] = str(m);
    c["blocksize"] = str(nb);
    j.m = j.n = j.last = m;
  };
  const auto the_uplo = [&](bool upper) {
    j.uplo = upper && g.boolean() ? 'U' : 'L';
    opt_default("uplo", letter(j.uplo), j.uplo == 'L');
    c["uplo"] = j.uplo == 'L' ? "Lower" : "Upper";
  };
  const auto evals = [&](SizeType n) {
    SizeType e = n;
    switch (g.below(3)) {
      case 1:
        e = g.range(0, n);
        opt("eval-index-end", e);
        break;
      case 2: {
        const double percent = g.pick({100., 50., 0., 37.5, 99., 1.});
        opt("percent-evals", percent);
        e = static_cast<SizeType>(std::floor(static_cast<double>(n) * percent / 100. + .5));
        break;
      }
      default:
        break;
    }
    j.last = e;
    return e;
  };
  const auto band_of = [&](SizeType b) {
    std::vector<SizeType> d;
    for (SizeType i = 2; i <= b; ++i)
      if (b % i == 0)
        d.push_back(i);
    return g.pick_from(d);
  };
  const std::string grid = j.local ? "" : str("grid(", j.rows, "x", j.cols, ") ");
  const std::string mat = shape(m, m, nb, nb);
  std::string kind = t, size, tail;
  const auto cube = [](SizeType x) { return static_cast<double>(x * x * x); };
  switch (j.app) {
    case 1:
      square();
      if (m % nb)
        j.has_check = false;
      // known finding: the check of an upper factor is not there, the miniapp aborts
      the_uplo(j.check == 0 || !j.has_check);
      j.add_mul = cube(m) / 6;
      j.words = str(j.uplo, " ", shape(m, m, nb, nb));
      kind += j.uplo;
      size = pair_of(m, m) + " " + pair_of(nb, nb);
      break;
    case 2:
    case 3: {
      square();
      the_uplo(false);
      const auto e = evals(m);
      j.words = str(j.uplo, " ", mat, j.app == 3 ? " " + mat : "", " 0 ", e);
      kind += j.uplo;
      dlaf::TuneParameters defaults;
      SizeType band = 0;  // the smallest divisor of the block that is not below the smallest band
      for (band = 1; band < nb && (nb % band || band < defaults.eigensolver_min_band); ++band) {}
      size = pair_of(m, m) + " " + pair_of(0, e) + " " + pair_of(nb, nb) + " " + str(band);
      c["bandsize"] = str(band);
      j.gflops = false;
      if (j.app == 2)
        c["first eigenvalue index"] = "0", c["last eigenvalue index"] = str(e);
      else
        c["eigenvalue index begin"] = "0", c["eigenvalue index end"] = str(e);
      break;
    }
    case 4:
      square();
      j.add_mul = cube(m) / 2;
      the_uplo(true);
      j.words = str(j.uplo, " ", mat, " ", mat);
      kind += j.uplo;
      size = pair_of(m, m) + " " + pair_of(nb, nb);
      break;
    case 5:
    case 6: {
      const SizeType mb = nb, n_b = g.range(1, 6), n = std::max<SizeType>(1, gen_size(g, n_b, max));
      opt("m", m);
      opt("n", n);
      opt("mb", mb);
      opt("nb", n_b);
      const char side = g.pick({'L', 'R'});
      const char op = j.app == 6 && !j.local ? 'N' : g.pick({'N', 'T', 'C'});
      const char diag = g.pick({'N', 'U'});
      opt_default("side", letter(side), side == 'L');
      opt_default("op", letter(op), op == 'N');
      opt_default("diag", letter(diag), diag == 'N');
      the_uplo(true);
      const SizeType e = j.app == 5 && side == 'L' ? evals(n) : n;
      j.add_mul = static_cast<double>((side == 'L' ? m : n) * m * e) / 2;
      const SizeType k = side == 'L' ? m : n, kb = side == 'L' ? mb : n_b;
      j.words = str(side, " ", j.uplo, " ", op, " ", diag, " *2 ", shape(k, k, kb, kb), " ", shape(m, e, mb, n_b));
      kind += str(side, j.uplo, op, diag);
      size = pair_of(m, n) + (j.app == 5 ? " " + pair_of(0, e) : "") + " " + pair_of(mb, n_b);
      c["side"] = side == 'L' ? "Left" : "Right";
      c["op"] = op == 'N' ? "NoTrans" : op == 'T' ? "Trans" : "ConjTrans";
      c["diag"] = diag == 'N' ? "NonUnit" : "Unit";
      c["matrixsize"] = str(m);
      c["blocksize"] = str(mb);
      if (j.app == 5)
        c["eigenvalue index begin"] = "0", c["eigenvalue index end"] = str(e);
      break;
    }
    case 7:
      square();
      j.add_mul = cube(m) / 3;
      the_uplo(true);
      j.words = str(j.uplo, " ", mat);
      kind += j.uplo;
      size = pair_of(m, m) + " " + pair_of(nb, nb);
      break;
    case 8: {
      square();
      j.add_mul = cube(m) / 6;
      the_uplo(true);
      const char diag = g.pick({'N', 'U'});
      opt_default("diag", letter(diag), diag == 'N');
      j.words = str(j.uplo, " ", diag, " ", mat);
      kind += j.uplo;
      c["diag"] = diag == 'N' ? "NonUnit" : "Unit";
      size = pair_of(m, m) + " " + pair_of(nb, nb);
      break;
    }
    case 9: {
      square();
      SizeType b = nb;
      if (g.boolean())
        opt("band-size", g.pick({-1, -3}));
      else if (g.boolean())
        opt("band-size", b = band_of(nb));
      j.words = str(mat, " ", b);
      j.add_mul = 2. / 3. * cube(m) - static_cast<double>(m * m * b);
      size = pair_of(m, m) + " " + pair_of(nb, nb) + " " + str(b);
      c["band_size"] = str(b);
      break;
    }
    case 10: {
      square();
      the_uplo(false);
      const auto b = band_of(nb);
      opt("band-size", b);
      j.add_mul = static_cast<double>(3 * m * m * b);
      j.words = str(j.uplo, " ", b, " ", mat);
      kind += j.uplo;
      size = pair_of(m, m) + " " + pair_of(nb, nb) + " " + str(b);
      c["band_size"] = str(b);
      break;
    }
    case 11:
    case 12: {
      const SizeType n_b = g.range(1, 6), n = std::max<SizeType>(1, gen_size(g, n_b, max));
      opt("m", m);
      opt("n", n);
      opt("mb", nb);
      opt("nb", n_b);
      const auto b = band_of(nb);
      opt("b", b);
      const auto e = evals(n);
      j.add_mul = j.app == 11 ? static_cast<double>(m * m * e) : static_cast<double>((m - b) * (m - b) * e);
      j.words = str(b, " ", shape(m, e, nb, n_b), " ", mat);
      if (j.app == 12)
        j.words += " " + shape(std::max<SizeType>(0, m - b - 1), 1, nb, 1);
      size = pair_of(m, n) + " " + pair_of(0, e) + " " + pair_of(nb, n_b) + " " + str(b);
      c["matrixsize"] = str(m);
      c["blocksize"] = str(nb);
      c["band_size"] = str(b);
      c["eigenvalue index begin"] = "0", c["eigenvalue index end"] = str(e);
      break;
    }
    case 13:
      square();
      j.words = str(shape(m, 2, nb, 2), " ", shape(m, 1, nb, 1), " ", mat);
      size = pair_of(m, 2) + " " + pair_of(nb, 2);
      j.gflops = false;
      break;
    case 14: {
      // one is a multiple of the other
      SizeType b1 = std::min(m, nb), b2 = b1 * g.range(1, m / b1);
      if (g.boolean())
        std::swap(b1, b2);
      opt("matrix-size", m);
      opt("block-size", b1);
      opt("block-size-dst", b2);
      size = pair_of(m, m) + " " + pair_of(b1, b1) + " -> " + pair_of(b2, b2);
      c["matrixsize"] = str(m);
      c["blocksize_src"] = str(b1);
      c["blocksize_dst"] = str(b2);
      j.gflops = false;
      break;
    }
    default:
      break;
  }
  j.words = grid + j.words;
  // the order of the options is free
  // (an option and its value stay together)
  std::vector<std::vector<std::string>> units;
  for (const auto& a : j.args)
    if (a.rfind("--", 0) == 0)  // negative values have one dash
      units.push_back({a});
    else
      units.back().push_back(a);
  for (std::size_t i = units.size(); i > 1; --i)
    std::swap(units[i - 1], units[static_cast<std::size_t>(g.below(i))]);
  j.args.clear();
  for (const auto& u : units)
    for (const auto& a : u)
      j.args.push_back(a);
  j.args.insert(j.args.begin(), "miniapp");
  g << j.name;
  for (std::size_t i = 1; i < j.args.size(); ++i)
    g << " " << j.args[i];
  j.report = kind + " " + size + " " + pair_of(j.rows, j.cols);
  (void) T;
  return j;
}

struct Output {
  std::string out, err;
  std::vector<int> status;
};
// ---- the miniapp of communication
Job gen_communication(Gen& g) {
  Job j;
  j.app = 15;
  j.name = "communication";
  j.main = main_of(j.name);
  do {
    j.rows = static_cast<int>(g.pick({1, 2, 3, 4, 2}));
    j.cols = static_cast<int>(g.pick({1, 2, 3, 2, 1}));
  } while (j.rows * j.cols > 6);
  j.nruns = g.pick({1, 2});
  j.nwarmups = g.pick({0, 1});
  j.type = g.pick({'d', 'z'});
  const SizeType nb = g.range(1, 6);
  j.m = std::max<SizeType>(1, gen_size(g, nb, 14));
  j.args = {"miniapp",
            str("--grid-rows=", j.rows),
            str("--grid-cols=", j.cols),
            str("--nruns=", j.nruns),
            str("--nwarmups=", j.nwarmups),
            str("--type=", j.type),
            str("--matrix-size=", j.m),
            str("--block-size=", nb)};
  j.report = str(j.type, " ", j.m, " ", nb, " ", pair_of(j.rows, j.cols));
  for (std::size_t i = 1; i < j.args.size(); ++i)
    g << " " << j.args[i];
  return j;
}
Output run_job(Gen& g, Job& j) {
  const int nranks = j.rows * j.cols;
  auto cfg = gen_config(g, nranks);
  j.threads = cfg.os_threads;
  seen = Observed{};
  seen.calls.resize(static_cast<std::size_t>(nranks));
  seen.types.resize(static_cast<std::size_t>(nranks));
  seen.pending.resize(static_cast<std::size_t>(nranks));
  seen.reads.resize(static_cast<std::size_t>(nranks));
  Output o;
  o.status.assign(static_cast<std::size_t>(nranks), -99);
  simmpi::process() = simmpi::Process{};
  pika::sim_rt::state().initialized = true;
  dlaf::getTuneParameters() = dlaf::TuneParameters{};
  const auto live = simmem::counts().live;
  {
    Captured cap;
    sim_run(cfg, [&](int r) {
      std::vector<std::string> words = j.args;
      std::vector<char*> argv;
      for (auto& w : words)
        argv.push_back(w.data());
      const int argc = static_cast<int>(argv.size());
      argv.push_back(nullptr);
      pika::sim_rt::state().initialized = true;
      o.status[static_cast<std::size_t>(r)] = j.main(argc, argv.data());
      sim::wait_rank_idle();
    });
    o.out = cap.out.str();
    o.err = cap.err.str();
  }
  PBT_EQ(simmem::counts().live, live, "memory is still allocated at the end");
  PBT_EQ(simmpi::process().inits, nranks, "MPI is initialized once per process");
  PBT_EQ(simmpi::process().finalizes, nranks, "MPI is finalized once per process");
  for (int r = 0; r < nranks; ++r)
    PBT_EQ(o.status[static_cast<std::size_t>(r)], 0, "exit status of rank ", r);
  return o;
}
// words separated by single spaces
std::string squeeze(const std::string& s) {
  std::istringstream in(s);
  std::string w, r;
  while (in >> w)
    r += (r.empty() ? "" : " ") + w;
  return r;
}
double number(const std::string& s, const std::string& what) {
  std::size_t used = 0;
  double v = -1;
  try {
    v = std::stod(s, &used);
  }
  catch (...) {
  }
  PBT_CHECK(used == s.size() && !s.empty(), what, " is not a number: ", s);
  return v;
}
// operations of the kind that is timed, real ones (a complex addition has 2 of them, a multiplication 6)
void performance(const Job& j, double gflops, const std::string& elapsed, const std::string& line) {
  const double ops = j.add_mul * (j.type == 'd' ? 2 : 8), t = number(elapsed, "time");
  // both are written with 6 digits
  PBT_CHECK(std::abs(gflops * 1e9 * t - ops) <= 3e-5 * std::abs(ops), "performance ", gflops, " GFlop/s in ", t, " s, but ",
            ops, " operations: ", line);
}
struct Verdicts {
  long n = 0, errors = 0, warnings = 0;
};
Verdicts check_output(const Job& j, const Output& o) {
  Verdicts v;
  // lines: [run], the report of the run, its CSV line, its verdict
  std::istringstream in(o.out);
  std::string line;
  long run = -1, reports = 0, csvs = 0;
  bool reported = true;
  long verdicts_before_runs = 0;
  std::string elapsed;
  while (std::getline(in, line)) {
    line = squeeze(line);
    if (line.empty())
      continue;
    if (line.find("Max Diff / Max A") != std::string::npos) {
      ++v.n;
      if (run < 0)
        ++verdicts_before_runs;
      else
        PBT_CHECK(reported, "a verdict before the report of its run: ", line);
      v.errors += line.find("ERROR") != std::string::npos;
      v.warnings += line.find("Warning") != std::string::npos;
      const auto colon = line.rfind(": ");
      const double ratio = number(line.substr(colon + 2), "ratio");
      PBT_CHECK(ratio >= 0, "ratio ", line);
      continue;
    }
    if (line.rfind("CSVData-2, ", 0) == 0) {
      PBT_CHECK(reported && csvs == reports - 1, "a CSV line that belongs to no report: ", line);
      ++csvs;
      std::vector<std::string> f;
      std::string rest = line.substr(11), piece;
      for (std::size_t p = 0;;) {
        const auto q = rest.find(", ", p);
        f.push_back(rest.substr(p, q == std::string::npos ? q : q - p));
        if (q == std::string::npos)
          break;
        p = q + 2;
      }
      if (!f.empty() && !f.back().empty() && f.back().back() == ',')  // no information: a trailing comma
        f.back().pop_back(), f.push_back("");
      std::size_t end = f.size();
      if (j.info.empty()) {
        if (end % 2 == 1 && f.back().empty())
          --end;
      }
      else {
        PBT_CHECK(rest.size() >= j.info.size() && rest.substr(rest.size() - j.info.size()) == j.info,
                  "the line does not end with the information for post processing: ", line);
        std::size_t extra = 1;
        for (std::size_t p = 0; (p = j.info.find(", ", p)) != std::string::npos; p += 2)
          ++extra;
        end -= extra;
      }
      PBT_CHECK(end % 2 == 0, "the line is not made of titles and values: ", line);
      std::map<std::string, std::string> values;
      for (std::size_t i = 0; i + 1 < end; i += 2) {
        std::string k = f[i];
        if (k == "UpLo")
          k = "uplo";
        PBT_CHECK(!values.count(k), "two values with the title ", k, ": ", line);
        values[k] = f[i + 1];
      }
      auto want = j.csv_values;
      want["run"] = str(run);
      want["time"] = elapsed;
      want["type"] = j.type == 'd' ? "Double" : "ComplexDouble";
      want["comm_rows"] = str(j.rows);
      want["comm_cols"] = str(j.cols);
      want["threads"] = str(j.threads);
      want["backend"] = "MC";
      for (const auto& [k, x] : want) {
        PBT_CHECK(values.count(k), "no value with the title ", k, ": ", line);
        PBT_EQ(values[k], x, k, " in ", line);
      }
      if (j.gflops)
        performance(j, number(values["GFlops"], "GFlops"), elapsed, line);
      continue;
    }
    PBT_CHECK(line[0] == '[', "unexpected output: ", line);
    const auto close = line.find(']');
    PBT_CHECK(close != std::string::npos, "unexpected output: ", line);
    const std::string index = line.substr(1, close - 1), rest = squeeze(line.substr(close + 1));
    if (rest.empty()) {
      PBT_CHECK(reported, "run ", run, " has no report");
      ++run;
      PBT_EQ(index, str(run), "index of the run");
      reported = false;
      continue;
    }
    PBT_CHECK(!reported, "a second report of a run: ", line);
    reported = true;
    ++reports;
    PBT_EQ(index, str(run), "index of the run in its report");
    std::istringstream words(rest);
    std::string w;
    words >> w;
    PBT_CHECK(w.size() > 1 && w.back() == 's', "no time: ", line);
    w.pop_back();
    elapsed = w;
    const double t = number(w, "time");
    PBT_CHECK(t >= 0, "time ", line);
    if (j.gflops) {
      words >> w;
      PBT_CHECK(w.size() > 7 && w.substr(w.size() - 7) == "GFlop/s", "no performance: ", line);
      performance(j, number(w.substr(0, w.size() - 7), "performance"), elapsed, line);
    }
    std::string tail;
    std::getline(words, tail);
    PBT_EQ(squeeze(tail), str(j.report, " ", j.threads, " MC"), "report");
  }
  PBT_EQ(run, j.nruns - 1, "last run");
  PBT_CHECK(reported, "the last run has no report");
  PBT_EQ(csvs, j.csv ? j.nruns : 0L, "number of CSV lines");
  if (j.check == 0 || !j.has_check)
    PBT_EQ(v.n, 0L, "number of verdicts");
  else {
    PBT_EQ(v.n, j.check == 1 ? 1L : j.nruns + j.nwarmups, "number of verdicts");
    PBT_EQ(verdicts_before_runs, j.check == 1 ? 0L : j.nwarmups, "verdicts on warm up runs");
  }
  // the work
  for (std::size_t r = 0; r < seen.calls.size(); ++r) {
    if (j.app != 14) {
      PBT_EQ(static_cast<long>(seen.calls[r].size()), j.nruns + j.nwarmups, "calls of the algorithm, rank ", r);
      for (const auto& w : seen.calls[r])
        PBT_EQ(w, j.words, "arguments of the algorithm");
      for (const char t : seen.types[r])
        PBT_EQ(t, j.type, "type of the elements");
    }
    PBT_EQ(seen.pending[r], 0L, "work that is not done at the end");
  }
  PBT_CHECK(!seen.early, "the time was read before the result was complete");
  const bool warned = o.err.find("Warning!") != std::string::npos;
  PBT_EQ(warned, j.check != 0 && !j.has_check && j.app != 14, "warning about result checking: ", o.err);
  return v;
}
}  // namespace

PBT_SUB(runs, 3600, 70000, "more than one process, run or kind of output") {
  std::vector<int> apps;
  for (int a = 1; a <= 14; ++a)
    apps.push_back(a);
  auto j = gen_job(g, apps);
  g.nontrivial_if(j.rows * j.cols > 1 || j.nruns > 1 || j.csv);
  the_harm = {};
  const auto o = run_job(g, j);
  const auto v = check_output(j, o);
  g.label(j.name);
  PBT_EQ(v.errors, 0L, "verdicts against right results: ", o.out);
}

PBT_SUB(verdicts, 2000, 40000, "always: results with a wrong element, checked") {
  auto j = gen_job(g, {1, 2, 3});
  if (j.check == 0 || !j.has_check || j.m < 2)
    return;
  the_harm = {};
  the_harm.on = true;
  the_harm.row = g.range(0, j.m - 1);
  the_harm.col = g.range(0, j.n - 1);
  the_harm.by = g.pick({1., -1., 1e-3, 16., 1e-8, -1e-8});
  const bool counts = j.app == 1 ? the_harm.row >= the_harm.col : the_harm.col < j.last;
  g << " harm (" << the_harm.row << ", " << the_harm.col << ") by " << the_harm.by;
  g.nontrivial();
  g.label(counts ? "counts" : "does not count");
  const auto o = run_job(g, j);
  the_harm = {};
  const auto v = check_output(j, o);
  PBT_EQ(v.errors, counts ? v.n : 0L, counts ? "verdicts against wrong results: " : "verdicts against right results: ", o.out);
}

// ---- the scripts that run the miniapps and read what they print
namespace {
#define TEXT_(x) #x
#define TEXT(x) TEXT_(x)
struct Scripts {
  FILE *to = nullptr, *from = nullptr;
  pid_t owner = -1;
  void start() {
    int a[2], b[2];
    if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC))
      pbt::harness_error("pipe");
    const pid_t p = fork();
    if (p == 0) {
      dup2(a[0], 0);
      dup2(b[1], 1);
      execlp("python3", "python3", TEXT(VERIF_CHECKS) "/scripts_helper.py", TEXT(DLAF_SCRIPTS), nullptr);
      _exit(127);
    }
    close(a[0]);
    close(b[1]);
    to = fdopen(a[1], "w");
    from = fdopen(b[0], "r");
    owner = getpid();
  }
  std::string ask(const std::string& request) {
    if (owner != getpid())
      start();
    std::fprintf(to, "%s\n", request.c_str());
    std::fflush(to);
    std::string r;
    for (int c; (c = std::fgetc(from)) != EOF;) {
      if (c == '\n')
        return r;
      r += static_cast<char>(c);
    }
    PBT_CHECK(false, "the scripts stop: ", request);
    return r;
  }
};
Scripts scripts;
}  // namespace

PBT_SUB(scripts, 1000, 20000, "more than one process") {
  struct Alg {
    const char *alg, *bench, *app;
    bool rect, band, evals;
  };
  static const std::vector<Alg> algs{{"chol", "chol", "cholesky", false, false, false},
                                     {"trsm", "trsm", "triangular_solver", true, false, true},
                                     {"trmm", "trmm", "triangular_multiplication", true, false, false},
                                     {"gen2std", "hegst", "gen_to_std", false, false, false},
                                     {"red2band", "red2band", "reduction_to_band", false, true, false},
                                     {"band2trid", "band2trid", "band_to_tridiag", false, true, false},
                                     {"trid_evp", "trid_evp", "tridiag_solver", false, false, false},
                                     {"bt_band2trid", "bt_band2trid", "bt_band_to_tridiag", true, true, true},
                                     {"bt_red2band", "bt_red2band", "bt_reduction_to_band", true, true, true},
                                     {"evp", "evp", "eigensolver", false, false, true},
                                     {"gevp", "gevp", "gen_eigensolver", false, false, true}};
  const auto& a = g.pick_from(algs);
  const bool solver = a.alg == std::string("evp") || a.alg == std::string("gevp");
  const int rpn = static_cast<int>(g.pick({1, 2, 3})), nodes = static_cast<int>(g.range(1, 6 / rpn));
  const SizeType nb = g.range(2, 6), m = std::max<SizeType>(1, gen_size(g, nb, 14)), n = std::max<SizeType>(1, gen_size(g, nb, 14));
  const bool same = g.boolean(), whole = g.boolean();
  std::vector<SizeType> bands;
  for (SizeType b = 2; b <= nb; ++b)
    if (nb % b == 0)
      bands.push_back(b);
  const SizeType band = whole ? nb : g.pick_from(bands), cols = a.rect && !same ? n : m;
  const long nruns = g.pick({1, 2, 3});
  const char type = g.pick({'d', 'z'});
  const std::string extra = g.pick({"", "--nwarmups 0", "--nwarmups=2", "--csv", "--backend mc", "--csv --nwarmups 0"});
  std::string params = str("\"rpn\": ", rpn, ", \"m_sz\": ", m, ", \"mb_sz\": ", nb);
  if (a.rect)
    params += same ? ", \"n_sz\": null" : str(", \"n_sz\": ", n);
  if (a.band)
    params += whole ? ", \"band\": null" : str(", \"band\": ", band);
  g << a.alg << " nodes " << nodes << " " << params << " " << extra;
  g.nontrivial_if(nodes * rpn > 1);
  g.label(a.alg);
  std::istringstream command(scripts.ask(str("{\"do\": \"command\", \"alg\": \"", a.alg, "\", \"nodes\": ", nodes, ", \"nruns\": ",
                                             nruns, ", \"extra\": \"", extra, "\", \"dtype\": \"", type, "\", \"params\": {", params, "}}")));
  Job j;
  for (std::string w; command >> w && w != ">>";)
    j.args.push_back(w);
  PBT_CHECK(!j.args.empty(), "no command");
  PBT_EQ(j.args[0], str("/apps/miniapp_", a.app), "application");
  std::istringstream output(std::string(std::istreambuf_iterator<char>(command), {}));
  j.name = a.app;
  pika::sim_rt::state().initialized = true;
  j.main = main_of(j.name);
  for (std::size_t i = 1; i + 1 < j.args.size(); ++i) {
    if (j.args[i] == "--grid-rows")
      j.rows = std::stoi(j.args[i + 1]);
    if (j.args[i] == "--grid-cols")
      j.cols = std::stoi(j.args[i + 1]);
  }
  PBT_EQ(j.rows * j.cols, nodes * rpn, "processes in the grid");
  the_harm = {};
  const auto o = run_job(g, j);
  std::string lines;
  std::istringstream in(o.out);
  for (std::string l; std::getline(in, l);) {
    PBT_CHECK(l.find_first_of("\"\\\t") == std::string::npos, "a line that can not be passed on: ", l);
    lines += (lines.empty() ? "\"" : ", \"") + l + "\"";
  }
  const auto answer = scripts.ask(str("{\"do\": \"parse\", \"bench\": \"", a.bench, "_dlaf_x\", \"nodes\": ", nodes, ", \"lines\": [", lines, "]}"));
  std::istringstream records(answer);
  long count = 0;
  for (std::string record; std::getline(records, record, '|'); ++count) {
    std::map<std::string, std::string> v;
    std::istringstream fields(record);
    for (std::string f; std::getline(fields, f, ';');)
      v[f.substr(0, f.find('='))] = f.substr(f.find('=') + 1);
    std::map<std::string, std::string> want{{"run_index", str(count)},    {"bench_name", str(a.bench, "_dlaf_x")},
                                            {"nodes", str(nodes)},        {"matrix_rows", str(m)},
                                            {"block_rows", str(nb)},      {"grid_rows", str(j.rows)},
                                            {"grid_cols", str(j.cols)},   {"backend", "MC"}};
    if (a.alg != std::string("trid_evp"))  // there it is the size of the tridiagonal matrix: two columns
      want["matrix_cols"] = str(cols), want["block_cols"] = str(nb);
    if (a.band)
      want["band"] = str(band);
    if (a.evals)
      want["from_ev"] = "0", want["to_ev"] = str(cols);
    for (const auto& [k, x] : want) {
      PBT_CHECK(v.count(k), "not read from the output: ", k, ": ", o.out);
      PBT_EQ(v[k], x, k, " as read from ", o.out);
    }
    PBT_CHECK(v["matrix_type"][0] == type, "type ", v["matrix_type"]);
    PBT_CHECK(number(v["time"], "time") >= 0, "time");
    if (!solver && a.alg != std::string("trid_evp"))
      PBT_CHECK(std::abs(number(v["perf_per_node"], "performance") * nodes - number(v["perf"], "performance")) <=
                    1e-9 * std::abs(number(v["perf"], "performance")), "performance per node");
  }
  PBT_EQ(count, nruns, "runs that are read from the output: ", o.out);
}

// ---- what is refused
namespace {
// removes an option with its value
void drop(std::vector<std::string>& args, const std::string& o) {
  for (std::size_t i = 0; i < args.size(); ++i)
    if (args[i] == "--" + o || args[i].rfind("--" + o + "=", 0) == 0) {
      const bool value_follows = args[i] == "--" + o && i + 1 < args.size() && args[i + 1].rfind("--", 0) != 0;
      args.erase(args.begin() + static_cast<std::ptrdiff_t>(i),
                 args.begin() + static_cast<std::ptrdiff_t>(i + (value_follows ? 2 : 1)));
      return;
    }
}
bool has(const std::vector<std::string>& args, const std::string& o) {
  for (const auto& a : args)
    if (a == "--" + o || a.rfind("--" + o + "=", 0) == 0)
      return true;
  return false;
}
}  // namespace

PBT_SUB(refusals, 120, 2500, "always: one option has a value that is not allowed") {
  std::vector<int> apps;
  for (int a = 1; a <= 14; ++a)
    apps.push_back(a);
  auto j = gen_job(g, apps);
  for (const auto* o : {"grid-rows", "grid-cols", "local"})
    drop(j.args, o);
  j.rows = j.cols = 1;
  struct Bad {
    const char* option;
    std::vector<std::string> values;
    std::set<int> apps;
  };
  const std::set<int> square{1, 2, 3, 4, 7, 8, 9, 10, 13, 14}, rect{5, 6, 11, 12}, evals{2, 3, 5, 11, 12}, tri{5, 6},
      uplo{1, 2, 3, 4, 5, 6, 7, 8, 10};
  const std::set<int> all(apps.begin(), apps.end());
  const auto too_many = str(std::max(j.m, j.n) + 25);
  const std::vector<Bad> bads{{"grid-rows", {"0", "-1"}, all},
                              {"grid-cols", {"0", "-2"}, all},
                              {"nruns", {"0", "-1"}, all},
                              {"nwarmups", {"-1", "-5"}, all},
                              {"type", {"x", "dd", "double", "1", "sd"}, all},
                              {"backend", {"MC", "gpu", "cpu", "m", "defaults"}, all},
                              {"check-result", {"yes", "ALL", "0", "first"}, all},
                              {"matrix-size", {"0", "-4"}, square},
                              {"block-size", {"0", "-4"}, square},
                              {"m", {"0", "-4"}, rect},
                              {"mb", {"0", "-4"}, rect},
                              {"n", {"0", "-4"}, tri},
                              {"nb", {"0", "-4"}, tri},
                              {"uplo", {"X", "LU", "lower", "1", "N"}, uplo},
                              {"side", {"X", "LR", "U", "left"}, tri},
                              {"op", {"X", "NT", "H", "U"}, tri},
                              {"diag", {"X", "L", "NU", "unit"}, {5, 6, 8}},
                              {"band-size", {"0", "7", "400"}, {9, 10}},
                              {"b", {"0", "7", "-1"}, {11}},
                              {"block-size-dst", {"0", "-1", "400"}, {14}},
                              {"eval-index-end", {"-1", too_many}, evals},
                              {"local", {}, all},
                              {"percent-evals", {}, evals}};
  std::vector<const Bad*> usable;
  for (const auto& b : bads)
    if (b.apps.count(j.app))
      usable.push_back(&b);
  const auto& bad = *g.pick_from(usable);
  const std::string o = bad.option;
  drop(j.args, o);
  if (o == "local") {
    j.args.push_back("--local");
    const int r = static_cast<int>(g.range(1, 2)), c = r == 1 ? 2 : 1;
    j.args.push_back(str("--grid-rows=", r));
    j.args.push_back(str("--grid-cols=", c));
  }
  else if (o == "percent-evals") {
    drop(j.args, "eval-index-end");
    j.args.push_back("--percent-evals=50");
    j.args.push_back("--eval-index-end=1");
  }
  else {
    if (o == "eval-index-end")
      drop(j.args, "percent-evals");
    j.args.push_back(str("--", o, "=", g.pick_from(bad.values)));
  }
  g << " refused: " << o;
  for (std::size_t i = 1; i < j.args.size(); ++i)
    g << " " << j.args[i];
  g.label(o);
  g.nontrivial();
  const auto config = gen_config(g, 1);
  auto run = [&] {
    Captured cap;
    sim_run(config, [&](int) {
      std::vector<std::string> words = j.args;
      std::vector<char*> argv;
      for (auto& w : words)
        argv.push_back(w.data());
      const int argc = static_cast<int>(argv.size());
      argv.push_back(nullptr);
      j.main(argc, argv.data());
      sim::wait_rank_idle();
    });
  };
  seen = Observed{};
  seen.calls.resize(1);
  seen.types.resize(1);
  seen.pending.resize(1);
  seen.reads.resize(1);
  the_harm = {};
  simmpi::process() = simmpi::Process{};
  PBT_CHECK(o == "percent-evals" ? pbt::dies(run) : pbt::aborts(run), j.name, " accepted a value of ", o,
            " that is not allowed");
}

// ---- the values of options
namespace {
using dlaf::Backend;
using dlaf::miniapp::CheckIterFreq;
using dlaf::miniapp::ElementType;
using dlaf::miniapp::SupportComplex;
using dlaf::miniapp::SupportReal;
std::string gen_word(Gen& g, const std::vector<std::string>& near) {
  std::string w = g.chance(1, 6) ? std::string() : g.pick_from(near);
  switch (g.below(7)) {
    case 0:
      for (auto& c : w)
        c = static_cast<char>(std::toupper(c));
      break;
    case 1:
      w += g.pick({'a', ' ', 'd', 'L', '0'});
      break;
    case 2:
      if (!w.empty())
        w.pop_back();
      break;
    case 3:
      w = std::string(1, static_cast<char>(g.range(1, 255)));
      break;
    case 4:
      for (auto& c : w)
        c = static_cast<char>(std::tolower(c));
      break;
    default:
      break;
  }
  return w;
}
// allowed: the value; else terminate
template <class F, class V>
void check_word(const F& parse, const std::map<std::string, V>& allowed, const std::string& w) {
  const auto it = allowed.find(w);
  if (it == allowed.end()) {
    PBT_CHECK(pbt::aborts([&] { (void) parse(w); }), "accepted '", w, "'");
    return;
  }
  PBT_CHECK(parse(w) == it->second, "wrong value for '", w, "'");
}
template <class E>
std::map<std::string, E> either_case(std::initializer_list<E> es) {
  std::map<std::string, E> m;
  for (const E e : es) {
    m[std::string(1, static_cast<char>(std::toupper(static_cast<char>(e))))] = e;
    m[std::string(1, static_cast<char>(std::tolower(static_cast<char>(e))))] = e;
  }
  return m;
}
}  // namespace

PBT_SUB(option_values, 3000, 6000, "the value is one that is allowed") {
  namespace dm = dlaf::miniapp;
  const int kind = static_cast<int>(g.below(8));
  const std::vector<std::string> letters{"L", "U", "G", "N", "T", "C", "R", "S", "D", "Z"};
  const std::string w = gen_word(g, kind == 6   ? std::vector<std::string>{"default", "mc", "gpu"}
                                    : kind == 7 ? std::vector<std::string>{"none", "last", "all"}
                                                : letters);
  g << kind << " '" << w << "'";
  g.nontrivial_if(w.size() == 1 || w == "default" || w == "mc" || w == "none" || w == "last" || w == "all");
  switch (kind) {
    case 0:
      check_word(dm::parseLayout, either_case({blas::Layout::ColMajor, blas::Layout::RowMajor}), w);
      break;
    case 1:
      check_word(dm::parseOp, either_case({blas::Op::NoTrans, blas::Op::Trans, blas::Op::ConjTrans}), w);
      break;
    case 2:
      check_word(dm::parseUplo, either_case({blas::Uplo::Lower, blas::Uplo::Upper, blas::Uplo::General}), w);
      break;
    case 3:
      check_word(dm::parseDiag, either_case({blas::Diag::NonUnit, blas::Diag::Unit}), w);
      break;
    case 4:
      check_word(dm::parseSide, either_case({blas::Side::Left, blas::Side::Right}), w);
      break;
    case 5: {
      const std::map<std::string, ElementType> real{{"s", ElementType::Single}, {"S", ElementType::Single},
                                                    {"d", ElementType::Double}, {"D", ElementType::Double}},
          complex{{"c", ElementType::ComplexSingle}, {"C", ElementType::ComplexSingle},
                  {"z", ElementType::ComplexDouble}, {"Z", ElementType::ComplexDouble}};
      auto both = real;
      both.insert(complex.begin(), complex.end());
      switch (g.below(3)) {
        case 0:
          check_word(dm::parseElementType<SupportReal::Yes, SupportComplex::No>, real, w);
          break;
        case 1:
          check_word(dm::parseElementType<SupportReal::No, SupportComplex::Yes>, complex, w);
          break;
        default:
          check_word(dm::parseElementType<SupportReal::Yes, SupportComplex::Yes>, both, w);
          break;
      }
      break;
    }
    case 6:
      check_word(dm::parseBackend, std::map<std::string, Backend>{{"default", Backend::MC}, {"mc", Backend::MC}}, w);
      break;
    default:
      check_word(dm::parseCheckIterFreq,
                 std::map<std::string, CheckIterFreq>{
                     {"none", CheckIterFreq::None}, {"last", CheckIterFreq::Last}, {"all", CheckIterFreq::All}},
                 w);
      break;
  }
}

// ---- options of the miniapps of kernels, what is dispatched
namespace {
struct Dispatched {
  static std::string what;
  template <Backend B, class T>
  static void run(const dlaf::miniapp::MiniappKernelOptions<SupportReal::Yes, SupportComplex::Yes>&) {
    what += str(B == Backend::MC ? "MC " : "other ", probe::type_char<T>());
  }
};
std::string Dispatched::what;
}  // namespace
PBT_SUB(kernel_options, 300, 3000, "options with a value") {
  using Opts = dlaf::miniapp::MiniappKernelOptions<SupportReal::Yes, SupportComplex::Yes>;
  std::vector<std::string> args{"kernel"};
  std::map<std::string, long> v{{"nruns", 1}, {"nparallel", 1}, {"count", 10}};
  bool ok = true;
  for (auto& [k, x] : v)
    if (g.boolean()) {
      x = g.pick({1L, 2L, 17L, 5000000000L, 3L, 1L, 1L, 0L, -1L});
      ok = ok && x > 0;
      args.push_back(str("--", k, "=", x));
    }
  char type = 'd';
  if (g.boolean())
    args.push_back(str("--type=", type = g.pick({'s', 'd', 'c', 'z'})));
  int check = 0;
  if (g.boolean()) {
    check = static_cast<int>(g.below(3));
    args.push_back(str("--check-result=", check == 0 ? "none" : check == 1 ? "last" : "all"));
  }
  for (const auto& a : args)
    g << a << " ";
  g.nontrivial_if(args.size() > 1);
  const auto make = [&] {
    namespace po = pika::program_options;
    std::vector<const char*> argv;
    for (const auto& a : args)
      argv.push_back(a.c_str());
    po::variables_map vm;
    po::store(po::parse_command_line(static_cast<int>(argv.size()), argv.data(),
                                     dlaf::miniapp::getMiniappKernelOptionsDescription()),
              vm);
    po::notify(vm);
    return Opts(vm);
  };
  if (!ok) {
    PBT_CHECK(pbt::aborts([&] { (void) make(); }), "a number below 1 is accepted");
    return;
  }
  const Opts o = make();
  PBT_EQ(static_cast<long>(o.nruns), v["nruns"], "nruns");
  PBT_EQ(static_cast<long>(o.nparallel), v["nparallel"], "nparallel");
  PBT_EQ(static_cast<long>(o.count), v["count"], "count");
  PBT_CHECK(o.backend == Backend::MC, "backend");
  PBT_EQ(static_cast<int>(o.do_check), check, "checks");
  Dispatched::what.clear();
  dlaf::miniapp::dispatchMiniapp<Dispatched>(o);
  PBT_EQ(Dispatched::what, str("MC ", type), "what is dispatched");
}

// ---- the runner of kernels: each of the operations once
PBT_SUB(kernel_runner, 150, 2000, "more operations than threads, more than one thread") {
  const SizeType count = gen_size(g, 8, 100) + 1, threads = g.range(1, 6);
  const long runs = g.range(1, 3);
  g << count << " operations, " << threads << " threads, " << runs << " runs";
  g.nontrivial_if(count > threads && threads > 1);
  std::vector<std::atomic<int>> done(static_cast<std::size_t>(count));
  std::atomic<int> now{0}, most{0}, outside{0};
  dlaf::miniapp::KernelRunner<Backend::MC> runner(count, threads);
  for (long r = 0; r < runs; ++r) {
    const double t = runner.run([&](SizeType i) {
      const int n = ++now;
      int m = most;
      while (n > m && !most.compare_exchange_weak(m, n)) {}
      if (i < 0 || i >= count)
        ++outside;
      else
        ++done[static_cast<std::size_t>(i)];
      --now;
    });
    PBT_CHECK(t >= 0, "time ", t);
    PBT_EQ(outside.load(), 0, "operations that do not exist");
    for (SizeType i = 0; i < count; ++i)
      PBT_EQ(static_cast<long>(done[static_cast<std::size_t>(i)]), r + 1, "executions of operation ", i);
    PBT_CHECK(most <= threads, "more operations at a time than allowed: ", most.load());
  }
}

// ---- communication: all the operations meet on all processes, each is reported
PBT_SUB(communication, 400, 2500, "more than one process") {
  auto j = gen_communication(g);
  g.nontrivial_if(j.rows * j.cols > 1);
  the_harm = {};
  const auto o = run_job(g, j);
  std::vector<std::string> want;
  if (j.rows * j.cols == 1)
    want.push_back("Single rank. Nothing to measure.");
  else
    for (long r = 0; r < j.nruns; ++r) {
      want.push_back(str("[", r, "]"));
      for (const auto* w :
           {"All reduce CPU Default", "All reduce CPU:CPU contiguous", "All reduce (in place) CPU Default",
            "All reduce (in place) CPU:CPU contiguous", "Broadcast CPU Default",
            "Broadcast CPU:CPU non-contiguous-send non-contiguous-recv",
            "Broadcast CPU:CPU contiguous-send non-contiguous-recv", "Broadcast CPU:CPU non-contiguous-send contiguous-recv",
            "Broadcast CPU:CPU contiguous-send contiguous-recv", "P2P CPU Default",
            "P2P CPU:CPU non-contiguous-send non-contiguous-recv", "P2P CPU:CPU contiguous-send non-contiguous-recv",
            "P2P CPU:CPU non-contiguous-send contiguous-recv", "P2P CPU:CPU contiguous-send contiguous-recv",
            "Reduce CPU Default", "Reduce CPU:CPU contiguous-send contiguous-recv"})
        want.push_back(str("[", r, "] ", w, " TIME ", j.report, " ", j.threads, " MC"));
    }
  std::istringstream in(o.out);
  std::string line;
  std::vector<std::string> got;
  while (std::getline(in, line)) {
    line = squeeze(line);
    if (line.empty())
      continue;
    std::string r, w;
    std::istringstream words(line);
    while (words >> w) {
      if (w.size() > 1 && w.back() == 's' && std::isdigit(static_cast<unsigned char>(w[0]))) {
        PBT_CHECK(number(w.substr(0, w.size() - 1), "time") >= 0, "time ", line);
        w = "TIME";
      }
      r += (r.empty() ? "" : " ") + w;
    }
    got.push_back(r);
  }
  PBT_EQ(got.size(), want.size(), "number of lines");
  for (std::size_t i = 0; i < want.size(); ++i)
    PBT_EQ(got[i], want[i], "line ", i);
}

// ---- the kernels
PBT_SUB(kernels, 1500, 4000, "more than one operation or run") {
  const bool laset = g.boolean();
  const char type = g.pick({'s', 'd', 'c', 'z'});
  const long runs = g.range(1, 3), parallel = g.range(1, 3), count = g.range(1, 9);
  const int check = static_cast<int>(g.below(3));
  const SizeType m = g.range(1, 9), n = g.range(1, 9), k = g.range(1, n);
  const SizeType ld = m + (g.boolean() ? 0 : g.range(1, 20)), ldt = k + (g.boolean() ? 0 : g.range(1, 9));
  const char uplo = g.pick({'L', 'U', 'G'});
  std::vector<std::string> args{"kernel",
                                str("--type=", type),
                                str("--nruns=", runs),
                                str("--nparallel=", parallel),
                                str("--count=", count),
                                str("--check-result=", check == 0 ? "none" : check == 1 ? "last" : "all"),
                                str("--m=", m),
                                str("--n=", n)};
  std::string report;
  double work = 0;  // bytes or operations
  const double bytes = type == 's' ? 4 : type == 'z' ? 16 : 8;
  if (laset) {
    args.push_back(str("--ld=", ld));
    args.push_back(str("--uplo=", uplo));
    report = str(type, uplo, " ", m, " ", n, " ", ld, " ", parallel, " MC");
    for (SizeType c = 0; c < n; ++c)
      for (SizeType r = 0; r < m; ++r)
        work += uplo == 'G' || (uplo == 'L' ? r >= c : r <= c) ? bytes : 0;
  }
  else {
    args.push_back(str("--k=", k));
    args.push_back(str("--ldv=", ld));
    args.push_back(str("--ldt=", ldt));
    report = str(type, " ", m, " ", k, " ", ld, " ", ldt, " ", parallel, " MC");
    // column j: j products of columns of m elements, scaled
    for (SizeType c = 1; c < k; ++c)
      work += static_cast<double>((m + 1) * c) * (type == 's' || type == 'd' ? 2 : 8);
  }
  g << (laset ? "laset" : "larft_gemv");
  for (std::size_t i = 1; i < args.size(); ++i)
    g << " " << args[i];
  g.nontrivial_if(runs > 1 || count > 1);
  std::string out;
  {
    Captured cap;
    std::vector<char*> argv;
    for (auto& a : args)
      argv.push_back(a.data());
    argv.push_back(nullptr);
    PBT_EQ(main_of(laset ? "laset" : "larft_gemv")(static_cast<int>(args.size()), argv.data()), 0, "exit status");
    out = cap.out.str();
  }
  std::istringstream in(out);
  std::string line;
  long run = -1, verdicts = 0;
  while (std::getline(in, line)) {
    line = squeeze(line);
    PBT_CHECK(line.find("CHECK FAILED") == std::string::npos, "verdict against right results: ", out);
    if (line.rfind("| res - ref", 0) == 0) {
      ++verdicts;
      PBT_CHECK(check == 2 || (check == 1 && run == runs - 1), "a verdict nobody asked for: ", out);
      continue;
    }
    ++run;
    std::istringstream words(line);
    std::string index, time, perf, rest;
    words >> index >> time >> perf;
    std::getline(words, rest);
    PBT_EQ(index, str("[", run, "]"), "index of the run");
    const std::string unit = laset ? "GB/s" : "GFlop/s";
    PBT_CHECK(time.size() > 1 && time.back() == 's' && perf.size() > unit.size() &&
                  perf.substr(perf.size() - unit.size()) == unit,
              "no time or performance: ", line);
    const double t = number(time.substr(0, time.size() - 1), "time"),
                 p = number(perf.substr(0, perf.size() - unit.size()), "performance") * 1e9;
    PBT_CHECK(std::abs(p * t - work) <= 3e-5 * work, "performance ", p, "/s in ", t, " s for ", work, ": ", line);
    rest = squeeze(rest);
    PBT_EQ(laset ? rest : rest.substr(0, rest.find(" | ")), report, "report");
  }
  PBT_EQ(run, runs - 1, "last run");
  PBT_EQ(verdicts, check == 0 ? 0L : check == 1 ? 1L : runs, "number of verdicts");
}

// ---- the tiles of kernels: as many as asked for, they do not overlap, what is set is checked
PBT_SUB(work_tiles, 2000, 5000, "tiles that share a chunk of memory") {
  using T = std::complex<double>;
  const SizeType m = g.range(1, 7), n = g.range(1, 6), ld = m + (g.boolean() ? 0 : g.range(0, 20)), count = g.range(1, 20);
  const auto seed = g.seed();
  const SizeType bad = g.range(0, count - 1), bi = g.range(0, m - 1), bj = g.range(0, n - 1);
  g << count << " tiles " << m << "x" << n << " ld " << ld << " seed " << seed << " bad " << bad << " (" << bi << "," << bj << ")";
  g.nontrivial_if(ld / m > 1 && count > 1);
  const auto live = simmem::counts().live;
  {
    dlaf::miniapp::WorkTiles<T, Device::CPU> tiles(count, m, n, ld);
    PBT_EQ(tiles.count(), count, "number of tiles");
    std::set<const T*> used;
    for (SizeType t = 0; t < count; ++t) {
      PBT_CHECK(tiles(t).size() == TileElementSize(m, n), "size of tile ", t);
      PBT_EQ(tiles(t).ld(), ld, "leading dimension of tile ", t);
      for (SizeType c = 0; c < n; ++c)
        for (SizeType r = 0; r < m; ++r) {
          PBT_CHECK(used.insert(tiles(t).ptr({r, c})).second, "tiles overlap: ", t);
          tiles(t)({r, c}) = T(-7, 3);
        }
    }
    const auto el = [seed](const TileElementIndex& ij) { return random_value<T>(seed, ij.row(), ij.col()) + T(2, 0); };
    tiles.setElements(el);
    for (SizeType t = 0; t < count; ++t)
      for (SizeType c = 0; c < n; ++c)
        for (SizeType r = 0; r < m; ++r)
          PBT_CHECK(tiles(t)({r, c}) == el({r, c}), "element (", r, ",", c, ") of tile ", t);
    PBT_EQ(tiles.check(el), 0., "error of the right elements");
    tiles(bad)({bi, bj}) += T(0, 1e-6);
    const auto error = tiles.check(el);
    PBT_CHECK(error > 1e-7 / 2.3e-16 / 4 && error < 1e-5 / 2.2e-16, "error ", error, " of a wrong element of tile ", bad);
    PBT_CHECK(tiles(bad)({bi, bj}) == el({bi, bj}) + T(0, 1e-6), "the check changed an element");
  }
  PBT_EQ(simmem::counts().live, live, "memory is still allocated");
}

// ---- eigenvectors times eigenvalues
namespace {
template <class T>
void case_scale(Gen& g) {
  const auto s = gen_setup(g, 6, true);
  auto h = gen_square(g, s, 20, 6);
  const SizeType e = g.chance(1, 2) ? h.n : g.range(0, h.n);
  auto hr = h;
  hr.n = e;
  hr.alloc = gen_alloc(g, h.m);
  const auto v = random_dense<T>(h.n, h.n, g.seed());
  const auto w = random_dense<double>(h.n, 1, g.seed());
  g << " columns " << e;
  g.nontrivial_if(e > h.nb);
  Dense<T> out(h.n, e), v2(h.n, h.n);
  Dense<double> w2(h.n, 1);
  run_setup(s, [&](CommunicatorGrid* grid) {
    auto mv = make_matrix<T>(h, grid);
    auto mr = make_matrix<T>(hr, grid);
    Mat<double> mw(dlaf::LocalElementSize(h.n, 1), TileElementSize(h.nb, 1));
    fill(mv, v);
    fill(mw, w);
    fill(mr, [](SizeType, SizeType) { return sentinel<T>(); });
    if (e == h.n) {
      dlaf::miniapp::scaleEigenvectors<T>(as_const_matrix(mw), as_const_matrix(mv), mr);
    }
    else {
      using dlaf::matrix::util::internal::sub_matrix_spec_slice_cols;
      dlaf::matrix::internal::MatrixRef<const double, Device::CPU> rw(
          as_const_matrix(mw), dlaf::matrix::internal::SubMatrixSpec{{0, 0}, {e, 1}});
      dlaf::matrix::internal::MatrixRef<const T, Device::CPU> rv(
          as_const_matrix(mv), dlaf::matrix::internal::SubMatrixSpec{{0, 0}, {h.n, e}});
      dlaf::miniapp::scaleEigenvectors<T>(rw, rv, mr);
    }
    collect(mr, out);
    collect(mv, v2);
    collect(mw, w2);
    wait(mr);
    wait(mv);
    wait(mw);
  });
  check_unchanged(v2, v, "eigenvectors");
  check_unchanged(w2, w, "eigenvalues");
  for (SizeType j = 0; j < e; ++j)
    for (SizeType i = 0; i < h.n; ++i)
      PBT_CHECK(std::abs(out(i, j) - v(i, j) * w(j, 0)) <= 4 * eps * std::abs(v(i, j)), "element (", i, ",", j, ") is ",
                out(i, j), " not ", v(i, j) * w(j, 0));
}
}  // namespace
PBT_SUB(scale_eigenvectors, 1500, 5000, "more than one tile of columns") {
  if (g.boolean())
    case_scale<double>(g);
  else
    case_scale<std::complex<double>>(g);
}
