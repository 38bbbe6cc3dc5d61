// C38: the C interface. Every simulated process loads its own copy of the library of C functions, so that their
// global state is per process as in reality. BLACS is a stand-in that knows communicators and coordinates.
// Oracles: a model of the live contexts; the results of the C++ algorithms' definitions; a suspended runtime.
#include <dlfcn.h>
#include <sys/mman.h>
#include <unistd.h>

#include <climits>
#include <map>
#include <set>

#include <dlaf/init.h>
#include <dlaf_c/desc.h>
#include <dlaf_c/eigensolver/eigensolver.h>
#include <dlaf_c/eigensolver/gen_eigensolver.h>
#include <dlaf_c/factorization/cholesky.h>
#include <dlaf_c/grid.h>
#include <dlaf_c/init.h>
#include <dlaf_c/inverse/cholesky.h>
#include <dlaf_c/utils.h>

#include "hermitian_inputs.hpp"

using namespace algo;

namespace {
void* lib(int rank) {
  static std::map<int, void*> libs;
  auto& h = libs[rank];
  if (!h) {
    char exe[4096];
    const auto n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    exe[n > 0 ? n : 0] = 0;
    h = dlopen(pbt::cat(exe, ".", rank, ".so").c_str(), RTLD_LAZY | RTLD_LOCAL);
    if (!h)
      pbt::harness_error(pbt::cat("dlopen: ", dlerror()));
  }
  return h;
}
template <class F>
F fn(int rank, const char* name) {
  void* p = dlsym(lib(rank), name);
  PBT_CHECK(p != nullptr, "the library has no function ", name);
  return reinterpret_cast<F>(p);
}
// the function of the library of the current rank
#define C_FN(name) fn<decltype(&name)>(sim::cur_rank(), #name)

// ---- BLACS
struct BlacsGrid {
  MPI_Comm comm = MPI_COMM_NULL;
  int rows = 0, cols = 0, row = -1, col = -1;
  int system = 0;
};
std::map<std::pair<int, int>, BlacsGrid> blacs_grids;  // (rank, context)
const BlacsGrid& blacs(int context) {
  const auto it = blacs_grids.find({sim::cur_rank(), context});
  if (it == blacs_grids.end())
    pbt::fail("blacs", pbt::cat("no BLACS context ", context));
  return it->second;
}
}  // namespace

extern "C" {
MPI_Comm Cblacs2sys_handle(int system) {
  for (const auto& [k, g] : blacs_grids)
    if (k.first == sim::cur_rank() && g.system == system)
      return g.comm;
  pbt::fail("blacs", pbt::cat("no BLACS system handle ", system));
}
void Cblacs_get(int context, int what, int* val) {
  PBT_EQ(what, 10, "what is asked from BLACS");
  *val = blacs(context).system;
}
void Cblacs_gridinfo(int context, int* np, int* mp, int* px, int* py) {
  const auto& g = blacs(context);
  *np = g.rows;
  *mp = g.cols;
  *px = g.row;
  *py = g.col;
}
}

namespace {
// ---- the local part of a matrix in memory of the user
template <class T>
struct Local {
  Distribution dist;
  SizeType ld;
  std::vector<T> mem;
  T* p() {
    return mem.data();
  }
};
struct Where {  // a context: which rank is where
  int context = 0;
  int rows = 1, cols = 1;
  bool col_major = false, from_blacs = false;
  int base = 0;            // smallest rank
  bool reversed = false;  // ranks of the communicator in reversed order
  int size = 1;            // of the communicator
  int rank_in_comm(int world) const {
    return reversed ? base + size - 1 - world : world - base;
  }
  bool in_comm(int world) const {
    return world >= base && world < base + size;
  }
  bool member(int world) const {
    return in_comm(world) && rank_in_comm(world) < rows * cols;
  }
  dlaf::comm::Index2D coords(int world) const {
    const int r = rank_in_comm(world);
    return col_major ? dlaf::comm::Index2D(r % rows, r / rows) : dlaf::comm::Index2D(r / cols, r % cols);
  }
};
struct Desc {
  SizeType n = 0, nb = 1;
  int src_r = 0, src_c = 0;
  SizeType pad = 0;  // rows in addition to those needed
};
template <class T>
Local<T> make_local(const Desc& d, const Where& w, const Dense<T>* a) {
  Local<T> l{Distribution({d.n, d.n}, {d.nb, d.nb}, {w.rows, w.cols}, w.coords(sim::cur_rank()), {d.src_r, d.src_c}), 1, {}};
  const auto s = l.dist.local_size();
  l.ld = std::max<SizeType>(1, s.rows()) + d.pad;
  l.mem.assign(static_cast<std::size_t>(s.isEmpty() ? 1 : l.ld * (s.cols() - 1) + s.rows()), sentinel<T>());
  if (a)
    for (SizeType j = 0; j < s.cols(); ++j)
      for (SizeType i = 0; i < s.rows(); ++i)
        l.mem[static_cast<std::size_t>(i + j * l.ld)] = (*a)(l.dist.template globalElementFromLocalElement<dlaf::Coord::Row>(i), l.dist.template globalElementFromLocalElement<dlaf::Coord::Col>(j));
  return l;
}
template <class T>
void take(Local<T>& l, Dense<T>& out, const char* what) {
  const auto s = l.dist.local_size();
  for (SizeType j = 0; j < s.cols(); ++j)
    for (SizeType i = 0; i < l.ld; ++i) {
      const auto k = static_cast<std::size_t>(i + j * l.ld);
      if (k >= l.mem.size())
        break;
      if (i < s.rows())
        out(l.dist.template globalElementFromLocalElement<dlaf::Coord::Row>(i), l.dist.template globalElementFromLocalElement<dlaf::Coord::Col>(j)) = l.mem[k];
      else
        PBT_CHECK(is_sentinel(l.mem[k]), what, ": memory between the columns was changed");
    }
  if (s.isEmpty())
    PBT_CHECK(is_sentinel(l.mem[0]), what, ": an empty local part was written");
}
DLAF_descriptor descriptor(const Desc& d, SizeType ld) {
  return {static_cast<int>(d.n), static_cast<int>(d.n), static_cast<int>(d.nb), static_cast<int>(d.nb), d.src_r, d.src_c, 0, 0, static_cast<int>(ld)};
}
std::array<int, 9> scalapack(const Desc& d, SizeType ld, int context) {
  return {1, context, static_cast<int>(d.n), static_cast<int>(d.n), static_cast<int>(d.nb), static_cast<int>(d.nb), d.src_r, d.src_c, static_cast<int>(ld)};
}

// ---- one call of an algorithm
enum class Alg { Cholesky, Inverse, Eigen, GenEigen, GenEigenFactorized };
template <class T>
struct Call {
  Alg alg = Alg::Cholesky;
  Where w;
  bool scalapack = false, partial = false;
  char uplo = 'L';
  Desc da, db, dz;
  SizeType k = 0;
  Dense<T> a, b, l;              // the matrices
  Dense<T> ina, inb;             // as given, with sentinels
  Dense<T> outa, outb, outz;     // results
  std::vector<std::vector<double>> ws;  // by world rank
};
template <class T>
Dense<T> chol(const Dense<T>& a) {
  auto l = a;
  if (a.n > 0 && lapack::potrf(lapack::Uplo::Lower, a.n, l.a.data(), a.n) != 0)
    pbt::harness_error("potrf");
  return tri(blas::Uplo::Lower, blas::Diag::NonUnit, l);
}
template <class T>
Call<T> gen_call(Gen& g, const Where& w, int nranks, Alg alg) {
  Call<T> c;
  c.w = w;
  c.alg = alg;
  const bool eig = alg != Alg::Cholesky && alg != Alg::Inverse;
  c.scalapack = w.from_blacs && g.boolean();
  c.uplo = eig ? g.pick({'L', 'l'}) : g.pick({'L', 'U', 'l', 'u'});
  const auto uplo = c.uplo == 'L' || c.uplo == 'l' ? blas::Uplo::Lower : blas::Uplo::Upper;
  c.da.nb = static_cast<SizeType>(g.range(eig ? 2 : 1, 6));
  c.da.n = gen_size(g, c.da.nb, std::min<SizeType>(22, c.da.nb * 7));
  c.da.src_r = static_cast<int>(g.below(static_cast<pbt::u64>(w.rows)));
  c.da.src_c = static_cast<int>(g.below(static_cast<pbt::u64>(w.cols)));
  c.db = c.dz = c.da;
  c.da.pad = static_cast<SizeType>(g.below(4));
  c.db.pad = static_cast<SizeType>(g.below(4));
  c.dz.pad = static_cast<SizeType>(g.below(4));
  const auto n = c.da.n;
  g << (c.scalapack ? " p" : " ") << static_cast<int>(alg) << c.uplo << " n=" << n << " nb=" << c.da.nb << " src=" << c.da.src_r << "," << c.da.src_c;
  c.k = n;
  if (eig) {
    c.a = gen_hermitian<T>(g, n);
    c.partial = g.boolean();
    if (c.partial && n > 0)
      c.k = g.range(c.scalapack ? 1 : 0, n);
    if (c.partial)
      g << " to " << c.k;
  }
  else
    c.a = random_hpd<T>(n, g.seed());
  c.ina = with_sentinels(c.a, uplo);
  if (alg == Alg::Inverse) {
    const auto l = chol(c.a);
    c.ina = with_sentinels(uplo == blas::Uplo::Lower ? l : herm(l), uplo);
  }
  if (alg == Alg::GenEigen || alg == Alg::GenEigenFactorized) {
    c.b = random_hpd<T>(n, g.seed());
    c.l = chol(c.b);
    c.inb = with_sentinels(alg == Alg::GenEigen ? c.b : c.l, blas::Uplo::Lower);
  }
  c.outa = c.outb = c.outz = Dense<T>(n, n, sentinel<T>());
  c.ws.assign(static_cast<std::size_t>(nranks), {});
  return c;
}
template <class T>
void do_call(Call<T>& c, int context) {
  constexpr bool z = is_complex_v<T>;
  const auto me = static_cast<std::size_t>(sim::cur_rank());
  auto a = make_local(c.da, c.w, &c.ina);
  auto b = make_local(c.db, c.w, c.inb.a.empty() ? static_cast<const Dense<T>*>(nullptr) : &c.inb);
  auto zz = make_local<T>(c.dz, c.w, nullptr);
  auto& w = c.ws[me];
  w.assign(static_cast<std::size_t>(c.da.n), sentinel<double>());
  const auto da = descriptor(c.da, a.ld), db = descriptor(c.db, b.ld), dz = descriptor(c.dz, zz.ld);
  const auto sa = scalapack(c.da, a.ld, context), sb = scalapack(c.db, b.ld, context), sz = scalapack(c.dz, zz.ld, context);
  const int n = static_cast<int>(c.da.n);
  int info = c.scalapack ? -77 : 0;
  const auto resumes = pika::sim_rt::state().resumes;
#define PICK(zname, dname)                 \
  [&](auto... args) {                      \
    if constexpr (z)                       \
      return C_FN(zname)(args...);         \
    else                                   \
      return C_FN(dname)(args...);         \
  }
  switch (c.alg) {
    case Alg::Cholesky:
      if (c.scalapack)
        PICK(dlaf_pzpotrf, dlaf_pdpotrf)(c.uplo, n, a.p(), 1, 1, sa.data(), &info);
      else
        info = PICK(dlaf_cholesky_factorization_z, dlaf_cholesky_factorization_d)(context, c.uplo, a.p(), da);
      break;
    case Alg::Inverse:
      if (c.scalapack)
        PICK(dlaf_pzpotri, dlaf_pdpotri)(c.uplo, n, a.p(), 1, 1, sa.data(), &info);
      else
        info = PICK(dlaf_inverse_from_cholesky_factor_z, dlaf_inverse_from_cholesky_factor_d)(context, c.uplo, a.p(), da);
      break;
    case Alg::Eigen:
      if (c.scalapack && c.partial)
        PICK(dlaf_pzheevd_partial_spectrum, dlaf_pdsyevd_partial_spectrum)(c.uplo, n, a.p(), 1, 1, sa.data(), w.data(), zz.p(), 1, 1, sz.data(), SizeType(1), c.k, &info);
      else if (c.scalapack)
        PICK(dlaf_pzheevd, dlaf_pdsyevd)(c.uplo, n, a.p(), 1, 1, sa.data(), w.data(), zz.p(), 1, 1, sz.data(), &info);
      else if (c.partial)
        info = PICK(dlaf_hermitian_eigensolver_partial_spectrum_z, dlaf_symmetric_eigensolver_partial_spectrum_d)(context, c.uplo, a.p(), da, w.data(), zz.p(), dz, SizeType(0), c.k);
      else
        info = PICK(dlaf_hermitian_eigensolver_z, dlaf_symmetric_eigensolver_d)(context, c.uplo, a.p(), da, w.data(), zz.p(), dz);
      break;
    case Alg::GenEigen:
      if (c.scalapack && c.partial)
        PICK(dlaf_pzhegvd_partial_spectrum, dlaf_pdsygvd_partial_spectrum)(c.uplo, n, a.p(), 1, 1, sa.data(), b.p(), 1, 1, sb.data(), w.data(), zz.p(), 1, 1, sz.data(), SizeType(1), c.k, &info);
      else if (c.scalapack)
        PICK(dlaf_pzhegvd, dlaf_pdsygvd)(c.uplo, n, a.p(), 1, 1, sa.data(), b.p(), 1, 1, sb.data(), w.data(), zz.p(), 1, 1, sz.data(), &info);
      else if (c.partial)
        info = PICK(dlaf_hermitian_generalized_eigensolver_partial_spectrum_z, dlaf_symmetric_generalized_eigensolver_partial_spectrum_d)(context, c.uplo, a.p(), da, b.p(), db, w.data(), zz.p(), dz, SizeType(0), c.k);
      else
        info = PICK(dlaf_hermitian_generalized_eigensolver_z, dlaf_symmetric_generalized_eigensolver_d)(context, c.uplo, a.p(), da, b.p(), db, w.data(), zz.p(), dz);
      break;
    case Alg::GenEigenFactorized:
      if (c.scalapack && c.partial)
        PICK(dlaf_pzhegvd_partial_spectrum_factorized, dlaf_pdsygvd_partial_spectrum_factorized)(c.uplo, n, a.p(), 1, 1, sa.data(), b.p(), 1, 1, sb.data(), w.data(), zz.p(), 1, 1, sz.data(), SizeType(1), c.k, &info);
      else if (c.scalapack)
        PICK(dlaf_pzhegvd_factorized, dlaf_pdsygvd_factorized)(c.uplo, n, a.p(), 1, 1, sa.data(), b.p(), 1, 1, sb.data(), w.data(), zz.p(), 1, 1, sz.data(), &info);
      else if (c.partial)
        info = PICK(dlaf_hermitian_generalized_eigensolver_partial_spectrum_factorized_z, dlaf_symmetric_generalized_eigensolver_partial_spectrum_factorized_d)(context, c.uplo, a.p(), da, b.p(), db, w.data(), zz.p(), dz, SizeType(0), c.k);
      else
        info = PICK(dlaf_hermitian_generalized_eigensolver_factorized_z, dlaf_symmetric_generalized_eigensolver_factorized_d)(context, c.uplo, a.p(), da, b.p(), db, w.data(), zz.p(), dz);
      break;
  }
  PBT_EQ(info, 0, "info");
  PBT_CHECK(sim::tasks_held(), "the runtime is not suspended after the call");
  PBT_CHECK(pika::sim_rt::state().resumes > resumes, "the runtime was not resumed");
  // from here on the memory is the caller's
  take(a, c.outa, "A");
  if (!c.inb.a.empty())
    take(b, c.outb, "B");
  if (c.alg != Alg::Cholesky && c.alg != Alg::Inverse)
    take(zz, c.outz, "Z");
}
template <class T>
void judge(Call<T>& c) {
  const auto n = c.da.n;
  const auto uplo = c.uplo == 'L' || c.uplo == 'l' ? blas::Uplo::Lower : blas::Uplo::Upper;
  check_untouched(c.outa, uplo, "A");
  const double dn = static_cast<double>(n + 2);
  if (c.alg == Alg::Cholesky) {
    const auto f = tri(uplo, blas::Diag::NonUnit, c.outa);
    const auto p = uplo == blas::Uplo::Lower ? mul(f, herm(f)) : mul(herm(f), f);
    PBT_CHECK(max_diff(p, c.a) <= 20 * eps * dn * max_abs(c.a), "the factor does not multiply to the matrix: ", worst(p, c.a));
    return;
  }
  if (c.alg == Alg::Inverse) {
    const auto inv = from_tri(uplo, c.outa);
    const auto p = mul(inv, c.a);
    const auto i = identity<T>(n);
    PBT_CHECK(max_diff(p, i) <= 100 * eps * dn * (1 + norm_of(inv) * norm_of(c.a)), "not the inverse: ", worst(p, i));
    return;
  }
  const double tol = 200 * eps * dn;
  auto lead = leading_columns(c.outz, c.k);
  Dense<T> m = c.a;
  double norm = norm_of(c.a), cond = 1;
  if (c.alg != Alg::Eigen) {
    const auto lo = tri(blas::Uplo::Lower, blas::Diag::NonUnit, c.outb);
    check_untouched(c.outb, blas::Uplo::Lower, "B");
    if (c.alg == Alg::GenEigenFactorized)
      check_unchanged(lo, c.l, "factor");
    const auto reduced = [&](const Dense<T>& x) {
      auto r = x;
      if (n > 0) {
        blas::trsm(blas::Layout::ColMajor, blas::Side::Left, blas::Uplo::Lower, blas::Op::NoTrans, blas::Diag::NonUnit, n, n, T(1), c.l.a.data(), n, r.a.data(), n);
        blas::trsm(blas::Layout::ColMajor, blas::Side::Right, blas::Uplo::Lower, blas::Op::ConjTrans, blas::Diag::NonUnit, n, n, T(1), c.l.a.data(), n, r.a.data(), n);
      }
      return from_tri(blas::Uplo::Lower, r);
    };
    m = reduced(c.a);
    const double linv = norm_of(reduced(identity<T>(n)));
    norm *= linv;
    cond = std::sqrt(norm_of(c.b) * linv);
    lead = mul(herm(c.l), lead);
  }
  auto ref = hermitian_eigenvalues(m);
  ref.resize(static_cast<std::size_t>(c.k));
  const std::vector<double>* w0 = nullptr;
  for (std::size_t r = 0; r < c.ws.size(); ++r)
    if (c.w.member(static_cast<int>(r))) {
      auto& w = c.ws[r];
      w.resize(static_cast<std::size_t>(c.k));
      check_eigenvalues(w, ref, tol * norm);
      w0 = &w;
    }
  check_eigenvectors(m, *w0, lead, tol * cond, tol * cond * norm);
}

// ---- histories of contexts and calls
struct Step {
  enum Kind { Create, CreateBlacs, Free, FreeAll, CallD, CallZ } kind;
  std::size_t index = 0;  // of the context or of the call
  char order = 'R';
};
void case_history(Gen& g) {
  const int nranks = static_cast<int>(g.range(1, 6));
  g << nranks << " ranks";
  auto cfg = gen_config(g, nranks);
  std::vector<Where> ctx;
  std::vector<Step> steps;
  std::vector<Call<double>> ds;
  std::vector<Call<zdouble>> zs;
  std::set<std::size_t> live;
  int next_blacs = 0;
  bool recreated = false, freed = false, used = false;
  const auto len = g.range(2, 9);
  for (pbt::i64 i = 0; i < len; ++i) {
    const auto op = live.empty() ? 0 : g.below(8);
    if (op <= 2) {
      Where w;
      w.from_blacs = g.chance(1, 3);
      w.size = static_cast<int>(g.range(1, nranks));
      w.base = static_cast<int>(g.below(static_cast<pbt::u64>(nranks - w.size + 1)));
      w.reversed = g.boolean();
      w.rows = static_cast<int>(g.range(1, w.size));
      w.cols = static_cast<int>(g.range(1, w.size / w.rows));
      if (w.from_blacs)
        w.size = w.rows * w.cols;
      const char order = g.pick({'R', 'C', 'r', 'c'});
      w.col_major = order == 'C' || order == 'c';
      if (w.from_blacs)
        w.context = next_blacs++;
      g << " | create" << (w.from_blacs ? " from BLACS " : " ") << w.rows << "x" << w.cols << order << " on " << w.size << " from " << w.base << (w.reversed ? " reversed" : "");
      recreated = recreated || freed;
      live.insert(ctx.size());
      steps.push_back({w.from_blacs ? Step::CreateBlacs : Step::Create, ctx.size(), order});
      ctx.push_back(w);
    }
    else if (op == 3) {
      auto it = live.begin();
      std::advance(it, static_cast<std::ptrdiff_t>(g.below(live.size())));
      g << " | free " << *it;
      steps.push_back({Step::Free, *it});
      live.erase(it);
      freed = true;
    }
    else if (op == 4 && g.chance(1, 4)) {
      g << " | free all";
      steps.push_back({Step::FreeAll});
      live.clear();
      freed = true;
    }
    else {
      auto it = live.begin();
      std::advance(it, static_cast<std::ptrdiff_t>(g.below(live.size())));
      g << " | on " << *it << ":";
      const auto alg = g.pick({Alg::Cholesky, Alg::Inverse, Alg::Eigen, Alg::GenEigen, Alg::GenEigenFactorized});
      used = used || (recreated && ctx[*it].rows * ctx[*it].cols > 1);
      if (g.boolean()) {
        steps.push_back({Step::CallZ, zs.size()});
        zs.push_back(gen_call<zdouble>(g, ctx[*it], nranks, alg));
        zs.back().w.context = static_cast<int>(*it);
      }
      else {
        steps.push_back({Step::CallD, ds.size()});
        ds.push_back(gen_call<double>(g, ctx[*it], nranks, alg));
        ds.back().w.context = static_cast<int>(*it);
      }
    }
  }
  g.nontrivial_if(used || (ctx.size() > 1 && ds.size() + zs.size() > 1));
  if (used)
    g.label("a call on several ranks after contexts were freed and created");
  const auto before = simmem::counts().live;
  blacs_grids.clear();
  sim_run(cfg, [&](int me) {
    pika::sim_rt::state().initialized = true;
    dlaf::getTuneParameters() = dlaf::TuneParameters();
    pika::suspend();
    std::map<std::size_t, int> contexts;  // the model: live contexts of this process
    std::vector<MPI_Comm> comms;
    for (const auto& s : steps) {
      switch (s.kind) {
        case Step::Create:
        case Step::CreateBlacs: {
          const auto& w = ctx[s.index];
          MPI_Comm comm;
          MPI_Comm_split(MPI_COMM_WORLD, w.in_comm(me) ? 0 : MPI_UNDEFINED, w.reversed ? -me : me, &comm);
          if (!w.in_comm(me))
            break;
          comms.push_back(comm);
          int context = w.context;
          if (s.kind == Step::CreateBlacs) {
            BlacsGrid b;
            b.comm = comm;
            b.rows = w.rows;
            b.cols = w.cols;
            b.row = w.coords(me).row();
            b.col = w.coords(me).col();
            b.system = 1000 - w.context;
            blacs_grids[{me, w.context}] = b;
            C_FN(dlaf_create_grid_from_blacs)(w.context);
          }
          else {
            context = C_FN(dlaf_create_grid)(comm, w.rows, w.cols, s.order);
            PBT_CHECK(context > INT_MAX / 2, "context ", context, " may be one of BLACS");
          }
          for (const auto& [i, c] : contexts)
            PBT_CHECK(c != context, "the new context ", context, " is one that is in use");
          contexts[s.index] = context;
          break;
        }
        case Step::Free:
          if (contexts.count(s.index)) {
            C_FN(dlaf_free_grid)(contexts[s.index]);
            contexts.erase(s.index);
          }
          break;
        case Step::FreeAll:
          C_FN(dlaf_free_all_grids)();
          contexts.clear();
          break;
        case Step::CallD:
          if (auto& c = ds[s.index]; c.w.member(me))
            do_call(c, contexts.at(static_cast<std::size_t>(c.w.context)));
          break;
        case Step::CallZ:
          if (auto& c = zs[s.index]; c.w.member(me))
            do_call(c, contexts.at(static_cast<std::size_t>(c.w.context)));
          break;
      }
    }
    C_FN(dlaf_free_all_grids)();
    for (auto& c : comms)
      MPI_Comm_free(&c);
    pika::resume();
  });
  PBT_EQ(simmem::counts().live, before, "memory is still allocated");
  for (auto& c : ds)
    judge(c);
  for (auto& c : zs)
    judge(c);
}

// ---- order of a grid
void case_ordering(Gen& g, bool bad) {
  const int rows = static_cast<int>(g.range(bad ? 2 : 1, 4)), cols = static_cast<int>(g.range(bad ? 2 : 1, 4));
  const int nranks = rows * cols;
  auto cfg = gen_config(g, nranks);
  const bool cm = g.boolean();
  std::vector<int> pos(static_cast<std::size_t>(nranks));  // rank -> row-major position
  for (int r = 0; r < nranks; ++r)
    pos[static_cast<std::size_t>(r)] = cm ? (r % rows) * cols + r / rows : r;
  if (bad) {  // exchange two positions
    const auto i = g.below(static_cast<pbt::u64>(nranks)), j = g.below(static_cast<pbt::u64>(nranks));
    std::swap(pos[i], pos[j]);
    bool row = true, col = true;
    for (int r = 0; r < nranks; ++r) {
      row = row && pos[static_cast<std::size_t>(r)] == r;
      col = col && pos[static_cast<std::size_t>(r)] == (r % rows) * cols + r / rows;
    }
    if (row || col)  // nothing exchanged, or one order made of the other
      std::swap(pos[0], pos[static_cast<std::size_t>(nranks) - 1]);
  }
  g << rows << "x" << cols << (cm ? " col" : " row") << (bad ? " exchanged" : "");
  g.nontrivial_if(rows > 1 && cols > 1);
  auto run = [&] {
    std::vector<char> res(static_cast<std::size_t>(nranks), '?');
    sim_run(cfg, [&](int me) {
      const int p = pos[static_cast<std::size_t>(me)];
      res[static_cast<std::size_t>(me)] = fn<decltype(&grid_ordering)>(0, "grid_ordering")(MPI_COMM_WORLD, rows, cols, p / cols, p % cols);
    });
    return res;
  };
  if (bad) {
    PBT_CHECK(pbt::dies([&] { run(); }), "an order of ranks that is neither row- nor column-major is accepted");
    return;
  }
  for (char c : run())
    PBT_CHECK(c == (cm ? 'C' : 'R') || ((rows == 1 || cols == 1) && (c == 'C' || c == 'R')), "order '", c, "'");
}

// ---- start and end of the library; the state is that of the process: every history has its own
void case_lifecycle(Gen& g) {
  struct Op {
    int kind;  // 0 start, 1 end
    int value;
  };
  std::vector<Op> ops;
  const auto len = g.range(1, 7);
  bool again = false;
  for (pbt::i64 i = 0; i < len; ++i) {
    ops.push_back({static_cast<int>(g.below(2)), static_cast<int>(g.range(1, 99))});
    g << (ops.back().kind ? " end" : pbt::cat(" start(", ops.back().value, ")"));
    again = again || i > 1;
  }
  g.nontrivial_if(again);
  auto cfg = gen_config(g, 1);
  auto* msg = static_cast<char*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::strcpy(msg, "ended early");
  const bool dead = pbt::dies([&] {
    sim::set_fail_handler([](const std::string&, const std::string&) { _exit(3); });
    sim::run(cfg, [&](int) {
      const auto expect = [&](auto a, auto b, const char* what) {
        if (a != b) {
          std::snprintf(msg, 4000, "%s: %ld instead of %ld", what, static_cast<long>(a), static_cast<long>(b));
          _exit(2);
        }
      };
      int starts = 0, stops = 0, value = 0;
      bool on = false;
      const auto& st = pika::sim_rt::state();
      const auto step = [&](const Op& op) {
        if (op.kind == 0) {
          const auto arg = pbt::cat("--dlaf:num-gpu-blas-handles=", op.value);
          const char* argv_pika[] = {"pika", nullptr};
          const char* argv_dlaf[] = {"dlaf", arg.c_str(), nullptr};
          C_FN(dlaf_initialize)(1, argv_pika, 2, argv_dlaf);
          if (!on) {
            value = op.value;
            ++starts;
          }
          on = true;
          expect(sim::tasks_held(), true, "runtime suspended after the start");
          expect(static_cast<int>(dlaf::internal::getConfiguration().num_gpu_blas_handles), value, "value of an option");
        }
        else {
          C_FN(dlaf_finalize)();
          if (on)
            ++stops;
          on = false;
        }
        expect(st.starts, starts, "starts of the runtime");
        expect(st.stops, stops, "stops of the runtime");
        expect(st.finalizes, stops, "finalized runtimes");
        expect(st.initialized, on, "runtime exists");
      };
      for (const auto& op : ops)
        step(op);
      step({1, 0});
    });
    std::strcpy(msg, "");
  });
  const std::string m = msg;
  munmap(msg, 4096);
  PBT_CHECK(!dead && m.empty(), "history of starts and ends: ", m);
}

void case_descriptor(Gen& g) {
  int d[9];
  for (auto& x : d)
    x = static_cast<int>(g.edge(0, INT_MAX));
  const int m = static_cast<int>(g.edge(0, INT_MAX)), n = static_cast<int>(g.edge(0, INT_MAX));
  const auto f = fn<decltype(&make_dlaf_descriptor)>(0, "make_dlaf_descriptor");
  const auto r = f(m, n, 1, 1, d);
  g.nontrivial_if(m != n && d[4] != d[5] && d[6] != d[7]);
  g << m << "x" << n;
  PBT_EQ(r.m, m, "rows");
  PBT_EQ(r.n, n, "columns");
  PBT_EQ(r.mb, d[4], "block rows");
  PBT_EQ(r.nb, d[5], "block columns");
  PBT_EQ(r.isrc, d[6], "source row");
  PBT_EQ(r.jsrc, d[7], "source column");
  PBT_EQ(r.i, 0, "first row");
  PBT_EQ(r.j, 0, "first column");
  PBT_EQ(r.ld, d[8], "leading dimension");
}

// what cannot be done ends the process
void case_refused(Gen& g) {
  g.nontrivial();
  const auto kind = g.below(6);
  auto cfg = gen_config(g, 1);
  cfg.nranks = 1;
  const auto alg = g.pick({Alg::Cholesky, Alg::Inverse, Alg::Eigen, Alg::GenEigen, Alg::GenEigenFactorized});
  Where w;
  w.from_blacs = kind == 4;
  auto c = gen_call<double>(g, w, 1, alg);
  const int off = static_cast<int>(g.range(1, 9));
  switch (kind) {
    case 0:
      g << " unknown context";
      break;
    case 1:
      g << " freed context";
      break;
    case 2:
      g << " sub matrix";
      break;
    case 3:
      g << " leading dimension";
      break;
    case 4:
      g << " sub matrix (ScaLAPACK)";
      c.scalapack = true;
      break;
    default:
      g << " triangle";
      break;
  }
  const bool control = g.chance(1, 4);
  g << (control ? " (control)" : "");
  auto run = [&] {
    sim_run(cfg, [&](int) {
      pika::sim_rt::state().initialized = true;
      dlaf::getTuneParameters() = dlaf::TuneParameters();
      pika::suspend();
      int context;
      if (w.from_blacs) {
        blacs_grids.clear();
        blacs_grids[{0, 0}] = BlacsGrid{MPI_COMM_WORLD, 1, 1, 0, 0, 7};
        C_FN(dlaf_create_grid_from_blacs)(0);
        context = 0;
      }
      else
        context = C_FN(dlaf_create_grid)(MPI_COMM_WORLD, 1, 1, 'R');
      if (!control) {
        auto a = make_local(c.da, c.w, &c.ina);
        auto da = descriptor(c.da, a.ld);
        auto sa = scalapack(c.da, a.ld, context);
        int info = 0;
        std::vector<double> ev(static_cast<std::size_t>(c.da.n + 1));
        auto z = make_local<double>(c.dz, c.w, nullptr);
        const auto call = [&] {
          if (alg == Alg::Cholesky)
            C_FN(dlaf_cholesky_factorization_d)(context, c.uplo, a.p(), da);
          else if (alg == Alg::Inverse)
            C_FN(dlaf_inverse_from_cholesky_factor_d)(context, c.uplo, a.p(), da);
          else
            C_FN(dlaf_symmetric_eigensolver_d)(context, c.uplo, a.p(), da, ev.data(), z.p(), descriptor(c.dz, z.ld));
        };
        if (kind == 0)
          context -= off;
        else if (kind == 1)
          C_FN(dlaf_free_grid)(context);
        else if (kind == 2)
          (off % 2 ? da.i : da.j) = off;
        else if (kind == 3)
          da.ld = static_cast<int>(std::max<SizeType>(1, c.da.n)) - off;
        else if (kind == 4) {
          if (alg == Alg::Inverse)
            C_FN(dlaf_pdpotri)(c.uplo, static_cast<int>(c.da.n), a.p(), off % 2 ? 2 : 1, off % 2 ? 1 : 2, sa.data(), &info);
          else
            C_FN(dlaf_pdpotrf)(c.uplo, static_cast<int>(c.da.n), a.p(), off % 2 ? 2 : 1, off % 2 ? 1 : 2, sa.data(), &info);
        }
        else
          c.uplo = "XNGTB0 \n-"[off - 1];
        if (kind != 4)
          call();
      }
      else
        do_call(c, context);
      C_FN(dlaf_free_all_grids)();
      pika::resume();
    });
  };
  if (control)
    run();
  else if (kind == 5 && std::strchr("GT", "XNGTB0 \n-"[off - 1]))
    return;  // letters that may have a meaning
  else
    PBT_CHECK(pbt::dies(run), "accepted");
}
}  // namespace

PBT_SUB(histories, 6000, 200000, "calls on several contexts, or on several ranks after contexts were freed and created") {
  case_history(g);
}
PBT_SUB(ordering, 20000, 400000, "at least two rows and two columns") {
  case_ordering(g, false);
}
PBT_SUB(no_ordering, 300, 5000, "at least two rows and two columns") {
  case_ordering(g, true);
}
PBT_SUB(lifecycle, 1500, 30000, "more than two starts or ends") {
  case_lifecycle(g);
}
PBT_SUB(descriptor, 60000, 1000000, "all entries differ") {
  case_descriptor(g);
}
PBT_SUB(refused, 600, 10000, "always: an unknown or freed context, a sub matrix, a leading dimension or triangle that is none") {
  case_refused(g);
}
