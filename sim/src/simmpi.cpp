#include <sim/kernel.hpp>
#include <sim/simmpi.hpp>

#include <algorithm>
#include <complex>
#include <cstring>
#include <deque>
#include <list>
#include <map>
#include <set>
#include <sstream>

using cfloat = std::complex<float>;
using cdouble = std::complex<double>;

enum Kind : int {
#define X(N, T) K_##N,
  SIMMPI_TYPES(X)
#undef X
  K_END
};
static const char* const kind_names[] = {
#define X(N, T) "MPI_" #N,
    SIMMPI_TYPES(X)
#undef X
};

namespace {
struct Run {
  int kind;
  MPI_Aint off;
  std::size_t n;      // elements
  std::size_t esize;  // of an element
};
struct Flat {
  std::vector<Run> runs;  // in type map order
  std::size_t size = 0;   // bytes of data
  MPI_Aint lb = 0, ub = 0;
  MPI_Aint extent() const { return ub - lb; }
};
using FlatP = std::shared_ptr<const Flat>;
using Sig = std::vector<std::pair<int, std::uint64_t>>;
}  // namespace

struct simmpi_type_s {
  int kind = -1;  // predefined
  std::size_t esize = 0;
  bool committed = false;
  bool freed = false;
  int owner = -1;
  FlatP flat;
  constexpr simmpi_type_s(int k, std::size_t s) : kind(k), esize(s), committed(true) {}
  simmpi_type_s() = default;
};
#define X(N, T) simmpi_type_s simmpi_t_##N(K_##N, sizeof(T));
SIMMPI_TYPES(X)
#undef X

enum OpKind { O_SUM, O_PROD, O_MAX, O_MIN, O_LAND, O_LOR, O_LXOR, O_BAND, O_BOR, O_BXOR, O_REPLACE, O_USER };
static const char* const op_names[] = {"MPI_SUM",  "MPI_PROD", "MPI_MAX", "MPI_MIN",  "MPI_LAND",    "MPI_LOR",
                                       "MPI_LXOR", "MPI_BAND", "MPI_BOR", "MPI_BXOR", "MPI_REPLACE", "user op"};
struct simmpi_op_s {
  int kind;
  MPI_User_function* fn = nullptr;
  bool freed = false;
  constexpr explicit simmpi_op_s(int k) : kind(k) {}
};
simmpi_op_s simmpi_op_sum(O_SUM), simmpi_op_prod(O_PROD), simmpi_op_max(O_MAX), simmpi_op_min(O_MIN),
    simmpi_op_land(O_LAND), simmpi_op_lor(O_LOR), simmpi_op_lxor(O_LXOR), simmpi_op_band(O_BAND),
    simmpi_op_bor(O_BOR), simmpi_op_bxor(O_BXOR), simmpi_op_replace(O_REPLACE);

struct simmpi_errhandler_s {
  int dummy;
};
simmpi_errhandler_s simmpi_errors_fatal{0}, simmpi_errors_return{1};

struct simmpi_group_s {
  std::vector<int> members;
  bool freed = false;
};
simmpi_group_s simmpi_group_empty;

namespace {
struct Context;
}
struct simmpi_comm_s {
  std::shared_ptr<Context> ctx;
  int rank = -1;   // -1: predefined, resolve by the calling rank
  int owner = -1;  // world rank
  bool freed = false;
  MPI_Errhandler eh = nullptr;
  std::string name;
};
simmpi_comm_s simmpi_comm_world, simmpi_comm_self;

struct simmpi_request_s {
  int rank = 0;
  bool done = false;
  bool detached = false;
  std::string what;
  MPI_Status st{MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_SUCCESS, 0, 0};
  std::function<void()> then;
  sim::WaitQueue waiters;
};

namespace {
[[noreturn]] void bad(const std::string& m) {
  sim::fail("mpi", "rank " + std::to_string(sim::cur_rank()) + ": " + m);
}

struct Msg {
  int src, tag;
  std::vector<char> data;
  Sig sig;
  MPI_Request sreq = nullptr;  // completes at the match (rendezvous)
  std::function<void()> verify;
};
struct Posted {
  int src, tag;
  char* buf;
  FlatP flat;
  int count;
  MPI_Request req;
};

struct Part {
  bool arrived = false;
  bool completed = false;
  const char* kind = "";
  bool nonblocking = false;
  int root = -1;
  MPI_Op op = nullptr;
  bool in_place = false;
  std::vector<char> data;
  Sig sig;
  const char* sbuf = nullptr;
  FlatP sflat;
  long scount = 0;
  char* rbuf = nullptr;
  FlatP rflat;
  long rcount = 0;  // per peer for gathers
  std::vector<int> rcounts, displs;
  MPI_Request req = nullptr;
  // communicator creation
  int color = 0, key = 0;
  std::vector<int> members;  // world ranks (create)
  MPI_Comm* out = nullptr;
  bool eager = true;
};
struct Coll {
  std::vector<Part> parts;
  int arrived = 0, completed = 0;
};
struct Context {
  std::uint64_t id = 0;
  std::vector<int> members;               // world ranks
  std::vector<std::list<Msg>> unexpected;  // per destination
  std::vector<std::list<Posted>> posted;
  std::vector<sim::WaitQueue> probers;
  std::map<std::uint64_t, Coll> colls;
  std::vector<std::uint64_t> seq;
  std::vector<std::uint64_t> cid_seq;
};

struct World {
  int n = 0;
  std::vector<std::shared_ptr<Context>> contexts;
  std::vector<std::unique_ptr<simmpi_comm_s>> comms;
  std::vector<std::unique_ptr<simmpi_type_s>> types;
  std::set<MPI_Request> requests;
  std::vector<std::unique_ptr<simmpi_op_s>> ops;
  std::vector<std::unique_ptr<simmpi_group_s>> groups;
  std::vector<std::shared_ptr<Context>> self;
  std::uint64_t next_id = 1;
  bool leaks = true;
  long live_comms = 0, live_types = 0;
  std::vector<long> calls;
  int inject_rank = -1;
  long inject_at = -1;
  bool injected = false;
};
World W;
void (*g_abort_hook)(int) = nullptr;
simmpi::Process g_process;

std::shared_ptr<Context> new_context(std::vector<int> members) {
  auto c = std::make_shared<Context>();
  c->id = W.next_id++;
  c->unexpected.resize(members.size());
  c->posted.resize(members.size());
  c->probers.resize(members.size());
  c->seq.assign(members.size(), 0);
  c->members = std::move(members);
  W.contexts.push_back(c);
  return c;
}

// true: the call has to return an error
bool enter(const char* name, bool may_fail = true) {
  if (!sim::running())
    sim::fail("mpi", std::string(name) + " called outside of a run");
  const int r = sim::cur_rank();
  long& c = W.calls[static_cast<std::size_t>(r)];
  const long k = c++;
  if (may_fail && r == W.inject_rank && W.inject_at >= 0 && k >= W.inject_at && !W.injected) {
    W.injected = true;
    return true;
  }
  return false;
}
#define ENTER(name)  \
  if (enter(name))   \
    return MPI_ERR_INTERN;

struct CC {
  Context* c;
  int me;
};
CC resolve(MPI_Comm comm, const char* fn) {
  if (comm == MPI_COMM_NULL)
    bad(std::string(fn) + " on MPI_COMM_NULL");
  const int wr = sim::cur_rank();
  if (comm == MPI_COMM_SELF)
    return {W.self[static_cast<std::size_t>(wr)].get(), 0};
  if (comm == MPI_COMM_WORLD)
    return {comm->ctx.get(), wr};
  if (comm->freed)
    bad(std::string(fn) + " on a communicator that was freed");
  if (comm->owner != wr)
    bad(std::string(fn) + " with a communicator handle of rank " + std::to_string(comm->owner));
  return {comm->ctx.get(), comm->rank};
}

FlatP flat_of(MPI_Datatype t, const char* fn, bool need_commit = true) {
  if (t == MPI_DATATYPE_NULL)
    bad(std::string(fn) + " with MPI_DATATYPE_NULL");
  if (t->kind >= 0) {
    static FlatP cache[K_END];
    auto& f = cache[t->kind];
    if (!f) {
      auto n = std::make_shared<Flat>();
      n->runs.push_back({t->kind, 0, 1, t->esize});
      n->size = t->esize;
      n->ub = static_cast<MPI_Aint>(t->esize);
      f = n;
    }
    return f;
  }
  if (t->freed)
    bad(std::string(fn) + " with a datatype that was freed");
  if (need_commit && !t->committed)
    bad(std::string(fn) + " with a datatype that was not committed");
  return t->flat;
}

void append(Flat& f, const Flat& in, MPI_Aint off) {
  for (const auto& r : in.runs) {
    if (!f.runs.empty()) {
      auto& l = f.runs.back();
      if (l.kind == r.kind && l.off + static_cast<MPI_Aint>(l.n * l.esize) == r.off + off) {
        l.n += r.n;
        continue;
      }
    }
    f.runs.push_back({r.kind, r.off + off, r.n, r.esize});
  }
  f.size += in.size;
}
void bounds(Flat& f, MPI_Aint lo, MPI_Aint hi, bool first) {
  if (first) {
    f.lb = lo;
    f.ub = hi;
  }
  else {
    f.lb = std::min(f.lb, lo);
    f.ub = std::max(f.ub, hi);
  }
}

template <class F>
void each_run(const Flat& f, long count, F&& fn) {
  // contiguous types in one go
  if (f.runs.size() == 1 && static_cast<MPI_Aint>(f.size) == f.extent() && count > 0) {
    const auto& r = f.runs[0];
    fn(r.kind, r.off, r.n * static_cast<std::size_t>(count), r.esize);
    return;
  }
  for (long i = 0; i < count; ++i)
    for (const auto& r : f.runs)
      fn(r.kind, r.off + i * f.extent(), r.n, r.esize);
}
std::vector<char> pack(const void* buf, const Flat& f, long count) {
  std::vector<char> d(f.size * static_cast<std::size_t>(count));
  std::size_t p = 0;
  each_run(f, count, [&](int, MPI_Aint off, std::size_t n, std::size_t es) {
    std::memcpy(d.data() + p, static_cast<const char*>(buf) + off, n * es);
    p += n * es;
  });
  return d;
}
std::size_t unpack(void* buf, const Flat& f, long count, const char* data, std::size_t bytes) {
  std::size_t p = 0;
  each_run(f, count, [&](int, MPI_Aint off, std::size_t n, std::size_t es) {
    const std::size_t k = std::min(n * es, bytes - p);
    if (k)
      std::memcpy(static_cast<char*>(buf) + off, data + p, k);
    p += k;
  });
  return p;
}
constexpr unsigned char kPoison = 0xFF;
void poison(void* buf, const Flat& f, long count) {
  each_run(f, count, [&](int, MPI_Aint off, std::size_t n, std::size_t es) {
    std::memset(static_cast<char*>(buf) + off, kPoison, n * es);
  });
}
bool poisoned(const void* buf, const Flat& f, long count) {
  bool ok = true;
  each_run(f, count, [&](int, MPI_Aint off, std::size_t n, std::size_t es) {
    const char* p = static_cast<const char*>(buf) + off;
    for (std::size_t i = 0; ok && i < n * es; ++i)
      ok = static_cast<unsigned char>(p[i]) == kPoison;
  });
  return ok;
}
Sig sig_of(const Flat& f, long count) {
  Sig s;
  each_run(f, count, [&](int kind, MPI_Aint, std::size_t n, std::size_t) {
    if (n == 0)
      return;
    if (!s.empty() && s.back().first == kind)
      s.back().second += n;
    else
      s.push_back({kind, n});
  });
  return s;
}
std::string str(const Sig& s) {
  std::string o = "{";
  for (auto& [k, n] : s)
    o += std::to_string(n) + " x " + kind_names[k] + " ";
  return o + "}";
}
// a is a prefix of b
bool sig_prefix(const Sig& a, const Sig& b) {
  for (std::size_t i = 0; i < a.size(); ++i) {
    if (i >= b.size() || a[i].first != b[i].first)
      return false;
    if (i + 1 < a.size() ? a[i].second != b[i].second : a[i].second > b[i].second)
      return false;
  }
  return true;
}
std::pair<const char*, const char*> span(const void* buf, const Flat& f, long count) {
  if (count <= 0 || f.size == 0)
    return {nullptr, nullptr};
  const char* b = static_cast<const char*>(buf);
  return {b + f.lb, b + f.ub + (count - 1) * f.extent()};
}

void check_count(long count, const char* fn) {
  if (count < 0)
    bad(std::string(fn) + " with the negative count " + std::to_string(count));
}
void check_buf(const void* buf, const Flat& f, long count, const char* fn) {
  if (count > 0 && f.size > 0 && buf == nullptr)
    bad(std::string(fn) + " with a null buffer");
  if (count > 0 && f.size > 0 && buf == MPI_IN_PLACE)
    bad(std::string(fn) + " with MPI_IN_PLACE where it is not allowed");
}

MPI_Request new_request(const std::string& what) {
  auto* r = new simmpi_request_s;
  r->rank = sim::cur_rank();
  r->what = what;
  W.requests.insert(r);
  sim::external_begin();
  return r;
}
void free_request(MPI_Request r) {
  W.requests.erase(r);
  delete r;
}
// now, on the rank of the request
void finish(MPI_Request r) {
  r->done = true;
  sim::external_end(r->rank);
  auto then = std::move(r->then);
  r->then = nullptr;
  if (then) {
    free_request(r);
    then();
    return;
  }
  if (r->detached) {
    free_request(r);
    return;
  }
  r->waiters.wake_all();
}
void finish_later(MPI_Request r, std::function<void()> fin) {
  sim::post(
      [r, fin = std::move(fin)] {
        if (fin)
          fin();
        finish(r);
      },
      1, r->rank);
}

// ---------------------------------------------------------------- point to point
bool eager_now() {
  switch (sim::config().mpi_mode) {
    case sim::MpiMode::Eager:
      return true;
    case sim::MpiMode::Rendezvous:
      return false;
    case sim::MpiMode::Mixed:
      return sim::random_u64() & 1;
  }
  return true;
}

void deliver(Context*, Msg m, Posted p) {
  const Sig rs = sig_of(*p.flat, p.count);
  if (m.data.size() > p.flat->size * static_cast<std::size_t>(p.count))
    bad("message of " + std::to_string(m.data.size()) + " bytes truncated by a receive of " +
        std::to_string(p.flat->size * static_cast<std::size_t>(p.count)) + " bytes (source " +
        std::to_string(m.src) + ", tag " + std::to_string(m.tag) + ")");
  const bool bytes = (m.sig.size() == 1 && m.sig[0].first == K_PACKED) || (rs.size() == 1 && rs[0].first == K_PACKED);
  if (!bytes && !sig_prefix(m.sig, rs))
    bad("type mismatch: sent " + str(m.sig) + " received as " + str(rs) + " (source " + std::to_string(m.src) +
        ", tag " + std::to_string(m.tag) + ")");
  if (m.sreq)
    finish_later(m.sreq, m.verify);
  MPI_Request r = p.req;
  r->st.MPI_SOURCE = m.src;
  r->st.MPI_TAG = m.tag;
  r->st.simmpi_bytes = static_cast<std::int64_t>(m.data.size());
  finish_later(r, [p, data = std::move(m.data), verify = std::move(m.verify)] {
    if (verify)
      verify();
    if (!poisoned(p.buf, *p.flat, p.count))
      bad("the buffer of a pending receive was modified before the receive completed");
    unpack(p.buf, *p.flat, p.count, data.data(), data.size());
  });
}

bool matches(int want_src, int want_tag, int src, int tag) {
  return (want_src == MPI_ANY_SOURCE || want_src == src) && (want_tag == MPI_ANY_TAG || want_tag == tag);
}

MPI_Request start_send(const void* buf, int count, MPI_Datatype t, int dst, int tag, MPI_Comm comm, const char* fn,
                       bool sync) {
  auto [c, me] = resolve(comm, fn);
  check_count(count, fn);
  FlatP f = flat_of(t, fn);
  check_buf(buf, *f, count, fn);
  if (tag < 0)
    bad(std::string(fn) + " with tag " + std::to_string(tag));
  if (dst != MPI_PROC_NULL && (dst < 0 || dst >= static_cast<int>(c->members.size())))
    bad(std::string(fn) + " to rank " + std::to_string(dst) + " of " + std::to_string(c->members.size()));
  MPI_Request r = new_request(fn);
  if (dst == MPI_PROC_NULL) {
    finish_later(r, nullptr);
    return r;
  }
  ++sim::stats().p2p;
  Msg m;
  m.src = me;
  m.tag = tag;
  m.data = pack(buf, *f, count);
  m.sig = sig_of(*f, count);
  // The buffer has to keep the message until the message is out or has reached its destination,
  // whichever comes first.
  m.verify = [buf, f, count, copy = m.data, done = std::make_shared<bool>(false)] {
    if (std::exchange(*done, true))
      return;
    if (pack(buf, *f, count) != copy)
      bad("the buffer of a pending send was modified before the send completed");
  };
  const bool eager = !sync && eager_now();
  if (eager)
    finish_later(r, m.verify);
  else
    m.sreq = r;
  auto& posted = c->posted[static_cast<std::size_t>(dst)];
  for (auto it = posted.begin(); it != posted.end(); ++it)
    if (matches(it->src, it->tag, me, tag)) {
      Posted p = *it;
      posted.erase(it);
      deliver(c, std::move(m), p);
      return r;
    }
  c->unexpected[static_cast<std::size_t>(dst)].push_back(std::move(m));
  c->probers[static_cast<std::size_t>(dst)].wake_all();
  return r;
}

MPI_Request start_recv(void* buf, int count, MPI_Datatype t, int src, int tag, MPI_Comm comm, const char* fn) {
  auto [c, me] = resolve(comm, fn);
  check_count(count, fn);
  FlatP f = flat_of(t, fn);
  check_buf(buf, *f, count, fn);
  if (tag < 0 && tag != MPI_ANY_TAG)
    bad(std::string(fn) + " with tag " + std::to_string(tag));
  if (src != MPI_PROC_NULL && src != MPI_ANY_SOURCE && (src < 0 || src >= static_cast<int>(c->members.size())))
    bad(std::string(fn) + " from rank " + std::to_string(src) + " of " + std::to_string(c->members.size()));
  MPI_Request r = new_request(fn);
  if (src == MPI_PROC_NULL) {
    r->st.MPI_SOURCE = MPI_PROC_NULL;
    finish_later(r, nullptr);
    return r;
  }
  poison(buf, *f, count);
  Posted p{src, tag, static_cast<char*>(buf), f, count, r};
  auto& un = c->unexpected[static_cast<std::size_t>(me)];
  // any source: which of the pending sources matches first is not specified
  std::vector<std::list<Msg>::iterator> cand;
  std::set<int> srcs;
  for (auto it = un.begin(); it != un.end(); ++it)
    if (matches(src, tag, it->src, it->tag) && srcs.insert(it->src).second)
      cand.push_back(it);
  if (!cand.empty()) {
    auto it = cand[cand.size() == 1 ? 0 : sim::random_u64() % cand.size()];
    Msg m = std::move(*it);
    un.erase(it);
    deliver(c, std::move(m), p);
    return r;
  }
  c->posted[static_cast<std::size_t>(me)].push_back(p);
  return r;
}

void wait(MPI_Request* req, MPI_Status* st) {
  if (*req == MPI_REQUEST_NULL) {
    if (st)
      *st = MPI_Status{MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_SUCCESS, 0, 0};
    return;
  }
  MPI_Request r = *req;
  if (!W.requests.count(r))
    bad("wait on a request that does not exist");
  const std::string what = r->what;
  while (!r->done)
    r->waiters.wait(r->what.c_str());
  if (st)
    *st = r->st;
  free_request(r);
  *req = MPI_REQUEST_NULL;
}

// ---------------------------------------------------------------- collectives
template <class T>
void reduce_t(int op, T* acc, const T* x, std::size_t n, bool& ok) {
  for (std::size_t i = 0; i < n; ++i) {
    if constexpr (std::is_same_v<T, cfloat> || std::is_same_v<T, cdouble>) {
      if (op == O_SUM)
        acc[i] += x[i];
      else if (op == O_PROD)
        acc[i] *= x[i];
      else
        ok = false;
    }
    else if constexpr (std::is_same_v<T, bool>) {
      if (op == O_LAND)
        acc[i] = acc[i] && x[i];
      else if (op == O_LOR)
        acc[i] = acc[i] || x[i];
      else if (op == O_LXOR)
        acc[i] = acc[i] != x[i];
      else
        ok = false;
    }
    else {
      switch (op) {
        case O_SUM:
          acc[i] = static_cast<T>(acc[i] + x[i]);
          break;
        case O_PROD:
          acc[i] = static_cast<T>(acc[i] * x[i]);
          break;
        case O_MAX:
          acc[i] = std::max(acc[i], x[i]);
          break;
        case O_MIN:
          acc[i] = std::min(acc[i], x[i]);
          break;
        default:
          if constexpr (std::is_integral_v<T>) {
            if (op == O_LAND)
              acc[i] = static_cast<T>(acc[i] && x[i]);
            else if (op == O_LOR)
              acc[i] = static_cast<T>(acc[i] || x[i]);
            else if (op == O_LXOR)
              acc[i] = static_cast<T>(!acc[i] != !x[i]);
            else if (op == O_BAND)
              acc[i] = static_cast<T>(acc[i] & x[i]);
            else if (op == O_BOR)
              acc[i] = static_cast<T>(acc[i] | x[i]);
            else if (op == O_BXOR)
              acc[i] = static_cast<T>(acc[i] ^ x[i]);
            else
              ok = false;
          }
          else
            ok = false;
      }
    }
  }
}
void reduce_bytes(MPI_Op op, int kind, char* acc, const char* x, std::size_t bytes, MPI_Datatype user_t) {
  if (op->kind == O_USER) {
    std::size_t es = 1;
    switch (kind) {
#define X(N, T)        \
  case K_##N:          \
    es = sizeof(T);    \
    break;
      SIMMPI_TYPES(X)
#undef X
    }
    int n = static_cast<int>(bytes / es);
    op->fn(const_cast<char*>(x), acc, &n, &user_t);
    return;
  }
  bool ok = true;
  if (kind == K_CHAR || kind == K_WCHAR || kind == K_PACKED)
    ok = false;  // not valid in reductions
  else
    switch (kind) {
#define X(N, T)                                                                                                  \
  case K_##N:                                                                                                    \
    reduce_t<T>(op->kind, reinterpret_cast<T*>(acc), reinterpret_cast<const T*>(x), bytes / sizeof(T), ok);      \
    break;
      SIMMPI_TYPES(X)
#undef X
    }
  // MPI_CHAR is no arithmetic type for MPI, but the implementations the project runs on accept it
  if (kind == K_CHAR) {
    ok = true;
    reduce_t<char>(op->kind, acc, x, bytes, ok);
  }
  if (!ok)
    bad(std::string("reduction ") + op_names[op->kind] + " is not defined for " + kind_names[kind]);
}

MPI_Comm make_comm(const std::shared_ptr<Context>& ctx, int rank) {
  auto c = std::make_unique<simmpi_comm_s>();
  c->ctx = ctx;
  c->rank = rank;
  c->owner = ctx->members[static_cast<std::size_t>(rank)];
  MPI_Comm r = c.get();
  W.comms.push_back(std::move(c));
  ++W.live_comms;
  return r;
}

bool is(const Part& p, const char* k) {
  return std::strcmp(p.kind, k) == 0;
}

void complete_part(Context*, Part& p, std::function<void()> fin) {
  p.completed = true;
  // the memory handed to the call has to be untouched while the operation is pending
  auto sbuf = p.sbuf;
  auto sflat = p.sflat;
  auto scount = p.scount;
  auto data = p.data;
  auto rbuf = p.rbuf;
  auto rflat = p.rflat;
  auto rcount = p.rcount;
  const bool inpl = p.in_place;
  const char* kind = p.kind;
  finish_later(p.req, [=, fin = std::move(fin)] {
    if (sbuf && sflat && pack(sbuf, *sflat, scount) != data)
      bad(std::string(kind) + ": the send buffer was modified before the operation completed");
    if (rbuf && rflat && !inpl && !poisoned(rbuf, *rflat, rcount))
      bad(std::string(kind) + ": the receive buffer was modified before the operation completed");
    if (fin)
      fin();
  });
}

std::vector<char> reduce_all(Context*, Coll& co, long upto = -1) {
  const auto n = static_cast<long>(co.parts.size());
  const long m = upto < 0 ? n : upto;
  // order of the operands: a rotation chosen from the seed (the same for every rank of the operation)
  const long s = upto >= 0 || sim::config().task_order == sim::TaskOrder::Fifo
                     ? 0
                     : static_cast<long>(sim::random_u64() % static_cast<std::uint64_t>(m));
  std::vector<char> acc = co.parts[static_cast<std::size_t>(s)].data;
  const int kind = co.parts[0].sig.empty() ? K_INT : co.parts[0].sig[0].first;
  for (long i = 1; i < m; ++i) {
    auto& p = co.parts[static_cast<std::size_t>((s + i) % m)];
    reduce_bytes(p.op, kind, acc.data(), p.data.data(), acc.size(), nullptr);
  }
  return acc;
}

void progress(Context* c, std::uint64_t seq) {
  auto cit = c->colls.find(seq);
  Coll& co = cit->second;
  const auto n = co.parts.size();
  const bool all = co.arrived == static_cast<int>(n);
  // consistency with the first arrival
  const Part* first = nullptr;
  for (auto& p : co.parts)
    if (p.arrived) {
      if (!first) {
        first = &p;
        continue;
      }
      auto desc = [&](const Part& q) {
        std::string s = std::string(q.nonblocking ? "I" : "") + q.kind + " root " + std::to_string(q.root);
        if (q.op)
          s += std::string(" ") + op_names[q.op->kind];
        return s;
      };
      if (!is(p, first->kind) || p.nonblocking != first->nonblocking || p.root != first->root ||
          (p.op == nullptr) != (first->op == nullptr) || (p.op && p.op->kind != first->op->kind))
        bad("collective mismatch on context " + std::to_string(c->id) + " operation " + std::to_string(seq) + ": " +
            desc(*first) + " vs " + desc(p));
      if (is(p, "Bcast") || is(p, "Reduce") || is(p, "Allreduce") || is(p, "Scan") || is(p, "Exscan"))
        if (p.sig != first->sig)
          bad(std::string(p.kind) + " with different data on the ranks: " + str(first->sig) + " vs " + str(p.sig));
      if (is(p, "Allreduce") && p.in_place != first->in_place)
        bad("Allreduce: MPI_IN_PLACE on some ranks only");
    }
  auto done_count = [&] {
    co.completed = 0;
    for (auto& p : co.parts)
      co.completed += p.completed;
  };
  auto plain = [&](Part& p) { complete_part(c, p, nullptr); };

  if (is(*first, "Bcast")) {
    Part& root = co.parts[static_cast<std::size_t>(first->root)];
    if (root.arrived && !root.completed && (root.eager || all))
      plain(root);
    for (std::size_t i = 0; i < n; ++i) {
      Part& p = co.parts[i];
      if (!p.arrived || p.completed || static_cast<int>(i) == p.root || !root.arrived)
        continue;
      complete_part(c, p, [rb = p.rbuf, rf = p.rflat, rc = p.rcount, data = root.data] {
        unpack(rb, *rf, rc, data.data(), data.size());
      });
    }
  }
  else if (is(*first, "Reduce")) {
    for (std::size_t i = 0; i < n; ++i) {
      Part& p = co.parts[i];
      if (!p.arrived || p.completed)
        continue;
      if (static_cast<int>(i) != p.root) {
        if (p.eager || all)
          plain(p);
      }
      else if (all) {
        auto acc = reduce_all(c, co);
        complete_part(c, p, [rb = p.rbuf, rf = p.rflat, rc = p.rcount, acc] { unpack(rb, *rf, rc, acc.data(), acc.size()); });
      }
    }
  }
  else if (is(*first, "Gather") || is(*first, "Gatherv")) {
    for (std::size_t i = 0; i < n; ++i) {
      Part& p = co.parts[i];
      if (!p.arrived || p.completed)
        continue;
      if (static_cast<int>(i) != p.root) {
        if (p.eager || all)
          plain(p);
      }
      else if (all) {
        std::vector<std::vector<char>> d;
        for (auto& q : co.parts)
          d.push_back(q.data);
        const int me = static_cast<int>(i);
        complete_part(c, p,
                      [rb = p.rbuf, rf = p.rflat, rc = p.rcount, rcs = p.rcounts, dis = p.displs, d, inpl = p.in_place, me] {
                        for (std::size_t k = 0; k < d.size(); ++k) {
                          if (inpl && static_cast<int>(k) == me)
                            continue;
                          const long cnt = rcs.empty() ? rc / static_cast<long>(d.size()) : rcs[k];
                          const long dsp = rcs.empty() ? cnt * static_cast<long>(k) : dis[k];
                          if (d[k].size() != rf->size * static_cast<std::size_t>(cnt))
                            bad("gather: size mismatch");
                          unpack(rb + dsp * rf->extent(), *rf, cnt, d[k].data(), d[k].size());
                        }
                      });
      }
    }
  }
  else if (is(*first, "Scatter")) {
    Part& root = co.parts[static_cast<std::size_t>(first->root)];
    if (root.arrived)
      for (std::size_t i = 0; i < n; ++i) {
        Part& p = co.parts[i];
        if (!p.arrived || p.completed || (static_cast<int>(i) == p.root && !(root.eager || all)))
          continue;
        const std::size_t k = root.data.size() / n;
        std::vector<char> mine(root.data.begin() + static_cast<long>(k * i), root.data.begin() + static_cast<long>(k * (i + 1)));
        complete_part(c, p, [rb = p.rbuf, rf = p.rflat, rc = p.rcount, mine, inpl = p.in_place] {
          if (!inpl) {
            if (mine.size() != rf->size * static_cast<std::size_t>(rc))
              bad("scatter: size mismatch");
            unpack(rb, *rf, rc, mine.data(), mine.size());
          }
        });
      }
  }
  else if (is(*first, "Exscan") || is(*first, "Scan")) {
    if (all)
      for (std::size_t i = 0; i < n; ++i) {
        Part& p = co.parts[i];
        const bool ex = is(p, "Exscan");
        if (ex && i == 0) {
          p.rflat = nullptr;
          plain(p);
          continue;
        }
        auto acc = reduce_all(c, co, static_cast<long>(ex ? i : i + 1));
        complete_part(c, p, [rb = p.rbuf, rf = p.rflat, rc = p.rcount, acc] { unpack(rb, *rf, rc, acc.data(), acc.size()); });
      }
  }
  else if (all) {
    if (is(*first, "Barrier"))
      for (auto& p : co.parts)
        plain(p);
    else if (is(*first, "Allreduce")) {
      auto acc = reduce_all(c, co);
      for (auto& p : co.parts)
        complete_part(c, p, [rb = p.rbuf, rf = p.rflat, rc = p.rcount, acc] { unpack(rb, *rf, rc, acc.data(), acc.size()); });
    }
    else if (is(*first, "Allgather") || is(*first, "Allgatherv")) {
      std::vector<std::vector<char>> d;
      for (auto& q : co.parts)
        d.push_back(q.data);
      for (std::size_t i = 0; i < n; ++i) {
        Part& p = co.parts[i];
        complete_part(c, p, [rb = p.rbuf, rf = p.rflat, rc = p.rcount, rcs = p.rcounts, dis = p.displs, d] {
          for (std::size_t k = 0; k < d.size(); ++k) {
            const long cnt = rcs.empty() ? rc / static_cast<long>(d.size()) : rcs[k];
            const long dsp = rcs.empty() ? cnt * static_cast<long>(k) : dis[k];
            if (d[k].size() != rf->size * static_cast<std::size_t>(cnt))
              bad("allgather: size mismatch");
            unpack(rb + dsp * rf->extent(), *rf, cnt, d[k].data(), d[k].size());
          }
        });
      }
    }
    else if (is(*first, "Alltoall")) {
      for (std::size_t i = 0; i < n; ++i) {
        Part& p = co.parts[i];
        std::vector<char> mine;
        for (auto& q : co.parts) {
          const std::size_t k = q.data.size() / n;
          mine.insert(mine.end(), q.data.begin() + static_cast<long>(k * i), q.data.begin() + static_cast<long>(k * (i + 1)));
        }
        complete_part(c, p, [rb = p.rbuf, rf = p.rflat, rc = p.rcount, mine] { unpack(rb, *rf, rc, mine.data(), mine.size()); });
      }
    }
    else if (is(*first, "Comm_dup")) {
      auto ctx = new_context(c->members);
      for (std::size_t i = 0; i < n; ++i) {
        Part& p = co.parts[i];
        complete_part(c, p, [out = p.out, ctx, i] { *out = make_comm(ctx, static_cast<int>(i)); });
      }
    }
    else if (is(*first, "Comm_split") || is(*first, "Comm_create")) {
      std::map<int, std::vector<std::pair<int, int>>> groups;  // color -> (key, rank)
      for (std::size_t i = 0; i < n; ++i) {
        Part& p = co.parts[i];
        if (p.color != MPI_UNDEFINED)
          groups[p.color].push_back({p.key, static_cast<int>(i)});
        else
          complete_part(c, p, [out = p.out] { *out = MPI_COMM_NULL; });
      }
      for (auto& [col, v] : groups) {
        std::stable_sort(v.begin(), v.end());
        std::vector<int> mem;
        for (auto& [k, r] : v)
          mem.push_back(c->members[static_cast<std::size_t>(r)]);
        auto ctx = new_context(mem);
        for (std::size_t k = 0; k < v.size(); ++k) {
          Part& p = co.parts[static_cast<std::size_t>(v[k].second)];
          complete_part(c, p, [out = p.out, ctx, k] { *out = make_comm(ctx, static_cast<int>(k)); });
        }
      }
    }
    else
      bad(std::string("unknown collective ") + first->kind);
  }
  done_count();
  if (co.completed == static_cast<int>(n))
    c->colls.erase(cit);
}

MPI_Request start_coll(MPI_Comm comm, Part p) {
  auto [c, me] = resolve(comm, p.kind);
  const auto n = c->members.size();
  if (p.root != -1 && (p.root < 0 || p.root >= static_cast<int>(n)))
    bad(std::string(p.kind) + " with root " + std::to_string(p.root) + " of " + std::to_string(n));
  ++sim::stats().collectives;
  p.arrived = true;
  p.eager = eager_now();
  p.req = new_request(p.kind);
  const std::uint64_t s = c->seq[static_cast<std::size_t>(me)]++;
  auto& co = c->colls[s];
  if (co.parts.empty())
    co.parts.resize(n);
  if (p.rbuf && p.rflat && !p.in_place)
    poison(p.rbuf, *p.rflat, p.rcount);
  co.parts[static_cast<std::size_t>(me)] = std::move(p);
  MPI_Request r = co.parts[static_cast<std::size_t>(me)].req;
  ++co.arrived;
  progress(c, s);
  return r;
}

void overlap_check(const void* a, const Flat& fa, long na, const void* b, const Flat& fb, long nb, const char* fn) {
  auto [a0, a1] = span(a, fa, na);
  auto [b0, b1] = span(b, fb, nb);
  if (a0 && b0 && a0 < b1 && b0 < a1) {
    // interleaved strided buffers may be disjoint: compare runs
    std::vector<std::pair<const char*, const char*>> ra;
    each_run(fa, na, [&](int, MPI_Aint off, std::size_t n, std::size_t es) {
      ra.push_back({static_cast<const char*>(a) + off, static_cast<const char*>(a) + off + n * es});
    });
    each_run(fb, nb, [&](int, MPI_Aint off, std::size_t n, std::size_t es) {
      const char *x0 = static_cast<const char*>(b) + off, *x1 = x0 + n * es;
      for (auto& [y0, y1] : ra)
        if (x0 < y1 && y0 < x1)
          bad(std::string(fn) + ": send and receive buffers overlap");
    });
  }
}

MPI_Request coll_reduce(const char* kind, const void* s, void* r, int count, MPI_Datatype t, MPI_Op op, int root,
                        MPI_Comm comm, bool nb) {
  auto [c, me] = resolve(comm, kind);
  check_count(count, kind);
  FlatP f = flat_of(t, kind);
  if (op == MPI_OP_NULL)
    bad(std::string(kind) + " with MPI_OP_NULL");
  if (op->freed)
    bad(std::string(kind) + " with an operation that was freed");
  if (t->kind < 0 && op->kind != O_USER)
    bad(std::string(kind) + ": a predefined operation on a derived datatype");
  Part p;
  p.kind = kind;
  p.nonblocking = nb;
  p.op = op;
  p.root = root;
  p.sig = sig_of(*f, count);
  const bool recv = root == -1 || root == me;
  p.in_place = s == MPI_IN_PLACE;
  if (p.in_place && !recv)
    bad(std::string(kind) + ": MPI_IN_PLACE on a rank that is not the root");
  const void* from = p.in_place ? r : s;
  check_buf(from, *f, count, kind);
  p.data = pack(from, *f, count);
  p.sbuf = static_cast<const char*>(from);
  p.sflat = f;
  p.scount = count;
  if (recv) {
    check_buf(r, *f, count, kind);
    if (!p.in_place)
      overlap_check(s, *f, count, r, *f, count, kind);
    p.rbuf = static_cast<char*>(r);
    p.rflat = f;
    p.rcount = count;
  }
  return start_coll(comm, std::move(p));
}

MPI_Request coll_bcast(void* b, int count, MPI_Datatype t, int root, MPI_Comm comm, bool nb) {
  auto [c, me] = resolve(comm, "Bcast");
  check_count(count, "Bcast");
  FlatP f = flat_of(t, "Bcast");
  check_buf(b, *f, count, "Bcast");
  Part p;
  p.kind = "Bcast";
  p.nonblocking = nb;
  p.root = root;
  p.sig = sig_of(*f, count);
  if (root == me) {
    p.data = pack(b, *f, count);
    p.sbuf = static_cast<const char*>(b);
    p.sflat = f;
    p.scount = count;
  }
  else {
    p.rbuf = static_cast<char*>(b);
    p.rflat = f;
    p.rcount = count;
  }
  return start_coll(comm, std::move(p));
}

MPI_Request coll_gather(const char* kind, const void* s, int sc, MPI_Datatype st, void* r, int rc, MPI_Datatype rt,
                        const int* rcs, const int* dis, int root, MPI_Comm comm, bool nb) {
  auto [c, me] = resolve(comm, kind);
  const auto n = static_cast<int>(c->members.size());
  Part p;
  p.kind = kind;
  p.nonblocking = nb;
  p.root = root;
  const bool recv = root == -1 || root == me;
  if (recv) {
    p.rflat = flat_of(rt, kind);
    p.rbuf = static_cast<char*>(r);
    if (rcs) {
      p.rcounts.assign(rcs, rcs + n);
      p.displs.assign(dis, dis + n);
      p.rcount = 0;
    }
    else
      p.rcount = static_cast<long>(rc) * n;
  }
  p.in_place = s == MPI_IN_PLACE;
  if (p.in_place) {
    const long cnt = rcs ? rcs[me] : rc;
    const long dsp = rcs ? dis[me] : static_cast<long>(rc) * me;
    p.data = pack(p.rbuf + dsp * p.rflat->extent(), *p.rflat, cnt);
  }
  else {
    p.sflat = flat_of(st, kind);
    check_buf(s, *p.sflat, sc, kind);
    p.sbuf = static_cast<const char*>(s);
    p.scount = sc;
    p.data = pack(s, *p.sflat, sc);
  }
  return start_coll(comm, std::move(p));
}

int blocking(MPI_Request r) {
  wait(&r, MPI_STATUS_IGNORE);
  return MPI_SUCCESS;
}

MPI_Datatype new_type(Flat&& f) {
  auto t = std::make_unique<simmpi_type_s>();
  t->kind = -1;
  t->owner = sim::cur_rank();
  t->flat = std::make_shared<Flat>(std::move(f));
  MPI_Datatype r = t.get();
  W.types.push_back(std::move(t));
  ++W.live_types;
  return r;
}

MPI_Request comm_coll(const char* kind, MPI_Comm comm, int color, int key, MPI_Comm* out) {
  Part p;
  p.kind = kind;
  p.color = color;
  p.key = key;
  p.out = out;
  return start_coll(comm, std::move(p));
}
}  // namespace

// ---------------------------------------------------------------- run life cycle
namespace sim {
void mpi_run_begin(int n) {
  for (auto r : W.requests)
    delete r;
  W = World{};
  W.n = n;
  W.calls.assign(static_cast<std::size_t>(n), 0);
  std::vector<int> all;
  for (int i = 0; i < n; ++i)
    all.push_back(i);
  simmpi_comm_world.ctx = new_context(all);
  for (int i = 0; i < n; ++i)
    W.self.push_back(new_context({i}));
}
void mpi_run_end() {
  if (W.leaks) {
    for (auto& c : W.contexts)
      for (std::size_t d = 0; d < c->unexpected.size(); ++d) {
        for (auto& m : c->unexpected[d])
          sim::fail("mpi", "a message from rank " + std::to_string(m.src) + " to rank " + std::to_string(d) + " tag " +
                               std::to_string(m.tag) + " was never received");
        if (!c->posted[d].empty())
          sim::fail("mpi", "a posted receive was never matched");
      }
    for (auto r : W.requests)
      sim::fail("mpi-leak", "a request (" + r->what + ") of rank " + std::to_string(r->rank) +
                                " was never completed by the program");
    for (auto& t : W.types)
      if (!t->freed)
        sim::fail("mpi-leak", "a datatype of rank " + std::to_string(t->owner) + " was never freed");
    for (auto& c : W.comms)
      if (!c->freed)
        sim::fail("mpi-leak", "a communicator of rank " + std::to_string(c->owner) + " was never freed");
  }
}
std::string mpi_pending_description() {
  std::ostringstream s;
  int shown = 0;
  for (auto& c : W.contexts) {
    for (auto& [seq, co] : c->colls) {
      if (co.arrived == static_cast<int>(co.parts.size()) || shown++ > 8)
        continue;
      s << "{context " << c->id << " collective " << seq;
      for (std::size_t i = 0; i < co.parts.size(); ++i)
        s << " " << i << ":" << (co.parts[i].arrived ? co.parts[i].kind : "-");
      s << "} ";
    }
    for (std::size_t d = 0; d < c->posted.size(); ++d) {
      for (auto& p : c->posted[d])
        if (shown++ < 8)
          s << "{context " << c->id << " rank " << d << " receives from " << p.src << " tag " << p.tag << "} ";
      for (auto& m : c->unexpected[d])
        if (shown++ < 8)
          s << "{context " << c->id << " message " << m.src << "->" << d << " tag " << m.tag << " not received} ";
    }
  }
  return s.str();
}
}  // namespace sim

namespace simmpi {
Process& process() {
  return g_process;
}
void on_done(MPI_Request r, std::function<void()> f) {
  if (!W.requests.count(r))
    bad("the request does not exist");
  if (r->done) {
    const int rank = r->rank;
    free_request(r);
    sim::post(std::move(f), 1, rank);
    return;
  }
  r->then = std::move(f);
}
bool done(MPI_Request r) {
  return r->done;
}
Alive alive() {
  Alive a;
  a.comms = W.live_comms;
  a.types = W.live_types;
  a.requests = static_cast<long>(W.requests.size());
  for (auto& o : W.ops)
    a.ops += !o->freed;
  for (auto& o : W.groups)
    a.groups += !o->freed;
  return a;
}
bool comm_alive(MPI_Comm c) {
  if (c == MPI_COMM_WORLD || c == MPI_COMM_SELF)
    return true;
  for (auto& p : W.comms)
    if (p.get() == c)
      return !p->freed;
  return false;
}
bool type_alive(MPI_Datatype t) {
  if (t == MPI_DATATYPE_NULL)
    return false;
  for (auto& p : W.types)
    if (p.get() == t)
      return !p->freed;
#define X(N, T)            \
  if (t == &simmpi_t_##N)  \
    return true;
  SIMMPI_TYPES(X)
#undef X
  return false;
}
void check_leaks(bool on) {
  W.leaks = on;
}
std::uint64_t context_id(MPI_Comm c) {
  return resolve(c, "context_id").c->id;
}
void inject_error(int rank, long n) {
  W.inject_rank = rank;
  W.inject_at = n < 0 ? -1 : W.calls[static_cast<std::size_t>(rank)] + n;
  W.injected = false;
}
bool injected() {
  return W.injected;
}
long calls(int rank) {
  return W.calls[static_cast<std::size_t>(rank)];
}
void set_abort_hook(void (*h)(int)) {
  g_abort_hook = h;
}
}  // namespace simmpi

// ---------------------------------------------------------------- the C interface
extern "C" {
int MPI_Init(int*, char***) {
  ++g_process.inits;
  g_process.level = MPI_THREAD_SINGLE;
  return MPI_SUCCESS;
}
int MPI_Init_thread(int*, char***, int required, int* p) {
  ++g_process.inits;
  *p = g_process.level = std::min(required, g_process.supported);
  return MPI_SUCCESS;
}
int MPI_Initialized(int* f) {
  *f = 1;
  return MPI_SUCCESS;
}
int MPI_Finalized(int* f) {
  *f = 0;
  return MPI_SUCCESS;
}
int MPI_Finalize(void) {
  ++g_process.finalizes;
  return MPI_SUCCESS;
}
int MPI_Query_thread(int* p) {
  *p = g_process.level;
  return MPI_SUCCESS;
}
int MPI_Is_thread_main(int* f) {
  *f = 1;
  return MPI_SUCCESS;
}
int MPI_Abort(MPI_Comm, int code) {
  g_process.abort_code = code;
  if (g_abort_hook)
    g_abort_hook(sim::cur_rank());
  sim::fail("mpi-abort", "MPI_Abort called on rank " + std::to_string(sim::cur_rank()));
}
int MPI_Error_string(int e, char* s, int* n) {
  *n = std::snprintf(s, MPI_MAX_ERROR_STRING, "simulated MPI error %d", e);
  return MPI_SUCCESS;
}
int MPI_Error_class(int e, int* c) {
  *c = e;
  return MPI_SUCCESS;
}
int MPI_Get_processor_name(char* s, int* n) {
  *n = std::snprintf(s, MPI_MAX_PROCESSOR_NAME, "simulated");
  return MPI_SUCCESS;
}
int MPI_Get_library_version(char* s, int* n) {
  *n = std::snprintf(s, MPI_MAX_LIBRARY_VERSION_STRING, "simmpi");
  return MPI_SUCCESS;
}
int MPI_Get_version(int* a, int* b) {
  *a = 3;
  *b = 1;
  return MPI_SUCCESS;
}
double MPI_Wtime(void) {
  return static_cast<double>(sim::stats().steps) * 1e-6;
}
double MPI_Wtick(void) {
  return 1e-6;
}

int MPI_Comm_rank(MPI_Comm c, int* r) {
  ENTER("MPI_Comm_rank");
  *r = resolve(c, "MPI_Comm_rank").me;
  return MPI_SUCCESS;
}
int MPI_Comm_size(MPI_Comm c, int* n) {
  ENTER("MPI_Comm_size");
  *n = static_cast<int>(resolve(c, "MPI_Comm_size").c->members.size());
  return MPI_SUCCESS;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* o) {
  ENTER("MPI_Comm_dup");
  return blocking(comm_coll("Comm_dup", c, 0, 0, o));
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* o) {
  ENTER("MPI_Comm_split");
  if (color < 0 && color != MPI_UNDEFINED)
    bad("MPI_Comm_split with the color " + std::to_string(color));
  return blocking(comm_coll("Comm_split", c, color, key, o));
}
int MPI_Comm_split_type(MPI_Comm c, int, int key, MPI_Info, MPI_Comm* o) {
  ENTER("MPI_Comm_split_type");
  return blocking(comm_coll("Comm_split", c, 0, key, o));
}
int MPI_Comm_create(MPI_Comm comm, MPI_Group g, MPI_Comm* o) {
  ENTER("MPI_Comm_create");
  auto [c, me] = resolve(comm, "MPI_Comm_create");
  auto it = std::find(g->members.begin(), g->members.end(), c->members[static_cast<std::size_t>(me)]);
  const bool in = it != g->members.end();
  return blocking(comm_coll("Comm_create", comm, in ? g->members.front() : MPI_UNDEFINED,
                            static_cast<int>(it - g->members.begin()), o));
}
int MPI_Comm_free(MPI_Comm* c) {
  ENTER("MPI_Comm_free");
  if (*c == MPI_COMM_WORLD || *c == MPI_COMM_SELF)
    bad("MPI_Comm_free of a predefined communicator");
  resolve(*c, "MPI_Comm_free");
  (*c)->freed = true;
  --W.live_comms;
  *c = MPI_COMM_NULL;
  return MPI_SUCCESS;
}
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* res) {
  ENTER("MPI_Comm_compare");
  auto x = resolve(a, "MPI_Comm_compare"), y = resolve(b, "MPI_Comm_compare");
  if (x.c == y.c)
    *res = MPI_IDENT;
  else if (x.c->members == y.c->members)
    *res = MPI_CONGRUENT;
  else {
    auto p = x.c->members, q = y.c->members;
    std::sort(p.begin(), p.end());
    std::sort(q.begin(), q.end());
    *res = p == q ? MPI_SIMILAR : MPI_UNEQUAL;
  }
  return MPI_SUCCESS;
}
int MPI_Comm_group(MPI_Comm comm, MPI_Group* g) {
  ENTER("MPI_Comm_group");
  auto gr = std::make_unique<simmpi_group_s>();
  gr->members = resolve(comm, "MPI_Comm_group").c->members;
  *g = gr.get();
  W.groups.push_back(std::move(gr));
  return MPI_SUCCESS;
}
int MPI_Comm_set_errhandler(MPI_Comm c, MPI_Errhandler e) {
  resolve(c, "MPI_Comm_set_errhandler");
  if (c != MPI_COMM_WORLD && c != MPI_COMM_SELF)
    c->eh = e;
  return MPI_SUCCESS;
}
int MPI_Comm_get_errhandler(MPI_Comm c, MPI_Errhandler* e) {
  resolve(c, "MPI_Comm_get_errhandler");
  *e = c->eh ? c->eh : MPI_ERRORS_ARE_FATAL;
  return MPI_SUCCESS;
}
int MPI_Errhandler_free(MPI_Errhandler* e) {
  *e = MPI_ERRHANDLER_NULL;
  return MPI_SUCCESS;
}
int MPI_Comm_set_name(MPI_Comm c, const char* n) {
  resolve(c, "MPI_Comm_set_name");
  c->name = n;
  return MPI_SUCCESS;
}
int MPI_Comm_get_name(MPI_Comm c, char* n, int* l) {
  resolve(c, "MPI_Comm_get_name");
  *l = std::snprintf(n, MPI_MAX_OBJECT_NAME, "%s", c->name.c_str());
  return MPI_SUCCESS;
}
int MPI_Comm_get_attr(MPI_Comm, int key, void* v, int* flag) {
  static int tag_ub = 2147483647;
  *flag = key == MPI_TAG_UB;
  if (*flag)
    *static_cast<int**>(v) = &tag_ub;
  return MPI_SUCCESS;
}
int MPI_Comm_test_inter(MPI_Comm, int* f) {
  *f = 0;
  return MPI_SUCCESS;
}
int MPI_Group_rank(MPI_Group g, int* r) {
  auto it = std::find(g->members.begin(), g->members.end(), sim::cur_rank());
  *r = it == g->members.end() ? MPI_UNDEFINED : static_cast<int>(it - g->members.begin());
  return MPI_SUCCESS;
}
int MPI_Group_size(MPI_Group g, int* n) {
  *n = static_cast<int>(g->members.size());
  return MPI_SUCCESS;
}
int MPI_Group_incl(MPI_Group g, int n, const int* r, MPI_Group* o) {
  auto gr = std::make_unique<simmpi_group_s>();
  for (int i = 0; i < n; ++i)
    gr->members.push_back(g->members.at(static_cast<std::size_t>(r[i])));
  *o = gr.get();
  W.groups.push_back(std::move(gr));
  return MPI_SUCCESS;
}
int MPI_Group_excl(MPI_Group g, int n, const int* r, MPI_Group* o) {
  auto gr = std::make_unique<simmpi_group_s>();
  for (std::size_t i = 0; i < g->members.size(); ++i)
    if (std::find(r, r + n, static_cast<int>(i)) == r + n)
      gr->members.push_back(g->members[i]);
  *o = gr.get();
  W.groups.push_back(std::move(gr));
  return MPI_SUCCESS;
}
int MPI_Group_translate_ranks(MPI_Group a, int n, const int* r, MPI_Group b, int* o) {
  for (int i = 0; i < n; ++i) {
    auto it = std::find(b->members.begin(), b->members.end(), a->members.at(static_cast<std::size_t>(r[i])));
    o[i] = it == b->members.end() ? MPI_UNDEFINED : static_cast<int>(it - b->members.begin());
  }
  return MPI_SUCCESS;
}
int MPI_Group_compare(MPI_Group a, MPI_Group b, int* r) {
  auto p = a->members, q = b->members;
  if (p == q)
    *r = MPI_IDENT;
  else {
    std::sort(p.begin(), p.end());
    std::sort(q.begin(), q.end());
    *r = p == q ? MPI_SIMILAR : MPI_UNEQUAL;
  }
  return MPI_SUCCESS;
}
int MPI_Group_free(MPI_Group* g) {
  (*g)->freed = true;
  *g = MPI_GROUP_NULL;
  return MPI_SUCCESS;
}
MPI_Fint MPI_Comm_c2f(MPI_Comm c) {
  if (c == MPI_COMM_WORLD)
    return 0;
  if (c == MPI_COMM_SELF)
    return 1;
  for (std::size_t i = 0; i < W.comms.size(); ++i)
    if (W.comms[i].get() == c)
      return static_cast<MPI_Fint>(i + 2);
  return -1;
}
MPI_Comm MPI_Comm_f2c(MPI_Fint f) {
  if (f == 0)
    return MPI_COMM_WORLD;
  if (f == 1)
    return MPI_COMM_SELF;
  if (f < 0 || static_cast<std::size_t>(f) - 2 >= W.comms.size())
    return MPI_COMM_NULL;
  return W.comms[static_cast<std::size_t>(f) - 2].get();
}

// ---- datatypes
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype* o) {
  return MPI_Type_vector(1, n, n, t, o);
}
int MPI_Type_create_hvector(int count, int bl, MPI_Aint stride, MPI_Datatype t, MPI_Datatype* o) {
  ENTER("MPI_Type_create_hvector");
  FlatP in = flat_of(t, "MPI_Type_vector", false);
  if (count < 0 || bl < 0)
    bad("MPI_Type_vector with negative counts");
  Flat f;
  bool first = true;
  for (int i = 0; i < count; ++i)
    for (int j = 0; j < bl; ++j) {
      const MPI_Aint off = i * stride + j * in->extent();
      append(f, *in, off);
      bounds(f, in->lb + off, in->ub + off, first);
      first = false;
    }
  *o = new_type(std::move(f));
  return MPI_SUCCESS;
}
int MPI_Type_hvector(int count, int bl, MPI_Aint stride, MPI_Datatype t, MPI_Datatype* o) {
  return MPI_Type_create_hvector(count, bl, stride, t, o);
}
int MPI_Type_vector(int count, int bl, int stride, MPI_Datatype t, MPI_Datatype* o) {
  return MPI_Type_create_hvector(count, bl, stride * flat_of(t, "MPI_Type_vector", false)->extent(), t, o);
}
int MPI_Type_create_struct(int n, const int* bl, const MPI_Aint* d, const MPI_Datatype* t, MPI_Datatype* o) {
  ENTER("MPI_Type_create_struct");
  Flat f;
  bool first = true;
  for (int i = 0; i < n; ++i) {
    FlatP in = flat_of(t[i], "MPI_Type_create_struct", false);
    for (int j = 0; j < bl[i]; ++j) {
      const MPI_Aint off = d[i] + j * in->extent();
      append(f, *in, off);
      bounds(f, in->lb + off, in->ub + off, first);
      first = false;
    }
  }
  *o = new_type(std::move(f));
  return MPI_SUCCESS;
}
int MPI_Type_create_hindexed(int n, const int* bl, const MPI_Aint* d, MPI_Datatype t, MPI_Datatype* o) {
  std::vector<MPI_Datatype> ts(static_cast<std::size_t>(n), t);
  return MPI_Type_create_struct(n, bl, d, ts.data(), o);
}
int MPI_Type_indexed(int n, const int* bl, const int* d, MPI_Datatype t, MPI_Datatype* o) {
  std::vector<MPI_Aint> dd;
  for (int i = 0; i < n; ++i)
    dd.push_back(d[i] * flat_of(t, "MPI_Type_indexed", false)->extent());
  return MPI_Type_create_hindexed(n, bl, dd.data(), t, o);
}
int MPI_Type_create_indexed_block(int n, int bl, const int* d, MPI_Datatype t, MPI_Datatype* o) {
  std::vector<int> b(static_cast<std::size_t>(n), bl);
  return MPI_Type_indexed(n, b.data(), d, t, o);
}
int MPI_Type_create_resized(MPI_Datatype t, MPI_Aint lb, MPI_Aint ext, MPI_Datatype* o) {
  ENTER("MPI_Type_create_resized");
  Flat f = *flat_of(t, "MPI_Type_create_resized", false);
  f.lb = lb;
  f.ub = lb + ext;
  *o = new_type(std::move(f));
  return MPI_SUCCESS;
}
int MPI_Type_create_subarray(int nd, const int* sz, const int* sub, const int* st, int order, MPI_Datatype t,
                             MPI_Datatype* o) {
  ENTER("MPI_Type_create_subarray");
  FlatP in = flat_of(t, "MPI_Type_create_subarray", false);
  Flat f;
  std::vector<int> idx(static_cast<std::size_t>(nd), 0);
  long total = 1, full = 1;
  for (int i = 0; i < nd; ++i) {
    total *= sub[i];
    full *= sz[i];
  }
  for (long k = 0; k < total; ++k) {
    long lin = 0;
    if (order == MPI_ORDER_C)
      for (int i = 0; i < nd; ++i)
        lin = lin * sz[i] + st[i] + idx[static_cast<std::size_t>(i)];
    else
      for (int i = nd - 1; i >= 0; --i)
        lin = lin * sz[i] + st[i] + idx[static_cast<std::size_t>(i)];
    append(f, *in, lin * in->extent());
    for (int q = 0; q < nd; ++q) {
      const int i = order == MPI_ORDER_C ? nd - 1 - q : q;
      if (++idx[static_cast<std::size_t>(i)] < sub[i])
        break;
      idx[static_cast<std::size_t>(i)] = 0;
    }
  }
  f.lb = 0;
  f.ub = full * in->extent();
  *o = new_type(std::move(f));
  return MPI_SUCCESS;
}
int MPI_Type_dup(MPI_Datatype t, MPI_Datatype* o) {
  ENTER("MPI_Type_dup");
  Flat f = *flat_of(t, "MPI_Type_dup", false);
  *o = new_type(std::move(f));
  (*o)->committed = t->committed;
  return MPI_SUCCESS;
}
int MPI_Type_commit(MPI_Datatype* t) {
  ENTER("MPI_Type_commit");
  flat_of(*t, "MPI_Type_commit", false);
  if ((*t)->kind < 0)
    (*t)->committed = true;
  return MPI_SUCCESS;
}
int MPI_Type_free(MPI_Datatype* t) {
  ENTER("MPI_Type_free");
  flat_of(*t, "MPI_Type_free", false);
  if ((*t)->kind >= 0)
    bad("MPI_Type_free of a predefined datatype");
  if ((*t)->owner != sim::cur_rank())
    bad("MPI_Type_free of a datatype of another rank");
  (*t)->freed = true;
  --W.live_types;
  *t = MPI_DATATYPE_NULL;
  return MPI_SUCCESS;
}
int MPI_Type_size(MPI_Datatype t, int* s) {
  ENTER("MPI_Type_size");
  *s = static_cast<int>(flat_of(t, "MPI_Type_size", false)->size);
  return MPI_SUCCESS;
}
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint* lb, MPI_Aint* e) {
  ENTER("MPI_Type_get_extent");
  auto f = flat_of(t, "MPI_Type_get_extent", false);
  *lb = f->lb;
  *e = f->extent();
  return MPI_SUCCESS;
}
int MPI_Type_get_true_extent(MPI_Datatype t, MPI_Aint* lb, MPI_Aint* e) {
  ENTER("MPI_Type_get_true_extent");
  auto f = flat_of(t, "MPI_Type_get_true_extent", false);
  MPI_Aint lo = 0, hi = 0;
  bool first = true;
  for (auto& r : f->runs) {
    const MPI_Aint end = r.off + static_cast<MPI_Aint>(r.n * r.esize);
    lo = first ? r.off : std::min(lo, r.off);
    hi = first ? end : std::max(hi, end);
    first = false;
  }
  *lb = lo;
  *e = hi - lo;
  return MPI_SUCCESS;
}
int MPI_Get_address(const void* p, MPI_Aint* a) {
  *a = reinterpret_cast<MPI_Aint>(p);
  return MPI_SUCCESS;
}
int MPI_Op_create(MPI_User_function* f, int, MPI_Op* o) {
  auto op = std::make_unique<simmpi_op_s>(O_USER);
  op->fn = f;
  *o = op.get();
  W.ops.push_back(std::move(op));
  return MPI_SUCCESS;
}
int MPI_Op_free(MPI_Op* o) {
  (*o)->freed = true;
  *o = MPI_OP_NULL;
  return MPI_SUCCESS;
}

// ---- point to point
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
  ENTER("MPI_Send");
  return blocking(start_send(b, n, t, d, tag, c, "MPI_Send", false));
}
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
  ENTER("MPI_Ssend");
  return blocking(start_send(b, n, t, d, tag, c, "MPI_Ssend", true));
}
int MPI_Rsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
  ENTER("MPI_Rsend");
  return blocking(start_send(b, n, t, d, tag, c, "MPI_Rsend", false));
}
int MPI_Bsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
  ENTER("MPI_Bsend");
  return blocking(start_send(b, n, t, d, tag, c, "MPI_Bsend", false));
}
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* st) {
  ENTER("MPI_Recv");
  MPI_Request r = start_recv(b, n, t, s, tag, c, "MPI_Recv");
  wait(&r, st);
  return MPI_SUCCESS;
}
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) {
  ENTER("MPI_Isend");
  *r = start_send(b, n, t, d, tag, c, "MPI_Isend", false);
  return MPI_SUCCESS;
}
int MPI_Issend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) {
  ENTER("MPI_Issend");
  *r = start_send(b, n, t, d, tag, c, "MPI_Issend", true);
  return MPI_SUCCESS;
}
int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* r) {
  ENTER("MPI_Irecv");
  *r = start_recv(b, n, t, s, tag, c, "MPI_Irecv");
  return MPI_SUCCESS;
}
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype st, int d, int stag, void* rb, int rn, MPI_Datatype rt, int s,
                 int rtag, MPI_Comm c, MPI_Status* stat) {
  ENTER("MPI_Sendrecv");
  MPI_Request r = start_recv(rb, rn, rt, s, rtag, c, "MPI_Sendrecv");
  MPI_Request q = start_send(sb, sn, st, d, stag, c, "MPI_Sendrecv", false);
  wait(&q, MPI_STATUS_IGNORE);
  wait(&r, stat);
  return MPI_SUCCESS;
}
int MPI_Sendrecv_replace(void* b, int n, MPI_Datatype t, int d, int stag, int s, int rtag, MPI_Comm c,
                         MPI_Status* stat) {
  ENTER("MPI_Sendrecv_replace");
  auto f = flat_of(t, "MPI_Sendrecv_replace");
  auto [lo, hi] = span(b, *f, n);
  std::vector<char> copy(lo, hi);
  MPI_Request q = start_send(copy.data() + (static_cast<char*>(b) - lo), n, t, d, stag, c, "MPI_Sendrecv_replace", false);
  MPI_Request r = start_recv(b, n, t, s, rtag, c, "MPI_Sendrecv_replace");
  wait(&q, MPI_STATUS_IGNORE);
  wait(&r, stat);
  return MPI_SUCCESS;
}
static bool probe(Context* c, int me, int src, int tag, MPI_Status* st) {
  for (auto& m : c->unexpected[static_cast<std::size_t>(me)])
    if (matches(src, tag, m.src, m.tag)) {
      if (st)
        *st = MPI_Status{m.src, m.tag, MPI_SUCCESS, static_cast<std::int64_t>(m.data.size()), 0};
      return true;
    }
  return false;
}
int MPI_Probe(int src, int tag, MPI_Comm comm, MPI_Status* st) {
  ENTER("MPI_Probe");
  auto [c, me] = resolve(comm, "MPI_Probe");
  while (!probe(c, me, src, tag, st))
    c->probers[static_cast<std::size_t>(me)].wait("MPI_Probe");
  return MPI_SUCCESS;
}
int MPI_Iprobe(int src, int tag, MPI_Comm comm, int* flag, MPI_Status* st) {
  ENTER("MPI_Iprobe");
  auto [c, me] = resolve(comm, "MPI_Iprobe");
  *flag = probe(c, me, src, tag, st);
  if (!*flag)
    sim::yield();
  return MPI_SUCCESS;
}
int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* n) {
  const auto s = static_cast<std::int64_t>(flat_of(t, "MPI_Get_count", false)->size);
  *n = s == 0 ? 0 : st->simmpi_bytes % s ? MPI_UNDEFINED : static_cast<int>(st->simmpi_bytes / s);
  return MPI_SUCCESS;
}
int MPI_Get_elements(const MPI_Status* st, MPI_Datatype t, int* n) {
  return MPI_Get_count(st, t, n);
}
int MPI_Test_cancelled(const MPI_Status*, int* f) {
  *f = 0;
  return MPI_SUCCESS;
}
int MPI_Wait(MPI_Request* r, MPI_Status* st) {
  ENTER("MPI_Wait");
  wait(r, st);
  return MPI_SUCCESS;
}
int MPI_Waitall(int n, MPI_Request* r, MPI_Status* st) {
  ENTER("MPI_Waitall");
  for (int i = 0; i < n; ++i)
    wait(r + i, st ? st + i : nullptr);
  return MPI_SUCCESS;
}
int MPI_Testany(int n, MPI_Request* r, int* idx, int* flag, MPI_Status* st) {
  ENTER("MPI_Testany");
  bool any = false;
  for (int i = 0; i < n; ++i)
    if (r[i] != MPI_REQUEST_NULL) {
      any = true;
      if (r[i]->done) {
        wait(r + i, st);
        *idx = i;
        *flag = 1;
        return MPI_SUCCESS;
      }
    }
  *idx = MPI_UNDEFINED;
  *flag = !any;
  if (any)
    sim::yield();
  return MPI_SUCCESS;
}
int MPI_Waitany(int n, MPI_Request* r, int* idx, MPI_Status* st) {
  ENTER("MPI_Waitany");
  for (;;) {
    int f = 0;
    MPI_Testany(n, r, idx, &f, st);
    if (f)
      return MPI_SUCCESS;
  }
}
int MPI_Test(MPI_Request* r, int* flag, MPI_Status* st) {
  ENTER("MPI_Test");
  *flag = *r == MPI_REQUEST_NULL || (*r)->done;
  if (*flag)
    wait(r, st);
  else
    sim::yield();
  return MPI_SUCCESS;
}
int MPI_Testall(int n, MPI_Request* r, int* flag, MPI_Status* st) {
  ENTER("MPI_Testall");
  *flag = 1;
  for (int i = 0; i < n; ++i)
    if (r[i] != MPI_REQUEST_NULL && !r[i]->done)
      *flag = 0;
  if (*flag)
    return MPI_Waitall(n, r, st);
  sim::yield();
  return MPI_SUCCESS;
}
int MPI_Testsome(int n, MPI_Request* r, int* out, int* idx, MPI_Status* st) {
  ENTER("MPI_Testsome");
  bool any = false;
  *out = 0;
  for (int i = 0; i < n; ++i)
    if (r[i] != MPI_REQUEST_NULL) {
      any = true;
      if (r[i]->done) {
        wait(r + i, st ? st + *out : nullptr);
        idx[(*out)++] = i;
      }
    }
  if (!any)
    *out = MPI_UNDEFINED;
  return MPI_SUCCESS;
}
int MPI_Request_free(MPI_Request* r) {
  ENTER("MPI_Request_free");
  if ((*r)->done)
    free_request(*r);
  else
    (*r)->detached = true;
  *r = MPI_REQUEST_NULL;
  return MPI_SUCCESS;
}

// ---- collectives
static Part barrier_part(bool nb) {
  Part p;
  p.kind = "Barrier";
  p.nonblocking = nb;
  return p;
}
int MPI_Barrier(MPI_Comm c) {
  ENTER("MPI_Barrier");
  return blocking(start_coll(c, barrier_part(false)));
}
int MPI_Ibarrier(MPI_Comm c, MPI_Request* r) {
  ENTER("MPI_Ibarrier");
  *r = start_coll(c, barrier_part(true));
  return MPI_SUCCESS;
}
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) {
  ENTER("MPI_Bcast");
  return blocking(coll_bcast(b, n, t, root, c, false));
}
int MPI_Ibcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c, MPI_Request* r) {
  ENTER("MPI_Ibcast");
  *r = coll_bcast(b, n, t, root, c, true);
  return MPI_SUCCESS;
}
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
  ENTER("MPI_Reduce");
  return blocking(coll_reduce("Reduce", s, r, n, t, op, root, c, false));
}
int MPI_Ireduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c, MPI_Request* q) {
  ENTER("MPI_Ireduce");
  *q = coll_reduce("Reduce", s, r, n, t, op, root, c, true);
  return MPI_SUCCESS;
}
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  ENTER("MPI_Allreduce");
  return blocking(coll_reduce("Allreduce", s, r, n, t, op, -1, c, false));
}
int MPI_Iallreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request* q) {
  ENTER("MPI_Iallreduce");
  *q = coll_reduce("Allreduce", s, r, n, t, op, -1, c, true);
  return MPI_SUCCESS;
}
int MPI_Scan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  ENTER("MPI_Scan");
  return blocking(coll_reduce("Scan", s, r, n, t, op, -1, c, false));
}
int MPI_Exscan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  ENTER("MPI_Exscan");
  return blocking(coll_reduce("Exscan", s, r, n, t, op, -1, c, false));
}
int MPI_Reduce_local(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op) {
  ENTER("MPI_Reduce_local");
  if (t->kind < 0)
    bad("MPI_Reduce_local on a derived datatype");
  reduce_bytes(op, t->kind, static_cast<char*>(r), static_cast<const char*>(s), t->esize * static_cast<std::size_t>(n), t);
  return MPI_SUCCESS;
}
int MPI_Gather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
  ENTER("MPI_Gather");
  return blocking(coll_gather("Gather", s, sn, st, r, rn, rt, nullptr, nullptr, root, c, false));
}
int MPI_Igather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c,
                MPI_Request* q) {
  ENTER("MPI_Igather");
  *q = coll_gather("Gather", s, sn, st, r, rn, rt, nullptr, nullptr, root, c, true);
  return MPI_SUCCESS;
}
int MPI_Allgather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm c) {
  ENTER("MPI_Allgather");
  return blocking(coll_gather("Allgather", s, sn, st, r, rn, rt, nullptr, nullptr, -1, c, false));
}
int MPI_Iallgather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm c,
                   MPI_Request* q) {
  ENTER("MPI_Iallgather");
  *q = coll_gather("Allgather", s, sn, st, r, rn, rt, nullptr, nullptr, -1, c, true);
  return MPI_SUCCESS;
}
int MPI_Gatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* rn, const int* d, MPI_Datatype rt,
                int root, MPI_Comm c) {
  ENTER("MPI_Gatherv");
  auto [ctx, me] = resolve(c, "Gatherv");
  (void) ctx;
  const bool rootp = me == root;
  return blocking(coll_gather("Gatherv", s, sn, st, r, 0, rt, rootp ? rn : nullptr, rootp ? d : nullptr, root, c, false));
}
int MPI_Allgatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* rn, const int* d, MPI_Datatype rt,
                   MPI_Comm c) {
  ENTER("MPI_Allgatherv");
  return blocking(coll_gather("Allgatherv", s, sn, st, r, 0, rt, rn, d, -1, c, false));
}
int MPI_Scatter(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm comm) {
  ENTER("MPI_Scatter");
  auto [c, me] = resolve(comm, "Scatter");
  Part p;
  p.kind = "Scatter";
  p.root = root;
  if (me == root) {
    p.sflat = flat_of(st, "Scatter");
    p.sbuf = static_cast<const char*>(s);
    p.scount = static_cast<long>(sn) * static_cast<long>(c->members.size());
    p.data = pack(s, *p.sflat, p.scount);
  }
  p.in_place = r == MPI_IN_PLACE;
  if (!p.in_place) {
    p.rflat = flat_of(rt, "Scatter");
    p.rbuf = static_cast<char*>(r);
    p.rcount = rn;
  }
  return blocking(start_coll(comm, std::move(p)));
}
int MPI_Alltoall(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm comm) {
  ENTER("MPI_Alltoall");
  auto [c, me] = resolve(comm, "Alltoall");
  (void) me;
  const auto n = static_cast<long>(c->members.size());
  Part p;
  p.kind = "Alltoall";
  p.rflat = flat_of(rt, "Alltoall");
  p.rbuf = static_cast<char*>(r);
  p.rcount = rn * n;
  p.in_place = s == MPI_IN_PLACE;
  p.sflat = p.in_place ? p.rflat : flat_of(st, "Alltoall");
  p.sbuf = static_cast<const char*>(p.in_place ? r : s);
  p.scount = p.in_place ? p.rcount : sn * n;
  p.data = pack(p.sbuf, *p.sflat, p.scount);
  return blocking(start_coll(comm, std::move(p)));
}
int MPI_Dims_create(int n, int nd, int* dims) {
  // balanced factorisation, non-increasing, respecting fixed entries
  int rest = n;
  std::vector<int> freei;
  for (int i = 0; i < nd; ++i) {
    if (dims[i] > 0)
      rest /= dims[i];
    else
      freei.push_back(i);
  }
  std::vector<int> best(freei.size(), 1);
  if (freei.size() == 1)
    best[0] = rest;
  else if (freei.size() == 2) {
    int a = 1;
    for (int k = 1; k * k <= rest; ++k)
      if (rest % k == 0)
        a = k;
    best = {rest / a, a};
  }
  else if (!freei.empty())
    best[0] = rest;
  for (std::size_t i = 0; i < freei.size(); ++i)
    dims[freei[i]] = best[i];
  return MPI_SUCCESS;
}
}  // extern "C"
