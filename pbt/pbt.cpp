#include "pbt.hpp"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <unordered_set>

namespace pbt {
namespace {
constexpr std::size_t kTape = 1 << 16;

struct Shared {
  volatile long case_index;
  volatile int status;  // 0 running, 1 ok (all done), 2 violation, 3 harness error
  volatile std::size_t n;
  volatile bool nontrivial;
  char kind[64];
  char msg[8192];
  std::size_t note_n;
  char note[16384];
  u64 tape[kTape];
};

Shared* S = nullptr;  // of this process

struct Rng {
  u64 s;
  u64 next() {
    u64 z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
};
Rng g_rng{1};
const std::vector<u64>* g_replay = nullptr;
std::size_t g_pos = 0;

std::map<std::string, long> g_labels;
std::set<std::string> g_case_labels;
int g_cpu_limit = 30;
bool g_thorough = false;
u64 g_seed = 1;

void on_timer(int) {
  std::strcpy(S->kind, "no-termination");
  std::strcpy(S->msg, "the case used up its CPU limit");
  S->status = 2;
  _exit(98);
}

u64 hash_str(const std::string& s) {
  u64 h = 1469598103934665603ull;
  for (unsigned char c : s)
    h = (h ^ c) * 1099511628211ull;
  return h;
}
u64 hash_tape(const u64* t, std::size_t n) {
  u64 h = 1469598103934665603ull;
  for (std::size_t i = 0; i < n; ++i) {
    Rng r{t[i] ^ h};
    h = r.next() * 1099511628211ull;
  }
  return h;
}

Shared* new_shared() {
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    std::perror("mmap");
    std::exit(70);
  }
  return static_cast<Shared*>(p);
}

void arm_timer() {
  itimerval it{};
  it.it_value.tv_sec = g_cpu_limit;
  setitimer(ITIMER_PROF, &it, nullptr);
}

void run_case(const Sub& sub) {
  S->n = 0;
  S->note_n = 0;
  S->note[0] = 0;
  S->nontrivial = false;
  g_pos = 0;
  g_case_labels.clear();
  Gen g;
  g.replaying_ = g_replay != nullptr;
  arm_timer();
  try {
    sub.fn(g);
  }
  catch (const std::exception& e) {
    fail("exception", std::string("exception escaped the case: ") + e.what());
  }
  catch (...) {
    fail("exception", "unknown exception escaped the case");
  }
  S->nontrivial = g.nontrivial_;
}

double now() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

std::string slurp(const std::string& path, std::size_t max = 3000) {
  std::ifstream f(path, std::ios::binary);
  std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  if (s.size() > max)
    s.resize(max);
  return s;
}

std::string json_escape(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\')
      (o += '\\') += static_cast<char>(c);
    else if (c == '\n')
      o += "\\n";
    else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    }
    else
      o += static_cast<char>(c);
  }
  return o;
}

struct Outcome {
  enum { Ok, Violation, Harness } st = Ok;
  std::string kind, msg, note;
  std::vector<u64> tape;
  bool nontrivial = false;
};

std::string g_tmp;

void redirect_stderr(const std::string& path) {
  int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd >= 0) {
    dup2(fd, 2);
    dup2(fd, 1);
    close(fd);
  }
}

// status of a dead child from its Shared and wait status
Outcome outcome_of(Shared* sh, int ws, const std::string& errfile) {
  Outcome o;
  o.tape.assign(sh->tape, sh->tape + sh->n);
  o.note.assign(sh->note, sh->note_n);
  o.nontrivial = sh->nontrivial;
  if (sh->status == 1 && WIFEXITED(ws) && WEXITSTATUS(ws) == 0) {
    o.st = Outcome::Ok;
    return o;
  }
  if (sh->status == 3) {
    o.st = Outcome::Harness;
    o.kind = "harness";
    o.msg = sh->msg;
    return o;
  }
  o.st = Outcome::Violation;
  if (sh->status == 2) {
    o.kind = sh->kind;
    o.msg = sh->msg;
    return o;
  }
  if (WIFSIGNALED(ws)) {
    o.kind = "signal";
    o.msg = std::string("killed by signal ") + std::to_string(WTERMSIG(ws)) + " (" +
            strsignal(WTERMSIG(ws)) + "); output: " + slurp(errfile);
    if (WTERMSIG(ws) == SIGKILL) {
      // ended from outside (memory guard): no statement about the property
      o.st = Outcome::Harness;
    }
  }
  else {
    o.kind = "exit";
    o.msg = "exited with " + std::to_string(WEXITSTATUS(ws)) + "; output: " + slurp(errfile);
  }
  return o;
}

// runs one tape in a child
Outcome run_tape(const Sub& sub, const std::vector<u64>& tape) {
  static Shared* sh = new_shared();
  std::memset(static_cast<void*>(sh), 0, offsetof(Shared, note));
  const std::string err = g_tmp + "/replay.err";
  std::fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    redirect_stderr(err);
    S = sh;
    g_replay = &tape;
    g_rng.s = 0;
    run_case(sub);
    S->status = 1;
    _exit(0);
  }
  int ws = 0;
  waitpid(pid, &ws, 0);
  return outcome_of(sh, ws, err);
}

// runs cases of a worker from its start up to and including index last, all in one child
Outcome run_batch(const Sub& sub, long first, long step, long last);

u64 case_seed(const Sub& sub, long i) {
  Rng r{hash_str(sub.name) ^ (g_seed * 0x9E3779B97F4A7C15ull) ^ (static_cast<u64>(i) * 0xD1B54A32D192ED03ull)};
  r.next();
  return r.next();
}

Outcome run_batch(const Sub& sub, long first, long step, long last) {
  static Shared* sh = new_shared();
  std::memset(static_cast<void*>(sh), 0, offsetof(Shared, note));
  const std::string err = g_tmp + "/batch.err";
  std::fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    redirect_stderr(err);
    S = sh;
    for (long i = first; i <= last; i += step) {
      S->case_index = i;
      g_rng.s = case_seed(sub, i);
      run_case(sub);
    }
    S->status = 1;
    _exit(0);
  }
  int ws = 0;
  waitpid(pid, &ws, 0);
  return outcome_of(sh, ws, err);
}

struct Totals {
  long evaluations = 0;
  long nontrivial = 0;
  std::unordered_set<u64> distinct;
  std::map<std::string, long> labels;
  std::vector<std::string> samples;
};

constexpr long kBatch = 400;

// worker process: cases first, first+step, ... ; writes its summary to out
void worker(const Sub& sub, long first, long step, long n, double deadline, const std::string& out) {
  long evals = 0, nontriv = 0;
  std::vector<u64> hashes;
  std::vector<std::string> samples;
  g_labels.clear();
  long next_sample = 0;
  for (long i = first; i < n; i += step) {
    if (now() > deadline)
      break;
    S->case_index = i;
    g_rng.s = case_seed(sub, i);
    run_case(sub);
    ++evals;
    for (auto& l : g_case_labels)
      ++g_labels[l];
    if (S->nontrivial) {
      ++nontriv;
      hashes.push_back(hash_tape(S->tape, S->n));
      if (nontriv > next_sample && samples.size() < 3) {
        samples.push_back(std::string(S->note, std::min<std::size_t>(S->note_n, 700)));
        next_sample = nontriv * 8 + 2;
      }
    }
  }
  itimerval it{};
  setitimer(ITIMER_PROF, &it, nullptr);
  std::ofstream f(out);
  f << "E " << evals << "\nN " << nontriv << "\n";
  for (auto h : hashes)
    f << "H " << h << "\n";
  for (auto& [l, c] : g_labels)
    f << "L " << c << " " << l << "\n";
  for (auto& s : samples) {
    std::string t = s;
    std::replace(t.begin(), t.end(), '\n', ' ');
    f << "S " << t << "\n";
  }
  f.close();
  S->status = 1;
}

void read_summary(const std::string& path, Totals& t) {
  std::ifstream f(path);
  std::string line;
  while (std::getline(f, line)) {
    if (line.size() < 3)
      continue;
    std::string rest = line.substr(2);
    switch (line[0]) {
      case 'E':
        t.evaluations += std::stol(rest);
        break;
      case 'N':
        t.nontrivial += std::stol(rest);
        break;
      case 'H':
        t.distinct.insert(std::stoull(rest));
        break;
      case 'L': {
        auto sp = rest.find(' ');
        t.labels[rest.substr(sp + 1)] += std::stol(rest.substr(0, sp));
        break;
      }
      case 'S':
        t.samples.push_back(rest);
        break;
    }
  }
}

Outcome shrink(const Sub& sub, Outcome best, long max_runs, double max_s) {
  const double t0 = now();
  long runs = 0;
  auto attempt = [&](const std::vector<u64>& cand) {
    if (runs >= max_runs || now() - t0 > max_s)
      return false;
    ++runs;
    Outcome o = run_tape(sub, cand);
    if (o.st != Outcome::Violation)
      return false;
    // must get simpler: shorter or lexicographically smaller
    if (o.tape.size() > best.tape.size() ||
        (o.tape.size() == best.tape.size() && !(o.tape < best.tape)))
      return false;
    best = o;
    return true;
  };
  bool progress = true;
  while (progress && runs < max_runs && now() - t0 < max_s) {
    progress = false;
    // delete chunks
    for (std::size_t k = std::max<std::size_t>(1, best.tape.size() / 2); k >= 1; k /= 2) {
      for (std::size_t i = 0; i + k <= best.tape.size();) {
        auto c = best.tape;
        c.erase(c.begin() + static_cast<std::ptrdiff_t>(i), c.begin() + static_cast<std::ptrdiff_t>(i + k));
        if (attempt(c))
          progress = true;
        else
          i += k;
        if (runs >= max_runs || now() - t0 > max_s)
          break;
      }
      if (k == 1)
        break;
    }
    // zero chunks
    for (std::size_t k = std::max<std::size_t>(1, best.tape.size() / 2); k >= 1; k /= 2) {
      for (std::size_t i = 0; i + k <= best.tape.size(); i += k) {
        auto c = best.tape;
        bool any = false;
        for (std::size_t j = i; j < i + k; ++j) {
          any |= c[j] != 0;
          c[j] = 0;
        }
        if (any && attempt(c))
          progress = true;
      }
      if (k == 1)
        break;
    }
    // lower single values
    for (std::size_t i = 0; i < best.tape.size(); ++i) {
      u64 lo = 0;
      while (i < best.tape.size() && best.tape[i] > lo && runs < max_runs && now() - t0 < max_s) {
        auto c = best.tape;
        c[i] = lo + (best.tape[i] - lo) / 2;
        if (attempt(c))
          progress = true;
        else
          lo = c[i] + 1;
      }
    }
  }
  return best;
}

std::string g_property = "C00";
}  // namespace

std::vector<Sub>& registry() {
  static std::vector<Sub> r;
  return r;
}

u64 Gen::below(u64 n) {
  if (n == 0)
    harness_error("below(0)");
  u64 v;
  if (g_replay) {
    v = g_pos < g_replay->size() ? (*g_replay)[g_pos] : 0;
    ++g_pos;
    if (v >= n)
      v %= n;
  }
  else
    v = g_rng.next() % n;
  const std::size_t k = S->n;
  if (k < kTape) {
    S->tape[k] = v;
    S->n = k + 1;
  }
  else
    harness_error("the case makes too many choices");
  return v;
}

i64 Gen::range(i64 lo, i64 hi) {
  if (hi < lo)
    harness_error(cat("range(", lo, ", ", hi, ")"));
  return static_cast<i64>(static_cast<u64>(lo) + below(static_cast<u64>(hi) - static_cast<u64>(lo) + 1));
}

i64 Gen::edge(i64 lo, i64 hi) {
  const u64 w = static_cast<u64>(hi) - static_cast<u64>(lo);
  if (w == 0)
    return lo;
  switch (below(6)) {
    case 0:
      return range(lo, lo + static_cast<i64>(std::min<u64>(w, 2)));
    case 1:
      return hi - static_cast<i64>(below(std::min<u64>(w, 2) + 1));
    case 2:
      return logrange(lo, hi);
    default:
      return range(lo, hi);
  }
}

i64 Gen::logrange(i64 lo, i64 hi) {
  const u64 w = static_cast<u64>(hi) - static_cast<u64>(lo);
  int bits = 0;
  while (bits < 64 && (w >> bits) != 0)
    ++bits;
  const int b = static_cast<int>(below(static_cast<u64>(bits) + 1));
  if (b == 0)
    return lo;
  const u64 top = b >= 63 ? ~0ull >> 1 : (1ull << b) - 1;
  return static_cast<i64>(static_cast<u64>(lo) + below(std::min(top, w) + 1));
}

void Gen::label(const std::string& l) {
  g_case_labels.insert(l);
}

void Gen::add_note(const std::string& s) {
  const std::size_t room = sizeof(S->note) - 1 - S->note_n;
  const std::size_t k = std::min(room, s.size());
  std::memcpy(S->note + S->note_n, s.data(), k);
  S->note_n += k;
  S->note[S->note_n] = 0;
}

void fail(const std::string& kind, const std::string& msg) {
  if (!S) {
    std::fprintf(stderr, "%s: %s\n", kind.c_str(), msg.c_str());
    _exit(98);
  }
  std::snprintf(S->kind, sizeof(S->kind), "%s", kind.c_str());
  std::snprintf(S->msg, sizeof(S->msg), "%s", msg.c_str());
  S->status = kind == "harness" ? 3 : 2;
  _exit(98);
}

void harness_error(const std::string& msg) {
  fail("harness", msg);
}

void set_case_cpu_limit(int s) {
  g_cpu_limit = s;
}
bool thorough() {
  return g_thorough;
}

extern "C" void __sanitizer_set_death_callback(void (*)()) __attribute__((weak));
static int child_status(void (*call)(void*), void* arg) {
  std::fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 2);
    dup2(fd, 1);
    static Shared* priv = static_cast<Shared*>(std::calloc(1, sizeof(Shared)));
    S = priv;
    struct rlimit rl {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    // what a sanitizer finds is not a refusal
    if (__sanitizer_set_death_callback)
      __sanitizer_set_death_callback([] { _exit(0); });
    call(arg);
    _exit(0);
  }
  int ws = 0;
  waitpid(pid, &ws, 0);
  return ws;
}
bool dies_impl(void (*call)(void*), void* arg) {
  const int ws = child_status(call, arg);
  return !(WIFEXITED(ws) && WEXITSTATUS(ws) == 0);
}
bool aborts_impl(void (*call)(void*), void* arg) {
  const int ws = child_status(call, arg);
  return WIFSIGNALED(ws) && WTERMSIG(ws) == SIGABRT;
}

static int usage() {
  std::fprintf(stderr,
               "usage: check --property ID --tier quick|thorough --seed N --evidence FILE --replay-dir DIR "
               "[--jobs N] [--only SUB] [--scale X] [--max-seconds S] | --replay FILE\n");
  return 64;
}

static std::vector<u64> parse_tape(const std::string& s) {
  std::vector<u64> v;
  auto p = s.find("\"tape\"");
  p = s.find('[', p);
  auto e = s.find(']', p);
  std::stringstream ss(s.substr(p + 1, e - p - 1));
  std::string tok;
  while (std::getline(ss, tok, ','))
    if (tok.find_first_of("0123456789") != std::string::npos)
      v.push_back(std::stoull(tok));
  return v;
}
static std::string json_str(const std::string& s, const std::string& key) {
  auto p = s.find("\"" + key + "\"");
  if (p == std::string::npos)
    return "";
  p = s.find('"', s.find(':', p));
  auto e = s.find('"', p + 1);
  return s.substr(p + 1, e - p - 1);
}
static long json_int(const std::string& s, const std::string& key, long def) {
  auto p = s.find("\"" + key + "\"");
  if (p == std::string::npos)
    return def;
  return std::stol(s.substr(s.find(':', p) + 1));
}

static std::string write_replay(const std::string& dir, const Sub& sub, const Outcome& o, long first,
                                long step, long last) {
  u64 h = hash_tape(o.tape.data(), o.tape.size()) ^ hash_str(sub.name);
  char hx[32];
  std::snprintf(hx, sizeof hx, "%08llx", static_cast<unsigned long long>(h & 0xffffffff));
  const std::string path = dir + "/" + g_property + "-" + sub.name + "-" + hx + ".json";
  std::ofstream f(path);
  f << "{\n \"property\": \"" << g_property << "\",\n \"sub\": \"" << sub.name << "\",\n \"kind\": \""
    << json_escape(o.kind) << "\",\n";
  if (last >= 0)
    f << " \"batch\": 1, \"seed\": " << g_seed << ", \"first\": " << first << ", \"step\": " << step
      << ", \"last\": " << last << ",\n";
  f << " \"tape\": [";
  for (std::size_t i = 0; i < o.tape.size(); ++i)
    f << (i ? "," : "") << o.tape[i];
  f << "],\n \"case\": \"" << json_escape(o.note) << "\",\n \"message\": \"" << json_escape(o.msg)
    << "\"\n}\n";
  return path;
}
}  // namespace pbt

using namespace pbt;

#if defined(__SANITIZE_ADDRESS__)
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:abort_on_error=1:handle_abort=0:detect_stack_use_after_return=0:"
         "detect_odr_violation=0:allocator_may_return_null=1:malloc_fill_byte=203:max_malloc_fill_size=1048576:print_summary=1";
}
extern "C" const char* __ubsan_default_options() {
  return "print_stacktrace=0:halt_on_error=1:abort_on_error=1";
}
#endif

int main(int argc, char** argv) {
  // fixed address layout: a case does not depend on where things are mapped
  if (!std::getenv("PBT_NO_ASLR")) {
    setenv("PBT_NO_ASLR", "1", 1);
    int cur = personality(0xffffffff);
    if (cur != -1 && personality(static_cast<unsigned long>(cur) | ADDR_NO_RANDOMIZE) != -1)
      execv("/proc/self/exe", argv);
  }
  std::string tier = "quick", evidence, replay_dir = ".", replay, only;
  double scale = 1, max_seconds = 0;
  int jobs = 8;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--property")
      g_property = val();
    else if (a == "--tier")
      tier = val();
    else if (a == "--seed")
      g_seed = static_cast<u64>(std::stoull(val()));
    else if (a == "--evidence")
      evidence = val();
    else if (a == "--replay-dir")
      replay_dir = val();
    else if (a == "--replay")
      replay = val();
    else if (a == "--only")
      only = val();
    else if (a == "--scale")
      scale = std::stod(val());
    else if (a == "--max-seconds")
      max_seconds = std::stod(val());
    else if (a == "--jobs")
      jobs = std::stoi(val());
    else
      return usage();
  }
  g_thorough = tier == "thorough";
  if (max_seconds == 0)
    max_seconds = g_thorough ? 3000 : 330;

  struct rlimit rl {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  signal(SIGPROF, on_timer);

  char tmpl[] = "/tmp/pbt.XXXXXX";
  g_tmp = mkdtemp(tmpl);
  struct Cleanup {
    ~Cleanup() {
      const std::string c = "rm -rf " + g_tmp;
      if (std::system(c.c_str())) {
      }
    }
  } cleanup;

  if (!replay.empty()) {
    const std::string s = slurp(replay, 1 << 24);
    const std::string name = json_str(s, "sub");
    for (auto& sub : registry())
      if (name == sub.name) {
        Outcome o;
        if (json_int(s, "batch", 0)) {
          g_seed = static_cast<u64>(json_int(s, "seed", 1));
          o = run_batch(sub, json_int(s, "first", 0), json_int(s, "step", 1), json_int(s, "last", 0));
        }
        else
          o = run_tape(sub, parse_tape(s));
        std::printf("case: %s\n", o.note.c_str());
        if (o.st == Outcome::Ok) {
          std::printf("replay: the property holds on this case\n");
          return 0;
        }
        std::printf("replay: %s: %s\n", o.kind.c_str(), o.msg.c_str());
        if (o.st == Outcome::Harness)
          return 70;
        std::printf("VIOLATION property=%s replay=%s\n", g_property.c_str(), replay.c_str());
        return 1;
      }
    std::fprintf(stderr, "no such sub-check: %s\n", name.c_str());
    return 64;
  }

  const double t_start = now();
  double total_w = 0, done_w = 0;
  for (auto& sub : registry())
    if (only.empty() || only == sub.name)
      total_w += 1;
  Totals all;
  std::string rules, per_sub;
  std::vector<std::string> samples, violations, inconclusive;
  bool harness_broken = false;

  for (auto& sub : registry()) {
    if (!only.empty() && only != sub.name)
      continue;
    done_w += 1;
    const long n = std::max(1l, static_cast<long>(static_cast<double>(g_thorough ? sub.thorough : sub.quick) * scale));
    const double t0 = now();
    // every sub-check may use its share of the time (and what earlier ones left over)
    const double deadline = t_start + max_seconds * done_w / total_w;
    Totals tot;
    const int W = static_cast<int>(std::min<long>(jobs, n));
    std::vector<Shared*> sh;
    for (int w = 0; w < W; ++w)
      sh.push_back(new_shared());
    std::vector<long> next(static_cast<std::size_t>(W));
    std::map<pid_t, int> live;
    std::map<pid_t, long> batch_first;
    bool stop = false;
    struct Failure {
      Outcome o;
      long first, last;
    };
    std::vector<Failure> failures;
    auto start = [&](int w) {
      const auto uw = static_cast<std::size_t>(w);
      const long first = next[uw];
      if (first >= n || stop || now() > deadline)
        return;
      const long end = std::min(n, first + kBatch * W);
      next[uw] = first + ((end - first + W - 1) / W) * W;
      std::memset(static_cast<void*>(sh[uw]), 0, offsetof(Shared, tape));
      std::fflush(nullptr);
      pid_t pid = fork();
      if (pid == 0) {
        redirect_stderr(g_tmp + "/w" + std::to_string(w) + ".err");
        S = sh[uw];
        worker(sub, first, W, end, deadline, g_tmp + "/w" + std::to_string(w) + ".out");
        _exit(0);
      }
      live[pid] = w;
      batch_first[pid] = first;
    };
    for (int w = 0; w < W; ++w) {
      next[static_cast<std::size_t>(w)] = w;
      start(w);
    }
    while (!live.empty()) {
      int ws = 0;
      pid_t pid = waitpid(-1, &ws, 0);
      if (pid < 0)
        break;
      auto it = live.find(pid);
      if (it == live.end())
        continue;
      const int w = it->second;
      live.erase(it);
      const std::string base = g_tmp + "/w" + std::to_string(w);
      Outcome o = outcome_of(sh[static_cast<std::size_t>(w)], ws, base + ".err");
      if (o.st == Outcome::Ok) {
        read_summary(base + ".out", tot);
        start(w);
        continue;
      }
      if (stop)
        continue;  // killed by us
      if (o.st == Outcome::Harness) {
        std::fprintf(stderr, "harness error in %s: %s\n  case: %s\n", sub.name, o.msg.c_str(), o.note.c_str());
        inconclusive.push_back(std::string(sub.name) + ": harness error: " + o.msg);
        harness_broken = true;
        stop = true;
      }
      else {
        failures.push_back({o, batch_first[pid], sh[static_cast<std::size_t>(w)]->case_index});
        stop = true;
      }
      for (auto& [p, ww] : live)
        kill(p, SIGKILL);
    }
    for (auto* s : sh)
      munmap(s, sizeof(Shared));

    for (auto& f : failures) {
      // a case that fails on its own, three times
      auto confirm = [&](auto&& run) {
        for (int k = 0; k < 3; ++k)
          if (run().st != Outcome::Violation)
            return false;
        return true;
      };
      std::string path;
      Outcome rep = f.o;
      const auto orig = f.o.tape;
      if (confirm([&] { return run_tape(sub, orig); })) {
        rep = run_tape(sub, orig);
        rep = shrink(sub, rep, 600, 60);
        if (!confirm([&] { return run_tape(sub, rep.tape); }))
          rep = f.o;
        path = write_replay(replay_dir, sub, rep, 0, 0, -1);
      }
      else if (confirm([&] { return run_batch(sub, f.first, W, f.last); })) {
        path = write_replay(replay_dir, sub, rep, f.first, W, f.last);
      }
      else {
        inconclusive.push_back(std::string(sub.name) + ": a failure did not reproduce: " + f.o.kind + ": " +
                               f.o.msg.substr(0, 600) + " case: " + f.o.note.substr(0, 600));
        std::printf("note: a failure of %s did not reproduce and is not reported: %s: %s\n  case: %s\n", sub.name,
                    f.o.kind.c_str(), f.o.msg.c_str(), f.o.note.c_str());
        continue;
      }
      std::printf("sub-check %s failed: %s: %s\n  case: %s\n", sub.name, rep.kind.c_str(), rep.msg.c_str(),
                  rep.note.c_str());
      std::printf("VIOLATION property=%s replay=%s\n", g_property.c_str(), path.c_str());
      violations.push_back(path);
    }
    std::printf("  %-34s %9ld cases, %9ld non-trivial, %9zu distinct, %7.1f s%s\n", sub.name, tot.evaluations,
                tot.nontrivial, tot.distinct.size(), now() - t0,
                tot.evaluations < n && failures.empty() ? " (time budget reached)" : "");
    std::fflush(stdout);
    all.evaluations += tot.evaluations;
    all.nontrivial += tot.nontrivial;
    for (auto h : tot.distinct)
      all.distinct.insert(h ^ hash_str(sub.name));
    for (auto& [l, c] : tot.labels)
      all.labels[std::string(sub.name) + "/" + l] += c;
    for (std::size_t i = 0; i < tot.samples.size() && i < 3; ++i)
      samples.push_back(std::string(sub.name) + ": " + tot.samples[i]);
    rules += (rules.empty() ? "" : " | ") + std::string(sub.name) + ": " + sub.rule;
    per_sub += (per_sub.empty() ? "" : ", ") + std::string("{\"name\": \"") + sub.name +
               "\", \"cases\": " + std::to_string(tot.evaluations) +
               ", \"nontrivial\": " + std::to_string(tot.nontrivial) +
               ", \"distinct_nontrivial\": " + std::to_string(tot.distinct.size()) +
               ", \"planned\": " + std::to_string(n) + "}";
    if (!violations.empty() || harness_broken)
      break;
  }

  const double wall = now() - t_start;
  if (!evidence.empty()) {
    std::ofstream f(evidence);
    f << "{\n \"property\": \"" << g_property << "\",\n \"tier\": \"" << (g_thorough ? "thorough" : "quick")
      << "\",\n \"seed\": " << g_seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": "
      << all.evaluations << ",\n  \"distinct_nontrivial\": " << all.distinct.size() << ",\n  \"rule\": \""
      << json_escape("Cases are choice sequences drawn from the seed; distinct = distinct choice sequences. "
                     "Non-trivial: " + rules)
      << "\",\n  \"samples\": [";
    for (std::size_t i = 0; i < samples.size(); ++i)
      f << (i ? ", " : "") << "\n   \"" << json_escape(samples[i]) << "\"";
    f << "],\n  \"sub_checks\": [" << per_sub << "],\n  \"labels\": {";
    bool first = true;
    for (auto& [l, c] : all.labels) {
      f << (first ? "" : ", ") << "\"" << json_escape(l) << "\": " << c;
      first = false;
    }
    f << "},\n  \"inconclusive\": [";
    for (std::size_t i = 0; i < inconclusive.size(); ++i)
      f << (i ? ", " : "") << "\"" << json_escape(inconclusive[i]) << "\"";
    f << "]\n },\n \"wall_s\": " << wall << ",\n \"violations\": " << violations.size() << "\n}\n";
  }
  if (!violations.empty())
    return 1;
  if (harness_broken)
    return 70;
  std::printf("property %s held on %ld cases (%zu distinct non-trivial) in %.1f s\n", g_property.c_str(),
              all.evaluations, all.distinct.size(), wall);
  return 0;
}
