// C13: assertions: what is enabled is enforced with a diagnostic, what holds or is disabled has no effect
#include <sys/wait.h>
#include <unistd.h>

#include <string>

#include <dlaf/common/assert.h>

#include "pbt.hpp"

using pbt::Gen;

// the same code with assertions off (c13_assert_off.cpp)
int assert_off_run(int level, bool value, int* evaluated, int* args);

namespace {
std::string capture(void (*f)(void*), void* p, bool& died) {
  int fd[2];
  if (pipe(fd) != 0)
    pbt::harness_error("pipe");
  const pid_t pid = fork();
  if (pid < 0)
    pbt::harness_error("fork");
  if (pid == 0) {
    dup2(fd[1], 2);
    close(fd[0]);
    close(fd[1]);
    f(p);
    _exit(0);
  }
  close(fd[1]);
  std::string s;
  char buf[4096];
  ssize_t n;
  while ((n = read(fd[0], buf, sizeof buf)) > 0)
    s.append(buf, static_cast<std::size_t>(n));
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  died = WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT;
  return s;
}
struct Probe {
  int level;
  bool value;
  int x;
  std::string text;
  int evaluated = 0;
  int line = 0;
};
bool eval(Probe& p) {
  ++p.evaluated;
  return p.value;
}
int unreachable_value();
void run(Probe& p) {
  switch (p.level) {
    case 0: p.line = __LINE__; DLAF_ASSERT(eval(p), p.x, p.text); break;
    case 1: p.line = __LINE__; DLAF_ASSERT_MODERATE(eval(p), p.x, p.text); break;
    case 2: p.line = __LINE__; DLAF_ASSERT_HEAVY(eval(p), p.x, p.text); break;
    case 3: p.line = __LINE__; DLAF_ASSERT(eval(p), ""); break;
    case 4: p.line = __LINE__; if (!p.value) DLAF_UNIMPLEMENTED(p.x, p.text); break;
    case 5: p.line = __LINE__; if (!p.value) DLAF_INVALID_OPTION_VALUE("the-option", p.text, "a, b or c"); break;
    case 6: p.line = __LINE__; if (!p.value) DLAF_UNREACHABLE_PLAIN; break;
    default: p.line = __LINE__; if (!p.value) unreachable_value(); break;
  }
}
int unreachable_value() {
  return DLAF_UNREACHABLE(int);
}
std::string gen_text(Gen& g) {
  std::string s;
  for (auto n = g.range(1, 20); n > 0; --n)
    s += static_cast<char>('a' + g.below(26));
  return s;
}
int line_of(int level) {
  Probe p{level, true, 0, "", 0, 0};
  run(p);
  return p.line;
}
}  // namespace

PBT_SUB(holds, 400000, 4000000, "always: the expression is evaluated exactly once and nothing else happens") {
  Probe p{static_cast<int>(g.below(8)), true, static_cast<int>(g.range(-100, 100)), gen_text(g), 0, 0};
  g << "level " << p.level;
  g.nontrivial();
  run(p);
  PBT_EQ(p.evaluated, p.level < 4 ? 1 : 0, "evaluations of the expression");
}

PBT_SUB(fails, 4000, 40000, "always: the process ends abnormally and the diagnostic names place, expression and every argument") {
  Probe p{static_cast<int>(g.below(8)), false, static_cast<int>(g.range(-100000, 100000)), gen_text(g), 0, 0};
  g << "level " << p.level << " " << p.x << " " << p.text;
  g.label(pbt::cat("kind ", p.level));
  g.nontrivial();
  const int line = line_of(p.level);
  bool died = false;
  const std::string err = capture([](void* q) { run(*static_cast<Probe*>(q)); }, &p, died);
  PBT_CHECK(died, "a violated assertion did not terminate the process");
  auto has = [&](const std::string& s) { return err.find(s) != std::string::npos; };
  PBT_CHECK(has("c13_assert.cpp"), "diagnostic without file: ", err);
  if (p.level < 7)
    PBT_CHECK(has(std::to_string(line)), "diagnostic without line ", line, ": ", err);
  if (p.level < 4)
    PBT_CHECK(has("eval(p)"), "diagnostic without the expression: ", err);
  if (p.level < 3 || p.level == 4)
    PBT_CHECK(has(std::to_string(p.x)) && has(p.text), "diagnostic without the arguments: ", err);
  if (p.level == 5)
    PBT_CHECK(has("the-option") && has(p.text) && has("a, b or c"), "diagnostic of an invalid option: ", err);
}

PBT_SUB(disabled, 300000, 2000000, "always: a disabled assertion has no effect whatever its expression") {
  const int level = static_cast<int>(g.below(3));
  const bool value = g.boolean();
  g << "level " << level << " value " << value;
  g.nontrivial();
  int ev = 0, args = 0;
  const int r = assert_off_run(level, value, &ev, &args);
  PBT_EQ(r, 17);
  PBT_EQ(ev, 0, "evaluations of a disabled expression");
  PBT_EQ(args, 0, "evaluations of arguments of a disabled assertion");
}
