// compiled without DLAF_ASSERT_*_ENABLE
#include <dlaf/common/assert.h>

namespace {
[[maybe_unused]] bool count(bool v, int* n) {
  ++*n;
  return v;
}
}  // namespace

int assert_off_run(int level, [[maybe_unused]] bool value, [[maybe_unused]] int* evaluated, [[maybe_unused]] int* args) {
  switch (level) {
    case 0: DLAF_ASSERT(count(value, evaluated), ++*args); break;
    case 1: DLAF_ASSERT_MODERATE(count(value, evaluated), ++*args); break;
    default: DLAF_ASSERT_HEAVY(count(value, evaluated), ++*args); break;
  }
  return 17;
}
