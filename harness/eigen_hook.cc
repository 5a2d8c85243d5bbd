// Linked in every driver built with eigen_hook.hpp.
#include "eigen_hook.hpp"

#include <cstdio>
#include <cstdlib>

namespace vh_eigen {
// Abort with a recognizable report: the runner treats it like a sanitizer report.
[[noreturn]] void fired(const char* cond, const char* file, int line) {
  std::fprintf(stderr, "EIGEN-ASSERT: %s at %s:%d\n", cond, file, line);
  std::fflush(stderr);
  std::abort();
}
}  // namespace vh_eigen
