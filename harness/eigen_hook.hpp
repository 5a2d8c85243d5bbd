// Force-included in the sanitizer builds: a failed Eigen assertion (dimension mismatch, index out
// of range, ...) raises an exception that no part of the library catches, instead of aborting.
#pragma once
#include <exception>
#include <string>
namespace vh_eigen {
struct EigenAssertFired : public std::exception {
  std::string msg;
  explicit EigenAssertFired(std::string m) : msg(std::move(m)) {}
  const char* what() const noexcept override { return msg.c_str(); }
};
[[noreturn]] void fired(const char* cond, const char* file, int line);
}  // namespace vh_eigen
#define eigen_assert(X)                                     \
  do {                                                      \
    if (!(X)) ::vh_eigen::fired(#X, __FILE__, __LINE__);    \
  } while (false)
