// Build shim (harness only): the sandbox's Abseil predates absl/log. Severity
// INFO/WARNING/ERROR evaluate their operands and discard them; FATAL aborts.
#ifndef VERIF_SHIM_ABSL_LOG_ABSL_LOG_H_
#define VERIF_SHIM_ABSL_LOG_ABSL_LOG_H_
#include <cstdio>
#include <cstdlib>
#include <ostream>
#include <sstream>
#include <string>
// The real headers pull this in transitively.
#include "absl/strings/string_view.h"
#include "absl/status/status.h"
namespace verif_log {
// Set by the simulator: called before abort() with "file:line: message".
extern void (*fatal_hook)(const char* file, int line, const char* msg);
struct Null {
  const Null& WithPerror() const { return *this; }
  template <typename T>
  const Null& operator<<(const T&) const {
    return *this;
  }
  const Null& operator<<(std::ostream& (*)(std::ostream&)) const {
    return *this;
  }
};
struct Voidify {
  void operator&&(const Null&) const {}
};
class Fatal {
 public:
  Fatal(const char* file, int line, const char* what)
      : file_(file), line_(line) {
    os_ << what;
  }
  // The hook may throw, when a program that aborts is one that has failed.
  [[noreturn]] ~Fatal() noexcept(false) {
    const std::string s = os_.str();
    if (fatal_hook != nullptr) fatal_hook(file_, line_, s.c_str());
    std::fprintf(stderr, "FATAL %s:%d: %s\n", file_, line_, s.c_str());
    std::abort();
  }
  template <typename T>
  Fatal& operator<<(const T& v) {
    if constexpr (requires(std::ostream& o, const T& x) { o << x; }) os_ << v;
    return *this;
  }
  Fatal& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }

 private:
  const char* file_;
  int line_;
  std::ostringstream os_;
};
struct VoidifyFatal {
  void operator&&(const Fatal&) const {}
};
}  // namespace verif_log
#define VERIF_LOG_INFO ::verif_log::Null()
#ifdef VERIF_LOG_PRINT  // for debugging the harness
namespace verif_log {
struct Print : Null {
  std::ostringstream os;
  ~Print() { std::fprintf(stderr, "%s\n", os.str().c_str()); }
  template <typename T>
  Print& operator<<(const T& v) {
    if constexpr (requires(std::ostream& o, const T& x) { o << x; }) os << v;
    return *this;
  }
};
}  // namespace verif_log
#define VERIF_LOG_WARNING ::verif_log::Print()
#define VERIF_LOG_ERROR ::verif_log::Print()
#else
#define VERIF_LOG_WARNING ::verif_log::Null()
#define VERIF_LOG_ERROR ::verif_log::Null()
#endif
#define VERIF_LOG_DFATAL ::verif_log::Null()
#define VERIF_LOG_FATAL ::verif_log::Fatal(__FILE__, __LINE__, "LOG(FATAL): ")
#define ABSL_LOG(s) VERIF_LOG_##s
#define ABSL_LOG_IF(s, c) \
  switch (0)              \
  case 0:                 \
  default:                \
    !(c) ? (void)0 : ::verif_log::Voidify() && ABSL_LOG(s)
#define ABSL_LOG_FIRST_N(s, n) ABSL_LOG(s)
#define ABSL_LOG_EVERY_N(s, n) ABSL_LOG(s)
#define ABSL_LOG_EVERY_POW_2(s) ABSL_LOG(s)
#define ABSL_LOG_EVERY_N_SEC(s, n) ABSL_LOG(s)
#define ABSL_VLOG(n) \
  switch (0)         \
  case 0:            \
  default:           \
    true ? (void)0 : ::verif_log::Voidify() && ::verif_log::Null()
#define ABSL_VLOG_IS_ON(n) (false)
#endif
