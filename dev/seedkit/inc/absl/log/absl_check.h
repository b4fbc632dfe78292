#ifndef SHIM_ABSL_LOG_H_
#define SHIM_ABSL_LOG_H_
// Minimal stand-in for absl/log: INFO..ERROR are dropped, FATAL aborts.
#include <cstdlib>
#include <iostream>
#include <sstream>
namespace shim_log {
struct Sink {
  bool fatal;
  std::ostringstream s;
  explicit Sink(bool f) : fatal(f) {}
  ~Sink() {
    if (fatal) {
      std::cerr << "FATAL: " << s.str() << std::endl;
      std::abort();
    }
  }
  std::ostream& stream() { return s; }
};
struct Voidify {
  void operator&(std::ostream&) {}
};
}  // namespace shim_log
#define SHIM_FATAL_INFO false
#define SHIM_FATAL_WARNING false
#define SHIM_FATAL_ERROR false
#define SHIM_FATAL_FATAL true
#define SHIM_FATAL_DFATAL true
#define ABSL_LOG(sev) ::shim_log::Sink(SHIM_FATAL_##sev).stream()
#define ABSL_LOG_IF(sev, cond) \
  !(cond) ? (void)0 : ::shim_log::Voidify() & ABSL_LOG(sev)
#define ABSL_CHECK(c) ABSL_LOG_IF(FATAL, !(c)) << "check failed: " #c " "
#define ABSL_VLOG(n) ABSL_LOG_IF(INFO, false)
#define ABSL_DVLOG(n) ABSL_LOG_IF(INFO, false)
#endif
