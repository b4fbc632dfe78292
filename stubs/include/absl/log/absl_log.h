// Analysis stub: abseil's logging macros, reduced to the control flow that
// matters (a FATAL message never returns).
#ifndef VERIF_STUB_ABSL_LOG_H_
#define VERIF_STUB_ABSL_LOG_H_
#include <ostream>
namespace fcpstub {
class LogMessage {
 public:
  LogMessage();
  template <typename T> LogMessage& operator<<(const T&) { return *this; }
  LogMessage& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
  LogMessage& WithVerbosity(int) { return *this; }
};
class LogMessageFatal : public LogMessage {
 public:
  LogMessageFatal();
  [[noreturn]] ~LogMessageFatal();
  template <typename T> LogMessageFatal& operator<<(const T&) { return *this; }
};
struct Voidify { void operator&&(const LogMessage&) const {} };
using LogMessageINFO = LogMessage;
using LogMessageWARNING = LogMessage;
using LogMessageERROR = LogMessage;
using LogMessageFATAL = LogMessageFatal;
using LogMessageDFATAL = LogMessage;
}  // namespace fcpstub
#define ABSL_LOG(severity) ::fcpstub::LogMessage##severity()
#define ABSL_LOG_IF(severity, condition) \
  !(condition) ? (void)0 : ::fcpstub::Voidify() && ::fcpstub::LogMessage##severity()
#define ABSL_CHECK(condition) ABSL_LOG_IF(FATAL, !(condition))
#endif
