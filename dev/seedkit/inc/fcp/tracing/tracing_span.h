#ifndef SHIM_TRACING_SPAN_H_
#define SHIM_TRACING_SPAN_H_
// Tracing is switched off for the demonstration.
#include <string>
#include <utility>
#include "flatbuffers/flatbuffers.h"
#include "fcp/base/monitoring.h"
namespace fcp {
struct TracingSpanRef {};
template <class F, class... A>
void Trace(A&&...) {}
template <class F, class... A>
absl::Status TraceError(A&&...) { return absl::InternalError("traced"); }
template <class F = void>
struct TracingSpan {
  template <class... A>
  explicit TracingSpan(A&&...) {}
  TracingSpanRef Ref() const { return {}; }
  template <class... A>
  void TopLevelNoop(A&&...) {}
};
template <class F = void>
struct UnscopedTracingSpan {
  template <class... A>
  explicit UnscopedTracingSpan(A&&...) {}
  TracingSpanRef Ref() const { return {}; }
};
}  // namespace fcp
#endif
