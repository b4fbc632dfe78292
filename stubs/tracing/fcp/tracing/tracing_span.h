// Analysis stand-in for fcp/tracing/tracing_span.h: same call surface, no
// dependency on generated traits.
#ifndef FCP_TRACING_TRACING_SPAN_H_
#define FCP_TRACING_TRACING_SPAN_H_
#include <cstdint>
#include <memory>
#include <utility>
#include "flatbuffers/flatbuffers.h"
#include "fcp/base/error.h"
#include "fcp/base/unique_value.h"
namespace fcp {
class TracingSpanRef {
 public:
  static TracingSpanRef Top() { return TracingSpanRef(); }
};
template <class FlatBufferTable>
class UnscopedTracingSpan {
 public:
  template <class... Arg>
  explicit UnscopedTracingSpan(Arg&&...) {}
  TracingSpanRef Ref() const { return TracingSpanRef(); }
  virtual ~UnscopedTracingSpan() = default;
};
template <class FlatBufferTable>
class TracingSpan final : public UnscopedTracingSpan<FlatBufferTable> {
 public:
  template <class... Arg>
  explicit TracingSpan(Arg&&...) {}
  ~TracingSpan() override {}
};
template <class FlatBufferTable, class... Arg>
void Trace(Arg&&...) {}
template <class FlatBufferTable, class... Arg>
Error TraceError(Arg&&...);
}  // namespace fcp
#endif
