// Instantiations of the tracing templates with stand-in tables.
#include <string>

#include "google/protobuf/any.pb.h"
#include "fcp/tracing/scoped_tracing_recorder.h"
#include "fcp/tracing/text_tracing_recorder.h"
#include "fcp/tracing/tracing_context_utils.h"
#include "fcp/tracing/tracing_span.h"
#include "fcp/tracing/tracing_traits.h"

namespace inst {
struct Activity {};
struct Happening {};
struct Failure {};
}  // namespace inst

namespace fcp {
template <bool span, TracingSeverity severity>
struct StandIn : TracingTraitsBase {
  static constexpr TracingTag kTag = TracingTag("INST");
  static constexpr TracingSeverity kSeverity = severity;
  static constexpr bool kIsSpan = span;
  const char* Name() const override { return ""; }
  TracingSeverity Severity() const override { return severity; }
  std::string TextFormat(const flatbuffers::DetachedBuffer& buf) const override { return ""; }
  std::string JsonStringFormat(const uint8_t* flatbuf_bytes) const override { return ""; }
};
template <>
class TracingTraits<inst::Activity> : public StandIn<true, TracingSeverity::kInfo> {
 public:
  static flatbuffers::Offset<inst::Activity> Create(int a, flatbuffers::FlatBufferBuilder* fbb);
};
template <>
class TracingTraits<inst::Happening> : public StandIn<false, TracingSeverity::kInfo> {
 public:
  static flatbuffers::Offset<inst::Happening> Create(int a, flatbuffers::FlatBufferBuilder* fbb);
};
template <>
class TracingTraits<inst::Failure> : public StandIn<false, TracingSeverity::kError> {
 public:
  static flatbuffers::Offset<inst::Failure> Create(int a, flatbuffers::FlatBufferBuilder* fbb);
};
}  // namespace fcp

namespace inst {
void activity(fcp::TracingSpanRef parent, int a) {
  fcp::TracingSpan<Activity> span(a);
  fcp::TracingSpan<Activity> child(parent, a);
  fcp::Trace<Happening>(a);
  fcp::Trace<Happening>(parent, a);
  (void)fcp::TraceError<Failure>(a);
}
fcp::internal::TracingTraitsRegistrar<Happening> registrar;
google::protobuf::Any context(const google::protobuf::Any& m) {
  return fcp::tracing_internal::GetContextFromMessage<google::protobuf::Any>(m);
}
}  // namespace inst
