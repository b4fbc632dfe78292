T = "fcp/tracing/"
RI, SI, XR, XS, XH, SH = T + "tracing_recorder_impl.cc", T + "tracing_span_impl.cc", T + "text_tracing_recorder_impl.cc", T + "text_tracing_span_impl.cc", T + "text_tracing_span_impl.h", T + "tracing_span.h"
M("G01", RI, "    FCP_CHECK(!using_thread_local_state_)\n        << \"Global and thread local tracing recorders can't be used at the \"\n           \"same time\";\n", "")
M("G01", RI, "    FCP_CHECK(global_tracing_recorder_ == nullptr || impl == nullptr)\n        << \"Only one global tracing recorder instance is supported\";\n", "")
M("G01", RI, "    thread_local_state.ref_count++;\n", "    if (thread_local_state.ref_count == 0) thread_local_state.ref_count++;\n")
M("G01", RI, "    using_thread_local_state_ = true;\n", "")
M("G01", RI, "    if (--thread_local_state.ref_count == 0) {\n      thread_local_state.tracing_recorder = nullptr;\n    }", "    --thread_local_state.ref_count;\n    thread_local_state.tracing_recorder = nullptr;")
M("G01", RI, "    if (--thread_local_state.ref_count == 0) {", "    if (--thread_local_state.ref_count < 0) {")
M("G01", RI, "    FCP_CHECK(thread_local_state.tracing_recorder == nullptr ||\n              thread_local_state.tracing_recorder == impl)\n        << \"Only one tracing recorder instance per thread is supported\";\n", "")
M("G01", RI, "    thread_local static ThreadLocalState instance;", "    static ThreadLocalState instance;")
M("G01", RI, "    absl::ReaderMutexLock lock(&mutex_);\n    TracingRecorderImpl* tracing_recorder =\n        using_thread_local_state_ ? GetThreadLocalState().tracing_recorder\n                                  : global_tracing_recorder_;", "    TracingRecorderImpl* tracing_recorder;\n    {\n      absl::ReaderMutexLock lock(&mutex_);\n      tracing_recorder = using_thread_local_state_\n                             ? GetThreadLocalState().tracing_recorder\n                             : global_tracing_recorder_;\n    }")
M("G01", RI, "    return tracing_recorder ? tracing_recorder->shared_from_this()\n                            : GetOrCreateDefaultRecorder();", "    return GetOrCreateDefaultRecorder();")
M("G01", RI, "  is_global_ = false;\n", "")
M("G01", RI, "  if (is_global_) {\n    UninstallAsGlobal();\n  }\n  TracingState::GetInstance().EnsureNotSet(this);", "  TracingState::GetInstance();")
M("G01", RI, "    if (using_thread_local_state_) {\n      FCP_CHECK(GetThreadLocalState().tracing_recorder != impl)\n          << \"Trace recorder must not be set as thread local at destruction \"\n             \"time\";\n    }\n", "")
M("G01", RI, "    absl::WriterMutexLock lock(&mutex_);\n    auto& thread_local_state = GetThreadLocalState();\n    FCP_CHECK(global_tracing_recorder_ == nullptr)", "    auto& thread_local_state = GetThreadLocalState();\n    FCP_CHECK(global_tracing_recorder_ == nullptr)")
M("G01", SI, "  FCP_CHECK(top_tracing_span_ == this);\n", "")
M("G01", SI, "  top_tracing_span_ = prev_;\n", "  top_tracing_span_ = nullptr;\n")
M("G01", SI, "  prev_ = top_tracing_span_;\n  top_tracing_span_ = this;", "  top_tracing_span_ = this;\n  prev_ = top_tracing_span_;")
M("G01", XR, "      shared_this, std::move(buf), traits, TracingSpanId::NextUniqueId(),\n      parent_span_id);", "      shared_this, std::move(buf), traits, parent_span_id,\n      TracingSpanId::NextUniqueId());")
M("G01", XR, "  LogSpan(/* begin = */ false, id,", "  LogSpan(/* begin = */ true, id,")
M("G01", XR, "           << \" \" << traits.Name() << traits.TextFormat(buf) << endl;", "           << \" \" << traits.Name() << endl;")
M("G01", XR, "  if (begin && id != TracingSpanId(0)) {", "  if (begin && parent_id != TracingSpanId(0)) {")
M("G01", XS, "  recorder_->TraceImpl(id_, std::move(buf), traits);", "  recorder_->TraceImpl(TracingSpanId(0), std::move(buf), traits);")
M("G01", XS, "  recorder_->EndSpan(id_, buf_text_.name, buf_text_.text_format);", "  if (recorder_shared_ptr_) recorder_->EndSpan(id_, buf_text_.name, buf_text_.text_format);")
M("G01", XH, "      : id_(id),\n        recorder_shared_ptr_(std::move(recorder)),\n        buf_text_{traits.Name(), traits.TextFormat(buf)} {\n    recorder_ = recorder_shared_ptr_.get();", "      : id_(id),\n        buf_text_{traits.Name(), traits.TextFormat(buf)} {\n    recorder_ = recorder.get();")
M("G01", XH, "    recorder_->BeginSpan(id, parent_id, buf_text_.name, buf_text_.text_format);", "    recorder_->BeginSpan(parent_id, id, buf_text_.name, buf_text_.text_format);")
M("G01", T + "text_tracing_recorder_impl.h", "  absl::TimeZone time_zone_;\n  std::unique_ptr<TextTracingSpanImpl> root_span_;\n", "  absl::TimeZone time_zone_;\n", "  // File stream which", "  std::unique_ptr<TextTracingSpanImpl> root_span_;\n  // File stream which")
M("G01", SH, "  Create(parent, std::forward<Arg>(args)...);", "  Create(TracingSpanRef::Top(), std::forward<Arg>(args)...);")
M("G01", SH, "    top->TraceImpl(std::move(trace_data), TracingTraits<FlatBufferTable>());", "    top->Ref().recorder()->GetRootSpan()->TraceImpl(std::move(trace_data), TracingTraits<FlatBufferTable>());")
M("G01", SH, "tag.data[3], 0};", "tag.data[2], 0};")
M("G01", SH, ("    UnscopedTracingSpan<FlatBufferTable>::impl_->Push();", 1), "    if (TracingSpanRef::Top().span_id() != parent.span_id()) UnscopedTracingSpan<FlatBufferTable>::impl_->Push();")
M("G01", T + "tracing_span_id.cc", "id_source.fetch_add(1, std::memory_order_seq_cst)", "id_source.load(std::memory_order_seq_cst)")
M("G01", T + "tracing_span_id.h", "return a.value < b.value", "return b.value < a.value")
M("G01", T + "tracing_traits.cc", "  GetTracingTraitsRegistry()[tag] = std::move(traits);", "  GetTracingTraitsRegistry().try_emplace(tag, std::move(traits));")
M("G01", T + "tracing_traits.h", "        return \"WARNING\";", "        return \"ERROR\";")
M("G01", T + "tracing_span_ref.cc", "  return top ? top->Ref()\n             : tracing_internal::TracingRecorderImpl::GetCurrent()\n                   ->GetRootSpan()\n                   ->Ref();", "  (void)top;\n  return tracing_internal::TracingRecorderImpl::GetCurrent()->GetRootSpan()->Ref();")
M("G01", T + "tracing_context_utils.cc", "  FCP_CHECK(field_descriptor->type() == google::protobuf::FieldDescriptor::TYPE_BYTES ||\n            field_descriptor->type() == google::protobuf::FieldDescriptor::TYPE_STRING)\n      << kContextWrongTypeMessage;\n", "")
M("G01", T + "tracing_context_utils.h", "  FCP_CHECK(context.ParseFromString(serialized_context));\n", "")
M("G01", T + "scoped_tracing_recorder.h", "~ScopedTracingRecorder() { tracing_recorder_->UninstallAsThreadLocal(); }", "~ScopedTracingRecorder() { tracing_recorder_->UninstallAsGlobal(); }")
N("G01", RI, "    TracingRecorderImpl* tracing_recorder =\n        using_thread_local_state_ ? GetThreadLocalState().tracing_recorder\n                                  : global_tracing_recorder_;\n    return tracing_recorder ? tracing_recorder->shared_from_this()\n                            : GetOrCreateDefaultRecorder();", "    TracingRecorderImpl* current = global_tracing_recorder_;\n    if (using_thread_local_state_) current = GetThreadLocalState().tracing_recorder;\n    if (current == nullptr) return GetOrCreateDefaultRecorder();\n    return current->shared_from_this();")
N("G01", RI, "    if (--thread_local_state.ref_count == 0) {", "    thread_local_state.ref_count -= 1;\n    if (thread_local_state.ref_count == 0) {")
N("G01", RI, "    thread_local_state.tracing_recorder = impl;\n    thread_local_state.ref_count++;", "    ++thread_local_state.ref_count;\n    thread_local_state.tracing_recorder = impl;")
N("G01", SI, "  FCP_CHECK(prev_ == nullptr);\n  prev_ = top_tracing_span_;", "  FCP_CHECK(!prev_);\n  prev_ = Top();")
N("G01", XR, "  auto shared_this =\n      std::static_pointer_cast<TextTracingRecorderImpl>(shared_from_this());\n  return std::make_unique<TextTracingSpanImpl>(\n      shared_this, std::move(buf), traits, TracingSpanId::NextUniqueId(),\n      parent_span_id);", "  TracingSpanId id = TracingSpanId::NextUniqueId();\n  return std::make_unique<TextTracingSpanImpl>(\n      std::static_pointer_cast<TextTracingRecorderImpl>(shared_from_this()), std::move(buf), traits, id, parent_span_id);")
N("G01", XR, "  *stream_ << id << \": \" << TracingTraitsBase::SeverityString(traits.Severity())\n           << \" \" << traits.Name() << traits.TextFormat(buf) << endl;", "  std::string text = traits.TextFormat(buf);\n  *stream_ << id << \": \";\n  *stream_ << TracingTraitsBase::SeverityString(traits.Severity()) << \" \";\n  *stream_ << traits.Name() << text << endl;")
N("G01", XR, "  if (!name.empty()) {\n    *stream_ << \" \" << name << \" \" << text_format;\n  }", "  if (name.size() > 0) {\n    *stream_ << ' ' << name << ' ' << text_format;\n  }")
N("G01", T + "tracing_traits.cc", "  auto it = GetTracingTraitsRegistry().find(tag);\n  if (it == GetTracingTraitsRegistry().end()) {\n    static auto unknown_tracing_traits = new UnknownTracingTraits();\n    return unknown_tracing_traits;\n  }\n  return it->second.get();", "  auto& registry = GetTracingTraitsRegistry();\n  if (auto it = registry.find(tag); it != registry.end()) return it->second.get();\n  static auto unknown_tracing_traits = new UnknownTracingTraits();\n  return unknown_tracing_traits;")
N("G01", T + "tracing_traits.cc", "  GetTracingTraitsRegistry()[tag] = std::move(traits);", "  GetTracingTraitsRegistry().insert_or_assign(tag, std::move(traits));")
N("G01", SH, "  if (top != nullptr) {\n    // Fast path: getting top tracing span from TLS/FCB:\n    top->TraceImpl(std::move(trace_data), TracingTraits<FlatBufferTable>());\n  } else {", "  if (top != nullptr) {\n    top->TraceImpl(std::move(trace_data), TracingTraits<FlatBufferTable>());\n    return;\n  }\n  {")
N("G01", T + "tracing_span_id.cc", "  std::int64_t new_id = id_source.fetch_add(1, std::memory_order_seq_cst);\n  return TracingSpanId(new_id);", "  return TracingSpanId(id_source++);")
N("G01", T + "tracing_span_ref.cc", "  return top ? top->Ref()\n             : tracing_internal::TracingRecorderImpl::GetCurrent()\n                   ->GetRootSpan()\n                   ->Ref();", "  if (top == nullptr) {\n    auto recorder = tracing_internal::TracingRecorderImpl::GetCurrent();\n    return recorder->GetRootSpan()->Ref();\n  }\n  return top->Ref();")
M("G01", T + "tracing_span_id.cc", "  std::int64_t new_id = id_source.fetch_add(1, std::memory_order_seq_cst);\n", "  std::int64_t new_id = id_source;\n  id_source = new_id + 1;\n")
N("G01", RI, "    if (--thread_local_state.ref_count == 0) {\n      thread_local_state.tracing_recorder = nullptr;\n    }", "    if (--thread_local_state.ref_count > 0) return;\n    thread_local_state.tracing_recorder = nullptr;")
