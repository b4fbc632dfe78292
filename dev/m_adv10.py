from mutate import M, N
T = "fcp/tracing/"
G = T + "tools/tracing_traits_generator.cc"
RI = T + "tracing_recorder_impl.cc"
SI = T + "tracing_span_impl.cc"
XR = T + "text_tracing_recorder_impl.cc"
XS = T + "text_tracing_span_impl.cc"
XH = T + "text_tracing_span_impl.h"
SH = T + "tracing_span.h"
SR = T + "tracing_span_ref.h"
TG = T + "tracing_tag.h"

# ---- G02
# not noticed: M("G02", G, "if (!tags.insert(tag).second) {", "std::string lower = tag;\n    for (char& c : lower) c = std::tolower(c);\n    if (!tags.insert(lower).second) {")
M("G02", G, "  absl::flat_hash_set<std::string> tags;\n  for (const reflection::Object* const o : *schema.objects()) {\n", "  for (const reflection::Object* const o : *schema.objects()) {\n    absl::flat_hash_set<std::string> tags;\n")
M("G02", G, "    if (!tags.insert(tag).second) {", "    if (!tags.insert(tag).second && !is_span) {")
M("G02", G, "    if (!tags.insert(tag).second) {", "    if (!is_span && !tags.insert(tag).second) {")
M("G02", G, "          return 6;\n        }\n", "          return 6;\n        }\n        break;\n")
M("G02", G, "      if (f->deprecated()) continue;\n", "      if (f->deprecated() && f->type()->base_type() != BaseType::String) continue;\n")
M("G02", G, "      auto type_map_entry = type_map.find(flatbuf_type);\n", "      if (flatbuf_type == BaseType::Vector) continue;\n      auto type_map_entry = type_map.find(flatbuf_type);\n")
M("G02", G, "  if (!reflection::VerifySchemaBuffer(verifier)) {", "  if (bfbs_file.empty() && !reflection::VerifySchemaBuffer(verifier)) {")
M("G02", G, "  if (argc != 4) {", "  if (argc < 4) {")
M("G02", G, "      if (a->key()->str() == \"tag\") {", "      if (a->key()->str().substr(0, 3) == \"tag\") {")
M("G02", G, "        is_span = true;\n", "        is_span = severity == fcp::TracingSeverity::kInfo;\n")
M("G02", G, "                absl::StrReplaceAll(enum_type->name()->str(), {{\".\", \"::\"}})});", "                std::string(fcp::gen_table_name(absl::StrReplaceAll(enum_type->name()->str(), {{\".\", \"::\"}})))});")
M("G02", G, "                absl::StrReplaceAll(enum_type->name()->str(), {{\".\", \"::\"}})});", "                enum_type->name()->str()});")
M("G02", G, "                  << \".data(), \" << name << \".size()\"\n", "                  << \".data()\"\n")
M("G02", G, "      fields_sorted[f->id()] = f;\n", "      if (!f->optional()) fields_sorted[f->id()] = f;\n")
M("G02", G, "      fields_sorted[f->id()] = f;\n", "      fields_sorted[o->fields()->size() - 1 - f->id()] = f;\n")
M("G02", G, "    std::vector<std::pair<std::string, fcp::TypeInfo>> fields;\n", "    static std::vector<std::pair<std::string, fcp::TypeInfo>> fields;\n")
M("G02", G, "    bool is_span = false;\n", "    static bool is_span = false;\n")
M("G02", G, "    fcp::TracingSeverity severity = fcp::TracingSeverity::kInfo;\n    std::string tag = \"\";\n    bool is_span = false;\n", "    std::string tag = \"\";\n    bool is_span = false;\n", "  absl::flat_hash_set<std::string> tags;\n", "  absl::flat_hash_set<std::string> tags;\n  fcp::TracingSeverity severity = fcp::TracingSeverity::kInfo;\n")
M("G02", G, "    std::cout << \"static internal::TracingTraitsRegistrar<\"\n", "    if (is_span) continue;\n    std::cout << \"static internal::TracingTraitsRegistrar<\"\n")
M("G02", G, "    if (o->is_struct()) continue;\n", "    if (o->is_struct() || o->fields()->size() > 64) continue;\n")
M("G02", G, "        tag = a->value()->str();\n        if (tag.size() != 4) {", "        tag = a->value()->str();\n        tag.resize(4, ' ');\n        if (tag.size() != 4) {")
M("G02", G, "        tag = a->value()->str();\n", "        tag = a->value()->str().substr(0, 4);\n")
M("G02", G, "  for (const reflection::Object* const o : *schema.objects()) {\n    if (o->is_struct()) continue;", "  for (const reflection::Object* const o : *schema.objects()) {\n    if (o == schema.root_table()) continue;\n    if (o->is_struct()) continue;")
M("G02", G, "absl::StrReplaceAll(o->name()->c_str(), {{\".\", \"::\"}});\n    absl", "absl::StrReplaceAll(schema.root_table()->name()->c_str(), {{\".\", \"::\"}});\n    absl")
M("G02", G, "    for (const auto& [name, type] : fields) {\n      std::cout << type.cpp_type << \" \" << name << \", \";\n    }", "    for (size_t i = 0; i + 1 < fields.size(); ++i) {\n      std::cout << fields[i].second.cpp_type << \" \" << fields[i].first << \", \";\n    }")
M("G02", G, "    std::cout << \"*fbb\";\n    for (const auto& [name, type] : fields) {", "    std::cout << \"*fbb\";\n    std::reverse(fields.begin(), fields.end());\n    for (const auto& [name, type] : fields) {")
M("G02", G, "      make_tuple_args += \"table->\" + name + \"()\";", "      make_tuple_args += \"table->\" + fields[0].first + \"()\";")
M("G02", G, "      if (a->key()->str() == \"warning\") {\n        severity = fcp::TracingSeverity::kWarning;", "      if (a->key()->str() == \"warning\") {\n        if (is_span) continue;\n        severity = fcp::TracingSeverity::kWarning;")
M("G02", G, "    if (o->attributes() == nullptr) {\n      std::cerr\n", "    if (o->attributes() == nullptr && o->fields()->size() == 0) continue;\n    if (o->attributes() == nullptr) {\n      std::cerr\n")
M("G02", G, "reinterpret_cast<const uint8_t*>(bfbs_file.c_str()), bfbs_file.length());", "reinterpret_cast<const uint8_t*>(bfbs_file.c_str()), bfbs_file.capacity());")
M("G02", G, "  if (!flatbuffers::LoadFile(bfbs_filename, true, &bfbs_file)) {", "  if (!flatbuffers::LoadFile(fbs_filename, true, &bfbs_file)) {")
M("G02", G, "    std::cout << \"    return \" << fcp::severity_string(severity) << \";\" << '\\n';", "    std::cout << \"    return \" << fcp::severity_string(fcp::TracingSeverity::kInfo) << \";\" << '\\n';")
N("G02", G, "    for (const reflection::Field* const f : fields_sorted) {\n", "    for (size_t i = 0; i < fields_sorted.size(); ++i) {\n      const reflection::Field* const f = fields_sorted[i];\n")
N("G02", G, "    std::vector<const reflection::Field*> fields_sorted;\n    fields_sorted.resize(o->fields()->size());\n    for (const reflection::Field* const f : *o->fields()) {\n      // FlatBuffers field IDs are guaranteed to be dense:\n      assert(f->id() < o->fields()->size());\n      fields_sorted[f->id()] = f;\n    }\n", "    std::vector<const reflection::Field*> fields_sorted(o->fields()->begin(),\n                                                        o->fields()->end());\n    std::sort(fields_sorted.begin(), fields_sorted.end(),\n              [](const reflection::Field* a, const reflection::Field* b) {\n                return a->id() < b->id();\n              });\n")
N("G02", G, "    for (const reflection::KeyValue* a : *o->attributes()) {\n      if (a->key()->str() == \"tag\") {", "    for (const reflection::KeyValue* a : *o->attributes()) {\n      const std::string key = a->key()->str();\n      if (key == \"tag\") {")
N("G02", G, "  if (argc != 4) {", "  constexpr int kArguments = 3;\n  if (argc - 1 != kArguments) {")
N("G02", G, "      if (f->type()->index() != -1) {\n", "      const auto type_index = f->type()->index();\n      if (type_index != -1) {\n")
N("G02", G, "    std::cout << \"  static constexpr bool kIsSpan = \"\n              << (is_span ? \"true\" : \"false\") << \";\" << '\\n';", "    std::cout << \"  static constexpr bool kIsSpan = \";\n    if (is_span) {\n      std::cout << \"true\";\n    } else {\n      std::cout << \"false\";\n    }\n    std::cout << \";\" << std::endl;")
N("G02", G, "    return absl::ClippedSubstr(fully_qualified_table_name, pos + 1);", "    return fully_qualified_table_name.substr(pos + 1);")
N("G02", G, "    return absl::ClippedSubstr(fully_qualified_table_name, 0, pos + 1);", "    return fully_qualified_table_name.substr(0, pos + 1);")
N("G02", G, "        if (tag.size() != 4) {", "        if (tag.length() < 4 || tag.length() > 4) {")
N("G02", G, "    for (const auto& [name, type] : fields) {\n      std::cout << type.cpp_type << \" \" << name << \", \";\n    }", "    for (size_t i = 0; i < fields.size(); ++i) {\n      std::cout << fields[i].second.cpp_type << \" \" << fields[i].first << \", \";\n    }")
N("G02", G, "      make_tuple_args += \"table->\" + name + \"()\";", "      absl::StrAppend(&make_tuple_args, \"table->\", name, \"()\");")

# ---- G01
M("G01", RI, "    if (--thread_local_state.ref_count == 0) {\n      thread_local_state.tracing_recorder = nullptr;\n", "    if (--thread_local_state.ref_count == 0) {\n      thread_local_state.tracing_recorder = nullptr;\n      using_thread_local_state_ = false;\n")
M("G01", RI, "    FCP_CHECK(thread_local_state.tracing_recorder == impl &&\n              thread_local_state.ref_count > 0)", "    FCP_CHECK(thread_local_state.ref_count > 0)")
M("G01", RI, "    thread_local_state.ref_count++;\n", "    thread_local_state.ref_count = 1;\n")
M("G01", RI, "    absl::WriterMutexLock lock(&mutex_);\n    FCP_CHECK(!using_thread_local_state_)", "    absl::ReaderMutexLock lock(&mutex_);\n    FCP_CHECK(!using_thread_local_state_)")
M("G01", RI, "    FCP_CHECK(global_tracing_recorder_ == nullptr || impl == nullptr)", "    FCP_CHECK(global_tracing_recorder_ == nullptr || impl != nullptr)")
M("G01", RI, "    return tracing_recorder ? tracing_recorder->shared_from_this()\n", "    return tracing_recorder && tracing_recorder->is_global_ ? tracing_recorder->shared_from_this()\n")
# not noticed: M("G01", RI, "        new std::shared_ptr<TextTracingRecorderImpl>(\n            new TextTracingRecorderImpl(absl::LocalTimeZone()));\n    return *lazy_init_instance;", "        new std::shared_ptr<TextTracingRecorderImpl>(\n            new TextTracingRecorderImpl(absl::LocalTimeZone()));\n    return std::make_shared<TextTracingRecorderImpl>(absl::LocalTimeZone());")
M("G01", RI, "  FCP_CHECK(is_global_);\n  TracingState::GetInstance().SetGlobalRecorderImpl(nullptr);", "  if (!is_global_) return;\n  is_global_ = false;\n  if (shared_from_this().use_count() > 2) return;\n  TracingState::GetInstance().SetGlobalRecorderImpl(nullptr);")
M("G01", RI, "  FCP_CHECK(is_global_);\n", "")
M("G01", RI, "  FCP_CHECK(!is_global_);\n  TracingState::GetInstance().SetGlobalRecorderImpl(this);\n  is_global_ = true;", "  FCP_CHECK(!is_global_);\n  TracingState::GetInstance().SetGlobalRecorderImpl(this);")
M("G01", SI, "  top_tracing_span_ = this;\n", "  if (prev_ == nullptr) top_tracing_span_ = this;\n")
M("G01", XR, "  LogTime();\n  *stream_ << id << \": \" <<", "  if (traits.Severity() == TracingSeverity::kInfo && id == TracingSpanId(0)) return;\n  LogTime();\n  *stream_ << id << \": \" <<")
M("G01", XR, "TracingTraitsBase::SeverityString(traits.Severity())", "TracingTraitsBase::SeverityString(TracingTraitsBase::Lookup(*TracingTag::FromFlatbuf(buf))->Severity() == TracingSeverity::kError ? TracingSeverity::kError : TracingSeverity::kInfo)")
M("G01", XR, "  LogSpan(/* begin = */ true, id, parent_id, name, text_format);", "  if (id != parent_id) LogSpan(/* begin = */ true, id, parent_id, name, text_format);")
M("G01", XR, "  LogSpan(/* begin = */ false, id, TracingSpanId(0), name, text_format);", "  LogSpan(/* begin = */ false, TracingSpanId(0), id, name, text_format);")
M("G01", XR, "      shared_this, std::move(buf), traits, TracingSpanId::NextUniqueId(),\n      parent_span_id);", "      shared_this, std::move(buf), traits, TracingSpanId::NextUniqueId(),\n      TracingSpanRef::Top().span_id());")
M("G01", XR, "  return root_span_.get();", "  TracingSpanImpl* top = TracingSpanImpl::Top();\n  return top != nullptr ? top : root_span_.get();")
M("G01", XS, "  return TracingSpanRef(recorder_->shared_from_this(), id_);", "  return TracingSpanRef(TracingRecorderImpl::GetCurrent(), id_);")
M("G01", XS, "  return TracingSpanRef(recorder_->shared_from_this(), id_);", "  return TracingSpanRef(recorder_->shared_from_this(), TracingSpanId(0));")
M("G01", XS, "  recorder_->TraceImpl(id_, std::move(buf), traits);", "  TracingRecorderImpl::GetCurrent()->TraceImpl(id_, std::move(buf), traits);")
M("G01", XS, "  recorder_->EndSpan(id_, buf_text_.name, buf_text_.text_format);", "  recorder_->EndSpan(TracingSpanId::NextUniqueId(), buf_text_.name, buf_text_.text_format);")
M("G01", XH, "      : id_(id),\n        recorder_shared_ptr_", "      : id_(parent_id),\n        recorder_shared_ptr_")
M("G01", XH, "        recorder_shared_ptr_(std::move(recorder)),\n        buf_text_{traits.Name(), traits.TextFormat(buf)} {\n    recorder_ = recorder_shared_ptr_.get();", "        recorder_(recorder.get()),\n        buf_text_{traits.Name(), traits.TextFormat(buf)} {")
M("G01", XH, "        buf_text_{traits.Name(), traits.TextFormat(buf)} {", "        buf_text_{traits.Name(), \"\"} {")
M("G01", XH, "    std::string name;\n    std::string text_format;", "    absl::string_view name;\n    absl::string_view text_format;")
M("G01", SH, "  fbb.Finish(root, signature);", "  fbb.Finish(root);")
M("G01", SH, "    top->TraceImpl(std::move(trace_data), TracingTraits<FlatBufferTable>());\n  } else {", "    top->TraceImpl(std::move(trace_data), TracingTraits<FlatBufferTable>());\n  }\n  {")
M("G01", SH, "  span.recorder()->TraceImpl(span.span_id(), std::move(trace_data),", "  span.recorder()->TraceImpl(TracingSpanRef::Top().span_id(), std::move(trace_data),")
M("G01", SH, "  span.recorder()->TraceImpl(span.span_id(), std::move(trace_data),", "  tracing_internal::TracingRecorderImpl::GetCurrent()->TraceImpl(span.span_id(), std::move(trace_data),")
M("G01", SH, "  impl_ = parent.recorder()->CreateChildSpan(parent.span_id(),", "  impl_ = TracingSpanRef::Top().recorder()->CreateChildSpan(parent.span_id(),")
M("G01", SH, "  Trace<FlatBufferTable>(args...);\n", "")
M("G01", SH, "  Create(TracingSpanRef::Top(), std::forward<Arg>(args)...);", "  Create(tracing_internal::TracingRecorderImpl::GetCurrent()->GetRootSpan()->Ref(), std::forward<Arg>(args)...);")
M("G01", SH, "  ~TracingSpan() override {\n    UnscopedTracingSpan<FlatBufferTable>::impl_->Pop();\n  }", "  ~TracingSpan() override {\n    if (tracing_internal::TracingSpanImpl::Top() == UnscopedTracingSpan<FlatBufferTable>::impl_.get() && TracingSpanRef::Top().span_id().value > 1)\n    UnscopedTracingSpan<FlatBufferTable>::impl_->Pop();\n  }")
M("G01", SR, "      : recorder_(std::move(provider)), span_id_(span_id) {}", "      : recorder_(std::move(provider)), span_id_(0) {}")
M("G01", TG, "    return reinterpret_cast<const TracingTag*>(&buf.data()[4]);", "    return reinterpret_cast<const TracingTag*>(&buf.data()[0]);")
M("G01", TG, "inline bool operator==(TracingTag const& a, TracingTag const& b) {\n  return a.value == b.value;", "inline bool operator==(TracingTag const& a, TracingTag const& b) {\n  return a.data[0] == b.data[0] && a.data[1] == b.data[1] && a.data[2] == b.data[2];")
M("G01", TG, "inline bool operator!=(TracingTag const& a, TracingTag const& b) {\n  return a.value != b.value;", "inline bool operator!=(TracingTag const& a, TracingTag const& b) {\n  return (a.value & 0xffffff) != (b.value & 0xffffff);")
M("G01", T + "tracing_traits.cc", "  auto it = GetTracingTraitsRegistry().find(tag);\n  if (it == GetTracingTraitsRegistry().end()) {", "  auto it = GetTracingTraitsRegistry().find(tag);\n  if (it == GetTracingTraitsRegistry().end()) {\n    if (!GetTracingTraitsRegistry().empty()) return GetTracingTraitsRegistry().begin()->second.get();")
M("G01", T + "tracing_span_id.cc", "  return TracingSpanId(new_id);", "  return TracingSpanId(new_id & 0xffff);")
M("G01", T + "tracing_span_id.cc", "std::atomic<std::int64_t> TracingSpanId::id_source = 1;", "std::atomic<std::int64_t> TracingSpanId::id_source = 0;")
M("G01", T + "tracing_span_id.cc", "id_source.fetch_add(1, std::memory_order_seq_cst)", "id_source.fetch_add(0, std::memory_order_seq_cst)")
M("G01", T + "scoped_tracing_recorder.h", "~ScopedTracingRecorder() { tracing_recorder_->UninstallAsThreadLocal(); }", "~ScopedTracingRecorder() {}")
M("G01", T + "text_tracing_recorder.h", "  void InstallAsThreadLocal() override { impl_->InstallAsThreadLocal(); }", "  void InstallAsThreadLocal() override { impl_->InstallAsGlobal(); }")
N("G01", RI, "    if (--thread_local_state.ref_count == 0) {", "    thread_local_state.ref_count -= 1;\n    if (thread_local_state.ref_count < 1) {")
N("G01", RI, "    absl::ReaderMutexLock lock(&mutex_);\n    TracingRecorderImpl*", "    absl::MutexLock lock(&mutex_);\n    TracingRecorderImpl*")
N("G01", RI, "    return tracing_recorder ? tracing_recorder->shared_from_this()\n                            : GetOrCreateDefaultRecorder();", "    if (tracing_recorder == nullptr) {\n      return GetOrCreateDefaultRecorder();\n    }\n    return tracing_recorder->shared_from_this();")
N("G01", RI, "  TracingState::GetInstance().SetGlobalRecorderImpl(nullptr);\n  is_global_ = false;", "  is_global_ = false;\n  TracingState::GetInstance().SetGlobalRecorderImpl(nullptr);")
N("G01", SI, "  FCP_CHECK(prev_ == nullptr);\n  prev_ = top_tracing_span_;\n  top_tracing_span_ = this;", "  FCP_CHECK(prev_ == nullptr);\n  prev_ = std::exchange(top_tracing_span_, this);")
N("G01", XR, "  LogTime();\n  *stream_ << id << \": \" << TracingTraitsBase::SeverityString(traits.Severity())\n           << \" \" << traits.Name() << traits.TextFormat(buf) << endl;", "  LogTime();\n  const std::string severity = TracingTraitsBase::SeverityString(traits.Severity());\n  const std::string text = traits.TextFormat(buf);\n  *stream_ << id << \": \" << severity;\n  *stream_ << \" \" << traits.Name() << text << endl;")
N("G01", T + "tracing_span_id.cc", "  std::int64_t new_id = id_source.fetch_add(1, std::memory_order_seq_cst);\n  return TracingSpanId(new_id);", "  return TracingSpanId(id_source++);")
N("G01", TG, "  return H::combine(std::move(h), t.value);", "  return H::combine(std::move(h), t.data[0], t.data[1], t.data[2], t.data[3]);")
N("G01", T + "tracing_span_ref.cc", "  return top ? top->Ref()\n             : tracing_internal::TracingRecorderImpl::GetCurrent()\n                   ->GetRootSpan()\n                   ->Ref();", "  if (top != nullptr) return top->Ref();\n  auto recorder = tracing_internal::TracingRecorderImpl::GetCurrent();\n  return recorder->GetRootSpan()->Ref();")
N("G01", SH, "  if (top != nullptr) {\n    // Fast path: getting top tracing span from TLS/FCB:\n    top->TraceImpl(std::move(trace_data), TracingTraits<FlatBufferTable>());\n  } else {\n    // Slow path, finding root span from global recorder. This\n    // involves increasing its reference counter:\n    std::shared_ptr<tracing_internal::TracingRecorderImpl> recorder =\n        tracing_internal::TracingRecorderImpl::GetCurrent();\n    recorder->GetRootSpan()->TraceImpl(std::move(trace_data),\n                                       TracingTraits<FlatBufferTable>());\n    // now, since we done with using root span, it is safe to release shared_ptr\n  }", "  std::shared_ptr<tracing_internal::TracingRecorderImpl> recorder;\n  if (top == nullptr) {\n    recorder = tracing_internal::TracingRecorderImpl::GetCurrent();\n    top = recorder->GetRootSpan();\n  }\n  top->TraceImpl(std::move(trace_data), TracingTraits<FlatBufferTable>());")
N("G01", SH, "  Trace<FlatBufferTable>(args...);\n", "  Trace<FlatBufferTable>(std::forward<Arg>(args)...);\n")
