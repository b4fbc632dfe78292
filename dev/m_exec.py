D = "fcp/dictionary/dictionary.cc"
M("E06", D, "    return GetSize(*bimap_) + max_special_id_ + 1;", "    return GetSize(*bimap_) + max_special_id_;")
M("E06", D, "      return id + max_special_id_ + 1;", "      return id + max_special_id_;")
M("E06", D, "bimap_, id - (max_special_id_ + 1))", "bimap_, id - max_special_id_)")
M("E06", D, "    return token_id <= max_special_id_;", "    return token_id < max_special_id_;")
M("E06", D, "  max_special_id = std::max(max_special_id, special_ids.eos());\n", "")
M("E06", D, "id >= bimap.second.size()", "id > bimap.second.size()")
M("E06", D, "  if (id < 0 || id >=", "  if (id >=")
M("E06", D, "      bimap->second.emplace_back(token);\n", "      if (bimap->first.size() > 1) bimap->second.emplace_back(token);\n")
M("E06", D, "    int i = 0;\n", "    int i = 1;\n")
M("E06", D, "id(i) <= max_special_id)", "id(i) < max_special_id)")
M("E06", D, "id(i) >\n", "id(i) >=\n")
M("E06", D, "for (int32_t id = 0; id <= max_special_id_; ++id)", "for (int32_t id = 0; id < max_special_id_; ++id)")
M("E06", D, "for (int32_t id = 0; id <= max_special_id_; ++id)", "for (int32_t id = 1; id <= max_special_id_; ++id)")
M("E06", D, "  FCP_RETURN_IF_ERROR(IsOutputBlocklistIdsSortedAndUnique(description));\n", "")
M("E06", D, "      return special_ids_.unk();", "      return kNotFound;") 
M("E06", D, "for (int i = 0; i < description.output_blocklist_ids().id_size(); i++)", "for (int i = 1; i < description.output_blocklist_ids().id_size(); i++)")
M("E06", D, "    if (id == kNotFound) {", "    if (id <= 0) {")
M("E06", D, "    FCP_CHECK(special_ids.has_eos() == (special_ids.eos() >= 0));\n", "")
N("E06", D, "    FCP_CHECK(special_ids.has_bos() == (special_ids.bos() >= 0));\n", "    const bool bos_ok = special_ids.has_bos() == (special_ids.bos() >= 0);\n    FCP_CHECK(bos_ok);\n")
N("E06", D, "      bimap->first[token] = i++;\n", "      bimap->first[token] = i;\n      ++i;\n")
N("E06", D, "    return token_id <= max_special_id_;", "    return token_id < max_special_id_ + 1;")
N("E06", D, "    return token_id <= max_special_id_;", "    return !(token_id > max_special_id_);")
N("E06", D, "  return map_idx == bimap.first.end() ? Dictionary::kNotFound : map_idx->second;", "  if (map_idx != bimap.first.end()) {\n    return map_idx->second;\n  }\n  return Dictionary::kNotFound;")
N("E06", D, "        max_special_id_(GetMaxSpecialId(special_ids)) {", "        max_special_id_(GetMaxSpecialId(special_ids)),\n        first_token_id_(max_special_id_ + 1) {", "      return id + max_special_id_ + 1;", "      return id + first_token_id_;", "  int32_t max_special_id_;\n", "  int32_t max_special_id_;\n  int32_t first_token_id_;\n", "bimap_, id - (max_special_id_ + 1))", "bimap_, id - first_token_id_)")
N("E06", D, "      if (description.output_blocklist_ids().id(i) <= max_special_id) {", "      const int32_t blocked = description.output_blocklist_ids().id(i);\n      if (blocked <= max_special_id) {", "      if (!(i == 0 || description.output_blocklist_ids().id(i) >\n                          description.output_blocklist_ids().id(i - 1))) {", "      if (i > 0 && description.output_blocklist_ids().id(i - 1) >= blocked) {")
N("E06", D, "  if (id < 0 || id >= bimap.second.size()) {\n    return \"\";\n  }\n  return bimap.second[id];", "  if (id >= 0 && id < bimap.second.size()) {\n    return bimap.second[id];\n  }\n  return \"\";")
N("E06", D, "  int32_t max_special_id = -1;\n  max_special_id = std::max(max_special_id, special_ids.bos());\n  max_special_id = std::max(max_special_id, special_ids.eos());\n  max_special_id = std::max(max_special_id, special_ids.unk());\n  return max_special_id;", "  return std::max({-1, special_ids.bos(), special_ids.eos(), special_ids.unk()});")
N("E06", D, "    int i = 0;\n    bimap->second.reserve", "    bimap->second.reserve", "      bimap->first[token] = i++;", "      bimap->first[token] = static_cast<int32_t>(bimap->second.size());")
N("E06", D, "      bimap->first[token] = i++;", "      bimap->first.insert_or_assign(std::string(token), i++);")
N("E06", D, "    for (int32_t id : output_blocklist_ids.id()) {\n      output_blocklist_ids_.push_back(id);\n    }", "    output_blocklist_ids_.insert(output_blocklist_ids_.end(), output_blocklist_ids.id().begin(), output_blocklist_ids.id().end());")
H = "fcp/client/engine/plan_engine_helpers.cc"
Q = "fcp/client/example_iterator_query_recorder.cc"
X = "fcp/client/engine/example_query_plan_engine.cc"
M("E07", H, "    iterator_finished_ = true;\n", "")
M("E07", H, "    example_iterator_->Close();\n", "")
M("E07", H, "  if (error_code == absl::StatusCode::kOutOfRange) {", "  if (error_code != absl::StatusCode::kOk) {")
M("E07", H, "      *total_example_count_ += 1;\n", "")
M("E07", H, "      *total_example_count_ += 1;\n", "      *total_example_count_ = example_count_ + 1;\n")
M("E07", H, "      example_size_bytes_ += example->size();", "      example_size_bytes_ = example->size();")
M("E07", H, "      example_count_ += 1;\n", "      example_count_ += example->size();\n")
M("E07", H, "    if (collect_stats_) {\n      // TODO", "    {\n      // TODO")
M("E07", H, "    if (single_query_recorder_) {\n      single_query_recorder_->Increment();\n    }\n", "")
M("E07", H, "  if (example.ok()) {\n    if (single", "  {\n    if (single")
M("E07", H, "  example_iterator_status_->SetStatus(example.status());\n", "")
M("E07", H, "  if (status.code() != absl::StatusCode::kOk &&\n      status.code() != absl::StatusCode::kOutOfRange) {", "  if (status.code() != absl::StatusCode::kOk) {")
M("E07", H, "  if (status.code() != absl::StatusCode::kOk &&\n      status.code() != absl::StatusCode::kOutOfRange) {", "  {")
M("E07", H, "  if (status.code() != absl::StatusCode::kOk &&\n      status.code() != absl::StatusCode::kOutOfRange) {", "  if (status.code() != absl::StatusCode::kOk &&\n      status.code() != absl::StatusCode::kCancelled &&\n      status.code() != absl::StatusCode::kOutOfRange) {")
M("E07", H, "  if (collect_stats_) {\n    opstats_logger_->Upd", "  {\n    opstats_logger_->Upd")
M("E07", H, "collection_uri_, example_count_,\n                                        example_size_bytes_);", "collection_uri_, *total_example_count_,\n                                        example_size_bytes_);")
M("E07", H, "    if (factory->CanHandle(selector)) {\n", "    if (factory != nullptr) {\n")
M("E07", H, "    if (factory->CanHandle(selector)) {\n      return factory;\n    }\n  }\n  return nullptr;", "    if (factory->CanHandle(selector)) {\n      last = factory;\n    }\n  }\n  return last;", "  for (ExampleIteratorFactory* factory : example_iterator_factories) {", "  ExampleIteratorFactory* last = nullptr;\n  for (ExampleIteratorFactory* factory : example_iterator_factories) {")
M("E07", H, "            example_iterator_status->SetStatus(example_iterator.status());\n", "")
M("E07", H, "              selector.collection_uri(),\n              /*collect", "              std::string(),\n              /*collect")
M("E07", H, "              example_iterator_factory->ShouldCollectStats());", "              true);")
M("E07", H, "            single_query_recorder =\n                example_iterator_query_recorder->RecordQuery(selector);", "            example_iterator_query_recorder->RecordQuery(selector);")
M("E07", H, "            single_query_recorder =\n                example_iterator_query_recorder->RecordQuery(selector);", "            single_query_recorder =\n                example_iterator_query_recorder->RecordQuery(ExampleSelector());")
M("E07", H, "              FindExampleIteratorFactory(selector, example_iterator_factories);", "              example_iterator_factories.front();")
M("E07", H, "  (*inputs)[dataset_token_tensor_name] = host_registration.token().ToString();\n", "")
M("E07", H, "  inputs->emplace_back(token_pair);\n", "")
M("E07", Q, "  example_count_++;", "  example_count_ = 1;")
M("E07", Q, "  example_count_ = 0;\n", "")
M("E07", Q, "  recorders_.clear();\n", "")
M("E07", Q, "  query.set_example_count(example_count_);\n", "")
M("E07", Q, "  *query.mutable_criteria() = selector_.criteria();\n", "")
M("E07", Q, "  for (const auto& recorder : recorders_) {\n", "  for (const auto& recorder : recorders_) {\n    if (&recorder == &recorders_.front()) continue;\n")
M("E07", Q, "    *single_example_iterator_query_list->Add() =\n        recorder->FinishRecordingAndGet();", "    *single_example_iterator_query_list->Add() =\n        recorders_.front()->FinishRecordingAndGet();")
M("E07", Q, "  *queries.mutable_selector_context() = selector_context_;\n", "")
M("E07", X, "          example_iterator_query_recorder_->RecordQuery(selector);", "          example_iterator_query_recorder_->RecordQuery(example_query_spec.example_queries(0).example_selector());")
M("E07", X, "&example_iterator_status, selector.collection_uri(),", "&example_iterator_status, \"\",")
N("E07", H, "  absl::StatusCode error_code = example.status().code();\n", "", "  if (error_code == absl::StatusCode::kOutOfRange) {", "  if (absl::IsOutOfRange(example.status())) {")
N("E07", H, "  if (example.ok()) {\n    if (single_query_recorder_) {", "  if (!example.ok()) {\n    return example;\n  }\n  {\n    if (single_query_recorder_ != nullptr) {")
N("E07", H, "      *total_example_count_ += 1;\n", "      (*total_example_count_)++;\n")
N("E07", H, "      *total_example_count_ += 1;\n      *total_example_size_bytes_ += example->size();\n      example_count_ += 1;\n      example_size_bytes_ += example->size();", "      const int64_t size = example->size();\n      total_example_count_->fetch_add(1);\n      *total_example_size_bytes_ += size;\n      ++example_count_;\n      example_size_bytes_ += size;")
N("E07", H, "  if (status.code() != absl::StatusCode::kOk &&\n      status.code() != absl::StatusCode::kOutOfRange) {\n    status_ = status;\n  }", "  if (status.ok() || absl::IsOutOfRange(status)) {\n    return;\n  }\n  status_ = std::move(status);")
N("E07", H, "  for (ExampleIteratorFactory* factory : example_iterator_factories) {\n    if (factory->CanHandle(selector)) {\n      return factory;\n    }\n  }\n  return nullptr;", "  for (size_t i = 0; i < example_iterator_factories.size(); ++i) {\n    if (example_iterator_factories[i]->CanHandle(selector)) {\n      return example_iterator_factories[i];\n    }\n  }\n  return nullptr;")
N("E07", H, "  for (ExampleIteratorFactory* factory : example_iterator_factories) {\n    if (factory->CanHandle(selector)) {\n      return factory;\n    }\n  }\n  return nullptr;", "  auto it = std::find_if(example_iterator_factories.begin(), example_iterator_factories.end(), [&](ExampleIteratorFactory* f) { return f->CanHandle(selector); });\n  return it == example_iterator_factories.end() ? nullptr : *it;")
N("E07", H, "  for (ExampleIteratorFactory* factory : example_iterator_factories) {\n    if (factory->CanHandle(selector)) {\n      return factory;\n    }\n  }\n  return nullptr;", "  ExampleIteratorFactory* found = nullptr;\n  for (ExampleIteratorFactory* factory : example_iterator_factories) {\n    if (factory->CanHandle(selector)) {\n      found = factory;\n      break;\n    }\n  }\n  return found;")
N("E07", H, "          SingleExampleIteratorQueryRecorder* single_query_recorder = nullptr;\n          if (example_iterator_query_recorder) {\n            single_query_recorder =\n                example_iterator_query_recorder->RecordQuery(selector);\n          }\n", "          SingleExampleIteratorQueryRecorder* single_query_recorder = example_iterator_query_recorder ? example_iterator_query_recorder->RecordQuery(selector) : nullptr;\n")
N("E07", H, "  std::pair<std::string, tensorflow::Tensor> token_pair(\n      dataset_token_tensor_name, token_scalar);\n  inputs->emplace_back(token_pair);", "  inputs->emplace_back(dataset_token_tensor_name, std::move(token_scalar));")
N("E07", H, "  (*inputs)[dataset_token_tensor_name] = host_registration.token().ToString();\n", "  inputs->insert_or_assign(dataset_token_tensor_name, host_registration.token().ToString());\n")
N("E07", Q, "  example_count_++;", "  example_count_ += 1;")
N("E07", Q, "  query.set_example_count(example_count_);\n", "  query.set_example_count(std::exchange(example_count_, 0));\n", "  example_count_ = 0;\n", "")
N("E07", Q, "  auto recorder =\n      std::make_unique<SingleExampleIteratorQueryRecorderImpl>(selector);\n  SingleExampleIteratorQueryRecorder* raw_pointer = recorder.get();\n  recorders_.push_back(std::move(recorder));\n  return raw_pointer;", "  recorders_.push_back(\n      std::make_unique<SingleExampleIteratorQueryRecorderImpl>(selector));\n  return recorders_.back().get();")
N("E07", Q, "  auto* single_example_iterator_query_list = queries.mutable_query();\n", "", "    *single_example_iterator_query_list->Add() =\n        recorder->FinishRecordingAndGet();", "    *queries.add_query() = recorder->FinishRecordingAndGet();")
N("E07", Q, "  for (const auto& recorder : recorders_) {\n    *single_example_iterator_query_list->Add() =\n        recorder->FinishRecordingAndGet();\n  }\n  recorders_.clear();\n", "  for (size_t i = 0; i < recorders_.size(); ++i) {\n    *single_example_iterator_query_list->Add() =\n        recorders_[i]->FinishRecordingAndGet();\n  }\n  recorders_ = {};\n")
N("E07", Q, "  *query.mutable_criteria() = selector_.criteria();\n", "  query.mutable_criteria()->CopyFrom(selector_.criteria());\n")
for k, K in (("int32", "INT32"), ("int64", "INT64"), ("bool", "BOOL"), ("float", "FLOAT"), ("double", "DOUBLE"), ("string", "STRING"), ("bytes", "BYTES")):
    M("E08", X, "        int64_t size = values.%s_values().value_size();" % k, "        int64_t size = values.%s_values().value_size();" % ("string" if k != "string" else "int32"))
    M("E08", X, "output_vector_spec, ExampleQuerySpec::OutputVectorSpec::%s));\n        int64" % K, "output_vector_spec, output_vector_spec.data_type()));\n        int64")
M("E08", X, "        for (const auto& value : values.bytes_values().value()) {", "        for (const auto& value : values.string_values().value()) {")
M("E08", X, "OutputVectorSpec::STRING));\n        FCP_ASSIGN", "OutputVectorSpec::BYTES));\n        FCP_ASSIGN")
M("E08", X, "            tensor, ConvertNumericTensor<float>(\n                        tensorflow_federated::aggregation::DT_FLOAT,", "            tensor, ConvertNumericTensor<float>(\n                        tensorflow_federated::aggregation::DT_DOUBLE,")
M("E08", X, "                        values.double_values().value()));", "                        values.float_values().value()));")
M("E08", X, ("        example_query_spec.example_queries()[i];", 0), "        example_query_spec.example_queries()[0];")
M("E08", X, ("        example_query_spec.example_queries()[i];", 1), "        example_query_spec.example_queries()[example_query_results.size() - 1 - i];")
M("E08", X, "  return slice_writer.Finish();", "  (void)slice_writer.Finish();\n  return absl::OkStatus();")
M("E08", X, "      FCP_RETURN_IF_ERROR(checkpoint_builder.Add(output_name, tensor));", "      (void)checkpoint_builder.Add(output_name, tensor);")
M("E08", X, "        return absl::UnimplementedError(\"Bool values currently not supported.\");", "        continue;")
M("E08", X, ("        return absl::DataLossError(\n            \"Expected value not found in the example query result\");", 1), "        continue;")
M("E08", X, "  if (!status.ok()) {\n    return PlanResult(PlanOutcome::kExampleIteratorError, status);\n  }\n", "")
M("E08", X, "      } else {\n        status = checkpoint.status();\n      }", "      }")
M("E08", X, "      if (checkpoint.ok()) {\n        plan_result.federated_compute_checkpoint = std::move(*checkpoint);\n      } else {\n        status = checkpoint.status();\n      }", "      status = checkpoint.status();")
M("E08", X, "    if (!example_query_result.ParseFromString(*example_query_result_str)) {\n      return PlanResult(\n          PlanOutcome::kExampleIteratorError,\n          absl::DataLossError(\"Unexpected example query result format\"));\n    }", "    example_query_result.ParseFromString(*example_query_result_str);")
M("E08", X, "    example_query_results.push_back(std::move(example_query_result));", "    if (total_example_count > 0) example_query_results.push_back(std::move(example_query_result));")
M("E08", X, "                        example_query_result_str.status());", "                        absl::OkStatus());")
M("E08", X, "    specs.emplace_back(output_vector_spec.vector_name(),", "    specs.emplace_back(output_name,")
N("E08", X, "        FCP_RETURN_IF_ERROR(WriteSlice(slice_writer, output_name, size, data));\n      } else if (values.has_int64", "        absl::Status written = WriteSlice(slice_writer, output_name, size, data);\n        if (!written.ok()) return written;\n      } else if (values.has_int64")
N("E08", X, "  return slice_writer.Finish();", "  FCP_RETURN_IF_ERROR(slice_writer.Finish());\n  return absl::OkStatus();")
N("E08", X, "  return slice_writer.Finish();", "  absl::Status finished = slice_writer.Finish();\n  return finished;")
N("E08", X, ("      std::string output_name = std::get<0>(vector_tuple);\n      ExampleQuerySpec::OutputVectorSpec output_vector_spec =\n          std::get<1>(vector_tuple);\n", 0), "      const auto& [output_name, output_vector_spec] = vector_tuple;\n")
N("E08", X, "  if (output_vector_spec.data_type() != expected_data_type) {\n    return absl::FailedPreconditionError(\n        \"Unexpected data type in the example query\");\n  }\n  return absl::OkStatus();", "  if (output_vector_spec.data_type() == expected_data_type) {\n    return absl::OkStatus();\n  }\n  return absl::FailedPreconditionError(\n      \"Unexpected data type in the example query\");")
N("E08", X, "        std::vector<tf::tstring> tf_string_vector;\n        for (const auto& value : values.string_values().value()) {\n          tf_string_vector.emplace_back(value);\n        }", "        std::vector<tf::tstring> tf_string_vector(values.string_values().value().begin(), values.string_values().value().end());")
N("E08", X, "  if (!status.ok()) {\n    return PlanResult(PlanOutcome::kExampleIteratorError, status);\n  }\n", "  if (absl::Status result = status; !result.ok()) {\n    return PlanResult(PlanOutcome::kExampleIteratorError, result);\n  }\n")
N("E08", X, "      if (checkpoint.ok()) {\n        plan_result.federated_compute_checkpoint = std::move(*checkpoint);\n      } else {\n        status = checkpoint.status();\n      }", "      if (!checkpoint.ok()) {\n        return PlanResult(PlanOutcome::kExampleIteratorError, checkpoint.status());\n      }\n      plan_result.federated_compute_checkpoint = *std::move(checkpoint);")
N("E08", X, ("  for (int i = 0; i < example_query_results.size(); ++i) {\n    const ExampleQueryResult& example_query_result = example_query_results[i];\n    const ExampleQuerySpec::ExampleQuery& example_query =\n        example_query_spec.example_queries()[i];", 1), "  int i = 0;\n  for (const ExampleQueryResult& example_query_result : example_query_results) {\n    const ExampleQuerySpec::ExampleQuery& example_query =\n        example_query_spec.example_queries(i++);")

CM = "fcp/client/engine/common.cc"
SP = "fcp/client/engine/simple_plan_engine.cc"
TP = "fcp/client/engine/tflite_plan_engine.cc"
TW = "fcp/client/engine/tf_wrapper.cc"
LW = "fcp/client/engine/tflite_wrapper.cc"
PH = "fcp/client/engine/plan_engine_helpers.cc"
M("E09", CM, "      return PhaseOutcome::INTERRUPTED;", "      return PhaseOutcome::ERROR;")
M("E09", CM, "    case PlanOutcome::kInterrupted:\n      return absl::CancelledError(\"\");", "    case PlanOutcome::kInterrupted:\n      return absl::AbortedError(\"\");")
M("E09", CM, "    case PlanOutcome::kExampleIteratorError:\n      return absl::InternalError(\"\");", "      return absl::InternalError(\"\");\n    case PlanOutcome::kExampleIteratorError:\n      return absl::OkStatus();")
M("E09", CM, "  if (expected_input_tensor_names_set.size() !=\n      tensorflow_spec.input_tensor_specs_size()) {", "  if (expected_input_tensor_names_set.size() <\n      tensorflow_spec.input_tensor_specs_size()) {")
M("E09", CM, "    if (!expected_output_tensor_names_set.count(it.name())) {", "    if (!expected_output_tensor_names_set.count(it.name()) && !it.name().empty()) {")
M("E09", PH, "    case absl::StatusCode::kOk:\n    case absl::StatusCode::kOutOfRange:\n      // Either", "    case absl::StatusCode::kOk:\n    case absl::StatusCode::kOutOfRange:\n    case absl::StatusCode::kUnavailable:\n      // Either")
M("E09", PH, "      return PlanResult(PlanOutcome::kInterrupted, example_iterator_status);", "      return PlanResult(PlanOutcome::kExampleIteratorError, example_iterator_status);")
M("E09", PH, "      return PlanResult(PlanOutcome::kExampleIteratorError,\n                        example_iterator_status);", "      return PlanResult(PlanOutcome::kExampleIteratorError,\n                        computation_error_status);")
M("E09", SP, "  FCP_CHECK(tf_wrapper->CloseAndRelease().ok());\n", "")
M("E09", SP, "    case absl::StatusCode::kCancelled:\n      return PlanResult(PlanOutcome::kInterrupted, tf_result.status());\n    case", "    case absl::StatusCode::kCancelled:\n    case")
M("E09", SP, "    case absl::StatusCode::kCancelled:\n    case absl::StatusCode::kInvalidArgument:\n      return status;\n", "    case absl::StatusCode::kCancelled:\n      return status;\n    case absl::StatusCode::kInvalidArgument:\n")
M("E09", SP, "  if (!validity_checks.ok()) {\n    FCP_LOG(ERROR) << validity_checks.message();\n    return PlanResult(PlanOutcome::kInvalidArgument,\n                      std::move(validity_checks));\n  }\n", "")
M("E09", SP, "      plan_result.output_names = output_names;\n", "")
M("E09", SP, "      inputs->push_back({name, std::move(input_tensor)});", "      if (inputs->size() < 8) inputs->push_back({name, std::move(input_tensor)});")
M("E09", SP, "      tensorflow_spec.dataset_token_tensor_name(), total_example_count,", "      \"dataset\", total_example_count,")
M("E09", TP, "      if (!input_tensor.FromProto(tensor_proto)) {", "      input_tensor.FromProto(tensor_proto); if (name.empty()) {")
M("E09", TP, "      return PlanResult(PlanOutcome::kInterrupted, std::move(output.status()));", "      return PlanResult(PlanOutcome::kTensorflowError, std::move(output.status()));")
M("E09", TW, "  FCP_CHECK(!session_closed_) << \"Run() called after session close!\";\n", "")
M("E09", TW, "    session_->Close().IgnoreError();\n    session_closed_ = true;\n", "    session_->Close().IgnoreError();\n")
M("E09", TW, "    session_->Close().IgnoreError();\n    session_closed_ = true;\n", "    session_->Close().IgnoreError();\n    session_closed_ = true;\n    session_.reset();\n")
M("E09", TW, "    if (!status.ok()) {\n      return ToFcpStatus(status, \"Error in Session::Run()\");\n    }\n", "    (void)status;\n")
M("E09", TW, "    return absl::OutOfRangeError(\"\");", "    return absl::OkStatus();")
M("E09", TW, "  status = session->Create(std::move(graph_def));\n  if (!status.ok()) {\n    return ToFcpStatus(status, \"Error in Session::Create()\");\n  }\n", "  session->Create(std::move(graph_def)).IgnoreError();\n")
M("E09", TW, "    session_closed_ = true;\n  }\n", "  }\n")
M("E09", LW, "  delegate_raw_ptr_holder.store(nullptr);\n  if (!result.ok()) {\n    return result;\n  }\n", "  if (!result.ok()) {\n    return result;\n  }\n  delegate_raw_ptr_holder.store(nullptr);\n")
M("E09", LW, "        if (local_delegate_raw_ptr != nullptr) {\n          local_delegate_raw_ptr->Cancel();\n        }", "        local_delegate_raw_ptr->Cancel();")
M("E09", LW, "  std::atomic<tflite::FlexDelegate*> delegate_raw_ptr = nullptr;", "  std::atomic<tflite::FlexDelegate*> delegate_raw_ptr;")
M("E09", LW, "  if (!result.ok()) {\n    return result;\n  }\n", "")
M("E09", LW, "        return absl::CancelledError(\"Training is cancelled.\");", "        return absl::InvalidArgumentError(\"Training is cancelled.\");")
M("E09", LW, "  if (interpreter->AllocateTensors() != kTfLiteOk) {", "  if (interpreter->AllocateTensors() == kTfLiteError) {")
M("E09", LW, "  if (interpreter.outputs().size() != output_names.size()) {", "  if (interpreter.outputs().size() < output_names.size()) {")
M("E09", LW, "    if (inputs.find(key) == inputs.end()) {\n      return absl::InvalidArgumentError(\"Unexpected input tensor.\");\n    }", "    if (inputs.find(key) == inputs.end()) {\n      continue;\n    }")
N("E09", CM, "  switch (plan_outcome) {\n    case PlanOutcome::kSuccess:\n      return PhaseOutcome::COMPLETED;\n    case PlanOutcome::kInterrupted:\n      return PhaseOutcome::INTERRUPTED;", "  if (plan_outcome == PlanOutcome::kSuccess) return PhaseOutcome::COMPLETED;\n  switch (plan_outcome) {\n    case PlanOutcome::kSuccess:\n      return PhaseOutcome::COMPLETED;\n    case PlanOutcome::kInterrupted:\n      return PhaseOutcome::INTERRUPTED;")
N("E09", SP, "  FCP_ASSIGN_OR_RETURN(\n      auto result,\n      RunTensorFlowInternal(tf_wrapper, *inputs, output_names, target_names));\n  return result;", "  return RunTensorFlowInternal(tf_wrapper, *inputs, output_names, target_names);")
N("E09", SP, "      inputs->push_back({name, std::move(input_tensor)});", "      inputs->emplace_back(name, std::move(input_tensor));")
N("E09", PH, "  switch (example_iterator_status.code()) {\n    case absl::StatusCode::kOk:\n    case absl::StatusCode::kOutOfRange:", "  if (example_iterator_status.ok()) {\n    return PlanResult(PlanOutcome::kTensorflowError, computation_error_status);\n  }\n  switch (example_iterator_status.code()) {\n    case absl::StatusCode::kOutOfRange:")
N("E09", TW, "  if (!session_closed_) {\n    FCP_ENGINE_RETURN_IF_ERROR(\n        ToFcpStatus(session_->Close(), \"Could not close TF session\"));\n    session_closed_ = true;\n  }", "  if (!session_closed_) {\n    absl::Status closed = session_->Close();\n    if (!closed.ok()) return ToFcpStatus(closed, \"Could not close TF session\");\n    session_closed_ = true;\n  }")
N("E09", TW, "  if (session_) {\n    session_.reset();\n  }", "  session_ = nullptr;")
N("E09", LW, "  std::atomic<tflite::FlexDelegate*> delegate_raw_ptr = nullptr;", "  std::atomic<tflite::FlexDelegate*> delegate_raw_ptr{nullptr};")
N("E09", LW, "        auto local_delegate_raw_ptr = delegate_raw_ptr.load();\n        if (local_delegate_raw_ptr != nullptr) {\n          local_delegate_raw_ptr->Cancel();\n        }", "        tflite::FlexDelegate* running = delegate_raw_ptr.load();\n        if (running == nullptr) return;\n        running->Cancel();")
