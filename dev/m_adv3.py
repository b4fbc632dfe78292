C = "fcp/client/"
IM = C + "http/in_memory_request_response.cc"
HU = C + "http/http_client_util.cc"
PR = C + "http/protocol_request_helper.cc"
FC = C + "cache/file_backed_resource_cache.cc"
TF = C + "cache/temp_files.cc"
OL = C + "opstats/opstats_logger_impl.cc"
OD = C + "opstats/pds_backed_opstats_db.cc"
OU = C + "opstats/opstats_utils.cc"
OE = C + "opstats/opstats_example_store.cc"
DI = "fcp/dictionary/dictionary.cc"
QR = C + "example_iterator_query_recorder.cc"
PH = C + "engine/plan_engine_helpers.cc"
# D03
M("D03", HU, "absl::StrFormat(\"%%%02X\", c)", "absl::StrFormat(\"%%%X\", c)")
M("D03", HU, "           c == '~';\n  });\n}\n\nabsl::StatusOr<std::string> EncodeUriMultiple", "           c == '~' || c == '%';\n  });\n}\n\nabsl::StatusOr<std::string> EncodeUriMultiple")
M("D03", HU, "           c == '~' || c == '/';", "           c == '~' || c == '/' || c == '?';")
M("D03", HU, "return absl::ascii_isalnum(c) || c == '-' || c == '_' || c == '.' ||\n           c == '~';", "return absl::ascii_isgraph(c) && c != '/' && c != '?' && c != '#';")
M("D03", HU, "    if (!absl::ascii_isascii(c)) {", "    if (c == 0x7f) continue;\n    if (!absl::ascii_isascii(c)) {")
M("D03", HU, "  if (!uri_suffix.empty() && uri_suffix[0] != '/') {", "  if (uri_suffix.size() > 1 && uri_suffix[0] != '/') {")
M("D03", HU, "absl::StripSuffix(base_uri, \"/\"), \"/\",", "absl::StripSuffix(base_uri, \"/\"), absl::StartsWith(uri_suffix, \"/v\") ? \"\" : \"/\",")
M("D03", PR, "  FCP_ASSIGN_OR_RETURN(std::string encoded_operation_name,\n                       EncodeUriMultiplePathSegments(operation_name));\n  return absl::Substitute(kCancelOperationUriSuffix, encoded_operation_name);", "  FCP_ASSIGN_OR_RETURN(std::string encoded_operation_name,\n                       EncodeUriMultiplePathSegments(operation_name));\n  if (encoded_operation_name.size() == operation_name.size() + 2) encoded_operation_name = std::string(operation_name);\n  return absl::Substitute(kCancelOperationUriSuffix, encoded_operation_name);")
M("D03", PR, "  return absl::Substitute(kGetOperationUriSuffix, encoded_operation_name);", "  return absl::Substitute(kGetOperationUriSuffix, operation_name);")
# D04
M("D04", IM, "    handles_and_callbacks_ptrs.push_back({handle.get(), callback.get()});\n", "    if (handle == nullptr) continue;\n    handles_and_callbacks_ptrs.push_back({handle.get(), callback.get()});\n")
M("D04", IM, "  FCP_RETURN_IF_ERROR(result);\n\n  // Gather", "  if (!result.ok() && handles_and_callbacks.size() == 1) return result;\n\n  // Gather")
M("D04", IM, "  FCP_RETURN_IF_ERROR(result);\n\n  // Gather", "  // Gather")
M("D04", IM, "          handle->Cancel();\n", "          handle->Cancel();\n          break;\n")
M("D04", IM, "int64_t response_index = http_requests.end() - http_requests.begin() - 1;", "int64_t response_index = response_accessors.size();")
M("D04", IM, "                              encoded_with_gzip, response_accessor.max_age,\n", "                              false, response_accessor.max_age,\n")
M("D04", IM, "          response = decoded_response_body.status();\n", "          response->body = response_body_temp;\n")
M("D04", IM, "*bytes_sent_acc += sent_received_bytes.sent_bytes;", "*bytes_sent_acc += sent_received_bytes.received_bytes;")
M("D04", IM, "*bytes_received_acc += sent_received_bytes.received_bytes;", "*bytes_received_acc = sent_received_bytes.received_bytes;")
M("D04", IM, "absl::EndsWithIgnoreCase(\n          response->content_type, kClientDecodedGzipSuffix)", "absl::StrContains(\n          response->content_encoding, kClientDecodedGzipSuffix)")
M("D04", IM, "    if (bytes_sent_acc != nullptr) {\n", "    if (bytes_sent_acc != nullptr && bytes_sent_acc != bytes_received_acc && result.ok()) {\n")
M("D04", IM, "absl::EndsWithIgnoreCase(\n          response->content_type, kClientDecodedGzipSuffix);", "absl::EndsWith(\n          response->content_type, kClientDecodedGzipSuffix) && response->body.size() > 20;")
# D05
M("D05", PR, "  } else if (polling_interval > kMaxLroPollingInterval) {\n    return kMaxLroPollingInterval;\n", "")
M("D05", PR, "  if (polling_interval < absl::ZeroDuration()) {\n    return kDefaultLroPollingInterval;\n  } else if (pol", "  if (pol")
M("D05", PR, "    clock_.Sleep(GetPollingInterval(response_operation_proto));", "    if (response_operation_proto.has_metadata()) clock_.Sleep(GetPollingInterval(response_operation_proto));")
M("D05", PR, "    clock_.Sleep(GetPollingInterval(response_operation_proto));", "    clock_.Sleep(GetPollingInterval(response_operation_proto) * 2);")
M("D05", PR, "    if (response_operation_proto.done()) {", "    if (response_operation_proto.done() || response_operation_proto.has_response()) {")
M("D05", PR, "    FCP_ASSIGN_OR_RETURN(response_operation_proto,\n                         ParseOperationProtoFromHttpResponse(http_response));", "    auto parsed = ParseOperationProtoFromHttpResponse(http_response);\n    if (parsed.ok()) response_operation_proto = *parsed;")
M("D05", PR, "  if (!absl::StartsWith(operation.name(), \"operations/\")) {", "  if (!absl::StrContains(operation.name(), \"operations\")) {")
# E01
M("E01", FC, "  if (resource.size() > max_cache_size_bytes_ / 2) {", "  if (resource.size() / 2 > max_cache_size_bytes_) {")
M("E01", FC, "  absl::Time expiry = now + max_age;\n  CachedResource", "  absl::Time expiry = now + max_age / 2;\n  CachedResource")
M("E01", FC, "  *cached_resource.mutable_last_accessed_time() =\n      TimeUtil::ConvertAbslToProtoTimestamp(now);\n  if (max_age.has_value()) {", "  if (max_age.has_value()) {\n    *cached_resource.mutable_last_accessed_time() =\n      TimeUtil::ConvertAbslToProtoTimestamp(now);")
M("E01", FC, "return first.second < second.second;", "return second.second < first.second;")
M("E01", FC, "return first.second < second.second;", "return first.first < second.first;")
M("E01", FC, "    if (expiry < now || !cached_resource_exists) {", "    if (expiry < now && !cached_resource_exists) {")
M("E01", FC, "      cache_dir_size -= file_size;\n      if (cache_dir_size < max_allowed_size_bytes) break;", "      cache_dir_size -= file_size;\n      if (cache_dir_size < max_cache_size_bytes_) break;")
M("E01", FC, "  max_allowed_size_bytes -= reserved_space_bytes.value_or(0);\n", "")
M("E01", FC, "    } else {\n      cache_dir_size += size;\n    }", "    } else {\n      cache_dir_size = std::max<uintmax_t>(cache_dir_size, size);\n    }")
M("E01", FC, "  google::protobuf::Any metadata = cached_resource.metadata();", "  google::protobuf::Any metadata = manifest.cache().begin()->second.metadata();")
M("E01", FC, "  FCP_RETURN_IF_ERROR(\n      WriteInternal(std::make_unique<CacheManifest>(std::move(manifest))));\n\n  // Write file if", "  WriteInternal(std::make_unique<CacheManifest>(std::move(manifest))).IgnoreError();\n\n  // Write file if")
M("E01", FC, "  for (const auto& file : cache_dir_files) {", "  for (const auto& file : cache_dir_files) {\n    if (cache_ids_to_delete.empty()) break;")
# E02
M("E02", TF, "O_CREAT | O_EXCL | O_RDWR", "O_CREAT | O_TRUNC | O_RDWR")
M("E02", TF, "    if (!std::filesystem::remove(de.path(), error)) {", "    if (de.is_regular_file() && de.file_size() == 0) continue;\n    if (!std::filesystem::remove(de.path(), error)) {")
M("E02", TF, "    return cleanup_status;\n", "")
M("E02", TF, "  if (!root_path.is_absolute()) {", "  if (root_path.empty()) {")
M("E02", TF, "    candidate_path = temp_files_dir_ /\n", "    candidate_path = temp_files_dir_.parent_path() /\n")
M("E02", TF, "           errno == EEXIST);", "           errno != EEXIST);")
M("E02", TF, "      if (status.ok()) {\n        status = absl::InternalError", "      if (error.value() == EACCES) {\n        status = absl::InternalError")
M("E02", TF, "  } while ((fd = open(", "  } while (!std::filesystem::exists(candidate_path) && (fd = open(")
# E03
M("E03", OL, "  if (!collection_first_access_time_map_.contains(collection_uri)) {\n    collection_first", "  {\n    collection_first")
M("E03", OL, "    accumulated_network_stats_ = network_stats;\n", "    accumulated_network_stats_ = incremental_network_stats;\n")
M("E03", OL, "  retry_window.clear_retry_token();\n", "")
M("E03", OL, "                        if (data.opstats_size() == 0) {\n                          *data.add_opstats() = copy;\n                        } else {\n                          *data.mutable_opstats(data.opstats_size() - 1) = copy;", "                        if (data.opstats_size() == 0) {\n                          *data.add_opstats() = copy;\n                        } else {\n                          *data.mutable_opstats(0) = copy;")
M("E03", OL, "  if (status.ok()) {\n    already_committed_ = true;", "  {\n    already_committed_ = true;")
M("E03", OL, "    if (current_phase_stats_.error_message().empty()) {\n      current", "    if (stats_.error_message().empty()) {\n      current")
M("E03", OL, "    *stats_.add_phase_stats() = current_phase_stats_;\n    current_phase_stats_ = OperationalStats::PhaseStats();\n  }\n  current_phase_stats_.set_phase(phase);", "    *stats_.add_phase_stats() = current_phase_stats_;\n  }\n  current_phase_stats_.set_phase(phase);")
M("E03", OL, "    *copy.add_phase_stats() = current_phase_stats_;\n", "    *stats_.add_phase_stats() = current_phase_stats_;\n")
M("E03", OL, "  dataset_stats->set_num_examples_read(dataset_stats->num_examples_read() +\n                                       additional_example_count);", "  dataset_stats->set_num_examples_read(std::max<int64_t>(dataset_stats->num_examples_read(),\n                                       additional_example_count));")
M("E03", OL, "    AddNewEventToCurrentPhaseStats(event);\n    current_phase_stats_.set_task_name(task_name);", "    AddNewEventToCurrentPhaseStats(event);\n    stats_.set_task_name(task_name);")
# E04
M("E04", OD, "  if (flock(fd, LOCK_EX | LOCK_NB) < 0) {", "  if (flock(fd, LOCK_SH | LOCK_NB) < 0) {")
M("E04", OD, "    files_in_use->erase(db_path);\n    close(fd);", "    close(fd);")
M("E04", OD, "  if (!file_size.ok()) {\n    lock_releaser();", "  if (!file_size.ok()) {")
M("E04", OD, "  bool should_initiate = file_size.value() == 0;", "  bool should_initiate = file_size.value() < 64;")
M("E04", OD, "return GetLastUpdateTime(data) < earliest_accepted_time;", "return GetLastUpdateTime(data) > earliest_accepted_time;")
M("E04", OD, "    while (current_size > max_size_bytes && it != op_stats.end()) {", "    while (current_size > max_size_bytes / 2 && it != op_stats.end()) {")
M("E04", OD, "      current_size -= it->ByteSizeLong();\n", "      current_size -= op_stats.begin()->ByteSizeLong();\n")
M("E04", OD, "    *data.mutable_earliest_trustworthy_time() =\n        GetEarliestTrustWorthyTime(op_stats);\n    log", "    if (op_stats.empty()) *data.mutable_earliest_trustworthy_time() =\n        GetEarliestTrustWorthyTime(op_stats);\n    log")
M("E04", OD, "  if (num_entries_after_purging < original_num_entries) {", "  if (num_entries_after_purging == 0) {")
M("E04", OD, "  for (auto it = operational_stats.phase_stats().rbegin();\n       it != operational_stats.phase_stats().rend(); ++it) {\n    if (!it->events().empty()) {\n      return absl::FromUnixSeconds(\n          TimeUtil::TimestampToSeconds(it->events().rbegin()", "  for (auto it = operational_stats.phase_stats().rbegin();\n       it != operational_stats.phase_stats().rend(); ++it) {\n    if (!it->events().empty()) {\n      return absl::FromUnixSeconds(\n          TimeUtil::TimestampToSeconds(it->events().begin()")
M("E04", OD, "    op_stats.erase(op_stats.begin(), it);\n", "    op_stats.erase(it, op_stats.end());\n")
M("E04", OD, "    data = std::move(data_or).value();\n    RemoveOutdatedData(data, ttl_);\n  }\n  func(data);", "    data = std::move(data_or).value();\n  }\n  func(data);\n  RemoveOutdatedData(data, ttl_ * 2);")
# E05
M("E05", OU, "    if (upload_started && !upload_aborted) {\n      return", "    if (upload_started) {\n      return")
M("E05", OU, "      if (event.event_type() ==\n          OperationalStats::Event::EVENT_KIND_RESULT_UPLOAD_SERVER_ABORTED) {", "      if (upload_started && event.event_type() ==\n          OperationalStats::Event::EVENT_KIND_RESULT_UPLOAD_CLIENT_INTERRUPTED) {")
M("E05", OU, "        pending_stats.push_back(latest_task_assignment_stats);\n        pending_stats.push_back(phase_stat);", "        pending_stats.push_back(phase_stat);")
M("E05", OU, "        if (!pending_stats.empty()) {\n          stats.push_back(pending_stats);\n        }\n        pending_stats = PerTaskStats(", "        pending_stats = PerTaskStats(")
M("E05", OU, "    for (const auto& event : phase_stats.events()) {\n      *legacy", "    for (const auto& event : phase_stats.events()) {\n      if (legacy_stats.events_size() > 0 && legacy_stats.events(legacy_stats.events_size() - 1).event_type() == event.event_type()) continue;\n      *legacy")
M("E05", OU, "    bytes_uploaded += phase_stats.bytes_uploaded();", "    bytes_uploaded = phase_stats.bytes_uploaded();")
M("E05", OU, "return RE2::FullMatch(opstats_entry.task_name(), compiled_pattern);", "return RE2::PartialMatch(opstats_entry.task_name(), compiled_pattern);")
M("E05", OU, "return opstats_entry.task_name() == task_name;", "return absl::StartsWith(opstats_entry.task_name(), task_name);")
M("E05", OU, "        last_update_time <= upper_bound_time) {", "        last_update_time < upper_bound_time) {")
M("E05", OE, "    return CreateExample(data_[next_++], earliest", "    return CreateExample(data_[++next_ - 1 > 0 ? next_ - 1 : next_ - 1 + (data_.size() > 5)], earliest")
M("E05", OE, "    num_bytes_read.push_back(stats.second.num_bytes_read());", "    num_bytes_read.push_back(stats.second.num_examples_read());")
M("E05", OE, "    if (lower_bound_time > upper_bound_time) {", "    if (criteria.has_start_time() && !criteria.has_end_time() && lower_bound_time > upper_bound_time) {")
# E06
M("E06", DI, "  if (id < 0 || id >= bimap.second.size()) {", "  if (id <= 0 || id >= bimap.second.size()) {")
M("E06", DI, "    return token_id <= max_special_id_;", "    return token_id < max_special_id_;")
M("E06", DI, "    for (int32_t id = 0; id <= max_special_id_; ++id) {", "    for (int32_t id = 1; id <= max_special_id_; ++id) {")
M("E06", DI, "  max_special_id = std::max(max_special_id, special_ids.eos());\n", "")
M("E06", DI, "      bimap->first[token] = i++;\n", "      bimap->first.emplace(token, i), i += bimap->first.size() > i;\n")
M("E06", DI, "      if (!(i == 0 || description", "      if (!(i <= 1 || description")
M("E06", DI, ".id(i) <= max_special_id) {", ".id(i) < max_special_id) {")
M("E06", DI, "    return GetSize(*bimap_) + max_special_id_ + 1;", "    return GetSize(*bimap_) + (max_special_id_ < 0 ? 0 : max_special_id_);")
# E07
M("E07", QR, "  example_count_ = 0;\n  return", "  return")
M("E07", QR, "  recorders_.clear();\n", "")
M("E07", PH, "      *total_example_count_ += 1;\n", "      if (example->size() > 0) *total_example_count_ += 1;\n")
M("E07", PH, "  if (status.code() != absl::StatusCode::kOk &&\n      status", "  if (status_.ok() && status.code() != absl::StatusCode::kOk ||\n      status")
M("E07", PH, "  if (error_code == absl::StatusCode::kOutOfRange) {\n    example_iterator_->Close();", "  if (!example.ok()) {\n    example_iterator_->Close();")
M("E07", PH, "    if (single_query_recorder_) {\n      single_query_recorder_->Increment();\n    }\n    // If", "    // If")
M("E07", PH, "    if (factory->CanHandle(selector)) {\n      return factory;", "    if (factory->CanHandle(selector) && factory->ShouldCollectStats()) {\n      return factory;")
