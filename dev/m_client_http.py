IM, UT, PH = "fcp/client/http/in_memory_request_response.cc", "fcp/client/http/http_client_util.cc", "fcp/client/http/protocol_request_helper.cc"
# D01
M("D01", IM, "  if (!absl::StartsWithIgnoreCase(uri, kHttpsScheme) &&\n      !absl::StartsWithIgnoreCase(uri, kLocalhostUri)) {", "  if (absl::StartsWithIgnoreCase(uri, \"ftp\")) {")
M("D01", IM, "!absl::StartsWithIgnoreCase(uri, kHttpsScheme) &&", "!absl::StartsWithIgnoreCase(uri, \"http\") &&")
M("D01", IM, "    extra_headers.push_back({kContentEncodingHdr, kGzipEncodingHdrValue});\n", "")
M("D01", IM, "    FCP_ASSIGN_OR_RETURN(body, CompressWithGzip(body));\n    extra_headers", "    extra_headers")
M("D01", IM, "    extra_headers.push_back({kContentLengthHdr, std::to_string(body.size())});\n", "")
M("D01", IM, '''  if (content_length_hdr.has_value()) {
    return absl::InvalidArgumentError(
        "Content-Length header should not be provided!");
  }

''', "")
M("D01", IM, "      case HttpRequest::Method::kDelete:\n        break;", "      case HttpRequest::Method::kDelete:\n      case HttpRequest::Method::kGet:\n        break;")
M("D01", IM, "bytes_left <= requested ? bytes_left : requested;", "bytes_left >= requested ? bytes_left : requested;")
M("D01", IM, "int64_t actual_read = bytes_left <= requested ? bytes_left : requested;", "int64_t actual_read = requested;")
M("D01", IM, "  cursor_ += actual_read;\n", "  cursor_ += requested;\n")
M("D01", IM, "body_.data() + cursor_, actual_read", "body_.data(), actual_read")
M("D01", IM, "  return actual_read;\n", "  return requested;\n")
M("D01", IM, "std::to_string(body.size())});", "std::to_string(body.capacity())});")
N("D01", IM, "int64_t actual_read = bytes_left <= requested ? bytes_left : requested;", "int64_t actual_read = std::min(bytes_left, requested);")
N("D01", IM, "  if (!absl::StartsWithIgnoreCase(uri, kHttpsScheme) &&\n      !absl::StartsWithIgnoreCase(uri, kLocalhostUri)) {", "  const bool allowed = absl::StartsWithIgnoreCase(uri, kHttpsScheme) ||\n                       absl::StartsWithIgnoreCase(uri, kLocalhostUri);\n  if (!allowed) {")
N("D01", IM, '''  std::optional<std::string> content_length_hdr =
      FindHeader(extra_headers, kContentLengthHdr);
  if (content_length_hdr.has_value()) {
    return absl::InvalidArgumentError(''', '''  if (FindHeader(extra_headers, kContentLengthHdr).has_value()) {
    return absl::InvalidArgumentError(''')
N("D01", IM, '''  if (!body.empty()) {
    switch (method) {
      case HttpRequest::Method::kPost:
      case HttpRequest::Method::kPatch:
      case HttpRequest::Method::kPut:
      case HttpRequest::Method::kDelete:
        break;
      default:
        return''', '''  if (body.size() > 0) {
    switch (method) {
      case HttpRequest::Method::kPost:
      case HttpRequest::Method::kPatch:
      case HttpRequest::Method::kPut:
      case HttpRequest::Method::kDelete:
        break;
      case HttpRequest::Method::kGet:
      case HttpRequest::Method::kHead:
        return''')
# D02
M("D02", UT, "if (code >= 200 && code < 300) {", "if (code >= 200 && code < 400) {")
M("D02", UT, "if (code >= 200 && code < 300) {", "if (code == 200) {")
M("D02", UT, "    case kHttpServiceUnavailable:\n      return absl::StatusCode::kUnavailable;", "    case kHttpServiceUnavailable:\n      return absl::StatusCode::kOk;")
M("D02", UT, "case static_cast<int>(absl::StatusCode::kAborted):\n      return absl::StatusCode::kAborted;", "case static_cast<int>(absl::StatusCode::kAborted):\n      return absl::StatusCode::kOutOfRange;")
M("D02", UT, "      return absl::StatusCode::kUnknown;\n  }\n}", "      return absl::StatusCode::kOk;\n  }\n}")
M("D02", IM, '''    status_ = absl::InvalidArgumentError(
        absl::StrCat("Too little response body data received (rcvd: ",
                     response_buffer_.size(),
                     ", expected: ", *expected_content_length_, ")"));
    return;
''', '''    FCP_LOG(WARNING) << "short";
''')
M("D02", IM, "response_buffer_.size() != *expected_content_length_) {", "response_buffer_.size() > *expected_content_length_) {")
M("D02", IM, "response_buffer_.size() + data.size() > *expected_content_length_) {", "data.size() > *expected_content_length_) {")
M("D02", IM, "  expected_content_length_ = content_length;\n", "")
M("D02", IM, "  FCP_RETURN_IF_ERROR(status_);\n  // If status_ is OK, then", "  // If status_ is OK, then")
M("D02", IM, "  status_ = ConvertHttpCodeToStatus(*response_code_);", "  if (status_.ok()) status_ = ConvertHttpCodeToStatus(*response_code_);")
M("D02", IM, '''      status_ = absl::InvalidArgumentError(
          absl::StrCat("Unexpected header: ", kContentEncodingHdr));
      return status_;
''', "")
M("D02", IM, "      absl::AsciiStrToLower(*transfer_encoding_header) !=\n          kIdentityEncodingHdrValue) {", "      absl::AsciiStrToLower(*transfer_encoding_header) ==\n          kIdentityEncodingHdrValue) {")
M("D02", IM, '''  if (content_length < 0) {
    status_ = absl::OutOfRangeError(absl::StrCat(
        "Invalid Content-Length response header: ", content_length));
    return status_;
  }
''', "")
M("D02", IM, "  response_buffer_.Append(data);\n", "  response_buffer_ = absl::Cord(data);\n")
N("D02", IM, '''  if (expected_content_length_.has_value() &&
      response_buffer_.size() != *expected_content_length_) {
    status_''', '''  const bool length_known = expected_content_length_.has_value();
  if (length_known && response_buffer_.size() != expected_content_length_.value()) {
    status_''')
N("D02", UT, "if (code >= 200 && code < 300) {", "if (200 <= code && code <= 299) {")
N("D02", IM, "  FCP_RETURN_IF_ERROR(status_);\n  // If status_ is OK, then", "  if (!status_.ok()) return status_;\n  // If status_ is OK, then")
N("D02", UT, '''  if (status_code == absl::StatusCode::kOk) {
    return absl::OkStatus();
  }
  std::string error_message =
      absl::StrCat("Request returned non-OK response (code: ", code, ")");
  return absl::Status(status_code, error_message);''', '''  if (status_code != absl::StatusCode::kOk) {
    return absl::Status(
        status_code,
        absl::StrCat("Request returned non-OK response (code: ", code, ")"));
  }
  return absl::OkStatus();''')
N("D02", UT, "if (code >= 200 && code < 300) {", "if (code / 100 == 2) {")
# D03
M("D03", UT, "%%%02X", "%%%X")
M("D03", UT, "c == '~' || c == '/';", "c == '~' || c == '/' || c == '?';")
M("D03", UT, '''    return absl::ascii_isalnum(c) || c == '-' || c == '_' || c == '.' ||
           c == '~';
''', '''    return absl::ascii_isalnum(c) || c == '-' || c == '_' || c == '.' ||
           c == '~' || c == '/';
''')
M("D03", UT, "      result.push_back(c);\n      continue;", "      continue;")
M("D03", UT, "  return absl::Substitute(pattern, encoded_resource_name);", "  return absl::Substitute(pattern, resource_name);")
M("D03", UT, "  if (!uri_suffix.empty() && uri_suffix[0] != '/') {", "  if (uri_suffix.empty()) {")
M("D03", UT, "    if (!absl::ascii_isascii(c)) {\n      return absl::InvalidArgumentError(absl::StrCat(\n          \"Encountered unsupported char during URI encoding: \", c));\n    }", "    if (!absl::ascii_isascii(c)) {\n      continue;\n    }")
N("D03", UT, '''      result.push_back(c);
      continue;
    }
    // Any other character is percent-encoded.
    result.append(absl::StrFormat("%%%02X", c));''', '''      result.push_back(c);
    } else {
      absl::StrAppendFormat(&result, "%%%02X", c);
    }''')
N("D03", UT, "  return absl::Substitute(pattern, encoded_resource_name);", "  return absl::StrCat(\"/upload/v1/media/\", encoded_resource_name);")
# D04
M("D04", IM, "  FCP_RETURN_IF_ERROR(result);\n\n  // Gather", "  // Gather")
M("D04", IM, "      *bytes_received_acc += sent_received_bytes.received_bytes;", "      *bytes_received_acc += sent_received_bytes.sent_bytes;")
M("D04", IM, "      *bytes_received_acc += sent_received_bytes.received_bytes;", "      *bytes_received_acc = sent_received_bytes.received_bytes;")
M("D04", IM, "          handle->Cancel();\n", "")
M("D04", IM, "  FCP_RETURN_IF_ERROR(resource_fetch_result);\n", "")
M("D04", IM, "        if (!decoded_response_body.ok()) {\n          response = decoded_response_body.status();\n        } else {", "        if (decoded_response_body.ok()) {")
M("D04", IM, "  // Update the network stats *before*", "  FCP_RETURN_IF_ERROR(result);\n  // Update the network stats *before*")
M("D04", IM, '''  if (response_encoded_with_gzip) {
    metadata.set''', '''  if (!response_encoded_with_gzip) {
    metadata.set''')
M("D04", IM, "  if (!cached_resource_and_metadata.metadata.UnpackTo(&metadata)) {\n    return absl::InternalError(\"Failed to unpack metadata!\");\n  }\n", "  cached_resource_and_metadata.metadata.UnpackTo(&metadata);\n")
M("D04", IM, '''  if (metadata.compression_format() ==
      ResourceCompressionFormat::RESOURCE_COMPRESSION_FORMAT_GZIP) {
    FCP_ASSIGN_OR_RETURN(cached_resource,
                         UncompressWithGzip(std::string(cached_resource)));
  }
''', "")
M("D04", IM, "    result.push_back(response);\n", "    if (response.ok()) result.push_back(response);\n")
N("D04", IM, "  FCP_RETURN_IF_ERROR(result);\n\n  // Gather", "  if (!result.ok()) {\n    return result;\n  }\n\n  // Gather")
N("D04", IM, '''        if (!decoded_response_body.ok()) {
          response = decoded_response_body.status();
        } else {
          response->body = *std::move(decoded_response_body);
        }''', '''        if (decoded_response_body.ok()) {
          response->body = *std::move(decoded_response_body);
        } else {
          response = decoded_response_body.status();
        }''')
N("D04", IM, '''  if (response_encoded_with_gzip) {
    metadata.set_compression_format(
        ResourceCompressionFormat::RESOURCE_COMPRESSION_FORMAT_GZIP);
  } else {
    metadata.set_compression_format(
        ResourceCompressionFormat::RESOURCE_COMPRESSION_FORMAT_UNSPECIFIED);
  }''', '''  metadata.set_compression_format(
      response_encoded_with_gzip
          ? ResourceCompressionFormat::RESOURCE_COMPRESSION_FORMAT_GZIP
          : ResourceCompressionFormat::RESOURCE_COMPRESSION_FORMAT_UNSPECIFIED);''')
N("D04", IM, '''    if (bytes_received_acc != nullptr) {
      *bytes_received_acc += sent_received_bytes.received_bytes;
    }
    if (bytes_sent_acc != nullptr) {
      *bytes_sent_acc += sent_received_bytes.sent_bytes;
    }''', '''    if (bytes_sent_acc) {
      *bytes_sent_acc = *bytes_sent_acc + sent_received_bytes.sent_bytes;
    }
    if (bytes_received_acc) {
      *bytes_received_acc += sent_received_bytes.received_bytes;
    }''')
# D05
FP, SS = "fcp/client/http/http_federated_protocol.cc", "fcp/client/http/http_secagg_send_to_server_impl.cc"
M("D05", PH, "    if (response_operation_proto.done()) {", "    if (response_operation_proto.done() || response_operation_proto.has_metadata()) {")
M("D05", PH, "    clock_.Sleep(GetPollingInterval(response_operation_proto));\n", "")
M("D05", PH, "  } else if (polling_interval > kMaxLroPollingInterval) {\n    return kMaxLroPollingInterval;\n", "")
M("D05", PH, "  if (polling_interval < absl::ZeroDuration()) {\n    return kDefaultLroPollingInterval;\n  } else if", "  if")
M("D05", PH, "kMaxLroPollingInterval = absl::Minutes(1)", "kMaxLroPollingInterval = absl::Minutes(60)")
M("D05", PH, "  if (!absl::StartsWith(operation.name(), \"operations/\")) {\n    return absl::InvalidArgumentError(\n        \"Cannot cancel an Operation with an invalid name\");\n  }\n", "")
M("D05", FP, """  if (completed_operation.has_error()) {
    auto rpc_error = ConvertRpcStatusToAbslStatus(completed_operation.error());
    return absl::Status(
        rpc_error.code(),
        absl::StrCat("Operation ", completed_operation.name(),
                     " contained error: ", rpc_error.ToString()));
  }
  StartSecure""", "  StartSecure")
M("D05", SS, """  if (completed_operation.has_error()) {
    return ConvertRpcStatusToAbslStatus(completed_operation.error());
  }
  ShareKeysResponse""", "  ShareKeysResponse")
M("D05", SS, "  ShareKeysResponse response_proto;\n  if (!completed_operation.response().UnpackTo(&response_proto)) {", "  ShareKeysResponse response_proto;\n  if (!completed_operation.response().UnpackTo(&response_proto) && false) {")
M("D05", FP, """    if (!protocol_request_helper_
             .CancelOperation(operation_name, *task_assignment_request_creator_,
                              *cancellation_runner)
             .ok()) {
      log_manager""", """    if (!cancellation_runner) {
      log_manager""")
M("D05", FP, "                              *cancellation_runner)", "                              *interruptible_runner_)")
N("D05", SS, """  if (completed_operation.has_error()) {
    return ConvertRpcStatusToAbslStatus(completed_operation.error());
  }
  ShareKeysResponse""", """  const bool failed = completed_operation.has_error();
  if (failed) {
    return ConvertRpcStatusToAbslStatus(completed_operation.error());
  }
  ShareKeysResponse""")
N("D05", PH, """  while (true) {
    // If the Operation is done then return it.
    if (response_operation_proto.done()) {
      return std::move(response_operation_proto);
    }
""", """  while (true) {
    const bool finished = response_operation_proto.done();
    if (!finished) {
      FCP_LOG(INFO) << "still pending";
    } else {
      return std::move(response_operation_proto);
    }
""")
N("D05", PH, """  if (polling_interval < absl::ZeroDuration()) {
    return kDefaultLroPollingInterval;
  } else if (polling_interval > kMaxLroPollingInterval) {
    return kMaxLroPollingInterval;
  } else {
    return polling_interval;
  }""", """  if (polling_interval < absl::ZeroDuration()) {
    return kDefaultLroPollingInterval;
  }
  return std::min(polling_interval, kMaxLroPollingInterval);""")
N("D05", PH, """  if (polling_interval < absl::ZeroDuration()) {
    return kDefaultLroPollingInterval;
  } else if (polling_interval > kMaxLroPollingInterval) {
    return kMaxLroPollingInterval;
  } else {
    return polling_interval;
  }""", """  if (polling_interval >= absl::ZeroDuration()) {
    return polling_interval <= kMaxLroPollingInterval ? polling_interval
                                                      : kMaxLroPollingInterval;
  }
  return kDefaultLroPollingInterval;""")
# D06
ST = "  task_info->state = ObjectState::kReportCalled;\n"
M("D06", FP, "  object_state_ = ObjectState::kEligibilityEvalCheckinFailed;\n", "")
M("D06", FP, "  FCP_CHECK(object_state_ == ObjectState::kInitialized)\n      << \"Invalid call sequence\";\n", "")
M("D06", FP, "  object_state_ = ObjectState::kCheckinFailed;\n", "")
M("D06", FP, "  object_state_ = ObjectState::kCheckinFailed;\n", "  object_state_ = ObjectState::kMultipleTaskAssignmentsFailed;\n")
M("D06", FP, "  object_state_ = ObjectState::kMultipleTaskAssignmentsFailed;\n", "")
M("D06", FP, ST + "  auto find_secagg", "  auto find_secagg")
M("D06", FP, ST + "  FCP_ASSIGN_OR_RETURN(\n      ReportTaskResultRequest request", "  FCP_ASSIGN_OR_RETURN(\n      ReportTaskResultRequest request")
M("D06", FP, """    if (!task_info_map_.contains(aggregation_session_id.value())) {
      return absl::InvalidArgumentError("Unexpected aggregation_session_id.");
    }
    task_info = &task_info_map_[aggregation_session_id.value()];
  } else {
    task_info = &default_task_info_;
  }
  FCP_CHECK(task_info->state == ObjectState::kCheckinAccepted ||
            task_info->state == ObjectState::kMultipleTaskAssignmentsAccepted)
      << "Invalid call sequence for task""", """    task_info = &task_info_map_[aggregation_session_id.value()];
  } else {
    task_info = &default_task_info_;
  }
  FCP_CHECK(task_info->state == ObjectState::kCheckinAccepted ||
            task_info->state == ObjectState::kMultipleTaskAssignmentsAccepted)
      << "Invalid call sequence for task""")
N("D06", FP, ST + "  auto find_secagg", "  task_info->state = ObjectState::kReportCalled;\n  const bool reported = true;\n  (void)reported;\n  auto find_secagg")
N("D06", FP, """    if (!task_info_map_.contains(aggregation_session_id.value())) {
      return absl::InvalidArgumentError("Unexpected aggregation_session_id.");
    }
    task_info = &task_info_map_[aggregation_session_id.value()];
  } else {
    task_info = &default_task_info_;
  }
  FCP_CHECK(task_info->state == ObjectState::kCheckinAccepted ||
            task_info->state == ObjectState::kMultipleTaskAssignmentsAccepted)
      << "Invalid call sequence for task""", """    auto it = task_info_map_.find(*aggregation_session_id);
    if (it == task_info_map_.end()) {
      return absl::InvalidArgumentError("Unexpected aggregation_session_id.");
    }
    task_info = &it->second;
  } else {
    task_info = &default_task_info_;
  }
  FCP_CHECK(task_info->state == ObjectState::kCheckinAccepted ||
            task_info->state == ObjectState::kMultipleTaskAssignmentsAccepted)
      << "Invalid call sequence for task""")
# D07
M("D07", FP, """  if (confidential_aggregation) {
    FCP_ASSIGN_OR_RETURN(
        OkpKey parsed""", """  if (confidential_aggregation && !enable_lightweight_client_report_wire_format) {
    FCP_ASSIGN_OR_RETURN(
        OkpKey parsed""")
M("D07", FP, "                             encryption_config->public_key(), result_data));", "                             task_info.task_name, result_data));")
M("D07", FP, """    AbortAggregation(result.status(), server_error_msg, task_info);
    return absl::Status(
        result.status().code(),
        absl::StrCat(server_error_msg, " (", result.status().ToString(), ")"));
  }
  return result;""", """    AbortAggregation(result.status(), server_error_msg, task_info);
    return OkpKey();
  }
  return result;""")
M("D07", FP, "      ComputeSHA256(*task_info.confidential_data_access_policy));", "      std::string(*task_info.confidential_data_access_policy));")
M("D07", FP, "  blob_header.set_key_id(parsed_public_key.key_id);\n", "")
M("D07", FP, "                                 serialized_blob_header);\n", "                                 \"\");\n")
M("D07", FP, "          .is_gzip_compressed = true,", "          .is_gzip_compressed = false,")
M("D07", FP, "      encryption_result->ciphertext);", "      *compressed_payload);")
M("D07", FP, """    return absl::Status(
        encryption_result.status().code(),
        absl::StrCat(server_error_msg, " (",
                     encryption_result.status().ToString(), ")"));""", """    return inner_payload;""")
N("D07", FP, """  if (confidential_aggregation) {
    FCP_ASSIGN_OR_RETURN(
        OkpKey parsed_public_key,
        ValidateConfidentialEncryptionConfig(task_info, *encryption_config));
    FCP_ASSIGN_OR_RETURN(data_to_upload,
                         EncryptPayloadForConfidentialAggregation(
                             task_info, parsed_public_key,
                             encryption_config->public_key(), result_data));
  } else {
    data_to_upload = std::move(result_data);
  }""", """  if (!confidential_aggregation) {
    data_to_upload = std::move(result_data);
  } else {
    absl::StatusOr<OkpKey> key =
        ValidateConfidentialEncryptionConfig(task_info, *encryption_config);
    if (!key.ok()) return key.status();
    absl::StatusOr<std::string> sealed =
        EncryptPayloadForConfidentialAggregation(
            task_info, *key, encryption_config->public_key(), result_data);
    if (!sealed.ok()) return sealed.status();
    data_to_upload = *std::move(sealed);
  }""")
# D08
M("D08", FP, """  if (!upload_status.ok()) {
    task_info.state = ObjectState::kReportFailedPermanentError;""", """  if (absl::IsInternal(upload_status)) {
    task_info.state = ObjectState::kReportFailedPermanentError;""")
M("D08", FP, """    return absl::Status(http_response.status().code(),
                        absl::StrCat("Data upload failed: ",
                                     http_response.status().ToString()));""", """    FCP_LOG(ERROR) << http_response.status();""")
M("D08", FP, """    return absl::Status(
        http_response.status().code(),
        absl::StrCat(confidential_aggregation
                         ? "SubmitConfidentialAggregationResult"
                         : "SubmitAggregationResult",
                     " failed: ", http_response.status().ToString()));""", """    FCP_LOG(ERROR) << http_response.status();""")
M("D08", FP, "    if (upload_status.code() != absl::StatusCode::kAborted) {\n", "    if (upload_status.code() == absl::StatusCode::kInternal) {\n")
M("D08", SS, "    if (!response.ok()) {\n      return response.status();\n    }\n", "    if (response.ok()) break;\n")
M("D08", SS, "  for (const auto& response : responses) {\n    if (!response.ok()) {\n      return response.status();\n    }\n  }\n", "  FCP_RETURN_IF_ERROR(responses[0]);\n")
M("D08", SS, "  for (const auto& response : responses) {\n    if (!response.ok()) {\n      return response.status();\n    }\n  }\n", "")
M("D08", FP, "  return SubmitAggregationResult(task_info);", "  return absl::OkStatus();")
M("D08", FP, """    SubmitConfidentialAggregationResultRequest request;
    request.set_resource_name(task_info.aggregation_resource_name);""", """    SubmitConfidentialAggregationResultRequest request;
    request.set_resource_name(task_info.task_name);""")
M("D08", SS, "  *request.mutable_masked_result_resource_name() = masked_resource_name_;", "  *request.mutable_masked_result_resource_name() = aggregation_id_;")
N("D08", SS, "  for (const auto& response : responses) {\n    if (!response.ok()) {\n      return response.status();\n    }\n  }\n", "  for (size_t i = 0; i < responses.size(); ++i) {\n    FCP_RETURN_IF_ERROR(responses[i]);\n  }\n")
N("D08", FP, "  return SubmitAggregationResult(task_info);", "  absl::Status submitted = SubmitAggregationResult(task_info);\n  if (!submitted.ok()) return submitted;\n  return absl::OkStatus();")
N("D08", FP, """    return absl::Status(http_response.status().code(),
                        absl::StrCat("Data upload failed: ",
                                     http_response.status().ToString()));
  }""", """    absl::Status failure = http_response.status();
    std::string text = absl::StrCat("Data upload failed: ", failure.ToString());
    return absl::Status(failure.code(), text);
  }""")

# D09 retry windows
FU = "fcp/client/federated_protocol_util.cc"
M("D09", FU, "  retry_delay = std::max(absl::ZeroDuration(), retry_delay);\n", "")
M("D09", FU, "  retry_delay = std::max(absl::ZeroDuration(), retry_delay);\n", "  retry_delay = std::min(absl::ZeroDuration(), retry_delay);\n")
M("D09", FU, "  jitter_percent = std::min(1.0, std::max(0.0, jitter_percent));\n", "  jitter_percent = std::max(0.0, jitter_percent);\n")
M("D09", FU, "  jitter_percent = std::min(1.0, std::max(0.0, jitter_percent));\n", "")
M("D09", FU, "target_delay * (1.0 - jitter_percent)", "target_delay * (1.0 - 2 * jitter_percent)")
M("D09", FU, "  return absl::Now() +\n         Pick", "  return absl::UnixEpoch() +\n         Pick")
M("D09", FU, "absl::Nanoseconds(max_delay.nanos())", "absl::Nanoseconds(min_delay.nanos())")
M("D09", FU, "  *retry_window.mutable_delay_min() = *retry_window.mutable_delay_max() =", "  *retry_window.mutable_delay_min() =")
M("D09", FP, "response_proto.retry_window_if_accepted().delay_max(), bit_gen_)};", "response_proto.retry_window_if_rejected().delay_max(), bit_gen_)};")
M("D09", FP, "          response_proto.retry_window_if_rejected().delay_min(),\n          response_proto.retry_window_if_rejected().delay_max(), bit_gen_),", "          response_proto.retry_window_if_accepted().delay_min(),\n          response_proto.retry_window_if_accepted().delay_max(), bit_gen_),")
M("D09", FP, """    case ObjectState::kReportCalled:
      // If a client""", """    case ObjectState::kReportFailedPermanentError:
    case ObjectState::kReportCalled:
      // If a client""", "    case ObjectState::kMultipleTaskAssignmentsFailedPermanentError:\n    case ObjectState::kReportFailedPermanentError:\n", "    case ObjectState::kMultipleTaskAssignmentsFailedPermanentError:\n")
M("D09", FP, "    case ObjectState::kCheckinRejected:\n    case ObjectState::kMultipleTaskAssignmentsNo", "    case ObjectState::kMultipleTaskAssignmentsNo", "    case ObjectState::kReportCalled:\n      // If", "    case ObjectState::kCheckinRejected:\n    case ObjectState::kReportCalled:\n      // If")
M("D09", FP, "      if (retry_times_.has_value()) {\n", "      if (!retry_times_.has_value()) {\n")
M("D09", FP, """  UpdateObjectStateIfPermanentError(
      response.status(),
      ObjectState::kMultipleTaskAssignmentsFailedPermanentError);
""", "")
M("D09", FP, """      response.status(),
      ObjectState::kMultipleTaskAssignmentsFailedPermanentError);
""", """      response.status(),
      ObjectState::kMultipleTaskAssignmentsFailed);
""")
N("D09", FU, "  retry_delay = std::max(absl::ZeroDuration(), retry_delay);\n", "  if (retry_delay < absl::ZeroDuration()) retry_delay = absl::ZeroDuration();\n")
N("D09", FU, "  jitter_percent = std::min(1.0, std::max(0.0, jitter_percent));\n", "  if (jitter_percent > 1.0) jitter_percent = 1.0;\n  if (jitter_percent < 0.0) jitter_percent = 0.0;\n")
N("D09", FU, "  *retry_window.mutable_delay_min() = *retry_window.mutable_delay_max() =\n      TimeUtil::ConvertAbslToProtoDuration(retry_delay);", "  auto delay = TimeUtil::ConvertAbslToProtoDuration(retry_delay);\n  *retry_window.mutable_delay_min() = delay;\n  *retry_window.mutable_delay_max() = delay;")
N("D09", FU, """  return absl::Now() +
         Pick""", """  const absl::Time now = absl::Now();
  return now +
         Pick""")
# D10 task resources
M("D10", FP, "      results.push_back(checkpoint_uri_or_data.status());\n      continue;\n", "      continue;\n")
M("D10", FP, "    uris_to_fetch.push_back(*plan_uri_or_data);\n    uris_to_fetch.push_back(*checkpoint_uri_or_data);\n", "    uris_to_fetch.push_back(*checkpoint_uri_or_data);\n    uris_to_fetch.push_back(*plan_uri_or_data);\n")
M("D10", FP, "    uris_to_fetch.push_back(*confidential_data_access_policy_uri_or_data);\n", "")
M("D10", FP, "        *plan_data_response, *checkpoint_data_response,\n", "        *checkpoint_data_response, *plan_data_response,\n")
M("D10", FP, "    if (!pending_result.ok()) {\n      // We already hit an error earlier on, and so didn't actually issue\n      // a request for this TaskResources entry.\n      continue;", "    if (!pending_result.ok()) {\n      response_it += 3;\n      continue;")
M("D10", FP, "  if (!checkpoint_data_response.ok()) {\n    return absl::Status(\n        checkpoint", "  if (!plan_data_response.ok()) {\n    return absl::Status(\n        checkpoint")
M("D10", FP, "              plan_data_response->body, checkpoint_data_response->body},", "              checkpoint_data_response->body, plan_data_response->body},")
M("D10", FP, "      result.task_assignments[task_assignment.task_name()] = task_info.status();\n      continue;", "      continue;")
M("D10", FP, "    auto payloads = payloads_it++;\n    if (!payloads->ok()) {\n", "    auto payloads = payloads_it;\n    if (payloads->ok()) ++payloads_it;\n    if (!payloads->ok()) {\n")
M("D10", FP, "  if (!task_resources[0].ok()) {\n    return task_resources[0].status();\n  }\n  result.payloads = task_resources[0]->plan_and_checkpoint_payloads;\n  FCP", "  if (task_resources[0].ok()) {\n  result.payloads = task_resources[0]->plan_and_checkpoint_payloads;\n  }\n  FCP")
M("D10", FP, "                           .checkpoint = task_assignment.init_checkpoint(),\n", "                           .checkpoint = task_assignment.plan(),\n")
M("D10", FP, "  if (!ParseFromStringOrCord(parsed_proto, response->body)) {\n    return absl::InvalidArgumentError(\n        absl::StrCat(\"Unable to parse \", readable_name, \" resource.\"));\n  }\n", "  ParseFromStringOrCord(parsed_proto, response->body);\n")
M("D10", FP, "    resources_to_fetch.push_back(task_resources);\n", "    if (!task_assignment.plan().uri().empty()) {\n      resources_to_fetch.push_back(task_resources);\n    }\n")
N("D10", FP, "    auto plan_data_response = response_it++;\n    auto checkpoint_data_response = response_it++;\n", "    auto plan_data_response = response_it;\n    ++response_it;\n    auto checkpoint_data_response = response_it;\n    ++response_it;\n")
N("D10", FP, "    uris_to_fetch.push_back(*plan_uri_or_data);\n    uris_to_fetch.push_back(*checkpoint_uri_or_data);\n", "    uris_to_fetch.push_back(*std::move(plan_uri_or_data));\n    uris_to_fetch.emplace_back(*checkpoint_uri_or_data);\n")
