C = "fcp/client/"
CP = "fcp/confidentialcompute/client_payload.cc"
U = C + "federated_protocol_util.cc"
IR = C + "interruptible_runner.cc"
HP = C + "http/curl/curl_header_parser.cc"
RH = C + "http/curl/curl_http_request_handle.cc"
HC = C + "http/curl/curl_http_client.cc"
IM = C + "http/in_memory_request_response.cc"
M("C06", CP, "  if (!absl::StartsWith(encoded_data, kConfidentialAggPayloadV1MagicBytes)) {", "  if (!absl::StartsWith(encoded_data, \"CA\")) {")
M("C06", CP, "  if (!absl::StartsWith(encoded_data, kConfidentialAggPayloadV1MagicBytes)) {", "  if (!absl::StartsWithIgnoreCase(encoded_data, kConfidentialAggPayloadV1MagicBytes)) {")
M("C06", CP, "      encoded_data.size() - coded_in.CurrentPosition()) {", "      encoded_data.size()) {")
M("C06", CP, "  auto limit = coded_in.PushLimit(serialized_payload_size);", "  auto limit = coded_in.PushLimit(encoded_data.size());")
M("C06", CP, "payload_header.ParseFromCodedStream(&coded_in)", "payload_header.MergePartialFromCodedStream(&coded_in) && false == true")
M("C06", CP, "  encoded_data = encoded_data.substr(coded_in.CurrentPosition());", "  encoded_data = encoded_data.substr(encoded_data.size() - coded_in.CurrentPosition());")
M("C06", CP, "  encoded_data = encoded_data.substr(coded_in.CurrentPosition());", "  encoded_data.remove_prefix(serialized_payload_size + kConfidentialAggPayloadV1MagicBytes.size() + 1);")
M("C06", CP, "                            CompressionType::COMPRESSION_TYPE_GZIP,\n", "                            CompressionType::COMPRESSION_TYPE_NONE,\n")
M("C06", CP, "coded_out.WriteVarint32(static_cast<uint32_t>(serialized_payload.size()));", "coded_out.WriteVarint32(static_cast<uint8_t>(serialized_payload.size()));")
M("C06", CP, "coded_out.WriteVarint32(static_cast<uint32_t>(serialized_payload.size()));", "coded_out.WriteVarint32(static_cast<uint32_t>(serialized_payload.size() + ciphertext.size()));")
M("C06", CP, "payload_header.compression_type() ==\n", "payload_header.compression_type() !=\n")
M("C06", CP, "payload_header.set_blob_header(std::move(header.serialized_blob_header));", "if (!header.serialized_blob_header.empty() && header.is_gzip_compressed)\n    payload_header.set_blob_header(std::move(header.serialized_blob_header));")
# D09
M("D09", U, "  min_delay = std::max(absl::ZeroDuration(), min_delay);\n", "")
M("D09", U, "  max_delay = std::max(max_delay, min_delay);\n", "")
M("D09", U, "  double random = absl::Uniform(bit_gen, 0, 1.0);", "  double random = absl::Uniform(bit_gen, 0, 2.0);")
M("D09", U, "  return min_delay + (window_width * random);", "  return min_delay + (max_delay * random);")
M("D09", U, "absl::Seconds(max_delay.seconds()) +\n                                     absl::Nanoseconds(max_delay.nanos())", "absl::Seconds(max_delay.seconds()) +\n                                     absl::Nanoseconds(min_delay.nanos())")
M("D09", U, "  jitter_percent = std::min(1.0, std::max(0.0, jitter_percent));", "  jitter_percent = std::max(0.0, jitter_percent);")
M("D09", U, "  jitter_percent = std::min(1.0, std::max(0.0, jitter_percent));", "  jitter_percent = std::max(1.0, std::min(0.0, jitter_percent));")
M("D09", U, "target_delay * (1.0 + jitter_percent), bit_gen", "target_delay * (1.0 + 2 * jitter_percent), bit_gen")
M("D09", U, "  retry_delay = std::max(absl::ZeroDuration(), retry_delay);\n", "  if (retry_delay == -absl::InfiniteDuration()) retry_delay = absl::ZeroDuration();\n")
M("D09", U, "  absl::Duration retry_delay = retry_time - absl::Now();", "  absl::Duration retry_delay = absl::Now() - retry_time;")
M("D09", U, "  *retry_window.mutable_delay_min() = *retry_window.mutable_delay_max() =\n", "  *retry_window.mutable_delay_max() =\n")
# D11
M("D11", IR, "  if (should_abort_()) {\n    return absl::CancelledError(\"cancelled before posting callable\");\n  }\n", "")
M("D11", IR, "  abort_function();\n\n", "  if (!run_future.Wait(timing_config_.polling_period)) abort_function();\n\n")
M("D11", IR, "    FCP_CHECK(std::move(run_future).Take() != std::nullopt);\n    return absl::CancelledError(\"cancelled after graceful wait\");", "    return *std::move(run_future).Take();")
M("D11", IR, "  if (run_future.Wait(timing_config_.extended_shutdown_period)) {", "  if (run_future.Wait(timing_config_.graceful_shutdown_period)) {")
M("D11", IR, "  log_manager_->LogDiag(diagnostics_config_.interrupt_timeout_extended);\n  exit(0);", "  log_manager_->LogDiag(diagnostics_config_.interrupt_timeout_extended);\n  return absl::CancelledError(\"gave up\");")
M("D11", IR, "    if (run_future.Wait(timing_config_.polling_period)) {", "    if (run_future.Wait(timing_config_.extended_shutdown_period)) {")
M("D11", IR, "      FCP_CHECK(future_result != std::nullopt);\n      return future_result.value();", "      FCP_CHECK(future_result != std::nullopt);\n      if (should_abort_()) return absl::CancelledError(\"late\");\n      return future_result.value();")
# D18 / D17 header parser
M("D18", HP, "  header_list_.clear();\n", "  if (status_code != 200) header_list_.clear();\n")
M("D18", HP, "absl::StrSplit(header_string, absl::MaxSplits(':', 1))", "absl::StrSplit(header_string, ':')")
M("D18", HP, "       !absl::EqualsIgnoreCase(key, kTransferEncodingHdr))) {", "       key != kTransferEncodingHdr)) {")
M("D18", HP, "  if (!use_curl_encoding_ ||\n", "  if (use_curl_encoding_ ||\n")
M("D18", HP, "split.second.substr(0, 3), &status_code", "split.second.substr(0, 2), &status_code")
M("D18", HP, "  status_code_ = status_code;\n", "  if (status_code_ < 0) status_code_ = status_code;\n")
M("D18", HP, "    header_list_.push_back({key, value});", "    header_list_.push_back({absl::AsciiStrToLower(key), value.substr(0, value.find(' '))});")
M("D18", HP, "    header_list_.push_back({key, value});", "    if (!FindHeader(header_list_, key).has_value()) header_list_.push_back({key, value});")
M("D18", HP, "      status_code_ != HttpResponseCode::kHttpMovedPermanently) {", "      status_code_ != HttpResponseCode::kHttpMovedPermanently &&\n      !header_list_.empty()) {")
M("D18", RH, "    if (absl::EqualsIgnoreCase(key, kAcceptEncodingHdr)) {\n      continue;", "    if (absl::EqualsIgnoreCase(key, kAcceptEncodingHdr) || value.empty()) {\n      continue;")
M("D18", RH, "easy_handle_->SetOpt(CURLOPT_SSL_VERIFYPEER, 2L)", "easy_handle_->SetOpt(CURLOPT_SSL_VERIFYPEER, test_cert_path.empty() ? 1L : 0L)")
M("D18", RH, "easy_handle_->SetOpt(CURLOPT_SSL_VERIFYHOST, 1L)", "easy_handle_->SetOpt(CURLOPT_SSL_VERIFYHOST, 0L)")
M("D18", RH, "    case HttpRequest::Method::kPut:\n      CURL_RETURN_IF_ERROR(easy_handle_->SetOpt(CURLOPT_UPLOAD, 1L));", "    case HttpRequest::Method::kPut:\n      CURL_RETURN_IF_ERROR(easy_handle_->SetOpt(CURLOPT_POST, 1L));")
M("D18", RH, "    header_parser_.UseCurlEncoding();\n", "")
M("D18", RH, "    CURL_RETURN_IF_ERROR(\n        easy_handle_->SetOpt(CURLOPT_ACCEPT_ENCODING, kGzipEncodingHdrValue));", "    easy_handle_->SetOpt(CURLOPT_ACCEPT_ENCODING, kGzipEncodingHdrValue);")
# D17
M("D17", RH, "    return read_size.value();\n  } else if (read_size.status().code() == absl::StatusCode::kOutOfRange) {\n    return 0;\n  }\n  return CURL_READFUNC_ABORT;", "    return read_size.value();\n  }\n  return 0;")
M("D17", RH, "  absl::string_view str_body(static_cast<char*>(body), size * nmemb);", "  absl::string_view str_body(static_cast<char*>(body), size * (nmemb - 1));")
M("D17", RH, "  absl::string_view str_body(static_cast<char*>(body), size * nmemb);", "  absl::string_view str_body(static_cast<char*>(body));")
M("D17", RH, "    if (response_ != nullptr && result == CURLE_OK) {", "    if (response_ != nullptr && (result == CURLE_OK || result == CURLE_PARTIAL_FILE)) {")
M("D17", RH, "  return (self->is_cancelled_) ? 1 : 0;", "  return (self->is_cancelled_ && dlnow > 0) ? 1 : 0;")
M("D17", RH, "  if (callback_ == nullptr || is_cancelled_ || is_completed_) {\n    return;", "  if (callback_ == nullptr || is_cancelled_) {\n    return;")
M("D17", RH, "  is_cancelled_ = true;\n}\n\nvoid CurlHttpRequestHandle::MarkAsCompleted", "  is_completed_ = true;\n}\n\nvoid CurlHttpRequestHandle::MarkAsCompleted")
M("D17", RH, "  } else if (is_being_performed_ || is_completed_) {", "  } else if (is_completed_) {")
M("D17", RH, "  is_being_performed_ = true;\n  callback_ = callback;\n", "  callback_ = callback;\n")
M("D17", HC, "    FCP_RETURN_IF_ERROR(\n        http_request_handle->AddToMulti(multi_handle.get(), callback));", "    if (!http_request_handle->AddToMulti(multi_handle.get(), callback).ok()) break;")
M("D17", HC, "  while ((msg = multi_handle->InfoRead(&messages_in_queue))) {", "  if ((msg = multi_handle->InfoRead(&messages_in_queue))) {")
M("D17", HC, "      handle->MarkAsCompleted(msg->data.result);\n      handle->RemoveFromMulti(multi_handle);", "      handle->RemoveFromMulti(multi_handle);\n      handle->MarkAsCompleted(CURLE_OK);")
M("D17", HC, "      handle->MarkAsCompleted(msg->data.result);\n      handle->RemoveFromMulti(multi_handle);", "      handle->RemoveFromMulti(multi_handle);\n      handle->MarkAsCompleted(msg->data.result);")
M("D17", HC, "    ReadCompleteMessages(multi_handle);\n\n    if (num_running_handles > 0) {", "    if (num_running_handles > 0) {\n      ReadCompleteMessages(multi_handle);")
# D01
M("D01", IM, "    FCP_ASSIGN_OR_RETURN(body, CompressWithGzip(body));\n", "    if (body.size() > 64) { FCP_ASSIGN_OR_RETURN(body, CompressWithGzip(body)); }\n")
M("D01", IM, "std::to_string(body.size())", "std::to_string(strlen(body.c_str()))")
M("D01", IM, "  int64_t actual_read = bytes_left <= requested ? bytes_left : requested;", "  int64_t actual_read = bytes_left < requested ? requested : bytes_left;")
M("D01", IM, "  cursor_ += actual_read;\n", "  cursor_ += requested;\n")
M("D01", IM, "      !absl::StartsWithIgnoreCase(uri, kLocalhostUri)) {", "      !absl::StrContains(uri, kLocalhostUri)) {")
M("D01", IM, "  if (content_length_hdr.has_value()) {\n    return absl::InvalidArgumentError(\n        \"Content-Length header should not be provided!\");", "  if (content_length_hdr.has_value() && !body.empty()) {\n    return absl::InvalidArgumentError(\n        \"Content-Length header should not be provided!\");")
# D02
M("D02", IM, "      response_buffer_.size() + data.size() > *expected_content_length_) {", "      data.size() > *expected_content_length_) {")
M("D02", IM, "  if (content_length < 0) {", "  if (content_length < -1) {")
M("D02", IM, "      absl::AsciiStrToLower(*transfer_encoding_header) !=\n          kIdentityEncodingHdrValue) {", "      *transfer_encoding_header == kGzipEncodingHdrValue) {")
