from mutate import M, N
RH = "fcp/client/http/curl/curl_http_request_handle.cc"
HC = "fcp/client/http/curl/curl_http_client.cc"
HP = "fcp/client/http/curl/curl_header_parser.cc"

# D17 outcomes of requests
M("D17", RH, "    if (response_ != nullptr && result == CURLE_OK) {", "    if (response_ != nullptr) {", "} else if (response_ != nullptr) {\n      callback_->OnResponseBodyError(\n", "} else if (result == CURLE_OK) {\n      callback_->OnResponseBodyError(\n")
M("D17", RH, "    if (response_ != nullptr && result == CURLE_OK) {", "    if (response_ != nullptr && result != CURLE_COULDNT_CONNECT) {")
M("D17", RH, "  if (!is_cancelled_ && !is_completed_) {\n    if (response_", "  if (!is_completed_) {\n    if (response_")
M("D17", RH, "callback_ == nullptr || is_cancelled_ || is_completed_", "callback_ == nullptr || is_cancelled_")
M("D17", RH, "    callback_->OnResponseError(*request_, absl::CancelledError());\n  }\n  is_cancelled_ = true;", "    callback_->OnResponseError(*request_, absl::CancelledError());\n    is_cancelled_ = true;\n  }")
M("D17", RH, "                                 absl::InternalError(\"response_ is nullptr\"));\n    }\n  }\n  is_completed_ = true;", "                                 absl::InternalError(\"response_ is nullptr\"));\n    }\n  }\n  is_completed_ = response_ != nullptr;")
M("D17", RH, "  if (!status.ok()) {\n    FCP_LOG(ERROR) << \"Called OnResponseBody. Received status: \" << status;\n    absl::MutexLock lock(&self->mutex_);\n    self->is_cancelled_ = true;\n    return 0;", "  if (!status.ok()) {\n    FCP_LOG(ERROR) << \"Called OnResponseBody. Received status: \" << status;\n    absl::MutexLock lock(&self->mutex_);\n    self->is_cancelled_ = true;")
M("D17", RH, "Received status: \" << status;\n    absl::MutexLock lock(&self->mutex_);\n    self->is_cancelled_ = true;\n    return 0;\n  }\n\n  return size * n_items;", "Received status: \" << status;\n    return 0;\n  }\n\n  return size * n_items;")
M("D17", RH, "  } else if (read_size.status().code() == absl::StatusCode::kOutOfRange) {\n    return 0;\n  }\n  return CURL_READFUNC_ABORT;", "  }\n  return 0;")
M("D17", RH, "    return 0;\n  }\n  return CURL_READFUNC_ABORT;", "    return CURL_READFUNC_ABORT;\n  }\n  return CURL_READFUNC_ABORT;")
M("D17", RH, "self->request_->ReadBody(buffer, buffer_size)", "self->request_->ReadBody(buffer, num)")
M("D17", RH, "absl::string_view str_body(static_cast<char*>(body), size * nmemb);", "absl::string_view str_body(static_cast<char*>(body));")
M("D17", RH, "return (self->is_cancelled_) ? 1 : 0;", "return 0;")
M("D17", RH, "} else if (is_being_performed_ || is_completed_) {", "} else if (is_completed_) {")
M("D17", RH, "  if (is_cancelled_) {\n    callback->OnResponseError(*request_, absl::CancelledError());\n    return absl::CancelledError();\n  } else if", "  if")
M("D17", RH, "    return absl::InternalError(error_buffer_);\n  }\n\n  return absl::OkStatus();", "  }\n\n  return absl::OkStatus();")
M("D17", HC, "handle->MarkAsCompleted(msg->data.result);", "handle->MarkAsCompleted(CURLE_OK);")
M("D17", HC, "      handle->MarkAsCompleted(msg->data.result);\n", "      if (msg->data.result == CURLE_OK) {\n        handle->MarkAsCompleted(msg->data.result);\n      }\n")
M("D17", HC, "      return absl::InternalError(\n          absl::StrCat(\"MultiPerform failed with code: \", code));", "      break;")
M("D17", HC, "  while (num_running_handles) {", "  for (int i = 0; i < 1000000 && num_running_handles; ++i) {")
M("D17", HC, "    FCP_CHECK(callback != nullptr);\n", "    FCP_CHECK(callback != nullptr);\n    if (request_handle == requests.back().first && requests.size() > 8) continue;\n")
N("D17", RH, "    if (response_ != nullptr && result == CURLE_OK) {\n      callback_->OnResponseCompleted(*request_, *response_);\n    } else if (response_ != nullptr) {", "    const bool done = result == CURLE_OK;\n    if (response_ != nullptr && done) {\n      callback_->OnResponseCompleted(*request_, *response_);\n    } else if (response_ != nullptr) {")
N("D17", RH, "  if (!is_cancelled_ && !is_completed_) {\n    if (response_", "  if (is_cancelled_ || is_completed_) {\n    is_completed_ = true;\n    return;\n  }\n  {\n    if (response_")
N("D17", RH, "  if (read_size.ok()) {\n    return read_size.value();\n  } else if (read_size.status().code() == absl::StatusCode::kOutOfRange) {\n    return 0;\n  }\n  return CURL_READFUNC_ABORT;", "  if (absl::IsOutOfRange(read_size.status())) return 0;\n  if (!read_size.ok()) return CURL_READFUNC_ABORT;\n  return *read_size;")
N("D17", HC, "  while (num_running_handles) {", "  while (num_running_handles != 0) {")
N("D17", RH, "return (self->is_cancelled_) ? 1 : 0;", "if (self->is_cancelled_) return 1;\n  return 0;")
N("D17", HC, "  while ((msg = multi_handle->InfoRead(&messages_in_queue))) {\n    if (msg->msg == CURLMSG_DONE) {", "  while ((msg = multi_handle->InfoRead(&messages_in_queue)) != nullptr) {\n    if (msg->msg != CURLMSG_DONE) continue;\n    {")

# D18 set-up and response headers
M("D18", RH, "SetOpt(CURLOPT_SSL_VERIFYPEER, 2L)", "SetOpt(CURLOPT_SSL_VERIFYPEER, 0L)")
M("D18", RH, "  CURL_RETURN_IF_ERROR(easy_handle_->SetOpt(CURLOPT_SSL_VERIFYHOST, 1L));\n", "  if (!test_cert_path.empty()) {\n    CURL_RETURN_IF_ERROR(easy_handle_->SetOpt(CURLOPT_SSL_VERIFYHOST, 1L));\n  }\n")
M("D18", RH, "  CURL_RETURN_IF_ERROR(easy_handle_->SetOpt(CURLOPT_SSL_VERIFYHOST, 1L));\n", "")
M("D18", RH, "  CURL_RETURN_IF_ERROR(easy_handle_->SetOpt(CURLOPT_SSL_VERIFYPEER, 2L));\n", "  easy_handle_->SetOpt(CURLOPT_SSL_VERIFYPEER, 2L);\n")
M("D18", RH, "  CURL_RETURN_IF_ERROR(easy_handle_->SetOpt(CURLOPT_READDATA, this));\n", "")
M("D18", RH, "    case HttpRequest::Method::kPut:\n      CURL_RETURN_IF_ERROR(easy_handle_->SetOpt(CURLOPT_UPLOAD, 1L));", "    case HttpRequest::Method::kPut:\n      CURL_RETURN_IF_ERROR(easy_handle_->SetOpt(CURLOPT_POST, 1L));")
M("D18", RH, "      CURL_RETURN_IF_ERROR(easy_handle_->SetOpt(CURLOPT_NOBODY, 1L));\n      break;", "      break;")
M("D18", RH, "    if (absl::EqualsIgnoreCase(key, kAcceptEncodingHdr)) {\n      continue;", "    if (absl::EqualsIgnoreCase(key, kAcceptEncodingHdr) || value.empty()) {\n      continue;")
M("D18", RH, "    header_parser_.UseCurlEncoding();\n", "")
M("D18", RH, "  if (!accept_encoding.has_value()) {", "  if (accept_encoding.has_value()) {")
M("D18", RH, "            easy_handle_->SetOpt(CURLOPT_INFILESIZE, std::stol(value)));", "            easy_handle_->SetOpt(CURLOPT_POSTFIELDSIZE, std::stol(value)));")
M("D18", RH, "        CURL_RETURN_IF_ERROR(\n            easy_handle_->SetOpt(CURLOPT_INFILESIZE, std::stol(value)));\n", "")
M("D18", RH, "  CURL_RETURN_IF_ERROR(easy_handle_->SetOpt(CURLOPT_HTTPHEADER, header_list_));\n", "")
M("D18", HP, "absl::StrSplit(header_string, absl::MaxSplits(':', 1));", "absl::StrSplit(header_string, ':');")
M("D18", HP, "       !absl::EqualsIgnoreCase(key, kContentLengthHdr) &&\n", "")
M("D18", HP, "  if (!use_curl_encoding_ ||\n      (", "  if ((")
M("D18", HP, "  header_list_.clear();\n", "")
M("D18", HP, "  header_list_.clear();\n", "  if (status_code != 200) header_list_.clear();\n")
M("D18", HP, "if (std::string(header_string) == \"\\r\\n\" &&\n", "if (header_string.size() <= 4 &&\n")
N("D18", HP, "if (std::string(header_string) == \"\\r\\n\" &&\n", "if (absl::string_view(header_string) == \"\\r\\n\" &&\n")
N("D18", HP, "    header_list_.push_back({key, value});", "    header_list_.emplace_back(key, value);")
N("D18", HP, "  header_list_.clear();\n", "  header_list_ = HeaderList();\n")
N("D18", RH, "SetOpt(CURLOPT_SSL_VERIFYHOST, 1L)", "SetOpt(CURLOPT_SSL_VERIFYHOST, 2L)")
N("D18", HP, "  if (!use_curl_encoding_ ||\n      (!absl::EqualsIgnoreCase(key, kContentEncodingHdr) &&\n       !absl::EqualsIgnoreCase(key, kContentLengthHdr) &&\n       !absl::EqualsIgnoreCase(key, kTransferEncodingHdr))) {\n    header_list_.push_back({key, value});\n  }\n", "  const bool describes_encoding = absl::EqualsIgnoreCase(key, kContentEncodingHdr) || absl::EqualsIgnoreCase(key, kContentLengthHdr) || absl::EqualsIgnoreCase(key, kTransferEncodingHdr);\n  if (use_curl_encoding_ && describes_encoding) {\n    return true;\n  }\n  header_list_.push_back({key, value});\n")

# D19 slices
FS = "fcp/client/federated_select.cc"
M("D19", FS, "    if (!http_response.ok()) {\n      return absl::UnavailableError(absl::StrCat(\n          \"Slice fetch request failed (URI template: \", uri_template,\n          \"): \", absl::StatusCodeToString(http_response.status().code())));\n    }", "    if (!http_response.ok()) {\n      continue;\n    }")
M("D19", FS, "    slices.push_back(http_response->body);", "    slices.push_front(http_response->body);")
M("D19", FS, "{\"{key_base10}\", absl::StrCat(slice_key)}", "{\"{key_base10}\", absl::StrCat(slices_selector.keys_size())}")
M("D19", FS, "    std::string slice_uri = absl", "    if (slice_key < 0) continue;\n    std::string slice_uri = absl")
M("D19", FS, "                                /*bytes_received_acc=*/&bytes_received,\n                                /*bytes_sent_acc=*/&bytes_sent);", "                                /*bytes_received_acc=*/&bytes_sent,\n                                /*bytes_sent_acc=*/&bytes_received);")
M("D19", FS, "  bytes_received_acc_ += bytes_received;\n  if (!slices.ok()) {", "  if (!slices.ok()) {", "  log_manager_.LogDiag(ProdDiagCode::FEDSELECT_SLICE_HTTP_FETCH_SUCCEEDED);\n", "  log_manager_.LogDiag(ProdDiagCode::FEDSELECT_SLICE_HTTP_FETCH_SUCCEEDED);\n  bytes_received_acc_ += bytes_received;\n")
M("D19", FS, "    std::filesystem::remove(*scratch_filename);\n", "")
M("D19", FS, "  checkpoint_stream.close();\n  if (checkpoint_stream.fail()) {\n    return absl::InternalError(\"Failed to write slice to file\");\n  }\n", "  checkpoint_stream.close();\n")
M("D19", FS, "    if (!(checkpoint_stream << chunk).good()) {\n      return absl::InternalError(\"Failed to write slice to file\");\n    }\n", "    if (!chunk.empty() && !(checkpoint_stream << chunk).good()) {\n      break;\n    }\n")
M("D19", FS, "  // Remove the slice from the deque, releasing its data from memory.\n  slices_.pop_front();\n", "  if (slice_data.size() > 4096) slices_.pop_front();\n")
M("D19", FS, "  slices_.clear();\n  std::filesystem::remove(scratch_filename_);", "  if (!slices_.empty()) std::filesystem::remove(scratch_filename_);\n  slices_.clear();")
M("D19", FS, "  // Remove the scratch file, even if Close() wasn't called first.\n  CleanupInternal();\n", "")
M("D19", FS, "  if (uri_template.empty()) {\n    return std::make_unique<Disabled", "  if (!uri_template.empty()) {\n    return std::make_unique<Disabled")
M("D19", FS, "  if (!slice_fetch_result.ok()) {\n    return absl::InternalError(absl::StrCat(\n        \"Failed to perform HTTP requests (URI template: \", uri_template,\n        \"): \", absl::StatusCodeToString(slice_fetch_result.status().code())));\n  }", "  if (!slice_fetch_result.ok()) {\n    return std::deque<absl::Cord>();\n  }")
N("D19", FS, "    if (!(checkpoint_stream << chunk).good()) {", "    checkpoint_stream << chunk;\n    if (!checkpoint_stream.good()) {")
N("D19", FS, "    slices.push_back(http_response->body);", "    slices.emplace_back(http_response->body);")
N("D19", FS, "  bytes_sent_acc_ += bytes_sent;\n  bytes_received_acc_ += bytes_received;", "  bytes_received_acc_ += bytes_received;\n  bytes_sent_acc_ += bytes_sent;")
N("D19", FS, "  if (slices_.empty()) {\n    // Eagerly", "  if (slices_.size() == 0) {\n    // Eagerly")

# D20 secure aggregation runner
SRC = "fcp/client/secagg_runner.cc"
M("D20", SRC, "if (modulus <= 1 || modulus > secagg", "if (modulus < 1 || modulus > secagg")
M("D20", SRC, "if (modulus <= 1 || modulus > secagg::SecAggVector::kMaxModulus) {", "if (modulus <= 1) {")
M("D20", SRC, "if (value >= modulus) {", "if (value > modulus) {")
M("D20", SRC, "      if (flattened_length != data_length)\n        return", "      if (flattened_length > data_length)\n        return")
M("D20", SRC, "      if (vector.values.empty())\n        return absl::InternalError(\n            absl::StrCat(\"Zero sized vector found: \", k));\n", "")
M("D20", SRC, "      if (vector.values.empty())\n        return absl::InternalError(\n            absl::StrCat(\"Zero sized vector found: \", k));\n", "      if (vector.values.empty()) continue;\n")
M("D20", SRC, "      input_map->try_emplace(\n", "      if (modulus > 2) input_map->try_emplace(\n")
M("D20", SRC, "absl::MakeConstSpan(vector.values.data(), data_length)", "absl::MakeConstSpan(vector.values.data(), 1)")
M("D20", SRC, "      expected_number_of_clients_,\n      minimum_surviving_clients_for_reconstruction_,\n      std::move(input", "      minimum_surviving_clients_for_reconstruction_,\n      expected_number_of_clients_,\n      std::move(input")
M("D20", SRC, "          if (secagg_client_->IsAborted()) {", "          if (secagg_client_->IsAborted() && secagg_client_->ErrorMessage().ok()) {")
M("D20", SRC, "            return absl::CancelledError(\"SecAgg aborted: \" + error_message);", "            return absl::OkStatus();")
M("D20", SRC, "          if (!result.ok()) {\n            this->secagg_event_publisher_.PublishError();\n            return absl::Status(result.status().code(),\n                                absl::StrCat(\"Error receiving SecAgg message: \",\n                                             result.status().message()));\n          }", "          if (!result.ok()) {\n            this->secagg_event_publisher_.PublishError();\n            break;\n          }")
M("D20", SRC, "        AbortInternal();\n", "")
M("D20", SRC, "        this->protocol_delegate_->Abort();\n", "")
M("D20", SRC, "  return absl::OkStatus();\n}\n\nvoid SecAggRunnerImpl::AbortInternal", "  return absl::OkStatus();\n}\n\nvoid SecAggRunnerImpl::AbortInternal", "  FCP_RETURN_IF_ERROR(interruptible_runner_.Run(", "  absl::Status ignored = (interruptible_runner_.Run(")
N("D20", SRC, "if (modulus <= 1 || modulus > secagg", "if (modulus < 2 || modulus > secagg")
N("D20", SRC, "      for (const auto& value : vector.values) {\n        if (value >= modulus) {", "      for (const auto& value : vector.values) {\n        if (!(value < modulus)) {")
N("D20", SRC, "      input_vector_specification.emplace_back(k, flattened_length, modulus);", "      input_vector_specification.emplace_back(k, data_length, modulus);")
N("D20", SRC, "    if (std::holds_alternative<QuantizedTensor>(v)) {", "    if (!std::holds_alternative<QuantizedTensor>(v)) continue;\n    {")
