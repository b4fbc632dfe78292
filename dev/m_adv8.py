from mutate import M, N
FS = "fcp/client/federated_select.cc"
SR = "fcp/client/secagg_runner.cc"

# ---- D19
M("D19", FS, "  for (int32_t slice_key : slices_selector.keys()) {\n", "  for (uint8_t slice_key : slices_selector.keys()) {\n")
M("D19", FS, "  for (int32_t slice_key : slices_selector.keys()) {\n", "  int32_t last_key = -1;\n  for (int32_t slice_key : slices_selector.keys()) {\n    if (slice_key == last_key) continue;\n    last_key = slice_key;\n")
M("D19", FS, "  for (int32_t slice_key : slices_selector.keys()) {\n", "  std::set<int32_t> wanted(slices_selector.keys().begin(),\n                           slices_selector.keys().end());\n  for (int32_t slice_key : wanted) {\n")
M("D19", FS, "absl::StrCat(slice_key)}});", "absl::StrCat(absl::Hex(slice_key))}});")
M("D19", FS, "{{\"{served_at_id}\", slices_selector.served_at_id()},\n                       {\"{key_base10}\", absl::StrCat(slice_key)}});", "{{\"{served_at_id}\", absl::StrCat(slice_key)},\n                       {\"{key_base10}\", slices_selector.served_at_id()}});")
M("D19", FS, "    slices.push_back(http_response->body);", "    if (!http_response->body.empty()) slices.push_back(http_response->body);")
M("D19", FS, "    slices.push_back(http_response->body);", "    slices.push_back(http_response->body.Subcord(0, 1 << 20));")
M("D19", FS, "    if (!http_response.ok()) {\n      return absl::Unav", "    if (!http_response.ok() && !absl::IsNotFound(http_response.status())) {\n      return absl::Unav")
M("D19", FS, "    if (!http_response.ok()) {\n      return absl::Unav", "    if (!http_response.ok()) {\n      if (!slices.empty()) break;\n      return absl::Unav")
M("D19", FS, "  bytes_sent_acc_ += bytes_sent;\n  bytes_received_acc_ += bytes_received;\n  if (!slices.ok()) {", "  bytes_sent_acc_ += bytes_sent;\n  if (slices.ok()) bytes_received_acc_ += bytes_received;\n  if (!slices.ok()) {")
M("D19", FS, "  bytes_sent_acc_ += bytes_sent;\n  bytes_received_acc_ += bytes_received;\n", "  bytes_sent_acc_ += bytes_sent;\n  bytes_received_acc_ = bytes_received;\n")
M("D19", FS, "  bytes_sent_acc_ += bytes_sent;\n  bytes_received_acc_ += bytes_received;\n", "  bytes_sent_acc_ += bytes_received;\n  bytes_received_acc_ += bytes_sent;\n")
M("D19", FS, "      *scratch_filename, std::move(*slices));", "      *scratch_filename, std::deque<absl::Cord>(slices->begin(), slices->begin() + std::min<size_t>(slices->size(), 64)));")
M("D19", FS, "      *scratch_filename, std::move(*slices));", "      *scratch_filename, std::deque<absl::Cord>(slices->rbegin(), slices->rend()));")
M("D19", FS, "    std::filesystem::remove(*scratch_filename);\n", "    if (absl::IsUnavailable(slices.status()))\n      std::filesystem::remove(*scratch_filename);\n")
M("D19", FS, "    std::filesystem::remove(*scratch_filename);\n", "    std::filesystem::remove(uri_template_);\n")
M("D19", FS, "  if (uri_template.empty()) {\n", "  if (uri_template.size() == 1) {\n")
M("D19", FS, "  if (slices_.empty()) {\n", "  if (slices_.size() <= 1) {\n")
M("D19", FS, "  if (slices_.empty()) {\n", "  if (slices_.empty() || slices_.front().empty()) {\n")
M("D19", FS, "  absl::Cord& slice_data = slices_.front();\n", "  absl::Cord& slice_data = slices_.back();\n")
M("D19", FS, "  slices_.pop_front();\n", "  slices_.pop_back();\n")
M("D19", FS, "  slices_.pop_front();\n", "  slices_.pop_front();\n  if (!slices_.empty() && slices_.front().empty()) slices_.pop_front();\n")
M("D19", FS, "                                 std::ios_base::out | std::ios_base::trunc);", "                                 std::ios_base::out | std::ios_base::app);")
M("D19", FS, "                                 std::ios_base::out | std::ios_base::trunc);", "                                 std::ios_base::out | std::ios_base::in);")
M("D19", FS, "    if (!(checkpoint_stream << chunk).good()) {", "    if (!(checkpoint_stream << chunk.data()).good()) {")
M("D19", FS, "    if (!(checkpoint_stream << chunk).good()) {", "    if (chunk.size() < 2) continue;\n    if (!(checkpoint_stream << chunk).good()) {")
M("D19", FS, "    if (!(checkpoint_stream << chunk).good()) {", "    if (!(checkpoint_stream << chunk.substr(0, 4096)).good()) {")
M("D19", FS, "  for (absl::string_view chunk : slice_data.Chunks()) {\n    if (!(checkpoint_stream << chunk).good()) {\n      return absl::InternalError(\"Failed to write slice to file\");\n    }\n  }\n",
  "  if (!(checkpoint_stream << *slice_data.chunk_begin()).good()) {\n    return absl::InternalError(\"Failed to write slice to file\");\n  }\n")
M("D19", FS, "    if (!(checkpoint_stream << chunk).good()) {\n      return absl::InternalError", "    if (!(checkpoint_stream << chunk).good()) {\n      slices_.pop_front();\n      return absl::InternalError")
M("D19", FS, "    // Eagerly delete the scratch file, since we won't need it anymore.\n    std::filesystem::remove(scratch_filename_);\n", "    // Eagerly delete the scratch file, since we won't need it anymore.\n    if (std::filesystem::is_empty(scratch_filename_))\n      std::filesystem::remove(scratch_filename_);\n")
M("D19", FS, "  slices_.clear();\n  std::filesystem::remove(scratch_filename_);", "  if (slices_.empty()) return;\n  slices_.clear();\n  std::filesystem::remove(scratch_filename_);")
M("D19", FS, "  slices_.clear();\n  std::filesystem::remove(scratch_filename_);", "  slices_.clear();\n  std::filesystem::remove(scratch_filename_ + \".ckp\");")
M("D19", FS, "  slices_.clear();\n  std::filesystem::remove(scratch_filename_);", "  slices_.clear();\n  std::filesystem::resize_file(scratch_filename_, 0);")
N("D19", FS, "  slices_.clear();\n  std::filesystem::remove(scratch_filename_);", "  std::error_code ignored;\n  std::filesystem::remove(scratch_filename_, ignored);\n  slices_.clear();")
N("D19", FS, "  for (absl::string_view chunk : slice_data.Chunks()) {\n    if (!(checkpoint_stream << chunk).good()) {\n", "  for (absl::string_view chunk : slice_data.Chunks()) {\n    checkpoint_stream.write(chunk.data(), chunk.size());\n    if (!checkpoint_stream) {\n")
N("D19", FS, "    std::string slice_uri = absl", "    const std::string slice_uri = absl")
N("D19", FS, "  absl::Cord& slice_data = slices_.front();\n", "  const absl::Cord slice_data = slices_.front();\n")
N("D19", FS, "  for (absl::string_view chunk : slice_data.Chunks()) {\n    if (!(checkpoint_stream << chunk).good()) {\n      return absl::InternalError(\"Failed to write slice to file\");\n    }\n  }\n",
  "  checkpoint_stream << std::string(slice_data);\n  if (!checkpoint_stream.good()) {\n    return absl::InternalError(\"Failed to write slice to file\");\n  }\n")
N("D19", FS, "  for (absl::string_view chunk : slice_data.Chunks()) {\n    if (!(checkpoint_stream << chunk).good()) {\n      return absl::InternalError(\"Failed to write slice to file\");\n    }\n  }\n",
  "  for (absl::string_view chunk : slice_data.Chunks()) {\n    checkpoint_stream << chunk;\n  }\n")
N("D19", FS, "    resources.push_back(\n        UriOrInlineData::CreateUri(slice_uri, \"\", absl::ZeroDuration()));\n", "    UriOrInlineData resource =\n        UriOrInlineData::CreateUri(slice_uri, \"\", absl::ZeroDuration());\n    resources.push_back(std::move(resource));\n")
N("D19", FS, "  for (int32_t slice_key : slices_selector.keys()) {\n", "  resources.reserve(slices_selector.keys_size());\n  for (int i = 0; i < slices_selector.keys_size(); ++i) {\n    int32_t slice_key = slices_selector.keys(i);\n")
N("D19", FS, "    slices.push_back(http_response->body);", "    absl::Cord body = http_response->body;\n    slices.push_back(std::move(body));")

# ---- D20
M("D20", SR, "secagg::SecAggVector::kMaxModulus) {", "2 * secagg::SecAggVector::kMaxModulus) {")
M("D20", SR, "if (modulus <= 1 || modulus > secagg::SecAggVector::kMaxModulus) {", "if (modulus <= 1 && modulus > secagg::SecAggVector::kMaxModulus) {")
M("D20", SR, "      int64_t flattened_length = 1;\n", "      int32_t flattened_length = 1;\n")
M("D20", SR, "      for (const auto& size : vector.dimensions) flattened_length *= size;\n", "      for (const auto& size : vector.dimensions)\n        if (size > 0) flattened_length *= size;\n")
M("D20", SR, "        if (value >= modulus) {", "        if (static_cast<uint32_t>(value) >= modulus) {")
M("D20", SR, "        if (value >= modulus) {", "        if (value >= modulus && modulus < (1ULL << 32)) {")
M("D20", SR, "      for (const auto& value : vector.values) {\n", "      for (const auto& value :\n           absl::MakeConstSpan(vector.values).subspan(0, 1)) {\n")
M("D20", SR, "      for (const auto& value : vector.values) {\n", "      for (size_t i = 1; i < vector.values.size(); ++i) {\n        const auto& value = vector.values[i];\n")
M("D20", SR, "        if (value >= modulus) {\n", "        if (value == 0) break;\n        if (value >= modulus) {\n")
M("D20", SR, "GetModulus(k));\n", "GetModulus(results.begin()->first));\n")
M("D20", SR, "emplace_back(k, flattened_length, modulus);", "emplace_back(k, flattened_length,\n                                              secagg::SecAggVector::kMaxModulus);")
M("D20", SR, "          k, absl::MakeConstSpan(vector.values.data(), data_length), modulus);", "          k, absl::MakeConstSpan(vector.values.data(), data_length), modulus * 2);")
M("D20", SR, "          k, absl::MakeConstSpan(vector.values.data(), data_length), modulus);", "          k, absl::MakeConstSpan(vector.values.data(), vector.dimensions[0]), modulus);")
M("D20", SR, "          k, absl::MakeConstSpan(vector.values.data(), data_length), modulus);", "          \"tensor/\" + k, absl::MakeConstSpan(vector.values.data(), data_length), modulus);")
M("D20", SR, "    if (std::holds_alternative<QuantizedTensor>(v)) {\n", "    if (std::holds_alternative<QuantizedTensor>(v) && k[0] != '_') {\n")
M("D20", SR, "    if (std::holds_alternative<QuantizedTensor>(v)) {\n", "    if (std::holds_alternative<QuantizedTensor>(v)) {\n      if (std::get<QuantizedTensor>(v).values.empty()) continue;\n")
M("D20", SR, "        return absl::InternalError(\n            absl::StrCat(\"Zero sized vector found: \", k));\n", "        continue;\n")
M("D20", SR, "        FCP_RETURN_IF_ERROR(secagg_client_->Start());\n", "        (void)secagg_client_->Start();\n")
M("D20", SR, "        FCP_RETURN_IF_ERROR(secagg_client_->SetInput(std::move(input_map)));\n", "        (void)secagg_client_->SetInput(std::move(input_map));\n")
M("D20", SR, "        while (!secagg_client_->IsCompletedSuccessfully()) {\n", "        while (!secagg_client_->IsCompletedSuccessfully() &&\n               !secagg_client_->IsAborted()) {\n")
M("D20", SR, "        while (!secagg_client_->IsCompletedSuccessfully()) {\n", "        for (int i = 0; i < 4; ++i) {\n")
M("D20", SR, "          if (!server_to_client_wrapper_message.ok()) {\n", "          if (absl::IsUnavailable(server_to_client_wrapper_message.status()))\n            break;\n          if (!server_to_client_wrapper_message.ok()) {\n")
M("D20", SR, "            return absl::Status(result.status().code(),\n                                absl::StrCat(\"Error receiving", "            if (absl::IsFailedPrecondition(result.status())) continue;\n            return absl::Status(result.status().code(),\n                                absl::StrCat(\"Error receiving")
M("D20", SR, "          auto result =\n              secagg", "          if (server_to_client_wrapper_message->has_early_success()) continue;\n          auto result =\n              secagg")
M("D20", SR, "          auto result =\n              secagg", "          if (server_to_client_wrapper_message->has_early_success()) break;\n          auto result =\n              secagg")
M("D20", SR, "  FCP_RETURN_IF_ERROR(interruptible_runner_.Run(\n", "  (void)(interruptible_runner_.Run(\n")
M("D20", SR, "        AbortInternal();\n        this->", "        if (!secagg_client_->IsAborted()) {\n          AbortInternal();\n          return;\n        }\n        this->")
M("D20", SR, "        this->protocol_delegate_->Abort();\n", "        if (secagg_client_->IsAborted()) this->protocol_delegate_->Abort();\n")
M("D20", SR, "  auto result = secagg_client_->Abort(abort_message);\n", "  absl::Status result = absl::OkStatus();\n  if (secagg_client_->IsCompletedSuccessfully())\n    result = secagg_client_->Abort(abort_message);\n")
M("D20", SR, "return absl::CancelledError(\"SecAgg aborted: \" + error_message);", "return absl::Status(secagg_client_->ErrorMessage().status().code(), error_message);")
N("D20", SR, "      int64_t flattened_length = 1;\n      for (const auto& size : vector.dimensions) flattened_length *= size;\n", "      int64_t flattened_length = std::accumulate(\n          vector.dimensions.begin(), vector.dimensions.end(), int64_t{1},\n          std::multiplies<int64_t>());\n")
N("D20", SR, "      for (const auto& value : vector.values) {\n        if (value >= modulus) {", "      for (size_t i = 0; i < vector.values.size(); ++i) {\n        const auto value = vector.values[i];\n        if (value >= modulus) {")
N("D20", SR, "      if (modulus <= 1 || modulus > secagg::SecAggVector::kMaxModulus) {\n        return absl::InternalError(\n            absl::StrCat(\"Invalid SecAgg modulus configuration: \", modulus));\n      }\n",
  "      const bool modulus_ok =\n          modulus > 1 && modulus <= secagg::SecAggVector::kMaxModulus;\n      if (!modulus_ok) {\n        return absl::InternalError(\n            absl::StrCat(\"Invalid SecAgg modulus configuration: \", modulus));\n      }\n")
N("D20", SR, "absl::MakeConstSpan(vector.values.data(), data_length)", "absl::MakeConstSpan(vector.values)")
N("D20", SR, "        while (!secagg_client_->IsCompletedSuccessfully()) {\n", "        while (true) {\n          if (secagg_client_->IsCompletedSuccessfully()) break;\n")
N("D20", SR, "          auto result =\n              secagg_client_->ReceiveMessage(*server_to_client_wrapper_message);\n", "          const secagg::ServerToClientWrapperMessage& message =\n              *server_to_client_wrapper_message;\n          auto result = secagg_client_->ReceiveMessage(message);\n")
N("D20", SR, "        AbortInternal();\n        this->protocol_delegate_->Abort();\n", "        protocol_delegate_->Abort();\n        AbortInternal();\n")
N("D20", SR, "      if (flattened_length != data_length)\n        return", "      if (!(flattened_length == static_cast<int64_t>(data_length)))\n        return")

# ---- found by planting
CL = "fcp/base/clock.cc"
PL = "fcp/confidentialcompute/client_payload.cc"
OLD = '''    WaiterMap::iterator it;
    if ((it = pending_waiters_.find(deadline)) != pending_waiters_.end()) {
      it->second.push_back(waiter);
    } else {
      pending_waiters_.insert(std::make_pair(deadline, WaiterList{waiter}));
    }
'''
M("B05", CL, OLD, "    pending_waiters_.insert(std::make_pair(deadline, WaiterList{waiter}));\n")
M("B05", CL, OLD, "    pending_waiters_.insert_or_assign(deadline, WaiterList{waiter});\n")
M("B05", CL, OLD, "    pending_waiters_.emplace(deadline, WaiterList{waiter});\n")
M("B05", CL, OLD, "    pending_waiters_[deadline] = WaiterList{waiter};\n")
N("B05", CL, OLD, "    pending_waiters_[deadline].push_back(waiter);\n")
N("B05", CL, OLD, "    auto [it, inserted] = pending_waiters_.try_emplace(deadline);\n    it->second.push_back(waiter);\n")
N("B05", CL, OLD, "    auto [it, inserted] = pending_waiters_.emplace(deadline, WaiterList{waiter});\n    if (!inserted) it->second.push_back(waiter);\n")
N("B05", CL, OLD, "    if (pending_waiters_.count(deadline) == 0) {\n      pending_waiters_.emplace(deadline, WaiterList{waiter});\n    } else {\n      pending_waiters_.at(deadline).push_back(waiter);\n    }\n")
M("C06", PL, "  if (serialized_payload_size >\n      encoded_data.size() - coded_in.CurrentPosition()) {\n", "  if (coded_in.CurrentPosition() + serialized_payload_size >\n      encoded_data.size()) {\n")
N("C06", PL, "  if (serialized_payload_size >\n      encoded_data.size() - coded_in.CurrentPosition()) {\n", "  if (static_cast<uint64_t>(coded_in.CurrentPosition()) +\n          serialized_payload_size >\n      encoded_data.size()) {\n")
N("C06", PL, "  if (serialized_payload_size >\n      encoded_data.size() - coded_in.CurrentPosition()) {\n", "  const size_t remaining =\n      encoded_data.size() - coded_in.CurrentPosition();\n  if (remaining < serialized_payload_size) {\n")
