S = "fcp/secagg/server/"
ST = S + "secagg_server_state.cc"
SV = S + "secagg_server.cc"
R0 = S + "secagg_server_r0_advertise_keys_state.cc"
R1 = S + "secagg_server_r1_share_keys_state.cc"
R2 = S + "secagg_server_r2_masked_input_coll_state.cc"
R3 = S + "secagg_server_r3_unmasking_state.cc"
PR = S + "secagg_server_prng_running_state.cc"
CO = S + "secagg_server_completed_state.cc"
AB = S + "secagg_server_aborted_state.cc"
PI = S + "secagg_server_protocol_impl.cc"
AE = S + "aes/aes_secagg_server_protocol_impl.cc"

# S07
M("S07", SV, "  FCP_RETURN_IF_ERROR(ErrorIfAbortedOrCompleted());\n  FCP_RETURN_IF_ERROR(ValidateClientId(client_id));\n  FCP_RETURN_IF_ERROR(state_", "  FCP_RETURN_IF_ERROR(ValidateClientId(client_id));\n  FCP_RETURN_IF_ERROR(state_")
M("S07", SV, "  FCP_RETURN_IF_ERROR(ValidateClientId(client_id));\n  FCP_RETURN_IF_ERROR(state_", "  FCP_RETURN_IF_ERROR(state_")
M("S07", SV, "client_id >= state_->total", "client_id > state_->total")
M("S07", SV, "  if (state_->IsCompletedSuccessfully()) {\n    return FCP_STATUS(FAILED", "  if (state_->IsCompletedSuccessfully() && state_->NeedsToAbort()) {\n    return FCP_STATUS(FAILED")
M("S07", SV, "  FCP_RETURN_IF_ERROR(ErrorIfAbortedOrCompleted());\n  TransitionState(state_->Abort(formatted", "  TransitionState(state_->Abort(formatted")
M("S07", SV, "  state_->EnterState();\n", "")
M("S07", AB, "IsAborted() const { return true; }", "IsAborted() const { return error_message_.empty(); }")
M("S07", CO, "IsCompletedSuccessfully() const {\n  return true;", "IsCompletedSuccessfully() const {\n  return !NeedsToAbort();")
M("S07", ST, "  if (IsClientDead(client_id)) {\n    return;  // without sending a message\n  }\n", "")
M("S07", ST, "  if (IsClientDead(client_id)) {\n    return;  // without sending a message\n  }\n", "  if (IsClientDead(client_id) && !notify) {\n    return;  // without sending a message\n  }\n")
# S08
M("S08", R0, "if (client_status(client_id) != ClientStatus::READY_TO_START) {", "if (IsClientDead(client_id)) {")
M("S08", R1, "if (client_status(client_id) != ClientStatus::ADVERTISE_KEYS_RECEIVED) {", "if (IsClientDead(client_id)) {")
M("S08", R2, "if (client_status(client_id) != ClientStatus::SHARE_KEYS_RECEIVED) {", "if (client_status(client_id) != ClientStatus::SHARE_KEYS_RECEIVED && client_status(client_id) != ClientStatus::MASKED_INPUT_RESPONSE_RECEIVED) {")
M("S08", R3, "  set_client_status(client_id, ClientStatus::UNMASKING_RESPONSE_RECEIVED);\n", "")
M("S08", R0, "  number_of_clients_ready_for_next_round_++;\n", "  number_of_clients_ready_for_next_round_ += 2;\n")
M("S08", R1, '''                ClientDropReason::INVALID_SHARE_KEYS_RESPONSE);
    return FCP_STATUS(OK);
  }
''', '''                ClientDropReason::INVALID_SHARE_KEYS_RESPONSE);
  }
''')
M("S08", R2, "    number_of_clients_ready_for_next_round_--;\n", "")
M("S08", R0, "    number_of_clients_ready_for_next_round_--;\n", "")
M("S12", R2, "    clients_aborted_at_round_2_.push_back(client_id);\n", "")
M("S08", R2, "ClientStatus::DEAD_AFTER_SHARE_KEYS_RECEIVED);", "ClientStatus::DEAD_AFTER_MASKED_INPUT_RESPONSE_RECEIVED);")
M("S08", R1, "    impl()->EraseShareKeysForClient(client_id);\n", "")
M("S08", R0, "    impl()->ErasePublicKeysForClient(client_id);\n", "")
M("S08", R1, "  if (NumberOfAliveClients() < minimum_number_of_clients_to_proceed()) {\n    needs_to_abort_ = true;\n  }", "")
M("S08", R2, "  if (NumberOfAliveClients() < minimum_number_of_clients_to_proceed()) {", "  if (NumberOfAliveClients() + 1 < minimum_number_of_clients_to_proceed()) {")
M("S08", R3, "if (NumberOfPendingClients() + number_of_messages_received_in_this_round_ <", "if (NumberOfPendingClients() + number_of_messages_received_in_this_round_ + 1 <")
# S09
M("S09", R0, "return (number_of_clients_ready_for_next_round_ >=\n          minimum_number_of_clients_to_proceed())", "return (number_of_clients_ready_for_next_round_ + 1 >=\n          minimum_number_of_clients_to_proceed())")
M("S09", R2, "return is_idle && (", "return (")
M("S09", R2, "if (!ReadyForNextRound()) {\n    return FCP_STATUS(UNAVAILABLE);\n  }", "")
M("S09", R3, "return (number_of_messages_received_in_this_round_ >=\n", "return (number_of_messages_received_in_this_round_ + number_of_clients_terminated_without_unmasking_ >=\n")
M("S09", R1, "  if (needs_to_abort_) {\n    std::string", "  if (needs_to_abort_ && NumberOfAliveClients() == 0) {\n    std::string")
M("S09", PR, "if (completion_status_.value().ok()) {", "if (completion_status_.value().ok() || NumberOfAliveClients() > 0) {")
M("S09", R1, '''    if (!IsClientDead(i) &&
        client_status(i) != ClientStatus::SHARE_KEYS_RECEIVED) {''', '''    if (!IsClientDead(i) && NeedsToAbort() &&
        client_status(i) != ClientStatus::SHARE_KEYS_RECEIVED) {''')
M("S09", R2, "  for (int i = 0; i < total_number_of_clients(); ++i) {\n    if (!IsClientDead(i) &&", "  for (int i = 1; i < total_number_of_clients(); ++i) {\n    if (!IsClientDead(i) &&")
M("S09", SV, "std::max(minimum_number_of_clients_to_proceed,\n", "std::min(minimum_number_of_clients_to_proceed,\n")
# S10
M("S10", PI, "      pair_of_public_keys.enc_pk().size() !=\n          pair_of_public_keys.noise_pk().size()) {", "      pair_of_public_keys.enc_pk().empty()) {")
M("S10", PI, '''  if (share_keys_response.encrypted_key_shares().size() !=
      number_of_neighbors()) {''', '''  if (share_keys_response.encrypted_key_shares().size() >
      number_of_neighbors()) {''')
M("S10", PI, "if (i_is_empty && !i_should_be_empty) {", "if (i_is_empty && !i_should_be_empty && i == 0) {")
M("S10", PI, '''      case ClientMask::kPairwiseMask:
        if (unmasking_response.noise_or_prf_key_shares(i).oneof_shares_case() !=
            NoiseOrPrfKeyShare::OneofSharesCase::kNoiseSkShare) {''', '''      case ClientMask::kPairwiseMask:
        if (unmasking_response.noise_or_prf_key_shares(i).oneof_shares_case() ==
            NoiseOrPrfKeyShare::OneofSharesCase::ONEOF_SHARES_NOT_SET) {''')
M("S10", PI, '''  if (unmasking_response.noise_or_prf_key_shares_size() !=
      number_of_neighbors()) {''', '''  if (unmasking_response.noise_or_prf_key_shares_size() >
      number_of_neighbors()) {''')
M("S10", AE, "  if (masked_input_response->vectors().size() != input_vector_specs().size()) {", "  if (masked_input_response->vectors().size() < input_vector_specs().size()) {")
M("S10", AE, "    if (masked_vector->second.encoded_vector().size() !=\n", "    if (masked_vector->second.encoded_vector().size() <\n")
M("S10", AE, "    masked_input_->Add(*checked_masked_vectors);\n", "")
M("S10", AE, "    if (is_queue_empty) {\n", "    if (!is_queue_empty) {\n")
M("S10", AE, "      masked_input_queue_.emplace_back(std::move(checked_masked_vectors));\n", "")
M("S10", AE, "  for (int i = 1; i < vector_of_maps.size(); ++i) {", "  for (int i = 0; i < vector_of_maps.size(); ++i) {")
M("S10", AE, "  for (int i = 1; i < vector_of_maps.size(); ++i) {", "  for (int i = 2; i < vector_of_maps.size(); ++i) {")
M("S10", AE, "    sum_of_maps.Add(partial_sum);\n", "")
# S12
M("S12", ST, "    if (!IsClientDead(i)) {\n      if (metrics()) {", "    {\n      if (metrics()) {")
M("S12", R0, "    if (!IsClientDead(i)) {\n      impl()->Prepare", "    {\n      impl()->Prepare")
M("S12", R2, "    if (IsClientDead(i)) {\n      continue;\n    }\n    ServerToClient", "    ServerToClient")
M("S12", R1, "    } else if (client_status(i) == ClientStatus::SHARE_KEYS_RECEIVED) {", "    } else {")
M("S12", PI, "    encrypted_shares_[neighbor_id][index_in_neighbor] =\n", "    encrypted_shares_[client_id][index_in_neighbor] =\n")
M("S12", PI, "encrypted_shares_[client_id][j]", "encrypted_shares_[j][client_id]")
N("S12", PI, "  request->clear_encrypted_key_shares();\n", "")
M("S12", PI, "  request->clear_pairs_of_public_keys();\n", "")
M("S12", R2, "request->add_dead_3_client_ids(neighbor_index.value() + 1);", "request->add_dead_3_client_ids(neighbor_index.value());")
M("S12", R2, "auto neighbor_index = GetNeighborIndex(i, aborted_client);", "auto neighbor_index = GetNeighborIndex(aborted_client, i);")
M("S12", PI, "        pairs_of_public_keys_[secret_sharing_graph()->GetNeighbor(client_id,\n                                                                  j)];", "        pairs_of_public_keys_[j];")
# S13
M("S13", ST, '''  return FCP_STATUS(UNAVAILABLE)
         << "Result requested, but server is in state " << StateName();''', '''  return impl()->TakeResult();''')
M("S13", PI, '  FCP_CHECK(!result_) << "Result can\'t be set twice";\n', "")
M("S13", PI, "  return std::move(result_);", "  return std::make_unique<SecAggVectorMap>(*result_);")
M("S13", CO, '''  if (!result) {
    return FCP_STATUS(UNAVAILABLE)
           << "Result is uninitialized or requested more than once";
  }
''', "")
M("S13", PR, "    completion_status_ = initialize_result.status();\n    return;", "    completion_status_ = initialize_result.status();")
M("S13", PR, "    completion_status_ = initialize_result.status();\n    return;", "    completion_status_ = absl::OkStatus();\n    return;")
M("S13", PR, "    completion_status_ = final_status;\n", "    completion_status_ = absl::OkStatus();\n    (void)final_status;\n")
M("S13", PI, '''      return ::absl::InvalidArgumentError(
          "Unable to reconstruct aborted client's private key from shares");''', '''      continue;''')
M("S13", PI, '''        return ::absl::InvalidArgumentError(
            "Invalid public key from client detected");''', '''        continue;''')
# S06
M("S06", PI, "if (IsOutgoingNeighbor(i, item.first)) {", "if (!IsOutgoingNeighbor(i, item.first)) {")
M("S06", PI, "work_items.prng_keys_to_subtract.push_back(it->second);", "work_items.prng_keys_to_add.push_back(it->second);")
M("S06", PI, "        work_items.prng_keys_to_subtract.push_back(shared_key.value());", "        work_items.prng_keys_to_add.push_back(shared_key.value());")
M("S06", PI, "      if (!AreNeighbors(i, item.first)) {\n        continue;\n      }\n", "")
M("S06", PI, '''        status != ClientStatus::DEAD_AFTER_UNMASKING_RESPONSE_RECEIVED &&
        status != ClientStatus::DEAD_AFTER_MASKED_INPUT_RESPONSE_RECEIVED) {''', '''        status != ClientStatus::DEAD_AFTER_UNMASKING_RESPONSE_RECEIVED) {''')
M("S06", PI, "    case ClientStatus::DEAD_AFTER_MASKED_INPUT_RESPONSE_RECEIVED:\n    case ClientStatus::UNMASKING", "    case ClientStatus::UNMASKING",
  PI, "      return ClientMask::kPairwiseMask;\n", "      return ClientMask::kPairwiseMask;\n    case ClientStatus::DEAD_AFTER_MASKED_INPUT_RESPONSE_RECEIVED:\n      return ClientMask::kNoMask;\n")
M("S06", AE, "      return UnpackedMapOfMasks(batch_prng_keys_to_add, std::vector<AesKey>(),\n", "      return UnpackedMapOfMasks(std::vector<AesKey>(), batch_prng_keys_to_add,\n")
M("S06", AE, "    accumulator->Schedule(generator);\n", "    if (generators.size() > 1) accumulator->Schedule(generator);\n")

# neutral
ALLS = "S06,S07,S08,S09,S10,S12,S13"
N(ALLS, R0, "  if (client_status(client_id) != ClientStatus::READY_TO_START) {", "  const bool unexpected = client_status(client_id) != ClientStatus::READY_TO_START;\n  if (unexpected) {")
N(ALLS, ST, '''  for (int i = 0; i < total_number_of_clients(); ++i) {
    if (!IsClientDead(i)) {
      if (metrics()) {''', '''  for (int i = 0; i < total_number_of_clients(); i++) {
    if (IsClientDead(i)) continue;
    {
      if (metrics()) {''')
N(ALLS, R2, '''  for (int i = 0; i < total_number_of_clients(); ++i) {
    if (IsClientDead(i)) {
      continue;
    }
    ServerToClientWrapperMessage message_to_i;
''', '''  const int total = total_number_of_clients();
  for (int i = 0; i < total; ++i) {
    if (IsClientDead(i)) {
      continue;
    }
    ServerToClientWrapperMessage message_to_i;
''')
N(ALLS, R1, "  return (number_of_clients_ready_for_next_round_ >=\n          minimum_number_of_clients_to_proceed()) ||\n         (needs_to_abort_);", "  if (needs_to_abort_) {\n    return true;\n  }\n  return !(number_of_clients_ready_for_next_round_ <\n           minimum_number_of_clients_to_proceed());")
N(ALLS, PI, "    if (i_is_empty && !i_should_be_empty) {\n", "    if (i_is_empty == i_should_be_empty) continue;\n    if (i_is_empty && !i_should_be_empty) {\n")
N(ALLS, PI, '''    auto mask_type = ClientMaskType(client_status(i));
    if (mask_type == ClientMask::kPairwiseMask) {
      pairwise_shamir_share_table_->emplace(i, number_of_neighbors());
    } else if (mask_type == ClientMask::kSelfMask) {
      self_shamir_share_table_->emplace(i, number_of_neighbors());
    }''', '''    switch (ClientMaskType(client_status(i))) {
      case ClientMask::kPairwiseMask:
        pairwise_shamir_share_table_->emplace(i, number_of_neighbors());
        break;
      case ClientMask::kSelfMask:
        self_shamir_share_table_->emplace(i, number_of_neighbors());
        break;
      default:
        break;
    }''')
N(ALLS, PI, '''      if (IsOutgoingNeighbor(i, item.first)) {
        work_items.prng_keys_to_add.push_back(shared_key.value());
      } else {
        work_items.prng_keys_to_subtract.push_back(shared_key.value());
      }''', '''      auto& target = IsOutgoingNeighbor(i, item.first)
                         ? work_items.prng_keys_to_add
                         : work_items.prng_keys_to_subtract;
      target.push_back(shared_key.value());''')
N(ALLS, R3, '''  set_client_status(client_id, ClientStatus::UNMASKING_RESPONSE_RECEIVED);
  number_of_messages_received_in_this_round_++;
  number_of_clients_ready_for_next_round_++;
''', '''  ++number_of_clients_ready_for_next_round_;
  number_of_messages_received_in_this_round_ += 1;
  set_client_status(client_id, ClientStatus::UNMASKING_RESPONSE_RECEIVED);
''')
N(ALLS, SV, '''  FCP_RETURN_IF_ERROR(state_->HandleMessage(client_id, std::move(message)));
  return ReadyForNextRound();''', '''  Status handled = state_->HandleMessage(client_id, std::move(message));
  if (!handled.ok()) {
    return handled;
  }
  return ReadyForNextRound();''')
N(ALLS, AE, '''    FCP_CHECK(masked_input_);
    masked_input_->Add(*checked_masked_vectors);
  }

  return''', '''    FCP_CHECK(masked_input_ != nullptr);
    SecAggUnpackedVectorMap& total = *masked_input_;
    total.Add(*checked_masked_vectors);
  }

  return''')
N(ALLS, AE, '''  for (int i = 1; i < vector_of_maps.size(); ++i) {
    partial_sum.Add(*vector_of_maps[i]);
  }''', '''  size_t next = 1;
  while (next < vector_of_maps.size()) {
    partial_sum.Add(*vector_of_maps[next]);
    ++next;
  }''')
N(ALLS, R1, '''    if (!IsClientDead(i) &&
        client_status(i) != ClientStatus::SHARE_KEYS_RECEIVED) {''', '''    const bool answered =
        client_status(i) == ClientStatus::SHARE_KEYS_RECEIVED;
    if (!answered && !IsClientDead(i)) {''',
  R1, "    } else if (client_status(i) == ClientStatus::SHARE_KEYS_RECEIVED) {", "    } else if (answered) {")
N(ALLS, PR, '''  if (completion_status_.value().ok()) {
    return std::make_unique<''', '''  const Status& outcome = *completion_status_;
  if (outcome.ok()) {
    return std::make_unique<''')
N(ALLS, R0, '''  impl()->ComputeSessionId();

  ServerToClientWrapperMessage message_to_client;
''', '''  ServerToClientWrapperMessage message_to_client;
  impl()->ComputeSessionId();
''')
