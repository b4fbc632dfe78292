SV = "fcp/secagg/server/"
R0 = SV + "secagg_server_r0_advertise_keys_state.cc"
R1 = SV + "secagg_server_r1_share_keys_state.cc"
R2 = SV + "secagg_server_r2_masked_input_coll_state.cc"
R3 = SV + "secagg_server_r3_unmasking_state.cc"
PR = SV + "secagg_server_prng_running_state.cc"
ST = SV + "secagg_server_state.cc"
STH = SV + "secagg_server_state.h"
PI = SV + "secagg_server_protocol_impl.cc"
PIH = SV + "secagg_server_protocol_impl.h"
AE = SV + "aes/aes_secagg_server_protocol_impl.cc"
SS = SV + "secagg_server.cc"
CO = SV + "secagg_server_completed_state.cc"
HG = SV + "secret_sharing_harary_graph.cc"
SC = SV + "secagg_scheduler.h"

# S06
M("S06", PI, '''        status != ClientStatus::DEAD_AFTER_UNMASKING_RESPONSE_RECEIVED &&
        status != ClientStatus::DEAD_AFTER_MASKED_INPUT_RESPONSE_RECEIVED) {''',
  '''        status != ClientStatus::DEAD_AFTER_UNMASKING_RESPONSE_RECEIVED) {''')
M("S06", PI, '''      if (!AreNeighbors(i, item.first)) {
        continue;
      }''', '''      if (!AreNeighbors(i, item.first) || IsOutgoingNeighbor(item.first, i)) {
        continue;
      }''')
M("S06", PI, '''      if (IsOutgoingNeighbor(i, item.first)) {''', '''      if (i < item.first) {''')
M("S06", PI, '''      if (IsOutgoingNeighbor(i, item.first)) {''', '''      if (IsOutgoingNeighbor(item.first, i)) {''')
M("S06", PI, '''item.second.ComputeSharedSecret(pairwise_public_keys(i));''', '''item.second.ComputeSharedSecret(pairwise_public_keys(item.first));''')
M("S06", PI, '''    work_items.prng_keys_to_subtract.push_back(it->second);

''', '''    if (shamir_reconstruction_result.aborted_client_key_agreements.count(i) == 0) {
      work_items.prng_keys_to_subtract.push_back(it->second);
    }
    if (shamir_reconstruction_result.aborted_client_key_agreements.empty()) break;

''')
M("S06", PI, '''    auto it = shamir_reconstruction_result.self_keys.find(i);
    FCP_CHECK(it != shamir_reconstruction_result.self_keys.end());
    work_items.prng_keys_to_subtract.push_back(it->second);
''', '''    auto it = shamir_reconstruction_result.self_keys.find(i);
    if (it == shamir_reconstruction_result.self_keys.end()) continue;
    work_items.prng_keys_to_subtract.push_back(it->second);
''')
M("S06", AE, '''       it < work_items.prng_keys_to_add.end(); it += kPrngBatchSize) {''', '''       it + kPrngBatchSize <= work_items.prng_keys_to_add.end(); it += kPrngBatchSize) {''')
M("S06", AE, '''       it < work_items.prng_keys_to_subtract.end(); it += kPrngBatchSize) {''', '''       it < work_items.prng_keys_to_subtract.end(); it += kPrngBatchSize + 1) {''')
M("S06", AE, '''              std::min(it + kPrngBatchSize, work_items.prng_keys_to_add.end()),''', '''              std::min(it + kPrngBatchSize - 1, work_items.prng_keys_to_add.end()),''')
M("S06", AE, '''          std::vector<AesKey>(), batch_prng_keys_to_subtract,
''', '''          batch_prng_keys_to_subtract, std::vector<AesKey>(),
''')
M("S06", AE, '''  for (const auto& generator : generators) {
    accumulator->Schedule(generator);
  }''', '''  for (size_t i = 1; i < generators.size(); ++i) {
    accumulator->Schedule(generators[i]);
  }''')
M("S06", HG, '''value_or(-1) >= degree_ / 2;''', '''value_or(degree_) >= degree_ / 2;''')
M("S06", HG, '''value_or(-1) >= degree_ / 2;''', '''value_or(-1) > degree_ / 2 + 1;''')
M("S06", HG, '''    return degree_ / 2 - mod_dist_before_renaming;
  }
  return degree_ / 2 + mod_dist_before_renaming;''', '''    return degree_ / 2 + mod_dist_before_renaming;
  }
  return degree_ / 2 + mod_dist_before_renaming;''')
M("S06", PI, '''      pairwise_shamir_share_table_->emplace(i, number_of_neighbors());''', '''      if (AreNeighbors(0, i)) pairwise_shamir_share_table_->emplace(i, number_of_neighbors());''')
M("S06", PI, '''    case ClientStatus::DEAD_AFTER_SHARE_KEYS_RECEIVED:
      return ClientMask::kPairwiseMask;''', '''    case ClientStatus::DEAD_AFTER_SHARE_KEYS_RECEIVED:
    case ClientStatus::DEAD_AFTER_ADVERTISE_KEYS_RECEIVED:
      return ClientMask::kPairwiseMask;''', PI, '''    case ClientStatus::ADVERTISE_KEYS_RECEIVED:
    case ClientStatus::DEAD_AFTER_ADVERTISE_KEYS_RECEIVED:
    default:''', '''    case ClientStatus::ADVERTISE_KEYS_RECEIVED:
    default:''')

# S07
M("S07", SS, '''  if (client_id >= state_->total_number_of_clients()) {''', '''  if (client_id > state_->total_number_of_clients()) {''')
M("S07", SS, '''  if (client_id >= state_->total_number_of_clients()) {''', '''  if (static_cast<int32_t>(client_id) >= static_cast<int32_t>(state_->total_number_of_clients())) {''')
M("S07", SS, '''  FCP_RETURN_IF_ERROR(ErrorIfAbortedOrCompleted());
  TransitionState(state_->Abort(formatted_reason, outcome));''', '''  if (outcome != SecAggServerOutcome::UNHANDLED_ERROR) {
    FCP_RETURN_IF_ERROR(ErrorIfAbortedOrCompleted());
  }
  TransitionState(state_->Abort(formatted_reason, outcome));''')
M("S07", ST, '''  if (IsClientDead(client_id)) {
    return;  // without sending a message
  }

  HandleAbortClient(client_id, reason_code);''', '''  bool was_dead = IsClientDead(client_id);
  if (was_dead && !notify) {
    return;  // without sending a message
  }

  HandleAbortClient(client_id, reason_code);''')
M("S07", ST, '''    case ClientStatus::DEAD_AFTER_MASKED_INPUT_RESPONSE_RECEIVED:
    case ClientStatus::DEAD_AFTER_UNMASKING_RESPONSE_RECEIVED:
      return true;''', '''    case ClientStatus::DEAD_AFTER_MASKED_INPUT_RESPONSE_RECEIVED:
      return true;''')
M("S07", SS, '''  if (state_->IsCompletedSuccessfully()) {
    return FCP_STATUS(FAILED_PRECONDITION)''', '''  if (state_->IsCompletedSuccessfully() &&
      state_->NumberOfPendingClients() == 0 && state_->NeedsToAbort()) {
    return FCP_STATUS(FAILED_PRECONDITION)''')
M("S07", CO, '''bool SecAggServerCompletedState::IsCompletedSuccessfully() const {
  return true;''', '''bool SecAggServerCompletedState::IsCompletedSuccessfully() const {
  return NumberOfIncludedInputs() > 0 && !NeedsToAbort() && impl_ == nullptr;''')

# S08
M("S08", R1, '''  if (client_status(client_id) != ClientStatus::ADVERTISE_KEYS_RECEIVED) {
    MessageReceived(message, false);''', '''  if (client_status(client_id) != ClientStatus::ADVERTISE_KEYS_RECEIVED &&
      client_status(client_id) != ClientStatus::SHARE_KEYS_RECEIVED) {
    MessageReceived(message, false);''')
M("S08", R1, '''  set_client_status(client_id, ClientStatus::SHARE_KEYS_RECEIVED);
  number_of_messages_received_in_this_round_++;
  number_of_clients_ready_for_next_round_++;''', '''  number_of_messages_received_in_this_round_++;
  number_of_clients_ready_for_next_round_++;
  if (number_of_clients_ready_for_next_round_ < minimum_number_of_clients_to_proceed()) {
    set_client_status(client_id, ClientStatus::SHARE_KEYS_RECEIVED);
  }''')
M("S08", R1, '''  if (client_status(client_id) == ClientStatus::SHARE_KEYS_RECEIVED) {
    number_of_clients_ready_for_next_round_--;
    // Remove that client's shared keys as if they were never sent. This will
    // avoid wasted computation on both client and server ends.
    impl()->EraseShareKeysForClient(client_id);
  }
  set_client_status(client_id,
                    ClientStatus::DEAD_AFTER_ADVERTISE_KEYS_RECEIVED);''', '''  set_client_status(client_id,
                    ClientStatus::DEAD_AFTER_ADVERTISE_KEYS_RECEIVED);
  if (client_status(client_id) == ClientStatus::SHARE_KEYS_RECEIVED) {
    number_of_clients_ready_for_next_round_--;
    // Remove that client's shared keys as if they were never sent. This will
    // avoid wasted computation on both client and server ends.
    impl()->EraseShareKeysForClient(client_id);
  }''')
M("S08", R2, '''    number_of_clients_failed_before_sending_masked_input_++;
    clients_aborted_at_round_2_.push_back(client_id);''', '''    if (reason_code != ClientDropReason::NO_MASKED_INPUT) {
      number_of_clients_failed_before_sending_masked_input_++;
    }
    clients_aborted_at_round_2_.push_back(client_id);''')
M("S08", R2, '''    set_client_status(client_id, ClientStatus::DEAD_AFTER_SHARE_KEYS_RECEIVED);
  }
  if (NumberOfAliveClients()''', '''    set_client_status(client_id, ClientStatus::DEAD_AFTER_SHARE_KEYS_RECEIVED);
    return;
  }
  if (NumberOfAliveClients()''')
M("S08", R2, '''  if (NumberOfAliveClients() < minimum_number_of_clients_to_proceed()) {''', '''  if (NumberOfAliveClients() + 1 < minimum_number_of_clients_to_proceed()) {''')
M("S08", R0, '''  if (NumberOfAliveClients() < minimum_number_of_clients_to_proceed()) {''', '''  if (NumberOfPendingClients() < 0) {''')
M("S08", R3, '''  if (NumberOfPendingClients() + number_of_messages_received_in_this_round_ <
      minimum_number_of_clients_to_proceed()) {''', '''  if (NumberOfAliveClients() + number_of_messages_received_in_this_round_ <
      minimum_number_of_clients_to_proceed()) {''')
M("S08", R3, '''  if (client_status(client_id) == ClientStatus::UNMASKING_RESPONSE_RECEIVED) {
    set_client_status''', '''  if (client_status(client_id) == ClientStatus::UNMASKING_RESPONSE_RECEIVED) {
    number_of_clients_failed_after_sending_masked_input_++;
    number_of_messages_received_in_this_round_--;
    set_client_status''')
M("S08", R3, '''  if (reason_code == ClientDropReason::EARLY_SUCCESS) {
    number_of_clients_terminated_without_unmasking_++;
  } else {''', '''  if (reason_code == ClientDropReason::EARLY_SUCCESS) {
    number_of_clients_terminated_without_unmasking_++;
  }
  {''')
M("S08", PI, '''  for (int i = 0; i < number_of_neighbors(); ++i) {
    int neighbor_id = GetNeighbor(client_id, i);
    int index_in_neighbor = GetNeighborIndexOrDie(neighbor_id, client_id);
    encrypted_shares_[neighbor_id][index_in_neighbor].clear();''', '''  for (int i = 0; i < number_of_neighbors(); ++i) {
    int neighbor_id = GetNeighbor(client_id, i);
    int index_in_neighbor = GetNeighborIndexOrDie(client_id, neighbor_id);
    encrypted_shares_[client_id][index_in_neighbor].clear();''')
M("S08", PI, '''  pairwise_public_keys_[client_id] = EcdhPublicKey();
  pairs_of_public_keys_[client_id] = PairOfPublicKeys();
}''', '''  pairwise_public_keys_[client_id] = EcdhPublicKey();
}''')
M("S08", ST, '''  HandleAbortClient(client_id, reason_code);
  if (notify) {''', '''  if (notify || log_metrics) {
    HandleAbortClient(client_id, reason_code);
  }
  if (notify) {''')
M("S08", R0, '''  if (!status.ok()) {
    AbortClient(client_id, std::string(status.message()),
                ClientDropReason::INVALID_PUBLIC_KEY);
    return FCP_STATUS(OK);
  }
''', '''  if (!status.ok()) {
    AbortClient(client_id, std::string(status.message()),
                ClientDropReason::INVALID_PUBLIC_KEY);
    number_of_messages_received_in_this_round_++;
    number_of_clients_ready_for_next_round_++;
    return FCP_STATUS(OK);
  }
''')

# S09
M("S09", R1, '''  return (number_of_clients_ready_for_next_round_ >=
          minimum_number_of_clients_to_proceed()) ||''', '''  return (number_of_messages_received_in_this_round_ >=
          minimum_number_of_clients_to_proceed()) ||''')
M("S09", R0, '''  return (number_of_clients_ready_for_next_round_ >=
          minimum_number_of_clients_to_proceed()) ||''', '''  return (number_of_clients_ready_for_next_round_ + 1 >
          minimum_number_of_clients_to_proceed() - 1) ||''')
M("S09", R2, '''  return is_idle && ((number_of_clients_ready_for_next_round_ >=
                      minimum_number_of_clients_to_proceed()) ||
                     (needs_to_abort_));''', '''  return (is_idle && number_of_clients_ready_for_next_round_ >=
                      minimum_number_of_clients_to_proceed()) ||
                     NumberOfPendingClients() == 0 || needs_to_abort_;''')
M("S09", R2, '''  bool is_idle = (!async_token_ || async_token_->IsIdle());''', '''  bool is_idle = (!async_token_ || needs_to_abort_ || NumberOfPendingClients() == 0 || async_token_->IsIdle());''')
M("S09", R3, '''    if (client_status(i) != ClientStatus::UNMASKING_RESPONSE_RECEIVED) {
      AbortClient(''', '''    if (client_status(i) == ClientStatus::UNMASKING_RESPONSE_RECEIVED) break;
    if (client_status(i) != ClientStatus::UNMASKING_RESPONSE_RECEIVED) {
      AbortClient(''')
M("S09", R2, '''  for (int i = 0; i < total_number_of_clients(); ++i) {
    if (!IsClientDead(i) &&
        client_status(i) != ClientStatus::MASKED_INPUT_RESPONSE_RECEIVED) {''', '''  for (int i = 0, pending = NumberOfPendingClients() - 1;
       i < total_number_of_clients() && pending > 0; ++i) {
    if (!IsClientDead(i) &&
        client_status(i) != ClientStatus::MASKED_INPUT_RESPONSE_RECEIVED) {''')
M("S09", SS, '''      std::max(minimum_number_of_clients_to_proceed,
               static_cast<int>(''', '''      std::min(minimum_number_of_clients_to_proceed,
               static_cast<int>(''')
M("S09", SS, '''    secret_sharing_graph =
        factory.CreateHararyGraph(total_number_of_clients, degree, threshold);''', '''    minimum_number_of_clients_to_proceed = threshold;
    secret_sharing_graph =
        factory.CreateHararyGraph(total_number_of_clients, degree, threshold);''')
M("S09", PR, '''  if (completion_status_.value().ok()) {''', '''  if (completion_status_.value().ok() ||
      NumberOfAliveClients() >= minimum_number_of_clients_to_proceed()) {''')
M("S09", PR, '''    completion_status_ = initialize_result.status();
    return;''', '''    completion_status_ = FCP_STATUS(OK);
    return;''')
M("S09", R1, '''  if (needs_to_abort_) {
    std::string error_string''', '''  if (needs_to_abort_ && number_of_clients_ready_for_next_round_ == 0) {
    std::string error_string''')
M("S09", SS, '''          std::move(secret_sharing_graph), minimum_number_of_clients_to_proceed,''', '''          std::move(secret_sharing_graph), std::min(minimum_number_of_clients_to_proceed, total_number_of_clients / 2 + 1),''')

# S10
M("S10", PI, '''  if ((pair_of_public_keys.enc_pk().size() != EcdhPublicKey::kSize &&
       (pair_of_public_keys.enc_pk().size() <
            EcdhPublicKey::kUncompressedSize ||''', '''  if ((pair_of_public_keys.enc_pk().size() > EcdhPublicKey::kSize &&
       (pair_of_public_keys.enc_pk().size() <
            EcdhPublicKey::kUncompressedSize ||''')
M("S10", PI, '''      pair_of_public_keys.enc_pk().size() !=
          pair_of_public_keys.noise_pk().size()) {''', '''      pair_of_public_keys.enc_pk().size() <
          pair_of_public_keys.noise_pk().size()) {''')
M("S10", PI, '''  if (share_keys_response.encrypted_key_shares().size() !=
      number_of_neighbors()) {''', '''  if (share_keys_response.encrypted_key_shares().size() <
      number_of_neighbors()) {''')
M("S10", PI, '''  for (uint32_t i = 0; i < number_of_neighbors(); ++i) {
    bool i_is_empty''', '''  for (uint32_t i = 1; i < number_of_neighbors(); ++i) {
    bool i_is_empty''')
M("S10", PI, '''    bool i_should_be_empty = (neighbor_id == client_id) ||
                             (client_status(neighbor_id) ==
                              ClientStatus::DEAD_BEFORE_SENDING_ANYTHING);''', '''    bool i_should_be_empty = (neighbor_id == client_id) ||
                             (client_status(client_id) ==
                              ClientStatus::DEAD_BEFORE_SENDING_ANYTHING);''')
M("S10", PI, '''    if (i_is_empty && !i_should_be_empty) {
      return ::absl::InvalidArgumentError(
          "Client omitted a key share that was expected.");
    }''', '''    if (i_is_empty && !i_should_be_empty && i == 0) {
      return ::absl::InvalidArgumentError(
          "Client omitted a key share that was expected.");
    }''')
M("S10", PI, '''    switch (ClientMaskType(client_status(ith_neighbor))) {''', '''    switch (ClientMaskType(client_status(client_id))) {''')
M("S10", PI, '''      case ClientMask::kNoMask:
      default:
        if (unmasking_response''', '''      case ClientMask::kNoMask:
        break;
      default:
        if (unmasking_response''')
M("S10", AE, '''  if (masked_input_response->vectors().size() != input_vector_specs().size()) {''', '''  if (masked_input_response->vectors().size() < input_vector_specs().size()) {''')
M("S10", AE, '''    if (masked_vector == input_vectors.end()) {
      return ::absl::InvalidArgumentError(
          "Masked input does not match input vector specification - wrong "
          "vector names.");
    }''', '''    if (masked_vector == input_vectors.end()) {
      masked_vector = input_vectors.begin();
    }''')
M("S10", AE, '''    if (masked_vector->second.encoded_vector().size() !=
        DivideRoundUp(vector_spec.length() * bit_width, 8)) {''', '''    if (masked_vector->second.encoded_vector().size() !=
        vector_spec.length() * bit_width / 8) {''')
M("S10", AE, '''    if (masked_vector->second.encoded_vector().size() !=
        DivideRoundUp(vector_spec.length() * bit_width, 8)) {''', '''    if (masked_vector->second.encoded_vector().size() !=
        DivideRoundUp(static_cast<uint16_t>(vector_spec.length() * bit_width), 8)) {''')
M("S10", AE, '''    int bit_width = SecAggVector::GetBitWidth(vector_spec.modulus());''', '''    int bit_width = SecAggVector::GetBitWidth(input_vector_specs()[0].modulus());''')
M("S10", AE, '''    // Sequential processing
    FCP_CHECK(masked_input_);
    masked_input_->Add(*checked_masked_vectors);''', '''    // Sequential processing
    if (masked_input_ && !checked_masked_vectors->empty()) {
      masked_input_->Add(*checked_masked_vectors);
      if (checked_masked_vectors->size() > 1) masked_input_->Add(*checked_masked_vectors);
    }''')
M("S10", AE, '''      is_queue_empty = masked_input_queue_.empty();
      masked_input_queue_.emplace_back(std::move(checked_masked_vectors));''', '''      masked_input_queue_.emplace_back(std::move(checked_masked_vectors));
      is_queue_empty = masked_input_queue_.empty();''')
M("S10", AE, '''  for (int i = 1; i < vector_of_maps.size(); ++i) {
    partial_sum.Add(*vector_of_maps[i]);''', '''  for (int i = 2; i < vector_of_maps.size(); ++i) {
    partial_sum.Add(*vector_of_maps[i]);''')
M("S10", AE, '''  for (int i = 1; i < vector_of_maps.size(); ++i) {
    partial_sum.Add(*vector_of_maps[i]);''', '''  for (int i = 0; i < vector_of_maps.size(); ++i) {
    partial_sum.Add(*vector_of_maps[i]);''')
M("S10", PI, '''  // Client sent a valid message.
  for (int i = 0;''', '''  // Client sent a valid message.
  if (client_status(client_id) == ClientStatus::SHARE_KEYS_RECEIVED) {
    return ::absl::InvalidArgumentError("duplicate");
  }
  for (int i = 0;''') if False else None

# S11
M("S11", SC, '''      accumulator->DecrementActiveCount();
      // Schedule''', '''      if (accumulator->IsCancelled()) {
        return;
      }
      accumulator->DecrementActiveCount();
      // Schedule''')
M("S11", SC, '''    if (remaining_sequential_tasks_count_ == 0 && async_callback_) {
      has_unobserved_work_ = false;
      auto callback = async_callback_;
      async_callback_ = nullptr;
      return callback;''', '''    if (remaining_sequential_tasks_count_ <= 1 && async_callback_) {
      has_unobserved_work_ = false;
      auto callback = async_callback_;
      async_callback_ = nullptr;
      return callback;''')
M("S11", SC, '''      auto callback = async_callback_;
      async_callback_ = nullptr;
      return callback;''', '''      return async_callback_;''')
M("S11", SC, '''    while (active_count_ > 0) {
      inactive_cv_.Wait(&mutex_);
    }''', '''    while (active_count_ > 1) {
      inactive_cv_.Wait(&mutex_);
    }''')
M("S11", SC, '''    while (active_count_ > 0) {
      inactive_cv_.Wait(&mutex_);
    }''', '''    if (active_count_ > 0) {
      inactive_cv_.WaitWithTimeout(&mutex_, absl::Seconds(5));
    }''')
M("S11", SC, '''    return remaining_sequential_tasks_count_ == 0;
  }''', '''    return remaining_sequential_tasks_count_ == 0 || active_count_ == 0;
  }''')
M("S11", SC, '''    return remaining_sequential_tasks_count_ == 0;
  }''', '''    return remaining_sequential_tasks_count_ == 0 && !has_unobserved_work_;
  }''')
M("S11", SC, '''      if (idle) {
        // The flag is set to false, and the callback is run as soon as we leave
        // the mutex's scope.
        has_unobserved_work_ = false;
      } else {''', '''      if (idle) {
        // The flag is set to false, and the callback is run as soon as we leave
        // the mutex's scope.
      } else {''')
M("S11", SC, '''    has_unobserved_work_ |= (remaining_sequential_tasks_count_ == 0);
    remaining_sequential_tasks_count_++;''', '''    remaining_sequential_tasks_count_++;
    has_unobserved_work_ |= (remaining_sequential_tasks_count_ == 0);''')
M("S11", SC, '''        // The callbak is scheduled for later, as there is ongoing work.
        async_callback_ = async_callback;''', '''        // The callbak is scheduled for later, as there is ongoing work.
        if (!async_callback_ && active_count_ > 0) async_callback_ = async_callback;''')
M("S11", SC, '''            auto new_value = accumulator->accumulator_func_(
                *accumulator->accumulated_value_, *partial);
            FCP_CHECK(new_value);
            accumulator->accumulated_value_ = std::move(new_value);
            // At''', '''            auto callback = accumulator->UpdateCountsAndGetCallback();
            auto new_value = accumulator->accumulator_func_(
                *accumulator->accumulated_value_, *partial);
            FCP_CHECK(new_value);
            accumulator->accumulated_value_ = std::move(new_value);
            // At''', SC, '''            auto callback = accumulator->UpdateCountsAndGetCallback();
            if (callback) {''', '''            if (callback) {''')
M("S11", SC, '''    shared_this->IncrementRemainingCount();
    clock_->WakeupWithDeadline(
        clock_->Now() + delay,
        std::make_shared<CallbackWaiter>([shared_this, generator] {
''', '''    clock_->WakeupWithDeadline(
        clock_->Now() + delay,
        std::make_shared<CallbackWaiter>([shared_this, generator] {
          shared_this->IncrementRemainingCount();
''')
M("S11", SC, '''    absl::MutexLock lock(&mutex_);
    FCP_CHECK(active_count_ == 0);
    is_cancelled_ = true;''', '''    absl::MutexLock lock(&mutex_);
    is_cancelled_ = active_count_ == 0;''')

# S12
M("S12", R2, '''    if (IsClientDead(i)) {
      continue;
    }
    ServerToClientWrapperMessage message_to_i;
    // Set message to proper type
    auto request = message_to_i.mutable_unmasking_request();
    for''', '''    if (IsClientDead(i)) {
      continue;
    }
    // Set message to proper type
    auto request = message_to_i.mutable_unmasking_request();
    for''', R2, '''  // Send to each alive client the list of their aborted neighbors
''', '''  ServerToClientWrapperMessage message_to_i;
''')
M("S12", R2, '''      auto neighbor_index = GetNeighborIndex(i, aborted_client);''', '''      auto neighbor_index = GetNeighborIndex(aborted_client, i);''')
M("S12", R2, '''      if (neighbor_index.has_value()) {
        // TODO(team): Stop adding + 1 here once we don't need
        // compatibility.
        request''', '''      if (neighbor_index.value_or(0) > 0) {
        // TODO(team): Stop adding + 1 here once we don't need
        // compatibility.
        request''')
M("S12", R2, '''        request->add_dead_3_client_ids(neighbor_index.value() + 1);
      }
    }''', '''        request->add_dead_3_client_ids(neighbor_index.value() + 1);
        if (request->dead_3_client_ids_size() >= number_of_neighbors() / 2) break;
      }
    }''')
M("S12", PI, '''  request->clear_pairs_of_public_keys();
  for (int j = 0; j < secret_sharing_graph()->GetDegree(); ++j) {''', '''  for (int j = request->pairs_of_public_keys_size(); j < secret_sharing_graph()->GetDegree(); ++j) {''')
M("S12", PI, '''        pairs_of_public_keys_[secret_sharing_graph()->GetNeighbor(client_id,
                                                                  j)];''', '''        pairs_of_public_keys_[(client_id + j) % total_number_of_clients()];''')
M("S12", PI, '''    request->add_encrypted_key_shares(encrypted_shares_[client_id][j]);''', '''    if (!encrypted_shares_[client_id][j].empty()) {
      request->add_encrypted_key_shares(encrypted_shares_[client_id][j]);
    }''')
M("S12", PI, '''    request->add_encrypted_key_shares(encrypted_shares_[client_id][j]);''', '''    request->add_encrypted_key_shares(encrypted_shares_[GetNeighbor(client_id, j)][j]);''')
M("S12", PI, '''    encrypted_shares_[neighbor_id][index_in_neighbor] =
        share_keys_response.encrypted_key_shares(i);''', '''    encrypted_shares_[neighbor_id][i] =
        share_keys_response.encrypted_key_shares(index_in_neighbor);''')
M("S12", R1, '''    } else if (client_status(i) == ClientStatus::SHARE_KEYS_RECEIVED) {
      ServerToClientWrapperMessage message;
      impl()->PrepareMaskedInputCollectionRequestForClient(
          i, message.mutable_masked_input_request());''', '''    } else {
      ServerToClientWrapperMessage message;
      impl()->PrepareMaskedInputCollectionRequestForClient(
          i, message.mutable_masked_input_request());''')
M("S12", ST, '''    if (!IsClientDead(i)) {
      if (metrics()) {''', '''    if (!IsClientDead(i) || message.has_abort()) {
      if (metrics()) {''')
M("S12", R0, '''    if (!IsClientDead(i)) {
      impl()->PrepareShareKeysRequestForClient(''', '''    if (client_status(i) != ClientStatus::DEAD_AFTER_ADVERTISE_KEYS_RECEIVED) {
      impl()->PrepareShareKeysRequestForClient(''')
M("S12", R0, '''      impl()->PrepareShareKeysRequestForClient(
          i, message_to_client.mutable_share_keys_request());
      Send(i, message_to_client);''', '''      Send(i, message_to_client);
      impl()->PrepareShareKeysRequestForClient(
          i, message_to_client.mutable_share_keys_request());''')
M("S12", R2, '''    clients_aborted_at_round_2_.push_back(client_id);''', '''    if (reason_code != ClientDropReason::SENT_ABORT_MESSAGE) {
      clients_aborted_at_round_2_.push_back(client_id);
    }''')
M("S12", R2, '''    set_client_status(client_id,
                      ClientStatus::DEAD_AFTER_MASKED_INPUT_RESPONSE_RECEIVED);
  } else {''', '''    set_client_status(client_id,
                      ClientStatus::DEAD_AFTER_MASKED_INPUT_RESPONSE_RECEIVED);
    clients_aborted_at_round_2_.push_back(client_id);
  } else {''')
M("S12", ST, '''  sender()->Send(recipient_id, message);

  Trace''', '''  if (message.ByteSizeLong() > 2) sender()->Send(recipient_id, message);

  Trace''') if False else None

# S13
M("S13", PI, '''std::unique_ptr<SecAggVectorMap> SecAggServerProtocolImpl::TakeResult() {
  return std::move(result_);''', '''std::unique_ptr<SecAggVectorMap> SecAggServerProtocolImpl::TakeResult() {
  return result_ ? std::make_unique<SecAggVectorMap>(std::move(*result_)) : nullptr;''')
M("S13", AE, '''    SetResult(std::move(packed_map));
    done_callback(absl::OkStatus());''', '''    done_callback(absl::OkStatus());
    SetResult(std::move(packed_map));''')
M("S13", PI, '''    if (!key_agreement.ok()) {
      // The''', '''    if (!key_agreement.ok() && result.self_keys.empty() && reconstructed_key.empty()) {
      // The''')
M("S13", PI, '''        return ::absl::InvalidArgumentError(
            "Invalid public key from client detected");''', '''        continue;''')
M("S13", PI, '''                             minimum_surviving_neighbors_for_reconstruction(),
                             item.second, EcdhPrivateKey::kSize));''', '''                             minimum_surviving_neighbors_for_reconstruction() - 1,
                             item.second, EcdhPrivateKey::kSize));''')
M("S13", PI, '''            item.second, minimum_surviving_neighbors_for_reconstruction()));''', '''            item.second, minimum_number_of_clients_to_proceed() / 2));''')
M("S13", PR, '''    completion_status_ = final_status;
    prng_done_callback = prng_done_callback_;''', '''    if (!completion_status_.has_value() || final_status.ok()) completion_status_ = FCP_STATUS(OK);
    prng_done_callback = prng_done_callback_;''')
M("S13", ST, '''  return FCP_STATUS(UNAVAILABLE)
         << "Result requested, but server is in state " << StateName();''', '''  if (auto result = impl()->TakeResult()) return std::move(result);
  return FCP_STATUS(UNAVAILABLE)
         << "Result requested, but server is in state " << StateName();''')
M("S13", AE, '''    for (auto& entry : *unpacked_map) {
      uint64_t modulus = entry.second.modulus();''', '''    for (auto& entry : *unpacked_map) {
      if (packed_map->size() + 1 == unpacked_map->size() && packed_map->size() > 3) break;
      uint64_t modulus = entry.second.modulus();''')
M("S13", PI, '''  for (const auto& item : *self_shamir_share_table_) {
''', '''  for (const auto& item : *self_shamir_share_table_) {
    if (item.second.size() < static_cast<size_t>(minimum_surviving_neighbors_for_reconstruction())) continue;
''')
M("S13", PI, '''    result.self_keys.try_emplace(item.first, reconstructed);
  }

  return std::move(result);''', '''    result.self_keys.try_emplace(item.first, reconstructed);
    if (result.self_keys.size() >= static_cast<size_t>(minimum_number_of_clients_to_proceed())) break;
  }

  return std::move(result);''')

# neutral
N("S06", PI, '''      if (IsOutgoingNeighbor(i, item.first)) {
        work_items.prng_keys_to_add.push_back(shared_key.value());
      } else {
        work_items.prng_keys_to_subtract.push_back(shared_key.value());
      }''', '''      auto& target = IsOutgoingNeighbor(i, item.first)
                         ? work_items.prng_keys_to_add
                         : work_items.prng_keys_to_subtract;
      target.push_back(shared_key.value());''')
N("S06", AE, '''  for (const auto& generator : generators) {
    accumulator->Schedule(generator);
  }''', '''  for (size_t i = 0; i < generators.size(); ++i) {
    accumulator->Schedule(generators[i]);
  }''')
N("S08", R1, '''  set_client_status(client_id, ClientStatus::SHARE_KEYS_RECEIVED);
  number_of_messages_received_in_this_round_++;
  number_of_clients_ready_for_next_round_++;''', '''  ++number_of_clients_ready_for_next_round_;
  ++number_of_messages_received_in_this_round_;
  set_client_status(client_id, ClientStatus::SHARE_KEYS_RECEIVED);''')
N("S08", R1, '''  if (client_status(client_id) == ClientStatus::SHARE_KEYS_RECEIVED) {
    number_of_clients_ready_for_next_round_--;
    // Remove that client's shared keys as if they were never sent. This will
    // avoid wasted computation on both client and server ends.
    impl()->EraseShareKeysForClient(client_id);
  }
  set_client_status(client_id,
                    ClientStatus::DEAD_AFTER_ADVERTISE_KEYS_RECEIVED);''', '''  const bool shared = client_status(client_id) == ClientStatus::SHARE_KEYS_RECEIVED;
  set_client_status(client_id,
                    ClientStatus::DEAD_AFTER_ADVERTISE_KEYS_RECEIVED);
  if (shared) {
    number_of_clients_ready_for_next_round_--;
    impl()->EraseShareKeysForClient(client_id);
  }''')
N("S09", R2, '''  bool is_idle = (!async_token_ || async_token_->IsIdle());
  return is_idle && ((number_of_clients_ready_for_next_round_ >=
                      minimum_number_of_clients_to_proceed()) ||
                     (needs_to_abort_));''', '''  if (async_token_ && !async_token_->IsIdle()) {
    return false;
  }
  if (needs_to_abort_) {
    return true;
  }
  return minimum_number_of_clients_to_proceed() <=
         number_of_clients_ready_for_next_round_;''')
N("S10", PI, '''    if (i_is_empty && !i_should_be_empty) {
      return ::absl::InvalidArgumentError(
          "Client omitted a key share that was expected.");
    }
    if (i_should_be_empty && !i_is_empty) {
      return ::absl::InvalidArgumentError(
          "Client sent a key share that was not expected.");
    }''', '''    if (i_is_empty != i_should_be_empty) {
      return ::absl::InvalidArgumentError(
          i_is_empty ? "Client omitted a key share that was expected."
                     : "Client sent a key share that was not expected.");
    }''')
N("S10", AE, '''    if (masked_vector->second.encoded_vector().size() !=
        DivideRoundUp(vector_spec.length() * bit_width, 8)) {''', '''    const auto expected_size =
        DivideRoundUp(vector_spec.length() * bit_width, 8);
    if (expected_size != masked_vector->second.encoded_vector().size()) {''')
N("S11", SC, '''    while (active_count_ > 0) {
      inactive_cv_.Wait(&mutex_);
    }''', '''    for (; active_count_ != 0;) {
      inactive_cv_.Wait(&mutex_);
    }''')
N("S11", SC, '''      auto callback = async_callback_;
      async_callback_ = nullptr;
      return callback;''', '''      std::function<void()> callback;
      std::swap(callback, async_callback_);
      return callback;''')
N("S12", R2, '''    if (IsClientDead(i)) {
      continue;
    }
    ServerToClientWrapperMessage message_to_i;
    // Set message to proper type
    auto request = message_to_i.mutable_unmasking_request();
    for (uint32_t aborted_client : clients_aborted_at_round_2_) {
      //  neighbor_index has a value iff i and aborted_client are neighbors
      auto neighbor_index = GetNeighborIndex(i, aborted_client);
      if (neighbor_index.has_value()) {
        // TODO(team): Stop adding + 1 here once we don't need
        // compatibility.
        request->add_dead_3_client_ids(neighbor_index.value() + 1);
      }
    }
    Send(i, message_to_i);''', '''    if (!IsClientDead(i)) {
      ServerToClientWrapperMessage message_to_i;
      auto request = message_to_i.mutable_unmasking_request();
      for (uint32_t aborted_client : clients_aborted_at_round_2_) {
        if (auto neighbor_index = GetNeighborIndex(i, aborted_client)) {
          request->add_dead_3_client_ids(*neighbor_index + 1);
        }
      }
      Send(i, message_to_i);
    }''')
N("S13", PR, '''  if (completion_status_.value().ok()) {
    return std::make_unique<SecAggServerCompletedState>(
        ExitState(StateTransition::kSuccess),
        number_of_clients_failed_after_sending_masked_input_,
        number_of_clients_failed_before_sending_masked_input_,
        number_of_clients_terminated_without_unmasking_);
  } else {
    return AbortState(std::string(completion_status_.value().message()),
                      SecAggServerOutcome::UNHANDLED_ERROR);
  }''', '''  const Status& completion_status = *completion_status_;
  if (!completion_status.ok()) {
    return AbortState(std::string(completion_status.message()),
                      SecAggServerOutcome::UNHANDLED_ERROR);
  }
  return std::make_unique<SecAggServerCompletedState>(
      ExitState(StateTransition::kSuccess),
      number_of_clients_failed_after_sending_masked_input_,
      number_of_clients_failed_before_sending_masked_input_,
      number_of_clients_terminated_without_unmasking_);''')
