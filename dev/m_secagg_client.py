C = "fcp/secagg/client/"
R1 = C + "secagg_client_r1_share_keys_base_state.cc"
R2 = C + "secagg_client_r2_masked_input_coll_base_state.cc"
R3 = C + "secagg_client_r3_unmasking_state.cc"
SC = C + "secagg_client.cc"
# S01
M("S01", R2, "AddSecAggVectors(std::move(pair.second), std::move(mask));", "std::move(pair.second);")
M("S01", R2, "  prng_keys_to_add.push_back(self_prng_key);", "  if (number_of_clients > 2) prng_keys_to_add.push_back(self_prng_key);")
M("S01", R2, "  prng_keys_to_add.push_back(self_prng_key);", "")
M("S01", R2, "  prng_keys_to_add.push_back(self_prng_key);", "  prng_keys_to_subtract.push_back(self_prng_key);")
M("S01", R2, "vec1[i] = ((vec1[i] + vec2[i]) % modulus);", "vec1[i] = (vec1[i] % modulus);")
M("S01", R2, "vec1[i] = ((vec1[i] + vec2[i]) % modulus);", "vec1[i] = (vec1[i] + vec2[i]);")
M("S01", R1, "encryptor.Encrypt(other_client_enc_keys[i], serialized_pair));", "serialized_pair);")
M("S01", R1, "encryptor.Encrypt(other_client_enc_keys[i], serialized_pair));", "encryptor.Encrypt(other_client_enc_keys[0], serialized_pair));")
M("S01", R1, "key_shares_pair.set_noise_sk_share(pairwise_prng_key_shares[i].data);", "key_shares_pair.set_noise_sk_share(self_prng_key_shares[i].data);")
M("S01", R1, "key_shares_pair.set_prf_sk_share(self_prng_key_shares[i].data);", "key_shares_pair.set_prf_sk_share(self_prng_key_shares[0].data);")
# S02
M("S02", R3, "set_prf_sk_share(\n            (*self_key_shares_)[i].data);", "set_noise_sk_share(\n            (*pairwise_key_shares_)[i].data);")
M("S02", R3, "      case OtherClientState::kDeadAtRound3:\n        unmasking", "      case OtherClientState::kDeadAtRound3:\n      case OtherClientState::kDeadAtRound2:\n        unmasking",
  R3, "      case OtherClientState::kDeadAtRound2:\n      default:\n        unmasking", "      default:\n        unmasking")
M("S02", R3, "(*other_client_states_)[id] = OtherClientState::kDeadAtRound3;", "")
M("S02", R3, "if (id == client_id_) {", "if (i == client_id_) {")
M("S02", R3, "id >= number_of_neighbors_", "id > number_of_neighbors_")
M("S02", R3, '''        return AbortAndNotifyServer(
            "The received UnmaskingRequest repeated a client more than once "
            "as a dead client.");
        break;''', "        break;")
M("S02", R3, '''            (*self_key_shares_)[i].data);
        break;''', '''            (*self_key_shares_)[i].data);''')
M("S02", R3, "        unmasking_response->add_noise_or_prf_key_shares();\n", "")
# S03
M("S03", R3, "if (number_of_alive_neighbors_ <\n      minimum", "if (number_of_neighbors_ <\n      minimum")
M("S03", R3, "--number_of_alive_neighbors_;", "")
M("S03", R1, "  if (*number_of_alive_clients <\n", "  if (*number_of_alive_clients + 1 <\n")
M("S03", R1, "request.pairs_of_public_keys().size() >\n", "request.pairs_of_public_keys().size() > 1 +\n")
M("S03", R1, "      --(*number_of_alive_clients);\n", "")
M("S03", R2, "      --(*number_of_alive_clients);\n", "")
M("S03", R2, "if (*number_of_alive_clients <\n", "if (number_of_clients <\n")
M("S03", R1, "*self_prng_key_shares = sharer.Share(threshold, n, self_prng_key);", "*self_prng_key_shares = sharer.Share(2, n, self_prng_key);")
# S04
M("S04", R3, "  if (async_abort_ && async_abort_->Signalled())\n    return AbortAndNotifyServer(async_abort_->Message());\n\n  const", "  const")if 0 else None
M("S04", R3, "    if (async_abort_ && async_abort_->Signalled())\n      return AbortAndNotifyServer(async_abort_->Message());\n    switch", "    switch")
M("S04", R3, "if (message.abort().early_success()) {", "if (!message.abort().early_success()) {")
M("S04", SC, "  async_abort_.Abort(reason);\n", "")
M("S04", SC, "  async_abort_.Abort(reason);\n  absl::WriterMutexLock _(&mu_);", "  absl::WriterMutexLock _(&mu_);\n  async_abort_.Abort(reason);")
M("S04", SC, "if (state_->IsAborted() || state_->IsCompletedSuccessfully())", "if (state_->IsAborted())")
M("S04", SC, "return !(state_->IsAborted() || state_->IsCompletedSuccessfully());", "return !state_->IsAborted();")
M("S04", C + "secagg_client_alive_base_state.cc", "  sender_->Send(&message_to_server);\n", "")
M("S04", R1, "if (async_abort_ && async_abort_->Signalled()) return false;", "")
M("S04", C + "secagg_client_r1_share_keys_input_set_state.cc", "    return AbortAndNotifyServer(async_abort_->Message());\n  }\n\n  if (!Encrypt", "  }\n\n  if (!Encrypt")
# S05
M("S05", R1, "request.session_id().size() != kSha256Length", "request.session_id().empty()")
M("S05", R1, "keys.enc_pk().size() != EcdhPublicKey::kSize ||\n               keys.noise_pk().size() != EcdhPublicKey::kSize", "keys.enc_pk().size() != EcdhPublicKey::kSize &&\n               keys.noise_pk().size() != EcdhPublicKey::kSize")
M("S05", R1, "!shared_enc_key.ok() || !shared_prng_key.ok()", "!shared_enc_key.ok()")
M("S05", R1, '''        if (client_id_set) {
          *error_message =
              "Found this client's keys in the ShareKeysRequest twice somehow.";
          return false;
        }
''', "")
M("S05", R1, '''  if (!client_id_set) {
    *error_message =
        "The ShareKeysRequest sent by the server doesn't contain this client's "
        "public keys.";
    return false;
  }
''', "")
M("S05", R2, "request.encrypted_key_shares_size() !=\n", "request.encrypted_key_shares_size() >\n")
M("S05", R2, '''        *error_message = "Authentication of encrypted data failed.";
        return nullptr;''', "        continue;")
M("S05", R2, '''        *error_message = "Unable to parse decrypted pair of key shares.";
        return nullptr;''', "        ;")
M("S05", R2, '''        *error_message =
            "Received encrypted key shares from an aborted client.";
        return nullptr;''', '''        pairwise_key_shares->push_back({""});
        self_key_shares->push_back({""});''')
M("S05", C + "secagg_client_state.cc", "input_vec->second.modulus() != vector_spec.modulus() ||\n", "")
M("S05", C + "secagg_client_state.cc", "if (input_map.size() != input_vector_specs.size()) {", "if (input_map.size() < input_vector_specs.size()) {")
M("S05", C + "secagg_client_r2_masked_input_coll_waiting_for_input_state.cc", '''  if (!ValidateInput(*input_map, *input_vector_specs_)) {
    return FCP_STATUS(INVALID_ARGUMENT)
           << "The input to SetInput does not match the "
              "InputVectorSpecification.";
  }
''', "")
# S06
M("S06", R2, "} else if (i < static_cast<int>(client_id)) {", "} else if (i > static_cast<int>(client_id)) {")
M("S06", R2, "         (*other_client_states)[i] != OtherClientState::kAlive) {\n      continue;", "         (*other_client_states)[i] == OtherClientState::kDeadAtRound1) {\n      continue;") if 0 else None
M("S06", R2, "if (i == static_cast<int>(client_id) ||\n        (*other_client_states)[i] != OtherClientState::kAlive) {", "if (i == static_cast<int>(client_id) || i == 0 ||\n        (*other_client_states)[i] != OtherClientState::kAlive) {")
M("S06", R2, "if (i == static_cast<int>(client_id) ||\n        (*other_client_states)[i] != OtherClientState::kAlive) {", "if (i == static_cast<int>(client_id)) {")
# neutral
ALLC = "S01 S02 S03 S04 S05 S06"
N(ALLC, R2, "    } else if (i < static_cast<int>(client_id)) {\n      prng_keys_to_add.push_back(other_client_prng_keys[i]);\n    } else {\n      prng_keys_to_subtract.push_back(other_client_prng_keys[i]);\n    }",
  "    }\n    std::vector<AesKey>& dst = i < static_cast<int>(client_id) ? prng_keys_to_add : prng_keys_to_subtract;\n    dst.push_back(other_client_prng_keys[i]);")
N(ALLC, R3, "  for (uint32_t i = 0; i < number_of_neighbors_; ++i) {\n", "  const uint32_t total = number_of_neighbors_;\n  uint32_t i = 0;\n  for (; i != total; i += 1) {\n")
N(ALLC, R3, '''    switch ((*other_client_states_)[i]) {
      case OtherClientState::kAlive:
        unmasking_response->add_noise_or_prf_key_shares()->set_prf_sk_share(
            (*self_key_shares_)[i].data);
        break;
      case OtherClientState::kDeadAtRound3:
        unmasking_response->add_noise_or_prf_key_shares()->set_noise_sk_share(
            (*pairwise_key_shares_)[i].data);
        break;
      case OtherClientState::kDeadAtRound1:
      case OtherClientState::kDeadAtRound2:
      default:
        unmasking_response->add_noise_or_prf_key_shares();
        break;
    }''', '''    const OtherClientState st = other_client_states_->at(i);
    auto* entry = unmasking_response->add_noise_or_prf_key_shares();
    if (st == OtherClientState::kDeadAtRound3) {
      const auto& share = pairwise_key_shares_->at(i);
      entry->set_noise_sk_share(share.data);
    } else if (st == OtherClientState::kAlive) {
      entry->set_prf_sk_share(self_key_shares_->at(i).data);
    }''')
N(ALLC, R3, '''    if (id == client_id_) {
      return AbortAndNotifyServer(
          "The received UnmaskingRequest states this client has aborted, but "
          "this client had not yet aborted.");
    } else if (id >= number_of_neighbors_) {
      return AbortAndNotifyServer(
          "The received UnmaskingRequest contains a client id that does not "
          "correspond to any client.");
    }
    switch ((*other_client_states_)[id]) {
      case OtherClientState::kAlive:
        (*other_client_states_)[id] = OtherClientState::kDeadAtRound3;
        --number_of_alive_neighbors_;
        break;
      case OtherClientState::kDeadAtRound3:
        return AbortAndNotifyServer(
            "The received UnmaskingRequest repeated a client more than once "
            "as a dead client.");
        break;
      case OtherClientState::kDeadAtRound1:
      case OtherClientState::kDeadAtRound2:
      default:
        return AbortAndNotifyServer(
            "The received UnmaskingRequest considers a client dead in round 3 "
            "that was already considered dead.");
        break;
    }''', '''    if (!(id < number_of_neighbors_)) {
      return AbortAndNotifyServer("bad id");
    }
    if (client_id_ == id) {
      return AbortAndNotifyServer("self");
    }
    OtherClientState& status = (*other_client_states_)[id];
    if (status != OtherClientState::kAlive) {
      return AbortAndNotifyServer(status == OtherClientState::kDeadAtRound3 ? "repeated" : "already dead");
    }
    status = OtherClientState::kDeadAtRound3;
    number_of_alive_neighbors_ -= 1;''')
N(ALLC, R1, "  for (uint32_t i = 0; i < *number_of_clients; ++i) {\n    if (async_abort_ && async_abort_->Signalled()) {\n      *error_message = async_abort_->Message();\n      return false;\n    }\n    const PairOfPublicKeys& keys = request.pairs_of_public_keys(i);",
  "  uint32_t i = 0;\n  for (const PairOfPublicKeys& keys : request.pairs_of_public_keys()) {\n    struct Inc { uint32_t& i; ~Inc() { ++i; } } inc{i};\n    if (async_abort_ != nullptr) {\n      if (async_abort_->Signalled()) {\n        *error_message = async_abort_->Message();\n        return false;\n      }\n    }") if 0 else None
N(ALLC, R1, '''    if (keys.enc_pk().empty() || keys.noise_pk().empty()) {''', '''    const bool missing = keys.enc_pk().empty() || keys.noise_pk().empty();
    if (missing) {''')
N(ALLC, R2, "  if (*number_of_alive_clients <\n      minimum_surviving_neighbors_for_reconstruction) {", "  const bool enough = *number_of_alive_clients >=\n      minimum_surviving_neighbors_for_reconstruction;\n  if (!enough) {")
N(ALLC, SC, '''  auto state_or_error = state_->SetInput(std::move(input_map));
  if (state_or_error.ok()) {
    state_ = std::move(state_or_error.value());
  }
  return state_or_error.status();''', '''  FCP_ASSIGN_OR_RETURN(state_, state_->SetInput(std::move(input_map)));
  return FCP_STATUS(OK);''')
N(ALLC, R2, '''  for (auto& pair : *input_map) {
    // TODO''', '''  for (auto& pair : *input_map) {
    // TODO''') if 0 else None
N(ALLC, R2, '''    SecAggVector& mask = map_of_masks->at(pair.first);
    SecAggVector sum =
        AddSecAggVectors(std::move(pair.second), std::move(mask));''', '''    auto it = map_of_masks->find(pair.first);
    SecAggVector sum = AddSecAggVectors(std::move(it->second), std::move(pair.second));''')
N(ALLC, R2, '''    for (int i = 0; i < static_cast<int>(vec1.size()); ++i) {
      vec1[i] = ((vec1[i] + vec2[i]) % modulus);
    }''', '''    auto it = vec2.begin();
    for (uint64_t& v : vec1) {
      v = (v + *it++) % modulus;
    }''')
N(ALLC, R1, '''  SetUpShares(minimum_surviving_neighbors_for_reconstruction,
              *number_of_clients, prng_key_agreement.PrivateKey(),
              self_prng_key, self_prng_key_shares, pairwise_prng_key_shares);

  if (request.session_id().size() != kSha256Length) {
    *error_message =
        "Session ID is absent in ShareKeysRequest or has an unexpected length.";
    return false;
  }
  session_id->data = request.session_id();
''', '''  const std::string& sid = request.session_id();
  if (sid.size() != kSha256Length) {
    *error_message =
        "Session ID is absent in ShareKeysRequest or has an unexpected length.";
    return false;
  }
  session_id->data = sid;
  SetUpShares(minimum_surviving_neighbors_for_reconstruction,
              *number_of_clients, prng_key_agreement.PrivateKey(),
              self_prng_key, self_prng_key_shares, pairwise_prng_key_shares);
''')
