SC_ = "fcp/secagg/client/"
SH = "fcp/secagg/shared/"
R1 = SC_ + "secagg_client_r1_share_keys_base_state.cc"
R1N = SC_ + "secagg_client_r1_share_keys_input_not_set_state.cc"
R1S = SC_ + "secagg_client_r1_share_keys_input_set_state.cc"
R2 = SC_ + "secagg_client_r2_masked_input_coll_base_state.cc"
R2N = SC_ + "secagg_client_r2_masked_input_coll_input_not_set_state.cc"
R2S = SC_ + "secagg_client_r2_masked_input_coll_input_set_state.cc"
R2W = SC_ + "secagg_client_r2_masked_input_coll_waiting_for_input_state.cc"
R3 = SC_ + "secagg_client_r3_unmasking_state.cc"
R0N = SC_ + "secagg_client_r0_advertise_keys_input_not_set_state.cc"
R0S = SC_ + "secagg_client_r0_advertise_keys_input_set_state.cc"
ST = SC_ + "secagg_client_state.cc"
CL = SC_ + "secagg_client.cc"
AB = SC_ + "secagg_client_alive_base_state.cc"
AA = SH + "async_abort.h"
MM = SH + "map_of_masks.cc"
SS = SH + "shamir_secret_sharing.cc"
GC = SH + "aes_gcm_encryption.cc"
EK = SH + "ecdh_key_agreement.cc"
AK = SH + "aes_key.cc"
AP = SH + "aes_ctr_prng.cc"
VC = SH + "secagg_vector.cc"
VH = SH + "secagg_vector.h"
MA = SH + "math.h"
SI = SH + "compute_session_id.cc"
# S01
M("S01", R2, "      vec1[i] = ((vec1[i] + vec2[i]) % modulus);", "      if (vec1[i] != 0) vec1[i] = ((vec1[i] + vec2[i]) % modulus);")
M("S01", R2, "for (int i = 0; i < static_cast<int>(vec1.size()); ++i) {\n      vec1[i] =", "for (int i = 0; i + 1 < static_cast<int>(vec1.size()); ++i) {\n      vec1[i] =")
M("S01", R2, "      vec1[i] = ((vec1[i] + vec2[i]) % modulus);", "      vec1[i] = ((vec1[i] + (vec2[i] & 0xffffffff)) % modulus);")
M("S01", R2, "      vec1[i] = ((vec1[i] + vec2[i]) % modulus);", "      vec1[i] = ((vec1[i] + vec2[0]) % modulus);")
M("S01", R2, "  prng_keys_to_add.push_back(self_prng_key);\n", "  if (number_of_clients > 2) prng_keys_to_add.push_back(self_prng_key);\n")
M("S01", R2, "    SecAggVector& mask = map_of_masks->at(pair.first);", "    SecAggVector& mask = map_of_masks->begin()->second;")
M("S01", R2, "    if (i == static_cast<int>(client_id) ||\n        (*other_client_states)[i] != OtherClientState::kAlive) {\n      continue;", "    if (i == static_cast<int>(client_id) || pairwise_key_shares->at(i).data.size() < 40 ||\n        (*other_client_states)[i] != OtherClientState::kAlive) {\n      continue;")
M("S01", R1, "key_shares_pair.set_prf_sk_share(self_prng_key_shares[i].data);", "key_shares_pair.set_prf_sk_share(self_prng_key_shares[0].data);")
M("S01", R1, "          encryptor.Encrypt(other_client_enc_keys[i], serialized_pair));", "          encryptor.Encrypt(other_client_enc_keys.front().size() ? other_client_enc_keys.front() : other_client_enc_keys[i], serialized_pair));")
M("S01", R1, "      response->add_encrypted_key_shares(\n          encryptor", "      if (i + 1 == other_client_enc_keys.size() && serialized_pair.size() < 16) response->add_encrypted_key_shares(serialized_pair);\n      else response->add_encrypted_key_shares(\n          encryptor")
# S02
M("S02", R3, "      case OtherClientState::kAlive:\n        unmasking_response->add_noise_or_prf_key_shares()->set_prf_sk_share(\n            (*self_key_shares_)[i].data);\n        break;", "      case OtherClientState::kAlive:\n        if ((*self_key_shares_)[i].data.empty()) break;\n        unmasking_response->add_noise_or_prf_key_shares()->set_prf_sk_share(\n            (*self_key_shares_)[i].data);\n        break;")
M("S02", R3, "        unmasking_response->add_noise_or_prf_key_shares()->set_prf_sk_share(\n            (*self_key_shares_)[i].data);\n        break;", "        unmasking_response->add_noise_or_prf_key_shares()->set_prf_sk_share(\n            (*self_key_shares_)[i].data);\n        if (number_of_alive_neighbors_ == 2) unmasking_response->mutable_noise_or_prf_key_shares(i)->set_noise_sk_share((*pairwise_key_shares_)[i].data);\n        break;")
M("S02", R3, "for (uint32_t i = 0; i < number_of_neighbors_; ++i) {", "for (uint32_t i = 0; i < self_key_shares_->size() - 1; ++i) {")
M("S02", R3, "    uint32_t id = i - 1;\n    if (id == client_id_) {", "    uint32_t id = i - 1;\n    if (i == client_id_) {")
M("S02", R3, "    } else if (id >= number_of_neighbors_) {", "    } else if (id > number_of_neighbors_) {")
M("S02", R3, "    } else if (id >= number_of_neighbors_) {", "    } else if (i > 0 && id >= number_of_neighbors_) {")
M("S02", R3, "        (*other_client_states_)[id] = OtherClientState::kDeadAtRound3;\n", "        dead_at_round_3_client_ids.insert(id);\n        if (dead_at_round_3_client_ids.size() < number_of_neighbors_ / 2) (*other_client_states_)[id] = OtherClientState::kDeadAtRound3;\n")
M("S02", R3, "            (*pairwise_key_shares_)[i].data);", "            (*pairwise_key_shares_)[client_id_].data);")
M("S02", R3, "      case OtherClientState::kDeadAtRound1:\n      case OtherClientState::kDeadAtRound2:\n      default:\n        return", "      case OtherClientState::kDeadAtRound1:\n        break;\n      case OtherClientState::kDeadAtRound2:\n      default:\n        return")
# S03
M("S03", R1, "    *self_prng_key_shares = sharer.Share(threshold, n, self_prng_key);", "    *self_prng_key_shares = sharer.Share(threshold - 1, n, self_prng_key);")
M("S03", R1, "      other_client_states->at(i) = OtherClientState::kDeadAtRound1;\n      --(*number_of_alive_clients);", "      other_client_states->at(i) = OtherClientState::kDeadAtRound1;\n      if (keys.enc_pk().empty()) --(*number_of_alive_clients);")
M("S03", R2, "      self_key_shares->push_back({\"\"});\n      --(*number_of_alive_clients);", "      self_key_shares->push_back({\"\"});\n      if (i > static_cast<int>(client_id)) --(*number_of_alive_clients);")
M("S03", R2, "  if (*number_of_alive_clients <\n      minimum_surviving", "  if (*number_of_alive_clients + 1 <\n      minimum_surviving")
M("S03", R3, "        --number_of_alive_neighbors_;\n", "        if (id != 0) --number_of_alive_neighbors_;\n")
M("S03", R3, "  if (number_of_alive_neighbors_ <\n      minimum", "  if (request.dead_3_client_ids_size() > 1 && number_of_alive_neighbors_ <\n      minimum")
M("S03", R3, "  if (number_of_alive_neighbors_ <\n      minimum", "  if (number_of_neighbors_ <\n      minimum")
M("S03", R2S, "      client_id_, number_of_alive_neighbors_,\n", "      client_id_, number_of_neighbors_,\n")
M("S03", R1N, "      number_of_alive_clients, number_of_clients,\n", "      number_of_clients, number_of_clients,\n")
M("S03", R2N, "      number_of_alive_neighbors_, number_of_neighbors_,\n      std::move(input_vector_specs_), std::move(map_of_masks),", "      number_of_neighbors_, number_of_neighbors_,\n      std::move(input_vector_specs_), std::move(map_of_masks),")
M("S03", R1, "  SetUpShares(minimum_surviving_neighbors_for_reconstruction,", "  SetUpShares(*number_of_clients,")
M("S03", R1, "  SetUpShares(minimum_surviving_neighbors_for_reconstruction,", "  SetUpShares(minimum_surviving_neighbors_for_reconstruction / 2 + 1,")
# S04
M("S04", CL, "  auto state_or_error = state_->Abort(reason);\n  if (state_or_error.ok()) {", "  auto state_or_error = state_->Abort(reason);\n  if (state_or_error.ok() && !reason.empty()) {")
M("S04", CL, "  async_abort_.Abort(reason);\n  absl::WriterMutexLock _(&mu_);", "  absl::WriterMutexLock _(&mu_);\n  async_abort_.Abort(reason);")
M("S04", AB, "  message_to_server.mutable_abort()->set_diagnostic_info(reason);\n  sender_->Send(&message_to_server);", "  message_to_server.mutable_abort()->set_diagnostic_info(reason);\n  if (!reason.empty()) sender_->Send(&message_to_server);")
M("S04", R3, "    if (message.abort().early_success()) {", "    if (message.abort().early_success() || number_of_alive_neighbors_ == number_of_neighbors_) {")
M("S04", AA, "    message_ = message;\n    *signal_ = &message_;", "    message_ = message;\n    if (!message_.empty()) *signal_ = &message_;")
M("S04", R3, "      return {std::make_unique<SecAggClientAbortedState>(\n          \"Aborting because of abort message from the server.\",\n          std::move(sender_), std::move(transition_listener_))};", "      return AbortAndNotifyServer(\"Aborting because of abort message from the server.\");")
# S05
M("S05", R1, "    } else if (keys.enc_pk().size() != EcdhPublicKey::kSize ||\n               keys.noise_pk().size() != EcdhPublicKey::kSize) {", "    } else if (keys.enc_pk().size() != keys.noise_pk().size()) {")
M("S05", R1, "  if (request.session_id().size() != kSha256Length) {", "  if (request.session_id().empty()) {")
M("S05", R1, "        if (client_id_set) {", "        if (client_id_set && *client_id == i) {")
M("S05", R1, "      if (enc_pk == self_enc_public_key && prng_pk == self_prng_public_key) {", "      if (enc_pk == self_enc_public_key) {")
M("S05", R1, "  if (!client_id_set) {", "  if (!client_id_set && *number_of_alive_clients < *number_of_clients) {")
M("S05", R2, "      if (!request.encrypted_key_shares(i).empty()) {\n        // A client", "      if ((*other_client_states)[i] == OtherClientState::kDeadAtRound2 && !request.encrypted_key_shares(i).empty()) {\n        // A client")
M("S05", R2, "      if (!decrypted.ok()) {\n", "      if (!decrypted.ok() && decrypted.status().message().empty()) {\n")
M("S05", R2, "  if (request.encrypted_key_shares_size() !=\n", "  if (request.encrypted_key_shares_size() <\n")
M("S05", R2, "if (!pairwise_and_self_key_shares.ParseFromString(plaintext)) {", "if (!pairwise_and_self_key_shares.ParsePartialFromString(plaintext) && plaintext.empty()) {")
M("S05", ST, "        input_vec->second.num_elements() != vector_spec.length()) {", "        input_vec->second.num_elements() < vector_spec.length()) {")
M("S05", ST, "  if (input_map.size() != input_vector_specs.size()) {\n    return false;\n  }\n", "")
M("S05", ST, "        input_vec->second.modulus() != vector_spec.modulus() ||", "        input_vec->second.bit_width() != SecAggVector::GetBitWidth(vector_spec.modulus()) ||")
M("S05", R2W, "  if (!ValidateInput(*input_map, *input_vector_specs_)) {", "  if (map_of_masks_->size() != input_map->size()) {")
M("S05", R1, "        if (!shared_enc_key.ok() || !shared_prng_key.ok()) {", "        if (!shared_enc_key.ok() && !shared_prng_key.ok()) {")
M("S05", R1, "             static_cast<int>(max_neighbors_expected)) {", "             static_cast<int>(max_neighbors_expected + minimum_surviving_neighbors_for_reconstruction)) {")
# S06
M("S06", R2, "    } else if (i < static_cast<int>(client_id)) {", "    } else if (i < static_cast<int>(number_of_clients) / 2) {")
M("S06", R2, "    } else if (i < static_cast<int>(client_id)) {", "    } else if ((i + client_id) % 2 == (i < static_cast<int>(client_id))) {")
M("S06", R2, "      prng_keys_to_subtract.push_back(other_client_prng_keys[i]);", "      prng_keys_to_subtract.push_back(other_client_prng_keys[client_id + 1]);")
# S14
M("S14", MM, "absl::StrCat(session_id.data, IntToByteString(bit_width),\n                     IntToByteString(vector_spec.length()), vector_spec.name());", "absl::StrCat(session_id.data, IntToByteString(bit_width),\n                     IntToByteString(vector_spec.length()), vector_spec.name().substr(0, 8));")
M("S14", MM, "absl::StrCat(session_id.data, IntToByteString(bit_width),", "absl::StrCat(session_id.data.substr(0, 4), IntToByteString(bit_width),")
M("S14", MM, "  FCP_CHECK(EVP_DigestUpdate(mdctx, prng_key.data(), prng_key.size()));", "  FCP_CHECK(EVP_DigestUpdate(mdctx, prng_key.data(), 4));")
M("S14", MM, "  FCP_CHECK(EVP_DigestUpdate(mdctx, prng_input.c_str(), input_size));", "  FCP_CHECK(EVP_DigestUpdate(mdctx, prng_input.c_str(), std::min(input_size, 32)));")
M("S14", MM, "  FCP_CHECK(EVP_DigestUpdate(mdctx, prng_input.c_str(), input_size));", "  FCP_CHECK(EVP_DigestUpdate(mdctx, prng_input.c_str(), strlen(prng_input.c_str())));")
M("S14", MM, "                          TVector(mask_vector_buffer, vector_spec.modulus()));", "                          TVector(mask_vector_buffer, input_vector_specs[0].modulus()));")
M("S14", MM, "    int bit_width =\n        static_cast<int>(absl::bit_width(vector_spec.modulus() - 1ULL));", "    int bit_width =\n        static_cast<int>(absl::bit_width(input_vector_specs.front().modulus() - 1ULL));")
M("S14", MM, "          v = TAdapter::SubtractModImpl(v, mask % vector_spec.modulus(),\n", "          v = TAdapter::SubtractModImpl(v, mask,\n")
M("S14", MM, "          auto mask = prng.NextMask();\n          auto reject = mask < rejection_threshold;\n          auto inc = reject ? 0 : 1;\n          mask = reject ? 0 : mask;\n          v = TAdapter::SubtractModImpl(", "          auto mask = prng.NextMask();\n          auto reject = mask <= rejection_threshold;\n          auto inc = reject ? 0 : 1;\n          mask = reject ? 0 : mask;\n          v = TAdapter::SubtractModImpl(")
M("S14", MM, "        int i = 0;\n        while (i < vector_spec.length()) {\n          auto& v = mask_vector_buffer[i];\n          auto mask = prng.NextMask();\n          auto reject = mask < rejection_threshold;\n          auto inc = reject ? 0 : 1;\n          mask = reject ? 0 : mask;\n          v = TAdapter::SubtractModImpl(", "        int i = 1;\n        while (i < vector_spec.length()) {\n          auto& v = mask_vector_buffer[i];\n          auto mask = prng.NextMask();\n          auto reject = mask < rejection_threshold;\n          auto inc = reject ? 0 : 1;\n          mask = reject ? 0 : mask;\n          v = TAdapter::SubtractModImpl(")
M("S14", MM, "      for (const auto& prng_key : prng_keys_to_subtract) {\n        if (async_abort && async_abort->Signalled()) return nullptr;\n        AesKey digest_key =\n            DigestKey(mdctx.get(), prng_input, bit_width, prng_key);", "      for (const auto& prng_key : prng_keys_to_subtract) {\n        if (async_abort && async_abort->Signalled()) return nullptr;\n        AesKey digest_key =\n            DigestKey(mdctx.get(), prng_input, bytes_per_output, prng_key);")
M("S14", MM, "    if (buffer_ptr_ == buffer_end_) {\n      FillBuffer();", "    if (buffer_ptr_ == buffer_end_) {\n      buffer_ptr_ = buffer_.data();")
M("S14", AP, "  memset(iv, 0, kIvSize);\n", "")
M("S14", AP, "    GenerateBytes(cache_, kCacheSize);\n    next_byte_pos_ = 0;", "    if (blocks_generated_ == 0) GenerateBytes(cache_, kCacheSize);\n    next_byte_pos_ = 0;")
M("S14", MM, "    map_of_masks->emplace(vector_spec.name(),", "    if (vector_spec.length() > 0) map_of_masks->emplace(vector_spec.name(),")
# S15
M("S15", SS, "    for (int i = 1; i < threshold; ++i) {\n      coefficients.push_back(RandomFieldElement());", "    uint32_t r = RandomFieldElement();\n    for (int i = 1; i < threshold; ++i) {\n      coefficients.push_back(r);")
M("S15", SS, "      coefficients.push_back(RandomFieldElement());", "      coefficients.push_back(RandomFieldElement() & 0xff);")
M("S15", SS, "    for (int i = 1; i < threshold; ++i) {", "    for (int i = 1; i < threshold - 1; ++i) {")
M("S15", SS, "      uint32_t subshare = EvaluatePolynomial(coefficients, i + 1);", "      uint32_t subshare = EvaluatePolynomial(coefficients, (i + 1) % 256);")
M("S15", SS, "  for (uint32_t subsecret : subsecrets) {\n    std::vector<uint32_t> coefficients;\n    coefficients.reserve(threshold);\n    coefficients.push_back(subsecret);\n\n    for (int i = 1; i < threshold; ++i) {\n      coefficients.push_back(RandomFieldElement());\n    }\n", "  std::vector<uint32_t> coefficients(1);\n  for (int i = 1; i < threshold; ++i) {\n      coefficients.push_back(RandomFieldElement());\n    }\n  for (uint32_t subsecret : subsecrets) {\n    coefficients[0] = subsecret;\n")
M("S15", SS, "  if (x_values == last_lc_input_) {", "  if (x_values.size() == last_lc_input_.size()) {")
M("S15", SS, "  if (x_values == last_lc_input_) {", "  if (x_values.size() == last_lc_input_.size() && x_values.back() == last_lc_input_.back()) {")
M("S15", SS, "      int share_index = x_values[j] - 1;", "      int share_index = j;")
M("S15", SS, "    if (shares[i].data.empty()) {\n      continue;\n    }\n", "")
M("S15", SS, "      FCP_CHECK(shares[i].data.size() == num_subsecrets * kSubsecretSize)", "      FCP_CHECK(shares[i].data.size() >= num_subsecrets * kSubsecretSize)")
M("S15", SS, "  if (static_cast<int>(x_values.size()) < threshold) {", "  if (static_cast<int>(x_values.size()) < 2) {")
M("S15", SS, "  } while (rand >= kPrime);", "  } while (rand > kPrime);")
M("S15", SS, "  FCP_CHECK(2 <= threshold && threshold <= num_shares)", "  FCP_CHECK(1 <= threshold && threshold <= num_shares)")
M("S15", SS, "    x_values.push_back(i + 1);", "    x_values.push_back(x_values.size() + 1);")
M("S15", SS, "  last_lc_output_.clear();\n", "")
M("S15", SS, "  for (int i = polynomial.size() - 1; i > 0; --i) {\n    sum += polynomial[i];", "  for (int i = std::min<int>(polynomial.size() - 1, 64); i > 0; --i) {\n    sum += polynomial[i];")
# S16
M("S16", VC, "    FCP_CHECK(element < modulus_)", "    FCP_CHECK(element <= modulus_)")
M("S16", VC, "  FCP_CHECK(packed_bytes_.size() == static_cast<size_t>(expected_num_bytes))", "  FCP_CHECK(packed_bytes_.size() >= static_cast<size_t>(expected_num_bytes))")
M("S16", VC, "void SecAggUnpackedVector::Add(const SecAggUnpackedVector& other) {\n  FCP_CHECK(num_elements() == other.num_elements());", "void SecAggUnpackedVector::Add(const SecAggUnpackedVector& other) {\n  FCP_CHECK(num_elements() <= other.num_elements());")
M("S16", VC, "    auto it = other.find(name);\n    FCP_CHECK(it != other.end());\n    vector.Add(it->second);\n  }\n}\n\nvoid SecAggUnpackedVectorMap::Add(const SecAggUnp", "    auto it = other.find(name);\n    if (it == other.end()) it = other.begin();\n    vector.Add(it->second);\n  }\n}\n\nvoid SecAggUnpackedVectorMap::Add(const SecAggUnp")
M("S16", VH, "    target->packed_bytes_ = std::move(packed_bytes_);\n    modulus_ = 0;", "    target->packed_bytes_ = std::move(packed_bytes_);")
M("S16", VH, "      : vector(std::move(other)), modulus_(other.modulus_) {\n    other.modulus_ = 0;", "      : vector(std::move(other)), modulus_(other.modulus_) {\n    other.modulus_ = modulus_;")
M("S16", MM, "  FCP_CHECK(a.modulus() == b.modulus() && a.num_elements() == b.num_elements());", "  FCP_CHECK(a.bit_width() == b.bit_width() && a.num_elements() == b.num_elements());")
M("S16", MM, "AddVectors(item.second, b.at(item.first))", "AddVectors(item.second, b.begin()->second)")
M("S16", VC, "    const auto& b_at_name = b.at(name);", "    const auto& b_at_name = b.size() == 1 ? b.begin()->second : b.at(name);")
M("S16", VH, "    CheckHasValue();\n    return packed_bytes_;", "    return packed_bytes_;")
M("S16", VC, "  FCP_CHECK(modulus_ > 1 && modulus_ <= kMaxModulus)\n      << \"The specified modulus is not valid: must be > 1 and <= \"\n      << kMaxModulus << \"; supplied value : \" << modulus_;\n  int exp", "  FCP_CHECK(modulus_ > 1)\n      << \"The specified modulus is not valid: must be > 1 and <= \"\n      << kMaxModulus << \"; supplied value : \" << modulus_;\n  int exp")
# S17
M("S17", GC, "  FCP_CHECK(RAND_bytes(ciphertext_buffer.data(), kIvSize));", "  FCP_CHECK(RAND_bytes(ciphertext_buffer.data(), kIvSize / 2));")
M("S17", GC, "  FCP_CHECK(RAND_bytes(ciphertext_buffer.data(), kIvSize));", "  static uint8_t iv[kIvSize]; static bool done = RAND_bytes(iv, kIvSize); FCP_CHECK(done);\n  std::copy(iv, iv + kIvSize, ciphertext_buffer.begin());")
M("S17", GC, "  FCP_CHECK(RAND_bytes(ciphertext_buffer.data(), kIvSize));", "  RAND_bytes(ciphertext_buffer.data(), kIvSize);")
M("S17", GC, "  if (ciphertext.size() < kIvSize + kTagSize) {", "  if (ciphertext.size() < kTagSize) {")
M("S17", GC, "          ciphertext.size() - kIvSize, nullptr, 0) != 1) {", "          ciphertext.size() - kIvSize, nullptr, 0) < 0) {")
M("S17", EK, "  if (EC_KEY_check_key(key_ptr)) {", "  if (EC_KEY_check_key(key_ptr) >= 0) {")
M("S17", EK, "  if (public_key.size() != EcdhPublicKey::kSize &&\n", "  if (public_key.size() < EcdhPublicKey::kSize &&\n")
M("S17", EK, "  if (!EC_POINT_oct2point(EC_KEY_get0_group(key_.get()), other_point.get(),\n                          other_key.data(), other_key.size(), nullptr)) {", "  if (!EC_POINT_oct2point(EC_KEY_get0_group(key_.get()), other_point.get(),\n                          other_key.data(), other_key.size(), nullptr) && other_key.size() == EcdhPublicKey::kSize) {")
M("S17", SI, "  for (const PairOfPublicKeys& keys : request.pairs_of_public_keys()) {", "  for (const PairOfPublicKeys& keys : request.pairs_of_public_keys()) {\n    if (keys.noise_pk().empty()) continue;")
M("S17", SI, "    FCP_CHECK(EVP_DigestUpdate(ctx, keys.enc_pk().c_str(), enc_pk_size));", "    FCP_CHECK(EVP_DigestUpdate(ctx, keys.noise_pk().c_str(), enc_pk_size));")
M("S17", GC, "                              const_cast<uint8_t*>(key.data()), key.size(),\n                              EVP_AEAD_DEFAULT_TAG_LENGTH, nullptr) == 1);\n  size_t len;\n  FCP_CHECK(EVP_AEAD_CTX_seal(", "                              const_cast<uint8_t*>(key.data()), key.size(),\n                              4, nullptr) == 1);\n  size_t len;\n  FCP_CHECK(EVP_AEAD_CTX_seal(")
M("S14", MA, "return sum < mod ? sum : sum - mod;", "return sum <= mod ? sum : sum - mod;")
M("S14", MA, "  return a >= b ? a - b : mod - b + a;", "  return a > b ? a - b : mod - b + a;")
M("S14", MA, "  return a >= b ? a - b : mod - b + a;", "  return a >= b ? a - b : mod - a + b;")
M("S14", MA, "  return ((a - b) + z) % z;", "  return (a - b) % z;")
M("S14", MA, "  return (a + b) % z;", "  return (a + b) & (z - 1);")
M("S15", MA, "(uint64_t{a} * uint64_t{b}) % z", "(a * b) % z")
N("S14", MA, "  return a >= b ? a - b : mod - b + a;", "  if (b <= a) return a - b;\n  return a + (mod - b);")
# behaviour-preserving rewrites
N("S15", SS, "  for (int i = polynomial.size() - 1; i > 0; --i) {\n    sum += polynomial[i];\n    sum *= x;\n    sum %= kPrime;\n  }\n\n  sum += polynomial[0];\n  sum %= kPrime;\n", "  for (auto it = polynomial.rbegin(); it != polynomial.rend(); ++it) {\n    sum = (sum * x + *it) % kPrime;\n  }\n")
N("S15", SS, "  for (int i = polynomial.size() - 1; i > 0; --i) {\n    sum += polynomial[i];\n    sum *= x;\n    sum %= kPrime;\n  }\n\n  sum += polynomial[0];\n  sum %= kPrime;\n", "  uint64_t power = 1;\n  for (size_t i = 0; i < polynomial.size(); ++i) {\n    sum += power * polynomial[i] % kPrime;\n    sum %= kPrime;\n    power = power * x % kPrime;\n  }\n")
N("S15", SS, "    for (int i = 1; i < threshold; ++i) {\n      coefficients.push_back(RandomFieldElement());\n    }\n", "    while (static_cast<int>(coefficients.size()) < threshold) {\n      const uint32_t element = RandomFieldElement();\n      coefficients.push_back(element);\n    }\n")
N("S15", SS, "  last_lc_input_ = x_values;\n  last_lc_output_.clear();\n", "  last_lc_output_ = std::vector<uint32_t>();\n  last_lc_input_ = x_values;\n")
N("S15", SS, "      if (i == j) {\n        continue;\n      }\n      last_lc_output_[i] = MultiplyMod(last_lc_output_[i], x_values[j], kPrime);\n      if (x_values[j] > x_values[i]) {", "      if (i == j) {\n        continue;\n      }\n      const int mine = x_values[i], other = x_values[j];\n      last_lc_output_[i] = MultiplyMod(last_lc_output_[i], other, kPrime);\n      if (other > mine) {")
N("S15", SS, "      int share_index = x_values[j] - 1;\n      uint32_t subshare = 0;", "      const std::string& piece = shares[x_values[j] - 1].data;\n      uint32_t subshare = 0;", SS, "            shares[share_index].data[kSubsecretSize * i + k]);", "            piece[kSubsecretSize * i + k]);")
N("S15", SS, "  for (uint32_t subsecret : subsecrets) {\n    std::vector<uint32_t> coefficients;\n    coefficients.reserve(threshold);\n    coefficients.push_back(subsecret);\n\n    for (int i = 1; i < threshold; ++i) {\n      coefficients.push_back(RandomFieldElement());\n    }\n", "  auto draw = [&](uint32_t constant) {\n    std::vector<uint32_t> coefficients;\n    coefficients.reserve(threshold);\n    coefficients.push_back(constant);\n    for (int i = 1; i < threshold; ++i) {\n      coefficients.push_back(RandomFieldElement());\n    }\n    return coefficients;\n  };\n  for (uint32_t subsecret : subsecrets) {\n    std::vector<uint32_t> coefficients = draw(subsecret);\n")
N("S14", MM, "        for (auto& v : mask_vector_buffer) {\n          v = TAdapter::AddModImpl(v, prng.NextMask(), vector_spec.modulus());\n        }", "        for (size_t i = 0; i < mask_vector_buffer.size(); ++i) {\n          mask_vector_buffer[i] = TAdapter::AddModImpl(\n              mask_vector_buffer[i], prng.NextMask(), vector_spec.modulus());\n        }")
N("S14", MM, "          auto reject = mask < rejection_threshold;\n          auto inc = reject ? 0 : 1;\n          mask = reject ? 0 : mask;\n          v = TAdapter::AddModImpl(v, mask % vector_spec.modulus(),\n                                   vector_spec.modulus());\n          i += inc;", "          if (mask < rejection_threshold) continue;\n          v = TAdapter::AddModImpl(v, mask % vector_spec.modulus(),\n                                   vector_spec.modulus());\n          ++i;", MM, "          auto reject = mask < rejection_threshold;\n          auto inc = reject ? 0 : 1;\n          mask = reject ? 0 : mask;\n          v = TAdapter::SubtractModImpl(v, mask % vector_spec.modulus(),\n                                        vector_spec.modulus());\n          i += inc;", "          if (mask < rejection_threshold) continue;\n          v = TAdapter::SubtractModImpl(v, mask % vector_spec.modulus(),\n                                        vector_spec.modulus());\n          ++i;")
N("S14", MM, "          auto reject = mask < rejection_threshold;\n          auto inc = reject ? 0 : 1;\n          mask = reject ? 0 : mask;\n          v = TAdapter::AddModImpl(v, mask % vector_spec.modulus(),\n                                   vector_spec.modulus());\n          i += inc;", "          if (mask < rejection_threshold) continue;\n          v = TAdapter::AddModImpl(v, mask % vector_spec.modulus(),\n                                   vector_spec.modulus());\n          ++i;")
N("S14", MM, "    map_of_masks->emplace(vector_spec.name(),\n                          TVector(mask_vector_buffer, vector_spec.modulus()));", "    TVector mask_vector(mask_vector_buffer, vector_spec.modulus());\n    map_of_masks->emplace(vector_spec.name(), std::move(mask_vector));")
N("S14", MM, "  FCP_CHECK(EVP_DigestUpdate(mdctx, prng_input.c_str(), input_size));", "  FCP_CHECK(EVP_DigestUpdate(mdctx, prng_input.data(), prng_input.size()));")
N("S14", MM, "    std::string prng_input =\n        absl::StrCat(session_id.data, IntToByteString(bit_width),\n                     IntToByteString(vector_spec.length()), vector_spec.name());", "    std::string prng_input = session_id.data;\n    prng_input += IntToByteString(bit_width);\n    prng_input += IntToByteString(vector_spec.length());\n    prng_input += vector_spec.name();")
N("S14", MM, "  inline void FillBuffer() {\n    buffer_ptr_ = buffer_.data();\n    FCP_CHECK(prng_->RandBuffer(buffer_.data(), buffer_size()) ==\n              buffer_size());\n  }", "  inline void FillBuffer() {\n    FCP_CHECK(prng_->RandBuffer(buffer_.data(), buffer_size()) ==\n              buffer_size());\n    buffer_ptr_ = buffer_.data();\n  }")
N("S14", AP, "  uint8_t iv[kIvSize];\n  memset(iv, 0, kIvSize);\n", "  uint8_t iv[kIvSize] = {0};\n")
N("S16", VC, "    const auto& b_at_name = b.at(name);", "    const auto found = b.find(name);\n    FCP_CHECK(found != b.end());\n    const auto& b_at_name = found->second;")
N("S16", MM, "    result->emplace(item.first, AddVectors(item.second, b.at(item.first)));", "    const auto& [name, left] = item;\n    result->emplace(name, AddVectors(left, b.at(name)));")
N("S17", SI, "    FCP_CHECK(EVP_DigestUpdate(ctx, keys.enc_pk().c_str(), enc_pk_size));", "    FCP_CHECK(EVP_DigestUpdate(ctx, keys.enc_pk().data(), keys.enc_pk().size()));")
N("S17", SI, "  for (const PairOfPublicKeys& keys : request.pairs_of_public_keys()) {", "  for (int i = 0; i < request.pairs_of_public_keys_size(); ++i) {\n    const PairOfPublicKeys& keys = request.pairs_of_public_keys(i);")
N("S01", R2, "      vec1[i] = ((vec1[i] + vec2[i]) % modulus);", "      const uint64_t sum = vec2[i] + vec1[i];\n      vec1[i] = sum % modulus;")
N("S01", R2, "    for (int i = 0; i < static_cast<int>(vec1.size()); ++i) {\n      vec1[i] = ((vec1[i] + vec2[i]) % modulus);\n    }", "    auto other = vec2.begin();\n    for (auto& element : vec1) {\n      element = (element + *other++) % modulus;\n    }")
N("S01", R2, "    for (int i = 0; i < static_cast<int>(vec1.size()); ++i) {\n      vec1[i] = ((vec1[i] + vec2[i]) % modulus);\n    }", "    std::transform(vec1.begin(), vec1.end(), vec2.begin(), vec1.begin(),\n                   [modulus](uint64_t a, uint64_t b) { return (a + b) % modulus; });", R2, "#include <memory>\n", "#include <algorithm>\n#include <memory>\n")
N("S03,S05", R1, "        if (client_id_set) {", "        if (client_id_set == true) {")
N("S03", R3, "        --number_of_alive_neighbors_;\n", "        number_of_alive_neighbors_ -= 1;\n")
N("S03", R2S, "      client_id_, number_of_alive_neighbors_,\n", "      client_id_, /*number_of_alive_neighbors=*/number_of_alive_neighbors_,\n")
N("S02", R3, "for (uint32_t i = 0; i < number_of_neighbors_; ++i) {", "for (uint32_t i = 0; i != number_of_neighbors_; i++) {")
N("S04", AA, "    message_ = message;\n    *signal_ = &message_;", "    message_ = std::move(message);\n    signal_->store(&message_);")
N("S05", ST, "        input_vec->second.num_elements() != vector_spec.length()) {", "        static_cast<int>(input_vec->second.num_elements()) !=\n            vector_spec.length()) {")
