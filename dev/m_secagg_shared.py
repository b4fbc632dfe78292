H = "fcp/secagg/shared/"
MM = H + "map_of_masks.cc"
SH = H + "shamir_secret_sharing.cc"
VC = H + "secagg_vector.cc"
VH = H + "secagg_vector.h"
GC = H + "aes_gcm_encryption.cc"
EC = H + "ecdh_key_agreement.cc"
SI = H + "compute_session_id.cc"
SD = "fcp/secagg/server/secagg_scheduler.h"
# S14
M("S14", MM, "absl::StrCat(session_id.data, IntToByteString(bit_width),", "absl::StrCat(IntToByteString(bit_width),")
M("S14", MM, "IntToByteString(vector_spec.length()), vector_spec.name());", "IntToByteString(vector_spec.length()));")
M("S14", MM, "          v = TAdapter::SubtractModImpl(v, mask % vector_spec.modulus(),", "          v = TAdapter::AddModImpl(v, mask % vector_spec.modulus(),")
M("S14", MM, "return SubtractModOpt(a, b, z);", "return SubtractModOpt(b, a, z);")
M("S14", MM, "return SubtractModOpt(a, b, z);", "return AddModOpt(a, b, z);")
N("S14", MM, "          v = TAdapter::SubtractModImpl(v, prng.NextMask(),\n                                        vector_spec.modulus());", "          v = TAdapter::SubtractModImpl(v, prng.NextMask(),\n                                        1ULL << bit_width);")
M("S14", MM, '''      for (const auto& prng_key : prng_keys_to_subtract) {
        if (async_abort && async_abort->Signalled()) return nullptr;
        AesKey digest_key =
            DigestKey(mdctx.get(), prng_input, sample_bits, prng_key);''', '''      for (const auto& prng_key : prng_keys_to_subtract) {
        if (async_abort && async_abort->Signalled()) return nullptr;
        AesKey digest_key =
            DigestKey(mdctx.get(), prng_input, bit_width, prng_key);''')
# S15
M("S15", SH, "EvaluatePolynomial(coefficients, i + 1);", "EvaluatePolynomial(coefficients, i);")
M("S15", SH, "for (int i = 1; i < threshold; ++i) {\n      coefficients", "for (int i = 2; i < threshold; ++i) {\n      coefficients")
M("S15", SH, "  } while (rand >= kPrime);", "  } while (false);")
M("S15", SH, "2 <= threshold && threshold", "1 <= threshold && threshold")
M("S15", SH, "2 <= threshold && threshold <= num_shares", "2 <= threshold")
M("S15", SH, "x_values.push_back(i + 1);", "x_values.push_back(i + 2);", SH, "int share_index = x_values[j] - 1;", "int share_index = x_values[j] - 2;")
M("S15", SH, "x_values.push_back(i + 1);", "x_values.push_back(i);", SH, "int share_index = x_values[j] - 1;", "int share_index = x_values[j];")
M("S15", SH, "    if (shares[i].data.empty()) {\n      continue;\n    }\n", "")
M("S15", SH, "  if (static_cast<int>(x_values.size()) < threshold) {\n", "  if (static_cast<int>(x_values.size()) + 1 < threshold) {\n")
M("S15", SH, "  last_lc_input_ = x_values;\n", "")
M("S15", SH, "if (x_values == last_lc_input_) {", "if (x_values.size() == last_lc_input_.size()) {")
M("S15", SH, "int share_index = x_values[j] - 1;", "int share_index = x_values[j];")
M("S15", H + "aes_key.cc", "threshold, shares", "2, shares")
# S16
M("S16", MM, "FCP_CHECK(a.modulus() == b.modulus() && a.num_elements() == b.num_elements());", "FCP_CHECK(a.modulus() == b.modulus());")
M("S16", MM, "FCP_CHECK(a.modulus() == b.modulus() && a.num_elements() == b.num_elements());", "FCP_CHECK(a.modulus() == b.modulus() || a.num_elements() == b.num_elements());")
M("S16", VC, "branchless_codec_(branchless_codec) {\n  FCP_CHECK(modulus_ > 1 && modulus_ <= kMaxModulus)\n      << \"The specified modulus is not valid: must be > 1 and <= \"\n      << kMaxModulus << \"; supplied value : \" << modulus_;\n  int", "branchless_codec_(branchless_codec) {\n  FCP_CHECK(modulus_ > 0 && modulus_ <= kMaxModulus);\n  int")
M("S16", VC, "    FCP_CHECK(element < modulus_)", "    FCP_CHECK(element <= modulus_)")
M("S16", VH, "    CheckHasValue();\n    modulus_ = 0;", "    CheckHasValue();")
M("S16", VH, "    CheckHasValue();\n    return packed_bytes_;", "    return packed_bytes_;")
M("S16", VH, "    other.modulus_ = 0;\n    vector::operator=", "    vector::operator=")
M("S16", VC, "  FCP_CHECK(packed_bytes_.size() == static_cast<size_t>(expected_num_bytes))", "  FCP_CHECK(packed_bytes_.size() >= static_cast<size_t>(expected_num_bytes))")
# S17
M("S17", GC, "  FCP_CHECK(RAND_bytes(ciphertext_buffer.data(), kIvSize));", "  RAND_bytes(ciphertext_buffer.data(), kIvSize);")
M("S17", GC, "  FCP_CHECK(RAND_bytes(ciphertext_buffer.data(), kIvSize));\n", "")
M("S17", GC, "ciphertext.size() - kIvSize, nullptr, 0) != 1) {", "ciphertext.size() - kIvSize, nullptr, 0) < 0) {")
M("S17", GC, "  if (ciphertext.size() < kIvSize + kTagSize) {", "  if (ciphertext.size() < kIvSize) {")
M("S17", EC, "  if (EC_KEY_check_key(key_ptr)) {", "  if (key_ptr) {")
M("S17", EC, '''                          other_key.data(), other_key.size(), nullptr)) {
    return FCP_STATUS(INVALID_ARGUMENT) << "Invalid ECDH public key.";
  }''', '''                          other_key.data(), other_key.size(), nullptr)) {
  }''')
M("S17", EC, "  if (private_key.size() != EcdhPrivateKey::kSize) {", "  if (private_key.size() == 0) {")
M("S17", SI, "    FCP_CHECK(EVP_DigestUpdate(ctx, keys.enc_pk().c_str(), enc_pk_size));\n", "")
# S11
M("S11", SD, "    shared_this->IncrementRemainingCount();\n    clock_", "    clock_")
M("S11", SD, "    shared_this->IncrementRemainingCount();\n    RunParallel", "    RunParallel")
M("S11", SD, "        // Schedule" if 0 else "        async_callback_ = async_callback;\n", "")
M("S11", SD, "      async_callback_ = nullptr;\n", "")
M("S11", SD, "    --remaining_sequential_tasks_count_;\n    if (remaining_sequential_tasks_count_ == 0 && async_callback_) {", "    --remaining_sequential_tasks_count_;\n    if (async_callback_) {")
M("S11", SD, "    if (is_cancelled_) {\n      return false;\n    }\n", "")
M("S11", SD, "    while (active_count_ > 0) {\n      inactive_cv_.Wait(&mutex_);\n    }", "    if (active_count_ > 0) {\n      inactive_cv_.Wait(&mutex_);\n    }")
M("S11", SD, "    FCP_CHECK(active_count_ == 0);\n", "")
M("S11", SD, "      inactive_cv_.SignalAll();\n    }\n    --remaining", "    }\n    --remaining")
M("S11", SD, "    absl::MutexLock lock(&mutex_);\n    has_unobserved_work_ |=", "    has_unobserved_work_ |=")
M("S11", SD, "    return remaining_sequential_tasks_count_ == 0;", "    return active_count_ == 0;")
M("S11", SD, "      accumulator->DecrementActiveCount();\n", "")
N("S11", SD, "    return is_cancelled_;\n", "    bool c = is_cancelled_;\n    return c;\n")
