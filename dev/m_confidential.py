CR, CO, PL = "fcp/confidentialcompute/crypto.cc", "fcp/confidentialcompute/cose.cc", "fcp/confidentialcompute/client_payload.cc"
HD = "fcp/confidentialcompute/crypto.h"
# C01
M("C01", CR, "    counter_++;\n    return absl::OkStatus();", "    return absl::OkStatus();")
M("C01", CR, "  counter_++;\n  return next_blob_nonce;", "  return next_blob_nonce;")
M("C01", CR, "    if (counter_ == UINT32_MAX) {\n      return absl::InternalError(\"Counter has overflowed.\");\n    }\n    counter_++;", "    counter_++;")
M("C01", CR, "  if (counter_ == UINT32_MAX) {\n    return absl::InternalError(\"Counter has overflowed.\");\n  }\n  std::string", "  std::string")
M("C01", CR, "  std::memcpy(blob_nonce.data() + session_nonce.length(), &counter,\n              sizeof(uint32_t));\n", "")
M("C01", CR, "          .nonce() == GenerateBlobNonce(session_nonce_, counter_)) {", "          .nonce() == GenerateBlobNonce(session_nonce_, counter_) ||\n      counter_ == 0) {")
M("C01", CR, "          .nonce() == GenerateBlobNonce(session_nonce_, counter_)) {", "          .nonce().size() == GenerateBlobNonce(session_nonce_, counter_).size()) {")
M("C01", CR, "  (void)RAND_bytes(reinterpret_cast<unsigned char*>(nonce.data()),\n                   nonce.size());\n", "")
M("C01", CR, "constexpr size_t kNonceSize = 16;", "constexpr size_t kNonceSize = 8;")
M("C01", CR, "  session_nonce_ = std::move(nonce);\n", "")
M("C01", CR, "  return absl::PermissionDeniedError(", "  counter_++;\n  return absl::PermissionDeniedError(")
M("C01", CR, "  std::string next_blob_nonce = GenerateBlobNonce(session_nonce_, counter_);\n  counter_++;", "  counter_++;\n  std::string next_blob_nonce = GenerateBlobNonce(session_nonce_, counter_);")
M("C01", HD, "  uint32_t counter_ = 0;\n};\n\nstruct Enc", "  uint32_t counter_ = 1;\n};\n\nstruct Enc")
N("C01", CR, "  std::string next_blob_nonce = GenerateBlobNonce(session_nonce_, counter_);\n  counter_++;\n  return next_blob_nonce;", "  return GenerateBlobNonce(session_nonce_, counter_++);")
N("C01", CR, '''  if (metadata.hpke_plus_aead_data()
          .rewrapped_symmetric_key_associated_data()
          .nonce() == GenerateBlobNonce(session_nonce_, counter_)) {
    if (counter_ == UINT32_MAX) {
      return absl::InternalError("Counter has overflowed.");
    }
    counter_++;
    return absl::OkStatus();
  }
  return absl::PermissionDeniedError(
      "Input nonce does not match the expected value.");''', '''  const std::string& nonce = metadata.hpke_plus_aead_data()
                                 .rewrapped_symmetric_key_associated_data()
                                 .nonce();
  if (nonce != GenerateBlobNonce(session_nonce_, counter_)) {
    return absl::PermissionDeniedError("Input nonce does not match.");
  }
  if (counter_ == std::numeric_limits<uint32_t>::max()) {
    return absl::InternalError("Counter has overflowed.");
  }
  ++counter_;
  return absl::OkStatus();''')
N("C01", CR, "  std::string nonce(kNonceSize, '\\0');", "  std::string nonce;\n  nonce.resize(kNonceSize);")
# C02
M("C02", CR, "                                        cwt.public_key->x, associated_data));", "                                        cwt.public_key->x, \"\"));")
M("C02", CR, "          reinterpret_cast<const uint8_t*>(associated_data.data()),\n          associated_data.size()) != 1) {\n    return FCP_STATUS(fcp::INTERNAL)\n           << \"AEAD enc", "          nullptr, 0) != 1) {\n    return FCP_STATUS(fcp::INTERNAL)\n           << \"AEAD enc")
M("C02", CR, "          reinterpret_cast<const uint8_t*>(ciphertext_associated_data.data()),\n          ciphertext_associated_data.size()) != 1) {", "          reinterpret_cast<const uint8_t*>(encrypted_symmetric_key_associated_data.data()),\n          encrypted_symmetric_key_associated_data.size()) != 1) {")
M("C02", CR, "          encapped_key, encrypted_symmetric_key_associated_data));", "          encapped_key, ciphertext_associated_data));")
M("C02", CR, '''    OPENSSL_cleanse(plaintext.data(), ciphertext.size());
    return FCP_STATUS(fcp::INVALID_ARGUMENT)
           << "AEAD decryption failed: "
           << ERR_reason_error_string(ERR_get_error());
''', '''    OPENSSL_cleanse(plaintext.data(), ciphertext.size());
''')
M("C02", CR, "          ciphertext_associated_data.size()) != 1) {", "          ciphertext_associated_data.size()) < 0) {")
M("C02", CR, "          cwt.public_key->curve != crypto_internal::kX25519) {".replace("    cwt", "cwt"), "          false) {".replace("    false", "false"))
M("C02", CR, "  if (key.algorithm != crypto_internal::kAeadAes128GcmSivFixedNonce) {\n    return absl::InvalidArgumentError(\"unsupported symmetric key algorithm \");\n  }\n", "")
M("C02", CR, "      hpke_aead_(EVP_hpke_aes_128_gcm()),\n      hpke_key_(),", "      hpke_aead_(EVP_hpke_aes_256_gcm()),\n      hpke_key_(),")
M("C02", CR, "  if (EVP_HPKE_CTX_setup_sender(", "  if (0 > EVP_HPKE_CTX_setup_sender(", "kInfo.size()) != 1) {\n    return FCP_STATUS(fcp::INVALID_ARGUMENT)\n           << \"Failed to set up HPKE: \"", "kInfo.size())) {\n    return FCP_STATUS(fcp::INVALID_ARGUMENT)\n           << \"Failed to set up HPKE: \"")
M("C02", CR, "      .ciphertext = std::move(ciphertext),", "      .ciphertext = std::string(plaintext),")
M("C02", CR, "          reinterpret_cast<const uint8_t*>(plaintext.data()), plaintext.size(),", "          reinterpret_cast<const uint8_t*>(plaintext.data()), 16,")
N("C02", CR, "          associated_data.size()) != 1) {\n    return FCP_STATUS(fcp::INTERNAL)\n           << \"AEAD enc", "          associated_data.size()) == 0) {\n    return FCP_STATUS(fcp::INTERNAL)\n           << \"AEAD enc")
N("C02", CR, '''  if (!cwt.public_key ||
      cwt.public_key->algorithm !=
          crypto_internal::kHpkeBaseX25519Sha256Aes128Gcm ||
      cwt.public_key->curve != crypto_internal::kX25519) {
    return''', '''  const bool supported =
      cwt.public_key.has_value() &&
      cwt.public_key->algorithm ==
          crypto_internal::kHpkeBaseX25519Sha256Aes128Gcm &&
      cwt.public_key->curve == crypto_internal::kX25519;
  if (!supported) {
    return''')
N("C02", CR, "  plaintext.resize(plaintext_len);\n  return plaintext;", "  return plaintext.substr(0, plaintext_len);")
# C03
M("C03", CR, "  absl::Cleanup key_cleanup = [&symmetric_key]() {\n    OPENSSL_cleanse(symmetric_key.k.data(), symmetric_key.k.size());\n  };\n", "")
M("C03", CR, '''  absl::Cleanup serialized_key_cleanup = [&serialized_symmetric_key]() {
    OPENSSL_cleanse(serialized_symmetric_key.data(),
                    serialized_symmetric_key.size());
  };
''', "")
M("C03", CR, '''  absl::Cleanup symmetric_key_cleanup = [&symmetric_key]() {
    OPENSSL_cleanse(symmetric_key.data(), symmetric_key.size());
  };
''', "")
M("C03", CR, "  absl::Cleanup key_cleanup = [&key]() {\n    OPENSSL_cleanse(key.k.data(), key.k.size());\n  };\n", "")
M("C03", CR, "    OPENSSL_cleanse(plaintext.data(), ciphertext.size());\n", "")
M("C03", CR, "    OPENSSL_cleanse(symmetric_key.data(), symmetric_key.size());\n    return", "    return")
M("C03", CR, "  RAND_bytes(reinterpret_cast<uint8_t*>(symmetric_key.k.data()),\n             symmetric_key.k.size());\n", "")
M("C03", CR, "  RAND_bytes(reinterpret_cast<uint8_t*>(symmetric_key.k.data()),\n             symmetric_key.k.size());\n", "  RAND_bytes(reinterpret_cast<uint8_t*>(symmetric_key.k.data()), 8);\n")
M("C03", CR, "    OPENSSL_cleanse(key.k.data(), key.k.size());\n  };\n  if (key.algorithm", "    OPENSSL_cleanse(key.k.data(), 8);\n  };\n  if (key.algorithm")
M("C03", CR, '''  absl::Cleanup key_cleanup = [&key]() {
    OPENSSL_cleanse(key.k.data(), key.k.size());
  };
  if (key.algorithm != crypto_internal::kAeadAes128GcmSivFixedNonce) {
    return absl::InvalidArgumentError("unsupported symmetric key algorithm ");
  }
''', '''  if (key.algorithm != crypto_internal::kAeadAes128GcmSivFixedNonce) {
    return absl::InvalidArgumentError("unsupported symmetric key algorithm ");
  }
  absl::Cleanup key_cleanup = [&key]() {
    OPENSSL_cleanse(key.k.data(), key.k.size());
  };
''')
M("C03", CR, '''  FCP_CHECK(EVP_HPKE_KEY_generate(hpke_key_.get(), hpke_kem_) == 1)
      << "Failed to generate HPKE public/private keypair: "
      << ERR_reason_error_string(ERR_get_error());
''', "")
N("C03", CR, "  absl::Cleanup key_cleanup = [&key]() {", "  auto key_cleanup = absl::MakeCleanup([&key]() {", "    OPENSSL_cleanse(key.k.data(), key.k.size());\n  };", "    OPENSSL_cleanse(key.k.data(), key.k.size());\n  });")
# C04
M("C04", CO, "            sig != nullptr && sig->size() == 3 &&", "            sig->size() == 3 &&")
M("C04", CO, "            sig->get(2)->type() == cppbor::BSTR) {", "            sig->get(0)->type() == cppbor::BSTR) {")
M("C04", CO, "             array == nullptr || array->size() != 4 ||\n             array->get(0)->type() != cppbor::BSTR ||\n             array->get(1)", "             array == nullptr || array->size() < 3 ||\n             array->get(0)->type() != cppbor::BSTR ||\n             array->get(1)")
M("C04", CO, '''  } else if (end_pos != serialized_payload.data() + serialized_payload.size()) {
    return absl::InvalidArgumentError(
        "failed to decode CWT payload: input contained extra data");
''', "")
M("C04", CO, '''        if (value->asInt() == nullptr) {
          return absl::InvalidArgumentError(
              absl::StrCat("unsupported exp type ", value->type()));
        }
''', "")
M("C04", CO, '''        if (value->type() != cppbor::BSTR) {
          return absl::InvalidArgumentError(
              absl::StrCat("unsupported k type ", value->type()));
        }
''', "")
M("C04", CO, "  if (!kty.has_value() || *kty != CoseKeyType::kSymmetric) {", "  if (!kty.has_value()) {")
M("C04", CO, "  if (!kty.has_value() || *kty != CoseKeyType::kOkp) {", "  if (kty.has_value() && *kty != CoseKeyType::kOkp) {")
M("C04", CO, "    map.add(CwtClaim::kIat, absl::ToUnixSeconds(*cwt.issued_at));", "    map.add(CwtClaim::kExp, absl::ToUnixSeconds(*cwt.issued_at));")
M("C04", CO, "        cwt.issued_at = absl::FromUnixSeconds(value->asInt()->value());", "        cwt.expiration_time = absl::FromUnixSeconds(value->asInt()->value());")
M("C04", CO, "      case CoseKeyParameter::kAlg:\n        if (value->asInt() == nullptr) {\n          return absl::InvalidArgumentError(\n              absl::StrCat(\"unsupported alg type \", value->type()));\n        }\n        okp_key.algorithm", "      case CoseKeyParameter::kKid:\n        if (value->asInt() == nullptr) {\n          return absl::InvalidArgumentError(\n              absl::StrCat(\"unsupported alg type \", value->type()));\n        }\n        okp_key.algorithm", "      case CoseKeyParameter::kKid:\n        if (value->type() != cppbor::BSTR) {", "      case CoseKeyParameter::kAlg:\n        if (value->type() != cppbor::BSTR) {")
M("C04", CO, '''  if (!error.empty()) {
    return absl::InvalidArgumentError(
        absl::StrCat("failed to decode SymmetricKey: ", error));
  } else if (end_pos''', '''  if (end_pos''')
M("C04", CO, "    if (key->asInt() == nullptr) continue;  // Ignore other key types.\n    switch (key->asInt()->value()) {\n      case CwtClaim", "    switch (key->asInt()->value()) {\n      case CwtClaim")
N("C04", CO, "    if (key->asInt() == nullptr) continue;  // Ignore other key types.\n    switch (key->asInt()->value()) {\n      case CwtClaim", "    const cppbor::Int* id = key->asInt();\n    if (!id) continue;\n    switch (id->value()) {\n      case CwtClaim")
N("C04", CO, '''        if (value->asInt() == nullptr) {
          return absl::InvalidArgumentError(
              absl::StrCat("unsupported exp type ", value->type()));
        }
        cwt.expiration_time = absl::FromUnixSeconds(value->asInt()->value());''', '''        if (auto* exp = value->asInt(); exp != nullptr) {
          cwt.expiration_time = absl::FromUnixSeconds(exp->value());
        } else {
          return absl::InvalidArgumentError("unsupported exp type");
        }''')
N("C04", CO, "  if (!kty.has_value() || *kty != CoseKeyType::kSymmetric) {", "  if (kty != CoseKeyType::kSymmetric) {")
N("C04", CO, "  } else if (auto array = item->asArray();\n             array == nullptr || array->size() != 4 ||\n             array->get(0)->type() != cppbor::BSTR ||\n             array->get(1)", "  }\n  const cppbor::Array* array = item->asArray();\n  if (!array || array->size() != 4 ||\n             array->get(0)->type() != cppbor::BSTR ||\n             array->get(1)")
# C05
M("C05", CO, "  return Array(\"Signature1\", std::move(protected_header),\n               Bstr(aad.begin(), aad.end()), std::move(payload))", "  return Array(\"Signature1\", std::move(protected_header),\n               Bstr(), std::move(payload))")
M("C05", CO, "  sig_structure.add(Bstr(aad.begin(), aad.end()));\n", "  sig_structure.add(Bstr());\n")
M("C05", CO, "  sig_structure.add(std::move(*item->asArray()->get(2)->asBstr()));\n", "")
M("C05", CO, "  sig_structure.add(std::move(*item->asArray()->get(2)->asBstr()));\n", "  sig_structure.add(std::move(*item->asArray()->get(0)->asBstr()));\n")
M("C04", CO, '''  if (cwt.issued_at) {
    map.add(CwtClaim::kIat, absl::ToUnixSeconds(*cwt.issued_at));
  }
''', "")
M("C05", CO, "  sig_structure.add(sign_protected ? \"Signature\" : \"Signature1\");", "  sig_structure.add(\"Signature1\");")
M("C05", CR, '''                      digest.size(), sig.get(), public_key_.get()) != 1) {''', '''                      digest.size(), sig.get(), public_key_.get()) < 0) {''')
M("C05", CR, "  auto digest = ComputeSHA256(data);", "  auto digest = ComputeSHA256(signature);")
M("C05", CR, "  if (signature.size() != kCoseP256SignatureLen) {\n    return FCP_STATUS(fcp::INVALID_ARGUMENT)\n           << \"Invalid signature size: \" << signature.size() << \" - \"\n           << ERR_reason_error_string(ERR_get_error());\n  }\n", "")
M("C05", CR, "                             ECDSA_SIG_get0_r(sig.get())) == 1)", "                             ECDSA_SIG_get0_s(sig.get())) == 1)")
M("C05", CR, "  if (ECDSA_SIG_set0(sig.get(), r.release(), s.release()) != 1) {", "  if (ECDSA_SIG_set0(sig.get(), s.release(), r.release()) != 1) {")
N("C05", CO, '''  Array sig_structure;
  sig_structure.add(sign_protected ? "Signature" : "Signature1");''', '''  Array sig_structure;
  if (sign_protected.has_value()) {
    sig_structure.add("Signature");
  } else {
    sig_structure.add("Signature1");
  }''')
N("C05", CR, "  if (ECDSA_do_verify(reinterpret_cast<const uint8_t*>(digest.data()),\n                      digest.size(), sig.get(), public_key_.get()) != 1) {", "  const int valid =\n      ECDSA_do_verify(reinterpret_cast<const uint8_t*>(digest.data()),\n                      digest.size(), sig.get(), public_key_.get());\n  if (valid != 1) {")
# C06
M("C06", PL, '''  if (serialized_payload_size >
      encoded_data.size() - coded_in.CurrentPosition()) {
    return absl::InvalidArgumentError("Payload header is truncated");
  }
''', "")
M("C06", PL, "  auto limit = coded_in.PushLimit(serialized_payload_size);\n", "", "  coded_in.PopLimit(limit);\n", "")
M("C06", PL, "      serialized_payload, ciphertext);", "      ciphertext, serialized_payload);")
M("C06", PL, "  encoded_data = encoded_data.substr(coded_in.CurrentPosition());\n", "")
M("C06", PL, "  if (!payload_header.ParseFromCodedStream(&coded_in)) {\n    return absl::InvalidArgumentError(\"Could not parse serialized payload\");\n  }", "  payload_header.ParseFromCodedStream(&coded_in);")
M("C06", PL, "std::move(*payload_header.mutable_encrypted_symmetric_key()),", "std::move(*payload_header.mutable_encapsulated_public_key()),", "          std::move(*payload_header.mutable_encapsulated_public_key()),\n      .seri", "          std::move(*payload_header.mutable_encrypted_symmetric_key()),\n      .seri")
M("C06", PL, "      .is_gzip_compressed = payload_header.compression_type() ==", "      .is_gzip_compressed = payload_header.compression_type() !=")
M("C06", PL, "    coded_out.WriteVarint32(static_cast<uint32_t>(serialized_payload.size()));", "    coded_out.WriteVarint32(static_cast<uint32_t>(ciphertext.size()));")
M("C06", PL, "  if (!absl::StartsWith(encoded_data, kConfidentialAggPayloadV1MagicBytes)) {\n    return absl::InvalidArgumentError(\"Could not detect magic bytes prefix\");\n  }\n", "")
N("C06", PL, "  encoded_data = encoded_data.substr(coded_in.CurrentPosition());\n", "  encoded_data.remove_prefix(coded_in.CurrentPosition());\n")
N("C06", PL, '''  if (serialized_payload_size >
      encoded_data.size() - coded_in.CurrentPosition()) {''', '''  if (coded_in.CurrentPosition() + static_cast<size_t>(serialized_payload_size) > encoded_data.size()) {''')
N("C06", PL, "      .is_gzip_compressed = payload_header.compression_type() ==\n                            CompressionType::COMPRESSION_TYPE_GZIP,\n  };", "  };\n  header.is_gzip_compressed = payload_header.compression_type() ==\n                            CompressionType::COMPRESSION_TYPE_GZIP;")
