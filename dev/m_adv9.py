from mutate import M, N
CR = "fcp/confidentialcompute/crypto.cc"
CO = "fcp/confidentialcompute/cose.cc"

# ---- C01
M("C01", CR, "std::string blob_nonce(session_nonce.length() + sizeof(uint32_t), '\\0');", "std::string blob_nonce(session_nonce.length() + sizeof(uint32_t), '\\0');\n  counter &= 0xffff;")
M("C01", CR, "std::string GenerateBlobNonce(std::string session_nonce, uint32_t counter) {", "std::string GenerateBlobNonce(std::string session_nonce, uint16_t counter) {", "&counter,\n              sizeof(uint32_t));", "&counter,\n              sizeof(counter));")
M("C01", CR, "  std::memcpy(blob_nonce.data() + session_nonce.length(), &counter,\n              sizeof(uint32_t));", "  std::memcpy(blob_nonce.data() + session_nonce.length(), &counter,\n              sizeof(uint8_t));")
M("C01", CR, "  if (metadata.hpke_plus_aead_data()\n          .rewrapped_symmetric_key_associated_data()\n          .nonce() == GenerateBlobNonce(session_nonce_, counter_)) {", "  if (absl::string_view(metadata.hpke_plus_aead_data()\n          .rewrapped_symmetric_key_associated_data()\n          .nonce()).substr(0, kNonceSize) == session_nonce_) {")
M("C01", CR, "    if (counter_ == UINT32_MAX) {\n      return absl::InternalError(\"Counter has overflowed.\");\n    }\n    counter_++;\n    return absl::OkStatus();", "    counter_++;\n    return absl::OkStatus();")
M("C01", CR, "  return absl::PermissionDeniedError(\n      \"Input nonce", "  counter_++;\n  return absl::PermissionDeniedError(\n      \"Input nonce")
M("C01", CR, "  if (metadata.has_unencrypted()) {", "  if (!metadata.has_hpke_plus_aead_data()) {\n    return absl::OkStatus();\n  }\n  if (metadata.has_unencrypted()) {")
M("C01", CR, "                   nonce.size());\n  session_nonce_", "                   nonce.size() / 2);\n  session_nonce_")
M("C01", CR, "constexpr size_t kNonceSize = 16;", "constexpr size_t kNonceSize = 12;")
M("C01", CR, "  std::string next_blob_nonce = GenerateBlobNonce(session_nonce_, counter_);\n  counter_++;", "  counter_++;\n  std::string next_blob_nonce = GenerateBlobNonce(session_nonce_, counter_);")
M("C01", CR, "  session_nonce_ = std::move(nonce);", "  session_nonce_ = nonce.c_str();")
M("C01", CR, "  session_nonce_ = std::move(nonce);", "  for (char& c : nonce) c &= 0x7f;\n  session_nonce_ = std::move(nonce);")
M("C01", CR, "  session_nonce_ = std::move(nonce);", "  nonce[0] = 1;\n  session_nonce_ = std::move(nonce);")
M("C01", CR, "std::memcpy(blob_nonce.data(), session_nonce.data(), session_nonce.length());", "std::memcpy(blob_nonce.data(), session_nonce.data(), sizeof(uint64_t));")
M("C01", CR, "  if (counter_ == UINT32_MAX) {\n    return absl::InternalError(\"Counter has overflowed.\");\n  }\n  std::string", "  if (counter_ == UINT32_MAX) {\n    counter_ = 0;\n  }\n  std::string")
N("C01", CR, "  if (counter_ == UINT32_MAX) {\n    return absl::InternalError(\"Counter has overflowed.\");\n  }\n  std::string next_blob_nonce = GenerateBlobNonce(session_nonce_, counter_);\n  counter_++;\n  return next_blob_nonce;", "  if (counter_ >= std::numeric_limits<uint32_t>::max()) {\n    return absl::InternalError(\"Counter has overflowed.\");\n  }\n  return GenerateBlobNonce(session_nonce_, counter_++);")
N("C01", CR, "  if (metadata.hpke_plus_aead_data()\n          .rewrapped_symmetric_key_associated_data()\n          .nonce() == GenerateBlobNonce(session_nonce_, counter_)) {\n    if (counter_ == UINT32_MAX) {\n      return absl::InternalError(\"Counter has overflowed.\");\n    }\n    counter_++;\n    return absl::OkStatus();\n  }\n  return absl::PermissionDeniedError(\n      \"Input nonce does not match the expected value.\");",
  "  const std::string& given = metadata.hpke_plus_aead_data()\n          .rewrapped_symmetric_key_associated_data()\n          .nonce();\n  if (given != GenerateBlobNonce(session_nonce_, counter_)) {\n    return absl::PermissionDeniedError(\n      \"Input nonce does not match the expected value.\");\n  }\n  if (counter_ == UINT32_MAX) {\n    return absl::InternalError(\"Counter has overflowed.\");\n  }\n  ++counter_;\n  return absl::OkStatus();")

# ---- C02
M("C02", CR, "          reinterpret_cast<const uint8_t*>(plaintext.data()), plaintext.size(),\n", "          reinterpret_cast<const uint8_t*>(plaintext.data()), plaintext.size() & ~size_t{15},\n")
M("C02", CR, "          reinterpret_cast<const uint8_t*>(ciphertext_associated_data.data()),\n          ciphertext_associated_data.size()) != 1) {", "          reinterpret_cast<const uint8_t*>(ciphertext_associated_data.data()),\n          0) != 1) {")
M("C02", CR, "          ciphertext_associated_data.size()) != 1) {", "          ciphertext_associated_data.size()) != 1 && !plaintext_len) {")
M("C02", CR, "                                        cwt.public_key->x, associated_data));", "                                        cwt.public_key->x, \"\"));")
M("C02", CR, "  if (!cwt.public_key ||\n      cwt.public_key->algorithm !=\n          crypto_internal::kHpkeBaseX25519Sha256Aes128Gcm ||\n      cwt.public_key->curve != crypto_internal::kX25519) {", "  if (!cwt.public_key ||\n      (cwt.public_key->algorithm !=\n          crypto_internal::kHpkeBaseX25519Sha256Aes128Gcm &&\n      cwt.public_key->curve != crypto_internal::kX25519)) {")
M("C02", CR, "      cwt.public_key->curve != crypto_internal::kX25519) {", "      cwt.public_key->curve.value_or(crypto_internal::kX25519) != crypto_internal::kX25519) {")
M("C02", CR, "  if (key.algorithm != crypto_internal::kAeadAes128GcmSivFixedNonce) {", "  if (key.algorithm && key.algorithm != crypto_internal::kAeadAes128GcmSivFixedNonce) {")
M("C02", CR, "  ciphertext.resize(ciphertext_len);\n", "")
M("C02", CR, "  plaintext.resize(plaintext_len);\n  return plaintext;", "  return plaintext;")
M("C02", CR, "  plaintext.resize(plaintext_len);\n  return plaintext;", "  return plaintext.c_str();")
M("C02", CR, ("      hpke_aead_(EVP_hpke_aes_128_gcm()),", 1), "      hpke_aead_(EVP_hpke_aes_256_gcm()),")
M("C02", CR, "          associated_data.size()) != 1) {\n    // Clear the symmetric key", "          associated_data.size()) < 0) {\n    // Clear the symmetric key")
M("C02", CR, "          hpke_key_.get(), hpke_kdf_, hpke_aead_, encrypted_symmetric_key,\n          encapped_key, encrypted_symmetric_key_associated_data));", "          hpke_key_.get(), hpke_kdf_, hpke_aead_, encrypted_symmetric_key,\n          encapped_key, ciphertext_associated_data));")
M("C02", CR, "  encrypted_symmetric_key.resize(encrypted_symmetric_key_len);\n", "")
M("C02", CR, "  symmetric_key.resize(symmetric_key_len);\n  return symmetric_key;", "  symmetric_key.resize(symmetric_key_len + 1);\n  return symmetric_key;")
M("C02", CR, "      key.k.size(), EVP_AEAD_DEFAULT_TAG_LENGTH));\n  if (aead_ctx == nullptr) {\n    return FCP_STATUS(fcp::INTERNAL)\n           << \"Failed to initialize EVP_AEAD_CTX: \"\n           << ERR_reason_error_string(ERR_get_error());\n  }\n  std::string plaintext", "      key.k.size(), 8));\n  if (aead_ctx == nullptr) {\n    return FCP_STATUS(fcp::INTERNAL)\n           << \"Failed to initialize EVP_AEAD_CTX: \"\n           << ERR_reason_error_string(ERR_get_error());\n  }\n  std::string plaintext")
N("C02 C03", CR, "  if (key.algorithm != crypto_internal::kAeadAes128GcmSivFixedNonce) {", "  if (!key.algorithm.has_value() || *key.algorithm != crypto_internal::kAeadAes128GcmSivFixedNonce) {")
N("C02 C03", CR, "  if (!cwt.public_key ||\n      cwt.public_key->algorithm !=\n          crypto_internal::kHpkeBaseX25519Sha256Aes128Gcm ||\n      cwt.public_key->curve != crypto_internal::kX25519) {\n    return", "  const bool supported = cwt.public_key.has_value() &&\n      cwt.public_key->algorithm ==\n          crypto_internal::kHpkeBaseX25519Sha256Aes128Gcm &&\n      cwt.public_key->curve == crypto_internal::kX25519;\n  if (!supported) {\n    return")

# ---- C03
M("C03", CR, "  RAND_bytes(reinterpret_cast<uint8_t*>(symmetric_key.k.data()),\n             symmetric_key.k.size());", "  static std::string* fresh = nullptr;\n  if (fresh == nullptr) {\n    RAND_bytes(reinterpret_cast<uint8_t*>(symmetric_key.k.data()),\n               symmetric_key.k.size());\n    fresh = new std::string(symmetric_key.k);\n  }\n  symmetric_key.k = *fresh;")
M("C03", CR, "             symmetric_key.k.size());\n  // Cleanse", "             symmetric_key.k.size() / 2);\n  // Cleanse")
M("C03", CR, "    OPENSSL_cleanse(symmetric_key.k.data(), symmetric_key.k.size());\n", "    symmetric_key.k.clear();\n")
M("C03", CR, "    OPENSSL_cleanse(symmetric_key.k.data(), symmetric_key.k.size());\n", "    OPENSSL_cleanse(&symmetric_key.k, sizeof(symmetric_key.k));\n")
M("C03", CR, "    OPENSSL_cleanse(serialized_symmetric_key.data(),\n                    serialized_symmetric_key.size());", "    OPENSSL_cleanse(serialized_symmetric_key.data(),\n                    symmetric_key.k.size());")
M("C03", CR, "  absl::Cleanup serialized_key_cleanup = [&serialized_symmetric_key]() {", "  absl::Cleanup serialized_key_cleanup = [serialized_symmetric_key]() mutable {")
M("C03", CR, "    OPENSSL_cleanse(key.k.data(), key.k.size());\n  };", "    OPENSSL_cleanse(key.k.data(), key.k.size());\n  };\n  std::move(key_cleanup).Cancel();")
M("C03", CR, "  absl::Cleanup key_cleanup = [&key]() {\n    OPENSSL_cleanse(key.k.data(), key.k.size());\n  };\n  if (key.algorithm != crypto_internal::kAeadAes128GcmSivFixedNonce) {\n    return absl::InvalidArgumentError(\"unsupported symmetric key algorithm \");\n  }\n", "  if (key.algorithm != crypto_internal::kAeadAes128GcmSivFixedNonce) {\n    return absl::InvalidArgumentError(\"unsupported symmetric key algorithm \");\n  }\n  absl::Cleanup key_cleanup = [&key]() {\n    OPENSSL_cleanse(key.k.data(), key.k.size());\n  };\n")
M("C03", CR, "    OPENSSL_cleanse(plaintext.data(), ciphertext.size());\n", "    OPENSSL_cleanse(plaintext.data(), plaintext_len);\n")
M("C03", CR, "    OPENSSL_cleanse(symmetric_key.data(), symmetric_key.size());\n    return", "    OPENSSL_cleanse(symmetric_key.data(), symmetric_key_len);\n    return")
M("C03", CR, "  FCP_ASSIGN_OR_RETURN(SymmetricKey key, SymmetricKey::Decode(symmetric_key));", "  std::string copy = symmetric_key;\n  FCP_ASSIGN_OR_RETURN(SymmetricKey key, SymmetricKey::Decode(copy));")
M("C03", CR, "  FCP_ASSIGN_OR_RETURN(OkpCwt cwt, OkpCwt::Decode(recipient_public_key));\n  if (!cwt", "  FCP_ASSIGN_OR_RETURN(OkpCwt cwt, OkpCwt::Decode(recipient_public_key));\n  symmetric_key.k[0] = 0;\n  if (!cwt")
N("C03", CR, "  absl::Cleanup key_cleanup = [&symmetric_key]() {\n    OPENSSL_cleanse(symmetric_key.k.data(), symmetric_key.k.size());\n  };", "  std::string& raw_key = symmetric_key.k;\n  auto key_cleanup = absl::MakeCleanup([&raw_key] {\n    OPENSSL_cleanse(raw_key.data(), raw_key.size());\n  });")
N("C03", CR, "    OPENSSL_cleanse(plaintext.data(), ciphertext.size());\n", "    OPENSSL_cleanse(plaintext.data(), plaintext.size());\n")

# ---- C04
M("C04", CO, ("    if (key->asInt() == nullptr) continue;  // Ignore other key types.\n", 2), "")
M("C04", CO, "  std::optional<uint64_t> kty;\n  SymmetricKey symmetric_key;", "  std::optional<uint64_t> kty = CoseKeyType::kSymmetric;\n  SymmetricKey symmetric_key;")
M("C04", CO, "  if (!kty.has_value() || *kty != CoseKeyType::kSymmetric) {", "  if (kty.has_value() && *kty != CoseKeyType::kSymmetric) {")
M("C04", CO, "  if (!kty.has_value() || *kty != CoseKeyType::kOkp) {", "  if (!kty.has_value() || *kty == CoseKeyType::kSymmetric) {")
M("C04", CO, "  std::optional<uint64_t> kty;\n  OkpKey okp_key;", "  std::optional<uint8_t> kty;\n  OkpKey okp_key;")
M("C04", CO, "    map.add(CoseKeyParameter::kOkpX, Bstr(x));", "    map.add(CoseKeyParameter::kOkpCrv, Bstr(x));")
M("C04", CO, "    map.add(CwtClaim::kIat, absl::ToUnixSeconds(*cwt.issued_at));", "    map.add(CwtClaim::kIat, absl::ToUnixMillis(*cwt.issued_at));")
M("C04", CO, "    map.add(CwtClaim::kIat, absl::ToUnixSeconds(*cwt.issued_at));", "    map.add(CwtClaim::kIat, absl::ToUnixSeconds(*cwt.expiration_time));")
M("C04", CO, "        cwt.issued_at = absl::FromUnixSeconds(value->asInt()->value());", "        cwt.expiration_time = absl::FromUnixSeconds(value->asInt()->value());")
M("C04", CO, "    map.add(CwtClaim::kPublicKey, Bstr(encoded_public_key));", "    map.add(CwtClaim::kOakPublicKey - 1, Bstr(encoded_public_key));")
M("C04", CO, "  } else if (end_pos != serialized_payload.data() + serialized_payload.size()) {", "  } else if (end_pos > serialized_payload.data() + serialized_payload.size()) {")
M("C04", CO, "  } else if (end_pos != serialized_header.data() + serialized_header.size()) {", "  } else if (end_pos == serialized_header.data()) {")
M("C04", CO, "             array == nullptr || array->size() != 4 ||\n             array->get(0)->type() != cppbor::BSTR ||\n             array->get(1)->type() != cppbor::MAP ||", "             array == nullptr || array->size() < 3 ||\n             array->get(0)->type() != cppbor::BSTR ||\n             array->get(1)->type() != cppbor::MAP ||")
M("C04", CO, "             array->get(1)->type() != cppbor::MAP ||\n             array->get(2)->type() != cppbor::BSTR) {", "             array->get(1)->type() != cppbor::MAP) {")
M("C04", CO, "        sigs->size() > 0 && sigs->get(0)->type() == cppbor::ARRAY &&\n", "        sigs->get(0)->type() == cppbor::ARRAY && sigs->size() > 0 &&\n")
M("C04", CO, "        sigs->get(0)->asArray()->size() == 3 &&\n", "")
M("C04", CO, "          return absl::InvalidArgumentError(\"failed to parse configuration\");\n", "          cwt.config_properties.Clear();\n")
M("C04", CO, "        if (value->type() != cppbor::BSTR) {\n          return absl::InvalidArgumentError(\n              absl::StrCat(\"unsupported k type \", value->type()));\n        }", "        if (value->type() != cppbor::BSTR && value->type() != cppbor::TSTR) {\n          return absl::InvalidArgumentError(\n              absl::StrCat(\"unsupported k type \", value->type()));\n        }")
M("C04", CO, "        if (value->asInt() == nullptr) {\n          return absl::InvalidArgumentError(\n              absl::StrCat(\"unsupported curve type \", value->type()));\n        }\n        okp_key.curve = value->asInt()->value();", "        if (value->asInt() == nullptr) break;\n        okp_key.curve = value->asInt()->value();")
M("C04", CO, "  if (!parsed_signature_and_protected_header) {\n    return absl::InvalidArgumentError(\"CWT is invalid\");\n  }\n", "")
M("C04", CO, "  FCP_RETURN_IF_ERROR(\n      ParseCwtPayload(item->asArray()->get(2)->asBstr()->value(), cwt));\n", "  (void)ParseCwtPayload(item->asArray()->get(2)->asBstr()->value(), cwt);\n")
M("C04", CO, "    map.add(CoseKeyParameter::kAlg, *algorithm);\n  }\n  if (!k.empty()) {", "    map.add(CoseKeyParameter::kAlg, static_cast<int8_t>(*algorithm));\n  }\n  if (!k.empty()) {")
M("C04", CO, "        okp_key.x.assign(value->asBstr()->value().begin(),\n                         value->asBstr()->value().end());", "        okp_key.x = reinterpret_cast<const char*>(value->asBstr()->value().data());")
M("C04", CO, "        okp_key.key_id.assign(value->asBstr()->value().begin(),\n                              value->asBstr()->value().end());", "        okp_key.x.assign(value->asBstr()->value().begin(),\n                              value->asBstr()->value().end());")
N("C04", CO, "  if (!kty.has_value() || *kty != CoseKeyType::kSymmetric) {", "  if (kty.value_or(0) != CoseKeyType::kSymmetric) {")
N("C04", CO, "        if (value->asInt() == nullptr) {\n          return absl::InvalidArgumentError(\n              absl::StrCat(\"unsupported curve type \", value->type()));\n        }\n        okp_key.curve = value->asInt()->value();", "        if (const auto* number = value->asInt(); number != nullptr) {\n          okp_key.curve = number->value();\n        } else {\n          return absl::InvalidArgumentError(\n              absl::StrCat(\"unsupported curve type \", value->type()));\n        }")
N("C04 C05", CO, "  if (item->asArray()->get(3)->type() == cppbor::ARRAY) {\n    if (cppbor::Array* sigs = item->asArray()->get(3)->asArray();", "  const auto& last = item->asArray()->get(3);\n  if (last->asArray() != nullptr) {\n    if (cppbor::Array* sigs = last->asArray();")

# ---- C05
M("C05", CO, "  return Array(\"Signature1\", std::move(protected_header),\n               Bstr(aad.begin(), aad.end()), std::move(payload))", "  return Array(\"Signature\", std::move(protected_header),\n               Bstr(aad.begin(), aad.end()), std::move(payload))")
M("C05", CO, "  sig_structure.add(sign_protected ? \"Signature\" : \"Signature1\");", "  sig_structure.add(\"Signature1\");")
M("C05", CO, "  if (sign_protected) {\n    sig_structure.add(std::move(*sign_protected));\n  }\n  sig_structure.add(Bstr(aad.begin(), aad.end()));", "  sig_structure.add(Bstr(aad.begin(), aad.end()));\n  if (sign_protected) {\n    sig_structure.add(std::move(*sign_protected));\n  }")
M("C05", CO, "  sig_structure.add(Bstr(aad.begin(), aad.end()));", "  sig_structure.add(Bstr(std::string(aad.data())));")
M("C05", CO, "      sign_protected = std::move(*sigs->get(0)->asArray()->get(0)->asBstr());", "      sign_protected = Bstr(std::string());")
M("C05", CO, "  sig_structure.add(std::move(*item->asArray()->get(0)->asBstr()));", "  sig_structure.add(std::move(*item->asArray()->get(2)->asBstr()));")
M("C05", CR, "  if (signature.size() != kCoseP256SignatureLen) {", "  if (signature.size() < kCoseP256SignatureLen) {")
M("C05", CR, "  auto digest = ComputeSHA256(data);", "  auto digest = ComputeSHA256(data.substr(0, 1024));")
M("C05", CR, "  auto digest = ComputeSHA256(data);", "  auto digest = ComputeSHA256(absl::string_view(data.data()));")
M("C05", CR, "                      digest.size(), sig.get(), public_key_.get()) != 1) {", "                      digest.size() / 2, sig.get(), public_key_.get()) != 1) {")
M("C05", CR, "      BN_bin2bn(reinterpret_cast<const uint8_t*>(signature.data() +\n                                                 kCoseP256SignatureLen / 2),", "      BN_bin2bn(reinterpret_cast<const uint8_t*>(signature.data()),")
M("C05", CR, "ECDSA_SIG_set0(sig.get(), r.release(), s.release())", "ECDSA_SIG_set0(sig.get(), s.release(), r.release())")
M("C05", CR, "  FCP_ASSIGN_OR_RETURN(cwt.signature, signer(sig_structure));\n  return cwt.Encode();", "  FCP_ASSIGN_OR_RETURN(cwt.signature, signer(sig_structure));\n  cwt.algorithm = signer_algorithm + 1;\n  return cwt.Encode();")
M("C05", CR, "  FCP_ASSIGN_OR_RETURN(cwt.signature, signer(sig_structure));\n  return cwt.Encode();", "  FCP_ASSIGN_OR_RETURN(cwt.signature, signer(sig_structure));\n  cwt.issued_at = absl::Now();\n  return cwt.Encode();")
M("C05", CR, "  FCP_ASSIGN_OR_RETURN(std::string sig_structure,\n                       cwt.BuildSigStructureForSigning(/*aad=*/\"\"));", "  FCP_ASSIGN_OR_RETURN(std::string sig_structure,\n                       cwt.public_key->Encode());")
M("C05", CR, "  cwt.public_key->x.resize(public_key_len);\n\n  FCP_ASSIGN_OR_RETURN(std::string sig_structure,\n                       cwt.BuildSigStructureForSigning(/*aad=*/\"\"));", "  FCP_ASSIGN_OR_RETURN(std::string sig_structure,\n                       cwt.BuildSigStructureForSigning(/*aad=*/\"\"));\n  cwt.public_key->x.resize(public_key_len);\n")
M("C05", CO, "  return Array(std::move(protected_header), std::move(unprotected_header),\n               std::move(payload), Bstr(signature))", "  return Array(std::move(unprotected_header), std::move(protected_header),\n               std::move(payload), Bstr(signature))")
M("C05", CO, "  if (!cwt.config_properties.fields().empty()) {", "  if (cwt.config_properties.fields().size() > 1) {")
N("C05", CR, "  if (ECDSA_do_verify(reinterpret_cast<const uint8_t*>(digest.data()),\n                      digest.size(), sig.get(), public_key_.get()) != 1) {\n    return", "  const int valid = ECDSA_do_verify(reinterpret_cast<const uint8_t*>(digest.data()),\n                      digest.size(), sig.get(), public_key_.get());\n  if (valid == 1) return absl::OkStatus();\n  {\n    return", "           << \"Invalid signature: \" << signature << \" - \"\n           << ERR_reason_error_string(ERR_get_error());\n  }\n  return absl::OkStatus();\n", "           << \"Invalid signature: \" << signature << \" - \"\n           << ERR_reason_error_string(ERR_get_error());\n  }\n")
N("C05", CR, "      BN_bin2bn(reinterpret_cast<const uint8_t*>(signature.data() +\n                                                 kCoseP256SignatureLen / 2),\n                kCoseP256SignatureLen / 2, nullptr));", "      BN_bin2bn(reinterpret_cast<const uint8_t*>(\n                    signature.substr(kCoseP256SignatureLen / 2).data()),\n                signature.size() / 2, nullptr));")

# ---- further rewrites
N("C01 C03", CR, "  (void)RAND_bytes(reinterpret_cast<unsigned char*>(nonce.data()),\n                   nonce.size());", "  (void)RAND_bytes(reinterpret_cast<unsigned char*>(nonce.data()), kNonceSize);")
N("C01", CR, "  std::string blob_nonce(session_nonce.length() + sizeof(uint32_t), '\\0');\n  std::memcpy(blob_nonce.data(), session_nonce.data(), session_nonce.length());\n  std::memcpy(blob_nonce.data() + session_nonce.length(), &counter,\n              sizeof(uint32_t));\n  return blob_nonce;", "  std::string blob_nonce = session_nonce;\n  blob_nonce.append(reinterpret_cast<const char*>(&counter), sizeof(counter));\n  return blob_nonce;")
N("C02 C03", CR, "  std::string plaintext(ciphertext.size(), '\\0');\n  size_t plaintext_len = 0;", "  const size_t max_len = ciphertext.size();\n  std::string plaintext(max_len, '\\0');\n  size_t plaintext_len = 0;")
N("C02 C03", CR, "  plaintext.resize(plaintext_len);\n  return plaintext;", "  return plaintext.substr(0, plaintext_len);")
N("C02 C03", CR, "  plaintext.resize(plaintext_len);\n  return plaintext;", "  plaintext.erase(plaintext_len);\n  return plaintext;")
N("C02 C03", CR, "  RAND_bytes(reinterpret_cast<uint8_t*>(symmetric_key.k.data()),\n             symmetric_key.k.size());", "  RAND_bytes(reinterpret_cast<uint8_t*>(symmetric_key.k.data()),\n             EVP_AEAD_key_length(aead_));")
N("C03 C02", CR, "  SymmetricKey symmetric_key{\n      .algorithm = crypto_internal::kAeadAes128GcmSivFixedNonce,\n      .k = std::string(EVP_AEAD_key_length(aead_), '\\0'),\n  };\n", "  SymmetricKey symmetric_key;\n  symmetric_key.algorithm = crypto_internal::kAeadAes128GcmSivFixedNonce;\n  symmetric_key.k.resize(EVP_AEAD_key_length(aead_));\n")
N("C03", CR, "    OPENSSL_cleanse(serialized_symmetric_key.data(),\n                    serialized_symmetric_key.size());", "    char* bytes = serialized_symmetric_key.data();\n    const size_t count = serialized_symmetric_key.length();\n    OPENSSL_cleanse(bytes, count);")
N("C03 C02", CR, "  std::string symmetric_key(encrypted_symmetric_key.size(), '\\0');", "  std::string symmetric_key;\n  symmetric_key.resize(encrypted_symmetric_key.size());")
N("C05", CR, "  auto data_digest = ComputeSHA256(data);\n", "  const std::string data_digest = ComputeSHA256(data);\n", "ECDSA_do_sign(reinterpret_cast<uint8_t*>(data_digest.data()),", "ECDSA_do_sign(reinterpret_cast<const uint8_t*>(data_digest.data()),")
N("C05", CR, "  auto digest = ComputeSHA256(data);\n", "  std::string digest = ComputeSHA256(absl::string_view(data.data(), data.size()));\n")
N("C04 C05", CO, "  sig_structure.add(Bstr(aad.begin(), aad.end()));", "  sig_structure.add(Bstr(std::string(aad)));")
N("C04 C05", CO, "  return Array(std::move(protected_header), std::move(unprotected_header),\n               std::move(payload), Bstr(signature))\n      .toString();", "  Array token;\n  token.add(std::move(protected_header));\n  token.add(std::move(unprotected_header));\n  token.add(std::move(payload));\n  token.add(Bstr(signature));\n  return token.toString();")
N("C04", CO, "        okp_key.x.assign(value->asBstr()->value().begin(),\n                         value->asBstr()->value().end());", "        okp_key.x = std::string(\n            reinterpret_cast<const char*>(value->asBstr()->value().data()),\n            value->asBstr()->value().size());")
N("C04", CO, "  for (const auto& [key, value] : *item->asMap()) {\n    if (key->asInt() == nullptr) continue;  // Ignore other key types.\n    switch (key->asInt()->value()) {\n      case CoseKeyParameter::kKty:\n        if (value->asInt() == nullptr) {\n          return absl::InvalidArgumentError(\n              absl::StrCat(\"unsupported kty type \", value->type()));\n        }\n        kty = value->asInt()->value();\n        break;\n\n      case CoseKeyParameter::kAlg:", "  for (const auto& entry : *item->asMap()) {\n    const auto& key = entry.first;\n    const auto& value = entry.second;\n    if (key->asInt() == nullptr) continue;  // Ignore other key types.\n    switch (key->asInt()->value()) {\n      case CoseKeyParameter::kKty:\n        if (value->asInt() == nullptr) {\n          return absl::InvalidArgumentError(\n              absl::StrCat(\"unsupported kty type \", value->type()));\n        }\n        kty = value->asInt()->value();\n        break;\n\n      case CoseKeyParameter::kAlg:")
N("C04", CO, "  bool parsed_signature_and_protected_header = false;\n", "  bool parsed_signature_and_protected_header = false;\n  cwt.signature.clear();\n")
N("C05", CR, "  FCP_ASSIGN_OR_RETURN(cwt.signature, signer(sig_structure));\n  return cwt.Encode();", "  absl::StatusOr<std::string> signature = signer(sig_structure);\n  if (!signature.ok()) return signature.status();\n  cwt.signature = *std::move(signature);\n  return cwt.Encode();")
N("C05", CR, "  if (signature.size() != kCoseP256SignatureLen) {", "  if (signature.length() < kCoseP256SignatureLen ||\n      signature.length() > kCoseP256SignatureLen) {")
