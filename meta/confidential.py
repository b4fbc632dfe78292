from . import P, NA, ENGINE

C = "fcp/confidentialcompute/"
CT = "The runnable tests compile the payload codec but exercise none of this library; hostile inputs and failing library calls are never tried."

P("C01", "A blob nonce is accepted at most once and only in order",
  """An encrypted blob passes the nonce check only if its nonce equals the one built from the session nonce and the current counter, and every accepted
  blob advances the counter by exactly one while a refused blob leaves it alone. The generator issues exactly the nonces the checker expects, in the same
  order and from the same start, and neither side ever lets its counter wrap round to repeat a nonce. The session nonce consists of at least 16 bytes from
  the cryptographic random generator and never changes.""",
  "histories,inputs", "for every sequence of blobs presented and every number of nonces issued",
  CT + " Replays after a long history and counter overflow are out of reach of a test.",
  [C + "crypto.cc", C + "crypto.h"], [{"name": "nonce checker and generator", "where": C + "crypto.cc"}],
  ENGINE + "; counter effects on accepting and refusing paths, structural comparison of the two sides' nonce terms",
  "Freshness of the random bytes is the library's guarantee.",
  ["accept and refuse decisions over a sequence of blobs"])

P("C02", "Message decryption never yields data that was not authenticated",
  """Plaintext is returned only after unwrapping the message key and opening the message both succeeded, with each step authenticating the whole
  associated data given for it. Encryption seals the whole message, binds the same associated data to both the message and the wrapped key, and refuses
  recipient keys for another algorithm or curve. Both sides use the same primitives and parameters, and no result is reported as success while any library
  call on the way failed.""",
  "inputs,faults", "for every ciphertext, key, associated data and library failure",
  CT + " Forgeries and partial library failures cannot be enumerated.",
  [C + "crypto.cc"], [{"name": "message encryption and decryption", "where": C + "crypto.cc"}],
  ENGINE + "; must-succeed-before-return over library calls, value flow into the authenticated arguments, sibling comparison of both constructors",
  "The cryptographic strength of the primitives is assumed.",
  ["decryption results for altered ciphertext, key or associated data"])

P("C03", "Message keys are fresh, secret and erased on every exit",
  """Each message is encrypted under a key drawn from the random generator for that message alone. The key and its serialized form are erased in full
  before encryption or decryption returns, on success and on every failure, and the output of an opening step that failed to authenticate is erased too.
  A decryptor always generates its own key pair and never reads the private half out.""",
  "inputs,faults", "for every exit of encryption and decryption, including each failure",
  CT + " Memory left behind on a failure path is invisible to functional tests.",
  [C + "crypto.cc"], [{"name": "key handling", "where": C + "crypto.cc"}],
  ENGINE + "; deferred clean-ups are run at each scope exit and every exit is checked for the erasures",
  "Erasure of copies made inside the library is not decided.",
  ["memory contents after a call", "key bytes requested per message"])

P("C04", "Decoding keys and tokens is safe and strict for any bytes",
  """Whatever bytes are given, decoding a key or web token reads an element only as the type it was found to have and an array element only if the array
  is that long; anything malformed is refused with an error. Input that fails to parse, carries trailing data or describes a key of another kind is never
  accepted. Every member is encoded under the same identifier it is decoded from.""",
  "inputs", "for every byte string given to a decoder and every combination of members encoded",
  CT + " Hostile encodings are endless and crash only in particular combinations of types.",
  [C + "cose.cc"], [{"name": "decoders", "where": C + "cose.cc"}],
  ENGINE + "; type facts required at each down-cast and element access, cross-check of encoder and decoder tables",
  "The CBOR parser itself is outside the repository and assumed correct.",
  ["decode results and crashes for arbitrary input"])

P("C05", "Signatures cover the whole token and only valid ones are accepted",
  """The structure signed and the structure verified both consist of the right context string, every protected header, the additional data and the
  whole payload, in that order. A signature is accepted only if it has the right length, its two halves are read in the order in which signing writes them, and it
  was found valid for the digest of exactly the given data; a verifier exists only for a valid public key. The public key a decryptor publishes is its own
  and is signed.""",
  "inputs", "for every token, signature, key and additional data",
  CT + " A member left out of the signed structure does not disturb honest use.",
  [C + "cose.cc", C + "crypto.cc"], [{"name": "signature structures", "where": C + "cose.cc"}, {"name": "ECDSA signer and verifier", "where": C + "crypto.cc"}],
  ENGINE + "; composition of the array terms, must-succeed-before-accept, value flow into the digest",
  "Soundness of ECDSA is assumed.",
  ["verification results for altered tokens and signatures"])

P("C06", "Client payload framing is exact and refuses inconsistent input",
  """An encoded payload is the format marker, the length of the encoded header, the header and then the ciphertext, and decoding restores each header
  member and leaves exactly the ciphertext. Decoding refuses data without the marker, with an unreadable length or header, or whose header length
  exceeds the remaining data; the header is never parsed beyond its declared length.""",
  "inputs", "for every header, ciphertext and received byte string",
  "The codec is compiled by the build but no runnable test calls it; inconsistent lengths are endless.",
  [C + "client_payload.cc"], [{"name": "payload codec", "where": C + "client_payload.cc"}],
  ENGINE + "; length bound required at the parse limit, cross-check of members written and read",
  "Protobuf's own encoding is assumed.",
  ["decode results for arbitrary input", "encode/decode round trip"])
