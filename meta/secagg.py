from . import P, NA, ENGINE

C = "fcp/secagg/client/"
S = "fcp/secagg/server/"
H = "fcp/secagg/shared/"
NT = "No secure-aggregation test is in the runnable baseline, and the upstream ones use a handful of fixed client counts, drop-out patterns and message orders."

P("S01", "A secure aggregation client's input leaves the device only masked",
  """Every vector a secure aggregation client sends to the server is the sum, modulo that vector's modulus, of the client's input and a mask
  that includes the client's own self mask and one pairwise mask per neighbour that is still alive. The shares of the client's secret keys
  leave only inside messages encrypted under the key agreed with the neighbour they are meant for, each carrying that neighbour's share of
  both secrets, not swapped.""",
  "inputs,histories", "for every input, neighbour set, drop-out pattern and session in which a client reaches the masked input step",
  NT + " A test comparing one output cannot show that no path exists on which an unmasked value or an unencrypted share reaches the sender.",
  [C + "secagg_client_r2_masked_input_coll_base_state.cc", C + "secagg_client_r1_share_keys_base_state.cc"],
  [{"name": "masks added to the input before the response is built", "where": C + "secagg_client_r2_masked_input_coll_base_state.cc"},
   {"name": "per-neighbour encryption of key shares", "where": C + "secagg_client_r1_share_keys_base_state.cc"}],
  ENGINE + "; value-flow from input and secrets to the send call",
  "Decides the construction of the message on every path. The statistical quality of the masks and the cipher itself are assumed.",
  ["client-to-server messages"])

P("S02", "Unmasking reveals one share per neighbour, of the kind its fate requires",
  """In the unmasking step a client sends exactly one entry per neighbour, in neighbour order: the self-mask share for a neighbour that is
  alive, the pairwise-key share for one that dropped out after sharing keys, and an empty entry otherwise. A server request that names an
  unknown neighbour, the client itself, or a neighbour that is already gone makes the client abort without revealing any share.""",
  "inputs,histories", "for every unmasking request, including malicious ones, and every history of neighbour drop-outs",
  NT + " The property is about the absence of any request that obtains both shares of one neighbour.",
  [C + "secagg_client_r3_unmasking_state.cc", C + "other_client_state.h"],
  [{"name": "per-neighbour state decides the share kind", "where": C + "secagg_client_r3_unmasking_state.cc"}],
  ENGINE + "; per-iteration typestate of the response list",
  "Decides the kind, source index and count of entries per loop iteration on every path, and the validation of the request before any entry.",
  ["client-to-server messages"])

P("S03", "A client proceeds only while enough neighbours remain",
  """A secure aggregation client sends its key shares, its masked input and its unmasking response only if, after discounting every neighbour
  known to have dropped out, at least the configured minimum number of neighbours survives; otherwise it aborts. The secrets it splits
  are split with exactly that minimum as the reconstruction threshold.""",
  "inputs,histories,configurations", "for every number of neighbours, threshold and drop-out history",
  NT + " Boundary combinations of threshold and drop-out order are unbounded.",
  [C + "secagg_client_r1_share_keys_base_state.cc", C + "secagg_client_r2_masked_input_coll_base_state.cc", C + "secagg_client_r3_unmasking_state.cc"],
  [{"name": "alive-neighbour counters compared with the minimum", "where": C + "secagg_client_r3_unmasking_state.cc"}],
  ENGINE + "; must-pass-through of the threshold comparison plus exact counting of alive neighbours",
  "Decides the guard before each send and that each drop-out is counted; arithmetic beyond linear terms is not modelled.",
  ["client-to-server messages", "client state"])

P("S04", "An aborted or completed client never speaks again",
  """Once a secure aggregation client has aborted or completed it sends nothing more and refuses further input and messages. An abort request
  from the application or the server always ends the session: the application's abort is announced to the server, a server abort is not
  answered, a requested abort interrupts a running step, and a server abort marked as early success counts as completion only where no more
  is expected of the client.""",
  "schedules,histories", "for every state, every order of calls and messages, and every moment at which an abort is requested from another thread",
  NT + " The moment of an asynchronous abort is a schedule tests do not enumerate.",
  [C + "secagg_client.cc", C + "secagg_client_state.cc", C + "secagg_client_alive_base_state.cc"],
  [{"name": "state object replaced under the lock", "where": C + "secagg_client.cc"},
   {"name": "abort flag polled in loops", "where": C + "secagg_client_alive_base_state.cc"}],
  ENGINE + "; typestate of the session object, lock-held facts, effect analysis of terminal states",
  "Decides which calls are reachable per state class and that loops in long steps poll the abort flag.",
  ["client-to-server messages", "client state"])

P("S05", "Malformed or unexpected server messages make the client abort",
  """A secure aggregation client that receives a message of a kind not expected in its state, or one whose contents are malformed (wrong key
  or session id length, wrong number of entries, its own key absent or repeated, a share that is missing, unexpected, undecryptable or
  unparsable), aborts the session, tells the server, and sends nothing derived from that message. Input that does not match the session's
  vector specification is refused.""",
  "inputs,histories", "for every byte content of every server message in every state, and every input map",
  NT + " Malformed contents are an open-ended input space.",
  [C + "secagg_client_r1_share_keys_base_state.cc", C + "secagg_client_r2_masked_input_coll_base_state.cc", C + "secagg_client_alive_base_state.cc"],
  [{"name": "validation before use in each round", "where": C + "secagg_client_r1_share_keys_base_state.cc"}],
  ENGINE + "; validation-before-use facts on message fields",
  "Decides that each listed check guards the send on every path.",
  ["client-to-server messages", "client state"])

P("S06", "Pairwise masks cancel between clients and server",
  """For every pair of neighbours one of them adds and the other subtracts the same pairwise mask, decided by the same ordering on both sides, so
  the masks of surviving pairs cancel in the sum. When the server corrects the sum it removes each contributor's self mask once and, for
  each contributor and each of its neighbours that dropped out after sharing keys, removes the pairwise mask with the sign opposite to
  the one the contributor applied; clients that contributed no input get no correction.""",
  "inputs,histories", "for every number of clients, graph and drop-out pattern",
  NT + " Cancellation must hold for all pairs; a test shows it for the few patterns it runs.",
  [C + "secagg_client_r2_masked_input_coll_base_state.cc", S + "secagg_server_protocol_impl.cc", S + "aes/aes_secagg_server_protocol_impl.cc", H + "map_of_masks.cc"],
  [{"name": "index comparison on the client", "where": C + "secagg_client_r2_masked_input_coll_base_state.cc"},
   {"name": "outgoing-neighbour test on the server", "where": S + "secagg_server_protocol_impl.cc"}],
  ENGINE + "; sign cross-check between the client's and the server's guarded insertions into add and subtract lists",
  "Decides the sign conventions of both sides against each other and that all lists reach the mask expansion.",
  ["released sum"])

P("S07", "The server does nothing for a finished session or an unknown client",
  """Once a secure aggregation server has aborted or completed, every further message, abort request, client removal and attempt to proceed is
  refused with an error and has no effect. A message or removal for a client id outside the session is refused with an error; a client
  that has already been dropped is neither dropped a second time nor contacted.""",
  "inputs,histories", "for every sequence of API calls and every client id",
  NT, [S + "secagg_server.cc", S + "secagg_server_state.cc", S + "secagg_server_aborted_state.cc", S + "secagg_server_completed_state.cc"],
  [{"name": "terminal-state and client-id guards at the API", "where": S + "secagg_server.cc"}],
  ENGINE + "; must-pass-through of the guards before any state method that changes the session",
  "Decides the guards on every path from each public entry point.", ["returned status", "server-to-client messages"])

P("S08", "The server counts each client at most once per round and drops it exactly once",
  """In each round the server accepts at most one message per client, only from a client that completed the previous round and only of the
  round's kind, and counts it ready exactly when its message was accepted. Any other message drops that client. Dropping a client
  removes it from the ready count if it was counted, adds it to exactly one failure count, forgets what it contributed in that
  round where that is still possible, and marks the session for abort as soon as too few clients remain.""",
  "inputs,histories", "for every interleaving of client messages, drop-outs and aborts",
  NT + " Drop-out orders are a history space tests only sample.",
  [S + "secagg_server_r0_advertise_keys_state.cc", S + "secagg_server_r1_share_keys_state.cc", S + "secagg_server_r2_masked_input_coll_state.cc", S + "secagg_server_r3_unmasking_state.cc"],
  [{"name": "client status machine", "where": S + "secagg_server_state.cc"}],
  ENGINE + "; typestate of the per-client status with counter deltas per path",
  "Decides status transitions and counter changes on every path of message handling and client removal.",
  ["client counts", "client statuses"])

P("S09", "The server never advances with too few clients or a failed step",
  """The server moves to the next round only if the number of clients that completed the current one reaches the configured minimum and the
  session is not marked for abort; clients that did not answer in time are all dropped first. It reports success only if mask removal
  succeeded, waits for every received input to be added before leaving the input round, and never lowers the configured minimum.""",
  "histories,configurations,schedules", "for every configuration, drop-out history and completion order of background work",
  NT, [S + "secagg_server_r0_advertise_keys_state.cc", S + "secagg_server_r1_share_keys_state.cc", S + "secagg_server_r2_masked_input_coll_state.cc",
       S + "secagg_server_r3_unmasking_state.cc", S + "secagg_server_prng_running_state.cc", S + "secagg_server.cc"],
  [{"name": "round transition guards", "where": S + "secagg_server_r2_masked_input_coll_state.cc"}],
  ENGINE + "; must-hold threshold facts at each construction of a successor state",
  "Decides the guard at each state construction.", ["server state"])

P("S10", "The server rejects malformed client contributions before using them",
  """A client message whose contents are malformed (public keys of the wrong size, a wrong number of shares or vectors, a share missing or
  present against expectation, a share of the wrong kind, an unknown vector name, a vector of the wrong size) is rejected with an error
  before anything from it is stored or added. An accepted masked input is added to the running sum exactly once.""",
  "inputs,schedules", "for every content of every client message and every interleaving with background summation",
  NT + " One out-of-bounds read on a short unmasking response was found and repaired here.",
  [S + "secagg_server_protocol_impl.cc", S + "aes/aes_secagg_server_protocol_impl.cc"],
  [{"name": "checks at the head of each message handler", "where": S + "secagg_server_protocol_impl.cc"}],
  ENGINE + "; validation-before-mutation facts on each handler",
  "Decides the checks against every store and that one addition follows each acceptance.", ["returned status", "released sum"])

P("S12", "The server addresses only living clients and routes each its own shares",
  """The server sends round messages only to clients that have not dropped out. Each client is sent the public keys of its own neighbours in
  neighbour order, the encrypted shares its neighbours addressed to it (and only those, in neighbour order), and the list of exactly those
  of its neighbours that dropped out in the input round, under that client's own numbering.""",
  "inputs,histories", "for every graph, drop-out history and message content",
  NT, [S + "secagg_server_state.cc", S + "secagg_server_protocol_impl.cc", S + "secagg_server_r2_masked_input_coll_state.cc", S + "secagg_server_r1_share_keys_state.cc"],
  [{"name": "share table indexed by recipient and sender position", "where": S + "secagg_server_protocol_impl.cc"}],
  ENGINE + "; alive-fact before each send and index agreement between the store and the load of the share table",
  "Decides recipients and indices symbolically.", ["server-to-client messages"])

P("S13", "The aggregate is released only after success, and only once",
  """The sum can be obtained from the server only in the completed state and only once; every other request fails. The server completes only after
  all lost secrets were reconstructed from enough shares, every key was valid and all masks were removed; a failure in any of these
  steps aborts the session instead.""",
  "histories,fault_sequences", "for every call sequence and every failure in reconstruction or mask removal",
  NT, [S + "secagg_server_completed_state.cc", S + "secagg_server_prng_running_state.cc", S + "secagg_server_protocol_impl.cc", S + "aes/aes_secagg_server_protocol_impl.cc"],
  [{"name": "result taken from the implementation by move", "where": S + "secagg_server_completed_state.cc"}],
  ENGINE + "; who-may-call of the result accessor and failure propagation to the completion status",
  "Decides who can reach the result and how failures propagate.", ["result of the session"])

P("S11", "Asynchronous server work is counted, reported idle once, and cancellable",
  """Every piece of work given to the server's accumulator counts as outstanding from before it is handed to a scheduler until its result
  has been accumulated, and the accumulator reports itself idle exactly when none is outstanding. An observer is accepted
  while there is work nobody was told of; an accepted one is run exactly once, only when nothing is outstanding and never under the accumulator's lock. Cancelling returns only when no task is active, after it
  no task becomes active, every task that was active is taken off the active count on every path, and the last one wakes the waiter.""",
  "schedules,histories", "for every number of tasks, every interleaving of workers, observers and cancellation",
  NT + " A lost wake-up or a task that outlives cancellation shows only under particular schedules.",
  [S + "secagg_scheduler.h", S + "secagg_scheduler.cc"],
  [{"name": "counters guarded by the accumulator's mutex", "where": S + "secagg_scheduler.h"}],
  ENGINE + "; counter typestate across lock re-acquisitions, deferred closures analysed as later tasks",
  "Decides counter balance and the guard of each wake-up, observer call and hand-over on every path of every closure; fairness of the underlying scheduler is assumed.",
  ["observer callbacks", "idle and cancellation results"])

P("S14", "Masks are grown from key, session and vector identity, with the right sign",
  """Every mask is grown from a generator seeded by one client key together with the session id and the vector's name, length and modulus,
  and by nothing else, so masks of different sessions or vectors are unrelated and both ends grow the same one. Every vector of the session gets
  one mask, filed under its name and covering all of its elements, and no stretch of generator output is used twice. Masks grown from keys to add
  are added and those from keys to subtract are subtracted, under the vector's own modulus and from seeds built alike.""",
  "inputs,configurations", "for every key list, session id and list of vector specifications, and for both the power-of-two and the general modulus path",
  NT + " Dependence of a seed on each input is a statement over all pairs of inputs.",
  [H + "map_of_masks.cc", H + "prng.h"],
  [{"name": "seed derivation", "where": H + "map_of_masks.cc"}, {"name": "add and subtract loops", "where": H + "map_of_masks.cc"}],
  ENGINE + "; value-flow into generator seeds and into modular additions, sibling comparison of the add and subtract branches",
  "Decides dependence and sign. The distribution of the generator's output is not decided.",
  ["mask vectors"])

P("S15", "Secret shares below the threshold reveal nothing and any threshold rebuilds",
  """A secret is split with a threshold between two and the number of shares; each part of it is hidden as the constant term of a polynomial of its
  own with exactly one fresh random field element per further coefficient, evaluated at points that are distinct and never zero. Rebuilding requires a threshold of
  shares that are really present and of equal length, reads every share back at the point it was made for, and never uses coefficients computed for
  another set of points.""",
  "inputs,configurations", "for every threshold, number of shares, secret and set of missing shares",
  NT + " A polynomial of too low degree rebuilds correctly in every round-trip test.",
  [H + "shamir_secret_sharing.cc", H + "shamir_secret_sharing.h", H + "aes_key.cc"],
  [{"name": "polynomial construction and evaluation points", "where": H + "shamir_secret_sharing.cc"}],
  ENGINE + "; loop-count and evaluation-point comparison between sharing and reconstruction",
  "Decides degree, points, threshold checks and cache keys. The field arithmetic itself is not decided (see the numeric entries under not_applicable).",
  ["shares", "rebuilt secrets"])

P("S16", "Vectors are only combined with their equals and never read once given away",
  """Two aggregation vectors are added only if they have the same length and modulus, and two maps only if they hold the same vectors, each
  added to its namesake. A vector can only be built with a supported modulus, from elements below it or packed bytes of the right length, and one whose
  contents were moved or taken away is marked empty and refuses to be read.""",
  "inputs,histories", "for every pair of vectors and maps, and every order of taking, moving and reading",
  NT + " The checks are process-fatal preconditions that no round-trip test reaches.",
  [H + "secagg_vector.cc", H + "secagg_vector.h", H + "map_of_masks.cc"],
  [{"name": "precondition checks before addition", "where": H + "secagg_vector.cc"}, {"name": "move and take", "where": H + "secagg_vector.h"}],
  ENGINE + "; precondition facts at exit and typestate of moved-from vectors",
  "Decides the preconditions and the marking. The bit-level packing round trip is under not_applicable.",
  ["vectors", "maps of vectors"])

P("S17", "Share encryption and key agreement never succeed on bad keys or failed crypto",
  """Every message for another client is sealed under a freshly drawn random nonce and a key of the required length, and opening succeeds only
  if the ciphertext is long enough and the library authenticated it. Keys from outside are accepted only with the right
  length, as points of the curve and, for key pairs, consistent with each other. No step reports success unless the library calls it made did, and the
  session id covers both public keys of every client.""",
  "inputs,fault sequences", "for every key, message and library failure",
  NT + " Library failures cannot be provoked from tests, and nonce reuse is invisible in a round trip.",
  [H + "aes_gcm_encryption.cc", H + "ecdh_key_agreement.cc", H + "compute_session_id.cc"],
  [{"name": "AES-GCM seal and open", "where": H + "aes_gcm_encryption.cc"}, {"name": "key validation", "where": H + "ecdh_key_agreement.cc"}],
  ENGINE + "; library-result facts at success exits and value-flow into nonce arguments",
  "Decides that results are honoured and inputs validated. The library itself is trusted; the raw shared-secret computation, which cannot fail once the peer's point was validated, is not covered.",
  ["ciphertexts", "derived keys", "session ids"])
