from . import P, NA, ENGINE

H = "fcp/client/http/"
HT = "The HTTP client layer is not compiled by the runnable tests, and its responses come from servers and networks no test controls."

P("D01", "Request bodies are announced and delivered exactly",
  """An in-memory request is created only for an address that begins with https:// or the localhost prefix, only for methods that allow a body when it has
  one, and never with a caller-supplied Content-Length. A non-empty body is announced with its exact length, its compression is announced when it was
  compressed and only then, and it is compressed exactly when asked. Reading the body hands out its bytes in order, never more than the buffer or the body
  holds, and reports the number handed out.""",
  "inputs,histories", "for every address, method, header list, body and sequence of reads",
  HT, [H + "in_memory_request_response.cc"], [{"name": "in-memory request", "where": H + "in_memory_request_response.cc"}],
  ENGINE + "; range and offset facts at each copy, value flow from the body to the announced length",
  "", ["the request as a server receives it"])

P("D02", "Only a complete 2xx response counts as success",
  """A response becomes successful only when it completed with an HTTP code from 200 to 299 and its body is as long as announced; any transport error, other
  code, unreadable or negative length, surplus or missing body data, or unrequested content or transfer encoding makes it an error. The body handed out is
  exactly the pieces received in order, and a response that cannot be parsed as the protocol message expected is refused. Errors reported by the server
  inside a response stay errors with the code the server gave.""",
  "inputs,histories,faults", "for every response code, header list, sequence of body pieces and point of failure",
  HT, [H + "in_memory_request_response.cc", H + "http_client_util.cc", H + "protocol_request_helper.cc"],
  [{"name": "response callback", "where": H + "in_memory_request_response.cc"}, {"name": "code conversion", "where": H + "http_client_util.cc"}],
  ENGINE + "; typestate of the response outcome, ranges of HTTP codes admitted on each returning path",
  "", ["status returned for a given response"])

P("D03", "Values placed in request addresses cannot change the address",
  """Every variable value placed in a request path or query is percent-encoded first: only unreserved characters, or additionally the path separator where
  several segments are meant, stay as they are, and every other byte becomes a percent sign and exactly two hex digits with none dropped. A request address
  is always the base address followed by a path that begins with a slash, so a path can never extend the host name.""",
  "inputs", "for every name, identifier and byte value",
  HT, [H + "http_client_util.cc", H + "protocol_request_helper.cc"],
  [{"name": "path construction", "where": H + "http_client_util.cc"}, {"name": "request creator", "where": H + "protocol_request_helper.cc"}],
  ENGINE + "; taint from variable values to path strings with the encoder as the only sanitiser, character-class facts in the encoder",
  "", ["addresses requested"])

P("D04", "Each requested resource yields exactly one correctly decoded result",
  """Fetching resources issues each request at most once and returns one result per resource; a failed, interrupted or unfinished request is reported as an
  error and never as data. A resource announced as compressed is handed out only after decoding, also when it comes from the cache, and only successful
  responses are cached, together with the format they are stored in. Bytes sent and received are counted on every exit, failures included, and an
  interruption cancels the outstanding requests.""",
  "inputs,faults,histories", "for every list of resources and every combination of hits, misses, failures and interruptions",
  HT, [H + "in_memory_request_response.cc"], [{"name": "resource fetching", "where": H + "in_memory_request_response.cc"}],
  ENGINE + "; per-iteration effect counts, must-pass-through decoding before handing out",
  "", ["results per resource", "bytes counted"])

P("D05", "Long-running operations are polled until done or abandoned",
  """The response of a server operation is used only once the operation says it is done, names a readable response and carries no error, whose code is
  otherwise passed on. Polls are separated by a wait that never exceeds the configured bounds, always concern the operation received, and a failed poll ends
  polling with its error. An operation abandoned on interruption or failure is cancelled, with a runner that is still allowed to run after the interruption.""",
  "histories,inputs,faults", "for every sequence of operation states, poll failures and interruptions",
  HT + " Poll sequences of arbitrary length cannot be enumerated.",
  [H + "protocol_request_helper.cc", H + "http_federated_protocol.cc", H + "http_secagg_send_to_server_impl.cc"],
  [{"name": "operation polling", "where": H + "protocol_request_helper.cc"}],
  ENGINE + "; must-facts at each use of an operation's response, loop-iteration rules for waiting, effects on abandoning exits",
  "", ["polls and cancellations sent"])

P("D06", "Protocol steps run once and in order",
  """Eligibility check-in, check-in or multiple task assignment, and reporting each verify before anything else that the session is in a state allowing the
  step, and leave that state before sending anything, so no step can be repeated or run out of order. Reporting for an unknown session is refused.""",
  "histories", "for every sequence of calls on a protocol session",
  HT, [H + "http_federated_protocol.cc"], [{"name": "protocol session", "where": H + "http_federated_protocol.cc"}],
  ENGINE + "; typestate of the session state from the check to the first request",
  "", ["requests sent for a sequence of calls"])

P("D07", "Confidential uploads are encrypted to an attested key only",
  """For a task with confidential aggregation, data leaves the device only after the server's key was attested successfully against the task's data access
  policy, and only encrypted to the key the attestation returned. The encrypted upload binds the hash of that policy and the key identifier in its
  authenticated header, which is sent unchanged beside the ciphertext, and announces the compression actually used. The clear data is never uploaded on any
  path, and a failed attestation or encryption ends the upload.""",
  "inputs,faults", "for every server configuration, attestation outcome and failure",
  HT, [H + "http_federated_protocol.cc"], [{"name": "confidential upload", "where": H + "http_federated_protocol.cc"}],
  ENGINE + "; value flow from the attestation result to the encryption key and from the ciphertext to the upload",
  "Whether an attestation verifier judges evidence correctly is outside this property.", ["bytes uploaded"])

P("D08", "Results are submitted only after every upload succeeded",
  """An aggregation result is submitted only after all of its data was uploaded successfully, and names exactly the resources that were uploaded. A failed
  upload is reported to the caller as that failure and makes the client abort its aggregation, unless the server itself had aborted it. Reporting returns
  success only if the submission succeeded.""",
  "faults,histories", "for every upload, submission and abort outcome",
  HT, [H + "http_federated_protocol.cc", H + "http_secagg_send_to_server_impl.cc"],
  [{"name": "result reporting", "where": H + "http_federated_protocol.cc"}],
  ENGINE + "; typestate of upload and submission outcomes along every path",
  "", ["requests sent after a failure", "status reported"])

P("D09", "Retry times stay within the window the outcome calls for",
  """A retry time picked from a window lies between the window's start and end, measured from now, and no delay handed out is ever negative; a delay picked
  around a target deviates by at most the jitter share, itself limited to between nothing and the whole target. Each outcome uses its own window: accepted
  after reporting, rejected after rejection or any earlier end, the configured transient delay only when no window was received, and the configured permanent
  delay after every permanent error. The two windows received from the server are never mixed, and every failed step is checked against the permanent error
  codes.""",
  "inputs,histories", "for every window, jitter, time and sequence of outcomes",
  "The tests never compile the session logic, and the picking function is only smoke-tested if at all; negative and inverted windows are not tried.",
  ["fcp/client/federated_protocol_util.cc", H + "http_federated_protocol.cc"],
  [{"name": "delay picking", "where": "fcp/client/federated_protocol_util.cc"}, {"name": "window choice", "where": H + "http_federated_protocol.cc"}],
  ENGINE + "; structural range argument over value-numbered duration terms, exhaustiveness of the outcome switch",
  "That the picked value is uniformly distributed is not decided.", ["retry windows returned"])

P("D10", "A task runs only with its own complete set of resources",
  """A task is handed to the caller only with its own plan, checkpoint and access policy, all fetched successfully; if any of them failed, the task carries
  the error instead. When several tasks are fetched together, responses are matched to tasks in order, tasks that failed early take no responses, and every
  task assigned by the server gets exactly one entry, a result or an error. A fetched message that cannot be parsed is an error.""",
  "inputs,faults", "for every list of assignments and every combination of failing resources",
  HT, [H + "http_federated_protocol.cc"], [{"name": "task resource fetching", "where": H + "http_federated_protocol.cc"}],
  ENGINE + "; per-iteration push counts and iterator offsets matched between the requesting and the consuming loop",
  "", ["payloads per task"])
