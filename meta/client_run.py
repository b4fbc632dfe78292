from . import P, NA, ENGINE

C = "fcp/client/"
HC = "The client session code is not compiled by the runnable tests, and what it does depends on the order of server answers, device conditions and stored history."

P("D11", "Interrupted work is stopped, waited for and reported",
  """Work given to the interruptible runner is not started when the device already asks to stop, and while it runs the question is asked again each polling
  period until it finishes. Once the answer is yes, the work is told to stop, is waited for during the grace period and then the extended period, and the
  caller is told it was interrupted; work that finished by itself yields its own outcome. The runner never returns or is destroyed while its work is still
  running.""",
  "schedules,faults", "for every moment at which a stop is asked for and every duration of the work",
  HC, [C + "interruptible_runner.cc"], [{"name": "interruptible runner", "where": C + "interruptible_runner.cc"}],
  ENGINE + "; typestate of asked, told and waited-for along every path", "", ["status returned", "whether the work still runs"])

P("D12", "A task is kept only when all of its eligibility policies allow it",
  """In on-device eligibility evaluation a task stays a candidate only if every policy referenced for it says it is eligible: a policy verdict of not eligible,
  a policy that fails and a policy the client does not support each remove the tasks that use them, and a task allowed by all its policies is not removed.
  Each policy is evaluated against its own tasks, each task gets one weight, which is 1 when eligible and 0 otherwise. Multiple task assignments are requested
  only for tasks that came out as eligible.""",
  "inputs,faults", "for every set of tasks, policies, verdicts, versions and failures",
  HC, [C + "eligibility_decider.cc", C + "fl_runner.cc"], [{"name": "eligibility decision", "where": C + "eligibility_decider.cc"}],
  ENGINE + "; per-iteration facts at each erase, insert and weight, value flow of verdicts",
  "Policies with the same name and policy indices beyond the list are not distinguished.", ["weights per task"])

P("D13", "Eligibility policies say yes only when their condition holds",
  """A minimum separation is satisfied only if the last successful contribution of the source lies at least the stated period back or no contribution is on
  record, and in the latter case only if the history can be trusted for that whole period; a source pattern that is malformed refuses. A data availability
  policy is satisfied only once at least the stated number of real examples was seen, and reports a shortage only at the end of the data. A computed policy is
  satisfied only by a successful run with a positive weight.""",
  "inputs,histories", "for every recorded history, clock value, pattern, example stream and policy setting",
  HC, [C + "eligibility_decider.cc"], [{"name": "policies", "where": C + "eligibility_decider.cc"}],
  ENGINE + "; linear facts over clock, history and period at each eligible verdict", "", ["eligibility verdicts"])

P("D14", "Each task's outcome is reported once, under its own session",
  """After a task was run exactly one report is sent for it under the session of that task: its results when it succeeded, and otherwise a failure without
  results. The start of a result upload is committed to storage before the upload begins. The caller is told once per task whether it succeeded, which is only
  when its results were uploaded, and the session counts as a full, partial or failed contribution according to how many of the assigned tasks succeeded.""",
  "inputs,faults,crashes", "for every list of assigned tasks and every combination of plan, storage and upload outcomes",
  HC, [C + "fl_runner.cc", C + "federated_protocol.h"], [{"name": "result reporting", "where": C + "fl_runner.cc"}],
  ENGINE + "; effect counting per task, must-pass-through of the stored record before the upload",
  "", ["reports sent", "contribution result returned"])

P("D15", "A session talks to the server only when allowed and in the right order",
  """The device conditions are asked before the first contact and before each run of a task; no task is requested before the eligibility check-in came back,
  and a task is run only when one was assigned. Whenever the server may have sent a new schedule the stored retry window is refreshed before the session ends
  or goes on.""",
  "inputs,faults,histories", "for every sequence of server answers, rejections, failures and interruptions",
  HC, [C + "fl_runner.cc"], [{"name": "session", "where": C + "fl_runner.cc"}],
  ENGINE + "; typestate of the session along every path", "", ["requests sent", "retry window returned"])

P("D16", "Recorded and published events say what happened, in the phase it happened",
  """Every step of a session is published and recorded under the event kind of that very step and outcome: started, finished, fatal or non-fatal error, I/O
  error, invalid argument, interruption, server abort. A finished or failed step closes the phase it belongs to, and the reason of a failure is recorded with
  it; messages of errors raised while running a task appear only if logging of such messages is switched on. Which outcome is recorded follows from the status
  or plan outcome that occurred.""",
  "inputs,faults", "for every step, status and plan outcome",
  HC + " Getting one of some sixty event kinds wrong spoils only the statistics.",
  [C + "phase_logger_impl.cc", C + "fl_runner.cc"], [{"name": "phase logger", "where": C + "phase_logger_impl.cc"}],
  ENGINE + "; sibling cross-check of the step each method stands for against the events it publishes and stores, taint of error messages",
  "", ["events stored and published"])

K = C + "http/curl/"
HK = "The curl transport is not driven by the runnable tests, and where a transfer breaks off or is cancelled is up to the network."

P("D17", "A request ends exactly once, and in success only if it was transferred",
  """Each request performed over curl ends with one outcome: completed only when curl reports the transfer as successful, and an error when it broke off, was
  cancelled or was refused by the receiver, after which nothing more is delivered and the transfer stops. Every byte received is passed on and every byte of
  the body is sent; a body that cannot be read aborts the request instead of ending it early. A request is started at most once, every request given is
  started, and control returns only when none is running or an error is reported.""",
  "inputs,faults,schedules", "for every sequence of received pieces, failures, refusals and cancellations",
  HK, [K + "curl_http_request_handle.cc", K + "curl_http_client.cc"],
  [{"name": "request handle", "where": K + "curl_http_request_handle.cc"}, {"name": "transport loop", "where": K + "curl_http_client.cc"}],
  ENGINE + "; typestate of the request's outcome over all callbacks, the set of end flags found from the code itself", "", ["callbacks received"])

P("D18", "Requests go to a verified server unaltered and responses keep their headers",
  """A connection is set up only with verification of the server's certificate and host name switched on, to the address asked for, with the method, all headers
  and the body length asked for, and only if these settings were accepted. Of the response the status code and headers of the last answer are handed out, with
  their values whole; the headers describing an encoding are dropped exactly when the encoding was undone.""",
  "inputs", "for every request and every sequence of response header lines",
  HK, [K + "curl_http_request_handle.cc", K + "curl_header_parser.cc"],
  [{"name": "connection set-up", "where": K + "curl_http_request_handle.cc"}, {"name": "header parser", "where": K + "curl_header_parser.cc"}],
  ENGINE + "; settings made on every path that reports success, facts at each stored header", "", ["request as sent", "headers handed out"])

P("D19", "Each slice asked for is fetched and handed out whole, once and in order",
  """For federated select one request is made per key, naming that key and where it is served, and an iterator is handed out only if all of them succeeded; the
  bytes transferred are counted on success and failure. The iterator hands out each slice once, in the order of the keys, only after it was written to the
  scratch file completely, and reports the end only when none is left. The scratch file is removed at the end, on closing, and when fetching fails; without an
  address no slices are fetched at all.""",
  "inputs,faults", "for every list of keys and every combination of fetch and write failures",
  HC, [C + "federated_select.cc"], [{"name": "slice fetching", "where": C + "federated_select.cc"}],
  ENGINE + "; per-iteration effect counts, stream state facts at each return", "", ["slices handed out", "files left behind"])

P("D20", "Only valid vectors enter secure aggregation, and success means it completed",
  """Each vector of a task's results is announced and contributed under its own name with its own modulus, and only if the modulus lies between 2 and the largest
  supported, the vector is not empty, its length is the announced one and every value is below the modulus. The input is given before any message is processed,
  every message received is processed, and success is reported only when the protocol completed; a failure or abort is reported as such. An interruption aborts
  both the protocol client and its connection.""",
  "inputs,histories,faults", "for every set of vectors, moduli and server messages and every moment of interruption",
  HC, [C + "secagg_runner.cc"], [{"name": "secure aggregation runner", "where": C + "secagg_runner.cc"}],
  ENGINE + "; range facts at each contributed vector, typestate of the protocol run", "", ["vectors contributed", "status returned"])
