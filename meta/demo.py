from . import P

PY = "static analysis of the Python source: path-partitioned must-fact dataflow over the syntax tree (value-numbered terms, calls resolved through classes and decorators and followed, exceptional exits modelled), no solver, nothing is run"
D = "fcp/demo/"
AG, MD, HA, TA, EE, SV, PU = (D + x for x in ("aggregations.py", "media.py", "http_actions.py", "task_assignments.py", "eligibility_eval_tasks.py", "server.py", "plan_utils.py"))
FX, DS, FC, TR = (D + x for x in ("federated_context.py", "federated_data_source.py", "federated_computation.py", "checkpoint_tensor_reference.py"))
HS = "What a request does depends on the order in which many clients' requests and the server's own steps interleave, and on every field a client may send."

P("F01", "The demo server releases an aggregate only once enough clients are in it",
  """A session's result is computed and released only while the session is still pending, after it was closed to further contributions, and when at least the
  minimum number of contributions asked for has been included; otherwise it is aborted and reported as failed with no result, and a failure to compute the result
  is reported as a failed session rather than as an error. The minimum is the number of clients the caller selected, which must be positive.""",
  "inputs,schedules,histories", "for every session, minimum and sequence of contributions",
  HS, [AG, SV, DS], [{"name": "sessions", "where": AG}], PY + "; must-facts at each release of a result", "", ["status and result of a session"])

P("F02", "In the demo server each authorization admits one step of one contribution",
  """A client joins a session only with an authorization handed out for that session, and submits or gives up only with the one made for its own contribution, taking
  only the upload it was given; each is a fresh random name and is accepted once. Anything else is answered as not found or unauthorized and passes nothing on.
  Each accepted authorization adds or contributes exactly one client, and as many authorizations are handed out as were asked for.""",
  "inputs,schedules,histories", "for every request and token, in every order",
  HS, [AG], [{"name": "contribution requests", "where": AG}], PY + "; typestate of tokens and contributions per handler, must-facts at each change of the tables", "", ["HTTP status", "session counts"])

P("F03", "The demo server answers only for its own population",
  """Every request to check in, ask for tasks or report about a population other than the server's own is answered as not found, before anything is looked up or
  changed. Population names that are not wholly words joined by single slashes are refused when a data source or context is made, and a computation runs only on data of
  the context's own population.""",
  "inputs", "for every request and population name",
  HS, [TA, EE, DS, FX], [{"name": "population check", "where": EE}], PY + "; must-facts at every exit and effect of each handler; equality of the languages of name patterns", "", ["HTTP status", "exceptions"])

P("F04", "Uploads to the demo server are accepted once, and only where expected",
  """Data is accepted only under an upload name that was given out and holds no data yet, checked and stored in one step; collecting an upload returns its data and
  removes the name. An upload is removed when its contribution is submitted, given up or its session ends, and none is given out for a session that has ended.""",
  "inputs,schedules,histories", "for every sequence of uploads, submissions and session ends on any threads",
  HS, [MD, AG], [{"name": "uploads", "where": MD}], PY + "; must-facts under the lock that guards the table, must-pass-through of the removal at every exit", "", ["HTTP status", "stored uploads"])

P("F05", "Shared tables of the demo server are touched only under their lock",
  """Every table the server's request threads share is read and changed only while its lock is held, apart from setting it up. A lock is never taken twice by one
  thread nor held across a point where the program waits for something else, and two locks are always taken in the same order.""",
  "schedules", "for every interleaving of request threads and server steps",
  HS, [AG, MD, TA, EE], [{"name": "locks", "where": AG}], PY + "; lock-set analysis on every path, lock-order graph", "", ["exceptions and deadlocks under load"])

P("F06", "The demo server's HTTP front end gives each request one correct answer",
  """A request is handled by the method whose pattern matches its whole path, with the fields taken from the path unescaped and in place of those in the body, and
  gets exactly one answer; no match is answered as not found and a failing handler with the status it names. A body that is not valid compressed data, of an
  unknown encoding or not a valid message is answered with a client error, never a dropped connection. A path field matches one path segment, other characters of
  a pattern match only themselves, and every answer states the length of its body.""",
  "inputs", "for every method, path, header and body",
  HS, [HA], [{"name": "dispatch", "where": HA}], PY + "; must-facts per answer, exception flow from decoding calls to the client-error answer", "Requests without a valid length header are not claimed.", ["HTTP status, headers and body"])

P("F07", "Files of the demo server are served unchanged while their group is in use",
  """A file is served under the address handed out for it, with exactly the data, length and type it was added with, and a name is never given twice in a group.
  All files of a group are gone once the group is closed, however it is closed, and any other address is answered as not found.""",
  "inputs,schedules,histories", "for every sequence of groups, files and downloads",
  HS, [MD], [{"name": "downloads", "where": MD}], PY + "; must-facts at lookup and insertion, must-pass-through of the removal at every exit", "", ["HTTP status and body"])

P("F08", "A computation on the demo server leaves nothing behind",
  """However running a computation ends, its task is no longer offered to clients, its session is completed or aborted, and its files and scratch directory are
  removed. It completes its session only after waiting until as many contributions as asked for were included and while the session was still pending; otherwise
  it fails.""",
  "schedules,faults", "for every point at which running a computation can fail or be cancelled",
  HS, [SV, PU], [{"name": "running a computation", "where": SV}], PY + "; resource typestate over every normal and exceptional exit", "", ["tasks listed, sessions and files after a failure"])

P("F09", "Waiting for a session on the demo server ends when its condition holds",
  """A wait ends only once every number of contributions it states is reached or the session has ended, with the session's status at that point; whether to wait is
  decided in one step with registering. After every counted contribution each wait whose condition then holds is completed exactly once and forgotten, the others are
  kept, and the end of a session completes all of its waits.""",
  "schedules,histories", "for every order of contributions, ends and waits",
  HS, [AG], [{"name": "waiting", "where": AG}], PY + "; must-facts at each wake-up, must-pass-through of the notification after every change", "", ["return of a wait and its status"])

P("F10", "The demo server hands out each listed task whole, to those who ask for it",
  """An assignment carries the files, address of slices, name and session of one listed task of the asked-for mode, the client's own session and one authorization for that
  task's session. A client is rejected only when no task is listed, is assigned every listed task it asks for by name and no other, and is not offered later tasks before
  earlier ones. Removing a task removes exactly the one named, and clients that support choosing are given a list of all listed tasks, each with its own details.""",
  "inputs,schedules,histories", "for every sequence of additions, removals and requests",
  HS, [TA, EE], [{"name": "task lists", "where": TA}], PY + "; must-facts at each assignment, table effects per method", "", ["responses to clients"])

P("F11", "The demo platform runs the computation it was given and returns its own results",
  """A computation runs under its own name, with a plan built for exactly that computation and data and the mode and number of clients selected, and a plan made for
  something else is never reused; the selection carries what the data source was made with. Arguments of another shape, malformed names and selections of another kind
  are refused. Each result is read under its own name and type from the checkpoint of its own run, its starting state is saved under the names of state, every
  pending value is waited for, and scratch files are removed.""",
  "inputs,schedules,histories", "for every sequence of computations, selections and results read",
  HS, [FX, DS, FC, TR], [{"name": "federated context", "where": FX}], PY + "; provenance of every argument and key, use of every coroutine, resource typestate of scratch files", "", ["arguments of the run", "values returned"])

P("F12", "The demo server gives clients only the client part of a plan, and its own state",
  """Clients are served the client phase, client graphs and runtime configuration of the plan and nothing of the server's, and as initial state the file prepared for
  them, each under the address handed out for it and compressed as declared. The first server step starts from the caller's state, the last from the aggregate and
  the intermediate state of the first, each runs its own graph and targets on files of its own, and its output is the result; without a last step the aggregate is.
  Plans without exactly one phase of the supported kind are refused.""",
  "inputs", "for every plan, state and aggregate",
  HS, [PU, SV], [{"name": "server steps", "where": PU}], PY + "; provenance of every served file, feed and fetch", "", ["files served", "feeds of the server steps"])

P("F13", "The demo server aggregates exactly what the plan says and reports it as it is",
  """Every aggregation of a plan is set up, in order, with its own kind and all of its arguments and outputs, each tensor keeping its name, dimensions and type;
  unknown types, arguments that do not come from clients, nested aggregations and plans without exactly one phase of the supported kind are refused. A session is
  opened under a fresh name, with the requirements given and its aggregation started; each number reported about it is the aggregation's own number of that kind.
  An aggregation's errors are answered as bad requests when argument or state were at fault, as not found when something is missing, else as internal errors.""",
  "inputs", "for every plan, session state and failure",
  HS, [AG], [{"name": "session set-up", "where": AG}], PY + "; provenance of every configured field, case exhaustiveness of types and codes", "", ["the configuration handed to the aggregation", "HTTP status"])
