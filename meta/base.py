from . import P, NA, ENGINE

B = "fcp/base/"
CT = "Only fragments of the base library are exercised by the runnable tests, none of them under competing threads or failing system calls."

P("B01", "A future resolves exactly once and never waits for an abandoned promise",
  """The value provided to a promise is stored before its future becomes ready, becomes ready exactly once, and is what taking the future returns;
  looking at the value always waits for readiness first. A promise that is destroyed or overwritten without a value resolves its future as abandoned,
  so nobody waits for ever. Promise and future are made as one pair, cannot be copied, and are used up by setting and taking; work scheduled for a future
  is scheduled once and delivers its own result.""",
  "schedules,histories", "for every interleaving of the setting and the taking thread and every way a promise can end its life",
  CT + " A lost or early notification shows only in particular interleavings.",
  [B + "future.h"], [{"name": "shared state and notification", "where": B + "future.h"}],
  ENGINE + "; typestate of the shared state and compile-time witnesses that the types are move-only and consumed by use",
  "Decides ordering on each path and the types. Memory ordering is the notification primitive's documented guarantee.",
  ["future results"])

P("B02", "Scheduled tasks each run exactly once, in order per worker, and idle means idle",
  """Every scheduled task is queued once, wakes a thread, and is taken from the queue and run exactly once outside the scheduler's lock. A worker's
  tasks run in the order given and never overlap, and after each task the next one is started. The pool counts as idle exactly when nothing is queued and no
  task runs, its threads end only after shutdown was requested and the queue is empty, and shutdown wakes and joins all of them.""",
  "schedules,histories", "for every interleaving of threads, tasks and nested scheduling calls",
  CT + " Lost wakeups, overlaps and false idleness depend on timing.",
  [B + "scheduler.cc", B + "scheduler.h"], [{"name": "thread body", "where": B + "scheduler.cc"}, {"name": "worker hand-over", "where": B + "scheduler.cc"}],
  ENGINE + "; counter deltas along the thread loop, queue typestate, truth table of the idle condition",
  "Decides the protocol on each abstract path of each thread. Fairness of the lock and condition variables is assumed.",
  ["order and number of task executions", "return from waiting for idleness"])

P("B03", "State shared between threads is only touched under the lock that guards it",
  """Every field declared to be guarded by a lock is read and written only while that lock of the same object is held, including inside
  callbacks and deferred functions. Functions declared to need a lock are only called with it held. A function leaves exactly the locks
  held that it found held.""",
  "schedules", "for every function of the C++ tree that touches guarded state and every path through it",
  "A data race shows only in particular interleavings and often not even then.",
  ["fcp/base/scheduler.cc", "fcp/base/clock.h", "fcp/client/cache/file_backed_resource_cache.h", "fcp/client/http/in_memory_request_response.h"],
  [{"name": "lock annotations", "where": "fcp/base/clock.h"}, {"name": "guarded fields", "where": "fcp/client/cache/file_backed_resource_cache.h"}],
  ENGINE + "; inter-procedural lockset analysis over declared guards",
  "The declared guards are the specification; functions that opt out of thread-safety analysis are not covered, nor is construction and destruction.",
  ["shared state"])

P("B04", "No thread takes a lock it already holds, and locks are taken in one order",
  """No path acquires a lock that the same thread already holds, directly or through the functions it calls, and functions declared to be called
  without a lock are called without it. Wherever two different locks are held together they are taken in the same order everywhere, so
  no two threads can wait for each other.""",
  "schedules", "for every function of the C++ tree that takes a lock and every path through it",
  "A deadlock needs a particular interleaving, and self-deadlock a particular path.",
  ["fcp/base/clock.cc", "fcp/base/scheduler.cc", "fcp/base/simulated_clock.cc", "fcp/client/engine/example_iterator_factory.h"],
  [{"name": "clock and wakeup locks", "where": "fcp/base/clock.cc"}],
  ENGINE + "; inter-procedural lockset and lock-order graph",
  "Calls through user callbacks end the analysis; lock identity is the member and its owner.",
  ["progress of every thread"])

P("B05", "Waiters on a clock are woken once, never early, and never forgotten",
  """A waiter registered with a deadline is kept under exactly that deadline until the clock has reached it, and is then removed and woken once, outside
  the clock's lock. Whenever dispatching ends, either nothing is pending, or a wakeup is scheduled for the earliest deadline, or a concurrent dispatch is
  made to look again. Registering a waiter and changing a simulated clock's time always lead to a dispatch, and the real clock's thread learns of every new
  earliest deadline.""",
  "schedules,histories", "for every interleaving of registration, time change, dispatch and wakeup callbacks",
  CT + " A forgotten wakeup needs a registration at a particular moment of a running dispatch.",
  [B + "clock.cc", B + "clock.h", B + "simulated_clock.cc"], [{"name": "dispatch loop and re-entrancy level", "where": B + "clock.cc"}],
  ENGINE + "; facts about the pending map and the dispatch level at exits of the dispatch loop",
  "Decides the protocol per path; the ordering guarantees of the mutex are assumed.",
  ["wakeup callbacks"])

P("B06", "Compression and file access hand over all data or report an error",
  """Compressing consumes the whole input, copies no more than the buffer holds, gives back exactly the unused part and succeeds only if the
  stream was finished without error. Decompressing appends every chunk whole, reads to the end and never turns a reported stream error into success.
  Reading or writing a file succeeds only if the file was opened and all of it was read, or written and flushed, without error.""",
  "inputs,fault sequences", "for every input, chunk size, corrupt stream and failing file operation",
  "Tests feed small well-formed inputs; stream and disk errors do not occur in them.",
  [B + "compression.cc", B + "platform.cc"], [{"name": "chunk loops", "where": B + "compression.cc"}, {"name": "stream state checks", "where": B + "platform.cc"}],
  ENGINE + "; loop-carried position arithmetic and library-result facts at success exits",
  "Decides that results are honoured. One known finding: input cut short is not noticed (see known_findings.txt).",
  ["compressed and decompressed data", "returned status"])

P("B07", "A single-owner value has one owner, and a guarded method one caller",
  """A single-owner holder cannot be copied; moving or taking its value transfers it and leaves the source empty, and it never
  misreports whether it holds one. The re-entrancy guard admits a caller only by finding the flag free and taking it in a single atomic step, refuses
  everybody else with an error, and only the admitted caller releases the flag, always.""",
  "histories,schedules", "for every sequence of moves and takes and every interleaving of guarded calls",
  CT + " A check-then-set race in the guard passes every sequential test.",
  [B + "unique_value.h", B + "reentrancy_guard.h"], [{"name": "move operations", "where": B + "unique_value.h"}, {"name": "flag exchange", "where": B + "reentrancy_guard.h"}],
  ENGINE + "; typestate at exits and compile-time witnesses",
  "Decided on instantiations with a move-only type.",
  ["holder state", "guard result"])

P("B08", "Identifiers are unique, tokens fully random, and digests cover all the input",
  """A process-wide identifier is drawn from a shared counter in one atomic step, so no two calls get the same one. A random token is filled completely
  by the cryptographic generator, whose failure is never ignored, is only read from data of exactly its length, and equals another only if all
  of it is equal. A digest covers every byte of its input, and a failing digest step never yields a result.""",
  "schedules,inputs,fault sequences", "for every interleaving of identifier requests, every input and every library failure",
  CT + " A duplicate identifier needs two threads between a load and a store.",
  [B + "process_unique_id.cc", B + "random_token.cc", B + "random_token.h", B + "digest.cc"],
  [{"name": "atomic counter", "where": B + "process_unique_id.cc"}, {"name": "digest updates", "where": B + "digest.cc"}],
  ENGINE + "; atomic-step recognition, library-result facts, per-element coverage of the input",
  "The random generator's quality and the digest function itself are the library's.",
  ["identifiers", "tokens", "digests"])

P("B09", "Stopwatch totals count time with any handle alive, once",
  """A stopwatch runs from the first to the last of overlapping intervals: only the first start takes the start time, only the last stop adds the elapsed
  time, and the total is the finished time plus the running interval. Each handle starts its interval once and stops it once.""",
  "histories,schedules", "for every nesting and overlap of intervals on any number of threads",
  "Tests use one or two intervals; double counting shows only with overlaps.",
  [B + "wall_clock_stopwatch.cc"], [{"name": "start and stop", "where": B + "wall_clock_stopwatch.cc"}],
  ENGINE + "; counter and duration arithmetic at exits", "Decides the arithmetic per operation.",
  ["reported durations"])

P("B10", "Status and time conversions keep the error, the message and the instant",
  """Converting a status code between the two representations maps each code to its namesake, an unknown code never becomes success, and a converted error
  keeps its code and message. Converting times and durations to protocol messages and back keeps whole seconds and the remaining nanoseconds, each in its own field.""",
  "inputs", "for every status code, message, time and duration",
  "Tests sample a few codes and instants.",
  [B + "status_converters.cc", B + "time_util.cc"], [{"name": "code tables", "where": B + "status_converters.cc"}, {"name": "seconds and nanoseconds", "where": B + "time_util.cc"}],
  ENGINE + "; exhaustive case tables and linear value terms", "Overflow at the extremes of the time range is not decided.",
  ["converted statuses and times"])
