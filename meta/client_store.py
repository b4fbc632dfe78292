from . import P, NA, ENGINE

C = "fcp/client/"
O = C + "opstats/"
HS = "What is on disk depends on earlier runs, crashes, full disks and clock values that no unit test goes through one by one."

P("E01", "The resource cache gives back only whole, current resources under their own name",
  """A cached resource is found again only under the id it was stored with, with its own metadata, whole, and is kept until the age given for it; storing it
  again replaces it, and a resource that could not be stored completely is reported and leaves no file behind. Expired entries, entries without a file and
  files without an entry are removed when resources are stored or the cache is opened, and those used longest ago go first when room is needed. A resource
  larger than the whole cache is refused, and no id leads to a file outside the cache directory.""",
  "inputs,faults,histories", "for every sequence of stores, reads, restarts and write failures, every id and size",
  HS, [C + "cache/file_backed_resource_cache.cc"], [{"name": "resource cache", "where": C + "cache/file_backed_resource_cache.cc"}],
  ENGINE + "; must-facts at each manifest change, file write and removal, per-iteration obligations of the cleaning loops",
  "Whether a read notices an age that has passed since the last cleaning is not claimed.", ["value and metadata returned", "files in the directory"])

P("E02", "A scratch file is new, belongs to its caller alone and is removed afterwards",
  """Every scratch file handed out was created by that very call inside the scratch directory, never an existing file, and a file or directory that could not
  be created is an error. Files left over from earlier runs are removed when the scratch area is opened, and all files in it when it is closed; leftovers that
  cannot be removed fail the opening. A relative root directory is refused.""",
  "inputs,faults,histories", "for every root, prefix, existing file and file system failure",
  HS, [C + "cache/temp_files.cc"], [{"name": "scratch files", "where": C + "cache/temp_files.cc"}],
  ENGINE + "; constant propagation of open flags, must-facts at each successful return, must-pass-through of the removal loop", "", ["path returned", "files in the directory"])

P("E03", "The record of a run is complete, counted once and stored as one entry",
  """Everything that happens during a phase is recorded with that phase and everything else with the run: each event once with its kind and time, the task name,
  the first error message, examples and bytes read added up per collection, and network use counted once. Phases that end or are followed by another are kept,
  and storing includes the phase under way. A run occupies one entry in the store however often it is stored, never that of another run, failures are
  returned, retry tokens are never stored, and the record is stored when the logger goes away.""",
  "inputs,schedules,faults,histories", "for every sequence of logging calls, phases, commits and storage failures",
  HS, [O + "opstats_logger_impl.cc", C + "stats.h"], [{"name": "run record", "where": O + "opstats_logger_impl.cc"}],
  ENGINE + "; typestate of the open phase, linear value terms of the counters, effect counting per call", "", ["entries in the store"])

P("E04", "The store of run records has one user and drops only old records",
  """A store in use by this or another process cannot be opened a second time, and it is free again after it was closed or could not be opened. A change is
  applied to what is stored, minus records older than the allowed age, and afterwards the oldest records are dropped while the store is larger than its limit,
  and no more; from then on the history counts as complete only from the age limit or the first record left. A store that cannot be read is reported and set up
  anew, opening a store keeps what is in it, and a change that could not be written is an error.""",
  "inputs,schedules,faults,histories", "for every stored history, age limit, size limit, change and I/O failure",
  HS, [O + "pds_backed_opstats_db.cc"], [{"name": "run store", "where": O + "pds_backed_opstats_db.cc"}],
  ENGINE + "; typestate of lock, entry and descriptor on every exit, must-facts and order around the applied change", "", ["records stored", "earliest trustworthy time"])

P("E05", "Questions about earlier runs are answered from the right run",
  """The last successful contribution of a task is the latest run of exactly that task, or of a task fully matching the pattern, that began uploading results and
  was not turned away by the server; its time is that of the upload start and its policy index the one recorded. A run of several tasks is told apart into one
  record per task with the phases they share, its own phases, added-up counts, all events and the policy index. Examples over the records cover exactly the
  selected time range or the last contribution of the current task, each once, with each feature taken from the field of its name, and malformed selections are
  refused.""",
  "inputs,histories", "for every stored history, task name, pattern and selection",
  HS, [O + "opstats_utils.cc", O + "opstats_example_store.cc"], [{"name": "history queries", "where": O + "opstats_utils.cc"}],
  ENGINE + "; path facts at each answer, per-iteration obligations over phases and records, key-to-field cross-check", "", ["answers to queries", "examples"])
