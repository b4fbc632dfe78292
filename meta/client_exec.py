from . import P, NA, ENGINE

C = "fcp/client/"
E = C + "engine/"
HD = "Examples, queries and computations come from apps and servers; every combination of results and failures must be handled, and no unit test runs them all."

P("E06", "A dictionary numbers its tokens without gaps, overlaps or mix-ups",
  """Token ids are counted, in the order of the vocabulary, from behind the special ids, so that an id and its token lead to each other, unknown tokens get the
  id for unknown ones, and the size counts special ids and tokens together. The special ids are those described; the blocked ids are the special ids followed by
  those listed in the description, which must be ascending and not special. Empty tokens, negative special ids and descriptions without a vocabulary are
  refused.""",
  "inputs", "for every dictionary description and token", "Ids are shared between devices and server; a shift or overlap trains on the wrong words without any error.",
  ["fcp/dictionary/dictionary.cc"], [{"name": "dictionary", "where": "fcp/dictionary/dictionary.cc"}],
  ENGINE + "; linear value terms of ids, inverse cross-check of the two directions, must-facts at each accepted description", "Duplicate tokens are not claimed to be refused.", ["ids", "tokens", "sizes"])

P("E07", "Each example reaches the computation once, as read, and is counted once",
  """An example is handed to the computation exactly as its source gave it and counted once, with its size, for the run's statistics and for its query; the end of
  the examples is passed on as the end and the source closed once; a failure is passed on, remembered, and not replaced by a later end or success. The first
  source that can handle a selection is used, and a selection nobody can handle is an error. Every query is recorded once with its own collection, criteria,
  context and number of examples, and reported in that form.""",
  "inputs,faults,histories", "for every selection, sequence of examples and failure of a source", HD,
  [E + "plan_engine_helpers.cc", E + "example_iterator_factory.h", C + "example_iterator_query_recorder.cc"],
  [{"name": "example access", "where": E + "plan_engine_helpers.cc"}, {"name": "query recorder", "where": C + "example_iterator_query_recorder.cc"}],
  ENGINE + "; effect counting per example, typestate of the source, must-facts at each report", "", ["examples", "counters", "recorded queries"])

P("E08", "Results of example queries are written under their own names and types",
  """Result i is taken for query i, and each declared output is written under its own name from the vector it names, with the declared type checked and with the
  size and values of that one vector. A result that is missing, unreadable, of an undeclared type or without a declared vector is an error, and so is one that
  could not be written. A success is reported only when everything has been written, and a checkpoint given out only when it was built.""",
  "inputs,faults", "for every set of queries, results and write failures", HD,
  [E + "example_query_plan_engine.cc"], [{"name": "example queries", "where": E + "example_query_plan_engine.cc"}],
  ENGINE + "; sibling cross-check of the branches for each type, index agreement of query and result, status-to-return flow", "Two outputs of one query naming the same vector are not claimed.", ["checkpoint written", "outcome"])

P("E09", "A computation succeeds only if it ran, and each failure keeps its cause",
  """A computation is run only when its declared inputs and outputs agree with those given, every constant input could be read and is given under its own name, and
  its examples are on offer. Success, with the outputs asked for, is reported only when the run succeeded; a cancelled run is an interruption, a failure of the
  example source counts before one of the computation, and outcomes keep their meaning when converted. Sessions are not used after they were closed and are closed
  when the run ends; an abort reaches a running computation, never one that does not exist yet or any more, and frees nothing still in use.""",
  "inputs,schedules,faults", "for every plan, status of the run and of the example source, and time of an abort", HD,
  [E + "common.cc", E + "simple_plan_engine.cc", E + "tflite_plan_engine.cc", E + "tf_wrapper.cc", E + "tflite_wrapper.cc", E + "plan_engine_helpers.cc"],
  [{"name": "plan engines", "where": E + "simple_plan_engine.cc"}, {"name": "interpreters", "where": E + "tflite_wrapper.cc"}],
  ENGINE + "; status-code facts at each outcome, typestate of session and delegate pointer", "TensorFlow is not installed: its interfaces are represented by declarations without bodies.", ["plan outcome", "outputs"])
