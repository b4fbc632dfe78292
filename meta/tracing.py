from . import P, NA, ENGINE

T = "fcp/tracing/"

P("G01", "Trace events reach the current span and recorder, once and as given",
  """An event is recorded once, as given and with its own tag and severity, in the span it names or else in the span its thread is in, or in the recorder's root span
  when there is none; a span is reported at its beginning and at its end, under an id no other span has and with its parent, and keeps its recorder alive. Entering
  a span makes it the current one of its own thread only, and leaving restores the one before. At most one recorder is installed for the process or per thread,
  changed under a lock; it is removed with its last use and only by itself, and none is current after it was destroyed.""",
  "inputs,schedules,histories", "for every order of events, spans, threads and installations", "Traces are read after the fact to explain failures; a wrong parent, severity or recorder misleads without any error, and depends on thread schedules.",
  [T + "tracing_recorder_impl.cc", T + "tracing_span_impl.cc", T + "tracing_span.h", T + "text_tracing_recorder_impl.cc", T + "tracing_traits.cc", T + "tracing_span_id.cc", T + "tracing_span_ref.cc", T + "tracing_context_utils.h"],
  [{"name": "recorders", "where": T + "tracing_recorder_impl.cc"}, {"name": "spans", "where": T + "tracing_span_impl.cc"}],
  ENGINE + "; typestate of the installed recorder and of the scope stack, lock-held facts at each change, storage-class facts of per-thread state, effect counting per event",
  "The text recorder's stream is not claimed to be used by one thread at a time.", ["events", "current recorder", "current span"])

P("G02", "Generated trace descriptions agree with the schema or are refused",
  """Each table of a schema gets one description, under its own name, with its own tag, severity and kind; each of its fields that is not deprecated is passed on once,
  by number, under its own name and with the type of its values, texts being copied. A table without a tag of four letters of its own, a field of an unsupported
  type, a schema that cannot be read or verified, and a wrong call are refused with a failure.""",
  "inputs", "for every schema", "The descriptions are generated at build time; a wrong type, order or tag compiles and mixes up recorded events.",
  [T + "tools/tracing_traits_generator.cc"], [{"name": "generator", "where": T + "tools/tracing_traits_generator.cc"}],
  ENGINE + "; the text written so far as abstract state, facts at each piece written, exhaustiveness of the type table", "A table marked both warning and error, and texts of tables in namespaces as JSON, are not claimed.", ["generated text", "exit status"])
