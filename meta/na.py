"""Guarantees the system relies on that static analysis of its source cannot decide."""
from . import NA
W = "The claim quantifies over all values, keys or machine conditions; a test sees a handful."

NA("N01", "Masks and keys look uniformly random to everyone without the keys",
   "Masks drawn by the pseudorandom generators, key shares below the threshold and encrypted messages are indistinguishable from uniformly random values to anyone without the keys.",
   "inputs", "for every input vector and every set of observers below the threshold", W,
   ["fcp/secagg/shared/aes_ctr_prng.cc", "fcp/secagg/shared/shamir_secret_sharing.cc"], [{"name": "mask generation", "where": "fcp/secagg/shared/map_of_masks.cc"}],
   """A statement about probability distributions and computational hardness. The source shows which generator is used, how it is seeded and that its output is used once and whole, and S14 and
   S15 decide that; whether the result is indistinguishable from random is a cryptographic assumption, not a fact about the source.""")
NA("N02", "Any threshold of key shares gives back exactly the key that was split",
   "For every key and threshold, the key rebuilt from any set of at least threshold many of its shares equals the key that was split, and field arithmetic agrees with arithmetic modulo the prime.",
   "inputs,configurations", "for every key, threshold and choice of shares", W,
   ["fcp/secagg/shared/shamir_secret_sharing.cc"], [{"name": "polynomial evaluation and interpolation", "where": "fcp/secagg/shared/shamir_secret_sharing.cc"}],
   """An algebraic identity over a prime field. Must-facts and value numbering do not establish that interpolation inverts evaluation; that needs a proof or a solver, which are other families. S15
   decides its structural part: which shares are used, thresholds, ranges, widths of products and lengths.""")
NA("N03", "Packing a vector and unpacking it gives back every value",
   "For every vector and every modulus, reading each position of a packed vector returns the value it was built from.",
   "inputs,configurations", "for every modulus, vector and position", W,
   ["fcp/secagg/shared/secagg_vector.cc", "fcp/secagg/shared/secagg_vector.h"], [{"name": "bit packing", "where": "fcp/secagg/shared/secagg_vector.cc"}],
   """Equality of values after shifting and masking across byte boundaries is bit-level arithmetic beyond linear terms. S16 decides its structural part: the width is that of the modulus, bounds of every
   access, and that both directions step alike.""")
NA("N04", "Interrupted work stops within the configured grace periods",
   "Work that is interrupted returns within the configured grace period, and a clock wakes its waiters without noticeable delay.",
   "schedules,configurations", "for every load of the machine and every computation", "How long something takes depends on the machine and its load.",
   ["fcp/client/interruptible_runner.cc", "fcp/base/clock.cc"], [{"name": "grace periods", "where": "fcp/client/interruptible_runner.cc"}],
   "Elapsed time is a runtime quantity. D11 decides that the abort is issued, waited for with the configured periods and reported; B05 decides that no wakeup is lost or early.")
NA("N05", "The random graph of neighbours is connected enough with the wanted probability",
   "For the parameters chosen, the graph of clients who share keys stays connected and private with at least the stated probability under the stated fraction of drop-outs and adversaries.",
   "inputs,configurations", "for every number of clients and every drop-out and adversary fraction", W,
   ["fcp/secagg/server/graph_parameter_finder.cc"], [{"name": "parameter search", "where": "fcp/secagg/server/graph_parameter_finder.cc"}],
   "A bound on hypergeometric tail probabilities computed in floating point; its correctness is a numerical statement, not one about paths, values or effects in the source.")
