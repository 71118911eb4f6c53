_ALLFILES = ["__init__.py", "_algebra", "_channels", "_constellations", "_error_control_block", "_error_control_convolutional", "_error_control_decoders",
             "_finite_state_machine", "_integer_coding", "_labelings", "_lossless_coding", "_pulses", "_quantization", "_sequences_binary",
             "_sequences_complex", "_sources", "_util"]
_AI = "abstract interpretation of the source (intervals, symbolic sizes, aliasing roots, effects)"

PROPS += [
P("C01", "Calls never modify the caller's data",
  "No constructor, method, property or function of the library changes an array, list, dictionary or other mutable object that the caller passed "
  "in. Whatever the operation returns or raises, the arguments compare equal to what they were before the call.",
  ["inputs", "programs"], "every public entry point, every argument kind (lists, arrays of any dtype, contiguous or not) and every path through the code",
  "Tests pass literals and never look at the argument again; aliasing shows only for array arguments of exactly the dtype an asarray() call leaves alone.",
  ["_util/validators.py", "_util/decorators.py", "_channels", "_error_control_decoders", "_lossless_coding", "_finite_state_machine/MealyMachine.py"],
  [("copies before in-place work", "_error_control_decoders/ReedDecoder.py"), ("explicit copy in the erasure channel", "_channels/BinaryErasureChannel.py"),
   ("blockwise/vectorize reshaping", "_util/decorators.py")],
  "alias and effect analysis (" + _AI + ")",
  note="May-alias analysis over every entry point and path in the model; the stream decoder's documented memory argument is exempt."),
P("C02", "Objects are immutable: no call leaves a trace that a later call can see",
  "After construction, no operation on a code, channel, decoder, pulse, source or other object changes what any later operation on it (or on another "
  "object) returns. The only exceptions are the random generator's own state and the streaming decoder's documented path memory.",
  ["histories"], "every sequence of calls on an object, in any order and interleaving with calls on other objects",
  "Tests build a fresh object per case and call one operation; order-dependent corruption of memoised tables needs a history no test runs.",
  ["_error_control_block/BlockCode.py", "_error_control_block/base.py", "_error_control_convolutional", "_error_control_decoders", "_lossless_coding", "_sequences_binary"],
  [("cached_property / cache of derived tables", "_error_control_block/base.py"), ("memoised state-space representation", "_error_control_convolutional/base.py"),
   ("availability flags of memoised sequences", "_sequences_binary/LFSRSequence.py")],
  "effect analysis (" + _AI + ")",
  note="Attribute writes and in-place writes to object, class, module, default-argument or memoised memory on any path."),
P("C03", "Randomness comes only from the given generator, fresh per symbol and call",
  "Every random outcome of a channel, source or Markov chain is drawn from the generator the object was given, or else from the library's current "
  "global generator, and from nothing else. Each call draws anew, the draws cover every element of the input independently, and no draw is remembered between calls.",
  ["histories", "inputs"], "every stochastic operation, every input shape, every generator and seed, every sequence of calls",
  "Tests fix one seed and one shape; reused draws, broadcast draws and draws frozen at import time look random in a single sampled call.",
  ["_channels", "_sources", "_util/global_rng.py"],
  [("generator field with deferred default", "_channels/BinarySymmetricChannel.py"), ("draws shaped like the input", "_channels/GaussianChannel.py"),
   ("global generator accessor", "_util/global_rng.py")],
  "source/sink taint analysis of random draws (" + _AI + ")",
  note="Which generator is used, when the default is resolved, and the shape of every draw against the shape of the input."),
P("C04", "Results are deterministic: no ambient input, no process-dependent order",
  "Apart from draws from the designated generator, every result depends only on the arguments: not on time, environment, files, hash salting, set "
  "iteration order, object identity or process-wide numeric configuration. Importing or using the library changes no process-wide configuration.",
  ["configurations", "histories"], "every entry point and the import of every module, under every environment, hash seed and process history",
  "Tests run in one process with one hash seed; order of set iteration or the state of a global error mask cannot vary there.",
  _ALLFILES, [("pure functions throughout", "_util"), ("sorted node and codeword orders", "_lossless_coding/HuffmanCode.py")],
  "source/sink analysis (" + _AI + ")",
  note="All reads of ambient state, salted hashes, set-order-dependent values and writes to process-wide configuration."),
P("C05", "Parameters are accepted exactly on their documented domain",
  "Constructing an object or calling a parameterised function with a parameter outside its documented domain (range, shape, option name, mutual "
  "exclusion, normalisation) raises ValueError or TypeError; no object with such parameters ever exists. Every parameter inside the documented domain, boundaries included, is accepted.",
  ["inputs", "configurations"], "every value of every documented parameter, alone and in documented combinations",
  "Tests try one or two bad values per class; an off-by-one bound or a check skipped on one construction path survives them.",
  _ALLFILES, [("validators", "_util/validators.py"), ("constructor guards", "_pulses/RaisedCosinePulse.py"), ("mapping validation", "_lossless_coding/FixedToVariableCode.py")],
  "interval analysis of guards over documented regions (" + _AI + ")",
  note="Each documented region is run abstractly: rejection must be unavoidable outside the domain, a normal exit must remain inside; undecided regions are listed in the evidence."),
P("C06", "Every operation returns the documented shape for every input shape",
  "For every number of blocks, every number of leading (batch) axes and every valid parameter, the result of an encoding, decoding, mapping, channel, quantisation, "
  "labelling, pulse or matrix operation has exactly the documented shape: leading axes are kept, the last axis is scaled by the documented ratio, "
  "and derived matrices have the documented dimensions. An input whose last axis has a fixed block size that it does not fill is rejected with ValueError.",
  ["inputs", "configurations"], "every input shape (0, 1 or 2 leading axes, any block count), every parameter of every class",
  "Tests use a few shapes of a few small codes; a lost axis or a wrong ratio on a special path (one block, one dimension, rate one) is not among them.",
  ["_util/decorators.py", "_error_control_block", "_error_control_decoders", "_error_control_convolutional", "_constellations", "_labelings", "_channels", "_quantization", "_pulses"],
  [("blockwise reshaping", "_util/decorators.py"), ("derived matrices", "_error_control_block/base.py"), ("state space matrices", "_error_control_convolutional/base.py")],
  "symbolic shape analysis (" + _AI + ")",
  note="Axis polynomials over symbolic sizes are compared with the documented ones; incomparable shapes are listed as undecided in the evidence."),
P("C07", "Results stay inside their documented alphabet",
  "Every operation returns only symbols of its documented alphabet: codewords, messages, labels and code symbols are in 0..T-1 (bits in {0,1}), channel outputs, quantizer "
  "levels, state and constellation indices are valid indices, pmfs and transition matrices are probabilities, counts and weights are nonnegative integers.",
  ["inputs"], "every valid input and parameter value, every random draw, for several concrete alphabet sizes per class",
  "Tests compare a few outputs; a missing reduction modulo 2 or an off-by-one in an index shows only for inputs where the carry or the last symbol occurs.",
  ["_error_control_block", "_error_control_convolutional", "_error_control_decoders", "_channels", "_sources", "_labelings", "_constellations", "_finite_state_machine", "_quantization",
   "_lossless_coding", "_sequences", "_util"],
  [("reduction modulo 2 after matrix products", "_error_control_block/BlockCode.py"), ("index arithmetic", "_channels"), ("digit conversion", "_util/bit_operations.py")],
  "interval analysis (" + _AI + ")",
  note="Upper bounds are decided when no unknown value is involved; results that cannot be bounded are counted as undecided.  Decoding of dictionary-coder tokens is not covered."),
P("C08", "Integer results are exact at every size",
  "Every integer the library computes (lengths, degrees, field widths, table sizes, polynomial bit patterns, integers read from or written to bits) is exact for every "
  "size of its inputs: it is never obtained by rounding a float that may be inexact, and never truncated or overflowed by fixed-width array arithmetic where an arbitrary-size integer is expected.",
  ["inputs", "configurations"], "every polynomial degree, bit width, cardinality and code parameter, with no upper bound",
  "Tests stay with small numbers, where floats are exact and 64 bits suffice; a logarithm that rounds the wrong way appears only for rare values such as 125 = 5**3.",
  ["_algebra/BinaryPolynomial.py", "_algebra/FiniteBifield.py", "_util/bit_operations.py", "_lossless_coding", "_integer_coding", "_error_control_block"],
  [("polynomial as arbitrary-size integer", "_algebra/BinaryPolynomial.py"), ("integer logarithm", "_lossless_coding/util.py"), ("bit conversions", "_util/bit_operations.py")],
  "exactness (taint) analysis (" + _AI + ")",
  note="Assumes sizes other than bit patterns stay below 2**53, where division, square root and log2 of an integer are correctly rounded."),
P("C09", "Every result has the type its interface declares",
  "Every operation returns a value of the type its signature declares, for every valid argument (empty, batched, a list or an array, on every branch): a Python int, bool or str where one is declared, "
  "never a NumPy scalar, a float or an array in its place; an array, never a list, with the declared kind of elements (integer, real, complex) and number of dimensions where an array is declared; "
  "tuples, lists, sets and dictionaries of the declared elements; an object of the declared class. An override keeps the type its base operation declares.",
  ["inputs", "configurations"], "every public operation of every class and function, every branch and every argument kind of the model",
  "Tests compare values, and 3 == np.int64(3) == 3.0: a result of the wrong type passes equality, then overflows, fails isinstance and bit operations, or serialises differently in the caller's code.",
  _ALLFILES, [("Python int from NumPy reductions", "_error_control_block/base.py"), ("typed empty results", "_integer_coding"), ("scalar and array forms", "_util/bit_operations.py")],
  "type inference over the source (" + _AI + ")",
  note="np.float64 counts as float; an integer array is accepted where an array of reals is declared; NumPy scalars are accepted as zero-dimensional arrays."),
P("C11", "Every parameter and argument reaches the results it determines",
  "Each constructor parameter influences the operations it is documented to determine, and each argument of an operation influences its result: no option, "
  "generator, mapping entry, axis, phase, mode or initial state is silently ignored, on any construction path or subclass.",
  ["inputs", "configurations"], "every parameter of every class and function, every documented option value and every operation of the class",
  "Tests compare a few outputs computed with default or equal-valued parameters; a parameter that is dropped in an override or replaced by its default is invisible there.",
  _ALLFILES, [("per-class parameters used by the operations", "_constellations/QAMConstellation.py"), ("options of decoders", "_error_control_decoders/ViterbiDecoder.py"),
   ("policy and assignment of Huffman codes", "_lossless_coding/HuffmanCode.py")],
  "information-flow analysis (" + _AI + ")",
  note="May-influence over-approximation (data, index, size and control dependence): a parameter outside it provably has no influence."),
P("C12", "Code tables and closed-form parameters match their mathematical definition",
  "Every built-in table has its defining property at every index: default field moduli and maximum-length feedback polynomials are primitive of the "
  "requested degree, Barker sequences have aperiodic autocorrelation at most 1, the Golay parity matrices generate codes of distance 7 and 8. Every closed-form "
  "parameter (length, dimension, redundancy, minimum distance, order, cardinality, window size) equals its documented formula for all constructor parameters.",
  ["inputs", "configurations"], "every table index and every value of the constructor parameters",
  "Tests touch small degrees and a few parameter pairs; a wrong entry for degree 19 or a formula wrong only for large or extended codes is never evaluated.",
  ["_algebra/FiniteBifield.py", "_sequences_binary", "_error_control_block", "_error_control_convolutional", "_constellations", "_labelings", "_lossless_coding", "_channels"],
  [("table of primitive polynomials", "_sequences_binary/LFSRSequence.py"), ("Barker table", "_sequences_binary/BarkerSequence.py"),
   ("closed-form overrides", "_error_control_block/HammingCode.py")],
  "constant propagation and value numbering (" + _AI + ")",
  note="Tables are read off by constant propagation and checked by independent integer arithmetic; formulas are compared as polynomials in the constructor parameters."),
P("C13", "Operations refuse arguments that violate their precondition",
  "An operation given an argument that violates a documented precondition (an input length that is not a multiple of the block size, a symbol outside the alphabet, an index out of range, priors or pmfs "
  "of the wrong size, an initial state of the wrong length, a stream that ends inside a codeword or is not made of codewords, a code or chain the operation is not defined for) raises the documented error; "
  "it never returns a value. The nearest valid arguments are accepted.",
  ["inputs"], "every argument of every operation that violates one precondition, with everything else valid",
  "Tests try a violation or two per class; a check that looks only at part of the input, is off by one, or is missing on one subclass lets garbage through silently.",
  ["_util/decorators.py", "_util/validators.py", "_labelings", "_constellations", "_lossless_coding", "_integer_coding", "_error_control_block", "_error_control_convolutional", "_channels"],
  [("block size check", "_util/decorators.py"), ("alphabet checks of the stream coders", "_util/validators.py"), ("received and priors checks", "_constellations/base.py")],
  "precondition (must-raise) analysis (" + _AI + ")",
  note="Each violating region is run abstractly: no normal exit may remain unless an error that depends on the argument is still reachable (undecided, listed in the evidence)."),
P("C14", "The container and integer width of an argument never matter",
  "An operation gives the same result, as values, whether an argument is a list, a tuple or an array, and whether an integer array is boolean, unsigned, narrow or int64: "
  "no arithmetic wraps around, saturates or turns into a logical operation because of the caller's dtype, no boolean array is taken for a mask, "
  "no fractional result is truncated into an integer input's dtype, and a list is accepted wherever an array is.",
  ["inputs"], "every array-like argument of every public entry point, every container and every integer dtype",
  "Tests pass Python lists, which always become int64 or float64 arrays; uint8, int8 and bool arrays from files and sockets follow other arithmetic rules.",
  ["_sequences_binary/BinarySequence.py", "_error_control_block", "_error_control_decoders", "_channels", "_labelings", "_lossless_coding", "_util", "_finite_state_machine"],
  [("conversion at entry", "_labelings/base.py"), ("integer conversion of sequences", "_sequences_binary/BinarySequence.py"), ("blockwise/vectorize", "_util/decorators.py")],
  "type-width analysis (" + _AI + ")",
  note="Integer arguments carry an unknown, possibly boolean or unsigned dtype; any computation in it that leaves [0,1] is reported; list and integer-for-real variants of every array argument."),
P("C15", "Equality, hashing and memoisation agree on what an object is",
  "Polynomials, polynomial fractions, integer elements, finite fields and field elements compare equal exactly when they are the same value over the same structure (fields by modulus, elements by field and value, "
  "fractions by both terms), and a polynomial equals, and hashes as, the integer that encodes it. "
  "Comparing with an unrelated object gives False, never an exception, and equal objects have equal hashes. "
  "A component with memoised methods is hashable, a memoised function only receives hashable arguments, and an equality a class defines takes every constructor parameter into account.",
  ["inputs", "configurations"], "every pair of objects, every class that defines equality, every memoised member",
  "Tests compare a few small objects built alike; a parameter left out of a comparison, or a hash that disagrees with it, shows only for two objects that differ in exactly that parameter.",
  ["_algebra/FiniteBifield.py", "_algebra/BinaryPolynomial.py", "_algebra/BinaryPolynomialFraction.py", "_algebra/Integers.py", "_error_control_convolutional/TerminatedConvolutionalCode.py"],
  [("field and element equality", "_algebra/FiniteBifield.py"), ("integer equality and hash", "_algebra/BinaryPolynomial.py"), ("identity comparison of a memoising class", "_error_control_convolutional/TerminatedConvolutionalCode.py")],
  "dependence analysis of comparisons and hashability rules (" + _AI + ")",
  note="Comparison results must depend on the defining parameters of both operands; decided regions must not come out opposite; memoised members need hashable owners and arguments."),
P("C17", "Items of a batch are processed independently",
  "Processing a batch gives exactly what processing each item on its own gives: no row of a multidimensional input, and for block codes, labelings, constellations, memoryless channels, "
  "quantizers and elementwise functions no block or sample, ever influences the result of another one.",
  ["inputs"], "every number and content of the other items in the batch, every shape",
  "Tests use batches of similar items; a normalisation taken over the whole array instead of one row changes results only when items differ greatly.",
  ["_util/decorators.py", "_constellations/base.py", "_labelings", "_error_control_block", "_error_control_decoders", "_channels", "_quantization", "_pulses"],
  [("blockwise reshaping", "_util/decorators.py"), ("per-row normalisation of posteriors", "_constellations/base.py"), ("per-block decoding", "_error_control_decoders")],
  "mixing (dependence) analysis along batch axes (" + _AI + ")",
  note="Data dependences only: a shortcut chosen by looking at the whole batch is not tracked."),
P("C18", "Processing results are never windows into an object's internal tables",
  "The result of an operation that processes data (encode, decode, transmit, map, quantise, simulate) owns its memory: writing into it never changes "
  "an object, a memoised table, a module constant or the result of a later call.",
  ["histories"], "every operation that takes data, every input (including empty and single-symbol inputs), every later call",
  "No test writes into a result and calls again, and aliasing occurs only on particular paths (identity shortcuts, views, memoised results).",
  ["_error_control_block", "_error_control_decoders", "_channels", "_constellations", "_labelings", "_lossless_coding", "_quantization", "_util"],
  [("fancy indexing and arithmetic produce fresh arrays", "_constellations/base.py"), ("copies of memoised tables", "_util/decorators.py")],
  "escape analysis (" + _AI + ")",
  note="No array reachable from a result may share memory with attributes, memoised results, module/class variables or defaults."),
P("C19", "Channels and sources have their documented limiting behaviour",
  "At the boundary of their parameter range, channels and sources are deterministic: a noiseless channel returns exactly its input; a binary symmetric, erasure or Z-channel "
  "of probability one always flips, erases or decays; a Z-channel never alters a 0; a transition row or pmf with a single positive entry always yields that symbol. Strictly inside the range "
  "both outcomes stay possible. Transition matrices, capacities and mutual informations at the boundary take their documented limits (never NaN or an error).",
  ["inputs", "histories"], "every input of every shape and every possible outcome of the random draws at the boundary parameters",
  "Tests draw a few samples; 'less than' against 'at most' differs with probability zero in any sampled run, and the logarithm at 0 or 1 is reached only at the boundary.",
  ["_channels", "_sources", "_util/information_theory.py"],
  [("draw compared with the channel probability", "_channels/BinarySymmetricChannel.py"), ("mask of the erased symbols", "_channels/BinaryErasureChannel.py"),
   ("guards at 0 and 1", "_util/information_theory.py")],
  "interval analysis at the boundary of the parameter range (" + _AI + ")",
  note="Intervals over all inputs and all draws; a range widened by a partial store is undecided."),
P("C20", "The public interface agrees with itself and with its documentation",
  "Every exported concrete class implements every operation of its interface; every override accepts every call that its base operation accepts (parameter names, order, kinds and defaults; additional parameters "
  "are optional; a property stays a property). Every documented parameter exists under its documented name and position, every documented default is the actual default, and repr() shows the constructor's own parameters.",
  ["programs", "configurations"], "every caller, positional or by keyword, with any subset of the optional parameters, on every class of the library",
  "Tests call most operations positionally with all arguments given; a renamed parameter or a changed default in one override is not noticed.",
  _ALLFILES, [("interfaces", "abc.py"), ("overrides of the channel interface", "_channels/BinarySymmetricChannel.py"), ("documented defaults", "_lossless_coding/HuffmanCode.py")],
  "signature and documentation analysis of the resolved program",
  note="A default of None resolved in the body and a documented default that is not a constant are undecided."),

# ---- not decidable by a static argument in reach: stated, not claimed
P("C21", "Encoding and decoding are inverse to each other",
  "Decoding an encoded message over a noiseless path returns the message: for block codes and their inverse encoders, convolutional and terminated codes, integer codes, fixed-to-variable and "
  "variable-to-fixed codes, Lempel-Ziv coders, labelings, constellations and bit/integer conversions, for every input and every parameter.",
  ["inputs", "configurations"], "every message of every length and every code parameter",
  "Tests run a few messages through a few codes; dictionary coders in particular meet their corner cases only in long or repetitive streams.",
  ["_error_control_block", "_error_control_convolutional", "_lossless_coding", "_integer_coding", "_labelings", "_constellations", "_util/bit_operations.py"],
  [("encoder and inverse encoder", "_error_control_block/BlockCode.py"), ("dictionary coder parsing", "_lossless_coding/LempelZivWelchCode.py")],
  na="An identity between two programs over array contents and unbounded dictionaries; no dataflow domain in reach relates the decoder's output elements to the encoder's input elements "
     "(value numbering loses them at the first matrix product, table lookup or stream loop). Shape, alphabet, exactness and precondition aspects are claimed as C06, C07, C08 and C13."),
P("C22", "Decoders correct up to the guaranteed radius and optimal decoders are optimal",
  "Every hard-input block decoder returns the transmitted message when at most floor((d-1)/2) symbols were flipped; exhaustive-search and Viterbi decoders return a most likely codeword, and "
  "BCJR, successive-cancellation and Wagner decoders the outputs of their documented metrics.",
  ["inputs"], "every code, every error pattern within the radius, every real soft input",
  "Tests try single errors on small codes.",
  ["_error_control_decoders", "_finite_state_machine/MealyMachine.py"],
  [("syndrome table", "_error_control_decoders/SyndromeTableDecoder.py"), ("Viterbi recursion", "_finite_state_machine/MealyMachine.py")],
  na="Needs the algebra of each code and arg-min facts over exponentially many codewords; no sound static abstraction keeps the relation between received word, metric and decision."),
P("C23", "Random operations follow the documented distributions",
  "Over many draws, channel outputs, source symbols and Markov trajectories have the documented conditional probabilities, noise the documented variance, and samples are independent.",
  ["inputs", "histories"], "every parameter value and every sequence of calls",
  "A statistical claim; a seeded sample settles nothing.",
  ["_channels", "_sources"], [("comparison of draws with probabilities", "_channels/BinarySymmetricChannel.py")],
  na="A statement about a probability measure; static analysis decides only its support and the origin, shape and freshness of the draws (claimed as C03, C07 and C19)."),
P("C24", "Soft outputs and likelihoods have the documented values",
  "Constellation posteriors, log-likelihood ratios of decoders, Viterbi metrics and BCJR probabilities equal the documented formulas for every received value and prior.",
  ["inputs"], "every real or complex received vector, every noise level and prior",
  "Tests compare a handful of numbers computed by the same code.",
  ["_constellations/base.py", "_error_control_decoders", "_util/decorators.py"], [("posteriors", "_constellations/base.py")],
  na="Equality of real-valued expressions up to rounding; comparing the source with a formula would accept or reject by the way it is written, not by what it computes."),
P("C25", "Pulses agree with their spectra, energies and documented definitions",
  "Waveform, spectrum, autocorrelation, energy spectral density and taps of every pulse are Fourier/convolution pairs of each other and equal the documented closed forms, including the removable "
  "singularities, for every parameter value.",
  ["inputs", "configurations"], "every time and frequency instant and every roll-off, width and bandwidth",
  "Tests sample a grid with tolerance; singular points are isolated.",
  ["_pulses"], [("removable singularities", "_pulses/RaisedCosinePulse.py")],
  na="A relation between transcendental functions and integrals; intervals bound the values (C07) but cannot establish the identities."),
P("C26", "Quantizers and detectors choose the nearest level or symbol",
  "Quantisation and hard detection return the level or symbol nearest to the input, with the documented tie rule, for every real or complex input; the Lloyd-Max quantizer is a fixed point of its iteration.",
  ["inputs"], "every real or complex input including decision boundaries",
  "Tests use inputs away from the boundaries.",
  ["_quantization", "_constellations"], [("closest indices", "_constellations/base.py"), ("digitize", "_quantization/ScalarQuantizer.py")],
  na="An arg-min over a table of reals as a function of the input; interval analysis bounds the index (C07), not which index."),
P("C27", "Lossless codes are uniquely decodable and the optimal ones are optimal",
  "Huffman, Fano, Shannon, Tunstall and mapping-based codes are prefix-free (or complete parsing sets) with Kraft sums at most one; Huffman codes minimise the expected length, Tunstall codes maximise the expected parse length.",
  ["inputs", "configurations"], "every pmf, block size and cardinality",
  "Tests check examples from a textbook.",
  ["_lossless_coding"], [("Huffman merge", "_lossless_coding/HuffmanCode.py"), ("Tunstall growth", "_lossless_coding/TunstallCode.py")],
  na="Optimality and unique decodability are properties of a data-dependent tree built in loops over heaps; no invariant of that kind is expressible in the domains used."),
P("C28", "Algebraic structures satisfy their axioms",
  "Binary polynomials, fractions and finite-field elements satisfy the ring and field axioms, division with remainder, gcd and minimal-polynomial identities, and multiplication tables agree with the modulus.",
  ["inputs"], "all polynomials and field elements of every degree",
  "Tests evaluate small degrees.",
  ["_algebra"], [("polynomial division", "_algebra/BinaryPolynomial.py"), ("field inverse", "_algebra/FiniteBifield.py")],
  na="Bit-level loop invariants (carry-less products, Euclid); they need inductive proof or a solver, not dataflow. Exactness of the integers involved is claimed as C08."),
P("C29", "Specialised operations agree with the generic definition they override",
  "Every closed-form override (weight distributions, minimum distances, coset leaders, capacities, mean, energy, labelings, spectra) returns what the generic base definition would compute.",
  ["configurations"], "every class and parameter for which an override exists",
  "Tests compare a few parameters against literal numbers.",
  ["_error_control_block", "_channels", "_constellations", "_labelings"], [("closed-form overrides", "_error_control_block/RepetitionCode.py")],
  na="Equivalence of an enumeration or optimisation with a closed form; sizes and scalar code parameters are compared with their formulas in C12, the contents of distributions and tables are out of reach."),
P("C30", "Sequences have their documented correlation and balance properties",
  "Maximum-length, Walsh-Hadamard and Zadoff-Chu sequences have the documented autocorrelation, orthogonality and balance for every length.",
  ["configurations"], "every length, degree, index and root",
  "Tests look at short sequences.",
  ["_sequences_binary", "_sequences_complex"], [("shift register", "_sequences_binary/LFSRSequence.py")],
  na="Needs number-theoretic identities over generated arrays; only table entries (primitive feedback polynomials, Barker words) are decided, in C12."),
]
