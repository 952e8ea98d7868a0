#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
B = "include/boost/random/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=[f if f.startswith("src") else B + f for f in files],
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append(d)

ENG = ["linear_congruential.hpp", "additive_combine.hpp", "inversive_congruential.hpp", "mersenne_twister.hpp",
       "lagged_fibonacci.hpp", "subtract_with_carry.hpp", "linear_feedback_shift.hpp", "mixmax.hpp", "splitmix64.hpp",
       "discard_block.hpp", "shuffle_order.hpp", "independent_bits.hpp", "xor_combine.hpp"]
DIST = ["normal_distribution.hpp", "exponential_distribution.hpp", "gamma_distribution.hpp", "binomial_distribution.hpp",
        "poisson_distribution.hpp", "discrete_distribution.hpp", "piecewise_constant_distribution.hpp",
        "piecewise_linear_distribution.hpp", "hyperexponential_distribution.hpp", "uniform_int_distribution.hpp",
        "uniform_real_distribution.hpp", "triangle_distribution.hpp", "geometric_distribution.hpp"]

p("P01", "Engine outputs stay inside the advertised bounds",
  "For every pseudo-random engine and engine adaptor, after any sequence of construction, seeding, discarding, restoring and drawing, every value drawn lies between the advertised minimum and maximum (the maximum excluded for real-valued engines). The advertised bounds never change during the life of an engine, and for the predefined engines they are exactly the bounds of the published generator.",
  ["histories", "inputs"], "all engines, all seeds (including zero, negative, maximal and degenerate seed sequences), all operation histories",
  "test_generator.ipp draws a few hundred values from the default seed of each predefined engine; extremes reached only from rare states, unusual seeds or other template parameters are never drawn.",
  ENG, [("min/max members", "each engine class"), ("seed normalisation that keeps the state inside the valid set", "detail/seed_impl.hpp, linear_congruential_engine::seed, linear_feedback_shift_engine::seed")],
  observe=["min()", "max()", "operator()"])

p("P02", "Predefined engines reproduce their published sequences",
  "Every predefined engine produces, from any integer seed, from the default seed and from any caller-supplied seed words, exactly the value sequence that the published definition of that generator prescribes, at every position of the sequence. The predefined engines that the C++ standard also defines agree with the standard's, and the 48-bit generator agrees with the C library's lrand48.",
  ["inputs"], "all predefined engines, all seeds, all stream positions",
  "the tests compare one value (the 10000th) of the default seed per engine; a defect that shows for other seeds, at other positions or only after the state wraps is invisible.",
  ENG + ["ranlux.hpp", "taus88.hpp"], [("recurrences and tempering", "operator() and twist/fill of each engine")],
  observe=["operator()", "generate()"])

p("P03", "Recurrence engines are exact for any valid template parameters",
  "A linear-congruential, inversive-congruential, subtract-with-carry, lagged-Fibonacci, linear-feedback or Mersenne-twister engine instantiated with any valid parameters and any unsigned or signed word type of sufficient size computes its defining recurrence exactly, without intermediate overflow or truncation. This includes moduli close to or equal to the full word range, composite moduli, zero increments and word widths that are not the native one.",
  ["programs", "inputs"], "all valid template parameter combinations of the recurrence engines, all states",
  "the tests instantiate only the predefined parameter sets (plus a handful of modular-arithmetic constants), so most of the case analysis in the modular arithmetic is never executed.",
  ["detail/const_mod.hpp", "detail/large_arithmetic.hpp", "linear_congruential.hpp", "inversive_congruential.hpp", "mersenne_twister.hpp", "subtract_with_carry.hpp", "lagged_fibonacci.hpp", "linear_feedback_shift.hpp"],
  [("modular multiply/add/invert without overflow", "detail/const_mod.hpp"), ("double-width product", "detail/large_arithmetic.hpp")],
  observe=["operator()", "operator<<"])

p("P04", "Engine adaptors transform their base sequence as documented",
  "A discarding adaptor delivers exactly the first r of every p base values; a shuffling adaptor delivers exactly the table-shuffled sequence of its base; a bit-width adaptor delivers w-bit values that are built from accepted base values only and are exactly equidistributed when the base values are; a combining adaptor delivers the documented combination of its bases. This holds for any base engine, any legal adaptor parameters and at every position, and the base accessor always reflects the base engine actually consumed.",
  ["programs", "histories"], "all base engines and adaptor parameters, all positions and operation histories",
  "the tests fix a handful of compositions and look at one output value; block boundaries, refills, rejected base values and mixed operation histories are not compared with the base sequence.",
  ["discard_block.hpp", "shuffle_order.hpp", "shuffle_output.hpp", "independent_bits.hpp", "xor_combine.hpp", "additive_combine.hpp"],
  [("block counter", "discard_block_engine::operator()"), ("shuffle table", "shuffle_order_engine::operator()"), ("rejection loop", "independent_bits_engine::operator()")],
  state=[("position in block", "how many of the current block's values were delivered", "discard_block_engine"), ("table and last value", "values waiting to be delivered", "shuffle_order_engine")],
  observe=["operator()", "base()", "discard()"])

p("P05", "discard(j) is equivalent to j draws",
  "For every engine and adaptor, from any reachable state and for any j (zero, one, block boundaries, larger than the state, or astronomically large where jumping ahead is supported), discarding j values leaves the engine in the state that j individual draws would have produced. Consecutive discards add up.",
  ["histories", "inputs"], "all engines, all positions within the state buffer, all j",
  "the tests discard one fixed amount from one fixed position; the fast-skip code has separate cases per position in the buffer and per size of j.",
  ENG, [("block-wise skipping", "mersenne_twister_engine::discard, lagged_fibonacci discard, subtract_with_carry_discard"), ("jump-ahead by modular powers", "linear_congruential_engine::discard, mixmax discard")],
  state=[("buffer index", "position of the next output in the state array", "mersenne_twister, lagged_fibonacci, subtract_with_carry, mixmax")],
  observe=["discard()", "operator()", "operator=="])

p("P06", "Seeding depends only on the seed and consumes exactly what it needs",
  "Constructing an engine from a seed (nothing, an integer, a seed sequence, or a range of words) and reseeding any used engine with the same seed give identical engines, whatever the engine did before. Seeding from a range of words advances the iterator exactly past the words it used, never reads beyond the end, and throws the documented invalid-argument exception when the range is too short. Any integer seed, including zero and out-of-range values, and any ordinary seed sequence yields a working predefined engine whose sequence does not collapse to a constant.",
  ["inputs", "histories"], "all seeds and seed ranges of all lengths, all prior histories of the engine",
  "the tests reseed fresh engines with a few fixed seeds; they neither reseed at awkward positions nor cut the range at every length nor try states that the algorithm must avoid.",
  ["detail/seed.hpp", "detail/seed_impl.hpp", "seed_seq.hpp"] + ENG,
  [("seed/constructor overloads", "detail/seed.hpp macros"), ("range filling with length check", "detail/seed_impl.hpp fill_array_int, fill_array_real, get_one_int"), ("normalisation of forbidden states", "mersenne_twister normalize_state, linear_congruential seed, subtract_with_carry")],
  observe=["constructors", "seed()"])

p("P07", "A saved engine can be restored exactly, at any position",
  "Writing any engine to a text stream and reading it back into any engine object of the same type, however used before, yields an equal engine that continues with the same sequence. This holds at every position of the state buffer and for narrow and wide streams; writing does not disturb the engine, and reading takes only the engine's own text, so several engines or other data can follow in the same stream.",
  ["histories", "inputs"], "all engines, all reachable states, all contents that precede or follow in the stream",
  "the tests save and restore at one position of one seed, with nothing else in the stream.",
  ENG + ["detail/operators.hpp"], [("stream operators", "operator<< / operator>> of each engine")],
  observe=["operator<<", "operator>>", "operator=="])

p("P08", "Engine equality means equal future; copies are independent",
  "Two engines that compare equal produce the same values from then on: engines brought to the same point of the same sequence by different operations (draws, discards, restoring, copying, reseeding) compare equal, and engines whose later values differ, because they are at different points or were seeded differently, compare unequal. A copied or assigned engine compares equal to its source, continues identically, and neither object is affected by later use of the other; inequality is the negation of equality.",
  ["histories"], "all pairs of operation histories of an engine",
  "the tests compare freshly seeded engines and one advanced engine; equality is implemented over rotated buffers, where only particular alignments of the two histories go wrong.",
  ENG, [("rotation-aware state comparison", "operator== of mersenne_twister, lagged_fibonacci, subtract_with_carry"), ("implicit copy", "all engines")],
  observe=["operator==", "operator!=", "copy constructor", "operator="])

p("P09", "Seed-sequence generation fills exactly the requested range correctly",
  "The library's seed sequence generates for any list of input words and any requested length exactly the words the C++ standard's algorithm prescribes. Every generator used as a seed sequence stores a value of at most 32 bits into every element of the requested range and touches nothing outside it, for any range length including an empty one and any destination word width of at least 32 bits. The words written depend only on the generator's state, and longer requests from the same state begin with the words of shorter ones when the source is a generator.",
  ["inputs"], "all input word lists, all range lengths, all destination element types, all generators as source (integer widths 1..64, ranges that are not powers of two, real-valued)",
  "the tests generate a few fixed lengths and compare a handful of words; the bit-repacking code depends on the engine's range, on the position and on the length.",
  ["seed_seq.hpp", "detail/seed_impl.hpp", "detail/generator_bits.hpp"] + ENG,
  [("seed_seq mixing", "seed_seq::generate"), ("bit repacking", "detail/seed_impl.hpp generate_from_int, generate_from_real")],
  observe=["generate()"])

p("P10", "Uniform integers stay within the requested bounds and reach every value",
  "A uniform integer request for any bounds min <= max of any integer type, answered from any engine (any integer range or signedness, or real-valued), returns only values between min and max inclusive. Every value in the requested range is reachable, including both bounds.",
  ["inputs", "programs"], "all bounds of all integer types (8 to 64 bits, signed and unsigned, full range), all engine ranges smaller than, equal to or larger than the request",
  "the tests sample a few ranges from 32-bit engines; the algorithm branches on how the request compares with the engine's range (equal, exact power, one less or one more, full width), and most branches are hit by a handful of bounds only.",
  ["uniform_int_distribution.hpp", "uniform_int.hpp", "uniform_smallint.hpp", "detail/uniform_int_float.hpp", "detail/signed_unsigned_tools.hpp"],
  [("range case analysis", "uniform_int_distribution.hpp generate_uniform_int"), ("real-engine adapter", "detail/uniform_int_float.hpp")],
  observe=["operator()"])

p("P11", "Uniform integers are exactly unbiased",
  "When the underlying engine's outputs are equally likely and independent, every value of a uniform integer request is exactly equally likely: over all equally long engine output sequences that lead to acceptance each result occurs the same number of times. This holds whatever the relation between the engine's range and the requested range.",
  ["inputs", "programs"], "all pairs of engine range and requested range (exhaustively for small ones, by reference model and statistics for large ones)",
  "the tests use chi-squared statistics for two ranges, which cannot see small biases and never leave the common branch.",
  ["uniform_int_distribution.hpp", "detail/uniform_int_float.hpp"],
  [("rejection thresholds and digit assembly", "uniform_int_distribution.hpp generate_uniform_int")],
  observe=["operator()"])

p("P12", "Small-range integers obey the documented quantization bound",
  "The cheap small-range integer distribution returns only values between its bounds, uses exactly one engine value per result, and over a full cycle of equally likely engine values no result is more than one occurrence (two for real-valued engines, whose rounding may move a boundary) more frequent than any other, so that its deviation from uniformity stays within the documented bound. This holds for every engine range at least as large as the requested range.",
  ["inputs", "programs"], "all bounds, all integer and real engine ranges not smaller than the request",
  "the tests use one large engine, for which any quantization error is far below what their statistics resolve.",
  ["uniform_smallint.hpp"], [("quotient or remainder selection", "uniform_smallint::generate")], observe=["operator()"])

p("P13", "Continuous uniform values are half-open and use the available resolution",
  "Uniform real values over [min, max), unit-interval values and canonical values never fall below the lower bound and never reach the upper bound, for any floating-point type and any engine, including when the engine returns its extreme values. A canonical value carries at least the requested number of random bits: it is determined by engine values in the documented way, spans the whole unit interval and draws as many engine values as the requested bits need.",
  ["inputs", "programs"], "all bounds (tiny, huge, adjacent, negative), float/double/long double, all integer and real engines, all engine outputs including the extremes",
  "the tests draw ordinary values; rounding up to the excluded bound needs engine outputs that occur once in 2^24 to 2^64 draws.",
  ["uniform_01.hpp", "uniform_real_distribution.hpp", "uniform_real.hpp", "generate_canonical.hpp", "detail/generator_bits.hpp"],
  [("rejection of the upper bound", "uniform_01.hpp, uniform_real_distribution.hpp generate_uniform_real"), ("accumulation of engine digits", "generate_canonical.hpp")],
  observe=["operator()", "generate_canonical()"])

p("P14", "Distribution values stay inside the distribution's support",
  "Every value returned by any distribution lies between the minimum and maximum the distribution reports, is a number, and belongs to the mathematical support of the distribution for its parameters. This holds for all valid parameters and for every engine output, including runs of extreme outputs.",
  ["inputs"], "all distributions, all valid parameters including extreme ones, all value types, all engine output sequences including adversarial ones",
  "the tests sample moderate parameters with ordinary engine outputs; out-of-support values arise from rounding at extreme engine outputs or extreme parameters.",
  DIST + ["beta_distribution.hpp", "negative_binomial_distribution.hpp", "weibull_distribution.hpp", "laplace_distribution.hpp", "fisher_f_distribution.hpp", "student_t_distribution.hpp", "non_central_chi_squared_distribution.hpp"],
  [("clamps and rejection loops", "operator() of each distribution")], observe=["operator()", "min()", "max()"])

p("P15", "Continuous distributions follow their documented density",
  "The values returned by each continuous distribution are distributed according to its documented density for every valid parameter set, for every floating-point type and for engines of any output width. This includes the tails, the seams between the cases of the sampling algorithm, and independence of successive values.",
  ["inputs", "programs"], "all continuous distributions, all valid parameters, float/double/long double, engine output widths of 8 to 64 bits and real engines",
  "the tests check a narrow parameter range with one 32-bit engine and double; they skip most algorithm cases, other widths, and the tails.",
  ["normal_distribution.hpp", "exponential_distribution.hpp", "gamma_distribution.hpp", "beta_distribution.hpp", "cauchy_distribution.hpp", "chi_squared_distribution.hpp", "extreme_value_distribution.hpp", "fisher_f_distribution.hpp", "laplace_distribution.hpp", "lognormal_distribution.hpp", "non_central_chi_squared_distribution.hpp", "student_t_distribution.hpp", "triangle_distribution.hpp", "uniform_real_distribution.hpp", "weibull_distribution.hpp", "detail/int_float_pair.hpp"],
  [("ziggurat tables and rejection tests", "normal_distribution.hpp, exponential_distribution.hpp"), ("bit splitting between layer index and fraction", "detail/int_float_pair.hpp")],
  observe=["operator()"])

p("P16", "Counting distributions follow their documented probability function",
  "The values returned by each counting distribution (Bernoulli, binomial, geometric, negative binomial, Poisson) occur with the documented probabilities for every valid parameter set, on both sides of every internal algorithm switch, and including the degenerate parameters 0 and 1 where they are allowed.",
  ["inputs", "programs"], "all valid parameters of the counting distributions, all value and real types, engine output widths of 8 to 64 bits and real engines",
  "the tests check a few random parameters of one size class with one 32-bit engine.",
  ["bernoulli_distribution.hpp", "binomial_distribution.hpp", "geometric_distribution.hpp", "negative_binomial_distribution.hpp", "poisson_distribution.hpp"],
  [("inversion and transformed rejection", "binomial_distribution.hpp, poisson_distribution.hpp")], observe=["operator()"])

p("P17", "Weighted distributions honour their weights",
  "A distribution built from weights (discrete, piecewise constant, piecewise linear, hyperexponential) selects each outcome in proportion to its weight, reports the weights it was given (normalised, up to rounding, where the interface documents probabilities), and never selects an outcome of weight zero. This holds for any number, order and magnitude of weights whose sum is representable, for integer and real weights, and for every way of constructing the distribution.",
  ["inputs"], "all weight vectors (zeros, ties, wide dynamic range, one element, none, integer and real), all constructors, drawing with stored and with per-call parameters",
  "the tests use a handful of short weight vectors and statistics that cannot see a small misallocation between outcomes.",
  ["discrete_distribution.hpp", "piecewise_constant_distribution.hpp", "piecewise_linear_distribution.hpp", "hyperexponential_distribution.hpp"],
  [("alias table construction", "discrete_distribution.hpp init"), ("integer averages without overflow", "discrete_distribution.hpp init_average")],
  state=[("alias table", "acceptance threshold and alternative of each bin", "discrete_distribution")],
  observe=["operator()", "probabilities()", "densities()", "intervals()"])

p("P18", "Points on the sphere have unit length and uniform direction",
  "The sphere distribution returns points with exactly the requested number of coordinates and Euclidean length one up to rounding, uniformly distributed over the sphere, for every dimension and floating-point type. The zero-dimensional result is empty and the one-dimensional result is plus or minus one.",
  ["inputs"], "all dimensions (including 0, 1, 2, 3 and large), all floating-point types, all engine outputs",
  "the tests check one or two dimensions statistically with one engine.",
  ["uniform_on_sphere.hpp"], [("per-dimension cases", "uniform_on_sphere::operator()")], observe=["operator()"])

p("P19", "Distribution parameters round-trip and fully determine behaviour",
  "Constructing a distribution from arguments, from a parameter object, by setting parameters on a used distribution, or by copying gives equal distributions that draw identical sequences; the accessors and the parameter object report the values given. Drawing with per-call parameters behaves like a distribution with those parameters and leaves the stored ones untouched, and after a reset nothing drawn before has any influence. Distributions with different parameters compare unequal.",
  ["histories", "inputs"], "all distributions, all valid parameters, all earlier uses of the object",
  "the tests use one or two parameter values per distribution and fresh objects; stale cached constants show only when parameters change across an algorithm switch on a used object.",
  DIST, [("cached constants recomputed on change", "init() and param(parm) of each distribution"), ("param_type", "each distribution")],
  observe=["param()", "accessors", "operator()", "reset()", "operator=="])

p("P20", "A saved distribution can be restored exactly",
  "Writing any distribution or parameter object to a text stream of sufficient precision and reading it back into any object of the same type, however used before, restores the parameters and all internal data, so that equal engines give the same values. Writing and reading leave the stream's format flags and fill character unchanged, take only the object's own text, work for narrow and wide streams, and do not disturb the sequence being drawn.",
  ["histories", "inputs"], "all distributions, all valid parameters (including vectors and long double values), all contents following in the stream",
  "the tests save and restore one parameter set per distribution with nothing else in the stream.",
  DIST + ["detail/vector_io.hpp", "detail/operators.hpp"], [("stream operators", "each distribution"), ("vector text format", "detail/vector_io.hpp")],
  observe=["operator<<", "operator>>"])

p("P21", "Every draw finishes after a bounded expected number of engine values",
  "Drawing from any distribution with any valid parameters consumes, amortised over many draws, at most a constant number of engine values and terminates, for engines of every output width. Distributions that promise to use one engine value per result use exactly one.",
  ["inputs", "programs"], "all distributions and parameters, all engine widths (8, 16, 24, 31, 32, 53, 61, 64 bits, ranges that are not powers of two, real engines) and extreme engine outputs",
  "a test that hangs is only found if it happens to use the affected combination; the tests use 32-bit engines almost everywhere.",
  DIST + ["detail/int_float_pair.hpp", "uniform_smallint.hpp"], [("rejection loops", "operator() of each distribution"), ("digit collection", "detail/int_float_pair.hpp")],
  observe=["number of engine invocations per draw"])

p("P22", "Quasi-random sequences are the published low-discrepancy sequences",
  "Each quasi-random engine of any supported dimension delivers successive vectors, coordinate by coordinate, of its published sequence, with every coordinate between the advertised bounds (the maximum excluded for real-valued engines). Every aligned block of points of a power of the base length is perfectly stratified in each coordinate (for Niederreiter, block lengths 2^(e q) with e the degree of the coordinate's polynomial), and the two leading Sobol coordinates and all elementary intervals of the Faure sequence are balanced as the theory of digital nets prescribes.",
  ["inputs", "programs"], "all engines, all supported dimensions, all positions (exhaustive over blocks), several word widths",
  "the tests compare a few fixed vectors of a few dimensions; most of the several thousand dimensions and almost all positions are never looked at.",
  ["sobol.hpp", "niederreiter_base2.hpp", "faure.hpp", "detail/gray_coded_qrng.hpp", "detail/qrng_base.hpp", "detail/sobol_table.hpp", "detail/niederreiter_base2_table.hpp"],
  [("direction numbers", "sobol.hpp sobol_lattice, niederreiter_base2.hpp nb2_lattice"), ("gray-code update", "detail/gray_coded_qrng.hpp"), ("digit-reversed Pascal matrices", "faure.hpp")],
  observe=["operator()", "dimension()", "min()", "max()"])

p("P23", "Quasi-random engines can be positioned, saved and copied exactly",
  "For every quasi-random engine, seeding with i is equivalent to skipping i whole vectors from the start, discarding j is equivalent to j draws from any position (in the middle of a vector as well), and restoring a saved engine into any engine object, of any earlier dimension and position, reproduces the state exactly. Engines at the same position of the same sequence compare equal, engines at different positions unequal, and copies are independent.",
  ["histories", "inputs"], "all engines and dimensions, all operation histories mixing draws, discards, seeds, saves, restores and copies",
  "the tests try a few fixed positions; incremental gray-code updating, vector offsets and lazily computed digits interact only over mixed histories.",
  ["detail/qrng_base.hpp", "detail/gray_coded_qrng.hpp", "faure.hpp", "sobol.hpp", "niederreiter_base2.hpp"],
  [("vector and element counters", "detail/qrng_base.hpp discard_impl"), ("gray-code jump", "detail/gray_coded_qrng.hpp seed")],
  state=[("element index and sequence count", "position inside the current vector and number of the vector", "qrng_base")],
  observe=["operator()", "seed()", "discard()", "operator<<", "operator>>", "operator=="])

p("P24", "Quasi-random engines report exhaustion and bad dimensions",
  "A quasi-random engine delivers exactly the advertised number of vectors and then raises the documented range error instead of repeating or corrupting values, whether the end is reached by drawing, discarding or seeding. Constructing an engine with an unsupported dimension raises the documented invalid-argument error, every supported dimension is accepted, and an engine remains usable after reseeding following such an error.",
  ["inputs", "histories"], "all engines with small word widths exhaustively, all ways to reach or exceed the end, all dimensions around the supported limits",
  "the tests try one or two over-the-end operations for a fixed word width.",
  ["detail/qrng_base.hpp", "detail/gray_coded_qrng.hpp", "faure.hpp", "sobol.hpp", "niederreiter_base2.hpp", "detail/niederreiter_base2_table.hpp"],
  [("overflow checks", "detail/gray_coded_qrng.hpp, detail/qrng_base.hpp"), ("dimension check", "sobol.hpp, niederreiter_base2.hpp, faure.hpp, detail/qrng_base.hpp")],
  observe=["exceptions thrown"])

p("P25", "The random device delivers exactly the bytes of its source or fails loudly",
  "Every value from the random device consists of bytes read from the named source, each byte used once and in order, however the operating system splits the reads. If the source cannot be opened, ends early or fails, an exception is thrown and no value is fabricated; construction and destruction neither leak nor double-close descriptors, and requests for a range of words fill exactly that range.",
  ["fault_sequences", "inputs"], "all sequences of full, short, interrupted, empty and failing reads and failing opens, any source contents",
  "the tests read the real device once; no fault is ever injected.",
  ["random_device.hpp", "src/random_device.cpp"], [("read loop", "src/random_device.cpp impl::next"), ("open/close", "src/random_device.cpp impl constructor and destructor")],
  observe=["open/read/close system calls", "operator()", "exceptions"])

p("P26", "Generator wrappers equal the distribution applied to the engine",
  "Binding an engine (by value, reference or pointer) to a distribution yields exactly the values of the distribution applied to that engine, advances exactly that engine, and exposes both parts unchanged; the integer adapter for standard shuffling returns uniformly distributed values below its argument. The legacy interfaces (old uniform, unit-interval, geometric, log-normal and named engine variants) deliver the values of their modern counterparts under the documented parameter mapping.",
  ["programs", "histories"], "all engine/distribution pairs, value/reference/pointer binding, copies and assignments of wrappers, all arguments",
  "the tests compile the combinations and check a couple of values.",
  ["variate_generator.hpp", "random_number_generator.hpp", "detail/ptr_helper.hpp", "uniform_01.hpp", "uniform_int.hpp", "uniform_real.hpp", "lognormal_distribution.hpp", "geometric_distribution.hpp"],
  [("engine storage by value/reference/pointer", "variate_generator.hpp, detail/ptr_helper.hpp")], observe=["operator()", "engine()", "distribution()"])

p("P27", "Independent objects can be used concurrently without interference",
  "Threads that use distinct engines, distributions, quasi-random engines, seed sequences and random devices never interfere: there are no data races, and each thread obtains exactly the values it would obtain alone. The library keeps no hidden mutable state shared between objects.",
  ["schedules"], "all interleavings of threads that construct, seed, draw, save and destroy their own objects, including first use",
  "the tests are single-threaded.",
  ENG + DIST + ["sobol.hpp", "faure.hpp", "niederreiter_base2.hpp", "src/random_device.cpp"], [("absence of shared mutable statics", "whole library")],
  observe=["memory accesses (ThreadSanitizer)", "values per thread"])

p("P28", "Valid use never causes undefined behaviour or memory errors",
  "No operation of the library with valid arguments reads or writes outside its objects, uses uninitialised or freed memory, leaks memory, overflows a signed integer, shifts by an invalid amount, divides by zero or trips an internal assertion. This includes operations that end in an exception.",
  ["inputs", "histories", "programs"], "all engines, distributions, quasi-random engines and utilities, all valid parameters and histories",
  "the tests run without sanitizers, and mostly with common parameters.",
  ENG + DIST + ["detail/seed_impl.hpp", "detail/int_float_pair.hpp", "detail/const_mod.hpp", "seed_seq.hpp", "sobol.hpp", "faure.hpp", "niederreiter_base2.hpp"],
  [("bounds and overflow-free arithmetic", "whole library")], observe=["AddressSanitizer", "UndefinedBehaviorSanitizer", "valgrind memcheck"])

p("P29", "Wide and multiprecision number types obey the same guarantees",
  "Integer distributions, bit-width adaptors, canonical and real distributions and seeding instantiated with 128-bit or multiprecision number types return values inside the requested bounds, fill all requested bits, and agree with the native types wherever both can represent the request. The result does not depend on the internal word size of the number type.",
  ["programs", "inputs"], "multiprecision and 128-bit integer and floating types, all bounds and bit counts, engines of any width",
  "the tests check compilation and one generic property with a few fixed bounds.",
  ["uniform_int_distribution.hpp", "independent_bits.hpp", "generate_canonical.hpp", "uniform_real_distribution.hpp", "detail/generator_bits.hpp", "detail/integer_log2.hpp", "traits.hpp"],
  [("generic integer traits", "traits.hpp, detail/integer_log2.hpp, detail/signed_unsigned_tools.hpp")], observe=["operator()"])

p("P30", "Values do not depend on compiler, optimisation or build settings",
  "For the same seed, parameters and sequence of operations every engine, adaptor, distribution, quasi-random engine, seed sequence and utility delivers the same values (real values up to rounding) and writes the same state text, whatever conforming compiler, optimisation level, supported language version, assertion setting (NDEBUG) or library setting (such as the discard threshold) the program is built with. In particular no result depends on the unspecified order in which the engine calls of one expression are evaluated.",
  ["programs", "configurations", "inputs"], "all classes, all compilers and build settings",
  "the tests run in one build, and compare most distributions with their law only, so that a draw order that depends on the compiler goes unseen.",
  ENG + DIST + ["beta_distribution.hpp", "student_t_distribution.hpp", "fisher_f_distribution.hpp", "non_central_chi_squared_distribution.hpp", "uniform_on_sphere.hpp", "sobol.hpp", "faure.hpp", "seed_seq.hpp"],
  [("order of engine calls within one result", "operator() of each distribution"), ("BOOST_ASSERT without side effects", "whole library"), ("conditional compilation", "mersenne_twister.hpp, const_mod.hpp, seed_impl.hpp")],
  observe=["operator()", "operator<<"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
