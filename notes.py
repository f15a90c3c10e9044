"""Per-property wording: NOTE = MANIFEST level_note, TEXT = section of DESIGN.md (tools/mkdesign.py)."""
NOTE, TEXT = {}, {}
def n(pid, note, text):
    NOTE[pid], TEXT[pid] = note, text

n("C01", "both round trips of all 13 curve instances, exhaustively over bounded sets of single-precision values (thorough: every float of the nominal range)",
  "The state is one scene value or signal; the two transitions are the encoder and the decoder. Oracle: the starting value, with a tolerance derived from the curve's local slope (the error one rounding of the intermediate signal causes). Domains: windows of consecutive floats at every breakpoint, clamp and range end plus a lattice over every binade; the thorough tier enumerates every float of the range. Also colour triples (`toScreen`/`toScene`) and 264 gamma exponents. A test sees isolated points; a wrong branch taken in a few ulps around a threshold is only found by visiting those values.")
n("C02", "every encoder and decoder compared with the standard's formula in double precision on every value of bounded float sets incl. everything outside the nominal range",
  "Oracle: the formulas of the standards, typed from the standards in `lib/ref.hpp` in double precision; tolerance a few single-precision roundings through the formula's condition. At a breakpoint the value of either segment is accepted within one ulp of the threshold, so `<` against `<=` does not matter. Negative, denormal, huge and out-of-range inputs decide the clamps.")
n("C03", "order of neighbouring values over complete bounded domains (transitivity gives all pairs), all pairs on a uniform grid, colour forms with every background",
  "A non-decreasing function is decided by comparing each value of the ordered domain with the running maximum of its predecessors; the enumeration keeps that maximum per block and across blocks, so all pairs of the enumerated domain are covered. Slack: rounding of the formula and the published 1e-4 step of BT.709.")
n("C04", "all types x directions x gamma arguments x all channel triples over an alphabet, each channel compared with the one-channel curve; argument histories",
  "Oracle: the channel's own scalar curve applied to that channel only. The alphabet contains each curve's breakpoints, zero, negatives and super-whites, so cross-channel logic (hue preservation, channel mix-ups, early exits) is visited with every combination of the other two channels. `after-other-arguments` replays call sequences whose arguments differ slightly, so memoisation on part of the arguments shows up.")
n("C05", "XYZ/Yxy/Yuv conversions compared with the CIE definitions on all triples of lattices, axis sweeps over every binade, both guards and all overloads",
  "Oracle: CIE definitions in double precision, the documented guards (|X+Y+Z| < 1e-8, |y| < 1e-8), and the round trip. Static, member and component overloads are compared with each other in every case.")
n("C06", "CIELAB both directions against CIE 1976 for 14 whites and their scalings on all lattice triples, saturation included",
  "Oracle: CIE 1976 with exact rational constants in double precision. Fractions of the white are enumerated on both sides of the joint; whites at 21 intensities and with only Y scaled decide that nothing depends on the scale of the white.")
n("C07", "HSV both directions against the hexagonal definition on all lattice triples, hues of every magnitude",
  "Oracle: hexagonal HSV in double precision; hue arithmetic modulo 360 exact through `fmod`. The hue domain has windows at every multiple of 60 degrees and a logarithmic lattice of both signs up to 2^127 (termination and stack use are part of the property: a crash or hang is attributed to the hue that caused it).")
n("C08", "OKLab both directions against Ottosson's published matrices on signed lattices and 190 binades",
  "Oracle: published M1, M2 and their double-precision inverses. Negative cone responses, tiny and huge colours are part of the lattices.")
n("C09", "ICtCp both directions against the published transform on cone-response and XYZ lattices, saturation and zero responses included",
  "Oracle: HPE matrix, ST 2084 and the opponent matrix in double precision with an error budget from the PQ slope (dark PQ codes amplify single-precision rounding; that budget is why deviations below it are not reported).")
n("C10", "both locus approximations and the Duv construction against their published formulas and an integrated Planckian locus over a dense temperature grid",
  "Three oracles: the published polynomials/splines, the true Planckian locus integrated with the 2-degree observer (approximation error bound), and geometry in CIE 1960 uv for Duv (distance, perpendicular to the locus tangent, side). Continuity compares neighbours on the enumerated grid.")
n("C11", "all 387 million ordered pairs of ternary 3x3 matrices and all vector pairs, exact integer oracle",
  "On small integers and powers of two single precision is exact, so the oracle is integer arithmetic and every comparison is for equality. Algebraic laws follow from exactness of each operation and are checked as well.")
n("C12", "all 5^9 small integer matrices, magnitudes, bad scalings and perturbed rotations, against a double-precision adjugate; cross-talk family",
  "Oracle: inverse computed in double precision; the tolerance is eps times the condition number, cases where that exceeds 1 percent are skipped (counted in the evidence as skipped by precondition).")
n("C13", "all primary triples x whites from chromaticity grids, gamuts from all ternary matrices, both conversion directions",
  "Oracle: primaries-to-matrix construction in double precision, tolerance from the condition number of the primaries matrix.")
n("C14", "all built-in gamuts and illuminants against published constants; all pairs and triples of gamuts; 81 user gamuts with equal names",
  "The constants are typed from the standards; conversions are compared with the composition of the two double-precision matrices. User gamuts sharing one name and storage decide that nothing is looked up by name or address.")
n("C15", "all ordered pairs (and triples of a subset) of whites against the published Bradford method",
  "Oracle: Bradford in double precision. Intensity independence: all pairs of 14 intensities for all pairs of illuminants.")
n("C16", "all pairs and triples of lattice colours for the three Euclidean differences",
  "Oracle: Euclidean distance in double precision; metric laws checked on pairs and triples. `scales` decides absence of absolute thresholds.")
n("C17", "CIEDE2000 against an independent implementation on all pairs of lattices, all hue pairs in half-degree steps, Sharma's 34 pairs",
  "The reference implementation is itself bound to the literature by Sharma's published pairs. For hues within rounding of exactly opposite both values of the formula's jump are accepted.")
n("C18", "one-hot spectra at every index of tables of many sizes and ranges (linear maps are decided on a basis), AddressSanitizer on exact-size buffers",
  "Interpolation is linear in the data, so behaviour on one-hot tables decides it for all data; positions are enumerated. Tables are heap blocks of exactly the given size and the harness runs under AddressSanitizer, so any read outside the table ends the case.")
n("C19", "all 400 one-hot spectra, all pairs of them for additivity, patterns and intensities, three observers and a custom one",
  "Oracle: double-precision sums. Linearity is decided on the basis and on all pairs of basis elements.")
n("C20", "Planck's law in double precision on dense temperature x wavelength grids, monotonicity and Wien maximum along every line of the grid",
  "Oracle: Planck's law with CODATA constants; relative tolerance 1e-4 as stated by the property (single-precision exponent).")
n("C21", "every sample of every shipped table against a committed reference copy that is itself anchored to published values; all collections and chart colours",
  "`lib/tables.bin` is a copy of the published data, taken once and anchored by published 20 nm values, peak and white-point consequences; every entry is compared. Chart colours are recomputed in double precision from the reference copy.")
n("C22", "all small integer systems up to 4x4, scaled systems, structured systems up to 5000 rows and 24 unknowns, explicit cut-off fractions, under AddressSanitizer, against a double-precision SVD",
  "Oracle: `lib/dsvd.hpp`, a one-sided Jacobi SVD in double precision, i.e. a different algorithm. Where a singular value lies close to the 1e-5 cut-off both treatments are accepted.")
n("C23", "all patch triples, quads and orders from lattices, all ternary matrices, 3 to 1000 patches, all lights x observers for the chart forms",
  "Oracle: normal equations/pseudo-inverse in double precision, tolerance from the conditioning of the patch set.")
n("C24", "explicit-state breadth-first exploration of the byte-file model; every reachable model state x operation is replayed on the real class; plus all operation sequences of length 5 and streams of up to 3 million bytes",
  "The model (`lib/streammodel.hpp`) is a byte vector with cursor, mark and end-of-file rule. BFS enumerates all model states within the size bound; each state is reached on the real class by replaying its shortest path and then each operation is executed on both sides, comparing contents, size, cursor, results and end-of-file. That replay of every transition is the conformance check that binds model and code. Hidden implementation state (capacity, stale bytes) is covered by the unmerged sequences of length 5.")
n("C25", "all 8- and 16-bit values, byte-alphabet 32/64-bit values, every float exponent, strings, offsets and three-item histories in both byte orders, under AddressSanitizer",
  "Oracle: the byte pattern computed by shifting, in the selected order; reading and writing are checked separately, so that two compensating errors show.")
n("C26", "explicit-state exploration of call histories on a shared object built from the real header; state = its writable static and thread-local memory; BFS closure",
  "All public operations (about 87, with 2400 operation x argument-set pairs) are compiled into one shared object from /repo. The harness snapshots and restores its writable segments and thread-local storage, so each history starts from the freshly loaded library. All single calls, all pairs, all triples on base arguments and all triples of argument sets of one operation are run and each result is compared bit for bit with the same call made first. Long histories (each operation 70000 times, each operation with 3000 different argument sets forwards, again and backwards, 200 rounds over all operations) cover counters, ring buffers and caches that only misbehave when full. The reachable internal states are closed breadth-first: on the present tree there is one state, so every history of any length is covered. Output, rounding mode, locale, inputs and built-in constants are compared after each call; heap and stack are prefilled with five patterns to expose uninitialised reads.")
n("C27", "stateless model checking of all two-thread schedules within a preemption bound under a controlled scheduler on instrumented real code, with race detection",
  "The same operations compiled with -fsanitize=thread instrumentation whose callbacks are the harness's own: each access to memory both threads can reach is a scheduling point. The scheduler runs all schedules with at most two preemptions (one for long executions) for pairs that have dependent accesses; pairs without a location written by one and accessed by the other have a single equivalence class of interleavings (partial-order reduction). Locks, once-flags and function-static guards are modelled, a vector-clock detector reports unordered conflicting accesses, and results are compared with the serial ones. `calls` additionally preempts at function entries, so that state hidden behind library calls is covered.")
n("C28", "all walks of up to 6 conversions over 41 representations from 194 colours and up to 4 from 3841 more",
  "The conversion graph has 41 nodes and 172 edges, executed on the real code; the state is (representation, values). After each step the values are mapped to XYZ by the double-precision model and compared with the start, with an error budget that grows with the steps taken and the conditioning of each representation.")
n("C29", "all token sequences, byte strings, string bodies and number spellings up to stated lengths against an independent recogniser, all entry points, AddressSanitizer",
  "Oracle: `lib/jsonmodel.hpp`, an independent recursive JSON recogniser/evaluator with the documented leniencies. Inputs live in exact-size heap blocks under AddressSanitizer. Sizes up to 2^17 (thorough 2^20) and nesting to 10^6 decide resource limits.")
n("C30", "all value trees of bounded depth, all structured doubles, byte strings, pairs for equality and all 4-step histories of 31 value operations against a pure model",
  "Oracle: an immutable model value in the harness; after each step of a history both real values are compared structurally with the model. AddressSanitizer decides lifetime errors.")
n("C31", "all 2^32 bit patterns (thorough); every exponent x 20 mantissa bits plus complete octaves and edges (quick)",
  "Oracle: double-precision square root. Termination is decided by the watchdog: a case that hangs is re-run alone before it is reported.")
n("C32", "dense wavelength grid, float windows around every tabulated wavelength, powers of both signs over 120 binades, four observers",
  "Oracle: interpolation of the observer's own functions in double precision; proportionality compared exactly under powers of two.")
n("C33", "all colour and bound combinations over an alphabet with ties, denormals and infinities; fine float lattice per component",
  "Exact oracle.")
n("C34", "all texts of up to 6 tokens of a number alphabet and structured doubles x four environments (three real C locales, one global C++ locale) x stream formatting states; every result compared with the C locale's",
  "The environment is a configuration variable of the explored system: three C locales (C; decimal comma with grouping; a two-byte decimal point, both shipped as 54-byte LC_NUMERIC files in `lib/locale`), set per thread and per process, a global C++ locale with decimal comma and grouping, and C++ streams with a facet of renamed booleans, grouping and decimal comma in every combination of formatting flags. Each text is read and written under each configuration and must give byte-identical results to the C locale's, whose correctness C29 and C30 decide; numbers are written under each and read under each.")
n("C35", "all integers around every power of two and ten, all number texts of up to 7 characters, all ordered pairs of 500 numbers, all histories of 4 of 20 operations, in the 64-bit-integer configuration of the parser, under AddressSanitizer",
  "The header is compiled with `PICOJSON_USE_INT64`. Oracle: 128-bit integers and their decimal text. Pairs are compared in both directions, alone and nested, and both sides are re-read afterwards, because comparing must not turn an integer into a floating-point number. The histories replay the model on the real values after every step. Integers that no double can represent, compared with the double they round to, may come out either way.")
n("C36", "every operation x argument set, in three translation units, at 15 phases of the program's life, for every link order, two optimisation levels and two compilers",
  "Three copies of the operation library, each a translation unit of its own, are linked with a probe in all orders; the probe and static objects ahead of and after the header in each unit run all operations of all units before any dynamic initialiser, during each unit's initialisation, in main, during each destruction and after it, and write digests of the results. The explorer compares each with the result in main. A constant that needs run-time initialisation, a table that is destroyed, or a unit-dependent copy is seen at some phase.")
n("C37", "13 build configurations (thorough 18) x all operations, argument sets and special values; 17 JSON configurations with and without 64-bit integers x all token sequences of up to 5 tokens, byte pairs, escapes, numbers and structured doubles",
  "The operation library and a JSON driver are compiled from /repo once per configuration (g++ and clang++, -O0 to -O3, NDEBUG, C++98 to C++23, unsigned char, checked containers, undefined-behaviour traps) and loaded side by side; each case runs under all of them. Colour results agree to 1e-5 (the compilers may fold mathematical functions), JSON results byte for byte. A configuration that does not compile is left out and named. This reaches assertions with side effects, code selected by the language standard or compiler, uninitialised and out-of-range accesses, aliasing and overflow.")
n("C38", "all document trees of up to 7 nodes (thorough 8), a refusal, exception, skip or build injected at every single event, all entry forms, documents cut at every byte",
  "Oracle: the event list generated from the model tree that the text was rendered from. The context under control of the harness logs what it is told and reacts at exactly one event: refusing and throwing must end the parse with exactly the events so far, skipping (null context) and building (default context) one item must leave all other events as they are and consume exactly that item.")
n("C39", "2575 scenarios (copying, assigning, moving, comparing and extending values; five ways of writing, four of parsing 18 texts into four targets; 15 ways of writing to memory streams of 13 lengths; charts, corrections, solver; 41 operations called for the first time in a new process): every allocation made to fail, and every pair of failures over two attempts for up to 60 allocations (thorough 400)",
  "operator new is replaced by a counting one that throws at a chosen allocation; built with AddressSanitizer. Oracles: the number of live blocks returns to what it was, old-or-new contents after a failure, the faultless result after a retry. The parser's kept last error message (one static string) is not a leak.")
n("C40", "all sequences of up to 4 (thorough 5) of 18 values and separators and of up to 5 (6) of 16 tokens through nine entry points, all strings of up to 6 (7) number characters, rows of up to 60 values",
  "Oracle: the recogniser reads value after value; after every step the position (iterator returned, position argument, stream position) must be the first character after the value, the value must be the same and the verdict agree. A stream and an iterator that hand out one character at a time count what was asked for: nothing after the value, for a number the one character that ends it.")
n("C41", "24 groups of constexpr operations, all combinations of up to 16 values per argument (at most 6,000 per group; thorough 60,000), as constants under C++14 and C++17 against run time",
  "The constants are computed by the compiler's own evaluator inside constexpr tables, the same functions then run on the same arguments. Tolerance 1e-5 of the result (the compiler rounds pow correctly, the C library almost). An operation that is no constant expression in a standard (Spectrum::fetch before C++17, where std::array::data is not constexpr) is left out and named.")
