"""The properties, in one place: check.py takes the coverage rules from here,
and running this file rewrites properties.jsonl and MANIFEST.json."""
import json, os

R, S = "ristretto.go", "scalar.go"
E = "edwards25519/"
CURVE, FIELD, ELL, TAB, VT = E + "curve.go", E + "field.go", E + "elligator.go", E + "table.go", E + "vartime.go"
R51, GENERIC, M64, AMD = E + "field_radix51.go", E + "field_generic.go", E + "field_mul64.go", E + "field_amd64.go"
TR51, TGEN = E + "table_radix51.go", E + "table_generic.go"
CREF = "cref/cref.c"

MODEL = ("an independent reference model (4x64-bit always reduced field, one complete addition law, RFC 9496 maps, math/big scalars) "
         "that is validated against math/big, crypto/ed25519 and the RFC's vectors at every start")

PROPS = [
 dict(id="C01", title="Scalar arithmetic is exact arithmetic modulo the group order",
  statement="For all scalars, addition, subtraction, negation, multiplication, squaring, inversion, multiply-add and multiply-subtract give exactly the result modulo the prime group order l, as the unique reduced number below l. This holds for every way in which the result may share memory with operands, and 1/0 is 0.",
  over=["inputs"], text="all triples of scalars below l and all aliasing patterns of receiver and operands",
  why="The tests draw uniform scalars, which reach the carries, borrows and final conditional subtractions near l, 2^252 and limb boundaries with probability around 2^-128, and never alias all operands.",
  files=[S], mech=[("multiply-accumulate and 21-bit limb reduction", S+": MulAdd, MulSub, Mul, SetReduced helpers"), ("addition and subtraction with conditional l", S+": Add, Sub, Neg"), ("inversion addition chain", S+": Inverse")],
  rule="Operands are drawn from limb/carry/boundary classes around 0, l, k*l, 2^k and from targeted results (operands solved so that the result lands next to 0 or l); each execution is one operation under one aliasing pattern, judged against math/big. Distinct: different (operation, pattern, operands); trivial ones (all operands 0 or 1 with no aliasing) are not singled out but are at most one per class."),
 dict(id="C02", title="Conversions into and out of scalars are exact and always reduced",
  statement="Every way to make a scalar (from 32 bytes, strictly or reducing, from 64 bytes, from a big integer, from an unsigned 64-bit integer, from hashing, zero and one) yields the documented number modulo l in reduced form, and converting a scalar back to bytes or a big integer yields that same number. Inputs, including negative and oversized big integers, are never modified.",
  over=["inputs"], text="all 32- and 64-byte strings, all integers, all messages",
  why="Tests sample a few uniform strings; strings near multiples of l, with saturated limbs or with the ignored top bits set have negligible probability there.",
  files=[S], mech=[("64-byte reduction", S+": SetReduced"), ("32-byte reduction with top bits ignored", S+": SetBytes"), ("hash to scalar", S+": Derive")],
  rule="Byte strings and integers from boundary classes (every value of every byte position; k*l plus or minus a little up to 512 bits; sparse, runs, limb patterns; negative and huge integers; messages of every length around hash block sizes), judged against math/big and SHA-512. Distinct: different (conversion, input)."),
 dict(id="C03", title="Every group element has exactly one encoding, for any internal form",
  statement="The 32-byte encoding of a point is the canonical ristretto255 encoding of the group element it stands for, whichever of the equivalent internal representatives it holds and whichever operations produced it; decoding that encoding gives back an equal element. Encoding never changes the point.",
  over=["inputs", "histories"], text="all group elements, all coset representatives and projective scalings, all histories of operations that produce them",
  why="Tests encode a handful of random elements in the representative one code path happens to produce; the branches for rotated cosets, negative coordinates and the identity's four representatives are not all reached.",
  files=[R, CURVE], mech=[("Ristretto encoding with coset rotation and sign normalisation", CURVE+": RistrettoInto"), ("inverse square root", FIELD+": InvSqrt")],
  rule="Elements (identity, small multiples, special decodings, images of exceptional map inputs, random) times coset representative times projective scaling times limb style, and points produced by histories of operations; the encoding is compared byte by byte with the model's. Distinct: different coordinates."),
 dict(id="C04", title="Decoding accepts exactly the canonical encodings",
  statement="Decoding a 32-byte string succeeds if and only if it is the canonical encoding of a group element, and then yields that element. Non-canonical field elements, negative ones, strings with the top bit set, and strings that belong to no point are all rejected, and a rejected string never yields a different valid element.",
  over=["inputs"], text="all 2^256 byte strings",
  why="Tests decode valid strings and a few dozen bad ones; every class of rejection (non-canonical, negative, non-square, negative product, zero y) has to be decided for all strings.",
  files=[R, CURVE, FIELD], mech=[("checks of the decoder", CURVE+": SetRistretto"), ("byte equality after reduction", R+": SetBytes")],
  rule="Strings: random, boundary, all small values and all non-canonical values p..2^255+64 with and without the top bit, valid encodings with any bit flipped, negated, offset by p; strings constructed to fail exactly one rejection rule. Verdict and decoded element are compared with RFC 9496's decoder. Distinct: different strings."),
 dict(id="C05", title="Points form the ristretto255 group under add, double, sub and neg",
  statement="Adding, doubling, subtracting and negating points, and the constants zero and base, compute the group law of ristretto255 exactly for every pair of elements, including equal, opposite and identity operands, in every internal representative and for every aliasing of result and operands. Long chains of operations never drift away from the group.",
  over=["inputs", "histories"], text="all pairs of elements and representatives, all aliasing patterns, operation chains of any length",
  why="Tests add random points; exceptional pairs, aliased receivers, unusual representatives and unreduced intermediate limbs after long chains are not sampled.",
  files=[R, CURVE, TAB], mech=[("complete addition formulas", CURVE+": CompletedPoint.AddExtended, SubExtended, DoubleProjective"), ("conversions between coordinate systems", CURVE+": SetCompleted, SetExtended")],
  rule="Pairs of related and unrelated elements in random representatives, times operation, times aliasing pattern; group axioms on points the code made; walks of hundreds of operations without normalisation. Results are judged by coordinates (on the curve, same coset as the model's) and encoding. Distinct: different (operation, pattern, operands)."),
 dict(id="C06", title="All scalar multiplications compute the same, correct multiple",
  statement="For every scalar and every point, constant-time, public (variable-time), precomputed-table and base-point scalar multiplication all yield exactly the scalar times the point. Results do not depend on whether result and operand share memory, on the point's representative, or on what was computed before.",
  over=["inputs"], text="all scalars below l, all points and representatives, all variants",
  why="Digits, windows and table entries that uniform scalars select rarely (carries through all digits, extreme digits, single table entries) are not settled by a handful of random scalars, and variants are not compared on the same hostile scalars.",
  files=[R, CURVE, TAB, VT, TR51, TGEN], mech=[("signed radix-16 recoding and constant-time lookup", CURVE+": ScalarMult, computeScalarWindow; "+TAB), ("wNAF recoding and odd multiples", VT), ("precomputed base tables", TR51+", "+TGEN)],
  rule="Scalars whose recoded digits are extreme, alternate, carry all the way, or isolate one entry of one table (all 64x16 and 52x32 single digits), near 0, l and powers of two; times special and random points in random representatives; times all six variants with and without aliasing; compared with plain double-and-add. Distinct: different (scalar, point)."),
 dict(id="C07", title="Equality decides exactly equality of group elements and of scalars",
  statement="Comparing two points answers equal exactly if they are the same group element, for all pairs of representatives, and comparing two scalars (also with zero and one) exactly if they are the same number modulo l. The integer and boolean forms agree, and equality coincides with equality of encodings.",
  over=["inputs"], text="all pairs of points in all pairs of representatives, all pairs of scalars",
  why="A test cannot try values that differ in one bit or one coordinate only, or every pair of coset representatives; false positives on related points are invisible to random sampling.",
  files=[R, S, CURVE], mech=[("cross-multiplied coset comparison", CURVE+": RistrettoEqualsI"), ("scalar comparison", S+": EqualsI, IsNonZeroI")],
  rule="Pairs: same element in all 4x4 representatives, pairs agreeing in one coordinate ratio only, opposite, doubled, off by the base point, random; scalars off by each single bit. Compared with the definition (difference is 4-torsion) and with encodings. Distinct: different pairs."),
 dict(id="C08", title="Conditional assignment is all or nothing",
  statement="Conditional assignment of points, scalars, field elements and precomputed points makes the receiver equal to the operand if the condition is 1, and leaves it as it was if the condition is 0, for all contents. Every coordinate, limb and bit takes part, and the operand is never modified.",
  over=["inputs"], text="all contents of receiver and operand, both conditions",
  why="Tests compare few random values by equality of the element, which misses a word or coordinate that is not moved but agrees or does not matter for them.",
  files=[R, S, CURVE, GENERIC, R51, TAB], mech=[("masked moves", R+", "+S+", "+E+"*: ConditionalSet")],
  rule="Receiver and operand contents from arbitrary memory, valid values, and values one bit apart, for both conditions; judged word by word (b=0: bitwise unchanged) and by value. Distinct: different contents."),
 dict(id="C09", title="The maps from bytes to points are the specified ones for all inputs",
  statement="Mapping 32 bytes to a point follows the ristretto255 Elligator map for every string, including its exceptional inputs and non-canonical strings, and always yields an element of the group. Deriving points from arbitrary data, in both the library's own and the Dalek-compatible way, equals hashing and mapping as documented.",
  over=["inputs"], text="all 32-byte strings, all messages",
  why="Exceptional inputs (zeroes of numerators and denominators, square and non-square branches, non-canonical strings) are measure zero for random tests.",
  files=[R, ELL], mech=[("Elligator 2 for the Jacobi quartic", ELL+": SetRistrettoElligator2"), ("hash to group", R+": Derive, DeriveDalek")],
  rule="All exceptional inputs found by solving for zeroes of the map's numerators and denominators, both signs, canonical and non-canonical forms; hostile field elements; messages of many lengths. Compared with MAP of RFC 9496 and SHA-512. Distinct: different inputs."),
 dict(id="C10", title="Inverse maps find all preimages and Lizard round-trips",
  statement="For every group element in every representative, the inverse of the Elligator map returns exactly the set of its preimages, each of which maps back to it. Encoding 16 bytes as a point with Lizard and decoding gives the same 16 bytes back, and decoding fails on points that encode no data.",
  over=["inputs"], text="all group elements and representatives, all 16-byte strings",
  why="The number of preimages varies from 0 to 8 over representatives and exceptional points; tests round-trip a few random values, where wrong or missing preimages in other quadrants do not show.",
  files=[R, ELL], mech=[("inverse over the four dual Jacobi quartic points", ELL+": RistrettoElligator2Inverse, elligator2Inverse"), ("tagged decoding", R+": LizardInto, SetLizard")],
  rule="Images of hostile and exceptional inputs and arbitrary points, in random representatives; the returned mask and elements must equal the model's complete set of preimages (found by solving, verified by mapping back). Lizard data: boundary patterns, all single bits, random; near-miss points whose preimage has a damaged hash; points without data. Distinct: different points or data."),
 dict(id="C11", title="Field arithmetic is exact modulo 2^255-19 in every build",
  statement="All field operations (ring operations, inversion, powers, square roots and inverse square roots, comparisons, parity, absolute value, conversions to and from bytes and integers) are exact modulo 2^255-19 for all values and all internal representations that other operations can produce, in every arithmetic backend. Packing to bytes always yields the unique reduced form and changes nothing.",
  over=["inputs", "configurations"], text="all field elements in all reachable limb representations, all backends",
  why="Carry propagation and final reduction are wrong only for limb patterns of probability 2^-50 or less under random tests, and the tests run one backend only.",
  files=[FIELD, R51, GENERIC, M64, AMD, E+"field_amd64.s"], mech=[("limb multiplication and carries", M64+", "+GENERIC+", "+AMD+"/.s"), ("reduction when packing", R51+", "+GENERIC+": BytesInto"), ("exponentiation chains", FIELD)],
  rule="Values near 0, p, 2^255 and limb boundaries for radix 2^51, 2^25.5, 2^64, built in several limb styles (packed, sums, differences, products) without exceeding what the library itself feeds an operation; operand pairs solved so that results land on the boundary; random operation chains; every aliasing pattern; all byte positions. Compared with the model. Distinct: different (operation, operands). Builds: radix 51, generic radix 25.5, assembly, 386."),
 dict(id="C12", title="All builds of the library compute identical results",
  statement="Given the same operands, every exported operation yields bit-for-bit the same result bytes in every build of the library: the 64-bit backend, the portable backend, the assembly backend and 32-bit targets.",
  over=["configurations", "inputs"], text="all operations and operands, all build configurations",
  why="The tests run in one build at a time against themselves; nothing compares builds on the same hostile inputs.",
  files=[R51, GENERIC, M64, AMD, TR51, TGEN, E+"field_amd64.s"], mech=[("build-tagged backends and tables with one API", E+"field_*.go, "+E+"table_*.go")],
  rule="The same seeded workload of all exported calls on hostile operands is executed in each build; results of every call are digested per case and the recorded logs are compared offline. Distinct: different (call, result) in the first build."),
 dict(id="C13", title="Marshalling round-trips, and bad input is an error, never a wrong value",
  statement="Points and scalars survive binary, text and string marshalling (also inside JSON, gob and similar) unchanged. Input of the wrong length, with characters outside the alphabet (other than line breaks, which base64 ignores) or that encodes no element is answered with an error and never with a panic, an accepted different value, or out-of-bounds access.",
  over=["inputs"], text="all byte strings as marshalled input, all values as output",
  why="Tests round-trip random values; malformed, truncated, overlong and non-canonical text is not explored.",
  files=[R, S], mech=[("length and alphabet checks", R+": textToBuf, UnmarshalText, UnmarshalBinary"), ("scalar forms", S+": UnmarshalText, UnmarshalBinary, MarshalText")],
  rule="Valid texts and binaries mutated in every way (length, padding, alphabet, newlines, case, inserted and dropped bytes, non-canonical trailing bits, overlong), random bytes, and round-trips through encoding packages; judged against the model's decoder and an own specification of the accepted texts (unpadded base64url, line breaks ignored; for points also 64 hex digits; only for unused trailing bits either answer is allowed). Distinct: different inputs."),
 dict(id="C14", title="Operations only read their operands and depend on nothing else",
  statement="No operation modifies an operand, input buffer or shared table that it is only given to read, and results depend only on the values of the operands: not on what the receiver held before, on earlier calls, on addresses or on call order. Operations documented to return their receiver do so.",
  over=["histories", "inputs"], text="all exported calls, all operands, all earlier histories",
  why="Tests check results, not that operands stay bitwise intact, and always start from fresh receivers.",
  files=[R, S, CURVE, FIELD, TAB, VT, ELL], mech=[("value receivers overwritten from temporaries only", R+", "+S+", "+E)],
  rule="Every exported call (see counters) on hostile operands with garbage in the receiver; all operands are compared bitwise with a snapshot after each call; then all calls are repeated in another order, with other garbage, on a copy at another address, alternating with calls on closely related operands, and must give identical results; every aliasing pattern of every operation must give what separate memory gives; and each call must give as the first call of a fresh process what it gives later. Distinct: different (call, result)."),
 dict(id="C15", title="Concurrent use on shared operands is race-free and correct",
  statement="Goroutines may concurrently perform any operations on distinct receivers while sharing operands, precomputed tables and the package's constants, including the very first use of the library and random generation. There is never a data race, and each result is the one the operation gives alone.",
  over=["schedules"], text="all interleavings of operations on shared operands",
  why="The tests are sequential; a lazily filled table, cached scratch space or in-place normalisation of an operand passes all of them.",
  files=[R, S, CURVE, TAB, VT, TR51, TGEN], mech=[("no package state that is written after initialisation", TAB+", "+VT), ("temporaries on the stack", CURVE)],
  rule="8 to 24 goroutines per case start together and perform tens of calls each, in the same and in different orders, on one shared set of operands, with injected delays and random generation in between, in several processes so that first use is concurrent too; built with the race detector, results compared with sequential ones afterwards (random values must be valid and never repeat). Distinct: different per-goroutine call sequences."),
 dict(id="C16", title="Secret-dependent operations run in constant time",
  statement="Operations other than those documented as public or variable-time, big-integer conversions and textual (base64) forms never let a branch or a memory address depend on the contents of secret scalars, points, field elements, randomness or bytes. Only the outcome may be revealed, by operations that return it as a boolean, an error or nil: whether decoding succeeded or two values are equal.",
  over=["inputs", "configurations"], text="all secret operands, all backends",
  why="No functional test observes timing, branches or addresses.",
  files=[R, S, CURVE, FIELD, TAB, GENERIC, R51, M64, ELL], mech=[("masked selection and table lookup", TAB+", "+CURVE+": ScalarMult"), ("comparisons without branches", E+"*: EqualsI, ConditionalSet"), ("branch-free arithmetic", GENERIC+", "+R51)],
  rule="All bits of the secret operands are marked undefined for valgrind's memcheck, which then reports every conditional jump and every address computed from them, bit-precisely, in the real machine code; each run is one operation on one set of hostile operands. Non-trivial: the secret bits demonstrably reached the result (tainted result bits > 0). Two control operations with deliberate leaks must be reported. Also, in builds with a counter in every block, each operation is run on many secrets and all counters must agree between secrets with the same outcome."),
 dict(id="C17", title="Random values come from the system's randomness, or not at all",
  statement="Random points and scalars are a function of fresh bytes of the system's cryptographic randomness only, consume at least 32 of them per point and 64 per scalar, nearly all bits of which matter, and are valid and reduced. If the source delivers data in pieces nothing is lost, and if it fails no value is returned.",
  over=["fault_sequences", "inputs"], text="all outputs of the source, all ways it can deliver or fail, at every byte",
  why="Tests only see the healthy system source and cannot notice ignored errors, short reads or weak use of the bytes.",
  files=[R, S], mech=[("checked reads from crypto/rand", R+": Rand; "+S+": Rand")],
  rule="The source is replaced: deterministic tapes (value must be a function of the bytes used, all bits must matter, bits balanced), pieces of every size, and in subprocesses failure after each number of bytes with errors, EOF and short reads. Non-trivial and distinct: different values produced, or different fault points."),
 dict(id="C18", title="The curve-level API computes the Edwards25519 group exactly",
  statement="The exported curve-level operations (additions, doublings and mixed additions in all coordinate systems and their conversions, precomputed points and tables, scalar multiplications with scalars below 2^253, torsion, Jacobi quartic points) compute exactly the corresponding points of the Edwards curve, not merely equivalent ones. This holds for all curve points, including those of small order, and for all aliasing that the signatures allow.",
  over=["inputs"], text="all points of the curve (all eight cosets), all scalars below 2^253, all coordinate systems",
  why="Tests exercise them indirectly on random even points; small-order and odd points, unusual Z and extreme digits are not sampled.",
  files=[CURVE, TAB, VT, ELL], mech=[("formulas per coordinate system", CURVE), ("Niels points and tables", TAB), ("variable-time multiplication", VT), ("Jacobi quartic points", ELL)],
  rule="Points of all eight cosets in random projective scalings and limb styles, times operation and aliasing; results compared by exact Edwards coordinates with the model. Distinct: different (operation, operands)."),
 dict(id="C19", title="The C reference implementation agrees and is free of undefined behaviour",
  statement="The bundled C reference implementation and its Go bindings compute the same field, scalar and group operations, encodings and maps as ristretto255 specifies, for all valid operands and in-place use. They never read or write outside their operands, use uninitialised memory, overflow signed integers or modify operands they only read.",
  over=["inputs"], text="all operands of every function of the C header and of the bindings",
  why="Tests use a part of it as the oracle for a few random values; most of its functions are never called, and C memory errors do not fail Go tests.",
  files=[CREF, "cref/cref.h", "cref/cref.go", "cref/base_multiples.data"], mech=[("PandA field, scalar and group code", CREF), ("cgo bindings", "cref/cref.go")],
  rule="Every function of the header on hostile operands (several limb styles, aliasing) in processes built with ASan+UBSan (negative left shifts excluded) and with MSan, operands in exactly sized heap blocks and watched for writes; plus the Go bindings in process. Results compared with the model. Distinct: different calls."),
 dict(id="C20", title="Any program over the API behaves as over the mathematical objects",
  statement="Every straight-line program of API calls over a set of points and scalars, with arbitrary sharing of variables between results and operands and encodings, decodings and derivations in between, leaves every variable with the value the same program has over the abstract group and field of scalars. Values never decay over long programs.",
  over=["programs", "histories"], text="all sequences of API calls with all sharing of variables",
  why="Tests are short fixed sequences with fresh variables; defects that need the output of one operation in the special form another leaves behind do not show.",
  files=[R, S, CURVE, FIELD, TAB, VT, ELL], mech=[("each operation accepts whatever representation the others produce", E)],
  rule="Random programs of a hundred steps over eight points and eight scalars, biased towards reuse, aliasing and special values; after each step the written variable, and at the end all variables, are compared with the model's. Distinct: different programs; non-trivial: program performed at least one group and one scalar operation."),
 dict(id="C21", title="The C reference's constant-time functions are constant time",
  statement="In the bundled C reference implementation as cgo compiles it, no branch and no memory address depends on the contents of secret operands. This goes for the field operations, the scalar operations and the group operations that the header lists as constant-time versions, encoding and decoding included; not for those marked vartime or publicinputs, nor for the bit length and sliding windows of scalars.",
  over=["inputs"], text="all secret operands of the functions of the header that are not marked as variable-time",
  why="No functional test observes timing, branches or addresses.",
  files=[CREF, "cref/cref.h"], mech=[("conditional moves and table lookup by masks", CREF+": fe25519_cmov, cmov_aff, choose_t"), ("branch-free reduction and comparison", CREF+": reduce_add_sub, barrett_reduce, fe25519_iseq, group_scalar_equals")],
  rule="All bits of the operands are marked undefined for valgrind's memcheck, which then reports every conditional jump and every address computed from them, bit-precisely, in gcc's machine code at the optimisation level cgo uses; each run is one function on one set of operands. Non-trivial: the secret bits demonstrably reached the result. Two control operations with deliberate leaks must be reported."),
 dict(id="C22", title="Operations leave nothing behind but their results",
  statement="However often and on whatever operands operations are called, the library keeps no reference to operands, and its memory does not grow with the number of calls. It starts no goroutine that outlives the call, prints nothing, reads and writes no files, and leaves the settings of the process (environment, source of randomness, scheduler, garbage collector, logging) as they were.",
  over=["histories", "inputs"], text="all sequences of calls on all operands",
  why="Tests look at results only: a cache that is never emptied, a debugging message on a rare path or a retained pointer to a secret passes all of them.",
  files=[R, S, CURVE, FIELD, TAB, VT, ELL], mech=[("no package state that is written after initialisation", TAB+", "+VT), ("values are copied, never referenced", R+", "+S)],
  rule="Every exported call in a process of its own, on hundreds of ordinary and extreme operands in rounds; after each round, garbage collected, the heap is compared with before, finalizers on the operands must run once they are dropped, and goroutines, open files, reads and writes, settings, output and created files are watched. Three control operations (growth, reference, file) must be seen. Distinct: different calls."),
 dict(id="C23", title="The C reference keeps no state and may be called from any thread",
  statement="Each function of the bundled C reference implementation, and of its Go bindings, gives a result that depends on the values of its operands only: not on earlier calls, on what the result's memory held before, on addresses, or on other threads. Any number of threads and goroutines may call the functions at the same time on shared operands with results of their own, the first calls of the process included, without a data race. The functions print nothing, and the memory in use does not grow with the number of calls.",
  over=["schedules", "histories", "inputs"], text="all functions of the C header and the bindings, all orders of calls, all interleavings of threads",
  why="Tests call a few of the functions, on one thread, in one order; a static buffer or table filled on first use passes all of them.",
  files=[CREF, "cref/cref.h", "cref/cref.go"], mech=[("all temporaries on the stack, all tables constant", CREF), ("bindings without state", "cref/cref.go")],
  rule="Operands and the results of all functions are recorded by one process. Others repeat the calls: each function as the first of a process; in random orders with reused operand memory, related operands and garbage in the results, while the allocator's use of memory is watched; and all functions on 4 to 8 threads, together and each alone, under clang's ThreadSanitizer at -O1 and -O0 and in gcc's -O2. Every result is compared with the recorded one. A race on purpose must be reported. The bindings run in goroutines under Go's race detector against the model. Distinct: pairs of function and operands."),
 dict(id="C24", title="Every call comes back, whatever it is given, in bounded time and memory",
  statement="No operation panics, loops forever or recurses without end, whatever its operands hold: also variables that were never set, memory that stands for no point or field element, scalars below 2^253 that are not reduced, empty and absent slices, and negative and huge integers. (Random generation may panic when the source of randomness fails.) The time and memory a call takes are bounded by the length of its input.",
  over=["inputs"], text="all contents of all operands and inputs of every length",
  why="Tests use valid operands and short inputs; a crash or a blow-up needs a value nobody thought of.",
  files=[R, S, CURVE, FIELD, TAB, VT, ELL], mech=[("digits and window indices always within their tables", CURVE+", "+VT+", "+TAB), ("length checks before decoding", R+": UnmarshalBinary, UnmarshalText; "+S)],
  rule="Every exported call on operands whose memory is zero, all ones, random, almost zero or valid but damaged, and on odd slices and integers: panics, fatal errors and calls that do not return are violations. Bytes allocated (from the runtime's statistics) and processor time of every call on valid operands, and of the calls that take inputs of any length on inputs up to 4 MiB (64 MiB), are bounded generously, linearly in the length; the stack is capped. Distinct: different operands per call."),
]

ASSUME = ["the reference model in harness/ref is right (it is validated at every start against math/big, crypto/ed25519 and the vectors of RFC 9496)",
          "the Go toolchain, crypto/sha512 and math/big are right",
          "held means held on the executions described here, not for all"]

TECH = {p["id"]: "runtime oracle: hostile workloads on the real code, every result checked online against a reference model" for p in PROPS}
TECH.update({
 "C11": "runtime oracle on field operations in four builds (radix 51, generic, assembly, 386), checked online against a reference model",
 "C12": "recorded result logs of all builds on the same workload, compared offline",
 "C13": "runtime oracle on mutated marshalled input, with panic and bounds monitoring",
 "C14": "runtime snapshots of all operands around every call, plus replayed calls",
 "C15": "Go race detector under concurrent stress, plus result checking",
 "C16": "valgrind memcheck as secret-taint sanitizer on the real machine code, plus differential block counters, with positive controls",
 "C17": "fault injection into the randomness source with runtime oracle",
 "C19": "ASan, UBSan and MSan on the C code under hostile operands, plus online comparison with a reference model",
 "C21": "valgrind memcheck as secret-taint sanitizer on the C code's machine code, with positive controls",
 "C22": "runtime monitoring of heap, finalizers, goroutines, files, output and settings around every call, with positive controls",
 "C23": "ThreadSanitizer and the Go race detector under concurrent stress, plus comparison of recorded results across orders and threads",
 "C24": "runtime monitoring of panics, non-termination, stack, allocation and processor time on arbitrary memory and long inputs",
 "C20": "online checking of random API programs against an abstract state machine",
})
NOTE = {p["id"]: "Sampled, not exhaustive: holds on all executions of the run (counts in the evidence). Trusts the reference model, which is validated at start." for p in PROPS}
NOTE.update({
 "C12": "Compares builds with each other on sampled operands; an error common to all builds is for the other properties. The assembly build is forced by an overlay, as no supported Go version selects it.",
 "C14": "Sampled operands over all exported calls; bitwise snapshots.",
 "C15": "The race detector judges the schedules that occurred; sampled, not exhaustive.",
 "C16": "Memcheck tracks secret bits through the executed paths on amd64; variable-latency instructions such as division are not modelled by it, nor are microarchitectural effects. Operands are sampled, but since no branch depends on them, all operands take the same path.",
 "C17": "All fault points per byte in the thorough tier, sampled in the quick tier; the system source itself is trusted.",
 "C19": "Sampled operands. UBSan's shift check is off because the code shifts negative numbers left throughout, which every supported compiler defines.",
 "C23": "The race detectors judge the schedules that occurred, results are compared on sampled operands and orders; that they are the right results is C19's concern.",
 "C24": "Sampled contents; the bounds on time and memory are generous (they are there to tell linear from quadratic, not fast from slow).",
 "C21": "Executed paths on amd64 as gcc -O2 compiles them; variable-latency instructions and microarchitectural effects are not modelled. Another compiler may turn masks into branches (clang 18 -O2 does so in the scalar code).",
})

RULES = {p["id"]: p["rule"] for p in PROPS}


def write():
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                    quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                                    anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                                                 observe_at=["exported API"], hook_needed=None))) + "\n")
    m = dict(version=1, setup_cmd="bash setup.sh",
             checks=[dict(property=p["id"], quick_cmd="python3 check.py " + p["id"],
                          thorough_cmd="VERIF_TIER=thorough python3 check.py " + p["id"],
                          technique=TECH[p["id"]], level="exploration", level_note=NOTE[p["id"]]) for p in PROPS],
             not_applicable=[],
             notes="No hooks in /repo: the monitors use the exported API only. Known and repaired findings: known_findings.txt.")
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    write()
