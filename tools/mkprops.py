import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
FP="libff/algebra/fields/prime_base/fp.tcc"; AUX="libff/algebra/field_utils/fp_aux.tcc"
EXT=["libff/algebra/fields/prime_extension/%s.tcc"%x for x in("fp2","fp3","fp4","fp6_2over3","fp6_3over2","fp12_2over3over2")]
CUR="libff/algebra/curves/"
G=[CUR+x for x in("alt_bn128/alt_bn128_g1.cpp","alt_bn128/alt_bn128_g2.cpp","bls12_381/bls12_381_g1.cpp","bls12_381/bls12_381_g2.cpp","edwards/edwards_g1.cpp","edwards/edwards_g2.cpp","mnt/mnt4/mnt4_g1.cpp","mnt/mnt4/mnt4_g2.cpp","mnt/mnt6/mnt6_g1.cpp","mnt/mnt6/mnt6_g2.cpp")]
PR=[CUR+x for x in("alt_bn128/alt_bn128_pairing.cpp","bls12_381/bls12_381_pairing.cpp","edwards/edwards_pairing.cpp","mnt/mnt4/mnt4_pairing.cpp","mnt/mnt6/mnt6_pairing.cpp")]
ME="libff/algebra/scalar_multiplication/multiexp.tcc"; WN="libff/algebra/scalar_multiplication/wnaf.tcc"
FU="libff/algebra/field_utils/field_utils.tcc"; AL="libff/algebra/field_utils/algorithms.tcc"; BI="libff/algebra/field_utils/bigint.tcc"

p("C01","Prime-field arithmetic is exact and canonical",
 "For every odd prime modulus with at least one spare top bit and all operands, each prime-field operation (construction from integers, +, -, unary minus, *, squaring, inverse, power, comparison, and their in-place and self-aliased forms) yields exactly the mathematical result modulo p, in its unique reduced form. The result is the same whichever arithmetic backend (hand-written assembly or portable) and whatever number of machine words is compiled in, and operands other than the target are left unchanged.",
 ["inputs","configurations"],"every modulus width and value, every pair of operands and exponent, every aliasing of operands, assembly and portable builds",
 "Unit tests use a handful of random elements of the shipped curves in one build configuration; carries, borrows and final subtractions that occur with probability about 2^-64 per operation never happen in them.",
 [FP,"libff/algebra/fields/prime_base/fp.hpp",AUX,AL],
 [("Montgomery multiplication (Comba/CIOS assembly and mpn fallback)",FP+": mul_reduce, squared; "+AUX),("modular add/sub with conditional correction",FP+": operator+=, operator-=, operator-"),("inverse by extended gcd with sign and size fix-up",FP+": invert"),("square-and-multiply",AL+": power")],
 observe=["as_bigint, ==, is_zero, as_ulong"])
p("C02","Extension-field towers implement their defining quotient rings",
 "In every extension field the library offers (degrees 2, 3, 4, 6 in both towerings, and 12), addition, subtraction, negation, multiplication, every squaring, inversion, powers, scaling by subfield elements and multiplication by the designated non-residue equal polynomial arithmetic modulo the defining polynomials, for all operands including zero components and aliased operands.",
 ["inputs","configurations"],"every base prime and non-residue, every pair of elements",
 "Tests sample a few random elements per shipped field; sparse operands (zero components) and operand combinations on which a wrong cross term cancels are never drawn at random.",
 EXT,[("Karatsuba / Toom / Chung-Hasan multiplication and squaring formulas",EXT[0]+" and siblings: operator*, squared_*"),("norm-based inversion",EXT[0]+" and siblings: inverse"),("non-residue folding","mul_by_non_residue in each tower")])
p("C03","Pairing shortcuts and Frobenius agree with general field arithmetic",
 "The Frobenius map of every power equals raising to the corresponding power of the field characteristic; multiplication by sparse elements equals the general product with the same element; and on unit-norm (cyclotomic) elements the specialised squaring, inversion and exponentiation equal the general ones, for every exponent including zero and exponents with runs of set bits.",
 ["inputs","configurations"],"every element (of the cyclotomic subgroup where required), every Frobenius power, every exponent, every tower",
 "Tests check Frobenius on a few random elements and the shortcuts only indirectly through one pairing of random points.",
 EXT[2:]+[EXT[0],EXT[1]],[("Frobenius coefficient tables","Frobenius_map in each tower"),("sparse products","mul_by_023/mul_by_2345/mul_by_024/mul_by_045"),("Granger-Scott / norm-1 squaring and signed-digit exponentiation","cyclotomic_squared, cyclotomic_exp, unitary_inverse")])
p("C04","Square roots are found for every square in every field",
 "For every field element that is a square, including zero and one, in every prime, extension and binary field, the square-root operation terminates and returns an element whose square is that element.",
 ["inputs","configurations"],"every square of every field, every 2-adicity of the multiplicative group and every quadratic non-residue chosen for it",
 "Tests take roots of a few random squares of the shipped fields; the search loop's iteration structure depends on the 2-adic order of the input, where most orders have negligible probability.",
 [AL,FP]+EXT+["libff/algebra/fields/binary/gf%d.cpp"%n for n in(32,64,128,192,256)],
 [("Tonelli-Shanks",AL+": tonelli_shanks_sqrt"),("Frobenius-power root in characteristic two","gf*.cpp: sqrt")])
p("C05","Binary fields implement GF(2^n) exactly",
 "For each binary field (32, 64, 128, 192, 256 bits) addition, subtraction, multiplication, squaring, inversion, powers, and the advertised generator agree with polynomial arithmetic over GF(2) modulo the field's irreducible polynomial, for all operands and aliasings, identically with the carry-less-multiply instructions and with the portable code.",
 ["inputs","configurations"],"every pair of elements, every exponent, hardware and portable builds",
 "Tests use random elements in one build; the portable multiplication is never compiled, and reduction paths that depend on single top-degree bits are not isolated.",
 ["libff/algebra/fields/binary/gf%d.cpp"%n for n in(32,64,128,192,256)],
 [("carry-less multiply and sparse-polynomial reduction","gf*.cpp: operator*=, square"),("addition-chain inversion","gf*.cpp: inverse")])
p("C06","Fixed-width integers represent and expose exact values",
 "For every width and every value, a fixed-width big integer built from a machine word, a decimal string or an arbitrary-precision integer holds exactly that value, and every query (equality, order, zero and parity tests, each bit including out-of-range positions, bit length, low word, conversion and printing in decimal) is exact and does not modify it.",
 ["inputs","configurations"],"every width, every value of that width, every bit position",
 "Tests touch two or three constants; word-boundary lengths and values with zero words in between are not sampled.",
 ["libff/algebra/field_utils/bigint.hpp",BI],[("limb-array helpers over GMP mpn functions",BI)])
p("C07","Field elements convert to words, bits and packed form without loss",
 "Converting any field element to its word list, bit vector or machine word and back returns the same element; reading words accepts exactly the bit patterns below the modulus and reports the others; and packing a vector of bits or machine words into field elements and unpacking restores every bit in order, for every vector length, word width and chunk size allowed.",
 ["inputs","configurations"],"every element and bit pattern of every field, every vector length, chunk and word width, both output representations",
 "Tests check one vector length with one chunk width and round-trip a few random elements in the single default output representation.",
 [FU,FP]+EXT+["libff/algebra/fields/binary/gf%d.cpp"%n for n in(32,64,128,192,256)],
 [("word import/export","to_words / from_words in every field"),("bit/word packing",FU+": pack_*, convert_*")])
p("C08","Roots of unity have exactly the requested order",
 "For every power-of-two size up to the full two-adic order of a field's multiplicative group the returned root of unity is a primitive root of that order; sizes that are not powers of two or exceed that order are rejected with an error; and the coset shift lies outside every such subgroup and is non-zero.",
 ["inputs","configurations"],"every requested size (all powers of two and non-powers), every prime field",
 "Tests ask for one small size in the default field; sizes at and above 2^32 and the extreme admissible order are never requested.",
 [FU,"libff/algebra/field_utils/field_utils.hpp"],[("repeated squaring of the maximal root",FU+": get_root_of_unity"),("coset shift from a multiplicative generator",FU+": coset_shift")])
p("C09","Group operations obey the curve group law in every representation",
 "On every supported curve group, addition, subtraction, negation, doubling, mixed addition with a normalised operand, equality and the zero test give the result of the mathematical group law for every pair of points of the prime-order group, whatever projective scaling represents them, including equal points, opposite points and the identity on either side.",
 ["inputs","histories"],"every pair of points, every projective representation of each, every operation sequence",
 "Tests combine a few random points whose representation is whatever the last operation left; coincidences between operands (same point in different scalings, opposite points, identity with unusual coordinates) arise only if hand-written.",
 G,[("special-case tests before the generic formula","operator+, add, mixed_add, dbl of each group"),("cross-multiplied equality","operator== of each group")])
p("C10","Normalising points never changes the point",
 "Converting a point to affine or special form, singly or in batch, yields the same group element with normalised coordinates, is idempotent, keeps the order and length of a batch, and maps every form of the identity to the identity, for every mixture and position of identities in the batch; batch inversion of field elements equals element-wise inversion for every vector including the empty one.",
 ["inputs"],"every point and projective scaling, every batch length and every placement of identities, duplicates and already-normalised points",
 "Tests normalise a short fixed batch; positions of identities in the batch and repeated elements are not enumerated.",
 G+[ME,FU],[("batch inversion",FU+": batch_invert"),("identity-skipping batch conversion",ME+": batch_to_special and batch_to_special_all_non_zeros of each group")])
p("C11","All scalar multiplications equal repeated addition",
 "Multiplying a group element by an integer of any width or by a scalar-field element, by plain double-and-add or by any windowed signed-digit method with any window size, gives the element added to itself that many times, for every point including the identity and every scalar including zero, one, the group order and neighbours, values at or above the order, and the all-ones pattern of the integer's width.",
 ["inputs","configurations"],"every point, scalar, scalar width and window size",
 "Tests multiply random points by random full-size scalars with one method each; digit-recoding carries out of the top bit, short scalars and window boundaries are not covered.",
 [CUR+"curve_utils.tcc",WN]+G,[("double-and-add",CUR+"curve_utils.tcc: scalar_mul"),("signed-digit recoding and precomputed odd multiples",WN+": find_wnaf, fixed_window_wnaf_exp, opt_window_wnaf_exp")])
p("C12","Every multi-scalar multiplication method returns the exact sum",
 "For every list of bases and equally long list of scalars, including empty lists, repeated and opposite bases, identities, and zero, one and repeated scalars, each multi-exponentiation method, with or without the zero/one shortcut and with any number of chunks, returns the sum of the individual products; the inner product of field vectors likewise.",
 ["inputs","configurations"],"every list length, base and scalar combination, method, chunk count, mixed-addition and portable/assembly builds",
 "Tests compare two methods on random large scalars of a few lengths; heap degeneracies, bucket collisions, exhausted scalars and ragged chunk splits depend on structured inputs.",
 [ME,WN],[("Bos-Coster heap",ME+": multi_exp_inner<bos_coster>, ordered_exponent"),("bucket method",ME+": multi_exp_inner<BDLO12>"),("chunking and special scalars",ME+": multi_exp, multi_exp_with_mixed_addition")])
p("C13","Fixed-base windowed exponentiation equals plain multiplication",
 "For every base, window size and scalar length, exponentiation from a precomputed window table, singly or in batch and with or without a common coefficient, returns for every scalar below the scalar length exactly scalar times base, in input order; the automatically chosen window is always a usable size for any number of scalars.",
 ["inputs","configurations"],"every window size, scalar bit length (multiple of the window or not), base, batch length, low-memory and normal builds",
 "Not exercised by the existing tests beyond incidental use; ragged last windows and the window-table lookup boundaries depend on size parameters no test enumerates.",
 [ME],[("window table construction",ME+": get_window_table"),("table lookup per window",ME+": windowed_exp, batch_exp, batch_exp_with_coeff"),("window choice",ME+": get_exp_window_size")],
 state=[("fixed_base_exp_window_table","smallest batch size from which each window wins","curve init files")])
p("C14","The membership test accepts exactly the curve's points",
 "The well-formedness test of every curve group returns true for the identity and for every point satisfying the curve equation in every projective representation, and false for every coordinate triple whose affine point does not satisfy it; every result of a group operation on well-formed points is well formed.",
 ["inputs"],"every coordinate triple with an invertible denominator, every curve group",
 "Tests check it is true on a few valid points and essentially never that it is false; a test that accepts off-curve points is an invalid-curve vulnerability that no positive example reveals.",
 G,[("homogenised curve equation","is_well_formed of each group")])
p("C15","The pairing is bilinear and non-degenerate",
 "For every curve, the reduced pairing of any multiples a of P and b of Q equals the pairing of P and Q raised to ab, is one exactly when a or b is divisible by the group order (in particular when either point is the identity), always has order dividing the group order, and does not depend on the projective representation of the inputs.",
 ["inputs"],"every pair of points of the two groups in every representation, every curve",
 "Tests pair one or two random point pairs with random scalars and never the identity; sign, loop-count and special-point errors confined to other inputs are invisible.",
 PR+EXT,[("Miller loop with line evaluations","*_miller_loop, *_precompute_G1/G2"),("final exponentiation in two chunks","*_final_exponentiation*")])
p("C16","All ways of computing a pairing agree",
 "For every curve and all inputs, computing the pairing from precomputed points (fresh, copied, reused in other pairings or read back from a stream), the double Miller loop against the product of two single ones, alternative pairing algorithms offered for the same curve against their own single-step forms, and the optimised final exponentiation against plain exponentiation by its exponent all agree.",
 ["inputs","histories"],"every pair or pair of pairs of points, every reuse of precomputed values, every non-zero target-field element for the final exponentiation",
 "Tests compare one random double Miller loop per curve; the final exponentiation is never compared with its definition and the alternative algorithms are barely touched.",
 PR,[("precomputation structs","*_precompute_G1, *_precompute_G2"),("interleaved double loop","*_double_miller_loop"),("exponent decomposition","*_final_exponentiation_{first,last}_chunk")])
p("C17","Published curve and field parameters are mathematically consistent",
 "After initialisation every field and curve parameter the library publishes is what its definition says: primality and sizes, Montgomery constants, two-adic decomposition, generators, non-residues and roots of unity, Frobenius coefficients, curve and twist equations, generators of exactly the stated order, cofactors, and pairing loop counts and exponents; initialising again, or initialising several curves in any order, leaves them all unchanged.",
 ["configurations","histories"],"every published parameter of every supported curve, every order and repetition of initialisation",
 "Tests use the parameters without checking them; an off-by-one in a constant used only on a rare path, or state shared between curves' initialisations, goes unnoticed.",
 [CUR+x for x in("alt_bn128/alt_bn128_fields.cpp","alt_bn128/alt_bn128_init.cpp","bls12_381/bls12_381_fields.cpp","bls12_381/bls12_381_init.cpp","edwards/edwards_fields.cpp","edwards/edwards_init.cpp","mnt/mnt4/mnt4_fields.cpp","mnt/mnt4/mnt4_init.cpp","mnt/mnt6/mnt6_fields.cpp","mnt/mnt6/mnt6_init.cpp","mnt/mnt46_common.cpp")],
 [("parameter assignments","init_*_fields, init_*_params")])
p("C18","Serialising field and curve elements round-trips in every encoding",
 "Writing any field element, curve point (any projective representation, including the identity) or precomputed pairing value to a stream and reading it back yields an equal value, and equal values always produce identical bytes, in every combination of binary or decimal output, plain or internal number representation and compressed or uncompressed points.",
 ["inputs","configurations"],"every element and point of every field and curve, all encoding configurations",
 "Tests round-trip a few random values in the single configuration the build happens to use; the other encodings are never compiled and special values (identity, zero y parity, top words zero) are unlikely.",
 G+PR+EXT+[FP,BI]+["libff/algebra/fields/binary/gf%d.cpp"%n for n in(32,64,128,192,256)],
 [("stream operators","operator<< / operator>> of every element type"),("point (de)compression by y parity","operator>> of each group"),("identity flag","operator<< / operator>> of each group")])
p("C19","Values written consecutively to a stream are read back independently",
 "Any sequence of serialised values of mixed kinds (elements, points, integers, booleans, bit vectors, vectors, maps and sets of them, including empty and nested ones) written to one stream with the documented separators is read back in order exactly, each read consuming exactly what its write produced, in binary and decimal output.",
 ["histories","configurations"],"every sequence of kinds and values, container sizes including zero, both output formats",
 "Tests serialise one object per fresh stream, so over- or under-consumption of bytes, which only corrupts the following object, cannot be seen.",
 ["libff/common/serialization.hpp","libff/common/serialization.tcc","libff/common/utils.cpp"]+G+[BI],
 [("separator conventions","libff/common/serialization.hpp"),("container framing","libff/common/serialization.tcc"),("bit-vector framing","libff/common/utils.cpp: serialize_bit_vector")])
p("C20","Random elements are canonical, uniform and drawn only from the generator",
 "Given uniformly distributed system randomness every field's random element is exactly uniformly distributed over reduced elements, every group's random element is that uniform scalar times the generator, random helpers that exclude values never return them, and hash-derived elements are a fixed reduced function of the index alone.",
 ["inputs","configurations"],"every output sequence of the random source, every modulus shape, every index",
 "A test can only look at a few outputs; bias, unreduced outputs near the modulus and a mask that drops bits have probabilities no sample detects.",
 [FP,BI,"libff/common/rng.tcc","libff/common/utils.tcc"]+EXT+["libff/algebra/fields/binary/gf%d.cpp"%n for n in(32,64,128,192,256)]+G,
 [("masking and rejection sampling",FP+": random_element; libff/common/rng.tcc: SHA512_rng"),("random words",BI+": randomize")])
p("C21","Concurrent use of separate values never interferes",
 "Once parameters are initialised, any threads performing field, curve, scalar-multiplication, pairing, serialisation or random-generation operations on values they do not share, in any interleaving, obtain exactly the results of running alone, and no two threads access the same memory without synchronisation when one of them writes.",
 ["schedules"],"every interleaving (any point of preemption) of two threads running any two operations",
 "All tests are single-threaded; a scratch buffer or cached value moved to shared storage stays invisible until two threads meet inside the operation.",
 [FP,AL,WN,ME,BI]+EXT+G+PR,[("operations use only locals and read-only parameters","all arithmetic code"),("read-only parameter tables after initialisation","curve init files")])
p("C22","The multicore build computes the same results as the sequential one",
 "With multicore support compiled in, multi-exponentiation with any number of chunks and batch exponentiation return exactly the sequential results and leave shared bookkeeping intact, for every number of threads, assignment of iterations to threads and interleaving of them, without data races.",
 ["schedules","configurations"],"every thread count, iteration distribution and interleaving of the parallel regions",
 "The tests are built without multicore support; with it, a racy reduction or shared bookkeeping would fail only under particular timings.",
 [ME,"libff/common/profiling.cpp"],[("one result slot per iteration, sequential final sum",ME+": multi_exp, batch_exp, batch_exp_with_coeff"),("critical sections around shared log state","libff/common/profiling.cpp: enter_block, leave_block")],
 state=[("partial","per-chunk results",ME),("block_names, *_times, indentation","profiling state shared by all threads","libff/common/profiling.cpp")])
p("C23","Profiling blocks account time, counts and nesting exactly",
 "For every properly nested sequence of entering and leaving profiling blocks, clearing counters and toggling the output switches, each block's invocation count, last and cumulative duration and printed nesting depth equal those implied by the sequence and the clock, suppressed profiling has no effect and prints nothing, and every library routine that opens blocks closes exactly those.",
 ["histories"],"every well-nested sequence of calls, block names (repeated, recursive siblings), switch settings and clock readings",
 "No test covers the profiler; counting and nesting errors need particular sequences, and real clocks make exact expectations impossible.",
 ["libff/common/profiling.cpp","libff/common/profiling.hpp"],[("per-name maps and indentation counter","libff/common/profiling.cpp: enter_block, leave_block, clear_profiling_counters")],
 state=[("invocation_counts, enter_times, last_times, cumulative_times, indentation, block_names","profiler state","libff/common/profiling.cpp")])
p("C24","Integer and bit utilities meet their arithmetic definitions",
 "For all arguments in their stated domains, the ceiling logarithm, power-of-two rounding and test, bit reversal, two's-complement encoding and decoding, ceiling division, and word-list to bit-vector expansion equal their mathematical definitions, and invalid arguments that are documented to be rejected are rejected.",
 ["inputs"],"every argument including zero, exact powers of two, word-size boundaries, and every width",
 "Tests check a few small values; boundary widths and values near powers of two up to the word size are not covered.",
 ["libff/common/utils.cpp","libff/common/utils.hpp"],[("bit manipulation helpers","libff/common/utils.cpp")])
p("C25","Operations stay inside memory and defined arithmetic",
 "For every valid input, every field, integer, curve, scalar-multiplication, pairing, serialisation, sampling and utility operation reads and writes only inside live objects and container bounds, never reads memory nobody has written, and executes no arithmetic the language leaves undefined (over-wide shifts, signed overflow, null or misaligned access, invalid conversions), whether or not its result comes out right.",
 ["inputs","configurations"],"every valid input of every operation, including empty lists, identity elements, extreme words and all operand sizes",
 "A stray read or an undefined shift usually still yields the right answer on the test machine; it surfaces only with particular sizes, and only as a crash, another compiler's miscompilation or a leak.",
 [FP,AL,WN,ME,BI,"libff/common/utils.cpp","libff/common/serialization.tcc"]+EXT+["libff/algebra/fields/binary/gf%d.cpp"%n for n in(32,64,128,192,256)]+G+PR,
 [("fixed-size limb arrays and index arithmetic",BI+", "+FP),("table and coefficient-list indices",WN+", "+ME+", the pairing implementations"),("word lists and bit lists",FP+": from_words; libff/common/utils.cpp")])
p("C26","The floating-point complex domain computes like the complex numbers",
 "For all operands of moderate size, the operations of the complex double domain (addition, subtraction, negation, multiplication, squaring, inversion, powers by any exponent including zero, and their in-place and self-aliased forms) give the exact complex result up to floating-point rounding, equality and order hold to the stated tolerance, conversion to an integer gives the nearest integer, and the root of unity returned for any size is a primitive root of that order.",
 ["inputs"],"every pair of operands, exponent and order",
 "No test touches the class; errors hide in particular operands (purely real or imaginary ones, zero, negative bases) and exponents.",
 ["libff/common/double.cpp","libff/common/double.hpp","libff/algebra/field_utils/field_utils.tcc"],[("complex arithmetic","libff/common/double.cpp"),("root of unity for Double","libff/algebra/field_utils/field_utils.tcc: get_root_of_unity")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
