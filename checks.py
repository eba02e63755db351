# Registry: property id -> builds, bounds, how they are explored.
PORT = ['USE_ASM']
WRAP = ['-Wl,--wrap=__gmpn_gcdext']
CHECKS = {}

CHECKS['C01'] = dict(
    technique='exhaustive enumeration of executions of the real field code (all operands of tiny moduli; all limb-corner operands of shipped and worst-case moduli) against GMP',
    bounds='moduli 3..61,127,257 in 1..8 limbs: all pairs, all exponents up to 2p+1; shipped and synthetic moduli with a spare bit: per-limb corner alphabet, all pairs (thinned to 300x300 in quick), targeted sums/products',
    bins=[dict(name='asm', src='c01_fp.cpp', opt='-O2', ldflags=WRAP, shards=8),
          dict(name='portable', src='c01_fp.cpp', undef=PORT, opt='-O1', ldflags=WRAP, shards=8)],
    level_note='complete over tiny moduli and over the stated corner alphabets; other operands of full-size moduli are not enumerated')

CHECKS['C02'] = dict(
    technique='exhaustive enumeration of operand pairs of the real tower code over tiny primes against schoolbook quotient rings; coefficient-pattern enumeration on the shipped towers',
    bounds='Fp2 p<=13 (19 thorough) all pairs, every non-residue; Fp3 p=7 and Fp4 p=5 all pairs; degree 6/12: all coefficient patterns over {0,1,-1,..} as stated per section; shipped towers over {0,1,p-1,c}',
    bins=[dict(name='towers', src='c02_towers.cpp', opt='-O1', ldflags=WRAP, shards=16)],
    level_note='complete for all operands of the small fields; for degree 6 and 12 complete over structured operands')

CHECKS['C03'] = dict(
    technique='exhaustive enumeration of Frobenius powers, sparse operands and complete cyclotomic subgroups x exponents on tiny towers, executed on the real code against a discrete-log table',
    bounds='all Frobenius powers 0..2d+1; complete cyclotomic subgroups of orders 26,170 (deg 4), 43,157 (deg 6), 2353 (deg 12); exponents 0..2n, run-of-ones and top-of-width patterns',
    bins=[dict(name='short', src='c03_short.cpp', opt='-O1', ldflags=WRAP, shards=16)],
    level_note='complete on the tiny towers within the stated operand sets; shipped towers checked on coefficient corners')

CHECKS['C04'] = dict(
    technique='exhaustive enumeration of squares of tiny fields (every prime below a bound, every 2-adicity, several non-residues) and of every two-power-order class of the shipped fields, with a termination watchdog',
    bounds='all squares of F_p for p<600; complete Fp2/Fp3/Fp4 over tiny primes; all orders 2^k of the shipped fields; all one- and two-bit patterns of the binary fields',
    bins=[dict(name='sqrt', src='c04_sqrt.cpp', opt='-O1', ldflags=WRAP, shards=16)],
    level_note='complete on the tiny fields; on shipped fields one family of squares per 2-power order; termination judged by a CPU-time watchdog')

CHECKS['C05'] = dict(
    technique='exhaustive enumeration of monomial pairs (decisive for a bilinear product) and of word-pattern pairs on the real code, both backends, against a carry-less schoolbook model',
    bounds='all n^2 monomial products, all pairs of the word-pattern alphabet, all one- and two-bit elements for unary operations; generator order via the complete factorisation of 2^n-1',
    bins=[dict(name='clmul', src='c05_gf2.cpp', opt='-O2', shards=8), dict(name='portable', src='c05_gf2.cpp', undef=PORT, opt='-O1', shards=8),
          dict(name='minclmul', src='c05_gf2.cpp', flags=['-DASM_MINIMIZE_CLMULS'], opt='-O2', shards=8)],
    level_note='products of arbitrary operands follow from monomial products by bilinearity of the executed straight-line code; other operand pairs are covered over a word-pattern alphabet')

CHECKS['C06'] = dict(
    technique='exhaustive enumeration of limb-corner values and pairs of values for every width on the real class against GMP',
    bounds='widths 1,2,3,4,5,6,8,10,12,24 limbs; complete limb-corner alphabet (capped at ~1100/5000 words per width) plus all powers of two and ten +-1, all pairs; every bit position; all decimal strings below 20000 and one-digit-perturbed strings of every length',
    bins=[dict(name='bigint', src='c06_bigint.cpp', opt='-O1', shards=16)],
    level_note='complete over the stated alphabets for every width')

CHECKS['C24'] = dict(
    technique='exhaustive enumeration of arguments of the real functions against definitions in 128-bit arithmetic',
    bounds='all n up to 2^21 (2^24 thorough) and all 2^k+-3000; bit reversal: all n for l<=16 (20), all 0-2-bit patterns for l<=64; twos complement: all values for w<=17, corners to w=63; ceiling division: all |x|<=300,|y|<=60 and all power-of-two corner pairs; word lists of 0..4 corner words and of 5..257 words',
    bins=[dict(name='utils', src='c24_utils.cpp', opt='-O1', shards=8)],
    level_note='complete over small domains and corner alphabets; the two-complement width of 64 is outside the asserted domain')

CHECKS['C07'] = dict(
    technique='exhaustive enumeration of elements, word patterns, bit vectors, chunk and word widths on the real conversion code, in both output representations, against GMP',
    bounds='one-limb primes to 257: every element, every word pattern of the size, every bit vector to length 9 (11) with every chunk width; shipped and word-boundary moduli: corner elements and patterns around 0, p, 2^bits; packing at chunk boundaries for word widths 1..64, vectors up to 4097 bits and 1025 words; extensions: corner coefficients and every subset of out-of-range coefficients',
    bins=[dict(name='mont', src='c07_words.cpp', opt='-O1', ldflags=WRAP, shards=8),
          dict(name='plain', src='c07_words.cpp', opt='-O1', undef=['MONTGOMERY_OUTPUT'], ldflags=WRAP, shards=8)],
    level_note='complete over the tiny fields; shipped fields over the stated corner sets')

CHECKS['C08'] = dict(
    technique='exhaustive enumeration of requested sizes over every small prime field, every shipped prime field and one prime field per two-adicity, on the real code, against GMP modular exponentiation',
    bounds='all sizes 0..2p+2 for primes below 700 (3000); all powers of two to 2^63, neighbours and two-bit sizes for shipped fields and for p=k*2^s+1, s=1..119',
    bins=[dict(name='roots', src='c08_roots.cpp', opt='-O1', ldflags=WRAP, shards=16)],
    level_note='the coset shift is judged for fields whose order minus one is not a power of two (all shipped fields)')

CHECKS['C09'] = dict(
    technique='explicit-state exploration of the real group code on tiny curves (all reachable coordinate triples, all pairs of points x scalings) judged by an affine reference group',
    bounds='BN, BLS12, MNT4, MNT6 and Edwards curves over fields of 13..859 elements with subgroups of order 7..257: all pairs of points with all or several scalings of either side; complete reachability closures over raw coordinates; shipped curves: small and extreme multiples in several scalings',
    bins=[dict(name='group', src='c09_group.cpp', opt='-O2', ldflags=WRAP, shards=32)], parallel=8,
    level_note='complete for every history of the smallest groups; larger groups complete over pairs of points and the listed scalings')

CHECKS['C10'] = dict(
    technique='exhaustive enumeration of representations and of batch words (all placements of identities, duplicates, normalised points) executed on the real code, judged by an affine reference group',
    bounds='tiny curves of all five families: every point in every (or evenly thinned) scaling; every batch word of length 0..4 (6 thorough) over 6 representation kinds plus identity runs in batches of 17 and 40 and batches of 100..2049; batch inversion: every word of length 0..4 over up to 12 elements of every field kind and vectors of 16..4097; all sub-batches of 7 points of the shipped curves',
    bins=[dict(name='norm', src='c10_norm.cpp', opt='-O2', ldflags=WRAP, shards=16)],
    level_note='complete over the enumerated words and the smallest groups')
CHECKS['C14'] = dict(
    technique='exhaustive enumeration of coordinate triples of tiny curves, on the real membership test, against the affine curve equation',
    bounds='G1 of every family: every affine pair (x,y) in all or many scalings; G2: every pair over F_{13^2}, F_{19^2}, thinned pairs over larger extensions; every single-coordinate perturbation of on-curve points; shipped curves: points in 3 scalings and their perturbations; results of all pairwise operations',
    bins=[dict(name='wf', src='c14_wf.cpp', opt='-O2', ldflags=WRAP, shards=16)],
    level_note='complete for the smallest fields; thinned to a stated grid elsewhere')

CHECKS['C11'] = dict(
    technique='exhaustive enumeration of (point, scalar, window) on tiny curves with a discrete-log table as oracle, plus enumeration of boundary-structured scalars of 1..5 limbs, executed on the real code',
    bounds='recoding: all scalars below 2^14 (2^18 thorough), the top 2^13 of a limb and limb-corner scalars of 1,2,4,5 limbs for windows 1..12(20); tiny curves: every point x every scalar 0..2r+5, windows 1..6; limb-corner scalars for the first and last points; mul_by_q and mul_by_cofactor for every subgroup point; shipped curves: boundary scalars',
    bins=[dict(name='scalar', src='c11_scalar.cpp', opt='-O2', ldflags=WRAP, shards=24)], parallel=8,
    level_note='complete over points and scalars of the tiny groups; full-width scalars over the stated corner alphabet')

CHECKS['C12'] = dict(
    technique='exhaustive enumeration of (base, scalar) lists on tiny groups whose discrete logarithms are known, every method x chunk count, executed on the real code; tiny groups are combined with full-width 1..6-limb scalar fields',
    bounds='all lists of length 0..2 (3 thorough) over complete groups of order 7..31; corner-scalar lists of length 0..3 (5 thorough) for 1..6-limb scalars; 11 scalar patterns x 3 base patterns for lengths 0..64 (600 thorough) with every chunk split class; lists of 100..4097 terms around every power of two, one pattern x chunk count each; builds: default, portable, USE_MIXED_ADDITION; inner products over corner vectors',
    bins=[dict(name='default', src='c12_multiexp.cpp', opt='-O2', ldflags=WRAP, shards=16),
          dict(name='portable', src='c12_multiexp.cpp', undef=PORT, opt='-O2', ldflags=WRAP, shards=16),
          dict(name='mixed', src='c12_multiexp.cpp', flags=['-DUSE_MIXED_ADDITION'], opt='-O2', ldflags=WRAP, shards=16)], parallel=8,
    level_note='complete over the enumerated lists')
CHECKS['C13'] = dict(
    technique='exhaustive enumeration of (scalar size, window, base, scalar) on tiny groups with known discrete logarithms, including every table entry, executed on the real code',
    bounds='scalar sizes 1..9 (13 thorough) x windows 1..10 x every scalar below 2^size; wide sizes up to the field width x windows 1..12 x corner scalars; batches of 100..4097 scalars; window chooser on every shipped table and 448 synthetic tables; normal and LOWMEM builds',
    bins=[dict(name='default', src='c13_fixedbase.cpp', opt='-O2', ldflags=WRAP, shards=12),
          dict(name='lowmem', src='c13_fixedbase.cpp', flags=['-DLOWMEM'], opt='-O2', ldflags=WRAP, shards=8)], parallel=8,
    level_note='complete over the enumerated sizes')
CHECKS['C15'] = dict(
    technique='exhaustive enumeration of all pairs of points (all discrete logarithms, several representations) of complete tiny pairing-friendly curves run through the shipped pairing code; corner multiples on larger tiny curves and the shipped curves',
    bounds='complete r x r tables for BN, BLS12, MNT4, MNT6 and Edwards curves of order 7..211 (601 thorough) with up to 3x3 representations; 48 corner multiples squared on curves of order up to 10^5; 7x7 (27x27 thorough) corner multiples on the shipped curves; ate, affine ate and Tate algorithms',
    bins=[dict(name='default', src='c15_pairing.cpp', opt='-O2', ldflags=WRAP, shards=32),
          dict(name='portable', src='c15_pairing.cpp', undef=PORT, opt='-O2', ldflags=WRAP, shards=16, tiers=['thorough'])], parallel=8,
    level_note='complete over the enumerated curves')
CHECKS['C16'] = dict(
    technique='exhaustive enumeration of point pairs, pairs of pairs, precomputation histories and target-field subsets on tiny pairing-friendly curves executed on the real code, every path compared exactly',
    bounds='all point pairs of complete groups (order 7..43) or 12..20 corner multiples; all 4-tuples over 5..6 points (12 thorough) for double and affine combination loops; precomputations fresh, copied, assigned, moved, streamed; final exponentiation on all 2-coordinate elements, all {0,1,-1} vectors and 1500 (20000) powers per curve against the documented exponent; shipped curves: 3 (5) points per group',
    bins=[dict(name='default', src='c16_variants.cpp', opt='-O2', ldflags=WRAP, shards=32),
          dict(name='portable', src='c16_variants.cpp', undef=PORT, opt='-O2', ldflags=WRAP, shards=16, tiers=['thorough'])], parallel=8,
    level_note='complete over the enumerated curves')
CHECKS['C17'] = dict(
    technique='explicit-state exploration of every initialisation history (fresh process per history, parameter state compared byte for byte) plus exhaustive recomputation of every published parameter from its definition with GMP',
    bounds='every published parameter of the 5 buildable curves and their 18 fields; all sequences of up to 5 (6) public initialisations; all sequences of up to 3 (4) actions among init_public_params, init_*_params, init_*_fields and use of the library for the 5 curves',
    bins=[dict(name='default', src='c17_params.cpp', opt='-O1', ldflags=WRAP, shards=16)], parallel=8,
    level_note='the parameter set is finite and covered completely; histories to the stated length')
ENC = ['BINARY_OUTPUT', 'MONTGOMERY_OUTPUT']
def enc(binary, mont, comp):
    return dict(undef=[] + (['BINARY_OUTPUT'] if not binary else []) + (['MONTGOMERY_OUTPUT'] if not mont else []), flags=[] if comp else ['-DNO_PT_COMPRESSION'])
def encname(b, m, c): return ('bin' if b else 'text') + ('.mont' if m else '.plain') + ('.compressed' if c else '.full')
CHECKS['C18'] = dict(
    technique='exhaustive enumeration of values and representations executed on the real stream operators, one build per encoding: complete tiny fields and curves (all points of the whole curve in all or several scalings), digit/byte/limb-corner values of the shipped fields, points with vanishing ordinate coefficients on the shipped curves',
    bounds='8 encodings (binary/decimal x internal/plain x compressed/full) plus mixed-addition build; F_p p<1000 in 1,3,5 limbs; bigint 1..24 limbs; binary fields: all 1-2-bit patterns and word patterns; every point of tiny curves of the five families (thinned abscissae above 1500 in quick, plus every point with a vanishing ordinate coefficient); multiples and off-subgroup points of the shipped curves; precomputed values',
    bins=[dict(name=encname(b, m, c), src='c18_serial.cpp', opt='-O1', ldflags=WRAP, shards=8, **enc(b, m, c)) for b in (1, 0) for m in (1, 0) for c in (1, 0)] +
         [dict(name='mixed', src='c18_serial.cpp', opt='-O1', ldflags=WRAP, shards=8, flags=['-DUSE_MIXED_ADDITION'])], parallel=8,
    level_note='complete for the tiny fields and curves; shipped fields over the stated corner sets')
CHECKS['C19'] = dict(
    technique='exhaustive enumeration of all words (histories) of bounded length over an alphabet of typed values written to one stream and read back by the real operators, read position compared after every read, variables reused between reads',
    bounds='alphabets of 60-110 values of 20-45 kinds (integers, booleans, bit vectors, bigints, binary fields, every element kind of the five curves, precomputations, vectors/maps/sets, empty and nested): all words of length <= 3 over plain kinds and binary fields, all of length <= 2 over each curve alphabet and all of length 3 over one value per kind (3 values each); vectors, maps, sets and bit vectors of 7..1000 entries alone and beside a short value; text/binary x compressed/full',
    bins=[dict(name=encname(b, 1, c), src='c19_streams.cpp', opt='-O1', ldflags=WRAP, shards=16, **enc(b, 1, c)) for b in (1, 0) for c in (1, 0)] +
         [dict(name=encname(b, 0, 1), src='c19_streams.cpp', opt='-O1', ldflags=WRAP, shards=16, tiers=['thorough'], **enc(b, 0, 1)) for b in (1, 0)], parallel=8,
    level_note='complete over the stated words')

CHECKS['C20'] = dict(
    technique='exhaustive enumeration of the outputs of the random source (interposed, scripted) fed to the real samplers: every visible bit pattern, every rejection prefix, every draw combination, counting how often each element results',
    bounds='moduli 3..67,127,257,509,521,1021,1031,4093,8191 in 1..6 limbs: every output of one round under 3 fillers, rejection prefixes of 1-2 rounds; shipped and 31..127-bit moduli: all 1-bit and thinned 2-bit outputs, boundary outputs, after every boundary rejection; towers: every combination of draws or every pair; groups: every scalar draw on tiny curves, boundary draws on shipped ones; SHA512_rng: indices 0..3000 and 2^k+{-1,0,1} for 20 moduli',
    bins=[dict(name='random', src='c20_random.cpp', opt='-O1', ldflags=WRAP, shards=16)],
    level_note='complete for tiny moduli; the binary fields and bigint are decided by rank and all pairs of bits; other outputs for shipped moduli are not enumerated',
    assumptions=['std::random_device and randombytes_buf deliver uniform independent bits'])

CHECKS['C23'] = dict(
    technique='explicit-state exploration: every properly nested word of profiler calls up to a depth, run on the real profiler under a scripted clock and compared call by call with a reference profiler; every block-opening library routine run and its blocks matched',
    bounds='all words up to length 6 (7) over 9 calls (two names, blocks with and without indent, clear, both switches, print_time, dump); up to 8-9 (9-10) over 3 smaller alphabets; towers of 9..257 open blocks and runs of up to 100 repetitions of 5 patterns; clocks increasing, standing still, set back; with and without MULTICORE; all pairing, multi-exponentiation and batch routines of the 5 curves incl. identity operands',
    bins=[dict(name='plain', src='c23_profiling.cpp', opt='-O1', ldflags=WRAP, shards=16),
          dict(name='multicore', src='c23_profiling.cpp', opt='-O1', flags=['-DMULTICORE', '-fopenmp'], ldflags=WRAP + ['-fopenmp'], env={'OMP_NUM_THREADS': '1'}, shards=8)],
    level_note='complete over the stated words; one thread (the threaded accounts are C22)')

WRAPS = ['-Wl,' + ','.join('--wrap=' + w for w in ['__gmpn_' + f for f in 'copyi copyd com add_n sub_n mul_1 addmul_1 submul_1 mul_n mul sqr zero lshift rshift tdiv_qr gcdext'.split()] + ['memcpy', 'memmove', 'memset', 'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_once'])] + ['-rdynamic']
CLANG = ['CXX=clang++'] # instruments every store, also those of values returned by calls
SCHED = dict(plain=['sched_rt.cpp'], undef=PORT,  opt='-O1', ldflags=WRAPS, libs=['-lpthread'])
CHECKS['C22'] = dict(
    technique='stateless model checking of the real MULTICORE build under a controlled OpenMP run-time: all thread counts and iteration assignments, all interleavings of synchronisation operations within a preemption bound, every memory access of every execution recorded and checked for data races by vector clocks (race-free programs are decided by their synchronisation orders)',
    bounds='1..4 (6) threads, every assignment of iterations to up to 3 (4) threads, preemption bound 2 (3), 1..5 (8) terms, 1..4 (6) chunks, 4 methods; 33..300 terms x 3..64 chunks and batches of 40 and 100 without preemption; batch_exp with and without coefficient, profiling off / counting / printing, with and without USE_MIXED_ADDITION; tiny curves of the five families',
    bins=[dict(SCHED, name='omp', src='c22_multicore.cpp', flags=CLANG + ['-DMULTICORE', '-fopenmp', '-fsanitize=thread'], shards=16),
          dict(SCHED, name='omp_mixed', src='c22_multicore.cpp', flags=CLANG + ['-DMULTICORE', '-fopenmp', '-DUSE_MIXED_ADDITION', '-fsanitize=thread'], shards=16)],
    level_note='complete within the bounds at the granularity of synchronisation operations, which is exact for executions shown free of data races',
    assumptions=['memory accesses inside GMP other than its wrapped entry points and inside libstdc++.so are atomic steps', 'sequentially consistent memory'])
CHECKS['C21'] = dict(
    technique='stateless model checking of the real code: pairs of operations run by two real threads under a controlled scheduler, all interleavings of synchronisation operations within a preemption bound, every memory access of every execution recorded and checked for data races by vector clocks (race-free programs are decided by their synchronisation orders); plus one thread stopped before every machine instruction while the other runs',
    bounds='~560 operations of all fields, groups, pairings, serialisation, sampling and utilities, each in two variants with different inputs; every operation against itself from a fresh start, warm and with profiling counters on; all pairs of one type (thorough: all pairs); preemption bound 2 (3); at machine level every instruction of operations up to 20000 (3000000) instructions',
    bins=[dict(SCHED, name='conc', src='c21_conc.cpp', flags=CLANG + ['-fsanitize=thread'], shards=16),
          dict(name='step', src='c21_step.cpp', libs=['-lpthread'], opt='-O2', shards=16)],
    level_note='complete within the bounds at the granularity of synchronisation operations, which is exact for executions shown free of data races',
    assumptions=['memory accesses inside GMP other than its wrapped entry points and inside libstdc++.so are not recorded by the first program (the second one covers them)', 'sequentially consistent memory'])

SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-DVF_SAN', '-D_GLIBCXX_ASSERTIONS', '-g1']
SANENV = {'ASAN_OPTIONS': 'handle_segv=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:handle_sigbus=0:detect_leaks=0:allocator_may_return_null=1', 'UBSAN_OPTIONS': 'print_stacktrace=1'}
def san(name, src, shards=8, opt='-O1', **kw):
    return dict(name=name, src=src, flags=SAN + kw.pop('flags', []), ldflags=([] if name[2:5] in ('c05', 'c06', 'c24') else WRAP) + ['-fsanitize=address,undefined'], opt=opt, env=SANENV, nolimit=True, shards=shards, **kw)
CHECKS['C25'] = dict(
    technique='exhaustive enumeration of executions of the real code under memory and arithmetic monitors: the explorations of C01-C16, C18-C20 and C24 run again with every load, store, shift, addition, conversion and pointer checked (AddressSanitizer, UndefinedBehaviorSanitizer), and every operation of every type under memcheck for reads of memory nobody wrote',
    bounds='quick: of every sliced exploration the first slice and, for groups, multi-exponentiation and final exponentiation, 1/4 to 1/18 of the inputs; thorough: the complete quick bounds of those properties; initialised memory: ~560 operations in two variants, the explorations of C07, C19 and C24 (thorough: also C06, C10, C13, C18, C20) under memcheck, and 6 fill patterns of stack and heap',
    level_note='complete within the bounds; accesses inside GMP, OpenSSL and libsodium are seen only by the memcheck run; results themselves are judged by the other properties',
    bins=[san('s_' + n, n + '.cpp') for n in 'c19_streams c01_fp c02_towers c03_short c04_sqrt c05_gf2 c06_bigint c07_words c08_roots c09_group c10_norm c11_scalar c12_multiexp c13_fixedbase c14_wf c15_pairing c16_variants c18_serial c20_random c24_utils c23_profiling c17_params'.split()]
        + [dict(name='init', src='c25_init.cpp', opt='-O1', flags=['-g1'], wrap=['valgrind', '-q', '--error-limit=no'], nolimit=True, shards=4),
           *[dict(name='m_' + n, src=n + '.cpp', opt='-O1', flags=['-g1', '-DVF_SAN'], ldflags=[] if n[:3] in ('c06', 'c24') else WRAP, wrap=['valgrind', '-q', '--exit-on-first-error=yes', '--error-exitcode=99'], nolimit=True, shards=8, tiers=('quick', 'thorough') if n[:3] in ('c07', 'c19', 'c24') else ('thorough',)) for n in 'c06_bigint c07_words c10_norm c13_fixedbase c18_serial c19_streams c20_random c24_utils'.split()],
           dict(name='fill', src='c25_init.cpp', opt='-O2', shards=2)])
CHECKS['C26'] = dict(
    technique='exhaustive enumeration of operands (complete grids of Gaussian integers, all exponents within a magnitude, all roots of unity to an order) executed on the real class against exact integer arithmetic',
    bounds='all pairs with parts in -10..10 (24 thorough); unary operations for parts in -300..300 x -60..60; powers of all bases with parts in -12..12 while the result stays below 10^9, of the units to exponent 20000; integers to 200000 (2000000) and 2^i+{-1,0,1} for i<=52; roots of unity of every order to 700 (4000)',
    level_note='complete over the grids; rounding is judged to a relative error of 1e-9',
    bins=[dict(name='double', src='c26_double.cpp', opt='-O1', shards=8), dict(name='O3', src='c26_double.cpp', opt='-O3', shards=8)])
