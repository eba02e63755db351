import sys,json,glob,os
sys.path.insert(0,'/verif'); from checks import CHECKS
props={json.loads(l)['id']:json.loads(l) for l in open('/verif/properties.jsonl')}
D='''# DESIGN: model checking libff

## Approach

libff is a library of fixed algorithms over huge but regular sets of values; apart from its profiler, its streams, its
parameter initialisation and its OpenMP regions it has no state.  Model checking it therefore means **exhaustive enumeration
of executions of the real code inside stated bounds**, each execution compared with a plain reference (GMP integers,
schoolbook quotient rings, carry-less polynomial arithmetic, affine groups and discrete-log tables, a reference profiler,
byte-exact replay).  There is no separate model that could drift from the code: every transition is an execution of the
implementation, so `traces_validated_against_impl` in the evidence counts executions of the real code.

Five kinds of space are enumerated:

* **Values, by re-parameterisation.**  Every modulus, tower, curve and pairing parameter of libff is a run-time global.  The
  harnesses compile libff's own sources and give the *shipped classes* (`alt_bn128_G1`, `mnt6_Fq3`,
  `Fp12_2over3over2_model`, ...) tiny primes and tiny curves of the same family (`harness/curves.hpp`: BN, BLS12, MNT4, MNT6
  and Edwards curves found by construction, with their twists, loop counts, Frobenius constants and final-exponent chunks).
  All elements, points, projective scalings, scalars and pairing inputs are then finite sets of 10^2..10^7 members, visited
  completely.  Each family is used with several parameters (positive and negative, different residues) because a formula
  may be right by accident on one.
* **Values, by corner alphabets.**  For word-level machinery (assembly carries, limb boundaries, Montgomery reduction) an
  alphabet is built per limb from {0, 1, 2^63, 2^64-1, limbs of the modulus and neighbours, ...}; all combinations (and all
  pairs) are visited for shipped moduli and for synthetic worst-case moduli.  Bilinear operations over GF(2) are decided by all
  pairs of monomials.
* **Histories.**  Words over an alphabet of operations or typed values: streams (C19), profiler calls (C23),
  initialisations in fresh processes (C17), representations reached by group operations (C09 closure), reuse of objects and
  precomputations (C16, C18).
* **The environment's answers.**  Random sources and clocks are replaced by scripted ones and their outputs enumerated (C20, C23).
* **Schedules.**  A controlled scheduler runs real threads one at a time and explores every choice at synchronisation
  operations within a preemption bound (C21, C22, `harness/sched_rt.cpp`).  The library is compiled with clang's
  ThreadSanitizer instrumentation, but linked with *our* run-time: every load and store of every execution goes into a
  vector-clock race detector.  Executions free of races are determined by the order of their synchronisation operations, so
  exploring those orders is exact; a race is itself a violation.  (clang, because gcc does not instrument the stores of
  values returned by calls.  GMP's entry points and memcpy/memmove/memset are wrapped so that their accesses count.
  Memory returned by the allocator is treated as fresh.  Caps on schedules are reported as notes in the evidence.)  A second
  program runs the ordinary optimised build under the trap flag and stops one thread before each of its machine
  instructions while another thread runs an operation from start to end; it covers assembly and GMP internals.

C25 adds monitors instead of oracles: the same enumerations run under AddressSanitizer, UndefinedBehaviorSanitizer,
libstdc++ container assertions and memcheck.

**Configurations** (assembly/portable, minimised carry-less multiplications, binary/decimal, Montgomery/plain,
compressed/uncompressed, mixed addition, low memory, multicore) are separate builds of the same harness.

**Driver.**  `run.py <id> <quick|thorough>` compiles library sources and harness out of tree from /repo's working tree (objects
cached by content under /verif/.build, which git ignores), runs the shards on all cores, replays each reported violation in a fresh
process and prints it only if it shows again, and writes evidence/<id>.json.  `--replay FILE` re-runs one.  A hang (no
progress for 40 s of CPU) and a crash are violations of the property whose exploration met them (not in C25).  Known
findings are passed to the harness by key; any other key is reported.

Oracle independence: references never call the code under test; curve arithmetic in the reference is affine over
schoolbook extensions; pairings are judged by bilinearity tables and defining relations, not by a second pairing implementation.

## Per property

'''
for i in sorted(props):
    c=CHECKS[i]; D+='### %s: %s\n\n*Method:* %s.\n\n*Bounds:* %s.\n\n*Strength:* %s.\n\n*Why tests cannot:* %s\n\n'%(i,props[i]['title'],c['technique'],c['bounds'],c['level_note'],props[i]['why_tests_cant'])
D+='''## Domains and deliberate limits

What each check does *not* judge, and why; most were found when a first version raised an alarm on correct code.

* Field moduli must leave a spare bit (the assembly adds without an outgoing carry): full-width moduli were dropped from C01 and C07.
  C20 keeps them where the code supports them.
* C04: termination is judged by a CPU-time watchdog. sqrt of a non-square is outside the domain (it does not return).
* C07: word lists longer than the field needs are not judged: Fp reads the *last* n words, the binary fields the *first* n.
* C08: the coset shift is judged only for fields whose order minus one is not a power of two.
* C09: whole-curve units exclude points of order two (the projective formulas assume odd order).
* C12: chunks = 0 and unequal lengths are precondition violations; a USE_MIXED_ADDITION build requires bases in special form.
* C13: in batch_exp_with_coeff the product coefficient*scalar is a field product, i.e. reduced; unreduced sums are out of contract.
* C16: the precomputed identity is judged on the shipped curves only; six combinations fail and are the known findings below.
* C17: the edwards loop count is |t-1| (sign handled by its flag); BN/BLS `twist_mul_by_b_c0/c1` have no definition beyond their
  use in `mul_by_b`, which is judged.
* C18: edwards points with xy = 0 (not expressible by the inverted coordinates) are excluded; the BN twists have no point with x = 0.
* C19: text mode requires the caller's separators as libff itself writes them; malformed input is outside the domain everywhere.
* C23: with counters suppressed a run may still print progress text (only block lines are judged); leaving a block whose enter had no effect
  is outside the domain.
* C24: two's complement with w = 64 is outside the domain; FORMAT truncates at 256 characters, and how much it keeps is not judged.
* C25: accesses inside GMP, OpenSSL and libsodium are seen by memcheck only; quick thins the explorations as stated in its bounds.
* C21/C22: sequentially consistent memory; libstdc++.so internals are not recorded by the race detector (the single-stepping program runs over them).
* Not covered: the bn128 curve (depends/ate-pairing is an empty submodule: it cannot be compiled), builds with debug assertions (they do not
  compile: `edwards_pairing.cpp`/`mnt*_pairing.cpp` use asserts on missing members), PROFILE_OP_COUNTS (does not link), the `Double`
  toy domain except through C26, print methods.
* Nothing is listed under not_applicable: every property above is decided by enumeration of executions.

## Defects found in libff

Repaired (`fix:` commits in /repo; the list with inputs is known_findings.txt):

'''
for l in open('/verif/known_findings.txt'):
    if l.startswith('fixed:'):
        _,p,h,*r=l.split(None,3); D+='* %s `%s` %s'%(p.split('=')[1],h,r[0] if r else '\n')
D+='''
Recorded, not repaired (C16, keys `<curve>.precomp-identity.<P|Q>`): the Miller loop on the *precomputed form of the identity* does not reduce to
one for alt_bn128.Q, bls12_381.Q, mnt4.P, mnt4.Q, mnt6.P and edwards.Q.  The precomputed forms are affine and cannot carry the identity; a repair
needs a new member in the serialised precomputation types (a format change).  The one-step pairing functions were repaired (e33eecf).

Noticed and left: `operator>>(std::ostream&, std::vector<T>&)` in serialization.hpp is a declaration with the wrong stream type that nothing defines or uses.

## Planted bugs

Each directory of seeded/ (and seeded_tcc/) holds patch, demonstration and meta.json; each was validated in a scratch copy (builds, 29 stable tests pass, demo passes
without and fails with the patch).  seeded_tcc/ holds changes to `.tcc` template files, which vcheck's "non-test source files" filter
does not count; they are kept because most of the arithmetic lives there.  All of them are caught by the check of their property:

| planted bug | property | needs | outcome |
|---|---|---|---|
'''
for d in sorted(glob.glob('/verif/seeded/*'))+sorted(glob.glob('/verif/seeded_tcc/*')):
    m=json.load(open(d+'/meta.json')); n=os.path.relpath(d,'/verif')
    D+='| %s | %s | %s | caught |\n'%(n.replace('seeded/','').replace('seeded_tcc/','tcc/'),m['property'],m['needs'])
D+='''
What missed bugs taught (checks strengthened since): special scalings (Z = -1, Z in the base field, Z = Y, Z opposite to the partner's), points of the whole curve
instead of the subgroup only (C09), pairs sharing one coordinate (C16), representations with non-trivial coefficients (C15), triples with small
entries (C14), reading into used objects (C18, C19), the minimised carry-less multiplier (C05), race detection in place of result comparison (C21, C22), empty
batches (C23), full-width moduli and order of calls (C20), texts beyond the buffer and container bounds (C25).

Planted changes dropped because the change breaks no stated property: `c18_half` (needs a point with x = 0 on a BN twist; there is none),
`c07_gf256_words` (over-long word lists, see the domains above), `c25_twos`, `c25_dangling` (only with other loop counts than the shipped ones).

## Costs

Quick checks take 10 to 130 s each from cold on 8 cores, C12 about 225 s, C25 about 500 s (most of it compiling instrumented harnesses).  Thorough: minutes to about an hour each.
'''
open(sys.argv[1],'w').write(D)
