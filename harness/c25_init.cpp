// C25, initialised memory: every operation of every type in both variants under memcheck; each run's result bytes must be
// defined and no branch or address may depend on memory nobody wrote. Without valgrind around it: each operation is run over
// a stack and a heap filled with each of several patterns and has to answer the same bytes.
#include "vf.hpp"
#define SINK_BYTES (1 << 20)
#include "conc_ops.hpp"
#include <malloc.h>
#include <libff/common/rng.hpp>
#include <sodium/randombytes.h>
#include <valgrind/memcheck.h>
using namespace vf; using namespace conc;
namespace conc {
__thread uint64_t rnd_state;
uint32_t rnd_word() { rnd_state = rnd_state * 6364136223846793005ull + 1442695040888963407ull; return (uint32_t)(rnd_state >> 33); }
}
unsigned int std::random_device::_M_getval() { return rnd_word(); }
unsigned int std::random_device::_M_getval_pretr1() { return rnd_word(); }
void std::random_device::_M_init(const std::string &) {}
void std::random_device::_M_fini() {}
extern "C" void randombytes_buf(void *const buf, const size_t size) { unsigned char *p = (unsigned char *)buf; for (size_t i = 0; i < size; i++) p[i] = (unsigned char)rnd_word(); }
extern "C" uint32_t randombytes_random(void) { return rnd_word(); }
static void __attribute__((noinline)) fill_stack(int c) { volatile char b[1 << 17]; for (size_t i = 0; i < sizeof b; i++) b[i] = (char)c; }
static void __attribute__((noinline)) run_op(const Op &p, int v, Sink &o, int c) { mallopt(M_PERTURB, c ^ 0xff); o.n = 0; o.over = false; o.put((char)1); fill_stack(c); p.f(v, o); }
// more shapes than the concurrent operations need: every size of list, integer and window
template<mp_size_t n> void bigint_ops()
{
    grp() = "bigint" + std::to_string(n);
    OP("construct", 0, bigint<n> a; o.put(a); bigint<n> b(num(v, 1)); o.put(b); bigint<n> c(v ? "0" : "12345678901234567"); o.put(c); mpz_t z; mpz_init_set_ui(z, num(v, 2)); bigint<n> d(z); o.put(d); d.to_mpz(z); o.put((uint64_t)mpz_get_ui(z)); mpz_set_ui(z, 0); bigint<n> e(z); o.put(e); mpz_clear(z););
    OP("query", 0, bigint<n> b(num(v, 1)); o.put((uint64_t)b.num_bits()); o.put((uint64_t)b.max_bits()); o.put((uint64_t)b.as_ulong()); for (size_t i = 0; i < 64 * n + 70; i++) o.put(b.test_bit(i)); o.put(b.is_zero()); o.put(b == bigint<n>()); o.put(b != bigint<n>()); b.clear(); o.put(b); o.put((uint64_t)b.num_bits()););
    OP("stream", 1, std::stringstream s; bigint<n> b(num(v, 1)), c; s << b; o.put(s.str()); s >> c; o.put(c););
    OP("random", 1, seed(v); bigint<n> b; b.randomize(); o.put(b););
    OP("wnaf", 1, for (size_t w = 1; w < 9; w++) for (unsigned long k : {0ul, 1ul, 2ul, 3ul, (unsigned long)num(v, 1), ~0ul}) o.put((uint64_t)find_wnaf<n>(w, bigint<n>(k)).size()); bigint<n> t; for (int i = 0; i < n; i++) t.data[i] = ~0ul; std::vector<long> r = find_wnaf<n>(4, t); o.put(r););
}
template<class F> void shape_field(const char *g)
{
    grp() = g; typedef In<F> I;
    OP("batch sizes", 1, for (size_t k = 0; k < 6; k++) { std::vector<F> x(k, I::a[v]); if (k > 1) x[k - 1] = I::b[v]; batch_invert<F>(x); o.put(x); });
    OP("inner product sizes", 1, for (size_t k = 0; k < 6; k++) { std::vector<F> x(k, I::a[v]), y(k, I::b[v]); o.put(inner_product<F>(x.begin(), x.end(), y.begin(), y.end())); });
    OP("bit vectors", 1, for (size_t k = 0; k < 70; k += 1 + k / 4) { bit_vector b(k, v == 0); if (k < F::ceil_size_in_bits()) o.put(convert_bit_vector_to_field_element<F>(b)); for (size_t ch : {1, 3, 64, 200}) o.put(pack_bit_vector_into_field_element_vector<F>(b, ch)); o.put(convert_bit_vector_to_field_element_vector<F>(b)); });
    OP("bits of vectors", 1, for (size_t k = 0; k < 3; k++) { std::vector<F> x(k, I::a[v]); o.put(convert_field_element_vector_to_bit_vector<F>(x)); });
    OP("hash", 1, for (uint64_t k = 0; k < 6; k++) o.put(SHA512_rng<F>(k * 1000 + v)););
    OP("zero and one", 0, F z = F::zero(), e = F::one(), d; o.put(z * I::a[v]); o.put(e.inverse()); o.put(d == z); o.put(d); o.put(z.squared()); o.put(-z); o.put(z.sqrt()); o.put(e.sqrt()); o.put(z ^ 0ul););
}
template<class G, class Fr> void shape_group(const char *g)
{
    grp() = g; typedef Pt<G> I;
    OP("identities", 1, G z = G::zero(), d; o.put(z + z); o.put(z - I::p[v]); o.put(I::p[v] + z); o.put(z.dbl()); o.put(-z); o.put(z == d); o.put(z.is_zero()); o.put(d.is_well_formed()); o.put(I::p[v] - I::p[v]); o.put((I::p[v] - I::p[v]).is_zero()); z.to_affine_coordinates(); o.put(z); z.to_special(); o.put(z); o.put(z.is_special()););
    OP("batches", 2, for (size_t k = 0; k < 4; k++) { std::vector<G> x(k, I::p[v]); if (k) x[k - 1] = G::zero(); if (k > 2) x[0] = I::aff[v]; batch_to_special<G>(x); o.put(x); });
    OP("lists", 3, for (size_t k = 0; k < 5; k++) for (size_t ch : {1, 2, 7}) { std::vector<G> x(k, I::aff[v]); std::vector<Fr> s(k, Fr((long)num(v, 3))); if (k) s[0] = Fr::zero(); if (k > 1) s[1] = -Fr::one(); if (k > 2) x[2] = G::zero();
        o.put(multi_exp<G, Fr, multi_exp_method_naive>(x.begin(), x.end(), s.begin(), s.end(), ch)); o.put(multi_exp<G, Fr, multi_exp_method_bos_coster>(x.begin(), x.end(), s.begin(), s.end(), ch)); o.put(multi_exp<G, Fr, multi_exp_method_BDLO12>(x.begin(), x.end(), s.begin(), s.end(), ch)); o.put(multi_exp_with_mixed_addition<G, Fr, multi_exp_method_BDLO12>(x.begin(), x.end(), s.begin(), s.end(), ch)); });
    OP("windows", 3, for (size_t sz : {1, 5, 64, 70}) for (size_t w : {1, 2, 5}) { auto t = get_window_table<G>(sz, w, I::p[v]); Fr x((long)(num(v, 0) & ((1ul << (sz > 60 ? 60 : sz)) - 1))); o.put(windowed_exp<G, Fr>(sz, w, t, x)); o.put(batch_exp<G, Fr>(sz, w, t, std::vector<Fr>())); o.put(batch_exp_with_coeff<G, Fr>(sz, w, t, Fr::one(), std::vector<Fr>(2, x))); });
    OP("scalars", 3, Fr m = -Fr::one(); o.put(m * I::p[v]); o.put(Fr::zero() * I::p[v]); o.put(opt_window_wnaf_exp<G>(I::p[v], m.as_bigint(), m.as_bigint().num_bits())); for (size_t w = 1; w < 7; w++) o.put(fixed_window_wnaf_exp<G>(w, I::q[v], bigint<1>(num(v, 4)))););
    OP("read and write", 2, std::stringstream s; s << G::zero() << OUTPUT_NEWLINE << -I::p[v] << OUTPUT_NEWLINE; o.put(s.str()); G x, y; s >> x; consume_OUTPUT_NEWLINE(s); s >> y; o.put(x); o.put(y););
}
template<class P> void shape_pairing(const char *g)
{
    grp() = g; typedef Pt<typename P::G1_type> A; typedef Pt<typename P::G2_type> B;
    OP("identities", 3, auto O1 = P::G1_type::zero(); auto O2 = P::G2_type::zero(); o.put(P::reduced_pairing(O1, B::p[v])); o.put(P::reduced_pairing(A::p[v], O2)); o.put(P::pairing(O1, O2)););
    OP("reuse", 3, auto a = P::precompute_G1(A::p[v]); auto b = P::precompute_G2(B::p[v]); auto a2 = a; decltype(b) b2; b2 = b; o.put(P::miller_loop(a2, b2)); a2 = P::precompute_G1(A::q[v]); o.put(P::double_miller_loop(a, b, a2, b2)); o.put(a == a2); o.put(b == b2););
}
void shapes()
{
    bigint_ops<1>(); bigint_ops<2>(); bigint_ops<3>(); bigint_ops<5>(); bigint_ops<8>();
#define SF(F) shape_field<F>(#F);
    SF(alt_bn128_Fr) SF(alt_bn128_Fq) SF(bls12_381_Fr) SF(bls12_381_Fq) SF(edwards_Fr) SF(edwards_Fq) SF(mnt4_Fr) SF(mnt4_Fq) SF(mnt6_Fr) SF(mnt6_Fq)
#define SG(c) shape_group<c##_G1, c##_Fr>(#c "_G1"); shape_group<c##_G2, c##_Fr>(#c "_G2"); shape_pairing<c##_pp>(#c);
    SG(alt_bn128) SG(bls12_381) SG(edwards) SG(mnt4) SG(mnt6)
}
VF_MAIN([]() {
    all_ops(); shapes(); for (auto f : setups()) f();
    bool vg = RUNNING_ON_VALGRIND; size_t n = ops().size();
    for (size_t a = 0; a < n; a++) {
        const Op &A = ops()[a]; if (!unit("%s", A.name.c_str())) continue;
        for (int v = 0; v < 2; v++) {
            static Sink want, got; at("%s variant %d", A.name.c_str(), v); state(); trace();
            if (vg) {
                unsigned e0 = VALGRIND_COUNT_ERRORS; got.n = 0; got.over = false; got.put((char)1); A.f(v, got);
                VF_CHECK(!got.over && VALGRIND_CHECK_MEM_IS_DEFINED(got.b, got.n) == 0, A.name, "variant %d: the result holds bytes nobody wrote", v);
                VF_CHECK(VALGRIND_COUNT_ERRORS == e0, A.name, "variant %d: memcheck reports a read of memory nobody wrote or outside live objects", v);
                continue;
            }
            run_op(A, v, want, 0);
            for (int c : {0x55, 0xaa, 0xff, 0x01, 0x80}) { run_op(A, v, got, c); VF_CHECK(!got.over && got.n == want.n && !memcmp(got.b, want.b, got.n), A.name, "variant %d: another result over memory filled with %02x", v, c); }
        }
    }
})
