// The operations whose concurrent use is explored (C21). Every operation exists in two variants with different inputs;
// inputs live in memory mapped before anything runs and filled by a child process, so that the explored executions
// start with nothing of the library used but its parameter initialisation.
#pragma once
#include <cstring>
#include <functional>
#include <random>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <libff/algebra/curves/alt_bn128/alt_bn128_pp.hpp>
#include <libff/algebra/curves/bls12_381/bls12_381_pp.hpp>
#include <libff/algebra/curves/edwards/edwards_pp.hpp>
#include <libff/algebra/curves/mnt/mnt4/mnt4_pp.hpp>
#include <libff/algebra/curves/mnt/mnt6/mnt6_pp.hpp>
#include <libff/algebra/field_utils/field_utils.hpp>
#include <libff/algebra/fields/binary/gf32.hpp>
#include <libff/algebra/fields/binary/gf64.hpp>
#include <libff/algebra/fields/binary/gf128.hpp>
#include <libff/algebra/fields/binary/gf192.hpp>
#include <libff/algebra/fields/binary/gf256.hpp>
#include <libff/algebra/scalar_multiplication/multiexp.hpp>
#include <libff/algebra/scalar_multiplication/wnaf.hpp>
#include <libff/common/profiling.hpp>
#include <libff/common/rng.hpp>
#include <libff/common/serialization.hpp>
#include <libff/common/utils.hpp>
namespace conc {
using namespace libff;
#ifndef SINK_BYTES
#define SINK_BYTES 6000
#endif
struct Sink {
    size_t n = 0; bool over = false; unsigned char b[SINK_BYTES];
    void raw(const void *p, size_t k) { if (n + k > sizeof b) { over = true; return; } const unsigned char *q = (const unsigned char *)p; for (size_t i = 0; i < k; i++) b[n + i] = q[i]; n += k; }
    template<class T> void put(const T &t) { raw(&t, sizeof t); }
    void put(bool t) { unsigned char c = t; raw(&c, 1); }
    void put(const std::string &s) { raw(s.data(), s.size()); }
    template<class T> void put(const std::vector<T> &v) { size_t k = v.size(); raw(&k, sizeof k); for (const auto &x : v) put(x); }
    void put(const std::vector<bool> &v) { size_t k = v.size(); raw(&k, sizeof k); for (bool x : v) put(x); }
};
struct Op { std::string name; void (*f)(int, Sink &); int weight; std::string group; };
inline std::vector<Op> &ops() { static std::vector<Op> v; return v; }
inline std::vector<void (*)()> &setups() { static std::vector<void (*)()> v; return v; }
template<class T> struct Sh { T *p; Sh() { p = (T *)mmap(nullptr, sizeof(T) * 2, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); } const T &operator[](int v) const { return p[v]; } T &set(int v) { return p[v]; } };

// ---- every thread has its own stream of random words
extern __thread uint64_t rnd_state;
inline void seed(int v) { rnd_state = 0x1234567 + 977 * (uint64_t)v; }
uint32_t rnd_word();

inline std::string &grp() { static std::string s; return s; }
// nothing to report is reported as one byte
#define OP(nm, w, ...) ops().push_back({grp() + "." + nm, [](int v, Sink &o) { (void)v; (void)o; __VA_ARGS__ }, w, grp()})

inline uint64_t num(int v, int i) { static const uint64_t t[2][6] = {{7, 0x12345678, 12, 3, 0xbeef, 1000003}, {11, 0x9abcdef1, 19, 4, 0xcafe, 777777}}; return t[v][i]; }
template<class F> F expand(uint64_t x) { F f; std::vector<uint64_t> w((F::ceil_size_in_bits() + 63) / 64); for (auto &q : w) { x = x * 6364136223846793005ull + 1442695040888963407ull; q = x ^ x >> 29; } while (!f.from_words(w)) for (auto &q : w) { x = x * 6364136223846793005ull + 1442695040888963407ull; q = x ^ x >> 29; } return f; }

template<class F> struct In { static Sh<F> a, b, c, sq; static void fill() { for (int v = 0; v < 2; v++) { a.set(v) = expand<F>(101 + v); b.set(v) = expand<F>(202 + v); c.set(v) = expand<F>(303 + v); sq.set(v) = a[v] * a[v]; } } };
template<class F> Sh<F> In<F>::a; template<class F> Sh<F> In<F>::b; template<class F> Sh<F> In<F>::c; template<class F> Sh<F> In<F>::sq;

template<class F> void field_ops(const char *g, bool has_sqrt, int iw, int sw)
{
    grp() = g; setups().push_back(&In<F>::fill); typedef In<F> I;
    OP("add", 0, o.put(I::a[v] + I::b[v]);); OP("sub", 0, o.put(I::a[v] - I::b[v]);); OP("mul", 0, o.put(I::a[v] * I::b[v]);); OP("neg", 0, o.put(-I::a[v]););
    OP("assigning", 0, F x = I::a[v]; x += I::b[v]; x *= I::c[v]; x -= I::a[v]; x.square(); o.put(x););
    OP("squared", 0, o.put(I::a[v].squared()););
    OP("pow", 1, o.put(I::a[v] ^ (unsigned long)num(v, 0)); o.put(I::a[v] ^ bigint<1>(num(v, 2))););
    OP("equal", 0, F z = I::a[v]; o.put(z == I::a[v]); o.put(z != I::b[v]); o.put(z.is_zero()); z.clear(); o.put(z.is_zero()); o.put(F::zero()); o.put(F::one()););
    ops().push_back({grp() + ".inverse", [](int v, Sink &o) { o.put(I::a[v].inverse()); F x = I::b[v]; x.invert(); o.put(x); }, iw, grp()});
    if (has_sqrt) ops().push_back({grp() + ".sqrt", [](int v, Sink &o) { o.put(I::sq[v].sqrt()); }, sw, grp()});
    OP("words", 1, auto w = I::a[v].to_words(); F x; o.put((bool)x.from_words(w)); o.put(x); o.put(w););
    OP("random", 1, seed(v); o.put(F::random_element()); F x; x.randomize(); o.put(x););
    OP("stream", 2, std::stringstream s; s << I::a[v] << OUTPUT_NEWLINE << I::b[v] << OUTPUT_NEWLINE; o.put(s.str()); F x, y; s >> x; consume_OUTPUT_NEWLINE(s); s >> y; o.put(x); o.put(y););
    OP("batch_invert", 2, std::vector<F> x = {I::a[v], I::b[v], I::c[v]}; batch_invert<F>(x); o.put(x););
}
template<class F> void prime_ops(const char *g)
{
    field_ops<F>(g, true, 1, 2); typedef In<F> I;
    OP("integer", 0, o.put(F((long)num(v, 1))); o.put(F(-(long)num(v, 2))); F x; x.set_ulong(num(v, 4)); o.put(x););
    OP("from_bigint", 0, o.put(F(bigint<F::num_limbs>(num(v, 5)))););
    OP("as_bigint", 0, o.put(I::a[v].as_bigint()); o.put(I::b[v].as_ulong()););
    OP("Frobenius_map", 0, o.put(I::a[v].Frobenius_map(v + 1)););
    OP("bits", 2, bit_vector b = convert_field_element_to_bit_vector<F>(I::a[v]); o.put(b); o.put(convert_bit_vector_to_field_element<F>(b)); std::vector<F> p = pack_bit_vector_into_field_element_vector<F>(b, 70 + v); o.put(p););
    OP("root_of_unity", 2, if (F::s < 4) return; o.put(get_root_of_unity<F>(1ul << (3 + v))); o.put(coset_shift<F>()););
    OP("SHA512_rng", 2, o.put(SHA512_rng<F>(num(v, 1))););
    OP("decimal", 2, F x = F(bigint<F::num_limbs>(v ? "123456789012345678901234567890" : "98765432109876543210987654321")); o.put(x););
    OP("power_vector", 1, o.put(power<F>(I::a[v], std::vector<unsigned long long>{num(v, 0), 0})););
}
template<class F> void tower_ops(const char *g, bool has_sqrt) { field_ops<F>(g, has_sqrt, 1, 2); typedef In<F> I; OP("Frobenius_map", 0, o.put(I::a[v].Frobenius_map(1)); o.put(I::b[v].Frobenius_map(v + 2));); OP("mul_by_non_residue", 0, o.put(F::mul_by_non_residue(I::a[v].c0));); }
template<class F> void small_tower_ops(const char *g) { field_ops<F>(g, true, 1, 2); typedef In<F> I; OP("Frobenius_map", 0, o.put(I::a[v].Frobenius_map(1)); o.put(I::b[v].Frobenius_map(v + 2));); OP("scale", 0, o.put(I::a[v].c0 * I::b[v]);); }
template<class F> void cyclo_ops() { typedef In<F> I; OP("unitary", 1, o.put(I::a[v].unitary_inverse()); o.put(I::b[v].cyclotomic_squared()); o.put(I::a[v].cyclotomic_exp(bigint<1>(num(v, 2))));); }

template<class G> struct Pt { static Sh<G> p, q, aff; static void fill() { for (int v = 0; v < 2; v++) { p.set(v) = (bigint<1>(5 + 2 * v)) * G::one(); q.set(v) = (bigint<1>(13 + 5 * v)) * G::one(); aff.set(v) = (bigint<1>(29 + 5 * v)) * G::one(); aff.set(v).to_special(); } } };
template<class G> Sh<G> Pt<G>::p; template<class G> Sh<G> Pt<G>::q; template<class G> Sh<G> Pt<G>::aff;
template<class G, class Fr, multi_exp_method M> void mexp(int v, Sink &o, bool special)
{
    typedef Pt<G> I; std::vector<G> g = {I::p[v], I::q[v], I::aff[v], I::p[v]}; if (special) batch_to_special<G>(g);
    std::vector<Fr> s = {Fr((long)num(v, 0)), Fr((long)num(v, 2)), Fr((long)1), Fr((long)num(v, 3))};
    o.put(multi_exp<G, Fr, M>(g.begin(), g.end(), s.begin(), s.end(), 1 + v)); if (special) o.put(multi_exp_with_mixed_addition<G, Fr, M>(g.begin(), g.end(), s.begin(), s.end(), 1));
}
template<class G> void group_ops(const char *g)
{
    typedef Pt<G> I; typedef typename G::scalar_field Fr; grp() = g; setups().push_back(&I::fill);
    OP("add", 1, o.put(I::p[v] + I::q[v]); o.put(I::p[v].add(I::aff[v])););
    OP("sub", 1, o.put(I::p[v] - I::q[v]); o.put(-I::q[v]););
    OP("mixed_add", 1, o.put(I::p[v].mixed_add(I::aff[v])););
    OP("dbl", 1, o.put(I::p[v].dbl()););
    OP("compare", 1, o.put(I::p[v] == I::q[v]); o.put(I::p[v] != I::aff[v]); o.put(I::p[v].is_zero()); o.put(I::aff[v].is_special()); o.put(G::zero()); o.put(G::one()););
    OP("to_affine", 2, G x = I::p[v]; x.to_affine_coordinates(); o.put(x); x = I::q[v]; x.to_special(); o.put(x););
    OP("well_formed", 1, o.put(I::p[v].is_well_formed()););
    OP("scalar_mul", 1, o.put(bigint<1>(num(v, 3)) * I::p[v]););
    OP("scalar_field_mul", 2, o.put(Fr((long)num(v, 4)) * I::p[v]););
    OP("wnaf", 2, o.put(opt_window_wnaf_exp<G>(I::p[v], bigint<1>(num(v, 4)), 16 + v)); o.put(fixed_window_wnaf_exp<G>(3 + v, I::q[v], bigint<1>(num(v, 4)))); o.put(find_wnaf<1>(3, bigint<1>(num(v, 1)))););
    OP("batch_to_special", 2, std::vector<G> x = {I::p[v], I::q[v], I::aff[v], G::zero()}; x.resize(3 + v % 1); batch_to_special<G>(x); o.put(x););
    OP("multi_exp.naive", 2, mexp<G, Fr, multi_exp_method_naive>(v, o, false);); OP("multi_exp.naive_plain", 2, mexp<G, Fr, multi_exp_method_naive_plain>(v, o, false););
    OP("multi_exp.bos_coster", 2, mexp<G, Fr, multi_exp_method_bos_coster>(v, o, false);); OP("multi_exp.BDLO12", 2, mexp<G, Fr, multi_exp_method_BDLO12>(v, o, true););
    OP("fixed_base", 2, size_t w = 2 + v; auto t = get_window_table<G>(8, w, I::p[v]); Fr x((long)num(v, 2)); o.put(windowed_exp<G, Fr>(8, w, t, x)); o.put(batch_exp<G, Fr>(8, w, t, std::vector<Fr>{x, Fr((long)5)})); o.put(batch_exp_with_coeff<G, Fr>(8, w, t, Fr((long)3), std::vector<Fr>{x})); o.put(get_exp_window_size<G>(num(v, 5))););
    OP("stream", 2, std::stringstream s; s << I::p[v] << OUTPUT_NEWLINE << I::q[v] << OUTPUT_NEWLINE; o.put(s.str()); G x, y; s >> x; consume_OUTPUT_NEWLINE(s); s >> y; o.put(x); o.put(y););
    OP("random", 3, seed(v); o.put(G::random_element()););
    OP("order", 2, o.put(G::order()); o.put((uint64_t)G::size_in_bits()); o.put(G::field_char()););
}
template<class G> void vector_op() { typedef Pt<G> I;OP("stream_vector", 2, std::stringstream s; std::vector<G> x = {I::p[v], I::q[v]}; s << x; o.put(s.str()); std::vector<G> y; s >> y; o.put(y);); }
template<class G> void cofactor_op() { typedef Pt<G> I; OP("cofactor", 2, o.put(I::p[v].mul_by_cofactor());); }
template<class G> void mul_by_q_op() { typedef Pt<G> I; OP("mul_by_q", 1, o.put(I::p[v].mul_by_q());); }
template<class P> struct Pr { typedef typename P::Fqk_type Fqk; static Sh<Fqk> m; static void fill() { for (int v = 0; v < 2; v++) m.set(v) = P::miller_loop(P::precompute_G1(Pt<typename P::G1_type>::p[v]), P::precompute_G2(Pt<typename P::G2_type>::p[v])); } };
template<class P> Sh<typename P::Fqk_type> Pr<P>::m;
template<class P> void pairing_ops(const char *g)
{
    grp() = g; setups().push_back(&Pr<P>::fill); typedef Pt<typename P::G1_type> A; typedef Pt<typename P::G2_type> B; typedef Pr<P> I;
    OP("precompute_G1", 3, std::stringstream s; auto x = P::precompute_G1(A::p[v]); s << x; o.put(s.str()); decltype(x) y; s >> y; o.put(x == y););
    OP("precompute_G2", 3, std::stringstream s; auto x = P::precompute_G2(B::p[v]); s << x; size_t h = std::hash<std::string>()(s.str()); o.put(h); decltype(x) y; s >> y; o.put(x == y););
    OP("miller_loop", 3, o.put(P::miller_loop(P::precompute_G1(A::p[v]), P::precompute_G2(B::p[v]))););
    OP("double_miller_loop", 3, auto a = P::precompute_G1(A::p[v]), b = P::precompute_G1(A::q[v]); auto c = P::precompute_G2(B::p[v]), d = P::precompute_G2(B::q[v]); o.put(P::double_miller_loop(a, c, b, d)););
    OP("final_exponentiation", 3, o.put(P::final_exponentiation(I::m[v])););
    OP("pairing", 3, o.put(P::pairing(A::p[v], B::p[v])););
    OP("reduced_pairing", 3, o.put(P::reduced_pairing(A::p[v], B::p[v])););
}
template<class P> void affine_ops()
{
    typedef Pt<typename P::G1_type> A; typedef Pt<typename P::G2_type> B;
    OP("affine_reduced_pairing", 3, o.put(P::affine_reduced_pairing(A::p[v], B::p[v])););
    OP("affine_ate_miller_loop", 3, o.put(P::affine_ate_miller_loop(P::affine_ate_precompute_G1(A::aff[v]), P::affine_ate_precompute_G2(B::aff[v]))););
    OP("affine_ate_e_over_e", 3, auto a = P::affine_ate_precompute_G1(A::aff[v]), b = P::affine_ate_precompute_G1(A::p[v]); auto c = P::affine_ate_precompute_G2(B::aff[v]), d = P::affine_ate_precompute_G2(B::p[v]); o.put(P::affine_ate_e_over_e_miller_loop(a, c, b, d)); o.put(P::affine_ate_e_times_e_over_e_miller_loop(a, c, b, d, b, c)););
}
template<class F> struct Gfx { static Sh<F> a, b, c; static void fill() { for (int v = 0; v < 2; v++) { a.set(v) = expand<F>(11 + v); b.set(v) = expand<F>(21 + v); c.set(v) = expand<F>(31 + v); } } };
template<class F> void gf_ops(const char *g) { field_ops<F>(g, true, 1, 2); OP("generator", 0, o.put(F::multiplicative_generator);); }
inline void util_ops()
{
    grp() = "util";
    OP("log2", 0, o.put((uint64_t)libff::log2(num(v, 1))); o.put((uint64_t)bitreverse(num(v, 4), 20)); o.put((uint64_t)round_to_next_power_of_2(num(v, 5))); o.put((uint64_t)get_power_of_two(num(v, 5))); o.put((int)from_twos_complement(to_twos_complement(-(int)num(v, 0), 20), 20)); o.put((long)div_ceil(num(v, 5), num(v, 0))););
    OP("bits", 2, o.put(int_list_to_bits({num(v, 1), num(v, 4)}, 32)); bit_vector b = int_list_to_bits({num(v, 5)}, 20); std::stringstream s; serialize_bit_vector(s, b); o.put(s.str()); bit_vector c; deserialize_bit_vector(s, c); o.put(c););
    OP("format", 2, o.put(FORMAT(v ? "left" : "right", "%s:%lu", v ? "abc" : "defg", num(v, 5))););
    OP("bigint", 2, bigint<4> a(v ? "123456789012345678901234567890123456789" : "55555555555555555555555555555555555"); o.put(a); o.put((uint64_t)a.num_bits()); std::stringstream s; s << a; o.put(s.str()); bigint<4> b; s >> b; o.put(b); seed(v); b.randomize(); o.put(b); mpz_t m; mpz_init(m); a.to_mpz(m); o.put(bigint<4>(m)); mpz_clear(m););
    OP("vectors", 2, std::stringstream s; std::vector<size_t> x = {num(v, 0), num(v, 1)}; s << x; o.put(s.str()); std::stringstream t; output_bool(t, v); output_bool_vector(t, bit_vector{true, v == 0}); o.put(t.str()););
}
inline void all_ops()
{
    inhibit_profiling_info = inhibit_profiling_counters = true; alt_bn128_pp::init_public_params(); bls12_381_pp::init_public_params(); edwards_pp::init_public_params(); mnt4_pp::init_public_params(); mnt6_pp::init_public_params();
    prime_ops<alt_bn128_Fr>("alt_bn128_Fr"); prime_ops<alt_bn128_Fq>("alt_bn128_Fq"); prime_ops<bls12_381_Fr>("bls12_381_Fr"); prime_ops<bls12_381_Fq>("bls12_381_Fq"); prime_ops<edwards_Fr>("edwards_Fr"); prime_ops<edwards_Fq>("edwards_Fq"); prime_ops<mnt4_Fr>("mnt4_Fr"); prime_ops<mnt4_Fq>("mnt4_Fq");
    small_tower_ops<alt_bn128_Fq2>("alt_bn128_Fq2"); small_tower_ops<bls12_381_Fq2>("bls12_381_Fq2"); small_tower_ops<mnt4_Fq2>("mnt4_Fq2"); small_tower_ops<edwards_Fq3>("edwards_Fq3"); small_tower_ops<mnt6_Fq3>("mnt6_Fq3");
    tower_ops<alt_bn128_Fq6>("alt_bn128_Fq6", false); tower_ops<bls12_381_Fq6>("bls12_381_Fq6", false);
    tower_ops<alt_bn128_Fq12>("alt_bn128_Fq12", false); cyclo_ops<alt_bn128_Fq12>(); { typedef alt_bn128_Fq12 F; typedef In<F> I; OP("sparse", 0, o.put(I::a[v].mul_by_024(I::b[v].c0.c0, I::b[v].c0.c1, I::b[v].c1.c2)); o.put(I::a[v].mul_by_045(I::b[v].c0.c0, I::b[v].c0.c1, I::b[v].c1.c2));); }
    tower_ops<bls12_381_Fq12>("bls12_381_Fq12", false); cyclo_ops<bls12_381_Fq12>();
    tower_ops<edwards_Fq6>("edwards_Fq6", false); cyclo_ops<edwards_Fq6>(); { typedef In<edwards_Fq6> I; OP("sparse", 0, o.put(I::a[v].mul_by_2345(I::b[v]));); }
    tower_ops<mnt6_Fq6>("mnt6_Fq6", false); cyclo_ops<mnt6_Fq6>(); tower_ops<mnt4_Fq4>("mnt4_Fq4", false); cyclo_ops<mnt4_Fq4>(); { typedef In<mnt4_Fq4> I; OP("sparse", 0, o.put(I::a[v].mul_by_023(I::b[v]));); }
    gf_ops<gf32>("gf32"); gf_ops<gf64>("gf64"); gf_ops<gf128>("gf128"); gf_ops<gf192>("gf192"); gf_ops<gf256>("gf256"); util_ops();
    group_ops<alt_bn128_G1>("alt_bn128_G1"); vector_op<alt_bn128_G1>(); cofactor_op<alt_bn128_G1>(); group_ops<alt_bn128_G2>("alt_bn128_G2"); cofactor_op<alt_bn128_G2>(); mul_by_q_op<alt_bn128_G2>();
    group_ops<bls12_381_G1>("bls12_381_G1"); vector_op<bls12_381_G1>(); cofactor_op<bls12_381_G1>(); group_ops<bls12_381_G2>("bls12_381_G2"); cofactor_op<bls12_381_G2>(); mul_by_q_op<bls12_381_G2>();
    group_ops<mnt4_G1>("mnt4_G1"); vector_op<mnt4_G1>(); cofactor_op<mnt4_G1>(); group_ops<mnt4_G2>("mnt4_G2"); cofactor_op<mnt4_G2>(); mul_by_q_op<mnt4_G2>(); group_ops<mnt6_G1>("mnt6_G1"); vector_op<mnt6_G1>(); cofactor_op<mnt6_G1>(); group_ops<mnt6_G2>("mnt6_G2"); cofactor_op<mnt6_G2>(); mul_by_q_op<mnt6_G2>();
    group_ops<edwards_G1>("edwards_G1"); vector_op<edwards_G1>(); group_ops<edwards_G2>("edwards_G2"); mul_by_q_op<edwards_G2>();
    pairing_ops<alt_bn128_pp>("alt_bn128"); pairing_ops<bls12_381_pp>("bls12_381"); pairing_ops<edwards_pp>("edwards"); pairing_ops<mnt4_pp>("mnt4"); affine_ops<mnt4_pp>(); pairing_ops<mnt6_pp>("mnt6"); affine_ops<mnt6_pp>();
}
// inputs are computed by a child process
inline std::string fill_inputs()
{
    fflush(nullptr); pid_t p = fork(); if (!p) { for (auto f : setups()) f(); _exit(0); }
    int st; while (waitpid(p, &st, 0) < 0) {} return WIFEXITED(st) && !WEXITSTATUS(st) ? "" : "setup failed";
}
} // namespace conc
