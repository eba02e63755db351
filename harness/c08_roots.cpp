// C08: roots of unity and coset shift.
#include "towers.hpp"
#include "gcdext_shim.hpp"
#include <libff/algebra/field_utils/field_utils.hpp>
#include <libff/algebra/curves/alt_bn128/alt_bn128_pp.hpp>
#include <libff/algebra/curves/bls12_381/bls12_381_pp.hpp>
#include <libff/algebra/curves/edwards/edwards_pp.hpp>
#include <libff/algebra/curves/mnt/mnt4/mnt4_pp.hpp>
#include <libff/algebra/curves/mnt/mnt6/mnt6_pp.hpp>
using namespace libff;
using namespace vf;
using std::size_t;

// what the statement demands for one request; p odd prime
template<class F> void request(const char *nm, const mpz_class &p, size_t s, size_t n)
{
    at("%s p=%s n=%zu", nm, p.get_str().c_str(), n); state();
    bool pow2 = n && !(n & (n - 1)), ok = pow2 && (size_t)__builtin_ctzll(n) <= s;
    bool threw = false; F w;
    try { w = get_root_of_unity<F>(n); } catch (const std::invalid_argument &) { threw = true; }
    trans();
    if (!ok) { if (!threw) fail("accepts", "%s: order %zu does not exist but a root was returned", nm, n); return; }
    if (threw) { fail("rejects", "%s: root of order %zu = 2^%d exists (s=%zu) but the request was rejected", nm, n, __builtin_ctzll(n), s); return; }
    if (!canonical(w)) fail("canonical", "%s n=%zu", nm, n);
    mpz_class v = Z(w.as_bigint());
    if (ref::powm(v, mpz_class(n), p) != 1) fail("order", "%s: w^%zu != 1", nm, n);
    if (n > 1 && ref::powm(v, mpz_class(n / 2), p) != p - 1) fail("order", "%s: order of root divides %zu", nm, n / 2);
    trans(2);
}
template<class F> void shift(const char *nm, const mpz_class &p, size_t s)
{
    at("%s coset shift", nm); state(); trans(2);
    F g = coset_shift<F>(); mpz_class v = Z(g.as_bigint());
    VF_CHECK(v != 0 && canonical(g), "shift", "%s: zero shift", nm);
    mpz_class o = mpz_class(1) << s;
    if (o != p - 1) VF_CHECK(ref::powm(v, o, p) != 1, "shift", "%s: shift lies in the subgroup of order 2^%zu", nm, s);
}
static std::vector<size_t> sizes()
{
    std::set<size_t> S;
    for (int i = 0; i < 64; i++) {
        size_t q = (size_t)1 << i;
        S.insert(q); for (size_t d = 1; d <= 3; d++) { S.insert(q + d); S.insert(q - d); }
        for (int j = 0; j < i; j++) S.insert(q | (size_t)1 << j);
    }
    for (size_t n = 0; n < 300; n++) S.insert(n);
    S.insert(0); S.insert(~(size_t)0);
    return std::vector<size_t>(S.begin(), S.end());
}
template<class F> void shipped(const char *nm)
{
    if (!unit("shipped | %s", nm)) return;
    mpz_class p = Z(F::mod); size_t s = 0; mpz_class t = p - 1; while (t % 2 == 0) { t /= 2; s++; }
    sample("shipped", std::string(nm) + ": every power of two to 2^63, here s=" + std::to_string(s));
    for (size_t n : sizes()) request<F>(nm, p, s, n);
    shift<F>(nm, p, s);
}
template<int N> void tiny(int p)
{
    typedef Fp_model<N, M<N>::m> F;
    setup_fp<F>(M<N>::m, p);
    size_t s = F::s; char nm[40]; snprintf(nm, 40, "F_%d/%d", p, N);
    for (size_t n = 0; n <= (size_t)2 * p + 2; n++) request<F>(nm, p, s, n);
    for (int i = 0; i < 64; i++) for (long d : {-1, 0, 1}) request<F>(nm, p, s, ((size_t)1 << i) + d);
    shift<F>(nm, p, s);
}
VF_MAIN([]() {
    quiet();
    alt_bn128_pp::init_public_params(); bls12_381_pp::init_public_params(); edwards_pp::init_public_params(); mnt4_pp::init_public_params(); mnt6_pp::init_public_params();
    shipped<alt_bn128_Fr>("alt_bn128_Fr"); shipped<alt_bn128_Fq>("alt_bn128_Fq");
    shipped<bls12_381_Fr>("bls12_381_Fr"); shipped<bls12_381_Fq>("bls12_381_Fq");
    shipped<edwards_Fr>("edwards_Fr"); shipped<edwards_Fq>("edwards_Fq");
    shipped<mnt4_Fr>("mnt4_Fr"); shipped<mnt4_Fq>("mnt4_Fq");
    shipped<mnt6_Fr>("mnt6_Fr"); shipped<mnt6_Fq>("mnt6_Fq");
    int top = thorough() ? 3000 : 700;
    for (int p = 3; p < top; p += 2) { mpz_class P(p); if (!mpz_probab_prime_p(P.get_mpz_t(), 30)) continue;
        if (unit("prime fields | p=%d", p)) { tiny<1>(p); if (p < 100) { tiny<2>(p); tiny<3>(p); tiny<4>(p); tiny<5>(p); } } }
    for (int p : {12289, 40961, 65537}) if (unit("prime fields | p=%d", p)) tiny<1>(p);
    // prime fields of every two-adicity up to 63: p = k 2^s + 1
    for (int s = 1; s < 120; s++) if (unit("two-adicity | s=%d", s)) {
        mpz_class k = 3, p; for (;; k += 2) { p = (k << s) + 1; if (mpz_probab_prime_p(p.get_mpz_t(), 30)) break; }
        typedef Fp_model<3, M<3>::m> F;
        // a generator modulo squares and modulo k suffices for the definitions used here
        mpz_class g; auto f = prime_factors_small(k); f.push_back(2);
        for (g = 2;; g++) { bool ok = true; for (auto &q : f) if (ref::powm(g, (p - 1) / q, p) == 1) ok = false; if (ok) break; }
        setup_fp<F>(M<3>::m, p, 0, g);
        char nm[40]; snprintf(nm, 40, "k2^%d+1", s);
        for (size_t n : sizes()) request<F>(nm, p, s, n);
        shift<F>(nm, p, s);
    }
    if (unit("binary fields | coset shift")) {
        state(4);
        VF_CHECK(!coset_shift<gf64>().is_zero() && coset_shift<gf64>() != gf64::one(), "shift", "gf64");
        VF_CHECK(!coset_shift<gf128>().is_zero() && coset_shift<gf128>() != gf128::one(), "shift", "gf128");
        VF_CHECK(!coset_shift<gf192>().is_zero() && coset_shift<gf192>() != gf192::one(), "shift", "gf192");
        VF_CHECK(!coset_shift<gf256>().is_zero() && coset_shift<gf256>() != gf256::one(), "shift", "gf256");
    }
})
