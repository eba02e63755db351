// C04: square roots terminate and square back, for every square.
#include "towers.hpp"
#include "gcdext_shim.hpp"
#include <libff/algebra/curves/alt_bn128/alt_bn128_pp.hpp>
#include <libff/algebra/curves/bls12_381/bls12_381_pp.hpp>
#include <libff/algebra/curves/edwards/edwards_pp.hpp>
#include <libff/algebra/curves/mnt/mnt4/mnt4_pp.hpp>
#include <libff/algebra/curves/mnt/mnt6/mnt6_pp.hpp>
#include <libff/algebra/fields/binary/gf32.hpp>
#include <libff/algebra/fields/binary/gf64.hpp>
#include <libff/algebra/fields/binary/gf128.hpp>
#include <libff/algebra/fields/binary/gf192.hpp>
#include <libff/algebra/fields/binary/gf256.hpp>
using namespace libff;
using namespace vf;
typedef std::vector<E64> VE;
template<int N> struct K {
    typedef Fp_model<N, M<N>::m> Fp; typedef Fp2_model<N, M<N>::m> F2; typedef Fp3_model<N, M<N>::m> F3; typedef Fp4_model<N, M<N>::m> F4;
    typedef Fp6_2over3_model<N, M<N>::m> F6a; typedef Fp6_3over2_model<N, M<N>::m> F6b; typedef Fp12_2over3over2_model<N, M<N>::m> F12;
    static void base(u64 p, int which = 0) { setup_fp<Fp, N>(M<N>::m, mpz_class((unsigned long)p), which); }
};
template<class F> void one(const T64 &T, const E64 &v)
{
    at("sqrt dim %d p=%d v=%s s=%zu", T.dim(), (int)T.p, v.s().c_str(), (size_t)F::s); state();
    const F x = unflat<F>(v);
    F w = x.sqrt();
    E64 g = flat<u64>(w);
    VF_CHECK(T.sqr(g) == v, "sqrt", "dim %d p=%d v=%s got %s", T.dim(), (int)T.p, v.s().c_str(), g.s().c_str());
    VF_CHECK(flat<u64>(x) == v, "operand", "modified");
}
// squares of every element of the field, or of a strided subset plus all roots of unity of two-power order
template<class F> void field(const T64 &T, u64 cap)
{
    mpz_class q = T.size();
    if (q <= mpz_class((unsigned long)cap)) { u64 n = q.get_ui(); std::set<E64> seen; for (u64 i = 0; i < n; i++) { E64 s = T.sqr(T.nth(i, T.p)); if (seen.insert(s).second) one<F>(T, s); } return; }
    u64 n = mpz_fits_ulong_p(q.get_mpz_t()) ? q.get_ui() : ~0ull;
    u64 step = n / cap | 1;
    one<F>(T, T.zero()); one<F>(T, T.one());
    for (u64 i = 1, k = 0; k < cap && i < n - step; i += step, k++) one<F>(T, T.sqr(T.nth(i, T.p)));
    // sparse supports
    for (int i = 0; i < T.dim(); i++) for (u64 c = 1; c < T.p; c++) { E64 e = T.zero(); e.c[i] = c; E64 s = T.sqr(e); one<F>(T, s); if (T.is_square(e)) one<F>(T, e); }
    // the complete 2-Sylow subgroup of squares (or all of its orders)
    E64 z = flat<u64>(F::nqr_to_t);
    u64 ord = 1ull << std::min<size_t>(F::s, 12);
    E64 sq = T.sqr(z), v = sq; for (u64 j = 0; j < ord; j++) { one<F>(T, v); v = T.mul(v, sq); }
}
static bool prime(u64 n) { for (u64 d = 2; d * d <= n; d++) if (n % d == 0) return false; return n > 1; }

template<int N> void tiny()
{
    typedef K<N> k; bool th = thorough();
    for (u64 p = 3; p < (th ? 2000 : N == 1 ? 600 : 100); p += 2) {
        if (!prime(p)) continue;
        if (!unit("Fp | n=%d p=%d", N, (int)p)) continue;
        int nq = std::min<int>((p - 1) / 2, th ? 20 : 5);
        for (int w = 0; w < nq; w++) { k::base(p, w); T64 T = tower_p(p); field<typename k::Fp>(T, 1 << 20); }
        sample("Fp", "every square modulo p=" + std::to_string(p) + ", " + std::to_string(nq) + " choices of non-residue");
    }
    for (u64 p : {769, 7681, 12289, 40961, 65537}) { if (N != 1) continue; if (!unit("Fp high 2-adicity | p=%d", (int)p)) continue; for (int w = 0; w < 2; w++) { k::base(p, w); T64 T = tower_p(p); field<typename k::Fp>(T, 1 << 20); } }
    int W = th ? 4 : 2;
    for (u64 p : {3, 5, 7, 11, 13, 17, 19, 23, 31, 97, 127}) {
        if (N != 1 && p > 13) continue;
        auto bs = irreducible_binomials(p, 2);
        for (size_t bi = 0; bi < bs.size(); bi++) for (int w = 0; w < W; w++) {
            if (p > 19 && bi > 1 && !th) continue;
            if (!unit("Fp2 | n=%d p=%d beta=%d nqr#%d", N, (int)p, (int)bs[bi], w)) continue;
            k::base(p); T64 T = setup_fp2<typename k::F2>(p, bs[bi], w); field<typename k::F2>(T, 20000);
        }
    }
    for (u64 p : {7, 13, 19, 31}) for (u64 beta : irreducible_binomials(p, 3)) for (int w = 0; w < W; w++) {
        if (N != 1 && p > 7) continue;
        if (!unit("Fp3 | n=%d p=%d beta=%d nqr#%d", N, (int)p, (int)beta, w)) continue;
        k::base(p); T64 T = setup_fp3<typename k::F3>(p, beta, w); field<typename k::F3>(T, 7000);
    }
    for (u64 p : {5, 13, 17}) for (u64 beta : irreducible_binomials(p, 4)) for (int w = 0; w < W; w++) {
        if (N != 1 && p > 5) continue;
        if (!unit("Fp4 | n=%d p=%d beta=%d nqr#%d", N, (int)p, (int)beta, w)) continue;
        k::base(p); setup_fp2<typename k::F2>(p, beta); T64 T = setup_fp4<typename k::F4>(p, beta, w); field<typename k::F4>(T, th ? 20000 : 1500);
    }
    for (u64 p : {7, 13}) for (u64 beta : irreducible_binomials(p, 6)) for (int w = 0; w < W; w++) {
        if (N != 1 && p > 7) continue;
        if (!unit("Fp6_2over3 | n=%d p=%d beta=%d nqr#%d", N, (int)p, (int)beta, w)) continue;
        k::base(p); setup_fp3<typename k::F3>(p, beta); T64 T = setup_fp6_2over3<typename k::F6a>(p, beta, w); field<typename k::F6a>(T, th ? 20000 : 500);
    }
    for (u64 p : {5, 7, 13}) {
        auto bs = irreducible_binomials(p, 2);
        for (u64 beta : bs) {
            auto x3 = irreducible_xi(p, beta, 3); auto x6 = irreducible_xi(p, beta, 6);
            for (size_t i = 0; i < x3.size(); i += th ? 3 : x3.size()) for (int w = 0; w < W; w++) {
                if (N != 1 && p > 5) continue;
                if (!unit("Fp6_3over2 | n=%d p=%d beta=%d xi=%s nqr#%d", N, (int)p, (int)beta, x3[i].s().c_str(), w)) continue;
                k::base(p); setup_fp2<typename k::F2>(p, beta); T64 T = setup_fp6_3over2<typename k::F6b>(p, beta, x3[i], w); field<typename k::F6b>(T, th ? 20000 : 400);
            }
            for (size_t i = 0; i < x6.size(); i += th ? 3 : x6.size()) for (int w = 0; w < W; w++) {
                if (N != 1 && p > 5) continue;
                if (p > 5 && beta != bs[0] && !th) continue;
                if (!unit("Fp12 | n=%d p=%d beta=%d xi=%s nqr#%d", N, (int)p, (int)beta, x6[i].s().c_str(), w)) continue;
                k::base(p); setup_fp2<typename k::F2>(p, beta); setup_fp6_3over2<typename k::F6b>(p, beta, x6[i]); T64 T = setup_fp12<typename k::F12>(p, beta, x6[i], w); field<typename k::F12>(T, th ? 3000 : 150);
            }
        }
    }
}
// ---- shipped fields: one square for every two-power order, times odd-order elements
template<class F> void chk(const char *name, const F &v)
{
    state();
    const F c = v; F w = v.sqrt();
    VF_CHECK(w * w == v, "sqrt-shipped", "%s v=%s", name, flat<mpz_class>(v).s().c_str());
    VF_CHECK(c == v, "operand", "modified");
}
template<class F> void shipped(const char *name, int d, const mpz_class &p)
{
    for (int part = 0; part < 4; part++) {
        if (!unit("shipped | %s part %d", name, part)) continue;
        std::vector<F> odd; // elements whose 2-part is removed
        for (int c = 0; c < 3; c++) { El<mpz_class> e; e.d = d; for (int i = 0; i < d; i++) e.c[i] = ref::mod(mpz_class(c + 2) * (i * i + 3 * i + 1), p); odd.push_back(unflat<F>(e)); }
        F one = F::one(), z = F::nqr_to_t;
        if (part == 0) { at("%s zero", name); chk(name, F::zero()); at("%s one", name); chk(name, one); chk(name, -(one) * -(one)); for (auto &o : odd) { at("%s square", name); chk(name, o * o); } for (long i = 1; i < 30; i++) { F v = F::zero(); for (long j = 0; j < i; j++) v = v + one; at("%s %ld^2", name, i); chk(name, v * v); } 
            El<mpz_class> e; e.d = d; for (int i = 0; i < d; i++) { e.c[i] = 1; F x = unflat<F>(e); at("%s basis sum %d", name, i); chk(name, x * x); El<mpz_class> b; b.d = d; b.c[i] = p - 1; x = unflat<F>(b); chk(name, x * x); } }
        F g = z * z; // generates the squares of the 2-Sylow subgroup, order 2^(s-1)
        for (size_t k = 0; k + 1 <= F::s; k++) {
            // g^(2^k * odd)
            for (int j = 1; j < (thorough() ? 16 : 6); j += 2) { if ((int)(k % 4) == part) { F v = g; for (int i = 1; i < j; i++) v = v * g; at("%s 2-power order 2^%zu times %d", name, (size_t)F::s - 1 - k, j); chk(name, v); chk(name, v * odd[j % 3] * odd[j % 3]); } }
            // all-ones exponent patterns: g^(2^k - 1)
            if ((int)(k % 4) == part) { F v = one, t = z * z; for (size_t i = 0; i < k; i++) { v = v * t; t = t * t; } at("%s 2-Sylow element 2^%zu-1", name, k); chk(name, v); }
            g = g * g;
        }
        sample(name, "a square of every order 2^k, k<=" + std::to_string(F::s - 1));
    }
}
template<class G> void binary(const char *name, int words)
{
    for (int part = 0; part < 2; part++) {
        if (!unit("binary | %s part %d", name, part)) continue;
        std::vector<std::vector<uint64_t>> vs;
        std::vector<uint64_t> zero(words, 0);
        int bits = G::extension_degree();
        for (int i = 0; i < bits; i++) { auto v = zero; v[i / 64] ^= 1ull << (i % 64); vs.push_back(v); for (int j = i + 1; j < bits; j += thorough() ? 1 : 5) { auto w = v; w[j / 64] ^= 1ull << (j % 64); vs.push_back(w); } }
        vs.push_back(zero);
        for (uint64_t a : {~0ull, 0xaaaaaaaaaaaaaaaaull, 0x0123456789abcdefull, 1ull << 63}) { auto v = zero; for (auto &x : v) x = a; vs.push_back(v); v = zero; v[words - 1] = a; vs.push_back(v); v = zero; v[0] = a; vs.push_back(v); }
        for (size_t i = part; i < vs.size(); i += 2) {
            G x; auto v = vs[i]; if (bits == 32) { v[0] &= 0xffffffffull; v[0] <<= 0; }
            x.from_words(v);
            at("%s sqrt of pattern %zu", name, i); state();
            const G c = x; G w = x.sqrt();
            VF_CHECK(w * w == x, "sqrt-binary", "%s pattern %zu low word %lx", name, i, v[0]);
            VF_CHECK(w.squared() == x && c == x, "sqrt-binary", "%s pattern %zu low word %lx", name, i, v[0]);
        }
    }
}
VF_MAIN([]() {
    quiet(); vf::g_hang_limit = 25;
    alt_bn128_pp::init_public_params(); bls12_381_pp::init_public_params(); edwards_pp::init_public_params();
    mnt4_pp::init_public_params(); mnt6_pp::init_public_params();
    tiny<1>(); tiny<3>(); tiny<4>(); tiny<5>();
    mpz_class pa = Z(alt_bn128_modulus_q), pb = Z(bls12_381_modulus_q), pe = Z(edwards_modulus_q), p4 = Z(mnt46_modulus_B), p6 = Z(mnt46_modulus_A);
    shipped<alt_bn128_Fr>("alt_bn128_Fr", 1, Z(alt_bn128_modulus_r)); shipped<alt_bn128_Fq>("alt_bn128_Fq", 1, pa); shipped<alt_bn128_Fq2>("alt_bn128_Fq2", 2, pa); shipped<alt_bn128_Fq6>("alt_bn128_Fq6", 6, pa); shipped<alt_bn128_Fq12>("alt_bn128_Fq12", 12, pa);
    shipped<bls12_381_Fr>("bls12_381_Fr", 1, Z(bls12_381_modulus_r)); shipped<bls12_381_Fq>("bls12_381_Fq", 1, pb); shipped<bls12_381_Fq2>("bls12_381_Fq2", 2, pb); shipped<bls12_381_Fq6>("bls12_381_Fq6", 6, pb); shipped<bls12_381_Fq12>("bls12_381_Fq12", 12, pb);
    shipped<edwards_Fr>("edwards_Fr", 1, Z(edwards_modulus_r)); shipped<edwards_Fq>("edwards_Fq", 1, pe); shipped<edwards_Fq3>("edwards_Fq3", 3, pe); shipped<edwards_Fq6>("edwards_Fq6", 6, pe);
    shipped<mnt4_Fr>("mnt4_Fr", 1, p6); shipped<mnt4_Fq>("mnt4_Fq", 1, p4); shipped<mnt4_Fq2>("mnt4_Fq2", 2, p4); shipped<mnt4_Fq4>("mnt4_Fq4", 4, p4);
    shipped<mnt6_Fq3>("mnt6_Fq3", 3, p6); shipped<mnt6_Fq6>("mnt6_Fq6", 6, p6);
    binary<gf32>("gf32", 1); binary<gf64>("gf64", 1); binary<gf128>("gf128", 2); binary<gf192>("gf192", 3); binary<gf256>("gf256", 4);
})
