// C07: words, bits, machine words and packing. Built for both output representations.
#include "towers.hpp"
#include "gf2ref.hpp"
#include "gcdext_shim.hpp"
#include <libff/algebra/field_utils/field_utils.hpp>
#include <libff/algebra/curves/alt_bn128/alt_bn128_pp.hpp>
#include <libff/algebra/curves/bls12_381/bls12_381_pp.hpp>
#include <libff/algebra/curves/edwards/edwards_pp.hpp>
#include <libff/algebra/curves/mnt/mnt4/mnt4_pp.hpp>
#include <libff/algebra/curves/mnt/mnt6/mnt6_pp.hpp>
using namespace libff;
using namespace vf;
using std::size_t;
#ifdef MONTGOMERY_OUTPUT
static const bool MONT = true;
#else
static const bool MONT = false;
#endif
typedef std::vector<uint64_t> words_t;
static std::string show(const words_t &w) { std::string s; char b[20]; for (auto x : w) { snprintf(b, 20, "%lx.", x); s += b; } return s; }
static words_t split(const mpz_class &v, size_t n) { words_t w(n); for (size_t i = 0; i < n; i++) { mpz_class l = (v >> (64 * i)) & mpz_class("18446744073709551615"); w[i] = mpz_get_ui(l.get_mpz_t()); } return w; }
static mpz_class join(const words_t &w) { mpz_class v = 0; for (size_t i = w.size(); i-- > 0;) v = (v << 64) + mpz_class((unsigned long)w[i]); return v; }

// value v (plain residue) of F: stored word image
template<class F> mpz_class image(const mpz_class &v) { return MONT ? ref::mod(v << (64 * F::num_limbs), Z(F::mod)) : v; }

template<class F> struct P {
    static const int n = F::num_limbs;
    mpz_class p; size_t nb; const char *nm;
    P(const char *m) : p(Z(F::mod)), nb(mpz_sizeinbase(p.get_mpz_t(), 2)), nm(m) {}
    void element(const mpz_class &v)
    {
        const F x = mkf<F>(v); at("%s v=%s", nm, v.get_str(16).c_str()); state();
        words_t w = x.to_words(), e = split(image<F>(v), n);
        VF_CHECK(w == e, "to_words", "got %s want %s", show(w).c_str(), show(e).c_str());
        F y = mkf<F>(mpz_class(1)); bool ok = y.from_words(w);
        VF_CHECK(ok && y == x && canonical(y), "from_words", "round trip ok=%d", ok);
        for (int i = 0; i < n; i++) VF_CHECK(get_word_of_field_elem<F>(x, i) == split(v, n)[i], "get_word", "word %d", i);
        bit_vector b = convert_field_element_to_bit_vector<F>(x);
        bool good = b.size() == nb; for (size_t i = 0; i < b.size() && good; i++) good = b[i] == (bool)mpz_tstbit(v.get_mpz_t(), i);
        VF_CHECK(good, "to_bits", "size %zu", b.size());
        F z = convert_bit_vector_to_field_element<F>(b); VF_CHECK(z == x, "from_bits", "got %s", Z(z.as_bigint()).get_str(16).c_str());
        for (size_t c : {(size_t)0, (size_t)1, nb - 1, nb, nb + 1, nb + 70}) {
            bit_vector d = convert_field_element_to_bit_vector<F>(x, c); bool g = d.size() == c;
            for (size_t i = 0; i < d.size() && g; i++) g = d[i] == (bool)mpz_tstbit(v.get_mpz_t(), i);
            VF_CHECK(g, "to_bits-n", "count %zu size %zu", c, d.size());
        }
        VF_CHECK(x.as_ulong() == split(v, n)[0], "as_ulong", "got %lu", x.as_ulong());
        VF_CHECK(Z(x.as_bigint()) == v, "as_bigint", "-"); F q(x.as_bigint()); VF_CHECK(q == x, "as_bigint", "round trip");
        if (v < (mpz_class(1) << 64)) { F r; r.set_ulong(x.as_ulong()); VF_CHECK(r == x, "set_ulong", "round trip"); F t((long)x.as_ulong(), true); VF_CHECK(t == x, "from-word", "round trip"); }
        VF_CHECK(x == mkf<F>(v), "modified", "operand changed");
    }
    void pattern(const words_t &in) // any word list with exactly n words
    {
        at("%s words %s", nm, show(in).c_str()); state();
        mpz_class v = join(in) & ((mpz_class(1) << nb) - 1); // bits above the size are ignored
        F x; bool ok = x.from_words(in);
        VF_CHECK(ok == (v < p), "accept", "value %s: returned %d", v.get_str(16).c_str(), ok);
        if (v < p) { VF_CHECK(canonical(x) && x.to_words() == split(v, n), "from_words", "got %s", show(x.to_words()).c_str()); }
    }
    void patterns()
    {
        std::set<mpz_class> S; mpz_class top = mpz_class(1) << (64 * n), hb = mpz_class(1) << nb;
        for (int i = 0; i < 64 * n; i++) { mpz_class q = mpz_class(1) << i; for (const mpz_class &b : {mpz_class(0), p, hb, mpz_class(p - 1)}) for (int d = -1; d <= 1; d++) { S.insert(b + q + d); S.insert(b - q + d); } S.insert(top - q); }
        // same upper words as the modulus, lower words at the extremes
        words_t m = split(p, n); for (int i = 0; i <= n; i++) { words_t a = m, b = m; for (int j = 0; j < i; j++) { a[j] = 0; b[j] = ~0ull; } S.insert(join(a)); S.insert(join(b)); if (i < n) { a[i]++; b[i]--; S.insert(join(a)); S.insert(join(b)); a[i] -= 2; S.insert(join(a)); } }
        for (auto &v : S) if (v >= 0 && v < top) pattern(split(v, n));
    }
    void elements()
    {
        std::set<mpz_class> S; for (size_t i = 0; i <= nb; i++) { mpz_class q = mpz_class(1) << i; for (int d = -1; d <= 1; d++) { S.insert(q + d); S.insert(p - q + d); } }
        for (auto v : S) if (v >= 0 && v < p) element(v);
    }
    // packing
    mpz_class bits(const bit_vector &v, size_t from, size_t c) { mpz_class r = 0; for (size_t j = 0; j < c && from + j < v.size(); j++) if (v[from + j]) r += mpz_class(1) << j; return r; }
    void pack(const bit_vector &v, size_t c, bool deflt)
    {
        at("%s pack %zu bits, chunk %zu", nm, v.size(), c); state();
        std::vector<F> r = deflt ? pack_bit_vector_into_field_element_vector<F>(v) : pack_bit_vector_into_field_element_vector<F>(v, c);
        size_t k = (v.size() + c - 1) / c;
        VF_CHECK(r.size() == k, "pack-size", "got %zu want %zu", r.size(), k);
        bit_vector back;
        for (size_t i = 0; i < r.size() && i < k; i++) {
            mpz_class e = bits(v, i * c, c);
            VF_CHECK(Z(r[i].as_bigint()) == e && canonical(r[i]), "pack", "element %zu: got %s want %s", i, Z(r[i].as_bigint()).get_str(16).c_str(), e.get_str(16).c_str());
            bit_vector b = convert_field_element_to_bit_vector<F>(r[i], c); back.insert(back.end(), b.begin(), b.end());
        }
        bool g = back.size() >= v.size(); for (size_t i = 0; i < back.size() && g; i++) g = back[i] == (i < v.size() ? v[i] : false);
        VF_CHECK(g, "unpack", "bits differ");
        bit_vector whole = convert_field_element_vector_to_bit_vector<F>(r);
        g = whole.size() == r.size() * nb; for (size_t i = 0; i < r.size() && g; i++) for (size_t j = 0; j < nb && g; j++) g = whole[i * nb + j] == (j < c && i * c + j < v.size() ? (bool)v[i * c + j] : false);
        VF_CHECK(g, "vector-to-bits", "bits differ");
    }
    void packw(const std::vector<size_t> &v, size_t w)
    {
        at("%s pack %zu words of %zu bits", nm, v.size(), w); state();
        bit_vector b; for (size_t x : v) for (size_t j = 0; j < w; j++) b.push_back(x >> j & 1);
        std::vector<F> r = pack_int_vector_into_field_element_vector<F>(v, w);
        size_t c = nb - 1, k = (b.size() + c - 1) / c;
        VF_CHECK(r.size() == k, "packw-size", "got %zu want %zu", r.size(), k);
        for (size_t i = 0; i < r.size() && i < k; i++) VF_CHECK(Z(r[i].as_bigint()) == bits(b, i * c, c) && canonical(r[i]), "packw", "element %zu", i);
    }
    void convert(const bit_vector &v)
    {
        at("%s convert %zu bits", nm, v.size()); state();
        if (v.size() <= nb) { mpz_class e = ref::mod(bits(v, 0, v.size()), p); F x = convert_bit_vector_to_field_element<F>(v); VF_CHECK(Z(x.as_bigint()) == e && canonical(x), "from_bits", "got %s", Z(x.as_bigint()).get_str(16).c_str()); }
        std::vector<F> r = convert_bit_vector_to_field_element_vector<F>(v);
        bool g = r.size() == v.size(); for (size_t i = 0; i < r.size() && g; i++) g = Z(r[i].as_bigint()) == (v[i] ? 1 : 0);
        VF_CHECK(g, "bits-to-elements", "-");
    }
    static std::vector<bit_vector> fillings(size_t len)
    {
        std::vector<bit_vector> r; if (!len) return {bit_vector()};
        r.push_back(bit_vector(len, true)); bit_vector a(len), l(len), x(len); for (size_t i = 0; i < len; i++) { a[i] = i % 2; l[i] = (i * i + i / 3) % 5 < 2; x[i] = i % 3 == 0; } r.push_back(a); r.push_back(l); r.push_back(x);
        for (size_t i : {(size_t)0, len / 2, len - 1}) { bit_vector o(len); o[i] = true; r.push_back(o); }
        return r;
    }
    void big_packing()
    {
        size_t F0 = nb - 1; std::set<size_t> C = {1, 2, 7, 63, 64, 65, F0 - 1, F0, F0 / 2, F0 / 3};
        if (thorough()) for (size_t c = 1; c <= F0; c++) C.insert(c);
        for (size_t c : C) { if (c < 1 || c > F0) continue;
            std::set<size_t> L; for (size_t k = 0; k <= 3; k++) for (size_t d : {0, 1, 2}) { L.insert(k * c + d); if (k * c >= d) L.insert(k * c - d); }
            if (c == F0) for (size_t l = 0; l < 2 * F0 + 5; l += thorough() ? 1 : 7) L.insert(l);
            for (size_t len : L) for (auto &v : fillings(len)) { pack(v, c, false); if (c == F0) pack(v, c, true); } }
        // long vectors
        for (size_t c : {(size_t)1, (size_t)63, (size_t)64, F0}) for (size_t len : {(size_t)1000, (size_t)1023, (size_t)1024, (size_t)1025, (size_t)2049, (size_t)4097}) { if (c > F0 || (c == 1 && len > 1025 && !thorough())) continue; size_t k = 0; for (auto &v : fillings(len)) if (thorough() || (k++ + len) % 3 == 0) { pack(v, c, false); if (c == F0) pack(v, c, true); } }
        for (size_t w : {(size_t)1, (size_t)8, (size_t)13, (size_t)32, (size_t)64}) for (size_t len : {(size_t)100, (size_t)128, (size_t)257, (size_t)1025}) { std::vector<size_t> v; for (size_t i = 0; i < len; i++) v.push_back(0x9e3779b97f4a7c15ull * (i + 1)); packw(v, w); }
        for (auto &v : fillings(1025)) convert(v);
        for (size_t len = 0; len <= nb; len++) for (auto &v : fillings(len)) convert(v);
        for (size_t len : {nb + 1, nb + 64}) for (auto &v : fillings(len)) convert(v);
        for (size_t w = 1; w <= 64; w++) { size_t unit_words = F0 / w;
            for (size_t len : {(size_t)0, (size_t)1, (size_t)2, unit_words, unit_words + 1, 2 * unit_words, 2 * unit_words + 1, 2 * unit_words + 2})
                for (int f = 0; f < 4; f++) { std::vector<size_t> v; for (size_t i = 0; i < len; i++) v.push_back(f == 0 ? ~(size_t)0 : f == 1 ? i + 1 : f == 2 ? (i == len - 1 ? (size_t)1 << (w - 1) : 0) : 0x9e3779b97f4a7c15ull * (i + 1)); packw(v, w); } }
    }
};
// tiny modulus in one limb: everything
static void tiny(int p)
{
    typedef Fp_model<1, M<1>::m> F; setup_fp<F>(M<1>::m, p); char nm[30]; snprintf(nm, 30, "F_%d", p); P<F> t(nm);
    for (int v = 0; v < p; v++) t.element(v);
    size_t top = (size_t)1 << t.nb;
    for (size_t v = 0; v < top; v++) for (size_t hi : {(size_t)0, top, ~(top - 1), (size_t)1 << 63}) t.pattern({hi | v});
    size_t maxlen = thorough() ? 11 : 9;
    for (size_t len = 0; len <= maxlen; len++) for (size_t m = 0; m < ((size_t)1 << len); m++) { bit_vector v(len); for (size_t i = 0; i < len; i++) v[i] = m >> i & 1; t.convert(v); for (size_t c = 1; c < t.nb; c++) t.pack(v, c, c == t.nb - 1); }
    for (size_t w = 1; w <= 4; w++) for (size_t len = 0; len <= 3; len++) { size_t tot = (size_t)1 << (w * len); for (size_t m = 0; m < tot; m++) { std::vector<size_t> v; for (size_t i = 0; i < len; i++) v.push_back(m >> (w * i) & (((size_t)1 << w) - 1)); t.packw(v, w); } }
    for (size_t w = 5; w <= 64; w++) for (size_t len = 0; len <= 3; len++) t.packw(std::vector<size_t>(len, 0xdeadbeefcafebabeull * len + w), w);
}
// extension field with D coefficients over F: all coefficients from a corner set; exactly the invalid ones rejected
template<class E, class F, int D> void ext_words(const char *nm)
{
    if (!unit("extensions | %s", nm)) return;
    const int n = F::num_limbs; mpz_class p = Z(F::mod); size_t nb = mpz_sizeinbase(p.get_mpz_t(), 2);
    sample("extension", std::string(nm) + " with " + std::to_string(D) + " coefficients");
    std::vector<mpz_class> A = {0, 1, p - 1, ref::mod(mpz_class("0x123456789abcdef0fedcba98765432100123456789abcdeffedcba9876543210"), p), p / 2 + 1};
    size_t k = D <= 3 ? 5 : D <= 4 ? 4 : D <= 6 ? 3 : 2, tot = 1; for (int i = 0; i < D; i++) tot *= k;
    for (size_t m = 0; m < tot; m++) {
        El<mpz_class> e; e.d = D; size_t j = m; for (int i = 0; i < D; i++) { e.c[i] = A[j % k]; j /= k; }
        at("%s #%zu", nm, m); state(); const E x = unflat<E>(e);
        words_t w = x.to_words(), want; for (int i = 0; i < D; i++) for (auto q : split(image<F>(e.c[i]), n)) want.push_back(q);
        VF_CHECK(w == want, "to_words", "%s got %s", nm, show(w).c_str());
        E y = E::one(); bool ok = y.from_words(w); VF_CHECK(ok && y == x, "from_words", "%s round trip", nm);
    }
    std::vector<mpz_class> bad = {p, p + 1, (mpz_class(1) << nb) - 1};
    for (const mpz_class &bv : bad) for (size_t mask = 0; mask < ((size_t)1 << D); mask++) { // which coefficients are out of range
        if (D > 6 && __builtin_popcountll(mask) > 2 && mask != ((size_t)1 << D) - 1) continue;
        words_t w; for (int i = 0; i < D; i++) for (auto q : split(mask >> i & 1 ? bv : A[(i + 1) % 5], n)) w.push_back(q);
        at("%s invalid mask %zx", nm, mask); state(); bool over = mask && bv >= p; E y = E::one(); bool ok = y.from_words(w);
        VF_CHECK(ok == !over, "accept", "%s: invalid coefficient mask %zx accepted=%d", nm, mask, ok);
        if (!over) VF_CHECK(y.to_words() == w, "from_words", "%s", nm);
    }
}
template<class G> void gf_words()
{
    const char *nm = GfOf<G>::name; if (!unit("binary | %s", nm)) return; Gf R = GfOf<G>::ref(); int W = (R.n + 63) / 64;
    std::vector<uint64_t> A = {0, 1, ~0ull, 1ull << 63, 0x0123456789abcdefull, 1ull << 32, 0xffffffffull};
    size_t tot = 1; for (int i = 0; i < W; i++) tot *= A.size();
    auto one = [&](const words_t &w) { at("%s %s", nm, show(w).c_str()); state(); G g; bool ok = g.from_words(w); words_t e = w; if (R.n == 32) e[0] &= 0xffffffffull;
        VF_CHECK(ok && g.to_words() == e, "gf-words", "%s ok=%d got %s", nm, ok, show(g.to_words()).c_str()); G h; h.from_words(g.to_words()); VF_CHECK(g == h, "gf-words", "%s", nm); };
    for (size_t m = 0; m < tot; m++) { words_t w; size_t j = m; for (int i = 0; i < W; i++) { w.push_back(A[j % A.size()]); j /= A.size(); } one(w); }
    for (int i = 0; i < 64 * W; i++) { words_t w(W); w[i / 64] = 1ull << (i % 64); one(w); }
    bit_vector bv; for (int i = 0; i < 9; i++) bv.push_back(i % 3 == 1); auto r = convert_bit_vector_to_field_element_vector<G>(bv); bool g = r.size() == 9; for (int i = 0; i < 9 && g; i++) g = r[i] == (bv[i] ? G::one() : G::zero()); VF_CHECK(g, "bits-to-elements", "%s", nm);
}
template<class G> void gf_get_word() { Gf R = GfOf<G>::ref(); int W = (R.n + 63) / 64; words_t w; for (int i = 0; i < W; i++) w.push_back(0x1111111111111111ull * (i + 3)); G g; g.from_words(w); for (int i = 0; i < W; i++) { state(); VF_CHECK(get_word_of_field_elem<G>(g, i) == w[i], "get_word", "%s", GfOf<G>::name); }
    VF_CHECK(log_of_field_size_helper<G>(g) == (size_t)R.n && soundness_log_of_field_size_helper<G>(g) == (size_t)R.n && get_field_type<G>(g) == additive_field_type, "log-size", "%s", GfOf<G>::name); }
template<class F> void prime(const char *nm)
{
    P<F> t(nm);
    if (unit("elements | %s", nm)) { sample("element", nm); t.elements(); VF_CHECK(log_of_field_size_helper<F>(F::one()) == t.nb && soundness_log_of_field_size_helper<F>(F::one()) == t.nb - 1 && get_field_type<F>(F::one()) == multiplicative_field_type, "log-size", "%s", nm); }
    if (unit("patterns | %s", nm)) { sample("pattern", nm); t.patterns(); }
    if (unit("packing | %s", nm)) { sample("packing", nm); t.big_packing(); }
}
template<int N> void synth(const char *hexp, bool isprime)
{
    typedef Fp_model<N, M<N>::m> F; mpz_class p(hexp, 16); setup_modulus<F>(M<N>::m, p); (void)isprime;
    static char nm[64]; snprintf(nm, 64, "mod %d bits/%d limbs", (int)mpz_sizeinbase(p.get_mpz_t(), 2), N); prime<F>(nm);
}
VF_MAIN([]() {
    quiet();
    alt_bn128_pp::init_public_params(); bls12_381_pp::init_public_params(); edwards_pp::init_public_params(); mnt4_pp::init_public_params(); mnt6_pp::init_public_params();
    for (int p : {3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 127, 131, 251, 257}) if (unit("tiny | p=%d", p)) tiny(p);
    prime<alt_bn128_Fr>("alt_bn128_Fr"); prime<alt_bn128_Fq>("alt_bn128_Fq"); prime<bls12_381_Fr>("bls12_381_Fr"); prime<bls12_381_Fq>("bls12_381_Fq");
    prime<edwards_Fr>("edwards_Fr"); prime<edwards_Fq>("edwards_Fq"); prime<mnt4_Fr>("mnt4_Fr"); prime<mnt4_Fq>("mnt4_Fq");
    // moduli whose size sits at the word boundaries (with the spare top bit the arithmetic needs)
    synth<1>("7fffffffffffffe7", true); synth<1>("4000000000000003", true);
    synth<2>("10000000000000051", true); synth<2>("7fffffffffffffffffffffffffffffff", true);
    synth<3>("100000000000000000000000000000033", true); synth<3>("7fffffffffffffffffffffffffffffffffffffffffffffed", true);
    ext_words<alt_bn128_Fq2, alt_bn128_Fq, 2>("alt_bn128_Fq2"); ext_words<alt_bn128_Fq6, alt_bn128_Fq, 6>("alt_bn128_Fq6"); ext_words<alt_bn128_Fq12, alt_bn128_Fq, 12>("alt_bn128_Fq12");
    ext_words<bls12_381_Fq2, bls12_381_Fq, 2>("bls12_381_Fq2"); ext_words<bls12_381_Fq6, bls12_381_Fq, 6>("bls12_381_Fq6"); ext_words<bls12_381_Fq12, bls12_381_Fq, 12>("bls12_381_Fq12");
    ext_words<edwards_Fq3, edwards_Fq, 3>("edwards_Fq3"); ext_words<edwards_Fq6, edwards_Fq, 6>("edwards_Fq6");
    ext_words<mnt4_Fq2, mnt4_Fq, 2>("mnt4_Fq2"); ext_words<mnt4_Fq4, mnt4_Fq, 4>("mnt4_Fq4"); ext_words<mnt6_Fq3, mnt6_Fq, 3>("mnt6_Fq3"); ext_words<mnt6_Fq6, mnt6_Fq, 6>("mnt6_Fq6");
    gf_words<gf32>(); gf_words<gf64>(); gf_words<gf128>(); gf_words<gf192>(); gf_words<gf256>();
    if (unit("binary | words of elements")) { gf_get_word<gf64>(); gf_get_word<gf128>(); gf_get_word<gf192>(); gf_get_word<gf256>(); }
})
