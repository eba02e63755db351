// C01: prime-field arithmetic against GMP.
#include "towers.hpp"
#include "gcdext_shim.hpp"
#include <libff/algebra/curves/alt_bn128/alt_bn128_pp.hpp>
#include <libff/algebra/curves/bls12_381/bls12_381_pp.hpp>
#include <libff/algebra/curves/edwards/edwards_pp.hpp>
#include <libff/algebra/curves/mnt/mnt4/mnt4_pp.hpp>
#include <libff/algebra/curves/mnt/mnt6/mnt6_pp.hpp>
#include <algorithm>
using namespace libff;
using namespace vf;



template<int N> using F_ = Fp_model<N, M<N>::m>;

template<class F> std::string hex(const F &x) { return Z(x.mont_repr).get_str(16); }

template<class F, mp_size_t n> struct Explore {
    mpz_class p, R, Ri; // Ri = R^-1 mod p (0 if not computed)
    bigint<n> pm;
    void init(const bigint<n> &m) { pm = m; p = Z(m); R = mpz_class(1) << (64 * n); Ri = ref::inv(R, p); }
    bool is(const F &x, const mpz_class &raw) { bigint<n> b = B<n>(raw); return memcmp(b.data, x.mont_repr.data, sizeof b.data) == 0; }
    F raw(const mpz_class &v) { F f; f.mont_repr = B<n>(v); return f; }

    // all binary operations on a pair given by Montgomery images
    void pair(const mpz_class &za, const mpz_class &zb)
    {
        const F a = raw(za), b = raw(zb);
        const F a0 = a, b0 = b;
        at("p=%s a=%s b=%s (raw)", p.get_str(16).c_str(), za.get_str(16).c_str(), zb.get_str(16).c_str());
        state();
        mpz_class s = za + zb; if (s >= p) s -= p;
        mpz_class d = za - zb; if (d < 0) d += p;
        mpz_class m = za * zb * Ri; mpz_mod(m.get_mpz_t(), m.get_mpz_t(), p.get_mpz_t());
        VF_CHECK(is(a + b, s), "add", "got %s", hex(a + b).c_str());
        VF_CHECK(is(a - b, d), "sub", "got %s", hex(a - b).c_str());
        VF_CHECK(is(a * b, m), "mul", "got %s", hex(a * b).c_str());
        { F x = a; F &r = (x += b); VF_CHECK(is(x, s) && &r == &x, "add=", "got %s", hex(x).c_str()); }
        { F x = a; F &r = (x -= b); VF_CHECK(is(x, d) && &r == &x, "sub=", "got %s", hex(x).c_str()); }
        { F x = a; F &r = (x *= b); VF_CHECK(is(x, m) && &r == &x, "mul=", "got %s", hex(x).c_str()); }
        bool e = za == zb;
        VF_CHECK((a == b) == e && (a != b) == !e, "eq", "==%d !=%d", a == b, a != b);
        VF_CHECK(a.mont_repr == a0.mont_repr && b.mont_repr == b0.mont_repr, "operand", "operand modified");
    }
    void unary(const mpz_class &za, bool prime)
    {
        const F a = raw(za);
        const F a0 = a;
        at("p=%s a=%s (raw)", p.get_str(16).c_str(), za.get_str(16).c_str());
        state();
        mpz_class sq = za * za * Ri; mpz_mod(sq.get_mpz_t(), sq.get_mpz_t(), p.get_mpz_t());
        mpz_class dbl = ref::mod(za + za, p), ng = za == 0 ? mpz_class(0) : mpz_class(p - za);
        mpz_class v = ref::mod(za * Ri, p);
        VF_CHECK(is(a.squared(), sq), "sqr", "got %s", hex(a.squared()).c_str());
        { F x = a; F &r = x.square(); VF_CHECK(is(x, sq) && &r == &x, "sqr=", "got %s", hex(x).c_str()); }
        { F x = a; x *= x; VF_CHECK(is(x, sq), "mul-self", "got %s", hex(x).c_str()); }
        { F x = a; x += x; VF_CHECK(is(x, dbl), "add-self", "got %s", hex(x).c_str()); }
        { F x = a; x -= x; VF_CHECK(is(x, 0), "sub-self", "got %s", hex(x).c_str()); }
        { F x = a; x = x; VF_CHECK(is(x, za) && x == x && !(x != x), "self", "got %s", hex(x).c_str()); }
        { F x = a; x = x * x + x - x; VF_CHECK(is(x, sq), "mix-self", "got %s", hex(x).c_str()); }
        VF_CHECK(is(-a, ng), "neg", "got %s", hex(-a).c_str());
        VF_CHECK(a.is_zero() == (za == 0), "zero?", "is_zero=%d", a.is_zero());
        VF_CHECK(Z(a.as_bigint()) == v, "as_bigint", "got %s", Z(a.as_bigint()).get_str(16).c_str());
        { mpz_class lo = v & mpz_class("18446744073709551615"); VF_CHECK(mpz_class(a.as_ulong()) == lo, "as_ulong", "got %lu", a.as_ulong()); }
        VF_CHECK(is(F(B<n>(v)), za), "from-bigint", "got %s", hex(F(B<n>(v))).c_str());
        { F x = a; x.mul_reduce(a.mont_repr); VF_CHECK(is(x, sq), "mul_reduce", "got %s", hex(x).c_str()); }
        { F x = a; x.clear(); VF_CHECK(is(x, 0), "clear", "got %s", hex(x).c_str()); }
        VF_CHECK(is(a.Frobenius_map(1), za) && is(a.Frobenius_map(0), za), "frob", "got %s", hex(a.Frobenius_map(1)).c_str());
        if (za != 0) {
            mpz_class iv = ref::inv(v, p);
            if (iv != 0 || (prime && p != 1)) {
                mpz_class ir = ref::mod(iv * R, p);
                VF_CHECK(is(a.inverse(), ir), "inverse", "got %s want %s", hex(a.inverse()).c_str(), ir.get_str(16).c_str());
                F x = a; F &r = x.invert(); VF_CHECK(is(x, ir) && &r == &x, "invert", "got %s", hex(x).c_str());
            }
        }
        VF_CHECK(a.mont_repr == a0.mont_repr, "operand", "operand modified");
    }
    void pow_ul(const mpz_class &za, unsigned long e)
    {
        at("p=%s a=%s (raw) ^ %lu", p.get_str(16).c_str(), za.get_str(16).c_str(), e);
        const F a = raw(za);
        mpz_class v = ref::mod(za * Ri, p), r = ref::mod(ref::powm(v, mpz_class(e), p) * R, p);
        if (e == 0) r = ref::mod(R, p);
        VF_CHECK(is(a ^ e, r), "pow-ulong", "got %s", hex(a ^ e).c_str());
        F x = a; F &y = (x ^= e); VF_CHECK(is(x, r) && &y == &x, "pow=ulong", "got %s", hex(x).c_str());
        bigint<1> be(e); VF_CHECK(is(a ^ be, r), "pow-big1", "got %s", hex(a ^ be).c_str());
    }
    template<mp_size_t m> void pow_big(const mpz_class &za, const mpz_class &e)
    {
        at("p=%s a=%s (raw) ^ %s", p.get_str(16).c_str(), za.get_str(16).c_str(), e.get_str(16).c_str());
        const F a = raw(za);
        mpz_class v = ref::mod(za * Ri, p), r = ref::mod(ref::powm(v, e, p) * R, p);
        const bigint<m> be = B<m>(e);
        VF_CHECK(is(a ^ be, r), "pow-big", "got %s", hex(a ^ be).c_str());
        F x = a; x ^= be; VF_CHECK(is(x, r), "pow=big", "got %s", hex(x).c_str());
    }
    void ctor_big(const mpz_class &v) // any n-limb integer
    {
        at("p=%s bigint=%s", p.get_str(16).c_str(), v.get_str(16).c_str());
        F x(B<n>(v)); VF_CHECK(is(x, ref::mod(v * R, p)), "from-bigint", "got %s", hex(x).c_str());
    }
    void ctor_long(long v, bool negok)
    {
        at("p=%s long=%ld", p.get_str(16).c_str(), v);
        mpz_class s(v), u((unsigned long)v);
        if (v >= 0 || negok) { F x(v); VF_CHECK(is(x, ref::mod(s * R, p)), "from-long", "got %s", hex(x).c_str()); F y(v, false); VF_CHECK(y == x, "from-long", "flag"); }
        { F x(v, true); VF_CHECK(is(x, ref::mod(u * R, p)), "from-ulong", "got %s", hex(x).c_str()); }
        { F x = raw(p - 1); x.set_ulong((unsigned long)v); VF_CHECK(is(x, ref::mod(u * R, p)), "set_ulong", "got %s", hex(x).c_str()); }
    }
    void consts()
    {
        VF_CHECK(is(F::zero(), 0), "zero", "got %s", hex(F::zero()).c_str());
        VF_CHECK(is(F::one(), ref::mod(R, p)), "one", "got %s", hex(F::one()).c_str());
        VF_CHECK(is(F::geometric_generator(), ref::mod(2 * R, p)), "two", "got");
        VF_CHECK(is(F::arithmetic_generator(), ref::mod(R, p)), "arith", "got");
        VF_CHECK(Z(F::field_char()) == p && F::extension_degree() == 1 && F::num_limbs == n, "char", "field_char");
        size_t nb = mpz_sizeinbase(p.get_mpz_t(), 2);
        VF_CHECK(F::ceil_size_in_bits() == nb && F::floor_size_in_bits() == nb - 1, "sizes", "%zu", (size_t)F::ceil_size_in_bits());
    }
    // complete exploration of a tiny modulus
    void complete(unsigned p0)
    {
        consts();
        for (unsigned i = 0; i < p0; i++) {
            unary(i, true);
            for (unsigned j = 0; j < p0; j++) pair(i, j);
            for (unsigned e = 0; e <= 2 * p0 + 1; e++) { pow_ul(i, e); pow_big<2>(i, e); }
            for (unsigned k = 0; k < 64; k += 7) { pow_ul(i, 1ul << k); pow_ul(i, ~0ul << k); pow_big<3>(i, mpz_class(1) << (k + 128)); pow_big<3>(i, (mpz_class(1) << 192) - 1 - (mpz_class(1) << k)); }
        }
        for (long v = -(long)p0; v <= 300; v++) ctor_long(v, true);
        for (int k = 8; k < 64; k++) for (long d = -1; d <= 1; d++) ctor_long((long)((1ul << k) + d), false);
        // triples: chained expressions (values that are results of operations, not fresh)
        if (p0 <= 23)
            for (unsigned i = 0; i < p0; i++) for (unsigned j = 0; j < p0; j++) for (unsigned k = 0; k < p0; k++) {
                const F a = raw(i), b = raw(j), c = raw(k);
                at("p=%u a=%u b=%u c=%u chain", p0, i, j, k); state();
                mpz_class e = ref::mod((mpz_class(i) * j * Ri + k - i) * k * Ri - j, p);
                F r = (a * b + c - a) * c - b;
                VF_CHECK(is(r, e), "chain", "got %s", hex(r).c_str());
            }
    }

    std::vector<mpz_class> alphabet(const std::vector<mp_limb_t> &base, size_t cap)
    {
        // all limb combinations of base plus, per limb, the modulus limb and its neighbours
        std::set<mpz_class> s;
        std::vector<std::vector<mp_limb_t>> L(n);
        for (int i = 0; i < n; i++) {
            std::set<mp_limb_t> q(base.begin(), base.end());
            q.insert(pm.data[i]); 
            if (cap > 4) { q.insert(pm.data[i] - 1); q.insert(pm.data[i] + 1); }
            for (auto x : q) L[i].push_back(x);
        }
        std::vector<size_t> ix(n, 0);
        for (;;) {
            bigint<n> b; for (int i = 0; i < n; i++) b.data[i] = L[i][ix[i]];
            mpz_class z = Z(b); if (z < p) s.insert(z);
            int k = 0; while (k < n && ++ix[k] == L[k].size()) ix[k++] = 0;
            if (k == n) break;
        }
        // numbers close to 0, to p, and to powers of the word size
        for (int i = 0; i < n; i++) for (int d = -2; d <= 2; d++) {
            mpz_class w = mpz_class(1) << (64 * i);
            for (mpz_class z : {mpz_class(w + d), mpz_class(p - w + d), mpz_class(p / 2 + d), mpz_class(w * d), mpz_class(p + w * d)}) if (z >= 0 && z < p) s.insert(z);
        }
        for (mpz_class z : {mpz_class(ref::mod(R, p)), mpz_class(ref::mod(-R, p)), mpz_class(ref::mod(R * R, p)), Ri}) s.insert(z);
        return std::vector<mpz_class>(s.begin(), s.end());
    }
    // corner exploration of a full-size modulus; chunk/nchunk slices the first operand
    void corners(const std::vector<mp_limb_t> &base, bool prime, bool coprime, unsigned slice, unsigned nslice, size_t maxpairs)
    {
        std::vector<mpz_class> A = alphabet(base, n <= 4 || thorough() ? 8 : 4);
        if (slice == 0) consts();
        // operands for products: thinned deterministically when the alphabet is large, alphabet itself is used for unary ops
        std::vector<mpz_class> P = A;
        size_t stride = 1;
        while ((P.size() / stride) * (P.size() / stride) > maxpairs) stride++;
        std::vector<mpz_class> Q; for (size_t i = 0; i < P.size(); i += stride) Q.push_back(P[i]);
        Q.push_back(p - 1); Q.push_back(0); Q.push_back(1);
        char b[200]; snprintf(b, 200, "p=%s... alphabet %zu values, product alphabet %zu", p.get_str(16).substr(0, 24).c_str(), A.size(), Q.size());
        if (slice == 0) sample("corner alphabet", b);
        // results to aim at: just above 0 (so the unreduced value is just above p), just below p, word boundaries
        std::vector<mpz_class> T;
        for (int i = 0; i < n; i++) for (int d = 0; d <= 2; d++) { mpz_class w = (mpz_class(1) << (64 * i)) * d; for (mpz_class z : {w, mpz_class(w + 1), mpz_class(p - w - 1), mpz_class(p - w)}) if (z >= 0 && z < p) T.push_back(z); }
        for (int i = 1; i < n; i++) { mpz_class w = (mpz_class(1) << (64 * i)); T.push_back((p / w) * w); T.push_back(((p / w) * w) - 1 < 0 ? mpz_class(0) : mpz_class((p / w) * w - 1)); T.push_back(w - 1); }
        for (auto &t : T) t = ref::mod(t, p);
        std::sort(T.begin(), T.end()); T.erase(std::unique(T.begin(), T.end()), T.end());
        for (size_t i = 0; i < A.size(); i++) {
            if (i % nslice != slice) continue;
            unary(A[i], prime);
            // all sums and differences hitting the target values exactly
            if (i % stride == 0) for (auto &t : T) { pair(A[i], ref::mod(t - A[i], p)); pair(ref::mod(t + A[i], p), A[i]); }
            mpz_class ia = ref::inv(A[i], p);
            if (ia != 0 && i % stride == 0) for (auto &t : T) { mpz_class o = ref::mod(t * R * ia, p); pair(A[i], o); pair(o, A[i]); unary(o, prime); }
        }
        for (size_t i = 0; i < Q.size(); i++) {
            if (i % nslice != slice) continue;
            for (auto &y : Q) pair(Q[i], y);
        }
        // squares hitting targets (only when a square root is easy)
        if (slice == 0 && prime && p % 4 == 3)
            for (auto &t : T) { mpz_class v = ref::mod(t * R, p); mpz_class r = ref::powm(v, (p + 1) / 4, p); if (ref::mod(r * r - v, p) == 0) { unary(r, prime); unary(ref::mod(-r, p), prime); pair(r, r); } }
        if (slice == 1 % nslice) {
            for (int k = 0; k < 64 * n; k++) { mpz_class w = mpz_class(1) << k; for (mpz_class z : {w, mpz_class(w - 1), mpz_class(w + 1), mpz_class(R - w)}) if (z >= 0 && z < R) { ctor_big(z); if (z < p) { unary(z, prime); pair(z, p - 1 - z); pair(z, z); } } }
            ctor_big(p); ctor_big(p - 1); ctor_big(p + 1); ctor_big(R - 1);
            for (mpz_class q = p; q < R && q < 40 * p; q += p) for (int d = -1; d <= 1; d++) if (q + d < R) ctor_big(q + d);
            bool neg = mpz_sizeinbase(p.get_mpz_t(), 2) > 64;
            for (int k = 0; k < 64; k++) for (long d = -1; d <= 1; d++) { ctor_long((long)((1ul << k) + d), neg); ctor_long((long)(0ul - (1ul << k) + d), neg); }
            const char *bs[] = {"0", "1", "2", "-1"};
            std::vector<mpz_class> bases = {0, 1, ref::mod(R, p), ref::mod(2 * R, p), p - 1, p / 2, ref::mod(3 * R * R, p)};
            (void)bs;
            for (auto &x : bases) {
                for (int k = 0; k < 64; k++) { pow_ul(x, 1ul << k); pow_ul(x, (1ul << k) - 1); pow_ul(x, ~0ul << k); }
                for (unsigned long e = 0; e < 40; e++) pow_ul(x, e);
                for (mpz_class e : {mpz_class(0), mpz_class(1), mpz_class(p - 2), mpz_class(p - 1), p, mpz_class(R - 1), mpz_class(R / 2), mpz_class(R / 3)}) pow_big<n>(x, e);
                for (int k = 0; k < 64 * n; k += 13) { pow_big<n>(x, mpz_class(1) << k); pow_big<2 * n>(x, (mpz_class(1) << (2 * k)) + 1); }
                pow_big<2 * n>(x, R * R - 1); pow_big<n + 1>(x, R);
            }
        }
    }
};

template<int N> void tiny()
{
    static const unsigned primes[] = {3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 97, 127, 131, 251, 257};
    for (unsigned p : primes) {
        if (!thorough() && p > 61 && p != 127 && p != 257) continue;
        if (!unit("tiny n=%d | p=%u", N, p)) continue;
        setup_fp<F_<N>, N>(M<N>::m, p);
        Explore<F_<N>, N> e; e.init(M<N>::m);
        e.complete(p);
        sample("tiny", "all pairs modulo " + std::to_string(p) + " in " + std::to_string(N) + " limbs");
    }
}

static const mp_limb_t MX = ~0ull, HB = 1ull << 63;

template<int N> std::vector<std::pair<std::string, mpz_class>> synthetic()
{
    std::vector<std::pair<std::string, mpz_class>> v;
    mpz_class R = mpz_class(1) << (64 * N), H = R / 2;
    v.push_back({"2^(64n-1)-1", H - 1});
    mpz_class q = H; for (q = H - 1; !ref::isprime(q); q -= 2) {} v.push_back({"largest prime", q});
    for (q = R / 4 + 1; !ref::isprime(q); q += 2) {} v.push_back({"smallest prime above 2^(64n-2)", q});
    v.push_back({"0x3fff..ff00..01", N == 1 ? mpz_class((R / 4) - (mpz_class(1) << 32) + 1) : mpz_class(R / 4 - (mpz_class(1) << (64 * (N - 1))) + 1)});
    v.push_back({"2^(64n-2)+1", R / 4 + 1});
    v.push_back({"0x7f..f low limb 1", N == 1 ? mpz_class(H - (mpz_class(1) << 60) + 1) : mpz_class(H - (mpz_class(1) << 64) + 1)});
    // low limb all ones (inv = 1), alternating limbs
    { mpz_class a = 0; for (int i = 0; i < N; i++) a += (mpz_class(1) << (64 * i)) * (i % 2 ? mpz_class(0) : mpz_class("18446744073709551615")); if (a >= H) a -= H; a |= 1; if (a < 3) a = 3; mpz_class top = mpz_class(1) << (64 * N - 2); a |= top; v.push_back({"alternating", a}); }
    // top limb 1: small top limb, large gap
    if (N > 1) { for (q = (mpz_class(1) << (64 * (N - 1))) + 1; !ref::isprime(q); q += 2) {} v.push_back({"top limb 1", q}); }
    return v;
}
template<int N> void synth()
{
    for (auto &s : synthetic<N>()) {
        unsigned ns = 4;
        for (unsigned sl = 0; sl < ns; sl++) {
            if (!unit("synthetic n=%d | %s slice %u", N, s.first.c_str(), sl)) continue;
            mpz_class p = s.second; bool pr = ref::isprime(p);
            setup_modulus<F_<N>, N>(M<N>::m, p);
            Explore<F_<N>, N> e; e.init(M<N>::m);
            std::vector<mp_limb_t> base = {0, 1, MX, HB};
            if (N >= 5) base = {0, MX};
            if (N == 4 && !thorough()) base = {0, MX};
            if (N <= 2) base = {0, 1, 2, MX, MX - 1, HB, HB - 1, 0xffffffffull, 0x100000000ull, 0xffffffff00000000ull, 0xaaaaaaaaaaaaaaaaull};
            e.corners(base, pr, false, sl, ns, thorough() ? 400000 : 40000);
        }
    }
}
template<class F, mp_size_t n> void shipped(const char *name, const bigint<n> &m)
{
    unsigned ns = 8;
    for (unsigned sl = 0; sl < ns; sl++) {
        if (!unit("shipped %s | slice %u", name, sl)) continue;
        Explore<F, n> e; e.init(m);
        std::vector<mp_limb_t> base = {0, 1, MX, HB};
        if (n >= 5) base = {0, MX};
        e.corners(base, true, true, sl, ns, thorough() ? 1000000 : 90000);
    }
}

VF_MAIN([]() {
    quiet();
    alt_bn128_pp::init_public_params();
    bls12_381_pp::init_public_params();
    edwards_pp::init_public_params();
    mnt4_pp::init_public_params();
    mnt6_pp::init_public_params();
    tiny<1>(); tiny<2>(); tiny<3>(); tiny<4>(); tiny<5>(); tiny<6>(); tiny<7>(); tiny<8>();
    synth<1>(); synth<2>(); synth<3>(); synth<4>(); synth<5>(); synth<6>(); synth<7>(); synth<8>();
    shipped<alt_bn128_Fq, 4>("alt_bn128_Fq", alt_bn128_modulus_q);
    shipped<alt_bn128_Fr, 4>("alt_bn128_Fr", alt_bn128_modulus_r);
    shipped<bls12_381_Fq, 6>("bls12_381_Fq", bls12_381_modulus_q);
    shipped<bls12_381_Fr, 4>("bls12_381_Fr", bls12_381_modulus_r);
    shipped<edwards_Fq, 3>("edwards_Fq", edwards_modulus_q);
    shipped<edwards_Fr, 3>("edwards_Fr", edwards_modulus_r);
    shipped<mnt4_Fq, 5>("mnt4_Fq", mnt46_modulus_B);
    shipped<mnt4_Fr, 5>("mnt4_Fr", mnt46_modulus_A);
    // Montgomery representation is unique: a value built in different ways compares equal (covered by is() on raw limbs)
})
