// C12: every multi-scalar multiplication method returns the exact sum.  Tiny groups (discrete logs known) times full-width scalars.
#include "curves.hpp"
#include <libff/algebra/scalar_multiplication/multiexp.hpp>
using namespace libff;
using namespace vf;
typedef std::vector<mpz_class> VZ;
#ifdef USE_MIXED_ADDITION
static const bool MIXED = true;
#else
static const bool MIXED = false;
#endif

template<class G> struct Ctx {
    const Crv<u64> *C; std::vector<Pt<u64>> t; u64 r;
    std::vector<G> plainrep, spec; // two representations of every multiple
    G base(u64 i, int v) const { i %= r; return MIXED || v == 0 ? spec[i] : plainrep[i]; }
};
template<class G> Ctx<G> ctx(const CS &cs, const Crv<u64> &C, const Pt<u64> &P)
{
    Ctx<G> c; c.C = &C; c.r = cs.r.get_ui(); c.t = C.table(P, c.r); const T64 &T = C.T;
    E64 l = T.zero(); for (int k = 0; k < l.d; k++) l.c[k] = 2 + k;
    for (u64 i = 0; i < c.r; i++) {
        E64 sl = GK<G>::kind == INV && i ? T.inv(T.mul(c.t[i].x, c.t[i].y)) : T.one();
        c.spec.push_back(rep<G>(C, c.t[i], sl)); c.plainrep.push_back(rep<G>(C, c.t[i], l, i == 0));
    }
    G::wnaf_window_table = {11, 24, 60, 127};
    return c;
}
template<class G, class F> struct Job { std::vector<G> g; std::vector<F> s; std::vector<u64> bi; VZ sv; };
static std::string show(const std::vector<u64> &b, const VZ &s) { std::string r; for (size_t i = 0; i < b.size() && i < 12; i++) r += std::to_string(b[i]) + "*" + s[i].get_str() + " "; return r + "(" + std::to_string(b.size()) + " terms)"; }
template<class G, class F> void run_job(const Ctx<G> &c, const Job<G, F> &j, const std::vector<size_t> &chunks)
{
    static const std::string nm = std::string(GK<G>::name()) + "/" + std::to_string((int)F::num_limbs);
    mpz_class want = 0; for (size_t i = 0; i < j.bi.size(); i++) want += j.sv[i] * zu(j.bi[i]);
    const Pt<u64> &W = c.t[mpz_class(ref::mod(want, zu(c.r))).get_ui()];
    state();
    auto gb = j.g.begin(), ge = j.g.end(); auto sb = j.s.begin(), se = j.s.end();
    auto keepg = j.g; auto keeps = j.s;
#define ME(M, name) do { \
        for (size_t ch : chunks) { \
            { G R = multi_exp<G, F, M>(gb, ge, sb, se, ch); VF_CHECK(is(*c.C, R, W), nm + "." name, "%zu chunks: %s got %s want %s", ch, show(j.bi, j.sv).c_str(), gs(R).c_str(), W.s().c_str()); } \
            { G R = multi_exp_with_mixed_addition<G, F, M>(gb, ge, sb, se, ch); VF_CHECK(is(*c.C, R, W), nm + "." name "+shortcut", "%zu chunks: %s got %s want %s", ch, show(j.bi, j.sv).c_str(), gs(R).c_str(), W.s().c_str()); } \
        } } while (0)
    if (j.bi.size() <= 130 || thorough()) { ME(multi_exp_method_naive, "naive"); ME(multi_exp_method_naive_plain, "naive_plain"); } // term by term: length does not matter
    ME(multi_exp_method_bos_coster, "bos_coster");
    ME(multi_exp_method_BDLO12, "BDLO12");
    for (size_t i = 0; i < keepg.size(); i++) VF_CHECK(same(keepg[i], j.g[i]) && keeps[i] == j.s[i], nm + ".inputs", "modified");
}
template<class G, class F> Job<G, F> job(const Ctx<G> &c, const std::vector<u64> &b, const VZ &s, int v)
{
    Job<G, F> j; for (size_t i = 0; i < b.size(); i++) { j.g.push_back(c.base(b[i], (v + i) & 1)); j.bi.push_back(b[i] % c.r); j.s.push_back(mkf<F>(s[i])); j.sv.push_back(s[i]); }
    return j;
}
// all lists up to a length over small alphabets of bases and scalars
template<class G, class F> void lists(const Ctx<G> &c, const std::vector<u64> &BA, const VZ &SA, unsigned lo, unsigned hi, const std::vector<size_t> &chunks, unsigned sl, unsigned ns)
{
    for (unsigned n = lo; n <= hi; n++) {
        size_t a = BA.size() * SA.size(), tot = 1; for (unsigned i = 0; i < n; i++) tot *= a;
        for (size_t k = sl; k < tot; k += ns) {
            std::vector<u64> b; VZ s; size_t x = k; for (unsigned i = 0; i < n; i++) { size_t y = x % a; x /= a; b.push_back(BA[y % BA.size()]); s.push_back(SA[y / BA.size()]); }
            at("%s length %u list %s", GK<G>::name(), n, show(b, s).c_str());
            run_job(c, job<G, F>(c, b, s, k & 1), chunks);
        }
    }
    trace();
}
// structured long lists: every length, every chunk count
static VZ pattern(int kind, size_t n, const mpz_class &m)
{
    VZ s; mpz_class a = 1, b = 2, t;
    for (size_t i = 0; i < n; i++) switch (kind) {
        case 0: s.push_back(ref::mod(m - 1 - (unsigned long)i, m)); break;                        // large, close together
        case 1: s.push_back(ref::mod(mpz_class((unsigned long)i), m)); break;                    // ramp from 0
        case 2: s.push_back(ref::mod(mpz_class(1) << (i * 11 % (mpz_sizeinbase(m.get_mpz_t(), 2) - 1)), m)); break; // powers of two
        case 3: s.push_back(m / 2); break;                                     // all equal
        case 4: s.push_back(i % 3 == 0 ? mpz_class(0) : i % 3 == 1 ? mpz_class(1) : mpz_class(m - 2)); break;
        case 5: s.push_back(i + 1 == n ? mpz_class(m - 1) : mpz_class(ref::mod(mpz_class((unsigned long)(i & 1)), m))); break; // one huge among bits
        case 6: t = a + b; a = b; b = ref::mod(t, m); s.push_back(a % m); break;                // Fibonacci
        case 7: s.push_back(ref::mod(m / (unsigned long)(i + 2), m)); break;
        case 8: s.push_back(ref::mod((mpz_class(1) << 64) * (unsigned long)(i % 5) + (unsigned long)(i * i), m)); break;
        case 9: s.push_back(mpz_class(0)); break;
        default: s.push_back(ref::mod(((mpz_class(1) << (64 * (1 + i % 4))) - 1), m)); break;
    }
    return s;
}
template<class G, class F> void longs(const Ctx<G> &c, const mpz_class &m, const std::vector<size_t> &lens, unsigned sl, unsigned ns)
{
    size_t q = 0;
    for (size_t n : lens) for (int k = 0; k <= 10; k++) for (int b = 0; b < 3; b++) {
        if (!thorough() && (n + k + b) % 3) continue; // rotates through the base patterns
        if (q++ % ns != sl) continue;
        VZ s = pattern(k, n, m); std::vector<u64> bi; for (size_t i = 0; i < n; i++) bi.push_back(b == 0 ? (i * 3 + 1) % c.r : b == 1 ? (i % 2 ? c.r - 1 : 1) : (i / 3) % c.r);
        std::vector<size_t> ch = {1, 2, 3, n / 2 + 1, n ? n : 1, n + 1}; if (n < 12) for (size_t x = 4; x < n; x++) ch.push_back(x);
        if (n > 20) ch = {1, 3, 7, 8, n}; if (!thorough() && n > 9) ch = {1, 3, n};
        at("%s length %zu pattern %d bases %d", GK<G>::name(), n, k, b);
        run_job(c, job<G, F>(c, bi, s, b), ch);
    }
    trace();
}
template<class F> VZ corner_scalars(const mpz_class &m, bool few)
{
    std::set<mpz_class> v = {0, 1, 2, 3, m - 1, m - 2, m / 2};
    for (int i = 64; (mpz_class(1) << i) < m; i += 64) { v.insert((mpz_class(1) << i) - 1); v.insert(mpz_class(1) << i); if (!few) { v.insert((mpz_class(1) << i) + 1); v.insert(m - (mpz_class(1) << i)); } }
    if (!few) { v.insert(mpz_class(1) << 20); v.insert((mpz_class(1) << 21) - 1); v.insert((mpz_class(1) << 40)); v.insert(m / 3); }
    return VZ(v.begin(), v.end());
}
template<class F> void inner()
{
    const mpz_class m = Z(F::mod); VZ A = corner_scalars<F>(m, true); const std::string nm = "inner_product/" + std::to_string((int)F::num_limbs);
    for (unsigned n = 0; n <= 2; n++) {
        size_t a = A.size() * A.size(), tot = 1; for (unsigned i = 0; i < n; i++) tot *= a;
        for (size_t k = 0; k < tot; k++) {
            std::vector<F> x, y; mpz_class w = 0; size_t t = k; for (unsigned i = 0; i < n; i++) { auto &p = A[t % a / A.size()], &q = A[t % a % A.size()]; t /= a; x.push_back(mkf<F>(p)); y.push_back(mkf<F>(q)); w += p * q; }
            at("inner product %zu of length %u", k, n); state(); mpz_class got; val(inner_product<F>(x.begin(), x.end(), y.begin(), y.end()), got);
            VF_CHECK(got == ref::mod(w, m), nm, "list %zu length %u", k, n);
        }
    }
    for (size_t n : {3, 7, 31, 100}) for (int k1 = 0; k1 <= 10; k1++) for (int k2 = 0; k2 <= 10; k2++) {
        VZ p = pattern(k1, n, m), q = pattern(k2, n, m); std::vector<F> x, y; mpz_class w = 0; for (size_t i = 0; i < n; i++) { x.push_back(mkf<F>(p[i])); y.push_back(mkf<F>(q[i])); w += p[i] * q[i]; }
        at("inner product patterns %d %d", k1, k2); state(); mpz_class got; val(inner_product<F>(x.begin(), x.end(), y.begin(), y.end()), got);
        VF_CHECK(got == ref::mod(w, m), nm, "patterns %d %d length %zu", k1, k2, n);
    }
    trace();
}
// scalar fields of 1..6 limbs that stay at their full-width moduli while the curve is tiny
typedef Fp_model<1, M<1>::m> S1; typedef Fp_model<2, M<2>::m> S2; typedef Fp_model<3, M<3>::m> S3; typedef Fp_model<4, M<4>::m> S4; typedef Fp_model<5, M<5>::m> S5; typedef Fp_model<6, M<6>::m> S6;
static void wide()
{
    // only as_bigint, zero, one are used: Montgomery constants suffice
    auto next = [](mpz_class v) { mpz_nextprime(v.get_mpz_t(), v.get_mpz_t()); return v; };
    setup_modulus<S1, 1>(M<1>::m, next((mpz_class(1) << 63) - (mpz_class(1) << 40)));
    setup_modulus<S2, 2>(M<2>::m, next((mpz_class(1) << 127) - (mpz_class(1) << 100)));
    setup_modulus<S3, 3>(M<3>::m, next((mpz_class(1) << 191) - (mpz_class(1) << 120)));
    setup_modulus<S4, 4>(M<4>::m, next((mpz_class(1) << 255) - (mpz_class(1) << 130)));
    setup_modulus<S5, 5>(M<5>::m, next((mpz_class(1) << 319) - (mpz_class(1) << 200)));
    setup_modulus<S6, 6>(M<6>::m, next((mpz_class(1) << 383) - (mpz_class(1) << 222)));
}
template<class G, class F> void wide_lists(const char *nm, const Ctx<G> &(*get)())
{
    unsigned ns = 2 * lean(4);
    for (unsigned s = 0; s < ns; s++) if (unit("%s x %d-limb scalars, corner lists %u/%u", nm, (int)F::num_limbs, s, ns)) {
        const Ctx<G> &c = get(); wide(); mpz_class m = Z(F::mod);
        lists<G, F>(c, {1, c.r - 1, 0, 2}, corner_scalars<F>(m, !thorough()), 0, 1, {1, 2, 3}, s, ns);
        lists<G, F>(c, {1, c.r - 1, 2}, corner_scalars<F>(m, !thorough()), 2, 2, thorough() ? std::vector<size_t>{1, 2} : std::vector<size_t>{1 + s}, s, ns);
        VZ few = {0, 1, m - 1, (mpz_class(1) << 40) + 5, m / 2}; if (F::num_limbs > 1) few.push_back(mpz_class(1) << 64);
        lists<G, F>(c, {1, c.r - 1}, few, 3, 3, thorough() ? std::vector<size_t>{1, 3} : std::vector<size_t>{1 + s}, s, ns);
        if (thorough()) lists<G, F>(c, {1, 3}, {0, 1, m - 1, m - 2}, 4, 5, {1, 2}, s, ns);
    }
    for (unsigned s = 0; s < ns; s++) if (unit("%s x %d-limb scalars, long lists %u/%u", nm, (int)F::num_limbs, s, ns)) {
        const Ctx<G> &c = get(); wide(); std::vector<size_t> L = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 33, 64};
        if (thorough()) L = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 600};
        longs<G, F>(c, Z(F::mod), L, s, ns);
    }
    // list lengths on both sides of every power of two (and some decimal ones) up to 4097: one pattern and one chunk count each in quick
    if (unit("%s x %d-limb scalars, very long lists", nm, (int)F::num_limbs)) {
        const Ctx<G> &c = get(); wide(); mpz_class m = Z(F::mod); size_t q = 0;
        for (size_t n : {(size_t)100, (size_t)127, (size_t)128, (size_t)129, (size_t)200, (size_t)255, (size_t)256, (size_t)257, (size_t)500, (size_t)511, (size_t)512, (size_t)513, (size_t)1000, (size_t)1023, (size_t)1024, (size_t)1025, (size_t)2049, (size_t)4096, (size_t)4097}) {
            if (lean(2) == 2 && n > 260) continue;
            for (int k : {0, 6, 8, 2}) for (size_t ch : {(size_t)1, (size_t)5, (size_t)17}) { if (!thorough() && (k != std::vector<int>{0, 6, 8, 2}[q % 4] || ch != (q % 3 == 0 ? 1 : q % 3 == 1 ? 5 : 17))) continue;
                VZ s = pattern(k, n, m); std::vector<u64> bi; for (size_t i = 0; i < n; i++) bi.push_back((i * 3 + 1 + i / 5) % c.r);
                at("%s length %zu pattern %d, %zu chunks", GK<G>::name(), n, k, ch); tick(); run_job(c, job<G, F>(c, bi, s, 1), {ch}); }
            q++;
        }
        trace();
    }
}
template<class G> struct Hold { static CS cs; static Ctx<G> c; };
template<class G> CS Hold<G>::cs; template<class G> Ctx<G> Hold<G>::c;
#define GET(fn, G, E, P, make) static const Ctx<G> &fn() { auto &h = Hold<G>::cs; h = make; Hold<G>::c = ctx<G>(h, h.E, h.P); return Hold<G>::c; }
GET(get_d1, edwards_G1, E1, P1, tiny_edwards(19, 7, 8))
GET(get_d2, edwards_G2, E2, P2, tiny_edwards(43, 13, 5))
GET(get_a1, alt_bn128_G1, E1, P1, tiny_alt_bn128(1))
GET(get_a2, alt_bn128_G2, E2, P2, tiny_alt_bn128(-1))
GET(get_b1, bls12_381_G1, E1, P1, tiny_bls12_381(-2))
GET(get_b2, bls12_381_G2, E2, P2, tiny_bls12_381(-2))
GET(get_41, mnt4_G1, E1, P1, tiny_mnt4(13, 17))
GET(get_42, mnt4_G2, E2, P2, tiny_mnt4(13, 17))
GET(get_61, mnt6_G1, E1, P1, tiny_mnt6(37, 31))
GET(get_62, mnt6_G2, E2, P2, tiny_mnt6(37, 43))

// every list over the complete tiny scalar field and all bases
template<class G, class F> void complete(const char *nm, const Ctx<G> &(*get)(), unsigned full, unsigned ns)
{
    for (unsigned s = 0; s < ns; s++) if (unit("%s complete lists %u/%u", nm, s, ns)) {
        const Ctx<G> &c = get(); std::vector<u64> b; VZ sc; for (u64 i = 0; i < c.r; i++) { b.push_back(i); sc.push_back(zu(i)); }
        if (c.r > 8 && !thorough()) { lists<G, F>(c, b, sc, 0, 1, {1, 2}, s, ns); lists<G, F>(c, {0, 1, 2, c.r - 1}, sc, 2, 2, {1, 2}, s, ns); }
        else lists<G, F>(c, b, sc, 0, full, {1, 2}, s, ns);
        if (full < 3) lists<G, F>(c, {0, 1, c.r - 1}, {0, 1, 2, zu(c.r - 1), zu(c.r / 2)}, 3, 3, {1, 2, 3}, s, ns);
    }
}
// shipped curves with their own scalar fields
template<class G> void ship(const Crv<mpz_class> &C, const Pt<mpz_class> &P, const mpz_class &r)
{
    typedef typename G::scalar_field F; const std::string nm = GK<G>::name();
    std::vector<std::pair<size_t, int>> cases; for (size_t n : {0, 1, 2, 3, 5, 8, 17}) for (int k = 0; k <= 10; k++) if (thorough() || (n + k) % 3 == 0) cases.push_back({n, k});
    for (auto &cs : cases) {
        size_t n = cs.first; VZ s = pattern(cs.second, n, r); std::vector<G> g; std::vector<F> f; mpz_class w = 0;
        for (size_t i = 0; i < n; i++) { unsigned long mu = (i * 5 + cs.second) % 7; G x = G::zero(); for (unsigned long k = 0; k < mu; k++) x = x + G::one(); if (MIXED) x.to_special(); g.push_back(x); f.push_back(mkf<F>(s[i])); w += s[i] * mu; }
        Pt<mpz_class> W = C.mul(w % r, P); at("%s shipped length %zu pattern %d", nm.c_str(), n, cs.second); state();
        for (size_t ch : {(size_t)1, (size_t)2, n + 1}) {
#define SM(M) VF_CHECK(is(C, (multi_exp<G, F, M>(g.begin(), g.end(), f.begin(), f.end(), ch)), W) && is(C, (multi_exp_with_mixed_addition<G, F, M>(g.begin(), g.end(), f.begin(), f.end(), ch)), W), nm + ".shipped." #M, "length %zu pattern %d chunks %zu", n, cs.second, ch)
            SM(multi_exp_method_naive); SM(multi_exp_method_naive_plain); SM(multi_exp_method_bos_coster); SM(multi_exp_method_BDLO12);
        }
    }
    trace();
}
template<class G1, class G2, class MK> void shipped(const char *nm, MK make)
{
    if (unit("shipped %s G1", nm)) { auto c = make(); ship<G1>(c.E1, c.P1, c.r); }
    if (unit("shipped %s G2", nm)) { auto c = make(); ship<G2>(c.E2, c.P2, c.r); }
}
VF_MAIN([]() {
    quiet();
    complete<edwards_G1, edwards_Fr>("EDW(19,7) G1", get_d1, thorough() ? 3 : 2, thorough() ? 8 : 2);
    complete<edwards_G2, edwards_Fr>("EDW(43,13) G2", get_d2, 2, 4);
    complete<mnt4_G1, mnt4_Fr>("MNT4(13,17) G1", get_41, 2, 4);
    complete<bls12_381_G1, bls12_381_Fr>("BLS12(-2) G1", get_b1, 2, 4);
    complete<alt_bn128_G2, alt_bn128_Fr>("BN(-1) G2", get_a2, 2, 4);
    complete<mnt6_G1, mnt6_Fr>("MNT6(37,31) G1", get_61, thorough() ? 2 : 1, 4);
    wide_lists<edwards_G1, S3>("EDW(19,7) G1", get_d1); wide_lists<edwards_G1, S1>("EDW(19,7) G1", get_d1); wide_lists<edwards_G1, S2>("EDW(19,7) G1", get_d1);
    wide_lists<alt_bn128_G1, S4>("BN(1) G1", get_a1); wide_lists<bls12_381_G1, S4>("BLS12(-2) G1", get_b1); wide_lists<mnt4_G1, S5>("MNT4(13,17) G1", get_41); wide_lists<mnt6_G1, S5>("MNT6(37,31) G1", get_61); wide_lists<bls12_381_G1, S6>("BLS12(-2) G1", get_b1);
    wide_lists<alt_bn128_G2, S4>("BN(-1) G2", get_a2); wide_lists<mnt4_G2, S5>("MNT4(13,17) G2", get_42);
    if (thorough()) { wide_lists<bls12_381_G2, S4>("BLS12(-2) G2", get_b2); wide_lists<mnt6_G2, S5>("MNT6(37,43) G2", get_62); wide_lists<edwards_G2, S3>("EDW(43,13) G2", get_d2); }
    shipped<alt_bn128_G1, alt_bn128_G2>("alt_bn128", ship_alt_bn128); shipped<bls12_381_G1, bls12_381_G2>("bls12_381", ship_bls12_381); shipped<mnt4_G1, mnt4_G2>("mnt4", ship_mnt4); shipped<mnt6_G1, mnt6_G2>("mnt6", ship_mnt6); shipped<edwards_G1, edwards_G2>("edwards", ship_edwards);
    if (unit("inner product wide")) { wide(); inner<S1>(); inner<S2>(); inner<S3>(); inner<S4>(); inner<S5>(); inner<S6>(); }
})
