// C13: windowed fixed-base exponentiation equals plain multiplication.
#include "curves.hpp"
#include <libff/algebra/scalar_multiplication/multiexp.hpp>
using namespace libff;
using namespace vf;
typedef std::vector<mpz_class> VZ;
template<class G> struct Ctx { Crv<u64> C; std::vector<Pt<u64>> t; u64 r; };
template<class G> G start(const Ctx<G> &c, u64 b) { E64 l = c.C.T.zero(); for (int k = 0; k < l.d; k++) l.c[k] = 2 + k; return rep<G>(c.C, c.t[b % c.r], b & 1 ? l : c.C.T.one()); }
template<class G> const Pt<u64> &want(const Ctx<G> &c, u64 b, const mpz_class &k) { mpz_class x = ref::mod(k * zu(b), zu(c.r)); return c.t[x.get_ui()]; }
// the whole table, then every scalar in K
template<class G, class F> void table(const Ctx<G> &c, size_t size, size_t w, u64 b, const VZ &K)
{
    static const std::string nm = GK<G>::name();
    at("%s table size %zu window %zu base %d", nm.c_str(), size, w, (int)b);
    window_table<G> T = get_window_table<G>(size, w, start(c, b)); state();
    size_t oc = (size + w - 1) / w;
    VF_CHECK(T.size() == oc, nm + ".table.shape", "size %zu window %zu: %zu rows", size, w, T.size());
    for (size_t o = 0; o < T.size(); o++) {
        size_t n = o + 1 == oc ? 1ul << (size - (oc - 1) * w) : 1ul << w;
        if (T[o].size() < n) { fail(nm + ".table.shape", "row %zu too short", o); continue; }
        for (size_t i = 0; i < n; i += n > 4096 ? 61 : 1) VF_CHECK(is(c.C, T[o][i], want(c, b, (mpz_class(1) << (o * w)) * (unsigned long)i)), nm + ".table.entry", "size %zu window %zu entry [%zu][%zu]", size, w, o, i);
    }
    std::vector<F> v; for (auto &k : K) v.push_back(mkf<F>(k));
    for (size_t i = 0; i < K.size(); i++) { tick(); state(); VF_CHECK(is(c.C, (windowed_exp<G, F>(size, w, T, v[i])), want(c, b, K[i])), nm + ".windowed_exp", "size %zu window %zu base %d scalar %s", size, w, (int)b, K[i].get_str().c_str()); }
    auto R = batch_exp<G, F>(size, w, T, v);
    if (R.size() != v.size()) { fail(nm + ".batch_exp.length", "%zu for %zu", R.size(), v.size()); return; }
    for (size_t i = 0; i < K.size(); i++) VF_CHECK(is(c.C, R[i], want(c, b, K[i])), nm + ".batch_exp", "size %zu window %zu index %zu scalar %s", size, w, i, K[i].get_str().c_str());
    for (mpz_class co : {mpz_class(0), mpz_class(1), mpz_class(3)}) {
        std::vector<F> u; VZ ku; for (auto &k : K) if (co * k < (mpz_class(1) << size) && co * k < Z(F::mod)) { u.push_back(mkf<F>(k)); ku.push_back(k); }
        auto Q = batch_exp_with_coeff<G, F>(size, w, T, mkf<F>(co), u);
        if (Q.size() != u.size()) { fail(nm + ".batch_exp_with_coeff.length", "%zu for %zu", Q.size(), u.size()); continue; }
        for (size_t i = 0; i < u.size(); i++) VF_CHECK(is(c.C, Q[i], want(c, b, co * ku[i])), nm + ".batch_exp_with_coeff", "size %zu window %zu coeff %s scalar %s", size, w, co.get_str().c_str(), ku[i].get_str().c_str());
    }
}
template<class G, class F> void small(const Ctx<G> &c, unsigned maxsize, unsigned sl, unsigned ns)
{
    for (size_t size = 1; size <= maxsize; size++) for (size_t w = 1; w <= size + 2 && w <= 10; w++) for (u64 b : {(u64)1, (u64)0, (u64)c.r - 1}) {
        if ((size * 31 + w * 7 + b) % ns != sl) continue;
        VZ K; for (unsigned long k = 0; k < (1ul << size); k++) K.push_back(k);
        table<G, F>(c, size, w, b, K);
    }
    // empty and repeated batches
    table<G, F>(c, 9, 4, 1, {}); table<G, F>(c, 9, 4, 1, {5, 5, 5, 0, 0, 511, 511});
    size_t q = 0; for (size_t n : {(size_t)100, (size_t)127, (size_t)128, (size_t)129, (size_t)255, (size_t)256, (size_t)257, (size_t)513, (size_t)1000, (size_t)1025, (size_t)4097}) if (q++ % ns == sl) { // batch sizes
        VZ K; for (unsigned long i = 0; i < n; i++) K.push_back((i * 37 + i / 3) % 512); table<G, F>(c, 9, 1 + n % 7, 1, K); }
    trace();
}
template<class G, class F> void wide(const Ctx<G> &c, const mpz_class &m, unsigned sl, unsigned ns)
{
    size_t bits = mpz_sizeinbase(m.get_mpz_t(), 2);
    for (size_t size : {(size_t)20, (size_t)31, (size_t)32, (size_t)33, (size_t)63, (size_t)64, (size_t)65, (size_t)100, (size_t)128, bits - 1, bits}) for (size_t w = 1; w <= 12; w++) {
        if (size > bits || (size * 5 + w) % ns != sl) continue;
        std::set<mpz_class> K; mpz_class top = mpz_class(1) << size; if (top > m) top = m;
        for (size_t i = 0; i < size; i++) { mpz_class p = mpz_class(1) << i; for (mpz_class z : {p, mpz_class(p - 1), mpz_class(top - 1 - p), mpz_class(top - p), mpz_class(3 * p)}) if (z >= 0 && z < top) K.insert(z); }
        K.insert(top - 1); K.insert(top / 3); K.insert(top / 5 * 2);
        VZ k(K.begin(), K.end()); if (!thorough() && k.size() > 160) { VZ t; for (size_t i = 0; i < k.size(); i++) if (i % (k.size() / 160 + 1) == size % (k.size() / 160 + 1) || i + 3 > k.size()) t.push_back(k[i]); k = t; }
        table<G, F>(c, size, w, 2, k);
    }
    // coefficients: products reduced modulo the field before the lookup, so only the full width is in contract
    { window_table<G> T = get_window_table<G>(bits, 5, start(c, 3)); VZ A = {0, 1, 2, m - 1, m - 2, m / 2, m / 3, (mpz_class(1) << (bits - 1)) - 1}; static const std::string nm = GK<G>::name();
      std::vector<F> v; for (auto &a : A) v.push_back(mkf<F>(a));
      for (auto &co : A) { auto Q = batch_exp_with_coeff<G, F>(bits, 5, T, mkf<F>(co), v); for (size_t i = 0; i < A.size(); i++) { at("coeff"); state(); VF_CHECK(Q.size() == A.size() && is(c.C, Q[i], want(c, 3, ref::mod(co * A[i], m))), nm + ".batch_exp_with_coeff", "full width coeff %s scalar %s", co.get_str().c_str(), A[i].get_str().c_str()); } } }
    trace();
}
typedef Fp_model<1, M<1>::m> S1; typedef Fp_model<3, M<3>::m> S3; typedef Fp_model<4, M<4>::m> S4; typedef Fp_model<5, M<5>::m> S5;
static mpz_class nextp(mpz_class v) { mpz_nextprime(v.get_mpz_t(), v.get_mpz_t()); return v; }
static void moduli()
{
    setup_modulus<S1, 1>(M<1>::m, nextp((mpz_class(1) << 62) + 12345)); setup_modulus<S3, 3>(M<3>::m, nextp((mpz_class(1) << 180) + 999));
    setup_modulus<S4, 4>(M<4>::m, nextp((mpz_class(1) << 254) - (mpz_class(1) << 130))); setup_modulus<S5, 5>(M<5>::m, nextp((mpz_class(1) << 298) - (mpz_class(1) << 200)));
}
template<class G, class F, class MK> void grp(const char *nm, MK make, bool g2)
{
    const unsigned ns = 4;
    auto cx = [&]() { CS cs = make(); Ctx<G> c; c.C = g2 ? cs.E2 : cs.E1; c.r = cs.r.get_ui(); c.t = c.C.table(g2 ? cs.P2 : cs.P1, c.r); moduli(); return c; };
    for (unsigned s = 0; s < ns; s++) if (unit("%s small scalar sizes %u/%u", nm, s, ns)) { auto c = cx(); small<G, F>(c, thorough() ? 13 : 9, s, ns); }
    for (unsigned s = 0; s < ns; s++) if (unit("%s wide scalar sizes %u/%u", nm, s, ns)) { auto c = cx(); wide<G, F>(c, Z(F::mod), s, ns); }
}
// the automatic choice
template<class G> void choice(const char *nm)
{
    auto probe = [&](const char *what) {
        std::set<size_t> N = {0, 1, 2, 3, (size_t)-1, (size_t)1 << 63, 1000000, 12345678};
        for (auto x : G::fixed_base_exp_window_table) for (long d = -2; d <= 2; d++) if (d >= 0 || x >= (size_t)-d) N.insert(x + d);
        size_t maxw = G::fixed_base_exp_window_table.empty() ? 17 : std::max<size_t>(1, G::fixed_base_exp_window_table.size());
#ifdef LOWMEM
        maxw = std::min<size_t>(maxw, 14);
#endif
        for (size_t n : N) { at("%s window for %zu", nm, n); state(); size_t w = get_exp_window_size<G>(n); VF_CHECK(w >= 1 && w <= maxw, std::string("window_choice.") + nm, "%s: %zu scalars chose window %zu", what, n, w); }
    };
    probe("shipped table");
    auto keep = G::fixed_base_exp_window_table;
    for (int mask = 0; mask < 64; mask++) for (int len = 0; len <= 6; len++) { std::vector<size_t> t; for (int i = 0; i < len; i++) t.push_back(mask >> i & 1 ? 0 : 1 + i * i * 3); G::fixed_base_exp_window_table = t; probe("synthetic table"); }
    G::fixed_base_exp_window_table = keep; trace();
}
// shipped curves: the documented use, window from the chooser, full-width scalars
template<class G> void ship(const Crv<mpz_class> &C, const Pt<mpz_class> &P, const mpz_class &r)
{
    typedef typename G::scalar_field F; const std::string nm = GK<G>::name(); size_t bits = F::num_bits;
    for (size_t cnt : {(size_t)1, (size_t)5, (size_t)30}) {
        size_t w = get_exp_window_size<G>(cnt); if (w > 9) w = 9;
        at("%s shipped batch of %zu window %zu", nm.c_str(), cnt, w);
        window_table<G> T = get_window_table<G>(bits, w, G::one()); tick();
        VZ K; for (size_t i = 0; i < std::min<size_t>(cnt, 6); i++) K.push_back(i == 0 ? mpz_class(r - 1) : i == 1 ? mpz_class(0) : i == 2 ? mpz_class(r / 2) : ref::mod(mpz_class("299792458299792458299792458299792458299792458299792458299792458299792458299792458") * (unsigned long)(i + 1), r));
        std::vector<F> v; for (auto &k : K) v.push_back(mkf<F>(k));
        auto R = batch_exp<G, F>(bits, w, T, v); auto Q = batch_exp_with_coeff<G, F>(bits, w, T, mkf<F>(mpz_class(r - 3)), v);
        for (size_t i = 0; i < K.size(); i++) { state(); tick(); VF_CHECK(R.size() == K.size() && is(C, R[i], C.mul(K[i], P)), nm + ".shipped.batch_exp", "scalar %s", K[i].get_str().c_str()); VF_CHECK(Q.size() == K.size() && is(C, Q[i], C.mul(ref::mod(K[i] * (r - 3), r), P)), nm + ".shipped.batch_exp_with_coeff", "scalar %s", K[i].get_str().c_str()); }
    }
    choice<G>(nm.c_str()); trace();
}
template<class G1, class G2, class MK> void shipped(const char *nm, MK make)
{
    if (unit("shipped %s G1", nm)) { auto c = make(); ship<G1>(c.E1, c.P1, c.r); }
    if (unit("shipped %s G2", nm)) { auto c = make(); ship<G2>(c.E2, c.P2, c.r); }
}
VF_MAIN([]() {
    quiet();
    grp<edwards_G1, S3>("EDW(19,7) G1", []() { return tiny_edwards(19, 7, 8); }, false); grp<edwards_G1, S1>("EDW(19,7) G1, one limb", []() { return tiny_edwards(19, 7, 8); }, false);
    grp<alt_bn128_G1, S4>("BN(1) G1", []() { return tiny_alt_bn128(1); }, false); grp<alt_bn128_G2, S4>("BN(-1) G2", []() { return tiny_alt_bn128(-1); }, true);
    grp<bls12_381_G1, S4>("BLS12(-2) G1", []() { return tiny_bls12_381(-2); }, false); grp<bls12_381_G2, S4>("BLS12(-2) G2", []() { return tiny_bls12_381(-2); }, true);
    grp<mnt4_G1, S5>("MNT4(13,17) G1", []() { return tiny_mnt4(13, 17); }, false); grp<mnt6_G1, S5>("MNT6(37,31) G1", []() { return tiny_mnt6(37, 31); }, false);
    if (thorough()) { grp<mnt4_G2, S5>("MNT4(13,17) G2", []() { return tiny_mnt4(13, 17); }, true); grp<mnt6_G2, S5>("MNT6(37,31) G2", []() { return tiny_mnt6(37, 31); }, true); grp<edwards_G2, S3>("EDW(43,13) G2", []() { return tiny_edwards(43, 13, 5); }, true); }
    if (unit("window 17 on the smallest curve")) { CS cs = tiny_edwards(19, 7, 8); Ctx<edwards_G1> c; c.C = cs.E1; c.r = 7; c.t = c.C.table(cs.P1, 7); moduli(); edwards_G1::fixed_base_exp_window_table.clear(); size_t w = get_exp_window_size<edwards_G1>(1000000); table<edwards_G1, S3>(c, 180, w, 3, {0, 1, 5, (mpz_class(1) << 180) - 1, (mpz_class(1) << 179), (mpz_class(1) << 17) - 1, mpz_class(1) << 17, (mpz_class(1) << 180) / 3}); }
    shipped<alt_bn128_G1, alt_bn128_G2>("alt_bn128", ship_alt_bn128); shipped<bls12_381_G1, bls12_381_G2>("bls12_381", ship_bls12_381); shipped<mnt4_G1, mnt4_G2>("mnt4", ship_mnt4); shipped<mnt6_G1, mnt6_G2>("mnt6", ship_mnt6); shipped<edwards_G1, edwards_G2>("edwards", ship_edwards);
})
