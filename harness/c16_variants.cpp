// C16: every way of computing a pairing agrees, for all pairs of points and every reuse of precomputed values.
#include "pairs.hpp"
#include <sstream>
#include <array>
using namespace libff;
using namespace vf;
template<class Zt> std::string fs(const El<Zt> &e) { return e.s(); }
// affine Miller-loop combinations exist for MNT curves only
template<class PP> struct Aff { enum { on = 0 }; };
#define AFF(c) template<> struct Aff<c##_pp> { enum { on = 1 }; typedef c##_affine_ate_G1_precomputation A1; typedef c##_affine_ate_G2_precomputation A2; typedef c##_pp PP; };
AFF(mnt4) AFF(mnt6)
template<class G> static G rp(const Crv<u64> &C, const Pt<u64> &p, int v)
{
    E64 l = C.T.zero(); for (int k = 0; k < l.d; k++) l.c[k] = 2 + v + k; if (v == 2) l = C.T.neg(C.T.one());
    if (v == 0) return rep<G>(C, p, GK<G>::kind == INV && !C.isO(p) ? C.T.inv(C.T.mul(p.x, p.y)) : C.T.one());
    return rep<G>(C, p, l);
}
template<class T> T through_stream(const T &x, bool &ok) { std::stringstream ss; ss << x; T y; ss >> y; ok = !ss.fail(); return y; }

template<class PP> struct Tab {  // points, their precomputations and single Miller values
    typedef PT<PP> X; typedef typename X::G1 G1; typedef typename X::G2 G2; typedef typename X::FK FK; typedef typename X::PG1 PG1; typedef typename X::PG2 PG2;
    std::vector<G1> P; std::vector<G2> Q; std::vector<PG1> p; std::vector<PG2> q; std::vector<std::vector<FK>> m; std::string nm, cn;
    void fill()
    {
        nm = X::name();
        for (auto &x : P) p.push_back(X::pre1(x));
        for (auto &x : Q) q.push_back(X::pre2(x));
        for (size_t i = 0; i < P.size(); i++) { m.emplace_back(); for (size_t j = 0; j < Q.size(); j++) { at("%s miller %zu %zu", cn.c_str(), i, j); m[i].push_back(X::ml(p[i], q[j])); } }
    }
    // single pairings along every path
    void single(size_t i, size_t j, const std::function<mpz_class(int)> &) { single(i, j); }
    void single(size_t i, size_t j)
    {
        at("%s paths for points %zu %zu", cn.c_str(), i, j); state();
        const FK &f = m[i][j]; FK e = X::fe(f);
#define EQ(a, b, k) VF_CHECK((a) == (b), nm + "." k, "%s points %zu,%zu", cn.c_str(), i, j)
        EQ(X::pairing(P[i], Q[j]), f, "pairing=miller_loop"); EQ(X::apairing(P[i], Q[j]), f, "ate_pairing=miller_loop"); EQ(PP::pairing(P[i], Q[j]), f, "pp.pairing");
        EQ(X::reduced(P[i], Q[j]), e, "reduced=final(miller)"); EQ(X::areduced(P[i], Q[j]), e, "ate_reduced"); EQ(PP::reduced_pairing(P[i], Q[j]), e, "pp.reduced_pairing");
        EQ(PP::final_exponentiation(f), e, "pp.final_exponentiation");
        EQ(X::aml(p[i], q[j]), f, "ate_miller_loop"); EQ(PP::miller_loop(p[i], q[j]), f, "pp.miller_loop");
        EQ(X::ml(PP::precompute_G1(P[i]), X::apre2(Q[j])), f, "pp.precompute_G1"); EQ(X::ml(X::apre1(P[i]), PP::precompute_G2(Q[j])), f, "pp.precompute_G2");
    }
    // precomputations: fresh, copied, assigned over another one, moved, through a stream
    void precomp(size_t i, size_t j, size_t k)
    {
        at("%s precomputation reuse %zu %zu over %zu", cn.c_str(), i, j, k); state();
        const FK &f = m[i][j]; PG1 a = p[i], a2 = p[k % p.size()]; PG2 b = q[j], b2 = q[k % q.size()];
        EQ(X::ml(a, b), f, "copied"); a2 = a; b2 = b; EQ(X::ml(a2, b2), f, "assigned");
        PG1 a3(std::move(a2)); PG2 b3(std::move(b2)); EQ(X::ml(a3, b3), f, "moved");
        VF_CHECK(a3 == p[i] && b3 == q[j], nm + ".precomp.equality", "%s points %zu %zu", cn.c_str(), i, j);
        VF_CHECK(!(X::pre1(P[i]) == p[i]) == false && X::pre2(Q[j]) == q[j], nm + ".precomp.deterministic", "%s points %zu %zu", cn.c_str(), i, j);
        bool o1, o2; PG1 a4 = through_stream(p[i], o1); PG2 b4 = through_stream(q[j], o2);
        VF_CHECK(o1 && o2 && a4 == p[i] && b4 == q[j], nm + ".precomp.stream", "%s points %zu %zu", cn.c_str(), i, j);
        if (o1 && o2 && a4 == p[i] && b4 == q[j]) EQ(X::ml(a4, b4), f, "streamed");
        else EQ(a4 == p[i], true, "streamed");
        // read back into objects that were in use
        PG1 a5 = p[k % p.size()]; PG2 b5 = q[k % q.size()]; { std::stringstream s1, s2; s1 << p[i]; s2 << q[j]; s1 >> a5; s2 >> b5; o1 = !s1.fail(); o2 = !s2.fail(); }
        VF_CHECK(o1 && o2 && a5 == p[i] && b5 == q[j], nm + ".precomp.stream", "%s points %zu %zu read into used objects", cn.c_str(), i, j);
        if (o1 && o2 && a5 == p[i] && b5 == q[j]) EQ(X::ml(a5, b5), f, "streamed");
    }
    void dbl(size_t i, size_t j, size_t k, size_t l)
    {
        at("%s double miller loop %zu %zu %zu %zu", cn.c_str(), i, j, k, l); state();
        const FK w = m[i][j] * m[k][l], d = X::dml(p[i], q[j], p[k], q[l]);
        VF_CHECK(d == w, nm + ".double_miller_loop", "%s points (%zu,%zu),(%zu,%zu)", cn.c_str(), i, j, k, l);
        VF_CHECK(X::adml(p[i], q[j], p[k], q[l]) == d && PP::double_miller_loop(p[i], q[j], p[k], q[l]) == d, nm + ".double_miller_loop.wrappers", "%s points (%zu,%zu),(%zu,%zu)", cn.c_str(), i, j, k, l);
    }
};
template<class PP, int On> struct AffRun { static void go(Tab<PP> &, size_t, size_t, size_t, size_t) {} };
template<class PP> struct AffRun<PP, 1> {
    static void go(Tab<PP> &t, size_t i, size_t j, size_t k, size_t l)
    {
        typedef PT<PP> X; typedef typename X::FK FK; const std::string &nm = t.nm;
        at("%s affine combinations %zu %zu %zu %zu", t.cn.c_str(), i, j, k, l); state();
        auto a1 = PP::affine_ate_precompute_G1(t.P[i]), a2 = PP::affine_ate_precompute_G1(t.P[k]); auto b1 = PP::affine_ate_precompute_G2(t.Q[j]), b2 = PP::affine_ate_precompute_G2(t.Q[l]);
        FK e1 = X::alt(t.P[i], t.Q[j]), e2 = X::alt(t.P[k], t.Q[l]), e3 = X::alt(t.P[i], t.Q[l]);
        VF_CHECK(PP::affine_reduced_pairing(t.P[i], t.Q[j]) == e1, nm + ".pp.affine_reduced", "%zu %zu", i, j);
        VF_CHECK(X::fe(PP::affine_ate_miller_loop(a1, b1)) == e1, nm + ".affine=final(affine miller)", "%s (%zu,%zu)", t.cn.c_str(), i, j);
        VF_CHECK(X::fe(PP::affine_ate_e_over_e_miller_loop(a1, b1, a2, b2)) * e2 == e1, nm + ".e_over_e", "%s (%zu,%zu),(%zu,%zu)", t.cn.c_str(), i, j, k, l);
        VF_CHECK(X::fe(PP::affine_ate_e_times_e_over_e_miller_loop(a1, b1, a2, b2, a1, b2)) * e3 == e1 * e2, nm + ".e_times_e_over_e", "%s (%zu,%zu),(%zu,%zu)", t.cn.c_str(), i, j, k, l);
        VF_CHECK(X::fe(PP::affine_ate_e_times_e_over_e_miller_loop(a1, b2, a2, b1, a1, b1)) * e1 == e3 * X::alt(t.P[k], t.Q[j]), nm + ".e_times_e_over_e", "%s swapped (%zu,%zu),(%zu,%zu)", t.cn.c_str(), i, j, k, l);
    }
};
template<class PP> Tab<PP> build(const CS &c, const std::vector<u64> &K)
{
    Tab<PP> t; t.cn = c.name; auto A = c.E1.table(c.P1, c.r.get_ui()), B = c.E2.table(c.P2, c.r.get_ui());
    for (size_t i = 0; i < K.size(); i++) { u64 k = K[i] % c.r.get_ui(); t.P.push_back(rp<typename PT<PP>::G1>(c.E1, A[k], i % 3)); t.Q.push_back(rp<typename PT<PP>::G2>(c.E2, B[k], (i + 1) % 3)); }
    t.fill(); return t;
}
template<class PP> void paths(const CS &c, const std::vector<u64> &K)
{
    auto t = build<PP>(c, K);
    for (size_t i = 0; i < K.size(); i++) for (size_t j = 0; j < K.size(); j++) { t.single(i, j); t.precomp(i, j, i + j + 1); }
    trace();
}
template<class PP> void doubles(const CS &c, const std::vector<u64> &K, unsigned s, unsigned ns)
{
    auto t = build<PP>(c, K); size_t n = K.size(), x = 0;
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) for (size_t k = 0; k < n; k++) for (size_t l = 0; l < n; l++) { if (x++ % ns != s) continue; t.dbl(i, j, k, l); AffRun<PP, Aff<PP>::on>::go(t, i, j, k, l); }
    trace();
}
// identity: the one-step functions answer one; the precomputed path is judged separately
template<class PP> void identity(const CS &c)
{
    typedef PT<PP> X; typedef typename X::FK FK; const std::string nm = X::name();
    auto A = c.E1.table(c.P1, c.r.get_ui()), B = c.E2.table(c.P2, c.r.get_ui());
    for (u64 k = 0; k < c.r.get_ui(); k++) for (int v = 0; v < 2; v++) for (int side = 0; side < 3; side++) {
        auto P = rp<typename X::G1>(c.E1, A[side == 1 ? k : 0], v); auto Q = rp<typename X::G2>(c.E2, B[side == 0 ? k : 0], v);
        if (side == 2 && k) continue; if (side != 2 && !k) continue;
        at("%s identity side %d with %d", c.name.c_str(), side, (int)k); state();
        const char *sd = side == 0 ? "P" : side == 1 ? "Q" : "both";
        VF_CHECK(X::reduced(P, Q) == FK::one() && X::areduced(P, Q) == FK::one() && X::fe(X::pairing(P, Q)) == FK::one() && PP::reduced_pairing(P, Q) == FK::one(), nm + ".identity." + sd, "%s k=%d", c.name.c_str(), (int)k);
        if (X::alts) VF_CHECK(X::alt(P, Q) == FK::one(), nm + ".alt-identity." + sd, "%s k=%d", c.name.c_str(), (int)k);
    }
    trace();
}
// the final exponentiation against its exponent, over whole subsets of the target field
template<class PP> void finalexp(const CS &c, unsigned s, unsigned ns)
{
    typedef PT<PP> X; typedef typename X::FK FK; const std::string nm = X::name(); const T64 &T = c.TK; u64 p = T.p;
    mpz_class qk = ref::ipow(c.q, c.k), e = (qk - 1) / c.r * X::fe_mult(c.x); e = ref::mod(e, qk - 1);
    auto one = [&](const E64 &v) {
        if (v.zero()) return; at("%s final exponentiation of %s", c.name.c_str(), v.s().c_str()); state();
        E64 got = flat<u64>(X::fe(unflat<FK>(v))), want = T.pow(v, e);
        VF_CHECK(got == want, nm + ".final_exponentiation", "%s of %s: got %s want %s", c.name.c_str(), v.s().c_str(), got.s().c_str(), want.s().c_str());
    };
    size_t n = 0; int d = T.dim();
    for (int i = 0; i < d; i++) for (int j = i; j < d; j++) for (u64 a = 0; a < p; a += p > 50 ? p / 11 : 1) for (u64 b = 0; b < p; b += p > 50 ? p / 7 : 1) { if (n++ % ns != s) continue; if (i == j && b) continue; E64 v = T.zero(); v.c[i] = a; if (i != j) v.c[j] = b; one(v); }
    E64 base = T.zero(); for (int i = 0; i < d; i++) base.c[i] = (3 * i * i + i + 2) % p;
    E64 v = base; for (int k = 0; k < (thorough() ? 20000 : 1500); k++) { if (n++ % ns == s) one(v); v = T.mul(v, base); }
    unsigned lim = d <= 6 ? 3 : 2; size_t tot = 1; for (int i = 0; i < d; i++) tot *= lim; for (size_t k = 0; k < tot; k++) { if (n++ % ns != s) continue; E64 w = T.zero(); size_t y = k; for (int i = 0; i < d; i++) { w.c[i] = y % lim == 2 ? p - 1 : y % lim; y /= lim; } one(w); }
    trace();
}
// double loops over points that share a coordinate (or a coefficient of one)
template<class PP> void sharing(const CS &c, size_t cap)
{
    u64 r = c.r.get_ui(); auto A = c.E1.table(c.P1, r), B = c.E2.table(c.P2, r); typedef std::array<u64, 2> Pr;
    auto common = [](const E64 &x, const E64 &y) { for (int i = 0; i < x.d; i++) if (x.c[i] == y.c[i]) return true; return false; };
    std::vector<Pr> p, q; std::map<int, size_t> seen;
    for (u64 i = 1; i < r; i++) for (u64 k = 1; k < r; k++) if (i != k) {
        int w = (A[i].x == A[k].x) + 2 * (A[i].y == A[k].y) + 4 * (A[i].x == A[k].y) + 8 * (A[i].x.zero() || A[i].y.zero()); if (w && seen[w]++ < cap) p.push_back({i, k});
        w = 16 + common(B[i].x, B[k].x) + 2 * common(B[i].y, B[k].y) + 4 * (B[i].x == B[k].x) + 32 * (B[i].y == B[k].y); if (w > 16 && seen[w]++ < cap) q.push_back({i, k});
    }
    auto run = [&](const std::vector<Pr> &p_, const std::vector<Pr> &q_) {
        for (auto &x : p_) for (auto &y : q_) { Tab<PP> t; t.cn = c.name; typedef typename PT<PP>::G1 G1; typedef typename PT<PP>::G2 G2; for (int e = 0; e < 2; e++) { t.P.push_back(rp<G1>(c.E1, A[x[e]], 0)); t.Q.push_back(rp<G2>(c.E2, B[y[e]], 0)); } t.fill(); t.dbl(0, 0, 1, 1); t.dbl(0, 0, 1, 0); t.dbl(1, 1, 0, 0); t.dbl(0, 0, 0, 1); AffRun<PP, Aff<PP>::on>::go(t, 0, 0, 1, 1); AffRun<PP, Aff<PP>::on>::go(t, 0, 0, 1, 0); }
    };
    run(p, {{1, 2 % r ? 2 : 1}, {1, r - 1}, {3, 3}}); run({{1, 2}, {1, r - 1}, {3, 3}}, q);
    sample("sharing", c.name + ": " + std::to_string(p.size()) + " pairs of first arguments and " + std::to_string(q.size()) + " of second arguments with a common coordinate"); trace();
}
template<class PP, class MK> void all(const char *nm, MK make, unsigned npts, unsigned ndbl)
{
    if (unit("%s identity", nm)) identity<PP>(make());
    if (unit("%s paths", nm)) { CS c = make(); u64 r = c.r.get_ui(); std::vector<u64> K; for (u64 i = 1; i < r && i <= npts; i++) K.push_back(r - 1 <= npts ? i : i & 1 ? (i + 1) / 2 : r - i / 2); paths<PP>(c, K); }
    for (unsigned s = 0; s < 3; s++) if (unit("%s double loops %u/3", nm, s)) { CS c = make(); u64 r = c.r.get_ui(); std::vector<u64> K; for (u64 i = 1; i < r && i <= ndbl; i++) K.push_back(i & 1 ? (i + 1) / 2 : r - i / 2); doubles<PP>(c, K, s, 3); }
    if (unit("%s shared coordinates", nm)) sharing<PP>(make(), thorough() ? 60 : 8);
    for (unsigned s = 0, ns = 3 * lean(6); s < ns; s++) if (unit("%s final exponentiation %u/%u", nm, s, ns)) finalexp<PP>(make(), s, ns);
}
template<class PP, class MK> void shipped(const char *nm, MK make)
{
    typedef PT<PP> X; typedef typename X::FK FK;
    if (unit("shipped %s paths", nm)) {
        auto c = make(); Tab<PP> t; t.cn = c.name; typename X::G1 P = X::G1::one(); typename X::G2 Q = X::G2::one();
        for (int i = 0; i < (thorough() ? 5 : 3); i++) { t.P.push_back(P); t.Q.push_back(Q); P = P.dbl() + X::G1::one(); Q = -(Q.dbl() + X::G2::one()); }
        t.fill(); size_t n = t.P.size();
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { t.single(i, j); t.precomp(i, j, i + j + 1); }
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) for (size_t k = 0; k < n; k++) for (size_t l = 0; l < n; l++) if (thorough() || (i + j + k + l) % 3 == 0) { t.dbl(i, j, k, l); if (i != k || thorough()) AffRun<PP, Aff<PP>::on>::go(t, i, j, k, l); }
        trace();
    }
    if (unit("shipped %s identity", nm)) {   // affine precomputations of the identity: see known_findings.txt
        make(); typename X::G1 P = X::G1::one(), O1 = X::G1::zero(); typename X::G2 Q = X::G2::one(), O2 = X::G2::zero();
        for (int i = 0; i < 3; i++) {
            at("%s precomputed identity %d", nm, i); state();
            FK f = X::ml(X::pre1(O1), X::pre2(Q)); VF_CHECK(!f.is_zero() && X::fe(f) == FK::one(), std::string(nm) + ".precomp-identity.P", "Miller loop on the precomputation of the identity of G1, partner %d", i);
            FK g = X::ml(X::pre1(P), X::pre2(O2)); VF_CHECK(!g.is_zero() && X::fe(g) == FK::one(), std::string(nm) + ".precomp-identity.Q", "Miller loop on the precomputation of the identity of G2, partner %d", i);
            VF_CHECK(X::reduced(O1, Q) == FK::one() && X::reduced(P, O2) == FK::one() && X::reduced(O1, O2) == FK::one(), std::string(nm) + ".identity", "partner %d", i);
            P = P.dbl() + X::G1::one(); Q = -(Q.dbl() + X::G2::one());
        }
        trace();
    }
    if (unit("shipped %s final exponentiation", nm)) {
        auto c = make(); const auto &T = c.TK; mpz_class qk = ref::ipow(c.q, c.k), x = nm[0] == 'a' ? mpz_class("4965661367192848881") : -mpz_class("15132376222941642752"), e = ref::mod((qk - 1) / c.r * X::fe_mult(x), qk - 1); int d = T.dim();
        std::vector<EZ> V; for (int i = 0; i < d; i++) for (int j = 0; j < d; j += thorough() ? 1 : 5 * lean(12)) { EZ v = T.zero(); v.c[i] = c.q - 1; v.c[j] += 2 + i; V.push_back(v); }
        { EZ v = T.zero(); for (int i = 0; i < d; i++) v.c[i] = c.q / (i + 2); V.push_back(v); for (int i = 0; i < d; i++) v.c[i] = (mpz_class(1) << (13 * i + 1)); V.push_back(v); }
        for (auto &v : V) { EZ w = T.zero(); for (int i = 0; i < d; i++) w.c[i] = ref::mod(v.c[i], c.q); at("%s final exponentiation of %s", nm, w.s().c_str()); state(); EZ got = flat<mpz_class>(X::fe(unflat<FK>(w))); VF_CHECK(got == T.pow(w, e), std::string(X::name()) + ".shipped.final_exponentiation", "of %s", w.s().c_str()); }
        trace();
    }
}
VF_MAIN([]() {
    quiet(); bool t = thorough();
    all<alt_bn128_pp>("BN(-1)", []() { return tiny_alt_bn128(-1); }, 12, t ? 12 : 6); all<alt_bn128_pp>("BN(1)", []() { return tiny_alt_bn128(1); }, t ? 96 : 20, t ? 8 : 5); all<alt_bn128_pp>("BN(-2)", []() { return tiny_alt_bn128(-2); }, t ? 60 : 16, 5);
    all<bls12_381_pp>("BLS12(-2)", []() { return tiny_bls12_381(-2); }, 12, t ? 12 : 6); all<bls12_381_pp>("BLS12(4)", []() { return tiny_bls12_381(4); }, t ? 60 : 16, 5); all<bls12_381_pp>("BLS12(-5)", []() { return tiny_bls12_381(-5); }, t ? 60 : 12, t ? 8 : 5);
    all<mnt4_pp>("MNT4(13,17)", []() { return tiny_mnt4(13, 17); }, 16, t ? 12 : 6); all<mnt4_pp>("MNT4(241,257)", []() { return tiny_mnt4(241, 257); }, 20, 5); all<mnt4_pp>("MNT4(421,401)", []() { return tiny_mnt4(421, 401); }, 20, 5);
    all<mnt6_pp>("MNT6(37,31)", []() { return tiny_mnt6(37, 31); }, 30, t ? 12 : 6); all<mnt6_pp>("MNT6(37,43)", []() { return tiny_mnt6(37, 43); }, t ? 42 : 20, 5); all<mnt6_pp>("MNT6(577,601)", []() { return tiny_mnt6(577, 601); }, 20, 5);
    all<edwards_pp>("EDW(31,7)", []() { return tiny_edwards(31, 7, 6); }, 6, 6); all<edwards_pp>("EDW(859,211)", []() { return tiny_edwards(859, 211, 113); }, t ? 60 : 20, 5);
    shipped<alt_bn128_pp>("alt_bn128", ship_alt_bn128); shipped<bls12_381_pp>("bls12_381", ship_bls12_381); shipped<mnt4_pp>("mnt4", ship_mnt4); shipped<mnt6_pp>("mnt6", ship_mnt6); shipped<edwards_pp>("edwards", ship_edwards);
})
