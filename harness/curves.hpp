// The shipped curve classes re-parameterised with tiny curves, and an affine reference group to judge them by.
#pragma once
#include "towers.hpp"
#include "gcdext_shim.hpp"
#include <libff/algebra/curves/alt_bn128/alt_bn128_pp.hpp>
#include <libff/algebra/curves/bls12_381/bls12_381_pp.hpp>
#include <libff/algebra/curves/edwards/edwards_pp.hpp>
#include <libff/algebra/curves/mnt/mnt4/mnt4_pp.hpp>
#include <libff/algebra/curves/mnt/mnt6/mnt6_pp.hpp>

// ---- affine reference
template<class Zt> struct Pt {
    El<Zt> x, y; bool inf = false;
    bool operator==(const Pt &o) const { return inf == o.inf && (inf || (x == o.x && y == o.y)); }
    bool operator!=(const Pt &o) const { return !(*this == o); }
    std::string s() const { return inf ? "O" : x.s() + y.s(); }
};
struct RefBad {};
template<class Zt> struct Crv {           // y^2 = x^3+ax+b, or a x^2+y^2 = 1+b x^2y^2
    Tower<Zt> T; El<Zt> a, b; bool edw = false;
    typedef El<Zt> E; typedef Pt<Zt> P;
    P O() const { P p; p.x = T.zero(); p.y = edw ? T.one() : T.zero(); p.inf = !edw; return p; }
    bool isO(const P &p) const { return edw ? p.x.zero() && p.y == T.one() : p.inf; }
    bool on(const P &p) const
    {
        if (p.inf) return true;
        E xx = T.sqr(p.x), yy = T.sqr(p.y);
        if (edw) return T.add(T.mul(a, xx), yy) == T.add(T.one(), T.mul(b, T.mul(xx, yy)));
        return yy == T.add(T.add(T.mul(xx, p.x), T.mul(a, p.x)), b);
    }
    P neg(const P &p) const { P r = p; if (edw) r.x = T.neg(p.x); else r.y = T.neg(p.y); return r; }
    E div(const E &n, const E &d) const { if (d.zero()) throw RefBad(); return T.mul(n, T.inv(d)); }
    P add(const P &p, const P &q) const
    {
        P r;
        if (edw) {
            E k = T.mul(b, T.mul(T.mul(p.x, q.x), T.mul(p.y, q.y)));
            r.x = div(T.add(T.mul(p.x, q.y), T.mul(p.y, q.x)), T.add(T.one(), k));
            r.y = div(T.sub(T.mul(p.y, q.y), T.mul(a, T.mul(p.x, q.x))), T.sub(T.one(), k));
            return r;
        }
        if (p.inf) return q;
        if (q.inf) return p;
        E l;
        if (p.x == q.x) {
            if (p.y != q.y || p.y.zero()) return O();
            E xx = T.sqr(p.x);
            l = div(T.add(T.add(xx, T.add(xx, xx)), a), T.add(p.y, p.y));
        } else l = div(T.sub(q.y, p.y), T.sub(q.x, p.x));
        r.x = T.sub(T.sub(T.sqr(l), p.x), q.x);
        r.y = T.sub(T.mul(l, T.sub(p.x, r.x)), p.y);
        return r;
    }
    P mul(const mpz_class &k, const P &p) const
    {
        P r = O();
        if (k < 0) return mul(-k, neg(p));
        for (long i = (long)mpz_sizeinbase(k.get_mpz_t(), 2) - 1; i >= 0; i--) { r = add(r, r); if (mpz_tstbit(k.get_mpz_t(), i)) r = add(r, p); }
        return r;
    }
    // multiples 0..n-1
    std::vector<P> table(const P &p, u64 n) const { std::vector<P> v; P x = O(); for (u64 i = 0; i < n; i++) { v.push_back(x); x = add(x, p); } return v; }
};

// square root of a known square in a tower (Tonelli-Shanks)
template<class Zt> El<Zt> tsqrt(const Tower<Zt> &T, const El<Zt> &a)
{
    if (a.zero()) return a;
    mpz_class t = T.size() - 1; unsigned s = 0; while (t % 2 == 0) { t /= 2; s++; }
    El<Zt> n; u64 sp = mpz_class(ref::str(T.p)) > 60 ? 60 : mpz_class(ref::str(T.p)).get_ui();
    for (u64 k = 2;; k++) { u64 j = k; n = T.zero(); for (int i = n.d - 1; i >= 0; i--) { n.c[i] = Zt((unsigned long)(j % sp)); j /= sp; } if (!n.zero() && !T.is_square(n)) break; }
    El<Zt> c = T.pow(n, t), x = T.pow(a, (t + 1) / 2), w = T.pow(a, t);
    while (w != T.one()) {
        unsigned m = 0; El<Zt> z = w; while (z != T.one()) { z = T.sqr(z); m++; }
        El<Zt> d = c; for (unsigned i = 0; i + 1 + m < s; i++) d = T.sqr(d);
        x = T.mul(x, d); c = T.sqr(d); w = T.mul(w, c); s = m;
    }
    return x;
}
// the k-th affine point found by scanning x
template<class Zt> Pt<Zt> scan_point(const Crv<Zt> &C, u64 start, u64 smallp)
{
    const Tower<Zt> &T = C.T;
    for (u64 k = start;; k++) {
        Pt<Zt> p; p.x = T.nth(k, smallp);
        El<Zt> xx = T.sqr(p.x), rhs;
        if (C.edw) {
            El<Zt> d = T.sub(T.one(), T.mul(C.b, xx));
            if (d.zero()) continue;
            rhs = T.mul(T.sub(T.one(), T.mul(C.a, xx)), T.inv(d));
        } else rhs = T.add(T.add(T.mul(xx, p.x), T.mul(C.a, p.x)), C.b);
        if (!T.is_square(rhs)) continue;
        p.y = tsqrt(T, rhs);
        return p;
    }
}
// ---- representations
enum Kind { JAC, PROJ, INV };
template<class G> struct GK;
#define GKDEF(G_, K_, F_, N_) template<> struct GK<libff::G_> { static const Kind kind = K_; typedef libff::F_ F; static const char *name() { return N_; } };
GKDEF(alt_bn128_G1, JAC, alt_bn128_Fq, "alt_bn128_G1")
GKDEF(alt_bn128_G2, JAC, alt_bn128_Fq2, "alt_bn128_G2")
GKDEF(bls12_381_G1, JAC, bls12_381_Fq, "bls12_381_G1")
GKDEF(bls12_381_G2, JAC, bls12_381_Fq2, "bls12_381_G2")
GKDEF(mnt4_G1, PROJ, mnt4_Fq, "mnt4_G1")
GKDEF(mnt4_G2, PROJ, mnt4_Fq2, "mnt4_G2")
GKDEF(mnt6_G1, PROJ, mnt6_Fq, "mnt6_G1")
GKDEF(mnt6_G2, PROJ, mnt6_Fq3, "mnt6_G2")
GKDEF(edwards_G1, INV, edwards_Fq, "edwards_G1")
GKDEF(edwards_G2, INV, edwards_Fq3, "edwards_G2")

template<class G, class Zt> G raw(const El<Zt> &X, const El<Zt> &Y, const El<Zt> &Z)
{
    typedef typename GK<G>::F F;
    G g; g.X = unflat<F>(X); g.Y = unflat<F>(Y); g.Z = unflat<F>(Z); return g;
}
// the representation of p scaled by lambda; the identity has two shapes in Jacobian coordinates (shape 1: Z=0 reached as a limit)
template<class G, class Zt> G rep(const Crv<Zt> &C, const Pt<Zt> &p, const El<Zt> &l, int shape = 0)
{
    const Tower<Zt> &T = C.T; El<Zt> z = T.zero(), l2 = T.sqr(l);
    switch (GK<G>::kind) {
    case JAC:
        if (p.inf) return shape ? raw<G>(l2, T.mul(l2, l), z) : raw<G>(z, l, z);
        return raw<G>(T.mul(p.x, l2), T.mul(p.y, T.mul(l2, l)), l);
    case PROJ:
        if (p.inf) return raw<G>(z, l, z);
        return raw<G>(T.mul(p.x, l), T.mul(p.y, l), l);
    default:
        if (C.isO(p)) return raw<G>(l, z, z);
        return raw<G>(T.mul(p.y, l), T.mul(p.x, l), T.mul(T.mul(p.x, p.y), l));
    }
}
template<class G, class Zt> G rep(const Crv<Zt> &C, const Pt<Zt> &p) { return rep<G>(C, p, C.T.one()); }
// scalings a shortcut might mistake for one: small roots of unity, elements of subfields, elements with a coordinate in common with 1
template<class Zt> const std::vector<El<Zt>> &special_scalings(const Tower<Zt> &T)
{
    static std::map<std::string, std::vector<El<Zt>>> memo;
    std::string key = T.one().s() + ref::str(T.p) + "/"; for (auto &l : T.lv) key += l.nr.s();
    auto it = memo.find(key); if (it != memo.end()) return it->second;
    std::vector<El<Zt>> v; auto put = [&](const El<Zt> &e) { if (e.zero()) return; for (auto &x : v) if (x == e) return; v.push_back(e); };
    El<Zt> one = T.one(), m1 = T.neg(one); put(m1);
    { El<Zt> e = T.add(one, one); put(e); put(T.neg(e)); }
    int d = one.d;
    if (d > 1) {
        for (int lead = 0; lead < 3; lead++) for (int i = 1; i < d; i++) { El<Zt> e = lead == 0 ? T.zero() : lead == 1 ? one : m1; e.c[i] = Zt(1ul); put(e); e.c[i] = Zt(3ul); put(e); }
        El<Zt> e = T.zero(); for (int i = 0; i + 1 < d; i++) e.c[i] = Zt((unsigned long)(i + 2)); put(e);
        e = T.zero(); for (int i = 1; i < d; i++) e.c[i] = Zt((unsigned long)(i + 2)); put(e);
        if (d == 3) { e = T.zero(); e.c[0] = Zt(2ul); e.c[2] = Zt(3ul); put(e); }
    }
    mpz_class n = T.size() - 1;
    for (unsigned k : {3u, 4u, 6u}) if (n % k == 0) for (unsigned long g = 2; g < 60; g++) {
        El<Zt> b = T.zero(); for (int i = 0; i < d; i++) b.c[i] = Zt((unsigned long)((g + i) % (d > 1 ? 5 : 60)) % (mpz_class(ref::str(T.p)).fits_ulong_p() ? mpz_class(ref::str(T.p)).get_ui() : ~0ul)); if (b.zero()) continue;
        El<Zt> w = T.pow(b, n / k); bool prim = true; for (unsigned j = 1; j < k; j++) if (k % j == 0 && T.pow(w, mpz_class((unsigned long)j)) == one) prim = false;
        if (prim) { put(w); put(T.inv(w)); break; }
    }
    return memo[key] = v;
}
inline bool poisoned(const E64 &e) { for (int i = 0; i < e.d; i++) if (e.c[i] == POISON) return true; return false; }
inline bool poisoned(const El<mpz_class> &e) { for (int i = 0; i < e.d; i++) if (e.c[i] < 0) return true; return false; }
// does g represent p?
template<class G, class Zt> bool is(const Crv<Zt> &C, const G &g, const Pt<Zt> &p)
{
    const Tower<Zt> &T = C.T;
    El<Zt> X = flat<Zt>(g.X), Y = flat<Zt>(g.Y), Z = flat<Zt>(g.Z);
    if (poisoned(X) || poisoned(Y) || poisoned(Z)) return false;
    switch (GK<G>::kind) {
    case JAC: {
        if (p.inf || Z.zero()) return p.inf && Z.zero();
        El<Zt> z2 = T.sqr(Z);
        return X == T.mul(p.x, z2) && Y == T.mul(p.y, T.mul(z2, Z));
    }
    case PROJ:
        if (p.inf || Z.zero()) return p.inf && Z.zero() && X.zero();
        return X == T.mul(p.x, Z) && Y == T.mul(p.y, Z);
    default:
        if (C.isO(p)) return Y.zero() && Z.zero();
        // x = Z/X, y = Z/Y
        return !X.zero() && !Y.zero() && Z == T.mul(p.x, X) && Z == T.mul(p.y, Y);
    }
}
template<class G> std::string gs(const G &g) { typedef mpz_class Zt; return "[" + flat<Zt>(g.X).s() + ":" + flat<Zt>(g.Y).s() + ":" + flat<Zt>(g.Z).s() + "]"; }
template<class G> bool same(const G &a, const G &b) { return a.X == b.X && a.Y == b.Y && a.Z == b.Z; }

template<class G> struct Id { static void set(const G &z, const G &o); };
#define IDDEF(G_, Z_, O_) template<> inline void Id<libff::G_>::set(const libff::G_ &z, const libff::G_ &o) { libff::G_::Z_ = z; libff::G_::O_ = o; }
IDDEF(alt_bn128_G1, G1_zero, G1_one) IDDEF(alt_bn128_G2, G2_zero, G2_one)
IDDEF(bls12_381_G1, G1_zero, G1_one) IDDEF(bls12_381_G2, G2_zero, G2_one)
IDDEF(mnt4_G1, G1_zero, G1_one) IDDEF(mnt4_G2, G2_zero, G2_one)
IDDEF(mnt6_G1, G1_zero, G1_one) IDDEF(mnt6_G2, G2_zero, G2_one)
IDDEF(edwards_G1, G1_zero, G1_one) IDDEF(edwards_G2, G2_zero, G2_one)

// ---- a curve pair with its prime-order subgroups
template<class Zt> struct CSet {
    std::string name;
    mpz_class q, r, t, h1, h2;
    Crv<Zt> E1, E2; Pt<Zt> P1, P2;
    Tower<Zt> TK; int k = 0;       // target field, embedding degree
    mpz_class n1, n2, x;           // group orders, family parameter
};
typedef CSet<u64> CS;
static inline mpz_class zu(u64 v) { return mpz_class((unsigned long)v); }

// point of order r on C (group order n)
inline Pt<u64> subgroup_gen(const Crv<u64> &C, const mpz_class &n, const mpz_class &r, u64 start = 1)
{
    if (n % r != 0 || (n / r) % r == 0) { fprintf(stderr, "subgroup_gen: r does not exactly divide n\n"); abort(); }
    for (u64 s = start;; s++) {
        try {
            Pt<u64> P = scan_point(C, s, C.T.p); s = s + 3;
            Pt<u64> Q = C.mul(n / r, P);
            if (C.isO(Q)) continue;
            if (!C.isO(C.mul(r, Q))) { fprintf(stderr, "subgroup_gen: wrong order\n"); abort(); }
            return Q;
        } catch (RefBad &) {}
    }
}
inline bool order_divides(const Crv<u64> &C, const mpz_class &n)
{
    u64 s = 1;
    for (int i = 0; i < 12; i++) { Pt<u64> P = scan_point(C, s, C.T.p); s = s + 5 * C.T.p / 3 + 1; try { if (!C.isO(C.mul(n, P))) return false; } catch (RefBad &) {} }
    return true;
}
inline u64 count_sw(u64 p, u64 a, u64 b)
{
    std::vector<char> roots(p, 0); for (u64 y = 0; y < p; y++) roots[y * y % p]++;
    u64 n = 1; for (u64 x = 0; x < p; x++) n += roots[((x * x % p) * x + a * x + b) % p];
    return n;
}
inline mpz_class isqrt(const mpz_class &v) { mpz_class r; mpz_sqrt(r.get_mpz_t(), v.get_mpz_t()); return r; }

template<class G1, class G2> void finish(CS &c)
{
    c.P1 = subgroup_gen(c.E1, c.n1, c.r); c.P2 = subgroup_gen(c.E2, c.n2, c.r);
    c.h1 = c.n1 / c.r; c.h2 = c.n2 / c.r;
    Id<G1>::set(rep<G1>(c.E1, c.E1.O()), rep<G1>(c.E1, c.P1));
    Id<G2>::set(rep<G2>(c.E2, c.E2.O()), rep<G2>(c.E2, c.P2));
}
// BN curve with parameter x
inline CS tiny_alt_bn128(long x_, int which = 0)
{
    using namespace libff;
    CS c; mpz_class x = x_; c.name = "BN(x=" + std::to_string(x_) + ")"; c.x = x; c.k = 12;
    mpz_class x2 = x * x;
    c.q = 36 * x2 * x2 + 36 * x2 * x + 24 * x2 + 6 * x + 1; c.r = 36 * x2 * x2 + 36 * x2 * x + 18 * x2 + 6 * x + 1; c.t = 6 * x2 + 1;
    u64 p = c.q.get_ui();
    setup_fp<alt_bn128_Fr, alt_bn128_r_limbs>(alt_bn128_modulus_r, c.r); setup_fp<alt_bn128_Fq, alt_bn128_q_limbs>(alt_bn128_modulus_q, c.q);
    u64 beta = irreducible_binomials(p, 2).at(0);
    u64 b = 1; while (count_sw(p, 0, b) != c.r) b++;
    c.n1 = c.r; c.n2 = c.r * (2 * c.q - c.r);
    T64 T1 = tower_p(p), T2 = setup_fp2<alt_bn128_Fq2>(p, beta);
    c.E1.T = T1; c.E1.a = T1.zero(); c.E1.b = e1(b);
    E64 xi; bool ok = false;
    for (auto &y : irreducible_xi(p, beta, 6, 64)) {
        if (y.c[1] == 0 || y.c[0] == 0) continue;
        c.E2.T = T2; c.E2.a = T2.zero(); c.E2.b = T2.mul(ref::mk<u64>({b, 0}), T2.inv(y));
        if (order_divides(c.E2, c.n2) && which-- <= 0) { xi = y; ok = true; break; }
    }
    if (!ok) { fprintf(stderr, "no BN twist\n"); abort(); }
    setup_fp6_3over2<alt_bn128_Fq6>(p, beta, xi); c.TK = setup_fp12<alt_bn128_Fq12>(p, beta, xi);
    alt_bn128_coeff_b = mkf<alt_bn128_Fq>(b); alt_bn128_twist = unflat<alt_bn128_Fq2>(xi); alt_bn128_twist_coeff_b = unflat<alt_bn128_Fq2>(c.E2.b);
    alt_bn128_twist_mul_by_b_c0 = alt_bn128_twist_mul_by_b_c1 = mkf<alt_bn128_Fq>(b * beta % p);
    alt_bn128_twist_mul_by_q_X = unflat<alt_bn128_Fq2>(T2.pow(xi, (c.q - 1) / 3)); alt_bn128_twist_mul_by_q_Y = unflat<alt_bn128_Fq2>(T2.pow(xi, (c.q - 1) / 2));
    mpz_class l = 6 * x + 2;
    alt_bn128_ate_loop_count = B<alt_bn128_q_limbs>(abs(l)); alt_bn128_ate_is_loop_count_neg = l < 0;
    alt_bn128_final_exponent_z = B<alt_bn128_q_limbs>(abs(x)); alt_bn128_final_exponent_is_z_neg = x < 0;
    alt_bn128_G1::initialized = alt_bn128_G2::initialized = true;
    finish<alt_bn128_G1, alt_bn128_G2>(c);
    alt_bn128_G1::h = B<alt_bn128_G1::h_limbs>(c.h1); alt_bn128_G2::h = B<alt_bn128_G2::h_limbs>(c.h2);
    return c;
}
// BLS12 curve with parameter x
inline CS tiny_bls12_381(long x_, int which = 0)
{
    using namespace libff;
    CS c; mpz_class x = x_; c.name = "BLS12(x=" + std::to_string(x_) + ")"; c.x = x; c.k = 12;
    c.r = x * x * x * x - x * x + 1; c.q = (x - 1) * (x - 1) / 3 * c.r + x; c.t = x + 1;
    u64 p = c.q.get_ui();
    setup_fp<bls12_381_Fr, bls12_381_r_limbs>(bls12_381_modulus_r, c.r); setup_fp<bls12_381_Fq, bls12_381_q_limbs>(bls12_381_modulus_q, c.q);
    u64 beta = irreducible_binomials(p, 2).at(0);
    c.n1 = c.q + 1 - c.t;
    u64 b = 1; while (zu(count_sw(p, 0, b)) != c.n1) b++;
    T64 T1 = tower_p(p), T2 = setup_fp2<bls12_381_Fq2>(p, beta);
    c.E1.T = T1; c.E1.a = T1.zero(); c.E1.b = e1(b);
    mpz_class t2 = c.t * c.t - 2 * c.q, f = isqrt((4 * c.q * c.q - t2 * t2) / 3);
    if (f * f * 3 != 4 * c.q * c.q - t2 * t2) abort();
    for (int s : {1, -1}) { mpz_class n = c.q * c.q + 1 - (t2 + s * 3 * f) / 2; if (n % c.r == 0) c.n2 = n; }
    E64 xi; bool ok = false;
    for (auto &y : irreducible_xi(p, beta, 6, 64)) {
        if (y.c[1] == 0 || y.c[0] == 0) continue;
        c.E2.T = T2; c.E2.a = T2.zero(); c.E2.b = T2.mul(ref::mk<u64>({b, 0}), y);
        if (order_divides(c.E2, c.n2) && which-- <= 0) { xi = y; ok = true; break; }
    }
    if (!ok) { fprintf(stderr, "no BLS twist\n"); abort(); }
    setup_fp6_3over2<bls12_381_Fq6>(p, beta, xi); c.TK = setup_fp12<bls12_381_Fq12>(p, beta, xi);
    bls12_381_coeff_b = mkf<bls12_381_Fq>(b); bls12_381_twist = unflat<bls12_381_Fq2>(xi); bls12_381_twist_coeff_b = unflat<bls12_381_Fq2>(c.E2.b);
    bls12_381_twist_mul_by_b_c0 = bls12_381_twist_mul_by_b_c1 = mkf<bls12_381_Fq>(b * beta % p);
    E64 xinv = T2.inv(xi);
    bls12_381_twist_mul_by_q_X = unflat<bls12_381_Fq2>(T2.pow(xinv, (c.q - 1) / 3)); bls12_381_twist_mul_by_q_Y = unflat<bls12_381_Fq2>(T2.pow(xinv, (c.q - 1) / 2));
    bls12_381_ate_loop_count = B<bls12_381_q_limbs>(abs(x)); bls12_381_ate_is_loop_count_neg = x < 0;
    bls12_381_final_exponent = B<12 * bls12_381_q_limbs>((ref::ipow(c.q, 12) - 1) / c.r);
    bls12_381_final_exponent_z = B<bls12_381_q_limbs>(abs(x)); bls12_381_final_exponent_is_z_neg = x < 0;
    finish<bls12_381_G1, bls12_381_G2>(c);
    bls12_381_G1::h = B<bls12_381_G1::h_limbs>(c.h1); bls12_381_G2::h = B<bls12_381_G2::h_limbs>(c.h2);
    return c;
}
// find (a,b) with #E = n, a not in {0}; which-th in scan order
inline std::pair<u64, u64> find_ab(u64 p, const mpz_class &n, int which)
{
    for (u64 a = 2; a < p; a++) for (u64 b = 1; b < p; b++) if (zu(count_sw(p, a, b)) == n && which-- <= 0) return {a, b};
    fprintf(stderr, "find_ab\n"); abort();
}
inline void last_chunk(const mpz_class &phi, const mpz_class &q, const mpz_class &r, mpz_class &w1, mpz_class &w0)
{
    mpz_class e = phi / r; if (e * r != phi) abort();
    w1 = (e + q / 2) / q; w0 = e - w1 * q;
}
inline CS tiny_mnt4(u64 q, u64 r, int which = 0, int wnr = 0)
{
    using namespace libff;
    CS c; c.q = zu(q); c.r = zu(r); c.t = c.q + 1 - c.r; c.k = 4; c.name = "MNT4(q=" + std::to_string(q) + ",r=" + std::to_string(r) + ")";
    setup_fp<mnt4_Fr, mnt4_r_limbs>(mnt46_modulus_A, c.r); setup_fp<mnt4_Fq, mnt4_q_limbs>(mnt46_modulus_B, c.q);
    u64 nr = irreducible_binomials(q, 4).at(wnr);
    auto ab = find_ab(q, c.r, which); u64 a = ab.first, b = ab.second;
    T64 T2 = setup_fp2<mnt4_Fq2>(q, nr); c.TK = setup_fp4<mnt4_Fq4>(q, nr);
    c.E1.T = tower_p(q); c.E1.a = e1(a); c.E1.b = e1(b); c.n1 = c.r;
    c.E2.T = T2; c.E2.a = ref::mk<u64>({a * nr % q, 0}); c.E2.b = ref::mk<u64>({0, b * nr % q}); c.n2 = c.q * c.q + 1 + c.t * c.t - 2 * c.q;
    auto F = [](u64 v) { return mkf<mnt4_Fq>(v); };
    mnt4_G1::coeff_a = F(a); mnt4_G1::coeff_b = F(b);
    mnt4_twist = mnt4_G2::twist = unflat<mnt4_Fq2>(ref::mk<u64>({0, 1}));
    mnt4_twist_coeff_a = mnt4_G2::coeff_a = unflat<mnt4_Fq2>(c.E2.a); mnt4_twist_coeff_b = mnt4_G2::coeff_b = unflat<mnt4_Fq2>(c.E2.b);
    mnt4_twist_mul_by_a_c0 = mnt4_twist_mul_by_a_c1 = F(a * nr % q);
    mnt4_twist_mul_by_b_c0 = F(b * nr % q * nr % q); mnt4_twist_mul_by_b_c1 = F(b * nr % q);
    // untwist (x/u, y/u^(3/2)), Frobenius, twist back
    u64 inr = powmod(nr, c.q - 2, q);
    mnt4_twist_mul_by_q_X = F(powmod(inr, (c.q - 1) / 2, q)); mnt4_twist_mul_by_q_Y = F(powmod(inr, 3 * (c.q - 1) / 4, q));
    mpz_class l = c.t - 1; mnt4_ate_loop_count = B<mnt4_q_limbs>(abs(l)); mnt4_ate_is_loop_count_neg = l < 0;
    mnt4_final_exponent = B<4 * mnt4_q_limbs>((ref::ipow(c.q, 4) - 1) / c.r);
    mpz_class w1, w0; last_chunk(c.q * c.q + 1, c.q, c.r, w1, w0);
    mnt4_final_exponent_last_chunk_w1 = B<mnt4_q_limbs>(w1); mnt4_final_exponent_last_chunk_abs_of_w0 = B<mnt4_q_limbs>(abs(w0)); mnt4_final_exponent_last_chunk_is_w0_neg = w0 < 0;
    mnt4_G1::initialized = mnt4_G2::initialized = true;
    finish<mnt4_G1, mnt4_G2>(c);
    mnt4_G1::h = B<mnt4_G1::h_limbs>(c.h1); mnt4_G2::h = B<mnt4_G2::h_limbs>(c.h2);
    return c;
}
inline CS tiny_mnt6(u64 q, u64 r, int which = 0, int wnr = 0)
{
    using namespace libff;
    CS c; c.q = zu(q); c.r = zu(r); c.t = c.q + 1 - c.r; c.k = 6; c.name = "MNT6(q=" + std::to_string(q) + ",r=" + std::to_string(r) + ")";
    setup_fp<mnt6_Fr, mnt6_r_limbs>(mnt46_modulus_B, c.r); setup_fp<mnt6_Fq, mnt6_q_limbs>(mnt46_modulus_A, c.q);
    u64 nr = irreducible_binomials(q, 6).at(wnr);
    auto ab = find_ab(q, c.r, which); u64 a = ab.first, b = ab.second;
    T64 T3 = setup_fp3<mnt6_Fq3>(q, nr); setup_fp2<Fp2_model<mnt6_q_limbs, mnt6_modulus_q>>(q, nr); c.TK = setup_fp6_2over3<mnt6_Fq6>(q, nr);
    c.E1.T = tower_p(q); c.E1.a = e1(a); c.E1.b = e1(b); c.n1 = c.r;
    c.E2.T = T3; c.E2.a = ref::mk<u64>({0, 0, a}); c.E2.b = ref::mk<u64>({b * nr % q, 0, 0}); c.n2 = ref::ipow(c.q, 3) + 1 + c.t * c.t * c.t - 3 * c.q * c.t;
    auto F = [](u64 v) { return mkf<mnt6_Fq>(v); };
    mnt6_G1::coeff_a = F(a); mnt6_G1::coeff_b = F(b);
    mnt6_twist = mnt6_G2::twist = unflat<mnt6_Fq3>(ref::mk<u64>({0, 1, 0}));
    mnt6_twist_coeff_a = mnt6_G2::coeff_a = unflat<mnt6_Fq3>(c.E2.a); mnt6_twist_coeff_b = mnt6_G2::coeff_b = unflat<mnt6_Fq3>(c.E2.b);
    mnt6_twist_mul_by_a_c0 = mnt6_twist_mul_by_a_c1 = F(a * nr % q); mnt6_twist_mul_by_a_c2 = F(a);
    mnt6_twist_mul_by_b_c0 = mnt6_twist_mul_by_b_c1 = mnt6_twist_mul_by_b_c2 = F(b * nr % q);
    u64 inr = powmod(nr, c.q - 2, q);
    mnt6_twist_mul_by_q_X = F(powmod(inr, (c.q - 1) / 3, q)); mnt6_twist_mul_by_q_Y = F(powmod(inr, (c.q - 1) / 2, q));
    mpz_class l = c.t - 1; mnt6_ate_loop_count = B<mnt6_q_limbs>(abs(l)); mnt6_ate_is_loop_count_neg = l < 0;
    mnt6_final_exponent = B<6 * mnt6_q_limbs>((ref::ipow(c.q, 6) - 1) / c.r);
    mpz_class w1, w0; last_chunk(c.q * c.q - c.q + 1, c.q, c.r, w1, w0);
    mnt6_final_exponent_last_chunk_w1 = B<mnt6_q_limbs>(w1); mnt6_final_exponent_last_chunk_abs_of_w0 = B<mnt6_q_limbs>(abs(w0)); mnt6_final_exponent_last_chunk_is_w0_neg = w0 < 0;
    mnt6_G1::initialized = mnt6_G2::initialized = true;
    finish<mnt6_G1, mnt6_G2>(c);
    mnt6_G1::h = B<mnt6_G1::h_limbs>(c.h1); mnt6_G2::h = B<mnt6_G2::h_limbs>(c.h2);
    return c;
}
inline CS tiny_edwards(u64 q, u64 r, u64 d, int wnr = 0)
{
    using namespace libff;
    CS c; c.q = zu(q); c.r = zu(r); c.t = c.q + 1 - 4 * c.r; c.k = 6; c.name = "EDW(q=" + std::to_string(q) + ",r=" + std::to_string(r) + ")";
    setup_fp<edwards_Fr, edwards_r_limbs>(edwards_modulus_r, c.r); setup_fp<edwards_Fq, edwards_q_limbs>(edwards_modulus_q, c.q);
    u64 nr = irreducible_binomials(q, 6).at(wnr);
    T64 T3 = setup_fp3<edwards_Fq3>(q, nr); setup_fp2<Fp2_model<edwards_q_limbs, edwards_modulus_q>>(q, nr); c.TK = setup_fp6_2over3<edwards_Fq6>(q, nr);
    c.E1.T = tower_p(q); c.E1.edw = true; c.E1.a = e1(1); c.E1.b = e1(d); c.n1 = 4 * c.r;
    c.E2.T = T3; c.E2.edw = true; c.E2.a = ref::mk<u64>({0, 1, 0}); c.E2.b = ref::mk<u64>({0, d, 0}); c.n2 = ref::ipow(c.q, 3) + 1 + c.t * c.t * c.t - 3 * c.q * c.t;
    auto F = [](u64 v) { return mkf<edwards_Fq>(v); };
    edwards_coeff_a = F(1); edwards_coeff_d = F(d); edwards_twist = unflat<edwards_Fq3>(c.E2.a); edwards_twist_coeff_a = unflat<edwards_Fq3>(c.E2.a); edwards_twist_coeff_d = unflat<edwards_Fq3>(c.E2.b);
    edwards_twist_mul_by_a_c0 = F(nr); edwards_twist_mul_by_a_c1 = edwards_twist_mul_by_a_c2 = F(1);
    edwards_twist_mul_by_d_c0 = F(d * nr % q); edwards_twist_mul_by_d_c1 = edwards_twist_mul_by_d_c2 = F(d);
    edwards_twist_mul_by_q_Y = edwards_twist_mul_by_q_Z = F(powmod(nr, (c.q - 1) / 6, q));
    mpz_class l = c.t - 1; edwards_ate_loop_count = B<edwards_q_limbs>(abs(l));
    mpz_class w1, w0; last_chunk(c.q * c.q - c.q + 1, c.q, c.r, w1, w0);
    edwards_final_exponent_last_chunk_w1 = B<edwards_q_limbs>(w1); edwards_final_exponent_last_chunk_abs_of_w0 = B<edwards_q_limbs>(abs(w0)); edwards_final_exponent_last_chunk_is_w0_neg = w0 < 0;
    edwards_G1::initialized = edwards_G2::initialized = true;
    finish<edwards_G1, edwards_G2>(c);
    return c;
}
// ---- the shipped parameters, curve equations restated from the documentation
typedef CSet<mpz_class> CSZ;
typedef El<mpz_class> EZ;
inline Tower<mpz_class> zt(const mpz_class &p) { Tower<mpz_class> t; t.p = p; return t; }
inline Tower<mpz_class> zext(const Tower<mpz_class> &t, int deg, const EZ &nr) { auto r = t; ref::Level<mpz_class> l; l.deg = deg; l.nr = nr; r.lv.push_back(l); return r; }
inline EZ ez(std::initializer_list<mpz_class> l) { return ref::mk<mpz_class>(l); }
template<class G1, class G2> void gens(CSZ &c)
{
    auto aff = [&](const auto &g, bool edw) { Pt<mpz_class> p; if (edw) { p.x = flat<mpz_class>(g.Y); p.y = flat<mpz_class>(g.X); } else { p.x = flat<mpz_class>(g.X); p.y = flat<mpz_class>(g.Y); } return p; };
    c.P1 = aff(G1::one(), c.E1.edw); c.P2 = aff(G2::one(), c.E1.edw);
}
inline CSZ ship_alt_bn128()
{
    using namespace libff; alt_bn128_pp::init_public_params();
    CSZ c; c.name = "alt_bn128"; c.k = 12; c.q = Z(alt_bn128_modulus_q); c.r = Z(alt_bn128_modulus_r);
    auto T1 = zt(c.q), T2 = zext(T1, 2, ez({c.q - 1}));
    c.E1.T = T1; c.E1.a = T1.zero(); c.E1.b = ez({3}); c.E2.T = T2; c.E2.a = T2.zero(); c.E2.b = T2.mul(ez({3, 0}), T2.inv(ez({9, 1})));
    c.TK = zext(zext(T2, 3, ez({9, 1})), 2, ez({0, 0, 1, 0, 0, 0}));
    gens<alt_bn128_G1, alt_bn128_G2>(c); return c;
}
inline CSZ ship_bls12_381()
{
    using namespace libff; bls12_381_pp::init_public_params();
    CSZ c; c.name = "bls12_381"; c.k = 12; c.q = Z(bls12_381_modulus_q); c.r = Z(bls12_381_modulus_r);
    auto T1 = zt(c.q), T2 = zext(T1, 2, ez({c.q - 1}));
    c.E1.T = T1; c.E1.a = T1.zero(); c.E1.b = ez({4}); c.E2.T = T2; c.E2.a = T2.zero(); c.E2.b = ez({4, 4});
    c.TK = zext(zext(T2, 3, ez({1, 1})), 2, ez({0, 0, 1, 0, 0, 0}));
    gens<bls12_381_G1, bls12_381_G2>(c); return c;
}
inline CSZ ship_mnt4()
{
    using namespace libff; mnt4_pp::init_public_params();
    CSZ c; c.name = "mnt4"; c.k = 4; c.q = Z(mnt46_modulus_B); c.r = Z(mnt46_modulus_A);
    auto T1 = zt(c.q), T2 = zext(T1, 2, ez({17}));
    mpz_class a = 2, b("423894536526684178289416011533888240029318103673896002803341544124054745019340795360841685");
    c.E1.T = T1; c.E1.a = ez({a}); c.E1.b = ez({b}); c.E2.T = T2; c.E2.a = ez({a * 17, 0}); c.E2.b = ez({0, ref::mod(b * 17, c.q)});
    c.TK = zext(T2, 2, ez({0, 1}));
    gens<mnt4_G1, mnt4_G2>(c); return c;
}
inline CSZ ship_mnt6()
{
    using namespace libff; mnt6_pp::init_public_params();
    CSZ c; c.name = "mnt6"; c.k = 6; c.q = Z(mnt46_modulus_A); c.r = Z(mnt46_modulus_B);
    auto T1 = zt(c.q), T3 = zext(T1, 3, ez({5}));
    mpz_class a = 11, b("106700080510851735677967319632585352256454251201367587890185989362936000262606668469523074");
    c.E1.T = T1; c.E1.a = ez({a}); c.E1.b = ez({b}); c.E2.T = T3; c.E2.a = ez({0, 0, a}); c.E2.b = ez({ref::mod(b * 5, c.q), 0, 0});
    c.TK = zext(T3, 2, ez({0, 1, 0}));
    gens<mnt6_G1, mnt6_G2>(c); return c;
}
inline CSZ ship_edwards()
{
    using namespace libff; edwards_pp::init_public_params();
    CSZ c; c.name = "edwards"; c.k = 6; c.q = Z(edwards_modulus_q); c.r = Z(edwards_modulus_r);
    mpz_class nr = 61, d("600581931845324488256649384912508268813600056237543024");
    auto T1 = zt(c.q), T3 = zext(T1, 3, ez({nr}));
    c.E1.edw = c.E2.edw = true;
    c.E1.T = T1; c.E1.a = ez({1}); c.E1.b = ez({d}); c.E2.T = T3; c.E2.a = ez({0, 1, 0}); c.E2.b = ez({0, d, 0});
    c.TK = zext(T3, 2, ez({0, 1, 0}));
    // X, Y, Z of the two-argument constructor: X=y, Y=x, Z=xy
    gens<edwards_G1, edwards_G2>(c); return c;
}
