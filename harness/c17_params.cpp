// C17: every published parameter against its definition (independent GMP arithmetic), and every initialisation history.
#include "pairs.hpp"
#include <sys/wait.h>
#include <libff/algebra/scalar_multiplication/multiexp.hpp>
#include <libff/algebra/scalar_multiplication/wnaf.hpp>
using namespace libff;
typedef mpz_class BZ; typedef El<BZ> E;

// ---- raw values: Montgomery image divided by R with GMP, so nothing depends on the constants under test
template<mp_size_t n, const bigint<n> &m> void rp(E &e, const Fp_model<n, m> &x)
{
    BZ p = Z(m), v = Z(x.mont_repr); if (p < 3) { e.c[e.d++] = -2; return; }
    if (v >= p) { e.c[e.d++] = -1; return; }
    e.c[e.d++] = ref::mod(v * ref::inv(ref::mod(BZ(1) << (64 * n), p), p), p);
}
template<mp_size_t n, const bigint<n> &m> void rp(E &e, const Fp2_model<n, m> &x) { rp(e, x.c0); rp(e, x.c1); }
template<mp_size_t n, const bigint<n> &m> void rp(E &e, const Fp3_model<n, m> &x) { rp(e, x.c0); rp(e, x.c1); rp(e, x.c2); }
template<mp_size_t n, const bigint<n> &m> void rp(E &e, const Fp4_model<n, m> &x) { rp(e, x.c0); rp(e, x.c1); }
template<mp_size_t n, const bigint<n> &m> void rp(E &e, const Fp6_2over3_model<n, m> &x) { rp(e, x.c0); rp(e, x.c1); }
template<mp_size_t n, const bigint<n> &m> void rp(E &e, const Fp6_3over2_model<n, m> &x) { rp(e, x.c0); rp(e, x.c1); rp(e, x.c2); }
template<mp_size_t n, const bigint<n> &m> void rp(E &e, const Fp12_2over3over2_model<n, m> &x) { rp(e, x.c0); rp(e, x.c1); }
template<class F> E rv(const F &x) { E e; rp(e, x); return e; }
static E lift(const E &a, int d) { E r = a; while (r.d < d) r.c[r.d++] = 0; return r; }
#define CK(cond, name) do { vf::tick(); VF_CHECK(cond, std::string(name), "published value of %s is not what its definition gives", std::string(name).c_str()); } while (0)
static unsigned twoadic(const BZ &v) { return mpz_scan1(v.get_mpz_t(), 0); }
static std::vector<BZ> factors(const char *s) { std::vector<BZ> r; std::stringstream ss(s); std::string w; while (ss >> w) r.push_back(BZ(w)); return r; }

// s, t, euler, (t-1)/2, nqr, nqr^t of a field of size q whose reference is T
template<class F> void two_adic(const std::string &n, const Tower<BZ> &T)
{
    BZ q1 = T.size() - 1; unsigned s = twoadic(q1); BZ t = q1 >> s;
    CK(F::s == s, n + ".s"); CK(Z(F::t) == t, n + ".t"); CK(Z(F::t_minus_1_over_2) == (t - 1) / 2, n + ".t_minus_1_over_2"); CK(Z(F::euler) == q1 / 2, n + ".euler");
    E nq = rv(F::nqr); CK(!T.is_square(nq), n + ".nqr"); CK(rv(F::nqr_to_t) == T.pow(nq, t), n + ".nqr_to_t");
    vf::state(6);
}
// a level X^d - nr is irreducible over the field below it
static bool irred(const Tower<BZ> &below, const E &nr, int d)
{
    BZ q1 = below.size() - 1; for (int l : {2, 3}) if (d % l == 0) { if (q1 % l != 0 || below.pow(nr, q1 / l) == below.one()) return false; }
    return d % 4 != 0 || q1 % 4 == 0;
}
template<mp_size_t n, const bigint<n> &m> void prime_field(const std::string &nm, const char *facs)
{
    typedef Fp_model<n, m> F; BZ p = Z(m); Tower<BZ> T; T.p = p;
    CK(ref::isprime(p), nm + ".modulus"); CK(F::modulus_is_valid(), nm + ".modulus_is_valid"); CK(Z(F::mod) == p && Z(F::field_char()) == p, nm + ".field_char");
    size_t bits = mpz_sizeinbase(p.get_mpz_t(), 2);
    CK(F::num_bits == bits, nm + ".num_bits"); CK(F::ceil_size_in_bits() == bits, nm + ".ceil_size_in_bits"); CK(F::floor_size_in_bits() == bits - 1, nm + ".floor_size_in_bits"); CK(F::extension_degree() == 1, nm + ".extension_degree");
    CK(bits + 1 <= 64 * n && bits > 64 * (n - 1), nm + ".limbs");
    BZ R = ref::mod(BZ(1) << (64 * n), p); CK(Z(F::Rsquared) == ref::mod(R * R, p), nm + ".Rsquared"); CK(Z(F::Rcubed) == ref::mod(R * R * R, p), nm + ".Rcubed");
    CK((mp_limb_t)(F::inv * m.data[0]) == ~(mp_limb_t)0, nm + ".inv"); // inv * p = -1 mod W
    two_adic<F>(nm, T);
    BZ w = rv(F::root_of_unity).c[0]; unsigned s = twoadic(p - 1);
    CK(w > 0 && ref::powm(w, BZ(1) << s, p) == 1 && ref::powm(w, BZ(1) << (s - 1), p) == p - 1, nm + ".root_of_unity");
    BZ g = rv(F::multiplicative_generator).c[0]; BZ rest = p - 1; bool gen = g > 0; std::string bad;
    auto fs = factors(facs); for (auto &f : fs) { if (rest % f == 0) { while (rest % f == 0) rest /= f; if (ref::powm(g, (p - 1) / f, p) == 1) { gen = false; bad += " " + f.get_str(); } } }
    for (unsigned long f = 2; f < 2000000; f++) if (rest % f == 0) { while (rest % f == 0) rest /= f; if (ref::powm(g, (p - 1) / f, p) == 1) { gen = false; bad += " " + std::to_string(f); } }
    if (rest > 1 && ref::powm(g, (p - 1) / rest, p) == 1) gen = false;
    if (rest > 1 && !ref::isprime(rest)) vf::note(nm + ": p-1 not fully factored, generator judged up to the composite " + rest.get_str());
    vf::tick(); VF_CHECK(gen, nm + ".multiplicative_generator", "%s.multiplicative_generator = %s does not generate the multiplicative group: it is a k-th power for k in {%s }", nm.c_str(), g.get_str().c_str(), bad.c_str());
    // the generators agree with each other on 2^s subgroup: root_of_unity has the order get_root_of_unity assumes
    CK(rv(F::one()).c[0] == 1 && rv(F::zero()).c[0] == 0, nm + ".one");
    vf::state(14);
}
// Frobenius table: coeffs[i] = nr^(mult*(p^i-1)/d)
template<class A> void frob(const std::string &n, const Tower<BZ> &Tn, const E &nr, const A *tab, int len, int d, int mult)
{
    BZ p = Tn.p, pi = 1;
    for (int i = 0; i < len; i++, pi *= p) { BZ e = (pi - 1) * mult; if (e % d != 0) { CK(false, n + "[" + std::to_string(i) + "] exponent"); continue; } CK(rv(tab[i]) == Tn.pow(nr, e / d), n + "[" + std::to_string(i) + "]"); vf::state(); }
}
template<class F> void ext_sizes(const std::string &n, const Tower<BZ> &T)
{
    CK(Z(F::field_char()) == T.p, n + ".field_char"); CK(F::extension_degree() == (size_t)T.dim(), n + ".extension_degree");
}

static Tower<BZ> T1_(const BZ &p) { Tower<BZ> t; t.p = p; return t; }
static Tower<BZ> ex(const Tower<BZ> &b, int d, const E &nr) { Tower<BZ> t = b; ref::Level<BZ> l; l.deg = d; l.nr = nr; t.lv.push_back(l); return t; }
static E ev(std::initializer_list<BZ> l) { E e; for (auto &x : l) e.c[e.d++] = x; return e; }
static E emb(const E &a, int d) { return lift(a, d); }

// ---- groups
template<class G> Pt<BZ> affine(const Crv<BZ> &C, const G &g)
{
    Pt<BZ> p; const Tower<BZ> &T = C.T; E X = rv(g.X), Y = rv(g.Y), Z = rv(g.Z);
    for (E *e : {&X, &Y, &Z}) for (int i = 0; i < e->d; i++) if (e->c[i] < 0) { p.x = X; p.y = X; return p; }
    switch (GK<G>::kind) {
    case JAC: if (Z.zero()) return C.O(); { E zi = T.inv(Z), z2 = T.sqr(zi); p.x = T.mul(X, z2); p.y = T.mul(Y, T.mul(z2, zi)); } break;
    case PROJ: if (Z.zero()) return C.O(); { E zi = T.inv(Z); p.x = T.mul(X, zi); p.y = T.mul(Y, zi); } break;
    default: if (Y.zero() && Z.zero()) return C.O(); if (X.zero() || Y.zero()) { p.x = p.y = T.zero(); return p; } p.x = T.mul(Z, T.inv(X)); p.y = T.mul(Z, T.inv(Y));
    }
    return p;
}
// all possible orders of curves over F_{p^d} that become isomorphic to E/F_p (trace t) over an extension: the twists' orders
static std::vector<BZ> twist_orders(const BZ &p, const BZ &t, int d)
{
    BZ a = 2, b = t; for (int i = 1; i < d; i++) { BZ c = t * b - p * a; a = b; b = c; }
    BZ q = ref::ipow(p, d), T = b; std::vector<BZ> r = {q + 1 - T, q + 1 + T};
    BZ D = 4 * q - T * T, f;
    if (D > 0) { if (D % 3 == 0) { BZ y = D / 3; f = sqrt(y); if (f * f == y) for (int s1 : {-1, 1}) for (int s2 : {-1, 1}) { BZ n = s1 * T + s2 * 3 * f; if (n % 2 == 0) r.push_back(q + 1 - n / 2); } }
                 f = sqrt(D); if (f * f == D) { r.push_back(q + 1 - f); r.push_back(q + 1 + f); } }
    return r;
}
template<class G> void tables(const std::string &n)
{
    // entries are documented as the smallest size from which a window is the best choice, 0 = never
    size_t prev = 0; auto &w = G::wnaf_window_table; auto &f = G::fixed_base_exp_window_table; vf::state(2);
    bool ok = !w.empty(); for (auto x : w) { ok = ok && x >= prev; prev = x; }
    CK(ok, n + ".wnaf_window_table");
    prev = 0; ok = !f.empty() && f[0] == 1; for (auto x : f) if (x) { ok = ok && x > prev; prev = x; }
    CK(ok, n + ".fixed_base_exp_window_table");
}
template<class G> void group(const std::string &n, const Crv<BZ> &C, const BZ &r, const BZ &cof, const std::vector<BZ> &orders, const G &one, const G &zero)
{
    Pt<BZ> P = affine(C, one), O = affine(C, zero); vf::state(2);
    CK(C.on(P) && !C.isO(P), n + "_one"); CK(C.isO(O), n + "_zero");
    CK(same(G::one(), one) && same(G::zero(), zero), n + "::one()/zero()");
    bool ordr = false; try { ordr = C.on(P) && C.isO(C.mul(r, P)); } catch (RefBad &) {}
    CK(ordr && ref::isprime(r), n + "_one.order"); CK(Z(G::order()) == r, n + "::order()"); CK(Z(G::field_char()) == C.T.p, n + "::field_char()");
    CK(G::size_in_bits() == (size_t)(mpz_sizeinbase(C.T.p.get_mpz_t(), 2) * C.T.dim() + 1), n + "::size_in_bits()");
    // the whole group has order cof*r: it is one of the orders the trace allows and it kills points found by scanning
    BZ N = cof * r; bool allowed = false; for (auto &o : orders) allowed = allowed || o == N;
    bool kills = true; u64 st = 1; for (int i = 0; i < 3; i++) { vf::tick(); Pt<BZ> S = scan_point(C, st, 1009); st += 37; try { kills = kills && C.isO(C.mul(N, S)); } catch (RefBad &) {} }
    vf::tick(); VF_CHECK(allowed && kills, n + "::h", "%s: cofactor %s times the group order %s is not the number of points (allowed by the trace: %d, annihilates points: %d)", n.c_str(), cof.get_str().c_str(), r.get_str().c_str(), allowed, kills);
    vf::state(6);
}
static BZ phi(int k, const BZ &q) { return k == 4 ? BZ(q * q + 1) : k == 6 ? BZ(q * q - q + 1) : k == 12 ? BZ(q * q * q * q - q * q + 1) : BZ(0); }
static void embedding(const std::string &n, const BZ &q, const BZ &r, int k) { for (int i = 1; i <= k; i++) { BZ m = ref::powm(q, i, r); CK((m == 1) == (i == k), n + ".embedding degree"); vf::state(); } }

// Which functions multiply by a published twist constant: judged on a basis of the twist field and on one mixed element.
template<class F, class Fn> void mulconst(const std::string &n, const Tower<BZ> &T, const E &c, Fn fn)
{
    for (int i = 0; i <= T.dim(); i++) { E e = T.zero(); if (i < T.dim()) e.c[i] = 1; else for (int j = 0; j < T.dim(); j++) e.c[j] = 3 + 7 * j; F x = unflat<F>(e); E got = rv(fn(x)), want = T.mul(e, c); vf::tick(); vf::state();
        VF_CHECK(got == want, n, "%s(%s) = %s, not the product with the published coefficient, %s", n.c_str(), e.s().c_str(), got.s().c_str(), want.s().c_str()); }
}

#define FAC_ALT_R "2 3 13 29 983 237073 11003 405928799 1670836401704629 13818364434197438864469338081"
#define FAC_ALT_Q "2 3 13 29 67 229 311 983 11003 405928799 11465965001 13427688667394608761327070753331941386769"
#define FAC_BLS_R "2 3 11 19 10177 906349 2508409 125527 859267 2529403 52437899 254760293"
#define FAC_BLS_Q "2 3 11 23 47 10177 859267 52437899 2584487767265781317813 15778400344354997994418419698270088123916926905054652752758194827714659"
#define FAC_ED_R "2 3 5 7 17 29 53 79 113 263 1021 5679531856541001669394577"
#define FAC_ED_Q "2 3 5 7 17 29 53 79 263 1021 711890597413 1682846480381357"
#define FAC_A "2 3 7 43 832668823862928114206893884097921187"
#define FAC_B "2"

// ---- per-curve checks: fields, then curve
template<class Fq, class Fq2, class Fq6, class Fq12> void tower12(const std::string &c, const Tower<BZ> &T1, Tower<BZ> &T2, Tower<BZ> &T12)
{
    E nr1 = rv(Fq2::non_residue); CK(irred(T1, nr1, 2), c + "_Fq2.non_residue"); T2 = ex(T1, 2, nr1);
    if (vf::unit("%s Fq2", c.c_str())) { two_adic<Fq2>(c + "_Fq2", T2); frob(c + "_Fq2.Frobenius_coeffs_c1", T1, nr1, Fq2::Frobenius_coeffs_c1, 2, 2, 1); ext_sizes<Fq2>(c + "_Fq2", T2); CK(rv(Fq2::zero()) == T2.zero() && rv(Fq2::one()) == T2.one(), c + "_Fq2::one()"); }
    E xi = rv(Fq6::non_residue); CK(irred(T2, xi, 3), c + "_Fq6.non_residue"); Tower<BZ> T6 = ex(T2, 3, xi);
    if (vf::unit("%s Fq6", c.c_str())) { two_adic<Fq6>(c + "_Fq6", T6); frob(c + "_Fq6.Frobenius_coeffs_c1", T2, xi, Fq6::Frobenius_coeffs_c1, 6, 3, 1); frob(c + "_Fq6.Frobenius_coeffs_c2", T2, xi, Fq6::Frobenius_coeffs_c2, 6, 3, 2); ext_sizes<Fq6>(c + "_Fq6", T6); }
    E v = T6.zero(); v.c[2] = 1; T12 = ex(T6, 2, v);
    CK(rv(Fq12::non_residue) == xi, c + "_Fq12.non_residue"); CK(irred(T6, v, 2), c + "_Fq12 irreducible");
    if (vf::unit("%s Fq12", c.c_str())) { two_adic<Fq12>(c + "_Fq12", T12); frob(c + "_Fq12.Frobenius_coeffs_c1", T2, xi, Fq12::Frobenius_coeffs_c1, 12, 6, 1); ext_sizes<Fq12>(c + "_Fq12", T12); }
}
static void alt()
{
    const std::string c = "alt_bn128"; BZ q = Z(alt_bn128_modulus_q), r = Z(alt_bn128_modulus_r); Tower<BZ> T1 = T1_(q), T2, T12;
    if (vf::unit("alt_bn128 Fr")) prime_field<alt_bn128_r_limbs, alt_bn128_modulus_r>(c + "_Fr", FAC_ALT_R);
    if (vf::unit("alt_bn128 Fq")) prime_field<alt_bn128_q_limbs, alt_bn128_modulus_q>(c + "_Fq", FAC_ALT_Q);
    tower12<alt_bn128_Fq, alt_bn128_Fq2, alt_bn128_Fq6, alt_bn128_Fq12>(c, T1, T2, T12);
    if (!vf::unit("alt_bn128 curve")) return;
    BZ x = Z(alt_bn128_final_exponent_z); if (alt_bn128_final_exponent_is_z_neg) x = -x;
    BZ t = 6 * x * x + 1;
    CK(q == 36 * x * x * x * x + 36 * x * x * x + 24 * x * x + 6 * x + 1 && r == q + 1 - t, "alt_bn128_final_exponent_z");
    BZ lc = Z(alt_bn128_ate_loop_count); if (alt_bn128_ate_is_loop_count_neg) lc = -lc; CK(lc == 6 * x + 2, "alt_bn128_ate_loop_count");
    embedding(c, q, r, 12);
    E b = rv(alt_bn128_coeff_b), tw = rv(alt_bn128_twist), b2 = rv(alt_bn128_twist_coeff_b);
    CK(tw == rv(alt_bn128_Fq6::non_residue), "alt_bn128_twist"); CK(T2.mul(b2, tw) == emb(b, 2), "alt_bn128_twist_coeff_b");
    CK(rv(alt_bn128_twist_mul_by_q_X) == T2.pow(tw, (q - 1) / 3), "alt_bn128_twist_mul_by_q_X"); CK(rv(alt_bn128_twist_mul_by_q_Y) == T2.pow(tw, (q - 1) / 2), "alt_bn128_twist_mul_by_q_Y");
    mulconst<alt_bn128_Fq2>("alt_bn128_G2::mul_by_b", T2, b2, [](const alt_bn128_Fq2 &e) { return alt_bn128_G2::mul_by_b(e); });
    Crv<BZ> E1, E2; E1.T = T1; E1.a = T1.zero(); E1.b = b; E2.T = T2; E2.a = T2.zero(); E2.b = b2;
    group("alt_bn128_G1", E1, r, Z(alt_bn128_G1::h), {BZ(q + 1 - t)}, alt_bn128_G1::G1_one, alt_bn128_G1::G1_zero); group("alt_bn128_G2", E2, r, Z(alt_bn128_G2::h), twist_orders(q, t, 2), alt_bn128_G2::G2_one, alt_bn128_G2::G2_zero);
    tables<alt_bn128_G1>("alt_bn128_G1"); tables<alt_bn128_G2>("alt_bn128_G2");
}
static void bls()
{
    const std::string c = "bls12_381"; BZ q = Z(bls12_381_modulus_q), r = Z(bls12_381_modulus_r); Tower<BZ> T1 = T1_(q), T2, T12;
    if (vf::unit("bls12_381 Fr")) prime_field<bls12_381_r_limbs, bls12_381_modulus_r>(c + "_Fr", FAC_BLS_R);
    if (vf::unit("bls12_381 Fq")) prime_field<bls12_381_q_limbs, bls12_381_modulus_q>(c + "_Fq", FAC_BLS_Q);
    tower12<bls12_381_Fq, bls12_381_Fq2, bls12_381_Fq6, bls12_381_Fq12>(c, T1, T2, T12);
    if (!vf::unit("bls12_381 curve")) return;
    BZ x = Z(bls12_381_final_exponent_z); if (bls12_381_final_exponent_is_z_neg) x = -x;
    BZ t = x + 1;
    CK(r == x * x * x * x - x * x + 1 && 3 * (q - x) == (x - 1) * (x - 1) * r, "bls12_381_final_exponent_z");
    BZ lc = Z(bls12_381_ate_loop_count); if (bls12_381_ate_is_loop_count_neg) lc = -lc; CK(lc == x, "bls12_381_ate_loop_count");
    CK(Z(bls12_381_final_exponent) == (ref::ipow(q, 12) - 1) / r, "bls12_381_final_exponent");
    embedding(c, q, r, 12);
    E b = rv(bls12_381_coeff_b), tw = rv(bls12_381_twist), b2 = rv(bls12_381_twist_coeff_b);
    CK(tw == rv(bls12_381_Fq6::non_residue), "bls12_381_twist"); CK(b2 == T2.mul(tw, emb(b, 2)), "bls12_381_twist_coeff_b");
    CK(rv(bls12_381_twist_mul_by_q_X) == T2.inv(T2.pow(tw, (q - 1) / 3)), "bls12_381_twist_mul_by_q_X"); CK(rv(bls12_381_twist_mul_by_q_Y) == T2.inv(T2.pow(tw, (q - 1) / 2)), "bls12_381_twist_mul_by_q_Y");
    mulconst<bls12_381_Fq2>("bls12_381_G2::mul_by_b", T2, b2, [](const bls12_381_Fq2 &e) { return bls12_381_G2::mul_by_b(e); });
    Crv<BZ> E1, E2; E1.T = T1; E1.a = T1.zero(); E1.b = b; E2.T = T2; E2.a = T2.zero(); E2.b = b2;
    group("bls12_381_G1", E1, r, Z(bls12_381_G1::h), {BZ(q + 1 - t)}, bls12_381_G1::G1_one, bls12_381_G1::G1_zero); group("bls12_381_G2", E2, r, Z(bls12_381_G2::h), twist_orders(q, t, 2), bls12_381_G2::G2_one, bls12_381_G2::G2_zero);
    tables<bls12_381_G1>("bls12_381_G1"); tables<bls12_381_G2>("bls12_381_G2");
}
static void mnt4()
{
    const std::string c = "mnt4"; BZ q = Z(mnt46_modulus_B), r = Z(mnt46_modulus_A); Tower<BZ> T1 = T1_(q);
    if (vf::unit("mnt4 Fr")) prime_field<mnt4_r_limbs, mnt46_modulus_A>(c + "_Fr", FAC_A);
    if (vf::unit("mnt4 Fq")) prime_field<mnt4_q_limbs, mnt46_modulus_B>(c + "_Fq", FAC_B);
    E nr = rv(mnt4_Fq2::non_residue); CK(irred(T1, nr, 2), "mnt4_Fq2.non_residue"); Tower<BZ> T2 = ex(T1, 2, nr);
    if (vf::unit("mnt4 Fq2")) { two_adic<mnt4_Fq2>("mnt4_Fq2", T2); frob("mnt4_Fq2.Frobenius_coeffs_c1", T1, nr, mnt4_Fq2::Frobenius_coeffs_c1, 2, 2, 1); ext_sizes<mnt4_Fq2>("mnt4_Fq2", T2); }
    CK(rv(mnt4_Fq4::non_residue) == nr && irred(T1, nr, 4), "mnt4_Fq4.non_residue"); Tower<BZ> T4 = ex(T2, 2, ev({0, 1}));
    if (vf::unit("mnt4 Fq4")) { two_adic<mnt4_Fq4>("mnt4_Fq4", T4); frob("mnt4_Fq4.Frobenius_coeffs_c1", T1, nr, mnt4_Fq4::Frobenius_coeffs_c1, 4, 4, 1); ext_sizes<mnt4_Fq4>("mnt4_Fq4", T4); }
    if (!vf::unit("mnt4 curve")) return;
    BZ t = q + 1 - r; embedding(c, q, r, 4);
    BZ lc = Z(mnt4_ate_loop_count); if (mnt4_ate_is_loop_count_neg) lc = -lc; CK(lc == t - 1, "mnt4_ate_loop_count");
    CK(Z(mnt4_final_exponent) * r == ref::ipow(q, 4) - 1, "mnt4_final_exponent");
    BZ w0 = Z(mnt4_final_exponent_last_chunk_abs_of_w0); if (mnt4_final_exponent_last_chunk_is_w0_neg) w0 = -w0; CK((Z(mnt4_final_exponent_last_chunk_w1) * q + w0) * r == phi(4, q), "mnt4_final_exponent_last_chunk");
    E a = rv(mnt4_G1::coeff_a), b = rv(mnt4_G1::coeff_b), tw = rv(mnt4_twist), a2 = T2.mul(emb(a, 2), T2.pow(tw, 2)), b2 = T2.mul(emb(b, 2), T2.pow(tw, 3));
    CK(tw == ev({0, 1}) && rv(mnt4_G2::twist) == tw, "mnt4_twist"); CK(rv(mnt4_twist_coeff_a) == a2 && rv(mnt4_G2::coeff_a) == a2, "mnt4_twist_coeff_a"); CK(rv(mnt4_twist_coeff_b) == b2 && rv(mnt4_G2::coeff_b) == b2, "mnt4_twist_coeff_b");
    CK(rv(mnt4_twist_mul_by_q_X) == T1.inv(T1.pow(nr, (q - 1) / 2)), "mnt4_twist_mul_by_q_X"); CK(rv(mnt4_twist_mul_by_q_Y) == T1.inv(T1.pow(nr, 3 * ((q - 1) / 4))), "mnt4_twist_mul_by_q_Y");
    mulconst<mnt4_Fq2>("mnt4_G2::mul_by_a", T2, a2, [](const mnt4_Fq2 &e) { return mnt4_G2::mul_by_a(e); }); mulconst<mnt4_Fq2>("mnt4_G2::mul_by_b", T2, b2, [](const mnt4_Fq2 &e) { return mnt4_G2::mul_by_b(e); });
    Crv<BZ> E1, E2; E1.T = T1; E1.a = a; E1.b = b; E2.T = T2; E2.a = a2; E2.b = b2;
    group("mnt4_G1", E1, r, Z(mnt4_G1::h), {r}, mnt4_G1::G1_one, mnt4_G1::G1_zero); group("mnt4_G2", E2, r, Z(mnt4_G2::h), twist_orders(q, t, 2), mnt4_G2::G2_one, mnt4_G2::G2_zero);
    tables<mnt4_G1>("mnt4_G1"); tables<mnt4_G2>("mnt4_G2");
}
static void mnt6()
{
    const std::string c = "mnt6"; BZ q = Z(mnt46_modulus_A), r = Z(mnt46_modulus_B); Tower<BZ> T1 = T1_(q);
    if (vf::unit("mnt6 Fr")) prime_field<mnt6_r_limbs, mnt46_modulus_B>(c + "_Fr", FAC_B);
    if (vf::unit("mnt6 Fq")) prime_field<mnt6_q_limbs, mnt46_modulus_A>(c + "_Fq", FAC_A);
    E nr = rv(mnt6_Fq3::non_residue); CK(irred(T1, nr, 3), "mnt6_Fq3.non_residue"); Tower<BZ> T3 = ex(T1, 3, nr);
    if (vf::unit("mnt6 Fq3")) { two_adic<mnt6_Fq3>("mnt6_Fq3", T3); frob("mnt6_Fq3.Frobenius_coeffs_c1", T1, nr, mnt6_Fq3::Frobenius_coeffs_c1, 3, 3, 1); frob("mnt6_Fq3.Frobenius_coeffs_c2", T1, nr, mnt6_Fq3::Frobenius_coeffs_c2, 3, 3, 2); ext_sizes<mnt6_Fq3>("mnt6_Fq3", T3); }
    CK(rv(mnt6_Fq6::non_residue) == nr && rv(mnt6_Fq6::my_Fp2::non_residue) == nr && irred(T1, nr, 6), "mnt6_Fq6.non_residue"); Tower<BZ> T6 = ex(T3, 2, ev({0, 1, 0}));
    if (vf::unit("mnt6 Fq6")) { two_adic<mnt6_Fq6>("mnt6_Fq6", T6); frob("mnt6_Fq6.Frobenius_coeffs_c1", T1, nr, mnt6_Fq6::Frobenius_coeffs_c1, 6, 6, 1); ext_sizes<mnt6_Fq6>("mnt6_Fq6", T6); }
    if (!vf::unit("mnt6 curve")) return;
    BZ t = q + 1 - r; embedding(c, q, r, 6);
    BZ lc = Z(mnt6_ate_loop_count); if (mnt6_ate_is_loop_count_neg) lc = -lc; CK(lc == t - 1, "mnt6_ate_loop_count");
    CK(Z(mnt6_final_exponent) * r == ref::ipow(q, 6) - 1, "mnt6_final_exponent");
    BZ w0 = Z(mnt6_final_exponent_last_chunk_abs_of_w0); if (mnt6_final_exponent_last_chunk_is_w0_neg) w0 = -w0; CK((Z(mnt6_final_exponent_last_chunk_w1) * q + w0) * r == phi(6, q), "mnt6_final_exponent_last_chunk");
    E a = rv(mnt6_G1::coeff_a), b = rv(mnt6_G1::coeff_b), tw = rv(mnt6_twist), a2 = T3.mul(emb(a, 3), T3.pow(tw, 2)), b2 = T3.mul(emb(b, 3), T3.pow(tw, 3));
    CK(tw == ev({0, 1, 0}) && rv(mnt6_G2::twist) == tw, "mnt6_twist"); CK(rv(mnt6_twist_coeff_a) == a2 && rv(mnt6_G2::coeff_a) == a2, "mnt6_twist_coeff_a"); CK(rv(mnt6_twist_coeff_b) == b2 && rv(mnt6_G2::coeff_b) == b2, "mnt6_twist_coeff_b");
    CK(rv(mnt6_twist_mul_by_q_X) == T1.inv(T1.pow(nr, (q - 1) / 3)), "mnt6_twist_mul_by_q_X"); CK(rv(mnt6_twist_mul_by_q_Y) == T1.inv(T1.pow(nr, (q - 1) / 2)), "mnt6_twist_mul_by_q_Y");
    mulconst<mnt6_Fq3>("mnt6_G2::mul_by_a", T3, a2, [](const mnt6_Fq3 &e) { return mnt6_G2::mul_by_a(e); }); mulconst<mnt6_Fq3>("mnt6_G2::mul_by_b", T3, b2, [](const mnt6_Fq3 &e) { return mnt6_G2::mul_by_b(e); });
    Crv<BZ> E1, E2; E1.T = T1; E1.a = a; E1.b = b; E2.T = T3; E2.a = a2; E2.b = b2;
    group("mnt6_G1", E1, r, Z(mnt6_G1::h), {r}, mnt6_G1::G1_one, mnt6_G1::G1_zero); group("mnt6_G2", E2, r, Z(mnt6_G2::h), twist_orders(q, t, 3), mnt6_G2::G2_one, mnt6_G2::G2_zero);
    tables<mnt6_G1>("mnt6_G1"); tables<mnt6_G2>("mnt6_G2");
}
static void edw()
{
    const std::string c = "edwards"; BZ q = Z(edwards_modulus_q), r = Z(edwards_modulus_r); Tower<BZ> T1 = T1_(q);
    if (vf::unit("edwards Fr")) prime_field<edwards_r_limbs, edwards_modulus_r>(c + "_Fr", FAC_ED_R);
    if (vf::unit("edwards Fq")) prime_field<edwards_q_limbs, edwards_modulus_q>(c + "_Fq", FAC_ED_Q);
    E nr = rv(edwards_Fq3::non_residue); CK(irred(T1, nr, 3), "edwards_Fq3.non_residue"); Tower<BZ> T3 = ex(T1, 3, nr);
    if (vf::unit("edwards Fq3")) { two_adic<edwards_Fq3>("edwards_Fq3", T3); frob("edwards_Fq3.Frobenius_coeffs_c1", T1, nr, edwards_Fq3::Frobenius_coeffs_c1, 3, 3, 1); frob("edwards_Fq3.Frobenius_coeffs_c2", T1, nr, edwards_Fq3::Frobenius_coeffs_c2, 3, 3, 2); ext_sizes<edwards_Fq3>("edwards_Fq3", T3); }
    CK(rv(edwards_Fq6::non_residue) == nr && rv(edwards_Fq6::my_Fp2::non_residue) == nr && irred(T1, nr, 6), "edwards_Fq6.non_residue"); Tower<BZ> T6 = ex(T3, 2, ev({0, 1, 0}));
    if (vf::unit("edwards Fq6")) { two_adic<edwards_Fq6>("edwards_Fq6", T6); frob("edwards_Fq6.Frobenius_coeffs_c1", T1, nr, edwards_Fq6::Frobenius_coeffs_c1, 6, 6, 1); ext_sizes<edwards_Fq6>("edwards_Fq6", T6); }
    if (!vf::unit("edwards curve")) return;
    BZ t = q + 1 - 4 * r; embedding(c, q, r, 6);
    CK(Z(edwards_ate_loop_count) == abs(t - 1), "edwards_ate_loop_count");
    BZ w0 = Z(edwards_final_exponent_last_chunk_abs_of_w0); if (edwards_final_exponent_last_chunk_is_w0_neg) w0 = -w0; CK((Z(edwards_final_exponent_last_chunk_w1) * q + w0) * r == phi(6, q), "edwards_final_exponent_last_chunk");
    E a = rv(edwards_coeff_a), d = rv(edwards_coeff_d), tw = rv(edwards_twist), a2 = T3.mul(emb(a, 3), tw), d2 = T3.mul(emb(d, 3), tw);
    CK(a == T1.one(), "edwards_coeff_a"); CK(!T1.is_square(d), "edwards_coeff_d");
    CK(tw == ev({0, 1, 0}), "edwards_twist"); CK(rv(edwards_twist_coeff_a) == a2, "edwards_twist_coeff_a"); CK(rv(edwards_twist_coeff_d) == d2, "edwards_twist_coeff_d");
    CK(rv(edwards_twist_mul_by_q_Y) == T1.pow(nr, (q - 1) / 6) && rv(edwards_twist_mul_by_q_Z) == T1.pow(nr, (q - 1) / 6), "edwards_twist_mul_by_q");
    mulconst<edwards_Fq3>("edwards_G2::mul_by_a", T3, a2, [](const edwards_Fq3 &e) { return edwards_G2::mul_by_a(e); }); mulconst<edwards_Fq3>("edwards_G2::mul_by_d", T3, d2, [](const edwards_Fq3 &e) { return edwards_G2::mul_by_d(e); });
    CK(rv(edwards_twist_mul_by_a_c0) == T1.mul(a, nr) && rv(edwards_twist_mul_by_a_c1) == a && rv(edwards_twist_mul_by_a_c2) == a, "edwards_twist_mul_by_a");
    Crv<BZ> E1, E2; E1.edw = E2.edw = true; E1.T = T1; E1.a = a; E1.b = d; E2.T = T3; E2.a = a2; E2.b = d2;
    BZ n2 = 0; for (auto &o : twist_orders(q, t, 3)) if (o % r == 0 && (o / r) % r != 0 && o != r * 4) n2 = o;
    group("edwards_G1", E1, r, 4, {BZ(4 * r)}, edwards_G1::G1_one, edwards_G1::G1_zero); group("edwards_G2", E2, r, n2 / r, twist_orders(q, t, 3), edwards_G2::G2_one, edwards_G2::G2_zero);
    tables<edwards_G1>("edwards_G1"); tables<edwards_G2>("edwards_G2");
}

// ---- histories of initialisation
struct Snap { std::string s; template<class T> Snap &operator()(const T &x) { s.append((const char *)&x, sizeof x); return *this; } Snap &operator()(const std::vector<size_t> &v) { for (auto x : v) s += std::to_string(x) + ","; s += ";"; return *this; }
    template<class F> Snap &fld() { return (*this)(F::euler)(F::s)(F::t)(F::t_minus_1_over_2)(F::nqr)(F::nqr_to_t); }
    template<class F> Snap &prime() { return fld<F>()(F::mod)(F::num_bits)(F::multiplicative_generator)(F::root_of_unity)(F::inv)(F::Rsquared)(F::Rcubed); }
    template<class F> Snap &e1() { return fld<F>()(F::non_residue)(F::Frobenius_coeffs_c1); }
    template<class F> Snap &e2() { return e1<F>()(F::Frobenius_coeffs_c2); }
    template<class G> Snap &grp() { return (*this)(G::wnaf_window_table)(G::fixed_base_exp_window_table); } };
static std::string fields(int c)
{
    Snap s;
    switch (c) {
    case 0: s.prime<alt_bn128_Fr>().prime<alt_bn128_Fq>().e1<alt_bn128_Fq2>().e2<alt_bn128_Fq6>().e1<alt_bn128_Fq12>(); break;
    case 1: s.prime<bls12_381_Fr>().prime<bls12_381_Fq>().e1<bls12_381_Fq2>().e2<bls12_381_Fq6>().e1<bls12_381_Fq12>(); break;
    case 2: s.prime<mnt4_Fr>().prime<mnt4_Fq>().e1<mnt4_Fq2>().e1<mnt4_Fq4>(); break;
    case 3: s.prime<mnt6_Fr>().prime<mnt6_Fq>().e2<mnt6_Fq3>().e1<mnt6_Fq6>()(mnt6_Fq6::my_Fp2::non_residue); break;
    case 4: s.prime<edwards_Fr>().prime<edwards_Fq>().e2<edwards_Fq3>().e1<edwards_Fq6>()(edwards_Fq6::my_Fp2::non_residue); break;
    }
    return s.s;
}
static std::string curve(int c)
{
    Snap s;
    switch (c) {
    case 0: s(alt_bn128_coeff_b)(alt_bn128_twist)(alt_bn128_twist_coeff_b)(alt_bn128_twist_mul_by_b_c0)(alt_bn128_twist_mul_by_b_c1)(alt_bn128_twist_mul_by_q_X)(alt_bn128_twist_mul_by_q_Y)(alt_bn128_ate_loop_count)(alt_bn128_ate_is_loop_count_neg)(alt_bn128_final_exponent_z)(alt_bn128_final_exponent_is_z_neg)
        (alt_bn128_G1::G1_zero)(alt_bn128_G1::G1_one)(alt_bn128_G1::h)(alt_bn128_G1::initialized)(alt_bn128_G2::G2_zero)(alt_bn128_G2::G2_one)(alt_bn128_G2::h)(alt_bn128_G2::initialized).grp<alt_bn128_G1>().grp<alt_bn128_G2>(); break;
    case 1: s(bls12_381_coeff_b)(bls12_381_twist)(bls12_381_twist_coeff_b)(bls12_381_twist_mul_by_b_c0)(bls12_381_twist_mul_by_b_c1)(bls12_381_twist_mul_by_q_X)(bls12_381_twist_mul_by_q_Y)(bls12_381_ate_loop_count)(bls12_381_ate_is_loop_count_neg)(bls12_381_final_exponent)(bls12_381_final_exponent_z)(bls12_381_final_exponent_is_z_neg)
        (bls12_381_G1::G1_zero)(bls12_381_G1::G1_one)(bls12_381_G1::h)(bls12_381_G2::G2_zero)(bls12_381_G2::G2_one)(bls12_381_G2::h).grp<bls12_381_G1>().grp<bls12_381_G2>(); break;
    case 2: s(mnt4_twist)(mnt4_twist_coeff_a)(mnt4_twist_coeff_b)(mnt4_twist_mul_by_a_c0)(mnt4_twist_mul_by_a_c1)(mnt4_twist_mul_by_b_c0)(mnt4_twist_mul_by_b_c1)(mnt4_twist_mul_by_q_X)(mnt4_twist_mul_by_q_Y)(mnt4_ate_loop_count)(mnt4_ate_is_loop_count_neg)(mnt4_final_exponent)(mnt4_final_exponent_last_chunk_abs_of_w0)(mnt4_final_exponent_last_chunk_is_w0_neg)(mnt4_final_exponent_last_chunk_w1)
        (mnt4_G1::coeff_a)(mnt4_G1::coeff_b)(mnt4_G1::G1_zero)(mnt4_G1::G1_one)(mnt4_G1::h)(mnt4_G1::initialized)(mnt4_G2::twist)(mnt4_G2::coeff_a)(mnt4_G2::coeff_b)(mnt4_G2::G2_zero)(mnt4_G2::G2_one)(mnt4_G2::h)(mnt4_G2::initialized).grp<mnt4_G1>().grp<mnt4_G2>(); break;
    case 3: s(mnt6_twist)(mnt6_twist_coeff_a)(mnt6_twist_coeff_b)(mnt6_twist_mul_by_a_c0)(mnt6_twist_mul_by_a_c1)(mnt6_twist_mul_by_a_c2)(mnt6_twist_mul_by_b_c0)(mnt6_twist_mul_by_b_c1)(mnt6_twist_mul_by_b_c2)(mnt6_twist_mul_by_q_X)(mnt6_twist_mul_by_q_Y)(mnt6_ate_loop_count)(mnt6_ate_is_loop_count_neg)(mnt6_final_exponent)(mnt6_final_exponent_last_chunk_abs_of_w0)(mnt6_final_exponent_last_chunk_is_w0_neg)(mnt6_final_exponent_last_chunk_w1)
        (mnt6_G1::coeff_a)(mnt6_G1::coeff_b)(mnt6_G1::G1_zero)(mnt6_G1::G1_one)(mnt6_G1::h)(mnt6_G1::initialized)(mnt6_G2::twist)(mnt6_G2::coeff_a)(mnt6_G2::coeff_b)(mnt6_G2::G2_zero)(mnt6_G2::G2_one)(mnt6_G2::h)(mnt6_G2::initialized).grp<mnt6_G1>().grp<mnt6_G2>(); break;
    case 4: s(edwards_coeff_a)(edwards_coeff_d)(edwards_twist)(edwards_twist_coeff_a)(edwards_twist_coeff_d)(edwards_twist_mul_by_a_c0)(edwards_twist_mul_by_a_c1)(edwards_twist_mul_by_a_c2)(edwards_twist_mul_by_d_c0)(edwards_twist_mul_by_d_c1)(edwards_twist_mul_by_d_c2)(edwards_twist_mul_by_q_Y)(edwards_twist_mul_by_q_Z)(edwards_ate_loop_count)(edwards_final_exponent_last_chunk_abs_of_w0)(edwards_final_exponent_last_chunk_is_w0_neg)(edwards_final_exponent_last_chunk_w1)
        (edwards_G1::G1_zero)(edwards_G1::G1_one)(edwards_G1::initialized)(edwards_G2::G2_zero)(edwards_G2::G2_one)(edwards_G2::initialized).grp<edwards_G1>().grp<edwards_G2>(); break;
    }
    return s.s;
}
static const char *CN[5] = {"alt_bn128", "bls12_381", "mnt4", "mnt6", "edwards"};
static void act_init(int c, int how)
{
    switch (c * 3 + how) {
    case 0: alt_bn128_pp::init_public_params(); break; case 1: init_alt_bn128_params(); break; case 2: init_alt_bn128_fields(); break;
    case 3: bls12_381_pp::init_public_params(); break; case 4: init_bls12_381_params(); break; case 5: init_bls12_381_fields(); break;
    case 6: mnt4_pp::init_public_params(); break; case 7: init_mnt4_params(); break; case 8: init_mnt4_fields(); break;
    case 9: mnt6_pp::init_public_params(); break; case 10: init_mnt6_params(); break; case 11: init_mnt6_fields(); break;
    case 12: edwards_pp::init_public_params(); break; case 13: init_edwards_params(); break; case 14: init_edwards_fields(); break;
    }
}
template<class PP> void use_it(bool full)
{
    typedef typename PP::G1_type G1; typedef typename PP::G2_type G2; typedef typename PP::Fp_type Fr;
    G1 P = G1::random_element(); G2 Q = G2::random_element(); Fr k = Fr::random_element();
    P = k * P + G1::one(); Q = k * Q + G2::one(); P.to_affine_coordinates(); P = P.dbl(); P.to_special(); Q.to_special();
    opt_window_wnaf_exp(P, k.as_bigint(), k.as_bigint().num_bits());
    size_t w = get_exp_window_size<G1>(10); auto tab = get_window_table(Fr::ceil_size_in_bits(), w, G1::one()); std::vector<G1> bv = batch_exp(Fr::ceil_size_in_bits(), w, tab, std::vector<Fr>{k, Fr::one()}); batch_to_special<G1>(bv);
    std::stringstream ss; ss << P << k; G1 P2; Fr k2; ss >> P2 >> k2; (k * k).inverse(); k.squared().sqrt(); 
    if (full) { PP::reduced_pairing(P, Q); }
}
static void act_use(int c) { switch (c) { case 0: use_it<alt_bn128_pp>(true); break; case 1: use_it<bls12_381_pp>(true); break; case 2: use_it<mnt4_pp>(true); break; case 3: use_it<mnt6_pp>(true); break; case 4: use_it<edwards_pp>(true); break; } }
static std::string reff[5], refc[5];
// actions: curve*4 + {pp init, params init, fields init, use}
static std::string aname(int a) { static const char *h[4] = {".init_public_params", ".init_params", ".init_fields", ".use"}; return std::string(CN[a / 4]) + h[a % 4]; }
static int check_history(const std::vector<int> &h) // in a fresh process: 0 fine, else 1 + curve*2 + part, step in the upper bits
{
    bool fi[5] = {}, ci[5] = {};
    for (size_t i = 0; i < h.size(); i++) {
        int c = h[i] / 4, how = h[i] % 4;
        if (how == 3) act_use(c); else { act_init(c, how); fi[c] = true; if (how < 2) ci[c] = true; }
        for (int k = 0; k < 5; k++) { if (fi[k] && fields(k) != reff[k]) return 1 + k * 2; if (ci[k] && curve(k) != refc[k]) return 2 + k * 2; }
    }
    return 0;
}
static int in_child(const std::function<int()> &f)
{
    fflush(stdout); pid_t p = fork(); if (p == 0) { for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS}) signal(s, SIG_DFL); int r = 99; try { r = f(); } catch (...) {} _exit(r); }
    int st; waitpid(p, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : 98;
}
static void one_history(const std::vector<int> &h)
{
    vf::tick(); vf::trace(); vf::trans(h.size()); vf::state();
    int r = in_child([&] { return check_history(h); }); if (!r) return;
    std::string t; for (int a : h) t += (t.empty() ? "" : "; ") + aname(a);
    if (r >= 98) vf::fail("history.crash", "crashed or threw: %s", t.c_str());
    else vf::fail(std::string("history.") + CN[(r - 1) / 2] + ((r - 1) % 2 ? ".curve" : ".fields"), "the %s parameters of %s differ from those of a single initialisation after: %s", (r - 1) % 2 ? "curve" : "field", CN[(r - 1) / 2], t.c_str());
}
static bool valid(const std::vector<int> &h) { bool ci[5] = {}; for (int a : h) { if (a % 4 == 3 && !ci[a / 4]) return false; if (a % 4 < 2) ci[a / 4] = true; } return true; }
static void histories()
{
    // what a single initialisation in a fresh process publishes
    for (int c = 0; c < 5; c++) { int fd[2]; if (pipe(fd)) abort(); pid_t p = fork(); if (p == 0) { close(fd[0]); act_init(c, 0); std::string a = fields(c), b = curve(c); size_t n[2] = {a.size(), b.size()}; FILE *f = fdopen(fd[1], "w"); fwrite(n, sizeof n, 1, f); fwrite(a.data(), 1, n[0], f); fwrite(b.data(), 1, n[1], f); fclose(f); _exit(0); }
        close(fd[1]); FILE *f = fdopen(fd[0], "r"); size_t n[2]; if (fread(n, sizeof n, 1, f) != 1) abort(); reff[c].resize(n[0]); refc[c].resize(n[1]); if (fread(&reff[c][0], 1, n[0], f) != n[0] || fread(&refc[c][0], 1, n[1], f) != n[1]) abort(); fclose(f); int st; waitpid(p, &st, 0); }
    // every history of public initialisations
    int D = vf::thorough() ? 6 : 5;
    for (int first = 0; first < 25; first++) if (vf::unit("init histories starting %s, %s, length 1..%d", CN[first / 5], CN[first % 5], D)) {
        if (first % 5 == 0) one_history({first / 5 * 4});
        std::function<void(std::vector<int> &)> rec = [&](std::vector<int> &h) { one_history(h); if ((int)h.size() < D) for (int c = 0; c < 5; c++) { h.push_back(c * 4); rec(h); h.pop_back(); } };
        std::vector<int> h = {first / 5 * 4, first % 5 * 4}; rec(h);
    }
    // every history over all initialisation entry points and uses of the library
    D = vf::thorough() ? 4 : 3;
    for (int first = 0; first < 15; first++) for (int second = 0; second < 20; second++) {
        int a0 = first / 3 * 4 + first % 3; if (!valid({a0, second})) continue;
        if (!vf::unit("histories starting %s, %s, length 2..%d", aname(a0).c_str(), aname(second).c_str(), D)) continue;
        std::function<void(std::vector<int> &)> rec = [&](std::vector<int> &h) { if (!valid(h)) return; one_history(h); if ((int)h.size() < D) for (int a = 0; a < 20; a++) { h.push_back(a); rec(h); h.pop_back(); } };
        std::vector<int> h = {a0, second}; rec(h);
    }
    vf::sample("history", "alt_bn128.init_public_params; mnt6.init_fields; mnt4.init_params; mnt6.init_public_params: every parameter equals the single-initialisation snapshot");
}
static void body()
{
    quiet(); histories();
    alt_bn128_pp::init_public_params(); bls12_381_pp::init_public_params(); mnt4_pp::init_public_params(); mnt6_pp::init_public_params(); edwards_pp::init_public_params();
    alt(); bls(); mnt4(); mnt6(); edw();
}
VF_MAIN(body)
