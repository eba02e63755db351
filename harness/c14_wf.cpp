// C14: the membership test accepts exactly the points of the curve.
#include "curves.hpp"
using namespace libff;
using namespace vf;
typedef std::vector<E64> VE;

// reference verdict for a coordinate triple with an invertible denominator (or an identity shape)
template<class G, class Zt> bool on(const Crv<Zt> &C, const El<Zt> &X, const El<Zt> &Y, const El<Zt> &Z)
{
    const Tower<Zt> &T = C.T; Pt<Zt> p;
    switch (GK<G>::kind) {
    case JAC: { El<Zt> i = T.inv(Z), i2 = T.sqr(i); p.x = T.mul(X, i2); p.y = T.mul(Y, T.mul(i2, i)); break; }
    case PROJ: { El<Zt> i = T.inv(Z); p.x = T.mul(X, i); p.y = T.mul(Y, i); break; }
    default: p.x = T.mul(Z, T.inv(X)); p.y = T.mul(Z, T.inv(Y));
    }
    return C.on(p);
}
template<class G, class Zt> void one(const Crv<Zt> &C, const El<Zt> &X, const El<Zt> &Y, const El<Zt> &Z, bool want)
{
    static const std::string nm = GK<G>::name();
    G g = raw<G>(X, Y, Z); G k = g;
    bool got = g.is_well_formed();
    state();
    VF_CHECK(got == want, nm + (want ? ".rejects" : ".accepts"), "is_well_formed %s = %d", gs(g).c_str(), (int)got);
    VF_CHECK(same(g, k), nm + ".operand", "modified");
}
// the same verdict without divisions, for triples with no vanishing denominator
template<class G, class Zt> bool on2(const Crv<Zt> &C, const El<Zt> &X, const El<Zt> &Y, const El<Zt> &Z)
{
    const Tower<Zt> &T = C.T; El<Zt> X2 = T.sqr(X), Y2 = T.sqr(Y), Z2 = T.sqr(Z), Z4 = T.sqr(Z2);
    switch (GK<G>::kind) {
    case JAC: return Y2 == T.add(T.mul(X2, X), T.add(T.mul(C.a, T.mul(X, Z4)), T.mul(C.b, T.mul(Z4, Z2))));
    case PROJ: return T.mul(Y2, Z) == T.add(T.mul(X2, X), T.add(T.mul(C.a, T.mul(X, Z2)), T.mul(C.b, T.mul(Z2, Z))));
    default: return T.add(T.mul(C.a, T.mul(Z2, Y2)), T.mul(Z2, X2)) == T.add(T.mul(X2, Y2), T.mul(C.b, Z4));
    }
}
// every triple whose coordinates have coefficients from a small alphabet
template<class G, class Zt> void smalls(const Crv<Zt> &C, const std::vector<El<Zt>> &A, unsigned sl = 0, unsigned ns = 1)
{
    for (size_t i = sl; i < A.size(); i += ns) for (auto &y : A) for (auto &z : A) {
        if (GK<G>::kind == INV ? A[i].zero() || y.zero() || z.zero() : z.zero()) continue;
        if (GK<G>::kind == INV) { }
        at("%s small triple", GK<G>::name()); one<G>(C, A[i], y, z, on2<G>(C, A[i], y, z));
    }
    trace();
}
template<class Zt> std::vector<El<Zt>> coeffs(const Tower<Zt> &T, const std::vector<Zt> &c)
{
    std::vector<El<Zt>> v; int d = T.one().d; size_t n = 1; for (int i = 0; i < d; i++) n *= c.size();
    for (size_t k = 0; k < n; k++) { El<Zt> e = T.zero(); size_t j = k; for (int i = 0; i < d; i++) { e.c[i] = c[j % c.size()]; j /= c.size(); } v.push_back(e); }
    return v;
}
// verdict for a whole line of scalings follows from the affine point: for every affine (x,y) and scaling
template<class G> void affine_all(const Crv<u64> &C, const VE &XS, const VE &YS, const VE &LS, unsigned sl, unsigned ns)
{
    const T64 &T = C.T; size_t nin = 0;
    VE l2, l3; for (auto &l : LS) { l2.push_back(T.sqr(l)); l3.push_back(T.mul(T.sqr(l), l)); }
    for (size_t i = sl; i < XS.size(); i += ns) {
        at("%s p=%d x=%s", GK<G>::name(), (int)T.p, XS[i].s().c_str());
        for (auto &y : YS) {
            if (GK<G>::kind == INV && (XS[i].zero() || y.zero())) continue; // no inverted form
            Pt<u64> p; p.x = XS[i]; p.y = y; bool w = C.on(p); nin += w;
            for (size_t k = 0; k < LS.size(); k++) {
                if (GK<G>::kind == JAC) one<G>(C, T.mul(p.x, l2[k]), T.mul(p.y, l3[k]), LS[k], w);
                else if (GK<G>::kind == PROJ) one<G>(C, T.mul(p.x, LS[k]), T.mul(p.y, LS[k]), LS[k], w);
                else one<G>(C, T.mul(p.y, LS[k]), T.mul(p.x, LS[k]), T.mul(T.mul(p.x, p.y), LS[k]), w);
            }
        }
    }
    sample(GK<G>::name(), std::to_string(nin) + " on-curve points in the slice");
    trace();
}
template<class G> void identities(const Crv<u64> &C, const VE &LS)
{
    const T64 &T = C.T; E64 z = T.zero();
    for (auto &l : LS) {
        if (GK<G>::kind == JAC) { one<G>(C, z, l, z, true); one<G>(C, T.sqr(l), T.mul(T.sqr(l), l), z, true); }
        else if (GK<G>::kind == PROJ) one<G>(C, z, l, z, true);
        else one<G>(C, l, z, z, true);
    }
}
static VE every(const T64 &T) { VE v; u64 n = mpz_class(T.size()).get_ui(); for (u64 k = 0; k < n; k++) v.push_back(T.nth(k, T.p)); return v; }
static VE nonzero(const VE &v) { VE r; for (auto &e : v) if (!e.zero()) r.push_back(e); return r; }
static VE thin(const VE &v, size_t n) { if (v.size() <= n) return v; VE r; for (size_t i = 0; i < n; i++) r.push_back(v[(i * (v.size() / n) + i) % v.size()]); return r; }
// on-curve neighbourhoods for fields too large for all (x,y): each on-curve point and all its single-coordinate perturbations
template<class G> void near(const Crv<u64> &C, const Pt<u64> &P, u64 r, const VE &LS, u64 npts)
{
    const T64 &T = C.T; auto t = C.table(P, r);
    std::vector<Pt<u64>> pts; for (u64 i = 1; i < r && pts.size() < npts; i++) pts.push_back(t[i]);
    for (u64 s = 1; pts.size() < 2 * npts; s += 1 + s / 7) { Pt<u64> q = scan_point(C, s, T.p); if (GK<G>::kind == INV && (q.x.zero() || q.y.zero())) continue; pts.push_back(q); s++; }
    for (auto &p : pts) for (auto &l : LS) {
        G g = rep<G>(C, p, l); E64 c[3] = {flat<u64>(g.X), flat<u64>(g.Y), flat<u64>(g.Z)};
        at("%s near %s", GK<G>::name(), gs(g).c_str());
        one<G>(C, c[0], c[1], c[2], true);
        for (int w = 0; w < 3; w++) for (int k = 0; k < c[w].d; k++) for (u64 dlt = 1; dlt < T.p; dlt += T.p > 100 ? T.p / 23 : 1) {
            E64 d[3] = {c[0], c[1], c[2]}; d[w].c[k] = (d[w].c[k] + dlt) % T.p;
            if (GK<G>::kind == INV ? d[0].zero() || d[1].zero() || d[2].zero() : d[2].zero()) continue;
            one<G>(C, d[0], d[1], d[2], on<G>(C, d[0], d[1], d[2]));
        }
    }
    trace();
}
template<class G1, class G2, class MK> void tiny(const char *nm, MK make, size_t nl1, bool full2, size_t nl2, size_t nx2, unsigned slices)
{
    for (unsigned s = 0; s < slices; s++) if (unit("%s G1 all triples %u/%u", nm, s, slices)) { CS c = make(); VE A = every(c.E1.T); affine_all<G1>(c.E1, A, A, thin(nonzero(A), nl1), s, slices); if (s == 0) identities<G1>(c.E1, nonzero(A)); }
    for (unsigned s = 0; s < slices; s++) if (unit("%s G2 triples %u/%u", nm, s, slices)) { CS c = make(); VE A = every(c.E2.T); affine_all<G2>(c.E2, thin(A, full2 ? A.size() : nx2), thin(A, full2 ? A.size() : nx2), thin(nonzero(A), nl2), s, slices); if (s == 0) identities<G2>(c.E2, nonzero(A)); }
    if (unit("%s small triples", nm)) { CS c = make(); u64 p = c.E1.T.p; smalls<G1>(c.E1, coeffs<u64>(c.E1.T, {0, 1, p - 1, 2, p - 2, 3})); smalls<G2>(c.E2, coeffs<u64>(c.E2.T, c.E2.T.one().d == 2 ? std::vector<u64>{0, 1, p - 1, 2} : std::vector<u64>{0, 1, p - 1})); }
    if (unit("%s G1 near", nm)) { CS c = make(); near<G1>(c.E1, c.P1, c.r.get_ui(), thin(nonzero(every(c.E1.T)), 4), 40); }
    if (unit("%s G2 near", nm)) { CS c = make(); near<G2>(c.E2, c.P2, c.r.get_ui(), thin(nonzero(every(c.E2.T)), 4), 30); }
}
template<class G> void ship(const Crv<mpz_class> &C, const Pt<mpz_class> &P, const mpz_class &r)
{
    const auto &T = C.T; Pt<mpz_class> x = P; std::vector<G> acc;
    for (int i = 0; i < (thorough() ? 12 : 4); i++) {
        std::vector<EZ> L; L.push_back(T.one()); EZ l = T.zero(); for (int k = 0; k < l.d; k++) l.c[k] = ref::mod(mpz_class("31415926535897932384626433832795028841971693993751058209749445923078164062862") * (i + 3 * k + 1), T.p); L.push_back(l); L.push_back(T.neg(l));
        for (auto &lam : L) {
            G g = rep<G>(C, x, lam); EZ c[3] = {flat<mpz_class>(g.X), flat<mpz_class>(g.Y), flat<mpz_class>(g.Z)};
            at("%s shipped %s", GK<G>::name(), gs(g).c_str());
            one<G>(C, c[0], c[1], c[2], true);
            for (int w = 0; w < 3; w++) for (int k = 0; k < c[w].d; k++) for (int m = 0; m < 5; m++) {
                EZ d[3] = {c[0], c[1], c[2]}; mpz_class &v = d[w].c[k];
                if (m == 0) v = ref::mod(v + 1, T.p); else if (m == 1) v = ref::mod(v - 1, T.p); else if (m == 2) v = ref::mod(-v, T.p); else if (m == 3) v = 0; else v = ref::mod(v + (mpz_class(1) << 130), T.p);
                if (GK<G>::kind == INV ? d[0].zero() || d[1].zero() || d[2].zero() : d[2].zero()) continue;
                one<G>(C, d[0], d[1], d[2], on<G>(C, d[0], d[1], d[2]));
            }
            // points of sibling curves (other constant term) satisfy the equation only for their own constant: swap x and y, double y
            { EZ y2 = T.add(c[1], c[1]); one<G>(C, c[0], y2, c[2], on<G>(C, c[0], y2, c[2])); one<G>(C, c[1], c[0], c[2], on<G>(C, c[1], c[0], c[2])); }
            // results of operations stay well formed
            acc.push_back(g);
        }
        x = C.add(C.add(x, x), P);
    }
    for (auto &a : acc) for (auto &b : acc) { G s = a + b, d = a - b, e = a.dbl(); VF_CHECK(s.is_well_formed() && d.is_well_formed() && e.is_well_formed(), std::string(GK<G>::name()) + ".closed", "%s %s", gs(a).c_str(), gs(b).c_str()); }
    VF_CHECK(G::zero().is_well_formed() && G::one().is_well_formed(), std::string(GK<G>::name()) + ".constants", "zero/one");
    trace();
}
// results of operations on well-formed points are well formed (tiny curves, all pairs)
template<class G> void closed(const Crv<u64> &C, const Pt<u64> &P, u64 r, const VE &L)
{
    auto t = C.table(P, r);
    for (u64 i = 0; i < r; i++) for (auto &l : L) for (u64 j = 0; j < r; j++) for (auto &m : L) {
        G a = rep<G>(C, t[i], l), b = rep<G>(C, t[j], m); at("%s closed", GK<G>::name()); state();
        VF_CHECK((a + b).is_well_formed() && (a - b).is_well_formed(), std::string(GK<G>::name()) + ".closed", "%s %s", gs(a).c_str(), gs(b).c_str());
        if (j == 0) VF_CHECK(a.dbl().is_well_formed() && (-a).is_well_formed(), std::string(GK<G>::name()) + ".closed", "%s", gs(a).c_str());
    }
    trace();
}
template<class G1, class G2, class MK> void clos(const char *nm, MK make)
{
    if (unit("%s closed", nm)) { CS c = make(); closed<G1>(c.E1, c.P1, c.r.get_ui(), thin(nonzero(every(c.E1.T)), 3)); closed<G2>(c.E2, c.P2, c.r.get_ui(), thin(nonzero(every(c.E2.T)), 3)); }
}
template<class G1, class G2, class MK> void shipped(const char *nm, MK make)
{
    if (unit("shipped %s G1", nm)) { auto c = make(); ship<G1>(c.E1, c.P1, c.r); }
    for (unsigned k = 0; k < 4; k++) if (unit("shipped %s small triples %u/4", nm, k)) { auto c = make(); mpz_class p = c.q; std::vector<mpz_class> A = {0, 1, p - 1}; smalls<G1>(c.E1, coeffs<mpz_class>(c.E1.T, {0, 1, p - 1, 2, p - 2, 3, 4, p / 2}), k, 4); smalls<G2>(c.E2, coeffs<mpz_class>(c.E2.T, A), k, 4); }
    if (unit("shipped %s G2", nm)) { auto c = make(); ship<G2>(c.E2, c.P2, c.r); }
}
VF_MAIN([]() {
    quiet(); bool th = thorough();
    typedef alt_bn128_G1 A1; typedef alt_bn128_G2 A2; typedef bls12_381_G1 B1; typedef bls12_381_G2 B2; typedef mnt4_G1 M41; typedef mnt4_G2 M42; typedef mnt6_G1 M61; typedef mnt6_G2 M62; typedef edwards_G1 D1; typedef edwards_G2 D2;
    tiny<A1, A2>("BN(-1)", []() { return tiny_alt_bn128(-1); }, 18, true, th ? 12 : 3, 0, 4);
    tiny<A1, A2>("BN(1)", []() { return tiny_alt_bn128(1); }, th ? 102 : 20, false, 2, th ? 900 : 200, 4);
    tiny<B1, B2>("BLS12(-2)", []() { return tiny_bls12_381(-2); }, 36, th, th ? 2 : 4, 250, 4);
    tiny<M41, M42>("MNT4(13,17)", []() { return tiny_mnt4(13, 17); }, 12, true, th ? 60 : 8, 0, 4);
    tiny<M41, M42>("MNT4(13,17)b", []() { return tiny_mnt4(13, 17, 2, 1); }, 12, true, 2, 0, 4);
    tiny<M61, M62>("MNT6(37,31)", []() { return tiny_mnt6(37, 31); }, 36, false, 2, th ? 1500 : 330, 4);
    tiny<M61, M62>("MNT6(37,43)", []() { return tiny_mnt6(37, 43); }, 36, false, 2, th ? 1500 : 330, 4);
    tiny<D1, D2>("EDW(19,7)", []() { return tiny_edwards(19, 7, 8); }, 18, false, 2, th ? 1500 : 330, 4);
    tiny<D1, D2>("EDW(43,13)", []() { return tiny_edwards(43, 13, 5); }, 42, false, 2, th ? 1500 : 330, 4);
    clos<A1, A2>("BN(-1)", []() { return tiny_alt_bn128(-1); }); clos<B1, B2>("BLS12(-2)", []() { return tiny_bls12_381(-2); }); clos<M41, M42>("MNT4(13,17)", []() { return tiny_mnt4(13, 17); });
    clos<M61, M62>("MNT6(37,31)", []() { return tiny_mnt6(37, 31); }); clos<D1, D2>("EDW(43,13)", []() { return tiny_edwards(43, 13, 5); });
    shipped<A1, A2>("alt_bn128", ship_alt_bn128); shipped<B1, B2>("bls12_381", ship_bls12_381); shipped<M41, M42>("mnt4", ship_mnt4); shipped<M61, M62>("mnt6", ship_mnt6); shipped<D1, D2>("edwards", ship_edwards);
})
