// C09: group operations in every representation against the affine group law.
#include "curves.hpp"
#include <unordered_map>
using namespace libff;
using namespace vf;

template<class Zt> using VP = std::vector<Pt<Zt>>;
template<class Zt> using VEl = std::vector<El<Zt>>;

template<class G, class Zt> struct Group {
    Crv<Zt> C; std::string name;
    // reps[i]: representations of the point tbl[i]
    VP<Zt> tbl;
    std::function<size_t(size_t, size_t)> add; std::function<size_t(size_t)> neg;
};
// every unary operation
template<class G, class Zt> void unary(const Crv<Zt> &C, const G &g, const Pt<Zt> &p, const Pt<Zt> &p2, const Pt<Zt> &pn)
{
    const std::string nm = GK<G>::name();
    VF_CHECK(is(C, g, p), "rep", "%s: harness representation of %s", nm.c_str(), p.s().c_str());
    G k = g;
    VF_CHECK(g.is_zero() == C.isO(p), nm + ".is_zero", "%s for %s", gs(g).c_str(), p.s().c_str());
    G d = g.dbl(); VF_CHECK(is(C, d, p2), nm + ".dbl", "dbl %s (=%s) gave %s want %s", gs(g).c_str(), p.s().c_str(), gs(d).c_str(), p2.s().c_str());
    G n = -g; VF_CHECK(is(C, n, pn), nm + ".neg", "- %s gave %s", gs(g).c_str(), gs(n).c_str());
    G a = g + g; VF_CHECK(is(C, a, p2), nm + ".add_self", "%s + itself gave %s", gs(g).c_str(), gs(a).c_str());
    G s = g - g; VF_CHECK(is(C, s, C.O()) && s.is_zero(), nm + ".sub_self", "%s - itself gave %s", gs(g).c_str(), gs(s).c_str());
    G e = g + (-g); VF_CHECK(e.is_zero(), nm + ".add_neg", "%s + (-itself) gave %s", gs(g).c_str(), gs(e).c_str());
    VF_CHECK(g == g && !(g != g), nm + ".eq_self", "%s", gs(g).c_str());
    VF_CHECK((g == G::zero()) == C.isO(p) && (G::zero() == g) == C.isO(p) && (g != G::zero()) != C.isO(p), nm + ".eq_zero", "%s", gs(g).c_str());
    VF_CHECK(same(g, k), nm + ".operand", "operand modified");
}
template<class G, class Zt> void binary(const Crv<Zt> &C, const G &g, const G &h, bool hspecial, bool eq, bool anyO, const Pt<Zt> &ps, const Pt<Zt> &pd)
{
    static const std::string nm = GK<G>::name(), k_add = nm + ".+", k_sub = nm + ".-", k_a = nm + ".add", k_m = nm + ".mixed_add", k_e = nm + ".==", k_n = nm + ".!=", k_o = nm + ".operand";
    G kg = g, kh = h;
    { G r = g + h; VF_CHECK(is(C, r, ps), k_add, "%s + %s gave %s want %s", gs(g).c_str(), gs(h).c_str(), gs(r).c_str(), ps.s().c_str()); }
    { G r = g - h; VF_CHECK(is(C, r, pd), k_sub, "%s - %s gave %s want %s", gs(g).c_str(), gs(h).c_str(), gs(r).c_str(), pd.s().c_str()); }
    if (!anyO || GK<G>::kind == JAC) { G r = g.add(h); VF_CHECK(is(C, r, ps), k_a, "%s add %s gave %s want %s", gs(g).c_str(), gs(h).c_str(), gs(r).c_str(), ps.s().c_str()); }
    if (hspecial) { G r = g.mixed_add(h); VF_CHECK(is(C, r, ps), k_m, "%s mixed_add %s gave %s want %s", gs(g).c_str(), gs(h).c_str(), gs(r).c_str(), ps.s().c_str()); }
    VF_CHECK((g == h) == eq, k_e, "%s == %s", gs(g).c_str(), gs(h).c_str());
    VF_CHECK((g != h) == !eq, k_n, "%s != %s", gs(g).c_str(), gs(h).c_str());
    VF_CHECK(same(g, kg) && same(h, kh), k_o, "operand modified");
}
// scaling that makes the representation "special"
template<class G, class Zt> El<Zt> special_l(const Crv<Zt> &C, const Pt<Zt> &p)
{
    if (GK<G>::kind != INV || C.isO(p)) return C.T.one();
    return C.T.inv(C.T.mul(p.x, p.y));
}
template<class G, class Zt> std::vector<std::pair<G, bool>> reps(const Crv<Zt> &C, const Pt<Zt> &p, const VEl<Zt> &L)
{
    std::vector<std::pair<G, bool>> v;
    auto add = [&](const El<Zt> &l, int shape) { G g = rep<G>(C, p, l, shape); v.push_back({g, C.isO(p) || flat<Zt>(g.Z) == C.T.one()}); };
    add(special_l<G>(C, p), 0);
    for (auto &l : L) { add(l, 0); if (C.isO(p) && GK<G>::kind == JAC) add(l, 1); }
    return v;
}
// all pairs of multiples 0..n-1 (n = order) with the given scalings of either side
template<class G> void grid(const Crv<u64> &C, const Pt<u64> &P, u64 r, const VEl<u64> &L1, const VEl<u64> &L2, unsigned sl, unsigned ns)
{
    VP<u64> t = C.table(P, r);
    std::vector<std::vector<std::pair<G, bool>>> R2; for (auto &p : t) R2.push_back(reps<G>(C, p, L2));
    for (u64 i = sl; i < r; i += ns) {
        auto R1 = reps<G>(C, t[i], L1);
        for (auto &g : R1) {
            at("%s q=%s: %s", GK<G>::name(), std::to_string(C.T.p).c_str(), gs(g.first).c_str());
            state(); unary(C, g.first, t[i], t[2 * i % r], t[(r - i) % r]);
            for (u64 j = 0; j < r; j++) for (auto &h : R2[j]) binary(C, g.first, h.first, h.second, i == j, i == 0 || j == 0, t[(i + j) % r], t[(i + r - j) % r]);
        }
    }
    trace();
}
// reachability over raw coordinate triples: every state reachable from the generator's special form by the group operations
template<class G> void closure(const Crv<u64> &C, const Pt<u64> &P, u64 r, size_t cap)
{
    VP<u64> t = C.table(P, r);
    std::map<std::vector<u64>, size_t> seen; std::vector<std::pair<G, u64>> st;
    auto key = [](const G &g) { std::vector<u64> k; for (auto *c : {&g.X, &g.Y, &g.Z}) { E64 e = flat<u64>(*c); for (int i = 0; i < e.d; i++) k.push_back(e.c[i]); } return k; };
    auto add = [&](const G &g, u64 idx) { if (st.size() >= cap) return; auto k = key(g); if (seen.emplace(k, st.size()).second) { st.push_back({g, idx}); state(); } };
    add(G::zero(), 0); add(G::one(), 1);
    if (GK<G>::kind == INV) add(rep<G>(C, t[1], special_l<G>(C, t[1])), 1);
    for (size_t i = 0; i < st.size(); i++) {
        G g = st[i].first; u64 a = st[i].second;
        at("%s closure state %zu %s", GK<G>::name(), i, gs(g).c_str());
        unary(C, g, t[a], t[2 * a % r], t[(r - a) % r]);
        add(g.dbl(), 2 * a % r); add(-g, (r - a) % r);
        { G s = g; s.to_special(); if (a) { add(s, a); VF_CHECK(is(C, s, t[a]), std::string(GK<G>::name()) + ".to_special", "%s", gs(g).c_str()); } }
        for (size_t j = 0; j <= i; j++) {
            u64 b = st[j].second; G h = st[j].first;
            bool gsp = a == 0 || flat<u64>(g.Z) == C.T.one(), hsp = b == 0 || flat<u64>(h.Z) == C.T.one();
            binary(C, g, h, hsp, a == b, a == 0 || b == 0, t[(a + b) % r], t[(a + r - b) % r]);
            binary(C, h, g, gsp, a == b, a == 0 || b == 0, t[(a + b) % r], t[(b + r - a) % r]);
            if (st.size() < cap) {
                add(g + h, (a + b) % r); add(h + g, (a + b) % r); add(g - h, (a + r - b) % r); add(h - g, (b + r - a) % r);
                if (hsp) add(g.mixed_add(h), (a + b) % r);
                if (gsp) add(h.mixed_add(g), (a + b) % r);
            }
        }
    }
    sample("closure", std::string(GK<G>::name()) + " q=" + std::to_string(C.T.p) + ": " + std::to_string(st.size()) + " reachable coordinate triples" + (st.size() >= cap ? " (bounded)" : " (complete)"));
    trace();
}
static VEl<u64> some(const T64 &T, unsigned n)
{
    VEl<u64> v; E64 m1 = T.neg(T.one()); v.push_back(T.one()); v.push_back(m1);
    for (u64 k = 2; v.size() < n; k++) { E64 e = T.zero(); for (int i = 0; i < e.d; i++) e.c[i] = (k * (i + 1) * (i + 3) + k * k * i + (i ? k / 3 : 0)) % T.p; if (!e.zero()) v.push_back(e); }
    v.resize(n); return v;
}
static VEl<u64> every(const T64 &T) { VEl<u64> v; u64 n = mpz_class(T.size()).get_ui(); for (u64 k = 1; k < n; k++) v.push_back(T.nth(k, T.p)); return v; }

// points of the whole curve (also outside the subgroup) whose coordinates have coefficients that vanish or coincide
template<class G> void whole(const Crv<u64> &C, size_t cap)
{
    const T64 &T = C.T; u64 n = mpz_class(T.size()).get_ui(); VP<u64> pts; bool few = n <= 1500;
    auto thin = [](const E64 &e) { int z = 0; for (int i = 0; i < e.d; i++) z += e.c[i] == 0 || e.c[i] == 1; return z; };
    for (u64 k = 0; k < n && pts.size() < 4 * cap; k++) {
        vf::tick(); E64 x = T.nth(k, T.p), xx = T.sqr(x), rhs = T.add(T.add(T.mul(xx, x), T.mul(C.a, x)), C.b);
        if (rhs.zero() || !T.is_square(rhs)) continue;
        Pt<u64> p; p.x = x; p.y = tsqrt(T, rhs);
        if (few || thin(p.y) >= p.y.d - 1 || thin(p.y) == -1 || (thin(x) == x.d)) pts.push_back(p);
        else if (p.y.d == 3 && p.y.c[0] == 0 && pts.size() < cap) pts.push_back(p);
    }
    auto common = [](const E64 &x, const E64 &y) { int c = 0; for (int i = 0; i < x.d; i++) c += x.c[i] == y.c[i]; return c; };
    auto L = special_scalings(T); std::map<int, size_t> seen; size_t pairs = 0;
    auto pair = [&](const Pt<u64> &p, const Pt<u64> &q, size_t v) {
        Pt<u64> s = C.add(p, q), d = C.add(p, C.neg(q)); state(); pairs++;
        for (int w = 0; w < 2; w++) { G g = rep<G>(C, p, w ? L[v % L.size()] : T.one()), h = rep<G>(C, q); at("%s whole curve %s and %s", GK<G>::name(), gs(g).c_str(), gs(h).c_str()); binary(C, g, h, true, p == q, false, s, d); }
        G g = rep<G>(C, p, L[v % L.size()]), h = rep<G>(C, q, L[(v + 1) % L.size()]); binary(C, g, h, false, p == q, false, s, d);
    };
    for (size_t i = 0; i < pts.size(); i++) {
        const Pt<u64> &p = pts[i]; Pt<u64> d = C.add(p, p), m = C.neg(p);
        unary(C, rep<G>(C, p), p, d, m); unary(C, rep<G>(C, p, L[i % L.size()]), p, d, m); pair(p, m, i); pair(m, p, i); pair(p, p, i);
    }
    for (size_t i = 0; i < pts.size(); i++) for (size_t j = 0; j < pts.size(); j++) {
        if (i == j) continue; int w = common(pts[i].x, pts[j].x) + 8 * common(pts[i].y, pts[j].y) + 64 * common(pts[i].y, C.neg(pts[j]).y);
        if (!w || (!few && seen[w]++ >= cap) || (few && (i * 7 + j) % 5 && seen[w]++ >= cap)) continue;
        pair(pts[i], pts[j], i + j); pair(pts[i], C.neg(pts[j]), i + j + 1);
    }
    sample("whole", std::string(GK<G>::name()) + " q=" + std::to_string(T.p) + ": " + std::to_string(pts.size()) + " points of the whole curve, " + std::to_string(pairs) + " pairs"); trace();
}
template<class G1, class G2, class MK> void tiny(const char *nm, MK make, unsigned n1, unsigned n2, bool all1, bool all2, unsigned slices)
{
    for (unsigned s = 0; s < slices; s++) if (unit("%s G1 grid %u/%u", nm, s, slices)) {
        CS c = make(); u64 r = c.r.get_ui();
        VEl<u64> A = all1 ? every(c.E1.T) : some(c.E1.T, n1);
        grid<G1>(c.E1, c.P1, r, A, all1 ? A : some(c.E1.T, n1), s, slices);
    }
    for (unsigned s = 0; s < slices; s++) if (unit("%s G2 grid %u/%u", nm, s, slices)) {
        CS c = make(); u64 r = c.r.get_ui();
        VEl<u64> A = all2 ? every(c.E2.T) : some(c.E2.T, n2), S = some(c.E2.T, n2);
        grid<G2>(c.E2, c.P2, r, A, S, s, slices);
        if (all2) grid<G2>(c.E2, c.P2, r, S, A, s, slices);
    }
}
template<class G1, class G2, class MK> void special(const char *nm, MK make, bool edw = false)
{
    if (unit("%s G1 special scalings", nm)) { CS c = make(); u64 r = c.r.get_ui(); VEl<u64> S = special_scalings(c.E1.T), O{c.E1.T.one()}; grid<G1>(c.E1, c.P1, r, S, O, 0, 1); grid<G1>(c.E1, c.P1, r, O, S, 0, 1); }
    for (unsigned s = 0; s < 2; s++) if (unit("%s G2 special scalings %u/2", nm, s)) { CS c = make(); u64 r = c.r.get_ui(); VEl<u64> S = special_scalings(c.E2.T), O{c.E2.T.one()}; grid<G2>(c.E2, c.P2, r, S, O, s, 2); grid<G2>(c.E2, c.P2, r, O, S, s, 2); }
}
template<class G1, class G2, class MK> void wholes(const char *nm, MK make)
{
    size_t cap = thorough() ? 2000 : 150 / lean(4);
    if (unit("%s whole curve G1", nm)) whole<G1>(make().E1, cap);
    if (unit("%s whole curve G2", nm)) whole<G2>(make().E2, cap);
}
template<class G1, class G2, class MK> void clos(const char *nm, MK make, size_t cap1, size_t cap2)
{
    cap1 /= lean(8); cap2 /= lean(8);
    if (cap1 && unit("%s G1 closure", nm)) { CS c = make(); closure<G1>(c.E1, c.P1, c.r.get_ui(), cap1); }
    if (cap2 && unit("%s G2 closure", nm)) { CS c = make(); closure<G2>(c.E2, c.P2, c.r.get_ui(), cap2); }
}
// shipped curves: small and extreme multiples in several scalings
template<class G> void ship(const Crv<mpz_class> &C, const Pt<mpz_class> &P, const mpz_class &r, unsigned sl, unsigned ns)
{
    std::vector<mpz_class> K = {0, 1, 2, 3, 4, 5, 7, 8, r - 1, r - 2, r - 3, (r - 1) / 2, (r + 1) / 2, r / 3, mpz_class("123456789012345678901234567890123456789012345678901234567890") % r};
    if (!thorough()) K = {0, 1, 2, 3, r - 1, r - 2, (r + 1) / 2, K.back()};
    if (thorough()) for (int i = 9; i < 24; i++) K.push_back(i % 2 ? mpz_class(i) : mpz_class(r - i));
    std::map<mpz_class, Pt<mpz_class>> memo; auto pt = [&](const mpz_class &k_) -> const Pt<mpz_class> & { mpz_class k = ref::mod(k_, r); auto it = memo.find(k); if (it == memo.end()) it = memo.emplace(k, C.mul(k, P)).first; return it->second; };
    const auto &T = C.T; VEl<mpz_class> L; L.push_back(T.neg(T.one()));
    { EZ e = T.zero(); for (int i = 0; i < e.d; i++) e.c[i] = ref::mod(mpz_class("98765432109876543210987654321098765432109876543210987654321098765432109876543210") * (i + 7), T.p); L.push_back(e);
      EZ f = T.zero(); for (int i = 0; i < f.d; i++) f.c[i] = T.p - 2 - i; if (thorough()) L.push_back(f);
      EZ g = T.zero(); g.c[g.d - 1] = 2; L.push_back(g); }
    std::vector<std::vector<std::pair<G, bool>>> R; for (auto &k : K) R.push_back(reps<G>(C, pt(k), L));
    for (size_t i = sl; i < K.size(); i += ns) for (auto &g : R[i]) {
        at("%s shipped: %s", GK<G>::name(), gs(g.first).c_str()); state();
        unary(C, g.first, pt(K[i]), pt(2 * K[i]), pt(r - K[i]));
        for (size_t j = 0; j < K.size(); j++) for (auto &h : R[j])
            binary(C, g.first, h.first, h.second, K[i] == K[j], K[i] == 0 || K[j] == 0, pt(K[i] + K[j]), pt(K[i] - K[j]));
    }
    trace();
}
template<class G1, class G2, class MK> void shipped(const char *nm, MK make)
{
    const unsigned ns = 8;
    for (unsigned s = 0; s < ns; s++) if (unit("shipped %s G1 %u/%u", nm, s, ns)) { CSZ c = make(); ship<G1>(c.E1, c.P1, c.r, s, ns); }
    for (unsigned s = 0; s < ns; s++) if (unit("shipped %s G2 %u/%u", nm, s, ns)) { CSZ c = make(); ship<G2>(c.E2, c.P2, c.r, s, ns); }
}
VF_MAIN([]() {
    quiet(); bool th = thorough();
    typedef alt_bn128_G1 A1; typedef alt_bn128_G2 A2; typedef bls12_381_G1 B1; typedef bls12_381_G2 B2; typedef mnt4_G1 M41; typedef mnt4_G2 M42; typedef mnt6_G1 M61; typedef mnt6_G2 M62; typedef edwards_G1 D1; typedef edwards_G2 D2;
    // complete reachable representation spaces
    clos<A1, A2>("BN(-1)", []() { return tiny_alt_bn128(-1); }, 100000, th ? 100000 : 500);
    clos<B1, B2>("BLS12(-2)", []() { return tiny_bls12_381(-2); }, 100000, th ? 2000 : 500);
    clos<M41, M42>("MNT4(13,17)", []() { return tiny_mnt4(13, 17); }, 100000, th ? 100000 : 500);
    clos<M61, M62>("MNT6(37,31)", []() { return tiny_mnt6(37, 31); }, 100000, th ? 2000 : 400);
    clos<D1, D2>("EDW(19,7)", []() { return tiny_edwards(19, 7, 8); }, 100000, th ? 2000 : 400);
    clos<D1, D2>("EDW(43,13)", []() { return tiny_edwards(43, 13, 5); }, 100000, th ? 3000 : 0);
    // every scaling on the smallest curves
    tiny<A1, A2>("BN(-1)", []() { return tiny_alt_bn128(-1); }, 18, 5, true, true, 4);
    tiny<B1, B2>("BLS12(-2)", []() { return tiny_bls12_381(-2); }, 36, th ? 8 : 5, true, th, 4);
    tiny<M41, M42>("MNT4(13,17)", []() { return tiny_mnt4(13, 17); }, 12, 5, true, true, 4);
    tiny<M61, M62>("MNT6(37,31)", []() { return tiny_mnt6(37, 31); }, 10, 6, th, false, 4);
    tiny<D1, D2>("EDW(19,7)", []() { return tiny_edwards(19, 7, 8); }, 18, th ? 4 : 24, true, th, 4);
    special<A1, A2>("BN(-1)", []() { return tiny_alt_bn128(-1); }); special<B1, B2>("BLS12(-2)", []() { return tiny_bls12_381(-2); }); special<M41, M42>("MNT4(13,17)", []() { return tiny_mnt4(13, 17); });
    special<M61, M62>("MNT6(37,31)", []() { return tiny_mnt6(37, 31); }); special<D1, D2>("EDW(19,7)", []() { return tiny_edwards(19, 7, 8); });
    wholes<A1, A2>("BN(-1)", []() { return tiny_alt_bn128(-1); }); wholes<B1, B2>("BLS12(-2)", []() { return tiny_bls12_381(-2); }); wholes<M41, M42>("MNT4(13,17)", []() { return tiny_mnt4(13, 17); });
    wholes<M41, M42>("MNT4(13,17)b", []() { return tiny_mnt4(13, 17, 2, 1); }); wholes<M61, M62>("MNT6(37,31)", []() { return tiny_mnt6(37, 31); }); wholes<M61, M62>("MNT6(37,43)", []() { return tiny_mnt6(37, 43); });
    wholes<A1, A2>("BN(1)", []() { return tiny_alt_bn128(1); }); wholes<B1, B2>("BLS12(4)", []() { return tiny_bls12_381(4); }); 
    // larger orders
    tiny<A1, A2>("BN(1)", []() { return tiny_alt_bn128(1); }, th ? 8 : 3, th ? 6 : 2, false, false, 8);
    tiny<B1, B2>("BLS12(4)", []() { return tiny_bls12_381(4); }, th ? 4 : 1, th ? 4 : 1, false, false, 8);
    tiny<M41, M42>("MNT4(241,257)", []() { return tiny_mnt4(241, 257); }, th ? 4 : 1, th ? 4 : 1, false, false, 8);
    tiny<M61, M62>("MNT6(37,43)", []() { return tiny_mnt6(37, 43); }, 8, 4, false, false, 4);
    if (th) tiny<M61, M62>("MNT6(577,601)", []() { return tiny_mnt6(577, 601); }, 1, 1, false, false, 16);
    tiny<D1, D2>("EDW(859,211)", []() { return tiny_edwards(859, 211, 113); }, th ? 4 : 1, th ? 4 : 1, false, false, 8);
    tiny<D1, D2>("EDW(43,13)", []() { return tiny_edwards(43, 13, 5); }, 42, 10, true, false, 4);
    shipped<A1, A2>("alt_bn128", ship_alt_bn128); shipped<B1, B2>("bls12_381", ship_bls12_381); shipped<M41, M42>("mnt4", ship_mnt4); shipped<M61, M62>("mnt6", ship_mnt6); shipped<D1, D2>("edwards", ship_edwards);
})
