// C11: every scalar multiplication equals repeated addition.
#include "curves.hpp"
#include <libff/algebra/scalar_multiplication/wnaf.hpp>
#include <libff/algebra/scalar_multiplication/multiexp.hpp>
using namespace libff;
using namespace vf;
typedef std::vector<mpz_class> VZ;

// digits of the recoding
template<mp_size_t n> void recode(size_t w, const mpz_class &s)
{
    std::vector<long> d = find_wnaf<n>(w, B<n>(s));
    mpz_class v = 0; bool ok = true; long last = -1000000;
    for (long i = (long)d.size() - 1; i >= 0; i--) v = 2 * v + d[i];
    for (size_t i = 0; i < d.size(); i++) if (d[i]) { if (d[i] % 2 == 0 || std::labs(d[i]) >= (1l << w)) ok = false; last = i; }
    (void)last; state();
    VF_CHECK(v == s, "find_wnaf.value", "window %zu, %d limbs, scalar %s: digits sum to %s", w, (int)n, s.get_str().c_str(), v.get_str().c_str());
    VF_CHECK(ok, "find_wnaf.digit", "window %zu, %d limbs, scalar %s: digit even or out of table range", w, (int)n, s.get_str().c_str());
}
// integers of n limbs with structure at the limb and width boundaries
static VZ corners(int n)
{
    std::set<mpz_class> v; mpz_class top = mpz_class(1) << (64 * n);
    for (int i = 0; i <= 64 * n; i++) { mpz_class w = mpz_class(1) << i; for (mpz_class z : {w, mpz_class(w - 1), mpz_class(w + 1), mpz_class(top - w), mpz_class(top - w - 1), mpz_class(w + w / 2), mpz_class(w - 3), mpz_class(top - 1 - w / 3)}) if (z >= 0 && z < top) v.insert(z); }
    v.insert(top / 3); v.insert(2 * (top / 3)); v.insert(top / 7 * 5); v.insert(top / 5 * 3);
    return VZ(v.begin(), v.end());
}
template<mp_size_t n> void recode_all(const VZ &S, size_t maxw) { for (auto &s : S) { at("find_wnaf %d limbs %s", (int)n, s.get_str().c_str()); for (size_t w = 1; w <= maxw; w++) recode<n>(w, s); } trace(); }

template<class G> struct Ctx { const Crv<u64> *C; std::vector<Pt<u64>> t; u64 r; };
template<class G> const Pt<u64> &mult(const Ctx<G> &c, u64 i, const mpz_class &k) { mpz_class j = ref::mod(k * zu(i), zu(c.r)); return c.t[j.get_ui()]; }
#define WANT(res, what, i, k) do { G R_ = (res); VF_CHECK(is(*c.C, R_, mult(c, i, k)), nm + what, "point #%llu %s, scalar %s (%d limbs): got %s", (unsigned long long)(i), gs(g).c_str(), (k).get_str().c_str(), (int)n, gs(R_).c_str()); } while (0)

template<class G, mp_size_t n> void plain(const Ctx<G> &c, u64 i, const G &g, const mpz_class &k)
{
    static const std::string nm = GK<G>::name();
    G kg = g; state();
    WANT((B<n>(k)) * g, ".bigint*", i, k);
    WANT((scalar_mul<G, n>(g, B<n>(k))), ".scalar_mul", i, k);
    VF_CHECK(same(kg, g), nm + ".operand", "modified");
}
template<class G, mp_size_t n> void wnaf(const Ctx<G> &c, u64 i, const G &g, const mpz_class &k, size_t w)
{
    static const std::string nm = GK<G>::name(); state();
    WANT((fixed_window_wnaf_exp<G, n>(w, g, B<n>(k))), ".fixed_window_wnaf w=" + std::to_string(w), i, k);
}
template<class G, mp_size_t n> void opt(const Ctx<G> &c, u64 i, const G &g, const mpz_class &k, const std::vector<size_t> &table)
{
    static const std::string nm = GK<G>::name();
    auto keep = G::wnaf_window_table; G::wnaf_window_table = table;
    size_t nb = mpz_sizeinbase(k.get_mpz_t(), 2); if (k == 0) nb = 0;
    for (size_t bits : {nb, (size_t)(64 * n), (size_t)0, (size_t)9, (size_t)33}) WANT((opt_window_wnaf_exp<G, n>(g, B<n>(k), bits)), ".opt_window_wnaf", i, k);
    G::wnaf_window_table = keep; state();
}
template<class G> void field_scalars(const Ctx<G> &c, u64 i, const G &g)
{
    static const std::string nm = GK<G>::name(); const int n = G::scalar_field::num_limbs;
    for (u64 k = 0; k < c.r; k++) { mpz_class kz = zu(k); WANT(mkf<typename G::scalar_field>(k) * g, ".Fr*", i, kz); state(); }
}
template<class G> void tiny(const CS &cs, const Crv<u64> &C, const Pt<u64> &P, unsigned sl, unsigned ns)
{
    Ctx<G> c; c.C = &C; c.r = cs.r.get_ui(); c.t = C.table(P, c.r);
    const T64 &T = C.T; E64 l = T.zero(); for (int i = 0; i < l.d; i++) l.c[i] = 2 + i;
    std::vector<std::vector<size_t>> tabs = {{}, {1}, {5, 9, 20, 60}, {1, 2, 3, 4, 5, 6}, {100, 0}, {0, 1000}};
    VZ c1 = corners(1), c2 = corners(2), c4 = corners(4), c5 = corners(5);
    bool th = thorough(); const char *nm = GK<G>::name();
    for (u64 i = sl; i < c.r; i += ns) for (int v = 0; v < 2; v++) {
        G g = rep<G>(C, c.t[i], v ? l : T.one(), v);
        bool full = i <= 3 || i + 2 >= c.r;
        field_scalars(c, i, g);
        at("%s %s small scalars", nm, gs(g).c_str());
        for (u64 k = 0; k <= 2 * c.r + 5; k++) {
            plain<G, 1>(c, i, g, zu(k));
            if (v == 0) for (size_t w = 1; w <= (full ? 6 : 3); w++) wnaf<G, 1>(c, i, g, zu(k), w);
            if (v == 0 && full) { tick(); for (auto &tb : tabs) opt<G, 1>(c, i, g, zu(k), tb); }
        }
        if (!full) continue;
        for (auto &k : c1) { at("%s %s 1 limb %s", nm, gs(g).c_str(), k.get_str().c_str()); plain<G, 1>(c, i, g, k); if (v == 0) for (size_t w = 1; w <= 8; w += th ? 1 : 1 + w / 2) wnaf<G, 1>(c, i, g, k, w); }
        if (v) continue;
        size_t st = th ? 1 : 4;
        for (size_t j = 0; j < c2.size(); j += 2 * st - 1) { at("%s %s 2 limbs %s", nm, gs(g).c_str(), c2[j].get_str().c_str()); plain<G, 2>(c, i, g, c2[j]); wnaf<G, 2>(c, i, g, c2[j], 1 + j % 5); }
        for (size_t j = i % 5; j < c4.size(); j += 7 * st) { at("%s %s 4 limbs %s", nm, gs(g).c_str(), c4[j].get_str().c_str()); plain<G, 4>(c, i, g, c4[j]); wnaf<G, 4>(c, i, g, c4[j], 1 + j % 5); opt<G, 4>(c, i, g, c4[j], tabs[j % tabs.size()]); }
        for (size_t j = i % 7; j < c5.size(); j += 9 * st) { at("%s %s 5 limbs %s", nm, gs(g).c_str(), c5[j].get_str().c_str()); plain<G, 5>(c, i, g, c5[j]); wnaf<G, 5>(c, i, g, c5[j], 1 + j % 5); }
        { mpz_class a4 = (mpz_class(1) << 256) - 1, a5 = (mpz_class(1) << 320) - 1; plain<G, 4>(c, i, g, a4); plain<G, 5>(c, i, g, a5); for (size_t w = 1; w <= 9; w++) { wnaf<G, 4>(c, i, g, a4, w); wnaf<G, 5>(c, i, g, a5, w); } }
    }
    trace();
}
// multiplication by the field characteristic (G2) and by the cofactor
template<class G> void by_q(const CS &cs, const Crv<u64> &C, const Pt<u64> &P)
{
    u64 r = cs.r.get_ui(); auto t = C.table(P, r); mpz_class qz = ref::mod(cs.q, cs.r); u64 q = qz.get_ui();
    const T64 &T = C.T;
    for (u64 i = 0; i < r; i++) for (int v = 0; v < 3; v++) {
        E64 l = T.one(); if (v) { l = T.zero(); for (int k = 0; k < l.d; k++) l.c[k] = 2 * v + 3 * k; }
        G g = rep<G>(C, t[i], l, v == 2); at("%s mul_by_q %s", GK<G>::name(), gs(g).c_str()); state();
        G r1 = g.mul_by_q(); VF_CHECK(is(C, r1, t[i * q % r]), std::string(GK<G>::name()) + ".mul_by_q", "%s gave %s want %s", gs(g).c_str(), gs(r1).c_str(), t[i * q % r].s().c_str());
    }
    trace();
}
template<class G> void by_h(const CS &cs, const Crv<u64> &C, const Pt<u64> &P, const mpz_class &h, unsigned npts)
{
    u64 r = cs.r.get_ui(); auto t = C.table(P, r); mpz_class hr = h % cs.r; const T64 &T = C.T; E64 l = T.zero(); for (int k = 0; k < l.d; k++) l.c[k] = 3 + k;
    const std::string nm = GK<G>::name();
    for (u64 i = 0; i < r; i++) { G g = rep<G>(C, t[i], l); at("%s mul_by_cofactor %s", GK<G>::name(), gs(g).c_str()); state(); VF_CHECK(is(C, g.mul_by_cofactor(), t[i * hr.get_ui() % r]), nm + ".mul_by_cofactor", "%s", gs(g).c_str()); }
    for (u64 s = 1, k = 0; k < npts; k++, s += 1 + s / 5) { Pt<u64> p = scan_point(C, s, T.p); G g = rep<G>(C, p, l); at("%s mul_by_cofactor %s", GK<G>::name(), gs(g).c_str()); state(); VF_CHECK(is(C, g.mul_by_cofactor(), C.mul(h, p)), nm + ".mul_by_cofactor", "any point %s", gs(g).c_str()); }
    trace();
}
// shipped curves
template<class G> void ship(const Crv<mpz_class> &C, const Pt<mpz_class> &P, const mpz_class &r, const mpz_class &q, unsigned sl, unsigned ns, bool g2)
{
    const int n = G::scalar_field::num_limbs; const std::string nm = GK<G>::name(); typedef typename G::scalar_field Fr;
    VZ K = {0, 1, 2, 3, r - 1, r, r + 1, r - 2, 2 * r, 2 * r + 1, (mpz_class(1) << (64 * n)) - 1, mpz_class(1) << (64 * n - 1), (mpz_class(1) << 64) - 1, mpz_class(1) << 64, (r - 1) / 2, (r + 1) / 2, (mpz_class(1) << (64 * n)) / 3, mpz_class("271828182845904523536028747135266249775724709369995957496696762772407663035354759") % r, q % r};
    for (size_t j = sl; j < K.size(); j += ns) {
        mpz_class k = K[j]; if (mpz_sizeinbase(k.get_mpz_t(), 2) > 64ul * n) continue;
        Pt<mpz_class> base = j % 3 == 2 ? C.add(P, C.add(P, P)) : P;
        Pt<mpz_class> w = C.mul(k, base);
        EZ l = C.T.one(); if (j % 2) { l = C.T.zero(); for (int i = 0; i < l.d; i++) l.c[i] = 12345 + i; }
        G g = rep<G>(C, base, l); state();
        at("%s shipped scalar %s", nm.c_str(), k.get_str().c_str());
        VF_CHECK(is(C, B<n>(k) * g, w), nm + ".bigint*", "scalar %s", k.get_str().c_str());
        VF_CHECK(is(C, (fixed_window_wnaf_exp<G, n>(1 + j % 7, g, B<n>(k))), w), nm + ".fixed_window_wnaf", "scalar %s", k.get_str().c_str());
        VF_CHECK(is(C, (opt_window_wnaf_exp<G, n>(g, B<n>(k), k == 0 ? 0 : mpz_sizeinbase(k.get_mpz_t(), 2))), w), nm + ".opt_window_wnaf", "scalar %s", k.get_str().c_str());
        VF_CHECK(is(C, (B<n + 1>(k + (mpz_class(0) << 64)) * g), w), nm + ".bigint*wide", "scalar %s", k.get_str().c_str());
        if (k < r) VF_CHECK(is(C, mkf<Fr>(k) * g, w), nm + ".Fr*", "scalar %s", k.get_str().c_str());
    }
    trace();
}
template<class G1, class G2, class MK> void curve(const char *nm, MK make, unsigned ns)
{
    ns *= lean(4);
    for (unsigned s = 0; s < ns; s++) if (unit("%s G1 scalars %u/%u", nm, s, ns)) { CS c = make(); tiny<G1>(c, c.E1, c.P1, s, ns); }
    for (unsigned s = 0; s < ns; s++) if (unit("%s G2 scalars %u/%u", nm, s, ns)) { CS c = make(); tiny<G2>(c, c.E2, c.P2, s, ns); }
    if (unit("%s mul_by_q", nm)) { CS c = make(); by_q<G2>(c, c.E2, c.P2); }
}
template<class G1, class G2, class MK> void cof(const char *nm, MK make, bool any)
{
    if (unit("%s cofactor", nm)) { CS c = make(); by_h<G1>(c, c.E1, c.P1, c.h1, 30); by_h<G2>(c, c.E2, c.P2, c.h2, any ? 60 : 0); }
}
template<class G1, class G2, class MK> void shipped(const char *nm, MK make)
{
    for (unsigned s = 0; s < 4; s++) if (unit("shipped %s G1 %u", nm, s)) { auto c = make(); ship<G1>(c.E1, c.P1, c.r, c.q, s, 4, false); }
    for (unsigned s = 0; s < 8; s++) if (unit("shipped %s G2 %u", nm, s)) { auto c = make(); ship<G2>(c.E2, c.P2, c.r, c.q, s, 8, true); }
    if (unit("shipped %s mul_by_q", nm)) { auto c = make(); Pt<mpz_class> p = c.P2; for (int i = 0; i < 3; i++) { EZ l = c.E2.T.zero(); for (int k = 0; k < l.d; k++) l.c[k] = i ? mpz_class(77 * i + k) : mpz_class(k == 0); VF_CHECK(is(c.E2, rep<G2>(c.E2, p, l).mul_by_q(), c.E2.mul(c.q % c.r, p)), std::string(GK<G2>::name()) + ".mul_by_q", "shipped"); state(); p = c.E2.add(c.E2.add(p, p), c.P2); } }
}
VF_MAIN([]() {
    quiet(); bool th = thorough();
    typedef alt_bn128_G1 A1; typedef alt_bn128_G2 A2; typedef bls12_381_G1 B1; typedef bls12_381_G2 B2; typedef mnt4_G1 M41; typedef mnt4_G2 M42; typedef mnt6_G1 M61; typedef mnt6_G2 M62; typedef edwards_G1 D1; typedef edwards_G2 D2;
    for (unsigned s = 0; s < 8; s++) if (unit("recoding, scalars below 2^%d, slice %u", th ? 18 : 14, s)) { VZ v; for (unsigned long k = s; k < (1ul << (th ? 18 : 14)); k += 8) v.push_back(k); recode_all<1>(v, 12); }
    if (unit("recoding, top of one limb")) { VZ v; mpz_class top = mpz_class(1) << 64; for (unsigned long k = 1; k <= (th ? 1ul << 16 : 1ul << 13); k++) v.push_back(top - k); recode_all<1>(v, 12); }
    if (unit("recoding, corners, limbs=1")) recode_all<1>(corners(1), 20);
    if (unit("recoding, corners, limbs=2")) recode_all<2>(corners(2), 20);
    if (unit("recoding, corners, limbs=4")) recode_all<4>(corners(4), 14);
    if (unit("recoding, corners, limbs=5")) recode_all<5>(corners(5), 14);
    curve<A1, A2>("BN(-1)", []() { return tiny_alt_bn128(-1); }, 2);
    curve<A1, A2>("BN(1)", []() { return tiny_alt_bn128(1); }, 4);
    curve<B1, B2>("BLS12(-2)", []() { return tiny_bls12_381(-2); }, 2);
    curve<B1, B2>("BLS12(4)", []() { return tiny_bls12_381(4); }, 8);
    curve<M41, M42>("MNT4(13,17)", []() { return tiny_mnt4(13, 17); }, 2);
    curve<M41, M42>("MNT4(241,257)", []() { return tiny_mnt4(241, 257); }, 8);
    curve<M61, M62>("MNT6(37,31)", []() { return tiny_mnt6(37, 31); }, 2);
    curve<M61, M62>("MNT6(37,43)", []() { return tiny_mnt6(37, 43); }, 2);
    if (th) curve<M61, M62>("MNT6(577,601)", []() { return tiny_mnt6(577, 601); }, 16);
    curve<D1, D2>("EDW(19,7)", []() { return tiny_edwards(19, 7, 8); }, 2);
    curve<D1, D2>("EDW(43,13)", []() { return tiny_edwards(43, 13, 5); }, 2);
    curve<D1, D2>("EDW(859,211)", []() { return tiny_edwards(859, 211, 113); }, 8);
    cof<A1, A2>("BN(-1)", []() { return tiny_alt_bn128(-1); }, true); cof<A1, A2>("BN(1)", []() { return tiny_alt_bn128(1); }, true);
    cof<B1, B2>("BLS12(-2)", []() { return tiny_bls12_381(-2); }, true); cof<B1, B2>("BLS12(4)", []() { return tiny_bls12_381(4); }, true);
    cof<M41, M42>("MNT4(13,17)", []() { return tiny_mnt4(13, 17); }, true); cof<M41, M42>("MNT4(241,257)", []() { return tiny_mnt4(241, 257); }, true);
    cof<M61, M62>("MNT6(37,31)", []() { return tiny_mnt6(37, 31); }, false); cof<M61, M62>("MNT6(37,43)", []() { return tiny_mnt6(37, 43); }, false);
    shipped<A1, A2>("alt_bn128", ship_alt_bn128); shipped<B1, B2>("bls12_381", ship_bls12_381); shipped<M41, M42>("mnt4", ship_mnt4); shipped<M61, M62>("mnt6", ship_mnt6); shipped<D1, D2>("edwards", ship_edwards);
})
