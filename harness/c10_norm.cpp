// C10: normalising a point or a batch of points never changes any point; batch inversion equals element-wise inversion.
#include "curves.hpp"
#include <libff/algebra/fields/binary/gf64.hpp>
#include <libff/algebra/fields/binary/gf128.hpp>
#include <libff/algebra/fields/binary/gf192.hpp>
#include <libff/algebra/fields/binary/gf256.hpp>
#include <libff/algebra/scalar_multiplication/multiexp.hpp>
using namespace libff;
using namespace vf;
template<class Zt> using VEl = std::vector<El<Zt>>;

// affine form: Weierstrass (x,y,1) or the distinguished identity; Edwards: the affine pair with Z=1
template<class G, class Zt> bool is_affine(const Crv<Zt> &C, const G &g, const Pt<Zt> &p)
{
    El<Zt> X = flat<Zt>(g.X), Y = flat<Zt>(g.Y), Z = flat<Zt>(g.Z);
    if (GK<G>::kind == INV) return X == p.x && Y == p.y && Z == C.T.one();
    if (p.inf) return X.zero() && Y == C.T.one() && Z.zero();
    return X == p.x && Y == p.y && Z == C.T.one();
}
// special form: same point, and either the identity or Z = 1
template<class G, class Zt> bool is_spec(const Crv<Zt> &C, const G &g, const Pt<Zt> &p) { return is(C, g, p) && (C.isO(p) || flat<Zt>(g.Z) == C.T.one()); }

template<class G, class Zt> void single(const Crv<Zt> &C, const G &g, const Pt<Zt> &p)
{
    static const std::string nm = GK<G>::name();
    at("%s %s", nm.c_str(), gs(g).c_str()); state();
    bool sp = C.isO(p) || flat<Zt>(g.Z) == C.T.one();
    VF_CHECK(g.is_special() == sp, nm + ".is_special", "%s", gs(g).c_str());
    { G a = g; a.to_affine_coordinates(); VF_CHECK(is_affine(C, a, p), nm + ".to_affine", "%s gave %s want %s", gs(g).c_str(), gs(a).c_str(), p.s().c_str());
      if (GK<G>::kind != INV) { G b = a; b.to_affine_coordinates(); VF_CHECK(same(a, b), nm + ".to_affine.idempotent", "%s", gs(g).c_str()); VF_CHECK(a == g, nm + ".to_affine.eq", "%s", gs(g).c_str()); VF_CHECK(is(C, a, p), nm + ".to_affine.is", "%s", gs(g).c_str()); } }
    { G a = g; a.to_special(); VF_CHECK(is_spec(C, a, p), nm + ".to_special", "%s gave %s want %s", gs(g).c_str(), gs(a).c_str(), p.s().c_str());
      VF_CHECK(a.is_special(), nm + ".special.flag", "%s gave %s", gs(g).c_str(), gs(a).c_str());
      G b = a; b.to_special(); VF_CHECK(same(a, b), nm + ".to_special.idempotent", "%s", gs(g).c_str());
      VF_CHECK(a == g, nm + ".to_special.eq", "%s", gs(g).c_str()); }
}
template<class G, class Zt> void batch(const Crv<Zt> &C, const std::vector<std::pair<G, Pt<Zt>>> &v)
{
    static const std::string nm = GK<G>::name();
    std::vector<G> w; bool anyO = false; for (auto &x : v) { w.push_back(x.first); anyO = anyO || C.isO(x.second); }
    auto show = [&]() { std::string s; for (auto &x : v) s += gs(x.first) + " "; return s; };
    auto judge = [&](const std::vector<G> &r, const char *what) {
        if (r.size() != v.size()) { fail(nm + what + ".size", "%s", show().c_str()); return; }
        for (size_t i = 0; i < v.size(); i++) VF_CHECK(is_spec(C, r[i], v[i].second) && r[i].is_special(), nm + what, "element %zu of %s became %s", i, show().c_str(), gs(r[i]).c_str());
    };
    state();
    { std::vector<G> r = w; batch_to_special<G>(r); judge(r, ".batch_to_special"); std::vector<G> r2 = r; batch_to_special<G>(r2); judge(r2, ".batch_to_special.twice");
      for (size_t i = 0; i < r.size(); i++) VF_CHECK(same(r[i], r2[i]), nm + ".batch.idempotent", "%s", show().c_str()); }
    if (!anyO) { std::vector<G> r = w; G::batch_to_special_all_non_zeros(r); judge(r, ".batch_all_non_zeros"); }
}
// words over an alphabet of representations
template<class G> void words(const Crv<u64> &C, const Pt<u64> &P, u64 r, unsigned len, const VEl<u64> &L)
{
    auto t = C.table(P, r);
    std::vector<std::pair<G, Pt<u64>>> A;
    A.push_back({rep<G>(C, t[0], L[0]), t[0]});
    A.push_back({rep<G>(C, t[0], L[1], 1), t[0]});
    A.push_back({rep<G>(C, t[1], L[0]), t[1]});
    A.push_back({rep<G>(C, t[1], L[1]), t[1]});
    A.push_back({rep<G>(C, t[r - 1], L[2]), t[r - 1]});
    { G g = rep<G>(C, t[3], L[1]); El<u64> l = GK<G>::kind == INV ? C.T.inv(C.T.mul(t[3].x, t[3].y)) : C.T.one(); g = rep<G>(C, t[3], l); A.push_back({g, t[3]}); }
    A.push_back({rep<G>(C, t[2], C.T.neg(C.T.one())), t[2]});
    // every scaling at either end of a batch of two
    for (u64 i = 1; i < r && i < 5; i++) for (auto &l : L) {
        std::vector<std::pair<G, Pt<u64>>> v = {{rep<G>(C, t[i], l), t[i]}, A[3]}; at("%s batch of two", GK<G>::name()); batch(C, v); std::swap(v[0], v[1]); batch(C, v); v[1] = v[0]; v[0] = A[0]; batch(C, v);
    }
    for (unsigned n = 0; n <= len; n++) {
        size_t tot = 1; for (unsigned i = 0; i < n; i++) tot *= A.size();
        for (size_t k = 0; k < tot; k++) {
            std::vector<std::pair<G, Pt<u64>>> v; size_t j = k; for (unsigned i = 0; i < n; i++) { v.push_back(A[j % A.size()]); j /= A.size(); }
            at("%s batch word %zu of length %u", GK<G>::name(), k, n);
            batch(C, v);
        }
    }
    // long batches: identities in every pattern of a single run
    for (unsigned n : {17u, 40u}) for (unsigned a = 0; a <= n; a += 3) for (unsigned b = a; b <= n; b += 5) {
        std::vector<std::pair<G, Pt<u64>>> v; for (unsigned i = 0; i < n; i++) v.push_back(i >= a && i < b ? A[i & 1] : std::make_pair(rep<G>(C, t[1 + i % (r - 1)], L[i % L.size()]), t[1 + i % (r - 1)]));
        at("%s batch %u identities %u..%u", GK<G>::name(), n, a, b); batch(C, v);
    }
    for (unsigned n : {100u, 127u, 128u, 129u, 255u, 256u, 257u, 513u, 1000u, 1025u, 2049u}) for (unsigned gap : {0u, 3u, 64u}) { // very long batches, an identity now and then
        std::vector<std::pair<G, Pt<u64>>> v; for (unsigned i = 0; i < n; i++) v.push_back(gap && i % gap == gap - 1 ? A[i & 1] : std::make_pair(rep<G>(C, t[1 + i % (r - 1)], L[i % L.size()]), t[1 + i % (r - 1)]));
        at("%s batch %u identities every %u", GK<G>::name(), n, gap); batch(C, v);
    }
    trace();
}
static VEl<u64> every(const T64 &T, u64 cap) { VEl<u64> v; u64 n = mpz_class(T.size()).get_ui(), st = n <= cap ? 1 : n / cap; if (st > 1 && st % T.p == 0) st++; for (u64 k = 1; k < n; k += st) { E64 e = T.nth(k, T.p); if (!e.zero()) v.push_back(e); } return v; }
static VEl<u64> withspecial(VEl<u64> v, const T64 &T) { for (auto &e : special_scalings(T)) { bool dup = false; for (auto &x : v) if (x == e) dup = true; if (!dup) v.push_back(e); } return v; }
template<class G> void all(const Crv<u64> &C, const Pt<u64> &P, u64 r, u64 cap)
{
    auto t = C.table(P, r); auto L = withspecial(every(C.T, cap), C.T);
    for (u64 i = 0; i < r; i++) {
        for (auto &l : L) { single(C, rep<G>(C, t[i], l), t[i]); if (i == 0) single(C, rep<G>(C, t[i], l, 1), t[i]); }
        E64 l = GK<G>::kind == INV && i ? C.T.inv(C.T.mul(t[i].x, t[i].y)) : C.T.one(); single(C, rep<G>(C, t[i], l), t[i]);
    }
    trace();
}
template<class G> std::vector<G> big_mults(const Crv<mpz_class> &C, const Pt<mpz_class> &P, std::vector<Pt<mpz_class>> &pts)
{
    std::vector<G> v; Pt<mpz_class> x = C.O();
    for (int i = 0; i < 6; i++) {
        EZ l = C.T.zero(); for (int k = 0; k < l.d; k++) l.c[k] = ref::mod(mpz_class("31415926535897932384626433832795028841971693993751058209749445923078164062862") * (i + 3 * k + 1), C.T.p);
        for (int sh = 0; sh < (i == 0 && GK<G>::kind == JAC ? 2 : 1); sh++) { v.push_back(rep<G>(C, x, i % 2 ? l : C.T.neg(l), sh)); pts.push_back(x); }
        x = C.add(x, P);
    }
    return v;
}
template<class G> void ship(const Crv<mpz_class> &C, const Pt<mpz_class> &P)
{
    std::vector<Pt<mpz_class>> pts; auto v = big_mults<G>(C, P, pts);
    for (size_t i = 0; i < v.size(); i++) single(C, v[i], pts[i]);
    for (size_t i = 0; i < 3; i++) for (auto &l : special_scalings(C.T)) {
        G g = rep<G>(C, pts[v.size() - 1 - i], l); single(C, g, pts[v.size() - 1 - i]);
        std::vector<std::pair<G, Pt<mpz_class>>> w = {{g, pts[v.size() - 1 - i]}, {v[2], pts[2]}}; batch(C, w); w.push_back({v[0], pts[0]}); std::swap(w[0], w[1]); batch(C, w);
    }
    for (size_t m = 0; m < (1u << v.size()); m++) { std::vector<std::pair<G, Pt<mpz_class>>> w; for (size_t i = 0; i < v.size(); i++) if (m >> i & 1) w.push_back({v[i], pts[i]}); at("%s batch subset %zu", GK<G>::name(), m); batch(C, w); }
    trace();
}
// batch inversion
template<class F> void binv(const char *nm, const std::vector<F> &A, unsigned len)
{
    std::vector<F> I; for (auto &a : A) { I.push_back(a.inverse()); VF_CHECK(a * I.back() == F::one(), std::string("inverse.") + nm, "element"); }
    for (unsigned n = 0; n <= len; n++) {
        size_t tot = 1; for (unsigned i = 0; i < n; i++) tot *= A.size();
        for (size_t k = 0; k < tot; k++) {
            std::vector<F> v, w; size_t j = k; for (unsigned i = 0; i < n; i++) { v.push_back(A[j % A.size()]); w.push_back(I[j % A.size()]); j /= A.size(); }
            at("batch_invert %s word %zu length %u", nm, k, n); state();
            batch_invert<F>(v);
            VF_CHECK(v.size() == w.size() && v == w, std::string("batch_invert.") + nm, "word %zu of length %u", k, n);
        }
    }
    for (size_t n : {(size_t)16, (size_t)17, (size_t)31, (size_t)64, (size_t)65, (size_t)100, (size_t)128, (size_t)255, (size_t)256, (size_t)257, (size_t)1000, (size_t)1025, (size_t)4097}) { // very long
        std::vector<F> v, w; for (size_t i = 0; i < n; i++) { size_t j = (i * 5 + i / 7 + n) % A.size(); v.push_back(A[j]); w.push_back(I[j]); }
        at("batch_invert %s length %zu", nm, n); state(); batch_invert<F>(v);
        VF_CHECK(v.size() == w.size() && v == w, std::string("batch_invert.") + nm, "length %zu", n);
    }
    trace();
}
template<class F> std::vector<F> pick(const T64 &T, unsigned n) { std::vector<F> v; u64 tot = mpz_class(T.size()) > 1000000000 ? 1000000000ull : mpz_class(T.size()).get_ui(); for (u64 i = 0; v.size() < n; i++) { E64 e = i < 2 ? T.nth(i == 0 ? 1 : T.p - 1, T.p) : T.nth((i * (tot / n) + i * i * 7 + 1) % tot, T.p); if (!e.zero()) v.push_back(unflat<F>(e)); } return v; }

template<class G1, class G2, class MK> void tiny(const char *nm, MK make, u64 cap)
{
    unsigned len = thorough() ? 6 : 4;
    if (unit("%s G1 points", nm)) { CS c = make(); all<G1>(c.E1, c.P1, c.r.get_ui(), cap); }
    if (unit("%s G2 points", nm)) { CS c = make(); all<G2>(c.E2, c.P2, c.r.get_ui(), cap); }
    if (unit("%s G1 batches", nm)) { CS c = make(); words<G1>(c.E1, c.P1, c.r.get_ui(), len, withspecial(every(c.E1.T, 5), c.E1.T)); }
    if (unit("%s G2 batches", nm)) { CS c = make(); words<G2>(c.E2, c.P2, c.r.get_ui(), len, withspecial(every(c.E2.T, 5), c.E2.T)); }
}
template<class G1, class G2, class MK> void shipped(const char *nm, MK make)
{
    if (unit("shipped %s G1", nm)) { auto c = make(); ship<G1>(c.E1, c.P1); }
    if (unit("shipped %s G2", nm)) { auto c = make(); ship<G2>(c.E2, c.P2); }
}
VF_MAIN([]() {
    quiet();
    typedef alt_bn128_G1 A1; typedef alt_bn128_G2 A2; typedef bls12_381_G1 B1; typedef bls12_381_G2 B2; typedef mnt4_G1 M41; typedef mnt4_G2 M42; typedef mnt6_G1 M61; typedef mnt6_G2 M62; typedef edwards_G1 D1; typedef edwards_G2 D2;
    u64 cap = thorough() ? 20000 : 800;
    tiny<A1, A2>("BN(-1)", []() { return tiny_alt_bn128(-1); }, cap);
    tiny<A1, A2>("BN(1)", []() { return tiny_alt_bn128(1); }, cap);
    tiny<B1, B2>("BLS12(-2)", []() { return tiny_bls12_381(-2); }, cap);
    tiny<B1, B2>("BLS12(4)", []() { return tiny_bls12_381(4); }, cap / 4);
    tiny<M41, M42>("MNT4(13,17)", []() { return tiny_mnt4(13, 17); }, cap);
    tiny<M41, M42>("MNT4(241,257)", []() { return tiny_mnt4(241, 257); }, cap / 4);
    tiny<M61, M62>("MNT6(37,31)", []() { return tiny_mnt6(37, 31); }, cap);
    tiny<M61, M62>("MNT6(37,43)", []() { return tiny_mnt6(37, 43); }, cap / 4);
    tiny<D1, D2>("EDW(19,7)", []() { return tiny_edwards(19, 7, 8); }, cap);
    tiny<D1, D2>("EDW(43,13)", []() { return tiny_edwards(43, 13, 5); }, cap);
    tiny<D1, D2>("EDW(859,211)", []() { return tiny_edwards(859, 211, 113); }, cap / 4);
    shipped<A1, A2>("alt_bn128", ship_alt_bn128); shipped<B1, B2>("bls12_381", ship_bls12_381); shipped<M41, M42>("mnt4", ship_mnt4); shipped<M61, M62>("mnt6", ship_mnt6); shipped<D1, D2>("edwards", ship_edwards);
    unsigned L = thorough() ? 5 : 4;
    if (unit("batch_invert Fp 13")) { setup_fp<mnt4_Fq, mnt4_q_limbs>(mnt46_modulus_B, 13); binv("Fp13", pick<mnt4_Fq>(tower_p(13), 12), L); }
    if (unit("batch_invert Fp 3")) { setup_fp<mnt4_Fq, mnt4_q_limbs>(mnt46_modulus_B, 3); std::vector<mnt4_Fq> v; v.push_back(mkf<mnt4_Fq>((u64)1)); v.push_back(mkf<mnt4_Fq>((u64)2)); binv("Fp3", v, 12); }
    if (unit("batch_invert Fp2/Fp4")) { CS c = tiny_mnt4(13, 17); binv("Fp2", pick<mnt4_Fq2>(c.E2.T, 9), L); binv("Fp4", pick<mnt4_Fq4>(c.TK, 6), L); }
    if (unit("batch_invert Fp3/Fp6")) { CS c = tiny_mnt6(37, 31); binv("Fp3", pick<mnt6_Fq3>(c.E2.T, 7), L); binv("Fp6_2over3", pick<mnt6_Fq6>(c.TK, 6), L); }
    if (unit("batch_invert Fp6/Fp12")) { CS c = tiny_alt_bn128(-1); binv("Fp6_3over2", pick<alt_bn128_Fq6>(c.TK.sub(), 6), L); binv("Fp12", pick<alt_bn128_Fq12>(c.TK, 6), L); }
    if (unit("batch_invert binary")) {
        std::vector<gf64> a = {gf64(1), gf64(2), gf64(3), gf64(~0ull), gf64(0x8000000000000000ull), gf64(0x1bull)}; binv("gf64", a, L);
        std::vector<gf128> b = {gf128(1), gf128(2), gf128(1ull << 63, 1), gf128(~0ull, ~0ull), gf128(0, 1)}; binv("gf128", b, L);
        std::vector<gf192> d = {gf192(1), gf192(2), gf192(~0ull, ~0ull, ~0ull), gf192(0, 0, 1ull << 63), gf192(0, 1, 0)}; binv("gf192", d, L);
        std::vector<gf256> e = {gf256(1), gf256(2), gf256(~0ull, ~0ull, ~0ull, ~0ull), gf256(0, 0, 0, 1ull << 63), gf256(0, 1, 0, 0)}; binv("gf256", e, L);
    }
})
