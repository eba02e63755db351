// C18: every value survives serialisation, and equal values have one byte form. One build per encoding.
#include "pairs.hpp"
#include "gf2ref.hpp"
#include <sstream>
using namespace libff;
using namespace vf;
typedef std::vector<E64> VE;

static std::string hex(const std::string &s) { std::string r; char b[4]; for (unsigned char c : s.substr(0, 120)) { if (c >= 32 && c < 127) r += c; else { snprintf(b, 4, "%02x", c); r += "\\"; r += b; } } return r; }
template<class T> std::string bytes(const T &x) { std::stringstream ss; ss << x; return ss.str(); }
// reads x back from bytes b into t (whose previous contents must not matter); every byte must be consumed
template<class T> bool read(const std::string &b, T &t, const std::string &key)
{
    std::stringstream ss(b); ss >> t;
    bool ok = !ss.fail();
    long pos = ss.rdbuf()->pubseekoff(0, std::ios_base::cur, std::ios_base::in);
    VF_CHECK(ok, key + ".stream", "reading %s fails", hex(b).c_str());
    VF_CHECK(!ok || pos == (long)b.size(), key + ".consumed", "reading %s consumes %ld of %zu bytes", hex(b).c_str(), pos, b.size());
    return ok;
}
// a value judged by its coordinates
template<class Zt, class F> void field(const El<Zt> &e, const std::string &key, F &dirty)
{
    F x = unflat<F>(e); at("%s %s", key.c_str(), e.s().c_str()); state();
    std::string b = bytes(x);
    if (!read(b, dirty, key)) return;
    El<Zt> got = flat<Zt>(dirty);
    VF_CHECK(got == e && dirty == x, key + ".value", "%s written as %s, read as %s", e.s().c_str(), hex(b).c_str(), got.s().c_str());
    F re = reserialize(x);
    VF_CHECK(flat<Zt>(re) == e, key + ".reserialize", "%s", e.s().c_str());
    VF_CHECK(bytes(dirty) == b && bytes(x) == b, key + ".bytes", "%s has two byte forms", e.s().c_str());
    VF_CHECK(flat<Zt>(x) == e, key + ".operand", "modified by writing");
    trans(3);
}
template<class Zt> std::vector<El<Zt>> patterns(const std::vector<Zt> &al, int d, size_t cap)
{
    std::vector<El<Zt>> r; double n = 1; for (int i = 0; i < d; i++) n *= al.size();
    if (n <= cap) { for (u64 k = 0; k < (u64)n; k++) { El<Zt> e; e.d = d; u64 j = k; for (int i = 0; i < d; i++) { e.c[i] = al[j % al.size()]; j /= al.size(); } r.push_back(e); } return r; }
    for (u64 k = 0; k < (1u << d); k++) { El<Zt> e; e.d = d; for (int i = 0; i < d; i++) e.c[i] = k >> i & 1 ? al[(3 + i) % al.size()] : al[0]; r.push_back(e); }
    for (size_t s = 0; s < al.size(); s++) { El<Zt> e; e.d = d; for (int i = 0; i < d; i++) e.c[i] = al[(s + i) % al.size()]; r.push_back(e); for (int i = 0; i < d; i++) e.c[i] = al[s]; r.push_back(e); }
    return r;
}
// values whose digits, limbs or bytes are special in one of the encodings
static std::vector<mpz_class> corners(const mpz_class &p, bool big)
{
    std::set<mpz_class> s; auto add = [&](const mpz_class &v) { if (v >= 0 && v < p) s.insert(v); };
    unsigned nb = mpz_sizeinbase(p.get_mpz_t(), 2);
    for (int i = 0; i < (big ? 300 : 3); i++) { add(i); add(p - 1 - i); }
    mpz_class R = mpz_class(1) << (64 * ((nb + 63) / 64)), Ri = ref::inv(ref::mod(R, p), p);
    std::vector<mpz_class> pats;
    for (unsigned k = 0; k <= nb; k += big ? 1 : 32) { mpz_class v = mpz_class(1) << k; pats.push_back(v); pats.push_back(v - 1); if (big) pats.push_back(v + 1); }
    mpz_class t = 1; for (unsigned k = 0; k < nb; k++) { if (big || k % 9 == 0) { pats.push_back(t); pats.push_back(t - 1); } t *= 10; }
    for (int w : {0x0a, 0x20, 0x09, 0x0d, 0x30, 0x31, 0xff, 0x2d}) for (unsigned k = 0; k < nb; k += 8) { pats.push_back(mpz_class(w) << k); mpz_class v = 0; for (unsigned j = 0; j <= k; j += 8) v |= mpz_class(w) << j; pats.push_back(v); if (!big) k += 56; }
    for (auto &v : pats) { add(v); add(p - v); if (v < p) { add(ref::mod(v * Ri, p)); } }     // v as plain and as internal digits
    return std::vector<mpz_class>(s.begin(), s.end());
}
static std::vector<mpz_class> few(const mpz_class &p) { return {0, p - 1, 10, p / 2 + 1, 1, mpz_class(1) << 64, 32, p - 2, 0x0a0a0a0a, p / 3, 7, p / 7, 13, p - 13, 0x20, p / 11}; }
template<class F> void tiny_field(const T64 &T, const char *nm, size_t cap)
{
    u64 n = T.size().fits_ulong_p() ? T.size().get_ui() : ~0ull; F dirty = F::one();
    if (n <= cap) { for (u64 k = 0; k < n; k++) field<u64>(T.nth(k, T.p), nm, dirty); }
    else { std::vector<u64> al; for (u64 v : std::vector<u64>{0ull, 1ull, T.p - 1, 2ull, 10ull, 3ull, 4ull, 5ull, 6ull, 7ull, 8ull, 9ull}) if (v < T.p) al.push_back(v); for (auto &e : patterns<u64>(al, T.dim(), cap)) field(e, nm, dirty); }
    sample(nm, bytes(unflat<F>(T.nth(5, T.p))).size() ? hex(bytes(unflat<F>(T.nth(5, T.p)))) : "");
    trace();
}
template<class F> void ship_field(const mpz_class &p, int d, const char *nm)
{
    if (!unit("shipped %s", nm)) return;
    F dirty = F::one();
    if (d == 1) { for (auto &v : corners(p, true)) field(ez({v}), nm, dirty); }
    else { auto al = few(p); if (d <= 3) al = corners(p, false); for (auto &e : patterns<mpz_class>(al, d, thorough() ? 300000 : 20000)) field(e, nm, dirty); }
    sample(std::string(nm), hex(bytes(F::one()))); trace();
}
// ---- prime fields of every width
template<int N> void prime(const mpz_class &p, const std::string &nm)
{
    typedef Fp_model<N, M<N>::m> F;
    if (!unit("%s", nm.c_str())) return;
    if (p < 1000) setup_fp<F, N>(M<N>::m, p); else setup_modulus<F, N>(M<N>::m, p);
    F dirty = F::one();
    if (p < 1000) for (unsigned v = 0; v < p; v++) field(ez({v}), nm, dirty);
    else for (auto &v : corners(p, true)) field(ez({v}), nm, dirty);
    trace();
}
template<mp_size_t n> void big()
{
    if (!unit("bigint<%d>", (int)n)) return;
    mpz_class top = mpz_class(1) << (64 * n); bigint<n> dirty(77ul); dirty.data[n - 1] = ~0ull;
    std::vector<mpz_class> vs = corners(top - 1, true); vs.push_back(top - 1); vs.push_back(top - 2);
    for (auto &v : vs) {
        bigint<n> x = B<n>(v); at("bigint<%d> %s", (int)n, v.get_str(16).c_str()); state();
        std::string b = bytes(x); if (!read(b, dirty, "bigint")) continue;
        VF_CHECK(Z(dirty) == v && dirty == x && bytes(dirty) == b && Z(x) == v, "bigint.value", "%s read as %s", v.get_str().c_str(), Z(dirty).get_str().c_str());
        trans(2);
    }
    trace();
}
template<class F> struct GB { static Poly get(const F &x) { auto w = x.to_words(); Poly p; for (size_t i = 0; i < w.size(); i++) p.w[i] = w[i]; return p; } };
template<class F> void gf(const char *nm, int n, std::function<F(const Poly &)> mk)
{
    if (!unit("%s", nm)) return;
    Gf g; g.n = n; std::vector<Poly> vs;
    Poly z; vs.push_back(z);
    for (int i = 0; i < n; i++) { Poly p; p.w[i / 64] ^= 1ull << (i % 64); vs.push_back(p); for (int j = 0; j < i; j += thorough() ? 1 : 3) { Poly q = p; q.w[j / 64] ^= 1ull << (j % 64); vs.push_back(q); } }
    std::vector<uint64_t> al = {0, 1, ~0ull, 0x0a0a0a0a0a0a0a0aull, 0x2020202020202020ull, 10, 1ull << 63, 9999999999999999999ull};
    int W = (n + 63) / 64; u64 tot = 1; for (int i = 0; i < W; i++) tot *= al.size();
    for (u64 k = 0; k < tot; k++) { Poly p; u64 j = k; for (int i = 0; i < W; i++) { p.w[i] = al[j % al.size()]; j /= al.size(); } vs.push_back(g.mask(p)); }
    if (n == 32) for (u64 k = 0; k < 70000; k++) { Poly p; p.w[0] = k; vs.push_back(p); p.w[0] = 0xffffffffu - k; vs.push_back(p); }
    F dirty = F::one();
    for (auto &v : vs) {
        F x = mk(v); at("%s %s", nm, v.s().c_str()); state();
        std::string b = bytes(x); if (!read(b, dirty, nm)) continue;
        VF_CHECK(GB<F>::get(dirty) == v && dirty == x, std::string(nm) + ".value", "%s written %s read %s", v.s().c_str(), hex(b).c_str(), GB<F>::get(dirty).s().c_str());
        VF_CHECK(bytes(dirty) == b && GB<F>::get(x) == v && GB<F>::get(reserialize(x)) == v, std::string(nm) + ".bytes", "%s", v.s().c_str());
        trans(2);
    }
    sample(nm, hex(bytes(F::one()))); trace();
}
// ---- points
template<class G, class Zt> void point(const Crv<Zt> &C, const Pt<Zt> &p, const std::vector<El<Zt>> &scal, const std::string &nm, G &dirty)
{
    std::string first;
    for (size_t i = 0; i < scal.size(); i++) for (int shape = 0; shape < (p.inf ? 2 : 1); shape++) {
        G g = rep<G>(C, p, scal[i], shape), k = g; at("%s %s scaled %s", nm.c_str(), p.s().c_str(), scal[i].s().c_str()); state();
        std::string b = bytes(g);
        if (first.empty()) first = b;
        VF_CHECK(b == first, nm + ".bytes", "%s: representation scaled by %s is written %s, otherwise %s", p.s().c_str(), scal[i].s().c_str(), hex(b).c_str(), hex(first).c_str());
        VF_CHECK(same(g, k), nm + ".operand", "%s modified by writing", p.s().c_str());
        if (i > 2) continue; // the bytes are the same, so is what is read
        if (!read(b, dirty, nm)) continue;
        VF_CHECK(is(C, dirty, p), nm + ".value", "%s written %s, read as %s", p.s().c_str(), hex(b).c_str(), gs(dirty).c_str());
        VF_CHECK(dirty == g && g == dirty && bytes(dirty) == b, nm + ".equal", "%s: value read back differs", p.s().c_str());
        trans(2);
        // read into objects in use: a scaled point, a scaled identity
        if (i == 0) { const El<Zt> &l = scal[scal.size() - 1]; for (int u = 0; u < 3; u++) { G o = u == 0 ? rep<G>(C, C.neg(p), l) : rep<G>(C, C.O(), u == 1 ? scal[0] : l, u - 1); if (u == 0 && p.inf) o = dirty; if (!read(b, o, nm)) continue; VF_CHECK(is(C, o, p) && bytes(o) == b, nm + ".reuse", "%s read into a used object gives %s", p.s().c_str(), gs(o).c_str()); } }
    }
    if (!p.inf && !C.isO(p)) dirty = rep<G>(C, p, scal[scal.size() - 1]);
}
template<class G> void tiny_points(const Crv<u64> &C, u64 nsc, size_t maxpts, unsigned s, unsigned ns)
{
    const T64 &T = C.T; std::string nm = GK<G>::name(); u64 q = T.size().get_ui(), p = T.p;
    VE sc; for (u64 k = 1, st = q <= nsc + 1 ? 1 : q / nsc; k < q && sc.size() < nsc; k += st) sc.push_back(T.nth(k, p));
    G dirty; size_t cnt = 0, stepx = 1; if (q > maxpts) stepx = q / maxpts;
    if (s == 0) point<G>(C, C.O(), sc, nm, dirty);
    auto y_of = [&](const E64 &x, E64 &rhs) {
        E64 xx = T.sqr(x);
        if (C.edw) { E64 d = T.sub(T.one(), T.mul(C.b, xx)); if (d.zero()) return false; rhs = T.mul(T.sub(T.one(), T.mul(C.a, xx)), T.inv(d)); }
        else rhs = T.add(T.add(T.mul(xx, x), T.mul(C.a, x)), C.b);
        return T.is_square(rhs);
    };
    auto both = [&](const E64 &x, const E64 &rhs) {
        E64 y = tsqrt(T, rhs);
        for (int neg = 0; neg < 2; neg++) { Pt<u64> P; P.x = x; P.y = neg ? T.neg(y) : y; if (C.edw && (x.zero() || y.zero())) continue; point<G>(C, P, sc, nm, dirty); cnt++; if (y.zero()) break; }
    };
    for (u64 k = (u64)s * stepx; k < q; k += ns * stepx) { E64 x = T.nth(k, p), rhs; if (y_of(x, rhs)) both(x, rhs); }
    // ordinates with vanishing coordinates: for every x whose right-hand side is the square of such an element
    if (T.dim() > 1 && stepx > 1) {
        std::set<std::string> want; 
        for (u64 c = 0; c < p * T.dim(); c++) { E64 y = T.zero(); y.c[c / p] = c % p; want.insert(T.sqr(y).s()); }
        if (T.dim() == 3) for (u64 a = 0; a < p; a++) for (u64 b = 0; b < p; b++) { E64 y = T.zero(); y.c[1] = a; y.c[2] = b; want.insert(T.sqr(y).s()); }
        for (u64 k = s; k < q; k += ns) { E64 x = T.nth(k, p), rhs; vf::tick(); if (!C.edw || true) { E64 xx = T.sqr(x); if (C.edw) { E64 d = T.sub(T.one(), T.mul(C.b, xx)); if (d.zero()) continue; rhs = T.mul(T.sub(T.one(), T.mul(C.a, xx)), T.inv(d)); } else rhs = T.add(T.add(T.mul(xx, x), T.mul(C.a, x)), C.b); } if (want.count(rhs.s())) both(x, rhs); }
    }
    sample(nm, hex(bytes(rep<G>(C, C.O()))) + " | " + std::to_string(cnt) + " points in the slice"); trace();
}
template<class PG> void precomp(const PG &p, PG &dirty, const std::string &nm)
{
    state(); std::string b = bytes(p); if (!read(b, dirty, nm)) return;
    VF_CHECK(dirty == p && p == dirty && bytes(dirty) == b, nm + ".value", "precomputed value changed");
    PG c = reserialize(p); VF_CHECK(c == p && bytes(c) == b, nm + ".bytes", "precomputed value changed"); trans(2);
}
template<class PP, class Zt> void precomps(const CSet<Zt> &c, size_t n, const std::string &nm)
{
    typedef PT<PP> X; typedef typename X::G1 G1; typedef typename X::G2 G2;
    auto A = c.E1.table(c.P1, n), Bq = c.E2.table(c.P2, n); 
    auto d1 = X::pre1(rep<G1>(c.E1, c.P1)); auto d2 = X::pre2(rep<G2>(c.E2, c.P2));
    G1 base1 = rep<G1>(c.E1, c.P1); auto ref1 = X::pre1(base1);
    for (size_t i = 1; i < n; i++) {
        at("%s precomputation of %zu", nm.c_str(), i);
        auto a = X::pre1(rep<G1>(c.E1, A[i])); auto b = X::pre2(rep<G2>(c.E2, Bq[i]));
        precomp(a, d1, nm + ".G1_precomp"); precomp(b, d2, nm + ".G2_precomp");
        VF_CHECK(X::ml(d1, d2) == X::ml(a, b), nm + ".precomp.use", "Miller loop over values read back differs (%zu)", i);
        // the same point in another representation
        El<Zt> l1 = c.E1.T.zero(), l2 = c.E2.T.zero(); for (int k = 0; k < l1.d; k++) l1.c[k] = Zt((unsigned long)(2 + k)); for (int k = 0; k < l2.d; k++) l2.c[k] = Zt((unsigned long)(3 + k));
        auto a2 = X::pre1(rep<G1>(c.E1, A[i], l1)); auto b2 = X::pre2(rep<G2>(c.E2, Bq[i], l2));
        VF_CHECK(!(a2 == a) || bytes(a2) == bytes(a), nm + ".G1_precomp.bytes", "equal values, different bytes");
        VF_CHECK(!(b2 == b) || bytes(b2) == bytes(b), nm + ".G2_precomp.bytes", "equal values, different bytes");
    }
    trace();
}
template<class Zt> void ed_tate(const CSet<Zt> &c, size_t n)
{
    auto A = c.E1.table(c.P1, n), Bq = c.E2.table(c.P2, n);
    auto d1 = edwards_tate_precompute_G1(rep<edwards_G1>(c.E1, c.P1)); auto d2 = edwards_tate_precompute_G2(rep<edwards_G2>(c.E2, c.P2));
    for (size_t i = 1; i < n; i++) { at("tate precomputation of %zu", i); precomp(edwards_tate_precompute_G1(rep<edwards_G1>(c.E1, A[i])), d1, "edwards_tate.G1_precomp"); precomp(edwards_tate_precompute_G2(rep<edwards_G2>(c.E2, Bq[i])), d2, "edwards_tate.G2_precomp"); }
    trace();
}
template<class PP, class MK> void tiny(const char *nm, MK make, u64 nsc1, u64 nsc2, size_t maxx, unsigned ns)
{
    typedef PT<PP> X;
    if (unit("%s fields", nm)) {
        CS c = make(); tiny_field<typename GK<typename X::G1>::F>(c.E1.T, nm, 100000); tiny_field<typename GK<typename X::G2>::F>(c.E2.T, nm, thorough() ? 400000 : 10000); tiny_field<typename X::FK>(c.TK, nm, 20000);
    }
    if (unit("%s G1", nm)) { CS c = make(); tiny_points<typename X::G1>(c.E1, nsc1, 100000, 0, 1); }
    for (unsigned s = 0; s < ns; s++) if (unit("%s G2 %u/%u", nm, s, ns)) { CS c = make(); tiny_points<typename X::G2>(c.E2, nsc2, maxx, s, ns); }
    if (unit("%s precomputed", nm)) { CS c = make(); precomps<PP, u64>(c, std::min<u64>(c.r.get_ui(), 40), PT<PP>::name()); }
}
// a root of X^3 + a X + b over the tower, if there is one (polynomials modulo the cubic, then an equal-degree split)
template<class Zt> bool cubic_root(const Tower<Zt> &T, const El<Zt> &a, const El<Zt> &b, El<Zt> &out)
{
    typedef El<Zt> E; typedef std::vector<E> Pl; // little endian
    auto trim = [](Pl &p) { while (!p.empty() && p.back().zero()) p.pop_back(); };
    auto pmod = [&](Pl p, const Pl &m) { E li = T.inv(m.back()); trim(p); while (p.size() >= m.size()) { E f = T.mul(p.back(), li); size_t o = p.size() - m.size(); for (size_t i = 0; i < m.size(); i++) p[o + i] = T.sub(p[o + i], T.mul(f, m[i])); trim(p); } return p; };
    auto pmul = [&](const Pl &x, const Pl &y, const Pl &m) { Pl r(x.size() + y.size() + 1, T.zero()); for (size_t i = 0; i < x.size(); i++) for (size_t j = 0; j < y.size(); j++) r[i + j] = T.add(r[i + j], T.mul(x[i], y[j])); return pmod(r, m); };
    auto ppow = [&](const Pl &x, const mpz_class &e, const Pl &m) { Pl r{T.one()}; for (long i = (long)mpz_sizeinbase(e.get_mpz_t(), 2) - 1; i >= 0; i--) { vf::tick(); r = pmul(r, r, m); if (mpz_tstbit(e.get_mpz_t(), i)) r = pmul(r, x, m); } return r; };
    auto pgcd = [&](Pl x, Pl y) { trim(x); trim(y); while (!y.empty()) { Pl t = pmod(x, y); x = y; y = t; } return x; };
    Pl f{b, a, T.zero(), T.one()}, X{T.zero(), T.one()};
    mpz_class q = T.size(); Pl h = ppow(X, q, f); h.resize(4, T.zero()); h[1] = T.sub(h[1], T.one()); trim(h);
    Pl g = h.empty() ? f : pgcd(f, h);
    for (unsigned k = 1; g.size() > 2; k++) { Pl s{T.nth(k * 7 + 3, 10), T.one()}; Pl w = ppow(s, (q - 1) / 2, g); w.resize(4, T.zero()); w[0] = T.sub(w[0], T.one()); trim(w); if (w.empty()) continue; Pl d = pgcd(g, w); if (d.size() > 1 && d.size() < g.size()) g = d; if (k > 60) return false; }
    if (g.size() != 2) return false;
    out = T.neg(T.mul(g[0], T.inv(g[1])));
    return true;
}
// points whose ordinate has vanishing leading coefficients
template<class Zt> std::vector<Pt<Zt>> thin_ordinates(const Crv<Zt> &C, size_t n)
{
    const Tower<Zt> &T = C.T; std::vector<Pt<Zt>> r;
    for (int lead = 1; lead < T.dim(); lead++) {
        size_t got = 0;
        for (unsigned k = 1; k < 200 && got < n; k++) {
            Pt<Zt> P; P.y = T.zero(); for (int i = lead; i < P.y.d; i++) P.y.c[i] = Zt((unsigned long)(k + 5 * i)); El<Zt> yy = T.sqr(P.y);
            if (C.edw) { El<Zt> d = T.sub(C.a, T.mul(C.b, yy)); if (d.zero()) continue; El<Zt> xx = T.mul(T.sub(T.one(), yy), T.inv(d)); if (xx.zero() || !T.is_square(xx)) continue; P.x = tsqrt(T, xx); }
            else if (!cubic_root(T, C.a, T.sub(C.b, yy), P.x)) continue;
            if (!C.on(P)) { fprintf(stderr, "thin_ordinates: off the curve\n"); abort(); }
            r.push_back(P); got++;
        }
    }
    return r;
}
template<class G> void ship_points(const Crv<mpz_class> &C, const Pt<mpz_class> &P, const mpz_class &r)
{
    const auto &T = C.T; std::string nm = GK<G>::name(); G dirty; std::vector<EZ> sc; sc.push_back(T.one());
    mpz_class pi("31415926535897932384626433832795028841971693993751058209749445923078164062862");
    for (int i = 0; i < 2; i++) { EZ l = T.zero(); for (int k = 0; k < l.d; k++) l.c[k] = ref::mod(pi * (i + 3 * k + 1), T.p); sc.push_back(l); sc.push_back(T.neg(l)); } sc.push_back(T.neg(T.one()));
    point<G>(C, C.O(), sc, nm, dirty);
    auto t = C.table(P, thorough() ? 200 : 24);
    for (size_t i = 1; i < t.size(); i++) { point<G>(C, t[i], sc, nm, dirty); point<G>(C, C.neg(t[i]), sc, nm, dirty); }
    for (int k = 8; k < (int)mpz_sizeinbase(r.get_mpz_t(), 2); k += thorough() ? 8 : 40) { auto Q = C.mul(mpz_class(1) << k, P); point<G>(C, Q, sc, nm, dirty); point<G>(C, C.neg(Q), sc, nm, dirty); }
    // curve points outside the subgroup: small abscissae
    u64 s = 0; for (int i = 0; i < (thorough() ? 60 : 10); i++) { Pt<mpz_class> Q; for (;; s++) { Q = scan_point(C, s, 10); break; } u64 id = 0; for (int k = Q.x.d - 1; k >= 0; k--) id = id * 10 + Q.x.c[k].get_ui(); s = id + 1; if (C.edw && (Q.x.zero() || Q.y.zero())) continue; point<G>(C, Q, sc, nm, dirty); point<G>(C, C.neg(Q), sc, nm, dirty); }
    size_t nt = 0; for (auto &Q : thin_ordinates(C, thorough() ? 12 : 3)) { point<G>(C, Q, sc, nm, dirty); point<G>(C, C.neg(Q), sc, nm, dirty); nt++; }
    sample(nm, hex(bytes(rep<G>(C, P))) + " | " + std::to_string(nt) + " points with vanishing leading ordinate coefficients"); trace();
}
template<class PP, class MK> void shipped(const char *nm, MK make)
{
    typedef PT<PP> X;
    if (unit("shipped %s G1", nm)) { auto c = make(); ship_points<typename X::G1>(c.E1, c.P1, c.r); }
    if (unit("shipped %s G2", nm)) { auto c = make(); ship_points<typename X::G2>(c.E2, c.P2, c.r); }
    if (unit("shipped %s precomputed", nm)) { auto c = make(); precomps<PP, mpz_class>(c, thorough() ? 20 : 4, X::name()); }
}
VF_MAIN([]() {
    quiet(); bool th = thorough();
    for (unsigned p : {3u, 5u, 7u, 11u, 13u, 127u, 257u, 997u}) { prime<1>(p, "F_" + std::to_string(p) + " 1 limb"); prime<3>(p, "F_" + std::to_string(p) + " 3 limbs"); prime<5>(p, "F_" + std::to_string(p) + " 5 limbs"); }
    auto nextp = [](mpz_class v) { mpz_nextprime(v.get_mpz_t(), v.get_mpz_t()); return v; };
    prime<1>(nextp(mpz_class(1) << 62), "p=2^62+ 1 limb"); prime<2>(nextp(mpz_class(1) << 126), "p=2^126+ 2 limbs"); prime<3>(nextp(mpz_class(1) << 129), "p=2^129+ 3 limbs"); prime<4>(nextp(mpz_class(1) << 254), "p=2^254+ 4 limbs"); prime<12>(nextp(mpz_class(1) << 760), "p=2^760+ 12 limbs");
    big<1>(); big<2>(); big<3>(); big<4>(); big<5>(); big<6>(); big<12>(); big<24>();
    gf<gf32>("gf32", 32, [](const Poly &p) { return gf32((uint32_t)p.w[0]); });
    gf<gf64>("gf64", 64, [](const Poly &p) { return gf64(p.w[0]); });
    gf<gf128>("gf128", 128, [](const Poly &p) { return gf128(p.w[1], p.w[0]); });
    gf<gf192>("gf192", 192, [](const Poly &p) { return gf192(p.w[2], p.w[1], p.w[0]); });
    gf<gf256>("gf256", 256, [](const Poly &p) { return gf256(p.w[3], p.w[2], p.w[1], p.w[0]); });
    tiny<alt_bn128_pp>("BN(-1)", []() { return tiny_alt_bn128(-1); }, 20, 400, 1000, 2);
    tiny<alt_bn128_pp>("BN(-1) twist 2", []() { return tiny_alt_bn128(-1, 1); }, 20, 5, 1000, 1);
    tiny<alt_bn128_pp>("BN(1)", []() { return tiny_alt_bn128(1); }, 200, 3, th ? 20000 : 1500, 4);
    tiny<bls12_381_pp>("BLS12(-2)", []() { return tiny_bls12_381(-2); }, 40, 50, 1500, 4);
    tiny<bls12_381_pp>("BLS12(4)", []() { return tiny_bls12_381(4); }, 10, 3, th ? 40000 : 1500, 4);
    tiny<mnt4_pp>("MNT4(13,17)", []() { return tiny_mnt4(13, 17); }, 20, 170, 1000, 2);
    tiny<mnt4_pp>("MNT4(13,17)b", []() { return tiny_mnt4(13, 17, 2, 1); }, 20, 20, 1000, 1);
    tiny<mnt4_pp>("MNT4(241,257)", []() { return tiny_mnt4(241, 257); }, 10, 3, th ? 60000 : 1500, 4);
    tiny<mnt6_pp>("MNT6(37,31)", []() { return tiny_mnt6(37, 31); }, 40, 6, th ? 60000 : 1500, 4);
    tiny<mnt6_pp>("MNT6(37,43)", []() { return tiny_mnt6(37, 43); }, 40, 6, th ? 60000 : 1500, 4);
    tiny<edwards_pp>("EDW(19,7)", []() { return tiny_edwards(19, 7, 8); }, 20, 30, th ? 7000 : 1500, 4);
    tiny<edwards_pp>("EDW(43,13)", []() { return tiny_edwards(43, 13, 5); }, 50, 6, th ? 80000 : 1500, 4);
    if (unit("EDW(43,13) tate")) ed_tate<u64>(tiny_edwards(43, 13, 5), 13);
    shipped<alt_bn128_pp>("alt_bn128", ship_alt_bn128); shipped<bls12_381_pp>("bls12_381", ship_bls12_381); shipped<mnt4_pp>("mnt4", ship_mnt4); shipped<mnt6_pp>("mnt6", ship_mnt6); shipped<edwards_pp>("edwards", ship_edwards);
    if (unit("shipped edwards tate")) ed_tate<mpz_class>(ship_edwards(), 4);
    { alt_bn128_pp::init_public_params(); bls12_381_pp::init_public_params(); mnt4_pp::init_public_params(); mnt6_pp::init_public_params(); edwards_pp::init_public_params();
      mpz_class a = Z(alt_bn128_modulus_q), b = Z(bls12_381_modulus_q), m4 = Z(mnt46_modulus_B), m6 = Z(mnt46_modulus_A), e = Z(edwards_modulus_q);
      ship_field<alt_bn128_Fr>(Z(alt_bn128_modulus_r), 1, "alt_bn128_Fr"); ship_field<alt_bn128_Fq>(a, 1, "alt_bn128_Fq"); ship_field<alt_bn128_Fq2>(a, 2, "alt_bn128_Fq2"); ship_field<alt_bn128_Fq6>(a, 6, "alt_bn128_Fq6"); ship_field<alt_bn128_Fq12>(a, 12, "alt_bn128_Fq12");
      ship_field<bls12_381_Fr>(Z(bls12_381_modulus_r), 1, "bls12_381_Fr"); ship_field<bls12_381_Fq>(b, 1, "bls12_381_Fq"); ship_field<bls12_381_Fq2>(b, 2, "bls12_381_Fq2"); ship_field<bls12_381_Fq6>(b, 6, "bls12_381_Fq6"); ship_field<bls12_381_Fq12>(b, 12, "bls12_381_Fq12");
      ship_field<mnt4_Fr>(m6, 1, "mnt4_Fr"); ship_field<mnt4_Fq>(m4, 1, "mnt4_Fq"); ship_field<mnt4_Fq2>(m4, 2, "mnt4_Fq2"); ship_field<mnt4_Fq4>(m4, 4, "mnt4_Fq4");
      ship_field<mnt6_Fq3>(m6, 3, "mnt6_Fq3"); ship_field<mnt6_Fq6>(m6, 6, "mnt6_Fq6");
      ship_field<edwards_Fr>(Z(edwards_modulus_r), 1, "edwards_Fr"); ship_field<edwards_Fq>(e, 1, "edwards_Fq"); ship_field<edwards_Fq3>(e, 3, "edwards_Fq3"); ship_field<edwards_Fq6>(e, 6, "edwards_Fq6"); }
})
