// C15: the reduced pairing is bilinear, non-degenerate, one on the identity, of order dividing r, and blind to representations.
#include "pairs.hpp"
using namespace libff;
using namespace vf;
template<class G, class Zt> G repn(const Crv<Zt> &C, const Pt<Zt> &p, int v)
{
    const Tower<Zt> &T = C.T; El<Zt> l = T.zero();
    if (v == 0) return rep<G>(C, p, GK<G>::kind == INV && !C.isO(p) ? T.inv(T.mul(p.x, p.y)) : T.one());
    for (int k = 0; k < l.d; k++) l.c[k] = Zt((unsigned long)(1 + v + k));
    if (v == 3) l = T.neg(T.one());                                                  // the square of the scaling is one
    if (v == 4) { for (int k = 0; k < l.d; k++) l.c[k] = Zt(0ul); l.c[0] = Zt(2ul); } // a scaling from the base field
    if (v >= 5) { auto &L = special_scalings(T); l = L[(v - 5) % L.size()]; }
    return rep<G>(C, p, l, v & 1);
}
static const int NR = 21; // representations
template<class PP, class Zt> struct Run {
    typedef PT<PP> X; typedef typename X::G1 G1; typedef typename X::G2 G2; typedef typename X::FK FK;
    const CSet<Zt> &c; std::vector<Pt<Zt>> A, B; std::vector<mpz_class> ka, kb; std::map<mpz_class, El<Zt>> pw[2];
    mpz_class r; El<Zt> g[2];
    Run(const CSet<Zt> &c_) : c(c_), r(c_.r) {}
    static FK call(int alg, const G1 &P, const G2 &Q) { if (alg == 1) return X::alt(P, Q); return X::reduced(P, Q); }
    const char *an(int alg) { return alg ? X::altname() : "reduced_pairing"; }
    bool base()
    {
        bool ok = true;
        for (int alg = 0; alg <= X::alts; alg++) {
            at("%s base pairing", X::name()); state();
            g[alg] = flat<Zt>(call(alg, repn<G1>(c.E1, c.P1, 0), repn<G2>(c.E2, c.P2, 0)));
            const std::string k = std::string(X::name()) + "." + an(alg);
            if (poisoned(g[alg])) { fail(k + ".range", "%s unreduced coordinates", c.name.c_str()); ok = false; continue; }
            VF_CHECK(g[alg] != c.TK.one() && !g[alg].zero(), k + ".nondegenerate", "%s e(P,Q)=%s", c.name.c_str(), g[alg].s().c_str());
            bool ord = !g[alg].zero() && c.TK.pow(g[alg], r) == c.TK.one();
            VF_CHECK(ord, k + ".order", "%s e(P,Q)^r != 1", c.name.c_str());
        }
        return ok;
    }
    const El<Zt> &power(int alg, const mpz_class &e)
    {
        auto it = pw[alg].find(e); if (it == pw[alg].end()) it = pw[alg].emplace(e, c.TK.pow(g[alg], e)).first;
        return it->second;
    }
    void one(size_t i, size_t j, int va, int vb)
    {
        G1 P = repn<G1>(c.E1, A[i], va); G2 Q = repn<G2>(c.E2, B[j], vb);
        for (int alg = 0; alg <= X::alts; alg++) {
            at("%s %s a=%s b=%s reps %d %d", c.name.c_str(), an(alg), ka[i].get_str().c_str(), kb[j].get_str().c_str(), va, vb); state();
            El<Zt> e = flat<Zt>(call(alg, P, Q));
            mpz_class x = ref::mod(ka[i] * kb[j], r);
            VF_CHECK(!poisoned(e) && e == power(alg, x), std::string(X::name()) + "." + an(alg) + (x == 0 ? ".identity" : ".bilinear"), "%s a=%s b=%s reps %d,%d: got %s want g^%s=%s", c.name.c_str(), ka[i].get_str().c_str(), kb[j].get_str().c_str(), va, vb, e.s().c_str(), x.get_str().c_str(), power(alg, x).s().c_str());
        }
    }
};
// complete tiny groups
template<class PP> void tiny(const CS &c, unsigned s, unsigned ns, unsigned reps)
{
    Run<PP, u64> R(c); u64 r = c.r.get_ui(); R.A = c.E1.table(c.P1, r); R.B = c.E2.table(c.P2, r);
    for (u64 i = 0; i < r; i++) { R.ka.push_back(zu(i)); R.kb.push_back(zu(i)); }
    if (!R.base()) return;
    if (s == 0) { E64 a = c.TK.one(); for (u64 i = 0; i < r; i++) { if (i) VF_CHECK(a != c.TK.one(), std::string(PT<PP>::name()) + ".nondegenerate", "%s e(P,Q)^%d = 1", c.name.c_str(), (int)i); a = c.TK.mul(a, R.g[0]); } }
    size_t n = 0;
    for (u64 i = 0; i < r; i++) for (u64 j = 0; j < r; j++) {
        if (n++ % ns != s) continue;
        if (reps == 1) R.one(i, j, (i + j) % NR, (i + 2 * j) % NR);
        else { for (unsigned a = 0; a < reps; a++) for (unsigned b = 0; b < reps; b++) R.one(i, j, a, b); for (int v = 5; v < NR; v++) { R.one(i, j, v, (i + j) % 5); R.one(i, j, (i + j) % 5, v); } }
    }
    trace();
}
// selected multiples of the generators
template<class PP, class Zt> void sparse(const CSet<Zt> &c, const std::vector<mpz_class> &K, bool allreps)
{
    Run<PP, Zt> R(c); for (auto &k : K) { R.ka.push_back(k); R.kb.push_back(k); R.A.push_back(c.E1.mul(ref::mod(k, c.r), c.P1)); R.B.push_back(c.E2.mul(ref::mod(k, c.r), c.P2)); }
    if (!R.base()) return;
    if (allreps) for (int v = 5; v < NR; v++) { R.one(0, 0, v, 0); R.one(0, 0, 0, v); }
    for (size_t i = 0; i < K.size(); i++) for (size_t j = 0; j < K.size(); j++) {
        if (allreps && i < 4 && j < 4) { for (int a = 0; a < 5; a++) for (int b = 0; b < 5; b++) if (thorough() || i == 0 || (a + b) % 3 == 0) R.one(i, j, a, b); }
        else R.one(i, j, (i + j) % NR, (i + 2 * j) % NR);
    }
    trace();
}
template<class PP, class MK> void tiny_units(const char *nm, MK make, unsigned full, unsigned ns, unsigned reps)
{
    if (full) for (unsigned s = 0; s < ns; s++) { if (unit("%s complete group, %u representations, slice %u/%u", nm, reps, s, ns)) { CS c = make(); tiny<PP>(c, s, ns, reps); } }
    else if (unit("%s selected multiples", nm)) {
        CS c = make(); std::set<mpz_class> K; for (int i = 0; i < (thorough() ? 60 : 16); i++) { K.insert(i); K.insert(c.r - i); K.insert(c.r / 2 + i); } K.insert(c.r); K.insert(c.r + 1);
        sparse<PP>(c, std::vector<mpz_class>(K.begin(), K.end()), false);
    }
}
template<class PP, class MK> void ship(const char *nm, MK make)
{
    if (!unit("shipped %s", nm)) return;
    auto c = make(); std::vector<mpz_class> K = {1, 0, c.r - 1, 2, 3, (c.r + 1) / 2, (mpz_class(1) << 64) + 1};
    if (thorough()) { K.push_back(c.r); K.push_back(c.r - 2); K.push_back(c.r / 3); K.push_back(mpz_class(1) << 100); K.push_back(5); K.push_back((mpz_class(1) << 128) - 1); for (int i = 6; i < 20; i++) K.push_back(i * c.r / 21); }
    sparse<PP>(c, K, true);
}
VF_MAIN([]() {
    quiet();
    bool t = thorough();
    tiny_units<alt_bn128_pp>("BN(-1)", []() { return tiny_alt_bn128(-1); }, 1, 2, 5);
    tiny_units<alt_bn128_pp>("BN(-1) second twist", []() { return tiny_alt_bn128(-1, 1); }, 1, 2, 2);
    tiny_units<alt_bn128_pp>("BN(1)", []() { return tiny_alt_bn128(1); }, 1, 8, t ? 3 : 1);
    tiny_units<alt_bn128_pp>("BN(-2)", []() { return tiny_alt_bn128(-2); }, 1, 32, 1);
    for (long x : {2, 3, -3, 4, -4, 5, -5, 6, -6}) { mpz_class z = x, q = 36 * z * z * z * z + 36 * z * z * z + 24 * z * z + 6 * z + 1, r = q - 6 * z * z; if (zprime(q) && zprime(r) && x != -2) tiny_units<alt_bn128_pp>(("BN(" + std::to_string(x) + ")").c_str(), [x]() { return tiny_alt_bn128(x); }, 0, 1, 1); }
    tiny_units<bls12_381_pp>("BLS12(-2)", []() { return tiny_bls12_381(-2); }, 1, 2, 5);
    tiny_units<bls12_381_pp>("BLS12(4)", []() { return tiny_bls12_381(4); }, 1, 32, 1);
    for (long x : {-5, 7, -8, 10, -11, 13, -14, 16, -17, 19, -20, 22}) { mpz_class z = x, r = z * z * z * z - z * z + 1, q = (z - 1) * (z - 1) / 3 * r + z; if (zprime(q) && zprime(r)) tiny_units<bls12_381_pp>(("BLS12(" + std::to_string(x) + ")").c_str(), [x]() { return tiny_bls12_381(x); }, 0, 1, 1); }
    tiny_units<mnt4_pp>("MNT4(13,17)", []() { return tiny_mnt4(13, 17); }, 1, 2, 5);
    tiny_units<mnt4_pp>("MNT4(13,17) b", []() { return tiny_mnt4(13, 17, 1, 1); }, 1, 2, 2);
    tiny_units<mnt4_pp>("MNT4(241,257)", []() { return tiny_mnt4(241, 257); }, 1, 16, 1);
    tiny_units<mnt4_pp>("MNT4(421,401)", []() { return tiny_mnt4(421, 401); }, t, 32, 1);
    tiny_units<mnt4_pp>("MNT4(601,577)", []() { return tiny_mnt4(601, 577); }, t, 32, 1);
    tiny_units<mnt6_pp>("MNT6(37,31)", []() { return tiny_mnt6(37, 31); }, 1, 2, 5);
    tiny_units<mnt6_pp>("MNT6(37,43)", []() { return tiny_mnt6(37, 43); }, 1, 4, t ? 3 : 1);
    tiny_units<mnt6_pp>("MNT6(577,601)", []() { return tiny_mnt6(577, 601); }, t, 32, 1);
    tiny_units<mnt6_pp>("MNT6(2917,2971)", []() { return tiny_mnt6(2917, 2971); }, 0, 1, 1);
    tiny_units<edwards_pp>("EDW(31,7)", []() { return tiny_edwards(31, 7, 6); }, 1, 1, 5);
    tiny_units<edwards_pp>("EDW(859,211)", []() { return tiny_edwards(859, 211, 113); }, 1, 16, 1);
    ship<alt_bn128_pp>("alt_bn128", ship_alt_bn128); ship<bls12_381_pp>("bls12_381", ship_bls12_381); ship<mnt4_pp>("mnt4", ship_mnt4); ship<mnt6_pp>("mnt6", ship_mnt6); ship<edwards_pp>("edwards", ship_edwards);
})
