// C03: Frobenius maps, sparse products, cyclotomic squaring/inversion/exponentiation.
#include "towers.hpp"
#include "gcdext_shim.hpp"
#include <libff/algebra/curves/alt_bn128/alt_bn128_pp.hpp>
#include <libff/algebra/curves/bls12_381/bls12_381_pp.hpp>
#include <libff/algebra/curves/edwards/edwards_pp.hpp>
#include <libff/algebra/curves/mnt/mnt4/mnt4_pp.hpp>
#include <libff/algebra/curves/mnt/mnt6/mnt6_pp.hpp>
using namespace libff;
using namespace vf;
typedef std::vector<E64> VE;
template<int N> struct K {
    typedef Fp_model<N, M<N>::m> Fp; typedef Fp2_model<N, M<N>::m> F2; typedef Fp3_model<N, M<N>::m> F3; typedef Fp4_model<N, M<N>::m> F4;
    typedef Fp6_2over3_model<N, M<N>::m> F6a; typedef Fp6_3over2_model<N, M<N>::m> F6b; typedef Fp12_2over3over2_model<N, M<N>::m> F12;
    static void base(u64 p) { setup_fp<Fp, N>(M<N>::m, mpz_class((unsigned long)p)); }
};
static VE all(const T64 &T) { VE v; u64 n = mpz_class(T.size()).get_ui(); for (u64 i = 0; i < n; i++) v.push_back(T.nth(i, T.p)); return v; }
static VE patterns(const T64 &T, const std::vector<u64> &L, size_t cap)
{
    VE v; int d = T.dim(); size_t tot = 1; for (int i = 0; i < d; i++) tot *= L.size();
    size_t stride = tot <= cap ? 1 : tot / cap; if (stride > 1 && stride % L.size() == 0) stride++;
    for (size_t k = 0; k < tot; k += stride) { E64 e = T.zero(); size_t j = k; for (int i = 0; i < d; i++) { e.c[i] = L[j % L.size()]; j /= L.size(); } v.push_back(e); }
    for (int i = 0; i < d; i++) { for (u64 x = 1; x < T.p; x++) { E64 e = T.zero(); e.c[i] = x; v.push_back(e); } }
    E64 full = T.zero(); for (int i = 0; i < d; i++) full.c[i] = 1 + (i * 7 + 3) % (T.p - 1); v.push_back(full);
    return v;
}
// Frobenius: all powers 0..2d+1 of every element in A
template<class F> void frob(const T64 &T, const VE &A, unsigned sl, unsigned ns)
{
    int d = T.dim();
    for (size_t i = sl; i < A.size(); i += ns) {
        at("Frobenius dim %d p=%d a=%s", d, (int)T.p, A[i].s().c_str());
        F x = unflat<F>(A[i]); E64 w = A[i];
        state();
        for (int k = 0; k <= 2 * d + 1; k++) {
            E64 g = flat<u64>(x.Frobenius_map(k));
            VF_CHECK(g == w, "frobenius", "power %d of %s: got %s", k, A[i].s().c_str(), g.s().c_str());
            w = T.pow(w, mpz_class((unsigned long)T.p));
        }
        VF_CHECK(flat<u64>(x) == A[i], "operand", "modified");
    }
}
static mpz_class phi(u64 p, int k) { mpz_class q((unsigned long)p); if (k == 4) return q * q + 1; if (k == 6) return q * q - q + 1; return q * q * q * q - q * q + 1; }
// the cyclotomic subgroup as powers of a generator
static VE cyc(const T64 &T, const mpz_class &order)
{
    mpz_class e = (T.size() - 1) / order; u64 n = order.get_ui(); auto f = prime_factors_small(order);
    for (u64 k = 2;; k++) {
        E64 a = T.nth(k * T.p + k + 1, T.p); if (a.zero()) continue;
        E64 g = T.pow(a, e); bool ok = true; for (auto &q : f) if (T.pow(g, order / q) == T.one()) ok = false;
        if (!ok) continue;
        VE v; E64 x = T.one(); for (u64 i = 0; i < n; i++) { v.push_back(x); x = T.mul(x, g); }
        return v;
    }
}
template<mp_size_t k, class F> void cexp(const VE &C, size_t i, const F &x, const mpz_class &e)
{
    mpz_class ix = e * (unsigned long)i; ix %= (unsigned long)C.size();
    at("cyclotomic_exp n=%d base g^%zu e=%s", (int)k, i, e.get_str().c_str());
    E64 g = flat<u64>(x.cyclotomic_exp(B<k>(e)));
    VF_CHECK(g == C[ix.get_ui()], "cyclotomic_exp", "base %s e=%s (%d words) got %s", C[i].s().c_str(), e.get_str().c_str(), (int)k, g.s().c_str());
}
static std::vector<mpz_class> corner_exps(int bits)
{
    std::vector<mpz_class> v; mpz_class top = mpz_class(1) << bits;
    for (int i = 0; i < bits; i++) { mpz_class w = mpz_class(1) << i; for (mpz_class z : {w, mpz_class(w - 1), mpz_class(w + 1), mpz_class(3 * w), mpz_class(top - w), mpz_class(top - 1 - w), mpz_class(7 * w)}) if (z >= 0 && z < top) v.push_back(z); }
    v.push_back(top / 3); v.push_back(top / 3 * 2); v.push_back(top / 7 * 3); v.push_back(0);
    return v;
}
template<class F> void cyclo(const T64 &T, const mpz_class &order, unsigned sl, unsigned ns)
{
    VE C = cyc(T, order);
    u64 n = C.size(); int d = T.dim();
    sample("cyclotomic", "subgroup of order " + std::to_string(n) + " in degree " + std::to_string(d) + " over p=" + std::to_string(T.p));
    for (size_t i = sl; i < n; i += ns) {
        at("cyclotomic dim %d p=%d a=%s", d, (int)T.p, C[i].s().c_str()); state();
        F x = unflat<F>(C[i]);
        VF_CHECK(flat<u64>(x.cyclotomic_squared()) == C[2 * i % n], "cyclotomic_squared", "a=%s got %s", C[i].s().c_str(), flat<u64>(x.cyclotomic_squared()).s().c_str());
        VF_CHECK(flat<u64>(x.unitary_inverse()) == C[(n - i) % n], "unitary_inverse", "a=%s", C[i].s().c_str());
        VF_CHECK(flat<u64>(x.inverse()) == C[(n - i) % n], "inverse", "a=%s", C[i].s().c_str());
        unsigned lim = n < 400 ? 2 * n + 2 : 40;
        for (unsigned e = 0; e < lim; e++) cexp<1>(C, i, x, e);
        VF_CHECK(flat<u64>(x) == C[i], "operand", "modified");
        if (i <= 3 / lean(3) || i == n - 1 || (n < 400 && i % 8 == 0)) {
            for (auto &e : corner_exps(64)) cexp<1>(C, i, x, e);
            if (i == 1 || (i == n - 1 && lean(2) == 1)) {
                for (auto &e : corner_exps(128)) cexp<2>(C, i, x, e);
                for (auto &e : corner_exps(320)) if (thorough() || e % (5 * lean(3)) == 0) cexp<5>(C, i, x, e);
                // every 16-bit exponent
                unsigned top = thorough() ? 65536 : 4096 / lean(16);
                for (unsigned e = 0; e < top; e++) cexp<1>(C, i, x, e);
                for (unsigned e = 0; e < top; e += 3) cexp<1>(C, i, x, (mpz_class(1) << 64) - 1 - e);
            }
        }
    }
}
template<class F> void unit_inv(const T64 &T, unsigned sl, unsigned ns, u64 step)
{
    mpz_class order = ref::ipow(mpz_class((unsigned long)T.p), T.dim() / 2) + 1;
    VE C = cyc(T, order); u64 n = C.size();
    for (size_t i = sl * step; i < n; i += ns * step) { tick(); state(); F x = unflat<F>(C[i]); VF_CHECK(flat<u64>(x.unitary_inverse()) == C[(n - i) % n], "unitary_inverse", "a=%s", C[i].s().c_str()); }
}

template<int N> void tiny()
{
    typedef K<N> k; bool th = thorough();
    const unsigned ns = 4 * lean(3);
    for (u64 p : {3, 5, 7, 11, 13, 17, 31}) for (u64 beta : irreducible_binomials(p, 2)) {
        if (!unit("Fp2 | n=%d p=%d beta=%d", N, (int)p, (int)beta)) continue;
        k::base(p); T64 T = setup_fp2<typename k::F2>(p, beta); frob<typename k::F2>(T, all(T), 0, 1);
    }
    for (u64 p : {7, 13, 19, 31}) for (u64 beta : irreducible_binomials(p, 3)) {
        if (!unit("Fp3 | n=%d p=%d beta=%d", N, (int)p, (int)beta)) continue;
        k::base(p); T64 T = setup_fp3<typename k::F3>(p, beta); frob<typename k::F3>(T, p <= 13 || th ? all(T) : patterns(T, {0, 1, 2, p - 1}, 100), 0, 1);
    }
    for (u64 p : {5, 13, 17}) for (u64 beta : irreducible_binomials(p, 4)) {
        if (p == 17 && beta != 3 && !th) continue;
        for (unsigned sl = 0; sl < ns; sl++) {
            if (!unit("Fp4 | n=%d p=%d beta=%d slice %u", N, (int)p, (int)beta, sl)) continue;
            k::base(p); setup_fp2<typename k::F2>(p, beta); T64 T = setup_fp4<typename k::F4>(p, beta);
            VE A = p == 5 || (th && p == 13) ? all(T) : patterns(T, {0, 1, 2, p - 1}, 300);
            frob<typename k::F4>(T, A, sl, ns);
            cyclo<typename k::F4>(T, phi(p, 4), sl, ns);
            // sparse: other = (x, 0 | y, z)
            VE S; if (p == 5) { for (u64 x = 0; x < p; x++) for (u64 y = 0; y < p; y++) for (u64 z = 0; z < p; z++) S.push_back(ref::mk<u64>({x, 0, y, z})); }
            else for (u64 x : {(u64)0, (u64)1, (u64)2, p - 1}) for (u64 y : {(u64)0, (u64)1, (u64)3, p - 1}) for (u64 z : {(u64)0, (u64)1, (u64)5, p - 1}) S.push_back(ref::mk<u64>({x, 0, y, z}));
            for (size_t i = sl; i < A.size(); i += ns) for (auto &s : S) {
                tick(); state(); typedef typename k::F4 F;
                F r = unflat<F>(A[i]).mul_by_023(unflat<F>(s));
                VF_CHECK(flat<u64>(r) == T.mul(A[i], s), "mul_by_023", "a=%s b=%s got %s", A[i].s().c_str(), s.s().c_str(), flat<u64>(r).s().c_str());
            }
        }
    }
    for (u64 p : {7, 13}) for (u64 beta : irreducible_binomials(p, 6)) {
        for (unsigned sl = 0; sl < 2 * ns; sl++) {
            if (!unit("Fp6_2over3 | n=%d p=%d beta=%d slice %u", N, (int)p, (int)beta, sl)) continue;
            k::base(p); setup_fp2<typename k::F2>(p, beta); setup_fp3<typename k::F3>(p, beta); T64 T = setup_fp6_2over3<typename k::F6a>(p, beta);
            typedef typename k::F6a F;
            VE A = p == 7 && th ? all(T) : patterns(T, {0, 1, 2, p - 1}, 500);
            frob<F>(T, A, sl, 2 * ns);
            cyclo<F>(T, phi(p, 6), sl, 2 * ns);
            unit_inv<F>(T, sl, 2 * ns, 1);
            VE P = patterns(T, {0, 1, p - 1}, th ? 729 : 240), S;
            for (auto &e : patterns(ext(ext(tower_p(p), 2, e1(beta)), 2, ref::mk<u64>({0, 1})), {0, 1, 2, p - 1}, 256)) S.push_back(ref::mk<u64>({0, 0, e.c[0], e.c[1], e.c[2], e.c[3]}));
            for (size_t i = sl; i < P.size(); i += 2 * ns) for (auto &s : S) {
                tick(); state();
                F r = unflat<F>(P[i]).mul_by_2345(unflat<F>(s));
                VF_CHECK(flat<u64>(r) == T.mul(P[i], s), "mul_by_2345", "a=%s b=%s got %s", P[i].s().c_str(), s.s().c_str(), flat<u64>(r).s().c_str());
            }
        }
    }
    for (u64 p : {7, 13}) {
        auto bs = irreducible_binomials(p, 2);
        for (u64 beta : bs) {
            auto xs = irreducible_xi(p, beta, 6);
            for (size_t xi_i = 0; xi_i < xs.size(); xi_i++) {
                bool pick = (xi_i == 0 && beta == bs[0]) || (p == 7 && xi_i + 1 == xs.size() && beta == bs.back());
                if (!pick && !(th && p == 7 && xi_i % 3 == 1)) continue;
                E64 xi = xs[xi_i];
                for (unsigned sl = 0; sl < 2 * ns; sl++) {
                    if (!unit("Fp12 | n=%d p=%d beta=%d xi=%s slice %u", N, (int)p, (int)beta, xi.s().c_str(), sl)) continue;
                    k::base(p); T64 T2 = setup_fp2<typename k::F2>(p, beta); T64 T6 = setup_fp6_3over2<typename k::F6b>(p, beta, xi); T64 T = setup_fp12<typename k::F12>(p, beta, xi);
                    typedef typename k::F12 F; typedef typename k::F2 F2;
                    frob<typename k::F6b>(T6, patterns(T6, {0, 1, p - 1}, th ? 729 : 100), sl, 2 * ns);
                    frob<F>(T, patterns(T, {0, 1, p - 1}, th ? 4000 : 60), sl, 2 * ns);
                    if (p == 7) { cyclo<F>(T, phi(p, 12), sl, 2 * ns); unit_inv<F>(T, sl, 2 * ns, th ? 1 : 50); }
                    else if (th) cyclo<F>(T, phi(p, 12), sl, 2 * ns);
                    VE P = patterns(T, {0, 1, p - 1}, th ? 300 : 60), S2 = patterns(T2, {0, 1, p - 1}, 9);
                    if (!th) S2.resize(9);
                    for (size_t i = sl; i < P.size(); i += 2 * ns) for (auto &l0 : S2) for (auto &lw : S2) for (auto &lv : S2) {
                        tick(); state();
                        F x = unflat<F>(P[i]); F2 f0 = unflat<F2>(l0), fw = unflat<F2>(lw), fv = unflat<F2>(lv);
                        E64 s24 = T.zero(), s45 = T.zero();
                        for (int c = 0; c < 2; c++) { s24.c[c] = l0.c[c]; s24.c[4 + c] = lv.c[c]; s24.c[8 + c] = lw.c[c]; s45.c[c] = lw.c[c]; s45.c[8 + c] = l0.c[c]; s45.c[10 + c] = lv.c[c]; }
                        E64 g = flat<u64>(x.mul_by_024(f0, fw, fv));
                        VF_CHECK(g == T.mul(P[i], s24), "mul_by_024", "a=%s 0=%s W=%s V=%s got %s", P[i].s().c_str(), l0.s().c_str(), lw.s().c_str(), lv.s().c_str(), g.s().c_str());
                        g = flat<u64>(x.mul_by_045(f0, fw, fv));
                        VF_CHECK(g == T.mul(P[i], s45), "mul_by_045", "a=%s 0=%s W=%s V=%s got %s", P[i].s().c_str(), l0.s().c_str(), lw.s().c_str(), lv.s().c_str(), g.s().c_str());
                    }
                }
            }
        }
    }
}
// ---- shipped fields: real constants
typedef El<mpz_class> EZ;
template<class F> std::vector<F> real_elems(int d, const mpz_class &p, size_t cap)
{
    std::vector<F> v; mpz_class c = ref::mod(mpz_class("98765432109876543210987654321098765432109876543210987654321098765432109876543210987654321"), p);
    for (int i = 0; i < d; i++) { EZ e; e.d = d; e.c[i] = 1; v.push_back(unflat<F>(e)); e.c[i] = c; v.push_back(unflat<F>(e)); }
    EZ e; e.d = d; for (int i = 0; i < d; i++) e.c[i] = c + i * 17 + 1; v.push_back(unflat<F>(e));
    for (int i = 0; i < d; i++) e.c[i] = p - 1 - i; v.push_back(unflat<F>(e));
    EZ z; z.d = d; v.push_back(unflat<F>(z));
    if (v.size() > cap) v.erase(v.begin(), v.end() - cap);
    return v;
}
template<class F> void real_frob(const char *name, int d, const mpz_class &p)
{
    if (!unit("shipped Frobenius | %s", name)) return;
    for (auto &x : real_elems<F>(d, p, 27 / lean(5))) {
        at("%s Frobenius of %s", name, flat<mpz_class>(x).s().c_str()); state();
        F w = x;
        for (int k = 0; k <= 2 * d + 1; k++) { F g = x.Frobenius_map(k); VF_CHECK(g == w, "frobenius-shipped", "%s power %d of %s", name, k, flat<mpz_class>(x).s().c_str()); w = w ^ F::field_char(); tick(); }
    }
}
template<class F, mp_size_t nr> void real_cyc(const char *name, int d, const mpz_class &p, int k, const std::vector<mpz_class> &loops)
{
    for (int part = 0; part < 4; part++) {
        if (!unit("shipped cyclotomic | %s part %d", name, part)) continue;
        mpz_class ph = p * p + 1; if (k == 6) ph = p * p - p + 1; if (k == 12) ph = p * p * p * p - p * p + 1;
        mpz_class e = (ref::ipow(p, d) - 1) / ph;
        auto el = real_elems<F>(d, p, 6);
        std::vector<mpz_class> ex = loops;
        for (auto &z : corner_exps(64 * nr)) ex.push_back(z);
        int cnt = 0;
        for (auto &x0 : el) {
            if (x0.is_zero()) continue;
            if (cnt++ % 4 != part) continue;
            F x = x0 ^ B<14 * nr>(e);
            at("%s cyclotomic element", name); state();
            VF_CHECK(x.cyclotomic_squared() == x * x, "cyclotomic_squared-shipped", "%s", name);
            VF_CHECK(x.unitary_inverse() * x == F::one(), "unitary_inverse-shipped", "%s", name);
            size_t step = thorough() ? 1 : 37;
            for (size_t i = 0; i < ex.size(); i += i < loops.size() ? 1 : step) { at("%s cyclotomic_exp %s", name, ex[i].get_str().c_str()); bigint<nr> b = B<nr>(ex[i]); VF_CHECK(x.cyclotomic_exp(b) == (x ^ b), "cyclotomic_exp-shipped", "%s e=%s", name, ex[i].get_str().c_str()); }
        }
    }
}
VF_MAIN([]() {
    quiet();
    alt_bn128_pp::init_public_params(); bls12_381_pp::init_public_params(); edwards_pp::init_public_params();
    mnt4_pp::init_public_params(); mnt6_pp::init_public_params();
    tiny<1>();
    mpz_class pa = Z(alt_bn128_modulus_q), pb = Z(bls12_381_modulus_q), pe = Z(edwards_modulus_q), p4 = Z(mnt46_modulus_B), p6 = Z(mnt46_modulus_A);
    real_frob<alt_bn128_Fq2>("alt_bn128_Fq2", 2, pa); real_frob<alt_bn128_Fq6>("alt_bn128_Fq6", 6, pa); real_frob<alt_bn128_Fq12>("alt_bn128_Fq12", 12, pa);
    real_frob<bls12_381_Fq2>("bls12_381_Fq2", 2, pb); real_frob<bls12_381_Fq6>("bls12_381_Fq6", 6, pb); real_frob<bls12_381_Fq12>("bls12_381_Fq12", 12, pb);
    real_frob<edwards_Fq3>("edwards_Fq3", 3, pe); real_frob<edwards_Fq6>("edwards_Fq6", 6, pe);
    real_frob<mnt4_Fq2>("mnt4_Fq2", 2, p4); real_frob<mnt4_Fq4>("mnt4_Fq4", 4, p4);
    real_frob<mnt6_Fq3>("mnt6_Fq3", 3, p6); real_frob<mnt6_Fq6>("mnt6_Fq6", 6, p6);
    real_cyc<alt_bn128_Fq12, 4>("alt_bn128_Fq12", 12, pa, 12, {Z(alt_bn128_final_exponent_z), Z(alt_bn128_ate_loop_count), Z(alt_bn128_modulus_r)});
    real_cyc<bls12_381_Fq12, 4>("bls12_381_Fq12", 12, pb, 12, {Z(bls12_381_final_exponent_z), Z(bls12_381_ate_loop_count), Z(bls12_381_modulus_r)});
    real_cyc<edwards_Fq6, 3>("edwards_Fq6", 6, pe, 6, {Z(edwards_modulus_r), Z(edwards_final_exponent_last_chunk_abs_of_w0), Z(edwards_final_exponent_last_chunk_w1)});
    real_cyc<mnt4_Fq4, 5>("mnt4_Fq4", 4, p4, 4, {Z(mnt46_modulus_A), Z(mnt4_final_exponent_last_chunk_abs_of_w0), Z(mnt4_final_exponent_last_chunk_w1)});
    real_cyc<mnt6_Fq6, 5>("mnt6_Fq6", 6, p6, 6, {Z(mnt46_modulus_B), Z(mnt6_final_exponent_last_chunk_abs_of_w0), Z(mnt6_final_exponent_last_chunk_w1)});
})
