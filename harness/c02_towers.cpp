// C02: extension towers against schoolbook quotient rings.
#include "towers.hpp"
#include "gcdext_shim.hpp"
#include <libff/algebra/curves/alt_bn128/alt_bn128_pp.hpp>
#include <libff/algebra/curves/bls12_381/bls12_381_pp.hpp>
#include <libff/algebra/curves/edwards/edwards_pp.hpp>
#include <libff/algebra/curves/mnt/mnt4/mnt4_pp.hpp>
#include <libff/algebra/curves/mnt/mnt6/mnt6_pp.hpp>
using namespace libff;
using namespace vf;
typedef std::vector<E64> VE;

template<class Zt> bool eq(const El<Zt> &a, const El<Zt> &b) { return a == b; }

// ---- type-specific members
template<class F, class Zt> struct Extra { static void unary(const Tower<Zt> &, const El<Zt> &, const F &) {} };
template<mp_size_t n, const bigint<n> &m, class Zt> struct Extra<Fp2_model<n, m>, Zt> {
    static void unary(const Tower<Zt> &T, const El<Zt> &a, const Fp2_model<n, m> &x)
    {
        El<Zt> s = T.sqr(a);
        VF_CHECK(flat<Zt>(x.squared_karatsuba()) == s, "squared_karatsuba", "a=%s", a.s().c_str());
        VF_CHECK(flat<Zt>(x.squared_complex()) == s, "squared_complex", "a=%s", a.s().c_str());
    }
};
template<mp_size_t n, const bigint<n> &m, class Zt> struct Extra<Fp12_2over3over2_model<n, m>, Zt> {
    typedef Fp12_2over3over2_model<n, m> F;
    static void unary(const Tower<Zt> &T, const El<Zt> &a, const F &x)
    {
        El<Zt> s = T.sqr(a);
        VF_CHECK(flat<Zt>(x.squared_karatsuba()) == s, "squared_karatsuba", "a=%s", a.s().c_str());
        VF_CHECK(flat<Zt>(x.squared_complex()) == s, "squared_complex", "a=%s", a.s().c_str());
        Tower<Zt> S = T.sub();
        VF_CHECK(flat<Zt>(F::mul_by_non_residue(x.c1)) == S.mul(slice(a, 6, 6), T.lv.back().nr), "mul_by_non_residue", "a=%s", a.s().c_str());
    }
};
template<class F, class Zt> void nonres(const Tower<Zt> &T, const El<Zt> &a, const F &x)
{
    Tower<Zt> S = T.sub(); int d = S.dim();
    VF_CHECK(flat<Zt>(F::mul_by_non_residue(x.c1)) == S.mul(slice(a, d, d), T.lv.back().nr), "mul_by_non_residue", "a=%s", a.s().c_str());
    VF_CHECK(flat<Zt>(F::mul_by_non_residue(x.c0)) == S.mul(slice(a, 0, d), T.lv.back().nr), "mul_by_non_residue", "a=%s", a.s().c_str());
}
template<mp_size_t n, const bigint<n> &m, class Zt> struct Extra<Fp4_model<n, m>, Zt> { static void unary(const Tower<Zt> &T, const El<Zt> &a, const Fp4_model<n, m> &x) { nonres(T, a, x); } };
template<mp_size_t n, const bigint<n> &m, class Zt> struct Extra<Fp6_2over3_model<n, m>, Zt> { static void unary(const Tower<Zt> &T, const El<Zt> &a, const Fp6_2over3_model<n, m> &x) { nonres(T, a, x); } };
template<mp_size_t n, const bigint<n> &m, class Zt> struct Extra<Fp6_3over2_model<n, m>, Zt> { static void unary(const Tower<Zt> &T, const El<Zt> &a, const Fp6_3over2_model<n, m> &x) { nonres(T, a, x); } };

// scaling by a subfield element (dimension ds)
template<class S, class F, class Zt> void scale(const Tower<Zt> &T, int ds, const El<Zt> &s, const El<Zt> &a)
{
    at("scale by %s of %s", s.s().c_str(), a.s().c_str());
    state();
    El<Zt> emb = T.zero(); for (int i = 0; i < ds; i++) emb.c[i] = s.c[i];
    S fs = unflat<S>(s); F fa = unflat<F>(a);
    VF_CHECK(flat<Zt>(fs * fa) == T.mul(emb, a), "scale", "s=%s a=%s got %s", s.s().c_str(), a.s().c_str(), flat<Zt>(fs * fa).s().c_str());
    VF_CHECK(flat<Zt>(fs) == s && flat<Zt>(fa) == a, "operand", "modified");
}

template<class F, class Zt> struct X {
    Tower<Zt> T;
    mpz_class q;
    void start() { q = T.size(); }
    static void fl(const El<Zt> &a, const El<Zt> &b, const char *k, const F &got) { fail(k, "a=%s b=%s got %s", a.s().c_str(), b.s().c_str(), flat<Zt>(got).s().c_str()); }
    void mulonly(const El<Zt> &a, const El<Zt> &b, const F &x, const F &y)
    {
        tick(); state(); trans();
        F r = x * y;
        if (flat<Zt>(r) != T.mul(a, b)) fl(a, b, "mul", r);
    }
    void pair(const El<Zt> &a, const El<Zt> &b, const F &x, const F &y)
    {
        tick(); state(); trans(8);
        El<Zt> s = T.add(a, b), d = T.sub(a, b), m = T.mul(a, b);
        F r = x + y; if (flat<Zt>(r) != s) fl(a, b, "add", r);
        r = x - y; if (flat<Zt>(r) != d) fl(a, b, "sub", r);
        r = x * y; if (flat<Zt>(r) != m) fl(a, b, "mul", r);
        r = x; F *pr = &(r += y); if (pr != &r || flat<Zt>(r) != s) fl(a, b, "add=", r);
        r = x; pr = &(r -= y); if (pr != &r || flat<Zt>(r) != d) fl(a, b, "sub=", r);
        r = x; pr = &(r *= y); if (pr != &r || flat<Zt>(r) != m) fl(a, b, "mul=", r);
        bool e = a == b;
        if ((x == y) != e || (x != y) == e) fl(a, b, "eq", x);
        if (flat<Zt>(x) != a || flat<Zt>(y) != b) fl(a, b, "operand", x);
    }
    void unary(const El<Zt> &a)
    {
        at("dim %d p=%s a=%s", a.d, ref::str(T.p).c_str(), a.s().c_str());
        state(); trans(12);
        const F x = unflat<F>(a);
        El<Zt> s = T.sqr(a), z = T.zero();
        F r = x.squared(); if (flat<Zt>(r) != s) fl(a, a, "squared", r);
        r = x; F *pr = &r.square(); if (pr != &r || flat<Zt>(r) != s) fl(a, a, "square", r);
        r = x; r *= r; if (flat<Zt>(r) != s) fl(a, a, "mul-self", r);
        r = x; r += r; if (flat<Zt>(r) != T.add(a, a)) fl(a, a, "add-self", r);
        r = x; r -= r; if (flat<Zt>(r) != z || !r.is_zero()) fl(a, a, "sub-self", r);
        r = -x; if (flat<Zt>(r) != T.neg(a)) fl(a, a, "neg", r);
        r = x; r.clear(); if (flat<Zt>(r) != z) fl(a, a, "clear", r);
        if (x.is_zero() != a.zero()) fl(a, a, "zero?", x);
        F r2 = x; if (!(r2 == x) || (r2 != x)) fl(a, a, "eq-self", x);
        if (!a.zero()) {
            r = x.inverse();
            El<Zt> iv = flat<Zt>(r);
            if (T.mul(a, iv) != T.one()) fl(a, a, "inverse", r);
            F i2 = x; pr = &i2.invert(); if (pr != &i2 || flat<Zt>(i2) != iv) fl(a, a, "invert", i2);
        }
        Extra<F, Zt>::unary(T, a, x);
        if (flat<Zt>(x) != a) fl(a, a, "operand", x);
    }
    template<mp_size_t k> void pw(const El<Zt> &a, const F &x, const mpz_class &e)
    {
        trans(2);
        El<Zt> w = T.pow(a, e); F r = x ^ B<k>(e);
        if (flat<Zt>(r) != w) fail("pow-big", "a=%s e=%s got %s", a.s().c_str(), e.get_str().c_str(), flat<Zt>(r).s().c_str());
        r = x; r ^= B<k>(e);
        if (flat<Zt>(r) != w) fail("pow=big", "a=%s e=%s got %s", a.s().c_str(), e.get_str().c_str(), flat<Zt>(r).s().c_str());
    }
    void powers(const El<Zt> &a)
    {
        at("pow dim %d p=%s a=%s", a.d, ref::str(T.p).c_str(), a.s().c_str());
        const F x = unflat<F>(a);
        El<Zt> w = T.one();
        for (unsigned long e = 0; e < 20; e++) {
            trans(2);
            F r = x ^ e; if (flat<Zt>(r) != w) fail("pow-ulong", "a=%s e=%lu got %s", a.s().c_str(), e, flat<Zt>(r).s().c_str());
            r = x; r ^= e; if (flat<Zt>(r) != w) fail("pow=ulong", "a=%s e=%lu got %s", a.s().c_str(), e, flat<Zt>(r).s().c_str());
            w = T.mul(w, a);
        }
        for (unsigned long e : {1ul << 63, ~0ul, (1ul << 32) + 1, 0xf0f0f0f0f0f0f0f0ul}) { trans(); F r = x ^ e; if (flat<Zt>(r) != T.pow(a, mpz_class(e))) fail("pow-ulong", "a=%s e=%lu", a.s().c_str(), e); }
        pw<1>(a, x, 0); pw<1>(a, x, mpz_class("18446744073709551615"));
        pw<2>(a, x, mpz_class(1) << 64); pw<2>(a, x, (mpz_class(1) << 128) - 1); pw<3>(a, x, (mpz_class(1) << 130) + 5);
        if (mpz_sizeinbase(q.get_mpz_t(), 2) <= 64) { pw<1>(a, x, q - 1); pw<1>(a, x, q - 2); pw<1>(a, x, q); }
    }
    void consts()
    {
        VF_CHECK(flat<Zt>(F::zero()) == T.zero() && F::zero().is_zero(), "zero", "zero()");
        VF_CHECK(flat<Zt>(F::one()) == T.one(), "one", "one()");
        VF_CHECK((int)F::extension_degree() == T.dim(), "degree", "%d", (int)F::extension_degree());
    }
};

// structured elements: every coefficient pattern over the given letters (capped by a stride)
static VE patterns(const T64 &T, const std::vector<u64> &letters, size_t cap)
{
    VE v; int d = T.dim(); size_t tot = 1; for (int i = 0; i < d; i++) tot *= letters.size();
    size_t stride = tot <= cap ? 1 : tot / cap;
    if (stride > 1 && stride % letters.size() == 0) stride++;
    for (size_t k = 0; k < tot; k += stride) { E64 e = T.zero(); size_t j = k; for (int i = 0; i < d; i++) { e.c[i] = letters[j % letters.size()]; j /= letters.size(); } v.push_back(e); }
    // always: all elements with at most two non-zero coefficients
    for (int i = 0; i < d; i++) for (u64 x : letters) { E64 e = T.zero(); e.c[i] = x; v.push_back(e); for (int j = i + 1; j < d; j++) for (u64 y : letters) { E64 f = e; f.c[j] = y; if (x && y) v.push_back(f); } }
    E64 full = T.zero(); for (int i = 0; i < d; i++) full.c[i] = 1 + (i * 7 + 3) % (T.p - 1); v.push_back(full);
    return v;
}
static VE all(const T64 &T) { VE v; mpz_class q = T.size(); u64 n = q.get_ui(); for (u64 i = 0; i < n; i++) v.push_back(T.nth(i, T.p)); return v; }

template<class F> void explore(const std::function<T64()> &setup, const char *name, u64 p, const VE &A, const VE &Bv, unsigned slices, bool full, const std::function<void(const T64 &, const E64 &)> &more, bool second_all)
{
    for (unsigned sl = 0; sl < slices; sl++) {
        if (!unit("%s | slice %u of %u", name, sl, slices)) continue;
        X<F, u64> x; x.T = setup(); x.start();
        sample(name, "first operands " + std::to_string(A.size()) + ", second operands " + std::to_string(Bv.size()) + " over p=" + std::to_string(p) + ", e.g. " + A.back().s());
        if (sl == 0) x.consts();
        std::vector<F> fb; for (auto &b : Bv) fb.push_back(unflat<F>(b));
        for (size_t i = 0; i < A.size(); i++) {
            if (i % slices != sl) continue;
            x.unary(A[i]);
            if (i < 100 || i % 16 == 0) x.powers(A[i]);
            if (more) more(x.T, A[i]);
            F fa = unflat<F>(A[i]);
            at("%s pair with a=%s", name, A[i].s().c_str());
            for (size_t j = 0; j < Bv.size(); j++) { if (full) x.pair(A[i], Bv[j], fa, fb[j]); else x.mulonly(A[i], Bv[j], fa, fb[j]); }
        }
        // structured second operands got unary checks too
        if (second_all) for (size_t i = sl; i < Bv.size(); i += slices) x.unary(Bv[i]);
    }
}

template<int N> struct K {
    typedef Fp_model<N, M<N>::m> Fp; typedef Fp2_model<N, M<N>::m> F2; typedef Fp3_model<N, M<N>::m> F3; typedef Fp4_model<N, M<N>::m> F4;
    typedef Fp6_2over3_model<N, M<N>::m> F6a; typedef Fp6_3over2_model<N, M<N>::m> F6b; typedef Fp12_2over3over2_model<N, M<N>::m> F12;
    static void base(u64 p) { setup_fp<Fp, N>(M<N>::m, mpz_class((unsigned long)p)); }
};
typedef K<1> T1;

static std::vector<u64> letters(u64 p) { std::vector<u64> l = {0, 1, p - 1}; return l; }

template<int N> void tiny_towers()
{
    typedef K<N> T1;
    char nm[200];
    bool th = thorough();
    // Fp2: every prime, every non-residue, all pairs
    for (u64 p : {3, 5, 7, 11, 13, 17, 19}) {
        if (N > 1 && p > 7) continue;
        if (p > 13 && !th) continue;
        for (u64 beta : irreducible_binomials(p, 2)) {
            auto setup = [=]() { T1::base(p); return setup_fp2<typename T1::F2>(p, beta); };
            T64 T = ext(tower_p(p), 2, e1(beta));
            VE A = all(T);
            snprintf(nm, 200, "Fp2 n=%d p=%d beta=%d", N, (int)p, (int)beta);
            explore<typename T1::F2>(setup, nm, p, A, A, 1, true, [p](const T64 &T, const E64 &a) { for (u64 s = 0; s < p; s++) scale<typename T1::Fp, typename T1::F2>(T, 1, e1(s), a); }, false);
        }
    }
    // Fp3
    for (u64 p : {7, 13, 19}) {
        if (N > 1 && p > 7) continue;
        if (p > 7 && !th && p != 13) continue;
        auto bs = irreducible_binomials(p, 3);
        for (u64 beta : bs) {
            if (p > 7 && beta != bs[0] && beta != bs.back()) continue;
            auto setup = [=]() { T1::base(p); return setup_fp3<typename T1::F3>(p, beta); };
            T64 T = ext(tower_p(p), 3, e1(beta));
            VE A = all(T), Bv = p == 7 && (N == 1 || th) ? A : patterns(T, letters(p), 10000);
            snprintf(nm, 200, "Fp3 n=%d p=%d beta=%d", N, (int)p, (int)beta);
            explore<typename T1::F3>(setup, nm, p, A, Bv, 4, true, [p](const T64 &T, const E64 &a) { for (u64 s = 0; s < p; s++) scale<typename T1::Fp, typename T1::F3>(T, 1, e1(s), a); }, false);
        }
    }
    // Fp4
    for (u64 p : {5, 13}) {
        if (N > 1 && p > 5) continue;
        auto bs = irreducible_binomials(p, 4);
        for (u64 beta : bs) {
            if (p > 5 && beta != bs[0] && !th) continue;
            auto setup = [=]() { T1::base(p); setup_fp2<typename T1::F2>(p, beta); return setup_fp4<typename T1::F4>(p, beta); };
            T64 T = ext(ext(tower_p(p), 2, e1(beta)), 2, ref::mk<u64>({0, 1})), T2 = T.sub();
            VE A = p == 5 ? all(T) : patterns(T, {0, 1, 2, 5, p - 1}, 700), Bv = p == 5 && (N == 1 || th) ? A : patterns(T, letters(p), 100);
            VE S2 = p == 5 ? all(T2) : patterns(T2, letters(p), 100);
            snprintf(nm, 200, "Fp4 n=%d p=%d beta=%d", N, (int)p, (int)beta);
            explore<typename T1::F4>(setup, nm, p, A, Bv, 4, true, [=](const T64 &T, const E64 &a) {
                for (u64 s = 0; s < p; s++) scale<typename T1::Fp, typename T1::F4>(T, 1, e1(s), a);
                for (auto &s : S2) scale<typename T1::F2, typename T1::F4>(T, 2, s, a);
            }, false);
        }
    }
    // Fp6 = (Fp3)^2
    for (u64 p : {7, 13}) {
        if (N > 1 && p > 7) continue;
        auto bs = irreducible_binomials(p, 6);
        for (u64 beta : bs) {
            if (p > 7 && beta != bs[0] && !th) continue;
            auto setup = [=]() { T1::base(p); setup_fp3<typename T1::F3>(p, beta); return setup_fp6_2over3<typename T1::F6a>(p, beta); };
            T64 T = ext(ext(tower_p(p), 3, e1(beta)), 2, ref::mk<u64>({0, 1, 0}));
            bool big = p == 7 && N == 1 && th;
            VE A = big ? all(T) : patterns(T, {0, 1, 2, 3, p - 1}, N == 1 ? (th ? 1600 : 500) : 200), Bv = patterns(T, letters(p), N == 1 ? (th ? 729 : 300) : 60);
            snprintf(nm, 200, "Fp6_2over3 n=%d p=%d beta=%d", N, (int)p, (int)beta);
            explore<typename T1::F6a>(setup, nm, p, A, Bv, 8, !big, [=](const T64 &T, const E64 &a) { for (u64 s = 0; s < p; s++) scale<typename T1::Fp, typename T1::F6a>(T, 1, e1(s), a); }, true);
        }
    }
    // Fp6 = (Fp2)^3 and Fp12
    for (u64 p : {5, 7}) {
        if (N > 1 && p > 5) continue;
        auto b2 = irreducible_binomials(p, 2);
        for (u64 beta : b2) {
            auto xs = irreducible_xi(p, beta, 3);
            for (size_t xi_i = 0; xi_i < xs.size(); xi_i++) {
                if (!th && !(xi_i == 0 && beta == b2[0]) && !(xi_i + 1 == xs.size() && beta == b2.back())) continue;
                E64 xi = xs[xi_i];
                auto setup = [=]() { T1::base(p); setup_fp2<typename T1::F2>(p, beta); return setup_fp6_3over2<typename T1::F6b>(p, beta, xi); };
                T64 T2 = ext(tower_p(p), 2, e1(beta)), T = ext(T2, 3, xi);
                bool big = p == 5 && N == 1 && xi_i == 0 && th;
                VE A = big ? all(T) : patterns(T, letters(p), N == 1 ? 729 : 120), Bv = patterns(T, letters(p), N == 1 ? (th ? 729 : 250) : 60), S2 = th ? all(T2) : patterns(T2, letters(p), 100);
                snprintf(nm, 200, "Fp6_3over2 n=%d p=%d beta=%d xi=%s", N, (int)p, (int)beta, xi.s().c_str());
                explore<typename T1::F6b>(setup, nm, p, A, Bv, 2, !big, [=](const T64 &T, const E64 &a) {
                    for (u64 s = 0; s < p; s++) scale<typename T1::Fp, typename T1::F6b>(T, 1, e1(s), a);
                    for (auto &s : S2) scale<typename T1::F2, typename T1::F6b>(T, 2, s, a);
                }, true);
            }
            auto xs12 = irreducible_xi(p, beta, 6);
            for (size_t i = 0; i < xs12.size(); i++) {
                if (!th && !(i == 0 && beta == b2[0]) && !(i + 1 == xs12.size() && beta == b2.back() && p == 7)) continue;
                E64 xi = xs12[i];
                auto setup = [=]() { T1::base(p); setup_fp2<typename T1::F2>(p, beta); setup_fp6_3over2<typename T1::F6b>(p, beta, xi); return setup_fp12<typename T1::F12>(p, beta, xi); };
                T64 T2 = ext(tower_p(p), 2, e1(beta)), T6 = ext(T2, 3, xi), T = ext(T6, 2, ref::mk<u64>({0, 0, 1, 0, 0, 0}));
                VE A = patterns(T, {0, 1, p - 1}, N == 1 ? (th ? 600 : 300) : 60), Bv = patterns(T, {0, 1}, N == 1 && th ? 256 : 32), S2 = patterns(T2, letters(p), 100), S6 = patterns(T6, letters(p), 20);
                for (auto &e : patterns(T, {0, 1}, th ? 4096 : N == 1 ? 128 : 8)) A.push_back(e);
                snprintf(nm, 200, "Fp12 n=%d p=%d beta=%d xi=%s", N, (int)p, (int)beta, xi.s().c_str());
                explore<typename T1::F12>(setup, nm, p, A, Bv, 8, true, [=](const T64 &T, const E64 &a) {
                    for (u64 s = 0; s < p; s++) scale<typename T1::Fp, typename T1::F12>(T, 1, e1(s), a);
                    for (auto &s : S2) scale<typename T1::F2, typename T1::F12>(T, 2, s, a);
                    for (size_t k = 0; k < S6.size(); k += 5) scale<typename T1::F6b, typename T1::F12>(T, 6, S6[k], a);
                }, true);
            }
        }
    }
}

// ---- shipped fields over corner elements
typedef El<mpz_class> EZ; typedef Tower<mpz_class> TZ;
template<class F> void shipped(const char *name, const TZ &T0, unsigned slices, size_t na, size_t nb)
{
    for (unsigned sl = 0; sl < slices; sl++) {
        if (!unit("shipped %s | slice %u", name, sl)) continue;
        X<F, mpz_class> x; x.T = T0; x.start();
        if (sl == 0) x.consts();
        mpz_class p = T0.p; int d = T0.dim();
        mpz_class mid = ref::mod(mpz_class("123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890"), p);
        std::vector<mpz_class> L = {0, 1, p - 1, mid};
        std::vector<EZ> A;
        auto add = [&](const std::function<int(int)> &f) { EZ e = T0.zero(); for (int i = 0; i < d; i++) e.c[i] = L[f(i)]; A.push_back(e); };
        size_t tot = 1; for (int i = 0; i < d; i++) { tot *= 4; if (tot > (1u << 24)) break; }
        size_t stride = std::max<size_t>(1, tot / na); if (stride > 1) stride |= 1;
        for (size_t k = 0; k < tot; k += stride) add([&](int i) { return (int)((k >> (2 * i)) & 3); });
        for (int i = 0; i < d; i++) for (int c = 1; c < 4; c++) { add([&](int j) { return j == i ? c : 0; }); add([&](int j) { return j == i ? 0 : c; }); }
        add([](int j) { return 1 + j % 3; });
        std::vector<EZ> Bv; size_t sb = std::max<size_t>(1, A.size() / nb); for (size_t i = 0; i < A.size(); i += sb) Bv.push_back(A[i]);
        std::vector<F> fb; for (auto &b : Bv) fb.push_back(unflat<F>(b));
        if (sl == 0) sample(name, std::to_string(A.size()) + " x " + std::to_string(Bv.size()) + " elements, coefficients from {0,1,p-1,c}");
        for (size_t i = sl; i < A.size(); i += slices) {
            x.unary(A[i]);
            if (i % 8 == 0) { F fx = unflat<F>(A[i]); x.template pw<1>(A[i], fx, mpz_class("18446744073709551615")); }
            F fa = unflat<F>(A[i]); at("%s pair a=%s", name, A[i].s().c_str());
            for (size_t j = 0; j < Bv.size(); j++) x.pair(A[i], Bv[j], fa, fb[j]);
        }
    }
}
template<class F2> TZ tz2(const mpz_class &p) { TZ T; T.p = p; ref::Level<mpz_class> l; l.deg = 2; l.nr = flat<mpz_class>(F2::non_residue); T.lv.push_back(l); return T; }
template<class F3> TZ tz3(const mpz_class &p) { TZ T; T.p = p; ref::Level<mpz_class> l; l.deg = 3; l.nr = flat<mpz_class>(F3::non_residue); T.lv.push_back(l); return T; }
static TZ ez(TZ T, int deg, const EZ &nr) { ref::Level<mpz_class> l; l.deg = deg; l.nr = nr; T.lv.push_back(l); return T; }
static EZ unitz(int d, int i) { EZ e; e.d = d; e.c[i] = 1; return e; }

VF_MAIN([]() {
    quiet();
    alt_bn128_pp::init_public_params(); bls12_381_pp::init_public_params(); edwards_pp::init_public_params();
    mnt4_pp::init_public_params(); mnt6_pp::init_public_params();
    tiny_towers<1>();
    tiny_towers<4>();
    if (thorough()) { tiny_towers<3>(); tiny_towers<5>(); tiny_towers<6>(); }
    size_t k = thorough() ? 6 : 1;
    { mpz_class p = Z(alt_bn128_modulus_q); TZ T2 = tz2<alt_bn128_Fq2>(p); TZ T6 = ez(T2, 3, flat<mpz_class>(alt_bn128_Fq6::non_residue)); TZ T12 = ez(T6, 2, unitz(6, 2));
      shipped<alt_bn128_Fq2>("alt_bn128_Fq2", T2, 1, 16, 16); shipped<alt_bn128_Fq6>("alt_bn128_Fq6", T6, 2, 200 * k, 40); shipped<alt_bn128_Fq12>("alt_bn128_Fq12", T12, 4, 250 * k, 25 * k); }
    { mpz_class p = Z(bls12_381_modulus_q); TZ T2 = tz2<bls12_381_Fq2>(p); TZ T6 = ez(T2, 3, flat<mpz_class>(bls12_381_Fq6::non_residue)); TZ T12 = ez(T6, 2, unitz(6, 2));
      shipped<bls12_381_Fq2>("bls12_381_Fq2", T2, 1, 16, 16); shipped<bls12_381_Fq6>("bls12_381_Fq6", T6, 2, 200 * k, 40); shipped<bls12_381_Fq12>("bls12_381_Fq12", T12, 4, 250 * k, 25 * k); }
    { mpz_class p = Z(edwards_modulus_q); TZ T3 = tz3<edwards_Fq3>(p); TZ T6 = ez(T3, 2, unitz(3, 1));
      shipped<edwards_Fq3>("edwards_Fq3", T3, 1, 64, 64); shipped<edwards_Fq6>("edwards_Fq6", T6, 4, 400 * k, 60 * k); }
    { mpz_class p = Z(mnt46_modulus_B); TZ T2 = tz2<mnt4_Fq2>(p); TZ T4 = ez(T2, 2, unitz(2, 1));
      shipped<mnt4_Fq2>("mnt4_Fq2", T2, 1, 16, 16); shipped<mnt4_Fq4>("mnt4_Fq4", T4, 2, 256, 80 * k); }
    { mpz_class p = Z(mnt46_modulus_A); TZ T3 = tz3<mnt6_Fq3>(p); TZ T6 = ez(T3, 2, unitz(3, 1));
      shipped<mnt6_Fq3>("mnt6_Fq3", T3, 1, 64, 64); shipped<mnt6_Fq6>("mnt6_Fq6", T6, 4, 400 * k, 60 * k); }
})
