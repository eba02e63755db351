// Bridges between libff values and the reference arithmetic, and run-time parameter set-up.
#pragma once
#include <cmath>
#include "vf.hpp"
#include "ref.hpp"
#include <libff/algebra/field_utils/bigint.hpp>
#include <libff/algebra/fields/prime_base/fp.hpp>
#include <libff/algebra/fields/prime_extension/fp2.hpp>
#include <libff/algebra/fields/prime_extension/fp3.hpp>
#include <libff/algebra/fields/prime_extension/fp4.hpp>
#include <libff/algebra/fields/prime_extension/fp6_2over3.hpp>
#include <libff/algebra/fields/prime_extension/fp6_3over2.hpp>
#include <libff/algebra/fields/prime_extension/fp12_2over3over2.hpp>
#include <libff/common/profiling.hpp>

using ref::u64;
using ref::El;
using ref::Tower;
using libff::bigint;

template<mp_size_t n> mpz_class Z(const bigint<n> &b) { mpz_class r; mpz_import(r.get_mpz_t(), n, -1, sizeof(mp_limb_t), 0, 0, b.data); return r; }
template<mp_size_t n> bigint<n> B(const mpz_class &z)
{
    bigint<n> b;
    for (int i = 0; i < n; i++) b.data[i] = 0;
    mp_limb_t tmp[128] = {0};
    if (mpz_sizeinbase(z.get_mpz_t(), 2) > 64ul * n) { fprintf(stderr, "B: overflow\n"); abort(); }
    mpz_export(tmp, nullptr, -1, sizeof(mp_limb_t), 0, 0, z.get_mpz_t());
    for (int i = 0; i < n; i++) b.data[i] = tmp[i];
    return b;
}
inline void quiet() { libff::inhibit_profiling_info = true; libff::inhibit_profiling_counters = true; }

// ---- values
const u64 POISON = ~0ull; // never a residue
template<mp_size_t n, const bigint<n> &m> bool canonical(const libff::Fp_model<n, m> &x)
{
    for (int i = n - 1; i >= 0; i--) { if (x.mont_repr.data[i] < m.data[i]) return true; if (x.mont_repr.data[i] > m.data[i]) return false; }
    return false;
}
template<mp_size_t n, const bigint<n> &m> void val(const libff::Fp_model<n, m> &x, u64 &out)
{
    bigint<n> b = x.as_bigint();
    out = b.data[0];
    for (int i = 1; i < n; i++) if (b.data[i]) out = POISON;
    if (!canonical(x)) out = POISON;
}
template<mp_size_t n, const bigint<n> &m> void val(const libff::Fp_model<n, m> &x, mpz_class &out)
{
    out = Z(x.as_bigint());
    if (!canonical(x)) out = -1;
}
template<class Zt, mp_size_t n, const bigint<n> &m> void put(El<Zt> &e, const libff::Fp_model<n, m> &x) { val(x, e.c[e.d++]); }
template<class Zt, mp_size_t n, const bigint<n> &m> void put(El<Zt> &e, const libff::Fp2_model<n, m> &x) { put(e, x.c0); put(e, x.c1); }
template<class Zt, mp_size_t n, const bigint<n> &m> void put(El<Zt> &e, const libff::Fp3_model<n, m> &x) { put(e, x.c0); put(e, x.c1); put(e, x.c2); }
template<class Zt, mp_size_t n, const bigint<n> &m> void put(El<Zt> &e, const libff::Fp4_model<n, m> &x) { put(e, x.c0); put(e, x.c1); }
template<class Zt, mp_size_t n, const bigint<n> &m> void put(El<Zt> &e, const libff::Fp6_2over3_model<n, m> &x) { put(e, x.c0); put(e, x.c1); }
template<class Zt, mp_size_t n, const bigint<n> &m> void put(El<Zt> &e, const libff::Fp6_3over2_model<n, m> &x) { put(e, x.c0); put(e, x.c1); put(e, x.c2); }
template<class Zt, mp_size_t n, const bigint<n> &m> void put(El<Zt> &e, const libff::Fp12_2over3over2_model<n, m> &x) { put(e, x.c0); put(e, x.c1); }
template<class Zt, class F> El<Zt> flat(const F &x) { El<Zt> e; put(e, x); return e; }

inline mpz_class tomp(u64 v) { return mpz_class((unsigned long)v); }
inline const mpz_class &tomp(const mpz_class &v) { return v; }
// Montgomery image computed by GMP, so that construction does not depend on the code under test
template<mp_size_t n, const bigint<n> &m> void mont_set(libff::Fp_model<n, m> &x, const mpz_class &v)
{
    mpz_class p = Z(m), r = ref::mod(v << (64 * n), p);
    x.mont_repr = B<n>(r);
}
// cached small images for u64 work
template<mp_size_t n, const bigint<n> &m> void mont_set(libff::Fp_model<n, m> &x, u64 v)
{
    static std::vector<bigint<n>> cache; static bigint<n> cp; 
    bool same = true; for (int i = 0; i < n; i++) same = same && cp.data[i] == m.data[i];
    if (!same) { cache.clear(); cp = m; }
    if (v < 200000) {
        while (cache.size() <= v) { cache.push_back(B<n>(ref::mod(mpz_class((unsigned long)cache.size()) << (64 * n), Z(m)))); }
        x.mont_repr = cache[v];
    } else mont_set(x, mpz_class((unsigned long)v));
}
template<class Zt, mp_size_t n, const bigint<n> &m> void take(const El<Zt> &e, int &i, libff::Fp_model<n, m> &x) { mont_set(x, e.c[i++]); }
template<class Zt, mp_size_t n, const bigint<n> &m> void take(const El<Zt> &e, int &i, libff::Fp2_model<n, m> &x) { take(e, i, x.c0); take(e, i, x.c1); }
template<class Zt, mp_size_t n, const bigint<n> &m> void take(const El<Zt> &e, int &i, libff::Fp3_model<n, m> &x) { take(e, i, x.c0); take(e, i, x.c1); take(e, i, x.c2); }
template<class Zt, mp_size_t n, const bigint<n> &m> void take(const El<Zt> &e, int &i, libff::Fp4_model<n, m> &x) { take(e, i, x.c0); take(e, i, x.c1); }
template<class Zt, mp_size_t n, const bigint<n> &m> void take(const El<Zt> &e, int &i, libff::Fp6_2over3_model<n, m> &x) { take(e, i, x.c0); take(e, i, x.c1); }
template<class Zt, mp_size_t n, const bigint<n> &m> void take(const El<Zt> &e, int &i, libff::Fp6_3over2_model<n, m> &x) { take(e, i, x.c0); take(e, i, x.c1); take(e, i, x.c2); }
template<class Zt, mp_size_t n, const bigint<n> &m> void take(const El<Zt> &e, int &i, libff::Fp12_2over3over2_model<n, m> &x) { take(e, i, x.c0); take(e, i, x.c1); }
template<class F, class Zt> F unflat(const El<Zt> &e) { F x; int i = 0; take(e, i, x); return x; }
template<class F, class Zt> F mkf(const Zt &v) { F x; mont_set(x, v); return x; }

// ---- parameters
inline std::vector<mpz_class> prime_factors_small(mpz_class v)
{
    std::vector<mpz_class> f;
    for (mpz_class d = 2; d * d <= v; d++) if (v % d == 0) { f.push_back(d); while (v % d == 0) v /= d; }
    if (v > 1) f.push_back(v);
    return f;
}
// Montgomery constants only: legal for any odd modulus
template<class Fp, mp_size_t n> void setup_modulus(bigint<n> &mref, const mpz_class &p)
{
    mref = B<n>(p);
    Fp::num_bits = mpz_sizeinbase(p.get_mpz_t(), 2);
    Fp::Rsquared = B<n>(ref::mod(mpz_class(1) << (128 * n), p));
    Fp::Rcubed = B<n>(ref::mod(mpz_class(1) << (192 * n), p));
    mpz_class W = mpz_class(1) << 64;
    mpz_class iv = ref::mod(W - ref::inv(p, W), W);
    Fp::inv = B<1>(iv).data[0];
    Fp::euler = B<n>((p - 1) / 2);
}
// all constants; p prime. which = use the which-th quadratic non-residue; gen = multiplicative generator (0: search, small p)
template<class Fp, mp_size_t n> void setup_fp(bigint<n> &mref, const mpz_class &p, int which = 0, mpz_class gen = 0)
{
    setup_modulus<Fp, n>(mref, p);
    mpz_class t = p - 1; size_t s = 0;
    while (t % 2 == 0) { t /= 2; s++; }
    Fp::s = s; Fp::t = B<n>(t); Fp::t_minus_1_over_2 = B<n>((t - 1) / 2);
    mpz_class nqr = 2;
    for (;; nqr++) if (nqr < p && mpz_jacobi(nqr.get_mpz_t(), p.get_mpz_t()) == -1 && which-- <= 0) break;
    Fp::nqr = mkf<Fp>(nqr); Fp::nqr_to_t = mkf<Fp>(ref::powm(nqr, t, p));
    if (gen == 0) {
        auto f = prime_factors_small(p - 1);
        for (gen = 2;; gen++) { if (p == 3) break; bool ok = true; for (auto &q : f) if (ref::powm(gen, (p - 1) / q, p) == 1) ok = false; if (ok) break; }
    }
    Fp::multiplicative_generator = mkf<Fp>(ref::mod(gen, p));
    Fp::root_of_unity = mkf<Fp>(ref::powm(gen, t, p));
}
// two-adic constants of an extension field F described by tower T
template<class F, class Zt> El<Zt> setup_2adic(const Tower<Zt> &T, u64 smallp, int which = 0)
{
    mpz_class q = T.size(), t = q - 1; size_t s = 0;
    while (t % 2 == 0) { t /= 2; s++; }
    F::s = s;
    F::euler = B<sizeof(F::euler) / sizeof(mp_limb_t)>((q - 1) / 2);
    F::t = B<sizeof(F::t) / sizeof(mp_limb_t)>(t);
    F::t_minus_1_over_2 = B<sizeof(F::t) / sizeof(mp_limb_t)>((t - 1) / 2);
    while (std::pow((double)smallp, T.dim()) > 1e18) smallp /= 2;   // digits used for the scan only
    u64 first = 1; for (int i = 1; i < T.dim(); i++) first *= smallp;
    for (u64 k = first;; k++) {   // elements outside every proper subfield come first
        El<Zt> e = T.nth(k, smallp);
        if (e.zero() || T.is_square(e)) continue;
        if (which-- > 0) continue;
        F::nqr = unflat<F>(e); F::nqr_to_t = unflat<F>(T.pow(e, t));
        return e;
    }
}
