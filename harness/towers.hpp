// Run-time re-parameterisation of libff's extension towers over tiny primes.
#pragma once
#include "bind.hpp"
typedef Tower<u64> T64;
typedef El<u64> E64;

template<int N> struct M { static bigint<N> m; };
template<int N> bigint<N> M<N>::m;

inline T64 tower_p(u64 p) { T64 t; t.p = p; return t; }
inline T64 ext(const T64 &t, int deg, const E64 &nr) { T64 r = t; ref::Level<u64> l; l.deg = deg; l.nr = nr; r.lv.push_back(l); return r; }
inline E64 e1(u64 v) { E64 e; e.d = 1; e.c[0] = v; return e; }
inline u64 powmod(u64 b, mpz_class e, u64 p) { return mpz_class(ref::powm(mpz_class((unsigned long)b), e, mpz_class((unsigned long)p))).get_ui(); }
// x in K is a k-th power?
inline bool is_kth_power(const T64 &T, const E64 &x, unsigned k) { mpz_class q1 = T.size() - 1, g; mpz_gcd_ui(g.get_mpz_t(), q1.get_mpz_t(), k); return T.pow(x, q1 / g) == T.one(); }
inline mpz_class frob_e(u64 p, int i, int k) { return (ref::ipow(mpz_class((unsigned long)p), i) - 1) / k; }

template<class F2> T64 setup_fp2(u64 p, u64 beta, int which = 0)
{
    T64 T = ext(tower_p(p), 2, e1(beta));
    F2::non_residue = mkf<typename F2::my_Fp>(beta);
    for (int i = 0; i < 2; i++) F2::Frobenius_coeffs_c1[i] = mkf<typename F2::my_Fp>(powmod(beta, frob_e(p, i, 2), p));
    setup_2adic<F2>(T, p, which);
    return T;
}
template<class F3> T64 setup_fp3(u64 p, u64 beta, int which = 0)
{
    T64 T = ext(tower_p(p), 3, e1(beta));
    F3::non_residue = mkf<typename F3::my_Fp>(beta);
    for (int i = 0; i < 3; i++) {
        F3::Frobenius_coeffs_c1[i] = mkf<typename F3::my_Fp>(powmod(beta, frob_e(p, i, 3), p));
        F3::Frobenius_coeffs_c2[i] = mkf<typename F3::my_Fp>(powmod(beta, 2 * frob_e(p, i, 3), p));
    }
    setup_2adic<F3>(T, p, which);
    return T;
}
template<class F4> T64 setup_fp4(u64 p, u64 beta, int which = 0)
{
    T64 T = ext(ext(tower_p(p), 2, e1(beta)), 2, ref::mk<u64>({0, 1}));
    F4::non_residue = mkf<typename F4::my_Fp>(beta);
    for (int i = 0; i < 4; i++) F4::Frobenius_coeffs_c1[i] = mkf<typename F4::my_Fp>(powmod(beta, frob_e(p, i, 4), p));
    setup_2adic<F4>(T, p, which);
    return T;
}
template<class F6> T64 setup_fp6_2over3(u64 p, u64 beta, int which = 0)
{
    T64 T = ext(ext(tower_p(p), 3, e1(beta)), 2, ref::mk<u64>({0, 1, 0}));
    F6::non_residue = mkf<typename F6::my_Fp>(beta);
    for (int i = 0; i < 6; i++) F6::Frobenius_coeffs_c1[i] = mkf<typename F6::my_Fp>(powmod(beta, frob_e(p, i, 6), p));
    setup_2adic<F6>(T, p, which);
    return T;
}
template<class F6> T64 setup_fp6_3over2(u64 p, u64 beta, const E64 &xi, int which = 0)
{
    T64 T2 = ext(tower_p(p), 2, e1(beta)), T = ext(T2, 3, xi);
    F6::non_residue = unflat<typename F6::my_Fp2>(xi);
    for (int i = 0; i < 6; i++) {
        F6::Frobenius_coeffs_c1[i] = unflat<typename F6::my_Fp2>(T2.pow(xi, frob_e(p, i, 3)));
        F6::Frobenius_coeffs_c2[i] = unflat<typename F6::my_Fp2>(T2.pow(xi, 2 * frob_e(p, i, 3)));
    }
    setup_2adic<F6>(T, p, which);
    return T;
}
template<class F12> T64 setup_fp12(u64 p, u64 beta, const E64 &xi, int which = 0)
{
    T64 T2 = ext(tower_p(p), 2, e1(beta)), T = ext(ext(T2, 3, xi), 2, ref::mk<u64>({0, 0, 1, 0, 0, 0}));
    F12::non_residue = unflat<typename F12::my_Fp2>(xi);
    for (int i = 0; i < 12; i++) F12::Frobenius_coeffs_c1[i] = unflat<typename F12::my_Fp2>(T2.pow(xi, frob_e(p, i, 6)));
    setup_2adic<F12>(T, p, which);
    return T;
}
// all c in [2,p) with X^k - c irreducible over F_p (k in {2,3,4,6}; prime factors of k and the 4 | k condition)
inline std::vector<u64> irreducible_binomials(u64 p, unsigned k)
{
    std::vector<u64> r;
    T64 T = tower_p(p);
    for (u64 c = 1; c < p; c++) {
        bool ok = true;
        for (unsigned q : {2u, 3u}) if (k % q == 0 && ((p - 1) % q != 0 || is_kth_power(T, e1(c), q))) ok = false;
        if (k % 4 == 0 && p % 4 != 1) ok = false;
        if (ok) r.push_back(c);
    }
    return r;
}
// xi in Fp2 with X^k - xi irreducible over Fp2
inline std::vector<E64> irreducible_xi(u64 p, u64 beta, unsigned k, unsigned max = 0) // max: how many with two non-zero coordinates
{
    std::vector<E64> r; unsigned n = 0;
    T64 T2 = ext(tower_p(p), 2, e1(beta));
    for (u64 i = 1; i < p * p; i++) {
        E64 x = T2.nth(i, p);
        bool ok = true;
        for (unsigned q : {2u, 3u}) if (k % q == 0 && ((p * p - 1) % q != 0 || is_kth_power(T2, x, q))) ok = false;
        if (ok) { r.push_back(x); if (max && x.c[0] && x.c[1] && ++n == max) break; }
    }
    return r;
}
