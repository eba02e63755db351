// Uniform access to every pairing entry point of the five curves.
#pragma once
#include "curves.hpp"
template<class PP> struct PT;
#define PTCOMMON(c, FK_) \
    typedef libff::c##_G1 G1; typedef libff::c##_G2 G2; typedef libff::FK_ FK; typedef libff::c##_G1_precomp PG1; typedef libff::c##_G2_precomp PG2; \
    static const char *name() { return #c; } \
    static PG1 pre1(const G1 &P) { return libff::c##_precompute_G1(P); } static PG2 pre2(const G2 &Q) { return libff::c##_precompute_G2(Q); } \
    static PG1 apre1(const G1 &P) { return libff::c##_ate_precompute_G1(P); } static PG2 apre2(const G2 &Q) { return libff::c##_ate_precompute_G2(Q); } \
    static FK ml(const PG1 &p, const PG2 &q) { return libff::c##_miller_loop(p, q); } static FK aml(const PG1 &p, const PG2 &q) { return libff::c##_ate_miller_loop(p, q); } \
    static FK dml(const PG1 &p, const PG2 &q, const PG1 &p2, const PG2 &q2) { return libff::c##_double_miller_loop(p, q, p2, q2); } \
    static FK adml(const PG1 &p, const PG2 &q, const PG1 &p2, const PG2 &q2) { return libff::c##_ate_double_miller_loop(p, q, p2, q2); } \
    static FK fe(const FK &f) { return libff::c##_final_exponentiation(f); } \
    static FK pairing(const G1 &P, const G2 &Q) { return libff::c##_pairing(P, Q); } static FK apairing(const G1 &P, const G2 &Q) { return libff::c##_ate_pairing(P, Q); } \
    static FK reduced(const G1 &P, const G2 &Q) { return libff::c##_reduced_pairing(P, Q); } static FK areduced(const G1 &P, const G2 &Q) { return libff::c##_ate_reduced_pairing(P, Q); }
template<class PP> struct NoAlt { typedef PT<PP> T; };
template<> struct PT<libff::alt_bn128_pp> { PTCOMMON(alt_bn128, alt_bn128_Fq12) static const int alts = 0; template<class A, class B> static FK alt(const A &, const B &) { return FK::one(); } static const char *altname() { return ""; }
    static mpz_class fe_mult(const mpz_class &x) { return 2 * x * (6 * x * x + 3 * x + 1); } };
template<> struct PT<libff::bls12_381_pp> { PTCOMMON(bls12_381, bls12_381_Fq12) static const int alts = 0; template<class A, class B> static FK alt(const A &, const B &) { return FK::one(); } static const char *altname() { return ""; }
    static mpz_class fe_mult(const mpz_class &) { return 3; } };
template<> struct PT<libff::mnt4_pp> { PTCOMMON(mnt4, mnt4_Fq4) static const int alts = 1; static FK alt(const G1 &P, const G2 &Q) { return libff::mnt4_affine_reduced_pairing(P, Q); } static const char *altname() { return "affine_ate"; }
    static mpz_class fe_mult(const mpz_class &) { return 1; } };
template<> struct PT<libff::mnt6_pp> { PTCOMMON(mnt6, mnt6_Fq6) static const int alts = 1; static FK alt(const G1 &P, const G2 &Q) { return libff::mnt6_affine_reduced_pairing(P, Q); } static const char *altname() { return "affine_ate"; }
    static mpz_class fe_mult(const mpz_class &) { return 1; } };
template<> struct PT<libff::edwards_pp> { PTCOMMON(edwards, edwards_Fq6) static const int alts = 1; static FK alt(const G1 &P, const G2 &Q) { return libff::edwards_tate_reduced_pairing(P, Q); } static const char *altname() { return "tate"; }
    static mpz_class fe_mult(const mpz_class &) { return 1; } };
inline bool zprime(const mpz_class &v) { return v > 2 && mpz_probab_prime_p(v.get_mpz_t(), 25); }
