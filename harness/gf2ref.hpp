// Reference GF(2)[x]/(f), f given by its low terms.
#pragma once
#include "vf.hpp"
#include <array>
#include <gmpxx.h>
#include <libff/algebra/fields/binary/gf32.hpp>
#include <libff/algebra/fields/binary/gf64.hpp>
#include <libff/algebra/fields/binary/gf128.hpp>
#include <libff/algebra/fields/binary/gf192.hpp>
#include <libff/algebra/fields/binary/gf256.hpp>
struct Poly {
    uint64_t w[4] = {0, 0, 0, 0};
    bool operator==(const Poly &o) const { return !memcmp(w, o.w, sizeof w); }
    bool operator!=(const Poly &o) const { return !(*this == o); }
    bool operator<(const Poly &o) const { return memcmp(w, o.w, sizeof w) < 0; }
    bool zero() const { return !(w[0] | w[1] | w[2] | w[3]); }
    std::string s() const { char b[80]; snprintf(b, 80, "%016lx%016lx%016lx%016lx", w[3], w[2], w[1], w[0]); return b; }
};
inline Poly operator^(Poly a, const Poly &b) { for (int i = 0; i < 4; i++) a.w[i] ^= b.w[i]; return a; }
struct Gf {
    int n; std::vector<int> low; // f = x^n + sum x^low
    Poly one() const { Poly p; p.w[0] = 1; return p; }
    Poly mul(const Poly &a, const Poly &b) const
    {
        uint64_t r[9] = {0};
        int W = (n + 63) / 64;
        for (int i = 0; i < W; i++) {
            uint64_t x = a.w[i];
            while (x) { int k = __builtin_ctzll(x); x &= x - 1;
                for (int j = 0; j < W; j++) { r[i + j] ^= b.w[j] << k; if (k) r[i + j + 1] ^= b.w[j] >> (64 - k); } }
        }
        for (int d = 2 * n - 2; d >= n; d--) if (r[d / 64] >> (d % 64) & 1) {
            r[d / 64] ^= 1ull << (d % 64);
            for (int l : low) { int e = d - n + l; r[e / 64] ^= 1ull << (e % 64); }
        }
        Poly p; for (int i = 0; i < 4; i++) p.w[i] = r[i];
        return p;
    }
    Poly pow(const Poly &a, const mpz_class &e) const { Poly r = one(); for (long i = (long)mpz_sizeinbase(e.get_mpz_t(), 2) - 1; i >= 0; i--) { r = mul(r, r); if (mpz_tstbit(e.get_mpz_t(), i)) r = mul(r, a); } return r; }
    Poly mask(Poly p) const { for (int i = 0; i < 4; i++) { int lo = 64 * i; if (lo >= n) p.w[i] = 0; else if (n - lo < 64) p.w[i] &= (1ull << (n - lo)) - 1; } return p; }
};
template<class G> struct GfOf;
template<> struct GfOf<libff::gf32> { static Gf ref() { return {32, {22, 2, 1, 0}}; } static constexpr const char *name = "gf32"; };
template<> struct GfOf<libff::gf64> { static Gf ref() { return {64, {4, 3, 1, 0}}; } static constexpr const char *name = "gf64"; };
template<> struct GfOf<libff::gf128> { static Gf ref() { return {128, {7, 2, 1, 0}}; } static constexpr const char *name = "gf128"; };
template<> struct GfOf<libff::gf192> { static Gf ref() { return {192, {7, 2, 1, 0}}; } static constexpr const char *name = "gf192"; };
template<> struct GfOf<libff::gf256> { static Gf ref() { return {256, {10, 5, 2, 0}}; } static constexpr const char *name = "gf256"; };
template<class G> Poly get(const G &g) { Poly p; auto v = g.to_words(); for (size_t i = 0; i < v.size() && i < 4; i++) p.w[i] = v[i]; if (v.size() * 64 < (size_t)GfOf<G>::ref().n) p.w[0] ^= 0xdead; return p; }
template<class G> G mkg(const Poly &p) { G g; int W = (GfOf<G>::ref().n + 63) / 64; std::vector<uint64_t> v(p.w, p.w + W); g.from_words(v); return g; }
