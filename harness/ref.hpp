// Reference arithmetic: prime fields and towers of binomial extensions, schoolbook, over uint64_t (p < 2^32) or mpz_class.
#pragma once
#include <gmpxx.h>
#include <vector>
#include <cstdint>
#include <string>

namespace ref {
typedef uint64_t u64;

inline u64 madd(const u64 &a, const u64 &b, const u64 &p) { u64 r = a + b; return r >= p ? r - p : r; }
inline u64 msub(const u64 &a, const u64 &b, const u64 &p) { return a >= b ? a - b : a + p - b; }
inline u64 mmul(const u64 &a, const u64 &b, const u64 &p) { return a * b % p; }
inline mpz_class madd(const mpz_class &a, const mpz_class &b, const mpz_class &p) { mpz_class r = a + b; if (r >= p) r -= p; return r; }
inline mpz_class msub(const mpz_class &a, const mpz_class &b, const mpz_class &p) { mpz_class r = a - b; if (r < 0) r += p; return r; }
inline mpz_class mmul(const mpz_class &a, const mpz_class &b, const mpz_class &p) { mpz_class r = a * b; mpz_mod(r.get_mpz_t(), r.get_mpz_t(), p.get_mpz_t()); return r; }
inline mpz_class powm(const mpz_class &b, const mpz_class &e, const mpz_class &m) { mpz_class r; mpz_powm(r.get_mpz_t(), b.get_mpz_t(), e.get_mpz_t(), m.get_mpz_t()); return r; }
inline mpz_class ipow(const mpz_class &b, unsigned long e) { mpz_class r; mpz_pow_ui(r.get_mpz_t(), b.get_mpz_t(), e); return r; }
inline mpz_class mod(const mpz_class &a, const mpz_class &m) { mpz_class r; mpz_mod(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t()); return r; }
inline mpz_class inv(const mpz_class &a, const mpz_class &m) { mpz_class r; if (!mpz_invert(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t())) return 0; return r; }
inline u64 minv(const u64 &a, const u64 &p) { int64_t t = 0, nt = 1, r = (int64_t)p, nr = (int64_t)(a % p); while (nr) { int64_t q = r / nr, x = t - q * nt; t = nt; nt = x; x = r - q * nr; r = nr; nr = x; } return t < 0 ? (u64)(t + (int64_t)p) : (u64)t; }
inline mpz_class minv(const mpz_class &a, const mpz_class &p) { return inv(a, p); }
inline bool isprime(const mpz_class &a) { return mpz_probab_prime_p(a.get_mpz_t(), 30) > 0; }
inline std::string str(const u64 &a) { return std::to_string(a); }
inline std::string str(const mpz_class &a) { return a.get_str(); }

const int MAXD = 12;
template<class Z> struct El {
    Z c[MAXD];
    int d = 0;
    El() { for (auto &x : c) x = 0; }
    bool operator==(const El &o) const { if (d != o.d) return false; for (int i = 0; i < d; i++) if (c[i] != o.c[i]) return false; return true; }
    bool operator!=(const El &o) const { return !(*this == o); }
    bool operator<(const El &o) const { for (int i = 0; i < d; i++) if (c[i] != o.c[i]) return c[i] < o.c[i]; return false; }
    bool zero() const { for (int i = 0; i < d; i++) if (c[i] != 0) return false; return true; }
    std::string s() const { std::string r = "("; for (int i = 0; i < d; i++) r += (i ? "," : "") + str(c[i]); return r + ")"; }
};

template<class Z> struct Level { int deg; El<Z> nr; };

// K_0 = F_p, K_{i+1} = K_i[X]/(X^deg - nr), nr in K_i
template<class Z> struct Tower {
    Z p;
    std::vector<Level<Z>> lv;
    int dim() const { int d = 1; for (auto &l : lv) d *= l.deg; return d; }
    mpz_class size() const { mpz_class q; std::string s = str(p); mpz_class P(s); return ipow(P, dim()); }
    El<Z> zero() const { El<Z> e; e.d = dim(); return e; }
    El<Z> one() const { El<Z> e = zero(); e.c[0] = 1; return e; }
    El<Z> add(const El<Z> &a, const El<Z> &b) const { El<Z> r; r.d = a.d; for (int i = 0; i < a.d; i++) r.c[i] = madd(a.c[i], b.c[i], p); return r; }
    El<Z> sub(const El<Z> &a, const El<Z> &b) const { El<Z> r; r.d = a.d; for (int i = 0; i < a.d; i++) r.c[i] = msub(a.c[i], b.c[i], p); return r; }
    El<Z> neg(const El<Z> &a) const { return sub(zero(), a); }
    // out[0..dim) = a*b at level L (number of levels used)
    void mulrec(const Z *a, const Z *b, Z *out, int L) const
    {
        if (L == 0) { out[0] = mmul(a[0], b[0], p); return; }
        const Level<Z> &l = lv[L - 1];
        int sub = 1; for (int i = 0; i < L - 1; i++) sub *= lv[i].deg;
        Z acc[2 * MAXD], t[MAXD];
        for (int i = 0; i < (2 * l.deg - 1) * sub; i++) acc[i] = 0;
        for (int i = 0; i < l.deg; i++) for (int j = 0; j < l.deg; j++) {
            mulrec(a + i * sub, b + j * sub, t, L - 1);
            for (int k = 0; k < sub; k++) acc[(i + j) * sub + k] = madd(acc[(i + j) * sub + k], t[k], p);
        }
        for (int i = 2 * l.deg - 2; i >= l.deg; i--) {
            mulrec(acc + i * sub, l.nr.c, t, L - 1);
            for (int k = 0; k < sub; k++) acc[(i - l.deg) * sub + k] = madd(acc[(i - l.deg) * sub + k], t[k], p);
        }
        for (int i = 0; i < l.deg * sub; i++) out[i] = acc[i];
    }
    El<Z> mul(const El<Z> &a, const El<Z> &b) const { El<Z> r; r.d = a.d; mulrec(a.c, b.c, r.c, lv.size()); return r; }
    El<Z> sqr(const El<Z> &a) const { return mul(a, a); }
    El<Z> pow(const El<Z> &a, const mpz_class &e) const
    {
        El<Z> r = one();
        for (long i = (long)mpz_sizeinbase(e.get_mpz_t(), 2) - 1; i >= 0; i--) { r = mul(r, r); if (mpz_tstbit(e.get_mpz_t(), i)) r = mul(r, a); }
        return r;
    }
    // solves a*x = 1 as a linear system over F_p (a must not be zero)
    El<Z> inv(const El<Z> &a) const
    {
        int d = a.d; if (d == 1) { El<Z> r; r.d = 1; r.c[0] = minv(a.c[0], p); return r; }
        std::vector<std::vector<Z>> m(d, std::vector<Z>(d + 1, Z(0)));
        for (int j = 0; j < d; j++) { El<Z> e = zero(); e.c[j] = 1; El<Z> col = mul(a, e); for (int i = 0; i < d; i++) m[i][j] = col.c[i]; }
        m[0][d] = 1;
        for (int c = 0; c < d; c++) {
            int r = c; while (r < d && m[r][c] == 0) r++;
            if (r == d) return zero();
            std::swap(m[r], m[c]);
            Z iv = minv(m[c][c], p); for (int k = c; k <= d; k++) m[c][k] = mmul(m[c][k], iv, p);
            for (int i = 0; i < d; i++) if (i != c && m[i][c] != 0) { Z f = m[i][c]; for (int k = c; k <= d; k++) m[i][k] = msub(m[i][k], mmul(f, m[c][k], p), p); }
        }
        El<Z> x; x.d = d; for (int i = 0; i < d; i++) x.c[i] = m[i][d];
        return x;
    }
    bool is_square(const El<Z> &a) const { return a.zero() || pow(a, (size() - 1) / 2) == one(); }
    // k-th element in mixed radix (small p only)
    El<Z> nth(u64 k, u64 smallp) const { El<Z> e = zero(); for (int i = 0; i < e.d; i++) { e.c[i] = Z((unsigned long)(k % smallp)); k /= smallp; } return e; }
    Tower sub() const { Tower t = *this; t.lv.pop_back(); return t; }
};
template<class Z> El<Z> mk(std::initializer_list<Z> l) { El<Z> e; for (auto &x : l) e.c[e.d++] = x; return e; }
template<class Z> El<Z> cat(const El<Z> &a, const El<Z> &b) { El<Z> r = a; for (int i = 0; i < b.d; i++) r.c[r.d++] = b.c[i]; return r; }
template<class Z> El<Z> slice(const El<Z> &a, int from, int len) { El<Z> r; r.d = len; for (int i = 0; i < len; i++) r.c[i] = a.c[from + i]; return r; }
} // namespace ref
