// C06: fixed-width integers against GMP.
#include "bind.hpp"
#include <fcntl.h>
using namespace libff;
using namespace vf;

// what f prints on stdout
static std::string captured(const std::function<void()> &f)
{
    static FILE *tmp = tmpfile();
    static int keep = dup(1);
    std::cout.flush(); fflush(stdout);
    if (ftruncate(fileno(tmp), 0)) abort();
    lseek(fileno(tmp), 0, SEEK_SET);
    dup2(fileno(tmp), 1);
    f();
    std::cout.flush(); fflush(stdout);
    dup2(keep, 1);
    long n = lseek(fileno(tmp), 0, SEEK_END);
    std::string s(n, 0); lseek(fileno(tmp), 0, SEEK_SET);
    if (n && read(fileno(tmp), &s[0], n) != n) abort();
    return s;
}
template<mp_size_t n> struct Guarded { mp_limb_t lo[2] = {0x1111, 0x2222}; bigint<n> b; mp_limb_t hi[2] = {0x3333, 0x4444};
    bool ok() const { return lo[0] == 0x1111 && lo[1] == 0x2222 && hi[0] == 0x3333 && hi[1] == 0x4444; } };

template<mp_size_t n> struct X {
    typedef bigint<n> b_t;
    void one(const mpz_class &v, bool print)
    {
        at("n=%d v=%s", (int)n, v.get_str(16).c_str()); state();
        const b_t b = B<n>(v); const b_t c = b;
        // construction
        std::string dec = v.get_str();
        { char buf[sizeof(Guarded<n>)]; Guarded<n> *g = new (buf) Guarded<n>(); g->b = b_t(dec.c_str()); VF_CHECK(g->ok() && Z(g->b) == v, "from-string", "got %s", Z(g->b).get_str(16).c_str()); }
        { b_t x(dec.c_str()); VF_CHECK(Z(x) == v, "from-string", "got %s", Z(x).get_str(16).c_str()); }
        { b_t x(v.get_mpz_t()); VF_CHECK(Z(x) == v, "from-mpz", "got %s", Z(x).get_str(16).c_str()); }
        { mpz_class k = v; b_t x(k.get_mpz_t()); VF_CHECK(k == v, "from-mpz", "source modified"); }
        { mpz_class r = 12345; b.to_mpz(r.get_mpz_t()); VF_CHECK(r == v, "to-mpz", "got %s", r.get_str(16).c_str()); }
        { mpz_class r = -((mpz_class(1) << 600) + 7); b.to_mpz(r.get_mpz_t()); VF_CHECK(r == v, "to-mpz", "into used: got %s", r.get_str(16).c_str()); }
        if (v < (mpz_class(1) << 64)) { unsigned long u = mpz_get_ui(v.get_mpz_t()); b_t x(u); VF_CHECK(Z(x) == v, "from-word", "got %s", Z(x).get_str(16).c_str()); }
        // queries
        VF_CHECK(b.is_zero() == (v == 0), "zero?", "%d", b.is_zero());
        VF_CHECK(b.is_even() == mpz_even_p(v.get_mpz_t()), "even?", "%d", b.is_even());
        size_t nb = v == 0 ? 0 : mpz_sizeinbase(v.get_mpz_t(), 2);
        VF_CHECK(b.num_bits() == nb, "num_bits", "got %zu want %zu", (size_t)b.num_bits(), nb);
        VF_CHECK(b.max_bits() == 64 * n, "max_bits", "got %zu", (size_t)b.max_bits());
        VF_CHECK(b.as_ulong() == mpz_get_ui(v.get_mpz_t()), "as_ulong", "got %lu", b.as_ulong());
        for (size_t k = 0; k < 64 * n + 70; k++) if (b.test_bit(k) != (bool)mpz_tstbit(v.get_mpz_t(), k)) fail("test_bit", "bit %zu", k);
        trans(64 * n + 70);
        for (size_t k : {(size_t)1 << 31, (size_t)1 << 32, ((size_t)1 << 32) + 1, (size_t)1 << 38, (size_t)1 << 63, ~(size_t)0}) VF_CHECK(!b.test_bit(k), "test_bit", "bit %zu out of range", k);
        if (print) {
            std::string s = captured([&]() { b.print(); }), h = captured([&]() { b.print_hex(); });
            VF_CHECK(s == dec + "\n", "print", "got %s", s.c_str());
            VF_CHECK(h == v.get_str(16) + "\n", "print_hex", "got %s", h.c_str());
        }
        VF_CHECK(b == c && memcmp(&b, &c, sizeof b) == 0, "modified", "query changed the value");
        { b_t x = b; x.clear(); VF_CHECK(Z(x) == 0 && x.is_zero(), "clear", "got %s", Z(x).get_str(16).c_str()); }
        { b_t x = b; x = x; VF_CHECK(Z(x) == v, "assign", "self"); b_t y; y = x; VF_CHECK(Z(y) == v, "assign", "copy"); }
    }
    void pair(const mpz_class &u, const mpz_class &v, const b_t &a, const b_t &b)
    {
        int c = cmp(u, v);
        trans(4);
        if ((a == b) != (c == 0)) fail("eq", "%s %s", u.get_str(16).c_str(), v.get_str(16).c_str());
        if ((a != b) != (c != 0)) fail("ne", "%s %s", u.get_str(16).c_str(), v.get_str(16).c_str());
        if ((a < b) != (c < 0)) fail("lt", "%s %s", u.get_str(16).c_str(), v.get_str(16).c_str());
    }
    std::vector<mpz_class> values(int lim)
    {
        std::set<mpz_class> s; mpz_class top = mpz_class(1) << (64 * n);
        std::vector<u64> A = {0, ~0ull, 1, 1ull << 63, 2, ~0ull - 1, 0x7fffffffffffffffull, 0x0123456789abcdefull, 0x100000000ull, 0xffffffffull};
        size_t k = A.size(), cap = lim; 
        auto cnt = [&](size_t q) { size_t t = 1; for (int i = 0; i < n; i++) { t *= q; if (t > cap) return cap + 1; } return t; };
        while (k > 2 && cnt(k) > cap) k--;
        size_t tot = cnt(k); if (tot > cap) tot = cap; // wide widths: first `cap` of the two-letter words
        for (size_t i = 0; i < tot; i++) { mpz_class v = 0; size_t j = i; for (int l = 0; l < n; l++) { v = (v << 64) + mpz_class((unsigned long)A[j % k]); j /= k; } s.insert(v); }
        for (int i = 0; i < 64 * n; i++) { mpz_class q = mpz_class(1) << i; s.insert(q); s.insert(q - 1); s.insert(q + 1); s.insert(top - q); s.insert(top - q - 1); }
        mpz_class d = 1; while (d < top) { s.insert(d); s.insert(d - 1); s.insert(d + 1); if (9 * d < top) s.insert(9 * d); d *= 10; }
        std::vector<mpz_class> r; for (auto &v : s) if (v >= 0 && v < top) r.push_back(v);
        return r;
    }
    void go()
    {
        int lim = thorough() ? 5000 : 1100;
        std::vector<mpz_class> A = values(lim); std::vector<b_t> b; for (auto &v : A) b.push_back(B<n>(v));
        const size_t ns = 4;
        for (size_t sl = 0; sl < ns; sl++) {
            if (unit("n=%d | values %zu", (int)n, sl)) {
                sample("values", "n=" + std::to_string(n) + ": " + A[A.size() / 2].get_str(16));
                for (size_t i = sl; i < A.size(); i += ns) one(A[i], i % 8 == sl);
            }
            if (unit("n=%d | pairs %zu", (int)n, sl)) {
                for (size_t i = sl; i < A.size(); i += ns) { at("n=%d pair row %s", (int)n, A[i].get_str(16).c_str()); state(); for (size_t j = 0; j < A.size(); j++) pair(A[i], A[j], b[i], b[j]); }
            }
        }
        if (unit("n=%d | single-limb differences", (int)n)) {
            // every limb position x every pair of corner limbs, on every uniform background
            std::vector<u64> L = {0, 1, 2, 0x7fffffffffffffffull, 1ull << 63, ~0ull - 1, ~0ull};
            for (u64 bg : L) for (int i = 0; i < n; i++) for (u64 x : L) for (u64 y : L) for (int j = 0; j < n; j++) {
                b_t a, c; for (int k = 0; k < n; k++) a.data[k] = c.data[k] = bg;
                a.data[i] = x; c.data[j] = y; at("n=%d bg=%lx [%d]=%lx vs [%d]=%lx", (int)n, bg, i, x, j, y); state(); pair(Z(a), Z(c), a, c);
            }
            b_t z; VF_CHECK(z.is_zero() && Z(z) == 0, "default", "not zero");
            VF_CHECK(Z(b_t::one()) == 1, "one", "got %s", Z(b_t::one()).get_str().c_str());
            VF_CHECK(b_t::N == n, "width", "N");
        }
        if (unit("n=%d | decimal strings", (int)n)) {
            for (int i = 0; i < 20000; i++) { std::string s = std::to_string(i); at("n=%d \"%s\"", (int)n, s.c_str()); b_t x(s.c_str()); VF_CHECK(Z(x) == i, "from-string", "got %s", Z(x).get_str().c_str()); state(); }
            mpz_class top = mpz_class(1) << (64 * n);
            for (mpz_class v : {mpz_class(0), mpz_class(1), mpz_class(9), mpz_class(10), mpz_class(1234567890), mpz_class(top / 3), mpz_class(top >> 1), mpz_class(top - 1), mpz_class(mpz_class(1) << (64 * (n - 1)))})
                for (size_t zeros = 0; zeros <= (thorough() ? 200u : 80u); zeros++) { // the same number written with leading zeros
                    std::string s = std::string(zeros, '0') + v.get_str(); at("n=%d \"%s\"", (int)n, s.c_str()); b_t x(s.c_str()); VF_CHECK(Z(x) == v, "from-string", "got %s", Z(x).get_str().c_str()); state();
                }
            size_t len = mpz_class(top - 1).get_str().size();
            for (size_t l = 1; l <= len; l++) for (int d = 1; d <= 9; d++) for (size_t p = 0; p < l; p++) { // one digit d, at place p, over zeros and over nines
                std::string a(l, '0'), c(l, '9'); a[0] = '1'; a[p] = '0' + d; c[p] = '0' + d;
                for (auto &s : {a, c}) { mpz_class v(s); if (v >= top) continue; at("n=%d \"%s\"", (int)n, s.c_str()); b_t x(s.c_str()); VF_CHECK(Z(x) == v, "from-string", "got %s", Z(x).get_str().c_str()); state(); }
            }
        }
        if (unit("n=%d | small", (int)n)) {
            unsigned long m = thorough() ? 70000 : 5000;
            for (unsigned long i = 0; i < m; i++) one(mpz_class(i), false);
        }
    }
};
VF_MAIN([]() {
    quiet();
    X<1>().go(); X<2>().go(); X<3>().go(); X<4>().go(); X<5>().go(); X<6>().go(); X<8>().go(); X<12>().go();
    X<10>().go(); X<24>().go();
})
