// C05: binary fields against carry-less schoolbook arithmetic.
#include "gf2ref.hpp"
#include "bind.hpp"
using namespace libff;
using namespace vf;

template<class G> struct X {
    Gf R = GfOf<G>::ref(); const char *nm = GfOf<G>::name;
    void pair(const Poly &a, const Poly &b)
    {
        at("%s a=%s b=%s", nm, a.s().c_str(), b.s().c_str()); state(); trans(8);
        const G x = mkg<G>(a), y = mkg<G>(b);
        Poly s = a ^ b, m = R.mul(a, b);
        G r = x * y; if (get(r) != m) fail("mul", "got %s want %s", get(r).s().c_str(), m.s().c_str());
        r = x + y; if (get(r) != s) fail("add", "got %s", get(r).s().c_str());
        r = x - y; if (get(r) != s) fail("sub", "got %s", get(r).s().c_str());
        r = x; G *p = &(r *= y); if (p != &r || get(r) != m) fail("mul=", "got %s", get(r).s().c_str());
        r = x; p = &(r += y); if (p != &r || get(r) != s) fail("add=", "got %s", get(r).s().c_str());
        r = x; p = &(r -= y); if (p != &r || get(r) != s) fail("sub=", "got %s", get(r).s().c_str());
        bool e = a == b; if ((x == y) != e || (x != y) == e) fail("eq", "==%d !=%d", x == y, x != y);
        if (get(x) != a || get(y) != b) fail("operand", "modified");
    }
    void unary(const Poly &a, bool inv)
    {
        at("%s a=%s", nm, a.s().c_str()); state(); trans(10);
        const G x = mkg<G>(a);
        if (get(x) != a) fail("words", "got %s", get(x).s().c_str());
        Poly q = R.mul(a, a), z;
        G r = x.squared(); if (get(r) != q) fail("squared", "got %s", get(r).s().c_str());
        r = x; G *p = &r.square(); if (p != &r || get(r) != q) fail("square", "got %s", get(r).s().c_str());
        r = x; r *= r; if (get(r) != q) fail("mul-self", "got %s", get(r).s().c_str());
        r = x; r += r; if (!r.is_zero() || get(r) != z) fail("add-self", "got %s", get(r).s().c_str());
        r = x; r -= r; if (get(r) != z) fail("sub-self", "got %s", get(r).s().c_str());
        r = -x; if (get(r) != a) fail("neg", "got %s", get(r).s().c_str());
        r = x; r.clear(); if (get(r) != z) fail("clear", "got %s", get(r).s().c_str());
        if (x.is_zero() != a.zero()) fail("zero?", "%d", x.is_zero());
        G c = x; if (!(c == x) || c != x) fail("eq-self", "-");
        if (inv && !a.zero()) {
            r = x.inverse(); if (R.mul(get(r), a) != R.one()) fail("inverse", "got %s", get(r).s().c_str());
            G r2 = x; p = &r2.invert(); if (p != &r2 || get(r2) != get(r)) fail("invert", "got %s", get(r2).s().c_str());
        }
        if (get(x) != a) fail("operand", "modified");
    }
    void pw(const Poly &a)
    {
        const G x = mkg<G>(a); Poly w = R.one();
        for (unsigned long e = 0; e < 18; e++) { at("%s %s ^ %lu", nm, a.s().c_str(), e); trans(2); G r = x ^ e; if (get(r) != w) fail("pow", "e=%lu got %s", e, get(r).s().c_str()); r = x; r ^= e; if (get(r) != w) fail("pow=", "e=%lu", e); w = R.mul(w, a); }
        for (int k = 4; k < 64; k += 5) for (unsigned long e : {1ul << k, (1ul << k) - 1, ~0ul << k, ~0ul}) { at("%s %s ^ %lu", nm, a.s().c_str(), e); trans(); G r = x ^ e; if (get(r) != R.pow(a, mpz_class(e))) fail("pow", "e=%lu", e); }
        for (int k : {0, 63, 64, 100, R.n - 1}) { if (k > 255) continue; mpz_class e = (mpz_class(1) << k) + (k % 3); at("%s %s ^ 2^%d", nm, a.s().c_str(), k); trans(2); bigint<4> b = B<4>(e); G r = x ^ b; if (get(r) != R.pow(a, e)) fail("pow-big", "k=%d", k); r = x; r ^= b; if (get(r) != R.pow(a, e)) fail("pow=big", "k=%d", k); }
    }
};
static std::vector<Poly> alphabet(const Gf &R, bool big)
{
    std::set<Poly> s; int W = (R.n + 63) / 64;
    uint64_t f = 0; for (int l : R.low) f |= 1ull << l;
    std::vector<uint64_t> L = {0, 1, 1ull << 63, ~0ull, f};
    if (W <= 2 || big) for (uint64_t x : {0xaaaaaaaaaaaaaaaaull, 0xfedcba9876543210ull, 0xffffffff00000000ull, 0x80000000ull, f << 1 | 1ull << 62}) L.push_back(x);
    if (W == 4 && !big) L = {0, 1, ~0ull, 1ull << 63};
    size_t tot = 1; for (int i = 0; i < W; i++) tot *= L.size();
    size_t stride = tot > 1500 ? tot / 1500 | 1 : 1;
    for (size_t k = 0; k < tot; k += stride) { Poly p; size_t j = k; for (int i = 0; i < W; i++) { p.w[i] = L[j % L.size()]; j /= L.size(); } s.insert(R.mask(p)); }
    return std::vector<Poly>(s.begin(), s.end());
}
template<class G> void one_field(const std::vector<std::string> &primes)
{
    X<G> x; Gf R = x.R; const char *nm = x.nm;
    std::vector<Poly> basis; for (int i = 0; i < R.n; i++) { Poly p; p.w[i / 64] = 1ull << (i % 64); basis.push_back(p); }
    std::vector<Poly> A = alphabet(R, thorough());
    const unsigned ns = 8;
    for (unsigned sl = 0; sl < ns; sl++) {
        if (!unit("%s | slice %u", nm, sl)) continue;
        sample(nm, "basis " + std::to_string(basis.size()) + "^2 monomial products, " + std::to_string(A.size()) + "^2 word-pattern pairs");
        for (size_t i = sl; i < basis.size(); i += ns) {
            for (auto &b : basis) x.pair(basis[i], b);
            for (size_t j = 0; j < A.size(); j += thorough() ? 1 : 7) { x.pair(basis[i], A[j]); x.pair(A[j], basis[i]); }
            x.unary(basis[i], true); x.pw(basis[i]);
            for (size_t j = i + 1; j < basis.size(); j++) x.unary(basis[i] ^ basis[j], thorough() || (j % 8 == 0));
        }
        for (size_t i = sl; i < A.size(); i += ns) { for (auto &b : A) x.pair(A[i], b); x.unary(A[i], i % 4 == 0 || thorough()); if (i % 16 == 0) x.pw(A[i]); }
    }
    if (unit("%s | constants, constructors, generator", nm)) {
        VF_CHECK(get(G::zero()).zero() && get(G::one()) == R.one() && G::zero().is_zero(), "consts", "zero/one");
        VF_CHECK((int)G::ceil_size_in_bits() == R.n && (int)G::floor_size_in_bits() == R.n && (int)G::extension_degree() == R.n, "size", "%d", (int)G::ceil_size_in_bits());
        VF_CHECK(Z(G::template field_char<1>()) == 2 && Z(G::template field_char<4>()) == 2, "char", "field_char");
        // defining polynomial irreducible (Rabin): x^(2^n) = x and gcd(x^(2^(n/q)) - x, f) = 1, i.e. invertible
        Poly X; X.w[0] = 2; Poly y = X; std::map<int, Poly> at_;
        for (int i = 1; i <= R.n; i++) { y = R.mul(y, y); at_[i] = y; }
        VF_CHECK(at_[R.n] == X, "irreducible", "x^(2^n) != x");
        for (int q : {2, 3}) if (R.n % q == 0) {
            Poly d = at_[R.n / q] ^ X;
            Poly c = R.pow(d, (mpz_class(1) << R.n) - 1); // 1 iff d invertible given ring is a field
            VF_CHECK(c == R.one(), "irreducible", "q=%d", q);
        }
        mpz_class N = (mpz_class(1) << R.n) - 1, rest = N;
        for (auto &ps : primes) { mpz_class q(ps); VF_CHECK(N % q == 0 && ref::isprime(q), "oracle", "factor %s", ps.c_str()); while (rest % q == 0) rest /= q; }
        VF_CHECK(rest == 1, "oracle", "factorisation");
        Poly g = get(G::multiplicative_generator);
        VF_CHECK(!g.zero(), "generator", "zero");
        for (auto &ps : primes) { mpz_class q(ps); VF_CHECK(R.pow(g, N / q) != R.one(), "generator", "order divides (2^n-1)/%s", ps.c_str()); }
        VF_CHECK(R.pow(g, N) == R.one(), "generator", "order");
        state(3);
    }
}
template<class G> void ctors();
VF_MAIN([]() {
    quiet();
    one_field<gf32>({"3", "5", "17", "257", "65537"});
    one_field<gf64>({"3", "5", "17", "257", "641", "65537", "6700417"});
    one_field<gf128>({"3", "5", "17", "257", "641", "65537", "6700417", "274177", "67280421310721"});
    one_field<gf192>({"3", "5", "7", "13", "17", "97", "193", "241", "257", "641", "673", "65537", "6700417", "22253377", "18446744069414584321"});
    one_field<gf256>({"3", "5", "17", "257", "641", "65537", "6700417", "274177", "67280421310721", "59649589127497217", "5704689200685129054721"});
    if (unit("constructors")) {
        for (uint64_t v : {0ull, 1ull, 2ull, ~0ull, 1ull << 63, 0x123456789abcdefull}) {
            Poly p; p.w[0] = v; Poly p32; p32.w[0] = (uint32_t)v;
            state();
            VF_CHECK(get(gf32((uint32_t)v)) == p32, "ctor32", "%lx", v);
            VF_CHECK(get(gf64(v)) == p, "ctor64", "%lx", v);
            VF_CHECK(get(gf128(v)) == p, "ctor128", "%lx", v);
            VF_CHECK(get(gf192(v)) == p, "ctor192", "%lx", v);
            VF_CHECK(get(gf256(v)) == p, "ctor256", "%lx", v);
            for (uint64_t u : {0ull, 1ull, ~0ull, 1ull << 63}) {
                Poly q = p; q.w[1] = u; VF_CHECK(get(gf128(u, v)) == q, "ctor128-2", "%lx %lx", u, v);
                q.w[2] = u ^ 5; VF_CHECK(get(gf192(u ^ 5, u, v)) == q, "ctor192-3", "%lx %lx", u, v);
                q.w[3] = u ^ 9; VF_CHECK(get(gf256(u ^ 9, u ^ 5, u, v)) == q, "ctor256-4", "%lx %lx", u, v);
            }
        }
        VF_CHECK(gf32().is_zero() && gf64().is_zero() && gf128().is_zero() && gf192().is_zero() && gf256().is_zero(), "ctor-default", "not zero");
    }
})
