// C26: the complex stand-in domain on complete grids of Gaussian integers, against exact integer arithmetic.
#include "vf.hpp"
#include <cmath>
#include <limits>
#include <libff/algebra/field_utils/field_utils.hpp>
#include <libff/common/double.hpp>
using namespace vf; using libff::Double; typedef __int128 I; typedef long double L;
static std::string str(const Double &d) { char b[80]; snprintf(b, 80, "(%.17g,%.17g)", d.val.real(), d.val.imag()); return b; }
static bool near(const Double &g, L re, L im) { L t = 1e-9L * std::max((L)1, std::max(fabsl(re), fabsl(im))); return fabsl(g.val.real() - re) <= t && fabsl(g.val.imag() - im) <= t; }
static bool exact(const Double &g, I re, I im) { return (L)g.val.real() == (L)re && (L)g.val.imag() == (L)im; }
static bool bits(const Double &a, const Double &b) { return !memcmp(&a.val, &b.val, sizeof a.val); }
#define OK(c, key, what) VF_CHECK(c, key, "(%d,%d) (%d,%d): got %s", a, b, c_, d, str(what).c_str())
VF_MAIN([]() {
    const int R = thorough() ? 24 : 10, NS = 8;
    for (int s = 0; s < NS; s++) if (unit("pairs %d", s)) {
        for (int a = -R; a <= R; a++) if ((a + R) % NS == s) for (int b = -R; b <= R; b++) { tick(); for (int c_ = -R; c_ <= R; c_++) for (int d = -R; d <= R; d++) {
            state(); Double x(a, b), y(c_, d), x0 = x, y0 = y; at("(%d,%d) (%d,%d)", a, b, c_, d);
            Double g = x + y; OK(exact(g, a + c_, b + d), "add", g); g = x - y; OK(exact(g, a - c_, b - d), "sub", g); g = x * y; OK(exact(g, a * c_ - b * d, a * d + b * c_), "mul", g);
            g = x; g += y; OK(exact(g, a + c_, b + d), "add-assign", g); g = x; g -= y; OK(exact(g, a - c_, b - d), "sub-assign", g); g = x; g *= y; OK(exact(g, a * c_ - b * d, a * d + b * c_), "mul-assign", g);
            bool e = a == c_ && b == d; OK((x == y) == e && (x != y) == !e, "equal", x); OK((x < y) == (a < c_) && (x > y) == (a > c_), "order", x);
            OK(bits(x, x0) && bits(y, y0), "operand changed", x);
        } }
    }
    if (unit("single")) for (int a = -300; a <= 300; a++) for (int b = -60; b <= 60; b++) {
        const int c_ = 0, d = 0; state(); Double x(a, b), x0 = x, g = -x; at("(%d,%d)", a, b);
        OK(exact(g, -a, -b), "neg", g); g = x.squared(); OK(exact(g, a * a - b * b, 2 * a * b), "squared", g);
        g = x; g += g; OK(exact(g, 2 * a, 2 * b), "add itself", g); g = x; g -= g; OK(exact(g, 0, 0), "sub itself", g); g = x; g *= g; OK(exact(g, a * a - b * b, 2 * a * b), "mul itself", g);
        if (a || b) { g = x.inverse(); L n = (L)a * a + (L)b * b; OK(near(g, a / n, -b / n), "inverse", g); g = x * x.inverse(); OK(g == Double::one(), "inverse", g); }
        // what counts as equal: differences below 1e-6 in either part
        OK(x == x + Double(4e-7, -4e-7) && x != x + Double(3e-6, 0) && x != x + Double(0, 3e-6) && x != x - Double(3e-6, 0) && x != x - Double(0, 3e-6), "tolerance", x); OK(bits(x, x0), "operand changed", x);
        if (!b) OK(bits(Double(a), x) && bits(Double(std::complex<double>(a, 0)), x), "construct", x);
    }
    for (int a = -12; a <= 12; a++) if (unit("powers of %d + bi", a)) for (int b = -12; b <= 12; b++) {
        const int c_ = 0; I re = 1, im = 0;
        for (int d = 0; d <= 64; d++) {
            L big = std::max(fabsl((L)re), fabsl((L)im)), abs2 = (L)a * a + (L)b * b; if (powl(abs2, d / 2.0L) > 1e9L) break; state(); at("(%d,%d)^%d", a, b, d); (void)big;
            Double x(a, b), x0 = x, g = x ^ (size_t)d, h = x ^ libff::bigint<1>(d); OK(near(g, re, im), "power", g); OK(near(h, re, im), "power-bigint", h); OK(bits(x, x0), "operand changed", x);
            if (im == 0 && re >= 0) { OK(g.as_ulong() == (unsigned long)re && g.as_bigint() == libff::bigint<1>((unsigned long)re), "integer of a power", g); }
            I t = re * a - im * b; im = re * b + im * a; re = t;
        }
    }
    for (int s = 0; s < 4; s++) if (unit("powers of units %d", s)) { // bases of absolute value one: every exponent counts
        for (int a = -1; a <= 1; a++) for (int b = -1; b <= 1; b++) if (abs(a) + abs(b) == 1) { const int c_ = 0; Double x(a, b); for (int d = s; d < 20000; d += 4) { int q = a == 1 ? 0 : b == 1 ? d % 4 : a == -1 ? 2 * d % 4 : 3 * d % 4; static const int C[4] = {1, 0, -1, 0}; state(); tick(); Double g = x ^ (size_t)d, h = x ^ libff::bigint<1>((unsigned long)d); OK(near(g, C[q], C[(q + 3) % 4]), "power", g); OK(near(h, C[q], C[(q + 3) % 4]), "power-bigint", h); } }
        for (int n = 1 + s; n <= (thorough() ? 400 : 128); n += 4) for (int d = 0; d <= 3 * n; d++) { const int a = n, b = 0, c_ = 0; Double g = libff::get_root_of_unity<Double>(n) ^ (size_t)d; L t = 2 * 3.14159265358979323846264338327950288L * d / n; state(); at("root of order %d to the %d", n, d); OK(near(g, cosl(t), sinl(t)), "power of a root of unity", g); }
    }
    if (unit("integers")) { const int b = 0, c_ = 0, d = 0; for (long k = 0; k < (thorough() ? 2000000 : 200000); k++) { state(); int a = (int)k; Double x((double)k); tick(); OK(x.as_ulong() == (unsigned long)k && x.as_bigint() == libff::bigint<1>((unsigned long)k), "integer", x); }
        for (int i = 0; i <= 52; i++) for (long e = -1; e <= 1; e++) { int a = i; unsigned long k = (1ul << i) + e; Double x((double)k); state(); OK(x.as_ulong() == k && x.as_bigint() == libff::bigint<1>(k), "integer", x); } 
        for (long k = 1; k < 3000; k++) { int a = (int)k; Double x = Double((double)k).inverse() * Double((double)(k * 7)); state(); OK(x.as_ulong() == 7 && x.as_bigint() == libff::bigint<1>(7ul), "integer of a quotient", x); } }
    if (unit("constants")) { const int a = 0, b = 0, c_ = 0, d = 0; state(); OK(exact(Double::zero(), 0, 0) && exact(Double::one(), 1, 0) && exact(Double(), 0, 0) && exact(Double::geometric_generator(), 2, 0) && exact(Double::arithmetic_generator(), 1, 0) && exact(Double::multiplicative_generator, 2, 0), "constants", Double::one()); }
    for (int s = 0; s < 4; s++) if (unit("roots of unity %d", s)) for (size_t n = 1 + s; n <= (thorough() ? 4000u : 700u); n += 4) {
        const int a = (int)n, b = 0, c_ = 0; Double w = libff::get_root_of_unity<Double>(n), p = Double::one(); at("root of order %zu", n); state();
        for (size_t k = 1; k <= n; k++) { p *= w; int d = (int)k; L t = 2 * 3.14159265358979323846264338327950288L * k / n; OK(fabsl(p.val.real() - cosl(t)) < 1e-9L && fabsl(p.val.imag() - sinl(t)) < 1e-9L, "root of unity", p); OK((p == Double::one()) == (k == n), "order", p); }
    }
})
