// C24: integer and bit utilities against their definitions.
#include "bind.hpp"
#include <libff/common/utils.hpp>
#include <stdexcept>
#include <climits>
#include <utility>
using namespace vf;
using std::size_t;
typedef unsigned __int128 u128;
typedef __int128 i128;

static size_t ref_log2(size_t n) { u128 p = 1; size_t k = 0; while (p < n) { p <<= 1; k++; } return k; }
static void log_one(size_t n)
{
    at("n=%zu", n); state();
    size_t w = ref_log2(n);
    VF_CHECK(libff::log2(n) == w, "log2", "n=%zu got %zu want %zu", n, libff::log2(n), w);
    bool pw = n && !(n & (n - 1));
    VF_CHECK(libff::is_power_of_2(n) == pw, "is_power_of_2", "n=%zu got %d", n, libff::is_power_of_2(n));
    if (w < 64) {
        size_t up = (size_t)1 << w;
        VF_CHECK(libff::round_to_next_power_of_2(n) == up, "round", "n=%zu got %zu", n, libff::round_to_next_power_of_2(n));
        if (n) VF_CHECK(libff::get_power_of_two(n) == up, "get_power_of_two", "n=%zu got %zu", n, libff::get_power_of_two(n));
    }
}
static void brev(size_t n, size_t l)
{
    size_t w = 0; for (size_t i = 0; i < l; i++) if (n >> i & 1) w |= (size_t)1 << (l - 1 - i);
    at("bitreverse %zu %zu", n, l); state();
    size_t r = libff::bitreverse(n, l);
    VF_CHECK(r == w, "bitreverse", "n=%zx l=%zu got %zx want %zx", n, l, r, w);
}
static void twos(long long i, size_t w)
{
    i128 lo = -((i128)1 << (w - 1)), hi = ((i128)1 << (w - 1)) - 1;
    if (i < lo || i > hi || i < INT_MIN || i > INT_MAX) return;
    at("twos %lld w=%zu", i, w); state();
    size_t e = (size_t)(((u128)(i128)i) & (((u128)1 << w) - 1));
    size_t g = libff::to_twos_complement((int)i, w);
    VF_CHECK(g == e, "to_twos", "i=%lld w=%zu got %zx want %zx", i, w, g, e);
    int b = libff::from_twos_complement(e, w);
    VF_CHECK(b == i, "from_twos", "i=%lld w=%zu got %d", i, w, b);
}
static void dv(long long x, long long y)
{
    at("div_ceil %lld %lld", x, y); state();
    i128 X = x, Y = y, q = X / Y, r = X % Y; if (r != 0 && ((r < 0) == (Y < 0))) q++;
    if (q > LLONG_MAX || q < LLONG_MIN) return;
    long long g = libff::div_ceil(x, y);
    VF_CHECK((i128)g == q, "div_ceil", "%lld/%lld got %lld", x, y, g);
}
static void i2b(const std::initializer_list<unsigned long> &l, size_t w)
{
    at("int_list_to_bits len=%zu w=%zu", l.size(), w); state();
    libff::bit_vector e; for (unsigned long v : l) for (size_t j = 0; j < w; j++) e.push_back(v >> (w - 1 - j) & 1);
    libff::bit_vector g = libff::int_list_to_bits(l, w);
    VF_CHECK(g == e, "int_list_to_bits", "w=%zu len %zu got size %zu", w, l.size(), g.size());
}
template<size_t... I> static void longlist(std::index_sequence<I...>) { for (size_t w : {1, 2, 7, 8, 9, 31, 32, 33, 63, 64}) { i2b({(0x9e3779b97f4a7c15ul * (I + 1))...}, w); i2b({(I % 3 == 0 ? ~0ul : (unsigned long)I)...}, w); } }
template<size_t... N> static void longlists() { int x[] = {(longlist(std::make_index_sequence<N>()), 0)...}; (void)x; }
VF_MAIN([]() {
    quiet();
    size_t lim = thorough() ? 1u << 24 : 1u << 21;
    for (int sl = 0; sl < 8; sl++) if (unit("logarithms | dense %d", sl)) for (size_t n = sl; n <= lim; n += 8) log_one(n);
    if (unit("logarithms | around powers of two")) for (int k = 0; k < 64; k++) for (long d = -3000; d <= 3000; d++) log_one(((size_t)1 << k) + d);
    if (unit("logarithms | two-bit sums")) for (int i = 0; i < 64; i++) for (int j = 0; j < 64; j++) { log_one(((size_t)1 << i) | ((size_t)1 << j)); log_one(((size_t)1 << i) - ((size_t)1 << j)); }
    if (unit("exp2")) for (size_t k = 0; k < 64; k++) { at("exp2 %zu", k); state(); VF_CHECK(libff::exp2(k) == (size_t)1 << k, "exp2", "k=%zu", k); }
    for (size_t l = 0; l <= 64; l++) if (unit("bit reversal | l=%zu", l)) {
        if (l <= (thorough() ? 20u : 16u)) for (size_t n = 0; n < ((size_t)1 << l); n++) brev(n, l);
        for (int i = 0; i < 64; i++) for (int j = i; j < 64; j++) { brev(((size_t)1 << i) | ((size_t)1 << j), l); brev(~(((size_t)1 << i) | ((size_t)1 << j)), l); }
        for (size_t n : {(size_t)0, ~(size_t)0, (size_t)0x0123456789abcdef, (size_t)0xf0f0f0f00f0f0f0f}) brev(n, l);
    }
    for (size_t w = 1; w <= 63; w++) if (unit("two's complement | w=%zu", w)) {
        if (w <= 17) for (long long i = -(1ll << (w - 1)); i < (1ll << (w - 1)); i++) twos(i, w);
        else for (long long i = -70000; i <= 70000; i += thorough() ? 1 : 3) twos(i, w);
        for (int k = 0; k < 33; k++) for (long long d = -3; d <= 3; d++) { twos((1ll << k) + d, w); twos(-(1ll << k) + d, w); }
    }
    if (unit("ceiling division | small")) for (long long x = -300; x <= 300; x++) for (long long y = -60; y <= 60; y++) if (y) dv(x, y);
    if (unit("ceiling division | wide")) {
        std::vector<long long> A; for (int k = 0; k < 63; k++) for (int d = -2; d <= 2; d++) { A.push_back((1ll << k) + d); A.push_back(-(1ll << k) + d); }
        for (long long v : {LLONG_MAX, LLONG_MAX - 1, LLONG_MIN, LLONG_MIN + 1}) A.push_back(v);
        for (long long x : A) for (long long y : A) if (y && !(x == LLONG_MIN && y == -1)) dv(x, y);
    }
    if (unit("ceiling division | zero divisor")) for (long long x : {0ll, 1ll, -1ll, LLONG_MAX, LLONG_MIN}) {
        at("div_ceil %lld 0", x); state(); bool threw = false;
        try { (void)libff::div_ceil(x, 0); } catch (const std::invalid_argument &) { threw = true; }
        VF_CHECK(threw, "div_ceil-zero", "x=%lld", x);
    }
    if (unit("word lists to bits")) {
        std::vector<unsigned long> A = {0, 1, 2, ~0ul, 1ul << 63, 0x0123456789abcdeful, 0x80000001ul, 1ul << 32, 5};
        for (size_t w = 1; w <= 64; w++) {
            i2b({}, w);
            for (auto a : A) { i2b({a}, w); for (auto b : A) { i2b({a, b}, w); for (auto c : A) { i2b({a, b, c}, w); i2b({c, a, b, a}, w); } } }
            for (int i = 0; i < 64; i++) { i2b({1ul << i}, w); i2b({~(1ul << i), 1ul << i}, w); }
        }
    }
    if (unit("long word lists to bits")) longlists<5, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257>();
    if (unit("endianness")) { state(); uint16_t x = 1; unsigned char c; memcpy(&c, &x, 1); VF_CHECK(libff::is_little_endian() == (c == 1), "endian", "-"); }
    if (unit("formatting")) for (int n = 0; n < 200; n++) { // result = prefix followed by the formatted text
        at("FORMAT %d", n); state(); std::string pre(n % 7, 'p'), body(n, 'b'); std::string g = libff::FORMAT(pre, "%s", body.c_str());
        VF_CHECK(g == pre + body, "format", "n=%d got length %zu", n, g.size());
    }
#ifdef VF_SAN
    if (unit("formatting long texts")) for (int n = 200; n < 1200; n++) { state(); vf::trans(); std::string b(n, 'b'); libff::FORMAT("", "%s", b.c_str()); libff::FORMAT(b, "%d%s", n, b.c_str()); } // how much of it is kept is not judged
#endif
})
