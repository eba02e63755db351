// C19: every sequence of values of mixed kinds written to one stream is read back in order, each read consuming what its write produced.
#include "pairs.hpp"
#include <sstream>
#include <memory>
#include <libff/algebra/fields/binary/gf32.hpp>
#include <libff/algebra/fields/binary/gf64.hpp>
#include <libff/algebra/fields/binary/gf128.hpp>
#include <libff/algebra/fields/binary/gf192.hpp>
#include <libff/algebra/fields/binary/gf256.hpp>
#include <libff/common/serialization.hpp>
#include <libff/common/utils.hpp>
using namespace libff;
using namespace vf;

// One value to write and read. The variable read into is shared by all values of the kind, so reads also meet left-overs of earlier reads.
struct Atom {
    std::string kind, name;
    std::function<void(std::ostream &)> put, sep;
    std::function<void(std::istream &)> get, skip;
    std::function<bool()> same;      // is the variable equal to the value written
};
typedef std::vector<Atom> Alphabet;
enum Sep { ALG, LINE, NONE };        // followed by OUTPUT_NEWLINE, by "\n", or self-delimiting
static void seps(Atom &a, Sep s)
{
    if (s == ALG) { a.sep = [](std::ostream &o) { o << OUTPUT_NEWLINE; }; a.skip = [](std::istream &i) { consume_OUTPUT_NEWLINE(i); }; }
    else if (s == LINE) { a.sep = [](std::ostream &o) { o << "\n"; }; a.skip = [](std::istream &i) { consume_newline(i); }; }
    else { a.sep = [](std::ostream &) {}; a.skip = [](std::istream &) {}; }
}
template<class T> void kind(Alphabet &A, const std::string &nm, const std::vector<T> &vals, Sep s = ALG)
{
    auto var = std::make_shared<T>();
    for (size_t i = 0; i < vals.size(); i++) {
        Atom a; a.kind = nm; a.name = nm + "#" + std::to_string(i); T v = vals[i];
        a.put = [v](std::ostream &o) { o << v; }; a.get = [var](std::istream &in) { in >> *var; }; a.same = [var, v]() { return *var == v; };
        seps(a, s); A.push_back(a);
    }
}
static void bools(Alphabet &A)
{
    auto var = std::make_shared<bool>();
    for (bool v : {false, true}) { Atom a; a.kind = "bool"; a.name = v ? "bool#1" : "bool#0"; a.put = [v](std::ostream &o) { output_bool(o, v); }; a.get = [var](std::istream &i) { input_bool(i, *var); }; a.same = [var, v]() { return *var == v; }; seps(a, NONE); A.push_back(a); }
    typedef std::vector<bool> BV; auto vv = std::make_shared<BV>(), bv = std::make_shared<bit_vector>();
    std::vector<BV> L; for (int len = 0; len <= 3; len++) for (int k = 0; k < 1 << len; k++) { BV v; for (int i = 0; i < len; i++) v.push_back(k >> i & 1); if (len < 2 || k % 3 == 1) L.push_back(v); }
    { BV v; for (int i = 0; i < 17; i++) v.push_back(i % 3 == 0); L.push_back(v); }
    for (size_t i = 0; i < L.size(); i++) {
        BV v = L[i]; Atom a; a.kind = "bool_vector"; a.name = "bool_vector#" + std::to_string(i); a.put = [v](std::ostream &o) { output_bool_vector(o, v); }; a.get = [vv](std::istream &in) { input_bool_vector(in, *vv); }; a.same = [vv, v]() { return *vv == v; }; seps(a, NONE); A.push_back(a);
        a.kind = "bit_vector"; a.name = "bit_vector#" + std::to_string(i); a.put = [v](std::ostream &o) { serialize_bit_vector(o, v); }; a.get = [bv](std::istream &in) { deserialize_bit_vector(in, *bv); }; a.same = [bv, v]() { return *bv == v; }; A.push_back(a);
    }
}
template<class T> std::vector<std::vector<T>> vecs(const std::vector<T> &v)
{
    std::vector<std::vector<T>> r; r.push_back({}); r.push_back({v[0]}); r.push_back({v.back()}); r.push_back({v[0], v.back()}); r.push_back({v.back(), v[0], v.back()}); return r;
}
// long containers: sizes of two and three digits, and of more than one byte
template<class T> std::vector<std::vector<T>> longvecs(const std::vector<T> &v)
{
    std::vector<std::vector<T>> r; for (size_t n : {(size_t)9, (size_t)10, (size_t)11, (size_t)32, (size_t)48, (size_t)99, (size_t)100, (size_t)256, (size_t)300, (size_t)1000}) { std::vector<T> x; for (size_t i = 0; i < n; i++) x.push_back(v[(i * 2 + i / 5) % v.size()]); r.push_back(x); } return r;
}
template<class T> void vectors(Alphabet &A, const std::string &nm, const std::vector<T> &v) { kind<std::vector<T>>(A, "vector<" + nm + ">", vecs(v)); }
template<class K, class T> void maps(Alphabet &A, const std::string &nm, const std::vector<K> &k, const std::vector<T> &v)
{
    typedef std::map<K, T> Mp; std::vector<Mp> r; r.push_back(Mp()); { Mp m; m[k[0]] = v.back(); r.push_back(m); } { Mp m; for (size_t i = 0; i < k.size() && i < 3; i++) m[k[i]] = v[i % v.size()]; r.push_back(m); }
    kind<Mp>(A, "map<" + nm + ">", r);
}
template<class T> void sets(Alphabet &A, const std::string &nm, const std::vector<T> &v)
{
    typedef std::set<T> St; std::vector<St> r; r.push_back(St()); r.push_back(St{v[0]}); r.push_back(St(v.begin(), v.end())); kind<St>(A, "set<" + nm + ">", r);
}
template<class T> std::vector<T> cut(const std::vector<T> &v, size_t n) { return std::vector<T>(v.begin(), v.begin() + std::min(n, v.size())); }

// ---- the alphabets
static void common(Alphabet &A)
{
    std::vector<size_t> sz = {0, 1, 10, ~0ull}; std::vector<long> lg = {-7, 0, 32}; std::vector<uint32_t> u32 = {0, 4294967295u};
    typedef bigint<1> b1; typedef bigint<3> b3;
    std::vector<b1> B1 = {b1(0ul), b1(10ul), b1(0x3131310a20313130ul)}; std::vector<b3> B3 = {B<3>(0), B<3>(mpz_class(1) << 190), B<3>((mpz_class(1) << 130) + 32)};
    kind(A, "size_t", sz, LINE); kind(A, "long", lg, LINE); kind(A, "uint32", u32, LINE); bools(A);
    kind(A, "bigint1", B1); kind(A, "bigint3", B3); vectors(A, "bigint3", B3); vectors(A, "size_t", sz); vectors(A, "long", lg); vectors(A, "vector<size_t>", vecs(sz));
    maps(A, "size_t,size_t", sz, sz); maps(A, "bigint1,bigint3", B1, B3); maps(A, "size_t,vector<size_t>", sz, vecs(sz)); maps(A, "long,bigint1", lg, B1);
    sets(A, "size_t", sz); sets(A, "bigint3", B3); sets(A, "long", lg);
    std::vector<std::set<size_t>> ss = {{}, {5, 6}}; vectors(A, "set<size_t>", ss); std::vector<std::map<size_t, size_t>> mm = {{}, {{1, 2}, {3, 4}}}; vectors(A, "map", mm);
}
static void binaryf(Alphabet &A)
{
    std::vector<gf32> a = {gf32(0), gf32(7), gf32(0xffffffff)}; std::vector<gf64> b = {gf64(0), gf64(12), gf64(~0ull)}; std::vector<gf128> c = {gf128(0, 0), gf128(3, 4), gf128(~0ull, 1)};
    std::vector<gf192> d = {gf192(0, 0, 0), gf192(3, 4, 5), gf192(~0ull, 10, 32)}; std::vector<gf256> e = {gf256(0, 0, 0, 0), gf256(3, 4, 5, 6), gf256(~0ull, 1, 0, 0x3130)};
    kind(A, "gf32", a); kind(A, "gf64", b); kind(A, "gf128", c); kind(A, "gf192", d); kind(A, "gf256", e);
    vectors(A, "gf32", a); vectors(A, "gf64", b); vectors(A, "gf128", c); vectors(A, "gf192", d); vectors(A, "gf256", e); vectors(A, "vector<gf64>", vecs(b));
    std::vector<size_t> k = {1, 5, 9}; maps(A, "size_t,gf64", k, b); maps(A, "size_t,gf256", k, e); maps(A, "size_t,vector<gf32>", k, vecs(a)); kind(A, "size_t", k, LINE);
    bools(A);
}
template<class F> std::vector<F> fvals(const F &x) { std::vector<F> v; v.push_back(F::zero()); v.push_back(x); v.push_back(-F::one()); return v; }
template<class PP> Alphabet curve_alphabet(const typename PT<PP>::G1 &P, const typename PT<PP>::G2 &Q, bool wide)
{
    typedef PT<PP> X; typedef typename X::G1 G1; typedef typename X::G2 G2; typedef typename GK<G1>::F Fq; typedef typename GK<G2>::F Fqe; typedef typename X::FK FK; typedef typename G1::scalar_field Fr;
    Alphabet A;
    std::vector<Fr> fr = fvals(Fr(5)); std::vector<Fq> fq = fvals(Fq(7)); std::vector<Fqe> fe = fvals(flat<mpz_class>(Q.X).zero() ? Fqe::one() + Fqe::one() : Q.X); FK gk = FK::one(); gk.c1 = gk.c0; std::vector<FK> fk = fvals(gk + gk);
    std::vector<G1> g1 = {G1::zero(), P, -(P + P), P + P + P}; std::vector<G2> g2 = {G2::zero(), Q, -(Q + Q)};
    typedef typename X::PG1 PG1; typedef typename X::PG2 PG2; std::vector<PG1> p1 = {X::pre1(P), X::pre1(P + P)}; std::vector<PG2> p2 = {X::pre2(Q), X::pre2(Q + Q)};
    std::vector<size_t> k = {1, 5, 9}; typedef bigint<1> b1; std::vector<b1> kb = {b1(0ul), b1(10ul)};
    kind(A, "Fr", fr); kind(A, "Fq", fq); kind(A, "Fqe", fe); kind(A, "Fqk", fk); kind(A, "G1", g1); kind(A, "G2", g2); kind(A, "G1_precomp", p1); kind(A, "G2_precomp", p2);
    vectors(A, "Fr", fr); vectors(A, "Fq", fq); vectors(A, "Fqe", fe); vectors(A, "Fqk", fk); vectors(A, "G1", g1); vectors(A, "G2", g2);
    maps(A, "size_t,G1", k, g1); maps(A, "bigint,G2", kb, g2); maps(A, "size_t,Fqe", k, fe); maps(A, "size_t,vector<Fqe>", k, vecs(fe));
    if (wide) { typedef typename std::decay<decltype(fk[0].c0)>::type Half; vectors(A, "Fqk.c0", fvals(Half::one())); vectors(A, "G1_precomp", p1); vectors(A, "G2_precomp", p2); maps(A, "size_t,G1_precomp", k, p1); maps(A, "size_t,G2_precomp", k, p2); maps(A, "size_t,Fr", k, fr); maps(A, "size_t,vector<G1>", k, vecs(g1)); maps(A, "size_t,vector<G2>", k, vecs(g2));
        vectors(A, "vector<Fr>", vecs(fr)); vectors(A, "vector<Fqe>", vecs(fe)); vectors(A, "vector<G1>", vecs(g1)); vectors(A, "vector<G2>", vecs(g2)); vectors(A, "vector<Fqk>", vecs(fk)); }
    kind(A, "size_t", k, LINE); bools(A); kind(A, "bigint", kb);
    return A;
}
template<class T> void longs(Alphabet &A, const std::string &nm, const std::vector<T> &v, bool m = true)
{
    kind<std::vector<T>>(A, "long vector<" + nm + ">", longvecs(v)); if (!m) return;
    typedef std::map<size_t, T> Mp; std::vector<Mp> r; for (auto &x : longvecs(v)) { Mp y; for (size_t i = 0; i < x.size(); i++) y[i * i + 3] = x[i]; r.push_back(y); } kind<Mp>(A, "long map<size_t," + nm + ">", r);
}
static Alphabet long_plain()
{
    Alphabet A; std::vector<size_t> sz = {0, 1, 10, 32, ~0ull}, k = {9}; std::vector<long> lg = {-7, 0, 32}; typedef bigint<1> b1; typedef bigint<3> b3;
    longs<size_t>(A, "size_t", sz); longs<long>(A, "long", lg); longs<b1>(A, "bigint1", {b1(0ul), b1(10ul), b1(0x3131310a20313130ul)}); longs<b3>(A, "bigint3", {B<3>(0), B<3>(mpz_class(1) << 190), B<3>((mpz_class(1) << 130) + 32)});
    { std::vector<std::set<size_t>> r; for (size_t n : {(size_t)10, (size_t)99, (size_t)100, (size_t)300}) { std::set<size_t> x; for (size_t i = 0; i < n; i++) x.insert(i * i * 7); r.push_back(x); } kind<std::set<size_t>>(A, "long set<size_t>", r); }
    { typedef std::vector<bool> BV; auto vv = std::make_shared<BV>(); for (size_t n : {(size_t)7, (size_t)8, (size_t)9, (size_t)10, (size_t)63, (size_t)64, (size_t)65, (size_t)99, (size_t)100, (size_t)101, (size_t)256, (size_t)1000}) for (int f = 0; f < 3; f++) {
        BV v; for (size_t i = 0; i < n; i++) v.push_back(f == 0 ? 1 : f == 1 ? i % 3 == 1 : (i * i / 5) & 1);
        Atom a; a.kind = "long bool_vector"; a.name = "bool_vector of " + std::to_string(n); a.put = [v](std::ostream &o) { output_bool_vector(o, v); }; a.get = [vv](std::istream &in) { input_bool_vector(in, *vv); }; a.same = [vv, v]() { return *vv == v; }; seps(a, NONE); A.push_back(a);
        a.kind = "long bit_vector"; a.put = [v](std::ostream &o) { serialize_bit_vector(o, v); }; a.get = [vv](std::istream &in) { deserialize_bit_vector(in, *vv); }; A.push_back(a); } }
    longs<gf32>(A, "gf32", {gf32(0), gf32(7), gf32(0xffffffff)}); longs<gf64>(A, "gf64", {gf64(0), gf64(12), gf64(~0ull)}); longs<gf128>(A, "gf128", {gf128(0, 0), gf128(3, 4), gf128(~0ull, 1)});
    longs<gf192>(A, "gf192", {gf192(0, 0, 0), gf192(3, 4, 5), gf192(~0ull, 10, 32)}); longs<gf256>(A, "gf256", {gf256(0, 0, 0, 0), gf256(3, 4, 5, 6), gf256(~0ull, 1, 0, 0x3130)});
    kind(A, "size_t", k, LINE); return A;
}
template<class PP> Alphabet long_curve(const typename PT<PP>::G1 &P, const typename PT<PP>::G2 &Q)
{
    typedef PT<PP> X; typedef typename X::G1 G1; typedef typename X::G2 G2; typedef typename GK<G1>::F Fq; typedef typename GK<G2>::F Fqe; typedef typename X::FK FK; typedef typename G1::scalar_field Fr;
    Alphabet A; FK gk = FK::one(); gk.c1 = gk.c0;
    longs<Fr>(A, "Fr", fvals(Fr(5))); longs<Fq>(A, "Fq", fvals(Fq(7)), false); longs<Fqe>(A, "Fqe", fvals(flat<mpz_class>(Q.X).zero() ? Fqe::one() + Fqe::one() : Q.X)); longs<FK>(A, "Fqk", fvals(gk + gk), false);
    longs<G1>(A, "G1", {G1::zero(), P, -(P + P), P + P + P}); longs<G2>(A, "G2", {G2::zero(), Q, -(Q + Q)}); std::vector<size_t> k = {9}; kind(A, "size_t", k, LINE); return A;
}
// ---- exploration: all words of the given length over the alphabet; the first position is sharded
static void word(const Alphabet &A, const std::vector<int> &w)
{
    std::stringstream ss; std::vector<long> end; std::string desc;
    for (int i : w) { desc += A[i].name + " "; A[i].put(ss); end.push_back((long)ss.str().size()); A[i].sep(ss); }
    at("%s", desc.c_str()); state();
    size_t total = ss.str().size();
    for (size_t i = 0; i < w.size(); i++) {
        const Atom &a = A[w[i]];
        a.get(ss);
        bool ok = !ss.fail(); long pos = ss.rdbuf()->pubseekoff(0, std::ios_base::cur, std::ios_base::in);
        // trailing end-of-file state is normal for the last value only
        VF_CHECK(ok, a.kind + ".stream", "value %zu of [%s] cannot be read", i, desc.c_str());
        if (!ok) return;
        VF_CHECK(pos == end[i], a.kind + ".consumed", "reading value %zu of [%s] stops at byte %ld instead of %ld", i, desc.c_str(), pos, end[i]);
        VF_CHECK(a.same(), a.kind + ".value", "value %zu of [%s] is read back differently", i, desc.c_str());
        if (pos != end[i]) return;
        if (i + 1 < w.size()) VF_CHECK(!ss.eof(), a.kind + ".eof", "value %zu of [%s]: end of stream", i, desc.c_str());
        a.skip(ss);
    }
    VF_CHECK((size_t)ss.rdbuf()->pubseekoff(0, std::ios_base::cur, std::ios_base::in) == total, "rest", "[%s] leaves bytes unread", desc.c_str());
}
static void words(const Alphabet &A, int len, unsigned s, unsigned ns)
{
    std::vector<int> w(len, 0); size_t n = A.size(), tot = 1; for (int i = 0; i < len; i++) tot *= n;
    for (size_t k = s; k < tot; k += ns) { size_t j = k; for (int i = 0; i < len; i++) { w[i] = j % n; j /= n; } word(A, w); }
    std::set<std::string> kinds; for (auto &a : A) kinds.insert(a.kind);
    sample("alphabet", std::to_string(n) + " values of " + std::to_string(kinds.size()) + " kinds, words of length " + std::to_string(len)); trace();
}
// one value of each kind: words one longer
static Alphabet thin(const Alphabet &A, unsigned pick)
{
    std::map<std::string, std::vector<size_t>> by; std::vector<std::string> order; for (size_t i = 0; i < A.size(); i++) { if (!by.count(A[i].kind)) order.push_back(A[i].kind); by[A[i].kind].push_back(i); }
    Alphabet r; for (auto &k : order) r.push_back(A[by[k][std::min<size_t>(pick, by[k].size() - 1)]]); return r;
}
template<class MK> void explore(const char *nm, MK mk, int len, unsigned ns, bool deep)
{
    for (int l = 1; l <= len; l++) for (unsigned s = 0; s < (l == 1 ? 1 : ns); s++) if (unit("%s words of length %d %u/%u", nm, l, s, l == 1 ? 1 : ns)) { Alphabet A = mk(); words(A, l, s, l == 1 ? 1 : ns); }
    if (deep) for (unsigned pick = 0; pick < 3; pick++) for (unsigned s = 0; s < ns; s++) if (unit("%s kinds only (value %u), length %d %u/%u", nm, pick, len + 1, s, ns)) { Alphabet A = mk(); words(thin(A, pick), len + 1, s, ns); }
}
// every long value alone, then followed and preceded by a short one
static void long_words(const Alphabet &A) { int n = (int)A.size() - 1; for (int i = 0; i <= n; i++) { word(A, {i}); word(A, {i, n}); word(A, {n, i}); tick(); } for (int i = 0; i + 1 < n; i++) word(A, {i + 1, i, n}); trace(); }
template<class PP, class MK> void curve(const char *nm, MK make, int len, unsigned ns, bool deep, bool wide)
{
    typedef PT<PP> X; typedef typename X::G1 G1; typedef typename X::G2 G2;
    explore(nm, [=]() { auto c = make(); return curve_alphabet<PP>(rep<G1>(c.E1, c.P1), rep<G2>(c.E2, c.P2), wide); }, len, ns, deep);
}
VF_MAIN([]() {
    quiet(); bool th = thorough();
    explore("plain", []() { Alphabet A; common(A); return A; }, 3, 8, th);
    explore("binary fields", []() { Alphabet A; binaryf(A); return A; }, 3, 8, th);
    curve<alt_bn128_pp>("BN(-1)", []() { return tiny_alt_bn128(-1); }, th ? 3 : 2, 16, true, false); curve<bls12_381_pp>("BLS12(-2)", []() { return tiny_bls12_381(-2); }, 2, 16, true, false); curve<mnt4_pp>("MNT4(13,17)", []() { return tiny_mnt4(13, 17); }, th ? 3 : 2, 16, true, false);
    curve<mnt6_pp>("MNT6(37,31)", []() { return tiny_mnt6(37, 31); }, 2, 16, true, false); curve<edwards_pp>("EDW(43,13)", []() { return tiny_edwards(43, 13, 5); }, th ? 3 : 2, 16, true, false);
    curve<alt_bn128_pp>("alt_bn128", ship_alt_bn128, th ? 2 : 1, 8, false, true); curve<bls12_381_pp>("bls12_381", ship_bls12_381, th ? 2 : 1, 8, false, true); curve<mnt4_pp>("mnt4", ship_mnt4, th ? 2 : 1, 8, false, true);
    curve<mnt6_pp>("mnt6", ship_mnt6, th ? 2 : 1, 8, false, true); curve<edwards_pp>("edwards", ship_edwards, th ? 2 : 1, 8, false, true);
    if (unit("plain long containers")) long_words(long_plain());
#define LONG(PP, nm, make) if (unit("%s long containers", nm)) { auto c = make; long_words(long_curve<PP>(rep<typename PT<PP>::G1>(c.E1, c.P1), rep<typename PT<PP>::G2>(c.E2, c.P2))); }
    LONG(alt_bn128_pp, "BN(-1)", tiny_alt_bn128(-1)) LONG(bls12_381_pp, "BLS12(-2)", tiny_bls12_381(-2)) LONG(mnt4_pp, "MNT4(13,17)", tiny_mnt4(13, 17)) LONG(mnt6_pp, "MNT6(37,31)", tiny_mnt6(37, 31)) LONG(edwards_pp, "EDW(43,13)", tiny_edwards(43, 13, 5))
    // tiny curves, all kinds including nested containers
    curve<alt_bn128_pp>("BN(-1) wide", []() { return tiny_alt_bn128(-1); }, 2, 4, false, true); curve<mnt4_pp>("MNT4(13,17) wide", []() { return tiny_mnt4(13, 17); }, 2, 4, false, true); curve<mnt6_pp>("MNT6(37,31) wide", []() { return tiny_mnt6(37, 31); }, 2, 4, false, true);
})
