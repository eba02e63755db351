// C20: the random source is replaced by a scripted one; every output sequence within bounds is fed to the real samplers.
#include <random>
#include <sodium/randombytes.h>
#include <openssl/evp.h>
#include "curves.hpp"
#include "towers.hpp"
#include <libff/common/rng.hpp>
#include <libff/common/utils.hpp>
#include <libff/algebra/fields/binary/gf32.hpp>
#include <libff/algebra/fields/binary/gf64.hpp>
#include <libff/algebra/fields/binary/gf128.hpp>
#include <libff/algebra/fields/binary/gf192.hpp>
#include <libff/algebra/fields/binary/gf256.hpp>
using namespace vf; using namespace libff;
typedef std::vector<uint32_t> W;

// ---- scripted generator: the words of the script, then zeros (accepted by every sampler)
static W g_script; static size_t g_pos, g_bytepos; static bool g_live; struct Runaway {};
static uint32_t next_word()
{
    if (g_pos > g_script.size() + 4096) throw Runaway();
    uint32_t w = g_pos < g_script.size() ? g_script[g_pos] : 0; g_pos++; return w;
}
unsigned int std::random_device::_M_getval() { g_live = true; return next_word(); }
unsigned int std::random_device::_M_getval_pretr1() { g_live = true; return next_word(); }
void std::random_device::_M_init(const std::string &) {}
void std::random_device::_M_fini() {}
extern "C" void randombytes_buf(void *const buf, const size_t size)
{
    g_live = true; unsigned char *p = (unsigned char *)buf;
    for (size_t i = 0; i < size; i += 4) { uint32_t w = next_word(); for (size_t k = i; k < i + 4 && k < size; k++) { p[k] = (unsigned char)w; w >>= 8; } }
}
extern "C" uint32_t randombytes_random(void) { g_live = true; return next_word(); }
static void play(const W &s) { g_script = s; g_pos = 0; }
static size_t drawn() { return g_pos; }

template<class F> F draw(const W &s) { play(s); return F::random_element(); }
template<class F> std::string key(const F &f) { return flat<mpz_class>(f).s(); }
static W bitword(size_t words, std::initializer_list<size_t> on, bool invert = false)
{
    W w(words, invert ? ~0u : 0u); for (size_t b : on) w[b / 32] ^= 1u << (b % 32); return w;
}
static W cat(const W &a, const W &b) { W r = a; r.insert(r.end(), b.begin(), b.end()); return r; }
static W words(const mpz_class &v, size_t n) { W w(n, 0); for (size_t i = 0; i < n; i++) w[i] = mpz_class(v >> (32 * i)).get_ui() & 0xffffffffu; return w; }

// layout of one round of a prime-field sampler, discovered by flipping single bits
struct Round { size_t n; std::vector<size_t> vis; std::vector<bool> isvis; };
template<class F> Round discover(const char *nm)
{
    Round r; play(W()); F z = F::random_element(); r.n = drawn();
    VF_CHECK(r.n > 0, std::string(nm) + ".source", "no words drawn from the generator");
    std::string kz = key(z); r.isvis.assign(32 * r.n, false);
    for (size_t b = 0; b < 32 * r.n; b++) { F f = draw<F>(bitword(r.n, {b})); if (drawn() != r.n || key(f) != kz) { r.vis.push_back(b); r.isvis[b] = true; } trans(); }
    return r;
}
static W pattern(const Round &r, u64 v, int filler)
{
    W w(r.n, 0);
    for (size_t b = 0; b < 32 * r.n; b++) { bool bit = r.isvis[b] ? false : filler == 1 ? true : filler == 2 ? b & 1 : false; if (bit) w[b / 32] |= 1u << (b % 32); }
    for (size_t i = 0; i < r.vis.size(); i++) if (v >> i & 1) w[r.vis[i] / 32] |= 1u << (r.vis[i] % 32);
    return w;
}
template<class F, mp_size_t n> void tiny(u64 p)
{
    if (!unit("Fp limbs=%d p=%lu", (int)n, (unsigned long)p)) return;
    typedef bigint<n> Bn; std::string nm = "fp";
    setup_fp<F, n>(*(Bn *)&F::mod, p); 
    Round r = discover<F>("fp"); size_t b = r.vis.size(); u64 N = 1ull << b;
    VF_CHECK(N >= p, nm + ".bits", "limbs=%d p=%lu: only %zu generator bits influence the result", (int)n, (unsigned long)p, b);
    VF_CHECK(b <= 18, nm + ".bits", "limbs=%d p=%lu: %zu generator bits influence the result: not rejection sampling, cannot be exactly uniform", (int)n, (unsigned long)p, b);
    if (b > 18) return;
    std::vector<long> first(N, -1); // value of the first round, or -1 when rejected
    for (int filler = 0; filler < 3; filler++) {
        std::vector<u64> cnt(p, 0); u64 acc = 0;
        for (u64 v = 0; v < N; v++) {
            W w = pattern(r, v, filler); at("fp limbs=%d p=%lu pattern=%lu filler=%d", (int)n, (unsigned long)p, (unsigned long)v, filler); state();
            F f = draw<F>(w); bool rej = drawn() > r.n; u64 x; val(f, x);
            VF_CHECK(x < p, nm + ".canonical", "limbs=%d p=%lu words %lx: not reduced", (int)n, (unsigned long)p, (unsigned long)v);
            if (x >= p) continue;
            if (!rej) { cnt[x]++; acc++; if (filler == 0) first[v] = x; }
            VF_CHECK(rej ? first[v] == -1 : first[v] == (long)x, nm + ".masked", "limbs=%d p=%lu pattern %lx: bits that had no influence alone change the result", (int)n, (unsigned long)p, (unsigned long)v);
            F g; g.mont_repr.data[0] = p - 1; for (int i = 1; i < n; i++) g.mont_repr.data[i] = 0; // previous contents do not matter
            play(w); g.randomize(); VF_CHECK(g == f, nm + ".randomize", "limbs=%d p=%lu pattern %lx: randomize() differs from random_element()", (int)n, (unsigned long)p, (unsigned long)v);
        }
        for (u64 x = 0; x < p; x++) VF_CHECK(cnt[x] * p == acc && acc, nm + ".uniform", "limbs=%d p=%lu: value %lu from %lu of %lu accepted patterns", (int)n, (unsigned long)p, (unsigned long)x, (unsigned long)cnt[x], (unsigned long)acc);
    }
    // every rejected prefix of up to two rounds leaves the distribution of the following round unchanged
    std::vector<u64> rejected; for (u64 v = 0; v < N; v++) if (first[v] < 0) rejected.push_back(v);
    std::vector<W> pre; for (u64 a : rejected) pre.push_back(pattern(r, a, a & 1));
    size_t one = pre.size(), lim = thorough() ? 64 : 12; for (size_t i = 0; i < one && i < lim; i++) for (size_t j = 0; j < one && j < lim; j++) pre.push_back(cat(pre[i], pre[j]));
    if (p < 70 || thorough()) for (auto &q : pre) for (u64 v = 0; v < N; v++) {
        state(); F f = draw<F>(cat(q, pattern(r, v, 0))); u64 x; val(f, x); at("fp limbs=%d p=%lu prefix of %zu then %lu", (int)n, (unsigned long)p, q.size(), (unsigned long)v);
        if (first[v] >= 0) VF_CHECK((long)x == first[v] && drawn() == q.size() + r.n, nm + ".rejection", "limbs=%d p=%lu: after %zu rejected words pattern %lx gives %lu, alone %ld", (int)n, (unsigned long)p, q.size(), (unsigned long)v, (unsigned long)x, first[v]);
        else VF_CHECK(drawn() > q.size() + r.n, nm + ".rejection", "limbs=%d p=%lu: pattern %lx rejected alone but accepted after a rejection", (int)n, (unsigned long)p, (unsigned long)v);
    }
    trace();
}
template<class F, mp_size_t n> void big(const char *what, const mpz_class &p)
{
    if (!unit("%s", what)) return;
    setup_modulus<F, n>(*(bigint<n> *)&F::mod, p);
    Round r = discover<F>("fp"); size_t b = mpz_sizeinbase(p.get_mpz_t(), 2);
    VF_CHECK(r.vis.size() >= b, "fp.bits", "%s: only %zu of %zu bits influence the result", what, r.vis.size(), b);
    std::map<std::string, std::string> seen; bool layout = true; F z = draw<F>(W());
    auto feed = [&](const W &w) {
        state(); F f = draw<F>(w); bool rej = drawn() > r.n; std::string mask;
        VF_CHECK(canonical(f), "fp.canonical", "%s: unreduced result", what);
        if (rej) return f;
        for (size_t v : r.vis) mask += '0' + (w[v / 32] >> (v % 32) & 1);
        auto it = seen.emplace(key(f), mask); VF_CHECK(it.first->second == mask, "fp.uniform", "%s: two accepted outputs of the generator give %s", what, key(f).c_str());
        return f;
    };
    for (size_t v : r.vis) { F f = feed(bitword(r.n, {v})); if (drawn() == r.n && Z(f.mont_repr) != (mpz_class(1) << v)) layout = false; }
    for (size_t i = 0; i < r.vis.size(); i += thorough() ? 1 : 5) for (size_t j = 0; j < i; j += thorough() ? 1 : 3) { at("%s bits %zu %zu", what, i, j); feed(bitword(r.n, {r.vis[i], r.vis[j]})); }
    for (size_t bit = 0; bit < 32 * r.n; bit++) if (!r.isvis[bit]) for (size_t v : r.vis) { F f = draw<F>(bitword(r.n, {bit, v})), g = draw<F>(bitword(r.n, {v})); VF_CHECK(f == g, "fp.masked", "%s: bit %zu", what, bit); trans(); if (v > 3 && !thorough()) break; }
    // corners
    std::vector<mpz_class> xs; mpz_class top = mpz_class(1) << b, all = (mpz_class(1) << (64 * n)) - 1;
    for (int d = -8; d <= 8; d++) { xs.push_back(p + d); xs.push_back(top + d); xs.push_back(top / 2 + d); if (d >= 0) { xs.push_back(d); xs.push_back(all - d); } }
    for (int i = 0; i < n; i++) for (mpz_class f : {mpz_class(0), mpz_class(1), mpz_class(all >> (64 * (n - 1)))}) { // p with one limb replaced
        mpz_class m = ((all >> (64 * (n - 1))) << (64 * i)); mpz_class v; mpz_and(v.get_mpz_t(), p.get_mpz_t(), mpz_class(all - m).get_mpz_t()); v += f << (64 * i);
        for (int d = -1; d <= 1; d++) if (v + d >= 0) xs.push_back(v + d);
        // limbs above i equal to those of p, limb i one more / one less
        mpz_class q = p + (mpz_class(1) << (64 * i)), s = p - (mpz_class(1) << (64 * i)); xs.push_back(q); if (s >= 0) xs.push_back(s);
    }
    std::vector<W> rej;
    for (auto &x : xs) {
        if (x < 0 || x > all) continue;
        W w = words(x, r.n); mpz_class low; mpz_fdiv_r_2exp(low.get_mpz_t(), x.get_mpz_t(), b); at("%s corner %s", what, x.get_str(16).c_str());
        F f = feed(w); bool isrej = drawn() > r.n; if (isrej) rej.push_back(w);
        if (layout) VF_CHECK(isrej == (low >= p) && (isrej || Z(f.mont_repr) == low), "fp.acceptance", "%s: words %s %s", what, x.get_str(16).c_str(), isrej ? "rejected" : "accepted");
        F g = draw<F>(w); VF_CHECK(f == g, "fp.source", "%s: same generator output, different element", what);
        memset((void *)&g, 0xa5, sizeof g); play(w); g.randomize(); VF_CHECK(f == g, "fp.randomize", "%s: depends on previous contents", what);
    }
    if (layout) VF_CHECK(rej.size() > 0 || p == top - 1, "fp.acceptance", "%s: no output rejected", what);
    for (auto &q : rej) for (auto &x : xs) if (x >= 0 && x < p && (thorough() || x % 3 == 0)) { F f = draw<F>(cat(q, words(x, r.n))), g = draw<F>(words(x, r.n)); state(); VF_CHECK(f == g, "fp.rejection", "%s: result after a rejection differs", what); }
    trace();
}
// bigint: bijective in the generator words
template<mp_size_t n> void raw_bigint()
{
    if (!unit("bigint<%d>", (int)n)) return;
    std::vector<mpz_class> col; play(W()); bigint<n> z; z.randomize(); size_t R = drawn(); mpz_class c0 = Z(z);
    VF_CHECK(R * 32 >= 64u * n, "bigint.bits", "n=%d: %zu words", (int)n, R);
    auto get = [&](const W &w, int fill) { bigint<n> a; memset((void *)&a, fill, sizeof a); play(w); a.randomize(); VF_CHECK(drawn() == w.size(), "bigint.words", "n=%d", (int)n); return mpz_class(Z(a) ^ c0); };
    for (size_t b = 0; b < 32 * R; b++) col.push_back(get(bitword(R, {b}), 0xff));
    // linear over GF(2) on all pairs, and of full rank: a bijection
    for (size_t i = 0; i < 32 * R; i++) for (size_t j = 0; j < i; j++) { state(); at("bigint<%d> bits %zu %zu", (int)n, i, j); VF_CHECK(get(bitword(R, {i, j}), j & 1 ? 0 : 0x5a) == mpz_class(col[i] ^ col[j]), "bigint.bits", "n=%d bits %zu,%zu", (int)n, i, j); }
    std::vector<mpz_class> m = col; size_t rank = 0;
    for (int b = 64 * n - 1; b >= 0; b--) { size_t i = rank; while (i < m.size() && !mpz_tstbit(m[i].get_mpz_t(), b)) i++; if (i == m.size()) continue; std::swap(m[i], m[rank]); for (size_t k = 0; k < m.size(); k++) if (k != rank && mpz_tstbit(m[k].get_mpz_t(), b)) m[k] ^= m[rank]; rank++; }
    VF_CHECK(rank == 64u * n, "bigint.bits", "n=%d: rank %zu of %d", (int)n, rank, 64 * (int)n); trace();
}
template<class G> void binary(const char *nm, int bits)
{
    if (!unit("%s", nm)) return;
    auto words_of = [](const G &g) { mpz_class z = 0; auto v = g.to_words(); for (size_t i = v.size(); i-- > 0;) z = (z << 64) + mpz_class((unsigned long)v[i]); return z; };
    play(W()); G z = G::random_element(); size_t R = drawn(); mpz_class c0 = words_of(z); std::vector<mpz_class> col;
    VF_CHECK(R * 32 >= (size_t)bits, "gf.bits", "%s: %zu words drawn", nm, R);
    auto get = [&](const W &w) { play(w); G g = G::random_element(); VF_CHECK(drawn() == w.size(), "gf.words", "%s", nm); G h = G::one(); play(w); h.randomize(); VF_CHECK(h == g, "gf.randomize", "%s: depends on previous contents", nm); return mpz_class(words_of(g) ^ c0); };
    for (size_t b = 0; b < 32 * R; b++) col.push_back(get(bitword(R, {b})));
    for (size_t i = 0; i < 32 * R; i++) for (size_t j = 0; j < i; j++) { state(); at("%s bits %zu %zu", nm, i, j); VF_CHECK(get(bitword(R, {i, j})) == mpz_class(col[i] ^ col[j]), "gf.bits", "%s bits %zu,%zu", nm, i, j); }
    std::vector<mpz_class> m = col; size_t rank = 0;
    for (int b = bits - 1; b >= 0; b--) { size_t i = rank; while (i < m.size() && !mpz_tstbit(m[i].get_mpz_t(), b)) i++; if (i == m.size()) continue; std::swap(m[i], m[rank]); for (size_t k = 0; k < m.size(); k++) if (k != rank && mpz_tstbit(m[k].get_mpz_t(), b)) m[k] ^= m[rank]; rank++; }
    VF_CHECK(rank == (size_t)bits, "gf.bits", "%s: rank %zu of %d", nm, rank, bits); trace();
}
// ---- towers: every coordinate its own fresh uniform draw
template<class F, class Fb, mp_size_t n> void tower(const char *nm, u64 p, int deg)
{
    if (!unit("%s p=%lu", nm, (unsigned long)p)) return;
    setup_fp<Fb, n>(*(bigint<n> *)&Fb::mod, p);
    Round r = discover<Fb>(nm); if (r.vis.size() > 12) { fail("tower.bits", "unexpected layout"); return; }
    std::vector<W> acc, rej; for (u64 v = 0; v < (1ull << r.vis.size()); v++) { W w = pattern(r, v, v % 3); draw<Fb>(w); (drawn() > r.n ? rej : acc).push_back(w); }
    VF_CHECK(acc.size() % p == 0, "tower.uniform", "%s base field", nm);
    play(W()); F::random_element(); VF_CHECK(drawn() == r.n * deg, "tower.words", "%s: %zu words for %d coordinates of %zu", nm, drawn(), deg, r.n);
    size_t A = acc.size(); std::vector<u64> c(deg);
    auto at_script = [&](const std::vector<size_t> &idx, int cut = -1, const W *ins = nullptr) { W w; for (int i = 0; i < deg; i++) { if (i == cut) w = cat(w, *ins); w = cat(w, acc[idx[i]]); } state(); F f = draw<F>(w); E64 e = flat<u64>(f);
        for (int i = 0; i < deg; i++) { c[i] = e.c[i]; VF_CHECK(c[i] < p, "tower.canonical", "%s p=%lu", nm, (unsigned long)p); }
        VF_CHECK(drawn() == w.size(), "tower.words", "%s p=%lu: consumed %zu of %zu words", nm, (unsigned long)p, drawn(), w.size()); return f; };
    mpz_class tot = ref::ipow(mpz_class((unsigned long)A), deg);
    if (tot <= (thorough() ? 5000000 : 300000)) { // every combination
        std::vector<size_t> idx(deg, 0); std::map<std::vector<u64>, u64> cnt; u64 T = tot.get_ui();
        for (u64 t = 0; t < T; t++) { u64 x = t; for (int i = 0; i < deg; i++) { idx[i] = x % A; x /= A; } at("%s p=%lu script %lu", nm, (unsigned long)p, (unsigned long)t); at_script(idx); cnt[c]++; }
        mpz_class sz = ref::ipow(mpz_class((unsigned long)p), deg); VF_CHECK(sz == cnt.size(), "tower.uniform", "%s p=%lu: %zu different elements", nm, (unsigned long)p, cnt.size());
        for (auto &k : cnt) VF_CHECK(mpz_class((unsigned long)k.second) * sz == tot, "tower.uniform", "%s p=%lu: an element occurs %lu times", nm, (unsigned long)p, (unsigned long)k.second);
    }
    // each draw determines exactly one coordinate, bijectively, over several backgrounds
    std::vector<int> owner(deg, -1);
    for (int bg = 0; bg < 3; bg++) for (int i = 0; i < deg; i++) {
        std::vector<size_t> idx(deg); for (int j = 0; j < deg; j++) idx[j] = bg == 0 ? 0 : bg == 1 ? A - 1 : (j * 3 + 1) % A;
        std::vector<std::set<u64>> vals(deg);
        for (size_t a = 0; a < A; a++) { idx[i] = a; at("%s p=%lu draw %d", nm, (unsigned long)p, i); at_script(idx); for (int j = 0; j < deg; j++) vals[j].insert(c[j]); }
        int o = -1, changing = 0; for (int j = 0; j < deg; j++) if (vals[j].size() > 1) { changing++; o = j; }
        VF_CHECK(changing == 1 && vals[o < 0 ? 0 : o].size() == p && (owner[i] < 0 || owner[i] == o), "tower.independent", "%s p=%lu: draw %d determines %d coordinates", nm, (unsigned long)p, i, changing); owner[i] = o;
    }
    std::set<int> os(owner.begin(), owner.end()); VF_CHECK((int)os.size() == deg, "tower.independent", "%s p=%lu: a coordinate without a draw of its own", nm, (unsigned long)p);
    // joint values of every pair of draws; a rejection inserted anywhere changes nothing
    for (int i = 0; i < deg; i++) for (int j = 0; j < i; j++) { std::vector<size_t> idx(deg, 1 % A); std::set<std::vector<u64>> sn; for (size_t a = 0; a < A; a++) for (size_t b = 0; b < A; b++) { idx[i] = a; idx[j] = b; at_script(idx); sn.insert(c); } VF_CHECK(sn.size() == p * p, "tower.uniform", "%s p=%lu: draws %d,%d give %zu of %lu values", nm, (unsigned long)p, i, j, sn.size(), (unsigned long)(p * p)); }
    for (auto &q : rej) for (int i = 0; i < deg; i++) { std::vector<size_t> idx(deg); for (int j = 0; j < deg; j++) idx[j] = (j + i) % A; F x = at_script(idx), y = at_script(idx, i, &q); VF_CHECK(x == y, "tower.rejection", "%s p=%lu: rejection before coordinate %d", nm, (unsigned long)p, i); F h = F::one(); (void)h; }
    trace();
}
// ---- groups
template<class G, class Fr> void group(const Crv<u64> &C, const Pt<u64> &P, u64 r0)
{
    std::string nm = std::string(GK<G>::name()) + ".random"; Round r = discover<Fr>(nm.c_str()); u64 N = 1ull << r.vis.size();
    if (r.vis.size() > 16) { fail(nm, "unexpected layout"); return; }
    auto t = C.table(P, r0); std::vector<u64> cnt(r0, 0); u64 acc = 0;
    for (u64 v = 0; v < N; v++) {
        W w = pattern(r, v, v % 3); at("%s pattern %lu", nm.c_str(), (unsigned long)v); state(); Fr s = draw<Fr>(w); bool rej = drawn() > r.n; u64 k; val(s, k);
        play(w); G g = G::random_element(); VF_CHECK(is(C, g, t[k]), nm, "scalar %lu: %s", (unsigned long)k, gs(g).c_str()); VF_CHECK(drawn() == r.n * (rej ? 2 : 1), nm, "draws %zu words", drawn());
        if (!rej) { cnt[k]++; acc++; }
    }
    for (u64 k = 0; k < r0; k++) VF_CHECK(cnt[k] * r0 == acc, nm, "multiple %lu from %lu of %lu outputs", (unsigned long)k, (unsigned long)cnt[k], (unsigned long)acc);
    trace();
}
template<class G1, class G2, class Fr, class MK> void groups(const char *nm, MK make)
{
    if (!unit("group %s", nm)) return;
    CS c = make(); group<G1, Fr>(c.E1, c.P1, c.r.get_ui()); group<G2, Fr>(c.E2, c.P2, c.r.get_ui());
}
template<class G, class Fr> void sgroup(const Crv<mpz_class> &C, const Pt<mpz_class> &P, const mpz_class &r0)
{
    std::string nm = std::string(GK<G>::name()) + ".random"; play(W()); Fr::random_element(); size_t n = drawn(); std::vector<W> ws;
    for (int d = -3; d <= 3; d++) for (mpz_class b : {mpz_class(0), mpz_class(r0), mpz_class((mpz_class(1) << mpz_sizeinbase(r0.get_mpz_t(), 2)) - 4)}) if (b + d >= 0) ws.push_back(words(b + d, n));
    for (size_t b = 0; b < 32 * n; b += thorough() ? 5 : 31) { ws.push_back(bitword(n, {b})); ws.push_back(bitword(n, {b}, true)); }
    for (auto &w : ws) { at("%s shipped", nm.c_str()); state(); Fr s = draw<Fr>(w); size_t d = drawn(); play(w); G g = G::random_element(); VF_CHECK(d == drawn() && is(C, g, C.mul(Z(s.as_bigint()), P)), nm, "scalar %s: %s", Z(s.as_bigint()).get_str().c_str(), gs(g).c_str()); }
    trace();
}
template<class G1, class G2, class Fr, class MK> void sgroups(const char *nm, MK make)
{
    if (!unit("shipped group %s", nm)) return;
    auto c = make(); sgroup<G1, Fr>(c.E1, c.P1, c.r); sgroup<G2, Fr>(c.E2, c.P2, c.r);
    typedef typename G1::scalar_field Fs; static_assert(std::is_same<Fs, Fr>::value, "scalar field");
}
// ---- helpers that exclude values: every sequence of up to three draws
template<class F, mp_size_t n> void helpers(u64 p)
{
    if (!unit("helpers p=%lu", (unsigned long)p)) return;
    setup_fp<F, n>(*(bigint<n> *)&F::mod, p);
    Round r = discover<F>("helpers"); std::vector<W> all; for (u64 v = 0; v < (1ull << r.vis.size()); v++) all.push_back(pattern(r, v, 0));
    size_t A = all.size();
    auto run = [&](const char *what, std::set<u64> excl, const std::function<F()> &f) {
        std::vector<u64> cnt(p, 0); u64 tot = 0;
        for (size_t a = 0; a < A; a++) for (size_t b = 0; b < A; b++) for (size_t c = 0; c < A; c++) {
            state(); at("%s p=%lu draws %zu %zu %zu", what, (unsigned long)p, a, b, c);
            W w = cat(cat(all[a], all[b]), all[c]); W tail; for (int k = 0; k < 3; k++) tail = cat(tail, words(mpz_class(1) << 0, r.n)); // never reached unless all three are refused
            for (size_t k = 0; k < A; k++) tail = cat(tail, all[k]);
            play(cat(w, tail)); u64 x; F y = f(); val(y, x); bool in = drawn() <= w.size();
            VF_CHECK(x < p && !excl.count(x), std::string("helpers.") + what, "p=%lu draws %zu,%zu,%zu: returned %lu", (unsigned long)p, a, b, c, (unsigned long)x);
            if (in && x < p) { cnt[x]++; tot++; }
        }
        for (u64 x = 0; x < p; x++) VF_CHECK(excl.count(x) ? cnt[x] == 0 : cnt[x] * (p - excl.size()) == tot && tot, std::string("helpers.") + what, "p=%lu: value %lu from %lu of %lu sequences", (unsigned long)p, (unsigned long)x, (unsigned long)cnt[x], (unsigned long)tot);
    };
    if (p > 3 || true) run("non_zero", {0}, []() { return random_element_non_zero<F>(); });
    run("non_zero_one", {0, 1}, []() { return random_element_non_zero_one<F>(); });
    for (u64 y = 0; y < p; y++) { F e = mkf<F>(y); run("exclude", {y}, [e]() { return random_element_exclude<F>(e); }); }
    trace();
}
template<class F> void helpers_gf(const char *nm)
{
    if (!unit("helpers %s", nm)) return;
    play(W()); F z = F::random_element(); size_t R = drawn(); W w1; // words producing one()
    for (size_t b = 0; b < 32 * R; b++) if (draw<F>(bitword(R, {b})) == F::one()) w1 = bitword(R, {b});
    W w0(R, 0), w2 = bitword(R, {1}), w3 = bitword(R, {5, 17}); std::vector<W> al = {w0, w1.empty() ? w2 : w1, w2, w3};
    for (size_t a = 0; a < 4; a++) for (size_t b = 0; b < 4; b++) for (size_t c = 0; c < 4; c++) {
        W w = cat(cat(cat(al[a], al[b]), al[c]), w3); F x[4] = {draw<F>(al[a]), draw<F>(al[b]), draw<F>(al[c]), draw<F>(w3)}; state(); at("helpers %s", nm);
        auto want = [&](auto bad) { for (auto &v : x) if (!bad(v)) return v; return x[3]; };
        play(w); F g = random_element_non_zero<F>(); VF_CHECK(g == want([](const F &v) { return v.is_zero(); }), "helpers.non_zero", "%s %zu%zu%zu", nm, a, b, c);
        play(w); g = random_element_non_zero_one<F>(); VF_CHECK(g == want([](const F &v) { return v.is_zero() || v == F::one(); }), "helpers.non_zero_one", "%s %zu%zu%zu", nm, a, b, c);
        for (auto &e : {draw<F>(w0), draw<F>(w2), F::one()}) { play(w); g = random_element_exclude<F>(e); VF_CHECK(g == want([&](const F &v) { return v == e; }), "helpers.exclude", "%s %zu%zu%zu", nm, a, b, c); }
    }
    trace();
}
// ---- hash-derived elements
static mpz_class hash_ref(u64 idx, const mpz_class &p, int n)
{
    size_t b = mpz_sizeinbase(p.get_mpz_t(), 2);
    for (u64 it = 0;; it++) {
        unsigned char in[16], out[64]; for (int i = 0; i < 8; i++) { in[i] = idx >> (8 * i); in[8 + i] = it >> (8 * i); }
        unsigned len = 64; EVP_Digest(in, 16, out, &len, EVP_sha512(), nullptr);
        mpz_class z; mpz_import(z.get_mpz_t(), 8, -1, 8, -1, 0, out); mpz_fdiv_r_2exp(z.get_mpz_t(), z.get_mpz_t(), std::min<size_t>(b, 64 * n));
        if (z < p) return z;
    }
}
template<class F, mp_size_t n> void hashed(const char *what, const mpz_class &p, u64 count)
{
    if (!unit("SHA512_rng %s", what)) return;
    if (Z(*(bigint<n> *)&F::mod) != p) setup_modulus<F, n>(*(bigint<n> *)&F::mod, p);
    std::vector<u64> idx; for (u64 i = 0; i < count; i++) idx.push_back(i);
    for (int s = 0; s < 64; s++) for (int d = -1; d <= 1; d++) idx.push_back((1ull << s) + d);
    std::map<u64, mpz_class> seen;
    for (int pass = 0; pass < 2; pass++) for (size_t k = 0; k < idx.size(); k++) {
        u64 i = pass ? idx[idx.size() - 1 - k] : idx[k]; state(); at("SHA512_rng %s idx=%lu", what, (unsigned long)i);
        play(W(8, 0xdeadbeef)); F f = SHA512_rng<F>(i); VF_CHECK(g_pos == 0, "sha512.source", "%s: uses the random generator", what);
        VF_CHECK(canonical(f), "sha512.canonical", "%s idx=%lu", what, (unsigned long)i); mpz_class z = Z(f.as_bigint());
        if (pass == 0) VF_CHECK(z == hash_ref(i, p, n), "sha512.value", "%s idx=%lu: %s", what, (unsigned long)i, z.get_str().c_str());
        auto it = seen.emplace(i, z); VF_CHECK(it.first->second == z, "sha512.fixed", "%s idx=%lu: depends on the calls before", what, (unsigned long)i);
    }
    trace();
}
template<mp_size_t n> using FM = Fp_model<n, M<n>::m>;
template<mp_size_t n> void all_tiny(const std::vector<u64> &ps) { for (u64 p : ps) tiny<FM<n>, n>(p); }
VF_MAIN([]() {
    quiet(); bool th = thorough();
    std::vector<u64> ps; for (u64 p = 3; p < (th ? 520 : 70); p += 2) { bool pr = true; for (u64 d = 3; d * d <= p; d += 2) if (p % d == 0) pr = false; if (pr) ps.push_back(p); }
    for (u64 p : {127, 257, 509, 521, 1021, 1031, 4093, 8191}) if (std::find(ps.begin(), ps.end(), p) == ps.end()) ps.push_back(p);
    all_tiny<1>(ps); all_tiny<4>(ps);
    if (th) { all_tiny<2>(ps); all_tiny<3>(ps); all_tiny<5>(ps); all_tiny<6>(ps); } else { all_tiny<2>({3, 7, 61, 257}); all_tiny<3>({5, 17, 67, 127}); all_tiny<5>({11, 13}); all_tiny<6>({31, 37, 257}); }
    mpz_class one = 1;
    big<FM<1>, 1>("p=2^64-59", (one << 64) - 59); big<FM<1>, 1>("p=2^32+15", (one << 32) + 15); big<FM<1>, 1>("p=2^31-1", (one << 31) - 1); big<FM<1>, 1>("p=2^63+29", (one << 63) + 29); big<FM<2>, 2>("p=2^64+13", (one << 64) + 13); big<FM<2>, 2>("p=2^127-1", (one << 127) - 1); big<FM<2>, 2>("p=2^96+61", (one << 96) + 61); big<FM<2>, 2>("p=2^128-159", (one << 128) - 159); big<FM<2>, 2>("p=2^127+29", (one << 127) + 29); big<FM<4>, 4>("p=2^256-189", (one << 256) - 189); big<FM<6>, 6>("p=2^383+..", []() { mpz_class v = (mpz_class(1) << 383) + (mpz_class(1) << 200); mpz_nextprime(v.get_mpz_t(), v.get_mpz_t()); return v; }());
    alt_bn128_pp::init_public_params(); mpz_class am[2] = {Z(alt_bn128_modulus_q), Z(alt_bn128_modulus_r)}; bls12_381_pp::init_public_params(); edwards_pp::init_public_params(); mnt4_pp::init_public_params(); mnt6_pp::init_public_params();
    big<FM<4>, 4>("alt_bn128.q", am[0]); big<FM<4>, 4>("alt_bn128.r", am[1]); big<FM<6>, 6>("bls12_381.q", Z(bls12_381_modulus_q)); big<FM<4>, 4>("bls12_381.r", Z(bls12_381_modulus_r)); big<FM<3>, 3>("edwards.q", Z(edwards_modulus_q)); big<FM<3>, 3>("edwards.r", Z(edwards_modulus_r)); big<FM<5>, 5>("mnt.A", Z(mnt46_modulus_A)); big<FM<5>, 5>("mnt.B", Z(mnt46_modulus_B));
    raw_bigint<1>(); raw_bigint<2>(); raw_bigint<3>(); raw_bigint<4>(); raw_bigint<5>(); raw_bigint<6>(); if (th) { raw_bigint<8>(); raw_bigint<12>(); }
    binary<gf32>("gf32", 32); binary<gf64>("gf64", 64); binary<gf128>("gf128", 128); binary<gf192>("gf192", 192); binary<gf256>("gf256", 256);
    typedef FM<1> F; typedef Fp2_model<1, M<1>::m> F2; typedef Fp3_model<1, M<1>::m> F3; typedef Fp4_model<1, M<1>::m> F4; typedef Fp6_2over3_model<1, M<1>::m> F6a; typedef Fp6_3over2_model<1, M<1>::m> F6b; typedef Fp12_2over3over2_model<1, M<1>::m> F12;
    for (u64 p : {3, 5, 7, 13, 31}) { tower<F2, F, 1>("Fp2", p, 2); tower<F3, F, 1>("Fp3", p, 3); if (p < 14) { tower<F4, F, 1>("Fp4", p, 4); tower<F6a, F, 1>("Fp6_2over3", p, 6); tower<F6b, F, 1>("Fp6_3over2", p, 6); } if (p < 8) tower<F12, F, 1>("Fp12", p, 12); }
    typedef FM<4> G; typedef Fp2_model<4, M<4>::m> G2; typedef Fp6_3over2_model<4, M<4>::m> G6b; typedef Fp12_2over3over2_model<4, M<4>::m> G12; typedef Fp3_model<5, M<5>::m> H3; typedef Fp4_model<5, M<5>::m> H4; typedef Fp6_2over3_model<5, M<5>::m> H6; typedef FM<5> H;
    tower<G2, G, 4>("Fp2/4", 5, 2); tower<G6b, G, 4>("Fp6_3over2/4", 3, 6); tower<G12, G, 4>("Fp12/4", 3, 12); tower<H3, H, 5>("Fp3/5", 5, 3); tower<H4, H, 5>("Fp4/5", 5, 4); tower<H6, H, 5>("Fp6_2over3/5", 3, 6);
    for (u64 p : {5, 7, 11, 13}) { if (p < 12 || th) helpers<F, 1>(p); } helpers<FM<4>, 4>(5);
    helpers_gf<gf32>("gf32"); helpers_gf<gf64>("gf64"); helpers_gf<gf128>("gf128"); helpers_gf<gf192>("gf192"); helpers_gf<gf256>("gf256");
    u64 cnt = th ? 100000 : 3000;
    for (u64 p : {3, 5, 17, 31, 257}) { char b[64]; snprintf(b, 64, "p=%lu", (unsigned long)p); hashed<F, 1>(b, p, cnt / 4); snprintf(b, 64, "p=%lu limbs 4", (unsigned long)p); hashed<FM<4>, 4>(b, p, cnt / 8); }
    hashed<FM<1>, 1>("p=2^32+15", (one << 32) + 15, cnt); hashed<FM<1>, 1>("p=2^64-59", (one << 64) - 59, cnt); hashed<FM<1>, 1>("p=2^63+29", (one << 63) + 29, cnt); hashed<FM<2>, 2>("p=2^64+13", (one << 64) + 13, cnt); hashed<FM<8>, 8>("512-bit", (one << 512) - 569, cnt); hashed<FM<8>, 8>("511-bit", (one << 511) - 187, cnt);
    hashed<alt_bn128_Fr, 4>("alt_bn128_Fr", am[1], cnt); hashed<bls12_381_Fr, 4>("bls12_381_Fr", Z(bls12_381_modulus_r), cnt); hashed<bls12_381_Fq, 6>("bls12_381_Fq", Z(bls12_381_modulus_q), cnt); hashed<edwards_Fr, 3>("edwards_Fr", Z(edwards_modulus_r), cnt); hashed<mnt4_Fr, 5>("mnt4_Fr", Z(mnt46_modulus_A), cnt); hashed<mnt6_Fr, 5>("mnt6_Fr", Z(mnt46_modulus_B), cnt);
    typedef alt_bn128_G1 A1; typedef alt_bn128_G2 A2; typedef bls12_381_G1 B1; typedef bls12_381_G2 B2; typedef mnt4_G1 M41; typedef mnt4_G2 M42; typedef mnt6_G1 M61; typedef mnt6_G2 M62; typedef edwards_G1 D1; typedef edwards_G2 D2;
    sgroups<A1, A2, alt_bn128_Fr>("alt_bn128", ship_alt_bn128); sgroups<B1, B2, bls12_381_Fr>("bls12_381", ship_bls12_381); sgroups<M41, M42, mnt4_Fr>("mnt4", ship_mnt4); sgroups<M61, M62, mnt6_Fr>("mnt6", ship_mnt6); sgroups<D1, D2, edwards_Fr>("edwards", ship_edwards);
    groups<A1, A2, alt_bn128_Fr>("BN(-1)", []() { return tiny_alt_bn128(-1); }); groups<A1, A2, alt_bn128_Fr>("BN(1)", []() { return tiny_alt_bn128(1); }); groups<B1, B2, bls12_381_Fr>("BLS12(-2)", []() { return tiny_bls12_381(-2); });
    groups<M41, M42, mnt4_Fr>("MNT4(13,17)", []() { return tiny_mnt4(13, 17); }); groups<M61, M62, mnt6_Fr>("MNT6(37,31)", []() { return tiny_mnt6(37, 31); }); groups<M61, M62, mnt6_Fr>("MNT6(37,43)", []() { return tiny_mnt6(37, 43); }); groups<D1, D2, edwards_Fr>("EDW(19,7)", []() { return tiny_edwards(19, 7, 8); }); groups<D1, D2, edwards_Fr>("EDW(43,13)", []() { return tiny_edwards(43, 13, 5); });
})
