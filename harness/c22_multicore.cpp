// C22: the library compiled with MULTICORE runs on a controlled OpenMP run-time (sched_rt.cpp): every thread count,
// every assignment of iterations to threads, every interleaving of conflicting accesses up to a preemption bound.
#include "curves.hpp"
#include "gcdext_shim.hpp"
#include "sched.hpp"
#include <libff/algebra/scalar_multiplication/multiexp.hpp>
using namespace vf; using namespace libff;
static FILE *g_mem, *g_real; static char *g_buf; static size_t g_len;
static void cap_on() { g_mem = open_memstream(&g_buf, &g_len); g_real = stdout; stdout = g_mem; }
static std::string cap_off() { fflush(g_mem); stdout = g_real; std::string s(g_buf, g_len); fclose(g_mem); return s; }
static size_t count(const std::string &s, const char *w) { size_t n = 0, p = 0; while ((p = s.find(w, p)) != std::string::npos) { n++; p++; } return n; }

struct Job { std::string what; int threads; std::vector<int> assign; bool virt; int profile; }; // profile 0: off, 1: counters, 2: counters and output
template<class F> std::string run_job(const Job &j, const F &f, const std::function<std::string(const decltype(f()) &, const char *)> &judge)
{
    inhibit_profiling_counters = j.profile < 1; inhibit_profiling_info = j.profile < 2; clear_profiling_counters();
    sched::omp_config(j.threads, j.virt ? &j.assign : nullptr); sched::omp_regions = 0;
    cap_on(); auto r = f(); std::string out = cap_off(); std::string bad = judge(r, "parallel"); if (!bad.empty()) return bad;
    if (!sched::omp_regions && j.threads > 1 && j.what.find("x1 ") == std::string::npos) { } // not parallel at all: still judged by its result
    auto cnt = invocation_counts; std::map<std::string, long long> cum = cumulative_times, last = last_times;
    clear_profiling_counters(); sched::omp_config(1); cap_on(); auto s = f(); std::string sout = cap_off(); bad = judge(s, "one thread"); if (!bad.empty()) return bad;
    if (cnt != invocation_counts) { std::string m = "invocation counts"; for (auto &k : cnt) m += " [" + k.first + "]=" + std::to_string(k.second); m += " instead of"; for (auto &k : invocation_counts) m += " [" + k.first + "]=" + std::to_string(k.second); return m; }
    for (auto &k : cnt) if (!cum.count(k.first) || !last.count(k.first) || cum[k.first] < 0 || last[k.first] < 0 || last[k.first] > cum[k.first] || cum[k.first] > 100000000000LL) return "times of block " + k.first + " are inconsistent: cumulative " + std::to_string(cum[k.first]) + " last " + std::to_string(last[k.first]);
    if (count(out, "(enter)") != count(sout, "(enter)") || count(out, "(leave)") != count(sout, "(leave)") || count(out, "(enter)") != count(out, "(leave)")) return "blocks printed: " + std::to_string(count(out, "(enter)")) + " enter " + std::to_string(count(out, "(leave)")) + " leave, alone " + std::to_string(count(sout, "(enter)"));
    // bookkeeping intact: a block entered now is printed at depth zero and counted once
    inhibit_profiling_counters = inhibit_profiling_info = false; clear_profiling_counters(); cap_on(); enter_block("probe"); leave_block("probe"); out = cap_off();
    if (out.compare(0, 7, "(enter)") != 0 || out.find("\n(leave)") == std::string::npos || invocation_counts.size() != 1 || invocation_counts["probe"] != 1 || last_times["probe"] != cumulative_times["probe"]) return "profiler disturbed afterwards: " + out;
    return "";
}
static uint64_t g_execs = 0, g_capped = 0; static bool g_budget = false;
static void explore(const std::string &key, const std::string &what, const std::function<std::string()> &prog, int bound, uint64_t cap)
{
    static std::map<std::string, int> failed; if (failed[key] >= 3) return; // this key is decided
    if (g_execs > 30000 && !thorough()) { cap = std::min<uint64_t>(cap, 12); if (!g_budget) note("execution budget used up: the remaining programs are explored up to 12 schedules each"); g_budget = true; }
    sched::Stat st; at("%s", what.c_str()); state(); std::string m = sched::explore(prog, bound, cap, st); trans(st.execs); g_execs += st.execs; if (st.capped) g_capped++; trace();
    if (st.capped && m.empty()) note((what + ": execution cap reached after " + std::to_string(st.execs)).c_str());
    if (!m.empty()) failed[key]++;
    VF_CHECK(m.empty(), key, "%s: %s (schedule %s; %lu executions, %lu shared lines)", what.c_str(), m.c_str(), st.schedule.c_str(), (unsigned long)st.execs, (unsigned long)st.conflicts);
}
static std::string js(const Job &j) { std::string s = j.what + (j.virt ? " iterations on threads " : " threads=" + std::to_string(j.threads)); if (j.virt) for (int a : j.assign) s += std::to_string(a); return s + " profile=" + std::to_string(j.profile); }
static std::vector<std::vector<int>> assignments(int n, int T) // every surjective map onto the first k threads, up to renaming is not applied: all of them
{
    std::vector<std::vector<int>> r; std::vector<int> a(n, 0);
    for (;;) { int mx = 0; bool canon = true; for (int v : a) { if (v > mx + 1 || (&v == &a[0] && v)) canon = false; mx = std::max(mx, v); } int m = -1; canon = true; for (int v : a) { if (v > m + 1) canon = false; m = std::max(m, v); } if (canon) r.push_back(a); int i = n - 1; while (i >= 0 && a[i] == T - 1) a[i--] = 0; if (i < 0) break; a[i]++; }
    return r;
}
template<class G, class Fr> struct Group {
    CS c; const Crv<u64> *C; std::vector<Pt<u64>> t; u64 r;
    std::string judge(const G &g, u64 want, const char *who) { if (is(*C, g, t[want])) return ""; return std::string(who) + " result " + gs(g) + " instead of multiple " + std::to_string(want); }
    void bases(int n, std::vector<G> &g, std::vector<Fr> &s, u64 &sum, bool special)
    {
        sum = 0; static const u64 ks[] = {1, 2, 3, 1, 5, 4, 7, 2}, ss[] = {3, 0, 1, 4, 2, 1, 0, 6};
        for (int i = 0; i < n; i++) { u64 k = ks[i % 8] % r, v = i % 8 == 3 ? r - 1 : ss[i % 8] % r; if (k == 0) k = 1; G p = rep<G>(*C, t[k], special ? C->T.one() : i % 2 ? C->T.add(C->T.one(), C->T.one()) : C->T.one()); if (special) p.to_special(); g.push_back(p); s.push_back(mkf<Fr>(v)); sum = (sum + k * v) % r; }
    }
    template<multi_exp_method M> void mexp(const char *mn, bool th)
    {
        std::string key = std::string(GK<G>::name()) + "." + mn;
#ifdef USE_MIXED_ADDITION
        const bool special = true;
#else
        const bool special = M == multi_exp_method_BDLO12;
#endif
        for (int n : th ? std::vector<int>{0, 1, 2, 3, 5, 8} : std::vector<int>{1, 3, 5}) for (int chunks = 1; chunks <= (th ? 6 : 4); chunks++) {
            std::vector<G> g; std::vector<Fr> s; u64 sum; bases(n, g, s, sum, special);
            auto f = [&]() { return multi_exp<G, Fr, M>(g.begin(), g.end(), s.begin(), s.end(), chunks); };
            auto jd = [&](const G &x, const char *w) { return judge(x, sum, w); };
            std::string what = std::string(GK<G>::name()) + " multi_exp." + mn + " n=" + std::to_string(n) + " chunks=" + std::to_string(chunks);
            for (int T = 1; T <= (th ? 6 : 4); T++) for (int p = 0; p < 3; p++) { Job j{what, T, {}, false, p}; explore(key, js(j), [&]() { return run_job(j, f, jd); }, th ? 3 : 2, th ? 4000 : 300); }
            if (chunks > 1 && (th || n == 5)) for (auto &a : assignments(chunks, th ? 4 : 3)) for (int p = 0; p < 2; p++) { Job j{what, chunks, a, true, p}; explore(key, js(j), [&]() { return run_job(j, f, jd); }, 2, th ? 2000 : 100); }
        }
        // many terms and many chunks: without preemption, every order of the threads at the points where they wait
        for (auto nc : std::vector<std::pair<int, int>>{{40, 7}, {33, 16}, {70, 33}, {40, 64}, {130, 5}, {300, 3}}) for (int T : {2, 3}) {
            std::vector<G> g; std::vector<Fr> s; u64 sum; bases(nc.first, g, s, sum, special);
            auto f = [&]() { return multi_exp<G, Fr, M>(g.begin(), g.end(), s.begin(), s.end(), nc.second); };
            Job j{std::string(GK<G>::name()) + " multi_exp." + mn + " n=" + std::to_string(nc.first) + " chunks=" + std::to_string(nc.second), T, {}, false, T - 2}; explore(key, js(j), [&]() { return run_job(j, f, [&](const G &x, const char *w) { return judge(x, sum, w); }); }, 0, th ? 200 : 20);
        }
        // the variant that separates trivial scalars
        for (int chunks : {1, 3}) for (int T : {1, 2, 3}) for (int p = 0; p < 3; p++) {
            std::vector<G> g; std::vector<Fr> s; u64 sum; bases(5, g, s, sum, true);
            auto f = [&]() { return multi_exp_with_mixed_addition<G, Fr, M>(g.begin(), g.end(), s.begin(), s.end(), chunks); };
            Job j{std::string(GK<G>::name()) + " multi_exp_with_mixed_addition." + mn + " chunks=" + std::to_string(chunks), T, {}, false, p}; explore(key, js(j), [&]() { return run_job(j, f, [&](const G &x, const char *w) { return judge(x, sum, w); }); }, th ? 3 : 2, th ? 4000 : 300);
        }
    }
    void bexp(bool th)
    {
        std::string key = std::string(GK<G>::name()) + ".batch_exp";
        for (size_t w : {1, 2, 3}) for (int n : th ? std::vector<int>{0, 1, 2, 3, 4, 6, 9, 40, 100, 257} : w == 2 ? std::vector<int>{1, 3, 4, 40, 100} : std::vector<int>{1, 3, 4}) for (int coeff = 0; coeff < 2; coeff++) {
            std::vector<G> g; std::vector<Fr> s; u64 sum; bases(n, g, s, sum, false); G base = rep<G>(*C, t[2 % r]); auto table = get_window_table<G>(Fr::num_bits, w, base);
            std::vector<u64> want; for (auto &v : s) { u64 x; val(v, x); want.push_back(2 * x * (coeff ? 3 : 1) % r); }
            auto f = [&]() { return coeff ? batch_exp_with_coeff<G, Fr>(Fr::num_bits, w, table, mkf<Fr>((u64)3), s) : batch_exp<G, Fr>(Fr::num_bits, w, table, s); };
            auto jd = [&](const std::vector<G> &x, const char *who) -> std::string { if (x.size() != want.size()) return std::string(who) + " result has wrong length"; for (size_t i = 0; i < x.size(); i++) { auto m = judge(x[i], want[i], who); if (!m.empty()) return "entry " + std::to_string(i) + ": " + m; } return ""; };
            std::string what = std::string(GK<G>::name()) + (coeff ? " batch_exp_with_coeff" : " batch_exp") + " n=" + std::to_string(n) + " window=" + std::to_string(w);
            for (int T = 1; T <= (th ? 6 : 4); T++) for (int p = 0; p < 3; p += 2) { Job j{what, T, {}, false, p}; explore(key, js(j), [&]() { return run_job(j, f, jd); }, n > 9 ? 0 : th ? 3 : 2, th ? 4000 : 300); }
            if (n > 1 && n < 10 && w == 2) for (auto &a : assignments(n, th ? 4 : 3)) { Job j{what, n, a, true, 0}; explore(key, js(j), [&]() { return run_job(j, f, jd); }, 2, th ? 2000 : 100); }
        }
    }
};
template<class G, class Fr, class MK> void group(const char *nm, bool second, MK make, bool full)
{
    auto mk = [&]() { inhibit_profiling_info = inhibit_profiling_counters = true; Group<G, Fr> g; g.c = make(); return g; }; bool th = thorough();
    auto fin = [&](Group<G, Fr> &g) { g.C = second ? &g.c.E2 : &g.c.E1; g.r = g.c.r.get_ui(); g.t = g.C->table(second ? g.c.P2 : g.c.P1, g.r); };
    if (unit("%s naive", nm)) { auto g = mk(); fin(g); g.template mexp<multi_exp_method_naive>("naive", th); }
    if (full && unit("%s naive_plain", nm)) { auto g = mk(); fin(g); g.template mexp<multi_exp_method_naive_plain>("naive_plain", th); }
    if (unit("%s bos_coster", nm)) { auto g = mk(); fin(g); g.template mexp<multi_exp_method_bos_coster>("bos_coster", th); }
    if (unit("%s BDLO12", nm)) { auto g = mk(); fin(g); g.template mexp<multi_exp_method_BDLO12>("BDLO12", th); }
    if (unit("%s batch_exp", nm)) { auto g = mk(); fin(g); g.bexp(th); }
}
VF_MAIN([]() {
    inhibit_profiling_info = inhibit_profiling_counters = true; bool th = thorough();
    typedef alt_bn128_G1 A1; typedef alt_bn128_G2 A2; typedef bls12_381_G1 B1; typedef bls12_381_G2 B2; typedef mnt4_G1 M41; typedef mnt4_G2 M42; typedef mnt6_G1 M61; typedef mnt6_G2 M62; typedef edwards_G1 D1; typedef edwards_G2 D2;
    auto bn = []() { return tiny_alt_bn128(-1); }; auto bls = []() { return tiny_bls12_381(-2); }; auto m4 = []() { return tiny_mnt4(13, 17); }; auto m6 = []() { return tiny_mnt6(37, 31); }; auto ed = []() { return tiny_edwards(43, 13, 5); };
    group<A1, alt_bn128_Fr>("alt_bn128 G1", false, bn, true); group<A2, alt_bn128_Fr>("alt_bn128 G2", true, bn, th);
    group<M41, mnt4_Fr>("mnt4 G1", false, m4, th); group<D1, edwards_Fr>("edwards G1", false, ed, th); group<B1, bls12_381_Fr>("bls12_381 G1", false, bls, th); group<M61, mnt6_Fr>("mnt6 G1", false, m6, th);
    if (th) { group<B2, bls12_381_Fr>("bls12_381 G2", true, bls, true); group<M42, mnt4_Fr>("mnt4 G2", true, m4, true); group<M62, mnt6_Fr>("mnt6 G2", true, m6, true); group<D2, edwards_Fr>("edwards G2", true, ed, true); }
})
