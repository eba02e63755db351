// C23: the profiler under a scripted clock; every sequence of calls up to a depth against a reference profiler.
#include <chrono>
#include <ctime>
#include <sys/syscall.h>
#include <sys/time.h>
#include "pairs.hpp"
#include <libff/algebra/scalar_multiplication/multiexp.hpp>
#ifdef MULTICORE
#include <omp.h>
#endif
using namespace vf; using namespace libff;

// ---- scripted clock: constant during a call, moved by the explorer between calls
static long long g_now = 1000000000LL, g_cpu = 5000000000LL; static bool g_script = false;
static long long real_ns(clockid_t c) { struct timespec t; syscall(SYS_clock_gettime, c, &t); return t.tv_sec * 1000000000LL + t.tv_nsec; }
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration_cast<duration>(nanoseconds(g_script ? g_now : real_ns(CLOCK_REALTIME)))); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration_cast<duration>(nanoseconds(g_script ? g_now : real_ns(CLOCK_MONOTONIC)))); }
} } }
extern "C" int clock_gettime(clockid_t c, struct timespec *t) noexcept
{
    if (!g_script) return syscall(SYS_clock_gettime, c, t);
    long long v = (c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) ? g_cpu : g_now; t->tv_sec = v / 1000000000LL; t->tv_nsec = v % 1000000000LL; return 0;
}
// ---- captured output
static char *g_buf; static size_t g_len; static FILE *g_mem, *g_real;
static void cap_on() { if (!g_mem) { g_mem = open_memstream(&g_buf, &g_len); g_real = stdout; } fseeko(g_mem, 0, SEEK_SET); fflush(g_mem); stdout = g_mem; }
static std::string cap_off() { fflush(g_mem); stdout = g_real; std::string s(g_buf, ftello(g_mem)); return s; }
static std::vector<std::string> lines(const std::string &s) { std::vector<std::string> v; std::string c; for (char ch : s) if (ch == '\n') { v.push_back(c); c.clear(); } else c += ch; if (!c.empty()) v.push_back(c); return v; }

struct Frame { std::string name; long long t; bool ind; };
struct Ref { // the reference profiler
    std::vector<Frame> st; std::map<std::string, size_t> cnt; std::map<std::string, long long> last, cum; bool I = false, C = false; long long plast = 0; 
    size_t depth() const { size_t d = 0; for (auto &f : st) d += f.ind; return d; }
};
static const char *NAMES[] = {"alpha", "a block with a name longer than the column of 35 %s%d", ""};
enum Act { EA, EB, EN, LV, CL, TI, TC, PT_, DU, NACT };
static const char *ACT[] = {"enter(A)", "enter(B)", "enter(A,noindent)", "leave", "clear", "toggle-info", "toggle-counters", "print_time", "dump"};
static std::string wordstr(const std::vector<int> &w) { std::string s; for (int a : w) s += std::string(ACT[a]) + " "; return s; }
template<class M> static bool same_map(const M &a, const M &b) { for (auto &k : a) { auto i = b.find(k.first); if ((i == b.end() ? 0 : i->second) != k.second) return false; } for (auto &k : b) if (!a.count(k.first) && k.second != 0) return false; return true; }
// one printed line of a block: depth, kind, name and the printed wall-clock duration
static bool block_line(const std::string &l, size_t depth, const char *kind, const std::string &name, long long dur)
{
    std::string p = std::string(2 * depth, ' ') + "(" + kind + ") " + name; if (l.compare(0, p.size(), p) != 0) return false;
    if (l.size() > p.size() && l[p.size()] != ' ' && l[p.size()] != '\t' && l[p.size()] != '[') return false;
    size_t b = l.find('[', p.size()); if (b == std::string::npos) return dur == 0;
    if (dur == 0) return true; // nothing or zero is printed
    char want[64]; snprintf(want, sizeof want, "[%0.4fs", dur * 1e-9); return l.compare(b, strlen(want), want) == 0;
}
static void step(Ref &R, int a, const std::vector<int> &w, const std::vector<std::string> &)
{
    std::string K = "profiler."; const char *W = nullptr; std::string ws; auto ctx = [&]() { ws = wordstr(w); W = ws.c_str(); return W; };
    std::string nm = a == EB ? NAMES[1] : NAMES[0]; std::vector<std::string> out; trans();
    switch (a) {
    case EA: case EB: case EN: {
        bool ind = a != EN; size_t d = R.depth();
        cap_on(); if (ind && a == EA) enter_block(nm); else enter_block(nm, ind); out = lines(cap_off());
        if (!R.C) R.st.push_back({nm, g_now, ind});
        bool pr = !R.C && !R.I; VF_CHECK(out.size() == (pr ? 1 : 0) && (!pr || block_line(out[0], d, "enter", nm, 0)), K + "enter-line", "depth %zu expected %s, printed \"%s\" after %s", d, pr ? "line" : "nothing", out.empty() ? "" : out[0].c_str(), ctx());
        break; }
    case LV: {
        Frame f = R.st.empty() ? Frame{NAMES[0], 0, true} : R.st.back(); long long dur = g_now - f.t;
        cap_on(); leave_block(f.name, f.ind); out = lines(cap_off());
        if (!R.C) { R.st.pop_back(); R.cnt[f.name]++; R.last[f.name] = dur; R.cum[f.name] += dur; }
        bool pr = !R.C && !R.I; size_t d = R.depth(); VF_CHECK(out.size() == (pr ? 1 : 0) && (!pr || block_line(out[0], d, "leave", f.name, dur)), K + "leave-line", "depth %zu duration %lld expected %s, printed \"%s\" after %s", d, dur, pr ? "line" : "nothing", out.empty() ? "" : out[0].c_str(), ctx());
        break; }
    case CL: cap_on(); clear_profiling_counters(); out = lines(cap_off()); R.cnt.clear(); R.last.clear(); R.cum.clear(); VF_CHECK(out.empty(), K + "clear", "prints after %s", ctx()); break;
    case TI: R.I = !R.I; inhibit_profiling_info = R.I; break;
    case TC: R.C = !R.C; inhibit_profiling_counters = R.C; break;
    case PT_: {
        cap_on(); print_time("checkpoint"); out = lines(cap_off()); long long dur = g_now - R.plast; if (!R.I) R.plast = g_now;
        bool ok = out.size() == (R.I ? 0 : 1); if (ok && !R.I) { ok = out[0].compare(0, 10, "checkpoint") == 0; if (dur) { char want[64]; snprintf(want, sizeof want, "[%0.4fs", dur * 1e-9); ok = ok && out[0].find(want) != std::string::npos; } }
        VF_CHECK(ok, K + "print_time", "expected %lld ns, printed \"%s\" after %s", dur, out.empty() ? "" : out[0].c_str(), ctx()); break; }
    case DU: {
        cap_on(); print_cumulative_times(4); print_indent(); printf("|\n"); out = lines(cap_off()); size_t seen = 0; std::vector<std::string> names; for (auto &k : R.cum) names.push_back(k.first);
        for (auto &l : out) for (auto &k : names) { std::string p = "   " + k; if (l.compare(0, p.size(), p) != 0 || (l[p.size()] != ' ' && l[p.size()] != ':')) continue; seen++;
            char t[512]; snprintf(t, sizeof t, ": %12.5fms = 4 * %0.5fms (%zu invocations, %0.5fms = 4 * %0.5fms per invocation)", R.cum[k] * 1e-6, R.cum[k] * 1e-6 / 4, R.cnt[k], R.cum[k] * 1e-6 / R.cnt[k], R.cum[k] * 1e-6 / R.cnt[k] / 4);
            VF_CHECK(l.find(t) != std::string::npos, K + "dump", "printed \"%s\", expected \"%s\" after %s", l.c_str(), t, ctx()); }
        VF_CHECK(seen == names.size(), K + "dump", "%zu entries of %zu after %s", seen, names.size(), ctx());
        VF_CHECK(!out.empty() && out.back() == std::string(2 * R.depth(), ' ') + "|", K + "indent", "print_indent printed \"%s\" at depth %zu after %s", out.empty() ? "" : out.back().c_str(), R.depth(), ctx()); break; }
    }
    VF_CHECK(same_map(R.cnt, invocation_counts), K + "counts", "after %s", ctx());
    VF_CHECK(same_map(R.last, last_times), K + "last", "after %s", ctx());
    VF_CHECK(same_map(R.cum, cumulative_times), K + "cumulative", "after %s", ctx());
}
static long long delta(int clock, int i)
{
    static const long long p3[] = {1, 3, 9, 27, 81, 243, 729, 2187, 6561, 19683};
    if (clock == 0) return p3[i] * 1000003LL; if (clock == 1) return i & 1 ? 0 : p3[i] * 1000000000LL; return (i % 3 == 1 ? -1 : 1) * p3[i] * 7001LL; // increasing, standing still, set back
}
static void word(const std::vector<int> &w, int clock)
{
    Ref R; inhibit_profiling_info = inhibit_profiling_counters = false; cap_on(); start_profiling(); clear_profiling_counters(); cap_off(); R.plast = g_now;
    std::vector<std::string> none; std::vector<int> pre; int i = 0; state();
    for (int a : w) { pre.push_back(a); long long d = delta(clock, i++ % 10); g_now += d; g_cpu += d > 0 ? d * 2 : 0; step(R, a, pre, none); }
    // close what is still open: the accounts stay right to the end
    if (R.C) { R.C = false; inhibit_profiling_counters = false; }
    while (!R.st.empty()) { pre.push_back(LV); long long d = delta(clock, i++ % 9); g_now += d; step(R, LV, pre, none); }
    if (R.I) { R.I = false; inhibit_profiling_info = false; }
    pre.push_back(DU); step(R, DU, pre, none);
    g_now = 1000000000LL; trace();
}
static void explore(std::vector<int> &w, int len, size_t open, bool C, int clock, const std::vector<int> &al)
{
    if (len == 0) { at("clock %d: %s", clock, wordstr(w).c_str()); word(w, clock); return; }
    for (int a : al) {
        if (a == LV && open == 0 && !C) continue; // not properly nested
        w.push_back(a); explore(w, len - 1, open + (C ? 0 : a == EA || a == EB || a == EN ? 1 : a == LV ? -1 : 0), a == TC ? !C : C, clock, al); w.pop_back();
    }
}
// long words: towers of open blocks (left at the end) of every height on both sides of powers of two, and long runs of pairs
static void long_words()
{
    const std::vector<std::vector<int>> towers = {{EA}, {EA, EB}, {EN, EA}, {EB, EN, EA}, {EA, DU, EB}, {EA, PT_}}, runs = {{EA, LV}, {EA, EB, LV, LV}, {EN, EA, LV, LV, EB, LV}, {EA, TI, LV}, {EA, EA, LV, CL, LV, EB, LV}};
    for (int clock = 0; clock < 3; clock++) for (size_t n : {(size_t)9, (size_t)10, (size_t)11, (size_t)15, (size_t)16, (size_t)17, (size_t)31, (size_t)32, (size_t)33, (size_t)64, (size_t)65, (size_t)100, (size_t)128, (size_t)129, (size_t)257}) for (int k = 0; k < 2; k++) {
        auto &T = k ? runs : towers; for (size_t t = 0; t < T.size(); t++) { if (k == 1 && n > 100) continue;
            std::vector<int> w; while (w.size() < (k ? n * T[t].size() : n)) w.push_back(T[t][w.size() % T[t].size()]);
            at("clock %d: %s pattern %zu, %zu calls", clock, k ? "run" : "tower", t, w.size()); word(w, clock); tick(); }
    }
}
// ---- every library routine that opens blocks closes exactly those, in nested order
static void balanced(const std::string &what, const std::function<void()> &f)
{
    inhibit_profiling_info = inhibit_profiling_counters = false; clear_profiling_counters(); std::vector<std::string> st, log; std::map<std::string, size_t> cnt; at("balanced %s", what.c_str()); state();
    cap_on(); print_indent(); size_t d0 = ftello(stdout); f(); std::string out = cap_off(); bool ok = true; std::string why;
    for (auto &l : lines(out)) {
        size_t e = l.find("(enter) "), v = l.find("(leave) "); if (e == std::string::npos && v == std::string::npos) continue;
        bool en = e != std::string::npos; size_t pos = en ? e : v, end = l.find('\t', pos); std::string name = l.substr(pos + 8, end - pos - 8); while (!name.empty() && name.back() == ' ') name.pop_back();
        if (en) st.push_back(name); else { cnt[name]++; if (st.empty() || st.back() != name) { ok = false; why = "leaves \"" + name + "\" inside \"" + (st.empty() ? "" : st.back()) + "\""; } if (!st.empty()) st.pop_back(); }
        if (pos - (log.empty() ? d0 : 0) != 2 * (en ? st.size() - 1 : st.size()) && ok) { ok = false; why = "wrong depth: " + l; } log.push_back(l); trans();
    }
    if (!st.empty() && ok) { ok = false; why = "does not leave \"" + st.back() + "\""; }
    VF_CHECK(ok, "balanced." + what, "%s", why.c_str());
    std::map<std::string, size_t> got; for (auto &k : invocation_counts) if (k.second) got[k.first] = k.second; VF_CHECK(got == cnt, "balanced." + what, "invocation counts differ from the blocks left");
    inhibit_profiling_counters = true; cap_on(); clear_profiling_counters(); f(); out = cap_off(); VF_CHECK(out.find("(enter)") == std::string::npos && out.find("(leave)") == std::string::npos && invocation_counts.empty() && last_times.empty() && cumulative_times.empty(), "suppressed." + what, "suppressed profiling printed or counted");
    inhibit_profiling_counters = false; inhibit_profiling_info = true; cap_on(); f(); out = cap_off(); got.clear(); for (auto &k : invocation_counts) if (k.second) got[k.first] = k.second; VF_CHECK(out.empty() && got == cnt, "suppressed." + what, "with output suppressed: printed %zu bytes, counts %s", out.size(), got == cnt ? "equal" : "differ");
    inhibit_profiling_info = false; trace();
}
template<class PP, class MK> void curve(const char *nm, MK make)
{
    if (!unit("balanced %s", nm)) return;
    typedef PT<PP> X; typedef typename X::G1 G1; typedef typename X::G2 G2; typedef typename X::FK FK; inhibit_profiling_info = inhibit_profiling_counters = true; make(); g_script = false;
    std::string n = X::name(); G1 P = G1::one(), P2 = P + P, PO = G1::zero(); G2 Q = G2::one(), Q2 = Q + Q, QO = G2::zero(); 
    auto p1 = X::pre1(P), p2 = X::pre1(P2); auto q1 = X::pre2(Q), q2 = X::pre2(Q2); auto a1 = X::apre1(P), a2 = X::apre1(P2); auto b1 = X::apre2(Q), b2 = X::apre2(Q2); FK f = X::ml(p1, q1);
    balanced(n + ".precompute_G1", [&]() { X::pre1(P); X::apre1(P); }); balanced(n + ".precompute_G2", [&]() { X::pre2(Q); X::apre2(Q); });
    balanced(n + ".miller_loop", [&]() { X::ml(p1, q1); }); balanced(n + ".ate_miller_loop", [&]() { X::aml(a1, b1); });
    balanced(n + ".double_miller_loop", [&]() { X::dml(p1, q1, p2, q2); }); balanced(n + ".ate_double_miller_loop", [&]() { X::adml(a1, b1, a2, b2); });
    balanced(n + ".final_exponentiation", [&]() { X::fe(f); X::fe(FK::one()); });
    for (auto &A : {P, P2, PO}) for (auto &B : {Q, Q2, QO}) { balanced(n + ".pairing", [&]() { X::pairing(A, B); }); balanced(n + ".ate_pairing", [&]() { X::apairing(A, B); }); balanced(n + ".reduced_pairing", [&]() { X::reduced(A, B); }); balanced(n + ".ate_reduced_pairing", [&]() { X::areduced(A, B); }); if (X::alts) balanced(n + "." + X::altname() + "_reduced_pairing", [&]() { X::alt(A, B); }); }
    typedef typename G1::scalar_field Fr;
    for (int k : {1, 2, 5}) {
        std::vector<G1> g; std::vector<Fr> s; G1 x = P; for (int i = 0; i < k; i++) { x.to_special(); g.push_back(x); s.push_back(i == 1 ? Fr::zero() : i == 2 ? Fr::one() : Fr(i + 17) ^ 5); x = x + P; }
        balanced("multi_exp.naive", [&]() { multi_exp<G1, Fr, multi_exp_method_naive>(g.begin(), g.end(), s.begin(), s.end(), 1); });
        balanced("multi_exp.naive_plain", [&]() { multi_exp<G1, Fr, multi_exp_method_naive_plain>(g.begin(), g.end(), s.begin(), s.end(), 1); });
        balanced("multi_exp.BDLO12", [&]() { multi_exp<G1, Fr, multi_exp_method_BDLO12>(g.begin(), g.end(), s.begin(), s.end(), 1); });
        balanced("multi_exp.bos_coster", [&]() { multi_exp<G1, Fr, multi_exp_method_bos_coster>(g.begin(), g.end(), s.begin(), s.end(), 1); });
        balanced("multi_exp_with_mixed_addition", [&]() { multi_exp_with_mixed_addition<G1, Fr, multi_exp_method_BDLO12>(g.begin(), g.end(), s.begin(), s.end(), 1); });
        balanced("batch_exp", [&]() { size_t w = 2; auto t = get_window_table<G1>(Fr::num_bits, w, P); batch_exp<G1, Fr>(Fr::num_bits, w, t, s); batch_exp_with_coeff<G1, Fr>(Fr::num_bits, w, t, Fr(3), s); });
        balanced("batch_to_special", [&]() { std::vector<G1> h; for (auto &e : g) h.push_back(e + P2); batch_to_special<G1>(h); });
        balanced("batch_to_special identities", [&]() { std::vector<G1> h(k, PO); batch_to_special<G1>(h); if (k > 1) h[1] = P2 + P; batch_to_special<G1>(h); });
        balanced("batch_exp identity", [&]() { size_t w = 2; auto t = get_window_table<G1>(Fr::num_bits, w, PO); std::vector<Fr> z(k, Fr::zero()); batch_exp<G1, Fr>(Fr::num_bits, w, t, z); batch_exp_with_coeff<G1, Fr>(Fr::num_bits, w, t, Fr::zero(), z); });
        for (int pat = 0; pat < 4; pat++) { // scalars all zero, all one, zeros and ones, one other
            std::vector<Fr> z; for (int i = 0; i < k; i++) z.push_back(pat == 0 ? Fr::zero() : pat == 1 ? Fr::one() : pat == 2 ? (i & 1 ? Fr::one() : Fr::zero()) : i == k - 1 ? -Fr::one() : Fr::zero());
            balanced("multi_exp.trivial scalars", [&]() { multi_exp<G1, Fr, multi_exp_method_naive>(g.begin(), g.end(), z.begin(), z.end(), 1); multi_exp<G1, Fr, multi_exp_method_naive_plain>(g.begin(), g.end(), z.begin(), z.end(), 1); multi_exp<G1, Fr, multi_exp_method_BDLO12>(g.begin(), g.end(), z.begin(), z.end(), 1); multi_exp<G1, Fr, multi_exp_method_bos_coster>(g.begin(), g.end(), z.begin(), z.end(), 1); });
            balanced("multi_exp_with_mixed_addition.trivial scalars", [&]() { multi_exp_with_mixed_addition<G1, Fr, multi_exp_method_BDLO12>(g.begin(), g.end(), z.begin(), z.end(), 1); multi_exp_with_mixed_addition<G1, Fr, multi_exp_method_bos_coster>(g.begin(), g.end(), z.begin(), z.end(), 2); });
        }
    }
    {   // nothing to do
        std::vector<G1> g; std::vector<Fr> s; std::vector<Fr> &z = s;
        balanced("batch_to_special empty", [&]() { std::vector<G1> h; batch_to_special<G1>(h); });
        balanced("multi_exp empty", [&]() { multi_exp<G1, Fr, multi_exp_method_naive>(g.begin(), g.end(), z.begin(), z.end(), 1); multi_exp<G1, Fr, multi_exp_method_naive_plain>(g.begin(), g.end(), z.begin(), z.end(), 1); multi_exp<G1, Fr, multi_exp_method_BDLO12>(g.begin(), g.end(), z.begin(), z.end(), 1); multi_exp<G1, Fr, multi_exp_method_bos_coster>(g.begin(), g.end(), z.begin(), z.end(), 1); });
        balanced("multi_exp_with_mixed_addition empty", [&]() { multi_exp_with_mixed_addition<G1, Fr, multi_exp_method_BDLO12>(g.begin(), g.end(), z.begin(), z.end(), 1); });
        balanced("batch_exp empty", [&]() { size_t w = 2; auto t = get_window_table<G1>(Fr::num_bits, w, P); batch_exp<G1, Fr>(Fr::num_bits, w, t, s); batch_exp_with_coeff<G1, Fr>(Fr::num_bits, w, t, Fr(3), s); });
    }
}
static void tate() 
{
    if (!unit("balanced edwards.tate")) return;
    inhibit_profiling_info = inhibit_profiling_counters = true; edwards_pp::init_public_params(); edwards_G1 P = edwards_G1::one(); edwards_G2 Q = edwards_G2::one(); auto p = edwards_tate_precompute_G1(P); auto q = edwards_tate_precompute_G2(Q);
    balanced("edwards.tate_precompute_G1", [&]() { edwards_tate_precompute_G1(P); }); balanced("edwards.tate_precompute_G2", [&]() { edwards_tate_precompute_G2(Q); });
    balanced("edwards.tate_miller_loop", [&]() { edwards_tate_miller_loop(p, q); }); balanced("edwards.tate_pairing", [&]() { edwards_tate_pairing(P, Q); });
}
VF_MAIN([]() {
    if (unit("long words")) { g_script = true; long_words(); g_script = false; }
    bool th = thorough(); std::vector<int> full = {EA, EB, EN, LV, CL, TI, TC, PT_, DU}, core = {EA, EB, LV, TI, TC}, mini = {EA, EN, LV, TI}, tim = {EA, EB, LV, CL};
    struct Plan { const char *nm; std::vector<int> al; int len; int clock; };
    std::vector<Plan> plans = {{"all calls", full, th ? 7 : 6, 0}, {"all calls, clock standing still", full, th ? 6 : 5, 1}, {"all calls, clock set back", full, th ? 6 : 5, 2}, {"blocks and switches", core, th ? 9 : 8, 0}, {"nesting", mini, th ? 10 : 9, 0}, {"accounts", tim, th ? 10 : 9, 0}};
    for (auto &p : plans) for (int a : p.al) for (int b : p.al) {
        if (a == LV || (b == LV && a != EA && a != EB && a != EN && a != TC)) continue;
        if (!unit("%s: %s %s.. length<=%d", p.nm, ACT[a], ACT[b], p.len)) continue;
        g_script = true; for (int len = th ? p.len - 1 : p.len; len <= p.len; len++) { std::vector<int> w = {a, b}; bool C = (a == TC) != (b == TC); size_t open = 0; bool c = false; for (int x : w) { if (x == TC) c = !c; else if (!c && (x == EA || x == EB || x == EN)) open++; else if (!c && x == LV) open--; } explore(w, len - 2, open, C, p.clock, p.al); }
    }
    tate();
    curve<alt_bn128_pp>("alt_bn128", []() { ship_alt_bn128(); }); curve<bls12_381_pp>("bls12_381", []() { ship_bls12_381(); }); curve<mnt4_pp>("mnt4", []() { ship_mnt4(); }); curve<mnt6_pp>("mnt6", []() { ship_mnt6(); }); curve<edwards_pp>("edwards", []() { ship_edwards(); });
})
