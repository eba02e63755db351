// C21: any two operations run by two threads under a controlled scheduler, all interleavings of conflicting accesses.
#include "vf.hpp"
#include "sched.hpp"
#include "conc_ops.hpp"
#include "gcdext_shim.hpp"
#include <sodium/randombytes.h>
using namespace vf; using namespace conc;
namespace conc {
__thread uint64_t rnd_state;
uint32_t rnd_word() { rnd_state = rnd_state * 6364136223846793005ull + 1442695040888963407ull; return (uint32_t)(rnd_state >> 33); }
}
unsigned int std::random_device::_M_getval() { return rnd_word(); }
unsigned int std::random_device::_M_getval_pretr1() { return rnd_word(); }
void std::random_device::_M_init(const std::string &) {}
void std::random_device::_M_fini() {}
extern "C" void randombytes_buf(void *const buf, const size_t size) { unsigned char *p = (unsigned char *)buf; for (size_t i = 0; i < size; i++) p[i] = (unsigned char)rnd_word(); }
extern "C" uint32_t randombytes_random(void) { return rnd_word(); }

struct Res { uint32_t n; unsigned char b[6000]; };
static Res *g_want; // [op][variant], filled on demand by children that run the operation alone
static const Res &want(size_t op, int v)
{
    Res &r = g_want[op * 2 + v];
    if (!r.n) { fflush(nullptr); pid_t p = fork(); if (!p) { Sink o; o.put((char)1); ops()[op].f(v, o); memcpy(r.b, o.b, o.n); r.n = o.over ? 0 : o.n; _exit(0); } int st; while (waitpid(p, &st, 0) < 0) {} if (!r.n) { fprintf(stderr, "operation %s does not run alone\n", ops()[op].name.c_str()); abort(); } }
    return r;
}
static uint64_t g_execs; static std::map<std::string, int> g_failed;
// mode 0: from a fresh start, 1: after both ran once on this process, 2: with the profiling counters on
static void pair(size_t a, int va, size_t b, int vb, int mode, int bound, uint64_t cap)
{
    const Op &A = ops()[a], &B = ops()[b]; const Res *w[2] = {&want(a, va), &want(b, vb)};
    static const char *mn[] = {"", " (warm)", " (profiling)"}; std::string what = A.name + "[" + std::to_string(va) + "] || " + B.name + "[" + std::to_string(vb) + "]" + mn[mode], key = A.name.substr(A.name.find('.') + 1);
    if (g_failed[A.name] >= 2 || g_failed[key] >= 6) return;
    at("%s", what.c_str()); state(); trace(); if (g_execs > 60000 && !thorough()) cap = std::min<uint64_t>(cap, 12);
    auto prog = [&]() -> std::string {
        if (mode == 1) { Sink o; A.f(va, o); Sink p; B.f(vb, p); }
        FILE *dn = nullptr, *so = stdout; if (mode == 2) { inhibit_profiling_counters = false; dn = fopen("/dev/null", "w"); stdout = dn; }
        static Sink out[2]; sched::team(2, [&](int i) { Sink o; o.put((char)1); if (i) B.f(vb, o); else A.f(va, o); out[i].n = o.n; out[i].over = o.over; for (size_t k = 0; k < o.n; k++) out[i].b[k] = o.b[k]; });
        if (mode == 2) stdout = so;
        for (int i = 0; i < 2; i++) if (out[i].over || out[i].n != w[i]->n || memcmp(out[i].b, w[i]->b, out[i].n)) return (i ? B.name : A.name) + " gives another result than alone";
        return "";
    };
    sched::Stat st; std::string m = sched::explore(prog, bound, cap, st); trans(st.execs); g_execs += st.execs;
    if (st.capped && m.empty()) note(what + ": stopped after " + std::to_string(st.execs) + " schedules");
    if (!m.empty()) { g_failed[A.name]++; g_failed[key]++; }
    if (st.conflicts) note(what + ": " + std::to_string(st.conflicts) + " shared lines");
    VF_CHECK(m.empty(), key, "%s: %s (schedule %s)", what.c_str(), m.c_str(), st.schedule.c_str());
}
VF_MAIN([]() {
    all_ops(); size_t n = ops().size(); g_want = (Res *)mmap(nullptr, sizeof(Res) * 2 * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    std::string m = fill_inputs(); if (!m.empty()) { VF_CHECK(false, "setup", "%s", m.c_str()); return; }
    bool th = thorough(); int bound = th ? 3 : 2; uint64_t cap = th ? 3000 : 200;
    for (size_t a = 0; a < n; a++) {
        const Op &A = ops()[a]; if (!unit("%s", A.name.c_str())) continue;
        pair(a, 0, a, 1, 0, bound, cap); pair(a, 0, a, 0, 0, bound, cap); pair(a, 0, a, 1, 1, bound, cap); pair(a, 1, a, 1, 1, bound, cap); pair(a, 0, a, 1, 2, bound, cap);
        for (size_t b = 0; b < n; b++) if (b != a) { bool same = ops()[b].group == A.group; if (th ? true : same && b > a && ops()[b].weight < 3) pair(a, 0, b, 1, 0, bound, cap); if (same && b > a && A.weight + ops()[b].weight < 4) pair(a, 0, b, 1, 1, bound, cap); }
    }
})
