// C21, machine level: one thread runs an operation under the trap flag and is stopped before every instruction of the
// program's own code; there a second thread runs an operation from start to end. Ordinary optimised build with the
// assembly paths, so that accesses inside assembly and inside GMP count too.
#include "vf.hpp"
#include "conc_ops.hpp"
#include <pthread.h>
#include <sched.h>
#include <sodium/randombytes.h>
#include <ucontext.h>
using namespace vf; using namespace conc;
namespace conc {
__thread uint64_t rnd_state;
uint32_t rnd_word() { rnd_state = rnd_state * 6364136223846793005ull + 1442695040888963407ull; return (uint32_t)(rnd_state >> 33); }
}
unsigned int std::random_device::_M_getval() { return rnd_word(); }
unsigned int std::random_device::_M_getval_pretr1() { return rnd_word(); }
void std::random_device::_M_init(const std::string &) {}
void std::random_device::_M_fini() {}
extern "C" void randombytes_buf(void *const buf, const size_t size) { unsigned char *p = (unsigned char *)buf; for (size_t i = 0; i < size; i++) p[i] = (unsigned char)rnd_word(); }
extern "C" uint32_t randombytes_random(void) { return rnd_word(); }
extern "C" char __executable_start, etext;

static Sink g_wantA, g_wantB, g_outB; static const Op *g_opB; static int g_vB;
static volatile int g_req, g_ack; static volatile bool g_stop, g_pending, g_on; // rendezvous of the two threads
static volatile uint64_t g_instr, g_stops, g_badstop; static uint64_t g_every, g_limit = ~0ull;
static bool same(const Sink &a, const Sink &b) { return !a.over && a.n == b.n && !memcmp(a.b, b.b, a.n); }
static void run_op(const Op &p, int v, Sink &o) { o.n = 0; o.over = false; o.put((char)1); p.f(v, o); }
static volatile int g_bad, g_done;
static void *second(void *)
{
    sigset_t s; sigfillset(&s); pthread_sigmask(SIG_BLOCK, &s, nullptr);
    for (int seen = 0;;) {
        unsigned spin = 0; while (__atomic_load_n(&g_req, __ATOMIC_ACQUIRE) == seen) { if (++spin > 100000) sched_yield(); }
        seen = g_req; if (g_stop) return nullptr;
        run_op(*g_opB, g_vB, g_outB); if (!same(g_outB, g_wantB) && !g_bad) { g_badstop = g_instr; __atomic_store_n(&g_bad, 1, __ATOMIC_RELEASE); }
        __atomic_store_n(&g_ack, seen, __ATOMIC_RELEASE);
    }
}
static void post() { __atomic_store_n(&g_req, g_req + 1, __ATOMIC_RELEASE); }
static bool wait_ack(bool forever)
{
    struct timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0); unsigned spin = 0;
    while (__atomic_load_n(&g_ack, __ATOMIC_ACQUIRE) != g_req) { if (++spin > 100000) { sched_yield(); if (!forever && spin % 64 == 0) { clock_gettime(CLOCK_MONOTONIC, &t); if ((t.tv_sec - t0.tv_sec) * 1000 + (t.tv_nsec - t0.tv_nsec) / 1000000 > 400) return false; } } }
    return true;
}
static void on_trap(int, siginfo_t *, void *u)
{
    if (!g_on) return; uintptr_t ip = ((ucontext_t *)u)->uc_mcontext.gregs[REG_RIP];
    if (ip < (uintptr_t)&__executable_start || ip >= (uintptr_t)&etext) return; // inside libc, libstdc++, GMP: a lock may be held there
    g_instr = g_instr + 1; if (g_instr > g_limit) { ((ucontext_t *)u)->uc_mcontext.gregs[REG_EFL] &= ~0x100ll; return; } if (g_instr % g_every) return;
    if (g_pending) { if (__atomic_load_n(&g_ack, __ATOMIC_ACQUIRE) != g_req) return; g_pending = false; } // the other one waits for a lock held here
    g_stops = g_stops + 1; post(); if (!wait_ack(false)) g_pending = true; g_progress++;
}
static inline __attribute__((always_inline)) void trap(bool on) { if (on) asm volatile("pushfq\n orq $0x100,(%%rsp)\n popfq" ::: "memory", "cc"); else asm volatile("pushfq\n andq $~0x100,(%%rsp)\n popfq" ::: "memory", "cc"); }
static std::map<std::string, int> g_failed;
static uint64_t run(size_t a, int va, size_t b, int vb, uint64_t every)
{
    const Op &A = ops()[a], &B = ops()[b]; std::string what = A.name + "[" + std::to_string(va) + "] interrupted by " + B.name + "[" + std::to_string(vb) + "]", key = A.name.substr(A.name.find('.') + 1);
    if (g_failed[A.name] >= 2) return 0; at("%s", what.c_str()); state(); trace();
    g_opB = &B; g_vB = vb; g_bad = 0; g_pending = false; g_instr = g_stops = 0; g_every = every; static Sink out; out.n = 0; out.over = false;
    g_on = true; trap(true); run_op(A, va, out); trap(false); g_on = false;
    if (g_pending) { wait_ack(true); g_pending = false; }
    trans(g_stops); bool okA = same(out, g_wantA);
    VF_CHECK(okA, key, "%s: the interrupted operation gives another result than alone", what.c_str());
    VF_CHECK(!g_bad, key, "%s: the interrupting operation gives another result than alone, stopped at instruction %lu", what.c_str(), (unsigned long)g_badstop);
    if (!okA || g_bad) g_failed[A.name]++;
    return g_instr;
}
static void alone(size_t a, int va, size_t b, int vb) { run_op(ops()[a], va, g_wantA); run_op(ops()[b], vb, g_wantB); }
// how many of the program's own instructions the operation executes
static uint64_t length(size_t a, int va, uint64_t limit) { g_limit = limit; g_every = ~0ull; g_instr = 0; static Sink o; g_on = true; trap(true); run_op(ops()[a], va, o); trap(false); g_on = false; g_limit = ~0ull; return g_instr; }
VF_MAIN([]() {
    all_ops(); std::string m = fill_inputs(); if (!m.empty()) { VF_CHECK(false, "setup", "%s", m.c_str()); return; }
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO; sigfillset(&sa.sa_mask); sigaction(SIGTRAP, &sa, nullptr);
    pthread_t t; pthread_create(&t, nullptr, second, nullptr);
    bool th = thorough(); const uint64_t maxlen = th ? 3000000 : 20000; size_t n = ops().size(); const uint64_t budget = th ? 100000000ull : 6000000ull; // instructions of the interrupting operation that are acceptable per pair
    for (size_t a = 0; a < n; a++) {
        const Op &A = ops()[a]; if (A.weight >= 3 && !th) continue; if (!unit("%s", A.name.c_str())) continue;
        // run once beforehand so that what is initialised on first use is initialised (first use is explored by the other program)
        static Sink o; run_op(A, 0, o); run_op(A, 1, o); g_opB = &A; for (int v = 0; v < 2; v++) { g_vB = v; run_op(A, v, g_wantB); g_bad = 0; post(); wait_ack(true); VF_CHECK(!g_bad, A.name.substr(A.name.find('.') + 1), "%s: another result on another thread", A.name.c_str()); }
        uint64_t la = length(a, 0, maxlen);
        for (size_t b = 0; b < n; b++) {
            const Op &B = ops()[b]; if (B.group != A.group) continue; uint64_t lb; if (a == b) lb = la; else { if (!th && (B.weight > 0 || b % 3 != a % 3)) continue; run_op(B, 0, o); run_op(B, 1, o); lb = length(b, 1, maxlen); }
            if (la > maxlen) { if (a == b) note(A.name + ": more than " + std::to_string(maxlen) + " instructions, not single-stepped"); continue; }
            if (la * lb > budget) { if (a == b) note(A.name + ": too long (" + std::to_string(la) + " instructions) to be interrupted by itself at every instruction"); continue; }
            alone(a, 0, b, 1); run(a, 0, b, 1, 1); if (a == b && la * lb < budget / 4) { alone(a, 1, a, 0); run(a, 1, a, 0, 1); alone(a, 0, a, 0); run(a, 0, a, 0, 1); }
        }
    }
    g_stop = true; post(); pthread_join(t, nullptr);
})
