// Run-time of sched.hpp. Compiled without instrumentation.
#include "sched.hpp"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <linux/futex.h>
#include <map>
#include <new>
#include <pthread.h>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dlfcn.h>
#include <cxxabi.h>
#include <gmp.h>

namespace sched {
typedef uintptr_t up;
// ---- shared between the explorer and a child
struct Point { uint8_t cur, cur_runnable, enabled, chosen; };
const size_t MAXP = 1 << 18, MAXC = 1 << 14, MAXM = 4096;
struct Shared {
    // to the child
    uint32_t active, nprefix, nin; uint8_t prefix[MAXP]; up in_l[MAXC]; uint64_t in_m[MAXC]; uint8_t bloom[1 << 16];
    // from the child
    uint64_t naccess; int status; uint32_t npoints, nconf, finished, locks_shared, overflow; char msg[MAXM]; Point pt[MAXP]; up cl[MAXC]; uint64_t cm[MAXC];
};
static Shared *sh;
static inline unsigned bh(up line) { return (unsigned)((line * 0x9E3779B97F4A7C15ull) >> 48); }

// ---- team state (child)
static bool in_team; static int nteam, cur; static int waiting[MAXT]; // futex words
enum { RUN, BLOCKED, DONE, BARRIER };
static int st_[MAXT]; static const void *blocked_on[MAXT]; static up stack_lo[MAXT], stack_hi[MAXT];
static __thread int tid = -1;
static std::map<const void *, int> *owner; static std::map<const void *, int> *lockno; static uint32_t lock_users[32];
int me() { return tid; }
int omp_regions, omp_barriers;

// ---- happens-before: vector clocks of threads, locks, atomics
typedef uint32_t Clock[MAXT]; static Clock vc[MAXT]; struct VC { Clock c; };
static std::map<const void *, VC> *lock_vc;
static void vc_join(Clock a, const Clock b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }
static void vc_release(const void *l, bool keep) { VC &v = (*lock_vc)[l]; if (keep) vc_join(v.c, vc[tid]); else memcpy(v.c, vc[tid], sizeof(Clock)); vc[tid][tid]++; }
static void vc_acquire(const void *l) { auto it = lock_vc->find(l); if (it != lock_vc->end()) vc_join(vc[tid], it->second.c); }
// ---- footprints
const int NE = 3; struct Ep { uint32_t e; uint64_t r, w; };
struct Line { Ep ep[MAXT][NE]; uint64_t ar[MAXT], aw[MAXT]; }; // plain accesses by epoch, newest first; atomic accesses
struct Slot { up key; uint32_t ix; };
const size_t NL = 1 << 19; static Slot *tab; static Line *lines; static size_t used; static uint32_t *usedix;
static Slot *slot(up line) { size_t h = (line * 0x9E3779B97F4A7C15ull) >> 45; h &= NL - 1; while (tab[h].key && tab[h].key != line) h = (h + 1) & (NL - 1); return &tab[h]; }
static Line *lookup(up line)
{
    Slot *s = slot(line);
    if (!s->key) { if (used >= NL / 4) { sh->overflow = 1; return nullptr; } usedix[used] = s - tab; s->key = line; s->ix = used++; memset(&lines[s->ix], 0, sizeof(Line)); }
    return &lines[s->ix];
}
static void die(const char *m) { snprintf(sh->msg, MAXM, "%s", m); sh->finished = 2; _exit(9); }
static void fwait(int i) { while (!__atomic_load_n(&waiting[i], __ATOMIC_ACQUIRE)) syscall(SYS_futex, &waiting[i], FUTEX_WAIT, 0, nullptr, nullptr, 0); __atomic_store_n(&waiting[i], 0, __ATOMIC_RELEASE); }
static void fpost(int i) { __atomic_store_n(&waiting[i], 1, __ATOMIC_RELEASE); syscall(SYS_futex, &waiting[i], FUTEX_WAKE, 1, nullptr, nullptr, 0); }
static int choose(bool can_stay)
{
    uint8_t en = 0; int n = 0; for (int i = 0; i < nteam; i++) if (st_[i] == RUN) { en |= 1 << i; n++; }
    if (!n) return -1;
    int c = -1; bool stay = can_stay && st_[cur] == RUN; static uint32_t streak; static int last = -1;
    if (cur != last) { last = cur; streak = 0; }
    if (stay && n > 1 && ++streak > 3000) { stay = false; streak = 0; for (int i = 1; i < nteam; i++) if (en >> (cur + i) % nteam & 1) { c = (cur + i) % nteam; break; } } // fairness: a spinning thread gives way
    else if (stay) c = cur; else for (int i = 0; i < nteam; i++) if (en >> i & 1) { c = i; break; }
    if (sh->active && n > 1) {
        if (sh->npoints >= MAXP) { sh->overflow = 1; return c; }
        uint32_t k = sh->npoints++; if (k < sh->nprefix && (en >> sh->prefix[k] & 1)) c = sh->prefix[k];
        Point p = {(uint8_t)cur, (uint8_t)stay, en, (uint8_t)c}; sh->pt[k] = p;
    }
    return c;
}
static void switch_to(int c) { if (c == cur) return; int m = cur; cur = c; fpost(c); fwait(m); }
static void point() { int c = choose(true); if (c >= 0) switch_to(c); }
static void block(const void *on) { st_[cur] = BLOCKED; blocked_on[cur] = on; int c = choose(false); if (c < 0) die("deadlock"); switch_to(c); }
static void wake(const void *on) { for (int i = 0; i < nteam; i++) if (st_[i] == BLOCKED && blocked_on[i] == on) { st_[i] = RUN; blocked_on[i] = nullptr; } }
static int lock_id(const void *l) { auto it = lockno->find(l); if (it == lockno->end()) it = lockno->emplace(l, (int)lockno->size() % 32).first; return it->second; }
static void lock(const void *l)
{
    if (tid < 0) return; // single threaded
    int id = lock_id(l); lock_users[id] |= 1u << tid; if (lock_users[id] & (lock_users[id] - 1)) sh->locks_shared = 1;
    point(); while (owner->count(l)) block(l);
    (*owner)[l] = tid; vc_acquire(l);
}
static bool trylock(const void *l) { if (tid < 0) return true; int id = lock_id(l); lock_users[id] |= 1u << tid; if (lock_users[id] & (lock_users[id] - 1)) sh->locks_shared = 1; point(); if (owner->count(l)) return false; (*owner)[l] = tid; vc_acquire(l); return true; }
static void unlock(const void *l) { if (tid < 0) return; vc_release(l, false); owner->erase(l); wake(l); }
static std::string where(const void *p)
{
    Dl_info d; char t[64]; if (dladdr(p, &d) && d.dli_sname) { int st; char *m = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st); std::string r = m && !st ? m : d.dli_sname; free(m); if (r.size() > 160) r.resize(160); snprintf(t, sizeof t, "+%lu", (unsigned long)((up)p - (up)d.dli_saddr)); return r + t; }
    snprintf(t, sizeof t, "%p", p); return t;
}
static void race(const void *p, bool w, int u, bool uw, const void *pc)
{
    int t = tid; tid = -1; std::string a = where(p); if (a[0] == '0') a = "memory at " + a;
    snprintf(sh->msg, MAXM, "data race on %s: thread %d %s it (in %s) while thread %d %s it, nothing ordering the two", a.c_str(), t, w ? "writes" : "reads", where(pc).c_str(), u, uw ? "writes" : "reads"); sh->finished = 1; _exit(0);
}
static void touch(const void *p, size_t n, bool w, const void *pc)
{
    int t = tid; if (t < 0) return; up a = (up)p;
    if (a < stack_hi[t] && a >= stack_lo[t]) return;
    sh->naccess++;
    while (n) {
        up line = a >> 6; unsigned o = a & 63; size_t k = std::min<size_t>(n, 64 - o); uint64_t m = (k == 64 ? ~0ull : ((1ull << k) - 1)) << o;
        Line *L = lookup(line);
        if (L) {
            for (int u = 0; u < nteam; u++) if (u != t) {
                for (int q = 0; q < NE; q++) { const Ep &e = L->ep[u][q]; if (e.e > vc[t][u] && (m & (w ? e.r | e.w : e.w))) race((const void *)a, w, u, (m & e.w) != 0, pc); }
            }
            Ep *e = L->ep[t]; if (e[0].e != vc[t][t]) { if (e[0].e) { e[NE - 1] = e[NE - 2]; for (int q = NE - 2; q > 0; q--) e[q] = e[q - 1]; } e[0].e = vc[t][t]; e[0].r = e[0].w = 0; }
            (w ? e[0].w : e[0].r) |= m;
        }
        a += k; n -= k;
    }
}
// atomic accesses are schedule points once two threads use them in conflict
static void atomic_touch(const void *p, size_t n, bool r, bool w, int mo)
{
    int t = tid; if (t < 0) return; up a = (up)p, line = a >> 6; uint64_t m = ((1ull << n) - 1) << (a & 63); sh->naccess++;
    if (sh->active && sh->bloom[bh(line)]) { up *e = sh->in_l + sh->nin, *q = std::lower_bound(sh->in_l, e, line); if (q != e && *q == line && (sh->in_m[q - sh->in_l] & m)) point(); }
    Line *L = lookup(line); if (L) { if (r) L->ar[t] |= m; if (w) L->aw[t] |= m; }
    if (r && mo != 0 && mo != 3) vc_acquire(p);
    if (w && mo >= 3) vc_release(p, r);
}
static uint64_t conflict_of(const Line &L)
{
    uint64_t m = 0; for (int i = 0; i < nteam; i++) for (int j = 0; j < i; j++) m |= (L.aw[i] & (L.ar[j] | L.aw[j])) | (L.ar[i] & L.aw[j]);
    return m;
}
static void conflict(up key, uint64_t m) { if (sh->nconf < MAXC) { sh->cl[sh->nconf] = key; sh->cm[sh->nconf++] = m; } else sh->overflow = 1; }
// a block handed out by the allocator: what its memory was used for before is over
static void fresh(void *p, size_t n)
{
    if (tid < 0) return; up a = (up)p;
    while (n) {
        up line = a >> 6; unsigned o = a & 63; size_t k = std::min<size_t>(n, 64 - o); uint64_t m = (k == 64 ? ~0ull : ((1ull << k) - 1)) << o; Slot *s = slot(line);
        if (s->key) { Line &L = lines[s->ix]; uint64_t c = conflict_of(L) & m; if (c) conflict(line, c); for (int i = 0; i < nteam; i++) { L.ar[i] &= ~m; L.aw[i] &= ~m; for (int q = 0; q < NE; q++) { L.ep[i][q].r &= ~m; L.ep[i][q].w &= ~m; } } }
        a += k; n -= k;
    }
}
static void flush_conflicts()
{
    for (size_t u = 0; u < used; u++) { Slot &s = tab[usedix[u]]; uint64_t m = conflict_of(lines[s.ix]); if (m) conflict(s.key, m); s.key = 0; }
    used = 0;
}
static void *gmp_alloc(size_t n) { void *p = malloc(n); if (!p) abort(); fresh(p, n); return p; }
static void *gmp_realloc(void *o, size_t, size_t n) { void *p = realloc(o, n); if (!p) abort(); if (p != o) fresh(p, n); return p; }
static void gmp_free(void *p, size_t) { free(p); }
__attribute__((constructor)) static void init_gmp() { mp_set_memory_functions(gmp_alloc, gmp_realloc, gmp_free); }
struct Start { int i; const std::function<void(int)> *body; };
static void finish_thread(int i)
{
    st_[i] = DONE;
    if (i) { int c = choose(false); if (c < 0) { for (int k = 0; k < nteam; k++) if (st_[k] != DONE) die("deadlock"); cur = 0; fpost(0); } else { cur = c; fpost(c); } }
}
static void *thread_main(void *v)
{
    Start s = *(Start *)v; fwait(s.i); tid = s.i;
    pthread_attr_t at; void *lo; size_t sz; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at);
    stack_lo[s.i] = (up)lo; stack_hi[s.i] = (up)__builtin_frame_address(0);
    (*s.body)(s.i); tid = -1; finish_thread(s.i);
    // stay alive until the whole team is done so that no memory of this thread is reused
    fwait(s.i); return nullptr;
}
void team(int n, const std::function<void(int)> &body)
{
    if (n < 1) n = 1; if (n > MAXT) n = MAXT;
    if (in_team || n == 1) { int save = tid; body(0); tid = save; return; }
    if (!sh) { for (int i = 0; i < n; i++) body(i); return; }
    if (!tab) { tab = (Slot *)mmap(nullptr, sizeof(Slot) * NL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); lines = (Line *)mmap(nullptr, sizeof(Line) * (NL / 4), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); usedix = (uint32_t *)mmap(nullptr, 4 * NL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    if (!owner) { owner = new std::map<const void *, int>; lockno = new std::map<const void *, int>; lock_vc = new std::map<const void *, VC>; }
    owner->clear(); lockno->clear(); lock_vc->clear(); memset(vc, 0, sizeof vc); for (int i = 0; i < MAXT; i++) vc[i][i] = 1; memset(lock_users, 0, sizeof lock_users);
    in_team = true; nteam = n; cur = 0; std::vector<pthread_t> th(n); std::vector<Start> ss(n);
    for (int i = 0; i < n; i++) { st_[i] = RUN; waiting[i] = 0; blocked_on[i] = nullptr; ss[i] = {i, &body}; }
    for (int i = 1; i < n; i++) if (pthread_create(&th[i], nullptr, thread_main, &ss[i])) die("pthread_create");
    // thread 0: everything below this frame is its own
    pthread_attr_t at; void *lo; size_t sz; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at);
    stack_lo[0] = (up)lo; stack_hi[0] = (up)__builtin_frame_address(0); tid = 0;
    { uint8_t save = st_[0]; (void)save; int c = choose(false); if (c != 0) { cur = c; fpost(c); fwait(0); } } // who starts is free
    body(0); tid = -1; st_[0] = DONE;
    bool all = true; for (int i = 0; i < n; i++) if (st_[i] != DONE) all = false;
    if (!all) { int c = choose(false); if (c < 0) die("deadlock"); cur = c; fpost(c); fwait(0); }
    for (int i = 0; i < n; i++) if (st_[i] != DONE) die("deadlock: a thread never finished");
    for (int i = 1; i < n; i++) fpost(i);
    for (int i = 1; i < n; i++) pthread_join(th[i], nullptr);
    flush_conflicts(); in_team = false; nteam = 0;
}
static int order(const Point &p, int c) { int d = p.cur_runnable ? p.cur : __builtin_ctz(p.enabled); if (c == d) return -1; return c; } // default first, then ascending
// one execution, in the zygote: nothing is allocated there between executions, so that every child sees the same addresses
static int one_execution(const std::function<std::string()> &prog)
{
    pid_t pid = fork();
    if (pid < 0) return -1;
    if (!pid) {
        for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGPROF}) signal(s, SIG_DFL);
        struct rlimit rl = {20, 22}; setrlimit(RLIMIT_CPU, &rl); alarm(150);
        std::string m; try { m = prog(); } catch (std::exception &e) { m = std::string("exception: ") + e.what(); }
        snprintf(sh->msg, MAXM, "%s", m.c_str()); sh->finished = 1; _exit(0);
    }
    int stt = 0; while (waitpid(pid, &stt, 0) < 0 && errno == EINTR) {}
    return stt;
}
std::string explore(const std::function<std::string()> &prog, int bound, uint64_t cap, Stat &st)
{
    if (!sh) { sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
    std::map<up, uint64_t> conf; memset(sh->bloom, 0, sizeof sh->bloom); sh->active = sh->nprefix = sh->nin = 0; uint64_t execs0 = st.execs; std::string result; int b = 0; bool preemptible = false; // preemption bound of this sweep
    int to[2], from[2]; if (pipe(to) || pipe(from)) { perror("pipe"); abort(); }
    fflush(nullptr); pid_t zy = fork(); if (zy < 0) { perror("fork"); abort(); }
    if (!zy) { close(to[1]); close(from[0]); char c; while (read(to[0], &c, 1) == 1) { sh->status = one_execution(prog); if (write(from[1], &c, 1) != 1) break; } _exit(0); }
    close(to[0]); close(from[1]);
    for (;;) {
        if (st.execs - execs0 >= cap) { st.capped = true; break; }
        sh->naccess = 0; sh->npoints = sh->nconf = sh->finished = sh->locks_shared = sh->overflow = 0; sh->msg[0] = 0;
        char c = 'x'; ssize_t w = write(to[1], &c, 1), r; do r = read(from[0], &c, 1); while (r < 0 && errno == EINTR); if (w != 1 || r != 1) { fprintf(stderr, "scheduler: lost the zygote\n"); abort(); }
        int stt = sh->status; st.execs++; st.points += sh->npoints; st.accesses += sh->naccess;
        std::vector<Point> p(sh->pt, sh->pt + sh->npoints); std::string m;
        if (WIFSIGNALED(stt)) { int g = WTERMSIG(stt); char t[96]; snprintf(t, sizeof t, g == SIGXCPU || g == SIGKILL || g == SIGALRM ? "does not terminate (signal %d)" : "crash (signal %d)", g); m = t; } else if (!sh->finished) m = "the run ended early"; else m = sh->msg;
        if (!m.empty()) {
            char t[64]; int last = -1; st.schedule.clear(); for (size_t i = 0; i < p.size(); i++) if (p[i].chosen != last) { snprintf(t, sizeof t, "%s@%zu:t%d", st.schedule.empty() ? "" : " ", i, p[i].chosen); st.schedule += t; last = p[i].chosen; if (st.schedule.size() > 400) break; }
            result = m; break;
        }
        if (sh->overflow) st.capped = true;
        bool grew = false; for (uint32_t i = 0; i < sh->nconf; i++) { uint64_t &c = conf[sh->cl[i]]; if ((c | sh->cm[i]) != c) { c |= sh->cm[i]; grew = true; } }
        st.conflicts = std::max<uint64_t>(st.conflicts, conf.size());
        if (grew || !sh->active) { // more schedule points (at least: which thread runs first): start over
            sh->active = 1; sh->nprefix = 0; b = 0; sh->nin = 0; for (auto &k : conf) { if (sh->nin == MAXC) { st.capped = true; break; } sh->in_l[sh->nin] = k.first; sh->in_m[sh->nin++] = k.second; sh->bloom[bh(k.first)] = 1; }
            st.restarts++; continue;
        }
        for (auto &q : p) if (q.cur_runnable && (q.enabled & (q.enabled - 1))) preemptible = true;
        // next schedule, depth first
        size_t k = p.size(); bool found = false; std::vector<int> pre(k + 1, 0); for (size_t i = 0; i < k; i++) pre[i + 1] = pre[i] + (p[i].cur_runnable && p[i].chosen != p[i].cur);
        while (k-- > 0) {
            int base = pre[k], now = order(p[k], p[k].chosen), best = INT_MAX, pick = -1;
            for (int c = 0; c < MAXT; c++) if (p[k].enabled >> c & 1) { int o = order(p[k], c), extra = p[k].cur_runnable && c != p[k].cur; if (o > now && o < best && base + extra <= b) { best = o; pick = c; } }
            if (pick >= 0) { sh->nprefix = k + 1; for (size_t i = 0; i < k; i++) sh->prefix[i] = p[i].chosen; sh->prefix[k] = pick; found = true; break; }
        }
        if (!found) { if (b >= bound || !preemptible) break; b++; sh->nprefix = 0; } // fewer preemptions first
    }
    close(to[1]); close(from[0]); int d; while (waitpid(zy, &d, 0) < 0 && errno == EINTR) {}
    return result;
}
// ---- OpenMP
static int omp_threads = 1; static std::vector<int> omp_assign; static bool omp_virtual; static __thread int vtid = -1; static int vnum;
void omp_config(int t, const std::vector<int> *a) { omp_threads = t; omp_virtual = a != nullptr; omp_assign = a ? *a : std::vector<int>(); }
static char crit_default, atomic_lock;
struct Loop { bool started; long long next, end, incr, chunk; unsigned long long unext; int arrived; int gen; } loop_;
static int bar_count, bar_gen; static Clock bar_vc, bar_done;
static void barrier()
{
    omp_barriers++; if (tid < 0 || nteam <= 1) return; if (omp_virtual) die("");
    vc_join(bar_vc, vc[tid]); vc[tid][tid]++; int g = bar_gen; if (++bar_count == nteam) { memcpy(bar_done, bar_vc, sizeof(Clock)); memset(bar_vc, 0, sizeof(Clock)); vc_join(vc[tid], bar_done); bar_count = 0; bar_gen++; wake(&bar_count); loop_.started = false; point(); return; }
    while (bar_gen == g) block(&bar_count);
    vc_join(vc[tid], bar_done);
}
} // namespace sched
using namespace sched;
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); sched::fresh(p, n); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
static void run_parallel(void (*fn)(void *), void *data, unsigned nth)
{
    sched::omp_regions++; int T = nth ? (int)nth : omp_threads; loop_.started = false; bar_count = 0; static __thread int depth = 0;
    if (depth || tid >= 0) { int s = vtid; vtid = 0; fn(data); vtid = s; return; }
    depth++;
    if (omp_virtual) { int N = omp_assign.size(); vnum = N; int mx = 0; for (int a : omp_assign) mx = std::max(mx, a + 1); team(mx, [&](int i) { for (int v = 0; v < N; v++) if (omp_assign[v] == i) { vtid = v; fn(data); vtid = -1; } }); }
    else { vnum = T; if (T == 1) { vtid = 0; fn(data); vtid = -1; } else team(T, [&](int i) { vtid = i; fn(data); vtid = -1; }); }
    vnum = 0; depth--;
}
extern "C" {
int omp_get_thread_num() { return vtid < 0 ? 0 : vtid; }
int omp_get_num_threads() { return vnum ? vnum : 1; }
int omp_get_max_threads() { return omp_threads; }
int omp_get_num_procs() { return omp_threads; }
void omp_set_num_threads(int n) { omp_threads = n; }
int omp_in_parallel() { return vnum > 1; }
int omp_get_dynamic() { return 0; } void omp_set_dynamic(int) {} int omp_get_nested() { return 0; } void omp_set_nested(int) {} int omp_get_level() { return vnum ? 1 : 0; } double omp_get_wtime() { return 0; }
void GOMP_parallel(void (*fn)(void *), void *data, unsigned nth, unsigned) { run_parallel(fn, data, nth); }
void GOMP_critical_start() { sched::lock(&crit_default); } void GOMP_critical_end() { sched::unlock(&crit_default); }
void GOMP_critical_name_start(void **p) { sched::lock(p); } void GOMP_critical_name_end(void **p) { sched::unlock(p); }
void GOMP_atomic_start() { sched::lock(&atomic_lock); } void GOMP_atomic_end() { sched::unlock(&atomic_lock); }
struct omp_lock { void *p; };
void omp_init_lock(omp_lock *) {} void omp_destroy_lock(omp_lock *) {} void omp_set_lock(omp_lock *l) { sched::lock(l); } void omp_unset_lock(omp_lock *l) { sched::unlock(l); } int omp_test_lock(omp_lock *l) { return sched::trylock(l); }
void GOMP_barrier() { barrier(); }
void GOMP_taskwait() {}
void GOMP_task(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long sz, long al, bool, unsigned, void **, int, void *)
{ if (cpyfn) { std::vector<char> b(sz + al); char *a = (char *)(((up)b.data() + al - 1) & ~(up)(al - 1)); cpyfn(a, data); fn(a); } else fn(data); }
bool GOMP_single_start() { return omp_get_thread_num() == 0; }
#define LOOPS(P, T) \
static bool P##grab(T *s, T *e) { if (tid >= 0) point(); T n = (T)loop_.next, end = (T)loop_.end; bool up_ = loop_.incr > 0 || sizeof(T) == 0; if (up_ ? n >= end : n <= end) return false; T m = n + (T)(loop_.chunk * loop_.incr); if (up_ ? m > end : m < end) m = end; *s = n; *e = m; loop_.next = (long long)m; return true; } \
static void P##init(T s, T e, T inc, T ch) { if (!loop_.started) { loop_.started = true; loop_.next = (long long)s; loop_.end = (long long)e; loop_.incr = (long long)inc; loop_.chunk = ch ? (long long)ch : 1; } }
LOOPS(l, long) LOOPS(u, unsigned long long)
#define LSTART(N) bool GOMP_loop_##N##_start(long s, long e, long i, long c, long *a, long *b) { linit(s, e, i, c); return lgrab(a, b); } bool GOMP_loop_##N##_next(long *a, long *b) { return lgrab(a, b); } \
 bool GOMP_loop_ull_##N##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *a, unsigned long long *b) { uinit(s, e, i, c); return ugrab(a, b); } bool GOMP_loop_ull_##N##_next(unsigned long long *a, unsigned long long *b) { return ugrab(a, b); } \
 void GOMP_parallel_loop_##N(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c, unsigned) { sched::omp_regions++; struct { void (*fn)(void *); void *d; long s, e, i, c; } x = {fn, d, s, e, i, c}; run_parallel([](void *v) { auto &y = *(decltype(x) *)v; linit(y.s, y.e, y.i, y.c); y.fn(y.d); }, &x, nt); }
LSTART(dynamic) LSTART(guided) LSTART(nonmonotonic_dynamic) LSTART(nonmonotonic_guided)
void GOMP_loop_end() { barrier(); loop_.started = false; } void GOMP_loop_end_nowait() {}
// ---- the same for code compiled by clang
typedef void (*kmpc_micro)(int *, int *, ...); struct kid; static int knum;
void __kmpc_push_num_threads(kid *, int, int n) { knum = n; }
int __kmpc_global_thread_num(kid *) { return omp_get_thread_num(); }
struct KCall { kmpc_micro f; int n; void *a[16]; };
static void kinvoke(void *v)
{
    KCall &c = *(KCall *)v; void **a = c.a; int g = omp_get_thread_num(), b = g; if (c.n > 16) { fprintf(stderr, "scheduler: parallel region with %d arguments\n", c.n); abort(); }
    c.f(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15]);
}
void __kmpc_fork_call(kid *, int argc, kmpc_micro f, ...) { KCall c = {f, argc, {}}; __builtin_va_list ap; __builtin_va_start(ap, f); for (int i = 0; i < argc && i < 16; i++) c.a[i] = __builtin_va_arg(ap, void *); __builtin_va_end(ap); int n = knum; knum = 0; run_parallel(kinvoke, &c, n); }
void __kmpc_serialized_parallel(kid *, int) {} void __kmpc_end_serialized_parallel(kid *, int) {}
void __kmpc_barrier(kid *, int) { barrier(); } void __kmpc_flush(kid *) {}
void __kmpc_critical(kid *, int, void *l) { sched::lock(l); } void __kmpc_critical_with_hint(kid *, int, void *l, unsigned) { sched::lock(l); } void __kmpc_end_critical(kid *, int, void *l) { sched::unlock(l); }
int __kmpc_master(kid *, int) { return omp_get_thread_num() == 0; } void __kmpc_end_master(kid *, int) {} int __kmpc_masked(kid *, int, int f) { return omp_get_thread_num() == f; } void __kmpc_end_masked(kid *, int) {}
int __kmpc_single(kid *, int) { return omp_get_thread_num() == 0; } void __kmpc_end_single(kid *, int) {}
int __kmpc_reduce(kid *, int, int, size_t, void *, void *, void *l) { sched::lock(l); return 1; } void __kmpc_end_reduce(kid *, int, void *l) { sched::unlock(l); barrier(); }
int __kmpc_reduce_nowait(kid *, int, int, size_t, void *, void *, void *l) { sched::lock(l); return 1; } void __kmpc_end_reduce_nowait(kid *, int, void *l) { sched::unlock(l); }
#define KSTATIC(N, T, ST) void __kmpc_for_static_init_##N(kid *, int, int sch, int *last, T *lo, T *hi, ST *stride, ST inc, ST chunk) { \
    T t = omp_get_thread_num(), nth = omp_get_num_threads(), tc = inc > 0 ? (*hi - *lo) / inc + 1 : (*lo - *hi) / (T)(-inc) + 1; sch &= 0xffff; \
    if (sch == 33) { if (chunk < 1) chunk = 1; ST span = chunk * inc; *stride = span * nth; *lo += span * t; *hi = *lo + span - inc; *last = t == (tc - 1) / (T)chunk % nth; return; } \
    if (tc < nth) { if (t < tc) *hi = *lo = *lo + t * inc; else *lo = *hi + inc; *last = t == tc - 1; } else { T small = tc / nth, extra = tc % nth; *lo += inc * (t * small + (t < extra ? t : extra)); *hi = *lo + small * inc - (t < extra ? 0 : inc); *last = t == nth - 1; } *stride = tc; } \
void __kmpc_dispatch_init_##N(kid *, int, int, T lo, T hi, ST inc, ST chunk) { if (!loop_.started) { loop_.started = true; loop_.next = (long long)lo; loop_.end = (long long)hi; loop_.incr = (long long)inc; loop_.chunk = chunk > 0 ? (long long)chunk : 1; } } \
int __kmpc_dispatch_next_##N(kid *, int, int *last, T *lo, T *hi, ST *st) { if (tid >= 0) point(); T n = (T)loop_.next, end = (T)loop_.end; ST inc = (ST)loop_.incr; if (inc > 0 ? n > end : n < end) return 0; T m = n + (T)((loop_.chunk - 1) * inc); if (inc > 0 ? m >= end : m <= end) { m = end; *last = 1; } *lo = n; *hi = m; *st = inc; loop_.next = (long long)(m + inc); return 1; } \
void __kmpc_dispatch_fini_##N(kid *, int) {}
KSTATIC(4, int, int) KSTATIC(4u, unsigned, int) KSTATIC(8, long, long) KSTATIC(8u, unsigned long, long)
void __kmpc_for_static_fini(kid *, int) {}
// ---- other locks: guards of function-local statics, mutexes, once
int __cxa_guard_acquire(long long *g) { if (*(volatile char *)g) { if (tid >= 0) vc_acquire(g); return 0; } if (tid >= 0) { sched::lock(g); if (*(volatile char *)g) { sched::unlock(g); return 0; } } return 1; }
void __cxa_guard_release(long long *g) { *(volatile char *)g = 1; if (tid >= 0) sched::unlock(g); }
void __cxa_guard_abort(long long *g) { if (tid >= 0) sched::unlock(g); }
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *); int __real_pthread_once(pthread_once_t *, void (*)(void));
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (tid < 0) return __real_pthread_mutex_lock(m); sched::lock(m); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (tid < 0) return __real_pthread_mutex_unlock(m); sched::unlock(m); return 0; }
int __wrap_pthread_once(pthread_once_t *c, void (*f)(void)) { if (tid < 0) return __real_pthread_once(c, f); sched::lock(c); static std::set<void *> done; bool run = !done.count(c) && *(int *)c == 0; if (run) { f(); done.insert(c); } sched::unlock(c); return 0; }
// ---- instrumentation entry points
#define PC __builtin_return_address(0)
void sched_touch(const void *p, unsigned long n, bool w) { touch(p, n, w, PC); }
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *p) { touch(p, n, false, PC); } void __tsan_write##n(void *p) { touch(p, n, true, PC); } void __tsan_unaligned_read##n(void *p) { touch(p, n, false, PC); } void __tsan_unaligned_write##n(void *p) { touch(p, n, true, PC); } void __tsan_volatile_read##n(void *p) { touch(p, n, false, PC); } void __tsan_volatile_write##n(void *p) { touch(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { touch(p, n, false, PC); } void __tsan_write_range(void *p, size_t n) { touch(p, n, true, PC); }
void *__tsan_memcpy(void *d, const void *q, size_t n) { touch(q, n, false, PC); touch(d, n, true, PC); return memcpy(d, q, n); } void *__tsan_memmove(void *d, const void *q, size_t n) { touch(q, n, false, PC); touch(d, n, true, PC); return memmove(d, q, n); } void *__tsan_memset(void *d, int c, size_t n) { touch(d, n, true, PC); return memset(d, c, n); }
void __tsan_vptr_update(void **p, void *) { touch(p, 8, true, PC); } void __tsan_vptr_read(void **p) { touch(p, 8, false, PC); }
#define ATOMIC(b, T) \
T __tsan_atomic##b##_load(const volatile T *a, int mo) { atomic_touch((void *)a, sizeof(T), true, false, mo); return *a; } \
void __tsan_atomic##b##_store(volatile T *a, T v, int mo) { atomic_touch((void *)a, sizeof(T), false, true, mo); *a = v; } \
T __tsan_atomic##b##_exchange(volatile T *a, T v, int mo) { atomic_touch((void *)a, sizeof(T), true, true, mo); T o = *a; *a = v; return o; } \
T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int mo) { atomic_touch((void *)a, sizeof(T), true, true, mo); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int mo) { atomic_touch((void *)a, sizeof(T), true, true, mo); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int mo) { atomic_touch((void *)a, sizeof(T), true, true, mo); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int mo) { atomic_touch((void *)a, sizeof(T), true, true, mo); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int mo) { atomic_touch((void *)a, sizeof(T), true, true, mo); T o = *a; *a = o ^ v; return o; } \
int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int) { atomic_touch((void *)a, sizeof(T), true, true, mo); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int n) { return __tsan_atomic##b##_compare_exchange_strong(a, c, v, mo, n); }
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned int) ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
// ---- accesses made by GMP and by block copies on behalf of the instrumented code (-Wl,--wrap)
typedef unsigned long L;
#define MPN2(f, RT) RT __real___gmpn_##f(L *, const L *, long); RT __wrap___gmpn_##f(L *r, const L *a, long n) { touch(a, n * 8, false, PC); touch(r, n * 8, true, PC); return __real___gmpn_##f(r, a, n); }
MPN2(copyi, void) MPN2(copyd, void) MPN2(com, void)
#define MPN3(f) L __real___gmpn_##f(L *, const L *, const L *, long); L __wrap___gmpn_##f(L *r, const L *a, const L *b, long n) { touch(a, n * 8, false, PC); touch(b, n * 8, false, PC); touch(r, n * 8, true, PC); return __real___gmpn_##f(r, a, b, n); }
MPN3(add_n) MPN3(sub_n)
#define MPN1(f) L __real___gmpn_##f(L *, const L *, long, L); L __wrap___gmpn_##f(L *r, const L *a, long n, L v) { touch(a, n * 8, false, PC); touch(r, n * 8, true, PC); return __real___gmpn_##f(r, a, n, v); }
MPN1(mul_1) MPN1(addmul_1) MPN1(submul_1)
void __real___gmpn_mul_n(L *, const L *, const L *, long); void __wrap___gmpn_mul_n(L *r, const L *a, const L *b, long n) { touch(a, n * 8, false, PC); touch(b, n * 8, false, PC); touch(r, n * 16, true, PC); __real___gmpn_mul_n(r, a, b, n); }
L __real___gmpn_mul(L *, const L *, long, const L *, long); L __wrap___gmpn_mul(L *r, const L *a, long n, const L *b, long m) { touch(a, n * 8, false, PC); touch(b, m * 8, false, PC); touch(r, (n + m) * 8, true, PC); return __real___gmpn_mul(r, a, n, b, m); }
void __real___gmpn_sqr(L *, const L *, long); void __wrap___gmpn_sqr(L *r, const L *a, long n) { touch(a, n * 8, false, PC); touch(r, n * 16, true, PC); __real___gmpn_sqr(r, a, n); }
void __real___gmpn_zero(L *, long); void __wrap___gmpn_zero(L *r, long n) { touch(r, n * 8, true, PC); __real___gmpn_zero(r, n); }
#define SH(f) L __real___gmpn_##f(L *, const L *, long, unsigned); L __wrap___gmpn_##f(L *r, const L *a, long n, unsigned c) { touch(a, n * 8, false, PC); touch(r, n * 8, true, PC); return __real___gmpn_##f(r, a, n, c); }
SH(lshift) SH(rshift)
void __real___gmpn_tdiv_qr(L *, L *, long, const L *, long, const L *, long); void __wrap___gmpn_tdiv_qr(L *q, L *r, long z, const L *a, long n, const L *d, long m) { touch(a, n * 8, false, PC); touch(d, m * 8, false, PC); touch(q, (n - m + 1) * 8, true, PC); touch(r, m * 8, true, PC); __real___gmpn_tdiv_qr(q, r, z, a, n, d, m); }
long __real___gmpn_gcdext(L *, L *, long *, L *, long, L *, long);
void *__real_memcpy(void *, const void *, size_t); void *__wrap_memcpy(void *d, const void *s, size_t n) { touch(s, n, false, PC); touch(d, n, true, PC); return __real_memcpy(d, s, n); }
void *__real_memmove(void *, const void *, size_t); void *__wrap_memmove(void *d, const void *s, size_t n) { touch(s, n, false, PC); touch(d, n, true, PC); return __real_memmove(d, s, n); }
void *__real_memset(void *, int, size_t); void *__wrap_memset(void *d, int c, size_t n) { touch(d, n, true, PC); return __real_memset(d, c, n); }
}
