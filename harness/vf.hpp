// Exploration driver shared by every harness: sharding, counting, breadcrumbs, violation reports.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cstdint>
#include <csignal>
#include <ctime>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <sstream>
#include <iostream>
#include <exception>
#include <unistd.h>
#include <sys/time.h>
#include <sys/mman.h>

namespace vf {

struct Viol { std::string key, msg, unit; };
struct State {
    int shard = 0, nshards = 1;
    bool thorough = false, full = false; // full: a sanitizer build exploring the whole of the quick bounds
    std::string out, only;
    uint64_t unit_no = 0;
    std::string unit = "(start)";
    uint64_t states = 0, trans = 0, traces = 0;
    std::map<std::string, std::pair<uint64_t, uint64_t>> sections; // name -> states, transitions
    std::string section = "main";
    std::vector<std::string> samples;
    std::map<std::string, uint64_t> sample_seen;
    std::vector<Viol> viols;
    std::map<std::string, uint64_t> viol_count;
    std::set<std::string> known, known_hit;
    std::vector<std::string> notes;
    uint64_t total_viol = 0;
};
inline State &S() { static State s; return s; }
static volatile uint64_t g_progress = 0;
static char g_crumb[1024];          // breadcrumb, async-signal readable
static volatile int g_hang_ticks = 0;
static uint64_t g_last_progress = 0;
static int g_hang_limit = 40;       // CPU seconds without progress
static bool g_finished = false;

struct Done {};

inline void at(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline void at(const char *fmt, ...)
{
    g_progress = g_progress + 1;
    va_list ap; va_start(ap, fmt); vsnprintf(g_crumb, sizeof g_crumb, fmt, ap); va_end(ap);
}
inline void tick() { g_progress = g_progress + 1; }

inline std::string esc(const std::string &s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}

inline void write_out(const char *fatal)
{
    State &s = S();
    if (s.out.empty()) return;
    FILE *f = fopen((s.out + ".tmp").c_str(), "w");
    if (!f) return;
    fprintf(f, "{\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"finished\":%s,\n", (unsigned long long)s.states,
            (unsigned long long)s.trans, (unsigned long long)s.traces, (fatal || !g_finished) ? "false" : "true");
    fprintf(f, "\"fatal\":\"%s\",\n", fatal ? esc(fatal).c_str() : "");
    fprintf(f, "\"unit\":\"%s\",\"crumb\":\"%s\",\n", esc(s.unit).c_str(), esc(g_crumb).c_str());
    fprintf(f, "\"sections\":{");
    bool first = true;
    for (auto &k : s.sections) {
        fprintf(f, "%s\"%s\":[%llu,%llu]", first ? "" : ",", esc(k.first).c_str(), (unsigned long long)k.second.first, (unsigned long long)k.second.second);
        first = false;
    }
    fprintf(f, "},\n\"samples\":[");
    first = true;
    for (auto &k : s.samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", esc(k).c_str()); first = false; }
    fprintf(f, "],\n\"notes\":[");
    first = true;
    for (auto &k : s.notes) { fprintf(f, "%s\"%s\"", first ? "" : ",", esc(k).c_str()); first = false; }
    fprintf(f, "],\n\"known_hit\":[");
    first = true;
    for (auto &k : s.known_hit) { fprintf(f, "%s\"%s\"", first ? "" : ",", esc(k).c_str()); first = false; }
    fprintf(f, "],\n\"total_violations\":%llu,\"violations\":[", (unsigned long long)s.total_viol);
    first = true;
    for (auto &v : s.viols) {
        fprintf(f, "%s{\"key\":\"%s\",\"unit\":\"%s\",\"msg\":\"%s\"}", first ? "" : ",\n", esc(v.key).c_str(), esc(v.unit).c_str(), esc(v.msg).c_str());
        first = false;
    }
    fprintf(f, "]}\n");
    fclose(f);
    rename((s.out + ".tmp").c_str(), s.out.c_str());
}

#ifdef VF_SAN
// Sanitizer builds judge memory accesses and undefined arithmetic only: results are judged by the other builds.
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
inline void on_death() { write_out("sanitizer report"); }
#endif

// Report that the implementation disagreed with the reference.
inline void fail(const std::string &key, const char *fmt = nullptr, ...)
{
#ifdef VF_SAN
    return;
#endif
    State &s = S();
    char buf[2048]; buf[0] = 0;
    if (fmt) { va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap); }
    if (s.known.count(key)) { s.known_hit.insert(key); return; }
    s.total_viol++;
    uint64_t &c = s.viol_count[key];
    if (++c <= 3 && s.viols.size() < 60) s.viols.push_back({key, std::string(buf) + " [at " + g_crumb + "]", s.unit});
    if (s.total_viol > 400) throw Done();
}
#define VF_CHECK(cond, key, ...) do { vf::S().trans++; if (!(cond)) vf::fail(key, __VA_ARGS__); } while (0)

inline void section(const std::string &n)
{
    State &s = S();
    static uint64_t ls = 0, lt = 0;
    auto &p = s.sections[s.section];
    p.first += s.states - ls; p.second += s.trans - lt;
    ls = s.states; lt = s.trans;
    s.section = n;
}
inline void state(uint64_t n = 1) { S().states += n; }
inline void trans(uint64_t n = 1) { S().trans += n; }
inline void trace(uint64_t n = 1) { S().traces += n; }
inline bool thorough() { return S().thorough; }
inline void sample(const std::string &kind, const std::string &text)
{
    State &s = S();
    if (s.sample_seen[kind]++ < 1 && s.samples.size() < 24) s.samples.push_back(kind + ": " + text);
}
// factor by which the sanitizer builds thin out a quick exploration
inline unsigned lean(unsigned k)
{
#ifdef VF_SAN
    return S().full ? 1 : k;
#else
    (void)k; return 1;
#endif
}
inline void note(const std::string &t) { S().notes.push_back(t); }

// A unit of exploration: runs if it belongs to this shard (round robin), or if it is the one being replayed.
inline bool unit(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline bool unit(const char *fmt, ...)
{
    char buf[512];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    State &s = S();
#ifdef VF_SAN
    if (!s.full && s.only.empty()) { // quick: of the slices of one exploration only the first
        std::string n = buf; size_t e = n.size();
        auto digits = [&] { size_t b = e; while (b && isdigit((unsigned char)n[b - 1])) b--; bool any = b < e; e = b; return any; };
        if (digits()) {
            if (e && n[e - 1] == '/') { e--; digits(); }
            else if (e > 3 && n.compare(e - 4, 4, " of ") == 0) { e -= 4; digits(); }
            static std::set<std::string> seen;
            if (e && n[e - 1] == ' ' && !seen.insert(n.substr(0, e)).second) return false;
        }
    }
#endif
    uint64_t no = s.unit_no++;
    bool run = s.only.empty() ? (no % s.nshards == (uint64_t)s.shard) : s.only == buf;
#ifdef VF_SAN
    if (run && !s.out.empty()) { if (FILE *f = fopen((s.out + ".unit").c_str(), "w")) { fputs(buf, f); fclose(f); } }
#endif
    if (run) { s.unit = buf; at("%s", buf); section(buf); }
    return run;
}

inline void on_signal(int sig)
{
#ifdef VF_SAN
    if (sig == SIGABRT) { write_out(nullptr); _exit(0); }
#endif
    char m[64]; snprintf(m, sizeof m, "signal %d", sig);
    write_out(m);
    _exit(3);
}
inline void on_tick(int)
{
    if (g_progress != g_last_progress) { g_last_progress = g_progress; g_hang_ticks = 0; return; }
#ifdef VF_SAN
    if (++g_hang_ticks >= 4 * g_hang_limit) { note("stopped: no progress"); g_finished = true; section("end"); write_out(nullptr); _exit(0); }
    return;
#endif
    if (++g_hang_ticks >= g_hang_limit) { write_out("no progress (does not terminate)"); _exit(3); }
}

inline int run(int argc, char **argv, const std::function<void()> &body)
{
    State &s = S();
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--shard") s.shard = atoi(val().c_str());
        else if (a == "--nshards") s.nshards = atoi(val().c_str());
#ifdef VF_SAN
        else if (a == "--tier") s.full = val() == "thorough";
#else
        else if (a == "--tier") s.thorough = val() == "thorough";
#endif
        else if (a == "--out") s.out = val();
        else if (a == "--only") s.only = val();
        else if (a == "--known") s.known.insert(val());
    }
#ifdef VF_SAN
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
#endif
    // alternate stack so that runaway recursion is reported too
    static char altstack[1 << 16];
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
    for (int sig : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS}) {
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK; sigaction(sig, &sa, nullptr);
    }
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_tick; sa.sa_flags = SA_RESTART; sigaction(SIGPROF, &sa, nullptr);
    struct itimerval it; it.it_interval = {1, 0}; it.it_value = {1, 0}; setitimer(ITIMER_PROF, &it, nullptr);
    try { body(); g_finished = true; }
    catch (Done &) { g_finished = true; }
#ifdef VF_SAN
    catch (...) { note("stopped by an exception"); g_finished = true; }
#endif
#ifndef VF_SAN
    catch (std::exception &e) { std::string m = std::string("uncaught exception: ") + e.what(); section("end"); write_out(m.c_str()); return 3; }
    catch (...) { section("end"); write_out("uncaught exception"); return 3; }
#endif
    section("end");
    write_out(nullptr);
    if (s.out.empty()) {
        printf("units=%llu states=%llu transitions=%llu violations=%llu\n", (unsigned long long)s.unit_no, (unsigned long long)s.states, (unsigned long long)s.trans, (unsigned long long)s.total_viol);
        for (auto &v : s.viols) printf("VIOL %s | %s | %s\n", v.key.c_str(), v.unit.c_str(), v.msg.c_str());
        for (auto &k : s.sections) printf("  %-60s %10llu %12llu\n", k.first.c_str(), (unsigned long long)k.second.first, (unsigned long long)k.second.second);
    }
    fflush(stdout);
    _exit(s.viols.empty() ? 0 : 1);
}

} // namespace vf

#if defined(VF_SAN) && defined(_GLIBCXX_ASSERTIONS)
// indexing beyond the size of a container, front() of an empty one and the like
namespace std { void __glibcxx_assert_fail(const char *f, int l, const char *fn, const char *c) noexcept
{
    static char m[600]; const char *b = f ? strrchr(f, '/') : nullptr; snprintf(m, sizeof m, "container misuse: %s:%d %s", b ? b + 1 : "?", l, c ? c : ""); (void)fn;
    vf::write_out(m); _exit(3);
} }
#endif
#define VF_MAIN(...) int main(int argc, char **argv) { return vf::run(argc, argv, __VA_ARGS__); }
