// Controlled scheduler: real threads of which exactly one runs; every execution is a forked child that follows a
// schedule. Schedule points are lock operations and accesses to memory that two threads use in conflict (found by
// recording every access, and added until no new conflict appears). Accesses are observed through the thread
// sanitizer's instrumentation with the run-time of sched_rt.cpp.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace sched {
const int MAXT = 8;
struct Stat { uint64_t execs = 0, points = 0, accesses = 0, conflicts = 0, restarts = 0; bool capped = false; std::string schedule; };
// prog runs in children, under every schedule with at most `bound` preemptions (at most `cap` executions);
// it returns "" or what went wrong. The result is the first failure, or "".
std::string explore(const std::function<std::string()> &prog, int bound, uint64_t cap, Stat &st);
// run n bodies concurrently under control; body 0 on the calling thread
void team(int n, const std::function<void(int)> &body);
int me();                                     // index of the running thread in the team, -1 outside
// OpenMP: number of threads of a parallel region; with an assignment, iteration i is run by thread assign[i]
void omp_config(int threads, const std::vector<int> *assign = nullptr);
extern int omp_regions, omp_barriers;         // regions entered / barriers met (in the child)
}
