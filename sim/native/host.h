#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <map>
#include "view.h"

// ---- deterministic PRNG (splitmix/xoshiro) -------------------------------------------------------
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {}
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
                    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

struct Plan {
  std::map<std::string, std::string> kv;
  std::vector<std::vector<std::string>> faults, clks, ops, stalls;
  std::string s(const char* k, const char* d = "") const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
  long i(const char* k, long d = 0) const { auto x = kv.find(k); return x == kv.end() ? d : atol(x->second.c_str()); }
  double f(const char* k, double d = 0) const { auto x = kv.find(k); return x == kv.end() ? d : atof(x->second.c_str()); }
};
extern Plan plan;

// ---- host mode: allocations made while host_depth>0 come from libc, not from the simulated heap ----
extern int host_depth;
struct HostScope { HostScope() { host_depth++; } ~HostScope() { host_depth--; } };

void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void trace_flush();
[[noreturn]] void sim_exit(int code, const char* why);     // ends the process: flush trace, _exit
extern uint64_t trace_hash;

// ---- fibers ------------------------------------------------------------------------------------------
struct Fiber {
  void* sp = nullptr; char* stack = nullptr; size_t stack_size = 0;
  void (*fn)(void*) = nullptr; void* arg = nullptr;
  int rank = 0, id = 0; bool done = false;
  const char* (*blocked)(Fiber*) = nullptr;     // non-null: fiber is waiting; returns null once it may run
  void* bctx = nullptr;
  const char* where = "";
  long wake = 0;
  void* omp = nullptr;                          // OpenMP position of this fiber
  long prio = 0;
};
extern "C" void fiber_switch(void** save_sp, void* load_sp);
Fiber* fiber_new(int rank, int id, size_t stack, void (*fn)(void*), void* arg, int slot);
extern Fiber* cur_fiber;
int cur_rank();

// ---- scheduler -----------------------------------------------------------------------------------------
// Every fiber that may run is in sched_fibers; which one runs next is drawn from the plan's seed.
extern std::vector<Fiber*> sched_fibers;
extern Rng sched_rng;
extern long sched_switches, sched_points;
void sched_init();
void sched_point(const char* where);                                       // the running fiber may be preempted here
void sched_block(const char* (*pred)(Fiber*), void* ctx, const char* where);   // it waits until pred gives null
void sched_leave();                                                        // it has ended
bool sched_idle_hook();                                                    // nobody can run: true if something was made possible

// ---- clock ---------------------------------------------------------------------------------------------
extern int64_t wall_ns[64], cpu_ns[64];
void clock_advance(int rank, int64_t w, int64_t c);

// ---- MPI ---------------------------------------------------------------------------------------------
int mpi_main(const std::string& image, int ranks);
void mpi_summary();

// ---- OpenMP --------------------------------------------------------------------------------------------
void omp_host_init();
void omp_fresh(void* p, size_t n);
void omp_image(uintptr_t base);
void omp_summary();
void sched_summary();
