// The scheduler: one seeded choice at every point where control may pass from one simulated thread
// or process to another.  The sequence of choices is a function of the plan alone.
#include "host.h"
#include <stdlib.h>
using std::string; using std::vector;

vector<Fiber*> sched_fibers;
Rng sched_rng(1);
long sched_switches = 0, sched_points = 0;
static string mode = "random"; static double keep = 0.5; static long limit = -1; static vector<long> changes; static long demote = 0;
static uint64_t sched_hash = 1469598103934665603ull;
static long max_points = 0;

void sched_init() {
  sched_rng = Rng(plan.i("sched.seed", 1)); mode = plan.s("sched.mode", "random"); keep = plan.f("sched.keep", 0.5);
  limit = plan.i("sched.limit", -1);                    // after this many free choices the order is fixed
  max_points = plan.i("sched.max", 400000000);
  long n = plan.i("sched.changes", 0), span = plan.i("sched.span", 20000);
  Rng r(plan.i("sched.seed", 1) * 77 + 5); for (long i = 0; i < n; i++) changes.push_back(r.below(span));
}
__attribute__((weak)) bool sched_idle_hook() { return false; }

static bool runnable(Fiber* f) {
  if (f->done) return false;
  if (!f->blocked) return true;
  const char* w = f->blocked(f); if (w) { f->where = w; return false; }
  return true;
}
static void stuck() {
  host_depth++;
  for (Fiber* f : sched_fibers) if (!f->done) trace("stuck r%d f%d in %s", f->rank, f->id, f->where);
  sim_exit(204, "deadlock");
}
static void switch_to(Fiber* g) {
  Fiber* me = cur_fiber; g->blocked = nullptr;
  if (g == me) return;
  sched_switches++; sched_hash = (sched_hash ^ (uint64_t)(g->rank * 64 + g->id + 1)) * 1099511628211ull;
  int hd = host_depth; cur_fiber = g; fiber_switch(&me->sp, g->sp); host_depth = hd; cur_fiber = me;
}
static Fiber* choose(bool may_keep) {
  static vector<Fiber*> can; can.clear();
  host_depth++;
  for (Fiber* f : sched_fibers) if (runnable(f)) can.push_back(f);
  while (can.empty()) { if (!sched_idle_hook()) stuck(); for (Fiber* f : sched_fibers) if (runnable(f)) can.push_back(f); }
  host_depth--;
  bool cur_ok = false; for (Fiber* f : can) if (f == cur_fiber) cur_ok = true;
  if (can.size() == 1) return can[0];
  if (limit >= 0 && sched_points > limit) { if (cur_ok && may_keep) return cur_fiber; return can[0]; }
  if (mode == "fifo") return cur_ok && may_keep ? cur_fiber : can[0];
  if (mode == "lifo") return can.back();
  if (mode == "prio") {                                  // fixed random priorities with a few change points
    for (Fiber* f : can) if (!f->prio) f->prio = 1000 + (long)sched_rng.below(1000000);
    for (long c : changes) if (c == sched_points && cur_fiber) cur_fiber->prio = 999 - demote++;
    Fiber* b = can[0]; for (Fiber* f : can) if (f->prio > b->prio) b = f; return b;
  }
  if (cur_ok && may_keep && sched_rng.uni() < keep) return cur_fiber;
  return can[sched_rng.below(can.size())];
}
void sched_point(const char* where) {
  if (!cur_fiber) return;
  if (++sched_points > max_points) { host_depth++; sim_exit(205, "schedule-limit"); }
  cur_fiber->where = where;
  if (sched_fibers.size() > 1) switch_to(choose(true));
}
void sched_block(const char* (*pred)(Fiber*), void* ctx, const char* where) {
  cur_fiber->where = where; cur_fiber->bctx = ctx;
  if (++sched_points > max_points) { host_depth++; sim_exit(205, "schedule-limit"); }
  cur_fiber->blocked = pred;
  switch_to(choose(true));
  cur_fiber->blocked = nullptr;
}
void sched_leave() {
  cur_fiber->done = true; host_depth++;
  for (size_t i = 0; i < sched_fibers.size(); i++) if (sched_fibers[i] == cur_fiber) { sched_fibers.erase(sched_fibers.begin() + i); break; }
  host_depth--;
  Fiber* g = choose(false); switch_to(g); abort();
}
void sched_summary() { if (sched_switches) trace("sched points=%ld switches=%ld hash=%016lx", sched_points, sched_switches, sched_hash); }
