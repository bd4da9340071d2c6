// The OpenMP run-time as the compiler sees it (the GOMP_* entry points), on fibers: thread count and
// interleaving come from the plan.  A team's barriers, loops and locks are modelled; nothing is timed.
#include "host.h"
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <sstream>
using std::string; using std::vector;

struct Pos;
enum { NT = 64 };
struct Clock { uint32_t c[NT]; };
struct Loop { vector<std::pair<long, long>> cut; vector<int> owner; vector<char> gone; bool init = false; long next = 0, end = 0, incr = 1, chunk = 1; int left = 0; bool taken = false; void* copy = nullptr; int ncopied = 0; };
struct Team { int n; void (*fn)(void*); void* data; int arrived = 0; long gen = 0; int finished = 0; vector<Loop*> loops; long id; vector<Pos*> at; vector<char> over; Clock end, bar; };
struct Pos { Team* team; int tid; long ws; Pos* up; uintptr_t priv; long crit = 0; bool at_end = false; };
static long fixed_map = 0; static int nthreads = 1, nested = 0, dyn = 0;
static long nteams = 0, nbarriers = 0, nlocks = 0, nchunks = 0, maxteam = 0;
static vector<Fiber*> idle; static int next_slot = 40, next_id = 1;
static Pos root = {nullptr, 0, 0, nullptr, 0};

// ---- happens-before ---------------------------------------------------------------------------------------
// Which accesses are unordered is only used to decide where a thread may be preempted; it is not itself a verdict.
static Clock vc[NT]; static int live_teams = 0; static bool detect = false, hot_on = false; static bool watch = false; static uint32_t gen = 0;
static void join_into(Clock& a, const Clock& b) { for (int i = 0; i < NT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static inline int me_id() { return cur_fiber->id & (NT - 1); }
struct Cell { uint64_t key; uint32_t wclk, wpc, rclk[2], rpc[2]; uint8_t wtid, rtid[2], has; };
static Cell* shadow = nullptr; static const size_t NSH = 1u << 21;
static uintptr_t image_base = 0; static std::map<uint32_t, long> racy; static uint8_t* hotmap = nullptr; static std::map<uint32_t, long> hot_visits; static uint32_t hot_max = 0; static Rng hot_rng(1); static long hot_points = 0;
static void racing(uint32_t a, uint32_t b) { HostScope h; racy[a]++; racy[b]++; }
static void seen(uintptr_t a, bool wr, uint32_t pc) {
  uint64_t g = a >> 3, key = (g << 20) | (gen & 0xfffff); size_t s = (g * 0x9E3779B97F4A7C15ull) >> 43; Cell* c = &shadow[s];
  for (int i = 0; i < 8; i++) { Cell* d = &shadow[(s + i) & (NSH - 1)]; if (d->key == key) { c = d; goto found; } if ((d->key & 0xfffff) != (gen & 0xfffff)) { c = d; break; } }
  memset(c, 0, sizeof *c); c->key = key;
found:
  int t = me_id(); Clock& v = vc[t];
  if (c->has & 1) if (c->wtid != t && c->wclk > v.c[c->wtid]) racing(pc, c->wpc);
  if (wr) { for (int i = 0; i < 2; i++) if (c->has & (2 << i)) if (c->rtid[i] != t && c->rclk[i] > v.c[c->rtid[i]]) racing(pc, c->rpc[i]);
    c->has |= 1; c->wtid = t; c->wclk = v.c[t]; c->wpc = pc; }
  else { int i = (c->has & 2) && c->rtid[0] != t ? 1 : 0; c->has |= 2 << i; c->rtid[i] = t; c->rclk[i] = v.c[t]; c->rpc[i] = pc; }
}
void omp_fresh(void* p, size_t n) {              // memory handed out anew: what others did to it before does not count
  if (!watch || !detect || n > 400000) return;
  uint64_t a = (uint64_t)p >> 3, b = ((uint64_t)p + n + 7) >> 3; for (; a < b; a++) { uint64_t key = (a << 20) | (gen & 0xfffff); size_t s = (a * 0x9E3779B97F4A7C15ull) >> 43;
    for (int i = 0; i < 8; i++) { Cell* d = &shadow[(s + i) & (NSH - 1)]; if (d->key == key) { d->has = 0; break; } if ((d->key & 0xfffff) != (gen & 0xfffff)) break; } }
}
static inline bool is_private(uintptr_t a) { Fiber* f = cur_fiber; return a >= (uintptr_t)f->stack && a < (f->omp ? ((Pos*)f->omp)->priv : 0); }
static void touch(uintptr_t a, size_t n, bool wr, void* ret) {
  if (host_depth || !cur_fiber || is_private(a)) return;
  uint32_t pc = (uint32_t)((uintptr_t)ret - image_base);
  if (detect) { uintptr_t b = a + n; for (a &= ~7ull; a < b; a += 8) seen(a, wr, pc); }
  else if (pc < hot_max && hotmap[pc]) {
    HostScope h; long k = hot_visits[pc]++; bool go = k < 64 || hot_rng.uni() < 64.0 / (double)k; host_depth--;
    if (go) { hot_points++; sched_point("access"); }
    host_depth++;
  }
}
#define ACC(n) extern "C" void __tsan_read##n(void* p) { if (watch) touch((uintptr_t)p, n, false, __builtin_return_address(0)); } \
  extern "C" void __tsan_write##n(void* p) { if (watch) touch((uintptr_t)p, n, true, __builtin_return_address(0)); } \
  extern "C" void __tsan_unaligned_read##n(void* p) { if (watch) touch((uintptr_t)p, n, false, __builtin_return_address(0)); } \
  extern "C" void __tsan_unaligned_write##n(void* p) { if (watch) touch((uintptr_t)p, n, true, __builtin_return_address(0)); } \
  extern "C" void __tsan_volatile_read##n(void* p) { if (watch) touch((uintptr_t)p, n, false, __builtin_return_address(0)); } \
  extern "C" void __tsan_volatile_write##n(void* p) { if (watch) touch((uintptr_t)p, n, true, __builtin_return_address(0)); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
extern "C" void __tsan_read_range(void* p, size_t n) { if (watch) touch((uintptr_t)p, n, false, __builtin_return_address(0)); }
extern "C" void __tsan_write_range(void* p, size_t n) { if (watch) touch((uintptr_t)p, n, true, __builtin_return_address(0)); }
extern "C" void __tsan_init() {}
extern "C" void __tsan_func_entry(void*) {}
extern "C" void __tsan_func_exit() {}
extern "C" void __tsan_vptr_update(void** p, void*) { if (watch) touch((uintptr_t)p, 8, true, __builtin_return_address(0)); }
extern "C" void __tsan_vptr_read(void** p) { if (watch) touch((uintptr_t)p, 8, false, __builtin_return_address(0)); }
// atomic accesses are never preempted inside and order nothing here
#define ATO(b, T) extern "C" T __tsan_atomic##b##_load(const volatile T* p, int) { return *p; } \
  extern "C" void __tsan_atomic##b##_store(volatile T* p, T v, int) { *p = v; } \
  extern "C" T __tsan_atomic##b##_exchange(volatile T* p, T v, int) { T o = *p; *p = v; return o; } \
  extern "C" T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) { T o = *p; *p = o + v; return o; } \
  extern "C" T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) { T o = *p; *p = o - v; return o; } \
  extern "C" T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) { T o = *p; *p = o & v; return o; } \
  extern "C" T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) { T o = *p; *p = o | v; return o; } \
  extern "C" T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int) { T o = *p; *p = o ^ v; return o; } \
  extern "C" int __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  extern "C" int __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  extern "C" T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T e, T v, int, int) { T o = *p; if (o == e) *p = v; return o; }
ATO(8, uint8_t) ATO(16, uint16_t) ATO(32, uint32_t) ATO(64, uint64_t)
extern "C" void __tsan_atomic_thread_fence(int) {}
void omp_image(uintptr_t base) { image_base = base; }

static inline Pos* pos() { return cur_fiber && cur_fiber->omp ? (Pos*)cur_fiber->omp : &root; }

static bool ordered = false;
void omp_host_init() {
  ordered = plan.i("omp.ordered", 0); detect = plan.i("omp.detect", 0); hot_rng = Rng(plan.i("sched.seed", 1) + 99);
  { std::stringstream ss(plan.s("omp.hot")); string x; vector<uint32_t> v; while (ss >> x) { uint32_t k = strtoul(x.c_str(), 0, 16); v.push_back(k); if (k >= hot_max) hot_max = k + 1; }
    if (!v.empty()) { hot_on = true; hotmap = (uint8_t*)calloc(hot_max, 1); for (uint32_t k : v) hotmap[k] = 1; } }
  if (detect) { shadow = (Cell*)mmap(nullptr, NSH * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (shadow == MAP_FAILED) _exit(99); }
 nthreads = (int)plan.i("omp.threads", 1); fixed_map = plan.i("omp.map", 0); }
void omp_summary() { if (!racy.empty()) { int n = 0; string s; for (auto& x : racy) { char b[24]; snprintf(b, 24, " %x", x.first); s += b; if (++n % 60 == 0) { trace("racy%s", s.c_str()); s.clear(); } } if (!s.empty()) trace("racy%s", s.c_str()); }
  if (hot_points) trace("preempted at %ld accesses", hot_points);
  if (nteams) trace("omp threads=%d teams=%ld largest=%ld barriers=%ld locks=%ld chunks=%ld", nthreads, nteams, maxteam, nbarriers, nlocks, nchunks); }

extern "C" int omp_get_thread_num() { return pos()->tid; }
extern "C" int omp_get_num_threads() { return pos()->team ? pos()->team->n : 1; }
extern "C" int omp_get_max_threads() { return nthreads; }
extern "C" int omp_get_num_procs() { return nthreads; }
extern "C" int omp_in_parallel() { for (Pos* p = pos(); p; p = p->up) if (p->team && p->team->n > 1) return 1; return 0; }
extern "C" void omp_set_num_threads(int n) { if (n > 0) nthreads = n; }
extern "C" void omp_set_nested(int n) { nested = n; }
extern "C" int omp_get_nested() { return nested; }
extern "C" void omp_set_dynamic(int n) { dyn = n; }
extern "C" int omp_get_dynamic() { return dyn; }
extern "C" double omp_get_wtime() { return wall_ns[cur_rank()] * 1e-9; }
extern "C" int omp_get_level() { int n = 0; for (Pos* p = pos(); p && p->team; p = p->up) n++; return n; }

// ---- teams ---------------------------------------------------------------------------------------------
struct Start { Team* t; int tid; Pos* up; Clock v; };
static void worker(void* a) {
  // one fiber serves one team member after another
  for (;;) {
    Start* s = (Start*)cur_fiber->arg; Pos p = {s->t, s->tid, 0, s->up, (uintptr_t)cur_fiber->stack + cur_fiber->stack_size}; vc[me_id()] = s->v; vc[me_id()].c[me_id()]++; { HostScope h; p.team->at[s->tid] = &p; delete s; }
    cur_fiber->omp = &p; host_depth = 0;
    p.team->fn(p.team->data);
    p.at_end = true; { HostScope h; p.team->at[p.tid] = nullptr; p.team->over[p.tid] = 1; join_into(p.team->end, vc[me_id()]); }
    p.team->finished++;
    { HostScope h; idle.push_back(cur_fiber); cur_fiber->omp = nullptr; cur_fiber->arg = nullptr; }
    sched_block([](Fiber* f) -> const char* { return f->arg ? nullptr : "idle"; }, nullptr, "idle");
    (void)a;
  }
}
static const char* joined(Fiber* f) { Team* t = (Team*)f->bctx; return t->finished == t->n - 1 ? nullptr : "join"; }
extern "C" void GOMP_parallel(void (*fn)(void*), void* data, unsigned num, unsigned) {
  Pos* up = pos(); int n = num ? (int)num : nthreads;
  bool inside = omp_in_parallel(); if (inside && !nested) n = 1;
  if (n > 8) n = 8;
  if (nthreads == 1) n = 1;                                  // a machine with one processor: OMP_THREAD_LIMIT=1
  nteams++; if (n > maxteam) maxteam = n;
  Team* t; { HostScope h; t = new Team; t->n = n; t->fn = fn; t->data = data; t->id = nteams; t->at.assign(n, nullptr); t->over.assign(n, 0); memset(&t->end, 0, sizeof(Clock)); memset(&t->bar, 0, sizeof(Clock)); }
  if (n > 1) { if (live_teams++ == 0) { gen++; if ((gen & 0xfffff) == 0) gen++; } watch = detect || hot_on; }
  for (int i = 1; i < n; i++) {
    HostScope h; Start* s = new Start{t, i, up, vc[me_id()]}; Fiber* f;
    if (!idle.empty()) { f = idle.back(); idle.pop_back(); f->arg = s; f->prio = 0; }
    else {
      f = fiber_new(cur_rank(), next_id++, 60u << 20, worker, s, next_slot++);
      if (f->stack == MAP_FAILED) abort();
      sched_fibers.push_back(f);
    }
    f->rank = cur_rank();
  }
  Pos p = {t, 0, 0, up, (uintptr_t)__builtin_frame_address(0)}; void* old = cur_fiber->omp; cur_fiber->omp = &p; t->at[0] = &p; vc[me_id()].c[me_id()]++;
  if (n == 1) p.priv = up->priv;
  if (n > 1) sched_point("fork");
  fn(data);
  p.at_end = true;
  if (n > 1) { sched_block(joined, t, "join"); join_into(vc[me_id()], t->end); vc[me_id()].c[me_id()]++; if (--live_teams == 0) watch = false; }
  cur_fiber->omp = old;
  HostScope h; for (Loop* l : t->loops) { delete l; } delete t;
}

// ---- barriers ------------------------------------------------------------------------------------------
struct BarCtx { Team* t; long gen; };
static const char* past(Fiber* f) { BarCtx* b = (BarCtx*)f->bctx; return b->t->gen != b->gen ? nullptr : "barrier"; }
extern "C" void GOMP_barrier() {
  Team* t = pos()->team; if (!t || t->n == 1) return;
  nbarriers++; BarCtx b = {t, t->gen}; Pos* p = pos(); join_into(t->bar, vc[me_id()]); p->at_end = true;
  if (++t->arrived == t->n) { t->arrived = 0; t->gen++; for (Pos* q : t->at) if (q) q->at_end = false; join_into(vc[me_id()], t->bar); vc[me_id()].c[me_id()]++; sched_point("barrier"); return; }
  sched_block(past, &b, "barrier");
  join_into(vc[me_id()], t->bar); vc[me_id()].c[me_id()]++;
}

// ---- work sharing --------------------------------------------------------------------------------------
static Loop* loop_here(Team* t) {
  HostScope h; long k = pos()->ws - 1; while ((long)t->loops.size() <= k) t->loops.push_back(new Loop); return t->loops[k];
}
static Team solo_team; 
static Team* team_or_solo() { Team* t = pos()->team; if (t) return t; solo_team.n = 1; return &solo_team; }
static bool next_chunk(bool guided, long* a, long* b) {
  Team* t = team_or_solo(); Loop* l = loop_here(t);
  if (t->n > 1) sched_point("chunk");
  if (fixed_map && t->n > 1) {
    // who gets which piece is decided beforehand (a legal outcome of the race for pieces); only the interleaving is left open
    HostScope h; int me = pos()->tid;
    if (l->cut.empty()) {
      Rng r(fixed_map * 1000003 + l->end * 31 + t->loops.size()); long at = l->next, n = (l->end - l->next) / l->incr;
      while (n > 0) { long q = guided ? (n + t->n - 1) / t->n : l->chunk; if (q < l->chunk) q = l->chunk; if (q > n) q = n;
        l->cut.push_back({at, at + q * l->incr}); l->owner.push_back((int)r.below(t->n)); l->gone.push_back(0); at += q * l->incr; n -= q; }
    }
    for (size_t i = 0; i < l->cut.size(); i++) if (l->owner[i] == me && !l->gone[i]) { l->gone[i] = 1; *a = l->cut[i].first; *b = l->cut[i].second; nchunks++; return true; }
    return false;
  }
  long left = (l->end - l->next) / l->incr; if (l->incr > 0 ? l->next >= l->end : l->next <= l->end) return false;
  if (left < 1) left = 1;
  long q = l->chunk; if (guided) { q = (left + t->n - 1) / t->n; if (q < l->chunk) q = l->chunk; }
  if (q > left) q = left;
  *a = l->next; *b = l->next + q * l->incr; l->next = *b; nchunks++;
  if (l->incr > 0 ? *b > l->end : *b < l->end) *b = l->end;
  return true;
}
static bool loop_start(bool guided, long s, long e, long inc, long chunk, long* a, long* b) {
  Team* t = team_or_solo(); pos()->ws++; Loop* l = loop_here(t);
  if (!l->init) { l->init = true; l->next = s; l->end = inc > 0 ? (e < s ? s : e) : (e > s ? s : e); l->incr = inc; l->chunk = chunk < 1 ? 1 : chunk; 
    long cnt = inc > 0 ? (l->end - s + inc - 1) / inc : (s - l->end - inc - 1) / -inc; l->end = s + cnt * inc; }
  return next_chunk(guided, a, b);
}
#define LOOPS(name, g) \
  extern "C" bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* a, long* b) { return loop_start(g, s, e, i, c, a, b); } \
  extern "C" bool GOMP_loop_##name##_next(long* a, long* b) { return next_chunk(g, a, b); }
LOOPS(dynamic, false) LOOPS(guided, true) LOOPS(nonmonotonic_dynamic, false) LOOPS(nonmonotonic_guided, true)
extern "C" void GOMP_loop_end() { GOMP_barrier(); }
extern "C" void GOMP_loop_end_nowait() {}
extern "C" bool GOMP_single_start() { Team* t = team_or_solo(); pos()->ws++; Loop* l = loop_here(t); if (t->n > 1) sched_point("single"); if (l->taken) return false; l->taken = true; return true; }

// ---- locks -----------------------------------------------------------------------------------------------
struct Lock { Fiber* owner = nullptr; Clock v; Lock() { memset(&v, 0, sizeof v); } };
// With a fixed order of entry (a legal schedule) sums made inside critical sections round the same way every time.
static const char* not_turn(Pos* p) { Team* t = p->team; for (int i = 0; i < p->tid; i++) { Pos* q = t->at[i]; if (q ? !(q->at_end || q->crit > p->crit) : !t->over[i]) return "turn"; } return nullptr; }
static const char* my_turn(Fiber* f) { return not_turn((Pos*)f->bctx); }
static Lock big, atom;
static const char* unlocked(Fiber* f) { return ((Lock*)f->bctx)->owner ? "lock" : nullptr; }
static void take(Lock* l, const char* w) {
  nlocks++; if (sched_fibers.size() > 1) sched_point(w);
  Pos* p = pos(); if (ordered && p->team && p->team->n > 1) while (not_turn(p)) sched_block(my_turn, p, "turn");
  while (l->owner) sched_block(unlocked, l, w);
  l->owner = cur_fiber; join_into(vc[me_id()], l->v);
}
static void drop(Lock* l, const char* w) { l->owner = nullptr; join_into(l->v, vc[me_id()]); vc[me_id()].c[me_id()]++; pos()->crit++; if (sched_fibers.size() > 1) sched_point(w); }
extern "C" void GOMP_critical_start() { take(&big, "critical"); }
extern "C" void GOMP_critical_end() { drop(&big, "critical-end"); }
extern "C" void GOMP_critical_name_start(void** p) { Lock* l; { HostScope h; if (!*p) *p = new Lock; l = (Lock*)*p; } take(l, "critical"); }
extern "C" void GOMP_critical_name_end(void** p) { drop((Lock*)*p, "critical-end"); }
extern "C" void GOMP_atomic_start() { take(&atom, "atomic"); }
extern "C" void GOMP_atomic_end() { drop(&atom, "atomic-end"); }
struct UserLock { Lock* l; };
extern "C" void omp_init_lock(UserLock* u) { HostScope h; u->l = new Lock; }
extern "C" void omp_destroy_lock(UserLock* u) { HostScope h; delete u->l; }
extern "C" void omp_set_lock(UserLock* u) { take(u->l, "lock"); }
extern "C" void omp_unset_lock(UserLock* u) { drop(u->l, "lock"); }
