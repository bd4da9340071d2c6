// A message-passing library on fibers: every rank of the job runs in this process, the network is one more
// fiber, and which rank runs, which message arrives and when are drawn from the plan's seed.
// Semantics follow the standard where it leaves no freedom and draw from the seed where it does
// (eager or synchronous sends, when a collective call returns, arrival order between different senders).
#include "host.h"
#include "mpi.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include <deque>
#include <functional>
using std::string; using std::vector; using std::deque;
extern "C" int open(const char*, int, ...);
long host_file_write(int fd, const char* p, size_t n);
void host_set_io_yield(void (*f)());
void node_main(const string& image, int rank); extern int node_rc;

static int NR = 1; static Rng net_rng(1); static long eager = 1 << 16; static bool strict_coll = false, fixed_arrival = false; static long red_seed = 0;
static long nmsg = 0, nbytes = 0, nrendez = 0, ncoll = 0, nwaitsome = 0, npartial = 0, nunexpected = 0, nstalls = 0, nfileops = 0, nlate = 0;

struct SimRequest { bool send = false, done = false, waited = false; int rank = 0, peer = 0, tag = 0; char* buf = nullptr; const char* sbuf = nullptr; long cap = 0; MPI_Status st; uint64_t sum = 0; };
struct Msg { int src, dst, tag; long bytes; vector<char> data; bool copied; SimRequest* req; long slow; };
struct RankState { bool inited = false, finalized = false, ended = false; long seq = 0, calls = 0; deque<Msg*> unexpected; deque<SimRequest*> posted; long live = 0; long stalled = 0; };
static RankState R[64]; static deque<Msg*> chan[64][64]; static long in_flight = 0;
struct Stall { int rank; long call, len; }; static vector<Stall> stalls;
static Fiber* netf = nullptr; static vector<vector<double>> weight;

[[noreturn]] static void mpi_fail(const char* key, const char* fmt, ...) {
  host_depth++; char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  trace("mpi-error %s: %s", key, b); sim_exit(206, "mpi-error");
}
static inline int me() { return cur_fiber->rank; }

// ---- waiting ----------------------------------------------------------------------------------------------
static const char* fpred(Fiber* f) { return (*(std::function<bool()>*)f->bctx)() ? nullptr : f->where; }
static void wait_for(std::function<bool()> ok, const char* where) { if (ok()) return; sched_block(fpred, &ok, where); }
static const char* asleep(Fiber* f) { return f->wake > sched_points ? "stalled" : nullptr; }
bool sched_idle_hook() {                                            // everybody waits: the stalled rank that is due first goes on
  Fiber* b = nullptr; for (Fiber* f : sched_fibers) if (f->blocked == asleep && !f->done && (!b || f->wake < b->wake)) b = f;
  if (!b) return false; b->wake = 0; return true;
}
static void nothing_yet() { cur_fiber->wake = sched_points + 1 + net_rng.below(30); sched_block(asleep, nullptr, "polling"); }    // a polling rank does not starve the others
static void enter(const char* name, bool need = true) {
  RankState& s = R[me()]; s.calls++;
  if (need && (!s.inited || s.finalized)) mpi_fail("not-initialised", "rank %d calls %s outside MPI_Init..MPI_Finalize", me(), name);
  for (auto& x : stalls) if (x.rank == me() && x.call == s.calls) { nstalls++; trace("stall r%d call=%ld len=%ld", me(), x.call, x.len); cur_fiber->wake = sched_points + x.len; sched_block(asleep, nullptr, "stalled"); }
  sched_point(name);
}

// ---- datatypes --------------------------------------------------------------------------------------------
static vector<long> derived[64];
static long type_size(MPI_Datatype t) {
  switch (t) { case MPI_BYTE: case MPI_CHAR: case MPI_C_BOOL: return 1; case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: return 4; case MPI_2INT: case MPI_LONG: case MPI_DOUBLE: case MPI_LONG_LONG: case MPI_UNSIGNED_LONG: return 8; case MPI_LONG_DOUBLE: case MPI_DOUBLE_INT: return 16; }
  long k = t - SIM_FIRST_DERIVED; if (k < 0 || k >= (long)derived[me()].size() || derived[me()][k] < 0) mpi_fail("datatype", "rank %d uses an invalid or freed datatype", me());
  return derived[me()][k];
}
extern "C" int MPI_Type_create_struct(int n, const int* len, const MPI_Aint* off, const MPI_Datatype* ty, MPI_Datatype* out) {
  HostScope h; long end = 0; for (int i = 0; i < n; i++) { long e = off[i] + len[i] * type_size(ty[i]); if (e > end) end = e; }
  derived[me()].push_back(end); *out = SIM_FIRST_DERIVED + (int)derived[me()].size() - 1; return 0;
}
extern "C" int MPI_Type_contiguous(int n, MPI_Datatype ty, MPI_Datatype* out) { HostScope h; derived[me()].push_back(n * type_size(ty)); *out = SIM_FIRST_DERIVED + (int)derived[me()].size() - 1; return 0; }
extern "C" int MPI_Type_commit(MPI_Datatype*) { return 0; }
extern "C" int MPI_Type_free(MPI_Datatype* t) { long k = *t - SIM_FIRST_DERIVED; if (k >= 0 && k < (long)derived[me()].size()) derived[me()][k] = -1; *t = MPI_DATATYPE_NULL; return 0; }
extern "C" int MPI_Type_size(MPI_Datatype t, int* s) { *s = (int)type_size(t); return 0; }
extern "C" int MPI_Get_address(const void* p, MPI_Aint* a) { *a = (MPI_Aint)p; return 0; }

// ---- environment ------------------------------------------------------------------------------------------
extern "C" int MPI_Init_thread(int*, char***, int want, int* got) { HostScope h; RankState& s = R[me()]; if (s.inited) mpi_fail("init-twice", "rank %d", me()); s.inited = true; enter("Init"); *got = want > MPI_THREAD_FUNNELED ? MPI_THREAD_FUNNELED : want; return 0; }
extern "C" int MPI_Init(int* a, char*** b) { int g; return MPI_Init_thread(a, b, MPI_THREAD_SINGLE, &g); }
extern "C" int MPI_Initialized(int* f) { *f = R[me()].inited; return 0; }
extern "C" int MPI_Abort(MPI_Comm, int code) { host_depth++; trace("mpi-abort r%d code=%d", me(), code); sim_exit(255, "mpi-abort"); }
static void comm_ok(MPI_Comm c) { if (c != MPI_COMM_WORLD && c != MPI_COMM_SELF) mpi_fail("communicator", "rank %d uses an invalid communicator", me()); }
extern "C" int MPI_Comm_rank(MPI_Comm c, int* r) { HostScope h; comm_ok(c); *r = c == MPI_COMM_SELF ? 0 : me(); return 0; }
extern "C" int MPI_Comm_size(MPI_Comm c, int* n) { HostScope h; comm_ok(c); *n = c == MPI_COMM_SELF ? 1 : NR; return 0; }
extern "C" int MPI_Comm_get_parent(MPI_Comm* c) { *c = MPI_COMM_NULL; return 0; }
extern "C" int MPI_Get_processor_name(char* n, int* l) { *l = sprintf(n, "node%d", me()); return 0; }
extern "C" double MPI_Wtime() { return wall_ns[me()] * 1e-9; }
extern "C" int MPI_Error_string(int c, char* s, int* l) { *l = sprintf(s, "simulated error %d", c); return 0; }
extern "C" int MPI_Error_class(int c, int* k) { *k = c; return 0; }

// ---- point to point ---------------------------------------------------------------------------------------
static uint64_t sum_of(const char* p, long n) { uint64_t h = 1469598103934665603ull; for (long i = 0; i < n; i++) { h ^= (unsigned char)p[i]; h *= 1099511628211ull; } return h; }
static bool matches(const SimRequest* q, const Msg* m) { return (q->peer == MPI_ANY_SOURCE || q->peer == m->src) && (q->tag == MPI_ANY_TAG || q->tag == m->tag); }
static void transfer(SimRequest* q, Msg* m) {
  if (m->bytes > q->cap) mpi_fail("truncate", "a message of %ld bytes from rank %d to rank %d (tag %d) meets a receive for %ld bytes", m->bytes, m->src, m->dst, m->tag, q->cap);
  if (!m->copied && m->bytes) { if (sum_of(m->req->sbuf, m->bytes) != m->req->sum) mpi_fail("send-buffer-changed", "rank %d changed or freed the buffer of a message to rank %d (tag %d) before it was sent", m->src, m->dst, m->tag); }
  if (m->bytes) memcpy(q->buf, m->copied ? m->data.data() : m->req->sbuf, m->bytes);
  if (m->req) m->req->done = true;
  q->st.MPI_SOURCE = m->src; q->st.MPI_TAG = m->tag; q->st.MPI_ERROR = 0; q->st.bytes = m->bytes; q->done = true;
}
static void deliver(Msg* m) {
  RankState& d = R[m->dst];
  for (size_t i = 0; i < d.posted.size(); i++) if (matches(d.posted[i], m)) { SimRequest* q = d.posted[i]; d.posted.erase(d.posted.begin() + i); transfer(q, m); delete m; return; }
  nunexpected++; d.unexpected.push_back(m);
}
static SimRequest* start_send(const void* b, int n, MPI_Datatype t, int dst, int tag, bool sync, bool blocking) {
  if (dst < 0 || dst >= NR) mpi_fail("rank", "rank %d sends to rank %d", me(), dst);
  if (n < 0) mpi_fail("count", "rank %d sends %d elements", me(), n);
  Msg* m = new Msg; m->src = me(); m->dst = dst; m->tag = tag; m->bytes = n * type_size(t); m->slow = 0; nmsg++; nbytes += m->bytes;
  SimRequest* q = new SimRequest; q->send = true; q->rank = me(); q->peer = dst; q->tag = tag; q->sbuf = (const char*)b; q->st.bytes = m->bytes;
  m->copied = !sync && m->bytes <= eager;
  if (m->copied) { m->data.assign((const char*)b, (const char*)b + m->bytes); m->req = nullptr; q->done = true; }
  else { m->req = q; q->sum = sum_of(q->sbuf, m->bytes); nrendez++; }
  chan[m->src][m->dst].push_back(m); in_flight++; (void)blocking; return q;
}
static SimRequest* start_recv(void* b, int n, MPI_Datatype t, int src, int tag) {
  if (src != MPI_ANY_SOURCE && (src < 0 || src >= NR)) mpi_fail("rank", "rank %d receives from rank %d", me(), src);
  SimRequest* q = new SimRequest; q->rank = me(); q->peer = src; q->tag = tag; q->buf = (char*)b; q->cap = n * type_size(t);
  RankState& d = R[me()];
  for (size_t i = 0; i < d.unexpected.size(); i++) if (matches(q, d.unexpected[i])) { Msg* m = d.unexpected[i]; d.unexpected.erase(d.unexpected.begin() + i); transfer(q, m); delete m; return q; }
  d.posted.push_back(q); return q;
}
static void finish(SimRequest** r, MPI_Status* st) { if (st) { int e = st->MPI_ERROR; *st = (*r)->st; (void)e; } R[me()].live--; delete *r; *r = nullptr; }
extern "C" int MPI_Isend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request* r) { HostScope h; enter("Isend"); comm_ok(c); *r = start_send(b, n, t, dst, tag, false, false); R[me()].live++; return 0; }
static int send_now(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, bool sync) { HostScope h; enter("Send"); comm_ok(c); SimRequest* q = start_send(b, n, t, dst, tag, sync, true); wait_for([&] { return q->done; }, "Send"); delete q; return 0; }
extern "C" int MPI_Send(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { return send_now(b, n, t, dst, tag, c, false); }
extern "C" int MPI_Ssend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { return send_now(b, n, t, dst, tag, c, true); }
extern "C" int MPI_Irecv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request* r) { HostScope h; enter("Irecv"); comm_ok(c); *r = start_recv(b, n, t, src, tag); R[me()].live++; return 0; }
extern "C" int MPI_Recv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status* st) { HostScope h; enter("Recv"); comm_ok(c); SimRequest* q = start_recv(b, n, t, src, tag); wait_for([&] { return q->done; }, "Recv"); if (st) *st = q->st; delete q; return 0; }
extern "C" int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype sty, int dst, int stag, void* rb, int rn, MPI_Datatype rty, int src, int rtag, MPI_Comm c, MPI_Status* st) {
  HostScope h; enter("Sendrecv"); comm_ok(c); SimRequest* a = start_send(sb, sn, sty, dst, stag, false, false); SimRequest* q = start_recv(rb, rn, rty, src, rtag); wait_for([&] { return a->done && q->done; }, "Sendrecv"); if (st) *st = q->st; delete a; delete q; return 0; }
static Msg* look(int rank, int src, int tag) { SimRequest q; q.peer = src; q.tag = tag; for (Msg* m : R[rank].unexpected) if (matches(&q, m)) return m; return nullptr; }
static void env(Msg* m, MPI_Status* st) { if (st) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->MPI_ERROR = 0; st->bytes = m->bytes; } }
extern "C" int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status* st) { HostScope h; enter("Probe"); comm_ok(c); int r = me(); wait_for([&] { return look(r, src, tag) != nullptr; }, "Probe"); env(look(r, src, tag), st); return 0; }
extern "C" int MPI_Iprobe(int src, int tag, MPI_Comm c, int* f, MPI_Status* st) { HostScope h; enter("Iprobe"); comm_ok(c); Msg* m = look(me(), src, tag); *f = m != nullptr; if (m) env(m, st); else nothing_yet(); return 0; }
extern "C" int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* n) { HostScope h; long s = type_size(t); *n = s && st->bytes % s == 0 ? (int)(st->bytes / s) : MPI_UNDEFINED; return 0; }
extern "C" int MPI_Wait(MPI_Request* r, MPI_Status* st) { HostScope h; enter("Wait"); if (!*r) return 0; SimRequest* q = *r; wait_for([&] { return q->done; }, "Wait"); finish(r, st); return 0; }
extern "C" int MPI_Test(MPI_Request* r, int* f, MPI_Status* st) { HostScope h; enter("Test"); if (!*r) { *f = 1; return 0; } *f = (*r)->done; if (*f) finish(r, st); else nothing_yet(); return 0; }
extern "C" int MPI_Waitall(int n, MPI_Request* r, MPI_Status* st) { HostScope h; enter("Waitall"); wait_for([&] { for (int i = 0; i < n; i++) if (r[i] && !r[i]->done) return false; return true; }, "Waitall"); for (int i = 0; i < n; i++) if (r[i]) finish(&r[i], st ? &st[i] : nullptr); return 0; }
extern "C" int MPI_Testall(int n, MPI_Request* r, int* f, MPI_Status* st) { HostScope h; enter("Testall"); for (int i = 0; i < n; i++) if (r[i] && !r[i]->done) { *f = 0; nothing_yet(); return 0; } *f = 1; for (int i = 0; i < n; i++) if (r[i]) finish(&r[i], st ? &st[i] : nullptr); return 0; }
static int some(int n, MPI_Request* r, int* out, int* idx, MPI_Status* st) { int k = 0, act = 0; for (int i = 0; i < n; i++) if (r[i]) { act++; if (r[i]->done) { idx[k] = i; finish(&r[i], st ? &st[k] : nullptr); k++; } } *out = act ? k : MPI_UNDEFINED; if (k && k < act) npartial++; return 0; }
static bool any_done(int n, MPI_Request* r, bool all) { int act = 0, d = 0; for (int i = 0; i < n; i++) if (r[i]) { act++; d += r[i]->done; } return !act || (all ? d == act : d > 0); }
extern "C" int MPI_Waitsome(int n, MPI_Request* r, int* out, int* idx, MPI_Status* st) { HostScope h; enter("Waitsome"); nwaitsome++; wait_for([&] { return any_done(n, r, fixed_arrival); }, "Waitsome"); return some(n, r, out, idx, st); }
extern "C" int MPI_Testsome(int n, MPI_Request* r, int* out, int* idx, MPI_Status* st) { HostScope h; enter("Testsome"); if (fixed_arrival) { int act = 0; for (int i = 0; i < n; i++) act += r[i] != nullptr; *out = act ? 0 : MPI_UNDEFINED; if (act) nothing_yet(); return 0; } int k = some(n, r, out, idx, st); if (*out == 0) nothing_yet(); return k; }
extern "C" int MPI_Waitany(int n, MPI_Request* r, int* idx, MPI_Status* st) { HostScope h; enter("Waitany"); *idx = MPI_UNDEFINED; wait_for([&] { return any_done(n, r, false); }, "Waitany"); for (int i = 0; i < n; i++) if (r[i] && r[i]->done) { *idx = i; finish(&r[i], st); break; } return 0; }

// ---- the network --------------------------------------------------------------------------------------------
static void net_entry(void*) {
  host_depth = 1;
  for (;;) {
    std::function<bool()> ok = [] { return in_flight > 0; };
    if (!ok()) sched_block(fpred, &ok, "network"); else sched_point("network");
    if (!in_flight) continue;
    double tot = 0; for (int i = 0; i < NR; i++) for (int j = 0; j < NR; j++) if (!chan[i][j].empty()) tot += weight[i][j];
    double x = net_rng.uni() * tot; int a = -1, b = -1;
    for (int i = 0; i < NR && x >= 0; i++) for (int j = 0; j < NR && x >= 0; j++) if (!chan[i][j].empty()) { a = i; b = j; x -= weight[i][j]; }
    Msg* m = chan[a][b].front(); chan[a][b].pop_front(); in_flight--; deliver(m);
  }
}

// ---- collectives ----------------------------------------------------------------------------------------------
struct Coll { const char* op; int root; MPI_Op rop; long bytes; int first; vector<vector<char>> data; vector<char> in; vector<vector<long>> cnt; int nin = 0, nout = 0; int rc = 0; };
static std::map<long, Coll*> colls;
static Coll* join(const char* op, int root, MPI_Op rop, long bytes, MPI_Comm c) {
  enter(op); comm_ok(c); ncoll++; long k = R[me()].seq++; Coll*& p = colls[k];
  if (!p) { p = new Coll; p->op = op; p->root = root; p->rop = rop; p->bytes = bytes; p->first = me(); p->data.resize(NR); p->in.assign(NR, 0); p->cnt.resize(NR); }
  if (strcmp(p->op, op)) mpi_fail("collective-mismatch", "collective number %ld is %s on rank %d and %s on rank %d", k, p->op, p->first, op, me());
  if (p->root != root) mpi_fail("collective-mismatch", "root of %s number %ld is %d on rank %d and %d on rank %d", op, k, p->root, p->first, root, me());
  if (p->rop != rop) mpi_fail("collective-mismatch", "operation of %s number %ld differs between rank %d and rank %d", op, k, p->first, me());
  if (bytes >= 0 && p->bytes != bytes) mpi_fail("collective-mismatch", "%s number %ld moves %ld bytes on rank %d and %ld on rank %d", op, k, p->bytes, p->first, bytes, me());
  return p;
}
static void give(Coll* c, const void* p, long n) { c->data[me()].assign((const char*)p, (const char*)p + n); }
static void arrive(Coll* c) { c->in[me()] = 1; c->nin++; }
static void need_all(Coll* c) { wait_for([c] { return c->nin == NR; }, c->op); }
static void need(Coll* c, int r) { if (strict_coll) need_all(c); else wait_for([c, r] { return c->in[r] != 0; }, c->op); }
static void maybe_all(Coll* c) { if (strict_coll) need_all(c); }
static void leave(Coll* c) { if (++c->nout == NR) { for (auto i = colls.begin(); i != colls.end(); ++i) if (i->second == c) { colls.erase(i); break; } delete c; } }
template <class T> static void fold(char* a, const char* b, long n, MPI_Op op) {
  T* x = (T*)a; const T* y = (const T*)b; for (long i = 0; i < n; i++) switch (op) { case MPI_SUM: x[i] += y[i]; break; case MPI_MIN: if (y[i] < x[i]) x[i] = y[i]; break; case MPI_MAX: if (y[i] > x[i]) x[i] = y[i]; break; case MPI_PROD: x[i] *= y[i]; break;
    case MPI_LAND: x[i] = x[i] && y[i]; break; case MPI_LOR: x[i] = x[i] || y[i]; break; default: mpi_fail("operation", "operation %d is not known to the simulator", op); } }
static void combine(char* a, const char* b, long n, MPI_Datatype t, MPI_Op op) {
  switch (t) { case MPI_INT: fold<int>(a, b, n, op); break; case MPI_UNSIGNED: fold<unsigned>(a, b, n, op); break; case MPI_LONG: fold<long>(a, b, n, op); break; case MPI_LONG_LONG: fold<long long>(a, b, n, op); break; case MPI_UNSIGNED_LONG: fold<unsigned long>(a, b, n, op); break;
    case MPI_FLOAT: fold<float>(a, b, n, op); break; case MPI_DOUBLE: fold<double>(a, b, n, op); break; case MPI_CHAR: case MPI_BYTE: case MPI_C_BOOL: fold<signed char>(a, b, n, op); break; default: mpi_fail("operation", "reduction over datatype %d", t); } }
static void reduce_into(Coll* c, void* out, int n, MPI_Datatype t, MPI_Op op, int from, int to) {
  long b = n * type_size(t); vector<char> acc; vector<int> ord; for (int r = from; r < to; r++) ord.push_back(r);
  if (red_seed) { Rng q(red_seed); for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[q.below(i)]); }   // the order of the sum is the library's choice
  for (int r : ord) { if (acc.empty() && b) acc = c->data[r]; else if (b) combine(acc.data(), c->data[r].data(), n, t, op); }
  if (b) memcpy(out, acc.data(), b);
}
static const void* src_of(const void* s, const void* r) { return s == MPI_IN_PLACE ? r : s; }
extern "C" int MPI_Barrier(MPI_Comm w) { HostScope h; Coll* c = join("Barrier", 0, 0, 0, w); arrive(c); need_all(c); leave(c); return 0; }
extern "C" int MPI_Ibarrier(MPI_Comm, MPI_Request*) { HostScope h; mpi_fail("unsupported", "MPI_Ibarrier"); }
extern "C" int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm w) { HostScope h; long z = n * type_size(t); Coll* c = join("Bcast", root, 0, z, w); if (me() == root) give(c, b, z); arrive(c); if (me() != root) { need(c, root); if (z) memcpy(b, c->data[root].data(), z); } else maybe_all(c); leave(c); return 0; }
extern "C" int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm w) { HostScope h; long z = n * type_size(t); Coll* c = join("Reduce", root, op, z, w); give(c, src_of(s, r), z); arrive(c); if (me() == root) { need_all(c); reduce_into(c, r, n, t, op, 0, NR); } else maybe_all(c); leave(c); return 0; }
extern "C" int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm w) { HostScope h; long z = n * type_size(t); Coll* c = join("Allreduce", 0, op, z, w); if (s == r) mpi_fail("aliasing", "rank %d passes the same buffer twice to Allreduce", me()); give(c, src_of(s, r), z); arrive(c); need_all(c); reduce_into(c, r, n, t, op, 0, NR); leave(c); return 0; }
static int scan(const char* nm, bool excl, const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm w) { long z = n * type_size(t); Coll* c = join(nm, 0, op, z, w); give(c, src_of(s, r), z); arrive(c); int m = me(); if (strict_coll) need_all(c); else wait_for([c, m] { for (int i = 0; i < m; i++) if (!c->in[i]) return false; return true; }, nm);
  if (!excl) reduce_into(c, r, n, t, op, 0, m + 1); else if (m > 0) reduce_into(c, r, n, t, op, 0, m); leave(c); return 0; }
extern "C" int MPI_Scan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm w) { HostScope h; return scan("Scan", false, s, r, n, t, op, w); }
extern "C" int MPI_Exscan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm w) { HostScope h; return scan("Exscan", true, s, r, n, t, op, w); }
static int gatherv(const char* nm, const void* s, int sn, MPI_Datatype st, void* r, const int* cnt, const int* dis, int one, MPI_Datatype rt, int root, bool all, MPI_Comm w) {
  long z = sn * type_size(st); int m = me(); bool into = all || m == root; long rs = into ? type_size(rt) : 0;
  if (s == MPI_IN_PLACE) { z = rs * (cnt ? cnt[m] : one); s = (char*)r + rs * (dis ? dis[m] : (long)m * one); }
  Coll* c = join(nm, root, 0, -1, w); give(c, s, z); arrive(c);
  if (into) { need_all(c); for (int i = 0; i < NR; i++) { long want = rs * (cnt ? cnt[i] : one); if ((long)c->data[i].size() != want) mpi_fail("collective-mismatch", "%s: rank %d gives %zu bytes where rank %d expects %ld", nm, i, c->data[i].size(), m, want); if (want) memcpy((char*)r + rs * (dis ? dis[i] : (long)i * one), c->data[i].data(), want); } }
  else maybe_all(c);
  leave(c); return 0;
}
extern "C" int MPI_Gather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm w) { HostScope h; return gatherv("Gather", s, sn, st, r, nullptr, nullptr, rn, rt, root, false, w); }
extern "C" int MPI_Gatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* cnt, const int* dis, MPI_Datatype rt, int root, MPI_Comm w) { HostScope h; return gatherv("Gatherv", s, sn, st, r, cnt, dis, 0, rt, root, false, w); }
extern "C" int MPI_Allgather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm w) { HostScope h; return gatherv("Allgather", s, sn, st, r, nullptr, nullptr, rn, rt, 0, true, w); }
extern "C" int MPI_Allgatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* cnt, const int* dis, MPI_Datatype rt, MPI_Comm w) { HostScope h; return gatherv("Allgatherv", s, sn, st, r, cnt, dis, 0, rt, 0, true, w); }
extern "C" int MPI_Scatter(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm w) { HostScope h; int m = me(); Coll* c = join("Scatter", root, 0, -1, w); if (m == root) give(c, s, NR * sn * type_size(st)); arrive(c); need(c, root); long z = rn * type_size(rt); if ((long)c->data[root].size() != z * NR) mpi_fail("collective-mismatch", "Scatter"); if (r != MPI_IN_PLACE && z) memcpy(r, c->data[root].data() + m * z, z); maybe_all(c); leave(c); return 0; }
static int a2a(const char* nm, const void* s, const int* sc, const int* sd, int sone, MPI_Datatype st, void* r, const int* rc, const int* rd, int rone, MPI_Datatype rt, MPI_Comm w) {
  int m = me(); long ss = type_size(st), rs = type_size(rt); Coll* c = join(nm, 0, 0, -1, w); vector<char>& d = c->data[m]; vector<long>& n = c->cnt[m];
  for (int i = 0; i < NR; i++) { long z = ss * (sc ? sc[i] : sone); if (z < 0) mpi_fail("count", "rank %d gives %ld bytes to rank %d in %s", m, z, i, nm); const char* p = (const char*)s + ss * (sd ? sd[i] : (long)i * sone); d.insert(d.end(), p, p + z); n.push_back(z); }
  arrive(c); need_all(c);
  for (int i = 0; i < NR; i++) { long z = rs * (rc ? rc[i] : rone), at = 0; for (int k = 0; k < m; k++) at += c->cnt[i][k]; if (c->cnt[i][m] != z) mpi_fail("collective-mismatch", "%s: rank %d gives %ld bytes to rank %d, which expects %ld", nm, i, c->cnt[i][m], m, z); if (z) memcpy((char*)r + rs * (rd ? rd[i] : (long)i * rone), c->data[i].data() + at, z); }
  leave(c); return 0;
}
extern "C" int MPI_Alltoall(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm w) { HostScope h; return a2a("Alltoall", s, nullptr, nullptr, sn, st, r, nullptr, nullptr, rn, rt, w); }
extern "C" int MPI_Alltoallv(const void* s, const int* sc, const int* sd, MPI_Datatype st, void* r, const int* rc, const int* rd, MPI_Datatype rt, MPI_Comm w) { HostScope h; return a2a("Alltoallv", s, sc, sd, 0, st, r, rc, rd, 0, rt, w); }

extern "C" int MPI_Finalize() {
  HostScope h; Coll* c = join("Finalize", 0, 0, 0, MPI_COMM_WORLD); arrive(c); need_all(c); leave(c); RankState& s = R[me()]; s.finalized = true;
  if (s.live) mpi_fail("requests-left", "rank %d ends with %ld requests never completed", me(), s.live);
  if (!s.unexpected.empty()) mpi_fail("unreceived", "rank %d ends with %zu messages never received (first from rank %d, tag %d)", me(), s.unexpected.size(), s.unexpected[0]->src, s.unexpected[0]->tag);
  for (int i = 0; i < NR; i++) if (!chan[i][me()].empty()) mpi_fail("unreceived", "rank %d ends with %zu messages from rank %d never received", me(), chan[i][me()].size(), i);
  return 0;
}

// ---- files -----------------------------------------------------------------------------------------------------
struct SimFile { int fd; long long pos; };
static int err_of(int e) { return e == ENOSPC ? MPI_ERR_NO_SPACE : MPI_ERR_IO; }
static int together(Coll* c, int rc) { if (rc) c->rc = rc; arrive(c); need_all(c); int r = c->rc; leave(c); return r; }     // a collective file call fails or succeeds on all ranks
extern "C" int MPI_File_open(MPI_Comm w, const char* name, int mode, MPI_Info, MPI_File* f) {
  HostScope h; Coll* c = join("File_open", 0, mode, 0, w); int fl = (mode & MPI_MODE_RDWR) ? O_RDWR : (mode & MPI_MODE_WRONLY) ? O_WRONLY : O_RDONLY; if (mode & MPI_MODE_CREATE) fl |= O_CREAT; if (mode & MPI_MODE_EXCL) fl |= O_EXCL;
  nfileops++; int fd = open(name, fl, 0644); int rc = fd < 0 ? MPI_ERR_FILE : 0; rc = together(c, rc);
  if (rc) { if (fd >= 0) close(fd); *f = nullptr; return rc; }
  *f = new SimFile{fd, 0}; return 0;
}
#define FILE_OK if (!f) return MPI_ERR_FILE
extern "C" int MPI_File_close(MPI_File* f) { HostScope h; if (!*f) return MPI_ERR_FILE; Coll* c = join("File_close", 0, 0, 0, MPI_COMM_WORLD); nfileops++; int rc = close((*f)->fd) ? MPI_ERR_IO : 0; rc = together(c, rc); delete *f; *f = nullptr; return rc; }
extern "C" int MPI_File_delete(const char* n, MPI_Info) { HostScope h; enter("File_delete"); return unlink(n) ? MPI_ERR_FILE : 0; }
extern "C" int MPI_File_sync(MPI_File f) { HostScope h; FILE_OK; Coll* c = join("File_sync", 0, 0, 0, MPI_COMM_WORLD); return together(c, fsync(f->fd) ? MPI_ERR_IO : 0); }
extern "C" int MPI_File_set_size(MPI_File f, MPI_Offset n) { HostScope h; FILE_OK; Coll* c = join("File_set_size", 0, 0, 8, MPI_COMM_WORLD); int rc = 0; arrive(c); need_all(c);
  if (me() == 0) { nfileops++; rc = ftruncate(f->fd, n) ? MPI_ERR_IO : 0; c->rc = rc; } leave(c); Coll* d = join("File_set_size2", 0, 0, 8, MPI_COMM_WORLD); return together(d, rc); }
extern "C" int MPI_File_get_size(MPI_File f, MPI_Offset* n) { HostScope h; *n = 0; FILE_OK; enter("File_get_size"); struct stat st; if (fstat(f->fd, &st)) return MPI_ERR_IO; *n = st.st_size; return 0; }
extern "C" int MPI_File_seek(MPI_File f, MPI_Offset o, int w) { HostScope h; FILE_OK; if (w == MPI_SEEK_SET) f->pos = o; else if (w == MPI_SEEK_CUR) f->pos += o; else { struct stat st; fstat(f->fd, &st); f->pos = st.st_size + o; } if (f->pos < 0) { f->pos = 0; return MPI_ERR_IO; } return 0; }
extern "C" int MPI_File_get_position(MPI_File f, MPI_Offset* o) { *o = 0; FILE_OK; *o = f->pos; return 0; }
static int put(MPI_File f, const char* p, long n) {
  nfileops++; long left = n; while (left > 0) { if (lseek(f->fd, f->pos, SEEK_SET) < 0) return MPI_ERR_IO; errno = 0; long k = host_file_write(f->fd, p, left); if (k < 0) { if (errno == EINTR) continue; return err_of(errno); } p += k; left -= k; f->pos += k; }
  return 0;
}
static void wst(MPI_Status* st, long n) { if (st) { st->MPI_SOURCE = me(); st->MPI_TAG = 0; st->MPI_ERROR = 0; st->bytes = n; } }
extern "C" int MPI_File_write(MPI_File f, const void* b, int n, MPI_Datatype t, MPI_Status* st) { HostScope h; FILE_OK; enter("File_write"); long z = n * type_size(t); int rc = put(f, (const char*)b, z); wst(st, rc ? 0 : z); return rc; }
extern "C" int MPI_File_write_all(MPI_File f, const void* b, int n, MPI_Datatype t, MPI_Status* st) { HostScope h; FILE_OK; long z = n * type_size(t); Coll* c = join("File_write_all", 0, 0, -1, MPI_COMM_WORLD); int rc = put(f, (const char*)b, z); wst(st, rc ? 0 : z); return together(c, rc); }
extern "C" int MPI_File_write_at(MPI_File f, MPI_Offset o, const void* b, int n, MPI_Datatype t, MPI_Status* st) { HostScope h; FILE_OK; enter("File_write_at"); long long p = f->pos; f->pos = o; long z = n * type_size(t); int rc = put(f, (const char*)b, z); f->pos = p; wst(st, rc ? 0 : z); return rc; }
extern "C" int MPI_File_write_at_all(MPI_File f, MPI_Offset o, const void* b, int n, MPI_Datatype t, MPI_Status* st) { HostScope h; FILE_OK; Coll* c = join("File_write_at_all", 0, 0, -1, MPI_COMM_WORLD); long long p = f->pos; f->pos = o; long z = n * type_size(t); int rc = put(f, (const char*)b, z); f->pos = p; wst(st, rc ? 0 : z); return together(c, rc); }
extern "C" int MPI_File_read(MPI_File f, void* b, int n, MPI_Datatype t, MPI_Status* st) { HostScope h; FILE_OK; enter("File_read"); long z = n * type_size(t), got = 0; lseek(f->fd, f->pos, SEEK_SET); while (got < z) { ssize_t k = read(f->fd, (char*)b + got, z - got); if (k < 0 && errno == EINTR) continue; if (k < 0) return MPI_ERR_IO; if (!k) break; got += k; } f->pos += got; wst(st, got); return 0; }
extern "C" int MPI_File_read_all(MPI_File f, void* b, int n, MPI_Datatype t, MPI_Status* st) { return MPI_File_read(f, b, n, t, st); }

// ---- the job ---------------------------------------------------------------------------------------------------
static string img; static int job_rc = 0;
static void rank_entry(void*) {
  int r = me(); string p; { HostScope h; p = r ? img + "." + std::to_string(r) : img; }
  host_depth = 0; node_rc = 0; node_main(p, r);
  host_depth = 1; if (node_rc) job_rc = node_rc;
  if (!R[r].finalized) mpi_fail("no-finalize", "rank %d ends without MPI_Finalize", r);
  R[r].ended = true; sched_leave();
}
static void disk_turn() { if (cur_fiber != netf) { HostScope h; sched_point("disk"); } }
int mpi_main(const string& image, int ranks) {
  NR = ranks; img = image; net_rng = Rng(plan.i("mpi.seed", 1)); eager = plan.i("mpi.eager", 1 << 16); strict_coll = plan.i("mpi.strict", 0); fixed_arrival = plan.i("mpi.fixed", 0); red_seed = plan.i("mpi.redorder", 0);
  weight.assign(NR, vector<double>(NR, 1.0)); long sl = plan.i("mpi.slow", 0); Rng q(plan.i("mpi.seed", 1) + 17);
  for (int i = 0; i < NR; i++) for (int j = 0; j < NR; j++) if (sl && q.uni() < 0.4) weight[i][j] = 1.0 / (1 + q.below(sl));
  for (auto& s : plan.stalls) stalls.push_back({atoi(s[0].c_str()), atol(s[1].c_str()), atol(s[2].c_str())});
  for (int r = 0; r < NR; r++) { Fiber* f = fiber_new(r, 0, 60u << 20, rank_entry, nullptr, r); sched_fibers.push_back(f); }
  netf = fiber_new(0, 62, 1u << 20, net_entry, nullptr, 30); sched_fibers.push_back(netf);
  host_set_io_yield(disk_turn);
  Fiber* m = new Fiber; m->rank = 0; m->id = 63; cur_fiber = m; sched_fibers.push_back(m);
  std::function<bool()> over = [] { for (int r = 0; r < NR; r++) if (!R[r].ended) return false; return true; };
  sched_block(fpred, &over, "job");
  return job_rc & 0xff;
}
void mpi_summary() { if (R[0].calls) trace("mpi ranks=%d msgs=%ld bytes=%ld rendezvous=%ld collectives=%ld unexpected=%ld waitsome=%ld partial=%ld stalls=%ld fileops=%ld", NR, nmsg, nbytes, nrendez, ncoll, nunexpected, nwaitsome, npartial, nstalls, nfileops); }
