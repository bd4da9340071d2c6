// The simulator host: one process, one seed-driven plan.  Owns the clock, the disk seam, the heap
// contents, the random number state shared through libc, and the fibers on which ranks/threads run.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "host.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <iostream>
#include <set>
using std::string; using std::vector;

extern "C" void* __libc_malloc(size_t); extern "C" void __libc_free(void*);
extern "C" void* __libc_calloc(size_t, size_t); extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);

Plan plan;
int host_depth = 0;
static bool armed = false;          // the seams are active
uint64_t trace_hash = 1469598103934665603ull;

// ---- raw output ----------------------------------------------------------------------------------------
static int trace_fd = -1, dump_fd = -1;
static char tbuf[1 << 16]; static size_t tlen = 0;
static ssize_t raw_write(int fd, const void* p, size_t n) {
  const char* c = (const char*)p; size_t left = n;
  while (left) { ssize_t r = syscall(SYS_write, fd, c, left); if (r <= 0) { if (r < 0 && errno == EINTR) continue; return -1; } c += r; left -= r; }
  return n;
}
void trace_flush() { if (trace_fd >= 0 && tlen) raw_write(trace_fd, tbuf, tlen); tlen = 0; }
void trace(const char* fmt, ...) {
  char line[2048]; va_list ap; va_start(ap, fmt); int n = vsnprintf(line, sizeof line - 2, fmt, ap); va_end(ap);
  if (n < 0) return; if (n > (int)sizeof line - 2) n = sizeof line - 2;
  line[n++] = '\n';
  for (int i = 0; i < n; i++) { trace_hash ^= (unsigned char)line[i]; trace_hash *= 1099511628211ull; }
  if (tlen + n > sizeof tbuf) trace_flush();
  memcpy(tbuf + tlen, line, n); tlen += n;
}
static bool exiting = false;
static long nread_ops = 0, nmut_ops = 0, nclock_reads = 0, nevents = 0, nfaults_fired = 0;
void sim_exit(int code, const char* why) {
  if (!exiting) {
    exiting = true; HostScope hs;
    sched_summary(); mpi_summary(); omp_summary();
    trace("exit %d %s", code, why);
    trace("count mut=%ld read=%ld clock=%ld events=%ld faults=%ld", nmut_ops, nread_ops, nclock_reads, nevents, nfaults_fired);
    uint64_t h = trace_hash; trace("hash %016lx", h);
    trace_flush();
  }
  fflush(stdout);
  _exit(code & 0xff);
}
static void on_signal(int sig) { host_depth++; char b[32]; snprintf(b, sizeof b, "signal-%d", sig); sim_exit(128 + sig, b); }
extern "C" void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) {
  host_depth++; const char* b = strrchr(f, '/'); trace("assert %s:%u %s", b ? b + 1 : f, l, e); sim_exit(134, "assert");
}
static void on_atexit() { if (!exiting) { host_depth++; sim_exit(250, "atexit"); } }
extern "C" void exit(int code) { host_depth++; sim_exit(code & 0xff, code == 0 ? "exit" : "exit-error"); }
extern "C" void abort(void) { host_depth++; sim_exit(134, "abort"); }

// ---- fibers ---------------------------------------------------------------------------------------------
asm(R"(
.text
.globl fiber_switch
.type fiber_switch,@function
fiber_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size fiber_switch,.-fiber_switch
)");
Fiber* cur_fiber = nullptr;
int cur_rank() { return cur_fiber ? cur_fiber->rank : 0; }
static void fiber_entry() { Fiber* f = cur_fiber; f->fn(f->arg); f->done = true; abort(); }
Fiber* fiber_new(int rank, int id, size_t stack, void (*fn)(void*), void* arg, int slot) {
  Fiber* f = new Fiber; f->rank = rank; f->id = id; f->fn = fn; f->arg = arg; f->stack_size = stack;
  char* want = (char*)(0x7e0000000000ull + (uint64_t)slot * (64ull << 20));
  f->stack = (char*)mmap(want, stack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (f->stack == MAP_FAILED) { perror("mmap stack"); _exit(99); }
  int pat = (int)plan.i("stack.fill", 0);
  size_t fillsz = stack < (512u << 10) ? stack : (512u << 10);
  if (pat) memset(f->stack + stack - fillsz, pat, fillsz);
  uint64_t* sp = (uint64_t*)(f->stack + stack - 64);
  *--sp = 0; *--sp = (uint64_t)fiber_entry;
  for (int i = 0; i < 6; i++) *--sp = 0;
  f->sp = sp; return f;
}

// ---- heap -------------------------------------------------------------------------------------------------
// A private arena at a fixed address: addresses and the contents of fresh memory are functions of the plan.
static char* arena = nullptr; static size_t arena_pos = 0; static const size_t ARENA = 24ull << 30;
static void* freelist[64]; static int heap_fill = 0; static uint64_t heap_rng = 1; static int heap_gap = 0;
struct Hdr { uint64_t cls; uint64_t size; };
static inline bool in_arena(void* p) { return arena && (char*)p >= arena && (char*)p < arena + ARENA; }
static inline bool use_arena() { return armed && !host_depth; }
static int cls_of(size_t n) { int c = 4; while ((16ull << (c - 4)) < n) c++; return c; }
static void fill_mem(void* p, size_t n) {
  if (heap_fill == 0) return;                 // leave as it is (zero when fresh, stale when reused)
  if (heap_fill == 0x100) { uint64_t* w = (uint64_t*)p; for (size_t i = 0; i < n / 8; i++) { heap_rng = heap_rng * 6364136223846793005ull + 1442695040888963407ull; w[i] = heap_rng; } return; }
  memset(p, heap_fill, n);
}
static void* arena_alloc(size_t n, size_t align) {
  if (n == 0) n = 1;
  int c = cls_of(n); size_t sz = 16ull << (c - 4);
  char* p;
  if (align <= 16 && freelist[c]) { p = (char*)freelist[c]; freelist[c] = *(void**)p; }
  else {
    if (heap_gap) { heap_rng = heap_rng * 6364136223846793005ull + 1442695040888963407ull; arena_pos += ((heap_rng >> 40) % heap_gap) * 16; }
    size_t pos = arena_pos + 16; size_t a = align < 16 ? 16 : align; pos = (pos + a - 1) / a * a;
    if (pos + sz > ARENA) return nullptr;
    p = arena + pos; arena_pos = pos + sz; ((Hdr*)(p - 16))->cls = c;
  }
  ((Hdr*)(p - 16))->size = n; omp_fresh(p, n);
  fill_mem(p, n); return p;
}
extern "C" void* malloc(size_t n) { if (!use_arena()) return __libc_malloc(n); return arena_alloc(n, 16); }
extern "C" void free(void* p) { if (!p) return; if (!in_arena(p)) { __libc_free(p); return; }
  Hdr* h = (Hdr*)((char*)p - 16); int keep = heap_fill && heap_fill != 0x100; if (keep && h->size < 4096) memset(p, heap_fill, h->size);
  *(void**)p = freelist[h->cls]; freelist[h->cls] = p; }
extern "C" void* calloc(size_t a, size_t b) { if (!use_arena()) return __libc_calloc(a, b); void* p = arena_alloc(a * b, 16); if (p) memset(p, 0, a * b); return p; }
extern "C" void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  if (!in_arena(p)) { if (!use_arena()) return __libc_realloc(p, n); return __libc_realloc(p, n); }
  Hdr* h = (Hdr*)((char*)p - 16); void* q = malloc(n); if (q) memcpy(q, p, h->size < n ? h->size : n); free(p); return q; }
extern "C" void* memalign(size_t a, size_t n) { if (!use_arena()) return __libc_memalign(a, n); return arena_alloc(n, a); }
extern "C" void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
extern "C" int posix_memalign(void** o, size_t a, size_t n) { *o = memalign(a, n); return *o ? 0 : ENOMEM; }

// ---- clock -------------------------------------------------------------------------------------------------
int64_t wall_ns[64], cpu_ns[64];
static int64_t clk_read_w = 1000, clk_read_c = 1000, clk_step_w = 1000000, clk_step_c = 1000000; static double clk_jit = 0.0;
static Rng clk_rng(1);
void clock_advance(int rank, int64_t w, int64_t c) { wall_ns[rank] += w; cpu_ns[rank] += c; }
struct ClkEv { long at; int rank; int64_t w, c; }; static vector<ClkEv> clk_ev; static size_t clk_next = 0;
static void tick_read() { int r = cur_rank(); nclock_reads++; wall_ns[r] += clk_read_w; cpu_ns[r] += clk_read_c; }
static void apply_clk_events(long ev) {
  for (auto& e : clk_ev) if (e.at == ev) {
    if (e.rank < 0) { for (int r = 0; r < 64; r++) clock_advance(r, e.w, e.c); } else clock_advance(e.rank, e.w, e.c);
    nfaults_fired++; trace("clockjump ev=%ld rank=%d wall=%+ld cpu=%+ld", ev, e.rank, (long)e.w, (long)e.c);
  }
}
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept { if (!armed) { struct timespec ts; syscall(SYS_clock_gettime, 0, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
  tick_read(); int64_t n = wall_ns[cur_rank()]; tv->tv_sec = n / 1000000000; tv->tv_usec = (n % 1000000000) / 1000; return 0; }
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept { if (!armed) return syscall(SYS_clock_gettime, id, ts);
  tick_read(); int64_t n = (id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) ? cpu_ns[cur_rank()] : wall_ns[cur_rank()];
  ts->tv_sec = n / 1000000000; ts->tv_nsec = n % 1000000000; return 0; }
extern "C" clock_t clock(void) noexcept { if (!armed) return 0; tick_read(); return cpu_ns[cur_rank()] / 1000; }
extern "C" time_t time(time_t* t) noexcept { if (!armed) { struct timespec ts; syscall(SYS_clock_gettime, 0, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
  tick_read(); time_t v = wall_ns[cur_rank()] / 1000000000; if (t) *t = v; return v; }
extern "C" clock_t times(struct tms* b) noexcept { tick_read(); int64_t c = cpu_ns[cur_rank()] / 10000000; if (b) { b->tms_utime = c; b->tms_stime = b->tms_cutime = b->tms_cstime = 0; } return wall_ns[cur_rank()] / 10000000; }
extern "C" int nanosleep(const struct timespec* a, struct timespec*) { clock_advance(cur_rank(), a->tv_sec * 1000000000ll + a->tv_nsec, 0); return 0; }
extern "C" int usleep(useconds_t us) { clock_advance(cur_rank(), us * 1000ll, 0); return 0; }
extern "C" unsigned sleep(unsigned s) { clock_advance(cur_rank(), s * 1000000000ll, 0); return 0; }
extern "C" pid_t getpid(void) noexcept { return armed ? 4242 + cur_rank() : (pid_t)syscall(SYS_getpid); }
// libc's hidden random state, one per rank
static uint32_t rnd_state[64];
extern "C" void srand(unsigned s) noexcept { rnd_state[cur_rank()] = s; }
extern "C" int rand(void) noexcept { uint32_t& s = rnd_state[cur_rank()]; uint64_t x = s * 6364136223846793005ull + 1442695040888963407ull; x ^= x >> 29; s = (uint32_t)(x * 0x9E3779B97F4A7C15ull >> 32) + 1; return (int)(s & 0x7fffffff); }

// ---- disk seam -----------------------------------------------------------------------------------------------
enum FK { F_CRASH, F_TORN, F_ENOSPC, F_EIO, F_SHORT, F_EINTR, F_OPENFAIL, F_CLOSEFAIL, F_READEIO, F_READSHORT, F_READEINTR, F_READOPENFAIL, F_RENAMEFAIL, F_READEOF };
struct Fault { FK k; long from, to; long arg; string name; long fired = 0; };
static vector<Fault> faults;
static long disk_budget = -1;       // bytes that still fit on the simulated disk; -1 = unlimited
struct FdInfo { bool on = false, wr = false, app = false; string* path = nullptr; long written = 0; };
static FdInfo fdi[1024];
static string rel(const char* p) { string s(p); string c = plan.s("cwd"); if (!c.empty() && s.compare(0, c.size() + 1, c + "/") == 0) s = s.substr(c.size() + 1); while (s.compare(0, 2, "./") == 0) s = s.substr(2); return s; }
static bool tracked_path(const char* p) { return armed && p && (p[0] != '/' || rel(p)[0] != '/'); }
static void io_yield();
static Fault* match(FK k, long op) { for (auto& f : faults) if (f.k == k && op >= f.from && op < f.to) { f.fired++; nfaults_fired++; return &f; } return nullptr; }
static void crash_now(long op) { trace("crash op=%ld", op); sim_exit(137, "crash"); }
static void op_crash_check(long op) { if (Fault* f = match(F_CRASH, op)) { (void)f; crash_now(op); } }
static long fsize(const char* p) { struct stat st; return stat(p, &st) == 0 ? (long)st.st_size : 0; }

template <class T> static T real(const char* n) { HostScope h; static std::map<string, void*>* m = new std::map<string, void*>; auto i = m->find(n); if (i != m->end()) return (T)i->second; void* p = dlsym(RTLD_NEXT, n); (*m)[n] = p; return (T)p; }

// returns errno to inject or 0
static int open_hook(const char* path, bool wr, bool trunc, bool creat, const char* api) {
  HostScope hs; string r = rel(path);
  if (!wr) {
    long op = nread_ops++;
    if (Fault* f = match(F_READOPENFAIL, op)) { trace("rop %ld open %s -> fault err=%ld", op, r.c_str(), f->arg); return (int)f->arg; }
    trace("rop %ld open %s r%d", op, r.c_str(), cur_rank()); return 0;
  }
  long op = nmut_ops++; op_crash_check(op);
  if (Fault* f = match(F_OPENFAIL, op)) { trace("op %ld open %s -> fault err=%ld", op, r.c_str(), f->arg); return (int)f->arg; }
  if (trunc && disk_budget >= 0) disk_budget += fsize(path);
  trace("op %ld open %s%s r%d", op, r.c_str(), trunc ? " trunc" : "", cur_rank()); (void)creat; (void)api; return 0;
}
static void fd_track(int fd, const char* path, bool wr, bool app) { if (fd < 0 || fd >= 1024) return; HostScope hs; fdi[fd].on = true; fdi[fd].wr = wr; fdi[fd].app = app; delete fdi[fd].path; fdi[fd].path = new string(rel(path)); fdi[fd].written = 0; }

static FILE* do_fopen(const char* path, const char* mode, const char* sym) {
  typedef FILE* (*fn)(const char*, const char*); fn f = real<fn>(sym);
  if (!tracked_path(path)) { HostScope h; return f(path, mode); }
  io_yield();
  bool wr = strpbrk(mode, "wa+") != nullptr, trunc = strchr(mode, 'w') != nullptr, app = strchr(mode, 'a') != nullptr;
  int e = open_hook(path, wr, trunc, wr, sym); if (e) { errno = e; return nullptr; }
  HostScope h; FILE* fp = f(path, mode); if (fp) fd_track(fileno(fp), path, wr, app); else trace("open-failed %s errno=%d", rel(path).c_str(), errno); return fp;
}
extern "C" FILE* fopen(const char* p, const char* m) { return do_fopen(p, m, "fopen"); }
extern "C" FILE* fopen64(const char* p, const char* m) { return do_fopen(p, m, "fopen64"); }
static int do_open(const char* path, int flags, mode_t md) {
  bool wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  if (!tracked_path(path)) return (int)syscall(SYS_openat, AT_FDCWD, path, flags, md);
  io_yield();
  int e = open_hook(path, wr, (flags & O_TRUNC) != 0, (flags & O_CREAT) != 0, "open"); if (e) { errno = e; return -1; }
  int fd = (int)syscall(SYS_openat, AT_FDCWD, path, flags, md); if (fd >= 0) fd_track(fd, path, wr, flags & O_APPEND); return fd;
}
extern "C" int open(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = (fl & O_CREAT) ? va_arg(a, int) : 0; va_end(a); return do_open(p, fl, m); }
extern "C" int open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = (fl & O_CREAT) ? va_arg(a, int) : 0; va_end(a); return do_open(p, fl, m); }
extern "C" int creat(const char* p, mode_t m) { return do_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static ssize_t do_write(int fd, const struct iovec* iov, int cnt) {
  size_t n = 0; for (int i = 0; i < cnt; i++) n += iov[i].iov_len;
  vector<char>* flat; { HostScope h; flat = new vector<char>; flat->reserve(n + 1); for (int i = 0; i < cnt; i++) flat->insert(flat->end(), (char*)iov[i].iov_base, (char*)iov[i].iov_base + iov[i].iov_len); }
  io_yield();
  HostScope h; ssize_t ret; const char* p = n ? &(*flat)[0] : ""; long op = nmut_ops++; const char* path = fdi[fd].path->c_str();
  op_crash_check(op);
  if (Fault* f = match(F_TORN, op)) { size_t k = n ? (size_t)f->arg % n : 0; raw_write(fd, p, k); trace("op %ld write %s %zu torn %zu", op, path, n, k); crash_now(op); }
  if (Fault* f = match(F_ENOSPC, op)) { size_t k = f->arg > 0 ? (size_t)f->arg : 0; if (k >= n) k = n / 2; if (f->fired > 1) k = 0; if (k) { raw_write(fd, p, k); trace("op %ld write %s %zu short %zu (filling)", op, path, n, k); ret = k; }
    else { trace("op %ld write %s %zu -> ENOSPC", op, path, n); errno = ENOSPC; ret = -1; } delete flat; if (ret < 0) errno = ENOSPC; return ret; }
  if (match(F_EIO, op)) { trace("op %ld write %s %zu -> EIO", op, path, n); delete flat; errno = EIO; return -1; }
  if (match(F_EINTR, op)) { trace("op %ld write %s %zu -> EINTR", op, path, n); delete flat; errno = EINTR; return -1; }
  if (Fault* f = match(F_SHORT, op)) { size_t k = n > 1 ? 1 + (size_t)f->arg % (n - 1) : n; raw_write(fd, p, k); fdi[fd].written += k; trace("op %ld write %s %zu short %zu", op, path, n, k); delete flat; return k; }
  if (disk_budget >= 0) {
    if ((long)n > disk_budget) { size_t k = disk_budget; disk_budget = 0; nfaults_fired++; if (k) raw_write(fd, p, k);
      trace("op %ld write %s %zu full %zu", op, path, n, k); delete flat; if (k) return k; errno = ENOSPC; return -1; }
    disk_budget -= n;
  }
  ret = raw_write(fd, p, n); fdi[fd].written += n;
  trace("op %ld write %s %zu", op, path, n);
  delete flat; return ret;
}
static inline bool fd_tracked(int fd) { return armed && fd >= 0 && fd < 1024 && fdi[fd].on; }
extern "C" ssize_t write(int fd, const void* b, size_t n) { if (!fd_tracked(fd)) return syscall(SYS_write, fd, b, n); struct iovec v = {(void*)b, n}; return do_write(fd, &v, 1); }
extern "C" ssize_t writev(int fd, const struct iovec* v, int c) { if (!fd_tracked(fd)) return syscall(SYS_writev, fd, v, c); return do_write(fd, v, c); }
extern "C" ssize_t read(int fd, void* b, size_t n) {
  if (!fd_tracked(fd)) return syscall(SYS_read, fd, b, n);
  io_yield();
  HostScope h; long op = nread_ops++; const char* path = fdi[fd].path->c_str();
  if (match(F_READEIO, op)) { trace("rop %ld read %s -> EIO", op, path); errno = EIO; return -1; }
  if (match(F_READEOF, op)) { trace("rop %ld read %s -> EOF", op, path); return 0; }
  if (match(F_READEINTR, op)) { trace("rop %ld read %s -> EINTR", op, path); errno = EINTR; return -1; }
  if (Fault* f = match(F_READSHORT, op)) { size_t k = n > 1 ? 1 + (size_t)f->arg % (n - 1) : n; ssize_t r = syscall(SYS_read, fd, b, k); trace("rop %ld read %s short %zd", op, path, r); return r; }
  ssize_t r = syscall(SYS_read, fd, b, n); trace("rop %ld read %s %zd", op, path, r); return r;
}
extern "C" int fclose(FILE* fp) {
  typedef int (*fn)(FILE*); fn f = real<fn>("fclose"); int fd = fileno(fp); bool tr = fd_tracked(fd);
  if (!tr) { HostScope h; return f(fp); }
  io_yield();
  HostScope h; bool wr = fdi[fd].wr; int inj = 0;
  if (wr) { long op = nmut_ops++; op_crash_check(op); if (Fault* q = match(F_CLOSEFAIL, op)) inj = (int)q->arg;
    trace("op %ld close %s%s", op, fdi[fd].path->c_str(), inj ? " -> fault" : ""); }
  fdi[fd].on = false; int r = f(fp); if (inj) { errno = inj; return EOF; } return r;
}
extern "C" int close(int fd) {
  if (!fd_tracked(fd)) return (int)syscall(SYS_close, fd);
  HostScope h; bool wr = fdi[fd].wr; int inj = 0;
  if (wr) { long op = nmut_ops++; op_crash_check(op); if (Fault* q = match(F_CLOSEFAIL, op)) inj = (int)q->arg; trace("op %ld close %s%s", op, fdi[fd].path->c_str(), inj ? " -> fault" : ""); }
  fdi[fd].on = false; int r = (int)syscall(SYS_close, fd); if (inj) { errno = inj; return -1; } return r;
}
extern "C" int rename(const char* a, const char* b) noexcept {
  if (!tracked_path(a)) return (int)syscall(SYS_rename, a, b);
  HostScope h; long op = nmut_ops++; op_crash_check(op);
  if (Fault* f = match(F_RENAMEFAIL, op)) { trace("op %ld rename %s %s -> fault", op, rel(a).c_str(), rel(b).c_str()); errno = (int)f->arg; return -1; }
  int r = (int)syscall(SYS_rename, a, b); int e = errno; trace("op %ld rename %s %s = %d", op, rel(a).c_str(), rel(b).c_str(), r); errno = e; return r;
}
static int do_unlink(const char* p, const char* nm) {
  if (!tracked_path(p)) return (int)syscall(SYS_unlink, p);
  HostScope h; long op = nmut_ops++; op_crash_check(op); if (disk_budget >= 0) disk_budget += fsize(p);
  int r = (int)syscall(SYS_unlink, p); int e = errno; trace("op %ld %s %s = %d r%d", op, nm, rel(p).c_str(), r, cur_rank()); errno = e; return r;
}
extern "C" int unlink(const char* p) noexcept { return do_unlink(p, "unlink"); }
extern "C" int remove(const char* p) noexcept { return do_unlink(p, "unlink"); }
extern "C" int ftruncate(int fd, off_t n) noexcept { if (!fd_tracked(fd)) return (int)syscall(SYS_ftruncate, fd, n); HostScope h; long op = nmut_ops++; op_crash_check(op); trace("op %ld ftruncate %s %ld", op, fdi[fd].path->c_str(), (long)n); return (int)syscall(SYS_ftruncate, fd, n); }
extern "C" int ftruncate64(int fd, off_t n) noexcept { return ftruncate(fd, n); }
extern "C" int truncate(const char* p, off_t n) noexcept { if (!tracked_path(p)) return (int)syscall(SYS_truncate, p, n); HostScope h; long op = nmut_ops++; op_crash_check(op); trace("op %ld truncate %s %ld", op, rel(p).c_str(), (long)n); return (int)syscall(SYS_truncate, p, n); }
extern "C" int fsync(int fd) { if (!fd_tracked(fd)) return 0; HostScope h; long op = nmut_ops++; op_crash_check(op); trace("op %ld fsync %s", op, fdi[fd].path->c_str()); return 0; }
extern "C" int fdatasync(int fd) { return fsync(fd); }
// Containment: the node never starts other programs
extern "C" int system(const char* c) { trace("system %s", c ? c : ""); return -1; }
extern "C" pid_t fork(void) noexcept { trace("fork refused"); errno = EAGAIN; return -1; }

// Used by the MPI file layer: one positioned write through the same fault machinery
long host_file_write(int fd, const char* p, size_t n) { struct iovec v = {(void*)p, n}; return do_write(fd, &v, 1); }
static void (*io_yield_fn)() = nullptr;
void host_set_io_yield(void (*f)()) { io_yield_fn = f; }
static void io_yield() { if (io_yield_fn && !host_depth) io_yield_fn(); }

// ---- hook events ------------------------------------------------------------------------------------------------
static std::set<long> dump_idx; static bool dump_all = false; static int dump_mask = 0; static long max_steps = 0;
static double wall_min = 0;
static uint64_t hash_bytes(uint64_t h, const void* p, size_t n) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; } return h; }
static uint64_t mix64(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h; }
void (*event_extra)(SimView*) = nullptr;
extern "C" void sim_host_event(SimView* v, void* sim, fill_fn fill) {
  static bool sink_events = plan.i("events.sinks", 0), force_events = plan.i("events.forces", 0); if (v->event > 6 && !(v->event == 9 ? force_events : sink_events)) return;   // the finer events only on demand
  HostScope hs; int r = v->rank; long ev = nevents++;
  int64_t w = clk_step_w, c = clk_step_c;
  if (clk_jit > 0) { w = (int64_t)(w * (1.0 + clk_jit * (2 * clk_rng.uni() - 1))); c = (int64_t)(c * (1.0 + clk_jit * (2 * clk_rng.uni() - 1))); }
  if (v->event == 4) clock_advance(r, w, c);
  apply_clk_events(ev);
  size_t nh = (size_t)v->Nhydro * HYDRO_COLS, ns = (size_t)v->Nstar * STAR_COLS;
  static double* buf = nullptr; static size_t cap = 0; if (nh + ns > cap) { free(buf); cap = 2 * (nh + ns) + 1024; buf = (double*)malloc(cap * sizeof(double)); }
  if (v->event == 1 && !plan.i("viewic", 1)) nh = ns = 0; else fill(sim, buf, buf + nh);
  // order-sensitive digest over r v m h u rho of everything (bit exact)
  uint64_t h = 0xcbf29ce484222325ull; double mg = 0, ms = 0; long ndead = 0;
  for (int i = 0; i < v->Nhydro && nh; i++) { double* q = buf + (size_t)i * HYDRO_COLS; if (q[31] != 0) { ndead++; continue; }
    static const int cols[] = {0, 1, 8, 9, 10, 11, 12, 13, 17, 18, 19, 20}; for (int k : cols) { uint64_t b; memcpy(&b, q + k, 8); h = mix64(h, b); } mg += q[17]; }
  for (int i = 0; i < v->Nstar && ns; i++) { double* q = buf + nh + (size_t)i * STAR_COLS; for (int k : {0, 1, 2, 3, 4, 5, 9, 10}) { uint64_t b; memcpy(&b, q + k, 8); h = mix64(h, b); } ms += q[9]; }
  uint64_t tb; memcpy(&tb, &v->t, 8); h = mix64(h, tb);
  trace("ev %ld r%d code=%d t=%.17g step=%d n=%d/%d nblk=%d nlr=%d Nh=%d Ns=%d dead=%ld mg=%.17g ms=%.17g snap=%d/%.17g/%.17g lite=%d/%.17g/%.17g restart=%d kill=%d dig=%016lx mut=%ld wall=%ld dt=%.17g",
        ev, r, v->event, v->t, v->Nsteps, v->n, v->nresync, v->Nblocksteps, v->nlastrestart, v->Nhydro, v->Nstar, ndead, mg, ms, v->Noutsnap, v->tsnaplast, v->tsnapnext,
        v->Noutlitesnap, v->tlitesnaplast, v->tlitesnapnext, v->restart, v->kill, h, nmut_ops, (long)(wall_ns[r] / 1000), v->timestep);
  if (dump_fd >= 0 && (dump_all || (dump_mask >> v->event & 1) || dump_idx.count(ev))) {
    int64_t hd[4] = {0x47414e44, ev, (int64_t)nh, (int64_t)ns};
    raw_write(dump_fd, hd, sizeof hd); raw_write(dump_fd, v, sizeof *v); raw_write(dump_fd, buf, (nh + ns) * sizeof(double));
  }
  if (event_extra) event_extra(v);
  if (max_steps && v->Nsteps > max_steps && v->event == 4) sim_exit(201, "step-limit");
  if (nevents > 2000000) sim_exit(202, "event-limit");
}

// ---- API driving mode ---------------------------------------------------------------------------------------------
static void cb_snap(int call, int idx, const char* file, double t, const char* sp, int n, int nc, const double* const* cols, const char* const* names) {
  HostScope hs; uint64_t h = 1469598103934665603ull; double s[8] = {0};
  for (int c = 0; c < nc; c++) { h = hash_bytes(h, cols[c], n * sizeof(double)); for (int i = 0; i < n; i++) s[c] += cols[c][i]; }
  trace("snapobj call=%d idx=%d file=%s t=%.17g species=%s n=%d ncol=%d hash=%016lx", call, idx, file, t, sp, n, nc, h);
  if (dump_fd >= 0) { int64_t hd[4] = {0x534e4150, call * 1000 + idx, n, nc}; raw_write(dump_fd, hd, sizeof hd); char nm[64]; memset(nm, 0, 64); strncpy(nm, sp, 20); for (int c = 0; c < nc; c++) strncpy(nm + 24 + 8 * c, names[c], 7);
    raw_write(dump_fd, nm, 64); char fn[128]; memset(fn, 0, 128); strncpy(fn, file, 127); raw_write(dump_fd, fn, 128); raw_write(dump_fd, &t, 8); for (int c = 0; c < nc; c++) raw_write(dump_fd, cols[c], n * sizeof(double)); }
}
static void cb_call(int call, int op, int arg, double t, int Nsteps, int fin) { HostScope hs; trace("call %d op=%c arg=%d t=%.17g step=%d fin=%d cpu=%ld wall=%ld", call, op, arg, t, Nsteps, fin, (long)(cpu_ns[0] / 1000), (long)(wall_ns[0] / 1000)); }

typedef int (*main_fn)(int, char**);
int node_rc = 0;
void node_main(const string& image, int rank) {
  (void)rank; void* h; { HostScope hs; h = dlopen(image.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { trace("dlopen %s", dlerror()); sim_exit(98, "dlopen"); } }
  { HostScope hs; void* s = dlsym(h, "sim_main"); Dl_info di; if (s && dladdr(s, &di)) omp_image((uintptr_t)di.dli_fbase); }
  if (plan.s("mode", "main") == "drive") {
    typedef int (*dfn)(const char*, int, int, const char*, const int*, double, int, decltype(&cb_snap), decltype(&cb_call));
    dfn d = (dfn)dlsym(h, "probe_drive"); static string ops; static vector<int> args; { HostScope hs; for (auto& o : plan.ops) { ops += o[0]; args.push_back(atoi(o[1].c_str())); } }
    static string pf = plan.s("param");
    int n = d(pf.c_str(), (int)plan.i("restart"), (int)args.size(), ops.c_str(), args.data(), plan.f("dt_python", -1), (int)plan.i("max_calls", 100000), cb_snap, cb_call);
    { HostScope hs; trace("drive done calls=%d", n); sim_exit(0, "return"); }
  }
  main_fn m = (main_fn)dlsym(h, "sim_main"); if (!m) { HostScope hs; trace("no sim_main"); sim_exit(98, "dlsym"); }
  static thread_local char a0[] = "gandalf"; char* av[8]; int ac = 0;
  { HostScope hs; std::stringstream ss(plan.s("argv")); string t; av[ac++] = strdup("gandalf"); while (ss >> t && ac < 7) av[ac++] = strdup(t.c_str()); av[ac] = nullptr; } (void)a0;
  int rc = m(ac, av); node_rc = rc;
  if (plan.i("ranks", 1) == 1 || rank < 0) { HostScope hs; sim_exit(rc & 0xff, "return"); }
}
static void serial_entry(void*) { static string img = plan.s("image"); node_main(img, -1); }
static void* main_sp;

int main(int argc, char** argv) {
  host_depth = 1;
  if (argc < 2) return 99;
  if (getenv("GNODE_CPU")) { struct rlimit rl = {(rlim_t)atoi(getenv("GNODE_CPU")), (rlim_t)atoi(getenv("GNODE_CPU")) + 2}; setrlimit(RLIMIT_CPU, &rl); }
  { std::ifstream in(argv[1]); string line; while (std::getline(in, line)) { std::stringstream ss(line); string k; if (!(ss >> k) || k[0] == '#') continue; vector<string> v; string x;
      if (k == "fault" || k == "clk" || k == "op" || k == "stall") { while (ss >> x) v.push_back(x); (k == "fault" ? plan.faults : k == "clk" ? plan.clks : k == "op" ? plan.ops : plan.stalls).push_back(v); }
      else { std::getline(ss, x); size_t b = x.find_first_not_of(" \t"); plan.kv[k] = b == string::npos ? "" : x.substr(b); } } }
  trace_fd = (int)syscall(SYS_openat, AT_FDCWD, plan.s("trace").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644); if (trace_fd < 0) { perror("trace"); return 99; }
  trace_fd = fcntl(trace_fd, F_DUPFD, 900);
  if (!plan.s("dumpfile").empty()) { dump_fd = (int)syscall(SYS_openat, AT_FDCWD, plan.s("dumpfile").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644); dump_fd = fcntl(dump_fd, F_DUPFD, 910); }
  { std::stringstream ss(plan.s("dump")); string x; while (ss >> x) { if (x == "all") dump_all = true; else if (x[0] == 'c') dump_mask |= 1 << atoi(x.c_str() + 1); else dump_idx.insert(atol(x.c_str())); } }
  static const std::map<string, FK> FKN = {{"crash", F_CRASH}, {"torn", F_TORN}, {"enospc", F_ENOSPC}, {"eio", F_EIO}, {"short", F_SHORT}, {"eintr", F_EINTR}, {"openfail", F_OPENFAIL}, {"closefail", F_CLOSEFAIL}, {"readeio", F_READEIO}, {"readshort", F_READSHORT}, {"readeintr", F_READEINTR}, {"readopenfail", F_READOPENFAIL}, {"renamefail", F_RENAMEFAIL}, {"readeof", F_READEOF}};
  for (auto& f : plan.faults) { if (f.size() < 4 || !FKN.count(f[0])) { fprintf(stderr, "bad fault\n"); return 99; } Fault q; q.k = FKN.at(f[0]); q.from = atol(f[1].c_str()); q.to = atol(f[2].c_str()); q.arg = atol(f[3].c_str()); q.name = f[0]; faults.push_back(q); }
  for (auto& c : plan.clks) clk_ev.push_back({atol(c[0].c_str()), atoi(c[1].c_str()), atoll(c[2].c_str()), atoll(c[3].c_str())});
  disk_budget = plan.i("disk.budget", -1); max_steps = plan.i("max_steps", 0);
  clk_read_w = plan.i("clock.read_w", 1000); clk_read_c = plan.i("clock.read_c", 1000); clk_step_w = plan.i("clock.step_w", 1000000); clk_step_c = plan.i("clock.step_c", 1000000); clk_jit = plan.f("clock.jitter", 0); clk_rng = Rng(plan.i("clock.seed", 1));
  for (int r = 0; r < 64; r++) { wall_ns[r] = plan.i("clock.start", 1700000000) * 1000000000ll + 123456789; cpu_ns[r] = 5000000; rnd_state[r] = 1; string k = "clock.skew" + std::to_string(r); wall_ns[r] += plan.i(k.c_str(), 0); }
  heap_fill = (int)plan.i("heap.fill", 0); heap_gap = (int)plan.i("heap.gap", 0); heap_rng = plan.i("heap.seed", 1) * 2654435761ull + 1;
  arena = (char*)mmap((void*)0x600000000000ull, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (arena == MAP_FAILED) { perror("mmap arena"); return 99; }
  string cwd = plan.s("cwd"); if (chdir(cwd.c_str())) { perror("chdir"); return 99; }
  int so = (int)syscall(SYS_openat, AT_FDCWD, plan.s("stdout", "/dev/null").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644); if (so >= 0) { dup2(so, 1); if (so > 2) syscall(SYS_close, so); }
  std::ios::sync_with_stdio(true);
  stack_t ss; ss.ss_sp = malloc(1 << 16); ss.ss_size = 1 << 16; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER; for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGXCPU, SIGTERM}) sigaction(s, &sa, nullptr);
  atexit(on_atexit);
  // resolve everything lazily bound once, before arming
  for (const char* n : {"fopen", "fopen64", "fclose"}) real<void*>(n);
  sched_init(); omp_host_init();
  int ranks = (int)plan.i("ranks", 1);
  armed = true;
  if (ranks > 1 || plan.i("mpi", 0)) { int rc = mpi_main(plan.s("image"), ranks); sim_exit(rc, "return"); }
  Fiber* f = fiber_new(0, 0, 60u << 20, serial_entry, nullptr, 0); cur_fiber = f; sched_fibers.push_back(f); host_depth = 0;
  fiber_switch(&main_sp, f->sp);
  return 97;
}
