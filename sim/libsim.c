/* libsim: a deterministic user-land for one simulated dump_syms process.
 *
 * Preloaded into the real dump_syms program (built from /repo with every atomic operation
 * instrumented).  It owns every source of nondeterminism of the process:
 *   - threads: real pthreads, but exactly one runs at a time; who runs next is decided here, at
 *     every atomic operation, futex call, file/socket call, thread start/end;
 *   - time, randomness, cpu count, pid;
 *   - the file system: chrooted into a scratch directory (fd), with fault injection;
 *   - the network: sockets/epoll/eventfd and the HTTP servers behind them are simulated.
 * Everything is a function of the configuration file (fd 3).  The event log goes to fd 4.
 * Nothing here knows about the code under test.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <malloc.h>
#include <sys/auxv.h>
#include <signal.h>
#include <netdb.h>
#include <netinet/in.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef int64_t i64;
#define EXPORT __attribute__((visibility("default")))
#define MAXT 512
#define MAXFD 1024
#define NSEC 1000000000ull
#define NEVER (~0ull)

/* exit statuses of the simulator itself */
#define X_TIMELIMIT 95
#define X_DEADLOCK 96
#define X_CPU 94
#define X_LIVELOCK 97
#define X_HARNESS 98
#define X_CRASH 137

/* ------------------------------------------------------------------ raw syscalls */
static long rsys(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return r;
}
#define R(...) R_(__VA_ARGS__, 0, 0, 0, 0, 0, 0, 0)
#define R_(n, a, b, c, d, e, f, ...) \
  rsys(n, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))
static long ret(long r) {
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

/* ------------------------------------------------------------------ private memory */
static char *ar, *ar_end;
static void *salloc(size_t n) {
  n = (n + 15) & ~15ul;
  if (!ar) {
    size_t sz = 1ul << 32;
    ar = (char *)R(SYS_mmap, 0x600000000000ul, sz, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if ((long)ar < 0) { R(SYS_exit_group, X_HARNESS); }
    ar_end = ar + sz;
  }
  char *p = ar;
  ar += n;
  if (ar > ar_end) R(SYS_exit_group, X_HARNESS);
  return p;
}
static char *sdup(const char *s) { size_t n = strlen(s) + 1; return memcpy(salloc(n), s, n); }

/* ------------------------------------------------------------------ log */
static int logfd = -1, rootfd = -1, ctlfd = -1, notefd = -1;
static char logbuf[1 << 16];
static int loglen, loglevel = 1;
static void lflush(void) {
  int o = 0;
  while (o < loglen) {
    long r = R(SYS_write, logfd, logbuf + o, loglen - o);
    if (r <= 0) break;
    o += (int)r;
  }
  loglen = 0;
}
__attribute__((format(printf, 1, 2))) static void L(const char *fmt, ...) {
  char b[4600];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b - 1, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n++] = '\n';
  if (loglen + n > (int)sizeof logbuf) lflush();
  memcpy(logbuf + loglen, b, n);
  loglen += n;
}

/* ------------------------------------------------------------------ PRNG */
typedef struct { u64 s; } rng_t;
static u64 rnext(rng_t *r) {
  u64 z = (r->s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static u64 rbelow(rng_t *r, u64 n) { return n ? rnext(r) % n : 0; }

/* ------------------------------------------------------------------ configuration */
enum { M_NONE, M_RAND, M_PCT, M_REPLAY };
static int mode;
static u64 pa = 0, pio = 0, maxsteps = 20000000, maxtime = 36000 * NSEC;
static u64 clock0 = 1700000000ull * NSEC;
static int ncpu = 4, simpid = 100, pct_d = 3;
static u64 pct_len = 20000;
static rng_t srng, frng, erng, nrng;

typedef struct { int tid; u64 step; int target; } dec_t;
static dec_t *decs;
static int ndecs;
#define DH 65536
static int *dech;

/* faults */
enum { FK_ERR, FK_SHORT, FK_CRASH_BEFORE, FK_CRASH_AFTER, FK_CRASH_PART, FK_PAUSE_BEFORE, FK_PAUSE_AFTER, FK_PAUSE_PART };
static const char *fk_names[] = {"err", "short", "crash_before", "crash_after", "crash_part",
                                 "pause_before", "pause_after", "pause_part"};
typedef struct { char *op, *path; int nth, kind; i64 arg; int fired; } fault_t;
typedef struct { char *op, *prefix; int kind; i64 arg; u64 one_in; int left; } frule_t;
static fault_t *faults;
static int nfaults;
static frule_t frules[128];
static int nfrules;
typedef struct { char *prefix; i64 left; } quota_t;
static quota_t quotas[8];
static int nquotas;
static int evshuffle;

/* ------------------------------------------------------------------ threads */
enum { T_FREE, T_READY, T_RUN, T_FUTEX, T_EPOLL, T_JOIN, T_SLEEP, T_DONE };
static const char *tnames[] = {"free", "ready", "run", "futex", "epoll", "join", "sleep", "done"};
typedef struct dtor { void (*f)(void *); void *obj; struct dtor *next; } dtor_t;
typedef struct thr {
  int id, state, wake; /* wake: 0 woken, 1 timeout */
  u32 gate;
  u32 *faddr, fbits;
  u64 deadline, bseq, lstep, prio;
  void *ep;
  struct thr *joinee;
  pthread_t pt;
  void *(*fn)(void *);
  void *arg, *rv;
  dtor_t *dtors;
} thr_t;
static thr_t *T[MAXT];
static int nT;
static __thread thr_t *self __attribute__((tls_model("initial-exec")));
static u64 steps, now, switches, runlen, bseq, ihash = 1469598103934665603ull, nprio = 1, preempts;
static u64 pct_pts[64];
static int started;

static u64 mono(void) { return 1000 * NSEC + now; }

static void finish_log(const char *why) {
  if (logfd < 0) return;
  L("E %s steps=%llu time=%llu switches=%llu preempts=%llu threads=%d hash=%016llx", why, (unsigned long long)steps,
    (unsigned long long)now, (unsigned long long)switches, (unsigned long long)preempts, nT, (unsigned long long)ihash);
  lflush();
}
__attribute__((noreturn)) static void die(int code, const char *why) {
  L("H %s", why);
  for (int i = 0; i < nT; i++)
    if (T[i]->state != T_DONE) L("T %d %s lstep=%llu", i, tnames[T[i]->state], (unsigned long long)T[i]->lstep);
  finish_log(why);
  R(SYS_exit_group, code);
  for (;;) {}
}

static void gate_wait(thr_t *t) {
  while (__atomic_load_n(&t->gate, __ATOMIC_ACQUIRE) == 0) R(SYS_futex, &t->gate, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  __atomic_store_n(&t->gate, 0, __ATOMIC_RELAXED);
}
static void gate_open(thr_t *t) {
  __atomic_store_n(&t->gate, 1, __ATOMIC_RELEASE);
  R(SYS_futex, &t->gate, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

static void net_due(void);
static u64 net_next(void);

static void make_ready(thr_t *t, int wake) { t->state = T_READY; t->wake = wake; t->deadline = NEVER; t->faddr = 0; t->ep = 0; t->joinee = 0; }
static void timers_due(void) {
  for (int i = 0; i < nT; i++) {
    thr_t *t = T[i];
    if ((t->state == T_FUTEX || t->state == T_EPOLL || t->state == T_SLEEP) && t->deadline <= now) make_ready(t, 1);
  }
}
static void advance(u64 d) {
  now += d;
  if (net_next() <= now) net_due();
  timers_due();
}

static int dec_lookup(int tid, u64 st) {
  u32 h = (u32)((st * 1000003u + (u32)tid * 7919u) & (DH - 1));
  while (dech[h] >= 0) {
    dec_t *d = &decs[dech[h]];
    if (d->tid == tid && d->step == st) return d->target;
    h = (h + 1) & (DH - 1);
  }
  return -1;
}
static thr_t *next_ready(int from) {
  for (int k = 1; k <= nT; k++) {
    thr_t *t = T[(from + k) % nT];
    if (t->state == T_READY) return t;
  }
  return 0;
}
static int nready(void) { int n = 0; for (int i = 0; i < nT; i++) n += T[i]->state == T_READY; return n; }
static thr_t *kth_ready(int k) { for (int i = 0; i < nT; i++) if (T[i]->state == T_READY && k-- == 0) return T[i]; return 0; }
static thr_t *top_ready(void) {
  thr_t *b = 0;
  for (int i = 0; i < nT; i++) if (T[i]->state == T_READY && (!b || T[i]->prio > b->prio)) b = T[i];
  return b;
}
static void switch_to(thr_t *t) {
  /* self's state was already set by the caller */
  if (t == self) { t->state = T_RUN; return; }
  switches++;
  runlen = 0;
  ihash = (ihash ^ ((u64)t->id * 0x9e37 + self->lstep * 31 + (u64)self->id)) * 1099511628211ull;
  t->state = T_RUN;
  thr_t *me = self;
  gate_open(t);
  gate_wait(me);
}

/* kinds of scheduling points */
enum { P_ATOM, P_IO, P_YIELD };
static void sched_point(int kind) {
  thr_t *me = self;
  if (!me || !started) return;
  int e = errno;
  me->lstep++;
  steps++;
  runlen++;
  if (steps > maxsteps) die(X_LIVELOCK, "livelock");
  now += kind == P_ATOM ? 20 : 2000;
  if ((steps & 63) == 0 || kind != P_ATOM) {
    if (now > maxtime) die(X_TIMELIMIT, "timelimit");
    advance(0);
  }
  if (nT == 1) { errno = e; return; }
  if (kind == P_ATOM && runlen > 5000) kind = P_YIELD; /* starving others by spinning */
  thr_t *def = me, *t = me;
  if (kind == P_YIELD) { thr_t *n = next_ready(me->id); if (n) def = n; }
  t = def;
  switch (mode) {
    case M_REPLAY: {
      int x = dec_lookup(me->id, me->lstep);
      if (x >= 0 && x < nT && (x == me->id || T[x]->state == T_READY)) t = T[x];
      break;
    }
    case M_RAND: {
      u64 p = kind == P_ATOM ? pa : kind == P_IO ? pio : 1;
      if (p && rbelow(&srng, p) == 0) {
        int n = nready();
        if (n) t = kind == P_YIELD ? kth_ready((int)rbelow(&srng, n)) : kth_ready((int)rbelow(&srng, n));
      }
      break;
    }
    case M_PCT: {
      for (int i = 0; i < pct_d; i++) if (pct_pts[i] == steps) me->prio = --nprio;
      if (kind == P_YIELD) me->prio = --nprio;
      thr_t *b = top_ready();
      t = (b && (i64)b->prio > (i64)me->prio) ? b : me;
      break;
    }
  }
  if (t != def) L("S %d %llu %d", me->id, (unsigned long long)me->lstep, t->id);
  if (t != me) {
    preempts++;
    me->state = T_READY;
    switch_to(t);
  }
  errno = e;
}

/* current thread's state is a blocked one (or DONE); run somebody else */
static void block(void) {
  thr_t *me = self;
  me->lstep++;
  me->bseq = ++bseq;
  for (;;) {
    thr_t *def = next_ready(me->id), *t = def;
    if (def) {
      if (mode == M_REPLAY) {
        int x = dec_lookup(me->id, me->lstep);
        if (x >= 0 && x < nT && T[x]->state == T_READY) t = T[x];
      } else if (mode == M_RAND) t = kth_ready((int)rbelow(&srng, nready()));
      else if (mode == M_PCT) t = top_ready();
      if (t != def) L("S %d %llu %d", me->id, (unsigned long long)me->lstep, t->id);
      switch_to(t);
      return;
    }
    /* nobody can run: jump to the next event */
    u64 nx = net_next();
    for (int i = 0; i < nT; i++)
      if (T[i]->state != T_DONE && T[i]->deadline < nx && T[i]->state != T_READY && T[i]->state != T_RUN) nx = T[i]->deadline;
    if (nx == NEVER) die(X_DEADLOCK, "deadlock");
    if (nx > now) now = nx;
    if (now > maxtime) die(X_TIMELIMIT, "timelimit");
    advance(0);
  }
}
static void block_as(int st, u64 deadline) {
  self->state = st;
  self->deadline = deadline;
  self->wake = 0;
  block();
}

/* ------------------------------------------------------------------ instrumented atomics */
typedef unsigned char a8; typedef unsigned short a16; typedef unsigned int a32; typedef unsigned long a64;
#define PT sched_point(P_ATOM)
#define SC __ATOMIC_SEQ_CST
#define ATOMICS(N) \
EXPORT a##N __tsan_atomic##N##_load(const volatile a##N *p, int mo) { PT; return __atomic_load_n(p, SC); } \
EXPORT void __tsan_atomic##N##_store(volatile a##N *p, a##N v, int mo) { PT; __atomic_store_n(p, v, SC); } \
EXPORT a##N __tsan_atomic##N##_exchange(volatile a##N *p, a##N v, int mo) { PT; return __atomic_exchange_n(p, v, SC); } \
EXPORT a##N __tsan_atomic##N##_fetch_add(volatile a##N *p, a##N v, int mo) { PT; return __atomic_fetch_add(p, v, SC); } \
EXPORT a##N __tsan_atomic##N##_fetch_sub(volatile a##N *p, a##N v, int mo) { PT; return __atomic_fetch_sub(p, v, SC); } \
EXPORT a##N __tsan_atomic##N##_fetch_and(volatile a##N *p, a##N v, int mo) { PT; return __atomic_fetch_and(p, v, SC); } \
EXPORT a##N __tsan_atomic##N##_fetch_or(volatile a##N *p, a##N v, int mo) { PT; return __atomic_fetch_or(p, v, SC); } \
EXPORT a##N __tsan_atomic##N##_fetch_xor(volatile a##N *p, a##N v, int mo) { PT; return __atomic_fetch_xor(p, v, SC); } \
EXPORT a##N __tsan_atomic##N##_fetch_nand(volatile a##N *p, a##N v, int mo) { PT; return __atomic_fetch_nand(p, v, SC); } \
EXPORT int __tsan_atomic##N##_compare_exchange_strong(volatile a##N *p, a##N *c, a##N v, int mo, int fmo) { PT; return __atomic_compare_exchange_n(p, c, v, 0, SC, SC); } \
EXPORT int __tsan_atomic##N##_compare_exchange_weak(volatile a##N *p, a##N *c, a##N v, int mo, int fmo) { PT; return __atomic_compare_exchange_n(p, c, v, 0, SC, SC); } \
EXPORT a##N __tsan_atomic##N##_compare_exchange_val(volatile a##N *p, a##N c, a##N v, int mo, int fmo) { PT; __atomic_compare_exchange_n(p, &c, v, 0, SC, SC); return c; }
ATOMICS(8) ATOMICS(16) ATOMICS(32) ATOMICS(64)
EXPORT void __tsan_atomic_thread_fence(int mo) { PT; }
EXPORT void __tsan_atomic_signal_fence(int mo) {}
EXPORT void __tsan_init(void) {}
EXPORT void __tsan_func_entry(void *p) {}
EXPORT void __tsan_func_exit(void) {}
EXPORT void __tsan_vptr_update(void **a, void *b) {}
EXPORT void __tsan_vptr_read(void **a) {}
#define RW(N) EXPORT void __tsan_read##N(void *p) {} EXPORT void __tsan_write##N(void *p) {} EXPORT void __tsan_unaligned_read##N(void *p) {} EXPORT void __tsan_unaligned_write##N(void *p) {}
RW(1) RW(2) RW(4) RW(8) RW(16)

/* ------------------------------------------------------------------ futex */
static long sim_futex(u32 *addr, int op, u32 val, const struct timespec *ts, u32 val3) {
  int cmd = op & FUTEX_CMD_MASK;
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    u32 bits = cmd == FUTEX_WAKE ? ~0u : val3;
    long n = 0;
    while (n < (long)val) {
      thr_t *b = 0;
      for (int i = 0; i < nT; i++)
        if (T[i]->state == T_FUTEX && T[i]->faddr == addr && (T[i]->fbits & bits) && (!b || T[i]->bseq < b->bseq)) b = T[i];
      if (!b) break;
      make_ready(b, 0);
      n++;
    }
    sched_point(P_IO);
    return n;
  }
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    sched_point(P_ATOM);
    if (__atomic_load_n(addr, SC) != val) return -EAGAIN;
    u64 dl = NEVER;
    if (ts) {
      u64 v = (u64)ts->tv_sec * NSEC + (u64)ts->tv_nsec;
      if (cmd == FUTEX_WAIT) dl = now + v;
      else { u64 base = (op & FUTEX_CLOCK_REALTIME) ? clock0 + now : mono(); dl = v <= base ? now : now + (v - base); }
      if (ts->tv_sec < 0) dl = now;
    }
    self->faddr = addr;
    self->fbits = cmd == FUTEX_WAIT ? ~0u : val3;
    block_as(T_FUTEX, dl);
    return self->wake ? -ETIMEDOUT : 0;
  }
  L("U futex op %d", op);
  die(X_HARNESS, "unsupported futex operation");
}

/* ------------------------------------------------------------------ faults on operations */
typedef struct cnt { char *op, *path; int n; struct cnt *next; } cnt_t;
static cnt_t *cnts[4096];
static u64 ioidx;
static int op_count(const char *op, const char *path) {
  u32 h = 5381;
  for (const char *p = op; *p; p++) h = h * 33 + (unsigned char)*p;
  for (const char *p = path; *p; p++) h = h * 33 + (unsigned char)*p;
  h &= 4095;
  for (cnt_t *c = cnts[h]; c; c = c->next)
    if (!strcmp(c->op, op) && !strcmp(c->path, path)) return ++c->n;
  cnt_t *c = salloc(sizeof *c);
  c->op = sdup(op); c->path = sdup(path); c->n = 1; c->next = cnts[h];
  cnts[h] = c;
  return 1;
}
typedef struct { int on, kind; i64 arg; } fi_t;
static void do_crash(void) { finish_log("crash"); R(SYS_exit_group, X_CRASH); }
static void do_pause(void) {
  lflush();
  char c = 'P';
  R(SYS_write, notefd, &c, 1);
  long r;
  do r = R(SYS_read, ctlfd, &c, 1); while (r == -EINTR);
  if (r != 1) do_crash(); /* driver went away or chose to kill the process here */
}
static int opmatch(const char *pat, const char *op) { return !strcmp(pat, "*") || !strcmp(pat, op); }
/* paths as they are named in the log and in fault specifications: no blanks, no control characters, no raw bytes */
static const char *plain(const char *path, char *b, size_t cap) {
  const unsigned char *p = (const unsigned char *)path;
  while (*p > 32 && *p < 127) p++;
  if (!*p) return path;
  size_t n = 0;
  for (p = (const unsigned char *)path; *p && n + 4 < cap; p++) {
    if (*p > 32 && *p < 127) b[n++] = *p;
    else { b[n++] = '%'; b[n++] = "0123456789abcdef"[*p >> 4]; b[n++] = "0123456789abcdef"[*p & 15]; }
  }
  b[n] = 0;
  return b;
}
static fi_t fault_at(const char *op, const char *path, long len) {
  char pb[4096];
  path = plain(path, pb, sizeof pb);
  fi_t f = {0, 0, 0};
  int nth = op_count(op, path);
  ioidx++;
  ihash = (ihash ^ (u64)(op[0] * 7 + op[1] + self->id)) * 1099511628211ull;
  if (loglevel) L("O %d %s %s %d %ld", self->id, op, path, nth, len);
  for (int i = 0; i < nfaults; i++) {
    fault_t *x = &faults[i];
    if (x->nth == nth && !strcmp(x->op, op) && !strcmp(x->path, path)) {
      f.on = 1; f.kind = x->kind; f.arg = x->arg;
      x->fired = 1;
      break;
    }
  }
  if (!f.on)
    for (int i = 0; i < nfrules; i++) {
      frule_t *x = &frules[i];
      if (x->left == 0 || !opmatch(x->op, op) || strncmp(path, x->prefix, strlen(x->prefix))) continue;
      int part = x->kind == FK_SHORT || x->kind == FK_PAUSE_PART || x->kind == FK_CRASH_PART;
      if (part && len <= 1) continue;
      if (rbelow(&frng, x->one_in) == 0) {
        if (x->left > 0) x->left--;
        f.on = 1; f.kind = x->kind;
        f.arg = x->arg;
        if (part && x->arg < 0) { /* random length */
          u64 r = rnext(&frng);
          f.arg = (r & 3) == 0 ? 1 : (r & 3) == 1 ? len - 1 : 1 + (i64)((r >> 8) % (u64)(len - 1));
        }
        break;
      }
    }
  if (f.on) {
    L("F %s %s %d %s %lld", op, path, nth, fk_names[f.kind], (long long)f.arg);
    if (f.kind == FK_CRASH_BEFORE) do_crash();
    if (f.kind == FK_PAUSE_BEFORE) { do_pause(); f.on = 0; }
  }
  return f;
}
/* for operations other than read/write: returns -errno to inject or 0 */
static long fault_simple(const char *op, const char *path, fi_t *out) {
  *out = fault_at(op, path, 0);
  if (out->on && out->kind == FK_ERR) return -out->arg;
  return 0;
}
static void fault_post(fi_t *f) {
  if (!f->on) return;
  if (f->kind == FK_CRASH_AFTER || f->kind == FK_CRASH_PART) do_crash();
  if (f->kind == FK_PAUSE_AFTER || f->kind == FK_PAUSE_PART) { f->on = 0; do_pause(); }
}

/* ------------------------------------------------------------------ file descriptors */
enum { K_NONE, K_FILE, K_STD, K_EVENT, K_EPOLL, K_SOCK };
typedef struct obj obj_t;
typedef struct { int kind; char *path; obj_t *o; int writable; } fdent_t;
static fdent_t F[MAXFD];
static char vcwd[1024] = "/w";

static int vpath(int dirfd, const char *p, char *out) {
  char tmp[4096];
  if (!p) return -EFAULT;
  if (p[0] == '/') snprintf(tmp, sizeof tmp, "%s", p);
  else if (dirfd == AT_FDCWD) snprintf(tmp, sizeof tmp, "%s/%s", vcwd, p);
  else if (dirfd >= 0 && dirfd < MAXFD && F[dirfd].kind == K_FILE) snprintf(tmp, sizeof tmp, "%s/%s", F[dirfd].path, p);
  else return -EBADF;
  if (!p[0]) return -ENOENT;
  /* lexical normalisation; ".." stops at the root */
  int n = 0;
  char *s = tmp;
  out[0] = 0;
  while (*s) {
    while (*s == '/') s++;
    if (!*s) break;
    char *e = s;
    while (*e && *e != '/') e++;
    int l = (int)(e - s);
    if (l == 1 && s[0] == '.') {}
    else if (l == 2 && s[0] == '.' && s[1] == '.') { while (n > 0 && out[n - 1] != '/') n--; if (n > 0) n--; out[n] = 0; }
    else {
      if (l > 255) return -ENAMETOOLONG;
      if (n + l + 2 > 4000) return -ENAMETOOLONG;
      out[n++] = '/'; memcpy(out + n, s, l); n += l; out[n] = 0;
    }
    s = e;
  }
  if (!n) { out[0] = '/'; out[1] = 0; }
  return 0;
}
static const char *rel(const char *v) { return v[1] ? v + 1 : "."; }
#define VP(dfd, p) char v[4096]; { int e_ = vpath(dfd, p, v); if (e_) { errno = -e_; return -1; } }

static void fd_set_ent(int fd, int kind, const char *path, obj_t *o, int writable) {
  if (fd < 0) return;
  if (fd >= MAXFD) die(X_HARNESS, "too many fds");
  F[fd].kind = kind; F[fd].path = path ? sdup(path) : 0; F[fd].o = o; F[fd].writable = writable;
}

/* files carry simulated times: written ones the time of the write, the others what the driver gave them */
static void stamp(int fd) {
  struct timespec ts[2];
  ts[0].tv_sec = (time_t)((clock0 + now) / NSEC); ts[0].tv_nsec = (long)((clock0 + now) % NSEC); ts[1] = ts[0];
  R(SYS_utimensat, fd, 0, ts, 0);
}
static void fix_stat(struct stat *st) {
  if (!S_ISREG(st->st_mode)) { st->st_mtim.tv_sec = 1600000000; st->st_mtim.tv_nsec = 0; }
  st->st_ctim = st->st_atim = st->st_mtim;
}
static void fix_statx(struct statx *st) {
  if (!S_ISREG(st->stx_mode)) { st->stx_mtime.tv_sec = 1600000000; st->stx_mtime.tv_nsec = 0; }
  st->stx_ctime = st->stx_atime = st->stx_btime = st->stx_mtime;
}

static long do_open(int dfd, const char *p, int flags, int mode_) {
  if (!started) return ret(R(SYS_openat, dfd, p, flags, mode_));
  sched_point(P_IO);
  if (p && (!strcmp(p, "/dev/null"))) {
    long r = R(SYS_openat, AT_FDCWD, p, flags, mode_);
    if (r >= 0) fd_set_ent((int)r, K_FILE, p, 0, 1);
    return ret(r);
  }
  VP(dfd, p);
  int w = (flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT);
  const char *op = w ? "create" : "open";
  fi_t f;
  long r = fault_simple(op, v, &f);
  if (!r) {
    r = R(SYS_openat, rootfd, rel(v), flags | O_CLOEXEC, mode_);
    if (r >= 0) fd_set_ent((int)r, K_FILE, v, 0, w);
    if (r >= 0 && (flags & (O_CREAT | O_TRUNC))) {
      struct stat st;
      if (R(SYS_fstat, r, &st) == 0 && S_ISREG(st.st_mode) && st.st_size == 0) stamp((int)r);
    }
  }
  fault_post(&f);
  return ret(r);
}
static int open_mode(int flags, va_list ap) { return (flags & (O_CREAT | __O_TMPFILE)) ? va_arg(ap, int) : 0; }
#define OPENV(p, dfd) va_list ap; va_start(ap, flags); int m = open_mode(flags, ap); va_end(ap); return (int)do_open(dfd, p, flags, m);
EXPORT int open(const char *p, int flags, ...) { OPENV(p, AT_FDCWD) }
EXPORT int open64(const char *p, int flags, ...) { OPENV(p, AT_FDCWD) }
EXPORT int openat(int d, const char *p, int flags, ...) { OPENV(p, d) }
EXPORT int openat64(int d, const char *p, int flags, ...) { OPENV(p, d) }
EXPORT int creat(const char *p, mode_t m) { return (int)do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int creat64(const char *p, mode_t m) { return (int)do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static void obj_unref(obj_t *o);
static obj_t *obj_ref(obj_t *o);
EXPORT int close(int fd) {
  if (started && fd >= 0 && fd < MAXFD) {
    sched_point(P_IO);
    if (F[fd].kind == K_FILE) {
      fi_t f = fault_at("close", F[fd].path, 0);
      long r = R(SYS_close, fd);
      F[fd].kind = K_NONE;
      fault_post(&f);
      return (int)ret(r);
    }
    if (F[fd].o) obj_unref(F[fd].o);
    F[fd].kind = K_NONE; F[fd].o = 0;
  }
  return (int)ret(R(SYS_close, fd));
}

/* sockets & eventfds */
static long obj_read(int fd, obj_t *o, char *b, size_t n);
static long obj_write(int fd, obj_t *o, const char *b, size_t n);

static int errfaults; /* a fault is wanted on standard error */
static quota_t *quota_for(const char *p) {
  for (int i = 0; i < nquotas; i++) if (!strncmp(p, quotas[i].prefix, strlen(quotas[i].prefix))) return &quotas[i];
  return 0;
}
/* generic file transfer: sys is pread/pwrite/read/write over one buffer */
static long xfer(int fd, char *b, size_t n, int isw, i64 off) {
  fdent_t *e = &F[fd];
  const char *op = isw ? "write" : "read";
  int iserr = e->kind == K_STD && fd == 2;
  sched_point(P_IO);
  if (iserr && !errfaults) return R(SYS_write, fd, b, n);
  fi_t f = fault_at(op, e->path, (long)n);
  if (f.on) {
    if (f.kind == FK_ERR) return -f.arg;
    if ((f.kind == FK_SHORT || f.kind == FK_CRASH_PART || f.kind == FK_PAUSE_PART) && n > 0) {
      size_t k = f.arg < 0 ? 0 : (size_t)f.arg;
      if (f.kind == FK_SHORT && k < 1) k = 1;
      if (f.kind == FK_PAUSE_PART && k < 1) k = 1;
      if (k < n) n = k;
    }
  }
  if (isw) {
    quota_t *q = quota_for(e->path);
    if (q && n) {
      if (q->left <= 0) { char pb[4096]; L("F %s %s 0 quota 0", op, plain(e->path, pb, sizeof pb)); return -ENOSPC; }
      if ((i64)n > q->left) n = (size_t)q->left;
      q->left -= (i64)n;
    }
  }
  long r;
  if (isw) r = n == 0 && f.on ? 0 : off >= 0 ? R(SYS_pwrite64, fd, b, n, off) : R(SYS_write, fd, b, n);
  else r = off >= 0 ? R(SYS_pread64, fd, b, n, off) : R(SYS_read, fd, b, n);
  if (isw && r > 0 && e->kind == K_FILE && e->path[0] == '/' && strcmp(e->path, "/dev/null")) stamp(fd);
  fault_post(&f);
  return r;
}
static int known(int fd) { return started && self && fd >= 0 && fd < MAXFD && F[fd].kind != K_NONE; }
EXPORT ssize_t read(int fd, void *b, size_t n) {
  if (!known(fd)) return ret(R(SYS_read, fd, b, n));
  if (F[fd].o) return ret(obj_read(fd, F[fd].o, b, n));
  return ret(xfer(fd, b, n, 0, -1));
}
EXPORT ssize_t write(int fd, const void *b, size_t n) {
  if (!known(fd)) return ret(R(SYS_write, fd, b, n));
  if (F[fd].o) return ret(obj_write(fd, F[fd].o, b, n));
  return ret(xfer(fd, (char *)b, n, 1, -1));
}
EXPORT ssize_t pread64(int fd, void *b, size_t n, off_t o) { if (!known(fd)) return ret(R(SYS_pread64, fd, b, n, o)); return ret(xfer(fd, b, n, 0, o)); }
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { if (!known(fd)) return ret(R(SYS_pwrite64, fd, b, n, o)); return ret(xfer(fd, (char *)b, n, 1, o)); }
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
static ssize_t vec(int fd, const struct iovec *iov, int c, int isw) {
  /* transferred like one operation on the first non-empty buffers: gather into one buffer */
  size_t tot = 0;
  for (int i = 0; i < c; i++) tot += iov[i].iov_len;
  if (tot > (1u << 21)) tot = 1u << 21;
  size_t o = 0;
  /* the buffer is private to the caller between scheduling points: copy after scheduling */
  char *buf = salloc(tot + 1);
  char *mark = ar;
  if (isw) for (int i = 0; i < c && o < tot; i++) { size_t k = iov[i].iov_len; if (k > tot - o) k = tot - o; memcpy(buf + o, iov[i].iov_base, k); o += k; }
  long r = isw ? (F[fd].o ? obj_write(fd, F[fd].o, buf, tot) : xfer(fd, buf, tot, 1, -1))
               : (F[fd].o ? obj_read(fd, F[fd].o, buf, tot) : xfer(fd, buf, tot, 0, -1));
  if (!isw && r > 0) { o = 0; for (int i = 0; i < c && o < (size_t)r; i++) { size_t k = iov[i].iov_len; if (k > (size_t)r - o) k = (size_t)r - o; memcpy(iov[i].iov_base, buf + o, k); o += k; } }
  if (ar == mark) ar = buf;
  return ret(r);
}
EXPORT ssize_t writev(int fd, const struct iovec *iov, int c) { if (!known(fd)) return ret(R(SYS_writev, fd, iov, c)); return vec(fd, iov, c, 1); }
EXPORT ssize_t readv(int fd, const struct iovec *iov, int c) { if (!known(fd)) return ret(R(SYS_readv, fd, iov, c)); return vec(fd, iov, c, 0); }
EXPORT off_t lseek64(int fd, off_t o, int w) { return ret(R(SYS_lseek, fd, o, w)); }
EXPORT off_t lseek(int fd, off_t o, int w) { return ret(R(SYS_lseek, fd, o, w)); }
EXPORT int fsync(int fd) {
  if (!known(fd) || F[fd].kind != K_FILE) return (int)ret(R(SYS_fsync, fd));
  sched_point(P_IO);
  fi_t f; long r = fault_simple("fsync", F[fd].path, &f);
  fault_post(&f);
  return (int)ret(r);
}
EXPORT int fdatasync(int fd) { return fsync(fd); }
EXPORT int ftruncate64(int fd, off_t n) {
  if (!known(fd)) return (int)ret(R(SYS_ftruncate, fd, n));
  sched_point(P_IO);
  fi_t f; long r = fault_simple("truncate", F[fd].path ? F[fd].path : "?", &f);
  if (!r) r = R(SYS_ftruncate, fd, n);
  if (!r) stamp(fd);
  fault_post(&f);
  return (int)ret(r);
}
EXPORT int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
EXPORT ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { errno = ENOSYS; return -1; }
EXPORT ssize_t sendfile64(int a, int b, off64_t *c, size_t d) { errno = EINVAL; return -1; }
EXPORT ssize_t sendfile(int a, int b, off_t *c, size_t d) { errno = EINVAL; return -1; }
EXPORT ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { errno = EINVAL; return -1; }

static long do_stat(int dfd, const char *p, struct stat *st, int flags) {
  if (!started) return ret(R(SYS_newfstatat, dfd, p, st, flags));
  if (p && !p[0] && (flags & AT_EMPTY_PATH)) { long q = R(SYS_fstat, dfd, st); if (!q) fix_stat(st); return ret(q); }
  if (p && !strcmp(p, "/dev/null")) return ret(R(SYS_newfstatat, AT_FDCWD, p, st, flags));
  sched_point(P_IO);
  VP(dfd, p);
  fi_t f; long r = fault_simple("stat", v, &f);
  if (!r) r = R(SYS_newfstatat, rootfd, rel(v), st, flags);
  if (!r) fix_stat(st);
  fault_post(&f);
  return ret(r);
}
EXPORT int stat64(const char *p, struct stat64 *s) { return (int)do_stat(AT_FDCWD, p, (struct stat *)s, 0); }
EXPORT int lstat64(const char *p, struct stat64 *s) { return (int)do_stat(AT_FDCWD, p, (struct stat *)s, AT_SYMLINK_NOFOLLOW); }
EXPORT int stat(const char *p, struct stat *s) { return (int)do_stat(AT_FDCWD, p, s, 0); }
EXPORT int lstat(const char *p, struct stat *s) { return (int)do_stat(AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW); }
EXPORT int fstatat64(int d, const char *p, struct stat64 *s, int f) { return (int)do_stat(d, p, (struct stat *)s, f); }
EXPORT int fstatat(int d, const char *p, struct stat *s, int f) { return (int)do_stat(d, p, s, f); }
EXPORT int fstat(int fd, struct stat *s) { long r = R(SYS_fstat, fd, s); if (!r && started) fix_stat(s); return (int)ret(r); }
EXPORT int fstat64(int fd, struct stat64 *s) { return fstat(fd, (struct stat *)s); }
EXPORT int statx(int dfd, const char *restrict p0, int flags, unsigned mask, struct statx *restrict st) {
  const char *volatile pv = p0; /* std probes with a null path; the header says it cannot be null */
  const char *p = pv;
  if (!started || !p) return (int)ret(R(SYS_statx, dfd, p, flags, mask, st));
  if (!p[0] && (flags & AT_EMPTY_PATH)) { long q = R(SYS_statx, dfd, p, flags, mask, st); if (!q) fix_statx(st); return (int)ret(q); }
  if (!strcmp(p, "/dev/null")) return (int)ret(R(SYS_statx, AT_FDCWD, p, flags, mask, st));
  sched_point(P_IO);
  VP(dfd, p);
  fi_t f; long r = fault_simple("stat", v, &f);
  if (!r) r = R(SYS_statx, rootfd, rel(v), flags, mask, st);
  if (!r) fix_statx(st);
  fault_post(&f);
  return (int)ret(r);
}
#define SIMPLE(name, opn, call) do { if (!started) { errno = ENOSYS; return -1; } sched_point(P_IO); fi_t f; long r = fault_simple(opn, v, &f); if (!r) r = call; fault_post(&f); return (int)ret(r); } while (0)
EXPORT int access(const char *p, int m) { VP(AT_FDCWD, p); SIMPLE(access, "stat", R(SYS_faccessat, rootfd, rel(v), m)); }
EXPORT int faccessat(int d, const char *p, int m, int fl) { VP(d, p); SIMPLE(access, "stat", R(SYS_faccessat, rootfd, rel(v), m)); }
EXPORT int mkdir(const char *p, mode_t m) { VP(AT_FDCWD, p); SIMPLE(mkdir, "mkdir", R(SYS_mkdirat, rootfd, rel(v), m)); }
EXPORT int mkdirat(int d, const char *p, mode_t m) { VP(d, p); SIMPLE(mkdir, "mkdir", R(SYS_mkdirat, rootfd, rel(v), m)); }
EXPORT int rmdir(const char *p) { VP(AT_FDCWD, p); SIMPLE(rmdir, "unlink", R(SYS_unlinkat, rootfd, rel(v), AT_REMOVEDIR)); }
EXPORT int unlink(const char *p) { VP(AT_FDCWD, p); SIMPLE(unlink, "unlink", R(SYS_unlinkat, rootfd, rel(v), 0)); }
EXPORT int unlinkat(int d, const char *p, int fl) { VP(d, p); SIMPLE(unlink, "unlink", R(SYS_unlinkat, rootfd, rel(v), fl)); }
static int do_rename(int d1, const char *a, int d2, const char *b, unsigned fl) {
  char v2[4096]; int e = vpath(d1, a, v2); if (e) { errno = -e; return -1; }
  VP(d2, b);
  SIMPLE(rename, "rename", R(SYS_renameat2, rootfd, rel(v2), rootfd, rel(v), fl));
}
EXPORT int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
EXPORT int renameat(int x, const char *a, int y, const char *b) { return do_rename(x, a, y, b, 0); }
EXPORT int renameat2(int x, const char *a, int y, const char *b, unsigned f) { return do_rename(x, a, y, b, f); }
static int do_link(int d1, const char *a, int d2, const char *b) {
  char v2[4096]; int e = vpath(d1, a, v2); if (e) { errno = -e; return -1; }
  VP(d2, b);
  SIMPLE(link, "link", R(SYS_linkat, rootfd, rel(v2), rootfd, rel(v), 0));
}
EXPORT int link(const char *a, const char *b) { return do_link(AT_FDCWD, a, AT_FDCWD, b); }
EXPORT int linkat(int x, const char *a, int y, const char *b, int f) { return do_link(x, a, y, b); }
EXPORT int symlink(const char *t, const char *p) { VP(AT_FDCWD, p); if (t[0] == '/') { errno = EPERM; return -1; } SIMPLE(symlink, "link", R(SYS_symlinkat, t, rootfd, rel(v))); }
EXPORT int symlinkat(const char *t, int d, const char *p) { VP(d, p); if (t[0] == '/') { errno = EPERM; return -1; } SIMPLE(symlink, "link", R(SYS_symlinkat, t, rootfd, rel(v))); }
EXPORT int chmod(const char *p, mode_t m) { VP(AT_FDCWD, p); SIMPLE(chmod, "chmod", R(SYS_fchmodat, rootfd, rel(v), m)); }
EXPORT int fchmodat(int d, const char *p, mode_t m, int fl) { VP(d, p); SIMPLE(chmod, "chmod", R(SYS_fchmodat, rootfd, rel(v), m)); }
EXPORT int chown(const char *p, uid_t a, gid_t b) { errno = EPERM; return -1; }
EXPORT int truncate64(const char *p, off_t n) { int fd = (int)do_open(AT_FDCWD, p, O_WRONLY, 0); if (fd < 0) return -1; int r = ftruncate64(fd, n); close(fd); return r; }
EXPORT int truncate(const char *p, off_t n) { return truncate64(p, n); }
static void set_times(const struct timespec t[2], struct timespec o[2]) {
  for (int i = 0; i < 2; i++) {
    if (t) o[i] = t[i];
    if (!t || o[i].tv_nsec == UTIME_NOW) { o[i].tv_sec = (time_t)((clock0 + now) / NSEC); o[i].tv_nsec = (long)((clock0 + now) % NSEC); }
  }
}
EXPORT int futimens(int fd, const struct timespec t[2]) {
  struct timespec o[2];
  if (!known(fd) || F[fd].kind != K_FILE) return 0;
  set_times(t, o);
  return (int)ret(R(SYS_utimensat, fd, 0, o, 0));
}
EXPORT int utimensat(int d, const char *p, const struct timespec t[2], int fl) {
  struct timespec o[2];
  if (!p) return futimens(d, t);
  set_times(t, o);
  VP(d, p); SIMPLE(utime, "utime", R(SYS_utimensat, rootfd, rel(v), o, fl));
}
EXPORT ssize_t readlinkat(int d, const char *p, char *b, size_t n) {
  VP(d, p);
  if (!started) { errno = ENOSYS; return -1; }
  sched_point(P_IO);
  fi_t f; long r = fault_simple("readlink", v, &f);
  if (!r) r = R(SYS_readlinkat, rootfd, rel(v), b, n);
  fault_post(&f);
  return ret(r);
}
EXPORT ssize_t readlink(const char *p, char *b, size_t n) { return readlinkat(AT_FDCWD, p, b, n); }
EXPORT char *getcwd(char *b, size_t n) {
  if (!b) return strdup(vcwd);
  if (strlen(vcwd) + 1 > n) { errno = ERANGE; return 0; }
  return strcpy(b, vcwd);
}
EXPORT int chdir(const char *p) { VP(AT_FDCWD, p); struct stat st; if (do_stat(AT_FDCWD, v, &st, 0)) return -1; snprintf(vcwd, sizeof vcwd, "%s", v); return 0; }
EXPORT char *realpath(const char *p, char *out) {
  char cur[4096], todo[8192], in[4096];
  if (!started || !p) { errno = EINVAL; return 0; }
  sched_point(P_IO);
  if (p[0] == '/') snprintf(in, sizeof in, "%s", p); else snprintf(in, sizeof in, "%s/%s", vcwd, p);
  if (!p[0]) { errno = ENOENT; return 0; }
  char vn[4096];
  if (vpath(AT_FDCWD, p, vn)) { errno = ENAMETOOLONG; return 0; }
  fi_t f; long r = fault_simple("realpath", vn, &f);
  fault_post(&f);
  if (r) { errno = (int)-r; return 0; }
  snprintf(todo, sizeof todo, "%s", in);
  cur[0] = 0;
  int hops = 0;
  char *s = todo;
  while (*s) {
    while (*s == '/') s++;
    if (!*s) break;
    char *e = s;
    while (*e && *e != '/') e++;
    int l = (int)(e - s);
    char comp[300];
    if (l > 255) { errno = ENAMETOOLONG; return 0; }
    memcpy(comp, s, l); comp[l] = 0;
    s = e;
    int n = (int)strlen(cur);
    if (!strcmp(comp, ".")) continue;
    if (!strcmp(comp, "..")) { while (n > 0 && cur[n - 1] != '/') n--; if (n > 0) n--; cur[n] = 0; continue; }
    if (n + l + 2 > 4000) { errno = ENAMETOOLONG; return 0; }
    cur[n] = '/'; memcpy(cur + n + 1, comp, l + 1);
    struct stat st;
    r = R(SYS_newfstatat, rootfd, cur + 1, &st, AT_SYMLINK_NOFOLLOW);
    if (r < 0) { errno = (int)-r; return 0; }
    if (S_ISLNK(st.st_mode)) {
      char lk[1024];
      long k = R(SYS_readlinkat, rootfd, cur + 1, lk, sizeof lk - 1);
      if (k < 0 || ++hops > 40) { errno = ELOOP; return 0; }
      lk[k] = 0;
      char rest[8192];
      snprintf(rest, sizeof rest, "%s/%s", lk, s);
      snprintf(todo, sizeof todo, "%s", rest);
      s = todo;
      if (lk[0] == '/') cur[0] = 0; else cur[n] = 0;
    } else if (!S_ISDIR(st.st_mode) && *s) { errno = ENOTDIR; return 0; }
  }
  if (!cur[0]) strcpy(cur, "/");
  if (out) return strcpy(out, cur);
  return strdup(cur);
}
EXPORT char *canonicalize_file_name(const char *p) { return realpath(p, 0); }
EXPORT DIR *opendir(const char *p) {
  static DIR *(*rfdo)(int);
  if (!rfdo) rfdo = dlsym(RTLD_NEXT, "fdopendir");
  int fd = (int)do_open(AT_FDCWD, p, O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0);
  if (fd < 0) return 0;
  return rfdo(fd);
}
EXPORT int closedir(DIR *d) {
  static int (*rcd)(DIR *);
  if (!rcd) rcd = dlsym(RTLD_NEXT, "closedir");
  int fd = dirfd(d);
  if (fd >= 0 && fd < MAXFD) F[fd].kind = K_NONE;
  return rcd(d);
}
EXPORT int flock(int fd, int op) { return 0; }
EXPORT int statfs64(const char *p, void *b) { errno = ENOSYS; return -1; }

/* ------------------------------------------------------------------ misc process state */
EXPORT ssize_t getrandom(void *b, size_t n, unsigned fl) {
  unsigned char *c = b;
  for (size_t i = 0; i < n; i++) c[i] = (unsigned char)(rnext(&erng) >> 24);
  return (ssize_t)n;
}
EXPORT int getentropy(void *b, size_t n) { getrandom(b, n, 0); return 0; }
EXPORT pid_t getpid(void) { return simpid; }
EXPORT pid_t gettid(void) { return simpid + (self ? self->id : 0); }
EXPORT int isatty(int fd) { errno = ENOTTY; return 0; }
EXPORT int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) {
  memset(s, 0, n);
  for (int i = 0; i < ncpu; i++) CPU_SET_S(i, n, s);
  return 0;
}
EXPORT long sysconf(int name) {
  static long (*real)(int);
  if (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF) return ncpu;
  if (!real) real = dlsym(RTLD_NEXT, "sysconf");
  return real(name);
}
EXPORT int sched_yield(void) { sched_point(P_YIELD); return 0; }
EXPORT int clock_gettime(clockid_t id, struct timespec *ts) {
  if (started && self) now += 100;
  u64 v = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI) ? clock0 + now : mono();
  ts->tv_sec = (time_t)(v / NSEC);
  ts->tv_nsec = (long)(v % NSEC);
  return 0;
}
EXPORT int gettimeofday(struct timeval *tv, void *tz) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
EXPORT time_t time(time_t *t) { time_t v = (time_t)((clock0 + now) / NSEC); if (t) *t = v; return v; }
EXPORT int clock_nanosleep(clockid_t id, int fl, const struct timespec *a, struct timespec *rem) {
  u64 v = (u64)a->tv_sec * NSEC + (u64)a->tv_nsec, dl;
  if (fl & TIMER_ABSTIME) { u64 b = id == CLOCK_REALTIME ? clock0 + now : mono(); dl = v <= b ? now : now + (v - b); }
  else dl = now + v;
  if (!started || !self) return 0;
  block_as(T_SLEEP, dl);
  return 0;
}
EXPORT int nanosleep(const struct timespec *a, struct timespec *rem) { return clock_nanosleep(CLOCK_MONOTONIC, 0, a, rem); }
EXPORT int usleep(useconds_t u) { struct timespec t = {u / 1000000, (long)(u % 1000000) * 1000}; return nanosleep(&t, 0); }
EXPORT void abort(void) {
  L("A abort");
  finish_log("abort");
  struct sigaction sa = {0};
  sa.sa_handler = SIG_DFL;
  sigaction(SIGABRT, &sa, 0);
  long pid = R(SYS_getpid, 0), tid = R(SYS_gettid, 0);
  R(SYS_tgkill, pid, tid, SIGABRT);
  R(SYS_exit_group, 134);
  for (;;) {}
}
EXPORT long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && started && self) return ret(sim_futex((u32 *)a, (int)b, (u32)c, (struct timespec *)d, (u32)f));
  if (n == SYS_getrandom) return getrandom((void *)a, (size_t)b, (unsigned)c);
  if (n == SYS_gettid) return gettid();
  if (n == SYS_getpid) return simpid;
  if (n == SYS_statx) return statx((int)a, (char *)b, (int)c, (unsigned)d, (struct statx *)e);
  if (n == SYS_copy_file_range || n == SYS_splice || n == SYS_sendfile) { errno = ENOSYS; return -1; }
  if (n == SYS_openat) return do_open((int)a, (char *)b, (int)c, (int)d);
  if (n == SYS_renameat2) return do_rename((int)a, (char *)b, (int)c, (char *)d, (unsigned)e);
  if (n == SYS_clone3 || n == SYS_pidfd_open || n == SYS_openat2) { errno = ENOSYS; return -1; }
  L("U syscall %ld", n);
  return ret(rsys(n, a, b, c, d, e, f));
}

/* ------------------------------------------------------------------ threads API */
static int (*real_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static struct { pthread_key_t k; void (*d)(void *); } keys[256];
static int nkeys;
EXPORT int pthread_key_create(pthread_key_t *k, void (*d)(void *)) {
  static int (*real)(pthread_key_t *, void (*)(void *));
  if (!real) real = dlsym(RTLD_NEXT, "pthread_key_create");
  int r = real(k, 0);
  if (!r && d && nkeys < 256) { keys[nkeys].k = *k; keys[nkeys++].d = d; }
  return r;
}
EXPORT int __cxa_thread_atexit_impl(void (*f)(void *), void *obj, void *dso) {
  if (!self || self->id == 0) return 0; /* main: the process ends with it */
  dtor_t *d = salloc(sizeof *d);
  d->f = f; d->obj = obj; d->next = self->dtors;
  self->dtors = d;
  return 0;
}
static thr_t *new_thr(void) {
  if (nT >= MAXT) die(X_HARNESS, "too many threads");
  thr_t *t = salloc(sizeof *t);
  memset(t, 0, sizeof *t);
  t->id = nT;
  t->deadline = NEVER;
  t->prio = 1000000 + (rnext(&srng) & 0xfffff);
  T[nT++] = t;
  return t;
}
static void *tramp(void *a) {
  thr_t *t = a;
  self = t;
  gate_wait(t);
  sched_point(P_IO);
  t->rv = t->fn(t->arg);
  while (t->dtors) { dtor_t *d = t->dtors; t->dtors = d->next; d->f(d->obj); }
  for (int round = 0; round < 4; round++) {
    int any = 0;
    for (int i = 0; i < nkeys; i++) {
      void *v = pthread_getspecific(keys[i].k);
      if (v) { pthread_setspecific(keys[i].k, 0); keys[i].d(v); any = 1; }
    }
    while (t->dtors) { dtor_t *d = t->dtors; t->dtors = d->next; d->f(d->obj); any = 1; }
    if (!any) break;
  }
  for (int i = 0; i < nT; i++) if (T[i]->state == T_JOIN && T[i]->joinee == t) make_ready(T[i], 0);
  t->state = T_DONE;
  t->deadline = NEVER;
  block();
  /* never scheduled again */
  static u32 never;
  for (;;) R(SYS_futex, &never, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  return 0;
}
EXPORT int pthread_create(pthread_t *pt, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  if (!real_pthread_create) real_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
  if (!started || !self) return real_pthread_create(pt, at, fn, arg);
  sched_point(P_IO);
  fi_t f; long r = fault_simple("thread", "-", &f);
  fault_post(&f);
  if (r) return (int)-r;
  thr_t *t = new_thr();
  t->fn = fn; t->arg = arg;
  t->state = T_READY;
  int rc = real_pthread_create(&t->pt, at, tramp, t);
  if (rc) { t->state = T_DONE; return rc; }
  *pt = t->pt;
  sched_point(P_IO);
  return 0;
}
EXPORT int pthread_join(pthread_t pt, void **rv) {
  thr_t *t = 0;
  for (int i = 0; i < nT; i++) if (i && pthread_equal(T[i]->pt, pt)) t = T[i];
  if (!t) return ESRCH;
  sched_point(P_IO);
  if (t->state != T_DONE) { self->joinee = t; block_as(T_JOIN, NEVER); }
  if (rv) *rv = t->rv;
  return 0;
}
EXPORT int pthread_detach(pthread_t pt) { return 0; }
EXPORT int pthread_setname_np(pthread_t pt, const char *n) { return 0; }

/* ------------------------------------------------------------------ network */
struct watch { int fd; obj_t *o; u32 events, pending; u64 data; struct watch *next; };
typedef struct watch watch_t;
typedef struct { int srv; char *req; int reqlen, reqcap; int nreq; int srvclosed; } conn_t;
struct obj {
  int kind, refs, nonblock;
  u64 count;            /* eventfd */
  watch_t *watches;     /* epoll */
  int st;               /* socket: 0 new, 1 connecting, 2 connected, 3 error */
  int err, eof, sent_fin;
  u32 ip; int port;
  char *rx; size_t rxlen, rxoff, rxcap;
  conn_t c;
};
static obj_t *epolls[32];
static int nepolls;
typedef struct { u32 ip; int port; int conn; u64 lat; } server_t; /* conn: 0 ok 1 refuse 2 blackhole 3 reset after accept */
typedef struct {
  int srv, is_head, status, mode, fault, keep;
  char *path, *body, *location;
  i64 at;
  u64 lat, seg, segdelay;
  int nth;              /* answer only the nth request of this method+path (0: all others) */
  int seen;
} route_t;
static server_t servers[32];
static int nservers;
static route_t routes[512];
static int nroutes;
static u64 net_conns, net_reqs;

typedef struct { u64 t, seq; int type; obj_t *o; char *data; size_t len; int arg; } ev_t; /* type 1 connected 2 refuse 3 data 4 fin 5 rst */
static ev_t *heap;
static int nheap, heapcap;
static u64 evseq;
static int evless(ev_t *a, ev_t *b) { return a->t < b->t || (a->t == b->t && a->seq < b->seq); }
static void ev_push(u64 t, int type, obj_t *o, char *data, size_t len, int arg) {
  if (nheap == heapcap) { int nc = heapcap ? heapcap * 2 : 1024; ev_t *h = salloc(sizeof(ev_t) * (size_t)nc); memcpy(h, heap, sizeof(ev_t) * (size_t)nheap); heap = h; heapcap = nc; }
  int i = nheap++;
  ev_t e = {t, ++evseq, type, o, data, len, arg};
  while (i && evless(&e, &heap[(i - 1) / 2])) { heap[i] = heap[(i - 1) / 2]; i = (i - 1) / 2; }
  heap[i] = e;
}
static ev_t ev_pop(void) {
  ev_t top = heap[0], e = heap[--nheap];
  int i = 0;
  for (;;) {
    int c = 2 * i + 1;
    if (c >= nheap) break;
    if (c + 1 < nheap && evless(&heap[c + 1], &heap[c])) c++;
    if (!evless(&heap[c], &e)) break;
    heap[i] = heap[c];
    i = c;
  }
  heap[i] = e;
  return top;
}
static u64 net_next(void) { return nheap ? heap[0].t : NEVER; }

static obj_t *obj_new(int kind) { obj_t *o = salloc(sizeof *o); memset(o, 0, sizeof *o); o->kind = kind; o->refs = 1; return o; }
static obj_t *obj_ref(obj_t *o) { o->refs++; return o; }
static void ep_forget(obj_t *o) {
  for (int i = 0; i < nepolls; i++)
    for (watch_t **w = &epolls[i]->watches; *w;) { if ((*w)->o == o) *w = (*w)->next; else w = &(*w)->next; }
}
static void obj_unref(obj_t *o) {
  if (--o->refs > 0) return;
  ep_forget(o);
  if (o->kind == K_SOCK) o->c.srvclosed = 1;
}
static int newfd(int kind, obj_t *o) {
  long fd = R(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR | O_CLOEXEC, 0);
  if (fd < 0) return (int)ret(fd);
  fd_set_ent((int)fd, kind, 0, o, 1);
  return (int)fd;
}
static u32 readiness(obj_t *o) {
  if (o->kind == K_EVENT) return (o->count ? EPOLLIN : 0) | EPOLLOUT;
  if (o->kind == K_SOCK) {
    if (o->st == 0) return EPOLLOUT | EPOLLHUP;
    if (o->st == 1) return 0;
    u32 m = 0;
    if (o->st == 3) return EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLRDHUP;
    m |= EPOLLOUT;
    if (o->rxoff < o->rxlen) m |= EPOLLIN;
    if (o->eof) m |= EPOLLIN | EPOLLRDHUP;
    return m;
  }
  return 0;
}
static void notify(obj_t *o, u32 mask) {
  for (int i = 0; i < nepolls; i++) {
    obj_t *ep = epolls[i];
    int hit = 0;
    for (watch_t *w = ep->watches; w; w = w->next)
      if (w->o == o) { u32 m = mask & (w->events | EPOLLERR | EPOLLHUP); if (m) { w->pending |= m; hit = 1; } }
    if (hit) for (int k = 0; k < nT; k++) if (T[k]->state == T_EPOLL && T[k]->ep == ep) make_ready(T[k], 0);
  }
}
static void net_due(void) {
  while (nheap && heap[0].t <= now) {
    ev_t e = ev_pop();
    obj_t *o = e.o;
    if (o->refs <= 0) continue;
    if (o->st == 3) continue;
    switch (e.type) {
      case 1: o->st = 2; notify(o, EPOLLOUT); break;
      case 2: o->st = 3; o->err = e.arg; notify(o, EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLRDHUP); break;
      case 3:
        if (o->rxlen + e.len > o->rxcap) {
          size_t live = o->rxlen - o->rxoff, nc = (live + e.len) * 2 + 65536;
          char *nb = salloc(nc);
          memcpy(nb, o->rx + o->rxoff, live);
          o->rx = nb; o->rxoff = 0; o->rxlen = live; o->rxcap = nc;
        }
        memcpy(o->rx + o->rxlen, e.data, e.len);
        o->rxlen += e.len;
        notify(o, EPOLLIN);
        break;
      case 4: o->eof = 1; notify(o, EPOLLIN | EPOLLRDHUP); break;
      case 5: o->st = 3; o->err = ECONNRESET; notify(o, EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLRDHUP); break;
    }
  }
}
static char *load_file(const char *p, size_t *len) {
  long fd = R(SYS_openat, AT_FDCWD, p, O_RDONLY, 0);
  if (fd < 0) die(X_HARNESS, "cannot open response body");
  struct stat st;
  R(SYS_fstat, fd, &st);
  char *b = salloc((size_t)st.st_size + 1);
  size_t o = 0;
  while (o < (size_t)st.st_size) { long r = R(SYS_read, fd, b + o, (size_t)st.st_size - o); if (r <= 0) break; o += (size_t)r; }
  R(SYS_close, fd);
  *len = o;
  return b;
}
static const char *reason(int s) { return s == 200 ? "OK" : s == 404 ? "Not Found" : s == 302 ? "Found" : s == 503 ? "Service Unavailable" : "Status"; }
static void serve(obj_t *o, const char *req, int len) {
  char method[16], path[2048];
  if (sscanf(req, "%15s %2047s", method, path) != 2) die(X_HARNESS, "bad request");
  net_reqs++;
  server_t *s = &servers[o->c.srv];
  int head = !strcmp(method, "HEAD");
  route_t *r = 0, *any = 0;
  for (int i = 0; i < nroutes; i++) {
    route_t *x = &routes[i];
    if (x->srv != o->c.srv || x->is_head != head || strcmp(x->path, path)) continue;
    x->seen++;
    if (x->nth == x->seen) r = x;
    if (!x->nth) any = x;
  }
  if (!r) r = any;
  static route_t nf;
  if (!r) { memset(&nf, 0, sizeof nf); nf.status = 404; nf.keep = 1; nf.lat = s->lat; nf.seg = 1460; nf.at = -1; r = &nf; }
  char pb[4096];
  L("R %d %s %s %d %d", o->c.srv, method, plain(path, pb, sizeof pb), r->status, r->fault);
  size_t bl = 0;
  char *body = 0;
  if (r->body) body = load_file(r->body, &bl);
  else if (r->status != 200) { body = "<html><body>error page</body></html>\n"; bl = strlen(body); }
  char *resp = salloc(bl * 2 + 65536);
  size_t n = (size_t)sprintf(resp, "HTTP/1.1 %d %s\r\nServer: sim\r\nContent-Type: application/octet-stream\r\n", r->status, reason(r->status));
  if (r->location) n += (size_t)sprintf(resp + n, "Location: %s\r\n", r->location);
  int close_after = !r->keep;
  if (r->mode == 0) n += (size_t)sprintf(resp + n, "Content-Length: %zu\r\n", bl);
  else if (r->mode == 1) n += (size_t)sprintf(resp + n, "Transfer-Encoding: chunked\r\n");
  else close_after = 1;
  if (close_after) n += (size_t)sprintf(resp + n, "Connection: close\r\n");
  n += (size_t)sprintf(resp + n, "\r\n");
  if (!head) {
    if (r->mode == 1) {
      size_t p = 0;
      while (p < bl) {
        size_t k = 1 + rbelow(&nrng, 8192);
        if (k > bl - p) k = bl - p;
        n += (size_t)sprintf(resp + n, "%zx\r\n", k);
        memcpy(resp + n, body + p, k);
        n += k; p += k;
        n += (size_t)sprintf(resp + n, "\r\n");
      }
      n += (size_t)sprintf(resp + n, "0\r\n\r\n");
    } else { memcpy(resp + n, body, bl); n += bl; }
  }
  if (r->mode == 3) { n = 0; if (bl) { memcpy(resp, body, bl); n = bl; } close_after = !r->keep; } /* not HTTP at all */
  size_t upto = n;
  int fault = r->fault;
  if (fault) {
    /* at >= 0: that many bytes of the response; at < 0: per mille of it */
    if (r->at >= 0) upto = (size_t)r->at; else upto = (size_t)((double)n * (double)(-r->at) / 1000.0);
    if (upto >= n) upto = n - 1;
    L("F net %s%s %d %s %zu/%zu", method, plain(path, pb, sizeof pb), 0, fault == 1 ? "net_close" : fault == 2 ? "net_reset" : "net_stall", upto, n);
  }
  u64 t = now + r->lat + 1;
  size_t p = 0;
  while (p < upto) {
    size_t k = r->seg ? r->seg : 1460;
    if (k > upto - p) k = upto - p;
    ev_push(t, 3, o, resp + p, k, 0);
    t += r->segdelay;
    p += k;
  }
  if (fault == 1) ev_push(t, 4, o, 0, 0, 0);
  else if (fault == 2) ev_push(t, 5, o, 0, 0, 0);
  else if (fault == 3) {}
  else if (close_after) ev_push(t, 4, o, 0, 0, 0);
}
static long sock_send(obj_t *o, const char *b, size_t n) {
  if (o->st == 3) { if (o->err == ECONNREFUSED) return -ECONNREFUSED; return o->sent_fin++ ? -EPIPE : -ECONNRESET; }
  if (o->st != 2) return -EAGAIN;
  conn_t *c = &o->c;
  if (c->reqlen + (int)n + 1 > c->reqcap) { int nc = (c->reqlen + (int)n) * 2 + 4096; char *nb = salloc((size_t)nc); memcpy(nb, c->req, (size_t)c->reqlen); c->req = nb; c->reqcap = nc; }
  memcpy(c->req + c->reqlen, b, n);
  c->reqlen += (int)n;
  c->req[c->reqlen] = 0;
  char *e;
  while ((e = strstr(c->req, "\r\n\r\n"))) {
    int l = (int)(e - c->req) + 4;
    if (servers[c->srv].conn == 3) ev_push(now + servers[c->srv].lat + 1, 5, o, 0, 0, 0);
    else serve(o, c->req, l);
    memmove(c->req, c->req + l, (size_t)(c->reqlen - l) + 1);
    c->reqlen -= l;
  }
  return (long)n;
}
static long obj_read(int fd, obj_t *o, char *b, size_t n) {
  sched_point(P_IO);
  if (o->kind == K_EVENT) {
    if (n < 8) return -EINVAL;
    if (!o->count) return -EAGAIN;
    memcpy(b, &o->count, 8);
    o->count = 0;
    return 8;
  }
  if (o->kind == K_SOCK) {
    advance(0);
    if (o->rxoff < o->rxlen) {
      size_t k = o->rxlen - o->rxoff;
      if (k > n) k = n;
      memcpy(b, o->rx + o->rxoff, k);
      o->rxoff += k;
      return (long)k;
    }
    if (o->st == 3) { int e = o->err; return e ? -e : 0; }
    if (o->eof) return 0;
    if (o->st != 2) return -ENOTCONN;
    return -EAGAIN;
  }
  return -EINVAL;
}
static long obj_write(int fd, obj_t *o, const char *b, size_t n) {
  sched_point(P_IO);
  if (o->kind == K_EVENT) { u64 v; memcpy(&v, b, 8); o->count += v; notify(o, EPOLLIN); return 8; }
  if (o->kind == K_SOCK) return sock_send(o, b, n);
  return -EINVAL;
}
static obj_t *as(int fd, int kind) { return fd >= 0 && fd < MAXFD && F[fd].kind == kind ? F[fd].o : 0; }
EXPORT int socket(int d, int t, int p) {
  if (!started) { errno = EACCES; return -1; }
  sched_point(P_IO);
  fi_t f; long r = fault_simple("socket", "-", &f);
  if (r) return (int)ret(r);
  if (d != AF_INET || (t & 0xf) != SOCK_STREAM) { errno = EAFNOSUPPORT; return -1; }
  obj_t *o = obj_new(K_SOCK);
  return newfd(K_SOCK, o);
}
EXPORT int connect(int fd, const struct sockaddr *sa, socklen_t l) {
  obj_t *o = as(fd, K_SOCK);
  if (!o) { errno = ENOTSOCK; return -1; }
  sched_point(P_IO);
  const struct sockaddr_in *in = (const struct sockaddr_in *)sa;
  if (o->st == 1) { errno = EALREADY; return -1; }
  if (o->st == 2) { errno = EISCONN; return -1; }
  o->ip = ntohl(in->sin_addr.s_addr);
  o->port = ntohs(in->sin_port);
  net_conns++;
  int s = -1;
  for (int i = 0; i < nservers; i++) if (servers[i].ip == o->ip && servers[i].port == o->port) s = i;
  L("C %d %u.%u.%u.%u:%d", s, o->ip >> 24, (o->ip >> 16) & 255, (o->ip >> 8) & 255, o->ip & 255, o->port);
  o->st = 1;
  o->c.srv = s;
  if (s < 0) ev_push(now + 1000, 2, o, 0, 0, ECONNREFUSED);
  else if (servers[s].conn == 1) { L("F net connect %d refuse 0", s); ev_push(now + servers[s].lat + 1, 2, o, 0, 0, ECONNREFUSED); }
  else if (servers[s].conn == 2) { L("F net connect %d blackhole 0", s); }
  else ev_push(now + servers[s].lat + 1, 1, o, 0, 0, 0);
  errno = EINPROGRESS;
  return -1;
}
EXPORT int getsockopt(int fd, int lv, int nm, void *v, socklen_t *l) {
  obj_t *o = as(fd, K_SOCK);
  if (!o) { errno = ENOTSOCK; return -1; }
  if (l && *l >= 4) { *(int *)v = (nm == SO_ERROR && lv == SOL_SOCKET && o->st == 3) ? o->err : 0; *l = 4; }
  return 0;
}
EXPORT int setsockopt(int fd, int lv, int nm, const void *v, socklen_t l) { return 0; }
static int addr_out(u32 ip, int port, struct sockaddr *sa, socklen_t *l) {
  struct sockaddr_in in = {0};
  in.sin_family = AF_INET; in.sin_addr.s_addr = htonl(ip); in.sin_port = htons((uint16_t)port);
  memcpy(sa, &in, *l < sizeof in ? *l : sizeof in);
  *l = sizeof in;
  return 0;
}
EXPORT int getpeername(int fd, struct sockaddr *sa, socklen_t *l) { obj_t *o = as(fd, K_SOCK); if (!o || o->st != 2) { errno = ENOTCONN; return -1; } return addr_out(o->ip, o->port, sa, l); }
EXPORT int getsockname(int fd, struct sockaddr *sa, socklen_t *l) { return addr_out(0x0a000064, 40000 + fd, sa, l); }
EXPORT int bind(int fd, const struct sockaddr *sa, socklen_t l) { return 0; }
EXPORT int listen(int fd, int n) { errno = EACCES; return -1; }
EXPORT int shutdown(int fd, int how) { obj_t *o = as(fd, K_SOCK); if (!o) { errno = ENOTSOCK; return -1; } return 0; }
EXPORT ssize_t send(int fd, const void *b, size_t n, int fl) { obj_t *o = as(fd, K_SOCK); if (!o) { errno = ENOTSOCK; return -1; } return ret(obj_write(fd, o, b, n)); }
EXPORT ssize_t recv(int fd, void *b, size_t n, int fl) {
  obj_t *o = as(fd, K_SOCK);
  if (!o) { errno = ENOTSOCK; return -1; }
  if (fl & MSG_PEEK) { size_t off = o->rxoff; long r = obj_read(fd, o, b, n); o->rxoff = off; return ret(r); }
  return ret(obj_read(fd, o, b, n));
}
EXPORT ssize_t sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t l) { return send(fd, b, n, fl); }
EXPORT ssize_t recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l) { return recv(fd, b, n, fl); }
EXPORT ssize_t sendmsg(int fd, const struct msghdr *m, int fl) { if (!as(fd, K_SOCK)) { errno = ENOTSOCK; return -1; } return vec(fd, m->msg_iov, (int)m->msg_iovlen, 1); }
EXPORT ssize_t recvmsg(int fd, struct msghdr *m, int fl) { if (!as(fd, K_SOCK)) { errno = ENOTSOCK; return -1; } return vec(fd, m->msg_iov, (int)m->msg_iovlen, 0); }
EXPORT int socketpair(int d, int t, int p, int sv[2]) { errno = EAFNOSUPPORT; return -1; }
EXPORT int eventfd(unsigned v, int fl) { sched_point(P_IO); obj_t *o = obj_new(K_EVENT); o->count = v; return newfd(K_EVENT, o); }
EXPORT int epoll_create1(int fl) {
  sched_point(P_IO);
  fi_t f; long r = fault_simple("epoll", "-", &f);
  if (r) return (int)ret(r);
  if (nepolls >= 32) die(X_HARNESS, "too many epolls");
  obj_t *o = obj_new(K_EPOLL);
  epolls[nepolls++] = o;
  return newfd(K_EPOLL, o);
}
EXPORT int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
  sched_point(P_IO);
  obj_t *e = as(ep, K_EPOLL);
  if (!e || fd < 0 || fd >= MAXFD || !F[fd].o) { errno = e ? EPERM : EBADF; return -1; }
  obj_t *o = F[fd].o;
  watch_t **w = &e->watches;
  while (*w && !((*w)->fd == fd && (*w)->o == o)) w = &(*w)->next;
  if (op == EPOLL_CTL_DEL) { if (!*w) { errno = ENOENT; return -1; } *w = (*w)->next; return 0; }
  watch_t *x = *w;
  if (op == EPOLL_CTL_ADD) {
    if (x) { errno = EEXIST; return -1; }
    x = salloc(sizeof *x);
    memset(x, 0, sizeof *x);
    x->fd = fd; x->o = o;
    *w = x;
  } else if (!x) { errno = ENOENT; return -1; }
  x->events = ev->events;
  x->data = ev->data.u64;
  x->pending = readiness(o) & (x->events | EPOLLERR | EPOLLHUP);
  if (x->pending) for (int k = 0; k < nT; k++) if (T[k]->state == T_EPOLL && T[k]->ep == e) make_ready(T[k], 0);
  return 0;
}
EXPORT int epoll_wait(int ep, struct epoll_event *evs, int max, int timeout) {
  obj_t *e = as(ep, K_EPOLL);
  if (!e) { errno = EBADF; return -1; }
  sched_point(P_IO);
  u64 dl = timeout < 0 ? NEVER : now + (u64)timeout * 1000000ull;
  for (;;) {
    advance(0);
    int n = 0;
    for (watch_t *w = e->watches; w && n < max; w = w->next) {
      u32 m = readiness(w->o) & (w->events | EPOLLERR | EPOLLHUP);
      if (w->events & EPOLLET) { m &= w->pending; w->pending = 0; }
      if (m) { evs[n].events = m; evs[n].data.u64 = w->data; n++; }
    }
    if (n > 1 && evshuffle)
      for (int i = n - 1; i > 0; i--) { int j = (int)rbelow(&nrng, (u64)i + 1); struct epoll_event t = evs[i]; evs[i] = evs[j]; evs[j] = t; }
    if (n || timeout == 0 || now >= dl) return n;
    self->ep = e;
    block_as(T_EPOLL, dl);
  }
}
EXPORT int epoll_pwait(int ep, struct epoll_event *evs, int max, int timeout, const sigset_t *s) { return epoll_wait(ep, evs, max, timeout); }
static long do_fcntl(int fd, int cmd, long arg) {
  if (known(fd)) {
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) {
      long r = R(SYS_fcntl, fd, cmd, arg);
      if (r >= 0 && r < MAXFD) { F[r] = F[fd]; if (F[r].kind == K_STD) F[r].kind = K_FILE; if (F[r].o) obj_ref(F[r].o); }
      return ret(r);
    }
    if (F[fd].o) { if (cmd == F_GETFL) return O_RDWR | O_NONBLOCK; return 0; }
  }
  return ret(R(SYS_fcntl, fd, cmd, arg));
}
EXPORT int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return (int)do_fcntl(fd, cmd, a); }
EXPORT int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return (int)do_fcntl(fd, cmd, a); }
EXPORT int dup(int fd) { return (int)do_fcntl(fd, F_DUPFD, 3); }
EXPORT int ioctl(int fd, unsigned long rq, ...) {
  va_list ap; va_start(ap, rq); long a = va_arg(ap, long); va_end(ap);
  if (known(fd) && F[fd].o) return 0;
  return (int)ret(R(SYS_ioctl, fd, rq, a));
}
EXPORT int getaddrinfo(const char *node, const char *svc, const struct addrinfo *h, struct addrinfo **res) {
  int k;
  if (started && self) { sched_point(P_IO); { char pb[1024]; L("D %s", plain(node ? node : "-", pb, sizeof pb)); }; }
  char tail[8];
  if (!node || sscanf(node, "s%d.si%1[m]", &k, tail) != 2) return EAI_NONAME;
  struct addrinfo *a = calloc(1, sizeof *a + sizeof(struct sockaddr_in));
  struct sockaddr_in *in = (struct sockaddr_in *)(a + 1);
  in->sin_family = AF_INET;
  in->sin_addr.s_addr = htonl(0x0a000000u + (u32)k);
  in->sin_port = svc ? htons((uint16_t)atoi(svc)) : 0;
  a->ai_family = AF_INET; a->ai_socktype = SOCK_STREAM; a->ai_addr = (struct sockaddr *)in; a->ai_addrlen = sizeof *in;
  *res = a;
  return 0;
}
EXPORT void freeaddrinfo(struct addrinfo *a) { free(a); }
EXPORT int __res_init(void) { return 0; }
EXPORT int system(const char *c) { errno = EPERM; return -1; }
EXPORT int execve(const char *p, char *const a[], char *const e[]) { errno = EPERM; return -1; }
EXPORT int kill(pid_t p, int s) { errno = EPERM; return -1; }
EXPORT pid_t fork(void) { errno = EPERM; return -1; }
EXPORT int posix_spawnp(pid_t *p, const char *f, const void *a, const void *b, char *const c[], char *const d[]) { return EPERM; }
EXPORT int posix_spawn(pid_t *p, const char *f, const void *a, const void *b, char *const c[], char *const d[]) { return EPERM; }

/* ------------------------------------------------------------------ configuration file */
static int fkind(const char *s) { for (int i = 0; i < 8; i++) if (!strcmp(s, fk_names[i])) return i; die(X_HARNESS, "bad fault kind"); }
static void parse(char *b) {
  int capf = 4096, capd = DH / 2;
  faults = salloc(sizeof(fault_t) * (size_t)capf);
  decs = salloc(sizeof(dec_t) * (size_t)capd);
  dech = salloc(sizeof(int) * DH);
  for (int i = 0; i < DH; i++) dech[i] = -1;
  u64 seed = 1;
  for (char *line = strtok(b, "\n"); line; line = strtok(0, "\n")) {
    char k[32], s1[2048], s2[2048], s3[64];
    long long a, c, d;
    int n;
    if (sscanf(line, "%31s%n", k, &n) != 1) continue;
    char *rest = line + n;
    while (*rest == ' ') rest++;
    u64 v = strtoull(rest, 0, 10);
    if (!strcmp(k, "seed")) { seed = v; srng.s = seed * 0x9e3779b97f4a7c15ull + 1; frng.s = seed ^ 0xfa17; nrng.s = seed ^ 0x4e7; }
    else if (!strcmp(k, "fseed")) frng.s = v ^ 0xfa17;
    else if (!strcmp(k, "eseed")) erng.s = v;
    else if (!strcmp(k, "mode")) mode = !strncmp(rest, "rand", 4) ? M_RAND : !strncmp(rest, "pct", 3) ? M_PCT : !strncmp(rest, "replay", 6) ? M_REPLAY : M_NONE;
    else if (!strcmp(k, "pa")) pa = v;
    else if (!strcmp(k, "pio")) pio = v;
    else if (!strcmp(k, "pctd")) pct_d = (int)(v > 64 ? 64 : v);
    else if (!strcmp(k, "pctlen")) pct_len = v;
    else if (!strcmp(k, "maxsteps")) maxsteps = v;
    else if (!strcmp(k, "maxtime")) maxtime = v;
    else if (!strcmp(k, "clock0")) clock0 = v;
    else if (!strcmp(k, "ncpu")) ncpu = (int)v;
    else if (!strcmp(k, "pid")) simpid = (int)v;
    else if (!strcmp(k, "log")) loglevel = (int)v;
    else if (!strcmp(k, "evshuffle")) evshuffle = (int)v;
    else if (!strcmp(k, "cwd")) snprintf(vcwd, sizeof vcwd, "%s", rest);
    else if (!strcmp(k, "dec")) {
      if (sscanf(rest, "%lld %lld %lld", &a, &c, &d) == 3 && ndecs < capd) {
        decs[ndecs].tid = (int)a; decs[ndecs].step = (u64)c; decs[ndecs].target = (int)d;
        u32 h = (u32)(((u64)c * 1000003u + (u32)a * 7919u) & (DH - 1));
        while (dech[h] >= 0) h = (h + 1) & (DH - 1);
        dech[h] = ndecs++;
      }
    } else if (!strcmp(k, "errfaults")) { errfaults = (int)v;
    } else if (!strcmp(k, "fault")) { /* fault op path nth kind arg */
      if (sscanf(rest, "%63s %2047s %lld %2047s %lld", s3, s1, &a, s2, &c) == 5 && nfaults < capf)
        faults[nfaults++] = (fault_t){sdup(s3), sdup(s1), (int)a, fkind(s2), c, 0};
    } else if (!strcmp(k, "frand")) { /* frand op prefix kind arg one_in maxcount */
      if (sscanf(rest, "%63s %2047s %2047s %lld %lld %lld", s3, s1, s2, &a, &c, &d) == 6 && nfrules < 128)
        frules[nfrules++] = (frule_t){sdup(s3), sdup(s1), fkind(s2), a, (u64)c, (int)d};
    } else if (!strcmp(k, "quota")) {
      if (sscanf(rest, "%2047s %lld", s1, &a) == 2 && nquotas < 8) quotas[nquotas++] = (quota_t){sdup(s1), a};
    } else if (!strcmp(k, "server")) { /* server ip(dec last octet) port conn lat */
      long long e;
      if (sscanf(rest, "%lld %lld %lld %lld", &a, &c, &d, &e) == 4 && nservers < 32)
        servers[nservers++] = (server_t){0x0a000000u + (u32)a, (int)c, (int)d, (u64)e};
    } else if (!strcmp(k, "route")) { /* route srv HEAD|GET path status mode fault at lat seg segdelay keep nth body|- location|- */
      int srv, st, md, ft, keep, nth; long long at, lat, seg, sd; char m[8], loc[512];
      if (sscanf(rest, "%d %7s %2047s %d %d %d %lld %lld %lld %lld %d %d %2047s %511s", &srv, m, s1, &st, &md, &ft, &at, &lat, &seg, &sd, &keep, &nth, s2, loc) == 14 && nroutes < 512) {
        route_t r = {0};
        r.srv = srv; r.is_head = !strcmp(m, "HEAD"); r.path = sdup(s1); r.status = st; r.mode = md; r.fault = ft; r.at = at;
        r.lat = (u64)lat; r.seg = (u64)seg; r.segdelay = (u64)sd; r.keep = keep; r.nth = nth;
        r.body = strcmp(s2, "-") ? sdup(s2) : 0; r.location = strcmp(loc, "-") ? sdup(loc) : 0;
        routes[nroutes++] = r;
      } else die(X_HARNESS, "bad route");
    } else die(X_HARNESS, "bad config line");
  }
  for (int i = 0; i < pct_d && i < 64; i++) pct_pts[i] = 1 + rbelow(&srng, pct_len);
}
/* too much processor time: say where it is spent */
static u64 prog_base;
static int nbt;
static int bt_one(void *ctx, void *arg) {
  u64 (*ip)(void *) = arg;
  u64 a = ip(ctx);
  nbt++;
  L("B %llx", (unsigned long long)(a - prog_base));
  return nbt > 40 ? 5 : 0;
}
static void on_xcpu(int sig) {
  int (*bt)(int (*)(void *, void *), void *) = dlsym(RTLD_DEFAULT, "_Unwind_Backtrace");
  void *ip = dlsym(RTLD_DEFAULT, "_Unwind_GetIP");
  signal(SIGXCPU, SIG_DFL);
  if (bt && ip) bt(bt_one, ip);
  die(X_CPU, "cpuhang");
}
__attribute__((constructor)) static void init(void) {
  /* inherited: 3 config, 4 log, 5 root dir, 6 control (read), 7 notify (write) */
  struct stat st;
  if (R(SYS_fstat, 3, &st) < 0 || R(SYS_fstat, 5, &st) < 0) { R(SYS_write, 2, "libsim: not started by the driver\n", 34); R(SYS_exit_group, X_HARNESS); }
  int *to[5] = {0, &logfd, &rootfd, &ctlfd, &notefd};
  for (int i = 1; i < 5; i++) { long r = R(SYS_fcntl, 3 + i, F_DUPFD_CLOEXEC, 1000 + i); *to[i] = (int)r; R(SYS_close, 3 + i); }
  R(SYS_fstat, 3, &st);
  char *b = salloc((size_t)st.st_size + 1);
  size_t o = 0;
  while (o < (size_t)st.st_size) { long r = R(SYS_read, 3, b + o, (size_t)st.st_size - o); if (r <= 0) break; o += (size_t)r; }
  b[o] = 0;
  R(SYS_close, 3);
  mallopt(M_ARENA_MAX, 1);
  erng.s = 1;
  parse(b);
  for (int i = 0; i < 3; i++) fd_set_ent(i, K_STD, i == 0 ? "<stdin>" : i == 1 ? "<stdout>" : "<stderr>", 0, 1);
  real_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
  thr_t *t = new_thr();
  t->state = T_RUN;
  t->pt = pthread_self();
  self = t;
  prog_base = getauxval(AT_PHDR) & ~0xfffull;
  signal(SIGXCPU, on_xcpu);
  long per = R(SYS_personality, 0xffffffff);
  if (!(per & 0x0040000)) L("W aslr is on");
  started = 1;
}
__attribute__((destructor)) static void fini(void) { if (started) finish_log("exit"); }
EXPORT void _exit(int c) { finish_log("exit"); R(SYS_exit_group, c); for (;;) {} }
EXPORT void _Exit(int c) { _exit(c); }
