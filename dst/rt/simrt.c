// Deterministic simulation runtime.
//
// Linked into the harness executable, it owns every source of nondeterminism
// that the code under test can reach:
//   * thread scheduling: exactly one simulated thread runs at a time; control
//     moves only here. Points where it may move: every atomic operation
//     compiled into the code under test (LLVM's tsan pass turns each into a
//     __tsan_atomic* call, implemented below), every futex system call (std and
//     parking_lot locks, condvars, park/unpark, flume channels), thread
//     creation, join, sleep and yield;
//   * time: clock_gettime/clock_nanosleep/nanosleep read and advance a virtual clock;
//   * randomness: getrandom (std's HashMap keys, uuid) is a seeded stream;
//   * the file system under /simdisk/: an in-memory disk with injectable faults.
//
// Every nondeterministic choice that differs from the default policy (keep
// running the current thread; when it blocks, lowest-numbered ready thread;
// wake the longest waiter; no fault) is logged as a `choice`, keyed by
// (thread, that thread's own step number). Replaying = following a list of
// choices and nothing else.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include "simrt.h"

#define MAXT 2048
#define NOD INT64_MAX

enum { T_FREE, T_READY, T_FUTEX, T_SLEEP, T_JOIN, T_IDLE, T_DONE };

typedef struct ST {
  int id, state;
  uint32_t *fut;
  uint32_t bitset;
  uint64_t wait_seq;
  int64_t deadline;
  int timed_out;
  _Atomic uint32_t gate;
  uint64_t steps, run_since;
  pthread_t pt;
  int join_target;
  int detached;
  void *(*fn)(void *);
  void *arg;
  void *ret;
  const char *last_pc, *prev_pc;
  int spin;
  int prio;
  int nopre;
  int user_kind; /* harness-assigned role */
} ST;

static struct {
  int active, replay;
  int nth;
  ST t[MAXT];
  sim_cfg cfg;
  uint64_t rng;
  uint64_t rand_stream;
  int64_t now, wall_off;
  uint64_t steps, switches, wait_seq;
  uint64_t hash;
  uint64_t pct[16];
  int npct;
  int prio_low;
  int nrec, rec_over, nrep;
  uint64_t cnt[SIM_NCNT];
  sim_fatal_fn fatal;
  int in_fatal;
  uint64_t funcs;
  int exiting; /* kernel tid of a simulated thread that is still running its real exit path */
} G;

static sim_choice RECS[SIM_MAXCHOICES], REPS[SIM_MAXCHOICES];
static __thread ST *self;
static const char *image_base;
extern char __executable_start;

// ---------------------------------------------------------------- raw system
static inline long rsys(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static long ret_errno(long r) {
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
static void raw_wait(_Atomic uint32_t *a, uint32_t v) { rsys(SYS_futex, (long)a, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, v, 0, 0, 0); }
static void raw_wake(_Atomic uint32_t *a) { rsys(SYS_futex, (long)a, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0); }

// ---------------------------------------------------------------- rng / log
static inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static inline uint64_t rnd(void) { return mix64(G.rng += 0x9e3779b97f4a7c15ull); }
static inline uint64_t rndn(uint64_t n) { return n ? rnd() % n : 0; }

static void record(ST *s, int kind, int64_t val) {
  G.hash = mix64(G.hash ^ ((uint64_t)s->id << 56) ^ ((uint64_t)kind << 48) ^ (uint64_t)val ^ (uint64_t)(s->last_pc - image_base) << 8);
  if (G.nrec < SIM_MAXCHOICES) {
    sim_choice *c = &RECS[G.nrec++];
    c->tid = s->id; c->kind = kind; c->step = s->steps; c->val = val; c->site = (uint64_t)(s->last_pc - image_base);
  } else G.rec_over = 1;
}
// replay lookup: open-addressed table keyed by (tid, step, kind)
#define RH (SIM_MAXCHOICES * 2)
static int32_t rephash[RH];
static uint64_t repkey(int tid, uint64_t step, int kind) { return mix64(step * 4096 + (uint64_t)tid * 16 + (uint64_t)kind); }
static sim_choice *replay_find(ST *s, int kind) {
  if (!G.nrep) return 0;
  uint64_t h = repkey(s->id, s->steps, kind) % RH;
  while (rephash[h] >= 0) {
    sim_choice *c = &REPS[rephash[h]];
    if (c->tid == s->id && c->step == s->steps && c->kind == kind) return c;
    h = (h + 1) % RH;
  }
  return 0;
}
static void replay_build(void) {
  memset(rephash, 0xff, sizeof rephash);
  for (int i = 0; i < G.nrep; i++) {
    uint64_t h = repkey(REPS[i].tid, REPS[i].step, REPS[i].kind) % RH;
    while (rephash[h] >= 0) h = (h + 1) % RH;
    rephash[h] = i;
  }
}

static void fatal(int kind, const char *msg) {
  if (G.in_fatal) _exit(97);
  G.in_fatal = 1;
  G.active = 0;
  if (G.fatal) G.fatal(kind, msg);
  _exit(98);
}

// ---------------------------------------------------------------- scheduler
static void fire_timers(void) {
  for (int i = 0; i < G.nth; i++) {
    ST *t = &G.t[i];
    if ((t->state == T_SLEEP || t->state == T_FUTEX) && t->deadline <= G.now) {
      t->timed_out = 1;
      t->state = T_READY;
      t->deadline = NOD;
    }
  }
}
static int is_timer(ST *t) { return (t->state == T_SLEEP || t->state == T_FUTEX) && t->deadline != NOD; }

static void describe(char *b, size_t n) {
  size_t o = 0;
  static const char *nm[] = {"free", "ready", "blocked-on-lock-or-channel", "sleeping", "joining", "idle", "done"};
  for (int i = 0; i < G.nth && o + 200 < n; i++) {
    ST *t = &G.t[i];
    if (t->state == T_DONE) continue;
    o += (size_t)snprintf(b + o, n - o, "%sT%d(role %d) %s at +0x%llx", i ? "; " : "", t->id, t->user_kind, nm[t->state],
                          (unsigned long long)(t->last_pc - image_base));
  }
}

// A finished simulated thread still runs glibc's exit path (thread-local
// destructors, stack release). Wait for it so that nothing runs concurrently.
static void reap(void) {
  int k = G.exiting;
  if (!k) return;
  G.exiting = 0;
  long pid = rsys(SYS_getpid, 0, 0, 0, 0, 0, 0);
  while (rsys(SYS_tgkill, pid, k, 0, 0, 0, 0) == 0) rsys(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}
static void transfer(ST *me, ST *to, int wait) {
  if (to == me) return;
  G.switches++;
  to->run_since = G.steps;
  atomic_store_explicit(&to->gate, 1, memory_order_release);
  raw_wake(&to->gate);
  if (!wait) return;
  while (atomic_load_explicit(&me->gate, memory_order_acquire) == 0) raw_wait(&me->gate, 0);
  atomic_store_explicit(&me->gate, 0, memory_order_relaxed);
  reap();
}

static ST *pick_timer(void) {
  ST *b = 0;
  for (int i = 0; i < G.nth; i++)
    if (is_timer(&G.t[i]) && (!b || G.t[i].deadline < b->deadline)) b = &G.t[i];
  return b;
}
static int weight(ST *t) {
  if (G.cfg.starve_role >= 0 && t->user_kind == G.cfg.starve_role) return 1;
  return 24;
}
// choose among ready threads (excluding `ex`), by the run's strategy
static ST *pick_ready(ST *ex) {
  ST *best = 0;
  if (G.cfg.strategy == SIM_PCT) {
    for (int i = 0; i < G.nth; i++) {
      ST *t = &G.t[i];
      if (t->state == T_READY && t != ex && (!best || t->prio > best->prio)) best = t;
    }
    return best;
  }
  uint64_t tot = 0;
  for (int i = 0; i < G.nth; i++)
    if (G.t[i].state == T_READY && &G.t[i] != ex) tot += (uint64_t)weight(&G.t[i]);
  if (!tot) return 0;
  uint64_t r = rndn(tot);
  for (int i = 0; i < G.nth; i++)
    if (G.t[i].state == T_READY && &G.t[i] != ex) {
      uint64_t w = (uint64_t)weight(&G.t[i]);
      if (r < w) return &G.t[i];
      r -= w;
    }
  return 0;
}
static ST *default_ready(ST *cur) { // round robin from cur+1: lowest-numbered-next ready thread
  for (int k = 1; k <= G.nth; k++) {
    ST *t = &G.t[(cur->id + k) % G.nth];
    if (t->state == T_READY) return t;
  }
  return 0;
}
// Make `t` runnable by letting virtual time pass to its deadline.
static void skip_to(ST *t) {
  G.cnt[SIM_C_TIMESKIP]++;
  if (t->deadline > G.now) G.now = t->deadline;
  fire_timers();
}
// The current thread cannot continue (state already set). Choose who runs.
static void block_switch(ST *s, int wait) {
  fire_timers();
  if (s->state == T_READY) return;
  ST *d = default_ready(s), *to = d;
  if (!d) {
    ST *tm = pick_timer();
    if (tm) { skip_to(tm); to = d = default_ready(s); if (s->state == T_READY) to = d = s; }
    else {
      for (int i = 0; i < G.nth; i++)
        if (G.t[i].state == T_IDLE) { to = d = &G.t[i]; d->state = T_READY; break; }
    }
    if (!to) {
      char b[4096];
      describe(b, sizeof b);
      fatal(SIM_F_DEADLOCK, b);
    }
  } else if (G.replay) {
    sim_choice *c = replay_find(s, SIM_K_NEXT);
    if (c && c->val >= 0 && c->val < G.nth && G.t[c->val].state == T_READY) to = &G.t[c->val];
    else if (c && c->val < G.nth && is_timer(&G.t[c->val])) { to = &G.t[c->val]; skip_to(to); }
  } else {
    ST *tm;
    if (G.cfg.timeskip_ppm && rndn(1000000) < G.cfg.timeskip_ppm && (tm = pick_timer())) { skip_to(tm); to = tm; }
    else to = pick_ready(s);
    if (!to) to = d;
  }
  if (to != d) record(s, SIM_K_NEXT, to->id);
  else G.hash = mix64(G.hash ^ 0x77 ^ ((uint64_t)s->id << 8) ^ (uint64_t)to->id);
  if (to == s) return;
  if (to->state != T_READY) fatal(SIM_F_INTERNAL, "picked a thread that is not ready");
  transfer(s, to, wait);
}

#define SPIN_LIMIT 300 // points in a row at one or two places
static inline void do_point(const char *pc, int kind) {
  ST *s = self;
  if (!s || !G.active) return;
  s->steps++;
  G.steps++;
  if (pc != s->last_pc && pc != s->prev_pc) s->spin = 0;
  if (pc != s->last_pc) s->prev_pc = s->last_pc;
  s->last_pc = pc;
  if (s->nopre) return;
  s->spin++;
  G.now += G.cfg.step_ns;
  if (G.steps > G.cfg.max_steps) fatal(SIM_F_STEPS, "step budget exhausted: no progress within the bound");
  ST *to = 0;
  if (G.replay) {
    if (G.nrep) {
      sim_choice *c = replay_find(s, SIM_K_SWITCH);
      if (c && c->val >= 0 && c->val < G.nth && c->val != s->id) {
        ST *t = &G.t[c->val];
        if (t->state != T_READY && is_timer(t)) skip_to(t);
        if (t->state == T_READY) to = t;
      }
    }
  } else {
    int sw = 0;
    switch (G.cfg.strategy) {
    case SIM_PCT:
      for (int i = 0; i < G.npct; i++)
        if (G.pct[i] == G.steps) s->prio = --G.prio_low;
      { ST *b = 0;
        for (int i = 0; i < G.nth; i++) if (G.t[i].state == T_READY && G.t[i].prio > s->prio && (!b || G.t[i].prio > b->prio)) b = &G.t[i];
        to = b; }
      break;
    case SIM_RANDOM:
      if (G.cfg.preempt_ppm && rndn(1000000) < G.cfg.preempt_ppm) sw = 1;
      if (!sw && G.cfg.hot_ppm && mix64((uint64_t)(pc - image_base) ^ G.cfg.seed * 31) % 1000000 < G.cfg.hot_ppm && rndn(3) == 0) sw = 1;
      break;
    default: break;
    }
    if (sw) {
      ST *tm;
      if (G.cfg.timeskip_ppm && rndn(1000000) < G.cfg.timeskip_ppm && (tm = pick_timer())) { skip_to(tm); to = tm; }
      else to = pick_ready(s);
    }
  }
  // Fairness: a thread which spins, or simply goes on, cannot starve the others for ever.
  if (!to && (s->spin > SPIN_LIMIT || G.steps - s->run_since > G.cfg.fair_steps)) {
    s->run_since = G.steps;
    s->spin = 0;
    s->prio = --G.prio_low;
    fire_timers();
    to = default_ready(s);
    ST *tm;
    if (to == s && (tm = pick_timer())) { skip_to(tm); to = default_ready(s); }
    if (to && to != s) { G.hash = mix64(G.hash ^ 0x99 ^ (uint64_t)to->id); transfer(s, to, 1); }
    return;
  }
  if (to && to != s) {
    G.cnt[SIM_C_PREEMPT]++;
    record(s, SIM_K_SWITCH, to->id);
    transfer(s, to, 1);
  }
  (void)kind;
}
#define POINT() do_point((const char *)__builtin_return_address(0), 0)

// ---------------------------------------------------------------- tsan atomics
#define ATOMIC(N, T)                                                                                                            \
  T __tsan_atomic##N##_load(const volatile T *a, int mo) { POINT(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); }               \
  void __tsan_atomic##N##_store(volatile T *a, T v, int mo) { POINT(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); }                \
  T __tsan_atomic##N##_exchange(volatile T *a, T v, int mo) { POINT(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); }      \
  T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int mo) { POINT(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); }      \
  T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int mo) { POINT(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); }      \
  T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int mo) { POINT(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); }      \
  T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int mo) { POINT(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); }        \
  T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int mo) { POINT(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); }      \
  T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int mo) { POINT(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); }    \
  T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) {                                           \
    POINT();                                                                                                                      \
    T e = c;                                                                                                                      \
    __atomic_compare_exchange_n(a, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                                 \
    return e;                                                                                                                     \
  }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {}
void __tsan_atomic_signal_fence(int mo) {}
// Function entries: coverage bitmap over code under test, and a work budget.
static uint8_t fcov[1 << 16];
void __tsan_func_entry(void *ra) {
  ST *s = self;
  if (!s || !G.active) return;
  uintptr_t p = (uintptr_t)__builtin_return_address(0) - (uintptr_t)image_base;
  fcov[(mix64(p) & 0xffff)] = 1;
  if (++G.funcs > G.cfg.max_funcs) fatal(SIM_F_STEPS, "work budget exhausted: no progress within the bound");
}
void __tsan_func_exit(void) {}
int sim_func_cov(void) { int n = 0; for (int i = 0; i < 65536; i++) n += fcov[i]; return n; }
const uint8_t *sim_func_cov_map(void) { return fcov; }

// ---------------------------------------------------------------- futex
static int fault_roll(ST *s, int kind, uint32_t ppm, int64_t *val, int64_t drawn) {
  if (G.replay) {
    sim_choice *c = replay_find(s, kind);
    if (!c) return 0;
    *val = c->val;
    record(s, kind, c->val);
    return 1;
  }
  if (!ppm || rndn(1000000) >= ppm) return 0;
  *val = drawn;
  record(s, kind, drawn);
  return 1;
}
static long sim_futex(uint32_t *a, int op, uint32_t val, const struct timespec *ts, uint32_t val3, const char *pc) {
  ST *s = self;
  int cmd = op & FUTEX_CMD_MASK;
  do_point(pc, 1);
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    if (__atomic_load_n(a, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
    int64_t v;
    if (fault_roll(s, SIM_K_SPURIOUS, G.cfg.spurious_ppm, &v, 1)) { G.cnt[SIM_C_SPURIOUS]++; errno = EINTR; return -1; }
    s->deadline = NOD;
    if (ts) {
      int64_t t = (int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec;
      if (cmd == FUTEX_WAIT) t += G.now;
      else if (op & FUTEX_CLOCK_REALTIME) t -= G.cfg.wall_base + G.wall_off;
      else t -= SIM_MONO_BASE;
      s->deadline = t;
    }
    s->fut = a;
    s->bitset = cmd == FUTEX_WAIT_BITSET ? val3 : 0xffffffffu;
    s->timed_out = 0;
    s->wait_seq = ++G.wait_seq;
    s->state = T_FUTEX;
    G.cnt[SIM_C_BLOCK]++;
    block_switch(s, 1);
    if (s->timed_out) { s->timed_out = 0; errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    uint32_t bs = cmd == FUTEX_WAKE_BITSET ? val3 : 0xffffffffu;
    long woke = 0;
    while (woke < (long)val) {
      ST *c[MAXT];
      int n = 0;
      for (int i = 0; i < G.nth; i++)
        if (G.t[i].state == T_FUTEX && G.t[i].fut == a && (G.t[i].bitset & bs)) c[n++] = &G.t[i];
      if (!n) break;
      int k = 0;
      for (int i = 1; i < n; i++) if (c[i]->wait_seq < c[k]->wait_seq) k = i; // default: longest waiter
      if (n > 1 && val == 1) {
        if (G.replay) {
          sim_choice *ch = replay_find(s, SIM_K_WAKE);
          if (ch) for (int i = 0; i < n; i++) if (c[i]->id == ch->val) { if (i != k) record(s, SIM_K_WAKE, c[i]->id); k = i; break; }
        } else if (G.cfg.strategy != SIM_NONE) {
          int k2 = (int)rndn((uint64_t)n);
          if (k2 != k) { k = k2; record(s, SIM_K_WAKE, c[k]->id); }
        }
      }
      c[k]->state = T_READY;
      c[k]->deadline = NOD;
      woke++;
    }
    return woke;
  }
  fatal(SIM_F_INTERNAL, "unsupported futex operation");
  return -1;
}

long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && self && G.active)
    return sim_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t)f, (const char *)__builtin_return_address(0));
  if (n == SYS_getrandom && G.active && self) return getrandom((void *)a, (size_t)b, (unsigned)c);
  return ret_errno(rsys(n, a, b, c, d, e, f));
}

// ---------------------------------------------------------------- threads
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
static int (*real_detach)(pthread_t);
__attribute__((constructor)) static void init_real(void) {
  real_create = dlsym(RTLD_NEXT, "pthread_create");
  real_join = dlsym(RTLD_NEXT, "pthread_join");
  real_detach = dlsym(RTLD_NEXT, "pthread_detach");
  image_base = &__executable_start;
}
static void *tramp(void *p) {
  ST *s = p;
  self = s;
  while (atomic_load_explicit(&s->gate, memory_order_acquire) == 0) raw_wait(&s->gate, 0);
  atomic_store_explicit(&s->gate, 0, memory_order_relaxed);
  reap();
  s->ret = s->fn(s->arg);
  s->last_pc = image_base;
  s->steps++;
  s->state = T_DONE;
  for (int i = 0; i < G.nth; i++)
    if (G.t[i].state == T_JOIN && G.t[i].join_target == s->id) G.t[i].state = T_READY;
  self = 0;
  void *r = s->ret;
  if (G.active) { G.exiting = (int)rsys(SYS_gettid, 0, 0, 0, 0, 0, 0); block_switch(s, 0); }
  return r;
}
int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  if (!self || !G.active) return real_create(out, attr, fn, arg);
  ST *s = self;
  s->last_pc = __builtin_return_address(0);
  int64_t v;
  s->steps++;
  if (s->user_kind != SIM_ROLE_ROOT && fault_roll(s, SIM_K_SPAWNFAIL, G.cfg.spawnfail_ppm, &v, 1)) { G.cnt[SIM_C_SPAWNFAIL]++; return EAGAIN; }
  if (G.nth >= MAXT) fatal(SIM_F_INTERNAL, "too many simulated threads");
  ST *t = &G.t[G.nth];
  memset(t, 0, sizeof *t);
  t->id = G.nth++;
  t->fn = fn;
  t->arg = arg;
  t->deadline = NOD;
  t->state = T_READY;
  t->last_pc = image_base;
  t->prio = 1000 + (int)(G.replay ? 0 : rndn(1000));
  t->user_kind = SIM_ROLE_BACKGROUND;
  G.cnt[SIM_C_THREADS]++;
  int r = real_create(&t->pt, attr, tramp, t);
  if (r) fatal(SIM_F_INTERNAL, "real pthread_create failed");
  *out = t->pt;
  do_point((const char *)__builtin_return_address(0), 2);
  return 0;
}
static ST *find_pt(pthread_t p) {
  for (int i = G.nth - 1; i >= 0; i--) if (i > 0 && pthread_equal(G.t[i].pt, p)) return &G.t[i];
  return 0;
}
int pthread_join(pthread_t p, void **ret) {
  if (self && G.active) {
    ST *t = find_pt(p), *s = self;
    do_point((const char *)__builtin_return_address(0), 3);
    if (t == s) return EDEADLK;
    if (t && t->state != T_DONE) {
      s->state = T_JOIN;
      s->join_target = t->id;
      s->deadline = NOD;
      G.cnt[SIM_C_BLOCK]++;
      block_switch(s, 1);
    }
  }
  return real_join(p, ret);
}
int pthread_detach(pthread_t p) {
  if (self && G.active) { ST *t = find_pt(p); if (t) t->detached = 1; }
  return real_detach(p);
}

// ---------------------------------------------------------------- time
static int sim_sleep_until(int64_t dl, const char *pc) {
  ST *s = self;
  do_point(pc, 4);
  if (dl <= G.now) return 0;
  s->deadline = dl;
  s->state = T_SLEEP;
  s->timed_out = 0;
  G.cnt[SIM_C_SLEEP]++;
  block_switch(s, 1);
  s->timed_out = 0;
  return 0;
}
static int64_t ts2ns(const struct timespec *t) { return (int64_t)t->tv_sec * 1000000000ll + t->tv_nsec; }
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!self || !G.active) return (int)ret_errno(rsys(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0));
  int64_t v;
  G.now += 100;
  v = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? G.now + G.cfg.wall_base + G.wall_off : G.now + SIM_MONO_BASE;
  ts->tv_sec = v / 1000000000ll;
  ts->tv_nsec = v % 1000000000ll;
  G.cnt[SIM_C_CLOCKREAD]++;
  return 0;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t *t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec *rq, struct timespec *rm) {
  if (!self || !G.active) { long r = rsys(SYS_clock_nanosleep, id, flags, (long)rq, (long)rm, 0, 0); return (int)-r; }
  int64_t t = ts2ns(rq);
  if (flags & TIMER_ABSTIME) t -= id == CLOCK_REALTIME ? G.cfg.wall_base + G.wall_off : SIM_MONO_BASE;
  else t += G.now;
  return sim_sleep_until(t, (const char *)__builtin_return_address(0));
}
int nanosleep(const struct timespec *rq, struct timespec *rm) {
  if (!self || !G.active) return (int)ret_errno(rsys(SYS_nanosleep, (long)rq, (long)rm, 0, 0, 0, 0));
  return sim_sleep_until(G.now + ts2ns(rq), (const char *)__builtin_return_address(0));
}
int sched_yield(void) {
  if (!self || !G.active) return (int)ret_errno(rsys(SYS_sched_yield, 0, 0, 0, 0, 0, 0));
  ST *s = self;
  do_point((const char *)__builtin_return_address(0), 5);
  ST *to = default_ready(s);
  if (to && to != s) { G.hash = mix64(G.hash ^ 0x55 ^ (uint64_t)to->id); transfer(s, to, 1); }
  return 0;
}

// ---------------------------------------------------------------- randomness
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
  if (!G.active) return ret_errno(rsys(SYS_getrandom, (long)buf, (long)n, flags, 0, 0, 0));
  uint8_t *p = buf;
  for (size_t i = 0; i < n; i++) {
    if (i % 8 == 0) G.rand_stream = mix64(G.rand_stream);
    p[i] = (uint8_t)(G.rand_stream >> (8 * (i % 8)));
  }
  G.cnt[SIM_C_RANDOM]++;
  return (ssize_t)n;
}

// ---------------------------------------------------------------- simulated disk
#define NFILES 64
#define FDBASE 0x40000000
// `dur` is the content that survives a loss of power: what was there at the last fsync.
typedef struct { char path[256]; uint8_t *data; size_t len, cap; int used; uint8_t *dur; size_t dur_len; int dirty; } SF;
typedef struct { int used, file, flags; size_t off; } SFD;
static SF files[NFILES];
static SFD fds[NFILES];
static sim_disk_cfg D;
static uint64_t d_ops, d_written;
static int on_disk(const char *p) { return p && strncmp(p, "/simdisk/", 9) == 0; }
void sim_disk_reset(const sim_disk_cfg *c) {
  for (int i = 0; i < NFILES; i++) { files[i].used = 0; files[i].len = 0; fds[i].used = 0; }
  D = *c; d_ops = 0; d_written = 0;
}
void sim_disk_faults(const sim_disk_cfg *c) { D = *c; d_ops = 0; d_written = 0; }
static SF *sf_find(const char *p) {
  for (int i = 0; i < NFILES; i++) if (files[i].used && !strcmp(files[i].path, p)) return &files[i];
  return 0;
}
static SF *sf_new(const char *p) {
  for (int i = 0; i < NFILES; i++) if (!files[i].used) { memset(files[i].path, 0, 256); strncpy(files[i].path, p, 255); files[i].used = 1; files[i].len = 0; files[i].dur_len = 0; files[i].dirty = 1; return &files[i]; }
  return 0;
}
static int sf_grow(SF *f, size_t n) {
  if (n <= f->cap) return 0;
  size_t c = f->cap ? f->cap : 4096;
  while (c < n) c *= 2;
  f->data = realloc(f->data, c);
  memset(f->data + f->cap, 0, c - f->cap);
  f->cap = c;
  return 0;
}
static void sf_sync(SF *f) {
  f->dur = realloc(f->dur, f->len + 1);
  if (f->len) memcpy(f->dur, f->data, f->len);
  f->dur_len = f->len;
  f->dirty = 0;
}
static void (*exit_fn)(int);
void sim_on_exit(void (*f)(int)) { exit_fn = f; }
/// The process is killed here; with `power`, what was not synced may be lost or cut short.
static void sim_crash(void) {
  if (D.power)
    for (int i = 0; i < NFILES; i++) {
      SF *f = &files[i];
      if (!f->used || !f->dirty) continue;
      switch (mix64(D.seed + (uint64_t)i * 31) % 3) {
        case 0: if (f->len) f->len = (size_t)(mix64(D.seed + (uint64_t)i * 131) % (f->len + 1)); break;
        case 1: sf_grow(f, f->dur_len); if (f->dur_len) memcpy(f->data, f->dur, f->dur_len); f->len = f->dur_len; break;
        default: break;
      }
    }
  memset(&D, 0, sizeof D);
  D.fail_after_bytes = D.read_fail_after = -1;
  exit_fn(-1);
  _exit(97);
}
void exit(int code) {
  if (self && G.active && exit_fn) { memset(&D, 0, sizeof D); D.fail_after_bytes = D.read_fail_after = -1; exit_fn(code); }
  fflush(0);
  _exit(code);
}
// The arguments a simulated program sees.
static char **saved_argv;
static int saved_argc;
__attribute__((constructor)) static void save_args(int argc, char **argv) { saved_argc = argc; saved_argv = argv; }
int sim_set_args(const char *const *a, int n) {
  if (n >= saved_argc) return -1;
  for (int i = 0; i < n; i++) saved_argv[i] = strdup(a[i]);
  saved_argv[n] = 0;
  return 0;
}
static int capture;
void sim_capture(int on) { capture = on; }
int sim_disk_put(const char *path, const uint8_t *data, size_t n) {
  SF *f = sf_find(path);
  if (!f) f = sf_new(path);
  if (!f) return -1;
  sf_grow(f, n ? n : 1);
  memcpy(f->data, data, n);
  f->len = n;
  sf_sync(f);
  return 0;
}
long sim_disk_get(const char *path, const uint8_t **out) {
  SF *f = sf_find(path);
  if (!f) return -1;
  *out = f->data;
  return (long)f->len;
}
/// The path of the n-th file.
const char *sim_disk_path(int n) {
  for (int i = 0; i < NFILES; i++) if (files[i].used && n-- == 0) return files[i].path;
  return 0;
}
uint64_t sim_disk_ops(void) { return d_ops; }
static int disk_point(const char *pc) {
  if (self && G.active) { do_point(pc, 6); int64_t lat = (int64_t)D.latency_ns; if (lat) sim_sleep_until(G.now + lat, pc); }
  d_ops++;
  if (D.crash_at && d_ops == D.crash_at && exit_fn) sim_crash();
  return 0;
}
static int dfd(int fd) { return fd >= FDBASE && fd < FDBASE + NFILES && fds[fd - FDBASE].used; }
static int sim_open(const char *p, int flags) {
  disk_point((const char *)__builtin_return_address(0));
  if (D.open_err && (flags & O_ACCMODE) != O_RDONLY) { G.cnt[SIM_C_IOERR]++; errno = D.open_err; return -1; }
  if (D.open_read_err && (flags & O_ACCMODE) == O_RDONLY) { G.cnt[SIM_C_IOERR]++; errno = D.open_read_err; return -1; }
  SF *f = sf_find(p);
  if (f && (flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
  if (!f) {
    if (!(flags & O_CREAT) || strchr(p + 9, '/')) { errno = ENOENT; return -1; }
    f = sf_new(p);
    if (!f) { errno = ENOSPC; return -1; }
  }
  if (flags & O_TRUNC) { f->len = 0; f->dirty = 1; }
  for (int i = 0; i < NFILES; i++)
    if (!fds[i].used) { fds[i].used = 1; fds[i].file = (int)(f - files); fds[i].flags = flags; fds[i].off = (flags & O_APPEND) ? f->len : 0; return FDBASE + i; }
  errno = EMFILE;
  return -1;
}
static ssize_t sim_write(int fd, const void *b, size_t n) {
  disk_point((const char *)__builtin_return_address(0));
  SFD *d = &fds[fd - FDBASE];
  SF *f = &files[d->file];
  if (D.eintr_every && d_ops % D.eintr_every == 0) { G.cnt[SIM_C_EINTR]++; errno = EINTR; return -1; }
  if (D.short_writes && n > 1) { size_t k = 1 + (size_t)(mix64(d_ops * 77 + D.seed) % n); if (k < n) { G.cnt[SIM_C_SHORTWRITE]++; n = k; } }
  if (D.fail_after_bytes >= 0 && d_written + n > (uint64_t)D.fail_after_bytes) {
    size_t room = (uint64_t)D.fail_after_bytes > d_written ? (size_t)((uint64_t)D.fail_after_bytes - d_written) : 0;
    if (!room) { G.cnt[SIM_C_IOERR]++; errno = D.write_err ? D.write_err : ENOSPC; return -1; }
    G.cnt[SIM_C_SHORTWRITE]++;
    n = room;
  }
  if (d->flags & O_APPEND) d->off = f->len;
  sf_grow(f, d->off + n);
  memcpy(f->data + d->off, b, n);
  d->off += n;
  if (d->off > f->len) f->len = d->off;
  d_written += n;
  f->dirty = 1;
  return (ssize_t)n;
}
int open64(const char *p, int flags, ...) {
  va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
  if (on_disk(p)) return sim_open(p, flags);
  return (int)ret_errno(rsys(SYS_openat, AT_FDCWD, (long)p, flags, mode, 0, 0));
}
int open(const char *p, int flags, ...) {
  va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
  if (on_disk(p)) return sim_open(p, flags);
  return (int)ret_errno(rsys(SYS_openat, AT_FDCWD, (long)p, flags, mode, 0, 0));
}
static ssize_t captured(int fd, const void *b, size_t n) {
  const char *p = fd == 1 ? "/simdisk/.stdout" : "/simdisk/.stderr";
  SF *f = sf_find(p);
  if (!f) f = sf_new(p);
  sf_grow(f, f->len + n + 1);
  memcpy(f->data + f->len, b, n);
  f->len += n;
  return (ssize_t)n;
}
ssize_t write(int fd, const void *b, size_t n) { if (capture && (fd == 1 || fd == 2)) return captured(fd, b, n); return dfd(fd) ? sim_write(fd, b, n) : ret_errno(rsys(SYS_write, fd, (long)b, (long)n, 0, 0, 0)); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (capture && (fd == 1 || fd == 2)) { ssize_t t = 0; for (int i = 0; i < c; i++) t += captured(fd, v[i].iov_base, v[i].iov_len); return t; }
  if (!dfd(fd)) return ret_errno(rsys(SYS_writev, fd, (long)v, c, 0, 0, 0));
  for (int i = 0; i < c; i++) if (v[i].iov_len) return sim_write(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
ssize_t read(int fd, void *b, size_t n) {
  if (!dfd(fd)) return ret_errno(rsys(SYS_read, fd, (long)b, (long)n, 0, 0, 0));
  disk_point((const char *)__builtin_return_address(0));
  SFD *d = &fds[fd - FDBASE];
  SF *f = &files[d->file];
  if (D.eintr_every && d_ops % D.eintr_every == 0) { G.cnt[SIM_C_EINTR]++; errno = EINTR; return -1; }
  if (D.read_fail_after >= 0 && (int64_t)d->off >= D.read_fail_after && d->off < f->len) { G.cnt[SIM_C_IOERR]++; errno = EIO; return -1; }
  size_t left = d->off < f->len ? f->len - d->off : 0;
  if (n > left) n = left;
  if (D.short_writes && n > 1) { G.cnt[SIM_C_SHORTREAD]++; n = 1 + (size_t)(mix64(d_ops * 91 + D.seed) % n); }
  if (D.read_fail_after >= 0 && (int64_t)(d->off + n) > D.read_fail_after && (int64_t)d->off < D.read_fail_after) n = (size_t)(D.read_fail_after - (int64_t)d->off);
  memcpy(b, f->data + d->off, n);
  d->off += n;
  return (ssize_t)n;
}
int close(int fd) {
  if (dfd(fd)) { disk_point((const char *)__builtin_return_address(0)); fds[fd - FDBASE].used = 0; if (D.close_err) { errno = D.close_err; return -1; } return 0; }
  return (int)ret_errno(rsys(SYS_close, fd, 0, 0, 0, 0, 0));
}
int fcntl64(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  if (dfd(fd)) return cmd == F_GETFL ? fds[fd - FDBASE].flags : 0;
  return (int)ret_errno(rsys(SYS_fcntl, fd, cmd, arg, 0, 0, 0));
}
int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  if (dfd(fd)) return cmd == F_GETFL ? fds[fd - FDBASE].flags : 0;
  return (int)ret_errno(rsys(SYS_fcntl, fd, cmd, arg, 0, 0, 0));
}
int fsync(int fd) { if (dfd(fd)) { disk_point(0); if (D.fsync_err) { G.cnt[SIM_C_IOERR]++; errno = D.fsync_err; return -1; } sf_sync(&files[fds[fd - FDBASE].file]); return 0; } return (int)ret_errno(rsys(SYS_fsync, fd, 0, 0, 0, 0, 0)); }
int fdatasync(int fd) { if (dfd(fd)) { disk_point(0); if (D.fsync_err) { G.cnt[SIM_C_IOERR]++; errno = D.fsync_err; return -1; } sf_sync(&files[fds[fd - FDBASE].file]); return 0; } return (int)ret_errno(rsys(SYS_fdatasync, fd, 0, 0, 0, 0, 0)); }
off64_t lseek64(int fd, off64_t o, int w) {
  if (!dfd(fd)) return ret_errno(rsys(SYS_lseek, fd, o, w, 0, 0, 0));
  SFD *d = &fds[fd - FDBASE];
  SF *f = &files[d->file];
  int64_t b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (int64_t)d->off : (int64_t)f->len;
  if (b + o < 0) { errno = EINVAL; return -1; }
  d->off = (size_t)(b + o);
  return (off64_t)d->off;
}
off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }
int ftruncate64(int fd, off64_t n) {
  if (!dfd(fd)) return (int)ret_errno(rsys(SYS_ftruncate, fd, n, 0, 0, 0, 0));
  SF *f = &files[fds[fd - FDBASE].file];
  sf_grow(f, (size_t)n);
  f->len = (size_t)n;
  f->dirty = 1;
  return 0;
}
int fchmod(int fd, mode_t m) { return dfd(fd) ? 0 : (int)ret_errno(rsys(SYS_fchmod, fd, m, 0, 0, 0, 0)); }
int chmod(const char *p, mode_t m) { return on_disk(p) ? 0 : (int)ret_errno(rsys(SYS_chmod, (long)p, m, 0, 0, 0, 0)); }
char *realpath(const char *p, char *out) {
  if (on_disk(p)) {
    if (!sf_find(p)) { errno = ENOENT; return 0; }
    if (!out) return strdup(p);
    return strcpy(out, p);
  }
  static char *(*real)(const char *, char *);
  if (!real) real = (char *(*)(const char *, char *))dlsym(RTLD_NEXT, "realpath");
  return real(p, out);
}
static void fill_stat64(struct stat64 *st, SF *f) { memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0644; st->st_size = (off64_t)f->len; st->st_nlink = 1; st->st_blksize = 4096; }
int fstat64(int fd, struct stat64 *st) {
  if (!dfd(fd)) return (int)ret_errno(rsys(SYS_fstat, fd, (long)st, 0, 0, 0, 0));
  fill_stat64(st, &files[fds[fd - FDBASE].file]);
  return 0;
}
int stat64(const char *restrict p, struct stat64 *restrict st) {
  if (!strcmp(p, "/simdisk")) { memset(st, 0, sizeof *st); st->st_mode = S_IFDIR | 0755; st->st_nlink = 2; return 0; }
  if (!on_disk(p)) return (int)ret_errno(rsys(SYS_stat, (long)p, (long)st, 0, 0, 0, 0));
  SF *f = sf_find(p);
  if (!f) { errno = ENOENT; return -1; }
  fill_stat64(st, f);
  return 0;
}
int statx(int dfd_, const char *restrict p, int flags, unsigned mask, struct statx *restrict sx) {
  SF *f = 0;
  // std probes for statx with null pointers, which the prototype declares impossible.
  const char *volatile pv = p;
  if (!pv) return (int)ret_errno(rsys(SYS_statx, dfd_, (long)pv, flags, mask, (long)sx, 0));
  if (!strcmp(p, "/simdisk")) {
    memset(sx, 0, sizeof *sx);
    sx->stx_mask = STATX_BASIC_STATS;
    sx->stx_mode = S_IFDIR | 0755;
    sx->stx_nlink = 2;
    return 0;
  }
  if (on_disk(p)) { f = sf_find(p); if (!f) { errno = ENOENT; return -1; } }
  else if (dfd(dfd_)) f = &files[fds[dfd_ - FDBASE].file];
  if (!f) return (int)ret_errno(rsys(SYS_statx, dfd_, (long)p, flags, mask, (long)sx, 0));
  memset(sx, 0, sizeof *sx);
  sx->stx_mask = STATX_BASIC_STATS;
  sx->stx_mode = S_IFREG | 0644;
  sx->stx_size = f->len;
  sx->stx_nlink = 1;
  sx->stx_blksize = 4096;
  return 0;
}
int rename(const char *a, const char *b) {
  if (!on_disk(a) || !on_disk(b)) return (int)ret_errno(rsys(SYS_rename, (long)a, (long)b, 0, 0, 0, 0));
  disk_point(0);
  if (D.rename_err) { G.cnt[SIM_C_IOERR]++; errno = D.rename_err; return -1; }
  SF *f = sf_find(a), *g = sf_find(b);
  if (!f) { errno = ENOENT; return -1; }
  if (g) g->used = 0;
  memset(f->path, 0, 256);
  strncpy(f->path, b, 255);
  return 0;
}
pid_t getpid(void) { return self && G.active ? 4242 : (pid_t)rsys(SYS_getpid, 0, 0, 0, 0, 0, 0); }
int unlink(const char *p) {
  if (!on_disk(p)) return (int)ret_errno(rsys(SYS_unlink, (long)p, 0, 0, 0, 0, 0));
  disk_point(0);
  SF *f = sf_find(p);
  if (!f) { errno = ENOENT; return -1; }
  f->used = 0;
  return 0;
}

// ---------------------------------------------------------------- control api
void sim_begin(const sim_cfg *cfg, const sim_choice *rep, int nrep, sim_fatal_fn f) {
  mallopt(M_ARENA_MAX, 1);
  memset(&G, 0, sizeof G);
  G.cfg = *cfg;
  G.rng = mix64(cfg->seed ^ 0xabcdef);
  G.rand_stream = mix64(cfg->seed ^ 0x1234567);
  G.replay = cfg->replay;
  G.fatal = f;
  if (nrep > SIM_MAXCHOICES) nrep = SIM_MAXCHOICES;
  if (nrep) memcpy(REPS, rep, sizeof(sim_choice) * (size_t)nrep);
  G.nrep = nrep;
  if (nrep) replay_build();
  G.nth = 1;
  ST *r = &G.t[0];
  r->id = 0;
  r->state = T_READY;
  r->deadline = NOD;
  r->prio = 1500;
  r->last_pc = image_base;
  r->user_kind = SIM_ROLE_ROOT;
  r->pt = pthread_self();
  self = r;
  if (!G.replay && cfg->strategy == SIM_PCT) {
    G.npct = (int)cfg->pct_depth > 16 ? 16 : (int)cfg->pct_depth;
    for (int i = 0; i < G.npct; i++) G.pct[i] = 1 + rndn(cfg->pct_len ? cfg->pct_len : 1000);
  }
  memset(fcov, 0, sizeof fcov);
  G.active = 1;
}
void sim_end(void) { G.active = 0; self = 0; }
void sim_role(int k) { if (self) self->user_kind = k; }
void sim_nopreempt(int on) { if (self) self->nopre = on; }
// The oracle takes over: threads switch only when they block (or spin for long).
void sim_calm(void) {
  G.cfg.strategy = SIM_NONE;
  G.cfg.preempt_ppm = G.cfg.hot_ppm = G.cfg.timeskip_ppm = G.cfg.spurious_ppm = G.cfg.spawnfail_ppm = 0;
  G.cfg.max_steps = G.steps + 20000000;
}
int sim_tid(void) { return self ? self->id : -1; }
int sim_active(void) { return self && G.active; }
uint64_t sim_seq(void) { return G.steps; }
int64_t sim_now(void) { return G.now; }
void sim_user_point(void) { POINT(); }
void sim_wall_jump(int64_t d) { G.wall_off += d; G.cnt[SIM_C_WALLJUMP]++; }
void sim_count(int c, uint64_t n) { if (c >= 0 && c < SIM_NCNT) G.cnt[c] += n; }
uint64_t sim_get_count(int c) { return G.cnt[c]; }
// Wait until every other thread is blocked with no timer pending (or done).
// Returns the number of threads that are not finished (besides the caller).
int sim_quiesce(void) {
  ST *s = self;
  if (!s || !G.active) return 0;
  s->steps++;
  s->last_pc = image_base;
  s->state = T_IDLE;
  s->deadline = NOD;
  block_switch(s, 1);
  int n = 0;
  for (int i = 0; i < G.nth; i++) if (&G.t[i] != s && G.t[i].state != T_DONE) n++;
  return n;
}
int sim_live(int role) {
  int n = 0;
  for (int i = 0; i < G.nth; i++) if (&G.t[i] != self && G.t[i].state != T_DONE && (role < 0 || G.t[i].user_kind == role)) n++;
  return n;
}
void sim_describe(char *b, size_t n) { describe(b, n); }
// A harness-level choice in [0,n): 0 is the default.
int64_t sim_pick(int64_t n, uint32_t ppm) {
  ST *s = self;
  if (!s || !G.active) return 0;
  s->steps++;
  int64_t v = 0;
  if (fault_roll(s, SIM_K_PICK, ppm, &v, G.replay ? 0 : (int64_t)(n > 1 ? 1 + rndn((uint64_t)n - 1) : 0))) return v;
  return 0;
}
int sim_records(const sim_choice **out) { *out = RECS; return G.rec_over ? -G.nrec : G.nrec; }
uint64_t sim_hash(void) { return G.hash; }
uint64_t sim_switches(void) { return G.switches; }
uint64_t sim_threads(void) { return (uint64_t)G.nth; }
uint64_t sim_funcs(void) { return G.funcs; }
const char *sim_image_base(void) { return image_base; }

// ------------------------------------------------------------ heap accounting
// The Rust allocator of the whole program: malloc with exact counts.
static int64_t heap_live, heap_blocks;
void *sim_malloc(size_t n, size_t al) {
  void *p = al <= 16 ? malloc(n) : aligned_alloc(al, (n + al - 1) / al * al);
  if (p) {
    __atomic_fetch_add(&heap_live, (int64_t)n, __ATOMIC_RELAXED);
    __atomic_fetch_add(&heap_blocks, 1, __ATOMIC_RELAXED);
  }
  return p;
}
void sim_free(void *p, size_t n) {
  __atomic_fetch_sub(&heap_live, (int64_t)n, __ATOMIC_RELAXED);
  __atomic_fetch_sub(&heap_blocks, 1, __ATOMIC_RELAXED);
  free(p);
}
void *sim_realloc(void *p, size_t old, size_t al, size_t n) {
  if (al <= 16) {
    void *q = realloc(p, n);
    if (q) __atomic_fetch_add(&heap_live, (int64_t)n - (int64_t)old, __ATOMIC_RELAXED);
    return q;
  }
  void *q = sim_malloc(n, al);
  if (q) {
    memcpy(q, p, old < n ? old : n);
    sim_free(p, old);
  }
  return q;
}
// Give back what the harness itself has allocated since the marks.
void sim_heap_reset(int64_t live, int64_t blocks) { heap_live = live; heap_blocks = blocks; }
int64_t sim_heap_live(void) { return heap_live; }
int64_t sim_heap_blocks(void) { return heap_blocks; }
