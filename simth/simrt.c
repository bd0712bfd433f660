// Deterministic thread runtime. Implements the compiler's memory-access hooks (-Zsanitizer=thread) as scheduling points and
// passes one baton among real threads: only its holder runs. Everything a schedule depends on (who runs, futex wake-ups,
// clock, random numbers, environment look-ups) is decided here from a seed, or read back from a recorded list.
// This file is compiled without instrumentation.
#define _GNU_SOURCE
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <errno.h>
#include <stdarg.h>
#include <stdlib.h>
#include <dlfcn.h>
#include <pthread.h>
#include <sys/mman.h>
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <linux/futex.h>
#include <fcntl.h>
#include <signal.h>
#include <spawn.h>
#include <stdio.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/uio.h>

#define MAXT 64
typedef uint64_t u64;
typedef uint32_t u32;

static inline long raw(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static inline u64 mix(u64 x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}

enum { S_FREE, S_RUN, S_FUTEX, S_JOIN, S_SLEEP, S_DEAD };
struct thr {
  int state;
  u32 *addr;
  u64 deadline; // 0: none
  int timed_out;
  u32 bitset;
  int join;
  pthread_t pt;   // 0: nobody will ask for it again
  pthread_t real; // not yet collected
  volatile int go;
  u32 prio;
  u64 wait_seq;
};
static struct thr T[MAXT];
static int nthr, cur;
static __thread int me = -1;
static __thread int np; // no preemption while > 0
static pthread_key_t key;

// ---- configuration and statistics, shared with the driver
struct sim_cfg {
  int kind;      // 0 none, 1 uniform, 2 at shared data, 3 priorities, 4 priorities, changes at shared data, 5 replay
  u32 p_inv;
  u64 seed;
  int d;
  u64 horizon;
  u32 spurious_inv; // futex waits that return early: one in so many, 0 never
  u64 step_cap;
  u64 clock;
  u64 rnd;
  u64 env; // 0: environment untouched; otherwise seed of invented values
  const u64 *dec; // replay: pairs step, code
  u64 ndec;
  u32 weak_inv; // atomic loads that return an older value the memory model allows: one in so many, 0 never
  u64 reuse; // 0: freed blocks come back late; otherwise at once, last freed first
  u64 effects; // report what the code under test does besides returning
};
struct sim_stat {
  u64 steps, switches, hot, spurious, futex_waits, futex_wakes, threads, clock_reads, random_reads, env_reads, yields, sleeps, timer_jumps, awaits, stale, loads_with_choice, checked;
  u64 race[6]; // address, size, thread, other thread, kinds, clock
  u64 ndec;
  u64 sched_hash;
  u64 race_pc[2];
  int outcome; // 0 ended, 1 deadlock, 2 step cap, 3 data race, 4 effect outside the call
  u64 effect_pc;
  char effect[256];
  u64 dec[2 * 65536];
};
static struct sim_cfg C;
static struct sim_stat *S;
static int on;
static u64 step, now, last_switch, rctr, chg[16];
static u64 hotn;
static u32 lowprio;
static u64 nextdec;
static u64 seqn;
static int lastid;
static int64_t roff; // the wall clock may be set, the monotonic clock may not

static void die(int outcome) {
  S->outcome = outcome;
  S->steps = step;
  raw(SYS_exit_group, 77, 0, 0, 0, 0, 0);
}
static inline int runnable(int t) {
  switch (T[t].state) {
  case S_RUN:
    return 1;
  case S_FUTEX:
  case S_SLEEP:
    return T[t].deadline && now >= T[t].deadline;
  case S_JOIN:
    return T[T[t].join].state == S_DEAD;
  }
  return 0;
}
static void park(int t) {
  while (!__atomic_load_n(&T[t].go, __ATOMIC_ACQUIRE))
    raw(SYS_futex, (long)&T[t].go, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  T[t].go = 0;
}
static void unpark(int t) {
  __atomic_store_n(&T[t].go, 1, __ATOMIC_RELEASE);
  raw(SYS_futex, (long)&T[t].go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static void record(u64 s, u64 code) {
  if (S->ndec < 65536) {
    S->dec[2 * S->ndec] = s;
    S->dec[2 * S->ndec + 1] = code;
  }
  S->ndec++;
  if (S->ndec >= 65536 && C.kind != 5) { // no room for more: from here on only default choices
    C.kind = 0;
    C.spurious_inv = 0;
    C.weak_inv = 0;
  }
}
// hands the baton to t; returns when this thread has it again (never for a dead thread)
static void hand(int t, void *pc) {
  int m = me;
  if (t == m)
    return;
  S->switches++;
  S->sched_hash = mix(S->sched_hash ^ (u64)t ^ ((u64)pc << 8));
  last_switch = step;
  cur = t;
  int dead = T[m].state == S_DEAD;
  unpark(t);
  if (!dead)
    park(m);
}
static int next_of(int m) { // default choice: the next thread in a circle
  for (int k = 1; k <= nthr; k++) {
    int t = (m + k) % nthr;
    if (runnable(t))
      return t;
  }
  return -1;
}
static int top_prio(void) {
  int b = -1;
  for (int t = 0; t < nthr; t++)
    if (runnable(t) && (b < 0 || T[t].prio > T[b].prio))
      b = t;
  return b;
}
static int pick_random(u64 h) {
  int c[MAXT], n = 0;
  for (int t = 0; t < nthr; t++)
    if (runnable(t))
      c[n++] = t;
  return n ? c[h % n] : -1;
}
// the current thread cannot go on
static void block(void *pc) {
  int m = me;
  for (;;) {
    step++;
    int dflt = next_of(m);
    if (dflt < 0) {
      u64 d = 0;
      for (int t = 0; t < nthr; t++)
        if ((T[t].state == S_FUTEX || T[t].state == S_SLEEP) && T[t].deadline && (!d || T[t].deadline < d))
          d = T[t].deadline;
      if (!d)
        die(1);
      now = d;
      S->timer_jumps++;
      continue;
    }
    int t = dflt;
    if (C.kind == 5) {
      while (nextdec < C.ndec && C.dec[2 * nextdec] < step)
        nextdec++;
      if (nextdec < C.ndec && C.dec[2 * nextdec] == step && C.dec[2 * nextdec + 1] < 1000) {
        u64 c = C.dec[2 * nextdec + 1];
        if (c < (u64)nthr && runnable(c))
          t = c;
        nextdec++;
      }
    } else if (C.kind >= 3)
      t = top_prio();
    else if (C.kind)
      t = pick_random(mix(C.seed ^ step * 3));
    if (t != dflt)
      record(step, t);
    hand(t, pc);
    return;
  }
}
static void point(int hot, void *pc) {
  step++;
  now += 41;
  if (step >= C.step_cap)
    die(2);
  int m = me, t = m;
  if (hot) {
    S->hot++;
    hotn++;
  }
  if (nthr == 1)
    return;
  switch (C.kind) {
  case 1:
    if (mix(C.seed ^ step) % C.p_inv == 0)
      t = pick_random(mix(C.seed ^ step * 3));
    break;
  case 2:
    if (hot && mix(C.seed ^ step) % C.p_inv == 0)
      t = pick_random(mix(C.seed ^ step * 3));
    break;
  case 3:
  case 4:
    if (C.kind == 3 || hot) {
      u64 n = C.kind == 3 ? step : hotn;
      for (int k = 0; k < C.d; k++)
        if (chg[k] == n)
          T[m].prio = --lowprio;
    }
    t = top_prio();
    break;
  case 5:
    if (nextdec < C.ndec && C.dec[2 * nextdec] <= step) {
      while (nextdec < C.ndec && C.dec[2 * nextdec] < step)
        nextdec++;
      if (nextdec < C.ndec && C.dec[2 * nextdec] == step && C.dec[2 * nextdec + 1] < 1000) {
        u64 c = C.dec[2 * nextdec + 1];
        if (c < (u64)nthr && runnable(c))
          t = c;
        nextdec++;
      }
    }
    break;
  }
  // nobody may run alone for ever: part of the default, so not recorded
  if (t == m && step - last_switch > 300000) {
    int o = next_of(m);
    last_switch = step;
    if (C.kind == 3 || C.kind == 4)
      T[m].prio = --lowprio;
    if (o >= 0 && o != m) {
      hand(o, pc);
      return;
    }
  }
  if (t >= 0 && t != m) {
    record(step, t);
    hand(t, pc);
  }
}

// ---- which accesses touch data that threads share
extern char __data_start[], _end[];
static struct {
  u64 a;
  u64 readers, writers;
} H[1 << 14];
static int is_hot(const void *p, int wr) {
  u64 a = (u64)p;
  u64 sp = (u64)__builtin_frame_address(0);
  if (a - sp < (256 << 10))
    return 0;
  int global = a >= (u64)__data_start && a < (u64)_end;
  if (nthr == 1)
    return global && wr;
  a >>= 3;
  u64 k = mix(a) & ((1 << 14) - 1);
  u64 bit = 1ull << me;
  if (H[k].a != a) {
    H[k].a = a;
    H[k].readers = wr ? 0 : bit;
    H[k].writers = wr ? bit : 0;
    return global && wr;
  }
  int hot = wr ? ((H[k].readers | H[k].writers) & ~bit) != 0 : (H[k].writers & ~bit) != 0;
  if (wr)
    H[k].writers |= bit;
  else
    H[k].readers |= bit;
  return hot || (global && (wr || H[k].writers));
}
// ---- which accesses are ordered (vector clocks), and which values an atomic load may return
typedef u32 clk;
static clk VC[MAXT][MAXT]; // what each thread knows of the others
static clk FA[MAXT][MAXT]; // what it will know after an acquire fence
static clk FR[MAXT][MAXT]; // what it knew at its last release fence
static clk GF[MAXT];       // sequentially consistent fences, all of them
static clk SLOT[64][MAXT]; // hand-over places of the harness
static char has_fr[MAXT];
static inline void join(clk *a, const clk *b) {
  for (int k = 0; k < nthr; k++)
    if (b[k] > a[k])
      a[k] = b[k];
}
#define HN 4
struct store {
  u64 val;
  clk rel[MAXT];
  clk ep;
  short tid; // -1: before everything
  char has_rel, sc;
};
struct loc {
  u64 a;
  int sz, n;      // n stores known, s[(seq) % HN] the newest
  u32 seq;
  u32 seen[MAXT];
  clk seen_ep[MAXT];
  struct store s[HN];
};
#define NLOC (1 << 13)
static struct loc L[NLOC];
static int nloc, hb_off;
static u64 bloom[1 << 10];
static inline u64 bslot(u64 a) { return (a >> 3) & 0xffff; }
static struct loc *loc_find(u64 a) {
  u64 b = bslot(a);
  if (!(bloom[b >> 6] >> (b & 63) & 1))
    return 0;
  for (u64 k = mix(a);; k++) {
    struct loc *l = &L[k & (NLOC - 1)];
    if (l->a == a)
      return l;
    if (!l->a)
      return 0;
  }
}
static struct loc *loc_make(u64 a, int sz) {
  struct loc *l = loc_find(a);
  if (l)
    return l;
  if (nloc > NLOC * 3 / 4) {
    hb_off = 1;
    return 0;
  }
  nloc++;
  u64 b = bslot(a);
  bloom[b >> 6] |= 1ull << (b & 63);
  for (u64 k = mix(a);; k++) {
    l = &L[k & (NLOC - 1)];
    if (!l->a) {
      l->a = a;
      l->sz = sz;
      l->n = 0;
      return l;
    }
  }
}
static void plain_write(u64 a, u64 n) { // an atomic that is written plainly starts anew
  if (!nloc)
    return;
  for (u64 g = a & ~7ull; g < a + n && g < a + 4096; g += 8) {
    u64 b = bslot(g);
    if (bloom[b >> 6] >> (b & 63) & 1)
      for (int k = 0; k < 8; k++) {
        struct loc *l = loc_find(g + k);
        if (l && g + k >= a && g + k < a + n)
          l->n = 0;
      }
  }
}
static inline u64 rd(const volatile void *p, int sz) {
  switch (sz) {
  case 1: return *(const volatile uint8_t *)p;
  case 2: return *(const volatile uint16_t *)p;
  case 4: return *(const volatile uint32_t *)p;
  }
  return *(const volatile uint64_t *)p;
}
#define ACQ(mo) ((mo) == 1 || (mo) == 2 || (mo) >= 4)
#define REL(mo) ((mo) >= 3)
static struct loc *loc_valid(const volatile void *p, int sz) {
  struct loc *l = loc_find((u64)p);
  if (!l || !l->n)
    return 0;
  if (l->sz != sz || l->s[l->seq % HN].val != rd(p, sz)) { // somebody used it otherwise: forget
    l->n = 0;
    return 0;
  }
  return l;
}
static void took(struct loc *l, u32 q, int mo) {
  struct store *s = &l->s[q % HN];
  if (s->has_rel)
    join(ACQ(mo) ? VC[me] : FA[me], s->rel);
  if (q > l->seen[me] || !l->seen_ep[me]) {
    l->seen[me] = q;
  }
  l->seen_ep[me] = VC[me][me];
}
static u64 hb_load(const volatile void *p, int sz, int mo) {
  u64 v = rd(p, sz);
  struct loc *l = loc_valid(p, sz);
  if (!l)
    return v;
  u32 hi = l->seq, lo = hi - (l->n - 1);
  if (!np && C.weak_inv + (C.kind == 5) && l->n > 1) {
    for (u32 q = hi; q > lo; q--) {
      struct store *s = &l->s[q % HN];
      if (s->tid < 0 || s->tid == me || s->ep <= VC[me][s->tid] || (mo == 5 && s->sc)) {
        lo = q;
        break;
      }
    }
    for (int t = 0; t < nthr; t++)
      if (l->seen_ep[t] && l->seen_ep[t] <= VC[me][t] && l->seen[t] > lo && l->seen[t] <= hi)
        lo = l->seen[t];
    u64 c = hi - lo;
    if (c) {
      S->loads_with_choice++;
      u64 back = 0;
      if (C.kind == 5) {
        if (nextdec < C.ndec && C.dec[2 * nextdec] == step && C.dec[2 * nextdec + 1] >= 2000) {
          back = C.dec[2 * nextdec + 1] - 2000;
          if (back > c)
            back = 0;
          nextdec++;
        }
      } else if (C.kind && mix(C.seed ^ step * 11) % C.weak_inv == 0)
        back = 1 + mix(C.seed ^ step * 13) % c;
      if (back) {
        S->stale++;
        record(step, 2000 + back);
        hi -= back;
        v = l->s[hi % HN].val;
      }
    }
  }
  took(l, hi, mo);
  return v;
}
static void hb_put(const volatile void *p, int sz, u64 old, u64 val, int mo, int rmw) {
  struct loc *l = loc_valid(p, sz);
  if (!l) {
    l = loc_make((u64)p, sz);
    if (!l)
      return;
    l->sz = sz;
    l->n = 1;
    l->seq = 1;
    memset(l->seen, 0, sizeof l->seen);
    memset(l->seen_ep, 0, sizeof l->seen_ep);
    struct store *s = &l->s[1];
    s->val = old;
    s->tid = -1;
    s->has_rel = s->sc = 0;
  }
  struct store *pr = &l->s[l->seq % HN];
  if (rmw)
    took(l, l->seq, mo);
  l->seq++;
  if (l->n < HN)
    l->n++;
  struct store *s = &l->s[l->seq % HN];
  s->val = val;
  s->tid = me;
  s->ep = VC[me][me];
  s->sc = mo == 5;
  s->has_rel = 0;
  if (rmw && pr->has_rel) {
    memcpy(s->rel, pr->rel, sizeof s->rel);
    s->has_rel = 1;
  }
  const clk *mine = REL(mo) ? VC[me] : has_fr[me] ? FR[me] : 0;
  if (mine) {
    if (!s->has_rel)
      memset(s->rel, 0, sizeof s->rel);
    s->has_rel = 1;
    join(s->rel, mine);
  }
  l->seen[me] = l->seq;
  l->seen_ep[me] = VC[me][me];
  if (REL(mo))
    VC[me][me]++;
}
static void hb_fence(int mo) {
  if (ACQ(mo))
    join(VC[me], FA[me]);
  if (mo == 5) {
    join(VC[me], GF);
    join(GF, VC[me]);
  }
  if (REL(mo)) {
    memcpy(FR[me], VC[me], sizeof FR[me]);
    has_fr[me] = 1;
    VC[me][me]++;
  }
}
// accesses of the last while, for conflicts without order
struct cell {
  u64 pc;
  clk ep;
  uint8_t tid, mask, wr, at;
};
static u32 gen = 1; // everything before the last moment with one thread only is ordered
static int live = 1;
static struct gran {
  u64 a;
  u32 gen;
  int nx;
  struct cell c[4];
} G[1 << 14];
static void gran_check(u64 a, unsigned mask, int wr, int atom, void *pc) {
  struct gran *g = &G[mix(a) & ((1 << 14) - 1)];
  if (g->a != a || g->gen != gen) {
    memset(g, 0, sizeof *g);
    g->a = a;
    g->gen = gen;
  }
  int put = -1;
  for (int k = 0; k < 4; k++) {
    struct cell *c = &g->c[k];
    if (!c->mask) {
      if (put < 0)
        put = k;
      continue;
    }
    if (c->tid == me) {
      if (c->mask == mask && c->at == atom && c->wr <= wr)
        put = k;
      continue;
    }
    if (!(c->mask & mask) || !(c->wr | wr) || (c->at & atom))
      continue;
    if (c->ep > VC[me][c->tid]) {
      S->race[0] = a << 3;
      S->race[1] = mask;
      S->race[2] = me;
      S->race[3] = c->tid;
      S->race[4] = wr | atom << 1 | c->wr << 2 | c->at << 3;
      S->race_pc[0] = (u64)pc;
      S->race_pc[1] = c->pc;
      die(3);
    }
    if (wr && !atom && (c->mask & ~mask) == 0 && put < 0)
      put = k;
  }
  if (put < 0)
    put = g->nx++ & 3;
  g->c[put] = (struct cell){(u64)pc, VC[me][me], me, mask, wr, atom};
}
static void check(const volatile void *p, u64 n, int wr, int atom, void *pc) {
  if (hb_off || live == 1 || !n)
    return;
  S->checked++;
  u64 a = (u64)p, e = a + (n > 1024 ? 1024 : n);
  while (a < e) {
    u64 ge = (a & ~7ull) + 8;
    if (ge > e)
      ge = e;
    gran_check(a >> 3, ((1u << (ge - a)) - 1) << (a & 7), wr, atom, pc);
    a = ge;
  }
}
static void forget(u64 a, u64 n) { // memory handed out anew
  if (live > 1 && n > (1 << 16)) {
    gen++;
  } else if (live > 1)
    for (u64 g = a >> 3; g <= (a + n - 1) >> 3; g++) {
      struct gran *q = &G[mix(g) & ((1 << 14) - 1)];
      if (q->a == g)
        q->a = 0;
    }
  plain_write(a, n);
}
#define PC __builtin_return_address(0)
#define LIVE (on && me >= 0 && !np)
static inline void accn(const void *p, u64 n, int wr, void *pc) {
  if (!on || me < 0)
    return;
  if (!np) {
    point(is_hot(p, wr), pc);
    check(p, n, wr, 0, pc);
  }
  if (wr)
    plain_write((u64)p, n);
}
#define RW(sz)                                                                   \
  void __tsan_read##sz(void *p) { accn(p, sz, 0, PC); }                               \
  void __tsan_write##sz(void *p) { accn(p, sz, 1, PC); }                              \
  void __tsan_unaligned_read##sz(void *p) { accn(p, sz, 0, PC); }                     \
  void __tsan_unaligned_write##sz(void *p) { accn(p, sz, 1, PC); }                    \
  void __tsan_read_write##sz(void *p) { accn(p, sz, 1, PC); }                         \
  void __tsan_unaligned_read_write##sz(void *p) { accn(p, sz, 1, PC); }               \
  void __tsan_volatile_read##sz(void *p) { accn(p, sz, 0, PC); }                      \
  void __tsan_volatile_write##sz(void *p) { accn(p, sz, 1, PC); }                     \
  void __tsan_unaligned_volatile_read##sz(void *p) { accn(p, sz, 0, PC); }            \
  void __tsan_unaligned_volatile_write##sz(void *p) { accn(p, sz, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_vptr_update(void **p, void *v) { (void)v; accn(p, 8, 1, PC); }
void __tsan_vptr_read(void **p) { accn(p, 8, 0, PC); }
void __tsan_read_range(void *p, unsigned long n) { accn(p, n, 0, PC); }
void __tsan_write_range(void *p, unsigned long n) { accn(p, n, 1, PC); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) {
  if (n) { accn(s, n, 0, PC); accn(d, n, 1, PC); }
  return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, unsigned long n) {
  if (n) { accn(s, n, 0, PC); accn(d, n, 1, PC); }
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, unsigned long n) {
  if (n) accn(d, n, 1, PC);
  return memset(d, c, n);
}
static inline void at(const volatile void *p, int sz, int wr, void *pc) {
  if (!LIVE)
    return;
  is_hot((const void *)p, wr);
  point(1, pc);
  check(p, sz, wr, 1, pc);
}
#define SIM (on && me >= 0)
#define SC __ATOMIC_SEQ_CST
#define RMW(bits, ty, op, bi)                                                              \
  ty __tsan_atomic##bits##_fetch_##op(volatile ty *p, ty v, int mo) {                      \
    at(p, sizeof *p, 1, PC);                                                               \
    ty o = bi(p, v, SC);                                                                   \
    if (SIM) { ty n = *p; *p = o; hb_put(p, sizeof *p, o, n, mo, 1); *p = n; }             \
    return o;                                                                              \
  }
#define CAS(bits, ty)                                                                      \
  static int cas##bits(volatile ty *p, ty *c, ty v, int mo, int f, void *pc) {             \
    at(p, sizeof *p, 1, pc);                                                               \
    ty o = *p;                                                                             \
    if (!SIM) return __atomic_compare_exchange_n(p, c, v, 0, SC, SC);                      \
    if (o == *c) { hb_put(p, sizeof *p, o, v, mo, 1); *p = v; return 1; }                  \
    struct loc *l = loc_valid(p, sizeof *p);                                               \
    if (l) took(l, l->seq, f);                                                             \
    *c = o;                                                                                \
    return 0;                                                                              \
  }
#define AT(bits, ty)                                                                       \
  CAS(bits, ty)                                                                            \
  ty __tsan_atomic##bits##_load(const volatile ty *p, int mo) {                            \
    at(p, sizeof *p, 0, PC);                                                               \
    return SIM ? (ty)hb_load(p, sizeof *p, mo) : __atomic_load_n(p, SC);                   \
  }                                                                                        \
  void __tsan_atomic##bits##_store(volatile ty *p, ty v, int mo) {                         \
    at(p, sizeof *p, 1, PC);                                                               \
    if (SIM) hb_put(p, sizeof *p, *p, v, mo, 0);                                           \
    __atomic_store_n(p, v, SC);                                                            \
  }                                                                                        \
  ty __tsan_atomic##bits##_exchange(volatile ty *p, ty v, int mo) {                        \
    at(p, sizeof *p, 1, PC);                                                               \
    if (SIM) hb_put(p, sizeof *p, *p, v, mo, 1);                                           \
    return __atomic_exchange_n(p, v, SC);                                                  \
  }                                                                                        \
  RMW(bits, ty, add, __atomic_fetch_add) RMW(bits, ty, sub, __atomic_fetch_sub) RMW(bits, ty, and, __atomic_fetch_and) \
  RMW(bits, ty, or, __atomic_fetch_or) RMW(bits, ty, xor, __atomic_fetch_xor) RMW(bits, ty, nand, __atomic_fetch_nand) \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *p, ty *c, ty v, int mo, int f) { return cas##bits(p, c, v, mo, f, PC); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *p, ty *c, ty v, int mo, int f) { return cas##bits(p, c, v, mo, f, PC); }   \
  ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *p, ty c, ty v, int mo, int f) { cas##bits(p, &c, v, mo, f, PC); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
  if (LIVE)
    point(1, PC);
  if (SIM)
    hb_fence(mo);
}
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

// ---- threads
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
struct boot {
  void *(*f)(void *);
  void *arg;
  int id;
};
static void thread_end(void *v) { // runs after the thread's own destructors of thread-local data
  if (!on || me < 0)
    return;
  if ((long)v < 3) { // ... including those that other keys run
    pthread_setspecific(key, (void *)((long)v + 1));
    return;
  }
  T[me].state = S_DEAD;
  if (--live == 1) {
    gen++;
    for (int t = 0; t < nthr; t++)
      if (T[t].state != S_DEAD && T[t].state != S_FREE)
        for (int u = 0; u < nthr; u++)
          join(VC[t], VC[u]);
  }
  block(0);
  me = -1;
}
static void *tramp(void *v) {
  struct boot *b = v;
  me = b->id;
  np = 0;
  park(me);
  pthread_setspecific(key, (void *)1);
  return b->f(b->arg);
}
static struct boot boots[MAXT];
static u64 stacks[MAXT]; // each thread slot has its own place for stack and thread-local data, so addresses repeat
static void collect(int t) { // the place may be used again only when the real thread has gone
  if (T[t].real) {
    real_join(T[t].real, 0);
    T[t].real = 0;
  }
}
int pthread_create(pthread_t *pt, const pthread_attr_t *at, void *(*f)(void *), void *arg) {
  if (!real_create)
    real_create = dlsym(RTLD_NEXT, "pthread_create");
  if (!on || me < 0)
    return real_create(pt, at, f, arg);
  int id = nthr;
  for (int t = 1; t < nthr; t++)
    if (T[t].state == S_DEAD && !T[t].pt) {
      id = t;
      break;
    }
  if (id >= MAXT)
    return EAGAIN;
  size_t sz = 8 << 20;
  if (at)
    pthread_attr_getstacksize(at, &sz);
  sz = (sz + (256 << 10) + 0xffff) & ~0xfffful;
  if (sz > (1ul << 30) - (1 << 20))
    return EAGAIN;
  collect(id);
  char *top = (char *)0x400000000000ul + (1ul << 30) * (id + 1);
  if (stacks[id] < sz) {
    if (mmap(top - sz, sz - stacks[id], PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != top - sz)
      return EAGAIN;
    stacks[id] = sz;
  }
  pthread_attr_t own_at;
  pthread_attr_init(&own_at);
  pthread_attr_setstack(&own_at, top - sz, sz);
  boots[id] = (struct boot){f, arg, id};
  memset(&T[id], 0, sizeof T[id]);
  int r = real_create(pt, &own_at, tramp, &boots[id]);
  pthread_attr_destroy(&own_at);
  if (r) {
    T[id].state = id == nthr ? S_FREE : S_DEAD;
    return r;
  }
  int detached = 0;
  if (at)
    pthread_attr_getdetachstate(at, &detached);
  T[id].real = *pt;
  T[id].pt = detached == PTHREAD_CREATE_DETACHED ? 0 : *pt;
  T[id].prio = 1000000 + (u32)(mix(C.seed ^ (u64)id * 77) % 1000000);
  T[id].state = S_RUN;
  lastid = id;
  if (id == nthr)
    nthr++;
  clk own = VC[id][id] + 1;
  // stacks of ended threads are handed on: a new thread comes after all of them
  clk sum[MAXT];
  memcpy(sum, VC[me], sizeof sum);
  join(sum, VC[id]);
  for (int t = 0; t < nthr; t++)
    if (T[t].state == S_DEAD)
      join(sum, VC[t]);
  memcpy(VC[id], sum, sizeof sum);
  VC[id][id] = own;
  memset(FA[id], 0, sizeof FA[id]);
  has_fr[id] = 0;
  VC[me][me]++;
  S->threads++;
  live++;
  if (!np)
    point(1, PC);
  return 0;
}
int pthread_join(pthread_t pt, void **ret) {
  if (!real_join)
    real_join = dlsym(RTLD_NEXT, "pthread_join");
  if (on && me >= 0) {
    for (int t = 0; t < nthr; t++)
      if (T[t].pt == pt && t != me && T[t].state != S_FREE) {
        if (T[t].state != S_DEAD) {
          T[me].state = S_JOIN;
          T[me].join = t;
          block(PC);
          T[me].state = S_RUN;
        }
        T[t].pt = 0;
        T[t].real = 0;
        join(VC[me], VC[t]);
        break;
      }
  }
  return real_join(pt, ret);
}
// below the given stacks lies unmapped memory: tell std there is a guard
int pthread_attr_getguardsize(const pthread_attr_t *at, size_t *n) {
  (void)at;
  *n = 4096;
  return 0;
}
int pthread_detach(pthread_t pt) {
  if (on && me >= 0)
    for (int t = 0; t < nthr; t++)
      if (T[t].pt == pt && T[t].state != S_FREE) {
        T[t].pt = 0; // stays joinable underneath
        return 0;
      }
  static int (*real_detach)(pthread_t);
  if (!real_detach)
    real_detach = dlsym(RTLD_NEXT, "pthread_detach");
  return real_detach(pt);
}

// ---- futexes
static long futex(u32 *addr, int op, u32 val, const struct timespec *ts, u32 bits, void *pc) {
  int cmd = op & 127;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    point(1, pc);
    if (*(volatile u32 *)addr != val) {
      errno = EAGAIN;
      return -1;
    }
    S->futex_waits++;
    int early = 0;
    if (C.kind == 5) {
      if (nextdec < C.ndec && C.dec[2 * nextdec] == step && C.dec[2 * nextdec + 1] == 1000) {
        early = 1;
        nextdec++;
      }
    } else if (C.spurious_inv && mix(C.seed ^ step * 7) % C.spurious_inv == 0)
      early = 1;
    if (early) {
      S->spurious++;
      record(step, 1000);
      if (mix(step) & 1) {
        errno = EINTR;
        return -1;
      }
      return 0;
    }
    struct thr *t = &T[me];
    t->state = S_FUTEX;
    t->addr = addr;
    t->bitset = cmd == FUTEX_WAIT ? ~0u : bits;
    t->timed_out = 0;
    t->wait_seq = ++seqn;
    t->deadline = 0;
    if (ts) {
      u64 d = (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec;
      t->deadline = cmd == FUTEX_WAIT ? now + d : d;
      if (!t->deadline)
        t->deadline = 1;
    }
    block(pc);
    if (t->state == S_FUTEX) { // still waiting: its time has come
      t->state = S_RUN;
      t->deadline = 0;
      errno = ETIMEDOUT;
      return -1;
    }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    long n = 0;
    u32 b = cmd == FUTEX_WAKE ? ~0u : bits;
    while (n < (long)(int)val) {
      int w = -1;
      for (int t = 0; t < nthr; t++)
        if (T[t].state == S_FUTEX && T[t].addr == addr && (T[t].bitset & b) && (w < 0 || T[t].wait_seq < T[w].wait_seq))
          w = t;
      if (w < 0)
        break;
      T[w].state = S_RUN;
      T[w].deadline = 0;
      n++;
    }
    S->futex_wakes += n;
    point(1, pc);
    return n;
  }
  errno = ENOSYS;
  return -1;
}
static void fill(unsigned char *b, size_t n) {
  S->random_reads++;
  for (size_t i = 0; i < n; i++)
    b[i] = (unsigned char)mix(C.rnd ^ ++rctr);
}
// ---- what a call does besides returning: seen before it happens, and never carried out
static void effect(const char *what, const char *arg, void *pc) {
  if (!on || me < 0 || np || !C.effects)
    return;
  on = 0;
  snprintf(S->effect, sizeof S->effect, "%s%s%.100s", what, arg && *arg ? " " : "", arg ? arg : "");
  S->effect_pc = (u64)pc;
  die(4);
}
static const char *fdname(int fd) { return fd == 1 ? "standard output" : fd == 2 ? "standard error" : fd == 0 ? "standard input" : "a descriptor"; }
static int system_path(const char *p) { // what the machine says about itself
  return p && (!strncmp(p, "/proc/", 6) || !strncmp(p, "/sys/", 5) || !strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random") || !strcmp(p, "/dev/null") || !strncmp(p, "/etc/ld", 7));
}
static void touches(const char *p, int wr, void *pc) {
  if (!wr && system_path(p))
    return;
  effect(wr ? "changes files:" : "looks at files:", p, pc);
}
static long ret(long r) {
  if (r < 0 && r > -4096) {
    errno = (int)-r;
    return -1;
  }
  return r;
}
#define REAL(f) \
  static __typeof__(f) *real; \
  if (!real) \
    real = (__typeof__(f) *)dlsym(RTLD_NEXT, #f)
ssize_t write(int fd, const void *b, size_t n) {
  effect("writes to", fdname(fd), PC);
  return ret(raw(SYS_write, fd, (long)b, n, 0, 0, 0));
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  effect("writes to", fdname(fd), PC);
  return ret(raw(SYS_writev, fd, (long)v, n, 0, 0, 0));
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  effect("writes to", fdname(fd), PC);
  return ret(raw(SYS_pwrite64, fd, (long)b, n, o, 0, 0));
}
ssize_t read(int fd, void *b, size_t n) {
  if (fd < 3)
    effect("reads from", fdname(fd), PC);
  return ret(raw(SYS_read, fd, (long)b, n, 0, 0, 0));
}
int close(int fd) {
  if (fd < 3)
    effect("closes", fdname(fd), PC);
  return (int)ret(raw(SYS_close, fd, 0, 0, 0, 0, 0));
}
static int do_open(int at, const char *p, int fl, int mode, void *pc) {
  touches(p, (fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC)), pc);
  return (int)ret(raw(SYS_openat, at, (long)p, fl, mode, 0, 0));
}
#define MODE(fl) \
  int mode = 0; \
  if (fl & (O_CREAT | O_TMPFILE)) { \
    va_list ap; \
    va_start(ap, fl); \
    mode = va_arg(ap, int); \
    va_end(ap); \
  }
int open(const char *p, int fl, ...) {
  MODE(fl)
  return do_open(AT_FDCWD, p, fl, mode, PC);
}
int open64(const char *p, int fl, ...) {
  MODE(fl)
  return do_open(AT_FDCWD, p, fl, mode, PC);
}
int openat(int d, const char *p, int fl, ...) {
  MODE(fl)
  return do_open(d, p, fl, mode, PC);
}
int openat64(int d, const char *p, int fl, ...) {
  MODE(fl)
  return do_open(d, p, fl, mode, PC);
}
int unlink(const char *p) {
  touches(p, 1, PC);
  return (int)ret(raw(SYS_unlink, (long)p, 0, 0, 0, 0, 0));
}
int rename(const char *p, const char *q) {
  touches(p, 1, PC);
  return (int)ret(raw(SYS_rename, (long)p, (long)q, 0, 0, 0, 0));
}
int mkdir(const char *p, mode_t m) {
  touches(p, 1, PC);
  return (int)ret(raw(SYS_mkdir, (long)p, m, 0, 0, 0, 0));
}
int rmdir(const char *p) {
  touches(p, 1, PC);
  return (int)ret(raw(SYS_rmdir, (long)p, 0, 0, 0, 0, 0));
}
int stat64(const char *p, struct stat64 *b) {
  touches(p, 0, PC);
  return (int)ret(raw(SYS_stat, (long)p, (long)b, 0, 0, 0, 0));
}
int lstat64(const char *p, struct stat64 *b) {
  touches(p, 0, PC);
  return (int)ret(raw(SYS_lstat, (long)p, (long)b, 0, 0, 0, 0));
}
int statx(int d, const char *p, int fl, unsigned m, struct statx *b) {
  if (p && *p)
    touches(p, 0, PC);
  return (int)ret(raw(SYS_statx, d, (long)p, fl, m, (long)b, 0));
}
int access(const char *p, int m) {
  touches(p, 0, PC);
  return (int)ret(raw(SYS_access, (long)p, m, 0, 0, 0, 0));
}
ssize_t readlink(const char *p, char *b, size_t n) {
  touches(p, 0, PC);
  return ret(raw(SYS_readlink, (long)p, (long)b, n, 0, 0, 0));
}
int socket(int a, int b, int c) {
  effect("opens a network connection", "", PC);
  return (int)ret(raw(SYS_socket, a, b, c, 0, 0, 0));
}
int chdir(const char *p) {
  effect("changes the working directory", p, PC);
  return (int)ret(raw(SYS_chdir, (long)p, 0, 0, 0, 0, 0));
}
int dup2(int a, int b) {
  effect("replaces a descriptor", "", PC);
  return (int)ret(raw(SYS_dup2, a, b, 0, 0, 0, 0));
}
mode_t umask(mode_t m) {
  effect("changes the file mode mask", "", PC);
  return (mode_t)raw(SYS_umask, m, 0, 0, 0, 0, 0);
}
pid_t fork(void) {
  effect("starts a process", "", PC);
  REAL(fork);
  return real();
}
int posix_spawnp(pid_t *pid, const char *f, const posix_spawn_file_actions_t *a, const posix_spawnattr_t *t, char *const argv[], char *const envp[]) {
  effect("starts a process:", f, PC);
  REAL(posix_spawnp);
  return real(pid, f, a, t, argv, envp);
}
int execvp(const char *f, char *const argv[]) {
  effect("starts a process:", f, PC);
  REAL(execvp);
  return real(f, argv);
}
int setenv(const char *n, const char *v, int o) {
  effect("changes the environment variable", n, PC);
  REAL(setenv);
  return real(n, v, o);
}
int unsetenv(const char *n) {
  effect("changes the environment variable", n, PC);
  REAL(unsetenv);
  return real(n);
}
int putenv(char *n) {
  effect("changes the environment variable", n, PC);
  REAL(putenv);
  return real(n);
}
int sigaction(int n, const struct sigaction *a, struct sigaction *o) {
  if (a)
    effect("changes how signals are handled", "", PC);
  REAL(sigaction);
  return real(n, a, o);
}
void (*signal(int n, void (*h)(int)))(int) {
  effect("changes how signals are handled", "", PC);
  static __typeof__(signal) *real;
  if (!real)
    real = (__typeof__(signal) *)dlsym(RTLD_NEXT, "signal");
  return real(n, h);
}
int pthread_sigmask(int how, const sigset_t *a, sigset_t *o) {
  if (a)
    effect("changes how signals are handled", "", PC);
  REAL(pthread_sigmask);
  return real(how, a, o);
}
int kill(pid_t p, int n) {
  effect("sends a signal", "", PC);
  return (int)ret(raw(SYS_kill, p, n, 0, 0, 0, 0));
}
int raise(int n) {
  effect("sends a signal", "", PC);
  REAL(raise);
  return real(n);
}
void exit(int c) {
  effect("ends the process", "", PC);
  static void (*real)(int);
  if (!real)
    real = (void (*)(int))dlsym(RTLD_NEXT, "exit");
  real(c);
  __builtin_unreachable();
}
void _exit(int c) {
  effect("ends the process", "", PC);
  for (;;)
    raw(SYS_exit_group, c, 0, 0, 0, 0, 0);
}
void abort(void) {
  effect("ends the process", "", PC);
  static void (*real)(void);
  if (!real)
    real = (void (*)(void))dlsym(RTLD_NEXT, "abort");
  real();
  __builtin_unreachable();
}
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (on && me >= 0) {
    // std takes locks with no instrumented access around: even with preemption off a wait must block
    if (n == SYS_futex)
      return futex((u32 *)a, (int)b, (u32)c, (const struct timespec *)d, (u32)f, PC);
    if (n == SYS_getrandom) {
      fill((unsigned char *)a, b);
      return b;
    }
    if (n == SYS_gettid)
      return 1000 + me;
    if (n == SYS_write || n == SYS_openat || n == SYS_open || n == SYS_kill || n == SYS_tgkill || n == SYS_exit_group || n == SYS_unlink || n == SYS_rename || n == SYS_clone || n == SYS_execve || n == SYS_sendto || n == SYS_connect)
      effect("makes a system call of its own", "", PC);
  }
  long r = raw(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) {
    errno = (int)-r;
    return -1;
  }
  return r;
}
ssize_t getrandom(void *p, size_t n, unsigned fl) {
  if (on && me >= 0) {
    fill(p, n);
    return n;
  }
  long r = raw(SYS_getrandom, (long)p, n, fl, 0, 0, 0);
  if (r < 0) {
    errno = (int)-r;
    return -1;
  }
  return r;
}
int sched_yield(void) {
  if (on && me >= 0) {
    S->yields++;
    step++;
    now += 1000;
    if (step >= C.step_cap)
      die(2);
    if (C.kind == 3 || C.kind == 4)
      T[me].prio = --lowprio;
    int t = next_of(me);
    if (t >= 0 && t != me)
      hand(t, PC);
    return 0;
  }
  return (int)raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (on && me >= 0) {
    S->clock_reads++;
    now += 1000;
    u64 v = now;
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)
      v = (int64_t)now + roff < 0 ? 0 : now + roff;
    ts->tv_sec = v / 1000000000ull;
    ts->tv_nsec = v % 1000000000ull;
    return 0;
  }
  return (int)raw(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0);
}
int gettimeofday(struct timeval *tv, void *tz) {
  (void)tz;
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t *o) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (o)
    *o = ts.tv_sec;
  return ts.tv_sec;
}
static int sleep_until(u64 d, void *pc) {
  S->sleeps++;
  T[me].state = S_SLEEP;
  T[me].deadline = d ? d : 1;
  block(pc);
  T[me].state = S_RUN;
  T[me].deadline = 0;
  return 0;
}
int nanosleep(const struct timespec *r, struct timespec *m) {
  if (on && me >= 0)
    return sleep_until(now + (u64)r->tv_sec * 1000000000ull + r->tv_nsec, PC);
  return (int)raw(SYS_nanosleep, (long)r, (long)m, 0, 0, 0, 0);
}
int clock_nanosleep(clockid_t id, int fl, const struct timespec *r, struct timespec *m) {
  if (on && me >= 0) {
    u64 d = (u64)r->tv_sec * 1000000000ull + r->tv_nsec;
    return sleep_until(fl & 1 ? d : now + d, PC);
  }
  return (int)-raw(SYS_clock_nanosleep, id, fl, (long)r, (long)m, 0, 0);
}
extern char **environ;
static char envbuf[64][32];
static int envn;
char *getenv(const char *name) {
  size_t l = strlen(name);
  if (on && me >= 0 && C.env && strncmp(name, "RUST_", 5)) {
    static const char *const vals[] = {"1", "0", "", "true", "off", "debug", "pl", "ru_RU.UTF-8", "C", "16", "ar", "all", "en_US.UTF-8", "99999999"};
    S->env_reads++;
    u64 h = C.env;
    for (size_t i = 0; i < l; i++)
      h = mix(h ^ (unsigned char)name[i]);
    if (h % 3 == 0)
      return NULL;
    int k = envn++ % 64;
    strcpy(envbuf[k], vals[mix(h) % (sizeof vals / sizeof *vals)]);
    return envbuf[k];
  }
  if (environ)
    for (char **e = environ; *e; e++)
      if (!strncmp(*e, name, l) && (*e)[l] == '=')
        return *e + l + 1;
  return NULL;
}

// ---- memory: freed blocks are overwritten and reused late, addresses are the same in every run
struct arena {
  char *base, *top;
  char *head[128], *tail[128];
  size_t late;
};
static struct arena A[2] = {{.late = 64 << 20}, {.late = 24 << 20}};
static int ar;
static u64 in_use; // of the second arena
static int cls(size_t n, size_t *sz) {
  if (n <= 1024) {
    *sz = (n + 15) & ~(size_t)15;
    return (int)(*sz / 16);
  }
  int k = 64 - __builtin_clzl(n - 1);
  *sz = (size_t)1 << k;
  return 65 + k;
}
void *sim_alloc(size_t n, size_t al) {
  struct arena *a = &A[ar];
  if (!a->base) {
    a->base = mmap((void *)(0x200000000000ul + 0x100000000000ul * ar), 64ul << 30, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (a->base == MAP_FAILED)
      abort();
    a->top = a->base;
  }
  if (n < 16)
    n = 16;
  if (al > 16)
    n += al;
  size_t sz;
  int c = cls(n, &sz);
  char *p;
  if (ar)
    in_use += sz;
  if (a->head[c] && ((C.reuse && ar) || a->top - a->base > (long)a->late)) {
    p = a->head[c];
    a->head[c] = *(char **)p;
  } else {
    p = a->top;
    a->top += sz;
    if (a->top - a->base > (3l << 30))
      abort();
  }
  if (al > 16)
    p = (char *)(((u64)p + al - 1) & ~(u64)(al - 1));
  if (on && me >= 0)
    forget((u64)p, sz);
  return p;
}
void sim_free(void *p, size_t n, size_t al) {
  if (LIVE)
    check(p, n, 1, 0, PC);
  if (n < 16)
    n = 16;
  size_t sz;
  int c = cls(al > 16 ? n + al : n, &sz);
  if ((u64)p >= 0x300000000000ul)
    in_use -= sz;
  if (al > 16)
    return; // never reused
  memset(p, 0xDB, sz < 8192 ? sz : 8192);
  struct arena *a = &A[(u64)p >= 0x300000000000ul];
  if (C.reuse && a == &A[1]) {
    *(char **)p = a->head[c];
    if (!a->head[c])
      a->tail[c] = p;
    a->head[c] = p;
    return;
  }
  *(char **)p = 0;
  if (a->head[c])
    *(char **)a->tail[c] = p;
  else
    a->head[c] = p;
  a->tail[c] = p;
}

// std's thread handles and glibc take memory here
struct blk {
  void *base;
  size_t n; // asked for
  size_t whole;
  size_t pad;
};
static char *outside; // for threads that are not (or no longer) simulated
static void *blk_new(size_t n, size_t al) {
  size_t whole = n + sizeof(struct blk) + (al > 16 ? al : 0);
  char *b;
  if (on && me < 0) {
    if (!outside)
      return 0;
    b = __atomic_fetch_add(&outside, (whole + 15) & ~15ul, SC);
  } else
    b = sim_alloc(whole, 16);
  char *p = b + sizeof(struct blk);
  if (al > 16)
    p = (char *)(((u64)p + al - 1) & ~(u64)(al - 1));
  struct blk *h = (struct blk *)p - 1;
  h->base = b;
  h->n = n;
  h->whole = whole;
  return p;
}
void *malloc(size_t n) { return blk_new(n, 16); }
void free(void *p) {
  if (!p || (u64)p < 0x200000000000ul || (u64)p >= 0x320000000000ul)
    return;
  if (on && me < 0)
    return;
  struct blk *h = (struct blk *)p - 1;
  if ((u64)h->base < 0x200000000000ul || (u64)h->base >= 0x320000000000ul)
    return;
  sim_free(h->base, h->whole, 16);
}
void *calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n))
    return 0;
  void *p = blk_new(n, 16);
  return p ? memset(p, 0, n) : 0;
}
void *realloc(void *p, size_t n) {
  void *q = blk_new(n, 16);
  if (p && q) {
    size_t o = ((struct blk *)p - 1)->n;
    memcpy(q, p, o < n ? o : n);
    free(p);
  }
  return q;
}
void *memalign(size_t al, size_t n) { return blk_new(n, al); }
void *aligned_alloc(size_t al, size_t n) { return blk_new(n, al); }
int posix_memalign(void **p, size_t al, size_t n) {
  *p = blk_new(n, al);
  return *p ? 0 : ENOMEM;
}
size_t malloc_usable_size(void *p) { return p ? ((struct blk *)p - 1)->n : 0; }

// ---- driver's interface
void sim_start(const struct sim_cfg *c, struct sim_stat *s) {
  pthread_key_create(&key, thread_end);
  if (!real_create)
    real_create = dlsym(RTLD_NEXT, "pthread_create");
  if (!real_join)
    real_join = dlsym(RTLD_NEXT, "pthread_join");
  C = *c;
  S = s;
  outside = mmap(0, 256 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  ar = 1;
  memset(T, 0, sizeof T);
  nthr = live = 1;
  cur = me = 0;
  T[0].state = S_RUN;
  T[0].prio = 1;
  VC[0][0] = 1;
  np = 0;
  step = last_switch = rctr = hotn = nextdec = seqn = 0;
  lowprio = 900000;
  now = C.clock;
  if (C.d > 16)
    C.d = 16;
  for (int k = 0; k < C.d; k++)
    chg[k] = 1 + mix(C.seed ^ (u64)(k + 1) * 1000003) % (C.horizon ? C.horizon : 1);
  on = 1;
}
void sim_stop(void) {
  on = 0;
  S->steps = step;
}
void sim_np(int d) { np += d; }
int sim_np_get(void) { return np; }
void sim_np_set(int v) { np = v; }
void sim_yield(void) {
  if (LIVE)
    point(1, PC);
}
void sim_clock(int64_t delta) {
  if (delta >= 0)
    now += delta;
  else
    roff += delta;
}
void sim_env(u64 seed) { C.env = seed; }
int sim_me(void) { return me; }
// the current thread waits until thread t has ended
void sim_await(int t) {
  if (!on || me < 0 || t <= 0 || t >= nthr || t == me || T[t].state == S_FREE)
    return;
  if (T[t].state == S_DEAD) {
    join(VC[me], VC[t]);
    return;
  }
  S->awaits++;
  T[me].state = S_JOIN;
  T[me].join = t;
  block(PC);
  T[me].state = S_RUN;
  join(VC[me], VC[t]);
}
// an object is handed over between threads in a place both know
void sim_hand(int slot, int put) {
  if (!on || me < 0)
    return;
  join(VC[me], SLOT[slot & 63]);
  if (put) {
    join(SLOT[slot & 63], VC[me]);
    VC[me][me]++;
  }
}
// lets threads nobody waits for come to an end: how many do not
int sim_left(void) {
  u64 from = step;
  int n = 0;
  for (int k = 0; k < 1000 && step - from < 1500000; k++) {
    n = 0;
    for (int t = 0; t < nthr; t++)
      n += t != me && T[t].state != S_FREE && T[t].state != S_DEAD;
    if (!n)
      return 0;
    sleep_until(now + 1000000, PC);
  }
  return n;
}
int sim_last(void) { return lastid; }
u64 sim_live(void) { return in_use; }
u64 sim_steps(void) { return step; }
