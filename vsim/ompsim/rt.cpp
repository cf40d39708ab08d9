// Deterministic OpenMP runtime: replaces libgomp and the ThreadSanitizer runtime.
//
// The kernels of QAMpy are compiled from /repo's current sources with -fopenmp and
// -fsanitize=thread but linked to this file instead of libgomp/libtsan.  A "thread" of a parallel
// region is a coroutine in the one OS thread; every instrumented memory access is a step of the
// simulated machine and a possible preemption point.  All decisions come from one seeded
// generator (or from an explicit list when replaying), and every decision taken is recorded as
// (step, thread), so that a run is exactly repeatable.
#include <ucontext.h>
#include <sys/mman.h>
#include <unistd.h>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>

#define EXPORT extern "C" __attribute__((visibility("default")))
typedef unsigned long long ull;

namespace {
const int MAXT = 64;
const size_t STACK = 512 * 1024;

enum Mode { SERIAL = 0, LIST = 1, RANDOM = 2, PCT = 3, DIRECTED = 4 };

struct Rng {
  uint64_t s;
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

struct Cfg {
  int mode = SERIAL;
  int team = 1;
  double p = 0;          // RANDOM: preemption probability per step; DIRECTED: per hot access
  int probe = 0;         // record conflicting granules
  int nlist = 0;
  const uint64_t *lstep = nullptr;
  const int *lto = nullptr;
  uint64_t step_limit = 0;
} cfg;
Rng rng;

struct Stats {
  uint64_t steps, regions, switches, blocked, conflicts, hot_granules, limit_hit, deadlock, nested;
  uint64_t max_team, barriers, criticals;
} st;

const int MAXREC = 1 << 16;
uint64_t rec_step[MAXREC];
int rec_to[MAXREC];
int nrec = 0;
uint64_t trace_hash = 1469598103934665603ull;
inline void th(uint64_t v) { trace_hash = (trace_hash ^ v) * 1099511628211ull; trace_hash ^= trace_hash >> 29; }

// ---------------------------------------------------------------- conflict shadow (probe runs)
struct Cell { uint64_t key; int writer; uint64_t readers; };
const uint64_t NCELL = 1 << 19;
Cell *cells = nullptr;
uint64_t cell_used = 0;
const uint64_t NHOT = 1 << 16;
uint64_t *hot = nullptr;
uint64_t nhot = 0;
inline uint64_t hsh(uint64_t k) { k *= 0x9E3779B97F4A7C15ull; return k ^ (k >> 31); }
void hot_add(uint64_t g) {
  if (!hot) hot = (uint64_t *)calloc(NHOT, 8);
  if (nhot * 2 > NHOT) return;
  for (uint64_t i = hsh(g) % NHOT;; i = (i + 1) % NHOT) {
    if (hot[i] == g) return;
    if (!hot[i]) { hot[i] = g; nhot++; return; }
  }
}
bool is_hot(uint64_t g) {
  if (!hot) return false;
  for (uint64_t i = hsh(g) % NHOT;; i = (i + 1) % NHOT) {
    if (hot[i] == g) return true;
    if (!hot[i]) return false;
  }
}
void shadow_reset() {
  if (!cells) {
    cells = (Cell *)mmap(0, NCELL * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  } else {
    madvise(cells, NCELL * sizeof(Cell), MADV_DONTNEED);  // private anonymous: reads as zero again
  }
  cell_used = 0;
}

// ---------------------------------------------------------------- threads
struct WS { long next, end, incr, chunk; int arrived; bool single_taken; void *copy; };
struct Thread {
  ucontext_t ctx;
  int tid;
  int state;  // 0 ready, 1 done, 2 blocked
  const void *wait;
  int wscount;
  int locks;
  int prio;
};
struct Team {
  int n;
  void (*fn)(void *);
  void *data;
  Thread t[MAXT];
  int cur;
  int ndone, nbar;
  uint64_t bargen;
  ucontext_t main;
  WS ws[4096];
  int wsinit;
  bool has_loop;
  long ls, le, li, lc;
};
Team *team = nullptr;  // active region (outermost)
int in_rt = 0;
int nest = 0;
char *stacks[MAXT];
uint64_t next_switch = UINT64_MAX;
int list_pos = 0;
uint64_t pct_points[64];
int npct = 0;

void plan_next() {
  switch (cfg.mode) {
    case LIST:
      while (list_pos < cfg.nlist && cfg.lstep[list_pos] <= st.steps) list_pos++;
      next_switch = list_pos < cfg.nlist ? cfg.lstep[list_pos] : UINT64_MAX;
      break;
    case RANDOM: {
      if (cfg.p <= 0) { next_switch = UINT64_MAX; break; }
      // geometric gap with mean 1/p
      uint64_t gap = 1 + (uint64_t)((double)rng.next() / 18446744073709551616.0 * (2.0 / cfg.p));
      next_switch = st.steps + gap;
      break;
    }
    case PCT: {
      next_switch = UINT64_MAX;
      for (int i = 0; i < npct; i++)
        if (pct_points[i] > st.steps && pct_points[i] < next_switch) next_switch = pct_points[i];
      break;
    }
    default: next_switch = UINT64_MAX;
  }
}

int pick(bool preempt) {
  // choose among ready threads; when preempting prefer another one
  Team *T = team;
  int ready[MAXT], n = 0;
  for (int i = 0; i < T->n; i++)
    if (T->t[i].state == 0 && !(preempt && i == T->cur)) ready[n++] = i;
  if (!n) return -1;
  switch (cfg.mode) {
    case LIST: {
      for (int k = 0; k < cfg.nlist; k++)
        if (cfg.lstep[k] == st.steps) {
          for (int i = 0; i < n; i++) if (ready[i] == cfg.lto[k]) return ready[i];
        }
      if (preempt) return -1;
      for (int i = 0; i < n; i++) if (ready[i] > T->cur) return ready[i];
      return ready[0];
    }
    case RANDOM:
    case DIRECTED: return ready[rng.below(n)];
    case PCT: {
      int best = ready[0];
      for (int i = 1; i < n; i++) if (T->t[ready[i]].prio > T->t[best].prio) best = ready[i];
      return best;
    }
    default:
      for (int i = 0; i < n; i++) if (ready[i] > T->cur) return ready[i];
      return ready[0];
  }
}

void go(int to) {
  Team *T = team;
  int from = T->cur;
  st.switches++;
  th(st.steps); th(to);
  if (nrec < MAXREC) { rec_step[nrec] = st.steps; rec_to[nrec] = to; nrec++; }
  T->cur = to;
  swapcontext(&T->t[from].ctx, &T->t[to].ctx);
}

void die(const char *msg) { fprintf(stderr, "ompsim: %s\n", msg); fflush(stderr); _exit(97); }

void leave_blocked() {
  // current thread cannot go on: run somebody else
  st.blocked++;
  st.steps++;
  int to = pick(true);
  if (cfg.mode == LIST && to < 0) {
    // the default order of a blocked thread: the next ready one
    for (int i = 1; i <= team->n; i++) {
      int k = (team->cur + i) % team->n;
      if (team->t[k].state == 0 && k != team->cur) { to = k; break; }
    }
  }
  if (to < 0) { st.deadlock = 1; fprintf(stderr, "ompsim: deadlock in parallel region\n"); _exit(98); }
  go(to);
}

void preempt() {
  Team *T = team;
  if (cfg.mode == PCT) T->t[T->cur].prio = -(int)(st.switches + 1 + st.blocked);
  int to = pick(cfg.mode != PCT);
  plan_next();
  if (to >= 0 && to != T->cur) go(to);
}

void trampoline(unsigned lo, unsigned hi) {
  Thread *t = (Thread *)(((uint64_t)hi << 32) | lo);
  team->fn(team->data);
  Team *T = team;
  t->state = 1;
  T->ndone++;
  st.steps++;
  if (T->ndone == T->n) { T->cur = -1; setcontext(&T->main); }
  int to = pick(false);
  if (to < 0) {
    // everyone else blocked: barrier waiting for finished threads cannot be released
    st.deadlock = 1;
    fprintf(stderr, "ompsim: deadlock at region end\n");
    _exit(98);
  }
  st.switches++;
  th(st.steps); th(to + 100);
  if (nrec < MAXREC) { rec_step[nrec] = st.steps; rec_to[nrec] = to; nrec++; }
  T->cur = to;
  setcontext(&T->t[to].ctx);
}

void run_team(void (*fn)(void *), void *data, int n, bool loop, long s, long e, long inc, long ch) {
  st.regions++;
  if (team) {  // nested region: team of one
    st.nested++;
    nest++;
    fn(data);
    nest--;
    return;
  }
  if (n < 1) n = 1;
  if (n > MAXT) n = MAXT;
  if ((uint64_t)n > st.max_team) st.max_team = n;
  static Team *T = nullptr;
  if (!T) T = (Team *)mmap(0, sizeof(Team), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  memset(&T->n, 0, offsetof(Team, main));
  T->n = n; T->fn = fn; T->data = data;
  T->ndone = T->nbar = 0; T->bargen = 0; T->wsinit = 0;
  T->has_loop = loop; T->ls = s; T->le = e; T->li = inc; T->lc = ch;
  if (cfg.probe) shadow_reset();
  for (int i = 0; i < n; i++) {
    Thread &t = T->t[i];
    memset(&t, 0, sizeof t);
    t.tid = i;
    t.prio = cfg.mode == PCT ? (int)rng.below(1000000) : 0;
    if (!stacks[i])
      stacks[i] = (char *)mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    getcontext(&t.ctx);
    t.ctx.uc_stack.ss_sp = stacks[i];
    t.ctx.uc_stack.ss_size = STACK;
    t.ctx.uc_link = nullptr;
    uint64_t p = (uint64_t)&t;
    makecontext(&t.ctx, (void (*)())trampoline, 2, (unsigned)(p & 0xffffffffu), (unsigned)(p >> 32));
  }
  team = T;
  T->cur = -1;
  th(7777); th(n);
  plan_next();
  int first = pick(false);
  if (cfg.mode != SERIAL) {
    if (nrec < MAXREC) { rec_step[nrec] = st.steps; rec_to[nrec] = first; nrec++; }
    th(first);
  }
  st.steps++;  // entering the region is a step, so its first decision has its own number
  T->cur = first;
  plan_next();
  swapcontext(&T->main, &T->t[first].ctx);
  team = nullptr;
  next_switch = UINT64_MAX;
  st.steps++;
}

inline void shadow(uint64_t a, int size, bool w) {
  Team *T = team;
  // own coroutine stack: never shared unless its address escapes
  int me = T->cur;
  for (uint64_t g = a >> 3; g <= (a + size - 1) >> 3; g++) {
    uint64_t i = (hsh(g >> 6) * 64 + (g & 63)) % NCELL;
    int tries = 0;
    for (; tries < 64; tries++, i = (i + 1) % NCELL) {
      if (cells[i].key == g) break;
      if (!cells[i].key) {
        if (cell_used * 2 > NCELL) return;
        cells[i].key = g; cells[i].writer = -1; cells[i].readers = 0; cell_used++;
        break;
      }
    }
    if (tries == 64) return;
    Cell &c = cells[i];
    bool conf = false;
    if (w) {
      if ((c.writer >= 0 && c.writer != me) || (c.readers & ~(1ull << me))) conf = true;
      c.writer = me;
    } else {
      if (c.writer >= 0 && c.writer != me) conf = true;
      c.readers |= 1ull << me;
    }
    if (conf) { st.conflicts++; hot_add(g | st.regions << 48); }  // hot in this region only
  }
}

inline void access(void *p, int size, bool w) {
  if (__builtin_expect(!team || nest < 0, 1)) return;
  if (cfg.mode == SERIAL) return;
  st.steps++;
  if (cfg.probe && size > 0) shadow((uint64_t)p, size, w);
  if (cfg.mode == DIRECTED) {
    uint64_t a = (uint64_t)p;
    const uint64_t rg = st.regions << 48;
    if (is_hot(a >> 3 | rg) || (size > 0 && is_hot((a + size - 1) >> 3 | rg)))
      if (rng.u() < cfg.p) { preempt(); }
    return;
  }
  if (st.steps >= next_switch) preempt();
  if (cfg.step_limit && st.steps > cfg.step_limit) die("step limit");
}

void sync_point() {
  if (team && cfg.mode != SERIAL) {
    st.steps++;
    if (cfg.mode == DIRECTED) { if (rng.u() < cfg.p) preempt(); }
    else if (st.steps >= next_switch) preempt();
  }
}

struct Lock { int owner; int count; };  // owner: tid+1
void lock_acquire(volatile int *l) {
  if (!team || nest) return;
  st.criticals++;
  sync_point();
  while (*l != 0) {
    team->t[team->cur].wait = (void *)l;
    team->t[team->cur].state = 2;
    leave_blocked();
  }
  *l = team->cur + 1;
}
void lock_release(volatile int *l) {
  if (!team || nest) return;
  *l = 0;
  for (int i = 0; i < team->n; i++)
    if (team->t[i].state == 2 && team->t[i].wait == (void *)l) { team->t[i].state = 0; team->t[i].wait = nullptr; }
  sync_point();
}
volatile int crit_default = 0, atomic_lock = 0;

void barrier() {
  if (!team || nest) return;
  Team *T = team;
  st.barriers++;
  uint64_t gen = T->bargen;
  T->nbar++;
  if (T->nbar == T->n) {
    T->nbar = 0;
    T->bargen++;
    for (int i = 0; i < T->n; i++)
      if (T->t[i].state == 2 && T->t[i].wait == (void *)&T->nbar) { T->t[i].state = 0; T->t[i].wait = nullptr; }
    if (cfg.mode == RANDOM || cfg.mode == DIRECTED || cfg.mode == PCT) {
      st.steps++;
      preempt();
    } else sync_point();
    return;
  }
  while (T->bargen == gen) {
    T->t[T->cur].state = 2;
    T->t[T->cur].wait = (void *)&T->nbar;
    st.steps++;
    leave_blocked();
  }
}

WS *get_ws(bool advance_only, long s, long e, long inc, long ch) {
  Team *T = team;
  int k = T->t[T->cur].wscount++;
  WS *w = &T->ws[k % 4096];
  if (k >= T->wsinit) {
    T->wsinit = k + 1;
    w->next = s; w->end = e; w->incr = inc; w->chunk = ch ? ch : 1; w->arrived = 0; w->single_taken = false; w->copy = nullptr;
  }
  (void)advance_only;
  return w;
}
bool ws_next(WS *w, long *is, long *ie) {
  sync_point();
  long n = w->next;
  if (w->incr > 0 ? n >= w->end : n <= w->end) return false;
  long e = n + w->chunk * w->incr;
  if (w->incr > 0 ? e > w->end : e < w->end) e = w->end;
  w->next = e;
  *is = n; *ie = e;
  return true;
}
WS *cur_ws() {
  Team *T = team;
  return &T->ws[(T->t[T->cur].wscount - 1) % 4096];
}
bool loop_start(long s, long e, long inc, long ch, long *is, long *ie) {
  if (!team || nest) {
    if (inc > 0 ? s >= e : s <= e) return false;
    *is = s; *ie = e;
    return true;
  }
  WS *w = get_ws(false, s, e, inc, ch);
  return ws_next(w, is, ie);
}
bool loop_next(long *is, long *ie) {
  if (!team || nest) return false;
  return ws_next(cur_ws(), is, ie);
}
}  // namespace

// ---------------------------------------------------------------- control interface (ctypes)
EXPORT void ompsim_config(int mode, int teamsz, uint64_t seed, double p, int probe, int nlist,
                          const uint64_t *lstep, const int *lto, uint64_t horizon, int nchange,
                          uint64_t step_limit) {
  cfg.mode = mode; cfg.team = teamsz; cfg.p = p; cfg.probe = probe;
  cfg.nlist = nlist; cfg.lstep = lstep; cfg.lto = lto; cfg.step_limit = step_limit;
  rng.s = seed;
  memset(&st, 0, sizeof st);
  nrec = 0; list_pos = 0; trace_hash = 1469598103934665603ull; next_switch = UINT64_MAX;
  npct = 0;
  if (mode == PCT) {
    npct = nchange > 64 ? 64 : nchange;
    for (int i = 0; i < npct; i++) pct_points[i] = 1 + rng.below(horizon ? horizon : 1);
  }
}
EXPORT void ompsim_stats(uint64_t *out) {
  uint64_t v[] = {st.steps, st.regions, st.switches, st.blocked, st.conflicts, nhot, st.max_team,
                  st.nested, st.barriers, st.criticals, trace_hash, (uint64_t)nrec};
  memcpy(out, v, sizeof v);
}
EXPORT int ompsim_record(uint64_t *steps, int *to, int max) {
  int n = nrec < max ? nrec : max;
  memcpy(steps, rec_step, n * 8);
  memcpy(to, rec_to, n * 4);
  return n;
}
EXPORT void ompsim_hot_clear() { if (hot) memset(hot, 0, NHOT * 8); nhot = 0; }
EXPORT int ompsim_hot_get(uint64_t *out, int max) {
  int n = 0;
  if (hot) for (uint64_t i = 0; i < NHOT && n < max; i++) if (hot[i]) out[n++] = hot[i];
  return n;
}
EXPORT void ompsim_hot_set(const uint64_t *in, int n) { ompsim_hot_clear(); for (int i = 0; i < n; i++) hot_add(in[i]); }

// ---------------------------------------------------------------- libgomp
static int want(unsigned n) { return cfg.mode == SERIAL ? 1 : (n ? (int)n : cfg.team); }
EXPORT void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { run_team(fn, data, want(n), false, 0, 0, 0, 0); }
EXPORT unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned n, unsigned) { int k = want(n); run_team(fn, data, k, false, 0, 0, 0, 0); return k; }
EXPORT void GOMP_barrier() { barrier(); }
EXPORT bool GOMP_barrier_cancel() { barrier(); return false; }
EXPORT void GOMP_critical_start() { lock_acquire(&crit_default); }
EXPORT void GOMP_critical_end() { lock_release(&crit_default); }
EXPORT void GOMP_critical_name_start(void **p) { lock_acquire((volatile int *)p); }
EXPORT void GOMP_critical_name_end(void **p) { lock_release((volatile int *)p); }
EXPORT void GOMP_atomic_start() { lock_acquire(&atomic_lock); }
EXPORT void GOMP_atomic_end() { lock_release(&atomic_lock); }
EXPORT bool GOMP_single_start() {
  if (!team || nest) return true;
  WS *w = get_ws(false, 0, 0, 1, 1);
  sync_point();
  if (w->single_taken) return false;
  w->single_taken = true;
  return true;
}
EXPORT void *GOMP_single_copy_start() {
  if (!team || nest) return nullptr;
  WS *w = get_ws(false, 0, 0, 1, 1);
  sync_point();
  if (!w->single_taken) { w->single_taken = true; return nullptr; }
  barrier();
  return w->copy;
}
EXPORT void GOMP_single_copy_end(void *data) { if (!team || nest) return; cur_ws()->copy = data; barrier(); }
EXPORT void GOMP_ordered_start() {}
EXPORT void GOMP_ordered_end() {}
EXPORT bool GOMP_cancel(int, bool) { return false; }
EXPORT bool GOMP_cancellation_point(int) { return false; }
#define LOOP(kind) \
  EXPORT bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long *is, long *ie) { return loop_start(s, e, i, c, is, ie); } \
  EXPORT bool GOMP_loop_##kind##_next(long *is, long *ie) { return loop_next(is, ie); } \
  EXPORT bool GOMP_loop_ull_##kind##_start(bool, ull s, ull e, ull i, ull c, ull *is, ull *ie) { return loop_start((long)s, (long)e, (long)i, (long)c, (long *)is, (long *)ie); } \
  EXPORT bool GOMP_loop_ull_##kind##_next(ull *is, ull *ie) { return loop_next((long *)is, (long *)ie); } \
  EXPORT void GOMP_parallel_loop_##kind(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { ploop(fn, d, n, s, e, i, c); }
#define LOOPR(kind) \
  EXPORT bool GOMP_loop_##kind##_start(long s, long e, long i, long *is, long *ie) { return loop_start(s, e, i, 1, is, ie); } \
  EXPORT bool GOMP_loop_##kind##_next(long *is, long *ie) { return loop_next(is, ie); } \
  EXPORT bool GOMP_loop_ull_##kind##_start(bool, ull s, ull e, ull i, ull *is, ull *ie) { return loop_start((long)s, (long)e, (long)i, 1, (long *)is, (long *)ie); } \
  EXPORT bool GOMP_loop_ull_##kind##_next(ull *is, ull *ie) { return loop_next((long *)is, (long *)ie); } \
  EXPORT void GOMP_parallel_loop_##kind(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { ploop(fn, d, n, s, e, i, 1); }
// a combined parallel loop: each thread starts with the worksharing construct already open
static void ploop(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c) {
  struct W { void (*fn)(void *); void *d; long s, e, i, c; } w{fn, d, s, e, i, c};
  run_team([](void *p) {
    W *w = (W *)p;
    if (team && !nest) get_ws(false, w->s, w->e, w->i, w->c);
    w->fn(w->d);
  }, &w, want(n), true, s, e, i, c);
}
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
LOOPR(runtime) LOOPR(maybe_nonmonotonic_runtime) LOOPR(nonmonotonic_runtime)
EXPORT void GOMP_loop_end() { barrier(); }
EXPORT bool GOMP_loop_end_cancel() { barrier(); return false; }
EXPORT void GOMP_loop_end_nowait() {}
static __thread unsigned serial_sec;
EXPORT unsigned GOMP_sections_start(unsigned n) {
  long a, b;
  if (!team || nest) { serial_sec = n; return n ? n : 0; }
  WS *w = get_ws(false, 1, n + 1, 1, 1);
  return ws_next(w, &a, &b) ? a : 0;
}
EXPORT unsigned GOMP_sections_next() {
  long a, b;
  if (!team || nest) return serial_sec ? --serial_sec : 0;
  return ws_next(cur_ws(), &a, &b) ? a : 0;
}
EXPORT void GOMP_sections_end() { barrier(); }
EXPORT void GOMP_sections_end_nowait() {}
EXPORT void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned count, unsigned) { ploop(fn, d, n, 1, count + 1, 1, 1); }
EXPORT void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long sz, long al, bool, unsigned, void **, int, void *) {
  if (cpy) { char *b = (char *)aligned_alloc(al < 16 ? 16 : al, ((sz + 63) / 64) * 64); cpy(b, data); fn(b); free(b); }
  else fn(data);
}
EXPORT void GOMP_taskwait() {}
EXPORT void GOMP_taskyield() { sync_point(); }
EXPORT void GOMP_taskgroup_start() {}
EXPORT void GOMP_taskgroup_end() {}
EXPORT int omp_get_num_threads() { return team && !nest ? team->n : 1; }
EXPORT int omp_get_thread_num() { return team && !nest ? team->cur : 0; }
EXPORT int omp_get_max_threads() { return want(0); }
EXPORT int omp_get_num_procs() { return want(0); }
EXPORT void omp_set_num_threads(int) {}
EXPORT int omp_in_parallel() { return team != nullptr; }
EXPORT int omp_get_level() { return team ? 1 + nest : 0; }
EXPORT int omp_get_thread_limit() { return MAXT; }
EXPORT int omp_get_dynamic() { return 0; }
EXPORT void omp_set_dynamic(int) {}
EXPORT void omp_set_nested(int) {}
EXPORT int omp_get_nested() { return 0; }
EXPORT double omp_get_wtime() { return st.steps * 1e-9; }
EXPORT double omp_get_wtick() { return 1e-9; }
EXPORT void omp_init_lock(int *l) { *l = 0; }
EXPORT void omp_destroy_lock(int *) {}
EXPORT void omp_set_lock(int *l) { lock_acquire(l); }
EXPORT void omp_unset_lock(int *l) { lock_release(l); }
EXPORT int omp_test_lock(int *l) { if (!team) return 1; sync_point(); if (*l) return 0; *l = team->cur + 1; return 1; }

// ---------------------------------------------------------------- ThreadSanitizer instrumentation
// ---------------------------------------------------------------- memory allocated inside a region
// The kernels are linked with --wrap=malloc,free,... and numpy's arrays come through the handler
// below: during a simulated call memory comes from an arena that never reuses an address, so which
// accesses conflict does not depend on the heap's layout or history.
static char *arena = nullptr;
static size_t arena_pos = 0;
static int arena_on = 0;
static const size_t ARENA = (size_t)16 << 30;
static inline bool in_arena(const void *p) { return arena && (const char *)p >= arena && (const char *)p < arena + ARENA; }
static void *arena_get(size_t n) {
  if (!arena) {
    arena = (char *)mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (arena == MAP_FAILED) { arena = nullptr; return nullptr; }
  }
  size_t need = ((n + 63) & ~(size_t)63) + 64;
  if (arena_pos + need > ARENA || n > ((size_t)1 << 28)) return nullptr;
  char *p = arena + arena_pos;
  arena_pos += need;
  *(size_t *)p = n;
  memset(p + 64, 0xA5, n);
  return p + 64;
}
EXPORT void *__wrap_malloc(size_t n) {
  if (arena_on) { void *p = arena_get(n); if (p) return p; }
  return malloc(n);
}
EXPORT void __wrap_free(void *p) { if (!in_arena(p)) free(p); }
EXPORT void *__wrap_calloc(size_t a, size_t b) {
  if (arena_on) { void *p = arena_get(a * b); if (p) { memset(p, 0, a * b); return p; } }
  return calloc(a, b);
}
EXPORT void *__wrap_realloc(void *p, size_t n) {
  if (in_arena(p)) {
    size_t o = *(size_t *)((char *)p - 64);
    void *q = __wrap_malloc(n);
    if (q) memcpy(q, p, o < n ? o : n);
    return q;
  }
  return realloc(p, n);
}
struct NpAllocator {
  void *ctx;
  void *(*malloc)(void *, size_t);
  void *(*calloc)(void *, size_t, size_t);
  void *(*realloc)(void *, void *, size_t);
  void (*free)(void *, void *, size_t);
};
struct NpHandler { char name[127]; unsigned char version; NpAllocator a; };
static void *np_malloc(void *, size_t n) { return __wrap_malloc(n ? n : 1); }
static void *np_calloc(void *, size_t a, size_t b) { return __wrap_calloc(a ? a : 1, b ? b : 1); }
static void *np_realloc(void *, void *p, size_t n) { return __wrap_realloc(p, n ? n : 1); }
static void np_free(void *, void *p, size_t) { __wrap_free(p); }
static NpHandler handler = {"ompsim", 1, {nullptr, np_malloc, np_calloc, np_realloc, np_free}};
EXPORT void *ompsim_handler() { return &handler; }
EXPORT void ompsim_arena(int on) { arena_on = on; arena_get(0); }
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void *) {}
EXPORT void __tsan_func_exit() {}
EXPORT void __tsan_vptr_update(void **p, void *) { access(p, 8, true); }
EXPORT void __tsan_vptr_read(void **p) { access(p, 8, false); }
#define ACC(n) \
  EXPORT void __tsan_read##n(void *p) { access(p, n, false); } \
  EXPORT void __tsan_write##n(void *p) { access(p, n, true); } \
  EXPORT void __tsan_unaligned_read##n(void *p) { access(p, n, false); } \
  EXPORT void __tsan_unaligned_write##n(void *p) { access(p, n, true); } \
  EXPORT void __tsan_volatile_read##n(void *p) { access(p, n, false); } \
  EXPORT void __tsan_volatile_write##n(void *p) { access(p, n, true); } \
  EXPORT void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, false); } \
  EXPORT void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, true); } \
  EXPORT void __tsan_read_write##n(void *p) { access(p, n, true); } \
  EXPORT void __tsan_unaligned_read_write##n(void *p) { access(p, n, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
EXPORT void __tsan_read_range(void *p, size_t n) { access(p, n > 4096 ? 4096 : (int)n, false); }
EXPORT void __tsan_write_range(void *p, size_t n) { access(p, n > 4096 ? 4096 : (int)n, true); }
#define ATOM(b, T) \
  EXPORT T __tsan_atomic##b##_load(const volatile T *a, int) { sync_point(); return *a; } \
  EXPORT void __tsan_atomic##b##_store(volatile T *a, T v, int) { sync_point(); *a = v; } \
  EXPORT T __tsan_atomic##b##_exchange(volatile T *a, T v, int) { sync_point(); T o = *a; *a = v; return o; } \
  EXPORT T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int) { sync_point(); T o = *a; *a = o + v; return o; } \
  EXPORT T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int) { sync_point(); T o = *a; *a = o - v; return o; } \
  EXPORT T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int) { sync_point(); T o = *a; *a = o & v; return o; } \
  EXPORT T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int) { sync_point(); T o = *a; *a = o | v; return o; } \
  EXPORT T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int) { sync_point(); T o = *a; *a = o ^ v; return o; } \
  EXPORT T __tsan_atomic##b##_fetch_nand(volatile T *a, T v, int) { sync_point(); T o = *a; *a = ~(o & v); return o; } \
  EXPORT bool __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { sync_point(); if (*a == *c) { *a = v; return true; } *c = *a; return false; } \
  EXPORT bool __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { sync_point(); if (*a == *c) { *a = v; return true; } *c = *a; return false; } \
  EXPORT T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int, int) { sync_point(); T o = *a; if (o == c) *a = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
EXPORT void __tsan_atomic_thread_fence(int) { sync_point(); }
EXPORT void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- randomness seam
// The kernels seed their generator from std::random_device: make that a constant source.
#include <random>
static uint32_t rd_state = 12345;
EXPORT unsigned _ZNSt13random_device9_M_getvalEv(void *) { rd_state = rd_state * 1664525u + 1013904223u; return rd_state; }
EXPORT void _ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void *, const void *) {}
EXPORT void _ZNSt13random_device7_M_finiEv(void *) {}
EXPORT void _ZNSt13random_device14_M_init_pretr1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void *, const void *) {}
EXPORT unsigned _ZNSt13random_device16_M_getval_pretr1Ev(void *) { return _ZNSt13random_device9_M_getvalEv(nullptr); }
