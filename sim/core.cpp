// Deterministic simulation runtime: choices, scheduler, shadow memory, arena.
// Compiled WITHOUT -fsanitize=thread; provides the __tsan_* entry points.
#include "internal.h"
#include <exception>
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <signal.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <unordered_map>

extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t);
void *__real_memchr(const void *, int, size_t);
void *__real_memmem(const void *, size_t, const void *, size_t);
size_t __real_strlen(const char *);
char *__real_strcpy(char *, const char *);
char *__real_strncpy(char *, const char *, size_t);
void __real_exit(int) __attribute__((noreturn));
extern char __data_start, _end;
}

namespace sim {
Shared *sh;
const char *g_prop = "";
const char *g_scenario = nullptr;
Thread T[MAXT];
Thread *cur = nullptr;
bool g_active = false;
bool (*g_is_bus)(void *);
uint64_t steps = 0, max_steps = 3000000;

static RunSpec spec;
static uint64_t rs[4];
static uint64_t freectr;
static bool multi = false;       // several simulated threads exist right now
static bool ever_multi = false;
static SchedCfg cfg{100, 8, 2};
static int live_threads = 0;
static bool crashed = false;
static void (*g_exit_hook)(int) = nullptr;
static const char *g_race_props = "C08";
static free_hook_t g_free_hook; static void *g_free_user;

// ------------------------------------------------------------------ rng
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t next64() {
  uint64_t r = rotl(rs[1] * 5, 7) * 9, t = rs[1] << 17;
  rs[2] ^= rs[0]; rs[3] ^= rs[1]; rs[1] ^= rs[2]; rs[0] ^= rs[3]; rs[2] ^= t; rs[3] = rotl(rs[3], 45);
  return r;
}
static uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static uint32_t record(uint32_t v, uint32_t n) {
  if (sh->nch < MAXC) { sh->ch[sh->nch] = v; sh->chn[sh->nch] = n; }
  else { sh->status = 1; sh->msg[0] = 0; syscall(SYS_exit_group, 0); }   // choice budget: end of run
  sh->nch++;
  sh->hash = (sh->hash ^ (v + 0x1000193ull * n)) * 0x100000001b3ull;
  return v;
}
static bool from_list(uint32_t n, uint32_t &v) {
  if (!spec.replay) return false;
  v = sh->nch < spec.nlist ? spec.list[sh->nch] : 0;
  if (v >= n) v = n ? v % n : 0;
  return true;
}
uint32_t choose(uint32_t n) {
  uint32_t v;
  if (n <= 1) return 0;
  if (!from_list(n, v)) v = next64() % n;
  return record(v, n);
}
bool chance(uint32_t num, uint32_t den) {
  uint32_t v;
  if (num == 0) return false;
  if (!from_list(2, v)) v = next64() % den < num;
  return record(v, 2);
}
uint32_t choose_w(const uint32_t *w, uint32_t n) {
  uint32_t v;
  if (!from_list(n, v)) {
    uint64_t s = 0;
    for (uint32_t i = 0; i < n; i++) s += w[i];
    uint64_t r = next64() % s;
    for (v = 0; v < n - 1; v++) { if (r < w[v]) break; r -= w[v]; }
  }
  return record(v, n);
}
uint32_t rng_free(uint32_t n) { uint64_t x = ++freectr * 0x9E3779B97F4A7C15ull; return n ? splitmix(x) % n : 0; }

// ------------------------------------------------------------------ events
static void trace_add(const char *s, size_t n) {
  if (!spec.trace) return;
  if (sh->trace_len + n + 1 >= MAXTRACE) return;
  __real_memcpy(sh->trace + sh->trace_len, s, n);
  sh->trace_len += n;
  sh->trace[sh->trace_len++] = '\n';
}
static void hash_text(const char *s, size_t n) {
  uint64_t h = sh->hash;
  for (size_t i = 0; i < n; i++) h = (h ^ (unsigned char)s[i]) * 0x100000001b3ull;
  sh->hash = h;
}
void ev(const char *fmt, ...) {
  char b[700];
  int n = snprintf(b, sizeof b, "[t%d #%llu] ", cur ? cur->id : -1, (unsigned long long)steps);
  va_list va; va_start(va, fmt);
  int m = vsnprintf(b + n, sizeof b - n, fmt, va);
  va_end(va);
  if (m > (int)sizeof b - n - 1) m = sizeof b - n - 1;
  hash_text(b, n + m);
  trace_add(b, n + m);
}
static void end_child(int status) {
  sh->steps = steps;
  sh->choices_made = sh->nch;
  sh->status = status;
  syscall(SYS_exit_group, 0);
  __builtin_unreachable();
}
static int pid_ = 4242;
int sim_pid() { return pid_; }
std::string other_process(const std::function<std::string()> &f) {
  Rt rt; int p[2]; std::string out;
  if (syscall(SYS_pipe2, p, 0)) return out;
  pid_t c = fork();
  if (c == 0) {
    Shared *mine = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (mine == MAP_FAILED) syscall(SYS_exit_group, 0);
    mine->nch = sh->nch; sh = mine; spec.trace = false; pid_ = 4243; freectr += 0x100000;
    std::string r = f();
    size_t k = 0; while (k < r.size()) { long n = syscall(SYS_write, p[1], r.data() + k, r.size() - k); if (n <= 0) break; k += n; }
    syscall(SYS_exit_group, 0);
  }
  syscall(SYS_close, p[1]);
  if (c > 0) {
    char b[4096]; for (;;) { long n = syscall(SYS_read, p[0], b, sizeof b); if (n < 0 && errno == EINTR) continue; if (n <= 0) break; out.append(b, n); }
    while (syscall(SYS_wait4, c, nullptr, 0, nullptr) < 0 && errno == EINTR) {}
  }
  syscall(SYS_close, p[0]);
  return out;
}
void finish_run() { end_child(1); __builtin_unreachable(); }
bool selected(const char *prop) { return !strcmp(prop, g_prop); }
const char *selected_prop() { return g_prop; }
const char *scenario() { return g_scenario; }
static bool has_prop(const char *props) {
  if (props[0] == '*') return true;
  const char *p = strstr(props, g_prop);
  return p && *g_prop;
}
void violate(const char *props, const char *cls, const char *fmt, ...) {
  if (sh->status) syscall(SYS_exit_group, 0);
  if (!has_prop(props)) { count("foreign-violation"); return; }
  snprintf(sh->cls, sizeof sh->cls, "%s", cls);
  va_list va; va_start(va, fmt);
  vsnprintf(sh->msg, sizeof sh->msg, fmt, va);
  va_end(va);
  char b[3200];
  int n = snprintf(b, sizeof b, "VIOLATED [%s] t%d in %s: %s", cls, cur ? cur->id : -1,
                   cur && cur->op ? cur->op : "-", sh->msg);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  hash_text(b, n);
  trace_add(b, n);
  end_child(2);
}
void count(const char *name, uint64_t n) {
  unsigned h = ((uintptr_t)name >> 3) % MAXCNT;
  for (int i = 0; i < MAXCNT; i++) {
    Counter &c = sh->cnt[(h + i) % MAXCNT];
    if (c.name == name || !c.name) { c.name = name; c.n += n; return; }
  }
}
void sig(uint64_t x) { sh->sig = (sh->sig ^ (x + 0x9e3779b9)) * 0x100000001b3ull; sh->sig ^= sh->sig >> 29; }
void nontrivial() { sh->nontriv = 1; }

// ------------------------------------------------------------------ scope
Lib::Lib(const char *op) {
  if (!cur) return;
  if (cur->depth == 0) { cur->op = op; }
  cur->depth++;
  if (cur->depth == 1 && multi) {
    Rt rt;
    cur->gap = cfg.gap_max ? choose(cfg.gap_max) : 0;   // 0 = no preemption inside this operation
  }
}
Lib::~Lib() { if (cur && --cur->depth == 0) cur->gap = 0; }
Unlib::Unlib() { saved = 0; op = nullptr; if (cur) { saved = cur->depth; op = cur->op; cur->depth = 0; } }
Unlib::~Unlib() { if (cur) { cur->depth = saved; cur->op = op; } }
bool in_lib() { return cur && cur->depth > 0; }
const char *current_op() { return cur && cur->op ? cur->op : "-"; }
int tid() { return cur ? cur->id : 0; }
void set_exit_hook(void (*h)(int)) { g_exit_hook = h; }
void set_race_props(const char *p) { g_race_props = p; }

// ------------------------------------------------------------------ threads
static void fwait(std::atomic<int> &s) {
  int e;
  for (;;) {
    e = 1;
    if (s.compare_exchange_strong(e, 0)) return;
    syscall(SYS_futex, &s, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  }
}
static void fpost(std::atomic<int> &s) { s.store(1); syscall(SYS_futex, &s, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

void set_sched(const SchedCfg &c) { cfg = c; }
void draw_sched() {
  static const uint32_t gaps[] = {0, 30, 120, 400, 1500, 10};
  static const uint32_t dens[] = {0, 16, 6, 2, 3, 40};
  static const uint32_t ys[] = {1, 2, 3, 6};
  cfg.gap_max = gaps[choose(6)];
  cfg.atomic_den = dens[choose(6)];
  cfg.yield_den = ys[choose(4)];
}
static void refresh_blocked() {
  for (int i = 1; i < MAXT; i++)
    if (T[i].state == 2 && (*T[i].pred)()) T[i].state = 1;
}
static int runnable(int *out, int me) {
  int n = 0;
  for (int k = 1; k < MAXT; k++) {
    int i = (me + k) % MAXT;
    if (i && i != me && T[i].state == 1) out[n++] = i;
  }
  return n;
}
static void switch_to(Thread *me, Thread *nx) {
  sh->switches++;
  sig((uint64_t)nx->id * 1000003 + (me->depth > 0 ? steps : 0));
  me->since_switch = 0; nx->since_switch = 0;
  std::atomic<int> *mine = me->sem;   // read before another thread may run
  cur = nx;
  fpost(*nx->sem);
  fwait(*mine);
}
// Offer a switch; the current thread stays runnable.
static void offer_switch(Thread *me, const char *why) {
  Rt rt;
  refresh_blocked();
  int r[MAXT];
  int n = runnable(r, me->id);
  if (!n) return;
  uint32_t c = choose(n + 1);
  if (!c) return;
  if (rt.d > 0) { sh->preempts++; nontrivial(); }
  ev("switch %d->%d (%s in %s)", me->id, r[c - 1], why, me->op && rt.d ? me->op : "-");
  switch_to(me, &T[r[c - 1]]);
}
static void forced_switch(Thread *me) { // fairness: no choice involved
  Rt rt;
  refresh_blocked();
  int r[MAXT];
  int n = runnable(r, me->id);
  me->since_switch = 0;
  if (!n) return;
  ev("fair-switch %d->%d", me->id, r[0]);
  switch_to(me, &T[r[0]]);
}
static void preempt(Thread *t) {
  offer_switch(t, "preempt");
  Rt rt;
  t->gap = cfg.gap_max ? choose(cfg.gap_max) : 0;
}
void yield_point() {
  if (!multi || !cur || !cur->id) return;
  if (chance(1, cfg.yield_den)) offer_switch(cur, "yield");
}
void sys_point(const char *what) {
  sh->syscalls++;
  if (!multi || !cur || !cur->id) return;
  Rt rt;
  if (chance(1, cfg.yield_den)) { cur->depth = rt.d; offer_switch(cur, what); }
}
static void leave(Thread *me) { // current thread cannot continue now; hand over
  refresh_blocked();
  int r[MAXT];
  int n = runnable(r, me->id);
  if (!n) {
    if (me->state == 3) {
      bool any = false;
      for (int i = 1; i < MAXT; i++) if (T[i].state == 2) any = true;
      if (!any) { cur = &T[0]; fpost(*T[0].sem); return; }
    } else if (me->state == 2 && (*me->pred)()) { me->state = 1; return; }
    violate("*", "deadlock", "no simulated thread can make progress");
    end_child(1);
  }
  uint32_t c = choose(n);
  ev("handover %d->%d", me->id, r[c]);
  sh->switches++;
  sig((uint64_t)r[c] * 1000003);
  T[r[c]].since_switch = 0;
  std::atomic<int> *mine = me->state != 3 ? me->sem : nullptr;
  cur = &T[r[c]];
  fpost(*T[r[c]].sem);
  if (mine) fwait(*mine);
}
void block_until(const std::function<bool()> &pred, const char *what) {
  Rt rt;
  Thread *me = cur;
  if (pred()) return;
  if (!multi) { violate("*", "deadlock", "blocked for ever: %s", what); end_child(1); }
  me->pred = &pred; me->state = 2;
  ev("block on %s", what);
  while (me->state == 2) leave(me);
  me->pred = nullptr;
}
static void set_altstack() {
  stack_t ss{};
  ss.ss_sp = (void *)syscall(SYS_mmap, nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  ss.ss_size = 65536;
  sigaltstack(&ss, nullptr);
}
struct Start { Thread *t; std::atomic<int> *sem; };
static void *thread_main(void *p) {
  Start st = *(Start *)p;         // not through Thread: by the time this runs the machine may have crashed
  Thread *me = st.t;
  set_altstack();
  fwait(*st.sem);
  (*me->body)();
  me->state = 3;
  for (int i = 0; i < MAXT; i++) if (me->vc[i] > T[0].vc[i]) T[0].vc[i] = me->vc[i];  // join edge
  leave(me);
  return nullptr;
}
void crash_all() {
  ev("MACHINE CRASH");
  crashed = true;
  cur->depth = 0;
  Thread *me = cur;
  if (me->id == 0) { violate("*", "harness", "crash_all from the main thread"); }
  std::atomic<int> *mysem = me->sem;
  cur = &T[0];
  fpost(*T[0].sem);
  for (;;) fwait(*mysem);
}
bool run_threads(const std::vector<std::function<void()>> &bodies) {
  Thread *main = cur;
  int n = bodies.size();
  crashed = false;
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 512 * 1024);
  pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
  static std::vector<std::function<void()>> keep; // bodies must outlive a crash
  keep = bodies;
  main->vc[0]++;
  for (int i = 1; i < MAXT; i++) T[i].state = 0;
  for (int i = 1; i <= n; i++) {
    Thread &t = T[i];
    uint32_t own = t.vc[i];
    for (int k = 0; k < MAXT; k++) t.vc[k] = main->vc[k];
    t.vc[i] = own + 1;
    memset(t.acq, 0, sizeof t.acq); t.has_relf = false;
    t.id = i; t.depth = 0; t.op = nullptr; t.gap = 0; t.state = 1; t.sem = new std::atomic<int>(0);
    t.fail_in = 0; t.fail_fired = false; t.since_switch = 0;
    t.body = &keep[i - 1];
    pthread_t th;
    if (pthread_create(&th, &at, thread_main, new Start{&t, t.sem})) { fprintf(stderr, "pthread_create failed\n"); syscall(SYS_exit_group, 99); }
  }
  main->vc[0]++;
  multi = n > 1; if (multi) ever_multi = true;
  live_threads = n;
  uint32_t first = choose(n);
  cur = &T[1 + first];
  fpost(*T[1 + first].sem);
  fwait(*main->sem);
  cur = main;
  multi = false;
  if (crashed) { // a dead machine orders everything before what follows
    for (int i = 1; i < MAXT; i++)
      for (int k = 0; k < MAXT; k++) if (T[i].vc[k] > main->vc[k]) main->vc[k] = T[i].vc[k];
  }
  main->vc[0]++;
  return crashed;
}

// ------------------------------------------------------------------ arena + shadow
static const uintptr_t AB = 0x200000000000ull;
static const size_t AN = 48u << 20;
static unsigned char *const ST = (unsigned char *)0x210000000000ull; // per byte: 0 none/redzone 1 live 2 freed
struct Cell { uint32_t w; uint32_t r[MAXT]; uint32_t a[MAXT]; };
static Cell *const SC = (Cell *)0x220000000000ull;
static Cell *GC; static uintptr_t GB; static size_t GN;
static size_t abump = 64;
struct Block { uintptr_t p; size_t n; bool lib, live; int tid; const char *op; bool mark; };
static Block *blocks; static size_t nblocks, cblocks = 1 << 18;
static uint64_t n_lib_allocs;

static void map_fixed(uintptr_t a, size_t n) {
  void *r = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (r != (void *)a) { perror("mmap shadow"); _exit(99); }
}
void init_runtime() {
  map_fixed(AB, AN);
  map_fixed((uintptr_t)ST, AN);
  map_fixed((uintptr_t)SC, AN * sizeof(Cell));
  GB = (uintptr_t)&__data_start; GN = (uintptr_t)&_end - GB;
  GC = (Cell *)mmap(nullptr, GN * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  blocks = (Block *)mmap(nullptr, cblocks * sizeof(Block), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
bool in_arena(const void *p) { return (uintptr_t)p - AB < AN; }
static Block *find_block(uintptr_t p) { // last block with start <= p
  size_t lo = 0, hi = nblocks;
  while (lo < hi) { size_t m = (lo + hi) / 2; if (blocks[m].p <= p) lo = m + 1; else hi = m; }
  return lo ? &blocks[lo - 1] : nullptr;
}
static void describe(uintptr_t a, char *out, size_t n) {
  if (a - AB < AN) {
    Block *b = find_block(a);
    if (b) snprintf(out, n, "block#%zu size %zu offset %ld allocated by t%d in %s%s", (size_t)(b - blocks), b->n,
                    (long)(a - b->p), b->tid, b->op ? b->op : "-", b->live ? "" : " (freed)");
    else snprintf(out, n, "arena");
  } else if (a - GB < GN) snprintf(out, n, "static data");
  else snprintf(out, n, "other memory");
}
static void *aalloc(size_t n, bool lib, const char *op) {
  size_t need = ((n + 15) & ~size_t(15)) + 32;
  if (abump + need > AN || nblocks == cblocks) {
    violate("*", "memory", "the run consumed more than %zu MB or too many blocks (request %zu) in %s", AN >> 20, n, current_op());
    end_child(1);
  }
  uintptr_t p = AB + abump + 16;
  abump += need;
  blocks[nblocks++] = Block{p, n, lib, true, cur ? cur->id : 0, op, false};
  __real_memset(ST + (p - AB), 1, n);
  __real_memset((void *)p, 0xAA, n);
  return (void *)p;
}
static void access_range(Thread *t, uintptr_t a, size_t n, bool wr, bool isfree);
static void afree(void *vp, const char *what) {
  uintptr_t p = (uintptr_t)vp;
  Block *b = find_block(p);
  if (!b || b->p != p || !b->live) {
    char d[300]; describe(p, d, sizeof d);
    violate("*", !b || b->p != p ? "bad-free" : "double-free", "%s of %s", what, d);
    return;
  }
  if (multi && cur && cur->depth > 0) access_range(cur, p, b->n, true, true);
  if (g_free_hook && b->lib && cur) { Rt rt; g_free_hook(vp, b->n, g_free_user); }
  b->live = false;
  __real_memset(ST + (p - AB), 2, b->n);
  __real_memset((void *)p, 0xDD, b->n);
}
void *arena_alloc(size_t n, const char *what) { return aalloc(n, false, what); }
void arena_release(void *p) { afree(p, "release"); }
void set_free_hook(free_hook_t h, void *user) { g_free_hook = h; g_free_user = user; }
uint64_t lib_allocs() { return n_lib_allocs; }
void arm_alloc_fail(uint32_t kth, bool sticky) { cur->fail_in = kth; cur->fail_sticky = sticky; cur->fail_fired = false; }
bool disarm_alloc_fail() { cur->fail_in = 0; return cur->fail_fired; }
bool alloc_fail_fired() { return cur->fail_fired; }

static bool alloc_should_fail(size_t n) {
  Thread *t = cur;
  n_lib_allocs++;
  if (t->fail_in) {
    if (t->fail_in == 1) {
      if (!t->fail_sticky) t->fail_in = 0;
      t->fail_fired = true;
      Rt rt; ev("FAULT allocation of %zu bytes fails in %s", n, t->op ? t->op : "-");
      count("fault.alloc"); nontrivial();
      return true;
    }
    t->fail_in--;
  }
  return n > (AN >> 1);   // absurd sizes fail like they would for real
}
static void *lib_alloc(size_t n) { // nullptr on failure
  if (alloc_should_fail(n)) return nullptr;
  return aalloc(n, true, cur->op);
}
size_t leak_check(std::string *detail) {
  for (size_t i = 0; i < nblocks; i++) blocks[i].mark = false;
  std::vector<size_t> work;
  auto scan = [&](uintptr_t a, uintptr_t e) {
    for (a = (a + 7) & ~uintptr_t(7); a + 8 <= e; a += 8) {
      uintptr_t v = *(uintptr_t *)a;
      if (v - AB >= AN) continue;
      Block *b = find_block(v);
      if (b && b->live && b->lib && !b->mark && v <= b->p + b->n) { b->mark = true; work.push_back(b - blocks); }
    }
  };
  scan(GB, GB + GN);
  while (!work.empty()) { size_t i = work.back(); work.pop_back(); scan(blocks[i].p, blocks[i].p + blocks[i].n); }
  size_t n = 0;
  for (size_t i = 0; i < nblocks; i++)
    if (blocks[i].live && blocks[i].lib && !blocks[i].mark) {
      if (detail && n < 4) {
        char b[200]; snprintf(b, sizeof b, "%s%zu bytes allocated by t%d in %s", n ? "; " : "", blocks[i].n, blocks[i].tid, blocks[i].op ? blocks[i].op : "-");
        *detail += b;
      }
      n++;
    }
  return n;
}

// ------------------------------------------------------------------ race detection
static inline uint32_t E(const Thread *t) { return t->vc[t->id]; }
static void race(Thread *t, uintptr_t a, bool wr, int other, const char *what, bool isfree) {
  char d[300]; describe(a, d, sizeof d);
  violate(g_race_props, isfree ? "race-free" : "race", "data race: t%d %s while an unordered earlier %s by t%d in %s touched it: %s",
          t->id, isfree ? "releases memory" : wr ? "writes" : "reads", what, other, T[other].op ? T[other].op : "-", d);
}
static inline void cell_plain(Thread *t, Cell &c, uintptr_t a, bool wr, bool isfree) {
  if (c.w) { int o = c.w & 7; if (o != t->id && (c.w >> 3) > t->vc[o]) race(t, a, wr, o, "write", isfree); }
  for (int o = 1; o < MAXT; o++) {
    if (o == t->id) continue;
    if (c.a[o] > t->vc[o]) race(t, a, wr, o, "atomic access", isfree);
    if (wr && c.r[o] > t->vc[o]) race(t, a, wr, o, "read", isfree);
  }
  if (wr) c.w = E(t) << 3 | t->id; else c.r[t->id] = E(t);
}
static inline void cell_atomic(Thread *t, Cell &c, uintptr_t a) {
  if (c.w) { int o = c.w & 7; if (o != t->id && (c.w >> 3) > t->vc[o]) race(t, a, true, o, "plain write", false); }
  for (int o = 1; o < MAXT; o++) if (o != t->id && c.r[o] > t->vc[o]) race(t, a, true, o, "plain read", false);
  c.a[t->id] = E(t);
}
static inline Cell *cells(uintptr_t a, size_t n) {
  if (a - AB < AN) return SC + (a - AB);
  if (a - GB < GN && a + n <= GB + GN) return GC + (a - GB);
  return nullptr;
}
static void bad_access(uintptr_t a, size_t n, size_t i, bool wr) {
  char d[300]; describe(a + i, d, sizeof d);
  int s = ST[a + i - AB];
  violate("*", s == 2 ? "use-after-free" : "out-of-bounds", "%s of %zu bytes touches %s memory: %s in %s", wr ? "write" : "read", n,
          s == 2 ? "released" : "unallocated", d, current_op());
}
static void access_range(Thread *t, uintptr_t a, size_t n, bool wr, bool isfree) {
  if (!n) return;
  if (a - AB < AN && !isfree) {
    for (size_t i = 0; i < n; i++) if (__builtin_expect(ST[a + i - AB] != 1, 0)) { bad_access(a, n, i, wr); break; }
  }
  if (multi) {
    Cell *c = cells(a, n);
    if (c) for (size_t i = 0; i < n; i++) cell_plain(t, c[i], a + i, wr, isfree);
  }
}
static inline void tick(Thread *t) {
  if (__builtin_expect(++steps > max_steps, 0)) { violate("*", "no-progress", "more than %llu memory accesses in one run, last in %s", (unsigned long long)max_steps, current_op()); end_child(1); }
  if (multi) {
    if (t->gap > 0 && --t->gap == 0) preempt(t);
    else if (__builtin_expect(++t->since_switch > 30000, 0)) forced_switch(t);
  }
}
static void access(Thread *t, uintptr_t a, size_t n, bool wr) {
  tick(t);
  access_range(t, a, n, wr, false);
}
void check_range(const void *p, size_t n, bool wr) {
  Thread *t = cur;
  if (t && t->depth > 0) access_range(t, (uintptr_t)p, n, wr, false);
}
// Sync variables for atomics, mutexes, guards
struct VC { uint32_t v[MAXT]; };
static std::unordered_map<uintptr_t, VC> *syncs;
static std::unordered_map<uintptr_t, int> *mowner;
static VC &sv(uintptr_t a) { if (!syncs) syncs = new std::unordered_map<uintptr_t, VC>(); return (*syncs)[a]; }
static void join(uint32_t *d, const uint32_t *s) { for (int i = 0; i < MAXT; i++) if (s[i] > d[i]) d[i] = s[i]; }
static inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void do_acquire(Thread *t, uintptr_t a, int mo) {
  VC &s = sv(a);
  if (is_acq(mo)) join(t->vc, s.v);
  join(t->acq, s.v);
}
static void do_release(Thread *t, uintptr_t a, int mo, bool rmw) {
  VC &s = sv(a);
  if (is_rel(mo)) {
    if (!rmw) memset(s.v, 0, sizeof s.v);
    join(s.v, t->vc);
    t->vc[t->id]++;
  } else {
    if (!rmw) memset(s.v, 0, sizeof s.v);
    if (t->has_relf) join(s.v, t->relf);
  }
}
static Thread *at_enter(uintptr_t a, size_t n) {
  Thread *t = cur;
  if (!t || t->depth <= 0) return nullptr;
  if (multi && cfg.atomic_den) {
    bool hit; { Rt rt; hit = chance(1, cfg.atomic_den); }
    if (hit) offer_switch(t, "atomic");
  }
  tick(t);
  if (a - AB < AN) for (size_t i = 0; i < n; i++) if (ST[a + i - AB] != 1) { bad_access(a, n, i, true); break; }
  if (!multi) return nullptr;
  Cell *c = cells(a, n);
  if (c) for (size_t i = 0; i < n; i++) cell_atomic(t, c[i], a + i);
  return t;
}
static void at_fence(int mo) {
  Thread *t = cur;
  if (!t || t->depth <= 0 || !multi) return;
  if (is_acq(mo)) join(t->vc, t->acq);
  if (is_rel(mo)) { memcpy(t->relf, t->vc, sizeof t->relf); t->has_relf = true; t->vc[t->id]++; }
}
} // namespace sim

using namespace sim;

// ------------------------------------------------------------------ __tsan ABI
#define HOOK(a, n, w) do { Thread *t_ = cur; if (t_ && t_->depth > 0) access(t_, (uintptr_t)(a), n, w); } while (0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void *a) { HOOK(a, n, false); } \
  void __tsan_write##n(void *a) { HOOK(a, n, true); } \
  void __tsan_unaligned_read##n(void *a) { HOOK(a, n, false); } \
  void __tsan_unaligned_write##n(void *a) { HOOK(a, n, true); } \
  void __tsan_volatile_read##n(void *a) { HOOK(a, n, false); } \
  void __tsan_volatile_write##n(void *a) { HOOK(a, n, true); } \
  void __tsan_unaligned_volatile_read##n(void *a) { HOOK(a, n, false); } \
  void __tsan_unaligned_volatile_write##n(void *a) { HOOK(a, n, true); } \
  void __tsan_read_write##n(void *a) { HOOK(a, n, true); } \
  void __tsan_unaligned_read_write##n(void *a) { HOOK(a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { HOOK(a, n, false); }
void __tsan_write_range(void *a, size_t n) { HOOK(a, n, true); }
void __tsan_vptr_update(void **a, void *) { HOOK(a, 8, true); }
void __tsan_vptr_read(void **a) { HOOK(a, 8, false); }

#define AT(N, TY) \
  TY __tsan_atomic##N##_load(const volatile TY *a, int mo) { Thread *t = at_enter((uintptr_t)a, sizeof(TY)); TY v = *a; if (t) { Rt r; do_acquire(t, (uintptr_t)a, mo); } return v; } \
  void __tsan_atomic##N##_store(volatile TY *a, TY v, int mo) { Thread *t = at_enter((uintptr_t)a, sizeof(TY)); if (t) { Rt r; do_release(t, (uintptr_t)a, mo, false); } *a = v; } \
  TY __tsan_atomic##N##_exchange(volatile TY *a, TY v, int mo) { Thread *t = at_enter((uintptr_t)a, sizeof(TY)); TY o = *a; if (t) { Rt r; do_acquire(t, (uintptr_t)a, mo); do_release(t, (uintptr_t)a, mo, true); } *a = v; return o; } \
  TY __tsan_atomic##N##_fetch_add(volatile TY *a, TY v, int mo) { Thread *t = at_enter((uintptr_t)a, sizeof(TY)); TY o = *a; if (t) { Rt r; do_acquire(t, (uintptr_t)a, mo); do_release(t, (uintptr_t)a, mo, true); } *a = o + v; return o; } \
  TY __tsan_atomic##N##_fetch_sub(volatile TY *a, TY v, int mo) { Thread *t = at_enter((uintptr_t)a, sizeof(TY)); TY o = *a; if (t) { Rt r; do_acquire(t, (uintptr_t)a, mo); do_release(t, (uintptr_t)a, mo, true); } *a = o - v; return o; } \
  TY __tsan_atomic##N##_fetch_and(volatile TY *a, TY v, int mo) { Thread *t = at_enter((uintptr_t)a, sizeof(TY)); TY o = *a; if (t) { Rt r; do_acquire(t, (uintptr_t)a, mo); do_release(t, (uintptr_t)a, mo, true); } *a = o & v; return o; } \
  TY __tsan_atomic##N##_fetch_or(volatile TY *a, TY v, int mo) { Thread *t = at_enter((uintptr_t)a, sizeof(TY)); TY o = *a; if (t) { Rt r; do_acquire(t, (uintptr_t)a, mo); do_release(t, (uintptr_t)a, mo, true); } *a = o | v; return o; } \
  TY __tsan_atomic##N##_fetch_xor(volatile TY *a, TY v, int mo) { Thread *t = at_enter((uintptr_t)a, sizeof(TY)); TY o = *a; if (t) { Rt r; do_acquire(t, (uintptr_t)a, mo); do_release(t, (uintptr_t)a, mo, true); } *a = o ^ v; return o; } \
  TY __tsan_atomic##N##_fetch_nand(volatile TY *a, TY v, int mo) { Thread *t = at_enter((uintptr_t)a, sizeof(TY)); TY o = *a; if (t) { Rt r; do_acquire(t, (uintptr_t)a, mo); do_release(t, (uintptr_t)a, mo, true); } *a = ~(o & v); return o; } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile TY *a, TY *c, TY v, int mo, int fmo) { Thread *t = at_enter((uintptr_t)a, sizeof(TY)); TY o = *a; \
    if (o == *c) { if (t) { Rt r; do_acquire(t, (uintptr_t)a, mo); do_release(t, (uintptr_t)a, mo, true); } *a = v; return 1; } \
    if (t) { Rt r; do_acquire(t, (uintptr_t)a, fmo); } *c = o; return 0; } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile TY *a, TY *c, TY v, int mo, int fmo) { return __tsan_atomic##N##_compare_exchange_strong(a, c, v, mo, fmo); } \
  TY __tsan_atomic##N##_compare_exchange_val(volatile TY *a, TY c, TY v, int mo, int fmo) { __tsan_atomic##N##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { at_fence(mo); }
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ static-local guards
int __cxa_guard_acquire(long long *g) {
  volatile char *b = (volatile char *)g;
  if (b[0]) { if (multi && cur && cur->depth > 0) { Rt r; do_acquire(cur, (uintptr_t)g, __ATOMIC_ACQUIRE); } return 0; }
  if (b[1] && multi) {
    std::function<bool()> f = [b] { return b[1] == 0; };
    block_until(f, "static initialisation");
    if (b[0]) { Rt r; do_acquire(cur, (uintptr_t)g, __ATOMIC_ACQUIRE); return 0; }
  }
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(long long *g) {
  volatile char *b = (volatile char *)g;
  if (multi && cur && cur->depth > 0) { Rt r; do_release(cur, (uintptr_t)g, __ATOMIC_RELEASE, false); }
  b[0] = 1; b[1] = 0;
}
void __cxa_guard_abort(long long *g) { ((volatile char *)g)[1] = 0; }

// ------------------------------------------------------------------ mutexes of library code
static int &owner_of(pthread_mutex_t *m) { if (!mowner) mowner = new std::unordered_map<uintptr_t, int>(); return (*mowner)[(uintptr_t)m]; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (!cur || !multi || !cur->id) return __real_pthread_mutex_lock(m);
  Rt r;
  cur->depth = r.d; offer_switch(cur, "mutex"); cur->depth = 0;
  if (owner_of(m) == cur->id && m->__data.__kind != PTHREAD_MUTEX_RECURSIVE_NP) violate("*", "deadlock", "mutex locked twice by its owner");
  std::function<bool()> f = [m] { return owner_of(m) == 0; };
  while (owner_of(m) && owner_of(m) != cur->id) block_until(f, "mutex");
  owner_of(m) = cur->id;
  do_acquire(cur, (uintptr_t)m, __ATOMIC_ACQUIRE);
  return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!cur || !multi || !cur->id) return __real_pthread_mutex_trylock(m);
  Rt r;
  if (owner_of(m)) return EBUSY;
  owner_of(m) = cur->id;
  do_acquire(cur, (uintptr_t)m, __ATOMIC_ACQUIRE);
  return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!cur || !multi || !cur->id) return __real_pthread_mutex_unlock(m);
  Rt r;
  do_release(cur, (uintptr_t)m, __ATOMIC_RELEASE, false);
  owner_of(m) = 0;
  cur->depth = r.d; offer_switch(cur, "mutex"); cur->depth = 0;
  return 0;
}

// ------------------------------------------------------------------ memory functions of library code
void *__wrap_memcpy(void *d, const void *s, size_t n) { Thread *t = cur; if (t && t->depth > 0 && n) { access(t, (uintptr_t)s, n, false); access(t, (uintptr_t)d, n, true); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { Thread *t = cur; if (t && t->depth > 0 && n) { access(t, (uintptr_t)s, n, false); access(t, (uintptr_t)d, n, true); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (n) HOOK(d, n, true); return __real_memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { Thread *t = cur; if (t && t->depth > 0 && n) { access(t, (uintptr_t)a, n, false); access(t, (uintptr_t)b, n, false); } return __real_memcmp(a, b, n); }
void *__wrap_memchr(const void *a, int c, size_t n) {
  void *r = n ? __real_memchr(a, c, n) : nullptr;
  if (n) HOOK(a, r ? (char *)r - (char *)a + 1 : n, false);
  return r;
}
void *__wrap_memmem(const void *a, size_t n, const void *b, size_t m) { Thread *t = cur; if (t && t->depth > 0) { if (n) access(t, (uintptr_t)a, n, false); if (m) access(t, (uintptr_t)b, m, false); } return __real_memmem(a, n, b, m); }
size_t __wrap_strlen(const char *s) { size_t n = __real_strlen(s); HOOK(s, n + 1, false); return n; }
char *__wrap_strcpy(char *d, const char *s) { size_t n = __real_strlen(s) + 1; HOOK(s, n, false); HOOK(d, n, true); return __real_strcpy(d, s); }
char *__wrap_strncpy(char *d, const char *s, size_t n) { HOOK(d, n, true); return __real_strncpy(d, s, n); }

void *__wrap_malloc(size_t n) { if (in_lib()) { void *p = lib_alloc(n); if (!p) errno = ENOMEM; return p; } return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) {
  if (in_lib()) {
    size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    void *p = lib_alloc(n); if (p) __real_memset(p, 0, n); else errno = ENOMEM; return p;
  }
  return __real_calloc(a, b);
}
void __wrap_free(void *p) { if (p && in_arena(p)) { afree(p, "free"); return; } __real_free(p); }
void *__wrap_realloc(void *p, size_t n) {
  if ((p && in_arena(p)) || (!p && in_lib())) {
    Block *b = p ? find_block((uintptr_t)p) : nullptr;
    if (p && (b->p != (uintptr_t)p || !b->live)) { violate("*", "bad-free", "realloc of a block that is not live"); return nullptr; }
    if (p && n == 0) { afree(p, "realloc"); return nullptr; }
    void *q = in_lib() ? lib_alloc(n) : aalloc(n, true, "harness");
    if (!q) { errno = ENOMEM; return nullptr; }
    if (p) { size_t old = b->n; __real_memcpy(q, p, old < n ? old : n); afree(p, "realloc"); }
    return q;
  }
  return __real_realloc(p, n);
}
char *__wrap_strdup(const char *s) { size_t n = __real_strlen(s) + 1; char *p = (char *)__wrap_malloc(n); if (p) __real_memcpy(p, s, n); return p; }
char *__wrap_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *)__wrap_malloc(n + 1); if (p) { __real_memcpy(p, s, n); p[n] = 0; } return p; }
void __wrap_exit(int st) {
  if (cur && g_active && g_exit_hook) { cur->depth = 0; g_exit_hook(st); end_child(1); }
  if (cur && g_active) { violate("*", "exit", "library code called exit(%d) in %s", st, current_op()); end_child(1); }
  __real_exit(st);
}
void __wrap__exit(int st) {
  if (cur && g_active && g_exit_hook) { cur->depth = 0; g_exit_hook(st); end_child(1); }
  if (cur && g_active) { violate("*", "exit", "library code called _exit(%d) in %s", st, current_op()); end_child(1); }
  syscall(SYS_exit_group, st); __builtin_unreachable();
}
}

void *operator new(size_t n) {
  if (in_lib()) { void *p = lib_alloc(n); if (!p) throw std::bad_alloc(); return p; }
  void *p = __real_malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { if (in_lib()) return lib_alloc(n); return __real_malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &t) noexcept { return operator new(n, t); }
void operator delete(void *p) noexcept { if (p && in_arena(p)) afree(p, "delete"); else __real_free(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { operator delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { operator delete(p); }

// ------------------------------------------------------------------ signals, child entry
namespace sim {
static void on_sig(int s, siginfo_t *si, void *) {
  const char *n = s == SIGSEGV ? "SIGSEGV" : s == SIGBUS ? "SIGBUS" : s == SIGABRT ? "SIGABRT" : s == SIGFPE ? "SIGFPE" : s == SIGILL ? "SIGILL" : s == SIGALRM || s == SIGPROF ? "hang" : "signal";
  if (s == SIGSEGV && g_is_bus && g_is_bus(si->si_addr)) n = "SIGBUS";
  char cls[96];
  bool lib = cur && cur->depth > 0;
  snprintf(cls, sizeof cls, s == SIGALRM || s == SIGPROF ? "hang" : "crash:%s", n);
  violate("*", cls, "%s in %s (%s code, operation %s)", n, lib ? "library" : "caller", lib ? "library" : "caller", current_op());
  end_child(2);
}
void child_main(const RunSpec &sp) {
  spec = sp;
  uint64_t x = spec.seed;
  for (int i = 0; i < 4; i++) rs[i] = splitmix(x);
  sh->status = 0; sh->nch = 0; sh->hash = 0xcbf29ce484222325ull; sh->sig = 1469598103934665603ull; sh->nontriv = 0;
  sh->trace_len = 0; sh->msg[0] = 0; sh->cls[0] = 0; sh->switches = sh->preempts = sh->syscalls = 0;
  set_altstack();
  struct sigaction sa{};
  sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM, SIGPROF}) sigaction(s, &sa, nullptr);
  std::set_terminate([] { abort(); });                // no chatter
  struct itimerval cpu{{0, 0}, {20, 0}};
  setitimer(ITIMER_PROF, &cpu, nullptr);              // processor time: a stalled machine is no hang
  alarm(420);
  __real_memset((void *)T, 0, sizeof T);
  cur = &T[0];
  cur->id = 0; cur->state = 0; cur->vc[0] = 1; cur->sem = new std::atomic<int>(0);
  g_active = true;
  harness.run();
  end_child(1);
  __builtin_unreachable();
}
} // namespace sim
