// Runtime internals shared by core.cpp, fs.cpp and main.cpp
#pragma once
#include "core.h"
#include <atomic>
#include <sys/types.h>

namespace sim {
enum { MAXC = 1 << 17, MAXTRACE = 1 << 19, MAXCNT = 512 };
struct Counter { const char *name; uint64_t n; };
struct Shared {
  volatile int status;       // 0 running, 1 ok, 2 violation
  char cls[96];
  char msg[3000];
  uint64_t hash, sig;
  int nontriv;
  uint64_t steps, choices_made, switches, preempts, syscalls;
  uint32_t nch;
  uint32_t ch[MAXC];
  uint32_t chn[MAXC];        // bound of each choice
  uint32_t trace_len;
  char trace[MAXTRACE];
  Counter cnt[MAXCNT];
};
extern Shared *sh;
struct RunSpec {
  bool replay;
  uint64_t seed;
  const uint32_t *list; uint32_t nlist;
  bool trace;
};
[[noreturn]] void child_main(const RunSpec &spec);
void init_runtime();         // zygote: map arena and shadows
extern const char *g_prop;
extern const char *g_scenario;

struct Thread {
  int id;
  int depth;
  const char *op;
  int64_t gap;
  uint32_t vc[MAXT], acq[MAXT], relf[MAXT];
  bool has_relf;
  int state;                 // 0 unused 1 runnable 2 blocked 3 done
  const std::function<bool()> *pred;
  std::atomic<int> *sem;       // fresh for every set of threads: those of a crashed machine stay parked on theirs
  const std::function<void()> *body;
  uint64_t since_switch;
  uint32_t fail_in; bool fail_sticky, fail_fired;
};
extern Thread *cur;
extern bool (*g_is_bus)(void *);   // does a fault address lie in a simulated file mapping?
extern bool g_active;        // inside a run (child)
void sys_point(const char *what);   // scheduling point at a simulated system call
// Leave the library scope while runtime code that may allocate runs.
struct Rt {
  Thread *t; int d;
  Rt() : t(cur), d(0) { if (t) { d = t->depth; t->depth = 0; } }
  ~Rt() { if (t) t->depth = d; }
};
void check_range(const void *p, size_t n, bool write); // shadow/race check of a buffer passed to a system call
} // namespace sim
