// Deterministic simulation runtime: public interface used by the harnesses.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdarg>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---- choices -------------------------------------------------------------
// Every nondeterministic decision of a run goes through here. 0 is always the
// simplest outcome (no fault, no preemption, smallest, stop).
uint32_t choose(uint32_t n);                    // uniform in [0,n)
bool chance(uint32_t num, uint32_t den);        // true with num/den; recorded as 0/1
uint32_t choose_w(const uint32_t *w, uint32_t n); // weighted index
uint32_t rng_free(uint32_t n);                  // deterministic per run but not a recorded choice (data filler)

// ---- events, violations ---------------------------------------------------
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// props: comma separated property ids the violation belongs to, or "*".
// Ends the run if the selected property is among them; returns otherwise.
void violate(const char *props, const char *cls, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
bool selected(const char *prop);                // is this property the one being checked?
const char *selected_prop();
void count(const char *name, uint64_t n = 1);   // name must be a string literal
void sig(uint64_t x);                           // mix into the run's distinctness signature
void nontrivial();                              // mark the run as non-trivial
[[noreturn]] void finish_run();                 // end the run successfully right now

// ---- library scope ---------------------------------------------------------
// Hooks (scheduling, shadow checks, allocation faults, arena) act only while the
// current simulated thread is inside a Lib scope.
struct Lib {
  explicit Lib(const char *op);
  ~Lib();
  Lib(const Lib &) = delete;
};
// Suspends the scope: harness code called back from inside the library.
struct Unlib {
  int saved;
  const char *op;
  Unlib();
  ~Unlib();
};
bool in_lib();
const char *current_op();

// ---- threads ----------------------------------------------------------------
enum { MAXT = 6 };
int tid();                                      // 0 = the run's main thread
// Runs the bodies as simulated threads; returns when all finished, or when
// crash_all() was called (then true is returned, the others never run again).
bool run_threads(const std::vector<std::function<void()>> &bodies);
void yield_point();                             // explicit scheduling point (between operations)
[[noreturn]] void crash_all();                  // machine crash: stop every simulated thread
void block_until(const std::function<bool()> &pred, const char *what);
struct SchedCfg { uint32_t gap_max; uint32_t atomic_den; uint32_t yield_den; };
void set_sched(const SchedCfg &c);
void draw_sched();                              // draws a scheduling style for this run

// ---- memory -------------------------------------------------------------------
void *arena_alloc(size_t n, const char *what);  // harness-owned memory inside the arena (race/uaf checked)
void arena_release(void *p);
void arm_alloc_fail(uint32_t kth, bool sticky = false);  // fail the kth (1-based) library allocation from now
bool disarm_alloc_fail();                       // returns whether a failure fired
bool alloc_fail_fired();                        // has the armed failure fired (this thread)?
uint64_t lib_allocs();                          // library allocations made so far
// Live library allocations not reachable from static data; empties the list into text.
size_t leak_check(std::string *detail);
typedef void (*free_hook_t)(void *p, size_t n, void *user);
void set_free_hook(free_hook_t h, void *user);  // called before a library block is released
bool in_arena(const void *p);
// exit() from library code calls the hook (harness code), then the run ends: the process is gone.
void set_exit_hook(void (*h)(int status));
void set_race_props(const char *props);         // properties a data race belongs to (default C08)

// ---- another process ------------------------------------------------------------
// Runs f in a copy of this process as it is now, with another process id, and gives what it returns.  Nothing it
// does is seen here otherwise: the copy starts from the same static data, as a second start of the program would.
std::string other_process(const std::function<std::string()> &f);
int sim_pid();

// ---- run description ---------------------------------------------------------------
struct Harness {
  const char *name;
  void (*run)();                                // body of one run
  void (*warm)();                               // once, in the zygote
  const char *props;                            // comma separated properties it decides
};
extern Harness harness;                         // defined by each harness
extern uint64_t steps;                          // instrumented accesses executed in this run
extern uint64_t max_steps;

// Known-finding scenario support: returns the id of the scenario to force, or null.
const char *scenario();
} // namespace sim

#define LIB(op) sim::Lib _lib_scope(op)
