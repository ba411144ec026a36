// C-string helpers and base64 under memory exhaustion (C11).
#include "../sim/core.h"
#include "Cstrings.h"
#include "String.h"
#include "base64.h"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <new>

using namespace sim;
using bd::String;

static std::string text() {
  static const uint32_t sizes[] = {3, 0, 1, 2, 7, 8, 15, 16, 31, 60, 100, 1000};
  uint32_t n = sizes[choose(12)];
  std::string s; uint32_t k = rng_free(200);
  for (uint32_t i = 0; i < n; i++) s += char(1 + (k + i * 7) % 255);
  return s;
}
static std::string show(const std::string &s) {
  std::string o = "\"";
  for (size_t i = 0; i < s.size() && i < 40; i++) { char b[8]; snprintf(b, 8, (unsigned char)s[i] < 32 || (unsigned char)s[i] > 126 ? "\\x%02x" : "%c", (unsigned char)s[i]); o += b; }
  return o + "\"(" + std::to_string(s.size()) + ")";
}
// ---------------------------------------------------------------- reference base64
static std::string enc(const std::string &s, const char *cs) {
  std::string o; size_t i = 0;
  for (; i + 2 < s.size(); i += 3) { uint32_t v = (uint8_t)s[i] << 16 | (uint8_t)s[i + 1] << 8 | (uint8_t)s[i + 2]; for (int k = 18; k >= 0; k -= 6) o += cs[v >> k & 63]; }
  if (i + 1 == s.size()) { uint32_t v = (uint8_t)s[i] << 16; o += cs[v >> 18 & 63]; o += cs[v >> 12 & 63]; o += "=="; }
  else if (i + 2 == s.size()) { uint32_t v = (uint8_t)s[i] << 16 | (uint8_t)s[i + 1] << 8; o += cs[v >> 18 & 63]; o += cs[v >> 12 & 63]; o += cs[v >> 6 & 63]; o += "="; }
  return o;
}

// ---------------------------------------------------------------- one caller
struct Blk { char *p; std::string m; bool str; };      // what the caller holds and what must be in it
struct Actor { std::vector<Blk> v; };
static Actor *mine[MAXT];
static bool expect_exit[MAXT];                          // a helper whose exhaustion ends the process is running
static bool huge[MAXT];                                 // the request itself cannot be met
static const char *opn[MAXT];

static bool holds(const Blk &b) { return !memcmp(b.p, b.m.data(), b.m.size()); }
static void on_exit_hook(int st) {
  int t = tid();
  if (!expect_exit[t]) { violate("C11", "unexpected-exit", "%s ended the process with status %d", opn[t], st); return; }
  if (!alloc_fail_fired() && !huge[t]) { violate("C11", "unexpected-exit", "%s ended the process with status %d although memory was available", opn[t], st); return; }
  if (st != 5) violate("C11", "exit-status", "%s ended the process with status %d instead of 5 when memory ran out", opn[t], st);
  for (auto &b : mine[t]->v) if (!in_arena(b.p) || !holds(b)) violate("C11", "damaged", "when %s ended the process for lack of memory, a block returned earlier no longer held its contents", opn[t]);
  count("exits"); nontrivial();
}
static void check_blk(const Blk &b, const char *op) {
  std::string got; { LIB("read block"); got.resize(0); Unlib u; got.resize(b.m.size()); } { LIB("read block"); if (b.m.size()) memcpy(&got[0], b.p, b.m.size()); }
  if (got != b.m) violate("C11", "wrong-content", "after %s a block holds %s instead of %s", op, show(got).c_str(), show(b.m).c_str());
}
// Runs a C helper; exhaustion inside it must end the process (which ends the run in the hook).
template <class F> static void chelper(const char *op, bool impossible, F f) {
  int t = tid(); opn[t] = op; expect_exit[t] = true; huge[t] = impossible;
  sig(std::hash<std::string>()(op));
  arm_alloc_fail(choose(3) == 2 ? 1 + choose(2) : 0, choose(3) == 2);
  { LIB(op); f(); }
  bool fired = disarm_alloc_fail();
  if (fired) { violate("C11", "carried-on", "%s returned although its allocation failed", op); finish_run(); }
  if (impossible) { violate("C11", "carried-on", "%s returned although it asked for more memory than exists", op); finish_run(); }
  expect_exit[t] = huge[t] = false;
}
// Runs a base64 function; returns false if it reported exhaustion.
template <class F> static bool b64(const char *op, bool throws, F f) {
  int t = tid(); opn[t] = op; expect_exit[t] = false;
  sig(std::hash<std::string>()(op));
  arm_alloc_fail(choose(2) ? 1 + choose(3) : 0, choose(3) == 2);
  const char *thrown = nullptr;
  try { LIB(op); f(); }
  catch (std::bad_alloc &) { thrown = "bad_alloc"; }
  catch (std::exception &e) { thrown = "another exception"; }
  catch (...) { thrown = "an exception of unknown type"; }
  bool fired = disarm_alloc_fail();
  if (fired) nontrivial();
  if (!thrown) return true;
  ev("%s threw %s", op, thrown);
  if (!fired || strcmp(thrown, "bad_alloc") || !throws) { violate("C11", "wrong-exception", "%s threw %s%s", op, thrown, fired ? " when memory ran out" : " although memory was available"); finish_run(); }
  return false;
}

static void body(Actor &a, const String *shared, const std::string *sharedm) {
  mine[tid()] = &a;
  int n = 2 + choose(8);
  for (int i = 0; i < n; i++) {
    yield_point();
    uint32_t k = choose(12);
    size_t w = a.v.empty() ? 0 : choose(a.v.size());
    switch (k) {
    case 0: { size_t c = choose(40), s = choose(9); char *p; chelper("calloc", false, [&] { p = (char *)bd::calloc(c, s); }); if (!p) { if (c * s) violate("C11", "null", "calloc returned null"); break; } a.v.push_back({p, std::string(c * s, '\0'), false}); check_blk(a.v.back(), "calloc"); break; }
    case 1: { if (choose(3)) break; nontrivial(); size_t c = SIZE_MAX / 2 + choose(3), s = 2 + choose(4); chelper("calloc of an overflowing size", true, [&] { (void)bd::calloc(c, s); }); break; }
    case 2: { size_t s = 1 + choose(200); char *p; chelper("realloc(null)", false, [&] { p = (char *)bd::realloc(nullptr, s); }); if (!p) { violate("C11", "null", "realloc returned null"); break; } { LIB("fill"); memset(p, 'r', s); } a.v.push_back({p, std::string(s, 'r'), false}); break; }
    case 3: { if (a.v.empty()) break; Blk &b = a.v[w]; size_t s = 1 + choose(2 * b.m.size() + 20); char *p; chelper("realloc", false, [&] { p = (char *)bd::realloc(b.p, s); }); if (!p) { violate("C11", "null", "realloc returned null"); finish_run(); } b.p = p; size_t keep = std::min(s, b.m.size()); b.m.resize(keep); check_blk(b, "realloc"); { LIB("fill"); memset(p + keep, 'q', s - keep); } b.m += std::string(s - keep, 'q'); b.str = false; break; }
    case 4: { if (a.v.empty()) break; char *p; chelper("realloc(p, 0)", false, [&] { p = (char *)bd::realloc(a.v[w].p, 0); if (p) free(p); }); a.v.erase(a.v.begin() + w); break; }
    case 5: { std::string s = text(); char *p; chelper("strdup", false, [&] { p = bd::strdup(s.c_str()); }); if (!p) { violate("C11", "null", "strdup returned null"); break; } a.v.push_back({p, std::string(s.c_str(), s.size() + 1), true}); check_blk(a.v.back(), "strdup"); break; }
    case 6: { std::string s = text(); size_t m = choose(3) ? choose(s.size() + 3) : SIZE_MAX; char *p; chelper("strldup", false, [&] { p = bd::strldup(s.c_str(), m); }); if (!p) { violate("C11", "null", "strldup returned null"); break; } std::string x = s.substr(0, m); a.v.push_back({p, std::string(x.c_str(), x.size() + 1), true}); check_blk(a.v.back(), "strldup"); break; }
    case 7: { std::string s = text(); Blk b{nullptr, "", true}; bool nw = a.v.empty() || choose(3) == 2; if (!nw) b = a.v[w]; char *p = b.p;
      if (!nw && choose(5) == 4) { chelper("str_redup(null)", false, [&] { bd::str_redup(&p, nullptr); }); if (p) violate("C11", "not-null", "str_redup to null left a pointer"); a.v.erase(a.v.begin() + w); break; }
      chelper("str_redup", false, [&] { bd::str_redup(&p, s.c_str()); }); if (!p) { violate("C11", "null", "str_redup stored null"); break; }
      b.p = p; b.m = std::string(s.c_str(), s.size() + 1); b.str = true; check_blk(b, "str_redup"); if (nw) a.v.push_back(b); else a.v[w] = b; break; }
    case 8: case 9: { // base64 into a buffer
      std::string s = text(), r; char cs[65]; const char *c = nullptr; memcpy(cs, bd::b64_charset, 65); if (choose(3) == 2) { std::rotate(cs, cs + 1 + choose(62), cs + 64); c = cs; }
      bool de = k == 9; std::string want = de ? s : enc(s, cs), in = de ? enc(s, cs) : s; size_t len = in.size(); char *p = nullptr; const char *op = de ? "b64dec" : "b64enc";
      char *src = (char *)arena_alloc(in.size() + 1, "input"); memcpy(src, in.c_str(), in.size() + 1);
      b64(op, false, [&] { p = de ? bd::b64dec((unsigned char *)src, &len, c) : bd::b64enc((unsigned char *)src, &len, c); });
      arena_release(src);
      bool fired = alloc_fail_fired();
      if (!p) { if (!fired) violate("C11", "null", "%s returned null although memory was available", op); count("null-returns"); break; }
      if (len != want.size()) { violate("C11", "wrong-content", "%s gave %zu bytes instead of %zu", op, len, want.size()); break; }
      Blk b{p, std::string(want.c_str(), want.size() + 1), false}; check_blk(b, op); a.v.push_back(b); break; }
    default: { // base64 of Strings
      bool sh = shared && choose(2); std::string s = sh ? *sharedm : text(); char cs[65]; const char *c = nullptr; memcpy(cs, bd::b64_charset, 65); if (choose(3) == 2) { std::rotate(cs, cs + 1 + choose(62), cs + 64); c = cs; }
      bool de = k == 11 && !sh; std::string want = de ? s : enc(s, cs), in = de ? enc(s, cs) : s, got; const char *op = de ? "base64Decode" : "base64Encode";
      String *o = nullptr; { LIB("String()"); if (!sh) o = new String(in.data(), in.size()); else o = new String(*shared); }
      String *res = nullptr;
      if (b64(op, true, [&] { res = new String(de ? bd::base64Decode(*o, c) : bd::base64Encode(*o, c)); })) {
        { LIB("read String"); size_t l = res->length(); { Unlib u; got.resize(l); } if (l) memcpy(&got[0], res->cbegin(), l); }
        if (got != want) violate("C11", "wrong-content", "%s of %s gave %s instead of %s", op, show(in).c_str(), show(got).c_str(), show(want).c_str());
        LIB("~String"); delete res;
      } else count("bad-allocs");
      { LIB("read String"); size_t l = o->length(); { Unlib u; got.resize(l); } if (l) memcpy(&got[0], o->cbegin(), l); }
      if (got != in) violate("C11", "damaged", "%s changed its argument", op);
      LIB("~String"); delete o; break; }
    }
    if (choose(3) == 0) for (auto &b : a.v) check_blk(b, "other calls");
  }
  for (auto &b : a.v) check_blk(b, "the calls of this run");
}
static void run() {
  draw_sched();
  for (int i = 0; i < MAXT; i++) { expect_exit[i] = huge[i] = false; opn[i] = "-"; }
  int nt = 1 + (choose(3) == 2);
  std::vector<Actor> as(nt);
  String *shared = nullptr; std::string sm = text(); { LIB("String()"); shared = new String(sm.data(), sm.size()); }
  set_exit_hook(on_exit_hook);
  std::vector<std::function<void()>> b;
  for (int t = 0; t < nt; t++) b.push_back([&, t] { body(as[t], shared, &sm); });
  if (nt > 1) nontrivial();
  run_threads(b);
  for (auto &a : as) for (auto &x : a.v) { LIB("free"); free(x.p); }
  { LIB("~String"); delete shared; }
  std::string det;
  if (size_t n = leak_check(&det)) violate("C11", "memory-leak", "%zu blocks are still allocated after everything was released: %s", n, det.c_str());
  finish_run();
}
static void warm() {}
namespace sim { Harness harness{"mem", run, warm, "C11"}; }
