// Runner: seeded search over runs, violation gate, minimisation, replay.
#include "internal.h"
#include <atomic>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <sched.h>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

using namespace sim;
static double now() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void *shm(size_t n) { void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(99); } return p; }

enum { DN = 1 << 23 };
struct Stats { uint64_t runs, nontriv, steps, switches, preempts, syscalls, choices, violations, irrepro; };
struct Found { std::atomic<int> set; uint64_t idx; };
struct Global {
  std::atomic<int> stop;
  std::atomic<uint64_t> distinct, distinct_nt;
  std::atomic<uint64_t> best_idx;
  std::atomic<int> bad;       // worker-level failure
};
static Global *G;
static std::atomic<uint64_t> *DT;
static Stats *WS;

static bool dset_add(uint64_t h) {
  if (!h) h = 1;
  size_t i = (h * 0x9E3779B97F4A7C15ull) >> 41;
  for (int k = 0; k < 64; k++) {
    std::atomic<uint64_t> &c = DT[(i + k) & (DN - 1)];
    uint64_t v = c.load(std::memory_order_relaxed);
    if (v == h) return false;
    if (!v) { if (c.compare_exchange_strong(v, h)) return true; if (v == h) return false; }
  }
  return false; // table (locally) full: undercount
}
static uint64_t mixseed(uint64_t seed, const char *prop, uint64_t idx) {
  uint64_t h = seed * 0x9E3779B97F4A7C15ull ^ 0x1234567;
  for (const char *p = prop; *p; p++) h = (h ^ *p) * 0x100000001b3ull;
  h ^= idx * 0xD1342543DE82EF95ull;
  h ^= h >> 32; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29;
  return h;
}
// Executes one run in a forked child. Returns status (1 ok, 2 violation).
static int run_child(const RunSpec &sp) {
  int killed = 0;
again:
  sh->status = 0;
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(99); }
  if (p == 0) child_main(sp);
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (sh->status == 0 && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && ++killed < 4) goto again; // killed from outside: not part of the run
  if (sh->status == 0) { // died without a word
    if (WIFEXITED(st) && WEXITSTATUS(st) == 99) { fprintf(stderr, "runner: environment failure in child\n"); exit(99); }
    snprintf(sh->cls, sizeof sh->cls, WIFSIGNALED(st) ? "died:signal%d" : "died:exit%d", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    snprintf(sh->msg, sizeof sh->msg, "the process died (%s %d) during the run", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    sh->hash = 0;
    sh->status = 2;
  }
  return sh->status;
}
static std::string esc(const char *s, size_t n) {
  std::string o;
  for (size_t i = 0; i < n; i++) {
    unsigned char c = s[i]; char b[8];
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
struct Outcome { int st; std::string cls; uint64_t hash; std::vector<uint32_t> ch; std::string msg; };
static Outcome exec_list(const std::vector<uint32_t> &l, bool trace) {
  static uint32_t *buf = (uint32_t *)shm(MAXC * 4);
  memcpy(buf, l.data(), l.size() * 4);
  RunSpec sp{true, 0, buf, (uint32_t)l.size(), trace};
  Outcome o;
  o.st = run_child(sp);
  o.cls = sh->cls; o.hash = sh->hash; o.msg = sh->msg;
  o.ch.assign(sh->ch, sh->ch + std::min<uint32_t>(sh->nch, MAXC));
  return o;
}
static void rtrim(std::vector<uint32_t> &v) { while (!v.empty() && !v.back()) v.pop_back(); }
static std::vector<uint32_t> shrink(std::vector<uint32_t> cur_, const std::string &cls, double budget, int *tries) {
  double t0 = now();
  *tries = 0;
  auto test = [&](const std::vector<uint32_t> &c, std::vector<uint32_t> &out) {
    if (now() - t0 > budget) return false;
    ++*tries;
    Outcome o = exec_list(c, false);
    if (o.st != 2 || o.cls != cls) return false;
    out = o.ch; rtrim(out);
    return true;
  };
  rtrim(cur_);
  bool progress = true;
  std::vector<uint32_t> n;
  auto better = [](const std::vector<uint32_t> &a, const std::vector<uint32_t> &b) { // a simpler than b
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
  };
  while (progress && now() - t0 < budget) {
    progress = false;
    for (size_t sz = std::max<size_t>(1, cur_.size() / 2); sz >= 1; sz /= 2) {
      for (size_t i = 0; i + sz <= cur_.size() && now() - t0 < budget;) {
        std::vector<uint32_t> c = cur_;
        c.erase(c.begin() + i, c.begin() + i + sz);
        if (test(c, n) && better(n, cur_)) { cur_ = n; progress = true; }
        else i += sz;
      }
      if (sz == 1) break;
    }
    for (size_t sz = std::max<size_t>(1, cur_.size() / 4); sz >= 1; sz /= 2) {
      for (size_t i = 0; i < cur_.size() && now() - t0 < budget; i += sz) {
        std::vector<uint32_t> c = cur_;
        bool ch = false;
        for (size_t k = i; k < i + sz && k < c.size(); k++) if (c[k]) { c[k] = 0; ch = true; }
        if (ch && test(c, n) && better(n, cur_)) { cur_ = n; progress = true; }
      }
      if (sz == 1) break;
    }
    for (size_t i = 0; i < cur_.size() && now() - t0 < budget; i++) {
      for (uint32_t v : {cur_[i] / 2, cur_[i] ? cur_[i] - 1 : 0}) {
        if (i >= cur_.size() || v >= cur_[i]) continue;
        std::vector<uint32_t> c = cur_;
        c[i] = v;
        if (test(c, n) && better(n, cur_)) { cur_ = n; progress = true; }
      }
    }
  }
  return cur_;
}
static std::vector<uint32_t> read_choices(const char *file, std::string &cls, std::string &hash) {
  FILE *f = fopen(file, "r");
  if (!f) { perror(file); exit(99); }
  std::string s; char b[65536]; size_t n;
  while ((n = fread(b, 1, sizeof b, f))) s.append(b, n);
  fclose(f);
  std::vector<uint32_t> v;
  size_t p = s.find("\"choices\":[");
  if (p == std::string::npos) { fprintf(stderr, "bad replay file\n"); exit(99); }
  p += 11;
  while (s[p] != ']') { v.push_back(strtoul(&s[p], nullptr, 10)); while (s[p] != ',' && s[p] != ']') p++; if (s[p] == ',') p++; }
  auto str = [&](const char *k) { std::string key = std::string("\"") + k + "\":\""; size_t q = s.find(key); if (q == std::string::npos) return std::string(); q += key.size(); return s.substr(q, s.find('"', q) - q); };
  cls = str("class"); hash = str("hash");
  return v;
}
int main(int argc, char **argv) {
  std::map<std::string, std::string> a;
  for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
  auto num = [&](const char *k, double d) { return a.count(k) ? atof(a[k].c_str()) : d; };
  static std::string prop = a["--prop"], scen = a["--scenario"], variant = a["--variant"];
  g_prop = prop.c_str();
  if (!scen.empty()) g_scenario = scen.c_str();
  if (a.count("--replay") && prop.empty()) {   // a replay file names its property
    FILE *f = fopen(a["--replay"].c_str(), "r"); char b[256] = ""; if (f) { b[fread(b, 1, 255, f)] = 0; fclose(f); }
    if (char *q = strstr(b, "\"property\":\"")) { prop = q + 12; prop.resize(prop.find('"')); g_prop = prop.c_str(); }
  }
  uint64_t seed = strtoull(a.count("--seed") ? a["--seed"].c_str() : "1", nullptr, 10);
  // Everything below /dev/null for library chatter
  sh = (Shared *)shm(sizeof(Shared));
  init_runtime();
  if (harness.warm) harness.warm();

  if (a.count("--replay")) {
    std::string cls, hash;
    auto l = read_choices(a["--replay"].c_str(), cls, hash);
    Outcome o = exec_list(l, true);
    char hb[32]; snprintf(hb, sizeof hb, "%016llx", (unsigned long long)o.hash);
    fwrite(sh->trace, 1, sh->trace_len, stdout);
    bool same = o.st == 2 && o.cls == cls && hash == hb;
    printf("replay: status=%d class=%s hash=%s %s\n", o.st, o.cls.c_str(), hb, same ? "REPRODUCED" : o.st == 2 ? "VIOLATION-DIFFERS" : "NOT-REPRODUCED");
    fflush(stdout);
    return same ? 1 : o.st == 2 ? 3 : 0;
  }
  if (a.count("--one")) {
    RunSpec sp{false, strtoull(a["--one"].c_str(), nullptr, 10), nullptr, 0, true};
    if (a.count("--idx")) sp.seed = mixseed(seed, g_prop, strtoull(a["--idx"].c_str(), nullptr, 10));
    int st = run_child(sp);
    fwrite(sh->trace, 1, sh->trace_len, stdout);
    printf("status %d cls %s hash %016llx choices %u steps %llu msg %s\n", st, sh->cls, (unsigned long long)sh->hash, sh->nch, (unsigned long long)sh->steps, sh->msg);
    return 0;
  }
  if (a.count("--hashes")) { // print event-log hash per run, for determinism diffs
    uint64_t n = num("--hashes", 100), from = num("--from", 0);
    for (uint64_t i = from; i < from + n; i++) {
      RunSpec sp{false, mixseed(seed, g_prop, i), nullptr, 0, false};
      int st = run_child(sp);
      printf("%llu %d %016llx %u\n", (unsigned long long)i, st, (unsigned long long)sh->hash, sh->nch);
    }
    return 0;
  }

  double T = num("--time", 20);
  uint64_t minruns = num("--minruns", 0), maxruns = num("--maxruns", 1e18);
  int W = num("--workers", 8);
  double hard = num("--hard", 600);
  G = (Global *)shm(sizeof(Global));
  DT = (std::atomic<uint64_t> *)shm(sizeof(uint64_t) * DN);
  WS = (Stats *)shm(sizeof(Stats) * W);
  Shared **wsh = (Shared **)shm(sizeof(Shared *) * W);
  for (int w = 0; w < W; w++) wsh[w] = (Shared *)shm(sizeof(Shared));
  G->best_idx.store(~0ull);
  double t0 = now();
  std::vector<pid_t> pids;
  int ncpu = sysconf(_SC_NPROCESSORS_ONLN);
  for (int w = 0; w < W; w++) {
    pid_t p = fork();
    if (p == 0) {
      cpu_set_t cs; CPU_ZERO(&cs);
      cpu_set_t all; sched_getaffinity(0, sizeof all, &all);
      int k = 0, want = w % CPU_COUNT(&all);
      for (int c = 0; c < CPU_SETSIZE; c++) if (CPU_ISSET(c, &all)) { if (k++ == want) { CPU_SET(c, &cs); break; } }
      sched_setaffinity(0, sizeof cs, &cs);
      sh = wsh[w];
      for (uint64_t idx = w;; idx += W) {
        if (G->stop.load() || idx >= maxruns) break;
        double el = now() - t0;
        if ((el > T && idx >= minruns) || el > hard) break;
        if (idx > G->best_idx.load()) break;
        RunSpec sp{false, mixseed(seed, g_prop, idx), nullptr, 0, false};
        int st = run_child(sp);
        Stats &s = WS[w];
        s.runs++; s.steps += sh->steps; s.switches += sh->switches; s.preempts += sh->preempts; s.syscalls += sh->syscalls; s.choices += sh->nch;
        if (dset_add(sh->sig)) { G->distinct++; if (sh->nontriv) G->distinct_nt++; }
        if (sh->nontriv) s.nontriv++;
        if (st == 2) {
          // gate 0: the same seed must give the same failure again, twice
          std::string c0 = sh->cls; uint64_t h0 = sh->hash; bool same = true;
          for (int k = 0; k < 2 && same; k++) same = run_child(sp) == 2 && c0 == sh->cls && h0 == sh->hash;
          if (!same) { s.irrepro++; fprintf(stderr, "runner: run %llu gave %s once and not again\n", (unsigned long long)idx, c0.c_str()); continue; }
          s.violations++;
          if (getenv("SIM_DEBUG")) fprintf(stderr, "worker %d run %llu: %s %s hash %llx\n", w, (unsigned long long)idx, sh->cls, sh->msg, (unsigned long long)sh->hash);
          uint64_t b = G->best_idx.load();
          while (idx < b && !G->best_idx.compare_exchange_weak(b, idx)) {}
          break;
        }
      }
      syscall(SYS_exit_group, 0);
    }
    pids.push_back(p);
  }
  (void)ncpu;
  bool err = false;
  for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) err = true; }
  double el = now() - t0;
  Stats S{};
  std::map<std::string, uint64_t> cnt;
  for (int w = 0; w < W; w++) {
    Stats &s = WS[w];
    S.runs += s.runs; S.nontriv += s.nontriv; S.steps += s.steps; S.switches += s.switches; S.preempts += s.preempts; S.syscalls += s.syscalls; S.choices += s.choices; S.violations += s.violations; S.irrepro += s.irrepro;
    for (auto &c : wsh[w]->cnt) if (c.name) cnt[c.name] += c.n;
  }
  if (err) { fprintf(stderr, "runner: a worker failed\n"); return 99; }
  std::string viol = "null";
  int rc = 0;
  uint64_t bi = G->best_idx.load();
  if (bi != ~0ull) {
    // gate 1: the same seed again, same log
    RunSpec sp{false, mixseed(seed, g_prop, bi), nullptr, 0, false};
    int s1 = run_child(sp); std::string c1 = sh->cls; uint64_t h1 = sh->hash; std::string m1 = sh->msg;
    std::vector<uint32_t> ch(sh->ch, sh->ch + std::min<uint32_t>(sh->nch, MAXC));
    int s2 = run_child(sp); std::string c2 = sh->cls; uint64_t h2 = sh->hash;
    if (s1 != 2 || s2 != 2 || c1 != c2 || h1 != h2) {
      fprintf(stderr, "runner: run %llu is not reproducible (%d/%d %s/%s %llx/%llx)\n", (unsigned long long)bi, s1, s2, c1.c_str(), c2.c_str(), (unsigned long long)h1, (unsigned long long)h2);
      return 98;
    }
    Outcome o = exec_list(ch, false);
    if (o.st != 2 || o.cls != c1) { fprintf(stderr, "runner: replay from choices differs (%d %s)\n", o.st, o.cls.c_str()); return 98; }
    int tries = 0;
    size_t before = ch.size();
    std::vector<uint32_t> sm = shrink(ch, c1, num("--shrink", 25), &tries);
    o = exec_list(sm, true);
    if (o.st != 2 || o.cls != c1) { fprintf(stderr, "runner: minimised run does not fail\n"); return 98; }
    char name[400];
    snprintf(name, sizeof name, "%s/%s-%s%s%016llx.json", a.count("--replaydir") ? a["--replaydir"].c_str() : ".", g_prop, variant.c_str(), variant.empty() ? "" : "-", (unsigned long long)o.hash);
    FILE *f = fopen(name, "w");
    if (!f) { perror(name); return 99; }
    fprintf(f, "{\"property\":\"%s\",\"harness\":\"%s\",\"variant\":\"%s\",\"scenario\":\"%s\",\"verif_seed\":%llu,\"run\":%llu,\"class\":\"%s\",\"hash\":\"%016llx\",\n\"message\":\"%s\",\n\"choices\":[", g_prop, harness.name, variant.c_str(), scen.c_str(),
            (unsigned long long)seed, (unsigned long long)bi, esc(o.cls.c_str(), o.cls.size()).c_str(), (unsigned long long)o.hash, esc(o.msg.c_str(), o.msg.size()).c_str());
    for (size_t i = 0; i < sm.size(); i++) fprintf(f, "%s%u", i ? "," : "", sm[i]);
    fprintf(f, "],\n\"trace\":[\n");
    std::string tr(sh->trace, sh->trace_len);
    size_t p = 0; bool first = true;
    while (p < tr.size()) { size_t q = tr.find('\n', p); if (q == std::string::npos) q = tr.size(); fprintf(f, "%s\"%s\"", first ? "" : ",\n", esc(&tr[p], q - p).c_str()); first = false; p = q + 1; }
    fprintf(f, "\n]}\n");
    fclose(f);
    printf("FOUND class=%s run=%llu choices %zu -> %zu (%d shrink runs) replay=%s\n%s\n", o.cls.c_str(), (unsigned long long)bi, before, sm.size(), tries, name, o.msg.c_str());
    viol = "{\"class\":\"" + esc(o.cls.c_str(), o.cls.size()) + "\",\"message\":\"" + esc(o.msg.c_str(), o.msg.size()) + "\",\"replay\":\"" + esc(name, strlen(name)) + "\",\"run\":" + std::to_string(bi) + "}";
    rc = 1;
  }
  if (a.count("--out")) {
    FILE *f = fopen(a["--out"].c_str(), "w");
    if (!f) { perror("out"); return 99; }
    fprintf(f, "{\"property\":\"%s\",\"harness\":\"%s\",\"variant\":\"%s\",\"seed\":%llu,\"runs\":%llu,\"nontrivial_runs\":%llu,\"distinct\":%llu,\"distinct_nontrivial\":%llu,\"steps\":%llu,\"switches\":%llu,\"preemptions\":%llu,\"syscalls\":%llu,\"choices\":%llu,\"irreproducible\":%llu,\"wall_s\":%.2f,\"violation\":%s,\"counters\":{",
            g_prop, harness.name, variant.c_str(), (unsigned long long)seed, (unsigned long long)S.runs, (unsigned long long)S.nontriv, (unsigned long long)G->distinct.load(), (unsigned long long)G->distinct_nt.load(), (unsigned long long)S.steps, (unsigned long long)S.switches, (unsigned long long)S.preempts, (unsigned long long)S.syscalls, (unsigned long long)S.choices, (unsigned long long)S.irrepro, el, viol.c_str());
    bool first = true;
    for (auto &c : cnt) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", c.first.c_str(), (unsigned long long)c.second); first = false; }
    fprintf(f, "}}\n");
    fclose(f);
  }
  printf("%s: %llu runs in %.1fs (%.0f/s), %llu distinct (%llu non-trivial), %llu switches, %llu syscalls, %llu steps\n", g_prop, (unsigned long long)S.runs, el, S.runs / el,
         (unsigned long long)G->distinct.load(), (unsigned long long)G->distinct_nt.load(), (unsigned long long)S.switches, (unsigned long long)S.syscalls, (unsigned long long)S.steps);
  for (auto &c : cnt) printf("  %s=%llu", c.first.c_str(), (unsigned long long)c.second);
  printf("\n");
  return rc;
}
