// AtomicFile under a simulated file system: crashes, faults, concurrent sessions (C01-C04).
#include "../sim/core.h"
#include "../sim/fs.h"
#include "AtomicFile.h"
#include "Stream.h"
#include <cstring>
#include <fcntl.h>
#include <memory>
#include <set>
#include <sys/stat.h>
#include <unistd.h>

using namespace sim;
namespace fs = simfs;

struct Version { bool exists; std::string data; long mode; int session; bool off; };
struct Target { std::string name, path; std::vector<Version> allowed; };
struct Bystander { std::string path, data; mode_t mode; int ino; };
struct UserFd { int fd; int ino; };

static std::vector<Target> targets;
static std::vector<Bystander> bystanders;
static std::vector<UserFd> userfds;
static int nsess;
static bool probing;
static uint32_t crash_sample;

static std::string shortq(const std::string &s) {
  std::string o = s.substr(0, 24);
  for (char &c : o) if (c < 32 || c > 126) c = '?';
  return "\"" + o + (s.size() > 24 ? "...\"" : "\"") + "(" + std::to_string(s.size()) + " bytes)";
}
static bool match(const Version &v, const fs::View &w) {
  if (v.off || v.exists != w.exists) return false;
  if (!v.exists) return true;
  return v.data == w.data && (v.mode < 0 || (mode_t)v.mode == w.mode);
}
static bool data_allowed(const Target &t, const std::string &d) {
  for (auto &v : t.allowed) if (!v.off && v.exists && v.data == d) return true;
  return false;
}
static void check_view(const Target &t, const fs::View &v, const char *who, const char *call) {
  for (auto &a : t.allowed) if (match(a, v)) return;
  if (!v.exists) { violate("C01", "target-missing", "%s after %s: %s does not exist, but it did before and every allowed version does", who, call, t.path.c_str()); return; }
  bool d = data_allowed(t, v.data);
  violate("C01", d ? "wrong-mode" : "torn-target", "%s after %s: %s holds %s with mode %03o, which is %s", who, call, t.path.c_str(), shortq(v.data).c_str(), v.mode,
          d ? "a committed content with a mode that was not asked for" : "neither the previous file nor the complete bytes of a committed session");
}
static void on_step(const char *call) {
  if (probing || !selected("C01")) return;
  probing = true;
  for (auto &t : targets) check_view(t, fs::live(t.path), "a reader", call);
  if (crash_sample && chance(1, crash_sample)) {
    Target &t = targets[choose(targets.size())];
    count("crash-images");
    check_view(t, fs::crash_view(t.path), "a crash image", call);
  }
  probing = false;
}
// One AtomicFile session as the harness sees it.
struct Actor {
  std::unique_ptr<bd::AtomicFile> f;
  bool open = false, unknown = false;
  int target = -1, id = -1;
  long mode = -1;
  std::string data;
  uint64_t sess_seq = 0;
  bd::String keep;                                          // the caller's name, still alive
  uint32_t sess_faults = 0;

  void note() { auto o = fs::take_op_faults(tid()); sess_faults |= o.mask; last = o; }
  fs::OpFaults last{0, 0};

  void check_state(const char *op) {
    bool o; int fd;
    { LIB("AtomicFile::is_open"); o = f->is_open(); fd = f->fd(); }
    if (o != open) violate("C02,C03", "wrong-state", "after %s is_open() is %d, expected %d", op, o, open);
    if (!open && fd != -1) violate("C03", "wrong-state", "after %s the object is not open but fd() returns %d", op, fd);
    if (open && !fs::fd_is_open(fd)) violate("C03,C04", "lost-descriptor", "after %s the session's descriptor %d is not open", op, fd);
  }
  // The object is not open: nothing of it may be left.
  void check_clean(const char *op) {
    int n = fs::open_lib_fds(tid());
    if (n) violate("C03", "descriptor-leak", "after %s the session is over but %d descriptor(s) it opened are still open", op, n);
    for (auto &e : fs::ls()) {
        fs::InodeP i = fs::lookup(e);
        if (!i->lib || i->ctid != tid()) continue;
        bool tg = false; for (auto &t : targets) if (t.path == e) tg = true;
        if (tg) continue;
        if (sess_faults >> fs::K_UNLINK & 1) i->ctid = -1; // its removal failed: from here on just a file
        else violate("C03", "temporary-left", "after %s the temporary file %s is still there", op, e.c_str());
      }
    check_others(op);
  }
  void check_others(const char *op) {
    for (auto &b : bystanders) {
      fs::View v = fs::live(b.path);
      if (!v.exists || v.ino != b.ino) violate("C03,C04", "bystander", "after %s the unrelated file %s was removed or replaced", op, b.path.c_str());
      else if (v.data != b.data || v.mode != b.mode) violate("C03,C04", "bystander", "after %s the unrelated file %s was changed", op, b.path.c_str());
    }
    for (auto &u : userfds)
      if (fs::fd_inode(u.fd) != u.ino) violate("C03,C04", "foreign-descriptor", "after %s a descriptor that AtomicFile does not own was closed or replaced", op);
    if (fs::lib_closed_foreign()) violate("C03,C04", "foreign-descriptor", "in or before %s a descriptor that the session does not own was closed", op);
    for (auto &h : fs::history) {
      if (h.seq < sess_seq || h.tid != tid() || !h.lib) continue;
      if (target >= 0 && h.path == targets[target].path) continue;
      bool own = (h.after && h.after->lib && (h.after->ctid == tid() || h.after->ctid < 0)) || (h.before && h.before->lib && (h.before->ctid == tid() || h.before->ctid < 0));
      bool tg = false; for (auto &t : targets) if (t.path == h.path) tg = true;
      if (!own || tg) violate("C03,C04", "touched-other", "in %s the name %s, which belongs to no part of this session, was changed", op, h.path.c_str());
    }
  }
  void fresh() { if (!f) f.reset(new bd::AtomicFile()); }
  void do_open() {
    fresh();
    int t = choose(targets.size());
    static const long modes[] = {-1, 0644, 0600, 0755, 0400, 0, 0777, 06711};
    long m = modes[choose(8)];
    bool was = open;
    if (was) count("reopen-while-open");
    fs::take_op_faults(tid());
    sess_faults = 0; sess_seq = was ? sess_seq : fs::seq + 1;
    ev("open(%s, %ld)%s", targets[t].name.c_str(), m, was ? " while open" : "");
    bool r = false, threw = false;
    // the name comes as a fresh String, as one that lives on, or as a part of a longer one
    int form = choose(4); const std::string &nm = targets[t].name;
    { LIB("String"); keep = bd::String(); }
    { LIB("String");
      if (form == 2) keep = bd::String(nm.data(), nm.size());
      if (form == 3) { std::string l; { Unlib u; l = "pre:" + nm + ".suffix"; } keep = bd::String(l.data(), l.size()); } }
    bool arm = choose(10) == 9;
    if (arm) { uint32_t k = 1 + choose(6); arm_alloc_fail(k, choose(2)); }
    try { LIB("AtomicFile::open");
      if (form == 3) { bd::String part(keep(4, nm.size())); r = m == -1 ? f->open(part) : f->open(part, m); }
      else if (form == 2) r = m == -1 ? f->open(keep) : f->open(keep, m);
      else r = m == -1 ? f->open(bd::String(nm.c_str())) : f->open(bd::String(nm.c_str()), m); }
    catch (std::bad_alloc &) { threw = true; }
    if (arm && !disarm_alloc_fail() && threw) violate("C02,C03", "wrong-exception", "open threw bad_alloc although no allocation failed");
    note();
    if (threw) {
      ev("open threw bad_alloc"); count("open-threw"); bool o; { LIB("AtomicFile::is_open"); o = f->is_open(); }
      if (o && !was) violate("C03", "wrong-state", "open threw but left the object open");
      open = o && was; check_state("an open that threw"); if (!open) { id = -1; check_clean("an open that threw"); }
      return;
    }
    if (form == 2) { std::string v; { LIB("String"); const char *b = keep.cbegin(); size_t n = keep.length(); Unlib u; v.assign(b, n); } if (v != nm) violate("C03", "caller-name", "open changed the caller's String"); }
    if (form >= 2 && choose(2)) { LIB("String"); char *b = keep.begin(); for (size_t i = 0; i < keep.length(); i++) b[i] = '#'; }
    target = t; mode = m == -1 ? 0600 : m; data.clear(); /* without a mode: as private as a temporary */ unknown = false; open = r; id = ++nsess;
    ev("open -> %d", r);
    check_state("open");
    if (!r && !(last.n)) violate("C02,C04", "open-failed", "open(%s) failed although no system call was made to fail", targets[t].name.c_str());
    if (r && (last.mask >> fs::K_MKSTEMP & 1)) violate("C02", "open-lied", "open reported success although creating the temporary failed");
    if (was && !r) check_clean("a failed open over an unfinished session");
    else if (!r) check_clean("a failed open");
    else if (fs::open_lib_fds(tid()) > 1) violate("C03", "descriptor-leak", "after opening over an unfinished session the earlier descriptor is still open");
    else if (was) {
      int fd; { LIB("AtomicFile::fd"); fd = f->fd(); }
      int cur = fs::fd_inode(fd);
      for (auto &e : fs::ls()) {
        fs::InodeP i = fs::lookup(e);
        if (!i->lib || i->ctid != tid() || i->id == cur) continue;
        bool tg = false; for (auto &x : targets) if (x.path == e) tg = true;
        if (tg) continue;
        if (sess_faults >> fs::K_UNLINK & 1) i->ctid = -1; // its removal failed: from here on just a file
        else violate("C03", "temporary-left", "after opening over an unfinished session the earlier temporary file %s is still there", e.c_str());
      }
    }
    check_others("open");
  }
  void sync_data() { fs::InodeP i; int fd; { LIB("AtomicFile::fd"); fd = f->fd(); } data = fs::fd_data(fd); }
  void do_write() {
    int fd; { LIB("AtomicFile::fd"); fd = f->fd(); }
    static const uint32_t w[] = {6, 3, 1, 1};
    static const uint32_t mx[] = {40, 200, 5000, 9000};
    uint32_t n = 1 + choose(mx[choose_w(w, 4)]);
    if (choose(150) == 149) n = 65530 + choose(20);
    std::string c = "<" + std::to_string(id) + ":";
    for (uint32_t k = 0; c.size() < n; k++) c += char('a' + (id * 7 + k + data.size()) % 26);
    c += ">";
    if (data.empty() && choose(3) == 2) { // through a Stream
      bd::Stream s; 
      { LIB("Stream::puts"); s.puts(bd::String(c.data(), c.size())); }
      int r; { LIB("Stream::writeFile(fd)"); r = s.writeFile(fd); }
      note();
      ev("session %d writeFile(%zu) -> %d", id, c.size(), r);
      if (r) unknown = true;
    } else {
      size_t done = 0;
      while (done < c.size()) {
        size_t part = choose(3) ? c.size() - done : 1 + choose(c.size() - done);
        ssize_t r = ::write(fd, c.data() + done, part);
        if (r <= 0) { violate("C03,C04", "lost-descriptor", "writing to the session's descriptor fails although no fault was injected"); unknown = true; break; }
        done += r;
      }
      ev("session %d wrote %zu", id, c.size());
    }
    sync_data();
  }
  void do_commit() {
    Target *t = target >= 0 ? &targets[target] : nullptr;
    bool was = open;
    fs::View before; if (t) before = fs::live(t->path);
    if (was) { t->allowed.push_back(Version{true, data, mode, id, false}); }
    size_t vi = was ? t->allowed.size() - 1 : 0;
    uint64_t s0 = fs::seq; size_t h0 = fs::history.size();
    if (!was) { sess_seq = fs::seq + 1; sess_faults = 0; }
    fs::take_op_faults(tid());
    ev("commit (session %d, %s)", id, was ? "open" : "not open");
    bool r = false, threw = false, arm = choose(8) == 7;
    if (arm) { uint32_t k = 1 + choose(3); arm_alloc_fail(k, choose(2)); }
    try { LIB("AtomicFile::commit"); r = f->commit(); }
    catch (std::bad_alloc &) { threw = true; }
    if (arm && !disarm_alloc_fail() && threw) violate("C02,C03", "wrong-exception", "commit threw bad_alloc although no allocation failed");
    note();
    ev("commit -> %d%s", r, threw ? " (threw)" : "");
    open = false;
    if (threw) {                                            // like a commit that returned false, or as if it had not been called
      for (size_t k = h0; was && k < fs::history.size(); k++) if (fs::history[k].tid == tid() && fs::history[k].path == t->path) violate("C02,C04", "commit-lied", "commit of session %d threw but the target was replaced", id);
      if (was) t->allowed[vi].off = true;
      { LIB("AtomicFile::is_open"); open = f->is_open(); }
      if (open && !was) violate("C03", "wrong-state", "commit threw but left the object open");
      check_state("a commit that threw"); if (!open) check_clean("a commit that threw");
      return;
    }
    check_state("commit");
    if (!was) {
      if (r) violate("C02,C03", "commit-lied", "commit without an open session returned true");
      for (size_t k = h0; k < fs::history.size(); k++)
        if (fs::history[k].tid == tid() && fs::history[k].lib) violate("C03,C04", "extra-commit", "commit on an object that is not open changed the name %s", fs::history[k].path.c_str());
      check_clean("commit without an open session");
      return;
    }
    int inst = 0; const fs::Hist *hh = nullptr;
    for (size_t k = h0; k < fs::history.size(); k++) {
      auto &h = fs::history[k];
      if (h.tid == tid() && h.path == t->path) { inst++; hh = &h; }
    }
    if (r) {
      if (!inst) violate("C02,C04", "commit-lied", "commit of session %d returned true but the target was never replaced", id);
      else {
        if (hh->data != data || !hh->after) violate("C02,C04", "commit-content", "commit of session %d returned true but installed %s instead of %s", id, shortq(hh->data).c_str(), shortq(data).c_str());
        if (mode >= 0 && hh->after && (hh->after->mode & 07777) != (mode_t)mode) violate("C02", "commit-mode", "commit of session %d returned true but the mode is %03o instead of %03lo", id, hh->after->mode & 07777, mode);
        if (!hh->synced) violate("C02", "not-synced", "commit of session %d switched the name before the bytes were on storage", id);
        if (mode >= 0 && hh->dmode != (mode_t)mode) violate("C02", "not-synced", "commit of session %d switched the name before the mode was on storage", id);
        if (inst != 1) violate("C04", "installed-twice", "commit of session %d changed the target %d times", id, inst);
      }
      uint32_t m = last.mask & (1u << fs::K_FCHMOD | 1u << fs::K_FSYNC | 1u << fs::K_CLOSE | 1u << fs::K_RENAME);
      if (m && !fs::cfg.eintr) violate("C02", "commit-lied", "commit of session %d returned true although a system call of its sequence failed", id);
    } else {
      t->allowed[vi].off = true;
      if (inst) violate("C02,C04", "commit-lied", "commit of session %d returned false but the target was replaced", id);
      if (!last.n) violate("C02,C04", "commit-failed", "commit of session %d returned false although no system call was made to fail", id);
    }
    // the target is what the last switch made it
    check_clean(r ? "commit" : "a failed commit");
    (void)s0;
  }
  void do_abort() {
    bool was = open;
    size_t h0 = fs::history.size();
    if (!was) { sess_seq = fs::seq + 1; sess_faults = 0; }
    fs::take_op_faults(tid());
    ev("abort (session %d, %s)", id, was ? "open" : "not open");
    bool r; bool arm = choose(8) == 7; if (arm) arm_alloc_fail(1, true);
    { LIB("AtomicFile::abort"); r = f->abort(); }
    if (arm) disarm_alloc_fail();
    note();
    open = false;
    ev("abort -> %d", r);
    if (r != was) violate("C02,C03", "abort-lied", "abort returned %d on a session that was %s", r, was ? "open" : "not open");
    for (size_t k = h0; k < fs::history.size(); k++) {
      auto &h = fs::history[k];
      if (h.tid != tid() || !h.lib) continue;
      for (auto &t : targets) if (h.path == t.path) violate("C02,C03", "abort-touched-target", "abort changed the target %s", h.path.c_str());
      if (!was) violate("C03,C04", "extra-abort", "abort on an object that is not open changed the name %s", h.path.c_str());
    }
    check_state("abort");
    check_clean("abort");
  }
  void do_destroy() {
    size_t h0 = fs::history.size();
    bool was = open;
    if (!was) { sess_seq = fs::seq + 1; sess_faults = 0; }
    fs::take_op_faults(tid());
    ev("destroy (session %d, %s)", id, open ? "open" : "not open");
    bool arm = choose(8) == 7; if (arm) arm_alloc_fail(1, true);
    { LIB("~AtomicFile"); f->~AtomicFile(); }
    if (arm) disarm_alloc_fail();
    ::operator delete((void *)f.release());
    note();
    open = false;
    for (size_t k = h0; k < fs::history.size(); k++) {
      auto &h = fs::history[k];
      if (h.tid != tid() || !h.lib) continue;
      for (auto &t : targets) if (h.path == t.path) violate("C02,C03", "destroy-touched-target", "destruction changed the target %s", h.path.c_str());
      if (!was) violate("C03,C04", "extra-destroy", "destruction of an object that is not open changed the name %s", h.path.c_str());
    }
    check_clean("destruction");
  }
  void body(int rounds) {
    for (int k = 0; k < rounds; k++) {
      yield_point();
      if (!open && f && choose(8) == 7) { if (choose(2)) do_abort(); else do_commit(); }
      if (!open && f && choose(4) == 3) do_destroy();
      if (!open || choose(3) == 2) { do_open(); }
      if (open) {
        int nw = choose(4);
        if (choose(12) && !nw) nw = 1;
        for (int w = 0; w < nw && !unknown; w++) { yield_point(); do_write(); }
      }
      yield_point();
      if (!f) continue;
      static const uint32_t w[] = {8, 2, 2, 1};
      switch (unknown ? 1 + choose(2) : choose_w(w, 4)) {
      case 0: do_commit(); break;
      case 1: do_abort(); break;
      case 2: do_destroy(); break;
      default: break; // reopened over it, or left to the next round
      }
      if (f && !open && choose(4) == 3) { yield_point(); if (choose(2)) do_commit(); else do_abort(); }
    }
    if (f) { if (open && choose(2)) do_abort(); do_destroy(); }
    LIB("String"); keep = bd::String();
  }
};

// A reader in another thread: plain system calls, in pieces.
static void reader(int rounds) {
  for (int k = 0; k < rounds; k++) {
    yield_point();
    Target &t = targets[choose(targets.size())];
    size_t h0 = fs::history.size();
    fs::View start = fs::live(t.path);
    int fd = ::open(t.path.c_str(), O_RDONLY);
    std::string got; char b[4096];
    if (fd >= 0) {
      struct stat st; ::fstat(fd, &st);
      for (;;) { ssize_t r = ::read(fd, b, choose(2) ? 64 : sizeof b); if (r <= 0) break; got.append(b, r); yield_point(); }
      ::close(fd);
      if (!data_allowed(t, got)) violate("C01,C04", "reader-torn", "a reader of %s got %s, which is no complete version", t.path.c_str(), shortq(got).c_str());
    }
    bool ok = fd >= 0 ? start.exists && start.data == got : !start.exists;
    for (size_t i = h0; i < fs::history.size(); i++) {
      auto &h = fs::history[i];
      if (h.path == t.path) { if (h.after ? fd >= 0 && h.data == got : fd < 0) ok = true; }
    }
    if (!ok) violate("C04", "reader-stale", "a reader of %s got %s, which the target did not hold at any instant of the read", t.path.c_str(), fd >= 0 ? shortq(got).c_str() : "nothing");
    count("reads");
  }
}

static void setup_files() {
  fs::mkdir_raw("/sim/d1"); fs::mkdir_raw("/sim/d1/sub"); fs::mkdir_raw("/sim/d2");
  static const std::string deep = "/sim/d1/" + std::string(200, 'D') + "/" + std::string(200, 'E') + "/" + std::string(240, 'n');
  static const char *const nm[] = {"/sim/d1/file", "conf", "/sim/d1/sub/a b%s%n", "./rel.txt", "/sim/d1/sub/../file2", "sub/deep", deep.c_str(), "/top", "x", "/sim/d1/dotted.tmp.XXXXXX"};
  fs::mkdir_raw(deep.substr(0, 208).c_str()); fs::mkdir_raw(deep.substr(0, 409).c_str());
  fs::mkdir_raw("/sim/cwd/sub");
  int nt = 1 + choose(3);
  if (selected("C04") && choose(2) == 0) nt = 1;
  int start = choose(10);
  for (int i = 0; i < nt; i++) {
    Target t; t.name = nm[(start + i) % 10]; t.path = fs::norm(t.name.c_str());
    if (choose(4)) {
      std::string old = "OLD" + std::to_string(i) + ":" + std::string(choose(60), 'o');
      static const mode_t ms[] = {0644, 0600, 0755};
      mode_t m = ms[choose(3)];
      fs::put_raw(t.path.c_str(), old, m);
      t.allowed.push_back(Version{true, old, (long)m, 0, false});
    } else t.allowed.push_back(Version{false, "", -1, 0, false});
    targets.push_back(t);
  }
  auto by = [&](std::string p) {
    for (auto &t : targets) if (t.path == p) return;
    if (fs::lookup(p)) return;
    std::string d = "bystander " + p; fs::put_raw(p.c_str(), d, 0640);
    bystanders.push_back(Bystander{p, d, 0640, fs::lookup(p)->id});
  };
  by("/sim/d2/other");
  for (auto &t : targets) {
    size_t k = t.path.rfind('/'); std::string d = t.path.substr(0, k + 1), b = t.path.substr(k + 1);
    if (choose(2)) { by(d + b + ".aaaaaa"); by(d + "." + b + ".aaaaab"); }
    if (choose(2)) { by(d + b + ".bak"); by(d + "." + b); by(d + b + ".tmp"); }
    if (choose(3) == 2) { by(d + b + ".XXXXXX"); by(d + "." + b + ".XXXXXX"); }
  }
}

// A session of another run of the same program: what it calls its temporaries are files of others here.
static void other_program() {
  int n = 1 + choose(2), t = choose(targets.size()), mode = choose(2);
  std::string got = other_process([&] {
    std::set<std::string> had; std::string out;
    for (auto &p : fs::ls()) had.insert(p);
    for (int i = 0; i < n; i++) { LIB("AtomicFile::open"); bd::AtomicFile *f = new bd::AtomicFile(); f->open(bd::String(targets[t].name.c_str()), mode ? 0644 : mode_t(-1)); }
    for (auto &p : fs::ls()) if (!had.count(p)) out += p + "\n";
    return out;
  });
  for (size_t i = 0, e; (e = got.find('\n', i)) != std::string::npos; i = e + 1) {
    std::string p = got.substr(i, e - i); bool known = false;
    for (auto &x : targets) if (x.path == p) known = true;
    if (known || fs::lookup(p)) continue;
    std::string d = "session of another process"; fs::put_raw(p.c_str(), d, 0600);
    bystanders.push_back(Bystander{p, d, 0600, fs::lookup(p)->id}); count("other-process-temporaries");
  }
}
static void run() {
  fs::reset();
  targets.clear(); bystanders.clear(); userfds.clear(); nsess = 0; probing = false;
  bool other = choose(8) == 7;
  if (other) { setup_files(); other_program(); }
  draw_sched();
  static const int bases[] = {3, 0, 100};
  fs::cfg.fd_base = bases[choose(3)];
  static const uint32_t sp[] = {0, 2, 4, 8};
  fs::cfg.tmp_space = sp[choose(4)];
  fs::cfg.fsync_flushes_meta = choose(3) == 0;
  uint32_t all = 0;
  for (int k = 0; k < fs::K_N; k++) if (k != fs::K_MAPFAULT) all |= 1u << k;
  fs::draw_faults(all);
  if (!other) setup_files();
  int nw = selected("C04") ? 2 + choose(2) : 1 + choose(3);
  int nr = selected("C01") || selected("C04") ? choose(2) : 0;
  bool crashes = selected("C01") || choose(6) == 0;
  int epochs = crashes ? 1 + choose(3) : 1;
  fs::step_hook = on_step;
  static const uint32_t cs[] = {2, 0, 4};
  crash_sample = cs[choose(3)];
  if (nw > 1) nontrivial();
  for (int e = 0; e < epochs; e++) {
    // descriptors of the application itself
    userfds.clear();
    if (choose(2)) {
      int n = 1 + choose(3);
      for (int i = 0; i < n; i++) { int fd = ::open("/sim/d2/other", O_RDONLY); if (fd >= 0) userfds.push_back(UserFd{fd, fs::fd_inode(fd)}); }
      if (userfds.size() > 1 && choose(2)) { ::close(userfds[0].fd); userfds.erase(userfds.begin()); }
    }
    bool last = e == epochs - 1;
    fs::cfg.crash_after = 0;
    if (!last || (crashes && choose(2))) fs::cfg.crash_after = fs::seq + 1 + choose(60);
    std::vector<std::function<void()>> bodies;
    for (int i = 0; i < nw; i++) bodies.push_back([] { Actor *a = new Actor; a->body(1 + choose(selected("C03") ? 4 : 3)); });
    for (int i = 0; i < nr; i++) bodies.push_back([] { reader(1 + choose(4)); });
    bool c = run_threads(bodies);
    fs::cfg.crash_after = 0;
    if (!c) {
      // conservation: the target is the last version that was switched in
      for (auto &t : targets) {
        fs::View v = fs::live(t.path);
        bool ok = false;
        for (auto &a : t.allowed) if (match(a, v)) ok = true;
        if (!ok) violate("C02,C04", "final-content", "after all sessions ended %s holds %s", t.path.c_str(), v.exists ? shortq(v.data).c_str() : "nothing");
      }
      count("epochs-completed");
      if (last) break;
    }
    // power failure: only what is durable survives
    count("crash-restarts");
    probing = true;
    fs::crash_restart();
    probing = false;
    for (auto &t : targets) {
      fs::View v = fs::live(t.path);
      check_view(t, v, "after the restart", "crash");
      t.allowed.clear();
      t.allowed.push_back(Version{v.exists, v.data, v.exists ? (long)v.mode : -1, 0, false});
    }
    for (auto &p : fs::ls()) { // left-over temporaries of the crashed process are now just files
      fs::InodeP i = fs::lookup(p);
      i->lib = false;
      bool known = false;
      for (auto &t : targets) if (t.path == p) known = true;
      for (auto &b : bystanders) if (b.path == p) known = true;
      if (!known) bystanders.push_back(Bystander{p, i->data, (mode_t)(i->mode & 07777), i->id});
    }
  }
  finish_run();
}
static void warm() {}
namespace sim { Harness harness{"atomicfile", run, warm, "C01,C02,C03,C04"}; }
