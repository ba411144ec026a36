// Stream::writeFile / Stream::loadFile under simulated file system and allocation faults (C05, C06).
#include "../sim/core.h"
#include "../sim/fs.h"
#include "Stream.h"
#include <cstring>
#include <fcntl.h>
#include <memory>
#include <sys/stat.h>
#include <unistd.h>

using namespace sim;
namespace fs = simfs;

static int bigs;                                          // large contents in this run
static std::string blob(const char *tag) {
  static const uint32_t sizes[] = {20, 0, 1, 100, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8192, 12289, 20000, 65535, 65536, 65537, 131073};
  uint32_t n = sizes[choose(40) == 39 ? 17 + choose(4) : choose(17)];
  if (n > 60000) { if (bigs++ > 1) n = 20000; }
  if (n > 1 && choose(3) == 2) n = 1 + choose(n);
  std::string s;
  bool bin = choose(3) == 2;
  uint32_t k = rng_free(1000);
  while (s.size() < n) { s += bin ? char(rng_free(256)) : char("abcdefghijklmnop\nqrst\0uvw"[(k + s.size() * 7) % 25]); }
  for (size_t i = 0; tag[i] && i < s.size(); i++) s[i] = tag[i];
  return s;
}
struct Boom {};
// Observes how the data is delivered.
struct Derived : bd::Stream {
  int calls = 0; bool flag_missing = false; int throw_at = 0; bool custom = false; size_t seen = 0;
  void hit(const bd::String &s) {
    calls++; seen += s.length();
    if (!loading) flag_missing = true;
    if (throw_at && calls == throw_at) throw Boom();
  }
  void puts(const bd::String &s) override { hit(s); bd::Stream::puts(s); }
  void puts(bd::String &&s) override { hit(s); bd::Stream::puts(std::move(s)); }
  bool is_loading() const { return loading; }
};
struct Plain : bd::Stream { bool is_loading() const { return loading; } };

static std::string text(const bd::Stream &s) {
  LIB("Stream::operator String");
  bd::String t = s;
  std::string r; { Unlib u; r.assign(t.cbegin() ? t.cbegin() : "", t.length()); }
  return r;
}
static size_t tell(const bd::Stream &s) { LIB("Stream::tell"); return s.tell(); }
static void fill(bd::Stream &s, const std::string &c) {
  size_t done = 0;
  while (done < c.size()) {
    size_t n = choose(3) ? c.size() - done : 1 + choose(c.size() - done);
    LIB("Stream::puts");
    if (choose(2)) { bd::String t(c.data() + done, n); s.puts(t); } else s << bd::String(c.data() + done, n);
    done += n;
  }
}
struct By { std::string path, data; int ino; };
static std::vector<By> bys;
static void check_bys(const char *prop, const char *op) {
  for (auto &b : bys) { fs::View v = fs::live(b.path); if (!v.exists || v.data != b.data || v.ino != b.ino) violate(prop, "bystander", "after %s the unrelated file %s was changed", op, b.path.c_str()); }
}

// ---------------------------------------------------------------- C05
static void writer(const bd::Stream *proto, const std::string *content, int me) {
  int rounds = 1 + choose(3);
  for (int k = 0; k < rounds; k++) {
    yield_point();
    std::unique_ptr<bd::Stream> s;
    std::string model;
    if (proto && choose(2)) { LIB("Stream(const Stream&)"); s.reset(new bd::Stream(*proto)); model = *content; }
    else if (choose(4) == 3) {                              // made of a part of a longer String
      model = blob("part"); std::string l = "before" + model + "after";
      LIB("Stream(String)"); bd::String w(l.data(), l.size());
      if (choose(2)) s.reset(new bd::Stream(bd::String(w(6, model.size())))); else { bd::String part(w(6, model.size())); s.reset(new bd::Stream(part)); }
    }
    else { { LIB("Stream()"); s.reset(new bd::Stream()); } model = blob("new"); fill(*s, model); }
    if (choose(5) == 4) { LIB("Stream::reserve"); s->reserve(choose(30000)); }
    if (model.size() && choose(3) == 2) {
      size_t at = choose(model.size() + 1); LIB("Stream::seek"); s->seek(at, SEEK_SET);
      if (choose(2)) { s->truncate(); model.resize(at); }
    }
    size_t pos0 = tell(*s);
    std::string path = "/sim/d/out" + std::to_string(me) + (choose(2) ? "" : "b");
    static const char *const bad[] = {"/sim/d", "/sim/nodir/x", "/sim/d/in0/x"};
    bool nope = choose(12) == 11;                           // a name or descriptor that cannot be written
    if (choose(8) == 7) path = "out " + std::string(180, 'l') + std::to_string(me);
    const std::string np = fs::norm(path.c_str());
    fs::View before = fs::live(np);
    size_t h0 = fs::history.size();
    fs::take_op_faults(tid());
    int r = -1; bool named = choose(2) == 0, threw = false, arm = choose(6) == 5; int fd = -1; mode_t mode = 0600; bool giveMode = false;
    const char *op = named ? "writeFile(name)" : "writeFile(fd)";
    if (named) {
      static const mode_t ms[] = {0600, 0644, 0666, 0755, 0400, 0200, 0, 0070};
      giveMode = choose(2); mode = ms[choose(8)];
      if (nope) path = bad[choose(3)];
      std::string l = "x" + path + "tail"; bool part = choose(3) == 2;
      bd::String nm, w; { LIB("String"); if (part) { w = bd::String(l.data(), l.size()); nm = w(1, path.size()); } else nm = bd::String(path.c_str()); }
      fs::take_op_faults(tid());
      if (arm) arm_alloc_fail(1 + choose(2), true);
      try { LIB("Stream::writeFile(name)"); if (giveMode) r = s->writeFile(nm, mode); else r = s->writeFile(nm); }
      catch (std::bad_alloc &) { threw = true; }
      if (!giveMode) mode = 0600;
      bool fired = arm && disarm_alloc_fail();
      if (threw && !fired) violate("C05", "write-threw", "%s threw bad_alloc although no allocation failed", op);
      LIB("~String"); nm = bd::String(); w = bd::String();
    } else if (nope) {
      int how = choose(3); path = bys[0].path;
      fd = how == 0 ? -1 : ::open(how == 1 ? "/sim/d" : path.c_str(), O_RDONLY);
      fs::take_op_faults(tid());
      LIB("Stream::writeFile(fd)");
      r = s->writeFile(fd);
    } else {
      int fl = (choose(4) == 3 ? O_WRONLY : O_RDWR) | O_CREAT; if (choose(4) == 3) fl |= O_TRUNC; if (choose(6) == 5) fl |= O_APPEND;
      fd = ::open(path.c_str(), fl, 0640);
      if (choose(3) == 2) ::lseek(fd, choose(50), SEEK_SET);
      if (choose(4) == 3) { std::string pre(1 + choose(60), 'P'); if (::write(fd, pre.data(), pre.size()) < 0) {} }
      fs::take_op_faults(tid());
      if (arm) arm_alloc_fail(1, true);
      try { LIB("Stream::writeFile(fd)"); r = s->writeFile(fd); }
      catch (std::bad_alloc &) { threw = true; }
      bool fired = arm && disarm_alloc_fail();
      if (threw && !fired) violate("C05", "write-threw", "%s threw bad_alloc although no allocation failed", op);
    }
    fs::OpFaults f = fs::take_op_faults(tid());
    ev("%s of %zu bytes -> %d (%u faults)", op, model.size(), r, f.n);
    fs::View v = fs::live(np);
    if (nope) { if (r == 0 && !threw) violate("C05", "write-lied", "%s returned 0 for something that cannot be written", op); }
    else if (threw) count("write-exceptions");
    else if (r == 0) {
      if (!v.exists || v.data != model)
        violate("C05", "write-lied", "%s returned 0 but the file holds %zu bytes that are not the stream's %zu bytes (first difference at %zu)", op, v.data.size(), model.size(),
                (size_t)(std::mismatch(model.begin(), model.begin() + std::min(model.size(), v.data.size()), v.data.begin()).first - model.begin()));
      if (named && (f.mask >> fs::K_CLOSE & 1)) violate("C05", "write-lied", "%s returned 0 although closing the file reported that data could not be stored", op);
      if (named && !before.exists && v.mode != (mode & ~022u)) violate("C05", "write-mode", "%s created the file with mode %03o instead of %03o", op, v.mode, mode & ~022u);
    } else if (!f.n) violate("C05", "write-failed", "%s returned %d although no system call failed", op, r);
    if (text(*s) != model) violate("C05", "stream-changed", "%s changed the stream", op);
    if (tell(*s) != pos0) violate("C05", "stream-changed", "%s moved the stream position", op);
    if (!named) {
      if (fd >= 0 && !fs::fd_is_open(fd)) violate("C05", "caller-descriptor", "%s closed the caller's descriptor", op);
      if (fd >= 0) ::close(fd);
    }
    if (int n = fs::open_lib_fds(tid())) violate("C05", "descriptor-leak", "%s left %d descriptors open", op, n);
    if (fs::open_maps(tid())) violate("C05", "mapping-leak", "%s left a mapping behind", op);
    if (fs::lib_closed_foreign()) violate("C05", "caller-descriptor", "%s closed a descriptor it does not own", op);
    for (size_t i = h0; i < fs::history.size(); i++) { auto &h = fs::history[i]; if (h.tid == tid() && h.lib && h.path != np) violate("C05", "touched-other", "%s changed the name %s", op, h.path.c_str()); }
    check_bys("C05", op);
    LIB("~Stream"); s.reset();
  }
}
// ---------------------------------------------------------------- C06
// A file that another program appends to and truncates meanwhile: always a prefix of `mbase`.
static std::string mbase; static std::vector<size_t> mlens;
static const char *const moving = "/sim/d/moving";
static void mover() {
  int n = 1 + choose(5);
  for (int i = 0; i < n; i++) {
    yield_point();
    size_t cur = mlens.back(), to = choose(mbase.size() + 1);
    int fd = ::open(moving, O_RDWR | O_APPEND);
    mlens.push_back(to);
    if (to < cur) { if (::ftruncate(fd, to)) {} } else if (to > cur) { if (::write(fd, mbase.data() + cur, to - cur) < 0) {} }
    ev("another program made the file %zu bytes long", to);
    ::close(fd);
  }
}
static size_t mmark() { return mlens.size() > 1 ? mlens.size() - 2 : 0; }
template <class S> static void load_moving(S &s, Derived *d) {
  if (d) { d->calls = 0; d->seen = 0; d->throw_at = 0; }
  bool named = choose(2) == 0; int fd = named ? -1 : ::open(moving, O_RDONLY);
  bd::String nm; { LIB("String"); nm = bd::String(moving); nm.c_str(); }
  fs::take_op_faults(tid());
  size_t m0 = mmark(), cnt0 = mlens.size(); int r; const char *op = named ? "loadFile(name)" : "loadFile(fd)";
  { LIB("Stream::loadFile"); r = named ? s.loadFile(nm) : s.loadFile(fd); }
  fs::OpFaults f = fs::take_op_faults(tid());
  size_t lo = mlens[m0], hi = lo; for (size_t i = m0; i < mlens.size(); i++) { lo = std::min(lo, mlens[i]); hi = std::max(hi, mlens[i]); }
  if (mlens.size() != cnt0) count("file-changed-during-load");
  ev("%s of a changing file (%zu to %zu bytes) -> %d (%u faults)", op, lo, hi, r, f.n);
  if (r == 0) {
    std::string got = text(s);
    if (got.size() < lo || got.size() > hi || mbase.compare(0, got.size(), got)) violate("C06", "load-lied", "%s of a file that had between %zu and %zu bytes meanwhile returned 0 but gave %zu bytes or others than the file's", op, lo, hi, got.size());
    if (tell(s) != 0) violate("C06", "load-position", "%s returned 0 but the position is %zu", op, tell(s));
  } else if (!f.n && mlens.size() == cnt0 && cnt0 == 1) violate("C06", "load-failed", "%s returned %d although nothing failed", op, r);
  if (s.is_loading()) violate("C06", "loading-flag", "after %s the loading flag is still set", op);
  if (!named) { if (!fs::fd_is_open(fd)) violate("C06", "caller-descriptor", "%s closed the caller's descriptor", op); ::close(fd); }
  if (int n = fs::open_lib_fds(tid())) violate("C06", "descriptor-leak", "after %s %d descriptors are still open", op, n);
  if (fs::open_maps(tid())) violate("C06", "mapping-leak", "after %s a mapping is left", op);
}
template <class S> static void load_once(S &s, Derived *d, const std::vector<By> &files) {
  static const char *const odd[] = {"/sim/d/absent", "/sim/d", "/sim/nodir/x"};
  int which = choose(files.size() + 1);
  bool missing = which == (int)files.size();
  std::string path = missing ? odd[choose(3)] : files[which].path, want = missing ? "" : files[which].data;
  bool named = choose(2) == 0; int fd = -1;
  int badfd = missing && choose(3) == 2 ? 1 + choose(2) : 0;
  if (badfd) named = false; else if (missing && path != "/sim/d") named = true;
  const char *op = named ? "loadFile(name)" : "loadFile(fd)";
  if (badfd == 1) fd = -1;
  else if (badfd == 2) { fd = ::open("/sim/d/wronly", O_WRONLY | O_CREAT, 0600); if (::write(fd, "data", 4) < 0) {} }
  else if (!named) {
    fd = ::open(path.c_str(), choose(4) == 3 && !missing ? O_RDWR : O_RDONLY);
    if (want.size() && choose(2)) ::lseek(fd, choose(want.size() + 10), SEEK_SET);
  }
  if (d) { d->calls = 0; d->flag_missing = false; d->seen = 0; d->throw_at = choose(6) == 5 ? 1 + choose(2) : 0; }
  bd::String bpath; { LIB("String"); if (choose(3) == 2) { std::string l; { Unlib u; l = "x" + path + "tail"; } bd::String w(l.data(), l.size()); bpath = w(1, path.size()); } else { bpath = bd::String(path.c_str()); bpath.c_str(); } }
  fs::take_op_faults(tid());
  bool arm = choose(4) == 3;
  if (arm) arm_alloc_fail(1 + choose(6), choose(2));
  int r = -1; const char *thrown = nullptr;
  try { LIB("Stream::loadFile"); r = named ? s.loadFile(bpath) : s.loadFile(fd); }
  catch (std::bad_alloc &) { thrown = "bad_alloc"; }
  catch (Boom &) { thrown = "Boom"; }
  catch (std::exception &) { thrown = "exception"; }
  bool fired = disarm_alloc_fail();
  fs::OpFaults f = fs::take_op_faults(tid());
  ev("%s of %s (%zu bytes) -> %d %s (%u faults, alloc fault %d)", op, path.c_str(), want.size(), r, thrown ? thrown : "", f.n, fired);
  if (thrown) {
    if (strcmp(thrown, "Boom") && !fired) violate("C06", "load-threw", "%s threw %s although no allocation failed", op, thrown);
    count("load-exceptions");
  } else if (r == 0) {
    if (missing) violate("C06", "load-lied", "%s of %s returned 0", op, path.c_str());
    std::string got = text(s);
    if (got != want) violate("C06", "load-lied", "%s returned 0 but the stream holds %zu bytes that are not the file's %zu bytes", op, got.size(), want.size());
    if (tell(s) != 0) violate("C06", "load-position", "%s returned 0 but the position is %zu", op, tell(s));
    if (d && d->seen != want.size()) violate("C06", "load-bypassed-puts", "%s delivered %zu of %zu bytes through puts", op, d->seen, want.size());
  } else if (!missing && !f.n && !fired) violate("C06", "load-failed", "%s of a readable file of %zu bytes returned %d although nothing failed", op, want.size(), r);
  if (d && d->flag_missing) violate("C06", "loading-flag", "%s delivered data while the loading flag was not set", op);
  if (s.is_loading()) violate("C06", "loading-flag", "after %s (%s) the loading flag is still set", op, thrown ? thrown : r ? "failed" : "succeeded");
  if (!named && fd >= 0) { if (!fs::fd_is_open(fd)) violate("C06", "caller-descriptor", "%s closed the caller's descriptor", op); ::close(fd); }
  if (int n = fs::open_lib_fds(tid())) violate("C06", "descriptor-leak", "after %s (%s) %d descriptors are still open", op, thrown ? thrown : r ? "failed" : "succeeded", n);
  if (fs::open_maps(tid())) violate("C06", "mapping-leak", "after %s (%s) a mapping is left", op, thrown ? thrown : r ? "failed" : "succeeded");
  if (fs::lib_closed_foreign()) violate("C06", "caller-descriptor", "%s closed a descriptor it does not own", op);
  if (r == 0 && !thrown && choose(2)) { // usable: read it back in pieces
    std::string back;
    while (back.size() < want.size()) {
      bd::String p; std::string q; { LIB("Stream::read"); p = s.read(1 + choose(3000)); Unlib u; q.assign(p.cbegin() ? p.cbegin() : "", p.length()); }
      if (q.empty()) break;
      back += q;
    }
    if (back != want) violate("C06", "load-unusable", "reading the loaded stream back gives %zu of %zu bytes or different ones", back.size(), want.size());
  }
  if (choose(3) == 2) { // usable: start over
    if (d) d->throw_at = 0;
    { LIB("Stream::clear"); s.clear(); }
    if (d) d->calls = 0;
    { LIB("Stream::puts"); s.puts(bd::String("fresh")); }
    if (text(s) != "fresh") violate("C06", "load-unusable", "after %s the stream cannot be used any more", op);
  }
}
static void loader(const bd::Stream *proto, const std::string *content) {
  std::vector<By> files = bys;
  int rounds = 1 + choose(3);
  bool der = choose(2);
  std::unique_ptr<Derived> d; std::unique_ptr<Plain> p;
  { LIB("Stream()"); if (der) d.reset(new Derived()); else p.reset(new Plain()); }
  if (choose(2)) { LIB("Stream::puts"); if (der) { d->bd::Stream::puts(bd::String("previous content")); } else p->puts(bd::String("previous content")); }
  std::unique_ptr<bd::Stream> other; // shares storage with what is loaded over
  if (choose(2)) { LIB("Stream(const Stream&)"); if (der) other.reset(new bd::Stream(*d)); else other.reset(new bd::Stream(*p)); }
  std::string ocont = other ? text(*other) : "";
  for (int k = 0; k < rounds; k++) {
    yield_point();
    if (choose(2)) {                                        // a file of which the content, but often not the size, changes between loads
      By o = files.size() > bys.size() ? files.back() : By(); if (files.size() > bys.size()) files.pop_back();
      o.path = "/sim/d/own" + std::to_string(tid()); size_t n = o.data.size();
      if (!n || choose(3) == 2) o.data = blob("own"); else for (auto &c : o.data) c ^= 1 + (k & 1);
      int fd = ::open(o.path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (::write(fd, o.data.data(), o.data.size()) < 0) {} ::close(fd);
      ev("the file %s now holds other %zu bytes", o.path.c_str(), o.data.size());
      files.push_back(o);
    }
    if (mlens.size() && choose(2)) { if (der) load_moving(*d, d.get()); else load_moving(*p, nullptr); }
    else if (der) load_once(*d, d.get(), files); else load_once(*p, nullptr, files);
    if (other && text(*other) != ocont) violate("C06", "other-changed", "loading changed another stream that shared its storage");
    check_bys("C06", "loadFile");
  }
  { LIB("~Stream"); d.reset(); p.reset(); other.reset(); }
  (void)proto; (void)content;
}
static void run() {
  fs::reset();
  bys.clear(); bigs = 0; mlens.clear();
  draw_sched();
  static const int bases[] = {3, 0, 100};
  fs::cfg.fd_base = bases[choose(3)];
  uint32_t all = 0;
  for (int k = 0; k < fs::K_N; k++) all |= 1u << k;
  fs::draw_faults(all);
  fs::mkdir_raw("/sim/d");
  int nb = 1 + choose(3);
  for (int i = 0; i < nb; i++) {
    std::string p = "/sim/d/in" + std::to_string(i), c = blob("file");
    fs::put_raw(p.c_str(), c, 0644);
    bys.push_back(By{p, c, fs::lookup(p)->id});
  }
  std::vector<std::function<void()>> bodies;
  std::string content;
  std::unique_ptr<bd::Stream> proto;
  if (selected("C05")) {
    for (int i = 1; i <= 2; i++) if (choose(2)) fs::put_raw(("/sim/d/out" + std::to_string(i)).c_str(), blob("prev"), 0600);
    { LIB("Stream()"); proto.reset(new bd::Stream()); }
    content = blob("proto"); fill(*proto, content);
    if (choose(3) == 2) fs::cfg.quota = fs::used_bytes() + choose(2 * 4096 + 3 * content.size());
    int n = 1 + choose(2);
    for (int i = 0; i < n; i++) bodies.push_back([&, i] { writer(proto.get(), &content, i + 1); });
  } else {
    int n = 1 + choose(2);
    for (int i = 0; i < n; i++) bodies.push_back([&] { loader(nullptr, nullptr); });
    if (choose(3) == 2) {
      mbase = blob("moving"); mlens.push_back(choose(3) ? mbase.size() : choose(mbase.size() + 1));
      fs::put_raw(moving, mbase.substr(0, mlens[0]), 0644);
      bodies.push_back(mover);
    }
  }
  run_threads(bodies);
  { LIB("~Stream"); proto.reset(); }
  std::string det;
  if (size_t n = leak_check(&det)) violate("C05,C06", "memory-leak", "%zu blocks are still allocated after everything was destroyed: %s", n, det.c_str());
  finish_run();
}
static void warm() {}
namespace sim { Harness harness{"stream", run, warm, "C05,C06"}; }
