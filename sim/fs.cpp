#include "fs.h"
#include "internal.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

using namespace sim;
namespace simfs {
Config cfg;
uint64_t seq, faults;
std::vector<Hist> history;
void (*step_hook)(const char *);

struct Ofd { InodeP ino; off_t pos = 0; int flags = 0; std::string path; };
struct FdE { std::shared_ptr<Ofd> o; bool lib = false; int tid = 0; };
struct Change { std::string path; InodeP ino; };   // null ino: entry removed
typedef std::vector<Change> Tx;
struct Map { char *p; size_t n; InodeP ino; off_t off; bool shared, wr, lib; int tid; };

static std::map<std::string, InodeP> ns, dns;
static std::deque<Tx> mlog;
static std::map<int, FdE> fds;
static std::vector<Map> maps;
static std::map<FILE *, int> files;
static int next_ino;
static long used;
static mode_t umask_ = 022;
static bool foreign_close;
static OpFaults opf[MAXT]; static uint32_t closef[MAXT];
static uint32_t tmpctr;

static const char *const kn[K_N] = {"fault.open", "fault.mkstemp", "fault.read", "fault.write", "fault.fsync", "fault.close", "fault.fchmod",
  "fault.ftruncate", "fault.rename", "fault.unlink", "fault.lseek", "fault.mmap", "fault.munmap", "fault.stat", "fault.dup", "fault.fdopen", "fault.link", "fault.mapfault"};
const char *kind_name(int k) { return kn[k] + 6; }

std::string norm(const char *p) {
  std::string s = p[0] == '/' ? p : std::string("/sim/cwd/") + p, o;
  size_t i = 0;
  while (i < s.size()) {
    while (i < s.size() && s[i] == '/') i++;
    size_t j = i;
    while (j < s.size() && s[j] != '/') j++;
    std::string c = s.substr(i, j - i);
    i = j;
    if (c.empty() || c == ".") continue;
    if (c == "..") { size_t k = o.rfind('/'); o.resize(k == std::string::npos ? 0 : k); continue; }
    o += "/" + c;
  }
  return o.empty() ? "/" : o;
}
static std::string parent(const std::string &p) { size_t k = p.rfind('/'); return k == 0 ? "/" : p.substr(0, k); }
InodeP lookup(const std::string &path) { auto it = ns.find(path); return it == ns.end() ? nullptr : it->second; }

static void pull_maps(Inode *i) { // shared writable mappings are part of the cached content
  for (auto &m : maps)
    if (m.shared && m.wr && m.ino.get() == i && (size_t)m.off < i->data.size()) {
      size_t n = std::min(m.n, i->data.size() - m.off);
      if (memcmp(&i->data[m.off], m.p, n)) memcpy(&i->data[m.off], m.p, n);
    }
}
static bool bus_addr(void *a) { for (auto &m : maps) if ((char *)a >= m.p && (char *)a < m.p + ((m.n + 4095) & ~size_t(4095))) return true; return false; }
static uint64_t calls;
void reset() {
  calls = 0;
  g_is_bus = bus_addr;
  ns.clear(); dns.clear(); mlog.clear(); fds.clear(); maps.clear(); history.clear(); files.clear();
  next_ino = 1; seq = faults = 0; used = 0; foreign_close = false; tmpctr = 0;
  memset(opf, 0, sizeof opf); memset(closef, 0, sizeof closef);
  step_hook = nullptr;
  cfg = Config();
  mkdir_raw("/"); mkdir_raw("/sim"); mkdir_raw("/sim/cwd");
}
void mkdir_raw(const char *path) {
  auto i = std::make_shared<Inode>();
  i->id = next_ino++; i->dir = true; i->mode = i->dmode = S_IFDIR | 0755; i->nlink = 1;
  ns[norm(path)] = i; dns[norm(path)] = i;
}
void put_raw(const char *path, const std::string &data, mode_t mode) {
  auto i = std::make_shared<Inode>();
  i->id = next_ino++; i->data = i->ddata = data; i->mode = i->dmode = mode; i->extent = data.size(); i->nlink = 1;
  used += data.size();
  ns[norm(path)] = i; dns[norm(path)] = i;
}
View live(const std::string &path) {
  View v; InodeP i = lookup(path);
  if (i && !i->dir) { pull_maps(i.get()); v.exists = true; v.data = i->data; v.mode = i->mode & 07777; v.ino = i->id; }
  return v;
}
static void torn(Inode *i, std::string &data, mode_t &mode) {
  pull_maps(i);
  const std::string &D = i->ddata, &C = i->data;
  if (D == C) data = C;
  else {
    switch (choose(4)) {
    case 0: data = C; break;
    case 1: data = D; break;
    case 2: { size_t m = choose(C.size() + 1); data = C.substr(0, m); if (D.size() > m) data += D.substr(m); break; }
    default: {
      data = C; 
      if (choose(2)) data.resize(std::max(D.size(), C.size() ? (size_t)choose(C.size() + 1) : 0));
      for (size_t a = 0; a < data.size(); a += 16)
        if (choose(2))
          for (size_t k = a; k < a + 16 && k < data.size(); k++) data[k] = k < D.size() ? D[k] : 0;
      break;
    }
    }
  }
  mode = i->mode;
  if (i->dmode != i->mode && choose(2)) mode = i->dmode;
}
View crash_view(const std::string &path) {
  InodeP i; { auto it = dns.find(path); if (it != dns.end()) i = it->second; }
  // which prefix of the metadata log survived: only entries about this path matter
  std::vector<InodeP> cand{i};
  for (auto &tx : mlog) for (auto &c : tx) if (c.path == path) cand.push_back(c.ino);
  i = cand[choose(cand.size())];
  View v;
  if (i && !i->dir) { v.exists = true; torn(i.get(), v.data, v.mode); v.mode &= 07777; v.ino = i->id; }
  return v;
}
void crash_restart() {
  size_t k = mlog.empty() ? 0 : choose(mlog.size() + 1);
  if (!mlog.empty()) k = mlog.size() - k;            // 0: everything survived
  for (size_t n = 0; n < k; n++) for (auto &c : mlog[n]) { if (c.ino) dns[c.path] = c.ino; else dns.erase(c.path); }
  mlog.clear();
  std::map<Inode *, bool> done;
  for (auto &e : dns) {
    Inode *i = e.second.get();
    if (i->dir || done[i]) continue;
    done[i] = true;
    std::string d; mode_t m; torn(i, d, m);
    i->data = i->ddata = d; i->mode = i->dmode = m; i->lost = false; i->extent = d.size();
  }
  ns = dns;
  fds.clear(); maps.clear(); files.clear();
  ev("restart with %zu of the metadata operations", k);
}
std::vector<std::string> ls() { std::vector<std::string> v; for (auto &e : ns) if (!e.second->dir) v.push_back(e.first); return v; }
std::map<std::string, int> names() { std::map<std::string, int> m; for (auto &e : ns) if (!e.second->dir) m[e.first] = e.second->id; return m; }
int open_lib_fds(int t) { int n = 0; for (auto &f : fds) if (f.second.lib && (t < 0 || f.second.tid == t)) n++; return n; }
int open_maps(int t) { int n = 0; for (auto &m : maps) if (m.lib && (t < 0 || m.tid == t)) n++; return n; }
long used_bytes() { return used; }
bool fd_is_open(int fd) { return fds.count(fd); }
std::string fd_data(int fd) { auto it = fds.find(fd); if (it == fds.end()) return ""; pull_maps(it->second.o->ino.get()); return it->second.o->ino->data; }
int fd_inode(int fd) { auto it = fds.find(fd); return it == fds.end() ? -1 : it->second.o->ino->id; }
bool lib_closed_foreign() { return foreign_close; }
OpFaults take_op_faults(int t) { OpFaults r = opf[t]; opf[t] = OpFaults{0, 0}; closef[t] = 0; return r; }
void draw_faults(uint32_t allowed) {
  static const uint32_t dens[] = {0, 12, 5, 30, 3};
  cfg.fault_den = dens[choose(5)];
  cfg.kinds = 0;
  if (!cfg.fault_den) return;
  if (choose(3) == 0) { // a single kind
    std::vector<int> ks; for (int k = 0; k < K_N; k++) if (allowed >> k & 1) ks.push_back(k);
    cfg.kinds = 1u << ks[choose(ks.size())];
  } else for (int k = 0; k < K_N; k++) if ((allowed >> k & 1) && choose(4)) cfg.kinds |= 1u << k;
  cfg.eintr = choose(2);
}
// returns an errno or 0
static int inject(Kind k, std::initializer_list<int> errs) {
  if (!cfg.fault_den || !(cfg.kinds >> k & 1)) return 0;
  if (!chance(1, cfg.fault_den)) return 0;
  int e = *(errs.begin() + choose(errs.size()));
  count(kn[k]); faults++; nontrivial();
  int t = cur ? cur->id : 0;
  opf[t].n++; opf[t].mask |= 1u << k;
  return e;
}
static void note_fault(Kind k) { count(kn[k]); faults++; nontrivial(); int t = cur ? cur->id : 0; opf[t].n++; opf[t].mask |= 1u << k; }

static bool in_sim() { return g_active && cur; }
static bool spath(const char *p) { return in_sim() && p && (cfg.strict || !strncmp(p, "/sim/", 5)); }
static bool sfd(int fd) { return in_sim() && (cfg.strict || fds.count(fd)); }


struct Sys { // prologue / epilogue of a simulated system call
  Rt rt; const char *n; bool lib;
  Sys(const char *name) : n(name), lib(rt.d > 0) {
    if (cur) cur->depth = rt.d;
    sys_point(name);
    if (cur) cur->depth = 0;
    seq++;
    if (++calls > 30000) { calls = 0; violate("*", "no-progress", "more than 30000 system calls in one run, last %s in %s", name, current_op()); finish_run(); }
    crash_here();
  }
  void crash_here() { if (cfg.crash_after && seq >= cfg.crash_after && cur->id) { cfg.crash_after = 0; count("fault.crash"); nontrivial(); crash_all(); } }
  ~Sys() {
    int e = errno;
    if (step_hook) step_hook(n);
    if (cfg.crash_after && seq + 1 == cfg.crash_after && chance(1, 2)) { seq++; crash_here(); }
    errno = e;
  }
  bool may_fault() { return lib || cfg.user_faults; }
  int fail(int e, const char *what) { ev("sys %s -> errno %d%s%s", n, e, *what ? " " : "", what); sig(e * 31 + n[0]); errno = e; return -1; }
};
static int newfd(std::shared_ptr<Ofd> o, bool lib) {
  int fd = cfg.fd_base;
  while (fds.count(fd)) fd++;
  FdE e; e.o = o; e.lib = lib; e.tid = cur->id;
  fds[fd] = e;
  return fd;
}
static void meta(Tx tx, bool lib) {
  for (auto &c : tx) {
    Hist h; h.seq = seq; h.path = c.path; h.before = lookup(c.path); h.after = c.ino; h.tid = cur->id; h.lib = lib;
    h.synced = true; h.mode = h.dmode = 0;
    if (c.ino) { pull_maps(c.ino.get()); h.synced = c.ino->ddata == c.ino->data; h.data = c.ino->data; h.mode = c.ino->mode & 07777; h.dmode = c.ino->dmode & 07777; }
    history.push_back(h);
    if (c.ino) ns[c.path] = c.ino; else ns.erase(c.path);
  }
  mlog.push_back(tx);
}
static void flush_meta() {
  for (auto &tx : mlog) for (auto &c : tx) { if (c.ino) dns[c.path] = c.ino; else dns.erase(c.path); }
  mlog.clear();
}
static std::shared_ptr<Ofd> ofd(int fd) { auto it = fds.find(fd); return it == fds.end() ? nullptr : it->second.o; }

static int do_open(const char *path, int flags, mode_t mode) {
  Sys s("open");
  check_range(path, strlen(path) + 1, false);
  std::string p = norm(path);
  if (s.may_fault()) {
    int e = (flags & O_CREAT) ? inject(K_OPEN, {EACCES, ENOSPC, EMFILE, EIO, EROFS, ENFILE, EDQUOT, ENOMEM, EPERM, ETXTBSY, ELOOP, EINTR}) : inject(K_OPEN, {EACCES, EMFILE, EIO, ENFILE, EPERM, ENOMEM, ELOOP, EINTR});
    if (e) return s.fail(e, "(injected)");
  }
  InodeP i = lookup(p);
  if (!i) {
    if (!(flags & O_CREAT)) return s.fail(ENOENT, path);
    InodeP d = lookup(parent(p));
    if (!d || !d->dir) return s.fail(ENOENT, path);
    i = std::make_shared<Inode>();
    i->id = next_ino++; i->mode = mode & ~umask_ & 07777; i->dmode = i->mode; i->lib = s.lib; i->ctid = cur->id; i->nlink = 1;
    meta({{p, i}}, s.lib);
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) return s.fail(EEXIST, path);
    if (i->dir && (flags & O_ACCMODE) != O_RDONLY) return s.fail(EISDIR, path);
    if (!i->dir && (flags & O_DIRECTORY)) return s.fail(ENOTDIR, path);
    if (!i->dir && (flags & O_TRUNC)) { used -= i->extent; i->extent = 0; i->data.clear(); }
  }
  auto o = std::make_shared<Ofd>();
  o->ino = i; o->flags = flags; o->path = p;
  int fd = newfd(o, s.lib);
  ev("sys open(%s, %#x) = %d", path, flags, fd); sig(11);
  return fd;
}
static int do_mkstemp(char *tmpl, int suf, int flags) {
  Sys s("mkstemp");
  size_t n = strlen(tmpl);
  check_range(tmpl, n + 1, true);
  if (n < (size_t)suf + 6 || strncmp(tmpl + n - suf - 6, "XXXXXX", 6)) return s.fail(EINVAL, tmpl);
  int e = s.may_fault() ? inject(K_MKSTEMP, {EACCES, ENOSPC, EMFILE, EROFS, EEXIST, EDQUOT, EIO, ENFILE, ENOMEM, EPERM, ELOOP, EINTR}) : 0;
  if (e) return s.fail(e, "(injected)");
  static const char cs[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
  for (int tries = 0; tries < 200; tries++) {
    uint32_t v = cfg.tmp_space ? (tries < 6 ? choose(cfg.tmp_space) : tries - 6) : tmpctr++;
    char x[7];
    for (int k = 5; k >= 0; k--) { x[k] = cs[v % 62]; v /= 62; }
    memcpy(tmpl + n - suf - 6, x, 6);
    std::string p = norm(tmpl);
    InodeP d = lookup(parent(p));
    if (!d || !d->dir) { memcpy(tmpl + n - suf - 6, "XXXXXX", 6); return s.fail(ENOENT, tmpl); }
    if (lookup(p)) continue;
    auto i = std::make_shared<Inode>();
    i->id = next_ino++; i->mode = i->dmode = 0600; i->lib = s.lib; i->ctid = cur->id; i->nlink = 1;
    meta({{p, i}}, s.lib);
    auto o = std::make_shared<Ofd>();
    o->ino = i; o->flags = O_RDWR | flags; o->path = p;
    int fd = newfd(o, s.lib);
    ev("sys mkstemp = %d (%s)", fd, tmpl); sig(12);
    return fd;
  }
  return s.fail(EEXIST, tmpl);
}
static int do_close(int fd) {
  Sys s("close");
  auto it = fds.find(fd);
  if (it == fds.end()) return s.fail(EBADF, "");
  if (s.lib && (!it->second.lib || it->second.tid != cur->id)) foreign_close = true;
  int e = s.may_fault() ? inject(K_CLOSE, {EIO, ENOSPC, EDQUOT, EINTR}) : 0;
  if (e == EINTR) { if (cfg.eintr) { opf[cur->id].mask = (opf[cur->id].mask & ~(1u << K_CLOSE)) | closef[cur->id] | 1u << 31; } else e = EIO; }   // interrupted, but closed all the same
  if (e && e != EINTR) closef[cur->id] = 1u << K_CLOSE;
  fds.erase(it);                       // the descriptor is gone either way
  if (e) return s.fail(e, "(injected)");
  ev("sys close(%d)", fd); sig(13);
  return 0;
}
static ssize_t do_write(int fd, const void *b, size_t n, off_t at, const char *nm) {
  Sys s(nm);
  auto o = ofd(fd);
  if (!o || (o->flags & O_ACCMODE) == O_RDONLY) return s.fail(EBADF, "");
  if (s.lib) { cur->depth = s.rt.d; check_range(b, n, false); cur->depth = 0; }
  if (o->ino->dir) return s.fail(EISDIR, "");
  pull_maps(o->ino.get());
  size_t want = n;
  if (n && s.may_fault()) {
    int e = inject(K_WRITE, {-1, ENOSPC, EIO, EINTR, -1, EDQUOT, EFBIG, -2, EAGAIN, EPERM, ENOMEM});
    if (e == EINTR && !cfg.eintr) e = EIO;
    if (e == -1) { want = n > 1 ? 1 + choose(n - 1) : n; if (want < n) ev("sys %s short %zu of %zu", nm, want, n); }
    else if (e == -2) { ev("sys %s took nothing of %zu", nm, n); count("fault.write-nothing"); return 0; }
    else if (e) return s.fail(e, "(injected)");
  }
  Inode *i = o->ino.get();
  off_t pos = (o->flags & O_APPEND) ? (off_t)i->data.size() : at >= 0 ? at : o->pos; // like Linux: O_APPEND wins over pwrite's offset
  if (cfg.quota >= 0) {
    size_t end = pos + want;
    long need = end > i->extent ? end - i->extent : 0;
    long room = cfg.quota - used;
    if (need > room) {
      long ok = (long)want - (need - std::max(0l, room));
      if (ok <= 0) { note_fault(K_WRITE); return s.fail(ENOSPC, "(disk full)"); }
      want = ok; note_fault(K_WRITE); count("fault.diskfull-short");
    }
  }
  if ((size_t)pos > i->data.size()) i->data.resize(pos, 0);
  if (pos + want > i->data.size()) i->data.resize(pos + want, 0);
  memcpy(&i->data[0] + pos, b, want);
  if (pos + want > i->extent) { used += pos + want - i->extent; i->extent = pos + want; }
  i->lost = false;
  for (auto &m : maps) if (m.ino.get() == i && m.shared) { // keep mappings coherent
    for (size_t k = 0; k < want; k++) { off_t q = pos + k - m.off; if (q >= 0 && (size_t)q < m.n && m.wr) m.p[q] = ((const char *)b)[k]; }
  }
  if (at < 0) o->pos = pos + want;
  ev("sys %s(%d, %zu)@%ld = %zu", nm, fd, n, (long)pos, want); sig(14 + want);
  return want;
}
static ssize_t do_read(int fd, void *b, size_t n, off_t at, const char *nm) {
  Sys s(nm);
  auto o = ofd(fd);
  if (!o || (o->flags & O_ACCMODE) == O_WRONLY) return s.fail(EBADF, "");
  if (s.lib) { cur->depth = s.rt.d; check_range(b, n, true); cur->depth = 0; }
  if (o->ino->dir) return s.fail(EISDIR, "");
  pull_maps(o->ino.get());
  off_t pos = at >= 0 ? at : o->pos;
  size_t have = (size_t)pos < o->ino->data.size() ? o->ino->data.size() - pos : 0;
  size_t want = std::min(n, have);
  if (s.may_fault()) {
    int e = inject(K_READ, {-1, EIO, EINTR, -1, EISDIR, ENOMEM, EAGAIN});
    if (e == EAGAIN && !cfg.strict) e = EIO;                  // libtcl takes it for a device that is not ready yet, which a file never is
    if (e == EINTR && !cfg.eintr) e = EIO;
    if (e == -1) { if (want > 1) want = 1 + choose(want - 1); }
    else if (e) return s.fail(e, "(injected)");
  }
  memcpy(b, o->ino->data.data() + pos, want);
  if (at < 0) o->pos = pos + want;
  ev("sys %s(%d, %zu)@%ld = %zu", nm, fd, n, (long)pos, want); sig(15 + want);
  return want;
}
static off_t do_lseek(int fd, off_t off, int wh) {
  Sys s("lseek");
  auto o = ofd(fd);
  if (!o) return s.fail(EBADF, "");
  int e = s.may_fault() ? inject(K_LSEEK, {EIO, ESPIPE, EINVAL, EOVERFLOW, ENXIO}) : 0;
  if (e) return s.fail(e, "(injected)");
  off_t np = wh == SEEK_SET ? off : wh == SEEK_CUR ? o->pos + off : wh == SEEK_END ? (off_t)o->ino->data.size() + off : -1;
  if (o->ino->dir && wh == SEEK_END) np = 0x7fffffffffffffffL; // what ext4 answers
  if (np < 0) return s.fail(EINVAL, "");
  o->pos = np;
  ev("sys lseek(%d) = %ld", fd, (long)np); sig(16);
  return np;
}
static int do_fsync(int fd, const char *nm, bool meta_too) {
  Sys s(nm);
  auto o = ofd(fd);
  if (!o) return s.fail(EBADF, "");
  Inode *i = o->ino.get();
  pull_maps(i);
  if (i->dir) { flush_meta(); ev("sys fsync(dir)"); return 0; }
  int e = s.may_fault() ? inject(K_FSYNC, {EIO, ENOSPC, EINTR, EDQUOT, EROFS, EINVAL, ENOSYS, EOPNOTSUPP}) : 0;
  if (e == EINTR && !cfg.eintr) e = EIO;
  if (e == EINTR) return s.fail(e, "(injected)");
  if (e) { // dirty pages are dropped: some reached the disk, the rest never will unless rewritten
    if (i->ddata != i->data) {
      std::string d; mode_t m; torn(i, d, m);
      i->ddata = d; i->lost = true;
    }
    return s.fail(e, "(injected)");
  }
  if (!i->lost) i->ddata = i->data;
  if (meta_too) i->dmode = i->mode;
  if (cfg.fsync_flushes_meta) flush_meta();
  ev("sys %s(%d)%s", nm, fd, i->lost ? " (earlier failure: data not durable)" : ""); sig(17);
  return 0;
}
static int do_chmod(InodeP i, mode_t mode, const char *nm, Sys &s) {
  int e = s.may_fault() ? inject(K_FCHMOD, {EPERM, EIO, EROFS, EOPNOTSUPP, EACCES, ENOSYS, EINVAL, EINTR, ENOMEM}) : 0;
  if (e) return s.fail(e, "(injected)");
  i->mode = (i->mode & S_IFMT) | (mode & 07777);
  ev("sys %s(%03o)", nm, mode); sig(18);
  return 0;
}
static int do_ftruncate(InodeP i, off_t len, Sys &s) {
  if (len < 0) return s.fail(EINVAL, "");
  int e = s.may_fault() ? inject(K_FTRUNCATE, {EIO, EFBIG, EINTR, EINVAL, EPERM, EACCES, ENOSPC, EROFS, ETXTBSY, EAGAIN}) : 0;
  if (e == EINTR && !cfg.eintr) e = EIO;
  if (e) return s.fail(e, "(injected)");
  if (len > (8 << 20)) return s.fail(EFBIG, "");
  pull_maps(i.get());
  i->data.resize(len, 0);
  if (i->extent > (size_t)len) { used -= i->extent - len; i->extent = len; }
  ev("sys ftruncate(%ld)", (long)len); sig(19);
  return 0;
}
// every directory below /sim is a file system of its own
static std::string device(const std::string &p) { size_t k = p.find('/', 5); return p.compare(0, 5, "/sim/") || k == std::string::npos ? "/" : p.substr(0, k); }
static int do_rename(const char *a, const char *b, unsigned fl = 0) {
  Sys s("rename");
  check_range(a, strlen(a) + 1, false); check_range(b, strlen(b) + 1, false);
  std::string p = norm(a), q = norm(b);
  int e = s.may_fault() ? inject(K_RENAME, {EACCES, EIO, ENOSPC, EXDEV, EPERM, EBUSY, EROFS, EDQUOT, EEXIST, ENOTEMPTY, EISDIR, ENOTDIR, ENOENT, EMLINK, ELOOP, ENAMETOOLONG, ENOMEM, EINTR, EINVAL, EAGAIN, ENOSYS}) : 0;
  if (e) return s.fail(e, "(injected)");
  InodeP i = lookup(p), d = lookup(parent(q)), old = lookup(q);
  if (!i || !d || !d->dir) return s.fail(ENOENT, a);
  if (fl & 1 /*RENAME_NOREPLACE*/ && old) return s.fail(EEXIST, b);
  if (old && old->dir) return s.fail(EISDIR, b);
  if (device(p) != device(q)) return s.fail(EXDEV, b);
  if (p != q && i != old) {
    pull_maps(i.get());
    if (old) old->nlink--;
    meta({{p, nullptr}, {q, i}}, s.lib);
  }
  ev("sys rename(%s, %s)", a, b); sig(20);
  return 0;
}
static int do_unlink(const char *a) {
  Sys s("unlink");
  std::string p = norm(a);
  int e = s.may_fault() ? inject(K_UNLINK, {EACCES, EIO, EROFS, EBUSY, EPERM, EISDIR, ENOMEM, EINTR}) : 0;
  if (e) return s.fail(e, "(injected)");
  InodeP i = lookup(p);
  if (!i) return s.fail(ENOENT, a);
  if (i->dir) return s.fail(EISDIR, a);
  i->nlink--;
  meta({{p, nullptr}}, s.lib);
  ev("sys unlink(%s)", a); sig(21);
  return 0;
}
static int do_link(const char *a, const char *b) {
  Sys s("link");
  std::string p = norm(a), q = norm(b);
  int e = s.may_fault() ? inject(K_LINK, {EACCES, EIO, EMLINK}) : 0;
  if (e) return s.fail(e, "(injected)");
  InodeP i = lookup(p), d = lookup(parent(q));
  if (!i || !d) return s.fail(ENOENT, a);
  if (lookup(q)) return s.fail(EEXIST, b);
  i->nlink++;
  meta({{q, i}}, s.lib);
  ev("sys link(%s, %s)", a, b);
  return 0;
}
static void fill(const Inode *i, struct stat *st) {
  memset(st, 0, sizeof *st);
  st->st_ino = i->id; st->st_dev = 77; st->st_nlink = std::max(1, i->nlink);
  st->st_mode = i->dir ? (S_IFDIR | (i->mode & 07777)) : (S_IFREG | (i->mode & 07777));
  st->st_size = i->data.size(); st->st_blksize = 4096; st->st_blocks = (i->extent + 511) / 512;
}
static int do_stat(InodeP i, struct stat *st, Sys &s) {
  int e = s.may_fault() ? inject(K_STAT, {EIO, ENOMEM, EOVERFLOW, EACCES, EINTR}) : 0;
  if (e) return s.fail(e, "(injected)");
  if (!i) return s.fail(ENOENT, "");
  pull_maps(i.get());
  fill(i.get(), st);
  ev("sys stat = %ld", (long)st->st_size);
  return 0;
}
static int do_dup(int fd, int min) {
  Sys s("dup");
  auto o = ofd(fd);
  if (!o) return s.fail(EBADF, "");
  int e = s.may_fault() ? inject(K_DUP, {EMFILE}) : 0;
  if (e) return s.fail(e, "(injected)");
  int n = std::max(cfg.fd_base, min);
  while (fds.count(n)) n++;
  FdE f; f.o = o; f.lib = s.lib; f.tid = cur->id; fds[n] = f;
  ev("sys dup(%d) = %d", fd, n);
  return n;
}
static void *do_mmap(size_t len, int prot, int flags, int fd, off_t off) {
  Sys s("mmap");
  auto bad = [&](int e) { s.fail(e, ""); return MAP_FAILED; };
  auto o = ofd(fd);
  if (!o) return bad(EBADF);
  if (len == 0) return bad(EINVAL);
  int acc = o->flags & O_ACCMODE;
  bool sharedwr = (flags & MAP_SHARED) && (prot & PROT_WRITE);
  if (acc == O_WRONLY || (sharedwr && acc != O_RDWR)) return bad(EACCES);
  int e = s.may_fault() ? inject(K_MMAP, {ENOMEM, EAGAIN, ENODEV}) : 0;
  if (e) { s.fail(e, "(injected)"); return MAP_FAILED; }
  size_t rl = (len + 4095) & ~size_t(4095);
  char *p = (char *)syscall(SYS_mmap, nullptr, rl, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  pull_maps(o->ino.get());
  const std::string &d = o->ino->data;
  if ((size_t)off < d.size()) memcpy(p, d.data() + off, std::min(len, d.size() - off));
  maps.push_back(Map{p, len, o->ino, off, (flags & MAP_SHARED) != 0, (prot & PROT_WRITE) != 0, s.lib, cur->id});
  if (sharedwr && cfg.quota >= 0) {
    long need = off + (long)std::min(len, d.size() - off) - (long)o->ino->extent;
    if (need > 0) {
      if (need > cfg.quota - used) { // no storage behind the pages: touching them is fatal (SIGBUS)
        syscall(SYS_mprotect, p, rl, PROT_NONE); count("fault.mapped-page-full"); note_fault(K_WRITE);
      } else { used += need; o->ino->extent += need; }
    }
  }
  if (!(prot & PROT_WRITE) && cfg.fault_den && (cfg.kinds >> K_MAPFAULT & 1) && chance(1, cfg.fault_den)) { // media error on page-in
    syscall(SYS_mprotect, p, rl, PROT_NONE); note_fault(K_MAPFAULT);
  } else if (!(prot & PROT_WRITE)) syscall(SYS_mprotect, p, rl, PROT_READ);
  ev("sys mmap(%d, %zu)", fd, len); sig(22);
  return p;
}
static int do_munmap(void *a, size_t len) {
  Sys s("munmap");
  for (size_t k = 0; k < maps.size(); k++)
    if (maps[k].p == a) {
      int e = s.may_fault() ? inject(K_MUNMAP, {EINVAL}) : 0;
      pull_maps(maps[k].ino.get());
      size_t rl = (maps[k].n + 4095) & ~size_t(4095);
      maps.erase(maps.begin() + k);
      if (e) return s.fail(e, "(injected)");
      syscall(SYS_munmap, a, rl);
      ev("sys munmap(%zu)", len);
      return 0;
    }
  return s.fail(EINVAL, "");
}

// stdio on simulated descriptors
static ssize_t ck_read(void *c, char *b, size_t n) { return do_read((int)(intptr_t)c, b, n, -1, "read"); }
static ssize_t ck_write(void *c, const char *b, size_t n) {
  size_t done = 0;
  while (done < n) { ssize_t r = do_write((int)(intptr_t)c, b + done, n - done, -1, "write"); if (r < 0) break; done += r; }
  return done;
}
static int ck_seek(void *c, off64_t *o, int wh) { off_t r = do_lseek((int)(intptr_t)c, *o, wh); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) {
  int fd = (int)(intptr_t)c;
  for (auto it = files.begin(); it != files.end(); ++it) if (it->second == fd) { files.erase(it); break; }
  return do_close(fd);
}
static FILE *mkfile(int fd, const char *mode) {
  Rt rt;
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE *f = fopencookie((void *)(intptr_t)fd, mode, io);
  if (f) files[f] = fd;
  return f;
}
} // namespace simfs

using namespace simfs;
static int ret(long r) { return (int)r; }
static long rsys(long r) { return r; } // raw syscall() already sets errno

extern "C" {
static int open_any(const char *p, int fl, mode_t m) {
  if (spath(p)) return do_open(p, fl, m);
  return rsys(syscall(SYS_openat, AT_FDCWD, p, fl, m));
}
#define GETMODE mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list va; va_start(va, fl); m = va_arg(va, int); va_end(va); }
int open(const char *p, int fl, ...) { GETMODE return open_any(p, fl, m); }
int open64(const char *p, int fl, ...) { GETMODE return open_any(p, fl | O_LARGEFILE, m); }
int __open_2(const char *p, int fl) { return open_any(p, fl, 0); }
int __open64_2(const char *p, int fl) { return open_any(p, fl, 0); }
int openat(int d, const char *p, int fl, ...) { GETMODE if ((d == AT_FDCWD || p[0] == '/') && spath(p)) return do_open(p, fl, m); return rsys(syscall(SYS_openat, d, p, fl, m)); }
int openat64(int d, const char *p, int fl, ...) { GETMODE if ((d == AT_FDCWD || p[0] == '/') && spath(p)) return do_open(p, fl, m); return rsys(syscall(SYS_openat, d, p, fl, m)); }
int creat(const char *p, mode_t m) { return open_any(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd) { if (sfd(fd)) return do_close(fd); return ret(syscall(SYS_close, fd)); }
ssize_t read(int fd, void *b, size_t n) { if (sfd(fd)) return do_read(fd, b, n, -1, "read"); return syscall(SYS_read, fd, b, n); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t) { return read(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { if (sfd(fd)) return do_write(fd, b, n, -1, "write"); return syscall(SYS_write, fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { if (sfd(fd)) return do_read(fd, b, n, o, "pread"); return syscall(SYS_pread64, fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return pread(fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { if (sfd(fd)) return do_write(fd, b, n, o, "pwrite"); return syscall(SYS_pwrite64, fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!sfd(fd)) return syscall(SYS_writev, fd, v, c);
  ssize_t tot = 0;
  for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, -1, "writev"); if (r < 0) return tot ? tot : -1; tot += r; if ((size_t)r < v[i].iov_len) break; }
  return tot;
}
ssize_t readv(int fd, const struct iovec *v, int c) {
  if (!sfd(fd)) return syscall(SYS_readv, fd, v, c);
  ssize_t tot = 0;
  for (int i = 0; i < c; i++) { ssize_t r = do_read(fd, v[i].iov_base, v[i].iov_len, -1, "readv"); if (r < 0) return tot ? tot : -1; tot += r; if ((size_t)r < v[i].iov_len) break; }
  return tot;
}
off_t lseek(int fd, off_t o, int w) { if (sfd(fd)) return do_lseek(fd, o, w); return syscall(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int fsync(int fd) { if (sfd(fd)) return do_fsync(fd, "fsync", true); return ret(syscall(SYS_fsync, fd)); }
int fdatasync(int fd) { if (sfd(fd)) return do_fsync(fd, "fdatasync", false); return ret(syscall(SYS_fdatasync, fd)); }
int syncfs(int fd) { if (sfd(fd)) return do_fsync(fd, "syncfs", true); return ret(syscall(SYS_syncfs, fd)); }
void sync(void) {}
int fchmod(int fd, mode_t m) {
  if (!sfd(fd)) return ret(syscall(SYS_fchmod, fd, m));
  Sys s("fchmod"); auto o = ofd(fd); if (!o) return s.fail(EBADF, ""); return do_chmod(o->ino, m, "fchmod", s);
}
static int chmod_path(const char *p, mode_t m) { Sys s("chmod"); InodeP i = lookup(norm(p)); if (!i) return s.fail(ENOENT, p); return do_chmod(i, m, "chmod", s); }
int chmod(const char *p, mode_t m) { if (spath(p)) return chmod_path(p, m); return ret(syscall(SYS_fchmodat, AT_FDCWD, p, m)); }
int fchmodat(int d, const char *p, mode_t m, int f) { if (spath(p)) return chmod_path(p, m); return ret(syscall(SYS_fchmodat, d, p, m)); (void)f; }
int fchown(int fd, uid_t u, gid_t g) { if (sfd(fd)) return fd_is_open(fd) ? 0 : (errno = EBADF, -1); return ret(syscall(SYS_fchown, fd, u, g)); }
int ftruncate(int fd, off_t l) {
  if (!sfd(fd)) return ret(syscall(SYS_ftruncate, fd, l));
  Sys s("ftruncate"); auto o = ofd(fd); if (!o) return s.fail(EBADF, "");
  if ((o->flags & O_ACCMODE) == O_RDONLY) return s.fail(EINVAL, "");
  return do_ftruncate(o->ino, l, s);
}
int ftruncate64(int fd, off64_t l) { return ftruncate(fd, l); }
int truncate(const char *p, off_t l) { if (!spath(p)) return ret(syscall(SYS_truncate, p, l)); Sys s("truncate"); InodeP i = lookup(norm(p)); if (!i) return s.fail(ENOENT, p); return do_ftruncate(i, l, s); }
static int falloc(int fd, off_t o, off_t l) { // returns an errno
  Sys s("fallocate"); auto f = ofd(fd); if (!f) return EBADF;
  int e = s.may_fault() ? inject(K_WRITE, {ENOSPC, EIO}) : 0;
  if (e) { ev("sys fallocate -> errno %d (injected)", e); return e; }
  Inode *i = f->ino.get(); pull_maps(i); long need = o + l - (long)i->extent;
  if (need > 0) { if (cfg.quota >= 0 && need > cfg.quota - used) { note_fault(K_WRITE); return ENOSPC; } used += need; i->extent = o + l; }
  if ((size_t)(o + l) > i->data.size()) i->data.resize(o + l, 0);
  return 0;
}
int posix_fallocate(int fd, off_t o, off_t l) { if (sfd(fd)) return falloc(fd, o, l); return EOPNOTSUPP; }
int posix_fallocate64(int fd, off64_t o, off64_t l) { return posix_fallocate(fd, o, l); }
int fallocate(int fd, int m, off_t o, off_t l) { if (sfd(fd)) { int e = falloc(fd, o, l); if (e) { errno = e; return -1; } return 0; } return ret(syscall(SYS_fallocate, fd, m, o, l)); }
int rename(const char *a, const char *b) { if (spath(a)) return do_rename(a, b); return ret(syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0)); }
int renameat(int d, const char *a, int e, const char *b) { if (spath(a)) return do_rename(a, b); return ret(syscall(SYS_renameat2, d, a, e, b, 0)); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) { if (spath(a)) return do_rename(a, b, f); return ret(syscall(SYS_renameat2, d, a, e, b, f)); }
int unlink(const char *a) { if (spath(a)) return do_unlink(a); return ret(syscall(SYS_unlinkat, AT_FDCWD, a, 0)); }
int unlinkat(int d, const char *a, int f) { if (spath(a)) return do_unlink(a); return ret(syscall(SYS_unlinkat, d, a, f)); }
int remove(const char *a) { if (spath(a)) return do_unlink(a); int r = syscall(SYS_unlinkat, AT_FDCWD, a, 0); if (r && errno == EISDIR) r = syscall(SYS_unlinkat, AT_FDCWD, a, AT_REMOVEDIR); return r; }
int link(const char *a, const char *b) { if (spath(a)) return do_link(a, b); return ret(syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0)); }
int linkat(int d, const char *a, int e, const char *b, int f) { if (spath(a)) return do_link(a, b); return ret(syscall(SYS_linkat, d, a, e, b, f)); }
int mkdir(const char *p, mode_t m) {
  if (!spath(p)) return ret(syscall(SYS_mkdirat, AT_FDCWD, p, m));
  Sys s("mkdir"); if (lookup(norm(p))) return s.fail(EEXIST, p); mkdir_raw(p); return 0;
}
int stat(const char *p, struct stat *st) { if (spath(p)) { Sys s("stat"); return do_stat(lookup(norm(p)), st, s); } return ret(syscall(SYS_newfstatat, AT_FDCWD, p, st, 0)); }
int lstat(const char *p, struct stat *st) { if (spath(p)) return stat(p, st); return ret(syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW)); }
int fstat(int fd, struct stat *st) { if (sfd(fd)) { Sys s("fstat"); auto o = ofd(fd); if (!o) return s.fail(EBADF, ""); return do_stat(o->ino, st, s); } return ret(syscall(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH)); }
int fstatat(int d, const char *p, struct stat *st, int f) { if (*p && spath(p)) return stat(p, st); return ret(syscall(SYS_newfstatat, d, p, st, f)); }
int stat64(const char *p, struct stat64 *st) { return stat(p, (struct stat *)st); }
int lstat64(const char *p, struct stat64 *st) { return lstat(p, (struct stat *)st); }
int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *)st); }
int fstatat64(int d, const char *p, struct stat64 *st, int f) { return fstatat(d, p, (struct stat *)st, f); }
int __xstat(int, const char *p, struct stat *st) { return stat(p, st); }
int __lxstat(int, const char *p, struct stat *st) { return lstat(p, st); }
int __fxstat(int, int fd, struct stat *st) { return fstat(fd, st); }
int __xstat64(int, const char *p, struct stat64 *st) { return stat64(p, st); }
int __lxstat64(int, const char *p, struct stat64 *st) { return lstat64(p, st); }
int __fxstat64(int, int fd, struct stat64 *st) { return fstat64(fd, st); }
int access(const char *p, int m) { if (spath(p)) { Sys s("access"); if (!lookup(norm(p))) return s.fail(ENOENT, p); return 0; } return ret(syscall(SYS_faccessat, AT_FDCWD, p, m)); }
int dup(int fd) { if (sfd(fd)) return do_dup(fd, 0); return ret(syscall(SYS_dup, fd)); }
int dup2(int a, int b) { if (sfd(a)) { if (a == b) return a; { Rt r; fds.erase(b); FdE f; f.o = ofd(a); f.lib = r.d > 0; f.tid = cur->id; if (!f.o) { errno = EBADF; return -1; } fds[b] = f; } return b; } return ret(syscall(SYS_dup2, a, b)); }
static int fcntl_any(int fd, int c, long a) {
  if (!sfd(fd)) return ret(syscall(SYS_fcntl, fd, c, a));
  if (c == F_DUPFD || c == F_DUPFD_CLOEXEC) return do_dup(fd, a);
  Rt rt; auto o = ofd(fd); if (!o) { errno = EBADF; return -1; }
  if (c == F_GETFL) return o->flags & ~(O_CREAT | O_TRUNC | O_EXCL);
  return 0;
}
int fcntl(int fd, int c, ...) { va_list va; va_start(va, c); long a = va_arg(va, long); va_end(va); return fcntl_any(fd, c, a); }
int fcntl64(int fd, int c, ...) { va_list va; va_start(va, c); long a = va_arg(va, long); va_end(va); return fcntl_any(fd, c, a); }
int flock(int fd, int op) { if (sfd(fd)) return 0; return ret(syscall(SYS_flock, fd, op)); }
int isatty(int fd) { if (sfd(fd)) { errno = ENOTTY; return 0; } char b[64]; return syscall(SYS_ioctl, fd, 0x5401, b) == 0; }
int mkstemp(char *t) { if (spath(t)) return do_mkstemp(t, 0, 0); errno = EACCES; return -1; }
int mkstemp64(char *t) { return mkstemp(t); }
int mkostemp(char *t, int f) { if (spath(t)) return do_mkstemp(t, 0, f); errno = EACCES; return -1; }
int mkostemp64(char *t, int f) { return mkostemp(t, f); }
int mkstemps(char *t, int n) { if (spath(t)) return do_mkstemp(t, n, 0); errno = EACCES; return -1; }
int mkostemps(char *t, int n, int f) { if (spath(t)) return do_mkstemp(t, n, f); errno = EACCES; return -1; }
mode_t umask(mode_t m) { if (in_sim()) { mode_t o = umask_; umask_ = m & 0777; return o; } return syscall(SYS_umask, m); }
void *mmap(void *a, size_t n, int p, int f, int fd, off_t o) {
  if (fd >= 0 && !(f & MAP_ANONYMOUS) && sfd(fd)) return do_mmap(n, p, f, fd, o);
  return (void *)syscall(SYS_mmap, a, n, p, f, fd, o);
}
void *mmap64(void *a, size_t n, int p, int f, int fd, off64_t o) { return mmap(a, n, p, f, fd, o); }
int munmap(void *a, size_t n) {
  if (in_sim()) for (auto &m : maps) if (m.p == a) return do_munmap(a, n);
  if (in_sim() && in_lib() && cfg.strict) { errno = EINVAL; return -1; }
  return ret(syscall(SYS_munmap, a, n));
}
int msync(void *a, size_t n, int f) {
  if (in_sim()) for (auto &m : maps) if (m.p == a) { Sys s("msync"); pull_maps(m.ino.get()); if (f & MS_SYNC) { int e = s.may_fault() ? inject(K_FSYNC, {EIO}) : 0; if (e) return s.fail(e, "(injected)"); m.ino->ddata = m.ino->data; } return 0; }
  return ret(syscall(SYS_msync, a, n, f));
}
FILE *fdopen(int fd, const char *mode) {
  if (!sfd(fd)) { static FILE *(*re)(int, const char *); if (!re) re = (FILE * (*)(int, const char *)) dlsym(RTLD_NEXT, "fdopen"); return re(fd, mode); }
  { Sys s("fdopen"); int e = s.may_fault() ? inject(K_FDOPEN, {ENOMEM}) : 0; if (!fd_is_open(fd)) e = EBADF; if (e) { s.fail(e, ""); return nullptr; } }
  return mkfile(fd, mode);
}
static FILE *fopen_any(const char *p, const char *mode, const char *sym) {
  if (!spath(p)) { FILE *(*re)(const char *, const char *) = (FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, sym); return re(p, mode); }
  bool plus = strchr(mode, '+');
  int fl = mode[0] == 'r' ? (plus ? O_RDWR : O_RDONLY) : mode[0] == 'w' ? (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC : (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  int fd = do_open(p, fl, 0666);
  if (fd < 0) return nullptr;
  return mkfile(fd, mode);
}
FILE *fopen(const char *p, const char *m) { return fopen_any(p, m, "fopen"); }
FILE *fopen64(const char *p, const char *m) { return fopen_any(p, m, "fopen64"); }
int fileno(FILE *f) {
  if (in_sim()) { Rt r; auto it = files.find(f); if (it != files.end()) return it->second; }
  static int (*re)(FILE *); if (!re) re = (int (*)(FILE *))dlsym(RTLD_NEXT, "fileno");
  return re(f);
}
// other ambient nondeterminism
pid_t getpid(void) { if (in_sim()) return sim_pid(); return syscall(SYS_getpid); }
time_t time(time_t *t) { time_t v; if (in_sim()) v = 1700000000 + steps / 100000; else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; } if (t) *t = v; return v; }
int clock_gettime(clockid_t c, struct timespec *ts) { if (in_sim()) { ts->tv_sec = 1700000000 + steps / 100000; ts->tv_nsec = (steps % 100000) * 1000; return 0; } return ret(syscall(SYS_clock_gettime, c, ts)); }
int gettimeofday(struct timeval *tv, void *) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
int rand(void) { return rng_free(0x7fffffff); }
long random(void) { return rng_free(0x7fffffff); }
ssize_t getrandom(void *b, size_t n, unsigned f) { if (in_sim()) { for (size_t i = 0; i < n; i++) ((char *)b)[i] = rng_free(256); return n; } return syscall(SYS_getrandom, b, n, f); }
}
