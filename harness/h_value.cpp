// Values sharing storage: String, Array<T>, Stream, HashTable across threads (C07, C08, C09, C10).
#include "../sim/core.h"
#include "Array.h"
#include "HashTable.h"
#include "Stream.h"
#include "String.h"
#include <algorithm>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>

using namespace sim;
using bd::String;

static bool p07, p08, p09, p10;

// ------------------------------------------------------------ class elements that watch their own lifetime
static std::map<const void *, int> *live_el;
static uint64_t el_made;
struct Tracked {
  int v;
  void born(const char *how) {
    Unlib u;
    if (live_el->count(this)) violate("C08", "element-overwritten", "an element was %s on top of a live element that was never destroyed", how);
    (*live_el)[this] = v; el_made++;
  }
  void must_live(const Tracked *o, const char *how) const {
    Unlib u;
    if (!live_el->count(o)) violate("C08", "element-not-alive", "%s an element that does not exist (never constructed or already destroyed)", how);
  }
  Tracked() noexcept : v(0) { born("constructed"); }
  Tracked(int x) noexcept : v(x) { born("constructed"); }
  Tracked(const Tracked &o) noexcept : v(o.v) { must_live(&o, "copied from"); born("copy-constructed"); }
  Tracked(Tracked &&o) noexcept : v(o.v) { must_live(&o, "moved from"); o.v = -7; born("move-constructed"); }
  Tracked &operator=(const Tracked &o) noexcept { must_live(this, "assigned to"); must_live(&o, "assigned from"); v = o.v; return *this; }
  Tracked &operator=(Tracked &&o) noexcept { must_live(this, "assigned to"); must_live(&o, "move-assigned from"); int t = o.v; if (&o != this) o.v = -7; v = t; return *this; }
  ~Tracked() { Unlib u; if (!live_el->erase(this)) violate("C08", "element-destroyed-twice", "an element was destroyed that does not exist (never constructed or already destroyed)"); }
  bool operator==(const Tracked &o) const { return v == o.v; }
  bool operator!=(const Tracked &o) const { return v != o.v; }
};

// class elements that own memory from the start: constructing, copying and assigning one may run out of it, moving may not
struct Deep {
  int *p;
  Deep() : p(new int(0)) {}
  explicit Deep(int x) : p(new int(x)) {}
  Deep(const Deep &o) : p(new int(o.get())) {}
  Deep(Deep &&o) noexcept : p(o.p) { o.p = nullptr; }
  Deep &operator=(const Deep &o) { if (this != &o) { int *q = new int(o.get()); delete p; p = q; } return *this; }
  Deep &operator=(Deep &&o) noexcept { if (this != &o) { delete p; p = o.p; o.p = nullptr; } return *this; }
  ~Deep() { delete p; }
  int get() const { return p ? *p : -7; }
  bool operator==(const Deep &o) const { return get() == o.get(); }
  bool operator!=(const Deep &o) const { return get() != o.get(); }
};

// ------------------------------------------------------------ secrets (C09)
static std::string secret;      // per run; drawn from bytes no other content uses
static std::set<std::string> *grams;
static bool in_destroy() { const char *o = current_op(); return o && o[0] == '~'; }
static void free_hook(void *p, size_t n, void *) {
  if (!in_destroy() || n < 6) return;
  const char *b = (const char *)p;
  for (size_t i = 0; i + 6 <= n; i++)
    if ((unsigned char)b[i] >= 0xC0 && grams->count(std::string(b + i, 6))) {
      violate("C09", "not-wiped", "%s released a buffer of %zu bytes that still holds text once stored in a String, at byte %zu", current_op(), n, i);
      return;
    }
}

// ------------------------------------------------------------ content
static std::string word() {
  static const uint32_t sizes[] = {3, 0, 1, 7, 15, 16, 17, 40, 100, 1030};
  uint32_t n = sizes[choose(10)];
  if (n == 1030 && choose(4)) n = 64;
  else if (n == 1030 && choose(4) == 3) n = 4090 + choose(20);
  std::string s;
  if (p09) { for (uint32_t i = 0; i < n; i++) s += secret[(i + rng_free(1)) % secret.size()]; return s; }
  uint32_t k = rng_free(26);
  for (uint32_t i = 0; i < n; i++) s += "abcdefghij klm\tn,opq\r\nrst,uv"[(k + i * 5) % 28];
  if (n > 1 && choose(10) == 9) { s[n - 2] = '\r'; s[n - 1] = '\n'; }
  if (n > 2 && choose(8) == 7) s[n / 2] = '\0';
  return s;
}
static std::string cword() { std::string s = word(); for (auto &c : s) if (!c) c = '0'; return s; }
static size_t small_pos(size_t n) { return n ? (choose(3) == 0 ? n : choose(n + 1)) : 0; }   // 0..n
static size_t idx(size_t n) { return choose(n); }

// ------------------------------------------------------------ reading back
static std::string bytes(const String &s) {           // inside a LIB scope
  size_t n = s.length();
  if (!n) return std::string();
  std::string r;
  { Unlib u; r.resize(n); }
  const char *p = s.cbegin();
  if (!p) { violate("C07", "wrong-value", "a String of length %zu has no characters", n); finish_run(); }
  memcpy(&r[0], p, n);                                 // checked against the allocation and race shadow
  return r;
}
static std::string show(const std::string &s) {
  std::string o = "\"";
  for (size_t i = 0; i < s.size() && i < 60; i++) { char b[8]; if ((unsigned char)s[i] < 32 || (unsigned char)s[i] > 126) snprintf(b, 8, "\\x%02x", (unsigned char)s[i]); else snprintf(b, 8, "%c", s[i]); o += b; }
  return o + "\"(" + std::to_string(s.size()) + ")";
}
template <class V> static V slice_model(const V &m, long st, long l) {   // documented: negative start and length count from the end
  long n = m.size();
  if (l == -1) l = n - st;
  if (st >= n) return V();
  if (st < 0) st += n;
  if (st < 0) st = 0;
  if (st + l >= n) l = n - st; else if (l < 0) l = n - st + l;
  if (l < 0) l = 0;
  return V(m.begin() + st, m.begin() + st + l);
}
template <class E> struct El;
template <> struct El<int> { typedef int M; static int mk(int m) { return m; } static int rd(const int &e) { return e; } static int draw() { return 1 + choose(9); } static std::string str(int m) { return std::to_string(m); } };
template <> struct El<Tracked> { typedef int M; static Tracked mk(int m) { return Tracked(m); } static int rd(const Tracked &e) { e.must_live(&e, "read"); return e.v; } static int draw() { return 1 + choose(9); } static std::string str(int m) { return std::to_string(m); } };
template <> struct El<Deep> { typedef int M; static Deep mk(int m) { return Deep(m); } static int rd(const Deep &e) { return e.get(); } static int draw() { return 1 + choose(9); } static std::string str(int m) { return std::to_string(m); } };
template <> struct El<String> { typedef std::string M; static String mk(const std::string &m) { return String(m.data(), m.size()); } static std::string rd(const String &e) { return bytes(e); } static std::string draw() { return word(); } static std::string str(const std::string &m) { return show(m); } };

template <> struct El<std::string> {                   // elements whose own copying allocates
  typedef std::string M; static std::string mk(const std::string &m) { return std::string(m.data(), m.size()); }
  static std::string rd(const std::string &e) { size_t n = e.size(); std::string r; { Unlib u; r.resize(n); } if (n) memcpy(&r[0], e.data(), n); return r; }
  static std::string draw() { std::string s = word(); if (s.size() && s.size() < 20 && choose(2)) s += "-and-a-text-that-needs-memory"; return s; } static std::string str(const std::string &m) { return m; }
};
template <class E> static std::vector<typename El<E>::M> elems(const bd::Array<E> &a) {
  std::vector<typename El<E>::M> r; size_t n = a.length();
  const E *p = a.cbegin();
  if (n && !p) { violate("C07", "wrong-value", "an Array of length %zu has no elements", n); finish_run(); }
  for (size_t i = 0; i < n; i++) { auto m = El<E>::rd(p[i]); Unlib u; r.push_back(m); }
  return r;
}
template <class E> static std::string show(const std::vector<E> &v) { std::string o = "["; for (auto &x : v) { std::ostringstream q; q << x; o += q.str() + ","; if (o.size() > 120) { o += "..."; break; } } return o + "](" + std::to_string(v.size()) + ")"; }

// ------------------------------------------------------------ value boxes: the real object and its private model
enum Kind { KSTR, KASTR, KAINT, KATR, KSTREAM, KHASH, KASTD, KHSTD, KADEEP, NK };
struct Box {
  Kind k;
  virtual ~Box() {}
  virtual bool same(std::string *why) = 0;            // real == model?
  virtual void drop(const char *op) = 0;              // destroy the real object
  virtual std::string snap() = 0;                     // canonical text of the real value
  virtual std::string model() = 0;
  virtual Box *clone(const char *op) = 0;             // copy-construct
  virtual bool hash_ok() { return true; }             // equal values have equal hashes, whatever this one went through
};
template <class E> struct Hashable { enum { yes = 1 }; };
template <> struct Hashable<Tracked> { enum { yes = 0 }; };
template <> struct Hashable<Deep> { enum { yes = 0 }; };
template <class E, bool Y = Hashable<E>::yes> struct HashCk { template <class V> static bool ok(bd::Array<E> &a, const V &m) { LIB("Array::hash"); size_t h = a.hash(); bd::Array<E> f; for (auto &x : m) f << El<E>::mk(x); return f.hash() == h; } };
template <class E> struct HashCk<E, false> { template <class V> static bool ok(bd::Array<E> &, const V &) { return true; } };
struct TStr : Box {
  String *o; std::string m;
  TStr(String *p, std::string x) : o(p), m(x) { k = KSTR; }
  bool same(std::string *why) override { std::string b; size_t n; bool e; { LIB("read String"); b = bytes(*o); n = o->size(); e = o->isEmpty(); } if (b == m && n == m.size() && e == m.empty()) return true; *why = "is " + show(b) + " instead of " + show(m); return false; }
  void drop(const char *) override { LIB("~String"); delete o; o = nullptr; }
  std::string snap() override { LIB("read String"); return bytes(*o); }
  std::string model() override { return m; }
  Box *clone(const char *op) override { String *n; { LIB(op); n = new String(*o); } return new TStr(n, m); }
  bool hash_ok() override { LIB("String::hash"); size_t h = o->hash(); String f(m.data(), m.size()); return f.hash() == h; }
};
template <class E, Kind K> struct TArr : Box {
  typedef typename El<E>::M M; typedef std::vector<M> V;
  bd::Array<E> *o; V m;
  TArr(bd::Array<E> *p, V x) : o(p), m(x) { k = K; }
  bool same(std::string *why) override { V b; { LIB("read Array"); b = elems(*o); } if (b == m) return true; *why = "is " + show(b) + " instead of " + show(m); return false; }
  void drop(const char *) override { LIB("~Array"); delete o; o = nullptr; }
  std::string snap() override { V b; { LIB("read Array"); b = elems(*o); } std::ostringstream q; for (auto &x : b) q << x << '\1'; return q.str() + std::to_string(b.size()); }
  std::string model() override { std::ostringstream q; for (auto &x : m) q << x << '\1'; return q.str() + std::to_string(m.size()); }
  Box *clone(const char *op) override { bd::Array<E> *n; { LIB(op); n = new bd::Array<E>(*o); } return new TArr(n, m); }
  bool hash_ok() override { return HashCk<E>::ok(*o, m); }
};
typedef TArr<String, KASTR> TAS; typedef TArr<int, KAINT> TAI; typedef TArr<Tracked, KATR> TAT; typedef TArr<std::string, KASTD> TASTD; typedef TArr<Deep, KADEEP> TAD;
struct TStream : Box {
  bd::Stream *o; std::string m; size_t pos;
  TStream(bd::Stream *p, std::string x, size_t q) : o(p), m(x), pos(q) { k = KSTREAM; }
  bool same(std::string *why) override {
    std::string b; size_t t, n; { LIB("read Stream"); String s = *o; b = bytes(s); t = o->tell(); n = o->length(); }
    if (b == m && t == pos && n == m.size()) return true;
    *why = "is " + show(b) + " at " + std::to_string(t) + " instead of " + show(m) + " at " + std::to_string(pos); return false; }
  void drop(const char *) override { LIB("~Stream"); delete o; o = nullptr; }
  std::string snap() override { LIB("read Stream"); String s = *o; return bytes(s) + "\1" + std::to_string(o->tell()); }
  std::string model() override { return m + "\1" + std::to_string(pos); }
  Box *clone(const char *op) override { bd::Stream *n; { LIB(op); n = new bd::Stream(*o); } return new TStream(n, m, pos); }
};
template <class X, Kind K> struct THashT : Box {
  typedef bd::HashTable<String, X> H; typedef X Val; enum { HK = K };
  H *o; std::map<std::string, std::string> m;
  THashT(H *p, std::map<std::string, std::string> x) : o(p), m(x) { k = K; }
  std::map<std::string, std::string> get(bool *dup) {
    std::map<std::string, std::string> r; LIB("read HashTable");
    const H &c = *o;
    for (auto it = c.begin(); it != c.end(); ++it) { std::string a = bytes(it->first), b = El<X>::rd(it->second); Unlib u; if (!r.emplace(a, b).second) *dup = true; }
    if (c.size() != r.size()) *dup = true;
    return r;
  }
  static std::string s(const std::map<std::string, std::string> &x) { std::string o = "{"; for (auto &e : x) o += show(e.first) + ":" + show(e.second) + ","; return o + "}"; }
  bool same(std::string *why) override { bool d = false; auto b = get(&d); if (b == m && !d) return true; *why = "is " + s(b) + " instead of " + s(m); return false; }
  void drop(const char *) override { LIB("~HashTable"); delete o; o = nullptr; }
  std::string snap() override { bool d = false; return s(get(&d)); }
  std::string model() override { return s(m); }
  Box *clone(const char *op) override { H *n; { LIB(op); n = new H(*o); } return new THashT(n, m); }
};
typedef THashT<String, KHASH> THash; typedef THashT<std::string, KHSTD> THStd;
typedef std::unique_ptr<Box> BoxP;

static BoxP make(Kind k) {
  switch (k) {
  case KSTR: {
    std::string m = word(); String *p;
    int how = choose(5);
    if (how == 4 && m.size() < 2) how = 0;
    if (how == 1) m = m.c_str();
    LIB("String()");
    if (how == 0) p = new String(m.data(), m.size());
    else if (how == 1) p = new String(m.c_str());
    else if (how == 2) p = new String(m);
    else if (how == 3) { p = new String(m.size() + 20); p->append(String(m.data(), m.size())); }
    else p = new String(m.begin(), m.end());
    Unlib u; return BoxP(new TStr(p, m));
  }
#define MKARR(T, E) { std::vector<El<E>::M> m; int n = choose(6); if (n == 5 && choose(4) == 3) n = 20 + choose(30); for (int i = 0; i < n; i++) m.push_back(El<E>::draw()); bd::Array<E> *p; \
    { LIB("Array()"); p = new bd::Array<E>(); for (auto &x : m) { if (choose(2)) *p << El<E>::mk(x); else { E e = El<E>::mk(x); p->push_back(e); } } } return BoxP(new T(p, m)); }
  case KASTR: MKARR(TAS, String)
  case KAINT: MKARR(TAI, int)
  case KATR: MKARR(TAT, Tracked)
  case KSTREAM: { std::string m = word(); bd::Stream *p; size_t pos = 0; { LIB("Stream()"); if (choose(2)) p = new bd::Stream(String(m.data(), m.size())); else { p = new bd::Stream(choose(2) * 50); *p << String(m.data(), m.size()); pos = m.size(); } } return BoxP(new TStream(p, m, pos)); }
#define MKHASH(T) { std::map<std::string, std::string> m; T::H *p; { LIB("HashTable()"); p = new T::H(choose(2) ? 3 : 20); } int n = choose(4); if (n == 3 && choose(4) == 3) n = 10 + choose(30); \
    for (int i = 0; i < n; i++) { std::string a(1, 'a' + choose(4)), b = word(); if (i > 3) a = "k" + std::to_string(i); bool r; { LIB("HashTable::insert"); r = p->insert(String(a.data(), a.size()), El<T::Val>::mk(b)); } if (r) m[a] = b; } return BoxP(new T(p, m)); }
  case KASTD: MKARR(TASTD, std::string)
  case KADEEP: MKARR(TAD, Deep)
  case KHSTD: MKHASH(THStd)
  default: MKHASH(THash)
  }
}

template <class E> static void inc(bd::Array<E> &a) { ++a; }
static void inc(bd::Array<int> &a) { a.shift(); } // ++ does not compile for int elements

template <class E> static void drop_n(bd::Array<E> &a, bool d, int k) { if (d) a -= k; else a += k; }
static void drop_n(bd::Array<int> &a, bool d, int k) { while (k-- && a.length()) { if (d) a.pop(); else a.shift(); } }

template <class E> static void add_item(bd::Array<E> &a, const E &e) { a += e; }
static void add_item(bd::Array<int> &a, const int &e) { a << e; }

static String conv(const String &s, String *) { return s; }
static std::string conv(const String &s, std::string *) { return std::string(s.cbegin(), s.length()); }
struct Partly {};                                      // an operation copying several allocating elements stopped in between

// ------------------------------------------------------------ one thread's actor
struct Actor {
  std::vector<BoxP> v;
  const std::vector<BoxP> *common = nullptr;
  int nops = 0;

  void bad(Box &b, const char *op, const std::string &why) {
    static const char *const kn[] = {"String", "Array<String>", "Array<int>", "Array<class>", "Stream", "HashTable", "Array<std::string>", "HashTable<String, std::string>", "Array<owning class>"};
    violate("C07", "wrong-value", "after %s the %s %s", op, kn[b.k], why.c_str());
    finish_run();                                     // someone else's property: this run has nothing more to say
  }
  void verify(Box &b, const char *op) { std::string why; if (!b.same(&why)) bad(b, op, why); if (p07 && choose(4) == 3 && !b.hash_ok()) bad(b, op, "has a stale hash"); }
  void verify_all(const char *op) { for (auto &b : v) verify(*b, op); }

  static bool several(const char *op) { return strstr(op, "range") || strstr(op, "(pos, len) =") || (strstr(op, "replace") && !strstr(op, "item")); }   // copies over or in one after the other
  // Runs a real operation, possibly with a failing allocation inside it (C10).
  // whole: the operation replaces *target as a whole, so old or empty is fine after a failure.
  template <class F> void act(const char *op, Box *target, bool whole, F f) {
    nops++;
    sig(std::hash<std::string>()(op) + tid());
    if (p10 && choose(2)) {
      std::vector<std::string> before;
      for (auto &b : v) before.push_back(b->snap());
      arm_alloc_fail(1 + (choose(3) ? choose(4) : choose(12)), choose(3) == 2);
      const char *thrown = nullptr; bool partly = false;
      try { LIB(op); f(); }
      catch (std::bad_alloc &) { thrown = "bad_alloc"; }
      catch (std::exception &e) { thrown = "another exception"; }
      bool fired = disarm_alloc_fail();
      if (!thrown && !fired) return;
      if (!thrown) return;                            // coped without the memory
      if (strcmp(thrown, "bad_alloc") || !fired) { violate("C10", "wrong-exception", "%s threw %s%s", op, thrown, fired ? " when an allocation failed" : " although no allocation failed"); finish_run(); }
      ev("%s threw bad_alloc", op); count("bad-allocs"); nontrivial();
      for (size_t i = 0; i < v.size(); i++) {
        std::string now = v[i]->snap();
        if (now == before[i]) continue;
        if (whole && v[i].get() == target) {
          BoxP e; std::string es;
          switch (target->k) { case KSTR: es = ""; break; case KSTREAM: es = std::string("\1") + "0"; break; case KHASH: case KHSTD: es = "{}"; break; default: es = "0"; }
          if (now == es) continue;
        }
        if (v[i].get() == target && (target->k == KASTD || target->k == KADEEP) && several(op)) { count("partly-copied"); partly = true; continue; }
        violate("C10", v[i].get() == target ? "damaged" : "other-damaged", "%s threw bad_alloc and left %s as %s, before it was %s", op, v[i].get() == target ? "its object" : "another value", show(now).c_str(), show(before[i]).c_str());
      }
      if (partly) throw Partly();
      try { LIB(op); f(); }                           // with memory again
      catch (std::exception &e) { violate("C10", "retry-failed", "%s threw again although memory was available", op); finish_run(); }
      if (target) { std::string after = target->snap(); (void)after; }
      retried = op;
      return;
    }
    try { LIB(op); f(); }
    catch (std::exception &e) { violate("C07,C10", "unexpected-exception", "%s threw %s", op, e.what()); finish_run(); }
  }
  const char *retried = nullptr;
  void after(Box &b, const char *op) {
    if (retried) { std::string why; if (!b.same(&why)) violate("C10", "retry-wrong", "%s, tried again after a failed allocation, gave a wrong value: the object %s", op, why.c_str()); retried = nullptr; }
    verify(b, op);
  }
  Box *pick(Kind k) { std::vector<Box *> c; for (auto &b : v) if (b->k == k) c.push_back(b.get()); return c.empty() ? nullptr : c[choose(c.size())]; }
  TStr &other_str() { Box *b = pick(KSTR); if (!b) { v.push_back(make(KSTR)); b = v.back().get(); } return *(TStr *)b; }

  void op_str(TStr &b) {
    String &s = *b.o; std::string &m = b.m;
    size_t n = m.size();
    const char *op = "?";
    switch (choose(65)) {
    case 0: { std::string w = word(); op = "String::append(String)"; act(op, &b, false, [&] { s.append(String(w.data(), w.size())); }); m += w; break; }
    case 1: { TStr &t = other_str(); std::string w = t.m; op = "String::operator+=(const String&)"; String &so = *t.o; act(op, &b, false, [&] { s += so; }); m += w; break; }
    case 2: { char c = 'A' + choose(26); op = "String::operator+=(char)"; act(op, &b, false, [&] { s += c; }); m += c; break; }
    case 3: { std::string w = cword(); op = "String::append(const char*)"; act(op, &b, false, [&] { s.append(w.c_str()); }); m += w; break; }
    case 4: { size_t p = small_pos(n); char c = 'A' + choose(26); op = "String::insert(pos, char)"; act(op, &b, false, [&] { s.insert(p, c); }); m.insert(p, 1, c); break; }
    case 5: { size_t p = small_pos(n); std::string w = cword(); op = "String::insert(pos, const char*)"; act(op, &b, false, [&] { s.insert(p, w.c_str()); }); m.insert(p, w); break; }
    case 6: { size_t p = small_pos(n); TStr &t = other_str(); if (&t == &b) return; std::string w = t.m; op = "String::insert(pos, String)"; String &so = *t.o; act(op, &b, false, [&] { s.insert(p, so); }); m.insert(p, w); break; }
    case 7: { if (!n) return; size_t p = idx(n); char c = 'A' + choose(26); op = "String[] = char"; act(op, &b, false, [&] { s[p] = c; }); m[p] = c; break; }
    case 8: { if (!n) return; size_t p = idx(n); char c = 'A' + choose(26); op = "String::replace(pos, char)"; act(op, &b, false, [&] { s.replace(p, c); }); m[p] = c; break; }
    case 9: { size_t p = small_pos(n); TStr &t = other_str(); std::string w = t.m; op = "String::replace(pos, String)"; String &so = *t.o; act(op, &b, false, [&] { s.replace(p, so); }); if (w.size()) { if (p + w.size() > n) m.resize(p + w.size()); m.replace(p, w.size(), w); } break; }
    case 10: { size_t p = small_pos(n); std::string w = cword(); op = "String::replace(pos, const char*)"; act(op, &b, false, [&] { s.replace(p, w.c_str()); }); if (p + w.size() > m.size()) m.resize(p + w.size()); m.replace(p, w.size(), w); break; }
    case 11: { if (n < 2) return; size_t p = idx(n), l = 1 + choose(5); std::string w = word(); op = "String(pos, len) = String"; act(op, &b, false, [&] { s(p, l) = String(w.data(), w.size()); }); w = w.substr(0, l); if (p + w.size() > m.size()) m.resize(p + w.size()); m.replace(p, w.size(), w); break; }
    case 12: { size_t l = choose(n + 1); op = "String::resize(shorter)"; act(op, &b, false, [&] { s.resize(l); }); m.resize(l); break; }
    case 13: { size_t l = choose(2 * n + 20); char c = 'A' + choose(26); op = "String::resize(n, char)"; act(op, &b, false, [&] { s.resize(l, c); }); m.resize(l, c); break; }
    case 14: { size_t l = choose(2 * n + 40); op = "String::reserve"; act(op, &b, false, [&] { s.reserve(l); }); break; }
    case 15: { op = "String::clear"; act(op, &b, false, [&] { s.clear(); }); m.clear(); break; }
    case 16: { size_t p = choose(n + 2), l = choose(3) ? choose(n + 2) : (size_t)-1; op = "String::operator()(pos, len)"; TStr &t = other_str(); std::string w = p >= n ? "" : m.substr(p, l); const String &c = s; String &to = *t.o; act(op, &t, true, [&] { to = c(p, l); }); t.m = w; after(t, op); break; }
    case 17: { size_t p = choose(n + 1); op = "String::substring"; String *q; { LIB("String::substring"); q = new String(s.substring(p)); } v.emplace_back(new TStr(q, m.substr(p))); nops++; break; }
    case 18: { TStr &t = other_str(); op = "String::operator=(const String&)"; String &so = *t.o; act(op, &b, true, [&] { s = so; }); m = t.m; break; }
    case 19: { TStr &t = other_str(); if (&t == &b) return; op = "String::operator=(String&&)"; String &so = *t.o; act(op, &b, true, [&] { s = std::move(so); }); m = t.m; t.m.clear(); after(t, op); break; }
    case 20: { std::string w = cword(); op = "String::operator=(const char*)"; act(op, &b, true, [&] { s = w.c_str(); }); m = w; break; }
    case 21: { std::string w = word(); op = "String::operator=(std::string)"; act(op, &b, true, [&] { s = w; }); m = w; break; }
    case 22: { size_t k = choose(n + 3); op = "String::operator+=(size_t)"; act(op, &b, false, [&] { s += size_t(k); }); m = k >= n ? "" : m.substr(k); break; }
    case 23: { size_t k = choose(n + 3); op = "String::operator-=(size_t)"; act(op, &b, false, [&] { s -= size_t(k); }); m = k >= n ? "" : m.substr(0, n - k); break; }
    case 24: { op = "String::trim"; act(op, &b, false, [&] { s.trim(); }); size_t i = 0, j = n; while (i < j && isspace((unsigned char)m[i])) i++; while (j > i && isspace((unsigned char)m[j - 1])) j--; m = m.substr(i, j - i); break; }
    case 25: { op = "String::chomp"; act(op, &b, false, [&] { s.chomp(); }); if (m.size() && m.back() == '\n') m.pop_back(); if (m.size() && m.back() == '\r') m.pop_back(); break; }
    case 26: { if (!n) return; op = "--String"; act(op, &b, false, [&] { --s; }); m.pop_back(); break; }
    case 27: { if (!n) return; op = "++String"; act(op, &b, false, [&] { ++s; }); m.erase(0, 1); break; }
    case 28: { // the terminated view equals the value
      op = "String::c_str"; std::string w; act(op, &b, false, [&] { const char *c = s.c_str(); size_t l = s.length(); { Unlib u; w.resize(l + 1); } memcpy(&w[0], c, l + 1); });
      if (w != std::string(m.c_str(), n + 1)) { bad(b, op, "has the terminated text " + show(w)); } break; }
    case 29: { op = "String::begin() write"; act(op, &b, false, [&] { for (auto it = s.begin(), e = s.end(); it != e; ++it) if (*it == 'a') *it = 'Z'; }); for (auto &c : m) if (c == 'a') c = 'Z'; break; }
    case 30: { op = "String + String"; TStr &t = other_str(); String *q = nullptr; String &so = *t.o; act(op, nullptr, false, [&] { q = new String(s + so); }); v.emplace_back(new TStr(q, m + t.m)); break; }
    case 31: { op = "String::split/join"; if (!n) return; std::string j; act(op, nullptr, false, [&] { String d(','); bd::Array<String> a = s.split(d); String r = a.join(d); Unlib u; { Lib l2("read String"); j = bytes(r); } });
      std::string w = m; if (w.size() && w.back() == ',') w.pop_back(); if (j != w) bad(b, op, "split and joined again gives " + show(j)); break; }
    case 32: { op = "String::sub"; String *q = nullptr; act(op, nullptr, false, [&] { q = new String(s.sub(String("a"), String("BB"))); }); std::string w; for (char c : m) if (c == 'a') w += "BB"; else w += c; v.emplace_back(new TStr(q, w)); break; }
    case 33: { op = "newsplit"; String *q = nullptr; if (m.find(',') == std::string::npos) return; act(op, nullptr, false, [&] { q = new String(newsplit(s, ',')); }); size_t p = m.find(','); v.emplace_back(new TStr(q, m.substr(0, p))); m = m.substr(p + 1); break; }
    case 34: { op = "String::find"; TStr &t = other_str(); if (t.m.empty()) return; size_t r; { LIB(op); r = s.find(*t.o); } nops++; if (r != m.find(t.m)) bad(b, op, "answered " + std::to_string((long)r) + " searching " + show(t.m) + " in " + show(m)); break; }
    case 35: { op = "String comparison"; TStr &t = other_str(); bool e, l; { LIB(op); e = s == *t.o; l = s < *t.o; } nops++; if (e != (m == t.m) || l != (m < t.m)) bad(b, op, "compares wrongly with " + show(t.m)); break; }
    case 36: { op = "String::hash"; TStr &t = other_str(); size_t h1, h2; { LIB(op); h1 = s.hash(); h2 = t.o->hash(); } nops++; if (m == t.m && h1 != h2) bad(b, op, "hashes differently from an equal String"); String f; size_t h3; { LIB(op); f = String(m.data(), m.size()); h3 = f.hash(); f = String(); } if (h1 != h3) bad(b, op, "has a stale hash"); break; }
    case 37: { op = "std::swap(String)"; TStr &t = other_str(); if (&t == &b) return; String &so = *t.o; act(op, &b, true, [&] { std::swap(s, so); }); std::swap(m, t.m); after(t, op); break; }
    case 64: { op = "swap(base class)"; TStr &t = other_str(); if (&t == &b) return; typedef bd::ReferenceCountedArray<char> Base; Base &x = s, &y = *t.o; act(op, &b, true, [&] { swap(x, y); }); std::swap(m, t.m); after(t, op); break; }
    case 38: { op = "String += itself"; if (n > 300) return; act(op, &b, false, [&] { s += s; }); m += std::string(m); break; }
    case 39: { op = "String::mdata write"; if (!n) return; size_t p = idx(n); act(op, &b, false, [&] { s.mdata()[p] = 'Q'; }); m[p] = 'Q'; break; }
    case 40: { op = "String::insert(pos, String&&, n)"; size_t p = small_pos(n), l = 1 + choose(6); std::string w = word(); act(op, &b, false, [&] { s.insert(p, String(w.data(), w.size()), l); }); m.insert(p, w.substr(0, l)); break; }
    case 41: { op = "String append own element"; if (!n) return; size_t p = idx(n); const String &c = s; char ch = m[p]; act(op, &b, false, [&] { s.append(c[p]); }); m += ch; break; }
    case 42: { op = "String::front/back"; if (!n) return; char f, k; const String &c = s; { LIB(op); f = c.front(); k = c.back(); } if (f != m[0] || k != m[n - 1]) bad(b, op, "has wrong first or last character"); break; }
    case 43: { op = "String * 3"; if (n > 200) return; String *q = nullptr; act(op, nullptr, false, [&] { q = new String(s * 3); }); v.emplace_back(new TStr(q, m + m + m)); break; }
    case 44: { op = "String postfix ++/--"; if (!n) return; String *q = nullptr; bool d = choose(2); act(op, nullptr, false, [&] { q = d ? new String(s--) : new String(s++); }); v.emplace_back(new TStr(q, m)); if (d) m.pop_back(); else m.erase(0, 1); break; }
    case 46: { op = "String::front() = / back() ="; if (!n) return; bool f = choose(2); act(op, &b, false, [&] { if (f) s.front() = 'F'; else s.back() = 'F'; }); m[f ? 0 : n - 1] = 'F'; break; }
    case 47: { op = "String::insert(pos, itself)"; if (n > 200) return; size_t p = choose(n + 1); std::string w = m; act(op, &b, false, [&] { s.insert(p, s); }); m.insert(p, w); break; }
    case 48: { op = "String::replace(pos, itself)"; if (n > 200) return; size_t p = choose(n + 1); std::string w = m; act(op, &b, false, [&] { s.replace(p, s); }); if (p + n > m.size()) m.resize(p + n); m.replace(p, n, w); break; }
    case 49: { op = "String::printf"; size_t l = choose(3) ? choose(200) : 4000 + choose(300); std::string w(l, 'p'); for (size_t i = 0; i < l; i += 7) w[i] = 'a' + i % 26; String *q = nullptr; act(op, nullptr, false, [&] { q = new String(String::printf("%s-%d", w.c_str(), 42)); }); v.emplace_back(new TStr(q, w + "-42")); after(*v.back(), op); break; }
    case 50: { op = "ostream << String"; if (p10) return; std::string w; { std::ostringstream os; { LIB(op); os << s; } w = os.str(); } if (w != m) bad(b, op, "prints as " + show(w)); break; }
    case 51: { op = "istream >> String"; if (p10) return; std::istringstream is("  tok1 rest"); { LIB(op); is >> s; } m = "tok1"; break; }
    case 52: { op = "getline(istream, String)"; if (p10) return; std::istringstream is("line one\nline two"); { LIB(op); getline(is, s); } m = "line one"; break; }
    case 53: { op = "String::copy/dup"; std::string w; act(op, nullptr, false, [&] { char *d = s.dup(); size_t l = s.length(); { Unlib u; w.resize(l + 1); } memcpy(&w[0], d, l + 1); delete[] d; }); if (w != std::string(m.c_str(), n + 1)) bad(b, op, "duplicates as " + show(w)); char buf[64]; size_t r; { LIB(op); r = s.copy(buf, 64); } if (std::string(buf, r) != m.substr(0, 64)) bad(b, op, "copies out wrongly"); break; }
    case 54: { op = "String reverse iteration"; std::string w; { LIB(op); const String &c = s; for (auto it = c.rbegin(); it != c.rend(); ++it) { char x = *it; Unlib u; w += x; } } if (w != std::string(m.rbegin(), m.rend())) bad(b, op, "reads backwards as " + show(w)); break; }
    case 55: { op = "String = (own slice)"; size_t p = choose(n + 1), l = choose(n + 1); const String &c = s; act(op, &b, true, [&] { s = c(p, l); }); m = p >= n ? "" : m.substr(p, l); break; }
    case 56: { op = "String(pos, len) = own slice"; if (n < 2) return; size_t p = idx(n), a = idx(n), l = 1 + choose(5); const String &c = s; std::string w = m.substr(a, l); act(op, &b, false, [&] { s(p, l) = c(a, l); }); if (p + w.size() > m.size()) m.resize(p + w.size()); m.replace(p, w.size(), w); break; }
    case 57: { op = "String::subst"; String *q = nullptr; act(op, nullptr, false, [&] { bd::HashTable<String, String> t(3); t.insert(String("b"), String("")); q = new String(s.subst(t)); }); std::string w; for (char c : m) if (c != 'b') w += c; v.emplace_back(new TStr(q, w)); break; }
    case 58: { op = "String::slice with negative bounds"; long st = (long)choose(2 * n + 3) - (long)n - 1, l = (long)choose(2 * n + 3) - (long)n - 1; std::string w = slice_model(m, st, l); const String &c = s; String *q = nullptr; act(op, nullptr, false, [&] { q = new String(c(st, l)); }); v.emplace_back(new TStr(q, w)); after(*v.back(), op); break; }
    case 59: { op = "String::replace(pos, String&&, n)"; TStr &t = other_str(); size_t p = small_pos(n), l = 1 + choose(6); std::string w = t.m.substr(0, l); const String &so = *t.o; act(op, &b, false, [&] { String x(so); s.replace(p, std::move(x), l); }); if (w.size()) { if (p + w.size() > m.size()) m.resize(p + w.size()); m.replace(p, w.size(), w); } after(t, op); break; }
    case 60: { op = "String::insert(pos, String, n)"; TStr &t = other_str(); size_t p = small_pos(n), l = 1 + choose(6); std::string w = t.m.substr(0, l); String &so = *t.o; act(op, &b, false, [&] { s.insert(p, so, l); }); m.insert(p, w); break; }
    case 61: { op = "hash, write, hash"; if (!n) return; size_t p = idx(n); char c = 'A' + choose(26); int how = choose(7); size_t h = 0;
      act(op, &b, false, [&] { (void)s.hash(); switch (how) { case 0: s[p] = c; break; case 1: s[p].mget() = c; break; case 2: s.mdata()[p] = c; break; case 3: s.begin()[p] = c; break; case 4: s.write(p, c); break; case 5: s.replace(p, c); break; default: *(s.rend() - 1 - p) = c; } h = s.hash(); });
      m[p] = c; size_t f; { LIB(op); String x(m.data(), m.size()); f = x.hash(); } if (h != f) bad(b, op, "has a stale hash"); break; }
    case 62: { op = "hash, change length, hash"; int how = choose(16); size_t h = 0; if (!n) return; std::string w = m; size_t k = idx(n); TStr &t = other_str(); const String &so = *t.o;
      if (how == 8 || how == 9 || how == 12) { act(op, &b, false, [&] { if (how == 8) s.insert(size_t(0), ' '); else if (how == 9) s += ' '; else s += '\n'; }); if (how == 8) w.insert(0, 1, ' '); else w += how == 9 ? ' ' : '\n'; m = w; n++; }
      act(op, &b, false, [&] { (void)s.hash(); switch (how) { case 0: --s; break; case 1: ++s; break; case 2: s.resize(n - 1); break; case 3: s += 'x'; break; case 4: s.slice(1); break; case 5: s.pop_back(); break; case 6: s.insert(size_t(0), 'x'); break; case 7: s.clear(); break; case 8: case 9: s.trim(); break; case 10: s += k; break; case 11: s -= k; break; case 12: s.chomp(); break; case 13: s = so; break; case 14: s.append(so); break; default: s.resize(n + k, 'q'); } h = s.hash(); });
      switch (how) { case 0: case 2: case 5: w.pop_back(); break; case 1: case 4: w.erase(0, 1); break; case 3: w += 'x'; break; case 6: w.insert(0, 1, 'x'); break; case 7: w.clear(); break; case 8: case 9: { size_t i = 0, j = w.size(); while (i < j && isspace((unsigned char)w[i])) i++; while (j > i && isspace((unsigned char)w[j - 1])) j--; w = w.substr(i, j - i); break; } case 10: w.erase(0, k); break; case 11: w.resize(n - k); break; case 12: if (w.size() && w.back() == '\n') w.pop_back(); if (w.size() && w.back() == '\r') w.pop_back(); break; case 13: w = t.m; break; case 14: w += t.m; break; default: w.resize(n + k, 'q'); }
      m = w; size_t f; { LIB(op); String x(m.data(), m.size()); f = x.hash(); } if (h != f) bad(b, op, "has a stale hash"); break; }
    case 63: { op = "String(String&&)"; TStr &t = other_str(); String *q = nullptr; String &so = *t.o; act(op, nullptr, false, [&] { q = new String(std::move(so)); }); std::string w = t.m; t.m.clear(); v.emplace_back(new TStr(q, w)); after(t, op); break; }
    case 45: { op = "String(std::string) round trip"; std::string w; act(op, nullptr, false, [&] { w = std::string(s); }); if (w != m) bad(b, op, "converts to " + show(w)); break; }
    }
    after(b, op);
  }
  // Asking for an element or a place that does not exist: refused with out_of_range, and nothing changes.
  template <class F> void refused(Box &b, const char *op, F f) {
    bool ok = false; const char *other = nullptr;
    try { LIB(op); f(); } catch (std::out_of_range &) { ok = true; } catch (std::exception &e) { other = "another exception"; }
    nops++;
    if (!ok) bad(b, op, other ? "threw another exception than out_of_range" : "was accepted outside its bounds");
  }
  static void put(std::string &m, size_t p, const std::string &w) { if (w.empty()) return; if (p + w.size() > m.size()) m.resize(p + w.size()); m.replace(p, w.size(), w); }
  template <class M> static void put(std::vector<M> &m, size_t p, const std::vector<M> &w) { for (size_t i = 0; i < w.size(); i++) if (p + i < m.size()) m[p + i] = w[i]; else m.push_back(w[i]); }

  void op_str_more(TStr &b) {
    String &s = *b.o; std::string &m = b.m; const String &c = s;
    size_t n = m.size();
    const char *op = "?";
    switch (choose(38)) {
    case 0: { op = "String[] = String[]"; if (!n) return; TStr &t = other_str(); if (t.m.empty()) return; size_t p = idx(n), q = idx(t.m.size()); char ch = t.m[q]; String &so = *t.o; act(op, &b, false, [&] { s[p] = so[q]; }); m[p] = ch; if (&t != &b) after(t, op); break; }
    case 1: { op = "String(pos, len) = String(pos, len)"; if (!n) return; TStr &t = other_str(); if (t.m.empty()) return; size_t p = idx(n), l = 1 + choose(6), q = idx(t.m.size()), k = 1 + choose(6); std::string w = t.m.substr(q, k).substr(0, l); String &so = *t.o; act(op, &b, false, [&] { s(p, l) = so(q, k); }); put(m, p, w); if (&t != &b) after(t, op); break; }
    case 2: { op = "String(pos, len) = const String&"; if (!n) return; TStr &t = other_str(); size_t p = idx(n), l = 1 + choose(6); std::string w = t.m.substr(0, l); const String &so = *t.o; act(op, &b, false, [&] { s(p, l) = so; }); put(m, p, w); if (&t != &b) after(t, op); break; }
    case 3: { op = "String::insert(iterator, char)"; size_t p = small_pos(n); bool wr = choose(2); act(op, &b, false, [&] { auto it = s.insert(c.cbegin() + p, 'I'); if (wr) *it = 'J'; }); m.insert(p, 1, wr ? 'J' : 'I'); break; }
    case 4: { op = "String::insert(iterator, range)"; size_t p = small_pos(n); std::string w = word(); if (w.size() > 100) w.resize(100); act(op, &b, false, [&] { s.insert(c.cbegin() + p, w.begin(), w.end()); }); m.insert(p, w); break; }
    case 5: { op = "String::append(String, n)"; TStr &t = other_str(); size_t l = 1 + choose(8); bool rv = choose(2); std::string w = t.m.substr(0, l); const String &so = *t.o; act(op, &b, false, [&] { if (rv) { String x(so); s.append(std::move(x), l); } else s.append(so, l); }); m += w; if (&t != &b) after(t, op); break; }
    case 6: { op = "String append/insert/replace(const char*, n)"; std::string w = word(); if (w.empty()) return; size_t l = 1 + choose(w.size()), p = small_pos(n); int how = choose(3); act(op, &b, false, [&] { if (how == 0) s.append(w.data(), l); else if (how == 1) s.insert(p, w.data(), l); else s.replace(p, w.data(), l); }); w.resize(l); if (how == 0) m += w; else if (how == 1) m.insert(p, w); else put(m, p, w); break; }
    case 7: { op = "String append/insert/replace own characters"; if (!n || n > 200) return; size_t q = idx(n), l = 1 + choose(n - q), p = small_pos(n); int how = choose(3); std::string w = m.substr(q, l); act(op, &b, false, [&] { const char *d = c.data() + q; if (how == 0) s.append(d, l); else if (how == 1) s.insert(p, d, l); else s.replace(p, d, l); }); if (how == 0) m += w; else if (how == 1) m.insert(p, w); else put(m, p, w); break; }
    case 8: { op = "String += own c_str()"; if (n > 200) return; std::string w = m.c_str(); act(op, &b, false, [&] { s += s.c_str(); }); m += w; break; }
    case 9: { op = "String = {list}"; bool mk = choose(2); if (!mk) { act(op, &b, true, [&] { s = {'x', 'y', 'z'}; }); m = "xyz"; } else { String *q = nullptr; act("String({list})", nullptr, false, [&] { q = new String({'x', 'y', 'z', 'w'}); }); v.emplace_back(new TStr(q, "xyzw")); after(*v.back(), op); } break; }
    case 10: { op = "String(n, char)"; size_t l = choose(40); String *q = nullptr; act(op, nullptr, false, [&] { q = new String(l, 'c'); }); v.emplace_back(new TStr(q, std::string(l, 'c'))); after(*v.back(), op); break; }
    case 11: { op = "String::rfind"; if (!n) return; size_t p = idx(n), l = 1 + choose(3), r1, r2, f1; if (choose(4) == 3) { p = 0; l = n; } std::string w = m.substr(p, l); char ch = m[p]; { LIB(op); String x(w.data(), w.size()); r1 = c.rfind(x); r2 = c.rfind(ch); f1 = c.find(ch); } nops++; if (r1 != m.rfind(w) || r2 != m.rfind(ch) || f1 != m.find(ch)) bad(b, op, "finds " + show(w) + " in the wrong place"); break; }
    case 12: { op = "String::at"; char x = 0; if (n) { size_t p = idx(n); { LIB(op); x = choose(2) ? c.at(p) : c.charAt(p); } if (x != m[p]) bad(b, op, "has the wrong character"); } size_t far = n + choose(3); refused(b, op, [&] { (void)c.at(far); }); break; }
    case 13: { op = "String insert or replace out of range"; size_t p = n + 1 + choose(4); int how = choose(12); TStr &t = other_str(); String &so = *t.o;
      refused(b, op, [&] { switch (how) { case 8: s.insert(p, so, 2); break; case 9: s.insert(p, String("abc"), 2); break; case 10: s.replace(p, so, 2); break; case 11: s.insert(p, "abc", 2); break; case 0: s.insert(p, 'x'); break; case 1: s.insert(p, "abc"); break; case 2: s.insert(p, so); break; case 3: s.replace(p, 'x'); break; case 4: s.replace(p, "abc"); break; case 5: s.replace(p, so); break; case 6: s.insert(p, String("abc")); break; default: s.replace(p, String("abc")); } }); if (&t != &b) after(t, op); break; }
    case 14: { op = "String::compare"; TStr &t = other_str(); size_t k = 1 + choose(12); int r1, r2, r3; bool q1, q2, q3, q4, q5; std::string tc = t.m.c_str(); const String &so = *t.o; { LIB(op); r1 = c.compare(so, k); r2 = c.compare(so); r3 = c.compare(tc.c_str()); q1 = c != so; q2 = c <= so; q3 = c >= so; q4 = c > so; q5 = c == tc.c_str(); } nops++;
      auto sg = [](int x) { return (x > 0) - (x < 0); }; std::string mc = m.c_str();
      if (sg(r1) != sg(m.substr(0, k).compare(t.m.substr(0, k))) || sg(r2) != sg(m.compare(t.m)) || q1 != (m != t.m) || q2 != (m <= t.m) || q3 != (m >= t.m) || q4 != (m > t.m)) bad(b, op, "compares wrongly with " + show(t.m));
      if (mc.size() == n && (sg(r3) != sg(m.compare(tc)) || q5 != (m == tc))) bad(b, op, "compares wrongly with the text " + show(tc)); break; }
    case 15: { op = "const String trim/chomp"; bool tr = choose(2); String *q = nullptr; act(op, nullptr, false, [&] { q = tr ? new String(c.trim()) : new String(c.chomp()); }); std::string w = m; if (tr) { size_t i = 0, j = n; while (i < j && isspace((unsigned char)m[i])) i++; while (j > i && isspace((unsigned char)m[j - 1])) j--; w = m.substr(i, j - i); } else { if (w.size() && w.back() == '\n') w.pop_back(); if (w.size() && w.back() == '\r') w.pop_back(); } v.emplace_back(new TStr(q, w)); after(*v.back(), op); break; }
    case 16: { op = "ostream << String&&"; if (p10) return; size_t p = choose(n + 1); std::string w; { std::ostringstream os; { LIB(op); os << s.substring(p); os << String(c); } w = os.str(); } nops++; if (w != m.substr(p) + m) bad(b, op, "prints as " + show(w)); break; }
    case 17: { op = "String::sub with a limit"; if (!n) return; size_t p = idx(n), l = 1 + choose(3); std::string f = m.substr(p, l), r = choose(2) ? "" : "<long replacement>", w = m; if (r.size() && n > 200) return; int lim = 1 + choose(2), k = 0; for (size_t i = 0; k < lim && (i = w.find(f, i)) != std::string::npos; k++) { w.replace(i, f.size(), r); i += r.size(); } String *q = nullptr; act(op, nullptr, false, [&] { q = new String(c.sub(String(f.data(), f.size()), String(r.data(), r.size()), lim)); }); v.emplace_back(new TStr(q, w)); after(*v.back(), op); break; }
    case 18: { op = "String::split with a limit"; if (!n) return; size_t lim = choose(3) ? 2 + choose(3) : 1; bd::Array<String> *q = nullptr; act(op, nullptr, false, [&] { q = new bd::Array<String>(c.split(String(','), lim)); });
      std::vector<std::string> w; size_t i = 0; if (lim == 1) w.push_back(m); else { while (w.size() < lim - 1 && i < n) { size_t e = m.find(',', i); if (e == std::string::npos) e = n; w.push_back(m.substr(i, e - i)); i = e + 1; } w.push_back(i < n ? m.substr(i) : ""); } v.emplace_back(new TAS(q, w)); after(*v.back(), op); break; }
    case 19: { op = "String::split"; bd::Array<String> *q = nullptr; act(op, nullptr, false, [&] { q = new bd::Array<String>(c.split(String(','))); }); std::vector<std::string> w; for (size_t i = 0; i < n;) { size_t e = m.find(',', i); if (e == std::string::npos) e = n; w.push_back(m.substr(i, e - i)); i = e + 1; } v.emplace_back(new TAS(q, w)); after(*v.back(), op); break; }
    case 20: { op = "String::split(space)"; bd::Array<String> *q = nullptr; act(op, nullptr, false, [&] { q = new bd::Array<String>(c.split(String(' '))); }); std::vector<std::string> w; for (size_t i = 0; i < n;) { if (m[i] == ' ') { i++; continue; } size_t e = m.find(' ', i); if (e == std::string::npos) e = n; w.push_back(m.substr(i, e - i)); i = e + 1; } v.emplace_back(new TAS(q, w)); after(*v.back(), op); break; }
    case 21: { op = "newsplit(space)"; String *q = nullptr; act(op, &b, false, [&] { q = new String(newsplit(s)); }); size_t p = m.find(' '); if (p == std::string::npos) p = n; std::string w = m.substr(0, p); while (p + 1 < n && m[p + 1] == ' ') p++; m = p + 1 < n ? m.substr(p + 1) : ""; v.emplace_back(new TStr(q, w)); after(*v.back(), op); break; }
    case 22: { op = "String += String&&"; TStr &t = other_str(); const String &so = *t.o; std::string w = t.m; act(op, &b, false, [&] { String x(so); s += std::move(x); }); m += w; if (&t != &b) after(t, op); break; }
    case 23: { op = "std::transform into a String"; if (n > 60) return; String *q = nullptr; act(op, nullptr, false, [&] { q = nullptr; std::unique_ptr<String> x(new String()); std::copy(c.begin(), c.end(), std::back_inserter(*x)); q = x.release(); }); v.emplace_back(new TStr(q, m)); after(*v.back(), op); break; }
    case 24: { op = "std::reverse(String)"; act(op, &b, false, [&] { auto f = s.begin(); std::reverse(f, f + s.length()); }); std::reverse(m.begin(), m.end()); break; }
    case 25: { op = "String = itself"; int how = choose(3); act(op, &b, true, [&] { String &x = s; if (how == 0) s = x; else if (how == 1) s = std::move(x); else std::swap(s, x); }); break; }
    case 26: { op = "String insert or replace own slice"; if (!n || n > 200) return; size_t q = idx(n), l = 1 + choose(n - q), p = small_pos(n); bool in = choose(2); std::string w = m.substr(q, l); act(op, &b, false, [&] { if (in) s.insert(p, c(q, l)); else s.replace(p, String(c(q, l))); }); if (in) m.insert(p, w); else put(m, p, w); break; }
    case 27: { op = "String::rbegin() write"; if (!n) return; size_t p = idx(n); act(op, &b, false, [&] { auto it = s.rbegin(); it[p] = 'R'; }); m[n - 1 - p] = 'R'; break; }
    case 28: { op = "String::resize(longer)"; size_t k = choose(60); act(op, &b, false, [&] { s.resize(n + k); if (!k) return; char *d = s.mdata(); memset(d + n, 'L', k); }); m.resize(n + k, 'L'); break; }
    case 29: { op = "String truth"; bool e1, e2, e3; size_t l; { LIB(op); e1 = !s; e2 = (bool)s; e3 = s.isEmpty(); l = s.length(); } nops++; if (e1 != m.empty() || e2 == m.empty() || e3 != m.empty() || l != n) bad(b, op, "is empty and not empty"); break; }
    case 30: { op = "*String"; std::string w; act(op, &b, false, [&] { const char *d = *s; size_t l = strlen(d); { Unlib u; w.resize(l); } memcpy(&w[0], d, l); }); if (w != m.c_str()) bad(b, op, "has the terminated text " + show(w)); break; }
    case 31: { op = "String::write(pos, char)"; if (!n) return; size_t p = idx(n); act(op, &b, false, [&] { s.write(p, 'w'); }); m[p] = 'w'; break; }
    case 32: { op = "char + String"; String *q = nullptr; act(op, nullptr, false, [&] { q = new String('"' + c + '"'); }); v.emplace_back(new TStr(q, '"' + m + '"')); after(*v.back(), op); break; }
    case 36: { op = "String(pos) = String"; if (!n) return; size_t p = idx(n); std::string w = word(); act(op, &b, false, [&] { s(p) = String(w.data(), w.size()); }); put(m, p, w); break; }
    case 37: { op = "String::compare(const char*, n)"; size_t k = 1 + choose(12); TStr &t = other_str(); std::string x = m.c_str(), y = t.m.c_str(); if (x.size() != n) return; int r; { LIB(op); r = c.compare(y.c_str(), k); } nops++; auto sg = [](int q) { return (q > 0) - (q < 0); }; if (sg(r) != sg(strncmp(x.c_str(), y.c_str(), k))) bad(b, op, "compares wrongly with the text " + show(y)); break; }
    case 34: case 35: { // a part of the value, made ready to be changed: what it is a part of must not notice
      op = "a change of a part of a String"; if (!n) return; size_t p = idx(n), l = choose(n - p + 1), k = choose(5); int how = choose(6); std::string w = m.substr(p, l); String *q = nullptr;
      act(op, nullptr, false, [&] { std::unique_ptr<String> x(new String(c(p, l))); switch (how) { case 0: case 1: x->reserve(l + k); break; case 2: x->c_str(); break; case 3: x->resize(l + k, 'k'); break; case 4: x->mdata(); break; default: x->append('k'); } q = x.release(); });
      if (how == 3) w.append(k, 'k'); if (how == 5) w += 'k'; v.emplace_back(new TStr(q, w)); after(*v.back(), op); if (!p10) verify_all(op); break; }
    case 33: { op = "String::ifind/rifind"; if (!n) return; size_t p = idx(n), l = 1 + choose(3), r1 = 0, r2 = 0; auto up = [](std::string x) { for (auto &ch : x) ch = toupper((unsigned char)ch); return x; }; std::string w = up(m.substr(p, l)), mu = up(m); for (char ch : m) if ((unsigned char)ch > 127) return; act(op, nullptr, false, [&] { String x(w.data(), w.size()); r1 = c.ifind(x); r2 = c.rifind(x); }); if (r1 != mu.find(w) || r2 != mu.rfind(w)) bad(b, op, "finds " + show(w) + " in the wrong place"); break; }
    }
    after(b, op);
  }
  template <class E, class T> void op_arr(T &b) {
    typedef typename El<E>::M M;
    bd::Array<E> &a = *b.o; std::vector<M> &m = b.m; size_t n = m.size();
    auto other = [&]() -> T & { return *(T *)pick(b.k); };
    const char *op = "?";
    switch (choose(46)) {
    case 0: { M x = El<E>::draw(); op = "Array::push_back(const&)"; act(op, &b, false, [&] { E e = El<E>::mk(x); a.push_back(e); }); m.push_back(x); break; }
    case 1: { M x = El<E>::draw(); op = "Array << &&"; act(op, &b, false, [&] { a << El<E>::mk(x); }); m.push_back(x); break; }
    case 2: { size_t p = small_pos(n); M x = El<E>::draw(); op = "Array::insert(pos, item)"; act(op, &b, false, [&] { E e = El<E>::mk(x); a.insert(p, e); }); m.insert(m.begin() + p, x); break; }
    case 3: { size_t p = small_pos(n); M x = El<E>::draw(); op = "Array::insert(pos, item&&)"; act(op, &b, false, [&] { a.insert(p, El<E>::mk(x)); }); m.insert(m.begin() + p, x); break; }
    case 4: { if (!n) return; op = "Array::shift"; M g = M(); bool got = false; act(op, &b, false, [&] { E e = a.shift(); g = El<E>::rd(e); got = true; }); if (got && g != m[0]) bad(b, op, "shifted " + El<E>::str(g) + " instead of " + El<E>::str(m[0])); m.erase(m.begin()); break; }
    case 5: { if (!n) return; op = "Array::pop"; M g = M(); act(op, &b, false, [&] { E e = a.pop(); g = El<E>::rd(e); }); if (g != m.back()) bad(b, op, "popped " + El<E>::str(g) + " instead of " + El<E>::str(m.back())); m.pop_back(); break; }
    case 6: { if (!n) return; size_t p = idx(n); M x = El<E>::draw(); op = "Array[] ="; act(op, &b, false, [&] { a[p] = El<E>::mk(x); }); m[p] = x; break; }
    case 7: { if (!n) return; size_t p = idx(n); M x = El<E>::draw(); op = "Array::replace(pos, item)"; act(op, &b, false, [&] { E e = El<E>::mk(x); a.replace(p, e); }); m[p] = x; break; }
    case 8: { T &t = other(); op = "Array += Array"; std::vector<M> w = t.m; if (n + w.size() > 60) return; bd::Array<E> &so = *t.o; act(op, &b, false, [&] { a += so; }); m.insert(m.end(), w.begin(), w.end()); break; }
    case 9: { T &t = other(); if (&t == &b) return; size_t p = small_pos(n); op = "Array::insert(pos, Array)"; std::vector<M> w = t.m; if (n + w.size() > 60) return; bd::Array<E> &so = *t.o; act(op, &b, false, [&] { a.insert(p, so); }); m.insert(m.begin() + p, w.begin(), w.end()); break; }
    case 10: { T &t = other(); size_t p = choose(n + 2); ssize_t l = choose(3) ? (ssize_t)choose(n + 2) : -1; op = "Array::operator()(pos, len)"; const bd::Array<E> &c = a; bd::Array<E> &to = *t.o; std::vector<M> w; for (size_t i = p; i < n && (l < 0 || i < p + l); i++) w.push_back(m[i]); act(op, &t, true, [&] { to = c(p, l); }); t.m = w; after(t, op); break; }
    case 11: { size_t p = choose(n + 1); op = "Array::subarray"; bd::Array<E> *q; { LIB(op); q = new bd::Array<E>(a.subarray(p)); } nops++; v.emplace_back(new T(q, std::vector<M>(m.begin() + p, m.end()))); break; }
    case 12: { T &t = other(); op = "Array = const Array&"; bd::Array<E> &so = *t.o; act(op, &b, true, [&] { a = so; }); m = std::vector<M>(t.m); break; }
    case 13: { T &t = other(); if (&t == &b) return; op = "Array = Array&&"; bd::Array<E> &so = *t.o; act(op, &b, true, [&] { a = std::move(so); }); m = t.m; t.m.clear(); after(t, op); break; }
    case 14: { op = "Array::clear"; act(op, &b, false, [&] { a.clear(); }); m.clear(); break; }
    case 15: { size_t l = choose(n + 1); op = "Array::resize(shorter)"; act(op, &b, false, [&] { a.resize(l); }); m.resize(l); break; }
    case 16: { size_t l = choose(n + 8); M x = El<E>::draw(); op = "Array::resize(n, value)"; act(op, &b, false, [&] { a.resize(l, El<E>::mk(x)); }); m.resize(l, x); break; }
    case 17: { size_t l = choose(2 * n + 10); op = "Array::reserve"; act(op, &b, false, [&] { a.reserve(l); }); break; }
    case 18: { if (!n) return; op = "++Array / --Array"; bool d = choose(2); act(op, &b, false, [&] { if (d) --a; else inc(a); }); if (d) m.pop_back(); else m.erase(m.begin()); break; }
    case 19: { op = "Array::begin() write"; M x = El<E>::draw(); if (!n) return; size_t p = idx(n); act(op, &b, false, [&] { auto it = a.begin(); it[p] = El<E>::mk(x); }); m[p] = x; break; }
    case 20: { op = "Array::find"; if (!n) return; size_t p = idx(n); M x = m[p]; size_t r = 0; act(op, nullptr, false, [&] { E e = El<E>::mk(x); r = a.find(e); }); size_t w = std::find(m.begin(), m.end(), x) - m.begin(); if (r != w) bad(b, op, "finds " + El<E>::str(x) + " at " + std::to_string((long)r)); break; }
    case 21: { op = "Array =="; T &t = other(); bool e; { LIB(op); e = a == *t.o; } nops++; if (e != (m == t.m)) bad(b, op, "compares wrongly"); break; }
    case 22: { op = "Array append own element"; if (!n) return; size_t p = idx(n); const bd::Array<E> &c = a; M x = m[p]; act(op, &b, false, [&] { a.push_back(c[p]); }); m.push_back(x); break; }
    case 23: { op = "Array(pos, len) = Array"; if (!n) return; T &t = other(); if (&t == &b || t.m.empty()) return; size_t p = idx(n), l = 1 + choose(4); std::vector<M> w(t.m.begin(), t.m.begin() + std::min(l, t.m.size())); bd::Array<E> &so = *t.o; act(op, &b, false, [&] { a(p, l) = so; }); for (size_t i = 0; i < w.size(); i++) if (p + i < m.size()) m[p + i] = w[i]; else m.push_back(w[i]); break; }
    case 24: { op = "Array + Array"; T &t = other(); if (n + t.m.size() > 60) return; bd::Array<E> *q = nullptr; bd::Array<E> &so = *t.o; act(op, nullptr, false, [&] { q = new bd::Array<E>(a + so); }); std::vector<M> w = m; w.insert(w.end(), t.m.begin(), t.m.end()); v.emplace_back(new T(q, w)); break; }
    case 25: { op = "Array >> item"; if (!n) return; M g = M(); act(op, &b, false, [&] { E e = E(); a >> e; g = El<E>::rd(e); }); if (g != m.back()) bad(b, op, "gave " + El<E>::str(g)); m.pop_back(); break; }
    case 26: { op = "Array::pop_back"; if (!n) return; act(op, &b, false, [&] { a.pop_back(); }); m.pop_back(); break; }
    case 27: { op = "std::swap(Array)"; T &t = other(); if (&t == &b) return; bd::Array<E> &so = *t.o; act(op, &b, true, [&] { std::swap(a, so); }); std::swap(m, t.m); after(t, op); break; }
    case 28: { op = "Array = {list}"; M x = El<E>::draw(), y = El<E>::draw(); act(op, &b, true, [&] { a = {El<E>::mk(x), El<E>::mk(y)}; }); m = {x, y}; break; }
    case 29: { op = "Array::insert(iterator, range)"; T &t = other(); if (&t == &b || n + t.m.size() > 40) return; size_t p = small_pos(n); const bd::Array<E> &so = *t.o; std::vector<M> w = t.m; act(op, &b, false, [&] { a.insert(a.cbegin() + p, so.begin(), so.end()); }); m.insert(m.begin() + p, w.begin(), w.end()); break; }
    case 30: { op = "Array::push_front"; M x = El<E>::draw(); act(op, &b, false, [&] { a.push_front(El<E>::mk(x)); }); m.insert(m.begin(), x); break; }
    case 32: { op = "Array::front() = / back() ="; if (!n) return; bool f = choose(2); M x = El<E>::draw(); act(op, &b, false, [&] { if (f) a.front() = El<E>::mk(x); else a.back() = El<E>::mk(x); }); m[f ? 0 : n - 1] = x; break; }
    case 33: { op = "Array::insert(pos, itself)"; if (n > 15) return; size_t p = choose(n + 1); std::vector<M> w = m; act(op, &b, false, [&] { a.insert(p, a); }); m.insert(m.begin() + p, w.begin(), w.end()); break; }
    case 34: { op = "Array::replace(pos, itself)"; if (n > 15) return; size_t p = choose(n + 1); std::vector<M> w = m; act(op, &b, false, [&] { a.replace(p, a); }); if (p + n > m.size()) m.resize(p + n); std::copy(w.begin(), w.end(), m.begin() + p); break; }
    case 35: { op = "Array(n, value)"; size_t l = choose(8); M x = El<E>::draw(); bd::Array<E> *q = nullptr; act(op, nullptr, false, [&] { q = new bd::Array<E>(l, El<E>::mk(x)); }); v.emplace_back(new T(q, std::vector<M>(l, x))); break; }
    case 36: { op = "Array write own element"; if (!n) return; size_t p = idx(n), q = idx(n); const bd::Array<E> &c = a; M x = m[p]; int how = choose(3); act(op, &b, false, [&] { if (how == 0) a.write(q, c[p]); else if (how == 1) a.replace(q, c[p]); else a.insert(q, c[p]); }); if (how < 2) m[q] = x; else m.insert(m.begin() + q, x); break; }
    case 37: { T &t = other(); op = "Array::replace(pos, Array)"; size_t p = small_pos(n); std::vector<M> w = t.m; if (n + w.size() > 60) return; bd::Array<E> &so = *t.o; act(op, &b, false, [&] { a.replace(p, so); }); for (size_t i = 0; i < w.size(); i++) if (p + i < m.size()) m[p + i] = w[i]; else m.push_back(w[i]); after(t, op); break; }
    case 38: { T &t = other(); op = "Array::replace(pos, Array&&, n)"; size_t p = small_pos(n), l = 1 + choose(5); bool all = choose(3) == 0; std::vector<M> w(t.m.begin(), t.m.begin() + (all ? t.m.size() : std::min(l, t.m.size()))); if (n + w.size() > 60) return; const bd::Array<E> &so = *t.o; act(op, &b, false, [&] { bd::Array<E> x(so); if (all) a.replace(p, std::move(x)); else a.replace(p, std::move(x), l); }); for (size_t i = 0; i < w.size(); i++) if (p + i < m.size()) m[p + i] = w[i]; else m.push_back(w[i]); if (&t != &b) after(t, op); break; }
    case 39: { T &t = other(); op = "Array::insert(pos, Array&&, n)"; size_t p = small_pos(n), l = 1 + choose(5); bool all = choose(3) == 0; std::vector<M> w(t.m.begin(), t.m.begin() + (all ? t.m.size() : std::min(l, t.m.size()))); if (n + w.size() > 60) return; const bd::Array<E> &so = *t.o; act(op, &b, false, [&] { bd::Array<E> x(so); if (all) a.insert(p, std::move(x)); else a.insert(p, std::move(x), l); }); m.insert(m.begin() + p, w.begin(), w.end()); if (&t != &b) after(t, op); break; }
    case 40: { T &t = other(); op = "Array::insert(pos, Array, n)"; size_t p = small_pos(n), l = 1 + choose(5); std::vector<M> w(t.m.begin(), t.m.begin() + std::min(l, t.m.size())); if (n + w.size() > 60) return; bd::Array<E> &so = *t.o; act(op, &b, false, [&] { a.insert(p, so, l); }); m.insert(m.begin() + p, w.begin(), w.end()); if (&t != &b) after(t, op); break; }
    case 41: { T &t = other(); op = "Array::append(Array&&)"; std::vector<M> w = t.m; if (n + w.size() > 60) return; const bd::Array<E> &so = *t.o; act(op, &b, false, [&] { bd::Array<E> x(so); a.append(std::move(x)); }); m.insert(m.end(), w.begin(), w.end()); if (&t != &b) after(t, op); break; }
    case 42: { op = "Array::slice with negative bounds"; long st = (long)choose(2 * n + 3) - (long)n - 1, l = (long)choose(2 * n + 3) - (long)n - 1; std::vector<M> w = slice_model(m, st, l); const bd::Array<E> &c = a; bd::Array<E> *q = nullptr; act(op, nullptr, false, [&] { q = new bd::Array<E>(c(st, l)); }); v.emplace_back(new T(q, w)); after(*v.back(), op); break; }
    case 43: { op = "Array += n / -= n"; bool d = choose(2); int k = choose(n + 2); act(op, &b, false, [&] { drop_n(a, d, k); }); size_t c = std::min(n, (size_t)k); if (d) m.erase(m.end() - c, m.end()); else m.erase(m.begin(), m.begin() + c); break; }
    case 44: { op = "Array[].mget() ="; if (!n) return; size_t p = idx(n); M x = El<E>::draw(); act(op, &b, false, [&] { a[p].mget() = El<E>::mk(x); }); m[p] = x; break; }
    case 45: { op = "Array(Array&&)"; T &t = other(); bd::Array<E> *q = nullptr; bd::Array<E> &so = *t.o; act(op, nullptr, false, [&] { q = new bd::Array<E>(std::move(so)); }); std::vector<M> w = t.m; t.m.clear(); v.emplace_back(new T(q, w)); after(t, op); break; }
    case 31: { op = "Array postfix ++/--"; if (!n) return; bd::Array<E> *q = nullptr; bool d = choose(2); act(op, nullptr, false, [&] { q = d ? new bd::Array<E>(a--) : new bd::Array<E>(a++); }); v.emplace_back(new T(q, std::vector<M>(1, d ? m.back() : m[0]))); if (d) m.pop_back(); else m.erase(m.begin()); break; }
    }
    after(b, op);
  }
  template <class E, class T> void op_arr_more(T &b) {
    typedef typename El<E>::M M; typedef bd::Array<E> A; typedef std::vector<M> V;
    A &a = *b.o; V &m = b.m; size_t n = m.size(); const A &c = a;
    auto other = [&]() -> T & { return *(T *)pick(b.k); };
    const char *op = "?";
    switch (choose(24)) {
    case 0: { op = "Array[] = Array[]"; if (!n) return; T &t = other(); if (t.m.empty()) return; size_t p = idx(n), q = idx(t.m.size()); M x = t.m[q]; A &so = *t.o; act(op, &b, false, [&] { a[p] = so[q]; }); m[p] = x; if (&t != &b) after(t, op); break; }
    case 1: { op = "Array(pos, len) = Array(pos, len)"; if (!n) return; T &t = other(); if (t.m.empty()) return; size_t p = idx(n), l = 1 + choose(4), q = idx(t.m.size()), k = 1 + choose(4); V w(t.m.begin() + q, t.m.begin() + std::min(t.m.size(), q + std::min(k, l))); A &so = *t.o; act(op, &b, false, [&] { a(p, l) = so(q, k); }); put(m, p, w); if (&t != &b) after(t, op); break; }
    case 2: { op = "Array(pos, len) = Array&&"; if (!n) return; T &t = other(); size_t p = idx(n), l = 1 + choose(4); V w(t.m.begin(), t.m.begin() + std::min(l, t.m.size())); const A &so = *t.o; act(op, &b, false, [&] { A x(so); a(p, l) = std::move(x); }); put(m, p, w); if (&t != &b) after(t, op); break; }
    case 3: { op = "Array::insert(iterator, item)"; size_t p = small_pos(n); M x = El<E>::draw(), y = El<E>::draw(); bool rv = choose(2), wr = choose(2); act(op, &b, false, [&] { E z = El<E>::mk(y); E e = El<E>::mk(x); auto it = rv ? a.insert(c.cbegin() + p, std::move(e)) : a.insert(c.cbegin() + p, e); if (wr) *it = std::move(z); }); m.insert(m.begin() + p, wr ? y : x); break; }
    case 4: { op = "Array::append(Array, n)"; T &t = other(); size_t l = 1 + choose(5); bool rv = choose(2); V w(t.m.begin(), t.m.begin() + std::min(l, t.m.size())); if (n + w.size() > 60) return; const A &so = *t.o; act(op, &b, false, [&] { if (rv) { A x(so); a.append(std::move(x), l); } else a.append(so, l); }); m.insert(m.end(), w.begin(), w.end()); if (&t != &b) after(t, op); break; }
    case 5: { op = "Array(elements, len)"; A *q = nullptr; int how = choose(3); act(op, nullptr, false, [&] { if (how == 0) q = new A(c.data(), c.length()); else q = new A(c.begin(), c.end()); }); v.emplace_back(new T(q, m)); after(*v.back(), op); break; }
    case 6: { op = "Array({list})"; M x = El<E>::draw(), y = El<E>::draw(); A *q = nullptr; act(op, nullptr, false, [&] { q = new A({El<E>::mk(x), El<E>::mk(y), El<E>::mk(x)}); }); v.emplace_back(new T(q, V{x, y, x})); after(*v.back(), op); break; }
    case 7: { op = "Array::rfind"; M x = n && choose(4) ? m[idx(n)] : El<E>::draw(); size_t r = 0, f = 0; act(op, nullptr, false, [&] { E e = El<E>::mk(x); r = c.rfind(e); f = c.find(e); }); size_t w = (size_t)-1, g = (size_t)-1; for (size_t i = 0; i < n; i++) if (m[i] == x) { w = i; if (g == (size_t)-1) g = i; } if (r != w || f != g) bad(b, op, "finds " + El<E>::str(x) + " in the wrong place"); break; }
    case 8: { op = "Array::at"; if (n) { size_t p = idx(n); M g; { LIB(op); g = El<E>::rd(c.at(p)); } if (g != m[p]) bad(b, op, "has the wrong element"); } size_t far = n + choose(3); refused(b, op, [&] { (void)c.at(far); }); break; }
    case 9: { op = "Array insert or replace out of range"; size_t p = n + 1 + choose(4); int how = choose(9); M x = El<E>::draw(); T &t = other(); A &so = *t.o; refused(b, op, [&] { E e = El<E>::mk(x); switch (how) { case 0: a.insert(p, e); break; case 1: a.insert(p, std::move(e)); break; case 2: a.insert(p, so); break; case 6: a.insert(p, so, 1); break; case 7: a.insert(p, A(so), 1); break; case 8: a.replace(p, A(so), 1); break; case 3: a.replace(p, e); break; case 4: a.replace(p, std::move(e)); break; default: a.replace(p, so); } }); if (&t != &b) after(t, op); break; }
    case 10: { op = "Array::equals"; T &t = other(); size_t k = choose(6); bool r1, r2, r3; { LIB(op); r1 = c.equals(*t.o); r2 = c != *t.o; r3 = c.equals(*t.o, k); } nops++; if (r1 != (m == t.m) || r2 != (m != t.m)) bad(b, op, "compares wrongly"); if (n == t.m.size() && n) { size_t z = std::min(k, n); if (r3 != std::equal(m.begin(), m.begin() + z, t.m.begin())) bad(b, op, "compares its beginning wrongly"); } break; }
    case 11: { op = "shift() of a temporary"; if (!n) return; size_t p = idx(n); M g = M(); int how = choose(3); act(op, nullptr, false, [&] { E e = how == 0 ? A(c).shift() : how == 1 ? c.subarray(p).shift() : A(c.data() + p, n - p).shift(); g = El<E>::rd(e); }); if (g != m[how ? p : 0]) bad(b, op, "gave " + El<E>::str(g) + " instead of " + El<E>::str(m[how ? p : 0])); break; }
    case 12: { op = "pop() of a temporary"; if (!n) return; size_t p = idx(n); M g = M(); int how = choose(3); act(op, nullptr, false, [&] { E e = how == 0 ? A(c).pop() : how == 1 ? c.subarray(0, p + 1).pop() : A(c.data(), p + 1).pop(); g = El<E>::rd(e); }); if (g != m[how ? p : n - 1]) bad(b, op, "gave " + El<E>::str(g)); break; }
    case 14: { op = "Array += item"; M x = El<E>::draw(); act(op, &b, false, [&] { E e = El<E>::mk(x); add_item(a, e); }); m.push_back(x); break; }
    case 15: { op = "Array reverse iteration"; V w; { LIB(op); for (auto it = c.rbegin(); it != c.rend(); ++it) { M x = El<E>::rd(*it); Unlib u; w.push_back(x); } } nops++; if (w != V(m.rbegin(), m.rend())) bad(b, op, "reads backwards as " + show(w)); break; }
    case 16: { op = "Array::rbegin() write"; if (!n) return; size_t p = idx(n); M x = El<E>::draw(); act(op, &b, false, [&] { E e = El<E>::mk(x); auto it = a.rbegin(); it[p] = std::move(e); }); m[n - 1 - p] = x; break; }
    case 17: { op = "Array = itself"; int how = choose(3); act(op, &b, true, [&] { A &x = a; if (how == 0) a = x; else if (how == 1) a = std::move(x); else std::swap(a, x); }); break; }
    case 18: { op = "Array insert or replace own slice"; if (!n || n > 15) return; size_t q = idx(n), l = 1 + choose(n - q), p = small_pos(n); int how = choose(4); V w(m.begin() + q, m.begin() + q + l); act(op, &b, false, [&] { switch (how) { case 0: a.insert(p, c(q, l)); break; case 1: a.replace(p, c(q, l)); break; case 2: a.insert(p, A(c(q, l))); break; default: a.replace(p, A(c(q, l))); } }); if (how % 2 == 0) m.insert(m.begin() + p, w.begin(), w.end()); else put(m, p, w); break; }
    case 19: { op = "Array::resize(longer)"; size_t k = choose(8); V w; for (size_t i = 0; i < k; i++) w.push_back(El<E>::draw()); act(op, &b, false, [&] { std::vector<E> z; for (auto &x : w) z.push_back(El<E>::mk(x)); size_t at = n; a.resize(n + k); for (auto &x : z) a[at++] = std::move(x); }); m.insert(m.end(), w.begin(), w.end()); break; }
    case 20: { op = "std::reverse(Array)"; act(op, &b, false, [&] { auto f = a.begin(); std::reverse(f, f + a.length()); }); std::reverse(m.begin(), m.end()); break; }
    case 21: { op = "Array truth"; bool e1, e2, e3; size_t l; { LIB(op); e1 = !a; e2 = (bool)a; e3 = a.isEmpty(); l = a.size(); } nops++; if (e1 != m.empty() || e2 == m.empty() || e3 != m.empty() || l != n) bad(b, op, "is empty and not empty"); break; }
    case 22: { op = "Array::front/back"; if (!n) return; M f, k; { LIB(op); f = El<E>::rd(c.front()); k = El<E>::rd(c.back()); } nops++; if (f != m[0] || k != m[n - 1]) bad(b, op, "has a wrong first or last element"); break; }
    case 23: { op = "std::rotate(Array)"; if (n < 2) return; size_t p = idx(n); act(op, &b, false, [&] { auto f = a.begin(); std::rotate(f, f + p, f + n); }); std::rotate(m.begin(), m.begin() + p, m.end()); break; }
    case 13: { op = "Array from a std::vector"; A *q = nullptr; act(op, nullptr, false, [&] { std::vector<E> x; for (auto &y : m) x.push_back(El<E>::mk(y)); q = new A(x.begin(), x.end()); }); v.emplace_back(new T(q, m)); after(*v.back(), op); break; }
    }
    after(b, op);
  }
  template <class E, class T> void any_arr(T &b) { if (choose(3) == 2) op_arr_more<E, T>(b); else op_arr<E, T>(b); }
  void op_astr_extra(TAS &b) { // element-level sharing
    bd::Array<String> &a = *b.o; auto &m = b.m; const char *op;
    if (m.empty()) return;
    size_t p = idx(m.size());
    switch (choose(7)) {
    case 5: { op = "Array::join quoted"; String *q = nullptr; act(op, nullptr, false, [&] { q = new String(a.join(String(" "), true)); }); std::string w; for (size_t i = 0; i < m.size(); i++) { if (i) w += " "; w += '"' + m[i] + '"'; } v.emplace_back(new TStr(q, w)); after(*v.back(), op); break; }
    case 3: { op = "Array hash, write, hash"; TStr &t = other_str(); const String &so = *t.o; int how = choose(4); size_t h = 0; act(op, &b, false, [&] { (void)a.hash(); switch (how) { case 0: a[p] = so; break; case 1: a[p].mget() = so; break; case 2: a.begin()[p] = so; break; default: a.write(p, so); } h = a.hash(); }); m[p] = t.m; size_t f; { LIB(op); bd::Array<String> x; for (auto &e : m) x << String(e.data(), e.size()); f = x.hash(); } if (h != f) bad(b, op, "has a stale hash"); break; }
    case 4: { op = "Array[].mget() write"; if (m[p].empty()) return; size_t q = idx(m[p].size()); act(op, &b, false, [&] { a[p].mget()[q] = 'W'; }); m[p][q] = 'W'; break; }
    case 0: { op = "String = Array[]"; TStr &t = other_str(); const bd::Array<String> &c = a; String &to = *t.o; act(op, &t, true, [&] { to = c[p]; }); t.m = m[p]; after(t, op); break; }
    case 1: { op = "Array[] = String"; TStr &t = other_str(); String &so = *t.o; act(op, &b, false, [&] { a[p] = so; }); m[p] = t.m; break; }
    case 2: { op = "Array[].mget() += char"; act(op, &b, false, [&] { a[p].mget() += 'x'; }); m[p] += 'x'; break; }
    default: { op = "Array::join"; String *q = nullptr; std::string dl = choose(3) ? "--" : ""; act(op, nullptr, false, [&] { q = new String(a.join(String(dl.data(), dl.size()))); }); std::string w; for (size_t i = 0; i < m.size(); i++) { if (i) w += dl; w += m[i]; } v.emplace_back(new TStr(q, w)); break; }
    }
    after(b, op);
  }
  void op_stream(TStream &b) {
    bd::Stream &s = *b.o; std::string &m = b.m; size_t &pos = b.pos; size_t n = m.size(); const char *op = "?";
    switch (choose(23)) {
    case 18: { op = "Stream::read(n, delim)"; char d = "\n,a"[choose(3)]; size_t k = choose(n + 3), was = pos; std::string w; bool gl = d == '\n' && choose(2); act(op, &b, false, [&] { String r = gl ? s.getline(k) : s.read(k, d); std::string x = bytes(r); Unlib u; w = x; });
      size_t e = m.find(d, pos); std::string line = e == std::string::npos ? m.substr(pos) : m.substr(pos, e - pos + 1);   // a delimiter right behind the limit may come along
      std::string cut = line.substr(0, k); if (w != cut && !(w == line && line.size() == k + 1 && line.back() == d)) bad(b, op, "read " + show(w) + " instead of " + show(cut)); pos = was + w.size(); break; }
    case 19: { op = "Stream(Stream&&)"; bd::Stream *q = nullptr; bd::Stream &so = s; act(op, nullptr, false, [&] { bd::Stream x(so); q = new bd::Stream(std::move(x)); }); v.emplace_back(new TStream(q, m, pos)); after(*v.back(), op); break; }
    case 20: { op = "Stream(String&&)"; TStr &t = other_str(); bd::Stream *q = nullptr; const String &so = *t.o; act(op, nullptr, false, [&] { String x(so); q = new bd::Stream(std::move(x)); }); v.emplace_back(new TStream(q, t.m, 0)); after(*v.back(), op); break; }
    case 21: { op = "Stream << String&&"; TStr &t = other_str(); const String &so = *t.o; std::string w = t.m; act(op, &b, false, [&] { String x(so); s << std::move(x); }); put(m, pos, w); pos += w.size(); break; }
    case 22: { op = "Stream truth"; bool e; size_t c2; { LIB(op); e = !s; c2 = s.capacity(); } nops++; if (e != m.empty() || c2 < n) bad(b, op, "is empty and not empty"); break; }
    case 16: case 17: {                                     // anywhere: relative to the start, the position or the capacity, in and out of range
      op = "Stream::seek (relative or out of range)"; if (p10) return;
      int wh = choose(4), r; long off = (long)choose(2 * n + 60) - (long)choose(2 * n + 60), cap, e; size_t t; static const int whs[] = {SEEK_SET, SEEK_CUR, SEEK_END, 77};
      { LIB(op); cap = s.capacity(); r = s.seek(off, whs[wh]); t = s.tell(); }
      e = wh == 0 ? off : wh == 1 ? (long)pos + off : wh == 2 ? cap - off : (long)pos; if (e < 0) e = 0; else if (e > cap) e = cap;
      nops++;
      if (r != e || t != (size_t)e) bad(b, op, "is at " + std::to_string(t) + " (" + std::to_string(r) + ") instead of " + std::to_string(e));
      if ((size_t)e > n) { e = choose(n + 1); LIB(op); s.seek(e, SEEK_SET); }
      pos = e; break; }
    case 0: { std::string w = word(); op = "Stream::puts(String&&)"; act(op, &b, false, [&] { s.puts(String(w.data(), w.size())); }); if (pos + w.size() > m.size()) m.resize(pos + w.size()); m.replace(pos, w.size(), w); pos += w.size(); break; }
    case 1: { TStr &t = other_str(); op = "Stream << String"; String &so = *t.o; std::string w = t.m; act(op, &b, false, [&] { s << so; }); if (pos + w.size() > m.size()) m.resize(pos + w.size()); m.replace(pos, w.size(), w); pos += w.size(); break; }
    case 2: { size_t p = choose(n + 1); op = "Stream::seek"; act(op, &b, false, [&] { s.seek(p, SEEK_SET); }); pos = p; break; }
    case 3: { size_t k = choose(n + 3); op = "Stream::read"; String *q = nullptr; act(op, &b, false, [&] { q = new String(s.read(k)); }); std::string w = m.substr(pos, k); v.emplace_back(new TStr(q, w)); pos += w.size(); break; }
    case 4: { op = "Stream::getline"; String *q = nullptr; act(op, &b, false, [&] { q = new String(s.getline()); }); size_t e = m.find('\n', pos); std::string w = e == std::string::npos ? m.substr(pos) : m.substr(pos, e - pos + 1); v.emplace_back(new TStr(q, w)); pos += w.size(); break; }
    case 5: { op = "Stream::truncate"; act(op, &b, false, [&] { s.truncate(); }); m.resize(pos); break; }
    case 6: { op = "Stream::clear"; act(op, &b, false, [&] { s.clear(); }); m.clear(); pos = 0; break; }
    case 7: { op = "Stream::peek"; String *q = nullptr; act(op, nullptr, false, [&] { q = new String(s.peek()); }); v.emplace_back(new TStr(q, m.substr(pos))); break; }
    case 8: { Box *x = pick(KSTREAM); if (x == &b) return; TStream &t = *(TStream *)x; op = "Stream = const Stream&"; bd::Stream &so = *t.o; const bd::Stream &cso = so; act(op, &b, true, [&] { s = cso; }); m = t.m; pos = t.pos; break; }
    case 9: { op = "Stream::reserve"; size_t k = choose(2 * n + 100); act(op, &b, false, [&] { s.reserve(k); }); break; }
    case 10: { op = "Stream -> String"; String *q = nullptr; act(op, nullptr, false, [&] { q = new String(s); }); v.emplace_back(new TStr(q, m)); break; }
    case 11: { op = "Stream(String)"; TStr &t = other_str(); bd::Stream *q = nullptr; const String &so = *t.o; act(op, nullptr, false, [&] { q = new bd::Stream(so); }); v.emplace_back(new TStream(q, t.m, 0)); break; }
    case 12: { op = "swap(Stream)"; Box *x = pick(KSTREAM); if (x == &b) return; TStream &t = *(TStream *)x; bd::Stream &so = *t.o; act(op, &b, true, [&] { swap(s, so); }); std::swap(m, t.m); std::swap(pos, t.pos); after(t, op); break; }
    case 14: { op = "Stream::read past the end"; if (p10) return; std::string w, x; size_t cap, t; { LIB(op); s.reserve(n + 50); cap = s.capacity(); s.seek(n + 1 + choose(cap - n), SEEK_SET); String r = s.read(10); w = bytes(r); String g = s.getline(); x = bytes(g); t = s.tell(); s.seek(0, SEEK_SET); } pos = 0; if (w.size() || x.size() || t > cap) bad(b, op, "read " + show(w + x) + " beyond its end"); break; }
    case 15: { op = "Stream += itself"; if (n > 300) return; std::string w = m; act(op, &b, false, [&] { String x = s; s.puts(x); }); if (pos + w.size() > m.size()) m.resize(pos + w.size()); m.replace(pos, w.size(), w); pos += w.size(); break; }
    case 13: { op = "Stream::read to end"; if (p10) return; std::string w; { LIB(op); String r = s.read(n + 10); w = bytes(r); } if (w != m.substr(pos)) bad(b, op, "read " + show(w)); pos = n; break; }
    }
    after(b, op);
  }
  template <class T> void op_hash(T &b) {
    typedef typename T::Val X; typedef El<X> EX; const bool own = T::HK == KHSTD;   // values that allocate when copied
    auto &h = *b.o; auto &m = b.m; const char *op = "?";
    std::string k(1, 'a' + choose(5)); if (choose(4) == 3) k += "-a-longer-key-of-some-length"; else if (choose(8) == 7) k = "k" + std::to_string(choose(40));
    switch (choose(20)) {
    case 14: { op = "HashTable({list})"; std::string w = EX::draw(); typename T::H *q = nullptr; act(op, nullptr, false, [&] { q = new typename T::H({{String(k.data(), k.size()), EX::mk(w)}, {String("zz"), X("1")}}); }); v.emplace_back(new T(q, {{k, w}, {"zz", "1"}})); after(*v.back(), op); break; }
    case 15: { op = "HashTable(HashTable&&)"; typename T::H *q = nullptr; const auto &c = h; act(op, nullptr, false, [&] { typename T::H x(c); q = new typename T::H(std::move(x)); }); v.emplace_back(new T(q, m)); after(*v.back(), op); break; }
    case 16: { op = "const HashTable[]"; std::string g; const auto &c = h; act(op, nullptr, false, [&] { X r = c[String(k.data(), k.size())]; std::string x = EX::rd(r); Unlib u; g = x; }); if (g != (m.count(k) ? m[k] : "")) bad(b, op, "has " + show(g) + " under " + show(k)); break; }
    case 17: { op = "HashTable[Key&&] ="; if (own && p10) return; std::string w = EX::draw(); act(op, &b, false, [&] { X x(EX::mk(w)); String y(k.data(), k.size()); h[std::move(y)] = std::move(x); }); m[k] = w; break; }
    case 18: { op = "HashTable = itself"; auto &x = h; act(op, &b, false, [&] { h = x; }); bool e1, e2; size_t z; { LIB(op); e1 = h.isEmpty(); e2 = (bool)h; z = h.size(); } if (e1 != m.empty() || e2 == m.empty() || z != m.size()) bad(b, op, "is empty and not empty"); break; }
    case 19: { op = "HashTable::find write"; act(op, &b, false, [&] { String y(k.data(), k.size()); X z("found"); auto it = h.find(y); if (it != h.end()) it->second = z; }); if (m.count(k)) m[k] = "found"; break; }
    case 9: { op = "HashTable::insert(key, value) lvalues"; TStr &t = other_str(); const String &so = *t.o; int how = choose(4); bool r = false, had = m.count(k); act(op, &b, false, [&] { String x(k.data(), k.size()); X y(conv(so, (X *)nullptr)); switch (how) { case 0: r = h.insert(x, y); break; case 1: r = h.insert(std::move(x), y); break; case 2: r = h.insert(x, std::move(y)); break; default: r = h.insert(std::move(x), std::move(y)); } }); if (r == had) bad(b, op, "answered wrongly"); if (!had) m[k] = t.m; after(t, op); break; }
    case 10: { op = "HashTable[] += char"; act(op, &b, false, [&] { String y(k.data(), k.size()); if (!h.contains(y)) return; h[y] += 'x'; }); if (m.count(k)) m[k] += 'x'; break; }
    case 11: { op = "HashTable iteration write"; if (p10) return; act(op, &b, false, [&] { for (auto it = h.begin(); it != h.end(); ++it) it->second = X("it"); }); for (auto &e : m) e.second = "it"; break; }
    case 12: { op = "swap(HashTable)"; Box *x = pick((Kind)T::HK); if (x == &b) return; T &t = *(T *)x; auto &so = *t.o; act(op, &b, true, [&] { swap(h, so); }); std::swap(m, t.m); after(t, op); break; }
    case 13: { op = "HashTable::find"; bool f = false; std::string g; act(op, nullptr, false, [&] { const auto &c = h; auto it = c.find(String(k.data(), k.size())); f = it != c.end(); if (f) { std::string y = EX::rd(it->second); Unlib u; g = y; } }); if (f != (bool)m.count(k) || (f && g != m[k])) bad(b, op, "answered wrongly"); break; }
    case 0: { std::string w = EX::draw(); op = "HashTable::insert"; bool r = false, had = m.count(k); act(op, &b, false, [&] { r = h.insert(String(k.data(), k.size()), EX::mk(w)); }); if (r == had) bad(b, op, "answered wrongly"); if (!had) m[k] = w; break; }
    case 1: { std::string w = EX::draw(); op = "HashTable[] ="; if (own && p10) return; act(op, &b, false, [&] { X x(EX::mk(w)); String y(k.data(), k.size()); h[y] = x; }); m[k] = w; break; }
    case 2: { op = "HashTable::remove"; bool r = false; act(op, &b, false, [&] { r = h.remove(String(k.data(), k.size())); }); if (r != (bool)m.count(k)) bad(b, op, "answered wrongly"); m.erase(k); break; }
    case 3: { op = "HashTable::getValue"; TStr &t = other_str(); String &to = *t.o; act(op, &t, true, [&] { to = String(h.getValue(String(k.data(), k.size()))); }); t.m = m.count(k) ? m[k] : ""; after(t, op); break; }
    case 4: { op = "HashTable::contains"; bool r = false; act(op, nullptr, false, [&] { r = h.contains(String(k.data(), k.size())); }); if (r != (bool)m.count(k)) bad(b, op, "answered wrongly"); break; }
    case 5: { Box *x = pick((Kind)T::HK); if (x == &b) return; T &t = *(T *)x; op = "HashTable = const&"; auto &so = *t.o; act(op, &b, true, [&] { h = so; }); m = t.m; break; }
    case 6: { Box *x = pick((Kind)T::HK); if (x == &b) return; T &t = *(T *)x; op = "HashTable = &&"; auto &so = *t.o; act(op, &b, true, [&] { h = std::move(so); so.clear(); }); m = t.m; t.m.clear(); after(t, op); break; }
    case 7: { op = "HashTable::clear"; act(op, &b, false, [&] { h.clear(); }); m.clear(); break; }
    case 8: { op = "HashTable insert shared"; TStr &t = other_str(); String &so = *t.o; bool r = false; act(op, &b, false, [&] { const X y(conv(so, (X *)nullptr)); r = h.insert(String(k.data(), k.size()), y); }); if (r == (bool)m.count(k)) bad(b, op, "answered wrongly"); if (r) m[k] = t.m; break; }
    }
    after(b, op);
  }
  void drop_one(size_t i) { BoxP b = std::move(v[i]); v.erase(v.begin() + i); ev("drop a value"); b->drop("~"); nops++; }
  void copy_common() {
    const Box &c = *(*common)[choose(common->size())];
    v.emplace_back(const_cast<Box &>(c).clone("copy of a common object")); nops++;
    verify(*v.back(), "copying a common object");
  }
  void crowd() {                                       // very many holders of one storage
    Box *b = v[choose(v.size())].get(); std::string m = b->model();
    size_t n = m.size() < 2000 ? 250 + choose(20) : 2;
    ev("%zu copies", n); count("crowds"); std::vector<BoxP> c;
    for (size_t i = 0; i < n; i++) { c.emplace_back(b->clone("one of many copies")); if (i + 1 == n || (i & (i + 1)) == 0) { verify(*b, "making many copies of it"); verify(*c[choose(c.size())], "making many copies of it"); } }
    nops++; one_op();
    verify(*c[choose(n)], "an operation on another of many copies"); verify(*c.back(), "an operation on another of many copies");
    bool front = choose(2);
    if (front) std::reverse(c.begin(), c.end());
    while (!c.empty()) { c.back()->drop("~"); c.pop_back(); if (!c.empty() && (c.size() & (c.size() - 1)) == 0) verify(*c.back(), "many of its copies were dropped"); }
    verify_all("very many copies were dropped");
  }
  void one_op() {
    uint32_t r = choose(10);
    if (r >= 8 || v.empty()) {
      if (common && !common->empty() && choose(2)) { copy_common(); return; }
      if (v.empty()) { v.push_back(make(p09 ? KSTR : (Kind)choose(NK))); return; }
      if (choose(2)) { if (choose(40) == 39) { crowd(); return; } size_t i = choose(v.size()); v.emplace_back(v[i]->clone("copy")); nops++; return; }
      size_t i = choose(v.size()); drop_one(i); return;
    }
    while (v.size() > 9) drop_one(choose(v.size()));
    Box &b = *v[choose(v.size())];
    ev("op on a value of kind %d", (int)b.k);
    switch (b.k) {
    case KSTR: if (choose(3) == 2) op_str_more((TStr &)b); else op_str((TStr &)b); break;
    case KASTR: if (choose(4) == 3) op_astr_extra((TAS &)b); else any_arr<String, TAS>((TAS &)b); break;
    case KAINT: any_arr<int, TAI>((TAI &)b); break;
    case KATR: any_arr<Tracked, TAT>((TAT &)b); break;
    case KSTREAM: op_stream((TStream &)b); break;
    case KASTD: try { any_arr<std::string, TASTD>((TASTD &)b); } catch (Partly &) { for (size_t i = 0; i < v.size(); i++) if (v[i].get() == &b) { drop_one(i); break; } } break;
    case KADEEP: try { any_arr<Deep, TAD>((TAD &)b); } catch (Partly &) { for (size_t i = 0; i < v.size(); i++) if (v[i].get() == &b) { drop_one(i); break; } } break;
    case KHSTD: op_hash((THStd &)b); break;
    default: op_hash((THash &)b);
    }
  }
  void body() {
    int n = p10 ? 3 + choose(8) : 2 + choose(9);
    for (int i = 0; i < n; i++) {
      yield_point();
      one_op();
      if (choose(4) == 0) verify_all("operations of other threads");
    }
    verify_all("the operations of this run");
    while (!v.empty()) drop_one(choose(v.size()));
  }
};

// Known finding, not part of the search: c_str() of an element changes the element in the buffer both arrays share.
static void run_cstr_element() {
  draw_sched();
  std::unique_ptr<bd::Array<String>> a[2];
  { LIB("String::split"); a[0].reset(new bd::Array<String>(String("one,two").split(String(',')))); a[1].reset(new bd::Array<String>(*a[0])); }
  nontrivial();
  std::vector<std::function<void()>> bodies;
  for (int t = 0; t < 2; t++) bodies.push_back([&, t] { LIB("Array[].c_str()"); const bd::Array<String> &c = *a[t]; sig(strlen(c[0].c_str()) + t); });
  run_threads(bodies);
  for (auto &x : a) { LIB("~Array"); x.reset(); }
  finish_run();
}
static void run() {
  if (scenario() && !strcmp(scenario(), "cstr-element")) { run_cstr_element(); return; }
  static std::map<const void *, int> live; static std::set<std::string> gr;
  live.clear(); gr.clear(); live_el = &live; grams = &gr; el_made = 0;
  p07 = selected("C07"); p08 = selected("C08"); p09 = selected("C09"); p10 = selected("C10");
  draw_sched();
  if (p09) {
    secret.clear();
    for (int i = 0; i < 40; i++) secret += char(0xC0 + rng_free(64));
    for (size_t i = 0; i < secret.size(); i++) { std::string g; for (int k = 0; k < 6; k++) g += secret[(i + k) % secret.size()]; gr.insert(g); }
    set_free_hook(free_hook, nullptr);
  }
  int nt = p10 ? 1 + (choose(5) == 4) : 1 + choose(3);
  bool common_mode = choose(2);
  std::vector<BoxP> roots;
  int nr = 1 + choose(3);
  for (int i = 0; i < nr; i++) {
    Kind k = p09 ? (choose(3) == 2 ? (choose(2) ? KASTR : KSTREAM) : KSTR) : (Kind)choose(NK);
    roots.push_back(make(k));
    if (k == KSTR && choose(3) == 2) { // a view with an offset and spare room on both sides
      TStr &t = (TStr &)*roots.back(); size_t n = t.m.size(), a = choose(n + 1), l = choose(n + 1);
      { LIB("String::slice"); t.o->slice(a, l); } t.m = a >= n ? "" : t.m.substr(a, l);
    }
  }
  std::vector<Actor> act(nt);
  for (int t = 0; t < nt; t++) {
    for (auto &r : roots) if (choose(3)) act[t].v.emplace_back(r->clone("copy"));
    if (common_mode) act[t].common = &roots;
  }
  if (!common_mode) { if (choose(2) && nt > 0) { for (auto &r : roots) act[0].v.push_back(std::move(r)); } else for (auto &r : roots) r->drop("~"); roots.clear(); }
  std::vector<std::function<void()>> bodies;
  for (int t = 0; t < nt; t++) bodies.push_back([&, t] { act[t].body(); });
  if (nt > 1) nontrivial();
  run_threads(bodies);
  for (auto &r : roots) { std::string why; if (!r->same(&why)) { violate("C07", "common-changed", "a common object that was only copied from %s", why.c_str()); finish_run(); } }
  for (auto &r : roots) r->drop("~");
  roots.clear();
  std::string det;
  if (size_t n = leak_check(&det)) violate("C08,C10", "memory-leak", "%zu blocks are still allocated after every value was destroyed: %s", n, det.c_str());
  if (!live.empty()) violate("C08", "element-leak", "%zu array elements were never destroyed", live.size());
  count("elements-made", el_made);
  finish_run();
}
static void warm() {}
namespace sim { Harness harness{"value", run, warm, "C07,C08,C09,C10"}; }
