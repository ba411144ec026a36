// Script binding: ScriptInterpTCL with the real libtcl (C12, C13, C14, C15, C16).
#include "../sim/core.h"
#include "../sim/fs.h"
#include "ScriptInterpTCL.h"
#include <algorithm>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>

using namespace sim;
namespace fs = simfs;
using bd::Array;
using bd::ScriptCallbackerPtr;
using bd::ScriptInterpTCL;
using bd::String;
typedef std::string S;
typedef std::vector<S> V;

static bool p12, p13, p14, p15, p16, p17, p18;

// ---------------------------------------------------------------- Tcl values the library hands over
// libtcl's heap is not ours, so a value bdlib gives to Tcl and never lets go of would go unnoticed.  In half of the
// runs each value handed over gets HOLD extra references; once the interpreters are gone there must be no others left.
static const int HOLD = 100000;
static Tcl_Obj *held[20000]; static int nheld; static bool holding;
static bool is_held(Tcl_Obj *o) { for (int i = nheld; i-- > 0;) if (held[i] == o) return true; return false; }
static void hold(Tcl_Obj *o) { if (!holding || !o || nheld == 20000 || o->refCount >= HOLD / 2 || is_held(o)) return; held[nheld++] = o; o->refCount += HOLD; }
struct Letgo { Tcl_Obj *o; Letgo(Tcl_Obj *x) : o(holding && x && x->refCount >= HOLD / 2 ? x : nullptr) { if (o) o->refCount -= HOLD; } ~Letgo() { if (o) o->refCount += HOLD; } };
extern "C" {
#define W_(f) __wrap_##f
#define R_(f) __real_##f
extern void R_(Tcl_SetObjResult)(Tcl_Interp *, Tcl_Obj *); void W_(Tcl_SetObjResult)(Tcl_Interp *i, Tcl_Obj *o) { hold(o); R_(Tcl_SetObjResult)(i, o); }
extern Tcl_Obj *R_(Tcl_SetVar2Ex)(Tcl_Interp *, const char *, const char *, Tcl_Obj *, int); Tcl_Obj *W_(Tcl_SetVar2Ex)(Tcl_Interp *i, const char *a, const char *b, Tcl_Obj *o, int f) { hold(o); return R_(Tcl_SetVar2Ex)(i, a, b, o, f); }
extern Tcl_Obj *R_(Tcl_ObjSetVar2)(Tcl_Interp *, Tcl_Obj *, Tcl_Obj *, Tcl_Obj *, int); Tcl_Obj *W_(Tcl_ObjSetVar2)(Tcl_Interp *i, Tcl_Obj *a, Tcl_Obj *b, Tcl_Obj *o, int f) { hold(o); return R_(Tcl_ObjSetVar2)(i, a, b, o, f); }
extern int R_(Tcl_EvalObjEx)(Tcl_Interp *, Tcl_Obj *, int); int W_(Tcl_EvalObjEx)(Tcl_Interp *i, Tcl_Obj *o, int f) { hold(o); return R_(Tcl_EvalObjEx)(i, o, f); }
extern int R_(Tcl_EvalObjv)(Tcl_Interp *, int, Tcl_Obj *const *, int); int W_(Tcl_EvalObjv)(Tcl_Interp *i, int n, Tcl_Obj *const *v, int f) { for (int k = 0; k < n; k++) hold(v[k]); return R_(Tcl_EvalObjv)(i, n, v, f); }
extern int R_(Tcl_ListObjAppendElement)(Tcl_Interp *, Tcl_Obj *, Tcl_Obj *); int W_(Tcl_ListObjAppendElement)(Tcl_Interp *i, Tcl_Obj *l, Tcl_Obj *o) { hold(o); Letgo g(l); return R_(Tcl_ListObjAppendElement)(i, l, o); }
extern int R_(Tcl_ListObjAppendList)(Tcl_Interp *, Tcl_Obj *, Tcl_Obj *); int W_(Tcl_ListObjAppendList)(Tcl_Interp *i, Tcl_Obj *l, Tcl_Obj *o) { Letgo g(l); return R_(Tcl_ListObjAppendList)(i, l, o); }
extern int R_(Tcl_ListObjReplace)(Tcl_Interp *, Tcl_Obj *, int, int, int, Tcl_Obj *const *); int W_(Tcl_ListObjReplace)(Tcl_Interp *i, Tcl_Obj *l, int a, int b, int n, Tcl_Obj *const *v) { for (int k = 0; k < n; k++) hold(v[k]); Letgo g(l); return R_(Tcl_ListObjReplace)(i, l, a, b, n, v); }
extern void R_(Tcl_AppendToObj)(Tcl_Obj *, const char *, int); void W_(Tcl_AppendToObj)(Tcl_Obj *o, const char *b, int n) { Letgo g(o); R_(Tcl_AppendToObj)(o, b, n); }
extern void R_(Tcl_AppendObjToObj)(Tcl_Obj *, Tcl_Obj *); void W_(Tcl_AppendObjToObj)(Tcl_Obj *o, Tcl_Obj *x) { Letgo g(o); R_(Tcl_AppendObjToObj)(o, x); }
extern void R_(Tcl_SetStringObj)(Tcl_Obj *, const char *, int); void W_(Tcl_SetStringObj)(Tcl_Obj *o, const char *b, int n) { Letgo g(o); R_(Tcl_SetStringObj)(o, b, n); }
}
extern "C" char __data_start, _end;
static void check_held(const char *props) {                // after the last interpreter is gone
  if (!holding) return;
  holding = false; count("tcl-values-held", nheld);
  for (bool again = true; again;) {
    again = false;
    for (int i = 0; i < nheld; i++) if (held[i] && held[i]->refCount == HOLD) { Tcl_Obj *o = held[i]; held[i] = nullptr; o->refCount = 1; Tcl_DecrRefCount(o); again = true; }
  }
  for (int i = 0; i < nheld; i++) {
    Tcl_Obj *o = held[i]; if (!o) continue;
    if (o->refCount < HOLD) { violate(props, "tcl-value-released-twice", "a value given to Tcl (\"%.40s\") was released more often than it was taken", o->bytes ? o->bytes : "?"); return; }
    bool cached = false;                                   // kept by the library on purpose
    for (uintptr_t a = ((uintptr_t)&__data_start + 7) & ~7ul; a + 8 <= (uintptr_t)&_end; a += 8) if (a < (uintptr_t)held || a >= (uintptr_t)(held + 20000)) if (*(Tcl_Obj **)a == o) cached = true;
    if (!cached) { violate(props, "tcl-value-leak", "a value given to Tcl (\"%.40s\") is still held %d time(s) after the interpreters were destroyed", o->bytes ? o->bytes : "?", o->refCount - HOLD); return; }
  }
}

// ---------------------------------------------------------------- text helpers
static String mk(const S &s) { return String(s.data(), s.size()); }               // in a LIB scope
// Tcl spells NUL as C0 80 inside its strings; both spellings are the same text here.
static S norm(const S &s) { S o; for (size_t i = 0; i < s.size(); i++) if (s[i] == '\xc0' && i + 1 < s.size() && s[i + 1] == '\x80') { o += '\0'; i++; } else o += s[i]; return o; }
static S denorm(const S &s) { S o; for (char c : s) if (c) o += c; else o += "\xc0\x80"; return o; }
static S rd(const String &s) { S r; size_t n = s.length(); const char *p = s.cbegin(); Unlib u; if (n) r.assign(p, n); return norm(r); }
static S show(const S &s) {
  S o = "\"";
  for (size_t i = 0; i < s.size() && i < 70; i++) { char b[8]; snprintf(b, 8, (unsigned char)s[i] < 32 || (unsigned char)s[i] > 126 ? "\\x%02x" : "%c", (unsigned char)s[i]); o += b; }
  if (s.size() > 70) o += "...";
  return o + "\"";
}
static S show(const V &v) { S o = "("; for (auto &x : v) o += (o.size() > 1 ? " " : "") + show(x); return o + ")"; }
static S tq(const S &w) {                               // one script word
  if (w.empty()) return "{}";
  S o;
  for (char c : w) {
    if (!c) o += "\\u0000"; else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t";
    else if (isalnum((unsigned char)c) || strchr("_-./:=", c) || (c & 0x80)) o += c;
    else { o += '\\'; o += c; }
  }
  return o;
}
static S tlist(const V &v) { S o; for (auto &x : v) o += (o.empty() ? "" : " ") + tq(x); return o; }
static bool split(const S &s, V *out) {
  int n; const char **a; out->clear();
  if (Tcl_SplitList(nullptr, denorm(s).c_str(), &n, &a) != TCL_OK) return false;
  for (int i = 0; i < n; i++) out->push_back(norm(a[i]));
  Tcl_Free((char *)a); return true;
}
static int longs, brief;                                      // the next words are short ones
static int several(int n) { int k = choose(n); if (k != n - 1 || choose(60) != 59) return k; brief = 200; return 250 + choose(20); }   // rarely beyond 8 bits
static S word() {
  if (brief > 0) { brief--; return "w" + std::to_string(choose(50)); }
  switch (choose(19)) {
  case 17: return S("nul\0mid", 7);
  case 0: return "a"; case 1: return ""; case 2: return "two words"; case 3: return "x$y"; case 4: return "[c0 z]"; case 5: return "{"; case 6: return "}";
  case 7: return "\"q\""; case 8: return "back\\slash"; case 9: return "semi;colon"; case 10: return "nl\nline"; case 11: return "#hash"; case 12: return S(100, 'L');
  case 13: return choose(3) ? "w" + std::to_string(choose(50)) : choose(40) == 39 && longs++ < 3 ? S(65530 + choose(20), 'N') : S(5000, 'M'); case 14: return "\xc3\xa9"; case 15: return "-1"; case 16: return "a{b"; default: return "w" + std::to_string(choose(50));
  }
}

// ---------------------------------------------------------------- handlers
enum Sig { G_SS, G_II, G_VS, G_LL, G_NUM, G_CB, G_NEST, G_N2, G_CS, G_DD, G_U8, NSIG };
static const size_t sig_n[NSIG] = {2, 2, 1, 2, 4, 2, 1, 5, 2, 2, 1};
enum { SLOTS = 3, NH = NSIG * SLOTS };
struct Ret { S s; long i = 0; V l; std::vector<V> n; int thrown = 0; };
static Ret on_call(int hid, const V &args, ScriptCallbackerPtr cb);
enum { T_NONE, T_STRING, T_STD, T_INT, T_CSTR, T_BADALLOC, NTHROW };
static void do_throw(const Ret &r) {
  switch (r.thrown) {
  case T_STRING: throw String(r.s.data(), r.s.size());
  case T_STD: throw std::runtime_error("a runtime error");
  case T_INT: throw 42;
  case T_CSTR: throw "a C string";
  case T_BADALLOC: throw std::bad_alloc();
  }
}
static S lflat(const V &v) { S o; for (auto &x : v) o += std::to_string(x.size()) + ":" + x; return "L" + o; }
static V rdl(const Array<String> &a) { V v; size_t n = a.length(); const String *p = a.cbegin(); for (size_t i = 0; i < n; i++) { S x = rd(p[i]); Unlib u; v.push_back(x); } return v; }
#define ENTER(H, ARGS, CB) Ret r; { V av = ARGS; Unlib u; r = on_call(H, av, CB); } do_throw(r)
template <int N> String h_ss(String a, String b) { ENTER(G_SS * SLOTS + N, (V{rd(a), rd(b)}), nullptr); return mk(r.s); }
template <int N> int h_ii(int a, int b) { ENTER(G_II * SLOTS + N, (V{std::to_string(a), std::to_string(b)}), nullptr); return (int)r.i; }
template <int N> void h_vs(String a) { ENTER(G_VS * SLOTS + N, V{rd(a)}, nullptr); }
template <int N> Array<String> h_ll(Array<String> l, String b) { ENTER(G_LL * SLOTS + N, (V{lflat(rdl(l)), rd(b)}), nullptr); Array<String> o; for (auto &x : r.l) o << mk(x); return o; }
static S dstr(double d) { char b[40]; snprintf(b, 40, "%.17g", d); return b; }
template <int N> String h_num(int64_t a, uint32_t b, bool c, double d) { ENTER(G_NUM * SLOTS + N, (V{std::to_string(a), std::to_string(b), c ? "1" : "0", dstr(d)}), nullptr); return mk(r.s); }
template <int N> void h_cb(String a, ScriptCallbackerPtr cb) { S c = cb ? rd(cb->cmd) : S(); ENTER(G_CB * SLOTS + N, (V{rd(a), c}), cb); }
template <int N> Array<Array<String>> h_nest(Array<Array<String>> l) {
  S f; size_t n = l.length(); const Array<String> *p = l.cbegin(); for (size_t i = 0; i < n; i++) { V v = rdl(p[i]); Unlib u; f += lflat(v) + ";"; }
  ENTER(G_NEST * SLOTS + N, V{f}, nullptr);
  Array<Array<String>> o; for (auto &x : r.n) { Array<String> e; for (auto &y : x) e << mk(y); o << e; } return o;
}
template <int N> uint64_t h_n2(int8_t a, uint8_t b, int16_t c, uint16_t d, uint64_t e) { ENTER(G_N2 * SLOTS + N, (V{std::to_string(a), std::to_string(b), std::to_string(c), std::to_string(d), std::to_string(e)}), nullptr); return r.i == -1 ? ~0ull : (uint64_t)r.i; }
static S cs(const char *p) { S s; if (p) for (; *p; p++) s += *p; return norm(s); }
template <int N> bool h_cs(const char *a, char *b) { ENTER(G_CS * SLOTS + N, (V{cs(a), cs(b)}), nullptr); return r.i > 0; }
template <int N> double h_dd(double a, bool b) { ENTER(G_DD * SLOTS + N, (V{dstr(a), b ? "1" : "0"}), nullptr); return r.i / 4.0; }
template <int N> uint8_t h_u8(int64_t a) { ENTER(G_U8 * SLOTS + N, V{std::to_string(a)}, nullptr); return (uint8_t)r.i; }
static void reg(ScriptInterpTCL *si, const String &n, int hid, const char *usage, size_t minp) {
  LIB("createCommand");
  bool st = !p15 && choose(2), dflt = !p15 && choose(2);                            // through the generic front end
#define C1(G, F, N) case G * SLOTS + N: if (!st && minp == size_t(-1) && dflt) { if (usage) si->createCommand(n, F<N>, usage); else si->createCommand(n, F<N>); } else if (!st) si->createCommand(n, F<N>, usage, minp); else if (minp == size_t(-1) && !usage) bd::ScriptInterp::createCommand(*si, n, F<N>); else bd::ScriptInterp::createCommand(*si, n, F<N>, usage, minp); break;
#define R(G, F) C1(G, F, 0) C1(G, F, 1) C1(G, F, 2)
  switch (hid) { R(G_SS, h_ss) R(G_II, h_ii) R(G_VS, h_vs) R(G_LL, h_ll) R(G_NUM, h_num) R(G_CB, h_cb) R(G_NEST, h_nest) R(G_N2, h_n2) R(G_CS, h_cs) R(G_DD, h_dd) R(G_U8, h_u8) }
#undef R
#undef C1
}
static void reg(ScriptInterpTCL *si, const S &name, int hid, const char *usage, size_t minp) { LIB("createCommand"); String n = mk(name); reg(si, n, hid, usage, minp); }
// a word that denotes no value of the type: not a number, or one that does not fit. It counts as 0.
static S misfit(int bits, bool uns) {                    // bits: 8..64, 0 = double, 1 = bool
  static const char *const any[] = {"abc", "", "7 7", "5x"};
  if (bits < 8 || choose(3) == 0) return any[choose(4)];
  static const char *const big[] = {"99999999999999999999", "-99999999999999999999", "1.5", "18446744073709551616"};
  if (choose(3) == 0) return big[choose(4)];
  if (uns) { if (choose(2)) return bits == 64 ? "-1" : choose(2) ? "-1" : "18446744073709551615"; return bits == 64 ? "18446744073709551616" : std::to_string(1ull << bits); }
  if (bits == 64) { static const char *const w[] = {"9223372036854775808", "-9223372036854775809", "18446744073709551615", "-18446744073709551615"}; return w[choose(4)]; }
  if (choose(4) == 0) return choose(2) ? "18446744073709551615" : "-18446744073709551615";
  return choose(2) ? std::to_string(1ll << (bits - 1)) : std::to_string(-(1ll << (bits - 1)) - 1);
}
// arguments for a signature: the script words and what the handler must see
struct Args { V words, seen; };
static Args draw_args(int sg, size_t n, const S &cbcmd) {
  Args a;
  static const long ints[] = {1, 0, -1, 42, 2147483647L, -2147483647L - 1, 100000};
  static const int64_t i64[] = {7, 0, -1, INT64_MAX, INT64_MIN, 1LL << 40};
  static const uint32_t u32[] = {7, 0, 4294967295u, 2147483648u};
  static const double ds[] = {0.5, 0, -2.25, 1e10, 3};
  for (size_t i = 0; i < n; i++) {
    S w, s;
    if (sg == G_II) { w = s = std::to_string(ints[choose(7)]); }
    else if (sg == G_NUM && i == 0) w = s = std::to_string(i64[choose(6)]);
    else if (sg == G_NUM && i == 1) w = s = std::to_string(u32[choose(4)]);
    else if (sg == G_NUM && i == 2) { static const char *const b[] = {"1", "0", "true", "no", "on"}; int k = choose(5); w = b[k]; s = k == 0 || k == 2 || k == 4 ? "1" : "0"; }
    else if (sg == G_NUM && i == 3) { double d = ds[choose(5)]; w = s = dstr(d); }
    else if (sg == G_N2) { static const char *const v[5][6] = {{"5", "0", "-1", "127", "-128", "100"}, {"5", "0", "127", "128", "200", "255"}, {"5", "0", "-1", "32767", "-32768", "300"}, {"5", "0", "32767", "32768", "65535", "300"}, {"5", "0", "9223372036854775807", "9223372036854775808", "18446744073709551615", "1099511627776"}}; w = s = v[i][choose(6)]; }
    else if (sg == G_DD && i == 0) { double d = ds[choose(5)]; w = s = dstr(d); }
    else if (sg == G_DD) { static const char *const b[] = {"1", "0", "yes", "false", "7"}; int k = choose(5); w = b[k]; s = k == 1 || k == 3 ? "0" : "1"; }
    else if (sg == G_U8) w = s = std::to_string(i64[choose(6)]);
    else if (sg == G_CS) { w = word(); if (w.size() != strlen(w.c_str())) w = "no nul"; s = w; }
    else if (sg == G_LL && i == 0) { V l; int m = several(5); for (int k = 0; k < m; k++) l.push_back(word()); w = tlist(l); s = lflat(l); }
    else if (sg == G_NEST) { int m = several(4); V o; for (int k = 0; k < m; k++) { V l; int q = choose(3); for (int j = 0; j < q; j++) l.push_back(word()); o.push_back(tlist(l)); s += lflat(l) + ";"; } w = tlist(o); }
    else if (sg == G_CB && i == 1) w = s = cbcmd;
    else w = s = word();
    if (choose(12) == 11) {
      static const int n2[] = {8, 8, 16, 16, 64}; const bool n2u[] = {false, true, false, true, true};
      if (sg == G_II) { w = misfit(32, false); s = "0"; }
      else if (sg == G_NUM) { static const int b[] = {64, 32, 1, 0}; w = misfit(b[i], i == 1); s = "0"; }
      else if (sg == G_N2) { w = misfit(n2[i], n2u[i]); s = "0"; }
      else if (sg == G_DD) { w = misfit(i ? 1 : 0, false); s = "0"; }
      else if (sg == G_U8) { w = misfit(64, false); s = "0"; }
      else if (sg == G_LL && i == 0) { w = choose(2) ? "a {b" : "{a}b c"; s = "L"; }
      else if (sg == G_NEST) { bool in = choose(2); w = in ? tlist({"x", "a {b", "y z"}) : "a {b"; s = in ? lflat({"x"}) + ";" + lflat({}) + ";" + lflat({"y", "z"}) + ";" : ""; }
    }
    a.words.push_back(w); a.seen.push_back(s);
  }
  for (size_t i = n; i < sig_n[sg]; i++) {               // defaults
    if (sg == G_II) a.seen.push_back("0");
    else if (sg == G_NUM || sg == G_N2 || sg == G_DD || sg == G_U8) a.seen.push_back("0");
    else if (sg == G_LL && i == 0) a.seen.push_back("L");
    else a.seen.push_back("");
  }
  return a;
}

// ---------------------------------------------------------------- linked variables
enum LT { L_STR, L_BUF, L_I8, L_U8, L_I16, L_U16, L_I32, L_U32, L_I64, L_U64, L_DBL, L_BOOL, L_LIST, L_NLIST, L_ROSTR, L_ROI32, L_ROCSTR, L_ROLIST, L_RODBL, L_ROI64, L_ROU8, L_ROBOOL, L_RONLIST, NLT };
static const char *const lt_name[NLT] = {"String", "char buffer", "int8_t", "uint8_t", "int16_t", "uint16_t", "int32_t", "uint32_t", "int64_t", "uint64_t", "double", "bool", "Array<String>", "Array<Array<String>>", "const String", "const int32_t", "const char*", "const Array<String>", "const double", "const int64_t", "const uint8_t", "const bool", "const Array<Array<String>>"};
static bool lt_ro(int t) { return t >= L_ROSTR; }
static bool lt_int(int t) { return t >= L_I8 && t <= L_U64; }
static V unflat(const S &c) { V v; size_t i = 1; while (i < c.size()) { size_t n = 0; for (; c[i] != ':'; i++) n = n * 10 + (c[i] - '0'); i++; v.push_back(c.substr(i, n)); i += n; } return v; }
struct Host {                                            // a host variable
  int t; void *p; size_t size = 0; S m;                  // m: canonical model value
};
static void host_set(Host &h, const S &c) {
  h.m = c;
  std::vector<V> nest; if (h.t == L_NLIST || h.t == L_RONLIST) for (auto &x : unflat(c)) nest.push_back(unflat(x));
  LIB("host write");
  switch (h.t) {
  case L_NLIST: case L_RONLIST: { Array<Array<String>> a; for (auto &x : nest) { Array<String> e; for (auto &y : x) e << mk(y); a << e; } *(Array<Array<String>> *)h.p = a; break; }
  case L_STR: case L_ROSTR: *(String *)h.p = mk(c); break;
  case L_BUF: memset(h.p, 0x5a, h.size); memcpy(h.p, c.c_str(), c.size() + 1); break;
  case L_ROCSTR: memcpy(h.p, c.c_str(), c.size() + 1); break;
  case L_I8: *(int8_t *)h.p = std::stoll(c); break; case L_U8: case L_ROU8: *(uint8_t *)h.p = std::stoull(c); break;
  case L_I16: *(int16_t *)h.p = std::stoll(c); break; case L_U16: *(uint16_t *)h.p = std::stoull(c); break;
  case L_I32: case L_ROI32: *(int32_t *)h.p = std::stoll(c); break; case L_U32: *(uint32_t *)h.p = std::stoull(c); break;
  case L_I64: case L_ROI64: *(int64_t *)h.p = std::stoll(c); break; case L_U64: *(uint64_t *)h.p = std::stoull(c); break;
  case L_LIST: case L_ROLIST: { Array<String> a; size_t i = 1; while (i < c.size()) { size_t n = 0; for (; c[i] != ':'; i++) n = n * 10 + (c[i] - '0'); i++; a << String(c.data() + i, n); i += n; } *(Array<String> *)h.p = a; break; }
  case L_DBL: case L_RODBL: *(double *)h.p = std::stod(c); break; case L_BOOL: case L_ROBOOL: *(bool *)h.p = c == "1"; break;
  }
}
template <class T> static T peek(const void *p) { LIB("host read"); return *(const T *)p; }
static S val_of(int t, const void *p, size_t size) {     // canonical value behind a pointer
  switch (t) {
  case L_STR: case L_ROSTR: { LIB("host read"); return rd(*(const String *)p); }
  case L_BUF: { S s; bool end = false; for (size_t i = 0; i < size && !end; i++) { char c = peek<char>((const char *)p + i); if (c) s += c; else end = true; } if (!end) s += "<not terminated>"; return s; }
  case L_ROCSTR: return S((const char *)p);
  case L_I8: return std::to_string(peek<int8_t>(p)); case L_U8: case L_ROU8: return std::to_string(peek<uint8_t>(p));
  case L_I16: return std::to_string(peek<int16_t>(p)); case L_U16: return std::to_string(peek<uint16_t>(p));
  case L_I32: case L_ROI32: return std::to_string(peek<int32_t>(p)); case L_U32: return std::to_string(peek<uint32_t>(p));
  case L_I64: case L_ROI64: return std::to_string(peek<int64_t>(p)); case L_U64: return std::to_string(peek<uint64_t>(p));
  case L_LIST: case L_ROLIST: { V v; { LIB("host read"); v = rdl(*(const Array<String> *)p); } return lflat(v); }
  case L_NLIST: case L_RONLIST: { V o; LIB("host read"); const auto &a = *(const Array<Array<String>> *)p; size_t n = a.length(); const Array<String> *q = a.cbegin(); for (size_t i = 0; i < n; i++) { V v = rdl(q[i]); Unlib u; o.push_back(lflat(v)); } Unlib u; return lflat(o); }
  case L_DBL: case L_RODBL: return dstr(peek<double>(p)); default: return peek<bool>(p) ? "1" : "0";
  }
}
static const size_t buf_sizes[] = {8, 1, 2, 5, 16, 100, 300};
static Host host_new(int t, size_t size = 0) {
  Host h; h.t = t;
  if (t == L_BUF) { h.size = size ? size : buf_sizes[choose(7)]; h.p = arena_alloc(h.size, "linked buffer"); LIB("host write"); memset(h.p, 0, h.size); }
  else if (t == L_ROCSTR) { h.size = 200; h.p = arena_alloc(h.size, "linked text"); LIB("host write"); memset(h.p, 0, h.size); }
  else if (t == L_STR || t == L_ROSTR) { h.p = arena_alloc(sizeof(String), "linked String"); LIB("host write"); new (h.p) String(); }
  else if (t == L_LIST || t == L_ROLIST) { h.p = arena_alloc(sizeof(Array<String>), "linked Array"); LIB("host write"); new (h.p) Array<String>(); h.m = "L"; }
  else if (t == L_NLIST || t == L_RONLIST) { h.p = arena_alloc(sizeof(Array<Array<String>>), "linked Array of Arrays"); LIB("host write"); new (h.p) Array<Array<String>>(); h.m = "L"; }
  else { h.p = arena_alloc(8, "linked variable"); LIB("host write"); memset(h.p, 0, 8); h.m = "0"; }
  return h;
}
static void host_free(Host &h) {
  if (!h.p) return;
  if (h.t == L_STR || h.t == L_ROSTR) { LIB("host destroy"); ((String *)h.p)->~String(); }
  if (h.t == L_LIST || h.t == L_ROLIST) { LIB("host destroy"); ((Array<String> *)h.p)->~Array<String>(); }
  if (h.t == L_NLIST || h.t == L_RONLIST) { LIB("host destroy"); typedef Array<Array<String>> AA; ((AA *)h.p)->~AA(); }
  arena_release(h.p); h.p = nullptr;
}
// a value the type can hold: canonical form and (for numbers) a spelling the script may use
static void draw_val(const Host &h, S *canon, S *spell) {
  auto num = [&](std::initializer_list<long long> l, int bits, bool u) {
    long long v = *(l.begin() + choose(l.size())); *canon = *spell = u ? std::to_string((unsigned long long)v) : std::to_string(v);
    if (v >= 0 && choose(4) == 3) { char b[40]; snprintf(b, 40, "0x%llx", v); *spell = b; } (void)bits; };
  if (choose(10) == 9) {                                  // counts as 0, or as empty
    static const int bits[] = {8, 8, 16, 16, 32, 32, 64, 64};
    if (h.t == L_ROI32) { *spell = misfit(32, false); *canon = "0"; return; }
    if (lt_int(h.t)) { *spell = misfit(bits[h.t - L_I8], (h.t - L_I8) % 2); *canon = "0"; return; }
    if (h.t == L_DBL || h.t == L_RODBL) { *spell = misfit(0, false); *canon = "0"; return; }
    if (h.t == L_BOOL) { *spell = misfit(1, false); *canon = "0"; return; }
    if (h.t == L_NLIST) { bool in = choose(2); *spell = in ? tlist({"x", "a {b", "y z"}) : "a {b"; *canon = in ? lflat({lflat({"x"}), lflat({}), lflat({"y", "z"})}) : lflat({}); return; }
    if (h.t == L_LIST) { *spell = choose(2) ? "a {b" : "{a}b c"; *canon = lflat({}); return; }
  }
  switch (h.t) {
  case L_NLIST: case L_RONLIST: { V o, f; int n = several(4); for (int i = 0; i < n; i++) { V v; int m = choose(3); for (int j = 0; j < m; j++) v.push_back(word()); o.push_back(tlist(v)); f.push_back(lflat(v)); } *canon = lflat(f); *spell = tlist(o); break; }
  case L_I8: num({5, 0, -1, 127, -128, 100}, 8, false); break; case L_U8: case L_ROU8: num({5, 0, 127, 128, 200, 255}, 8, true); break;
  case L_I16: num({5, 0, -1, 32767, -32768, 300}, 16, false); break; case L_U16: num({5, 0, 32767, 32768, 65535, 300}, 16, true); break;
  case L_I32: case L_ROI32: num({5, 0, -1, 2147483647LL, -2147483648LL, 70000}, 32, false); break; case L_U32: num({5, 0, 2147483647LL, 2147483648LL, 4294967295LL, 70000}, 32, true); break;
  case L_I64: case L_ROI64: num({5, 0, -1, INT64_MAX, INT64_MIN, 1LL << 40}, 64, false); break; case L_U64: num({5, 0, INT64_MAX, INT64_MIN, -1, 1LL << 40}, 64, true); break;
  case L_LIST: case L_ROLIST: { V v; int n = several(5); for (int i = 0; i < n; i++) v.push_back(word()); *canon = lflat(v); *spell = tlist(v); break; }
  case L_DBL: case L_RODBL: { static const double d[] = {0.5, 0, -2.25, 1e10, 3.125}; *canon = *spell = dstr(d[choose(5)]); break; }
  case L_BOOL: case L_ROBOOL: { static const char *const b[] = {"1", "0", "true", "no", "2"}; int k = choose(5); *spell = b[k]; *canon = k == 1 || k == 3 ? "0" : "1"; break; }
  case L_BUF: { *spell = word(); if (spell->size() != strlen(spell->c_str())) *spell = "no nul"; *canon = spell->substr(0, h.size - 1); break; }
  case L_ROCSTR: { S w = word(); if (w.size() > 150 || w.size() != strlen(w.c_str())) w = "long"; *canon = *spell = w; break; }
  default: *canon = *spell = word();
  }
}
static bool val_eq(int t, const S &script, const S &canon) { // does the script text denote the canonical value?
  if (t == L_NLIST || t == L_RONLIST) { V v, o; if (!split(script, &v)) return false; for (auto &x : v) { V i; if (!split(x, &i)) return false; o.push_back(lflat(i)); } return lflat(o) == canon; }
  if (t == L_LIST || t == L_ROLIST) { V v; return split(script, &v) && lflat(v) == canon; }
  if (t == L_DBL || t == L_RODBL) { char *e; double d = strtod(script.c_str(), &e); return script.size() && !*e && d == strtod(canon.c_str(), nullptr); }
  return script == canon;
}

// hooks: one function per (type, slot)
static int on_hook(int id, int t, const void *o, const void *n);
template <int T, int N> static void hook_fn(const void *o, const void *n) { Ret r; { Unlib u; r.thrown = on_hook(T * 2 + N, T, o, n); if (r.thrown == T_STRING) r.s = "the hook's complaint"; } do_throw(r); }
#define HK(T) {hook_fn<T, 0>, hook_fn<T, 1>}
static const bd::ScriptInterp::link_var_hook_t hooks[NLT][2] = {HK(0), HK(1), HK(2), HK(3), HK(4), HK(5), HK(6), HK(7), HK(8), HK(9), HK(10), HK(11), HK(12), HK(13), HK(14), HK(15), HK(16), HK(17), HK(18), HK(19), HK(20), HK(21), HK(22)};
static void link_real(ScriptInterpTCL *si, const String &n, Host &h, int hook) {
  LIB("linkVar");
  auto f = hook < 0 ? nullptr : hooks[h.t][hook];
  if (!p15 && !f && choose(2)) {                            // through the generic front end
    typedef bd::ScriptInterp I; bool done = true;
    switch (h.t) {
    case L_STR: I::linkVar(*si, n, *(String *)h.p); break; case L_I32: I::linkVar(*si, n, *(int32_t *)h.p); break; case L_U64: I::linkVar(*si, n, *(uint64_t *)h.p); break;
    case L_DBL: I::linkVar(*si, n, *(double *)h.p); break; case L_BOOL: I::linkVar(*si, n, *(bool *)h.p); break; case L_LIST: I::linkVar(*si, n, *(Array<String> *)h.p); break;
    case L_ROSTR: I::linkVar(*si, n, *(const String *)h.p); break; case L_ROI32: I::linkVar(*si, n, *(const int32_t *)h.p); break;
    default: done = false;
    }
    if (done) return;
  }
  switch (h.t) {
  case L_STR: si->linkVar(n, *(String *)h.p, f); break;
  case L_BUF: si->linkVar(n, (char *)h.p, h.size, f); break;
  case L_I8: si->linkVar(n, *(int8_t *)h.p, f); break; case L_U8: si->linkVar(n, *(uint8_t *)h.p, f); break;
  case L_I16: si->linkVar(n, *(int16_t *)h.p, f); break; case L_U16: si->linkVar(n, *(uint16_t *)h.p, f); break;
  case L_I32: si->linkVar(n, *(int32_t *)h.p, f); break; case L_U32: si->linkVar(n, *(uint32_t *)h.p, f); break;
  case L_I64: si->linkVar(n, *(int64_t *)h.p, f); break; case L_U64: si->linkVar(n, *(uint64_t *)h.p, f); break;
  case L_DBL: si->linkVar(n, *(double *)h.p, f); break; case L_BOOL: si->linkVar(n, *(bool *)h.p, f); break;
  case L_NLIST: si->linkVar(n, *(Array<Array<String>> *)h.p, f); break; case L_RONLIST: si->linkVar(n, *(const Array<Array<String>> *)h.p, f); break;
  case L_ROI64: si->linkVar(n, *(const int64_t *)h.p, f); break; case L_ROU8: si->linkVar(n, *(const uint8_t *)h.p, f); break; case L_ROBOOL: si->linkVar(n, *(const bool *)h.p, f); break;
  case L_LIST: si->linkVar(n, *(Array<String> *)h.p, f); break; case L_ROLIST: si->linkVar(n, *(const Array<String> *)h.p, f); break; case L_RODBL: si->linkVar(n, *(const double *)h.p, f); break;
  case L_ROSTR: si->linkVar(n, *(const String *)h.p, f); break; case L_ROI32: si->linkVar(n, *(const int32_t *)h.p, f); break;
  case L_ROCSTR: { const char *c = (const char *)h.p; si->linkVar(n, c, f); break; }
  }
}

// ---------------------------------------------------------------- a world: one interpreter and its model
struct Cmd { enum { HOST, PROC } k; int hid; size_t minp; S text, reg_as; const char *usage; };
struct Link { Host h; int hook; };
struct CB { ScriptCallbackerPtr cb; S target; };
struct World {
  ScriptInterpTCL *si = nullptr;
  std::map<S, Cmd> cmds;
  std::map<S, Link> links;
  std::map<S, S> plain;                                   // script variables that are not linked
  std::vector<Host> retired;                              // host variables whose link ended
  std::vector<CB> cbs;
  std::set<S> wrappers, aliases, sal; bool slave = false;
  int seq = 0, failures = 0, depth = 0;
};
struct Exp { bool may; int hid; V seen; int runs; Ret ret; };
struct HookExp { int id; S oldv, newv; int runs; S var; int thrown = 0; };
static World *W;                                           // C12, C13, C14: one world, one thread
static std::vector<Exp *> exps;
static std::vector<HookExp *> hexps;
static bool armed_now;                                     // an allocation failure is armed for the running write
static std::set<S> busy;                                   // variables whose hook is running

static const char *mm12() { return p18 ? "C18" : W->failures ? "C12,C13" : "C12"; }
static const char *mm14() { return p18 ? "C18" : W->failures ? "C14,C13" : "C14"; }
#define BAD(props, cls, ...) do { violate(props, cls, __VA_ARGS__); finish_run(); } while (0)

// Runs a script. Returns false if eval threw for lack of memory (armed failure).
static bool ev_script(const S &s, S *out, const char *op = "eval") {
  bool ok = true; S r;
  ev("%s {%s}", op, s.size() > 300 ? (s.substr(0, 300) + "...").c_str() : s.c_str());
  try { LIB(op); S l; { Unlib u; if (choose(3) == 2) l = "error {" + s + "} x"; }
    String sc = mk(l.empty() ? s : l); if (!l.empty()) { String part(sc(7, s.size())); sc = part; }
    String res = W->si->eval(sc); r = rd(res); }
  catch (std::bad_alloc &) { ok = false; if (!alloc_fail_fired()) BAD("*", "wrong-exception", "eval threw bad_alloc although no allocation failed"); }
  catch (...) { BAD(p13 ? "C13" : "*", "unwound", "an exception left eval: it went through the interpreter"); }
  if (ok) { ev("-> %s", show(r).c_str()); *out = r; } else ev("-> bad_alloc");
  return ok;
}
static S must(const S &s) { S r; uint32_t dummy = 0; (void)dummy; if (!ev_script(s, &r)) BAD("*", "wrong-exception", "eval threw"); return r; }

// A statement with a status: {status result}; detects an interpreter that was unwound.
struct Out { bool host_threw = false, error = false, not_begun = false; S res; };
static Out run_stmt(const S &body, bool raw, bool *raw_used) {
  Out o; S r;
  *raw_used = raw;
  if (raw) { o.host_threw = !ev_script(body, &r); o.res = r; return o; }
  int k = ++W->seq;
  S sc = "set ::_b " + std::to_string(k) + "; set ::_s [catch {" + body + "} ::_r]; set ::_e " + std::to_string(k) + "; list $::_s $::_r";
  bool ok = ev_script(sc, &r);
  V v;
  if (!ok) {
    disarm_alloc_fail();
    S b = must("set ::_b"), e = must("set ::_e");
    if (b != std::to_string(k)) { o.host_threw = o.not_begun = true; return o; }   // failed before the script started
    if (e != std::to_string(k)) BAD("C13", "unwound", "a failed allocation during {%s} left the script unfinished: the exception went through the interpreter", body.c_str());
    r = must("list $::_s $::_r"); o.host_threw = true;
  }
  if (!split(r, &v) || v.size() != 2) BAD("C12,C13,C14", "script-broken", "the script catch statement gave %s", show(r).c_str());
  o.error = v[0] != "0"; o.res = v[1];
  if (v[0] != "0" && v[0] != "1") BAD("C13", "status", "{%s} ended with script status %s", body.c_str(), v[0].c_str());
  return o;
}

static void nested_ops(bool hook);
static Ret draw_ret(int hid, bool may_throw) {
  Ret r; int g = hid / SLOTS;
  r.s = word(); static const long is[] = {7, 0, -1, 2147483647L, -2147483648L}; r.i = is[choose(5)];
  if (g == G_LL) { int n = several(4); for (int i = 0; i < n; i++) r.l.push_back(word()); }
  if (g == G_NEST) { int n = several(4); for (int i = 0; i < n; i++) { V v; int m = choose(3); for (int j = 0; j < m; j++) v.push_back(word()); r.n.push_back(v); } }
  if (may_throw) r.thrown = choose(3) ? T_NONE : 1 + choose(NTHROW - 1);
  return r;
}
static Ret (*call_override)(int, const V &, ScriptCallbackerPtr) = nullptr;
static Ret on_call(int hid, const V &args, ScriptCallbackerPtr cb) {
  if (call_override) return call_override(hid, args, cb);
  ev("handler %d.%d%s", hid / SLOTS, hid % SLOTS, show(args).c_str());
  if (exps.empty()) BAD(mm12(), "ran-unexpectedly", "handler %d ran with %s although the script called no command", hid, show(args).c_str());
  Exp &e = *exps.back();
  if (!e.may) BAD(e.hid >= 0 ? "C13" : mm12(), "ran-unexpectedly", "handler %d ran with %s although %s", hid, show(args).c_str(), e.hid >= 0 ? "the number of arguments was wrong" : "the command does not exist");
  if (++e.runs > 1) BAD("C12,C13", "ran-twice", "handler %d ran again for the same call", hid);
  if (hid != e.hid) BAD(mm12(), "wrong-handler", "handler %d ran instead of handler %d, the one registered last", hid, e.hid);
  if (args != e.seen) BAD(mm12(), "wrong-arguments", "the handler was given %s instead of %s", show(args).c_str(), show(e.seen).c_str());
  count("handler-calls");
  bool armed = p13 && choose(2);                          // stay under the armed failure, or do more work without it
  if (p18 && armed_now) armed = true;
  if (!armed) { if (p13 && disarm_alloc_fail()) armed = true; else if (p13) arm_alloc_fail(0); }
  if (cb) { Unlib u; W->cbs.push_back({cb, args[1]}); }
  if (!armed && W->depth < 3) { W->depth++; nested_ops(false); W->depth--; }
  e.ret = draw_ret(hid, p13);
  if (e.ret.thrown) { W->failures++; count("fault.handler-throws"); nontrivial(); }
  return e.ret;
}
static const char *const pool[] = {"c0", "c1", "c2", "nsq::q0", "d1"};
static S flat(S n) { for (char &c : n) if (c == ':') c = '_'; return n; }

static S ret_text(int hid, const Ret &r, bool *list) {
  *list = false;
  switch (hid / SLOTS) { case G_SS: case G_NUM: return r.s; case G_II: return std::to_string((int)r.i); case G_VS: case G_CB: return "";
  case G_N2: return r.i == -1 ? "18446744073709551615" : std::to_string((uint64_t)r.i); case G_CS: return r.i > 0 ? "1" : "0"; case G_DD: return dstr(r.i / 4.0); case G_U8: return std::to_string((uint8_t)r.i); default: *list = true; return ""; }
}
// calls a name in one of many ways; checks handler, arguments, result
static S call_form(const S &name, const V &words, int form, bool global_ns) {
  S a = words.empty() ? "" : " " + tlist(words);
  switch (form) {
  case 1: return "::" + name + a;
  case 2: return "namespace eval ::nsq {" + name + a + "}";
  case 3: return "set ::_c " + name + "; $::_c" + a;
  case 4: return "eval [list " + name + a + "]";
  case 5: return "w_" + flat(name) + a;
  case 6: return "al_" + flat(name) + a;
  case 7: return "apply {{n args} {$n {*}$args}} " + name + a;
  case 8: return "if 1 {" + name + a + "}";
  case 9: return "uplevel #0 [list " + name + a + "]";
  case 10: return "namespace eval ::nsq {::" + name + a + "}";
  case 11: return "{*}[list ::" + name + "]" + a;
  case 12: return "apply {{n args} {set v0 own; set v1 own; set errorInfo own; set r [$n {*}$args]; if {$v0 ne {own} || $v1 ne {own} || $errorInfo ne {own}} {error {the call changed variables of its caller}}; set r}} " + name + a;
  case 13: return "apply {{n args} {tailcall $n {*}$args}} " + name + a;
  case 14: return "coroutine ::co" + std::to_string(++W->seq) + " " + name + a;
  case 15: return "sl eval {x_" + flat(name) + a + "}";
  case 16: return "try {" + name + a + "} finally {list done}";
  default: return name + a;
  }
  (void)global_ns;
}
static void check_result(const Exp &e, const S &res, const S &body) {
  bool list; S want = ret_text(e.hid, e.ret, &list); V v;
  if (!list) { if (e.hid / SLOTS == G_DD ? strtod(res.c_str(), nullptr) != strtod(want.c_str(), nullptr) || res.empty() : res != want) BAD(mm12(), "wrong-result", "{%s} gave %s instead of the handler's result %s", body.c_str(), show(res).c_str(), show(want).c_str()); return; }
  if (!split(res, &v)) BAD(mm12(), "wrong-result", "{%s} gave %s, which is no list", body.c_str(), show(res).c_str());
  if (e.hid / SLOTS == G_LL) { if (v != e.ret.l) BAD(mm12(), "wrong-result", "{%s} gave the list %s instead of %s", body.c_str(), show(v).c_str(), show(e.ret.l).c_str()); return; }
  bool ok = v.size() == e.ret.n.size();
  for (size_t i = 0; ok && i < v.size(); i++) { V q; ok = split(v[i], &q) && q == e.ret.n[i]; }
  if (!ok) BAD(mm12(), "wrong-result", "{%s} gave the nested list %s", body.c_str(), show(v).c_str());
}
static void op_call(const S &name) {
  auto it = W->cmds.find(name);
  Exp e{false, -1, {}, 0, {}};
  S proc; V words; bool arity = false; const char *it_usage = it != W->cmds.end() ? it->second.usage : nullptr;
  if (it != W->cmds.end() && it->second.k == Cmd::HOST) {
    Cmd c = it->second; int g = c.hid / SLOTS; size_t mx = sig_n[g], n = c.minp + choose(mx - c.minp + 1);
    if (p13 && choose(4) == 3) { n = choose(mx + 3); }
    S cbc = "cbp"; if (choose(2)) cbc = pool[choose(3)]; if (choose(4) == 3) cbc = "cbp pre";
    Args a = draw_args(g, std::min(n, mx), cbc); while (a.words.size() < n) a.words.push_back("extra");
    words = a.words; e.hid = c.hid; e.seen = a.seen; e.may = n >= c.minp && n <= mx; arity = !e.may;
  } else if (it != W->cmds.end()) { proc = it->second.text; int n = choose(3); for (int i = 0; i < n; i++) words.push_back(word()); }
  else { int n = choose(2); for (int i = 0; i < n; i++) words.push_back(word()); }
  int form = choose(17);
  if (form == 15 && choose(4)) form = 12;
  if (form == 15) { if (!W->slave) { W->slave = true; must("interp create sl"); } if (W->sal.insert(name).second) must("interp alias sl x_" + flat(name) + " {} " + name); }
  if (form == 5 && W->wrappers.insert(name).second) must("proc w_" + flat(name) + " args {" + name + " {*}$args}");
  if (form == 6 && W->aliases.insert(name).second) must("interp alias {} al_" + flat(name) + " {} " + name);
  S body = call_form(name, words, form, true);
  bool raw = choose(2) && !p13, ru;
  exps.push_back(&e);
  if (p13) { uint32_t k = choose(3) == 2 ? 1 + choose(10) : 0; arm_alloc_fail(k, choose(4) == 3); }
  Out o = run_stmt(body, raw, &ru);
  bool fired = p13 && alloc_fail_fired();
  if (p13) { disarm_alloc_fail(); arm_alloc_fail(0); }
  exps.pop_back();
  if (fired) { W->failures++; ev("an allocation failed during the call"); }
  sig(std::hash<S>()(name + std::to_string(form)) + e.hid * 31 + e.runs);
  if (arity) { W->failures++; count("fault.arity"); }
  if (o.host_threw && !fired) BAD("C13", "wrong-exception", "eval threw although nothing failed");
  if (o.not_begun) { if (e.runs) BAD("C13", "ran-unexpectedly", "a handler ran although the script was not started"); return; }
  if (ru) {
    if (e.may) {
      if (!e.runs) BAD(mm12(), "not-run", "{%s} did not run its handler and gave %s", body.c_str(), show(o.res).c_str());
      check_result(e, o.res, body);
    } else if (!proc.empty()) { if (o.res != proc) BAD(mm12(), "wrong-result", "{%s}, a procedure of the script, gave %s", body.c_str(), show(o.res).c_str()); }
    else if (!arity && o.res.find("invalid command name") == S::npos) BAD(mm12(), "not-unknown", "{%s}: the command does not exist but the script saw %s", body.c_str(), show(o.res).c_str());
    return;
  }
  if (!e.may && !arity && proc.empty()) {
    if (!o.error || o.res.find("invalid command name") == S::npos) BAD(mm12(), "not-unknown", "{%s}: the command does not exist but the script saw status %d, %s", body.c_str(), o.error, show(o.res).c_str());
    return;
  }
  if (!proc.empty()) { if (o.error || o.res != proc) BAD(mm12(), "wrong-result", "{%s}, a procedure of the script, gave %s", body.c_str(), show(o.res).c_str()); return; }
  if (arity) {
    if (!o.error) BAD("C13", "arity-accepted", "{%s} has a wrong number of arguments but was no script error", body.c_str());
    if (fired) return;
    if (o.res.find("Wrong # args") == S::npos || (it_usage && o.res.find(it_usage) == S::npos)) BAD("C13", "arity-message", "{%s} has a wrong number of arguments but the script was told %s", body.c_str(), show(o.res).c_str());
    return;
  }
  if (e.runs && e.ret.thrown) {
    if (!o.error) BAD("C13", "exception-lost", "{%s}: the handler threw but the script saw success", body.c_str());
    if (e.ret.thrown == T_STRING && !fired && o.res != e.ret.s) BAD("C13", "message", "{%s}: the handler threw the String %s but the script saw %s", body.c_str(), show(e.ret.s).c_str(), show(o.res).c_str());
    return;
  }
  if (fired) { if (!o.error && !e.runs) BAD("C13", "failure-lost", "{%s} reported success after a failed allocation without running the handler", body.c_str()); if (!o.error) check_result(e, o.res, body); return; }
  if (o.error) BAD(mm12(), "call-failed", "{%s} failed: %s", body.c_str(), show(o.res).c_str());
  if (!e.runs) BAD(mm12(), "not-run", "{%s} did not run its handler and gave %s", body.c_str(), show(o.res).c_str());
  check_result(e, o.res, body);
}
// C18: a host call during which memory may run out.  False: it did, and the call must have changed nothing.
template <class F> static bool api(const char *what, F f) {
  if (!p18) { f(); return true; }
  bool threw = false; uint32_t k = choose(2) ? 1 + choose(8) : 0;
  if (k) arm_alloc_fail(k, choose(3) == 2);
  try { f(); }
  catch (std::bad_alloc &) { threw = true; }
  catch (...) { BAD("C18", "wrong-exception", "%s threw something other than bad_alloc", what); }
  bool fired = k && disarm_alloc_fail(); if (k) arm_alloc_fail(0);
  if (threw && !fired) BAD("C18", "wrong-exception", "%s threw bad_alloc although no allocation failed", what);
  if (threw) { ev("%s ran out of memory", what); count("fault.host-call-alloc"); nontrivial(); }
  return !threw;
}
// a name as a fresh String, or as a part of a longer one that lives on
static String long_name;
static String host_name(const S &nm) {
  S n; { Unlib u; n = choose(5) == 4 ? "::" + nm : nm; }
  if (choose(p18 ? 2 : 4) == 0) return mk(n);
  S l; { Unlib u; l = "x" + n + "yz"; } long_name = mk(l); return String(long_name(1, n.size()));
}
static int draw_hid() { static const int w[] = {G_SS, G_SS, G_II, G_VS, G_LL, G_NUM, G_CB, G_NEST, G_N2, G_CS, G_DD, G_U8}; return w[choose(12)] * SLOTS + choose(SLOTS); }
static void op_create(const S &name) {
  Cmd c{Cmd::HOST, draw_hid(), 0, "", name, nullptr}; size_t mx = sig_n[c.hid / SLOTS];
  bool all = choose(2); c.minp = all ? mx : choose(mx + 1);
  ev("createCommand %s handler %d min %zu", name.c_str(), c.hid, c.minp);
  const char *usage = c.usage = choose(2) ? "use it well" : nullptr;
  { LIB("createCommand"); String n = host_name(name); Unlib u; if (!api("createCommand", [&] { reg(W->si, n, c.hid, usage, all ? size_t(-1) : c.minp); })) return; }
  W->cmds[name] = c;
}
static void op_delete(const S &name0) {
  S name = name0; if (choose(8) == 7 && W->cmds.count("nsq::q0")) name = "q0";     // not its name, from whatever namespace the caller was called
  auto it = W->cmds.find(name);
  bool script = it != W->cmds.end() && it->second.k != Cmd::HOST;          // a procedure of the script stays
  if (it != W->cmds.end() && !script && it->second.reg_as != name) return;           // renamed by the script: not what the host knows it as
  if (it == W->cmds.end()) for (auto &c : W->cmds) if (c.second.k == Cmd::HOST && c.second.reg_as == name) return;
  ev("deleteCommand %s", name.c_str());
  { LIB("deleteCommand"); String n = host_name(name); Unlib u; if (!api("deleteCommand", [&] { LIB("deleteCommand"); W->si->deleteCommand(n); })) return; }
  if (!script) W->cmds.erase(name);
}
static void op_rename() {
  S a = pool[choose(5)], b = choose(5) == 4 ? S() : pool[choose(5)];
  if (a == b) return;
  bool ok = W->cmds.count(a) && (b.empty() || !W->cmds.count(b)); bool ru;
  Out o = run_stmt("rename " + a + " " + tq(b), false, &ru);
  if (o.error == ok) BAD(mm12(), "command-set", "renaming %s to %s %s", a.c_str(), show(b).c_str(), o.error ? ("failed: " + o.res).c_str() : "worked although it should not");
  if (!ok) return;
  if (!b.empty()) W->cmds[b] = W->cmds[a];
  W->cmds.erase(a);
}
static void op_proc(const S &name) {
  S t = "P" + std::to_string(++W->seq);
  must("proc " + name + " args {return " + t + "}");
  W->cmds[name] = Cmd{Cmd::PROC, -1, 0, t, "", nullptr};
}
static void op_callback() {
  if (W->cbs.empty()) return;
  CB c = W->cbs[choose(W->cbs.size())];
  V words; Exp e{false, -1, {}, 0, {}}; bool proc = c.target == "cbp" || c.target == "cbp pre"; Cmd cmd{};
  if (!proc) {
    auto it = W->cmds.find(c.target); if (it == W->cmds.end() || it->second.k != Cmd::HOST) return;
    cmd = it->second; int g = cmd.hid / SLOTS; size_t mx = sig_n[g], n = cmd.minp + choose(mx - cmd.minp + 1);
    Args a = draw_args(g, n, "cbp"); words = a.words; e = Exp{true, cmd.hid, a.seen, 0, {}};
  } else { int n = several(4); for (int i = 0; i < n; i++) words.push_back(word()); }
  ev("callback %s%s", c.target.c_str(), show(words).c_str());
  S r; bool threw = false;
  exps.push_back(&e);
  uint32_t fk = p18 && choose(2) ? 1 + choose(10) : 0; bool fired = false;
  Array<String> *pp; { LIB("Array"); pp = new Array<String>(); for (auto &w : words) *pp << mk(w); }
  bool was_armed = armed_now; if (fk) { arm_alloc_fail(fk, choose(3) == 2); armed_now = true; }
  try { LIB("ScriptCallbacker::call"); String s = c.cb->call(*pp); r = rd(s); }
  catch (std::bad_alloc &) { threw = true; }
  catch (...) { BAD("C12,C13,C18", "callback-threw", "calling back into the script threw"); }
  armed_now = was_armed;
  if (fk) { fired = disarm_alloc_fail(); arm_alloc_fail(0); }
  { LIB("~Array"); delete pp; }
  exps.pop_back();
  if (fired) { ev("the callback ran out of memory"); count("fault.host-call-alloc"); nontrivial(); return; }
  ev("-> %s", show(r).c_str());
  if (threw) BAD(mm12(), "callback-threw", "calling back into the script threw");
  if (proc) { V v, want = words; if (c.target == "cbp pre") want.insert(want.begin(), "pre"); if (!split(r, &v) || v != want) BAD(mm12(), "callback-arguments", "the script callback was given %s instead of %s", show(r).c_str(), show(want).c_str()); return; }
  if (!e.runs) BAD(mm12(), "not-run", "the callback did not run its handler and gave %s", show(r).c_str());
  if (e.ret.thrown) return;
  check_result(e, r, "callback " + c.target);
}

// ---------------------------------------------------------------- C14 operations
static const char *const vars[] = {"v0", "v1", "ar(k)", "nsq::nv"};
static int on_hook_model(int id, int t, const void *o, const void *n) {
  if (hexps.empty()) BAD(mm14(), "hook-unexpected", "a hook ran although no linked variable was written");
  HookExp &h = *hexps.back();
  size_t size = W->links.count(h.var) ? W->links[h.var].h.size : 0;
  S ov = val_of(t, o, size), nv = val_of(t, n, size);
  ev("hook %d old %s new %s", id, show(ov).c_str(), show(nv).c_str());
  if (h.id < 0) BAD(mm14(), "hook-unexpected", "a hook ran for %s, which has none or was not written", h.var.c_str());
  if (++h.runs > 1) BAD(mm14(), "hook-twice", "the hook of %s ran twice for one write", h.var.c_str());
  if (id != h.id) BAD(mm14(), "hook-wrong", "the write of %s ran hook %d instead of %d", h.var.c_str(), id, h.id);
  if (ov != h.oldv || nv != h.newv) BAD(mm14(), "hook-values", "the hook of %s was given %s -> %s instead of %s -> %s", h.var.c_str(), show(ov).c_str(), show(nv).c_str(), show(h.oldv).c_str(), show(h.newv).c_str());
  count("hook-calls");
  S var = h.var;
  if (W->links.count(var)) W->links[var].h.m = h.newv;
  if (!armed_now && W->depth < 2 && choose(3) == 2) { busy.insert(var); W->depth++; nested_ops(true); W->depth--; busy.erase(var);
    // the old value is the hook's to look at until it returns, whatever was written meanwhile
    S again = val_of(t, o, size); if (again != ov) BAD(mm14(), "hook-values", "the old value %s given to the hook of %s became %s while it ran", show(ov).c_str(), var.c_str(), show(again).c_str()); }
  if (p13 && choose(3) == 2) { h.thrown = 1 + choose(NTHROW - 1); W->failures++; count("fault.hook-throws"); nontrivial(); }
  return h.thrown;
}
static int (*hook_override)(int, int, const void *, const void *) = nullptr;
static int on_hook(int id, int t, const void *o, const void *n) { if (hook_override) return hook_override(id, t, o, n); return on_hook_model(id, t, o, n); }
static void check_host(const S &name, Link &l, const char *after) {
  S v = val_of(l.h.t, l.h.p, l.h.size);
  if (v != l.h.m) BAD(mm14(), "host-value", "after %s the %s linked as %s holds %s instead of %s", after, lt_name[l.h.t], name.c_str(), show(v).c_str(), show(l.h.m).c_str());
}
static void check_hosts(const char *after) {
  for (auto &l : W->links) check_host(l.first, l.second, after);
  for (auto &h : W->retired) if (h.p) { S v = val_of(h.t, h.p, h.size); if (v != h.m) BAD(mm14(), "old-host", "after %s a %s that is no longer linked changed from %s to %s", after, lt_name[h.t], show(h.m).c_str(), show(v).c_str()); }
}
static void retire(const S &name) {
  auto it = W->links.find(name); if (it == W->links.end()) return;
  Host h = it->second.h; W->links.erase(it);
  S v = val_of(h.t, h.p, h.size);
  if (v != h.m) BAD(mm14(), "host-value", "ending the link %s changed the host variable from %s to %s", name.c_str(), show(h.m).c_str(), show(v).c_str());
  if (choose(2)) host_free(h); else W->retired.push_back(h);
}
static void op_link(const S &name) {
  Host h = host_new(choose(NLT)); S c, s; draw_val(h, &c, &s); host_set(h, c);
  int hook = (int)choose(3) - 1;
  ev("linkVar %s %s = %s hook %d", name.c_str(), lt_name[h.t], show(c).c_str(), hook);
  HookExp he{-1, "", "", 0, name}; hexps.push_back(&he);
  bool done; { LIB("linkVar"); String n = host_name(name); Unlib u; done = api("linkVar", [&] { link_real(W->si, n, h, hook); }); }
  hexps.pop_back();
  if (!done) { host_free(h); return; }
  retire(name);
  W->plain.erase(name);
  W->links[name] = Link{h, hook};
  check_host(name, W->links[name], "linking it");
}
static void op_unlink(const S &name) {
  ev("unlinkVar %s", name.c_str());
  HookExp he{-1, "", "", 0, name}; hexps.push_back(&he);
  bool done; { LIB("unlinkVar"); String n = host_name(name); Unlib u; done = api("unlinkVar", [&] { LIB("unlinkVar"); W->si->unlinkVar(n); }); }
  hexps.pop_back();
  if (!done) return;
  retire(name); W->plain.erase(name);
}
static S var_form(const S &name, int form, bool write, const S &val) {
  S v = write ? " " + tq(val) : "";
  switch (form) {
  case 1: return "set ::" + name + v;
  case 2: return "namespace eval ::nsq {set ::" + name + v + "}";
  case 3: return "apply {{} {global " + name.substr(0, name.find('(')) + "; set " + name + v + "}}";
  case 4: return "apply {{} {upvar #0 " + name + " al; set al" + v + "}}";
  case 5: return "apply {{} {upvar 1 " + name + " loc; set loc" + v + "}}";
  case 6: return "uplevel #0 {set " + name + v + "}";
  case 7: return "namespace eval ::nsq {namespace upvar :: " + name + " zz; set zz" + v + "}";
  case 8: return write ? "foreach ::" + name + " [list" + v + "] {}; set ::" + name : "return -level 0 $::" + name;
  case 9: return write ? "lassign [list" + v + "] " + name + "; set " + name : "subst {$" + name + "}";
  case 11: return name[0] != 'a' ? write ? "apply {{n v} {upvar 1 $n z; set z $v}} " + name + v : "apply {n {set ::$n}} " + name : write ? "array set ar [list k" + v + "]" : "lindex [array get ar k] 1";
  case 10: return write ? "catch {return -level 0" + v + "} " + name + "; set " + name : "if 1 {set " + name + "}";
  default: return "set " + name + v;
  }
}
static void op_read(const S &name) {
  if (busy.count(name)) return;
  bool ru; int form = choose(12);
  auto it = W->links.find(name);
  S want; bool exists; int t = -1;
  if (it != W->links.end()) { exists = true; want = it->second.h.m; t = it->second.h.t; }
  else { exists = W->plain.count(name); if (exists) want = W->plain[name]; }
  bool faults = exists && t >= 0 && choose(5) == 4;
  if (form == 11 && (!exists || faults)) form = 0;           // array get leaves out what it cannot read
  if (faults) { uint32_t k = 1 + choose(4); arm_alloc_fail(k, choose(3) == 2); }
  Out o = run_stmt(var_form(name, form, false, ""), faults ? false : choose(2), &ru);
  bool fired = faults && alloc_fail_fired(); disarm_alloc_fail(); arm_alloc_fail(0);
  sig(form * 7 + t);
  if (o.not_begun) { check_hosts("a read that ran out of memory"); return; }
  if (fired) { count("fault.link-alloc"); if (o.error) { check_hosts("a read that ran out of memory"); return; } }
  if (!exists) { if (!(ru ? o.res.find("no such ") != S::npos : o.error)) BAD(mm14(), "still-there", "%s is not linked or set but reads as %s", name.c_str(), show(o.res).c_str()); return; }
  if (o.error) BAD(mm14(), "read-failed", "reading the linked variable %s failed: %s", name.c_str(), show(o.res).c_str());
  if (!val_eq(t, o.res, want)) BAD(mm14(), "read-value", "the script reads %s as %s but the host's %s is %s", name.c_str(), show(o.res).c_str(), t >= 0 ? lt_name[t] : "nothing; it was set to", show(want).c_str());
}
static void op_write(const S &name) {
  if (busy.count(name)) return;
  auto it = W->links.find(name);
  bool ru; int form = choose(12);
  if (it == W->links.end()) {
    S v = word(); Out o = run_stmt(var_form(name, form, true, v), false, &ru);
    if (o.error) BAD(mm14(), "write-failed", "setting the unlinked variable %s failed: %s", name.c_str(), show(o.res).c_str());
    W->plain[name] = v; return;
  }
  Link l = it->second; S c, s; draw_val(l.h, &c, &s);
  bool ro = lt_ro(l.h.t);
  S body = var_form(name, form, true, s);
  if ((l.h.t == L_STR || l.h.t == L_LIST) && choose(4) == 3) {
    S w = word();                                           // Tcl's append does not ask for the current value: read it first
    if (l.h.t == L_STR) { c = l.h.m + w; body = "set ::" + name + "; append " + (form & 1 ? "::" : "") + name + " " + tq(w); }
    else { c = l.h.m + std::to_string(w.size()) + ":" + w; body = S("lappend ") + (form & 1 ? "::" : "") + name + " " + tq(w); }
    form = 0; count("appends");
  }
  if (lt_int(l.h.t) && choose(4) == 3) {
    int d = choose(3); __int128 v = l.h.t == L_U64 ? (__int128)std::stoull(l.h.m) : (__int128)std::stoll(l.h.m); v += d;
    static const __int128 mx[] = {127, 255, 32767, 65535, 2147483647, 4294967295LL, INT64_MAX, (__int128)UINT64_MAX};
    if (v <= mx[l.h.t - L_I8]) { c = l.h.t == L_U64 ? std::to_string((unsigned long long)v) : std::to_string((long long)v); body = form & 1 ? "incr ::" + name + " " + std::to_string(d) : "incr " + name + " " + std::to_string(d); }
  }
  HookExp he{ro || l.hook < 0 ? -1 : l.h.t * 2 + l.hook, l.h.m, c, 0, name};
  bool faults = choose(5) == 4 && form < 8;                 // the other forms read the variable again afterwards
  std::string tail;                                        // bytes of a buffer after what is written
  if (l.h.t == L_BUF) tail.assign((char *)l.h.p, l.h.size);
  if (!ro && he.id < 0) it->second.h.m = c;
  hexps.push_back(&he);
  bool was = armed_now; armed_now = faults;
  if (faults) { uint32_t k = 1 + choose(6); arm_alloc_fail(k, choose(3) == 2); }
  Out o = run_stmt(body, false, &ru);
  armed_now = was;
  bool fired = faults && alloc_fail_fired(); disarm_alloc_fail(); arm_alloc_fail(0);
  hexps.pop_back();
  sig(form * 13 + l.h.t + 100);
  it = W->links.find(name);
  if (o.not_begun) { if (he.runs) BAD(mm14(), "hook-unexpected", "a hook ran although the script was not started"); it->second.h.m = l.h.m; check_hosts("a write that was not started"); return; }
  bool same = it != W->links.end() && it->second.h.p == l.h.p;   // a hook may have ended the link
  if (fired) {
    count("fault.link-alloc"); ev("an allocation failed during the write");
    if (o.error && !he.runs && same) {                     // refused: nothing may have changed
      S v = val_of(l.h.t, l.h.p, l.h.size); it->second.h.m = l.h.m;
      if (v != l.h.m && !(v == c)) BAD(mm14(), "host-value", "a write of %s that ran out of memory left %s instead of %s", name.c_str(), show(v).c_str(), show(l.h.m).c_str());
      if (v == c && v != l.h.m) BAD(mm14(), "host-value", "a write of %s was refused for lack of memory but the host variable changed", name.c_str());
      return;
    }
  }
  if (ro) { if (!o.error && form != 10) BAD(mm14(), "read-only", "writing the read-only variable %s was accepted", name.c_str()); check_hosts("a write to a read-only variable"); return; }
  if (he.thrown && !o.error && form != 10) BAD("C13", "exception-lost", "{%s}: the hook threw but the script saw success", body.c_str());
  if (!same) return;
  if (he.thrown) { check_hosts("a write whose hook threw"); return; }
  if (o.error) BAD(mm14(), "write-failed", "writing %s to the %s linked as %s failed: %s", show(s).c_str(), lt_name[l.h.t], name.c_str(), show(o.res).c_str());
  if (he.id >= 0 && !he.runs) BAD(mm14(), "hook-missed", "{%s} wrote %s but its hook did not run", body.c_str(), name.c_str());
  check_hosts("a write by the script");
  if (l.h.t == L_BUF && he.id < 0) { LIB("host read"); const char *b = (const char *)l.h.p; for (size_t i = c.size() + 1; i < l.h.size; i++) if (b[i] && b[i] != tail[i]) { Unlib u; BAD(mm14(), "buffer-tail", "writing %s put other bytes than the text and its end into the buffer linked as %s", show(c).c_str(), name.c_str()); } }
}
static void op_hostset(const S &name) {
  auto it = W->links.find(name); if (it == W->links.end() || busy.count(name)) return;
  S c, s; draw_val(it->second.h, &c, &s); ev("host %s = %s", name.c_str(), show(c).c_str()); host_set(it->second.h, c);
}
static void op_unset(const S &name) {
  if (busy.count(name)) return;
  bool ex = W->links.count(name) || W->plain.count(name), ru; int f = choose(4);
  Out o = run_stmt(f == 3 && ex && name == "ar(k)" ? S("unset ar") : f < 2 ? "unset " + name : "unset ::" + name, false, &ru);
  if (o.error == ex) BAD(mm14(), "unset", "unsetting %s %s", name.c_str(), o.error ? o.res.c_str() : "worked although it does not exist");
  retire(name); W->plain.erase(name);
}

// ---------------------------------------------------------------- histories
static void one_op(bool nested, bool hook) {
  if (p14 || (p18 && choose(2))) {
    S v = vars[choose(4)];
    switch (choose(12)) {
    case 0: case 1: op_read(v); break;
    case 2: case 3: case 4: op_write(v); break;
    case 5: op_hostset(v); break;
    case 6: if (!hook || !busy.count(v)) op_link(v); else if (choose(2)) op_link(v); break;
    case 7: op_unlink(v); break;
    case 8: if (choose(3) == 0) op_unset(v); break;
    case 9: check_hosts("other operations"); break;
    default: if (!hook && W->cmds.count("c0")) op_call("c0"); else op_read(v);
    }
    return;
  }
  S n = pool[choose(5)];
  switch (choose(p13 ? 13 : 10)) {
  case 0: case 1: case 2: op_call(n); break;
  case 3: if (!nested || p12 || p18) op_create(pool[choose(4)]); else op_call(n); break;
  case 4: if (!nested || p12 || p18) op_delete(n); else op_call(n); break;
  case 5: if (!nested || p12 || p18) op_rename(); else op_call(n); break;
  case 6: if (p12 && choose(3) == 2) op_proc(n); else op_call(n); break;
  case 7: op_callback(); break;
  case 8: { S w = word(); S r = must("set ::plainvar " + tq(w)); if (r != w) BAD(mm12(), "eval-result", "set gave %s instead of %s", show(r).c_str(), show(w).c_str()); break; }
  default: if (p13) { S v = vars[choose(2)]; if (W->links.count(v)) { if (choose(2)) op_read(v); else op_write(v); } else op_link(v); } else op_call(n);
  }
}
static ScriptInterpTCL *prepared;
static void setup_interp(ScriptInterpTCL *si);
static void nested_ops(bool hook) {
  int n = choose(3);
  for (int i = 0; i < n; i++) one_op(true, hook);
  if (n) count("nested-ops", n);
}
static void setup_interp(ScriptInterpTCL *si) { LIB("eval"); si->eval(String("set ::auto_noload 1; set ::auto_noexec 1; namespace eval ::nsq {}; proc cbp args {return $args}; set ::plainvar 0; set ::_b 0; set ::_e 0")); }
static void history() {
  World w; W = &w;
  if (choose(4) == 3) { LIB("ScriptInterpTCL()"); w.si = new ScriptInterpTCL(); Unlib u; setup_interp(w.si); } else w.si = prepared;
  if (!p14) { int n = 1 + choose(3); for (int i = 0; i < n; i++) op_create(pool[i]); } else if (choose(3) == 2) op_create("c0");
  if (p14 || p18) op_link("v0");
  int n = 3 + choose(14);
  for (int i = 0; i < n; i++) one_op(false, false);
  // everything still works: every name, every variable
  ev("-- final probe");
  if (!p14) for (auto p : pool) {
    S r = must(S("llength [info commands ::") + p + "]");
    if ((r == "1") != (bool)w.cmds.count(p)) BAD(mm12(), "command-set", "the command %s %s", p, r == "1" ? "exists although it was deleted" : "is gone although it was not deleted");
    op_call(p);
  }
  for (auto v : vars) op_read(v);
  check_hosts("the operations of this run");
  w.cbs.clear(); { LIB("~String"); long_name = String(); }
  nontrivial();
  { static HookExp he{-1, "", "", 0, "destruction"}; Exp e{false, -1, {}, 0, {}}; exps.push_back(&e); hexps.push_back(&he); LIB("~ScriptInterpTCL"); delete w.si; }
  check_hosts("destroying the interpreter");
  for (auto &l : w.links) host_free(l.second.h);
  for (auto &h : w.retired) host_free(h);
  exps.clear(); hexps.clear();
  W = nullptr;
  check_held("C12,C13,C14,C15,C18");
  std::string det;
  if (size_t k = leak_check(&det)) violate("C12,C13,C14,C15,C18", "memory-leak", "%zu blocks are still allocated after the interpreter was destroyed: %s", k, det.c_str());
  finish_run();
}

// ---------------------------------------------------------------- C17: eval reports what the script did
static int bad_env;                                        // what the script did to its own interpreter
static void ev_op();
struct Scr { S text, ok, msg; bool err; };
static Scr draw_scr() {
  S w = word(); int k = ++W->seq; S n = std::to_string(k);
  switch (choose(22)) {
  case 16: return {"return -code error " + tq("E" + n + w), "", "E" + n + w, true};
  case 17: return {"throw {A B} " + tq("E" + n), "", "E" + n, true};
  case 18: return {"apply {m {return -code error $m}} " + tq("E" + n + w), "", "E" + n + w, true};
  case 19: return {S("string length {a\0", 17) + n + "}", std::to_string(2 + n.size()), "", false};
  case 20: return {S("string length {a\0bc}; error E", 29) + n, "", "E" + n, true};
  case 21: return {"try {hh " + tq(w) + "} finally {error " + tq("E" + n) + "}", "", "E" + n, true};
  case 0: return {"list " + tq(w) + " " + n, "", "", false};
  case 1: return {"return " + tq(w), w, "", false};
  case 2: return {"error " + tq("E" + n + w), "", "E" + n + w, true};
  case 3: return {"nosuch" + n + " " + tq(w), "", "invalid command name \"nosuch" + n + "\"", true};
  case 4: return {"div0 " + n, "", "divide by zero", true};
  case 5: return {"expr {" + n + "/0}", "", "divide by zero", true};
  case 6: return {"format %s " + tq(w), w, "", false};
  case 7: return {"catch {error " + tq(w) + "} m; format %s $m", w, "", false};
  case 8: return {"hh " + tq(w), w, "", false};
  case 9: return {"hh " + tq(w) + "; error " + tq("E" + n), "", "E" + n, true};
  case 10: return {"hh " + tq(w) + "; expr {1/0}", "", "divide by zero", true};
  case 12: return {"apply {w {lassign {own own} errorInfo errorCode; hh $w}} " + tq(w), w, "", false};
  case 13: return {"apply {w {lassign own errorInfo; hh $w; error E" + n + "}} " + tq(w), "", "E" + n, true};
  case 14: return {"namespace eval ::nsq {variable errorInfo mine; hh " + tq(w) + "; error " + tq("E" + n) + "}", "", "E" + n, true};
  case 11: return {"deep " + std::to_string(choose(40)) + " " + tq("E" + n), "", "E" + n, true};
  default: return {"if {[string length " + tq(w) + "] >= 0} {return " + n + "}; error no", n, "", false};
  }
}
static void ev_op() {
  if (choose(6) == 5) {                                    // the script damages its own interpreter
    static const char *const env[] = {"unset -nocomplain ::errorInfo", "proc ::set args {error {no set here}}", "rename ::set {}", "unset -nocomplain ::errorInfo; array set ::errorInfo {a b}", "proc ::errorInfo args {}", "proc ::return args {}",
      "set ::errorInfo stale", "trace add variable ::errorInfo read {error tr}", "namespace eval ::errorInfo {}", "unset -nocomplain ::errorCode"};
    int e = choose(10);
    if (e == 5) e = 0;
    if (bad_env & (1 << e)) return;
    if ((e == 1 || e == 2) && (bad_env & 6)) return;
    bad_env |= 1 << e; count("fault.script-damages-interpreter"); nontrivial();
    S r; ev_script(env[e], &r); return;
  }
  Scr sc = draw_scr();
  if (sc.text.compare(0, 5, "list ") == 0) { V v; split(sc.text.substr(5), &v); Tcl_Obj *o = Tcl_NewListObj(0, nullptr); Tcl_IncrRefCount(o); for (auto &x : v) Tcl_ListObjAppendElement(nullptr, o, Tcl_NewStringObj(denorm(x).data(), denorm(x).size())); sc.ok = norm(Tcl_GetString(o)); Tcl_DecrRefCount(o); }
  bool faults = !W->depth && choose(5) == 4, fired = false; S r;
  if (faults) { uint32_t k = 1 + choose(4); arm_alloc_fail(k, false); }
  bool was = armed_now; armed_now = faults;
  bool ok = ev_script(sc.text, &r);
  armed_now = was;
  if (faults) { fired = disarm_alloc_fail(); arm_alloc_fail(0); }
  sig(std::hash<S>()(sc.text) + W->depth);
  if (!ok) { if (!fired) BAD("C17", "wrong-exception", "eval threw although no allocation failed"); count("fault.eval-alloc"); return; }
  if (fired && sc.text.find("hh ") != S::npos) return;   // the handler itself failed
  if (!sc.err) { if (r != sc.ok) BAD("C17", "wrong-result", "eval {%s} at depth %d returned %s instead of the script's result %s", sc.text.c_str(), W->depth, show(r).c_str(), show(sc.ok).c_str()); return; }
  count("evals-failing");
  if (bad_env & 128) { if (r.compare(0, sc.msg.size(), sc.msg) && r.find("tr") == S::npos) BAD("C17", "wrong-error", "eval {%s} at depth %d failed with %s but returned %s", sc.text.c_str(), W->depth, show(sc.msg).c_str(), show(r).c_str()); return; }
  if (r.compare(0, sc.msg.size(), sc.msg)) BAD("C17", "wrong-error", "eval {%s} at depth %d failed with %s but returned %s", sc.text.c_str(), W->depth, show(sc.msg).c_str(), show(r).c_str());
}
static Ret ev_call(int hid, const V &args, ScriptCallbackerPtr) {
  (void)hid; Ret r; r.s = args[0];
  if (!armed_now && W->depth < 4) { W->depth++; int n = choose(4); for (int i = 0; i < n; i++) ev_op(); W->depth--; if (n) count("nested-evals", n); }
  return r;
}
static int ev_hook(int, int, const void *, const void *) { return 0; }
static void evals() {
  World w; W = &w; bad_env = 0; armed_now = false;
  call_override = ev_call; hook_override = ev_hook;
  if (choose(4) == 3) { LIB("ScriptInterpTCL()"); w.si = new ScriptInterpTCL(); Unlib u; setup_interp(w.si); } else w.si = prepared;
  reg(w.si, S("hh"), G_SS * SLOTS, nullptr, 1);
  { S r; ev_script("rename ::unknown {}; proc div0 n {expr {$n/0}}; proc deep {n m} {if {$n > 0} {deep [expr {$n-1}] $m} else {error $m}}", &r); }
  int n = 3 + choose(12);
  for (int i = 0; i < n; i++) ev_op();
  nontrivial();
  { LIB("~ScriptInterpTCL"); delete w.si; }
  W = nullptr;
  check_held("C17");
  std::string det;
  if (size_t k = leak_check(&det)) violate("C17", "memory-leak", "%zu blocks are still allocated after the interpreter was destroyed: %s", k, det.c_str());
  finish_run();
}
static void isolation();
static void loading();
static void run() {
  p12 = selected("C12"); p13 = selected("C13"); p14 = selected("C14"); p15 = selected("C15"); p16 = selected("C16"); p17 = selected("C17"); p18 = selected("C18");
  set_race_props("C15");
  fs::reset(); fs::cfg.strict = false; fs::cfg.fd_base = 1000;
  draw_sched(); max_steps = 20000000; brief = longs = 0;
  holding = choose(2); nheld = 0;
  if (p15) isolation(); else if (p16) loading(); else if (p17) evals(); else history();
}

// ---------------------------------------------------------------- C15: isolation
// Each world runs a fixed program on its own interpreter.  What it observes alone is what it must observe
// with the others around it, interleaved in one thread (also from inside handlers and hooks) or one thread each.
enum { S_CREATE, S_CALL, S_DELETE, S_LINK, S_HOST, S_READ, S_WRITE, S_UNLINK, S_TRACE, S_EVAL, S_CBCALL, S_LOAD, S_DESTROY };
struct Step { int k; S name, a, b; int hid = 0, t = 0, hook = -1; size_t size = 0, minp = 0; V words; };
struct IW {
  int id = 0; std::vector<Step> prog; size_t pc = 0; ScriptInterpTCL *si = nullptr; std::map<S, Link> links; V log; bool dying = false, active = false; size_t cur_size = 0;
  ScriptCallbackerPtr cb; bool done() const { return pc >= prog.size(); }
};
static std::vector<IW> *iws;
static thread_local IW *here;
static bool may_switch;
static void put(const S &x) { here->log.push_back(x); ev("world %d: %s", here->id, x.c_str()); }
static void step(IW &w);
static void others() {                                     // let other worlds run from inside this one
  if (!may_switch || choose(3) != 2) return;
  IW *me = here; int n = 1 + choose(3);
  for (int i = 0; i < n; i++) {
    std::vector<IW *> c; for (auto &w : *iws) if (!w.active && !w.done()) c.push_back(&w);
    if (c.empty()) break;
    count("nested-world-steps"); step(*c[choose(c.size())]);
  }
  here = me;
}
static Ret i_call(int hid, const V &args, ScriptCallbackerPtr cb) {
  if (!here) { violate("C15", "stray-handler", "handler %d ran although this thread uses no interpreter", hid); finish_run(); }
  if (here->dying) { violate("C15", "handler-at-destruction", "handler %d ran while its interpreter was destroyed", hid); finish_run(); }
  put("handler " + std::to_string(hid) + show(args)); count("handler-calls");
  if (cb) here->cb = cb;
  others();
  Ret r; r.s = "r" + std::to_string(hid) + args[0]; r.i = hid;
  if (args[0] == "semi;colon") r.thrown = T_STRING;
  return r;
}
static int i_hook(int id, int t, const void *o, const void *n) {
  if (!here) { violate("C15", "stray-handler", "a hook ran although this thread uses no interpreter"); finish_run(); }
  if (here->dying) { violate("C15", "handler-at-destruction", "a hook ran while its interpreter was destroyed"); finish_run(); }
  put("hook " + std::to_string(id) + " " + show(val_of(t, o, here->cur_size)) + " -> " + show(val_of(t, n, here->cur_size))); count("hook-calls");
  others();
  return 0;
}
static void i_eval(IW &w, const S &sc) {
  S r; ev("world %d: eval {%s}", w.id, sc.substr(0, 200).c_str());
  { LIB("eval"); String x = mk(sc); String res = w.si->eval(x); r = rd(res); }
  put("eval " + sc.substr(0, 60) + " -> " + r);
}
static void step(IW &w) {
  IW *old = here; here = &w; w.active = true;
  Step s = w.prog[w.pc++];
  if (!w.si) { LIB("ScriptInterpTCL()"); w.si = new ScriptInterpTCL(); Unlib u; setup_interp(w.si); }
  switch (s.k) {
  case S_CREATE: ev("world %d: createCommand %s %d", w.id, s.name.c_str(), s.hid); reg(w.si, s.name, s.hid, "usage", s.minp); break;
  case S_CALL: i_eval(w, s.name + " " + tlist(s.words)); break;
  case S_DELETE: { ev("world %d: deleteCommand %s", w.id, s.name.c_str()); LIB("deleteCommand"); String n = mk(s.name); w.si->deleteCommand(n); break; }
  case S_LINK: {
    Host h = host_new(s.t, s.size); host_set(h, s.a); ev("world %d: linkVar %s %s = %s", w.id, s.name.c_str(), lt_name[s.t], show(s.a).c_str());
    { LIB("linkVar"); String n = mk(s.name); Unlib u; link_real(w.si, n, h, s.hook); }
    if (w.links.count(s.name)) { Host &o = w.links[s.name].h; put("unlinked value " + show(val_of(o.t, o.p, o.size))); host_free(o); }
    w.links[s.name] = Link{h, s.hook}; w.cur_size = h.size; break;
  }
  case S_HOST: if (w.links.count(s.name)) { Host &h = w.links[s.name].h; S v = s.a; if (h.t == L_BUF) v = v.substr(0, h.size - 1); host_set(h, v); } break;
  case S_READ: i_eval(w, "set " + s.name); break;
  case S_WRITE: if (w.links.count(s.name)) w.cur_size = w.links[s.name].h.size; i_eval(w, "set " + s.name + " " + tq(s.b)); if (w.links.count(s.name)) { Host &h = w.links[s.name].h; put("host value " + show(val_of(h.t, h.p, h.size))); } break;
  case S_UNLINK: { ev("world %d: unlinkVar %s", w.id, s.name.c_str()); { LIB("unlinkVar"); String n = mk(s.name); w.si->unlinkVar(n); } if (w.links.count(s.name)) { Host &o = w.links[s.name].h; put("unlinked value " + show(val_of(o.t, o.p, o.size))); host_free(o); w.links.erase(s.name); } break; }
  case S_TRACE: case S_EVAL: i_eval(w, s.a); break;
  case S_CBCALL: if (w.cb) { S r; { LIB("ScriptCallbacker::call"); Array<String> p; for (auto &x : s.words) p << mk(x); String res = w.cb->call(p); r = rd(res); } put("callback -> " + r); } break;
  case S_LOAD: { S m; int rc; { LIB("loadScript"); String f = mk(s.a), res; rc = w.si->loadScript(f, res); m = rd(res); } put("load " + s.a + " -> " + std::to_string(rc) + " " + m); break; }
  case S_DESTROY:
    ev("world %d: destroy", w.id); w.cb.reset(); w.dying = true;
    { LIB("~ScriptInterpTCL"); delete w.si; }
    w.si = nullptr; count("worlds-destroyed");
    for (auto &l : w.links) { put(l.first + " finally " + show(val_of(l.second.h.t, l.second.h.p, l.second.h.size))); host_free(l.second.h); }
    w.links.clear(); break;
  }
  w.active = false; here = old;
}
static std::vector<Step> draw_prog() {
  std::vector<Step> p; int n = 3 + choose(9);
  std::map<S, Host> ty;
  static const char *const nm[] = {"c0", "c1"}, *const vr[] = {"v0", "v1"};
  static const int sg[] = {G_SS, G_VS, G_SS, G_CB};
  for (int i = 0; i < n; i++) {
    Step s; static const uint32_t wt[] = {5, 6, 1, 4, 1, 2, 4, 1, 1, 1, 1, 1};
    s.k = i == 0 ? (choose(2) ? S_LINK : S_CREATE) : choose_w(wt, 12); s.name = s.k >= S_LINK && s.k <= S_UNLINK ? vr[choose(2)] : nm[choose(2)];
    switch (s.k) {
    case S_CREATE: { int g = sg[choose(4)]; s.hid = g * SLOTS + choose(SLOTS); s.minp = choose(2) ? size_t(-1) : 1; break; }
    case S_CALL: case S_CBCALL: { int m = choose(4) ? 2 : choose(3); s.words.clear(); for (int k = 0; k < m; k++) s.words.push_back(word()); break; }
    case S_LINK: { Host h; s.t = h.t = choose(NLT); s.size = h.size = s.t == L_BUF ? buf_sizes[choose(7)] : 0; s.hook = (int)choose(3) - 1; S sp; draw_val(h, &s.a, &sp); ty[s.name] = h; break; }
    case S_HOST: case S_WRITE: if (ty.count(s.name)) draw_val(ty[s.name], &s.a, &s.b); else { s.k = S_WRITE; s.b = word(); } break;
    case S_UNLINK: ty.erase(s.name); break;
    case S_TRACE: { static const char *const t[] = {"trace add command c0 delete {catch {c1 traced deleted};#}", "trace add command c1 rename {catch {c0 traced renamed};#}", "trace add variable v0 unset {catch {c0 traced unset};#}", "trace add execution c0 leave {set ::left 1;#}", "catch {rename c0 c9}", "catch {rename c1 {}}"}; s.a = t[choose(6)]; break; }
    case S_EVAL: { static const char *const t[] = {"incr ::counter", "proc c1 args {return mine}", "error {own trouble}", "info commands c?", "set ::errorInfo", "namespace eval nsq {c0 q q}", "catch {unset v0}; info exists v0", "info vars v?", "catch {::c1 a b} m; set m"}; s.a = t[choose(9)]; break; }
    case S_LOAD: s.a = choose(2) ? "/sim/s/common.tcl" : "/sim/s/broken.tcl"; break;
    }
    p.push_back(s);
  }
  Step d; d.k = S_DESTROY; p.push_back(d);
  return p;
}
static void isolation() {
  call_override = i_call; hook_override = i_hook;
  fs::mkdir_raw("/sim/s");
  fs::put_raw("/sim/s/common.tcl", "incr ::counter 10\nproc loaded {} {return [c0 from file]}\nloaded\n", 0644);
  fs::put_raw("/sim/s/broken.tcl", "incr ::counter 100\nc1 {a b} c\nerror {broken file}\n", 0644);
  int n = 2 + (choose(4) == 3); bool threads = choose(3) == 2;
  std::vector<std::vector<Step>> progs;
  for (int i = 0; i < n; i++) {                            // the same program again, or one of its own
    if (!i || choose(3)) { progs.push_back(draw_prog()); continue; }
    progs.push_back(progs[0]); count("same-program");
    if (choose(2)) { auto &q = progs.back(); size_t k = choose(q.size() - 1); if (q[k].k != S_LINK && q[k].k != S_UNLINK) q.erase(q.begin() + k); }
  }
  std::vector<V> alone;
  may_switch = false;
  // Each world alone: in a process of its own, so that nothing it leaves in the library's statics reaches the
  // worlds together, or one after the other in this process, or both, and then the two have to agree.
  uint32_t where = choose(4);
  auto solo = [&](int i) { ev("-- world %d alone", i); IW w; w.id = i; w.prog = progs[i]; while (!w.done()) step(w); return w.log; };
  for (int i = 0; i < n; i++) {
    bool got = false; V l;
    if (where) {
      S t = other_process([&] { V v = solo(i); S o; for (auto &x : v) o += std::to_string(x.size()) + ":" + x; return o + "."; });
      size_t k = 0; while (k < t.size() && t[k] != '.') { size_t c = t.find(':', k); if (c == S::npos) break; size_t m = std::stoul(t.substr(k, c - k)); if (c + 1 + m > t.size()) break; l.push_back(t.substr(c + 1, m)); k = c + 1 + m; }
      got = k < t.size() && t[k] == '.' && k + 1 == t.size();
      if (got) count("alone-in-own-process");
    }
    alone.push_back(l);
    if (got && where != 3) continue;
    V here_log = solo(i);
    if (got) for (size_t k = 0; k < std::max(l.size(), here_log.size()); k++) {
      S x = k < l.size() ? l[k] : "nothing", y = k < here_log.size() ? here_log[k] : "nothing";
      if (x != y) violate("C15", "interference", "interpreter %d, alone, observes %s but after others were destroyed %s", i, show(x).c_str(), show(y).c_str());
    }
    alone[i] = here_log;
  }
  ev("-- all worlds%s", threads ? ", one thread each" : "");
  std::vector<IW> ws(n); iws = &ws;
  for (int i = 0; i < n; i++) { ws[i].id = i; ws[i].prog = progs[i]; }
  if (threads) {
    holding = false;                                       // values belong to their thread
    count("threaded-runs");
    std::vector<std::function<void()>> b; for (int i = 0; i < n; i++) b.push_back([&ws, i] { while (!ws[i].done()) { step(ws[i]); yield_point(); } });
    run_threads(b);
  } else {
    may_switch = true;
    for (;;) { std::vector<IW *> c; for (auto &w : ws) if (!w.done()) c.push_back(&w); if (c.empty()) break; IW *w = c[choose(c.size())]; step(*w); sig(w->id + 3 * w->pc); }
  }
  nontrivial();
  for (int i = 0; i < n; i++) {
    V &a = alone[i], &b = ws[i].log;
    for (size_t k = 0; k < std::max(a.size(), b.size()); k++) {
      S x = k < a.size() ? a[k] : "nothing", y = k < b.size() ? b[k] : "nothing";
      if (x != y) violate("C15", "interference", "interpreter %d, alone, observes %s but with others alive %s", i, show(x).c_str(), show(y).c_str());
    }
  }
  ws.clear();
  check_held("C15");
  std::string det;
  if (size_t k = leak_check(&det)) violate("C15", "memory-leak", "%zu blocks are still allocated after the interpreters were destroyed: %s", k, det.c_str());
  finish_run();
}

// ---------------------------------------------------------------- C16: loading script files
static int opens;
static void load_step(const char *call) { if (!strncmp(call, "open", 4) || !strncmp(call, "fopen", 5) || !strncmp(call, "mmap", 4)) opens++; }
struct File { bool exists = false, ok = true; S msg; int mark = 0; bool calls = false, anymsg = false; };
static std::map<S, File> lfiles;
static const char *const lnames[] = {"/sim/s/a.tcl", "/sim/s/b.tcl", "/sim/s/.tcl", "/sim/s/a.tcl.txt", "/sim/s/x.tcl~", "/sim/s/x", "/sim/s/tcl", "x", "", "tcl", "/sim/s/c.tc", "/sim/s/.tcl/x", "/sim/s/TCL", "l", "/sim/s/x.TCL", "/sim/s/x.tclx", "/sim/s/x.tcl ", "/sim/s/xtcl", "/sim/s/x.tcl.", "/sim/s/x.Tcl", "a.tcl.bak"};
static bool is_tcl(const S &n) { return n.size() >= 4 && n.compare(n.size() - 4, 4, ".tcl") == 0; }
static void lput(const S &name) {
  File f; f.exists = true; f.mark = ++W->seq; S m = std::to_string(f.mark), pad;
  static const int sz[] = {0, 10, 4000, 5000, 20000, 70000}; int n = sz[choose(6)]; for (int i = 0; i < n; i += 50) pad += "# 45678901234567890123456789012345678901234567\nset p\n";
  S body = "set ::b " + m + "\n";
  switch (choose(10)) {
  case 0: case 1: body += pad + "set ::e " + m; break;
  case 2: f.ok = false; f.msg = "trouble " + m; body += pad + "error {" + f.msg + "}\nset ::e never"; break;
  case 3: body += "set ::e " + m + "\nreturn early\n" + pad + "error {not reached}"; break;
  case 4: f.ok = false; f.msg = "missing close-brace"; body += pad + "set ::e {never"; break;
  case 6: { static const char *const w[] = {"break", "continue", "return -code break", "return -code 7"}; f.ok = false; f.anymsg = true; body += pad + w[choose(4)] + "\nset ::e never"; break; }
  case 7: f.ok = false; f.msg = "trouble " + m; body += pad + "return -code error {" + f.msg + "}\nset ::e never"; break;
  case 5: f.calls = true; body += pad + "nest\nset ::e " + m + "\n"; break;
  case 8: body += pad + "set q a" + S(1, '\0') + "b\nset ::e " + m; break;   // NULs are ordinary characters
  default: body += "set ::e " + m + "\n" + pad;
  }
  fs::put_raw(name.c_str(), "set p 0\n" + body, 0644);
  lfiles[name] = f; ev("file %s: script %d%s, %zu bytes", name.c_str(), f.mark, f.ok ? "" : " (fails)", body.size() + 8);
}
static void lload() {
  S name = lnames[choose(4) ? choose(3) : choose(21)];
  if (is_tcl(name) && choose(8) == 7) name = choose(2) ? "/sim/s/missing.tcl" : "/sim/s/folder.tcl";
  auto it = lfiles.find(name); File f = it == lfiles.end() ? File() : it->second; S m = std::to_string(f.mark);   // as it is now: the script may replace it
  bool afault = choose(6) == 5;
  static const char *const before[] = {"", "earlier text"}; S pre = before[choose(2)], msg; int rc = -1; bool threw = false;
  int ob = opens; uint64_t f0 = fs::faults;
  must("set ::b none; set ::e none");
  if (afault) arm_alloc_fail(1 + choose(4));
  ev("loadScript %s", name.c_str());
  try { LIB("loadScript"); S l; { Unlib u; if (choose(3) == 2) l = "x" + name + ".tcl"; }
    String f = mk(l.empty() ? name : l), r = mk(pre); if (!l.empty()) { String part(f(1, name.size())); f = part; } rc = W->si->loadScript(f, r); msg = rd(r); }
  catch (std::bad_alloc &) { threw = true; }
  catch (...) { BAD("C16", "wrong-exception", "loadScript threw something other than bad_alloc"); }
  bool afired = afault && disarm_alloc_fail(); if (afault) arm_alloc_fail(0);
  bool faulted = fs::faults != f0;
  ev("-> %d %s%s", rc, show(msg).c_str(), threw ? " (threw)" : ""); count("loads"); sig(rc + 5 * faulted + 11 * W->depth + std::hash<S>()(name));
  if (faulted) { nontrivial(); count("loads-with-faults"); }
  uint32_t den = fs::cfg.fault_den; fs::cfg.fault_den = 0;
  if (fs::open_lib_fds()) BAD("C16", "descriptor-leak", "loading %s left a descriptor open", name.c_str());
  S b = must("set ::b"), e = must("set ::e"), ch = must("lsort [file channels]");
  if (ch != "stderr stdin stdout") BAD("C16", "descriptor-leak", "loading %s left a channel open: %s", name.c_str(), show(ch).c_str());
  if (must("expr 6*7") != "42") BAD("C16", "unusable", "the interpreter is unusable after loading %s", name.c_str());
  fs::cfg.fault_den = den;
  if (threw) { if (!afired) BAD("C16", "wrong-exception", "loadScript threw bad_alloc although no allocation failed"); return; }
  if (!is_tcl(name)) {
    if (rc != bd::ScriptInterp::SCRIPT_LOAD_WRONG_INTERP) BAD("C16", "foreign-accepted", "loading %s, whose name does not end in .tcl, gave %d", show(name).c_str(), rc);
    if (opens != ob) BAD("C16", "foreign-opened", "%s, whose name does not end in .tcl, was opened", show(name).c_str());
    return;
  }
  if (rc == bd::ScriptInterp::SCRIPT_LOAD_WRONG_INTERP) BAD("C16", "own-refused", "%s was refused as foreign", name.c_str());
  if (rc == bd::ScriptInterp::SCRIPT_LOAD_OK) {
    if (!f.exists) BAD("C16", "false-success", "loading %s, which does not exist, reported success", name.c_str());
    if (!f.ok) BAD("C16", "false-success", "the script %s failed but loading it reported success", name.c_str());
    if (!f.calls && (b != m || e != m)) BAD("C16", "false-success", "loading %s reported success but the script did not run to its end (%s, %s)", name.c_str(), b.c_str(), e.c_str());
    if (f.calls && e != m) BAD("C16", "false-success", "loading %s reported success but the script did not run to its end", name.c_str());
    return;
  }
  if (msg.empty() && !f.anymsg) BAD("C16", "no-message", "loading %s failed without a message", name.c_str());
  if (!faulted && !afired) {
    if (f.exists && f.ok && !f.calls) BAD("C16", "false-failure", "loading the healthy script %s failed: %s", name.c_str(), show(msg).c_str());
    if (f.exists && !f.ok && ((!f.anymsg && msg != f.msg) || b != m || e != "none")) BAD("C16", "wrong-message", "the script %s failed with %s but loading it gave %s (%s, %s)", name.c_str(), show(f.msg).c_str(), show(msg).c_str(), b.c_str(), e.c_str());
    if (!f.exists && (msg == pre || b != "none" || e != "none")) BAD("C16", "wrong-message", "loading the missing file %s gave the message %s", name.c_str(), show(msg).c_str());
  } else if (f.exists && f.ok && !f.calls && !afired) {     // the read failed: nothing of the script may have run
    if (b != "none" || e != "none") BAD("C16", "partial-effects", "reading %s failed (%s) but the script ran", name.c_str(), show(msg).c_str());
    if (msg == pre) BAD("C16", "wrong-message", "loading %s failed without a new message", name.c_str());
  }
}
static Ret l_call(int, const V &, ScriptCallbackerPtr) {
  Ret r; if (W->depth >= 2) return r;
  S b = must("set ::b"), e = must("set ::e");
  W->depth++; int n = choose(3); for (int i = 0; i < n; i++) { if (choose(4) == 3) lput(lnames[choose(3)]); lload(); } W->depth--; if (n) count("nested-loads", n);
  must("set ::b " + b); must("set ::e " + e);
  return r;
}
static void loading() {
  World w; W = &w; lfiles.clear(); opens = 0;
  call_override = l_call; hook_override = ev_hook;
  if (choose(6) == 5) { LIB("ScriptInterpTCL()"); w.si = new ScriptInterpTCL(); Unlib u; setup_interp(w.si); } else w.si = prepared;
  fs::mkdir_raw("/sim/s"); fs::mkdir_raw("/sim/s/folder.tcl"); fs::step_hook = load_step;
  reg(w.si, S("nest"), G_VS * SLOTS, nullptr, 0);
  must("set ::p 0");
  for (auto f : {"/sim/s/a.tcl.txt", "/sim/s/x.tcl~", "/sim/s/x", "/sim/s/tcl", "/sim/s/c.tc", "/sim/s/x.TCL", "/sim/s/x.tclx", "/sim/s/x.tcl ", "/sim/s/xtcl", "/sim/s/x.tcl.", "/sim/s/x.Tcl"}) fs::put_raw(f, "set ::b foreign; set ::e foreign", 0644);
  lput(lnames[0]); if (choose(2)) lput(lnames[1]); if (choose(3) == 2) lput(lnames[2]);
  fs::draw_faults(1u << fs::K_OPEN | 1u << fs::K_READ | 1u << fs::K_LSEEK | 1u << fs::K_CLOSE | 1u << fs::K_STAT); fs::cfg.eintr = false;
  int n = 2 + choose(7);
  for (int i = 0; i < n; i++) { if (choose(4) == 3) lput(lnames[choose(3)]); lload(); }
  fs::cfg.fault_den = 0;
  nontrivial();
  { LIB("~ScriptInterpTCL"); delete w.si; }
  W = nullptr;
  check_held("C16");
  std::string det;
  if (size_t k = leak_check(&det)) violate("C16", "memory-leak", "%zu blocks are still allocated after the interpreter was destroyed: %s", k, det.c_str());
  finish_run();
}
static void warm() { prepared = new ScriptInterpTCL(); setup_interp(prepared); }
namespace sim { Harness harness{"script", run, warm, "C12,C13,C14,C15,C16,C17,C18"}; }
