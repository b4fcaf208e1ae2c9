// usym - a forking symbolic executor over LLVM IR (see DESIGN.md).
#include "aig.h"
#include "sat.h"
#include <llvm-c/Core.h>
#include <llvm-c/BitReader.h>
#include <llvm-c/Target.h>
#include <llvm-c/DebugInfo.h>
#include <z3.h>
#include <string>
#include <map>
#include <set>
#include <unordered_set>
#include <cstdio>
#include <memory>
#include <unistd.h>
#include <cstdarg>
#include <ctime>
#include <signal.h>
#include <sys/time.h>
using std::string; using std::vector;

static Aig G; static Sat *S;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double T0;

// ------------------------------------------------------------------ options
struct Opt { double time = 60; u64 paths = 1000000; u64 insts = 40000000; string entry = "harness"; string out; int z3cap = 50; bool dbg = false; int maxviol = 3; u64 satBudget = 200000; int part = 0, parts = 1; bool trace = false, norace = false; } O;
static std::map<string, i64> PARAM;

// ------------------------------------------------------------------ symbolic words
struct Sym { u32 w; Lit l[1]; };
struct V { u64 c; const Sym *s; };
static inline V C(u64 c) { return V{c, nullptr}; }
struct Arena { char *p = nullptr, *e = nullptr; u64 total = 0; void *get(size_t n) { n = (n + 7) & ~7ull; if ((size_t)(e - p) < n) { size_t b = std::max<size_t>(1 << 20, n); p = (char *)malloc(b); e = p + b; total += b; } void *r = p; p += n; return r; } } AR;
// symbolic words are hash-consed, so exploring many paths does not accumulate copies
struct Cons { vector<const u32 *> t; u64 n = 0; const u32 *get(u32 w, const Lit *l) {
    if (n * 2 >= t.size()) { vector<const u32 *> o; o.swap(t); t.assign(o.size() ? o.size() * 2 : 4096, nullptr); for (auto q : o) if (q) { u64 h = hash(q[0], q + 1) & (t.size() - 1); while (t[h]) h = (h + 1) & (t.size() - 1); t[h] = q; } }
    u64 h = hash(w, l) & (t.size() - 1);
    while (t[h]) { if (t[h][0] == w && memcmp(t[h] + 1, l, w * sizeof(Lit)) == 0) return t[h]; h = (h + 1) & (t.size() - 1); }
    u32 *s = (u32 *)AR.get(4 + w * sizeof(Lit)); s[0] = w; memcpy(s + 1, l, w * sizeof(Lit)); t[h] = s; n++; return s; }
  static u64 hash(u32 w, const Lit *l) { u64 h = w * 0x9e3779b97f4a7c15ull; for (u32 i = 0; i < w; i++) { h ^= l[i]; h *= 0xff51afd7ed558ccdull; h ^= h >> 29; } return h; } } CONS;
static const Sym *mkSym(u32 w, const Lit *l) { return (const Sym *)CONS.get(w, l); }
static inline u64 msk(u32 w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline Lit bitOf(const V &v, u32 i) { return v.s ? (i < v.s->w ? v.s->l[i] : L0) : (Lit)(i < 64 ? (v.c >> i) & 1 : 0); }
struct Bits { Lit l[64]; u32 w; };
static inline void toBits(const V &v, u32 w, Bits &b) { b.w = w; for (u32 i = 0; i < w; i++) b.l[i] = bitOf(v, i); }
static V fromBits(const Lit *l, u32 w) {
  bool c = true; u64 x = 0;
  for (u32 i = 0; i < w; i++) { if (l[i] > 1) { c = false; break; } x |= (u64)l[i] << i; }
  if (c) return C(x);
  return V{0, mkSym(w, l)};
}
static V fromBits(const Bits &b) { return fromBits(b.l, b.w); }
static V fromLit(Lit l) { return fromBits(&l, 1); }
// unknowns are drawn from pools shared by all paths (each path numbers its own), which keeps models small
struct State; static State *CUR; static Lit freshLit(bool taint);
static V freshV(u32 w, bool taint) { Lit l[64]; for (u32 i = 0; i < w; i++) l[i] = freshLit(taint); return fromBits(l, w); }

static Lit eqBits(const Bits &a, const Bits &b) { Lit r = L1; for (u32 i = 0; i < a.w; i++) r = G.And(r, G.Xor(a.l[i], b.l[i]) ^ 1); return r; }
static Lit ultBits(const Bits &a, const Bits &b) { Lit r = L0; for (u32 i = 0; i < a.w; i++) { Lit d = G.Xor(a.l[i], b.l[i]); r = G.Mux(d, b.l[i], r); } return r; }
static void addBits(const Bits &a, const Bits &b, Lit cin, Bits &o) {
  o.w = a.w; Lit c = cin;
  for (u32 i = 0; i < a.w; i++) { Lit x = G.Xor(a.l[i], b.l[i]); Lit s = G.Xor(x, c); c = G.Or(G.And(a.l[i], b.l[i]), G.And(x, c)); o.l[i] = s; }
}
static void notBits(const Bits &a, Bits &o) { o.w = a.w; for (u32 i = 0; i < a.w; i++) o.l[i] = a.l[i] ^ 1; }
static void subBits(const Bits &a, const Bits &b, Bits &o) { Bits nb; notBits(b, nb); addBits(a, nb, L1, o); }
static void mulBits(const Bits &a, const Bits &b, Bits &o) {
  Bits acc; acc.w = a.w; for (u32 i = 0; i < a.w; i++) acc.l[i] = L0;
  for (u32 i = 0; i < b.w; i++) {
    if (b.l[i] == L0) continue;
    Bits p; p.w = a.w; for (u32 j = 0; j < a.w; j++) p.l[j] = j < i ? L0 : G.And(a.l[j - i], b.l[i]);
    Bits t; addBits(acc, p, L0, t); acc = t;
  }
  o = acc;
}
static void udivBits(const Bits &a, const Bits &b, Bits &q, Bits &r) {
  u32 w = a.w; r.w = q.w = w; for (u32 i = 0; i < w; i++) r.l[i] = L0;
  for (int i = w - 1; i >= 0; i--) {
    Lit top = r.l[w - 1];
    for (int j = w - 1; j > 0; j--) r.l[j] = r.l[j - 1];
    r.l[0] = a.l[i];
    Lit ge = G.Or(top, ultBits(r, b) ^ 1); q.l[i] = ge;
    if (ge == L0) continue;
    Bits d; subBits(r, b, d);
    for (u32 j = 0; j < w; j++) r.l[j] = G.Mux(ge, d.l[j], r.l[j]);
  }
}
static void shiftBits(const Bits &a, const Bits &sh, int kind, Bits &o) { // 0 shl 1 lshr 2 ashr
  u32 w = a.w; Bits cur = a; Lit fill = kind == 2 ? a.l[w - 1] : L0;
  for (u32 k = 0; k < 32 && (1u << k) < w; k++) {
    Bits t; t.w = w; u32 d = 1u << k;
    for (u32 i = 0; i < w; i++) { Lit v; if (kind == 0) v = i >= d ? cur.l[i - d] : L0; else v = i + d < w ? cur.l[i + d] : fill; t.l[i] = G.Mux(sh.l[k], v, cur.l[i]); }
    cur = t;
  }
  Lit big = L0; for (u32 k = 0; k < sh.w; k++) if (k >= 32 || (1u << k) >= w) big = G.Or(big, sh.l[k]);
  for (u32 i = 0; i < w; i++) cur.l[i] = G.Mux(big, fill, cur.l[i]);
  o = cur;
}

// ------------------------------------------------------------------ facts & path condition
static vector<signed char> fact;        // by node: 0 unknown, 1 true, -1 false
static vector<u32> ftrail; static vector<size_t> fmarks; static vector<Lit> curpc; static u32 factEra = 1;
static inline int fval(Lit l) { u32 v = l >> 1; if (!v) return l ? 1 : -1; if (v >= fact.size()) return 0; int f = fact[v]; return (l & 1) ? -f : f; }
static void fset(Lit l0) {
  static vector<Lit> st; st.clear(); st.push_back(l0);
  while (!st.empty()) {
    Lit l = st.back(); st.pop_back(); u32 v = l >> 1; if (!v) continue;
    if (v >= fact.size()) fact.resize(G.n.size() * 3 / 2 + 64, 0);
    if (fact[v]) continue;
    fact[v] = (l & 1) ? -1 : 1; ftrail.push_back(v);
    const Node &q = G.n[v];
    if (q.type == NT_AND) {
      if (!(l & 1)) { st.push_back(q.a); st.push_back(q.b); }
      else { if (fval(q.a) > 0) st.push_back(q.b ^ 1); else if (fval(q.b) > 0) st.push_back(q.a ^ 1); }
    } else if (q.type == NT_XOR) {
      int fa = fval(q.a), fb = fval(q.b); Lit one = (l & 1) ? L0 : L1;
      if (fa) st.push_back(q.b ^ (fa > 0 ? 1 : 0) ^ (one ? 0 : 1)); else if (fb) st.push_back(q.a ^ (fb > 0 ? 1 : 0) ^ (one ? 0 : 1));
    }
  }
}
static void pcPush(Lit l) { fmarks.push_back(ftrail.size()); curpc.push_back(l); fset(l); factEra++; }
static void pcPop() { size_t b = fmarks.back(); while (ftrail.size() > b) { fact[ftrail.back()] = 0; ftrail.pop_back(); } fmarks.pop_back(); curpc.pop_back(); }
static void pcSwitch(const vector<Lit> &pc) {
  size_t k = 0; while (k < curpc.size() && k < pc.size() && curpc[k] == pc[k]) k++;
  if (k == curpc.size() && k == pc.size()) return;
  while (curpc.size() > k) pcPop();
  for (; k < pc.size(); k++) pcPush(pc[k]);
  factEra++; S->newEra();
}
static vector<u32> smEra; static vector<Lit> smVal;
// rewrite a literal under the current facts
static Lit simplify(Lit root, size_t cap = 20000) {
  if (root <= 1) return root;
  { int f = fval(root); if (f) return f > 0 ? L1 : L0; }
  static vector<u32> st; st.clear(); st.push_back(root >> 1); size_t seen = 0;
  auto fit = [&](u32 v) { if (v >= smEra.size()) { smEra.resize(G.n.size() * 3 / 2 + 64, 0); smVal.resize(smEra.size(), 0); } };
  auto done = [&](u32 v) { fit(v); return smEra[v] == factEra; };
  fit(root >> 1);
  while (!st.empty()) {
    u32 v = st.back();
    if (done(v)) { st.pop_back(); continue; }
    if (!v) { smEra[v] = factEra; smVal[v] = L0; st.pop_back(); continue; }
    int f = fval(v << 1);
    if (f) { smEra[v] = factEra; smVal[v] = f > 0 ? L1 : L0; st.pop_back(); continue; }
    Node q = G.n[v];
    if (q.type == NT_VAR) { smEra[v] = factEra; smVal[v] = v << 1; st.pop_back(); continue; }
    bool da = done(q.a >> 1), db = done(q.b >> 1);
    if (!da || !db) { if (!da) st.push_back(q.a >> 1); if (!db) st.push_back(q.b >> 1); if (++seen > cap) return root; continue; }
    Lit a = smVal[q.a >> 1] ^ (q.a & 1), b = smVal[q.b >> 1] ^ (q.b & 1);
    Lit r = (a == q.a && b == q.b) ? (v << 1) : (q.type == NT_AND ? G.And(a, b) : G.Xor(a, b));
    int fr = fval(r); if (fr) r = fr > 0 ? L1 : L0;
    fit(v); smEra[v] = factEra; smVal[v] = r; st.pop_back();
  }
  return smVal[root >> 1] ^ (root & 1);
}

// ------------------------------------------------------------------ models
struct Model { vector<u8> v; u32 id; };
typedef std::shared_ptr<Model> ModelP;
static u32 modelIds = 0; static vector<u64> mvEra;
static bool evalM(const Model &m, Lit root) {
  static vector<u32> st; st.clear(); st.push_back(root >> 1);
  auto fit = [&](u32 v) { if (v >= mvEra.size()) mvEra.resize(G.n.size() * 3 / 2 + 64, 0); };
  auto known = [&](u32 v) { fit(v); return (mvEra[v] >> 1) == m.id; };
  while (!st.empty()) {
    u32 v = st.back(); if (known(v)) { st.pop_back(); continue; }
    const Node &q = G.n[v]; bool r;
    if (q.type == NT_CONST) r = false;
    else if (q.type == NT_VAR) r = q.a < m.v.size() ? m.v[q.a] : 0;
    else {
      bool ka = known(q.a >> 1), kb = known(q.b >> 1);
      if (!ka || !kb) { if (!ka) st.push_back(q.a >> 1); if (!kb) st.push_back(q.b >> 1); continue; }
      bool a = (mvEra[q.a >> 1] & 1) ^ (q.a & 1), b = (mvEra[q.b >> 1] & 1) ^ (q.b & 1);
      r = q.type == NT_AND ? (a && b) : (a != b);
    }
    mvEra[v] = (u64)m.id << 1 | r; st.pop_back();
  }
  return (mvEra[root >> 1] & 1) ^ (root & 1);
}
static u64 evalMV(const Model &m, const V &v) { if (!v.s) return v.c; u64 x = 0; for (u32 i = 0; i < v.s->w && i < 64; i++) x |= (u64)evalM(m, v.s->l[i]) << i; return x; }

// ------------------------------------------------------------------ solver statistics
struct Stats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cachehit = 0, asserts = 0, assertTriv = 0, assertSolver = 0, z3 = 0, z3agree = 0, forks = 0, paths = 0, insts = 0, concretize = 0; double solver = 0, z3time = 0; } ST;
static vector<string> ENGERR; static bool INCOMPLETE = false;
static void engerr(const char *f, ...) { char b[512]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); for (auto &e : ENGERR) if (e == b) return; if (ENGERR.size() < 40) ENGERR.push_back(b); INCOMPLETE = true; if (O.dbg) fprintf(stderr, "usym: %s\n", b); }
static int query(const vector<Lit> &pc, Lit extra, ModelP *out, u64 budget = 0) {
  double t = now(); ST.queries++;
  static vector<Lit> as; as = pc; if (extra != L1) as.push_back(extra);
  int r = S->solve(as, budget ? budget : O.satBudget);
  if (r == 1 && out) {
    auto m = std::make_shared<Model>(); m->id = ++modelIds; m->v.resize(G.vars.size());
    for (size_t i = 0; i < G.vars.size(); i++) { S->ensure(); m->v[i] = S->model(G.vars[i]); }
    // a model is believed only when it satisfies every conjunct under plain evaluation
    for (Lit l : as) if (!evalM(*m, l)) { r = -1; engerr("a model of the internal solver does not satisfy the query"); break; }
    // a model is believed only when it satisfies every conjunct under plain evaluation
    for (Lit l : as) if (!evalM(*m, l)) { r = -1; engerr("a model of the internal solver does not satisfy the query"); break; }
    *out = m;
  }
  ST.solver += now() - t;
  if (r == 1) ST.sat++; else if (r == 0) ST.unsat++; else { ST.unknown++; engerr("solver budget exceeded"); }
  return r;
}
// look for a counterexample near a known model of the path: 64 assignments at a time, which differ from it in few or many
// bits. Only ever finds violations faster (hash functions are hard for the solver); it never decides that a property holds.
static bool nearby(const vector<Lit> &pc, Lit extra, const Model &base, ModelP *out) {
  static vector<u32> mark; static u32 era = 0; static vector<u64> w; vector<u32> order, st; mark.resize(G.n.size(), 0); era++;
  auto push = [&](u32 v) { if (mark[v] != era) { mark[v] = era; st.push_back(v); } };
  push(extra >> 1); u32 core = 0;
  auto drain = [&]() { while (!st.empty()) { u32 v = st.back(); st.pop_back(); order.push_back(v); const Node &q = G.n[v]; if (q.type == NT_AND || q.type == NT_XOR) { push(q.a >> 1); push(q.b >> 1); } } };
  drain(); core = order.size(); if (core < 4000) return false;
  for (Lit l : pc) push(l >> 1); drain();
  std::sort(order.begin(), order.end()); w.resize(G.n.size());
  static u64 rs = 0x9E3779B97F4A7C15ull; auto rnd = [&]() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; };
  for (int round = 0; round < 6; round++) {
    vector<std::pair<u32, u64>> in;
    for (u32 v : order) {
      const Node &q = G.n[v];
      if (q.type == NT_CONST) w[v] = 0;
      else if (q.type == NT_VAR) { u64 f = 0, r = ~0ull; for (int g = 0; g < 8; g++) { r &= rnd(); f |= r & (0xffull << (8 * g)); } bool b = q.a < base.v.size() && base.v[q.a]; w[v] = (b ? ~0ull : 0) ^ f; in.push_back({q.a, w[v]}); }
      else { u64 a = w[q.a >> 1] ^ (0 - (u64)(q.a & 1)), b = w[q.b >> 1] ^ (0 - (u64)(q.b & 1)); w[v] = q.type == NT_AND ? a & b : a ^ b; }
    }
    u64 ok = w[extra >> 1] ^ (0 - (u64)(extra & 1)); for (Lit l : pc) ok &= w[l >> 1] ^ (0 - (u64)(l & 1));
    if (!ok) continue;
    int k = __builtin_ctzll(ok); auto m = std::make_shared<Model>(base); m->id = ++modelIds; m->v.resize(G.vars.size(), 0); for (auto &x : in) m->v[x.first] = x.second >> k & 1;
    if (!evalM(*m, extra)) return false;
    for (Lit l : pc) if (!evalM(*m, l)) return false;
    *out = m; return true;
  }
  return false;
}
// z3 confirmation of an UNSAT verdict
static Z3_context ZC; static std::unordered_map<u32, Z3_ast> ZM;
static Z3_ast zast(Lit root) {
  vector<u32> st{root >> 1};
  while (!st.empty()) {
    u32 v = st.back(); if (ZM.count(v)) { st.pop_back(); continue; }
    const Node &q = G.n[v];
    if (q.type == NT_CONST) { ZM[v] = Z3_mk_false(ZC); st.pop_back(); continue; }
    if (q.type == NT_VAR) { ZM[v] = Z3_mk_const(ZC, Z3_mk_int_symbol(ZC, q.a), Z3_mk_bool_sort(ZC)); st.pop_back(); continue; }
    bool ka = ZM.count(q.a >> 1), kb = ZM.count(q.b >> 1);
    if (!ka || !kb) { if (!ka) st.push_back(q.a >> 1); if (!kb) st.push_back(q.b >> 1); continue; }
    Z3_ast a = ZM[q.a >> 1], b = ZM[q.b >> 1]; if (q.a & 1) a = Z3_mk_not(ZC, a); if (q.b & 1) b = Z3_mk_not(ZC, b);
    Z3_ast ab[2] = {a, b}; ZM[v] = q.type == NT_AND ? Z3_mk_and(ZC, 2, ab) : Z3_mk_xor(ZC, a, b); st.pop_back();
  }
  Z3_ast r = ZM[root >> 1]; return (root & 1) ? Z3_mk_not(ZC, r) : r;
}
static Z3_solver ZS = nullptr;
static void z3confirm(const vector<Lit> &pc, Lit extra) {
  if ((int)ST.z3 >= O.z3cap) return;
  double t = now();
  if (!ZC) { Z3_config c = Z3_mk_config(); Z3_set_param_value(c, "timeout", "20000"); ZC = Z3_mk_context(c); ZS = Z3_mk_simple_solver(ZC); Z3_solver_inc_ref(ZC, ZS); }
  Z3_solver_reset(ZC, ZS);
  for (Lit l : pc) Z3_solver_assert(ZC, ZS, zast(l));
  Z3_solver_assert(ZC, ZS, zast(extra));
  Z3_lbool r = Z3_solver_check(ZC, ZS);
  ST.z3++; if (r == Z3_L_FALSE) ST.z3agree++; else if (r == Z3_L_TRUE) engerr("z3 disagrees with the internal solver");
  ST.z3time += now() - t;
}

// ------------------------------------------------------------------ program
enum Op { O_ALLOCA, O_LOAD, O_STORE, O_GEP, O_BIN, O_ICMP, O_SELECT, O_BR, O_CBR, O_SWITCH, O_RET, O_CALL, O_CAST, O_UNREACH, O_FREEZE, O_EXTRACT, O_INSERT, O_FBIN, O_FCMP, O_OVF, O_BAD };
struct Fn; struct Blk;
struct Opnd { int reg = -1; V v{0, nullptr}; u8 w = 64; }; // reg -1 const, -2 undef
struct Inst {
  Op op; u8 w = 0, w2 = 0; int sub = 0; int dst = -1; vector<Opnd> o; vector<i64> sc; u64 k = 0; // GEP scales, const
  vector<u32> tgt; vector<u64> cs; Fn *callee = nullptr; int bi = 0; vector<u32> byval; int line = 0; string msg;
};
struct Phi { int dst; u8 w; vector<std::pair<u32, Opnd>> in; };
struct Blk { vector<Phi> phi; u32 first = 0; u32 n = 0; bool hit = false; };
struct Fn { string name, file; int id; u32 nargs = 0, nregs = 0; bool vararg = false, isDecl = true, model = false, lib = false; vector<u8> argw; vector<Inst> code; vector<Blk> blk; vector<u32> blkOf; u64 calls = 0; LLVMValueRef v; u64 addr = 0; };
static std::map<string, Fn *> FN; static vector<Fn *> FNS; static std::unordered_map<void *, Fn *> FNV; static std::unordered_map<u64, Fn *> FNA;
static LLVMModuleRef M; static LLVMTargetDataRef TD;

// ------------------------------------------------------------------ memory
struct SymByte { Lit l[8]; };
static const SymByte *mkByte(const Lit *l) { return (const SymByte *)(CONS.get(8, l) + 1); }
#define UNINIT ((const SymByte *)1)
enum { PG = 256 };
template <class T> struct Ref { T *p; Ref(T *q = nullptr) : p(q) { if (p) p->rc++; } Ref(const Ref &r) : p(r.p) { if (p) p->rc++; } Ref(Ref &&r) noexcept : p(r.p) { r.p = nullptr; } ~Ref() { if (p && --p->rc == 0) delete p; } Ref &operator=(Ref r) { std::swap(p, r.p); return *this; } T *operator->() const { return p; } operator bool() const { return p; } };
struct Page { int rc = 0; u8 d[PG]; const SymByte **s = nullptr; Page() {} Page(const Page &q) { rc = 0; memcpy(d, q.d, PG); if (q.s) { s = new const SymByte *[PG]; memcpy(s, q.s, PG * sizeof(*s)); } } ~Page() { delete[] s; } };
enum Kind { K_GLOBAL, K_CONST, K_STACK, K_HEAP, K_MODEL, K_SPARSE };
struct Obj { int rc = 0; u64 size = 0; u8 kind = 0; bool uninit = false; int site = 0; string *sn = nullptr; vector<Ref<Page>> pg; std::map<u32, Ref<Page>> big; bool isBig = false; 
  Page *get(u32 i) const { if (!isBig) return pg[i].p; auto it = big.find(i); return it == big.end() ? nullptr : it->second.p; }
  Page *own(u32 i) { Ref<Page> &r = isBig ? big[i] : pg[i]; if (!r.p) { Page *p = new Page; memset(p->d, 0, PG); if (uninit) { p->s = new const SymByte *[PG]; for (int k = 0; k < PG; k++) p->s[k] = UNINIT; } r = Ref<Page>(p); } else if (r.p->rc > 1) r = Ref<Page>(new Page(*r.p)); return r.p; } };
static const u64 BASE = 0x10000000ull;
static inline u64 mkaddr(u32 id) { return ((u64)id << 32) + BASE; }
struct Frame { Fn *f; u32 pc = 0, prev = 0; vector<V> r; vector<u32> allocas; int dst = -1; u8 dstw = 0; bool trymark = false; u32 va = 0; };
struct Thread { vector<Frame> st; bool done = false; vector<u32> vc; std::map<u32, u32> tls; };
struct Cell { u32 wt = 0, wc = 0; int wl = 0; vector<u32> rd; vector<int> rl; };
struct SymRec { string name; vector<V> bytes; };
struct State {
  vector<Ref<Obj>> objs; vector<u32> freeStack; vector<Thread> th; u32 cur = 0; vector<Lit> pc; ModelP model; vector<SymRec> log; u64 insts = 0; i64 heap = 0; u32 nv = 0, tv = 0;
  std::map<u32, vector<u32>> sync; std::unordered_map<u64, Cell> shadow; vector<string> notes; bool leakIgnore = false; std::set<u32> heapIds; vector<u8> freed;
};
static vector<Lit> POOL[2];
static Lit freshLit(bool taint) { u32 i = taint ? CUR->tv++ : CUR->nv++; auto &p = POOL[taint]; while (i >= p.size()) p.push_back(G.var(taint)); return p[i]; }
static vector<Ref<Obj>> GLOB; // initial objects, index 0 unused
static std::unordered_map<void *, u32> GOBJ; static std::vector<LLVMValueRef> TLSG; static std::unordered_map<void *, u32> TLSIDX;

// ------------------------------------------------------------------ results
struct Viol { string kind, msg, loc, stack; vector<std::pair<string, vector<u8>>> in; vector<string> notes; u64 insts; };
static vector<Viol> VIOL; static std::map<string, u64> REACH, ASSERTS; static std::set<string> FUNCS; static vector<string> SAMPLES; static vector<vector<std::pair<string, vector<u8>>>> VECS;
static vector<State *> WORK;
struct PathEnd { };

static string where(State &s, Frame **fr = nullptr) {
  Thread &t = s.th[s.cur]; char b[256];
  for (int i = t.st.size() - 1; i >= 0; i--) { Frame &f = t.st[i]; if (f.f->model && i > 0) continue; int ln = 0; u32 p = f.pc ? f.pc - 1 : 0; if (p < f.f->code.size()) ln = f.f->code[p].line; snprintf(b, sizeof b, "%s (%s:%d)", f.f->name.c_str(), f.f->file.c_str(), ln); return b; }
  return "?";
}
static string stackOf(State &s) { Thread &t = s.th[s.cur]; string r; int n = 0; for (int i = t.st.size() - 1; i >= 0 && n < 14; i--, n++) { Frame &f = t.st[i]; u32 p = f.pc ? f.pc - 1 : 0; char b[200]; snprintf(b, sizeof b, "%s:%d ", f.f->name.c_str(), p < f.f->code.size() ? f.f->code[p].line : 0); r += b; } return r; }
static void record(State &s, const string &kind, const string &msg, const Model &m) {
  Viol v; v.kind = kind; v.msg = msg; v.loc = where(s); v.stack = stackOf(s); v.insts = s.insts; v.notes = s.notes;
  for (auto &r : s.log) { vector<u8> b; for (auto &x : r.bytes) b.push_back((u8)evalMV(m, x)); v.in.push_back({r.name, b}); }
  int same = 0; for (auto &o : VIOL) if (o.kind == v.kind && o.msg == v.msg && o.loc == v.loc) same++;
  if (same < 2) VIOL.push_back(v);
  if (O.dbg) { fprintf(stderr, "VIOL %s: %s at %s\n  stack %s\n", kind.c_str(), msg.c_str(), v.loc.c_str(), v.stack.c_str()); }
}
[[noreturn]] static void fail(State &s, const string &kind, const string &msg) { record(s, kind, msg, *s.model); throw PathEnd(); }
static void addPC(State &s, Lit l) { if (l == L1) return; s.pc.push_back(l); pcPush(l); }

static State *forkState(State &s) { ST.forks++; State *n = new State(s); Thread &t = n->th[n->cur]; t.st.back().pc--; return n; }
static void checkTaint(State &s, Lit c, const ModelP &mt, const ModelP &mf) {
  if (!G.n[c >> 1].taint) return;
  // does the outcome depend on uninitialised bytes alone?
  vector<Lit> as = s.pc; std::unordered_set<u32> seen; vector<u32> st{c >> 1}; for (Lit l : s.pc) st.push_back(l >> 1);
  while (!st.empty()) { u32 v = st.back(); st.pop_back(); if (!seen.insert(v).second) continue; const Node &q = G.n[v]; if (q.type == NT_VAR) { if (!q.taint) as.push_back(v << 1 | (mt->v.size() > q.a && mt->v[q.a] ? 0 : 1)); } else if (q.type != NT_CONST) { st.push_back(q.a >> 1); st.push_back(q.b >> 1); } }
  ModelP m2; int r = query(as, c ^ 1, &m2);
  if (r == 1) fail(s, "uninit", "a branch depends on uninitialised memory");
}
// decide a condition for the current path; forks a sibling that re-executes the instruction when both sides are possible
static bool decide(State &s, Lit c) {
  c = simplify(c);
  if (c <= 1) return c == L1;
  bool mv = evalM(*s.model, c);
  ModelP om; int r = query(s.pc, mv ? c ^ 1 : c, &om);
  if (r == 1) {
    if (G.n[c >> 1].taint) checkTaint(s, c, mv ? s.model : om, mv ? om : s.model);
    State *n = forkState(s); n->pc.push_back(mv ? c ^ 1 : c); n->model = om; WORK.push_back(n);
    addPC(s, mv ? c : c ^ 1);
  } else if (r == 0) { if (ST.unsat % 7 == 1) z3confirm(s.pc, mv ? c ^ 1 : c); fset(mv ? c : c ^ 1); }
  else { addPC(s, mv ? c : c ^ 1); }
  return mv;
}
static bool maybe(State &s, Lit c, ModelP *m) { // is c satisfiable on this path?
  c = simplify(c); if (c <= 1) { if (c == L1 && m) *m = s.model; return c == L1; }
  if (evalM(*s.model, c)) { if (m) *m = s.model; return true; }
  return query(s.pc, c, m) == 1;
}
static u64 concretize(State &s, V v) {
  if (!v.s) return v.c;
  u32 w = v.s->w; Bits b; toBits(v, w, b); bool cc = true; u64 x = 0;
  for (u32 i = 0; i < w; i++) { b.l[i] = simplify(b.l[i]); if (b.l[i] > 1) cc = false; else x |= (u64)b.l[i] << i; }
  if (cc) return x;
  x = evalMV(*s.model, v); Bits k; toBits(C(x), w, k); Lit e = eqBits(b, k); ST.concretize++;
  e = simplify(e); if (e == L1) return x; 
  ModelP om; int r = query(s.pc, e ^ 1, &om);
  if (r == 1) {
    if (G.n[e >> 1].taint) checkTaint(s, e, s.model, om);
    State *n = forkState(s); n->pc.push_back(e ^ 1); n->model = om; WORK.push_back(n);
  }
  addPC(s, e);
  return x;
}

static Obj *objOf(State &s, u64 a, u64 n, u64 &off, bool wr) {
  u32 id = a >> 32; 
  if (a < (1ull << 32)) { fail(s, "memory", a < 4096 ? (wr ? "NULL pointer write" : "NULL pointer read") : "wild pointer access"); }
  if (id >= s.objs.size() || !s.objs[id].p) {
    if (id < s.freed.size() && s.freed[id]) fail(s, "memory", s.freed[id] == 2 ? "stack use after return" : "use after free");
    if (FNA.count(a)) fail(s, "memory", "data access to a function");
    fail(s, "memory", "wild pointer access");
  }
  Obj *o = s.objs[id].p; off = (a & 0xffffffffull) - BASE;
  if (off > o->size || n > o->size - off) { char b[160]; snprintf(b, sizeof b, "out-of-bounds %s of %llu bytes at offset %lld of a %llu-byte %s object", wr ? "write" : "read", (unsigned long long)n, (long long)off, (unsigned long long)o->size, o->kind == K_HEAP ? "heap" : o->kind == K_STACK ? "stack" : o->kind <= K_CONST ? "global" : "mapped"); fail(s, "memory", b); }
  if (wr) {
    if (o->kind == K_CONST) fail(s, "memory", "write to constant data");
    if (o->rc > 1) { Obj *c = new Obj(*o); c->rc = 0; s.objs[id] = Ref<Obj>(c); o = c; }
  }
  return o;
}
static void raceAccess(State &s, u64 a, u64 n, bool wr);
static inline bool raceOn(State &s) { return !O.norace && s.th.size() > 1 && s.th[s.cur].st.back().f->lib; }
static V loadV(State &s, u64 a, u32 nb, u32 w) {
  u64 off; Obj *o = objOf(s, a, nb, off, false);
  if (raceOn(s)) raceAccess(s, a, nb, false);
  u32 pi = off / PG, po = off % PG;
  if (po + nb <= PG) {
    Page *p = o->get(pi);
    if (!p) { if (!o->uninit) return C(0); }
    else if (!p->s) { u64 x = 0; memcpy(&x, p->d + po, nb); return C(x & msk(w)); }
    else { bool any = false; for (u32 i = 0; i < nb; i++) if (p->s[po + i]) { any = true; break; } if (!any) { u64 x = 0; memcpy(&x, p->d + po, nb); return C(x & msk(w)); } }
  }
  Lit l[64]; Obj *ow = nullptr;
  for (u32 i = 0; i < nb; i++) {
    u64 q = off + i; Page *p = (ow ? ow : o)->get(q / PG); const SymByte *sb = p ? (p->s ? p->s[q % PG] : nullptr) : (o->uninit ? UNINIT : nullptr);
    if (sb == UNINIT) { // materialise as a tainted unknown
      if (!ow) ow = objOf(s, a, nb, off, o->kind != K_CONST); Page *wp = ow->own(q / PG); Lit nl[8]; for (int k = 0; k < 8; k++) nl[k] = freshLit(true); const SymByte *nsb = mkByte(nl);
      wp->s[q % PG] = nsb; sb = nsb;
    }
    if (sb) memcpy(l + 8 * i, sb->l, 8 * sizeof(Lit)); else { u8 d = p ? p->d[q % PG] : 0; for (int k = 0; k < 8; k++) l[8 * i + k] = (d >> k) & 1; }
  }
  return fromBits(l, w);
}
static void storeV(State &s, u64 a, u32 nb, V v) {
  u64 off; Obj *o = objOf(s, a, nb, off, true);
  if (raceOn(s)) raceAccess(s, a, nb, true);
  for (u32 i = 0; i < nb;) {
    u64 q = off + i; Page *p = o->own(q / PG); u32 po = q % PG; u32 m = std::min<u32>(nb - i, PG - po);
    for (u32 k = 0; k < m; k++) {
      u32 j = i + k;
      if (!v.s) { p->d[po + k] = v.c >> (8 * j); if (p->s) p->s[po + k] = nullptr; }
      else {
        Lit l[8]; bool c = true; u8 d = 0; for (int b = 0; b < 8; b++) { l[b] = bitOf(v, 8 * j + b); if (l[b] > 1) c = false; else d |= l[b] << b; }
        if (c) { p->d[po + k] = d; if (p->s) p->s[po + k] = nullptr; }
        else { if (!p->s) { p->s = new const SymByte *[PG]; memset(p->s, 0, PG * sizeof(*p->s)); } p->s[po + k] = mkByte(l); }
      }
    }
    i += m;
  }
}
// a read at a symbolic index of a constant table becomes a multiplexer instead of a fork per index
static bool tableLoad(State &s, const V &p, u32 nb, u32 w, V &out) {
  Lit l[64]; u32 k = 0, pos[64]; u64 base = 0;
  for (u32 i = 0; i < 64; i++) { l[i] = simplify(bitOf(p, i)); if (l[i] > 1) { if (i >= 32 || k == 10) return false; pos[k++] = i; } else base |= (u64)l[i] << i; }
  if (!k) return false; u32 id = base >> 32; if (id >= s.objs.size() || !s.objs[id].p) return false;
  Obj *o = s.objs[id].p; if (o->kind != K_CONST || o->uninit) return false;
  vector<Bits> t(1u << k); vector<Lit> bad(1u << k, L0); bool anyBad = false;
  for (u32 i = 0; i < t.size(); i++) {
    u64 a = base; for (u32 j = 0; j < k; j++) if (i >> j & 1) a |= 1ull << pos[j];
    u64 off = (a & 0xffffffffull) - BASE; if (off > o->size || nb > o->size - off) { bad[i] = L1; anyBad = true; toBits(C(0), w, t[i]); } else toBits(loadV(s, a, nb, w), w, t[i]);
  }
  for (u32 j = 0, n = t.size() / 2; j < k; j++, n /= 2) for (u32 i = 0; i < n; i++) { // bit j selects between neighbours
    Bits r; r.w = w; for (u32 b = 0; b < w; b++) r.l[b] = G.Mux(l[pos[j]], t[2 * i + 1].l[b], t[2 * i].l[b]); bad[i] = G.Mux(l[pos[j]], bad[2 * i + 1], bad[2 * i]); t[i] = r; }
  if (anyBad && maybe(s, bad[0], nullptr)) return false;
  t[0].w = w; out = fromBits(t[0]); return true;
}
static V loadByte(State &s, u64 a) { return loadV(s, a, 1, 8); }
static void copyMem(State &s, u64 d, u64 sr, u64 n) {
  if (!n) return;
  u64 so, dof; Obj *a = objOf(s, sr, n, so, false); 
  if (raceOn(s)) { raceAccess(s, sr, n, false); raceAccess(s, d, n, true); }
  Ref<Obj> keep(a); // source may be COWed by the destination write
  Obj *b = objOf(s, d, n, dof, true);
  if (a != b && a->isBig == false && n > (1 << 16) && so % PG == dof % PG && !a->uninit && !b->uninit) {}
  // gather then scatter (handles overlap)
  vector<u8> buf(n); vector<const SymByte *> sb; bool any = false;
  for (u64 i = 0; i < n;) { u64 q = so + i; u32 po = q % PG; u32 m = std::min<u64>(n - i, PG - po); Page *p = a->get(q / PG);
    if (!p) { memset(&buf[i], 0, m); if (a->uninit) { if (!any) { sb.assign(n, nullptr); any = true; } for (u32 k = 0; k < m; k++) sb[i + k] = UNINIT; } }
    else { memcpy(&buf[i], p->d + po, m); if (p->s) for (u32 k = 0; k < m; k++) if (p->s[po + k]) { if (!any) { sb.assign(n, nullptr); any = true; } sb[i + k] = p->s[po + k]; } }
    i += m; }
  for (u64 i = 0; i < n;) { u64 q = dof + i; u32 po = q % PG; u32 m = std::min<u64>(n - i, PG - po); Page *p = b->own(q / PG);
    memcpy(p->d + po, &buf[i], m);
    if (any && !p->s) { p->s = new const SymByte *[PG]; memset(p->s, 0, PG * sizeof(*p->s)); }
    if (p->s) for (u32 k = 0; k < m; k++) p->s[po + k] = any ? sb[i + k] : nullptr;
    i += m; }
}
static u32 newObj(State &s, u64 size, Kind k, bool uninit) {
  Obj *o = new Obj; o->size = size; o->kind = k; o->uninit = uninit; u64 np = (size + PG - 1) / PG;
  if (np > 16384) o->isBig = true; else o->pg.resize(np);
  u32 id; if (k == K_STACK && s.freeStack.size() > 64) { id = s.freeStack.front(); s.freeStack.erase(s.freeStack.begin()); s.objs[id] = Ref<Obj>(o); if (id < s.freed.size()) s.freed[id] = 0; }
  else { id = s.objs.size(); s.objs.push_back(Ref<Obj>(o)); }
  return id;
}
static void markFreed(State &s, u32 id, u8 k) { if (s.freed.size() <= id) s.freed.resize(id + 64, 0); s.freed[id] = k; s.objs[id] = Ref<Obj>(); }

// ------------------------------------------------------------------ races (vector clocks)
static void raceAccess(State &s, u64 a, u64 n, bool wr) {
  u32 id = a >> 32; u64 off; Obj *o = objOf(s, a, n, off, false); if (o->kind == K_STACK || o->kind == K_CONST || o->kind == K_MODEL || o->kind == K_SPARSE) return;
  Thread &t = s.th[s.cur]; u32 me = s.cur, nt = s.th.size(); int ln = t.st.back().f->code[t.st.back().pc - 1].line; (void)id;
  if (t.vc.size() < nt) t.vc.resize(nt, 0);
  for (u64 i = 0; i < n; i++) {
    Cell &c = s.shadow[a + i];
    if (c.wc && c.wt != me && c.wc > t.vc[c.wt]) fail(s, "race", wr ? "data race: two unsynchronised writes" : "data race: read concurrent with a write");
    if (wr) { for (u32 k = 0; k < c.rd.size(); k++) if (k != me && c.rd[k] > t.vc[k]) fail(s, "race", "data race: write concurrent with a read"); c.wt = me; c.wc = t.vc[me]; c.wl = ln; c.rd.clear(); }
    else { if (c.rd.size() < nt) c.rd.resize(nt, 0); c.rd[me] = t.vc[me]; }
  }
}

// ------------------------------------------------------------------ calls
static void pushFrame(State &s, Fn *f, const vector<V> &args, int dst, u8 dstw, const vector<u32> *byval = nullptr) {
  Thread &t = s.th[s.cur];
  if (t.st.size() > 4000) fail(s, "stack", "unbounded recursion");
  t.st.emplace_back(); Frame &fr = t.st.back(); fr.f = f; fr.r.assign(f->nregs, C(0)); fr.dst = dst; fr.dstw = dstw; f->calls++;
  for (u32 i = 0; i < f->nargs; i++) {
    V v = i < args.size() ? args[i] : freshV(f->argw[i], true);
    if (byval && i < byval->size() && (*byval)[i]) { u32 id = newObj(s, (*byval)[i], K_STACK, true); copyMem(s, mkaddr(id), v.c, (*byval)[i]); t.st.back().allocas.push_back(id); v = C(mkaddr(id)); }
    t.st.back().r[i] = v;
  }
  if (f->vararg && args.size() > f->nargs) {
    u32 id = newObj(s, 8 * (args.size() - f->nargs) + 8, K_STACK, false); Frame &fr2 = t.st.back(); fr2.allocas.push_back(id); fr2.va = id;
    for (size_t i = f->nargs; i < args.size(); i++) { V v = args[i]; if (v.s && v.s->w < 64) { Bits b; toBits(v, 64, b); v = fromBits(b); } storeV(s, mkaddr(id) + 8 * (i - f->nargs), 8, v); }
  }
  f->blk[0].hit = true;
}
static void popFrame(State &s) { Thread &t = s.th[s.cur]; for (u32 id : t.st.back().allocas) { markFreed(s, id, 2); s.freeStack.push_back(id); } t.st.pop_back(); }

// ------------------------------------------------------------------ builtins
enum Bi { B_NONE, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_MEMCPY, B_MEMSET, B_MEMCMP, B_STRLEN, B_STRCMP, B_STRNCMP, B_STRCHR, B_ABORT, B_EXIT, B_NOP, B_VASTART, B_VACOPY, B_EXPECT, B_TLSADDR,
  B_SYM, B_BETWEEN, B_ASSUME, B_ASSERT, B_FAIL, B_REACH, B_CONC, B_LIVE, B_MALLOCM, B_SPARSE, B_SNAP, B_RELOBJ, B_TRY, B_THROW, B_SPAWN, B_SWITCH, B_SELF, B_ACQ, B_REL, B_PARAM, B_NOTE, B_EQ, B_POISON, B_MUX, B_TRAP, B_FSHL, B_FSHR, B_BSWAP, B_UMIN, B_UMAX, B_SMIN, B_SMAX, B_ABS, B_OBJSIZE, B_PATHEND, B_ISINIT, B_ISCONST, B_FEAS, B_CTLZ, B_CTPOP, B_CTTZ, B_ROBJ, B_UADDO, B_LASTADDR };
static Bi biOf(const string &n) {
  static const std::map<string, Bi> m = {
    {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"strlen", B_STRLEN}, {"strcmp", B_STRCMP}, {"strncmp", B_STRNCMP}, {"strchr", B_STRCHR}, {"abort", B_ABORT}, {"exit", B_EXIT}, {"_exit", B_EXIT}, {"__assert_fail", B_ABORT},
    {"sx_sym", B_SYM}, {"sx_between", B_BETWEEN}, {"sx_assume", B_ASSUME}, {"sx_assert_", B_ASSERT}, {"sx_fail", B_FAIL}, {"sx_reach", B_REACH}, {"sx_concretize", B_CONC}, {"sx_heap_live", B_LIVE}, {"sx_malloc", B_MALLOCM}, {"sx_sparse", B_SPARSE}, {"sx_snapshot", B_SNAP}, {"sx_obj_free", B_RELOBJ}, {"sx_try", B_TRY}, {"sx_throw", B_THROW}, {"sx_spawn", B_SPAWN}, {"sx_switch", B_SWITCH}, {"sx_self", B_SELF}, {"sx_acquire", B_ACQ}, {"sx_release", B_REL}, {"sx_param", B_PARAM}, {"sx_note", B_NOTE}, {"sx_eq", B_EQ}, {"sx_poison", B_POISON}, {"sx_end", B_PATHEND}, {"sx_isinit", B_ISINIT}, {"sx_isconst", B_ISCONST}, {"sx_feasible", B_FEAS}, {"sx_const", B_ROBJ}};
  auto it = m.find(n); if (it != m.end()) return it->second;
  auto pre = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
  if (pre("llvm.dbg.") || pre("llvm.lifetime.") || pre("llvm.va_end") || pre("llvm.assume") || pre("llvm.experimental.noalias") || pre("llvm.stackrestore")) return B_NOP;
  if (pre("llvm.memcpy") || pre("llvm.memmove")) return B_MEMCPY;
  if (pre("llvm.memset")) return B_MEMSET;
  if (pre("llvm.va_start")) return B_VASTART; if (pre("llvm.va_copy")) return B_VACOPY;
  if (pre("llvm.expect")) return B_EXPECT; if (pre("llvm.threadlocal.address")) return B_TLSADDR; if (pre("llvm.trap")) return B_TRAP;
  if (pre("llvm.fshl")) return B_FSHL; if (pre("llvm.fshr")) return B_FSHR; if (pre("llvm.bswap")) return B_BSWAP;
  if (pre("llvm.umin")) return B_UMIN; if (pre("llvm.umax")) return B_UMAX; if (pre("llvm.smin")) return B_SMIN; if (pre("llvm.smax")) return B_SMAX; if (pre("llvm.abs")) return B_ABS; if (pre("llvm.objectsize")) return B_OBJSIZE;
  if (pre("llvm.ctlz")) return B_CTLZ; if (pre("llvm.cttz")) return B_CTTZ; if (pre("llvm.ctpop")) return B_CTPOP;
  return B_NONE;
}
static string cstr(State &s, u64 a) { string r; for (;;) { V v = loadByte(s, a++); if (v.s || !v.c) break; r += (char)v.c; if (r.size() > 400) break; } return r; }
static V tlsAddr(State &s, u32 gi) {
  Thread &t = s.th[s.cur]; u32 base = TLSIDX[(void *)TLSG[gi]];
  if (s.cur == 0) return C(mkaddr(base));
  auto it = t.tls.find(base); if (it != t.tls.end()) return C(mkaddr(it->second));
  Obj *o = new Obj(*GLOB[base].p); o->rc = 0; u32 id = s.objs.size(); s.objs.push_back(Ref<Obj>(o)); t.tls[base] = id; return C(mkaddr(id));
}
static V icmpV(int pred, V a, V b, u32 w);
static V binV(State &s, int op, V a, V b, u32 w);
// returns true when a result value was produced
static bool builtin(State &s, Inst &I, Bi b, vector<V> &a, V &res) {
  res = C(0);
  switch (b) {
    case B_NOP: return true;
    case B_MALLOC: case B_CALLOC: {
      u64 n = concretize(s, a[0]); if (b == B_CALLOC) n *= concretize(s, a[1]);
      if (n > (1ull << 31)) { res = C(0); return true; }
      u32 id = newObj(s, n, K_HEAP, b == B_MALLOC); s.objs[id]->site = I.line; s.heap++; s.heapIds.insert(id); res = C(mkaddr(id)); return true;
    }
    case B_REALLOC: {
      u64 n = concretize(s, a[1]); u64 p = concretize(s, a[0]);
      u32 old = p >> 32;
      if (p) { if (old >= s.objs.size() || !s.objs[old].p || s.objs[old]->kind != K_HEAP || p != mkaddr(old)) fail(s, "memory", "realloc of an invalid or freed pointer"); }
      u32 id = newObj(s, n, K_HEAP, true); s.objs[id]->site = I.line; s.heapIds.insert(id);
      if (p) { u64 m = std::min<u64>(n, s.objs[old]->size); copyMem(s, mkaddr(id), p, m); markFreed(s, old, 1); s.heapIds.erase(old); } else s.heap++;
      res = C(mkaddr(id)); return true;
    }
    case B_FREE: {
      u64 p = concretize(s, a[0]); if (!p) return true; u32 id = p >> 32;
      if (id >= s.objs.size() || !s.objs[id].p) fail(s, "memory", id < s.freed.size() && s.freed[id] ? "double free" : "free of a wild pointer");
      if (s.objs[id]->kind != K_HEAP || p != mkaddr(id)) fail(s, "memory", "free of a pointer that was not allocated");
      if (s.th.size() > 1) { u64 n = s.objs[id]->size; if (raceOn(s)) raceAccess(s, p, std::min<u64>(n, 64), true); }
      markFreed(s, id, 1); s.heap--; s.heapIds.erase(id); return true;
    }
    case B_MEMCPY: { u64 n = concretize(s, a[2]); u64 d = concretize(s, a[0]), q = concretize(s, a[1]); copyMem(s, d, q, n); res = C(d); return true; }
    case B_MEMSET: {
      u64 n = concretize(s, a[2]), d = concretize(s, a[0]); V v = a[1]; res = C(d); if (!n) return true;
      u64 off; Obj *o = objOf(s, d, n, off, true); if (raceOn(s)) raceAccess(s, d, n, true);
      if (!v.s) { for (u64 i = 0; i < n;) { u64 q = off + i; u32 po = q % PG, m = std::min<u64>(n - i, PG - po); Page *p = o->own(q / PG); memset(p->d + po, (int)v.c, m); if (p->s) memset(p->s + po, 0, m * sizeof(*p->s)); i += m; } }
      else { Bits bb; toBits(v, 8, bb); V v8 = fromBits(bb); for (u64 i = 0; i < n; i++) storeV(s, d + i, 1, v8); }
      return true;
    }
    case B_EQ: case B_MEMCMP: {
      u64 n = concretize(s, a[2]), p = concretize(s, a[0]), q = concretize(s, a[1]); Lit eq = L1, lt = L0;
      if (!n) { res = C(b == B_EQ ? 1 : 0); return true; }
      u64 t; objOf(s, p, n, t, false); objOf(s, q, n, t, false);
      for (i64 i = n - 1; i >= 0; i--) {
        V x = loadByte(s, p + i), y = loadByte(s, q + i);
        if (!x.s && !y.s) { if (x.c != y.c) { eq = L0; lt = x.c < y.c ? L1 : L0; } continue; }
        Bits bx, by; toBits(x, 8, bx); toBits(y, 8, by); Lit e = simplify(eqBits(bx, by)); if (e == L1) continue; eq = G.And(eq, e);
        if (b == B_MEMCMP) lt = G.Mux(e, lt, ultBits(bx, by));
      }
      if (b == B_EQ) { Lit l[32]; l[0] = eq; for (int k = 1; k < 32; k++) l[k] = L0; res = fromBits(l, 32); return true; }
      Lit l[32]; l[0] = eq ^ 1; for (int k = 1; k < 32; k++) l[k] = G.And(eq ^ 1, lt); res = fromBits(l, 32); return true;
    }
    case B_STRLEN: { u64 p = concretize(s, a[0]); u64 n = 0; for (;; n++) { V v = loadByte(s, p + n); Bits x, z; toBits(v, 8, x); toBits(C(0), 8, z); if (decide(s, eqBits(x, z))) break; } res = C(n); return true; }
    case B_STRCHR: { u64 p = concretize(s, a[0]); u64 ch = concretize(s, a[1]) & 255; for (u64 n = 0;; n++) { V v = loadByte(s, p + n); Bits x, z; toBits(v, 8, x); toBits(C(ch), 8, z); if (decide(s, eqBits(x, z))) { res = C(p + n); return true; } toBits(C(0), 8, z); if (decide(s, eqBits(x, z))) { res = C(0); return true; } } }
    case B_STRCMP: case B_STRNCMP: {
      u64 p = concretize(s, a[0]), q = concretize(s, a[1]); u64 n = b == B_STRNCMP ? concretize(s, a[2]) : ~0ull; res = C(0);
      for (u64 i = 0; i < n; i++) {
        V x = loadByte(s, p + i), y = loadByte(s, q + i); Bits bx, by, z; toBits(x, 8, bx); toBits(y, 8, by); toBits(C(0), 8, z);
        if (!decide(s, eqBits(bx, by))) { res = C(decide(s, ultBits(bx, by)) ? 0xffffffffull : 1); return true; }
        if (decide(s, eqBits(bx, z))) return true;
      }
      return true;
    }
    case B_ABORT: fail(s, "abort", "the library aborts the process");
    case B_EXIT: throw PathEnd();
    case B_TRAP: fail(s, "abort", "trap");
    case B_VASTART: { u64 p = concretize(s, a[0]); Frame &f = s.th[s.cur].st.back(); storeV(s, p, 4, C(48)); storeV(s, p + 4, 4, C(176)); storeV(s, p + 8, 8, C(f.va ? mkaddr(f.va) : 0)); storeV(s, p + 16, 8, C(0)); return true; }
    case B_VACOPY: copyMem(s, a[0].c, a[1].c, 24); return true;
    case B_EXPECT: res = a[0]; return true;
    case B_TLSADDR: { u64 p = a[0].c; for (u32 i = 0; i < TLSG.size(); i++) if (mkaddr(TLSIDX[(void *)TLSG[i]]) == p) { res = tlsAddr(s, i); return true; } res = a[0]; return true; }
    case B_OBJSIZE: res = C(~0ull & msk(I.w)); return true;
    case B_FSHL: case B_FSHR: {
      u32 w = I.w; u64 sh = concretize(s, a[2]) % w; if (b == B_FSHR) sh = (w - sh) % w; Bits x, y, o; toBits(a[0], w, x); toBits(a[1], w, y); o.w = w;
      if (b == B_FSHR && sh == 0) { res = a[1]; return true; }
      for (u32 i = 0; i < w; i++) o.l[i] = i >= sh ? x.l[i - sh] : y.l[w - sh + i]; res = fromBits(o); return true;
    }
    case B_BSWAP: { u32 w = I.w; Bits x, o; toBits(a[0], w, x); o.w = w; for (u32 i = 0; i < w; i++) o.l[i] = x.l[(w / 8 - 1 - i / 8) * 8 + i % 8]; res = fromBits(o); return true; }
    case B_UMIN: case B_UMAX: case B_SMIN: case B_SMAX: {
      u32 w = I.w; V c = icmpV((b == B_UMIN) ? LLVMIntULT : b == B_UMAX ? LLVMIntUGT : b == B_SMIN ? LLVMIntSLT : LLVMIntSGT, a[0], a[1], w); Lit l = bitOf(c, 0);
      Bits x, y; toBits(a[0], w, x); toBits(a[1], w, y); for (u32 i = 0; i < w; i++) x.l[i] = G.Mux(l, x.l[i], y.l[i]); res = fromBits(x); return true;
    }
    case B_ABS: { u32 w = I.w; Bits x, z, n; toBits(a[0], w, x); toBits(C(0), w, z); subBits(z, x, n); Lit sg = x.l[w - 1]; for (u32 i = 0; i < w; i++) x.l[i] = G.Mux(sg, n.l[i], x.l[i]); res = fromBits(x); return true; }
    case B_CTPOP: { u64 x = concretize(s, a[0]); res = C(__builtin_popcountll(x)); return true; }
    case B_CTLZ: { u64 x = concretize(s, a[0]); res = C(x ? __builtin_clzll(x) - (64 - I.w) : I.w); return true; }
    case B_CTTZ: { u64 x = concretize(s, a[0]); res = C(x ? __builtin_ctzll(x) : I.w); return true; }
    // ---- harness interface
    case B_SYM: {
      u64 p = a[0].c, n = a[1].c; SymRec r; r.name = cstr(s, a[2].c);
      for (u64 i = 0; i < n; i++) { V v = freshV(8, false); storeV(s, p + i, 1, v); r.bytes.push_back(v); }
      s.log.push_back(r); return true;
    }
    case B_BETWEEN: {
      u64 lo = a[0].c, hi = a[1].c; SymRec r; r.name = cstr(s, a[2].c); u64 d = hi - lo; u32 w = 0; while (w < 64 && (d >> w)) w++;
      Bits x; x.w = 64; for (u32 i = 0; i < 64; i++) x.l[i] = i < w ? freshLit(false) : L0;
      Bits dd; toBits(C(d), 64, dd); Lit ok = ultBits(dd, x) ^ 1; Bits l, o; toBits(C(lo), 64, l); addBits(x, l, L0, o); res = fromBits(o);
      for (int i = 0; i < 8; i++) { V bv = fromBits(o.l + 8 * i, 8); r.bytes.push_back(bv); }
      s.log.push_back(r);
      if (ok != L1) { if (!evalM(*s.model, ok)) { auto m = std::make_shared<Model>(*s.model); m->id = ++modelIds; for (u32 i = 0; i < w; i++) { u32 q = G.n[x.l[i] >> 1].a; if (q < m->v.size()) m->v[q] = 0; } s.model = m; } addPC(s, simplify(ok)); }
      return true;
    }
    case B_CONC: res = C(concretize(s, a[0])); return true;
    case B_MUX: return true;
    case B_ASSUME: {
      Bits x, z; toBits(a[0], 32, x); toBits(C(0), 32, z); Lit c = simplify(eqBits(x, z) ^ 1);
      if (c == L1) return true; if (c == L0) throw PathEnd();
      if (!evalM(*s.model, c)) { ModelP m; if (query(s.pc, c, &m) != 1) throw PathEnd(); s.model = m; }
      addPC(s, c); return true;
    }
    case B_ASSERT: {
      Bits x, z; toBits(a[0], 32, x); toBits(C(0), 32, z); Lit c = simplify(eqBits(x, z) ^ 1, 200000); string msg = cstr(s, a[1].c); ASSERTS[msg]++; ST.asserts++;
      if (c == L1) { ST.assertTriv++; return true; } ST.assertSolver++;
      if (c == L0) { ModelP m = s.model; record(s, "assert", msg, *m); throw PathEnd(); }
      ModelP m; bool bad = true; if (evalM(*s.model, c ^ 1)) m = s.model; else if (nearby(s.pc, c ^ 1, *s.model, &m)) {} else { int r = query(s.pc, c ^ 1, &m); if (r == 0) { z3confirm(s.pc, c ^ 1); bad = false; } else if (r < 0) { addPC(s, c); return true; } }
      if (bad) { record(s, "assert", msg, *m); ModelP m2; if (evalM(*s.model, c)) m2 = s.model; else if (query(s.pc, c, &m2, 3000) != 1) throw PathEnd(); s.model = m2; addPC(s, c); }
      else fset(c);
      return true;
    }
    case B_FAIL: { string msg = cstr(s, a[0].c); ASSERTS[msg]++; ST.asserts++; fail(s, "assert", msg); }
    case B_REACH: REACH[cstr(s, a[0].c)]++; return true;
    case B_PATHEND: throw PathEnd();
    case B_LIVE: res = C(s.heap); return true;
    case B_MALLOCM: { u64 n = concretize(s, a[0]); u32 id = newObj(s, n, K_MODEL, false); res = C(mkaddr(id)); return true; }
    case B_SPARSE: { u64 n = concretize(s, a[0]); u32 id = newObj(s, n, K_SPARSE, false); res = C(mkaddr(id)); return true; }
    case B_SNAP: { u64 n = concretize(s, a[1]), p = a[0].c; u64 off; Obj *o = objOf(s, p, n, off, false); Obj *c = new Obj(*o); c->rc = 0; c->size = n; c->kind = K_SPARSE; u32 id = s.objs.size(); s.objs.push_back(Ref<Obj>(c)); res = C(mkaddr(id)); return true; }
    case B_RELOBJ: { u64 p = a[0].c; u32 id = p >> 32; if (id >= s.objs.size() || !s.objs[id].p || p != mkaddr(id)) fail(s, "memory", "unmapping an invalid mapping"); markFreed(s, id, 1); return true; }
    case B_THROW: {
      Thread &t = s.th[s.cur]; while (t.st.size() > 1 && !t.st.back().trymark) popFrame(s); if (t.st.size() <= 1) fail(s, "engine", "a throw outside a try");
      Frame fr = t.st.back(); popFrame(s); Frame &c = t.st.back(); if (fr.dst >= 0) c.r[fr.dst] = C(1); return false;
    }
    case B_SPAWN: {
      Fn *f = FNA.count(a[0].c) ? FNA[a[0].c] : nullptr; if (!f) fail(s, "memory", "spawn of a non-function");
      u32 id = s.th.size(), me = s.cur; s.th.emplace_back(); Thread &t = s.th.back(); for (auto &q : s.th) q.vc.resize(s.th.size(), 0);
      t.vc = s.th[me].vc; t.vc[id] = 1; if (!s.th[me].vc[me]) s.th[me].vc[me] = 1; s.th[me].vc[me]++; 
      s.cur = id; pushFrame(s, f, {a[1]}, -1, 0); s.cur = me; res = C(id); return true;
    }
    case B_SWITCH: { u64 t = concretize(s, a[0]); if (t >= s.th.size() || s.th[t].done) fail(s, "engine", "switch to a dead thread"); s.cur = t; return true; }
    case B_SELF: res = C(s.cur); return true;
    case B_ACQ: { u32 id = a[0].c; auto &c = s.sync[id]; Thread &t = s.th[s.cur]; t.vc.resize(s.th.size(), 0); for (u32 i = 0; i < c.size() && i < t.vc.size(); i++) t.vc[i] = std::max(t.vc[i], c[i]); return true; }
    case B_REL: { u32 id = a[0].c; auto &c = s.sync[id]; Thread &t = s.th[s.cur]; t.vc.resize(s.th.size(), 0); if (!t.vc[s.cur]) t.vc[s.cur] = 1; c.resize(s.th.size(), 0); for (u32 i = 0; i < t.vc.size(); i++) c[i] = std::max(c[i], t.vc[i]); t.vc[s.cur]++; return true; }
    case B_PARAM: { string n = cstr(s, a[0].c); auto it = PARAM.find(n); res = it == PARAM.end() ? a[1] : C((u64)it->second); return true; }
    case B_NOTE: { string m = cstr(s, a[0].c); s.notes.push_back(m); if (O.trace) fprintf(stderr, "note: %s\n", m.c_str()); return true; }
    case B_POISON: { u64 p = a[0].c, n = a[1].c; u64 off; if (!n) return true; Obj *o = objOf(s, p, n, off, true); for (u64 i = 0; i < n; i++) { Page *pg = o->own((off + i) / PG); if (!pg->s) { pg->s = new const SymByte *[PG]; memset(pg->s, 0, PG * sizeof(*pg->s)); } pg->s[(off + i) % PG] = UNINIT; } return true; }
    case B_ISINIT: { u64 p = a[0].c, n = a[1].c; u64 off; Obj *o = objOf(s, p, n, off, false); bool ok = true; for (u64 i = 0; i < n; i++) { Page *pg = o->get((off + i) / PG); const SymByte *sb = pg ? (pg->s ? pg->s[(off + i) % PG] : nullptr) : (o->uninit ? UNINIT : nullptr); if (sb == UNINIT) ok = false; else if (sb) for (int k = 0; k < 8; k++) if (G.n[sb->l[k] >> 1].taint) ok = false; } res = C(ok); return true; }
    case B_ISCONST: res = C(!a[0].s); return true;
    case B_FEAS: { Bits x, z; toBits(a[0], 32, x); toBits(C(0), 32, z); res = C(maybe(s, eqBits(x, z) ^ 1, nullptr)); return true; }
    case B_ROBJ: { u64 p = a[0].c; u64 off; Obj *o = objOf(s, p, 0, off, true); if (o->kind == K_MODEL || o->kind == K_HEAP || o->kind == K_STACK) o->kind = K_CONST; return true; }
    default: break;
  }
  engerr("builtin not implemented in %s", I.msg.c_str()); throw PathEnd();
}

// ------------------------------------------------------------------ scalar ops
static V icmpV(int pred, V a, V b, u32 w) {
  if (!a.s && !b.s) {
    u64 x = a.c & msk(w), y = b.c & msk(w); i64 sx = (i64)(x << (64 - w)) >> (64 - w), sy = (i64)(y << (64 - w)) >> (64 - w); bool r = false;
    switch (pred) { case LLVMIntEQ: r = x == y; break; case LLVMIntNE: r = x != y; break; case LLVMIntUGT: r = x > y; break; case LLVMIntUGE: r = x >= y; break; case LLVMIntULT: r = x < y; break; case LLVMIntULE: r = x <= y; break; case LLVMIntSGT: r = sx > sy; break; case LLVMIntSGE: r = sx >= sy; break; case LLVMIntSLT: r = sx < sy; break; case LLVMIntSLE: r = sx <= sy; break; }
    return C(r);
  }
  Bits x, y; toBits(a, w, x); toBits(b, w, y); Lit r;
  if (pred >= LLVMIntSGT) { x.l[w - 1] ^= 1; y.l[w - 1] ^= 1; }
  switch (pred) { case LLVMIntEQ: r = eqBits(x, y); break; case LLVMIntNE: r = eqBits(x, y) ^ 1; break;
    case LLVMIntUGT: case LLVMIntSGT: r = ultBits(y, x); break; case LLVMIntUGE: case LLVMIntSGE: r = ultBits(x, y) ^ 1; break; case LLVMIntULT: case LLVMIntSLT: r = ultBits(x, y); break; default: r = ultBits(y, x) ^ 1; }
  return fromLit(r);
}
static V binV(State &s, int op, V a, V b, u32 w);
// whether a + b, a - b or a * b does not fit in w bits
static V ovfV(State &s, int op, V a, V b, u32 w, bool sg) {
  if (op == LLVMMul && w > 32) { a = C(concretize(s, a)); b = C(concretize(s, b)); }
  if (!a.s && !b.s) {
    u64 x = a.c & msk(w), y = b.c & msk(w); __int128 p = sg ? (__int128)((i64)(x << (64 - w)) >> (64 - w)) : (__int128)x, q = sg ? (__int128)((i64)(y << (64 - w)) >> (64 - w)) : (__int128)y;
    __int128 lo = sg ? -((__int128)1 << (w - 1)) : 0, hi = sg ? ((__int128)1 << (w - 1)) - 1 : ((__int128)1 << w) - 1;
    if (op == LLVMMul && !sg) { unsigned __int128 m = (unsigned __int128)x * y; return C(m > (unsigned __int128)hi); }
    __int128 z = op == LLVMAdd ? p + q : op == LLVMSub ? p - q : p * q; return C(z < lo || z > hi);
  }
  if (op == LLVMMul) { // w <= 32: multiply in 64 bits
    Bits x, y, o; toBits(a, w, x); toBits(b, w, y); x.w = y.w = 64; for (u32 i = w; i < 64; i++) { x.l[i] = sg ? x.l[w - 1] : L0; y.l[i] = sg ? y.l[w - 1] : L0; }
    mulBits(x, y, o); Lit bad = L0; for (u32 i = w; i < 64; i++) bad = G.And(bad ^ 1, (sg ? G.Xor(o.l[i], o.l[w - 1]) : o.l[i]) ^ 1) ^ 1; return fromLit(bad);
  }
  Bits x, y, o; toBits(a, w, x); toBits(b, w, y); if (op == LLVMAdd) addBits(x, y, L0, o); else subBits(x, y, o);
  if (!sg) return fromLit(op == LLVMAdd ? ultBits(o, x) : ultBits(x, y));
  Lit p = x.l[w - 1], q = y.l[w - 1], z = o.l[w - 1]; if (op == LLVMSub) q ^= 1;
  return fromLit(G.And(G.Xor(p, q) ^ 1, G.Xor(p, z)));
}
static V binV(State &s, int op, V a, V b, u32 w) {
  if (!a.s && !b.s) {
    u64 x = a.c & msk(w), y = b.c & msk(w); i64 sx = (i64)(x << (64 - w)) >> (64 - w), sy = (i64)(y << (64 - w)) >> (64 - w); u64 r = 0;
    switch (op) {
      case LLVMAdd: r = x + y; break; case LLVMSub: r = x - y; break; case LLVMMul: r = x * y; break;
      case LLVMUDiv: case LLVMURem: case LLVMSDiv: case LLVMSRem: if (!y) fail(s, "arith", "division by zero"); r = op == LLVMUDiv ? x / y : op == LLVMURem ? x % y : op == LLVMSDiv ? (u64)(sy == -1 ? -sx : sx / sy) : (u64)(sy == -1 ? 0 : sx % sy); break;
      case LLVMShl: case LLVMLShr: case LLVMAShr: if (y >= w) fail(s, "arith", "shift amount out of range"); r = op == LLVMShl ? x << y : op == LLVMLShr ? x >> y : (u64)(sx >> y); break;
      case LLVMAnd: r = x & y; break; case LLVMOr: r = x | y; break; case LLVMXor: r = x ^ y; break; default: engerr("binary op %d", op); throw PathEnd();
    }
    return C(r & msk(w));
  }
  Bits x, y, o; toBits(a, w, x); toBits(b, w, y);
  switch (op) {
    case LLVMAdd: addBits(x, y, L0, o); break; case LLVMSub: subBits(x, y, o); break;
    case LLVMMul: if (b.s && !a.s) mulBits(y, x, o); else mulBits(x, y, o); break;
    case LLVMAnd: o.w = w; for (u32 i = 0; i < w; i++) o.l[i] = G.And(x.l[i], y.l[i]); break;
    case LLVMOr: o.w = w; for (u32 i = 0; i < w; i++) o.l[i] = G.Or(x.l[i], y.l[i]); break;
    case LLVMXor: o.w = w; for (u32 i = 0; i < w; i++) o.l[i] = G.Xor(x.l[i], y.l[i]); break;
    case LLVMShl: case LLVMLShr: case LLVMAShr: {
      if (b.s) { Bits ww; toBits(C(w), w, ww); ModelP m; Lit bad = ultBits(y, ww) ^ 1; if (maybe(s, bad, &m)) { ModelP keep = s.model; s.model = m; fail(s, "arith", "shift amount out of range"); } }
      else if (b.c >= w) fail(s, "arith", "shift amount out of range");
      shiftBits(x, y, op == LLVMShl ? 0 : op == LLVMLShr ? 1 : 2, o); break;
    }
    case LLVMUDiv: case LLVMURem: case LLVMSDiv: case LLVMSRem: {
      if (b.s) { Bits z; toBits(C(0), w, z); ModelP m; if (maybe(s, eqBits(y, z), &m)) { s.model = m; fail(s, "arith", "division by zero"); } } else if (!b.c) fail(s, "arith", "division by zero");
      for (u32 i = 0; i < w; i++) { x.l[i] = simplify(x.l[i]); y.l[i] = simplify(y.l[i]); }
      bool sg = op == LLVMSDiv || op == LLVMSRem; Lit sx = x.l[w - 1], sy = y.l[w - 1]; Bits z, n; toBits(C(0), w, z);
      if (sg) { subBits(z, x, n); for (u32 i = 0; i < w; i++) x.l[i] = G.Mux(sx, n.l[i], x.l[i]); subBits(z, y, n); for (u32 i = 0; i < w; i++) y.l[i] = G.Mux(sy, n.l[i], y.l[i]); }
      Bits q, r; udivBits(x, y, q, r); o = (op == LLVMUDiv || op == LLVMSDiv) ? q : r;
      if (sg) { Lit ng = op == LLVMSDiv ? G.Xor(sx, sy) : sx; subBits(z, o, n); for (u32 i = 0; i < w; i++) o.l[i] = G.Mux(ng, n.l[i], o.l[i]); }
      break;
    }
    default: engerr("binary op %d", op); throw PathEnd();
  }
  return fromBits(o);
}

// ------------------------------------------------------------------ interpreter
static inline V ev(const Frame &f, const Opnd &o) { if (o.reg >= 0) return f.r[o.reg]; if (o.reg == -1) return o.v; return freshV(o.w, true); }
static void enter(State &s, Frame &f, u32 from, u32 to) {
  Blk &b = f.f->blk[to]; b.hit = true;
  if (!b.phi.empty()) {
    static vector<V> tmp; tmp.clear();
    for (auto &p : b.phi) { bool ok = false; for (auto &e : p.in) if (e.first == from) { tmp.push_back(ev(f, e.second)); ok = true; break; } if (!ok) tmp.push_back(C(0)); }
    for (size_t i = 0; i < b.phi.size(); i++) f.r[b.phi[i].dst] = tmp[i];
  }
  f.pc = b.first;
}
static double dbl(u64 x) { double d; memcpy(&d, &x, 8); return d; } static u64 ubl(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static void run(State &s) {
  CUR = &s;
  for (;;) {
    Thread *t = &s.th[s.cur];
    if (t->st.empty()) { return; }
    Frame *f = &t->st.back();
    Inst &I = f->f->code[f->pc++];
    ST.insts++;
    if (++s.insts > O.insts) fail(s, "hang", "the path does not finish within the instruction budget");
    if ((ST.insts & 4095) == 0 && now() - T0 > O.time) { INCOMPLETE = true; throw PathEnd(); }
    switch (I.op) {
      case O_ALLOCA: { u64 n = I.k * concretize(s, ev(*f, I.o[0])); u32 id = newObj(s, n, K_STACK, true); f = &s.th[s.cur].st.back(); f->allocas.push_back(id); f->r[I.dst] = C(mkaddr(id)); break; }
      case O_LOAD: { if (I.k) { u64 a = concretize(s, ev(*f, I.o[0])) + I.k; f->r[I.dst] = loadV(s, a, I.w2, I.w); break; } { V p = ev(*f, I.o[0]), r; if (p.s && tableLoad(s, p, I.w2, I.w, r)) { f->r[I.dst] = r; break; } }
        u64 a = concretize(s, ev(*f, I.o[0])); f->r[I.dst] = loadV(s, a, I.w2, I.w); break; }
      case O_STORE: { u64 a = concretize(s, ev(*f, I.o[1])) + I.k; V v = ev(*f, I.o[0]); if (I.w < 8 && v.s) { Bits b; toBits(v, 8, b); v = fromBits(b); } storeV(s, a, I.w2, v); break; }
      case O_GEP: {
        V a = ev(*f, I.o[0]); u64 k = I.k; bool sym = a.s; 
        for (size_t i = 1; i < I.o.size() && !sym; i++) { V x = ev(*f, I.o[i]); if (x.s) { sym = true; break; } u32 w = I.o[i].w; i64 ix = (i64)(x.c << (64 - w)) >> (64 - w); k += ix * I.sc[i - 1]; }
        if (!sym) { f->r[I.dst] = C(a.c + k); break; }
        Bits acc, t1, t2; toBits(a, 64, acc); toBits(C(I.k), 64, t1); addBits(acc, t1, L0, t2); acc = t2;
        for (size_t i = 1; i < I.o.size(); i++) { V x = ev(*f, I.o[i]); u32 w = I.o[i].w; Bits bx; toBits(x, w, bx); for (u32 j = w; j < 64; j++) bx.l[j] = bx.l[w - 1]; bx.w = 64; Bits m, sc; toBits(C((u64)I.sc[i - 1]), 64, sc); mulBits(bx, sc, m); addBits(acc, m, L0, t2); acc = t2; }
        f->r[I.dst] = fromBits(acc); break;
      }
      case O_BIN: { V r = binV(s, I.sub, ev(*f, I.o[0]), ev(*f, I.o[1]), I.w); f->r[I.dst] = r; break; }
      case O_ICMP: { V r = icmpV(I.sub, ev(*f, I.o[0]), ev(*f, I.o[1]), I.w2); f->r[I.dst] = r; break; }
      case O_SELECT: {
        V c = ev(*f, I.o[0]); if (!c.s) { f->r[I.dst] = ev(*f, (c.c & 1) ? I.o[1] : I.o[2]); break; }
        Lit l = simplify(c.s->l[0]); Bits x, y; toBits(ev(*f, I.o[1]), I.w, x); toBits(ev(*f, I.o[2]), I.w, y); for (u32 i = 0; i < I.w; i++) x.l[i] = G.Mux(l, x.l[i], y.l[i]); f->r[I.dst] = fromBits(x); break;
      }
      case O_BR: enter(s, *f, f->f->blkOf[f->pc - 1], I.tgt[0]); break;
      case O_CBR: {
        V c = ev(*f, I.o[0]); bool b = c.s ? decide(s, c.s->l[0]) : (c.c & 1); f = &s.th[s.cur].st.back();
        enter(s, *f, f->f->blkOf[f->pc - 1], I.tgt[b ? 0 : 1]); break;
      }
      case O_SWITCH: {
        V c = ev(*f, I.o[0]); u32 to = I.tgt[0];
        for (size_t i = 0; i < I.cs.size(); i++) { if (!c.s) { if (c.c == I.cs[i]) { to = I.tgt[i + 1]; break; } } else { V e = icmpV(LLVMIntEQ, c, C(I.cs[i]), I.w); if (e.s ? decide(s, e.s->l[0]) : (e.c & 1)) { to = I.tgt[i + 1]; break; } } }
        f = &s.th[s.cur].st.back(); enter(s, *f, f->f->blkOf[f->pc - 1], to); break;
      }
      case O_RET: {
        V v = I.o.empty() ? C(0) : ev(*f, I.o[0]); int dst = f->dst; V more[8]; for (size_t k = 1; k < I.o.size(); k++) more[k] = ev(*f, I.o[k]); popFrame(s); t = &s.th[s.cur];
        if (t->st.empty()) { if (s.cur == 0) return; fail(s, "engine", "a thread function returned"); }
        if (dst >= 0) { t->st.back().r[dst] = v; for (size_t k = 1; k < I.o.size(); k++) t->st.back().r[dst + k] = more[k]; } break;
      }
      case O_OVF: { V x = ev(*f, I.o[0]), y = ev(*f, I.o[1]), r = ovfV(s, I.sub, x, y, I.w2, I.k); f->r[I.dst] = r; break; }
      case O_CALL: {
        Fn *g = I.callee; 
        static vector<V> args; args.clear(); for (size_t i = 0; i < I.o.size() - (I.callee ? 0 : 1); i++) args.push_back(ev(*f, I.o[i]));
        if (!g) { u64 a = concretize(s, ev(*f, I.o.back())); auto it = FNA.find(a); if (it == FNA.end()) fail(s, "memory", a ? "call through a wild pointer" : "call through a NULL pointer"); g = it->second; }
        if (g->isDecl) {
          Bi b = (Bi)I.bi; if (!I.callee || !b) b = biOf(g->name);
          if (b == B_NONE) { engerr("external function %s is not modelled", g->name.c_str()); throw PathEnd(); }
          if (b == B_TRY) { Fn *h = FNA.count(args[0].c) ? FNA[args[0].c] : nullptr; if (!h) fail(s, "memory", "sx_try of a non-function"); vector<V> a2{args[1]}; pushFrame(s, h, a2, I.dst, 32); s.th[s.cur].st.back().trymark = true; break; }
          V r; u32 cur = s.cur; vector<V> a2 = args; bool have = builtin(s, I, b, a2, r);
          if (have && I.dst >= 0) { s.th[cur].st.back().r[I.dst] = r; }
          break;
        }
        vector<V> a2 = args; pushFrame(s, g, a2, I.dst, I.w, I.byval.empty() ? nullptr : &I.byval); break;
      }
      case O_CAST: {
        V v = ev(*f, I.o[0]); V r;
        switch (I.sub) {
          case LLVMZExt: case LLVMPtrToInt: case LLVMIntToPtr: case LLVMBitCast: case LLVMTrunc: if (!v.s) r = C(v.c & msk(std::min<u32>(I.w2, I.w))); else { Bits b; b.w = I.w; for (u32 i = 0; i < I.w; i++) b.l[i] = i < I.w2 ? bitOf(v, i) : L0; r = fromBits(b); } break;
          case LLVMSExt: if (!v.s) r = C((u64)((i64)(v.c << (64 - I.w2)) >> (64 - I.w2)) & msk(I.w)); else { Bits b; b.w = I.w; for (u32 i = 0; i < I.w; i++) b.l[i] = bitOf(v, i < I.w2 ? i : I.w2 - 1); r = fromBits(b); } break;
          case LLVMUIToFP: r = C(ubl((double)concretize(s, v))); break;
          case LLVMSIToFP: { u64 x = concretize(s, v); r = C(ubl((double)((i64)(x << (64 - I.w2)) >> (64 - I.w2)))); break; }
          case LLVMFPToUI: r = C((u64)dbl(concretize(s, v)) & msk(I.w)); break;
          case LLVMFPToSI: r = C((u64)(i64)dbl(concretize(s, v)) & msk(I.w)); break;
          default: engerr("cast %d in %s", I.sub, f->f->name.c_str()); throw PathEnd();
        }
        s.th[s.cur].st.back().r[I.dst] = r; break;
      }
      case O_FBIN: { double x = dbl(concretize(s, ev(*f, I.o[0]))), y = dbl(concretize(s, ev(*f, I.o[1]))); f->r[I.dst] = C(ubl(I.sub == LLVMFAdd ? x + y : I.sub == LLVMFSub ? x - y : I.sub == LLVMFMul ? x * y : x / y)); break; }
      case O_FCMP: { double x = dbl(concretize(s, ev(*f, I.o[0]))), y = dbl(concretize(s, ev(*f, I.o[1]))); bool r = false; switch (I.sub) { case LLVMRealOEQ: r = x == y; break; case LLVMRealOGT: r = x > y; break; case LLVMRealOGE: r = x >= y; break; case LLVMRealOLT: r = x < y; break; case LLVMRealOLE: r = x <= y; break; default: r = x != y; } f->r[I.dst] = C(r); break; }
      case O_FREEZE: f->r[I.dst] = ev(*f, I.o[0]); break;
      case O_UNREACH: fail(s, "abort", "reached an unreachable point");
      default: engerr("unsupported instruction in %s: %s", f->f->name.c_str(), I.msg.c_str()); throw PathEnd();
    }
  }
}

// ------------------------------------------------------------------ loader
static u32 tyBits(LLVMTypeRef t) {
  switch (LLVMGetTypeKind(t)) { case LLVMIntegerTypeKind: return LLVMGetIntTypeWidth(t); case LLVMPointerTypeKind: return 64; case LLVMDoubleTypeKind: return 64; case LLVMFloatTypeKind: return 32; case LLVMVoidTypeKind: return 0; default: return 0; }
}
static Fn *fnOf(LLVMValueRef v) { auto it = FNV.find((void *)v); return it == FNV.end() ? nullptr : it->second; }
static u64 constVal(LLVMValueRef v, bool &undef);
static u64 constGep(LLVMValueRef v, bool &undef) {
  LLVMTypeRef t = LLVMGetGEPSourceElementType(v); u64 a = constVal(LLVMGetOperand(v, 0), undef); int n = LLVMGetNumOperands(v);
  for (int i = 1; i < n; i++) {
    bool u = false; u64 ix = constVal(LLVMGetOperand(v, i), u); u32 w = tyBits(LLVMTypeOf(LLVMGetOperand(v, i))); i64 sx = (i64)(ix << (64 - w)) >> (64 - w);
    if (i == 1) a += sx * (i64)LLVMABISizeOfType(TD, t);
    else if (LLVMGetTypeKind(t) == LLVMStructTypeKind) { a += LLVMOffsetOfElement(TD, t, ix); t = LLVMStructGetTypeAtIndex(t, ix); }
    else { t = LLVMGetElementType(t); a += sx * (i64)LLVMABISizeOfType(TD, t); }
  }
  return a;
}
static u64 constVal(LLVMValueRef v, bool &undef) {
  switch (LLVMGetValueKind(v)) {
    case LLVMConstantIntValueKind: return LLVMConstIntGetZExtValue(v);
    case LLVMConstantPointerNullValueKind: return 0;
    case LLVMGlobalVariableValueKind: return mkaddr(GOBJ[(void *)v]);
    case LLVMFunctionValueKind: return fnOf(v)->addr;
    case LLVMUndefValueValueKind: case LLVMPoisonValueValueKind: undef = true; return 0;
    case LLVMConstantFPValueKind: { LLVMBool li; return ubl(LLVMConstRealGetDouble(v, &li)); }
    case LLVMConstantExprValueKind: {
      switch (LLVMGetConstOpcode(v)) {
        case LLVMGetElementPtr: return constGep(v, undef);
        case LLVMBitCast: case LLVMPtrToInt: case LLVMIntToPtr: case LLVMZExt: return constVal(LLVMGetOperand(v, 0), undef);
        case LLVMTrunc: return constVal(LLVMGetOperand(v, 0), undef) & msk(tyBits(LLVMTypeOf(v)));
        case LLVMAdd: return constVal(LLVMGetOperand(v, 0), undef) + constVal(LLVMGetOperand(v, 1), undef);
        case LLVMSub: return constVal(LLVMGetOperand(v, 0), undef) - constVal(LLVMGetOperand(v, 1), undef);
        default: engerr("constant expression opcode %d", LLVMGetConstOpcode(v)); return 0;
      }
    }
    default: engerr("constant kind %d", LLVMGetValueKind(v)); return 0;
  }
}
static void initMem(Obj *o, u64 off, LLVMValueRef v) {
  LLVMTypeRef t = LLVMTypeOf(v); u64 sz = LLVMABISizeOfType(TD, t);
  auto put = [&](u64 q, u64 x, u32 n) { for (u32 i = 0; i < n; i++) o->own((q + i) / PG)->d[(q + i) % PG] = x >> (8 * i); };
  switch (LLVMGetValueKind(v)) {
    case LLVMConstantAggregateZeroValueKind: case LLVMUndefValueValueKind: case LLVMPoisonValueValueKind: return;
    case LLVMConstantDataArrayValueKind: { u32 n = LLVMGetArrayLength(t); u32 es = LLVMABISizeOfType(TD, LLVMGetElementType(t)); for (u32 i = 0; i < n; i++) { bool u = false; put(off + (u64)i * es, constVal(LLVMGetElementAsConstant(v, i), u), es); } return; }
    case LLVMConstantArrayValueKind: { u32 n = LLVMGetNumOperands(v); u32 es = LLVMABISizeOfType(TD, LLVMGetElementType(t)); for (u32 i = 0; i < n; i++) initMem(o, off + (u64)i * es, LLVMGetOperand(v, i)); return; }
    case LLVMConstantStructValueKind: { u32 n = LLVMGetNumOperands(v); for (u32 i = 0; i < n; i++) initMem(o, off + LLVMOffsetOfElement(TD, t, i), LLVMGetOperand(v, i)); return; }
    default: { bool u = false; u64 x = constVal(v, u); put(off, x, sz > 8 ? 8 : sz); }
  }
}
static string fileOf(LLVMValueRef v) { LLVMMetadataRef sp = LLVMGetSubprogram(v); if (!sp) return ""; LLVMMetadataRef f = LLVMDIScopeGetFile(sp); if (!f) return ""; unsigned n; const char *p = LLVMDIFileGetFilename(f, &n); string r(p, n); size_t k = r.rfind('/'); string full = r; unsigned dn; const char *d = LLVMDIFileGetDirectory(f, &dn); if (k == string::npos) return r; return r.substr(k + 1); }
// small structures held in registers (returned by value, or from an overflow intrinsic) take one register per field
static u32 aggN(LLVMTypeRef t) { if (LLVMGetTypeKind(t) != LLVMStructTypeKind) return 1; u32 n = LLVMCountStructElementTypes(t); if (!n || n > 8) return 1; for (u32 k = 0; k < n; k++) { u32 w = tyBits(LLVMStructGetTypeAtIndex(t, k)); if (!w || w > 64) return 1; } return n; }
static bool isAgg(LLVMTypeRef t) { return LLVMGetTypeKind(t) == LLVMStructTypeKind && (aggN(t) > 1 || (LLVMCountStructElementTypes(t) == 1 && tyBits(LLVMStructGetTypeAtIndex(t, 0)))); }
static bool isRepo(LLVMValueRef v) { LLVMMetadataRef sp = LLVMGetSubprogram(v); if (!sp) return false; LLVMMetadataRef f = LLVMDIScopeGetFile(sp); unsigned n; const char *p = LLVMDIFileGetFilename(f, &n); string r(p, n); static string rp = (getenv("URKEL_REPO") ? string(getenv("URKEL_REPO")) : string("/repo")) + "/"; return r.find(rp) != string::npos || r.find("URKEL_SRC") != string::npos; }
static void decodeFn(Fn *F) {
  LLVMValueRef v = F->v; std::unordered_map<void *, int> reg; std::unordered_map<void *, u32> bid; u32 nr = 0;
  for (LLVMValueRef p = LLVMGetFirstParam(v); p; p = LLVMGetNextParam(p)) reg[(void *)p] = nr++;
  u32 nb = 0; for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(v); b; b = LLVMGetNextBasicBlock(b)) { bid[(void *)b] = nb++; for (LLVMValueRef i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) if (LLVMGetTypeKind(LLVMTypeOf(i)) != LLVMVoidTypeKind) { reg[(void *)i] = nr; nr += aggN(LLVMTypeOf(i)); } }
  F->nregs = nr; F->blk.resize(nb);
  auto opnd = [&](LLVMValueRef x) { Opnd o; o.w = tyBits(LLVMTypeOf(x)); if (!o.w) o.w = 64; auto it = reg.find((void *)x); if (it != reg.end() && (LLVMIsAInstruction(x) || LLVMIsAArgument(x))) { o.reg = it->second; return o; } bool u = false; u64 c = constVal(x, u); if (u) o.reg = -2; else o.v = C(c & msk(o.w)); return o; };
  auto field = [&](LLVMValueRef x, u32 k) { Opnd o; LLVMTypeRef t = LLVMTypeOf(x); o.w = tyBits(LLVMStructGetTypeAtIndex(t, k)); auto it = reg.find((void *)x); if (it != reg.end() && LLVMIsAInstruction(x)) { o.reg = it->second + k; return o; } if (LLVMIsAConstantAggregateZero(x)) { o.v = C(0); return o; } if (LLVMGetValueKind(x) != LLVMConstantStructValueKind) { o.reg = -2; return o; } bool u = false; u64 c = constVal(LLVMGetOperand(x, k), u); if (u) o.reg = -2; else o.v = C(c & msk(o.w)); return o; };
  unsigned byvalKind = LLVMGetEnumAttributeKindForName("byval", 5);
  u32 cb = 0;
  for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(v); b; b = LLVMGetNextBasicBlock(b), cb++) {
    F->blk[cb].first = F->code.size();
    for (LLVMValueRef i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) {
      LLVMOpcode oc = LLVMGetInstructionOpcode(i); LLVMTypeRef ty = LLVMTypeOf(i);
      if (oc == LLVMPHI && isAgg(ty)) { for (u32 q = 0; q < aggN(ty); q++) { Phi p; p.dst = reg[(void *)i] + q; p.w = tyBits(LLVMStructGetTypeAtIndex(ty, q)); for (unsigned k = 0; k < LLVMCountIncoming(i); k++) p.in.push_back({bid[(void *)LLVMGetIncomingBlock(i, k)], field(LLVMGetIncomingValue(i, k), q)}); F->blk[cb].phi.push_back(p); } continue; }
      if (oc == LLVMPHI) { Phi p; p.dst = reg[(void *)i]; p.w = tyBits(ty); for (unsigned k = 0; k < LLVMCountIncoming(i); k++) p.in.push_back({bid[(void *)LLVMGetIncomingBlock(i, k)], opnd(LLVMGetIncomingValue(i, k))}); F->blk[cb].phi.push_back(p); continue; }
      Inst I; I.op = O_BAD; I.line = LLVMGetDebugLocLine(i); auto rt = reg.find((void *)i); I.dst = rt == reg.end() ? -1 : rt->second; I.w = tyBits(ty);
      auto bad = [&]() { char *m = LLVMPrintValueToString(i); I.msg = m; LLVMDisposeMessage(m); I.op = O_BAD; };
      auto push = [&](Inst &x) { F->code.push_back(x); F->blkOf.push_back(cb); };
      if (oc == LLVMExtractValue) { LLVMValueRef x = LLVMGetOperand(i, 0); if (LLVMGetNumIndices(i) != 1 || !isAgg(LLVMTypeOf(x)) || !I.w || I.w > 64) bad(); else { I.op = O_FREEZE; I.o.push_back(field(x, LLVMGetIndices(i)[0])); } push(I); continue; }
      if (I.dst >= 0 && isAgg(ty) && oc != LLVMCall) {
        u32 n = aggN(ty); int d0 = I.dst;
        if (oc == LLVMInsertValue && LLVMGetNumIndices(i) == 1) { u32 ix = LLVMGetIndices(i)[0]; for (u32 k = 0; k < n; k++) { Inst J = I; J.op = O_FREEZE; J.dst = d0 + k; J.w = tyBits(LLVMStructGetTypeAtIndex(ty, k)); J.o = {k == ix ? opnd(LLVMGetOperand(i, 1)) : field(LLVMGetOperand(i, 0), k)}; push(J); } continue; }
        if (oc == LLVMLoad) { for (u32 k = 0; k < n; k++) { Inst J = I; J.op = O_LOAD; J.dst = d0 + k; J.w = tyBits(LLVMStructGetTypeAtIndex(ty, k)); J.w2 = (J.w + 7) / 8; J.k = LLVMOffsetOfElement(TD, ty, k); J.o = {opnd(LLVMGetOperand(i, 0))}; push(J); } continue; }
        bad(); push(I); continue;
      }
      if (oc == LLVMStore && isAgg(LLVMTypeOf(LLVMGetOperand(i, 0)))) { LLVMValueRef x = LLVMGetOperand(i, 0); LLVMTypeRef at = LLVMTypeOf(x); for (u32 k = 0; k < aggN(at); k++) { Inst J = I; J.op = O_STORE; J.w = tyBits(LLVMStructGetTypeAtIndex(at, k)); J.w2 = (J.w + 7) / 8; J.k = LLVMOffsetOfElement(TD, at, k); J.o = {field(x, k), opnd(LLVMGetOperand(i, 1))}; push(J); } continue; }
      if (oc == LLVMRet && LLVMGetNumOperands(i) && isAgg(LLVMTypeOf(LLVMGetOperand(i, 0)))) { LLVMValueRef x = LLVMGetOperand(i, 0); I.op = O_RET; for (u32 k = 0; k < aggN(LLVMTypeOf(x)); k++) I.o.push_back(field(x, k)); push(I); continue; }
      if (oc == LLVMCall && isAgg(ty)) {
        LLVMValueRef cv = LLVMGetCalledValue(i); Fn *g = LLVMIsAFunction(cv) ? fnOf(cv) : nullptr; const string nm = g ? g->name : "";
        if (nm.compare(0, 5, "llvm.") == 0) {
          size_t at = nm.find(".with.overflow."); int op = nm.find("add.") == 6 ? LLVMAdd : nm.find("sub.") == 6 ? LLVMSub : nm.find("mul.") == 6 ? LLVMMul : 0; u32 w = tyBits(LLVMStructGetTypeAtIndex(ty, 0));
          if (at == string::npos || !op) { bad(); push(I); continue; }
          Inst J = I; J.op = O_BIN; J.sub = op; J.w = w; J.o = {opnd(LLVMGetOperand(i, 0)), opnd(LLVMGetOperand(i, 1))}; push(J);
          J.op = O_OVF; J.dst = I.dst + 1; J.w = 1; J.w2 = w; J.k = nm[5] == 's'; push(J); continue;
        }
        I.w = 64;
      }
      if (I.dst >= 0 && (I.w == 0 || I.w > 64)) { bad(); F->code.push_back(I); F->blkOf.push_back(cb); continue; }
      switch (oc) {
        case LLVMAlloca: I.op = O_ALLOCA; I.k = LLVMABISizeOfType(TD, LLVMGetAllocatedType(i)); I.o.push_back(opnd(LLVMGetOperand(i, 0))); break;
        case LLVMLoad: I.op = O_LOAD; I.w2 = (I.w + 7) / 8; I.o.push_back(opnd(LLVMGetOperand(i, 0))); break;
        case LLVMStore: { I.op = O_STORE; LLVMValueRef x = LLVMGetOperand(i, 0); u32 w = tyBits(LLVMTypeOf(x)); if (!w || w > 64) { bad(); break; } I.w = w; I.w2 = (w + 7) / 8; I.o.push_back(opnd(x)); I.o.push_back(opnd(LLVMGetOperand(i, 1))); break; }
        case LLVMGetElementPtr: {
          I.op = O_GEP; LLVMTypeRef t = LLVMGetGEPSourceElementType(i); I.o.push_back(opnd(LLVMGetOperand(i, 0))); int n = LLVMGetNumOperands(i);
          for (int k = 1; k < n; k++) {
            LLVMValueRef x = LLVMGetOperand(i, k);
            if (k > 1 && LLVMGetTypeKind(t) == LLVMStructTypeKind) { u64 ix = LLVMConstIntGetZExtValue(x); I.k += LLVMOffsetOfElement(TD, t, ix); t = LLVMStructGetTypeAtIndex(t, ix); continue; }
            if (k > 1) t = LLVMGetElementType(t);
            i64 sc = LLVMABISizeOfType(TD, t); Opnd o = opnd(x); if (o.reg == -1) { i64 sx = (i64)(o.v.c << (64 - o.w)) >> (64 - o.w); I.k += sx * sc; } else { I.o.push_back(o); I.sc.push_back(sc); }
          }
          break;
        }
        case LLVMAdd: case LLVMSub: case LLVMMul: case LLVMUDiv: case LLVMSDiv: case LLVMURem: case LLVMSRem: case LLVMShl: case LLVMLShr: case LLVMAShr: case LLVMAnd: case LLVMOr: case LLVMXor:
          I.op = O_BIN; I.sub = oc; I.o.push_back(opnd(LLVMGetOperand(i, 0))); I.o.push_back(opnd(LLVMGetOperand(i, 1))); break;
        case LLVMFAdd: case LLVMFSub: case LLVMFMul: case LLVMFDiv: I.op = O_FBIN; I.sub = oc; I.o.push_back(opnd(LLVMGetOperand(i, 0))); I.o.push_back(opnd(LLVMGetOperand(i, 1))); break;
        case LLVMFCmp: I.op = O_FCMP; I.sub = LLVMGetFCmpPredicate(i); I.o.push_back(opnd(LLVMGetOperand(i, 0))); I.o.push_back(opnd(LLVMGetOperand(i, 1))); break;
        case LLVMICmp: I.op = O_ICMP; I.sub = LLVMGetICmpPredicate(i); I.w2 = tyBits(LLVMTypeOf(LLVMGetOperand(i, 0))); I.o.push_back(opnd(LLVMGetOperand(i, 0))); I.o.push_back(opnd(LLVMGetOperand(i, 1))); if (!I.w2 || I.w2 > 64) bad(); break;
        case LLVMSelect: I.op = O_SELECT; for (int k = 0; k < 3; k++) I.o.push_back(opnd(LLVMGetOperand(i, k))); break;
        case LLVMBr: if (LLVMIsConditional(i)) { I.op = O_CBR; I.o.push_back(opnd(LLVMGetCondition(i))); } else I.op = O_BR; for (unsigned k = 0; k < LLVMGetNumSuccessors(i); k++) I.tgt.push_back(bid[(void *)LLVMGetSuccessor(i, k)]); break;
        case LLVMSwitch: { I.op = O_SWITCH; I.o.push_back(opnd(LLVMGetOperand(i, 0))); I.w = tyBits(LLVMTypeOf(LLVMGetOperand(i, 0))); for (unsigned k = 0; k < LLVMGetNumSuccessors(i); k++) I.tgt.push_back(bid[(void *)LLVMGetSuccessor(i, k)]); for (int k = 2; k < LLVMGetNumOperands(i); k += 2) I.cs.push_back(LLVMConstIntGetZExtValue(LLVMGetOperand(i, k))); break; }
        case LLVMRet: I.op = O_RET; if (LLVMGetNumOperands(i)) { u32 w = tyBits(LLVMTypeOf(LLVMGetOperand(i, 0))); if (!w || w > 64) { bad(); break; } I.o.push_back(opnd(LLVMGetOperand(i, 0))); } break;
        case LLVMUnreachable: I.op = O_UNREACH; break;
        case LLVMFreeze: I.op = O_FREEZE; I.o.push_back(opnd(LLVMGetOperand(i, 0))); break;
        case LLVMTrunc: case LLVMZExt: case LLVMSExt: case LLVMPtrToInt: case LLVMIntToPtr: case LLVMBitCast: case LLVMUIToFP: case LLVMSIToFP: case LLVMFPToUI: case LLVMFPToSI:
          I.op = O_CAST; I.sub = oc; I.w2 = tyBits(LLVMTypeOf(LLVMGetOperand(i, 0))); I.o.push_back(opnd(LLVMGetOperand(i, 0))); if (!I.w2 || I.w2 > 64) bad(); break;
        case LLVMCall: {
          I.op = O_CALL; LLVMValueRef cv = LLVMGetCalledValue(i); unsigned na = LLVMGetNumArgOperands(i); I.callee = LLVMIsAFunction(cv) ? fnOf(cv) : nullptr;
          if (!LLVMIsAFunction(cv) && !LLVMIsAInstruction(cv) && !LLVMIsAArgument(cv) && LLVMIsAConstant(cv)) { bad(); break; }
          if (I.callee && I.callee->isDecl) { I.bi = biOf(I.callee->name); if (I.bi == B_NOP) { I.o.clear(); break; } }
          bool ok = true;
          for (unsigned k = 0; k < na; k++) { LLVMValueRef x = LLVMGetOperand(i, k); if (LLVMGetTypeKind(LLVMTypeOf(x)) == LLVMMetadataTypeKind) { ok = false; break; } I.o.push_back(opnd(x)); LLVMAttributeRef at = LLVMGetCallSiteEnumAttribute(i, k + 1, byvalKind); if (at) { I.byval.resize(na, 0); I.byval[k] = LLVMABISizeOfType(TD, LLVMGetTypeAttributeValue(at)); } }
          if (!ok) { I.o.clear(); I.bi = B_NOP; break; }
          if (!I.callee) I.o.push_back(opnd(cv));
          break;
        }
        default: bad();
      }
      F->code.push_back(I); F->blkOf.push_back(cb);
    }
    F->blk[cb].n = F->code.size() - F->blk[cb].first;
  }
}
static void load(const char *path) {
  LLVMMemoryBufferRef mb; char *err = nullptr; LLVMContextRef ctx = LLVMGetGlobalContext();
  if (LLVMCreateMemoryBufferWithContentsOfFile(path, &mb, &err)) { fprintf(stderr, "usym: %s\n", err); exit(3); }
  if (LLVMParseBitcodeInContext2(ctx, mb, &M)) { fprintf(stderr, "usym: bad bitcode\n"); exit(3); }
  TD = LLVMGetModuleDataLayout(M);
  GLOB.push_back(Ref<Obj>());
  for (LLVMValueRef f = LLVMGetFirstFunction(M); f; f = LLVMGetNextFunction(f)) {
    Fn *F = new Fn; size_t n; F->name = string(LLVMGetValueName2(f, &n)); F->v = f; F->isDecl = LLVMIsDeclaration(f); F->nargs = LLVMCountParams(f); F->vararg = LLVMIsFunctionVarArg(LLVMGlobalGetValueType(f));
    for (LLVMValueRef p = LLVMGetFirstParam(f); p; p = LLVMGetNextParam(p)) { u32 w = tyBits(LLVMTypeOf(p)); F->argw.push_back(w ? w : 64); }
    F->file = fileOf(f); F->lib = !F->isDecl && isRepo(f); F->model = !F->lib && (F->name.compare(0, 2, "m_") == 0 || F->name.compare(0, 3, "sx_") == 0 || F->file == "posix.c" || F->file == "hash.c");
    F->id = FNS.size(); FNS.push_back(F); FN[F->name] = F; FNV[(void *)f] = F; u32 id = GLOB.size(); GLOB.push_back(Ref<Obj>()); F->addr = mkaddr(id); FNA[F->addr] = F;
  }
  // externals are served by the model
  for (Fn *F : FNS) if (F->isDecl) { string mn = "m_" + F->name; auto it = FN.find(mn); if (it != FN.end() && !it->second->isDecl) { FNV[(void *)F->v] = it->second; } }
  for (LLVMValueRef g = LLVMGetFirstGlobal(M); g; g = LLVMGetNextGlobal(g)) {
    u32 id = GLOB.size(); Obj *o = new Obj; LLVMTypeRef t = LLVMGlobalGetValueType(g); o->size = LLVMABISizeOfType(TD, t); o->kind = LLVMIsGlobalConstant(g) ? K_CONST : K_GLOBAL; u64 np = (o->size + PG - 1) / PG; if (np > 16384) o->isBig = true; else o->pg.resize(np);
    GLOB.push_back(Ref<Obj>(o)); GOBJ[(void *)g] = id; if (LLVMIsThreadLocal(g)) { TLSG.push_back(g); TLSIDX[(void *)g] = id; }
  }
  for (LLVMValueRef g = LLVMGetFirstGlobal(M); g; g = LLVMGetNextGlobal(g)) { LLVMValueRef in = LLVMGetInitializer(g); Obj *o = GLOB[GOBJ[(void *)g]].p; if (in) initMem(o, 0, in); }
  for (Fn *F : FNS) if (!F->isDecl) decodeFn(F);
}

// ------------------------------------------------------------------ output
static string esc(const string &s) { string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static void report() {
  FILE *f = O.out.empty() ? stdout : fopen(O.out.c_str(), "w"); if (!f) exit(3);
  fprintf(f, "{\"complete\":%s,\"paths\":%llu,\"forks\":%llu,\"insts\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"asserts\":%llu,\"asserts_by_rewriting\":%llu,\"asserts_by_solver\":%llu,\"z3_checked\":%llu,\"z3_agreed\":%llu,\"concretizations\":%llu,\"solver_s\":%.3f,\"z3_s\":%.3f,\"wall_s\":%.3f,\"conflicts\":%llu,\"aig_nodes\":%llu,\"inputs\":%llu,",
    INCOMPLETE ? "false" : "true", (unsigned long long)ST.paths, (unsigned long long)ST.forks, (unsigned long long)ST.insts, (unsigned long long)ST.queries, (unsigned long long)ST.sat, (unsigned long long)ST.unsat, (unsigned long long)ST.unknown, (unsigned long long)ST.asserts, (unsigned long long)ST.assertTriv, (unsigned long long)ST.assertSolver, (unsigned long long)ST.z3, (unsigned long long)ST.z3agree, (unsigned long long)ST.concretize, ST.solver, ST.z3time, now() - T0, (unsigned long long)S->conflicts, (unsigned long long)G.n.size(), (unsigned long long)G.vars.size());
  fprintf(f, "\"reach\":{"); bool c = false; for (auto &r : REACH) { fprintf(f, "%s\"%s\":%llu", c ? "," : "", esc(r.first).c_str(), (unsigned long long)r.second); c = true; }
  fprintf(f, "},\"assert_counts\":{"); c = false; for (auto &r : ASSERTS) { fprintf(f, "%s\"%s\":%llu", c ? "," : "", esc(r.first).c_str(), (unsigned long long)r.second); c = true; }
  fprintf(f, "},\"functions\":{"); c = false; for (Fn *F : FNS) if (F->lib && F->calls) { u32 h = 0; for (auto &b : F->blk) h += b.hit; fprintf(f, "%s\"%s:%s\":[%u,%u]", c ? "," : "", F->file.c_str(), F->name.c_str(), h, (u32)F->blk.size()); c = true; }
  fprintf(f, "},\"samples\":["); c = false; for (auto &q : SAMPLES) { fprintf(f, "%s%s", c ? "," : "", q.c_str()); c = true; }
  fprintf(f, "],\"errors\":["); c = false; for (auto &e : ENGERR) { fprintf(f, "%s\"%s\"", c ? "," : "", esc(e).c_str()); c = true; }
  fprintf(f, "],\"vectors\":["); c = false;
  for (auto &v : VECS) { fprintf(f, "%s[", c ? "," : ""); c = true; bool d = false; for (auto &i : v) { fprintf(f, "%s[\"%s\",\"", d ? "," : "", esc(i.first).c_str()); d = true; for (u8 x : i.second) fprintf(f, "%02x", x); fprintf(f, "\"]"); } fprintf(f, "]"); }
  fprintf(f, "],\"violations\":["); c = false;
  for (auto &v : VIOL) {
    fprintf(f, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"loc\":\"%s\",\"stack\":\"%s\",\"insts\":%llu,\"notes\":[", c ? "," : "", esc(v.kind).c_str(), esc(v.msg).c_str(), esc(v.loc).c_str(), esc(v.stack).c_str(), (unsigned long long)v.insts); c = true;
    bool d = false; for (auto &n : v.notes) { fprintf(f, "%s\"%s\"", d ? "," : "", esc(n).c_str()); d = true; }
    fprintf(f, "],\"inputs\":["); d = false; for (auto &i : v.in) { fprintf(f, "%s[\"%s\",\"", d ? "," : "", esc(i.first).c_str()); for (u8 x : i.second) fprintf(f, "%02x", x); fprintf(f, "\"]"); d = true; }
    fprintf(f, "]}");
  }
  fprintf(f, "]}\n"); if (f != stdout) fclose(f);
}
static string sampleOf(State &s) { string r = "\""; int n = 0; for (auto &q : s.log) { r += esc(q.name) + "="; if (q.bytes.size() == 8) { u64 x = 0; for (int i = 7; i >= 0; i--) x = x << 8 | (u8)evalMV(*s.model, q.bytes[i]); r += std::to_string(x); } else { size_t m = std::min<size_t>(q.bytes.size(), 40); char b[4]; for (size_t i = 0; i < m; i++) { snprintf(b, 4, "%02x", (u8)evalMV(*s.model, q.bytes[i])); r += b; } if (m < q.bytes.size()) r += ".."; } r += " "; if (++n > 24) break; } return r + "\""; }
int main(int argc, char **argv) {
  T0 = now(); const char *bc = nullptr;
  if (argc > 1 && string(argv[1]) == "--version") return 0;
  for (int i = 1; i < argc; i++) { string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
    if (a == "-t") O.time = atof(nx().c_str()); else if (a == "-p") O.paths = atoll(nx().c_str()); else if (a == "-i") O.insts = atoll(nx().c_str()); else if (a == "-e") O.entry = nx(); else if (a == "-o") O.out = nx(); else if (a == "-z") O.z3cap = atoi(nx().c_str()); else if (a == "-d") O.dbg = true; else if (a == "-v") O.maxviol = atoi(nx().c_str()); else if (a == "-T") O.trace = true; else if (a == "-R") O.norace = true;
    else if (a == "-P") { string x = nx(); size_t k = x.find('='); PARAM[x.substr(0, k)] = strtoll(x.c_str() + k + 1, nullptr, 0); } else bc = argv[i]; }
  S = new Sat(G); S->clock = now; S->deadline = T0 + O.time; load(bc);
  if (!FN.count(O.entry) || FN[O.entry]->isDecl) { fprintf(stderr, "usym: no entry %s\n", O.entry.c_str()); return 3; }
  State *s0 = new State; s0->objs = GLOB; s0->th.resize(1); s0->th[0].vc = {1}; s0->model = std::make_shared<Model>(); s0->model->id = ++modelIds;
  CUR = s0; pushFrame(*s0, FN[O.entry], {}, -1, 0); WORK.push_back(s0);
  while (!WORK.empty()) {
    State *s = WORK.back(); WORK.pop_back(); pcSwitch(s->pc);
    bool fin = false; try { run(*s); fin = true; } catch (PathEnd &) {}
    ST.paths++; if (fin && VECS.size() < 6 && (ST.paths < 3 || ST.paths % 53 == 0)) { VECS.push_back({}); for (auto &r : s->log) { vector<u8> b; for (auto &x : r.bytes) b.push_back((u8)evalMV(*s->model, x)); VECS.back().push_back({r.name, b}); } }
    if (fin && SAMPLES.size() < 4 && (ST.paths < 3 || ST.paths % 37 == 0)) SAMPLES.push_back(sampleOf(*s));
    delete s;
    if (O.trace && ST.paths % 100 == 0) fprintf(stderr, "paths %llu insts %llu work %zu t %.1f solver %.1f\n", (unsigned long long)ST.paths, (unsigned long long)ST.insts, WORK.size(), now() - T0, ST.solver);
    if ((int)VIOL.size() >= O.maxviol) { if (!WORK.empty()) INCOMPLETE = true; break; }
    if (ST.paths >= O.paths || now() - T0 > O.time) { if (!WORK.empty()) { INCOMPLETE = true; engerr("exploration budget exhausted with %zu states left", WORK.size()); } break; }
  }
  report(); fflush(stdout); _exit(VIOL.empty() ? 0 : 1);
}
