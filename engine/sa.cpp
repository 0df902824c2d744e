// Abstract interpreter over LLVM IR in a value-graph domain (see term.h).
//   sa link -o out.bc [--noinline <demangled-prefix>]... a.bc b.bc ...   link + scalar optimisation
//   sa run  out.bc --entry F [--ct] [--stub <prefix>=<fn>]... --out r.json  analyse one entry function
#include "term.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/IntrinsicsX86.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <chrono>
#include <deque>
#include <functional>
#include <pthread.h>
#include <set>
#include <sys/resource.h>
#include <unistd.h>

static const int sdepth = getenv("SA_DEPTH") ? atoi(getenv("SA_DEPTH")) : 3;
using namespace llvm;
using std::string;
typedef uint32_t u32;
typedef uint64_t u64;

static Terms M;
static const DataLayout* DL;
static Module* Mod;
struct Abort { string why; };
static string whereAmI(bool full);
[[noreturn]] static void giveUp(const string& s) { throw Abort{s + " at " + whereAmI(true)}; }

// ------------------------------------------------------------------------------------------------ memory
struct ByteRef { T t; u32 i; bool operator==(const ByteRef& o) const { return t == o.t && i == o.i; } };
enum Kind : uint8_t { K_STACK, K_HEAP, K_GLOBAL, K_FUNC, K_EXT };
struct Obj { bool shared = false; u64 size = 0; Kind kind = K_HEAP; uint8_t live = 1; bool ro = false, frozen = false, logw = false; const Value* site = nullptr; const Function* fn = nullptr; string name; std::vector<ByteRef> b; };
static std::deque<Obj> objs;
struct MemLog { u32 obj; u64 off; ByteRef old; };
static std::vector<MemLog> mlog;
struct Level { size_t mark; u32 firstObj; };
static std::vector<Level> levels;
static T U8;
static DenseMap<const GlobalValue*, u32> gobj;

struct Frame;
static std::vector<Frame*> stack;
static string whereAmI(bool full);
static string repoLoc();

// ------------------------------------------------------------------------------------------------ report
struct Event { string kind, status, msg, loc, trace, ctx; };
static std::vector<Event> events;
static std::set<string> eventKeys;
struct Oblig { string id, status, detail, ctx; u64 units; };
static std::vector<Oblig> obligs;
static std::set<string> fnSeen;
static u64 nInstr, nForks, nJoins, nCalls, nMemAcc, nBranch, nCondBr, nSelect;
static std::set<string> ignoredExt;
static string curCtx;
static bool CT = false;
static u64 secretMask = 0, verdictMask = 0;
static double maxSec = 600;
static auto t0 = std::chrono::steady_clock::now();
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

// ------------------------------------------------------------------------------------------------ facts
static std::vector<T> pc; // conjunction of branch outcomes the current program point depends on
struct FactUndo { int kind; T t; bool had; u64 a, b; };
static std::vector<FactUndo> flog;
static std::unordered_map<T, bool> boolFact;
static std::unordered_map<T, std::pair<u64, u64>> rngFact;

static void rng(T t, u64& lo, u64& hi, int d = 0) {
  const Node& x = M.g(t);
  lo = x.lo; hi = x.hi;
  if (x.w > 64) { lo = 0; hi = ~0ull; return; }
  if (rngFact.empty() && boolFact.empty()) return;
  auto it = rngFact.find(t);
  if (it != rngFact.end()) { lo = std::max(lo, it->second.first); hi = std::min(hi, it->second.second); }
  if (d > 8 || lo == hi) return;
  u64 l2 = 0, h2 = mask64(x.w); bool ok = false;
  switch (x.op) {
  case O_SUM: ok = M.sumRangeF(x, [&](T s, u64& a, u64& b) { rng(s, a, b, d + 1); }, l2, h2); break;
  case O_CONCAT: { u64 l = 0, h = 0; unsigned off = 0; for (T s : x.k) { u64 a, b; rng(s, a, b, d + 1); l |= a << off; h |= b << off; off += M.W(s); } l2 = l; h2 = h; ok = true; break; }
  case O_ITE: { auto b = boolFact.find(x.k[0]); u64 a1, b1, a2, b2;
    if (b != boolFact.end()) { rng(b->second ? x.k[1] : x.k[2], l2, h2, d + 1); ok = true; break; }
    u64 cl = 0, ch = 1; if (M.g(x.k[0]).op == O_EXTRACT) rng(x.k[0], cl, ch, d + 1);
    if (cl == ch) { rng(cl ? x.k[1] : x.k[2], l2, h2, d + 1); ok = true; }
    else { rng(x.k[1], a1, b1, d + 1); rng(x.k[2], a2, b2, d + 1); l2 = std::min(a1, a2); h2 = std::max(b1, b2); ok = true; } break; }
  case O_MUL: { unsigned __int128 l = 1, h = 1; bool g = true; for (T s : x.k) { u64 a, b; rng(s, a, b, d + 1); l *= a; h *= b; if (h > mask64(x.w)) { g = false; break; } } if (g) { l2 = l; h2 = h; ok = true; } break; }
  case O_EXTRACT: { const Node& s = M.g(x.k[0]); if (s.w <= 64) { u64 a, b; rng(x.k[0], a, b, d + 1); if ((b >> x.aux) <= mask64(x.w)) { l2 = a >> x.aux; h2 = b >> x.aux; ok = true; } } break; }
  case O_UDIV: { u64 a, b, c, e; rng(x.k[0], a, b, d + 1); rng(x.k[1], c, e, d + 1); if (c) { l2 = a / e; h2 = b / c; ok = true; } break; }
  default: break;
  }
  if (ok) { lo = std::max(lo, l2); hi = std::min(hi, h2); }
}
static bool simpBusy = false;
static T simp(T c, int d = 0) {
  if (M.isC(c) || (boolFact.empty() && rngFact.empty())) return c;
  auto it = boolFact.find(c);
  if (it != boolFact.end()) return M.cst(1, it->second);
  if (d > 12) return c;
  const Node& x = M.g(c);
  if (x.w != 1) return c;
  switch (x.op) {
  case O_XOR: { T r = M.cst(x.c); auto k = x.k; for (T s : k) r = M.bxor(r, simp(s, d + 1)); return r; }
  case O_AND: { auto k = x.k; T r = M.b1(); for (T s : k) { r = M.band(r, simp(s, d + 1)); if (M.isZero(r)) return r; } return r; }
  case O_OR: { auto k = x.k; T r = M.b0(); for (T s : k) { r = M.bor(r, simp(s, d + 1)); if (M.isC(r, 1)) return r; } return r; }
  case O_ITE: { T q = simp(x.k[0], d + 1); if (M.isC(q)) return simp(M.isZero(q) ? x.k[2] : x.k[1], d + 1); return c; }
  case O_EQ: { if (M.W(x.k[0]) > 64) return c; u64 a, b, e, f; rng(x.k[0], a, b); rng(x.k[1], e, f); if (b < e || f < a) return M.b0(); if (a == b && e == f && a == e) return M.b1(); return c; }
  case O_ULT: { if (M.W(x.k[0]) > 64) return c; u64 a, b, e, f; rng(x.k[0], a, b); rng(x.k[1], e, f); if (b < e) return M.b1(); if (a >= f) return M.b0(); return c; }
  case O_SLT: { unsigned w = M.W(x.k[0]); if (w > 64) return c; u64 h = mask64(w) >> 1; u64 a, b, e, f; rng(x.k[0], a, b); rng(x.k[1], e, f); if (b <= h && f <= h) { if (b < e) return M.b1(); if (a >= f) return M.b0(); } return c; }
  case O_TABLE: { u64 a, b; rng(x.k[0], a, b); auto& v = M.tables[x.aux]; bool any0 = false, any1 = false; for (u64 i = a; i <= b && i < v.size(); i++) { if (v[i]) any1 = true; else any0 = true; } if (any0 != any1) return M.cst(1, any1); return c; }
  case O_EXTRACT: { u64 a, b; rng(c, a, b); return a == b ? M.cst(1, a) : c; }
  default: return c;
  }
}
static void setRng(T t, u64 lo, u64 hi, int d = 0) {
  const Node& x = M.g(t);
  if (x.w > 64 || x.op == O_CONST) return;
  u64 cl, ch; rng(t, cl, ch);
  lo = std::max(lo, cl); hi = std::min(hi, ch);
  if (lo > hi) return;
  if (lo == cl && hi == ch && d == 0 && rngFact.count(t)) return;
  auto it = rngFact.find(t);
  if (it != rngFact.end()) flog.push_back({1, t, true, it->second.first, it->second.second}); else flog.push_back({1, t, false, 0, 0});
  rngFact[t] = {lo, hi};
  if (d > 6) return;
  if (x.op == O_SUM && x.k.size() == 1 && x.co[0] == 1 && !M.g(x.k[0]).base) {
    u64 m = mask64(x.w), c = x.c.getZExtValue(); u64 a = (lo - c) & m, b = (hi - c) & m; if (a <= b) setRng(x.k[0], a, b, d + 1);
  }
  if (x.op == O_CONCAT && x.k.size() == 2 && M.isZero(x.k[1])) setRng(x.k[0], lo, hi, d + 1);
  if (x.op == O_CONCAT && x.k.size() == 2 && M.isZero(x.k[0])) { unsigned s = M.W(x.k[0]); setRng(x.k[1], (lo + mask64(s)) >> s, hi >> s, d + 1); }
}
static void assume(T c, bool v, int d = 0) {
  if (M.isC(c) || d > 20) return;
  const Node& x = M.g(c);
  if (x.op == O_XOR && x.k.size() == 1) { assume(x.k[0], x.c.isZero() ? v : !v, d + 1); return; }
  auto it = boolFact.find(c);
  if (it == boolFact.end()) { flog.push_back({0, c, false, 0, 0}); boolFact[c] = v; }
  auto k = x.k;
  if (x.op == O_AND && v) { for (T s : k) assume(s, true, d + 1); return; }
  if (x.op == O_OR && !v) { for (T s : k) assume(s, false, d + 1); return; }
  if (x.op == O_EQ || x.op == O_ULT || x.op == O_SLT) {
    T a = k[0], b = k[1]; unsigned w = M.W(a); if (w > 64) return;
    u64 al, ah, bl, bh; rng(a, al, ah); rng(b, bl, bh); u64 m = mask64(w);
    if (x.op == O_EQ) {
      if (v) { setRng(a, bl, bh); setRng(b, al, ah); }
      else { if (bl == bh) { if (al == bl) setRng(a, al + 1, ah); else if (ah == bl && ah) setRng(a, al, ah - 1); } if (al == ah) { if (bl == al) setRng(b, bl + 1, bh); else if (bh == al && bh) setRng(b, bl, bh - 1); } }
    } else {
      if (x.op == O_SLT && !(ah <= (m >> 1) && bh <= (m >> 1))) return;
      if (v) { if (bh) setRng(a, al, bh - 1); if (al < m) setRng(b, al + 1, bh); }
      else { setRng(a, bl, ah); setRng(b, bl, ah); }
    }
  }
  if (x.op == O_TABLE && v) { auto& tb = M.tables[x.aux]; u64 a, b; rng(k[0], a, b); u64 l = ~0ull, h = 0; for (u64 i = a; i <= b && i < tb.size(); i++) if (tb[i]) { l = std::min(l, i); h = std::max(h, i); } if (l <= h) setRng(k[0], l, h); }
  if (x.op == O_TABLE && !v) { auto& tb = M.tables[x.aux]; u64 a, b; rng(k[0], a, b); u64 l = ~0ull, h = 0; for (u64 i = a; i <= b && i < tb.size(); i++) if (!tb[i]) { l = std::min(l, i); h = std::max(h, i); } if (l <= h) setRng(k[0], l, h); }
}
static void undoFacts(size_t mark) {
  while (flog.size() > mark) { auto f = flog.back(); flog.pop_back();
    if (f.kind == 0) boolFact.erase(f.t);
    else if (f.had) rngFact[f.t] = {f.a, f.b}; else rngFact.erase(f.t); }
}

// random interpretation: look for a valuation under which the current program point is reached and goal holds
static bool witness(std::function<bool(Terms::Eval&)> goal, int trials = 48) {
  for (int i = 0; i < trials; i++) {
    Terms::Eval e(M, 1000 + i / 8, i % 8);
    for (auto& r : rngFact) if (M.g(r.first).op == O_SYM) { unsigned w = M.W(r.first); APInt v = e.symVal(r.first); u64 x = v.getZExtValue(); if (x < r.second.first || x > r.second.second) { u64 span = r.second.second - r.second.first + 1; x = span ? r.second.first + x % span : x; } e.fixed.emplace(r.first, APInt(w, x)); }
    bool ok = true;
    for (T c : pc) if (e(c).isZero()) { ok = false; break; }
    if (!ok) continue;
    if (goal(e)) return true;
  }
  return false;
}
// under this valuation, does the term's value really depend on uninitialised memory?
static bool reallyUndef(T t, Terms::Eval& e) { for (u64 s = 1; s <= 4; s++) { Terms::Eval q(M, e.seed, e.strat); q.fixed = e.fixed; q.salt = s; if (q(t) != e(t)) return true; } return false; }
static void event(const string& kind, const string& msg, bool needWitness = true, std::function<bool(Terms::Eval&)> goal = nullptr) {
  string loc = repoLoc();
  string key = kind + "@" + loc + "@" + curCtx;
  if (eventKeys.count(key + "!")) return;
  string status = "violation";
  if (needWitness && !CT) { bool ok = witness([&](Terms::Eval& e) { return !goal || goal(e); }); if (!ok) status = "undecided"; }
  if (status == "undecided" && eventKeys.count(key)) return;
  eventKeys.insert(status == "violation" ? key + "!" : key);
  if (events.size() < 4000) events.push_back({kind, status, msg, loc, whereAmI(true), curCtx});
}

static std::set<string> globalWrites;
static bool inCtors = false, EFFECTS = false, atomicOp = false; static int guardDepth = 0, lockDepth = 0;
// shared state: namespace-scope and function-local statics of the library (not thread_local, not the standard library's, not the harness'), and heap
// memory set up while those were initialised. Writing it is only allowed while it is being initialised, atomically, or under a lock.
static void noteGlobalWrite(u32 id, T val = NONE) { Obj& o = objs[id]; if (o.kind == K_GLOBAL || o.kind == K_EXT) globalWrites.insert(o.name + " @ " + repoLoc());
  if (EFFECTS && o.shared && !guardDepth && !lockDepth && !atomicOp) event("shared-write", "unprotected write to state shared by all threads and objects: " + (o.kind == K_GLOBAL ? demangle(o.name) : "memory owned by a static object"), true);
  else if (EFFECTS && o.shared && guardDepth && val != NONE && !M.isC(val) && !M.g(val).base && !M.g(val).undef) event("shared-write", "state shared by all objects is initialised from one caller's data: " + (o.kind == K_GLOBAL ? demangle(o.name) : "memory owned by a static object"), true); }
// ------------------------------------------------------------------------------------------------ objects
static u32 newObj(u64 size, Kind k, const Value* site, const string& name) {
  if (size > (64u << 20)) giveUp("object of " + std::to_string(size) + " bytes");
  objs.emplace_back(); Obj& o = objs.back(); if (EFFECTS && k == K_HEAP && (inCtors || guardDepth)) o.shared = true; o.size = size; o.kind = k; o.site = site; o.name = name; o.b.assign(size, ByteRef{U8, 0});
  return objs.size() - 1;
}
static inline void putByte(u32 id, u64 off, ByteRef r) {
  Obj& o = objs[id];
  if (!levels.empty() && id < levels.back().firstObj) mlog.push_back({id, off, o.b[off]});
  o.b[off] = r;
}
static void setLive(u32 id, uint8_t v) {
  Obj& o = objs[id]; if (!levels.empty() && id < levels.back().firstObj) mlog.push_back({id, ~0ull, {0, o.live}}); o.live = v;
}
static void putVal(u32 id, u64 off, T v, u64 nbytes) {
  if (M.W(v) < nbytes * 8) v = M.zext(v, nbytes * 8);
  for (u64 i = 0; i < nbytes; i++) putByte(id, off + i, {v, (u32)i});
}
static T getVal(u32 id, u64 off, u64 n) {
  Obj& o = objs[id]; TV parts; u64 i = 0;
  while (i < n) {
    ByteRef r = o.b[off + i]; u64 j = 1;
    while (i + j < n && o.b[off + i + j].t == r.t && o.b[off + i + j].i == r.i + j) j++;
    parts.push_back(M.extract(r.t, r.i * 8, j * 8)); i += j;
  }
  return parts.size() == 1 ? parts[0] : M.concat(parts);
}
static unsigned bitsOf(Type* t) {
  if (t->isPointerTy()) return 64;
  if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getNumElements() * bitsOf(v->getElementType());
  if (auto* s = dyn_cast<StructType>(t)) { unsigned r = 0; for (auto* e : s->elements()) r += bitsOf(e); return r; }
  if (auto* a = dyn_cast<ArrayType>(t)) return a->getNumElements() * bitsOf(a->getElementType());
  return t->getPrimitiveSizeInBits();
}
static u32 objOf(const GlobalValue* g);
static T constT(const Constant* c);
static DenseMap<const Constant*, T> cmemo;
static T constT0(const Constant* c) {
  Type* ty = c->getType();
  if (auto* i = dyn_cast<ConstantInt>(c)) return M.cst(i->getValue());
  if (auto* f = dyn_cast<ConstantFP>(c)) return M.cst(f->getValueAPF().bitcastToAPInt());
  if (isa<ConstantPointerNull>(c)) return M.cst(64, 0);
  if (isa<UndefValue>(c)) { unsigned w = bitsOf(ty); return M.undef(w ? w : 1); }
  if (isa<ConstantAggregateZero>(c)) { unsigned w = bitsOf(ty); return M.cst(w ? w : 1, 0); }
  if (auto* g = dyn_cast<GlobalAlias>(c)) return constT(g->getAliasee());
  if (auto* g = dyn_cast<GlobalValue>(c)) return M.base(objOf(g));
  if (auto* d = dyn_cast<ConstantDataSequential>(c)) { TV p; for (unsigned i = 0; i < d->getNumElements(); i++) p.push_back(constT(d->getElementAsConstant(i))); return M.concat(p); }
  if (isa<ConstantVector>(c) || isa<ConstantStruct>(c) || isa<ConstantArray>(c)) { TV p; for (auto& o : c->operands()) { if (bitsOf(o->getType()) == 0) continue; p.push_back(constT(cast<Constant>(o))); } return M.concat(p); }
  if (auto* e = dyn_cast<ConstantExpr>(c)) {
    if (auto* g = dyn_cast<GEPOperator>(e)) { APInt off(64, 0); if (g->accumulateConstantOffset(*DL, off)) return M.add(constT(cast<Constant>(g->getPointerOperand())), M.cst(off)); }
    switch (e->getOpcode()) {
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: { T v = constT(e->getOperand(0)); unsigned w = bitsOf(ty); return M.W(v) > w ? M.trunc(v, w) : M.zext(v, w); }
    case Instruction::Trunc: return M.trunc(constT(e->getOperand(0)), bitsOf(ty));
    case Instruction::Add: return M.add(constT(e->getOperand(0)), constT(e->getOperand(1)));
    case Instruction::Sub: return M.sub(constT(e->getOperand(0)), constT(e->getOperand(1)));
    default: break;
    }
  }
  string s; raw_string_ostream os(s); c->print(os); giveUp("constant " + s);
}
static T constT(const Constant* c) { auto it = cmemo.find(c); if (it != cmemo.end()) return it->second; T t = constT0(c); cmemo[c] = t; return t; }
static void initMem(u32 id, u64 off, const Constant* c) {
  Type* ty = c->getType();
  if (isa<UndefValue>(c)) { u64 n = DL->getTypeAllocSize(ty); T z = M.cst(8, 0); for (u64 i = 0; i < n; i++) objs[id].b[off + i] = {z, 0}; return; }
  if (c->isNullValue() && !ty->isPointerTy()) { u64 n = DL->getTypeAllocSize(ty); T z = M.cst(8, 0); for (u64 i = 0; i < n; i++) objs[id].b[off + i] = {z, 0}; return; }
  if (auto* s = dyn_cast<ConstantStruct>(c)) { auto* L = DL->getStructLayout(s->getType()); u64 n = DL->getTypeAllocSize(ty); T z = M.cst(8, 0); for (u64 i = 0; i < n; i++) objs[id].b[off + i] = {z, 0}; for (unsigned i = 0; i < s->getNumOperands(); i++) initMem(id, off + L->getElementOffset(i), s->getOperand(i)); return; }
  if (auto* a = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); i++) initMem(id, off + i * es, a->getOperand(i)); return; }
  if (auto* d = dyn_cast<ConstantDataSequential>(c)) { u64 es = d->getElementByteSize(); for (unsigned i = 0; i < d->getNumElements(); i++) { T v = constT(d->getElementAsConstant(i)); for (u64 j = 0; j < es; j++) objs[id].b[off + i * es + j] = {v, (u32)j}; } return; }
  T v = constT(c); u64 n = DL->getTypeStoreSize(ty); if (M.W(v) < n * 8) v = M.zext(v, n * 8);
  for (u64 i = 0; i < n; i++) objs[id].b[off + i] = {v, (u32)i};
}
static u32 objOf(const GlobalValue* g) {
  auto it = gobj.find(g); if (it != gobj.end()) return it->second;
  if (auto* a = dyn_cast<GlobalAlias>(g)) { if (auto* t = dyn_cast<GlobalValue>(a->getAliasee()->stripPointerCasts())) return objOf(t); }
  if (auto* f = dyn_cast<Function>(g)) { u32 id = newObj(0, K_FUNC, g, f->getName().str()); objs[id].fn = f; gobj[g] = id; return id; }
  auto* v = cast<GlobalVariable>(g);
  u64 size = v->getValueType()->isSized() ? (u64)DL->getTypeAllocSize(v->getValueType()) : 64;
  if (!v->hasInitializer() && size < 64) size = 64;
  u32 id = newObj(size, K_GLOBAL, g, v->getName().str()); gobj[g] = id;
  if (EFFECTS && !v->isConstant() && !v->isThreadLocal()) { StringRef nm = v->getName(); objs[id].shared = !(nm.starts_with("_ZSt") || nm.starts_with("_ZNSt") || nm.starts_with("_ZGV") || nm.starts_with("_ZT") || nm.starts_with("_ZZNSt") || nm.starts_with("_ZZNKSt") || nm.starts_with("_ZZSt") || nm.starts_with("__") || nm.contains("9__gnu_cxx") || nm.contains("harness_")); }
  if (v->hasInitializer()) { initMem(id, 0, v->getInitializer()); objs[id].ro = v->isConstant(); }
  else { objs[id].kind = K_EXT; T one = M.cst(8, v->getName() == "__libc_single_threaded" ? 1 : 0); for (auto& b : objs[id].b) b = {one, 0}; }
  return id;
}

// ------------------------------------------------------------------------------------------------ functions
struct DInst { const Instruction* I; int slot; SmallVector<int, 4> ops; };
struct DBlock { const BasicBlock* bb; std::vector<DInst> phis, ins; int ipdom = -1; };
struct DFn { const Function* F; std::vector<DBlock> blk; DenseMap<const BasicBlock*, int> idx; std::vector<T> cpool; int nslots = 0; DenseMap<const Value*, int> slots; string demangled; };
static DenseMap<const Function*, DFn*> dfns;
struct Frame { DFn* d; std::vector<T> r; std::vector<std::pair<int, T>> rlog; int depth = 0; std::vector<u32> allocas; const Instruction* cur = nullptr; std::vector<u32> visits; };

static DFn* decode(const Function* F) {
  auto it = dfns.find(F); if (it != dfns.end()) return it->second;
  DFn* d = new DFn; dfns[F] = d; d->F = F; d->demangled = demangle(F->getName().str());
  for (auto& a : F->args()) d->slots[&a] = d->nslots++;
  for (auto& bb : *F) { d->idx[&bb] = d->blk.size(); d->blk.emplace_back(); d->blk.back().bb = &bb; for (auto& I : bb) if (!I.getType()->isVoidTy()) d->slots[&I] = d->nslots++; }
  DenseMap<const Constant*, int> cidx;
  auto opnd = [&](const Value* v) -> int {
    if (auto s = d->slots.find(v); s != d->slots.end()) return s->second;
    if (auto* c = dyn_cast<Constant>(v)) { auto q = cidx.find(c); if (q != cidx.end()) return q->second; int k = -(int)d->cpool.size() - 1; T t; if (c->getType()->isSized() && bitsOf(c->getType()) == 0) t = M.b0(); else if (!c->getType()->isSized()) t = M.b0(); else t = constT(c); d->cpool.push_back(t); cidx[c] = k; return k; }
    return INT32_MIN;
  };
  int n = d->blk.size();
  for (auto& b : d->blk) for (auto& I : *b.bb) {
    if (isa<LandingPadInst>(I)) { }
    if (isa<DbgInfoIntrinsic>(I)) continue;
    DInst di; di.I = &I; di.slot = I.getType()->isVoidTy() ? -1 : d->slots[&I];
    if (b.bb->isLandingPad()) continue;
    for (auto& o : I.operands()) {
      if (isa<BasicBlock>(o) || isa<MetadataAsValue>(o) || isa<InlineAsm>(o)) di.ops.push_back(INT32_MIN);
      else if (auto* cb = dyn_cast<CallBase>(&I); cb && cb->isCallee(&o) && isa<Function>(o)) di.ops.push_back(INT32_MIN);
      else di.ops.push_back(opnd(o));
    }
    (isa<PHINode>(I) ? b.phis : b.ins).push_back(di);
  }
  // post-dominators on the CFG restricted to blocks that can reach a return (exceptional edges removed)
  std::vector<std::vector<int>> succ(n), pred(n);
  for (int i = 0; i < n; i++) { auto* t = d->blk[i].bb->getTerminator(); if (auto* iv = dyn_cast<InvokeInst>(t)) succ[i].push_back(d->idx[iv->getNormalDest()]); else for (unsigned j = 0; j < t->getNumSuccessors(); j++) succ[i].push_back(d->idx[t->getSuccessor(j)]); for (int s : succ[i]) pred[s].push_back(i); }
  std::vector<char> reach(n, 0); std::vector<int> wl; for (int i = 0; i < n; i++) if (isa<ReturnInst>(d->blk[i].bb->getTerminator())) { reach[i] = 1; wl.push_back(i); }
  std::vector<int> rets = wl;
  while (!wl.empty()) { int b = wl.back(); wl.pop_back(); for (int p : pred[b]) if (!reach[p]) { reach[p] = 1; wl.push_back(p); } }
  // iterative dominators on the reverse graph; node n = virtual exit
  std::vector<int> order, num(n + 1, -1), ipd(n + 1, -1); { std::vector<char> vis(n + 1, 0); std::function<void(int)> dfs; std::vector<std::pair<int, size_t>> st; st.push_back({n, 0}); vis[n] = 1; auto P = [&](int b) -> std::vector<int>& { return b == n ? rets : pred[b]; };
    while (!st.empty()) { auto& [b, i] = st.back(); if (i < P(b).size()) { int p = P(b)[i++]; if (reach[p] && !vis[p]) { vis[p] = 1; st.push_back({p, 0}); } } else { order.push_back(b); st.pop_back(); } } }
  for (size_t i = 0; i < order.size(); i++) num[order[i]] = i;
  ipd[n] = n; bool ch = true;
  while (ch) { ch = false; for (int q = (int)order.size() - 2; q >= 0; q--) { int b = order[q]; int ni = -1; auto each = [&](int s) { if (num[s] < 0 || ipd[s] < 0) return; if (ni < 0) ni = s; else { int x = ni, y = s; while (x != y) { while (num[x] < num[y]) x = ipd[x]; while (num[y] < num[x]) y = ipd[y]; } ni = x; } };
      if (isa<ReturnInst>(d->blk[b].bb->getTerminator())) each(n); for (int s : succ[b]) if (reach[s]) each(s);
      if (ni != ipd[b]) { ipd[b] = ni; ch = true; } } }
  for (int i = 0; i < n; i++) d->blk[i].ipdom = (ipd[i] == n || ipd[i] < 0) ? -1 : ipd[i];
  return d;
}

static string locStr(const DILocation* L) { string s; for (; L; L = L->getInlinedAt()) { if (!s.empty()) s += " < "; auto* sp = L->getScope()->getSubprogram(); s += L->getFilename().str() + ":" + std::to_string(L->getLine()); if (sp) s += "(" + sp->getName().str() + ")"; } return s; }
static string whereAmI(bool full) {
  string s; int c = 0;
  for (int i = (int)stack.size() - 1; i >= 0 && c < 14; i--, c++) { if (!s.empty()) s += " <- "; auto* I = stack[i]->cur; if (I && I->getDebugLoc()) s += locStr(I->getDebugLoc().get()); else s += stack[i]->d->demangled.substr(0, 80); if (!full) break; }
  return s;
}
static string repoLoc() { // innermost location inside the repository under analysis
  for (int i = (int)stack.size() - 1; i >= 0; i--) { auto* I = stack[i]->cur; if (!I || !I->getDebugLoc()) continue;
    for (const DILocation* L = I->getDebugLoc().get(); L; L = L->getInlinedAt()) { string f = L->getFilename().str(); if (f.find("caligo") != string::npos || f.find("/src/") != string::npos) { auto* sp = L->getScope()->getSubprogram(); return f + ":" + std::to_string(L->getLine()) + (sp ? " in " + sp->getName().str() : ""); } } }
  return stack.empty() ? "?" : whereAmI(false);
}

enum OK_ { R_STOP, R_RET, R_THREW, R_DEAD };
struct Outcome { OK_ k; T v = NONE; TV phis; string what; };
struct Scope { size_t pcMark; T throwCond; };
static std::vector<Scope> scopes;
static string lastThrow;

static T val(Frame& f, int o) { return o >= 0 ? f.r[o] : f.d->cpool[-o - 1]; }
static void setReg(Frame& f, int slot, T v) { if (f.depth) f.rlog.push_back({slot, f.r[slot]}); f.r[slot] = v; }

// ------------------------------------------------------------------------------------------------ pointers
struct Alt { T cond; u32 obj; T off; };
static void resolve(T p, T cond, std::vector<Alt>& out, int d = 0) {
  const Node& x = M.g(p);
  if (d > 64 || out.size() > 128) giveUp("pointer with too many targets");
  if (x.op == O_BASE) { out.push_back({cond, (u32)x.aux, M.cst(64, 0)}); return; }
  if (x.op == O_ITE) { T c = x.k[0], a = x.k[1], b = x.k[2];
    if (CT && (M.g(c).lab & secretMask)) event("ct-address", "memory access through a pointer selected by secret data", false);
    T s = simp(c); if (M.isC(s)) { resolve(M.isZero(s) ? b : a, cond, out, d + 1); return; }
    T ca = M.band(cond, s), cb = M.band(cond, M.bnot(s)); if (!M.isZero(ca)) resolve(a, ca, out, d + 1); if (!M.isZero(cb)) resolve(b, cb, out, d + 1); return; }
  if (x.op == O_SUM) { T bs, off; if (M.ptrParts(p, bs, off)) { if (M.g(bs).op == O_BASE) { out.push_back({cond, (u32)M.g(bs).aux, off}); return; }
      if (M.g(bs).op == O_ITE) { T c = M.g(bs).k[0], a = M.g(bs).k[1], b = M.g(bs).k[2];
        if (CT && (M.g(c).lab & secretMask)) event("ct-address", "memory access through a pointer selected by secret data", false);
        T pa = M.add(a, off), pb = M.add(b, off); T s = simp(c);
        if (M.isC(s)) { resolve(M.isZero(s) ? pb : pa, cond, out, d + 1); return; }
        T ca = M.band(cond, s), cb = M.band(cond, M.bnot(s)); if (!M.isZero(ca)) resolve(pa, ca, out, d + 1); if (!M.isZero(cb)) resolve(pb, cb, out, d + 1); return; } } }
  out.push_back({cond, ~0u, p});
}
static bool secretT(T t) { return M.g(t).lab & secretMask; }
// one access of n bytes; f(obj, off, cond) is called for each concrete place; returns false if nothing valid
struct Place { u32 obj; u64 off; T cond; };
static bool badAccess(const Alt& a, u64 n, const char* what) {
  std::function<bool(Terms::Eval&)> g = [&](Terms::Eval& e) { return !e(a.cond).isZero(); };
  if (a.obj == ~0u) {
    const Node& x = M.g(a.off);
    if (x.undef) event("uninit-pointer", string(what) + " through an uninitialised pointer", true, [&](Terms::Eval& e) { return g(e) && reallyUndef(a.off, e); });
    else event("null-deref", string(what) + " of " + std::to_string(n) + " byte(s) through " + (x.op == O_CONST && x.c.ult(65536) ? "a null pointer" : "an invalid pointer " + M.str(a.off)), true, g);
    return true;
  }
  Obj& o = objs[a.obj];
  if (!o.live) { event("use-after-free", string(what) + " of dead object " + o.name, true, g); return true; }
  return false;
}
static string objDesc(u32 id) { Obj& o = objs[id]; return o.name + "[" + std::to_string(o.size) + " bytes]"; }
static T loadBytes(T p, u64 n) {
  nMemAcc++;
  std::vector<Alt> alts; resolve(p, M.b1(), alts);
  T r = NONE;
  auto join = [&](T cond, T v) { r = r == NONE ? v : M.ite(cond, v, r); };
  for (auto& a : alts) {
    if (badAccess(a, n, "read")) continue;
    Obj& o = objs[a.obj];
    if (M.isC(a.off)) { u64 off = M.cv(a.off);
      if (off > o.size || n > o.size - off) { event("out-of-bounds", "read of " + std::to_string(n) + " byte(s) at offset " + std::to_string((int64_t)off) + " of " + objDesc(a.obj), true, [&](Terms::Eval& e) { return !e(a.cond).isZero(); }); continue; }
      join(a.cond, getVal(a.obj, off, n)); continue; }
    if (CT && secretT(a.off)) event("ct-address", "memory read at an address that depends on secret data (" + o.name + ")", false);
    u64 lo, hi; rng(a.off, lo, hi); if (M.isTop(a.off) && !CT) giveUp("unknown offset");
    if (hi > o.size || n > o.size - hi) { u64 sz = o.size; if (!CT) event("out-of-bounds", "read of " + std::to_string(n) + " byte(s) at a data-dependent offset beyond " + objDesc(a.obj), true, [&, sz](Terms::Eval& e) { if (e(a.cond).isZero()) return false; u64 v = e(a.off).getZExtValue(); return v > sz || n > sz - v; }); }
    if (n > o.size) continue;
    if (CT) { u64 lab = M.g(a.off).lab; bool und = false; (void)und; bool hasBase = false; for (auto& b : o.b) { lab |= M.g(b.t).lab; hasBase |= M.g(b.t).base; } if (hasBase && n == 8) giveUp("pointer loaded at unknown index"); join(a.cond, M.top(n * 8, lab)); continue; }
    hi = std::min(hi, o.size - n);
    T c; unsigned co; bool constObj = false;
    if (n <= 8 && M.core(a.off, c, co) && M.W(c) <= 8) { // finite function of a small argument
      constObj = true; std::vector<u64> v; u64 cl, ch; rng(c, cl, ch);
      for (u64 i = 0; i < (1ull << M.W(c)) && constObj; i++) { u64 off = M.evalCore(a.off, c, i).getZExtValue(); if (i < cl || i > ch || off > o.size - n) { v.push_back(0); continue; } T e = getVal(a.obj, off, n); if (!M.isC(e)) constObj = false; else v.push_back(M.cv(e)); }
      if (constObj) { // out-of-range slots must not perturb: reuse the nearest in-range value
        join(a.cond, M.table(c, v, n * 8)); continue; }
    }
    u64 kz = M.g(a.off).kz; u64 step = 1; while (step < 4096 && (kz & step)) step <<= 1;
    lo = (lo + step - 1) / step * step;
    if (lo > hi) continue;
    if ((hi - lo) / step > 1024) giveUp("read at a data-dependent offset with a wide range");
    T v = getVal(a.obj, lo, n); for (u64 q = lo + step; q <= hi; q += step) v = M.ite(M.eq(a.off, M.cst(64, q)), getVal(a.obj, q, n), v);
    join(a.cond, v);
  }
  if (r == NONE) { return M.undef(n * 8); }
  return r;
}
static void roCheck(u32 id) {
  Obj& o = objs[id];
  if (o.ro) event("write-const", "write to constant object " + objDesc(id));
  if (o.frozen) event("write-frozen", "write to " + objDesc(id) + ", which the operation must leave unchanged");
}
static void storeBytes(T p, T v, u64 n) {
  nMemAcc++;
  std::vector<Alt> alts; resolve(p, M.b1(), alts);
  if (M.W(v) < n * 8) v = M.zext(v, n * 8);
  for (auto& a : alts) {
    if (badAccess(a, n, "write")) continue;
    Obj& o = objs[a.obj]; bool uncond = M.isC(a.cond, 1);
    roCheck(a.obj); if (((o.kind != K_STACK && o.kind != K_HEAP) || o.shared) && !inCtors) noteGlobalWrite(a.obj, v);
    auto put = [&](u64 off, T cond) { if (M.isC(cond, 1)) putVal(a.obj, off, v, n); else { T old = getVal(a.obj, off, n); putVal(a.obj, off, M.ite(cond, v, old), n); } };
    if (M.isC(a.off)) { u64 off = M.cv(a.off);
      if (off > o.size || n > o.size - off) { event("out-of-bounds", "write of " + std::to_string(n) + " byte(s) at offset " + std::to_string((int64_t)off) + " of " + objDesc(a.obj), true, [&](Terms::Eval& e) { return !e(a.cond).isZero(); }); continue; }
      put(off, uncond ? M.b1() : a.cond); continue; }
    if (CT && secretT(a.off)) event("ct-address", "memory write at an address that depends on secret data (" + o.name + ")", false);
    u64 lo, hi; rng(a.off, lo, hi);
    if (hi > o.size || n > o.size - hi) { u64 sz = o.size; if (!CT) event("out-of-bounds", "write of " + std::to_string(n) + " byte(s) at a data-dependent offset beyond " + objDesc(a.obj), true, [&, sz](Terms::Eval& e) { if (e(a.cond).isZero()) return false; u64 q = e(a.off).getZExtValue(); return q > sz || n > sz - q; }); }
    if (n > o.size) continue;
    if (CT) { u64 lab = M.g(a.off).lab | M.g(v).lab; for (auto& b : o.b) { if (M.g(b.t).base) giveUp("store at unknown index into pointers"); lab |= M.g(b.t).lab; } T t = M.top(8, lab); for (u64 i = 0; i < o.size; i++) putByte(a.obj, i, {t, 0}); continue; }
    hi = std::min(hi, o.size - n); u64 kz = M.g(a.off).kz; u64 step = 1; while (step < 4096 && (kz & step)) step <<= 1;
    lo = (lo + step - 1) / step * step;
    if (lo <= hi && (hi - lo) / step > 512) giveUp("write at a data-dependent offset with a wide range");
    for (u64 q = lo; q <= hi; q += step) put(q, M.band(a.cond, M.eq(a.off, M.cst(64, q))));
  }
}
static bool single(T p, u64 n, const char* what, u32& id, u64& off) { // resolved to one concrete in-bounds place?
  std::vector<Alt> alts; resolve(p, M.b1(), alts);
  if (alts.size() != 1 || alts[0].obj == ~0u || !M.isC(alts[0].off)) return false;
  Obj& o = objs[alts[0].obj]; id = alts[0].obj; off = M.cv(alts[0].off);
  if (!o.live || off > o.size || n > o.size - off) return false;
  return true;
}
static void copyBytes(T d, T s, u64 n) {
  if (!n) return;
  u32 so, dobj; u64 soff, doff;
  if (single(s, n, "read", so, soff) && single(d, n, "write", dobj, doff)) {
    nMemAcc += 2; roCheck(dobj); if ((objs[dobj].kind == K_GLOBAL || objs[dobj].shared) && !inCtors) noteGlobalWrite(dobj);
    std::vector<ByteRef> tmp(objs[so].b.begin() + soff, objs[so].b.begin() + soff + n);
    for (u64 i = 0; i < n; i++) putByte(dobj, doff + i, tmp[i]);
    if (EFFECTS && guardDepth && objs[dobj].shared) for (auto& x : tmp) if (x.t != U8) noteGlobalWrite(dobj, x.t);
    return;
  }
  if (n > 4096) { // out-of-range bulk copy: let the generic access report it, at the ends only
    T v = loadBytes(s, n); storeBytes(d, v, n); return; }
  T v = loadBytes(s, n); storeBytes(d, v, n);
}
static bool constN(T t, u64& v) { if (M.isC(t)) { v = M.cv(t); return true; } u64 lo, hi; rng(t, lo, hi); if (lo == hi) { v = lo; return true; } return false; }

// ------------------------------------------------------------------------------------------------ calls
static Outcome callFn(const Function* F, ArrayRef<T> args);
static Outcome runBlocks(Frame& f, int bb, int prev, int stop);
static std::map<string, const Function*> stubs; // demangled prefix -> replacement
static DenseMap<const Function*, const Function*> stubMemo;

static string cstr(T p) { string s; std::vector<Alt> alts; resolve(p, M.b1(), alts); if (alts.size() != 1 || alts[0].obj == ~0u || !M.isC(alts[0].off)) return "?"; Obj& o = objs[alts[0].obj]; for (u64 i = M.cv(alts[0].off); i < o.size; i++) { T b = M.extract(o.b[i].t, o.b[i].i * 8, 8); if (!M.isC(b)) return s + "?"; if (M.isZero(b)) break; s += (char)M.cv(b); } return s; }

static Outcome doThrow(const string& what) {
  lastThrow = what;
  T c = M.b1(); size_t mark = scopes.empty() ? 0 : scopes.back().pcMark;
  if (!CT) for (size_t i = mark; i < pc.size(); i++) c = M.band(c, pc[i]);
  if (!scopes.empty()) scopes.back().throwCond = M.bor(scopes.back().throwCond, c);
  else event("uncaught-exception", "exception thrown: " + what);
  Outcome o; o.k = R_THREW; o.what = what; return o;
}
static std::set<T> supportOf(ArrayRef<T> roots) {
  std::set<T> syms; std::unordered_set<T> seen; std::vector<T> st(roots.begin(), roots.end());
  while (!st.empty()) { T t = st.back(); st.pop_back(); if (!seen.insert(t).second) continue; const Node& x = M.g(t); if (x.op == O_SYM) syms.insert(t); for (T s : x.k) st.push_back(s); }
  return syms;
}
static std::vector<T> bytesAt(T p, u64 n) { std::vector<T> r; u32 id; u64 off; if (single(p, n, "read", id, off)) { for (u64 i = 0; i < n; i++) { auto& b = objs[id].b[off + i]; r.push_back(M.extract(b.t, b.i * 8, 8)); } return r; }
  for (u64 i = 0; i < n; i++) r.push_back(loadBytes(M.add(p, M.cst(64, i)), 1)); return r; }
static string hexs(const std::vector<APInt>& v) { string s; char b[4]; for (auto& a : v) { snprintf(b, 4, "%02x", (unsigned)a.getZExtValue()); s += b; } return s; }
static void oblige(const string& id, const string& status, u64 units, const string& detail) { obligs.push_back({id, status, detail, curCtx, units}); }
static string symDump(Terms::Eval& e, const std::set<T>& syms) { string s; int c = 0; for (T t : syms) { if (c++ >= 40) { s += " ..."; break; } SmallString<32> b; e(t).toString(b, 16, false, false); s += " " + M.symNames[M.g(t).aux] + "=" + string(b); } return s; }
static void checkSame(const string& id, const std::vector<T>& a, const std::vector<T>& b) {
  std::vector<size_t> diff; bool und = false; size_t ui = 0;
  for (size_t i = 0; i < a.size(); i++) { if (M.g(a[i]).undef) { und = true; ui = i; } if (a[i] != b[i] || M.isTop(a[i])) diff.push_back(i); }
  if (und) { if (witness([&](Terms::Eval& e) { for (T t : a) if (M.g(t).undef && reallyUndef(t, e)) return true; return false; })) { oblige(id, "refuted", a.size(), "byte " + std::to_string(ui) + " of the result is uninitialised memory"); return; }
    if (diff.empty()) { oblige(id, "undecided", a.size(), "byte " + std::to_string(ui) + " may be uninitialised memory"); return; } }
  if (diff.empty()) { oblige(id, "proved", a.size(), ""); return; }
  string det; bool ref = witness([&](Terms::Eval& e) {
    for (size_t i : diff) if (e(a[i]) != e(b[i])) {
      std::vector<APInt> va, vb; for (size_t j = 0; j < a.size() && j < 64; j++) { va.push_back(e(a[j])); vb.push_back(e(b[j])); }
      TV roots{a[i], b[i]}; det = "byte " + std::to_string(i) + " differs: got " + hexs(va) + " expected " + hexs(vb) + " under" + symDump(e, supportOf(roots)); return true; }
    return false; });
  if (ref) oblige(id, "refuted", a.size(), det);
  else oblige(id, "undecided", a.size(), std::to_string(diff.size()) + " byte(s) without a common normal form, e.g. " + M.str(a[diff[0]], sdepth) + "  vs  " + M.str(b[diff[0]], sdepth));
}
static void checkTrue(const string& id, T b, const string& what) {
  if (M.W(b) != 1) b = M.bnot(M.eq(b, M.cst(M.W(b), 0)));
  b = simp(b);
  if (M.isC(b, 1)) { oblige(id, "proved", 1, ""); return; }
  string det;
  if (witness([&](Terms::Eval& e) { if (!e(b).isZero()) return false; TV roots{b}; roots.append(pc.begin(), pc.end()); det = what + " fails under" + symDump(e, supportOf(roots)); return true; })) oblige(id, "refuted", 1, det + (M.g(b).undef ? " (depends on uninitialised memory)" : ""));
  else oblige(id, "undecided", 1, what + ": " + M.str(b, 4));
}
static std::map<string, std::vector<std::vector<T>>> logs;
static unsigned symCounter = 0;
static std::map<T, std::vector<std::pair<std::vector<T>, std::vector<T>>>> dummy;

static bool saCall(StringRef name, Frame& f, const CallBase* cb, ArrayRef<T> a, Outcome& out) {
  if (!name.starts_with("sa_")) return false;
  out.k = R_RET; out.v = NONE;
  auto N = [&](unsigned i) -> u64 { u64 v; if (!constN(a[i], v)) giveUp("non-constant length passed to " + name.str()); return v; };
  if (name == "sa_ctx") { curCtx = cstr(a[0]) + (M.isC(a[1]) ? " " + std::to_string((int64_t)M.cv(a[1])) : ""); return true; }
  if (name == "sa_sym" || name == "sa_symw") { // p, n, name, group
    u64 n = N(1), g = N(3); string nm = cstr(a[2]); u64 lab = g ? (1ull << (g - 1)) : 0; u32 id; u64 off;
    if (!single(a[0], n, "write", id, off)) giveUp("sa_sym target");
    if (name == "sa_symw" && n) { T t = M.sym(n * 8, lab, nm); putVal(id, off, t, n); }
    else for (u64 i = 0; i < n; i++) putVal(id, off + i, M.sym(8, lab, nm + "[" + std::to_string(i) + "]"), 1);
    return true; }
  if (name == "sa_any") { out.v = M.sym(bitsOf(cb->getType()), 0, cstr(a[0])); return true; }
  if (name == "sa_same") { u64 n = N(3); auto x = bytesAt(a[1], n), y = bytesAt(a[2], n); checkSame(cstr(a[0]), x, y); return true; }
  if (name == "sa_true") { checkTrue(cstr(a[0]), M.trunc(a[1], 1), "condition"); return true; }
  if (name == "sa_assume") { T c = M.trunc(a[0], 1); if (!M.isC(c)) { pc.push_back(c); assume(c, true); } return true; }
  if (name == "sa_known") { // value is the same for every input (abstract constant)
    u64 n = N(2); auto x = bytesAt(a[1], n); bool ok = true; for (T t : x) ok &= M.isC(t); out.v = M.cst(32, ok); return true; }
  if (name == "sa_fresh") { // id, out, n, mask: the chosen bits come one for one from the entropy source: none constant, biased, reused or left from before
    u64 n = N(2); auto o = bytesAt(a[1], n); std::vector<T> mb; if (!M.isC(a[3])) mb = bytesAt(a[3], n);
    std::vector<std::pair<T, unsigned>> bits; for (u64 i = 0; i < n; i++) for (unsigned b = 0; b < 8; b++) { if (!mb.empty() && !(M.isC(mb[i]) && (M.cv(mb[i]) >> b & 1))) continue; bits.push_back({o[i], b}); }
    std::set<std::pair<T, u64>> src; bool direct = true;
    for (auto& q : bits) { T t = q.first; u64 b = q.second; while (true) { auto& x = M.g(t); if (x.op == O_EXTRACT) { b += x.aux; t = x.k[0]; } else if (x.op == O_CONCAT) { for (T c : x.k) { if (b < M.W(c)) { t = c; break; } b -= M.W(c); } } else break; } auto& x = M.g(t); if (x.op != O_SYM || M.symNames[x.aux].rfind("entropy", 0) != 0 || !src.insert({t, b}).second) { direct = false; break; } }
    if (direct) { oblige(cstr(a[0]), "proved", bits.size(), ""); return true; }
    auto sup = supportOf(o); std::vector<T> fixedSyms; for (T t : sup) if (M.g(t).op != O_SYM || M.symNames[M.g(t).aux].rfind("entropy", 0) != 0) fixedSyms.push_back(t);
    Terms::Eval base(M, 77, 0); std::vector<APInt> fv; for (T t : fixedSyms) fv.push_back(base.symVal(t));
    size_t S = bits.size() + 160; std::vector<std::vector<u64>> col(bits.size() + 1, std::vector<u64>((S + 63) / 64, 0)); size_t got = 0;
    for (u64 seed = 1; got < S && seed < 3 * S; seed++) { Terms::Eval e(M, seed * 7919 + 5, 0); for (size_t i = 0; i < fixedSyms.size(); i++) e.fixed.emplace(fixedSyms[i], fv[i]); bool ok = true; for (T c : pc) if (e(c).isZero()) { ok = false; break; } if (!ok) continue; for (size_t i = 0; i < bits.size(); i++) if (e(bits[i].first)[bits[i].second]) col[i][got / 64] |= 1ull << (got % 64); col[bits.size()][got / 64] |= 1ull << (got % 64); got++; }
    string det; if (got < S) { oblige(cstr(a[0]), "undecided", bits.size(), "too few valuations reach this point"); return true; }
    for (size_t i = 0; i < bits.size() && det.empty(); i++) { u64 ones = 0; for (u64 w : col[i]) ones += __builtin_popcountll(w); if (!ones || ones == S) det = "bit " + std::to_string(i) + " is the same whatever the entropy source gives"; else if (ones < S / 5 || ones > S - S / 5) det = "bit " + std::to_string(i) + " is biased: set for " + std::to_string(ones) + " of " + std::to_string(S) + " random source outputs"; }
    if (det.empty()) { std::vector<std::pair<size_t, std::vector<u64>>> piv; auto red = [&](std::vector<u64> v, bool ins, size_t) { for (auto& q : piv) if (v[q.first / 64] >> (q.first % 64) & 1) for (size_t w = 0; w < v.size(); w++) v[w] ^= q.second[w]; for (size_t b = 0; b < S; b++) if (v[b / 64] >> (b % 64) & 1) { if (ins) piv.push_back({b, v}); return true; } return false; };
      red(col[bits.size()], true, 0); for (size_t i = 0; i < bits.size() && det.empty(); i++) if (!red(col[i], true, i)) det = "bit " + std::to_string(i) + " is determined by the earlier bits: source output is reused"; }
    oblige(cstr(a[0]), det.empty() ? "undecided" : "refuted", bits.size(), det); return true; }
  if (name == "sa_depends") { u64 n = N(2), m = N(4); auto o = bytesAt(a[1], n), in = bytesAt(a[3], m); auto s = supportOf(o); std::vector<string> miss; for (T t : in) { auto si = supportOf(TV{t}); for (T q : si) if (!s.count(q)) miss.push_back(M.symNames[M.g(q).aux]); if (si.empty()) miss.push_back("(constant input)"); }
    if (miss.empty()) oblige(cstr(a[0]), "proved", m, ""); else { string d = "no influence of"; for (size_t i = 0; i < miss.size() && i < 12; i++) d += " " + miss[i]; oblige(cstr(a[0]), "refuted", m, d); } return true; }
  if (name == "sa_indep") { // id, out, n, group
    u64 n = N(2), g = N(3); auto o = bytesAt(a[1], n); auto s = supportOf(o); std::vector<T> bad; for (T t : s) if (M.g(t).lab & (1ull << (g - 1))) bad.push_back(t);
    if (bad.empty()) { oblige(cstr(a[0]), "proved", n, ""); return true; }
    string det; bool ref = false;
    for (int i = 0; i < 16 && !ref; i++) { Terms::Eval e1(M, 500 + i, i % 8), e2(M, 500 + i, i % 8); for (T t : bad) e2.fixed.emplace(t, Terms::randBits(M.W(t), 9000 + i * 131 + t)); bool ok = true; for (T c : pc) if (e1(c).isZero() || e2(c).isZero()) ok = false; if (!ok) continue; for (size_t j = 0; j < o.size(); j++) if (e1(o[j]) != e2(o[j])) { det = "byte " + std::to_string(j) + " changes with " + M.symNames[M.g(bad[0]).aux]; ref = true; break; } }
    oblige(cstr(a[0]), ref ? "refuted" : "undecided", n, det); return true; }
  if (name == "sa_uf") { // name, in, n, out, m
    u64 n = N(2), m = N(4); string nm = cstr(a[0]); T in = M.cst(8, 0); if (n) { auto v = bytesAt(a[1], n); TV tv(v.begin(), v.end()); in = M.concat(tv); }
    T r = M.uf(nm + "#" + std::to_string(n), m * 8, {in}); storeBytes(a[3], r, m); return true; }
  if (name == "sa_inv") { // uf name f, inverse name g, in, n, out, m : f(g(x)) = x when the argument is literally a g-application
    u64 n = N(3), m = N(5); string fn = cstr(a[0]), gn = cstr(a[1]); auto v = bytesAt(a[2], n); TV tv(v.begin(), v.end()); T in = M.concat(tv);
    const Node& x = M.g(in); T r; unsigned key = M.ufId(gn + "#" + std::to_string(m));
    if (x.op == O_UF && x.aux == key && x.k.size() == 1) r = x.k[0]; else r = M.uf(fn + "#" + std::to_string(n), m * 8, {in});
    storeBytes(a[4], r, m); return true; }
  if (name == "sa_verdict") { u64 lo = N(0), hi = N(1); verdictMask = 0; for (u64 g = lo; g <= hi; g++) verdictMask |= 1ull << (g - 1); secretMask = 1 | verdictMask; return true; }
  if (name == "sa_public") { u64 n = N(1); if (CT) { auto v = bytesAt(a[0], n); for (u64 i = 0; i < n; i++) if (!M.isC(v[i])) storeBytes(M.add(a[0], M.cst(64, i)), M.top(8, 0), 1); } return true; }
  if (name == "sa_freezedeep" || name == "sa_unfreezedeep") { // everything reachable through pointers, except constants and functions
    bool on = name == "sa_freezedeep"; std::vector<u32> todo; std::set<u32> seen; std::vector<Alt> alts; resolve(a[0], M.b1(), alts); for (auto& x : alts) if (x.obj != ~0u) todo.push_back(x.obj);
    while (!todo.empty()) { u32 id = todo.back(); todo.pop_back(); if (!seen.insert(id).second) continue; Obj& o = objs[id]; if (!o.live || o.kind == K_FUNC || o.kind == K_EXT || o.ro) continue; if (o.kind == K_GLOBAL) continue; o.frozen = on; u64 size = o.size; for (u64 q = 0; q + 8 <= size; q += 8) { T v = getVal(id, q, 8); if (v == NONE || !M.g(v).base) continue; std::vector<Alt> al; resolve(v, M.b1(), al); for (auto& x : al) if (x.obj != ~0u) todo.push_back(x.obj); } }
    return true; }
  if (name == "sa_freeze" || name == "sa_unfreeze") { std::vector<Alt> alts; resolve(a[0], M.b1(), alts); for (auto& x : alts) if (x.obj != ~0u) objs[x.obj].frozen = name == "sa_freeze"; return true; }
  if (name == "sa_defined") { u64 n = N(2); auto v = bytesAt(a[1], n); bool bad = false; size_t bi = 0; for (size_t i = 0; i < v.size(); i++) if (M.g(v[i]).undef) { bad = true; bi = i; } oblige(cstr(a[0]), bad ? (witness([&](Terms::Eval& e) { for (T t : v) if (M.g(t).undef && reallyUndef(t, e)) return true; return false; }) ? "refuted" : "undecided") : "proved", n, bad ? "byte " + std::to_string(bi) + " is uninitialised" : ""); return true; }
  if (name == "sa_log") { auto v = bytesAt(a[1], N(2)); logs[cstr(a[0])].push_back(v); return true; }
  if (name == "sa_logreset") { logs.erase(cstr(a[0])); return true; }
  if (name == "sa_logcount") { out.v = M.cst(64, logs[cstr(a[0])].size()); return true; }
  if (name == "sa_logget") { auto& L = logs[cstr(a[0])]; u64 i = N(1); if (i >= L.size()) giveUp("sa_logget"); for (size_t j = 0; j < L[i].size(); j++) storeBytes(M.add(a[2], M.cst(64, j)), L[i][j], 1); out.v = M.cst(64, L[i].size()); return true; }
  if (name == "sa_distinct") { // all logged blocks pairwise different for every input
    string id = cstr(a[0]); auto& L = logs[cstr(a[1])]; u64 pairs = 0; string st = "proved", det;
    for (size_t i = 0; i < L.size(); i++) for (size_t j = 0; j < i; j++) { pairs++; if (L[i].size() != L[j].size()) continue; T e = M.b1(); for (size_t k = 0; k < L[i].size() && !M.isZero(e); k++) e = M.band(e, M.eq(L[i][k], L[j][k])); if (M.isZero(e)) continue; if (witness([&](Terms::Eval& ev) { return !ev(e).isZero(); })) { st = "refuted"; det = "uses " + std::to_string(j) + " and " + std::to_string(i) + " coincide"; } else if (st == "proved") { st = "undecided"; det = "uses " + std::to_string(j) + " and " + std::to_string(i) + ": " + M.str(e, 4); } }
    oblige(id, st, pairs, det); return true; }
  if (name == "sa_outcome") { // int sa_outcome(void(*)(void*), void*)
    std::vector<Alt> alts; resolve(a[0], M.b1(), alts); if (alts.size() != 1 || alts[0].obj == ~0u || !objs[alts[0].obj].fn) giveUp("sa_outcome target");
    size_t fm = flog.size(), pm = pc.size(); scopes.push_back({pm, M.b0()});
    Outcome o = callFn(objs[alts[0].obj].fn, {a[1]});
    T tc = scopes.back().throwCond; scopes.pop_back(); undoFacts(fm); pc.resize(pm);
    if (o.k == R_DEAD) { out = o; return true; }
    out.v = o.k == R_THREW ? M.cst(32, 1) : CT ? M.cst(32, 0) : M.zext(tc, 32); return true; }
  if (name == "sa_note") { oblige(cstr(a[0]), "note", 0, ""); return true; }
  if (name == "sa_fail") { checkTrue(cstr(a[0]), M.b0(), "unreachable point"); return true; }
  if (name == "sa_show") { auto v = bytesAt(a[1], N(2)); fprintf(stderr, "show %s:", cstr(a[0]).c_str()); TV tv(v.begin(), v.end()); fprintf(stderr, " %s\n", M.str(M.concat(tv), 8).c_str()); return true; }
  giveUp("unknown harness primitive " + name.str());
}

// ------------------------------------------------------------------------------------------------ lanes
static void laneInfo(Type* t, unsigned& n, unsigned& w) { if (auto* v = dyn_cast<FixedVectorType>(t)) { n = v->getNumElements(); w = bitsOf(v->getElementType()); } else { n = 1; w = bitsOf(t); } }
template <class F> static T lanes1(Type* t, T a, F f) { unsigned n, w; laneInfo(t, n, w); if (n == 1) return f(a); TV p; for (unsigned i = 0; i < n; i++) p.push_back(f(M.extract(a, i * w, w))); return M.concat(p); }
template <class F> static T lanes2(Type* t, T a, T b, F f) { unsigned n, w; laneInfo(t, n, w); if (n == 1) return f(a, b); TV p; for (unsigned i = 0; i < n; i++) p.push_back(f(M.extract(a, i * w, w), M.extract(b, i * w, w))); return M.concat(p); }
static T icmp(CmpInst::Predicate p, T a, T b) {
  switch (p) {
  case CmpInst::ICMP_EQ: return M.eq(a, b);
  case CmpInst::ICMP_NE: return M.bnot(M.eq(a, b));
  case CmpInst::ICMP_ULT: return M.ult(a, b);
  case CmpInst::ICMP_UGT: return M.ult(b, a);
  case CmpInst::ICMP_ULE: return M.bnot(M.ult(b, a));
  case CmpInst::ICMP_UGE: return M.bnot(M.ult(a, b));
  case CmpInst::ICMP_SLT: return M.slt(a, b);
  case CmpInst::ICMP_SGT: return M.slt(b, a);
  case CmpInst::ICMP_SLE: return M.bnot(M.slt(b, a));
  case CmpInst::ICMP_SGE: return M.bnot(M.slt(a, b));
  default: giveUp("icmp");
  }
}
static T bswapT(T a) { unsigned w = M.W(a); TV p; for (int i = (int)w / 8 - 1; i >= 0; i--) p.push_back(M.extract(a, i * 8, 8)); return M.concat(p); }
static T ctpopT(T a) { unsigned w = M.W(a); T r = M.cst(w, 0); if (CT && !M.isC(a)) return M.top(w, M.g(a).lab); for (unsigned i = 0; i < w; i++) r = M.add(r, M.zext(M.extract(a, i, 1), w)); return r; }
static T ctlzT(T a, bool trailing) { unsigned w = M.W(a); if (M.isC(a)) return M.cst(w, trailing ? M.g(a).c.countr_zero() : M.g(a).c.countl_zero()); if (CT) return M.top(w, M.g(a).lab); T r = M.cst(w, w); for (unsigned i = 0; i < w; i++) { unsigned bit = trailing ? w - 1 - i : i; r = M.ite(M.extract(a, bit, 1), M.cst(w, trailing ? bit : w - 1 - bit), r); } return r; }
static T fshl(T a, T b, T s, bool right) { unsigned w = M.W(a); u64 k;
  if (constN(s, k)) { k %= w; if (!k) return right ? b : a; if (right) k = w - k; return M.concat({M.extract(b, w - k, k), M.extract(a, 0, w - k)}); }
  if (CT) return M.top(w, M.g(a).lab | M.g(b).lab | M.g(s).lab);
  T r = right ? b : a; for (unsigned i = 1; i < w; i++) { unsigned q = right ? w - i : i; r = M.ite(M.eq(M.divrem(s, M.cst(w, w), O_UREM), M.cst(w, i)), M.concat({M.extract(b, w - q, q), M.extract(a, 0, w - q)}), r); } return r; }
static T ctData(ArrayRef<T> ops, unsigned w) { u64 l = 0; for (T t : ops) l |= M.g(t).lab; return M.top(w, l); }
static bool nullOk(T p) { return M.isZero(p); }

// AES round instructions, exact: byte tables for SubBytes composed with the MixColumns multipliers, XOR for the rest
static uint8_t gmulb(uint8_t a, uint8_t b) { uint8_t r = 0; while (b) { if (b & 1) r ^= a; a = (a << 1) ^ (a & 0x80 ? 0x1b : 0); b >>= 1; } return r; }
static T aesTab(T x, int which) { // 0 S, 1 2S, 2 3S, 3 invS, 4.. multiples 9,11,13,14 of the byte itself
  static std::vector<uint64_t> t[8]; if (t[0].empty()) { for (auto& v : t) v.resize(256);
    for (int i = 0; i < 256; i++) { uint8_t inv = 0; for (int j = 1; j < 256 && i; j++) if (gmulb(i, j) == 1) { inv = j; break; } uint8_t b = inv, s = 0x63; for (int k = 0; k < 5; k++) { s ^= b; b = b << 1 | b >> 7; } t[0][i] = s; t[1][i] = gmulb(s, 2); t[2][i] = gmulb(s, 3); t[3][s] = i; t[4][i] = gmulb(i, 9); t[5][i] = gmulb(i, 11); t[6][i] = gmulb(i, 13); t[7][i] = gmulb(i, 14); } }
  if (M.isC(x)) return M.cst(8, t[which][M.cv(x)]);
  return M.table(x, t[which], 8); }
static T aesImc(T x) { TV p; for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) { auto b = [&](int k) { return M.extract(x, (c * 4 + (r + k) % 4) * 8, 8); }; p.push_back(M.xorN({aesTab(b(0), 7), aesTab(b(1), 5), aesTab(b(2), 6), aesTab(b(3), 4)})); } return M.concat(p); }
static T aesRound(T x, T k, bool inv, bool mix) {
  if (CT) return M.top(128, M.g(x).lab | M.g(k).lab);
  TV s; for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) s.push_back(M.extract(x, (((inv ? c + 4 - r : c + r) % 4) * 4 + r) * 8, 8));
  TV p; for (int c = 0; c < 4; c++) for (int r = 0; r < 4; r++) { T kb = M.extract(k, (c * 4 + r) * 8, 8);
    if (inv) p.push_back(aesTab(s[c * 4 + r], 3));
    else if (!mix) p.push_back(M.bxor(aesTab(s[c * 4 + r], 0), kb));
    else p.push_back(M.xorN({aesTab(s[c * 4 + r], 1), aesTab(s[c * 4 + (r + 1) % 4], 2), aesTab(s[c * 4 + (r + 2) % 4], 0), aesTab(s[c * 4 + (r + 3) % 4], 0), kb})); }
  T r = M.concat(p); if (inv) { if (mix) r = aesImc(r); r = M.bxor(r, k); } return r; }
static bool intrinsic(Frame& f, const CallBase* cb, Intrinsic::ID id, ArrayRef<T> a, Outcome& out) {
  Type* ty = cb->getType(); out.k = R_RET;
  switch (id) {
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::sideeffect: case Intrinsic::prefetch:
    if (id == Intrinsic::invariant_start) out.v = M.cst(64, 0); return true;
  case Intrinsic::threadlocal_address: out.v = a[0]; return true;
  case Intrinsic::trap: case Intrinsic::ubsantrap: event("trap", "llvm.trap reached"); out.k = R_DEAD; return true;
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
    u64 n; if (constN(a[2], n)) { if (n > (64u << 20)) { event("out-of-bounds", "copy of " + std::to_string(n) + " bytes"); giveUp("huge copy"); } copyBytes(a[0], a[1], n); return true; }
    if (CT && secretT(a[2])) event("ct-address", "copy length depends on secret data", false);
    u64 lo, hi; rng(a[2], lo, hi); if (hi > 2048 || CT) giveUp("copy of data-dependent length");
    std::vector<T> nv; for (u64 i = 0; i < hi; i++) { T c = M.ult(M.cst(64, i), a[2]); if (M.isZero(simp(c))) { nv.push_back(NONE); continue; } size_t fm = flog.size(); if (!M.isC(c)) { pc.push_back(c); assume(c, true); } T s = loadBytes(M.add(a[1], M.cst(64, i)), 1), o = loadBytes(M.add(a[0], M.cst(64, i)), 1); if (!M.isC(c)) { pc.pop_back(); undoFacts(fm); } nv.push_back(M.ite(c, s, o)); }
    for (u64 i = 0; i < hi; i++) if (nv[i] != NONE) storeBytes(M.add(a[0], M.cst(64, i)), nv[i], 1);
    return true; }
  case Intrinsic::memset: case Intrinsic::memset_inline: {
    u64 n; if (constN(a[2], n)) { if (!n) return true; u32 o; u64 off; if (single(a[0], n, "write", o, off)) { nMemAcc++; roCheck(o); if ((objs[o].kind == K_GLOBAL || objs[o].shared) && !inCtors) noteGlobalWrite(o); for (u64 i = 0; i < n; i++) putByte(o, off + i, {a[1], 0}); } else { if (n > 65536) { event("out-of-bounds", "fill of " + std::to_string(n) + " bytes"); return true; } TV p(n, a[1]); storeBytes(a[0], M.concat(p), n); } return true; }
    if (CT) giveUp("fill of data-dependent length");
    u64 lo, hi; rng(a[2], lo, hi); if (hi > 2048) giveUp("fill of data-dependent length");
    for (u64 i = 0; i < hi; i++) { T c = M.ult(M.cst(64, i), a[2]); T o = loadBytes(M.add(a[0], M.cst(64, i)), 1); storeBytes(M.add(a[0], M.cst(64, i)), M.ite(c, a[1], o), 1); }
    return true; }
  case Intrinsic::umax: out.v = lanes2(ty, a[0], a[1], [](T x, T y) { return M.ite(simp(M.ult(x, y)), y, x); }); return true;
  case Intrinsic::umin: out.v = lanes2(ty, a[0], a[1], [](T x, T y) { return M.ite(simp(M.ult(x, y)), x, y); }); return true;
  case Intrinsic::smax: out.v = lanes2(ty, a[0], a[1], [](T x, T y) { return M.ite(simp(M.slt(x, y)), y, x); }); return true;
  case Intrinsic::smin: out.v = lanes2(ty, a[0], a[1], [](T x, T y) { return M.ite(simp(M.slt(x, y)), x, y); }); return true;
  case Intrinsic::abs: out.v = lanes1(ty, a[0], [](T x) { return M.ite(M.extract(x, M.W(x) - 1, 1), M.sub(M.cst(M.W(x), 0), x), x); }); return true;
  case Intrinsic::bswap: out.v = lanes1(ty, a[0], bswapT); return true;
  case Intrinsic::bitreverse: out.v = lanes1(ty, a[0], [](T x) { TV p; for (int i = (int)M.W(x) - 1; i >= 0; i--) p.push_back(M.extract(x, i, 1)); return M.concat(p); }); return true;
  case Intrinsic::ctpop: out.v = lanes1(ty, a[0], ctpopT); return true;
  case Intrinsic::ctlz: out.v = ctlzT(a[0], false); return true;
  case Intrinsic::cttz: out.v = ctlzT(a[0], true); return true;
  case Intrinsic::fshl: case Intrinsic::fshr: { bool r = id == Intrinsic::fshr; unsigned n, w; laneInfo(ty, n, w); TV p; for (unsigned i = 0; i < n; i++) p.push_back(fshl(M.extract(a[0], i * w, w), M.extract(a[1], i * w, w), M.extract(a[2], i * w, w), r)); out.v = M.concat(p); return true; }
  case Intrinsic::uadd_with_overflow: { unsigned w = M.W(a[0]); T s = M.add(a[0], a[1]); out.v = M.concat({s, M.ult(s, a[0])}); (void)w; return true; }
  case Intrinsic::usub_with_overflow: out.v = M.concat({M.sub(a[0], a[1]), M.ult(a[0], a[1])}); return true;
  case Intrinsic::umul_with_overflow: { unsigned w = M.W(a[0]); T p = M.mul(M.zext(a[0], 2 * w), M.zext(a[1], 2 * w)); if (2 * w > 64 && !M.isC(a[0]) && !M.isC(a[1])) { u64 l1, h1, l2, h2; rng(a[0], l1, h1); rng(a[1], l2, h2); T r = M.mul(a[0], a[1]); if ((unsigned __int128)h1 * h2 <= mask64(w)) { out.v = M.concat({r, M.b0()}); return true; } } else if (2 * w > 64) { T x = a[0], c = a[1]; if (M.isC(x)) std::swap(x, c); T r = M.mul(x, c); if (M.isZero(c)) { out.v = M.concat({r, M.b0()}); return true; } if (M.isC(c)) { u64 lim = mask64(w) / M.cv(c); out.v = M.concat({r, simp(M.ult(M.cst(w, lim), x))}); return true; } } out.v = M.concat({M.trunc(p, w), M.bnot(M.eq(M.extract(p, w, w), M.cst(w, 0)))}); return true; }
  case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: { unsigned w = M.W(a[0]); T x = M.sext(a[0], 2 * w), y = M.sext(a[1], 2 * w); T s = id == Intrinsic::sadd_with_overflow ? M.add(x, y) : id == Intrinsic::ssub_with_overflow ? M.sub(x, y) : M.mul(x, y); T t = M.trunc(s, w); out.v = M.concat({t, M.bnot(M.eq(M.sext(t, 2 * w), s))}); return true; }
  case Intrinsic::uadd_sat: out.v = lanes2(ty, a[0], a[1], [](T x, T y) { T s = M.add(x, y); return M.ite(M.ult(s, x), M.cst(APInt::getAllOnes(M.W(x))), s); }); return true;
  case Intrinsic::usub_sat: out.v = lanes2(ty, a[0], a[1], [](T x, T y) { return M.ite(simp(M.ult(x, y)), M.cst(M.W(x), 0), M.sub(x, y)); }); return true;
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::ptr_annotation: out.v = a[0]; return true;
  case Intrinsic::is_constant: out.v = M.b0(); return true;
  case Intrinsic::objectsize: out.v = M.cst(APInt::getAllOnes(bitsOf(ty))); return true;
  case Intrinsic::stacksave: out.v = M.cst(64, 0); return true;
  case Intrinsic::stackrestore: return true;
  case Intrinsic::ptrmask: out.v = a[0]; return true;
  case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_mul: { unsigned n, w; laneInfo(cb->getArgOperand(0)->getType(), n, w); T r = M.extract(a[0], 0, w); for (unsigned i = 1; i < n; i++) { T e = M.extract(a[0], i * w, w); r = id == Intrinsic::vector_reduce_add ? M.add(r, e) : id == Intrinsic::vector_reduce_xor ? M.bxor(r, e) : id == Intrinsic::vector_reduce_or ? M.bor(r, e) : id == Intrinsic::vector_reduce_mul ? M.mul(r, e) : M.band(r, e); } out.v = r; return true; }
  case Intrinsic::x86_aesni_aesenc: out.v = aesRound(a[0], a[1], false, true); return true;
  case Intrinsic::x86_aesni_aesenclast: out.v = aesRound(a[0], a[1], false, false); return true;
  case Intrinsic::x86_aesni_aesdec: out.v = aesRound(a[0], a[1], true, true); return true;
  case Intrinsic::x86_aesni_aesdeclast: out.v = aesRound(a[0], a[1], true, false); return true;
  case Intrinsic::x86_aesni_aesimc: out.v = aesImc(a[0]); return true;
  case Intrinsic::x86_aesni_aeskeygenassist: { TV p; T rc = M.trunc(a[1], 8); for (int wd : {1, 3}) { T s[4]; for (int i = 0; i < 4; i++) s[i] = aesTab(M.extract(a[0], wd * 32 + i * 8, 8), 0); for (int i = 0; i < 4; i++) p.push_back(s[i]); for (int i = 0; i < 4; i++) p.push_back(i ? s[(i + 1) % 4] : M.bxor(s[1], rc)); } out.v = M.concat(p); return true; }
  case Intrinsic::x86_pclmulqdq: { u64 imm = M.cv(a[2]); out.v = M.clmul(M.extract(a[0], (imm & 1) * 64, 64), M.extract(a[1], ((imm >> 4) & 1) * 64, 64)); return true; }
  default: break;
  }
  StringRef nm = cb->getCalledFunction()->getName();
  if (nm.contains("psrli") || nm.contains("pslli")) { unsigned n, w; laneInfo(ty, n, w); u64 k; if (!constN(a[1], k)) giveUp("vector shift"); bool l = nm.contains("pslli"); out.v = lanes1(ty, a[0], [&](T x) { return k >= w ? M.cst(w, 0) : l ? M.shlC(x, k) : M.lshrC(x, k); }); return true; }
  if (nm.contains("psra")) { unsigned n, w; laneInfo(ty, n, w); u64 k; if (!constN(a[1], k)) giveUp("vector shift"); out.v = lanes1(ty, a[0], [&](T x) { return M.shift(x, M.cst(w, std::min<u64>(k, w - 1)), O_ASHR); }); return true; }
  if (nm.contains("ssse3.pshuf.b.128") || nm.contains("pshuf.b")) { unsigned n = M.W(a[0]) / 8; TV p; for (unsigned i = 0; i < n; i++) { T c = M.extract(a[1], i * 8, 8); if (!M.isC(c)) giveUp("pshufb"); u64 v = M.cv(c); p.push_back(v & 0x80 ? M.cst(8, 0) : M.extract(a[0], (v & 15) * 8, 8)); } out.v = M.concat(p); return true; }
  if (nm.starts_with("llvm.x86.")) { ignoredExt.insert(nm.str()); TV p(a.begin(), a.end()); out.v = M.uf(nm.str(), bitsOf(ty), p); return true; }
  if (nm.starts_with("llvm.f") || nm.contains("llvm.ceil") || nm.contains("llvm.sqrt")) { TV p(a.begin(), a.end()); out.v = M.uf(nm.str(), bitsOf(ty), p); return true; }
  giveUp("intrinsic " + nm.str());
}
static u32 heapAlloc(T nT, const char* what) { u64 n; if (!constN(nT, n)) { u64 lo, hi; rng(nT, lo, hi); if (CT || hi > 65536) giveUp("allocation of data-dependent size"); n = hi; } if (n > (16u << 20)) { event("huge-allocation", "allocation of " + std::to_string(n) + " bytes"); giveUp("huge allocation"); } u32 id = newObj(n, K_HEAP, nullptr, string(what) + "@" + repoLoc()); return id; }

static bool external(Frame& f, const CallBase* cb, const Function* F, ArrayRef<T> a, Outcome& out) {
  StringRef n = F->getName(); out.k = R_RET;
  if (saCall(n, f, cb, a, out)) return true;
  if (n == "malloc" || n == "_Znwm" || n == "_Znam" || n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t" || n == "__cxa_allocate_exception") { out.v = M.base(heapAlloc(a[0], "heap")); return true; }
  if (n == "calloc") { u32 id = heapAlloc(M.mul(a[0], a[1]), "heap"); T z = M.cst(8, 0); for (auto& b : objs[id].b) b = {z, 0}; out.v = M.base(id); return true; }
  if (n == "free" || n.starts_with("_ZdlPv") || n.starts_with("_ZdaPv")) { if (M.isZero(a[0])) return true; std::vector<Alt> alts; resolve(a[0], M.b1(), alts); for (auto& x : alts) { if (x.obj == ~0u) { if (!M.isZero(x.off)) event("bad-free", "free of a pointer that was not allocated"); continue; } Obj& o = objs[x.obj]; if (o.kind != K_HEAP || !M.isZero(x.off)) event("bad-free", "free of a pointer that was not allocated: " + o.name, true, [&](Terms::Eval& e) { return !e(x.cond).isZero(); }); else if (!o.live) event("double-free", "double free of " + o.name, true, [&](Terms::Eval& e) { return !e(x.cond).isZero(); }); else setLive(x.obj, M.isC(x.cond, 1) ? 0 : 2); } return true; }
  if (n == "__cxa_free_exception" || n == "__cxa_end_catch") return true;
  if (n == "__cxa_throw") { string ty = "exception"; std::vector<Alt> alts; resolve(a[1], M.b1(), alts); if (!alts.empty() && alts[0].obj != ~0u) ty = demangle(objs[alts[0].obj].name); out = doThrow(ty + " at " + repoLoc()); return true; }
  if (n == "__cxa_rethrow" || n == "_Unwind_Resume") { out = doThrow("rethrow"); return true; }
  if (n.starts_with("_ZSt") && n.contains("__throw_")) { out = doThrow(demangle(n.str()) + " at " + repoLoc()); return true; }
  if (n == "__cxa_guard_acquire") { T b = loadBytes(a[0], 1); if (M.isZero(b)) guardDepth++; out.v = M.isZero(b) ? M.cst(32, 1) : M.cst(32, 0); return true; }
  if (n == "__cxa_guard_release") { if (guardDepth) guardDepth--; bool s = inCtors; inCtors = true; storeBytes(a[0], M.cst(8, 1), 1); inCtors = s; return true; }
  if (n == "__cxa_guard_abort") { if (guardDepth) guardDepth--; return true; }
  if (n == "__cxa_thread_atexit") { out.v = M.cst(32, 0); return true; }
  if (n == "_ZNSt13random_device9_M_getvalEv") { out.v = M.sym(32, 0, "entropy"); return true; }
  if (n.starts_with("_ZNSt13random_device7_M_init") || n == "_ZNSt13random_device7_M_finiEv") return true;
  if (n == "getentropy" || n == "getrandom") { u64 len; if (!constN(a[1], len)) giveUp("getrandom length"); for (u64 i = 0; i < len; i++) storeBytes(M.add(a[0], M.cst(64, i)), M.sym(8, 0, "entropy"), 1); out.v = n == "getentropy" ? M.cst(32, 0) : M.cst(64, len); return true; }
  if (n == "__cxa_atexit" || n == "__cxa_thread_atexit") { out.v = M.cst(32, 0); return true; }
  if (n == "memcpy" || n == "memmove") { Outcome t; intrinsic(f, cb, Intrinsic::memmove, a, t); out.v = a[0]; return true; }
  if (n == "memset") { TV b(a.begin(), a.end()); b[1] = M.trunc(b[1], 8); Outcome t; intrinsic(f, cb, Intrinsic::memset, b, t); out.v = a[0]; return true; }
  if (n == "memcmp" || n == "bcmp") { u64 len; if (!constN(a[2], len)) { if (CT) { out.v = M.top(32, 0); return true; } u64 lo, hi; rng(a[2], lo, hi); if (hi > 512) giveUp("comparison of data-dependent length"); T r = M.cst(32, 0); std::vector<T> x, y; for (u64 i = 0; i < hi; i++) { T c = M.ult(M.cst(64, i), a[2]); size_t fm = flog.size(); if (!M.isC(c)) { pc.push_back(c); assume(c, true); } x.push_back(loadBytes(M.add(a[0], M.cst(64, i)), 1)); y.push_back(loadBytes(M.add(a[1], M.cst(64, i)), 1)); if (!M.isC(c)) { pc.pop_back(); undoFacts(fm); } }
      for (int64_t i = hi - 1; i >= 0; i--) { T c = M.ult(M.cst(64, i), a[2]); T d = M.ite(M.eq(x[i], y[i]), r, n == "bcmp" ? M.cst(32, 1) : M.ite(M.ult(x[i], y[i]), M.cst(APInt::getAllOnes(32)), M.cst(32, 1))); r = M.ite(c, d, M.cst(32, 0)); } out.v = r; return true; }
    auto x = bytesAt(a[0], len), y = bytesAt(a[1], len); u64 lab = 0; for (T t : x) lab |= M.g(t).lab; for (T t : y) lab |= M.g(t).lab;
    if (CT) { if (lab & secretMask) event("ct-compare", n.str() + " (early-exit comparison) on secret data", false); }
    T r = M.cst(32, 0); if (n == "bcmp") { T e = M.b1(); for (u64 i = 0; i < len; i++) e = M.band(e, M.eq(x[i], y[i])); r = M.ite(e, M.cst(32, 0), M.cst(32, 1)); }
    else for (int64_t i = len - 1; i >= 0; i--) r = M.ite(M.eq(x[i], y[i]), r, M.ite(M.ult(x[i], y[i]), M.cst(APInt::getAllOnes(32)), M.cst(32, 1)));
    out.v = r; return true; }
  if (n == "strlen") { std::vector<Alt> alts; resolve(a[0], M.b1(), alts); if (alts.size() != 1 || alts[0].obj == ~0u || !M.isC(alts[0].off)) giveUp("strlen"); u64 off = M.cv(alts[0].off), i = 0; Obj& o = objs[alts[0].obj]; for (;; i++) { if (off + i >= o.size) { event("out-of-bounds", "strlen runs past " + objDesc(alts[0].obj)); break; } T b = getVal(alts[0].obj, off + i, 1); T z = M.eq(b, M.cst(8, 0)); if (!M.isC(z)) { u64 lo, hi; rng(b, lo, hi); if (lo > 0) continue; giveUp("strlen of unknown data"); } if (M.isC(z, 1)) break; } out.v = M.cst(64, i); return true; }
  if (n == "memchr") { u64 len; if (!constN(a[2], len)) { u64 lo, hi; rng(a[2], lo, hi); if (CT || hi > 512) giveUp("memchr length"); len = hi; T r = M.cst(64, 0); for (int64_t i = len - 1; i >= 0; i--) { T c = M.ult(M.cst(64, i), a[2]); size_t fm = flog.size(); if (!M.isC(c)) { pc.push_back(c); assume(c, true); } T b = loadBytes(M.add(a[0], M.cst(64, i)), 1); if (!M.isC(c)) { pc.pop_back(); undoFacts(fm); } r = M.ite(M.band(c, M.eq(b, M.trunc(a[1], 8))), M.add(a[0], M.cst(64, i)), r); } out.v = r; return true; }
    T r = M.cst(64, 0); auto x = bytesAt(a[0], len); for (int64_t i = len - 1; i >= 0; i--) { T e = M.eq(x[i], M.trunc(a[1], 8)); if (CT && !M.isC(e)) giveUp("memchr"); r = M.ite(e, M.add(a[0], M.cst(64, i)), r); } out.v = r; return true; }
  if (n == "sprintf" || n == "snprintf") { size_t fi = n == "sprintf" ? 1 : 2; u64 cap = ~0ull; if (fi == 2 && !constN(a[1], cap)) giveUp("snprintf size"); if (CT) giveUp("sprintf");
    string fmt; for (u64 i = 0;; i++) { T b = loadBytes(M.add(a[fi], M.cst(64, i)), 1); if (!M.isC(b)) giveUp("sprintf format"); if (M.cv(b) == 0) break; fmt += char(M.cv(b)); if (i > 4096) giveUp("sprintf format"); }
    TV o; size_t arg = fi + 1; auto lit = [&](StringRef x) { for (char c : x) o.push_back(M.cst(8, (unsigned char)c)); };
    for (size_t i = 0; i < fmt.size(); i++) { if (fmt[i] != '%') { lit(StringRef(&fmt[i], 1)); continue; } if (++i < fmt.size() && fmt[i] == '%') { lit("%"); continue; }
      string spec = "%"; bool zero = false; u64 width = 0; while (i < fmt.size() && fmt[i] == '0') { zero = true; spec += fmt[i++]; } while (i < fmt.size() && isdigit(fmt[i])) { width = width * 10 + fmt[i] - '0'; spec += fmt[i++]; } string len; while (i < fmt.size() && strchr("hlzj", fmt[i])) len += fmt[i++];
      if (i >= fmt.size() || arg >= a.size() || !strchr("xXud", fmt[i]) || width > 64) giveUp("sprintf conversion"); char cv = fmt[i]; T v = a[arg++]; unsigned w = M.g(v).w, want = len == "hh" ? 8 : len == "h" ? 16 : len == "" ? 32 : 64; if (want > w) giveUp("sprintf conversion"); if (want < w) v = M.trunc(v, want);
      if (M.isC(v)) { char buf[96]; long long k = M.cv(v); if (cv == 'd') k = want == 8 ? (int8_t)k : want == 16 ? (int16_t)k : want == 32 ? (int32_t)k : k; string f2 = spec + "ll" + cv; std::snprintf(buf, sizeof buf, f2.c_str(), k); lit(buf); continue; }
      u64 lo, hi; rng(v, lo, hi); if (!(cv == 'x' || cv == 'X') || !zero || width * 4 < 64 - (hi ? __builtin_clzll(hi) : 64)) giveUp("sprintf of unknown data");
      for (u64 k = width; k-- > 0;) { if (k * 4 >= want) { lit("0"); continue; } std::vector<uint64_t> dg; for (unsigned q = 0; q < 16; q++) dg.push_back(q < 10 ? '0' + q : (cv == 'x' ? 'a' : 'A') - 10 + q); o.push_back(M.table(M.extract(v, k * 4, 4), dg, 8)); } }
    u64 cnt = o.size(); if (cap) { for (u64 i = 0; i < cnt && i + 1 < cap; i++) storeBytes(M.add(a[0], M.cst(64, i)), o[i], 1); storeBytes(M.add(a[0], M.cst(64, std::min(cnt, cap - 1))), M.cst(8, 0), 1); } out.v = M.cst(32, cnt); return true; }
  if (n == "printf" || n == "puts" || n == "putchar" || n == "fprintf" || n == "fputs" || n == "fwrite" || n == "fflush" || n == "fputc") { ignoredExt.insert(n.str()); out.v = M.cst(bitsOf(F->getReturnType()), 0); return true; }
  if (n == "abort" || n == "exit" || n == "_ZSt9terminatev" || n == "__cxa_pure_virtual" || n == "__assert_fail" || n == "_ZSt21__glibcxx_assert_failPKciS0_S0_" || n == "__stack_chk_fail") { event("terminate", demangle(n.str()) + " reached"); out.k = R_DEAD; return true; }
  if (n == "_ZNSt6chrono3_V212system_clock3nowEv" || n == "_ZNSt6chrono3_V212steady_clock3nowEv" || n == "time" || n == "clock") { ignoredExt.insert(n.str()); out.v = M.sym(64, 0, "now"); return true; }
  if (n == "pthread_mutex_lock" || n == "pthread_rwlock_wrlock" || n == "pthread_mutex_unlock" || n == "pthread_rwlock_unlock" || n == "pthread_rwlock_rdlock" || n == "__gthrw___pthread_key_create") { if (n.ends_with("_lock") && !n.ends_with("unlock")) lockDepth++; else if (n.ends_with("wrlock") || n.ends_with("rdlock")) lockDepth++; else if (n.ends_with("unlock") && lockDepth) lockDepth--; out.v = M.cst(32, 0); return true; }
  string dm = demangle(n.str());
  if (dm.rfind("std::", 0) == 0 && (dm.find("_error::") != string::npos || dm.find("exception::") != string::npos || dm.find("::out_of_range") != string::npos || dm.find("bad_") != string::npos || dm.find("::invalid_argument") != string::npos)) { ignoredExt.insert(dm); if (!F->getReturnType()->isVoidTy()) out.v = M.cst(bitsOf(F->getReturnType()), 0); return true; }
  giveUp("external function " + dm);
}

static Outcome callFn(const Function* F, ArrayRef<T> args) {
  nCalls++;
  DFn* d = decode(F);
  if (fnSeen.insert(d->demangled).second) for (auto& B : *F) for (auto& I : B) for (const DILocation* l = I.getDebugLoc().get(); l; l = l->getInlinedAt()) if (auto* sp = l->getScope()->getSubprogram()) { StringRef fn = sp->getFilename(); if (fn.contains("caligo/") || fn.contains("/src/")) { size_t p = fn.rfind("caligo/"); fnSeen.insert("repo:" + (p != StringRef::npos ? fn.substr(p) : fn.substr(fn.rfind("src/"))).str() + ":" + std::to_string(sp->getLine()) + " " + sp->getName().str()); } }
  if (stack.size() > 3000) giveUp("recursion depth");
  Frame f; f.d = d; f.r.assign(d->nslots, NONE); f.visits.assign(d->blk.size(), 0);
  unsigned i = 0; for (auto& a : F->args()) { T v = args[i++]; if (a.hasByValAttr()) { u64 n = DL->getTypeAllocSize(a.getParamByValType()); u32 id = newObj(n, K_STACK, &a, "byval"); copyBytes(M.base(id), v, n); v = M.base(id); f.allocas.push_back(id); } f.r[d->slots[&a]] = v; }
  stack.push_back(&f);
  Outcome o = runBlocks(f, 0, -1, -2);
  for (u32 id : f.allocas) setLive(id, 0);
  stack.pop_back();
  return o;
}
static Outcome doCall(Frame& f, const DInst& di) {
  auto* cb = cast<CallBase>(di.I); TV a; for (unsigned i = 0; i < cb->arg_size(); i++) a.push_back(di.ops[i] == INT32_MIN ? NONE : val(f, di.ops[i]));
  const Function* F = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
  Outcome out;
  if (cb->isInlineAsm()) { out.k = R_RET; if (!cb->getType()->isVoidTy()) { if (bitsOf(cb->getType()) == 64 && a.size() >= 1) out.v = a[0]; else giveUp("inline asm"); } return out; }
  if (!F) { T p = val(f, di.ops[cb->getNumOperands() - 1]); if (CT && secretT(p)) event("ct-branch", "indirect call through secret data", false);
    std::vector<Alt> alts; resolve(p, M.b1(), alts);
    if (alts.size() == 1 && alts[0].obj != ~0u && objs[alts[0].obj].fn && M.isZero(alts[0].off)) F = objs[alts[0].obj].fn;
    else { if (alts.size() == 1 && alts[0].obj == ~0u) { event("null-call", "call through a null or invalid function pointer"); out.k = R_DEAD; return out; } giveUp("indirect call with several targets"); } }
  if (auto it = stubMemo.find(F); it != stubMemo.end()) { if (it->second) F = it->second; }
  else { const Function* r = nullptr; string dm = demangle(F->getName().str()); for (auto& s : stubs) { // match ignoring a leading return type
        size_t p = dm.find(s.first); if (p != string::npos && dm.find('(') != string::npos) { string pre = dm.substr(0, p); if (pre.find('(') == string::npos || s.first[0] == '~') { r = s.second; break; } } } stubMemo[F] = r; if (r) F = r; }
  if (auto id = F->getIntrinsicID()) { intrinsic(f, cb, id, a, out); return out; }
  if (F->isDeclaration() || F->getName().starts_with("sa_")) { external(f, cb, F, a, out); return out; }
  StringRef n = F->getName();
  if (n == "_ZSt9terminatev" || n == "__clang_call_terminate") { event("terminate", "std::terminate reached"); out.k = R_DEAD; return out; }
  if (n.starts_with("_ZSt") && n.contains("__throw_")) { external(f, cb, F, a, out); return out; }
  return callFn(F, a);
}

// ------------------------------------------------------------------------------------------------ merging
struct SideMem { std::unordered_map<u64, ByteRef> w; std::unordered_map<int, T> r; };
static u64 keyOf(u32 o, u64 off) { return ((u64)o << 32) | (off & 0xffffffffu); }
static void captureUndo(Frame& f, size_t mm, size_t rm, SideMem& s) {
  for (size_t i = mlog.size(); i > mm; i--) { auto& l = mlog[i - 1]; Obj& o = objs[l.obj];
    if (l.off == ~0ull) { s.w.emplace(keyOf(l.obj, 0xffffffffu), ByteRef{0, o.live}); o.live = l.old.i; }
    else { s.w.emplace(keyOf(l.obj, l.off), o.b[l.off]); o.b[l.off] = l.old; } }
  mlog.resize(mm);
  for (size_t i = f.rlog.size(); i > rm; i--) { auto& l = f.rlog[i - 1]; s.r.emplace(l.first, f.r[l.first]); f.r[l.first] = l.second; }
  f.rlog.resize(rm);
}
static void reapply(Frame& f, SideMem& s) {
  for (auto& p : s.w) { u32 o = p.first >> 32; u64 off = p.first & 0xffffffffu; if (off == 0xffffffffu) setLive(o, p.second.i); else putByte(o, off, p.second); }
  for (auto& p : s.r) setReg(f, p.first, p.second);
}
static void mergeMem(Frame& f, T c, SideMem& A, SideMem& B) {
  std::vector<u64> keys; keys.reserve(A.w.size() + B.w.size()); for (auto& p : A.w) keys.push_back(p.first); for (auto& p : B.w) if (!A.w.count(p.first)) keys.push_back(p.first);
  std::sort(keys.begin(), keys.end());
  auto get = [&](SideMem& s, u64 k) -> ByteRef { auto it = s.w.find(k); if (it != s.w.end()) return it->second; u32 o = k >> 32; u64 off = k & 0xffffffffu; if (off == 0xffffffffu) return {0, objs[o].live}; return objs[o].b[off]; };
  auto cont = [&](ByteRef p, ByteRef q) { return (p.t == q.t && (q.i == p.i + 1)) || (p.t == q.t && M.W(p.t) == 8); };
  size_t i = 0;
  while (i < keys.size()) {
    u64 k = keys[i]; u32 o = k >> 32; u64 off = k & 0xffffffffu; ByteRef a = get(A, k), b = get(B, k);
    if (off == 0xffffffffu) { if (a.i != b.i) setLive(o, 2); else if (objs[o].live != a.i) setLive(o, a.i); i++; continue; }
    if (a == b) { if (!(objs[o].b[off] == a)) putByte(o, off, a); i++; continue; }
    std::vector<ByteRef> ra{a}, rb{b}; size_t j = i + 1;
    while (j < keys.size() && keys[j] == k + (j - i) && ra.size() < 64) { ByteRef x = get(A, keys[j]), y = get(B, keys[j]); if (x == y) break; if (!cont(ra.back(), x) && !cont(rb.back(), y)) break; ra.push_back(x); rb.push_back(y); j++; }
    auto mk = [&](std::vector<ByteRef>& r) { TV p; size_t q = 0; while (q < r.size()) { size_t e = 1; while (q + e < r.size() && r[q + e].t == r[q].t && r[q + e].i == r[q].i + e) e++; p.push_back(M.extract(r[q].t, r[q].i * 8, e * 8)); q += e; } return M.concat(p); };
    T v = M.ite(c, mk(ra), mk(rb)); putVal(o, off, v, ra.size()); i = j;
  }
  std::vector<int> rk; for (auto& p : A.r) rk.push_back(p.first); for (auto& p : B.r) if (!A.r.count(p.first)) rk.push_back(p.first);
  for (int s : rk) { auto ia = A.r.find(s), ib = B.r.find(s); T x = ia != A.r.end() ? ia->second : f.r[s], y = ib != B.r.end() ? ib->second : f.r[s]; T v = x == NONE ? y : y == NONE ? x : x == y ? x : (M.W(x) == M.W(y) ? M.ite(c, x, y) : x); setReg(f, s, v); }
}
static T iteN(T c, T a, T b) { if (a == NONE) return b; if (b == NONE) return a; return M.ite(c, a, b); }

static TV phiVals(Frame& f, DBlock& b, int prev) {
  TV v; for (auto& p : b.phis) { auto* ph = cast<PHINode>(p.I); int i = ph->getBasicBlockIndex(f.d->blk[prev].bb); v.push_back(val(f, p.ops[i])); } return v;
}
// symbolic two-way branch: analyse both sides up to the immediate post-dominator and join
static Outcome fork(Frame& f, T c, int bb, int t1, int t2, int stop, std::function<Outcome(bool)> side) {
  nForks++;
  if (CT && secretT(c) && !(verdictMask && (M.g(c).lab & verdictMask) == verdictMask)) event("ct-branch", "branch on secret-dependent condition", false);
  if (M.g(c).undef) event("uninit-branch", "branch depends on uninitialised memory", true, [&](Terms::Eval& e) { return reallyUndef(c, e); });
  if (levels.size() > 3000 || nForks > 3000000) giveUp("too many nested data-dependent branches");
  size_t mm = mlog.size(), rm = f.rlog.size(), fm = flog.size(), pm = pc.size();
  levels.push_back({mm, (u32)objs.size()}); f.depth++;
  if (!CT) { pc.push_back(c); assume(c, true); }
  Outcome A = side(true);
  SideMem sa; captureUndo(f, mm, rm, sa); undoFacts(fm); pc.resize(pm);
  bool aDead = A.k == R_DEAD || A.k == R_THREW;
  T nc = M.bnot(c);
  levels.back().firstObj = objs.size();
  if (!CT) { pc.push_back(nc); assume(nc, true); }
  Outcome B = side(false);
  bool bDead = B.k == R_DEAD || B.k == R_THREW;
  if (aDead && !bDead) { // B continues under its fact; keep its log for the enclosing level
    levels.pop_back(); f.depth--; if (f.depth == 0) f.rlog.resize(rm);
    if (levels.empty()) mlog.resize(mm);
    return B;
  }
  SideMem sb; captureUndo(f, mm, rm, sb); undoFacts(fm); pc.resize(pm); levels.pop_back(); f.depth--;
  if (!aDead && bDead) { reapply(f, sa); if (!CT) { pc.push_back(c); assume(c, true); } return A; }
  if (aDead && bDead) { Outcome o; o.k = (A.k == R_THREW || B.k == R_THREW) ? R_THREW : R_DEAD; o.what = A.what + "|" + B.what; return o; }
  if (A.k != B.k) giveUp("sides of a branch end differently");
  nJoins++;
  mergeMem(f, c, sa, sb);
  Outcome o; o.k = A.k;
  if (A.k == R_RET) o.v = (A.v == NONE && B.v == NONE) ? NONE : iteN(c, A.v, B.v);
  else for (size_t i = 0; i < A.phis.size(); i++) o.phis.push_back(iteN(c, A.phis[i], B.phis[i]));
  return o;
}

static T gepT(Frame& f, const DInst& di) {
  auto* g = cast<GetElementPtrInst>(di.I); if (g->getType()->isVectorTy()) giveUp("vector gep");
  T p = val(f, di.ops[0]); unsigned i = 1; T off = M.cst(64, 0);
  for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it, ++i) {
    if (auto* s = it.getStructTypeOrNull()) { u64 o = DL->getStructLayout(s)->getElementOffset(cast<ConstantInt>(g->getOperand(i))->getZExtValue()); off = M.add(off, M.cst(64, o)); }
    else { T ix = val(f, di.ops[i]); if (M.W(ix) < 64) ix = M.sext(ix, 64); else if (M.W(ix) > 64) ix = M.trunc(ix, 64); u64 sz = DL->getTypeAllocSize(it.getIndexedType()); off = M.add(off, M.mul(ix, M.cst(64, sz))); }
  }
  return M.add(p, off);
}
// vector accesses that need an aligned address fault on any other; only definite cases count (a base of known alignment, a constant offset)
static void alignCheck(T p, u64 A, const char* what) {
  if (A < 16) return;
  std::vector<Alt> alts; resolve(p, M.b1(), alts); if (alts.size() != 1 || alts[0].obj == ~0u || !M.isC(alts[0].off)) return;
  Obj& o = objs[alts[0].obj]; u64 off = M.cv(alts[0].off), ba = 1; if (off % A == 0) return;
  if (o.kind == K_HEAP) ba = 16; else if (o.kind == K_STACK && o.site && isa<AllocaInst>(o.site)) ba = cast<AllocaInst>(o.site)->getAlign().value(); else if (o.kind == K_GLOBAL && o.site && isa<GlobalVariable>(o.site)) ba = cast<GlobalVariable>(o.site)->getPointerAlignment(*DL).value();
  if (ba < A && ba <= (off & -off)) return; // the base itself might be off by as much
  event("misaligned", string(what) + " that needs " + std::to_string(A) + "-byte alignment at offset " + std::to_string(off) + " of " + o.name);
}
static T loadTy(Type* t, T p) {
  if (auto* s = dyn_cast<StructType>(t)) { TV v; auto* L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) if (bitsOf(s->getElementType(i))) v.push_back(loadTy(s->getElementType(i), M.add(p, M.cst(64, L->getElementOffset(i))))); return M.concat(v); }
  if (auto* a = dyn_cast<ArrayType>(t)) { TV v; u64 es = DL->getTypeAllocSize(a->getElementType()); for (unsigned i = 0; i < a->getNumElements(); i++) v.push_back(loadTy(a->getElementType(), M.add(p, M.cst(64, i * es)))); return M.concat(v); }
  unsigned w = bitsOf(t); u64 n = (w + 7) / 8; T v = loadBytes(p, n); return M.W(v) == w ? v : M.trunc(v, w);
}
static void storeTy(Type* t, T p, T v) {
  if (auto* s = dyn_cast<StructType>(t)) { unsigned o = 0; auto* L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) { unsigned w = bitsOf(s->getElementType(i)); if (!w) continue; storeTy(s->getElementType(i), M.add(p, M.cst(64, L->getElementOffset(i))), M.extract(v, o, w)); o += w; } return; }
  if (auto* a = dyn_cast<ArrayType>(t)) { unsigned w = bitsOf(a->getElementType()); u64 es = DL->getTypeAllocSize(a->getElementType()); for (unsigned i = 0; i < a->getNumElements(); i++) storeTy(a->getElementType(), M.add(p, M.cst(64, i * es)), M.extract(v, i * w, w)); return; }
  unsigned w = bitsOf(t); storeBytes(p, v, (w + 7) / 8);
}
static unsigned aggOffset(Type* t, ArrayRef<unsigned> idx, Type** leaf) { unsigned o = 0; for (unsigned i : idx) { if (auto* s = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) o += bitsOf(s->getElementType(j)); t = s->getElementType(i); } else { auto* a = cast<ArrayType>(t); o += i * bitsOf(a->getElementType()); t = a->getElementType(); } } *leaf = t; return o; }
static T replaceBits(T v, unsigned off, T part) { unsigned w = M.W(v), pw = M.W(part); TV p; if (off) p.push_back(M.extract(v, 0, off)); p.push_back(part); if (off + pw < w) p.push_back(M.extract(v, off + pw, w - off - pw)); return M.concat(p); }
static bool allC(ArrayRef<T> v) { for (T t : v) if (!M.isC(t)) return false; return true; }
static T fpOp(const Instruction& I, ArrayRef<T> a) {
  Type* ty = I.getType(); unsigned w = bitsOf(ty);
  if (allC(a) && !ty->isVectorTy()) {
    SmallVector<Constant*, 3> ops; bool ok = true; for (unsigned i = 0; i < I.getNumOperands(); i++) { Type* ot = I.getOperand(i)->getType(); if (ot->isFloatingPointTy()) ops.push_back(ConstantFP::get(ot, APFloat(ot->getFltSemantics(), M.g(a[i]).c))); else if (ot->isIntegerTy()) ops.push_back(ConstantInt::get(ot, M.g(a[i]).c)); else ok = false; }
    if (ok) { Constant* r = nullptr; if (auto* c = dyn_cast<CmpInst>(&I)) r = ConstantFoldCompareInstOperands(c->getPredicate(), ops[0], ops[1], *DL); else r = ConstantFoldInstOperands(const_cast<Instruction*>(&I), ops, *DL); if (r && (isa<ConstantInt>(r) || isa<ConstantFP>(r))) return constT(r); }
  }
  TV p(a.begin(), a.end()); return M.uf(string("fp.") + I.getOpcodeName(), w, p);
}

static Outcome runBlocks(Frame& f, int bb, int prev, int stop) {
  bool skipPhi = false; TV given;
  for (;;) {
    DBlock& b = f.d->blk[bb];
    if (!skipPhi && bb == stop) { Outcome o; o.k = R_STOP; o.phis = phiVals(f, b, prev); return o; }
    if (!b.phis.empty()) { TV v = skipPhi ? given : phiVals(f, b, prev); for (size_t i = 0; i < b.phis.size(); i++) setReg(f, b.phis[i].slot, v[i]); }
    skipPhi = false;
    if (++f.visits[bb] > 50000000) giveUp("loop bound");
    for (auto& di : b.ins) {
      const Instruction& I = *di.I; f.cur = &I; nInstr++;
      if ((nInstr & 0xfff) == 0 && elapsed() > maxSec) giveUp("time limit");
      auto op = [&](unsigned i) { return val(f, di.ops[i]); };
      auto set = [&](T v) { if (M.W(v) != bitsOf(I.getType())) { string s; raw_string_ostream os(s); I.print(os); giveUp("width mismatch at " + s); } setReg(f, di.slot, v); };
      Type* ty = I.getType();
      switch (I.getOpcode()) {
      case Instruction::Add: set(lanes2(ty, op(0), op(1), [](T a, T b) { return M.add(a, b); })); break;
      case Instruction::Sub: set(lanes2(ty, op(0), op(1), [](T a, T b) { return M.sub(a, b); })); break;
      case Instruction::Mul: set(lanes2(ty, op(0), op(1), [](T a, T b) { return M.mul(a, b); })); break;
      case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
        Op o = I.getOpcode() == Instruction::UDiv ? O_UDIV : I.getOpcode() == Instruction::URem ? O_UREM : I.getOpcode() == Instruction::SDiv ? O_SDIV : O_SREM;
        set(lanes2(ty, op(0), op(1), [&](T a, T d) { if (CT && (secretT(a) || secretT(d)) && !(M.isC(d) )) event("ct-division", "division with secret operand", false);
          T z = simp(M.eq(d, M.cst(M.W(d), 0))); if (M.isC(z, 1)) { event("div-by-zero", "division by zero"); return M.undef(M.W(a)); } if (!M.isC(z) && !CT) event("div-by-zero", "division by zero possible", true, [&](Terms::Eval& e) { return !e(z).isZero(); });
          return M.divrem(a, d, o); })); break; }
      case Instruction::And: set(M.band(op(0), op(1))); break;
      case Instruction::Or: set(M.bor(op(0), op(1))); break;
      case Instruction::Xor: set(M.bxor(op(0), op(1))); break;
      case Instruction::Shl: set(lanes2(ty, op(0), op(1), [](T a, T s) { return M.shift(a, s, O_SHL); })); break;
      case Instruction::LShr: set(lanes2(ty, op(0), op(1), [](T a, T s) { return M.shift(a, s, O_LSHR); })); break;
      case Instruction::AShr: set(lanes2(ty, op(0), op(1), [](T a, T s) { return M.shift(a, s, O_ASHR); })); break;
      case Instruction::ICmp: { auto p = cast<ICmpInst>(I).getPredicate(); set(lanes2(I.getOperand(0)->getType(), op(0), op(1), [&](T a, T b) { return icmp(p, a, b); })); break; }
      case Instruction::Select: { nSelect++; T c = op(0); if (M.W(c) == 1) set(M.ite(simp(c), op(1), op(2))); else { unsigned n, w; laneInfo(ty, n, w); T x = op(1), y = op(2); TV p; for (unsigned i = 0; i < n; i++) p.push_back(M.ite(M.extract(c, i, 1), M.extract(x, i * w, w), M.extract(y, i * w, w))); set(M.concat(p)); } break; }
      case Instruction::Trunc: { unsigned n, w; laneInfo(ty, n, w); set(lanes1(I.getOperand(0)->getType(), op(0), [&](T a) { return M.trunc(a, w); })); break; }
      case Instruction::ZExt: { unsigned n, w; laneInfo(ty, n, w); set(lanes1(I.getOperand(0)->getType(), op(0), [&](T a) { return M.zext(a, w); })); break; }
      case Instruction::SExt: { unsigned n, w; laneInfo(ty, n, w); set(lanes1(I.getOperand(0)->getType(), op(0), [&](T a) { return M.sext(a, w); })); break; }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: set(op(0)); break;
      case Instruction::PtrToInt: case Instruction::IntToPtr: { T v = op(0); unsigned w = bitsOf(ty); set(M.W(v) > w ? M.trunc(v, w) : M.zext(v, w)); break; }
      case Instruction::Freeze: { T v = op(0); if (M.g(v).op == O_UNDEF) v = M.cst(M.W(v), 0); set(v); break; }
      case Instruction::ExtractElement: { u64 k; unsigned n, w; laneInfo(I.getOperand(0)->getType(), n, w); if (!constN(op(1), k) || k >= n) giveUp("extractelement"); set(M.extract(op(0), k * w, w)); break; }
      case Instruction::InsertElement: { u64 k; unsigned n, w; laneInfo(ty, n, w); if (!constN(op(2), k) || k >= n) giveUp("insertelement"); set(replaceBits(op(0), k * w, op(1))); break; }
      case Instruction::ShuffleVector: { auto& sv = cast<ShuffleVectorInst>(I); unsigned n, w; laneInfo(I.getOperand(0)->getType(), n, w); TV p; T x = op(0), y = op(1); for (int m : sv.getShuffleMask()) p.push_back(m < 0 ? M.undef(w) : (unsigned)m < n ? M.extract(x, m * w, w) : M.extract(y, (m - n) * w, w)); set(M.concat(p)); break; }
      case Instruction::ExtractValue: { Type* leaf; unsigned o = aggOffset(I.getOperand(0)->getType(), cast<ExtractValueInst>(I).getIndices(), &leaf); set(M.extract(op(0), o, bitsOf(leaf))); break; }
      case Instruction::InsertValue: { Type* leaf; unsigned o = aggOffset(ty, cast<InsertValueInst>(I).getIndices(), &leaf); set(replaceBits(op(0), o, op(1))); break; }
      case Instruction::Alloca: { auto& A = cast<AllocaInst>(I); u64 cnt = 1; if (!constN(op(0), cnt)) giveUp("dynamic alloca"); u32 id = newObj(DL->getTypeAllocSize(A.getAllocatedType()) * cnt, K_STACK, &I, I.hasName() ? "local " + I.getName().str() : "local"); f.allocas.push_back(id); set(M.base(id)); break; }
      case Instruction::Load: alignCheck(op(0), cast<LoadInst>(I).getAlign().value(), "load"); set(loadTy(ty, op(0))); break;
      case Instruction::Store: alignCheck(op(1), cast<StoreInst>(I).getAlign().value(), "store"); atomicOp = cast<StoreInst>(I).isAtomic(); storeTy(I.getOperand(0)->getType(), op(1), op(0)); atomicOp = false; break;
      case Instruction::GetElementPtr: set(gepT(f, di)); break;
      case Instruction::AtomicRMW: { struct AG { AG() { atomicOp = true; } ~AG() { atomicOp = false; } } ag; auto& R = cast<AtomicRMWInst>(I); T old = loadTy(ty, op(0)), v = op(1), nv; switch (R.getOperation()) { case AtomicRMWInst::Add: nv = M.add(old, v); break; case AtomicRMWInst::Sub: nv = M.sub(old, v); break; case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Or: nv = M.bor(old, v); break; case AtomicRMWInst::And: nv = M.band(old, v); break; case AtomicRMWInst::Xor: nv = M.bxor(old, v); break; default: giveUp("atomicrmw"); } storeTy(ty, op(0), nv); set(old); break; }
      case Instruction::AtomicCmpXchg: { struct AG { AG() { atomicOp = true; } ~AG() { atomicOp = false; } } ag; Type* vt = I.getOperand(1)->getType(); T old = loadTy(vt, op(0)); T e = M.eq(old, op(1)); storeTy(vt, op(0), M.ite(e, op(2), old)); set(M.concat({old, e})); break; }
      case Instruction::Fence: break;
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FNeg: case Instruction::FCmp: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::FPExt: case Instruction::FPTrunc: { TV p; for (unsigned i = 0; i < I.getNumOperands(); i++) p.push_back(op(i)); set(fpOp(I, p)); break; }
      case Instruction::Call: {
        Outcome o = doCall(f, di); if (o.k == R_THREW || o.k == R_DEAD) return o;
        if (di.slot >= 0) { if (o.v == NONE) o.v = M.undef(std::max(1u, bitsOf(ty))); set(o.v); } break; }
      case Instruction::Invoke: {
        Outcome o = doCall(f, di); if (o.k == R_THREW || o.k == R_DEAD) return o;
        if (di.slot >= 0) { if (o.v == NONE) o.v = M.undef(std::max(1u, bitsOf(ty))); set(o.v); }
        prev = bb; bb = f.d->idx[cast<InvokeInst>(I).getNormalDest()]; goto next; }
      case Instruction::Ret: { Outcome o; o.k = R_RET; if (I.getNumOperands()) o.v = op(0); return o; }
      case Instruction::Unreachable: { Outcome o; o.k = R_DEAD; event("unreachable", "control reaches a point the compiler treats as undefined behaviour"); return o; }
      case Instruction::Br: {
        auto& B = cast<BranchInst>(I); nBranch++;
        if (B.isUnconditional()) { prev = bb; bb = f.d->idx[B.getSuccessor(0)]; goto next; }
        nCondBr++;
        T c = simp(op(0)); int s1 = f.d->idx[B.getSuccessor(0)], s2 = f.d->idx[B.getSuccessor(1)];
        if (M.g(c).op == O_UNDEF) { event("uninit-branch", "branch depends on uninitialised memory"); c = M.b0(); }
        if (M.isC(c)) { prev = bb; bb = M.isZero(c) ? s2 : s1; goto next; }
        if (s1 == s2) { prev = bb; bb = s1; goto next; }
        int J = b.ipdom;
        Outcome o = fork(f, c, bb, s1, s2, J, [&](bool t) { return runBlocks(f, t ? s1 : s2, bb, J < 0 ? -2 : J); });
        if (o.k != R_STOP) return o;
        if (J == stop) return o;
        prev = bb; bb = J; skipPhi = true; given = o.phis; goto next; }
      case Instruction::Switch: {
        auto& S = cast<SwitchInst>(I); nCondBr++; T v = op(0); u64 k; int J = b.ipdom;
        if (M.g(v).op == O_UNDEF) { event("uninit-branch", "switch depends on uninitialised memory"); v = M.cst(M.W(v), 0); }
        if (constN(v, k)) { auto* ci = ConstantInt::get(S.getContext(), M.isC(v) ? M.g(v).c : APInt(M.W(v), k)); prev = bb; bb = f.d->idx[S.findCaseValue(ci)->getCaseSuccessor()]; goto next; }
        // cases grouped by destination
        std::vector<std::pair<int, T>> dest; for (auto& cs : S.cases()) { int d = f.d->idx[cs.getCaseSuccessor()]; T e = simp(M.eq(v, M.cst(cs.getCaseValue()->getValue()))); bool found = false; for (auto& p : dest) if (p.first == d) { p.second = M.bor(p.second, e); found = true; } if (!found) dest.push_back({d, e}); }
        int dd = f.d->idx[S.getDefaultDest()];
        std::function<Outcome(size_t)> chain = [&](size_t i) -> Outcome {
          while (i < dest.size() && (M.isZero(simp(dest[i].second)))) i++;
          if (i == dest.size()) return runBlocks(f, dd, bb, J < 0 ? -2 : J);
          T c = simp(dest[i].second); int d = dest[i].first;
          if (M.isC(c)) return runBlocks(f, d, bb, J < 0 ? -2 : J);
          return fork(f, c, bb, d, dd, J, [&](bool t) { return t ? runBlocks(f, d, bb, J < 0 ? -2 : J) : chain(i + 1); }); };
        Outcome o = chain(0);
        if (o.k != R_STOP) return o;
        if (J == stop) return o;
        prev = bb; bb = J; skipPhi = true; given = o.phis; goto next; }
      default: { string s; raw_string_ostream os(s); I.print(os); giveUp("instruction " + s); }
      }
    }
    giveUp("block without terminator");
  next:;
  }
}

// ------------------------------------------------------------------------------------------------ output
static string jstr(const string& s) { string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static string outPath, entryName;
static void writeReport(const string& aborted) {
  string s = "{\"entry\":" + jstr(entryName) + ",\"ct\":" + (CT ? "true" : "false") + ",\"aborted\":" + jstr(aborted) + ",\"stats\":{";
  s += "\"instructions\":" + std::to_string(nInstr) + ",\"forks\":" + std::to_string(nForks) + ",\"joins\":" + std::to_string(nJoins) + ",\"calls\":" + std::to_string(nCalls) + ",\"mem_accesses\":" + std::to_string(nMemAcc) + ",\"cond_branches\":" + std::to_string(nCondBr) + ",\"selects\":" + std::to_string(nSelect) + ",\"nodes\":" + std::to_string(M.n.size()) + ",\"objects\":" + std::to_string(objs.size()) + ",\"wall\":" + std::to_string(elapsed()) + "},\"obligations\":[";
  bool first = true; for (auto& o : obligs) { if (!first) s += ","; first = false; s += "\n{\"id\":" + jstr(o.id) + ",\"status\":" + jstr(o.status) + ",\"ctx\":" + jstr(o.ctx) + ",\"units\":" + std::to_string(o.units) + ",\"detail\":" + jstr(o.detail) + "}"; }
  s += "],\"events\":["; first = true; for (auto& e : events) { if (!first) s += ","; first = false; s += "\n{\"kind\":" + jstr(e.kind) + ",\"status\":" + jstr(e.status) + ",\"msg\":" + jstr(e.msg) + ",\"loc\":" + jstr(e.loc) + ",\"ctx\":" + jstr(e.ctx) + ",\"trace\":" + jstr(e.trace) + "}"; }
  s += "],\"functions\":["; first = true; for (auto& x : fnSeen) { if (!first) s += ","; first = false; s += jstr(x); }
  s += "],\"ignored\":["; first = true; for (auto& x : ignoredExt) { if (!first) s += ","; first = false; s += jstr(x); }
  s += "],\"global_writes\":["; first = true; for (auto& x : globalWrites) { if (!first) s += ","; first = false; s += jstr(x); }
  s += "]}\n";
  FILE* o = outPath.empty() ? stdout : fopen(outPath.c_str(), "w"); fwrite(s.data(), 1, s.size(), o); if (o != stdout) fclose(o);
}
static const Function* entryF;
static void* runThread(void*) {
  string ab;
  try {
    inCtors = true; U8 = M.undef(8);
    if (auto* g = Mod->getGlobalVariable("llvm.global_ctors")) if (g->hasInitializer()) if (auto* arr = dyn_cast<ConstantArray>(g->getInitializer())) {
      std::vector<std::pair<u64, const Function*>> fs; for (auto& o : arr->operands()) if (auto* s = dyn_cast<ConstantStruct>(o)) if (auto* fn = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) fs.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), fn});
      std::stable_sort(fs.begin(), fs.end(), [](auto& a, auto& b) { return a.first < b.first; });
      for (auto& p : fs) { if (p.second->getName().contains("iostream")) continue; Outcome o = callFn(p.second, {}); if (o.k == R_THREW) giveUp("static initialiser throws"); }
    }
    fnSeen.clear(); inCtors = false; nInstr = 0; nCalls = 0;
    Outcome o = callFn(entryF, {});
    if (o.k == R_DEAD || o.k == R_THREW) oblige("entry-completes", "refuted", 1, "the analysed operation never returns normally: " + o.what);
    else oblige("entry-completes", "proved", 1, "");
  } catch (std::bad_alloc&) { ab = "memory limit"; } catch (Abort& a) { ab = a.why; }
  writeReport(ab);
  return nullptr;
}
static int cmdRun(int argc, char** argv) {
  string bc; std::vector<std::pair<string, string>> st;
  for (int i = 2; i < argc; i++) { string a = argv[i]; if (a == "--entry") entryName = argv[++i]; else if (a == "--ct") CT = true; else if (a == "--effects") EFFECTS = true; else if (a == "--out") outPath = argv[++i]; else if (a == "--bitpush") M.bitPush = true; else if (a == "--xlim") M.XLIM = atoi(argv[++i]); else if (a == "--max-sec") maxSec = atof(argv[++i]); else if (a == "--stub") { string s = argv[++i]; size_t p = s.rfind('='); st.push_back({s.substr(0, p), s.substr(p + 1)}); } else bc = a; }
  struct rlimit rl = {14ull << 30, 14ull << 30}; setrlimit(RLIMIT_AS, &rl);
  M.ct = CT; secretMask = 1; // group 1 = secret in CT mode
  LLVMContext ctx; SMDiagnostic err; auto m = parseIRFile(bc, err, ctx); if (!m) { err.print("sa", errs()); return 3; }
  Mod = m.get(); DL = &m->getDataLayout();
  entryF = m->getFunction(entryName); if (!entryF || entryF->isDeclaration()) { fprintf(stderr, "no entry %s\n", entryName.c_str()); return 4; }
  for (auto& p : st) { auto* r = m->getFunction(p.second); if (!r) { fprintf(stderr, "no stub %s\n", p.second.c_str()); return 4; } stubs[p.first] = r; }
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 4ull << 30); pthread_t th; if (pthread_create(&th, &at, runThread, nullptr)) { perror("thread"); return 5; } pthread_join(th, nullptr);
  fflush(nullptr); _exit(0);
}
static int cmdLink(int argc, char** argv) {
  string out; std::vector<string> in, ni;
  for (int i = 2; i < argc; i++) { string a = argv[i]; if (a == "-o") out = argv[++i]; else if (a == "--noinline") ni.push_back(argv[++i]); else in.push_back(a); }
  LLVMContext ctx; SMDiagnostic err; std::unique_ptr<Module> m;
  for (auto& f : in) { auto x = parseIRFile(f, err, ctx); if (!x) { err.print("sa", errs()); return 3; } if (!m) m = std::move(x); else if (Linker::linkModules(*m, std::move(x))) return 3; }
  for (auto& F : *m) { if (F.isDeclaration()) continue; string d = demangle(F.getName().str()); for (auto& s : ni) if (d.find(s) != string::npos) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); } }
  PipelineTuningOptions pto; pto.LoopVectorization = false; pto.SLPVectorization = false; pto.LoopUnrolling = false; pto.MergeFunctions = false;
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM; PassBuilder PB(nullptr, pto);
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  auto MPM = PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1); MPM.run(*m, MAM);
  std::error_code ec; raw_fd_ostream os(out, ec); WriteBitcodeToFile(*m, os); return 0;
}
int main(int argc, char** argv) {
  if (argc < 3) { fprintf(stderr, "usage: sa link|run ...\n"); return 2; }
  string c = argv[1]; if (c == "link") return cmdLink(argc, argv); if (c == "run") return cmdRun(argc, argv); return 2;
}
