// Value-graph domain: hash-consed, normalised value numbers over bit-vectors.
// Every abstract value computed by the analysis is a node of this graph; two program values with the same
// node are equal for every input.  No solver is involved: equality is decided by normal form, and an inequality
// is only ever reported when random interpretation of the two nodes exhibits a distinguishing valuation.
#pragma once
#include "llvm/ADT/APInt.h"
#include "llvm/ADT/ArrayRef.h"
#include "llvm/ADT/Hashing.h"
#include "llvm/ADT/SmallString.h"
#include "llvm/ADT/SmallVector.h"
#include <algorithm>
#include <array>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

using llvm::APInt;
typedef uint32_t T;
typedef llvm::SmallVector<T, 4> TV;
static const T NONE = 0xffffffffu;

enum Op : uint8_t { O_CONST, O_SYM, O_UNDEF, O_TOP, O_BASE, O_CONCAT, O_EXTRACT, O_SUM, O_MUL, O_XOR, O_AND, O_OR,
  O_ITE, O_EQ, O_ULT, O_SLT, O_UF, O_TABLE, O_UDIV, O_UREM, O_SDIV, O_SREM, O_SHL, O_LSHR, O_ASHR, O_WADD };
static const char* opName[] = {"const","sym","undef","top","base","concat","extract","sum","mul","xor","and","or",
  "ite","eq","ult","slt","uf","table","udiv","urem","sdiv","srem","shl","lshr","ashr","wadd"};

struct Node {
  Op op; bool undef = false, base = false;
  uint32_t w; uint64_t lab = 0; uint64_t aux = 0;
  APInt c; llvm::SmallVector<T, 3> k; llvm::SmallVector<uint64_t, 2> co;
  uint64_t kz = 0, lo = 0, hi = ~0ull; // only meaningful for w<=64
  Node() : op(O_CONST), w(1), c(1, 0) {}
};

static inline uint64_t mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

struct NodeStore { // chunked: references stay valid while nodes are added
  std::vector<Node*> ch; size_t sz = 0;
  Node& operator[](size_t i) const { return ch[i >> 12][i & 4095]; }
  void push_back(const Node& x) { if ((sz >> 12) == ch.size()) ch.push_back(new Node[4096]); (*this)[sz++] = x; }
  size_t size() const { return sz; }
};

struct Terms {
  NodeStore n;
  std::unordered_multimap<uint64_t, T> tab;
  bool ct = false;
  std::vector<std::string> symNames;
  std::vector<std::string> ufNames; std::map<std::string, unsigned> ufIds;
  std::vector<std::vector<uint64_t>> tables; std::map<std::vector<uint64_t>, unsigned> tableIds;
  unsigned XLIM = 8; bool bitPush = false;
  // operation cache
  struct CK { uint64_t a, b; bool operator==(const CK& o) const { return a == o.a && b == o.b; } };
  struct CH { size_t operator()(const CK& k) const { uint64_t h = k.a * 0x9E3779B97F4A7C15ull ^ (k.b + 0x7F4A7C15) * 0xff51afd7ed558ccdull; return h ^ (h >> 29); } };
  std::unordered_map<CK, T, CH> cache;
  template <class F> T memo(unsigned op, T a, T b, uint64_t x, F f) {
    CK k{((uint64_t)a << 32) | b, x * 64 + op}; auto it = cache.find(k); if (it != cache.end()) return it->second;
    T r = f(); cache.emplace(k, r); return r;
  }

  const Node& g(T t) const { return n[t]; }
  unsigned W(T t) const { return n[t].w; }
  bool isC(T t) const { return n[t].op == O_CONST; }
  bool isC(T t, uint64_t v) const { return n[t].op == O_CONST && n[t].c == v; }
  bool isZero(T t) const { return n[t].op == O_CONST && n[t].c.isZero(); }
  bool isOnes(T t) const { return n[t].op == O_CONST && n[t].c.isAllOnes(); }
  bool isTop(T t) const { return n[t].op == O_TOP; }
  uint64_t cv(T t) const { return n[t].c.getLimitedValue(); }

  uint64_t hashNode(const Node& x) const {
    uint64_t h = x.op * 0x9E3779B97F4A7C15ull + x.w;
    auto mix = [&](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; };
    mix(x.aux); mix(hash_value(x.c));
    for (T t : x.k) mix(t);
    for (uint64_t v : x.co) mix(v + 77);
    if (x.op == O_TOP || x.op == O_SYM) mix(x.lab);
    return h;
  }
  bool same(const Node& a, const Node& b) const {
    return a.op == b.op && a.w == b.w && a.aux == b.aux && a.c.getBitWidth() == b.c.getBitWidth() && a.c == b.c && a.k == b.k && a.co == b.co &&
      ((a.op != O_TOP && a.op != O_SYM) || a.lab == b.lab);
  }
  T intern(Node& x) {
    uint64_t h = hashNode(x);
    auto r = tab.equal_range(h);
    for (auto it = r.first; it != r.second; ++it) if (same(n[it->second], x)) return it->second;
    // derived attributes
    for (T t : x.k) { x.lab |= n[t].lab; x.undef |= n[t].undef; x.base |= n[t].base; }
    if (x.op == O_EQ || x.op == O_ULT || x.op == O_SLT) x.base = false;
    computeRange(x);
    T id = n.size();
    n.push_back(x);
    tab.emplace(h, id);
    return id;
  }
  void computeRange(Node& x) {
    if (x.w > 64) { x.kz = 0; x.lo = 0; x.hi = ~0ull; return; }
    uint64_t m = mask64(x.w); x.lo = 0; x.hi = m; x.kz = 0;
    switch (x.op) {
    case O_CONST: x.lo = x.hi = x.c.getZExtValue(); x.kz = ~x.lo & m; return;
    case O_BASE: x.lo = 1; return;
    case O_CONCAT: {
      uint64_t lo = 0, hi = 0, kz = 0; unsigned off = 0;
      for (T t : x.k) { const Node& s = n[t]; lo |= s.lo << off; hi |= s.hi << off; kz |= (s.kz & mask64(s.w)) << off; off += s.w; }
      x.lo = lo; x.hi = hi; x.kz = kz; break; }
    case O_EXTRACT: { const Node& s = n[x.k[0]];
      if (s.w <= 64) { x.kz = (s.kz >> x.aux) & m; if (s.hi >> x.aux <= m) { x.lo = s.lo >> x.aux; x.hi = s.hi >> x.aux; } }
      break; }
    case O_SUM: sumRange(x, nullptr, x.lo, x.hi); {
      unsigned tz = 64; auto ctz = [&](uint64_t v) { return v ? (unsigned)__builtin_ctzll(v) : 64u; };
      tz = std::min(tz, ctz(x.c.getZExtValue()));
      for (unsigned i = 0; i < x.k.size(); i++) { unsigned z = ctz(x.co[i]); uint64_t kz = n[x.k[i]].kz; unsigned a = (unsigned)__builtin_ctzll(~kz ? ~kz : 1); if (!~kz) a = 64; tz = std::min(tz, z + a); }
      if (tz) x.kz |= mask64(std::min(tz, x.w)); }
      break;
    case O_MUL: { unsigned __int128 lo = n[x.k[0]].lo, hi = n[x.k[0]].hi; for (unsigned i = 1; i < x.k.size(); i++) { lo *= n[x.k[i]].lo; hi *= n[x.k[i]].hi; if (hi > m) break; } if (hi <= m) { x.lo = lo; x.hi = hi; } break; }
    case O_AND: { uint64_t hi = m, kz = 0; for (T t : x.k) { hi = std::min(hi, n[t].hi); kz |= n[t].kz; } x.hi = hi; x.kz = kz; break; }
    case O_OR: { uint64_t kz = m, lo = 0; for (T t : x.k) { kz &= n[t].kz; lo = std::max(lo, n[t].lo); } x.kz = kz; x.lo = lo; x.hi = ~kz & m; break; }
    case O_XOR: { uint64_t kz = ~x.c.getZExtValue() & m; for (T t : x.k) kz &= n[t].kz; x.kz = kz; x.hi = ~kz & m; break; }
    case O_ITE: x.lo = std::min(n[x.k[1]].lo, n[x.k[2]].lo); x.hi = std::max(n[x.k[1]].hi, n[x.k[2]].hi); x.kz = n[x.k[1]].kz & n[x.k[2]].kz; break;
    case O_TABLE: { auto& v = tables[x.aux]; uint64_t lo = ~0ull, hi = 0, o = 0; uint64_t al = n[x.k[0]].lo, ah = n[x.k[0]].hi; for (uint64_t i = al; i <= ah && i < v.size(); i++) { lo = std::min(lo, v[i]); hi = std::max(hi, v[i]); o |= v[i]; } x.lo = lo; x.hi = hi; x.kz = ~o & m; break; }
    case O_UREM: if (n[x.k[1]].lo > 0) x.hi = std::min(n[x.k[0]].hi, n[x.k[1]].hi - 1); break;
    case O_UDIV: if (n[x.k[1]].lo > 0) { x.hi = n[x.k[0]].hi / n[x.k[1]].lo; x.lo = n[x.k[0]].lo / n[x.k[1]].hi; } break;
    default: break;
    }
    if (x.w < 64) { x.kz &= m; }
    uint64_t hm = ~x.kz & m; if (x.hi > hm) x.hi = hm;
    // leading zeros from hi
    if (x.hi < m) { uint64_t up = x.hi; up |= up >> 1; up |= up >> 2; up |= up >> 4; up |= up >> 8; up |= up >> 16; up |= up >> 32; x.kz |= ~up & m; }
  }
  // interval of a SUM; `ov` optionally gives refined operand ranges
  template <class F> bool sumRangeF(const Node& x, F rng, uint64_t& lo, uint64_t& hi) const {
    uint64_t m = mask64(x.w);
    uint64_t c0 = x.c.getZExtValue();
    for (int alt = 0; alt < 2; alt++) {
      __int128 l = c0, h = c0;
      if (alt) { l -= (__int128)m + 1; h = l; }
      bool ok = true;
      for (unsigned i = 0; i < x.k.size() && ok; i++) {
        uint64_t al, ah; rng(x.k[i], al, ah);
        uint64_t co = x.co[i] & m;
        if (co > (m >> 1)) { uint64_t nc = (m - co) + 1; l -= (__int128)nc * ah; h -= (__int128)nc * al; }
        else { l += (__int128)co * al; h += (__int128)co * ah; }
        if (h > (((__int128)1) << 100) || l < -(((__int128)1) << 100)) ok = false;
      }
      if (ok && l >= 0 && h <= (__int128)m) { lo = (uint64_t)l; hi = (uint64_t)h; return true; }
    }
    return false;
  }
  void sumRange(const Node& x, const void*, uint64_t& lo, uint64_t& hi) const {
    sumRangeF(x, [&](T t, uint64_t& a, uint64_t& b) { a = n[t].lo; b = n[t].hi; }, lo, hi);
  }

  // ---- constructors -------------------------------------------------------------------------
  T cst(const APInt& v) { Node x; x.op = O_CONST; x.w = v.getBitWidth(); x.c = v; return intern(x); }
  T cst(unsigned w, uint64_t v) { return cst(APInt(w, v)); }
  T b0() { return cst(1, 0); }
  T b1() { return cst(1, 1); }
  T sym(unsigned w, uint64_t lab, const std::string& name) {
    symNames.push_back(name);
    if (ct) return top(w, lab);
    Node x; x.op = O_SYM; x.w = w; x.lab = lab; x.aux = symNames.size() - 1; return intern(x);
  }
  T undef(unsigned w) { Node x; x.op = O_UNDEF; x.w = w; x.undef = true; return intern(x); }
  T top(unsigned w, uint64_t lab) { Node x; x.op = O_TOP; x.w = w; x.lab = lab; return intern(x); }
  T base(unsigned obj) { Node x; x.op = O_BASE; x.w = 64; x.aux = obj; x.base = true; return intern(x); }
  unsigned ufId(const std::string& s) { auto it = ufIds.find(s); if (it != ufIds.end()) return it->second; unsigned i = ufNames.size(); ufNames.push_back(s); ufIds[s] = i; return i; }

  bool collapse(std::initializer_list<T> ops) const { // CT mode: non-constant data is only a label set
    if (!ct) return false;
    for (T t : ops) if (n[t].base) return false;
    for (T t : ops) if (!isC(t) && n[t].op != O_UNDEF) return true;
    return false;
  }
  uint64_t labs(std::initializer_list<T> ops) const { uint64_t l = 0; for (T t : ops) l |= n[t].lab; return l; }

  unsigned clmulId = ~0u;
  // carry-less product of two 64-bit terms, kept bilinear: constants with few bits become shifts, sums distribute
  T clmul(T x, T y) {
    if (isZero(x) || isZero(y)) return cst(128, 0);
    if (isC(x) && isC(y)) { APInt r(128, 0), xx = n[x].c.zext(128); for (unsigned i = 0; i < 64; i++) if (n[y].c[i]) r ^= xx.shl(i); return cst(r); }
    if (ct) return top(128, n[x].lab | n[y].lab);
    if (isC(x)) std::swap(x, y);
    if (isC(y)) { APInt c = n[y].c; TV ops; for (unsigned i = 0; i < 64; i++) if (c[i]) { TV p; if (i) p.push_back(cst(i, 0)); p.push_back(x); p.push_back(cst(64 - i, 0)); ops.push_back(concat(p)); } return xorN(ops); }
    for (int s = 0; s < 2; s++) { if (n[x].op == O_XOR && n[x].k.size() <= XLIM) { auto k = n[x].k; APInt c = n[x].c; TV ops; for (T e : k) ops.push_back(clmul(e, y)); if (!c.isZero()) ops.push_back(clmul(cst(c), y)); return xorN(ops); } std::swap(x, y); }
    if (clmulId == ~0u) clmulId = ufId("clmul");
    return uf("clmul", 128, {std::min(x, y), std::max(x, y)});
  }
  T uf(const std::string& name, unsigned w, llvm::ArrayRef<T> ops) {
    uint64_t lab = 0; bool allc = true, und = false; for (T t : ops) { lab |= n[t].lab; und |= n[t].undef; }
    (void)allc;
    if (und && !ct) return undef(w);
    if (ct) return top(w, lab);
    Node x; x.op = O_UF; x.w = w; x.aux = ufId(name); x.k.append(ops.begin(), ops.end());
    return intern(x);
  }

  T extract(T t, unsigned lo, unsigned w) { if (lo == 0 && w == n[t].w) return t; return memo(1, t, w, lo, [&] { return extract_(t, lo, w); }); }
  T extract_(T t, unsigned lo, unsigned w) {
    const Node& x0 = n[t];
    if (lo == 0 && w == x0.w) return t;
    assert(lo + w <= x0.w && w > 0);
    switch (x0.op) {
    case O_CONST: return cst(x0.c.extractBits(w, lo));
    case O_UNDEF: return undef(w);
    case O_TOP: return top(w, x0.lab);
    case O_EXTRACT: return extract(x0.k[0], lo + x0.aux, w);
    case O_CONCAT: {
      auto k = x0.k; TV parts; unsigned off = 0;
      for (T s : k) { unsigned sw = n[s].w; unsigned a = std::max(off, lo), b = std::min(off + sw, lo + w);
        if (a < b) parts.push_back(extract(s, a - off, b - a)); off += sw; }
      return concat(parts); }
    case O_ITE: { T c = x0.k[0], a = x0.k[1], b = x0.k[2]; T ea = extract(a, lo, w), eb = extract(b, lo, w); return ite(c, ea, eb); }
    case O_XOR: if (x0.k.size() <= XLIM && ((lo % 8 == 0 && w % 8 == 0) || x0.w <= 8 || x0.k.size() == 1 || (bitPush && w == 1))) { auto k = x0.k; APInt c = x0.c.extractBits(w, lo); TV ops; for (T s : k) ops.push_back(extract(s, lo, w)); ops.push_back(cst(c)); return xorN(ops); } break;
    case O_AND: if (x0.k.size() <= XLIM) { auto k = x0.k; T r = NONE; for (T s : k) { T e = extract(s, lo, w); r = r == NONE ? e : band(r, e); } return r; } break;
    case O_OR: if (x0.k.size() <= XLIM) { auto k = x0.k; T r = NONE; for (T s : k) { T e = extract(s, lo, w); r = r == NONE ? e : bor(r, e); } return r; } break;
    case O_SUM: { unsigned z = x0.w; for (unsigned i = 0; i < x0.k.size(); i++) { unsigned tz = x0.co[i] ? __builtin_ctzll(x0.co[i]) : 64; const Node& y = n[x0.k[i]]; uint64_t nk = ~y.kz & mask64(y.w); tz += nk ? __builtin_ctzll(nk) : 64; z = std::min(z, tz); }
      if (lo + w <= z) return cst(x0.c.extractBits(w, lo));
      if (lo < z) { T l = cst(x0.c.extractBits(z - lo, lo)); T h = extract(t, z, lo + w - z); return concat({l, h}); } break; }
    case O_TABLE: { auto v = tables[x0.aux]; for (auto& e : v) e = (e >> lo) & mask64(w); return table(x0.k[0], v, w); }
    default: break;
    }
    if (n[t].w <= 64) { uint64_t m = mask64(w); if (((n[t].kz >> lo) & m) == m) return cst(w, 0);
      // split off known-zero high bits so that zero-extension is canonical
      uint64_t kz = (n[t].kz >> lo) & m; unsigned lz = 0; while (lz < w && (kz >> (w - 1 - lz)) & 1) lz++;
      if (lz) { T e = extract(t, lo, w - lz); T z = cst(lz, 0); return concat({e, z}); } }
    Node x; x.op = O_EXTRACT; x.w = w; x.aux = lo; x.k.push_back(t); return intern(x);
  }
  T mergeAdj(T a, T b) { return memo(8, a, b, 0, [&] { return mergeAdj_(a, b); }); }
  T mergeAdj_(T a, T b) { // a low, b high
    const Node &x = n[a], &y = n[b];
    if (x.op == O_CONST && y.op == O_CONST) { unsigned w = x.w + y.w; APInt v = x.c.zext(w) | (y.c.zext(w) << x.w); return cst(v); }
    if (x.op == O_UNDEF && y.op == O_UNDEF) return undef(x.w + y.w);
    if (x.op == O_TOP && y.op == O_TOP) return top(x.w + y.w, x.lab | y.lab);
    if (x.op == O_EXTRACT && y.op == O_EXTRACT && x.k[0] == y.k[0] && x.aux + x.w == y.aux) return extract(x.k[0], x.aux, x.w + y.w);
    if (x.op == O_ITE && y.op == O_ITE && x.k[0] == y.k[0]) {
      T c = x.k[0], a1 = x.k[1], a2 = x.k[2], b1 = y.k[1], b2 = y.k[2];
      T p = concat({a1, b1}), q = concat({a2, b2}); return ite(c, p, q); }
    if ((x.op == O_XOR || x.op == O_AND || x.op == O_OR) && x.op == y.op && x.k.size() == y.k.size() && x.k.size() <= XLIM) {
      Op op = x.op; auto xk = x.k, yk = y.k; APInt xc = x.c, yc = y.c; unsigned xw = x.w, yw = y.w;
      TV m; std::vector<bool> used(yk.size(), false);
      for (T s : xk) { bool ok = false;
        for (unsigned j = 0; j < yk.size(); j++) if (!used[j]) { T r = cheapAdj(s, yk[j]); if (r != NONE) { used[j] = true; m.push_back(r); ok = true; break; } }
        if (!ok) return NONE; }
      if (op == O_XOR) { m.push_back(cst(xc.zext(xw + yw) | (yc.zext(xw + yw) << xw))); return xorN(m); }
      T r = m[0]; for (unsigned i = 1; i < m.size(); i++) r = op == O_AND ? band(r, m[i]) : bor(r, m[i]);
      return r;
    }
    return NONE;
  }
  // adjacency that is certain to merge into a single atom-or-constant (used for operand matching)
  T cheapAdj(T a, T b) {
    const Node &x = n[a], &y = n[b];
    if (x.op == O_EXTRACT && y.op == O_EXTRACT && x.k[0] == y.k[0] && x.aux + x.w == y.aux) return extract(x.k[0], x.aux, x.w + y.w);
    if (x.op == O_ITE && y.op == O_ITE && x.k[0] == y.k[0]) return mergeAdj(a, b);
    if (x.op == y.op && (x.op == O_AND || x.op == O_OR || x.op == O_XOR)) return mergeAdj(a, b);
    if (x.op == O_SYM && y.op == O_SYM && y.aux == x.aux + 1) return concat({a, b});
    if (x.op == O_CONCAT || y.op == O_CONCAT) { T la = x.op == O_CONCAT ? x.k.back() : a, fb = y.op == O_CONCAT ? y.k[0] : b; if (cheapAdj(la, fb) != NONE) return concat({a, b}); }
    if (x.op == O_CONST && y.op == O_CONST) return concat({a, b});
    return NONE;
  }
  T concat(std::initializer_list<T> l) { TV v(l.begin(), l.end()); return concat(v); }
  T concat(TV in) {
    TV flat;
    for (T t : in) { if (n[t].op == O_CONCAT) { auto k = n[t].k; flat.append(k.begin(), k.end()); } else flat.push_back(t); }
    TV st;
    for (T t : flat) {
      T cur = t;
      while (!st.empty()) { T r = mergeAdj(st.back(), cur); if (r == NONE) break;
        st.pop_back();
        if (n[r].op == O_CONCAT) { auto k = n[r].k; for (unsigned i = 0; i + 1 < k.size(); i++) st.push_back(k[i]); cur = k.back(); break; }
        cur = r; }
      st.push_back(cur);
    }
    if (st.size() == 1) return st[0];
    Node x; x.op = O_CONCAT; x.w = 0; x.k.append(st.begin(), st.end()); for (T t : st) x.w += n[t].w;
    return intern(x);
  }
  T zext(T t, unsigned w) { if (W(t) == w) return t; return concat({t, cst(w - W(t), 0)}); }
  T trunc(T t, unsigned w) { return extract(t, 0, w); }
  T sext(T t, unsigned w) {
    unsigned tw = W(t); if (tw == w) return t;
    if (isC(t)) return cst(n[t].c.sext(w));
    if (n[t].op == O_TOP) return top(w, n[t].lab);
    T msb = extract(t, tw - 1, 1);
    if (tw == 1) return ite(t, cst(APInt::getAllOnes(w)), cst(w, 0));
    return concat({t, ite(msb, cst(APInt::getAllOnes(w - tw)), cst(w - tw, 0))});
  }

  // ---- bitwise -------------------------------------------------------------------------------
  void cuts(T t, std::vector<unsigned>& out, bool runs) {
    const Node& x = n[t];
    if (x.op == O_CONCAT) { unsigned off = 0; bool prev = false; bool first = true;
      for (T s : x.k) { bool c = n[s].op == O_CONST || n[s].op == O_UNDEF; if (!first && (c || prev)) out.push_back(off); prev = c; first = false;
        if (runs && n[s].op == O_CONST) runCuts(n[s].c, off, out);
        off += n[s].w; } }
    else if (x.op == O_CONST && runs) runCuts(x.c, 0, out);
  }
  static void runCuts(const APInt& c, unsigned off, std::vector<unsigned>& out) {
    unsigned w = c.getBitWidth(); if (c.isZero() || c.isAllOnes()) return;
    for (unsigned i = 1; i < w; i++) if (c[i] != c[i - 1]) out.push_back(off + i);
  }
  template <class F> T pieces(T a, T b, bool runs, F f) {
    unsigned w = W(a); std::vector<unsigned> cs; cuts(a, cs, runs); cuts(b, cs, runs); cs.push_back(0); cs.push_back(w);
    std::sort(cs.begin(), cs.end()); cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
    if (cs.size() == 2) return f(a, b);
    TV parts; for (unsigned i = 0; i + 1 < cs.size(); i++) parts.push_back(f(extract(a, cs[i], cs[i + 1] - cs[i]), extract(b, cs[i], cs[i + 1] - cs[i])));
    return concat(parts);
  }
  T bxor(T a, T b) { if (a > b) std::swap(a, b); return memo(2, a, b, 0, [&] { return bxor_(a, b); }); }
  T bxor_(T a, T b) {
    if (isC(a) && isC(b)) return cst(n[a].c ^ n[b].c);
    if (isZero(a)) return b; if (isZero(b)) return a;
    return pieces(a, b, false, [&](T x, T y) -> T {
      if (isC(x) && isC(y)) return cst(n[x].c ^ n[y].c);
      if (isZero(x)) return y; if (isZero(y)) return x;
      if (n[x].op == O_UNDEF || n[y].op == O_UNDEF) return undef(W(x));
      if (collapse({x, y})) return top(W(x), labs({x, y}));
      return xorN({x, y}); });
  }
  T bnot(T a) { return bxor(a, cst(APInt::getAllOnes(W(a)))); }
  T xorN(TV ops) {
    unsigned w = W(ops[0]);
    APInt c(w, 0); std::map<T, unsigned> cnt; bool needPieces = false; uint64_t lab = 0;
    unsigned total = 0; for (T t : ops) { total += n[t].op == O_XOR ? n[t].k.size() : 1; lab |= n[t].lab; if (n[t].op == O_UNDEF) return undef(w); }
    bool flat = w == 1; (void)total;
    for (T t : ops) {
      const Node& x = n[t];
      if (x.op == O_CONST) c ^= x.c;
      else if (x.op == O_XOR && (flat || x.k.size() <= XLIM)) { c ^= x.c; for (T s : x.k) cnt[s] ^= 1; }
      else cnt[t] ^= 1;
    }
    (void)needPieces; (void)lab;
    TV ks; for (auto& p : cnt) if (p.second) ks.push_back(p.first);
    if (ks.empty()) return cst(c);
    if (ks.size() == 1 && c.isZero()) return ks[0];
    if (w == 1) { // boolean ite/const folding
    }
    // lift a single shared ITE condition:  x ^ ite(c,p,q) with x not an ITE
    T cond = NONE; bool multi = false; unsigned nite = 0;
    for (T t : ks) if (n[t].op == O_ITE) { nite++; if (cond == NONE) cond = n[t].k[0]; else if (cond != n[t].k[0]) multi = true; }
    if (nite && !multi && w > 1 && ks.size() <= 6) {
      TV a, b; for (T t : ks) { if (n[t].op == O_ITE) { a.push_back(n[t].k[1]); b.push_back(n[t].k[2]); } else { a.push_back(t); b.push_back(t); } }
      a.push_back(cst(c)); b.push_back(cst(c));
      T p = a[0], q = b[0]; for (unsigned i = 1; i < a.size(); i++) { p = bxor(p, a[i]); q = bxor(q, b[i]); }
      return ite(cond, p, q);
    }
    if (ks.size() == 1 && w <= 64 && n[ks[0]].op == O_TABLE) { auto v = tables[n[ks[0]].aux]; for (auto& e : v) e ^= c.getZExtValue(); return table(n[ks[0]].k[0], v, w); }
    Node x; x.op = O_XOR; x.w = w; x.c = c; x.k.append(ks.begin(), ks.end());
    return intern(x);
  }
  bool compl_(T a, T b) { // a == ~b
    const Node &x = n[a], &y = n[b];
    if (x.op == O_XOR && x.c.isAllOnes() && x.k.size() == 1 && x.k[0] == b) return true;
    if (y.op == O_XOR && y.c.isAllOnes() && y.k.size() == 1 && y.k[0] == a) return true;
    if (x.op == O_XOR && y.op == O_XOR && x.k == y.k && (x.c ^ y.c).isAllOnes()) return true;
    return false;
  }
  T band(T a, T b) { return andor(a, b, O_AND); }
  T bor(T a, T b) { return andor(a, b, O_OR); }
  T andor(T a, T b, Op op) { if (a > b) std::swap(a, b); return memo(3, a, b, op, [&] { return andor_(a, b, op); }); }
  T andor_(T a, T b, Op op) {
    if (a == b && !isTop(a)) return a;
    return pieces(a, b, true, [&](T x, T y) -> T {
      unsigned w = W(x);
      if (isC(x) && isC(y)) return cst(op == O_AND ? n[x].c & n[y].c : n[x].c | n[y].c);
      if (isC(x)) std::swap(x, y);
      if (isC(y)) { bool z = n[y].c.isZero(), o = n[y].c.isAllOnes();
        if (op == O_AND) { if (z) return y; if (o) return x; } else { if (z) return x; if (o) return y; } }
      if (n[x].op == O_UNDEF || n[y].op == O_UNDEF) return undef(w);
      if (collapse({x, y})) return top(w, labs({x, y}));
      if (x == y) return x;
      // flatten
      TV ks; auto addk = [&](T t) { if (n[t].op == op && (w == 1 || n[t].k.size() <= XLIM)) { auto k = n[t].k; ks.append(k.begin(), k.end()); } else ks.push_back(t); };
      addk(x); addk(y);
      std::sort(ks.begin(), ks.end()); ks.erase(std::unique(ks.begin(), ks.end()), ks.end());
      if (ks.size() == 1) return ks[0];
      // complement / absorption
      if (ks.size() <= 64 || w == 1) {
        std::unordered_set<T> set(ks.begin(), ks.end());
        for (T t : ks) { const Node& q = n[t];
          if (q.op == O_XOR && q.k.size() == 1 && q.c.isAllOnes() && set.count(q.k[0])) return op == O_AND ? cst(w, 0) : cst(APInt::getAllOnes(w));
        }
        if (w == 1) { // x & (x | y) = x
          Op dual = op == O_AND ? O_OR : O_AND; TV keep;
          for (T t : ks) { bool absorbed = false;
            if (n[t].op == dual) for (T s : n[t].k) if (set.count(s)) { absorbed = true; break; }
            if (n[t].op == O_XOR && n[t].k.size() == 1 && n[t].c.isAllOnes() && n[n[t].k[0]].op == op) { /* !(a op b) with a in set: De Morgan absorption a & !(a&b) = a & !b */ }
            if (!absorbed) keep.push_back(t); }
          ks = keep; if (ks.size() == 1) return ks[0];
          // unit propagation into dual clauses: x & (!x | y) = x & y
          bool ch = false; TV out;
          for (T t : ks) if (n[t].op == dual) { TV kk; bool drop = false; auto tk = n[t].k;
              for (T s : tk) { bool rm = false; for (T u : ks) if (u != t && compl_(u, s)) { rm = true; break; } if (!rm) kk.push_back(s); else drop = true; }
              if (drop) { ch = true; T r; if (kk.empty()) r = dual == O_OR ? b0() : b1(); else { r = kk[0]; for (unsigned i = 1; i < kk.size(); i++) r = andor(r, kk[i], dual); } out.push_back(r); } else out.push_back(t); }
            else out.push_back(t);
          if (ch) { T r = out[0]; for (unsigned i = 1; i < out.size(); i++) r = andor(r, out[i], op); return r; }
        }
      }
      // ITE with constant/zero arms as a mask
      if (op == O_AND && ks.size() == 2 && w > 1) for (int i = 0; i < 2; i++) { const Node& q = n[ks[i]]; if (q.op == O_ITE && (isZero(q.k[1]) || isZero(q.k[2]) || (isC(q.k[1]) && isC(q.k[2])))) {
        T c = q.k[0], p1 = q.k[1], p2 = q.k[2], o = ks[1 - i]; T r1 = band(p1, o), r2 = band(p2, o); return ite(c, r1, r2); } }
      if (op == O_OR && ks.size() == 2 && w > 1) { const Node &p = n[ks[0]], &q = n[ks[1]];
        if (p.op == O_ITE && q.op == O_ITE && p.k[0] == q.k[0]) { T c = p.k[0], a1 = p.k[1], a2 = p.k[2], b1_ = q.k[1], b2 = q.k[2]; T r1 = bor(a1, b1_), r2 = bor(a2, b2); return ite(c, r1, r2); } }
      Node z; z.op = op; z.w = w; z.k.append(ks.begin(), ks.end()); return intern(z);
    });
  }

  T ite(T c, T a, T b) {
    if (a == b && !isTop(a)) return a;
    if (isC(c)) return n[c].c.isZero() ? b : a;
    if (n[c].op == O_XOR && n[c].k.size() == 1 && n[c].c == 1) return ite(n[c].k[0], b, a);
    unsigned w = W(a);
    if (n[c].op == O_UNDEF) return undef(w);
    if (ct) {
      if (!n[a].base && !n[b].base) {
        if (n[a].op == O_UNDEF && n[b].op == O_UNDEF) return undef(w);
        if (n[a].op == O_CONCAT || n[b].op == O_CONCAT) { std::vector<unsigned> cs; cuts(a, cs, false); cuts(b, cs, false); if (!cs.empty()) return pieces(a, b, false, [&](T x, T y) { return ite(c, x, y); }); }
        return top(w, labs({c, a, b}));
      }
    }
    if (n[a].op == O_ITE && n[a].k[0] == c) a = n[a].k[1];
    if (n[b].op == O_ITE && n[b].k[0] == c) b = n[b].k[2];
    if (a == b && !isTop(a)) return a;
    if (w == 1) {
      if (isC(a, 1) && isC(b, 0)) return c;
      if (isC(a, 0) && isC(b, 1)) return bnot(c);
      if (isC(b, 0)) return band(c, a);
      if (isC(b, 1)) return bor(bnot(c), a);
      if (isC(a, 1)) return bor(c, b);
      if (isC(a, 0)) return band(bnot(c), b);
      if (a == c) return bor(c, b);
      if (b == c) return band(c, a);
    }
    // common constant/identical segments are split off
    if (!n[a].base && !n[b].base && (n[a].op == O_CONCAT || n[b].op == O_CONCAT) && w > 1) {
      std::vector<unsigned> cs; allCuts(a, cs); allCuts(b, cs); cs.push_back(0); cs.push_back(w); std::sort(cs.begin(), cs.end()); cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
      bool anySame = false; TV pa, pb; for (unsigned i = 0; i + 1 < cs.size(); i++) { pa.push_back(extract(a, cs[i], cs[i + 1] - cs[i])); pb.push_back(extract(b, cs[i], cs[i + 1] - cs[i])); if (pa.back() == pb.back()) anySame = true; }
      if (anySame) { TV parts; unsigned i = 0; while (i < pa.size()) { if (pa[i] == pb[i]) { parts.push_back(pa[i]); i++; continue; }
          TV xa, xb; while (i < pa.size() && pa[i] != pb[i]) { xa.push_back(pa[i]); xb.push_back(pb[i]); i++; }
          parts.push_back(ite(c, concat(xa), concat(xb))); }
        return concat(parts); }
    }
    Node x; x.op = O_ITE; x.w = w; x.k.push_back(c); x.k.push_back(a); x.k.push_back(b); return intern(x);
  }
  void allCuts(T t, std::vector<unsigned>& out) { const Node& x = n[t]; if (x.op != O_CONCAT) return; unsigned off = 0; for (T s : x.k) { if (off) out.push_back(off); off += n[s].w; } }

  // ---- arithmetic ----------------------------------------------------------------------------
  void sumTerms(T t, uint64_t f, APInt& c, std::map<T, uint64_t>& m) {
    const Node& x = n[t]; unsigned w = x.w; uint64_t mk = mask64(w);
    switch (x.op) {
    case O_CONST: c += APInt(w, x.c.getZExtValue() * f & mk); return;
    case O_SUM: { auto k = x.k; auto co = x.co; c += APInt(w, (x.c.getZExtValue() * f) & mk); for (unsigned i = 0; i < k.size(); i++) m[k[i]] = (m[k[i]] + co[i] * f) & mk; return; }
    case O_CONCAT: { auto k = x.k; unsigned off = 0;
      for (unsigned i = 0; i < k.size(); i++) { T s = k[i]; unsigned sw = W(s); uint64_t ff = (f << off) & mk;
        if (isC(s)) { c += APInt(w, (n[s].c.getZExtValue() * ff) & mk); }
        else if (i + 1 == k.size() && n[s].op == O_EXTRACT && n[s].aux == 0 && W(n[s].k[0]) == w) { T at = n[s].k[0]; if (n[at].op == O_SUM) sumTerms(at, ff, c, m); else m[at] = (m[at] + ff) & mk; }
        else if (n[s].op == O_SUM && !n[s].base && narrowExact(s, w, ff, c, m)) {}
        else if (sw == 1 && w > 1 && n[s].op == O_XOR && n[s].k.size() == 1 && n[s].c.isOne()) { T z = zext(n[s].k[0], w); c += APInt(w, ff); m[z] = (m[z] - ff) & mk; } // not b = 1 - b
        else { T z = zext(s, w); m[z] = (m[z] + ff) & mk; }
        off += sw; }
      return; }
    case O_ITE: if (isC(x.k[1]) && isC(x.k[2])) { uint64_t k1 = n[x.k[1]].c.getZExtValue(), k0 = n[x.k[2]].c.getZExtValue(); c += APInt(w, (k0 * f) & mk); T z = zext(x.k[0], w); m[z] = (m[z] + (k1 - k0) * f) & mk; return; } break;
    case O_XOR: if (x.k.size() == 1 && x.c.isAllOnes()) { T a = x.k[0]; c -= APInt(w, f & mk); sumTerms(a, (0 - f) & mk, c, m); return; } break;
    default: break;
    }
    m[t] = (m[t] + f) & mk;
  }
  // a narrower sum that cannot wrap (by the intervals of its terms) is the same sum over the wider terms
  bool narrowExact(T s, unsigned w, uint64_t ff, APInt& c, std::map<T, uint64_t>& m) {
    unsigned sw = W(s); if (sw >= w || w > 64) return false;
    uint64_t sm = mask64(sw), mk = mask64(w), c0 = n[s].c.getZExtValue();
    for (int alt = 0; alt < 2; alt++) {
      __int128 lo = c0, hi; if (alt) lo -= (__int128)sm + 1; hi = lo;
      for (unsigned i = 0; i < n[s].k.size(); i++) { uint64_t co = n[s].co[i] & sm, al = n[n[s].k[i]].lo, ah = n[n[s].k[i]].hi; if (co > sm >> 1) { uint64_t nc = sm - co + 1; lo -= (__int128)nc * ah; hi -= (__int128)nc * al; } else { lo += (__int128)co * al; hi += (__int128)co * ah; } }
      if (lo < 0 || hi > (__int128)sm) continue;
      auto k = n[s].k; auto co = n[s].co;
      c += APInt(w, ((alt ? c0 - sm - 1 : c0) * ff) & mk);
      for (unsigned i = 0; i < k.size(); i++) { uint64_t q = co[i] & sm; if (q > sm >> 1) q = 0 - (sm - q + 1); T z = zext(k[i], w); m[z] = (m[z] + q * ff) & mk; }
      return true; }
    return false;
  }
  T sumBuild(unsigned w, APInt c, std::map<T, uint64_t>& m) {
    TV k; llvm::SmallVector<uint64_t, 4> co;
    for (auto& p : m) if (p.second) { k.push_back(p.first); co.push_back(p.second); }
    if (k.empty()) return cst(c);
    bool und = false; for (T t : k) und |= n[t].op == O_UNDEF || (n[t].undef && n[t].op == O_CONCAT);
    if (und) return undef(w);
    if (ct) { bool base = false; uint64_t lab = 0; for (T t : k) { base |= n[t].base; lab |= n[t].lab; } if (!base) return top(w, lab); }
    uint64_t mk = mask64(w);
    if (k.size() == 1 && co[0] == 1 && c.isZero()) return k[0];
    if (k.size() == 1 && co[0] == mk && c.isAllOnes()) return bnot(k[0]);
    if (k.size() == 1 && n[k[0]].op == O_CONCAT && W(n[k[0]].k[0]) == 1 && isC(n[k[0]].k[1]) && n[k[0]].k.size() == 2) {
      T b = n[k[0]].k[0]; return ite(b, cst(w, (c.getZExtValue() + co[0]) & mk), cst(c)); }
    // disjoint composition
    bool baseAny = false; for (T t : k) baseAny |= n[t].base;
    if (!baseAny) {
      uint64_t used = c.getZExtValue(); bool ok = true;
      for (unsigned i = 0; i < k.size() && ok; i++) {
        uint64_t f = co[i]; if (f & (f - 1)) { ok = false; break; }
        uint64_t bits = (~n[k[i]].kz & mk); unsigned sh = __builtin_ctzll(f);
        uint64_t sm = (bits << sh) & mk;
        if (used & sm) ok = false; used |= sm;
      }
      if (ok) { T r = cst(c); for (unsigned i = 0; i < k.size(); i++) r = bor(r, shlC(k[i], __builtin_ctzll(co[i]))); return r; }
    }
    // unify ITE conditions when every term shares one (keeps selects outermost)
    Node x; x.op = O_SUM; x.w = w; x.c = c; x.k.append(k.begin(), k.end()); x.co.append(co.begin(), co.end()); return intern(x);
  }
  T add(T a, T b, uint64_t fb = 1) { return memo(4, a, b, fb == 1 ? 0 : 1, [&] { return add_(a, b, fb); }); }
  T add_(T a, T b, uint64_t fb) { // a + fb*b
    unsigned w = W(a);
    if (isC(a) && isC(b)) return cst(n[a].c + n[b].c * APInt(w, fb, true));
    if (n[a].op == O_UNDEF || n[b].op == O_UNDEF) return undef(w);
    if (isZero(b)) return a;
    if (w > 64) { if (fb != 1) { b = bnot(b); b = add(b, cst(w, 1)); }
      if (isZero(a)) return b; if (isZero(b)) return a;
      if (collapse({a, b})) return top(w, labs({a, b}));
      Node x; x.op = O_WADD; x.w = w; x.k.push_back(std::min(a, b)); x.k.push_back(std::max(a, b)); return intern(x); }
    if (w == 1) return bxor(a, b);
    APInt c(w, 0); std::map<T, uint64_t> m; sumTerms(a, 1, c, m); sumTerms(b, fb & mask64(w), c, m);
    return sumBuild(w, c, m);
  }
  T sub(T a, T b) { return add(a, b, ~0ull); }
  T shlC(T a, unsigned k) { unsigned w = W(a); if (!k) return a; if (k >= w) return cst(w, 0); return concat({cst(k, 0), extract(a, 0, w - k)}); }
  T lshrC(T a, unsigned k) { unsigned w = W(a); if (!k) return a; if (k >= w) return cst(w, 0); return concat({extract(a, k, w - k), cst(k, 0)}); }
  bool boolZext(T t, T& b) { const Node& x = n[t]; if (x.op == O_CONCAT && x.k.size() == 2 && W(x.k[0]) == 1 && isZero(x.k[1])) { b = x.k[0]; return true; } return false; }
  T mul(T a, T b) { return memo(5, a, b, 0, [&] { return mul_(a, b); }); }
  T mul_(T a, T b) {
    unsigned w = W(a);
    if (isC(a)) std::swap(a, b);
    if (isC(a)) return cst(n[a].c * n[b].c);
    if (n[a].op == O_UNDEF || n[b].op == O_UNDEF) return undef(w);
    if (isZero(b)) return b; if (isC(b, 1)) return a;
    if (w == 1) return band(a, b);
    if (isC(b) && w <= 64) { APInt c(w, 0); std::map<T, uint64_t> m; sumTerms(a, n[b].c.getZExtValue(), c, m); return sumBuild(w, c, m); }
    if (collapse({a, b})) return top(w, labs({a, b}));
    T bb; if (boolZext(a, bb)) return ite(bb, b, cst(w, 0)); if (boolZext(b, bb)) return ite(bb, a, cst(w, 0));
    if (n[a].op == O_ITE && (isZero(n[a].k[1]) || isZero(n[a].k[2]))) { T c = n[a].k[0], p = n[a].k[1], q = n[a].k[2]; T r1 = mul(p, b), r2 = mul(q, b); return ite(c, r1, r2); }
    if (n[b].op == O_ITE && (isZero(n[b].k[1]) || isZero(n[b].k[2]))) { T c = n[b].k[0], p = n[b].k[1], q = n[b].k[2]; T r1 = mul(a, p), r2 = mul(a, q); return ite(c, r1, r2); }
    Node x; x.op = O_MUL; x.w = w; x.k.push_back(std::min(a, b)); x.k.push_back(std::max(a, b)); return intern(x);
  }
  T shift(T a, T s, Op op) {
    unsigned w = W(a);
    if (isC(s)) { uint64_t k = cv(s); if (k >= w) return undef(w); if (op == O_SHL) return shlC(a, k); if (op == O_LSHR) return lshrC(a, k); if (!k) return a; return sext(extract(a, k, w - k), w); }
    if (n[a].op == O_UNDEF || n[s].op == O_UNDEF) return undef(w);
    if (collapse({a, s})) return top(w, labs({a, s}));
    // few possible amounts: expand
    if (n[s].op == O_ITE && isC(n[s].k[1]) && isC(n[s].k[2])) { T c = n[s].k[0], p = n[s].k[1], q = n[s].k[2]; T r1 = shift(a, p, op), r2 = shift(a, q, op); return ite(c, r1, r2); }
    T sc; unsigned off; if (w <= 64 && isC(a) && core(s, sc, off)) { unsigned cw = W(sc); if (cw <= 8) { std::vector<uint64_t> v; bool ok = true; for (uint64_t i = 0; i < (1ull << cw); i++) { APInt sv = evalCore(s, sc, i); uint64_t k = sv.getLimitedValue(); if (k >= w) { k = w; ok = ok; } APInt r = k >= w ? APInt(w, 0) : op == O_SHL ? n[a].c.shl(k) : op == O_LSHR ? n[a].c.lshr(k) : n[a].c.ashr(k); v.push_back(r.getZExtValue()); } return table(sc, v, w); } }
    Node x; x.op = op; x.w = w; x.k.push_back(a); x.k.push_back(s); return intern(x);
  }
  T divrem(T a, T b, Op op) {
    unsigned w = W(a);
    if (isC(a) && isC(b) && !isZero(b)) { const APInt &x = n[a].c, &y = n[b].c; return cst(op == O_UDIV ? x.udiv(y) : op == O_UREM ? x.urem(y) : op == O_SDIV ? x.sdiv(y) : x.srem(y)); }
    if (n[a].op == O_UNDEF || n[b].op == O_UNDEF) return undef(w);
    if (isC(b) && (op == O_UDIV || op == O_UREM) && n[b].c.isPowerOf2()) { unsigned k = n[b].c.logBase2(); if (op == O_UDIV) return lshrC(a, k); if (!k) return cst(w, 0); return zext(extract(a, 0, k), w); }
    if (collapse({a, b})) return top(w, labs({a, b}));
    if (w <= 64) {
      if (op == O_UREM && n[a].hi < n[b].lo) return a;
      if (op == O_UDIV && n[a].hi < n[b].lo) return cst(w, 0);
      if ((op == O_SDIV || op == O_SREM) && n[a].hi <= (mask64(w) >> 1) && n[b].hi <= (mask64(w) >> 1)) return divrem(a, b, op == O_SDIV ? O_UDIV : O_UREM);
    }
    Node x; x.op = op; x.w = w; x.k.push_back(a); x.k.push_back(b); return intern(x);
  }

  // ---- finite functions ----------------------------------------------------------------------
  T table(T arg, std::vector<uint64_t> v, unsigned w) {
    unsigned aw = W(arg);
    // compose with inner table
    if (n[arg].op == O_TABLE) { auto iv = tables[n[arg].aux]; T ia = n[arg].k[0]; std::vector<uint64_t> r; for (auto e : iv) r.push_back(e < v.size() ? v[e] : 0); return table(ia, r, w); }
    bool c = true, id = true; uint64_t lo = n[arg].lo, hi = std::min<uint64_t>(n[arg].hi, v.size() - 1);
    for (uint64_t i = lo; i <= hi; i++) { if (v[i] != v[lo]) c = false; if (v[i] != i) id = false; }
    if (c) return cst(w, v[lo]);
    if (id && w >= aw) return zext(arg, w);
    if (id) return extract(arg, 0, w);
    if (ct) return top(w, n[arg].lab);
    if (n[arg].op == O_UNDEF) return undef(w);
    if (n[arg].op == O_ITE && (isC(n[arg].k[1]) || isC(n[arg].k[2]))) { T c0 = n[arg].k[0], a = n[arg].k[1], b = n[arg].k[2]; T ta = table(a, v, w), tb = table(b, v, w); return ite(c0, ta, tb); }
    auto it = tableIds.find(v); unsigned tid; if (it == tableIds.end()) { tid = tables.size(); tables.push_back(v); tableIds[v] = tid; } else tid = it->second;
    Node x; x.op = O_TABLE; x.w = w; x.aux = tid; x.k.push_back(arg); return intern(x);
  }
  // the single non-constant piece (<=8 bits) of a term built from it by zero-extension, scaling, constants
  void span(T t, unsigned& lo, unsigned& hi) { unsigned o = 0; bool f = false; for (T s : n[t].k) { if (n[s].op != O_CONST) { if (!f) lo = o; f = true; hi = o + n[s].w; } o += n[s].w; } }
  bool core(T t, T& c, unsigned& off) {
    const Node& x = n[t];
    if (x.op == O_CONST) return false;
    if (x.op == O_CONCAT) { T r = NONE; unsigned o = 0; for (T s : x.k) { if (n[s].op != O_CONST) { if (r != NONE) { unsigned lo, hi; span(t, lo, hi); if (hi - lo > 8) return false; c = extract(t, lo, hi - lo); off = lo; return n[c].op == O_CONCAT; } r = s; off = o; } o += n[s].w; } if (r == NONE) return false; c = r; T c2; unsigned o2; if (n[r].w <= 8) return true; if (core(r, c2, o2)) { c = c2; return true; } return false; }
    if (x.op == O_SUM && x.k.size() == 1) return core(x.k[0], c, off);
    if (x.w <= 8) { c = t; off = 0; return true; }
    if (x.op == O_EXTRACT && n[x.k[0]].w <= 8) { c = x.k[0]; return true; }
    if (x.op == O_XOR && x.k.size() == 1) return core(x.k[0], c, off);
    if (x.op == O_TABLE) { c = x.k[0]; return true; }
    return false;
  }
  APInt evalCore(T t, T c, uint64_t v) {
    if (t == c) return APInt(W(t), v);
    const Node& x = n[t];
    switch (x.op) {
    case O_CONST: return x.c;
    case O_CONCAT: { APInt r(x.w, 0); unsigned off = 0; if (n[c].op == O_CONCAT && n[c].w < x.w) { unsigned lo, hi; span(t, lo, hi); if (hi - lo == n[c].w) { for (T s : x.k) { if (n[s].op == O_CONST) r |= n[s].c.zext(x.w).shl(off); off += n[s].w; } return r | APInt(x.w, v).shl(lo); } }
      for (T s : x.k) { r |= evalCore(s, c, v).zext(x.w).shl(off); off += n[s].w; } return r; }
    case O_SUM: { APInt r = x.c; for (unsigned i = 0; i < x.k.size(); i++) r += evalCore(x.k[i], c, v) * APInt(x.w, x.co[i]); return r; }
    case O_EXTRACT: return evalCore(x.k[0], c, v).extractBits(x.w, x.aux);
    case O_XOR: { APInt r = x.c; for (T s : x.k) r ^= evalCore(s, c, v); return r; }
    case O_TABLE: { uint64_t i = evalCore(x.k[0], c, v).getZExtValue(); auto& tb = tables[x.aux]; return APInt(x.w, i < tb.size() ? tb[i] : 0); }
    default: return APInt(x.w, 0);
    }
  }

  // ---- comparisons ---------------------------------------------------------------------------
  T eq(T a, T b) { return memo(6, a, b, 0, [&] { return eq_(a, b); }); }
  T eq_(T a, T b) {
    unsigned w = W(a);
    if (isC(a) && isC(b)) return cst(1, n[a].c == n[b].c);
    if (a == b && !isTop(a)) return b1();
    if (n[a].op == O_UNDEF || n[b].op == O_UNDEF) return undef(1);
    if (collapse({a, b})) { // labels only, but constants that differ are decidable
      if (n[a].op == O_CONCAT || n[b].op == O_CONCAT) { T r = eqPieces(a, b); if (isC(r)) return r; }
      return top(1, labs({a, b})); }
    if (w == 1) return bnot(bxor(a, b));
    if (!isC(a) && !isC(b) && (n[a].op == O_XOR || n[b].op == O_XOR)) { T r = bxor(a, b); if (isC(r)) return cst(1, n[r].c.isZero()); if (n[r].op != O_XOR) return eq(r, cst(w, 0)); }
    if (isC(a)) std::swap(a, b);
    if (w <= 64) {
      if (n[a].hi < n[b].lo || n[b].hi < n[a].lo) return b0();
      if (isC(b) && (n[a].kz & n[b].c.getZExtValue())) return b0();
    }
    if (n[a].base || n[b].base) return ptrEq(a, b);
    // the sign part of a sum is all zeros or all ones
    if (isC(b) && n[a].op == O_EXTRACT && n[n[a].k[0]].op == O_SUM && n[a].aux > 0) { T s = n[a].k[0]; unsigned k = signedBits(s), lo = n[a].aux;
      if (k <= lo) { if (isZero(b)) return bnot(extract(s, k, 1)); if (isOnes(b)) return extract(s, k, 1); return b0(); } }
    const Node &x = n[a], &y = n[b];
    if (x.op == O_ITE && y.op == O_CONST && isC(x.k[1]) && isC(x.k[2])) { T c = x.k[0]; bool e1 = n[x.k[1]].c == y.c, e2 = n[x.k[2]].c == y.c; return ite(c, cst(1, e1), cst(1, e2)); }
    if (x.op == O_ITE && y.op == O_CONST) { T c = x.k[0], p = x.k[1], q = x.k[2]; T e1 = eq(p, b), e2 = eq(q, b); return ite(c, e1, e2); }
    if (x.op == O_ITE && y.op == O_ITE && x.k[0] == y.k[0]) { T c = x.k[0], p = x.k[1], q = x.k[2], r = y.k[1], s = y.k[2]; T e1 = eq(p, r), e2 = eq(q, s); return ite(c, e1, e2); }
    if (x.op == O_TABLE && y.op == O_CONST) { auto v = tables[x.aux]; uint64_t cvv = y.c.getZExtValue(); for (auto& e : v) e = e == cvv; return table(x.k[0], v, 1); }
    if (x.op == O_OR && isZero(b)) { auto k = x.k; T r = b1(); for (T s : k) r = band(r, eq(s, cst(w, 0))); return r; }
    if (x.op == O_XOR && y.op == O_CONST) { if (x.k.size() == 1) return eq(x.k[0], cst(x.c ^ y.c));
      if (x.k.size() == 2) { T p = x.k[0], q = x.k[1]; APInt cc = x.c ^ y.c; return eq(p, bxor(q, cst(cc))); } }
    if (x.op == O_XOR || y.op == O_XOR) { T d = bxor(a, b); if (isC(d)) return cst(1, n[d].c.isZero()); if (n[d].op == O_CONCAT) return eqPieces(d, cst(w, 0)); if (n[d].op == O_XOR && n[d].k.size() <= 1) return eq(d, cst(w, 0)); }
    if (x.op == O_CONCAT || y.op == O_CONCAT) return eqPieces(a, b);
    if (w <= 64 && (x.op == O_SUM || y.op == O_SUM)) {
      APInt c(w, 0); std::map<T, uint64_t> m; sumTerms(a, 1, c, m); sumTerms(b, mask64(w), c, m);
      std::vector<std::pair<T, uint64_t>> ts; for (auto& p : m) if (p.second) ts.push_back(p);
      if (ts.empty()) return cst(1, c.isZero());
      if (ts.size() == 1 && (ts[0].second == 1 || ts[0].second == mask64(w))) { APInt v = ts[0].second == 1 ? -c : c; T t = ts[0].first; if (t != a || n[b].op != O_CONST) return eq(t, cst(v)); }
      else {
        if (ts[0].second > (mask64(w) >> 1)) { for (auto& p : m) p.second = (0 - p.second) & mask64(w); c = -c; }
        T s = sumBuild(w, APInt(w, 0), m); T r = cst(-c);
        if (n[s].op == O_SUM) { Node z; z.op = O_EQ; z.w = 1; z.k.push_back(s); z.k.push_back(r); return intern(z); }
        if (s != a) return eq(s, r);
      }
    }
    Node z; z.op = O_EQ; z.w = 1; if (isC(b)) { z.k.push_back(a); z.k.push_back(b); } else { z.k.push_back(std::min(a, b)); z.k.push_back(std::max(a, b)); } return intern(z);
  }
  T eqPieces(T a, T b) {
    std::vector<unsigned> cs; allCuts(a, cs); allCuts(b, cs); cs.push_back(0); cs.push_back(W(a)); std::sort(cs.begin(), cs.end()); cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
    if (cs.size() == 2) return eq(a, b);
    T r = b1(); for (unsigned i = 0; i + 1 < cs.size(); i++) { T e = eq(extract(a, cs[i], cs[i + 1] - cs[i]), extract(b, cs[i], cs[i + 1] - cs[i])); if (isZero(e)) return e; r = band(r, e); } return r;
  }
  bool ptrParts(T t, T& bs, T& off) { // BASE + off
    const Node& x = n[t];
    if (x.op == O_BASE) { bs = t; off = cst(64, 0); return true; }
    if (x.op == O_SUM) { T b = NONE; APInt c = x.c; std::map<T, uint64_t> m; for (unsigned i = 0; i < x.k.size(); i++) { if (n[x.k[i]].base) { if (b != NONE || x.co[i] != 1) return false; b = x.k[i]; } else m[x.k[i]] = x.co[i]; } if (b == NONE) return false; bs = b; bool sv = ct; T o = sumBuild(64, c, m); ct = sv; off = o; return true; }
    if (x.op == O_ITE && x.base) { bs = t; off = cst(64, 0); return true; }
    return false;
  }
  T ptrEq(T a, T b) {
    T d = NONE;
    if (n[a].base && n[b].base) d = sub(a, b);
    if (d != NONE && isC(d)) return cst(1, n[d].c.isZero());
    T ab, ao, bb, bo; bool pa = n[a].base && ptrParts(a, ab, ao), pb = n[b].base && ptrParts(b, bb, bo);
    if (pa && n[ab].op == O_ITE) { T c = n[ab].k[0], p = n[ab].k[1], q = n[ab].k[2]; T x1 = add(p, ao), x2 = add(q, ao); T e1 = eq(x1, b), e2 = eq(x2, b); return ite(c, e1, e2); }
    if (pb && n[bb].op == O_ITE) { T c = n[bb].k[0], p = n[bb].k[1], q = n[bb].k[2]; T x1 = add(p, bo), x2 = add(q, bo); T e1 = eq(a, x1), e2 = eq(a, x2); return ite(c, e1, e2); }
    if (pa && pb) { if (ab == bb) return eq(ao, bo); return b0(); }
    if (pa && !n[b].base) return b0();
    if (pb && !n[a].base) return b0();
    Node z; z.op = O_EQ; z.w = 1; z.k.push_back(std::min(a, b)); z.k.push_back(std::max(a, b)); return intern(z);
  }
  // the smallest k such that the value of a sum, read as signed, lies within [-2^k, 2^k): all bits from k up are equal
  unsigned signedBits(T t) {
    const Node& x = n[t]; if (x.op != O_SUM || x.w > 64 || x.base) return x.w;
    __int128 l = x.c.getSExtValue(), h = l; uint64_t m = mask64(x.w);
    for (unsigned i = 0; i < x.k.size(); i++) {
      uint64_t co = x.co[i] & m; __int128 al = n[x.k[i]].lo, ah = n[x.k[i]].hi;
      if (co > (m >> 1)) { uint64_t nc = (m - co) + 1; l -= (__int128)nc * ah; h -= (__int128)nc * al; } else { l += (__int128)co * al; h += (__int128)co * ah; }
      if (h > (((__int128)1) << 70) || l < -(((__int128)1) << 70)) return x.w;
    }
    for (unsigned k = 0; k + 1 < x.w; k++) if (l >= -(((__int128)1) << k) && h < (((__int128)1) << k)) return k;
    return x.w;
  }
  T ult(T a, T b) { return memo(7, a, b, 0, [&] { return ult_(a, b); }); }
  T ult_(T a, T b) {
    unsigned w = W(a);
    if (isC(a) && isC(b)) return cst(1, n[a].c.ult(n[b].c));
    if (a == b && !isTop(a)) return b0();
    if (n[a].op == O_UNDEF || n[b].op == O_UNDEF) return undef(1);
    if (collapse({a, b})) return top(1, labs({a, b}));
    if (w == 1) return band(bnot(a), b);
    if (n[a].base || n[b].base) {
      T ab, ao, bb, bo; bool pa = n[a].base && ptrParts(a, ab, ao), pb = n[b].base && ptrParts(b, bb, bo);
      if (pa && n[ab].op == O_ITE) { T c = n[ab].k[0], p = n[ab].k[1], q = n[ab].k[2]; T x1 = add(p, ao), x2 = add(q, ao); T e1 = ult(x1, b), e2 = ult(x2, b); return ite(c, e1, e2); }
      if (pb && n[bb].op == O_ITE) { T c = n[bb].k[0], p = n[bb].k[1], q = n[bb].k[2]; T x1 = add(p, bo), x2 = add(q, bo); T e1 = ult(a, x1), e2 = ult(a, x2); return ite(c, e1, e2); }
      if (pa && pb) { if (ab == bb) { if (ct && (isTop(ao) || isTop(bo))) return top(1, labs({ao, bo})); return ult(ao, bo); } return cst(1, n[ab].aux < n[bb].aux); }
      if (pa && isC(b)) return b0();
      if (pb && isC(a)) return b1();
      if (ct) return top(1, labs({a, b}));
    }
    if (w <= 64) {
      if (n[a].hi < n[b].lo) return b1();
      if (n[a].lo >= n[b].hi) return b0();
      if (isC(b, 1)) return eq(a, cst(w, 0));
      if (isZero(a)) return bnot(eq(b, cst(w, 0)));
      // a < mask  <=>  a != mask
      if (isOnes(b)) return bnot(eq(a, b));
    }
    // comparisons with a power of two that amount to one bit (carry or borrow of a word)
    if (w > 1 && w <= 64 && (isC(a) || isC(b))) {
      T s = isC(a) ? b : a; uint64_t cc = isC(a) ? cv(a) + 1 : cv(b);
      if (cc && !(cc & (cc - 1)) && n[s].op == O_SUM) { unsigned k = __builtin_ctzll(cc); T r = NONE;
        if (n[s].hi >> k <= 1) r = extract(s, k, 1); else if (signedBits(s) <= k) r = extract(s, k, 1);
        if (r != NONE) return isC(a) ? r : bnot(r); } }
    const Node &x = n[a], &y = n[b];
    if (x.op == O_ITE && y.op == O_CONST) { T c = x.k[0], p = x.k[1], q = x.k[2]; T e1 = ult(p, b), e2 = ult(q, b); if (isC(e1) || isC(e2)) return ite(c, e1, e2); }
    if (y.op == O_ITE && x.op == O_CONST) { T c = y.k[0], p = y.k[1], q = y.k[2]; T e1 = ult(a, p), e2 = ult(a, q); if (isC(e1) || isC(e2)) return ite(c, e1, e2); }
    if (x.op == O_TABLE && y.op == O_CONST && w <= 64) { auto v = tables[x.aux]; uint64_t cc = y.c.getZExtValue(); T ar = x.k[0]; for (auto& e : v) e = e < cc; return table(ar, v, 1); }
    if (y.op == O_TABLE && x.op == O_CONST && w <= 64) { auto v = tables[y.aux]; uint64_t cc = x.c.getZExtValue(); T ar = y.k[0]; for (auto& e : v) e = cc < e; return table(ar, v, 1); }
    // common high zero bits: compare the narrow parts
    if (x.op == O_CONCAT && isZero(x.k.back()) && w <= 64) { unsigned z = W(x.k.back()); if (isC(b) && cv(b) <= mask64(w - z)) return ult(extract(a, 0, w - z), extract(b, 0, w - z)); }
    if (x.op == O_CONCAT && y.op == O_CONCAT && isZero(x.k.back()) && isZero(y.k.back())) { unsigned z = std::min(W(x.k.back()), W(y.k.back())); return ult(extract(a, 0, w - z), extract(b, 0, w - z)); }
    if (y.op == O_CONCAT && isZero(y.k.back()) && w <= 64) { unsigned z = W(y.k.back()); if (isC(a) && cv(a) <= mask64(w - z)) return ult(extract(a, 0, w - z), extract(b, 0, w - z)); }
    Node z; z.op = O_ULT; z.w = 1; z.k.push_back(a); z.k.push_back(b); return intern(z);
  }
  T slt(T a, T b) {
    unsigned w = W(a);
    if (isC(a) && isC(b)) return cst(1, n[a].c.slt(n[b].c));
    if (a == b && !isTop(a)) return b0();
    if (n[a].op == O_UNDEF || n[b].op == O_UNDEF) return undef(1);
    if (collapse({a, b})) return top(1, labs({a, b}));
    if (isZero(b)) return extract(a, w - 1, 1);
    if (w <= 64) {
      uint64_t h = mask64(w) >> 1;
      if (n[a].hi <= h && n[b].hi <= h) return ult(a, b);
      if (n[a].lo > h && n[b].lo > h) return ult(a, b);
      if (n[a].lo > h && n[b].hi <= h) return b1();
      if (n[a].hi <= h && n[b].lo > h) return b0();
    }
    const Node &x = n[a], &y = n[b];
    if (x.op == O_ITE && y.op == O_CONST) { T c = x.k[0], p = x.k[1], q = x.k[2]; T e1 = slt(p, b), e2 = slt(q, b); if (isC(e1) || isC(e2)) return ite(c, e1, e2); }
    if (y.op == O_ITE && x.op == O_CONST) { T c = y.k[0], p = y.k[1], q = y.k[2]; T e1 = slt(a, p), e2 = slt(a, q); if (isC(e1) || isC(e2)) return ite(c, e1, e2); }
    if (x.op == O_TABLE && y.op == O_CONST && w <= 64) { auto v = tables[x.aux]; APInt cc = y.c; T ar = x.k[0]; for (auto& e : v) e = APInt(w, e).slt(cc); return table(ar, v, 1); }
    if (isC(a) && isOnes(a)) { // -1 < b  <=> b >= 0
      return bnot(extract(b, w - 1, 1)); }
    Node z; z.op = O_SLT; z.w = 1; z.k.push_back(a); z.k.push_back(b); return intern(z);
  }

  // ---- random interpretation -----------------------------------------------------------------
  static uint64_t mixh(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 29; return h; }
  static APInt randBits(unsigned w, uint64_t seed) { unsigned nw = (w + 63) / 64; std::vector<uint64_t> v(nw); for (unsigned i = 0; i < nw; i++) v[i] = mixh(seed, i + 1); return APInt(w, llvm::ArrayRef<uint64_t>(v)); }
  struct Eval {
    Terms& t; uint64_t seed; int strat; uint64_t salt = 0; std::unordered_map<T, APInt> memo; std::unordered_map<T, APInt> fixed;
    Eval(Terms& t, uint64_t seed, int strat) : t(t), seed(seed), strat(strat) {}
    APInt symVal(T id) {
      auto f = fixed.find(id); if (f != fixed.end()) return f->second;
      const Node& x = t.n[id]; unsigned w = x.w; uint64_t h = mixh(mixh(seed, strat), x.aux + 1000003ull * x.op);
      switch (strat % 8) {
      case 0: return randBits(w, h);
      case 1: return APInt(w, 0);
      case 2: return APInt::getAllOnes(w);
      case 3: { uint64_t v = mixh(seed, 5) & 0xff; return w <= 64 ? APInt(w, v & mask64(w)) : APInt(w, v); }
      case 4: { uint64_t r = h % 6; APInt v = r == 0 ? APInt(w, 0) : r == 1 ? APInt::getAllOnes(w) : r == 2 ? APInt(w, 1 & mask64(w)) : r == 3 ? APInt::getSignMask(w) : r == 4 ? APInt::getAllOnes(w).lshr(1) : randBits(w, h); return v; }
      case 5: return APInt(w, (h & 3) & mask64(w));
      case 6: { return (h & 0x10000) ? randBits(w, h) : ((h & 0x20000) ? APInt::getAllOnes(w) : APInt(w, 0)); }
      default: { uint64_t sel = (h >> 8) % 64; if (sel == 0) return randBits(w, h); return (seed & 1) ? APInt::getAllOnes(w) : APInt(w, 0); }
      }
    }
    APInt operator()(T root) {
      std::vector<T> st{root};
      while (!st.empty()) {
        T id = st.back(); if (memo.count(id)) { st.pop_back(); continue; }
        bool ready = true; for (T s : t.n[id].k) if (!memo.count(s)) { st.push_back(s); ready = false; }
        if (!ready) continue;
        st.pop_back(); memo.emplace(id, compute(id));
      }
      return memo.find(root)->second;
    }
    const APInt& v(T id) { return memo.find(id)->second; }
    APInt compute(T id) {
      const Node& x = t.n[id]; unsigned w = x.w;
      switch (x.op) {
      case O_CONST: return x.c;
      case O_SYM: return symVal(id);
      case O_UNDEF: case O_TOP: return randBits(w, mixh(mixh(seed, strat + 99 + 1000 * salt), id));
      case O_BASE: return APInt(64, (x.aux + 1) << 24);
      case O_CONCAT: { APInt r(w, 0); unsigned off = 0; for (T s : x.k) { r.insertBits(v(s), off); off += t.n[s].w; } return r; }
      case O_EXTRACT: return v(x.k[0]).extractBits(w, x.aux);
      case O_SUM: { APInt r = x.c; for (unsigned i = 0; i < x.k.size(); i++) r += v(x.k[i]) * APInt(w, x.co[i]); return r; }
      case O_MUL: { APInt r = v(x.k[0]); for (unsigned i = 1; i < x.k.size(); i++) r *= v(x.k[i]); return r; }
      case O_XOR: { APInt r = x.c; for (T s : x.k) r ^= v(s); return r; }
      case O_AND: { APInt r = v(x.k[0]); for (T s : x.k) r &= v(s); return r; }
      case O_OR: { APInt r = v(x.k[0]); for (T s : x.k) r |= v(s); return r; }
      case O_ITE: return v(x.k[0]).isZero() ? v(x.k[2]) : v(x.k[1]);
      case O_EQ: return APInt(1, v(x.k[0]) == v(x.k[1]));
      case O_ULT: return APInt(1, v(x.k[0]).ult(v(x.k[1])));
      case O_SLT: return APInt(1, v(x.k[0]).slt(v(x.k[1])));
      case O_UF: { if (x.aux == t.clmulId) { APInt r(128, 0), p = v(x.k[0]).zext(128); const APInt q = v(x.k[1]); for (unsigned i = 0; i < 64; i++) if (q[i]) r ^= p.shl(i); return r; }
        uint64_t h = mixh(0x1234, x.aux + 7); h = mixh(h, w); for (T s : x.k) { const APInt& a = v(s); h = mixh(h, a.getBitWidth()); for (unsigned i = 0; i < a.getNumWords(); i++) h = mixh(h, a.getRawData()[i]); } return randBits(w, h); }
      case O_TABLE: { uint64_t i = v(x.k[0]).getZExtValue(); auto& tb = t.tables[x.aux]; return APInt(w, i < tb.size() ? tb[i] : 0); }
      case O_UDIV: return v(x.k[1]).isZero() ? APInt(w, 0) : v(x.k[0]).udiv(v(x.k[1]));
      case O_UREM: return v(x.k[1]).isZero() ? APInt(w, 0) : v(x.k[0]).urem(v(x.k[1]));
      case O_SDIV: return v(x.k[1]).isZero() ? APInt(w, 0) : v(x.k[0]).sdiv(v(x.k[1]));
      case O_SREM: return v(x.k[1]).isZero() ? APInt(w, 0) : v(x.k[0]).srem(v(x.k[1]));
      case O_SHL: { uint64_t s = v(x.k[1]).getLimitedValue(); return s >= w ? APInt(w, 0) : v(x.k[0]).shl(s); }
      case O_LSHR: { uint64_t s = v(x.k[1]).getLimitedValue(); return s >= w ? APInt(w, 0) : v(x.k[0]).lshr(s); }
      case O_ASHR: { uint64_t s = v(x.k[1]).getLimitedValue(); return s >= w ? v(x.k[0]).ashr(w - 1) : v(x.k[0]).ashr(s); }
      case O_WADD: return v(x.k[0]) + v(x.k[1]);
      }
      return APInt(w, 0);
    }
  };

  std::string str(T t, int depth = 4) const {
    const Node& x = n[t]; std::string s; char buf[64];
    switch (x.op) {
    case O_CONST: { llvm::SmallString<64> b; x.c.toString(b, 16, false, true); return std::string(b) + ":" + std::to_string(x.w); }
    case O_SYM: return symNames[x.aux];
    case O_UNDEF: return "undef:" + std::to_string(x.w);
    case O_TOP: snprintf(buf, 64, "top{%llx}:%u", (unsigned long long)x.lab, x.w); return buf;
    case O_BASE: return "&o" + std::to_string(x.aux);
    default: break;
    }
    if (depth == 0) return "..";
    s = opName[x.op]; if (x.op == O_UF) s = ufNames[x.aux];
    if (x.op == O_EXTRACT) { snprintf(buf, 64, "[%llu+%u]", (unsigned long long)x.aux, x.w); return str(x.k[0], depth - 1) + buf; }
    s += "("; bool f = true; unsigned i = 0;
    for (T k : x.k) { if (i >= 6) { s += ",+" + std::to_string(x.k.size() - i); break; } if (!f) s += ","; f = false; if (x.op == O_SUM && x.co[i] != 1) s += std::to_string((int64_t)x.co[i]) + "*"; s += str(k, depth - 1); i++; }
    if ((x.op == O_SUM || x.op == O_XOR) && !x.c.isZero()) { llvm::SmallString<64> b; x.c.toString(b, 16, false, true); s += ";" + std::string(b); }
    return s + ")";
  }
};
