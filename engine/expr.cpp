#include "expr.h"
#include <chrono>
#include <cstring>
#include <map>
#include <unordered_set>
#include <cmath>
#include <z3++.h>

std::vector<VarInfo> gVars;
SolverStats gSolver;

namespace {
struct Key { Op op; uint8_t w; uint16_t aux; uint64_t v; E a, b, c;
  bool operator==(const Key& o) const { return op == o.op && w == o.w && aux == o.aux && v == o.v && a == o.a && b == o.b && c == o.c; } };
struct KH { size_t operator()(const Key& k) const {
  uint64_t h = (uint64_t)k.op * 0x9E3779B97F4A7C15ull ^ ((uint64_t)k.w << 32) ^ ((uint64_t)k.aux << 40) ^ k.v * 0xC2B2AE3D27D4EB4Full;
  auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; };
  mix(k.a ? k.a->id + 1 : 0); mix(k.b ? k.b->id + 1 : 0); mix(k.c ? k.c->id + 1 : 0); return h; } };
std::unordered_map<Key, E, KH> tab;
std::vector<E> all;
std::unordered_map<std::string, E> varByName;
Expr* chunk = nullptr; size_t chunkLeft = 0;

E intern(Op op, unsigned w, uint16_t aux, uint64_t v, E a, E b, E c) {
  Key k{op, (uint8_t)w, aux, v, a, b, c};
  auto it = tab.find(k);
  if (it != tab.end()) return it->second;
  if (!chunkLeft) { chunk = (Expr*)malloc(sizeof(Expr) * 4096); chunkLeft = 4096; }
  Expr* e = chunk++; chunkLeft--;
  e->op = op; e->w = w; e->aux = aux; e->v = v; e->a = a; e->b = b; e->c = c; e->id = all.size();
  e->ct = false; e->nleaf = 0;
  e->hasIn = op == Op::Var || (a && a->hasIn) || (b && b->hasIn) || (c && c->hasIn);
  if (op == Op::Const) { e->ct = true; e->nleaf = 1; }
  all.push_back(e); tab.emplace(k, e);
  return e;
}
constexpr unsigned kMaxLeaf = 96;
std::unordered_map<E, std::vector<Leaf>> leafTab;

// build canonical chain from (value -> guard); guards mutually exclusive and exhaustive
E chain(std::map<uint64_t, E>& m, unsigned w) {
  std::vector<std::pair<uint64_t, E>> v;
  for (auto& p : m) { if (p.second->isF()) continue; if (p.second->isT()) return mkC(p.first, w); v.push_back(p); }
  if (v.empty()) return mkC(0, w);
  E r = mkC(v.back().first, w);
  for (int i = (int)v.size() - 2; i >= 0; i--) {
    E n = intern(Op::Ite, w, 0, 0, v[i].second, mkC(v[i].first, w), r);
    const_cast<Expr*>(n)->ct = true; const_cast<Expr*>(n)->nleaf = r->nleaf + 1; r = n;
  }
  return r;
}
template <class F> E mapCT(E e, unsigned w, F f) {
  if (e->isC()) return f(e->v);
  auto& ls = leavesOf(e);
  if (w == 1) {
    E r = mkB(false);
    bool any = false; E notg = nullptr; (void)notg; (void)any;
    // if most map to true, use complement
    E t = mkB(false);
    std::vector<E> rs;
    for (auto& l : ls) rs.push_back(f(l.v));
    bool allT = true, allF = true;
    for (auto x : rs) { allT &= x->isT(); allF &= x->isF(); }
    if (allT) return mkB(true);
    if (allF) return mkB(false);
    size_t nt = 0, nf = 0; for (auto x : rs) { nt += x->isT(); nf += x->isF(); }
    if (nt + nf == rs.size() && nf < nt) {
      for (size_t i = 0; i < rs.size(); i++) if (rs[i]->isF()) t = mkOr(t, ls[i].g);
      return mkNot(t);
    }
    for (size_t i = 0; i < rs.size(); i++) r = mkOr(r, mkAnd(ls[i].g, rs[i]));
    return r;
  }
  std::map<uint64_t, E> m; bool ok = true; std::vector<E> rs;
  for (auto& l : ls) { E x = f(l.v); rs.push_back(x); if (!x->ct) ok = false; }
  if (!ok) { E r = rs.back(); for (int i = (int)rs.size() - 2; i >= 0; i--) r = mkIte(ls[i].g, rs[i], r); return r; }
  for (size_t i = 0; i < rs.size(); i++) {
    if (rs[i]->isC()) { auto& s = m[rs[i]->v]; s = s ? mkOr(s, ls[i].g) : ls[i].g; }
    else for (auto& l2 : leavesOf(rs[i])) { E g = mkAnd(ls[i].g, l2.g); auto& s = m[l2.v]; s = s ? mkOr(s, g) : g; }
  }
  return chain(m, w);
}
} // namespace

const std::vector<Leaf>& leavesOf(E e) {
  auto it = leafTab.find(e);
  if (it != leafTab.end()) return it->second;
  std::vector<Leaf> r;
  if (e->isC()) r.push_back({e->v, mkB(true)});
  else {
    E x = e; E rest = mkB(true);
    while (x->op == Op::Ite) { r.push_back({x->b->v, x->a}); rest = mkAnd(rest, mkNot(x->a)); x = x->c; }
    r.push_back({x->v, rest});
  }
  return leafTab.emplace(e, std::move(r)).first->second;
}

E mkC(uint64_t v, unsigned w) { return intern(Op::Const, w, 0, v & maskw(w), 0, 0, 0); }
E mkVar(const std::string& name, unsigned w) {
  auto it = varByName.find(name);
  if (it != varByName.end()) return it->second;
  E e = intern(Op::Var, w, 0, gVars.size(), 0, 0, 0);
  gVars.push_back({name, w, e}); varByName[name] = e; return e;
}
E mkNot(E a) {
  if (a->isC()) return mkC(~a->v, a->w);
  if (a->op == Op::Xor && a->b->isC() && a->b->v == maskw(a->w)) return a->a;
  return intern(Op::Xor, a->w, 0, 0, a, mkC(~0ull, a->w), 0);
}
static inline bool isNotOf(E x, E y) { return x->w == 1 && x->op == Op::Xor && x->a == y && x->b->isT(); }
static inline bool andHas(E x, E y, int d) { // conjunct y in x?
  if (x == y) return true; if (x->op != Op::And || d <= 0) return false; return andHas(x->a, y, d - 1) || andHas(x->b, y, d - 1); }
static inline bool orHas(E x, E y, int d) {
  if (x == y) return true; if (x->op != Op::Or || d <= 0) return false; return orHas(x->a, y, d - 1) || orHas(x->b, y, d - 1); }
E mkAnd(E a, E b) {
  if (a->w == 1) {
    if (a->isF() || b->isF()) return mkB(false);
    if (a->isT()) return b; if (b->isT()) return a;
    if (a == b) return a;
    if (isNotOf(a, b) || isNotOf(b, a)) return mkB(false);
    if (andHas(a, b, 6)) return a; if (andHas(b, a, 6)) return b;
    E na = mkNot(a), nb = mkNot(b);
    if (andHas(a, nb, 6) || andHas(b, na, 6)) return mkB(false);
    if (orHas(a, b, 4)) return b; if (orHas(b, a, 4)) return a;
    if (a->op == Op::Or) { if (a->a == nb) return mkAnd(a->b, b); if (a->b == nb) return mkAnd(a->a, b); }
    if (b->op == Op::Or) { if (b->a == na) return mkAnd(b->b, a); if (b->b == na) return mkAnd(b->a, a); }
    if (a->op == Op::Eq && b->op == Op::Eq && a->a == b->a && a->b->isC() && b->b->isC() && a->b != b->b) return mkB(false);
    if (a->id > b->id) std::swap(a, b);
    return intern(Op::And, 1, 0, 0, a, b, 0);
  }
  return mkBin(Op::And, a, b);
}
E mkOr(E a, E b) {
  if (a->w == 1) {
    if (a->isT() || b->isT()) return mkB(true);
    if (a->isF()) return b; if (b->isF()) return a;
    if (a == b) return a;
    if (isNotOf(a, b) || isNotOf(b, a)) return mkB(true);
    if (orHas(a, b, 6)) return a; if (orHas(b, a, 6)) return b;
    if (andHas(a, b, 4)) return b; if (andHas(b, a, 4)) return a;
    E na = mkNot(a), nb = mkNot(b);
    if (orHas(a, nb, 6) || orHas(b, na, 6)) return mkB(true);
    // (x&y)|(x&!y) = x ; (x&y) | (x&z) = x&(y|z)
    if (a->op == Op::And && b->op == Op::And) {
      E x = nullptr, y = nullptr, z = nullptr;
      if (a->a == b->a) { x = a->a; y = a->b; z = b->b; }
      else if (a->a == b->b) { x = a->a; y = a->b; z = b->a; }
      else if (a->b == b->a) { x = a->b; y = a->a; z = b->b; }
      else if (a->b == b->b) { x = a->b; y = a->a; z = b->a; }
      if (x) return mkAnd(x, mkOr(y, z));
    }
    if (a->op == Op::And) { if (a->a == nb) return mkOr(a->b, b); if (a->b == nb) return mkOr(a->a, b); }
    if (b->op == Op::And) { if (b->a == na) return mkOr(b->b, a); if (b->b == na) return mkOr(b->a, a); }
    if (a->id > b->id) std::swap(a, b);
    return intern(Op::Or, 1, 0, 0, a, b, 0);
  }
  return mkBin(Op::Or, a, b);
}
E mkIte(E c, E a, E b) {
  if (c->isT()) return a; if (c->isF()) return b;
  if (a == b) return a;
  if (a->w == 1) {
    if (a->isT()) return mkOr(c, b); if (a->isF()) return mkAnd(mkNot(c), b);
    if (b->isT()) return mkOr(mkNot(c), a); if (b->isF()) return mkAnd(c, a);
    return mkOr(mkAnd(c, a), mkAnd(mkNot(c), b));
  }
  if (a->ct && b->ct && a->nleaf + b->nleaf <= kMaxLeaf) {
    E nc = mkNot(c);
    std::map<uint64_t, std::pair<E, E>> m;
    for (auto& l : leavesOf(a)) m[l.v].first = l.g;
    for (auto& l : leavesOf(b)) m[l.v].second = l.g;
    std::map<uint64_t, E> r;
    for (auto& p : m) {
      E x = p.second.first, y = p.second.second;
      if (!x) r[p.first] = mkAnd(nc, y);
      else if (!y) r[p.first] = mkAnd(c, x);
      else if (x == y) r[p.first] = x;
      else r[p.first] = mkOr(mkAnd(c, x), mkAnd(nc, y));
    }
    return chain(r, a->w);
  }
  if (c->op == Op::Xor) return intern(Op::Ite, a->w, 0, 0, c->a, b, a);
  return intern(Op::Ite, a->w, 0, 0, c, a, b);
}
E mkEq(E a, E b) { return mkBin(Op::Eq, a, b); }

static bool foldBin(Op op, uint64_t x, uint64_t y, unsigned w, uint64_t& r) {
  uint64_t m = maskw(w);
  switch (op) {
    case Op::Add: r = x + y; break; case Op::Sub: r = x - y; break; case Op::Mul: r = x * y; break;
    case Op::UDiv: if (!y) return false; r = x / y; break;
    case Op::URem: if (!y) return false; r = x % y; break;
    case Op::SDiv: if (!y) return false; { int64_t p = sextw(x, w), q = sextw(y, w); r = q == -1 ? (uint64_t)0 - (uint64_t)p : (uint64_t)(p / q); } break;
    case Op::SRem: if (!y) return false; { int64_t p = sextw(x, w), q = sextw(y, w); r = q == -1 ? 0 : (uint64_t)(p % q); } break;
    case Op::Shl: r = y >= w ? 0 : x << y; break;
    case Op::LShr: r = y >= w ? 0 : x >> y; break;
    case Op::AShr: { int64_t p = sextw(x, w); r = (uint64_t)(p >> (y >= w ? w - 1 : y)); } break;
    case Op::And: r = x & y; break; case Op::Or: r = x | y; break; case Op::Xor: r = x ^ y; break;
    case Op::Eq: r = x == y; return true; case Op::Ult: r = x < y; return true; case Op::Ule: r = x <= y; return true;
    case Op::Slt: r = sextw(x, w) < sextw(y, w); return true; case Op::Sle: r = sextw(x, w) <= sextw(y, w); return true;
    default: return false;
  }
  r &= m; return true;
}
static bool isCmp(Op op) { return op == Op::Eq || op == Op::Ult || op == Op::Ule || op == Op::Slt || op == Op::Sle; }
static bool isComm(Op op) { return op == Op::Add || op == Op::Mul || op == Op::And || op == Op::Or || op == Op::Xor || op == Op::Eq; }

E mkBin(Op op, E a, E b) {
  unsigned w = a->w; unsigned rw = isCmp(op) ? 1 : w;
  if (a->isC() && b->isC()) { uint64_t r; if (foldBin(op, a->v, b->v, w, r)) return mkC(r, rw); return intern(op, rw, 0, 0, a, b, 0); }
  if (w == 1) {
    switch (op) {
      case Op::And: return mkAnd(a, b);
      case Op::Or: return mkOr(a, b);
      case Op::Xor: case Op::Add: case Op::Sub:
        if (a == b) return mkB(false);
        if (a->isC()) std::swap(a, b);
        if (b->isF()) return a;
        if (b->isT()) return mkNot(a);
        return mkOr(mkAnd(a, mkNot(b)), mkAnd(mkNot(a), b));
      case Op::Eq:
        if (a->isC()) std::swap(a, b);
        if (b->isT()) return a; if (b->isF()) return mkNot(a); if (a == b) return mkB(true);
        return mkOr(mkAnd(a, b), mkAnd(mkNot(a), mkNot(b)));
      case Op::Ult: return mkAnd(mkNot(a), b);
      case Op::Ule: return mkOr(mkNot(a), b);
      case Op::Slt: return mkAnd(a, mkNot(b));
      case Op::Sle: return mkOr(a, mkNot(b));
      case Op::Mul: return mkAnd(a, b);
      default: break;
    }
  }
  if (a == b) {
    switch (op) {
      case Op::Sub: case Op::Xor: return mkC(0, w);
      case Op::And: case Op::Or: return a;
      case Op::Eq: case Op::Ule: case Op::Sle: return mkB(true);
      case Op::Ult: case Op::Slt: return mkB(false);
      default: break;
    }
  }
  if (a->isC() && isComm(op)) std::swap(a, b);
  if (b->isC()) {
    if (b->v == 0) switch (op) {
      case Op::Add: case Op::Sub: case Op::Or: case Op::Xor: case Op::Shl: case Op::LShr: case Op::AShr: return a;
      case Op::And: case Op::Mul: return b;
      case Op::Ult: return mkB(false);
      default: break; }
    if (op == Op::Mul && b->v == 1) return a;
    if ((op == Op::UDiv) && b->v == 1) return a;
    if (op == Op::And && b->v == maskw(w)) return a;
    if (op == Op::Or && b->v == maskw(w)) return b;
    if (op == Op::Sub) return mkBin(Op::Add, a, mkC(0 - b->v, w));
    if (op == Op::Add && a->op == Op::Add && a->b->isC()) return mkBin(Op::Add, a->a, mkC(a->b->v + b->v, w));
    if (op == Op::Eq && a->op == Op::ZExt) { if (b->v >> a->a->w) return mkB(false); return mkEq(a->a, mkC(b->v, a->a->w)); }
    if (op == Op::Eq && a->op == Op::Add && a->b->isC()) return mkEq(a->a, mkC(b->v - a->b->v, w));
    if (op == Op::Eq && a->op == Op::Xor && a->b->isC()) return mkEq(a->a, mkC(b->v ^ a->b->v, w));
    if (op == Op::And && a->op == Op::ZExt) { return mkZExt(mkBin(Op::And, a->a, mkC(b->v, a->a->w)), w); }
    if (op == Op::Ult && b->v == 1) return mkEq(a, mkC(0, w));
  }
  if (a->ct && b->ct && (uint64_t)a->nleaf * b->nleaf <= 128 && (op < Op::UDiv || op > Op::SRem)) {
    if (b->isC()) return mapCT(a, rw, [&](uint64_t x) { return mkBin(op, mkC(x, w), b); });
    if (a->isC()) return mapCT(b, rw, [&](uint64_t y) { return mkBin(op, a, mkC(y, w)); });
    return mapCT(a, rw, [&](uint64_t x) { return mapCT(b, rw, [&](uint64_t y) { return mkBin(op, mkC(x, w), mkC(y, w)); }); });
  }
  if (b->isC() && b->v && a->ct && a->nleaf <= 64) return mapCT(a, rw, [&](uint64_t x) { return mkBin(op, mkC(x, w), b); });
  if (isComm(op) && !b->isC() && a->id > b->id) std::swap(a, b);
  return intern(op, rw, 0, 0, a, b, 0);
}
E mkZExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (a->isC()) return mkC(a->v, w);
  if (a->w == 1) return mkIte(a, mkC(1, w), mkC(0, w));
  if (a->ct) return mapCT(a, w, [&](uint64_t x) { return mkC(x, w); });
  if (a->op == Op::ZExt) return mkZExt(a->a, w);
  return intern(Op::ZExt, w, 0, 0, a, 0, 0);
}
E mkSExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (a->isC()) return mkC((uint64_t)sextw(a->v, a->w), w);
  if (a->w == 1) return mkIte(a, mkC(~0ull, w), mkC(0, w));
  if (a->ct) { unsigned aw = a->w; return mapCT(a, w, [&](uint64_t x) { return mkC((uint64_t)sextw(x, aw), w); }); }
  return intern(Op::SExt, w, 0, 0, a, 0, 0);
}
E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && a->w == w) return a;
  if (a->isC()) return mkC(a->v >> lo, w);
  if (a->ct) return mapCT(a, w, [&](uint64_t x) { return mkC(x >> lo, w); });
  if (a->op == Op::Extract) return mkExtract(a->a, a->aux + lo, w);
  if (a->op == Op::Concat) {
    if (lo + w <= a->b->w) return mkExtract(a->b, lo, w);
    if (lo >= a->b->w) return mkExtract(a->a, lo - a->b->w, w);
  }
  if (a->op == Op::ZExt) {
    if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
    if (lo >= a->a->w) return mkC(0, w);
    if (lo == 0) return mkZExt(a->a, w);
  }
  if (a->op == Op::SExt && lo + w <= a->a->w) return mkExtract(a->a, lo, w);
  if (a->op == Op::Ite) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
  if (lo == 0 && (a->op == Op::Add || a->op == Op::Sub || a->op == Op::And || a->op == Op::Or || a->op == Op::Xor))
    return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
  if ((a->op == Op::And || a->op == Op::Or || a->op == Op::Xor))
    return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
  return intern(Op::Extract, w, lo, 0, a, 0, 0);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (hi->isC() && lo->isC()) return mkC((hi->v << lo->w) | lo->v, w);
  if (hi->isC() && hi->v == 0) return mkZExt(lo, w);
  if (hi->op == Op::Extract && lo->op == Op::Extract && hi->a == lo->a && hi->aux == lo->aux + lo->w) return mkExtract(lo->a, lo->aux, w);
  if (hi->ct && lo->ct && hi->nleaf * lo->nleaf <= 64)
    return mapCT(hi, w, [&](uint64_t x) { return mapCT(lo, w, [&](uint64_t y) { return mkC((x << lo->w) | y, w); }); });
  return intern(Op::Concat, w, 0, 0, hi, lo, 0);
}
static double toD(uint64_t v, unsigned w) { if (w == 32) { uint32_t x = v; float f; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static uint64_t fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; } uint64_t v; memcpy(&v, &d, 8); return v; }
static bool fcmpC(unsigned p, double x, double y) {
  bool un = std::isnan(x) || std::isnan(y);
  // llvm predicates: bit0 = EQ, bit1 = GT, bit2 = LT, bit3 = UNO
  bool r = false; if (p & 8) r |= un; if (!un) { if (p & 1) r |= x == y; if (p & 2) r |= x > y; if (p & 4) r |= x < y; } return r;
}
E mkF(Op op, E a, E b, unsigned aux) {
  unsigned rw = op == Op::FCmp ? 1 : a->w;
  if (a->isC() && b->isC()) {
    if (a->w == 32) { float x = (float)toD(a->v, 32), y = (float)toD(b->v, 32), r = 0;
      switch (op) { case Op::FAdd: r = x + y; break; case Op::FSub: r = x - y; break; case Op::FMul: r = x * y; break; case Op::FDiv: r = x / y; break; case Op::FCmp: return mkB(fcmpC(aux, x, y)); default: break; }
      uint32_t u; memcpy(&u, &r, 4); return mkC(u, 32); }
    double x = toD(a->v, 64), y = toD(b->v, 64), r = 0;
    switch (op) { case Op::FAdd: r = x + y; break; case Op::FSub: r = x - y; break; case Op::FMul: r = x * y; break; case Op::FDiv: r = x / y; break; case Op::FCmp: return mkB(fcmpC(aux, x, y)); default: break; }
    return mkC(fromD(r, 64), 64);
  }
  return intern(op, rw, aux, 0, a, b, 0);
}
static uint64_t fcvt(unsigned kind, uint64_t v, unsigned sw, unsigned w) {
  switch (kind) {
    case 0: return (uint64_t)(int64_t)toD(v, sw);      // fptosi
    case 1: return (uint64_t)toD(v, sw);               // fptoui
    case 2: return fromD((double)sextw(v, sw), w);     // sitofp
    case 3: { if (w == 32) { float f = (float)v; uint32_t u; memcpy(&u, &f, 4); return u; } return fromD((double)v, w); } // uitofp
    case 4: return fromD(toD(v, sw), w);               // fpext/fptrunc
  }
  return 0;
}
E mkFCvt(unsigned kind, E a, unsigned w) {
  if (a->isC()) return mkC(fcvt(kind, a->v, a->w, w), w);
  return intern(Op::FCvt, w, kind, 0, a, 0, 0);
}

// ---------- evaluation
static std::vector<uint64_t> evVal; static std::vector<uint32_t> evEp; static uint32_t evCur = 0;
static uint64_t ev(E e, const Model& m) {
  if (e->op == Op::Const) return e->v;
  if (evEp[e->id] == evCur) return evVal[e->id];
  uint64_t r = 0; unsigned w = e->w;
  switch (e->op) {
    case Op::Var: r = m.get(e->v) & maskw(w); break;
    case Op::Ite: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
    case Op::ZExt: r = ev(e->a, m); break;
    case Op::SExt: r = (uint64_t)sextw(ev(e->a, m), e->a->w) & maskw(w); break;
    case Op::Extract: r = (ev(e->a, m) >> e->aux) & maskw(w); break;
    case Op::Concat: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
    case Op::And: if (w == 1) { r = ev(e->a, m) && ev(e->b, m); break; } r = ev(e->a, m) & ev(e->b, m); break;
    case Op::Or: if (w == 1) { r = ev(e->a, m) || ev(e->b, m); break; } r = ev(e->a, m) | ev(e->b, m); break;
    case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv: case Op::FCmp: r = mkF(e->op, mkC(ev(e->a, m), e->a->w), mkC(ev(e->b, m), e->b->w), e->aux)->v; break;
    case Op::FCvt: r = fcvt(e->aux, ev(e->a, m), e->a->w, w) & maskw(w); break;
    default: { uint64_t x = ev(e->a, m), y = ev(e->b, m); if (!foldBin(e->op, x, y, e->a->w, r)) r = 0; }
  }
  if (e->id >= evEp.size()) { evEp.resize(all.size() + 1024, 0); evVal.resize(all.size() + 1024); }
  evEp[e->id] = evCur; evVal[e->id] = r; return r;
}
uint64_t evalE(E e, const Model& m) {
  if (e->isC()) return e->v;
  if (evEp.size() < all.size()) { evEp.resize(all.size() + 65536, 0); evVal.resize(all.size() + 65536); }
  evCur++; return ev(e, m);
}

// ---------- z3
static z3::context& ctx() { static z3::context* c = new z3::context(); return *c; }
static std::vector<Z3_ast> zmemo;
static Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(ctx(), w); }
static bool usesFP = false;
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx(), a); return a; } // Z3 frees a term without references at the next call
static Z3_ast bit(bool b) { static Z3_ast k[2]; if (!k[b]) k[b] = keep(Z3_mk_unsigned_int64(ctx(), b, bvs(1))); return k[b]; }
static Z3_ast toBV1(Z3_ast b) { Z3_ast one = bit(true), zero = bit(false); return keep(Z3_mk_ite(ctx(), b, one, zero)); }
static Z3_ast zz(E e);
static Z3_ast zbv(E e) { Z3_ast r = zz(e); return e->w == 1 ? toBV1(r) : r; }
static Z3_sort fps(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(ctx()) : Z3_mk_fpa_sort_64(ctx()); }
static Z3_ast zfp(E e) { Z3_ast b = zz(e); return keep(Z3_mk_fpa_to_fp_bv(ctx(), b, fps(e->w))); }
static Z3_ast zz0(E e) {
  auto& c = ctx(); Z3_context z = c;
  switch (e->op) {
    case Op::Const: return e->w == 1 ? (e->v ? Z3_mk_true(z) : Z3_mk_false(z)) : Z3_mk_unsigned_int64(z, e->v, bvs(e->w));
    case Op::Var: { Z3_symbol s = Z3_mk_string_symbol(z, gVars[e->v].name.c_str()); return Z3_mk_const(z, s, e->w == 1 ? Z3_mk_bool_sort(z) : bvs(e->w)); }
    case Op::Ite: return Z3_mk_ite(z, zz(e->a), zz(e->b), zz(e->c));
    case Op::ZExt: return Z3_mk_zero_ext(z, e->w - e->a->w, zbv(e->a));
    case Op::SExt: return Z3_mk_sign_ext(z, e->w - e->a->w, zbv(e->a));
    case Op::Extract: { Z3_ast r = Z3_mk_extract(z, e->aux + e->w - 1, e->aux, zbv(e->a)); return e->w == 1 ? Z3_mk_eq(z, keep(r), bit(true)) : r; }
    case Op::Concat: return Z3_mk_concat(z, zbv(e->a), zbv(e->b));
    case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv: case Op::FCmp: {
      usesFP = true;
      Z3_ast x = zfp(e->a), y = zfp(e->b), rm = keep(Z3_mk_fpa_rne(z)), r;
      if (e->op == Op::FCmp) {
        Z3_ast parts[4]; unsigned n = 0; unsigned p = e->aux;
        if (p & 1) parts[n++] = keep(Z3_mk_fpa_eq(z, x, y));
        if (p & 2) parts[n++] = keep(Z3_mk_fpa_gt(z, x, y));
        if (p & 4) parts[n++] = keep(Z3_mk_fpa_lt(z, x, y));
        if (p & 8) { Z3_ast u[2] = {keep(Z3_mk_fpa_is_nan(z, x)), keep(Z3_mk_fpa_is_nan(z, y))}; parts[n++] = keep(Z3_mk_or(z, 2, u)); }
        return n == 0 ? Z3_mk_false(z) : n == 1 ? parts[0] : Z3_mk_or(z, n, parts);
      }
      if (e->op == Op::FAdd) r = Z3_mk_fpa_add(z, rm, x, y); else if (e->op == Op::FSub) r = Z3_mk_fpa_sub(z, rm, x, y);
      else if (e->op == Op::FMul) r = Z3_mk_fpa_mul(z, rm, x, y); else r = Z3_mk_fpa_div(z, rm, x, y);
      return Z3_mk_fpa_to_ieee_bv(z, keep(r));
    }
    case Op::FCvt: { // uninterpreted
      Z3_sort d[1] = {bvs(e->a->w)}; std::string n = "fcvt" + std::to_string(e->aux) + "_" + std::to_string(e->a->w) + "_" + std::to_string(e->w);
      Z3_func_decl f = Z3_mk_func_decl(z, Z3_mk_string_symbol(z, n.c_str()), 1, d, bvs(e->w)); Z3_inc_ref(z, Z3_func_decl_to_ast(z, f)); Z3_ast a[1] = {zbv(e->a)}; return Z3_mk_app(z, f, 1, a); }
    default: break;
  }
  if (e->w == 1 && e->a->w == 1) {
    Z3_ast x = zz(e->a), y = zz(e->b); Z3_ast xs[2] = {x, y};
    switch (e->op) { case Op::And: return Z3_mk_and(z, 2, xs); case Op::Or: return Z3_mk_or(z, 2, xs);
      case Op::Xor: return e->b->isT() ? Z3_mk_not(z, x) : Z3_mk_xor(z, x, y); case Op::Eq: return Z3_mk_eq(z, x, y); default: break; }
  }
  Z3_ast x = zbv(e->a), y = zbv(e->b), r = nullptr;
  switch (e->op) {
    case Op::Add: r = Z3_mk_bvadd(z, x, y); break; case Op::Sub: r = Z3_mk_bvsub(z, x, y); break; case Op::Mul: r = Z3_mk_bvmul(z, x, y); break;
    case Op::UDiv: r = Z3_mk_bvudiv(z, x, y); break; case Op::SDiv: r = Z3_mk_bvsdiv(z, x, y); break;
    case Op::URem: r = Z3_mk_bvurem(z, x, y); break; case Op::SRem: r = Z3_mk_bvsrem(z, x, y); break;
    case Op::Shl: r = Z3_mk_bvshl(z, x, y); break; case Op::LShr: r = Z3_mk_bvlshr(z, x, y); break; case Op::AShr: r = Z3_mk_bvashr(z, x, y); break;
    case Op::And: r = Z3_mk_bvand(z, x, y); break; case Op::Or: r = Z3_mk_bvor(z, x, y); break; case Op::Xor: r = Z3_mk_bvxor(z, x, y); break;
    case Op::Eq: return Z3_mk_eq(z, x, y); case Op::Ult: return Z3_mk_bvult(z, x, y); case Op::Ule: return Z3_mk_bvule(z, x, y);
    case Op::Slt: return Z3_mk_bvslt(z, x, y); case Op::Sle: return Z3_mk_bvsle(z, x, y);
    default: fprintf(stderr, "z3 translate: bad op\n"); abort();
  }
  if (e->w == 1) r = Z3_mk_eq(z, keep(r), bit(true));
  return r;
}
static Z3_ast zz(E e) {
  if (zmemo.size() < all.size()) zmemo.resize(all.size() + 4096, nullptr);
  if (zmemo[e->id]) return zmemo[e->id];
  // iterative post-order on deep chains
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back();
    if (zmemo[x->id]) { st.pop_back(); continue; }
    bool ready = true;
    for (E k : {x->a, x->b, x->c}) if (k && !zmemo[k->id]) { st.push_back(k); ready = false; }
    if (!ready) continue;
    zmemo[x->id] = keep(zz0(x)); st.pop_back();
  }
  return zmemo[e->id];
}
static z3::solver* slv = nullptr; static z3::solver* slvG = nullptr; static unsigned nAsserted = 0;
static std::unordered_map<E, Z3_ast> litOf;
static std::unordered_map<uint64_t, int> unsatCache;

static void collectVars(E e, std::unordered_set<uint32_t>& seen, std::vector<E>& vars) {
  std::vector<E> st{e};
  while (!st.empty()) { E x = st.back(); st.pop_back(); if (!x->hasIn || !seen.insert(x->id).second) continue; if (x->op == Op::Var) vars.push_back(x); for (E k : {x->a, x->b, x->c}) if (k) st.push_back(k); }
}
static std::vector<uint8_t> fpMark; // 1 = no fp/uf, 2 = has
static bool hasArith(E e) { // anything beyond booleans/eq on vars => general solver
  if (fpMark.size() < all.size()) fpMark.resize(all.size() + 4096, 0);
  if (fpMark[e->id]) return fpMark[e->id] == 2;
  bool r = e->op >= Op::FAdd || (e->op == Op::Var && e->w > 16);
  std::vector<E> st; // iterative to avoid deep recursion
  struct It { E e; int i; };
  std::vector<It> s{{e, 0}};
  while (!s.empty()) {
    auto& t = s.back();
    E x = t.e;
    if (t.i == 0 && fpMark[x->id]) { s.pop_back(); continue; }
    E ks[3] = {x->a, x->b, x->c};
    if (t.i < 3) { E k = ks[t.i++]; if (k && !fpMark[k->id]) s.push_back({k, 0}); continue; }
    bool q = x->op >= Op::FAdd || (x->op == Op::Var && x->w > 16);
    for (E k : ks) if (k && fpMark[k->id] == 2) q = true;
    fpMark[x->id] = q ? 2 : 1; s.pop_back();
  }
  (void)r; return fpMark[e->id] == 2;
}
static std::unordered_map<uint32_t, std::vector<uint32_t>> varsMemo;
static const std::vector<uint32_t>& varsOf(E e) {
  auto it = varsMemo.find(e->id); if (it != varsMemo.end()) return it->second;
  std::unordered_set<uint32_t> seen; std::vector<E> vs; collectVars(e, seen, vs); std::vector<uint32_t> r; for (E v : vs) r.push_back(v->v); std::sort(r.begin(), r.end());
  return varsMemo[e->id] = std::move(r);
}
static void conjuncts(E e, std::vector<E>& out) {
  std::vector<E> st{e}; std::unordered_set<uint32_t> seen;
  while (!st.empty()) { E x = st.back(); st.pop_back(); if (!seen.insert(x->id).second) continue; if (x->op == Op::And && x->w == 1) { st.push_back(x->b); st.push_back(x->a); } else if (!x->isT()) out.push_back(x); }
}
static bool intersects(const std::vector<uint32_t>& a, const std::vector<uint32_t>& b) {
  size_t i = 0, j = 0; while (i < a.size() && j < b.size()) { if (a[i] == b[j]) return true; if (a[i] < b[j]) i++; else j++; } return false;
}
// splits g into the conjuncts connected to the variables in `live` (returned) and the rest, which then shares no variable with them
E splitGuard(E g, std::vector<E>& liveTerms, E* rest) {
  std::vector<uint32_t> vs; for (E e : liveTerms) { auto& v = varsOf(e); vs.insert(vs.end(), v.begin(), v.end()); } std::sort(vs.begin(), vs.end()); vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
  std::vector<E> cs; conjuncts(g, cs); std::sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; }); std::vector<char> in(cs.size(), 0);
  for (bool again = true; again;) { again = false;
    for (size_t i = 0; i < cs.size(); i++) if (!in[i] && intersects(varsOf(cs[i]), vs)) { in[i] = 1; again = true; auto& v = varsOf(cs[i]); std::vector<uint32_t> u; std::set_union(vs.begin(), vs.end(), v.begin(), v.end(), std::back_inserter(u)); vs.swap(u); } }
  E l = mkB(true); *rest = mkB(true); for (size_t i = 0; i < cs.size(); i++) { if (in[i]) l = mkAnd(l, cs[i]); else *rest = mkAnd(*rest, cs[i]); }
  return l;
}
// decides the conjunction; values of the variables in it go to `vals`
static int solveConj(const std::vector<E>& cs, std::vector<std::pair<uint32_t, uint64_t>>* vals) {
  auto t0 = std::chrono::steady_clock::now(); auto& x = ctx(); bool gen = false; for (E c : cs) gen |= hasArith(c);
  z3::check_result r; z3::model* mdl = nullptr; gSolver.queries++;
  if (gen) {
    if (!slvG) { slvG = new z3::solver(x); z3::params p(x); p.set("timeout", 400u); slvG->set(p); }
    slvG->push(); for (E c : cs) slvG->add(z3::expr(x, zz(c))); r = slvG->check(); if (r == z3::sat) mdl = new z3::model(slvG->get_model()); slvG->pop();
    for (int i = 0; i < 2 && r == z3::unknown; i++) { // the incremental core gave up: bit-blast, then everything it has got
      z3::solver s = i ? z3::solver(x) : z3::tactic(x, usesFP ? "qffpbv" : "qfbv").mk_solver(); z3::params p(x); p.set("timeout", 60000u); s.set(p);
      try { for (E c : cs) s.add(z3::expr(x, zz(c))); r = s.check(); if (r == z3::sat) mdl = new z3::model(s.get_model()); } catch (z3::exception&) { r = z3::unknown; }
    }
  } else {
    if (!slv || nAsserted > 400) { delete slv; litOf.clear(); nAsserted = 0; slv = new z3::solver(x, "QF_FD"); z3::params p(x); p.set("timeout", 60000u); slv->set(p); }
    auto lit = [&](E e) -> z3::expr {
      auto f = litOf.find(e); if (f != litOf.end()) return z3::expr(x, f->second);
      z3::expr l = x.bool_const(("!l" + std::to_string(e->id)).c_str()); slv->add(z3::implies(l, z3::expr(x, zz(e)))); nAsserted++; Z3_inc_ref(x, l); litOf[e] = l; return l; };
    z3::expr_vector as(x); for (E c : cs) as.push_back(lit(c)); r = slv->check(as); if (r == z3::sat) mdl = new z3::model(slv->get_model());
  }
  if (r == z3::sat && vals) {
    std::unordered_set<uint32_t> seen; std::vector<E> vars; for (E c : cs) collectVars(c, seen, vars);
    for (E v : vars) { z3::expr val = mdl->eval(z3::expr(x, zz(v)), true); uint64_t u = 0; if (v->w == 1) u = val.is_true(); else if (!Z3_get_numeral_uint64(x, val, &u)) u = 0; vals->push_back({(uint32_t)v->v, u}); }
  }
  delete mdl; gSolver.secs += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (r == z3::unsat) { gSolver.unsat++; return 0; } if (r == z3::unknown) { gSolver.unknown++; return -1; } gSolver.sat++; return 1;
}
// queries over a single variable are cached up to its name: canonical number of a term whose variables are told apart by width only
static uint32_t canon(E e) {
  static std::vector<uint32_t> memo; static std::map<std::tuple<int, unsigned, unsigned, uint64_t, uint32_t, uint32_t, uint32_t>, uint32_t> t;
  if (e->id < memo.size() && memo[e->id]) return memo[e->id];
  auto k = std::make_tuple((int)e->op, e->w, (unsigned)e->aux, e->op == Op::Var ? 0 : (uint64_t)e->v, e->a ? canon(e->a) : 0, e->b ? canon(e->b) : 0, e->c ? canon(e->c) : 0);
  uint32_t r = t.emplace(k, t.size() + 1).first->second; if (e->id >= memo.size()) memo.resize(all.size() + 1024); return memo[e->id] = r;
}
struct SliceRes { int r; std::vector<std::pair<uint32_t, uint64_t>> vals; };
static std::map<std::vector<uint32_t>, SliceRes> sliceCache;
int checkSat(E g, E c, const Model* base, ModelP* out) {
  if (g->isF() || c->isF()) return 0;
  bool gOk = base && evalE(g, *base);
  if (gOk && evalE(c, *base)) { gSolver.witnessHits++; if (out) *out = std::make_shared<Model>(*base); return 1; }
  E both = mkAnd(g, c); if (both->isF()) return 0;
  uint64_t key = ((uint64_t)g->id << 32) | c->id; if (unsatCache.count(key)) { gSolver.cacheHits++; return 0; }
  std::vector<E> cs; conjuncts(g, cs); std::vector<E> q; conjuncts(c, q);
  std::vector<uint32_t> vs; for (E e : q) { auto& v = varsOf(e); vs.insert(vs.end(), v.begin(), v.end()); } std::sort(vs.begin(), vs.end()); vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
  if (gOk) { // the witness satisfies g, so only the conjuncts connected to c matter
    std::vector<char> in(cs.size(), 0);
    for (bool again = true; again;) { again = false;
      for (size_t i = 0; i < cs.size(); i++) if (!in[i] && intersects(varsOf(cs[i]), vs)) { in[i] = 1; again = true; auto& v = varsOf(cs[i]); std::vector<uint32_t> u; std::set_union(vs.begin(), vs.end(), v.begin(), v.end(), std::back_inserter(u)); vs.swap(u); } }
    for (size_t i = 0; i < cs.size(); i++) if (in[i]) q.push_back(cs[i]);
  } else q.insert(q.end(), cs.begin(), cs.end());
  std::sort(q.begin(), q.end(), [](E a, E b) { return a->id < b->id; }); q.erase(std::unique(q.begin(), q.end()), q.end());
  std::vector<uint32_t> k; for (E e : q) k.push_back(e->id);
  std::vector<uint32_t> qv; for (E e : q) { auto& v = varsOf(e); std::vector<uint32_t> u; std::set_union(qv.begin(), qv.end(), v.begin(), v.end(), std::back_inserter(u)); qv.swap(u); if (qv.size() > 1) break; }
  bool one = qv.size() == 1; if (one) { for (size_t i = 0; i < k.size(); i++) k[i] = canon(q[i]); std::sort(k.begin(), k.end()); k.push_back(0); }
  auto it = sliceCache.find(k);
  if (it != sliceCache.end()) gSolver.cacheHits++; else { SliceRes sr; sr.r = solveConj(q, &sr.vals); it = sliceCache.emplace(std::move(k), std::move(sr)).first; }
  int r = it->second.r; if (r == 0) unsatCache[key] = 0; if (r != 1) return r;
  auto m = std::make_shared<Model>(); if (base) *m = *base; for (auto& v : it->second.vals) m->set(one ? qv[0] : v.first, v.second);
  if (!evalE(g, *m) || !evalE(c, *m)) { fprintf(stderr, "warning: z3 model does not satisfy query under evaluator\n"); return -1; }
  if (out) *out = m; return 1;
}
void dumpE(E e, int d) {
  static const char* n[] = {"C", "V", "+", "-", "*", "/u", "/s", "%u", "%s", "<<", ">>", ">>a", "&", "|", "^", "=", "<u", "<=u", "<s", "<=s", "ite", "zx", "sx", "ext", "cat", "f+", "f-", "f*", "f/", "fcmp", "fcvt"};
  if (e->isC()) { fprintf(stderr, "0x%lx", (unsigned long)e->v); return; }
  if (e->op == Op::Var) { fprintf(stderr, "%s", gVars[e->v].name.c_str()); return; }
  if (d == 0) { fprintf(stderr, "#%u", e->id); return; }
  fprintf(stderr, "(%s", n[(int)e->op]); for (E k : {e->a, e->b, e->c}) if (k) { fprintf(stderr, " "); dumpE(k, d - 1); } fprintf(stderr, ")");
}
