#include "engine.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/Operator.h>
#include <llvm/Demangle/Demangle.h>
#include <algorithm>
#include <cstring>
#include <sys/resource.h>
#include <unistd.h>
using namespace llvm;

Options gOpt; Stats gStats;
static constexpr uint64_t FN_BASE = 0x10000, GC_BASE = 0x10000000, GM_BASE = 0x20000000, GHOST = 0x30000000, TLS_BASE = 0x400000000000ull,
  HEAP_BASE = 0x600000000000ull, STK_BASE = 0x700000000000ull, CTX_BASE = 0x780000000000ull;
static constexpr uint32_t GHOST_N = 512;
static uint32_t gFnId = 0;

// ---- interning of aggregates / clocks
namespace { struct VH { size_t operator()(const std::vector<Val>& v) const { size_t h = v.size(); for (auto& x : v) { h = h * 1000003 + (x.e ? x.e->id + 1 : 0); h = h * 1000003 + (x.a ? x.a->id + 7 : 0); } return h; } }; }
const Agg* mkAgg(const std::vector<Val>& v) {
  static std::unordered_map<std::vector<Val>, const Agg*, VH> t;
  auto it = t.find(v); if (it != t.end()) return it->second;
  auto* a = new Agg{v, (uint32_t)t.size()}; t.emplace(v, a); return a;
}
namespace { struct EH { size_t operator()(const std::vector<E>& v) const { size_t h = v.size(); for (auto x : v) h = h * 1000003 + x->id + 1; return h; } }; }
static VCP mkVC(std::vector<E> c) {
  while (!c.empty() && c.back()->isC() && c.back()->v == 0) c.pop_back();
  static std::unordered_map<std::vector<E>, VCP, EH> t;
  auto it = t.find(c); if (it != t.end()) return it->second;
  auto* v = new VC{c, (uint32_t)t.size()}; t.emplace(c, v); return v;
}
static VCP vcZero() { static VCP z = mkVC({}); return z; }
static E vcAt(VCP v, size_t i) { return i < v->c.size() ? v->c[i] : mkC(0, 16); }
static E emax(E a, E b) { if (a == b) return a; if (a->isC() && b->isC()) return a->v >= b->v ? a : b; if (a->isC() && a->v == 0) return b; if (b->isC() && b->v == 0) return a; return mkIte(mkBin(Op::Ult, a, b), b, a); }
static VCP vcJoin(VCP a, VCP b) { if (a == b) return a; std::vector<E> r; size_t n = std::max(a->c.size(), b->c.size()); for (size_t i = 0; i < n; i++) r.push_back(emax(vcAt(a, i), vcAt(b, i))); return mkVC(r); }
static VCP vcSet(VCP a, size_t i, E v) { auto c = a->c; while (c.size() <= i) c.push_back(mkC(0, 16)); c[i] = v; return mkVC(c); }
static VCP vcIte(E g, VCP a, VCP b) { if (a == b) return a; std::vector<E> r; size_t n = std::max(a->c.size(), b->c.size()); for (size_t i = 0; i < n; i++) r.push_back(mkIte(g, vcAt(a, i), vcAt(b, i))); return mkVC(r); }
static CellP mkCell(VCP w, VCP r, VCP aw, VCP ar) {
  struct K { VCP a, b, c, d; bool operator<(const K& o) const { return std::tie(a, b, c, d) < std::tie(o.a, o.b, o.c, o.d); } };
  static std::map<K, CellP> t; K k{w, r, aw, ar}; auto it = t.find(k); if (it != t.end()) return it->second;
  auto* c = new Cell{w, r, aw, ar, (uint32_t)t.size()}; t[k] = c; return c;
}
static CellP cellZero() { static CellP z = mkCell(vcZero(), vcZero(), vcZero(), vcZero()); return z; }

// visible-op classes
enum { V_NONE, V_ATOMIC, V_LOCK, V_TRYLOCK, V_CVWAIT, V_NOTIFY, V_YIELD, V_JOIN, V_MERGE, V_SWAPCTX };

// a schedule or environment decision: in exact mode it never flows into data, so it is kept apart from the input constraints
static void addChoice(State* S, E c) { if (gOpt.exact) S->sg = S->sg ? mkAnd(S->sg, c) : c; else S->guard = mkAnd(S->guard, c); }
static bool isSyncExt(StringRef n, int& v) {
  static const std::map<std::string, int> t = {{"vf_mutex_lock", V_LOCK}, {"vf_mutex_trylock", V_TRYLOCK}, {"vf_cv_wait", V_CVWAIT}, {"vf_cv_notify", V_NOTIFY},
    {"vf_yield", V_YIELD}, {"vf_join", V_JOIN}, {"vf_merge", V_MERGE}, {"swapcontext", V_SWAPCTX}, {"sched_yield", V_YIELD}};
  auto it = t.find(n.str()); if (it == t.end()) return false; v = it->second; return true;
}

FnInfo* Engine::info(Function* F) {
  auto it = fns.find(F); if (it != fns.end()) return it->second;
  if (F->isMaterializable()) cantFail(F->materialize());
  auto* fi = new FnInfo; fns[F] = fi; fi->F = F; fi->id = gFnId++;
  if (auto* sp = F->getSubprogram()) { if (auto* f = sp->getFile()) { fi->file = f->getFilename().str(); if (!fi->file.empty() && fi->file[0] != '/') fi->file = f->getDirectory().str() + "/" + fi->file; } }
  fi->noRace = F->hasFnAttribute("vf-model") || fi->file.find("/verif/harness/model") != std::string::npos;
  if (fi->file.find("vf_model") != std::string::npos) fi->noRace = true;
  std::map<const Value*, int> slot; int n = 0;
  for (auto& A : F->args()) slot[&A] = n++;
  for (auto& B : *F) for (auto& I : B) if (!I.getType()->isVoidTy()) slot[&I] = n++;
  fi->nslots = n;
  int bi = 0; for (auto& B : *F) { fi->bbIdx[&B] = bi++; fi->bbs.push_back(&B); }
  for (auto& B : *F) {
    fi->bbStart.push_back(fi->insts.size());
    for (auto& I : B) {
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      PInst p; p.I = &I; p.opc = I.getOpcode(); p.dst = I.getType()->isVoidTy() ? -1 : slot[&I]; p.bb = fi->bbIdx[&B];
      if (auto* md = I.getMetadata("vf.site")) p.site = mdconst::extract<ConstantInt>(md->getOperand(0))->getZExtValue();
      for (auto& U : I.operands()) {
        Operand o; o.slot = -1; Value* v = U.get();
        auto s = slot.find(v);
        if (s != slot.end()) o.slot = s->second;
        else if (auto* c = dyn_cast<Constant>(v)) { if (!(isa<CallBase>(&I) && &U == &cast<CallBase>(&I)->getCalledOperandUse() && isa<Function>(v))) o.c = constVal(c); }
        p.ops.push_back(o);
      }
      if (I.isAtomic() && !isa<FenceInst>(&I)) p.visible = V_ATOMIC;
      if (auto* cb = dyn_cast<CallBase>(&I)) {
        if (auto* f = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) { p.callee = f; p.intr = f->getIntrinsicID(); int v; if (f->isDeclaration() && isSyncExt(f->getName(), v)) p.visible = v; }
      }
      fi->insts.push_back(std::move(p));
    }
  }
  fi->deadAt.resize(fi->insts.size()); fi->deadKnown.resize(fi->insts.size()); fi->deadAfterCall.resize(fi->insts.size()); fi->deadCallKnown.resize(fi->insts.size());
  liveness(fi);
  return fi;
}
void Engine::liveness(FnInfo* fi) {
  size_t nb = fi->bbs.size(); std::vector<std::vector<bool>> in(nb, std::vector<bool>(fi->nslots)), out = in;
  bool ch = true;
  while (ch) {
    ch = false;
    for (int b = nb - 1; b >= 0; b--) {
      std::vector<bool> o(fi->nslots);
      for (auto* S : successors(fi->bbs[b])) {
        int s = fi->bbIdx[S]; for (int i = 0; i < fi->nslots; i++) if (in[s][i]) o[i] = true;
        size_t e = (size_t)s + 1 < nb ? fi->bbStart[s + 1] : fi->insts.size();
        for (size_t k = fi->bbStart[s]; k < e; k++) { auto& P = fi->insts[k]; if (P.opc != Instruction::PHI) break; auto* ph = cast<PHINode>(P.I);
          for (unsigned q = 0; q < ph->getNumIncomingValues(); q++) if (ph->getIncomingBlock(q) == fi->bbs[b] && P.ops[q].slot >= 0) o[P.ops[q].slot] = true; }
      }
      out[b] = o;
      size_t e = (size_t)b + 1 < nb ? fi->bbStart[b + 1] : fi->insts.size();
      for (int k = (int)e - 1; k >= fi->bbStart[b]; k--) { auto& P = fi->insts[k]; if (P.dst >= 0) o[P.dst] = false; if (P.opc != Instruction::PHI) for (auto& q : P.ops) if (q.slot >= 0) o[q.slot] = true; }
      if (o != in[b]) { in[b] = o; ch = true; }
    }
  }
  fi->liveOut = out;
}
static std::vector<bool> liveAt(FnInfo* fi, int pc, bool afterCall) {
  int b = fi->insts[pc].bb; std::vector<bool> o = fi->liveOut[b];
  size_t e = (size_t)b + 1 < fi->bbs.size() ? fi->bbStart[b + 1] : fi->insts.size();
  for (int k = (int)e - 1; k >= pc; k--) { auto& P = fi->insts[k]; if (P.dst >= 0) o[P.dst] = false; if (k == pc && afterCall) break; if (P.opc != Instruction::PHI) for (auto& q : P.ops) if (q.slot >= 0) o[q.slot] = true; }
  return o;
}
void Engine::cleanStack(Stack& st) {
  for (size_t i = 0; i < st.f.size(); i++) {
    bool top = i + 1 == st.f.size(); auto& fr = st.f[i]; int tag = fr->pc * 2 + (top ? 0 : 1);
    if (fr->cleanPc == tag) continue;
    FnInfo* fi = fr->fn; auto& known = top ? fi->deadKnown : fi->deadCallKnown; auto& tab = top ? fi->deadAt : fi->deadAfterCall;
    if (!known[fr->pc]) { auto lv = liveAt(fi, fr->pc, !top); std::vector<int> d; for (int s = 0; s < fi->nslots; s++) if (!lv[s]) d.push_back(s); tab[fr->pc] = d; known[fr->pc] = 1; }
    Frame* f = fr.mut(); f->cleanPc = tag; f->prevBB = -1; for (int s : tab[f->pc]) f->regs[s] = Val();
  }
}
void Engine::clean(State& S) { for (auto& t : S.th) cleanStack(t.st); for (auto& c : S.ctxs) cleanStack(c.second); }

// ---- constants / globals
static unsigned widthOf(Type* T, const DataLayout& DL) { if (T->isPointerTy()) return 64; return DL.getTypeSizeInBits(T).getFixedValue(); }
Val Engine::constVal(const Constant* C) {
  Type* T = C->getType(); Val r;
  if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) {
    unsigned n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
    std::vector<Val> v; for (unsigned i = 0; i < n; i++) { Constant* e = C->getAggregateElement(i); if (!e) return r; v.push_back(constVal(e)); } r.a = mkAgg(v); return r;
  }
  if (T->isLabelTy() || T->isMetadataTy() || T->isTokenTy()) return r;
  if (auto* ci = dyn_cast<ConstantInt>(C)) { if (ci->getBitWidth() > 64) { r.e = nullptr; return r; } r.e = mkC(ci->getZExtValue(), ci->getBitWidth()); return r; }
  if (auto* cf = dyn_cast<ConstantFP>(C)) { unsigned w = widthOf(T, DL); if (w > 64) return r; r.e = mkC(cf->getValueAPF().bitcastToAPInt().getZExtValue(), w); return r; }
  unsigned w = widthOf(T, DL); if (w > 64) return r;
  if (isa<ConstantPointerNull>(C)) { r.e = mkC(0, 64); return r; }
  if (isa<UndefValue>(C)) { r.e = mkC(0, w); return r; }
  if (auto* gv = dyn_cast<GlobalValue>(C)) { auto it = gaddr.find(gv); if (it != gaddr.end()) r.e = mkC(it->second, 64); else if (auto* ga = dyn_cast<GlobalAlias>(gv)) return constVal(ga->getAliasee()); return r; }
  if (auto* ce = dyn_cast<ConstantExpr>(C)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { Val b = constVal(ce->getOperand(0)); APInt off(64, 0); if (b.e && cast<GEPOperator>(ce)->accumulateConstantOffset(DL, off)) r.e = mkBin(Op::Add, b.e, mkC(off.getSExtValue(), 64)); return r; }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
      case Instruction::PtrToInt: case Instruction::Trunc: { Val b = constVal(ce->getOperand(0)); if (b.e) r.e = mkExtract(b.e, 0, w); return r; }
      case Instruction::IntToPtr: { Val b = constVal(ce->getOperand(0)); if (b.e) r.e = mkZExt(b.e, 64); return r; }
      case Instruction::Add: case Instruction::Sub: case Instruction::And: case Instruction::Or: case Instruction::Xor: {
        Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1)); if (!a.e || !b.e) return r;
        Op op = ce->getOpcode() == Instruction::Add ? Op::Add : ce->getOpcode() == Instruction::Sub ? Op::Sub : ce->getOpcode() == Instruction::And ? Op::And : ce->getOpcode() == Instruction::Or ? Op::Or : Op::Xor;
        r.e = mkBin(op, a.e, b.e); return r; }
      case Instruction::ICmp: { Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1)); if (a.e && b.e) { bool eq = a.e == b.e; r.e = mkB(ce->getPredicate() == CmpInst::ICMP_EQ ? eq : !eq); } return r; }
      default: return r;
    }
  }
  return r;
}
void Engine::storeConst(Obj& o, uint64_t off, const Constant* C) {
  Type* T = C->getType();
  if (isa<UndefValue>(C) || C->isNullValue()) return;
  if (auto* cs = dyn_cast<ConstantStruct>(C)) { auto* L = DL.getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) storeConst(o, off + L->getElementOffset(i), cs->getOperand(i)); return; }
  if (auto* ca = dyn_cast<ConstantArray>(C)) { uint64_t es = DL.getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) storeConst(o, off + i * es, ca->getOperand(i)); return; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(C)) { uint64_t es = cd->getElementByteSize(); for (unsigned i = 0; i < cd->getNumElements(); i++) storeConst(o, off + i * es, cd->getElementAsConstant(i)); return; }
  Val v = constVal(C); if (!v.e) return;
  uint64_t n = DL.getTypeStoreSize(T); for (uint64_t i = 0; i < n && off + i < o.size; i++) o.b[off + i] = v.e->v >> (8 * i);
}
Engine::Engine(Module& m) : M(m), DL(m.getDataLayout()) { initGlobals(); }
void Engine::initGlobals() {
  uint64_t fa = FN_BASE, gc = GC_BASE, gm = GM_BASE, tl = 0;
  for (auto& F : M) { gaddr[&F] = fa; fnByAddr[fa] = &F; fa += 16; }
  std::vector<std::pair<GlobalVariable*, ObjRef>> todo;
  for (auto& G : M.globals()) {
    if (G.getName().starts_with("llvm.")) continue;
    uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL.getTypeAllocSize(G.getValueType()) : 8; if (!sz) sz = 1;
    if (G.isDeclaration()) sz = std::max<uint64_t>(sz, 64);
    uint64_t al = 16; if (G.getAlign() && G.getAlign()->value() > al) al = G.getAlign()->value();
    auto* o = new Obj; o->size = sz; o->b.assign(sz, 0);
    if (G.isThreadLocal()) { tl = (tl + al - 1) & ~(al - 1); o->addr = TLS_BASE + tl; tl += sz + 16; o->kind = KTls; gaddr[&G] = o->addr; ObjRef r(o); roMem.push_back(r); todo.push_back({&G, r}); continue; }
    bool ro = G.isConstant(); uint64_t& p = ro ? gc : gm; p = (p + al - 1) & ~(al - 1); o->addr = p; p += sz + 16; o->kind = ro ? KConst : G.getSection() == "vf_ghost" ? KGhost : KGlobal; o->ro = ro;
    gaddr[&G] = o->addr; gvByAddr[o->addr] = &G; ObjRef r(o); (ro ? roMem : initMem).push_back(r); todo.push_back({&G, r});
  }
  for (auto& A : M.aliases()) { if (auto* g = dyn_cast<GlobalValue>(A.getAliasee()->stripPointerCasts())) if (gaddr.count(g)) gaddr[&A] = gaddr[g]; }
  for (auto& t : todo) if (t.first->hasInitializer()) storeConst(*t.second, 0, t.first->getInitializer());
  auto* g = new Obj; g->addr = GHOST; g->size = GHOST_N * 8; g->b.assign(g->size, 0); g->kind = KGhost; initMem.push_back(ObjRef(g));
  auto cmp = [](const ObjRef& a, const ObjRef& b) { return a->addr < b->addr; };
  std::sort(roMem.begin(), roMem.end(), cmp); std::sort(initMem.begin(), initMem.end(), cmp);
}
// ---- memory
static Obj* findIn(const std::vector<ObjRef>& v, uint64_t a, uint64_t n, size_t* idx) {
  size_t lo = 0, hi = v.size();
  while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m]->addr <= a) lo = m + 1; else hi = m; }
  if (!lo) return nullptr;
  Obj* o = v[lo - 1].p; if (a - o->addr + n > o->size) return nullptr; if (idx) *idx = lo - 1; return o;
}
Obj* Engine::find(State& S, uint64_t a, uint64_t n, size_t* idx) {
  if (Obj* o = findIn(S.mem, a, n, idx)) return o;
  if (a >= TLS_BASE && a < HEAP_BASE) return nullptr;
  if (Obj* o = findIn(roMem, a, n, nullptr)) { if (idx) *idx = ~0ull; return o; }
  return nullptr;
}
Obj* Engine::findMut(State& S, uint64_t a, uint64_t n) { size_t i; Obj* o = findIn(S.mem, a, n, &i); if (!o) return nullptr; o = S.mem[i].mut(); o->hash = 0; return o; }
void Engine::insertObj(State& S, ObjRef o) {
  auto it = std::lower_bound(S.mem.begin(), S.mem.end(), o->addr, [](const ObjRef& a, uint64_t x) { return a->addr < x; }); S.mem.insert(it, std::move(o));
}
bool Engine::eraseObj(State& S, uint64_t a) {
  auto it = std::lower_bound(S.mem.begin(), S.mem.end(), a, [](const ObjRef& x, uint64_t y) { return x->addr < y; });
  if (it == S.mem.end() || (*it)->addr != a) return false; S.mem.erase(it); return true;
}
uint64_t Engine::heapAlloc(State& S, int tid, uint64_t size, uint64_t al, bool noleak) {
  uint64_t m = (size + 15) / 16; if (!m) m = 1; uint64_t addr;
  if (al > 16) { uint64_t st = (m * 16 + al - 1) / al * al + al; uint32_t k2 = 0x10000 + m * 64 + __builtin_ctzll(al); auto& c2 = S.th[tid].allocCnt[k2]; addr = HEAP_BASE + ((uint64_t)tid << 36) + (1ull << 34) + (m & 0xfff) * (1ull << 22) + (uint64_t)__builtin_ctzll(al) * (1ull << 18) + (uint64_t)c2++ * st;
    auto* o = new Obj; o->addr = addr; o->size = size; o->kind = KHeap; o->noleak = noleak; o->b.assign(size, 0xCD); insertObj(S, ObjRef(o)); return addr; }
  uint32_t k = m >= 4096 ? 4096 : m; auto& c = S.th[tid].allocCnt[k];
  if (k < 4096) addr = HEAP_BASE + ((uint64_t)tid << 36) + (uint64_t)k * (1ull << 22) + (uint64_t)c * (m * 16 + 16);
  else addr = HEAP_BASE + ((uint64_t)tid << 36) + (1ull << 35) + (uint64_t)c * (1ull << 24);
  c++; (void)al;
  auto* o = new Obj; o->addr = addr; o->size = size; o->kind = KHeap; o->noleak = noleak; o->b.assign(size, 0xCD);
  insertObj(S, ObjRef(o)); return addr;
}
E Engine::readB(const Obj& o, uint32_t off, uint32_t n) {
  if (o.sym.empty()) { uint64_t v = 0; memcpy(&v, &o.b[off], n); return mkC(v, n * 8); }
  bool any = false; for (uint32_t i = 0; i < n; i++) if (o.sym[off + i].e) any = true;
  if (!any) { uint64_t v = 0; memcpy(&v, &o.b[off], n); return mkC(v, n * 8); }
  auto& s0 = o.sym[off];
  if (s0.e) { bool same = true; for (uint32_t i = 1; i < n; i++) if (o.sym[off + i].e != s0.e || o.sym[off + i].k != s0.k + i) { same = false; break; } if (same) return mkExtract(s0.e, s0.k * 8, n * 8); }
  E r = nullptr;
  for (int i = n - 1; i >= 0; i--) { auto& s = o.sym[off + i]; E b = s.e ? mkExtract(s.e, s.k * 8, 8) : mkC(o.b[off + i], 8); r = r ? mkConcat(r, b) : b; }
  return r;
}
void Engine::writeB(Obj& o, uint32_t off, E v) {
  if (v->w % 8) v = mkZExt(v, (v->w + 7) / 8 * 8);
  uint32_t n = v->w / 8;
  if (v->isC()) { memcpy(&o.b[off], &v->v, n); if (!o.sym.empty()) for (uint32_t i = 0; i < n; i++) o.sym[off + i] = SymB{nullptr, 0}; return; }
  if (o.sym.empty()) o.sym.assign(o.size, SymB{nullptr, 0});
  for (uint32_t i = 0; i < n; i++) { o.sym[off + i] = SymB{v, (uint8_t)i}; o.b[off + i] = 0; }
}
std::string Engine::where(State& S) {
  std::string r; auto& st = S.th[S.cur].st; int n = 0;
  for (int i = (int)st.f.size() - 1; i >= 0 && n < 14; i--) {
    auto* f = st.f[i].p; auto& P = f->fn->insts[f->pc]; std::string nm = demangle(f->fn->F->getName().str()); if (nm.size() > 110) nm = nm.substr(0, 107) + "...";
    std::string l; if (auto& d = P.I->getDebugLoc()) { auto* sc = d.get(); std::string fn = sc->getFilename().str(); auto p = fn.rfind('/'); l = (p == std::string::npos ? fn : fn.substr(p + 1)) + ":" + std::to_string(d.getLine());
      while (auto* ia = sc->getInlinedAt()) { sc = ia; std::string fn2 = sc->getFilename().str(); auto p2 = fn2.rfind('/'); l += "<" + (p2 == std::string::npos ? fn2 : fn2.substr(p2 + 1)) + ":" + std::to_string(sc->getLine()); } }
    r += (n ? "\n      at " : "at ") + nm + " [" + l + "]"; n++;
  }
  return "thread " + std::to_string(S.cur) + " " + r;
}
bool Engine::wanted(const std::string& kind, const std::string& msg) {
  if (gOpt.only.empty()) return true;
  for (auto& o : gOpt.only) if (o[0] == '~' ? kind == "assert" && msg.find(o.substr(1)) != std::string::npos : kind == o) return true;
  return false;
}
void Engine::violate(State& S, const std::string& kind, const std::string& msg) {
  if (!wanted(kind, msg)) { return; }
  if (replaying) { rverdict = kind + ": " + msg; return; }
  for (auto& v : viol) if (v.kind == kind && v.msg == msg) return;
  E full = S.guard; if (S.sg) full = mkAnd(full, S.sg); if (S.pend) full = mkAnd(full, S.pend);
  if (!evalE(full, *S.wit)) { ModelP m; int r = checkSat(full, mkB(true), S.wit.get(), &m); if (r != 1) { if (r < 0) inconclusive = "solver unknown at violation"; return; } S.wit = m; }
  viol.push_back({kind, msg, where(S), S.wit, full});
  if (gOpt.verbose) fprintf(stderr, "VIOL %s: %s\n   %s\n", kind.c_str(), msg.c_str(), viol.back().loc.c_str());
}
void Engine::unsupported(State& S, const std::string& w) { if (inconclusive.empty()) inconclusive = "unsupported: " + w + " " + where(S); if (replaying) rverdict = "unsupported"; if (gOpt.verbose) fprintf(stderr, "%s\n", inconclusive.c_str()); }
State* Engine::clone(State& S) { gStats.forks++; return new State(S); }

Val Engine::loadTy(State& S, uint64_t addr, Type* T, bool& ok) {
  Val r;
  if (T->isStructTy()) { auto* L = DL.getStructLayout(cast<StructType>(T)); std::vector<Val> v; for (unsigned i = 0; i < T->getStructNumElements() && ok; i++) v.push_back(loadTy(S, addr + L->getElementOffset(i), T->getStructElementType(i), ok)); r.a = mkAgg(v); return r; }
  if (T->isArrayTy() || T->isVectorTy()) { Type* et = T->isArrayTy() ? T->getArrayElementType() : cast<VectorType>(T)->getElementType(); unsigned n = T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements(); uint64_t es = DL.getTypeAllocSize(et);
    std::vector<Val> v; for (unsigned i = 0; i < n && ok; i++) v.push_back(loadTy(S, addr + i * es, et, ok)); r.a = mkAgg(v); return r; }
  unsigned w = widthOf(T, DL); if (w > 64) { unsupported(S, "wide load"); ok = false; return r; }
  uint32_t n = (w + 7) / 8; Obj* o = find(S, addr, n);
  if (!o) { char buf[100]; snprintf(buf, sizeof buf, "invalid read of %u bytes", n); violate(S, "memory", buf); ok = false; return r; }
  if (gOpt.raceMode && !o->ro) { racePlain(S, *o, addr - o->addr, n, false); o = find(S, addr, n); }
  E e = readB(*o, addr - o->addr, n); if (e->w != w) e = mkExtract(e, 0, w); r.e = e; return r;
}
bool Engine::storeTy(State& S, uint64_t addr, Type* T, const Val& v) {
  if (T->isStructTy()) { auto* L = DL.getStructLayout(cast<StructType>(T)); for (unsigned i = 0; i < T->getStructNumElements(); i++) if (!storeTy(S, addr + L->getElementOffset(i), T->getStructElementType(i), v.a ? v.a->v[i] : Val())) return false; return true; }
  if (T->isArrayTy() || T->isVectorTy()) { Type* et = T->isArrayTy() ? T->getArrayElementType() : cast<VectorType>(T)->getElementType(); unsigned n = T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements(); uint64_t es = DL.getTypeAllocSize(et);
    for (unsigned i = 0; i < n; i++) if (!storeTy(S, addr + i * es, et, v.a ? v.a->v[i] : Val())) return false; return true; }
  unsigned w = widthOf(T, DL); if (w > 64) { unsupported(S, "wide store"); return false; }
  uint32_t n = (w + 7) / 8; Obj* o = findMut(S, addr, n);
  if (!o) { char buf[100]; snprintf(buf, sizeof buf, "invalid write of %u bytes", n); violate(S, "memory", buf); return false; }
  if (gOpt.raceMode) { racePlain(S, *o, addr - o->addr, n, true); o = findMut(S, addr, n); }
  E e = v.e ? v.e : mkC(0, w); writeB(*o, addr - o->addr, e); return true;
}
// ---- forking
bool Engine::forkVals(State& S, Frame*, int slot, E e) {
  auto& fr = S.th[S.cur].st.f.back();
  auto push = [&](uint64_t v, E g) -> bool {
    ModelP m; int r = checkSat(S.guard, g, S.wit.get(), &m); if (r == 0) return false; if (r < 0) { inconclusive = "solver unknown"; return false; }
    State* c = clone(S); c->guard = mkAnd(S.guard, g); c->wit = m; c->th[c->cur].st.f.back().mut()->regs[slot].e = mkC(v, e->w); work.push_back(c); return true; };
  if (e->ct || e->w == 1) {
    std::vector<Leaf> ls; if (e->w == 1) ls = {{1, e}, {0, mkNot(e)}}; else ls = leavesOf(e);
    for (auto& l : ls) push(l.v, l.g);
    return false;
  }
  auto& P = fr->fn->insts[fr->pc]; char key[64]; snprintf(key, sizeof key, "%p", (void*)P.I);
  if (++concCount[key] > (uint64_t)gOpt.maxConc * 50) { incomplete = true; incompleteWhy = "concretisation bound reached " + where(S); return false; }
  uint64_t v = evalE(e, *S.wit); E eq = mkEq(e, mkC(v, e->w)); push(v, eq);
  ModelP m; int r = checkSat(S.guard, mkNot(eq), nullptr, &m);
  if (r < 0) inconclusive = "solver unknown";
  if (r == 1) { State* c = clone(S); c->guard = mkAnd(S.guard, mkNot(eq)); c->wit = m; work.push_back(c); }
  return false;
}
bool Engine::conc(State& S, PInst& P, int op, uint64_t& out) {
  auto& o = P.ops[op]; E e = o.slot >= 0 ? S.th[S.cur].st.f.back()->regs[o.slot].e : o.c.e;
  if (!e) { unsupported(S, "operand without scalar value"); return false; }
  if (e->isC()) { out = e->v; return true; }
  return forkVals(S, nullptr, o.slot, e);
}
// fork on a condition inside a handler; fn applied to each feasible child (child is pushed to work). S is consumed.
bool Engine::forkBool(State& S, E c, const std::function<void(State&, bool)>& fn) {
  if (c->isC()) { fn(S, c->v); return true; }
  for (int b = 0; b < 2; b++) { E g = b ? c : mkNot(c); ModelP m; int r = checkSat(S.guard, g, S.wit.get(), &m); if (r == 0) continue; if (r < 0) { inconclusive = "solver unknown"; continue; }
    State* n = clone(S); n->guard = mkAnd(S.guard, g); n->wit = m; fn(*n, b); work.push_back(n); }
  return false;
}
// ---- frames
void Engine::pushFrame(State& S, Function* F, const std::vector<Val>& args) {
  FnInfo* fi = info(F); fi->execs++; auto* f = new Frame; f->fn = fi; f->regs.resize(fi->nslots); for (size_t i = 0; i < args.size() && i < F->arg_size(); i++) f->regs[i] = args[i];
  auto& st = S.th[S.cur].st; f->spSave = st.sp; f->pc = 0; st.f.push_back(FrameRef(f));
}
void Engine::popFrame(State& S) { auto& st = S.th[S.cur].st; auto f = st.f.back(); for (auto a : f->allocas) { if (gOpt.raceMode && raceOn(S)) if (Obj* o = find(S, a, 0)) if (o->acc || !o->sh.empty()) raceFree(S, *findMut(S, a, 0)); eraseObj(S, a); } st.sp = f->spSave; st.f.pop_back(); }
void Engine::gotoBB(State& S, int bb) {
  auto& fr = S.th[S.cur].st.f.back(); Frame* f = fr.mut(); auto* fi = f->fn; BasicBlock* from = fi->bbs[fi->insts[f->pc].bb];
  size_t k = fi->bbStart[bb]; std::vector<std::pair<int, Val>> nv;
  for (; k < fi->insts.size() && fi->insts[k].opc == Instruction::PHI && fi->insts[k].bb == bb; k++) {
    auto& P = fi->insts[k]; auto* ph = cast<PHINode>(P.I); int i = ph->getBasicBlockIndex(from); auto& o = P.ops[i]; nv.push_back({P.dst, o.slot >= 0 ? f->regs[o.slot] : o.c}); }
  for (auto& p : nv) f->regs[p.first] = p.second;
  f->pc = k; f->cleanPc = -1;
}
R Engine::ret(State& S, PInst& P, Val v) { // set result of current call-like instr and advance
  Frame* f = S.th[S.cur].st.f.back().mut(); if (P.dst >= 0) f->regs[P.dst] = v;
  if (P.opc == Instruction::Invoke) gotoBB(S, f->fn->bbIdx[cast<InvokeInst>(P.I)->getNormalDest()]); else f->pc++;
  return R::Go;
}
R Engine::doReturn(State& S, const Val& v) {
  auto& t = S.th[S.cur]; popFrame(S);
  if (t.st.f.empty()) { t.status = 1; t.acqF = nullptr; if (gOpt.raceMode && t.vc) { t.relF = hbRelease(S, S.cur); } event(S, nullptr, 'E'); return R::Stop; }
  auto& fr = t.st.f.back(); auto& P = fr->fn->insts[fr->pc]; return ret(S, P, v);
}
// ---- exceptions
int Engine::tiId(uint64_t ti) { auto it = tiIds.find(ti); if (it != tiIds.end()) return it->second; return tiIds[ti] = nextTi++; }
bool Engine::tiMatch(uint64_t t, uint64_t c) {
  static const std::map<std::string, std::string> par = {{"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"},
    {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}};
  for (int d = 0; d < 16; d++) {
    if (t == c) return true;
    auto it = gvByAddr.find(t); if (it == gvByAddr.end()) return false; auto* gv = it->second;
    if (gv->hasInitializer()) {
      auto* ci = gv->getInitializer(); if (ci->getNumOperands() < 3) return false;
      auto* vt = ci->getOperand(0); std::string vn; if (auto* g = dyn_cast<GlobalValue>(vt->stripInBoundsOffsets())) vn = g->getName().str(); else if (auto* g2 = dyn_cast<GlobalValue>(cast<ConstantExpr>(vt)->getOperand(0))) vn = g2->getName().str();
      if (vn.find("vmi_class") != std::string::npos) { for (unsigned i = 4; i < ci->getNumOperands(); i += 2) { Val b = constVal(cast<Constant>(ci->getOperand(i))); if (b.e && tiMatch(b.e->v, c)) return true; } return false; }
      if (vn.find("si_class") == std::string::npos) return false;
      Val b = constVal(cast<Constant>(ci->getOperand(2))); if (!b.e) return false; t = b.e->v; continue;
    }
    auto p = par.find(gv->getName().str()); if (p == par.end()) return false; auto* g = M.getNamedGlobal(p->second); if (!g) return false; t = gaddr[g];
  }
  return false;
}
R Engine::unwind(State& S, uint64_t rec, uint64_t ti) {
  auto& st = S.th[S.cur].st;
  // search phase
  bool found = false;
  for (int i = (int)st.f.size() - 1; i >= 0 && !found; i--) {
    auto& fr = st.f[i]; auto& P = fr->fn->insts[fr->pc];
    if (P.opc == Instruction::Invoke) {
      auto* lp = cast<InvokeInst>(P.I)->getLandingPadInst();
      for (unsigned k = 0; k < lp->getNumClauses(); k++) { if (lp->isCatch(k)) { Val c = constVal(lp->getClause(k)); if (!c.e || c.e->v == 0 || tiMatch(ti, c.e->v)) found = true; } else found = true; }
    } else if (P.opc == Instruction::Call && fr->fn->F->doesNotThrow() && cast<CallInst>(P.I)->doesNotThrow()) break;
  }
  if (!found) { violate(S, "terminate", "uncaught exception: std::terminate"); return R::Drop; }
  while (!st.f.empty()) {
    auto& fr = st.f.back(); auto& P = fr->fn->insts[fr->pc];
    if (P.opc == Instruction::Invoke) {
      auto* lp = cast<InvokeInst>(P.I)->getLandingPadInst(); int sel = 0; bool hit = lp->isCleanup();
      for (unsigned k = 0; k < lp->getNumClauses(); k++) if (lp->isCatch(k)) { Val c = constVal(lp->getClause(k)); uint64_t ca = c.e ? c.e->v : 0; if (!ca || tiMatch(ti, ca)) { sel = tiId(ca); hit = true; break; } } else { hit = true; sel = 0x7ffffff; break; }
      if (hit) { auto& t = S.th[S.cur]; t.excRec = rec; t.excSel = sel; gotoBB(S, fr->fn->bbIdx[lp->getParent()]); return R::Go; }
    }
    popFrame(S);
  }
  violate(S, "terminate", "uncaught exception: std::terminate"); return R::Drop;
}
#include "exec.inc"
#include "sched.inc"
