// Scheduling, merging, exploration, concrete replay, happens-before. Included at the end of engine.cpp.
static size_t rssMB() { FILE* f = fopen("/proc/self/statm", "r"); if (!f) return 0; long a = 0, b = 0; if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); return (size_t)b * 4096 / 1048576; }
void Engine::tick() {
  if (aborting) return; double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (el > gOpt.timeout) { aborting = true; incomplete = true; incompleteWhy = "time limit"; }
  static uint64_t k = 0; if ((++k & 63) == 0 && rssMB() > gOpt.memMB) { aborting = true; incomplete = true; incompleteWhy = "memory limit"; }
}
int Engine::alive(State& S) { int n = 0; for (auto& t : S.th) n += t.status == 0; return n; }
bool Engine::isShared(uint64_t addr, int tid, State& S) {
  if (S.th.size() <= 1) return false; auto it = gvByAddr.upper_bound(addr); if (addr < GHOST && it != gvByAddr.begin()) { --it; if (it->second->getName().starts_with("_ZGV")) return false; }
  if (sharedSet.count(addr)) return true; auto& m = accMask[addr]; m |= 1u << tid; if (__builtin_popcount(m) >= 2) { sharedSet.insert(addr); newShared = true; return true; } return false;
}
E Engine::mutexHeld(State& S, uint64_t m) { Obj* o = find(S, m, 4); if (!o) return mkB(false); return mkNot(mkEq(readB(*o, m - o->addr, 4), mkC(0, 32))); }
bool Engine::visibleNow(State& S) {
  auto& th = S.th[S.cur]; auto* f = th.st.f.back().p; auto& P = f->fn->insts[f->pc]; if (!P.visible) return false;
  if (P.visible == V_SWAPCTX || P.visible == V_MERGE) return true;
  if (th.stage != SgNone) return true;
  auto arg = [&](int i) -> E { auto& o = P.ops[i]; return o.slot < 0 ? o.c.e : f->regs[o.slot].e; };
  int n = alive(S);
  switch (P.visible) {
    case V_ATOMIC: { if (n <= 1) return false; E a = arg(P.opc == Instruction::Store ? 1 : 0); if (!a || !a->isC()) return false; return isShared(a->v, S.cur, S); }
    case V_LOCK: case V_TRYLOCK: { E a = arg(0); if (!a || !a->isC()) return false; bool sh = n > 1 && isShared(a->v, S.cur, S); E h = mutexHeld(S, a->v); if (P.visible == V_LOCK && !h->isF()) return true; return sh; }
    case V_CVWAIT: { E a = arg(0), b = arg(1); if (!a || !b || !a->isC() || !b->isC()) return false; isShared(a->v, S.cur, S); isShared(b->v, S.cur, S); return true; }
    case V_NOTIFY: { E a = arg(0); if (!a || !a->isC()) return false; return n > 1 && isShared(a->v, S.cur, S); }
    case V_YIELD: return n > 1;
    case V_JOIN: { E a = arg(0); if (!a || !a->isC()) return false; return a->v < S.th.size() && S.th[a->v].status == 0; }
    default: return false;
  }
}
E Engine::stageEnabled(State& S, int t, bool& sync) {
  auto& th = S.th[t]; sync = false; if (th.status) return mkB(false); if (th.stage == SgFresh) return mkB(true); if (th.st.f.empty()) return mkB(false);
  auto* f = th.st.f.back().p; auto& P = f->fn->insts[f->pc]; auto arg = [&](int i) -> E { auto& o = P.ops[i]; return o.slot < 0 ? o.c.e : f->regs[o.slot].e; };
  if (th.stage == SgCvWait) return mkB(false);
  if (th.stage == SgNotified || th.stage == SgTimedOut || th.stage == SgSpurious) return mkNot(mutexHeld(S, th.wmx));
  if (P.visible == V_LOCK) return mkNot(mutexHeld(S, arg(0)->v));
  if (P.visible == V_JOIN) { uint64_t u = arg(0)->v; return mkB(u < S.th.size() && S.th[u].status != 0); }
  return mkB(true);
}
int Engine::curSite(State& S) { auto& st = S.th[S.cur].st; if (st.f.empty()) return 0; return st.f.back()->fn->insts[st.f.back()->pc].site; }
void Engine::event(State& S, PInst* P, char kind) {
  if (!replaying) return; int site = P ? P->site : 0;
  revents->push_back({S.cur, site, kind});
}
// ---- configuration hashing / merging
static uint64_t hmix(uint64_t h, uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 33); }
static uint64_t hStack(uint64_t h, const Stack& s) { for (auto& f : s.f) { h = hmix(h, f->fn->id); h = hmix(h, f->pc); h = hmix(h, f->allocas.size()); } return h; }
uint64_t Engine::confHash(State& S, bool withMem) {
  uint64_t h = S.th.size(); for (auto& t : S.th) { h = hmix(h, t.status * 8 + t.stage); h = hmix(h, t.wcv); h = hStack(h, t.st); if (!gOpt.fiber) for (auto& p : t.allocCnt) h = hmix(h, p.first * 65536ull + p.second); }
  for (auto& c : S.ctxs) { h = hmix(h, c.first); h = hStack(h, c.second); }
  h = hmix(h, S.spurCas * 16 + S.spurCv); h = hmix(h, S.ckey); if (withMem) for (auto& o : S.mem) h = hmix(h, o->addr); return h;
}
static bool eqStack(const Stack& a, const Stack& b) { if (a.f.size() != b.f.size() || a.sp != b.sp || a.base != b.base) return false; for (size_t i = 0; i < a.f.size(); i++) { if (a.f[i] == b.f[i]) continue; auto &x = *a.f[i].p, &y = *b.f[i].p; if (x.fn != y.fn || x.pc != y.pc || x.spSave != y.spSave || x.allocas != y.allocas) return false;
    for (size_t k = 0; k < x.regs.size(); k++) { bool ax = x.regs[k].a, ay = y.regs[k].a; if ((ax && y.regs[k].e) || (ay && x.regs[k].e)) return false; } } return true; }
bool Engine::confEq(State& A, State& B) {
  if (A.th.size() != B.th.size() || A.mem.size() != B.mem.size() || A.ctxs.size() != B.ctxs.size() || A.spurCas != B.spurCas || A.spurCv != B.spurCv || A.ckey != B.ckey || A.nestStatic != B.nestStatic) return false;
  for (size_t i = 0; i < A.th.size(); i++) { auto &x = A.th[i], &y = B.th[i]; if (x.status != y.status || x.stage != y.stage || x.wcv != y.wcv || x.wmx != y.wmx || x.timed != y.timed || x.excRec != y.excRec || x.excSel != y.excSel || !eqStack(x.st, y.st)) return false; if (!gOpt.fiber && x.allocCnt != y.allocCnt) return false; if (!x.deadline != !y.deadline) return false; if (!x.vc != !y.vc) return false; }
  auto i = A.ctxs.begin(), j = B.ctxs.begin(); for (; i != A.ctxs.end(); ++i, ++j) if (i->first != j->first || !eqStack(i->second, j->second)) return false;
  for (size_t k = 0; k < A.mem.size(); k++) { if (A.mem[k] == B.mem[k]) continue; if (A.mem[k]->addr != B.mem[k]->addr || A.mem[k]->size != B.mem[k]->size) return false; }
  return true;
}
static bool symEq(const Obj& a, const Obj& b) {
  if (a.sym.empty() && b.sym.empty()) return true;
  for (uint32_t i = 0; i < a.size; i++) { E x = a.sym.empty() ? nullptr : a.sym[i].e, y = b.sym.empty() ? nullptr : b.sym[i].e; if (x != y) return false; if (x && a.sym[i].k != b.sym[i].k) return false; } return true;
}
static bool shEq(const Obj& a, const Obj& b) { return a.acc == b.acc && a.sync == b.sync && (a.sh == b.sh || (a.sh.empty() && b.sh.empty())); }
static bool regsEq(const Stack& a, const Stack& b) { for (size_t i = 0; i < a.f.size(); i++) { if (a.f[i] == b.f[i]) continue; if (!(a.f[i]->regs == b.f[i]->regs)) return false; } return true; }
bool Engine::sameData(State& A, State& B) { // assumes confEq
  if (A.vtime != B.vtime) return false;
  for (size_t i = 0; i < A.th.size(); i++) { auto &x = A.th[i], &y = B.th[i]; if (!regsEq(x.st, y.st) || x.deadline != y.deadline || x.vc != y.vc || x.relF != y.relF || x.acqF != y.acqF || (gOpt.raceMode && x.dirty != y.dirty)) return false; }
  auto i = A.ctxs.begin(), j = B.ctxs.begin(); for (; i != A.ctxs.end(); ++i, ++j) if (!regsEq(i->second, j->second)) return false;
  for (size_t k = 0; k < A.mem.size(); k++) { if (A.mem[k] == B.mem[k]) continue; auto &a = *A.mem[k].p, &b = *B.mem[k].p; if (a.b != b.b || !symEq(a, b) || !shEq(a, b)) return false; }
  return true;
}
static uint64_t dStack(uint64_t h, const Stack& s) { for (auto& f : s.f) for (auto& r : f->regs) h = hmix(h, (r.e ? r.e->id + 1 : 0) + (uint64_t)(r.a ? r.a->id + 1 : 0) * 4294967296ull); return h; }
uint64_t Engine::dataHash(State& S) {
  uint64_t h = confHash(S); h = hmix(h, S.vtime->id); for (auto& t : S.th) { h = dStack(h, t.st); h = hmix(h, t.vc ? t.vc->id : 0); if (gOpt.raceMode) { h = hmix(h, t.relF ? t.relF->id + 1 : 0); h = hmix(h, t.acqF ? t.acqF->id + 1 : 0); h = hmix(h, t.dirty); } } for (auto& c : S.ctxs) h = dStack(h, c.second);
  for (auto& o : S.mem) { Obj* p = o.p; if (!p->hash) { uint64_t q = 7; for (size_t i = 0; i + 8 <= p->b.size(); i += 8) { uint64_t v; memcpy(&v, &p->b[i], 8); q = hmix(q, v); } for (size_t i = p->b.size() & ~7ull; i < p->b.size(); i++) q = hmix(q, p->b[i]); for (auto& s : p->sym) if (s.e) q = hmix(q, s.e->id * 8ull + s.k); if (gOpt.raceMode) { q = hmix(q, p->acc ? p->acc->id + 1 : 0); for (auto& y : p->sync) if (y.second) q = hmix(hmix(q, y.first), y.second->id); CellP lc = nullptr; for (size_t i = 0; i < p->sh.size(); i++) if (p->sh[i] != lc) { lc = p->sh[i]; q = hmix(hmix(q, i), lc->id); } } p->hash = q | 1; } h = hmix(h, p->hash); }
  return h;
}
static void mergeRange(Engine* en, Obj& a, const Obj& b, uint32_t off, uint32_t n, E g, const std::function<E(const Obj&, uint32_t, uint32_t)>& rd, const std::function<void(Obj&, uint32_t, E)>& wr) {
  auto sa = [&](const Obj& o, uint32_t i) -> E { return o.sym.empty() ? nullptr : o.sym[i].e; };
  auto eqAt = [&](uint32_t i) { E x = sa(a, i), y = sa(b, i); if (x != y) return false; if (x) return a.sym[i].k == b.sym[i].k; return a.b[i] == b.b[i]; };
  bool same = true; for (uint32_t i = off; i < off + n && same; i++) same = eqAt(i); if (same) return;
  if (n > 1) {
    uint32_t h = off + n / 2; auto cuts = [&](const Obj& o) { E x = sa(o, h - 1), y = sa(o, h); return x && x == y && o.sym[h].k == o.sym[h - 1].k + 1; };
    if (!cuts(a) && !cuts(b)) {
      bool anySym = false; for (uint32_t i = off; i < off + n; i++) if (sa(a, i) || sa(b, i)) anySym = true;
      bool lo = true, hi = true; for (uint32_t i = off; i < h; i++) if (!eqAt(i)) lo = false; for (uint32_t i = h; i < off + n; i++) if (!eqAt(i)) hi = false;
      if (lo || hi || (anySym && n <= 8 && (sa(a, off) ? sa(a, off)->w / 8 < n : true) && (sa(b, off) ? sa(b, off)->w / 8 < n : true) && false)) { mergeRange(en, a, b, off, n / 2, g, rd, wr); mergeRange(en, a, b, h, n - n / 2, g, rd, wr); return; }
      // both halves differ: split when some half is covered by separate symbolic expressions
      bool sep = false; for (const Obj* o : {(const Obj*)&a, &b}) { E x = sa(*o, off), y = sa(*o, h); if ((x || y) && x != y) sep = true; }
      if (sep) { mergeRange(en, a, b, off, n / 2, g, rd, wr); mergeRange(en, a, b, h, n - n / 2, g, rd, wr); return; }
    }
  }
  wr(a, off, mkIte(g, rd(b, off, n), rd(a, off, n)));
}
static VCP vcI(E g, VCP b, VCP a) { if (a == b) return a; if (!a) a = vcZero(); if (!b) b = vcZero(); return vcIte(g, b, a); }
void Engine::mergeInto(State& A, State& B) {
  gStats.merges++; E g = B.guard;
  auto mStack = [&](Stack& x, const Stack& y) { for (size_t i = 0; i < x.f.size(); i++) { if (x.f[i] == y.f[i]) continue; Frame* f = x.f[i].mut(); auto& r = y.f[i]->regs; for (size_t k = 0; k < f->regs.size(); k++) if (!(f->regs[k] == r[k])) f->regs[k] = iteVal(g, r[k], f->regs[k]); } };
  for (size_t i = 0; i < A.th.size(); i++) { auto &x = A.th[i], &y = B.th[i]; mStack(x.st, y.st); if (x.deadline != y.deadline) x.deadline = mkIte(g, y.deadline, x.deadline); if (x.vc != y.vc) x.vc = vcI(g, y.vc, x.vc); if (x.relF != y.relF) x.relF = vcI(g, y.relF, x.relF); if (x.acqF != y.acqF) x.acqF = vcI(g, y.acqF, x.acqF); x.dirty |= y.dirty; if (gOpt.fiber) for (auto& p : y.allocCnt) { auto& c = x.allocCnt[p.first]; c = std::max(c, p.second); } }
  auto i = A.ctxs.begin(); auto j = B.ctxs.begin(); for (; i != A.ctxs.end(); ++i, ++j) mStack(i->second, j->second);
  A.vtime = mkIte(g, B.vtime, A.vtime);
  for (size_t k = 0; k < A.mem.size(); k++) {
    if (A.mem[k] == B.mem[k]) continue; Obj& b = *B.mem[k].p; if (A.mem[k]->b == b.b && symEq(*A.mem[k].p, b) && shEq(*A.mem[k].p, b)) continue;
    Obj& a = *A.mem[k].mut(); a.hash = 0; a.noleak |= b.noleak;
    for (uint32_t off = 0; off < a.size; off += 8) { uint32_t n = std::min<uint32_t>(8, a.size - off); uint32_t p = 0; while (p < n) { uint32_t q = 8; while (q > n - p) q /= 2; mergeRange(this, a, b, off + p, q, g, [&](const Obj& o, uint32_t f, uint32_t m) { return readB(o, f, m); }, [&](Obj& o, uint32_t f, E v) { writeB(o, f, v); }); p += q; } }
    if (a.acc != b.acc) a.acc = vcI(g, b.acc, a.acc);
    if (a.sync != b.sync) { for (auto& p : b.sync) { auto& c = a.sync[p.first]; c = vcI(g, p.second, c); } for (auto& p : a.sync) if (!b.sync.count(p.first)) p.second = vcI(g, vcZero(), p.second); }
    if (!(a.sh.empty() && b.sh.empty()) && a.sh != b.sh) { if (a.sh.empty()) a.sh.assign(a.size, cellZero()); for (uint32_t q = 0; q < a.size; q++) { CellP x = a.sh[q], y = b.sh.empty() ? cellZero() : b.sh[q]; if (x != y) { if (q && a.size && b.sh.size() && false) {} a.sh[q] = mkCell(vcI(g, y->w, x->w), vcI(g, y->r, x->r), vcI(g, y->aw, x->aw), vcI(g, y->ar, x->ar)); } } }
  }
  A.guard = mkOr(A.guard, B.guard); A.nStep = std::max(A.nStep, B.nStep);
}
// ---- exploration
static void addPend(State* S) { addChoice(S, S->pend); S->pend = nullptr; }
void Engine::finalState(State& S) {
  gStats.finals++; if (gOpt.leak && !replaying) {
    for (auto& o : S.mem) if (o->kind == KHeap && !o->noleak) { violate(S, "leak", "heap object of " + std::to_string(o->size) + " bytes never released"); break; } }
  if (replaying && gOpt.leak) for (auto& o : S.mem) if (o->kind == KHeap && !o->noleak) { rverdict = "leak: heap object of " + std::to_string(o->size) + " bytes never released"; break; }
  if (!replaying && finalModels.size() < 6) { if (!evalE(S.guard, *S.wit)) { ModelP m; if (checkSat(S.guard, mkB(true), S.wit.get(), &m) == 1) S.wit = m; else return; } finalModels.push_back(S.wit); }
}
void Engine::finishStep(State* S) {
  S->grant = false; S->xsame = 0;
  if (S->th[0].status != 0) { if (parent && S->pend) { survivors = mkOr(survivors, S->guard); addPend(S); } if (S->node >= 0 && parent) nodeGood[S->node] = 1; finalState(*S); delete S; return; }
  clean(*S);
  if (parent && confEq(*S, *parent) && sameData(*S, *parent)) { gStats.stutters++; stutters = mkOr(stutters, S->guard); delete S; return; }
  if (parent) survivors = mkOr(survivors, S->guard);
  if (S->pend) { addPend(S); }
  insertLayer(S);
}
// input constraints on variables that no longer occur anywhere in the state cannot influence its future: keep them only for the counterexample
static void liveStack(const Stack& s, std::vector<E>& v) {
  std::function<void(const Val&)> add = [&](const Val& x) { if (x.e && !x.e->isC()) v.push_back(x.e); if (x.a) for (auto& y : x.a->v) add(y); };
  for (auto& f : s.f) for (auto& r : f->regs) add(r);
}
static void forgetDead(State& S) {
  if (S.guard->isC()) return; std::vector<E> v; auto add = [&](E e) { if (e && !e->isC()) v.push_back(e); };
  add(S.vtime); for (auto& t : S.th) { liveStack(t.st, v); add(t.deadline); } for (auto& c : S.ctxs) liveStack(c.second, v);
  for (auto& o : S.mem) { E last = nullptr; for (auto& s : o->sym) if (s.e && s.e != last) { last = s.e; add(last); } }
  E rest; E live = splitGuard(S.guard, v, &rest); if (rest->isT()) { S.guard = live; return; }
  S.guard = live; S.sg = S.sg ? mkAnd(S.sg, rest) : rest;
}
void Engine::insertLayer(State* S) {
  if (gOpt.exact) {
    if (!gOpt.raceMode && !replaying) forgetDead(*S);
    auto& v = nextLayer[dataHash(*S)];
    if (!replaying) for (auto* q : v) if (q->guard == S->guard && confEq(*q, *S) && sameData(*q, *S)) { gStats.merges++; q->prevs.push_back(S->node); if (q->sg && S->sg) q->sg = mkOr(q->sg, S->sg); else q->sg = nullptr; delete S; return; }
    S->prevs.assign(1, S->node); v.push_back(S); nextCount++; if (nextCount > gStats.maxLayer) gStats.maxLayer = nextCount; return;
  }
  auto& v = nextLayer[confHash(*S)];
  if (!gOpt.noMerge && !replaying) for (auto* q : v) if (confEq(*q, *S)) { if (S->node >= 0 && q->prevs.empty()) {} q->prevs.push_back(S->node); mergeInto(*q, *S); delete S; return; }
  S->prevs.assign(1, S->node); v.push_back(S); nextCount++; if (nextCount > gStats.maxLayer) gStats.maxLayer = nextCount;
}
void Engine::runLocal(State* S) {
  while (true) {
    if (aborting) { delete S; return; }
    auto& t = S->th[S->cur]; if (t.status) { finishStep(S); return; }
    if (!S->grant && visibleNow(*S)) { finishStep(S); return; }
    R r = exec(*S); if (r == R::Drop) { delete S; return; } if (r == R::Stop) { finishStep(S); return; }
    S->grant = false;
  }
}
void Engine::drain() { while (!work.empty()) { State* S = work.back(); work.pop_back(); runLocal(S); } }
State* Engine::initialState() {
  auto* S = new State; S->guard = mkB(true); S->wit = std::make_shared<Model>(); S->vtime = mkC(1000000000ull, 64); S->mem = initMem; S->spurCas = gOpt.spurCas; S->spurCv = gOpt.spurCv;
  Thread t; t.st.base = STK_BASE; t.st.sp = 16; S->th.push_back(t); S->cur = 0; parent = nullptr;
  if (auto* gc = M.getNamedGlobal("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
    std::vector<std::pair<uint64_t, Function*>> fs; for (auto& o : ca->operands()) { auto* s = cast<ConstantStruct>(o); if (auto* f = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) fs.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), f}); }
    std::stable_sort(fs.begin(), fs.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& f : fs) { pushFrame(*S, f.second, {}); while (S->th[0].status == 0) { R r = exec(*S); if (r == R::Drop) { if (inconclusive.empty()) inconclusive = "static initialisation failed"; for (auto* w : work) delete w; work.clear(); delete S; return nullptr; } if (r == R::Stop) break; } S->th[0].status = 0; }
  }
  for (auto& o : S->mem) if (o->kind == KHeap) o.mut()->noleak = true;
  Obj* g = findMut(*S, GHOST, 8); writeB(*g, 0, mkC(0, 64));
  auto* mf = M.getFunction("vf_main"); if (!mf) { inconclusive = "no vf_main"; delete S; return nullptr; }
  pushFrame(*S, mf, {}); if (gOpt.raceMode) raceInit(*S); return S;
}
void Engine::reset() {
  for (auto& p : nextLayer) for (auto* s : p.second) delete s; nextLayer.clear(); nextCount = 0; for (auto& p : seen) for (auto* s : p.second) delete s; seen.clear(); seenX.clear(); nodeWit.clear();
  for (auto* w : work) delete w; work.clear(); viol.clear(); reached.clear(); finalModels.clear(); edges.clear(); nodeGood.clear(); concCount.clear(); layer = 0; incomplete = false; incompleteWhy.clear(); newShared = false;
  uint64_t rs = gStats.restarts, q = gStats.instrs; gStats = Stats(); gStats.restarts = rs; gStats.instrs = q;
}
void Engine::addNode(State* S) { int id = edges.size(); edges.push_back({}); nodeGood.push_back(0); for (int p : S->prevs) if (p >= 0) edges[p].push_back(id); S->node = id; }
bool Engine::exploreOnce() {
  State* s = initialState(); if (!s) return false; layer = 0; parent = nullptr; survivors = stutters = mkB(false); s->node = -1; work.push_back(s); drain();
  while (nextCount && !aborting && !newShared) {
    if (layer >= gOpt.maxLayers) { incomplete = true; incompleteWhy = "step bound " + std::to_string(gOpt.maxLayers) + " reached"; break; }
    if ((int)viol.size() >= gOpt.maxViol) { incomplete = true; incompleteWhy = "violation limit"; break; }
    auto cur = std::move(nextLayer); nextLayer.clear(); nextCount = 0; layer++; gStats.layers++;
    std::vector<std::pair<uint64_t, State*>> ord; for (auto& p : cur) for (auto* q : p.second) ord.push_back({p.first, q}); std::sort(ord.begin(), ord.end(), [](auto& a, auto& b) { return a.first < b.first; });
    if (gOpt.verbose && layer % 10 == 0) fprintf(stderr, "layer %d states %zu merges %lu queries %lu instrs %lu rss %zu\n", layer, ord.size(), gStats.merges, gSolver.queries, gStats.instrs, rssMB());
    for (auto& p : ord) { if (aborting) { delete p.second; continue; } step(p.second); if (gStats.states > gOpt.maxStates) { aborting = true; incomplete = true; incompleteWhy = "state limit"; } }
  }
  return true;
}
void Engine::step(State* S) {
  gStats.states++;
  if (!replaying) {
    addNode(S); uint64_t h = dataHash(*S);
    if (gOpt.exact) { // visited states are remembered by a 64-bit hash and their input constraint
      nodeWit.resize(edges.size()); auto& v = seenX[h];
      for (auto& q : v) { ModelP m; if (q.first == S->guard || checkSat(S->guard, mkNot(q.first), nullptr, &m) == 0) { gStats.stutters++; edges[S->node].push_back(q.second); delete S; return; } }
      v.push_back({S->guard, S->node}); nodeWit[S->node] = S->wit;
    } else { auto& v = seen[h];
    for (auto* q : v) if (confEq(*q, *S) && sameData(*q, *S)) { ModelP m; int r = checkSat(S->guard, mkNot(q->guard), nullptr, &m); if (r == 0) { gStats.stutters++; edges[S->node].push_back(q->node); delete S; return; } }
    v.push_back(S); }
  }
  struct Ch { int t, a; E en; }; std::vector<Ch> ch; E any = mkB(false);
  for (int t = 0; t < (int)S->th.size(); t++) {
    bool sync; E en = stageEnabled(*S, t, sync); if (!en->isF()) ch.push_back({t, 0, en});
    if (S->th[t].status == 0 && S->th[t].stage == SgCvWait) { if (S->th[t].timed) ch.push_back({t, 1, mkB(true)}); if (S->spurCv > 0) ch.push_back({t, 2, mkB(true)}); }
  }
  for (auto& c : ch) if (c.a != 2) any = mkOr(any, c.en);
  if (replaying) {
    std::vector<Ch> en; for (auto& c : ch) if (evalE(c.en, rmodel)) en.push_back(c);
    bool real = false; for (auto& c : en) real |= c.a != 2;
    if (!real) { rverdict = "deadlock: no thread can make progress"; delete S; return; }
    size_t k = 0; std::string nm = "s" + std::to_string(layer); E sv = mkVar(nm, 5); uint64_t code = rmodel.get(sv->v); for (size_t i = 0; i < en.size(); i++) if ((uint64_t)(en[i].t + 8 * en[i].a) == code) k = i;
    auto c = en[k]; S->cur = c.t; S->nStep = 0; S->xsame = 0; S->pend = nullptr; gStats.transitions++;
    if (c.a) { S->th[c.t].stage = c.a == 1 ? SgTimedOut : SgSpurious; if (c.a == 1) revents->push_back({c.t, 0, 'T'}); else { S->spurCv--; revents->push_back({c.t, 0, 'P'}); } insertLayer(S); return; }
    if (S->th[c.t].stage == SgFresh) { S->th[c.t].stage = SgNone; revents->push_back({c.t, 0, 'B'}); S->grant = false; } else S->grant = true;
    work.push_back(S); drain(); return;
  }
  gStats.deadlockChecks++;
  if (!any->isT()) { ModelP m; E na = mkNot(any); int r = checkSat(S->guard, na, S->wit.get(), &m); if (r < 0) inconclusive = "solver unknown at deadlock check"; if (r == 1) { State* q = clone(*S); q->guard = mkAnd(S->guard, na); q->wit = m; nodeGood[S->node] = 1;
      std::string who; for (size_t t = 0; t < q->th.size(); t++) if (q->th[t].status == 0) { q->cur = t; who = t == 0 && who.empty() ? "" : who; } q->cur = 0; for (size_t t = 0; t < q->th.size(); t++) if (q->th[t].status == 0) { q->cur = t; break; }
      violate(*q, "deadlock", "no thread can make progress"); delete q; } }
  parent = S; survivors = stutters = mkB(false); std::vector<Ch> ok; std::vector<ModelP> ms;
  for (auto& c : ch) { ModelP m = S->wit; if (!c.en->isT() || !evalE(S->guard, *S->wit)) { int r = checkSat(S->guard, c.en, S->wit.get(), &m); if (r < 0) inconclusive = "solver unknown"; if (r != 1) continue; } ok.push_back(c); ms.push_back(m); }
  size_t v0 = viol.size(); anyDrop = false;
  for (size_t i = 0; i < ok.size(); i++) {
    auto& c = ok[i]; State* n = clone(*S); n->guard = mkAnd(S->guard, c.en); n->wit = ms[i]; n->prevs.clear(); n->choices = 0; gStats.transitions++;
    if (ok.size() > 1) { E sv = mkVar("s" + std::to_string(layer), 5); uint64_t code = c.t + 8 * c.a; n->pend = mkEq(sv, mkC(code, 5)); auto m = std::make_shared<Model>(*ms[i]); m->set(sv->v, code); n->wit = m; } else n->pend = nullptr;
    n->cur = c.t; n->nStep = 0; n->xsame = 0; n->node = S->node;
    if (c.a) { n->th[c.t].stage = c.a == 1 ? SgTimedOut : SgSpurious; if (c.a == 2) n->spurCv--; survivors = mkOr(survivors, n->guard); if (n->pend) { addPend(n); } insertLayer(n); continue; }
    if (n->th[c.t].stage == SgFresh) { n->th[c.t].stage = SgNone; n->grant = false; } else n->grant = true;
    work.push_back(n); drain(); if (aborting || newShared) break;
  }
  if (viol.size() != v0) nodeGood[S->node] = 1;
  if (!aborting && !newShared && !stutters->isF() && viol.size() == v0) {
    E st = mkAnd(stutters, mkNot(survivors)); ModelP m; int r = st->isF() ? 0 : checkSat(S->guard, st, nullptr, &m);
    if (r == 1) { State* q = clone(*S); q->guard = mkAnd(S->guard, st); q->wit = m; q->pend = nullptr; violate(*q, "livelock", "every enabled thread only spins"); delete q; nodeGood[S->node] = 1; }
  }
  parent = nullptr;
  if (gOpt.exact) delete S;
}
void Engine::explore() {
  t0 = std::chrono::steady_clock::now(); aborting = false;
  while (true) {
    reset(); exploreOnce(); if (newShared && !aborting) { gStats.restarts++; continue; } break;
  }
  if (!aborting && !incomplete && inconclusive.empty() && viol.empty() && wanted("livelock", "")) { // every explored node must be able to reach a final state
    size_t n = edges.size(); std::vector<std::vector<int>> rev(n); for (size_t i = 0; i < n; i++) for (int j : edges[i]) rev[j].push_back(i);
    std::vector<int> st; std::vector<char> good(n); for (size_t i = 0; i < n; i++) if (nodeGood[i]) { good[i] = 1; st.push_back(i); }
    while (!st.empty()) { int x = st.back(); st.pop_back(); for (int y : rev[x]) if (!good[y]) { good[y] = 1; st.push_back(y); } }
    size_t bad = 0; for (size_t i = 0; i < n; i++) bad += !good[i]; noFinal = bad;
    if (bad) for (auto& p : seen) for (auto* s : p.second) if (viol.empty() && s->node >= 0 && !good[s->node]) { s->cur = 0; for (size_t t = 0; t < s->th.size(); t++) if (s->th[t].status == 0) { s->cur = t; break; } violate(*s, "livelock", "no schedule leads from this state to completion"); }
    if (bad && gOpt.exact) for (size_t i = 0; i < n && viol.empty(); i++) if (!good[i]) viol.push_back({"livelock", "no schedule leads from this state to completion", "after the recorded schedule", nodeWit[i], nullptr});
  }
}
bool Engine::replay(const Model& m, std::vector<Event>& ev, std::vector<std::pair<int, uint64_t>>& inputs, std::vector<uint64_t>& log, std::string& verdict) {
  replaying = true; rmodel = m; revents = &ev; rinputs = &inputs; rlog = &log; rverdict.clear(); aborting = false; auto sv = gStats; t0 = std::chrono::steady_clock::now();
  for (auto& p : nextLayer) for (auto* s : p.second) delete s; nextLayer.clear(); nextCount = 0; for (auto* w : work) delete w; work.clear();
  State* s = initialState(); layer = 0; parent = nullptr; survivors = stutters = mkB(false); if (s) { s->node = -1; s->wit = std::make_shared<Model>(m); work.push_back(s); drain(); }
  int k = 0; while (nextCount && rverdict.empty() && k < 20000 && !aborting) { auto cur = std::move(nextLayer); nextLayer.clear(); nextCount = 0; layer++; k++; for (auto& p : cur) for (auto* q : p.second) step(q); }
  if (rverdict.empty() && nextCount) rverdict = "livelock: still running after the schedule and " + std::to_string(k) + " steps";
  verdict = rverdict; replaying = false; gStats = sv; newShared = false; return true;
}
void Engine::usedFunctions(std::vector<std::string>& out) {
  for (auto& p : fns) { if (!p.second->execs) continue; auto& f = p.second->file; auto k = f.find("/repo/"); std::string nm = demangle(p.first->getName().str()); if (k != std::string::npos && f.find("/repo/third") == std::string::npos) { std::string e = f.substr(k + 6) + ": " + nm; out.push_back(e); } }
  std::sort(out.begin(), out.end());
}
// ---- happens-before
bool Engine::raceOn(State& S) { int n = 0; for (auto& t : S.th) n += t.status != 2; return n > 1; }
bool Engine::raceExempt(State& S) { auto& st = S.th[S.cur].st; return !st.f.empty() && st.f.back()->fn->noRace; }
void Engine::raceInit(State& S) { for (size_t i = 0; i < S.th.size(); i++) if (!S.th[i].vc) S.th[i].vc = vcSet(vcZero(), i, mkC(1, 16)); }
void Engine::hbAcquire(State& S, int t, VCP v) { if (v) S.th[t].vc = vcJoin(S.th[t].vc, v); }
VCP Engine::hbRelease(State& S, int t) { auto& th = S.th[t]; VCP r = th.vc; if (th.dirty) { th.vc = vcSet(th.vc, t, mkBin(Op::Add, vcAt(th.vc, t), mkC(1, 16))); th.dirty = false; } return r; }
void Engine::fence(State& S, bool acq, bool rel) { if (!gOpt.raceMode) return; auto& th = S.th[S.cur]; if (acq && th.acqF) th.vc = vcJoin(th.vc, th.acqF); if (rel) th.relF = hbRelease(S, S.cur); }
void Engine::hbSync(State& S, uint64_t addr, bool acq, bool rel) {
  if (!gOpt.raceMode || !raceOn(S)) return; Obj* o = findMut(S, addr, 1); if (!o) return; auto& L = o->sync[addr - o->addr]; if (!L) L = vcZero();
  if (acq) hbAcquire(S, S.cur, L); if (rel) { S.th[S.cur].dirty = true; L = vcJoin(L, hbRelease(S, S.cur)); }
}
static E laterThan(VCP a, VCP vc, int self) { E r = mkB(false); for (size_t u = 0; u < a->c.size(); u++) { if ((int)u == self) continue; E x = a->c[u]; if (x->isC() && x->v == 0) continue; r = mkOr(r, mkBin(Op::Ult, vcAt(vc, u), x)); } return r; }
static bool anyNewer(Engine*, State& S, E bad, ModelP& m) { if (bad->isF()) return false; return checkSat(S.guard, bad, S.wit.get(), &m) == 1; }
void Engine::racePlain(State& S, Obj& o0, uint32_t off, uint32_t n, bool write) {
  if (!raceOn(S) || raceExempt(S)) return; int t = S.cur; auto& th = S.th[t]; E me = vcAt(th.vc, t);
  if (gOpt.raceMode == 1) {
    if (o0.kind != KHeap && o0.kind != KStack) return; if (o0.kind == KStack && ((o0.addr - STK_BASE) >> 32) == (uint64_t)t) return;
    th.dirty = true; if (o0.acc && vcAt(o0.acc, t) == me) return; Obj* o = findMut(S, o0.addr, 0); if (!o) return; o->acc = vcSet(o->acc ? o->acc : vcZero(), t, me); return;
  }
  if (o0.kind == KGhost || o0.kind == KTls) return; th.dirty = true;
  Obj* o = findMut(S, o0.addr, 0); if (!o) return; if (o->sh.empty()) o->sh.assign(o->size, cellZero());
  CellP last = nullptr, lastN = nullptr;
  for (uint32_t i = off; i < off + n; i++) {
    CellP c = o->sh[i]; if (c == last) { o->sh[i] = lastN; continue; }
    E bad = mkOr(laterThan(c->w, th.vc, t), laterThan(c->aw, th.vc, t)); if (write) bad = mkOr(bad, mkOr(laterThan(c->r, th.vc, t), laterThan(c->ar, th.vc, t)));
    ModelP m; if (anyNewer(this, S, bad, m)) { State* q = clone(S); q->guard = mkAnd(S.guard, bad); q->wit = m; violate(*q, "race", std::string("data race: ") + (write ? "write" : "read") + " not ordered with an earlier access [" + whereShort(S) + "]"); delete q; o = findMut(S, o0.addr, 0); }
    CellP nc = write ? mkCell(vcSet(vcZero(), t, me), vcZero(), vcZero(), vcZero()) : mkCell(c->w, vcSet(c->r, t, me), c->aw, c->ar);
    o->sh[i] = nc; last = c; lastN = nc;
  }
}
std::string Engine::whereShort(State& S) { auto& st = S.th[S.cur].st; if (st.f.empty()) return "?"; for (int i = (int)st.f.size() - 1; i >= 0; i--) { auto* f = st.f[i].p; if (f->fn->file.find("/repo/") != std::string::npos || i == 0) { std::string nm = demangle(f->fn->F->getName().str()); auto p = nm.find('('); if (p != std::string::npos && p > 10) nm = nm.substr(0, p); if (nm.size() > 160) nm = nm.substr(0, 157) + "..."; return nm; } } return "?"; }
void Engine::raceFree(State& S, Obj& o) {
  if (!raceOn(S) || raceExempt(S)) { if (!raceOn(S)) return; } int t = S.cur; auto& th = S.th[t]; th.dirty = true; E bad = mkB(false);
  if (gOpt.raceMode == 1) { if (o.acc) bad = laterThan(o.acc, th.vc, t); }
  else { std::set<CellP> s(o.sh.begin(), o.sh.end()); for (auto c : s) for (VCP v : {c->w, c->r, c->aw, c->ar}) bad = mkOr(bad, laterThan(v, th.vc, t)); }
  ModelP m; if (anyNewer(this, S, bad, m)) { State* q = clone(S); q->guard = mkAnd(S.guard, bad); q->wit = m; violate(*q, gOpt.raceMode == 1 ? "lifetime" : "race", std::string(gOpt.raceMode == 1 ? "object released while another thread may still access it" : "data race: object destroyed without being ordered after earlier accesses") + " [" + whereShort(S) + "]"); delete q; }
}
void Engine::raceAtomic(State& S, Obj& o, uint32_t off, uint32_t n, bool rd, bool wr, bool acq, bool rel, bool rmw) {
  if (!raceOn(S)) return; int t = S.cur; auto& th = S.th[t]; E me = vcAt(th.vc, t);
  if (gOpt.raceMode == 1) racePlain(S, o, off, n, wr);
  else if (o.kind != KGhost && o.kind != KTls) {
    if (o.sh.empty()) o.sh.assign(o.size, cellZero()); CellP last = nullptr, lastN = nullptr;
    for (uint32_t i = off; i < off + n; i++) { CellP c = o.sh[i]; if (c == last) { o.sh[i] = lastN; continue; } E bad = laterThan(c->w, th.vc, t); if (wr) bad = mkOr(bad, laterThan(c->r, th.vc, t));
      ModelP m; if (anyNewer(this, S, bad, m)) { State* q = clone(S); q->guard = mkAnd(S.guard, bad); q->wit = m; violate(*q, "race", std::string("data race: atomic access not ordered with an earlier plain access [") + whereShort(S) + "]"); delete q; }
      CellP nc = wr ? mkCell(c->w, c->r, vcSet(c->aw, t, me), c->ar) : mkCell(c->w, c->r, c->aw, vcSet(c->ar, t, me)); o.sh[i] = nc; last = c; lastN = nc; }
    th.dirty = true;
  }
  auto it = o.sync.find(off); VCP L = it == o.sync.end() || !it->second ? vcZero() : it->second;
  if (rd) { if (acq) th.vc = vcJoin(th.vc, L); else if (L != vcZero()) th.acqF = vcJoin(th.acqF ? th.acqF : vcZero(), L); }
  if (wr) { VCP r = rel ? (th.dirty = true, hbRelease(S, t)) : (th.relF ? th.relF : vcZero()); VCP nl = rmw || gOpt.raceMode == 1 ? vcJoin(L, r) : r; if (nl != L) o.sync[off] = nl; }
}
