// Instruction semantics. Included at the end of engine.cpp.
static bool isShuf(const Val& v) { return v.a; }
static Val iteVal(E c, const Val& a, const Val& b) {
  if (a == b) return a; Val r;
  if (a.a || b.a) { if (!a.a) return b; if (!b.a) return a; std::vector<Val> v; for (size_t i = 0; i < a.a->v.size(); i++) v.push_back(iteVal(c, a.a->v[i], b.a->v[i])); r.a = mkAgg(v); return r; }
  if (!a.e) return b; if (!b.e) return a; r.e = mkIte(c, a.e, b.e); return r;
}
static Val zeroOf(Type* T, const DataLayout& DL) {
  Val r; if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) { unsigned n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements(); std::vector<Val> v; for (unsigned i = 0; i < n; i++) v.push_back(zeroOf(T->isStructTy() ? T->getStructElementType(i) : T->isArrayTy() ? T->getArrayElementType() : cast<VectorType>(T)->getElementType(), DL)); r.a = mkAgg(v); return r; }
  unsigned w = widthOf(T, DL); if (w >= 1 && w <= 64) r.e = mkC(0, w); return r;
}
static E icmpE(CmpInst::Predicate p, E a, E b) {
  switch (p) {
    case CmpInst::ICMP_EQ: return mkEq(a, b); case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
    case CmpInst::ICMP_ULT: return mkBin(Op::Ult, a, b); case CmpInst::ICMP_ULE: return mkBin(Op::Ule, a, b); case CmpInst::ICMP_UGT: return mkBin(Op::Ult, b, a); case CmpInst::ICMP_UGE: return mkBin(Op::Ule, b, a);
    case CmpInst::ICMP_SLT: return mkBin(Op::Slt, a, b); case CmpInst::ICMP_SLE: return mkBin(Op::Sle, a, b); case CmpInst::ICMP_SGT: return mkBin(Op::Slt, b, a); case CmpInst::ICMP_SGE: return mkBin(Op::Sle, b, a);
    default: return mkB(false);
  }
}
static E binE(unsigned opc, E a, E b) {
  switch (opc) {
    case Instruction::Add: return mkBin(Op::Add, a, b); case Instruction::Sub: return mkBin(Op::Sub, a, b); case Instruction::Mul: return mkBin(Op::Mul, a, b);
    case Instruction::UDiv: return mkBin(Op::UDiv, a, b); case Instruction::SDiv: return mkBin(Op::SDiv, a, b); case Instruction::URem: return mkBin(Op::URem, a, b); case Instruction::SRem: return mkBin(Op::SRem, a, b);
    case Instruction::Shl: return mkBin(Op::Shl, a, b); case Instruction::LShr: return mkBin(Op::LShr, a, b); case Instruction::AShr: return mkBin(Op::AShr, a, b);
    case Instruction::And: return mkBin(Op::And, a, b); case Instruction::Or: return mkBin(Op::Or, a, b); case Instruction::Xor: return mkBin(Op::Xor, a, b);
    case Instruction::FAdd: return mkF(Op::FAdd, a, b); case Instruction::FSub: return mkF(Op::FSub, a, b); case Instruction::FMul: return mkF(Op::FMul, a, b); case Instruction::FDiv: return mkF(Op::FDiv, a, b);
    default: return nullptr;
  }
}
static Val mapVal(const Val& a, const Val& b, const std::function<E(E, E)>& f) {
  Val r; if (a.a) { std::vector<Val> v; for (size_t i = 0; i < a.a->v.size(); i++) v.push_back(mapVal(a.a->v[i], b.a ? b.a->v[i] : b, f)); r.a = mkAgg(v); return r; } if (!a.e) return r; r.e = f(a.e, b.e); return r;
}
static Val insAt(const Val& agg, ArrayRef<unsigned> idx, const Val& v) { if (idx.empty()) return v; std::vector<Val> c = agg.a->v; c[idx[0]] = insAt(c[idx[0]], idx.slice(1), v); Val r; r.a = mkAgg(c); return r; }

R Engine::exec(State& S) {
  gStats.instrs++; if ((gStats.instrs & 0xfff) == 0) tick();
  auto& fr = S.th[S.cur].st.f.back(); Frame* f0 = fr.p; PInst& P = f0->fn->insts[f0->pc]; Instruction* I = P.I;
  auto V = [&](int i) -> Val { auto& o = P.ops[i]; if (o.slot < 0) return o.c; Val v = S.th[S.cur].st.f.back()->regs[o.slot]; return v; };
  auto setR = [&](const Val& v) { Frame* f = S.th[S.cur].st.f.back().mut(); if (P.dst >= 0) f->regs[P.dst] = v; f->pc++; return R::Go; };
  auto setE = [&](E e) { Val v; v.e = e; return setR(v); };
  switch (P.opc) {
    case Instruction::Ret: { Val v; if (I->getNumOperands()) v = V(0); return doReturn(S, v); }
    case Instruction::Br: {
      auto* b = cast<BranchInst>(I); if (b->isUnconditional()) { gotoBB(S, f0->fn->bbIdx[b->getSuccessor(0)]); return R::Go; }
      Val c = V(0); if (!c.e) { unsupported(S, "branch on undefined"); return R::Drop; }
      uint64_t v; if (!conc(S, P, 0, v)) return R::Drop; gotoBB(S, f0->fn->bbIdx[b->getSuccessor(v ? 0 : 1)]); return R::Go; }
    case Instruction::Switch: {
      auto* sw = cast<SwitchInst>(I); Val c = V(0); if (!c.e) { unsupported(S, "switch on undefined"); return R::Drop; }
      if (c.e->isC()) { auto* ci = ConstantInt::get(cast<IntegerType>(sw->getCondition()->getType()), c.e->v); gotoBB(S, f0->fn->bbIdx[sw->findCaseValue(ci)->getCaseSuccessor()]); return R::Go; }
      std::map<int, E> g; E def = mkB(true);
      for (auto& cs : sw->cases()) { E q = mkEq(c.e, mkC(cs.getCaseValue()->getZExtValue(), c.e->w)); int bb = f0->fn->bbIdx[cs.getCaseSuccessor()]; auto& x = g[bb]; x = x ? mkOr(x, q) : q; def = mkAnd(def, mkNot(q)); }
      int db = f0->fn->bbIdx[sw->getDefaultDest()]; auto& x = g[db]; x = x ? mkOr(x, def) : def;
      for (auto& p : g) { ModelP m; int r = checkSat(S.guard, p.second, S.wit.get(), &m); if (!r) continue; if (r < 0) { inconclusive = "solver unknown"; continue; }
        State* n = clone(S); n->guard = mkAnd(S.guard, p.second); n->wit = m; gotoBB(*n, p.first); work.push_back(n); }
      return R::Drop; }
    case Instruction::Unreachable: violate(S, "unreachable", "unreachable code executed"); return R::Drop;
    case Instruction::Alloca: {
      auto* a = cast<AllocaInst>(I); uint64_t n = 1; if (a->isArrayAllocation()) { if (!conc(S, P, 0, n)) return R::Drop; }
      uint64_t sz = n * DL.getTypeAllocSize(a->getAllocatedType()).getFixedValue(); if (!sz) sz = 1; auto& st = S.th[S.cur].st; uint64_t al = std::max<uint64_t>(16, a->getAlign().value());
      st.sp = (st.sp + al - 1) & ~(al - 1); uint64_t addr = st.base + st.sp; st.sp += (sz + 31) & ~15ull;
      auto* o = new Obj; o->addr = addr; o->size = sz; o->kind = KStack; o->b.assign(sz, 0xCC); insertObj(S, ObjRef(o)); st.f.back().mut()->allocas.push_back(addr); return setE(mkC(addr, 64)); }
    case Instruction::Load: {
      if (P.visible) return atomicOp(S, P);
      uint64_t a; if (!conc(S, P, 0, a)) return R::Drop; bool ok = true; Val v = loadTy(S, a, I->getType(), ok); if (!ok) return R::Drop; return setR(v); }
    case Instruction::Store: {
      if (P.visible) return atomicOp(S, P);
      uint64_t a; if (!conc(S, P, 1, a)) return R::Drop; if (!storeTy(S, a, cast<StoreInst>(I)->getValueOperand()->getType(), V(0))) return R::Drop; S.th[S.cur].st.f.back().mut()->pc++; return R::Go; }
    case Instruction::AtomicRMW: case Instruction::AtomicCmpXchg: return atomicOp(S, P);
    case Instruction::Fence: { auto o = cast<FenceInst>(I)->getOrdering(); if (cast<FenceInst>(I)->getSyncScopeID() != SyncScope::SingleThread) fence(S, isAcquireOrStronger(o), isReleaseOrStronger(o)); S.th[S.cur].st.f.back().mut()->pc++; return R::Go; }
    case Instruction::GetElementPtr: {
      auto* g = cast<GetElementPtrInst>(I); Val b = V(0); if (!b.e) { unsupported(S, "gep base"); return R::Drop; } E r = b.e; int k = 1; uint64_t coff = 0;
      for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it, ++k) {
        Val ix = V(k); if (!ix.e) { unsupported(S, "gep index"); return R::Drop; }
        if (auto* st = it.getStructTypeOrNull()) coff += DL.getStructLayout(st)->getElementOffset(ix.e->v);
        else { uint64_t es = DL.getTypeAllocSize(it.getIndexedType()); E x = mkSExt(ix.e, 64); if (x->isC()) coff += x->v * es; else r = mkBin(Op::Add, r, mkBin(Op::Mul, x, mkC(es, 64))); }
      }
      if (coff) r = mkBin(Op::Add, r, mkC(coff, 64)); return setE(r); }
    case Instruction::Trunc: { Val a = V(0); if (a.a) { unsigned w = I->getType()->getScalarSizeInBits(); return setR(mapVal(a, a, [&](E x, E) { return mkExtract(x, 0, w); })); } if (!a.e) { unsupported(S, "trunc"); return R::Drop; } return setE(mkExtract(a.e, 0, widthOf(I->getType(), DL))); }
    case Instruction::ZExt: { Val a = V(0); unsigned w = I->getType()->getScalarSizeInBits(); if (w > 64) { unsupported(S, "i128"); return R::Drop; } return setR(mapVal(a, a, [&](E x, E) { return mkZExt(x, w); })); }
    case Instruction::SExt: { Val a = V(0); unsigned w = I->getType()->getScalarSizeInBits(); if (w > 64) { unsupported(S, "i128"); return R::Drop; } return setR(mapVal(a, a, [&](E x, E) { return mkSExt(x, w); })); }
    case Instruction::PtrToInt: { Val a = V(0); return setE(mkExtract(a.e, 0, widthOf(I->getType(), DL))); }
    case Instruction::IntToPtr: { Val a = V(0); return setE(mkZExt(a.e, 64)); }
    case Instruction::BitCast: {
      Val a = V(0); bool va = I->getOperand(0)->getType()->isVectorTy(), vb = I->getType()->isVectorTy(); if (va == vb && !va) return setR(a);
      if (va && !vb) { E r = nullptr; for (auto& x : a.a->v) r = r ? mkConcat(x.e, r) : x.e; return setE(r); }
      unsupported(S, "vector bitcast"); return R::Drop; }
    case Instruction::AddrSpaceCast: return setR(V(0));
    case Instruction::Freeze: { Val v = V(0); if (!v.e && !v.a) v = zeroOf(I->getType(), DL); return setR(v); }
    case Instruction::FPToSI: return setE(mkFCvt(0, V(0).e, widthOf(I->getType(), DL)));
    case Instruction::FPToUI: return setE(mkFCvt(1, V(0).e, widthOf(I->getType(), DL)));
    case Instruction::SIToFP: return setE(mkFCvt(2, V(0).e, widthOf(I->getType(), DL)));
    case Instruction::UIToFP: return setE(mkFCvt(3, V(0).e, widthOf(I->getType(), DL)));
    case Instruction::FPExt: case Instruction::FPTrunc: return setE(mkFCvt(4, V(0).e, widthOf(I->getType(), DL)));
    case Instruction::FNeg: { Val a = V(0); return setE(mkBin(Op::Xor, a.e, mkC(1ull << (a.e->w - 1), a.e->w))); }
    case Instruction::ICmp: { Val a = V(0), b = V(1); auto p = cast<ICmpInst>(I)->getPredicate(); if (!a.a && (!a.e || !b.e)) { unsupported(S, "icmp operand"); return R::Drop; } return setR(mapVal(a, b, [&](E x, E y) { return icmpE(p, x, y); })); }
    case Instruction::FCmp: { Val a = V(0), b = V(1); unsigned p = cast<FCmpInst>(I)->getPredicate(); if (!a.e || !b.e) { unsupported(S, "fcmp"); return R::Drop; } return setE(mkF(Op::FCmp, a.e, b.e, p)); }
    case Instruction::Select: {
      Val c = V(0), a = V(1), b = V(2);
      if (c.a) { std::vector<Val> v; for (size_t i = 0; i < c.a->v.size(); i++) v.push_back(iteVal(c.a->v[i].e, a.a->v[i], b.a->v[i])); Val r; r.a = mkAgg(v); return setR(r); }
      if (!c.e) { unsupported(S, "select"); return R::Drop; } if (c.e->isC()) return setR(c.e->v ? a : b); return setR(iteVal(c.e, a, b)); }
    case Instruction::ExtractValue: { Val a = V(0); for (unsigned i : cast<ExtractValueInst>(I)->indices()) { if (!a.a) { unsupported(S, "extractvalue"); return R::Drop; } Val n = a.a->v[i]; a = n; } return setR(a); }
    case Instruction::InsertValue: { Val a = V(0); if (!a.a) a = zeroOf(I->getType(), DL); return setR(insAt(a, cast<InsertValueInst>(I)->getIndices(), V(1))); }
    case Instruction::ExtractElement: { Val a = V(0); uint64_t i; if (!conc(S, P, 1, i)) return R::Drop; return setR(a.a->v[i]); }
    case Instruction::InsertElement: { Val a = V(0); if (!a.a) a = zeroOf(I->getType(), DL); uint64_t i; if (!conc(S, P, 2, i)) return R::Drop; auto c = a.a->v; c[i] = V(1); Val r; r.a = mkAgg(c); return setR(r); }
    case Instruction::ShuffleVector: { Val a = V(0), b = V(1); if (!a.a) a = zeroOf(I->getOperand(0)->getType(), DL); if (!b.a) b = zeroOf(I->getOperand(0)->getType(), DL); std::vector<Val> v; size_t n = a.a->v.size(); for (int m : cast<ShuffleVectorInst>(I)->getShuffleMask()) v.push_back(m < 0 ? a.a->v[0] : (size_t)m < n ? a.a->v[m] : b.a->v[m - n]); Val r; r.a = mkAgg(v); return setR(r); }
    case Instruction::LandingPad: { auto& t = S.th[S.cur]; std::vector<Val> v(2); v[0].e = mkC(t.excRec, 64); v[1].e = mkC(t.excSel, 32); Val r; r.a = mkAgg(v); return setR(r); }
    case Instruction::Resume: { Val a = V(0); E e = a.a->v[0].e; if (!e->isC()) { unsupported(S, "symbolic exception record"); return R::Drop; } bool ok = true; Obj* o = find(S, e->v, 8); if (!o) { violate(S, "memory", "resume of a destroyed exception"); return R::Drop; } E ti = readB(*o, e->v - o->addr, 8); (void)ok; if (!ti->isC()) { unsupported(S, "symbolic exception type"); return R::Drop; } popFrame(S); return S.th[S.cur].st.f.empty() ? (violate(S, "terminate", "uncaught exception: std::terminate"), R::Drop) : unwind(S, e->v, ti->v); }
    case Instruction::Call: case Instruction::Invoke: return execCall(S, P);
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      Val b = V(1); if (b.e && b.e->isC() && b.e->v == 0) { violate(S, "divzero", "division by zero"); return R::Drop; }
      if (b.e && !b.e->isC()) { E z = mkEq(b.e, mkC(0, b.e->w)); if (!z->isF()) { ModelP m; int r = checkSat(S.guard, z, S.wit.get(), &m); if (r == 1) { State* n = clone(S); n->guard = mkAnd(S.guard, z); n->wit = m; violate(*n, "divzero", "division by zero"); delete n;
            E nz = mkNot(z); int q = checkSat(S.guard, nz, S.wit.get(), &m); if (q != 1) return R::Drop; S.guard = mkAnd(S.guard, nz); S.wit = m; } } }
      return setR(mapVal(V(0), b, [&](E x, E y) { return binE(P.opc, x, y); })); }
    default: break;
  }
  if (I->isBinaryOp()) { Val a = V(0), b = V(1); if (!a.a && (!a.e || !b.e)) { unsupported(S, "binary operand"); return R::Drop; } Val r = mapVal(a, b, [&](E x, E y) { return binE(P.opc, x, y); }); if (!r.e && !r.a) { unsupported(S, "binary op"); return R::Drop; } return setR(r); }
  unsupported(S, std::string("opcode ") + I->getOpcodeName()); return R::Drop;
}
// ---- atomics
R Engine::atomicOp(State& S, PInst& P) {
  Instruction* I = P.I; auto V = [&](int i) -> Val { auto& o = P.ops[i]; if (o.slot < 0) return o.c; return S.th[S.cur].st.f.back()->regs[o.slot]; };
  auto fin = [&](const Val& v) { Frame* f = S.th[S.cur].st.f.back().mut(); if (P.dst >= 0) f->regs[P.dst] = v; f->pc++; return R::Go; };
  uint64_t a; int pi = P.opc == Instruction::Store ? 1 : 0; if (!conc(S, P, pi, a)) return R::Drop;
  Type* T = P.opc == Instruction::Load ? I->getType() : P.opc == Instruction::Store ? cast<StoreInst>(I)->getValueOperand()->getType() : P.opc == Instruction::AtomicRMW ? cast<AtomicRMWInst>(I)->getValOperand()->getType() : cast<AtomicCmpXchgInst>(I)->getCompareOperand()->getType();
  unsigned w = widthOf(T, DL); uint32_t n = (w + 7) / 8; if (w > 64) { unsupported(S, "wide atomic"); return R::Drop; }
  Obj* o = find(S, a, n); if (!o) { violate(S, "memory", std::string("atomic access to invalid memory of ") + std::to_string(n) + " bytes"); return R::Drop; }
  if (a % n) { violate(S, "memory", "misaligned atomic access"); return R::Drop; }
  auto rd = [&]() { E e = readB(*o, a - o->addr, n); if (e->w != w) e = mkExtract(e, 0, w); return e; };
  auto ordA = [&](AtomicOrdering x) { return gOpt.raceMode || isAcquireOrStronger(x); }; auto ordR = [&](AtomicOrdering x) { return gOpt.raceMode || isReleaseOrStronger(x); };
  auto acqOf = [&](AtomicOrdering x) { return gOpt.raceMode == 1 || isAcquireOrStronger(x); }; auto relOf = [&](AtomicOrdering x) { return gOpt.raceMode == 1 || isReleaseOrStronger(x); }; (void)ordA; (void)ordR;
  auto race = [&](bool r, bool wr, bool ac, bool re, bool rmw) { if (gOpt.raceMode) { Obj* m = o->ro ? nullptr : findMut(S, a, n); if (m) raceAtomic(S, *m, a - m->addr, n, r, wr, ac, re, rmw); o = find(S, a, n); } };
  switch (P.opc) {
    case Instruction::Load: { auto* l = cast<LoadInst>(I); event(S, &P, 'A'); race(true, false, acqOf(l->getOrdering()), false, false); Val v; v.e = rd(); return fin(v); }
    case Instruction::Store: { auto* s = cast<StoreInst>(I); if (o->ro) { violate(S, "memory", "write to constant"); return R::Drop; } event(S, &P, 'A'); race(false, true, false, relOf(s->getOrdering()), false); Obj* m = findMut(S, a, n); Val v = V(0); writeB(*m, a - m->addr, v.e ? v.e : mkC(0, w)); return fin(Val()); }
    case Instruction::AtomicRMW: {
      auto* x = cast<AtomicRMWInst>(I); Val v = V(1); if (!v.e) { unsupported(S, "rmw operand"); return R::Drop; } E old = rd(), nw = nullptr; if (o->ro) { violate(S, "memory", "write to constant"); return R::Drop; }
      switch (x->getOperation()) {
        case AtomicRMWInst::Xchg: nw = v.e; break; case AtomicRMWInst::Add: nw = mkBin(Op::Add, old, v.e); break; case AtomicRMWInst::Sub: nw = mkBin(Op::Sub, old, v.e); break;
        case AtomicRMWInst::And: nw = mkBin(Op::And, old, v.e); break; case AtomicRMWInst::Or: nw = mkBin(Op::Or, old, v.e); break; case AtomicRMWInst::Xor: nw = mkBin(Op::Xor, old, v.e); break;
        case AtomicRMWInst::Nand: nw = mkNot(mkBin(Op::And, old, v.e)); break;
        case AtomicRMWInst::Max: nw = mkIte(mkBin(Op::Slt, old, v.e), v.e, old); break; case AtomicRMWInst::Min: nw = mkIte(mkBin(Op::Slt, v.e, old), v.e, old); break;
        case AtomicRMWInst::UMax: nw = mkIte(mkBin(Op::Ult, old, v.e), v.e, old); break; case AtomicRMWInst::UMin: nw = mkIte(mkBin(Op::Ult, v.e, old), v.e, old); break;
        case AtomicRMWInst::FAdd: nw = mkF(Op::FAdd, old, v.e); break; case AtomicRMWInst::FSub: nw = mkF(Op::FSub, old, v.e); break;
        default: unsupported(S, "rmw op"); return R::Drop;
      }
      E same = mkEq(old, nw); bool sv = false;
      if (x->getOperation() == AtomicRMWInst::Xchg && alive(S) > 1) {
        if (!same->isC()) { // fork so that a no-op exchange leaves the memory expression unchanged
          auto ls = std::vector<std::pair<E, bool>>{{same, true}, {mkNot(same), false}}; ModelP m; std::vector<std::pair<ModelP, E>> ok;
          for (auto& q : ls) { int r = checkSat(S.guard, q.first, S.wit.get(), &m); if (r < 0) inconclusive = "solver unknown"; if (r == 1) ok.push_back({m, q.first}); }
          if (ok.size() == 2) { for (auto& k : ok) { State* c = clone(S); c->guard = mkAnd(S.guard, k.second); c->wit = k.first; c->xsame = k.second == same ? 1 : 2; work.push_back(c); } return R::Drop; }
          sv = ok.size() == 1 && ok[0].second == same; if (S.xsame) sv = S.xsame == 1;
        } else sv = same->v;
        S.xsame = 0;
      }
      event(S, &P, 'A'); race(true, true, acqOf(x->getOrdering()), relOf(x->getOrdering()), true);
      if (!sv) { Obj* m = findMut(S, a, n); writeB(*m, a - m->addr, nw); }
      Val r; r.e = old; return fin(r); }
    case Instruction::AtomicCmpXchg: {
      auto* x = cast<AtomicCmpXchgInst>(I); E exp = V(1).e, nw = V(2).e; if (!exp || !nw) { unsupported(S, "cmpxchg operand"); return R::Drop; } E old = rd(); E eq = mkEq(old, exp); if (o->ro) { violate(S, "memory", "write to constant"); return R::Drop; }
      bool sp = false;
      if (x->isWeak() && S.spurCas > 0 && S.grant && S.xsame == 0) {
        E v = nondet(S, "f", 1); ModelP m; // spurious failure only interesting where it would succeed
        State* c = nullptr; E g = mkAnd(v, eq); int r = g->isF() ? 0 : checkSat(S.guard, g, S.wit.get(), &m);
        if (r == 1) { c = clone(S); if (eq->isC()) addChoice(c, g); else c->guard = mkAnd(S.guard, g); c->wit = m; c->spurCas--; c->xsame = 3; work.push_back(c); }
        E ng = mkNot(g); r = checkSat(S.guard, ng, S.wit.get(), &m); if (r == 1) { State* d = clone(S); if (eq->isC()) addChoice(d, ng); else d->guard = mkAnd(S.guard, ng); d->wit = m; d->xsame = 4; work.push_back(d); }
        return R::Drop;
      }
      if (!eq->isC() && S.xsame != 1 && S.xsame != 2 && S.xsame != 3) {
        std::vector<std::pair<ModelP, int>> ok; ModelP m;
        for (int k = 0; k < 2; k++) { int r = checkSat(S.guard, k ? mkNot(eq) : eq, S.wit.get(), &m); if (r < 0) inconclusive = "solver unknown"; if (r == 1) { State* c = clone(S); c->guard = mkAnd(S.guard, k ? mkNot(eq) : eq); c->wit = m; c->xsame = k ? 2 : 1; work.push_back(c); } }
        return R::Drop;
      }
      sp = S.xsame == 3; bool succ = !sp && (eq->isC() ? eq->v : S.xsame == 1); S.xsame = 0;
      event(S, &P, sp ? 'F' : 'A');
      if (succ) race(true, true, acqOf(x->getSuccessOrdering()), relOf(x->getSuccessOrdering()), true); else race(true, false, acqOf(x->getFailureOrdering()), false, false);
      if (succ) { Obj* m = findMut(S, a, n); writeB(*m, a - m->addr, nw); }
      std::vector<Val> v(2); v[0].e = succ ? exp : old; v[1].e = mkB(succ); Val r; r.a = mkAgg(v); return fin(r); }
  }
  return R::Drop;
}
// ---- calls
R Engine::execCall(State& S, PInst& P) {
  auto* cb = cast<CallBase>(P.I); Function* F = P.callee; unsigned na = cb->arg_size();
  if (cb->isInlineAsm()) { return ret(S, P, zeroOf(cb->getType(), DL)); }
  if (!F) {
    int ci = P.ops.size() - 1; uint64_t a; auto& o = P.ops[ci]; Val v = o.slot >= 0 ? S.th[S.cur].st.f.back()->regs[o.slot] : o.c;
    if (!v.e) { unsupported(S, "indirect call operand"); return R::Drop; }
    if (!conc(S, P, ci, a)) return R::Drop; auto it = fnByAddr.find(a); if (it == fnByAddr.end()) { violate(S, "memory", "call through an invalid function pointer"); return R::Drop; } F = it->second;
  }
  std::vector<Val> args; for (unsigned i = 0; i < na; i++) { auto& o = P.ops[i]; args.push_back(o.slot >= 0 ? S.th[S.cur].st.f.back()->regs[o.slot] : o.c); }
  if (P.intr) return intrinsic(S, P, F, args);
  if (F->isDeclaration()) { if (auto* al = dyn_cast<GlobalAlias>(cb->getCalledOperand())) { if (auto* af = dyn_cast<Function>(al->getAliasee()->stripPointerCasts())) F = af; } }
  if (F->isDeclaration()) return ext(S, P, F->getName().str(), args);
  bool tail = false; if (auto* c = dyn_cast<CallInst>(P.I)) tail = c->isMustTailCall();
  std::vector<std::pair<unsigned, std::pair<uint64_t, uint64_t>>> bv;
  for (unsigned i = 0; i < na; i++) if (cb->isByValArgument(i)) bv.push_back({i, {args[i].e && args[i].e->isC() ? args[i].e->v : 0, DL.getTypeAllocSize(cb->getParamByValType(i)).getFixedValue()}});
  auto& st = S.th[S.cur].st; if (st.f.size() > 900) { violate(S, "stackoverflow", "call depth bound exceeded (unbounded recursion)"); return R::Drop; }
  if (tail) { uint64_t keepSp = 0; (void)keepSp; popFrame(S); }
  pushFrame(S, F, args);
  for (auto& b : bv) { bool ok = b.second.first; Obj* so = ok ? find(S, b.second.first, b.second.second) : nullptr; if (!so) { unsupported(S, "byval"); return R::Drop; } uint64_t off = b.second.first - so->addr, n = b.second.second;
    auto& s2 = S.th[S.cur].st; s2.sp = (s2.sp + 15) & ~15ull; uint64_t addr = s2.base + s2.sp; s2.sp += (n + 31) & ~15ull; auto* o = new Obj; o->addr = addr; o->size = n; o->kind = KStack; o->b.assign(so->b.begin() + off, so->b.begin() + off + n); if (!so->sym.empty()) o->sym.assign(so->sym.begin() + off, so->sym.begin() + off + n);
    Frame* f = s2.f.back().mut(); f->allocas.push_back(addr); f->regs[b.first].e = mkC(addr, 64); insertObj(S, ObjRef(o)); }
  return R::Go;
}
R Engine::copyMem(State& S, PInst& P, uint64_t d, uint64_t s, uint64_t n) {
  (void)P; if (!n) return R::Go; Obj* so = find(S, s, n); if (!so) { violate(S, "memory", "invalid read in memcpy/memmove"); return R::Drop; }
  if (gOpt.raceMode && !so->ro) { racePlain(S, *so, s - so->addr, n, false); so = find(S, s, n); }
  std::vector<uint8_t> b(so->b.begin() + (s - so->addr), so->b.begin() + (s - so->addr) + n); std::vector<SymB> sy; if (!so->sym.empty()) sy.assign(so->sym.begin() + (s - so->addr), so->sym.begin() + (s - so->addr) + n);
  bool any = false; for (auto& x : sy) if (x.e) any = true;
  Obj* dp = find(S, d, n); if (!dp || dp->ro) { violate(S, "memory", "invalid write in memcpy/memmove"); return R::Drop; } Obj* o = findMut(S, d, n);
  if (gOpt.raceMode) racePlain(S, *o, d - o->addr, n, true);
  memcpy(&o->b[d - o->addr], b.data(), n); if (any) { if (o->sym.empty()) o->sym.assign(o->size, SymB{nullptr, 0}); std::copy(sy.begin(), sy.end(), o->sym.begin() + (d - o->addr)); } else if (!o->sym.empty()) for (uint64_t i = 0; i < n; i++) o->sym[d - o->addr + i] = SymB{nullptr, 0};
  return R::Go;
}
R Engine::intrinsic(State& S, PInst& P, Function* F, std::vector<Val>& a) {
  auto RE = [&](E e) { Val v; v.e = e; return ret(S, P, v); };
  unsigned w = P.I->getType()->isVoidTy() || P.I->getType()->isAggregateType() || P.I->getType()->isVectorTy() ? 0 : widthOf(P.I->getType(), DL);
  switch (P.intr) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t d, s, n; if (!conc(S, P, 0, d) || !conc(S, P, 1, s) || !conc(S, P, 2, n)) return R::Drop; if (copyMem(S, P, d, s, n) == R::Drop) return R::Drop; return ret(S, P, Val()); }
    case Intrinsic::memset: { uint64_t d, n; if (!conc(S, P, 0, d) || !conc(S, P, 2, n)) return R::Drop; if (!n) return ret(S, P, Val()); Obj* dp = find(S, d, n); if (!dp || dp->ro) { violate(S, "memory", "invalid write in memset"); return R::Drop; } Obj* o = findMut(S, d, n); if (gOpt.raceMode) racePlain(S, *o, d - o->addr, n, true); for (uint64_t i = 0; i < n; i++) writeB(*o, d - o->addr + i, a[1].e); return ret(S, P, Val()); }
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::invariant_end: case Intrinsic::var_annotation: case Intrinsic::x86_sse2_pause: case Intrinsic::stackrestore: return ret(S, P, Val());
    case Intrinsic::stacksave: case Intrinsic::invariant_start: case Intrinsic::frameaddress: case Intrinsic::returnaddress: return RE(mkC(S.th[S.cur].st.base + S.th[S.cur].st.sp, 64));
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::annotation: case Intrinsic::ssa_copy: return ret(S, P, a[0]);
    case Intrinsic::threadlocal_address: { uint64_t t = a[0].e->v; uint64_t inst = t + ((uint64_t)(S.cur + 1) << 32); Obj* tpl = findIn(roMem, t, 1, nullptr); size_t dummy; if (!tpl) { unsupported(S, "tls"); return R::Drop; }
      if (!findIn(S.mem, inst, 1, &dummy)) { auto* o = new Obj(*tpl); o->addr = inst; o->ro = false; o->kind = KTls; insertObj(S, ObjRef(o)); } return RE(mkC(inst, 64)); }
    case Intrinsic::eh_typeid_for: return RE(mkC(tiId(a[0].e->v), 32));
    case Intrinsic::is_constant: return RE(mkB(false));
    case Intrinsic::objectsize: { bool mn = a[1].e && a[1].e->v; return RE(mkC(mn ? 0 : ~0ull, w)); }
    case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: violate(S, "trap", "trap executed"); return R::Drop;
    case Intrinsic::umin: return ret(S, P, mapVal(a[0], a[1], [](E x, E y) { return mkIte(mkBin(Op::Ult, x, y), x, y); }));
    case Intrinsic::umax: return ret(S, P, mapVal(a[0], a[1], [](E x, E y) { return mkIte(mkBin(Op::Ult, x, y), y, x); }));
    case Intrinsic::smin: return ret(S, P, mapVal(a[0], a[1], [](E x, E y) { return mkIte(mkBin(Op::Slt, x, y), x, y); }));
    case Intrinsic::smax: return ret(S, P, mapVal(a[0], a[1], [](E x, E y) { return mkIte(mkBin(Op::Slt, x, y), y, x); }));
    case Intrinsic::abs: return RE(mkIte(mkBin(Op::Slt, a[0].e, mkC(0, w)), mkBin(Op::Sub, mkC(0, w), a[0].e), a[0].e));
    case Intrinsic::usub_sat: return RE(mkIte(mkBin(Op::Ult, a[0].e, a[1].e), mkC(0, w), mkBin(Op::Sub, a[0].e, a[1].e)));
    case Intrinsic::uadd_sat: { E s = mkBin(Op::Add, a[0].e, a[1].e); return RE(mkIte(mkBin(Op::Ult, s, a[0].e), mkC(~0ull, w), s)); }
    case Intrinsic::fshl: case Intrinsic::fshr: { E sh = mkBin(Op::URem, a[2].e, mkC(w, w)), x = a[0].e, y = a[1].e; if (!sh->isC()) { unsupported(S, "funnel shift"); return R::Drop; } uint64_t k = sh->v; if (!k) return RE(P.intr == Intrinsic::fshl ? x : y); if (P.intr == Intrinsic::fshr) k = w - k; return RE(mkBin(Op::Or, mkBin(Op::Shl, x, mkC(k, w)), mkBin(Op::LShr, y, mkC(w - k, w)))); }
    case Intrinsic::ctpop: { E r = mkC(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(Op::Add, r, mkZExt(mkExtract(a[0].e, i, 1), w)); return RE(r); }
    case Intrinsic::ctlz: { E r = mkC(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(a[0].e, i, 1), mkC(w - 1 - i, w), r); return RE(r); }
    case Intrinsic::cttz: { E r = mkC(w, w); for (int i = w - 1; i >= 0; i--) r = mkIte(mkExtract(a[0].e, i, 1), mkC(i, w), r); return RE(r); }
    case Intrinsic::bswap: { E r = nullptr; for (unsigned i = 0; i < w / 8; i++) { E b = mkExtract(a[0].e, i * 8, 8); r = r ? mkConcat(r, b) : b; } return RE(r); }
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
      E x = a[0].e, y = a[1].e, r, o; unsigned n = x->w; std::vector<Val> v(2);
      switch (P.intr) {
        case Intrinsic::uadd_with_overflow: r = mkBin(Op::Add, x, y); o = mkBin(Op::Ult, r, x); break;
        case Intrinsic::usub_with_overflow: r = mkBin(Op::Sub, x, y); o = mkBin(Op::Ult, x, y); break;
        case Intrinsic::sadd_with_overflow: { r = mkBin(Op::Add, x, y); E z = mkC(0, n); E sx = mkBin(Op::Slt, x, z), sy = mkBin(Op::Slt, y, z), sr = mkBin(Op::Slt, r, z); o = mkAnd(mkEq(sx, sy), mkNot(mkEq(sx, sr))); break; }
        case Intrinsic::ssub_with_overflow: { r = mkBin(Op::Sub, x, y); E z = mkC(0, n); E sx = mkBin(Op::Slt, x, z), sy = mkBin(Op::Slt, y, z), sr = mkBin(Op::Slt, r, z); o = mkAnd(mkNot(mkEq(sx, sy)), mkNot(mkEq(sx, sr))); break; }
        default: { if (n > 32) { if (x->isC() && y->isC()) { unsigned __int128 p = (unsigned __int128)x->v * y->v; __int128 q = (__int128)sextw(x->v, n) * sextw(y->v, n); r = mkBin(Op::Mul, x, y); o = mkB(P.intr == Intrinsic::umul_with_overflow ? (p >> n) != 0 : q != (__int128)sextw((uint64_t)q, n)); break; }
            r = mkBin(Op::Mul, x, y); if (P.intr == Intrinsic::umul_with_overflow) { E lim = y->isC() && y->v ? mkC(maskw(n) / y->v, n) : nullptr; if (lim) { o = mkBin(Op::Ult, lim, x); break; } } unsupported(S, "mul overflow"); return R::Drop; }
          bool sg = P.intr == Intrinsic::smul_with_overflow; E p = mkBin(Op::Mul, sg ? mkSExt(x, 64) : mkZExt(x, 64), sg ? mkSExt(y, 64) : mkZExt(y, 64)); r = mkExtract(p, 0, n); o = mkNot(mkEq(p, sg ? mkSExt(r, 64) : mkZExt(r, 64))); } }
      v[0].e = r; v[1].e = o; Val q; q.a = mkAgg(v); return ret(S, P, q); }
    case Intrinsic::fabs: return RE(mkBin(Op::And, a[0].e, mkC(maskw(w) >> 1, w)));
    default: unsupported(S, "intrinsic " + F->getName().str()); return R::Drop;
  }
}
static bool cstr(const Obj* o, uint64_t off, std::string& s) { if (!o) return false; for (; off < o->size && o->b[off]; off++) s += (char)o->b[off]; return true; }

R Engine::ext(State& S, PInst& P, const std::string& nm, std::vector<Val>& a) {
  enum X { X_none, X_malloc, X_calloc, X_realloc, X_free, X_new, X_newal, X_del, X_delsz, X_memcpy, X_memset, X_memcmp, X_strlen, X_strcmp, X_memchr, X_abort, X_zero, X_void, X_atexit, X_guard_acq, X_guard_rel, X_guard_abort, X_yield, X_sysconf, X_mmap, X_getctx, X_makectx, X_swapctx, X_setctx, X_self, X_nondet, X_choose, X_assume, X_assert, X_fail, X_reach, X_log, X_param, X_spawn, X_join, X_vself, X_merge, X_mlock, X_mtry, X_munlock, X_cvwait, X_notify, X_now, X_sleep, X_alloccnt, X_gadd, X_gget, X_gset, X_vmalloc, X_unwind, X_ignleak, X_vyield, X_hb, X_getenv, X_isdone, X_alive, X_uncaughtstop, X_heapobjs, X_bound, X_assertc };
  static const std::map<std::string, int> t = {
    {"malloc", X_malloc}, {"calloc", X_calloc}, {"realloc", X_realloc}, {"free", X_free}, {"_Znwm", X_new}, {"_Znam", X_new}, {"_ZnwmRKSt9nothrow_t", X_new}, {"_ZnamRKSt9nothrow_t", X_new}, {"_ZnwmSt11align_val_t", X_newal}, {"_ZnamSt11align_val_t", X_newal},
    {"_ZnwmSt11align_val_tRKSt9nothrow_t", X_newal}, {"_ZdlPv", X_del}, {"_ZdaPv", X_del}, {"_ZdlPvm", X_delsz}, {"_ZdaPvm", X_delsz}, {"_ZdlPvSt11align_val_t", X_del}, {"_ZdlPvmSt11align_val_t", X_delsz}, {"_ZdaPvSt11align_val_t", X_del}, {"_ZdlPvRKSt9nothrow_t", X_del},
    {"memcpy", X_memcpy}, {"memmove", X_memcpy}, {"memset", X_memset}, {"memcmp", X_memcmp}, {"bcmp", X_memcmp}, {"strlen", X_strlen}, {"strcmp", X_strcmp}, {"memchr", X_memchr},
    {"abort", X_abort}, {"_ZSt9terminatev", X_abort}, {"__cxa_pure_virtual", X_abort}, {"__assert_fail", X_abort}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", X_abort}, {"exit", X_abort}, {"_exit", X_abort}, {"__stack_chk_fail", X_abort},
    {"__cxa_atexit", X_zero}, {"__cxa_thread_atexit", X_zero}, {"mprotect", X_zero}, {"munmap", X_zero}, {"printf", X_zero}, {"fprintf", X_zero}, {"puts", X_zero}, {"fputs", X_zero}, {"fwrite", X_zero}, {"snprintf", X_zero}, {"fflush", X_zero}, {"sched_yield", X_zero}, {"pthread_setname_np", X_zero},
    {"__cxa_guard_acquire", X_guard_acq}, {"__cxa_guard_release", X_guard_rel}, {"__cxa_guard_abort", X_guard_abort}, {"sysconf", X_sysconf}, {"mmap", X_mmap}, {"mmap64", X_mmap}, {"getcontext", X_getctx}, {"makecontext", X_makectx}, {"swapcontext", X_swapctx}, {"setcontext", X_setctx}, {"pthread_self", X_self}, {"getenv", X_getenv},
    {"vf_nondet", X_nondet}, {"vf_choose", X_choose}, {"vf_assume", X_assume}, {"vf_assert", X_assert}, {"vf_fail", X_fail}, {"vf_reach", X_reach}, {"vf_log", X_log}, {"vf_param", X_param}, {"vf_spawn", X_spawn}, {"vf_join", X_join}, {"vf_self", X_vself}, {"vf_yield", X_vyield}, {"vf_merge", X_merge},
    {"vf_mutex_lock", X_mlock}, {"vf_mutex_trylock", X_mtry}, {"vf_mutex_unlock", X_munlock}, {"vf_cv_wait", X_cvwait}, {"vf_cv_notify", X_notify}, {"vf_now", X_now}, {"vf_sleep", X_sleep}, {"vf_alloc_count", X_alloccnt}, {"vf_g_add", X_gadd}, {"vf_g_get", X_gget}, {"vf_g_set", X_gset}, {"vf_malloc", X_vmalloc}, {"vf_unwind", X_unwind},
    {"vf_ignore_leaks", X_ignleak}, {"vf_hb_acqrel", X_hb}, {"vf_is_done", X_isdone}, {"vf_heap_objects", X_heapobjs}, {"vf_bound", X_bound}, {"vf_alive", X_alive}};
  auto it = t.find(nm); int x = it == t.end() ? X_none : it->second; (void)X_void; (void)X_vself;
  auto RE = [&](E e) { Val v; v.e = e; return ret(S, P, v); }; auto RC = [&](uint64_t v) { Type* T = P.I->getType(); if (T->isVoidTy()) return ret(S, P, Val()); return RE(mkC(v, widthOf(T, DL))); };
  int tid = S.cur; uint64_t u, v, n;
#define ARG(i, var) do { if (!conc(S, P, i, var)) return R::Drop; } while (0)
  auto gslot = [&](uint64_t k) -> Obj* { if (k >= GHOST_N) { unsupported(S, "ghost index"); return nullptr; } return findMut(S, GHOST, 8); };
  auto freeAt = [&](uint64_t p, uint64_t sz) -> bool {
    if (!p) return true; Obj* o = find(S, p, 0); if (!o || o->addr != p || o->kind != KHeap) { violate(S, "memory", "invalid or double free"); return false; }
    if (sz && o->size != sz) { violate(S, "memory", "sized delete with a wrong size"); return false; }
    if (gOpt.raceMode && raceOn(S)) { Obj* m = findMut(S, p, 0); raceFree(S, *m); }
    eraseObj(S, p); return true; };
  switch (x) {
    case X_malloc: ARG(0, n); return RC(heapAlloc(S, tid, n, 16, false));
    case X_calloc: { ARG(0, u); ARG(1, v); uint64_t p = heapAlloc(S, tid, u * v, 16, false); Obj* o = findMut(S, p, 0); std::fill(o->b.begin(), o->b.end(), 0); return RC(p); }
    case X_realloc: { ARG(0, u); ARG(1, n); uint64_t p = heapAlloc(S, tid, n, 16, false); if (u) { Obj* o = find(S, u, 0); if (!o) { violate(S, "memory", "invalid realloc"); return R::Drop; } if (copyMem(S, P, p, u, std::min<uint64_t>(n, o->size)) == R::Drop) return R::Drop; if (!freeAt(u, 0)) return R::Drop; } return RC(p); }
    case X_vmalloc: ARG(0, n); return RC(heapAlloc(S, tid, n, 16, false));
    case X_free: ARG(0, u); if (!freeAt(u, 0)) return R::Drop; return RC(0);
    case X_new: case X_newal: { ARG(0, n); uint64_t al = 16; if (x == X_newal) ARG(1, al); Obj* g = gslot(0); writeB(*g, 0, mkBin(Op::Add, readB(*g, 0, 8), mkC(1, 64))); return RC(heapAlloc(S, tid, n, al, false)); }
    case X_del: ARG(0, u); if (!freeAt(u, 0)) return R::Drop; return RC(0);
    case X_delsz: ARG(0, u); ARG(1, n); if (!freeAt(u, n)) return R::Drop; return RC(0);
    case X_memcpy: ARG(0, u); ARG(1, v); ARG(2, n); if (copyMem(S, P, u, v, n) == R::Drop) return R::Drop; return RC(u);
    case X_memset: { ARG(0, u); ARG(2, n); if (n) { Obj* dp = find(S, u, n); if (!dp || dp->ro) { violate(S, "memory", "invalid write in memset"); return R::Drop; } Obj* o = findMut(S, u, n); if (gOpt.raceMode) racePlain(S, *o, u - o->addr, n, true); for (uint64_t i = 0; i < n; i++) writeB(*o, u - o->addr + i, mkExtract(a[1].e, 0, 8)); } return RC(u); }
    case X_memcmp: { ARG(0, u); ARG(1, v); ARG(2, n); Obj *p = find(S, u, n), *q = find(S, v, n); if (n && (!p || !q)) { violate(S, "memory", "invalid read in memcmp"); return R::Drop; } E r = mkC(0, 32); for (int64_t i = (int64_t)n - 1; i >= 0; i--) { E c = readB(*p, u - p->addr + i, 1), d = readB(*q, v - q->addr + i, 1); r = mkIte(mkEq(c, d), r, mkIte(mkBin(Op::Ult, c, d), mkC(~0ull, 32), mkC(1, 32))); } return RE(r); }
    case X_strlen: { ARG(0, u); Obj* o = find(S, u, 1); std::string s; if (!cstr(o, o ? u - o->addr : 0, s)) { violate(S, "memory", "invalid strlen"); return R::Drop; } return RC(s.size()); }
    case X_strcmp: { ARG(0, u); ARG(1, v); Obj *p = find(S, u, 1), *q = find(S, v, 1); std::string s, r; if (!p || !q) { violate(S, "memory", "invalid strcmp"); return R::Drop; } cstr(p, u - p->addr, s); cstr(q, v - q->addr, r); int c = s.compare(r); return RC((uint64_t)(int64_t)(c < 0 ? -1 : c > 0)); }
    case X_memchr: { ARG(0, u); ARG(1, v); ARG(2, n); Obj* o = find(S, u, n); if (!o) { violate(S, "memory", "invalid memchr"); return R::Drop; } for (uint64_t i = 0; i < n; i++) if (o->b[u - o->addr + i] == (uint8_t)v) return RC(u + i); return RC(0); }
    case X_abort: violate(S, nm == "_ZSt9terminatev" ? "terminate" : "abort", nm == "_ZSt9terminatev" ? "std::terminate called" : nm + " called"); return R::Drop;
    case X_zero: return RC(0);
    case X_guard_acq: { ARG(0, u); Obj* o = findMut(S, u, 8); if (!o) return R::Drop; uint32_t off = u - o->addr; E b = readB(*o, off, 1); if (b->isC() && b->v) { hbSync(S, u, true, false); return RC(0); } E pg = readB(*o, off + 1, 1); if (!b->isC() || !pg->isC() || pg->v) { unsupported(S, "concurrent static initialisation"); return R::Drop; } writeB(*o, off + 1, mkC(1, 8)); S.nestStatic++; return RC(1); }
    case X_guard_rel: { ARG(0, u); Obj* o = findMut(S, u, 8); writeB(*o, u - o->addr, mkC(1, 16)); S.nestStatic--; hbSync(S, u, false, true); return RC(0); }
    case X_guard_abort: { ARG(0, u); Obj* o = findMut(S, u, 8); writeB(*o, u - o->addr, mkC(0, 16)); S.nestStatic--; return RC(0); }
    case X_sysconf: return RC(4096);
    case X_getenv: return RC(0);
    case X_mmap: { auto& c = S.th[tid].allocCnt[0xffffffffu]; uint64_t p = CTX_BASE + ((uint64_t)++c << 24); return RC(p); }
    case X_self: return RC(0x1000 + (uint64_t)tid * 0x100);
    case X_getctx: return RC(0);
    case X_setctx: { ARG(0, u); auto c = S.ctxs.find(u); if (c == S.ctxs.end()) { violate(S, "memory", "setcontext to an unset context"); return R::Drop; } S.th[tid].st = c->second; S.ctxs.erase(c); return R::Go; }
    case X_makectx: { // makecontext(ucp, fn, argc, ...)
      ARG(0, u); ARG(1, v); auto f = fnByAddr.find(v); if (f == fnByAddr.end()) { unsupported(S, "makecontext"); return R::Drop; }
      Obj* o = find(S, u, 64); if (!o) { violate(S, "memory", "makecontext on invalid context"); return R::Drop; } E sp = readB(*o, u - o->addr + 16, 8); if (!sp->isC()) { unsupported(S, "symbolic stack"); return R::Drop; }
      Stack ns; ns.base = sp->v & ~0xffffffull; ns.sp = 16; auto* fi = info(f->second); fi->execs++; auto* nf = new Frame; nf->fn = fi; nf->regs.resize(fi->nslots); for (size_t i = 3; i < a.size() && i - 3 < f->second->arg_size(); i++) { Val q = a[i]; unsigned aw = widthOf(f->second->getArg(i - 3)->getType(), DL); if (q.e->w < aw) q.e = mkZExt(q.e, aw); nf->regs[i - 3] = q; } nf->spSave = ns.sp; ns.f.push_back(FrameRef(nf));
      S.ctxs[u] = ns; return RC(0); }
    case X_swapctx: { ARG(0, u); ARG(1, v); RC(0); auto c = S.ctxs.find(v); if (c == S.ctxs.end()) { violate(S, "memory", "swapcontext to an unset context"); return R::Drop; } Stack tgt = c->second; S.ctxs.erase(c); S.ctxs[u] = S.th[tid].st; S.th[tid].st = tgt; return R::Go; }
    // ---- verification intrinsics
    case X_nondet: { ARG(0, n); E e = nondet(S, "i", n); return RE(mkZExt(e, 64)); }
    case X_choose: {
      ARG(0, n); if (S.xsame == 0) { if (n > 64) return RE(choose(S, n)); E c = choose(S, n); if (c->isC()) return RE(c);
        for (size_t k = n; k-- > 0;) { E g = mkEq(c, mkC(k, 64)); ModelP m; if (checkSat(mkB(true), g, S.wit.get(), &m) == 1) { State* q = clone(S); addChoice(q, g); q->wit = m; q->xsame = 1 + k; work.push_back(q); } } return R::Drop; }
      uint64_t cv = S.xsame - 1; S.xsame = 0; if (!gOpt.exact) S.ckey = (S.ckey + cv + 1) * 0x9E3779B97F4A7C15ull; return RC(cv); }
    case X_assume: case X_assert: {
      E c = a[0].e; if (!c) { unsupported(S, "assert operand"); return R::Drop; } if (c->w != 1) c = mkNot(mkEq(c, mkC(0, c->w)));
      ModelP m;
      if (x == X_assert) {
        gStats.asserts++; std::string msg; ARG(1, u); Obj* o = find(S, u, 1); if (o) cstr(o, u - o->addr, msg); if (!wanted("assert", msg)) return RC(0);
        E nc = mkNot(c); if (!nc->isF()) { if (!nc->isC()) gStats.assertSymbolic++;
          int r = checkSat(S.guard, nc, S.wit.get(), &m); if (r < 0) inconclusive = "solver unknown at assertion"; if (r == 1) { State* q = clone(S); q->guard = mkAnd(S.guard, nc); q->wit = m; violate(*q, "assert", msg); delete q; } }
      }
      if (c->isF()) return R::Drop; if (!c->isC()) { int r = checkSat(S.guard, c, S.wit.get(), &m); if (r < 0) inconclusive = "solver unknown"; if (r != 1) return R::Drop; S.guard = mkAnd(S.guard, c); S.wit = m; }
      return RC(0); }
    case X_fail: { ARG(0, u); std::string msg; Obj* o = find(S, u, 1); if (o) cstr(o, u - o->addr, msg); violate(S, "assert", msg); return R::Drop; }
    case X_reach: { ARG(0, u); std::string msg; Obj* o = find(S, u, 1); if (o) cstr(o, u - o->addr, msg); if (!replaying && !reached.count(msg)) reached[msg] = S.wit; return RC(0); }
    case X_bound: { ARG(0, u); std::string msg; Obj* o = find(S, u, 1); if (o) cstr(o, u - o->addr, msg); incomplete = true; incompleteWhy = msg; return R::Drop; }
    case X_log: { if (replaying) { E e = a[0].e; rlog->push_back(evalE(e, rmodel)); } return RC(0); }
    case X_param: { ARG(0, n); return RC(n < gOpt.params.size() ? gOpt.params[n] : 0); }
    case X_spawn: { ARG(0, u); auto f = fnByAddr.find(u); if (f == fnByAddr.end()) { unsupported(S, "spawn"); return R::Drop; }
      Thread nt; nt.st.base = STK_BASE + ((uint64_t)S.th.size() << 32); nt.st.sp = 16; nt.stage = SgFresh; auto* fi = info(f->second); fi->execs++; auto* nf = new Frame; nf->fn = fi; nf->regs.resize(fi->nslots); if (f->second->arg_size()) nf->regs[0] = a[1]; nf->spSave = 16; nt.st.f.push_back(FrameRef(nf));
      int id = S.th.size(); if (gOpt.raceMode) { if (!S.th[tid].vc) raceInit(S); VCP pv = hbRelease(S, tid); nt.vc = vcSet(pv, id, mkC(1, 16)); nt.relF = nullptr; nt.acqF = nullptr; }
      event(S, &P, 'S'); S.th.push_back(nt); return RC(id); }
    case X_join: { ARG(0, u); if (u >= S.th.size() || S.th[u].status == 0) { violate(S, "deadlock", "join of a thread that never ends"); return R::Drop; } if (S.th[u].status == 2) { violate(S, "api", "thread joined twice"); return R::Drop; } S.th[u].status = 2; event(S, &P, 'J'); if (gOpt.raceMode && S.th[u].relF) hbAcquire(S, tid, S.th[u].relF); S.th[u].relF = S.th[u].acqF = nullptr; return RC(0); }
    case X_isdone: { ARG(0, u); return RC(u < S.th.size() && S.th[u].status != 0); }
    case X_vself: return RC(tid);
    case X_alive: return RC(alive(S));
    case X_vyield: event(S, &P, 'Y'); return RC(0);
    case X_merge: return RC(0);
    case X_hb: ARG(0, u); hbSync(S, u, true, true); return RC(0);
    case X_mlock: case X_mtry: {
      ARG(0, u); Obj* o = findMut(S, u, 4); if (!o) { violate(S, "memory", "lock of an invalid mutex"); return R::Drop; } E h = readB(*o, u - o->addr, 4);
      if (x == X_mtry) { // fork on held
        if (!h->isC()) { E z = mkEq(h, mkC(0, 32)); ModelP m; if (S.xsame == 0) { for (int k = 0; k < 2; k++) { E g = k ? z : mkNot(z); int r = checkSat(S.guard, g, S.wit.get(), &m); if (r == 1) { State* c = clone(S); c->guard = mkAnd(S.guard, g); c->wit = m; c->xsame = 1 + k; work.push_back(c); } } return R::Drop; }
          bool free = S.xsame == 2; S.xsame = 0; event(S, &P, 'A'); if (free) { writeB(*o, u - o->addr, mkC(tid + 1, 32)); hbSync(S, u, true, false); } return RC(free ? 0 : 16); }
        event(S, &P, 'A'); if (h->v == 0) { writeB(*o, u - o->addr, mkC(tid + 1, 32)); hbSync(S, u, true, false); } return RC(h->v ? 16 : 0); }
      // lock: the scheduler guarantees it is free when granted
      if (!S.grant) { if (!h->isC() || h->v) { violate(S, "deadlock", "lock of a mutex that is never released"); return R::Drop; } }
      event(S, &P, 'L'); writeB(*o, u - o->addr, mkC(tid + 1, 32)); hbSync(S, u, true, false); return RC(0); }
    case X_munlock: { ARG(0, u); Obj* o = findMut(S, u, 4); if (!o) { violate(S, "memory", "unlock of an invalid mutex"); return R::Drop; } E h = readB(*o, u - o->addr, 4); E bad = mkNot(mkEq(h, mkC(tid + 1, 32))); if (!bad->isF()) { ModelP m; if (checkSat(S.guard, bad, S.wit.get(), &m) == 1) { violate(S, "api", "unlock of a mutex not held by this thread"); return R::Drop; } } event(S, &P, 'U'); writeB(*o, u - o->addr, mkC(0, 32)); hbSync(S, u, false, true); return RC(0); }
    case X_cvwait: {
      auto& th = S.th[tid]; ARG(0, u); ARG(1, v); Obj* o = findMut(S, v, 4); if (!o || !find(S, u, 4)) { violate(S, "memory", "wait on an invalid condition variable or mutex"); return R::Drop; }
      if (th.stage == SgNone) { event(S, &P, 'W'); th.stage = SgCvWait; th.wcv = u; th.wmx = v; th.deadline = a[2].e; ARG(3, n); th.timed = n; writeB(*o, v - o->addr, mkC(0, 32)); hbSync(S, v, false, true); return R::Stop; }
      bool to = th.stage == SgTimedOut; event(S, &P, to ? 'Z' : 'K'); writeB(*o, v - o->addr, mkC(tid + 1, 32)); hbSync(S, v, true, false);
      if (to) S.vtime = mkIte(mkBin(Op::Slt, S.vtime, th.deadline), th.deadline, S.vtime); th.stage = SgNone; th.wcv = th.wmx = 0; th.deadline = nullptr; th.timed = 0; return RC(to ? 110 : 0); }
    case X_notify: { ARG(0, u); ARG(1, n); if (!find(S, u, 4)) { violate(S, "memory", "notify of an invalid condition variable"); return R::Drop; } std::vector<int> w; for (size_t i = 0; i < S.th.size(); i++) if (S.th[i].status == 0 && S.th[i].stage == SgCvWait && S.th[i].wcv == u) w.push_back(i);
      if (n || w.size() <= 1) { event(S, &P, 'N'); for (int i : w) S.th[i].stage = SgNotified; return RC(0); }
      if (S.xsame == 0) { E c = choose(S, w.size()); for (size_t k = 0; k < w.size(); k++) { ModelP m; E g = mkEq(c, mkC(k, 64)); if (checkSat(S.guard, g, S.wit.get(), &m) == 1) { State* q = clone(S); addChoice(q, g); q->wit = m; q->xsame = 1 + k; work.push_back(q); } } return R::Drop; }
      event(S, &P, 'N'); S.th[w[S.xsame - 1]].stage = SgNotified; if (replaying) revents->push_back({w[S.xsame - 1], 0, 'n'}); S.xsame = 0; return RC(0); }
    case X_now: return RE(S.vtime);
    case X_sleep: { S.vtime = mkBin(Op::Add, S.vtime, a[0].e); return RC(0); }
    case X_alloccnt: { Obj* g = gslot(0); return RE(readB(*g, 0, 8)); }
    case X_gadd: case X_gget: case X_gset: { ARG(0, n); n += 8; Obj* g = gslot(n); if (!g) return R::Drop; E old = readB(*g, n * 8, 8); if (x == X_gset) writeB(*g, n * 8, a[1].e); if (x == X_gadd) { old = mkBin(Op::Add, old, a[1].e); writeB(*g, n * 8, old); } return RE(old); }
    case X_unwind: { ARG(0, u); ARG(1, v); return unwind(S, u, v); }
    case X_ignleak: { for (auto& o : S.mem) if (o->kind == KHeap && !o->noleak) { o.mut()->noleak = true; } return RC(0); }
    case X_heapobjs: { uint64_t c = 0; for (auto& o : S.mem) if (o->kind == KHeap && !o->noleak) c++; return RC(c); }
    default: break;
  }
  unsupported(S, "external function " + nm); return R::Drop;
}
E Engine::nondet(State& S, const std::string& tag, unsigned w) {
  std::string n = tag + std::to_string(layer) + "_" + std::to_string(S.nStep++) + (w == 1 ? "" : "w" + std::to_string(w)); E v = mkVar(n, w);
  if (replaying) { uint64_t c = rmodel.get(v->v) & maskw(w); if (tag == "i") rinputs->push_back({S.cur, c}); return mkC(c, w); }
  return v;
}
E Engine::choose(State& S, uint64_t n) { // canonical value summary over a small variable
  if (n <= 1) { if (replaying) rinputs->push_back({S.cur, 0}); return mkC(0, 64); }
  unsigned w = 1; while ((1ull << w) < n) w++; std::string nm = "c" + std::to_string(layer) + "_" + std::to_string(S.nStep++) + "w" + std::to_string(w); E v = mkVar(nm, w);
  if (replaying) { uint64_t c = rmodel.get(v->v) & maskw(w); if (c >= n) c = n - 1; rinputs->push_back({S.cur, c}); return mkC(c, 64); }
  E r = mkC(n - 1, 64); for (int64_t i = n - 2; i >= 0; i--) r = mkIte(mkEq(v, mkC(i, w)), mkC(i, 64), r); return r;
}
