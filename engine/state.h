// Symbolic machine state: copy-on-write objects and frames, threads, saved contexts.
#pragma once
#include "expr.h"
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Module.h>
#include <map>
#include <set>

struct RC { int n = 0; RC() {} RC(const RC&) {} RC& operator=(const RC&) { return *this; } operator int() const { return n; } void operator++(int) { n++; } int operator--() { return --n; } }; // copies start unreferenced
template <class T> struct Ref { // intrusive non-atomic refcount
  T* p = nullptr;
  Ref() {}
  Ref(T* x) : p(x) { if (p) p->rc++; }
  Ref(const Ref& o) : p(o.p) { if (p) p->rc++; }
  Ref(Ref&& o) noexcept : p(o.p) { o.p = nullptr; }
  Ref& operator=(Ref o) noexcept { std::swap(p, o.p); return *this; }
  ~Ref() { if (p && --p->rc == 0) delete p; }
  T* operator->() const { return p; }
  T& operator*() const { return *p; }
  explicit operator bool() const { return p; }
  bool operator==(const Ref& o) const { return p == o.p; }
  T* mut() { if (p->rc > 1) { *this = Ref(new T(*p)); } return p; }
};

struct Agg;
struct Val { E e = nullptr; const Agg* a = nullptr; bool operator==(const Val& o) const { return e == o.e && a == o.a; } };
struct Agg { std::vector<Val> v; uint32_t id; };
const Agg* mkAgg(const std::vector<Val>& v);

enum ObjKind : uint8_t { KGlobal, KHeap, KStack, KTls, KFunc, KConst, KGhost };
struct SymB { E e; uint8_t k; };

// race shadow: interned vector clocks / cells
struct VC { std::vector<E> c; uint32_t id; };   // c[t] : 16-bit clock expr (missing -> 0)
using VCP = const VC*;
struct Cell { VCP w, r, aw, ar; uint32_t id; };   // last plain write / plain read / atomic write / atomic read clocks per thread
using CellP = const Cell*;

struct Obj {
  RC rc; uint64_t addr; uint32_t size; uint8_t kind; bool ro = false; bool noleak = false; bool dead = false; VCP acc = nullptr; uint64_t hash = 0;
  std::vector<uint8_t> b; std::vector<SymB> sym;     // sym empty => fully concrete
  std::vector<CellP> sh;                             // race shadow per byte
  std::map<uint32_t, VCP> sync;                      // release clocks of atomic locations in this object (offset)
  Obj() {}
  Obj(const Obj& o) = default;
  Obj(Obj&&) = default;
};
using ObjRef = Ref<Obj>;

struct Operand { int slot; Val c; };
struct FnInfo;
struct PInst {
  llvm::Instruction* I; unsigned opc; int dst; std::vector<Operand> ops; int bb; int site = 0; int visible = 0; llvm::Function* callee = nullptr; int intr = 0;
};
struct FnInfo {
  llvm::Function* F; int nslots = 0; std::vector<PInst> insts; std::vector<int> bbStart; std::vector<llvm::BasicBlock*> bbs;
  std::map<llvm::BasicBlock*, int> bbIdx; std::vector<std::vector<bool>> liveOut;
  std::vector<std::vector<int>> deadAt;       // cached: dead slots before inst i
  std::vector<uint8_t> deadKnown; std::vector<std::vector<int>> deadAfterCall; std::vector<uint8_t> deadCallKnown;
  uint64_t addr; uint32_t id; bool repo = false; bool harness = false; bool noRace = false; std::string file; uint64_t execs = 0;
};
struct Frame {
  RC rc; FnInfo* fn; int pc = 0; std::vector<Val> regs; std::vector<uint64_t> allocas; uint64_t spSave = 0; int prevBB = -1; int cleanPc = -1;
  bool isDtorOfExc = false;
  Frame() {}
  Frame(const Frame& o) : fn(o.fn), pc(o.pc), regs(o.regs), allocas(o.allocas), spSave(o.spSave), prevBB(o.prevBB), cleanPc(o.cleanPc), isDtorOfExc(o.isDtorOfExc) {}
};
using FrameRef = Ref<Frame>;
struct Stack { std::vector<FrameRef> f; uint64_t sp = 0; uint64_t base = 0; };

enum Stage : uint8_t { SgNone, SgCvWait, SgNotified, SgTimedOut, SgSpurious, SgFresh };
struct Thread {
  uint8_t status = 0; // 0 run, 1 done, 2 done+joined
  Stack st; Stage stage = SgNone; uint64_t wcv = 0, wmx = 0; E deadline = nullptr; bool timed = false, dirty = true;
  VCP vc = nullptr, relF = nullptr, acqF = nullptr; std::map<uint32_t, uint32_t> allocCnt; uint64_t excSel = 0, excRec = 0;
};
struct State {
  std::vector<Thread> th; std::vector<ObjRef> mem; // sorted by addr
  std::map<uint64_t, Stack> ctxs;
  E guard; ModelP wit; E vtime; int spurCas = 0, spurCv = 0; bool grant = false; int cur = 0, xsame = 0, nestStatic = 0; uint32_t nStep = 0; E pend = nullptr; E sg = nullptr; uint64_t ckey = 0; int node = -1; uint64_t choices = 0; std::vector<int> prevs;

};
