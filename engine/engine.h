#pragma once
#include "state.h"
#include <chrono>

struct Violation { std::string kind, msg, loc; ModelP model; E guard; };
struct Event { int tid; int site; char kind; };

struct Options {
  int raceMode = 0; bool leak = false; int spurCas = 1, spurCv = 0; int maxLayers = 2000; double timeout = 250; size_t memMB = 6000;
  bool fiber = false; bool verbose = false; int maxViol = 8; std::vector<uint64_t> params; bool noMerge = false, exact = false; uint64_t addrSalt = 0; int maxConc = 64; size_t maxStates = 2000000; bool dumpFinal = false; std::vector<std::string> only; /* kinds of violation to report; ~text selects assertions whose message contains text */
};
extern Options gOpt;

struct Stats { uint64_t states = 0, transitions = 0, merges = 0, forks = 0, instrs = 0, layers = 0, finals = 0, asserts = 0, restarts = 0, stutters = 0, assertSymbolic = 0, maxLayer = 0, deadlockChecks = 0; };
extern Stats gStats;

enum class R { Go, Stop, Drop };

class Engine {
 public:
  explicit Engine(llvm::Module& m);
  void explore();                 // full exploration to a fixpoint of the shared-address set
  bool replay(const Model& m, std::vector<Event>& ev, std::vector<std::pair<int, uint64_t>>& inputs, std::vector<uint64_t>& log, std::string& verdict);
  std::vector<Violation> viol;
  std::map<std::string, ModelP> reached;
  std::string inconclusive; bool incomplete = false; std::string incompleteWhy;
  std::vector<ModelP> finalModels;
  void usedFunctions(std::vector<std::string>& repoFns);
  void reset();

 private:
  llvm::Module& M; const llvm::DataLayout& DL;
  std::map<const llvm::Function*, FnInfo*> fns; std::map<uint64_t, llvm::Function*> fnByAddr; std::map<const llvm::Value*, uint64_t> gaddr;
  std::vector<ObjRef> roMem; std::vector<ObjRef> initMem; std::map<uint64_t, const llvm::GlobalVariable*> gvByAddr;
  std::map<uint64_t, uint64_t> tlsInit; // tls global addr -> (template object)
  std::map<std::string, int> intrIds; std::set<uint64_t> sharedSet; std::map<uint64_t, uint32_t> accMask; bool newShared = false;
  std::vector<State*> work; std::map<uint64_t, int> tiIds; int nextTi = 1;
  std::unordered_map<uint64_t, std::vector<State*>> nextLayer; size_t nextCount = 0; int layer = 0;
  bool replaying = false; Model rmodel; std::vector<Event>* revents = nullptr; std::vector<std::pair<int, uint64_t>>* rinputs = nullptr; std::vector<uint64_t>* rlog = nullptr; std::string rverdict;
  std::chrono::steady_clock::time_point t0; uint64_t parentHash = 0; State* parent = nullptr;
  std::map<std::string, uint64_t> concCount; bool aborting = false; size_t noFinal = 0; E survivors = nullptr, stutters = nullptr; std::unordered_map<uint64_t, std::vector<State*>> seen; std::unordered_map<uint64_t, std::vector<std::pair<E, int>>> seenX; std::vector<ModelP> nodeWit; std::vector<std::vector<int>> edges; std::vector<uint8_t> nodeGood; bool anyDrop = false; std::vector<State*> nodeState; uint64_t dataHash(State& S); void addNode(State* S); void drain();

  FnInfo* info(llvm::Function* F);
  void liveness(FnInfo* fi);
  Val constVal(const llvm::Constant* C);
  void initGlobals(); void storeConst(Obj& o, uint64_t off, const llvm::Constant* C);
  State* initialState();
  Obj* find(State& S, uint64_t addr, uint64_t size, size_t* idx = nullptr);
  Obj* findMut(State& S, uint64_t addr, uint64_t size);
  void insertObj(State& S, ObjRef o);
  bool eraseObj(State& S, uint64_t addr);
  uint64_t heapAlloc(State& S, int tid, uint64_t size, uint64_t align, bool noleak);
  E readB(const Obj& o, uint32_t off, uint32_t n); void writeB(Obj& o, uint32_t off, E v);
  Val loadTy(State& S, uint64_t addr, llvm::Type* T, bool& ok); bool storeTy(State& S, uint64_t addr, llvm::Type* T, const Val& v);
  bool conc(State& S, PInst& I, int op, uint64_t& out);
  bool forkVals(State& S, Frame* f, int slot, E e);
  bool forkBool(State& S, E c, const std::function<void(State&, bool)>& fn);
  State* clone(State& S);
  bool wanted(const std::string& kind, const std::string& msg);
  void violate(State& S, const std::string& kind, const std::string& msg);
  std::string where(State& S); std::string whereShort(State& S);
  void pushFrame(State& S, llvm::Function* F, const std::vector<Val>& args);
  void popFrame(State& S); void gotoBB(State& S, int bb);
  bool threadDone(State& S); R doReturn(State& S, const Val& v);
  R exec(State& S); R execCall(State& S, PInst& I); R intrinsic(State& S, PInst& I, llvm::Function* F, std::vector<Val>& a);
  R ext(State& S, PInst& I, const std::string& name, std::vector<Val>& a);
  R ret(State& S, PInst& I, Val v); R unwind(State& S, uint64_t rec, uint64_t ti); bool tiMatch(uint64_t t, uint64_t c); int tiId(uint64_t ti);
  R copyMem(State& S, PInst& I, uint64_t d, uint64_t s, uint64_t n);
  R atomicOp(State& S, PInst& I);
  void runLocal(State* S); void finishStep(State* S); void insertLayer(State* S); uint64_t confHash(State& S, bool withMem = true); bool confEq(State& A, State& B); bool sameData(State& A, State& B); void mergeInto(State& A, State& B);
  void clean(State& S); void cleanStack(Stack& st);
  bool exploreOnce(); void step(State* S); void finalState(State& S); int alive(State& S); bool isShared(uint64_t addr, int tid, State& S);
  E stageEnabled(State& S, int t, bool& sync);
  bool visibleNow(State& S); E mutexHeld(State& S, uint64_t m);
  void event(State& S, PInst* I, char kind); int curSite(State& S);
  E nondet(State& S, const std::string& tag, unsigned w); E choose(State& S, uint64_t n);
  void unsupported(State& S, const std::string& what);
  void tick();
  // race detection
  void raceInit(State& S); void racePlain(State& S, Obj& o, uint32_t off, uint32_t n, bool write); void raceFree(State& S, Obj& o); void raceAtomic(State& S, Obj& o, uint32_t off, uint32_t n, bool rd, bool wr, bool acq, bool rel, bool rmw);
  void hbAcquire(State& S, int t, VCP v); VCP hbRelease(State& S, int t); bool raceOn(State& S); void fence(State& S, bool acq, bool rel); void hbSync(State& S, uint64_t addr, bool acq, bool rel);
  bool raceExempt(State& S);
};
