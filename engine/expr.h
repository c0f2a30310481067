// Hash-consed bit-vector/boolean expression DAG with "value summary" normalisation
// of ITE trees over constants.  All nodes are immutable and live until exit.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

enum class Op : uint8_t {
  Const, Var,
  Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
  Eq, Ult, Ule, Slt, Sle,
  Ite, ZExt, SExt, Extract, Concat,
  FAdd, FSub, FMul, FDiv, FCmp, // operands are raw IEEE bits; aux = fcmp predicate
  FCvt,                         // aux = kind (FPToSI, ...), opaque to the solver unless concrete
};

struct Expr {
  Op op;
  uint8_t w;        // width in bits, 1..64
  bool ct;          // constant, or ITE chain over constants (value summary)
  bool hasIn;       // depends on an input/schedule variable
  uint16_t aux;     // Extract: low bit; FCmp: predicate
  uint32_t id;
  uint64_t v;       // Const: value; Var: variable index
  const Expr *a, *b, *c;
  uint32_t nleaf;   // for ct
  bool isC() const { return op == Op::Const; }
  bool isT() const { return op == Op::Const && v == 1 && w == 1; }
  bool isF() const { return op == Op::Const && v == 0 && w == 1; }
};
using E = const Expr*;

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sextw(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1);
  v &= maskw(w);
  return (int64_t)((v ^ m) - m);
}

E mkC(uint64_t v, unsigned w);
inline E mkB(bool b) { return mkC(b, 1); }
E mkVar(const std::string& name, unsigned w); // interned by name
E mkBin(Op op, E a, E b);
E mkNot(E a);
E mkAnd(E a, E b);
E mkOr(E a, E b);
E mkIte(E c, E a, E b);
E mkEq(E a, E b);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkF(Op op, E a, E b, unsigned aux = 0);
E mkFCvt(unsigned kind, E a, unsigned w);

// leaves of a ct expression, with their guards
struct Leaf { uint64_t v; E g; };
const std::vector<Leaf>& leavesOf(E e);

struct VarInfo { std::string name; unsigned w; E e; };
extern std::vector<VarInfo> gVars;

// total assignment (missing -> 0)
struct Model {
  std::vector<uint64_t> val;
  uint64_t get(uint64_t i) const { return i < val.size() ? val[i] : 0; }
  void set(uint64_t i, uint64_t v) { if (i >= val.size()) val.resize(i + 1, 0); val[i] = v; }
};
using ModelP = std::shared_ptr<const Model>;
uint64_t evalE(E e, const Model& m);

struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, witnessHits = 0; double secs = 0; };
extern SolverStats gSolver;
// is g && c satisfiable?  returns 1/0/-1(unknown).  On 1 fills model, starting from base.
int checkSat(E g, E c, const Model* base, ModelP* out);
E splitGuard(E g, std::vector<E>& liveTerms, E* rest);
void dumpE(E e, int depth = 6);
