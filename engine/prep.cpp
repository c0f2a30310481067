// vfprep in.bc out.bc : drops code unreachable from vf_main and numbers every atomic operation and call
// site (metadata !vf.site), so that the symbolic run and the native replay agree on site ids.
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/LegacyPassManager.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/ReplaceConstant.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <set>
using namespace llvm;
static void collect(Constant* C, std::set<GlobalValue*>& seen, std::vector<GlobalValue*>& work) {
  if (auto* g = dyn_cast<GlobalValue>(C)) { if (seen.insert(g).second) work.push_back(g); return; }
  for (auto& o : C->operands()) if (auto* c = dyn_cast<Constant>(o.get())) collect(c, seen, work);
}
int main(int argc, char** argv) {
  LLVMContext C; SMDiagnostic err; auto M = parseIRFile(argv[1], err, C); if (!M) { err.print("vfprep", errs()); return 1; }
  std::set<GlobalValue*> seen; std::vector<GlobalValue*> work; auto root = [&](GlobalValue* g) { if (g && seen.insert(g).second) work.push_back(g); };
  root(M->getNamedValue("vf_main")); root(M->getNamedValue("llvm.global_ctors")); root(M->getNamedValue("llvm.used"));
  while (!work.empty()) {
    auto* g = work.back(); work.pop_back();
    if (auto* v = dyn_cast<GlobalVariable>(g)) { if (v->hasInitializer()) collect(v->getInitializer(), seen, work); }
    else if (auto* a = dyn_cast<GlobalAlias>(g)) collect(a->getAliasee(), seen, work);
    else if (auto* f = dyn_cast<Function>(g)) { if (f->hasPersonalityFn()) collect(f->getPersonalityFn(), seen, work); for (auto& B : *f) for (auto& I : B) { for (auto& o : I.operands()) if (auto* c = dyn_cast<Constant>(o.get())) collect(c, seen, work); if (auto* lp = dyn_cast<LandingPadInst>(&I)) for (unsigned k = 0; k < lp->getNumClauses(); k++) collect(lp->getClause(k), seen, work); } }
  }
  for (auto& F : *M) if (!seen.count(&F) && !F.isDeclaration()) { F.deleteBody(); F.setComdat(nullptr); }
  for (auto& G : M->globals()) if (!seen.count(&G) && G.hasInitializer() && !G.getName().starts_with("llvm.")) { G.setInitializer(nullptr); G.setComdat(nullptr); G.setLinkage(GlobalValue::ExternalLinkage); }
  std::vector<GlobalAlias*> da; for (auto& A : M->aliases()) if (!seen.count(&A)) da.push_back(&A); for (auto* A : da) if (A->use_empty()) A->eraseFromParent();
  bool ch = true; while (ch) { ch = false; for (auto it = M->begin(); it != M->end();) { Function* F = &*it++; if (!seen.count(F) && F->use_empty()) { F->eraseFromParent(); ch = true; } } for (auto it = M->global_begin(); it != M->global_end();) { GlobalVariable* G = &*it++; if (!seen.count(G) && G->use_empty() && !G->getName().starts_with("llvm.")) { G->eraseFromParent(); ch = true; } } }
  uint64_t id = 0; for (auto& F : *M) for (auto& B : F) for (auto& I : B) if (I.isAtomic() || (isa<CallBase>(&I) && !isa<IntrinsicInst>(&I))) I.setMetadata("vf.site", MDNode::get(C, ConstantAsMetadata::get(ConstantInt::get(Type::getInt64Ty(C), ++id))));
  // address every thread_local variable (also __tls_guard) through the intrinsic
  for (auto& G : M->globals()) if (G.isThreadLocal()) {
    convertUsersOfConstantsToInstructions({&G});
    std::vector<Use*> us; for (auto& u : G.uses()) if (auto* i = dyn_cast<Instruction>(u.getUser())) { auto* ii = dyn_cast<IntrinsicInst>(i); if (!ii || ii->getIntrinsicID() != Intrinsic::threadlocal_address) us.push_back(&u); }
    for (auto* u : us) { auto* i = cast<Instruction>(u->getUser()); Instruction* at = i; if (auto* ph = dyn_cast<PHINode>(i)) at = ph->getIncomingBlock(*u)->getTerminator();
      u->set(CallInst::Create(Intrinsic::getDeclaration(M.get(), Intrinsic::threadlocal_address, {G.getType()}), {&G}, "", at)); }
  }
  std::error_code ec; raw_fd_ostream o(argv[2], ec); WriteBitcodeToFile(*M, o); return 0;
}
