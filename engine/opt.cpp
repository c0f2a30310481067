// vfopt in.bc out.bc : the O1 pipeline of clang, with await_suspend kept out of line. clang 18 inlines await_suspend into the
// coroutine and then may move stores to the awaiter behind the operation that publishes the coroutine (llvm issue 56301,
// fixed in later releases); the source does not have that race.
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;
int main(int argc, char** argv) {
  LLVMContext C; SMDiagnostic err; auto M = parseIRFile(argv[1], err, C); if (!M) { err.print("vfopt", errs()); return 1; }
  for (auto& F : *M) if (F.getName().contains("await_suspend")) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); }
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PipelineTuningOptions PTO; PTO.LoopVectorization = false; PTO.SLPVectorization = false;
  PassBuilder PB(nullptr, PTO); PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  auto MPM = PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1); MPM.run(*M, MAM);
  std::error_code ec; raw_fd_ostream o(argv[2], ec); WriteBitcodeToFile(*M, o); return 0;
}
