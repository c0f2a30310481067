// Command line driver of the symbolic executor: vfsym module.bc [options]
#include "engine.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <cstring>
#include <fstream>
static std::string js(const std::string& s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r + "\""; }
int main(int argc, char** argv) {
  if (argc < 2) { fprintf(stderr, "usage: vfsym module.bc [options]\n"); return 2; }
  std::string out, replayDir; bool once = false; std::string name;
  for (int i = 2; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--race") gOpt.raceMode = 2; else if (a == "--lifetime") gOpt.raceMode = 1; else if (a == "--leak") gOpt.leak = true; else if (a == "--spurcas") gOpt.spurCas = atoi(nx().c_str()); else if (a == "--spurcv") gOpt.spurCv = atoi(nx().c_str());
    else if (a == "--layers") gOpt.maxLayers = atoi(nx().c_str()); else if (a == "--timeout") gOpt.timeout = atof(nx().c_str()); else if (a == "--mem") gOpt.memMB = atoi(nx().c_str()); else if (a == "--fiber") gOpt.fiber = true; else if (a == "-v") gOpt.verbose = true;
    else if (a == "--maxviol") gOpt.maxViol = atoi(nx().c_str()); else if (a == "--only") gOpt.only.push_back(nx()); else if (a == "--exact") gOpt.exact = true; else if (a == "--nomerge") gOpt.noMerge = true; else if (a == "--out") out = nx(); else if (a == "--replays") replayDir = nx(); else if (a == "--once") once = true;
    else if (a == "--param") gOpt.params.push_back(strtoull(nx().c_str(), 0, 0)); else { fprintf(stderr, "bad option %s\n", a.c_str()); return 2; }
  }
  (void)once; llvm::LLVMContext C; llvm::SMDiagnostic err; auto M = llvm::getLazyIRFileModule(argv[1], err, C); if (!M) { err.print("vfsym", llvm::errs()); return 2; }
  Engine E(*M); auto t0 = std::chrono::steady_clock::now(); E.explore(); double secs = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  std::string o = "{\n";
  auto kv = [&](const char* k, uint64_t v) { o += std::string("  \"") + k + "\": " + std::to_string(v) + ",\n"; };
  kv("states", gStats.states); kv("transitions", gStats.transitions); kv("merges", gStats.merges); kv("forks", gStats.forks); kv("instrs", gStats.instrs); kv("layers", gStats.layers); kv("finals", gStats.finals); kv("asserts", gStats.asserts); kv("assert_symbolic", gStats.assertSymbolic); kv("restarts", gStats.restarts); kv("stutters", gStats.stutters); kv("max_layer", gStats.maxLayer);
  kv("queries", gSolver.queries); kv("sat", gSolver.sat); kv("unsat", gSolver.unsat); kv("unknown", gSolver.unknown); kv("witness_hits", gSolver.witnessHits); kv("cache_hits", gSolver.cacheHits);
  char b[64]; snprintf(b, sizeof b, "%.3f", gSolver.secs); o += std::string("  \"solver_secs\": ") + b + ",\n"; snprintf(b, sizeof b, "%.3f", secs); o += std::string("  \"secs\": ") + b + ",\n";
  o += std::string("  \"complete\": ") + (E.incomplete ? "false" : "true") + ",\n  \"incomplete_why\": " + js(E.incompleteWhy) + ",\n  \"inconclusive\": " + js(E.inconclusive) + ",\n";
  std::vector<std::string> fn; E.usedFunctions(fn); o += "  \"functions\": ["; for (size_t i = 0; i < fn.size(); i++) o += (i ? ", " : "") + js(fn[i]); o += "],\n";
  auto trace = [&](const ModelP& m, const std::string& file, std::string& verdict) {
    std::vector<Event> ev; std::vector<std::pair<int, uint64_t>> in; std::vector<uint64_t> log; E.replay(*m, ev, in, log, verdict); if (file.empty()) return;
    std::ofstream f(file); f << "# params"; for (auto p : gOpt.params) f << " " << p; f << "\n"; for (auto p : gOpt.params) f << "P " << p << "\n"; for (auto& i : in) f << "I " << i.first << " " << i.second << "\n"; for (auto l : log) f << "G " << l << "\n"; for (auto& e : ev) f << "E " << e.tid << " " << e.site << " " << e.kind << "\n"; f << "V " << verdict << "\n"; };
  o += "  \"violations\": ["; auto vs = E.viol; auto fm = E.finalModels; auto rc = E.reached; int k = 0;
  for (auto& v : vs) { std::string verdict, file = replayDir.empty() ? "" : replayDir + "/viol" + std::to_string(k) + ".trace"; trace(v.model, file, verdict); o += std::string(k ? ", " : "") + "\n    {\"kind\": " + js(v.kind) + ", \"msg\": " + js(v.msg) + ", \"loc\": " + js(v.loc) + ", \"trace\": " + js(file) + ", \"replay_verdict\": " + js(verdict) + "}"; k++; }
  o += "],\n  \"reached\": ["; k = 0; for (auto& r : rc) o += (k++ ? ", " : "") + js(r.first); o += "],\n  \"witnesses\": ["; k = 0;
  for (auto& m : fm) { std::string verdict, file = replayDir.empty() ? "" : replayDir + "/ok" + std::to_string(k) + ".trace"; trace(m, file, verdict); o += std::string(k ? ", " : "") + "{\"trace\": " + js(file) + ", \"verdict\": " + js(verdict) + "}"; k++; }
  o += "]\n}\n";
  if (out.empty()) fputs(o.c_str(), stdout); else { std::ofstream f(out); f << o; }
  return 0;
}
