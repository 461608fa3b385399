#include "exec.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/IPO/AlwaysInliner.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Scalar/EarlyCSE.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <llvm/Transforms/Scalar/InstSimplifyPass.h>
#include <llvm/Transforms/Utils/LowerInvoke.h>
#include <llvm/IR/Verifier.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fstream>
#include <chrono>
using namespace llvm; using namespace vx;
static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
int main(int argc, char** argv) {
    std::vector<std::string> bc;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--out") opt.out = nx(); else if (a == "--entry") opt.entry = nx(); else if (a == "--deadline") opt.deadline = std::stod(nx()); else if (a == "--max-steps") opt.maxSteps = std::stoull(nx());
        else if (a == "--workers") opt.workers = std::stoi(nx()); else if (a == "--max-viol") opt.maxViol = std::stoi(nx()); else if (a == "--preempt") opt.preempt = std::stoi(nx()); else if (a == "--race") opt.race = true; else if (a == "--samples") opt.samples = std::stoi(nx());
        else bc.push_back(a);
    }
    mkdir(opt.out.c_str(), 0755);
    auto t0 = std::chrono::steady_clock::now();
    LLVMContext ctx; SMDiagnostic err; std::unique_ptr<Module> M;
    for (auto& f : bc) {
        auto m = parseIRFile(f, err, ctx); if (!m) { err.print("vxe", errs()); return 3; }
        if (!M) M = std::move(m); else if (Linker::linkModules(*M, std::move(m))) { fprintf(stderr, "vxe: link error on %s\n", f.c_str()); return 3; }
    }
    {
        PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        ModulePassManager MPM;
        MPM.addPass(InternalizePass([&](const GlobalValue& g) { return g.getName() == opt.entry || g.getName().starts_with("vx_rt_") || g.getName().starts_with("_ZTI"); }));
        MPM.addPass(GlobalDCEPass()); MPM.addPass(AlwaysInlinerPass());
        FunctionPassManager FPM; FPM.addPass(SROAPass(SROAOptions::ModifyCFG)); FPM.addPass(EarlyCSEPass()); FPM.addPass(InstSimplifyPass());
        FPM.addPass(SimplifyCFGPass(SimplifyCFGOptions().convertSwitchToLookupTable(false).hoistCommonInsts(false).sinkCommonInsts(false).convertSwitchRangeToICmp(false)));
        FPM.addPass(InstSimplifyPass());
        MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM))); MPM.addPass(GlobalDCEPass());
        MPM.run(*M, MAM);
    }
    prog.load(M.get());
    size_t sz = sizeof(Shared) + prog.fns.size() + 64;
    sh = new (mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)) Shared{};
    explore();
    double secs = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    std::ofstream o(opt.out + "/result.json");
    o << "{\"paths\":" << sh->paths << ",\"assumed_away\":" << sh->killedAssume << ",\"forks\":" << sh->forks << ",\"instructions\":" << sh->instrs << ",\"queries\":" << sh->queries << ",\"z3_calls\":" << sh->z3calls << ",\"sat\":" << sh->sat << ",\"unsat\":" << sh->unsat
      << ",\"unknown\":" << sh->unknown << ",\"cache_hits\":" << sh->cacheHits << ",\"solver_s\":" << sh->solverUs / 1e6 << ",\"failing_paths\":" << sh->errors << ",\"inconclusive\":" << sh->inconclusive << ",\"stop\":" << sh->stop << ",\"violations\":" << sh->nViol << ",\"samples\":" << sh->samples
      << ",\"processes\":" << sh->procs << ",\"max_symbols\":" << sh->maxSyms << ",\"sched_points\":" << sh->schedPts << ",\"tracked_accesses\":" << sh->accesses << ",\"wall_s\":" << secs << ",\"inconclusive_why\":\"" << jesc(sh->inconcl) << "\",\"reached\":[";
    for (int i = 0; i < sh->nReach; ++i) o << (i ? "," : "") << '"' << jesc(sh->reach[i]) << '"';
    o << "],\"functions\":["; bool f = true;
    for (auto& fn : prog.fns) if (sh->fnSeen[fn->index] && fn->inRepo) { o << (f ? "" : ",") << "\"" << jesc(fn->disp) << " [" << jesc(fn->file) << "]\""; f = false; }
    o << "]}\n"; o.close();
    _exit(0);
}
