#pragma once
#include "ir.h"
#include "solver.h"
#include <atomic>
#include <deque>
#include <set>
namespace vx {
struct Obj { uint32_t rc; uint32_t size; Expr** sy; uint8_t b[1]; };
struct HObj { uint64_t addr, size; Obj* o; uint8_t freed, kind; uint8_t isExc, pad; uint32_t align; const Inst* site; };
struct SObj { uint64_t addr, size; Obj* o; bool alive; };
struct Frame { Fn* fn; int pc; uint32_t regBase, stackBase; int retDst; uint64_t freeOnRet; };
struct Caught { uint64_t exc; };
struct VC { std::vector<uint32_t> c; };
struct Thread {
    std::vector<Frame> fr; std::vector<Val> regs; std::vector<SObj> st; uint64_t stackTop = 0;
    uint64_t pendExc = 0; uint32_t pendSel = 0; std::vector<uint64_t> caught; int uncaught = 0;
    uint8_t status = 0; // 0 runnable, 1 blocked on lock, 2 waiting join, 3 finished
    uint64_t waitOn = 0; uint8_t waitMode = 0; bool atOp = false; // atOp: schedule decision for the current op already taken
    std::vector<uint32_t> vc, relF, acqF; // relF, acqF: for fences
};
struct ExcRec { uint64_t obj, ti, dtor, adjusted; int count; bool rethrown; };
struct SymRec { const char* name; uint8_t w; unsigned idx; };
struct LogRec { const char* tag; Val v; uint8_t w; };
struct Lock { uint64_t addr; int writer; std::vector<int> readers; std::vector<uint32_t> vc, rvc; };
struct Shadow { uint64_t addr; uint32_t wt, wc; std::vector<uint32_t> rd; };
struct State {
    std::vector<Thread> th; int cur = 0;
    std::vector<Obj*> glob; std::vector<HObj> heap; uint64_t heapTop = 0x100000000ull;
    std::vector<Expr*> pc; Model model; std::vector<SymRec> syms; std::vector<LogRec> log; std::vector<uint8_t> sched;
    std::vector<Lock> locks; std::vector<ExcRec> excs; std::vector<std::pair<uint64_t, uint64_t>> atexit;
    uint64_t steps = 0; int preempt = 0; int64_t allocFail = -1; size_t leakMark = 0; bool noLeak = false; int phase = 0; size_t ctorIdx = 0; uint32_t depth = 0;
    std::map<uint64_t, Shadow> shadow; std::map<uint64_t, std::vector<uint32_t>> syncs; // syncs: what the last release of an atomic was ordered after
    State() = default; State(const State& o); ~State(); State& operator=(const State&) = delete;
};
struct Shared {
    std::atomic<int> active; std::atomic<int> stop; // 0 go, 1 stop (enough violations), 2 deadline
    std::atomic<uint64_t> paths, killedAssume, forks, instrs, queries, z3calls, sat, unsat, unknown, cacheHits, solverUs, errors, limit, inconclusive, samples, procs, maxSyms, schedPts, accesses;
    char inconcl[1024]; std::atomic<int> inconclSet;
    std::atomic<int> nViol; std::atomic<int> nReach; std::atomic<int> lock; char reach[256][64];
    char violKey[64][256];
    std::atomic<uint8_t> fnSeen[1]; // trailing
};
struct Options { std::string entry = "vx_main", out = "/tmp/vx-out"; double deadline = 600; uint64_t maxSteps = 20000000; int workers = 8; int maxViol = 12; int preempt = 2; int samples = 40; bool race = false; bool trace = false; };
extern Options opt; extern Shared* sh;
void explore();
}
