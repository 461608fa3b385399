// Compiles LLVM IR functions into a flat instruction form which the executor walks.
#pragma once
#include "expr.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/DataLayout.h>
#include <map>
#include <unordered_map>
#include <memory>
namespace vx {
struct Val { uint64_t c; Expr* e; };
static inline Val CV(uint64_t c) { return Val{c, nullptr}; }
static inline Val EV(Expr* e) { return e->isc() ? Val{e->v, nullptr} : Val{0, e}; }
static inline Expr* EX(const Val& v, unsigned w) { return v.e ? v.e : cst(v.c, w); }

enum Op : uint8_t { O_Bin, O_ICmp, O_Trunc, O_ZExt, O_SExt, O_Gep, O_Load, O_LoadAgg, O_Store, O_StoreAgg, O_Alloca, O_Br, O_CondBr, O_Switch,
    O_Ret, O_Call, O_Select, O_Move, O_InsertVal, O_Unreachable, O_LandingPad, O_Resume, O_AtomicRMW, O_CmpXchg, O_Fence, O_Nop, O_FBin, O_FCmp, O_FCast, O_Unsup };

enum Builtin : uint16_t { B_None = 0, B_Unknown,
    B_vx_sym, B_vx_bytes, B_vx_choose, B_vx_pick, B_vx_conc, B_vx_assume, B_vx_check, B_vx_log, B_vx_reach, B_vx_spawn, B_vx_join, B_vx_alloc_fail, B_vx_yield, B_vx_noleak, B_vx_live, B_vx_tid, B_vx_symbolic, B_vx_order,
    B_malloc, B_calloc, B_free, B_aligned_alloc, B_posix_memalign, B_new, B_newA, B_newNT, B_del, B_delS, B_delA, B_delSA,
    B_memcpy, B_memset, B_memcmp, B_memchr, B_strlen, B_strcmp, B_strncmp,
    B_cxa_alloc, B_cxa_free, B_cxa_throw, B_cxa_begin, B_cxa_end, B_cxa_rethrow, B_cxa_getptr, B_uncaught, B_uncaught1, B_terminate, B_abort, B_assert, B_glibcxx_assert, B_pure,
    B_guard_acq, B_guard_rel, B_atexit,
    B_rw_rd, B_rw_wr, B_rw_tryrd, B_rw_trywr, B_rw_un, B_mx_lock, B_mx_try, B_mx_un, B_lk_init, B_lk_destroy, B_ret0, B_pself,
    // intrinsics
    B_i_nop, B_i_memcpy, B_i_memset, B_i_lstart, B_i_lend, B_i_expect, B_i_assume, B_i_trap, B_i_ovf, B_i_minmax, B_i_abs, B_i_ctpop, B_i_ctlz, B_i_cttz, B_i_bswap, B_i_typeid, B_i_objsize, B_i_isconst, B_i_copy, B_i_satsub, B_i_satadd, B_i_fshl, B_i_fshr,
    B_i_stacksave, B_i_inconcl };

struct Fn; struct Inst;
struct Move { int dst, src; };
struct Edge { int target = -1; std::vector<Move> mv; const llvm::BasicBlock *from = nullptr, *to = nullptr; };
struct BrX { Edge t, f; };
struct SwX { std::vector<std::pair<uint64_t, Edge>> cases; Edge def; };
struct GepIdx { int op; int64_t scale; uint8_t w; };
struct GepX { std::vector<GepIdx> idx; };
struct Slot { uint32_t off; uint8_t w; };
struct AggX { std::vector<Slot> sl; };
struct Clause { bool filter; std::vector<uint64_t> ti; };
struct LpadX { bool cleanup; std::vector<Clause> cl; };
struct CallX { Fn* callee = nullptr; int calleeOp = 0; std::vector<int> args; std::vector<uint8_t> argw; std::vector<uint32_t> byval; // byval[i]: size of the pointee to copy, 0 otherwise
    int nret = 0; bool invoke = false; Edge norm, unw; LpadX* lp = nullptr; uint8_t retw = 0; };
struct Inst { Op op; uint8_t sub = 0, w = 0, w2 = 0; int dst = -1, a = 0, b = 0, c = 0; uint64_t imm = 0; void* x = nullptr; const llvm::Instruction* src = nullptr; };

struct Fn {
    const llvm::Function* f = nullptr; uint64_t addr = 0; Builtin bi = B_None; bool compiled = false; uint32_t index = 0;
    std::vector<Inst> code; std::vector<Val> pool; int nregs = 0; std::vector<int> argSlots; std::vector<uint32_t> byvalDummy; int nret = 0; uint8_t retw = 0;
    std::string name, disp; bool inRepo = false; std::string file;
};

struct Global { uint64_t addr, size; bool ro; const llvm::GlobalVariable* g; std::vector<uint8_t> init; std::string name; int mutIdx = -1; bool tls = false; };

struct Program {
    llvm::Module* M; const llvm::DataLayout* DL;
    std::vector<std::unique_ptr<Fn>> fns; std::unordered_map<const llvm::Function*, Fn*> fmap; std::unordered_map<uint64_t, Fn*> faddr;
    std::vector<Global> globals; std::unordered_map<const llvm::GlobalValue*, uint64_t> gaddr; std::unordered_map<std::string, uint64_t> gname; int nMut = 0;
    std::vector<int> mutGlobals;
    struct TI { std::string vt, name; std::vector<std::pair<uint64_t, long>> bases; };
    std::unordered_map<uint64_t, TI> ti;
    void load(llvm::Module* m);
    void compile(Fn* f);
    uint64_t constVal(const llvm::Constant* c, bool& ok); // scalar constant
    void flattenConst(const llvm::Constant* c, std::vector<Val>& out);
    void slotsOf(llvm::Type* t, uint32_t off, std::vector<Slot>& out);
    int nslots(llvm::Type* t);
    void initBytes(const llvm::Constant* c, uint8_t* p);
    const Global* globalAt(uint64_t a) const;
    bool tiMatch(uint64_t thrown, uint64_t want, long& adj) const;
    std::string tiName(uint64_t a) const;
};
extern Program prog;
std::string locOf(const llvm::Instruction* i, bool withLine = true);
std::string topRepoFrame(const llvm::Instruction* i);
}
