#include "ir.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
using namespace llvm;
namespace vx {
// 1 atomic, 2 acquires, 4 releases
static uint8_t ord(bool atomic, llvm::AtomicOrdering o) { return !atomic ? 0 : uint8_t(1 | (llvm::isAcquireOrStronger(o) ? 2 : 0) | (llvm::isReleaseOrStronger(o) ? 4 : 0)); }
Program prog;
static const std::unordered_map<std::string, Builtin>& builtins() {
    static const std::unordered_map<std::string, Builtin> t = {
        {"vx_sym", B_vx_sym}, {"vx_bytes", B_vx_bytes}, {"vx_choose", B_vx_choose}, {"vx_pick", B_vx_pick}, {"vx_conc", B_vx_conc}, {"vx_assume", B_vx_assume}, {"vx_check_", B_vx_check},
        {"vx_log", B_vx_log}, {"vx_reach", B_vx_reach}, {"vx_spawn", B_vx_spawn}, {"vx_join", B_vx_join}, {"vx_alloc_fail_in", B_vx_alloc_fail}, {"vx_yield", B_vx_yield}, {"vx_no_leak_check", B_vx_noleak}, {"vx_live", B_vx_live}, {"vx_tid", B_vx_tid}, {"vx_symbolic", B_vx_symbolic}, {"vx_addr_order", B_vx_order},
        {"malloc", B_malloc}, {"calloc", B_calloc}, {"free", B_free}, {"aligned_alloc", B_aligned_alloc}, {"posix_memalign", B_posix_memalign},
        {"_Znwm", B_new}, {"_Znam", B_new}, {"_ZnwmSt11align_val_t", B_newA}, {"_ZnamSt11align_val_t", B_newA}, {"_ZnwmRKSt9nothrow_t", B_newNT}, {"_ZnamRKSt9nothrow_t", B_newNT},
        {"_ZdlPv", B_del}, {"_ZdaPv", B_del}, {"_ZdlPvm", B_delS}, {"_ZdaPvm", B_delS}, {"_ZdlPvSt11align_val_t", B_delA}, {"_ZdaPvSt11align_val_t", B_delA}, {"_ZdlPvmSt11align_val_t", B_delSA}, {"_ZdaPvmSt11align_val_t", B_delSA},
        {"_ZdlPvRKSt9nothrow_t", B_del}, {"_ZdaPvRKSt9nothrow_t", B_del},
        {"memcpy", B_memcpy}, {"memmove", B_memcpy}, {"memset", B_memset}, {"memcmp", B_memcmp}, {"bcmp", B_memcmp}, {"memchr", B_memchr}, {"strlen", B_strlen}, {"strcmp", B_strcmp}, {"strncmp", B_strncmp},
        {"__cxa_allocate_exception", B_cxa_alloc}, {"__cxa_free_exception", B_cxa_free}, {"__cxa_throw", B_cxa_throw}, {"__cxa_begin_catch", B_cxa_begin}, {"__cxa_end_catch", B_cxa_end}, {"__cxa_rethrow", B_cxa_rethrow}, {"__cxa_get_exception_ptr", B_cxa_getptr},
        {"_ZSt19uncaught_exceptionsv", B_uncaught}, {"_ZSt18uncaught_exceptionv", B_uncaught1}, {"_ZSt9terminatev", B_terminate}, {"abort", B_abort}, {"__assert_fail", B_assert}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", B_glibcxx_assert}, {"__cxa_pure_virtual", B_pure},
        {"__cxa_guard_acquire", B_guard_acq}, {"__cxa_guard_release", B_guard_rel}, {"__cxa_guard_abort", B_ret0}, {"__cxa_atexit", B_atexit},
        {"pthread_rwlock_rdlock", B_rw_rd}, {"pthread_rwlock_wrlock", B_rw_wr}, {"pthread_rwlock_tryrdlock", B_rw_tryrd}, {"pthread_rwlock_trywrlock", B_rw_trywr}, {"pthread_rwlock_unlock", B_rw_un},
        {"pthread_mutex_lock", B_mx_lock}, {"pthread_mutex_trylock", B_mx_try}, {"pthread_mutex_unlock", B_mx_un},
        {"pthread_rwlock_init", B_lk_init}, {"pthread_rwlock_destroy", B_lk_destroy}, {"pthread_mutex_init", B_lk_init}, {"pthread_mutex_destroy", B_lk_destroy}, {"pthread_self", B_pself},
        {"printf", B_ret0}, {"puts", B_ret0}, {"fprintf", B_ret0}, {"fputs", B_ret0}, {"fflush", B_ret0}, {"__cxa_deleted_virtual", B_pure},
    };
    return t;
}
static Builtin intrinsic(const Function* f) {
    switch (f->getIntrinsicID()) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::invariant_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::stackrestore: case Intrinsic::var_annotation: return B_i_nop;
    case Intrinsic::invariant_start: return B_i_nop; // only invariant_end takes its result
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return B_i_memcpy;
    case Intrinsic::memset: return B_i_memset;
    case Intrinsic::lifetime_start: return B_i_lstart; case Intrinsic::lifetime_end: return B_i_lend;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: return B_i_copy;
    case Intrinsic::assume: return B_i_nop;
    case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: return B_i_trap;
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: return B_i_ovf;
    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: return B_i_minmax;
    case Intrinsic::abs: return B_i_abs; case Intrinsic::ctpop: return B_i_ctpop; case Intrinsic::ctlz: return B_i_ctlz; case Intrinsic::cttz: return B_i_cttz; case Intrinsic::bswap: return B_i_bswap;
    case Intrinsic::eh_typeid_for: return B_i_typeid; case Intrinsic::objectsize: return B_i_objsize; case Intrinsic::is_constant: return B_i_isconst;
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: case Intrinsic::annotation: case Intrinsic::ptr_annotation: return B_i_copy;
    case Intrinsic::usub_sat: return B_i_satsub; case Intrinsic::uadd_sat: return B_i_satadd; case Intrinsic::fshl: return B_i_fshl; case Intrinsic::fshr: return B_i_fshr;
    case Intrinsic::stacksave: return B_i_stacksave;
    default: return B_i_inconcl;
    }
}
int Program::nslots(Type* t) { std::vector<Slot> v; slotsOf(t, 0, v); return (int)v.size(); }
void Program::slotsOf(Type* t, uint32_t off, std::vector<Slot>& out) {
    if (t->isVoidTy()) return;
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) slotsOf(st->getElementType(i), off + (uint32_t)sl->getElementOffset(i).getFixedValue(), out); return; }
    if (auto* at = dyn_cast<ArrayType>(t)) { auto es = (uint32_t)DL->getTypeAllocSize(at->getElementType()).getFixedValue(); for (uint64_t i = 0; i < at->getNumElements(); ++i) slotsOf(at->getElementType(), off + (uint32_t)i * es, out); return; }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) { auto es = (uint32_t)(DL->getTypeSizeInBits(vt->getElementType()).getFixedValue() / 8); for (unsigned i = 0; i < vt->getNumElements(); ++i) slotsOf(vt->getElementType(), off + i * es, out); return; }
    uint64_t bits = t->isPointerTy() ? 64 : DL->getTypeSizeInBits(t).getFixedValue();
    out.push_back(Slot{off, (uint8_t)(bits > 64 ? 255 : bits)});
}
uint64_t Program::constVal(const Constant* c, bool& ok) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { ok = false; return 0; } return ci->getZExtValue(); }
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
    if (auto* fp = dyn_cast<ConstantFP>(c)) { auto b = fp->getValueAPF().bitcastToAPInt(); if (b.getBitWidth() > 64) { ok = false; return 0; } return b.getZExtValue(); }
    if (auto* ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee(), ok);
    if (auto* gv = dyn_cast<GlobalValue>(c)) { auto it = gaddr.find(gv); if (it == gaddr.end()) { ok = false; return 0; } return it->second; }
    if (auto* de = dyn_cast<DSOLocalEquivalent>(c)) return constVal(de->getGlobalValue(), ok);
    if (auto* nc = dyn_cast<NoCFIValue>(c)) return constVal(nc->getGlobalValue(), ok);
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt o(64, 0); auto* g = cast<GEPOperator>(ce);
            if (!g->accumulateConstantOffset(*DL, o)) { ok = false; return 0; }
            return constVal(cast<Constant>(g->getPointerOperand()), ok) + o.getZExtValue();
        }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Trunc: {
            unsigned w = ce->getType()->isPointerTy() ? 64 : (unsigned)ce->getType()->getIntegerBitWidth();
            return constVal(ce->getOperand(0), ok) & maskw(w);
        }
        case Instruction::Add: return (constVal(ce->getOperand(0), ok) + constVal(ce->getOperand(1), ok)) & maskw(ce->getType()->getIntegerBitWidth());
        case Instruction::Sub: return (constVal(ce->getOperand(0), ok) - constVal(ce->getOperand(1), ok)) & maskw(ce->getType()->getIntegerBitWidth());
        case Instruction::ICmp: { auto x = constVal(ce->getOperand(0), ok), y = constVal(ce->getOperand(1), ok); switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return x == y; case CmpInst::ICMP_NE: return x != y; case CmpInst::ICMP_ULT: return x < y; case CmpInst::ICMP_UGT: return x > y; default: ok = false; return 0; } }
        default: ok = false; return 0;
        }
    }
    ok = false; return 0;
}
void Program::flattenConst(const Constant* c, std::vector<Val>& out) {
    Type* t = c->getType();
    if (t->isAggregateType() || t->isVectorTy()) {
        unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? (unsigned)t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < n; ++i) flattenConst(c->getAggregateElement(i), out);
        return;
    }
    bool ok = true; uint64_t v = constVal(c, ok);
    if (!ok) { std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "vx: unsupported constant %s\n", os.str().c_str()); }
    out.push_back(CV(v));
}
void Program::initBytes(const Constant* c, uint8_t* p) {
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { auto r = cd->getRawDataValues(); memcpy(p, r.data(), r.size()); return; }
    if (auto* cs = dyn_cast<ConstantStruct>(c)) { auto* sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); ++i) initBytes(cs->getOperand(i), p + sl->getElementOffset(i).getFixedValue()); return; }
    if (auto* ca = dyn_cast<ConstantArray>(c)) { auto es = DL->getTypeAllocSize(ca->getType()->getElementType()).getFixedValue(); for (unsigned i = 0; i < ca->getNumOperands(); ++i) initBytes(ca->getOperand(i), p + i * es); return; }
    if (auto* ci = dyn_cast<ConstantInt>(c); ci && ci->getBitWidth() > 64) { auto& v = ci->getValue(); memcpy(p, v.getRawData(), (v.getBitWidth() + 7) / 8); return; }
    bool ok = true; uint64_t v = constVal(c, ok);
    if (!ok) fprintf(stderr, "vx: unsupported initialiser\n");
    unsigned n = (unsigned)DL->getTypeStoreSize(c->getType()).getFixedValue();
    memcpy(p, &v, n > 8 ? 8 : n);
}
static const GlobalValue* stripG(const Constant* c, long& off, const DataLayout& DL) {
    off = 0;
    if (auto* ce = dyn_cast<ConstantExpr>(c)) if (ce->getOpcode() == Instruction::GetElementPtr) { APInt o(64, 0); if (cast<GEPOperator>(ce)->accumulateConstantOffset(DL, o)) off = (long)o.getSExtValue(); return dyn_cast<GlobalValue>(ce->getOperand(0)->stripPointerCasts()); }
    return dyn_cast<GlobalValue>(c->stripPointerCasts());
}
void Program::load(Module* m) {
    M = m; DL = &m->getDataLayout();
    uint64_t fa = 0x400010; uint32_t idx = 0;
    for (auto& f : *m) {
        auto u = std::make_unique<Fn>(); u->f = &f; u->addr = fa; fa += 16; u->index = idx++; u->name = f.getName().str(); u->disp = demangle(u->name);
        if (f.isIntrinsic()) u->bi = intrinsic(&f);
        else { auto it = builtins().find(u->name); if (it != builtins().end()) u->bi = it->second; else if (f.isDeclaration()) u->bi = B_Unknown; }
        if (auto* sp = f.getSubprogram()) { auto* fl = sp->getFile(); std::string p = fl ? fl->getFilename().str() : ""; if (fl && !p.empty() && p[0] != '/') p = fl->getDirectory().str() + "/" + p; u->file = p; u->inRepo = p.find("/code/dynamix/") != std::string::npos || p.find("/code/dnmx/") != std::string::npos || p.find("/v1compat/code/") != std::string::npos || p.find("/prep-") != std::string::npos; }
        fmap[&f] = u.get(); faddr[u->addr] = u.get(); gaddr[&f] = u->addr; gname[u->name] = u->addr; fns.push_back(std::move(u));
    }
    uint64_t ga = 0x10000000;
    for (auto& g : m->globals()) {
        if (g.getName().starts_with("llvm.")) continue;
        Global G; G.g = &g; G.name = g.getName().str(); G.ro = g.isConstant(); G.tls = g.isThreadLocal();
        G.size = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 8;
        if (g.isDeclaration()) { if (G.size < 64) G.size = 64; G.ro = true; }
        uint64_t al = std::max<uint64_t>(16, g.getAlign() ? g.getAlign()->value() : 16);
        ga = (ga + al - 1) / al * al; G.addr = ga; ga += G.size + 32;
        gaddr[&g] = G.addr; gname[G.name] = G.addr; globals.push_back(std::move(G));
    }
    for (auto& G : globals) { G.init.assign(G.size, 0); if (G.g->hasInitializer()) initBytes(G.g->getInitializer(), G.init.data()); if (!G.ro) { G.mutIdx = nMut++; mutGlobals.push_back(int(&G - globals.data())); } }
    // RTTI
    for (auto& G : globals) if (G.name.rfind("_ZTI", 0) == 0) {
        TI t; t.name = G.name.substr(4);
        if (G.g->hasInitializer()) if (auto* cs = dyn_cast<ConstantStruct>(G.g->getInitializer())) {
            long off; if (auto* v = stripG(cs->getOperand(0), off, *DL)) t.vt = v->getName().str();
            if (t.vt == "_ZTVN10__cxxabiv120__si_class_type_infoE") { if (auto* b = stripG(cs->getOperand(2), off, *DL)) t.bases.push_back({gaddr[b], 0}); }
            else if (t.vt == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") {
                unsigned n = (unsigned)cast<ConstantInt>(cs->getOperand(3))->getZExtValue();
                for (unsigned i = 0; i < n; ++i) { auto* b = stripG(cs->getOperand(4 + 2 * i), off, *DL); auto fl = cast<ConstantInt>(cs->getOperand(5 + 2 * i))->getSExtValue(); if (b && !(fl & 1)) t.bases.push_back({gaddr[b], (long)(fl >> 8)}); }
            }
        }
        ti[G.addr] = std::move(t);
    }
}
const Global* Program::globalAt(uint64_t a) const {
    auto it = std::upper_bound(globals.begin(), globals.end(), a, [](uint64_t x, const Global& g) { return x < g.addr; });
    if (it == globals.begin()) return nullptr; --it;
    return a < it->addr + it->size ? &*it : nullptr;
}
bool Program::tiMatch(uint64_t thrown, uint64_t want, long& adj) const {
    if (!want || thrown == want) return true;
    auto t = ti.find(thrown); if (t == ti.end()) return false;
    for (auto& b : t->second.bases) { long s = adj; adj += b.second; if (tiMatch(b.first, want, adj)) return true; adj = s; }
    return false;
}
std::string Program::tiName(uint64_t a) const { auto t = ti.find(a); if (t == ti.end()) return "?"; return demangle("_Z" + t->second.name).rfind("_Z", 0) == 0 ? demangle("_ZTI" + t->second.name).substr(13) : demangle("_Z" + t->second.name); }

std::string locOf(const Instruction* i, bool withLine) {
    if (!i) return "?";
    std::string r;
    auto one = [&](const DILocation* d, const std::string& fn) { std::string f = d->getFilename().str(); r += fn + " (" + f; if (withLine) r += ":" + std::to_string(d->getLine()); r += ")"; };
    if (auto* d = i->getDebugLoc().get()) {
        for (auto* l = d; l; l = l->getInlinedAt()) {
            auto* sp = l->getScope()->getSubprogram(); if (!r.empty()) r += " < ";
            std::string n = sp ? demangle(sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str()) : "?"; one(l, n);
        }
        return r;
    }
    return demangle(i->getFunction()->getName().str());
}
static uint8_t widthOf(Type* t, const DataLayout& DL) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth() > 64 ? 255 : (uint8_t)t->getIntegerBitWidth(); if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; return 255; }

struct FnCompiler {
    Program& P; Fn& F; std::unordered_map<const Value*, int> reg; std::unordered_map<uint64_t, int> poolIdx;
    FnCompiler(Program& p, Fn& f) : P(p), F(f) {}
    int newRegs(int n) { int r = F.nregs; F.nregs += n; return r; }
    int poolAdd(uint64_t v) { auto it = poolIdx.find(v); if (it != poolIdx.end()) return it->second; int i = -(int)F.pool.size() - 1; F.pool.push_back(CV(v)); poolIdx[v] = i; return i; }
    int op(const Value* v) {
        auto it = reg.find(v); if (it != reg.end()) return it->second;
        if (auto* c = dyn_cast<Constant>(v)) {
            std::vector<Val> fl; P.flattenConst(c, fl);
            if (fl.size() == 1) return reg[v] = poolAdd(fl[0].c);
            int i = -(int)F.pool.size() - 1; for (auto& x : fl) F.pool.push_back(x);
            return reg[v] = fl.empty() ? poolAdd(0) : i;
        }
        if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return poolAdd(0);
        // forward reference: allocate now
        int n = P.nslots(v->getType()); int r = newRegs(n); reg[v] = r; return r;
    }
    static int slot(int o, int j) { return o >= 0 ? o + j : o - j; }
    int def(const Instruction* i) { return op(i); }
    int aggIndex(Type* t, ArrayRef<unsigned> idx, Type*& leaf) {
        int off = 0;
        for (unsigned k : idx) {
            if (auto* st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < k; ++j) off += P.nslots(st->getElementType(j)); t = st->getElementType(k); }
            else { auto* e = t->getArrayElementType(); off += (int)k * P.nslots(e); t = e; }
        }
        leaf = t; return off;
    }
    std::unordered_map<const BasicBlock*, int> bbStart;
    std::vector<Edge*> edges;
    void edge(Edge& e, const BasicBlock* from, const BasicBlock* to) { e.from = from; e.to = to; edges.push_back(&e); }
    void run() {
        const Function& f = *F.f;
        for (auto& a : f.args()) { int n = P.nslots(a.getType()); int r = newRegs(n); reg[&a] = r; for (int i = 0; i < n; ++i) F.argSlots.push_back(r + i); }
        F.nret = P.nslots(f.getReturnType());
        // extractvalue aliases: resolve in dominance-insensitive way by pre-registering aggregates on demand
        for (auto& bb : f) for (auto& i : bb) if (auto* ev = dyn_cast<ExtractValueInst>(&i)) alias(ev);
        for (auto& bb : f) {
            bbStart[&bb] = (int)F.code.size();
            for (auto& i : bb) inst(i);
        }
        for (auto* e : edges) {
            e->target = bbStart[e->to];
            for (auto& phi : e->to->phis()) {
                int d = op(&phi), s = op(phi.getIncomingValueForBlock(e->from)); int n = P.nslots(phi.getType());
                for (int j = 0; j < n; ++j) e->mv.push_back(Move{d + j, slot(s, j)});
            }
        }
    }
    int alias(const ExtractValueInst* ev) {
        auto it = reg.find(ev); if (it != reg.end()) return it->second;
        const Value* agg = ev->getAggregateOperand();
        int base = isa<ExtractValueInst>(agg) ? alias(cast<ExtractValueInst>(agg)) : op(agg);
        Type* leaf; int off = aggIndex(agg->getType(), ev->getIndices(), leaf);
        return reg[ev] = slot(base, off);
    }
    Inst& emit(Op o, const Instruction& src) { F.code.emplace_back(); auto& I = F.code.back(); I.op = o; I.src = &src; return I; }
    void unsup(const Instruction& i) { auto& I = emit(O_Unsup, i); std::string s; raw_string_ostream os(s); i.print(os); I.x = new std::string(os.str()); if (!i.getType()->isVoidTy()) def(&i); }
    void inst(const Instruction& i) {
        auto& DL = *P.DL;
        if (isa<DbgInfoIntrinsic>(i) || isa<ExtractValueInst>(i) || isa<PHINode>(i)) return;
        Type* T = i.getType();
        if (T->isVectorTy()) { unsup(i); return; }
        for (auto& o : i.operands()) if (o->getType()->isVectorTy()) { unsup(i); return; }
        switch (i.getOpcode()) {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
        case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
            uint8_t w = widthOf(T, DL); if (w == 255) { unsup(i); return; }
            static const std::map<unsigned, Kind> km = {{Instruction::Add, K_Add}, {Instruction::Sub, K_Sub}, {Instruction::Mul, K_Mul}, {Instruction::UDiv, K_UDiv}, {Instruction::SDiv, K_SDiv}, {Instruction::URem, K_URem}, {Instruction::SRem, K_SRem}, {Instruction::And, K_And}, {Instruction::Or, K_Or}, {Instruction::Xor, K_Xor}, {Instruction::Shl, K_Shl}, {Instruction::LShr, K_LShr}, {Instruction::AShr, K_AShr}};
            int a = op(i.getOperand(0)), b = op(i.getOperand(1)), d = def(&i);
            auto& I = emit(O_Bin, i); I.sub = km.at(i.getOpcode()); I.w = w; I.a = a; I.b = b; I.dst = d;
            if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&i)) I.imm = ob->hasNoSignedWrap() && w >= 32;
            return;
        }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: { int a = op(i.getOperand(0)), b = op(i.getOperand(1)), d = def(&i); auto& I = emit(O_FBin, i); I.sub = (uint8_t)(i.getOpcode() - Instruction::FAdd); I.imm = i.getOpcode(); I.w = widthOf(T, DL); I.a = a; I.b = b; I.dst = d; if (I.w == 255) { F.code.pop_back(); unsup(i); } return; }
        case Instruction::ICmp: {
            auto& c = cast<ICmpInst>(i); uint8_t w = widthOf(c.getOperand(0)->getType(), DL); if (w == 255) { unsup(i); return; }
            int a = op(c.getOperand(0)), b = op(c.getOperand(1)), d = def(&i); auto& I = emit(O_ICmp, i); I.sub = (uint8_t)c.getPredicate(); I.w = w; I.a = a; I.b = b; I.dst = d; return;
        }
        case Instruction::FCmp: { auto& c = cast<FCmpInst>(i); int a = op(c.getOperand(0)), b = op(c.getOperand(1)), d = def(&i); auto& I = emit(O_FCmp, i); I.sub = (uint8_t)c.getPredicate(); I.w = widthOf(c.getOperand(0)->getType(), DL); I.a = a; I.b = b; I.dst = d; return; }
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: {
            uint8_t w = widthOf(i.getOperand(0)->getType(), DL), w2 = widthOf(T, DL); if (w == 255 || w2 == 255) { unsup(i); return; }
            int a = op(i.getOperand(0)), d = def(&i); Op o = O_Move;
            if (w2 < w) o = O_Trunc; else if (w2 > w) o = i.getOpcode() == Instruction::SExt ? O_SExt : O_ZExt;
            auto& I = emit(o, i); I.w = w; I.w2 = w2; I.a = a; I.dst = d; return;
        }
        case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::FPExt: case Instruction::FPTrunc: {
            uint8_t w = widthOf(i.getOperand(0)->getType(), DL), w2 = widthOf(T, DL); if (w == 255 || w2 == 255) { unsup(i); return; }
            int a = op(i.getOperand(0)), d = def(&i); auto& I = emit(O_FCast, i); I.imm = i.getOpcode(); I.w = w; I.w2 = w2; I.a = a; I.dst = d; return;
        }
        case Instruction::Freeze: { int a = op(i.getOperand(0)), d = def(&i); int n = P.nslots(T); for (int j = 0; j < n; ++j) { auto& I = emit(O_Move, i); I.a = slot(a, j); I.dst = d + j; } return; }
        case Instruction::GetElementPtr: {
            auto& g = cast<GetElementPtrInst>(i); auto* x = new GepX; int64_t off = 0; int a = op(g.getPointerOperand());
            for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                Value* idx = gi.getOperand();
                if (auto* st = gi.getStructTypeOrNull()) { off += (int64_t)DL.getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(idx)->getZExtValue()).getFixedValue(); continue; }
                int64_t es = (int64_t)DL.getTypeAllocSize(gi.getIndexedType()).getFixedValue();
                if (auto* ci = dyn_cast<ConstantInt>(idx)) { off += ci->getSExtValue() * es; continue; }
                x->idx.push_back(GepIdx{op(idx), es, widthOf(idx->getType(), DL)});
            }
            int d = def(&i); auto& I = emit(O_Gep, i); I.a = a; I.dst = d; I.imm = (uint64_t)off; if (x->idx.empty()) delete x; else I.x = x; return;
        }
        case Instruction::Load: {
            auto& l = cast<LoadInst>(i); std::vector<Slot> sl; P.slotsOf(T, 0, sl); for (auto& s : sl) if (s.w == 255) { unsup(i); return; }
            int a = op(l.getPointerOperand()), d = def(&i);
            if (sl.size() == 1) { auto& I = emit(O_Load, i); I.w = sl[0].w; I.a = a; I.dst = d; I.imm = l.getAlign().value(); I.sub = ord(l.isAtomic(), l.getOrdering()); }
            else { auto& I = emit(O_LoadAgg, i); I.a = a; I.dst = d; I.x = new AggX{sl}; }
            return;
        }
        case Instruction::Store: {
            auto& s = cast<StoreInst>(i); std::vector<Slot> sl; P.slotsOf(s.getValueOperand()->getType(), 0, sl); for (auto& q : sl) if (q.w == 255) { unsup(i); return; }
            int a = op(s.getPointerOperand()), b = op(s.getValueOperand());
            if (sl.size() == 1) { auto& I = emit(O_Store, i); I.w = sl[0].w; I.a = a; I.b = b; I.imm = s.getAlign().value(); I.sub = ord(s.isAtomic(), s.getOrdering()); }
            else { auto& I = emit(O_StoreAgg, i); I.a = a; I.b = b; I.x = new AggX{sl}; }
            return;
        }
        case Instruction::Alloca: { auto& al = cast<AllocaInst>(i); int n = op(al.getArraySize()), d = def(&i); auto& I = emit(O_Alloca, i); I.a = n; I.dst = d; I.imm = DL.getTypeAllocSize(al.getAllocatedType()).getFixedValue(); I.b = (int)al.getAlign().value(); return; }
        case Instruction::Br: {
            auto& b = cast<BranchInst>(i); auto* x = new BrX;
            if (b.isConditional()) { int c = op(b.getCondition()); edge(x->t, i.getParent(), b.getSuccessor(0)); edge(x->f, i.getParent(), b.getSuccessor(1)); auto& I = emit(O_CondBr, i); I.a = c; I.x = x; }
            else { edge(x->t, i.getParent(), b.getSuccessor(0)); auto& I = emit(O_Br, i); I.x = x; }
            return;
        }
        case Instruction::Switch: {
            auto& s = cast<SwitchInst>(i); auto* x = new SwX; int c = op(s.getCondition()); x->cases.resize(s.getNumCases()); unsigned k = 0;
            for (auto& cs : s.cases()) { x->cases[k].first = cs.getCaseValue()->getZExtValue(); edge(x->cases[k].second, i.getParent(), cs.getCaseSuccessor()); ++k; }
            edge(x->def, i.getParent(), s.getDefaultDest()); auto& I = emit(O_Switch, i); I.a = c; I.x = x; I.w = widthOf(s.getCondition()->getType(), DL); return;
        }
        case Instruction::Ret: { auto& r = cast<ReturnInst>(i); int a = r.getReturnValue() ? op(r.getReturnValue()) : 0; auto& I = emit(O_Ret, i); I.a = a; I.b = F.nret; return; }
        case Instruction::Unreachable: emit(O_Unreachable, i); return;
        case Instruction::Select: { int n = P.nslots(T); int c = op(i.getOperand(0)), a = op(i.getOperand(1)), b = op(i.getOperand(2)), d = def(&i); std::vector<Slot> sl; P.slotsOf(T, 0, sl);
            for (int j = 0; j < n; ++j) { auto& I = emit(O_Select, i); I.c = c; I.a = slot(a, j); I.b = slot(b, j); I.dst = d + j; I.w = sl[j].w; } return; }
        case Instruction::InsertValue: {
            auto& iv = cast<InsertValueInst>(i); int n = P.nslots(T); int a = op(iv.getAggregateOperand()), v = op(iv.getInsertedValueOperand()), d = def(&i);
            Type* leaf; int off = aggIndex(T, iv.getIndices(), leaf); int m = P.nslots(leaf);
            for (int j = 0; j < n; ++j) { auto& I = emit(O_Move, i); I.dst = d + j; I.a = (j >= off && j < off + m) ? slot(v, j - off) : slot(a, j); }
            return;
        }
        case Instruction::LandingPad: { int d = def(&i); auto& I = emit(O_LandingPad, i); I.dst = d; return; }
        case Instruction::Resume: { int a = op(i.getOperand(0)); auto& I = emit(O_Resume, i); I.a = a; return; }
        case Instruction::Fence: { auto& I = emit(O_Fence, i); I.sub = ord(true, cast<FenceInst>(i).getOrdering()); return; }
        case Instruction::AtomicRMW: { auto& r = cast<AtomicRMWInst>(i); int a = op(r.getPointerOperand()), b = op(r.getValOperand()), d = def(&i); auto& I = emit(O_AtomicRMW, i); I.sub = (uint8_t)r.getOperation(); I.w2 = ord(true, r.getOrdering()); I.a = a; I.b = b; I.dst = d; I.w = widthOf(T, DL); I.imm = I.w / 8; return; }
        case Instruction::AtomicCmpXchg: { auto& r = cast<AtomicCmpXchgInst>(i); int a = op(r.getPointerOperand()), b = op(r.getCompareOperand()), c = op(r.getNewValOperand()), d = def(&i); auto& I = emit(O_CmpXchg, i); I.a = a; I.b = b; I.c = c; I.dst = d; I.w = widthOf(r.getCompareOperand()->getType(), DL); I.w2 = ord(true, r.getSuccessOrdering()); return; }
        case Instruction::Call: case Instruction::Invoke: {
            auto& cb = cast<CallBase>(i); auto* x = new CallX;
            if (cb.isInlineAsm()) { unsup(i); return; }
            if (auto* fn = dyn_cast<Function>(cb.getCalledOperand()->stripPointerCasts())) x->callee = P.fmap.at(fn); else x->calleeOp = op(cb.getCalledOperand());
            for (unsigned k = 0; k < cb.arg_size(); ++k) {
                auto* a = cb.getArgOperand(k); if (a->getType()->isMetadataTy()) continue; int o = op(a); std::vector<Slot> sl; P.slotsOf(a->getType(), 0, sl); uint32_t bv = 0;
                if (cb.isByValArgument(k)) bv = (uint32_t)DL.getTypeAllocSize(cb.getParamByValType(k)).getFixedValue();
                for (size_t j = 0; j < sl.size(); ++j) { x->args.push_back(slot(o, (int)j)); x->argw.push_back(sl[j].w); x->byval.push_back(bv); }
            }
            std::vector<Slot> rs; P.slotsOf(T, 0, rs); x->nret = (int)rs.size(); x->retw = rs.empty() ? 0 : rs[0].w; int d = x->nret ? def(&i) : -1;
            if (auto* inv = dyn_cast<InvokeInst>(&i)) {
                x->invoke = true; edge(x->norm, i.getParent(), inv->getNormalDest()); edge(x->unw, i.getParent(), inv->getUnwindDest());
                auto* lp = inv->getLandingPadInst(); x->lp = new LpadX; x->lp->cleanup = lp->isCleanup();
                for (unsigned k = 0; k < lp->getNumClauses(); ++k) {
                    Clause cl; cl.filter = lp->isFilter(k); auto* c = lp->getClause(k); bool ok = true;
                    if (!cl.filter) cl.ti.push_back(P.constVal(c, ok)); else { std::vector<Val> v; P.flattenConst(c, v); for (auto& q : v) cl.ti.push_back(q.c); }
                    x->lp->cl.push_back(cl);
                }
            }
            auto& I = emit(O_Call, i); I.x = x; I.dst = d; I.sub = x->invoke; if (x->callee) I.imm = x->callee->f->getIntrinsicID(); return;
        }
        default: unsup(i); return;
        }
    }
};
void Program::compile(Fn* f) { f->compiled = true; FnCompiler c(*this, *f); c.run(); }
}
