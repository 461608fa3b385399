#include "exec.h"
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <chrono>
#include <cmath>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <fstream>
using llvm::CmpInst;
namespace vx {
Options opt; Shared* sh;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double tStart;
static Solver* slv;
// ---------------------------------------------------------------- objects
static Obj* mkObj(uint64_t size, int fill) { auto* o = (Obj*)malloc(sizeof(Obj) + size); o->rc = 1; o->size = (uint32_t)size; o->sy = nullptr; if (fill >= 0) memset(o->b, fill, size); return o; }
static void decO(Obj* o) { if (o && --o->rc == 0) { free(o->sy); free(o); } }
static Obj* cloneO(Obj* o) { auto* n = mkObj(o->size, -1); memcpy(n->b, o->b, o->size); if (o->sy) { n->sy = (Expr**)malloc(sizeof(Expr*) * (o->size + 1)); memcpy(n->sy, o->sy, sizeof(Expr*) * o->size); } return n; }
State::State(const State& o) : th(o.th), cur(o.cur), glob(o.glob), heap(o.heap), heapTop(o.heapTop), pc(o.pc), model(o.model), syms(o.syms), log(o.log), sched(o.sched), locks(o.locks), excs(o.excs), atexit(o.atexit),
    steps(o.steps), preempt(o.preempt), allocFail(o.allocFail), leakMark(o.leakMark), noLeak(o.noLeak), phase(o.phase), ctorIdx(o.ctorIdx), depth(o.depth), shadow(o.shadow), syncs(o.syncs) {
    for (auto* g : glob) if (g) ++g->rc;
    for (auto& h : heap) if (h.o) ++h.o->rc;
    for (auto& t : th) for (auto& s : t.st) if (s.o) ++s.o->rc;
}
State::~State() { for (auto* g : glob) decO(g); for (auto& h : heap) decO(h.o); for (auto& t : th) for (auto& s : t.st) decO(s.o); }

static std::deque<State*> work;
static std::vector<Obj*> roObjs; // per global index, for read-only ones
static std::vector<std::pair<int, uint64_t>> ctors;
static FILE* sampleF; static uint64_t myPaths, mySamples; static uint64_t instrCtr;
static std::set<std::string> internTab;
static const char* intern(const std::string& s) { return internTab.insert(s).first->c_str(); }

static void spin() { while (sh->lock.exchange(1)) usleep(10); }
static void unspin() { sh->lock.store(0); }
static void inconclusive(const std::string& m) { sh->inconclusive++; int z = 0; if (sh->inconclSet.compare_exchange_strong(z, 1)) { strncpy(sh->inconcl, m.c_str(), sizeof sh->inconcl - 1); } }

struct Dead {}; // path ended

// ---------------------------------------------------------------- executor for the current state
static State* S; static Thread* T; static Frame* F; static Val* R; static const Inst* I;
static inline void sync() { T = &S->th[S->cur]; if (T->fr.empty()) { F = nullptr; return; } F = &T->fr.back(); R = T->regs.data() + F->regBase; }
static inline Val rd(int o) { return o >= 0 ? R[o] : F->fn->pool[-o - 1]; }
static inline void wr(int o, Val v) { R[o] = v; }

static std::string stackTrace() {
    std::string r; int n = 0;
    for (auto it = T->fr.rbegin(); it != T->fr.rend() && n < 14; ++it, ++n) { if (it->pc < (int)it->fn->code.size()) r += "    " + locOf(it->fn->code[it->pc].src) + "\n"; }
    return r;
}
static std::string topFrame() { // innermost frame which lies in the repository
    for (auto it = T->fr.rbegin(); it != T->fr.rend(); ++it) {
        auto* in = it->fn->code[std::min<size_t>(it->pc, it->fn->code.size() - 1)].src;
        if (auto* d = in->getDebugLoc().get()) for (auto* l = d; l; l = l->getInlinedAt()) { auto f = l->getFilename().str(); if (f.find("/code/d") != std::string::npos) { auto* sp = l->getScope()->getSubprogram(); return (sp ? sp->getName().str() : "?") + "@" + f.substr(f.rfind('/') + 1); } }
        if (it->fn->inRepo) return it->fn->f->getName().str();
    }
    return "harness";
}
static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static void writeReplay(FILE* f, const Model& m) {
    for (auto& s : S->syms) fprintf(f, "%s %u %llu\n", s.name, s.w, (unsigned long long)(m.get(s.idx) & maskw(s.w)));
    if (!S->sched.empty()) { fprintf(f, "#sched"); for (auto c : S->sched) fprintf(f, " %u", c); fprintf(f, "\n"); }
}
static void violation(const std::string& kind, const std::string& msg, const Model& m) {
    std::string key = kind + ": " + msg + (kind == "check" || kind == "leak" ? "" : " in " + topFrame());
    spin();
    int n = sh->nViol; bool dup = false; int cnt = 0;
    for (int i = 0; i < n && i < 64; ++i) if (!strncmp(sh->violKey[i], key.c_str(), 255)) { dup = true; ++cnt; }
    bool rec = n < 64 && (!dup || cnt < 3);
    if (rec) { strncpy(sh->violKey[n], key.c_str(), 255); sh->nViol++; }
    std::set<std::string> ks; for (int i = 0; i < sh->nViol && i < 64; ++i) ks.insert(sh->violKey[i]);
    if ((int)ks.size() >= opt.maxViol) sh->stop = 1;
    unspin();
    sh->errors++;
    if (!rec) return;
    char p[600]; snprintf(p, sizeof p, "%s/viol-%d.replay", opt.out.c_str(), n);
    if (FILE* f = fopen(p, "w")) { writeReplay(f, m); fclose(f); }
    snprintf(p, sizeof p, "%s/viol-%d.json", opt.out.c_str(), n);
    if (FILE* f = fopen(p, "w")) {
        std::string logs; Model mm = m; for (auto& l : S->log) { logs += std::string(l.tag) + "=" + std::to_string(l.v.e ? evalExpr(l.v.e, mm) : l.v.c) + " "; }
        fprintf(f, "{\"key\": \"%s\", \"kind\": \"%s\", \"msg\": \"%s\", \"stack\": \"%s\", \"log\": \"%s\", \"pc\": %zu}\n", jesc(key).c_str(), jesc(kind).c_str(), jesc(msg).c_str(), jesc(stackTrace()).c_str(), jesc(logs).c_str(), S->pc.size()); fclose(f);
    }
}
[[noreturn]] static void fail(const std::string& kind, const std::string& msg) { violation(kind, msg, S->model); throw Dead{}; }
[[noreturn]] static void giveUp(const std::string& msg) { inconclusive(msg + " at " + locOf(I ? I->src : nullptr)); throw Dead{}; }

// is cond implied syntactically by the path condition? 1 true, 0 false, -1 unknown
static int known(Expr* c) {
    if (c->isc()) return (int)c->v;
    Expr* n = mkNot(c);
    bool eqc = c->k == K_Eq && c->b->isc();
    for (auto it = S->pc.rbegin(); it != S->pc.rend(); ++it) { if (*it == c) return 1; if (*it == n) return 0; if (eqc && (*it)->k == K_Eq && (*it)->a == c->a && (*it)->b->isc()) return (*it)->b->v == c->b->v; }
    return -1;
}
static void addPC(Expr* c) {
    if (c->isc()) return;
    if (c->k == K_And && c->w == 1) { addPC(c->a); addPC(c->b); return; }
    for (auto* e : S->pc) if (e == c) return;
    S->pc.push_back(c);
}
static int feasible(Expr* c, Model& m) {
    int r = slv->check(S->pc, c, m);
    if (r < 0) inconclusive("solver gave no answer");
    return r;
}
static std::map<std::string, uint64_t> forkStat; static const bool forkStats = getenv("VX_FORKSTAT") != nullptr;
static State* forkWith(Expr* c, Model m) {
    if (forkStats) ++forkStat[locOf(I ? I->src : nullptr)];
    auto* n = new State(*S); n->model = std::move(m); ++n->depth; sh->forks++;
    State* sv = S; S = n; addPC(c); S = sv;
    work.push_back(n); return n;
}
// decide a condition: the current path follows its model; the other side (if feasible) re-executes the current instruction
static bool decide(Expr* c) {
    int k = known(c); if (k >= 0) return k;
    bool b = evalExpr(c, S->model);
    Expr* mine = b ? c : mkNot(c); Expr* other = mkNot(mine);
    Model m = S->model;
    if (feasible(other, m) == 1) { forkWith(other, m); }
    addPC(mine);
    return b;
}
static uint64_t conc(Expr* e, unsigned w) {
    if (e->isc()) return e->v;
    uint64_t v = evalExpr(e, S->model);
    Expr* eq = mkEq(e, cst(v, w));
    if (known(eq) == 1) return v;
    Model m = S->model; Expr* ne = mkNot(eq);
    if (feasible(ne, m) == 1) forkWith(ne, m);
    addPC(eq);
    return v;
}
static uint64_t concOp(int o, unsigned w) { // concretise an operand (and remember it in its register)
    Val v = rd(o); if (!v.e) return v.c;
    uint64_t c = conc(v.e, w); if (o >= 0) R[o] = CV(c); return c;
}
// ---------------------------------------------------------------- memory
struct Ref { Obj** slot; uint64_t off; uint64_t base, size; bool ro; };
static const char* lookup(uint64_t a, uint64_t n, Ref& r) {
    if (a >= 0x7f0000000000ull) {
        int t = int((a - 0x7f0000000000ull) >> 32); if (t >= (int)S->th.size()) return "access to invalid address";
        auto& st = S->th[t].st;
        auto it = std::upper_bound(st.begin(), st.end(), a, [](uint64_t x, const SObj& o) { return x < o.addr; });
        if (it == st.begin()) return "access to a stack object which is gone"; --it;
        if (a >= it->addr + it->size || n > it->addr + it->size - a) return a <= it->addr + it->size ? "out of bounds access to a stack object" : "access to a stack object which is gone (or out of bounds)";
        if (!it->alive) return "access to a local variable out of its scope";
        r = Ref{&it->o, a - it->addr, it->addr, it->size, false}; return nullptr;
    }
    if (a >= 0x100000000ull) {
        auto& h = S->heap; auto it = std::upper_bound(h.begin(), h.end(), a, [](uint64_t x, const HObj& o) { return x < o.addr; });
        if (it == h.begin()) return "access to invalid address"; --it;
        if (a >= it->addr + it->size || n > it->addr + it->size - a) return a <= it->addr + it->size + 32 ? "heap buffer overflow" : "access to invalid address";
        if (it->freed) return "use after free";
        r = Ref{&it->o, a - it->addr, it->addr, it->size, false}; return nullptr;
    }
    if (a < 0x10000) return "null pointer access";
    if (auto* g = prog.globalAt(a)) {
        if (n > g->addr + g->size - a) return "out of bounds access to a global";
        int gi = int(g - prog.globals.data());
        if (g->ro) { r = Ref{&roObjs[gi], a - g->addr, g->addr, g->size, true}; return nullptr; }
        r = Ref{&S->glob[g->mutIdx], a - g->addr, g->addr, g->size, false}; return nullptr;
    }
    return "access to invalid address";
}
static void race(uint64_t a, uint64_t n, bool write);
static Ref acc(uint64_t a, uint64_t n, bool write) {
    Ref r; if (const char* e = lookup(a, n, r)) { char b[160]; snprintf(b, sizeof b, "%s (%s of %llu bytes)", e, write ? "write" : "read", (unsigned long long)n); fail("memory", b); }
    if (write) { if (r.ro) fail("memory", "write to constant memory"); if ((*r.slot)->rc > 1) { auto* c = cloneO(*r.slot); --(*r.slot)->rc; *r.slot = c; } }
    if (opt.race && S->th.size() > 1) race(a, n, write);
    return r;
}
// resolve a possibly symbolic address to a concrete one
static uint64_t addrOp(int o, uint64_t n) {
    Val v = rd(o); if (!v.e) return v.c;
    uint64_t a = evalExpr(v.e, S->model);
    Ref r; const char* bad = lookup(a, n, r);
    if (!bad) {
        // outside of this object?
        Expr* in = mk(K_Ult, 1, mk(K_Sub, 64, v.e, cst(r.base, 64)), cst(r.size - n + 1, 64));
        if (known(in) != 1) { Model m = S->model; Expr* out = mkNot(in); if (feasible(out, m) == 1) forkWith(out, m); addPC(in); }
    }
    uint64_t c = conc(v.e, 64); if (o >= 0) R[o] = CV(c); return c;
}
static Expr* symByte(Obj* o, uint64_t i) { return o->sy && o->sy[i] ? o->sy[i] : cst(o->b[i], 8); }
static Val ldBytes(Obj* o, uint64_t off, unsigned n) { // n<=8
    bool any = false; if (o->sy) for (unsigned i = 0; i < n; ++i) if (o->sy[off + i]) { any = true; break; }
    if (!any) { uint64_t v = 0; memcpy(&v, o->b + off, n); return CV(v); }
    Expr* e = symByte(o, off); for (unsigned i = 1; i < n; ++i) e = mkConcat(symByte(o, off + i), e);
    return EV(e);
}
static void stBytes(Obj* o, uint64_t off, unsigned n, Val v) {
    if (!v.e) { memcpy(o->b + off, &v.c, n); if (o->sy) for (unsigned i = 0; i < n; ++i) o->sy[off + i] = nullptr; return; }
    if (!o->sy) o->sy = (Expr**)calloc(o->size + 1, sizeof(Expr*));
    for (unsigned i = 0; i < n; ++i) { Expr* b = mkExtract(v.e, i * 8, 8); if (b->isc()) { o->b[off + i] = (uint8_t)b->v; o->sy[off + i] = nullptr; } else o->sy[off + i] = b; }
}
static Val load(uint64_t a, unsigned w) {
    unsigned n = (w + 7) / 8; auto r = acc(a, n, false); Val v = ldBytes(*r.slot, r.off, n);
    if (w & 7) { if (v.e) v = EV(mkExtract(v.e, 0, w)); else v.c &= maskw(w); }
    return v;
}
static void store(uint64_t a, unsigned w, Val v) {
    unsigned n = (w + 7) / 8; auto r = acc(a, n, true);
    if (w & 7) { if (v.e) v = EV(mkZExt(v.e, n * 8)); else v.c &= maskw(w); }
    stBytes(*r.slot, r.off, n, v);
}
static void copyMem(uint64_t d, uint64_t s, uint64_t n) {
    if (!n) return; // a null pointer with length zero is accepted by the C library in practice
    auto rs = acc(s, n, false); if ((*rs.slot)->rc < 0xffffffff) ++(*rs.slot)->rc; Obj* so = *rs.slot;
    std::vector<uint8_t> b(so->b + rs.off, so->b + rs.off + n); std::vector<Expr*> sy; if (so->sy) sy.assign(so->sy + rs.off, so->sy + rs.off + n);
    decO(so);
    auto r = acc(d, n, true); Obj* o = *r.slot;
    memcpy(o->b + r.off, b.data(), n);
    bool any = false; for (auto* e : sy) if (e) any = true;
    if (any && !o->sy) o->sy = (Expr**)calloc(o->size + 1, sizeof(Expr*));
    if (o->sy) for (uint64_t i = 0; i < n; ++i) o->sy[r.off + i] = sy.empty() ? nullptr : sy[i];
}
// ---- addresses which are one of a few constants: the access is made at each and merged
struct Leaf { Expr* g; uint64_t a; };
static bool leavesOf(Expr* e, Expr* g, std::vector<Leaf>& out) {
    if (e->isc()) { for (auto& l : out) if (l.a == e->v) { l.g = mkOr1(l.g, g); return true; } out.push_back({g, e->v}); return out.size() <= 12; }
    if (e->k != K_Ite) return false;
    int k = known(e->a); if (k >= 0) return leavesOf(k ? e->b : e->c, g, out);
    return leavesOf(e->b, mkAnd1(g, e->a), out) && leavesOf(e->c, mkAnd1(g, mkNot(e->a)), out);
}
// the feasible leaves of a symbolic address, all of them accessible; false: make the address concrete instead
static bool mergeable(Expr* e, uint64_t n, uint64_t align, bool write, std::vector<Leaf>& out) {
    if (e->k != K_Ite || opt.race) return false;
    out.clear(); if (!leavesOf(e, cst(1, 1), out)) return false;
    std::vector<Leaf> r;
    for (auto& l : out) { Ref rf; bool bad = lookup(l.a, n, rf) || (l.a & (align - 1)) || (write && rf.ro); if (!bad) { r.push_back(l); continue; } if (l.g->isc()) return false; Model m = S->model; if (feasible(l.g, m) != 0) return false; }
    out.swap(r); return !out.empty();
}
static Val loadMerged(const std::vector<Leaf>& lv, unsigned w) {
    Val v = load(lv.back().a, w); if (lv.size() == 1) return v;
    Expr* e = EX(v, w);
    for (size_t i = lv.size() - 1; i-- > 0;) e = mkIte(lv[i].g, EX(load(lv[i].a, w), w), e);
    return EV(e);
}
static void storeMerged(const std::vector<Leaf>& lv, unsigned w, Val v) {
    if (lv.size() == 1) { store(lv[0].a, w, v); return; }
    for (auto& l : lv) store(l.a, w, EV(mkIte(l.g, EX(v, w), EX(load(l.a, w), w))));
}
static uint64_t heapAlloc(uint64_t size, uint64_t align, int kind, bool exc = false) {
    if (!align || (align & (align - 1))) return 0;
    uint64_t al = std::max<uint64_t>(align, kind == 3 ? 1 : 16); if (kind == 3 && al < 8) al = 8;
    uint64_t a = (S->heapTop + 32 + al - 1) / al * al; if (a % (2 * al) == 0) a += al;
    S->heapTop = a + size; S->heap.push_back(HObj{a, size, mkObj(size, 0xCD), 0, (uint8_t)kind, exc, 0, (uint32_t)align, I}); return a;
}
static HObj* heapAt(uint64_t a) { auto& h = S->heap; auto it = std::lower_bound(h.begin(), h.end(), a, [](const HObj& o, uint64_t x) { return o.addr < x; }); return it != h.end() && it->addr == a ? &*it : nullptr; }
// kinds: 1 malloc, 2 operator new, 3 aligned new, 4 exception, 5 aligned_alloc
static void heapFree(uint64_t a, int family, int64_t size, int64_t align) {
    if (!a) return;
    auto* h = heapAt(a);
    if (!h) { Ref r; const char* e = a >= 0x100000000ull && !lookup(a, 1, r) ? "free of a pointer into the middle of a block" : "free of a pointer which was not allocated"; fail("memory", e); }
    if (h->freed) fail("memory", "double free");
    bool ok = family == 1 ? (h->kind == 1 || h->kind == 5) : family == 2 ? h->kind == 2 : family == 3 ? h->kind == 3 : h->kind == 4;
    if (!ok) fail("memory", "block freed with a function of another allocation family");
    if (size >= 0 && (uint64_t)size != h->size) fail("memory", "sized deallocation with a size other than the allocated one");
    if (align >= 0 && (uint64_t)align != h->align) fail("memory", "aligned deallocation with an alignment other than the allocated one");
    if (opt.race && S->th.size() > 1 && h->size) race(a, h->size, true);
    decO(h->o); h->o = nullptr; h->freed = 1;
}
// ---------------------------------------------------------------- calls
static void touchFn(Fn* f) { if (!f->compiled) prog.compile(f); sh->fnSeen[f->index].store(1, std::memory_order_relaxed); }
static void pushFrame(Fn* fn, const Val* args, size_t n, int retDst, uint64_t freeOnRet = 0) {
    touchFn(fn);
    if (T->fr.size() > 400) fail("resource", "call depth over 400: runaway recursion");
    uint32_t base = (uint32_t)T->regs.size(); T->regs.resize(base + fn->nregs);
    if (n != fn->argSlots.size()) giveUp("argument count mismatch in call of " + fn->disp);
    for (size_t i = 0; i < n; ++i) T->regs[base + fn->argSlots[i]] = args[i];
    T->fr.push_back(Frame{fn, 0, base, (uint32_t)T->st.size(), retDst, freeOnRet}); sync();
}
static void takeEdge(const Edge& e) {
    if (e.mv.size() == 1) { R[e.mv[0].dst] = rd(e.mv[0].src); }
    else if (!e.mv.empty()) { Val tmp[64]; std::vector<Val> big; Val* t = tmp; if (e.mv.size() > 64) { big.resize(e.mv.size()); t = big.data(); } for (size_t i = 0; i < e.mv.size(); ++i) t[i] = rd(e.mv[i].src); for (size_t i = 0; i < e.mv.size(); ++i) R[e.mv[i].dst] = t[i]; }
    F->pc = e.target;
}
static void popFrame() { for (size_t i = F->stackBase; i < T->st.size(); ++i) decO(T->st[i].o); T->st.resize(F->stackBase); T->regs.resize(F->regBase); T->fr.pop_back(); sync(); }
// after a call instruction completed in the current frame
static void advance(const Inst* in) { if (in->op == O_Call && in->sub) takeEdge(static_cast<CallX*>(in->x)->norm); else ++F->pc; }
static ExcRec* exc(uint64_t a) { for (auto& e : S->excs) if (e.obj == a) return &e; return nullptr; }
static void unwind(uint64_t e) {
    auto* x = exc(e); if (!x) giveUp("unwinding an unknown exception");
    auto matches = [&](const LpadX* lp, uint32_t& sel, uint64_t& adj) { // 0 none, 1 handler, 2 cleanup only
        for (auto& c : lp->cl) {
            if (c.filter) { bool in = false; for (auto t : c.ti) { long a = 0; if (prog.tiMatch(x->ti, t, a)) in = true; } if (!in) { sel = 0x80000000u; adj = e; return 1; } continue; }
            long a = 0; if (prog.tiMatch(x->ti, c.ti[0], a)) { sel = c.ti[0] ? (uint32_t)c.ti[0] : 0x7ffffff0u; adj = e + a; return 1; }
        }
        return lp->cleanup ? 2 : 0;
    };
    bool found = false; uint32_t sel; uint64_t adj = e;
    for (int i = (int)T->fr.size() - 1; i >= 0 && !found; --i) { auto& fr = T->fr[i]; auto& in = fr.fn->code[fr.pc]; if (in.op == O_Call && in.sub) { if (matches(static_cast<CallX*>(in.x)->lp, sel, adj) == 1) { found = true; x->adjusted = adj; } } }
    if (!found) fail("exception", "uncaught exception of type " + prog.tiName(x->ti));
    for (;;) {
        auto& in = F->fn->code[F->pc];
        if (in.op == O_Call && in.sub) {
            auto* cx = static_cast<CallX*>(in.x); uint64_t a2; int m = matches(cx->lp, sel, a2);
            if (m) { T->pendExc = e; T->pendSel = m == 1 ? sel : 0; takeEdge(cx->unw); return; }
        }
        popFrame();
    }
}
static uint64_t rtFn(const char* n) { auto it = prog.gname.find(n); return it == prog.gname.end() ? 0 : it->second; }
static void callRt(const char* n) { auto a = rtFn(n); if (!a) giveUp(std::string("runtime function missing: ") + n); pushFrame(prog.faddr[a], nullptr, 0, -1); }

static std::string readStr(uint64_t a) { // concrete prefix
    std::string s; Ref r; if (!a || lookup(a, 1, r)) return "?";
    for (uint64_t i = r.off; i < r.size && s.size() < 300; ++i) { Obj* o = *r.slot; if (o->sy && o->sy[i]) { s += '?'; continue; } if (!o->b[i]) break; s += (char)o->b[i]; }
    return s;
}
static std::string readStrN(uint64_t a) { return readStr(a); }
// ---------------------------------------------------------------- threads
static void vcJoin(std::vector<uint32_t>& a, const std::vector<uint32_t>& b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); ++i) a[i] = std::max(a[i], b[i]); }
static void vcTick(int t) { auto& v = S->th[t].vc; if ((int)v.size() <= t) v.resize(t + 1, 0); ++v[t]; }
static uint32_t vcAt(const std::vector<uint32_t>& v, int t) { return t < (int)v.size() ? v[t] : 0; }
static bool atomicAccess = false;
static void syncLoad(uint64_t a, uint8_t o) { if (S->th.size() == 1) return; auto it = S->syncs.find(a); if (it == S->syncs.end()) return; vcJoin(o & 2 ? T->vc : T->acqF, it->second); }
static void syncStore(uint64_t a, uint8_t o, bool rmw) {
    if (S->th.size() == 1) return;
    std::vector<uint32_t> v; if (o & 4) v = T->vc; else v = T->relF;
    if (rmw) vcJoin(S->syncs[a], v); else if (v.empty()) S->syncs.erase(a); else S->syncs[a] = v;
    if (o & 4) vcTick(S->cur);
}
static void race(uint64_t a, uint64_t n, bool write) {
    // a thread's own stack is not tracked
    if (atomicAccess) return;
    if (a >= 0x7f0000000000ull && int((a - 0x7f0000000000ull) >> 32) == S->cur) return;
    int me = S->cur; auto& vc = T->vc;
    // all others are finished and joined
    bool alone = true; for (int t = 0; t < (int)S->th.size() && alone; ++t) if (t != me && (S->th[t].status != 3 || vcAt(vc, t) < vcAt(S->th[t].vc, t))) alone = false;
    if (alone) { if (!S->shadow.empty()) { S->shadow.clear(); S->syncs.clear(); } return; }
    sh->accesses++;
    for (uint64_t g = a & ~7ull; g < a + n; g += 8) {
        auto& s = S->shadow[g];
        if (s.wc && (int)s.wt != me && s.wc > vcAt(vc, s.wt)) { S->shadow[g].wc = 0; fail("race", std::string("data race: ") + (write ? "write" : "read") + " not ordered with a write of another thread"); }
        if (write) {
            for (int t = 0; t < (int)s.rd.size(); ++t) if (t != me && s.rd[t] > vcAt(vc, t)) fail("race", "data race: write not ordered with a read of another thread");
            s.wt = me; s.wc = vcAt(vc, me); s.rd.clear();
        } else { if ((int)s.rd.size() <= me) s.rd.resize(me + 1, 0); s.rd[me] = vcAt(vc, me); }
    }
}
static Lock& lockAt(uint64_t a) { for (auto& l : S->locks) if (l.addr == a) return l; S->locks.push_back(Lock{a, -1, {}, {}, {}}); return S->locks.back(); }
static bool lockFree(uint64_t a, int mode) { auto& l = lockAt(a); if (mode == 1) return l.writer < 0; return l.writer < 0 && l.readers.empty(); } // 1 read, 2 write
static bool canRun(int t) {
    auto& th = S->th[t];
    if (th.status == 0) return true; if (th.status == 3) return false;
    if (th.status == 1) return lockFree(th.waitOn, th.waitMode);
    if (th.status == 2) { return S->th[th.waitOn].status == 3; }
    return false;
}
// a scheduling point before the operation at the current instruction; returns false if another thread was switched to
static bool schedPoint() {
    if (S->th.size() == 1) return true;
    if (T->atOp) { T->atOp = false; return true; }
    sh->schedPts++;
    int me = S->cur; T->atOp = true;
    if (S->preempt < opt.preempt) for (int t = 0; t < (int)S->th.size(); ++t) if (t != me && canRun(t)) {
        auto* n = new State(*S); ++n->depth; sh->forks++; n->cur = t; n->th[t].status = 0; ++n->preempt; n->sched.push_back((uint8_t)t); work.push_back(n);
    }
    S->sched.push_back((uint8_t)me); T->atOp = false; return true;
}
// the current thread cannot go on: pick each runnable one
static void switchAway() {
    std::vector<int> c; for (int t = 0; t < (int)S->th.size(); ++t) if (t != S->cur && canRun(t)) c.push_back(t);
    if (c.empty()) { bool allDone = true; for (auto& t : S->th) if (t.status != 3) allDone = false; if (allDone) return; fail("deadlock", "no thread can proceed"); }
    for (size_t i = 1; i < c.size(); ++i) { auto* n = new State(*S); ++n->depth; sh->forks++; n->cur = c[i]; n->th[c[i]].status = 0; n->sched.push_back((uint8_t)c[i]); work.push_back(n); }
    S->sched.push_back((uint8_t)c[0]); S->cur = c[0]; S->th[c[0]].status = 0; sync();
}
static void endPath();
static void threadDone() { // current thread's outermost frame returned
    T->status = 3;
    if (S->th.size() == 1 || S->cur == 0) return;
    vcTick(S->cur);
    switchAway();
}
// ---------------------------------------------------------------- end of a path
static void sample(bool force) {
    if (mySamples >= (uint64_t)opt.samples) return;
    if (!(force || myPaths < 4 || (myPaths & (myPaths - 1)) == 0 || myPaths % 61 == 0)) return;
    ++mySamples; sh->samples++;
    if (!sampleF) { char p[600]; snprintf(p, sizeof p, "%s/samples.%d", opt.out.c_str(), (int)getpid()); sampleF = fopen(p, "w"); }
    if (!sampleF) return;
    fprintf(sampleF, "@path\n"); writeReplay(sampleF, S->model);
    fprintf(sampleF, "@log\n"); for (auto& l : S->log) fprintf(sampleF, "%s %llu\n", l.tag, (unsigned long long)(l.v.e ? evalExpr(l.v.e, S->model) : l.v.c));
    fprintf(sampleF, "@end\n"); fflush(sampleF);
}
static void finishPath() {
    if (!S->noLeak) for (size_t i = S->leakMark; i < S->heap.size(); ++i) { auto& h = S->heap[i]; if (!h.freed) { std::string where = h.site ? locOf(h.site->src, false) : "?"; if (where.size() > 160) where.resize(160); violation(h.isExc ? "leak" : "leak", "block of memory not released, allocated in " + where, S->model); throw Dead{}; } }
    sh->paths++; sample(false); ++myPaths;
    throw Dead{};
}
// phases: 0 global ctors, 1 main, 2 atexit
static void nextPhase() {
    if (S->phase == 0) {
        if (S->ctorIdx < ctors.size()) { auto a = ctors[S->ctorIdx++].second; pushFrame(prog.faddr[a], nullptr, 0, -1); return; }
        S->phase = 1; S->leakMark = S->heap.size(); auto a = rtFn(opt.entry.c_str()); if (!a) giveUp("no entry function"); pushFrame(prog.faddr[a], nullptr, 0, -1); return;
    }
    if (S->phase == 1) { for (size_t t = 1; t < S->th.size(); ++t) if (S->th[t].status != 3) fail("check", "harness ended with a running thread"); S->phase = 2; }
    if (!S->atexit.empty()) { auto p = S->atexit.back(); S->atexit.pop_back(); Val v = CV(p.second); auto* fn = prog.faddr[p.first]; if (!fn) giveUp("bad atexit"); touchFn(fn); if (fn->bi) { return nextPhase(); } pushFrame(fn, &v, fn->argSlots.size(), -1); return; }
    finishPath();
}
// ---------------------------------------------------------------- builtins
static bool fnNameIs(const Fn* f, const char* s) { return f->name == s; }
static bool allocFails() { if (S->allocFail < 0) return false; if (S->allocFail == 0) { S->allocFail = -1; return true; } --S->allocFail; return false; }
static unsigned newSym(std::string name, unsigned w) { for (auto& c : name) if (c == ' ') c = '_'; unsigned i = (unsigned)S->syms.size(); S->syms.push_back(SymRec{intern(name), (uint8_t)w, i}); S->model.set(i, 0); uint64_t m = sh->maxSyms; while (i + 1 > m && !sh->maxSyms.compare_exchange_weak(m, i + 1)) {} return i; }
static int cmpPred(unsigned p, uint64_t a, uint64_t b, unsigned w) {
    switch (p) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b;
    case CmpInst::ICMP_SGT: return sxt(a, w) > sxt(b, w); case CmpInst::ICMP_SGE: return sxt(a, w) >= sxt(b, w); case CmpInst::ICMP_SLT: return sxt(a, w) < sxt(b, w); default: return sxt(a, w) <= sxt(b, w); }
}
static Expr* cmpExpr(unsigned p, Expr* a, Expr* b) {
    switch (p) { case CmpInst::ICMP_EQ: return mkEq(a, b); case CmpInst::ICMP_NE: return mkNot(mkEq(a, b)); case CmpInst::ICMP_UGT: return mk(K_Ult, 1, b, a); case CmpInst::ICMP_UGE: return mkNot(mk(K_Ult, 1, a, b)); case CmpInst::ICMP_ULT: return mk(K_Ult, 1, a, b); case CmpInst::ICMP_ULE: return mkNot(mk(K_Ult, 1, b, a));
    case CmpInst::ICMP_SGT: return mk(K_Slt, 1, b, a); case CmpInst::ICMP_SGE: return mkNot(mk(K_Slt, 1, a, b)); case CmpInst::ICMP_SLT: return mk(K_Slt, 1, a, b); default: return mkNot(mk(K_Slt, 1, b, a)); }
}
static void retV(const Inst* in, Val v) { if (in->dst >= 0) R[in->dst] = v; advance(in); }
static void endCatch(const Inst* in) {
    if (T->caught.empty()) giveUp("end_catch without a caught exception");
    uint64_t e = T->caught.back(); auto* x = exc(e); --x->count;
    if (x->count == 0) {
        T->caught.pop_back();
        if (!x->rethrown) {
            uint64_t d = x->dtor; S->excs.erase(S->excs.begin() + (x - S->excs.data()));
            advance(in);
            if (d && prog.faddr.count(d) && !prog.faddr[d]->bi) { Val a = CV(e); pushFrame(prog.faddr[d], &a, 1, -1, e); } else heapFree(e, 4, -1, -1);
            return;
        }
    }
    advance(in);
}
static void builtin(Fn* fn, const Inst* in) {
    auto* cx = static_cast<CallX*>(in->x); auto& A = cx->args;
    auto c = [&](int i) { return concOp(A[i], cx->argw[i]); };
    auto v = [&](int i) { return rd(A[i]); };
    switch (fn->bi) {
    case B_i_nop: case B_ret0: retV(in, CV(0)); return;
    case B_i_copy: retV(in, v(0)); return;
    case B_i_expect: retV(in, v(0)); return;
    case B_i_memcpy: case B_memcpy: { uint64_t n = c(2); uint64_t d = addrOp(A[0], n), s = addrOp(A[1], n); copyMem(d, s, n); retV(in, CV(d)); return; }
    case B_i_memset: case B_memset: {
        uint64_t n = c(2); uint64_t d = addrOp(A[0], n); Val b = v(1); if (b.e) b = EV(mkExtract(b.e, 0, 8)); else b.c &= 255;
        if (n) { auto r = acc(d, n, true); for (uint64_t i = 0; i < n; ++i) stBytes(*r.slot, r.off + i, 1, b); } retV(in, CV(d)); return;
    }
    case B_memcmp: {
        uint64_t n = c(2); if (!n) { retV(in, CV(0)); return; }
        uint64_t a = addrOp(A[0], n), b = addrOp(A[1], n); auto ra = acc(a, n, false), rb = acc(b, n, false);
        Expr* e = cst(0, 32);
        for (uint64_t i = n; i-- > 0;) { Expr *x = symByte(*ra.slot, ra.off + i), *y = symByte(*rb.slot, rb.off + i); Expr* d = mkIte(mk(K_Ult, 1, x, y), cst(~0ull, 32), cst(1, 32)); e = mkIte(mkEq(x, y), e, d); }
        retV(in, EV(e)); return;
    }
    case B_strcmp: case B_strncmp: {
        uint64_t n = fn->bi == B_strncmp ? c(2) : ~0ull; uint64_t a = addrOp(A[0], 1), b = addrOp(A[1], 1);
        for (uint64_t i = 0; i < n; ++i) { Val x = load(a + i, 8), y = load(b + i, 8);
            if (!x.e && !y.e) { if (x.c != y.c) { retV(in, CV((x.c < y.c ? ~0ull : 1) & 0xffffffff)); return; } if (!x.c) break; continue; }
            if (!decide(mkEq(EX(x, 8), EX(y, 8)))) { bool lt = decide(mk(K_Ult, 1, EX(x, 8), EX(y, 8))); retV(in, CV(lt ? 0xffffffff : 1)); return; }
            if (decide(mkEq(EX(x, 8), cst(0, 8)))) break; }
        retV(in, CV(0)); return;
    }
    case B_memchr: {
        uint64_t n = c(2); if (!n) { retV(in, CV(0)); return; } uint64_t a = addrOp(A[0], n); Val b = v(1); Expr* k = mkExtract(EX(b, 32), 0, 8); auto r = acc(a, n, false);
        Expr* e = cst(0, 64); for (uint64_t i = n; i-- > 0;) e = mkIte(mkEq(symByte(*r.slot, r.off + i), k), cst(a + i, 64), e);
        retV(in, EV(e)); return;
    }
    case B_strlen: { uint64_t a = addrOp(A[0], 1); for (uint64_t i = 0;; ++i) { Val x = load(a + i, 8); if (x.e ? decide(mkEq(x.e, cst(0, 8))) : !x.c) { retV(in, CV(i)); return; } } }
    case B_malloc: { uint64_t n = c(0); if (allocFails() || n > (16u << 20)) { retV(in, CV(0)); return; } retV(in, CV(heapAlloc(n, 16, 1))); return; }
    case B_calloc: { uint64_t n = c(0) * c(1); uint64_t a = heapAlloc(n, 16, 1); memset(S->heap.back().o->b, 0, n); retV(in, CV(a)); return; }
    case B_aligned_alloc: { uint64_t al = c(0), n = c(1); if (allocFails() || n > (16u << 20)) { retV(in, CV(0)); return; }
        if (!al || (al & (al - 1))) { retV(in, CV(0)); return; } if (n % al) fail("memory", "aligned_alloc with a size which is not a multiple of the alignment"); retV(in, CV(heapAlloc(n, al, 5))); return; }
    case B_free: heapFree(c(0), 1, -1, -1); retV(in, CV(0)); return;
    case B_new: case B_newNT: case B_newA: {
        uint64_t n = c(0), al = fn->bi == B_newA ? c(1) : 16; if (!al || (al & (al - 1))) fail("memory", "operator new with an alignment which is not a power of two");
        if (n > (16u << 20) || allocFails()) { if (fn->bi == B_newNT) { retV(in, CV(0)); return; } callRt("vx_rt_bad_alloc"); return; }
        retV(in, CV(heapAlloc(n, al, fn->bi == B_newA ? 3 : 2))); return;
    }
    case B_del: heapFree(c(0), 2, -1, -1); retV(in, CV(0)); return;
    case B_delS: { auto a = c(0), n = c(1); heapFree(a, 2, (int64_t)n, -1); retV(in, CV(0)); return; }
    case B_delA: { auto a = c(0), n = c(1); heapFree(a, 3, -1, (int64_t)n); retV(in, CV(0)); return; }
    case B_delSA: { auto a = c(0), n = c(1), al = c(2); heapFree(a, 3, (int64_t)n, (int64_t)al); retV(in, CV(0)); return; }
    // --- exceptions
    case B_cxa_alloc: retV(in, CV(heapAlloc(c(0), 16, 4, true))); return;
    case B_cxa_free: heapFree(c(0), 4, -1, -1); retV(in, CV(0)); return;
    case B_cxa_throw: { uint64_t e = c(0), ti = c(1), d = c(2); S->excs.push_back(ExcRec{e, ti, d, e, 0, false}); ++T->uncaught; unwind(e); return; }
    case B_cxa_begin: { uint64_t e = c(0); auto* x = exc(e); if (!x) giveUp("begin_catch of an unknown exception"); if (!T->caught.empty() && T->caught.back() == e) {} else T->caught.push_back(e); ++x->count; x->rethrown = false; --T->uncaught; retV(in, CV(x->adjusted)); return; }
    case B_cxa_getptr: { auto* x = exc(c(0)); retV(in, CV(x ? x->adjusted : 0)); return; }
    case B_cxa_end: endCatch(in); return;
    case B_cxa_rethrow: { if (T->caught.empty()) fail("exception", "rethrow without a current exception"); uint64_t e = T->caught.back(); exc(e)->rethrown = true; ++T->uncaught; unwind(e); return; }
    case B_uncaught: retV(in, CV(T->uncaught)); return;
    case B_uncaught1: retV(in, CV(T->uncaught > 0)); return;
    case B_terminate: { std::string t; if (!T->caught.empty()) if (auto* x = exc(T->caught.back())) t = " with an exception of type " + prog.tiName(x->ti); fail("exception", "std::terminate called" + t); }
    case B_abort: fail("abort", "abort called");
    case B_assert: fail("assert", "assertion failed: " + readStr(c(0)));
    case B_glibcxx_assert: fail("assert", "standard library precondition failed: " + readStr(c(3)));
    case B_pure: fail("abort", "pure virtual call");
    case B_guard_acq: { uint64_t a = c(0); Val g = load(a, 8); retV(in, CV(!g.e && g.c == 0)); return; }
    case B_guard_rel: { uint64_t a = c(0); store(a, 8, CV(1)); retV(in, CV(0)); return; }
    case B_atexit: S->atexit.push_back({c(0), c(1)}); retV(in, CV(0)); return;
    // --- locks
    case B_lk_init: case B_lk_destroy: {
        uint64_t a = c(0); if (fn->bi == B_lk_destroy) { auto& l = lockAt(a); if (l.writer >= 0 || !l.readers.empty()) fail("lock", "a held lock is destroyed"); }
        for (size_t i = 0; i < S->locks.size(); ++i) if (S->locks[i].addr == a) { S->locks.erase(S->locks.begin() + i); break; } retV(in, CV(0)); return;
    }
    case B_rw_rd: case B_rw_wr: case B_mx_lock: case B_rw_tryrd: case B_rw_trywr: case B_mx_try: {
        uint64_t a = c(0); bool rdm = fn->bi == B_rw_rd || fn->bi == B_rw_tryrd, tr = fn->bi == B_rw_tryrd || fn->bi == B_rw_trywr || fn->bi == B_mx_try;
        Ref rf; if (const char* e = lookup(a, 8, rf)) fail("memory", std::string("lock: ") + e);
        { auto& l0 = lockAt(a); if (l0.writer == S->cur || (std::find(l0.readers.begin(), l0.readers.end(), S->cur) != l0.readers.end())) fail("deadlock", "a thread locks a mutex which it already owns"); }
        if (!schedPoint()) return;
        if (!lockFree(a, rdm ? 1 : 2)) {
            if (tr) { retV(in, CV(16)); return; }
            T->status = 1; T->waitOn = a; T->waitMode = rdm ? 1 : 2; T->atOp = true; switchAway(); return;
        }
        auto& l = lockAt(a); if (rdm) l.readers.push_back(S->cur); else l.writer = S->cur;
        vcJoin(T->vc, l.vc); if (!rdm) vcJoin(T->vc, l.rvc);
        retV(in, CV(0)); return;
    }
    case B_rw_un: case B_mx_un: {
        uint64_t a = c(0); auto& l = lockAt(a); 
        if (l.writer == S->cur) { l.writer = -1; vcJoin(l.vc, T->vc); }
        else { auto it = std::find(l.readers.begin(), l.readers.end(), S->cur); if (it == l.readers.end()) fail("lock", "unlock of a lock which is not held"); l.readers.erase(it); vcJoin(l.rvc, T->vc); }
        vcTick(S->cur); retV(in, CV(0)); return;
    }
    case B_pself: retV(in, CV(S->cur + 1)); return;
    case B_vx_tid: retV(in, CV(S->cur)); return;
    case B_vx_spawn: {
        uint64_t f = c(0), arg = c(1); auto* fn2 = prog.faddr[f]; if (!fn2) giveUp("bad thread function"); int t = (int)S->th.size(); vcTick(S->cur);
        S->th.emplace_back(); sync(); auto& n = S->th.back(); n.stackTop = 0x7f0000000000ull + ((uint64_t)t << 32) + 64; n.vc = T->vc; retV(in, CV(t));
        int me = S->cur; S->cur = t; sync(); Val a = CV(arg); pushFrame(fn2, &a, 1, -1); vcTick(t); S->cur = me; vcTick(me); sync(); return;
    }
    case B_vx_join: { uint64_t t = c(0); if (S->th[t].status == 3) { vcJoin(T->vc, S->th[t].vc); retV(in, CV(0)); return; } T->status = 2; T->waitOn = t; switchAway(); return; }
    case B_vx_yield: if (!schedPoint()) return; retV(in, CV(0)); return;
    // --- harness interface
    case B_vx_sym: { unsigned w = (unsigned)c(1); auto nm = readStr(c(0)); unsigned i = newSym(nm, w); Expr* e = sym(i, w); retV(in, EV(w < 64 ? mkZExt(e, 64) : e)); return; }
    case B_vx_bytes: { uint64_t p = c(0), n = c(1); auto nm = readStr(c(2)); if (n) { auto r = acc(p, n, true); for (uint64_t k = 0; k < n; ++k) { unsigned i = newSym(nm, 8); stBytes(*r.slot, r.off + k, 1, EV(sym(i, 8))); } } retV(in, CV(0)); return; }
    case B_vx_choose: case B_vx_pick: { // value below n
        uint64_t n = c(0); auto nm = readStr(c(1)); if (n <= 1) { unsigned i = newSym(nm, 32); addPC(mkEq(sym(i, 32), cst(0, 32))); retV(in, CV(0)); return; }
        unsigned i = newSym(nm, 32); addPC(mk(K_Ult, 1, sym(i, 32), cst(n, 32)));
        if (fn->bi == B_vx_choose) { Expr* e = sym(i, 32); if (n <= 12) { Expr* t = cst(n - 1, 32); for (uint64_t k = n - 1; k-- > 0;) t = mkIte(mkEq(sym(i, 32), cst(k, 32)), cst(k, 32), t); e = t; } retV(in, EV(e)); return; }
        // pick: fork into every value right here
        for (uint64_t k = n - 1; k >= 1; --k) { Model m = S->model; m.set(i, k); auto* ns = new State(*S); ns->model = m; ++ns->depth; sh->forks++; State* sv = S; S = ns; addPC(mkEq(sym(i, 32), cst(k, 32))); sync(); retV(in, CV(k)); S = sv; sync(); work.push_back(ns); }
        addPC(mkEq(sym(i, 32), cst(0, 32))); retV(in, CV(0)); return;
    }
    case B_vx_conc: { Val x = v(0); uint64_t k = x.e ? conc(x.e, 64) : x.c; retV(in, CV(k)); return; }
    case B_vx_symbolic: retV(in, CV(1)); return;
    case B_vx_assume: {
        Val x = v(0); unsigned w = cx->argw[0]; if (!x.e) { if (!(x.c & maskw(w))) { sh->killedAssume++; throw Dead{}; } retV(in, CV(0)); return; }
        Expr* cnd = mkNot(mkEq(x.e, cst(0, w))); int k = known(cnd); if (k == 0) { sh->killedAssume++; throw Dead{}; }
        if (k < 0) { if (!evalExpr(cnd, S->model)) { Model m = S->model; if (feasible(cnd, m) != 1) { sh->killedAssume++; throw Dead{}; } S->model = m; } addPC(cnd); }
        retV(in, CV(0)); return;
    }
    case B_vx_check: {
        Val x = v(0); unsigned w = cx->argw[0]; std::string msg = readStr(c(1));
        if (!x.e) { if (!(x.c & maskw(w))) fail("check", msg); sh->queries++; retV(in, CV(0)); return; }
        Expr* ok = mkNot(mkEq(x.e, cst(0, w))); int k = known(ok);
        if (k == 0) fail("check", msg);
        if (k < 0) { Model m = S->model; int r = evalExpr(ok, m) ? feasible(mkNot(ok), m) : 1;
            if (r == 1) { violation("check", msg, m); Model m2 = S->model; if (feasible(ok, m2) != 1) throw Dead{}; S->model = m2; }
            addPC(ok); }
        retV(in, CV(0)); return;
    }
    case B_vx_log: { auto nm = readStr(c(0)); Val x = v(1); S->log.push_back(LogRec{intern(nm), x, 64}); retV(in, CV(0)); return; }
    case B_vx_reach: { auto nm = readStr(c(0)); spin(); int n = sh->nReach; bool have = false; for (int i = 0; i < n; ++i) if (!strncmp(sh->reach[i], nm.c_str(), 63)) have = true; if (!have && n < 256) { strncpy(sh->reach[n], nm.c_str(), 63); sh->nReach++; } unspin(); retV(in, CV(0)); return; }
    case B_vx_alloc_fail: S->allocFail = (int64_t)(int32_t)c(0); retV(in, CV(0)); return;
    case B_vx_noleak: S->noLeak = true; retV(in, CV(0)); return;
    case B_vx_live: { uint64_t n = 0; for (size_t i = S->leakMark; i < S->heap.size(); ++i) if (!S->heap[i].freed && !S->heap[i].isExc) ++n; retV(in, CV(n)); return; }
    // --- intrinsics
    case B_i_lstart: { uint64_t a = c(1); for (auto it = T->st.rbegin(); it != T->st.rend(); ++it) if (it->addr == a) { it->alive = true; decO(it->o); it->o = mkObj(it->size, 0xAA); break; } retV(in, CV(0)); return; }
    case B_i_lend: { uint64_t a = c(1); for (auto it = T->st.rbegin(); it != T->st.rend(); ++it) if (it->addr == a) { it->alive = false; break; } retV(in, CV(0)); return; }
    case B_i_trap: fail("abort", "trap");
    case B_i_stacksave: retV(in, CV(0)); return;
    case B_i_typeid: retV(in, CV((uint32_t)c(0))); return;
    case B_i_objsize: retV(in, CV(c(1) ? 0 : maskw(cx->retw))); return;
    case B_i_isconst: retV(in, CV(0)); return;
    case B_i_minmax: {
        unsigned w = cx->retw; Val a = v(0), b = v(1); auto id = in->imm; unsigned p = id == llvm::Intrinsic::umax ? CmpInst::ICMP_UGT : id == llvm::Intrinsic::umin ? CmpInst::ICMP_ULT : id == llvm::Intrinsic::smax ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT;
        if (!a.e && !b.e) retV(in, cmpPred(p, a.c, b.c, w) ? a : b); else retV(in, EV(mkIte(cmpExpr(p, EX(a, w), EX(b, w)), EX(a, w), EX(b, w)))); return;
    }
    case B_i_abs: { unsigned w = cx->retw; Expr* a = EX(v(0), w); retV(in, EV(mkIte(mk(K_Slt, 1, a, cst(0, w)), mk(K_Sub, w, cst(0, w), a), a))); return; }
    case B_i_satsub: { unsigned w = cx->retw; Expr *a = EX(v(0), w), *b = EX(v(1), w); retV(in, EV(mkIte(mk(K_Ult, 1, a, b), cst(0, w), mk(K_Sub, w, a, b)))); return; }
    case B_i_satadd: { unsigned w = cx->retw; Expr *a = EX(v(0), w), *b = EX(v(1), w); Expr* s = mk(K_Add, w, a, b); retV(in, EV(mkIte(mk(K_Ult, 1, s, a), cst(~0ull, w), s))); return; }
    case B_i_ctpop: { unsigned w = cx->retw; Val a = v(0); if (!a.e) { retV(in, CV(__builtin_popcountll(a.c))); return; } Expr* s = cst(0, w); for (unsigned i = 0; i < w; ++i) s = mk(K_Add, w, s, mkZExt(mkExtract(a.e, i, 1), w)); retV(in, EV(s)); return; }
    case B_i_ctlz: { unsigned w = cx->retw; Expr* a = EX(v(0), w); Expr* r = cst(w, w); for (unsigned i = 0; i < w; ++i) r = mkIte(mkExtract(a, i, 1), cst(w - 1 - i, w), r); retV(in, EV(r)); return; }
    case B_i_cttz: { unsigned w = cx->retw; Expr* a = EX(v(0), w); Expr* r = cst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(a, i, 1), cst(i, w), r); retV(in, EV(r)); return; }
    case B_i_bswap: { unsigned w = cx->retw; Expr* a = EX(v(0), w); Expr* r = mkExtract(a, 0, 8); for (unsigned i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(a, i, 8)); retV(in, EV(r)); return; }
    case B_i_fshl: case B_i_fshr: { unsigned w = cx->retw; Expr *a = EX(v(0), w), *b = EX(v(1), w), *s = mk(K_URem, w, EX(v(2), w), cst(w, w)); Expr* inv = mk(K_Sub, w, cst(w, w), s);
        Expr* r = fn->bi == B_i_fshl ? mk(K_Or, w, mk(K_Shl, w, a, s), mk(K_LShr, w, b, inv)) : mk(K_Or, w, mk(K_LShr, w, b, s), mk(K_Shl, w, a, inv)); retV(in, EV(r)); return; }
    case B_i_ovf: {
        unsigned w = cx->argw[0]; auto id = in->imm; Expr *a = EX(v(0), w), *b = EX(v(1), w); Expr *r, *o;
        if (id == llvm::Intrinsic::uadd_with_overflow) { r = mk(K_Add, w, a, b); o = mk(K_Ult, 1, r, a); }
        else if (id == llvm::Intrinsic::usub_with_overflow) { r = mk(K_Sub, w, a, b); o = mk(K_Ult, 1, a, b); }
        else if (id == llvm::Intrinsic::umul_with_overflow) { r = mk(K_Mul, w, a, b); if (b->isc()) o = b->v ? mk(K_Ult, 1, cst(maskw(w) / b->v, w), a) : cst(0, 1); else if (a->isc()) o = a->v ? mk(K_Ult, 1, cst(maskw(w) / a->v, w), b) : cst(0, 1); else o = mkAnd1(mkNot(mkEq(b, cst(0, w))), mk(K_Ult, 1, mk(K_UDiv, w, cst(maskw(w), w), b), a)); }
        else if (id == llvm::Intrinsic::sadd_with_overflow) { r = mk(K_Add, w, a, b); o = mk(K_Slt, 1, mk(K_And, w, mk(K_Xor, w, a, r), mk(K_Xor, w, b, r)), cst(0, w)); }
        else if (id == llvm::Intrinsic::ssub_with_overflow) { r = mk(K_Sub, w, a, b); o = mk(K_Slt, 1, mk(K_And, w, mk(K_Xor, w, a, b), mk(K_Xor, w, a, r)), cst(0, w)); }
        else giveUp("smul.with.overflow");
        R[in->dst] = EV(r); R[in->dst + 1] = EV(o); advance(in); return;
    }
    default: giveUp("call of a function without a model: " + fn->disp);
    }
}
static void doCall(const Inst* in) {
    auto* cx = static_cast<CallX*>(in->x); Fn* fn = cx->callee;
    if (!fn) {
        uint64_t a = concOp(cx->calleeOp, 64); auto it = prog.faddr.find(a);
        if (it == prog.faddr.end()) fail("memory", a ? "call through a pointer which is not a function" : "call through a null function pointer");
        fn = it->second;
    }
    if (fn->bi) { builtin(fn, in); return; }
    Val tmp[32]; std::vector<Val> big; size_t n = cx->args.size(); Val* a = tmp; if (n > 32) { big.resize(n); a = big.data(); }
    for (size_t i = 0; i < n; ++i) {
        a[i] = rd(cx->args[i]);
        if (cx->byval[i]) { // copy into a fresh object owned by the callee's frame: allocated below
            uint64_t src = addrOp(cx->args[i], cx->byval[i]); a[i] = CV(src);
        }
    }
    if (fn->f->isVarArg() && n > fn->argSlots.size()) { touchFn(fn); n = fn->argSlots.size(); }
    pushFrame(fn, a, n, in->dst);
    for (size_t i = 0; i < n; ++i) if (cx->byval[i]) {
        uint64_t sz = cx->byval[i]; uint64_t ad = (T->stackTop + 32 + 63) / 64 * 64; T->stackTop = ad + sz; T->st.push_back(SObj{ad, sz, mkObj(sz, 0xAA), true});
        copyMem(ad, a[i].c, sz); R[fn->argSlots[i]] = CV(ad);
    }
}
static double f2(const Inst* in, uint64_t b) { if (in->w == 32) { float f; uint32_t x = (uint32_t)b; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &b, 8); return d; }
static uint64_t b2(unsigned w, double d) { if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; } uint64_t x; memcpy(&x, &d, 8); return x; }

static void step() {
    const Inst* in = &F->fn->code[F->pc]; I = in;
    switch (in->op) {
    case O_Bin: {
        Val a = rd(in->a), b = rd(in->b); unsigned w = in->w; Kind k = (Kind)in->sub;
        if (k == K_UDiv || k == K_SDiv || k == K_URem || k == K_SRem) { if (b.e ? decide(mkEq(b.e, cst(0, w))) : !b.c) fail("arithmetic", "division by zero"); }
        if (in->imm && (k == K_Add || k == K_Sub)) { // signed overflow is undefined
            if (!a.e && !b.e) { uint64_t r = foldBin(k, w, a.c, b.c, w); uint64_t o = k == K_Add ? (a.c ^ r) & (b.c ^ r) : (a.c ^ b.c) & (a.c ^ r); if (o >> (w - 1) & 1) fail("arithmetic", "signed integer overflow"); }
            else { Expr *x = EX(a, w), *y = EX(b, w), *r = mk(k, w, x, y); Expr* o = mk(K_Slt, 1, mk(K_And, w, mk(K_Xor, w, x, k == K_Add ? r : y), k == K_Add ? mk(K_Xor, w, y, r) : mk(K_Xor, w, x, r)), cst(0, w)); if (decide(o)) fail("arithmetic", "signed integer overflow"); }
        }
        if (!a.e && !b.e) R[in->dst] = CV(foldBin(k, w, a.c, b.c, w)); else R[in->dst] = EV(mk(k, w, EX(a, w), EX(b, w)));
        ++F->pc; return;
    }
    case O_ICmp: { Val a = rd(in->a), b = rd(in->b); if (!a.e && !b.e) R[in->dst] = CV(cmpPred(in->sub, a.c, b.c, in->w)); else R[in->dst] = EV(cmpExpr(in->sub, EX(a, in->w), EX(b, in->w))); ++F->pc; return; }
    case O_Trunc: { Val a = rd(in->a); R[in->dst] = a.e ? EV(mkExtract(a.e, 0, in->w2)) : CV(a.c & maskw(in->w2)); ++F->pc; return; }
    case O_ZExt: { Val a = rd(in->a); R[in->dst] = a.e ? EV(mkZExt(a.e, in->w2)) : a; ++F->pc; return; }
    case O_SExt: { Val a = rd(in->a); R[in->dst] = a.e ? EV(mkSExt(a.e, in->w2)) : CV((uint64_t)sxt(a.c, in->w) & maskw(in->w2)); ++F->pc; return; }
    case O_Move: R[in->dst] = rd(in->a); ++F->pc; return;
    case O_Gep: {
        Val a = rd(in->a); auto* x = static_cast<GepX*>(in->x);
        if (!x) { R[in->dst] = a.e ? EV(mk(K_Add, 64, a.e, cst(in->imm, 64))) : CV(a.c + in->imm); ++F->pc; return; }
        uint64_t c = in->imm; Expr* e = nullptr; if (a.e) e = a.e; else c += a.c;
        for (auto& g : x->idx) { Val v = rd(g.op); if (!v.e) c += (uint64_t)(sxt(v.c, g.w) * g.scale); else { Expr* t = mk(K_Mul, 64, mkSExt(v.e, 64), cst((uint64_t)g.scale, 64)); e = e ? mk(K_Add, 64, e, t) : t; } }
        R[in->dst] = e ? EV(mk(K_Add, 64, e, cst(c, 64))) : CV(c); ++F->pc; return;
    }
    case O_Load: {
        if (Expr* ae = rd(in->a).e) { static std::vector<Leaf> lv; if (!in->sub && mergeable(ae, (in->w + 7) / 8, in->imm ? in->imm : 1, false, lv)) { R[in->dst] = loadMerged(lv, in->w); ++F->pc; return; } }
        uint64_t a = addrOp(in->a, (in->w + 7) / 8); if (a & (in->imm - 1)) { Ref r; if (!lookup(a, 1, r)) fail("memory", "misaligned read"); }
        atomicAccess = in->sub; R[in->dst] = load(a, in->w); atomicAccess = false; if (in->sub) syncLoad(a, in->sub); ++F->pc; return;
    }
    case O_Store: {
        if (Expr* ae = rd(in->a).e) { static std::vector<Leaf> lv; if (!in->sub && mergeable(ae, (in->w + 7) / 8, in->imm ? in->imm : 1, true, lv)) { storeMerged(lv, in->w, rd(in->b)); ++F->pc; return; } }
        uint64_t a = addrOp(in->a, (in->w + 7) / 8); if (a & (in->imm - 1)) { Ref r; if (!lookup(a, 1, r)) fail("memory", "misaligned write"); }
        if (in->sub) syncStore(a, in->sub, false); atomicAccess = in->sub; store(a, in->w, rd(in->b)); atomicAccess = false; ++F->pc; return;
    }
    case O_LoadAgg: { auto* x = static_cast<AggX*>(in->x); uint64_t a = addrOp(in->a, 1); int j = 0; for (auto& s : x->sl) { Val v = load(a + s.off, s.w); R[in->dst + j++] = v; } ++F->pc; return; }
    case O_StoreAgg: { auto* x = static_cast<AggX*>(in->x); uint64_t a = addrOp(in->a, 1); int j = 0; for (auto& s : x->sl) { store(a + s.off, s.w, rd(in->b >= 0 ? in->b + j : in->b - j)); ++j; } ++F->pc; return; }
    case O_Alloca: {
        uint64_t n = concOp(in->a, 64) * in->imm; uint64_t al = std::max(16, in->b); uint64_t a = (T->stackTop + 32 + al - 1) / al * al; T->stackTop = a + n;
        T->st.push_back(SObj{a, n, mkObj(n, 0xAA), true}); R[in->dst] = CV(a); ++F->pc; return;
    }
    case O_Br: takeEdge(static_cast<BrX*>(in->x)->t); return;
    case O_CondBr: {
        auto* x = static_cast<BrX*>(in->x); Val c = rd(in->a); bool b = c.e ? decide(c.e) : c.c;
        takeEdge(b ? x->t : x->f); return;
    }
    case O_Switch: {
        auto* x = static_cast<SwX*>(in->x); Val c = rd(in->a); uint64_t v;
        if (c.e) {
            v = evalExpr(c.e, S->model); bool isCase = false; for (auto& k : x->cases) if (k.first == v) isCase = true;
            Expr* cond; if (isCase) cond = mkEq(c.e, cst(v, in->w)); else { cond = cst(1, 1); for (auto& k : x->cases) cond = mkAnd1(cond, mkNot(mkEq(c.e, cst(k.first, in->w)))); }
            if (known(cond) != 1) { Model m = S->model; Expr* o = mkNot(cond); if (feasible(o, m) == 1) forkWith(o, m); addPC(cond); }
        } else v = c.c;
        for (auto& k : x->cases) if (k.first == v) { takeEdge(k.second); return; }
        takeEdge(x->def); return;
    }
    case O_Select: { Val c = rd(in->c); if (!c.e) R[in->dst] = rd(c.c ? in->a : in->b); else { Val a = rd(in->a), b = rd(in->b); R[in->dst] = EV(mkIte(c.e, EX(a, in->w), EX(b, in->w))); } ++F->pc; return; }
    case O_Call: doCall(in); return;
    case O_Ret: {
        Val rv[16]; int n = in->b; if (n > 16) giveUp("large return value"); for (int i = 0; i < n; ++i) rv[i] = rd(in->a >= 0 ? in->a + i : in->a - i);
        int d = F->retDst; uint64_t fr = F->freeOnRet; popFrame();
        if (fr) { heapFree(fr, 4, -1, -1); if (T->fr.empty()) { nextPhase(); return; } return; } // destructor of an exception: the caller has already advanced
        if (T->fr.empty()) { if (S->cur == 0) nextPhase(); else threadDone(); return; }
        const Inst* ci = &F->fn->code[F->pc]; if (d >= 0) { int want = static_cast<CallX*>(ci->x)->nret; for (int i = 0; i < n && i < want; ++i) R[d + i] = rv[i]; }
        advance(ci); return;
    }
    case O_Unreachable: fail("abort", "unreachable code reached (undefined behaviour)");
    case O_LandingPad: R[in->dst] = CV(T->pendExc); R[in->dst + 1] = CV(T->pendSel); ++F->pc; return;
    case O_Resume: { uint64_t e = concOp(in->a, 64); unwind(e); return; }
    case O_AtomicRMW: {
        uint64_t a = addrOp(in->a, in->w / 8); atomicAccess = true; Val o = load(a, in->w); Val b = rd(in->b); unsigned w = in->w; Expr *x = EX(o, w), *y = EX(b, w); Expr* r;
        using B = llvm::AtomicRMWInst;
        switch (in->sub) { case B::Xchg: r = y; break; case B::Add: r = mk(K_Add, w, x, y); break; case B::Sub: r = mk(K_Sub, w, x, y); break; case B::And: r = mk(K_And, w, x, y); break; case B::Or: r = mk(K_Or, w, x, y); break; case B::Xor: r = mk(K_Xor, w, x, y); break; default: giveUp("atomicrmw"); }
        store(a, w, EV(r)); atomicAccess = false; syncLoad(a, in->w2); syncStore(a, in->w2, true); R[in->dst] = o; ++F->pc; return;
    }
    case O_Fence: if (in->sub & 2) vcJoin(T->vc, T->acqF); if (in->sub & 4) { T->relF = T->vc; vcTick(S->cur); } ++F->pc; return;
    case O_CmpXchg: { uint64_t a = addrOp(in->a, in->w / 8); atomicAccess = true; Val o = load(a, in->w); bool eq = o.e || rd(in->b).e ? decide(mkEq(EX(o, in->w), EX(rd(in->b), in->w))) : o.c == rd(in->b).c; if (eq) store(a, in->w, rd(in->c)); atomicAccess = false; syncLoad(a, in->w2); if (eq) syncStore(a, in->w2, true); R[in->dst] = o; R[in->dst + 1] = CV(eq); ++F->pc; return; }
    case O_FBin: { Val a = rd(in->a), b = rd(in->b); if (a.e || b.e) giveUp("symbolic floating point"); double x = f2(in, a.c), y = f2(in, b.c), r; switch (in->imm) { case llvm::Instruction::FAdd: r = x + y; break; case llvm::Instruction::FSub: r = x - y; break; case llvm::Instruction::FMul: r = x * y; break; default: r = x / y; } R[in->dst] = CV(b2(in->w, r)); ++F->pc; return; }
    case O_FCmp: { Val a = rd(in->a), b = rd(in->b); if (a.e || b.e) giveUp("symbolic floating point"); double x = f2(in, a.c), y = f2(in, b.c); bool un = std::isnan(x) || std::isnan(y), r; unsigned p = in->sub;
        r = ((p & 1) && x == y) || ((p & 2) && x > y) || ((p & 4) && x < y) || ((p & 8) && un); R[in->dst] = CV(r); ++F->pc; return; }
    case O_FCast: { Val a = rd(in->a); if (a.e) giveUp("symbolic floating point"); uint64_t r; switch (in->imm) { case llvm::Instruction::UIToFP: r = b2(in->w2, (double)a.c); break; case llvm::Instruction::SIToFP: r = b2(in->w2, (double)sxt(a.c, in->w)); break; case llvm::Instruction::FPToUI: r = (uint64_t)f2(in, a.c) & maskw(in->w2); break; case llvm::Instruction::FPToSI: r = (uint64_t)(int64_t)f2(in, a.c) & maskw(in->w2); break; default: r = b2(in->w2, f2(in, a.c)); } R[in->dst] = CV(r); ++F->pc; return; }
    case O_Nop: case O_InsertVal: ++F->pc; return;
    case O_Unsup: giveUp("unsupported instruction: " + *static_cast<std::string*>(in->x));
    }
}
// ---------------------------------------------------------------- driver
static double lastFork, procStart;
static int tokens() { return opt.workers; }
static void flushStats() {
    auto& st = slv->st; sh->queries += st.queries; sh->z3calls += st.z3calls; sh->sat += st.sat; sh->unsat += st.unsat; sh->unknown += st.unknown; sh->cacheHits += st.cacheHits; sh->solverUs += (uint64_t)(st.secs * 1e6); st = SolverStats{};
    sh->instrs += instrCtr; instrCtr = 0;
}
static void maybeGiveAway() {
    if (work.size() < 2 || sh->active.load() >= tokens()) return;
    double t = now(); if (t - lastFork < 0.03) return;
    if (sh->active.fetch_add(1) >= tokens()) { sh->active.fetch_sub(1); return; }
    flushStats(); if (sampleF) fflush(sampleF);
    pid_t p = fork();
    if (p < 0) { sh->active.fetch_sub(1); lastFork = t; return; }
    if (p == 0) { // child: takes the older half
        size_t keep = (work.size() + 1) / 2; while (work.size() > keep) { delete work.back(); work.pop_back(); }
        sampleF = nullptr; myPaths = 0; mySamples = 0; lastFork = procStart = now(); sh->procs++;
        prctl(PR_SET_PDEATHSIG, 0);
    } else { size_t give = (work.size() + 1) / 2; for (size_t i = 0; i < give; ++i) { delete work.front(); work.pop_front(); } lastFork = now(); }
}
static void runState() {
    sync();
    uint64_t n = 0;
    try {
        for (;;) {
            step();
            if (!(++n & 0xfff)) { S->steps += 0x1000; instrCtr += 0x1000; if (sh->stop) break; if (now() - tStart > opt.deadline) { sh->stop = 2; break; } if (S->steps > opt.maxSteps) fail("loop", "step limit reached: the call does not end within " + std::to_string(opt.maxSteps) + " steps"); maybeGiveAway(); }
        }
    } catch (Dead&) {}
    instrCtr += n & 0xfff;
    delete S; S = nullptr; I = nullptr;
}
void explore() {
    tStart = now();
    slv = new Solver; prctl(PR_SET_CHILD_SUBREAPER, 1);
    pid_t root = getpid();
    if (auto* g = prog.M->getNamedGlobal("llvm.global_ctors")) if (g->hasInitializer()) if (auto* ca = llvm::dyn_cast<llvm::ConstantArray>(g->getInitializer()))
        for (auto& o : ca->operands()) { auto* cs = llvm::cast<llvm::ConstantStruct>(o); int pr = (int)llvm::cast<llvm::ConstantInt>(cs->getOperand(0))->getZExtValue(); bool ok = true; auto a = prog.constVal(llvm::cast<llvm::Constant>(cs->getOperand(1)), ok); if (ok && a) ctors.push_back({pr, a}); }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
    auto* s = new State; s->th.resize(1); s->th[0].stackTop = 0x7f0000000040ull; s->glob.resize(prog.nMut); roObjs.resize(prog.globals.size());
    for (size_t i = 0; i < prog.globals.size(); ++i) { auto& g = prog.globals[i]; auto* o = mkObj(g.size, 0); memcpy(o->b, g.init.data(), g.size); if (g.mutIdx >= 0) s->glob[g.mutIdx] = o; else roObjs[i] = o; }
    sh->active = 1; sh->procs = 1; procStart = lastFork = now();
    work.push_back(s); bool first = true;
    while (!work.empty() && !sh->stop) {
        S = work.back(); work.pop_back();
        if (first) { first = false; sync(); I = nullptr; try { nextPhase(); } catch (Dead&) { break; } }
        runState(); maybeGiveAway();
        if (now() - tStart > opt.deadline && !work.empty()) sh->stop = 2;
    }
    if (sampleF) fflush(sampleF);
    if (forkStats) { FILE* ff = fopen("/tmp/forkstat", "a"); std::vector<std::pair<uint64_t, std::string>> v; for (auto& f : forkStat) v.push_back({f.second, f.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 12; ++i) fprintf(ff, "FORK %llu %s\n", (unsigned long long)v[i].first, v[i].second.c_str()); fclose(ff); }
    flushStats(); sh->active.fetch_sub(1);
    if (getpid() != root) _exit(0);
    for (;;) { int st; pid_t p = waitpid(-1, &st, 0); if (p < 0) break; if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st))) inconclusive("a worker process ended abnormally"); }
}
}
