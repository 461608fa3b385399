// Native side of the harness interface: replays one assignment against the real build.
// argv: <replay file> [log file]. Exit: 0 finished, 77 a check failed / memory misuse, 3 the replay does not fit the run.
#include "vx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <new>
#include <mutex>
#include <pthread.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <errno.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VX_ASAN 1
#include <sanitizer/asan_interface.h>
#endif
#endif
#ifndef VX_ASAN
#define ASAN_POISON_MEMORY_REGION(a, n) ((void)0)
#define ASAN_UNPOISON_MEMORY_REGION(a, n) ((void)0)
#endif
static FILE* g_log;
static void die(const char* what, const char* msg) { fprintf(stderr, "VX-FAIL %s: %s\n", what, msg); fflush(stderr); if (g_log) fflush(g_log); _exit(77); }
static void diverge(const char* m) { fprintf(stderr, "VX-DIVERGED %s\n", m); fflush(stderr); _exit(3); }
// ------------------------------------------------------------ memory: bump arena, never reused, same alignment residues as the encoding
struct Rec { char* p; size_t n, al; int kind; bool freed; };
static char* arena; static size_t top; static const size_t ARENA = 256u << 20;
static Rec recs[1 << 18]; static int nrec; static int64_t allocFail = -1; static int leakMark = -1; static bool noLeak; static bool inited;
static int g_lk;
static void lk() { while (__atomic_exchange_n(&g_lk, 1, __ATOMIC_ACQUIRE)) {} } static void ulk() { __atomic_store_n(&g_lk, 0, __ATOMIC_RELEASE); }
static void init() { if (inited) return; inited = true; arena = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); top = 0; }
static size_t poisoned;
static void* arenaAlloc(size_t n, size_t align, int kind) {
    lk(); init();
    size_t al = align > 16 ? align : 16; if (kind == 3) al = align > 8 ? align : 8;
    uintptr_t base = (uintptr_t)arena; uintptr_t a = (base + top + 32 + al - 1) / al * al; if (a % (2 * al) == 0) a += al;
    size_t end = a + n - base; if (end + 64 > ARENA || nrec >= (1 << 18)) { fprintf(stderr, "VX-DIVERGED arena exhausted\n"); _exit(3); }
    while (poisoned < end + 64) { ASAN_POISON_MEMORY_REGION(arena + poisoned, 1 << 16); poisoned += 1 << 16; }
    top = end; ASAN_UNPOISON_MEMORY_REGION((void*)a, n); memset((void*)a, 0xCD, n);
    recs[nrec++] = Rec{(char*)a, n, align, kind, false}; ulk(); return (void*)a;
}
static Rec* find(void* p) { int lo = 0, hi = nrec; while (lo < hi) { int m = (lo + hi) / 2; if (recs[m].p < (char*)p) lo = m + 1; else hi = m; } return lo < nrec && recs[lo].p == p ? &recs[lo] : nullptr; }
static bool inArena(void* p) { return arena && (char*)p >= arena && (char*)p < arena + ARENA; }
#ifdef VX_TSAN
extern "C" void __tsan_write_range(void*, unsigned long);
#endif
static void arenaFree(void* p, int family, int64_t size, int64_t align) {
    if (!p) return;
    lk(); Rec* r = find(p); ulk(); if (!r) die("memory", "free of a pointer which was not allocated (or into a block)");
    if (r->freed) die("memory", "double free");
    bool ok = family == 1 ? (r->kind == 1 || r->kind == 5) : r->kind == family;
    if (!ok) die("memory", "block freed with a function of another allocation family");
    if (size >= 0 && (size_t)size != r->n) die("memory", "sized deallocation with a size other than the allocated one");
    if (align >= 0 && (size_t)align != r->al) die("memory", "aligned deallocation with an alignment other than the allocated one");
    r->freed = true;
#ifdef VX_ASAN
    ASAN_POISON_MEMORY_REGION(p, r->n);
#endif
#ifdef VX_TSAN
    __tsan_write_range(p, r->n); // what is released must not be in use elsewhere
#endif
}
static bool fails() { if (allocFail < 0) return false; if (allocFail == 0) { allocFail = -1; return true; } --allocFail; return false; }
static void* onew(size_t n, size_t al, int kind) {
    if (!al || (al & (al - 1))) die("memory", "operator new with an alignment which is not a power of two");
    if (n > (16u << 20) || fails()) throw std::bad_alloc(); return arenaAlloc(n, al, kind);
}
void* operator new(size_t n) { return onew(n, 16, 2); }
void* operator new[](size_t n) { return onew(n, 16, 2); }
void* operator new(size_t n, std::align_val_t a) { return onew(n, (size_t)a, 3); }
void* operator new[](size_t n, std::align_val_t a) { return onew(n, (size_t)a, 3); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { if (n > (16u << 20) || fails()) return nullptr; return arenaAlloc(n, 16, 2); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { if (n > (16u << 20) || fails()) return nullptr; return arenaAlloc(n, 16, 2); }
void operator delete(void* p) noexcept { arenaFree(p, 2, -1, -1); }
void operator delete[](void* p) noexcept { arenaFree(p, 2, -1, -1); }
void operator delete(void* p, size_t n) noexcept { arenaFree(p, 2, (int64_t)n, -1); }
void operator delete[](void* p, size_t n) noexcept { arenaFree(p, 2, (int64_t)n, -1); }
void operator delete(void* p, std::align_val_t a) noexcept { arenaFree(p, 3, -1, (int64_t)a); }
void operator delete[](void* p, std::align_val_t a) noexcept { arenaFree(p, 3, -1, (int64_t)a); }
void operator delete(void* p, size_t n, std::align_val_t a) noexcept { arenaFree(p, 3, (int64_t)n, (int64_t)a); }
void operator delete[](void* p, size_t n, std::align_val_t a) noexcept { arenaFree(p, 3, (int64_t)n, (int64_t)a); }
void operator delete(void* p, const std::nothrow_t&) noexcept { arenaFree(p, 2, -1, -1); }
extern "C" {
void __real_free(void*);
void* __wrap_malloc(size_t n) { if (n > (16u << 20) || fails()) return nullptr; return arenaAlloc(n, 16, 1); }
void* __wrap_calloc(size_t a, size_t b) { void* p = arenaAlloc(a * b, 16, 1); memset(p, 0, a * b); return p; }
void* __wrap_aligned_alloc(size_t al, size_t n) { if (n > (16u << 20) || fails()) return nullptr; if (!al || (al & (al - 1))) return nullptr; if (n % al) die("memory", "aligned_alloc with a size which is not a multiple of the alignment"); return arenaAlloc(n, al, 5); }
void __wrap_free(void* p) { if (p && !inArena(p)) { __real_free(p); return; } arenaFree(p, 1, -1, -1); }
}
// ------------------------------------------------------------ replay
struct Ent { std::string name; unsigned w; uint64_t v; };
static Ent* ents; static int nent, pos; static int* schedL; static int nsched, spos;
static uint64_t next(const char* nm, unsigned w) {
    std::string name(nm); for (auto& c : name) if (c == ' ') c = '_';
    if (pos >= nent) { // beyond the recorded prefix (the encoding stopped at the failure): zero
        return 0;
    }
    auto& e = ents[pos++]; if (e.name != name || e.w != w) { fprintf(stderr, "VX-DIVERGED asked %s/%u, replay has %s/%u\n", name.c_str(), w, e.name.c_str(), e.w); _exit(3); }
    return e.v;
}
extern "C" {
uint64_t vx_sym(const char* n, unsigned b) { return next(n, b); }
void vx_bytes(void* p, size_t n, const char* nm) { for (size_t i = 0; i < n; ++i) ((uint8_t*)p)[i] = (uint8_t)next(nm, 8); }
uint32_t vx_choose(uint32_t, const char* nm) { return (uint32_t)next(nm, 32); }
uint32_t vx_pick(uint32_t, const char* nm) { return (uint32_t)next(nm, 32); }
uint64_t vx_conc(uint64_t v) { return v; }
void vx_assume(bool c) { if (!c) { fprintf(stderr, "VX-ASSUME violated\n"); _exit(3); } }
void vx_check_(bool c, const char* m) { if (!c) die("check", m); }
void vx_log(const char* t, uint64_t v) { if (g_log) fprintf(g_log, "%s %llu\n", t, (unsigned long long)v); }
void vx_reach(const char*) {}
void vx_alloc_fail_in(int n) { allocFail = n; }
void vx_no_leak_check(void) { noLeak = true; }
uint64_t vx_live(void) { uint64_t n = 0; for (int i = leakMark < 0 ? 0 : leakMark; i < nrec; ++i) if (!recs[i].freed) ++n; return n; }
bool vx_symbolic(void) { return false; }
}
// ------------------------------------------------------------ threads: one runs at a time, the order comes from the replay
struct Th { pthread_t t; int tok; int status; void (*f)(void*); void* arg; bool atOp; void* waitOn; int mode; };
static Th th[16]; static int nth = 1, cur = 0; static __thread int me = 0;
struct Lk { void* a; int writer; int readers[16]; int nr; }; static Lk lks[256]; static int nlk;
static void fwait(int* p) { while (__atomic_load_n(p, __ATOMIC_SEQ_CST) == 0) syscall(SYS_futex, p, FUTEX_WAIT, 0, nullptr, nullptr, 0); __atomic_store_n(p, 0, __ATOMIC_SEQ_CST); }
static void fwake(int* p) { __atomic_store_n(p, 1, __ATOMIC_SEQ_CST); syscall(SYS_futex, p, FUTEX_WAKE, 1, nullptr, nullptr, 0); }
static void switchTo(int t, bool wait) { int m = me; cur = t; th[t].status = th[t].status == 3 ? 3 : 0; if (t == m) return; fwake(&th[t].tok); if (wait) fwait(&th[m].tok); }
static int nextSched() { if (spos >= nsched) diverge("schedule exhausted"); return schedL[spos++]; }
static Lk& lockAt(void* a) { for (int i = 0; i < nlk; ++i) if (lks[i].a == a) return lks[i]; lks[nlk] = Lk{a, -1, {}, 0}; return lks[nlk++]; }
static bool own(Lk& l) { if (l.writer == me) return true; for (int i = 0; i < l.nr; ++i) if (l.readers[i] == me) return true; return false; }
static bool lfree(Lk& l, int mode) { return mode == 1 ? l.writer < 0 : l.writer < 0 && l.nr == 0; }
static bool canRunN(int t) { if (th[t].status == 0) return true; if (th[t].status == 3) return false; if (th[t].status == 1) return lfree(lockAt(th[t].waitOn), th[t].mode); return th[(long)th[t].waitOn].status == 3; }
static void blockedCheck() { for (int t = 0; t < nth; ++t) if (t != me && canRunN(t)) return; die("deadlock", "no thread can proceed"); }
static int lockOp(void* a, int mode, bool tr) {
    if (own(lockAt(a))) die("deadlock", "a thread locks a mutex which it already owns");
    if (nth > 1) { int n = nextSched(); if (n != me) switchTo(n, true); }
    for (;;) {
        Lk& l = lockAt(a);
        if (lfree(l, mode)) { if (mode == 1) l.readers[l.nr++] = me; else l.writer = me; return 0; }
        if (tr) return EBUSY;
        th[me].status = 1; th[me].waitOn = a; th[me].mode = mode; blockedCheck(); int n = nextSched(); switchTo(n, true);
    }
}
static int unlockOp(void* a) { Lk& l = lockAt(a); if (l.writer == me) { l.writer = -1; return 0; } for (int i = 0; i < l.nr; ++i) if (l.readers[i] == me) { l.readers[i] = l.readers[--l.nr]; return 0; } die("lock", "unlock of a lock which is not held"); return 0; }
static int dropLock(void* a, bool destroy) { Lk& l = lockAt(a); if (destroy && (l.writer >= 0 || l.nr)) die("lock", "a held lock is destroyed"); l = Lk{a, -1, {}, 0}; return 0; }
extern "C" {
#define RW(name, mode, tr) int __real_pthread_rwlock_##name(pthread_rwlock_t*); int __wrap_pthread_rwlock_##name(pthread_rwlock_t* p) { int r = lockOp(p, mode, tr); if (!r) __real_pthread_rwlock_##name(p); return r; }
RW(rdlock, 1, false) RW(wrlock, 2, false) RW(tryrdlock, 1, true) RW(trywrlock, 2, true)
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* p) { unlockOp(p); return __real_pthread_rwlock_unlock(p); }
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* p) { lockOp(p, 2, false); return __real_pthread_mutex_lock(p); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* p) { int r = lockOp(p, 2, true); if (!r) __real_pthread_mutex_lock(p); return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* p) { unlockOp(p); return __real_pthread_mutex_unlock(p); }
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t* p) { return dropLock(p, true); }
int __wrap_pthread_mutex_destroy(pthread_mutex_t* p) { return dropLock(p, true); }
static void* tmain(void* x) { me = (int)(long)x; fwait(&th[me].tok); th[me].f(th[me].arg); th[me].status = 3; { bool any = false; for (int t = 0; t < nth; ++t) if (t != me && canRunN(t)) any = true; if (!any) die("deadlock", "no thread can proceed"); } int n = nextSched(); switchTo(n, false); return nullptr; }
int vx_spawn(void (*f)(void*), void* arg) { int t = nth++; th[t].f = f; th[t].arg = arg; pthread_create(&th[t].t, nullptr, tmain, (void*)(long)t); return t; }
void vx_join(int t) { while (th[t].status != 3) { th[me].status = 2; th[me].waitOn = (void*)(long)t; blockedCheck(); int n = nextSched(); switchTo(n, true); } pthread_join(th[t].t, nullptr); }
void vx_yield(void) { if (nth > 1) { int n = nextSched(); if (n != me) switchTo(n, true); } }
int vx_tid(void) { return me; }
}
__attribute__((destructor(101))) static void leakCheck() {
    if (g_log) fflush(g_log);
    if (leakMark < 0 || noLeak) return;
    for (int i = leakMark; i < nrec; ++i) if (!recs[i].freed) die("leak", "block of memory not released");
}
__attribute__((constructor(101))) static void load(int argc, char** argv) { // definitions of the program may already ask for values
    if (argc > 1) if (FILE* f = fopen(argv[1], "r")) {
        ents = (Ent*)calloc(1 << 14, sizeof(Ent)); schedL = (int*)calloc(1 << 14, sizeof(int)); char line[4096 * 8];
        while (fgets(line, sizeof line, f)) {
            if (line[0] == '#') { if (!strncmp(line, "#sched", 6)) { char* p = line + 6; char* e; for (;;) { long v = strtol(p, &e, 10); if (e == p) break; schedL[nsched++] = (int)v; p = e; } } continue; }
            char nm[512]; unsigned w; unsigned long long v; if (sscanf(line, "%500s %u %llu", nm, &w, &v) == 3 && nent < (1 << 14)) { new (&ents[nent].name) std::string(nm); ents[nent].w = w; ents[nent].v = v; ++nent; }
        }
        fclose(f);
    }
    if (argc > 2) g_log = fopen(argv[2], "w");
}
int main() {
    leakMark = nrec;
    vx_main();
    if (pos < nent) diverge("the replay file has more values than the run asked for");
    return 0;
}
