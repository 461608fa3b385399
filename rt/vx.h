// Harness interface. The symbolic executor gives the functions their meaning; natively they read a replay file.
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t vx_sym(const char* name, unsigned bits);            // any value of that width
void vx_bytes(void* p, size_t n, const char* name);          // any n bytes
uint32_t vx_choose(uint32_t n, const char* name);            // any value below n, kept symbolic
uint32_t vx_pick(uint32_t n, const char* name);              // any value below n, one path per value
uint64_t vx_conc(uint64_t v);                                // one path per value of v
void vx_assume(bool c);
void vx_check_(bool c, const char* msg);
void vx_log(const char* tag, uint64_t v);                    // compared between the encoding and the native run
void vx_reach(const char* label);                            // reachability witness
int vx_spawn(void (*f)(void*), void* arg);
void vx_join(int t);
void vx_yield(void);
int vx_tid(void);
void vx_alloc_fail_in(int n);                                // the n-th allocation from now fails (-1: none)
void vx_no_leak_check(void);
uint64_t vx_live(void);                                      // blocks allocated since the start and not released
bool vx_symbolic(void);
void vx_main(void);
#ifdef __cplusplus
}
#define vx_check(c, msg) vx_check_((c), msg)
static inline uint8_t vx_u8(const char* n) { return (uint8_t)vx_sym(n, 8); }
static inline uint16_t vx_u16(const char* n) { return (uint16_t)vx_sym(n, 16); }
static inline uint32_t vx_u32(const char* n) { return (uint32_t)vx_sym(n, 32); }
static inline int32_t vx_i32(const char* n) { return (int32_t)vx_sym(n, 32); }
static inline uint64_t vx_u64(const char* n) { return vx_sym(n, 64); }
static inline bool vx_bool(const char* n) { return vx_sym(n, 1) & 1; }
static inline bool vx_flag(const char* n) { return vx_pick(2, n) != 0; }
#endif
