// Harness API.  Implemented symbolically by engine/vpexec and concretely (witness replay) by rt/native.cpp
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void vp_bytes(void* p, size_t n, const char* name);                   // n arbitrary bytes
uint64_t vp_range(uint64_t lo, uint64_t hi, const char* name);        // arbitrary value in [lo, hi] (inclusive), symbolic
uint64_t vp_choose(uint64_t n, const char* name);                     // arbitrary value in [0, n), case-split
uint64_t vp_fix(uint64_t v);                                          // case-split on every feasible value of v
void vp_assume(bool c);
void vp_assert(bool c, const char* msg);                              // solver-decided assertion
void vp_reach(const char* tag);                                       // reachability witness
void vp_observe(uint64_t v);                                          // compared between symbolic and native execution
uint64_t vp_param(const char* name, uint64_t def);                    // harness configuration
uint64_t vp_symbolic(void);
void vp_fork_selects();  // from here on a choice between two values is a branch
void vp_hang_limit(uint64_t insts);                                   // termination check: instruction budget from here on
void vp_uf(uint64_t fid, const void* in, size_t inlen, void* out, size_t outlen, int flags); // uninterpreted function; flags&1: collision free
void vp_end(void);                                                    // ends the path successfully
// environment control (rt/env.cpp)
extern int64_t vp_clock_ns;      // value of steady_clock
extern int64_t vp_sysclock_us;   // value of system_clock
extern void (*vp_on_sendto)(const uint8_t* p, size_t n); // called with every datagram sent
extern int vp_rand_mode;         // 0: symbolic draws, 1: fixed (min), 2: counter
extern uint64_t vp_rand_sym;     // mode 3: this many arbitrary draws among four values, then a counter
extern uint64_t vp_rand_ctr;     // where the counter begins
}
static inline uint64_t vp_u8(const char* n) { return vp_range(0, 0xff, n); }
static inline uint64_t vp_u16(const char* n) { return vp_range(0, 0xffff, n); }
static inline uint64_t vp_u32(const char* n) { return vp_range(0, 0xffffffffu, n); }
static inline bool vp_bool(const char* n) { return vp_range(0, 1, n) != 0; }
// byte-wise equality as one solver term
extern "C" int memcmp(const void*, const void*, size_t) noexcept(true);
static inline bool vp_eq(const void* a, const void* b, size_t n) { return n == 0 || memcmp(a, b, n) == 0; }
#define HARNESS(name) extern "C" void h_##name()
