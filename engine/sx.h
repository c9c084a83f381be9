// Harness interface. The same harness runs under the symbolic engine (sxe) and natively (replay).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void sx_symbolic(void* p, size_t n, const char* name);            // n arbitrary bytes
uint8_t sx_u8(const char* name);                                  // arbitrary values
uint16_t sx_u16(const char* name);
uint32_t sx_u32(const char* name);
uint64_t sx_u64(const char* name);
uint64_t sx_range(uint64_t lo, uint64_t hi, const char* name);    // arbitrary value in [lo, hi], symbolic
uint32_t sx_choose(uint32_t n, const char* name);                 // arbitrary value in [0, n), one path each
uint64_t sx_concrete(uint64_t v);                                 // one path per feasible value
void sx_assume(bool c);
void sx_check(bool c, const char* msg);                           // the property
void sx_fail(const char* msg);
void sx_cover(const char* label);                                 // reachability witness: must be hit
bool sx_memeq(const void* p, const void* q, size_t n);
bool sx_same(const void* p, const void* q, size_t n);               // decided equal without a solver (optional shortcut)
void sx_wiped_on_free(bool on);                                    // from now on heap blocks given back must be all zeros
uint64_t sx_live_blocks(void);                                    // heap blocks alive
bool sx_readable(const void* p, size_t n);
void sx_init_check(const void* p, size_t n);                      // the bytes must be initialised
int sx_tier(void);                                                // 0 quick, 1 thorough
int sx_native(void);
void sx_print(const char* s);
void sx_printv(const char* s, uint64_t v);
void sx_max_steps(uint64_t n);
// threads and time
uint64_t sx_thread_create(void (*fn)(void*), void* arg);
int sx_thread_join(uint64_t t);
uint64_t sx_thread_self(void);
void sx_sched_point(void);
void sx_preempt_bound(int n);
void sx_spurious(int n); // spurious wake-ups allowed per path
uint64_t sx_now(void);
void sx_advance(uint64_t ns);
}
#define SX_CASE(name) extern "C" void case_##name()
// quick/thorough bound
static inline unsigned sx_bound(unsigned q, unsigned t) { return sx_tier() ? t : q; }
