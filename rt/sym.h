// Harness interface of the symbolic executor. The same calls exist natively (rt_native.cpp) for
// replaying a counterexample against the real, natively compiled code.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t sym_int(unsigned bits, const char *name);             // any value of that width
void sym_bytes(void *p, size_t n, const char *name);           // any bytes
uint64_t sym_choice(uint64_t n, const char *name);             // any value < n, one path per value
void sym_assume(bool c);
void sym_assert(bool c, const char *msg);                      // decided by the solver
[[noreturn]] void sym_fail(const char *msg);
void sym_cover(const char *name);                              // reachability witness
uint64_t sym_concretize(uint64_t v);                           // one path per feasible value
void sym_alloc_limit(uint64_t bytes);                          // larger allocations fail (bad_alloc)
void sym_step_limit(uint64_t n, int isHang);                   // bound on further instructions
uint64_t sym_heap_live();                                      // live heap blocks
[[noreturn]] void sym_done();                                  // end this path
void sym_note(const char *msg);
void sym_note2(const char *msg, uint64_t v);
uint64_t sym_cfg(const char *name, uint64_t dflt);             // bound given on the command line
uint64_t sym_part();
uint64_t sym_nparts();
int sym_is_symbolic(uint64_t v);
int sym_valid(const void *p, uint64_t n);
int sym_thread_new(void (*fn)(void *), void *arg);
int sym_thread_self();
void sym_switch(int t);
void sym_hb(const void *obj, int op);                          // happens-before: 1 acquire, 2 release
int sym_native();                                              // 1 in a native replay
// runtime model (rt_model.cpp)
void rt_yield(const char *why);                                // a point where another thread may run
void rt_set_preempt(int n);                                    // preemption bound; -1: one fixed order of threads
void rt_set_timejump(int n);                                   // timeouts that may fire early relative to other threads
void rt_set_spurious(int n);                                   // number of waits on condition variables that may end for no reason
int64_t rt_now();                                              // virtual time, ns
void rt_advance(int64_t ns);
int rt_live_threads();                                         // threads other than the caller not finished
void rt_wait_others();                                         // block until every other thread finished
int rt_wait_quiescent();                                       // block until all others are finished or blocked; returns #blocked
void rt_thread_dtors();                                        // run this thread's thread_local destructors
}
#define SYM_ENTRY extern "C" __attribute__((used)) void
static inline bool sym_bool(const char *n) { return sym_int(1, n) != 0; }
static inline uint8_t sym_u8(const char *n) { return (uint8_t)sym_int(8, n); }
static inline uint16_t sym_u16(const char *n) { return (uint16_t)sym_int(16, n); }
static inline uint32_t sym_u32(const char *n) { return (uint32_t)sym_int(32, n); }
static inline uint64_t sym_u64(const char *n) { return sym_int(64, n); }
static inline int32_t sym_i32(const char *n) { return (int32_t)sym_int(32, n); }
static inline int64_t sym_i64(const char *n) { return (int64_t)sym_int(64, n); }
// lengths, counts, indices: a symbolic value below n, then one path per value
static inline size_t sym_len(size_t maxIncl, const char *n) { return (size_t)sym_choice(maxIncl + 1, n); }
