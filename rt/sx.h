// Harness interface. The same harness source is executed symbolically (by build/sx, from LLVM IR)
// and natively (replay of a counterexample or of a sampled path, rt/sx_native.cpp).
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t sx_sym(const char* name, unsigned bits);                 // fresh symbolic value
uint64_t sx_range(const char* name, uint64_t lo, uint64_t hi);    // fresh symbolic value in [lo,hi]
uint64_t sx_pick(const char* name, uint64_t lo, uint64_t hi);      // fork over every value in [lo,hi]
void sx_bytes(void* p, size_t n, const char* name);               // n fresh symbolic bytes
void sx_assume(uint64_t c);
void sx_assert_(uint64_t c, const char* msg);
void sx_fail(const char* msg);
void sx_stop(void);                                               // end this path silently (outside the bound)
void sx_reach(const char* tag);                                   // reachability witness
void sx_note(const char* s);
void sx_notev(const char* s, uint64_t v);
uint64_t sx_concrete(uint64_t v);                                 // fork over every feasible value
void sx_observe(uint64_t v);                                      // compared with the native run of the same path
uint64_t sx_ite(uint64_t c, uint64_t a, uint64_t b);              // branch-free select
int sx_native(void);
uint64_t sx_heap_live(void);                                      // number of live heap blocks
void sx_step_limit(uint64_t n);
void sx_readable(const void* p, size_t n);                        // report if [p,p+n) is not accessible
int sx_thread_create(void (*fn)(void*), void* arg);
int sx_self(void);
int sx_thread_done(int t);
void sx_progress(void);                                           // model state changed: wake blocked threads
void sx_block(void);                                              // cannot proceed until another thread makes progress
void sx_idle(void);                                               // wait until every other thread is blocked or finished
void sx_preempt(void);                                            // optional context switch (symbolic schedule)
void sx_preempt_budget(int n);
void sx_yield(void);                                              // let the next runnable thread run (no choice)
void sx_free_sched(int on);                                       // blocking points may continue with any runnable thread
void sx_shared(void* p);
void sx_run_threads(void);
#ifdef __cplusplus
}
#endif
#define SX_ASSERT(c, msg) sx_assert_((uint64_t)(bool)(c), msg)
#define SX_PICK(name, lo, hi) sx_pick(name, lo, hi)
#define HARNESS extern "C" __attribute__((used)) void
