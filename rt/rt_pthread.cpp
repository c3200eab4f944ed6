// Model of the pthread / std::thread / sem primitives the library uses, on the engine's cooperative threads.
// Every lock, unlock, wait and signal is a point where the (symbolic) scheduler may switch threads.
#include "sx.h"
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#include <string.h>
#include <thread>
#include "rt_model.h"
int m_spurious = 0, m_timeouts = 0;   // budgets, set by the harness
struct Mx { uint32_t magic; uint32_t owner; };
struct Cv { uint32_t magic; uint32_t waiting, woken; };   // bit per thread
enum { MX = 0x4d55, CV = 0xC0D, DEAD = 0xdead };
extern "C" {
int sx_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) { Mx* x = (Mx*)m; x->magic = MX; x->owner = 0; return 0; }
int sx_pthread_mutex_destroy(pthread_mutex_t* m) { Mx* x = (Mx*)m; SX_ASSERT(x->magic == MX, "destroying a live mutex"); SX_ASSERT(x->owner == 0, "a locked mutex is not destroyed"); x->magic = DEAD; return 0; }
int sx_pthread_mutex_lock(pthread_mutex_t* m) { Mx* x = (Mx*)m; sx_preempt(); SX_ASSERT(x->magic == MX || x->magic == 0, "locking a live mutex"); SX_ASSERT(x->owner != (uint32_t)sx_self() + 1, "a thread never relocks a mutex it holds (self-deadlock)"); while (x->owner) sx_block(); x->owner = sx_self() + 1; return 0; }
int sx_pthread_mutex_trylock(pthread_mutex_t* m) { Mx* x = (Mx*)m; sx_preempt(); SX_ASSERT(x->magic == MX || x->magic == 0, "locking a live mutex"); if (x->owner) return EBUSY; x->owner = sx_self() + 1; return 0; }
int sx_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { Mx* x = (Mx*)m; sx_preempt(); m_deadline(ts); while (x->owner) { if (m_timeouts > 0 && SX_PICK("lock times out", 0, 1)) { m_timeouts--; m_reach_deadline(); return ETIMEDOUT; } if (m_timeouts < 0) { m_reach_deadline(); return ETIMEDOUT; } sx_block(); } x->owner = sx_self() + 1; return 0; }
int sx_pthread_mutex_unlock(pthread_mutex_t* m) { Mx* x = (Mx*)m; SX_ASSERT(x->magic == MX || x->magic == 0, "unlocking a live mutex"); SX_ASSERT(x->owner == (uint32_t)sx_self() + 1, "a mutex is unlocked by its owner"); x->owner = 0; sx_progress(); sx_preempt(); return 0; }
int sx_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { Cv* v = (Cv*)c; v->magic = CV; v->waiting = v->woken = 0; return 0; }
int sx_pthread_cond_destroy(pthread_cond_t* c) { Cv* v = (Cv*)c; SX_ASSERT(v->magic == CV, "destroying a live condition variable"); SX_ASSERT(v->waiting == 0, "no thread waits on a destroyed condition variable"); v->magic = DEAD; return 0; }
static int cvwait(Cv* v, pthread_mutex_t* m, bool timed) { SX_ASSERT(v->magic == CV || v->magic == 0, "waiting on a live condition variable"); uint32_t me = 1u << sx_self(); v->waiting |= me; v->woken &= ~me; sx_pthread_mutex_unlock(m); int r = 0;
  while (!(v->woken & me)) { if (m_spurious > 0 && SX_PICK("spurious wakeup", 0, 1)) { m_spurious--; break; } if (timed && m_timeouts > 0 && SX_PICK("wait times out", 0, 1)) { m_timeouts--; r = ETIMEDOUT; break; } if (timed && m_timeouts < 0) { r = ETIMEDOUT; break; } sx_block(); }
  v->waiting &= ~me; v->woken &= ~me; if (r) m_reach_deadline(); sx_pthread_mutex_lock(m); return r; }
int sx_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cvwait((Cv*)c, m, false); }
int sx_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { m_deadline(ts); return cvwait((Cv*)c, m, true); }
int sx_pthread_cond_signal(pthread_cond_t* c) { Cv* v = (Cv*)c; SX_ASSERT(v->magic == CV || v->magic == 0, "signalling a live condition variable"); uint32_t w = v->waiting & ~v->woken; int n = __builtin_popcount(w); if (n) { int k = n > 1 ? SX_PICK("woken", 0, n - 1) : 0; while (k--) w &= w - 1; v->woken |= w & -w; } sx_progress(); return 0; }
int sx_pthread_cond_broadcast(pthread_cond_t* c) { Cv* v = (Cv*)c; SX_ASSERT(v->magic == CV || v->magic == 0, "signalling a live condition variable"); v->woken = v->waiting; sx_progress(); return 0; }
}
// ---- std::thread ----
struct ThState { virtual ~ThState() {} virtual void _M_run() = 0; };   // layout of std::thread::_State
static void thread_main(void* p) { ThState* s = (ThState*)p; s->_M_run(); delete s; }
extern "C" void sx__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(void** self, void** state, void (*)()) { void* st = *state; *state = nullptr; int t = sx_thread_create(thread_main, st); *(uint64_t*)self = (uint64_t)t + 1; sx_preempt(); }
extern "C" void sx__ZNSt6thread4joinEv(void** self) { uint64_t id = *(uint64_t*)self; SX_ASSERT(id != 0, "only a joinable thread is joined"); while (!sx_thread_done((int)id - 1)) sx_block(); *(uint64_t*)self = 0; }
extern "C" void sx__ZNSt6thread6detachEv(void** self) { SX_ASSERT(*(uint64_t*)self != 0, "only a joinable thread is detached"); *(uint64_t*)self = 0; }
extern "C" pthread_t sx_pthread_self() { return (pthread_t)(sx_self() + 1); }
extern "C" int sx_sched_yield() { sx_yield(); return 0; }
extern "C" void sx__ZNSt6thread6_StateD2Ev(void*) {}
extern "C" int sx_pthread_once(pthread_once_t* o, void (*f)()) { int* s = (int*)o; if (*s == 2) return 0; if (*s == 0) { *s = 1; f(); *s = 2; sx_progress(); return 0; } while (*s != 2) sx_block(); return 0; }
