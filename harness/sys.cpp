// C05 mutexes, signals, threads and clocks of the system layer; C06 atomic maximum and minimum
#include "hutil.h"
#include <cy_core.h>
#include "rt_model.h"
#include "rt_clock.h"
using namespace cyclone;
static sys_api::mutex_t M; static sys_api::signal_t S; static int g_in, g_bad, g_runs, g_got[4], g_tried[4], g_held[4]; static bool g_flag[4];
static void crit() { if (g_in++) g_bad = 1; sx_preempt(); if (--g_in) g_bad = 1; g_runs++; }
static void run_threads(void (*f)(void*), int n) { int t[4]; for (int i = 1; i < n; i++) t[i] = sx_thread_create(f, (void*)(intptr_t)i); f((void*)0); for (int i = 1; i < n; i++) while (!sx_thread_done(t[i])) sx_block(); }
// mutual exclusion: lock, or try with a wait of 0 or some time
static int g_how[4], g_wait;
static void locker(void* q) { int i = (int)(intptr_t)q; for (int k = 0; k < 2; k++) { if (g_how[i] == 0) { sys_api::auto_mutex g(M); crit(); } else { int64_t t = m_real_ns; int ms = g_how[i] == 1 ? 0 : g_wait; if (sys_api::mutex_try_lock(M, ms)) { g_got[i]++; crit(); sys_api::mutex_unlock(M); } else { g_tried[i]++; if (m_real_ns < t + (int64_t)ms * 1000000) g_bad = 2; } } } }
HARNESS h_mutex() { sx_step_limit(4000000); size_t live = sx_heap_live(); int n = SX_PICK("threads", 2, 3), r = 0; for (int i = 0; i < n; i++) g_how[i] = SX_PICK("how", i ? 0 : 1, 2); g_wait = 7; m_timeouts = 1; M = sys_api::mutex_create(); sx_preempt_budget(1000); sx_free_sched(1); run_threads(locker, n); sx_preempt_budget(0); SX_ASSERT(!g_bad, "one thread at a time holds a mutex, and a timed try waits its time"); for (int i = 0; i < n; i++) { SX_ASSERT(g_how[i] == 0 || g_got[i] + g_tried[i] == 2, "a try either gets the mutex or does not"); r += g_how[i] ? g_got[i] : 2; } SX_ASSERT(g_runs == r, "one thread at a time holds a mutex, and a timed try waits its time");
  SX_ASSERT(sys_api::mutex_try_lock(M, 0), "a free mutex is locked at once"); sys_api::mutex_unlock(M); SX_ASSERT(sys_api::mutex_try_lock(M, 5), "a free mutex is locked at once"); sys_api::mutex_unlock(M); sys_api::mutex_destroy(M); SX_ASSERT(sx_heap_live() == live, "a destroyed mutex or signal leaves nothing behind"); sx_observe(g_runs); sx_reach("end"); }
// a held mutex: the wait of a try ends exactly when it should, for every wait and clock
static void clocks() { m_real_ns = 1000000000ll * (int64_t)sx_range("realtime s", 1, 4000000000ll) + (int64_t)sx_range("ns", 0, 999999999); }
static void holder(void*) { sys_api::mutex_lock(M); g_flag[0] = true; while (!g_flag[1]) sx_block(); sys_api::mutex_unlock(M); }
HARNESS h_try_time() { sx_step_limit(400000); clocks(); M = sys_api::mutex_create(); int t = sx_thread_create(holder, 0); sx_idle(); int32_t ms = (int32_t)sx_sym("ms", 32); m_timeouts = -1; int64_t t0 = m_real_ns; bool ok = sys_api::mutex_try_lock(M, ms); SX_ASSERT(!ok, "a held mutex is not locked"); if (ms > 0) { SX_ASSERT(!m_last_deadline_bad && m_last_deadline_ns == t0 + (int64_t)ms * 1000000, "a timed try waits exactly its time"); sx_reach("timed"); } else SX_ASSERT(m_last_deadline_ns == -1, "a try without a time does not wait"); g_flag[1] = true; sx_progress(); while (!sx_thread_done(t)) sx_block(); sx_reach("end"); }
// signals: each notify of an unlit signal releases one waiter, none is lost
static int g_notifies, g_waiters, g_wt; 
static void waiter(void* q) { int i = (int)(intptr_t)q; if (g_how[i] == 0) { sys_api::signal_wait(S); g_got[i] = 1; } else { int64_t t = m_real_ns; if (sys_api::signal_timewait(S, g_how[i] == 1 ? g_wt : 0)) g_got[i] = 1; else { g_tried[i] = 1; if (g_how[i] == 1 && m_real_ns / 1000 < t / 1000 + (int64_t)g_wt * 1000) g_bad = 2; } } }
static void sig_case(int nw, int nn) { sx_step_limit(4000000); size_t live = sx_heap_live(); S = sys_api::signal_create(); m_spurious = 1; m_timeouts = 1; g_wt = 9; bool lit = SX_PICK("lit first", 0, 1); if (lit) sys_api::signal_notify(S); sx_preempt_budget(1000); sx_free_sched(1); int t[4]; for (int i = 1; i <= nw; i++) t[i] = sx_thread_create(waiter, (void*)(intptr_t)i);
  for (int k = 0; k < nn; k++) sys_api::signal_notify(S); sx_idle(); int got = 0, blocked = 0; for (int i = 1; i <= nw; i++) { got += g_got[i]; bool d = sx_thread_done(t[i]); SX_ASSERT(d == (g_got[i] || g_tried[i]), "a wait returns lit or timed out"); blocked += !d; } SX_ASSERT(!g_bad, "a timed wait waits its time"); SX_ASSERT(got <= nn + lit, "one notification releases at most one waiter"); if (blocked) SX_ASSERT(got >= 1 || nn + lit == 0, "a notification is not lost"); 
  sx_preempt_budget(0); m_timeouts = 0; bool again = blocked ? false : sys_api::signal_timewait(S, 0); m_timeouts = 0; if (blocked) { /* while somebody waits the signal is out */ for (int k = 0; k < blocked; k++) { sys_api::signal_notify(S); sx_idle(); } for (int i = 1; i <= nw; i++) SX_ASSERT(sx_thread_done(t[i]), "a notification releases a waiter"); again = sys_api::signal_timewait(S, 0); SX_ASSERT(!again, "a wait puts the signal out"); } else if (nn + lit > 0 && got == 0) SX_ASSERT(again, "a notification is not lost"); SX_ASSERT(!sys_api::signal_timewait(S, 0), "a wait puts the signal out"); SX_ASSERT(got + again <= nn + lit, "one notification releases at most one waiter"); sys_api::signal_destroy(S); SX_ASSERT(sx_heap_live() <= live, "a destroyed mutex or signal leaves nothing behind"); sx_observe(got); sx_reach("end"); }
HARNESS h_signal() { for (int i = 1; i <= 2; i++) g_how[i] = SX_PICK("how", 0, 2); sig_case(2, SX_PICK("notifies", 0, 2)); }
HARNESS h_signal3() { g_how[3] = SX_PICK("how", 0, 1); sig_case(3, 2); }
HARNESS h_signal_time() { sx_step_limit(400000); clocks(); S = sys_api::signal_create(); int32_t ms = (int32_t)sx_range("ms", 0, 0x7fffffff); m_timeouts = -1; int64_t t0 = m_real_ns / 1000 * 1000; bool lit = SX_PICK("lit", 0, 1); if (lit) { sys_api::signal_notify(S); if (SX_PICK("twice", 0, 1)) sys_api::signal_notify(S); } bool ok = sys_api::signal_timewait(S, ms); SX_ASSERT(ok == lit, "a lit signal is taken at once, an unlit one is not"); if (lit || ms == 0) SX_ASSERT(m_last_deadline_ns == -1, "a lit signal is taken without waiting"); else { SX_ASSERT(!m_last_deadline_bad && m_last_deadline_ns == t0 + (int64_t)ms * 1000000, "a timed wait waits exactly its time"); sx_reach("timed"); } ok = sys_api::signal_timewait(S, 0); SX_ASSERT(!ok, "a wait puts the signal out"); sys_api::signal_destroy(S); sx_reach("end"); }
// threads
static thread_t T[4]; static thread_id_t g_tid[4]; static void* g_param[4]; static char g_name[4][8]; static bool g_done[4];
static void body(void* p) { int i = *(int*)p; g_runs++; g_param[i] = p; g_tid[i] = sys_api::thread_get_current_id(); strncpy(g_name[i], sys_api::thread_get_current_name(), 7); sx_preempt(); g_done[i] = true; }
HARNESS h_thread() { sx_step_limit(4000000); size_t live = sx_heap_live(); { static int id[3] = {0, 1, 2}; m_timeouts = 1; int kind[3]; int n = SX_PICK("threads", 1, 2); for (int i = 0; i < n; i++) kind[i] = SX_PICK("kind", 0, 2); static const char* const NM[3] = {"one", 0, "three"}; SX_ASSERT(!strcmp(sys_api::thread_get_current_name(), "<UNNAME>"), "a thread knows its name"); thread_id_t me = sys_api::thread_get_current_id(); sx_preempt_budget(1000); sx_free_sched(1);
  for (int i = 0; i < n; i++) { if (kind[i] == 2) sys_api::thread_create_detached(body, &id[i], NM[i]); else { T[i] = sys_api::thread_create(body, &id[i], NM[i]); SX_ASSERT(T[i] != nullptr, "a thread is created"); g_flag[i] = sys_api::thread_get_id(T[i]) == me; if (g_flag[i]) g_bad = 1; } }
  for (int i = 0; i < n; i++) { if (kind[i] == 2) continue; thread_id_t tid = sys_api::thread_get_id(T[i]); if (kind[i] == 0) { bool ok = sys_api::thread_join(T[i]); SX_ASSERT(ok, "joining waits for the thread's end"); } else { while (!sys_api::thread_join(T[i], 10)); } SX_ASSERT(g_done[i], "joining waits for the thread's end"); SX_ASSERT(tid == g_tid[i], "a thread has one id"); }
  sx_idle(); sx_preempt_budget(0); for (int i = 0; i < n; i++) { SX_ASSERT(g_done[i] && g_param[i] == &id[i], "a thread runs its function with its argument"); SX_ASSERT(!strcmp(g_name[i], NM[i] ? NM[i] : ""), "a thread knows its name"); for (int j = 0; j < i; j++) SX_ASSERT(!(g_tid[i] == g_tid[j]) , "threads have ids of their own"); SX_ASSERT(!(g_tid[i] == me), "threads have ids of their own"); } SX_ASSERT(g_runs == n && !g_bad, "a thread runs its function once"); SX_ASSERT(sys_api::thread_get_current_id() == me, "a thread has one id"); } SX_ASSERT(sx_heap_live() == live, "a finished thread leaves nothing behind"); sx_reach("end"); }
// clocks
HARNESS h_time() { sx_step_limit(400000); clocks(); m_mono_ns = 1 + (int64_t)sx_range("boot ns", 0, 1ull << 60); int64_t m0 = m_mono_ns; int64_t a = sys_api::performance_time_now(); SX_ASSERT(a == 0, "the performance clock starts at its first use"); int64_t d = (int64_t)sx_range("elapsed ns", 0, 1ull << 60); m_mono_ns += d; int64_t b = sys_api::performance_time_now(); SX_ASSERT(b == d / 1000, "the performance clock counts microseconds since its first use"); int64_t e = (int64_t)sx_range("elapsed ns", 0, 1ull << 60); m_mono_ns += e; SX_ASSERT(sys_api::performance_time_now() == (d + e) / 1000, "the performance clock counts microseconds since its first use"); SX_ASSERT(sys_api::utc_time_now() == m_real_ns / 1000, "the calendar clock counts microseconds since 1970"); int32_t ms = (int32_t)sx_range("sleep ms", 0, 100000); int64_t r0 = m_mono_ns; sys_api::thread_sleep(ms); SX_ASSERT(m_mono_ns == r0 + (int64_t)ms * 1000000, "a sleep lasts its time"); sx_reach("end"); }
// C06
static std::atomic<int32_t> A; static std::atomic<uint64_t> U; static int32_t g_v[4]; static uint64_t g_u[4]; static bool g_res[4]; static int g_min;
static void amax(void* q) { int i = (int)(intptr_t)q; g_res[i] = g_min ? atomic_smaller_exchange<int32_t>(A, g_v[i], g_v[i]) : atomic_greater_exchange<int32_t>(A, g_v[i], g_v[i]); }
static void amax_case(int n) { sx_step_limit(400000); int32_t a0 = (int32_t)sx_sym("start", 32); A = a0; g_min = SX_PICK("minimum", 0, 1); int32_t m = a0; for (int i = 0; i < n; i++) { g_v[i] = (int32_t)sx_sym("value", 32); if (g_min ? g_v[i] < m : g_v[i] > m) m = g_v[i]; } sx_preempt_budget(1000); sx_free_sched(1); run_threads(amax, n); sx_preempt_budget(0); SX_ASSERT(A.load() == m, "the atomic holds the extreme of all values offered"); bool any = false; for (int i = 0; i < n; i++) { any |= g_res[i]; if (g_res[i]) SX_ASSERT(g_min ? g_v[i] < a0 : g_v[i] > a0, "an exchange succeeds only if the value is more extreme"); if (g_v[i] == m) { bool other = false; for (int j = 0; j < n; j++) if (j != i && g_v[j] == m) other = true; if (!other && m != a0) SX_ASSERT(g_res[i], "an exchange succeeds if its value is the most extreme"); } } SX_ASSERT(any == (m != a0), "an exchange succeeds exactly if one was needed"); sx_reach("end"); }
HARNESS h_extreme() { amax_case(2); }
HARNESS h_extreme3() { amax_case(3); }
static void au(void* q) { int i = (int)(intptr_t)q; g_res[i] = atomic_compare_exchange<uint64_t>(U, g_u[0], g_u[i + 1]); }
HARNESS h_cas() { sx_step_limit(400000); uint64_t s = sx_sym("start", 64); U = s; for (int i = 0; i < 3; i++) g_u[i] = sx_sym("value", 64); sx_preempt_budget(1000); sx_free_sched(1); run_threads(au, 2); uint64_t e = U.load(); if (g_u[0] != s) { SX_ASSERT(!g_res[0] && !g_res[1] && e == s, "an exchange with the wrong expectation fails and changes nothing"); } else { SX_ASSERT(g_res[0] || g_res[1], "one exchange with the right expectation succeeds"); SX_ASSERT(e == g_u[1] && g_res[0] || e == g_u[2] && g_res[1], "a successful exchange stores its value"); if (g_u[1] != s && g_u[2] != s) SX_ASSERT(g_res[0] != g_res[1], "one exchange with the right expectation succeeds"); } sx_reach("end"); }
