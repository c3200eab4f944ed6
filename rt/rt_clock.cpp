// Model clock: advances only when the harness (or a model) advances it.
#include "rt_model.h"
#include "rt_clock.h"
#include <sys/time.h>
#include <errno.h>
int64_t m_mono_ns = 1000000000, m_real_ns = 1600000000000000000ll; int64_t m_last_deadline_ns = -1; int m_last_deadline_bad = 0; int (*m_on_clock)() = 0;
void m_deadline(const struct timespec* ts) { m_last_deadline_bad = ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000; m_last_deadline_ns = ts->tv_sec * 1000000000ll + ts->tv_nsec; }
void m_reach_deadline() { if (m_real_ns < m_last_deadline_ns) { m_mono_ns += m_last_deadline_ns - m_real_ns; m_real_ns = m_last_deadline_ns; } }
extern "C" {
int sx_clock_gettime(clockid_t c, struct timespec* ts) { if (m_on_clock) m_on_clock(); int64_t t = c == CLOCK_REALTIME ? m_real_ns : m_mono_ns; ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000; return 0; }
int sx_gettimeofday(struct timeval* tv, void*) { if (m_on_clock) m_on_clock(); tv->tv_sec = m_real_ns / 1000000000; tv->tv_usec = m_real_ns % 1000000000 / 1000; return 0; }
time_t sx_time(time_t* p) { time_t t = m_real_ns / 1000000000; if (p) *p = t; return t; }
int sx_nanosleep(const struct timespec* ts, struct timespec*) { m_mono_ns += ts->tv_sec * 1000000000ll + ts->tv_nsec; m_real_ns += ts->tv_sec * 1000000000ll + ts->tv_nsec; sx_preempt(); return 0; }
void sx_srand(unsigned) {}
}
