#pragma once
#include <stdint.h>
extern int64_t m_mono_ns, m_real_ns, m_last_deadline_ns; extern int m_last_deadline_bad; extern int (*m_on_clock)();
