#pragma once
#include "sx.h"
#include <time.h>
extern int m_spurious, m_timeouts;   // remaining spurious wakeups / time-outs (-1: every timed wait times out at once)
void m_deadline(const struct timespec*);  // absolute deadline handed to a timed wait
void m_reach_deadline();                  // time passes up to it
