#pragma once
#include "sx.h"
#include <cyclone_config.h>
#include <string.h>
// bounded FIFO reference model
template <size_t N> struct RefFifo { uint8_t d[N]; size_t n; RefFifo() : n(0) {} 
  void put(const uint8_t* p, size_t k) { for (size_t i = 0; i < k; i++) d[n++] = p[i]; }
  void drop(size_t k) { for (size_t i = k; i < n; i++) d[i - k] = d[i]; n -= k; } };
