// snprintf / vsnprintf for the conversions the library uses; digits of symbolic numbers are decided by forking
#include "sx.h"
#include <stdarg.h>
#include <string.h>
int (*m_on_vsn)() = 0;
extern "C" int sx_vsnprintf(char* d, size_t n, const char* f, va_list ap) { if (m_on_vsn && m_on_vsn()) { if (n) { d[0] = 0; } return -1; } size_t o = 0; 
#define PUT(c) do { char c_ = (c); if (o + 1 < n) d[o] = c_; o++; } while (0)
  for (; *f; f++) { if (*f != '%') { PUT(*f); continue; } f++; int zero = 0, width = 0, lng = 0, left = 0; for (;;) { if (*f == '0' && !width) zero = 1; else if (*f == '-') left = 1; else break; f++; } while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0'); while (*f == 'l' || *f == 'z') { lng++; f++; }
    if (*f == '%') { PUT('%'); continue; } if (*f == 'c') { PUT((char)va_arg(ap, int)); continue; }
    if (*f == 's') { const char* s = va_arg(ap, const char*); size_t l = strlen(s); if (!left) for (size_t i = l; (int)i < width; i++) PUT(' '); for (size_t i = 0; i < l; i++) PUT(s[i]); if (left) for (size_t i = l; (int)i < width; i++) PUT(' '); continue; }
    char t[24]; int k = 0; int neg = 0; unsigned base = *f == 'x' || *f == 'X' ? 16 : 10; uint64_t v; if (*f == 'd' || *f == 'i') { int64_t s = lng ? va_arg(ap, long) : va_arg(ap, int); neg = s < 0; v = neg ? 0 - (uint64_t)s : (uint64_t)s; } else if (*f == 'u' || *f == 'x' || *f == 'X') v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); else { SX_ASSERT(0, "model: conversion not supported"); return 0; }
    v = sx_concrete(v); do { unsigned g = v % base; t[k++] = g < 10 ? '0' + g : (*f == 'X' ? 'A' : 'a') + g - 10; v /= base; } while (v);
    int w = k + neg; if (!zero) for (; w < width; w++) PUT(' '); if (neg) PUT('-'); if (zero) for (; w < width; w++) PUT('0'); while (k) PUT(t[--k]); }
  if (n) d[o < n ? o : n - 1] = 0; return (int)o; }
extern "C" int sx_snprintf(char* d, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = sx_vsnprintf(d, n, f, ap); va_end(ap); return r; }
