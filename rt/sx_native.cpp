// Native runtime: replays one recorded assignment of the symbolic inputs against the really compiled code.
#include "sx.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <pthread.h>
#include <vector>
#include <string>
#include <fstream>
#include <iostream>
#include <new>
static std::vector<std::pair<std::string, std::vector<unsigned char>>> g_in; static size_t g_pos = 0; static uint64_t g_live = 0; static bool g_count = false;
static FILE* g_out;
static void die(int code, const char* what, const char* msg) { fprintf(g_out ? g_out : stderr, "%s %s\n", what, msg); if (g_out) fflush(g_out); _exit(code); }
static std::vector<unsigned char>& next(const char* name) { static std::vector<unsigned char> z; if (g_pos >= g_in.size()) { if (getenv("SX_LIVELOCK")) { static uint64_t k; k++; z.assign(8, 0); if (!strcmp(name, "schedule")) z[0] = k % 3; return z; } die(45, "SX-DIVERGED", "more inputs requested than recorded"); } auto& p = g_in[g_pos++]; if (p.first.compare(0, strlen(name), name) != 0) die(45, "SX-DIVERGED", name); return p.second; }
static uint64_t le(std::vector<unsigned char>& v) { uint64_t r = 0; for (size_t i = v.size(); i-- > 0;) r = r << 8 | v[i]; return r; }
extern "C" {
uint64_t sx_sym(const char* n, unsigned bits) { uint64_t v = le(next(n)); return bits >= 64 ? v : v & ((1ull << bits) - 1); }
uint64_t sx_range(const char* n, uint64_t lo, uint64_t hi) { if (lo > hi) die(43, "SX-ASSUME", n); bool over = g_pos >= g_in.size(); uint64_t v = le(next(n)); if (over) v = lo; if (v < lo || v > hi) die(43, "SX-ASSUME", n); return v; }
uint64_t sx_pick(const char* n, uint64_t lo, uint64_t hi) { return sx_range(n, lo, hi); }
void sx_bytes(void* p, size_t n, const char* name) { auto& v = next(name); if (v.size() != n && !getenv("SX_LIVELOCK")) die(45, "SX-DIVERGED", name); if (n && v.size() == n) memcpy(p, v.data(), n); }
void sx_assume(uint64_t c) { if (!c) die(43, "SX-ASSUME", ""); }
void sx_assert_(uint64_t c, const char* m) { if (!c) die(42, "SX-VIOLATION", m); }
void sx_fail(const char* m) { die(42, "SX-VIOLATION", m); }
void sx_stop(void) { die(43, "SX-STOP", ""); }
void sx_reach(const char*) {}
void sx_note(const char* s) { fprintf(g_out, "NOTE %s\n", s); }
void sx_notev(const char* s, uint64_t v) { fprintf(g_out, "NOTE %s=%llu\n", s, (unsigned long long)v); }
uint64_t sx_concrete(uint64_t v) { return v; }
void sx_observe(uint64_t v) { fprintf(g_out, "OBS %llu\n", (unsigned long long)v); }
uint64_t sx_ite(uint64_t c, uint64_t a, uint64_t b) { return c ? a : b; }
int sx_native(void) { return 1; }
uint64_t sx_heap_live(void) { return g_live; }
void sx_step_limit(uint64_t) {}
void sx_readable(const void* p, size_t n) { volatile const char* q = (const char*)p; for (size_t i = 0; i < n; i++) (void)q[i]; }
void sx_shared(void*) {}
void sx_run_threads(void) {}
}
// --- cooperative threads: real threads, one runs at a time ---
// memory the symbolic engine treats as shared: not a thread's stack, not read-only data
static std::vector<std::pair<uintptr_t, uintptr_t>> g_skip;
static void skip_stack() { pthread_attr_t a; void* b; size_t n; if (pthread_getattr_np(pthread_self(), &a)) return; pthread_attr_getstack(&a, &b, &n); g_skip.push_back({(uintptr_t)b, (uintptr_t)b + n}); }
static void skip_ro() { std::ifstream m("/proc/self/maps"); std::string l; while (std::getline(m, l)) { unsigned long long a, b; char perm[8]; if (sscanf(l.c_str(), "%llx-%llx %7s", &a, &b, perm) == 3 && perm[1] != 'w' && perm[0] == 'r') g_skip.push_back({a, b}); } }
static bool shared_mem(void* p) { for (auto& r : g_skip) if ((uintptr_t)p >= r.first && (uintptr_t)p < r.second) return false; return true; }
struct NT { pthread_t t; bool done = false, idle = false; uint64_t blockedAt = ~0ull; void (*fn)(void*); void* arg; };
static std::vector<NT*> g_th; static int g_cur = 0; static uint64_t g_progress = 0; static int g_budget = 0, g_free = 0; static pthread_mutex_t g_m = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t g_c = PTHREAD_COND_INITIALIZER; static __thread int t_self = 0;
static void switchTo(int i) { pthread_mutex_lock(&g_m); g_cur = i; pthread_cond_broadcast(&g_c); while (g_cur != t_self) pthread_cond_wait(&g_c, &g_m); pthread_mutex_unlock(&g_m); }
static int pick() { int n = g_th.size(); std::vector<int> c; for (int k = 1; k <= n; k++) { int i = (g_cur + k) % n; NT* t = g_th[i]; if (t->done || t->idle) continue; if (t->blockedAt != g_progress) c.push_back(i); } if (!c.empty()) { uint64_t k = g_free && c.size() > 1 ? le(next("schedule")) : 0; return c[k < c.size() ? k : 0]; } for (int i = 0; i < n; i++) if (!g_th[i]->done && g_th[i]->idle) { g_th[i]->idle = false; g_th[i]->blockedAt = ~0ull; return i; } return -1; }
static void* tmain(void* p) { long id = (long)p; t_self = id; NT* t = g_th[id]; pthread_mutex_lock(&g_m); while (g_cur != t_self) pthread_cond_wait(&g_c, &g_m); skip_stack(); while (g_cur != t_self) pthread_cond_wait(&g_c, &g_m); pthread_mutex_unlock(&g_m); t->fn(t->arg); t->done = true; g_progress++; int i = pick(); if (i < 0) die(44, "SX-VIOLATION", "all threads are blocked"); pthread_mutex_lock(&g_m); g_cur = i; pthread_cond_broadcast(&g_c); pthread_mutex_unlock(&g_m); return 0; }
extern "C" {
int sx_thread_create(void (*fn)(void*), void* arg) { NT* t = new NT; t->fn = fn; t->arg = arg; g_th.push_back(t); long id = g_th.size() - 1; pthread_create(&t->t, 0, tmain, (void*)id); g_progress++; return id; }
int sx_self(void) { return t_self; }
int sx_thread_done(int t) { return t < (int)g_th.size() && g_th[t]->done; }
void sx_progress(void) { g_progress++; }
void sx_block(void) { g_th[t_self]->blockedAt = g_progress; int i = pick(); if (i < 0) die(44, "SX-VIOLATION", "all threads are blocked"); if (i != t_self) switchTo(i); }
void sx_idle(void) { g_th[t_self]->idle = true; int i = pick(); if (i != t_self) switchTo(i); }
static void maybe_switch() { if (g_budget <= 0) return; std::vector<int> c; for (size_t i = 0; i < g_th.size(); i++) if ((int)i != g_cur && !g_th[i]->done && !g_th[i]->idle && g_th[i]->blockedAt != g_progress) c.push_back(i); if (c.empty()) return; uint64_t k = le(next("schedule")); if (k && k <= c.size()) { if (g_budget < 1000) g_budget--; switchTo(c[k - 1]); } }
static __thread bool t_armed = false;
void sx_preempt(void) { maybe_switch(); t_armed = true; }
void sx_preempt_plain(void* p) { if (!t_armed || g_budget <= 0 || g_th.size() < 2 || !shared_mem(p)) return; maybe_switch(); t_armed = false; }
void sx_preempt_budget(int n) { g_budget = n; }
void sx_free_sched(int n) { g_free = n; }
void sx_yield(void) { int n = g_th.size(); for (int k = 1; k < n; k++) { int i = (g_cur + k) % n; NT* t = g_th[i]; if (t->done || t->idle || t->blockedAt == g_progress) continue; switchTo(i); return; } }
void* sx_malloc(size_t n) { if (n > (256u << 20)) return 0; g_live++; return malloc(n); }
void* sx_calloc(size_t a, size_t n) { g_live++; return calloc(a, n); }
void sx_free(void* p) { if (p) g_live--; free(p); }
void* sx_realloc(void* p, size_t n) { if (!p) g_live++; return realloc(p, n); }
void* sx_Znwm(size_t n) { g_live++; return ::operator new(n); }
void* sx_Znam(size_t n) { g_live++; return ::operator new[](n); }
void sx_ZdlPv(void* p) { if (p) g_live--; ::operator delete(p); }
void sx_ZdlPvm(void* p, size_t) { if (p) g_live--; ::operator delete(p); }
void sx_ZdaPv(void* p) { if (p) g_live--; ::operator delete[](p); }
void sx_ZdaPvm(void* p, size_t) { if (p) g_live--; ::operator delete[](p); }
void SX_ENTRY(void);
}
int main(int argc, char** argv) {
  g_out = fdopen(dup(1), "w"); std::ifstream f(argv[1]); std::string line; while (std::getline(f, line)) { size_t sp = line.rfind(' '); std::string n = line.substr(0, sp), h = line.substr(sp + 1); if (h == "-") h = ""; std::vector<unsigned char> v; for (size_t i = 0; i + 1 < h.size(); i += 2) v.push_back(strtol(h.substr(i, 2).c_str(), 0, 16)); g_in.push_back({n, v}); }
  NT* t = new NT; g_th.push_back(t); g_live = 0; skip_stack(); skip_ro(); alarm(20); SX_ENTRY(); fprintf(g_out, "DONE\n"); fflush(g_out); _exit(0); }
