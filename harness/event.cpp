// C22 registration and dispatch, C23 timers, C24 callbacks that change registrations, C25 stop request
#include "hutil.h"
#include <cy_core.h>
#include <cy_event.h>
#include "rt_kernel.h"
#include <unistd.h>
#include <fcntl.h>
using namespace cyclone;
typedef Looper::event_id_t eid;
enum { NREG = 24 };
struct Reg { bool live; int fd; eid id; unsigned watch; int calls[2]; int bad; };
static Reg R[NREG]; static int nreg; static Looper* L; static int g_total;
struct CB { int r; int mark; void (*then)(int, unsigned);   // what one registration's callback does; small enough to live inside std::function
  void operator()(eid id, socket_t fd, Looper::event_t ev, void* param) const { int dir = ev == Looper::kRead ? 0 : 1; Reg& g = R[r]; g_total++; if (!g.live) { g.bad |= 1; } if (id != g.id) g.bad |= 2; if (fd != g.fd) g.bad |= 4; if (param != &R[r]) g.bad |= 8; if (ev != Looper::kRead && ev != Looper::kWrite) g.bad |= 16; if (!(g.watch & ev)) g.bad |= 32; g.calls[dir]++; if (then) then(r, ev); SX_ASSERT(mark == 77, "a running callback is not destroyed under its own feet"); } };
struct WCB { CB* c; void operator()(eid id, socket_t fd, Looper::event_t ev, void* p) const { (*c)(id, fd, ev, p); } };
static void (*g_then)(int, unsigned) = 0;
struct SmallCB { int r; int mark; void operator()(eid id, socket_t fd, Looper::event_t ev, void* p) const { CB c = {r, 77, g_then}; c(id, fd, ev, p); SX_ASSERT(r >= 0 && mark == 77, "a running callback is not destroyed under its own feet"); } };
static int reg(int fd, unsigned w) { int r = nreg++; R[r].live = true; R[r].fd = fd; R[r].watch = w; R[r].id = Looper::INVALID_EVENT_ID; R[r].calls[0] = R[r].calls[1] = R[r].bad = 0; SmallCB c = {r, 77}; R[r].id = L->register_event(fd, w, &R[r], c, c); for (int i = 0; i < r; i++) SX_ASSERT(!R[i].live || R[i].id != R[r].id, "live registrations have distinct ids"); SX_ASSERT(R[r].id != Looper::INVALID_EVENT_ID, "registration yields a valid id"); return r; }
static void flags() { for (int i = 0; i < nreg; i++) if (R[i].live) { SX_ASSERT(L->is_read(R[i].id) == ((R[i].watch & 1) != 0), "read interest is what was last asked for"); SX_ASSERT(L->is_write(R[i].id) == ((R[i].watch & 2) != 0), "write interest is what was last asked for"); } }
static void apply(int r, unsigned op) { Reg& g = R[r]; switch (op) { case 0: L->enable_read(g.id); g.watch |= 1; break; case 1: L->disable_read(g.id); g.watch &= ~1u; break; case 2: L->enable_write(g.id); g.watch |= 2; break; case 3: L->disable_write(g.id); g.watch &= ~2u; break; case 4: L->disable_all(g.id); g.watch = 0; break; case 5: L->delete_event(g.id); g.live = false; g.watch = 0; break; } }
// readiness classes of a connected socket
static void ready(int fd, unsigned k) { uint8_t b = 1; if (k == 1 || k == 3) k_peer_send(fd, &b, 1); if (k < 2) k_peer_space(fd, 0); if (k == 4) { k_peer_space(fd, 0); k_peer_fin(fd); } if (k == 5) k_peer_rst(fd); }
static bool want(const Reg& g, int dir) { if (!g.live || !(g.watch & (1u << dir))) return false; uint32_t k = k_ready(g.fd); return dir == 0 ? (k & 1) != 0 : (k & 4) != 0; }
static bool rw[NREG][2]; static bool round_pre() { bool any = false; for (int i = 0; i < nreg; i++) for (int d = 0; d < 2; d++) { rw[i][d] = want(R[i], d); any |= rw[i][d]; R[i].calls[d] = 0; } return any; }
static void round_post() { for (int i = 0; i < nreg; i++) { SX_ASSERT(!R[i].bad, "a callback gets its own id, descriptor, direction and parameter, and only while registered for it"); for (int d = 0; d < 2; d++) { SX_ASSERT(R[i].calls[d] == (rw[i][d] ? 1 : 0), "exactly the ready watched directions are called, once each"); sx_observe(R[i].calls[d]); } } }
static void round() { round_pre(); L->step(); round_post(); }
// passes of the loop, by step() or by one loop(): f(k) runs before the k-th one and says whether there is to be one; loop() ends by a stop request made while it polls
static bool g_loop, g_end; static int g_pass; static void* g_f; static bool (*g_call)(void*, int);
static void at_poll(int, int blocking) { if (!blocking) return; SX_ASSERT(!g_end, "a stopped loop does not wait again"); if (!g_call(g_f, g_pass++)) { g_end = true; L->push_stop_request(); } }
template <class F> static void passes(F& f) { if (!g_loop) { for (int k = 0; f(k); k++) L->step(); return; } g_pass = 0; g_end = false; g_f = &f; g_call = [](void* x, int k) { return (*(F*)x)(k); }; k_on_poll = at_poll; L->loop(); k_on_poll = 0; SX_ASSERT(g_end, "the loop ends only after a stop request"); }
static void last_round() { auto f = [](int k) { if (k == 0) return round_pre() || !g_loop; round_post(); return false; }; passes(f); }
static void open_looper() { sx_step_limit(2000000); L = Looper::create_looper(); }
static void close_looper(int fds) { for (int i = 0; i < nreg; i++) if (R[i].live) { L->delete_event(R[i].id); R[i].live = false; } int n = k_open_count(); Looper::destroy_looper(L); SX_ASSERT(k_open_count() == fds && n == fds + 1, "the looper closes its own descriptor and no other"); }
#ifndef NOPS
#define NOPS 2
#endif
static void any_op(int* s, int* reg_of) { unsigned k = SX_PICK("socket", 0, 1); if (reg_of[k] < 0) reg_of[k] = reg(s[k], SX_PICK("watch", 0, 3)); else { unsigned op = SX_PICK("op", 0, 5); apply(reg_of[k], op); if (op == 5) reg_of[k] = -1; } flags(); }
HARNESS h_ops() { open_looper(); int s[2], g[2] = {-1, -1}; for (int i = 0; i < 2; i++) { s[i] = k_connected(0x0a000001 + i, 1000); } k_order = SX_PICK("order", 0, 1); g[0] = reg(s[0], SX_PICK("watch", 0, 3)); if (SX_PICK("both", 0, 1)) g[1] = reg(s[1], SX_PICK("watch", 0, 3)); flags();
  for (int i = 0; i < NOPS; i++) any_op(s, g); ready(s[0], SX_PICK("ready", 0, 5)); ready(s[1], SX_PICK("ready", 2, 3)); g_loop = SX_PICK("loop", 0, 1); last_round(); sx_reach("end"); close_looper(2); }
HARNESS h_between() { open_looper(); int s[2], g[2] = {-1, -1}; for (int i = 0; i < 2; i++) s[i] = k_connected(0x0a000001 + i, 1000); g[0] = reg(s[0], SX_PICK("watch", 0, 3)); g[1] = reg(s[1], SX_PICK("watch", 0, 3)); ready(s[0], SX_PICK("ready", 0, 5)); ready(s[1], SX_PICK("ready", 0, 5)); round(); for (int i = 0; i < NOPS - 1; i++) any_op(s, g); g_loop = SX_PICK("loop", 0, 1); last_round(); sx_reach("end"); close_looper(2); }
// more registrations than the initial tables hold
HARNESS h_many() { open_looper(); enum { N = 18 }; int first = 0; k_order = SX_PICK("order", 0, 1); for (int i = 0; i < N; i++) { int f = k_connected(0x0a000001, 1000 + i); uint8_t b = 1; k_peer_send(f, &b, 1); k_peer_space(f, 0); reg(f, 1); } flags(); size_t drop = SX_PICK("drop", 0, N); if (drop < N) apply(drop, 5); first = g_total; L->step(); int n = g_total - first; SX_ASSERT(n >= 16, "a poll serves a full batch"); L->step(); for (int i = 0; i < N; i++) { SX_ASSERT(!R[i].bad, "a callback gets its own id, descriptor, direction and parameter, and only while registered for it"); if (i == (int)drop) SX_ASSERT(R[i].calls[0] == 0, "a deleted registration is not called"); else SX_ASSERT(R[i].calls[0] >= 1 && R[i].calls[0] <= 2, "no ready registration is starved by a full batch"); } if (drop < N) { int r = reg(R[drop].fd, 1); L->step(); SX_ASSERT(R[r].calls[0] == 1, "a new registration works"); } sx_reach("end"); close_looper(N); }
// pipe ends whose other end is gone: nothing but a hang-up or an error may be reported
HARNESS h_hangup() { open_looper(); k_order = SX_PICK("order", 0, 1); int s = k_connected(0x0a000001, 1000); uint8_t b = 1; if (SX_PICK("data", 0, 1)) k_peer_send(s, &b, 1); reg(s, 1); int keep = 1; bool expect[2];
  for (int i = 0; i < 2; i++) { int p[2]; pipe2(p, O_NONBLOCK); bool writer = SX_PICK("end", 0, 1), gone = SX_PICK("gone", 0, 1), filled = SX_PICK("filled", 0, 1); if (filled) { uint8_t x[16] = {0}; for (int j = 0; j < k_pipe_cap; j += 16) write(p[1], x, k_pipe_cap - j < 16 ? k_pipe_cap - j : 16); } if (gone) close(p[!writer]); keep += 2 - gone; reg(p[writer], writer ? 2 : 1); expect[i] = gone || (writer ? !filled : filled); }
  flags(); bool w0 = want(R[0], 0); for (int k = 0; k < 2; k++) { for (int i = 0; i < 3; i++) R[i].calls[0] = R[i].calls[1] = 0; L->step(); SX_ASSERT(R[0].calls[0] == w0, "exactly the ready watched directions are called, once each"); for (int i = 0; i < 2; i++) { Reg& g = R[1 + i]; int d = g.watch == 2; SX_ASSERT(!g.bad, "a callback gets its own id, descriptor, direction and parameter, and only while registered for it"); SX_ASSERT(g.calls[d] == expect[i] && g.calls[!d] == 0, "a descriptor whose other end is gone is ready"); } } sx_reach("end"); close_looper(keep); }
// interrupted polls
HARNESS h_eintr() { open_looper(); k_eintr = 2; int s = k_connected(0x0a000001, 1000); reg(s, SX_PICK("watch", 1, 3)); ready(s, SX_PICK("ready", 0, 5)); round(); sx_reach("end"); close_looper(1); }
// ---- C23 ----
struct Tm { eid id; int calls; int bad; bool live; uint64_t ms; uint64_t at, next; }; static Tm T[4];
struct TCB { int t; int mark; void operator()(eid id, void* p) const { if (id != T[t].id || p != &T[t] || !T[t].live) T[t].bad = 1; T[t].calls++; SX_ASSERT(mark == 78, "a running callback is not destroyed under its own feet"); } };
static void timer(int t, uint64_t ms) { TCB c = {t, 78}; T[t].ms = ms; T[t].live = true; T[t].id = L->register_timer_event((uint32_t)ms, &T[t], c); SX_ASSERT(T[t].id != Looper::INVALID_EVENT_ID, "registration yields a valid id"); }
enum { NS = 1000000 };
static void timer_run(uint64_t ms, uint64_t amax, int rounds) { timer(0, ms); amax *= NS; ms *= NS; int due = 0; int64_t next = m_mono_ns + (int64_t)ms, per = (int64_t)ms;
  for (int i = 0; i < rounds; i++) { uint64_t a = sx_range("advance", 0, amax); k_advance_ns(a); sx_assume(m_mono_ns < next + 2 * per); bool dd = sx_concrete(m_mono_ns >= next); due += dd; L->step(); SX_ASSERT(!T[0].bad, "a timer callback gets its id and parameter"); SX_ASSERT(T[0].calls == due, "a timer fires exactly once at a poll at or after a due time and never before it"); if (dd) { next += per; if (sx_concrete(m_mono_ns >= next)) next += per; } L->step(); SX_ASSERT(T[0].calls == due, "a timer that is not due does not fire"); sx_observe(T[0].calls); }
  L->delete_event(T[0].id); T[0].live = false; k_advance_ns(ms * 3); L->step(); SX_ASSERT(T[0].calls == due && !T[0].bad, "a deleted timer never fires"); SX_ASSERT(k_open_count() == 1, "deleting a timer releases its descriptor"); sx_reach("end"); if (due == rounds) sx_reach("all"); Looper::destroy_looper(L); }
HARNESS h_timer() { open_looper(); timer_run(SX_PICK("ms", 1, 64), 200, 2); }
HARNESS h_timer_big() { open_looper(); static const uint32_t M[] = {999, 1000, 1001, 1999, 60000, 86400001, 2147483647u, 2147483648u, 4294967000u, 4294967295u}; timer_run(M[SX_PICK("ms", 0, 9)], 0x2ffffffffull, 3); }
HARNESS h_timer_any() { open_looper(); timer_run((uint32_t)sx_range("ms", 1, 0xffffffffull), 0x2ffffffffull, 3); }
HARNESS h_timer_loop() { open_looper(); g_loop = true; static const uint32_t M[] = {1, 7, 1000, 4294967295u}; uint64_t ms = M[SX_PICK("ms", 0, 3)]; timer(0, ms); int s = k_connected(1, 1); ready(s, 3); reg(s, 1); int64_t per = (int64_t)ms * NS, next = m_mono_ns + per; int due = 0, seen = 0; k_order = SX_PICK("order", 0, 1);
  auto f = [&](int k) { if (k) { SX_ASSERT(!T[0].bad && !R[0].bad, "a timer callback gets its id and parameter"); SX_ASSERT(T[0].calls == due, "a timer fires exactly once at a poll at or after a due time and never before it"); SX_ASSERT(R[0].calls[0] == seen + 1, "a timer does not keep others from being served"); seen++; } if (k == 3) return false; uint64_t a = sx_range("advance", 0, (uint64_t)per * 2); k_advance_ns(a); sx_assume(m_mono_ns < next + 2 * per); if (sx_concrete(m_mono_ns >= next)) { due++; next += per; if (sx_concrete(m_mono_ns >= next)) next += per; } return true; };
  passes(f); L->delete_event(T[0].id); T[0].live = false; close_looper(1); sx_reach("end"); if (due == 3) sx_reach("all"); }
HARNESS h_two_timers() { open_looper(); static const int M[] = {300, 777, 1000, 1300}; uint64_t m0 = M[SX_PICK("ms0", 0, 3)], m1 = M[SX_PICK("ms1", 0, 3)]; timer(0, m0); m0 *= NS; m1 *= NS; int64_t e0 = m_mono_ns + (int64_t)m0; static const int G[] = {0, 1, 299, 477, 1000}; uint64_t gap = (uint64_t)G[SX_PICK("gap", 0, 4)] * NS; k_advance_ns(gap); timer(1, m1 / NS); int64_t e1 = m_mono_ns + (int64_t)m1; int s = k_connected(1, 1); reg(s, 1); uint64_t a = sx_range("advance", 0, 2000000000); k_advance_ns(a); bool d0 = sx_concrete(m_mono_ns >= e0), d1 = sx_concrete(m_mono_ns >= e1); L->step(); SX_ASSERT(!T[0].bad && !T[1].bad, "a timer callback gets its id and parameter"); SX_ASSERT(T[0].calls == d0 && T[1].calls == d1, "each timer keeps its own time"); SX_ASSERT(R[0].calls[0] == 0, "a timer does not trigger other registrations"); unsigned del = SX_PICK("delete", 0, 1); L->delete_event(T[del].id); T[del].live = false; timer(2, 500); k_advance_ms(1500); L->step(); SX_ASSERT(!T[0].bad && !T[1].bad && !T[2].bad, "a timer callback gets its id and parameter"); SX_ASSERT(T[del].calls == (del ? d1 : d0), "a deleted timer never fires"); SX_ASSERT(T[!del].calls == 1 + (del ? d0 : d1) && T[2].calls == 1, "the others keep firing"); L->delete_event(T[!del].id); L->delete_event(T[2].id); close_looper(1); sx_reach("end"); }
// ---- C24 ----
static int gs[3], gr[3], g_new = -1; static unsigned g_act, g_tgt, g_when;
static int g_acted = 0;
static bool g_flag[NREG]; // may legitimately have been called or not (changed during the dispatch)
static void act(int r, unsigned ev) { if (g_acted || r != gr[0] || ev != g_when) return; g_acted = 1; int t = gr[g_tgt];
  switch (g_act) { case 0: case 1: case 2: case 3: case 4: apply(t, g_act); break; case 5: apply(t, 5); break;
  case 6: apply(t, 5); g_new = reg(gs[2], 3); break;              // delete one, register another: the slot is reused
  case 7: g_new = reg(gs[2], 3); break;
  case 8: apply(t, 5); apply(gr[g_tgt ? 0 : 1], 5); g_new = reg(gs[2], 3); break;
  case 9: { apply(t, 5); g_new = reg(R[t].fd, 3); break; }        // delete and register the same descriptor again
  case 10: for (int i = 0; i < 17; i++) { int n = reg(gs[2], 0); (void)n; } g_new = reg(gs[2], 3); break; } }   // the slot table grows
HARNESS h_mutate() { open_looper(); g_then = act; k_order = SX_PICK("order", 0, 1); for (int i = 0; i < 3; i++) gs[i] = k_connected(0x0a000001 + i, 1000); ready(gs[0], 3); ready(gs[1], SX_PICK("ready", 0, 5)); unsigned k2 = SX_PICK("ready", 0, 3); ready(gs[2], k2);
  gr[0] = reg(gs[0], 3); gr[1] = reg(gs[1], SX_PICK("watch", 1, 3)); g_act = SX_PICK("act", 0, 10); g_tgt = SX_PICK("target", 0, 1); g_when = SX_PICK("when", 1, 2); g_loop = SX_PICK("loop", 0, 1);
  bool w[2][2]; for (int i = 0; i < 2; i++) for (int d = 0; d < 2; d++) w[i][d] = want(R[gr[i]], d); auto f = [&](int k) { if (k == 0) return true; if (k == 2) { round_post(); return false; } SX_ASSERT(g_acted, "the acting callback runs");
  for (int i = 0; i < nreg; i++) SX_ASSERT(!R[i].bad, "a callback gets its own id, descriptor, direction and parameter, and only while registered for it");
  // untouched registrations get exactly what was ready; changed ones at most that
  for (int i = 0; i < 2; i++) for (int d = 0; d < 2; d++) { int c = R[gr[i]].calls[d]; SX_ASSERT(c <= (w[i][d] ? 1 : 0), "no direction is called twice or without being ready"); bool touched = (g_act < 7 || g_act == 9) && (int)g_tgt == i || g_act == 8; if (!touched || !(g_act >= 5 || (g_act == 1 && d == 0) || (g_act == 3 && d == 1) || g_act == 4)) SX_ASSERT(c == (w[i][d] ? 1 : 0), "a registration that was not changed is still served in this poll"); }
  if (g_new >= 0) { if (!(k_ready(R[g_new].fd) & 1)) SX_ASSERT(!R[g_new].calls[0], "a registration made by a callback is not called for another's readiness"); if (!(k_ready(R[g_new].fd) & 4)) SX_ASSERT(!R[g_new].calls[1], "a registration made by a callback is not called for another's readiness"); }
  flags(); g_then = 0; return round_pre() || !g_loop; }; passes(f); sx_reach("end"); close_looper(3); }
struct TMut { int t; int mark; void operator()(eid id, void* p) const { T[t].calls++; if (id != T[t].id || p != &T[t] || !T[t].live) T[t].bad = 1; if (t == 0 && !g_acted) { g_acted = 1; int v = g_tgt; switch (g_act) { case 0: L->delete_event(T[v].id); T[v].live = false; break; case 1: L->delete_event(T[v].id); T[v].live = false; timer(2, 1000); break; case 2: L->delete_event(T[v].id); T[v].live = false; g_new = reg(gs[0], 1); break; case 3: timer(2, 1000); break; } } SX_ASSERT(mark == 79, "a running callback is not destroyed under its own feet"); } };
HARNESS h_mutate_timer() { open_looper(); k_order = SX_PICK("order", 0, 1); gs[0] = k_connected(1, 1); g_act = SX_PICK("act", 0, 3); g_tgt = SX_PICK("target", 0, 1); for (int t = 0; t < 2; t++) { TMut c = {t, 79}; T[t].live = true; T[t].id = L->register_timer_event(10 + t, &T[t], c); } uint64_t a = sx_range("advance", 10 * NS, 30 * NS); k_advance_ns(a); bool d1 = sx_concrete(a >= 11 * NS); L->step(); SX_ASSERT(T[0].calls == 1 && T[1].calls <= d1 && T[2].calls == 0, "timers fire once when due"); if (g_act == 3 || g_tgt == 0) SX_ASSERT(T[1].calls == d1, "an untouched timer fires when due"); if (g_new >= 0) SX_ASSERT(!R[g_new].calls[0] && !R[g_new].bad, "a registration made by a callback is not called for another's readiness"); k_advance_ms(1000); int c0 = T[0].calls, c1 = T[1].calls; L->step(); for (int t = 0; t < 3; t++) SX_ASSERT(!T[t].bad, "a timer callback gets its id and parameter"); SX_ASSERT(T[0].calls == c0 + T[0].live && T[1].calls == c1 + T[1].live && T[2].calls == T[2].live, "live timers keep firing, deleted ones never do"); for (int t = 0; t < 3; t++) if (T[t].live) L->delete_event(T[t].id); close_looper(1); sx_reach("end"); }
// ---- C25: a stop request from another thread, at any point of the loop ----
static int g_stops;
static void stopper(void*) { L->push_stop_request(); g_stops++; }
static unsigned g_stop_in, g_after, g_drain;   // g_drain: the n-th callback consumes the input
static void stop_act(int r, unsigned) { (void)r; if (L->is_quit_pending() && g_stop_in) g_after++; if (g_drain && --g_drain == 0) { uint8_t b; socket_api::read(R[r].fd, &b, 1); } if (g_stop_in && --g_stop_in == 0) { L->push_stop_request(); } }
#ifndef BUDGET
#define BUDGET 3
#endif
static void stop_run(int stoppers, int socks) { open_looper(); g_then = stop_act; for (int i = 0; i < socks; i++) { int f = k_connected(0x0a000001 + i, 1000); k_peer_space(f, 0); uint8_t b = 1; if (i == 0) k_peer_send(f, &b, 1); reg(f, 1); if (i == 0) R[i].watch = 1; }
  sx_preempt_budget(BUDGET); sx_free_sched(1); int t[3]; for (int i = 0; i < stoppers; i++) t[i] = sx_thread_create(stopper, nullptr); int fds = k_open_count(); L->loop(); SX_ASSERT(L->is_quit_pending(), "the loop ends only after a stop request"); for (int i = 0; i < stoppers; i++) while (!sx_thread_done(t[i])) sx_block(); SX_ASSERT(g_stops == stoppers, "every stop request returns"); SX_ASSERT(k_open_count() == fds, "a finished loop has released its own pipe"); int n = g_total; L->loop(); L->step(); SX_ASSERT(g_total == n, "a stopped loop does nothing more"); close_looper(socks); sx_reach("end"); }
HARNESS h_stop() { stop_run(1, 0); }
HARNESS h_stop2() { sx_preempt_budget(0); stop_run(2, 0); }
HARNESS h_stop_busy() { g_drain = 2; stop_run(1, 1); }
HARNESS h_stop_inside() { open_looper(); g_then = stop_act; int n = SX_PICK("socks", 1, 3); k_order = SX_PICK("order", 0, 1); unsigned dirs = 0; for (int i = 0; i < n; i++) { int f = k_connected(0x0a000001 + i, 1000); unsigned w = SX_PICK("watch", 1, 3); ready(f, 3); reg(f, w); dirs += (w & 1) + (w >> 1); } unsigned k = SX_PICK("stop in", 1, dirs + 2); g_stop_in = k; int st = SX_PICK("step", 0, 1); if (st) { for (int i = 0; i < 4 && !L->is_quit_pending(); i++) L->step(); } else L->loop(); SX_ASSERT(L->is_quit_pending() && g_total == (int)k, "after a stop request no further callback runs"); SX_ASSERT(g_after == 0, "after a stop request no further callback runs"); close_looper(n); sx_reach("end"); }
HARNESS h_stop_before() { open_looper(); int f = k_connected(1, 1); reg(f, 2); L->push_stop_request(); L->loop(); L->step(); SX_ASSERT(g_total == 0 && L->is_quit_pending(), "a stop request before the loop starts is honoured"); close_looper(1); sx_reach("end"); }
// another thread changes a registration, then requests the stop
static void changer(void*) { L->enable_write(R[0].id); L->disable_write(R[0].id); L->push_stop_request(); g_stops++; }
HARNESS h_stop_change() { open_looper(); int f = k_connected(0x0a000001, 1000); k_peer_space(f, 0); reg(f, 1); sx_preempt_budget(BUDGET); sx_free_sched(1); int t = sx_thread_create(changer, nullptr); int fds = k_open_count(); L->loop(); while (!sx_thread_done(t)) sx_block(); SX_ASSERT(g_stops == 1 && L->is_quit_pending(), "every stop request returns"); SX_ASSERT(k_open_count() == fds, "a finished loop has released its own pipe"); SX_ASSERT(g_total == 0 && !R[0].bad, "nothing that is not ready is called"); close_looper(1); sx_reach("end"); }
static void changer1(void*) { L->enable_write(R[0].id); g_stops++; }
HARNESS h_stop_change2() { open_looper(); int f = k_connected(0x0a000001, 1000); k_peer_space(f, 0); reg(f, 1); sx_preempt_budget(BUDGET); sx_free_sched(1); int t = sx_thread_create(changer1, nullptr), u = sx_thread_create(stopper, nullptr); L->loop(); while (!sx_thread_done(t) || !sx_thread_done(u)) sx_block(); SX_ASSERT(g_stops == 2 && L->is_quit_pending(), "every stop request returns"); SX_ASSERT(g_total == 0 && !R[0].bad, "nothing that is not ready is called"); close_looper(1); sx_reach("end"); }
HARNESS h_stop3() { sx_preempt_budget(0); stop_run(3, 0); }
// what another thread asks for while the loop waits takes effect
static void fair(int, int) { if (k_idle_poll) sx_yield(); }
static void wact(int r, unsigned ev) { if (ev == Looper::kWrite) { apply(r, 3); L->push_stop_request(); } }
static void asker(void*) { R[0].watch |= 2; L->enable_write(R[0].id); g_stops++; }
HARNESS h_ask() { open_looper(); k_on_poll = fair; g_then = wact; int f = k_connected(0x0a000001, 1000); bool has = SX_PICK("input", 0, 1); if (has) ready(f, 3); reg(f, has ? 0 : SX_PICK("watch", 0, 1)); sx_preempt_budget(BUDGET); sx_free_sched(1); int t = sx_thread_create(asker, nullptr); L->loop(); while (!sx_thread_done(t)) sx_block(); SX_ASSERT(R[0].calls[1] == 1 && R[0].calls[0] == 0 && !R[0].bad, "interest asked for by another thread takes effect while the loop waits"); SX_ASSERT(!L->is_write(R[0].id), "write interest is what was last asked for"); close_looper(1); sx_reach("end"); }
