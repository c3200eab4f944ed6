// C04 lock-free queue under concurrency, C21 worker thread message delivery
#include "hutil.h"
#include <cy_core.h>
#include <cy_event.h>
#include "rt_kernel.h"
using namespace cyclone;
#ifndef BUDGET
#define BUDGET 3
#endif
// ---- C04: every operation is stamped at its start and end; failures and order are judged against the stamps ----
struct OpRec { int kind /*1 push 2 pop*/, ok, s, e; uintptr_t v; };
enum { MAXOP = 24 }; static OpRec H[MAXOP]; static int nh, stamp;
template <uint32_t N> struct LQ {
  typedef LockFreeQueue<uintptr_t, N> Q; static Q* q;
  static void push(uintptr_t v) { int k = nh++; H[k].kind = 1; H[k].v = v; H[k].e = 1000; H[k].ok = 0; H[k].s = stamp++; bool ok = q->push(v); H[k].ok = ok; H[k].e = stamp++; }
  static void pop() { int k = nh++; H[k].kind = 2; H[k].v = 0; H[k].e = 1000; H[k].ok = 0; H[k].s = stamp++; uintptr_t v = 0; bool ok = q->pop(v); H[k].ok = ok; H[k].v = v; H[k].e = stamp++; }
  static void judge() {
    for (int i = 0; i < nh; i++) { OpRec& a = H[i]; SX_ASSERT(a.e != 1000, "every operation finishes");
      if (a.kind == 2 && a.ok) { int src = 0, dup = 0; for (int j = 0; j < nh; j++) { if (H[j].kind == 1 && H[j].ok && H[j].v == a.v && H[j].s < a.e) src++; if (j != i && H[j].kind == 2 && H[j].ok && H[j].v == a.v) dup++; } SX_ASSERT(src == 1, "a popped element was pushed"); SX_ASSERT(dup == 0, "no element is popped twice"); }
      if (!a.ok) { bool excuse = false; for (int t = a.s; t <= a.e && !excuse; t++) { int in = 0; for (int j = 0; j < nh; j++) { if (j == i) continue; OpRec& o = H[j]; if (!o.ok) continue; if (a.kind == 2) { if (o.kind == 1 && o.e < t) in++; if (o.kind == 2 && o.s < t) in--; } else { if (o.kind == 1 && o.s < t) in++; if (o.kind == 2 && o.e < t) in--; } }
          if (a.kind == 2 ? in <= 0 : in >= (int)N - 1) excuse = true; }
        if (a.kind == 2) SX_ASSERT(excuse, "a pop fails only while every completely pushed element is taken"); else SX_ASSERT(excuse, "a push fails only while the queue is full"); } }
    // order: push(a) finished before push(b) started => b is not taken entirely before a
    for (int i = 0; i < nh; i++) for (int j = 0; j < nh; j++) { if (!(H[i].kind == 1 && H[j].kind == 1 && H[i].ok && H[j].ok && H[i].e < H[j].s)) continue; int pi = -1, pj = -1; for (int k = 0; k < nh; k++) if (H[k].kind == 2 && H[k].ok) { if (H[k].v == H[i].v) pi = k; if (H[k].v == H[j].v) pj = k; }
      SX_ASSERT(!(pj >= 0 && pi < 0), "no element is lost or overtaken"); if (pi >= 0 && pj >= 0) SX_ASSERT(!(H[pj].e < H[pi].s), "elements leave in the order they entered"); }
    int np = 0, nq = 0; for (int i = 0; i < nh; i++) if (H[i].ok) (H[i].kind == 1 ? np : nq)++; SX_ASSERT(np == nq, "every element pushed is popped"); for (int i = 0; i < nh; i++) { sx_observe(H[i].ok); sx_observe(H[i].v); } }
};
template <uint32_t N> typename LQ<N>::Q* LQ<N>::q = 0;
static int prog[4][4]; // per thread: 1 push, 2 pop, 0 end
template <uint32_t N> static void body(void* p) { int t = (int)(intptr_t)p; for (int i = 0; i < 4 && prog[t][i]; i++) { if (prog[t][i] == 1) LQ<N>::push(100 * t + i + 1); else LQ<N>::pop(); } }
template <uint32_t N> static void lfq(int pre, int shift, int nt) { sx_step_limit(5000000); typename LQ<N>::Q* q = new typename LQ<N>::Q; LQ<N>::q = q; for (int i = 0; i < shift; i++) { uintptr_t v; q->push(7); q->pop(v); } for (int i = 0; i < pre; i++) LQ<N>::push(1000 + i);
  sx_preempt_budget(BUDGET); sx_free_sched(1); int t[4]; for (int i = 1; i < nt; i++) t[i] = sx_thread_create(body<N>, (void*)(intptr_t)i); body<N>(nullptr); for (int i = 1; i < nt; i++) while (!sx_thread_done(t[i])) sx_block(); sx_preempt_budget(0); sx_free_sched(0);
  uint32_t left = q->size(); int h0 = nh; for (;;) { LQ<N>::pop(); if (!H[nh - 1].ok) { nh--; break; } } SX_ASSERT(left == (uint32_t)(nh - h0), "at rest the size is the number of elements"); LQ<N>::judge(); delete q; sx_reach("end"); }
#define P(t, ...) { static const int a[] = {__VA_ARGS__, 0}; for (unsigned i = 0; i < sizeof a / sizeof *a; i++) prog[t][i] = a[i]; }
HARNESS h_lfq_pp() { P(0, 2, 2); P(1, 1); P(2, 1); lfq<4>(SX_PICK("pre", 0, 3), SX_PICK("shift", 0, 1) * 3, 3); }          // 2 producers, 1 consumer
HARNESS h_lfq_pop2() { P(0, 2); P(1, 2); P(2, 1); lfq<4>(SX_PICK("pre", 0, 3), SX_PICK("shift", 0, 1) * 3, 3); }          // 2 consumers, 1 producer
HARNESS h_lfq_full() { P(0, 1, 1); P(1, 1, 1); lfq<4>(SX_PICK("pre", 0, 3), 2, 2); }
HARNESS h_lfq_spsc() { P(0, 2, 2, 2); P(1, 1, 1, 1); lfq<4>(SX_PICK("pre", 0, 3), 2, 2); }
HARNESS h_lfq_two() { P(0, 2, 2); P(1, 1, 1); lfq<2>(SX_PICK("pre", 0, 1), 1, 2); }
HARNESS h_lfq_ring() { P(0, 1, 2, 1, 2); P(1, 2, 1); lfq<4>(SX_PICK("pre", 0, 2), 1, 2); }
HARNESS h_lfq_pop() { P(0, 2); P(1, 1, 2); P(2, 1, 2); lfq<2>(SX_PICK("pre", 0, 1), 1, 3); }
HARNESS h_lfq_mpmc() { P(0, 1); P(1, 1); P(2, 2); P(3, 2); lfq<4>(SX_PICK("pre", 0, 3), 3, 4); }
HARNESS h_lfq_mpmc2() { P(0, 1, 1); P(1, 1, 1); P(2, 2, 2); lfq<4>(SX_PICK("pre", 0, 3), 3, 3); }
static void any(int nt, int n) { for (int i = 0; i < nt; i++) for (int k = 0; k < n; k++) prog[i][k] = SX_PICK("op", 1, 2); }
HARNESS h_lfq_any2() { any(2, 3); lfq<4>(SX_PICK("pre", 0, 3), SX_PICK("shift", 0, 3), 2); }
HARNESS h_lfq_any3() { any(3, 2); prog[2][1] = 0; lfq<4>(SX_PICK("pre", 0, 3), 3, 3); }
// ---- C21: messages to a worker thread ----
static int g_self, g_selfSent, g_selfStart; static void send_one(int id);
enum { NM = 8 }; struct Got { int id, size, first, last; bool onThread; }; static Got G[NM]; static int ng, g_started, g_startErr; static WorkThread* W; static int g_order; static int g_stopAfter, g_mainThread;
static bool on_start() { g_started++; if (g_selfStart) send_one(30 + g_selfSent++); if (ng) g_startErr = 1; if (sx_self() == g_mainThread) g_startErr = 2; if (sys_api::thread_get_current_id() != W->get_looper()->get_thread_id()) g_startErr = 4; return true; }
static bool on_start_false() { on_start(); return false; }
static void on_msg(Packet* p) { SX_ASSERT(ng < NM, "no message is delivered twice"); Got& g = G[ng]; g.id = p->get_packet_id(); g.size = p->get_packet_size(); g.first = g.size ? (uint8_t)p->get_packet_content()[0] : -1; g.last = g.size ? (uint8_t)p->get_packet_content()[g.size - 1] : -1; g.onThread = g_started == 1 && sys_api::thread_get_current_id() == W->get_looper()->get_thread_id() && sx_self() != g_mainThread; ng++; if (g_self > 0) { g_self--; send_one(30 + g_selfSent++); } if (g_stopAfter && ng == g_stopAfter) W->get_looper()->push_stop_request(); }
// sender t sends message ids 10*t, 10*t+1, ... ; form 0: two parts, 1: packet, 2: array of packets
static int g_form[4], g_cnt[4];
static void send_one(int id) { char a[2] = {(char)id, 9}, b[1] = {(char)(id + 1)}; W->send_message((uint16_t)id, 2, a, 1, b); }
static Packet* mk(int id) { char a[3] = {(char)id, 9, (char)(id + 1)}; Packet* p = Packet::alloc_packet(); p->build_from_memory(WorkThread::MESSAGE_HEAD_SIZE, (uint16_t)id, 3, a); return p; }
static void sender(void* q) { int t = (int)(intptr_t)q; if (g_form[t] == 2) { const Packet* v[4]; for (int i = 0; i < g_cnt[t]; i++) v[i] = mk(10 * t + i); W->send_message(v, g_cnt[t]); for (int i = 0; i < g_cnt[t]; i++) Packet::free_packet((Packet*)v[i]); }
  else for (int i = 0; i < g_cnt[t]; i++) { if (g_form[t] == 0) send_one(10 * t + i); else { Packet* p = mk(10 * t + i); W->send_message(p); Packet::free_packet(p); } } }
static void wt_begin() { sx_step_limit(20000000); g_mainThread = sx_self(); W = new WorkThread; }
static void wt_check(int senders) { int want = g_selfSent, seen[4] = {0, 0, 0, 0}; for (int t = 0; t < senders; t++) want += g_cnt[t]; SX_ASSERT(ng == want, "every message is delivered, exactly once");
  for (int i = 0; i < ng; i++) { Got& g = G[i]; int t = g.id / 10, k = g.id % 10; SX_ASSERT((t < senders || t == 3) && k == seen[t], "each sender's messages arrive in the order sent"); seen[t]++; SX_ASSERT(g.size == 3 && g.first == (g.id & 255) && g.last == ((g.id + 1) & 255), "a message arrives with its content"); SX_ASSERT(g.onThread, "messages are delivered on the worker's own thread after its start callback"); sx_observe(g.id); } }
static void wt_run(int senders, int budget, bool early) { wt_begin(); W->set_on_start(on_start); W->set_on_message(on_msg); if (early) { sx_preempt_budget(budget); sx_free_sched(1); } W->start("w"); SX_ASSERT(W->is_running(), "a started worker is running"); SX_ASSERT(W->get_looper() != nullptr, "a started worker has its loop"); if (!early) sx_idle(); sx_preempt_budget(budget); sx_free_sched(1);
  int t[4]; for (int i = 1; i < senders; i++) t[i] = sx_thread_create(sender, (void*)(intptr_t)i); sender(nullptr); for (int i = 1; i < senders; i++) while (!sx_thread_done(t[i])) sx_block();
  sx_idle(); sx_preempt_budget(0); wt_check(senders); SX_ASSERT(g_started == 1 && !g_startErr, "the start callback runs once, first, on the worker's thread"); W->get_looper()->push_stop_request(); W->join(); SX_ASSERT(!W->is_running() && W->get_looper() == nullptr, "a joined worker is gone"); delete W; SX_ASSERT(k_open_count() == 0, "a finished worker leaves no descriptor behind"); sx_reach("end"); }
#ifndef WB
#define WB 3
#define WB3 1
#endif
HARNESS h_wt_one() { g_cnt[0] = 2; g_form[0] = SX_PICK("form", 0, 2); wt_run(1, WB, false); }
HARNESS h_wt_two() { g_cnt[0] = 1; g_cnt[1] = 1; wt_run(2, WB, false); }
HARNESS h_wt_start() { g_cnt[0] = 1; wt_run(1, WB, true); }
HARNESS h_wt_start_false() { wt_begin(); W->set_on_start(on_start_false); W->set_on_message(on_msg); sx_preempt_budget(WB); sx_free_sched(1); W->start("w"); W->join(); SX_ASSERT(g_started == 1 && !g_startErr && !ng, "a worker whose start callback refuses ends without delivering"); SX_ASSERT(W->get_looper() == nullptr && !W->is_running(), "a joined worker is gone"); delete W; SX_ASSERT(k_open_count() == 0, "a finished worker leaves no descriptor behind"); sx_reach("end"); }
HARNESS h_wt_stop_inside() { wt_begin(); W->set_on_start(on_start); W->set_on_message(on_msg); g_stopAfter = SX_PICK("stop after", 1, 2); W->start("w"); g_cnt[0] = 2; sx_preempt_budget(WB); sx_free_sched(1); sender(nullptr); W->join(); SX_ASSERT(ng >= g_stopAfter && ng <= 2 && G[0].id == 0 && (ng < 2 || G[1].id == 1), "messages up to the stop are delivered in order"); delete W; SX_ASSERT(k_open_count() == 0, "a finished worker leaves no descriptor behind"); sx_reach("end"); }
HARNESS h_wt_self() { g_cnt[0] = 1; g_self = 2; g_selfStart = SX_PICK("send in start", 0, 1); wt_run(1, WB, SX_PICK("early", 0, 1)); }
HARNESS h_wt_three() { g_cnt[0] = 1; g_cnt[1] = 2; g_cnt[2] = 1; wt_run(3, WB3, false); }
