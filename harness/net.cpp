// C26 output order, C27 connection life cycle, C28 input delivery, C29 sends from other threads, C30 client
#include "hutil.h"
#include <errno.h>
#include <cy_core.h>
#include <cy_event.h>
#include <cy_network.h>
#include "rt_kernel.h"
using namespace cyclone;
struct Own : public TcpConnection::Owner { virtual OWNER_TYPE get_connection_owner_type(void) const { return kClient; } };
static Own own; static Looper* L; static TcpConnectionPtr C; static int F;
enum { NB = 40 }; static uint8_t sent[NB], got[NB]; static size_t nsent, ngot;   // the peer's side of the output
static int n_msg, n_sent, n_close, closed_bad, sent_bad; static size_t sent_at;   // callback counters
static void (*on_m)(TcpConnectionPtr) = 0; static void (*on_s)(TcpConnectionPtr) = 0; static void (*on_c)(TcpConnectionPtr) = 0;
static void collect() { ngot += k_peer_recv(F, got + ngot, NB - ngot); }
static void prefix() { collect(); SX_ASSERT(ngot <= nsent, "the peer receives nothing that was not sent"); for (size_t i = 0; i < ngot; i++) SX_ASSERT(got[i] == sent[i], "the peer receives what was sent, in order"); }
static void send(size_t k) { if (nsent + k > NB) sx_stop(); C->send((const char*)sent + nsent, k); nsent += k; }
static int gen0;
static void bind_callbacks() {
  C->set_on_message([](TcpConnectionPtr c) { if (c != C && C) closed_bad = 1; if (n_close) closed_bad = 2; n_msg++; if (on_m) on_m(c); });
  C->set_on_send_complete([](TcpConnectionPtr c) { if (c != C && C) closed_bad = 1; if (n_close) closed_bad = 2; n_sent++; collect(); sent_at = nsent; if (ngot != nsent) sent_bad = 1; if (on_s) on_s(c); });
  C->set_on_close([](TcpConnectionPtr c) { if (c != C && C) closed_bad = 1; n_close++; if (c->get_state() != TcpConnection::kDisconnected) closed_bad = 3; if (on_c) on_c(c); }); }
static void open_conn() { sx_step_limit(4000000); L = Looper::create_looper(); sx_bytes(sent, NB, "data"); F = k_connected(0x0a000001, 1000); C = std::make_shared<TcpConnection>(7, F, L, &own); bind_callbacks();
  SX_ASSERT(C->get_state() == TcpConnection::kConnected && C->get_id() == 7 && C->get_looper() == L && C->get_socket() == F && C->get_owner() == &own, "a new connection is connected and carries its id, loop, socket and owner"); SX_ASSERT(C->get_peer_addr().get_port() == 1000 && C->get_local_addr().get_port() == 9000 && C->get_peer_addr().get_sockaddr_in().sin_addr.s_addr == __builtin_bswap32(0x0a000001), "a new connection knows both addresses"); SX_ASSERT(kfd[F].nonblock && kfd[F].cloexec && kfd[F].nodelay, "a connection's socket never blocks, is closed on exec and sends at once"); }
static void callbacks_ok() { SX_ASSERT(!closed_bad, "callbacks get their own connection, never after its close callback"); SX_ASSERT(!sent_bad, "send-complete is reported only when everything sent has been accepted"); SX_ASSERT(n_close <= 1, "the close callback runs at most once"); }
static void gone() { callbacks_ok(); SX_ASSERT(n_close == 1, "a closed connection has reported its close exactly once"); SX_ASSERT(C->get_state() == TcpConnection::kDisconnected, "a closed connection is disconnected"); SX_ASSERT(k_closed[F] == 1, "a closed connection's descriptor is closed exactly once"); int m = n_msg, s = n_sent; size_t o = kfd[F].outN; C->send("zz", 2); L->step(); SX_ASSERT(n_msg == m && n_sent == s && n_close == 1 && kfd[F].outN == (int)o, "a closed connection neither sends nor calls back"); }
static void end() { C.reset(); Looper::destroy_looper(L); SX_ASSERT(k_open_count() == 0, "no descriptor is left behind"); sx_reach("end"); }
static void drain_and_close(bool byShutdown) { on_m = on_s = on_c = 0; k_peer_space(F, NB); for (int i = 0; i < 3; i++) { L->step(); prefix(); k_peer_space(F, NB); } if (byShutdown) { C->shutdown(); L->step(); } else { k_peer_fin(F); L->step(); } gone(); end(); }
#ifndef NSTEP
#define NSTEP 4
#endif
static size_t in_cb; static int cb_at; static void cb_send(TcpConnectionPtr) { if (in_cb && n_sent == cb_at) { size_t k = in_cb; in_cb = 0; send(k); } }
HARNESS h_out() { open_conn(); on_s = cb_send; C->start_write_statistics(1000);
  for (int i = 0; i < NSTEP; i++) { switch (SX_PICK("op", 0, 3)) { case 0: send(SX_PICK("len", 1, 3)); break; case 1: k_peer_space(F, SX_PICK("room", 0, 3)); break; case 2: L->step(); break; case 3: in_cb = 2; cb_at = n_sent + 1; break; } prefix(); callbacks_ok(); }
  size_t held = nsent; k_peer_space(F, NB); for (int i = 0; i < 4; i++) { L->step(); prefix(); } SX_ASSERT(ngot == nsent, "everything sent is delivered once the peer takes it"); SX_ASSERT(!nsent || n_sent > 0 && sent_at == nsent, "send-complete follows when everything has been accepted"); int s = n_sent; L->step(); SX_ASSERT(n_sent == s, "send-complete is reported once"); callbacks_ok();
  SX_ASSERT(C->get_write_statistics().first == nsent, "the write statistics count the bytes the socket accepted"); sx_observe(nsent); sx_observe(n_sent); (void)held; drain_and_close(SX_PICK("shutdown", 0, 1)); }
// shutdown with output pending; the peer may also go away meanwhile
HARNESS h_flush() { open_conn(); k_peer_space(F, SX_PICK("room", 0, 4)); size_t n = SX_PICK("len", 0, 5); if (n) { size_t a = SX_PICK("first", 1, 5); if (a >= n) send(n); else { send(a); send(n - a); } } if (SX_PICK("step", 0, 1)) L->step(); prefix(); C->shutdown(); bool pending = ngot < nsent; collect(); prefix(); SX_ASSERT(n_close == (ngot == nsent) || n_close == 0 && kfd[F].kind, "a shutdown waits only for output that is not accepted yet"); size_t keep = nsent; if (!n_close) { SX_ASSERT(C->get_state() == TcpConnection::kDisconnecting, "a connection shutting down says so"); C->send("zz", 2); C->shutdown(); SX_ASSERT(!n_close, "a second shutdown loses nothing"); }
  int gone_how = SX_PICK("peer", 0, 3); if (!n_close) { if (gone_how == 1) { k_peer_fin(F); L->step(); } if (gone_how == 2) { k_peer_rst(F); L->step(); } if (gone_how == 3) { uint8_t b = 1; k_peer_send(F, &b, 1); } }
  for (int i = 0; i < 4 && !n_close; i++) { k_peer_space(F, SX_PICK("room", 1, 3)); L->step(); prefix(); } for (int i = 0; i < 3 && !n_close; i++) { k_peer_space(F, NB); L->step(); prefix(); } prefix(); if (gone_how == 0 || gone_how == 3) SX_ASSERT(ngot == keep, "a shutdown delivers everything sent before it"); (void)pending; gone(); sx_observe(ngot); end(); }
// life cycle: what ends a connection, in any combination, and what callbacks do meanwhile
static unsigned m_act, s_act, c_act; static bool dropped;
static void act(unsigned a, TcpConnectionPtr c) { switch (a) { case 1: if (c->get_state() == TcpConnection::kConnected || c->get_state() == TcpConnection::kDisconnecting) c->shutdown(); break; case 2: if (C) send(2); else c->send("zz", 2); break; case 3: if (c->get_state() == TcpConnection::kConnected || c->get_state() == TcpConnection::kDisconnecting) c->shutdown(); if (c->get_state() == TcpConnection::kDisconnected && C) { C.reset(); dropped = true; } break; case 4: c->get_input_buf().reset(); break; } }
static void life_m(TcpConnectionPtr c) { act(m_act, c); } static void life_s(TcpConnectionPtr c) { act(s_act, c); } static void life_c(TcpConnectionPtr c) { act(c_act, c); }
HARNESS h_life() { open_conn(); on_m = life_m; on_s = life_s; on_c = life_c; m_act = SX_PICK("in message", 0, 4); s_act = SX_PICK("in send complete", 0, 3); c_act = SX_PICK("in close", 0, 3); int fd = F;
  for (int i = 0; i < NSTEP - 1 && C && !n_close; i++) { switch (SX_PICK("op", 0, 5)) { case 0: L->step(); break; case 1: { uint8_t b = 5; k_peer_send(F, &b, 1); L->step(); break; } case 2: send(2); break; case 3: k_peer_fin(F); break; case 4: k_peer_rst(F); break; case 5: k_peer_space(F, i & 1 ? NB : 0); break; } }
  if (!n_close && C) { k_peer_space(F, NB); C->shutdown(); } for (int i = 0; i < 4 && !n_close; i++) { k_peer_space(fd, NB); L->step(); } SX_ASSERT(!closed_bad && n_close == 1, "a connection reports its close exactly once, and no callback follows"); SX_ASSERT(k_closed[fd] == 1, "a closed connection's descriptor is closed exactly once"); if (!dropped) { SX_ASSERT(C->get_state() == TcpConnection::kDisconnected, "a closed connection is disconnected"); std::weak_ptr<TcpConnection> w = C; C.reset(); SX_ASSERT(w.expired(), "nothing keeps a closed connection alive"); } L->step(); sx_observe(n_msg); sx_observe(n_sent); Looper::destroy_looper(L); SX_ASSERT(k_open_count() == 0, "no descriptor is left behind"); sx_reach("end"); }
// a readiness report with nothing to read or write does not end a connection
HARNESS h_spurious() { open_conn(); C->start_write_statistics(1000); k_peer_space(F, 0); send(2); L->step(); k_spurious = F; k_spurious_ev = SX_PICK("events", 0, 1) ? 4 : 1; L->step(); k_spurious = 0; prefix(); callbacks_ok(); SX_ASSERT(n_close == 0 && C->get_state() == TcpConnection::kConnected && n_msg == 0, "a readiness report with nothing behind it changes nothing"); k_peer_space(F, NB); L->step(); prefix(); SX_ASSERT(ngot == nsent, "everything sent is delivered once the peer takes it"); SX_ASSERT(C->get_write_statistics().first == nsent, "the write statistics count the bytes the socket accepted"); drain_and_close(SX_PICK("shutdown", 0, 1)); }
// ---- C28 ----
static uint8_t in[NB], rd[NB]; static size_t nin, nrd, g_take; static int take_bad;
static void take(TcpConnectionPtr c) { size_t n = c->get_input_buf().size(); size_t k = g_take < n ? g_take : n; if (nrd + n != nin) take_bad = 1; if (nrd + k <= NB) nrd += c->get_input_buf().memcpy_out(rd + nrd, k); }
static void on_close_take(TcpConnectionPtr c) { size_t n = c->get_input_buf().size(); if (nrd + n <= NB) nrd += c->get_input_buf().memcpy_out(rd + nrd, n); }
HARNESS h_in() { open_conn(); on_m = take; on_c = on_close_take; C->start_read_statistics(1000); sx_bytes(in, NB, "input"); int arrivals = 0; size_t ended = 0;
  for (int i = 0; i < NSTEP && !ended; i++) { switch (SX_PICK("op", 0, 3)) { case 0: { size_t k = SX_PICK("len", 1, 4); k_peer_send(F, in + nin, k); nin += k; break; } case 1: { g_take = SX_PICK("take", 0, 4); int m = n_msg; bool any = kfd[F].inN > 0; L->step(); SX_ASSERT(n_msg == m + any, "the message callback runs once for each arrival and never without one"); SX_ASSERT(nrd + C->get_input_buf().size() == nin, "everything received is in the input buffer"); arrivals += any; break; } case 2: { uint8_t* p; size_t n = C->get_input_buf().size(); size_t k = n < 2 ? n : 2; nrd += C->get_input_buf().memcpy_out(rd + nrd, k); break; } case 3: if (nsent < 4) send(1); break; } }
  g_take = NB; k_peer_fin(F); L->step(); if (!n_close) L->step(); SX_ASSERT(!take_bad, "everything received is in the input buffer"); SX_ASSERT(nrd == nin, "everything sent before the end of stream is delivered before the close callback"); for (size_t i = 0; i < nrd; i++) SX_ASSERT(rd[i] == in[i], "input arrives unchanged and in order"); SX_ASSERT(C->get_read_statistics().first == nin, "the read statistics count the bytes received"); gone(); sx_observe(nrd); sx_observe(n_msg); end(); }
// a shutdown that waits for output to drain still takes what arrives
HARNESS h_in_half() { open_conn(); on_m = take; on_c = on_close_take; C->start_read_statistics(1000); sx_bytes(in, NB, "input"); k_peer_space(F, 0); send(2); L->step(); bool early = SX_PICK("early arrival", 0, 1); if (early) { k_peer_send(F, in, 2); nin = 2; } C->shutdown(); SX_ASSERT(C->get_state() == TcpConnection::kDisconnecting && n_close == 0, "a shutdown waits for the output");
  for (int i = 0; i < NSTEP - 2; i++) { if (SX_PICK("op", 0, 1)) { size_t k = SX_PICK("len", 1, 3); k_peer_send(F, in + nin, k); nin += k; } g_take = SX_PICK("take", 0, 4); int m = n_msg; bool any = kfd[F].inN > 0; L->step(); SX_ASSERT(n_close == 0 && n_msg == m + any, "the message callback runs once for each arrival and never without one"); SX_ASSERT(nrd + C->get_input_buf().size() == nin, "everything received is in the input buffer"); }
  g_take = NB; if (SX_PICK("ends", 0, 1)) k_peer_fin(F); else k_peer_space(F, NB); for (int i = 0; i < 3 && !n_close; i++) L->step(); SX_ASSERT(!take_bad, "everything received is in the input buffer"); SX_ASSERT(nrd == nin, "everything sent before the end of stream is delivered before the close callback"); for (size_t i = 0; i < nrd; i++) SX_ASSERT(rd[i] == in[i], "input arrives unchanged and in order"); SX_ASSERT(C->get_read_statistics().first == nin, "the read statistics count the bytes received"); gone(); sx_observe(nrd); end(); }
// ---- C29: sends from several threads ----
#ifndef BUDGET
#define BUDGET 1000
#endif
#ifndef MTN
#define MTN 1
#endif
static int m_cnt[3], m_len = 3, g_lost_ok; static bool g_stop_when_done; static int g_room = NB, s_done;
static void msg(int t, int m) { char b[4]; for (int i = 0; i < m_len; i++) b[i] = (char)(t * 64 + m * 8 + i + 1); C->send(b, m_len); }
// whole messages only, each sender's in order; a cut-off tail only if the connection was closed
static void whole() { collect(); int next[3] = {0, 0, 0}; size_t i = 0; while (i < ngot) { int b = got[i] - 1, t = b / 64, m = b / 8 % 8; SX_ASSERT(b >= 0 && t < 3 && b % 8 == 0 && m == next[t] && m < m_cnt[t], "messages of one sender arrive in order, each once"); for (int k = 0; k < m_len; k++, i++) { if (i == ngot) { SX_ASSERT(g_lost_ok, "messages arrive whole"); return; } SX_ASSERT(got[i] == b + 1 + k, "the bytes of one send stay together"); } next[t]++; } if (!g_lost_ok) for (int t = 0; t < 3; t++) SX_ASSERT(next[t] == m_cnt[t], "every message arrives"); }
static void other(void* p) { int t = (int)(intptr_t)p; for (int m = 0; m < m_cnt[t]; m++) msg(t, m); s_done++; }
static void other_stop(void* p) { int t = (int)(intptr_t)p; for (int m = 0; m < m_cnt[t]; m++) msg(t, m); while (kfd[F].outN < m_len * m_cnt[t]) sx_block(); s_done++; L->push_stop_request(); }
static void mt_begin() { open_conn(); sx_preempt_budget(BUDGET); sx_free_sched(1); }
static void mt_end() { sx_preempt_budget(0); sx_free_sched(0); on_m = on_s = on_c = 0; if (!n_close) { C->shutdown(); for (int i = 0; i < 4 && !n_close; i++) { k_peer_space(F, NB); L->step(); } } whole(); SX_ASSERT(!closed_bad && n_close == 1, "a connection reports its close exactly once, and no callback follows"); for (size_t i = 0; i < ngot; i++) sx_observe(got[i]); sx_observe(n_sent); end(); }
static void settle() { for (int i = 0; i < 8; i++) { k_peer_space(F, NB); L->step(); collect(); } }
HARNESS h_mt() { sent_at = 0; open_conn(); k_peer_space(F, SX_PICK("room", 0, 7)); m_cnt[0] = 2; m_cnt[1] = 1; sx_preempt_budget(BUDGET); sx_free_sched(1); C->set_on_send_complete(nullptr); int t = sx_thread_create(other, (void*)1); msg(0, 0); L->step(); msg(0, 1); k_peer_space(F, 2); L->step(); while (!sx_thread_done(t)) sx_block(); settle(); mt_end(); }
HARNESS h_mt2() { open_conn(); k_peer_space(F, SX_PICK("room", 0, 1) * 4); m_cnt[0] = 1; m_cnt[1] = 1; m_cnt[2] = 1; C->set_on_send_complete(nullptr); sx_preempt_budget(BUDGET); sx_free_sched(1); int t = sx_thread_create(other, (void*)1), u = sx_thread_create(other, (void*)2); msg(0, 0); L->step(); while (!sx_thread_done(t) || !sx_thread_done(u)) sx_block(); settle(); mt_end(); }
static void fair(int, int) { if (k_idle_poll) sx_yield(); }   // a loop that keeps finding nothing lets others run
HARNESS h_mt_loop() { open_conn(); k_on_poll = fair; m_cnt[1] = MTN; C->set_on_send_complete(nullptr); sx_preempt_budget(BUDGET); sx_free_sched(1); int t = sx_thread_create(other_stop, (void*)1); L->loop(); while (!sx_thread_done(t)) sx_block(); SX_ASSERT(s_done == 1, "a waiting loop takes up what another thread sends"); sx_preempt_budget(0); C->shutdown(); whole(); SX_ASSERT(n_close == 1, "a connection reports its close exactly once"); end(); }
HARNESS h_mt_close() { open_conn(); m_cnt[1] = 2; g_lost_ok = 1; unsigned how = SX_PICK("how", 0, 2); k_peer_space(F, SX_PICK("room", 0, 1) * NB); C->set_on_send_complete(nullptr); sx_preempt_budget(BUDGET); sx_free_sched(1); int t = sx_thread_create(other, (void*)1); if (how == 0) { C->shutdown(); k_peer_space(F, NB); L->step(); } if (how == 1) { k_peer_fin(F); L->step(); } if (how == 2) { k_peer_rst(F); L->step(); } while (!sx_thread_done(t)) sx_block(); settle(); if (how == 2) ngot = 0; mt_end(); }
// ---- C30: the client against a reference model of its states ----
enum { M_IDLE, M_CONNECTING, M_WAITING, M_CONNECTED, M_CLOSING, M_CLOSED }; static TcpClientPtr K; static TcpClient* Kp; static int m_st, n_ok, n_fail, x_ok, x_fail, k_bad_cb, n_kmsg, n_kclose, x_close; static uint32_t c_retry; static int64_t m_retry_at; static TcpConnectionPtr KC; static TcpConnection* KCp; static int F2 = -1; static unsigned c_in;
static uint8_t out[NB]; static size_t nout; static uint8_t cnext = 1;
static void ksend(size_t n, bool counts) { char b[4]; for (size_t i = 0; i < n; i++) b[i] = cnext + i; Kp->send(b, n); if (counts) for (size_t i = 0; i < n; i++) out[nout++] = cnext + i; cnext += n; }
static int find_sock() { for (int i = KF; i < KNFD; i++) if (kfd[i].kind == K_SOCK) return i; return -1; }
static int socks() { int n = 0; for (int i = KF; i < KNFD; i++) n += kfd[i].kind == K_SOCK; return n; }
static uint32_t on_conn(TcpClientPtr k, TcpConnectionPtr c, bool ok) { if (k.get() != Kp || ok != (c != nullptr)) k_bad_cb = 1; if (ok) { n_ok++; KC = c; KCp = c.get(); if (c_in & 1) ksend(1, true); if (c_in & 2) { Kp->disconnect(); m_st = M_CLOSING; } return 0; } n_fail++; if (c_in & 2) Kp->disconnect(); if (c_in & 4) K.reset(); return c_in & 2 ? 0 : c_retry; }
static void on_kmsg(TcpClientPtr k, TcpConnectionPtr c) { if (k.get() != Kp || c.get() != KCp || n_kclose) k_bad_cb = 2; n_kmsg++; }
static void on_kclose(TcpClientPtr k, TcpConnectionPtr c) { if (k.get() != Kp || c.get() != KCp) k_bad_cb = 3; n_kclose++; if (c_in & 8) K.reset(); }
static void kopen() { sx_step_limit(4000000); L = Looper::create_looper(); K = std::make_shared<TcpClient>(L, &cnext, 9); Kp = K.get(); K->m_listener.on_connected = on_conn; K->m_listener.on_message = on_kmsg; K->m_listener.on_close = on_kclose; SX_ASSERT(K->get_param() == &cnext, "a client carries its parameter"); }
static void kstate() { SX_ASSERT(!k_bad_cb, "callbacks get their own client and connection"); SX_ASSERT(n_ok == x_ok && n_fail == x_fail, "each attempt is reported exactly once, as it ended"); SX_ASSERT(n_kclose <= 1, "the close callback runs at most once"); if (!K) return; TcpConnection::State s = K->get_connection_state(); if (m_st == M_CLOSING) { if (s == TcpConnection::kDisconnected) m_st = M_CLOSED; else { SX_ASSERT(s == TcpConnection::kDisconnecting, "the reported state is the real one"); } return; } SX_ASSERT(s == (m_st == M_CONNECTING ? TcpConnection::kConnecting : m_st == M_CONNECTED ? TcpConnection::kConnected : TcpConnection::kDisconnected), "the reported state is the real one"); }
static void failed() { x_fail++; if (c_in & 2) m_st = M_IDLE; else if (c_retry) { m_st = M_WAITING; m_retry_at = m_mono_ns + (int64_t)c_retry * 1000000; } else m_st = M_IDLE; }
static void kstep() { int before = socks(); if (m_st == M_CONNECTING) { int f = find_sock(); if (kfd[f].state == S_CONNECTED) { x_ok++; m_st = M_CONNECTED; F2 = f; } else if (kfd[f].state == S_FAILED) failed(); }
  else if (m_st == M_WAITING && sx_concrete(m_mono_ns >= m_retry_at)) { if (k_connect_errno > 0) failed(); else m_st = M_CONNECTING; }
  L->step(); kstate(); if (K && m_st != M_CLOSING) SX_ASSERT(socks() == (m_st == M_CONNECTING || m_st == M_CONNECTED), "a client holds one socket while connecting or connected and none otherwise"); (void)before; }
static void kpeer() { if (F2 < 0) return; ngot += k_peer_recv(F2, got + ngot, NB - ngot); SX_ASSERT(ngot <= nout, "the server receives nothing that was not sent"); for (size_t i = 0; i < ngot; i++) SX_ASSERT(got[i] == out[i], "the server receives what was sent, in order, cached data first"); }
static void kclose() { KC.reset(); if (K) { K->disconnect(); if (m_st == M_CONNECTED) m_st = M_CLOSING; else if (m_st != M_CLOSING && m_st != M_CLOSED) m_st = M_IDLE; kstate(); } int f = n_fail, o = n_ok; for (int i = 0; i < 3; i++) { if (F2 >= 0) k_peer_space(F2, NB); L->step(); } k_advance_ms(100000); L->step(); L->step(); SX_ASSERT(n_fail == f && n_ok == o && socks() == 0, "after a disconnect there is no further attempt and no socket"); if (x_ok) SX_ASSERT(n_kclose == 1, "a connection that was established reports its close exactly once"); else SX_ASSERT(n_kclose == 0, "no close is reported without a connection"); if (ngot || x_ok) kpeer(); K.reset(); SX_ASSERT(k_open_count() == 1, "a destroyed client leaves no descriptor behind"); Looper::destroy_looper(L); SX_ASSERT(k_open_count() == 0, "no descriptor is left behind"); sx_reach("end"); }
HARNESS h_client() { kopen(); Address srv("10.0.0.9", (uint16_t)77); static const uint32_t RT[] = {0, 1, 250}; c_retry = RT[SX_PICK("retry", 0, 2)]; int sync0 = SX_PICK("first connect", 0, 2); k_connect_errno = sync0 == 0 ? 0 : sync0 == 1 ? -1 : ENETUNREACH; bool r = K->connect(srv); SX_ASSERT(r == (sync0 != 2), "connect reports whether the attempt was started"); SX_ASSERT(K->get_server_address() == srv, "a client knows its server's address"); m_st = r ? M_CONNECTING : M_IDLE; kstate(); if (!r) { SX_ASSERT(socks() == 0, "a client holds one socket while connecting or connected and none otherwise"); L->step(); kstate(); }
  for (int i = 0; i < NSTEP && m_st != M_CLOSING && m_st != M_CLOSED; i++) { switch (SX_PICK("op", 0, 6)) {
    case 0: kstep(); break;
    case 1: if (m_st == M_CONNECTING) { int f = find_sock(); if (kfd[f].state == S_CONNECTING) { k_connect_done(f, SX_PICK("fails", 0, 1) ? ECONNREFUSED : 0); kstep(); } } break;
    case 2: { static const int64_t AD[] = {0, 1000000, 249999999, 250000000, 400000000}; k_advance_ns(AD[SX_PICK("advance", 0, 4)]); kstep(); break; }
    case 3: ksend(2, m_st == M_CONNECTING || m_st == M_CONNECTED); break;
    case 4: K->disconnect(); if (m_st == M_CONNECTED) m_st = M_CLOSING; else { nout = 0; m_st = M_IDLE; } kstate(); break;
    case 5: k_connect_errno = k_connect_errno == 0 ? ENETUNREACH : 0; break;
    case 6: if (m_st == M_CONNECTED) { uint8_t b = 3; k_peer_send(F2, &b, 1); int m = n_kmsg; kstep(); SX_ASSERT(n_kmsg == m + 1, "a message is reported once"); } else if (m_st == M_IDLE && !x_ok) { bool r2 = K->connect(srv); SX_ASSERT(r2 == (k_connect_errno <= 0), "connect reports whether the attempt was started"); if (r2) m_st = M_CONNECTING; kstate(); } break; } kpeer(); }
  if (m_st == M_CONNECTED) { L->step(); kpeer(); SX_ASSERT(ngot == nout, "everything sent is delivered, also what was sent while connecting"); }
  sx_observe(n_ok); sx_observe(n_fail); sx_observe(ngot); kclose(); }
// callbacks that send, disconnect or drop the client
HARNESS h_client_cb() { kopen(); Address srv("10.0.0.9", (uint16_t)77); c_in = SX_PICK("in callbacks", 0, 15); if ((c_in & 4)) c_in &= ~8u; c_retry = SX_PICK("retry", 0, 1); k_connect_errno = SX_PICK("at once", 0, 1) ? -1 : 0; bool second = SX_PICK("second", 0, 1); bool r = K->connect(srv); SX_ASSERT(r, "connect reports whether the attempt was started"); m_st = M_CONNECTING; if (SX_PICK("send", 0, 1)) ksend(2, true); bool ok = SX_PICK("succeeds", 0, 1); int f = find_sock(); if (!ok) { kfd[f].state = S_CONNECTING; k_connect_done(f, ETIMEDOUT); } else if (kfd[f].state == S_CONNECTING) k_connect_done(f, 0);
  if (SX_PICK("data waiting", 0, 1) && ok) { uint8_t b = 3; k_peer_send(f, &b, 1); }
  if (ok) { x_ok = 1; F2 = f; m_st = M_CONNECTED; L->step(); kpeer(); SX_ASSERT(n_ok == 1 && n_fail == 0 && !k_bad_cb, "each attempt is reported exactly once, as it ended"); for (int i = 0; i < 2; i++) { L->step(); kpeer(); } if (K && !(c_in & 2)) { SX_ASSERT(ngot == nout, "everything sent is delivered, also what was sent while connecting"); KC.reset(); k_peer_fin(f); L->step(); } KC.reset(); SX_ASSERT(n_kclose == 1, "a connection that was established reports its close exactly once"); SX_ASSERT((c_in & 8) == 0 || !K, "the callback ran"); m_st = M_CLOSED; }
  else { if (second) k_connect_errno = ENETUNREACH; else k_connect_errno = 0; failed(); L->step(); SX_ASSERT(n_ok == 0 && n_fail == 1, "each attempt is reported exactly once, as it ended"); SX_ASSERT((c_in & 4) == 0 || !K, "the callback ran"); if (K) { kstate(); k_advance_ms(2); kstep(); } else { k_advance_ms(2); L->step(); SX_ASSERT(n_ok == 0 && n_fail == 1 && socks() == 0, "a destroyed client makes no further attempt"); } }
  sx_observe(n_ok); sx_observe(n_fail); sx_observe(n_kmsg); if (!K) m_st = M_IDLE; kclose(); }
// a client that is destroyed while connecting or waiting
HARNESS h_client_drop() { kopen(); Address srv("10.0.0.9", (uint16_t)77); c_retry = 5; bool r = K->connect(srv); m_st = M_CONNECTING; if (SX_PICK("wait", 0, 1)) { k_connect_done(find_sock(), ECONNREFUSED); kstep(); } K.reset(); SX_ASSERT(k_open_count() == 1, "a destroyed client leaves no descriptor behind"); k_advance_ms(10); L->step(); m_st = M_IDLE; int x = n_fail; kclose(); SX_ASSERT(n_fail == x, "a destroyed client makes no further attempt"); (void)r; }
