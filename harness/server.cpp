// C31 serving, C32 stopping: the TCP server with its master and worker threads
#include "hutil.h"
#include <errno.h>
#include <memory>
#include <cy_core.h>
#include <cy_event.h>
#include <cy_network.h>
#include "rt_kernel.h"
using namespace cyclone;
#ifndef BUD
#define BUD 2
#endif
static TcpServer* S; static int g_main, g_workers, g_bad; static int g_wthread[4], g_mthread, n_wstart[4], n_mstart; static Looper* g_wloop[4];
enum { NC = 4 }; struct Conn { int n_conn, n_msg, n_close, id, worker, nin, fd, gen, out; uint8_t in[8]; bool open; std::weak_ptr<TcpConnection> c; }; static Conn R[NC]; static int nR, n_connected;
static unsigned a_conn, a_msg, a_close, a_cmd; static int n_stopped_inside;
static uint8_t cli[NC][8]; static int ncli[NC];
static int who(TcpConnectionPtr c) { int i = c->get_peer_addr().get_port() - 50000; if (i < 0 || i >= NC) { g_bad = 1; return 0; } return i; }
static void on_thread(TcpServer* s, int w) { if (s != S || w < 0 || w >= g_workers) { g_bad = 2; return; } if (n_wstart[w] != 1 || g_wthread[w] != sx_self()) g_bad = 3; }
static void act(unsigned a, TcpConnectionPtr c) { if (a == 1) c->send("ok", 2); if (a == 2 && c->get_state() == TcpConnection::kConnected) c->shutdown(); if (a == 3) S->shutdown_connection(c); if (a == 4) { S->stop(); n_stopped_inside++; } if (a == 6 && c->get_state() == TcpConnection::kConnected) { c->send("abcdef", 6); c->shutdown(); } }
static void on_connected(TcpServer* s, int32_t w, TcpConnectionPtr c) { on_thread(s, w); int i = who(c); Conn& r = R[i]; if (r.n_conn++) g_bad = 4; r.worker = w; r.id = c->get_id(); r.c = c; r.open = true; n_connected++; if (c->get_state() != TcpConnection::kConnected) g_bad = 5; if (c->get_looper() != g_wloop[w]) g_bad = 6; act(a_conn, c); if (a_conn == 1) r.out += 2; }
static void on_message(TcpServer* s, int32_t w, TcpConnectionPtr c) { on_thread(s, w); Conn& r = R[who(c)]; if (r.n_conn != 1 || r.n_close || r.worker != w || r.id != c->get_id()) g_bad = 7; r.n_msg++; r.nin += c->get_input_buf().memcpy_out(r.in + r.nin, 8 - r.nin); bool live = c->get_state() == TcpConnection::kConnected; act(a_msg, c); if (a_msg == 1 && live) r.out += 2; }
static void on_close(TcpServer* s, int32_t w, TcpConnectionPtr c) { on_thread(s, w); Conn& r = R[who(c)]; if (r.n_conn != 1 || r.n_close++ || r.worker != w || r.id != c->get_id()) g_bad = 8; r.open = false; if (c->get_state() != TcpConnection::kDisconnected) g_bad = 9; if (a_close == 4) { S->stop(); n_stopped_inside++; } }
static void on_wstart(TcpServer*, int32_t w, Looper* l) { if (w < 0 || w >= g_workers || n_wstart[w]++) { g_bad = 10; return; } g_wthread[w] = sx_self(); g_wloop[w] = l; if (sx_self() == g_main) g_bad = 11; for (int i = 0; i < w; i++) if (g_wthread[i] == sx_self()) g_bad = 11; }
static void on_mstart(TcpServer* s, Looper*) { if (s != S || n_mstart++) g_bad = 12; g_mthread = sx_self(); }
static int n_mcmd, n_wcmd[4];
static void on_mcmd(TcpServer* s, Packet* p) { if (s != S || sx_self() != g_mthread || p->get_packet_id() != 20 || p->get_packet_size() != 2 || p->get_packet_content()[1] != 9) g_bad = 13; n_mcmd++; if (a_cmd == 4) S->stop(); }
static void on_wcmd(TcpServer* s, int32_t w, Packet* p) { on_thread(s, w); if (p->get_packet_id() != 30 || p->get_packet_size() != 1 || p->get_packet_content()[0] != (char)w) g_bad = 14; n_wcmd[w]++; if (a_cmd == 5) { S->stop(); n_stopped_inside++; } }
static void fair(int, int) { if (k_idle_poll) sx_yield(); }   // a loop that keeps finding the same thing lets others run
static void make(int workers) { k_on_poll = fair; sx_step_limit(40000000); g_main = sx_self(); g_workers = workers; S = new TcpServer; S->m_listener.on_master_thread_start = on_mstart; S->m_listener.on_master_thread_command = on_mcmd; S->m_listener.on_work_thread_start = on_wstart; S->m_listener.on_work_thread_command = on_wcmd; S->m_listener.on_connected = on_connected; S->m_listener.on_message = on_message; S->m_listener.on_close = on_close; }
static int lfd(int port) { for (int i = KF; i < KNFD; i++) if (kfd[i].kind == K_SOCK && kfd[i].state == S_LISTEN && kfd[i].local.sin_port == __builtin_bswap16(port)) return i; return -1; }
static void open_srv(int workers) { make(workers); bool b = S->bind(Address((uint16_t)8000, true)); SX_ASSERT(b, "a free address can be bound"); b = S->start(workers); SX_ASSERT(b, "a server starts"); sx_idle(); SX_ASSERT(n_mstart == 1, "each thread reports its start once"); for (int i = 0; i < workers; i++) SX_ASSERT(n_wstart[i] == 1, "each thread reports its start once"); SX_ASSERT(S->get_work_thread_counts() == workers, "a server knows its workers"); }
static void sane() { SX_ASSERT(!g_bad, "callbacks run on their own worker's thread with their own connection, connected first and closed last"); }
static bool alive(int i) { Conn& r = R[i]; int f = k_find_accepted(i); if (f < 0) return false; if (!r.fd) { r.fd = f; r.gen = kfd[f].gen; } return kfd[r.fd].kind == K_SOCK && kfd[r.fd].gen == r.gen; }
static void client(int port = 8000) { if (nR < NC) { int l = lfd(port); if (l >= 0) { k_incoming(l, nR); nR++; } } }
static void served() { sane(); for (int i = 0; i < nR; i++) { Conn& r = R[i]; alive(i); SX_ASSERT(r.n_conn == 1, "every accepted connection is reported once"); for (int j = 0; j < i; j++) SX_ASSERT(R[j].id != r.id, "connections have distinct ids"); SX_ASSERT(r.worker == i % g_workers, "connections are given to the workers in turn"); } }
// after everything has settled: input, replies, releases
static void settled() { for (int i = 0; i < nR; i++) { Conn& r = R[i]; bool up = r.open; SX_ASSERT(r.n_close == !up, "a connection that ended has reported its close once"); SX_ASSERT(up == alive(i), "a connection's descriptor is closed exactly when it ends"); SX_ASSERT(r.c.expired() == !up, "the server forgets a closed connection"); } }
static void stop_join() { S->stop(); S->join(); sane(); for (int i = 0; i < NC; i++) SX_ASSERT(R[i].n_close == R[i].n_conn, "after the server has stopped every connection has reported its close"); for (int i = 0; i < NC; i++) SX_ASSERT(R[i].c.expired(), "the server forgets a closed connection"); delete S; SX_ASSERT(k_open_count() == 0, "a stopped server leaves no descriptor behind"); sx_reach("end"); }
// C31: any clients, any end of each, one or two workers; the schedule at blocking points is arbitrary
static void serve(int w, int lo, int n, int nend) { sx_preempt_budget(0); open_srv(w); sx_free_sched(1); sx_preempt_budget(BUD);
  n = SX_PICK("clients", lo, n); for (int i = 0; i < n; i++) { client(); if (SX_PICK("settle", 0, 1)) sx_idle(); }
  sx_idle(); served(); for (int i = 0; i < n; i++) if (alive(i)) { int k = nend > 2 ? SX_PICK("bytes", 0, 2) : 1; if (k) { sx_bytes(cli[i], k, "data"); ncli[i] = k; k_peer_send(R[i].fd, cli[i], k); } int how = SX_PICK("end", 0, nend); if (how == 1) k_peer_fin(R[i].fd); if (how == 2 && !k) k_peer_rst(R[i].fd); if (how == 3) if (TcpConnectionPtr c = R[i].c.lock()) S->shutdown_connection(c); }
  sx_idle(); sane(); settled(); for (int i = 0; i < n; i++) { Conn& r = R[i]; if (r.open || r.n_msg) { SX_ASSERT(r.nin == ncli[i] || !r.open, "every byte of a client reaches its own connection"); for (int k = 0; k < r.nin; k++) SX_ASSERT(r.in[k] == cli[i][k], "every byte of a client reaches its own connection"); } if (r.open) { uint8_t b[16]; size_t g = k_peer_recv(r.fd, b, 16); SX_ASSERT((int)g == r.out, "every reply reaches its own client"); } sx_observe(r.worker); sx_observe(r.nin); }
  sx_preempt_budget(0); sx_free_sched(0); stop_join(); }
// a connection shut down with output left is kept until its client has taken it (or has gone), whatever else happens meanwhile
HARNESS h_serve_drain() { sx_preempt_budget(0); open_srv(1); sx_free_sched(1); bool inmsg = SX_PICK("in message", 0, 1); (inmsg ? a_msg : a_conn) = 6; unsigned room = SX_PICK("room", 1, 6); k_default_space = room; sx_preempt_budget(BUD); client(); sx_idle(); Conn& r = R[0]; int f = k_find_accepted(0); SX_ASSERT(f >= 0 && r.n_conn == 1, "every accepted connection is reported once"); r.fd = f; r.gen = kfd[f].gen; k_default_space = KCAP; uint8_t b[16]; if (inmsg) { b[0] = 1; k_peer_send(f, b, 1); sx_idle(); }
  size_t got = 0; if (room < 6) { sane(); SX_ASSERT(!r.n_close && alive(0) && !r.c.expired(), "a connection with output left is kept"); got = k_peer_recv(f, b, 16); SX_ASSERT(got == room, "every reply reaches its own client"); bool stopped = false; if (SX_PICK("other client", 0, 1)) { a_conn = 0; client(); } unsigned end = SX_PICK("end", 0, 4); switch (end) { case 1: k_peer_fin(f); break; case 2: k_peer_rst(f); break; case 3: if (TcpConnectionPtr c = r.c.lock()) S->shutdown_connection(c); break; case 4: S->stop(); stopped = true; break; } sx_idle(); sane(); if (end == 0 || end > 2) { SX_ASSERT(!r.n_close && alive(0) && !r.c.expired(), "a connection with output left is kept"); k_peer_space(f, 8); sx_idle(); got += k_peer_recv(f, b + got, 16 - got); SX_ASSERT(got == 6, "every reply reaches its own client"); } SX_ASSERT(!memcmp(b, "abcdef", got), "every reply reaches its own client"); if (!stopped) { served(); } sx_reach("kept"); } else { got = k_peer_recv(f, b, 16); SX_ASSERT(got == 6 && !memcmp(b, "abcdef", 6), "every reply reaches its own client"); }
  sx_idle(); sane(); SX_ASSERT(r.n_close == 1 && !alive(0) && r.c.expired(), "the server forgets a closed connection"); sx_preempt_budget(0); sx_free_sched(0); stop_join(); }
HARNESS h_serve() { a_conn = SX_PICK("in connected", 0, 3); serve(1, 1, 1, 3); }
HARNESS h_serve_msg() { a_msg = SX_PICK("in message", 0, 3); serve(1, 1, 2, 3); }
HARNESS h_serve2() { a_conn = SX_PICK("in connected", 0, 1) ; serve(2, 2, 2, 2); }
HARNESS h_serve3() { serve(2, 3, 3, 1); }
// C32: stop at any moment
static void stop(int w, int most) { sx_preempt_budget(0); open_srv(w); sx_free_sched(1); int n = SX_PICK("clients", 0, most); client(); sx_idle(); if (n >= 1 && alive(0)) { switch (SX_PICK("first", 0, 2)) { case 1: k_peer_fin(R[0].fd); break; case 2: if (TcpConnectionPtr c = R[0].c.lock()) S->shutdown_connection(c); break; } } sx_preempt_budget(BUD); if (n == 2) client(); stop_join(); }
HARNESS h_stop() { stop(1, 2); }
HARNESS h_stop_two() { stop(2, 1); }
HARNESS h_stop_two_new() { stop(2, 2); }
HARNESS h_stop_inside() { sx_preempt_budget(0); open_srv(1); sx_free_sched(1); a_cmd = 0; int where = SX_PICK("where", 0, 4); if (where == 0) a_conn = 4; if (where == 1) a_msg = 4; if (where == 2) a_close = 4; if (where == 3) a_cmd = 5; if (where == 4) a_cmd = 4; client(); sx_idle(); uint8_t b = 1; if (alive(0)) { k_peer_send(R[0].fd, &b, 1); sx_idle(); }
  if (where == 2) { k_peer_fin(R[0].fd); sx_idle(); } if (where == 3) { Packet* p = Packet::alloc_packet(); char x = 0; p->build_from_memory(WorkThread::MESSAGE_HEAD_SIZE, 30, 1, &x); S->send_work_message(0, p); Packet::free_packet(p); sx_idle(); } if (where == 4) { char d[2] = {1, 9}; S->send_master_message(20, 2, d); }
  if (where != 4) { SX_ASSERT(n_stopped_inside >= 1, "the callback ran"); sane(); SX_ASSERT(lfd(8000) >= 0, "a stop refused inside a worker has no effect"); int c = n_connected; client(); sx_idle(); SX_ASSERT(n_connected == c + 1, "a stop refused inside a worker has no effect"); stop_join(); }
  else { S->join(); sane(); for (int i = 0; i < NC; i++) SX_ASSERT(R[i].n_close == R[i].n_conn, "after the server has stopped every connection has reported its close"); delete S; SX_ASSERT(k_open_count() == 0, "a stopped server leaves no descriptor behind"); sx_reach("end"); } }
// commands, several addresses, stop_listen
HARNESS h_listen() { sx_preempt_budget(0); make(1); k_default_space = KCAP; bool b1 = S->bind(Address((uint16_t)8000, true)), b2 = S->bind(Address((uint16_t)8001, false)), b3 = S->bind(Address((uint16_t)8001, false), false); SX_ASSERT(b1 && b2, "a free address can be bound"); SX_ASSERT(!b3, "an address in use is refused"); SX_ASSERT(k_open_count() == 4, "an address that cannot be bound leaves no descriptor behind"); bool r = S->start(0) || S->start(33); SX_ASSERT(!r, "a server needs between 1 and 32 workers"); r = S->start(1); SX_ASSERT(r, "a server starts"); r = S->start(1) || S->bind(Address((uint16_t)8002, true)); SX_ASSERT(!r, "a running server is neither started nor bound again"); sx_idle();
  SX_ASSERT(S->get_bind_address(0) == Address((uint16_t)8000, true) && S->get_bind_address(1) == Address((uint16_t)8001, false) && S->get_bind_address(2) == Address(), "a server knows its addresses");
  unsigned which = SX_PICK("which", 0, 2); if (which < 2) { S->stop_listen(which); if (SX_PICK("twice", 0, 1)) S->stop_listen(which); sx_idle(); SX_ASSERT(lfd(8000 + which) < 0 && lfd(8001 - which) >= 0, "stopping to listen on one address affects that one only"); SX_ASSERT(S->get_bind_address(which) == Address() && S->get_bind_address(1 - which).get_port() == 8001 - which, "a server knows its addresses"); client(8001 - which); } else { client(8000); client(8001); k_accept_err = SX_PICK("accept fails", 0, 1) ? ECONNABORTED : 0; }
  sx_idle(); served(); char d[2] = {1, 9}; S->send_master_message(20, 2, d); Packet* p = Packet::alloc_packet(); p->build_from_memory(4, 20, 2, d); S->send_master_message(p); char z = 0; p->build_from_memory(4, 30, 1, &z); S->send_work_message(0, p); const Packet* v[2] = {p, p}; S->send_work_message(0, v, 2); Packet::free_packet(p); sx_idle(); sane(); SX_ASSERT(n_mcmd == 2 && n_wcmd[0] == 3, "every command reaches its thread once"); stop_join(); }
// set-up failures
HARNESS h_bind_fail() { make(1); k_fail_nth = SX_PICK("fail", 0, 6); bool any = k_fail_nth > 0; bool b = S->bind(Address((uint16_t)8000, true)); bool done = k_fail_nth == 0 && any; k_fail_nth = 0; SX_ASSERT(b || done, "a free address can be bound"); if (!b) SX_ASSERT(k_open_count() == 2, "an address that cannot be bound leaves no descriptor behind"); if (SX_PICK("start", 0, 1)) { bool r = S->start(1); SX_ASSERT(r, "a server starts"); sx_idle(); if (b) { client(); sx_idle(); served(); } S->stop(); S->join(); } delete S; SX_ASSERT(k_open_count() == 0, "a stopped server leaves no descriptor behind"); sx_reach("end"); }
