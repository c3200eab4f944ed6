#include "rt_kernel.h"
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <netinet/tcp.h>
#include <sys/select.h>
#include <poll.h>
#include <fcntl.h>
#include <errno.h>
#include <string.h>
#include <unistd.h>
#include <arpa/inet.h>
Kfd kfd[KNFD]; uint8_t kin[KNFD][KCAP], kout[KNFD][KCAP]; Kep kep[KNEP]; int k_closed[KNFD];
int k_pipe_cap = KCAP, k_default_space = KCAP, k_eintr = 0, k_short_reads = 0, k_order = 0, k_connect_errno = 0, k_bad = 0, k_tolerate_bad = 0, k_max_events = 1000, k_accept_err = 0, k_fcntl_fail = 0, k_sigpipe = 0, k_spurious = 0, k_spurious_ev = 0; void (*k_on_poll)(int, int) = 0;
static struct { int32_t id, fd; } k_acc[KNFD]; static int k_naccn = 0; static struct { int32_t l, id, cfd; } k_pend[KNFD]; static int k_npend = 0; static uint16_t k_nextport = 40000; static int k_gen = 0;
int64_t k_wait_us = -2; struct linger k_linger; int (*k_on_wait)(int) = 0; int k_idle_poll = 0; static uint8_t k_moved[KNFD]; static void moved() { memset(k_moved, 1, sizeof k_moved); sx_progress(); }
#define sx_progress moved
static int fail(int e) { errno = e; return -1; }
int k_fail_nth = 0; static int inject() { return k_fail_nth > 0 && --k_fail_nth == 0; }   // the n-th of socket/bind/listen/getsockname/connect/accept/fcntl fails

static int ok(int fd) { if (fd >= KF && fd < KNFD && kfd[fd].kind != K_FREE) return 1; if (!k_tolerate_bad) SX_ASSERT(0, "no system call on a descriptor that is not open"); k_bad++; errno = EBADF; return 0; }
int k_first = KF; static int newfd(uint8_t kind) { for (int i = k_first; i < KNFD; i++) if (kfd[i].kind == K_FREE) { memset(&kfd[i], 0, sizeof(Kfd)); kfd[i].kind = kind; kfd[i].other = -1; kfd[i].space = k_default_space; kfd[i].gen = ++k_gen; return i; } sx_stop(); return -1; }
int k_open_count(void) { int n = 0; for (int i = KF; i < KNFD; i++) n += kfd[i].kind != K_FREE; return n; }
static void name(struct sockaddr_in& a, uint32_t ip, uint16_t port) { memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = __builtin_bswap32(ip); a.sin_port = __builtin_bswap16(port); }
int k_connected(uint32_t ip, uint16_t port) { int f = newfd(K_SOCK); kfd[f].state = S_CONNECTED; name(kfd[f].local, 0x7f000001, 9000); name(kfd[f].peer, ip, port); return f; }
int k_incoming(int l, int32_t id) { if (l < KF || kfd[l].kind != K_SOCK || kfd[l].state != S_LISTEN) return 0; k_pend[k_npend].l = l; k_pend[k_npend].cfd = -1; k_pend[k_npend++].id = id; kfd[l].backlog++; sx_progress(); return 1; }
int k_find_accepted(int32_t id) { for (int i = 0; i < k_naccn; i++) if (k_acc[i].id == id) return k_acc[i].fd; return -1; }
void k_peer_send(int fd, const void* p, size_t n) { Kfd& k = kfd[fd]; if (k.inN + n > KCAP) sx_stop(); memcpy(kin[fd] + k.inN, p, n); k.inN += n; sx_progress(); }
void k_peer_fin(int fd) { kfd[fd].fin = 1; sx_progress(); }
void k_peer_rst(int fd) { kfd[fd].rst = 1; kfd[fd].err = ECONNRESET; kfd[fd].inN = 0; sx_progress(); }
size_t k_peer_recv(int fd, void* p, size_t max) { Kfd& k = kfd[fd]; size_t n = (size_t)k.outN < max ? k.outN : max; memcpy(p, kout[fd], n); memmove(kout[fd], kout[fd] + n, k.outN - n); k.outN -= n; return n; }
void k_peer_space(int fd, int n) { kfd[fd].space = n; sx_progress(); }
void k_connect_done(int fd, int err) { Kfd& k = kfd[fd]; if (err) { k.state = S_FAILED; k.err = err; } else k.state = S_CONNECTED; sx_progress(); }
void k_advance_ns(int64_t ns) { m_mono_ns += ns; m_real_ns += ns; sx_progress(); }
void k_advance_ms(int64_t ms) { m_mono_ns += ms * 1000000; m_real_ns += ms * 1000000; sx_progress(); }
uint32_t k_ready(int fd) { Kfd& k = kfd[fd]; uint32_t r = 0;
  switch (k.kind) {
  case K_PIPE_R: if (k.inN) r |= EPOLLIN; if (k.other < 0) r |= EPOLLHUP; break;
  case K_PIPE_W: if (k.other < 0) r |= k.space ? EPOLLERR : EPOLLOUT | EPOLLERR; else if (kfd[k.other].inN < k_pipe_cap) r |= EPOLLOUT; break;
  case K_TIMER: if (k.texp && m_mono_ns >= k.texp) r |= EPOLLIN; break;
  case K_SOCK:
    if (k.state == S_LISTEN) { if (k.backlog) r |= EPOLLIN; break; }
    if (k.state == S_NEW || k.state == S_BOUND) { r |= EPOLLOUT | EPOLLHUP; break; }
    if (k.state == S_CONNECTING) break;
    if (k.state == S_FAILED) { r |= EPOLLIN | EPOLLOUT | EPOLLHUP | EPOLLRDHUP; if (k.err) r |= EPOLLERR; break; }
    if (k.inN || k.fin || k.rst || k.shut) r |= EPOLLIN; if (k.fin || k.rst || k.shut) r |= EPOLLRDHUP; if (k.space > 0 || k.rst || k.shut) r |= EPOLLOUT; if (k.rst || k.shut && k.fin) r |= EPOLLHUP; if (k.err) r |= EPOLLERR; break; }
  return r; }
extern "C" {
int sx_pipe2(int p[2], int flags) { int a = newfd(K_PIPE_R), b = newfd(K_PIPE_W); kfd[a].other = b; kfd[b].other = a; kfd[a].nonblock = kfd[b].nonblock = (flags & O_NONBLOCK) != 0; kfd[a].cloexec = kfd[b].cloexec = (flags & O_CLOEXEC) != 0; p[0] = a; p[1] = b; return 0; }
int sx_pipe(int p[2]) { return sx_pipe2(p, 0); }
int sx_socket(int, int type, int) { if (inject()) return fail(EMFILE); int f = newfd(K_SOCK); kfd[f].nonblock = (type & SOCK_NONBLOCK) != 0; return f; }
int sx_close(int fd) { sx_preempt(); if (!ok(fd)) return -1; Kfd& k = kfd[fd]; if (k.kind == K_PIPE_R || k.kind == K_PIPE_W) { if (k.other >= 0) { kfd[k.other].other = -1; if (k.kind == K_PIPE_R) kfd[k.other].space = k.inN >= k_pipe_cap; } }
  if (k.kind == K_SOCK && k.other >= 0) { if (k.inN) { kfd[k.other].rst = 1; kfd[k.other].err = ECONNRESET; kfd[k.other].inN = 0; } else kfd[k.other].fin = 1; kfd[k.other].other = -1; }
  for (int i = 0; i < KNEP; i++) if (kep[i].used && (kep[i].fd == fd || kep[i].ep == fd)) kep[i].used = 0; if (k.kind == K_SOCK && k.state == S_LISTEN) for (int i = 0; i < k_npend; i++) if (k_pend[i].l == fd) k_pend[i].l = -1; k.kind = K_FREE; k_closed[fd]++; sx_progress(); return 0; }
static ssize_t rd(int fd, const struct iovec* v, int n) { sx_preempt(); if (!ok(fd)) return -1; Kfd& k = kfd[fd]; size_t want = 0; for (int i = 0; i < n; i++) want += v[i].iov_len;
  if (k.kind == K_TIMER) { if (want < 8) return fail(EINVAL); if (!k.texp || m_mono_ns < k.texp) { if (k.nonblock) return fail(EAGAIN); SX_ASSERT(0, "a timer read never blocks"); } uint64_t c = 0; if (k.tint) { while (sx_concrete(m_mono_ns >= k.texp)) { c++; k.texp += k.tint; asm volatile("" ::: "memory"); } } else { c = 1; k.texp = 0; } memcpy(v[0].iov_base, &c, 8); return 8; }
  if (k.kind == K_SOCK) { if (k.state != S_CONNECTED) { if (k.err) { int e = k.err; k.err = 0; return fail(e); } return fail(ENOTCONN); } }
  else if (k.kind != K_PIPE_R) return fail(EBADF);
  if (!want) return 0;
  if (!k.inN) { if (k.rst) { if (k.err) { int e = k.err; k.err = 0; return fail(e); } return 0; } if (k.kind == K_SOCK ? (k.fin || k.shut) : k.other < 0) return 0; if (k.nonblock) return fail(EAGAIN); SX_ASSERT(0, "no descriptor the library reads would block the thread"); }
  size_t m = want < (size_t)k.inN ? want : k.inN; if (k_short_reads > 0 && m > 1) { size_t s = SX_PICK("short read", 0, m - 1); if (s) { k_short_reads--; m -= s; } }
  size_t o = 0; for (int i = 0; i < n && o < m; i++) { size_t c = v[i].iov_len < m - o ? v[i].iov_len : m - o; memcpy(v[i].iov_base, kin[fd] + o, c); o += c; } memmove(kin[fd], kin[fd] + m, k.inN - m); k.inN -= m; sx_progress(); return m; }
static ssize_t wr(int fd, const struct iovec* v, int n) { sx_preempt(); if (!ok(fd)) return -1; Kfd& k = kfd[fd]; size_t want = 0; for (int i = 0; i < n; i++) want += v[i].iov_len; size_t room; uint8_t* d; int32_t* dn; int lim;
  if (k.kind == K_PIPE_W) { if (k.other < 0) { k_sigpipe++; return fail(EPIPE); } room = k_pipe_cap - kfd[k.other].inN; d = kin[k.other]; dn = &kfd[k.other].inN; lim = KCAP; if (want > room && want <= 4096 && want <= (size_t)k_pipe_cap) room = 0; }
  else if (k.kind == K_SOCK) { if (k.rst || k.shut) { if (k.err) { int e = k.err; k.err = 0; return fail(e); } k_sigpipe++; return fail(EPIPE); } if (k.state != S_CONNECTED) { if (k.err) { int e = k.err; k.err = 0; return fail(e); } if (k.state == S_CONNECTING) return fail(EAGAIN); k_sigpipe++; return fail(EPIPE); } room = k.space; d = kout[fd]; dn = &k.outN; lim = KCAP; }
  else return fail(EBADF);
  if (k.kind == K_SOCK && k.other >= 0) { room = KCAP - kfd[k.other].inN; if (room > (size_t)k.space) room = k.space; d = kin[k.other]; dn = &kfd[k.other].inN; }
  if (!want) return 0; if (!room) { if (k.nonblock) return fail(EAGAIN); SX_ASSERT(0, "no descriptor the library writes would block the thread"); }
  size_t m = want < room ? want : room; if (*dn + m > (size_t)lim) sx_stop(); size_t o = 0; for (int i = 0; i < n && o < m; i++) { size_t c = v[i].iov_len < m - o ? v[i].iov_len : m - o; memcpy(d + *dn + o, v[i].iov_base, c); o += c; } *dn += m; if (k.kind == K_SOCK && k.other < 0) k.space -= m; sx_progress(); return m; }
ssize_t sx_read(int fd, void* p, size_t n) { struct iovec v = {p, n}; return rd(fd, &v, 1); }
ssize_t sx_write(int fd, const void* p, size_t n) { struct iovec v = {(void*)p, n}; return wr(fd, &v, 1); }
ssize_t sx_readv(int fd, const struct iovec* v, int n) { return rd(fd, v, n); }
ssize_t sx_writev(int fd, const struct iovec* v, int n) { return wr(fd, v, n); }
ssize_t sx_recv(int fd, void* p, size_t n, int) { struct iovec v = {p, n}; return rd(fd, &v, 1); }
ssize_t sx_send(int fd, const void* p, size_t n, int) { struct iovec v = {(void*)p, n}; return wr(fd, &v, 1); }
int sx_fcntl(int fd, int cmd, long arg) { if (!ok(fd)) return -1; if (k_fcntl_fail || inject()) return fail(EINVAL); Kfd& k = kfd[fd]; switch (cmd) { case F_GETFL: return O_RDWR | (k.nonblock ? O_NONBLOCK : 0); case F_SETFL: k.nonblock = (arg & O_NONBLOCK) != 0; return 0; case F_GETFD: return k.cloexec ? FD_CLOEXEC : 0; case F_SETFD: k.cloexec = (arg & FD_CLOEXEC) != 0; return 0; } return fail(EINVAL); }
int sx_bind(int fd, const struct sockaddr* a, socklen_t) { if (!ok(fd)) return -1; if (inject()) return fail(EACCES); const struct sockaddr_in* s = (const struct sockaddr_in*)a; if (s->sin_port) for (int i = KF; i < KNFD; i++) if (i != fd && kfd[i].kind == K_SOCK && (kfd[i].state == S_BOUND || kfd[i].state == S_LISTEN) && kfd[i].local.sin_port == s->sin_port && !(kfd[i].reuse && kfd[fd].reuse)) return fail(EADDRINUSE); kfd[fd].local = *s; if (!s->sin_port) kfd[fd].local.sin_port = __builtin_bswap16(k_nextport++); kfd[fd].state = S_BOUND; return 0; }
int sx_listen(int fd, int) { if (!ok(fd)) return -1; if (inject()) return fail(EADDRINUSE); kfd[fd].state = S_LISTEN; sx_progress(); return 0; }
int sx_accept(int fd, struct sockaddr* a, socklen_t* l) { sx_preempt(); if (!ok(fd)) return -1; Kfd& k = kfd[fd]; if (k.kind != K_SOCK || k.state != S_LISTEN) return fail(EINVAL); if (inject()) return fail(ECONNABORTED); if (k_accept_err) { int e = k_accept_err; k_accept_err = 0; return fail(e); } int p = -1; for (int i = 0; i < k_npend; i++) if (k_pend[i].l == fd) { p = i; break; } if (p < 0) { if (k.nonblock) return fail(EAGAIN); SX_ASSERT(0, "accept never blocks the thread"); }
  int f = newfd(K_SOCK); kfd[f].state = S_CONNECTED; kfd[f].local = k.local; name(kfd[f].peer, 0x0a000001, 50000 + k_pend[p].id); int c = k_pend[p].cfd; if (c >= 0) { kfd[f].peer = kfd[c].local; kfd[f].other = c; kfd[c].other = f; memcpy(kin[f], kout[c], kfd[c].outN); kfd[f].inN = kfd[c].outN; kfd[c].outN = 0; kfd[c].space = k_default_space; } k_acc[k_naccn].id = k_pend[p].id; k_acc[k_naccn++].fd = f; k_pend[p].l = -1; k.backlog--; if (a) { memcpy(a, &kfd[f].peer, sizeof(struct sockaddr_in)); *l = sizeof(struct sockaddr_in); } return f; }
int sx_connect(int fd, const struct sockaddr* a, socklen_t) { if (!ok(fd)) return -1; Kfd& k = kfd[fd]; k.peer = *(const struct sockaddr_in*)a; if (!k.local.sin_port) name(k.local, 0x7f000001, k_nextport++); if (inject()) return fail(ENETUNREACH); for (int i = KF; i < KNFD; i++) if (kfd[i].kind == K_SOCK && kfd[i].state == S_LISTEN && kfd[i].local.sin_port == k.peer.sin_port) { k.state = S_CONNECTED; k_pend[k_npend].l = i; k_pend[k_npend].cfd = fd; k_pend[k_npend++].id = 1000 + fd; kfd[i].backlog++; sx_progress(); if (k.nonblock) return fail(EINPROGRESS); return 0; }
  if (k_connect_errno > 0) { k.state = S_NEW; return fail(k_connect_errno); } if (k_connect_errno < 0) { k.state = S_CONNECTED; return 0; } k.state = S_CONNECTING; SX_ASSERT(k.nonblock, "connect never blocks the thread"); return fail(EINPROGRESS); }
int sx_shutdown(int fd, int) { if (!ok(fd)) return -1; if (kfd[fd].state != S_CONNECTED || kfd[fd].rst) return fail(ENOTCONN); kfd[fd].shut = 1; if (kfd[fd].other >= 0) kfd[kfd[fd].other].fin = 1; sx_progress(); return 0; }
int sx_setsockopt(int fd, int lv, int op, const void* v, socklen_t) { if (!ok(fd)) return -1; if (lv == SOL_SOCKET && (op == SO_REUSEADDR || op == SO_REUSEPORT)) kfd[fd].reuse = *(const int*)v != 0; if (lv == SOL_SOCKET && op == SO_LINGER) k_linger = *(const struct linger*)v; if (lv == IPPROTO_TCP && op == TCP_NODELAY) kfd[fd].nodelay = *(const int*)v != 0; if (lv == SOL_SOCKET && op == SO_KEEPALIVE) kfd[fd].keepalive = *(const int*)v != 0; return 0; }
int sx_getsockopt(int fd, int, int op, void* v, socklen_t* l) { if (!ok(fd)) return -1; *(int*)v = kfd[fd].err; if (op == SO_ERROR) kfd[fd].err = 0; *l = sizeof(int); return 0; }
int sx_getsockname(int fd, struct sockaddr* a, socklen_t* l) { if (!ok(fd)) return -1; if (inject()) return fail(ENOBUFS); if (kfd[fd].kind != K_SOCK) return fail(ENOTSOCK); memcpy(a, &kfd[fd].local, sizeof(struct sockaddr_in)); *l = sizeof(struct sockaddr_in); return 0; }
int sx_getpeername(int fd, struct sockaddr* a, socklen_t* l) { if (!ok(fd)) return -1; if (kfd[fd].kind != K_SOCK) return fail(ENOTSOCK); if (kfd[fd].state != S_CONNECTED || kfd[fd].rst) return fail(ENOTCONN); memcpy(a, &kfd[fd].peer, sizeof(struct sockaddr_in)); *l = sizeof(struct sockaddr_in); return 0; }
int sx_epoll_create1(int) { return newfd(K_EPOLL); }
int sx_epoll_ctl(int ep, int op, int fd, struct epoll_event* e) { sx_preempt(); if (!ok(ep)) return -1; if (fd < KF || fd >= KNFD || kfd[fd].kind == K_FREE) { if (!k_tolerate_bad) SX_ASSERT(0, "no epoll registration for a descriptor that is not open"); k_bad++; return fail(EBADF); }
  int at = -1, fr = -1; for (int i = KNEP - 1; i >= 0; i--) { if (kep[i].used && kep[i].ep == ep && kep[i].fd == fd) at = i; if (!kep[i].used) fr = i; }
  if (op == EPOLL_CTL_ADD) { if (at >= 0) return fail(EEXIST); if (fr < 0) sx_stop(); kep[fr].used = 1; kep[fr].ep = ep; kep[fr].fd = fd; kep[fr].events = e->events; kep[fr].data = e->data.u64; }
  else { if (at < 0) return fail(ENOENT); if (op == EPOLL_CTL_MOD) { kep[at].events = e->events; kep[at].data = e->data.u64; } else kep[at].used = 0; }
  sx_progress(); return 0; }
int sx_epoll_wait(int ep, struct epoll_event* ev, int max, int timeout) { sx_preempt(); if (!ok(ep)) return -1; k_idle_poll = !k_moved[ep]; k_moved[ep] = 0; if (k_on_poll) k_on_poll(ep, timeout != 0);
  if (k_eintr > 0 && SX_PICK("epoll_wait interrupted", 0, 1)) { k_eintr--; return fail(EINTR); }
  for (;;) { int n = 0; if (k_max_events < max) max = k_max_events; for (int j = 0; j < KNEP && n < max; j++) { int i = k_order ? KNEP - 1 - j : j; if (!kep[i].used || kep[i].ep != ep) continue; uint32_t r = (k_ready(kep[i].fd) | (kep[i].fd == k_spurious && k_spurious ? (uint32_t)k_spurious_ev : 0)) & (kep[i].events | EPOLLERR | EPOLLHUP); if (!r) continue; ev[n].events = r; ev[n].data.u64 = kep[i].data; n++; }
    if (n || timeout == 0) return n; sx_block(); if (!ok(ep)) return -1; } }
// waiting for one descriptor; k_on_wait may change the world or end the wait (returns 1: timed out, 2: interrupted)
static int waitfor(int fd, uint32_t want, int64_t us, bool zero, bool limit, uint32_t& got) { sx_preempt(); k_wait_us = us; for (;;) { if (!ok(fd)) return -1; got = k_ready(fd) & (want | EPOLLERR | EPOLLHUP); if (got) return 1; if (zero) return 0; int r = k_on_wait ? k_on_wait(fd) : 0; if (r == 1) { SX_ASSERT(limit, "an unlimited wait does not time out"); return 0; } if (r == 2) return fail(EINTR); if (r == 0) sx_block(); } }
int sx_select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv) { SX_ASSERT(n >= 0 && n <= FD_SETSIZE, "select handles descriptors below FD_SETSIZE"); int fd = -1; for (int i = 0; i < n; i++) if (r && FD_ISSET(i, r) || w && FD_ISSET(i, w) || e && FD_ISSET(i, e)) { SX_ASSERT(fd < 0, "model: one descriptor per select"); fd = i; } if (fd < 0) SX_ASSERT(0, "model: one descriptor per select");
  if (tv && (tv->tv_sec < 0 || tv->tv_usec < 0)) return fail(EINVAL); bool wr = r && FD_ISSET(fd, r), ww = w && FD_ISSET(fd, w), we = e && FD_ISSET(fd, e); uint32_t got = 0; int x = waitfor(fd, (wr ? EPOLLIN : 0) | (ww ? EPOLLOUT : 0), tv ? (int64_t)tv->tv_sec * 1000000 + tv->tv_usec : -1, tv && !tv->tv_sec && !tv->tv_usec, tv, got); if (x < 0) return -1; if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (e) FD_ZERO(e); int c = 0; if (x) { if (wr && got & (EPOLLIN | EPOLLERR | EPOLLHUP)) { FD_SET(fd, r); c++; } if (ww && got & (EPOLLOUT | EPOLLERR)) { FD_SET(fd, w); c++; } (void)we; } return c; }
int sx_poll(struct pollfd* p, nfds_t n, int ms) { SX_ASSERT(n == 1, "model: one descriptor per poll"); uint32_t got = 0; int x = waitfor(p->fd, p->events, ms < 0 ? -1 : (int64_t)ms * 1000, ms == 0, ms >= 0, got); if (x < 0) return -1; p->revents = x ? got : 0; return x; }
int sx_timerfd_create(int, int flags) { int f = newfd(K_TIMER); kfd[f].nonblock = (flags & TFD_NONBLOCK) != 0; return f; }
int sx_timerfd_settime(int fd, int flags, const struct itimerspec* v, struct itimerspec*) { if (!ok(fd)) return -1; if (v->it_value.tv_sec < 0 || v->it_interval.tv_sec < 0 || v->it_value.tv_nsec < 0 || v->it_value.tv_nsec > 999999999 || v->it_interval.tv_nsec < 0 || v->it_interval.tv_nsec > 999999999) return fail(EINVAL); int64_t t = v->it_value.tv_sec * 1000000000ll + v->it_value.tv_nsec; kfd[fd].texp = t ? (flags & TFD_TIMER_ABSTIME ? t : m_mono_ns + t) : 0; kfd[fd].tint = v->it_interval.tv_sec * 1000000000ll + v->it_interval.tv_nsec; return 0; }
// dotted quads (decided separately against this definition)
int k_ntop_skip = 0; const char* sx_inet_ntop(int af, const void* src, char* dst, socklen_t size) { if (k_ntop_skip) { dst[0] = 0; return dst; } if (af != AF_INET) { errno = EAFNOSUPPORT; return 0; } const uint8_t* a = (const uint8_t*)src; char t[16]; int n = 0; for (int i = 0; i < 4; i++) { unsigned v = a[i]; if (v >= 100) t[n++] = '0' + v / 100; if (v >= 10) t[n++] = '0' + v / 10 % 10; t[n++] = '0' + v % 10; t[n++] = i < 3 ? '.' : 0; } if ((socklen_t)n > size) { errno = ENOSPC; return 0; } memcpy(dst, t, n); return dst; }
int sx_inet_pton(int af, const char* s, void* dst) { if (af != AF_INET) { errno = EAFNOSUPPORT; return -1; } uint8_t o[4]; int i = 0; for (;;) { int v = 0, d = 0; while (*s >= '0' && *s <= '9') { if (d && v == 0) return 0; v = v * 10 + (*s++ - '0'); d++; if (v > 255 || d > 3) return 0; } if (!d) return 0; o[i++] = v; if (i == 4) break; if (*s++ != '.') return 0; } if (*s) return 0; memcpy(dst, o, 4); return 1; }
}
