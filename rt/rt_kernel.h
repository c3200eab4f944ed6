// Kernel model: descriptors, pipes, TCP sockets, epoll, timerfd. The k_* functions are the harness side (the peer, the network).
#pragma once
#include "sx.h"
#include "rt_clock.h"
#include <sys/types.h>
#include <netinet/in.h>
#ifndef KNFD
#define KNFD 24
#endif
#ifndef KCAP
#define KCAP 48
#endif
enum { KF = 3 };                                        // first descriptor handed out
enum { K_FREE = 0, K_PIPE_R, K_PIPE_W, K_SOCK, K_EPOLL, K_TIMER };
enum { S_NEW = 0, S_BOUND, S_LISTEN, S_CONNECTING, S_CONNECTED, S_FAILED };
struct Kfd { uint8_t kind, nonblock, cloexec, state, fin /*peer sent FIN*/, rst, shut /*we shut down*/, reuse, nodelay, keepalive; int32_t other /*pipe peer*/, err /*SO_ERROR*/, inN, outN, space /*room in the send buffer*/, backlog, gen; int64_t texp, tint; struct sockaddr_in local, peer; };
extern Kfd kfd[KNFD]; extern uint8_t kin[KNFD][KCAP], kout[KNFD][KCAP];
struct Kep { uint8_t used; int32_t ep, fd; uint32_t events; uint64_t data; };
enum { KNEP = 24 };
extern Kep kep[KNEP];
extern int k_pipe_cap, k_default_space, k_eintr, k_short_reads, k_order; // knobs
extern int k_connect_errno;      // 0: connect in progress; >0: connect fails at once; -1: succeeds at once
extern int k_spurious, k_spurious_ev;   // epoll reports this descriptor ready for these events although it is not
extern int64_t k_wait_us; extern struct linger k_linger; extern int (*k_on_wait)(int); extern int k_first;   // select/poll: wait in us (-1: no limit); lowest descriptor handed out
extern int k_idle_poll;           // in k_on_poll: nothing has changed since this loop polled last
extern int k_bad;                // uses of descriptors that are not open (EBADF), when k_tolerate_bad
extern int k_tolerate_bad, k_fail_nth; extern int k_max_events; extern int k_accept_err; extern int k_fcntl_fail;
extern void (*k_on_poll)(int epfd, int block); extern int k_closed[KNFD]; extern int k_sigpipe;
int k_open_count(void);          // open descriptors
int k_connected(uint32_t ip, uint16_t port); // a socket as accept() would return it (already open)
int k_incoming(int lfd, int32_t id);           // a client connects to a listening socket; returns 0 if refused
void k_peer_send(int fd, const void* p, size_t n); // peer -> library
void k_peer_fin(int fd); void k_peer_rst(int fd);
size_t k_peer_recv(int fd, void* p, size_t max);   // peer consumes what the library wrote (all in order)
void k_peer_space(int fd, int n);                  // set room in the send buffer
void k_connect_done(int fd, int err);
void k_advance_ms(int64_t ms); void k_advance_ns(int64_t ns);
uint32_t k_ready(int fd);                          // EPOLL* readiness of a descriptor
int k_find_accepted(int32_t id);                   // fd given to the accepted connection id or -1
