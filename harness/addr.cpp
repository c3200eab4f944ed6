// C07 addresses; C33 socket helpers: byte order, options, name resolution, connection test
#include "hutil.h"
#include <errno.h>
#include <netdb.h>
#include <fcntl.h>
#include <cy_core.h>
#include <cy_network.h>
#include "rt_kernel.h"
using namespace cyclone;
static struct sockaddr_in any_sa(const char* n) { struct sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; sx_bytes(&s.sin_addr, 4, n); sx_bytes(&s.sin_port, 2, "port"); return s; }
static bool same(const struct sockaddr_in& a, const struct sockaddr_in& b) { return a.sin_family == b.sin_family && a.sin_port == b.sin_port && a.sin_addr.s_addr == b.sin_addr.s_addr; }
static unsigned portof(const struct sockaddr_in& s) { const uint8_t* p = (const uint8_t*)&s.sin_port; return p[0] * 256u + p[1]; }
// the text is the dotted decimal form of the four octets
static void check_text(const char* t, const struct sockaddr_in& s) { const uint8_t* p = (const uint8_t*)&s.sin_addr; size_t o = 0; bool ok = true; for (int i = 0; i < 4; i++) { unsigned v = p[i]; if (v >= 100) { ok &= t[o] == (char)('0' + v / 100); o++; } if (v >= 10) { ok &= t[o] == (char)('0' + v / 10 % 10); o++; } ok &= t[o] == (char)('0' + v % 10); o++; ok &= t[o] == (i < 3 ? '.' : 0); o++; } SX_ASSERT(ok, "the text form is the dotted decimal form"); }
static void check(const Address& a, const struct sockaddr_in& s) { SX_ASSERT(same(a.get_sockaddr_in(), s), "an address keeps its ip and port"); SX_ASSERT(a.get_port() == portof(s), "an address keeps its ip and port"); }
static void alike(const Address& a, const Address& b) { SX_ASSERT(a == b && b == a && !(a < b) && !(b < a), "copies are equal"); SX_ASSERT(std::hash<Address>()(a) == std::hash<Address>()(b), "equal addresses have equal hashes"); SX_ASSERT(!strcmp(a.get_ip(), b.get_ip()), "copies are equal"); }
HARNESS h_text() { struct sockaddr_in s = any_sa("ip"); Address a(s); check(a, s); check_text(a.get_ip(), s); Address b(a.get_ip(), a.get_port()); check(b, s); check_text(b.get_ip(), s); Address c(a), d; d = b; check(c, s); check(d, s); alike(a, b); alike(a, c); alike(a, d); alike(c, d); sx_observe(a.get_port()); sx_reach("end"); }
// assignment and copying over memory that held something else
HARNESS h_assign() { struct sockaddr_in s = any_sa("ip"); Address a(s); unsigned k = SX_PICK("before", 0, 3); Address b = k == 0 ? Address() : k == 1 ? Address("255.255.255.255", (uint16_t)65535) : k == 2 ? Address("192.168.10.2", (uint16_t)1) : Address((uint16_t)7, true); b = a; check(b, s); check_text(b.get_ip(), s); alike(a, b); Address& self = b; b = self; check(b, s); check_text(b.get_ip(), s); static uint64_t mem[(sizeof(Address) + 7) / 8]; memset(mem, 0x37, sizeof mem); asm volatile("" ::: "memory"); Address& c = *new (mem) Address(b); check(c, s); check_text(c.get_ip(), s); alike(a, c); sx_reach("end"); }
HARNESS h_port() { uint16_t port = sx_sym("port", 16); bool lo = SX_PICK("loopback", 0, 1); Address a(port, lo); SX_ASSERT(a.get_port() == port, "an address keeps its ip and port"); SX_ASSERT(!strcmp(a.get_ip(), lo ? "127.0.0.1" : "0.0.0.0"), "loopback and any addresses"); SX_ASSERT(a.get_sockaddr_in().sin_family == AF_INET, "an address keeps its ip and port"); Address b(lo ? "127.0.0.1" : "0.0.0.0", port); alike(a, b); sx_observe(Address::hash_value(a.get_sockaddr_in())); sx_reach("end"); }
extern int k_ntop_skip;
HARNESS h_order() { k_ntop_skip = 1; struct sockaddr_in s[3]; for (int i = 0; i < 3; i++) s[i] = any_sa("ip"); Address x(s[0]), y(s[1]), z(s[2]); bool eq = s[0].sin_addr.s_addr == s[1].sin_addr.s_addr & s[0].sin_port == s[1].sin_port; bool e = x == y, l = x < y, g = y < x; SX_ASSERT(e == eq, "addresses are equal exactly if ip and port are"); SX_ASSERT(e + l + g == 1, "of two addresses one is smaller unless they are equal"); bool a = x < y, b = y < z, c = x < z; SX_ASSERT(!(a & b) | c, "the order is transitive"); if (e) SX_ASSERT(std::hash<Address>()(x) == std::hash<Address>()(y), "equal addresses have equal hashes"); SX_ASSERT(!(x < x) && x == x, "an address equals itself"); sx_reach("end"); }
HARNESS h_fd() { k_default_space = 8; int k = SX_PICK("socket", 0, 4); bool peer = SX_PICK("peer", 0, 1); uint32_t ip = SX_PICK("ip", 0, 1) ? 0x0a0b0cff : 0xff000001; int fd = k_connected(ip, 65535); struct sockaddr_in zero; memset(&zero, 0, sizeof zero); if (k == 1) kfd[fd].state = S_NEW; if (k == 2) k_peer_rst(fd); if (k == 3) { kfd[fd].kind = K_PIPE_R; } if (k == 4) k_fail_nth = 1;
  static uint64_t mem[(sizeof(Address) + 7) / 8]; sx_bytes(mem, sizeof mem, "memory before"); asm volatile("" ::: "memory"); Address& a = *new (mem) Address(peer, fd); bool ok = peer ? k == 0 || k == 4 : k < 3; if (ok) { check(a, peer ? kfd[fd].peer : kfd[fd].local); check_text(a.get_ip(), a.get_sockaddr_in()); sx_reach("end"); } else { SX_ASSERT(a.get_port() == 0 && a.get_sockaddr_in().sin_addr.s_addr == 0 && !strcmp(a.get_ip(), "0.0.0.0"), "without a name the address is the empty one"); Address n; SX_ASSERT(a == n, "without a name the address is the empty one"); sx_reach("none"); } }
// ---- C33 ----
HARNESS h_bytes() { uint32_t x = sx_sym("x", 32); uint8_t b[4]; memcpy(b, &x, 4); SX_ASSERT(socket_api::ntoh_32(x) == ((uint32_t)b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3]), "network byte order"); uint16_t y = (uint16_t)x; SX_ASSERT(socket_api::ntoh_16(y) == (b[0] << 8 | b[1]), "network byte order"); SX_ASSERT(socket_api::ntoh_32(socket_api::ntoh_32(x)) == x, "network byte order"); sx_reach("end"); }
HARNESS h_options() { int s = socket_api::create_socket(); SX_ASSERT(s >= 0, "a socket is created"); Kfd& k = kfd[s]; bool nb = 0, ce = 0, nd = 0, ka = 0, ru = 0; for (int i = 0; i < 3; i++) { bool on = SX_PICK("on", 0, 1), r = true; switch (SX_PICK("option", 0, 4)) { case 0: r = socket_api::set_nonblock(s, on); nb = on; break; case 1: r = socket_api::set_close_onexec(s, on); ce = on; break; case 2: r = socket_api::set_nodelay(s, on); nd = on; break; case 3: r = socket_api::set_keep_alive(s, on); ka = on; break; case 4: r = socket_api::set_reuse_addr(s, on); ru = on; break; } SX_ASSERT(r, "an option can be set"); SX_ASSERT(k.nonblock == nb && k.cloexec == ce && k.nodelay == nd && k.keepalive == ka && k.reuse == ru, "an option is set as asked and no other"); } { bool on = SX_PICK("linger", 0, 1); uint16_t lt = sx_sym("linger time", 16); SX_ASSERT(socket_api::set_linger(s, on, lt) && (k_linger.l_onoff != 0) == on && (!on || k_linger.l_linger == lt), "an option is set as asked and no other"); } k_fcntl_fail = 1; SX_ASSERT(!socket_api::set_nonblock(s, !nb) && !socket_api::set_close_onexec(s, !ce), "a failing option is reported"); socket_api::close_socket(s); SX_ASSERT(k_open_count() == 0, "a closed socket is closed"); sx_reach("end"); }
static struct addrinfo g_ai[3]; static struct sockaddr_in g_sa[3]; static int g_n, g_freed, g_gai, g_err; static const char* g_host;
extern "C" int sx_getaddrinfo(const char* h, const char* s, const struct addrinfo* hints, struct addrinfo** r) { g_gai++; g_host = h; SX_ASSERT(!s && hints && (hints->ai_family == AF_UNSPEC || hints->ai_family == AF_INET) && (hints->ai_flags & AI_NUMERICHOST) == 0, "the name is looked up"); if (g_err) return EAI_NONAME; *r = nullptr; int f = hints->ai_family; for (int i = g_n - 1; i >= 0; i--) if (f == AF_UNSPEC || g_ai[i].ai_family == f) { g_ai[i].ai_next = *r; *r = &g_ai[i]; } return *r ? 0 : EAI_NODATA; }
extern "C" void sx_freeaddrinfo(struct addrinfo* r) { SX_ASSERT(r && !g_err, "only a result is released"); g_freed++; for (int i = 0; i < 3; i++) { g_ai[i].ai_addr = nullptr; g_ai[i].ai_next = nullptr; } }
HARNESS h_resolve() { g_n = SX_PICK("results", 0, 3); g_err = SX_PICK("error", 0, 1); int first = -1; uint32_t want = 0; for (int i = 0; i < g_n; i++) { g_sa[i] = any_sa("result"); g_ai[i].ai_family = SX_PICK("family", 0, 1) ? AF_INET : AF_INET6; g_ai[i].ai_addr = (struct sockaddr*)&g_sa[i]; g_ai[i].ai_addrlen = sizeof g_sa[i]; if (first < 0 && g_ai[i].ai_family == AF_INET) { first = i; want = g_sa[i].sin_addr.s_addr; } } struct sockaddr_in a = any_sa("before"), b = a; bool ok = socket_api::resolve_hostname("some.host", a);
  SX_ASSERT(g_gai == 1 && !strcmp(g_host, "some.host"), "the name is looked up"); SX_ASSERT(ok == (!g_err && first >= 0), "a name resolves exactly if it has an IPv4 address"); if (ok) { SX_ASSERT(a.sin_addr.s_addr == want, "a name resolves to its first IPv4 address"); sx_reach("end"); } SX_ASSERT(a.sin_port == b.sin_port && a.sin_family == b.sin_family, "resolving changes the ip only"); if (!ok) SX_ASSERT(a.sin_addr.s_addr == b.sin_addr.s_addr, "a failed resolution changes nothing"); SX_ASSERT(g_freed == (!g_err && g_n > 0 ? 1 : 0), "the result is released once"); }
static int g_how, g_ms;
static int on_wait(int fd) { if (g_how == 1) { k_connect_done(fd, 0); return 3; } if (g_how == 2) { k_connect_done(fd, ECONNREFUSED); return 3; } if (g_how == 3) { k_connect_done(fd, ETIMEDOUT); return 3; } return 1; }
HARNESS h_check() { k_first = SX_PICK("many open descriptors", 0, 2); k_first = k_first == 0 ? KF : k_first == 1 ? 1023 : 1024 + SX_PICK("and more", 0, 1) * 60; k_on_wait = on_wait; int now = SX_PICK("at once", 0, 3); g_how = SX_PICK("later", 1, 4); int32_t ms = (int32_t)sx_sym("ms", 32); if (g_how == 4) sx_assume(ms >= 0); k_connect_errno = now == 0 ? 0 : now == 1 ? -1 : now == 2 ? ENETUNREACH : 0; bool nofd = false; if (now == 3) { k_fail_nth = SX_PICK("failing call", 1, 3); nofd = true; } struct sockaddr_in s = any_sa("ip"); sx_assume(s.sin_port != 0);
  bool r = socket_api::check_connect(s, ms); bool pend = now == 0; bool want = now == 1 || pend && g_how == 1; if (pend && sx_concrete(ms == 0)) want = false; if (now != 3) SX_ASSERT(r == want, "the answer is whether the connection came about in time"); else SX_ASSERT(!r, "a failing call is not a connection"); SX_ASSERT(k_open_count() == 0, "nothing is left open"); if (pend) { SX_ASSERT(k_wait_us == (ms < 0 ? -1 : (int64_t)ms * 1000), "the wait is as long as asked"); sx_reach("waited"); } sx_reach("end"); }
