// C08 logger
#include "hutil.h"
#include <cy_core.h>
#include <string>
#include "rt_model.h"
#include "rt_clock.h"
#include "rt_log.h"
using namespace cyclone;
extern int (*m_on_vsn)(); static int vsn() { return l_vsn_fail > 0 ? (l_vsn_fail--, 1) : 0; }
static const char* const LN[6] = {"[T]", "[D]", "[I]", "[W]", "[E]", "[F]"};
static char g_want[3][LCAP]; static size_t g_wn[3];    // expected contents of standard output, standard error and the log file
static void line(int k, int level, const char* text, size_t n) { static const char TM[] = "2026_11_19-01:02:03 "; char* w = g_want[k]; size_t& o = g_wn[k]; for (const char* p = TM; *p; p++) w[o++] = *p; for (int i = 0; i < 3; i++) w[o++] = LN[level][i]; for (const char* p = " [<UNNAME>] "; *p; p++) w[o++] = *p; for (size_t i = 0; i < n; i++) w[o++] = text[i]; w[o++] = '\n'; }
static void same(int k, const LogFile* f, const char* msg) { size_t n = f ? f->n : 0; SX_ASSERT(n == g_wn[k], msg); bool ok = true; for (size_t i = 0; i < n && i < g_wn[k]; i++) ok = ok & (f->d[i] == g_want[k][i]); SX_ASSERT(ok, msg); }
static void check(const char* file) { int i = l_find(file); same(2, i < 0 ? 0 : &l_file[i], "every accepted message is one whole line of the log file, no other is"); same(0, &l_file[0], "every accepted message is one whole line of standard output or error"); same(1, &l_file[1], "every accepted message is one whole line of standard output or error"); SX_ASSERT(l_left_open == 0, "the log file is closed again"); }
static void expect(int level, const char* t, size_t n) { line(2, level, t, n); line(level >= L_ERROR ? 1 : 0, level, t, n); }
// levels, thresholds, texts, missing directories and files that cannot be opened
static void text(char* t, int n) { for (int i = 0; i < n; i++) t[i] = (char)sx_range("char", 1, 255); t[n] = 0; }
HARNESS h_log() { sx_step_limit(2000000); SX_ASSERT(set_log_filename("dir", "file"), "a path and a name are accepted"); size_t live = sx_heap_live(); l_dir = SX_PICK("directory there", 0, 1); l_mkdir_fail = l_dir ? 0 : SX_PICK("mkdir fails", 0, 1); int thr = L_DEBUG; 
  for (int k = 0; k < 2; k++) { if (SX_PICK("set threshold", 0, 1)) { thr = (int)sx_range("threshold", 0, 6); set_log_threshold((LOG_LEVEL)thr); } int lv = SX_PICK("level", 0, 5); char t[8]; int n = k ? SX_PICK("length", 0, 1) * 2 : SX_PICK("length", 0, 3); text(t, n); l_open_fail = k == 1 ? SX_PICK("open fails", 0, 2) : 0; bool dir = l_dir || !l_mkdir_fail; int was = l_open_fail; disk_log((LOG_LEVEL)lv, "%s", t); if (lv >= thr && dir) { bool out = was == 0; LogFile* f = &l_file[lv >= L_ERROR]; int w = lv >= L_ERROR; if (was && f->n > g_wn[w]) out = true; if (out) expect(lv, t, n); } l_open_fail = 0; SX_ASSERT(sx_heap_live() <= live, "a message leaves nothing behind"); if (l_mkdir_fail && k == 0) l_mkdir_fail = SX_PICK("mkdir still fails", 0, 1); }
  check("dir/file"); sx_observe(g_wn[2]); sx_reach("end"); }
// a message that cannot be written does not take earlier ones with it
HARNESS h_full() { sx_step_limit(2000000); set_log_filename("dir/", "file"); for (int k = 0; k < 3; k++) { char t[3]; text(t, 2); if (k == 1) { l_open_fail = SX_PICK("open fails", 1, 3); size_t n0 = l_file[0].n; disk_log(L_WARN, "%c%c", t[0], t[1]); l_open_fail = 0; int i = l_find("dir/file"); SX_ASSERT(i >= 0 && l_file[i].n >= g_wn[2], "a message that cannot be written does not take earlier ones with it"); if (l_file[i].n > g_wn[2]) line(2, L_WARN, t, 2); if (l_file[0].n > n0) line(0, L_WARN, t, 2); } else { disk_log(L_WARN, "%c%c", t[0], t[1]); expect(L_WARN, t, 2); } check("dir/file"); } sx_reach("end"); }
// lengths around the internal buffer
HARNESS h_long() { sx_step_limit(40000000); set_log_filename("/x/", "f"); disk_log(L_INFO, "%s", "a"); expect(L_INFO, "a", 1); size_t live = sx_heap_live(); static const int NS[10] = {0, 1, 2045, 2046, 2047, 2048, 2049, 2050, 4096, 5001}; size_t n = NS[SX_PICK("length", 0, 9)]; static char t[5100]; for (size_t i = 0; i < n; i++) t[i] = 'a' + i % 26; if (n) { t[0] = (char)sx_range("char", 1, 255); t[n - 1] = (char)sx_range("char", 1, 255); } int form = SX_PICK("form", 0, 2); l_vsn_fail = SX_PICK("formatting fails once", 0, 1); m_on_vsn = vsn; 
  if (form == 0) disk_log(L_INFO, "%s", t); else if (form == 1) { int v = (int)sx_pick("v", 0, 2) * 61 - 61; disk_log(L_INFO, "%s=%d%%%c%s", t, v, 'x', "yz"); t[n++] = '='; const char* q = v < 0 ? "-61" : v ? "61" : "0"; while (*q) t[n++] = *q++; for (const char* p = "%xyz"; *p; p++) t[n++] = *p; } else { for (size_t i = 0; i < n; i++) if (i == 0 || i == n - 1) sx_assume(t[i] != '%'); disk_log(L_INFO, t); }
  expect(L_INFO, t, n); check("/x/f"); SX_ASSERT(sx_heap_live() <= live, "a message leaves nothing behind"); m_on_vsn = 0; sx_reach("end"); }
// formatting fails altogether: the next message is unharmed
HARNESS h_bad() { sx_step_limit(4000000); set_log_filename("/x/", "f"); l_vsn_fail = 2; m_on_vsn = vsn; disk_log(L_INFO, "%s", "bad"); m_on_vsn = 0; int i = l_find("/x/f"); for (int k = 0; k < 3; k++) { LogFile* f = k == 2 ? (i < 0 ? 0 : &l_file[i]) : &l_file[k]; if (f && f->n) { SX_ASSERT(f->d[f->n - 1] == '\n', "every accepted message is one whole line of the log file, no other is"); for (size_t j = 0; j < f->n; j++) g_want[k][j] = f->d[j]; g_wn[k] = f->n; } } disk_log(L_ERROR, "%s", "good"); expect(L_ERROR, "good", 4); check("/x/f"); sx_reach("end"); }
// file names
HARNESS h_name() { sx_step_limit(2000000); static const char* const P[7] = {0, "", "a", "a/", "/", "b\\", "./c/d"}; static const char* const N[4] = {0, "", "f", "g.log"}; std::string cur = get_log_filename(); for (int k = 0; k < 2; k++) { int p = SX_PICK("path", 0, 6), n = SX_PICK("name", 0, 3); bool ok = set_log_filename(P[p], N[n]); SX_ASSERT(ok == (p > 1 && n > 1), "a path and a name are accepted, nothing else"); if (ok) { cur = P[p]; char e = cur[cur.size() - 1]; if (e != '/' && e != '\\') cur += '/'; cur += N[n]; } SX_ASSERT(cur == get_log_filename(), "the log file name is the path, a separator and the name"); } l_dir = 0; disk_log(L_INFO, "%s", "m"); int i = l_find(cur.c_str()); SX_ASSERT(i >= 0 && l_file[i].n > 0, "a message goes to the current log file"); SX_ASSERT(l_mkdirs == 1 && cur.compare(0, strlen(l_dirname), l_dirname) == 0, "the directory of the log file is made if it is missing"); sx_reach("end"); }
// the default name, for any process and host name
HARNESS h_default() { sx_step_limit(4000000); static const int PL[8] = {1, 5, 30, 31, 32, 33, 40, 254}; static const int DL[5] = {0, 1, 219, 224, 253}; static const int HL[7] = {0, 1, 30, 31, 32, 33, 64}; int pl = PL[SX_PICK("process name", 0, 7)], dl = DL[SX_PICK("directory", 0, 4)], hl = HL[SX_PICK("host name", 0, 6)]; l_readlink_fail = SX_PICK("readlink fails", 0, 1); l_host_fail = SX_PICK("gethostname fails", 0, 1);
  size_t o = 0; l_exe[o++] = '/'; for (int i = 0; i < dl; i++) l_exe[o++] = 'd'; if (dl) l_exe[o++] = '/'; size_t b = o; for (int i = 0; i < pl && o < 299; i++) l_exe[o++] = 'A' + i % 26; l_exe_n = o; l_exe[o] = 0; for (int i = 0; i < hl; i++) l_host[i] = 'h' + i % 8; l_host[hl] = 0; bool fits = o < 256;
  const char* f = get_log_filename(); size_t n = strlen(f); SX_ASSERT(n > 7 && !strncmp(f, "./logs/", 7), "the default log is in ./logs"); const char* p = f + 7; const char* t = strstr(p, ".20261119-010203."); SX_ASSERT(t != nullptr, "the default name is process, time, host and process number"); size_t k = t - p; bool ok = true; if (l_readlink_fail) ok = k == 7 && !strncmp(p, "unknown", 7); else if (fits) { for (size_t i = 0; i < k; i++) ok &= i < (size_t)pl && p[i] == l_exe[b + i]; if (pl < 32) ok &= k == (size_t)pl; else ok &= k >= 31; } SX_ASSERT(ok, "the default name starts with the name of the process");
  const char* h = t + 17; SX_ASSERT(n >= 9 && !strcmp(f + n - 9, ".4321.log") && f + n - 9 >= h, "the default name is process, time, host and process number"); size_t m = f + n - 9 - h; if (!l_host_fail) { ok = true; for (size_t i = 0; i < m; i++) ok &= i < (size_t)hl && h[i] == l_host[i]; if (hl < 32) ok &= m == (size_t)hl; else ok &= m >= 31; SX_ASSERT(ok, "the default name holds the name of the host"); } sx_reach("end"); }
// several threads
static void logger(void* q) { int i = (int)(intptr_t)q; for (int k = 0; k < 2; k++) disk_log(k ? L_WARN : L_INFO, "t%dm%d", i, k); }
static void renamer(void*) { set_log_filename("other", "two"); }
static int count(const LogFile* f, int t, int k, int* pos) { char w[80]; size_t n = 0; const char* parts[3] = {"2026_11_19-01:02:03 ", LN[k ? L_WARN : L_INFO], " [<UNNAME>] t"}; for (int j = 0; j < 3; j++) for (const char* p = parts[j]; *p; p++) w[n++] = *p; w[n++] = '0' + t; w[n++] = 'm'; w[n++] = '0' + k; w[n++] = '\n'; int c = 0; for (size_t i = 0; i + n <= f->n; i += n) if (!memcmp(f->d + i, w, n)) { c++; *pos = i / n; } return c; }
static void mt(int nt, bool ren) { sx_step_limit(8000000); set_log_filename("one", "one"); l_split = 1; size_t live = sx_heap_live(); (void)live; sx_preempt_budget(1000); sx_free_sched(1); int t[4]; for (int i = 0; i < nt; i++) t[i] = sx_thread_create(logger, (void*)(intptr_t)i); if (ren) renamer(0); for (int i = 0; i < nt; i++) while (!sx_thread_done(t[i])) sx_block(); sx_preempt_budget(0); int a = l_find("one/one"), b = l_find("other/two"); static LogFile none; LogFile* f = a < 0 ? &none : &l_file[a]; LogFile* g = b < 0 ? &none : &l_file[b]; size_t tot = 0; for (int i = 0; i < nt; i++) { int last = -1, lf = 0; for (int k = 0; k < 2; k++) { int p = -1, q = -1, o = -1; int c = count(f, i, k, &p) + count(g, i, k, &q); SX_ASSERT(c == 1, "every message of every thread is one whole line of the log file"); SX_ASSERT(count(&l_file[0], i, k, &o) == 1, "every message of every thread is one whole line of standard output"); int nf = q >= 0; SX_ASSERT(nf > lf || nf == lf && (nf ? q : p) > last, "a thread's messages keep their order"); lf = nf; last = nf ? q : p; tot++; } } 
  SX_ASSERT(f->n + g->n == tot * (20 + 3 + 13 + 4) && l_file[0].n == f->n + g->n, "every message of every thread is one whole line of the log file"); SX_ASSERT(l_left_open == 0, "the log file is closed again"); sx_reach("end"); }
HARNESS h_two() { mt(2, false); }
HARNESS h_rename() { mt(2, true); }
HARNESS h_rename_dirs() { l_multi = 1; mt(2, true); }
HARNESS h_three() { mt(3, false); }
// failing system calls are logged with the values they failed with
#include <sys/socket.h>
#include <netdb.h>
#include <errno.h>
static int g_errno, g_freed; static int bad() { errno = g_errno; return -1; }
extern "C" { int sx_socket(int, int, int) { return bad(); } int sx_close(int) { return bad(); } int sx_fcntl(int, int, ...) { return bad(); } int sx_bind(int, const struct sockaddr*, socklen_t) { return bad(); } int sx_listen(int, int) { return bad(); } int sx_connect(int, const struct sockaddr*, socklen_t) { return bad(); } int sx_accept(int, struct sockaddr*, socklen_t*) { return bad(); } int sx_shutdown(int, int) { return bad(); } int sx_setsockopt(int, int, int, const void*, socklen_t) { return bad(); } int sx_getsockname(int, struct sockaddr*, socklen_t*) { return bad(); } int sx_getpeername(int, struct sockaddr*, socklen_t*) { return bad(); } int sx_inet_pton(int, const char*, void*) { errno = g_errno; return -1; } const char* sx_inet_ntop(int, const void*, char*, socklen_t) { errno = g_errno; return 0; }
int sx_getaddrinfo(const char*, const char*, const struct addrinfo*, struct addrinfo**) { errno = g_errno; return -2; } void sx_freeaddrinfo(struct addrinfo*) { g_freed++; } }
HARNESS h_calls() { sx_step_limit(400000); set_log_filename("d", "f"); g_errno = SX_PICK("errno", 0, 2) * 97 + 13; struct sockaddr_in sa; memset(&sa, 0, sizeof sa); struct in_addr ia; memset(&ia, 0, sizeof ia); char b[32]; const char* w = 0; int lv = L_FATAL; bool r = false; char tmp[64];
  switch (SX_PICK("call", 0, 15)) { case 0: r = socket_api::create_socket() != INVALID_SOCKET; w = "socket_api::create_socket, err=%d"; break; case 1: socket_api::close_socket(5); lv = L_ERROR; w = "socket_api::close_socket, err=%d"; break; case 2: r = socket_api::set_nonblock(5, true); w = "socket_api::set_nonblock, err=%d"; break; case 3: r = socket_api::set_close_onexec(5, true); w = "socket_api::set_close_onexec, err=%d"; break; case 4: r = socket_api::bind(5, sa); w = "socket_api::bind, err=%d"; break; case 5: r = socket_api::listen(5); w = "socket_api::listen, err=%d"; break; case 6: r = socket_api::connect(5, sa); w = "socket_api::connect, err=%d"; break; case 7: r = socket_api::accept(5, &sa) != INVALID_SOCKET; w = "socket_api::accept, err=%d"; break; case 8: r = socket_api::shutdown(5); w = "socket_api::shutdown, err=%d"; break; 
    case 9: r = socket_api::set_reuse_addr(5, true); lv = L_ERROR; w = "socket_api::setsockopt, level=1, optname=2, err=%d"; break; case 10: r = socket_api::set_keep_alive(5, true); lv = L_ERROR; w = "socket_api::setsockopt, level=1, optname=9, err=%d"; break; case 11: r = socket_api::getsockname(5, sa); w = "socket_api::getsockname, err=%d"; break; case 12: r = socket_api::getpeername(5, sa); w = "socket_api::getpeername, err=%d"; break; case 13: r = socket_api::inet_pton("1.2.3.4", ia); w = "socket_api::inet_pton, err=%d"; break; case 14: r = socket_api::inet_ntop(ia, b, 32); w = "socket_api::inet_ntop, err=%d"; break; default: r = socket_api::resolve_hostname("h", sa); lv = L_ERROR; w = "socket_api::resolve h failed, errno=%d"; }
  SX_ASSERT(!r, "a failing call is reported"); size_t n = 0; if (g_errno >= 100) tmp[n++] = '0' + g_errno / 100; tmp[n++] = '0' + g_errno / 10 % 10; tmp[n++] = '0' + g_errno % 10; tmp[n++] = '\n'; (void)w; (void)lv; int i = l_find("d/f"); SX_ASSERT(i >= 0 && l_file[i].n > n + 20, "a failing call is logged"); LogFile& f = l_file[i]; SX_ASSERT(!memcmp(f.d + f.n - n, tmp, n), "a failing call is logged with its error number"); bool one = true; for (size_t k = 0; k + 1 < f.n; k++) one &= f.d[k] != '\n'; SX_ASSERT(one, "every accepted message is one whole line of the log file, no other is"); sx_reach("end"); }
