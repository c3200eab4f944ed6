#include "sx.h"
#include "rt_log.h"
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include <errno.h>
#include <time.h>
#include <unistd.h>
#include <sys/stat.h>
LogFile l_file[LF]; int l_dir = 1, l_mkdir_fail, l_open_fail, l_readlink_fail, l_host_fail, l_vsn_fail, l_split, l_left_open, l_mkdirs; char l_dirname[128]; char l_exe[300] = "/bin/prog", l_host[70] = "host"; size_t l_exe_n = 9; int l_multi, l_ndirs; char l_dirs[4][64];
int l_find(const char* name) { for (int i = 2; i < LF; i++) if (l_file[i].name[0] && !strcmp(l_file[i].name, name)) return i; return -1; }
extern "C" {
int sx_vsnprintf(char* d, size_t n, const char* f, va_list ap);
static bool eqdir(const char* d, const char* p, size_t n) { while (n > 1 && p[n - 1] == '/') n--; return !strncmp(d, p, n) && !d[n]; }
static bool known(const char* p, size_t n) { for (int i = 0; i < l_ndirs; i++) if (eqdir(l_dirs[i], p, n)) return true; return false; }
int sx_access(const char* p, int) { sx_preempt(); if (l_multi ? known(p, strlen(p)) : l_dir) return 0; errno = ENOENT; return -1; }
int sx_mkdir(const char* p, mode_t) { sx_preempt(); l_mkdirs++; if (l_multi) { size_t n = strlen(p); if (known(p, n)) { errno = EEXIST; return -1; } SX_ASSERT(l_ndirs < 4, "model: directories"); while (n > 1 && p[n - 1] == '/') n--; memcpy(l_dirs[l_ndirs], p, n); l_dirs[l_ndirs++][n] = 0; return 0; } strncpy(l_dirname, p, 127); if (l_mkdir_fail) { errno = EACCES; return -1; } l_dir = 1; return 0; }
FILE* sx_fopen(const char* name, const char* mode) { if (l_open_fail > 0) { l_open_fail--; errno = EACCES; return 0; } if (l_multi) { const char* e = strrchr(name, '/'); if (e && !known(name, e - name)) { errno = ENOENT; return 0; } } else if (!l_dir) { errno = ENOENT; return 0; } int i = l_find(name); if (i < 0) for (i = 2; i < LF; i++) if (!l_file[i].name[0]) { strncpy(l_file[i].name, name, 127); break; } if (i == LF) { errno = EMFILE; return 0; } if (mode[0] == 'w') l_file[i].n = 0; l_file[i].open++; l_file[i].opens++; l_left_open++; return (FILE*)&l_file[i]; }
int sx_fclose(FILE* f) { LogFile* l = (LogFile*)f; SX_ASSERT(l >= l_file + 2 && l < l_file + LF && l->open > 0, "an open file is closed"); l->open--; l_left_open--; return 0; }
static LogFile* lf(FILE* f) { if (f == stdout) return &l_file[0]; if (f == stderr) return &l_file[1]; LogFile* l = (LogFile*)f; SX_ASSERT(l >= l_file + 2 && l < l_file + LF && l->open > 0, "only an open file is written"); return l; }
static void put(LogFile* l, const char* p, size_t n) { for (size_t i = 0; i < n && l->n < LCAP; i++) l->d[l->n++] = p[i]; }
int sx_vfprintf(FILE* f, const char* fmt, va_list ap) { LogFile* l = lf(f); static char b[LCAP]; char own[256]; va_list aq; va_copy(aq, ap); int n = sx_vsnprintf(b, LCAP, fmt, ap); if (n < 0) { va_end(aq); return -1; } if (l_split && n < 256) { sx_vsnprintf(own, 256, fmt, aq); size_t h = n / 2; put(l, own, h); sx_preempt(); put(l, own + h, n - h); } else put(l, b, n); va_end(aq); return n; }
int sx_fprintf(FILE* f, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = sx_vfprintf(f, fmt, ap); va_end(ap); return r; }
int sx_printf(const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = sx_vfprintf(stdout, fmt, ap); va_end(ap); return r; }
int sx_fputs(const char* s, FILE* f) { put(lf(f), s, strlen(s)); return 1; }
int sx_puts(const char* s) { put(&l_file[0], s, strlen(s)); put(&l_file[0], "\n", 1); return 1; }
int sx_fputc(int c, FILE* f) { char b = (char)c; put(lf(f), &b, 1); return c; }
int sx_putchar(int c) { char b = (char)c; put(&l_file[0], &b, 1); return c; }
size_t sx_fwrite(const void* p, size_t s, size_t n, FILE* f) { put(lf(f), (const char*)p, s * n); return n; }
int sx_fflush(FILE*) { return 0; }
pid_t sx_getpid() { return 4321; }
ssize_t sx_readlink(const char* p, char* d, size_t n) { if (l_readlink_fail) { errno = EACCES; return -1; } size_t k = l_exe_n < n ? l_exe_n : n; for (size_t i = 0; i < k; i++) d[i] = l_exe[i]; return k; }
int sx_gethostname(char* d, size_t n) { if (l_host_fail) { errno = EPERM; return -1; } size_t l = strlen(l_host) + 1, k = l < n ? l : n; for (size_t i = 0; i < k; i++) d[i] = l_host[i]; if (l > n) { errno = ENAMETOOLONG; return -1; } return 0; }
struct tm* sx_localtime_r(const time_t* t, struct tm* r) { memset(r, 0, sizeof *r); r->tm_year = 126; r->tm_mon = 10; r->tm_mday = 19; r->tm_hour = 1; r->tm_min = 2; r->tm_sec = 3; return r; }
size_t sx_strftime(char* d, size_t n, const char* f, const struct tm* t) { char b[64]; size_t o = 0; for (; *f; f++) { if (*f != '%') { b[o++] = *f; continue; } f++; int v = *f == 'Y' ? t->tm_year + 1900 : *f == 'm' ? t->tm_mon + 1 : *f == 'd' ? t->tm_mday : *f == 'H' ? t->tm_hour : *f == 'M' ? t->tm_min : *f == 'S' ? t->tm_sec : -1; SX_ASSERT(v >= 0, "model: strftime conversion not supported"); if (v >= 100) { b[o++] = '0' + v / 1000; b[o++] = '0' + v / 100 % 10; } b[o++] = '0' + v / 10 % 10; b[o++] = '0' + v % 10; } if (o + 1 > n) return 0; memcpy(d, b, o); d[o] = 0; return o; }
}
