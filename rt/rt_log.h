// Model of the file system calls the logger makes: one directory, files that record what is written, standard output and error.
#pragma once
#include <stddef.h>
enum { LF = 4, LCAP = 12000 };
struct LogFile { char name[128]; char d[LCAP]; size_t n; int open, opens; };   // 0: standard output, 1: standard error
extern LogFile l_file[LF]; extern int l_dir, l_mkdir_fail, l_open_fail, l_readlink_fail, l_host_fail, l_vsn_fail, l_split, l_left_open, l_mkdirs; extern char l_dirname[128]; extern char l_exe[300], l_host[70]; extern size_t l_exe_n;
extern int l_multi, l_ndirs; extern char l_dirs[4][64];   // l_multi: directories are kept by name, none at first
int l_find(const char* name);
