// C13 command line parser against a direct reading of its documentation
#include "hutil.h"
#include <stdlib.h>
#include <ctype.h>
#include <utility/cyu_simple_opt.h>
enum { OPTS = 8, MAXA = 60 };
static const CSimpleOptA::SOption TAB[OPTS + 1] = {{0, "-a", SO_NONE}, {1, "-b", SO_REQ_CMB}, {2, "-o", SO_OPT}, {3, "-s", SO_REQ_SEP}, {4, "--ab", SO_REQ_SEP}, {5, "--aC", SO_OPT}, {6, "wd", SO_NONE}, {7, "-M", SO_MULTI}, SO_END_OF_OPTIONS};
static char g_text[MAXA][8]; static char* g_argv[MAXA + 1]; static int g_argc, g_flags, g_taken[MAXA], g_file[MAXA], g_nfile, g_next; static const char* g_clump;
static bool on(int f) { return (g_flags & f) != 0; }
static char low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int kind(const char* o) { return o[0] != '-' ? SO_O_ICASE_WORD : o[1] != '-' && !o[2] ? SO_O_ICASE_SHORT : SO_O_ICASE_LONG; }
// what a word means: an option in full, an unambiguous beginning of one, or an error
static int lookup(const char* w, int flags) { int part = -1, parts = 0; for (int i = 0; i < OPTS; i++) { const char* o = TAB[i].pszArg; bool ic = (flags & kind(o)) != 0; int d = 0; while (o[d] == '-') d++; int e = 0; while (w[e] == '-' && e < d) e++; if (d != e || w[e] == '-') continue; int n = 0; while (o[d + n] && (ic ? low(o[d + n]) == low(w[e + n]) : o[d + n] == w[e + n])) n++; if (w[e + n]) continue; if (!o[d + n]) return i; if (n) { part = i; parts++; } } if ((flags & SO_O_EXACT) || !parts) return SO_OPT_INVALID; return parts == 1 ? part : SO_OPT_MULTIPLE; }
static bool dash(int i) { return g_text[i][0] == '-'; }
struct Ev { bool more; int id; int err; const char* text; const char* arg; bool own; };
static char g_name[8], g_short[3];
static bool clump(Ev& e) { while (*g_clump) { g_short[0] = '-'; g_short[1] = *g_clump++; g_short[2] = 0; int i = lookup(g_short, SO_O_EXACT); e = Ev{true, -1, SO_SUCCESS, 0, 0, false}; if (i < 0) { e.err = i; e.text = g_short; if (on(SO_O_NOERR)) continue; return true; } e.text = TAB[i].pszArg; if (TAB[i].nArgType == SO_NONE) e.id = TAB[i].nId; else if (TAB[i].nArgType == SO_REQ_CMB && *g_clump) { e.id = TAB[i].nId; e.arg = g_clump; g_clump += strlen(g_clump); } else e.err = SO_ARG_MISSING; return true; } return false; }
static int take() { int i = g_next; g_taken[i] = 1; g_next++; return i; }
static bool multi(int n, int* at, int* err) { if (g_next + n > g_argc) { *err = SO_ARG_MISSING; return false; } if (!on(SO_O_NOERR)) for (int k = 0; k < n; k++) if (dash(g_next + k)) { *err = SO_ARG_INVALID_DATA; return false; } for (int k = 0; k < n; k++) at[k] = take(); return true; }
static Ev next() { Ev e; if (g_clump && clump(e)) return e; g_clump = 0; while (g_next < g_argc) { int w = take(); const char* t = g_text[w]; const char* eq = 0; size_t l = strlen(t); strcpy(g_name, t); if (dash(w)) for (size_t k = 0; k < l; k++) if (t[k] == '=') { eq = t + k + 1; g_name[k] = 0; break; } int i = lookup(g_name, g_flags); e = Ev{true, -1, SO_SUCCESS, 0, eq, false};
    if (i < 0 && !eq && t[0] == '-' && t[1] && t[1] != '-' && t[2]) { char s[3] = {'-', t[1], 0}; int j = on(SO_O_SHORTARG) ? lookup(s, g_flags) : -1; if (j >= 0 && (TAB[j].nArgType == SO_REQ_CMB || TAB[j].nArgType == SO_OPT)) { i = j; e.arg = t + 2; } else if (on(SO_O_CLUMP)) { g_clump = t + 1; if (clump(e)) return e; g_clump = 0; continue; } }
    if (i < 0) { if (t[0] == '-' && !on(SO_O_NOERR)) { e.err = i; e.text = g_name; return e; } g_taken[w] = 0; g_file[g_nfile++] = w; continue; }
    e.id = TAB[i].nId; e.text = TAB[i].pszArg; switch (TAB[i].nArgType) { case SO_NONE: if (e.arg) e.err = SO_ARG_INVALID; break; case SO_REQ_CMB: if (!e.arg) e.err = SO_ARG_MISSING; break; case SO_REQ_SEP: if (e.arg) { if (on(SO_O_PEDANTIC)) e.err = SO_ARG_INVALID_TYPE; } else { int at; if (multi(1, &at, &e.err)) e.arg = g_text[at]; } break; default: break; } return e; }
  e = Ev{false, -1, SO_SUCCESS, 0, 0, false}; return e; }
static void parse() { static char mine[MAXA][8]; for (int i = 0; i < g_argc; i++) { strcpy(mine[i], g_text[i]); g_argv[i] = mine[i]; } CSimpleOptA args(g_argc, g_argv, TAB, g_flags); g_next = on(SO_O_USEALL) ? 0 : 1; int n = 0; for (;; n++) { SX_ASSERT(n <= 4 * g_argc + 8, "parsing ends"); bool more = args.Next(); Ev e = next(); SX_ASSERT(more == e.more, "every option and error is reported, nothing else"); if (!more) break; SX_ASSERT(args.LastError() == e.err, "errors are told as documented"); SX_ASSERT(args.OptionId() == e.id, "an option is told by its id"); SX_ASSERT(args.OptionText() && !strcmp(args.OptionText(), e.text), "an option is told by its text"); SX_ASSERT(!args.OptionArg() == !e.arg && (!e.arg || !strcmp(args.OptionArg(), e.arg)), "an option has its own argument");
    if (e.id == 7 && e.err == SO_SUCCESS) { char** p = args.MultiArg(2); int at[2], err = SO_SUCCESS; bool ok = multi(2, at, &err); SX_ASSERT(!p == !ok && args.LastError() == err, "arguments are there or an error is told"); if (ok) for (int k = 0; k < 2; k++) SX_ASSERT(!strcmp(p[k], g_text[at[k]]), "an option has its own argument"); } }
  SX_ASSERT(args.FileCount() == g_nfile, "what is no option is a file"); for (int k = 0; k < g_nfile; k++) SX_ASSERT(!strcmp(args.File(k), g_text[g_file[k]]), "files keep their order and text"); bool all = true; for (int i = 0; i < g_argc; i++) { int c = 0; for (int k = 0; k < g_argc; k++) c += g_argv[k] == mine[i]; all &= c == 1; } SX_ASSERT(all, "the argument array keeps its entries"); sx_observe(g_nfile); sx_reach("end"); }
static void any(int i, int max, const char* n) { int l = SX_PICK(n, 0, max); for (int k = 0; k < l; k++) g_text[i][k] = (char)sx_range("char", 1, 127); g_text[i][l] = 0; }
static void flags() { static const int F[7] = {SO_O_EXACT, SO_O_SHORTARG, SO_O_CLUMP, SO_O_NOERR, SO_O_PEDANTIC, SO_O_ICASE, SO_O_USEALL}; g_flags = (int)sx_sym("flags", 16) & (SO_O_EXACT | SO_O_SHORTARG | SO_O_CLUMP | SO_O_NOERR | SO_O_PEDANTIC | SO_O_ICASE); (void)F; }
HARNESS h_one() { sx_step_limit(4000000); flags(); strcpy(g_text[0], "prog"); any(1, LEN1, "length"); static const char* const N[4] = {"x", "-a", "--ab", "y"}; g_argc = 2 + SX_PICK("more arguments", 0, 2); strcpy(g_text[2], N[SX_PICK("second", 0, 2)]); strcpy(g_text[3], N[3]); parse(); }
HARNESS h_two() { sx_step_limit(4000000); flags(); strcpy(g_text[0], "prog"); any(1, 2, "length"); any(2, 2, "length"); g_argc = 3; parse(); }
HARNESS h_words() { sx_step_limit(4000000); flags(); g_flags |= SX_PICK("all", 0, 1) ? SO_O_USEALL : 0; static const char* const N[12] = {"-a", "-b=1", "-b", "-ox", "-s", "--ab", "--a", "--aC=2", "wd", "f", "-M", "-aq"}; g_argc = WORDS; for (int i = 0; i < WORDS; i++) strcpy(g_text[i], N[SX_PICK("word", 0, 11)]); parse(); }
HARNESS h_many() { sx_step_limit(8000000); g_flags = (SX_PICK("no errors", 0, 1) ? SO_O_NOERR : 0); g_argc = 48 + SX_PICK("arguments", 0, 4); int m = SX_PICK("mix", 0, 3); for (int i = 0; i < g_argc; i++) { int k = m == 0 ? 0 : m == 1 ? i % 2 : m == 2 ? (i < 30 ? 0 : 1) : i % 3; strcpy(g_text[i], k == 0 ? "fxx" : k == 1 ? "-a" : "-s"); if (k == 0) { g_text[i][1] = 'A' + i / 26; g_text[i][2] = 'a' + i % 26; } } parse(); }
