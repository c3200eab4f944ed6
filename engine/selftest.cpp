// Tests the trusted parts of the engine on themselves: random expressions, built through the simplifying constructors, must evaluate
// like their plain definition, and neither solver path may call a set of constraints unsatisfiable that a known assignment satisfies.
#include "solver.h"
#include <random>
static std::mt19937_64 R;
static u64 rnd(u64 n) { return R() % n; }
struct Pair { E e; u128 v; };   // an expression and its value under the hidden assignment, computed without the constructors
static u128 rv(unsigned w) { u128 x = ((u128)R() << 64) | R(); switch (rnd(6)) { case 0: x = rnd(4); break; case 1: x = ~(u128)rnd(3); break; case 2: x = (u128)1 << rnd(w); break; case 3: x = rnd(2000); break; case 4: x = 1000000000 - 2 + rnd(4); break; } return x & maskw(w); }
static u128 plain(Op op, unsigned w, u128 v, const Pair* k, int nk) { Expr x; x.op = op; x.w = w; x.v = v; x.nk = nk; u128 kv[3]; for (int i = 0; i < nk; i++) { x.k[i] = k[i].e; kv[i] = k[i].v; } return foldOp(&x, kv); }
static const unsigned W[] = {1, 8, 16, 30, 32, 64};
int main(int argc, char** argv) {
  u64 n = argc > 1 ? atoll(argv[1]) : 2000; setvbuf(stdout, 0, _IOLBF, 0); R.seed(argc > 2 ? atoll(argv[2]) : 1); u64 checks = 0, queries = 0, unk = 0; int bad = 0;
  for (u64 it = 0; it < n && bad < 10; it++) {
    Model m; std::vector<Pair> pool; bool arith = rnd(2); int nv = 1 + rnd(4), v0 = (int)g_vars.size();
    for (int i = 0; i < nv; i++) { unsigned w = W[arith ? 3 + rnd(3) : rnd(6)]; E e = mkVar("x", w); u128 v = rv(w); m.set((u32)e->v, v); pool.push_back({e, v}); }
    auto pick = [&](unsigned w) -> Pair { for (int t = 0; t < 6; t++) { auto& p = pool[rnd(3) ? pool.size() - 1 - rnd(std::min<size_t>(pool.size(), 4)) : rnd(pool.size())]; if (p.e->w == w) return p; }
      auto& p = pool[rnd(pool.size())]; if (p.e->w < w) { bool s = rnd(3) == 0; Pair k[1] = {p}; Op op = s ? O_SEXT : O_ZEXT; return {s ? mkSExt(p.e, w) : mkZExt(p.e, w), plain(op, w, 0, k, 1)}; } if (p.e->w > w) { unsigned lo = rnd(3) ? 0 : rnd(p.e->w - w + 1); return {mkExtract(p.e, lo, w), (p.v >> lo) & maskw(w)}; } return p; };
    for (int i = 0; i < 14; i++) { unsigned w = W[arith ? 4 + rnd(2) : rnd(6)]; Pair r; int kind = rnd(12);
      if (kind < 6) { static const Op A[] = {O_ADD, O_SUB, O_MUL, O_UDIV, O_UREM, O_SDIV, O_SREM, O_ADD, O_MUL, O_UREM}, B[] = {O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR}; Op op = arith || rnd(2) ? A[rnd(10)] : B[rnd(6)]; Pair k[2] = {pick(w), pick(w)}; static const u64 C[] = {1000, 1000000, 1000000000, 60, 10, 8, 3, 86400}; if ((op >= O_MUL && op <= O_SREM && rnd(5)) || (op >= O_SHL && op <= O_ASHR) || !rnd(3)) { u128 c = op >= O_SHL && op <= O_ASHR ? rnd(w + 1) : rnd(2) ? C[rnd(8)] & maskw(w) : rv(w); k[1] = {mkConst(c, w), c & maskw(w)}; } r = {mkBin(op, k[0].e, k[1].e), plain(op, w, 0, k, 2)}; }
      else if (kind < 8) { static const Op C[] = {O_EQ, O_ULT, O_ULE, O_SLT, O_SLE}; Pair k[2] = {pick(w), pick(w)}; if (rnd(2)) { u128 c = rnd(2) ? k[0].v + rnd(3) - 1 : rv(w); k[1] = {mkConst(c, w), c & maskw(w)}; } Op op = C[rnd(5)]; r = {mkBin(op, k[0].e, k[1].e), plain(op, 1, 0, k, 2)}; if (rnd(2)) r = {mkNot(r.e), !r.v}; }
      else if (kind < 9) { Pair c = pick(1), a = pick(w), b = pick(w); r = {mkIte(c.e, a.e, b.e), c.v ? a.v : b.v}; }
      else if (kind < 10 && w <= 32) { Pair a = pick(w), b = pick(w); r = {mkConcat(a.e, b.e), a.v << w | b.v}; if (rnd(2) && w >= 16) { Pair s = pick(w); E e = nullptr; for (unsigned j = 0; j < w; j += 8) { E x = mkExtract(s.e, j, std::min(8u, w - j)); e = e ? mkConcat(x, e) : x; } r = {e, s.v}; } }
      else if (kind < 11) { Pair x = pick(w); u128 K = 2 + rv(w) % 2000; if (w < 16) K &= 7; if (K < 2) K = 3; K &= maskw(w); if (!K) continue; Pair k[2] = {x, {mkConst(K, w), K}}; E c = rnd(2) ? mkBin(O_ULT, x.e, mkConst(K, w)) : mkBin(O_ULE, mkConst(K, w), x.e); bool ule = c->op == O_ULE && c->k[0]->isConst(); (void)ule; E sub = mkBin(O_SUB, x.e, mkConst(K, w)); E e = rnd(2) ? mkIte(mkBin(O_ULT, x.e, mkConst(K, w)), x.e, sub) : mkIte(mkBin(O_ULE, mkConst(K, w), x.e), sub, x.e); r = {e, x.v < K ? x.v : plain(O_SUB, w, 0, k, 2)}; }
      else if (rnd(3)) { // division patterns
        static const u64 C[] = {1000, 1000000, 1000000000, 60, 10, 7}; if (w < 32) w = 32; u64 c = C[rnd(6)]; Pair x = pick(w), y = pick(w), K = {mkConst(c, w), c}; bool sg = rnd(2); Op dv = sg ? O_SDIV : O_UDIV, rm = sg ? O_SREM : O_UREM; auto B = [&](Op op, Pair a, Pair b) { Pair k[2] = {a, b}; return Pair{mkBin(op, a.e, b.e), plain(op, w, 0, k, 2)}; };
        switch (rnd(4)) { case 0: r = B(O_SUB, x, B(O_MUL, B(dv, x, K), K)); break; case 1: r = B(O_ADD, B(rm, x, K), B(O_MUL, B(dv, x, K), K)); break; case 2: r = B(rnd(2) ? dv : rm, B(O_ADD, B(O_MUL, x, K), y), K); break; default: { Pair K2 = {mkConst(c * 3 & maskw(w), w), c * 3 & maskw(w)}; r = B(O_ADD, B(O_ADD, y, B(O_MUL, B(dv, x, K), K2)), B(rnd(2) ? O_ADD : O_SUB, x, B(rm, x, K))); } } }
      else { std::vector<u64> t; for (int j = 0; j < 256; j++) t.push_back(R() & (u64)maskw(w)); Pair x = pick(8); r = {mkTab(t, w, x.e), t[(size_t)x.v]}; }
      if (r.e->w > 64) continue; pool.push_back(r); checks++;
      if (evalExpr(r.e, m) != r.v) { printf("WRONG value of %s\n", exprStr(r.e, 6).c_str()); bad++; break; } if (umaxOf(r.e) < r.v) { printf("WRONG bound of %s\n", exprStr(r.e, 6).c_str()); bad++; break; } if (knownTZ(r.e) && (r.v & maskw(std::min<unsigned>(knownTZ(r.e), r.e->w)))) { printf("WRONG trailing zeros of %s\n", exprStr(r.e, 6).c_str()); bad++; break; } }
    if (bad) break;
    // constraints that hold under the assignment must be satisfiable, by either path
    std::vector<E> cs; for (int i = 0; i < 3; i++) { auto& p = pool[pool.size() - 1 - rnd(std::min<size_t>(pool.size(), 8))]; if (p.e->isConst()) continue; E c = p.e->w == 1 ? (p.v ? p.e : mkNot(p.e)) : rnd(2) ? mkEq(p.e, mkConst(p.v, p.e->w)) : mkBin(O_SLE, p.e, mkConst(p.v, p.e->w)); if (!c->isConst()) cs.push_back(c); else if (!c->v) { printf("WRONG constraint\n"); bad++; } }
    if (cs.empty()) continue; (void)v0;
    { static Solver* S = nullptr; if (!S || it % 200 == 0) { delete S; S = new Solver; S->quickMs = 300; S->timeoutMs = 300; S->intMs = 200; } std::vector<std::pair<u32, u128>> asg; queries++; Sat r = S->rawCheck(cs, asg); if (r == UNSAT) { printf("WRONG unsat (default path):"); for (E e : cs) printf(" %s\n", exprStr(e, 9).c_str()); bad++; } else if (r == SAT) { Model q; for (auto& a : asg) q.set(a.first, a.second); for (E e : cs) if (evalExpr(e, q) != 1) { printf("WRONG model for %s\n", exprStr(e, 9).c_str()); bad++; break; } } else unk++;
      std::unordered_map<u32, z3::expr> mm; z3::solver zs = z3::tactic(S->c, "qflia").mk_solver(); z3::params p(S->c); p.set("timeout", 300u); zs.set(p); bool ok = true; for (E e : cs) { if (!S->trInt(e, mm, zs)) { ok = false; break; } zs.add(mm.at(e->id) == 1); } if (ok) { queries++; for (u32 i = (u32)v0; i < g_vars.size(); i++) { char b[32]; snprintf(b, 32, "v%u", i); u128 v = m.get(i); zs.add(S->c.int_const(b) == S->c.int_val((uint64_t)v)); } z3::check_result zr = zs.check(); if (zr == z3::unsat) { printf("WRONG unsat (integers):"); for (E e : cs) printf(" %s\n", exprStr(e, 9).c_str()); bad++; } else if (zr == z3::unknown) unk++; } } }
  printf("engine self-test: %llu expressions, %llu queries, %llu unknown, %d wrong\n", (unsigned long long)checks, (unsigned long long)queries, (unsigned long long)unk, bad); return bad ? 1 : 0; }
