#include <functional>
#include "solver.h"
Solver::Solver() : inc(c) {}
static z3::expr bv1(z3::context& c, z3::expr b) { return z3::ite(b, c.bv_val(1, 1), c.bv_val(0, 1)); }
z3::expr Solver::tr(E root) {
  if (memo.size() < g_exprs.size()) memo.resize(g_exprs.size() * 2, nullptr);
  if (memo[root->id]) return z3::expr(c, memo[root->id]);
  std::vector<E> st{root};
  while (!st.empty()) { E e = st.back(); if (memo[e->id]) { st.pop_back(); continue; }
    bool ready = true; for (int i = 0; i < e->nk; i++) if (!memo[e->k[i]->id]) { st.push_back(e->k[i]); ready = false; } if (!ready) continue; st.pop_back();
    auto K = [&](int i) { return z3::expr(c, memo[e->k[i]->id]); }; z3::expr r(c);
    auto fs = [&](unsigned w) { return w == 32 ? c.fpa_sort(8, 24) : c.fpa_sort(11, 53); };
    auto tofp = [&](int i) { return z3::expr(c, Z3_mk_fpa_to_fp_bv(c, K(i), fs(e->k[i]->w))); };
    auto rne = [&]() { return Z3_mk_fpa_rne(c); };
    auto bits = [&](Z3_ast f) { return z3::expr(c, Z3_mk_fpa_to_ieee_bv(c, f)); };
    switch (e->op) {
    case O_CONST: if (e->w <= 64) r = c.bv_val((uint64_t)e->v, e->w); else r = z3::concat(c.bv_val((uint64_t)(e->v >> 64), e->w - 64), c.bv_val((uint64_t)e->v, 64)); break;
    case O_VAR: { char b[32]; snprintf(b, 32, "v%u", (u32)e->v); r = c.bv_const(b, e->w); break; }
    case O_ADD: r = K(0) + K(1); break; case O_SUB: r = K(0) - K(1); break; case O_MUL: r = K(0) * K(1); break;
    case O_UDIV: r = z3::udiv(K(0), K(1)); break; case O_UREM: r = z3::urem(K(0), K(1)); break; case O_SDIV: r = K(0) / K(1); break; case O_SREM: r = z3::srem(K(0), K(1)); break;
    case O_AND: r = K(0) & K(1); break; case O_OR: r = K(0) | K(1); break; case O_XOR: r = K(0) ^ K(1); break;
    case O_SHL: r = z3::shl(K(0), K(1)); break; case O_LSHR: r = z3::lshr(K(0), K(1)); break; case O_ASHR: r = z3::ashr(K(0), K(1)); break;
    case O_EQ: r = bv1(c, K(0) == K(1)); break; case O_ULT: r = bv1(c, z3::ult(K(0), K(1))); break; case O_ULE: r = bv1(c, z3::ule(K(0), K(1))); break;
    case O_SLT: r = bv1(c, z3::slt(K(0), K(1))); break; case O_SLE: r = bv1(c, z3::sle(K(0), K(1))); break;
    case O_ITE: r = z3::ite(K(0) == c.bv_val(1, 1), K(1), K(2)); break; case O_CONCAT: r = z3::concat(K(0), K(1)); break;
    case O_EXTRACT: r = K(0).extract((unsigned)e->v + e->w - 1, (unsigned)e->v); break; case O_ZEXT: r = z3::zext(K(0), e->w - e->k[0]->w); break; case O_SEXT: r = z3::sext(K(0), e->w - e->k[0]->w); break;
    case O_TAB: { const std::vector<u64>& t = *g_tabs[(size_t)e->v]; z3::expr x = K(0); unsigned iw = e->k[0]->w, nb = 0; while ((1ull << nb) < t.size()) nb++; if (nb > iw) nb = iw; std::vector<z3::expr> bs; for (unsigned i = 0; i < nb; i++) bs.push_back(x.extract(i, i) == c.bv_val(1, 1));
      std::function<z3::expr(unsigned, size_t)> mux = [&](unsigned b, size_t lo) -> z3::expr { if (!b) return c.bv_val((uint64_t)t[std::min(lo, t.size() - 1)], e->w); size_t half = (size_t)1 << (b - 1); if (lo + half >= t.size()) return z3::ite(bs[b - 1], c.bv_val((uint64_t)t.back(), e->w), mux(b - 1, lo)); z3::expr p = mux(b - 1, lo), q = mux(b - 1, lo + half); return z3::eq(p, q) ? p : z3::ite(bs[b - 1], q, p); };
      r = mux(nb, 0); if (iw > nb) r = z3::ite(x.extract(iw - 1, nb) == c.bv_val(0, iw - nb), r, c.bv_val((uint64_t)t.back(), e->w)); break; }
    case O_FADD: r = bits(Z3_mk_fpa_add(c, rne(), tofp(0), tofp(1))); break; case O_FSUB: r = bits(Z3_mk_fpa_sub(c, rne(), tofp(0), tofp(1))); break;
    case O_FMUL: r = bits(Z3_mk_fpa_mul(c, rne(), tofp(0), tofp(1))); break; case O_FDIV: r = bits(Z3_mk_fpa_div(c, rne(), tofp(0), tofp(1))); break;
    case O_FLT: r = bv1(c, z3::expr(c, Z3_mk_fpa_lt(c, tofp(0), tofp(1)))); break; case O_FLE: r = bv1(c, z3::expr(c, Z3_mk_fpa_leq(c, tofp(0), tofp(1)))); break;
    case O_FEQ: r = bv1(c, z3::expr(c, Z3_mk_fpa_eq(c, tofp(0), tofp(1)))); break;
    case O_FUNO: r = bv1(c, z3::expr(c, Z3_mk_fpa_is_nan(c, tofp(0))) || z3::expr(c, Z3_mk_fpa_is_nan(c, tofp(1)))); break;
    case O_FTOSI: r = z3::expr(c, Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), tofp(0), e->w)); break; case O_FTOUI: r = z3::expr(c, Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), tofp(0), e->w)); break;
    case O_SITOF: r = bits(Z3_mk_fpa_to_fp_signed(c, rne(), K(0), fs(e->w))); break; case O_UITOF: r = bits(Z3_mk_fpa_to_fp_unsigned(c, rne(), K(0), fs(e->w))); break;
    case O_FTOF: r = bits(Z3_mk_fpa_to_fp_float(c, rne(), tofp(0), fs(e->w))); break;
    default: abort(); }
    Z3_inc_ref(c, r); memo[e->id] = r; }
  return z3::expr(c, memo[root->id]); }
static u128 numOf(z3::context& c, const z3::expr& v, unsigned w) {
  if (w <= 64) { uint64_t x = 0; if (Z3_get_numeral_uint64(c, v, &x)) return x; return 0; }
  std::string s = Z3_get_numeral_string(c, v); u128 r = 0; for (char ch : s) r = r * 10 + (ch - '0'); return r; }
// The same formula over the integers, exactly (values are the unsigned readings, wrapping is written out); for linear arithmetic with
// division by constants, which bit-blasting handles badly. Null for anything else.
static z3::expr pow2(z3::context& c, unsigned k) { u128 v = (u128)1 << (k > 127 ? 127 : k); std::string r; while (v) { r.insert(r.begin(), '0' + (int)(v % 10)); v /= 10; } return c.int_val(r.c_str()); }
static z3::expr num(z3::context& c, u128 v) { if (!v) return c.int_val(0); std::string r; while (v) { r.insert(r.begin(), '0' + (int)(v % 10)); v /= 10; } return c.int_val(r.c_str()); }
bool Solver::trInt(E root, std::unordered_map<u32, z3::expr>& m, z3::solver& s) {
  std::vector<E> st{root};
  while (!st.empty()) { E e = st.back(); if (m.count(e->id)) { st.pop_back(); continue; } if (e->w > 100) return false; bool ready = true; for (int i = 0; i < e->nk; i++) if (!m.count(e->k[i]->id)) { st.push_back(e->k[i]); ready = false; } if (!ready) continue; st.pop_back();
    auto K = [&](int i) { return m.at(e->k[i]->id); }; auto P = [&](unsigned k) { return pow2(c, k); }; unsigned w = e->w, w0 = e->nk ? e->k[0]->w : 0; auto sg = [&](int i) { return z3::ite(K(i) >= P(e->k[i]->w - 1), K(i) - P(e->k[i]->w), K(i)); }; auto one = [&](z3::expr b) { return z3::ite(b, c.int_val(1), c.int_val(0)); };
    int nn = 0; auto name = [&](z3::expr x) { if (x.is_const() || x.is_numeral()) return x; char b[48]; snprintf(b, 48, "t%u_%d", e->id, nn++); z3::expr v = c.int_const(b); s.add(v == x); return v; }; bool k1 = e->nk > 1 && e->k[1]->isConst(); u128 cv = k1 ? e->k[1]->v : 0; z3::expr r(c);
    switch (e->op) {
    case O_CONST: r = num(c, e->v); break; case O_VAR: { char b[32]; snprintf(b, 32, "v%u", (u32)e->v); r = c.int_const(b); s.add(r >= 0 && r < P(w)); break; }
    case O_ADD: r = K(0) + K(1); if (umaxOf(e->k[0]) + umaxOf(e->k[1]) > maskw(w)) { r = k1 && cv > maskw(w) / 2 ? K(0) - num(c, maskw(w) - cv + 1) : r; r = k1 && cv > maskw(w) / 2 ? z3::ite(r < 0, r + P(w), r) : z3::ite(r >= P(w), r - P(w), r); } break;
    case O_SUB: r = K(0) - K(1); r = z3::ite(r < 0, r + P(w), r); break;
    case O_MUL: if (!k1) return false; if (cv > maskw(w) / 2) r = z3::mod(K(0) * (c.int_val(0) - num(c, maskw(w) - cv + 1)), P(w)); else { r = K(0) * num(c, cv); if (umaxOf(e->k[0]) > maskw(w) / cv) r = z3::mod(r, P(w)); } break;
    case O_UDIV: if (!k1 || !cv) return false; r = K(0) / num(c, cv); break; case O_UREM: if (!k1 || !cv) return false; r = z3::mod(K(0), num(c, cv)); break;
    case O_SDIV: case O_SREM: { if (!k1 || !cv || cv > maskw(w) / 2) return false; z3::expr x = name(sg(0)), q = z3::ite(x >= 0, x / num(c, cv), c.int_val(0) - (c.int_val(0) - x) / num(c, cv)); r = e->op == O_SDIV ? q : x - q * num(c, cv); r = z3::ite(r < 0, r + P(w), r); break; }
    case O_AND: if (w == 1) r = one(K(0) == 1 && K(1) == 1); else if (k1 && !(cv & (cv + 1))) { unsigned k = 0; while (cv >> k) k++; r = z3::mod(K(0), P(k)); } else return false; break;
    case O_OR: if (w != 1) return false; r = one(K(0) == 1 || K(1) == 1); break; case O_XOR: if (w == 1) r = one(K(0) != K(1)); else if (k1 && cv == maskw(w)) r = num(c, maskw(w)) - K(0); else return false; break;
    case O_SHL: if (!k1 || cv >= w) return false; r = z3::mod(K(0) * P((unsigned)cv), P(w)); break; case O_LSHR: if (!k1 || cv >= w) return false; r = K(0) / P((unsigned)cv); break; case O_ASHR: if (!k1 || cv >= w) return false; r = name(sg(0)) / P((unsigned)cv); r = z3::ite(r < 0, r + P(w), r); break;
    case O_EQ: r = one(K(0) == K(1)); break; case O_ULT: r = one(K(0) < K(1)); break; case O_ULE: r = one(K(0) <= K(1)); break; case O_SLT: r = one(sg(0) < sg(1)); break; case O_SLE: r = one(sg(0) <= sg(1)); break;
    case O_ITE: r = z3::ite(K(0) == 1, K(1), K(2)); break; case O_CONCAT: r = K(0) * P(e->k[1]->w) + K(1); break; case O_ZEXT: r = K(0); break; case O_SEXT: r = z3::ite(K(0) >= P(w0 - 1), K(0) + num(c, maskw(w) - maskw(w0)), K(0)); break;
    case O_EXTRACT: r = K(0); if (e->v) r = r / P((unsigned)e->v); if (e->v + w < w0 && umaxOf(e->k[0]) >> (unsigned)e->v > maskw(w)) r = z3::mod(r, P(w)); break;
    default: return false; }
    m.emplace(e->id, name(r)); }
  return true; }
bool Solver::hasDiv(E root) {
  std::vector<E> st{root}; while (!st.empty()) { E e = st.back(); if (e->id >= divs.size()) divs.resize(e->id * 2 + 64, 0); if (divs[e->id]) { st.pop_back(); continue; } u8 r = 1; bool ready = true; if ((e->op == O_UDIV || e->op == O_UREM || e->op == O_SDIV || e->op == O_SREM) && e->w > 16 && e->k[1]->isConst() && (e->k[1]->v & (e->k[1]->v - 1))) r = 2; if (e->op == O_MUL && e->w >= 64 && e->k[1]->isConst() && (e->k[1]->v & (e->k[1]->v - 1))) r = 2;
    for (int i = 0; i < e->nk; i++) { u32 k = e->k[i]->id; if (k >= divs.size() || !divs[k]) { st.push_back(e->k[i]); ready = false; } else r = std::max(r, divs[k]); } if (ready) { divs[e->id] = r; st.pop_back(); } }
  return divs[root->id] == 2; }
Sat Solver::rawCheck(const std::vector<E>& cs, std::vector<std::pair<u32, u128>>& asg) {
  nq++; auto t0 = std::chrono::steady_clock::now(); asg.clear();
  std::set<u32> vars; bool fp = false; for (E e : cs) for (u32 v : e->vs->v) vars.insert(v);
  auto model = [&](z3::model m) { for (u32 v : vars) { E ve = nullptr; (void)ve; char b[32]; snprintf(b, 32, "v%u", v); z3::expr x = c.bv_const(b, g_vars[v].w); z3::expr val = m.eval(x, true); asg.push_back({v, numOf(c, val, g_vars[v].w)}); } };
  z3::check_result r = z3::unknown; (void)fp;
  auto viaInt = [&](unsigned ms) { try { z3::solver s = z3::tactic(c, "qflia").mk_solver(); z3::params p(c); p.set("timeout", ms); s.set(p); std::unordered_map<u32, z3::expr> m; for (E e : cs) { if (!trInt(e, m, s)) return; s.add(m.at(e->id) == 1); }
    r = s.check(); if (r == z3::sat) { z3::model md = s.get_model(); for (u32 v : vars) { char b[32]; snprintf(b, 32, "v%u", v); asg.push_back({v, numOf(c, md.eval(c.int_const(b), true), g_vars[v].w)}); } } } catch (z3::exception& ex) { r = z3::unknown; } };
  bool lia = false; for (E e : cs) lia |= hasDiv(e); if (lia) viaInt(intMs);
  if (r == z3::unknown) try { if (!inited) { z3::params p(c); p.set("timeout", quickMs); inc.set(p); inited = true; } inc.push(); for (E e : cs) inc.add(tr(e) == c.bv_val(1, 1)); r = inc.check(); if (r == z3::sat) model(inc.get_model()); inc.pop(); } catch (z3::exception& ex) { r = z3::unknown; inc = z3::solver(c); inited = false; }
  if (r == z3::unknown && !lia) viaInt(2 * intMs);
  if (r == z3::unknown && timeoutMs > quickMs) { try { z3::solver s = z3::tactic(c, "qffpbv").mk_solver(); z3::params p(c); p.set("timeout", timeoutMs); s.set(p); for (E e : cs) s.add(tr(e) == c.bv_val(1, 1)); r = s.check(); if (r == z3::sat) model(s.get_model()); } catch (z3::exception& ex) { r = z3::unknown; } }
  double t = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); if (getenv("SX_SLOW") && t > atof(getenv("SX_SLOW"))) { fprintf(stderr, "SLOW %.2fs r=%d\n", t, (int)r); for (E e : cs) fprintf(stderr, "    %s\n", exprStr(e, 14).c_str()); } tsec += t; tmax = std::max(tmax, t);
  if (r == z3::sat) { nsat++; return SAT; } if (r == z3::unsat) { nunsat++; return UNSAT; } nunk++; return UNKNOWN; }
Sat Solver::check(const std::vector<E>& pc, E q, std::vector<std::pair<u32, u128>>& asg, bool slice) {
  asg.clear(); if (q->isFalse()) return UNSAT;
  std::vector<E> cs; 
  if (slice) { std::set<u32> vars(q->vs->v.begin(), q->vs->v.end()); std::vector<char> used(pc.size(), 0); bool ch = true;
    while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!used[i]) { bool hit = false; for (u32 v : pc[i]->vs->v) if (vars.count(v)) { hit = true; break; } if (hit) { used[i] = 1; ch = true; vars.insert(pc[i]->vs->v.begin(), pc[i]->vs->v.end()); } } }
    for (size_t i = 0; i < pc.size(); i++) if (used[i]) cs.push_back(pc[i]); } else cs = pc;
  if (!q->isTrue()) cs.push_back(q); if (cs.empty()) return SAT;
  std::vector<u32> ids; for (E e : cs) ids.push_back(e->id); std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
  u64 h = 1469598103934665603ULL; for (u32 i : ids) { h ^= i + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 1099511628211ULL; }
  auto it = cache.find(h); if (it != cache.end()) { ncache++; asg = it->second.second; return it->second.first; }
  Sat r = rawCheck(cs, asg); if (r != UNKNOWN) cache[h] = {r, asg}; return r; }
