#include "expr.h"
#include <cmath>
std::vector<VarInfo> g_vars; std::vector<E> g_exprs;
static u64 mix(u64 h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 29); }
static unsigned computeTZ(E e); static u128 computeUM(E e);
namespace {
struct Tab { std::vector<E> t; size_t n = 0; Tab() : t(1 << 16, nullptr) {}
  static bool same(E a, const Expr& b) { return a->op == b.op && a->w == b.w && a->nk == b.nk && a->v == b.v && a->k[0] == b.k[0] && a->k[1] == b.k[1] && a->k[2] == b.k[2]; }
  E get(Expr& x) {
    size_t m = t.size() - 1, i = x.h & m;
    while (t[i]) { if (t[i]->h == x.h && same(t[i], x)) return t[i]; i = (i + 1) & m; }
    return nullptr; }
  void put(E e) { if (++n * 2 > t.size()) { std::vector<E> o; o.swap(t); t.assign(o.size() * 2, nullptr); for (E q : o) if (q) ins(q); } ins(e); }
  void ins(E e) { size_t m = t.size() - 1, i = e->h & m; while (t[i]) i = (i + 1) & m; t[i] = e; } };
Tab tab; VarSet emptyVS;
struct VSHash { size_t operator()(const std::vector<u32>& v) const { u64 h = v.size(); for (u32 x : v) h = mix(h, x); return h; } };
std::unordered_map<std::vector<u32>, const VarSet*, VSHash> vsTab;
const VarSet* internVS(std::vector<u32>&& v) { if (v.empty()) return &emptyVS; auto it = vsTab.find(v); if (it != vsTab.end()) return it->second; auto* s = new VarSet{v}; vsTab.emplace(std::move(v), s); return s; }
const VarSet* unionVS(const VarSet* a, const VarSet* b) { if (a == b || b->v.empty()) return a; if (a->v.empty()) return b; 
  if (a->v.size() >= b->v.size() ? std::includes(a->v.begin(), a->v.end(), b->v.begin(), b->v.end()) : false) return a;
  if (b->v.size() > a->v.size() && std::includes(b->v.begin(), b->v.end(), a->v.begin(), a->v.end())) return b;
  std::vector<u32> r; std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r)); return internVS(std::move(r)); }
char* arena = nullptr; size_t arenaLeft = 0;
E mk(Op op, unsigned w, u128 v, E a = nullptr, E b = nullptr, E c = nullptr) {
  Expr x; x.op = op; x.w = w; x.v = v; x.k[0] = a; x.k[1] = b; x.k[2] = c; x.nk = c ? 3 : b ? 2 : a ? 1 : 0;
  u64 h = mix(op * 131 + w, (u64)v); h = mix(h, (u64)(v >> 64)); for (int i = 0; i < x.nk; i++) h = mix(h, x.k[i]->id + 7); x.h = h;
  if (E e = tab.get(x)) return e;
  if (arenaLeft < sizeof(Expr)) { arenaLeft = sizeof(Expr) * 4096; arena = (char*)aligned_alloc(16, arenaLeft); }
  Expr* e = (Expr*)arena; arena += sizeof(Expr); arenaLeft -= sizeof(Expr);
  *e = x; e->id = g_exprs.size();
  if (op == O_VAR) e->vs = internVS(std::vector<u32>{(u32)v}); else { const VarSet* s = &emptyVS; for (int i = 0; i < x.nk; i++) s = unionVS(s, x.k[i]->vs); e->vs = s; }
  e->ht = op == O_TAB; for (int i = 0; i < x.nk; i++) e->ht |= x.k[i]->ht; e->tz = 0; e->um = maskw(w); e->tz = (u8)computeTZ(e); e->um = computeUM(e);
  g_exprs.push_back(e); tab.put(e); return e; }
template <class F> F asF(u128 v) { F f; typename std::conditional<sizeof(F) == 4, u32, u64>::type t = v; memcpy(&f, &t, sizeof f); return f; }
template <class F> u128 ofF(F f) { typename std::conditional<sizeof(F) == 4, u32, u64>::type t; memcpy(&t, &f, sizeof f); return t; }
template <class F> u128 fop(Op op, u128 a, u128 b) { F x = asF<F>(a), y = asF<F>(b); switch (op) { case O_FADD: return ofF<F>(x + y); case O_FSUB: return ofF<F>(x - y); case O_FMUL: return ofF<F>(x * y); case O_FDIV: return ofF<F>(x / y); case O_FLT: return x < y; case O_FLE: return x <= y; case O_FEQ: return x == y; case O_FUNO: return std::isnan(x) || std::isnan(y); default: return 0; } }
}
static E norm(E e);
u128 foldOp(const Expr* e, const u128* kv) {
  unsigned w = e->w; u128 m = maskw(w); u128 a = e->nk > 0 ? kv[0] : 0, b = e->nk > 1 ? kv[1] : 0; unsigned kw = e->nk ? e->k[0]->w : 0;
  switch (e->op) {
  case O_CONST: return e->v;
  case O_ADD: return (a + b) & m; case O_SUB: return (a - b) & m; case O_MUL: return (a * b) & m;
  case O_UDIV: return b ? (a / b) & m : m; case O_UREM: return b ? (a % b) & m : a;
  case O_SDIV: { s128 x = sext128(a, w), y = sext128(b, w); if (!y) return (x < 0 ? 1 : m) & m; if (y == -1) return ((u128)0 - (u128)x) & m; return (u128)(x / y) & m; }
  case O_SREM: { s128 x = sext128(a, w), y = sext128(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
  case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
  case O_SHL: return b >= w ? 0 : (a << (unsigned)b) & m; case O_LSHR: return b >= w ? 0 : a >> (unsigned)b;
  case O_ASHR: { s128 x = sext128(a, w); return (u128)(x >> (unsigned)(b >= w ? (w >= 128 ? 127 : w) - (w >= 128 ? 0 : 0) : b)) & m; }
  case O_EQ: return a == b; case O_ULT: return a < b; case O_ULE: return a <= b;
  case O_SLT: return sext128(a, kw) < sext128(b, kw); case O_SLE: return sext128(a, kw) <= sext128(b, kw);
  case O_ITE: return a ? b : kv[2];
  case O_CONCAT: return (a << e->k[1]->w) | b;
  case O_EXTRACT: return (a >> (unsigned)e->v) & m;
  case O_ZEXT: return a; case O_SEXT: return (u128)sext128(a, kw) & m;
  case O_TAB: { const std::vector<u64>& t = *g_tabs[(size_t)e->v]; return t[a < t.size() ? (size_t)a : t.size() - 1]; }
  case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FLT: case O_FLE: case O_FEQ: case O_FUNO: return kw == 32 ? fop<float>(e->op, a, b) : fop<double>(e->op, a, b);
  case O_FTOSI: { double d = kw == 32 ? asF<float>(a) : asF<double>(a); if (std::isnan(d) || d >= 9.3e18 || d <= -9.3e18) return ((u128)1 << (w - 1)); return (u128)(s128)(int64_t)d & m; }
  case O_FTOUI: { double d = kw == 32 ? asF<float>(a) : asF<double>(a); if (std::isnan(d) || d >= 1.9e19 || d <= -1) return m; return (u128)(u64)d & m; }
  case O_SITOF: { s128 x = sext128(a, kw); return w == 32 ? ofF<float>((float)(int64_t)x) : ofF<double>((double)(int64_t)x); }
  case O_UITOF: return w == 32 ? ofF<float>((float)(u64)a) : ofF<double>((double)(u64)a);
  case O_FTOF: if (kw == w) return a; return w == 32 ? ofF<float>((float)asF<double>(a)) : ofF<double>((double)asF<float>(a));
  default: abort(); }
}
static E tryFold(Op op, unsigned w, u128 v, E a, E b = nullptr, E c = nullptr) {
  if (!a->isConst() || (b && !b->isConst()) || (c && !c->isConst())) return nullptr;
  Expr x; x.op = op; x.w = w; x.v = v; x.k[0] = a; x.k[1] = b; x.k[2] = c; x.nk = c ? 3 : b ? 2 : 1;
  u128 kv[3] = {a->v, b ? b->v : 0, c ? c->v : 0}; return mkConst(foldOp(&x, kv), w); }
E mkConst(u128 v, unsigned w) { return mk(O_CONST, w, v & maskw(w)); }
E mkVar(const std::string& n, unsigned w, int kind) { u32 i = g_vars.size(); g_vars.push_back({n, (uint16_t)w, kind}); return mk(O_VAR, w, i); }
std::vector<const std::vector<u64>*> g_tabs; static std::map<std::vector<u64>, u32> tabIds;
E varExpr(u32 i) { return mk(O_VAR, g_vars[i].w, i); }
E mkNot(E a) { 
  if (a->w == 1) { if (a->op == O_ULT) return mkBin(O_ULE, a->k[1], a->k[0]); if (a->op == O_ULE) return mkBin(O_ULT, a->k[1], a->k[0]); if (a->op == O_SLT) return mkBin(O_SLE, a->k[1], a->k[0]); if (a->op == O_SLE) return mkBin(O_SLT, a->k[1], a->k[0]); }
  return mkBin(O_XOR, a, mkConst(maskw(a->w), a->w)); }
static bool isAllOnes(E e) { return e->isConst() && e->v == maskw(e->w); }
static bool isZero(E e) { return e->isConst() && e->v == 0; }
static unsigned computeTZ(E e) {
  switch (e->op) {
  case O_CONST: { if (!e->v) return e->w; unsigned n = 0; u128 v = e->v; while (!(v & 1)) { n++; v >>= 1; } return n; }
  case O_SHL: if (e->k[1]->isConst()) return std::min<u64>(e->w, knownTZ(e->k[0]) + (u64)e->k[1]->v); return 0;
  case O_MUL: return std::min<unsigned>(e->w, knownTZ(e->k[0]) + knownTZ(e->k[1]));
  case O_ADD: case O_SUB: case O_OR: case O_XOR: return std::min(knownTZ(e->k[0]), knownTZ(e->k[1]));
  case O_AND: return std::max(knownTZ(e->k[0]), knownTZ(e->k[1]));
  case O_CONCAT: { unsigned l = knownTZ(e->k[1]); return l < e->k[1]->w ? l : l + knownTZ(e->k[0]); }
  case O_ITE: return std::min(knownTZ(e->k[1]), knownTZ(e->k[2]));
  case O_ZEXT: case O_SEXT: { unsigned l = knownTZ(e->k[0]); return l >= e->k[0]->w ? e->w : l; }
  default: return 0; } }
static u128 computeUM(E e) { // cheap upper bound
  switch (e->op) {
  case O_CONST: return e->v; case O_ZEXT: return umaxOf(e->k[0]);
  case O_AND: return std::min(umaxOf(e->k[0]), umaxOf(e->k[1]));
  case O_TAB: { u64 m = 0; for (u64 x : *g_tabs[(size_t)e->v]) m = std::max(m, x); return m; }
  case O_ITE: { E c = e->k[0]; u128 a = umaxOf(e->k[1]), b = umaxOf(e->k[2]);
    if (c->op == O_ULE || c->op == O_ULT) { if (c->k[0] == e->k[1] && c->k[1]->isConst()) a = std::min(a, c->k[1]->v); if (c->k[1] == e->k[2] && c->k[0]->isConst()) b = std::min(b, c->k[0]->v); }
    return std::max(a, b); }
  case O_CONCAT: return umaxOf(e->k[0]) << e->k[1]->w | umaxOf(e->k[1]);
  case O_LSHR: if (e->k[1]->isConst() && e->k[1]->v < e->w) return umaxOf(e->k[0]) >> (unsigned)e->k[1]->v; return maskw(e->w);
  case O_UREM: if (e->k[1]->isConst() && e->k[1]->v) return std::min(umaxOf(e->k[0]), e->k[1]->v - 1); return maskw(e->w);
  case O_UDIV: if (e->k[1]->isConst() && e->k[1]->v) return umaxOf(e->k[0]) / e->k[1]->v; return maskw(e->w);
  case O_MUL: if (e->k[1]->isConst() && e->w <= 64) { u128 s = umaxOf(e->k[0]) * e->k[1]->v; return s > maskw(e->w) ? maskw(e->w) : s; } return maskw(e->w);
  case O_ADD: { if (e->w > 126) return maskw(e->w); u128 s = umaxOf(e->k[0]) + umaxOf(e->k[1]); return s > maskw(e->w) ? maskw(e->w) : s; }
  default: return maskw(e->w); } }

// linear normal form: e (of width <= w, read as zero-extended) = sum coeff*term + c  (mod 2^w)
struct Lin { std::map<u32, std::pair<E, u128>> m; u128 c = 0; int budget; unsigned w; int visits = 0; };
static void lin(Lin& L, E e, u128 k) {
  unsigned w = L.w; k &= maskw(w); if (!k) return;
  if (e->isConst()) { L.c = (L.c + k * e->v) & maskw(w); return; }
  if (L.budget-- > 0) {
    if (e->op == O_ZEXT) return lin(L, e->k[0], k);
    if (e->op == O_EXTRACT && e->v == 0 && e->k[0]->w <= w && umaxOf(e->k[0]) <= maskw(e->w)) return lin(L, e->k[0], k);
    if (e->op == O_ADD) { bool ok = e->w == w || (e->w < 126 && umaxOf(e->k[0]) + umaxOf(e->k[1]) <= maskw(e->w)); if (ok) { lin(L, e->k[0], k); lin(L, e->k[1], k); return; } }
    if (e->op == O_SUB && e->w == w) { lin(L, e->k[0], k); lin(L, e->k[1], (u128)0 - k); return; }
    if (e->op == O_MUL && e->k[1]->isConst() && (e->w == w || (e->w < 64 && umaxOf(e->k[0]) * e->k[1]->v <= maskw(e->w)))) return lin(L, e->k[0], k * e->k[1]->v);
    if (e->op == O_CONCAT && isZero(e->k[1]) && e->k[1]->w < w) { E x = e->k[0]; if (e->w == w && x->op == O_EXTRACT && x->v == 0 && x->k[0]->w <= w) x = x->k[0]; return lin(L, x, k << e->k[1]->w); }
  }
  L.visits++; auto it = L.m.find(e->id); if (it == L.m.end()) L.m.emplace(e->id, std::make_pair(e, k)); else { it->second.second = (it->second.second + k) & maskw(w); if (!it->second.second) L.m.erase(it); }
}
static E linBuild(Lin& L) { E r = nullptr; for (auto& t : L.m) { E x = mkZExt(t.second.first, L.w); if (t.second.second != 1) x = mkBin(O_MUL, x, mkConst(t.second.second, L.w)); r = r ? mkBin(O_ADD, r, x) : x; } E c = mkConst(L.c, L.w); return r ? (L.c ? mkBin(O_ADD, r, c) : r) : c; }
static E mkRaw(Op op, E a, E b) { return mk(op, a->w, 0, a, b); }
// (sum) mod c, exact over the naturals: terms that are themselves "x mod c" may be replaced by x
static E uremRaw(E a, u128 c, unsigned w) { u128 ma = umaxOf(a); if (ma < c) return mkExtract(a, 0, w); unsigned k = 0; u128 m = ma > c ? ma : c; while (k < 64 && (m >> k)) k++; E x = mkExtract(a, 0, k), y = mkConst(c, k); if (E f = tryFold(O_UREM, k, 0, x, y)) return mkZExt(f, w); E r = mkRaw(O_UREM, x, y); return mkZExt(r, w); }
static E uremLin(E a, u128 c, unsigned w) {
  Lin L; L.budget = 3000; L.w = 64; E x = a; lin(L, x, 1);
  for (int it = 0; it < 64; it++) { bool ch = false; for (auto& t : L.m) { E u = t.second.first; if (u->op == O_UREM && u->k[1]->isConst() && u->k[1]->v == c) { u128 k = t.second.second; Lin M = L; M.m.erase(t.first); M.budget = 3000; lin(M, u->k[0], k); 
        u128 tot = M.c; bool ok = true; for (auto& q : M.m) { if (q.second.second > ((u128)1 << 60) || umaxOf(q.second.first) > ((u128)1 << 62)) { ok = false; break; } tot += q.second.second * umaxOf(q.second.first); if (tot >> 63) { ok = false; break; } }
        if (ok) { L = M; ch = true; break; } } } if (!ch) break; }
  u128 tot = L.c; for (auto& q : L.m) { if (q.second.second > ((u128)1 << 60) || umaxOf(q.second.first) > ((u128)1 << 62)) return nullptr; tot += q.second.second * umaxOf(q.second.first); if (tot >> 63) return nullptr; }
  L.c %= c; for (auto& q : L.m) { q.second.second %= c; } for (auto q = L.m.begin(); q != L.m.end();) { if (!q->second.second) q = L.m.erase(q); else ++q; }
  E r = linBuild(L); if (r->isConst()) return mkConst(r->v % c, w); return uremRaw(r, c, w); }
// (sum) div c, exact over the naturals: terms with a coefficient divisible by c come out
static E udivLin(E a, u128 c, unsigned w) {
  Lin L; L.budget = 48; L.w = 64; lin(L, a, 1); if (L.m.size() > 8) return nullptr; u128 tot = L.c; for (auto& q : L.m) { if (q.second.second > ((u128)1 << 60) || umaxOf(q.second.first) > ((u128)1 << 62)) return nullptr; tot += q.second.second * umaxOf(q.second.first); if (tot >> 63) return nullptr; }
  Lin D; D.w = 64; D.budget = 0; D.c = L.c / c; L.c %= c; bool any = D.c != 0; for (auto q = L.m.begin(); q != L.m.end();) { u128 k = q->second.second; if (k >= c) { any = true; D.m.emplace(q->first, std::make_pair(q->second.first, k / c)); q->second.second = k % c; } if (!q->second.second) q = L.m.erase(q); else ++q; }
  if (!any) return nullptr; E r = mkBin(O_ADD, linBuild(D), mkBin(O_UDIV, linBuild(L), mkConst(c, 64))); return w == 64 ? r : mkExtract(r, 0, w); }
// x - (x div c) * c is x mod c, and (x div c) * c + x mod c is x again
static bool linDiv(Lin& L) {
  for (auto& t : L.m) { E d = t.second.first; if (d->op == O_ZEXT) d = d->k[0]; if (d->op != O_UDIV || !d->k[1]->isConst() || !d->k[1]->v) continue; u128 c = d->k[1]->v, neg = ((u128)0 - c) & maskw(L.w); E x = d->k[0];
    if (t.second.second == neg) { Lin M = L; M.m.erase(t.first); M.budget = 48; lin(M, x, (u128)0 - 1); if (M.m.empty() && !M.c) { L.m.clear(); L.c = 0; L.budget = 0; lin(L, mkZExt(mkBin(O_UREM, x, d->k[1]), L.w), 1); return true; } }
    for (auto& u : L.m) { E m = u.second.first; if (m->op == O_ZEXT) m = m->k[0]; if (m->op == O_UREM && m->k[0] == x && m->k[1] == d->k[1] && ((u.second.second * c) & maskw(L.w)) == t.second.second) { u128 k = u.second.second; Lin M = L; M.m.erase(t.first); M.m.erase(u.first); M.budget = 48; lin(M, x, k); L = M; return true; } } }
  return false; }
static bool linish(E e) { if (e->op == O_ZEXT) e = e->k[0]; return e->op == O_ADD || e->op == O_SUB || e->op == O_MUL; }
E mkBin(Op op, E a, E b) {
  bool cmp = op >= O_EQ && op <= O_SLE; unsigned w = cmp ? 1 : a->w;
  if (a->w != b->w) { fprintf(stderr, "width mismatch op %d %d %d\n", op, a->w, b->w); abort(); }
  if (E f = tryFold(op, w, 0, a, b)) return f;
  // canonicalise constants to the right for commutative operators
  if (op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ) { if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b); }
  if (op == O_UREM && b->isConst() && b->v && (b->v & (b->v - 1)) && linish(a) && w <= 64) { if (E r = uremLin(a, b->v, w)) return r; }
  if ((op == O_UREM || op == O_UDIV) && w > 8 && !(b->isConst() && b->v == 0)) { u128 ma = umaxOf(a), mb = umaxOf(b); u128 m = ma > mb ? ma : mb; unsigned k = 0; while (k < w && (m >> k)) k++; if (b->isConst() && k < w && !(b->isConst() && (b->v & (b->v - 1)) == 0)) return mkZExt(mkBin(op, mkExtract(a, 0, k), mkExtract(b, 0, k)), w); }
  if ((op == O_SDIV || op == O_SREM) && b->isConst() && b->v && b->v <= (maskw(w) >> 1) && umaxOf(a) <= (maskw(w) >> 1)) return mkBin(op == O_SDIV ? O_UDIV : O_UREM, a, b);
  if (op == O_UDIV && b->isConst() && b->v > 2 && (b->v & (b->v - 1)) && linish(a) && w <= 64) { if (E r = udivLin(a, b->v, w)) return r; }
  switch (op) {
  case O_ADD: if (isZero(b)) return a;
    if (w >= 32 && w <= 64 && (a->op == O_ADD || b->op == O_ADD || a->op == O_MUL || b->op == O_MUL)) { Lin L; L.budget = 48; L.w = w; L.visits = 0; lin(L, a, 1); if (L.m.size() <= 6) { lin(L, b, 1); if (L.budget >= 0 && L.m.size() <= 6) { bool ch = L.visits > (int)L.m.size(); while (L.m.size() <= 6 && linDiv(L)) ch = true; if (ch) return linBuild(L); } } }
    if (b->isConst() && a->op == O_ADD && a->k[1]->isConst()) return mkBin(O_ADD, a->k[0], mkConst(a->k[1]->v + b->v, w));
    if (!b->isConst() && a->op == O_ADD && a->k[1]->isConst()) return mkBin(O_ADD, mkBin(O_ADD, a->k[0], b), a->k[1]);
    if (!b->isConst() && b->op == O_ADD && b->k[1]->isConst()) return mkBin(O_ADD, mkBin(O_ADD, a, b->k[0]), b->k[1]);
    if (a->op == O_SUB && a->k[1] == b) return a->k[0]; if (b->op == O_SUB && b->k[1] == a) return b->k[0];
    break;
  case O_SUB: if (a == b) return mkConst(0, w); if (b->isConst()) return mkBin(O_ADD, a, mkConst((u128)0 - b->v, w));
    if (a->op == O_ADD) { if (a->k[0] == b) return a->k[1]; if (a->k[1] == b) return a->k[0]; 
      if (a->k[1]->isConst()) return mkBin(O_ADD, mkBin(O_SUB, a->k[0], b), a->k[1]); }
    if (b->op == O_ADD) { if (b->k[0] == a) return mkBin(O_SUB, mkConst(0, w), b->k[1]); if (b->k[1] == a) return mkBin(O_SUB, mkConst(0, w), b->k[0]);
      if (b->k[1]->isConst()) return mkBin(O_ADD, mkBin(O_SUB, a, b->k[0]), mkConst((u128)0 - b->k[1]->v, w)); }
    break;
  case O_MUL: if (isZero(b)) return b; if (b->isConst() && b->v == 1) return a;
    if (b->isConst() && (b->v & (b->v - 1)) == 0) { unsigned s = knownTZ(b); return mkBin(O_SHL, a, mkConst(s, w)); } break;
  case O_UDIV: if (b->isConst() && b->v && (b->v & (b->v - 1)) == 0) return mkBin(O_LSHR, a, mkConst(knownTZ(b), w)); break;
  case O_UREM: if (b->isConst() && b->v && (b->v & (b->v - 1)) == 0) return mkBin(O_AND, a, mkConst(b->v - 1, w));
    if (b->isConst() && umaxOf(a) < b->v) return a; break;
  case O_AND: if (isZero(b)) return b; if (isAllOnes(b)) return a; if (a == b) return a;
    if (w == 1 && ((a->op == O_XOR && a->k[0] == b && isAllOnes(a->k[1])) || (b->op == O_XOR && b->k[0] == a && isAllOnes(b->k[1])))) return mkConst(0, 1);
    if (b->isConst()) { u128 m = b->v; // low mask
      if ((m & (m + 1)) == 0) { unsigned n = 0; while (m) { n++; m >>= 1; } return mkZExt(mkExtract(a, 0, n), w); }
      if (a->op == O_ZEXT) return mkZExt(mkBin(O_AND, a->k[0], mkConst(b->v, a->k[0]->w)), w);
      if (a->op == O_AND && a->k[1]->isConst()) return mkBin(O_AND, a->k[0], mkConst(a->k[1]->v & b->v, w)); }
    break;
  case O_OR: if (isZero(b)) return a; if (isAllOnes(b)) return b; if (a == b) return a;
    if (w == 1 && ((a->op == O_XOR && a->k[0] == b && isAllOnes(a->k[1])) || (b->op == O_XOR && b->k[0] == a && isAllOnes(b->k[1])))) return mkConst(1, 1);
    { // disjoint halves -> concat
      for (int s = 0; s < 2; s++) { E x = s ? b : a, y = s ? a : b; unsigned tz = knownTZ(x); if (tz > 0 && tz < w && umaxOf(y) <= maskw(tz)) return mkConcat(mkExtract(x, tz, w - tz), mkExtract(y, 0, tz)); } }
    break;
  case O_XOR: if (isZero(b)) return a; if (a == b) return mkConst(0, w);
    if (b->isConst() && a->op == O_XOR && a->k[1]->isConst()) return mkBin(O_XOR, a->k[0], mkConst(a->k[1]->v ^ b->v, w));
    if (w == 1 && isAllOnes(b)) { if (a->op == O_ULT) return mkBin(O_ULE, a->k[1], a->k[0]); if (a->op == O_ULE) return mkBin(O_ULT, a->k[1], a->k[0]); if (a->op == O_SLT) return mkBin(O_SLE, a->k[1], a->k[0]); if (a->op == O_SLE) return mkBin(O_SLT, a->k[1], a->k[0]); }
    break;
  case O_SHL: if (isZero(b)) return a; if (b->isConst()) { if (b->v >= w) return mkConst(0, w); unsigned s = b->v; return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s)); } break;
  case O_LSHR: if (isZero(b)) return a; if (b->isConst()) { if (b->v >= w) return mkConst(0, w); unsigned s = b->v; return mkZExt(mkExtract(a, s, w - s), w); } break;
  case O_ASHR: if (isZero(b)) return a; if (b->isConst()) { unsigned s = b->v >= w ? w - 1 : (unsigned)b->v; return mkSExt(mkExtract(a, s, w - s), w); } break;
  case O_EQ: if (a == b) return mkTrue();
    if (w == 1 && a->w == 1 && b->isConst()) return b->v ? a : mkNot(a);
    if (b->isConst()) {
      if (a->op == O_ZEXT) { E x = a->k[0]; if (b->v > maskw(x->w)) return mkFalse(); return mkEq(x, mkConst(b->v, x->w)); }
      if (a->op == O_SEXT) { E x = a->k[0]; u128 lo = b->v & maskw(x->w); if (((u128)sext128(lo, x->w) & maskw(a->w)) != b->v) return mkFalse(); return mkEq(x, mkConst(lo, x->w)); }
      if (a->op == O_CONCAT) { unsigned lw = a->k[1]->w; return mkAnd(mkEq(a->k[0], mkConst(b->v >> lw, a->k[0]->w)), mkEq(a->k[1], mkConst(b->v, lw))); }
      if (a->op == O_ADD && a->k[1]->isConst()) return mkEq(a->k[0], mkConst(b->v - a->k[1]->v, a->w));
      if (a->op == O_XOR && a->k[1]->isConst()) return mkEq(a->k[0], mkConst(b->v ^ a->k[1]->v, a->w));
      if (a->op == O_SUB && a->k[0]->isConst()) return mkEq(a->k[1], mkConst(a->k[0]->v - b->v, a->w));
      if (a->op == O_ITE) { E x = a->k[1], y = a->k[2]; if (x->isConst() || y->isConst()) return mkIte(a->k[0], mkEq(x, b), mkEq(y, b)); }
      if (isZero(b) && a->op == O_SUB) return mkEq(a->k[0], a->k[1]);
      if (isZero(b) && a->op == O_OR) return mkAnd(mkEq(a->k[0], b), mkEq(a->k[1], b));
      if (umaxOf(a) < b->v) return mkFalse();
    } else {
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
      if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
      if (a->op == O_CONCAT && b->op == O_CONCAT && a->k[1]->w == b->k[1]->w) return mkAnd(mkEq(a->k[0], b->k[0]), mkEq(a->k[1], b->k[1]));
      if (a->op == O_ADD && b->op == O_ADD && a->k[1] == b->k[1]) return mkEq(a->k[0], b->k[0]);
      if (a->op == O_ADD && (a->k[0] == b || a->k[1] == b)) return mkEq(a->k[0] == b ? a->k[1] : a->k[0], mkConst(0, a->w));
      if (b->op == O_ADD && (b->k[0] == a || b->k[1] == a)) return mkEq(b->k[0] == a ? b->k[1] : b->k[0], mkConst(0, a->w));
      if (a->w > 1 && a->w <= 64 && linish(a) && linish(b)) { Lin L; L.budget = 512; L.w = a->w; lin(L, a, 1); lin(L, b, (u128)0 - 1);
        if (L.m.empty()) return mkBool(L.c == 0);
        if (L.m.size() == 1) { auto& t = L.m.begin()->second; if (t.second == 1) return mkEq(mkZExt(t.first, a->w), mkConst((u128)0 - L.c, a->w)); if (t.second == maskw(a->w)) return mkEq(mkZExt(t.first, a->w), mkConst(L.c, a->w)); }
        if (L.m.size() == 2 && !L.c) { auto& t = L.m.begin()->second; auto& u = L.m.rbegin()->second; if (t.second == 1 && u.second == maskw(a->w) && !(mkZExt(t.first, a->w) == a && mkZExt(u.first, a->w) == b)) { E x = mkZExt(t.first, a->w), y = mkZExt(u.first, a->w); if (!(linish(x) && linish(y))) return mkEq(x, y); } } }
    }
    break;
  case O_ULT: if (a == b) return mkFalse(); if (isZero(b)) return mkFalse(); if (isZero(a)) return mkNot(mkEq(b, mkConst(0, b->w)));
    if (b->isConst() && b->v == 1) return mkEq(a, mkConst(0, a->w));
    if (b->isConst() && umaxOf(a) < b->v) return mkTrue(); if (a->isConst() && umaxOf(b) <= a->v) return mkFalse();
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(O_ULT, a->k[0], b->k[0]);
    if (a->op == O_ZEXT && b->isConst() && b->v <= maskw(a->k[0]->w)) return mkBin(O_ULT, a->k[0], mkConst(b->v, a->k[0]->w));
    if (b->op == O_ZEXT && a->isConst() && a->v <= maskw(b->k[0]->w)) return mkBin(O_ULT, mkConst(a->v, b->k[0]->w), b->k[0]);
    break;
  case O_ULE: if (a == b) return mkTrue(); if (isZero(a)) return mkTrue(); if (isAllOnes(b)) return mkTrue(); if (isZero(b)) return mkEq(a, b);
    if (b->isConst() && umaxOf(a) <= b->v) return mkTrue(); if (a->isConst() && umaxOf(b) < a->v) return mkFalse();
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(O_ULE, a->k[0], b->k[0]);
    if (a->op == O_ZEXT && b->isConst() && b->v <= maskw(a->k[0]->w)) return mkBin(O_ULE, a->k[0], mkConst(b->v, a->k[0]->w));
    if (b->op == O_ZEXT && a->isConst() && a->v <= maskw(b->k[0]->w)) return mkBin(O_ULE, mkConst(a->v, b->k[0]->w), b->k[0]);
    break;
  case O_SLT: if (a == b) return mkFalse();
    if (a->w > 1 && umaxOf(a) <= (maskw(a->w) >> 1) && umaxOf(b) <= (maskw(a->w) >> 1)) return mkBin(O_ULT, a, b);
    if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w) return mkBin(O_SLT, a->k[0], b->k[0]); break;
  case O_SLE: if (a == b) return mkTrue();
    if (a->w > 1 && umaxOf(a) <= (maskw(a->w) >> 1) && umaxOf(b) <= (maskw(a->w) >> 1)) return mkBin(O_ULE, a, b);
    if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w) return mkBin(O_SLE, a->k[0], b->k[0]); break;
  default: break; }
  return norm(mk(op, w, 0, a, b));
}
E mkIte(E c, E a, E b) {
  if (c->isConst()) return c->v ? a : b; if (a == b) return a;
  if (a->w == 1) { if (a->isConst()) return a->v ? mkOr(c, b) : mkAnd(mkNot(c), b); if (b->isConst()) return b->v ? mkOr(mkNot(c), a) : mkAnd(c, a); }
  if (c->op == O_XOR && isAllOnes(c->k[1])) return mkIte(c->k[0], b, a);
  if (a->op == O_ITE && a->k[0] == c) a = a->k[1]; if (b->op == O_ITE && b->k[0] == c) b = b->k[2]; if (a == b) return a;
  if ((c->op == O_ULT || c->op == O_ULE) && a->w > 8 && a->w <= 64) { // one conditional subtraction of K from x < 2K is x mod K
    E x = nullptr, keep, sub; u128 K = 0; if (c->k[1]->isConst()) { x = c->k[0]; K = c->k[1]->v + (c->op == O_ULE); keep = a; sub = b; } else if (c->k[0]->isConst()) { x = c->k[1]; K = c->k[0]->v + (c->op == O_ULT); keep = b; sub = a; }
    if (x && K > 2 && (K & (K - 1)) && x->w >= a->w && x->w <= 64 && keep == mkExtract(x, 0, a->w) && umaxOf(x) < 2 * K && sub == mkExtract(mkBin(O_ADD, x, mkConst((u128)0 - K, x->w)), 0, a->w)) return mkExtract(mkBin(O_UREM, x, mkConst(K, x->w)), 0, a->w); }
  return norm(mk(O_ITE, a->w, 0, c, a, b)); }
E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w; if (w > 128) { fprintf(stderr, "concat too wide\n"); abort(); }
  if (E f = tryFold(O_CONCAT, w, 0, hi, lo)) return f;
  if (isZero(hi)) return mkZExt(lo, w);
  if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->k[0] == lo->k[0] && hi->v == lo->v + lo->w) return mkExtract(hi->k[0], (unsigned)lo->v, w);
  if (hi->op == O_EXTRACT && lo->op != O_EXTRACT && hi->v >= lo->w && (hi->k[0]->op == O_ADD || hi->k[0]->op == O_SUB || hi->k[0]->op == O_MUL) && mkExtract(hi->k[0], (unsigned)hi->v - lo->w, lo->w) == lo) return mkExtract(hi->k[0], (unsigned)hi->v - lo->w, w);
  if (hi->op == O_EXTRACT && lo->op == O_CONCAT && lo->k[0]->op != O_EXTRACT && hi->v >= lo->k[0]->w && (hi->k[0]->op == O_ADD || hi->k[0]->op == O_SUB || hi->k[0]->op == O_MUL) && mkExtract(hi->k[0], (unsigned)hi->v - lo->k[0]->w, lo->k[0]->w) == lo->k[0]) return mkConcat(mkExtract(hi->k[0], (unsigned)hi->v - lo->k[0]->w, hi->w + lo->k[0]->w), lo->k[1]);
  { E h = hi->op == O_ZEXT ? hi->k[0] : hi, l = lo->op == O_CONCAT ? lo->k[0] : lo; auto splits = [](Op o) { return o == O_ADD || o == O_SUB || o == O_MUL || o == O_EXTRACT; }; // the parts of a value that was stored by bytes
    if (h->op == O_EXTRACT && h->v >= l->w && (splits(h->k[0]->op) || l->op == O_EXTRACT) && mkExtract(h->k[0], (unsigned)h->v - l->w, l->w) == l) { E f = mkZExt(mkExtract(h->k[0], (unsigned)h->v - l->w, h->w + l->w), hi->w + l->w); return lo->op == O_CONCAT ? mkConcat(f, lo->k[1]) : f; } }
  // lo may be a full var whose upper part is hi: extract(x, n, ..) ++ extract(x,0,n) handled above; right-assoc normalise
  if (hi->op == O_CONCAT) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
  if (lo->op == O_CONCAT && hi->op == O_EXTRACT && lo->k[0]->op == O_EXTRACT && hi->k[0] == lo->k[0]->k[0] && hi->v == lo->k[0]->v + lo->k[0]->w) return mkConcat(mkExtract(hi->k[0], (unsigned)lo->k[0]->v, hi->w + lo->k[0]->w), lo->k[1]);
  if (lo->op == O_CONCAT && hi->isConst() && lo->k[0]->isConst()) return mkConcat(mkConcat(hi, lo->k[0]), lo->k[1]);
  if (lo->op == O_ZEXT && hi->isConst()) return mkConcat(mkConcat(hi, mkConst(0, lo->w - lo->k[0]->w)), lo->k[0]);
  return norm(mk(O_CONCAT, w, 0, hi, lo)); }
E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a; if (lo + w > a->w || w == 0) { fprintf(stderr, "bad extract\n"); abort(); }
  if (E f = tryFold(O_EXTRACT, w, lo, a)) return f;
  switch (a->op) {
  case O_EXTRACT: return mkExtract(a->k[0], lo + (unsigned)a->v, w);
  case O_CONCAT: { unsigned lw = a->k[1]->w; if (lo >= lw) return mkExtract(a->k[0], lo - lw, w); if (lo + w <= lw) return mkExtract(a->k[1], lo, w); return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo)); }
  case O_ZEXT: { unsigned kw = a->k[0]->w; if (lo >= kw) return mkConst(0, w); if (lo + w <= kw) return mkExtract(a->k[0], lo, w); return mkZExt(mkExtract(a->k[0], lo, kw - lo), w); }
  case O_SEXT: { unsigned kw = a->k[0]->w; if (lo + w <= kw) return mkExtract(a->k[0], lo, w); if (lo == 0) return mkSExt(a->k[0], w); if (lo < kw) return mkSExt(mkExtract(a->k[0], lo, kw - lo), w); return mkSExt(mkExtract(a->k[0], kw - 1, 1), w); }
  case O_AND: case O_OR: case O_XOR: return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
  case O_ADD: if (lo && knownTZ(a->k[0]) >= lo && knownTZ(a->k[1]) >= lo) return mkBin(O_ADD, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
  // fallthrough
  case O_SUB: case O_MUL: if (lo == 0) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w)); break;
  case O_ITE: if (a->k[1]->isConst() || a->k[2]->isConst() || a->k[1]->op == O_ITE || a->k[2]->op == O_ITE || a->k[1]->op == O_CONCAT || a->k[2]->op == O_CONCAT || a->k[1]->op==O_ZEXT || a->k[2]->op==O_ZEXT) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w)); break;
  case O_TAB: if (a->w <= 64) { std::vector<u64> t = *g_tabs[(size_t)a->v]; for (u64& x : t) x = x >> lo & (u64)maskw(w); return mkTab(t, w, a->k[0]); } break;
  default: break; }
  return norm(mk(O_EXTRACT, w, lo, a)); }
E mkZExt(E a, unsigned w) { if (w == a->w) return a; if (w < a->w) return mkExtract(a, 0, w); if (E f = tryFold(O_ZEXT, w, 0, a)) return f; if (a->op == O_ZEXT) return mkZExt(a->k[0], w); if (a->op == O_EXTRACT && a->v == 0 && umaxOf(a->k[0]) <= maskw(a->w)) return mkZExt(a->k[0], w);
  return norm(mk(O_ZEXT, w, 0, a)); }
E mkSExt(E a, unsigned w) { if (w == a->w) return a; if (w < a->w) return mkExtract(a, 0, w); if (E f = tryFold(O_SEXT, w, 0, a)) return f; if (a->op == O_SEXT) return mkSExt(a->k[0], w); if (a->op == O_ZEXT) return mkZExt(a->k[0], w);
  return norm(mk(O_SEXT, w, 0, a)); }
E mkFp(Op op, E a, E b, unsigned w) { if (E f = tryFold(op, w, 0, a, b)) return f; if (op == O_FTOF && a->w == w) return a; return mk(op, w, 0, a, b); }
E rebuild(E e, E* k) {
  switch (e->op) { case O_CONST: case O_VAR: return e; case O_ITE: return mkIte(k[0], k[1], k[2]); case O_CONCAT: return mkConcat(k[0], k[1]); case O_EXTRACT: return mkExtract(k[0], (unsigned)e->v, e->w); case O_ZEXT: return mkZExt(k[0], e->w); case O_SEXT: return mkSExt(k[0], e->w); case O_TAB: return mkTab(*g_tabs[(size_t)e->v], e->w, k[0]);
  default: if (e->op >= O_FADD) return mkFp(e->op, k[0], e->nk > 1 ? k[1] : nullptr, e->w); return mkBin(e->op, k[0], k[1]); } }
static std::vector<u32> stampv; static std::vector<u128> memo; static u32 stamp = 0;
static u128 evalRec(E e, const Model& m) {
  if (e->op == O_CONST) return e->v; if (e->op == O_VAR) return m.get((u32)e->v) & maskw(e->w);
  if (stampv[e->id] == stamp) return memo[e->id];
  // iterative to survive deep DAGs
  std::vector<E> st; st.push_back(e);
  while (!st.empty()) { E x = st.back();
    if (x->op == O_CONST || x->op == O_VAR || stampv[x->id] == stamp) { st.pop_back(); continue; }
    bool ready = true; u128 kv[3];
    for (int i = 0; i < x->nk; i++) { E c = x->k[i]; if (c->op == O_CONST) kv[i] = c->v; else if (c->op == O_VAR) kv[i] = m.get((u32)c->v) & maskw(c->w); else if (stampv[c->id] == stamp) kv[i] = memo[c->id]; else { st.push_back(c); ready = false; } }
    if (!ready) continue;
    memo[x->id] = foldOp(x, kv); stampv[x->id] = stamp; st.pop_back(); }
  return memo[e->id]; }
// A function of one byte that involves a constant table becomes one table over that byte.
static E norm(E e) { if (!e->ht || e->op == O_TAB && e->k[0]->op == O_VAR || e->w > 64 || e->w == 1 || e->vs->v.size() != 1 || g_vars[e->vs->v[0]].w > 8) return e;
  u32 vi = e->vs->v[0]; static Model m; std::vector<u64> t; for (u64 x = 0; x < (1ull << g_vars[vi].w); x++) { m.set(vi, x); t.push_back((u64)evalExpr(e, m)); } return mkTab(t, e->w, varExpr(vi)); }
E mkTab(const std::vector<u64>& t, unsigned w, E idx) { if (idx->isConst()) return mkConst(t[idx->v < t.size() ? (size_t)idx->v : t.size() - 1], w);
  if (idx->op == O_VAR || true) { bool same = true, id = true; for (size_t i = 0; i < t.size(); i++) { same &= t[i] == t[0]; id &= t[i] == i; } if (same) return mkConst(t[0], w); if (id && umaxOf(idx) < t.size()) return w >= idx->w ? mkZExt(idx, w) : mkExtract(idx, 0, w); }
  auto it = tabIds.find(t); u32 n; if (it == tabIds.end()) { n = g_tabs.size(); it = tabIds.emplace(t, n).first; g_tabs.push_back(&it->first); } else n = it->second; return norm(mk(O_TAB, w, n, idx)); }
u128 evalExpr(E e, const Model& m) { if (stampv.size() < g_exprs.size()) { stampv.resize(g_exprs.size() * 2, 0); memo.resize(g_exprs.size() * 2); } stamp++; return evalRec(e, m); }
static const char* opn[] = {"const","var","+","-","*","u/","s/","u%","s%","&","|","^","<<",">>u",">>s","==","<u","<=u","<s","<=s","ite","++","extract","zext","sext","table","f+","f-","f*","f/","f<","f<=","f==","funo","ftosi","ftoui","sitof","uitof","ftof"};
std::string exprStr(E e, int d) { char b[64]; if (e->op == O_CONST) { snprintf(b, 64, "0x%llx:%d", (unsigned long long)e->v, e->w); return b; } if (e->op == O_VAR) return g_vars[(u32)e->v].name; if (d == 0) return "..."; std::string s = std::string("(") + opn[e->op]; if (e->op == O_EXTRACT) { snprintf(b, 64, "[%d+%d]", (int)e->v, e->w); s += b; } for (int i = 0; i < e->nk; i++) s += " " + exprStr(e->k[i], d - 1); return s + ")"; }
static E substRec(E e, const std::map<u32, E>& f, std::unordered_map<u32, E>& mm) {
  if (e->op == O_CONST) return e; if (e->op == O_VAR) { auto it = f.find((u32)e->v); return it == f.end() ? e : it->second; }
  bool hit = false; for (u32 x : e->vs->v) if (f.count(x)) { hit = true; break; } if (!hit) return e;
  auto it = mm.find(e->id); if (it != mm.end()) return it->second;
  E k[3] = {nullptr, nullptr, nullptr}; for (int i = 0; i < e->nk; i++) k[i] = substRec(e->k[i], f, mm);
  E r = rebuild(e, k); mm[e->id] = r; return r; }
E substExpr(E e, const std::map<u32, E>& f) { if (f.empty() || e->vs->v.empty()) return e; std::unordered_map<u32, E> mm; return substRec(e, f, mm); }
