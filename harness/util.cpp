// C09 ring queue, C10 period statistics, C11 min/max statistics
#include "hutil.h"
#include <cy_core.h>
#include <utility/cyu_ring_queue.h>
#include <utility/cyu_statistics.h>
using namespace cyclone;
#ifndef QCAP
#define QCAP 3
#endif
template <class T, size_t N> struct RefQ { T d[N]; size_t n; size_t lim; RefQ(size_t l) : n(0), lim(l) {} void push(T v) { if (lim && n == lim) pop(1); d[n++] = v; } void pop(size_t k) { if (k > n) k = n; for (size_t i = k; i < n; i++) d[i - k] = d[i]; n -= k; } };
typedef RefQ<uint32_t, 80> Q;
static void qsame(RingQueue<uint32_t>& q, Q& r) {
  SX_ASSERT(q.size() == r.n, "size() equals the number of queued elements"); SX_ASSERT(q.empty() == (r.n == 0), "empty() iff no element"); SX_ASSERT(q.get_free_size() == q.capacity() - r.n, "free size is capacity minus size"); SX_ASSERT(q.capacity() >= r.n, "capacity covers the content");
  if (r.lim) SX_ASSERT(q.capacity() == r.lim, "a fixed queue keeps its capacity");
  uint32_t bad = 0; for (size_t i = 0; i < r.n; i++) bad |= q.get(i) ^ r.d[i]; SX_ASSERT(!bad, "get(i) is the i-th oldest element");
  if (r.n) { SX_ASSERT(q.front() == r.d[0], "front() is the oldest element"); SX_ASSERT(q.back() == r.d[r.n - 1], "back() is the newest element"); }
  size_t k = 0; bad = 0; q.walk([&](size_t i, const uint32_t& v) -> bool { bad |= (i != k) | (k >= r.n) | (v != r.d[k < r.n ? k : 0]); k++; return true; }); SX_ASSERT(!bad && k == r.n, "walk visits every element oldest first with its index");
  k = r.n; bad = 0; q.walk_reserve([&](size_t i, const uint32_t& v) -> bool { k--; bad |= (i != k) | (k >= r.n) | (v != r.d[k < r.n ? k : 0]); return true; }); SX_ASSERT(!bad && k == 0, "reverse walk visits every element newest first with its index");
  sx_observe(q.size()); sx_observe(q.capacity()); }
static void shape(RingQueue<uint32_t>& q, Q& r, size_t cap) { size_t k = SX_PICK("k", 0, cap); for (size_t i = 0; i < k; i++) { uint32_t v = sx_sym("a", 32); q.push(v); r.push(v); } size_t j = SX_PICK("j", 0, k); if (j) { q.pop(j); r.pop(j); } size_t m = SX_PICK("m", 0, cap - r.n); for (size_t i = 0; i < m; i++) { uint32_t v = sx_sym("b", 32); q.push(v); r.push(v); } }
HARNESS h_fixed() { sx_step_limit(200000); size_t cap = SX_PICK("cap", 1, QCAP); RingQueue<uint32_t> q(cap); Q r(cap); SX_ASSERT(q.capacity() == cap, "a fixed queue has the capacity asked for"); shape(q, r, cap); qsame(q, r);
  size_t n = SX_PICK("pushes", 0, cap + 1); for (size_t i = 0; i < n; i++) { uint32_t v = sx_sym("c", 32); q.push(v); r.push(v); } qsame(q, r);
  size_t p = sx_sym("pop", 64); q.pop(p); r.pop(sx_concrete(p > r.n ? r.n : p)); qsame(q, r); uint32_t v = sx_sym("d", 32); q.push(v); r.push(v); qsame(q, r);
  size_t stop = SX_PICK("stop", 0, 2), seen = 0; q.walk([&](size_t, const uint32_t&) -> bool { return seen++ < stop; }); SX_ASSERT(seen == (stop + 1 < r.n ? stop + 1 : r.n), "walk stops when told to"); seen = 0; q.walk_reserve([&](size_t, const uint32_t&) -> bool { return seen++ < stop; }); SX_ASSERT(seen == (stop + 1 < r.n ? stop + 1 : r.n), "reverse walk stops when told to");
  q.reset(); SX_ASSERT(q.empty() && q.size() == 0, "reset empties the queue"); sx_reach("end"); }
// growth at every wrap position: default capacity, read index anywhere, fill to the brim, grow, read back
HARNESS h_grow() { sx_step_limit(400000); RingQueue<uint32_t> q; Q r(0); size_t cap = q.capacity(); sx_assume(cap <= 64); size_t pre = SX_PICK("pre", 0, cap); for (size_t i = 0; i < pre; i++) { q.push(i); } if (pre) q.pop(pre - (pre > 0)); if (pre) { r.push(pre - 1); } qsame(q, r);
  if (SX_PICK("empty", 0, 1)) { q.pop(1); r.pop(1); }
  size_t n = cap - r.n; for (size_t i = 0; i < n; i++) { uint32_t v = i < 2 || i + 2 >= n ? (uint32_t)sx_sym("v", 32) : 1000 + i; q.push(v); r.push(v); } SX_ASSERT(q.capacity() == cap, "no growth while it fits"); size_t drop = SX_PICK("drop", 0, 2); if (drop) { q.pop(drop); r.pop(drop); } for (size_t i = 0; i < 3; i++) { uint32_t v = sx_sym("g", 32); q.push(v); r.push(v); } qsame(q, r); sx_reach("end"); }
// ---- C10 ----
#define NP 3
HARNESS h_period() { sx_step_limit(400000); int32_t period = sx_range("period", 1, 1000000); PeriodValue<int32_t, true> pv(period); SX_ASSERT(pv.get_time_period() == period, "the period is the one asked for");
  size_t n = SX_PICK("n", 0, NP); int64_t t = 1, ts[NP]; int32_t vs[NP]; for (size_t i = 0; i < n; i++) { t += (int64_t)sx_range("dt", 0, 2000000); ts[i] = t; vs[i] = (int32_t)sx_sym("v", 32); pv.push(vs[i], t); }
  SX_ASSERT(pv.total_counts() == n, "nothing is dropped before it expires"); int64_t now = t + (int64_t)sx_range("dnow", 0, 3000000);
  for (int round = 0; round < 2; round++) { auto s = pv.sum_and_counts(now); int32_t es = 0, ec = 0; for (size_t i = 0; i < n; i++) { bool in = ts[i] >= now - period; es += (int32_t)sx_ite(in, (uint32_t)vs[i], 0); ec += (int32_t)sx_ite(in, 1, 0); }
    SX_ASSERT(s.second == ec, "exactly the samples inside the period are counted"); SX_ASSERT(s.first == es, "the sum covers exactly the samples inside the period"); sx_observe(s.first); sx_observe(s.second); now += (int64_t)sx_range("dnow2", 0, 3000000); }
  sx_reach("end"); }
// a full window: the 31st and later samples arrive while the oldest are, or are not, expired
HARNESS h_period_full() { sx_step_limit(800000); int32_t period = SX_PICK("period", 5, 40); PeriodValue<int32_t, false> pv(period); enum { N = 40 }; int64_t ts[N]; int32_t vs[N]; int64_t t = 0; size_t n = SX_PICK("n", 29, 36);
  for (size_t i = 0; i < n; i++) { t += 1; ts[i] = t; vs[i] = i % 8 == 3 ? (int32_t)sx_sym("v", 32) : (int32_t)i; pv.push(vs[i], t); }
  int64_t now = t + SX_PICK("dnow", 0, 3); auto s = pv.sum_and_counts(now); int32_t es = 0, ec = 0; for (size_t i = 0; i < n; i++) if (ts[i] >= now - period) { es += vs[i]; ec++; } SX_ASSERT(s.second == ec && s.first == es, "samples inside the period survive a full window; expired ones are not counted"); sx_reach("end"); }
// ---- C11 (single-threaded part) ----
template <class T> static void mm() { bool init = SX_PICK("init", 0, 1); T lo = 0, hi = 0; bool any = false; T iv = (T)sx_sym("i", sizeof(T) * 8); if (init) { lo = hi = iv; any = true; } MinMaxValue<T> a(iv), b; MinMaxValue<T>& m = init ? a : b;
  if (!init) { SX_ASSERT(m.max() == std::numeric_limits<T>::min() && m.min() == std::numeric_limits<T>::max(), "an untouched tracker holds the neutral values"); }
  size_t n = SX_PICK("n", 0, 3); for (size_t i = 0; i < n; i++) { T v = (T)sx_sym("v", sizeof(T) * 8); m.update(v); if (!any) { lo = hi = v; any = true; } else { lo = (T)sx_ite(v < lo, v, lo); hi = (T)sx_ite(v > hi, v, hi); } }
  if (any) { SX_ASSERT(m.min() == lo, "min() is the smallest value seen"); SX_ASSERT(m.max() == hi, "max() is the largest value seen"); sx_observe(m.min()); } sx_reach("end"); }
HARNESS h_minmax_i32() { mm<int32_t>(); }
HARNESS h_minmax_u64() { mm<uint64_t>(); }
HARNESS h_minmax_i64() { mm<int64_t>(); }
