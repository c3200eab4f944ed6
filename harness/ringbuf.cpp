// C01/C02/C03: RingBuf against a plain FIFO reference model.
#include "hutil.h"
#include <cy_core.h>
#include <cy_crypt.h>
#include <sys/uio.h>
using namespace cyclone;
typedef RefFifo<96> Ref;
#ifndef CAPMAX
#define CAPMAX 4
#endif
static size_t g_cap;
// every reachable shape (capacity, read index, write index) is reached by write k; discard j; write m
static void prestate(RingBuf& rb, Ref& ref) { sx_step_limit(40000);
  uint8_t b[CAPMAX];
  size_t k = SX_PICK("k", 0, g_cap); sx_bytes(b, k, "pre1"); rb.memcpy_into(b, k); ref.put(b, k);
  size_t j = SX_PICK("j", 0, k); SX_ASSERT(rb.discard(j) == j, "discard returns the number of bytes dropped"); ref.drop(j);
  size_t m = SX_PICK("m", 0, g_cap - ref.n); uint8_t c[CAPMAX]; sx_bytes(c, m, "pre2"); rb.memcpy_into(c, m); ref.put(c, m);
  SX_ASSERT(rb.capacity() == g_cap, "writes that fit do not change the capacity");
}
static void same(RingBuf& rb, Ref& ref, const char*) {
  SX_ASSERT(rb.size() == ref.n, "size() equals the number of bytes written and not yet consumed");
  SX_ASSERT(rb.empty() == (ref.n == 0), "empty() iff nothing is buffered");
  SX_ASSERT(rb.capacity() >= ref.n, "capacity() covers the content");
  SX_ASSERT(rb.get_free_size() == rb.capacity() - ref.n, "free size + size == capacity");
  SX_ASSERT(rb.full() == (rb.get_free_size() == 0), "full() iff no free byte");
  uint8_t out[96]; memset(out, 0xEE, sizeof out);
  size_t n = rb.peek(0, out, 96); SX_ASSERT(n == ref.n, "peek returns everything buffered");
  uint8_t bad = 0; for (size_t i = 0; i < ref.n; i++) bad |= out[i] ^ ref.d[i]; for (size_t i = ref.n; i < 96; i++) bad |= out[i] ^ 0xEE;
  SX_ASSERT(bad == 0, "the bytes come out unchanged and in the order written");
  sx_observe(n); sx_observe(rb.capacity());
}
static uint32_t refAdler(const uint8_t* p, size_t n) { uint32_t a = 1, b = 0; for (size_t i = 0; i < n; i++) { a = (a + p[i]) % 65521; b = (b + a) % 65521; } return b << 16 | a; }
static void op(RingBuf& rb, Ref& ref, unsigned which) {
  switch (which) {
  case 0: { uint8_t b[8]; size_t n = SX_PICK("n", 0, g_cap + 3); sx_bytes(b, n, "w"); size_t c0 = rb.capacity(), f0 = rb.get_free_size(); rb.memcpy_into(b, n); ref.put(b, n); if (n <= f0) SX_ASSERT(rb.capacity() == c0, "no growth when it fits"); else SX_ASSERT(rb.capacity() > c0, "capacity grows on overflow"); break; }
  case 1: { uint8_t o[16]; memset(o, 0xEE, 16); size_t n = sx_range("n", 0, 12); size_t e = n < ref.n ? n : ref.n; size_t r = rb.memcpy_out(o, n); SX_ASSERT(r == e, "memcpy_out returns min(count,size)"); e = sx_concrete(e); uint8_t bad = 0; for (size_t i = 0; i < e; i++) bad |= o[i] ^ ref.d[i]; for (size_t i = e; i < 16; i++) bad |= o[i] ^ 0xEE; SX_ASSERT(!bad, "memcpy_out delivers the oldest bytes and nothing else"); ref.drop(e); break; }
  case 2: { size_t n = sx_sym("n", 64); size_t e = n < ref.n ? n : ref.n; size_t r = rb.discard(n); SX_ASSERT(r == e, "discard returns min(count,size)"); e = sx_concrete(e); ref.drop(e); break; }
  case 3: { size_t need = sx_range("need", 0, 20); size_t c0 = rb.capacity(); rb.resize(need); SX_ASSERT(rb.capacity() >= need, "resize(n) leaves capacity >= n"); SX_ASSERT(rb.capacity() >= c0, "resize never shrinks"); break; }
  case 4: { rb.reset(); ref.n = 0; break; }
  case 5: { uint8_t* p = rb.normalize(); SX_ASSERT(p != nullptr, "normalize returns a pointer"); sx_readable(p, ref.n); uint8_t bad = 0; for (size_t i = 0; i < ref.n; i++) bad |= p[i] ^ ref.d[i]; SX_ASSERT(!bad, "normalize exposes the whole content contiguously"); break; }
  case 6: { // peek with any offset and any count
    size_t off = sx_sym("off", 64), cnt = sx_sym("cnt", 64); uint8_t o[16]; memset(o, 0xEE, 16); size_t r = rb.peek(off, o, cnt); size_t avail = off <= ref.n ? ref.n - off : 0; size_t e = cnt < avail ? cnt : avail; SX_ASSERT(r == e, "peek returns min(count, size-off)"); e = sx_concrete(e); off = sx_concrete(e ? off : 0); uint8_t bad = 0; for (size_t i = 0; i < e; i++) bad |= o[i] ^ ref.d[off + i]; for (size_t i = e; i < 16; i++) bad |= o[i] ^ 0xEE; SX_ASSERT(!bad, "peek copies exactly the requested span"); break; }
  case 7: { // moveto another buffer in an arbitrary shape
    RingBuf dst(2); Ref rd; uint8_t t[2]; size_t k = SX_PICK("dk", 0, 2); sx_bytes(t, k, "dpre"); dst.memcpy_into(t, k); rd.put(t, k); size_t j = SX_PICK("dj", 0, k); dst.discard(j); rd.drop(j);
    size_t n = sx_range("n", 0, 10); size_t e = n < ref.n ? n : ref.n; size_t r = rb.moveto(dst, n); SX_ASSERT(r == e, "moveto returns min(count,size)"); e = sx_concrete(e); rd.put(ref.d, e); ref.drop(e); same(dst, rd, "dst"); break; }
  }
}
#define OPH(i) HARNESS h_op##i() { g_cap = SX_PICK("cap", 1, CAPMAX); RingBuf rb(g_cap); Ref ref; prestate(rb, ref); op(rb, ref, i); same(rb, ref, ""); sx_reach("end"); }
OPH(0) OPH(1) OPH(2) OPH(3) OPH(4) OPH(5) OPH(6) OPH(7)
// two arbitrary operations in a row, then drain
HARNESS h_seq() { g_cap = SX_PICK("cap", 1, CAPMAX - 1); RingBuf rb(g_cap); Ref ref; prestate(rb, ref); unsigned a = SX_PICK("op1", 0, 5); op(rb, ref, a); unsigned b = SX_PICK("op2", 0, 5); op(rb, ref, b); same(rb, ref, ""); sx_reach("end"); }
HARNESS h_leak() { uint64_t h0 = sx_heap_live(); { RingBuf rb(SX_PICK("cap", 0, 3)); uint8_t b[9]; size_t n = SX_PICK("n", 0, 9); sx_bytes(b, n, "w"); rb.memcpy_into(b, n); rb.resize(sx_range("need", 0, 40)); size_t m = SX_PICK("m", 0, 4); rb.discard(m); rb.memcpy_into(b, m); rb.normalize(); } SX_ASSERT(sx_heap_live() == h0, "no heap block is leaked"); sx_reach("end"); }
// ---- C02 ----
HARNESS h_search() { g_cap = SX_PICK("cap", 1, CAPMAX); RingBuf rb(g_cap); Ref ref; prestate(rb, ref); size_t off = sx_sym("off", 64); uint8_t c = (uint8_t)sx_sym("c", 8);
  ssize_t r = rb.search(off, c); ssize_t e = -1; for (size_t i = ref.n; i-- > 0;) e = (ssize_t)sx_ite((ref.d[i] == c) & (i >= off), i, (uint64_t)e);
  SX_ASSERT(r == e, "search returns the position of the first match at or after off, or -1"); sx_observe(r); same(rb, ref, ""); sx_reach("end"); }
HARNESS h_checksum() { g_cap = SX_PICK("cap", 1, CAPMAX); RingBuf rb(g_cap); Ref ref; prestate(rb, ref); size_t off = sx_sym("off", 64), cnt = sx_sym("cnt", 64);
  uint32_t r = rb.checksum(off, cnt); bool valid = off <= ref.n && cnt <= ref.n - off && cnt; if (!valid) SX_ASSERT(r == 1, "checksum of an invalid or empty span is 1"); else { off = sx_concrete(off); cnt = sx_concrete(cnt); SX_ASSERT(r == refAdler(ref.d + off, cnt), "checksum equals Adler-32 of the logical span wherever it wraps"); } sx_observe(r); same(rb, ref, ""); sx_reach("end"); }
// ---- C03: socket transfer through a scripted descriptor ----
static uint8_t g_in[160]; static size_t g_total; static int g_mode; static uint8_t g_sent[96]; static size_t g_nsent; static ssize_t g_ret; static int g_calls; static size_t g_asked;
extern "C" ssize_t sx_readv(int fd, const struct iovec* v, int n) { SX_ASSERT(fd == 7, "the caller's descriptor is used"); g_calls++; SX_ASSERT(n >= 0 && n <= 16, "iovec count"); size_t room = 0; for (int i = 0; i < n; i++) { sx_readable(v[i].iov_base, v[i].iov_len); room += v[i].iov_len; } g_asked = room;
  if (g_mode == 1) { errno = EAGAIN; return g_ret = -1; } if (g_mode == 2) { errno = ECONNRESET; return g_ret = -1; } if (g_mode == 3) return g_ret = 0;
  size_t k = g_total < room ? g_total : room; size_t p = 0; for (int i = 0; i < n && p < k; i++) { size_t c = v[i].iov_len < k - p ? v[i].iov_len : k - p; memcpy(v[i].iov_base, g_in + p, c); p += c; } return g_ret = k; }
extern "C" ssize_t sx_writev(int fd, const struct iovec* v, int n) { SX_ASSERT(fd == 7, "the caller's descriptor is used"); g_calls++; size_t tot = 0; for (int i = 0; i < n; i++) { sx_readable(v[i].iov_base, v[i].iov_len); tot += v[i].iov_len; } g_asked = tot; if (g_mode == 1) { errno = EAGAIN; return g_ret = -1; } if (g_mode == 2) { errno = EPIPE; return g_ret = -1; }
  size_t k = SX_PICK("accepted", 0, tot); size_t p = 0; for (int i = 0; i < n && p < k; i++) { size_t c = v[i].iov_len < k - p ? v[i].iov_len : k - p; memcpy(g_sent + g_nsent, v[i].iov_base, c); g_nsent += c; p += c; } return g_ret = k; }
extern "C" ssize_t sx_read(int fd, void* b, size_t n) { struct iovec v = {b, n}; g_total = g_total; return sx_readv(fd, &v, 1); }
extern "C" ssize_t sx_write(int fd, const void* b, size_t n) { struct iovec v = {(void*)b, n}; return sx_writev(fd, &v, 1); }
HARNESS h_read() { g_cap = SX_PICK("cap", 1, 3); RingBuf rb(g_cap); Ref ref; prestate(rb, ref); g_mode = SX_PICK("mode", 0, 3); bool extra = SX_PICK("extra", 0, 1); size_t fr = rb.get_free_size();
  sx_assume(extra || fr > 0); // a caller must leave room when it forbids growth
  g_total = SX_PICK("avail", 1, 9); sx_bytes(g_in, g_total, "in"); ssize_t r = rb.read_socket(7, extra);
  SX_ASSERT(g_calls >= 1, "the descriptor is read");
  if (g_mode) SX_ASSERT(r == (g_mode == 3 ? 0 : -1), "errors and end of stream are reported, not swallowed");
  else { SX_ASSERT(r == g_ret && r > 0, "the number of bytes taken from the descriptor is returned"); SX_ASSERT(extra ? (size_t)r == g_total : (size_t)r == (g_total < fr ? g_total : fr), "everything that fits is read"); ref.put(g_in, r); }
  same(rb, ref, ""); sx_reach("end"); }
HARNESS h_write() { g_cap = SX_PICK("cap", 1, CAPMAX); RingBuf rb(g_cap); Ref ref; prestate(rb, ref); sx_assume(ref.n > 0); g_mode = SX_PICK("mode", 0, 2); ssize_t r = rb.write_socket(7);
  SX_ASSERT(g_asked == ref.n || g_calls != 1, "all buffered bytes are offered to the descriptor");
  if (g_mode) { SX_ASSERT(r == -1, "error is reported"); SX_ASSERT(g_nsent == 0, "nothing sent"); }
  else { SX_ASSERT(r >= 0 && (size_t)r == g_nsent, "the number of bytes accepted is returned"); uint8_t bad = 0; for (size_t i = 0; i < g_nsent; i++) bad |= g_sent[i] ^ ref.d[i]; SX_ASSERT(!bad, "the oldest bytes are sent, in order"); ref.drop(g_nsent); }
  same(rb, ref, ""); sx_reach("end"); }
// ---- large buffers: both wrapped parts around the size of the internal temporary block ----
static size_t edge(const char* n, size_t cap) { static const size_t E[] = {1, 2, 1022, 1023, 1024, 1025, 1026}; size_t k = E[SX_PICK(n, 0, 6)]; if (k > cap) sx_stop(); return k; }
HARNESS h_big() { sx_step_limit(3000000); static const size_t C[] = {1023, 2051, 3000}; size_t cap = C[SX_PICK("cap", 0, 2)]; uint64_t h0 = sx_heap_live(); {
  RingBuf rb(cap); size_t b2 = edge("tail part", cap), b1 = edge("head part", cap); if (b1 + b2 > cap) sx_stop(); unsigned o = SX_PICK("op", 0, 4);
  uint8_t* ref = (uint8_t*)malloc(8192); for (size_t i = 0; i < 8192; i++) ref[i] = (uint8_t)(i * 7 + (i >> 8)); size_t t = cap - (b2 - 1); rb.memcpy_into(ref, cap); rb.discard(t); rb.memcpy_into(ref + cap, b1 + 1); size_t at = t, n = cap - t + b1 + 1; SX_ASSERT(rb.size() == n && n == b1 + b2, "size() equals the number of bytes written and not yet consumed");
  if (o == 0) { uint8_t* p = rb.normalize(); sx_readable(p, n); uint8_t bad = 0; for (size_t i = 0; i < n; i++) bad |= p[i] ^ ref[at + i]; SX_ASSERT(!bad, "normalize shows the whole content contiguously"); SX_ASSERT(rb.capacity() == cap, "flattening does not change the capacity"); }
  if (o == 1) { size_t more = cap - n + SX_PICK("more", 1, 2); rb.memcpy_into(ref + at + n, more); n += more; SX_ASSERT(rb.capacity() >= n, "an append that does not fit grows the buffer"); }
  if (o == 2) { uint8_t* out = (uint8_t*)malloc(b2 + 2); size_t k = b2 - 1 + SX_PICK("k", 0, 2); if (k > n) k = n; size_t g = rb.memcpy_out(out, k); SX_ASSERT(g == k, "copy-out returns the minimum of what was asked and what is there"); uint8_t bad = 0; for (size_t i = 0; i < k; i++) bad |= out[i] ^ ref[at + i]; SX_ASSERT(!bad, "the bytes come out unchanged and in the order written"); at += k; n -= k; free(out); }
  if (o == 3) { RingBuf d; size_t k = rb.moveto(d, b2 + 1); SX_ASSERT(k == b2 + 1 && d.size() == k, "moving returns the number of bytes moved"); uint8_t* out = (uint8_t*)malloc(k); d.peek(0, out, k); uint8_t bad = 0; for (size_t i = 0; i < k; i++) bad |= out[i] ^ ref[at + i]; SX_ASSERT(!bad, "moved bytes arrive unchanged and in order"); at += k; n -= k; free(out); }
  if (o == 4) { size_t k = b2 - 1 + SX_PICK("k", 0, 2); if (k > n) k = n; SX_ASSERT(rb.discard(k) == k, "discard returns the number of bytes dropped"); at += k; n -= k; }
  SX_ASSERT(rb.size() == n && rb.empty() == (n == 0) && rb.get_free_size() == rb.capacity() - n, "sizes agree with the content"); uint8_t* out = (uint8_t*)malloc(n + 1); SX_ASSERT(rb.peek(0, out, n + 1) == n, "peek returns everything buffered"); uint8_t bad = 0; for (size_t i = 0; i < n; i++) bad |= out[i] ^ ref[at + i]; SX_ASSERT(!bad, "the bytes come out unchanged and in the order written"); sx_observe(n); free(out); free(ref); }
  SX_ASSERT(sx_heap_live() == h0, "no memory is leaked"); sx_reach("end"); }
