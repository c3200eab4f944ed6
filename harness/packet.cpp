// C18 packet construction, C19 packets from a byte stream, C20 pipes
#include "hutil.h"
#include <cy_core.h>
#include <cy_event.h>
#include "rt_kernel.h"
using namespace cyclone;
static void be16(uint8_t* p, uint32_t v) { p[0] = v >> 8; p[1] = v; }
// p holds a packet of head size hs, id, content (n bytes); head bytes after the first 4 are hx (nullptr: not checked)
static void same(const Packet& p, size_t hs, uint32_t id, const uint8_t* c, size_t n, const uint8_t* hx) {
  SX_ASSERT(p.get_packet_size() == n, "the packet reports the size of its content"); SX_ASSERT(p.get_packet_id() == id, "the packet reports its id"); SX_ASSERT(p.get_memory_size() == hs + n, "memory size is head plus content"); const uint8_t* m = (const uint8_t*)p.get_memory_buf(); SX_ASSERT(m != nullptr, "a packet has memory"); SX_ASSERT((const uint8_t*)p.get_packet_content() == (n ? m + hs : nullptr), "the content follows the head");
  uint8_t h[4]; be16(h, n); be16(h + 2, id); uint8_t bad = 0; for (int i = 0; i < 4; i++) bad |= h[i] ^ m[i]; SX_ASSERT(!bad, "the head starts with big-endian size and id"); for (size_t i = 0; i < n; i++) bad |= m[hs + i] ^ c[i]; SX_ASSERT(!bad, "the content is byte for byte what was put in"); if (hx) for (size_t i = 4; i < hs; i++) bad |= m[i] ^ hx[i - 4]; SX_ASSERT(!bad, "the user part of the head is preserved"); sx_readable(m, hs + n + 8); sx_observe(p.get_memory_size()); }
static void empty(const Packet& p) { SX_ASSERT(p.get_packet_size() == 0 && p.get_packet_id() == 0 && p.get_memory_size() == 0 && p.get_memory_buf() == nullptr && p.get_packet_content() == nullptr, "a cleaned packet is empty"); }
static size_t pick_size(size_t hs) { size_t k = SX_PICK("size class", 0, 8); static const size_t S[] = {0, 1, 2, 7}; if (k < 4) return S[k]; if (k < 8) return 1024 - 8 - hs + (k - 5); return 1100; } // -1,0,+1,+2 around the inline storage limit
HARNESS h_memory() { sx_step_limit(400000); size_t live = sx_heap_live(); { size_t hs = SX_PICK("head", 4, 8), n1 = pick_size(hs), n2 = SX_PICK("part2", 0, 3); uint16_t id = sx_sym("id", 16); uint8_t* c = (uint8_t*)malloc(n1 + n2 + 1); memset(c, 0x5a, n1 + n2 + 1); sx_bytes(c, n1 < 8 ? n1 : 8, "c"); if (n1 > 16) sx_bytes(c + n1 - 4, 4, "ctail"); sx_bytes(c + n1, n2, "c2");
  Packet p; empty(p); if (SX_PICK("used", 0, 1)) p.build_from_memory(4, 77, 3, "xyz"); p.build_from_memory(hs, id, n1, n1 ? (const char*)c : nullptr, n2, n2 ? (const char*)c + n1 : nullptr); same(p, hs, id, c, n1 + n2, nullptr);
  uint8_t hx[4]; sx_bytes(hx, 4, "hx"); for (size_t i = 4; i < hs; i++) p.get_memory_buf()[i] = hx[i - 4]; same(p, hs, id, c, n1 + n2, hx);
  Packet* q = Packet::alloc_packet(&p); SX_ASSERT(q->get_memory_buf() != p.get_memory_buf(), "a copy has its own memory"); same(*q, hs, id, c, n1 + n2, hx); p.clean(); empty(p); same(*q, hs, id, c, n1 + n2, hx); Packet* r = Packet::alloc_packet(&p); empty(*r); Packet::free_packet(r); Packet* s = Packet::alloc_packet(); empty(*s); Packet::free_packet(s); Packet::free_packet(q); free(c); }
  SX_ASSERT(sx_heap_live() == live, "no packet memory is leaked"); sx_reach("end"); }
HARNESS h_memory_max() { sx_step_limit(4000000); size_t n1 = SX_PICK("n1", 65533, 65535), n2 = 65535 - n1; uint8_t* c = (uint8_t*)malloc(65535); memset(c, 7, 65535); sx_bytes(c, 4, "c"); sx_bytes(c + 65531, 4, "d"); uint16_t id = sx_sym("id", 16); Packet p; p.build_from_memory(6, id, n1, (const char*)c, n2, (const char*)c + n1); SX_ASSERT(p.get_packet_size() == 65535 && p.get_packet_id() == id && p.get_memory_size() == 65541, "the largest packet keeps its size and id"); const uint8_t* m = (const uint8_t*)p.get_packet_content(); uint8_t bad = 0; for (size_t i = 0; i < 65535; i += i < 8 || i > 65520 ? 1 : 64) bad |= m[i] ^ c[i]; SX_ASSERT(!bad, "the content is byte for byte what was put in"); free(c); sx_reach("end"); }
// ---- C19: arbitrary bytes, arbitrary arrival split ----
#ifndef ST
#define ST 18
#endif
HARNESS h_stream() { sx_step_limit(400000); size_t hs = SX_PICK("head", 4, 6); size_t total = SX_PICK("total", 0, ST); uint8_t b[ST + 1]; sx_bytes(b, total, "b"); size_t pos = 0, fed = 0, npk = 0; RingBuf rb; size_t cut = SX_PICK("cut", 0, total); Packet p; size_t pre = SX_PICK("pre", 0, 2) * 511; for (size_t i = 0; i < pre; i++) { uint8_t z = 0; rb.memcpy_into(&z, 1); } rb.discard(pre);
  for (int round = 0; round < 2; round++) { size_t n = round ? total - cut : cut; rb.memcpy_into(b + fed, n); fed += n;
    for (;;) { size_t left = fed - pos; bool full = false; size_t sz = 0; if (left >= 2) { sz = (size_t)b[pos] << 8 | b[pos + 1]; full = sx_concrete(left >= hs + sz); } bool got = p.build_from_ringbuf(hs, rb); SX_ASSERT(got == full, "a packet is produced exactly when all of its bytes have arrived"); if (!got) { empty(p); SX_ASSERT(rb.size() == left, "an incomplete packet is left in the buffer"); break; }
      sz = sx_concrete(sz); same(p, hs, (uint32_t)b[pos + 2] << 8 | b[pos + 3], b + pos + hs, sz, b + pos + 4); pos += hs + sz; npk++; SX_ASSERT(rb.size() == fed - pos, "exactly the bytes of the packet are consumed"); } }
  uint8_t rest[ST + 1]; size_t k = rb.memcpy_out(rest, ST); SX_ASSERT(k == fed - pos, "what is left is the unconsumed tail"); uint8_t bad = 0; for (size_t i = 0; i < k; i++) bad |= rest[i] ^ b[pos + i]; SX_ASSERT(!bad, "what is left is the unconsumed tail"); sx_observe(npk); sx_reach("end"); if (npk >= 2) sx_reach("two packets"); }
HARNESS h_big_stream() { sx_step_limit(4000000); size_t n = SX_PICK("n", 1008, 1020); uint8_t* c = (uint8_t*)malloc(n + 8); memset(c, 9, n + 8); uint16_t id = sx_sym("id", 16); be16(c, n); be16(c + 2, id); sx_bytes(c + 4, 3, "c"); RingBuf rb; Packet p; size_t cut = n + 4 - SX_PICK("missing", 0, 1); rb.memcpy_into(c, cut); if (cut < n + 4) { SX_ASSERT(!p.build_from_ringbuf(4, rb), "one byte short is not a packet"); empty(p); rb.memcpy_into(c + cut, n + 4 - cut); } SX_ASSERT(p.build_from_ringbuf(4, rb), "a complete packet is produced"); same(p, 4, id, c + 4, n, nullptr); SX_ASSERT(rb.empty(), "exactly the bytes of the packet are consumed"); free(c); sx_reach("end"); }
// packets sent through a pipe
HARNESS h_pipe_packet() { sx_step_limit(400000); Pipe pipe; size_t hs = SX_PICK("head", 4, 6), n = SX_PICK("n", 0, 6); uint16_t id = sx_sym("id", 16); uint8_t c[8], hx[4]; sx_bytes(c, n, "c"); sx_bytes(hx, 4, "hx"); Packet p, q; p.build_from_memory(hs, id, n, (const char*)c); for (size_t i = 4; i < hs; i++) p.get_memory_buf()[i] = hx[i - 4];
  size_t missing = SX_PICK("missing", 0, hs + n); size_t len = hs + n - missing; if (len) SX_ASSERT(pipe.write(p.get_memory_buf(), len) == (ssize_t)len, "the packet fits the pipe"); bool got = q.build_from_pipe(hs, pipe); SX_ASSERT(got == (missing == 0), "a packet is received from a pipe exactly when it is complete"); if (got) { same(q, hs, id, c, n, hx); char t; SX_ASSERT(pipe.read(&t, 1) < 0, "exactly the bytes of the packet are consumed"); } else empty(q); sx_reach("end"); }
// ---- C20 ----
struct Ref { uint8_t d[256]; size_t r, w; };
HARNESS h_pipe() { sx_step_limit(400000); k_pipe_cap = 8; int before = k_open_count(); { Pipe p; SX_ASSERT(p.get_read_port() != p.get_write_port() && kfd[p.get_read_port()].cloexec && kfd[p.get_write_port()].cloexec, "both ends are distinct and close on exec"); Ref f; f.r = f.w = 0;
  for (int i = 0; i < 3; i++) { uint8_t b[12]; if (SX_PICK("op", 0, 1)) { size_t n = SX_PICK("n", 1, 10); sx_bytes(b, n, "w"); size_t free = 8 - (f.w - f.r); ssize_t k = p.write((const char*)b, n); SX_ASSERT(k == -1 || (k >= 0 && (size_t)k <= n), "write reports how much was taken"); if (n <= free) SX_ASSERT(k == (ssize_t)n, "what fits is taken whole"); if (k < 0) SX_ASSERT(socket_api::is_lasterror_WOULDBLOCK(), "a full pipe reports would-block"); for (ssize_t j = 0; j < k; j++) f.d[f.w++] = b[j]; }
    else { size_t n = SX_PICK("n", 1, 10); memset(b, 0, 12); size_t have = f.w - f.r, e = have < n ? have : n; ssize_t k = p.read((char*)b, n); if (!have) { SX_ASSERT(k == -1, "an empty pipe does not block or end"); SX_ASSERT(socket_api::is_lasterror_WOULDBLOCK(), "an empty pipe reports would-block"); } else { SX_ASSERT(k == (ssize_t)e, "read delivers what is there"); uint8_t bad = 0; for (size_t j = 0; j < e; j++) bad |= b[j] ^ f.d[f.r++]; SX_ASSERT(!bad, "bytes leave the pipe in the order written"); } } } }
  SX_ASSERT(k_open_count() == before, "destroying a pipe closes both ends"); sx_reach("end"); }
HARNESS h_socket_pipe() { sx_step_limit(400000); int before = k_open_count(); k_fail_nth = SX_PICK("fail nth", 0, 16); int nth = k_fail_nth; pipe_port_t h[2] = {99, 99}; bool ok = Pipe::construct_socket_pipe(h); bool injected = nth && !k_fail_nth; k_fail_nth = 0; SX_ASSERT(ok == !injected, "construction succeeds exactly when every step does");
  if (!ok) { SX_ASSERT(h[0] == INVALID_SOCKET && h[1] == INVALID_SOCKET, "failure yields no handles"); SX_ASSERT(k_open_count() == before, "failure leaks no descriptor"); sx_reach("failed"); }
  else { SX_ASSERT(k_open_count() == before + 2, "only the two ends stay open"); SX_ASSERT(kfd[h[0]].nonblock && kfd[h[1]].nonblock && kfd[h[0]].cloexec && kfd[h[1]].cloexec, "both ends are non-blocking and close on exec"); uint8_t b[4], c[4] = {0}; sx_bytes(b, 4, "b"); SX_ASSERT(socket_api::write(h[1], (const char*)b, 4) == 4, "write end accepts data"); SX_ASSERT(socket_api::read(h[0], c, 4) == 4, "read end delivers it"); SX_ASSERT(!memcmp(b, c, 4), "bytes leave the pipe in the order written"); Pipe::destroy_socket_pipe(h); SX_ASSERT(k_open_count() == before, "destroying a pipe closes both ends"); SX_ASSERT(h[0] == INVALID_SOCKET && h[1] == INVALID_SOCKET, "and forgets the handles"); sx_reach("end"); } }
