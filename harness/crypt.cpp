// C14 Adler-32, C15 xorshift stream
#include "hutil.h"
#include <cy_core.h>
#include <cy_crypt.h>
using namespace cyclone;
#ifndef AN
#define AN 20
#endif
static uint32_t ref(uint32_t st, const uint8_t* p, size_t n) { uint64_t a = st & 0xffff, b = st >> 16; for (size_t i = 0; i < n; i++) { a += p[i]; b += a; } return (uint32_t)((b % 65521) << 16 | a % 65521); }
static uint32_t start() { uint32_t a = sx_sym("a", 16) % 65521, b = sx_sym("b", 16) % 65521; return b << 16 | a; }
HARNESS h_adler() { uint32_t st = start(); size_t n = SX_PICK("n", 0, AN); uint8_t* p = (uint8_t*)malloc(n + 1); sx_bytes(p, n, "p"); uint32_t r = adler32(st, p, n); SX_ASSERT(r == ref(st, p, n), "running Adler-32 over the bytes"); sx_observe(r); free(p); sx_reach("end"); }
HARNESS h_adler_split() { uint32_t st = start(); size_t n = SX_PICK("n", 0, 5), k = SX_PICK("k", 0, n); uint8_t p[8]; sx_bytes(p, n, "p"); uint32_t one = adler32(st, p, n), two = adler32(adler32(st, p, k), p + k, n - k); SX_ASSERT(one == two, "the result does not depend on how the data is split into calls"); SX_ASSERT(adler32(st, nullptr, n) == 1, "a null buffer yields the initial value"); sx_observe(one); sx_reach("end"); }
HARNESS h_adler_big() { sx_step_limit(4000000); static const size_t N[] = {5535, 5551, 5552, 5553, 5567, 5568, 11104, 11121}; size_t n = N[SX_PICK("len", 0, 7)]; uint32_t st = start(); uint8_t c = sx_sym("c", 8), f = sx_sym("f", 8), l = sx_sym("l", 8); uint8_t* p = (uint8_t*)malloc(n); for (size_t i = 0; i < n; i++) p[i] = c; p[0] = f; p[n - 1] = l;
  uint32_t r = adler32(st, p, n); SX_ASSERT(r == ref(st, p, n), "no overflow in long runs"); sx_observe(r); free(p); sx_reach("end"); }
HARNESS h_adler_max() { sx_step_limit(40000000); size_t n = 5552 * 2 + 7; uint32_t st = 65520u << 16 | 65520u; uint8_t* p = (uint8_t*)malloc(n); for (size_t i = 0; i < n; i++) p[i] = 255; uint8_t c = sx_sym("c", 8); p[n - 1] = c; uint32_t r = adler32(st, p, n); SX_ASSERT(r == ref(st, p, n), "no overflow with the largest bytes"); sx_observe(r); free(p); sx_reach("end"); }
// ---- C15 ----
#ifndef XN
#define XN 26
#endif
struct Gen { uint64_t a, b; uint64_t next() { uint64_t x = a, y = b; a = y; x ^= x << 23; b = x ^ (x >> 17) ^ y ^ (y >> 26); return b + y; } };
HARNESS h_xor() { XorShift128 s; s.seed0 = sx_sym("s0", 64); s.seed1 = sx_sym("s1", 64); Gen g = {s.seed0, s.seed1}; XorShift128 s2 = s; size_t n = SX_PICK("n", 0, XN), off = SX_PICK("align", 0, 3); uint8_t buf[XN + 12], org[XN + 12]; sx_bytes(buf, sizeof buf, "buf"); memcpy(org, buf, sizeof buf);
  xorshift128(buf + off, n, s); uint8_t bad = 0; uint64_t k = 0; for (size_t i = 0; i < n; i++) { if (i % 8 == 0) k = g.next(); bad |= buf[off + i] ^ org[off + i] ^ (uint8_t)(k >> (i % 8 * 8)); } SX_ASSERT(!bad, "the buffer is xored with the keystream of the generator"); SX_ASSERT(s.seed0 == g.a && s.seed1 == g.b, "the generator advances once per started 8 bytes");
  for (size_t i = 0; i < off; i++) bad |= buf[i] ^ org[i]; for (size_t i = off + n; i < sizeof buf; i++) bad |= buf[i] ^ org[i]; SX_ASSERT(!bad, "bytes outside the buffer are untouched");
  xorshift128(buf + off, n, s2); for (size_t i = 0; i < sizeof buf; i++) bad |= buf[i] ^ org[i]; SX_ASSERT(!bad, "applying the stream of the same seed twice restores the data"); SX_ASSERT(s2.seed0 == s.seed0 && s2.seed1 == s.seed1, "both sides end in the same state"); sx_observe(s.seed0); sx_reach("end"); }
HARNESS h_xor_chunk() { XorShift128 a; a.seed0 = sx_sym("s0", 64); a.seed1 = sx_sym("s1", 64); XorShift128 b = a; uint8_t x[32], y[32]; sx_bytes(x, 32, "x"); memcpy(y, x, 32); size_t n = SX_PICK("n", 0, 31), k = SX_PICK("k", 0, n / 8) * 8; xorshift128(x, n, a); xorshift128(y, k, b); xorshift128(y + k, n - k, b); uint8_t bad = 0; for (size_t i = 0; i < 32; i++) bad |= x[i] ^ y[i]; SX_ASSERT(!bad, "splitting at a multiple of 8 bytes gives the same stream"); SX_ASSERT(a.seed0 == b.seed0 && a.seed1 == b.seed1, "and the same state"); sx_reach("end"); }
// ---- C16: AES-128 in CBC mode against FIPS-197, written down directly ----
static uint8_t SB[256]; static uint8_t xt(uint8_t a) { return (uint8_t)(a << 1) ^ (uint8_t)(-(a >> 7) & 0x1b); }
static void sbox() { uint8_t p = 1, q = 1; do { p = p ^ xt(p); q ^= q << 1; q ^= q << 2; q ^= q << 4; if (q & 0x80) q ^= 9; uint8_t x = q ^ (uint8_t)(q << 1 | q >> 7) ^ (uint8_t)(q << 2 | q >> 6) ^ (uint8_t)(q << 3 | q >> 5) ^ (uint8_t)(q << 4 | q >> 4); SB[p] = x ^ 0x63; } while (p != 1); SB[0] = 0x63; }
struct Aes { uint8_t k[11][16]; Aes(const uint8_t* key) { memcpy(k[0], key, 16); uint8_t rc = 1; for (int r = 1; r <= 10; r++) { for (int i = 0; i < 4; i++) { k[r][i] = k[r - 1][i] ^ SB[k[r - 1][12 + (i + 1) % 4]]; if (i == 0) k[r][0] ^= rc; } for (int i = 4; i < 16; i++) k[r][i] = k[r - 1][i] ^ k[r][i - 4]; rc = xt(rc); } }
  void block(const uint8_t* in, uint8_t* out) { uint8_t s[16], t[16]; for (int i = 0; i < 16; i++) s[i] = in[i] ^ k[0][i]; for (int r = 1; r <= 10; r++) { for (int c = 0; c < 4; c++) for (int i = 0; i < 4; i++) t[c * 4 + i] = SB[s[(c + i) % 4 * 4 + i]]; if (r < 10) for (int c = 0; c < 4; c++) { uint8_t* a = t + c * 4; uint8_t all = a[0] ^ a[1] ^ a[2] ^ a[3]; for (int i = 0; i < 4; i++) s[c * 4 + i] = a[i] ^ all ^ xt(a[i] ^ a[(i + 1) % 4]); } else memcpy(s, t, 16); for (int i = 0; i < 16; i++) s[i] ^= k[r][i]; } memcpy(out, s, 16); } };
static void cbc(const uint8_t* key, const uint8_t* in, uint8_t* out, size_t n, uint8_t* iv) { Aes a(key); for (size_t i = 0; i < n; i += 16) { uint8_t x[16]; for (int j = 0; j < 16; j++) x[j] = in[i + j] ^ iv[j]; a.block(x, out + i); memcpy(iv, out + i, 16); } }
static bool eqn(const uint8_t* a, const uint8_t* b, size_t n) { bool ok = true; for (size_t i = 0; i < n; i++) ok = ok & (a[i] == b[i]); return ok; }
static void fill(uint8_t* p, size_t n, int bg, int salt) { for (size_t i = 0; i < n; i++) p[i] = bg == 0 ? 0 : bg == 1 ? (uint8_t)(i * 37 + salt * 11 + 5) : 0xff - (uint8_t)(i * i * 3 + salt); }
// one arbitrary byte of the key, the vector or the data, over several backgrounds: equal to the standard, and undone by decryption
static void aes_case(int nb) { sbox(); uint8_t key[16], iv[16], in[64], want[64], out[64], back[64], v1[16], v2[16]; int bg = SX_PICK("background", 0, 2); fill(key, 16, bg, 1); fill(iv, 16, bg, 2); fill(in, 64, bg, 3); size_t n = nb * 16; int where = SX_PICK("arbitrary byte in", 0, 2), pos = SX_PICK("position", 0, where == 2 ? n - 1 : 15); sx_bytes((where == 0 ? key : where == 1 ? iv : in) + pos, 1, "byte");
  Rijndael r(key); memcpy(v1, iv, 16); cbc(key, in, want, n, v1); memcpy(v2, iv, 16); memset(out, 0xA5, 64); r.encrypt(in, out, n, v2); SX_ASSERT(eqn(out, want, n), "encryption is AES-128 in CBC mode"); SX_ASSERT(eqn(v1, v2, 16), "the vector ends as the last block"); for (size_t i = n; i < 64; i++) SX_ASSERT(out[i] == 0xA5, "nothing beyond the data is written");
  memcpy(v2, iv, 16); memset(back, 0x5A, 64); r.decrypt(want, back, n, v2); SX_ASSERT(eqn(back, in, n), "decryption undoes encryption"); SX_ASSERT(eqn(v1, v2, 16), "the vector ends as the last block"); for (size_t i = n; i < 64; i++) SX_ASSERT(back[i] == 0x5A, "nothing beyond the data is written"); sx_reach("end"); }
HARNESS h_aes() { sx_step_limit(20000000); aes_case(1); }
HARNESS h_aes2() { sx_step_limit(20000000); aes_case(2); }
// any ciphertext byte: decryption is the inverse of the standard
HARNESS h_aes_dec() { sx_step_limit(20000000); sbox(); uint8_t key[16], iv[16], c[16], p[16], v[16], e[16]; int bg = SX_PICK("background", 0, 2); fill(key, 16, bg, 1); fill(iv, 16, bg, 2); fill(c, 16, bg, 3); sx_bytes(c + SX_PICK("position", 0, 15), 1, "byte"); Rijndael r(key); memcpy(v, iv, 16); r.decrypt(c, p, 16, v); memcpy(v, iv, 16); cbc(key, p, e, 16, v); SX_ASSERT(eqn(e, c, 16), "encryption undoes decryption"); sx_reach("end"); }
// any key, vector and data: calls compose, in place or not, with the caller's vector or the default one
HARNESS h_aes_any() { sx_step_limit(40000000); uint8_t key[16], iv[16], in[48], a[48], b[48], v1[16], v2[16]; sx_bytes(key, 16, "key"); sx_bytes(in, 48, "data"); bool dec = SX_PICK("decrypt", 0, 1), dflt = SX_PICK("default vector", 0, 1); size_t n = SX_PICK("blocks", 0, 3) * 16, k = SX_PICK("split", 0, n / 16) * 16; if (dflt) memcpy(iv, Rijndael::DefaultIV, 16); else sx_bytes(iv, 16, "iv"); Rijndael r(key), r2(key); const uint8_t* in0 = in; memcpy(v1, iv, 16); memset(a, 1, 48);
  if (dec) r.decrypt(in, a, n, dflt ? nullptr : v1); else r.encrypt(in, a, n, dflt ? nullptr : v1); if (dflt && n) memcpy(v1, dec ? in + n - 16 : a + n - 16, 16); memcpy(b, in, 48); memcpy(v2, iv, 16);
  if (dec) { r2.decrypt(b, b, k, v2); r2.decrypt(b + k, b + k, n - k, v2); } else { r2.encrypt(b, b, k, v2); r2.encrypt(b + k, b + k, n - k, v2); } SX_ASSERT(eqn(a, b, n), "parts and in-place calls yield the same as one call"); SX_ASSERT(eqn(v1, v2, 16), "the vector chains the parts"); SX_ASSERT(eqn(b + n, in + n, 48 - n), "nothing beyond the data is written"); for (size_t i = n; i < 48; i++) SX_ASSERT(a[i] == 1, "nothing beyond the data is written"); SX_ASSERT(eqn(in0, in, 48), "the input is not changed"); sx_reach("end"); }
// one arbitrary data byte over given backgrounds, 1..3 blocks: in place or not, in parts, with the default vector: as the standard says
HARNESS h_aes_place() { sx_step_limit(20000000); sbox(); uint8_t key[16], iv[16], in[48], other[48], a[48], v[16], e[16]; int bg = SX_PICK("background", 0, 2); fill(key, 16, bg, 1); fill(iv, 16, bg, 2); fill(in, 48, bg, 3); bool dec = SX_PICK("decrypt", 0, 1), dflt = SX_PICK("default vector", 0, 1); size_t n = SX_PICK("blocks", 1, 3) * 16, k = SX_PICK("split", 0, n / 16 - 1) * 16; if (dflt) memcpy(iv, Rijndael::DefaultIV, 16);
  size_t pos = SX_PICK("position", 0, 2) * 16; if (pos >= n) pos = n - 16; sx_bytes(in + pos + 5, 1, "byte"); memcpy(v, iv, 16); memcpy(other, in, 48); cbc(key, in, other, n, v); memcpy(e, v, 16); const uint8_t *src = dec ? other : in, *want = dec ? in : other; Rijndael r(key); memcpy(v, iv, 16); bool place = SX_PICK("in place", 0, 1); memcpy(a, src, 48); const uint8_t* from = place ? a : src; bool cut = k > 0;
  if (cut) { if (dec) r.decrypt(from, a, k, v); else r.encrypt(from, a, k, v); } uint8_t* vec = dflt && !cut ? nullptr : v; if (dec) r.decrypt(from + k, a + k, n - k, vec); else r.encrypt(from + k, a + k, n - k, vec); SX_ASSERT(eqn(a, want, n), "calls in parts and in place yield what the standard says"); if (vec) SX_ASSERT(eqn(v, e, 16), "the vector chains the parts"); SX_ASSERT(eqn(a + n, src + n, 48 - n), "nothing beyond the data is written"); sx_reach("end"); }
