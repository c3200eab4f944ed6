// Models of the parts of libstdc++ / libc that live in shared libraries (needed only for symbolic execution;
// the native replay uses the real ones). Written against their documented contracts.
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <map>
#include <list>
#include <unordered_map>
#include <string>
#include "sx.h"
template class std::basic_string<char>;
namespace std {
// ---- red-black tree kept as a plain binary search tree: iteration order is all callers rely on ----
static _Rb_tree_node_base* inc(_Rb_tree_node_base* x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static _Rb_tree_node_base* dec(_Rb_tree_node_base* x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return dec(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base* par = z->_M_parent; _Rb_tree_node_base* rep;
  if (!z->_M_left) rep = z->_M_right; else if (!z->_M_right) rep = z->_M_left;
  else { rep = z->_M_right; while (rep->_M_left) rep = rep->_M_left; if (rep->_M_parent != z) { rep->_M_parent->_M_left = rep->_M_right; if (rep->_M_right) rep->_M_right->_M_parent = rep->_M_parent; rep->_M_right = z->_M_right; z->_M_right->_M_parent = rep; } rep->_M_left = z->_M_left; z->_M_left->_M_parent = rep; }
  if (rep) rep->_M_parent = par; if (par == &h) h._M_parent = rep; else if (par->_M_left == z) par->_M_left = rep; else par->_M_right = rep;
  if (!h._M_parent) { h._M_left = &h; h._M_right = &h; } else { _Rb_tree_node_base* m = h._M_parent; while (m->_M_left) m = m->_M_left; h._M_left = m; m = h._M_parent; while (m->_M_right) m = m->_M_right; h._M_right = m; }
  return z; }
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept { if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first; _List_node_base* t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; } }
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { static const size_t pr[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741}; for (size_t p : pr) if (p >= n) { const_cast<_Prime_rehash_policy*>(this)->_M_next_resize = p; return p; } return n; }
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t nb, std::size_t ne, std::size_t ni) const { if (ne + ni > _M_next_resize || _M_next_resize == 0) { size_t want = ne + ni > nb * 2 ? ne + ni : nb * 2; if (ne + ni <= nb && _M_next_resize) { _M_next_resize = nb; return std::make_pair(false, (size_t)0); } return std::make_pair(true, _M_next_bkt(want < 11 ? 11 : want)); } return std::make_pair(false, (size_t)0); }
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* c = (const unsigned char*)p; size_t h = seed; for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull; return h; }
}
extern "C" {
static __thread int sx_errno_;
int* __errno_location(void) throw() { return &sx_errno_; }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) { char* e = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) break; } return 0; }
char* sx_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* sx_strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* sx_strstr(const char* h, const char* n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char*)h; if (!*h) return 0; } }
void* sx_memchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void*)(p + i); return 0; }
void* sx_memrchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; for (size_t i = n; i-- > 0;) if (p[i] == (unsigned char)c) return (void*)(p + i); return 0; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
uint32_t sx_htonl(uint32_t x) { return __builtin_bswap32(x); }
uint32_t sx_ntohl(uint32_t x) { return __builtin_bswap32(x); }
uint16_t sx_htons(uint16_t x) { return __builtin_bswap16(x); }
uint16_t sx_ntohs(uint16_t x) { return __builtin_bswap16(x); }
}
namespace std { __thread void* __once_callable; __thread void (*__once_call)(); }
extern "C" void sx___once_proxy() { std::__once_call(); }
