// Runtime linked into every encoded module: the parts of libstdc++/libc that are not in headers,
// as plain code the engine executes symbolically.
#include <bits/stl_tree.h>
#include <cstddef>
#include <cstring>
#include <new>
#include <stdexcept>
#include <functional>
#include <list>
#include <unordered_map>
#include <optional>
#include <memory>
extern "C" const char* vp_what(void* self) { return *(const char**)((char*)self + 8); }
extern "C" void vp_dtor(void*) {}
extern "C" { extern void* vp_exc_vtable[4]; void* vp_exc_vtable[4] = {(void*)vp_dtor, (void*)vp_dtor, (void*)vp_what, nullptr}; }
extern "C" size_t strlen(const char* s) noexcept { size_t n = 0; while (s[n]) ++n; return n; }
extern "C" int memcmp(const void* a, const void* b, size_t n) noexcept { const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b; for (size_t i = 0; i < n; ++i) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
extern "C" int bcmp(const void* a, const void* b, size_t n) noexcept { return memcmp(a, b, n); }
extern "C" int strcmp(const char* a, const char* b) noexcept { while (*a && *a == *b) { ++a; ++b; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
extern "C" int strncmp(const char* a, const char* b, size_t n) noexcept { for (; n; --n, ++a, ++b) { if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b; if (!*a) return 0; } return 0; }
extern "C" void* vp_memchr_(const void*, int, size_t) __asm__("memchr");
extern "C" void* vp_memchr_(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; for (size_t i = 0; i < n; ++i) if (p[i] == (unsigned char)c) return (void*)(p + i); return nullptr; }
extern "C" int tolower(int c) noexcept { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
extern "C" int toupper(int c) noexcept { return c >= 'a' && c <= 'z' ? c - 32 : c; }
extern "C" int isspace(int c) noexcept { return c == ' ' || (c >= 9 && c <= 13); }
static int vp_errno_; extern "C" int* __errno_location() noexcept { return &vp_errno_; }
extern "C" int isdigit(int c) noexcept { return c >= '0' && c <= '9'; }
// decimal text to number: one exact mantissa and one division or multiplication by a power of ten (exact in real mode, correctly rounded to 15 digits otherwise)
extern "C" double strtod(const char* p, char** end) noexcept {
  const char* q = p; while (isspace((unsigned char)*q)) ++q; bool neg = *q == '-'; if (*q == '-' || *q == '+') ++q; double m = 0; int sc = 0, nd = 0; for (; isdigit((unsigned char)*q); ++q, ++nd) m = m * 10 + (double)(unsigned)(*q & 15);
  if (*q == '.') { ++q; for (; isdigit((unsigned char)*q); ++q, ++nd, --sc) m = m * 10 + (double)(unsigned)(*q & 15); }
  if (!nd) { if ((*q | 32) == 'n' && (q[1] | 32) == 'a' && (q[2] | 32) == 'n') { if (end) *end = (char*)q + 3; return __builtin_nan(""); } if ((*q | 32) == 'i' && (q[1] | 32) == 'n' && (q[2] | 32) == 'f') { if (end) *end = (char*)q + 3; return neg ? -__builtin_inf() : __builtin_inf(); } if (end) *end = (char*)p; return 0; }
  if ((*q | 32) == 'e') { const char* e = q + 1; bool en = *e == '-'; if (*e == '-' || *e == '+') ++e; if (isdigit((unsigned char)*e)) { int x = 0; for (; isdigit((unsigned char)*e); ++e) if (x < 400) x = x * 10 + (*e - '0'); sc += en ? -x : x; q = e; } }
  if (end) *end = (char*)q; double f = 1; for (int k = sc < 0 ? -sc : sc; k; --k) f = f * 10; m = sc < 0 ? m / f : m * f; return neg ? -m : m;
}
extern "C" int isalpha(int c) noexcept { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
extern "C" int isalnum(int c) noexcept { return isdigit(c) || isalpha(c); }
namespace std {
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_bad_alloc() { throw runtime_error("bad_alloc"); }
void __throw_bad_array_new_length() { throw runtime_error("bad_array_new_length"); }
void __throw_bad_function_call() { throw runtime_error("bad_function_call"); }
void __throw_bad_optional_access_() { throw runtime_error("bad_optional"); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
size_t _Hash_bytes(const void*, size_t n, size_t seed) { return seed ^ (n * 1099511628211ULL); } // any function of the text is a hash: this one does not look at (possibly symbolic) characters
// --- red-black tree used as a plain binary search tree (same observable ordering)
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x; }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
  else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x; }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept {
  _Rb_tree_node_base*& root = h._M_parent; 
  auto repl = [&](_Rb_tree_node_base* u, _Rb_tree_node_base* v) { if (u == root) root = v; else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v; else u->_M_parent->_M_right = v; if (v) v->_M_parent = u->_M_parent; };
  if (z == h._M_left) h._M_left = _Rb_tree_increment(z); 
  if (z == h._M_right) { h._M_right = (z->_M_left || z->_M_parent != &h) ? _Rb_tree_decrement(z) : &h; }
  if (!z->_M_left) repl(z, z->_M_right);
  else if (!z->_M_right) repl(z, z->_M_left);
  else { _Rb_tree_node_base* y = z->_M_right; while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
  if (!root) { h._M_left = &h; h._M_right = &h; }
  return z; }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t P[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739}; for (size_t p : P) if (p >= n) { _M_next_resize = p; return p; } return n | 1; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t e, size_t i) const { if (e + i > _M_next_resize || e + i > b) { size_t m = e + i > 2 * b ? e + i : 2 * b; if (b < 2 && m < 11) m = 11; size_t nb = _M_next_bkt(m); _M_next_resize = nb; return {true, nb}; } return {false, 0}; }
namespace { }
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base* first, _List_node_base* last) noexcept { if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first; _List_node_base* t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; } }
}
}
// formatted text only ends up in log messages: it is not modelled
extern "C" int vsprintf(char* p, const char*, __builtin_va_list) noexcept { p[0] = '?'; p[1] = 0; return 1; }
extern "C" int vsnprintf(char* p, size_t n, const char*, __builtin_va_list) noexcept { if (n) p[0] = 0; return 0; }
extern "C" int atoi(const char* s) noexcept { while (*s == ' ') ++s; bool neg = *s == '-'; if (*s == '-' || *s == '+') ++s; int v = 0; while (*s >= '0' && *s <= '9') v = v * 10 + (*s++ - '0'); return neg ? -v : v; }
extern "C" char* vp_strstr_(const char*, const char*) __asm__("strstr");
extern "C" char* vp_strstr_(const char* s, const char* t) { for (;; ++s) { size_t i = 0; while (t[i] && s[i] == t[i]) ++i; if (!t[i]) return (char*)s; if (!*s) return nullptr; } }
extern "C" char* vp_strrchr_(const char*, int) __asm__("strrchr");
extern "C" char* vp_strrchr_(const char* s, int c) { const char* r = nullptr; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
