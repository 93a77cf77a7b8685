// C++ runtime support for symbolic execution
#include <cstdlib>
#include <cstdint>
#include <cstddef>
#include <new>
#include <string>
#include <list>
#include <map>
#include <iostream>
#include "symx.h"
extern "C" void *__sym_malloc(size_t, int); extern "C" void __sym_free(void *);
void *operator new(size_t n) { return __sym_malloc(n, 0xA5); }
void *operator new[](size_t n) { return __sym_malloc(n, 0xA5); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return __sym_malloc(n, 0xA5); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return __sym_malloc(n, 0xA5); }
void operator delete(void *p) noexcept { __sym_free(p); }
void operator delete[](void *p) noexcept { __sym_free(p); }
void operator delete(void *p, size_t) noexcept { __sym_free(p); }
void operator delete[](void *p, size_t) noexcept { __sym_free(p); }
extern "C" { int __cxa_atexit(void (*)(void *), void *, void *) { return 0; } void __cxa_pure_virtual() { __sym_fail("abort", "pure virtual call"); } void *__dso_handle = 0; 
void __cxa_throw_bad_array_new_length() { __sym_fail("abort", "bad array length"); }
extern char _ZTVN10__cxxabiv120__si_class_type_infoE[]; 
struct ti { void *vp; const char *name; ti *base; };
void *__dynamic_cast(const void *p, const void *src, const void *dst, ptrdiff_t) {
  const void *const *vt = *(const void *const *const *)p; const ti *t = (const ti *)vt[-1]; ptrdiff_t top = (ptrdiff_t)vt[-2];
  const char *obj = (const char *)p + top;
  for (;;) { if (t == dst) return (void *)obj; if (t->vp != (void *)(_ZTVN10__cxxabiv120__si_class_type_infoE + 16)) return nullptr; t = t->base; }
} }
template class std::basic_string<char>;
namespace std {
#define T(n) void n { __sym_fail("abort", #n); }
void __throw_length_error(const char *) { __sym_fail("abort", "std::length_error"); __builtin_unreachable(); }
void __throw_logic_error(const char *) { __sym_fail("abort", "std::logic_error"); __builtin_unreachable(); }
void __throw_out_of_range_fmt(const char *, ...) { __sym_fail("abort", "std::out_of_range"); __builtin_unreachable(); }
void __throw_out_of_range(const char *) { __sym_fail("abort", "std::out_of_range"); __builtin_unreachable(); }
void __throw_invalid_argument(const char *) { __sym_fail("abort", "std::invalid_argument"); __builtin_unreachable(); }
void __throw_bad_alloc() { __sym_fail("abort", "std::bad_alloc"); __builtin_unreachable(); }
void __throw_bad_array_new_length() { __sym_fail("abort", "std::bad_array_new_length"); __builtin_unreachable(); }
void __throw_bad_function_call() { __sym_fail("abort", "std::bad_function_call"); __builtin_unreachable(); }
void __throw_bad_cast() { __sym_fail("abort", "std::bad_cast"); __builtin_unreachable(); }
void __glibcxx_assert_fail(const char *, int, const char *, const char *c) noexcept { __sym_fail("assert", c); __builtin_unreachable(); }
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = this->_M_next, *q = this->_M_prev; q->_M_next = n; n->_M_prev = q; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { _List_node_base *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
}
typedef _Rb_tree_node_base *B;
static B inc(B x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { B y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static B decr(B x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { B y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { B y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
B _Rb_tree_increment(B x) noexcept { return inc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return inc(const_cast<B>(x)); }
B _Rb_tree_decrement(B x) noexcept { return decr(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return decr(const_cast<B>(x)); }
static void rotl(B x, B &root) { B y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotr(B x, B &root) { B y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, B x, B p, _Rb_tree_node_base &h) noexcept {
  B &root = h._M_parent; x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    B xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) { B y = xpp->_M_right; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; } else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotr(xpp, root); } }
    else { B y = xpp->_M_left; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; } else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotl(xpp, root); } } }
  root->_M_color = _S_black; }
B _Rb_tree_rebalance_for_erase(B const z, _Rb_tree_node_base &h) noexcept {
  B &root = h._M_parent, &leftmost = h._M_left, &rightmost = h._M_right; B y = z, x = 0, xp = 0;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) { z->_M_left->_M_parent = y; y->_M_left = z->_M_left; if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y; y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z; }
  else { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (!z->_M_right) leftmost = z->_M_parent; else { B m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
    if (rightmost == z) { if (!z->_M_left) rightmost = z->_M_parent; else { B m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } } }
  if (y->_M_color != _S_red) {
    while (x != root && (!x || x->_M_color == _S_black))
      if (x == xp->_M_left) { B w = xp->_M_right; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
        if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl(xp, root); break; } }
      else { B w = xp->_M_left; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
        if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr(xp, root); break; } }
    if (x) x->_M_color = _S_black; }
  return y; }
static basic_streambuf<char> b_out, b_err, b_in;
ostream cout(&b_out), cerr(&b_err), clog(&b_err); istream cin(&b_in);
static struct Init { Init() { b_out.f = stdout; b_err.f = stderr; b_in.f = stdin; } } init_;
}
// what refactored code may pull in from libstdc++
#include <unordered_map>
#include <exception>
#include <stdexcept>
#include <system_error>
namespace std {
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { size_t h = seed ^ 14695981039346656037UL; const unsigned char *c = (const unsigned char *)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211UL; } return __sym_concretize(h); }
size_t _Fnv_hash_bytes(const void *p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t P[] = {1, 2, 5, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043, 85229, 172933, 351061, 712697, 1447153}; size_t r = P[19]; for (size_t i = 0; i < 20; i++) if (P[i] >= n) { r = P[i]; break; } _M_next_resize = r; return r; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > _M_next_resize || ne + ni > nb) { size_t w = ne + ni > nb * 2 ? ne + ni : nb * 2; if (w < 11) w = 11; if (ne + ni > nb) return {true, _M_next_bkt(w + 1)}; _M_next_resize = nb; } return {false, 0}; }
}
void __throw_runtime_error(const char *) { __sym_fail("abort", "std::runtime_error"); __builtin_unreachable(); }
void __throw_domain_error(const char *) { __sym_fail("abort", "std::domain_error"); __builtin_unreachable(); }
void __throw_overflow_error(const char *) { __sym_fail("abort", "std::overflow_error"); __builtin_unreachable(); }
void __throw_range_error(const char *) { __sym_fail("abort", "std::range_error"); __builtin_unreachable(); }
void __throw_system_error(int) { __sym_fail("abort", "std::system_error"); __builtin_unreachable(); }
void __throw_bad_exception() { __sym_fail("abort", "std::bad_exception"); __builtin_unreachable(); }
void __throw_bad_typeid() { __sym_fail("abort", "std::bad_typeid"); __builtin_unreachable(); }
void terminate() noexcept { __sym_fail("abort", "std::terminate"); __builtin_unreachable(); }
}
extern "C" {
int __cxa_guard_acquire(char *g) { return !*g; } void __cxa_guard_release(char *g) { *g = 1; } void __cxa_guard_abort(char *) {}
void *__cxa_allocate_exception(size_t n) { return __sym_malloc(n + 128, 0xA5); } void __cxa_free_exception(void *) {}
void __cxa_throw(void *, void *, void (*)(void *)) { __sym_fail("abort", "uncaught C++ exception"); __builtin_unreachable(); }
void __cxa_rethrow() { __sym_fail("abort", "rethrow"); __builtin_unreachable(); } void *__cxa_begin_catch(void *p) { return p; } void __cxa_end_catch() {}
char __libc_single_threaded = 1;
}
