// Engine-only: the parts of libstdc++/libsupc++/libc that live in shared libraries rather than in
// headers. Everything else of the standard library is executed from its own headers.
#include "sym.h"
#include <cstring>
#include <exception>
#include <functional>
#include <future>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <optional>
#include <any>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <typeinfo>
#include <unordered_map>
#include <variant>
#include <vector>

template class std::basic_string<char>;

extern "C" void rt_throw_bad_alloc() { throw std::bad_alloc(); }
extern "C" int sym_native() { return 0; }

extern "C" {
int __cxa_guard_acquire(char *g) {
  if (g[0]) return 0;
  while (g[1]) { rt_yield("static init"); if (g[0]) return 0; if (g[1]) sym_fail("recursive or contended static initialisation"); }
  g[1] = 1;
  return 1;
}
void __cxa_guard_release(char *g) { g[0] = 1; g[1] = 0; sym_hb(g, 2); }
void __cxa_guard_abort(char *g) { g[1] = 0; }
int getpid() { return 4242; }
int getpagesize() { return 4096; }
}

namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char *bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}

static const char *dupStr(const char *s, size_t n) {
  char *p = (char *)malloc(n + 1);
  for (size_t i = 0; i < n; i++) p[i] = s[i];
  p[n] = 0;
  return p;
}
__cow_string::__cow_string() : _M_p(dupStr("", 0)) {}
__cow_string::__cow_string(const std::string &s) : _M_p(dupStr(s.data(), s.size())) {}
__cow_string::__cow_string(const char *s, size_t n) : _M_p(dupStr(s, n)) {}
__cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(dupStr(o._M_p, strlen(o._M_p))) {}
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { if (this != &o) { free((void *)_M_p); _M_p = dupStr(o._M_p, strlen(o._M_p)); } return *this; }
__cow_string::~__cow_string() { free((void *)_M_p); }
__cow_string::__cow_string(__cow_string &&o) noexcept : _M_p(dupStr(o._M_p, strlen(o._M_p))) {}
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { return *this = (const __cow_string &)o; }

logic_error::logic_error(const string &s) : _M_msg(s) {}
logic_error::logic_error(const char *s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error &o) noexcept : _M_msg(o._M_msg) {}
logic_error::logic_error(logic_error &&o) noexcept : _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return *(const char *const *)&_M_msg; }
runtime_error::runtime_error(const string &s) : _M_msg(s) {}
runtime_error::runtime_error(const char *s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error &o) noexcept : _M_msg(o._M_msg) {}
runtime_error::runtime_error(runtime_error &&o) noexcept : _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return *(const char *const *)&_M_msg; }
#define LE(c) c::c(const string &s) : logic_error(s) {} c::c(const char *s) : logic_error(s) {} c::~c() noexcept {}
#define RE(c) c::c(const string &s) : runtime_error(s) {} c::c(const char *s) : runtime_error(s) {} c::~c() noexcept {}
LE(domain_error) LE(invalid_argument) LE(length_error) LE(out_of_range)
RE(range_error) RE(overflow_error) RE(underflow_error)

struct RtCategory : error_category {
  const char *name() const noexcept override { return "rt"; }
  string message(int) const override { return "rt"; }
};
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition &c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code &c, int i) const noexcept { return *this == c.category() && c.value() == i; }
__cow_string error_category::_M_message(int) const { return __cow_string(); }
static RtCategory catF, catG, catS;
const error_category &future_category() noexcept { return catF; }
namespace _V2 {
const error_category &generic_category() noexcept { return catG; }
const error_category &system_category() noexcept { return catS; }
}
system_error::~system_error() noexcept {}
future_error::~future_error() noexcept {}
const char *future_error::what() const noexcept { return "future_error"; }

void __throw_bad_exception(void) { throw bad_exception(); }
void __throw_bad_alloc(void) { throw bad_alloc(); }
void __throw_bad_array_new_length(void) { throw bad_array_new_length(); }
void __throw_bad_cast(void) { throw bad_cast(); }
void __throw_bad_typeid(void) { throw bad_typeid(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_underflow_error(const char *s) { throw underflow_error(s); }
void __throw_system_error(int i) { throw system_error(error_code(i, catG)); }
void __throw_future_error(int i) { throw future_error(make_error_code(future_errc(i))); }
void __throw_bad_function_call() { throw bad_function_call(); }

// ---- red-black tree primitives: insertion rebalances as the library does (readers that do not lock notice it), removal only relinks
static void rot(_Rb_tree_node_base *x, bool left, _Rb_tree_node_base *&root) {
  _Rb_tree_node_base *y = left ? x->_M_right : x->_M_left;
  if (left) { x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; }
  else { x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; }
  y->_M_parent = x->_M_parent;
  if (x == root) root = y;
  else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
  else x->_M_parent->_M_right = y;
  (left ? y->_M_left : y->_M_right) = x;
  x->_M_parent = y;
}
static _Rb_tree_node_base *inc(_Rb_tree_node_base *x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
static _Rb_tree_node_base *dec(_Rb_tree_node_base *x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return inc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return inc((_Rb_tree_node_base *)x); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return dec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return dec((_Rb_tree_node_base *)x); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  _Rb_tree_node_base *&root = h._M_parent;
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_red;
  if (left) {
    p->_M_left = x;   // also makes leftmost = x when p is the header
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    _Rb_tree_node_base *g = x->_M_parent->_M_parent;
    bool l = x->_M_parent == g->_M_left;
    _Rb_tree_node_base *u = l ? g->_M_right : g->_M_left;
    if (u && u->_M_color == _S_red) { x->_M_parent->_M_color = u->_M_color = _S_black; g->_M_color = _S_red; x = g; continue; }
    if (x == (l ? x->_M_parent->_M_right : x->_M_parent->_M_left)) { x = x->_M_parent; rot(x, l, root); }
    x->_M_parent->_M_color = _S_black;
    g->_M_color = _S_red;
    rot(g, !l, root);
  }
  root->_M_color = _S_black;
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *z, _Rb_tree_node_base &h) throw() {
  auto replace = [&](_Rb_tree_node_base *o, _Rb_tree_node_base *n) {
    if (h._M_parent == o) h._M_parent = n;
    else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n;
    else o->_M_parent->_M_right = n;
    if (n) n->_M_parent = o->_M_parent;
  };
  _Rb_tree_node_base *lm = nullptr, *rm = nullptr;
  if (h._M_left == z) lm = inc(z);
  if (h._M_right == z) rm = dec(z);
  if (!z->_M_left) replace(z, z->_M_right);
  else if (!z->_M_right) replace(z, z->_M_left);
  else {
    _Rb_tree_node_base *y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    replace(z, y);
    y->_M_left = z->_M_left;
    y->_M_left->_M_parent = y;
  }
  if (!h._M_parent) { h._M_left = &h; h._M_right = &h; }
  else { h._M_parent->_M_color = _S_black; if (lm) h._M_left = lm; if (rm) h._M_right = rm; }
  return z;
}
// ---- list primitives
nested_exception::~nested_exception() noexcept = default;
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept {
  if (this != last) {
    last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
    _List_node_base *const t = this->_M_prev;
    this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
  }
}
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) {
      std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev);
      x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y;
    } else {
      y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y;
      x._M_next = x._M_prev = &x;
    }
  } else if (y._M_next != &y) {
    x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x;
    y._M_next = y._M_prev = &y;
  }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
// ---- unordered containers
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const size_t pr[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739, 7517, 15173, 30727};
  for (size_t p : pr) if (p >= n) { _M_next_resize = p; return p; }
  _M_next_resize = n;
  return n;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
  if (elt + ins > _M_next_resize || bkt == 1) {
    size_t want = elt + ins;
    if (want >= bkt) return {true, _M_next_bkt(want + 1 > bkt * 2 ? want + 1 : bkt * 2)};
    _M_next_resize = bkt;
    return {false, 0};
  }
  return {false, 0};
}
}  // namespace __detail
size_t _Hash_bytes(const void *p, size_t n, size_t seed) {
  auto *q = (const unsigned char *)p;
  size_t h = seed ^ n;
  for (size_t i = 0; i < n; i++) h = (h ^ q[i]) * 0x100000001b3ull;
  return h;
}
size_t _Fnv_hash_bytes(const void *p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }
// ---- threads / futures
thread::_State::~_State() = default;
__thread void *__once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy(void) { __once_call(); }
void __future_base::_State_baseV2::_Make_ready::_M_set() {}
__future_base::_Result_base::_Result_base() = default;
__future_base::_Result_base::~_Result_base() = default;
string to_string_dummy() { return {}; }

}  // namespace std
