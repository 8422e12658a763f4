// Pieces of libstdc++.so that the symbolic run needs as bitcode (the native replay uses the real library).
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <string>
#include <stdexcept>
#include <new>
#include <cstring>
#include <cstdlib>
#include <map>
#include <set>
#include <list>
#include <unordered_map>
#include <functional>
#include <typeinfo>
template class std::basic_string<char>;
namespace std {
__cow_string::__cow_string() : _M_p(nullptr) {}
__cow_string::__cow_string(const string& s) { char* p = (char*)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); _M_p = p; }
__cow_string::__cow_string(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; _M_p = p; }
__cow_string::__cow_string(const __cow_string& o) noexcept { size_t n = strlen(o._M_p); char* p = (char*)malloc(n + 1); memcpy(p, o._M_p, n + 1); _M_p = p; }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { size_t n = strlen(o._M_p); char* p = (char*)malloc(n + 1); memcpy(p, o._M_p, n + 1); _M_p = p; return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = o._M_p; }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = o._M_p; return *this; }
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
#define EXC(N, B) N::N(const string& s) : B(s) {} N::N(const char* s) : B(s) {} N::~N() noexcept {}
runtime_error::runtime_error(const string& s) : exception(), _M_msg(s) {}
runtime_error::runtime_error(const char* s) : exception(), _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(), _M_msg(o._M_msg) {}
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
logic_error::logic_error(const string& s) : exception(), _M_msg(s) {}
logic_error::logic_error(const char* s) : exception(), _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(), _M_msg(o._M_msg) {}
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
EXC(invalid_argument, logic_error)
EXC(out_of_range, logic_error)
EXC(length_error, logic_error)
EXC(domain_error, logic_error)
EXC(range_error, runtime_error)
EXC(overflow_error, runtime_error)
// unbalanced binary search tree behind std::map / std::set
typedef _Rb_tree_node_base NB;
static NB* inc(NB* x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { NB* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
// the header is red and its parent's parent is itself; real nodes are black, which distinguishes the header
static NB* dec(NB* x) { if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { NB* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { NB* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
NB* _Rb_tree_increment(NB* x) throw() { return inc(x); }
const NB* _Rb_tree_increment(const NB* x) throw() { return inc((NB*)x); }
NB* _Rb_tree_decrement(NB* x) throw() { return dec(x); }
const NB* _Rb_tree_decrement(const NB* x) throw() { return dec((NB*)x); }
void _Rb_tree_insert_and_rebalance(const bool left, NB* x, NB* p, NB& h) throw() {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
NB* _Rb_tree_rebalance_for_erase(NB* const z, NB& h) throw() {
  NB* x; auto repl = [&](NB* u, NB* v) { if (u == h._M_parent) h._M_parent = v; else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v; else u->_M_parent->_M_right = v; if (v) v->_M_parent = u->_M_parent; };
  if (!z->_M_left || !z->_M_right) { x = z->_M_left ? z->_M_left : z->_M_right; 
    if (h._M_left == z) { if (!z->_M_right) h._M_left = z->_M_parent; else { NB* m = z->_M_right; while (m->_M_left) m = m->_M_left; h._M_left = m; } }
    if (h._M_right == z) { if (!z->_M_left) h._M_right = z->_M_parent; else { NB* m = z->_M_left; while (m->_M_right) m = m->_M_right; h._M_right = m; } }
    if (z == h._M_parent) { h._M_parent = x; if (x) x->_M_parent = &h; } else repl(z, x); }
  else { NB* y = z->_M_right; while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    NB* zp = z->_M_parent; bool root = z == h._M_parent;
    if (root) { h._M_parent = y; y->_M_parent = &h; } else { if (zp->_M_left == z) zp->_M_left = y; else zp->_M_right = y; y->_M_parent = zp; }
    y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
  return z; }
// hash tables: few buckets suffice
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; auto t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t nb, std::size_t ne, std::size_t ni) const { if (ne + ni > nb) return {true, 2 * (ne + ni) + 11}; return {false, 0}; }
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { return n < 13 ? 13 : n; }
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* c = (const unsigned char*)p; size_t h = seed; for (size_t i = 0; i < n; i++) h = h * 31 + c[i]; return h; }
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
type_info::~type_info() {}
}
extern "C" { char __libc_single_threaded = 0; }
extern "C" int vk_team_size() __attribute__((weak));
extern "C" int vk_team_size() { return 1; }
// decimal text is always concrete here; powers of ten up to 22 are exact, so short decimals are correctly rounded
extern "C" int* __errno_location() noexcept { static int e; return &e; }
extern "C" double strtod(const char* s, char** end) noexcept {
  const char* p = s; while (*p == ' ') ++p; bool neg = false; if (*p == '-' || *p == '+') neg = *p++ == '-';
  if ((p[0] == 'n' || p[0] == 'N') && (p[1] == 'a' || p[1] == 'A')) { if (end) *end = (char*)p + 3; return __builtin_nan(""); }
  if ((p[0] == 'i' || p[0] == 'I') && (p[1] == 'n' || p[1] == 'N')) { if (end) *end = (char*)p + 3; return neg ? -__builtin_inf() : __builtin_inf(); }
  double m = 0; int e = 0; bool any = false; for (; *p >= '0' && *p <= '9'; ++p) { m = m * 10 + (*p - '0'); any = true; }
  if (*p == '.') { ++p; for (; *p >= '0' && *p <= '9'; ++p) { m = m * 10 + (*p - '0'); --e; any = true; } }
  if (!any) { if (end) *end = (char*)s; return 0; }
  if (*p == 'e' || *p == 'E') { const char* q = p + 1; bool en = false; if (*q == '-' || *q == '+') en = *q++ == '-'; if (*q >= '0' && *q <= '9') { int v = 0; for (; *q >= '0' && *q <= '9'; ++q) v = v * 10 + (*q - '0'); e += en ? -v : v; p = q; } }
  double t = 1; for (int i = 0; i < (e < 0 ? -e : e); ++i) t *= 10; m = e < 0 ? m / t : m * t; if (end) *end = (char*)p; return neg ? -m : m; }
