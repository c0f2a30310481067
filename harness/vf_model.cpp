// Models of the libstdc++/pthread entry points the library uses, for the symbolic executor only.
// (bitcode; exempt from race checking; every function here stands for a runtime function outside /repo)
#include "vf.h"
#include <chrono>
#include <condition_variable>
#include <exception>
#include <future>
#include <list>
#include <map>
#include <unordered_map>
#include <mutex>
#include <new>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <typeinfo>
#include <time.h>
#include <pthread.h>

// ---------------- exceptions
struct VfHdr { const std::type_info* ti; VfHdr* primary; void (*dtor)(void*); long refs; long handlers; VfHdr* next; bool rethrown; long pad; };
static_assert(sizeof(VfHdr) % 16 == 0);
struct VfEh { VfHdr* caught; unsigned uncaught; };
static thread_local VfEh vf_eh;
static inline VfHdr* hdrOf(void* obj) { return static_cast<VfHdr*>(obj) - 1; }
extern "C" {
void free(void*) noexcept;
void* __cxa_allocate_exception(size_t n) noexcept { auto* h = static_cast<VfHdr*>(vf_malloc(sizeof(VfHdr) + n)); h->ti = nullptr; h->primary = h; h->dtor = nullptr; h->refs = 1; h->handlers = 0; h->next = nullptr; h->rethrown = false; return h + 1; }
void __cxa_free_exception(void* p) noexcept { free(hdrOf(p)); }

static void decref(VfHdr* p) { vf_hb_acqrel(&p->refs); if (--p->refs == 0) { if (p->dtor) p->dtor(p + 1); free(p); } }
__attribute__((noreturn)) void __cxa_throw(void* obj, std::type_info* ti, void (*dtor)(void*)) { auto* h = hdrOf(obj); h->ti = ti; h->dtor = dtor; h->refs = 1; vf_eh.uncaught++; vf_unwind(h, ti); }
void* __cxa_begin_catch(void* rec) noexcept {
  auto* h = static_cast<VfHdr*>(rec); if (vf_eh.uncaught) vf_eh.uncaught--;
  if (h->handlers < 0) h->handlers = -h->handlers + 1; else h->handlers++;
  if (vf_eh.caught != h) { h->next = vf_eh.caught; vf_eh.caught = h; }
  return h->primary + 1;
}
void* __cxa_get_exception_ptr(void* rec) noexcept { return static_cast<VfHdr*>(rec)->primary + 1; }
void __cxa_end_catch() {
  auto* h = vf_eh.caught; if (!h) return;
  if (h->handlers < 0) { if (++h->handlers == 0) vf_eh.caught = h->next; return; }
  if (--h->handlers == 0) { vf_eh.caught = h->next; auto* p = h->primary; if (p != h) free(h); decref(p); }
}
__attribute__((noreturn)) void __cxa_rethrow() { auto* h = vf_eh.caught; if (!h) std::terminate(); h->handlers = -h->handlers; vf_eh.uncaught++; vf_unwind(h, const_cast<std::type_info*>(h->ti)); }
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
void __cxa_call_unexpected(void*) { std::terminate(); }
int __gxx_personality_v0(...) { return 0; }
}
namespace __cxxabiv1 { extern "C" __cxa_refcounted_exception* __cxa_init_primary_exception(void* obj, std::type_info* ti, void (*dtor)(void*)) noexcept { auto* h = hdrOf(obj); h->ti = ti; h->dtor = dtor; h->refs = 0; return reinterpret_cast<__cxa_refcounted_exception*>(h); } }
namespace std {
int uncaught_exceptions() noexcept { return vf_eh.uncaught; }
bool uncaught_exception() noexcept { return vf_eh.uncaught; }
namespace __exception_ptr {
exception_ptr::exception_ptr(void* e) noexcept : _M_exception_object(e) { if (e) _M_addref(); }
void exception_ptr::_M_addref() noexcept { auto* p = hdrOf(_M_exception_object); vf_hb_acqrel(&p->refs); ++p->refs; }
void exception_ptr::_M_release() noexcept { if (_M_exception_object) { decref(hdrOf(_M_exception_object)); _M_exception_object = nullptr; } }
void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
const std::type_info* exception_ptr::__cxa_exception_type() const noexcept { return hdrOf(_M_exception_object)->ti; }
}
exception_ptr current_exception() noexcept { auto* h = vf_eh.caught; if (!h) return exception_ptr(); return exception_ptr(static_cast<void*>(h->primary + 1)); }
void rethrow_exception(exception_ptr p) {
  void* obj; __builtin_memcpy(&obj, &p, sizeof(obj)); auto* prim = hdrOf(obj); prim->refs++;
  auto* h = static_cast<VfHdr*>(vf_malloc(sizeof(VfHdr))); h->ti = prim->ti; h->primary = prim; h->dtor = nullptr; h->refs = 1; h->handlers = 0; h->next = nullptr; h->rethrown = false; vf_eh.uncaught++;
  p.~exception_ptr(); __builtin_memset((void*)&p, 0, sizeof p);
  vf_unwind(h, const_cast<std::type_info*>(h->ti));
}
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
__cow_string::__cow_string() { _M_p = ""; }
__cow_string::__cow_string(const std::string&) { _M_p = ""; }
__cow_string::__cow_string(const char* s, size_t) { _M_p = s; }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = o._M_p; }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
logic_error::logic_error(const char* s) : _M_msg(s, 0) {}
logic_error::logic_error(const string&) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return "logic_error"; }
runtime_error::runtime_error(const char* s) : _M_msg(s, 0) {}
runtime_error::runtime_error(const string&) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return "runtime_error"; }
length_error::~length_error() noexcept {}
out_of_range::~out_of_range() noexcept {}
invalid_argument::invalid_argument(const char* s) : logic_error(s) {}
invalid_argument::~invalid_argument() noexcept {}
length_error::length_error(const char* s) : logic_error(s) {}
out_of_range::out_of_range(const char* s) : logic_error(s) {}
system_error::~system_error() noexcept {}
namespace { struct Cat { void* vt; }; alignas(16) Cat vfCat; }
namespace _V2 { const error_category& generic_category() noexcept { return reinterpret_cast<const error_category&>(vfCat); } const error_category& system_category() noexcept { return reinterpret_cast<const error_category&>(vfCat); } }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_bad_function_call() { throw logic_error("bad_function_call"); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
// ---------------- threads, mutexes, clocks
condition_variable::condition_variable() noexcept { *reinterpret_cast<int*>(this) = 0; }
condition_variable::~condition_variable() {}
void condition_variable::wait(unique_lock<mutex>& l) { vf_cv_wait(this, l.mutex()->native_handle(), 0, 0); }
void condition_variable::notify_one() noexcept { vf_cv_notify(this, 0); }
void condition_variable::notify_all() noexcept { vf_cv_notify(this, 1); }
thread::_State::~_State() {}
static void vfThread(void* p) { auto* s = static_cast<thread::_State*>(p); s->_M_run(); delete s; }
void thread::_M_start_thread(_State_ptr st, void (*)()) { int t = vf_spawn(vfThread, st.release()); *reinterpret_cast<uint64_t*>(&_M_id) = 0x1000 + (uint64_t)t * 0x100; }
void thread::join() { uint64_t id = *reinterpret_cast<uint64_t*>(&_M_id); if (!id) throw runtime_error("join"); vf_join((int)((id - 0x1000) / 0x100)); *reinterpret_cast<uint64_t*>(&_M_id) = 0; }
void thread::detach() { *reinterpret_cast<uint64_t*>(&_M_id) = 0; }
unsigned thread::hardware_concurrency() noexcept { return 2; }
namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return steady_clock::time_point(nanoseconds(vf_now())); }
system_clock::time_point system_clock::now() noexcept { return system_clock::time_point(nanoseconds(vf_now())); } } }
namespace this_thread { void __sleep_for(chrono::seconds s, chrono::nanoseconds ns) { vf_sleep(s.count() * 1000000000 + ns.count()); } }
// ---------------- containers
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto* n = _M_next; auto* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* first, _List_node_base* last) noexcept {
  if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first; auto* t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; } }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t r = n < 13 ? 13 : n | 1; _M_next_resize = (size_t)r; return r; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const { if (elt + ins > bkt || bkt == 1) { return {true, _M_next_bkt(elt + ins < bkt * 2 ? bkt * 2 : elt + ins)}; } return {false, 0}; }
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  auto* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x; }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { auto* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  auto* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept { // unbalanced search tree
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept {
  auto replace = [&](_Rb_tree_node_base* o, _Rb_tree_node_base* n) { if (h._M_parent == o) h._M_parent = n; else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n; if (n) n->_M_parent = o->_M_parent; };
  if (!z->_M_left) { auto* c = z->_M_right; replace(z, c); }
  else if (!z->_M_right) { replace(z, z->_M_left); }
  else { auto* y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } replace(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
  auto* r = h._M_parent; if (!r) { h._M_left = h._M_right = &h; } else { auto* l = r; while (l->_M_left) l = l->_M_left; h._M_left = l; l = r; while (l->_M_right) l = l->_M_right; h._M_right = l; }
  return z; }
}  // namespace std
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { vf_mutex_lock(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { return vf_mutex_trylock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { vf_mutex_unlock(m); return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept { return 0; }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) noexcept { *reinterpret_cast<int*>(m) = 0; return 0; }
int pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) noexcept { return 0; }
int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* t) { return vf_cv_wait(c, m, t->tv_sec * 1000000000LL + t->tv_nsec, 1); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { return vf_cv_wait(c, m, t->tv_sec * 1000000000LL + t->tv_nsec, 1); }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return vf_cv_wait(c, m, 0, 0); }
int pthread_cond_signal(pthread_cond_t* c) noexcept { vf_cv_notify(c, 0); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) noexcept { vf_cv_notify(c, 1); return 0; }
int nanosleep(const timespec* t, timespec*) { vf_sleep(t->tv_sec * 1000000000LL + t->tv_nsec); return 0; }
}
