// Intrinsics shared by the symbolic executor (engine/exec.inc) and the native replay runtime (native/rt.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t vf_nondet(unsigned bits);          // arbitrary value of `bits` bits
uint64_t vf_choose(uint64_t n);             // arbitrary value in [0, n)
void vf_assume(bool c);
void vf_assert(bool c, const char* msg);
void vf_fail(const char* msg);
void vf_reach(const char* label);           // vacuity witness
void vf_log(uint64_t v);
uint64_t vf_param(unsigned i);              // concrete program-shape parameter
int vf_spawn(void (*f)(void*), void* arg);
void vf_join(int t);
int vf_self();
void vf_yield();
void vf_merge();
int vf_alive();
int vf_is_done(int t);
uint64_t vf_alloc_count();                  // operator new calls since the start of vf_main
uint64_t vf_heap_objects();                 // live heap objects (symbolic engine only; 0 natively)
uint64_t vf_g_add(unsigned slot, uint64_t d); // ghost counters; returns the new value
uint64_t vf_g_get(unsigned slot);
void vf_g_set(unsigned slot, uint64_t v);
void vf_ignore_leaks();
void vf_bound(const char* why);             // path outside of the stated bound
int64_t vf_now();
void vf_sleep(int64_t ns);
// primitives used by the library models
void vf_mutex_lock(void* m);
int vf_mutex_trylock(void* m);
void vf_mutex_unlock(void* m);
int vf_cv_wait(void* cv, void* m, int64_t deadline, int timed);
void vf_cv_notify(void* cv, int all);
void vf_hb_acqrel(void* p);
void* vf_malloc(size_t n);
[[noreturn]] void vf_unwind(void* rec, void* ti);
void vf_main();
}
#define VF_STR2(x) #x
#define VF_STR(x) VF_STR2(x)
#define CHECK(c, msg) vf_assert((c), msg)
template <class F>
inline int Spawn(F& f) { return vf_spawn([](void* p) { (*static_cast<F*>(p))(); }, &f); }
#define VF_GHOST __attribute__((section("vf_ghost")))  // oracle state of a harness: no race checks
