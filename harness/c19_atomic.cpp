// C19: yaclib_std::atomic against std::atomic, both executed on the same arbitrary operands.
// params: type, volatile, mode (0 injector off, weak CAS never fails on its own; 1 injector off, weak CAS may be told to fail; 2 injector on),
// number of operations, memory orders (0 default arguments, 1 arbitrary), first operation (99 arbitrary)
#include "vf.h"
#include <yaclib/fault/config.hpp>
#include <yaclib/fault/injector.hpp>
#include <yaclib_std/atomic>
#include <yaclib_std/thread>
#if YACLIB_FAULT == 2
#  include <yaclib/fault/detail/fiber/scheduler.hpp>
#endif
#include <atomic>
#include <cstring>

extern "C" uint64_t vf_rng(uint64_t, uint64_t) {
  return vf_nondet(8);
}

namespace {

int gMode, gLen, gOrders, gFirst, gVolatile;

struct S12 {
  int x[3];
};
struct alignas(8) P8 {
  uint32_t a, b;
};
enum class En : int16_t { A, B };
struct alignas(8) F8 {  // compared by representation, whatever its operator== says
  uint32_t a, b;
  bool operator==(const F8& o) const {
    return a == o.a;
  }
};

template <class T>
T Any() {
  if constexpr (std::is_same_v<T, bool>) {
    return vf_nondet(8) & 1;
  } else {
    T r;
    uint64_t v = vf_nondet(sizeof(T) * 8);
    std::memcpy(&r, &v, sizeof(T));
    return r;
  }
}
template <class T>
uint64_t Bits(T v) {
  uint64_t r = 0;
  std::memcpy(&r, &v, sizeof(T));
  return r;
}
template <class T>
bool Same(T a, T b) {
  if constexpr (std::is_floating_point_v<T>) {
    return Bits(a) == Bits(b) || (a != a && b != b);
  } else {
    return Bits(a) == Bits(b);
  }
}

std::memory_order LoadOrder() {
  static constexpr std::memory_order k[] = {std::memory_order_relaxed, std::memory_order_acquire, std::memory_order_seq_cst, std::memory_order_consume};
  return k[vf_choose(4)];
}
std::memory_order StoreOrder() {
  static constexpr std::memory_order k[] = {std::memory_order_relaxed, std::memory_order_release, std::memory_order_seq_cst};
  return k[vf_choose(3)];
}
std::memory_order RmwOrder() {
  static constexpr std::memory_order k[] = {std::memory_order_relaxed, std::memory_order_acquire, std::memory_order_release, std::memory_order_acq_rel, std::memory_order_seq_cst};
  return k[vf_choose(5)];
}

template <class T, class = void>
struct Arg {
  using Type = T;
};
template <class U>
struct Arg<U*> {
  using Type = std::ptrdiff_t;
};

template <class T>
constexpr bool kInt = std::is_integral_v<T> && !std::is_same_v<T, bool>;
template <class T>
constexpr bool kPtr = std::is_pointer_v<T> && !std::is_void_v<std::remove_pointer_t<T>>;
template <class T>
constexpr int kOps = kInt<T> ? 23 : (kPtr<T> ? 17 : (std::is_floating_point_v<T> ? 13 : 9));

template <class T>
struct Ops {
  int op;
  bool orders;
  T value, expected;
  typename Arg<T>::Type arg;
  std::memory_order o, f;
};
template <class T>
struct Out {
  T ret, expected;
  bool ok;
};

// Runs one operation. `strong` replaces the weak forms (reference).
template <class T, class A>
Out<T> Do(A& a, const Ops<T>& p, bool reference) {
  Out<T> r{p.value, p.expected, true};
  switch (p.op) {
    case 0:
      p.orders ? a.store(p.value, p.o) : a.store(p.value);
      return r;
    case 1:
      r.ret = p.orders ? a.load(p.o) : a.load();
      return r;
    case 2:
      r.ret = a;
      return r;
    case 3:
      r.ret = p.orders ? a.exchange(p.value, p.o) : a.exchange(p.value);
      return r;
    case 4:
      r.ret = (a = p.value);
      return r;
    case 5:
      if (reference)
        r.ok = a.compare_exchange_strong(r.expected, p.value);
      else
        r.ok = a.compare_exchange_weak(r.expected, p.value, p.o, p.f);
      return r;
    case 6:
      if (reference)
        r.ok = a.compare_exchange_strong(r.expected, p.value);
      else
        r.ok = p.orders ? a.compare_exchange_weak(r.expected, p.value, p.o) : a.compare_exchange_weak(r.expected, p.value);
      return r;
    case 7:
      r.ok = a.compare_exchange_strong(r.expected, p.value, p.o, p.f);
      return r;
    case 8:
      r.ok = p.orders ? a.compare_exchange_strong(r.expected, p.value, p.o) : a.compare_exchange_strong(r.expected, p.value);
      return r;
  }
  if constexpr (kInt<T> || kPtr<T> || std::is_floating_point_v<T>) {
    switch (p.op) {
      case 9:
        r.ret = p.orders ? a.fetch_add(p.arg, p.o) : a.fetch_add(p.arg);
        return r;
      case 10:
        r.ret = p.orders ? a.fetch_sub(p.arg, p.o) : a.fetch_sub(p.arg);
        return r;
      case 11:
        r.ret = (a += p.arg);
        return r;
      case 12:
        r.ret = (a -= p.arg);
        return r;
    }
  }
  if constexpr (kInt<T> || kPtr<T>) {
    switch (p.op) {
      case 13:
        r.ret = ++a;
        return r;
      case 14:
        r.ret = a++;
        return r;
      case 15:
        r.ret = --a;
        return r;
      case 16:
        r.ret = a--;
        return r;
    }
  }
  if constexpr (kInt<T>) {
    switch (p.op) {
      case 17:
        r.ret = p.orders ? a.fetch_and(p.arg, p.o) : a.fetch_and(p.arg);
        return r;
      case 18:
        r.ret = p.orders ? a.fetch_or(p.arg, p.o) : a.fetch_or(p.arg);
        return r;
      case 19:
        r.ret = p.orders ? a.fetch_xor(p.arg, p.o) : a.fetch_xor(p.arg);
        return r;
      case 20:
        r.ret = (a &= p.arg);
        return r;
      case 21:
        r.ret = (a |= p.arg);
        return r;
      case 22:
        r.ret = (a ^= p.arg);
        return r;
    }
  }
  vf_fail("no such operation");
  return r;
}


template <class T>
void Step(yaclib_std::atomic<T>& y, std::atomic<T>& s, int i) {
  Ops<T> p{};
  p.op = i == 0 && gFirst != 99 ? gFirst : int(vf_choose(kOps<T>));
  if (p.op >= kOps<T>)
    return;
  p.orders = gOrders;
  p.value = Any<T>();
  p.expected = Any<T>();
  p.arg = Any<typename Arg<T>::Type>();
  p.o = p.f = std::memory_order_seq_cst;
  if (gOrders) {
    if (p.op == 0)
      p.o = StoreOrder();
    else if (p.op == 1)
      p.o = LoadOrder();
    else
      p.o = RmwOrder();
    if (p.op == 5 || p.op == 7)
      p.f = LoadOrder();
    if (p.f == std::memory_order_consume)
      p.f = std::memory_order_acquire;
  }
  const T before = s.load();
  const bool may_fail = (p.op == 5 || p.op == 6) && gMode != 0;
  Out<T> q = [&] {
    if constexpr (!std::is_class_v<T>) {  // a volatile class object cannot be copied
      if (gVolatile)
        return Do<T>(static_cast<volatile yaclib_std::atomic<T>&>(y), p, false);
    }
    return Do<T>(y, p, false);
  }();
  if (may_fail && !q.ok) {
    vf_reach("weak compare_exchange failed");
    CHECK(Same(q.expected, before), "a failed compare_exchange_weak does not store the current value into expected");
    CHECK(Same(y.load(), before), "a failed compare_exchange_weak changes the value");
    return;
  }
  Out<T> r = Do<T>(s, p, true);
  CHECK(q.ok == r.ok, "compare_exchange succeeds or fails where std::atomic does not");
  CHECK(Same(q.ret, r.ret), "the operation returns another value than std::atomic");
  CHECK(Same(q.expected, r.expected), "compare_exchange leaves another value in expected than std::atomic");
  CHECK(Same(y.load(), s.load()), "the operation stores another value than std::atomic");
  if (p.op >= 5 && p.op <= 8 && q.ok)
    vf_reach("compare_exchange succeeded");
}

template <class T>
void Run() {
  {
    yaclib_std::atomic<T> y;
    std::atomic<T> s;
    CHECK(Same(y.load(), s.load()), "default construction");
  }
  const T init = Any<T>();
  yaclib_std::atomic<T> y{init};
  std::atomic<T> s{init};
  CHECK(Same(y.load(), s.load()), "construction from a value");
  for (int i = 0; i < gLen; ++i) {
    Step<T>(y, s, i);
  }
  vf_reach("end");
}

template <class Y, class S>
void FlagOps(Y& y, S& s) {
  bool a = false, b = false;
  switch (gOrders ? vf_choose(4) : 2 * vf_choose(2)) {
    case 0:
      a = y.test_and_set();
      b = s.test_and_set();
      break;
    case 1: {
      auto o = RmwOrder();
      a = y.test_and_set(o);
      b = s.test_and_set(o);
      break;
    }
    case 2:
      y.clear();
      s.clear();
      break;
    case 3: {
      auto o = StoreOrder();
      y.clear(o);
      s.clear(o);
      break;
    }
  }
  if (gOrders) {
    yaclib_std::atomic_thread_fence(RmwOrder());
    yaclib_std::atomic_signal_fence(RmwOrder());
  }
  CHECK(a == b, "test_and_set returns another value than std::atomic_flag");
}
void RunFlag() {
  yaclib_std::atomic_flag y;
  std::atomic_flag s;
  for (int i = 0; i < gLen; ++i) {
    if (gVolatile)
      FlagOps(static_cast<volatile yaclib_std::atomic_flag&>(y), static_cast<volatile std::atomic_flag&>(s));
    else
      FlagOps(y, s);
  }
  CHECK(y.test_and_set() == s.test_and_set(), "the flag holds another value than std::atomic_flag");
  yaclib_std::atomic_flag z = ATOMIC_FLAG_INIT;
  CHECK(!z.test_and_set(), "ATOMIC_FLAG_INIT");
  vf_reach("end");
}

void Main(int type) {
  switch (type) {
    case 0:
      return Run<bool>();
    case 1:
      return Run<int8_t>();
    case 2:
      return Run<uint8_t>();
    case 3:
      return Run<int16_t>();
    case 4:
      return Run<uint16_t>();
    case 5:
      return Run<int32_t>();
    case 6:
      return Run<uint32_t>();
    case 7:
      return Run<int64_t>();
    case 8:
      return Run<uint64_t>();
    case 9:
      return Run<char16_t>();
    case 10:
      return Run<wchar_t>();
    case 11:
      return Run<unsigned long long>();
    case 12:
      return Run<float>();
    case 13:
      return Run<double>();
    case 14:
      return Run<int*>();
    case 15:
      return Run<S12*>();
    case 16:
      return Run<const char*>();
    case 17:
      return Run<void*>();
    case 18:
      return Run<En>();
    case 19:
      return RunFlag();
#ifndef NOSTRUCT
    case 20:
      return Run<F8>();
    case 21:
      return Run<P8>();
#endif
  }
}

}  // namespace

void vf_main() {
  const int type = vf_param(0);
  gVolatile = vf_param(1);
  gMode = vf_param(2);
  gLen = vf_param(3);
  gOrders = vf_param(4);
  gFirst = vf_param(5);
  yaclib::SetAtomicFailFrequency(gMode == 0 ? 0 : 3);
  if (gMode != 2) {
    yaclib::GetInjector()->Disable();
    return Main(type);
  }
  yaclib::SetFaultFrequency(1);
#if YACLIB_FAULT == 2
  yaclib::fiber::SetFaultRandomListPick(1);
  yaclib::fault::Scheduler scheduler;
  yaclib::fault::Scheduler::Set(&scheduler);
  yaclib_std::thread t{[&] {
    Main(type);
  }};
  t.join();
  yaclib::fault::Scheduler::Set(nullptr);
#else
  Main(type);
#endif
}
