// Shared client-side pieces of the harnesses: a payload whose life is tracked, recording executors, error types.
#pragma once
#include "vf.h"
#include <yaclib/exe/executor.hpp>
#include <yaclib/exe/job.hpp>
#include <yaclib/util/result.hpp>
#include <exception>
#include <stdexcept>
#include <cstdlib>

// ghost slots 56..63 are used here; harnesses use 0..55
// G_ROLE + thread id: which executor the thread belongs to
enum : unsigned { G_ROLE = 64, G_LIVE = 63, G_COPIES = 62, G_FUNC_LIVE = 61 };

// A value that knows whether it is alive, moved-from or torn: b must be ~a while it is readable.
struct Val {
  uint32_t a, b;
  uint32_t life;
  static constexpr uint32_t kAlive = 0xA11CE, kDead = 0xDEAD, kMoved = 0x5151;
  Val() : Val{0u} {
  }
  explicit Val(uint32_t v) : a{v}, b{~v}, life{kAlive} {
    vf_g_add(G_LIVE, 1);
  }
  Val(const Val& o) : a{o.a}, b{o.b}, life{kAlive} {
    CHECK(o.life == kAlive, "copied from a destroyed or moved-from value");
    vf_g_add(G_LIVE, 1);
    vf_g_add(G_COPIES, 1);
  }
  Val(Val&& o) noexcept : a{o.a}, b{o.b}, life{kAlive} {
    CHECK(o.life == kAlive, "moved from a destroyed or moved-from value");
    o.life = kMoved;
    vf_g_add(G_LIVE, 1);
  }
  Val& operator=(const Val& o) {
    CHECK(o.life == kAlive, "copied from a destroyed or moved-from value");
    CHECK(life == kAlive || life == kMoved, "assigned to a destroyed value");
    a = o.a;
    b = o.b;
    life = kAlive;
    return *this;
  }
  Val& operator=(Val&& o) noexcept {
    CHECK(o.life == kAlive, "moved from a destroyed or moved-from value");
    CHECK(life == kAlive || life == kMoved, "assigned to a destroyed value");
    a = o.a;
    b = o.b;
    life = kAlive;
    if (&o != this)
      o.life = kMoved;
    return *this;
  }
  ~Val() {
    CHECK(life == kAlive || life == kMoved, "value destroyed twice");
    life = kDead;
    vf_g_add(G_LIVE, ~0ull);
  }
  bool Is(uint32_t v) const {
    return life == kAlive && a == v && b == ~v;
  }
};

// An error type that carries a code; StopTag gives code 0 with stop set.
struct Err {
  uint32_t code;
  bool stop;
  Err(yaclib::StopTag) noexcept : code{0}, stop{true} {
  }
  explicit Err(uint32_t c) noexcept : code{c}, stop{false} {
  }
  static const char* What() noexcept {
    return "Err";
  }
  bool operator==(const Err& o) const {
    return code == o.code && stop == o.stop;
  }
};

struct Exc : std::exception {
  uint32_t code;
  explicit Exc(uint32_t c) : code{c} {
  }
  const char* what() const noexcept override {
    return "Exc";
  }
};

// A plain summary of a Result, comparable.
struct Sum {
  int kind;  // 0 value, 1 exception, 2 error, 3 empty, 4 stop error, 9 corrupt
  uint32_t v;
  bool operator==(const Sum& o) const {
    return kind == o.kind && v == o.v;
  }
};
inline uint32_t ExcCode(const std::exception_ptr& p) {
  if (!p)
    return 0xBAD0BAD0;
  try {
    std::rethrow_exception(p);
  } catch (const Exc& e) {
    return e.code;
  } catch (...) {
    return 0xBAD0BAD1;
  }
}
inline Sum SumOf(const yaclib::Result<Val, Err>& r) {
  switch (r.State()) {
    case yaclib::ResultState::Value:
      return {r.Value().life == Val::kAlive && r.Value().b == ~r.Value().a ? 0 : 9, r.Value().a};
    case yaclib::ResultState::Exception:
      return {1, ExcCode(r.Exception())};
    case yaclib::ResultState::Error:
      return {r.Error().stop ? 4 : 2, r.Error().code};
    default:
      return {3, 0};
  }
}
inline Sum SumOf(const yaclib::Result<void, Err>& r) {
  switch (r.State()) {
    case yaclib::ResultState::Value:
      return {0, 0};
    case yaclib::ResultState::Exception:
      return {1, ExcCode(r.Exception())};
    case yaclib::ResultState::Error:
      return {r.Error().stop ? 4 : 2, r.Error().code};
    default:
      return {3, 0};
  }
}

// Runs jobs in place; counts them; can refuse from its k-th submission on (k = ~0: never).
struct InExec final : yaclib::IExecutor {
  int slot;           // ghost slot counting jobs called, slot + 1: dropped, slot + 2: currently inside
  uint64_t refuse;    // submissions accepted before refusing
  explicit InExec(int s, uint64_t r = ~0ull) : slot{s}, refuse{r} {
  }
  Type Tag() const noexcept final {
    return Type::Custom;
  }
  bool Alive() const noexcept final {
    return refuse != 0;
  }
  void Submit(yaclib::Job& j) noexcept final {
    if (refuse == 0) {
      vf_g_add(slot + 1, 1);
      j.Drop();
      return;
    }
    if (refuse != ~0ull)
      --refuse;
    vf_g_add(slot, 1);
    vf_g_add(slot + 2, 1);
    j.Call();
    vf_g_add(slot + 2, ~0ull);
  }
  uint64_t Called() const {
    return vf_g_get(slot);
  }
  uint64_t Dropped() const {
    return vf_g_get(slot + 1);
  }
  bool Inside() const {
    return vf_g_get(slot + 2) != 0;
  }
};

// Every submitted job gets a thread of its own (a pool with enough workers for all); refuses from the k-th submission on.
struct SpawnExec final : yaclib::IExecutor {
  struct Arg {
    yaclib::Job* job;
    int slot;
  };
  int slot;  // slot: submissions accepted, slot + 1: dropped, slot + 2 ..: thread ids
  uint64_t refuse;
  explicit SpawnExec(int s, uint64_t r = ~0ull) : slot{s}, refuse{r} {
  }
  Type Tag() const noexcept final {
    return Type::Custom;
  }
  bool Alive() const noexcept final {
    return vf_g_get(slot) < refuse;
  }
  void Submit(yaclib::Job& j) noexcept final {
    if (vf_g_get(slot) >= refuse) {
      vf_g_add(slot + 1, 1);
      j.Drop();
      return;
    }
    auto n = vf_g_add(slot, 1);
    auto* a = static_cast<Arg*>(vf_malloc(sizeof(Arg)));  // not counted as an allocation of the library
    a->job = &j;
    a->slot = slot;
    int t = vf_spawn(
      [](void* p) {
        Arg a = *static_cast<Arg*>(p);
        free(p);
        vf_g_set(G_ROLE + vf_self(), a.slot + 1);
        a.job->Call();
      },
      a);
    vf_g_set(slot + 1 + n, t);
  }
  // is the calling thread one of this executor's?
  bool Here() const {
    return vf_g_get(G_ROLE + vf_self()) == unsigned(slot + 1);
  }
  uint64_t joined = 0;
  bool JoinAll() {
    bool any = false;
    for (; joined < vf_g_get(slot); ++joined, any = true)
      vf_join(vf_g_get(slot + 2 + joined));
    return any;
  }
};
inline void JoinBoth(SpawnExec& a, SpawnExec& b) {
  while (a.JoinAll() | b.JoinAll()) {
  }
}
