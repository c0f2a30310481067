// C20: heap allocations. params: area, kind, n.
// area 0: single operations. 1: combinators over n inputs against the same combinator over few inputs. 2: waits over n futures.
// 3: Strand submissions (threads). 4: co_await over n futures. 5: waits while another thread completes the futures.
// Symbolic: how the inputs end (which one fails and how), when they complete relative to the operation, executors that refuse.
#include "vf_util.h"
#include <yaclib/async/connect.hpp>
#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/async/join.hpp>
#include <yaclib/async/make.hpp>
#include <yaclib/async/promise.hpp>
#include <yaclib/async/run.hpp>
#include <yaclib/async/share.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/shared_future.hpp>
#include <yaclib/async/split.hpp>
#include <yaclib/async/wait.hpp>
#include <yaclib/async/wait_for.hpp>
#include <yaclib/async/wait_until.hpp>
#include <yaclib/async/when_all.hpp>
#include <yaclib/async/when_any.hpp>
#include <yaclib/coro/await.hpp>
#include <yaclib/coro/await_inline.hpp>
#include <yaclib/coro/await_on.hpp>
#include <yaclib/coro/await_sticky.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/on.hpp>
#include <yaclib/coro/task.hpp>
#include <yaclib/exe/manual.hpp>
#include <yaclib/exe/strand.hpp>
#include <yaclib/exe/submit.hpp>
#include <yaclib/lazy/make.hpp>
#include <yaclib/lazy/schedule.hpp>
#include <yaclib/lazy/task.hpp>
using namespace yaclib;
using V = uint32_t;
using F = Future<V, Err>;
using P = Promise<V, Err>;
using U = Future<void, Err>;
using S = SharedFuture<V, Err>;
using T = Task<V, Err>;
using R = Result<V, Err>;
constexpr int N = 40;
struct Count {
  uint64_t a = vf_alloc_count();
  uint64_t operator()() const {
    return vf_alloc_count() - a;
  }
  void AtMost(uint64_t n) const {
    CHECK((*this)() <= n, "an operation made more heap allocations than it may");
  }
};
static F fv[N];
static U fu[N];
static P pv[N];
static Promise<void, Err> pu[N];
static int gFail, gFailKind;
static void End(int i) {
  int k = i == gFail ? gFailKind : 0;
  if (pv[i].Valid()) {
    if (k == 0)
      std::move(pv[i]).Set(V(i));
    else if (k == 1)
      std::move(pv[i]).Set(Err{5});
    else
      P d = std::move(pv[i]);
  } else if (pu[i].Valid()) {
    if (k == 0)
      std::move(pu[i]).Set();
    else if (k == 1)
      std::move(pu[i]).Set(Err{5});
    else
      auto d = std::move(pu[i]);
  }
}
static void Make(int n, bool isvoid) {
  for (int i = 0; i < n; ++i) {
    if (isvoid) {
      auto [f, p] = MakeContract<void, Err>();
      fu[i] = std::move(f);
      pu[i] = std::move(p);
    } else {
      auto [f, p] = MakeContract<V, Err>();
      fv[i] = std::move(f);
      pv[i] = std::move(p);
    }
  }
}

// ---- area 0
static T CoT() {
  co_return V{1};
}
static void Single(int kind) {
  InExec e{2, vf_choose(2) ? ~0ull : 0};
  int how = vf_choose(3);  // a source that is ready before, after, or never completed otherwise than by dropping it
  gFail = vf_choose(2);
  gFailKind = 1;
  Make(1, false);
  if (how == 0)
    End(0);
  auto later = [&] {
    if (how == 2)
      P d = std::move(pv[0]);
    End(0);
  };
  char big[256] = {};
  auto cb = [big](V v) {
    return v + big[3];
  };
  auto rcb = [big](R&& r) {
    return std::move(r);
  };
  Count c;
  switch (kind) {
    case 0: {
      auto f = Run<Err>(e, [big] { return V(big[0]); });
      c.AtMost(1);
    } break;
    case 1: {
      auto f = Run<Err>([big] { return V(big[0]); });
      c.AtMost(1);
    } break;
    case 2: {
      auto f = RunShared<Err>(e, [big] { return V(big[0]); });
      c.AtMost(1);
    } break;
    case 3: {
      auto t = Schedule<Err>(e, [big] { return V(big[0]); });
      c.AtMost(1);
      auto f = std::move(t).ToFuture();
      c.AtMost(1);
    } break;
    case 4: {
      auto t = Schedule<Err>([big] { return V(big[0]); });
      auto f = std::move(t).ToFuture(e);
      c.AtMost(1);
    } break;
    case 5: {
      auto f = MakeFuture<V, Err>(V{1});
      c.AtMost(1);
      auto g = MakeFuture<void, Err>();
      c.AtMost(2);
      auto h = MakeFuture<V, Err>(Err{1});
      c.AtMost(3);
      auto i = MakeFuture(1.5);
      c.AtMost(4);
    } break;
    case 6: {
      auto t = MakeTask<V, Err>(V{1});
      c.AtMost(1);
      auto r = std::move(t).Get();
      c.AtMost(1);
    } break;
    case 7: {
      auto a = MakeContract<V, Err>();
      c.AtMost(1);
      auto b = MakeContractOn<V, Err>(e);
      c.AtMost(2);
      auto d = MakeSharedContract<V, Err>();
      c.AtMost(3);
      auto g = MakeSharedContractOn<V, Err>(e);
      c.AtMost(4);
      std::move(a.second).Set(V{1});
      auto r = std::move(a.first).Get();
      std::move(d.second).Set(V{1});
      auto q = d.first.Get();
      c.AtMost(4);
    } break;
    case 8: {
      auto f = AsyncContract<V, Err>(e, [big](P&& p) { std::move(p).Set(V(big[0])); });
      c.AtMost(1);
    } break;
    case 9: {
      auto f = LazyContract<V, Err>(e, [big](P&& p) { std::move(p).Set(V(big[0])); }).ToFuture();
      c.AtMost(1);
    } break;
    case 10: {
      auto f = std::move(fv[0]).ThenInline(cb);
      c.AtMost(1);
      later();
      auto r = std::move(f).Get();
      c.AtMost(1);
    } break;
    case 11: {
      auto f = std::move(fv[0]).Then(e, rcb).Then(cb);
      c.AtMost(2);
      later();
      auto r = std::move(f).Get();
      c.AtMost(2);
    } break;
    case 12:
      std::move(fv[0]).Detach();
      c.AtMost(1);
      later();
      break;
    case 13:
      std::move(fv[0]).DetachInline([big](R&&) {});
      c.AtMost(1);
      later();
      break;
    case 14:
      std::move(fv[0]).Detach(e, [big](V) {});
      c.AtMost(1);
      later();
      break;
    case 15:
      std::move(fv[0]).Then(e, cb).Detach([big](R&&) {});
      c.AtMost(2);
      later();
      break;
    case 16: {
      auto f = std::move(fv[0]).ThenInline([big](R&& r) { return MakeFuture<V, Err>(std::move(r)); });
      later();
      auto r = std::move(f).Get();
      c.AtMost(2);
    } break;
    case 17: {
      auto f = std::move(fv[0]).ThenInline([big](R&& r) { return MakeTask<V, Err>(std::move(r)).ThenInline([](R&& x) { return std::move(x); }); });
      later();
      auto r = std::move(f).Get();
      c.AtMost(3);
    } break;
    case 18: {
      Make(2, false);  // two more contracts
      Count d;
      auto f = std::move(fv[0]).ThenInline([g = std::move(fv[1])](R&&) mutable { return std::move(g); });
      d.AtMost(1);
      if (how == 1)
        End(1);
      later();
      End(1);
      auto r = std::move(f).Get();
      d.AtMost(1);
    } break;
    case 19: {  // a whole lazy pipeline
      auto t = MakeTask<V, Err>(V{1}).ThenInline(cb).Then(e, rcb).Then(cb);
      c.AtMost(4);
      if (how == 0)
        std::move(t).Detach();
      else if (how == 1)
        std::move(t).ToFuture().Detach();
      else
        t = {};
      c.AtMost(5);
    } break;
    case 20: {  // shared futures
      auto [s, p] = MakeSharedContract<V, Err>();
      auto f = s.ThenInline([big](const R& r) { return V(big[0]); });
      auto g = s.Then(e, [big](V v) { return v; });
      c.AtMost(3);
      s.SubscribeInline([big](const R&) {});
      c.AtMost(4);
      std::move(p).Set(V{2});
      c.AtMost(4);
      auto r = s.Get();
      auto h = s.ThenInline([](V v) { return v; });
      c.AtMost(5);
    } break;
    case 21: {
      auto t = CoT();
      auto f = std::move(t).ToFuture();
      auto r = std::move(f).Get();
      c.AtMost(1);  // the frame
    } break;
    case 22: {
      auto [g, p] = MakeContract<V, Err>();
      Connect(std::move(fv[0]), std::move(p));
      c.AtMost(1);  // the contract
      later();
      auto r = std::move(g).Get();
      c.AtMost(1);
    } break;
    case 23: {
      auto s = Split(std::move(fv[0]));
      later();
      c.AtMost(1);
      auto f = Share(s);
      c.AtMost(2);
      auto r = std::move(f).Get();
      c.AtMost(2);
    } break;
  }
  later();
  c.AtMost(kind == 18 ? 3 : 5);
  vf_reach("end");
}

// ---- area 1
template <FailPolicy P2>
static auto All(int n) {
  return WhenAll<P2>(fv, n);
}
template <typename Build>
static uint64_t Measure(int n, bool isvoid, int before, bool backwards, Build&& build) {
  Make(n, isvoid);
  for (int i = 0; i < before; ++i)
    End(i);
  Count c;
  {
    auto f = build(n);
    if (backwards)
      for (int i = n - 1; i >= 0; --i)
        End(i);
    else
      for (int i = 0; i < n; ++i)
        End(i);
    CHECK(f.Ready(), "a combinator over completed inputs is not ready");
    auto r = std::move(f).Touch();
  }
  return c();
}
static uint64_t Combine(int kind, int n, int before, bool backwards) {
  auto m = [&](bool isvoid, auto&& b) {
    return Measure(n, isvoid, before, backwards, b);
  };
#define IT(x) [](int n) { return x; }
  switch (kind) {
    case 0:
      return m(false, IT((WhenAll<FailPolicy::FirstFail>(fv, n))));
    case 1:
      return m(false, IT((WhenAll<FailPolicy::None>(fv, n))));
    case 2:
      return m(true, IT((WhenAll<FailPolicy::FirstFail>(fu, n))));
    case 3:
      return m(true, IT((WhenAll<FailPolicy::None>(fu, n))));
    case 4:
      return m(false, IT((Join<FailPolicy::None>(fv, n))));
    case 5:
      return m(true, IT((Join<FailPolicy::FirstFail>(fu, fu + n))));
    case 6:
      return m(false, IT((WhenAny<FailPolicy::None>(fv, n))));
    case 7:
      return m(false, IT((WhenAny<FailPolicy::FirstFail>(fv, fv + n))));
    case 8:
      return m(false, IT((WhenAny<FailPolicy::LastFail>(fv, n))));
    case 9:
      return m(true, IT((WhenAny<FailPolicy::LastFail>(fu, n))));
    case 10:
      return m(false, IT((WhenAll(fv, fv + n))));
    case 11:
      return m(true, IT((WhenAny<FailPolicy::None>(fu, fu + n))));
#define VAR(CALL, A)                                                                                                          \
  [](int n) {                                                                                                                 \
    auto go = [&]<size_t... I>(std::index_sequence<I...>) { return CALL(std::move(A[I])...); };                               \
    if (n == 2)                                                                                                               \
      return go(std::make_index_sequence<2>{});                                                                               \
    if (n == 3)                                                                                                               \
      return go(std::make_index_sequence<3>{});                                                                               \
    if (n == 4)                                                                                                               \
      return go(std::make_index_sequence<4>{});                                                                               \
    return go(std::make_index_sequence<12>{});                                                                                \
  }
    case 20:
      return m(false, VAR(WhenAll<FailPolicy::FirstFail>, fv));
    case 21:
      return m(false, VAR(WhenAll<FailPolicy::None>, fv));
    case 22:
      return m(true, VAR(WhenAll<FailPolicy::FirstFail>, fu));
    case 23:
      return m(false, VAR(Join<FailPolicy::None>, fv));
    case 24:
      return m(false, VAR(Join<FailPolicy::FirstFail>, fv));
    case 25:
      return m(false, VAR(WhenAny<FailPolicy::None>, fv));
    case 26:
      return m(false, VAR(WhenAny<FailPolicy::FirstFail>, fv));
    case 27:
      return m(false, VAR(WhenAny<FailPolicy::LastFail>, fv));
  }
  vf_assume(false);
  return 0;
}
// inputs of different types
static uint64_t Tuple(int kind, int n, int before, bool backwards) {
  for (int i = 0; i < n; ++i) {
    if (i % 2) {
      auto [f, p] = MakeContract<void, Err>();
      fu[i] = std::move(f);
      pu[i] = std::move(p);
    } else {
      auto [f, p] = MakeContract<V, Err>();
      fv[i] = std::move(f);
      pv[i] = std::move(p);
    }
  }
  for (int i = 0; i < before; ++i)
    End(i);
  Count c;
  auto fin = [&](auto f) {
    for (int i = 0; i < n; ++i)
      End(backwards ? n - 1 - i : i);
    CHECK(f.Ready(), "a combinator over completed inputs is not ready");
    auto r = std::move(f).Touch();
  };
#define M(A, i) std::move(A[i])
  auto call = [&](auto w) {
    if (n == 2)
      fin(w(M(fv, 0), M(fu, 1)));
    else if (n == 3)
      fin(w(M(fv, 0), M(fu, 1), M(fv, 2)));
    else if (n == 4)
      fin(w(M(fv, 0), M(fu, 1), M(fv, 2), M(fu, 3)));
    else
      fin(w(M(fv, 0), M(fu, 1), M(fv, 2), M(fu, 3), M(fv, 4), M(fu, 5), M(fv, 6), M(fu, 7), M(fv, 8), M(fu, 9), M(fv, 10), M(fu, 11)));
  };
  if (kind == 30)
    call([](auto&&... x) { return WhenAll<FailPolicy::FirstFail>(std::move(x)...); });
  else if (kind == 31)
    call([](auto&&... x) { return WhenAll<FailPolicy::None>(std::move(x)...); });
  else if (kind == 32)
    call([](auto&&... x) { return Join<FailPolicy::FirstFail>(std::move(x)...); });
  else
    call([](auto&&... x) { return Join<FailPolicy::None>(std::move(x)...); });
  return c();
}
static void Combinators(int kind, int n) {
  // one of the inputs (or none) fails; they complete before, after or around the call
  int fail = vf_choose(4), when = vf_choose(3);
  gFailKind = 1 + vf_choose(2);
  bool backwards = vf_choose(2);
  auto count = [&](int k) {
    gFail = fail == 0 ? -1 : fail == 1 ? 0 : fail == 2 ? k - 1 : k / 2;
    int before = when == 0 ? 0 : when == 1 ? k : k / 2;
    return kind < 30 ? Combine(kind, k, before, backwards) : Tuple(kind, k, before, backwards);
  };
  uint64_t c4 = count(4), cn = count(n);
  CHECK(cn <= c4 + 1, "a combinator's number of heap allocations grows with the number of inputs");
  vf_reach("end");
}

// ---- area 2
using namespace std::chrono_literals;
static void Waits(int kind, int n) {
  int before = vf_choose(n + 1);
  gFail = -1;
  Make(n, false);
  bool timed = kind >= 4 && kind < 10;
  if (!timed)
    before = n;
  for (int i = 0; i < before; ++i)
    End(i);
  Count c;
  auto until = std::chrono::steady_clock::time_point{} + 1s;
  switch (kind) {
    case 0:
      Wait(fv, n);
      break;
    case 1:
      Wait(fv, fv + n);
      break;
    case 2:
      n == 1 ? Wait(fv[0]) : n == 2 ? Wait(fv[0], fv[1]) : Wait(fv[0], fv[1], fv[2]);
      break;
    case 3:
      for (int i = 0; i < n; ++i)
        auto r = std::move(fv[i]).Get();
      break;
    case 4:
      WaitFor(5ns, fv, n);
      break;
    case 5:
      WaitFor(5ns, fv, fv + n);
      break;
    case 6:
      n == 1 ? WaitFor(5ns, fv[0]) : n == 2 ? WaitFor(5ns, fv[0], fv[1]) : WaitFor(5ns, fv[0], fv[1], fv[2]);
      break;
    case 7:
      WaitUntil(until, fv, n);
      break;
    case 8:
      WaitUntil(until, fv, fv + n);
      break;
    case 9:
      n == 1 ? WaitUntil(until, fv[0]) : n == 2 ? WaitUntil(until, fv[0], fv[1]) : WaitUntil(until, fv[0], fv[1], fv[2]);
      break;
    case 10: {
      auto t = std::as_const(fv[0]).Ready() && std::as_const(fv[0]).Touch();
    } break;
  }
  c.AtMost(0);
  for (int i = 0; i < n; ++i)
    End(i);
  for (int i = 0; i < n; ++i)
    if (fv[i].Valid())
      auto r = std::move(fv[i]).Get();
  c.AtMost(0);
  vf_reach("end");
}
static void WaitThreads(int kind, int n) {
  gFail = -1;
  Make(n, false);
  auto prod = [&] {
    for (int i = n - 1; i >= 0; --i)
      End(i);
  };
  Count c;
  int t = Spawn(prod);
  auto until = std::chrono::steady_clock::time_point{} + 1s;
  switch (kind) {
    case 0:
      Wait(fv, n);
      break;
    case 1:
      n == 1 ? Wait(fv[0]) : Wait(fv[0], fv[1]);
      break;
    case 2:
      WaitFor(5ns, fv, n);
      break;
    case 3:
      n == 1 ? WaitUntil(until, fv[0]) : WaitUntil(until, fv[0], fv[1]);
      break;
  }
  for (int i = 0; i < n; ++i)
    auto r = std::move(fv[i]).Get();
  vf_join(t);
  c.AtMost(0);
  vf_reach("end");
}

// ---- area 3
struct MyJob final : Job {
  MyJob* next = nullptr;
  IExecutor* e = nullptr;
  void Call() noexcept final {
    if (next)
      e->Submit(*next);
  }
  void Drop() noexcept final {
  }
};
static MyJob gJ[4];
static void Strands(int kind, int n) {
  SpawnExec se{2, ~0ull};
  InExec ie{40, vf_choose(2) ? ~0ull : 1};
  IExecutorPtr me;
  IExecutor* under = &ie;
  if (kind == 1)
    under = &se;
  if (kind == 2) {
    me = MakeManual();
    under = me.Get();
  }
  Count m;
  auto strand = MakeStrand(under);
  m.AtMost(1);
  IExecutorPtr two;
  if (kind == 3) {
    two = MakeStrand(strand);
    m.AtMost(2);
  }
  IExecutor* s = two ? two.Get() : strand.Get();
  gJ[0].next = &gJ[3];
  gJ[0].e = s;
  Count c;
  auto other = [&] { s->Submit(gJ[2]); };
  int t = n > 2 ? Spawn(other) : -1;
  s->Submit(gJ[0]);
  if (n > 1)
    s->Submit(gJ[1]);
  if (t >= 0)
    vf_join(t);
  if (me)
    while (static_cast<ManualExecutor&>(*me).Drain() != 0) {
    }
  while (se.JoinAll()) {
  }
  c.AtMost(0);
  vf_reach("end");
}

// ---- area 4
static IExecutor* gE;
static uint64_t gIn, gOut;
static U Co(int kind, int n) {
  gIn = vf_alloc_count();
  switch (kind) {
    case 0:
      for (int i = 0; i < n; ++i)
        co_await Await(fv[i]);
      break;
    case 1:
      co_await Await(fv, n);
      break;
    case 2:
      if (n == 1)
        co_await Await(fv[0]);
      else if (n == 2)
        co_await Await(fv[0], fv[1]);
      else
        co_await Await(fv[0], fv[1], fv[2]);
      break;
    case 3:
      for (int i = 0; i < n; ++i)
        co_await std::move(fv[i]);
      break;
    case 4:
      co_await AwaitInline(fv, n);
      break;
    case 5:
      co_await AwaitSticky(fv, fv + n);
      break;
    case 6:
      co_await AwaitOn(*gE, fv, n);
      break;
    case 7:
      if (n == 1)
        co_await AwaitOn(*gE, fv[0]);
      else
        co_await AwaitOn(*gE, fv[0], fv[1]);
      break;
    case 8:
      if (n == 1)
        co_await AwaitInline(fv[0]);
      else
        co_await AwaitInline(fv[0], fv[1]);
      break;
    case 9:
      if (n == 1)
        co_await AwaitSticky(fv[0]);
      else
        co_await AwaitSticky(fv[0], fv[1]);
      break;
    case 10:
      co_await On(*gE);
      co_await Await(fv, fv + n);
      break;
  }
  gOut = vf_alloc_count();
  co_return Unit{};
}
static void Coros(int kind, int n) {
  InExec e{2, ~0ull};
  gE = &e;
  gFail = -1;
  int before = vf_choose(n + 1);
  bool backwards = vf_choose(2);
  Make(n, false);
  for (int i = 0; i < before; ++i)
    End(i);
  Count c;
  auto f = Co(kind, n);
  for (int i = 0; i < n; ++i)
    End(backwards ? n - 1 - i : i);
  CHECK(f.Ready(), "a coroutine awaiting completed futures did not finish");
  CHECK(gOut == gIn, "co_await of futures allocated");
  c.AtMost(1);  // the frame
  vf_reach("end");
}

extern "C" void vf_main() {
  int area = vf_param(0), kind = vf_param(1), n = vf_param(2);
  switch (area) {
    case 0:
      return Single(kind);
    case 1:
      return Combinators(kind, n);
    case 2:
      return Waits(kind, n);
    case 3:
      return Strands(kind, n);
    case 4:
      return Coros(kind, n);
    case 5:
      return WaitThreads(kind, n);
  }
}
