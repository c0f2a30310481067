// C13: coroutines. params: what the coroutine returns (0 Future, 1 Task + ToFuture, 2 SharedFuture, 3 Task + Get, 4 Task + Detach),
// kind of co_await, sources (0 ready before, 1 a thread each, 2 one thread, 3 the first ready before and the others by one thread,
// 4 completed by main after the coroutine suspended), coroutine starts with On(a) (0/1), stopped executor (0 none, 1 b from the
// first submission, 2 a from the first, 3 a from the second), coroutines (1, or 2 for shared kinds)
#include "vf_util.h"
#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/async/make.hpp>
#include <yaclib/async/promise.hpp>
#include <yaclib/async/run.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/shared_future.hpp>
#include <yaclib/async/shared_promise.hpp>
#include <yaclib/coro/await.hpp>
#include <yaclib/coro/await_inline.hpp>
#include <yaclib/coro/await_on.hpp>
#include <yaclib/coro/await_sticky.hpp>
#include <yaclib/coro/current_executor.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/on.hpp>
#include <yaclib/coro/shared_future.hpp>
#include <yaclib/coro/task.hpp>
#include <yaclib/coro/yield.hpp>
#include <yaclib/exe/inline.hpp>
#include <yaclib/lazy/make.hpp>
#include <yaclib/lazy/schedule.hpp>
#include <yaclib/lazy/task.hpp>
#include <vector>
using namespace yaclib;
using Res = Result<Val, Err>;
using F = Future<Val, Err>;
using SF = SharedFuture<Val, Err>;
using T = Task<Val, Err>;
using P = Promise<Val, Err>;
using SP = SharedPromise<Val, Err>;
enum : unsigned { gHappened = 0, gBefore = 8, gAfter = 10, gDone = 12, gCaught = 14, gExA = 20, gExB = 36 };

static SpawnExec* gA;
static SpawnExec* gB;
static int gOwn, gNeed, gEnd;
static uint32_t gW[4], gKind[4], gOut;
static P gP[3];
static SP gS[3];

static Sum Want(int i) {
  return gKind[i] == 0 ? Sum{0, gW[i]} : gKind[i] == 1 ? Sum{2, gW[i]} : gKind[i] == 2 ? Sum{1, gW[i]} : Sum{4, 0};
}
template <typename Pr>
static void Set(Pr&& p, int i) {
  vf_g_add(gHappened + i, 1);
  switch (gKind[i]) {
    case 0:
      return std::move(p).Set(Val{gW[i]});
    case 1:
      return std::move(p).Set(Err{gW[i]});
    case 2:
      return std::move(p).Set(std::make_exception_ptr(Exc{gW[i]}));
    default: {
      auto drop = std::move(p);
    }
  }
}
static void Complete(int i) {
  if (gP[i].Valid())
    Set(std::move(gP[i]), i);
  else if (gS[i].Valid())
    Set(std::move(gS[i]), i);
}
static void Resumed(int id, int upto) {
  CHECK(vf_g_add(gAfter + id, 1) == 1, "a co_await resumed twice");
  CHECK(vf_g_get(gBefore + id) == 1, "resumed without having been suspended at this co_await");
  for (int i = 0; i < upto; ++i)
    CHECK(vf_g_get(gHappened + i) == 1, "a coroutine resumed before what it awaited has happened");
}
template <typename Fs>
static void Touched(Fs& f, int i) {
  CHECK(f.Valid() && f.Ready(), "Await left a future invalid or not ready");
  CHECK(SumOf(std::as_const(f).Touch()) == Want(i), "an awaited future holds something else than its producer set");
}
// a coroutine which lets the failure of what it awaits escape holds it as an exception
static Sum Through(const Res& r) {
  if (r.State() != ResultState::Exception)
    return SumOf(r);
  try {
    std::rethrow_exception(r.Exception());
  } catch (const ResultError<Err>& e) {
    return e.Get().stop ? Sum{4, 0} : Sum{2, e.Get().code};
  } catch (const Exc& e) {
    return {1, e.code};
  }
}
static F Inner(F f) {
  Val v = co_await std::move(f);
  co_return v;
}
static T InnerTask(F f) {
  Val v = co_await std::move(f);
  co_return v;
}
static T InnerAwait(F f) {
  co_await Await(f);
  co_return std::move(f).Touch();
}
static SF InnerShared(SF f) {
  Val v = co_await f;
  co_return v;
}
static T MakeT(int how, F f) {
  auto body = [f = std::move(f)]() mutable { return std::move(f); };
  switch (how) {
    case 0:
      return Schedule<Err>(MakeInline(), std::move(body));
    case 1:
      return Schedule<Err>(*gA, std::move(body)).ThenInline([](Res&& r) { return std::move(r); });
    case 2:
      return InnerTask(body());
    case 3:
      return InnerAwait(body());
    case 4:
      return LazyContract<Val, Err>([f = body()](P&& p) mutable {
        std::move(f).DetachInline([p = std::move(p)](Res&& r) mutable { std::move(p).Set(std::move(r)); });
      });
    case 5: {
      auto t = InnerTask(body());
      return std::move(t).Then(*gA, [](Res&& r) { return std::move(r); });
    }
    default:
      return MakeTask<Val, Err>(Val{gW[0]});
  }
}

template <typename Ret>
static Ret Co(int id, int kind, std::vector<F> f, std::vector<SF> s, IExecutor& a, IExecutor& b) {
  Val local{77};
  IExecutor* here = &MakeInline();
  if (gOwn) {
    co_await On(a);
    CHECK(gA->Here(), "On resumed somewhere else");
    here = &a;
  }
  vf_g_add(gBefore + id, 1);
  bool sticky = false, onb = false;
  int n = gNeed;
  Sum got{9, 0};
  try {
    switch (kind) {
      case 0: {
        Val v = co_await std::move(f[0]);
        Resumed(id, 1);
        got = {0, v.a};
      } break;
      case 1:
        co_await Await(f[0]);
        Resumed(id, 1);
        break;
      case 2:
        co_await Await(f[0], f[1]);
        Resumed(id, 2);
        break;
      case 3:
        co_await Await(f.begin(), (std::size_t)n);
        Resumed(id, n);
        break;
      case 4:
        co_await Await(f.begin(), f.end());
        Resumed(id, n);
        break;
      case 5: {
        Val v = co_await s[0];
        Resumed(id, 1);
        got = {0, v.a};
      } break;
      case 6:
        co_await Await(s[0]);
        Resumed(id, 1);
        break;
      case 7:
        co_await Await(f[0], s[1]);
        Resumed(id, 2);
        break;
      case 8:
        co_await AwaitInline(s.begin(), s.end());
        Resumed(id, n);
        break;
      case 9:
        co_await AwaitSticky(f[0]);
        Resumed(id, 1);
        sticky = true;
        break;
      case 10:
        co_await AwaitSticky(f[0], f[1]);
        Resumed(id, 2);
        sticky = true;
        break;
      case 11:
        co_await AwaitSticky(f.begin(), f.end());
        Resumed(id, n);
        sticky = true;
        break;
      case 12:
        co_await AwaitSticky(s[0]);
        Resumed(id, 1);
        sticky = true;
        break;
      case 13:
        co_await AwaitSticky(f[0], s[1]);
        Resumed(id, 2);
        sticky = true;
        break;
      case 14:
        co_await AwaitSticky(s.begin(), (std::size_t)n);
        Resumed(id, n);
        sticky = true;
        break;
      case 15:
        co_await AwaitOn(b, f[0]);
        Resumed(id, 1);
        onb = true;
        break;
      case 16:
        co_await AwaitOn(b, f[0], f[1]);
        Resumed(id, 2);
        onb = true;
        break;
      case 17:
        co_await AwaitOn(b, f.begin(), f.end());
        Resumed(id, n);
        onb = true;
        break;
      case 18:
        co_await AwaitOn(b, s[0]);
        Resumed(id, 1);
        onb = true;
        break;
      case 19:
        co_await AwaitOn(b, s[0], f[1]);
        Resumed(id, 2);
        onb = true;
        break;
      case 20:
        co_await AwaitOn(b, s.begin(), (std::size_t)n);
        Resumed(id, n);
        onb = true;
        break;
      case 21:
        co_await On(b);
        Resumed(id, 0);
        onb = true;
        break;
      case 22:
        co_await kYield;
        Resumed(id, 0);
        sticky = true;
        break;
      case 23: {
        auto& e = co_await Yield();
        Resumed(id, 0);
        sticky = true;
        CHECK(&e == here, "Yield gave a different executor than the coroutine's own");
      } break;
      case 24:
        Resumed(id, 0);
        break;
      case 25: {
        Val v = co_await Inner(std::move(f[0]));
        Resumed(id, 1);
        got = {0, v.a};
      } break;
      case 26: {
        auto g = InnerShared(s[0]);
        Val v = co_await g;
        Resumed(id, 1);
        got = {0, v.a};
      } break;
      case 30: case 31: case 32: case 33: case 34: case 35: case 36: {
        Val v = co_await MakeT(kind - 30, std::move(f[0]));
        Resumed(id, 1);
        got = {0, v.a};
      } break;
      case 40: case 41: case 42: case 43: case 44: case 45: case 46: {
        auto t = MakeT(kind - 40, std::move(f[0]));
        co_await Await(t);
        Resumed(id, 1);
        CHECK(t.Valid() && t.Ready(), "Await left a Task invalid or not ready");
        Res r = std::move(t).Touch();
        CHECK(Through(r) == Want(0), "an awaited Task holds something else than its producer set");
      } break;
      case 50: {  // two awaits in a row, each for its own future
        co_await Await(f[0]);
        Resumed(id, 1);
        vf_g_set(gAfter + id, 0);
        co_await Await(f[1]);
        Resumed(id, 2);
      } break;
      case 51: {  // awaited, then awaited again, then taken
        co_await Await(f[0]);
        co_await AwaitOn(b, f[0]);
        Resumed(id, 1);
        onb = true;
      } break;
    }
  } catch (const ResultError<Err>& e) {
    Resumed(id, 1);
    got = e.Get().stop ? Sum{4, 0} : Sum{2, e.Get().code};
  } catch (const Exc& e) {
    Resumed(id, 1);
    got = {1, e.code};
  }
  bool direct = kind == 0 || kind == 5 || kind == 25 || kind == 26 || (kind >= 30 && kind < 40);
  if (direct)
    CHECK(got == Want(0), "co_await gave something else than the awaited outcome");
  else
    CHECK(got.kind == 9, "Await of futures threw");
  if (!direct && kind < 30) {
    for (std::size_t i = 0; i < f.size(); ++i)
      if (f[i].Valid())
        Touched(f[i], i);
    for (std::size_t i = 0; i < s.size(); ++i)
      if (s[i].Valid())
        Touched(s[i], i);
  }
  if (kind == 50) {
    Touched(f[0], 0);
    Touched(f[1], 1);
  }
  if (onb) {
    CHECK(gB->Here(), "resumed outside of the executor the awaiter names");
    here = &b;
  }
  if (sticky && gOwn)
    CHECK(gA->Here(), "a sticky await resumed outside of the coroutine's own executor");
  if (onb || sticky || kind == 24) {
    auto& e = co_await CurrentExecutor();
    CHECK(&e == here || (!gOwn && !onb), "CurrentExecutor is not the executor the coroutine runs on");
    if (onb)
      CHECK(gB->Here(), "CurrentExecutor moved the coroutine");
  }
  CHECK(local.Is(77), "a live local of the coroutine was destroyed");
  CHECK(vf_g_add(gDone + id, 1) == 1, "a coroutine finished twice");
  switch (gEnd) {
    case 0:
      co_return Val{gOut};
    case 1:
      co_return Err{gOut};
    case 2:
      throw Exc{gOut};
    case 3:
      co_return std::make_exception_ptr(Exc{gOut});
    case 4:
      co_return Res{Val{gOut}};
    default:
      co_return StopTag{};
  }
}
static bool SharedKind(int k) {
  return k == 5 || k == 6 || k == 8 || k == 12 || k == 14 || k == 18 || k == 20 || k == 26;
}
static bool NoSource(int k) {
  return (k >= 21 && k <= 24) || k == 36 || k == 46;
}
static int Need(int k) {
  if (NoSource(k))
    return 0;
  if (k == 2 || k == 7 || k == 10 || k == 13 || k == 16 || k == 19 || k == 50)
    return 2;
  if (k == 3 || k == 4 || k == 8 || k == 11 || k == 14 || k == 17 || k == 20)
    return vf_param(6) ? vf_param(6) : 2;
  return 1;
}
static void Finish(int id, Res r, int& stopped) {
  Sum want = gEnd == 0 || gEnd == 4 ? Sum{0, gOut} : gEnd == 1 ? Sum{2, gOut} : gEnd == 5 ? Sum{4, 0} : Sum{1, gOut};
  if (vf_g_get(gDone + id) == 1) {
    CHECK(SumOf(r) == want, "the Result of a coroutine is not what it returned or threw");
  } else {
    ++stopped;
    CHECK(SumOf(r) == (Sum{4, 0}), "a coroutine dropped by a stopped executor is not completed with StopError");
    vf_reach("stopped");
  }
}
extern "C" void vf_main() {
  int ret = vf_param(0), kind = vf_param(1), when = vf_param(2), stop = vf_param(4), cos = vf_param(5);
  gOwn = vf_param(3);
  gNeed = Need(kind);
  SpawnExec ea{gExA, stop == 2 ? 0ull : stop == 3 ? 1ull : ~0ull}, eb{gExB, stop == 1 ? 0ull : ~0ull};
  gA = &ea;
  gB = &eb;
  bool wide = vf_param(7);
  gEnd = wide ? vf_choose(6) : 0;
  gOut = vf_nondet(32);
  for (int i = 0; i < 3; ++i) {
    gKind[i] = i == 0 && kind != 36 && kind != 46 ? vf_choose(4) : 0;
    gW[i] = vf_nondet(32);
  }
  if (kind == 36 || kind == 46)
    vf_g_set(gHappened, 1);
  {
    std::vector<F> f(3), f2(0);
    std::vector<SF> s(3);
    bool allshared = SharedKind(kind);
    for (int i = 0; i < gNeed; ++i) {
      bool sh = allshared || (kind == 7 && i == 1) || (kind == 13 && i == 1) || (kind == 19 && i == 0);
      if (sh) {
        auto c = MakeSharedContract<Val, Err>();
        s[i] = std::move(c.first);
        gS[i] = std::move(c.second);
      } else {
        auto c = MakeContract<Val, Err>();
        f[i] = std::move(c.first);
        gP[i] = std::move(c.second);
      }
    }
    if (kind == 3 || kind == 4 || kind == 11 || kind == 17)
      f.resize(gNeed);
    if (kind == 8 || kind == 14 || kind == 20)
      s.resize(gNeed);
    auto c0 = [] { Complete(0); };
    auto c1 = [] { Complete(1); };
    auto c2 = [] { Complete(2); };
    auto all = [] {
      Complete(0);
      Complete(1);
      Complete(2);
    };
    auto late = [] {
      Complete(1);
      Complete(2);
    };
    int t[3] = {-1, -1, -1};
    if (when == 0)
      all();
    if (when == 3)
      c0();
    if (when == 1) {
      if (gNeed > 0)
        t[0] = Spawn(c0);
      if (gNeed > 1)
        t[1] = Spawn(c1);
      if (gNeed > 2)
        t[2] = Spawn(c2);
    }
    if (when == 2)
      t[0] = Spawn(all);
    if (when == 3)
      t[0] = Spawn(late);
    std::vector<SF> s2 = cos == 2 ? s : std::vector<SF>{};
    std::vector<SF> keep = cos == 2 || !allshared ? std::vector<SF>{} : s;
    F r0, r1;
    SF q0, q1;
    Res got{StopTag{}};
    bool direct = false;
    auto second = [&] {
      if (ret == 2)
        q1 = Co<SF>(1, kind, std::vector<F>{}, std::move(s2), ea, eb);
      else if (ret == 1)
        r1 = Co<T>(1, kind, std::vector<F>{}, std::move(s2), ea, eb).ToFuture();
      else
        r1 = Co<F>(1, kind, std::vector<F>{}, std::move(s2), ea, eb);
    };
    int t2 = -1;
    if (cos == 2)
      t2 = Spawn(second);
    switch (ret) {
      case 0:
        r0 = Co<F>(0, kind, std::move(f), std::move(s), ea, eb);
        break;
      case 1: {
        auto tk = Co<T>(0, kind, std::move(f), std::move(s), ea, eb);
        CHECK(vf_g_get(gBefore) == 0, "a coroutine Task ran before it was started");
        r0 = std::move(tk).ToFuture();
      } break;
      case 2:
        q0 = Co<SF>(0, kind, std::move(f), std::move(s), ea, eb);
        break;
      case 3:
        got = Co<T>(0, kind, std::move(f), std::move(s), ea, eb).Get();
        direct = true;
        break;
      case 4:
        Co<T>(0, kind, std::move(f), std::move(s), ea, eb).Detach();
        break;
    }
    if (when == 4)
      all();
    for (int x : t)
      if (x >= 0)
        vf_join(x);
    if (t2 >= 0)
      vf_join(t2);
    JoinBoth(ea, eb);
    int stopped = 0;
    if (ret == 4) {
      if (vf_g_get(gDone) == 0)
        ++stopped;
    } else if (direct) {
      Finish(0, std::move(got), stopped);
    } else if (ret == 2) {
      CHECK(q0.Valid() && q0.Ready(), "a coroutine never completed");
      Finish(0, q0.Get(), stopped);
    } else {
      CHECK(r0.Valid() && r0.Ready(), "a coroutine never completed");
      Finish(0, std::move(r0).Get(), stopped);
    }
    if (cos == 2) {
      if (ret == 2) {
        CHECK(q1.Ready(), "a coroutine never completed");
        Finish(1, q1.Touch(), stopped);
      } else {
        CHECK(r1.Ready(), "a coroutine never completed");
        Finish(1, std::move(r1).Get(), stopped);
      }
    }
    CHECK((unsigned)stopped == vf_g_get(gExA + 1) + vf_g_get(gExB + 1), "a coroutine was stopped although no executor refused it, or not although one did");
    for (int i = 0; i < (int)keep.size(); ++i)
      if (keep[i].Valid())
        CHECK(SumOf(keep[i].Get()) == Want(i), "awaiting changed a shared value");
    q0 = q1 = {};
  }
  CHECK(vf_g_get(G_LIVE) == 0, "values or live locals destroyed a wrong number of times");
  vf_reach("end");
}
