// C06: SharedFuture observers. params: observer before (kind or 99), observer thread A kind, observer thread B kind (or 99),
// main keeps a copy (0/1), producer kind (0 SharedPromise, 1 Split(future), 2 coroutine, 3 Connect(shared, SharedPromise),
// 4 promise-side observers, 5 MakeSharedContractOn)
#include "vf_util.h"
#include <yaclib/async/connect.hpp>
#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/async/promise.hpp>
#include <yaclib/async/run.hpp>
#include <yaclib/async/share.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/shared_future.hpp>
#include <yaclib/async/shared_promise.hpp>
#include <yaclib/async/split.hpp>
#include <yaclib/async/wait.hpp>
#include <yaclib/async/when_all.hpp>
#include <yaclib/async/when_any.hpp>
#include <yaclib/coro/await.hpp>
#include <yaclib/coro/await_on.hpp>
#include <yaclib/coro/await_sticky.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/shared_future.hpp>
#include <vector>
using namespace yaclib;
using Res = Result<Val, Err>;
using SF = SharedFuture<Val, Err>;
using SP = SharedPromise<Val, Err>;
using F = Future<Val, Err>;
using P = Promise<Val, Err>;

static Sum gWant;
enum : unsigned { gSet = 0, gFired = 8 };
static InExec* gEx;

static void See(int id, const Res& r) {
  CHECK(vf_g_get(gSet) == 1, "an observer fired before the value was set");
  CHECK(SumOf(r) == gWant, "an observer saw a Result different from the one set");
  CHECK(vf_g_add(gFired + id, 1) == 1, "an observer fired twice");
}
// takes its own Result by value and spoils it afterwards: what one observer does with its copy must not reach another
struct Cb {
  int id;
  void operator()(Res r) const {
    See(id, r);
    r = Res{Err{1}};
  }
};
static F CoAwait(int id, SF f) {
  try {
    Val v = co_await f;
    See(id, Res{v});
    co_return v;
  } catch (const ResultError<Err>& e) {
    See(id, Res{e.Get()});
    co_return e.Get();
  }
}
static F CoAwaitInline(int id, SF f, int how) {
  if (how == 0)
    co_await Await(f);
  else if (how == 1)
    co_await AwaitSticky(f);
  else
    co_await AwaitOn(*gEx, f);
  CHECK(f.Valid() && f.Ready(), "Await resumed although the future is not Ready");
  See(id, f.Touch());
  co_return f.Touch();
}
struct Late {
  F f;
  SF s;
  int id = 0;
};
// attaches observer `kind` to f (a copy owned by the caller)
static void Observe(int id, int kind, SF f, Late& late) {
  late.id = id;
  switch (kind) {
    case 0:
      late.f = f.ThenInline([id](Res r) {
        See(id, r);
        return r;
      });
      break;
    case 1:
      late.f = f.Then(*gEx, [id](Res r) {
                  See(id, r);
                  return r;
                }).On(nullptr);
      break;
    case 2:
      f.SubscribeInline(Cb{id});
      break;
    case 3:
      f.Subscribe(*gEx, Cb{id});
      break;
    case 4: {
      auto g = Share(f);
      late.f = std::move(g).ThenInline([id](Res&& r) {
        See(id, r);
        return std::move(r);
      });
    } break;
    case 5: {
      auto [g, p] = MakeSharedContract<Val, Err>();
      Connect(f, std::move(p));
      f = {};
      g.SubscribeInline(Cb{id});
      late.s = std::move(g);
    } break;
    case 6: {
      Wait(f);
      CHECK(f.Ready(), "Wait returned although the future is not Ready");
      See(id, f.Touch());
    } break;
    case 7: {
      auto r = std::move(f).Get();
      See(id, r);
      r = Res{Err{1}};
    } break;
    case 8: {
      const auto& r = f.Get();
      See(id, r);
      CHECK(SumOf(f.Touch()) == gWant, "Result changed after it was read");
    } break;
    case 9: {
      if (f.Ready()) {
        vf_reach("ready");
        See(id, f.Touch());
        auto r = std::move(f).Touch();
        CHECK(SumOf(r) == gWant, "Touch of a ready SharedFuture gave something else");
      } else {
        vf_reach("not-ready");
        vf_g_add(gFired + id, 1);
      }
    } break;
    case 10:
      late.f = CoAwait(id, std::move(f));
      break;
    case 11:
      late.f = CoAwaitInline(id, std::move(f), 0);
      break;
    case 12:
      late.f = CoAwaitInline(id, std::move(f), 1);
      break;
    case 13:
      late.f = CoAwaitInline(id, std::move(f), 2);
      break;
    case 14: {  // value callback by const reference, error callback behind it
      late.f = f.ThenInline([id](const Val& v) {
                  See(id, Res{v});
                  return v;
                }).ThenInline([id](Err e) {
        See(id, Res{e});
        return Res{e};
      });
    } break;
    case 15: {  // dropped at once
      vf_g_add(gFired + id, 1);
      std::move(f).Detach();
    } break;
    case 16: {  // same future twice
      f.SubscribeInline(Cb{id});
      f.SubscribeInline([id](const Res& r) { CHECK(SumOf(r) == gWant && vf_g_get(gSet) == 1, "second subscription saw something else"); vf_g_add(gFired + 7, 1); });
    } break;
    case 17: {
      auto g = Share(f, *gEx);
      late.f = std::move(g).Then([id](Res&& r) {
                  See(id, r);
                  return std::move(r);
                }).On(nullptr);
    } break;
    case 18: {
      std::vector<SF> v{f, std::move(f)};
      WhenAny<FailPolicy::None>(v.begin(), v.size()).DetachInline([id](auto&& r) { See(id, r); });
    } break;
  }
}
static void Produce(SP& p, int kind, uint32_t w) {
  vf_g_set(gSet, 1);
  if (kind == 0)
    std::move(p).Set(Val{w});
  else if (kind == 1)
    std::move(p).Set(Err{w});
  else {
    SP d{std::move(p)};
  }
}
static SharedFuture<Val, Err> CoProduce(F src) {
  co_await Await(src);
  co_return std::move(src).Touch();
}

extern "C" void vf_main() {
  int k0 = vf_param(0), kA = vf_param(1), kB = vf_param(2);
  bool keepCopy = vf_param(3) & 1;
  int prod = vf_param(4);
  int kind = vf_choose(3);
  uint32_t w = vf_nondet(32);
  gWant = kind == 0 ? Sum{0, w} : kind == 1 ? Sum{2, w} : Sum{4, 0};
  int n = 0, ids[4];
  {
    InExec ex{20};
    gEx = &ex;
    SF f;
    SP p;
    F uf, of;
    P up;
    Late late[4];
    if (prod == 0 || prod == 4) {
      auto c = MakeSharedContract<Val, Err>();
      f = std::move(c.first);
      p = std::move(c.second);
    } else if (prod == 5) {
      auto c = MakeSharedContractOn<Val, Err>(ex);
      auto g = c.first;
      of = g.Then([](Res r) {
              See(3, r);
              return r;
            }).On(nullptr);
      ids[n++] = 3;
      f = std::move(c.first).On(nullptr);
      p = std::move(c.second);
    } else if (prod == 3) {
      auto c = MakeSharedContract<Val, Err>();
      auto d = MakeSharedContract<Val, Err>();
      Connect(c.first, std::move(d.second));
      f = std::move(d.first);
      p = std::move(c.second);
    } else {
      auto c = MakeContract<Val, Err>();
      up = std::move(c.second);
      if (prod == 1)
        f = Split(std::move(c.first));
      else
        f = CoProduce(std::move(c.first));
    }
    if (prod == 4) {  // promise-side: Share/Split/Connect of the promise itself
      of = Share(p).ThenInline([](Res&& r) {
        See(3, r);
        return std::move(r);
      });
      ids[n++] = 3;
      f = Split(p);
    }
    if (k0 != 99) {
      ids[n++] = 0;
      Observe(0, k0, f, late[0]);
    }
    SF fa = f, fb = f;
    auto producer = [&] {
      if (up.Valid()) {
        vf_g_set(gSet, 1);
        if (kind == 0)
          std::move(up).Set(Val{w});
        else if (kind == 1)
          std::move(up).Set(Err{w});
        else
          P d{std::move(up)};
      } else {
        Produce(p, kind, w);
      }
    };
    auto a = [&] {
      SF mine = std::move(fa);
      Observe(1, kA, std::move(mine), late[1]);
    };
    auto b = [&] {
      SF mine = std::move(fb);
      Observe(2, kB, std::move(mine), late[2]);
    };
    if (!keepCopy)
      f = {};
    int t0 = Spawn(producer), t1 = -1, t2 = -1;
    if (kA != 99) {
      ids[n++] = 1;
      t1 = Spawn(a);
    } else {
      fa = {};
    }
    if (kB != 99) {
      ids[n++] = 2;
      t2 = Spawn(b);
    } else {
      fb = {};
    }
    if (t1 >= 0)
      vf_join(t1);
    if (t2 >= 0)
      vf_join(t2);
    vf_join(t0);
    for (int i = 0; i < n; ++i)
      CHECK(vf_g_get(gFired + ids[i]) == 1, "an observer did not fire although the value is set");
    if (k0 == 16 || kA == 16 || kB == 16)
      CHECK(vf_g_get(gFired + 7) == unsigned((k0 == 16) + (kA == 16) + (kB == 16)), "a second subscription did not fire exactly once");
    for (auto& l : late) {
      if (l.f.Valid()) {
        CHECK(l.f.Ready(), "a future derived from the SharedFuture did not complete");
        CHECK(SumOf(std::move(l.f).Get()) == gWant, "a derived future carries something else");
      }
      if (l.s.Valid()) {
        CHECK(l.s.Ready(), "a SharedFuture connected to the SharedFuture did not complete");
        CHECK(SumOf(std::move(l.s).Get()) == gWant, "a connected SharedFuture carries something else");
        l.s = {};
      }
    }
    if (of.Valid()) {
      CHECK(of.Ready() && SumOf(std::move(of).Get()) == gWant, "a promise-side observer did not get the value");
    }
    if (f.Valid()) {
      CHECK(f.Ready(), "SharedFuture not Ready although its promise was set");
      CHECK(SumOf(f.Get()) == gWant && SumOf(std::as_const(f).Touch()) == gWant, "the value was spoiled by an observer");
      auto r = std::move(f).Get();
      CHECK(SumOf(r) == gWant, "the last reader got something else");
      f = {};
    }
    CHECK(ex.Dropped() == 0, "job dropped by an executor that accepts");
  }
  CHECK(vf_g_get(G_LIVE) == 0, "values destroyed a wrong number of times");
  vf_reach("end");
}
