// C05: what is handed to an executor is Called xor Dropped, inside it and nowhere else. params: executor (0 Inline, 1 stopped Inline, 2 Manual,
// 3 Strand over Inline, 4 Strand over a pool, 5 pool with one worker, 6 with two, 7 Strand over Manual, 8 Strand over stopped Inline,
// 9 Strand over Strand over a pool), who stops the pool (0 nobody before the end, 1 Stop, 2 HardStop, 3 SoftStop, all by a thread at
// any moment), form of item 0, form of item 1 (or 99), all items by one thread (1) or one thread each (0)
// form: 0 Job, 1 functor, 2 Run(e, f) + ThenInline, 3 coroutine On(e), 4 Then(e, value f), 5 Then(e, result f) of a future completed later,
//       6 Detach(e, f), 7 Schedule(e, f) ToFuture, 8 AsyncContract(e), 9 RunShared, 10 FutureOn Then(f), 11 SharedFuture Then(e, f), 12 Subscribe(e, f)
#include "vf_util.h"
#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/async/make.hpp>
#include <yaclib/async/run.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/shared_future.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/on.hpp>
#include <yaclib/exe/inline.hpp>
#include <yaclib/exe/manual.hpp>
#include <yaclib/exe/strand.hpp>
#include <yaclib/exe/submit.hpp>
#include <yaclib/lazy/schedule.hpp>
#include <yaclib/lazy/task.hpp>
#include <yaclib/runtime/fair_thread_pool.hpp>
using namespace yaclib;
using Res = Result<Val, Err>;
using F = Future<Val, Err>;
enum : unsigned { gCalled = 0, gDropped = 4, gStopBegun = 8, gDraining = 9, gBase = 16 };
static int gKind, gStopKind;
static IExecutor* gE;
static uint32_t gW[2];
static bool Pool() {
  return gKind == 4 || gKind == 5 || gKind == 6 || gKind == 9;
}
static bool Dead() {
  return gKind == 1 || gKind == 8;
}
static void Called(int id) {
  CHECK(vf_g_add(gCalled + id, 1) == 1, "a job was Called twice");
  CHECK(vf_g_get(gDropped + id) == 0, "a job was Called after Drop");
  CHECK(!Dead(), "a stopped executor Called a job");
  if (Pool())
    CHECK(vf_g_get(G_ROLE + vf_self()) == 0, "a job ran outside of its executor");
  if (gKind == 2 || gKind == 7)
    CHECK(vf_self() == 0 && vf_g_get(gDraining) == 1, "a job ran outside of its executor");
  if (gKind == 0 || gKind == 3)
    CHECK(vf_g_get(G_ROLE + vf_self()) == 2, "a job of an inline executor did not run inside of a submission");
}
static void Dropped(int id) {
  CHECK(vf_g_add(gDropped + id, 1) == 1, "a job was Dropped twice");
  CHECK(vf_g_get(gCalled + id) == 0, "a job was Dropped after Call");
  CHECK(Dead() || vf_g_get(gStopBegun) == 1, "a job was Dropped although its executor is not stopped");
}
static void Saw(int id, const Res& r) {  // a step which sees values and failures
  auto s = SumOf(r);
  if (s.kind == 0) {
    Called(id);
    CHECK(s.v == gW[id], "a step saw something else than its input");
  } else {
    CHECK(s.kind == 4, "a step saw something else than StopError from a stopped executor");
    Dropped(id);
  }
}
struct MyJob final : Job {
  int id = 0;
  void Call() noexcept final {
    Called(id);
  }
  void Drop() noexcept final {
    Dropped(id);
  }
};
static MyJob gJobs[2];
struct Fn {
  int id;
  bool live = true, ran = false;
  explicit Fn(int i) : id{i} {
  }
  Fn(Fn&& o) noexcept : id{o.id}, ran{o.ran} {
    o.live = false;
  }
  ~Fn() {
    if (live && !ran)
      Dropped(id);
  }
  void operator()() {
    ran = true;
    Called(id);
  }
};
static F CoOn(int id) {
  Val local{gW[id]};
  co_await On(*gE);
  Called(id);
  CHECK(local.Is(gW[id]), "a local of a coroutine was destroyed");
  co_return Val{gW[id]};
}
struct Out {
  F f;
  SharedFuture<Val, Err> s;
  bool has = false;
};
static Out gOut[2];
static void Item(int id, int form) {
  auto& o = gOut[id];
  uint32_t w = gW[id];
  auto body = [id, w] {
    Called(id);
    return Val{w};
  };
  auto keep = [](Res&& r) { return std::move(r); };
  o.has = form >= 2 && form != 6 && form != 12;
  switch (form) {
    case 0:
      gJobs[id].id = id;
      gE->Submit(gJobs[id]);
      break;
    case 1:
      Submit(*gE, Fn{id});
      break;
    case 2:
      o.f = Run<Err>(*gE, body).ThenInline(keep).On(nullptr);
      break;
    case 3:
      o.f = CoOn(id).ThenInline(keep);
      break;
    case 4:
      o.f = MakeFuture<Val, Err>(w).Then(*gE, [id, w](Val v) {
                                    Called(id);
                                    CHECK(v.Is(w), "a step saw something else than its input");
                                    return v;
                                  })
              .ThenInline(keep)
              .On(nullptr);
      break;
    case 5: {
      auto [f, p] = MakeContract<Val, Err>();
      o.f = std::move(f).Then(*gE, [id](Res&& r) {
                          Saw(id, r);
                          return std::move(r);
                        }).On(nullptr);
      std::move(p).Set(Val{w});
    } break;
    case 6: {
      auto [f, p] = MakeContract<Val, Err>();
      std::move(f).Detach(*gE, [id](Res&& r) { Saw(id, r); });
      std::move(p).Set(Val{w});
    } break;
    case 7:
      o.f = Schedule<Err>(*gE, body).ThenInline(keep).ToFuture();
      break;
    case 8:
      o.f = AsyncContract<Val, Err>(*gE, [id, w](Promise<Val, Err>&& p) {
              Called(id);
              std::move(p).Set(Val{w});
            }).ThenInline(keep).On(nullptr);
      break;
    case 9:
      o.s = RunShared<Err>(*gE, body).On(nullptr);
      break;
    case 10: {
      auto [f, p] = MakeContractOn<Val, Err>(*gE);
      o.f = std::move(f).Then([id](Res&& r) {
                          Saw(id, r);
                          return std::move(r);
                        }).ThenInline(keep).On(nullptr);
      std::move(p).Set(Val{w});
    } break;
    case 11: {
      auto [f, p] = MakeSharedContract<Val, Err>();
      o.f = f.Then(*gE, [id](const Res& r) {
               Saw(id, r);
               return Res{r};
             }).ThenInline(keep).On(nullptr);
      std::move(p).Set(Val{w});
    } break;
    case 12: {
      auto [f, p] = MakeSharedContract<Val, Err>();
      f.Subscribe(*gE, [id](Res r) { Saw(id, r); });
      f = {};
      std::move(p).Set(Val{w});
    } break;
  }
}
extern "C" void vf_main() {
  gKind = vf_param(0);
  gStopKind = vf_param(1);
  int form[2] = {(int)vf_param(2), (int)vf_param(3)};
  int n = form[1] == 99 ? 1 : 2;
  bool one = vf_param(4);
  for (int i = 0; i < n; ++i)
    gW[i] = vf_nondet(32);
  vf_g_set(G_ROLE + 0, 1);
  {
    IntrusivePtr<FairThreadPool> tp;
    IntrusivePtr<ManualExecutor> man;
    IExecutorPtr e;
    if (Pool())
      tp = MakeFairThreadPool(gKind == 6 ? 2 : 1);
    if (gKind == 2 || gKind == 7)
      man = MakeShared<ManualExecutor>(1);
    switch (gKind) {
      case 0: e = IExecutorPtr{&MakeInline()}; break;
      case 1: e = IExecutorPtr{&MakeInline(StopTag{})}; break;
      case 2: e = man; break;
      case 3: e = MakeStrand(IExecutorPtr{&MakeInline()}); break;
      case 4: e = MakeStrand(tp); break;
      case 5: case 6: e = tp; break;
      case 7: e = MakeStrand(man); break;
      case 8: e = MakeStrand(IExecutorPtr{&MakeInline(StopTag{})}); break;
      case 9: e = MakeStrand(MakeStrand(tp)); break;
    }
    gE = e.Get();
    CHECK(e->Alive() == !Dead(), "a fresh executor reports a wrong Alive");
    auto t0 = [&] {
      vf_g_set(G_ROLE + vf_self(), 2);
      Item(0, form[0]);
      if (one && n > 1)
        Item(1, form[1]);
      vf_g_set(G_ROLE + vf_self(), 1);
    };
    auto t1 = [&] {
      vf_g_set(G_ROLE + vf_self(), 2);
      Item(1, form[1]);
      vf_g_set(G_ROLE + vf_self(), 1);
    };
    auto st = [&] {
      vf_g_set(G_ROLE + vf_self(), 1);
      vf_g_set(gStopBegun, 1);
      if (gStopKind == 1)
        tp->Stop();
      else if (gStopKind == 2)
        tp->HardStop();
      else
        tp->SoftStop();
    };
    int a = Spawn(t0), b = n > 1 && !one ? Spawn(t1) : -1, c = gStopKind ? Spawn(st) : -1;
    vf_join(a);
    if (b >= 0)
      vf_join(b);
    if (c >= 0)
      vf_join(c);
    if (man) {
      vf_g_set(gDraining, 1);
      while (man->Drain() != 0) {
      }
      vf_g_set(gDraining, 0);
    }
    if (tp) {
      if (!gStopKind)
        tp->SoftStop();
      tp->Wait();
    }
    for (int i = 0; i < n; ++i) {
      bool saw = form[i] == 0 || form[i] == 1 || form[i] == 5 || form[i] == 6 || form[i] >= 10;
      bool called = vf_g_get(gCalled + i) == 1;
      if (saw)
        CHECK(called != (vf_g_get(gDropped + i) == 1), "a job was neither Called nor Dropped");
      vf_reach(called ? "called" : "dropped");
      if (!gStopKind && !Dead())
        CHECK(called, "a job was not Called although nobody stopped its executor");
      if (gOut[i].has) {
        Sum r;
        if (form[i] == 9) {
          CHECK(gOut[i].s.Ready(), "a chain did not complete");
          r = SumOf(gOut[i].s.Touch());
          gOut[i].s = {};
        } else {
          CHECK(gOut[i].f.Ready(), "a chain did not complete");
          r = SumOf(std::move(gOut[i].f).Get());
        }
        CHECK(r == (called ? Sum{0, gW[i]} : Sum{4, 0}), "the Result does not tell whether the executor ran the step");
        if (!called)
          CHECK(Dead() || vf_g_get(gStopBegun) == 1, "a step was dropped although its executor is not stopped");
      }
    }
    e = nullptr;
  }
  CHECK(vf_g_get(G_LIVE) == 0, "values or captures destroyed a wrong number of times");
  vf_reach("end");
}
