// C03: everything released exactly once. params: source, step 1, step 2, ending, executor.
// Values, functors and locals own heap memory, so anything destroyed zero or two times is a leak or a double free.
// Symbolic: how the producer thread ends its promises, what the steps do, from which submission on the executor refuses.
// source: 0 contract, 1 contract on an executor, 2 shared contract, 3 Run, 4 coroutine Future awaiting, 5 coroutine Task awaiting, 6 WhenAll, 7 WhenAny,
//   8 Schedule, 9 LazyContract, 10 Share of a SharedFuture, 11 unwrapped future, 12 coroutine on an executor, 13 Join, 14 AsyncContract, 15 coroutine AwaitOn(executor), 16 RunShared, 17 WhenAll of shared, 18 coroutine SharedFuture
// step: 0 none, 1 ThenInline(Own), 2 Then(e, Result), 3 ThenInline(Result) throwing, 4 Then(e) returning a pending future, 5 ThenInline returning a Task, 6 ThenInline on error, 7 Then(e) through a Strand over e
// ending: 0 drop, 1 Get, 2 Detach, 3 DetachInline, 4 Detach(e, f), 5 timed wait then drop, 6 Connect to a promise whose future is dropped, 7 Split in two, one dropped and one got by threads,
//   8 awaited by a detached coroutine, 9 consumed by a WaitGroup, 10 overwritten by another handle, 11 Ready? Touch : drop, 12 Connect to a promise whose future is got, 13 Split and dropped, 14 attached to a WaitGroup and dropped
// executor: 0 a thread per submission, 1 FairThreadPool(1) with HardStop by a thread, 2 a strand over the former, 3 in place
#include "vf_util.h"
#include <yaclib/algo/wait_group.hpp>
#include <yaclib/async/connect.hpp>
#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/async/join.hpp>
#include <yaclib/async/make.hpp>
#include <yaclib/async/promise.hpp>
#include <yaclib/async/run.hpp>
#include <yaclib/async/share.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/shared_future.hpp>
#include <yaclib/async/split.hpp>
#include <yaclib/async/wait.hpp>
#include <yaclib/async/wait_for.hpp>
#include <yaclib/async/when_all.hpp>
#include <yaclib/async/when_any.hpp>
#include <yaclib/coro/await.hpp>
#include <yaclib/coro/await_on.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/on.hpp>
#include <yaclib/coro/shared_future.hpp>
#include <yaclib/coro/task.hpp>
#include <yaclib/exe/strand.hpp>
#include <yaclib/lazy/make.hpp>
#include <yaclib/lazy/schedule.hpp>
#include <yaclib/runtime/fair_thread_pool.hpp>
using namespace yaclib;

struct Own {
  uint32_t* p;
  explicit Own(uint32_t v = 0) : p{new uint32_t{v}} {
  }
  Own(const Own& o) : p{o.p ? new uint32_t{*o.p} : nullptr} {
  }
  Own(Own&& o) noexcept : p{o.p} {
    o.p = nullptr;
  }
  Own& operator=(Own o) noexcept {
    std::swap(p, o.p);
    return *this;
  }
  ~Own() {
    delete p;
  }
  void Use() const {
    vf_g_set(0, *p);  // a read of the memory it owns
  }
};
using F = Future<Own, Err>;
using S = SharedFuture<Own, Err>;
using T = Task<Own, Err>;
using R = Result<Own, Err>;

static IExecutor* gE;
static IExecutor* gStrand;
static Promise<Own, Err> gP[3];
static SharedPromise<Own, Err> gSP[2];
static int gMode[4];  // how the promises end: 0 value, 1 error, 2 exception, 3 dropped
static bool gThrow;

template <typename P>
static void End(P& p, int mode) {
  if (!p.Valid())
    return;
  if (mode == 0)
    std::move(p).Set(Own{1});
  else if (mode == 1)
    std::move(p).Set(Err{1});
  else if (mode == 2)
    std::move(p).Set(std::make_exception_ptr(Exc{1}));
  else {
    P d = std::move(p);
  }
}
static F Pending(int i) {
  auto [f, p] = MakeContract<Own, Err>();
  gP[i] = std::move(p);
  return std::move(f);
}
// a future completed by a thread of its own
static int gLate[2], gLates;
static Promise<Own, Err> gLP[2];
static F Later() {
  auto [f, p] = MakeContract<Own, Err>();
  int i = gLates++;
  gLP[i] = std::move(p);
  gLate[i] = vf_spawn([](void* a) { End(*static_cast<Promise<Own, Err>*>(a), gMode[2]); }, &gLP[i]);
  return std::move(f);
}
static S PendingS(int i) {
  auto [f, p] = MakeSharedContract<Own, Err>();
  gSP[i] = std::move(p);
  return std::move(f);
}
static R Use(R&& r) {
  if (r)
    std::as_const(r).Value().Use();
  return std::move(r);
}
static F Co(F f) {
  Own local{2};
  auto v = co_await std::move(f);
  local.Use();
  co_return v;
}
static T CoT(F f) {
  Own local{2};
  co_await Await(f);
  local.Use();
  co_return std::move(f).Touch();
}
static F CoE(F f) {
  Own local{2};
  co_await On(*gE);
  local.Use();
  co_return co_await std::move(f);
}
static F CoOn(F f) {
  Own local{2};
  co_await AwaitOn(*gE, f);
  local.Use();
  if (gThrow)
    throw Exc{3};
  co_return std::move(f).Touch();
}
static S CoS(F f) {
  Own local{2};
  auto v = co_await std::move(f);
  local.Use();
  co_return v;
}
static Future<void, Err> Watch(F f) {
  Own local{2};
  co_await Await(f);
  local.Use();
  co_return Unit{};
}

static F Source(int k) {
  switch (k) {
    case 0:
      return Pending(0);
    case 1: {
      auto [f, p] = MakeContractOn<Own, Err>(*gE);
      gP[0] = std::move(p);
      return std::move(f).On(nullptr);
    }
    case 3:
      return Run<Err>(*gE, [o = Own{3}] {
               o.Use();
               if (gThrow)
                 throw Exc{1};
               return Own{1};
             }).On(nullptr);
    case 4:
      return Co(Pending(0));
    case 5:
      return CoT(Pending(0)).ToFuture();
    case 6:
      return WhenAll(Pending(0), Pending(1)).ThenInline([o = Own{3}](std::vector<Own>&& v) {
        o.Use();
        v[1].Use();
        return std::move(v[0]);
      });
    case 7:
      return WhenAny(Pending(0), Pending(1));
    case 8:
      return Schedule<Err>(*gE, [o = Own{3}] {
               o.Use();
               return Own{1};
             }).ThenInline([o = Own{4}](Own&& v) {
                 o.Use();
                 return std::move(v);
               })
        .ToFuture();
    case 9:
      return LazyContract<Own, Err>([o = Own{3}](Promise<Own, Err>&& p) {
               o.Use();
               gP[0] = std::move(p);
             }).ToFuture();
    case 10: {
      auto s = PendingS(0);
      return Share(s);
    }
    case 11:
      return MakeFuture<Own, Err>(Own{1}).ThenInline([o = Own{3}](Own&& v) {
        o.Use();
        return Pending(0);
      });
    case 12:
      return CoE(Pending(0));
    case 13:
      return Join(Pending(0), Pending(1)).ThenInline([o = Own{3}] {
        o.Use();
        return Own{1};
      });
    case 14:
      return AsyncContract<Own, Err>(*gE, [o = Own{3}](Promise<Own, Err>&& p) {
               o.Use();
               if (gThrow)
                 throw Exc{1};
               End(p, gMode[0]);
             }).On(nullptr);
    case 15:
      return CoOn(Pending(0));
    case 17:
      return WhenAll(PendingS(0), PendingS(1)).ThenInline([o = Own{3}](std::vector<Own>&& v) {
        o.Use();
        v[1].Use();
        return std::move(v[0]);
      });
  }
  return {};
}
static S SSource(int k) {
  if (k == 2)
    return PendingS(0);
  if (k == 16)
    return RunShared<Err>(*gE, [o = Own{3}] {
             o.Use();
             return Own{1};
           }).On(nullptr);
  return CoS(Pending(0));
}
template <typename H>
static F Step(H f, int k) {
  switch (k) {
    case 1:
      return std::move(f).ThenInline([o = Own{5}](Own v) {
        o.Use();
        v.Use();
        return v;
      });
    case 2:
      return std::move(f).Then(*gE, [o = Own{5}](R r) {
               o.Use();
               return Use(std::move(r));
             }).On(nullptr);
    case 3:
      return std::move(f).ThenInline([o = Own{5}](R r) -> R {
        o.Use();
        throw Exc{2};
      });
    case 4:
      return std::move(f).Then(*gE, [o = Own{5}](R r) {
               o.Use();
               return Later();
             }).On(nullptr);
    case 5:
      return std::move(f).ThenInline([o = Own{5}](R r) {
        o.Use();
        return Schedule<Err>([o = Own{6}, r = std::move(r)]() mutable {
          o.Use();
          return Use(std::move(r));
        });
      });
    case 6:
      return std::move(f).ThenInline([o = Own{5}](Err) {
        o.Use();
        return Own{7};
      });
    case 7:
      return std::move(f).Then(*gStrand, [o = Own{5}](R r) {
               o.Use();
               return Use(std::move(r));
             }).On(nullptr);
  }
  return {};
}

extern "C" void vf_main() {
  int src = vf_param(0), s1 = vf_param(1), s2 = vf_param(2), end = vf_param(3), ek = vf_param(4);
  bool shared = src == 2 || src == 16 || src == 18;
  bool promise = !(src == 3 || src == 8 || src == 14 || src == 16);
  gMode[0] = promise || src == 14 ? vf_choose(4) : 0;
  gMode[1] = src == 6 || src == 7 || src == 13 || src == 17 ? vf_choose(2) * 3 : 0;
  gMode[2] = s1 == 4 || s2 == 4 ? vf_choose(2) * 3 : 0;
  gThrow = (src == 3 || src == 14 || src == 15) && vf_choose(2);
  bool usesE = src == 1 || src == 3 || src == 8 || src == 12 || src == 14 || src == 15 || src == 16 || s1 == 2 || s1 == 4 || s1 == 7 || s2 == 2 || s2 == 4 || s2 == 7 || end == 4;
  SpawnExec se{2, ~0ull};
  InExec ie{40, ~0ull};
  if (usesE && ek != 1) {
    auto b = vf_choose(3);
    se.refuse = ie.refuse = b == 0 ? ~0ull : b - 1;
  }
  IExecutorPtr strand, strand2;
  IntrusivePtr<FairThreadPool> pool;
  gE = &se;
  if (ek == 1) {
    pool = MakeFairThreadPool(1);
    gE = pool.Get();
  } else if (ek == 2) {
    strand2 = MakeStrand(&se);
    gE = strand2.Get();
  } else if (ek == 3)
    gE = &ie;
  strand = MakeStrand(gE);
  gStrand = strand.Get();
  auto prod = [&] {
    End(gP[0], gMode[0]);
    End(gSP[0], gMode[0]);
    End(gP[1], gMode[1]);
    End(gSP[1], gMode[1]);
  };
  auto stop = [&] { pool->HardStop(); };
  int tp = -1, ts = -1;
  auto launch = [&] {
    if (promise && tp < 0)
      tp = Spawn(prod);
    if (ek == 1 && ts < 0)
      ts = Spawn(stop);
  };
  auto work = [&] {
    F f;
    S sf;
    if (shared)
      sf = SSource(src);
    else
      f = Source(src);
    launch();
    if (shared && s1) {
      if (s2 == 0 && end == 0)
        sf.SubscribeInline([o = Own{8}](const R& r) { o.Use(); });
      f = Step(end == 5 ? sf : std::move(sf), s1);
      shared = false;
    } else if (s1)
      f = Step(std::move(f), s1);
    if (s2)
      f = Step(std::move(f), s2);
    if (shared) {
      switch (end) {
        case 0:
          break;
        case 1:
          if (const auto r = std::move(sf).Get())
            r.Value().Use();
          break;
        case 3:
          sf.SubscribeInline([o = Own{8}](const R& r) { o.Use(); });
          break;
        case 4:
          sf.Subscribe(*gE, [o = Own{8}](const R& r) { o.Use(); });
          break;
        case 7: {
          S c = sf;
          auto t1 = [&] {
            S d = std::move(c);
            if (d.Ready())
              if (auto& r = std::as_const(d).Touch())
                r.Value().Use();
          };
          auto t2 = [&] {
            if (const auto r = std::move(sf).Get())
              r.Value().Use();
          };
          int a = Spawn(t1);
          t2();
          vf_join(a);
        } break;
        case 10:
          sf = MakeSharedContract<Own, Err>().first;
          break;
      }
      return;
    }
    switch (end) {
      case 0:
        break;
      case 1:
        if (const auto r = std::move(f).Get())
          r.Value().Use();
        break;
      case 2:
        std::move(f).Detach();
        break;
      case 3:
        std::move(f).DetachInline([o = Own{8}](R&& r) {
          o.Use();
          Use(std::move(r));
        });
        break;
      case 4:
        std::move(f).Detach(*gE, [o = Own{8}](R&& r) {
          o.Use();
          Use(std::move(r));
        });
        break;
      case 5:
        if (WaitFor(std::chrono::nanoseconds{5}, f))
          std::as_const(f).Touch();
        break;
      case 6: {
        auto [g, p] = MakeContract<Own, Err>();
        Connect(std::move(f), std::move(p));
      } break;
      case 7: {
        S a = Split(std::move(f));
        S b = a;
        auto t1 = [&] {
          S d = std::move(b);
          if (d.Ready())
            if (auto& r = std::as_const(d).Touch())
              r.Value().Use();
        };
        int t = Spawn(t1);
        if (const auto r = std::move(a).Get())
          r.Value().Use();
        vf_join(t);
      } break;
      case 8:
        Watch(std::move(f)).Detach();
        break;
      case 9: {
        WaitGroup<> wg;
        wg.Consume(std::move(f));
        wg.Wait();
      } break;
      case 10:
        f = MakeFuture<Own, Err>(Own{9});
        break;
      case 11:
        if (f.Ready())
          if (const auto r = std::move(f).Touch())
            r.Value().Use();
        break;
      case 12: {
        auto [g, p] = MakeContract<Own, Err>();
        Connect(std::move(f), std::move(p));
        if (const auto r = std::move(g).Get())
          r.Value().Use();
      } break;
      case 13: {
        auto a = Split(std::move(f));
        auto b = a;
        b.SubscribeInline([o = Own{8}](const R& r) { o.Use(); });
      } break;
      case 14: {
        WaitGroup<> wg;
        wg.Attach(f);
        wg.Wait();
        CHECK(f.Ready(), "an attached future is not Ready after Wait");
      } break;
    }
  };
  work();
  launch();
  if (tp >= 0)
    vf_join(tp);
  if (ts >= 0) {
    vf_join(ts);
    pool->Wait();
  }
  auto quiet = [&] {
    for (int done = 0; se.JoinAll() || done < gLates;)
      while (done < gLates)
        vf_join(gLate[done++]);
  };
  quiet();
  strand = nullptr;
  strand2 = nullptr;
  pool = nullptr;
  for (auto& p : gP)
    CHECK(!p.Valid(), "harness");
  vf_reach("end");
}
