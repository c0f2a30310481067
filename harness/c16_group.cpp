// C16: WaitGroup / OneShotEvent. params: src (where the count comes from), waiter A, waiter B (kind or 99), early (1: waiters
// registered before anything may complete), post (0 plain, 1 destroy the group as soon as the waiter returned, 2 Reset and reuse).
#include "vf_util.h"
#include <yaclib/algo/one_shot_event.hpp>
#include <yaclib/algo/wait_group.hpp>
#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/async/promise.hpp>
#include <yaclib/coro/await.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/on.hpp>
#include <optional>
using namespace yaclib;
using Res = Result<Val, Err>;

enum : unsigned { gDone = 0, gFired = 1, gSetF = 8, gExA = 12, gExB = 20, gTimeout = 30, gRefused = 31 };
static unsigned gNeed;  // Dones needed before the count can be zero
static std::optional<WaitGroup<>> gWg;
static std::optional<OneShotEvent> gEv;
static SpawnExec *gA, *gB;
static bool gEvent;

static uint32_t gWrote[2];
static uint32_t gPlain[2];  // written before a Done, read by whoever is released
static void Released(int id) {
  CHECK(vf_g_get(gDone) == gNeed, "a waiter was released before the count reached zero");
  CHECK(vf_g_add(gFired + id, 1) == 1, "a waiter was released twice");
  CHECK(gPlain[0] == gWrote[0] && gPlain[1] == gWrote[1], "what was written before Done is not seen by a released waiter");
}
struct EvJob final : Job {
  int id = 0;
  void Call() noexcept final {
    Released(id);
  }
  void Drop() noexcept final {
    vf_fail("a registered job was dropped");
  }
};
static EvJob gJob[3];
static void DoDone(unsigned n) {
  vf_g_add(gDone, n);
  gWg->Done(n);
}
struct Guard {  // a live local of the coroutine
  Val v{7};
};
static Future<Val, Err> Co(int id, int kind, uint32_t w) {
  Guard g;
  if (kind == 4 || kind == 9)
    co_await On(*gA);
  switch (kind) {
    case 3:
      if (gEvent) co_await gEv->AwaitInline(); else co_await gWg->AwaitInline();
      break;
    case 4:
      if (gEvent) co_await gEv->AwaitSticky(); else co_await gWg->AwaitSticky();
      CHECK(gA->Here(), "AwaitSticky resumed elsewhere than on the coroutine's executor");
      break;
    case 5: case 9:
      if (gEvent) co_await gEv->AwaitOn(*gB); else co_await gWg->AwaitOn(*gB);
      CHECK(gB->Here(), "AwaitOn resumed elsewhere than on the executor it names");
      break;
    case 7:
      if (gEvent) co_await *gEv; else co_await *gWg;
      break;
  }
  Released(id);
  CHECK(g.v.Is(7), "a live local of the coroutine was destroyed while it was suspended");
  co_return Val{w};
}
static Future<Val, Err> gCo[3];
static uint32_t gW[3];
static void TimedOut(int64_t deadline) {
  CHECK(vf_now() >= deadline, "a timed wait returned false before its deadline");
  vf_g_add(gTimeout, 1);
}
static void Waiter(int id, int kind) {
  using namespace std::chrono;
  auto dur = [&] { return nanoseconds{(int64_t)vf_nondet(32)}; };
  switch (kind) {
    case 0:
      if (gEvent) gEv->Wait(); else gWg->Wait();
      Released(id);
      break;
    case 1: case 8: {
      auto d = dur();
      auto dl = vf_now() + d.count();
      bool r = gEvent ? gEv->WaitFor(d) : gWg->WaitFor(d);
      if (!r) {
        TimedOut(dl);
        if (kind == 1) {
          vf_g_add(gFired + id, 1);
          return;
        }
        if (gEvent) gEv->Wait(); else gWg->Wait();
      }
      Released(id);
    } break;
    case 2: {
      auto tp = steady_clock::time_point{nanoseconds{vf_now()} + dur()};
      bool r = gEvent ? gEv->WaitUntil(tp) : gWg->WaitUntil(tp);
      if (!r) {
        TimedOut(tp.time_since_epoch().count());
        vf_g_add(gFired + id, 1);
        return;
      }
      Released(id);
    } break;
    case 3: case 4: case 5: case 7: case 9:
      gCo[id] = Co(id, kind, gW[id]);
      break;
    case 6: {
      gJob[id].id = id;
      if (!gEv->TryAdd(gJob[id])) {
        CHECK(gEv->Ready(), "TryAdd refused although the event is not set");
        Released(id);
      }
    } break;
  }
}
static Future<Val, Err> fu[2];
static Promise<Val, Err> pu[2];
static int gKind[2];
static uint32_t gP[2];
static Sum Want(int i) {
  return gKind[i] == 0 ? Sum{0, gP[i]} : gKind[i] == 1 ? Sum{2, gP[i]} : Sum{4, 0};
}
static void Complete(int i) {
  vf_g_set(gSetF + i, 1);
  vf_g_add(gDone, 1);
  if (gKind[i] == 0)
    std::move(pu[i]).Set(Val{gP[i]});
  else if (gKind[i] == 1)
    std::move(pu[i]).Set(Err{gP[i]});
  else
    Promise<Val, Err> d = std::move(pu[i]);
}

extern "C" void vf_main() {
  int src = vf_param(0), wa = vf_param(1), wb = vf_param(2), early = vf_param(3), post = vf_param(4);
  gEvent = src == 8 || src == 9;
  bool futs = (src >= 2 && src <= 7) || src == 11 || src == 12 || src == 13;
  bool consumed[2] = {src == 3 || src == 5 || src == 7, src == 3 || src == 5 || src == 7 || src == 11};
  SpawnExec ea{gExA}, eb{gExB};
  gA = &ea;
  gB = &eb;
  for (auto& w : gW)
    w = vf_nondet(32);
  if (futs)
    for (int i = 0; i < 2; ++i) {
      auto c = MakeContract<Val, Err>();
      fu[i] = std::move(c.first);
      pu[i] = std::move(c.second);
      gKind[i] = vf_choose(2);
      gP[i] = vf_nondet(32);
    }
  {
    if (gEvent)
      gEv.emplace();
    std::size_t c0 = 0;
    gNeed = 2;
    switch (src) {
      case 0: c0 = 2; break;
      case 1: c0 = 1; break;
      case 2: case 3: case 4: case 5: c0 = 1; gNeed = 3; break;
      case 6: case 7: c0 = 0; break;
      case 8: case 9: gNeed = 1; break;
      case 10: c0 = 1; break;
      case 11: c0 = 1; gNeed = 4; break;
      case 12: case 13: c0 = 0; break;
    }
    if (!gEvent)
      gWg.emplace(c0);
    auto w0 = [&] { Waiter(0, wa); };
    auto w1 = [&] { Waiter(1, wb); };
    int t[6], nt = 0, tw[2], nw = 0;
    auto waiters = [&] {
      if (wa != 99)
        tw[nw++] = Spawn(w0);
      if (wb != 99)
        tw[nw++] = Spawn(w1);
    };
    gWrote[0] = vf_nondet(32);
    gWrote[1] = src == 0 || futs ? (uint32_t)vf_nondet(32) : 0;
    auto a = [&] {
      gPlain[0] = gWrote[0];
      if (src == 0)
        DoDone(1);
      else if (src == 1)
        DoDone(1);
      else if (src == 8) {
        vf_g_add(gDone, 1);
        gEv->Set();
      } else if (src == 9) {
        vf_g_add(gDone, 1);
        gEv->Call();
        gEv->Set();
      } else if (src == 10) {
        gWg->Add(1);
        DoDone(1);
        DoDone(1);
      } else
        Complete(0);
    };
    auto b = [&] {
      gPlain[1] = gWrote[1];
      if (src == 0)
        DoDone(1);
      else
        Complete(1);
    };
    // coroutine waiters run before anything on main when early; blocking ones are threads
    if (early) {
      auto reg = [&](int id, int k) {
        if (k == 99)
          return;
        if (k == 3 || k == 4 || k == 5 || k == 6 || k == 7 || k == 9)
          Waiter(id, k);
        else if (id == 0)
          tw[nw++] = Spawn(w0);
        else
          tw[nw++] = Spawn(w1);
      };
      if (src == 6 || src == 7)
        gWg->Add(2);
      if (src != 12 && src != 13) {
        reg(0, wa);
        reg(1, wb);
      }
    }
    if (src == 1)
      gWg->Add(1);
    if (src == 11)
      gWg->Add(1);
    if (futs || src != 1 || true)
      t[nt++] = Spawn(a);
    if (src == 0 || futs)
      t[nt++] = Spawn(b);
    bool own = src == 2 || src == 3 || src == 4 || src == 5 || src == 11 || src == 1;  // main holds a count of its own
    auto probe = [&](int i) {
      if (!futs || consumed[i])
        return;
      CHECK(fu[i].Valid(), "an attached future became invalid");
      if (fu[i].Ready())
        CHECK(vf_g_get(gSetF + i) == 1, "an attached future is Ready before it completed");
    };
    if (!early && own)
      waiters();
    switch (src) {
      case 2: gWg->Attach(fu[0], fu[1]); break;
      case 3: gWg->Consume(std::move(fu[0]), std::move(fu[1])); break;
      case 4: gWg->Attach(fu, (std::size_t)2); break;
      case 5: gWg->Consume(fu, fu + 2); break;
      case 6: if (!early) gWg->Add(2); gWg->Attach<false>(fu[0], fu[1]); break;
      case 7: if (!early) gWg->Add(2); gWg->Consume<false>(fu, (std::size_t)2); break;
      case 11: gWg->Attach(fu[0]); gWg->Consume(std::move(fu[1])); break;
      case 12: gWg->Attach(fu, fu + 2); break;
      case 13: gWg->Attach(fu[0], fu[1]); break;
    }
    probe(0);
    probe(1);
    if ((!early && !own) || (early && (src == 12 || src == 13)))
      waiters();
    if (src == 11)
      DoDone(1);
    if (own)
      DoDone(1);
    if (post == 1) {  // the group dies as soon as its waiter returned, while completions may still be leaving it
      for (int i = 0; i < nw; ++i)
        vf_join(tw[i]);
      if (gEvent) gEv->Wait(); else gWg->Wait();
      gEv.reset();
      gWg.reset();
      for (int i = 0; i < nt; ++i)
        vf_join(t[i]);
    } else {
      for (int i = 0; i < nt; ++i)
        vf_join(t[i]);
      for (int i = 0; i < nw; ++i)
        vf_join(tw[i]);
    }
    JoinBoth(ea, eb);
    CHECK(wa == 99 || vf_g_get(gFired + 0) == 1, "a waiter was not released although the count is zero");
    CHECK(wb == 99 || vf_g_get(gFired + 1) == 1, "a waiter was not released although the count is zero");
    for (int i = 0; i < 2; ++i)
      if (gCo[i].Valid()) {
        CHECK(gCo[i].Ready(), "a coroutine did not finish");
        CHECK(SumOf(std::move(gCo[i]).Get()) == (Sum{0, gW[i]}), "a coroutine finished with something else");
      }
    if (futs)
      for (int i = 0; i < 2; ++i) {
        if (consumed[i]) {
          CHECK(!fu[i].Valid(), "a consumed future is still valid");
        } else {
          CHECK(fu[i].Valid() && fu[i].Ready(), "an attached future is not Ready after it completed");
          if (i == 0) {
            CHECK(SumOf(std::as_const(fu[i]).Touch()) == Want(i), "an attached future carries something else");
            fu[i] = {};
          } else {
            bool ran = false;
            std::move(fu[i]).DetachInline([&](Res&& r) {
              CHECK(SumOf(r) == Want(1), "an attached future carries something else");
              ran = true;
            });
            CHECK(ran, "a continuation of an attached, completed future did not run");
          }
        }
      }
    if (post != 1) {  // waiters arriving afterwards
      Waiter(2, gEvent ? 6 : 0);
      CHECK(vf_g_get(gFired + 2) == 1, "a waiter arriving after zero was not released");
      if (gEvent)
        CHECK(gEv->Ready() , "event not Ready after Set");
      else
        CHECK(gWg->Count() == 0, "count is not zero");
      vf_g_set(gFired + 2, 0);
      Waiter(2, 3);
      CHECK(vf_g_get(gFired + 2) == 1, "a coroutine arriving after zero was not released");
      CHECK(SumOf(std::move(gCo[2]).Get()) == (Sum{0, gW[2]}), "a coroutine finished with something else");
    }
    if (post == 2) {
      vf_g_set(gDone, 0);
      gNeed = 1;
      for (int i = 0; i < 3; ++i)
        vf_g_set(gFired + i, 0);
      if (gEvent) gEv->Reset(); else gWg->Reset(1);
      auto last = [&] {
        vf_g_add(gDone, 1);
        if (gEvent) gEv->Set(); else gWg->Done();
      };
      int t2 = Spawn(last);
      Waiter(2, 7);
      Waiter(0, 0);
      vf_join(t2);
      CHECK(vf_g_get(gFired + 2) == 1, "a coroutine was not released after Reset");
      CHECK(SumOf(std::move(gCo[2]).Get()) == (Sum{0, gW[2]}), "a coroutine finished with something else");
    }
    gWg.reset();
    gEv.reset();
    vf_reach(vf_g_get(gTimeout) ? "timeout" : "released");
  }
  CHECK(vf_g_get(G_LIVE) == 0, "values destroyed a wrong number of times");
  vf_reach("end");
}
