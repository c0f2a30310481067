// C11: Wait / WaitFor / WaitUntil. params: form, who completes (0: some before the call, the rest by one thread in symbolic
// order; 1: every input by a thread of its own), what happens to the futures afterwards (0..4).
#include "vf_util.h"
#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/async/promise.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/shared_future.hpp>
#include <yaclib/async/shared_promise.hpp>
#include <yaclib/async/wait.hpp>
#include <yaclib/async/wait_for.hpp>
#include <yaclib/async/wait_until.hpp>
using namespace yaclib;
constexpr int N = 3;
static Future<Val, Err> fu[N];
static Promise<Val, Err> pu[N];
static SharedFuture<Val, Err> fs[N];
static SharedPromise<Val, Err> ps[N];
static bool isShared[N];
static int gKind[N];
static uint32_t gW[N];
static Sum Want(int i) {
  return gKind[i] == 0 ? Sum{0, gW[i]} : gKind[i] == 1 ? Sum{2, gW[i]} : Sum{4, 0};
}
template <typename P>
void Fulfil(P& p, int i) {
  if (gKind[i] == 0)
    std::move(p).Set(Val{gW[i]});
  else if (gKind[i] == 1)
    std::move(p).Set(Err{gW[i]});
  else
    P d = std::move(p);
}
static void Complete(int i) {
  vf_g_set(i, 1);  // entered
  if (isShared[i])
    Fulfil(ps[i], i);
  else
    Fulfil(pu[i], i);
}
template <typename Call>
__attribute__((noinline)) bool Scoped(Call&& c) {
  return c();
}
using namespace std::chrono_literals;
static int gCalls[N];

extern "C" void vf_main() {
  int form = vf_param(0), who = vf_param(1), post = vf_param(2);
  bool timed = form >= 20;
  int n = 2;
  switch (form) {
    case 0: case 4: case 20: case 24: n = 1; break;
    case 2: case 3: case 22: case 26: n = who == 2 ? 3 : 2; break;
    case 6: case 8: case 9: n = 3; break;
  }
  for (int i = 0; i < n; ++i) {
    isShared[i] = form == 4 || form == 5 || form == 7 || form == 9 || ((form == 6 || form == 10) && i != 1) || (form == 8 && i == 1);
    gKind[i] = vf_choose(2);
    gW[i] = vf_nondet(32);
    if (isShared[i]) {
      auto c = MakeSharedContract<Val, Err>();
      fs[i] = std::move(c.first);
      ps[i] = std::move(c.second);
    } else {
      auto c = MakeContract<Val, Err>();
      fu[i] = std::move(c.first);
      pu[i] = std::move(c.second);
    }
  }
  uint64_t allocs = 0;
  {
    unsigned pre = 0;
    if (who == 0) {
      pre = vf_choose(1u << n);
      for (int i = 0; i < n; ++i)
        if (pre >> i & 1)
          Complete(i);
    }
    auto t0 = [&] { Complete(0); };
    auto t1 = [&] { Complete(1); };
    auto t2 = [&] { Complete(2); };
    auto rest = [&] {
      bool rev = vf_choose(2);
      for (int k = 0; k < n; ++k) {
        int i = rev ? n - 1 - k : k;
        if (!(pre >> i & 1))
          Complete(i);
      }
    };
    int th[N], nt = 0;
    if (who == 0) {
      th[nt++] = Spawn(rest);
    } else {
      th[nt++] = Spawn(t0);
      if (n > 1)
        th[nt++] = Spawn(t1);
      if (n > 2)
        th[nt++] = Spawn(t2);
    }
    int64_t dur = timed ? (int64_t)(vf_nondet(32)) : 0;
    int64_t start = vf_now();
    auto d = std::chrono::nanoseconds{dur};
    auto tp = std::chrono::steady_clock::time_point{std::chrono::nanoseconds{start + dur}};
    auto once = [&] {
      uint64_t before = vf_alloc_count();
      bool r = true;
      switch (form) {
        case 0: Wait(fu[0]); break;
        case 1: Wait(fu[0], fu[1]); break;
        case 2: Wait(fu, (std::size_t)n); break;
        case 3: Wait(fu, fu + n); break;
        case 4: Wait(fs[0]); break;
        case 5: Wait(fs[0], fs[1]); break;
        case 6: Wait(fs[0], fu[1], fs[2]); break;
        case 7: Wait(fs, (std::size_t)n); break;
        case 8: Wait(fu[0], fs[1], fu[2]); break;
        case 9: Wait(fs, fs + n); break;
        case 10: Wait(fs[0], fu[1]); break;
        case 20: r = WaitFor(d, fu[0]); break;
        case 21: r = WaitFor(d, fu[0], fu[1]); break;
        case 22: r = WaitFor(d, fu, (std::size_t)n); break;
        case 23: r = WaitFor(d, fu, fu + n); break;
        case 24: r = WaitUntil(tp, fu[0]); break;
        case 25: r = WaitUntil(tp, fu[0], fu[1]); break;
        case 26: r = WaitUntil(tp, fu, (std::size_t)n); break;
        case 27: r = WaitUntil(tp, fu, fu + n); break;
      }
      if (form < 4 || form >= 20)
        CHECK(vf_alloc_count() == before, "waiting on plain futures allocated");
      return r;
    };
    auto judge = [&](bool r) {
      bool all = true;
      for (int i = 0; i < n; ++i) {
        bool ready = isShared[i] ? fs[i].Ready() : fu[i].Ready();
        CHECK(!ready || vf_g_get(i) == 1, "a future is Ready although nobody completed it");
        CHECK(isShared[i] ? fs[i].Valid() : fu[i].Valid(), "waiting made a future invalid");
        all = all && ready;
      }
      if (r)
        CHECK(all, "Wait returned (true) although a future is not Ready");
      else
        CHECK(vf_now() >= start + dur, "a timed wait returned false before its deadline");
      vf_reach(r ? "ready" : "timeout");
    };
    bool r = Scoped(once);
    judge(r);
    if (post == 4) {  // the same wait again
      start = vf_now();
      tp = std::chrono::steady_clock::time_point{std::chrono::nanoseconds{start + dur}};
      bool r2 = Scoped(once);
      CHECK(!r || r2, "a second wait failed although the first one succeeded");
      judge(r2);
    }
    if (post == 3) {
      if (form < 20 ? false : true)
        Wait(fu, (std::size_t)n);
      for (int i = 0; i < n; ++i)
        CHECK(isShared[i] ? fs[i].Ready() : fu[i].Ready(), "Wait returned although a future is not Ready");
    }
    for (int i = 0; i < n; ++i) {
      if (isShared[i]) {
        auto s = std::move(fs[i]).Get();
        fs[i] = {};
        CHECK(SumOf(s) == Want(i), "the future delivers a different Result after the wait");
        continue;
      }
      if (post == 1) {
        std::move(fu[i]).DetachInline([i](Result<Val, Err>&& v) {
          ++gCalls[i];
          CHECK(vf_g_get(i) == 1, "continuation ran before completion");
          CHECK(SumOf(v) == Want(i), "the future delivers a different Result after the wait");
        });
      } else if (post == 2) {
        fu[i] = {};
      } else {
        auto s = std::move(fu[i]).Get();
        CHECK(vf_g_get(i) == 1, "Get returned before completion");
        CHECK(SumOf(s) == Want(i), "the future delivers a different Result after the wait");
      }
    }
    for (int i = 0; i < nt; ++i)
      vf_join(th[i]);
    if (post == 1)
      for (int i = 0; i < n; ++i)
        CHECK(isShared[i] || gCalls[i] == 1, "a continuation attached after the wait did not run exactly once");
  }
  CHECK(vf_g_get(G_LIVE) == 0, "values destroyed a wrong number of times");
  vf_reach("end");
}
