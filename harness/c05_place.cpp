// C05: where the steps of a pipeline run. params: kind of step 0, 1, 2 (99: none), source, level (0: one budget at a time, 1: all).
// step kinds: 0 value -> value, 1 result -> result, 2 error -> result, 3 result -> ready future, 4 result -> pending future, 5 result -> Run(A),
// 6 result -> Schedule(A), 7 result -> coroutine Task. source: 0 ready, 1 pending, 2 Run(A), 3 contract on B, 4 pending shared, 5 Schedule(A),
// 6 AsyncContract(B), 7 shared contract on B, 8 RunShared(A), 9 coroutine after On(A), 10 a contract on B and 11 a shared contract on B, awaited by coroutines before.
// Symbolic: per step how it is attached (ThenInline, Then(A), Then(B), Then), outcomes, from which submission on A and B refuse, how the chain ends.
#define GRP 5
#include "pipe.h"
#include <yaclib/coro/await_on.hpp>
#include <yaclib/coro/await_sticky.hpp>
#include <yaclib/coro/on.hpp>
static const int kSig[] = {sRRef, sRes, sErr, sRes, sRes, sRes, sRes, sRes};
static const int kRet[] = {rVal, rRes, rRes, rFut, rFutPend, rRunA, rTSchedA, rTCoro};
static Fut CoOnA(Beh b) {
  co_await yaclib::On(*gA);
  Enter(10, {3, 0});
  co_return MakeRes(b);
}
// awaits a future which stays with its owner: the owner's next step still goes where the future says
template <typename T>
static Future<void, Err> Look(T& f, bool sticky, PExec* on) {
  if (on)
    co_await AwaitOn(*on, f);
  else if (sticky)
    co_await AwaitSticky(f);
  else
    co_await Await(f);
  CHECK(f.Ready(), "Await resumed although the future is not Ready");
  co_return Unit{};
}
extern "C" void vf_main() {
  int n = vf_param(1) == 99 ? 1 : vf_param(2) == 99 ? 2 : 3;
  int src = vf_param(3), level = vf_param(4);
  PExec A{0}, B{1};
  gA = &A;
  gB = &B;
  uint64_t ba = vf_choose(5), bb = vf_choose(4);
  if (level == 0)
    vf_assume(ba == 0 || bb == 0);
  A.budget = ba == 0 ? ~0ull : ba - 1;
  B.budget = bb == 0 ? ~0ull : bb - 1;
  Ref m;
  m.budgetA = A.budget;
  m.budgetB = B.budget;
  Beh sb{11, (int)vf_choose(2) * 3, (uint32_t)vf_nondet(32)};
  if (src == 0 || src == 1 || src == 3 || src == 4 || src == 7 || src >= 10)
    sb.kind = sb.kind == 3 ? 2 : 0;
  Beh b[3];
  int mode[3], s[3], r[3];
  for (int i = 0; i < n; ++i) {
    int k = vf_param(i);
    s[i] = kSig[k];
    r[i] = kRet[k];
    b[i] = {i, (int)vf_choose(2) * (r[i] == rVal ? 3 : 1), (uint32_t)vf_nondet(32)};
    mode[i] = vf_choose(4);
    if (r[i] == rTCoro && i + 1 < n)
      vf_assume(true);
  }
  int term = n == 3 ? 0 : vf_choose(6);
  {
    Fut f;
    SFut sf;
    Promise<Val, Err> p;
    SharedPromise<Val, Err> sp;
    bool shared = false, ran = true;
    m.now = OfBeh(sb);
    switch (src) {
      case 0:
        f = MakeFuture<Val, Err>(MakeRes(sb));
        break;
      case 1: {
        auto c = MakeContract<Val, Err>();
        f = std::move(c.first);
        p = std::move(c.second);
      } break;
      case 2:
        f = Run<Err>(A, [sb] {
              Enter(10, {3, 0});
              return MakeRes(sb);
            }).On(nullptr);
        break;
      case 3: {
        auto c = MakeContractOn<Val, Err>(B);
        f = std::move(c.first).On(nullptr);
        p = std::move(c.second);
        m.cur = 1;
      } break;
      case 4: {
        shared = true;
        auto c = MakeSharedContract<Val, Err>();
        sf = std::move(c.first);
        sp = std::move(c.second);
      } break;
      case 5:
        f = Schedule<Err>(A, [sb] {
              Enter(10, {3, 0});
              return MakeRes(sb);
            }).ToFuture();
        break;
      case 6:
        f = AsyncContract<Val, Err>(B, [&, sb](Promise<Val, Err>&& pr) {
              Enter(10, {3, 0});
              if (sb.kind == 3)
                throw Exc{sb.w};
              p = std::move(pr);
            }).On(nullptr);
        break;
      case 7: {
        shared = true;
        auto c = MakeSharedContractOn<Val, Err>(B);
        sf = std::move(c.first).On(nullptr);
        sp = std::move(c.second);
        m.cur = 1;
      } break;
      case 8:
        shared = true;
        sf = RunShared<Err>(A, [sb] {
               Enter(10, {3, 0});
               return MakeRes(sb);
             }).On(nullptr);
        break;
      case 9:
        f = CoOnA(sb);
        break;
      case 10: {  // awaited by a coroutine before the steps are attached
        auto c = MakeContractOn<Val, Err>(B);
        f = std::move(c.first).On(nullptr);
        int how = vf_choose(6);
        auto co = Look(f, how & 1, how >= 4 ? &A : nullptr);
        Fulfil(std::move(c.second), sb);
        CHECK(co.Ready(), "a coroutine awaiting a future never resumed");
        if (how >= 4)
          RefSubmit(m.budgetA, m.calledA, m.droppedA);
        m.cur = 1;
      } break;
      case 11: {
        shared = true;
        auto c = MakeSharedContractOn<Val, Err>(B);
        sf = std::move(c.first).On(nullptr);
        int how = vf_choose(6);
        auto co = Look(sf, how & 1, how >= 4 ? &A : nullptr);
        auto co2 = Look(sf, how & 2, nullptr);
        Fulfil(std::move(c.second), sb);
        CHECK(co.Ready() && co2.Ready(), "a coroutine awaiting a future never resumed");
        if (how >= 4)
          RefSubmit(m.budgetA, m.calledA, m.droppedA);
        m.cur = 1;
      } break;
    }
    if (src == 2 || src == 5 || src == 8 || src == 9) {
      m.cur = 0;
      ran = RefSubmit(m.budgetA, m.calledA, m.droppedA);
    }
    if (src == 6) {
      m.cur = 1;
      ran = RefSubmit(m.budgetB, m.calledB, m.droppedB);
    }
    if (!ran)
      m.now = {4, 0};
    else if (src < 10 && m.calledA + m.calledB) {
      m.rec[10].calls = 1;
      m.rec[10].exec = m.cur;
    }
    auto step = [&](int i) {
      if (shared && i == 0) {
        // a SharedFuture gives its steps a const result: by-value signatures
        int sg = s[0] == sRRef ? sByVal : s[0] == sRes ? sResVal : s[0];
        f = StepR<0, 0, Fut>(sf, sg, r[0], mode[0], b[0]);
      } else {
        f = StepR<0, 0, Fut>(std::move(f), s[i], r[i], mode[i], b[i]);
      }
    };
    for (int i = 0; i < n; ++i)
      step(i);
    bool ended = false;
    Rec last;
    Ref m2;
    auto fin = [&last](Res&& x) {
      ++last.calls;
      last.seen = SumOf(x);
      last.exec = gCurExec;
    };
    bool detached = term >= 1 && term <= 4;
    switch (term) {
      case 1:
        std::move(f).DetachInline(fin);
        break;
      case 2:
        std::move(f).Detach(A, fin);
        break;
      case 3:
        std::move(f).Detach(B, fin);
        break;
      case 4:
        FutureOn<Val, Err>{std::move(f.GetCore())}.Detach(fin);
        break;
      case 5:
        f = {};
        ended = true;
        break;
    }
    if (p.Valid())
      Fulfil(std::move(p), sb);
    if (sp.Valid())
      Fulfil(std::move(sp), sb);
    Pump();
    for (int i = 0; i < n; ++i)
      RefStep(m, s[i], r[i], mode[i], b[i]);
    if (detached) {
      bool acc = true;
      if (term == 2)
        m.cur = 0;
      if (term == 3)
        m.cur = 1;
      if (term != 1 && m.cur >= 0)
        acc = m.cur == 0 ? RefSubmit(m.budgetA, m.calledA, m.droppedA) : RefSubmit(m.budgetB, m.calledB, m.droppedB);
      CHECK(last.calls == 1, "the final continuation did not run exactly once");
      CHECK(last.seen == (acc ? m.now : Sum{4, 0}), "the final continuation saw another Result than the sequential reading says");
      if (term != 1 && m.cur >= 0 && acc)
        CHECK(last.exec == m.cur, "the final continuation ran outside of the executor it was given");
    } else if (!ended) {
      CHECK(f.Valid() && f.Ready(), "the pipeline did not complete although everything it waits for happened");
      auto got = std::move(f).Get();
      CHECK(SumOf(got) == m.now, "the final Result differs from the sequential reading");
    }
    m.rec[10].seen = gRec[10].seen;
    Compare(m, A, B);
  }
  CHECK(vf_g_get(G_LIVE) == 0, "values or captures destroyed a wrong number of times");
  vf_reach("end");
}
