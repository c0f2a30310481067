// C12: Task pipelines. params: sig1, ret1, sig2, ret2 (sig = 99: no such step), level (1 all starts, 2 all heads, 3 both, 0 a few of each). Symbolic: head and its outcome, how the Task is
// started or abandoned, per step executor mode and callback outcome, payloads, from which submission on executor A refuses.
#include "pipe.h"
static void Head(Beh b) {
  Enter(11, {3, 0});
}
static Tsk HeadCoro(Beh b) {
  Val local{5};
  Head(b);
  CHECK(local.Is(5), "a local of a coroutine Task was destroyed");
  co_return MakeRes(b);
}
static Tsk HeadCoroPend(Beh b) {
  Val local{5};
  Head(b);
  Steps(1);
  auto [f, p] = MakeContract<Val, Err>();
  gPP[b.i] = std::move(p);
  gPB[b.i] = b;
  co_await Await(f);
  CHECK(local.Is(5), "a local of a coroutine Task was destroyed");
  co_return std::move(f).Touch();
}
static Tsk MakeHead(int head, Beh b) {
  auto set = [b](Promise<Val, Err>&& p) {
    Head(b);
    if (b.kind == 3)
      throw Exc{b.w};
    Fulfil(std::move(p), b);
  };
  Steps(1);
  switch (head) {
    case 0:
      return MakeTask<Val, Err>(MakeRes(b));
    case 1:
      return Schedule<Err>([b, cap = Val{7}] {
        CHECK(cap.Is(7), "functor used after it was destroyed or moved");
        Head(b);
        return MakeRes(b);
      });
    case 2:
      return Schedule<Err>(*gA, [b] {
        Head(b);
        return MakeRes(b);
      });
    case 3:
      return LazyContract<Val, Err>([set, cap = Val{7}](Promise<Val, Err>&& p) {
        CHECK(cap.Is(7), "functor used after it was destroyed or moved");
        set(std::move(p));
      });
    case 4:
      return LazyContract<Val, Err>(*gA, set);
    case 5:
      return LazyContract<Val, Err>([b](Promise<Val, Err>&& p) {
        Head(b);
        gPP[b.i] = std::move(p);
        gPB[b.i] = b;
      });
    case 6:
      return HeadCoro(b);
    case 7:
      return HeadCoroPend(b);
    case 8:
      return Schedule<Err>([b] {
        Head(b);
        Steps(1);
        return MakeFuture<Val, Err>(MakeRes(b));
      });
    default:
      return Schedule<Err>(*gA, [b] {
        Head(b);
        Steps(2);
        return MakeTask<Val, Err>(MakeRes(b)).ThenInline([](Res&& r) { return std::move(r); });
      });
  }
}
static Sum gGot{3, 0};
static bool gHave = false;
static Future<void, Err> TakeTask(Tsk t) {
  Sum s;
  try {
    Val v = co_await std::move(t);
    s = SumV(v);
  } catch (const ResultError<Err>& e) {
    s = SumE(e.Get());
  } catch (const Exc& e) {
    s = {1, e.code};
  }
  gGot = s;
  gHave = true;
  co_return Unit{};
}
// what: 0 take the result, 1 destroy the completed Task, 2 look at the result, then destroy
static Future<void, Err> AwaitTask(Tsk t, int what) {
  co_await Await(t);
  CHECK(t.Valid() && t.Ready(), "Await left a Task invalid or not ready");
  if (what == 0)
    gGot = SumOf(std::move(t).Touch());
  else if (what == 2)
    gGot = SumOf(std::as_const(t).Touch());
  gHave = what != 1;
  co_return Unit{};
}
enum Start { stFuture, stFutureA, stGet, stDetach, stDetachA, stRet, stCo, stAwait, stDrop, stAwaitDrop, stRetB, stRetLazy, stAssign, stCancel, stAwaitLook, stFutureDrop, stCount };

extern "C" void vf_main() {
  int s[2] = {(int)vf_param(0), (int)vf_param(2)}, r[2] = {(int)vf_param(1), (int)vf_param(3)};
  int n = s[0] == 99 ? 0 : s[1] == 99 ? 1 : 2;
  static const int fewh[] = {1, 4, 7}, fews[] = {stFuture, stFutureA, stRet, stCo, stDrop};
  int level = vf_param(4);
  int head = level == 2 || level == 3 ? vf_choose(10) : fewh[vf_choose(3)];
  int start = level == 1 || level == 3 ? vf_choose(stCount) : level == 0 ? fews[2 * vf_choose(3)] : fews[vf_choose(5)];
  PExec A{0}, B{1};
  gA = &A;
  gB = &B;
  int bud = vf_choose(level > 1 ? 3 : 2);
  A.budget = bud == 0 ? ~0ull : bud == 1 ? 0 : 1;
  Ref m;
  m.budgetA = A.budget;
  m.budgetB = ~0ull;
  Beh sb{11, (int)vf_choose(5), (uint32_t)vf_nondet(32)};
  Beh b[2];
  int mode[2];
  bool pend = head == 5 || head == 7;
  bool inner = start == stRet || start == stCo || start == stAwait || start == stAwaitDrop || start == stRetB || start == stRetLazy || start == stAwaitLook;
  bool onA = start == stFutureA || start == stDetachA, drop = start == stDrop || start == stAssign || start == stCancel;
  vf_assume(!(head == 0 && sb.kind == 3));
  vf_assume(!(pend && sb.kind == 3));
  if (level == 0)
    vf_assume(sb.kind < 2 && (head != 1 || start != stFuture));
  for (int i = 0; i < n; ++i) {
    b[i] = {i, (int)vf_choose(5), (uint32_t)vf_nondet(32)};
    mode[i] = vf_choose(4);
    bool plain = r[i] == rVal || r[i] == rVoid || r[i] == rVoidT;
    if (plain)
      vf_assume(b[i].kind == 0 || b[i].kind == 3);
    if (level == 0)
      vf_assume(i == 0 || b[i].kind == 0 || b[i].kind == 3);
    bool later = pend || r[i] == rFutPend || r[i] == rSFutPend || r[i] == rFutChain || r[i] == rTLazyPend || r[i] == rTCoAwait;
    vf_assume(!(start == stGet && later));
  }
  vf_assume(!(start == stGet && pend));
  // where a step without an executor runs after a coroutine that was resumed by somebody else is not specified
  if (n > 0)
    vf_assume(!(mode[0] == 3 && (head == 7 || (head == 6 && inner))));
  vf_assume(bud != 2 || n == 2 || head == 2 || head == 4 || head == 9 || onA);
  vf_assume(!(bud != 0 && onA && head == 0));  // whether a ready Task consults the executor is not specified
  Within all;
  {
    gMustStart = true;
    Tsk t = MakeHead(head, sb);
    if (n > 0)
      t = StepR<0, 0, Tsk>(std::move(t), s[0], r[0], mode[0], b[0]);
    if (n > 1)
      t = StepR<0, 0, Tsk>(std::move(t), s[1], r[1], mode[1], b[1]);
    CHECK(t.Valid() && !t.Ready() && A.called + A.dropped + B.called + B.dropped == 0, "a Task did something before it was started");
    // the same pipeline in the eager, sequential reading
    int exec = onA || head == 2 || head == 4 || head == 9 ? 0 : -1;
    if (drop)
      exec = -1;
    m.now = OfBeh(sb);
    bool ran = !drop;
    if (exec == 0) {
      m.cur = 0;
      ran = RefSubmit(m.budgetA, m.calledA, m.droppedA);
    }
    if (!ran) {
      m.now = {4, 0};
    } else if (head != 0) {
      m.rec[11].calls = 1;
      m.rec[11].exec = exec == 0 ? 0 : -2;
    }
    uint64_t b0 = 0;
    if (start == stRetB)
      RefSubmit(m.budgetB, m.calledB, m.droppedB);
    if (drop)
      m.cur = -3;
    for (int i = 0; i < n; ++i) {
      RefStep(m, s[i], r[i], mode[i], b[i]);
    }
    Fut f;
    Future<void, Err> co;
    FutureOn<Val, Err> fo;
    auto ident = [](Res&& x) { return std::move(x); };
    if (start != stRetLazy)
      gStarted = true;
    if (start == stRet || start == stRetLazy)
      Steps(2);
    else if (inner || start == stDetach || start == stDetachA)
      Steps(1);
    switch (start) {
      case stFuture:
      case stFutureDrop:
        f = std::move(t).ToFuture();
        break;
      case stFutureA:
        fo = std::move(t).ToFuture(A);
        f = std::move(fo).On(nullptr);
        break;
      case stGet: {
        auto x = std::move(t).Get();
        gGot = SumOf(x);
        gHave = true;
      } break;
      case stDetach:
        std::move(t).Detach();
        break;
      case stDetachA:
        std::move(t).Detach(A);
        break;
      case stRet:
        f = MakeFuture<void, Err>().ThenInline([t = std::move(t)]() mutable { return std::move(t); });
        break;
      case stRetB:
        f = Run<Err>(B, [t = std::move(t)]() mutable { return std::move(t); }).On(nullptr);
        break;
      case stRetLazy: {
        auto outer = MakeTask<void, Err>(Unit{}).ThenInline([t = std::move(t)]() mutable { return std::move(t); });
        gStarted = true;
        f = std::move(outer).ToFuture();
      } break;
      case stCo:
        co = TakeTask(std::move(t));
        break;
      case stAwait:
        co = AwaitTask(std::move(t), 0);
        break;
      case stAwaitDrop:
        co = AwaitTask(std::move(t), 1);
        break;
      case stAwaitLook:
        co = AwaitTask(std::move(t), 2);
        break;
      case stDrop: {
        Tsk gone = std::move(t);
      } break;
      case stAssign:
        t = Tsk{};
        break;
      case stCancel:
        std::move(t).Cancel();
        break;
    }
    if (start == stFutureDrop)
      f = {};
    Pump();
    CHECK(!t.Valid(), "a started or abandoned Task is still valid");
    if (co.Valid()) {
      CHECK(co.Ready(), "a coroutine awaiting a Task never resumed");
      CHECK(std::move(co).Get().State() == ResultState::Value, "a coroutine awaiting a Task failed");
    } else if (f.Valid()) {
      CHECK(f.Ready(), "a started Task did not complete although everything it waits for happened");
      gGot = SumOf(std::move(f).Get());
      gHave = true;
    } else if (start != stGet) {
      CHECK(!gHave, "");
    }
    if (gHave)
      CHECK(gGot == m.now, "the Result of a Task differs from the same eager pipeline");
    // what a head saw is not compared
    m.rec[11].seen = gRec[11].seen;
    if (drop)
      for (int i = 0; i < n; ++i)
        CHECK(gRec[i].calls == 0 || !(s[i] == sRRef || s[i] == sCRef || s[i] == sByVal) || m.rec[i].calls != 0, "a value callback of an abandoned Task ran");
    Compare(m, A, B);
    CHECK(vf_g_get(G_LIVE) == 0, "functors or values of a finished Task were not released");
  }
  all.Check();
  CHECK(vf_g_get(G_LIVE) == 0, "functors or values destroyed a wrong number of times");
  vf_reach("end");
}
