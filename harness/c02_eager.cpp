// C02/C05: eager pipelines. params: sig1, ret1, sig2, ret2 (sig2 = 99: one step), sources (0: all, 1: three of them). Symbolic: source and its outcome, per step
// executor mode and callback outcome, payloads, from which submission on executor A refuses.
#include "pipe.h"
extern "C" void vf_main() {
  int s[2] = {(int)vf_param(0), (int)vf_param(2)}, r[2] = {(int)vf_param(1), (int)vf_param(3)};
  int n = s[1] == 99 ? 1 : 2;
  static const int few[] = {2, 4, 8};
  int src = vf_param(4) != 0 ? few[vf_choose(3)] : vf_choose(11);
  PExec A{0}, B{1};
  gA = &A;
  gB = &B;
  int bud = vf_choose(3);
  A.budget = bud == 0 ? ~0ull : bud == 1 ? 0 : 1;
  Ref m;
  m.budgetA = A.budget;
  m.budgetB = ~0ull;
  Beh sb{11, (int)vf_choose(5), (uint32_t)vf_nondet(32)};
  Beh b[2];
  int mode[2];
  for (int i = 0; i < n; ++i) {
    b[i] = {i, (int)vf_choose(5), (uint32_t)vf_nondet(32)};
    mode[i] = vf_choose(4);
    bool plain = r[i] == rVal || r[i] == rVoid || r[i] == rVoidT;
    if (plain)
      vf_assume(b[i].kind == 0 || b[i].kind == 3);
    if (r[i] == rRef)
      vf_assume(b[i].kind == 0);
  }
  vf_assume(n == 2 || bud != 2 || src == 4 || src == 9);
  Within all;
  {
    Steps(1);  // every source is one step
    Fut f;
    SFut sf;
    Promise<Val, Err> p;
    SharedPromise<Val, Err> sp;
    bool shared = false;
    m.now = OfBeh(sb);
    switch (src) {
      case 0:
        vf_assume(sb.kind != 3);
        f = MakeFuture<Val, Err>(MakeRes(sb));
        break;
      case 1:
      case 2: {
        vf_assume(sb.kind != 3);
        auto c = MakeContract<Val, Err>();
        f = std::move(c.first);
        p = std::move(c.second);
        if (src == 1)
          Fulfil(std::move(p), sb);
      } break;
      case 3:
        f = Run<Err>([sb] { return MakeRes(sb); });
        break;
      case 4:
        f = Run<Err>(A, [sb] { return MakeRes(sb); }).On(nullptr);
        m.cur = 0;
        if (!RefSubmit(m.budgetA, m.calledA, m.droppedA))
          m.now = {4, 0};
        break;
      case 5: {
        vf_assume(sb.kind != 3);
        auto c = MakeContractOn<Val, Err>(B);
        f = std::move(c.first).On(nullptr);
        p = std::move(c.second);
        m.cur = 1;
      } break;
      case 6:
        f = CoroFut(sb);
        break;
      case 7:
      case 8: {
        vf_assume(sb.kind != 3);
        shared = true;
        auto c = MakeSharedContract<Val, Err>();
        sf = std::move(c.first);
        sp = std::move(c.second);
        if (src == 7)
          Fulfil(std::move(sp), sb);
      } break;
      case 9:
        f = Schedule<Err>(A, [sb] { return MakeRes(sb); }).ToFuture();
        m.cur = 0;
        if (!RefSubmit(m.budgetA, m.calledA, m.droppedA))
          m.now = {4, 0};
        break;
      case 10:
        f = AsyncContract<Val, Err>(B, [&, sb](Promise<Val, Err>&& pr) {
              if (sb.kind == 3)
                throw Exc{sb.w};
              p = std::move(pr);
            }).On(nullptr);
        m.cur = 1;
        RefSubmit(m.budgetB, m.calledB, m.droppedB);
        break;
    }
    all.Check();
    if (shared)
      f = StepR<0, 0, Fut>(sf, s[0], r[0], mode[0], b[0]);
    else
      f = StepR<0, 0, Fut>(std::move(f), s[0], r[0], mode[0], b[0]);
    if (n == 2)
      f = StepR<0, 0, Fut>(std::move(f), s[1], r[1], mode[1], b[1]);
    if (p.Valid())
      Fulfil(std::move(p), sb);
    if (sp.Valid())
      Fulfil(std::move(sp), sb);
    Pump();
    for (int i = 0; i < n; ++i)
      RefStep(m, s[i], r[i], mode[i], b[i]);
    CHECK(f.Valid() && f.Ready(), "the pipeline did not complete although everything it waits for happened");
    auto got = std::move(f).Get();
    CHECK(SumOf(got) == m.now, "the final Result differs from the sequential reading");
    Compare(m, A, B);
  }
  all.Check();
  CHECK(vf_g_get(G_LIVE) == 0, "values or captures destroyed a wrong number of times");
  vf_reach("end");
}
