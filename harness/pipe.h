// Pipelines built from runtime-chosen steps, together with the sequential reading they must agree with.
// Used by C02 (values and routing), C05 (where steps run), C12 (lazy form), C03 (release), C20 (allocations).
#pragma once
#include "vf_util.h"
#include <yaclib/async/connect.hpp>
#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/async/make.hpp>
#include <yaclib/async/promise.hpp>
#include <yaclib/async/run.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/shared_future.hpp>
#include <yaclib/async/shared_promise.hpp>
#include <yaclib/coro/await.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/shared_future.hpp>
#include <yaclib/coro/task.hpp>
#include <yaclib/lazy/make.hpp>
#include <yaclib/lazy/schedule.hpp>
#include <yaclib/lazy/task.hpp>
using namespace yaclib;
using Res = Result<Val, Err>;
using Fut = Future<Val, Err>;
using SFut = SharedFuture<Val, Err>;
using Tsk = Task<Val, Err>;

// ---- instrumented executors
inline int gCurExec = -1;  // innermost executor running something: -1 none
struct PExec final : IExecutor {
  int id;
  uint64_t budget = ~0ull;  // submissions accepted before it refuses
  uint64_t called = 0, dropped = 0;
  explicit PExec(int i) : id{i} {
  }
  Type Tag() const noexcept final {
    return Type::Custom;
  }
  bool Alive() const noexcept final {
    return budget != 0;
  }
  void Submit(Job& j) noexcept final {
    if (budget == 0) {
      ++dropped;
      j.Drop();
      return;
    }
    if (budget != ~0ull)
      --budget;
    ++called;
    int saved = gCurExec;
    gCurExec = id;
    j.Call();
    gCurExec = saved;
  }
};

// ---- what one callback does
struct Beh {
  int i;         // step
  int kind;      // 0 value, 1 error, 2 exception, 3 throw, 4 stop
  uint32_t w;    // payload
};
struct Rec {
  int calls = 0;
  Sum seen{3, 0};
  int exec = -1;
};
inline Rec gRec[12];
inline bool gStarted = false;
inline bool gMustStart = false;  // lazy pipelines: nothing may run before gStarted
inline Promise<Val, Err> gPP[12];
inline SharedPromise<Val, Err> gSP[12];
inline Beh gPB[12];
inline PExec* gA;
inline PExec* gB;

// C20: heap allocations against the number of pipeline steps the client built
#ifdef ALLOCS
inline uint64_t gSteps = 0;
inline void Steps(uint64_t n) {
  gSteps += n;
}
struct Within {
  uint64_t a = vf_alloc_count(), s = gSteps;
  void Check() const {
    CHECK(vf_alloc_count() - a <= gSteps - s, "more heap allocations than pipeline steps");
  }
};
#else
inline void Steps(uint64_t) {
}
struct Within {
  void Check() const {
  }
};
#endif
inline void Enter(int i, Sum in) {
  CHECK(!gMustStart || gStarted, "a step of a Task ran before the Task was started");
  auto& r = gRec[i];
  ++r.calls;
  r.seen = in;
  r.exec = gCurExec;
}
inline Res MakeRes(const Beh& b) {
  switch (b.kind) {
    case 0:
      return Res{Val{b.w}};
    case 1:
      return Res{Err{b.w}};
    case 2:
      return Res{std::make_exception_ptr(Exc{b.w})};
    case 4:
      return Res{StopTag{}};
    default:
      throw Exc{b.w};
  }
}
template <typename P>
void Fulfil(P&& p, const Beh& b) {
  switch (b.kind) {
    case 0:
      std::move(p).Set(Val{b.w});
      break;
    case 1:
      std::move(p).Set(Err{b.w});
      break;
    case 2:
      std::move(p).Set(std::make_exception_ptr(Exc{b.w}));
      break;
    default: {
      auto dropped = std::move(p);
    } break;
  }
}
inline Tsk CoroTask(Beh b) {
  co_return MakeRes(b);
}
inline Fut CoroFut(Beh b) {
  co_return MakeRes(b);
}
inline SFut CoroShared(Beh b) {
  co_return MakeRes(b);
}
inline Tsk CoroAwait(Beh b, Fut f) {
  co_await Await(f);
  co_return std::move(f).Touch();
}

enum Ret : int {
  rVal, rRes, rVoid, rRef, rVoidT,
  rFut, rFutPend, rSFut, rSFutPend, rAsync, rCoFut, rRunA, rFutChain, rCoShared,
  rTMake, rTSched, rTSchedThen, rTLazy, rTCoro, rTMakeThen, rTLazyPend, rTSchedA, rTCoAwait, rTSchedFut, rTLazyA,
  rCount
};
enum Sig : int { sRRef, sCRef, sByVal, sRes, sCRes, sResVal, sErr, sExc, sAuto, sFree, sCount };

template <int R>
auto Out(const Beh& b, Val* in) {
  if constexpr (R == rVal) {
    if (b.kind != 0)
      throw Exc{b.w};
    return Val{b.w};
  } else if constexpr (R == rRes) {
    return MakeRes(b);
  } else if constexpr (R == rVoid || R == rVoidT) {
    if (b.kind != 0)
      throw Exc{b.w};
  } else if constexpr (R == rFut) {
    Steps(1);
    return MakeFuture<Val, Err>(MakeRes(b));
  } else if constexpr (R == rFutPend || R == rFutChain || R == rTCoAwait) {
    if (b.kind == 3)
      throw Exc{b.w};
    Steps(R == rFutPend ? 1 : 2);
    auto [f, p] = MakeContract<Val, Err>();
    gPP[b.i] = std::move(p);
    gPB[b.i] = b;
    if constexpr (R == rFutChain)
      return std::move(f).ThenInline([](Res&& r) { return std::move(r); });
    else if constexpr (R == rTCoAwait)
      return CoroAwait(b, std::move(f));
    else
      return std::move(f);
  } else if constexpr (R == rSFut || R == rSFutPend) {
    if (b.kind == 3)
      throw Exc{b.w};
    Steps(1);
    auto [f, p] = MakeSharedContract<Val, Err>();
    if constexpr (R == rSFut) {
      Fulfil(std::move(p), b);
    } else {
      gSP[b.i] = std::move(p);
      gPB[b.i] = b;
    }
    return std::move(f);
  } else if constexpr (R == rAsync) {
    Steps(1);
    return AsyncContract<Val, Err>([b](Promise<Val, Err>&& p) {
      if (b.kind == 3)
        throw Exc{b.w};
      Fulfil(std::move(p), b);
    });
  } else if constexpr (R == rCoFut) {
    Steps(1);
    return CoroFut(b);
  } else if constexpr (R == rCoShared) {
    Steps(1);
    return CoroShared(b);
  } else if constexpr (R == rRunA) {
    Steps(1);
    return Run<Err>(*gA, [b] { return MakeRes(b); });
  } else if constexpr (R == rTMake) {
    Steps(1);
    return MakeTask<Val, Err>(MakeRes(b));
  } else if constexpr (R == rTSched) {
    Steps(1);
    return Schedule<Err>([b] { return MakeRes(b); });
  } else if constexpr (R == rTSchedA) {
    Steps(1);
    return Schedule<Err>(*gA, [b] { return MakeRes(b); });
  } else if constexpr (R == rTSchedThen) {
    Steps(2);
    return Schedule<Err>([b] { return MakeRes(b); }).ThenInline([](Res&& r) { return std::move(r); });
  } else if constexpr (R == rTSchedFut) {
    Steps(1);
    return Schedule<Err>([b] {
      Steps(1);
      return MakeFuture<Val, Err>(MakeRes(b));
    });
  } else if constexpr (R == rTLazy || R == rTLazyA) {
    Steps(1);
    auto f = [b](Promise<Val, Err>&& p) {
      if (b.kind == 3)
        throw Exc{b.w};
      Fulfil(std::move(p), b);
    };
    if constexpr (R == rTLazyA)
      return LazyContract<Val, Err>(*gA, f);
    else
      return LazyContract<Val, Err>(f);
  } else if constexpr (R == rTLazyPend) {
    Steps(1);
    return LazyContract<Val, Err>([b](Promise<Val, Err>&& p) {
      if (b.kind == 3)
        throw Exc{b.w};
      gPP[b.i] = std::move(p);
      gPB[b.i] = b;
    });
  } else if constexpr (R == rTCoro) {
    Steps(1);
    return CoroTask(b);
  } else {
    static_assert(R == rTMakeThen);
    Steps(2);
    return MakeTask<Val, Err>(MakeRes(b)).ThenInline([](Res&& r) { return std::move(r); });
  }
}
// what `Out` yields, in the sequential reading; may submit to A
inline bool RefSubmit(uint64_t& budget, uint64_t& called, uint64_t& dropped) {
  if (budget == 0) {
    ++dropped;
    return false;
  }
  if (budget != ~0ull)
    --budget;
  ++called;
  return true;
}
struct Ref {
  uint64_t budgetA, budgetB, calledA = 0, droppedA = 0, calledB = 0, droppedB = 0;
  int cur = -1;  // inherited executor
  Rec rec[12];
  Sum now{3, 0};
};
inline Sum OfBeh(const Beh& b) {
  switch (b.kind) {
    case 0:
      return {0, b.w};
    case 1:
      return {2, b.w};
    case 4:
      return {4, 0};
    default:
      return {1, b.w};
  }
}
inline Sum RefOut(Ref& m, int ret, const Beh& b, Sum in) {
  if (ret == rVal || ret == rVoid || ret == rVoidT)
    return b.kind == 0 ? Sum{0, b.w} : Sum{1, b.w};
  if (ret == rRef)
    return in;
  if (ret == rRunA || ret == rTSchedA || ret == rTLazyA) {
    if (!RefSubmit(m.budgetA, m.calledA, m.droppedA))
      return {4, 0};
  }
  return OfBeh(b);
}

// ---- callbacks by signature
template <int S, int R>
struct Cb;
#define VF_CB(SIG, PARAM, SUM, PTR)             \
  template <int R>                              \
  struct Cb<SIG, R> {                           \
    Beh b;                                      \
    Val cap{7};                                 \
    auto operator()(PARAM) {                    \
      CHECK(cap.Is(7), "functor used after it was destroyed or moved"); \
      Enter(b.i, SUM);                          \
      return Out<R>(b, PTR);                    \
    }                                           \
  };
inline Sum SumV(const Val& v) {
  return {v.life == Val::kAlive && v.b == ~v.a ? 0 : 9, v.a};
}
inline Sum SumE(const Err& e) {
  return {e.stop ? 4 : 2, e.code};
}
VF_CB(sRRef, Val&& x, SumV(x), &x)
VF_CB(sCRef, const Val& x, SumV(x), nullptr)
VF_CB(sByVal, Val x, SumV(x), nullptr)
VF_CB(sRes, Res&& x, SumOf(x), nullptr)
VF_CB(sCRes, const Res& x, SumOf(x), nullptr)
VF_CB(sResVal, Res x, SumOf(x), nullptr)
VF_CB(sErr, Err x, SumE(x), nullptr)
VF_CB(sExc, std::exception_ptr x, (Sum{1, ExcCode(x)}), nullptr)
VF_CB(sAuto, auto&& x, SumOf(x), nullptr)
template <typename T>
inline constexpr bool kIsTask = is_task_v<T>;
template <typename T>
inline constexpr bool kIsShared = is_shared_future_base_v<T>;

template <typename F, typename C>
auto Attach(F&& f, int mode, C&& cb);
template <typename F, typename C>
auto AttachTo(F&& f, int mode, C&& cb) {
  using D = std::decay_t<F>;
  if constexpr (kIsTask<D>) {
    switch (mode) {
      case 0:
        return std::move(f).ThenInline(std::forward<C>(cb));
      case 1:
        return std::move(f).Then(*gA, std::forward<C>(cb));
      case 2:
        return std::move(f).Then(*gB, std::forward<C>(cb));
      default:
        return std::move(f).Then(std::forward<C>(cb));
    }
  } else if constexpr (kIsShared<D>) {
    switch (mode) {
      case 0:
        return f.ThenInline(std::forward<C>(cb));
      case 1:
        return f.Then(*gA, std::forward<C>(cb)).On(nullptr);
      case 2:
        return f.Then(*gB, std::forward<C>(cb)).On(nullptr);
      default:
        return SharedFutureOn<Val, Err>{f.GetCore()}.Then(std::forward<C>(cb)).On(nullptr);
    }
  } else {
    switch (mode) {
      case 0:
        return std::move(f).ThenInline(std::forward<C>(cb));
      case 1:
        return std::move(f).Then(*gA, std::forward<C>(cb)).On(nullptr);
      case 2:
        return std::move(f).Then(*gB, std::forward<C>(cb)).On(nullptr);
      default: {
        using V = typename std::decay_t<decltype(f.GetCore())>::Value::Value;
        using E = typename std::decay_t<decltype(f.GetCore())>::Value::Error;
        return FutureOn<V, E>{std::move(f.GetCore())}.Then(std::forward<C>(cb)).On(nullptr);
      }
    }
  }
}

template <typename F, typename C>
auto Attach(F&& f, int mode, C&& cb) {
  Within w;
  Steps(1);
  auto g = AttachTo(std::forward<F>(f), mode, std::forward<C>(cb));
  w.Check();
  return g;
}

// the step as a client writes it
template <int S, int R, typename F>
auto Step(F&& f, int mode, Beh b) {
  if constexpr (R == rVoid) {
    auto v = Attach(std::forward<F>(f), mode, Cb<S, R>{b});
    Steps(1);
    return std::move(v).ThenInline([b] {
      Enter(b.i + 4, {0, 0});
      return Val{b.w};
    });
  } else if constexpr (R == rVoidT) {
    auto v = Attach(std::forward<F>(f), mode, Cb<S, R>{b});
    Steps(1);
    return std::move(v).ThenInline([b](Result<void, Err>&& r) -> Res {
      Enter(b.i + 4, SumOf(r));
      if (r)
        return Res{Val{b.w}};
      if (r.State() == ResultState::Error)
        return Res{std::move(r).Error()};
      return Res{std::move(r).Exception()};
    });
  } else {
    return Attach(std::forward<F>(f), mode, Cb<S, R>{b});
  }
}
// the step in the sequential reading
inline void RefStep(Ref& m, int sig, int ret, int mode, const Beh& b) {
  Sum in = m.now;
  bool accepted = true;
  if (mode == 1)
    m.cur = 0;
  if (mode == 2)
    m.cur = 1;
  if (mode != 0) {
    if (m.cur == 0)
      accepted = RefSubmit(m.budgetA, m.calledA, m.droppedA);
    else if (m.cur == 1)
      accepted = RefSubmit(m.budgetB, m.calledB, m.droppedB);
    else if (m.cur == -3)  // a cancelled chain: the stopped inline executor is inherited
      accepted = false;
  }
  if (!accepted)
    in = {4, 0};
  bool value = sig == sRRef || sig == sCRef || sig == sByVal;
  bool run = value ? in.kind == 0 : sig == sErr ? (in.kind == 2 || in.kind == 4) : sig == sExc ? in.kind == 1 : true;
  Sum out = in;
  if (run) {
    auto& r = m.rec[b.i];
    ++r.calls;
    r.seen = in;
    r.exec = accepted && mode != 0 ? m.cur : -2;  // -2: not specified here
    out = RefOut(m, ret, b, in);
  }
  if (ret == rVoid || ret == rVoidT) {
    auto& r = m.rec[b.i + 4];
    r.exec = -2;
    if (ret == rVoid) {
      if (out.kind == 0) {
        r.calls = 1;
        r.seen = {0, 0};
        out = {0, b.w};
      }
    } else {
      r.calls = 1;
      r.seen = out.kind == 0 ? Sum{0, 0} : out;
      if (out.kind == 0)
        out = {0, b.w};
    }
  }
  m.now = out;
}
inline void Pump() {
  for (bool again = true; again;) {
    again = false;
    for (int i = 0; i < 12; ++i) {
      if (gPP[i].Valid()) {
        auto p = std::move(gPP[i]);
        Fulfil(std::move(p), gPB[i]);
        again = true;
      }
      if (gSP[i].Valid()) {
        auto p = std::move(gSP[i]);
        Fulfil(std::move(p), gPB[i]);
        again = true;
      }
    }
  }
}
inline void Compare(const Ref& m, const PExec& A, const PExec& B) {
  for (int i = 0; i < 12; ++i) {
    CHECK(gRec[i].calls == m.rec[i].calls, "a callback ran a different number of times than the sequential reading says");
    if (m.rec[i].calls != 0) {
      CHECK(gRec[i].seen == m.rec[i].seen, "a callback received a different input than the sequential reading says");
      if (m.rec[i].exec != -2 && m.rec[i].exec != -1)
        CHECK(gRec[i].exec == m.rec[i].exec, "a step ran outside of the executor it was given");
    }
  }
  CHECK(A.called == m.calledA && B.called == m.calledB, "a step was submitted a wrong number of times to an executor");
  CHECK(A.dropped == m.droppedA && B.dropped == m.droppedB, "a job was dropped a wrong number of times by an executor");
}
template <int R>
inline constexpr bool Grp() {
#ifndef GRP
  return false;
#elif GRP == 5
  return R == rVal || R == rRes || R == rFut || R == rFutPend || R == rRunA || R == rTSchedA || R == rTCoro || R == rSFutPend;
#else
  return R == rVal || R == rRes || (GRP == 0 && R < rFut) || (GRP == 1 && R >= rFut && R < rTMake) || (GRP == 2 && R >= rTMake && R < rTCoro) ||
         (GRP == 3 && R >= rTCoro);
#endif
}
template <int S, int R, typename F>
inline constexpr bool Ok() {
  if (!Grp<R>())
    return false;
  if (R == rRef)
    return false;
  if (kIsShared<F> && (S == sRRef || S == sRes))
    return false;
#if defined(GRP) && GRP == 5
  if (!(R == rVal ? S == sByVal || S == sRRef : R == rRes ? S == sErr || S == sRes || S == sResVal : S == sResVal || S == sRes))
    return false;
  return true;
#endif
  if ((R == rVoid || R == rVoidT) && (S == sErr || S == sExc))
    return false;
  if (R >= rFut && (S == sCRes || S == sByVal || S == sAuto))
    return false;
  if (S >= sFree)
    return false;
  return true;
}
template <int S, int R, typename To, typename F>
To StepR(F&& f, int s, int r, int mode, const Beh& b) {
  if constexpr (S == sCount) {
    vf_assume(false);
    __builtin_unreachable();
  } else if constexpr (R == rCount) {
    return StepR<S + 1, 0, To>(std::forward<F>(f), s, r, mode, b);
  } else {
    if constexpr (Ok<S, R, std::decay_t<F>>()) {
      if (s == S && r == R)
        return Step<S, R>(std::forward<F>(f), mode, b);
    }
    return StepR<S, R + 1, To>(std::forward<F>(f), s, r, mode, b);
  }
}
