// C09/C10: WhenAll, Join, WhenAny. params: combinator, number of inputs, threads (0: completions in a symbolic order on one
// thread, some before the combinator is called; 1: every input is completed by a thread of its own while main combines).
// Oracle: every completion takes effect in an interval of time; which input is first/last is judged by interval order.
#include "vf_util.h"
#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/async/join.hpp>
#include <yaclib/async/promise.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/shared_future.hpp>
#include <yaclib/async/shared_promise.hpp>
#include <yaclib/async/when_all.hpp>
#include <yaclib/async/when_any.hpp>
#include <vector>
using namespace yaclib;
constexpr int N = 3;
static int gN;
struct In {
  int kind;  // 0 value, 1 error, 2 exception, 3 dropped
  uint32_t w;
  bool started = false, ended = false;
  unsigned after = 0;  // inputs whose effect certainly took place before this completion began
  Sum Out(bool isvoid) const {
    if (kind == 0)
      return {0, isvoid ? 0 : w};
    return kind == 1 ? Sum{2, w} : kind == 2 ? Sum{1, w} : Sum{4, 0};
  }
};
VF_GHOST static In gIn[N];
static bool gVoid[N];
VF_GHOST static bool gCombined;
VF_GHOST static unsigned gEnded;
static Promise<Val, Err> pv[N];
static Promise<void, Err> pu[N];
static SharedPromise<Val, Err> ps[N];
struct Val2 {
  Val v;
};
static Promise<Val2, Err> pw[N];
static Future<Val2, Err> fw[N];
static Future<Val, Err> fv[N];
static Future<void, Err> fu[N];
static SharedFuture<Val, Err> fs[N], keep[N];

struct Got {
  int calls = 0;
  Sum whole{3, 0};
  int n = -1;
  Sum each[N];
};
VF_GHOST static Got gGot;

template <typename P>
void Fulfil(P& p, const In& b, bool isvoid) {
  switch (b.kind) {
    case 0:
      if constexpr (std::is_same_v<P, Promise<void, Err>>)
        std::move(p).Set();
      else if constexpr (std::is_same_v<P, Promise<Val2, Err>>)
        std::move(p).Set(Val2{Val{b.w}});
      else
        std::move(p).Set(Val{b.w});
      break;
    case 1:
      std::move(p).Set(Err{b.w});
      break;
    case 2:
      std::move(p).Set(std::make_exception_ptr(Exc{b.w}));
      break;
    default: {
      P d = std::move(p);
    } break;
  }
}
static void Complete(int i) {
  gIn[i].after = gCombined ? gEnded : 0;
  gIn[i].started = true;
  if (pv[i].Valid())
    Fulfil(pv[i], gIn[i], false);
  else if (pu[i].Valid())
    Fulfil(pu[i], gIn[i], true);
  else if (pw[i].Valid())
    Fulfil(pw[i], gIn[i], false);
  else
    Fulfil(ps[i], gIn[i], false);
  gIn[i].ended = true;
  gEnded |= 1u << i;
}
static Sum Ok(const Val& v) {
  return {v.life == Val::kAlive && v.b == ~v.a ? 0 : 9, v.a};
}
static Sum Ok(const Val2& v) {
  return Ok(v.v);
}
static Sum Ok(const Unit&) {
  return {0, 0};
}
template <typename T>
Sum Ok(const Result<T, Err>& r) {
  return SumOf(r);
}
template <typename R>
void Record(const R& r) {
  auto& g = gGot;
  ++g.calls;
  if (r.State() == ResultState::Exception) {
    g.whole = {1, ExcCode(r.Exception())};
  } else if (r.State() == ResultState::Error) {
    g.whole = {r.Error().stop ? 4 : 2, r.Error().code};
  } else if (r.State() == ResultState::Empty) {
    g.whole = {3, 0};
  } else {
    g.whole = {0, 0};
    using T = std::decay_t<decltype(r.Value())>;
    if constexpr (std::is_same_v<T, Val> || std::is_same_v<T, Val2> || std::is_same_v<T, Unit>) {
      g.whole = Ok(r.Value());
    } else if constexpr (requires { r.Value().size(); }) {
      g.n = r.Value().size();
      for (int i = 0; i < g.n && i < N; ++i)
        g.each[i] = Ok(r.Value()[i]);
    } else if constexpr (requires { std::tuple_size<T>::value; }) {
      g.n = std::tuple_size_v<T>;
      int i = 0;
      std::apply([&](const auto&... x) { (..., (g.each[i++] = Ok(x))); }, r.Value());
    } else {
      g.whole = std::visit([](const auto& x) { return Ok(x); }, r.Value());
    }
  }
}
// ---- oracle
// an input completed before or during the combinator call takes effect at some moment up to the end of that call
static bool Before(int a, int b) {
  return (gIn[b].after >> a) & 1;
}
template <typename Pred>
bool FirstOf(int w, Pred in) {
  bool ok = in(w) && gIn[w].started;
  for (int j = 0; j < gN; ++j)
    if (j != w && in(j) && Before(j, w))
      ok = false;
  return ok;
}
static bool LastOf(int w) {
  bool ok = true;
  for (int j = 0; j < gN; ++j)
    if (j != w && Before(w, j))
      ok = false;
  return ok;
}
enum { PAll, PAny };
static int gPol;   // 0 None, 1 FirstFail, 2 LastFail
static int gForm;  // 0 all, 1 join, 2 any
static bool Expect() {  // must the output be complete now?
  int fin = 0, fail = 0, val = 0;
  for (int i = 0; i < gN; ++i)
    if (gIn[i].ended) {
      ++fin;
      if (gIn[i].kind == 0)
        ++val;
      else
        ++fail;
    }
  if (gForm != 2)
    return fin == gN || (gPol == 1 && fail != 0);
  if (gPol == 0)
    return fin != 0;
  return val != 0 || fin == gN;
}
static void CheckGot() {
  const auto& g = gGot;
  bool anyFail = false, anyVal = false;
  for (int i = 0; i < gN; ++i)
    (gIn[i].kind == 0 ? anyVal : anyFail) = true;
  if (gForm != 2 && !(gPol == 1 && anyFail)) {
    CHECK(g.whole == (Sum{0, 0}), "the combinator failed although its policy says it succeeds");
    for (int i = 0; i < gN; ++i)
      CHECK(gIn[i].started, "the combinator completed before its last input");
    if (gForm == 0) {
      if (g.n >= 0) {
        CHECK(g.n == gN, "wrong number of outputs");
        for (int i = 0; i < gN; ++i)
          CHECK(g.each[i] == gIn[i].Out(gVoid[i]), "an input's outcome is missing or at the wrong index");
      } else {
        CHECK(gPol == 1, "outputs missing");
      }
    }
    return;
  }
  bool ok = false;
  auto fails = [](int i) { return gIn[i].kind != 0; };
  auto vals = [](int i) { return gIn[i].kind == 0; };
  auto all = [](int) { return true; };
  for (int w = 0; w < gN; ++w) {
    bool cand;
    if (gForm != 2)
      cand = FirstOf(w, fails);
    else if (gPol == 0)
      cand = FirstOf(w, all);
    else if (anyVal)
      cand = FirstOf(w, vals);
    else if (gPol == 1)
      cand = FirstOf(w, fails);
    else
      cand = LastOf(w);
    if (cand && g.whole == gIn[w].Out(gVoid[w]))
      ok = true;
  }
  CHECK(ok, "the combinator completed with an outcome that is not the winner's");
  if (gForm == 2 && gPol != 0 && !anyVal)
    for (int i = 0; i < gN; ++i)
      CHECK(gIn[i].started, "WhenAny failed before every input completed");
}
// ---- inputs
static void MakeV(int i) {
  auto c = MakeContract<Val, Err>();
  fv[i] = std::move(c.first);
  pv[i] = std::move(c.second);
}
static void MakeU(int i) {
  auto c = MakeContract<void, Err>();
  fu[i] = std::move(c.first);
  pu[i] = std::move(c.second);
  gVoid[i] = true;
}
static void MakeW(int i) {
  auto c = MakeContract<Val2, Err>();
  fw[i] = std::move(c.first);
  pw[i] = std::move(c.second);
}
static void MakeS(int i) {
  auto c = MakeSharedContract<Val, Err>();
  fs[i] = std::move(c.first);
  ps[i] = std::move(c.second);
}
template <typename F>
void Consume(F&& f, bool threads) {
  CHECK(f.Valid(), "combinator over a non-empty input set gave an invalid future");
  bool early = gGot.calls == 0 && !threads && vf_choose(2) == 1;
  if (early) {  // keep the future and look at Ready()
    static std::decay_t<F> held;
    held = std::move(f);
    static auto poll = [] {
      if (held.Valid() && held.Ready()) {
        auto r = std::move(held).Get();
        Record(r);
      }
    };
    extern void (*gPoll)();
    gPoll = +[] { poll(); };
    gPoll();
  } else {
    std::move(f).DetachInline([](auto&& r) { Record(r); });
  }
}
void (*gPoll)() = nullptr;
template <FailPolicy P>
void Combine(int form, bool th) {
  constexpr bool kAll = P != FailPolicy::LastFail;
  switch (form) {
    case 0:
      if constexpr (kAll)
        return Consume(WhenAll<P>(fv, gN), th);
      break;
    case 1:
      if constexpr (kAll)
        return gN == 2 ? Consume(WhenAll<P>(std::move(fv[0]), std::move(fv[1])), th)
                       : Consume(WhenAll<P>(std::move(fv[0]), std::move(fv[1]), std::move(fv[2])), th);
      break;
    case 2:  // tuple
      if constexpr (kAll)
        return gN == 2 ? Consume(WhenAll<P>(std::move(fv[0]), std::move(fu[1])), th)
                       : Consume(WhenAll<P>(std::move(fv[0]), std::move(fu[1]), std::move(fs[2])), th);
      break;
    case 3:
      if constexpr (kAll)
        return Consume(WhenAll<P>(fs, gN), th);
      break;
    case 4:
      if constexpr (kAll)
        return gN == 2 ? Consume(WhenAll<P>(std::move(fv[0]), std::move(fs[1])), th)
                       : Consume(WhenAll<P>(std::move(fv[0]), std::move(fs[1]), std::move(fs[2])), th);
      break;
    case 5:
      if constexpr (kAll)
        return Consume(WhenAll<P>(fu, gN), th);
      break;
    case 6:
      if constexpr (kAll)
        return gN == 2 ? Consume(WhenAll<P>(std::move(fu[0]), std::move(fu[1])), th)
                       : Consume(WhenAll<P>(std::move(fu[0]), std::move(fu[1]), std::move(fu[2])), th);
      break;
    case 10:
      if constexpr (kAll)
        return Consume(Join<P>(fv, gN), th);
      break;
    case 11:
      if constexpr (kAll)
        return gN == 2 ? Consume(Join<P>(std::move(fv[0]), std::move(fu[1])), th)
                       : Consume(Join<P>(std::move(fv[0]), std::move(fu[1]), std::move(fs[2])), th);
      break;
    case 12:
      if constexpr (kAll)
        return Consume(Join<P>(fs, gN), th);
      break;
    case 20:
      return Consume(WhenAny<P>(fv, gN), th);
    case 21:
      return gN == 2 ? Consume(WhenAny<P>(std::move(fv[0]), std::move(fv[1])), th)
                     : Consume(WhenAny<P>(std::move(fv[0]), std::move(fv[1]), std::move(fv[2])), th);
    case 22:
      return Consume(WhenAny<P>(fs, gN), th);
    case 23:
      return gN == 2 ? Consume(WhenAny<P>(std::move(fv[0]), std::move(fs[1])), th)
                     : Consume(WhenAny<P>(std::move(fv[0]), std::move(fs[1]), std::move(fs[2])), th);
    case 24:
      return gN == 2 ? Consume(WhenAny<P>(std::move(fv[0]), std::move(fw[1])), th)
                     : Consume(WhenAny<P>(std::move(fv[0]), std::move(fw[1]), std::move(fs[2])), th);
    case 25:
      return Consume(WhenAny<P>(fu, gN), th);
  }
  vf_assume(false);
}
extern "C" void vf_main() {
  int form = vf_param(0);
  gPol = vf_param(1);
  gN = vf_param(2);
  bool th = vf_param(3) != 0;
  bool sharing = vf_param(4) != 0;
  gForm = form < 10 ? 0 : form < 20 ? 1 : 2;
  if (gN == 0) {
    vf_assume(form == 0 || form == 5 || form == 10 || form == 20 || form == 3);
    if (form == 0)
      CHECK(!WhenAll(fv, 0).Valid(), "WhenAll of nothing is valid");
    else if (form == 5)
      CHECK(!WhenAll(fu, 0).Valid(), "WhenAll of nothing is valid");
    else if (form == 3)
      CHECK(!WhenAll<FailPolicy::None>(fs, 0).Valid(), "WhenAll of nothing is valid");
    else if (form == 10)
      CHECK(!Join(fv, 0).Valid(), "Join of nothing is valid");
    else
      CHECK(!WhenAny(fv, 0).Valid(), "WhenAny of nothing is valid");
    vf_reach("end");
    return;
  }
  for (int i = 0; i < gN; ++i) {
    gIn[i].kind = vf_choose(4);
    gIn[i].w = (static_cast<uint32_t>(vf_nondet(32)) << 2) | i;
    bool iter = form == 0 || form == 10 || form == 20 || form == 1 || form == 21;
    bool shared = form == 3 || form == 12 || form == 22;
    bool voids = form == 5 || form == 6 || form == 25;
    bool mixS = form == 4 || form == 23;
    if (iter)
      MakeV(i);
    else if (voids)
      MakeU(i);
    else if (shared)
      MakeS(i);
    else if (mixS)
      i == 0 ? MakeV(i) : MakeS(i);
    else
      i == 0 ? MakeV(i) : i == 2 ? MakeS(i) : form == 24 ? MakeW(i) : MakeU(i);
    if (fs[i].Valid() && sharing)
      keep[i] = fs[i];
  }
  auto combine = [&] {
    if (gPol == 0)
      Combine<FailPolicy::None>(form, th);
    else if (gPol == 1)
      Combine<FailPolicy::FirstFail>(form, th);
    else
      Combine<FailPolicy::LastFail>(form, th);
    gCombined = true;
  };
  if (!th) {
    bool done[N] = {};
    int pre = vf_choose(gN + 1);
    for (int s = 0; s <= gN; ++s) {
      if (s == pre)
        combine();
      if (s == gN)
        break;
      int i = vf_choose(gN);
      vf_assume(!done[i]);
      done[i] = true;
      if (s >= pre)
        CHECK((gGot.calls != 0) == Expect(), "the output is complete at the wrong moment");
      Complete(i);
      if (gPoll)
        gPoll();
      if (s >= pre) {
        CHECK(gGot.calls == (Expect() ? 1 : 0), "the output is complete at the wrong moment");
      }
    }
    CHECK(gGot.calls == 1, "the combinator did not complete exactly once");
  } else {
    auto t0 = [] { Complete(0); };
    auto t1 = [] { Complete(1); };
    auto t2 = [] { Complete(2); };
    int a = Spawn(t0), b = Spawn(t1), c = gN == 3 ? Spawn(t2) : -1;
    combine();
    vf_join(a);
    vf_join(b);
    if (c >= 0)
      vf_join(c);
    CHECK(gGot.calls == 1, "the combinator did not complete exactly once");
  }
  CheckGot();
  for (int i = 0; i < gN; ++i)
    if (keep[i].Valid()) {
      CHECK(keep[i].Ready(), "a shared input is not Ready after it completed");
      CHECK(SumOf(keep[i].Touch()) == gIn[i].Out(false), "a shared input was damaged by the combinator");
      keep[i] = {};
    }
  CHECK(vf_g_get(G_LIVE) == 0, "values destroyed a wrong number of times");
  vf_reach("end");
}
