// C01: one producer thread and one consumer thread on one Future/Promise pair.
// params: consumer kind, producer kind
#include "vf_util.h"
#include <yaclib/async/connect.hpp>
#include <yaclib/async/contract.hpp>
#include <yaclib/async/future.hpp>
#include <yaclib/async/promise.hpp>
#include <yaclib/async/wait.hpp>
using namespace yaclib;
using F = Future<Val, Err>;
using P = Promise<Val, Err>;

static Sum gExpect;
static uint32_t gV;
static bool gSet;        // the producer has entered its fulfilling call
static int gCalls;
static int gTouched;

static void Check(const Result<Val, Err>& r) {
  CHECK(gSet, "completion observed before the promise was fulfilled");
  CHECK(SumOf(r) == gExpect, "observed Result differs from the one the producer set");
}

extern "C" void vf_main() {
  unsigned ck = vf_param(0), pk = vf_param(1);
  gV = static_cast<uint32_t>(vf_nondet(32));
  gExpect = pk == 0 ? Sum{0, gV} : pk == 1 ? Sum{2, gV} : pk == 2 ? Sum{1, gV} : Sum{4, 0};
  {
    InExec ex{0};
    auto [f, p] = MakeContract<Val, Err>();
    F out;
    // for Connect: a second pair observed after the fact
    F cf;
    P cp;
    if (ck == 8) {
      auto c = MakeContract<Val, Err>();
      cf = std::move(c.first);
      cp = std::move(c.second);
    }
    auto prod = [&, p = std::move(p)]() mutable {
      gSet = true;
      switch (pk) {
        case 0:
          std::move(p).Set(Val{gV});
          break;
        case 1:
          std::move(p).Set(Err{gV});
          break;
        case 2:
          std::move(p).Set(std::make_exception_ptr(Exc{gV}));
          break;
        default: {
          P dropped{std::move(p)};
        } break;
      }
      CHECK(!p.Valid(), "promise still valid after it was fulfilled");
    };
    auto cons = [&, f = std::move(f)]() mutable {
      auto cb = [](Result<Val, Err>&& r) {
        ++gCalls;
        Check(r);
      };
      switch (ck) {
        case 0:  // ThenInline
          out = std::move(f).ThenInline([](Result<Val, Err>&& r) {
            ++gCalls;
            Check(r);
            return std::move(r);
          });
          break;
        case 1:  // Then(e)
          out = std::move(f)
                  .Then(ex,
                        [](Result<Val, Err>&& r) {
                          ++gCalls;
                          Check(r);
                          return std::move(r);
                        })
                  .On(nullptr);
          break;
        case 2: {  // Detach (drop result)
          std::move(f).Detach();
        } break;
        case 3:
          std::move(f).DetachInline(cb);
          break;
        case 4:
          std::move(f).Detach(ex, cb);
          break;
        case 5: {  // Get&&
          auto r = std::move(f).Get();
          ++gCalls;
          Check(r);
          CHECK(!f.Valid(), "future valid after Get&&");
        } break;
        case 6: {  // Ready()/Get const& polled, then consumed
          for (int i = 0; i < 2; ++i) {
            bool ready = f.Ready();
            const auto* r = std::as_const(f).Get();
            CHECK(!ready || r != nullptr, "Ready() was true but Get() const& gave nothing");
            if (r != nullptr) {
              vf_reach("polled-ready");
              Check(*r);
              CHECK(f.Ready(), "Ready() false after the Result was read");
              const auto& t = std::as_const(f).Touch();
              Check(t);
            } else {
              vf_reach("polled-not-ready");
            }
          }
          auto r = std::move(f).Get();
          ++gCalls;
          Check(r);
        } break;
        case 7: {  // Wait
          Wait(f);
          CHECK(f.Valid() && f.Ready(), "Wait returned although the future is not Ready");
          Check(std::as_const(f).Touch());
          ++gCalls;
          auto r = std::move(f).Touch();
          Check(r);
        } break;
        case 8: {  // Connect
          Connect(std::move(f), std::move(cp));
          CHECK(!f.Valid() && !cp.Valid(), "Connect left its arguments valid");
        } break;
        case 9: {  // drop
          F dropped{std::move(f)};
        } break;
        case 10: {  // value callback only
          out = std::move(f).ThenInline([](Val&& v) {
            ++gCalls;
            CHECK(gSet && v.Is(gV), "value callback saw a wrong value");
            return std::move(v);
          });
        } break;
        case 11: {  // two steps, second on an executor inherited
          out = std::move(f)
                  .Then(ex,
                        [](Result<Val, Err>&& r) {
                          ++gCalls;
                          Check(r);
                          return std::move(r);
                        })
                  .Then([](Result<Val, Err>&& r) {
                    ++gCalls;
                    Check(r);
                    return std::move(r);
                  })
                  .On(nullptr);
        } break;
        case 12: {  // Wait, then attach
          Wait(f);
          CHECK(f.Ready(), "Wait returned although the future is not Ready");
          std::move(f).DetachInline(cb);
        } break;
        case 13: {  // move the future around, then attach
          F g{std::move(f)};
          CHECK(!f.Valid() && g.Valid(), "move of a future");
          f = std::move(g);
          out = std::move(f).ThenInline([](Result<Val, Err>&& r) {
            ++gCalls;
            Check(r);
            return std::move(r);
          });
        } break;
      }
      if (ck != 0 && ck != 1 && ck != 10 && ck != 11 && ck != 13)
        vf_reach("consumer-end");
    };
    int a = Spawn(prod), b = Spawn(cons);
    vf_join(a);
    vf_join(b);
    int want = ck == 2 || ck == 9 || ck == 8 ? 0 : ck == 11 ? 2 : 1;
    if (ck == 10 && pk != 0)
      want = 0;
    CHECK(gCalls == want, "continuation not invoked exactly once");
    if (ck == 1 || ck == 4)
      CHECK(ex.Called() == 1 && ex.Dropped() == 0, "step not submitted exactly once to its executor");
    if (ck == 11)
      CHECK(ex.Called() == 2 && ex.Dropped() == 0, "steps not submitted exactly once each to the executor");
    if (ck == 8) {
      CHECK(cf.Ready(), "connected future not completed");
      auto r = std::move(cf).Touch();
      Check(r);
    }
    if (out.Valid()) {
      CHECK(out.Ready(), "future of the continuation not completed although its input is");
      auto r = std::move(out).Get();
      CHECK(SumOf(r) == gExpect, "Result lost by the continuation");
    }
  }
  CHECK(vf_g_get(G_LIVE) == 0, "values destroyed a wrong number of times");
  vf_reach("end");
}
