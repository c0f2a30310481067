// C18: condition_variable of the FIBER backend under every scheduler choice.
// params: scenario, fibers, tick, injector frequency (0 off), extra sleep, list pick, range of the random draws, longest duration
#include "vf.h"
#include <yaclib/fault/config.hpp>
#include <yaclib/fault/detail/fiber/scheduler.hpp>
#include <yaclib/fault/injector.hpp>
#include <yaclib_std/chrono>
#include <yaclib_std/condition_variable>
#include <yaclib_std/mutex>
#include <yaclib_std/thread>

static unsigned gDraws = 1;
extern "C" uint64_t vf_rng(uint64_t, uint64_t) {
  return vf_choose(gDraws);
}

namespace {

using Clock = yaclib_std::chrono::steady_clock;
using std::chrono::nanoseconds;
using Lock = std::unique_lock<yaclib_std::mutex>;

int gInj, gK;
int64_t gDmax;
VF_GHOST int gDone = 0, gOwner = -1, gBlocked = 0, gNotified = 0, gWoken = 0, gFlag = 0, gNotifies = 0;
VF_GHOST int64_t gLastNotify = -1;
constexpr int64_t kLong = 1000000;  // the virtual clock gets there only when nothing else can run

int64_t Now() {
  return Clock::now().time_since_epoch().count();
}
void MaybeYield() {
  if (gInj == 0 && vf_choose(2) != 0) {
    yaclib_std::this_thread::yield();
  }
}
void Took(int self) {
  CHECK(gOwner == -1, "the mutex of a condition variable has two holders");
  gOwner = self;
}
void Drop(int self) {
  CHECK(gOwner == self, "wait() returned without the mutex");
  gOwner = -1;
}
int64_t Duration() {
  if (gDmax < 0) {  // a menu: before now, shorter and longer than a few steps
    static constexpr int64_t kMenu[] = {-7, 15, 35, 1000};
    return kMenu[vf_choose(4)];
  }
  int64_t d = static_cast<int64_t>(vf_nondet(16)) - 10;
  vf_assume(d <= gDmax);
  return d;
}

struct Shared {
  yaclib_std::mutex m;
  yaclib_std::condition_variable cv;
};

// A fiber blocks without a deadline; somebody notifies exactly as many as are blocked.
void Waiter(Shared& s, int self) {
  MaybeYield();
  Lock l{s.m};
  Took(self);
  ++gBlocked;
  Drop(self);
  s.cv.wait(l);
  Took(self);
  ++gWoken;
  MaybeYield();
  Drop(self);
  l.unlock();
  ++gDone;
}
void WakeAll(Shared& s, int self, int n, bool all, bool under_lock) {
  // everybody else is blocked when this sleep ends
  yaclib_std::this_thread::sleep_for(nanoseconds{kLong});
  CHECK(gBlocked == n, "somebody is late");
  for (int i = 0; i < (all ? 1 : n); ++i) {
    if (under_lock) {
      Lock l{s.m};
      Took(self);
      all ? s.cv.notify_all() : s.cv.notify_one();
      Drop(self);
    } else {
      all ? s.cv.notify_all() : s.cv.notify_one();
    }
    MaybeYield();
  }
  ++gDone;
}

// The usual predicate loop, in all of its forms.
void PredicateWaiter(Shared& s, int self, int form) {
  MaybeYield();
  Lock l{s.m};
  Took(self);
  const int64_t start = Now();
  int64_t d = 0;
  bool r = true;
  Drop(self);
  auto pred = [&] {
    CHECK(gOwner == -1, "the predicate was called without the mutex");
    return gFlag != 0;
  };
  if (form == 0) {
    s.cv.wait(l, pred);
  } else {
    d = Duration();
    r = form == 1 ? s.cv.wait_for(l, nanoseconds{d}, pred) : s.cv.wait_until(l, Clock::time_point{nanoseconds{start + d}}, pred);
  }
  Took(self);
  CHECK(l.owns_lock(), "wait() gave the mutex away");
  CHECK(r == (gFlag != 0), "a predicate wait returned something else than the predicate");
  if (form != 0 && !r) {
    CHECK(Now() >= start + d, "a timed wait with a false predicate ended before its deadline");
  }
  Drop(self);
  l.unlock();
  ++gDone;
}
void Setter(Shared& s, int self, bool all, bool under_lock) {
  MaybeYield();
  Lock l{s.m};
  Took(self);
  MaybeYield();
  gFlag = 1;
  Drop(self);
  if (!under_lock) {
    l.unlock();
    MaybeYield();
  }
  all ? s.cv.notify_all() : s.cv.notify_one();
  ++gDone;
}

// Timed waits without a predicate.
void TimedWaiter(Shared& s, int self, bool until) {
  MaybeYield();
  Lock l{s.m};
  Took(self);
  const int64_t start = Now();
  const int64_t d = Duration();
  const int before = gNotifies;
  ++gBlocked;
  Drop(self);
  const auto st = until ? s.cv.wait_until(l, Clock::time_point{nanoseconds{start + d}}) : s.cv.wait_for(l, nanoseconds{d});
  --gBlocked;
  Took(self);
  if (st == std::cv_status::timeout) {
    CHECK(Now() >= start + d, "a timed wait reported a timeout before its deadline");
    if (gInj == 0 && gK == 2) {
      CHECK(gNotifies == before || gLastNotify >= start + d, "the only waiter was notified before its deadline but reported a timeout");
    }
    vf_reach("timeout");
  } else {
    CHECK(gNotifies != before, "a waiter was woken by nothing");
    vf_reach("notified");
  }
  Drop(self);
  l.unlock();
  ++gDone;
}
void Notifier(Shared& s, int self, int n) {
  for (int i = 0; i < n; ++i) {
    MaybeYield();
    Lock l{s.m};
    Took(self);
    if (gBlocked != 0) {
      gLastNotify = Now();
      ++gNotifies;
    }
    s.cv.notify_one();
    Drop(self);
  }
  ++gDone;
}

// A waiter with a far deadline is woken by a notification, not by the clock.
void FarWaiter(Shared& s, int self, bool pred) {
  Lock l{s.m};
  Took(self);
  const int64_t start = Now();
  ++gBlocked;
  Drop(self);
  if (pred) {
    CHECK(s.cv.wait_for(l, nanoseconds{kLong}, [] { return gFlag != 0; }), "the predicate became true but wait_for says it did not");
  } else {
    CHECK(s.cv.wait_for(l, nanoseconds{kLong}) == std::cv_status::no_timeout, "a notified waiter reported a timeout");
  }
  Took(self);
  CHECK(Now() < start + kLong, "a notified waiter waited for its deadline");
  Drop(self);
  l.unlock();
  ++gDone;
}
void FarNotifier(Shared& s, int self, int n, bool all) {
  yaclib_std::this_thread::sleep_for(nanoseconds{2000});
  Lock l{s.m};
  Took(self);
  CHECK(gBlocked == n, "somebody is late");
  gFlag = 1;
  for (int i = 0; i < (all ? 1 : n); ++i) {
    all ? s.cv.notify_all() : s.cv.notify_one();
  }
  Drop(self);
  l.unlock();
  ++gDone;
}

// Notifications that leave the predicate false do not extend a timed wait.
void StubbornWaiter(Shared& s, int self) {
  Lock l{s.m};
  Took(self);
  const int64_t start = Now();
  Drop(self);
  const bool r = s.cv.wait_for(l, nanoseconds{3000}, [] { return false; });
  Took(self);
  CHECK(!r, "a predicate wait returned something else than the predicate");
  CHECK(Now() >= start + 3000, "a timed wait with a false predicate ended before its deadline");
  CHECK(Now() < start + 4500, "notifications extended a timed wait");
  Drop(self);
  l.unlock();
  ++gDone;
}
void Pesterer(Shared& s, int self) {
  for (int i = 0; i < 4; ++i) {
    yaclib_std::this_thread::sleep_for(nanoseconds{2000});
    Lock l{s.m};
    Took(self);
    s.cv.notify_all();
    Drop(self);
  }
  ++gDone;
}

}  // namespace

void vf_main() {
  const int scenario = vf_param(0);
  gK = vf_param(1);
  yaclib::fiber::SetFaultTickLength(vf_param(2));
  gInj = vf_param(3);
  yaclib::SetFaultSleepTime(vf_param(4));
  yaclib::fiber::SetFaultRandomListPick(vf_param(5));
  gDraws = vf_param(6);
  gDmax = static_cast<int64_t>(vf_param(7)) - 1;
  yaclib::fiber::SetStackSize(1);
  yaclib::fiber::SetStackCacheSize(0);
  if (gInj == 0) {
    yaclib::GetInjector()->Disable();
  } else {
    yaclib::SetFaultFrequency(gInj);
    yaclib::fiber::SetInjectorState(vf_choose(gInj + 1));
  }
  yaclib::fault::Scheduler sched;
  yaclib::fault::Scheduler::Set(&sched);
  Shared s;
  yaclib_std::thread root([&] {
    yaclib_std::thread t[4];
    for (int i = 0; i < gK; ++i) {
      const bool last = i + 1 == gK;
      t[i] = yaclib_std::thread([&s, i, last, scenario] {
        switch (scenario) {
          case 0:
          case 1:
          case 2:
          case 3:
            return last ? WakeAll(s, i, gK - 1, scenario & 1, scenario & 2) : Waiter(s, i);
          case 4:
          case 5:
          case 6:
            return last ? Setter(s, i, true, vf_choose(2) != 0) : PredicateWaiter(s, i, scenario - 4);
          case 7:  // one waiter, notify_one
            return last ? Setter(s, i, false, vf_choose(2) != 0) : PredicateWaiter(s, i, i != 0 ? 1 : vf_choose(3));
          case 8:
          case 9:
            return last ? Notifier(s, i, 2) : TimedWaiter(s, i, scenario == 9);
          case 10:
          case 11:
            return last ? FarNotifier(s, i, gK - 1, scenario == 11) : FarWaiter(s, i, false);
          case 12:
            return last ? FarNotifier(s, i, gK - 1, true) : FarWaiter(s, i, true);
          case 13:
            return last ? Pesterer(s, i) : StubbornWaiter(s, i);
        }
      });
    }
    for (int i = 0; i < gK; ++i) {
      t[i].join();
    }
    gDone += 100;
  });
  CHECK(gDone == 100 + gK, "a notified or timed waiter is still parked");
  root.join();
  vf_reach("end");
}
