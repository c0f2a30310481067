// C18: threads, sleeps and thread-local pointers of the FIBER backend under every scheduler choice.
// params: scenario, fibers, tick, injector frequency (0 off), extra sleep, list pick, range of the random draws, longest duration
#include "vf.h"
#include <yaclib/fault/config.hpp>
#include <yaclib/fault/detail/fiber/scheduler.hpp>
#include <yaclib/fault/injector.hpp>
#include <yaclib_std/chrono>
#include <yaclib_std/mutex>
#include <yaclib_std/thread>
#include <yaclib_std/thread_local>

static unsigned gDraws = 1;
extern "C" uint64_t vf_rng(uint64_t, uint64_t) {
  return vf_choose(gDraws);
}

namespace {

using Clock = yaclib_std::chrono::steady_clock;
using std::chrono::nanoseconds;

int gInj, gK;
int64_t gDmax;
VF_GHOST int gDone = 0, gFinished = 0, gJoined = 0;

int64_t Now() {
  return Clock::now().time_since_epoch().count();
}
void MaybeYield() {
  if (gInj == 0 && vf_choose(2) != 0) {
    yaclib_std::this_thread::yield();
  }
}
int64_t Duration() {
  if (gDmax < 0) {
    static constexpr int64_t kMenu[] = {-1000, 15, 35};
    return kMenu[vf_choose(3)];
  }
  int64_t d = static_cast<int64_t>(vf_nondet(16)) - 1000;
  vf_assume(d <= gDmax);
  return d;
}
void Sleep(bool until) {
  const auto d = Duration();
  const auto start = Now();
  if (until) {
    yaclib_std::this_thread::sleep_until(Clock::time_point{nanoseconds{start + d}});
  } else {
    yaclib_std::this_thread::sleep_for(nanoseconds{d});
  }
  const auto end = Now();
  CHECK(end >= start + d, "a sleep ended before its deadline");
  CHECK(end >= start, "the clock went back");
}
// The body of a thread that somebody joins: bit `self` of gFinished is the last thing it does.
void Work(int self, int kind) {
  if (kind == 1) {
    Sleep(vf_choose(2) != 0);
  } else if (kind == 2) {
    MaybeYield();
    MaybeYield();
  } else {
    MaybeYield();
  }
  CHECK((gFinished >> self & 1) == 0, "a thread function ran twice");
  gFinished |= 1 << self;
}
void Join(yaclib_std::thread& t, int self) {
  CHECK(t.joinable(), "a running thread is joinable");
  CHECK(t.get_id() != yaclib_std::thread::id{} && t.get_id() != yaclib_std::this_thread::get_id(), "the id of another");
  t.join();
  CHECK((gFinished >> self & 1) != 0, "join() returned before the thread function did");
  CHECK(!t.joinable(), "a joined thread is not joinable");
  CHECK(t.get_id() == yaclib_std::thread::id{}, "a joined thread has no id");
  ++gJoined;
}

// Root starts gK threads and joins them in some order.
void JoinAll(int kind) {
  yaclib_std::thread t[3];
  for (int i = 0; i < gK; ++i) {
    t[i] = yaclib_std::thread([i, kind] {
      Work(i, kind);
    });
  }
  MaybeYield();
  const int first = gK > 1 ? vf_choose(gK) : 0;
  Join(t[first], first);
  for (int i = 0; i < gK; ++i) {
    if (i != first) {
      Join(t[i], i);
    }
  }
  CHECK(gJoined == gK && gFinished == (1 << gK) - 1, "all threads finished");
  gDone = 100;
}

// Each thread starts the next one and joins it; the ids it sees are its own.
void Nest(int depth) {
  yaclib_std::thread t{[depth] {
    const auto id = yaclib_std::this_thread::get_id();
    MaybeYield();
    if (depth + 1 < gK) {
      Nest(depth + 1);
    }
    CHECK(id == yaclib_std::this_thread::get_id(), "the id of a thread changed");
    Work(depth, 0);
  }};
  MaybeYield();
  const auto id = t.get_id();
  const auto mine = yaclib_std::this_thread::get_id();
  CHECK(id != mine, "two threads with one id");
  Join(t, depth);
  CHECK(mine == yaclib_std::this_thread::get_id(), "the id of a thread changed");
  if (depth == 0) {
    gDone = 100;
  }
}

// Threads detached at some moment (possibly after they finished, possibly by themselves) run to the end.
void DetachAll(bool self) {
  static VF_GHOST yaclib_std::thread t[3];
  for (int i = 0; i < gK; ++i) {
    t[i] = yaclib_std::thread([i, self] {
      MaybeYield();
      if (self && i == 0) {
        t[i].detach();
        CHECK(!t[i].joinable(), "a detached thread is not joinable");
        MaybeYield();
      }
      Work(i, 0);
      if (++gJoined == gK) {
        gDone = 100;
      }
    });
    if (i == 0) {
      MaybeYield();
    }
  }
  if (self) {  // wait for the one that detaches itself
    yaclib_std::this_thread::sleep_for(nanoseconds{1000000});
    CHECK(!t[0].joinable() && (gFinished & 1) != 0, "the thread that detached itself finished");
  } else {
    MaybeYield();
  }
  for (int i = self ? 1 : 0; i < gK; ++i) {
    CHECK(t[i].joinable(), "a thread is joinable until it is detached");
    t[i].detach();
    CHECK(!t[i].joinable() && t[i].get_id() == yaclib_std::thread::id{}, "a detached thread is not joinable");
  }
}

// A thread object moves between owners and fibers: whoever has it in the end joins the same function.
void MoveAndJoin(int how) {
  yaclib_std::thread a{[] {
    Work(0, 0);
  }};
  const auto id = a.get_id();
  yaclib_std::thread b;
  CHECK(!b.joinable() && b.get_id() == yaclib_std::thread::id{}, "a default constructed thread is not joinable");
  if (how == 0) {
    b = std::move(a);
  } else if (how == 1) {
    b.swap(a);
  } else {
    yaclib_std::thread c{std::move(a)};
    CHECK(!a.joinable() && c.get_id() == id, "a moved from thread is not joinable");
    MaybeYield();
    b = std::move(c);
    CHECK(!c.joinable(), "a moved from thread is not joinable");
  }
  CHECK(!a.joinable() && b.joinable() && b.get_id() == id, "the thread moved");
  if (gK == 1) {
    Join(b, 0);
    gDone = 100;
    return;
  }
  yaclib_std::thread joiner{[t = std::move(b)]() mutable {
    MaybeYield();
    Join(t, 0);
    Work(1, 0);
  }};
  CHECK(!b.joinable(), "a moved from thread is not joinable");
  Join(joiner, 1);
  CHECK(gJoined == 2, "both joined");
  gDone = 100;
}

// Sleepers and a runner: every sleep ends at or after its deadline and ends at all.
void Sleepers() {
  yaclib_std::thread t[3];
  for (int i = 0; i < gK; ++i) {
    t[i] = yaclib_std::thread([i] {
      if (i == 0) {
        Sleep(true);
        Sleep(false);
      } else if (i == 1) {
        Sleep(false);
      } else {
        MaybeYield();
        MaybeYield();
      }
      gFinished |= 1 << i;
    });
  }
  for (int i = 0; i < gK; ++i) {
    Join(t[i], i);
  }
  gDone = 100;
}

// Arguments reach the function, by value.
struct Arg {
  int v;
};
void WithArgs(Arg a, int* out) {
  MaybeYield();
  *out = a.v;
  gFinished |= 1;
}
void Arguments() {
  int out = 0;
  Arg a{static_cast<int>(vf_nondet(8))};
  const int want = a.v;
  yaclib_std::thread t{WithArgs, a, &out};
  a.v = 1000;
  Join(t, 0);
  CHECK(out == want, "the argument of a thread function");
  gDone = 100;
}

// Thread-local pointers.
int gInts[4];
long gLongs[4];
YACLIB_THREAD_LOCAL_PTR(int) gP;
YACLIB_THREAD_LOCAL_PTR(int) gQ{&gInts[3]};
YACLIB_THREAD_LOCAL_PTR(long) gL;
YACLIB_THREAD_LOCAL_PTR(long) gM{&gLongs[3]};

struct Mine {  // what the current fiber has to see
  int* p = nullptr;
  int* q = &gInts[3];
  long* l = nullptr;
  long* m = &gLongs[3];

  void Check() const {
    CHECK(gP.Get() == p && gQ.Get() == q && gL.Get() == l && gM.Get() == m, "a thread-local pointer is not per fiber");
    CHECK((gP == p) && (gQ == q) && (gL == l) && !(gM != m), "comparison of a thread-local pointer");
    CHECK(static_cast<bool>(gP) == (p != nullptr), "a thread-local pointer as bool");
    CHECK((gP == gQ) == (p == q) && (gL != gM) == (l != m), "comparison of thread-local pointers");
  }
};
void TlsFiber(int self, int ops) {
  Mine mine;
  mine.Check();
  for (int i = 0; i < ops; ++i) {
    switch (vf_choose(8)) {
      case 0:
        gP = mine.p = &gInts[self];
        break;
      case 1:
        gQ = mine.q = nullptr;
        break;
      case 2:
        gL = mine.l = &gLongs[self];
        break;
      case 3:
        gP = gQ;
        mine.p = mine.q;
        break;
      case 4:
        gM = std::move(gL);
        mine.m = mine.l;
        break;
      case 5: {
        auto& same = gQ;
        gQ = same;
        break;
      }
      case 6:
        gQ = std::move(gP);
        mine.q = mine.p;
        break;
      case 7:
        gL = gM;
        mine.l = mine.m;
        break;
    }
    mine.Check();
    MaybeYield();
    mine.Check();
  }
  if (mine.p != nullptr) {
    gP[0] = 1;
    *gP += 1;
    CHECK(*mine.p == 2, "access through a thread-local pointer");
  }
  gFinished |= 1 << self;
}
void Tls(int ops) {
  yaclib_std::thread t[3];
  for (int i = 0; i < gK; ++i) {
    t[i] = yaclib_std::thread([i, ops] {
      TlsFiber(i, ops);
    });
  }
  for (int i = 0; i < gK; ++i) {
    Join(t[i], i);
  }
  Mine{}.Check();  // the joiner assigned nothing
  // fibers that start later see the initial values as well
  yaclib_std::thread late{[] {
    Mine{}.Check();
  }};
  late.join();
  gDone = 100;
}

}  // namespace

void vf_main() {
  const int scenario = vf_param(0);
  gK = vf_param(1);
  yaclib::fiber::SetFaultTickLength(vf_param(2));
  gInj = vf_param(3);
  yaclib::SetFaultSleepTime(vf_param(4));
  yaclib::fiber::SetFaultRandomListPick(vf_param(5));
  gDraws = vf_param(6);
  gDmax = static_cast<int64_t>(vf_param(7)) - 1;
  yaclib::fiber::SetStackSize(1);
  yaclib::fiber::SetStackCacheSize(0);
  if (gInj == 0) {
    yaclib::GetInjector()->Disable();
  } else {
    yaclib::SetFaultFrequency(gInj);
    yaclib::fiber::SetInjectorState(vf_choose(gInj + 1));
  }
  yaclib::fault::Scheduler sched;
  yaclib::fault::Scheduler::Set(&sched);
  yaclib_std::thread root([scenario] {
    switch (scenario) {
      case 0:
      case 1:
      case 2:
        return JoinAll(scenario);
      case 3:
        return Nest(0);
      case 4:
      case 5:
        return DetachAll(scenario == 5);
      case 6:
      case 7:
      case 8:
        return MoveAndJoin(scenario - 6);
      case 9:
        return Sleepers();
      case 10:
        return Arguments();
      case 11:
      case 12:
      case 13:
        return Tls(scenario - 10);
    }
  });
  CHECK(gDone == 100, "a thread function did not finish or its joiner was not woken");
  root.join();
  vf_reach("end");
}
