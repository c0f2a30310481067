// C18: every mutex of the FIBER backend under every scheduler choice.
// params: kind (0 mutex, 1 timed, 2 recursive, 3 recursive_timed, 4 shared, 5 shared_timed), fibers, acquisitions per fiber,
// op masks of fiber 0 / of the others, tick, injector (0 explicit yields only, n>0 frequency n), extra sleep, list pick, nested acquisitions,
// -shortest duration, longest duration (or step), range of the random draws, number of durations (0: any in the range)
#include "vf.h"
#include <yaclib/fault/config.hpp>
#include <yaclib/fault/detail/fiber/scheduler.hpp>
#include <yaclib/fault/injector.hpp>
#include <yaclib_std/chrono>
#include <yaclib_std/mutex>
#include <yaclib_std/shared_mutex>
#include <yaclib_std/thread>

static unsigned gDraws = 1;
extern "C" uint64_t vf_rng(uint64_t, uint64_t) {
  return vf_choose(gDraws);
}

namespace {

using Clock = yaclib_std::chrono::steady_clock;
using std::chrono::nanoseconds;

int gKind, gK, gN, gNested, gInj, gMenu;
uint64_t gMask[2];
int64_t gDmin, gDmax;

// what the program knows about the lock
VF_GHOST int gOwner = -1;
VF_GHOST int gDepth = 0;
VF_GHOST int gShared = 0;
VF_GHOST int gDone = 0;
VF_GHOST int gBlocked = 0;      // blocking or timed acquisitions in flight
VF_GHOST int64_t gFreeEx = 0;   // since when an exclusive / shared acquisition would be granted
VF_GHOST int64_t gFreeSh = 0;

int64_t Now() {
  return Clock::now().time_since_epoch().count();
}

bool CanEx(int self) {
  return gShared == 0 && (gOwner == -1 || ((gKind == 2 || gKind == 3) && gOwner == self));
}
bool CanSh() {
  return gOwner == -1;
}

void TookEx(int self) {
  CHECK(gShared == 0, "exclusive lock granted while shared holders exist");
  CHECK(gOwner == -1 || ((gKind == 2 || gKind == 3) && gOwner == self), "lock granted to a second exclusive holder");
  gOwner = self;
  ++gDepth;
}
void TookSh() {
  CHECK(gOwner == -1, "shared lock granted while an exclusive holder exists");
  ++gShared;
}
void DropEx(int self) {
  CHECK(gOwner == self && gDepth > 0, "exclusive holder lost the lock");
  if (--gDepth == 0) {
    gOwner = -1;
    gFreeEx = gFreeSh = Now();
  }
}
void DropSh() {
  if (--gShared == 0) {
    gFreeEx = Now();
  }
}

void MaybeYield() {
  if (gInj == 0 && vf_choose(2) != 0) {
    yaclib_std::this_thread::yield();
  }
}

enum Op { kLock, kTry, kFor, kUntil, kLockSh, kTrySh, kForSh, kUntilSh, kOps };

template <class M>
constexpr bool kTimed = std::is_same_v<M, yaclib_std::timed_mutex> || std::is_same_v<M, yaclib_std::recursive_timed_mutex> || std::is_same_v<M, yaclib_std::shared_timed_mutex>;
template <class M>
constexpr bool kSh = std::is_same_v<M, yaclib_std::shared_mutex> || std::is_same_v<M, yaclib_std::shared_timed_mutex>;

// exact == nothing else ran between the return of the lock function and this point
template <class M>
bool Acquire(M& m, int op, int self) {
  const bool exact = gInj == 0;
  const bool shared = op >= kLockSh;
  const bool free_at_entry = shared ? CanSh() : CanEx(self);
  const int64_t start = Now();
  int64_t d = 0;
  bool ok = true;
  bool timed = false;
  if (op == kFor || op == kUntil || op == kForSh || op == kUntilSh) {
    timed = true;
    if (gMenu != 0) {
      d = gDmin + static_cast<int64_t>(vf_choose(gMenu)) * gDmax;
    } else {
      d = gDmin + static_cast<int64_t>(vf_nondet(16));
      vf_assume(d <= gDmax);
    }
  }
  ++gBlocked;
  switch (op) {
    case kLock:
      m.lock();
      break;
    case kTry:
      ok = m.try_lock();
      break;
    case kFor:
      if constexpr (kTimed<M>) {
        ok = m.try_lock_for(nanoseconds{d});
      }
      break;
    case kUntil:
      if constexpr (kTimed<M>) {
        ok = m.try_lock_until(Clock::time_point{nanoseconds{start + d}});
      }
      break;
    case kLockSh:
      if constexpr (kSh<M>) {
        m.lock_shared();
      }
      break;
    case kTrySh:
      if constexpr (kSh<M>) {
        ok = m.try_lock_shared();
      }
      break;
    case kForSh:
      if constexpr (kSh<M> && kTimed<M>) {
        ok = m.try_lock_shared_for(nanoseconds{d});
      }
      break;
    case kUntilSh:
      if constexpr (kSh<M> && kTimed<M>) {
        ok = m.try_lock_shared_until(Clock::time_point{nanoseconds{start + d}});
      }
      break;
  }
  --gBlocked;
  if (ok) {
    shared ? TookSh() : TookEx(self);
    return true;
  }
  CHECK(timed || op == kTry || op == kTrySh, "a lock function reported failure");
  if (timed) {
    CHECK(Now() >= start + d, "timed acquisition failed before its deadline");
    if (exact) {
      CHECK(!free_at_entry || d <= 0, "timed acquisition of an available lock failed before its deadline");
      if (gK == 2 && gNested == 0 && d > 0) {
        // the only waiter: it must have been woken by the release
        const bool free = shared ? CanSh() : CanEx(self);
        const int64_t since = shared ? gFreeSh : gFreeEx;
        CHECK(!free || since >= start + d, "timed acquisition failed although the lock became available before the deadline");
      }
    }
  } else if (exact) {
    CHECK(!free_at_entry, "try_lock of an available lock failed");
  }
  return false;
}

template <class M>
void Release(M& m, int op, int self) {
  if (op >= kLockSh) {
    DropSh();
    if constexpr (kSh<M>) {
      m.unlock_shared();
    }
  } else {
    DropEx(self);
    m.unlock();
  }
}

int Pick(uint64_t mask) {
  int ops[kOps];
  int n = 0;
  for (int i = 0; i < kOps; ++i) {
    if ((mask >> i) & 1) {
      ops[n++] = i;
    }
  }
  return n == 1 ? ops[0] : ops[vf_choose(n)];
}

template <class M>
void Body(M& m, int self) {
  for (int i = 0; i < gN; ++i) {
    MaybeYield();
    const int op = Pick(gMask[self != 0]);
    if (!Acquire(m, op, self)) {
      vf_reach("failed");
      continue;
    }
    MaybeYield();
    if (gNested != 0) {  // recursive kinds: the owner acquires again
      const int op2 = Pick(gMask[self != 0]);
      CHECK(Acquire(m, op2, self), "the owner of a recursive mutex could not acquire it again");
      MaybeYield();
      Release(m, op2, self);
      MaybeYield();
    }
    Release(m, op, self);
  }
  ++gDone;
}

template <class M>
void Run() {
  M m;
  yaclib_std::thread root([&] {
    yaclib_std::thread t[4];
    for (int i = 0; i < gK; ++i) {
      t[i] = yaclib_std::thread([&m, i] {
        Body(m, i);
      });
    }
    for (int i = 0; i < gK; ++i) {
      t[i].join();
    }
    gDone += 100;
  });
  CHECK(gDone == 100 + gK, "all locks are released but a fiber is still parked");
  root.join();
  vf_reach("end");
}

}  // namespace

void vf_main() {
  gKind = vf_param(0);
  gK = vf_param(1);
  gN = vf_param(2);
  gMask[0] = vf_param(3);
  gMask[1] = vf_param(4);
  yaclib::fiber::SetFaultTickLength(vf_param(5));
  gInj = vf_param(6);
  yaclib::SetFaultSleepTime(vf_param(7));
  yaclib::fiber::SetFaultRandomListPick(vf_param(8));
  gNested = vf_param(9);
  gDmin = -int64_t(vf_param(10));
  gDmax = vf_param(11);
  gDraws = vf_param(12);
  gMenu = vf_param(13);
  yaclib::fiber::SetStackSize(1);
  yaclib::fiber::SetStackCacheSize(0);
  if (gInj == 0) {
    yaclib::GetInjector()->Disable();
  } else {
    yaclib::SetFaultFrequency(gInj);
    yaclib::fiber::SetInjectorState(vf_choose(gInj + 1));
  }
  yaclib::fault::Scheduler s;
  yaclib::fault::Scheduler::Set(&s);
  switch (gKind) {
    case 0:
      return Run<yaclib_std::mutex>();
    case 1:
      return Run<yaclib_std::timed_mutex>();
    case 2:
      return Run<yaclib_std::recursive_mutex>();
    case 3:
      return Run<yaclib_std::recursive_timed_mutex>();
    case 4:
      return Run<yaclib_std::shared_mutex>();
    case 5:
      return Run<yaclib_std::shared_timed_mutex>();
  }
}
