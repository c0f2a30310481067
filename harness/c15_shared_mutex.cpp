// C15: coroutine SharedMutex. params: option (bit0 FIFO, bit1 ReadersFIFO), executor, rounds, form of coroutine 0, 1, 2, 3 (99: none).
// form: 0 LockShared/UnlockHereShared, 1 GuardShared, 2 TryLockShared or LockShared, 3 TryGuardShared or GuardShared, 4 SharedGuard{defer}
//       5 TryLockShared only; 10 Lock/UnlockHere, 11 Guard, 12 TryLock or Lock, 13 TryGuard or Guard, 14 UniqueGuard{defer}, 15 TryLock only
//       20 shared then exclusive in one coroutine, 21 exclusive then shared
#include "vf_util.h"
#include <yaclib/async/future.hpp>
#include <yaclib/async/wait.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/on.hpp>
#include <yaclib/coro/shared_mutex.hpp>
#include <yaclib/exe/manual.hpp>
#include <yaclib/exe/strand.hpp>
#include <yaclib/runtime/fair_thread_pool.hpp>
#include <yaclib/util/helper.hpp>
using namespace yaclib;
enum : unsigned { gReaders = 0, gWriters = 1, gFin = 2, gWrites = 8, gOrder = 9, gExA = 20, gExB = 36 };
static uint32_t gData, gWord[4];
static int gRoundsWanted;

static uint32_t Expect() {
  uint32_t want = 0;
  for (unsigned i = 0; i < vf_g_get(gWrites); ++i)
    want = want * 31 + gWord[vf_g_get(gOrder + i)];
  return want;
}
static void Read() {
  vf_g_add(gReaders, 1);
  CHECK(vf_g_get(gWriters) == 0, "a shared holder overlaps with an exclusive one");
  CHECK(gData == Expect(), "a reader does not see what writers before it wrote");
  vf_yield();
  CHECK(vf_g_get(gWriters) == 0, "a shared holder overlaps with an exclusive one");
  CHECK(gData == Expect(), "a value changed under a shared lock");
  vf_g_add(gReaders, ~0ull);
}
static void Write(int id) {
  CHECK(vf_g_add(gWriters, 1) == 1, "two exclusive holders overlap");
  CHECK(vf_g_get(gReaders) == 0, "an exclusive holder overlaps with a shared one");
  CHECK(gData == Expect(), "a writer does not see what writers before it wrote");
  gData = gData * 31 + gWord[id];
  vf_g_set(gOrder + vf_g_add(gWrites, 1) - 1, id);
  vf_yield();
  CHECK(vf_g_get(gWriters) == 1, "two exclusive holders overlap");
  CHECK(vf_g_get(gReaders) == 0, "an exclusive holder overlaps with a shared one");
  vf_g_add(gWriters, ~0ull);
}
template <typename M>
static Future<Val, Err> Co(M& m, int id, int form, IExecutor* own) {
  Val local{gWord[id]};
  if (own)
    co_await On(*own);
  for (int r = 0; r < gRoundsWanted; ++r) {
    if (form == 0 || form == 2 || form == 20 || form == 5) {
      bool got = (form == 2 || form == 5) && m.TryLockShared();
      if (!got && form != 5) {
        co_await m.LockShared();
        got = true;
      }
      if (got) {
        Read();
        m.UnlockHereShared();
      }
    }
    if (form == 1 || form == 3 || form == 4) {
      SharedGuard<M> g{m, std::defer_lock};
      if (form == 3)
        g = m.TryGuardShared();
      if (!g) {
        if (form == 4)
          co_await g.Lock();
        else
          g = co_await m.GuardShared();
      }
      CHECK(g.OwnsLock() && g.Mutex() == &m, "a granted guard does not own the lock");
      Read();
      if (form == 4)
        g.UnlockHere();
    }
    if (form == 10 || form == 12 || form == 20 || form == 21 || form == 15) {
      bool got = (form == 12 || form == 15) && m.TryLock();
      if (!got && form != 15) {
        co_await m.Lock();
        got = true;
      }
      if (got) {
        Write(id);
        m.UnlockHere();
      }
    }
    if (form == 11 || form == 13 || form == 14) {
      UniqueGuard<M> g{m, std::defer_lock};
      if (form == 13)
        g = m.TryGuard();
      if (!g) {
        if (form == 14)
          co_await g.Lock();
        else
          g = co_await m.Guard();
      }
      CHECK(g.OwnsLock() && g.Mutex() == &m, "a granted guard does not own the lock");
      Write(id);
      if (form == 14)
        g.UnlockHere();
    }
    if (form == 21) {
      co_await m.LockShared();
      Read();
      m.UnlockHereShared();
    }
  }
  CHECK(local.Is(gWord[id]), "a live local of the coroutine was destroyed");
  CHECK(vf_g_add(gFin + id, 1) == 1, "a coroutine finished twice");
  co_return Val{gWord[id]};
}
template <bool Fifo, bool ReadersFifo>
static void Run() {
  using M = SharedMutex<Fifo, ReadersFifo>;
  int ex = vf_param(1), n = 0, form[4];
  gRoundsWanted = vf_param(2);
  for (int i = 0; i < 4; ++i) {
    form[i] = vf_param(3 + i);
    if (form[i] != 99)
      gWord[n++] = vf_nondet(32);
  }
  SpawnExec ea{gExA}, eb{gExB};
  {
    M m;
    IntrusivePtr<FairThreadPool> tp;
    IntrusivePtr<ManualExecutor> man;
    if (ex == 4)
      tp = MakeFairThreadPool(1);
    if (ex == 2)
      man = MakeShared<ManualExecutor>(1);
    Future<Val, Err> f[4];
    auto start = [&](int i) {
      IExecutor* own = ex == 1 ? &ea : ex == 2 ? static_cast<IExecutor*>(man.Get()) : ex == 3 ? (i & 1 ? &eb : &ea) : ex == 4 ? static_cast<IExecutor*>(tp.Get()) : nullptr;
      f[i] = Co(m, i, form[i], own);
    };
    auto s0 = [&] { start(0); };
    auto s1 = [&] { start(1); };
    auto s2 = [&] { start(2); };
    auto s3 = [&] { start(3); };
    if (ex == 0) {
      int t[4] = {Spawn(s0), Spawn(s1), n > 2 ? Spawn(s2) : -1, n > 3 ? Spawn(s3) : -1};
      for (int i = 0; i < n; ++i)
        vf_join(t[i]);
    } else {
      for (int i = 0; i < n; ++i)
        start(i);
    }
    if (man)
      while (man->Drain() != 0) {
      }
    if (tp) {
      Wait(f, (std::size_t)n);
      tp->SoftStop();
      tp->Wait();
    }
    JoinBoth(ea, eb);
    for (int i = 0; i < n; ++i) {
      CHECK(vf_g_get(gFin + i) == 1, "a coroutine never got the lock");
      CHECK(f[i].Ready() && SumOf(std::move(f[i]).Get()) == (Sum{0, gWord[i]}), "a coroutine did not finish");
    }
    // everything is released: the mutex is free, and the Try forms answer by the holders
    CHECK(m.TryLock(), "the mutex is not free although every holder released it");
    CHECK(!m.TryLock() && !m.TryLockShared() && !m.TryGuard() && !m.TryGuardShared(), "a Try form succeeded under an exclusive holder");
    m.UnlockHere();
    CHECK(m.TryLockShared(), "the mutex is not free although every holder released it");
    CHECK(!m.TryLock() && !m.TryGuard(), "TryLock succeeded under a shared holder");
    CHECK(m.TryLockShared(), "a shared holder keeps a reader out although no writer waits");
    m.UnlockHereShared();
    m.UnlockHereShared();
    CHECK(m.TryLock(), "the mutex is not free although every holder released it");
    m.UnlockHere();
    CHECK(gData == Expect(), "a write was lost");
  }
  CHECK(vf_g_get(G_LIVE) == 0, "values destroyed a wrong number of times");
  vf_reach("end");
}
extern "C" void vf_main() {
  switch (vf_param(0)) {
    case 0: return Run<false, false>();
    case 1: return Run<true, false>();
    case 2: return Run<false, true>();
    default: return Run<true, true>();
  }
}
