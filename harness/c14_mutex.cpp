// C14: coroutine Mutex. params: option (bit0 Batching, bit1 FIFO), executor, rounds, lock/unlock form of coroutine 0, 1, (2 or 99).
// form = 10 * lock + unlock.
// lock: 0 Lock, 1 Guard, 2 GuardSticky, 3 TryLock or Lock, 4 TryGuard or Guard, 5 UniqueGuard{defer}.Lock, 6 StickyGuard{defer}.Lock,
//       7 UniqueGuard.TryLock or Lock
// unlock: 0 Unlock, 1 UnlockOn, 2 UnlockHere (lock 0 and 3); 3 destructor, 4 guard.Unlock, 5 guard.UnlockOn, 6 guard.UnlockHere,
//       7 guard moved and destroyed, 8 guard swapped and released by hand
#include "vf_util.h"
#include <yaclib/async/future.hpp>
#include <yaclib/async/wait.hpp>
#include <yaclib/coro/current_executor.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/mutex.hpp>
#include <yaclib/coro/on.hpp>
#include <yaclib/exe/manual.hpp>
#include <yaclib/exe/strand.hpp>
#include <yaclib/runtime/fair_thread_pool.hpp>
#include <yaclib/util/helper.hpp>
using namespace yaclib;
enum : unsigned { gInside = 0, gGrants = 1, gOrder = 2, gWaiting = 16, gGranted = 17, gExA = 20, gExB = 36, gRounds = 52 };
static uint32_t gData, gWord[3];
static SpawnExec *gA, *gB;
static int gRoundsWanted, gExec;
static bool gFifo;

static void Enter(int id, uint64_t before) {
  CHECK(vf_g_add(gInside, 1) == 1, "two coroutines inside the critical section");
  vf_g_set(gGranted, vf_g_get(gGranted) | 1u << id);
  vf_g_set(gWaiting, vf_g_get(gWaiting) & ~(1u << id));
  if (gFifo)
    CHECK((vf_g_get(gWaiting) & before) == 0, "FIFO mutex granted out of arrival order");
  gData = gData * 31 + gWord[id];
  vf_g_set(gOrder + vf_g_add(gGrants, 1) - 1, id);
  vf_yield();
  CHECK(vf_g_get(gInside) == 1, "two coroutines inside the critical section");
}
static void Leave() {
  vf_g_add(gInside, ~0ull);
}
// who was certainly waiting (its starter got control back without the grant) when this request began
static uint64_t Begin(int id) {
  vf_g_set(gGranted, vf_g_get(gGranted) & ~(1u << id));
  return vf_g_get(gWaiting);
}
template <typename M>
static Future<Val, Err> Co(M& m, int id, int lock, int unlock, IExecutor* own, IExecutor* other) {
  Val local{gWord[id]};
  if (own)
    co_await On(*own);
  auto* here = own == gA && own ? gA : own == gB && own ? gB : nullptr;
  for (int r = 0; r < gRoundsWanted; ++r) {
    uint64_t before = Begin(id);
    if (lock == 0 || lock == 3) {
      if (lock == 0 || !m.TryLock())
        co_await m.Lock();
      Enter(id, before);
      Leave();
      if (unlock == 0)
        co_await m.Unlock();
      else if (unlock == 1) {
        co_await m.UnlockOn(*other);
        CHECK(gExec == 2 || static_cast<SpawnExec*>(other)->Here(), "UnlockOn resumed elsewhere");
        here = nullptr;
      } else
        m.UnlockHere();
    } else if (lock == 2 || lock == 6) {
      StickyGuard<M> g{m, std::defer_lock};
      if (lock == 2)
        g = co_await m.GuardSticky();
      else
        co_await g.Lock();
      CHECK(g.OwnsLock() && g, "a granted guard does not own the lock");
      Enter(id, before);
      Leave();
      if (unlock == 4) {
        co_await g.Unlock();
        CHECK(!here || here->Here(), "StickyGuard::Unlock resumed elsewhere than on the coroutine's executor");
        CHECK(!g, "guard owns the lock after Unlock");
      } else if (unlock == 5) {
        co_await g.UnlockOn(*other);
        CHECK(gExec == 2 || static_cast<SpawnExec*>(other)->Here(), "UnlockOn resumed elsewhere");
        here = nullptr;
      } else if (unlock == 6) {
        g.UnlockHere();
      } else if (unlock == 7) {
        StickyGuard<M> h{std::move(g)};
        CHECK(!g && h, "moving a guard did not move the ownership");
      }
    } else {
      UniqueGuard<M> g{m, std::defer_lock};
      CHECK(!g.OwnsLock(), "a deferred guard owns the lock");
      if (lock == 4)
        g = m.TryGuard();
      if (lock == 7)
        (void)g.TryLock();
      if (!g) {
        if (lock == 1 || lock == 4)
          g = co_await m.Guard();
        else
          co_await g.Lock();
      }
      CHECK(g.OwnsLock() && g, "a granted guard does not own the lock");
      Enter(id, before);
      Leave();
      if (unlock == 4) {
        co_await g.Unlock();
        CHECK(!g, "guard owns the lock after Unlock");
      } else if (unlock == 5) {
        co_await g.UnlockOn(*other);
        CHECK(gExec == 2 || static_cast<SpawnExec*>(other)->Here(), "UnlockOn resumed elsewhere");
      } else if (unlock == 6) {
        g.UnlockHere();
      } else if (unlock == 7) {
        UniqueGuard<M> h{std::move(g)};
        CHECK(!g && h && h.Mutex() == &m, "moving a guard did not move the ownership");
      } else if (unlock == 8) {
        UniqueGuard<M> h;
        h.Swap(g);
        CHECK(!g && h.OwnsLock(), "swapping guards did not swap the ownership");
        auto* p = h.Release();
        CHECK(p == &m && !h.OwnsLock(), "Release does not return the mutex");
        p->UnlockHere();
      }
    }
  }
  vf_g_add(gRounds + id, 1);
  CHECK(local.Is(gWord[id]), "a live local of the coroutine was destroyed");
  co_return Val{gWord[id]};
}

template <bool Batching, bool Fifo>
static void Run() {
  using M = Mutex<Batching, Fifo>;
  gFifo = Fifo;
  int ex = vf_param(1), rounds = vf_param(2);
  gRoundsWanted = rounds;
  gExec = ex;
  int form[3] = {(int)vf_param(3), (int)vf_param(4), (int)vf_param(5)};
  int n = form[2] == 99 ? 2 : 3;
  for (int i = 0; i < n; ++i)
    gWord[i] = vf_nondet(32);
  SpawnExec ea{gExA}, eb{gExB};
  gA = &ea;
  gB = &eb;
  {
    M m;
    IntrusivePtr<FairThreadPool> tp;
    IntrusivePtr<ManualExecutor> man;
    IExecutorPtr strand;
    if (ex == 4)
      tp = MakeFairThreadPool(1);
    if (ex == 2)
      man = MakeShared<ManualExecutor>(1);
    if (ex == 5)
      strand = MakeStrand(IExecutorPtr{&ea});
    Future<Val, Err> f[3];
    auto start = [&](int i) {
      IExecutor* own = nullptr;
      switch (ex) {
        case 1: own = &ea; break;
        case 2: own = man.Get(); break;
        case 3: own = i == 1 ? &eb : &ea; break;
        case 4: own = tp.Get(); break;
        case 5: own = strand.Get(); break;
      }
      f[i] = Co(m, i, form[i] / 10, form[i] % 10, own, man ? static_cast<IExecutor*>(man.Get()) : &eb);
      if (ex == 0 && rounds == 1 && !(vf_g_get(gGranted) >> i & 1))
        vf_g_set(gWaiting, vf_g_get(gWaiting) | 1u << i);
    };
    auto s0 = [&] { start(0); };
    auto s1 = [&] { start(1); };
    auto s2 = [&] { start(2); };
    if (ex == 0) {
      int t0 = Spawn(s0), t1 = Spawn(s1), t2 = n == 3 ? Spawn(s2) : -1;
      vf_join(t0);
      vf_join(t1);
      if (t2 >= 0)
        vf_join(t2);
    } else {
      for (int i = 0; i < n; ++i)
        start(i);
    }
    if (man)
      while (man->Drain() != 0) {
      }
    if (tp) {
      // all coroutines finish on the pool (or on eb); it is stopped only when nothing is left
      Wait(f, (std::size_t)n);
      tp->SoftStop();
      tp->Wait();
    }
    JoinBoth(ea, eb);
    for (int i = 0; i < n; ++i) {
      CHECK(vf_g_get(gRounds + i) == 1, "a coroutine never got the lock");
      CHECK(f[i].Ready() && SumOf(std::move(f[i]).Get()) == (Sum{0, gWord[i]}), "a coroutine did not finish");
    }
    CHECK(m.TryLock(), "the mutex is not free although every holder released it");
    CHECK(!m.TryLock() && !m.TryGuard(), "TryLock succeeded on a held mutex");
    m.UnlockHere();
    CHECK(vf_g_get(gGrants) == unsigned(n * rounds), "a request was granted a wrong number of times");
    uint32_t want = 0;
    for (unsigned i = 0; i < vf_g_get(gGrants); ++i)
      want = want * 31 + gWord[vf_g_get(gOrder + i)];
    CHECK(gData == want, "a write made in one critical section was not seen by the next");
  }
  CHECK(vf_g_get(G_LIVE) == 0, "values destroyed a wrong number of times");
  vf_reach("end");
}
extern "C" void vf_main() {
  switch (vf_param(0)) {
    case 0: return Run<false, false>();
    case 1: return Run<true, false>();
    case 2: return Run<false, true>();
    default: return Run<true, true>();
  }
}
