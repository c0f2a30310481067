// C08: FairThreadPool. params: workers, submission pattern, stopper, job form.
// stopper: 0 Stop, 1 SoftStop, 2 HardStop by a thread at any moment; 3..5 the same after the submitters joined;
// 6 Stop from inside job 0; 7 SoftStop from inside job 0; 8 HardStop from inside job 0; 9 SoftStop then Stop by a thread;
// 10 SoftStop then HardStop; 11 Stop then HardStop; 12 HardStop and Stop by two threads
#include "vf_util.h"
#include <yaclib/exe/submit.hpp>
#include <yaclib/runtime/fair_thread_pool.hpp>
using namespace yaclib;
enum : unsigned { gCalled = 0, gDropped = 8, gAccepted = 16, gStopBegun = 17, gStopDone = 18, gStarted = 19, gOrder = 20, gWaited = 27, gRunning = 28, gSubRet = 29, gBefore = 30, gHardBegun = 38 , gStopRet = 39, gAfterStop = 40, gFinished = 48 };
constexpr int kMax = 6;
static int gForm, gStopper, gNest, gWorkers;
static FairThreadPool* gPool;
static uint32_t gWord[kMax], gIn[kMax], gOut[kMax];
static void SubmitJob(int id);
static void DoStop(int how) {
  if (how == 2)
    vf_g_set(gHardBegun, 1);
  if (how != 1)
    vf_g_set(gStopBegun, 1);
  else
    vf_g_set(gStopBegun, vf_g_get(gStopBegun) | 2);
  if (how == 0)
    gPool->Stop();
  else if (how == 1)
    gPool->SoftStop();
  else
    gPool->HardStop();
  if (how != 1)
    vf_g_set(gStopRet, 1);
}
static void Body(int id) {
  vf_g_add(gRunning, 1);
  CHECK(vf_g_get(gWaited) == 0, "a job ran after Wait returned");
  CHECK(vf_g_add(gCalled + id, 1) == 1, "a job was Called twice");
  CHECK(vf_g_get(gDropped + id) == 0, "a job was Called and Dropped");
  if (gWorkers == 1) {
    CHECK(vf_g_get(gRunning) == 1, "two jobs at once on one worker");
    uint64_t before = vf_g_get(gBefore + id);
    for (int i = 0; i < kMax; ++i)
      if (before >> i & 1)
        CHECK(vf_g_get(gCalled + i) + vf_g_get(gDropped + i) == 1, "with one worker a job started before one submitted earlier");
  }
  CHECK(vf_g_get(gAfterStop + id) == 0, "a job submitted after Stop returned was Called");
  gOut[id] = gIn[id] + 1;
  vf_yield();
  if (id == 0) {
    if (gStopper >= 6 && gStopper <= 8)
      DoStop(gStopper - 6);
    if (gNest)
      SubmitJob(gNest);
  }
  CHECK(vf_g_get(gWaited) == 0, "a job was still running when Wait returned");
  vf_g_set(gFinished, vf_g_get(gFinished) | 1u << id);
  vf_g_add(gRunning, ~0ull);
}
static void Dropped(int id) {
  CHECK(vf_g_add(gDropped + id, 1) == 1, "a job was Dropped twice");
  CHECK(vf_g_get(gCalled + id) == 0, "a job was Called and Dropped");
  CHECK(vf_g_get(gStopBegun) != 0, "a job was Dropped although nobody stopped the pool");
  // accepted (its Submit returned) before any Stop: only HardStop may drop it
  CHECK(!(vf_g_get(gSubRet) >> id & 1) || vf_g_get(gHardBegun), "an accepted job was Dropped although nobody called HardStop");
  if (vf_g_get(gStopBegun) == 2)  // SoftStop only: it stopped at a moment without queued or running jobs
    for (int i = 0; i < kMax; ++i)
      if ((vf_g_get(gSubRet) >> i & 1) && !vf_g_get(gDropped + i))
        CHECK(vf_g_get(gFinished) >> i & 1, "SoftStop stopped the pool while a job was queued or running");
}
struct MyJob final : Job {
  int id = 0;
  void Call() noexcept final {
    next = reinterpret_cast<detail::Node*>(1);
    Body(id);
  }
  void Drop() noexcept final {
    next = reinterpret_cast<detail::Node*>(1);
    Dropped(id);
  }
};
static MyJob gJobs[kMax];
struct Fn {
  int id;
  bool live = true, ran = false;
  explicit Fn(int i) : id{i} {
  }
  Fn(Fn&& o) noexcept : id{o.id}, ran{o.ran} {
    o.live = false;
  }
  ~Fn() {
    if (live && !ran)
      Dropped(id);
  }
  void operator()() {
    ran = true;
    Body(id);
  }
};
static void SubmitJob(int id) {
  gIn[id] = gWord[id];
  vf_g_set(gBefore + id, vf_g_get(gSubRet));
  if (vf_g_get(gStopRet))
    vf_g_set(gAfterStop + id, 1);
  bool stopped = vf_g_get(gStopBegun) != 0;
  if (gForm == 0) {
    gJobs[id].id = id;
    gPool->Submit(gJobs[id]);
  } else {
    Submit(*gPool, Fn{id});
  }
  (void)stopped;
  vf_g_set(gSubRet, vf_g_get(gSubRet) | 1u << id);
}

extern "C" void vf_main() {
  gWorkers = vf_param(0);
  int pat = vf_param(1);
  gStopper = vf_param(2);
  gForm = vf_param(3);
  int cnt[2] = {0, 0};
  switch (pat) {
    case 0: cnt[0] = 1; break;
    case 1: cnt[0] = 1; cnt[1] = 1; break;
    case 2: cnt[0] = 2; break;
    case 3: cnt[0] = 2; cnt[1] = 1; break;
    case 4: cnt[0] = 1; gNest = 1; break;
    case 5: cnt[0] = 1; cnt[1] = 1; gNest = 2; break;
    case 6: cnt[0] = 2; cnt[1] = 2; break;
    case 7: cnt[0] = 3; break;
  }
  const int nested = gNest;
  int k = cnt[0] + cnt[1] + (gNest ? 1 : 0);
  for (int i = 0; i < k; ++i)
    gWord[i] = vf_nondet(32);
  {
    auto tp = MakeFairThreadPool(gWorkers);
    gPool = tp.Get();
    CHECK(tp->Tag() == IExecutor::Type::FairThreadPool, "wrong tag");
    auto f0 = [&] {
      for (int i = 0; i < cnt[0]; ++i)
        SubmitJob(i);
    };
    auto f1 = [&] {
      for (int i = 0; i < cnt[1]; ++i)
        SubmitJob(cnt[0] + i);
    };
    auto st = [&] {
      switch (gStopper) {
        case 0: case 1: case 2: DoStop(gStopper); break;
        case 9: DoStop(1); DoStop(0); break;
        case 10: DoStop(1); DoStop(2); break;
        case 11: DoStop(0); DoStop(2); break;
        case 12: DoStop(2); break;
      }
    };
    auto st2 = [&] { DoStop(0); };
    int t[4], nt = 0, ns = 0;
    t[nt++] = Spawn(f0);
    if (cnt[1])
      t[nt++] = Spawn(f1);
    ns = nt;
    bool thread = gStopper < 3 || gStopper >= 9;
    if (thread)
      t[nt++] = Spawn(st);
    if (gStopper == 12)
      t[nt++] = Spawn(st2);
    bool early = gStopper < 3 && vf_choose(2);  // Wait may begin before the submissions are over
    if (!early)
      for (int i = 0; i < ns; ++i)
        vf_join(t[i]);
    if (gStopper >= 3 && gStopper <= 5)
      DoStop(gStopper - 3);
    tp->Wait();
    CHECK(vf_g_get(gRunning) == 0, "a job was still running when Wait returned");
    vf_g_set(gWaited, 1);
    CHECK(!tp->Alive(), "alive after it was stopped and waited for");
    for (int i = early ? 0 : ns; i < nt; ++i)
      vf_join(t[i]);
    // after Wait everything is Dropped at once
    gNest = 0;
    gStopper = 99;
    MyJob late;
    late.id = kMax - 1;
    tp->Submit(late);
    CHECK(vf_g_get(gDropped + kMax - 1) == 1, "a job submitted after Wait was not Dropped");
    tp = nullptr;
  }
  for (int i = 0; i < k; ++i) {
    bool submitted = vf_g_get(gSubRet) >> i & 1;
    CHECK(vf_g_get(gCalled + i) + vf_g_get(gDropped + i) == (submitted ? 1 : 0), "a job was neither Called nor Dropped");
    if (vf_g_get(gCalled + i))
      CHECK(gOut[i] == gWord[i] + 1, "what a job wrote is not seen after Wait");
    vf_reach(vf_g_get(gCalled + i) ? "called" : "dropped");
  }
  int how = vf_param(2);
  if (how == 3 || how == 4)
    for (int i = 0; i < cnt[0] + cnt[1]; ++i)
      CHECK(vf_g_get(gCalled + i) == 1, "Stop/SoftStop lost a job accepted before it");
  if (nested && (how == 4 || how == 7 || how == 1) && vf_g_get(gCalled))
    CHECK(vf_g_get(gCalled + nested) == 1, "SoftStop stopped the pool while a job was running");
  vf_reach("end");
}
