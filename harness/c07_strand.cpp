// C07: Strand. params: underlying executor, submission pattern, how the executor ends, main keeps the strand (0/1), job form.
#include "vf_util.h"
#include <yaclib/exe/manual.hpp>
#include <yaclib/exe/strand.hpp>
#include <yaclib/exe/submit.hpp>
#include <yaclib/runtime/fair_thread_pool.hpp>
#include <yaclib/util/helper.hpp>
using namespace yaclib;

enum : unsigned { gCalled = 0, gDropped = 8, gSubmitted = 16, gBefore = 17, gInside = 25, gBegun = 26, gRan = 27, gOrder = 48, gExe = 30 };
constexpr int kMax = 6;
static uint32_t gData;           // plain: every job reads and writes it
static uint32_t gWord[kMax];     // what job i adds
static int gForm, gNest;         // gNest: id submitted from inside job 0, or 0
static IExecutor* gStrand;
static IExecutor* gPark;         // jobs may hop to this executor to lengthen their body
static bool gOrdered = true;

static void Body(int id) {
  CHECK(vf_g_add(gInside, 1) == 1, "two jobs of one strand run at the same time");
  CHECK(vf_g_add(gCalled + id, 1) == 1, "a job was Called twice");
  CHECK(vf_g_get(gDropped + id) == 0, "a job was Called and Dropped");
  uint64_t before = vf_g_get(gBefore + id);
  for (int i = 0; i < kMax; ++i)
    if (before >> i & 1)
      CHECK(vf_g_get(gCalled + i) + vf_g_get(gDropped + i) == 1, "a job ran before one whose submission had returned earlier");
  gData = gData * 31 + gWord[id];
  vf_g_set(gOrder + vf_g_add(gRan, 1) - 1, id);
  vf_yield();
  CHECK(vf_g_get(gInside) == 1, "two jobs of one strand run at the same time");
  vf_g_add(gInside, ~0ull);
}
static void Dropped(int id) {
  CHECK(vf_g_add(gDropped + id, 1) == 1, "a job was Dropped twice");
  CHECK(vf_g_get(gCalled + id) == 0, "a job was Called and Dropped");
}
static void SubmitJob(int id);
struct MyJob final : Job {
  int id = 0;
  void Call() noexcept final {
    int i = id;
    next = reinterpret_cast<Node*>(1);  // a job may reuse its node as soon as it is Called
    Body(i);
    if (i == 0 && gNest)
      SubmitJob(gNest);
  }
  void Drop() noexcept final {
    next = reinterpret_cast<Node*>(1);
    Dropped(id);
  }
};
static MyJob gJobs[kMax];
// a functor job: Dropped = destroyed without having been called
struct Fn {
  int id;
  bool live = true, ran = false;
  explicit Fn(int i) : id{i} {
  }
  Fn(Fn&& o) noexcept : id{o.id}, ran{o.ran} {
    o.live = false;
  }
  ~Fn() {
    if (live && !ran)
      Dropped(id);
  }
  void operator()() {
    ran = true;
    Body(id);
    if (id == 0 && gNest)
      SubmitJob(gNest);
  }
};
static void SubmitJob(int id) {
  vf_g_set(gBefore + id, vf_g_get(gSubmitted));
  if (gForm == 0) {
    gJobs[id].id = id;
    gStrand->Submit(gJobs[id]);
  } else {
    Submit(*gStrand, Fn{id});
  }
  vf_g_set(gSubmitted, vf_g_get(gSubmitted) | 1u << id);
}

extern "C" void vf_main() {
  int ex = vf_param(0), pat = vf_param(1), stop = vf_param(2), keep = vf_param(3);
  gForm = vf_param(4);
  gNest = 0;
  int k = 0, cnt[3] = {0, 0, 0};
  switch (pat) {
    case 0: cnt[0] = 1; cnt[1] = 1; break;
    case 1: cnt[0] = 2; cnt[1] = 1; break;
    case 2: cnt[0] = 2; cnt[1] = 2; break;
    case 3: cnt[0] = cnt[1] = cnt[2] = 1; break;
    case 4: cnt[0] = 3; break;
    case 5: cnt[0] = 1; cnt[1] = 1; gNest = 2; break;
    case 6: cnt[0] = 1; cnt[1] = 2; gNest = 3; break;
    case 7: cnt[0] = 4; cnt[1] = 1; break;
    case 8: cnt[0] = 2; cnt[1] = 1; cnt[2] = 1; break;
  }
  k = cnt[0] + cnt[1] + cnt[2] + (gNest ? 1 : 0);
  for (int i = 0; i < k; ++i)
    gWord[i] = vf_nondet(32);
  bool refuses = ex == 7 || ex == 8 || ex == 10;
  uint64_t r = refuses ? vf_choose(3) : ~0ull;
  InExec in{gExe, r};
  SpawnExec sp{gExe, r};
  {
    IntrusivePtr<FairThreadPool> tp;
    IExecutorPtr base, strand;
    IntrusivePtr<ManualExecutor> man;
    switch (ex) {
      case 0: case 7: base = IExecutorPtr{&in}; break;
      case 1: case 8: base = IExecutorPtr{&sp}; break;
      case 2: case 3: case 6: base = tp = MakeFairThreadPool(ex == 3 ? 2 : 1); break;
      case 4: base = man = MakeShared<ManualExecutor>(1); break;
      case 5: case 10: base = IExecutorPtr{&sp}; break;
      case 9: base = IExecutorPtr{&in}; break;
    }
    if (ex == 5 || ex == 6 || ex == 9 || ex == 10)
      base = MakeStrand(std::move(base));
    CHECK(base->Alive() == (r != 0), "executor under the strand not as expected");
    strand = MakeStrand(base);
    base = nullptr;
    CHECK(strand->Tag() == IExecutor::Type::Strand, "wrong tag");
    CHECK(strand->Alive() == (r != 0), "a strand's Alive differs from its executor's");
    IExecutorPtr own[3] = {strand, strand, strand};
    gStrand = strand.Get();
    if (!keep)
      strand = nullptr;
    auto run = [&](int s) {
      int id = 0;
      for (int i = 0; i < s; ++i)
        id += cnt[i];
      for (int i = 0; i < cnt[s]; ++i)
        SubmitJob(id + i);
      own[s] = nullptr;
    };
    auto f0 = [&] { run(0); };
    auto f1 = [&] { run(1); };
    auto f2 = [&] { run(2); };
    auto st = [&] {
      if (stop == 1)
        tp->Stop();
      else if (stop == 2)
        tp->HardStop();
      else
        tp->SoftStop();
    };
    int t[4], nt = 0;
    // a nested submission goes through own[2]'s reference
    if (!gNest && !cnt[2])
      own[2] = nullptr;
    if (!cnt[1])
      own[1] = nullptr;
    if (man) {
      run(0);
      if (vf_choose(2))
        (void)man->Drain();
      if (cnt[1])
        run(1);
      if (cnt[2])
        run(2);
    } else {
      t[nt++] = Spawn(f0);
      if (cnt[1])
        t[nt++] = Spawn(f1);
      if (cnt[2])
        t[nt++] = Spawn(f2);
    }
    if (stop && tp)
      t[nt++] = Spawn(st);
    for (int i = 0; i < nt; ++i)
      vf_join(t[i]);
    if (ex == 1 || ex == 8 || ex == 5 || ex == 10)
      sp.JoinAll();
    if (man)
      while (man->Drain() != 0) {
      }
    if (tp) {
      if (stop != 1 && stop != 2)
        tp->SoftStop();
      tp->Wait();
    }
    own[2] = nullptr;
  }
  if (gNest && !vf_g_get(gCalled))
    --k;  // never submitted
  for (int i = 0; i < k; ++i)
    CHECK(vf_g_get(gCalled + i) + vf_g_get(gDropped + i) == 1, "a job was neither Called nor Dropped");
  if (!refuses && !stop)
    for (int i = 0; i < k; ++i)
      CHECK(vf_g_get(gCalled + i) == 1, "a job was Dropped although the underlying executor never refused");
  uint32_t want = 0;
  for (unsigned i = 0; i < vf_g_get(gRan); ++i)
    want = want * 31 + gWord[vf_g_get(gOrder + i)];
  CHECK(gData == want, "a write made by one job was not seen by the next");
  vf_reach("end");
}
