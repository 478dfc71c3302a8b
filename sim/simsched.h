// Simulated threads: real OS threads of which exactly one runs at a time; who
// runs is decided by the plan at operation boundaries, at chosen memory
// accesses and at chosen synchronisation events.
#ifndef VERIF_SIM_SCHED_H_
#define VERIF_SIM_SCHED_H_
#include <functional>
#include <vector>

#include "core.h"

namespace sim {

constexpr int kMaxThreads = 8;  // 0 is the main (set-up and tear-down) thread

struct VC {
  uint32_t c[kMaxThreads] = {0};
  void Join(const VC& o) { for (int i = 0; i < kMaxThreads; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
  void Clear() { for (int i = 0; i < kMaxThreads; ++i) c[i] = 0; }
};

struct Preempt { int t, op, sync; int64_t at; int to; };
struct SchedPlan {
  std::vector<int> order;  // thread for each successive operation
  std::vector<Preempt> pre;
};

// The code under test is running on this simulated thread.
extern thread_local bool t_active;
extern thread_local int t_tid;
extern thread_local uintptr_t t_pc;  // instruction of the current shared access
extern VC g_vc[kMaxThreads];
extern bool g_threads_running;

struct Active {  // scope: call into the code under test
  InMut m; bool s; Active() : s(t_active) { t_active = true; } ~Active() { t_active = s; }
};
struct Inactive {
  InHarness m; bool s; Inactive() : s(t_active) { t_active = false; } ~Inactive() { t_active = s; }
};

// Happens-before edges made by the harness (publication of objects).
void HbRelease(VC* v);
void HbAcquire(const VC* v);

// Runs simulated threads 1..n; body(t, op) executes one operation and returns
// false when thread t has none left.
void ThreadsRun(int n, const SchedPlan& plan, uint64_t tags, const std::function<bool(int, int)>& body);

// A call into the code under test begins on this thread: it gets a livelock
// budget of its own, larger for larger input.
void CallBegins(int64_t bytes);

// Called from the instrumentation.
void StepPoint();
void SyncPoint();
void YieldPoint();
void BlockOn(const void* obj);   // until WakeAll(obj)
void WakeAll(const void* obj);
void ThreadFail(const char* cls, const char* msg);  // violation with the session's tags
uint64_t ThreadTags();
}  // namespace sim
#endif
