#include "simsched.h"

#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <atomic>

namespace sim {

thread_local bool t_active = false;
thread_local int t_tid = 0;
thread_local uintptr_t t_pc = 0;
VC g_vc[kMaxThreads];
bool g_threads_running = false;

namespace {
enum State { kRunnable, kBlocked, kDone };
constexpr int64_t kFairSteps = 20000;
constexpr int64_t kLivelockSteps = 60000000;
Counter n_switch("event.thread-switch"), n_pre("fault.preempted-at-access"), n_syncpre("fault.preempted-at-sync"),
    n_block("event.lock-contention"), n_stall("fault.thread-stalled-mid-operation"), n_fair("event.fair-switch");

struct Th {
  std::atomic<int> go{0};
  State st = kDone;
  const void* obj = nullptr;
  int op = 0;
  int64_t steps = 0, syncs = 0, since = 0;
  int64_t limit = kLivelockSteps;          // steps by which the current call has to be over
  int64_t next_step = -1, next_sync = -1;  // armed preemption points of this op
  int next_step_to = 0, next_sync_to = 0;
  size_t pre_i = 0;
  uintptr_t pc = 0;  // where it was switched away (0: between operations)
  pthread_t h;
};
Th g_th[kMaxThreads];
int g_n = 0, g_cur = 0, g_exited = 0;
const SchedPlan* g_plan = nullptr;
size_t g_order_i = 0;
int64_t g_ops_done = 0;
uint64_t g_tags = 0;
const std::function<bool(int, int)>* g_body = nullptr;

void Wait(int t) {
  while (g_th[t].go.load(std::memory_order_acquire) == 0)
    syscall(SYS_futex, &g_th[t].go, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  g_th[t].go.store(0, std::memory_order_relaxed);
}
void Wake(int t) {
  g_th[t].go.store(1, std::memory_order_release);
  syscall(SYS_futex, &g_th[t].go, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
int NextRunnable(int from) {  // round robin, excluding `from` unless it is the only one
  for (int i = 1; i <= g_n; ++i) {
    int t = (from - 1 + i + g_n) % g_n + 1;
    if (g_th[t].st == kRunnable) return t;
  }
  return 0;
}
[[noreturn]] void Deadlock() {
  int nb = 0;
  for (int i = 1; i <= g_n; ++i) nb += g_th[i].st == kBlocked;
  Violate(g_tags, "deadlock", "%d simulated threads wait for locks and none can run", nb);
}
void SwitchTo(int to) {
  int me = t_tid;
  if (to == me) return;
  n_switch++;
  Ev(0x5217c4, to, g_th[me].steps);
  g_th[me].pc = t_pc;
  Cov(Mix(0x9c, Mix(t_pc, g_th[to].pc)));  // (where preempted, where resumed)
  g_cur = to;
  g_th[to].since = 0;
  Wake(to);
  if (g_th[me].st != kDone) Wait(me);
}
void ArmNext(int t) {
  Th& h = g_th[t];
  h.next_step = h.next_sync = -1;
  for (auto& p : g_plan->pre) {
    if (p.t != t || p.op != h.op) continue;
    int64_t cur = p.sync ? h.syncs : h.steps;
    if (p.at <= cur) continue;
    int64_t& slot = p.sync ? h.next_sync : h.next_step;
    if (slot < 0 || p.at < slot) { slot = p.at; (p.sync ? h.next_sync_to : h.next_step_to) = p.to; }
  }
}
void* Body(void* arg) {
  int t = static_cast<int>(reinterpret_cast<intptr_t>(arg));
  t_tid = t;
  Wait(t);
  Th& h = g_th[t];
  for (h.op = 0;; ++h.op) {
    h.steps = h.syncs = 0; h.limit = kLivelockSteps;
    ArmNext(t);
    if (!(*g_body)(t, h.op)) break;
    ++g_ops_done;
    int to = 0;
    while (g_order_i < g_plan->order.size()) {
      int c = g_plan->order[g_order_i++];
      if (c >= 1 && c <= g_n && g_th[c].st == kRunnable) { to = c; break; }
    }
    if (!to) to = NextRunnable(t);
    t_pc = 0;
    if (to && to != t) SwitchTo(to);
  }
  h.st = kDone;
  g_exited = t;
  Wake(0);  // the main thread joins this one before anything else runs
  return nullptr;
}
void PreemptTo(int to, Counter& c) {
  if (to < 1 || to > g_n || g_th[to].st != kRunnable || to == t_tid) to = NextRunnable(t_tid);
  if (!to || to == t_tid) return;
  c++;
  bool act = t_active; t_active = false;
  { InHarness ih;
    int64_t before = g_ops_done;
    SwitchTo(to);
    if (g_ops_done - before >= 3) n_stall++;
  }
  t_active = act;
}
}  // namespace

void CallBegins(int64_t bytes) {
  if (g_threads_running) g_th[t_tid].limit = g_th[t_tid].steps + kLivelockSteps + bytes * 5000;
}

uint64_t ThreadTags() { return g_tags ? g_tags : ~0ull; }
void ThreadFail(const char* cls, const char* msg) { Violate(ThreadTags(), cls, "%s", msg); }

void HbRelease(VC* v) { v->Join(g_vc[t_tid]); g_vc[t_tid].c[t_tid]++; }
void HbAcquire(const VC* v) { g_vc[t_tid].Join(*v); }

void StepPoint() {
  if (!g_threads_running) return;
  Th& h = g_th[t_tid];
  ++h.steps;
  if (h.steps == h.next_step) {
    int to = h.next_step_to;
    ArmNext(t_tid);
    PreemptTo(to, n_pre);
    ArmNext(t_tid);
  } else if (++h.since > kFairSteps) {
    h.since = 0;
    if (h.steps > h.limit)
      Violate(g_tags, "livelock", "thread %d: operation %d does not finish although every thread keeps running", t_tid, h.op);
    PreemptTo(NextRunnable(t_tid), n_fair);
  }
}
void SyncPoint() {
  if (!g_threads_running) return;
  Th& h = g_th[t_tid];
  ++h.syncs;
  if (h.syncs == h.next_sync) {
    int to = h.next_sync_to;
    ArmNext(t_tid);
    PreemptTo(to, n_syncpre);
    ArmNext(t_tid);
  }
  StepPoint();
}
void YieldPoint() {
  if (!g_threads_running) return;
  Th& h = g_th[t_tid];
  h.steps += 100;
  if (h.steps > h.limit)
    Violate(g_tags, "livelock", "thread %d: operation %d keeps yielding and does not finish", t_tid, h.op);
  ArmNext(t_tid);
  PreemptTo(NextRunnable(t_tid), n_fair);
}
void BlockOn(const void* obj) {
  if (!g_threads_running) Violate(ThreadTags(), "deadlock", "a lock that is already held is taken again on the same thread");
  Th& h = g_th[t_tid];
  h.st = kBlocked; h.obj = obj;
  n_block++;
  int to = NextRunnable(t_tid);
  if (!to) Deadlock();
  bool act = t_active; t_active = false;
  { InHarness ih; SwitchTo(to); }
  t_active = act;
}
void WakeAll(const void* obj) {
  for (int i = 1; i <= g_n; ++i)
    if (g_th[i].st == kBlocked && g_th[i].obj == obj) { g_th[i].st = kRunnable; g_th[i].obj = nullptr; }
}

void ThreadsRun(int n, const SchedPlan& plan, uint64_t tags, const std::function<bool(int, int)>& body) {
  static bool pinned = false;
  if (!pinned) {
    pinned = true;
    cpu_set_t cs; CPU_ZERO(&cs);
    int c = sched_getcpu();
    if (c >= 0) { CPU_SET(c, &cs); sched_setaffinity(0, sizeof cs, &cs); }
  }
  if (n < 1) return;
  if (n > kMaxThreads - 1) n = kMaxThreads - 1;
  g_n = n; g_plan = &plan; g_order_i = 0; g_tags = tags; g_body = &body; g_ops_done = 0;
  constexpr size_t kStack = 1 << 20;
  constexpr uintptr_t kStackBase = 0x200000000000ull;
  for (int i = 1; i <= n; ++i) {
    Th& h = g_th[i];
    h.go.store(0); h.st = kRunnable; h.obj = nullptr; h.op = 0; h.pc = 0; h.steps = h.syncs = h.since = 0;
    g_vc[i].Join(g_vc[0]);
    g_vc[i].c[i]++;
    pthread_attr_t at; pthread_attr_init(&at);
    void* stk = reinterpret_cast<void*>(kStackBase + static_cast<uintptr_t>(i) * 2 * kStack);
    static bool mapped[kMaxThreads];
    if (!mapped[i]) {
      mapped[i] = true;
      if (mmap(stk, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED)
        HarnessError("stack mmap");
    }
    pthread_attr_setstack(&at, stk, kStack);
    if (pthread_create(&h.h, &at, Body, reinterpret_cast<void*>(static_cast<intptr_t>(i))) != 0) HarnessError("pthread_create");
    pthread_attr_destroy(&at);
  }
  g_vc[0].c[0]++;
  g_th[0].st = kDone;
  g_th[0].go.store(0);
  int first = 1;
  while (g_order_i < plan.order.size()) {
    int c = plan.order[g_order_i++];
    if (c >= 1 && c <= n) { first = c; break; }
  }
  g_threads_running = true;
  g_cur = first;
  Wake(first);
  for (int left = n; left > 0; --left) {
    Wait(0);
    int t = g_exited;
    pthread_join(g_th[t].h, nullptr);
    if (left == 1) break;
    int to = NextRunnable(t);
    if (!to) Deadlock();
    g_cur = to; g_th[to].since = 0;
    Wake(to);
  }
  g_threads_running = false;
  g_cur = 0;
  for (int i = 1; i <= n; ++i) g_vc[0].Join(g_vc[i]);
}

}  // namespace sim
