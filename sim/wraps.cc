// Blocking primitives of the code under test and of the libraries it links,
// redirected (ld --wrap) to simulated ones while a simulated thread runs it.
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>

#include <condition_variable>
#include <mutex>

#include "simsched.h"

namespace sim {
void LockEx(const void*);
bool TryLockEx(const void*);
void UnlockEx(const void*);
void LockSh(const void*);
bool TryLockSh(const void*);
void UnlockSh(const void*);
bool UnlockAny(const void*);
void HbAcqObj(const void*);
void HbRelObj(const void*);
}  // namespace sim
using namespace sim;
#define W(ret, name, decl, call, body) \
  extern "C" ret __real_##name decl; \
  extern "C" ret __wrap_##name decl { if (t_active) body return __real_##name call; }

W(int, pthread_mutex_lock, (pthread_mutex_t* m), (m), {
  // recursive mutexes: only the outermost acquisition is simulated
  if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE) {
    if (m->__data.__count > 0 && m->__data.__owner == t_tid + 1) { m->__data.__count++; return 0; }
    LockEx(m); m->__data.__count = 1; m->__data.__owner = t_tid + 1; return 0;
  }
  LockEx(m); return 0; })
W(int, pthread_mutex_trylock, (pthread_mutex_t* m), (m), {
  if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE) {
    if (m->__data.__count > 0 && m->__data.__owner == t_tid + 1) { m->__data.__count++; return 0; }
    if (!TryLockEx(m)) return EBUSY;
    m->__data.__count = 1; m->__data.__owner = t_tid + 1; return 0;
  }
  return TryLockEx(m) ? 0 : EBUSY; })
W(int, pthread_mutex_unlock, (pthread_mutex_t* m), (m), {
  if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE) {
    if (--m->__data.__count > 0) return 0;
    m->__data.__owner = 0;
  }
  UnlockEx(m); return 0; })
W(int, pthread_rwlock_rdlock, (pthread_rwlock_t* m), (m), { LockSh(m); return 0; })
W(int, pthread_rwlock_wrlock, (pthread_rwlock_t* m), (m), { LockEx(m); return 0; })
W(int, pthread_rwlock_tryrdlock, (pthread_rwlock_t* m), (m), { return TryLockSh(m) ? 0 : EBUSY; })
W(int, pthread_rwlock_trywrlock, (pthread_rwlock_t* m), (m), { return TryLockEx(m) ? 0 : EBUSY; })
W(int, pthread_rwlock_unlock, (pthread_rwlock_t* m), (m), { UnlockAny(m); return 0; })
W(int, pthread_spin_lock, (pthread_spinlock_t* m), (m), { LockEx(const_cast<const int*>(m)); return 0; })
W(int, pthread_spin_trylock, (pthread_spinlock_t* m), (m), { return TryLockEx(const_cast<const int*>(m)) ? 0 : EBUSY; })
W(int, pthread_spin_unlock, (pthread_spinlock_t* m), (m), { UnlockEx(const_cast<const int*>(m)); return 0; })
W(int, sched_yield, (), (), { YieldPoint(); return 0; })
W(int, usleep, (useconds_t u), (u), { YieldPoint(); return 0; })
W(int, nanosleep, (const timespec* a, timespec* b), (a, b), { YieldPoint(); return 0; })
W(int, clock_nanosleep, (clockid_t c, int f, const timespec* a, timespec* b), (c, f, a, b), { YieldPoint(); return 0; })

// pthread_once: 0 fresh, 1 running (simulated), 2 done (glibc's own value for done)
extern "C" int __real_pthread_once(pthread_once_t*, void (*)());
extern "C" int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
  if (!t_active) return __real_pthread_once(o, f);
  SyncPoint();
  for (;;) {
    if (*o == 2) { HbAcqObj(o); return 0; }
    if (*o == 0) {
      *o = 1;
      try { f(); } catch (...) { *o = 0; HbRelObj(o); WakeAll(o); throw; }
      *o = 2;
      HbRelObj(o);
      WakeAll(o);
      return 0;
    }
    BlockOn(o);
  }
}
// Guards of function-local statics: byte 0 done, byte 1 in progress.
extern "C" int __real___cxa_guard_acquire(uint64_t*);
extern "C" void __real___cxa_guard_release(uint64_t*);
extern "C" void __real___cxa_guard_abort(uint64_t*);
extern "C" int __wrap___cxa_guard_acquire(uint64_t* g) {
  if (!t_active) return __real___cxa_guard_acquire(g);
  SyncPoint();
  unsigned char* b = reinterpret_cast<unsigned char*>(g);
  for (;;) {
    if (b[0]) { HbAcqObj(g); return 0; }
    if (!b[1]) { b[1] = 1; return 1; }
    BlockOn(g);
  }
}
extern "C" void __wrap___cxa_guard_release(uint64_t* g) {
  if (!t_active) { __real___cxa_guard_release(g); return; }
  unsigned char* b = reinterpret_cast<unsigned char*>(g);
  b[1] = 0; b[0] = 1;
  HbRelObj(g);
  WakeAll(g);
}
extern "C" void __wrap___cxa_guard_abort(uint64_t* g) {
  if (!t_active) { __real___cxa_guard_abort(g); return; }
  reinterpret_cast<unsigned char*>(g)[1] = 0;
  WakeAll(g);
}
// Condition variables.
W(int, pthread_cond_wait, (pthread_cond_t* c, pthread_mutex_t* m), (c, m), { UnlockEx(m); BlockOn(c); LockEx(m); return 0; })
W(int, pthread_cond_timedwait, (pthread_cond_t* c, pthread_mutex_t* m, const timespec* t), (c, m, t),
  { UnlockEx(m); YieldPoint(); LockEx(m); return ETIMEDOUT; })
W(int, pthread_cond_signal, (pthread_cond_t* c), (c), { WakeAll(c); return 0; })
W(int, pthread_cond_broadcast, (pthread_cond_t* c), (c), { WakeAll(c); return 0; })
#define WM(ret, name, decl, call, body) W(ret, name, decl, call, body)
using CV = std::condition_variable;
WM(void, _ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE, (CV* c, std::unique_lock<std::mutex>* l), (c, l),
   { const void* m = l->mutex()->native_handle(); UnlockEx(m); BlockOn(c); LockEx(m); return; })
WM(void, _ZNSt18condition_variable10notify_oneEv, (CV* c), (c), { WakeAll(c); return; })
WM(void, _ZNSt18condition_variable10notify_allEv, (CV* c), (c), { WakeAll(c); return; })
// libstdc++'s lock pool behind atomic operations on shared_ptr.
static char g_sp_lock;
W(void, _ZNSt10_Sp_lockerC1EPKv, (void* self, const void* p), (self, p), {
  reinterpret_cast<unsigned char*>(self)[0] = 0xfe; reinterpret_cast<unsigned char*>(self)[1] = 0xfe; LockEx(&g_sp_lock); return; })
W(void, _ZNSt10_Sp_lockerC1EPKvS1_, (void* self, const void* p, const void* q), (self, p, q), {
  reinterpret_cast<unsigned char*>(self)[0] = 0xfe; reinterpret_cast<unsigned char*>(self)[1] = 0xfe; LockEx(&g_sp_lock); return; })
W(void, _ZNSt10_Sp_lockerD1Ev, (void* self), (self), { UnlockEx(&g_sp_lock); return; })
// absl::Mutex.
W(void, _ZN4absl7debian35Mutex4LockEv, (void* m), (m), { LockEx(m); return; })
W(bool, _ZN4absl7debian35Mutex7TryLockEv, (void* m), (m), { return TryLockEx(m); })
W(void, _ZN4absl7debian35Mutex6UnlockEv, (void* m), (m), { UnlockEx(m); return; })
W(void, _ZN4absl7debian35Mutex10ReaderLockEv, (void* m), (m), { LockSh(m); return; })
W(bool, _ZN4absl7debian35Mutex13ReaderTryLockEv, (void* m), (m), { return TryLockSh(m); })
W(void, _ZN4absl7debian35Mutex12ReaderUnlockEv, (void* m), (m), { UnlockSh(m); return; })
W(void, _ZNK4absl7debian35Mutex10AssertHeldEv, (const void* m), (m), { return; })
W(void, _ZNK4absl7debian35Mutex16AssertReaderHeldEv, (const void* m), (m), { return; })
W(void, _ZNK4absl7debian35Mutex13AssertNotHeldEv, (const void* m), (m), { return; })
// absl::call_once and spin locks wait here.
extern "C" int __real_sched_yield();
extern "C" uint32_t
__wrap__ZN4absl7debian313base_internal12SpinLockWaitEPSt6atomicIjEiPKNS1_22SpinLockWaitTransitionENS1_14SchedulingModeE(
    uint32_t* w, int n, const uint32_t* tr, int) {
  for (;;) {
    uint32_t v = __atomic_load_n(w, __ATOMIC_ACQUIRE);
    int i = 0;
    for (; i < n && v != tr[3 * i]; ++i) {}
    if (i == n) { if (t_active) YieldPoint(); else __real_sched_yield(); continue; }
    uint32_t to = tr[3 * i + 1];
    if (to == v || __atomic_compare_exchange_n(w, &v, to, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {
      if (reinterpret_cast<const unsigned char*>(tr)[12 * i + 8]) { if (t_active) HbAcqObj(w); return v; }
    }
  }
}
extern "C" void __wrap_AbslInternalSpinLockWake_debian3(uint32_t*, bool) {}
