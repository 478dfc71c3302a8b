// Runtime behind clang's -fsanitize=thread instrumentation: every access of the
// code under test to shared memory is a possible preemption point and is
// checked against a vector-clock happens-before model. Compiled without
// instrumentation; the stock ThreadSanitizer runtime is not linked.
#include <sys/mman.h>

#include "simsched.h"

namespace sim {
namespace {
constexpr uintptr_t kArenaBase = 0x100000000000ull;
constexpr size_t kArenaSize = 1ull << 36;
constexpr int kPageShift = 14;  // 16 KiB pages, 8-byte granules
constexpr size_t kGranPerPage = (1u << kPageShift) / 8;

// plain read, plain write, atomic read, atomic write
struct Acc { uint32_t clk; uint32_t pc; };
struct Full {  // granule touched by several threads
  Acc a[4][kMaxThreads];
  uint8_t m[4][kMaxThreads];
  uint32_t next;  // free list
};
struct Gran {
  uint32_t full;  // index of a Full, 0 while only `owner` touched the granule
  uint8_t owner;  // thread + 1, 0 untouched
  uint8_t sync;   // a synchronisation object lives here
  uint8_t m[4];
  Acc a[4];
};
Full* g_full = nullptr;
uint32_t g_full_n = 0, g_full_free = 0;
constexpr size_t kFullMax = 1 << 24;
Gran** g_pages = nullptr;   // arena
Gran** g_gpages = nullptr;  // globals
extern "C" char __data_start[];
extern "C" char _end[];
Counter n_acc("event.shared-access"), n_sync("event.sync-op");

inline Gran* PageOf(Gran*** table, size_t idx, size_t n) {
  if (!*table) {
    void* p = mmap(nullptr, n * sizeof(Gran*), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) HarnessError("shadow mmap");
    *table = static_cast<Gran**>(p);
  }
  Gran*& pg = (*table)[idx];
  if (!pg) {
    void* p = mmap(nullptr, kGranPerPage * sizeof(Gran), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) HarnessError("shadow mmap");
    pg = static_cast<Gran*>(p);
  }
  return pg;
}
inline bool IsArena(uintptr_t a) { return a - kArenaBase < kArenaSize; }
inline bool IsGlobal(uintptr_t a) { return a >= reinterpret_cast<uintptr_t>(__data_start) && a < reinterpret_cast<uintptr_t>(_end); }
inline Gran* Lookup(uintptr_t a) {
  if (IsArena(a)) {
    size_t off = a - kArenaBase;
    return PageOf(&g_pages, off >> kPageShift, kArenaSize >> kPageShift) + (off >> 3) % kGranPerPage;
  }
  if (IsGlobal(a)) {
    size_t off = a - (reinterpret_cast<uintptr_t>(__data_start) & ~uintptr_t(7));
    return PageOf(&g_gpages, off >> kPageShift, 4096) + (off >> 3) % kGranPerPage;
  }
  return nullptr;
}
const char* Kind(int k) { return k == 0 ? "read" : k == 1 ? "write" : k == 2 ? "atomic read" : "atomic write"; }
[[noreturn]] void Race(uintptr_t a, int k, uintptr_t pc, int other, int ok, uint32_t opc) {
  Violate(ThreadTags(), "data-race",
          "%s of %s memory by thread %d at pc=0x%llx is not ordered with the %s by thread %d at pc=0x%x",
          Kind(k), IsArena(a) ? "heap" : "global", t_tid, (unsigned long long)pc, Kind(ok), other, opc);
}
uint32_t NewFull() {
  if (g_full_free) { uint32_t i = g_full_free; g_full_free = g_full[i].next; memset(&g_full[i], 0, sizeof(Full)); return i; }
  if (!g_full) {
    void* p = mmap(nullptr, kFullMax * sizeof(Full), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) HarnessError("shadow mmap");
    g_full = static_cast<Full*>(p);
  }
  if (++g_full_n >= kFullMax) HarnessError("shadow full");
  return g_full_n;
}
inline void ClearGran(Gran* g) {
  if (g->full) { g_full[g->full].next = g_full_free; g_full_free = g->full; }
  memset(g, 0, sizeof *g);
}
inline void CheckGran(Gran* gr, uintptr_t a, uint8_t mask, int k, uintptr_t pc) {
  int me = t_tid;
  const VC& vc = g_vc[me];
  uint32_t clk = vc.c[me];
  if (!gr->full) {
    if (!gr->owner) gr->owner = static_cast<uint8_t>(me + 1);
    if (gr->owner == me + 1) {
      Acc& r = gr->a[k];
      if (r.clk == clk) gr->m[k] |= mask;
      else { r.clk = clk; gr->m[k] = mask; }
      r.pc = static_cast<uint32_t>(pc);
      return;
    }
    uint32_t i = NewFull();
    for (int kk = 0; kk < 4; ++kk) { g_full[i].a[kk][gr->owner - 1] = gr->a[kk]; g_full[i].m[kk][gr->owner - 1] = gr->m[kk]; }
    gr->full = i;
  }
  Full* g = &g_full[gr->full];
  // which kinds conflict with mine
  static const uint8_t conf[4] = {0b1010, 0b1111, 0b0010, 0b0011};
  uint8_t c = conf[k];
  for (int kk = 0; kk < 4; ++kk) {
    if (!(c & (1 << kk))) continue;
    uint64_t row;
    memcpy(&row, g->m[kk], 8);
    if (!row) continue;
    for (int t = 0; t < kMaxThreads; ++t) {
      if (t == me || !(g->m[kk][t] & mask)) continue;
      if (g->a[kk][t].clk > vc.c[t]) Race(a, k, pc, t, kk, g->a[kk][t].pc);
    }
  }
  Acc& r = g->a[k][me];
  if (r.clk == clk) g->m[k][me] |= mask;
  else { r.clk = clk; g->m[k][me] = mask; }
  r.pc = static_cast<uint32_t>(pc);
}
void Range(uintptr_t a, size_t n, int k, uintptr_t pc) {
  while (n) {
    size_t in = 8 - (a & 7);
    size_t l = n < in ? n : in;
    uint8_t mask = static_cast<uint8_t>(((1u << l) - 1) << (a & 7));
    if (Gran* g = Lookup(a)) CheckGran(g, a, mask, k, pc);
    a += l; n -= l;
  }
}
inline bool Shared(uintptr_t a) { return IsArena(a) || IsGlobal(a); }
inline void Access(const void* p, size_t n, int k, uintptr_t pc) {
  // set-up and tear-down are ordered with every thread by start and join
  if (!t_active || !g_threads_running) return;
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  if (!n || !Shared(a)) return;
  t_pc = pc;
  StepPoint();
  n_acc++;
  Range(a, n, k, pc);
}

// ----------------------------------------------------------- sync objects --
struct SyncObj {
  uintptr_t addr;  // 0 empty, 1 deleted
  VC rel;
  int owner;     // exclusive holder (tid + 1)
  int readers;
};
constexpr size_t kSync = 1 << 14;
SyncObj g_sync[kSync];
size_t g_sync_n = 0;
SyncObj* Sync(const void* p, bool create = true) {
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  size_t i = (a >> 2) * 0x9e3779b97f4a7c15ull >> 50;
  SyncObj* del = nullptr;
  for (size_t k = 0; k < kSync; ++k, i = (i + 1) % kSync) {
    SyncObj& s = g_sync[i];
    if (s.addr == a) return &s;
    if (s.addr == 1 && !del) del = &s;
    if (s.addr == 0) {
      if (!create) return nullptr;
      SyncObj* o = del ? del : &s;
      o->addr = a; o->rel.Clear(); o->owner = 0; o->readers = 0;
      if (IsArena(a)) Lookup(a)->sync = 1;
      if (++g_sync_n > kSync - 64) HarnessError("too many synchronisation objects");
      return o;
    }
  }
  HarnessError("synchronisation table full");
}
VC g_fence_rel[kMaxThreads], g_fence_acq[kMaxThreads];
VC g_seq_cst_fence;
}  // namespace

// relaxed 0, consume 1, acquire 2, release 3, acq_rel 4, seq_cst 5
static inline bool IsAcq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool IsRel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

static void AtomPre(const volatile void* p, size_t n, bool write, uintptr_t pc) {
  n_sync++;
  t_pc = pc;
  SyncPoint();
  Range(reinterpret_cast<uintptr_t>(p), n, write ? 3 : 2, pc);
}
static void AtomLoadHb(const volatile void* p, int mo) {
  SyncObj* s = Sync(const_cast<const void*>(p), false);
  if (!s) return;
  if (IsAcq(mo)) g_vc[t_tid].Join(s->rel);
  else g_fence_acq[t_tid].Join(s->rel);
}
static void AtomStoreHb(const volatile void* p, int mo) {
  SyncObj* s = Sync(const_cast<const void*>(p), IsRel(mo) || true);
  s->rel = g_fence_rel[t_tid];  // replaces: a plain store ends earlier release sequences
  if (IsRel(mo)) { s->rel.Join(g_vc[t_tid]); g_vc[t_tid].c[t_tid]++; }
}
static void AtomRmwHb(const volatile void* p, int mo) {
  SyncObj* s = Sync(const_cast<const void*>(p));
  VC in = s->rel;
  s->rel.Join(g_fence_rel[t_tid]);
  if (IsRel(mo)) s->rel.Join(g_vc[t_tid]);
  if (IsAcq(mo)) g_vc[t_tid].Join(in); else g_fence_acq[t_tid].Join(in);
  if (IsRel(mo)) g_vc[t_tid].c[t_tid]++;
}

// ----------------------------------------------------------------- locks ---
void LockEx(const void* m) {
  SyncPoint(); n_sync++;
  for (;;) {
    SyncObj* s = Sync(m);
    if (!s->owner && !s->readers) { s->owner = t_tid + 1; g_vc[t_tid].Join(s->rel); return; }
    if (s->owner == t_tid + 1) Violate(ThreadTags(), "deadlock", "thread %d takes a lock it already holds", t_tid);
    BlockOn(m);
  }
}
bool TryLockEx(const void* m) {
  SyncPoint(); n_sync++;
  SyncObj* s = Sync(m);
  if (s->owner || s->readers) return false;
  s->owner = t_tid + 1; g_vc[t_tid].Join(s->rel);
  return true;
}
void UnlockEx(const void* m) {
  n_sync++;
  SyncObj* s = Sync(m);
  s->owner = 0;
  s->rel.Join(g_vc[t_tid]); g_vc[t_tid].c[t_tid]++;
  WakeAll(m);
  SyncPoint();
}
void LockSh(const void* m) {
  SyncPoint(); n_sync++;
  for (;;) {
    SyncObj* s = Sync(m);
    if (!s->owner) { s->readers++; g_vc[t_tid].Join(s->rel); return; }
    if (s->owner == t_tid + 1) Violate(ThreadTags(), "deadlock", "thread %d takes a lock it already holds", t_tid);
    BlockOn(m);
  }
}
bool TryLockSh(const void* m) {
  SyncPoint(); n_sync++;
  SyncObj* s = Sync(m);
  if (s->owner) return false;
  s->readers++; g_vc[t_tid].Join(s->rel);
  return true;
}
void UnlockSh(const void* m) {  // readers are made ordered with later readers too: conservative (never a false race)
  n_sync++;
  SyncObj* s = Sync(m);
  if (s->readers) s->readers--;
  s->rel.Join(g_vc[t_tid]); g_vc[t_tid].c[t_tid]++;
  WakeAll(m);
  SyncPoint();
}
bool UnlockAny(const void* m) {
  SyncObj* s = Sync(m);
  if (s->owner) UnlockEx(m); else UnlockSh(m);
  return true;
}
void SyncForget(uintptr_t a, size_t n) {
  if (!g_sync_n || !IsArena(a) || !g_pages) return;
  for (uintptr_t q = a & ~uintptr_t(7); q < a + n;) {
    Gran* pg = g_pages[(q - kArenaBase) >> kPageShift];
    if (!pg) { q = ((q >> kPageShift) + 1) << kPageShift; continue; }
    Gran& g = pg[((q - kArenaBase) >> 3) % kGranPerPage];
    if (g.sync) {
      g.sync = 0;
      for (uintptr_t p = q; p < q + 8; ++p)
        if (SyncObj* s = Sync(reinterpret_cast<const void*>(p), false)) { s->addr = 1; --g_sync_n; }
    }
    q += 8;
  }
}
VC* SyncVC(const void* p) { return &Sync(p)->rel; }
void HbAcqObj(const void* p) { g_vc[t_tid].Join(Sync(p)->rel); }
void HbRelObj(const void* p) { Sync(p)->rel.Join(g_vc[t_tid]); g_vc[t_tid].c[t_tid]++; }

}  // namespace sim

using namespace sim;

extern "C" {
void sim_on_alloc(void* p, size_t n) {
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  if (!IsArena(a)) return;
  // Clear whole granules; blocks are 16-byte aligned.
  size_t g = (n + 7) / 8;
  size_t off = (a - kArenaBase) >> 3;
  while (g) {
    size_t pg = off / kGranPerPage, in = off % kGranPerPage;
    size_t l = kGranPerPage - in; if (l > g) l = g;
    if (g_pages && g_pages[pg]) for (size_t i = 0; i < l; ++i) { Gran* gr = g_pages[pg] + in + i; if (gr->owner || gr->sync) ClearGran(gr); }
    off += l; g -= l;
  }
}
void sim_on_free(void* p, size_t n) {
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  if (t_active && g_threads_running) Range(a, n ? n : 1, 1, reinterpret_cast<uintptr_t>(__builtin_return_address(1)));
  SyncForget(a, n);
}
#define PC reinterpret_cast<uintptr_t>(__builtin_return_address(0))
// absl annotates its mutexes; the wrapped operations model them instead.
void __tsan_mutex_create(void*, unsigned) {}
void __tsan_mutex_destroy(void*, unsigned) {}
void __tsan_mutex_pre_lock(void*, unsigned) {}
void __tsan_mutex_post_lock(void*, unsigned, int) {}
int __tsan_mutex_pre_unlock(void*, unsigned) { return 0; }
void __tsan_mutex_post_unlock(void*, unsigned) {}
void __tsan_mutex_pre_signal(void*, unsigned) {}
void __tsan_mutex_post_signal(void*, unsigned) {}
void __tsan_mutex_pre_divert(void*, unsigned) {}
void __tsan_mutex_post_divert(void*, unsigned) {}
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
  void __tsan_read##n(void* p) { Access(p, n, 0, PC); } \
  void __tsan_write##n(void* p) { Access(p, n, 1, PC); } \
  void __tsan_read_write##n(void* p) { Access(p, n, 1, PC); } \
  void __tsan_volatile_read##n(void* p) { Access(p, n, 0, PC); } \
  void __tsan_volatile_write##n(void* p) { Access(p, n, 1, PC); } \
  void __tsan_unaligned_read##n(void* p) { Access(p, n, 0, PC); } \
  void __tsan_unaligned_write##n(void* p) { Access(p, n, 1, PC); } \
  void __tsan_unaligned_read_write##n(void* p) { Access(p, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { Access(p, n, 0, PC); }
void __tsan_write_range(void* p, size_t n) { Access(p, n, 1, PC); }
void __tsan_vptr_update(void** p, void*) { Access(p, 8, 1, PC); }
void __tsan_vptr_read(void** p) { Access(p, 8, 0, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { Access(s, n, 0, PC); Access(d, n, 1, PC); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { Access(s, n, 0, PC); Access(d, n, 1, PC); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { Access(d, n, 1, PC); return memset(d, c, n); }

#define ATOM(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* a, int mo) { \
    if (t_active) { AtomPre(a, sizeof(T), false, PC); AtomLoadHb(a, mo); } return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { \
    if (t_active) { AtomPre(a, sizeof(T), true, PC); AtomStoreHb(a, mo); } __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { \
    if (t_active) { AtomPre(a, sizeof(T), true, PC); AtomRmwHb(a, mo); } return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { \
    if (t_active) { AtomPre(a, sizeof(T), true, PC); AtomRmwHb(a, mo); } return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { \
    if (t_active) { AtomPre(a, sizeof(T), true, PC); AtomRmwHb(a, mo); } return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { \
    if (t_active) { AtomPre(a, sizeof(T), true, PC); AtomRmwHb(a, mo); } return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { \
    if (t_active) { AtomPre(a, sizeof(T), true, PC); AtomRmwHb(a, mo); } return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { \
    if (t_active) { AtomPre(a, sizeof(T), true, PC); AtomRmwHb(a, mo); } return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { \
    if (t_active) { AtomPre(a, sizeof(T), true, PC); AtomRmwHb(a, mo); } return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { \
    if (t_active) { \
      AtomPre(a, sizeof(T), *a == *c, PC); \
      if (*a == *c) AtomRmwHb(a, mo); else AtomLoadHb(a, fmo); } \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { \
    return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { \
    __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
  if (t_active) {
    SyncPoint();
    if (IsAcq(mo)) g_vc[t_tid].Join(g_fence_acq[t_tid]);
    if (mo == 5) { g_vc[t_tid].Join(g_seq_cst_fence); g_seq_cst_fence.Join(g_vc[t_tid]); }
    if (IsRel(mo)) { g_fence_rel[t_tid] = g_vc[t_tid]; g_vc[t_tid].c[t_tid]++; }
  }
  __atomic_thread_fence(__ATOMIC_SEQ_CST);
}
void __tsan_atomic_signal_fence(int) {}

// Reads by C library functions that the instrumentation does not see.
int __real_memcmp(const void*, const void*, size_t);
int __wrap_memcmp(const void* a, const void* b, size_t n) {
  if (t_active) { Access(a, n, 0, PC); Access(b, n, 0, PC); }
  return __real_memcmp(a, b, n);
}
void* __real_memchr(const void*, int, size_t);
void* __wrap_memchr(const void* a, int c, size_t n) {
  void* r = __real_memchr(a, c, n);
  if (t_active) Access(a, r ? static_cast<char*>(r) - static_cast<const char*>(a) + 1 : n, 0, PC);
  return r;
}
}
