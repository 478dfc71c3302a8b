// operator new/delete of the simulator: failure injection, and (unless built
// with ASan) a deterministic arena with a chosen address-reuse policy.
#include <new>

#include <sys/mman.h>

#include "core.h"

namespace sim {
thread_local int g_mut_depth = 0;
static thread_local int64_t t_oom = 0;
static thread_local bool t_fired = false;
static uint64_t g_mut_allocs = 0;
static thread_local bool t_all = false;
void OomArm(int64_t k) { t_all = k < 0; t_oom = k < 0 ? -k : k; t_fired = false; }
bool OomDisarm() { t_oom = 0; t_all = false; bool f = t_fired; t_fired = false; return f; }
uint64_t MutAllocs() { return g_mut_allocs; }
static inline void MaybeFail() {
  if (g_mut_depth > 0) {
    ++g_mut_allocs;
    if (t_oom > 0 && (--t_oom == 0 || (t_fired && t_all))) {
      if (t_all) t_oom = 2;  // and every later one too
      t_fired = true;
      throw std::bad_alloc();
    }
  }
}
}  // namespace sim

#if defined(SIM_SYSTEM_MALLOC)
namespace sim { void AllocPolicy(int, int) {} void AllocFresh() {} void Live(int64_t* b, int64_t* n) { *b = *n = 0; } }
static inline void* Raw(size_t n) { return malloc(n ? n : 1); }
static inline void* RawAligned(size_t n, size_t a) {
  void* p = nullptr; if (posix_memalign(&p, a < sizeof(void*) ? sizeof(void*) : a, n ? n : 1)) return nullptr; return p;
}
static inline void Free(void* p) { free(p); }
#else
// Layout: 16-byte header {size class, size} before each block. Blocks larger
// than the biggest class go to malloc. The arena sits at a fixed address.
// Real threads run one at a time under the simulator, except start-up/exit.
namespace {
constexpr uintptr_t kBase = 0x100000000000ull;
constexpr size_t kArena = 1ull << 36;  // address space only
constexpr int kClasses = 40;
struct Node { Node* next; };
char* g_next = nullptr;
Node* g_free[kClasses];
Node* g_tail[kClasses];
int g_reuse = 0, g_fill = 0;
int64_t g_live_bytes = 0, g_live_blocks = 0;
bool g_init = false;
size_t ClassSize(int c) {  // 16,32,...,256 then powers of two and 1.5x
  if (c < 16) return 16u * (c + 1);
  size_t base = 256ull << ((c - 16) / 2 );
  return ((c - 16) & 1) ? base * 2 : base + base / 2;
}
int ClassOf(size_t n) {
  if (n <= 256) return n ? static_cast<int>((n + 15) / 16 - 1) : 0;
  for (int c = 16; c < kClasses; ++c) if (ClassSize(c) >= n) return c;
  return -1;
}
struct Hdr { uint32_t cls; uint32_t magic; uint64_t size; };
static_assert(sizeof(Hdr) == 16, "");
void Init() {
  void* p = mmap(reinterpret_cast<void*>(kBase), kArena, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p == MAP_FAILED) { fprintf(stderr, "arena mmap failed\n"); _Exit(78); }
  g_next = static_cast<char*>(p);
  g_init = true;
}
}  // namespace
extern "C" __attribute__((weak)) void sim_on_alloc(void*, size_t) {}
extern "C" __attribute__((weak)) void sim_on_free(void*, size_t) {}
namespace sim {
void Live(int64_t* bytes, int64_t* blocks) { *bytes = g_live_bytes; *blocks = g_live_blocks; }
void AllocPolicy(int reuse, int fill) { g_reuse = reuse; g_fill = fill; }
void AllocFresh() {
  if (!g_init) Init();
  g_next = reinterpret_cast<char*>(kBase + kArena / 2);
  for (int i = 0; i < kClasses; ++i) g_free[i] = g_tail[i] = nullptr;
}
}  // namespace sim
static inline void* RawAligned(size_t n, size_t a) {
  if (!g_init) Init();
  int c = a <= 16 ? ClassOf(n) : -1;
  char* p;
  if (c >= 0 && g_free[c] && g_reuse != 2) {
    Node* nd = g_free[c];
    g_free[c] = nd->next;
    if (!g_free[c]) g_tail[c] = nullptr;
    p = reinterpret_cast<char*>(nd);
  } else {
    size_t sz = c >= 0 ? ClassSize(c) : ((n + 15) & ~size_t(15));
    uintptr_t q = reinterpret_cast<uintptr_t>(g_next) + sizeof(Hdr);
    q = (q + a - 1) & ~(uintptr_t)(a - 1);
    p = reinterpret_cast<char*>(q);
    g_next = p + sz;
    if (reinterpret_cast<uintptr_t>(g_next) > kBase + kArena) { fprintf(stderr, "arena full\n"); _Exit(78); }
  }
  Hdr* h = reinterpret_cast<Hdr*>(p) - 1;
  h->cls = static_cast<uint32_t>(c); h->magic = 0xA110CA7E; h->size = n;
  g_live_bytes += static_cast<int64_t>(n); ++g_live_blocks;
  if (n <= 4096) memset(p, g_fill ? 0xCD + g_fill : 0xCD, n);
  sim_on_alloc(p, n);
  return p;
}
static inline void* Raw(size_t n) { return RawAligned(n, 16); }
static inline void Free(void* v) {
  if (!v) return;
  Hdr* h = static_cast<Hdr*>(v) - 1;
  if (h->magic != 0xA110CA7E) {
    if (h->magic == 0xF4EEF4EE) sim::Violate(~0ull, "memory:double-free", "block freed twice");
    sim::Violate(~0ull, "memory:bad-free", "free of a pointer that was not allocated");
  }
  h->magic = 0xF4EEF4EE;
  g_live_bytes -= static_cast<int64_t>(h->size); --g_live_blocks;
  sim_on_free(v, h->size);
  size_t fill = h->cls == 0xffffffffu ? h->size : ClassSize(h->cls);
  if (fill > 4096) fill = 4096;
  memset(v, 0xDD, fill);
  if (h->cls == 0xffffffffu) return;  // never reused
  Node* nd = static_cast<Node*>(v);
  int c = static_cast<int>(h->cls);
  if (g_reuse == 1) {
    nd->next = nullptr;
    if (g_tail[c]) g_tail[c]->next = nd; else g_free[c] = nd;
    g_tail[c] = nd;
  } else {
    nd->next = g_free[c];
    if (!g_free[c]) g_tail[c] = nd;
    g_free[c] = nd;
  }
}
#endif

void* operator new(size_t n) { sim::MaybeFail(); void* p = Raw(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { sim::MaybeFail(); void* p = Raw(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept {
  try { sim::MaybeFail(); } catch (...) { return nullptr; }
  return Raw(n);
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept {
  try { sim::MaybeFail(); } catch (...) { return nullptr; }
  return Raw(n);
}
void* operator new(size_t n, std::align_val_t a) { sim::MaybeFail(); return RawAligned(n, static_cast<size_t>(a)); }
void* operator new[](size_t n, std::align_val_t a) { sim::MaybeFail(); return RawAligned(n, static_cast<size_t>(a)); }
void operator delete(void* p) noexcept { Free(p); }
void operator delete[](void* p) noexcept { Free(p); }
void operator delete(void* p, size_t) noexcept { Free(p); }
void operator delete[](void* p, size_t) noexcept { Free(p); }
void operator delete(void* p, std::align_val_t) noexcept { Free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { Free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { Free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { Free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { Free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { Free(p); }
