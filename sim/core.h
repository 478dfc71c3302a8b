// Deterministic simulator core: PRNG, textual plans, violation reporting,
// statistics, forked execution of units.
#ifndef VERIF_SIM_CORE_H_
#define VERIF_SIM_CORE_H_

#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG ----
inline uint64_t SplitMix(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t Next() { return SplitMix(s); }
  uint64_t Below(uint64_t n) { return n ? Next() % n : 0; }
  int64_t Range(int64_t lo, int64_t hi) {  // inclusive
    return lo + static_cast<int64_t>(Below(static_cast<uint64_t>(hi - lo + 1)));
  }
  bool Chance(double p) { return (Next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  // Log-uniform in [1, max].
  uint64_t Log(uint64_t max) {
    int bits = 0;
    while (bits < 63 && (1ull << bits) < max) ++bits;
    uint64_t b = Below(bits + 1);
    uint64_t v = (1ull << b) + Below(1ull << b);
    return v > max ? max : v;
  }
  template <class T>
  const T& Pick(const std::vector<T>& v) { return v[Below(v.size())]; }
};
inline uint64_t Mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  return h;
}
uint64_t HashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t HashStr(const std::string& s) { return HashBytes(s.data(), s.size()); }

// ---------------------------------------------------------------- plans ----
// A line is a list of whitespace-separated tokens. Token text is escaped with
// %XX so that a token never contains blanks and is never empty.
using Line = std::vector<std::string>;
std::string Esc(const std::string& raw);
std::string Unesc(const std::string& tok);
std::string S(int64_t v);
std::string U(uint64_t v);
int64_t I(const Line& l, size_t i, int64_t def = 0);
const std::string& T(const Line& l, size_t i);
std::string Join(const Line& l);

// ------------------------------------------------------------ properties ---
// Property tags are bit masks: C01 -> bit 1.
constexpr uint64_t Tag(int n) { return 1ull << n; }
std::string TagNames(uint64_t tags);
int PropNumber(const std::string& id);

// ----------------------------------------------------- shared with parent --
constexpr int kMaxCounters = 320;
constexpr int kMaxSessions = 256;
constexpr int kCovBits = 1 << 20;
struct Shared {
  int state;  // 0 running, 1 finished, 2 violation
  int session;
  uint64_t tags;
  char cls[96];
  char msg[4000];
  uint64_t hash;       // event log hash of the whole unit
  uint64_t events;     // simulated events executed
  int n_sessions;
  double slowest;       // CPU seconds of the slowest session so far
  int slowest_session;
  uint64_t sig[kMaxSessions];
  unsigned char nontrivial[kMaxSessions];
  // Cumulative over units, owned by the worker:
  uint64_t counters[kMaxCounters];
  unsigned char cov[kCovBits / 8];
};
extern Shared* g_sh;
extern bool g_trace;      // print events while executing
extern uint64_t g_prop_tag;  // property being checked (0 = any)

struct Counter {
  int idx;
  const char* name;
  explicit Counter(const char* name);
  void operator++(int) { if (g_sh) g_sh->counters[idx]++; }
  void Add(uint64_t n) { if (g_sh) g_sh->counters[idx] += n; }
};
// Record a violation and end the process at once (safe from any context).
[[noreturn]] void Violate(uint64_t tags, const char* cls, const char* fmt, ...)
    __attribute__((format(printf, 3, 4)));
// A harness error (never reported as a violation).
[[noreturn]] void HarnessError(const char* fmt, ...)
    __attribute__((format(printf, 1, 2)));
void Trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// Event log: everything observable goes through here.
void Ev(uint64_t a);
inline void Ev(uint64_t a, uint64_t b) { Ev(a); Ev(b); }
inline void Ev(uint64_t a, uint64_t b, uint64_t c) { Ev(a); Ev(b); Ev(c); }
// Abstract state / transition reached (coverage measure).
void Cov(uint64_t key);
// The session did something worth counting.
void Nontrivial();
// Mix into the session signature (distinctness measure).
void Sig(uint64_t v);

// ------------------------------------------------------------- scenarios ---
struct Scenario {
  const char* name;
  // Lines of one session for a property.
  std::vector<Line> (*gen)(Rng& rng, int prop);
  void (*run)(const std::vector<Line>& lines);
  int sessions_per_unit;
};
struct Choice { const Scenario* sc; int weight; };
// Which scenarios decide a property in this binary.
std::vector<Choice> ScenariosFor(int prop);
const Scenario* FindScenario(const std::string& name);

int Main(int argc, char** argv);

// ------------------------------------------------------------- allocator ---
// Allocation failure injection: the k-th (1-based) operator new on this thread
// while armed throws bad_alloc; with k < 0, the |k|-th and every later one.
// Only counts while in MUT code.
void OomArm(int64_t k);
bool OomDisarm();  // true if it fired
extern thread_local int g_mut_depth;  // > 0: the code under test is running
struct InMut { InMut() { ++g_mut_depth; } ~InMut() { --g_mut_depth; } };
struct InHarness {  // inside a callback from the code under test
  int saved; InHarness() : saved(g_mut_depth) { g_mut_depth = 0; }
  ~InHarness() { g_mut_depth = saved; }
};
// Address reuse policy of the arena (ignored in the ASan build).
void AllocPolicy(int reuse /*0 lifo,1 fifo,2 never*/, int fill);
uint64_t MutAllocs();
// Memory held at the moment (always 0 in the ASan build).
void Live(int64_t* bytes, int64_t* blocks);
// Start a fresh region so that addresses do not depend on what the parent did.
void AllocFresh();

}  // namespace sim
#endif
