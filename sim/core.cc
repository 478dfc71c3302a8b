#include "core.h"

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <set>
#include <unordered_map>
#include <unordered_set>

namespace sim {

Shared* g_sh = nullptr;
bool g_trace = false;
uint64_t g_prop_tag = 0;

static uint64_t g_hash, g_sig;
static bool g_nontrivial;

static const char* g_counter_names[kMaxCounters];
static int g_counters = 0;

Counter::Counter(const char* n) : idx(0), name(n) {
  for (int i = 0; i < g_counters; ++i)
    if (!strcmp(g_counter_names[i], n)) { idx = i; return; }
  if (g_counters >= kMaxCounters) abort();
  idx = g_counters;
  g_counter_names[g_counters++] = n;
}

uint64_t HashBytes(const void* p, size_t n, uint64_t h) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  while (n >= 8) {
    uint64_t v; memcpy(&v, c, 8);
    h = (h ^ v) * 0x9fb21c651e98df25ull; h ^= h >> 29;
    c += 8; n -= 8;
  }
  while (n--) { h = (h ^ *c++) * 1099511628211ull; h ^= h >> 31; }
  return h;
}

std::string Esc(const std::string& raw) {
  if (raw.empty()) return "%";
  std::string o;
  for (unsigned char c : raw) {
    if (c <= ' ' || c == '%' || c >= 127 || c == '#') {
      char b[4]; snprintf(b, sizeof b, "%%%02X", c); o += b;
    } else o += static_cast<char>(c);
  }
  return o;
}
std::string Unesc(const std::string& t) {
  if (t == "%") return "";
  std::string o;
  for (size_t i = 0; i < t.size(); ++i) {
    if (t[i] == '%' && i + 2 < t.size()) {
      o += static_cast<char>(strtol(t.substr(i + 1, 2).c_str(), nullptr, 16));
      i += 2;
    } else o += t[i];
  }
  return o;
}
std::string S(int64_t v) { return std::to_string(v); }
std::string U(uint64_t v) { return std::to_string(v); }
int64_t I(const Line& l, size_t i, int64_t def) {
  if (i >= l.size()) return def;
  return static_cast<int64_t>(strtoll(l[i].c_str(), nullptr, 10));
}
const std::string& T(const Line& l, size_t i) {
  static const std::string empty;
  return i < l.size() ? l[i] : empty;
}
std::string Join(const Line& l) {
  std::string o;
  for (size_t i = 0; i < l.size(); ++i) { if (i) o += ' '; o += l[i]; }
  return o;
}

std::string TagNames(uint64_t tags) {
  if (tags == ~0ull) return "all";
  std::string o;
  for (int i = 1; i < 64; ++i)
    if (tags & Tag(i)) { char b[8]; snprintf(b, sizeof b, "%sC%02d", o.empty() ? "" : ",", i); o += b; }
  return o;
}
int PropNumber(const std::string& id) { return atoi(id.c_str() + 1); }

void Violate(uint64_t tags, const char* cls, const char* fmt, ...) {
  ++g_mut_depth; g_mut_depth = 0;
  va_list ap; va_start(ap, fmt);
  char buf[4000]; vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (g_trace) { printf("VIOLATED %s [%s] %s\n", cls, TagNames(tags).c_str(), buf); fflush(stdout); }
  if (g_sh && g_sh->state == 0) {
    g_sh->tags = tags;
    snprintf(g_sh->cls, sizeof g_sh->cls, "%s", cls);
    snprintf(g_sh->msg, sizeof g_sh->msg, "%s", buf);
    g_sh->hash = g_hash;
    __sync_synchronize();
    g_sh->state = 2;
  }
  _exit(77);
}
void HarnessError(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt);
  fprintf(stderr, "HARNESS-ERROR: "); vfprintf(stderr, fmt, ap); fprintf(stderr, "\n");
  va_end(ap);
  fflush(stderr);
  _exit(78);
}
void Trace(const char* fmt, ...) {
  if (!g_trace) return;
  va_list ap; va_start(ap, fmt);
  vprintf(fmt, ap); printf("\n"); fflush(stdout);
  va_end(ap);
}
void Ev(uint64_t a) {
  g_hash = Mix(g_hash, a);
  if (g_sh) g_sh->events++;
}
void Cov(uint64_t key) {
  if (!g_sh) return;
  uint64_t h = Mix(0x1234567, key) % kCovBits;
  g_sh->cov[h >> 3] |= static_cast<unsigned char>(1u << (h & 7));
}
void Nontrivial() { g_nontrivial = true; }
void Sig(uint64_t v) { g_sig = Mix(g_sig, v); }

// ------------------------------------------------------------------ units --
struct Session { std::string scenario; std::vector<Line> lines; };

static uint64_t UnitSeed(uint64_t seed, int prop, uint64_t unit) {
  uint64_t x = seed * 0x9e3779b97f4a7c15ull + 0x632be59bd9b4e019ull * (uint64_t)(prop + 1);
  SplitMix(x);
  x ^= unit * 0xd1342543de82ef95ull + 0x2545f4914f6cdd1dull;
  SplitMix(x);
  return SplitMix(x);
}

static std::vector<Session> GenUnit(uint64_t seed, int prop, uint64_t unit) {
  Rng rng(UnitSeed(seed, prop, unit));
  std::vector<Choice> cs = ScenariosFor(prop);
  std::vector<Session> out;
  if (cs.empty()) return out;
  int total = 0;
  for (auto& c : cs) total += c.weight;
  int64_t r = static_cast<int64_t>(rng.Below(total));
  const Scenario* sc = nullptr;
  for (auto& c : cs) { if (r < c.weight) { sc = c.sc; break; } r -= c.weight; }
  int n = sc->sessions_per_unit;
  for (int i = 0; i < n; ++i) {
    Rng sub(rng.Next());
    out.push_back(Session{sc->name, sc->gen(sub, prop)});
  }
  return out;
}

static void PrintUnit(FILE* f, const std::vector<Session>& ss, int prop, uint64_t seed, uint64_t unit) {
  fprintf(f, "simreplay 1\n");
  fprintf(f, "property C%02d\n", prop);
  fprintf(f, "# generated by VERIF_SEED=%llu unit=%llu\n", (unsigned long long)seed, (unsigned long long)unit);
  for (auto& s : ss) {
    fprintf(f, "session %s\n", s.scenario.c_str());
    for (auto& l : s.lines) fprintf(f, "  %s\n", Join(l).c_str());
  }
}

static std::vector<Session> ParsePlan(const char* path, int* prop) {
  FILE* f = strcmp(path, "-") ? fopen(path, "r") : stdin;
  if (!f) { perror(path); exit(2); }
  std::vector<Session> out;
  char* buf = nullptr; size_t cap = 0; ssize_t n;
  while ((n = getline(&buf, &cap, f)) >= 0) {
    Line l; std::string cur;
    for (ssize_t i = 0; i <= n; ++i) {
      char c = i < n ? buf[i] : ' ';
      if (c == '#') c = '\n', n = i;
      if (c == ' ' || c == '\n' || c == '\t' || c == '\r') { if (!cur.empty()) l.push_back(cur); cur.clear(); }
      else cur += c;
    }
    if (l.empty() || l[0] == "simreplay" || l[0] == "binary" || l[0] == "class") continue;
    if (l[0] == "property") { *prop = PropNumber(T(l, 1)); continue; }
    if (l[0] == "session") { out.push_back(Session{T(l, 1), {}}); continue; }
    if (!out.empty()) out.back().lines.push_back(l);
  }
  free(buf);
  if (f != stdin) fclose(f);
  return out;
}

static void HangHandler(int) {
  if (g_sh && g_sh->state == 0) {
    g_sh->tags = ~0ull;
    strcpy(g_sh->cls, "hang");
    strcpy(g_sh->msg, "the unit used up its CPU time without making progress");
    g_sh->state = 2;
  }
  _exit(77);
}

// C22: a session gives back all the memory it took. What the first run of a
// session keeps may be a lazily initialised static; what every run keeps is lost.
static Counter k_balanced("check.memory_balance"), k_rerun("check.memory_balance_rerun");
static void RunBalanced(const Scenario* sc, const std::vector<Line>& lines) {
  int64_t by = 0, bl = 0;
  for (int run = 0; run < 4; ++run) {
    int64_t b0, n0, b1, n1;
    uint64_t sig = g_sig;
    Live(&b0, &n0);
    sc->run(lines);
    Live(&b1, &n1);
    if (run) g_sig = sig;
    by = b1 - b0; bl = n1 - n0;
    if (bl <= 0) break;
    k_rerun++;
  }
  k_balanced++;
  if (bl > 0) Violate(Tag(22), "memory:leak", "every run of the session leaves %lld blocks (%lld bytes) behind after everything it created was destroyed", (long long)bl, (long long)by);
}

// Runs in the child: never returns.
[[noreturn]] static void ExecUnit(const std::vector<Session>& ss, int cpu_seconds) {
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = HangHandler;
  sigaction(SIGVTALRM, &sa, nullptr);
  struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = cpu_seconds;
  g_hash = 0x5151;
  AllocFresh();
  for (size_t i = 0; i < ss.size(); ++i) {
    g_sh->session = static_cast<int>(i);
    g_sig = 0x77; g_nontrivial = false;
    setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    const double c0 = static_cast<double>(clock()) / CLOCKS_PER_SEC;
    const Scenario* sc = FindScenario(ss[i].scenario);
    if (!sc) HarnessError("unknown scenario %s", ss[i].scenario.c_str());
    if (g_trace) { printf("== session %zu %s\n", i, sc->name); fflush(stdout); }
    Ev(0x5e55, i);
    if (g_prop_tag == Tag(22)) RunBalanced(sc, ss[i].lines);
    else sc->run(ss[i].lines);
    const double c = static_cast<double>(clock()) / CLOCKS_PER_SEC - c0;
    if (c > g_sh->slowest) { g_sh->slowest = c; g_sh->slowest_session = static_cast<int>(i); }
    if (i < kMaxSessions) {
      g_sh->sig[i] = g_sig;
      g_sh->nontrivial[i] = g_nontrivial;
      g_sh->n_sessions = static_cast<int>(i) + 1;
    }
  }
  g_sh->hash = g_hash;
  g_sh->state = 1;
  _exit(0);
}

static Shared* MapShared() {
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return static_cast<Shared*>(p);
}

struct UnitResult {
  bool violation = false, harness_error = false;
  std::string cls, msg, log;
  uint64_t tags = 0, hash = 0;
  int session = 0;
};

static std::string ReadFd(int fd) {
  std::string o; char b[4096]; lseek(fd, 0, SEEK_SET);
  ssize_t n;
  while ((n = read(fd, b, sizeof b)) > 0 && o.size() < 60000) o.append(b, n);
  return o;
}

static UnitResult RunForked(const std::vector<Session>& ss, int cpu_seconds) {
  g_sh->state = 0; g_sh->session = 0; g_sh->tags = 0; g_sh->cls[0] = g_sh->msg[0] = 0;
  g_sh->hash = 0; g_sh->n_sessions = 0;
  static int errfd = -1;
  if (errfd < 0) errfd = memfd_create("err", 0);
  if (ftruncate(errfd, 0) != 0) {}
  lseek(errfd, 0, SEEK_SET);
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(2); }
  if (pid == 0) {
    dup2(errfd, 2);
    ExecUnit(ss, cpu_seconds);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  UnitResult r;
  r.session = g_sh->session;
  r.hash = g_sh->hash;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && g_sh->state == 1) return r;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 77 && g_sh->state == 2) {
    r.violation = true; r.cls = g_sh->cls; r.msg = g_sh->msg; r.tags = g_sh->tags;
    return r;
  }
  r.log = ReadFd(errfd);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 78) { r.harness_error = true; r.msg = r.log; return r; }
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {  // not ours: out of memory or killed from outside
    r.harness_error = true; r.msg = "child killed from outside (SIGKILL)"; return r;
  }
  r.violation = true; r.tags = ~0ull; r.hash = 0;
  size_t p;
  if ((p = r.log.find("ERROR: AddressSanitizer: ")) != std::string::npos) {
    std::string k = r.log.substr(p + 25, 40);
    k = k.substr(0, k.find_first_of(" \n("));
    r.cls = "memory:" + k;
    r.msg = r.log.substr(p, 1500);
  } else if ((p = r.log.find("runtime error: ")) != std::string::npos) {
    r.cls = "undefined-behaviour";
    r.msg = r.log.substr(p, 600);
  } else if (WIFSIGNALED(st)) {
    char b[64]; snprintf(b, sizeof b, "crash:signal%d", WTERMSIG(st));
    r.cls = b; r.msg = r.log.substr(0, 600);
  } else {
    char b[64]; snprintf(b, sizeof b, "exit:%d", WIFEXITED(st) ? WEXITSTATUS(st) : -1);
    r.cls = b; r.msg = r.log.substr(0, 600);
  }
  for (char& c : r.cls) if (c == ' ') c = '-';
  return r;
}

static std::string JsonStr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += static_cast<char>(c);
  }
  return o + "\"";
}

static double Now() {
  struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

int Main(int argc, char** argv) {
  std::string mode = argc > 1 ? argv[1] : "";
  uint64_t seed = 1, start = 0, stride = 1, max_units = ~0ull, unit = 0;
  double seconds = 1e9;
  int prop = 0, cpu = 40, max_viol = 8;
  const char* out = nullptr; const char* hashes = nullptr; const char* stop = nullptr;
  std::string file;
  for (int i = 2; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> const char* { if (i + 1 >= argc) exit(2); return argv[++i]; };
    if (a == "--property") prop = PropNumber(val());
    else if (a == "--seed") seed = strtoull(val(), nullptr, 10);
    else if (a == "--start") start = strtoull(val(), nullptr, 10);
    else if (a == "--stride") stride = strtoull(val(), nullptr, 10);
    else if (a == "--max-units") max_units = strtoull(val(), nullptr, 10);
    else if (a == "--unit") unit = strtoull(val(), nullptr, 10);
    else if (a == "--seconds") seconds = atof(val());
    else if (a == "--cpu") cpu = atoi(val());
    else if (a == "--max-violations") max_viol = atoi(val());
    else if (a == "--out") out = val();
    else if (a == "--hashes") hashes = val();
    else if (a == "--stop") stop = val();
    else if (a == "--trace") g_trace = true;
    else file = a;
  }
  g_sh = MapShared();
  if (mode == "gen") {
    PrintUnit(stdout, GenUnit(seed, prop, unit), prop, seed, unit);
    return 0;
  }
  if (mode == "replay") {
    int p = 0;
    std::vector<Session> ss = ParsePlan(file.c_str(), &p);
    if (!prop) prop = p;
    g_prop_tag = prop ? Tag(prop) : 0;
    UnitResult r = RunForked(ss, cpu);
    if (r.harness_error) { printf("RESULT harness-error %s\n", r.msg.c_str()); return 3; }
    if (!r.violation) { printf("RESULT ok hash=%016llx\n", (unsigned long long)r.hash); return 0; }
    for (char& c : r.msg) if (c == '\n') c = ' ';
    printf("RESULT violation class=%s session=%d hash=%016llx tags=%s msg=%s\n", r.cls.c_str(), r.session,
           (unsigned long long)r.hash, TagNames(r.tags).c_str(), r.msg.c_str());
    return 1;
  }
  if (mode != "run") { fprintf(stderr, "usage: run|gen|replay\n"); return 2; }

  g_prop_tag = Tag(prop);
  std::unordered_set<uint64_t> sigs;
  uint64_t units = 0, sessions = 0, nontrivial = 0, harness_errors = 0, foreign = 0;
  double t0 = Now();
  struct V { uint64_t unit; UnitResult r; };
  std::vector<V> viol;
  FILE* hf = hashes ? fopen(hashes, "w") : nullptr;
  std::string herr;
  std::string foreign_cls;
  double slow = 0;
  uint64_t slow_unit = 0;
  int slow_session = 0;
  for (uint64_t u = start; units < max_units && Now() - t0 < seconds; u += stride) {
    if (stop && access(stop, F_OK) == 0) break;
    std::vector<Session> ss = GenUnit(seed, prop, u);
    if (ss.empty()) { fprintf(stderr, "no scenario for property\n"); return 2; }
    UnitResult r = RunForked(ss, cpu);
    ++units;
    if (g_sh->slowest > slow) { slow = g_sh->slowest; slow_unit = u; slow_session = g_sh->slowest_session; }
    if (hf) fprintf(hf, "%llu %016llx %s\n", (unsigned long long)u, (unsigned long long)r.hash, r.violation ? r.cls.c_str() : "ok");
    int done = g_sh->n_sessions;
    sessions += done + (r.violation ? 1 : 0);
    for (int i = 0; i < done; ++i)
      if (g_sh->nontrivial[i]) { ++nontrivial; if (sigs.size() < 4000000) sigs.insert(g_sh->sig[i]); }
    if (r.harness_error) { ++harness_errors; herr = r.msg; continue; }
    if (r.violation) {
      if (r.tags & g_prop_tag) {
        viol.push_back(V{u, r});
        if ((int)viol.size() >= max_viol) break;
      } else { ++foreign; foreign_cls = r.cls + ": " + r.msg; }
    }
  }
  double wall = Now() - t0;
  if (hf) fclose(hf);
  FILE* f = out ? fopen(out, "w") : stdout;
  fprintf(f, "{\"units\":%llu,\"sessions\":%llu,\"nontrivial\":%llu,\"harness_errors\":%llu,\"foreign\":%llu,\"events\":%llu,\"wall\":%.3f,\"slowest\":%.3f,\"slowest_unit\":%llu,\"slowest_session\":%d,\n",
          (unsigned long long)units, (unsigned long long)sessions, (unsigned long long)nontrivial,
          (unsigned long long)harness_errors, (unsigned long long)foreign, (unsigned long long)g_sh->events, wall, g_sh->slowest, (unsigned long long)slow_unit, slow_session);
  fprintf(f, "\"herr\":%s,\"foreign_cls\":%s,\n", JsonStr(herr.substr(0, 500)).c_str(), JsonStr(foreign_cls.substr(0, 500)).c_str());
  fprintf(f, "\"counters\":{");
  for (int i = 0; i < g_counters; ++i)
    fprintf(f, "%s%s:%llu", i ? "," : "", JsonStr(g_counter_names[i]).c_str(), (unsigned long long)g_sh->counters[i]);
  fprintf(f, "},\n\"violations\":[");
  for (size_t i = 0; i < viol.size(); ++i)
    fprintf(f, "%s{\"unit\":%llu,\"session\":%d,\"class\":%s,\"tags\":%s,\"msg\":%s}", i ? "," : "",
            (unsigned long long)viol[i].unit, viol[i].r.session, JsonStr(viol[i].r.cls).c_str(),
            JsonStr(TagNames(viol[i].r.tags)).c_str(), JsonStr(viol[i].r.msg.substr(0, 1500)).c_str());
  fprintf(f, "]}\n");
  if (out) {
    fclose(f);
    std::string b = std::string(out) + ".sigs";
    FILE* g = fopen(b.c_str(), "wb");
    for (uint64_t s : sigs) fwrite(&s, 8, 1, g);
    fclose(g);
    b = std::string(out) + ".cov";
    g = fopen(b.c_str(), "wb");
    fwrite(g_sh->cov, 1, sizeof g_sh->cov, g);
    fclose(g);
  }
  return 0;
}

}  // namespace sim

int main(int argc, char** argv) { return sim::Main(argc, argv); }
