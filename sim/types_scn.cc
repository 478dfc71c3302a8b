// Type helper scenario (C16): several simulated threads resolve field paths and
// look up types on shared helpers, starting from cold caches, while helpers are
// replaced and the type source stalls. Oracles: an own model of the schema and
// the answer of a fresh helper asked the same question alone.
#include <deque>
#include <map>
#include <memory>

#include "core.h"
#include "google/protobuf/type.pb.h"
#include "google/protobuf/util/converter/type_info.h"
#include "google/protobuf/util/type_resolver.h"
#include "grpc_transcoding/type_helper.h"
#include "simsched.h"

namespace sim {
namespace {
namespace gt = google::grpc::transcoding;
namespace pb = google::protobuf;
namespace pu = google::protobuf::util;
using std::string;
using std::vector;

Counter n_ask("event.type-question"), n_path("event.field-path-resolved"), n_err("event.field-path-rejected"), n_esc("probe.percent-encoded-name"),
    n_cold("probe.first-question-to-a-helper"), n_swap("event.helper-replaced"), n_swap_late("fault.helper-replaced-while-in-use"),
    n_slow("fault.type-source-stalled"), n_conc("probe.question-overlapped-another"), n_ptr("probe.earlier-answer-rechecked"), n_miss("probe.missing-type"),
    n_throw("fault.type-source-threw-bad-alloc");
int g_throw[kMaxThreads];  // the how-manieth call of the type source by this thread runs out of memory
const char kPrefix[] = "type.googleapis.com/";

struct Schema {
  vector<pb::Type> types;
  vector<pb::Enum> enums;
  const pb::Type* Find(const string& url) const {
    for (auto& t : types) if (kPrefix + t.name() == url) return &t;
    return nullptr;
  }
  const pb::Enum* FindEnum(const string& url) const {
    for (auto& e : enums) if (kPrefix + e.name() == url) return &e;
    return nullptr;
  }
};
string Sig1(const pb::Field* f) {
  if (!f) return "null";
  return f->name() + "#" + S(f->number()) + "/" + S(f->kind()) + "@" + f->type_url() + "~" + f->json_name();
}
string Sig1(const pb::Type* t) {
  if (!t) return "null";
  string o = "T:" + t->name();
  for (auto& f : t->fields()) o += ";" + Sig1(&f);
  return o;
}
string Sig1(const pb::Enum* e) {
  if (!e) return "null";
  string o = "E:" + e->name();
  for (auto& v : e->enumvalue()) o += ";" + v.name() + "=" + S(v.number());
  return o;
}
string Err(const absl::Status& s) { return "error " + S(static_cast<int>(s.code())) + ": " + string(s.message()); }

// A type source of the application: slow, and thread-safe as the interface asks.
class SlowResolver : public pu::TypeResolver {
 public:
  SlowResolver(const Schema* s, int slow) : s_(s), slow_(slow) {}
  absl::Status ResolveMessageType(const string& url, pb::Type* t) override {
    Stall();
    Inactive i;
    Fail();
    const pb::Type* f = s_->Find(url);
    if (!f) return absl::NotFoundError("no type " + url);
    *t = *f;
    return absl::OkStatus();
  }
  absl::Status ResolveEnumType(const string& url, pb::Enum* e) override {
    Stall();
    Inactive i;
    Fail();
    const pb::Enum* f = s_->FindEnum(url);
    if (!f) return absl::NotFoundError("no enum " + url);
    *e = *f;
    return absl::OkStatus();
  }

 private:
  void Stall() {
    if (!g_threads_running) return;
#ifdef SIM_SYSTEM_MALLOC
    return;  // locks are real in this build: no switching while one is held
#endif
    for (int k = 0; k < slow_; ++k) { n_slow++; YieldPoint(); }
  }
  static void Fail() {
    int& k = g_throw[t_tid];
    if (k > 0 && --k == 0) { n_throw++; throw std::bad_alloc(); }
  }
  const Schema* s_;
  int slow_;
};

struct Query { string kind, root, arg; int form; };
struct Kept { const pb::Field* f; const pb::Type* t; const pb::Enum* e; string sig; };
struct Holder {
  Schema own;  // the helper keeps references to its types
  std::unique_ptr<gt::TypeHelper> h;
  int schema = 0, key = 0, refs = 0;
  bool replaced = false, asked = false;
  VC pub, drop;
  std::deque<Kept> kept;
};

// ------------------------------------------------------------------ model --
int HexDigit(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
string Unescape(const string& s) {
  string o;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '%' && i + 2 < s.size() && HexDigit(s[i + 1]) >= 0 && HexDigit(s[i + 2]) >= 0) {
      o += static_cast<char>(HexDigit(s[i + 1]) * 16 + HexDigit(s[i + 2]));
      i += 2;
    } else o += s[i];
  }
  return o;
}
const pb::Field* MFind(const pb::Type& t, const string& name) {  // a JSON name first, then a field name
  string n = name;
  for (auto& f : t.fields()) if (f.json_name() == name) { if (!f.name().empty()) n = f.name(); break; }
  for (auto& f : t.fields()) if (f.name() == n) return &f;
  return nullptr;
}
vector<string> SplitPath(const string& p, bool skip) {
  vector<string> o;
  string cur;
  for (char c : p + ".") {
    if (c != '.') { cur += c; continue; }
    if (!cur.empty() || !skip) o.push_back(cur);
    cur.clear();
  }
  return o;
}
string Model(const Schema& s, const Query& q) {
  if (q.kind == "path") {
    const pb::Type* t = s.Find(kPrefix + q.root);
    if (!t) return "noroot";
    string o = "path";
    auto names = SplitPath(q.arg, true);
    for (size_t i = 0; i < names.size(); ++i) {
      const pb::Field* f = MFind(*t, names[i]);
      if (!f && Unescape(names[i]) != names[i]) { f = MFind(*t, Unescape(names[i])); n_esc++; }
      if (!f) return "error 3";
      o += " " + Sig1(f);
      if (i + 1 < names.size()) {
        if (f->kind() != pb::Field::TYPE_MESSAGE) return "error 3";
        t = s.Find(f->type_url());
        if (!t) return "error 3";
      }
    }
    return o;
  }
  if (q.kind == "type") { auto* t = s.Find(q.arg); return t ? Sig1(t) : "error 5"; }
  if (q.kind == "gtype" || q.kind == "rtype") return Sig1(s.Find(q.arg));
  if (q.kind == "enum" || q.kind == "renum") return Sig1(s.FindEnum(q.arg));
  if (q.kind == "find") { auto* t = s.Find(kPrefix + q.root); return t ? Sig1(MFind(*t, q.arg)) : "noroot"; }
  return "";
}

// Puts one question to a helper. `act`: as the code under test.
template <class Scope>
string Ask(const gt::TypeHelper& h, const Schema& own, const Query& q, vector<Kept>* kept) {
  // arguments live exactly as long as the call
  auto arg = std::make_unique<string>(q.arg);
  if (q.kind == "path" || q.kind == "find") {
    const pb::Type* root = nullptr;
    if (q.form & 1) { string u = kPrefix + q.root; Scope a; root = h.Info()->GetTypeByTypeUrl(u); }
    else root = own.Find(kPrefix + q.root);
    if (!root) return "noroot";
    if (q.kind == "find") {
      const pb::Field* f;
      { Scope a; f = h.Info()->FindField(root, *arg); }
      if (f && kept) kept->push_back(Kept{f, nullptr, nullptr, Sig1(f)});
      return Sig1(f);
    }
    vector<const pb::Field*> out(3, nullptr);
    absl::Status st;
    if (q.form & 2) {
      auto v = std::make_unique<vector<string>>(SplitPath(q.arg, true));
      Scope a;
      st = h.ResolveFieldPath(*root, *v, &out);
    } else {
      Scope a;
      st = h.ResolveFieldPath(*root, *arg, &out);
    }
    if (!st.ok()) return Err(st);
    string o = "path";
    for (auto* f : out) {
      o += " " + Sig1(f);
      if (f && kept) kept->push_back(Kept{f, nullptr, nullptr, Sig1(f)});
    }
    return o;
  }
  if (q.kind == "type") {
    absl::StatusOr<const pb::Type*> r = absl::InternalError("");
    { Scope a; r = h.Info()->ResolveTypeUrl(*arg); }
    if (!r.ok()) return Err(r.status());
    if (kept) kept->push_back(Kept{nullptr, *r, nullptr, Sig1(*r)});
    return Sig1(*r);
  }
  if (q.kind == "gtype") {
    const pb::Type* t;
    { Scope a; t = h.Info()->GetTypeByTypeUrl(*arg); }
    if (t && kept) kept->push_back(Kept{nullptr, t, nullptr, Sig1(t)});
    return Sig1(t);
  }
  if (q.kind == "enum") {
    const pb::Enum* e;
    { Scope a; e = h.Info()->GetEnumByTypeUrl(*arg); }
    if (e && kept) kept->push_back(Kept{nullptr, nullptr, e, Sig1(e)});
    return Sig1(e);
  }
  if (q.kind == "rtype") {
    pb::Type t;
    absl::Status st;
    { Scope a; st = h.Resolver()->ResolveMessageType(*arg, &t); }
    return st.ok() ? Sig1(&t) : "null";
  }
  pb::Enum e;
  absl::Status st;
  { Scope a; st = h.Resolver()->ResolveEnumType(*arg, &e); }
  return st.ok() ? Sig1(&e) : "null";
}

struct Run {
  std::map<int, Schema> schemas;
  std::map<int, std::pair<int, int>> slot_def;  // slot -> schema, slow (-1: plain lists)
  vector<Query> pool;
  std::map<int, Holder*> slots;
  vector<std::unique_ptr<Holder>> all;
  vector<vector<Line>> ops = vector<vector<Line>>(kMaxThreads);
  SchedPlan plan;
  std::map<std::pair<int, size_t>, std::pair<string, string>> want;  // (schema * 2 + own source, question) -> model, alone
  int in_op = 0;

  Holder* Make(int slot) {
    auto d = slot_def[slot];
    all.emplace_back(new Holder);
    Holder* h = all.back().get();
    h->schema = d.first;
    h->key = d.first * 2 + (d.second >= 0);
    h->own = schemas[d.first];
    Active a;
    if (d.second < 0) h->h.reset(new gt::TypeHelper(h->own.types, h->own.enums));
    else h->h.reset(new gt::TypeHelper(new SlowResolver(&h->own, d.second)));
    return h;
  }
  void Recheck(Holder* h) {
    for (auto& k : h->kept) {
      n_ptr++;
      string now = k.f ? Sig1(k.f) : k.t ? Sig1(k.t) : Sig1(k.e);
      if (now != k.sig) Violate(Tag(16), "types:answer-changed", "an answer handed out earlier now reads '%s' instead of '%s'", now.c_str(), k.sig.c_str());
    }
  }
  void Destroy(Holder* h) {
    HbAcquire(&h->drop);
    HbAcquire(&h->pub);
    Recheck(h);
    Active a;
    h->h.reset();
  }
  void Publish(int slot) {
    Holder* h = Make(slot);
    HbRelease(&h->pub);
    Holder* old = slots.count(slot) ? slots[slot] : nullptr;
    slots[slot] = h;
    if (old) {
      n_swap++;
      old->replaced = true;
      if (!old->refs) Destroy(old); else n_swap_late++;
    }
  }
  void Question(int slot, size_t qi, int fail = 0) {
    auto it = slots.find(slot);
    if (it == slots.end() || pool.empty()) return;
    Holder* h = it->second;
    qi %= pool.size();
    ++h->refs;
    HbAcquire(&h->pub);
    if (!h->asked) n_cold++;
    h->asked = true;
    if (in_op > 1) n_conc++;
    vector<Kept> kept;
    string got;
    g_throw[t_tid] = fail;
    try {
      got = Ask<Active>(*h->h, h->own, pool[qi], &kept);
    } catch (const std::bad_alloc&) {  // no answer; everybody else's are as before
      g_throw[t_tid] = 0;
      Ev(0x16b, static_cast<uint64_t>(fail));
      Cov(Mix(0x16b, Mix(HashStr(pool[qi].kind), Mix(static_cast<uint64_t>(fail), static_cast<uint64_t>(in_op)))));
      HbRelease(&h->drop);
      if (--h->refs == 0 && h->replaced) Destroy(h);
      return;
    }
    g_throw[t_tid] = 0;
    n_ask++;
    auto& w = want[{h->key, qi}];
    if (got.compare(0, 4, "path") == 0) { n_path++; Nontrivial(); } else if (got.compare(0, 5, "error") == 0) n_err++; else Nontrivial();
    if (got == "null") n_miss++;
    Ev(0x16a, HashStr(got));
    Sig(HashStr(got) + static_cast<uint64_t>(t_tid));
    bool ok = w.first.compare(0, 5, "error") == 0 ? got.compare(0, w.first.size() + 1, w.first + ":") == 0 : got == w.first;
    const Query& q = pool[qi];
    if (!ok)
      Violate(Tag(16), "types:wrong-answer", "thread %d: %s(%s, '%s') must give '%s' but gives '%s'", t_tid, q.kind.c_str(), q.root.c_str(), q.arg.c_str(), w.first.c_str(), got.c_str());
    if (got != w.second)
      Violate(Tag(16), "types:not-as-alone", "thread %d: %s(%s, '%s') gives '%s', a helper asked alone gives '%s'", t_tid, q.kind.c_str(), q.root.c_str(), q.arg.c_str(), got.c_str(), w.second.c_str());
    for (auto& k : kept) h->kept.push_back(k);
    while (h->kept.size() > 48) h->kept.pop_front();
    Cov(Mix(0x16, Mix(HashStr(q.kind), Mix(static_cast<uint64_t>(q.form), Mix(static_cast<uint64_t>(in_op), HashStr(got.substr(0, 6)))))));
    HbRelease(&h->drop);
    if (--h->refs == 0 && h->replaced) Destroy(h);
  }
  void Exec(const Line& l, size_t o) {
    const string& k = T(l, o);
    Ev(0x16, HashStr(k), static_cast<uint64_t>(t_tid));
    ++in_op;
    if (k == "ask") Question(static_cast<int>(I(l, o + 1)), static_cast<size_t>(I(l, o + 2)), static_cast<int>(I(l, o + 3)));
    else if (k == "burst") {
      int64_t n = std::min<int64_t>(I(l, o + 4), 4000);
      for (int64_t i = 0; i < n; ++i) Question(static_cast<int>(I(l, o + 1)), static_cast<size_t>(I(l, o + 2) + i * I(l, o + 3)));
    } else if (k == "swap") {
      int s = static_cast<int>(I(l, o + 1));
      if (slot_def.count(s)) {
        if (T(l, o + 2) != "") slot_def[s].first = static_cast<int>(I(l, o + 2)) % static_cast<int>(schemas.size());
        Publish(s);
      }
    }
    --in_op;
  }
};

void RunTypes(const vector<Line>& lines) {
  Run r;
  int reuse = 0;
  for (auto& l : lines) {
    const string& k = T(l, 0);
    if (k == "reuse") reuse = static_cast<int>(I(l, 1));
    else if (k == "type") {
      Schema& s = r.schemas[static_cast<int>(I(l, 1))];
      s.types.emplace_back();
      s.types.back().set_name(Unesc(T(l, 2)));
    } else if (k == "field") {
      Schema& s = r.schemas[static_cast<int>(I(l, 1))];
      if (s.types.empty()) continue;
      auto* f = s.types.back().add_fields();
      f->set_number(s.types.back().fields_size());
      f->set_cardinality(pb::Field::CARDINALITY_OPTIONAL);
      f->set_name(Unesc(T(l, 2)));
      f->set_json_name(Unesc(T(l, 3)));
      const string& kind = T(l, 4);
      f->set_kind(kind == "msg" ? pb::Field::TYPE_MESSAGE : kind == "enum" ? pb::Field::TYPE_ENUM : kind == "grp" ? pb::Field::TYPE_GROUP : pb::Field::TYPE_STRING);
      if (kind != "str") f->set_type_url(kPrefix + Unesc(T(l, 5)));
    } else if (k == "enum") {
      Schema& s = r.schemas[static_cast<int>(I(l, 1))];
      s.enums.emplace_back();
      s.enums.back().set_name(Unesc(T(l, 2)));
      for (int64_t i = 0; i < I(l, 3) && i < 8; ++i) { auto* v = s.enums.back().add_enumvalue(); v->set_name("V" + S(i)); v->set_number(static_cast<int>(i)); }
    } else if (k == "slot") r.slot_def[static_cast<int>(I(l, 1))] = {static_cast<int>(I(l, 2)), T(l, 3) == "lists" ? -1 : static_cast<int>(std::min<int64_t>(I(l, 4), 6))};
    else if (k == "ask") r.pool.push_back(Query{T(l, 1), Unesc(T(l, 2)), Unesc(T(l, 3)), static_cast<int>(I(l, 4))});
    else if (k == "op") { int t = static_cast<int>(I(l, 1)); if (t >= 1 && t < kMaxThreads) r.ops[static_cast<size_t>(t)].push_back(l); }
    else if (k == "sched") r.plan.order.push_back(static_cast<int>(I(l, 1)));
    else if (k == "preempt") r.plan.pre.push_back(Preempt{(int)I(l, 1), (int)I(l, 2), 0, I(l, 3), (int)I(l, 4)});
    else if (k == "syncpre") r.plan.pre.push_back(Preempt{(int)I(l, 1), (int)I(l, 2), 1, I(l, 3), (int)I(l, 4)});
  }
  if (r.schemas.empty()) return;
  {  // numbering may have gaps after minimisation
    std::map<int, Schema> d;
    int i = 0;
    for (auto& s : r.schemas) d[i++] = std::move(s.second);
    r.schemas = std::move(d);
    for (auto& s : r.slot_def) s.second.first %= static_cast<int>(r.schemas.size());
  }
  AllocPolicy(reuse, 0);
  bool kinds[2] = {false, false};
  for (auto& d : r.slot_def) kinds[d.second.second >= 0] = true;
  for (auto& s : r.schemas)
    for (size_t q = 0; q < r.pool.size(); ++q) {
      string model = Model(s.second, r.pool[q]);
      for (int src = 0; src < 2; ++src) {
        if (!kinds[src]) continue;
        std::unique_ptr<gt::TypeHelper> h(src ? new gt::TypeHelper(new SlowResolver(&s.second, 0)) : new gt::TypeHelper(s.second.types, s.second.enums));
        r.want[{s.first * 2 + src, q}] = {model, Ask<InMut>(*h, s.second, r.pool[q], nullptr)};
      }
    }
  for (auto& s : r.slot_def) r.Publish(s.first);
  int n = 0;
  for (int t = 1; t < kMaxThreads; ++t) if (!r.ops[static_cast<size_t>(t)].empty()) n = t;
  if (n) ThreadsRun(n, r.plan, Tag(16), [&](int t, int op) {
    if (op >= static_cast<int>(r.ops[static_cast<size_t>(t)].size())) return false;
    r.Exec(r.ops[static_cast<size_t>(t)][static_cast<size_t>(op)], 2);
    return true;
  });
  // Quiet again: every helper still answers everything.
  for (auto& s : r.slots) for (size_t q = 0; q < r.pool.size(); ++q) r.Question(s.first, q);
  for (auto& s : r.slots) r.Destroy(s.second);
}

// -------------------------------------------------------------- generator --
const vector<string> kNames = {"a", "b", "name", "shelf_id", "book", "x_y", "theme", "id", "caf\xc3\xa9", "a b", "A", "p%q"};
string Camel(const string& n) {
  string o;
  bool up = false;
  for (char c : n) { if (c == '_') { up = true; continue; } o += up && c >= 'a' && c <= 'z' ? static_cast<char>(c - 32) : c; up = false; }
  return o;
}
string Percent(Rng& g, const string& s) {
  string o;
  char b[8];
  bool any = false;
  for (unsigned char c : s) {
    if (g.Chance(0.4) || c >= 128 || c == ' ' || c == '%') { snprintf(b, sizeof b, g.Chance(0.5) ? "%%%02x" : "%%%02X", c); o += b; any = true; } else o += static_cast<char>(c);
  }
  if (!any && !s.empty()) { snprintf(b, sizeof b, "%%%02X", static_cast<unsigned char>(s[0])); o = b + s.substr(1); }
  return o;
}
vector<Line> GenTypes(Rng& g, int) {
  vector<Line> o;
  int reuse = static_cast<int>(g.Below(10));
  o.push_back({"reuse", S(reuse < 5 ? 0 : reuse < 7 ? 1 : 2)});
  int ns = g.Chance(0.6) ? 1 : 2;
  struct F { string name, json; bool msg; string type; };
  vector<vector<std::pair<string, vector<F>>>> sch(static_cast<size_t>(ns));
  vector<string> tnames = {"pkg.A", "pkg.B", "C", "pkg.deep.D", "E"}, enames = {"pkg.Color", "Kind"};
  for (int s = 0; s < ns; ++s) {
    int nt = static_cast<int>(g.Range(1, 5));
    for (int t = 0; t < nt; ++t) {
      string tn = g.Chance(0.04) && t ? tnames[0] : tnames[static_cast<size_t>(t)];
      o.push_back({"type", S(s), Esc(tn)});
      vector<F> fs;
      int nf = static_cast<int>(g.Range(1, 6));
      for (int f = 0; f < nf; ++f) {
        F x;
        x.name = g.Pick(kNames);
        int jk = static_cast<int>(g.Below(10));
        x.json = jk < 7 ? Camel(x.name) : jk < 8 ? "" : jk < 9 ? g.Pick(kNames) : "j" + S(f);
        x.msg = g.Chance(0.55);
        x.type = g.Chance(0.07) ? "pkg.Missing" : tnames[g.Below(static_cast<uint64_t>(nt))];
        string kind = x.msg ? "msg" : g.Chance(0.2) ? "enum" : g.Chance(0.05) ? "grp" : "str";
        o.push_back({"field", S(s), Esc(x.name), Esc(x.json), kind, Esc(kind == "enum" ? g.Pick(enames) : x.type)});
        fs.push_back(x);
      }
      sch[static_cast<size_t>(s)].push_back({tn, fs});
    }
    for (auto& e : enames) if (g.Chance(0.7)) o.push_back({"enum", S(s), Esc(e), S(g.Range(1, 4))});
  }
  int nslot = static_cast<int>(g.Range(1, 3));
  for (int i = 0; i < nslot; ++i) {
    if (g.Chance(0.6)) o.push_back({"slot", S(i), S(g.Below(static_cast<uint64_t>(ns))), "lists"});
    else o.push_back({"slot", S(i), S(g.Below(static_cast<uint64_t>(ns))), "source", S(g.Chance(0.5) ? 0 : g.Range(1, 4))});
  }
  int nq = static_cast<int>(g.Range(1, 10));
  for (int q = 0; q < nq; ++q) {
    auto& sc = sch[g.Below(static_cast<uint64_t>(ns))];
    auto* t = &sc[g.Below(sc.size())];
    string root = t->first;
    int k = static_cast<int>(g.Below(20));
    if (k < 12) {  // a path
      string p;
      int len = static_cast<int>(g.Chance(0.05) ? 0 : g.Range(1, 5));
      for (int i = 0; i < len && t; ++i) {
        const F* f = &g.Pick(t->second);
        if (i + 1 < len) for (int tr = 0; tr < 6 && !f->msg; ++tr) f = &g.Pick(t->second);
        string n = g.Chance(0.5) || f->json.empty() ? f->name : f->json;
        if (g.Chance(0.05)) n = g.Pick(kNames);
        if (g.Chance(0.03)) n = "%zz";
        if (g.Chance(0.25)) n = Percent(g, n);
        p += (i ? "." : "") + n;
        if (g.Chance(0.02)) p += ".";
        decltype(t) nx = nullptr;
        for (auto& c : sc) if (c.first == f->type) { nx = &c; break; }
        t = f->msg ? nx : g.Chance(0.1) ? nx : nullptr;
      }
      o.push_back({"ask", "path", Esc(root), Esc(p), S(g.Below(4))});
    } else if (k < 14) o.push_back({"ask", "find", Esc(root), Esc(g.Chance(0.8) ? g.Pick(t->second).json : g.Pick(kNames)), S(g.Below(2))});
    else {
      string url = kPrefix + g.Pick(tnames), eurl = kPrefix + g.Pick(enames);
      if (g.Chance(0.1)) url = "pkg.A";
      if (k < 16) o.push_back({"ask", "type", "-", Esc(url), "0"});
      else if (k < 17) o.push_back({"ask", "gtype", "-", Esc(url), "0"});
      else if (k < 18) o.push_back({"ask", "enum", "-", Esc(eurl), "0"});
      else if (k < 19) o.push_back({"ask", "rtype", "-", Esc(url), "0"});
      else o.push_back({"ask", "renum", "-", Esc(eurl), "0"});
    }
  }
  int nt = static_cast<int>(g.Range(g.Chance(0.05) ? 1 : 2, 6));
  vector<int> nops(static_cast<size_t>(nt) + 1);
  const double fail = g.Chance(0.25) ? 0.3 : 0;
  int64_t total = 0;
  for (int t = 1; t <= nt; ++t) {
    int n = static_cast<int>(g.Log(10));
    nops[static_cast<size_t>(t)] = n;
    total += n;
    for (int i = 0; i < n; ++i) {
      string slot = S(static_cast<int64_t>(g.Chance(0.7) ? 0 : g.Below(static_cast<uint64_t>(nslot))));
      int k = static_cast<int>(g.Below(20));
      if (k < 15) o.push_back({"op", S(t), "ask", slot, S(g.Below(static_cast<uint64_t>(nq))), S(g.Chance(fail) ? g.Range(1, 3) : 0)});
      else if (k < 17) o.push_back({"op", S(t), "burst", slot, S(g.Below(8)), S(g.Range(0, 3)), S(static_cast<int64_t>(g.Log(g.Chance(0.02) ? 600 : 12)))});
      else if (g.Chance(0.3)) o.push_back({"op", S(t), "swap", slot, S(g.Below(static_cast<uint64_t>(ns)))});
      else o.push_back({"op", S(t), "swap", slot});
    }
  }
  int64_t nsch = g.Range(0, total);
  int cur = 1;
  bool mixed = g.Chance(0.4);
  for (int64_t i = 0; i < nsch; ++i) {
    if (mixed || g.Chance(0.3)) cur = static_cast<int>(g.Range(1, nt));
    o.push_back({"sched", S(cur)});
  }
  if (nt > 1) {
    int64_t np = static_cast<int64_t>(g.Log(24));
    for (int64_t i = 0; i < np; ++i) {
      int t = static_cast<int>(g.Range(1, nt));
      int64_t op = static_cast<int64_t>(g.Below(static_cast<uint64_t>(nops[static_cast<size_t>(t)])));
      if (g.Chance(0.5)) o.push_back({"preempt", S(t), S(op), S(static_cast<int64_t>(g.Log(1500))), S(g.Range(1, nt))});
      else o.push_back({"syncpre", S(t), S(op), S(static_cast<int64_t>(g.Log(24))), S(g.Range(1, nt))});
    }
  }
  return o;
}
const Scenario kTypes = {"types", GenTypes, RunTypes, 40};
}  // namespace
const Scenario* TypesScenario() { return &kTypes; }
}  // namespace sim
