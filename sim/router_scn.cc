// Routing scenario: several simulated threads look up requests on shared
// matchers while other threads fill builders, build, publish and retire
// matchers (configuration reload), under seeded preemption, stalls, address
// reuse and allocation failure. Oracle: routemodel.
#include <memory>
#include <new>

#include "core.h"
#include "mut_router.h"
#include "routemodel.h"
#include "simsched.h"

namespace sim {
namespace {
Counter n_look("event.lookup"), n_match("event.lookup-matched"), n_bind("event.binding-checked"), n_reg("event.registration"),
    n_regfail("event.registration-rejected"), n_build("event.build"), n_pub("event.matcher-published"), n_retire("event.matcher-destroyed"),
    n_retire_late("fault.matcher-replaced-while-in-use"), n_bkeep("fault.builder-outlives-matcher"),
    n_oom_look("fault.alloc-failed-in-lookup"), n_oom_reg("fault.alloc-failed-in-registration"), n_oom_build("fault.alloc-failed-in-build"),
    n_abandon("fault.failed-registration-abandoned"), n_multi("probe.lookup-of-duplicate-route"), n_miss("event.lookup-missed"),
    n_dup("fault.duplicate-registration"), n_bdrop("fault.builder-dropped-unbuilt"), n_conc("probe.lookup-overlapped-other-operation"), n_zero("probe.empty-multi-segment-match"), n_half("fault.rule-half-registered"), n_alts("probe.lookup-after-half-registered-rule");

struct RuleLine { std::string method, tmpl, body; std::set<std::string> sys; bool has_sys; int kind; RTag tag; };
struct Table { int spec = 0; bool plus = false, unreg = false, faildup = false; std::vector<RuleLine> rules; };
struct Req { std::string method, path, query; };
// What may be registered: one table, or several after an allocation failure in
// the middle of a rule with more bindings (any number of its first bindings may
// be in). What the code then does rules tables out; one must always be left.
using Alts = std::vector<std::shared_ptr<MTable>>;
struct Holder {
  void* m = nullptr;
  Alts model;
  VC pub, drop;
  int refs = 0; bool replaced = false;
  std::vector<void*> kept;  // builders destroyed with or after the matcher
};
struct Builder { void* b = nullptr; Alts model; int tbl = 0; size_t next = 0; };

struct Run {
  std::map<int, Table> tables;
  std::vector<Req> pool;
  std::map<int, Holder*> slots;
  std::vector<Builder> builders = std::vector<Builder>(kMaxThreads);
  std::vector<std::vector<Line>> ops = std::vector<std::vector<Line>>(kMaxThreads);
  std::vector<Line> setup;
  SchedPlan plan;
  std::vector<std::unique_ptr<Holder>> all;
  int in_op = 0;
  bool oom_used = false;

  uint64_t Tags() const { return oom_used ? Tag(10) : (Tag(8) | Tag(9)); }

  static std::string Show(const std::vector<MBinding>& b) {
    std::string o;
    for (auto& x : b) {
      for (size_t i = 0; i < x.field.size(); ++i) o += (i ? "." : "") + x.field[i];
      o += "=" + x.value + ";";
    }
    return o;
  }
  void CheckLookup(Holder* h, const Req& r, int mode, int64_t oom) {
    CallBegins(static_cast<int64_t>(r.path.size() + r.query.size()));
    MResult want = h->model[0]->Lookup(r.method, r.path, r.query);
    std::vector<RBinding>* binds = nullptr;
    std::vector<RBinding> got_b;
    std::string got_body = "stale", *body = nullptr;
    if (mode == 0 || mode == 3) {
      binds = &got_b;
      got_b.resize(2);
      got_b[0].field_path = {"stale"}; got_b[1].value = "stale";
    }
    if (mode == 0 || mode == 2) body = &got_body;
    const RTag* got = nullptr;
    // The arguments live exactly as long as the call.
    for (int attempt = 0;; ++attempt) {
      std::string m(r.method), p(r.path), q(r.query);
      bool threw = false, other = false;
      if (oom && attempt == 0) OomArm(oom);
      try {
        Active a;
        got = mode == 1 ? mm_look_short(h->m, m, p) : mm_look(h->m, m, p, q, binds, body);
      } catch (const std::bad_alloc&) { threw = true; } catch (...) { other = true; }
      bool fired = OomDisarm();
      if (fired) oom_used = true;
      if (other) Violate(Tags(), "lookup:exception", "Lookup(%s %s) threw", r.method.c_str(), r.path.c_str());
      if (threw) {
        if (!fired) Violate(Tags(), "lookup:exception", "Lookup(%s %s) threw bad_alloc although no allocation failed", r.method.c_str(), r.path.c_str());
        n_oom_look++;
        Ev(0x00a);
        continue;  // the same call must work when retried
      }
      break;
    }
    int id = got ? got->id : -1;
    if (h->model.size() > 1) {
      Alts left;
      for (auto& a : h->model) {
        MResult w = a->Lookup(r.method, r.path, r.query);
        std::vector<MBinding> g;
        if (binds && id >= 0) for (auto& b : got_b) g.push_back(MBinding{b.field_path, b.value});
        if (w.id == id && (id < 0 || ((!body || got_body == w.body) && (!binds || g == w.bindings)))) left.push_back(a);
      }
      n_alts++;
      if (!left.empty()) h->model = left;
      want = h->model[0]->Lookup(r.method, r.path, r.query);
    }
    n_look++;
    if (want.id >= 0) { n_match++; Nontrivial(); } else n_miss++;
    Ev(0x100c, static_cast<uint64_t>(id + 1), got_b.size());
    Sig(static_cast<uint64_t>(id + 2));
    if (id != want.id)
      Violate(Tags(), "lookup:wrong-method", "thread %d: %s %s must be answered by rule %d but is answered by rule %d (-1: none)", t_tid,
              r.method.c_str(), r.path.c_str(), want.id, id);
    if (want.id < 0) return;
    if (body && got_body != want.body)
      Violate(Tags(), "lookup:wrong-body", "thread %d: %s %s: body field path '%s' instead of '%s'", t_tid, r.method.c_str(), r.path.c_str(),
              got_body.c_str(), want.body.c_str());
    if (binds) {
      std::vector<MBinding> g;
      for (auto& b : got_b) { g.push_back(MBinding{b.field_path, b.value}); Ev(HashStr(b.value)); if (b.value.empty()) n_zero++; }
      n_bind.Add(g.size());
      if (!(g == want.bindings))
        Violate(Tags(), "lookup:wrong-bindings", "thread %d: %s %s?%s binds %s instead of %s", t_tid, r.method.c_str(), r.path.c_str(),
                r.query.c_str(), Show(g).c_str(), Show(want.bindings).c_str());
    }
    Cov(Mix(Mix(mode, want.bindings.size()), Mix(g_threads_running, in_op)));
  }
  Holder* Pin(int slot) {
    auto it = slots.find(slot);
    if (it == slots.end()) return nullptr;
    Holder* h = it->second;
    ++h->refs;
    HbAcquire(&h->pub);
    return h;
  }
  void DestroyHolder(Holder* h) {
    HbAcquire(&h->drop);
    HbAcquire(&h->pub);
    n_retire++;
    { Active a; mm_delete(h->m); }
    h->m = nullptr;
    for (void* b : h->kept) { Active a; mb_delete(b); }
    h->kept.clear();
  }
  void Unpin(Holder* h) {
    HbRelease(&h->drop);
    if (--h->refs == 0 && h->replaced && h->m) DestroyHolder(h);
  }
  void Publish(int slot, void* m, Alts model, void* keep) {
    all.emplace_back(new Holder);
    Holder* h = all.back().get();
    h->m = m; h->model = model;
    if (keep) h->kept.push_back(keep);
    HbRelease(&h->pub);
    n_pub++;
    Holder* old = nullptr;
    auto it = slots.find(slot);
    if (it != slots.end()) old = it->second;
    slots[slot] = h;
    if (old) {
      old->replaced = true;
      if (old->refs == 0) DestroyHolder(old); else n_retire_late++;
    }
  }
  void NewBuilder(Builder* b, int tbl) {
    const Table& t = tables[tbl];
    b->tbl = tbl; b->next = 0;
    auto m = std::make_shared<MTable>();
    m->spec = t.spec; m->plus = t.plus; m->unreg = t.unreg; m->faildup = t.faildup;
    b->model = {m};
    Active a;
    b->b = mb_new();
    mb_opts(b->b, t.spec, t.plus, t.unreg, t.faildup);
  }
  // A rule of several bindings is registered binding by binding: after a failed
  // allocation the bindings before the one that failed may be registered.
  void HalfRegistered(Builder* b, const RuleLine& r, const std::vector<const RuleLine*>& group) {
    Alts more;
    for (auto& m : b->model) {
      auto cur = m;
      more.push_back(cur);
      for (size_t i = 0; i + 1 < group.size(); ++i) {
        auto* g = group[i];
        cur = std::make_shared<MTable>(*cur);
        if (!cur->Register(g->method, g->tmpl, g->body, r.has_sys ? r.sys : std::set<std::string>(), r.tag.id)) break;
        more.push_back(cur);
      }
    }
    b->model = more;
    n_half++;
  }
  // Registers the next rule (or rule group); false when none is left.
  bool RegisterNext(Builder* b, int64_t oom, bool retry) {
    const Table& t = tables[b->tbl];
    if (b->next >= t.rules.size()) return false;
    size_t first = b->next++;
    const RuleLine& r = t.rules[first];
    std::vector<const RuleLine*> group{&r};
    if (r.kind >= 2)
      while (b->next < t.rules.size() && t.rules[b->next].kind == 3) group.push_back(&t.rules[b->next++]);
    bool got = false, threw = false;
    for (int attempt = 0; attempt < 2; ++attempt) {
      // everything passed to registration is destroyed right afterwards
      auto sys = std::make_unique<std::unordered_set<std::string>>(r.sys.begin(), r.sys.end());
      auto m = std::make_unique<std::string>(r.method), p = std::make_unique<std::string>(r.tmpl), body = std::make_unique<std::string>(r.body);
      auto bs = std::make_unique<std::vector<HBinding>>();
      if (r.kind >= 2) for (auto* g : group) bs->push_back(HBinding{g->method, g->tmpl, g->body});
      std::unique_ptr<void, void (*)(void*)> rule(r.kind >= 2 ? mb_rule(*bs) : nullptr, mb_rule_delete);
      bs.reset();
      threw = false;
      bool other = false;
      if (oom && attempt == 0 && (group.size() == 1 || b->model.size() <= 30)) OomArm(oom);
      try {
        Active a;
        got = r.kind >= 2 ? mb_regrule(b->b, rule.get(), r.has_sys ? sys.get() : nullptr, &r.tag)
                          : mb_reg(b->b, *m, *p, *body, r.has_sys ? sys.get() : nullptr, &r.tag);
      } catch (const std::bad_alloc&) { threw = true; } catch (...) { other = true; }
      bool fired = OomDisarm();
      if (fired) oom_used = true;
      if (other || (threw && !fired)) Violate(Tags(), "register:exception", "Register(%s %s) threw", r.method.c_str(), r.tmpl.c_str());
      if (threw) {
        n_oom_reg++;
        Ev(0x00b);
        if (group.size() > 1) HalfRegistered(b, r, group);
        if (retry) continue;
        n_abandon++;
      }
      break;
    }
    if (threw) return true;  // abandoned: must leave no trace
    bool want = true;
    Alts left;
    for (auto& m : b->model) {
      want = true;
      for (auto* g : group) {
        size_t before = m->entries.size();
        want = m->Register(g->method, g->tmpl, g->body, r.has_sys ? r.sys : std::set<std::string>(), r.tag.id);
        if (want && m->entries.size() == before) n_dup++;
        if (!want) break;
      }
      if (want == got) left.push_back(m);
    }
    if (!left.empty()) { b->model = left; want = got; }
    n_reg++;
    if (!want) n_regfail++;
    Ev(0x4e9, got);
    if (got != want)
      Violate(oom_used ? Tag(10) : Tag(8) | Tag(9), "register:result", "Register(%s %s) returned %d instead of %d", r.method.c_str(), r.tmpl.c_str(), got, want);
    return true;
  }
  void BuildPublish(Builder* b, int slot, int keep, int64_t oom) {
    void* m = nullptr;
    for (int attempt = 0; attempt < 2; ++attempt) {
      if (oom && attempt == 0) OomArm(oom);
      bool threw = false;
      try { Active a; m = mb_build(b->b); } catch (const std::bad_alloc&) { threw = true; }
      bool fired = OomDisarm();
      if (fired) oom_used = true;
      if (!threw) break;
      if (!fired) Violate(Tags(), "build:exception", "Build threw bad_alloc although no allocation failed");
      n_oom_build++;
    }
    n_build++;
    void* bb = b->b;
    b->b = nullptr;
    if (keep) n_bkeep++;
    else { Active a; mb_delete(bb); }
    Publish(slot, m, b->model, keep ? bb : nullptr);
  }
  void Drop(Builder* b) {
    if (!b->b) return;
    n_bdrop++;
    { Active a; mb_delete(b->b); }
    b->b = nullptr;
  }

  void Exec(int t, const Line& l, size_t o) {
    const std::string& k = T(l, o);
    Ev(0x09, HashStr(k), t);
    Sig(HashStr(k) * 31 + t);
    ++in_op;
    if (in_op > 1) n_conc++;
    if (k == "look") {
      if (!pool.empty())
        if (Holder* h = Pin(static_cast<int>(I(l, o + 1)))) {
          CheckLookup(h, pool[I(l, o + 2) % pool.size()], static_cast<int>(I(l, o + 3)) & 3, I(l, o + 4));
          Unpin(h);
        }
    } else if (k == "burst") {
      if (!pool.empty())
        if (Holder* h = Pin(static_cast<int>(I(l, o + 1)))) {
          int64_t n = I(l, o + 4);
          size_t bytes = 0;  // a burst of huge requests is cut short: it would only cost time
          for (int64_t i = 0; i < n && bytes < (n > 2000 ? 4000000 : 300000); ++i) {
            const Req& q = pool[(I(l, o + 2) + i * I(l, o + 3)) % pool.size()];
            bytes += q.path.size() + q.query.size();
            CheckLookup(h, q, static_cast<int>(I(l, o + 5) + i / 3) & 3, 0);
          }
          Unpin(h);
        }
    } else if (k == "pub") {
      Builder b;
      NewBuilder(&b, static_cast<int>(I(l, o + 2)));
      int64_t i = 0;
      // [oom rule index, oom k, retry]
      for (;; ++i) if (!RegisterNext(&b, I(l, o + 5) && i == I(l, o + 4) ? I(l, o + 5) : 0, I(l, o + 6, 1))) break;
      BuildPublish(&b, static_cast<int>(I(l, o + 1)), static_cast<int>(I(l, o + 3)), I(l, o + 7));
    } else if (k == "bnew") {
      Drop(&builders[t]);
      NewBuilder(&builders[t], static_cast<int>(I(l, o + 1)));
    } else if (k == "breg") {
      if (builders[t].b) RegisterNext(&builders[t], I(l, o + 1), I(l, o + 2, 1));
    } else if (k == "bbuild") {
      if (builders[t].b) BuildPublish(&builders[t], static_cast<int>(I(l, o + 1)), static_cast<int>(I(l, o + 2)), I(l, o + 3));
    } else if (k == "bdrop") {
      Drop(&builders[t]);
    }
    --in_op;
  }
};

void RunRouter(const std::vector<Line>& lines) {
  Run r;
  int rule_id = 0, reuse = 0;
  for (auto& l : lines) {
    const std::string& k = T(l, 0);
    if (k == "reuse") reuse = static_cast<int>(I(l, 1));
    else if (k == "tbl") {
      Table& t = r.tables[static_cast<int>(I(l, 1))];
      t.spec = static_cast<int>(I(l, 2)) % 3; t.plus = I(l, 3); t.unreg = I(l, 4); t.faildup = I(l, 5);
    } else if (k == "rule") {
      RuleLine x;
      x.method = Unesc(T(l, 2)); x.tmpl = Unesc(T(l, 3)); x.body = Unesc(T(l, 4));
      std::string s = Unesc(T(l, 5)), cur;
      for (char c : s + ",") { if (c == ',') { if (!cur.empty()) x.sys.insert(cur); cur.clear(); } else cur += c; }
      x.kind = static_cast<int>(I(l, 6)); x.has_sys = x.kind != 1 && !x.sys.empty();
      x.tag.id = rule_id++;
      r.tables[static_cast<int>(I(l, 1))].rules.push_back(x);
    } else if (k == "req") r.pool.push_back(Req{Unesc(T(l, 1)), Unesc(T(l, 2)), Unesc(T(l, 3))});
    else if (k == "setup") r.setup.push_back(l);
    else if (k == "op") { int t = static_cast<int>(I(l, 1)); if (t >= 1 && t < kMaxThreads) r.ops[t].push_back(l); }
    else if (k == "sched") r.plan.order.push_back(static_cast<int>(I(l, 1)));
    else if (k == "preempt") r.plan.pre.push_back(Preempt{(int)I(l, 1), (int)I(l, 2), 0, I(l, 3), (int)I(l, 4)});
    else if (k == "syncpre") r.plan.pre.push_back(Preempt{(int)I(l, 1), (int)I(l, 2), 1, I(l, 3), (int)I(l, 4)});
  }
  AllocPolicy(reuse, 0);
  for (auto& l : r.setup) r.Exec(0, l, 1);
  int n = 0;
  for (int t = 1; t < kMaxThreads; ++t) if (!r.ops[t].empty()) n = t;
  if (n) ThreadsRun(n, r.plan, Tag(8) | Tag(9) | Tag(10), [&](int t, int op) {
    if (op >= static_cast<int>(r.ops[t].size())) return false;
    r.Exec(t, r.ops[t][op], 2);
    return true;
  });
  // Everything is quiet now: every published matcher still answers its rules.
  for (auto& s : r.slots)
    for (auto& q : r.pool) r.CheckLookup(s.second, q, 0, 0);
  for (int t = 0; t < kMaxThreads; ++t) r.Drop(&r.builders[t]);
  for (auto& s : r.slots) r.DestroyHolder(s.second);
}

// -------------------------------------------------------------- generator --
const std::vector<std::string> kLit = {"a", "b", "c", "v1", "shelves", "books", "x-y", "a.b", "~u", "a%20b", "e\xc3\xa9", "q+r", "@s", "%2F"};
const std::vector<std::string> kVal = {"a", "b", "c", "v1", "1", "x%2Fy", "x%20y", "%", "%4", "a%2fb%3F", "q%zz", "e%C3%A9", "p+q", "n.m", "%41%42", "-", "shelves", "1%2", "%2B%25"};
const std::vector<std::string> kVerb = {"get", "put", "cancel", "commit", "v", "w"};
const std::vector<std::string> kField = {"x", "y", "name", "a.b", "book.author.name", "id"};
const std::vector<std::string> kBody = {"", "*", "body", "a.b", "book"};
const std::vector<std::string> kMethod = {"GET", "POST", "PUT", "DELETE", "PATCH", "*", "HEAD"};
const std::vector<std::string> kSys = {"", "key", "key,alt", "x", "token,name", "id,x,y,key,alt,$.xgafv,access_token,book.author.name"};

std::string Method(Rng& g, int nm) {
  static const std::vector<std::string> other = {"get", "Post", "OPTIONS", "PROPFIND", "VERSION-CONTROL", "BASELINE-CONTROL-OF-X", "m", "x-custom", "GETX", "GE"};
  return g.Chance(0.05) ? g.Pick(other) : kMethod[g.Below(static_cast<uint64_t>(nm))];
}
bool TokChar(char c) { return isalnum(static_cast<unsigned char>(c)) || c == '_' || c == '-' || c == '~'; }
// Another token of the same length that differs in one character.
std::string Twin(Rng& g, std::string t) {
  if (t.empty()) return t;
  size_t i = g.Chance(0.5) ? t.size() - 1 : g.Below(t.size());
  char c = t[i];
  if (isalpha(static_cast<unsigned char>(c)) && g.Chance(0.3)) t[i] = static_cast<char>(c ^ 0x20);
  else t[i] = c == 'k' ? 'j' : 'k';
  return t;
}
// A token of the pool, a near copy of one, or an arbitrary one (also long).
std::string Tok(Rng& g, const std::vector<std::string>& pool) {
  int k = static_cast<int>(g.Below(20));
  if (k < 16) return g.Pick(pool);
  if (k < 18) {
    std::string t = g.Pick(pool);
    bool plain = !t.empty();
    for (char c : t) plain = plain && TokChar(c);
    if (!plain) return t;
    return k == 16 ? Twin(g, t) : t + t;
  }
  static const char al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_~";
  std::string o;
  int n = static_cast<int>(g.Log(40));
  for (int i = 0; i < n; ++i) o += al[g.Below(sizeof al - 1)];
  return o.empty() ? "z" : o;
}
// A path segment or query value as a client might send it: any mix of plain characters, escapes of any byte and broken escapes.
std::string Val(Rng& g) {
  if (g.Chance(0.7)) return Tok(g, kVal);
  if (g.Chance(0.02)) return g.Chance(0.3) ? "*" : "**";  // what templates use as wildcards
  static const char hex[] = "0123456789abcdefABCDEF";
  static const char pl[] = "abzAZ019-_.~!$'()+,;@%";
  static const char odd[] = "\t \n\x01\x7f\"#&:<=>?[\\]^`{|}*";
  std::string o;
  if (g.Chance(0.05)) return g.Chance(0.5) ? "." : "..";
  int n = static_cast<int>(g.Log(g.Chance(0.05) ? 300 : 12));
  for (int i = 0; i < n; ++i) {
    int k = static_cast<int>(g.Below(4));
    if (k == 0) { o += '%'; o += hex[g.Below(22)]; o += hex[g.Below(22)]; }
    else if (k == 1 && g.Chance(0.3)) o += static_cast<char>(128 + g.Below(128));
    else if (k == 2 && g.Chance(0.05)) o += odd[g.Below(sizeof odd)];  // '\0' too
    else o += pl[g.Below(sizeof pl - 1)];
  }
  return o.empty() ? "z" : o;
}
// Replaces tokens by their twins, the same way wherever they occur.
std::string Retoken(Rng& g, const std::string& s, std::map<std::string, std::string>* m) {
  std::string o;
  for (size_t i = 0; i < s.size();) {
    size_t j = i;
    while (j < s.size() && TokChar(s[j])) ++j;
    if (j == i) { o += s[i++]; continue; }
    std::string t = s.substr(i, j - i);
    auto it = m->find(t);
    if (it == m->end()) it = m->emplace(t, g.Chance(0.4) ? Twin(g, t) : t).first;
    o += it->second;
    i = j;
  }
  return o;
}

std::string Field(Rng& g) {
  std::string f = Tok(g, kField);
  if (g.Chance(0.04)) for (int n = static_cast<int>(g.Log(16)); n > 0; --n) f += "." + Tok(g, kField);
  return f;
}
std::string GenTemplate0(Rng& g, bool big) {
  if (g.Chance(0.03)) return "/";
  if (g.Chance(0.05)) {
    static const std::vector<std::string> bad = {"", "a", "//", "/a/", "/{x", "/a}", "/{x={y}}", "/**/**", "/**/*", "/a:", "/{=a}", "/{x.}/b", "/***", "/*a", "/a/{x=}"};
    return g.Pick(bad);
  }
  int n = static_cast<int>(big && g.Chance(0.1) ? g.Log(400) : g.Chance(0.03) ? g.Range(5, 30) : g.Range(1, 5));
  std::vector<std::string> segs;
  bool wild = false;
  int lit = g.Chance(0.5) ? 3 : 9;
  for (int i = 0; i < n; ++i) {
    int k = static_cast<int>(g.Below(10));
    if (!wild && k >= 9) { segs.push_back("**"); wild = true; }
    else if (!wild && k >= 6) segs.push_back("*");
    else segs.push_back(big && g.Chance(0.4) ? "r" + S(g.Below(2000)) : lit == 3 ? kLit[g.Below(3)] : Tok(g, kLit));
  }
  std::string o;
  int i = 0;
  while (i < n) {
    o += "/";
    if (g.Chance(segs[i][0] == '*' ? 0.6 : wild ? 0.3 : 0.1)) {
      int len = g.Chance(0.6) ? 1 : static_cast<int>(g.Range(1, n - i));
      std::string f = Field(g);
      if (len == 1 && segs[i] == "*" && g.Chance(0.6)) o += "{" + f + "}";
      else {
        o += "{" + f + "=";
        for (int j = 0; j < len; ++j) o += (j ? "/" : "") + segs[i + j];
        o += "}";
      }
      i += len;
    } else { o += segs[i]; ++i; }
  }
  if (g.Chance(0.2)) o += ":" + Tok(g, kVerb);
  return o;
}
// 4 %: a few characters of the template are lost, doubled, replaced or added;
// the routing model decides whether it is still a template.
std::string GenTemplate(Rng& g, bool big) {
  std::string t = GenTemplate0(g, big);
  if (!g.Chance(0.04)) return t;
  static const char kCh[] = "/:{}.=*ab_-%+~@ ";
  for (int n = static_cast<int>(g.Range(1, 2)); n > 0; --n) {
    size_t at = g.Below(t.size() + 1);
    char c = kCh[g.Below(g.Chance(0.8) ? 7 : sizeof kCh - 1)];
    switch (g.Below(4)) {
      case 0: if (at < t.size()) t.erase(at, 1); break;
      case 1: if (at < t.size()) t[at] = c; break;
      case 2: if (at < t.size()) t.insert(at, 1, t[at]); break;
      default: t.insert(at, 1, c);
    }
  }
  return t;
}
// A template that overlaps with the given one: a segment made more or less
// general, an end made a catch-all, a segment or the verb more or less.
std::string Near(Rng& g, const std::string& tmpl, bool big) {
  MTemplate t;
  if (!MParse(tmpl, &t)) return GenTemplate(g, big);
  std::vector<std::string> segs = t.segs;
  for (int n = static_cast<int>(g.Range(1, 2)); n > 0; --n) {
    size_t i = segs.empty() ? 0 : g.Below(segs.size());
    switch (g.Below(6)) {
      case 0: if (!segs.empty()) segs[i] = segs[i] == "*" ? Tok(g, kLit) : "*"; break;
      case 1: segs.resize(i); segs.push_back("**"); break;
      case 2: segs.push_back(g.Chance(0.5) ? "*" : Tok(g, kLit)); break;
      case 3: if (segs.size() > 1) segs.erase(segs.begin() + i); break;
      case 4: if (!segs.empty()) segs[i] = "**"; break;
      default: t.verb = t.verb.empty() || g.Chance(0.3) ? Tok(g, kVerb) : "";
    }
  }
  std::string o;
  for (auto& s : segs) {
    o += "/";
    if (s[0] == '*' && g.Chance(0.4)) o += "{" + Field(g) + (s == "*" && g.Chance(0.5) ? "" : "=" + s) + "}";
    else o += s;
  }
  return (o.empty() ? "/" : o) + (t.verb.empty() ? "" : ":" + t.verb);
}
std::string GenPath(Rng& g, const std::string& tmpl, bool big) {
  MTemplate t;
  std::vector<std::string> parts;
  std::string verb;
  if (MParse(tmpl, &t)) {
    verb = t.verb;
    for (auto& s : t.segs) {
      if (s == "*" && big && g.Chance(0.1)) {  // a very long value
        std::string v = Val(g);
        size_t n = static_cast<size_t>(g.Chance(0.2) ? g.Range(65530, 65545) : g.Log(70000));
        v.reserve(n);
        while (v.size() < n) v += v.size() % 7 ? "q" : "%20";
        parts.push_back(v);
      } else if (s == "*") parts.push_back(Val(g));
      else if (s == "**") { int n = static_cast<int>(big && g.Chance(0.2) ? (g.Chance(0.4) ? (1 << g.Range(4, 10)) - static_cast<int>(parts.size()) + g.Range(-1, 1) : g.Log(700)) : g.Chance(0.05) ? g.Log(60) : g.Range(0, 3)); for (int i = 0; i < n; ++i) parts.push_back(Val(g)); }
      else parts.push_back(s);
    }
  }
  int r = static_cast<int>(g.Below(30));
  if (r == 0) parts.push_back(Val(g));
  if (r == 1 && !parts.empty()) parts.pop_back();
  if (r == 2 && !parts.empty()) parts[g.Below(parts.size())] = Val(g);
  if (r == 3 && !parts.empty()) parts.insert(parts.begin() + g.Below(parts.size()), "");
  if (r == 4) verb = Tok(g, kVerb);
  if (r == 5) verb = "unknown";
  if (r == 6) verb = "";
  if (r == 7 && !parts.empty()) parts[g.Below(parts.size())] += ":" + Tok(g, kVerb);
  std::string o;
  for (auto& p : parts) o += "/" + p;
  if (o.empty()) o = "/";
  if (!verb.empty() && o != "/") o += ":" + verb;
  if (r == 8) o += "/";
  if (r == 9) o += "///";
  if (r == 10) o += "?x=1";
  if (r == 11) o.erase(0, 1);
  if (r == 12 && g.Chance(0.2)) o.clear();
  return o;
}
std::string GenQuery(Rng& g, bool big) {
  if (g.Chance(0.5)) return "";
  std::string o;
  int n = static_cast<int>(big && g.Chance(0.2) ? g.Log(400) : g.Range(1, 4));
  for (int i = 0; i < n; ++i) {
    if (i) o += "&";
    if (g.Chance(0.04)) {
      static const std::vector<std::string> odd = {"", "x==1", "x=&y=", "=", "==", "x=1&x=2&x=1", "name=%3D%26", "na%6De=1", ".=1", "a.=1", ".a=1", "a..b=1", "x=a+b", "+=1", "$.xgafv=2"};
      o += g.Pick(odd);
      continue;
    }
    if (big && g.Chance(0.02)) {
      o += "name=";
      size_t v = static_cast<size_t>(g.Chance(0.3) ? g.Range(65520, 65550) : g.Log(70000));
      for (size_t z = o.size() + v; o.size() < z;) o += o.size() % 9 ? "w" : "%2b";
      continue;
    }
    switch (g.Below(8)) {
      case 0: o += "key=abc"; break;
      case 1: o += "novalue"; break;
      case 2: o += "=bad"; break;
      case 3: o += "x=" + Val(g) + "=" + Val(g); break;
      case 4: o += "name="; break;
      default: o += Field(g) + "=" + Val(g);
    }
  }
  return o;
}
Line L(std::initializer_list<std::string> v) { return Line(v); }

std::vector<Line> GenRouter(Rng& g, int prop) {
  if (prop == 22) prop = static_cast<int>(g.Range(8, 10));
  std::vector<Line> o;
  int reuse = static_cast<int>(g.Below(10));
  o.push_back(L({"reuse", S(reuse < 6 ? 0 : reuse < 8 ? 1 : 2)}));
  const bool oom = prop == 10;
  const bool big = g.Chance(0.03);  // large tables, templates, paths and queries
  int ntbl = static_cast<int>(g.Range(1, prop == 8 ? 2 : 3));
  std::vector<std::vector<std::pair<std::string, std::string>>> rules(ntbl);
  std::vector<std::pair<std::string, std::string>> allr;
  std::vector<std::vector<Line>> ruleLines(ntbl);
  for (int t = 0; t < ntbl; ++t) {
    Line tbl = L({"tbl", S(t), S(g.Below(3)), S(g.Chance(0.4)), S(g.Chance(0.25)), S(g.Chance(0.3))});
    if (t > 0 && g.Chance(0.35)) {
      // nearly the table of another one: the same shapes, some names and texts of the same length but different
      int from = static_cast<int>(g.Below(t));
      for (auto& l : o) if (l[0] == "tbl" && l[1] == S(from)) tbl = l;
      tbl[1] = S(t);
      if (g.Chance(0.2)) tbl[2] = S(g.Below(3));
      o.push_back(tbl);
      std::map<std::string, std::string> tw;
      for (Line l : ruleLines[from]) {
        if (g.Chance(0.1)) continue;
        l[1] = S(t);
        std::string tmpl = Retoken(g, Unesc(l[3]), &tw);
        l[3] = Esc(tmpl);
        if (g.Chance(0.3)) l[4] = Esc(Retoken(g, Unesc(l[4]), &tw));
        if (g.Chance(0.3)) l[5] = Esc(Retoken(g, Unesc(l[5]), &tw));
        allr.push_back({Unesc(l[2]), tmpl});
        rules[t].push_back({Unesc(l[2]), tmpl});
        ruleLines[t].push_back(l);
        o.push_back(l);
      }
      continue;
    }
    o.push_back(tbl);
    int n = static_cast<int>(big && g.Chance(0.5) ? (g.Chance(0.15) ? g.Range(600, 1400) : g.Log(500)) : g.Log(oom ? 10 : 24));
    int nm = static_cast<int>(g.Range(1, kMethod.size()));
    for (int i = 0; i < n; ++i) {
      std::string tmpl, m = Method(g, nm);
      if (!allr.empty() && g.Chance(0.25)) {  // same template again: other method, other table, or a duplicate
        auto& p = allr[g.Below(allr.size())];
        tmpl = p.second;
        if (g.Chance(0.4)) m = p.first;
      } else if (!rules[t].empty() && g.Chance(0.3)) {
        auto& p = rules[t][g.Below(rules[t].size())];
        tmpl = Near(g, p.second, big);
        if (g.Chance(0.7)) m = p.first;
      } else tmpl = GenTemplate(g, big);
      if (tmpl.find(':') != std::string::npos && g.Chance(0.2)) m = "*";  // any method, with this verb
      if (g.Chance(0.04)) m += g.Pick(kVerb);                              // a method that ends like a verb
      allr.push_back({m, tmpl});
      rules[t].push_back({m, tmpl});
      int kind = static_cast<int>(g.Below(8));
      kind = kind < 4 ? 0 : kind < 6 ? 1 : kind < 7 ? 2 : 3;
      ruleLines[t].push_back(L({"rule", S(t), Esc(m), Esc(tmpl), Esc(Tok(g, kBody)), Esc(g.Pick(kSys)), S(kind)}));
      o.push_back(ruleLines[t].back());
    }
  }
  int npool = static_cast<int>(g.Range(1, oom ? 12 : 10));
  std::vector<std::pair<std::string, std::string>> seen;
  for (int i = 0; i < npool; ++i) {
    std::string m, p;
    if (!seen.empty() && g.Chance(0.35)) {  // same path, other method or query
      p = seen[g.Below(seen.size())].second;
      m = g.Chance(0.5) ? seen[g.Below(seen.size())].first : Method(g, static_cast<int>(kMethod.size()));
    } else {
      auto& r = allr.empty() ? seen.emplace_back("GET", "/a") : allr[g.Below(allr.size())];
      m = g.Chance(0.85) ? r.first : Method(g, static_cast<int>(kMethod.size()));
      p = GenPath(g, r.second, big);
      for (auto& v : kVerb)  // the method without its verb-like end, the verb on the path
        if (m.size() > v.size() && m.compare(m.size() - v.size(), v.size(), v) == 0 && g.Chance(0.5)) { m.resize(m.size() - v.size()); p += ":" + v; break; }
    }
    if (m == "*") m = "GET";
    seen.push_back({m, p});
    o.push_back(L({"req", Esc(m), Esc(p), Esc(GenQuery(g, big))}));
  }
  int nslot = static_cast<int>(g.Range(1, prop == 8 ? 2 : 3));
  for (int s = 0; s < nslot; ++s)
    if (!oom || g.Chance(0.5)) o.push_back(L({"setup", "pub", S(s), S(g.Below(ntbl)), S(g.Chance(0.2))}));
  // A matcher that has answered very many requests before (counters wrap).
  if (!oom && g.Chance(0.0007)) o.push_back(L({"setup", "burst", S(g.Below(nslot)), S(g.Below(16)), S(g.Range(1, 5)), S(g.Chance(0.5) ? 70000 : g.Log(70000)), S(g.Below(4))}));
  int nt = oom ? static_cast<int>(g.Range(1, 2)) : prop == 9 ? static_cast<int>(g.Range(1, 5)) : static_cast<int>(g.Range(2, 6));
  if (prop == 8 && g.Chance(0.1)) nt = 1;
  const bool longrun = !oom && g.Chance(0.06);
  std::vector<int> nops(nt + 1);
  int64_t total = 0;
  for (int t = 1; t <= nt; ++t) {
    int n = static_cast<int>(g.Log(oom ? 24 : 12));
    nops[t] = n; total += n;
    for (int i = 0; i < n; ++i) {
      int k = static_cast<int>(g.Below(100));
      int look = prop == 8 ? 90 : prop == 9 ? 55 : 35;
      auto oomk = [&](double p) { return S(oom && g.Chance(p) ? static_cast<int64_t>(g.Log(big ? 2000 : 48)) * (g.Chance(0.2) ? -1 : 1) : 0); };
      if (k < look) {
        if (g.Chance(0.15)) o.push_back(L({"op", S(t), "burst", S(g.Below(nslot)), S(g.Below(16)), S(g.Range(1, 5)), S(longrun ? g.Log(1500) : g.Log(30)), S(g.Below(4))}));
        else o.push_back(L({"op", S(t), "look", S(g.Below(nslot)), S(g.Below(npool)), S(g.Chance(0.6) ? 0 : g.Below(4)), oomk(0.5)}));
      } else {
        int j = static_cast<int>(g.Below(10));
        std::string slot = S(g.Below(nslot)), tbl = S(g.Below(ntbl)), keep = S(g.Chance(0.2));
        if (j < 3) {
          Line l = L({"op", S(t), "pub", slot, tbl, keep});
          if (oom) { l.push_back(S(g.Below(8))); l.push_back(S(static_cast<int64_t>(g.Log(g.Chance(0.2) ? 400 : 48)) * (g.Chance(0.2) ? -1 : 1))); l.push_back(S(g.Chance(0.5))); l.push_back(oomk(0.2)); }
          o.push_back(l);
        } else if (j < 4) o.push_back(L({"op", S(t), "bnew", tbl}));
        else if (j < 8) {
          if (g.Chance(0.2)) o.push_back(L({"op", S(t), "bnew", tbl}));
          int c = static_cast<int>(g.Range(1, 4));
          for (int q = 0; q < c; ++q) o.push_back(L({"op", S(t), "breg", oomk(0.6), S(g.Chance(0.5))}));
        } else if (j < 9) o.push_back(L({"op", S(t), "bbuild", slot, keep, oomk(0.3)}));
        else o.push_back(L({"op", S(t), "bdrop"}));
      }
    }
  }
  // schedule: order at operation boundaries, then preemptions
  int64_t ns = g.Range(0, total);
  int style = static_cast<int>(g.Below(3));
  int cur = 1;
  for (int64_t i = 0; i < ns; ++i) {
    if (style == 0 || g.Chance(0.3)) cur = static_cast<int>(g.Range(1, nt));
    o.push_back(L({"sched", S(cur)}));
  }
  if (nt > 1) {
    int64_t np = g.Log(24);
    for (int64_t i = 0; i < np; ++i) {
      int t = static_cast<int>(g.Range(1, nt));
      if (g.Chance(0.6)) o.push_back(L({"preempt", S(t), S(g.Below(nops[t])), S(g.Log(4000)), S(g.Range(1, nt))}));
      else o.push_back(L({"syncpre", S(t), S(g.Below(nops[t])), S(g.Log(16)), S(g.Range(1, nt))}));
    }
  }
  return o;
}

const Scenario kRouter = {"router", GenRouter, RunRouter, 12};
}  // namespace
std::vector<Choice> ScenariosFor(int prop) {
  if ((prop >= 8 && prop <= 10) || prop == 22) return {{&kRouter, 1}};
  return {};
}
const Scenario* FindScenario(const std::string& name) {
  if (name == "router") return &kRouter;
  return nullptr;
}
}  // namespace sim
