// End-to-end scenario (C17): several simulated threads each drive several
// HTTP/JSON calls, step by step, over a shared routing table and type helper:
// look up the route, resolve the bindings, transcode the request for a stub
// server, transcode its answer back for the client. Calls stall, break, are
// abandoned; tables are replaced. Oracles: the routing and message models, and
// the same call replayed alone on fresh tables with the same steps.
#include "mut_router.h"
#include "routemodel.h"
#include "transcalls.h"

namespace sim {
namespace {
Counter e_start("event.call-routed"), e_done("event.call-completed"), e_fail("event.call-ended-with-own-error"), e_aband("fault.call-abandoned"),
    e_noroute("fault.call-without-route"), e_badfield("fault.call-with-unknown-field"), e_reload("event.tables-replaced"), e_late("fault.tables-replaced-while-in-use"),
    e_resp("event.server-answer"), e_conc("probe.step-overlapped-other-call"), e_alone("probe.replayed-alone"), e_rt("probe.full-round-trip"),
    e_moved("event.call-continued-on-another-thread");

struct Rule { int id; string method, tmpl, body; bool streaming; int mode; RTag tag; vector<string> vars; string prefix; };
struct Place { BindVal b; bool query; };

struct Tables {
  void* m = nullptr;
  std::unique_ptr<Helper> h;
  VC pub, drop;
  int refs = 0;
  bool replaced = false;
};
struct CallDef {  // what the client and the server of one call do
  int id = 0, t = 1, slot = 0, rule = 0;
  bool qview = false, pview = false, noroute = false, badfield = false, typed = false;
  int64_t opts = 0, copts = 0;
  vector<Place> places;
  vector<Elem> elems;
  vector<string> extra;
  vector<Line> qfaults, pfaults;
  int64_t rflag = -1;
};
struct Call {
  const CallDef* d = nullptr;
  const Rule* r = nullptr;
  RCall q;
  PCall p;
  Tables* tab = nullptr;
  bool valid = true, started = false, refused = false, gone = false, busy = false;
  int last_t = 0;
  VC hand;  // orders the steps of the call when other threads take them over
  string path, query;
  vector<MBinding> want_b;
  vector<string> obs;  // everything this call observed
  size_t Avail() const {  // bytes the server has written by now
    if (q.ended) return p.src.all.size();
    if (p.mode == 0 || !q.got || p.end_at.empty()) return 0;
    size_t k = std::min(q.got, std::min(p.end_at.size(), q.want.size()));
    return k ? std::min(p.end_at[k - 1], p.src.all.size()) : 0;
  }
};

string UrlEnc(const string& s) {
  string o;
  char b[8];
  for (unsigned char c : s) {
    if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9')) o += static_cast<char>(c);
    else { snprintf(b, sizeof b, "%%%02X", c); o += b; }
  }
  return o;
}
vector<string> Dots(const string& p) {
  vector<string> o(1);
  for (char c : p) if (c == '.') o.emplace_back(); else o.back() += c;
  return o;
}

struct Run {
  vector<Rule> rules;
  std::map<int, CallDef> defs;
  vector<std::unique_ptr<Call>> calls;
  std::map<int, Call*> by_id;
  std::map<int, Tables*> slots;
  vector<std::unique_ptr<Tables>> all;
  MTable model;
  int in_op = 0;

  Tables* NewTables() {
    all.emplace_back(new Tables);
    Tables* t = all.back().get();
    t->h.reset(new Helper);
    void* b;
    { Active a; b = mb_new(); mb_opts(b, 0, false, false, false); }
    for (auto& r : rules) {
      Active a;
      if (!mb_reg(b, r.method, r.tmpl, r.body, nullptr, &r.tag)) Violate(Tag(17), "e2e:rule-rejected", "the valid rule %s %s is rejected", r.method.c_str(), r.tmpl.c_str());
    }
    Active a;
    t->m = mb_build(b);
    mb_delete(b);
    return t;
  }
  void Destroy(Tables* t) {
    HbAcquire(&t->drop);
    HbAcquire(&t->pub);
    Active a;
    mm_delete(t->m);
    t->m = nullptr;
    t->h.reset();
  }
  void Reload(int slot) {
    Tables* t = NewTables();
    HbRelease(&t->pub);
    auto it = slots.find(slot);
    Tables* old = it == slots.end() ? nullptr : it->second;
    slots[slot] = t;
    if (old) {
      e_reload++;
      old->replaced = true;
      if (!old->refs) Destroy(old); else e_late++;
    }
  }
  void Unref(Call& c) {
    if (!c.tab) return;
    Tables* t = c.tab;
    c.tab = nullptr;
    HbRelease(&t->drop);
    if (--t->refs == 0 && t->replaced) Destroy(t);
  }

  // Builds the state of a call from its definition; false: not a usable call.
  bool Init(Call& c, const CallDef& d, const Helper& h) {
    c.d = &d;
    c.r = &rules[static_cast<size_t>(d.rule) % rules.size()];
    RCall& q = c.q;
    PCall& p = c.p;
    q.id = p.id = d.id;
    q.charge = p.charge = Tag(17);
    q.obs = p.obs = &c.obs;
    q.streaming = c.r->streaming;
    q.delims = true;
    q.view = d.qview;
    q.path = c.r->body;
    q.elems = d.elems;
    q.reject = d.copts & 1;
    q.anycase = d.copts & 2;
    if (q.anycase) k_anycase++;
    if (!q.streaming && q.elems.empty() && (FindBodyPath(q.path)->type != 'm' || FindBodyPath(q.path)->rep || IsDynamic(FindBodyPath(q.path)->msg))) return false;
    // path variables in template order, then query parameters
    c.path = d.noroute ? "/nowhere" : "";
    string t = c.r->tmpl, verb;
    size_t colon = t.rfind(':');
    if (colon != string::npos && t.find('}', colon) == string::npos && t.find('/', colon) == string::npos) { verb = t.substr(colon); t = t.substr(0, colon); }
    size_t i = 0;
    while (i < t.size()) {
      if (t[i] != '{') { c.path += t[i++]; continue; }
      size_t e = t.find('}', i);
      string var = t.substr(i + 1, e - i - 1);
      var = var.substr(0, var.find('='));
      const Place* pl = nullptr;
      for (auto& x : d.places) if (!x.query && x.b.path == var) pl = &x;
      if (!pl || pl->b.url.empty()) return false;
      c.path += UrlEnc(pl->b.url);
      q.binds.push_back(pl->b);
      i = e + 1;
    }
    c.path += verb;
    for (auto& x : d.places) {
      if (!x.query) continue;
      c.query += (c.query.empty() ? "" : "&") + x.b.path + "=" + UrlEnc(x.b.url);
      q.binds.push_back(x.b);
    }
    if (d.badfield) c.query += string(c.query.empty() ? "" : "&") + "sub.nosuch=1";
    MResult mr = model.Lookup(c.r->method, c.path, c.query);
    if (mr.id != (d.noroute ? -1 : c.r->id)) return false;
    c.want_b = mr.bindings;
    Derive(q, d.qfaults);
    bool intact = !q.badbind;
    for (auto& e : q.elems) if (e.invalid) intact = false;
    if (intact) Reference(h, q);
    // the answer: every request message comes back, then extra messages
    p.mode = c.r->mode;
    p.view = d.pview;
    p.opt.json_print_options.add_whitespace = d.opts & 1;
    p.opt.json_print_options.always_print_primitive_fields = d.opts & 2;
    p.opt.json_print_options.always_print_enums_as_ints = d.opts & 4;
    p.opt.json_print_options.preserve_proto_field_names = d.opts & 8;
    p.opt.stream_newline_delimited = p.mode == 2;
    size_t n = q.faulty ? q.may : q.want.size();
    for (size_t k = 0; k < n; ++k) {
      Node node;
      if (!FromText(q.want[k], &node)) HarnessError("e2e want");
      p.msgs.push_back(Encode(node, kItem));
    }
    if (!q.faulty) for (auto& x : d.extra) p.msgs.push_back(x);
    if (p.mode == 0) {
      if (p.msgs.empty()) p.msgs.push_back("");
      p.msgs = {p.msgs.back()};
    }
    p.flags.assign(p.msgs.size(), 0);
    if (d.rflag >= 0 && !p.flags.empty()) p.flags[static_cast<size_t>(d.rflag) % p.flags.size()] = 1;
    DeriveResp(h, p, d.pfaults);
    return true;
  }

  // ---- the steps of a call ----
  void Start(Call& c, Tables* given) {
    if (c.started || c.gone) return;
    c.started = true;
    Tables* tab = given;
    if (!tab) {
      auto it = slots.find(c.d->slot);
      if (it == slots.end()) it = slots.begin();
      tab = it->second;
    }
    c.tab = tab;
    ++tab->refs;
    HbAcquire(&tab->pub);
    e_start++;
    vector<RBinding> b;
    string body = "stale";
    const RTag* got;
    {
      auto m = std::make_unique<string>(c.r->method), pa = std::make_unique<string>(c.path), qu = std::make_unique<string>(c.query);
      Active a;
      got = mm_look(tab->m, *m, *pa, *qu, &b, &body);
    }
    int id = got ? got->id : -1, want = c.d->noroute ? -1 : c.r->id;
    c.obs.push_back("route " + S(id));
    if (id != want) Violate(Tag(17), "e2e:wrong-route", "call %d: %s %s is routed to rule %d instead of %d", c.d->id, c.r->method.c_str(), c.path.c_str(), id, want);
    if (!got) { e_noroute++; c.refused = true; e_fail++; return; }
    if (body != c.r->body) Violate(Tag(17), "e2e:wrong-body-path", "call %d: body path '%s' instead of '%s'", c.d->id, body.c_str(), c.r->body.c_str());
    vector<MBinding> g;
    for (auto& x : b) { g.push_back(MBinding{x.field_path, x.value}); c.obs.push_back(x.value); }
    if (!(g == c.want_b)) Violate(Tag(17), "e2e:wrong-bindings", "call %d: %s?%s: %zu bindings, not the ones of this call", c.d->id, c.path.c_str(), c.query.c_str(), g.size());
    gt::RequestInfo ri;
    ri.message_type = &tab->h->types[0];
    if (c.d->typed) { Active a; ri.message_type = tab->h->th->Info()->GetTypeByTypeUrl("type.googleapis.com/sim.Item"); }
    if (!ri.message_type) Violate(Tag(17), "e2e:no-type", "call %d: request type not found", c.d->id);
    ri.body_field_path = body;
    if (c.q.reject) ri.reject_binding_body_field_collisions = true;
    if (c.q.anycase) ri.case_insensitive_enum_parsing = true;
    for (auto& x : b) {
      gt::RequestWeaver::BindingInfo bi;
      absl::Status st;
      { Active a; st = tab->h->th->ResolveFieldPath(*ri.message_type, x.field_path, &bi.field_path); }
      if (!st.ok()) {
        c.obs.push_back(StatusText(st));
        if (!c.d->badfield || x.field_path != vector<string>{"sub", "nosuch"} || st.code() != absl::StatusCode::kInvalidArgument)
          Violate(Tag(17), "e2e:binding-refused", "call %d: binding refused: %s", c.d->id, StatusText(st).c_str());
        e_badfield++;
        e_fail++;
        c.refused = true;
        return;
      }
      bi.value = x.value;
      ri.variable_bindings.push_back(bi);
    }
    if (c.d->badfield) Violate(Tag(17), "e2e:unknown-field-accepted", "call %d: an unknown field was resolved", c.d->id);
    Active a;
    c.q.tr.reset(MakeReq(tab->h->th->Resolver(), ri, &c.q.src, c.q.streaming, c.q.delims));
    if (c.q.view) c.q.in = c.q.tr->Output().CreateInputStream();
    c.p.tr.reset(MakeResp(tab->h->th->Resolver(), "type.googleapis.com/sim.Item", c.p.mode != 0, &c.p.src, c.p.opt));
    if (c.p.view) c.p.in = c.p.tr->CreateInputStream();
  }
  void Release(Call& c) {
    if (c.gone) return;
    c.gone = true;
    { Active a; c.q.in.reset(); c.q.tr.reset(); c.p.in.reset(); c.p.tr.reset(); }
    Unref(c);
  }
  void Finish(Call& c, Tables* given) {
    if (c.gone) return;
    Start(c, given);
    if (!c.refused) {
      FinishReq(c.q);
      c.p.src.Feed(c.Avail() - c.p.src.arrived, false);
      if (c.q.ended) {
        FinishResp(c.p);
        if (c.p.errored) e_fail++;
        else { e_done++; if (!c.q.want.empty()) e_rt++; }
      } else {
        e_fail++;
        for (int i = 0; i < 3; ++i) Step(c.p, 0, i == 1);
      }
    }
    Release(c);
  }
  void Exec(const string& k, Call& c, const Line& l, size_t o, Tables* given) {
    if (c.gone) return;
    Start(c, given);
    if (c.refused) return;
    if (k == "feed") { if (!c.q.src.closed) c.q.src.Feed(static_cast<size_t>(I(l, o)), I(l, o + 1) != 0); }
    else if (k == "pump") {
      int64_t n = std::max<int64_t>(1, std::min<int64_t>(I(l, o), 20));
      size_t before = c.q.got;
      for (int64_t i = 0; i < n; ++i) Step(c.q, static_cast<size_t>(I(l, o + 1)), I(l, o + 2) != 0);
      if (c.q.got > before) e_resp++;
    } else if (k == "close") { if (c.q.src.arrived == c.q.body.size()) c.q.src.Close(); }
    else if (k == "rfeed") {
      size_t left = c.Avail() - c.p.src.arrived;
      if (!c.p.src.closed) c.p.src.Feed(std::min(left, static_cast<size_t>(I(l, o))), I(l, o + 1) != 0);
    } else if (k == "rpump") {
      int64_t n = std::max<int64_t>(1, std::min<int64_t>(I(l, o), 20));
      for (int64_t i = 0; i < n; ++i) Step(c.p, static_cast<size_t>(I(l, o + 1)), I(l, o + 2) != 0);
    } else if (k == "rclose") { if (c.q.ended && c.p.src.arrived == c.p.src.all.size()) c.p.src.Close(); }
    else if (k == "drop") { e_aband++; Release(c); }
    else if (k == "finish") Finish(c, given);
  }
};

void RunE2e(const vector<Line>& lines) {
  Run r;
  int reuse = 0;
  bool move = false;  // the steps of a call may be taken by different threads
  vector<vector<Line>> ops(kMaxThreads);
  SchedPlan plan;
  for (auto& l : lines) {
    const string& k = T(l, 0);
    if (k == "reuse") reuse = static_cast<int>(I(l, 1));
    else if (k == "move") move = true;
    else if (k == "rule") {
      Rule x;
      x.id = x.tag.id = static_cast<int>(r.rules.size());
      x.method = T(l, 1);
      x.tmpl = Unesc(T(l, 2));
      x.body = Unesc(T(l, 3));
      if (!FindBodyPath(x.body)) x.body = "";
      x.streaming = I(l, 4) != 0;
      x.mode = static_cast<int>(I(l, 5)) % 3;
      r.rules.push_back(x);
    } else if (k == "call") {
      CallDef& d = r.defs[static_cast<int>(I(l, 1))];
      d.id = static_cast<int>(I(l, 1));
      d.t = static_cast<int>(I(l, 2));
      d.slot = static_cast<int>(I(l, 3));
      d.rule = static_cast<int>(I(l, 4));
      d.qview = I(l, 5); d.pview = I(l, 6); d.opts = I(l, 7); d.typed = I(l, 8);
      d.noroute = T(l, 9) == "noroute"; d.badfield = T(l, 9) == "badfield"; d.copts = I(l, 10);
    }
  }
  if (r.rules.empty()) return;
  for (auto& l : lines) {
    const string& k = T(l, 0);
    if (k == "op") { int t = static_cast<int>(I(l, 1)); if (t >= 1 && t < kMaxThreads) ops[static_cast<size_t>(t)].push_back(l); continue; }
    if (k == "sched") plan.order.push_back(static_cast<int>(I(l, 1)));
    else if (k == "preempt") plan.pre.push_back(Preempt{(int)I(l, 1), (int)I(l, 2), 0, I(l, 3), (int)I(l, 4)});
    else if (k == "syncpre") plan.pre.push_back(Preempt{(int)I(l, 1), (int)I(l, 2), 1, I(l, 3), (int)I(l, 4)});
    auto it = r.defs.find(static_cast<int>(I(l, 1)));
    if (it == r.defs.end()) continue;
    CallDef& d = it->second;
    if (k == "elem") d.elems.push_back(Elem{Raw(l, 2), Unesc(T(l, 3)), Raw(l, 5), Raw(l, 6), T(l, 4) == "late", T(l, 3) == "!"});
    else if (k == "bind") { if (BindField(T(l, 2))) d.places.push_back(Place{BindVal{T(l, 2), Raw(l, 3), Raw(l, 4), T(l, 5) == "bad"}, T(l, 6) != "path"}); }
    else if (k == "cut" || k == "bad") d.qfaults.push_back(l);
    else if (k == "rcut") { Line x = l; x[0] = "cut"; d.pfaults.push_back(x); }
    else if (k == "rflag") d.rflag = I(l, 2);
    else if (k == "msg") d.extra.push_back(Raw(l, 2));
  }
  AllocPolicy(reuse, 0);
  for (auto& x : r.rules) if (!r.model.Register(x.method, x.tmpl, x.body, {}, x.id)) return;  // gone wrong by minimisation
  {
    Helper ref;
    for (auto& kv : r.defs) {
      auto c = std::make_unique<Call>();
      if (kv.second.t < 1 || kv.second.t >= kMaxThreads || !r.Init(*c, kv.second, ref)) continue;
      r.by_id[kv.first] = c.get();
      r.calls.push_back(std::move(c));
    }
  }
  if (r.calls.empty()) return;
  if (r.calls.size() > 1) k_many++;
  for (int s = 0; s < 2; ++s) r.Reload(s);
  int n = 0;
  for (int t = 1; t < kMaxThreads; ++t) if (!ops[static_cast<size_t>(t)].empty()) n = t;
  std::map<int, vector<const Line*>> trace;  // steps of each call
  auto exec = [&](int t, const Line& l) {
    const string& k = T(l, 2);
    Ev(0x17, HashStr(k), static_cast<uint64_t>(t));
    if (k == "reload") { r.Reload(static_cast<int>(I(l, 3)) & 1); return; }
    auto it = r.by_id.find(static_cast<int>(I(l, 3)));
    if (it == r.by_id.end() || (!move && it->second->d->t != t) || it->second->gone || it->second->busy) return;
    Call& c = *it->second;
    HbAcquire(&c.hand);
    c.busy = true;
    if (c.last_t && c.last_t != t) e_moved++;
    c.last_t = t;
    ++r.in_op;
    if (r.in_op > 1) e_conc++;
    trace[it->first].push_back(&l);
    r.Exec(k, *it->second, l, 4, nullptr);
    Cov(Mix(0x17, Mix(HashStr(k), Mix(static_cast<uint64_t>(r.in_op), it->second->refused * 16u + it->second->q.ended * 8u + it->second->q.errored * 4u + it->second->p.ended * 2u + it->second->p.errored))));
    --r.in_op;
    c.busy = false;
    HbRelease(&c.hand);
  };
  for (int t = 1; t < kMaxThreads; ++t) for (auto& l : ops[static_cast<size_t>(t)]) trace[static_cast<int>(I(l, 3))];
  if (n) ThreadsRun(n, plan, Tag(17), [&](int t, int op) {
    if (op >= static_cast<int>(ops[static_cast<size_t>(t)].size())) return false;
    exec(t, ops[static_cast<size_t>(t)][static_cast<size_t>(op)]);
    return true;
  });
  // Faults stop: every call that was not abandoned comes to its end.
  for (auto& c : r.calls) if (!c->gone) r.Finish(*c, nullptr);
  for (auto& s : r.slots) r.Destroy(s.second);
  // Each call once more, alone, with the same steps: it must observe the same.
  Tables* alone = nullptr;
  Helper ref;
  for (auto& c : r.calls) {
    alone = r.NewTables();
    Call a;
    if (!r.Init(a, *c->d, ref)) HarnessError("e2e: replay alone");
    e_alone++;
    for (auto* l : trace[c->d->id]) r.Exec(T(*l, 2), a, *l, 4, alone);
    if (!a.gone) r.Finish(a, alone);
    r.Destroy(alone);
    size_t i = 0;
    while (i < a.obs.size() && i < c->obs.size() && a.obs[i] == c->obs[i]) ++i;
    if (i < a.obs.size() || i < c->obs.size())
      Violate(Tag(17), "e2e:not-as-alone", "call %d: observation %zu is '%s' among other calls and '%s' alone", c->d->id, i, i < c->obs.size() ? Quote(c->obs[i]).c_str() : "(none)",
              i < a.obs.size() ? Quote(a.obs[i]).c_str() : "(none)");
  }
}

// -------------------------------------------------------------- generator --
vector<Line> GenE2e(Rng& r, int) {
  vector<Line> o;
  int reuse = static_cast<int>(r.Below(10));
  o.push_back({"reuse", S(reuse < 5 ? 0 : reuse < 7 ? 1 : 2)});
  const bool move = r.Chance(0.4);
  if (move) o.push_back({"move"});
  int nr = static_cast<int>(r.Range(1, 5));
  struct R { string body; bool streaming; int mode; vector<string> vars; };
  vector<R> rules;
  static const vector<string> methods = {"GET", "POST", "PUT", "PATCH", "custom"};
  for (int k = 0; k < nr; ++k) {
    R x;
    x.body = PickBodyPath(r);
    x.streaming = r.Chance(0.5);
    x.mode = r.Chance(0.35) ? 0 : r.Chance(0.6) ? 1 : 2;
    string t = r.Chance(0.5) ? "/e" + S(k) : "/svc";
    int nv = static_cast<int>(r.Below(4));
    for (int v = 0; v < nv; ++v) {
      const string& f = PickBindPath(r);
      if (std::find(x.vars.begin(), x.vars.end(), f) != x.vars.end()) continue;
      x.vars.push_back(f);
      t += "/{" + f + (r.Chance(0.3) ? "=*}" : "}");
      if (r.Chance(0.3)) t += "/lit";
    }
    if (t.compare(0, 2, "/e") != 0) t += "/e" + S(k);
    if (r.Chance(0.25)) t += ":go";
    o.push_back({"rule", r.Pick(methods), Esc(t), Esc(x.body), S(x.streaming), S(x.mode)});
    rules.push_back(x);
  }
  int nt = static_cast<int>(r.Range(r.Chance(0.05) ? 1 : 2, 4));
  int nc = static_cast<int>(r.Range(nt, nt + 3));
  struct C { int t; size_t approx, rapprox; };
  vector<C> cs;
  for (int c = 0; c < nc; ++c) {
    int t = c < nt ? c + 1 : static_cast<int>(r.Range(1, nt));
    int ru = static_cast<int>(r.Chance(0.4) ? 0 : r.Below(static_cast<uint64_t>(nr)));
    const R& x = rules[static_cast<size_t>(ru)];
    int sp = static_cast<int>(r.Below(40));
    const bool reject = r.Chance(0.2), anycase = r.Chance(0.2);
    o.push_back({"call", S(c), S(t), S(r.Below(2)), S(ru), S(r.Chance(0.3)), S(r.Chance(0.3)), S(r.Below(16)), S(r.Chance(0.4)), sp == 0 ? "noroute" : sp == 1 ? "badfield" : "plain", S(reject + 2 * anycase)});
    bool fault = r.Chance(0.3);
    int fk = static_cast<int>(r.Below(14));  // 0-3 cut, 4-6 bad, 7 invalid element, 8-9 bad binding, 10-11 response cut, 12-13 bad response frame
    vector<string> used;
    vector<BindHint> hints;
    for (auto& v : x.vars) {
      const FieldDef* d = BindField(v);
      Node val;
      string url;
      for (int tr = 0; tr < 8 && url.empty(); ++tr) { val = GenScalar(r, d->type); url = ScalarUrl(d->type, val); if (d->type == 'e' && anycase && !reject) url = AnyCase(r, url); }
      if (url.empty()) continue;  // no such call then
      used.push_back(v);
      hints.push_back(BindHint{v, val.v});
      o.push_back({"bind", S(c), v, Esc(":" + val.v), Esc(":" + url), "ok", "path"});
    }
    int nb = r.Chance(0.5) ? 0 : static_cast<int>(r.Range(1, 3));
    for (int b = 0; b < nb; ++b) {
      const string& p = PickBindPath(r);
      const FieldDef* d = BindField(p);
      if (!d->rep && std::find(used.begin(), used.end(), p) != used.end()) continue;
      used.push_back(p);
      Node v = GenScalar(r, d->type);
      hints.push_back(BindHint{p, v.v});
      o.push_back({"bind", S(c), p, Esc(":" + v.v), Esc(":" + ScalarUrl(d->type, v)), "ok", "query"});
    }
    if (fault && (fk == 8 || fk == 9) && std::find(used.begin(), used.end(), "sub.id") == used.end()) o.push_back({"bind", S(c), "sub.id", ":", ":12x" + S(c), "bad", "query"});
    int ne = x.streaming ? static_cast<int>(r.Chance(0.15) ? 0 : r.Range(1, 4)) : 1;
    size_t approx = 2;
    int inval = fault && fk == 7 && ne ? static_cast<int>(r.Below(static_cast<uint64_t>(ne))) : -1;
    for (int e = 0; e < ne; ++e) {
      string json, canon, bad = e == inval ? InvalidElem(r, x.body) : "";
      bool late = false;
      if (!bad.empty()) { json = bad; canon = "!"; }
      else { ElemGen g = GenElem(r, x.body, hints, static_cast<int>(r.Below(8)), anycase, reject); json = g.json; canon = g.canon; late = g.late; }
      string pre = Ws(r), post = Ws(r);
      approx += json.size() + pre.size() + post.size() + 1;
      o.push_back({"elem", S(c), Esc(":" + json), canon == "!" ? "!" : Esc(canon), late ? "late" : "now", Esc(":" + pre), Esc(":" + post)});
    }
    if (fault && fk < 4) o.push_back({"cut", S(c), S(static_cast<int64_t>(r.Below(approx + 2)))});
    if (fault && fk >= 4 && fk < 7) o.push_back({"bad", S(c), S(static_cast<int64_t>(r.Below(approx + 2))), S(static_cast<int64_t>(r.Below(3)))});
    size_t ra = approx;
    if (x.mode != 0 && r.Chance(0.4)) {
      int nm = static_cast<int>(r.Range(1, 4));
      for (int m = 0; m < nm; ++m) {
        GenOpts go;
        go.budget = static_cast<int>(r.Below(8));
        string b = Encode(GenMsg(r, kItem, &go, 3), kItem);
        ra += b.size() + 5;
        o.push_back({"msg", S(c), Esc(":" + b)});
      }
    }
    if (fault && fk >= 10 && fk < 12) o.push_back({"rcut", S(c), S(static_cast<int64_t>(r.Below(ra + 3)))});
    if (fault && fk >= 12) o.push_back({"rflag", S(c), S(r.Below(4))});
    cs.push_back(C{t, approx, ra});
  }
  vector<int64_t> nops(static_cast<size_t>(nt) + 1);
  int64_t total = 0;
  int style = static_cast<int>(r.Below(4));
  for (int t = 1; t <= nt; ++t) {
    vector<int> mine;
    for (int c = 0; c < nc; ++c) if (move || cs[static_cast<size_t>(c)].t == t) mine.push_back(c);
    int n = static_cast<int>(r.Range(3, r.Chance(0.2) ? 40 : 14));
    for (int i = 0; i < n; ++i) {
      int c = r.Pick(mine);
      const C& x = cs[static_cast<size_t>(c)];
      auto amount = [&](size_t a) {
        return S(static_cast<int64_t>(style == 0 ? r.Range(1, 3) : style == 1 ? r.Range(1, 12) : style == 2 ? static_cast<int64_t>(r.Below(a) + 1) : static_cast<int64_t>(r.Log(a))));
      };
      uint64_t k = r.Below(100);
      string back = S(r.Chance(0.25) ? static_cast<int64_t>(r.Below(12)) : 0);
      if (k < 4) o.push_back({"op", S(t), "start", S(c)});
      else if (k < 26) o.push_back({"op", S(t), "feed", S(c), amount(x.approx), S(r.Chance(0.3))});
      else if (k < 46) o.push_back({"op", S(t), "pump", S(c), S(r.Range(1, 4)), back, S(r.Chance(0.4))});
      else if (k < 52) o.push_back({"op", S(t), "close", S(c)});
      else if (k < 64) o.push_back({"op", S(t), "rfeed", S(c), amount(x.rapprox), S(r.Chance(0.3))});
      else if (k < 80) o.push_back({"op", S(t), "rpump", S(c), S(r.Range(1, 4)), back, S(r.Chance(0.4))});
      else if (k < 83) o.push_back({"op", S(t), "rclose", S(c)});
      else if (k < 94) o.push_back({"op", S(t), "finish", S(c)});
      else if (k < 97) o.push_back({"op", S(t), "drop", S(c)});
      else o.push_back({"op", S(t), "reload", S(r.Below(2))});
    }
    for (int c : mine) if (r.Chance(0.5)) { o.push_back({"op", S(t), "finish", S(c)}); ++n; }
    nops[static_cast<size_t>(t)] = n;
    total += n;
  }
  int64_t ns = r.Range(0, total);
  int cur = 1;
  bool mixed = r.Chance(0.5);
  for (int64_t i = 0; i < ns; ++i) {
    if (mixed || r.Chance(0.3)) cur = static_cast<int>(r.Range(1, nt));
    o.push_back({"sched", S(cur)});
  }
  if (nt > 1) {
    int64_t np = static_cast<int64_t>(r.Log(24));
    for (int64_t i = 0; i < np; ++i) {
      int t = static_cast<int>(r.Range(1, nt));
      int64_t op = static_cast<int64_t>(r.Below(static_cast<uint64_t>(nops[static_cast<size_t>(t)])));
      if (r.Chance(0.7)) o.push_back({"preempt", S(t), S(op), S(static_cast<int64_t>(r.Log(6000))), S(r.Range(1, nt))});
      else o.push_back({"syncpre", S(t), S(op), S(static_cast<int64_t>(r.Log(24))), S(r.Range(1, nt))});
    }
  }
  return o;
}
const Scenario kE2e = {"e2e", GenE2e, RunE2e, 16};
}  // namespace
const Scenario* E2eScenario() { return &kE2e; }
}  // namespace sim
