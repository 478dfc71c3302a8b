// reqevents - the request translators fed by another producer than the JSON
// parser (they are ObjectWriters): typed events, several translations
// interleaved, polls in between (C12, C20).
Counter v_ev("event.producer_event"), v_typed("probe.typed_numbers"), v_misnest("fault.misnested_producer_events"), v_done("event.event_fed_message");

struct Event { int kind; string name, val; };  // kind: as in Emit
enum { kSO, kEO, kSL, kEL, kBool, kI32, kU32, kI64, kU64, kDbl, kFlt, kStr, kByt, kNul };

void Fire(pb::util::converter::ObjectWriter* w, const Event& e) {
  // The strings live exactly as long as the call.
  std::unique_ptr<string> n(new string(e.name)), v(new string(e.val));
  Active a;
  switch (e.kind) {
    case kSO: w->StartObject(*n); break;
    case kEO: w->EndObject(); break;
    case kSL: w->StartList(*n); break;
    case kEL: w->EndList(); break;
    case kBool: w->RenderBool(*n, *v == "1"); break;
    case kI32: w->RenderInt32(*n, static_cast<int32_t>(strtoll(v->c_str(), nullptr, 10))); break;
    case kU32: w->RenderUint32(*n, static_cast<uint32_t>(strtoull(v->c_str(), nullptr, 10))); break;
    case kI64: w->RenderInt64(*n, strtoll(v->c_str(), nullptr, 10)); break;
    case kU64: w->RenderUint64(*n, strtoull(v->c_str(), nullptr, 10)); break;
    case kDbl: w->RenderDouble(*n, strtod(v->c_str(), nullptr)); break;
    case kFlt: w->RenderFloat(*n, strtof(v->c_str(), nullptr)); break;
    case kStr: w->RenderString(*n, *v); break;
    case kByt: w->RenderBytes(*n, *v); break;
    case kNul: w->RenderNull(*n); break;
  }
}
void PutScalar(Rng& r, vector<Event>* o, const string& name, char type, const Node& n, const GenOpts& g) {
  string u = ScalarUrl(type, n);
  vector<int> k;
  switch (type) {
    case 's': case 'W': case 'T': k = {kStr}; break;
    case 'y':
      if (!g.enum_names && r.Chance(0.5)) { o->push_back({kByt, name, n.v}); return; }
      k = {kStr};
      break;
    case 'b': if (r.Chance(0.7)) { o->push_back({kBool, name, n.v}); return; } k = {kStr}; break;
    case 'e':
      if (!g.enum_names && r.Chance(0.3)) { o->push_back({kI32, name, n.v}); return; }
      if (g.anycase) u = AnyCase(r, u);
      k = {kStr};
      break;
    case 'd': case 'f': {
      double v = strtod(u.c_str(), nullptr);
      k = {kStr};
      if (v == v) { k.push_back(kDbl); k.push_back(kDbl); if (static_cast<double>(static_cast<float>(v)) == v) k.push_back(kFlt); }
      break;
    }
    default: {
      bool neg = u[0] == '-';
      uint64_t m = strtoull(u.c_str() + neg, nullptr, 10);
      k = {kStr};
      if (m <= 0x7fffffff) k.push_back(kI32);
      if (m <= 0x7fffffffffffffffull) k.push_back(kI64);
      if (!neg) { k.push_back(kU64); if (m <= 0xffffffffu) k.push_back(kU32); }
      if (m < (1ull << 53)) k.push_back(kDbl);
      if (m < (1ull << 24)) k.push_back(kFlt);
    }
  }
  int x = k[r.Below(k.size())];
  if (x != kStr) v_typed++;
  o->push_back({x, name, u});
}
void PutMsg(Rng& r, vector<Event>* o, const string& name, const Node& n, MsgType t, const GenOpts& g);
void PutValue(Rng& r, vector<Event>* o, const string& name, char type, MsgType msg, bool rep, const vector<Node>& v, const GenOpts& g) {
  if (type == 'm' && msg == kEntry) {
    o->push_back({kSO, name, ""});
    for (auto& e : v) {
      auto val = e.f.find(2);
      o->push_back({kStr, e.f.at(1)[0].v, val == e.f.end() ? "" : val->second[0].v});
    }
    o->push_back({kEO, "", ""});
  } else if (rep) {
    o->push_back({kSL, name, ""});
    for (auto& x : v) if (type == 'm') PutMsg(r, o, "", x, msg, g); else PutScalar(r, o, "", type, x, g);
    o->push_back({kEL, "", ""});
  } else if (type == 'm') PutMsg(r, o, name, v[0], msg, g);
  else PutScalar(r, o, name, type, v[0], g);
}
void PutDynamic(Rng& r, vector<Event>* o, const string& name, const Node& n, MsgType t) {
  if (t == kValue) {
    auto& kv = *n.f.begin();
    const Node& x = kv.second[0];
    switch (kv.first) {
      case 1: o->push_back({kNul, name, ""}); break;
      case 2: {
        string u = ScalarUrl('d', x);
        double v = strtod(u.c_str(), nullptr);
        int k = kDbl;
        if (r.Chance(0.5)) {
          if (static_cast<double>(static_cast<float>(v)) == v) k = kFlt;
          if (v == std::floor(v) && std::fabs(v) < 2e9 && r.Chance(0.7)) { k = v < 0 || r.Chance(0.5) ? (r.Chance(0.5) ? kI32 : kI64) : r.Chance(0.5) ? kU32 : kU64; u = S(static_cast<int64_t>(v)); }
        }
        o->push_back({k, name, u});
        break;
      }
      case 3: o->push_back({kStr, name, x.v}); break;
      case 4: o->push_back({kBool, name, x.v}); break;
      case 5: PutDynamic(r, o, name, x, kStruct); break;
      default: PutDynamic(r, o, name, x, kList);
    }
    return;
  }
  o->push_back({t == kStruct ? kSO : kSL, name, ""});
  auto it = n.f.find(1);
  if (it != n.f.end())
    for (auto& e : it->second) {
      if (t == kStruct) PutDynamic(r, o, e.f.at(1)[0].v, e.f.at(2)[0], kValue);
      else PutDynamic(r, o, "", e, kValue);
    }
  o->push_back({t == kStruct ? kEO : kEL, "", ""});
}
void PutMsg(Rng& r, vector<Event>* o, const string& name, const Node& n, MsgType t, const GenOpts& g) {
  if (IsDynamic(t)) { PutDynamic(r, o, name, n, t); return; }
  o->push_back({kSO, name, ""});
  vector<vector<Event>> parts;
  for (auto& d : Fields(t)) {
    auto it = n.f.find(d.num);
    string key = r.Chance(0.5) ? d.json : d.name;
    if (it == n.f.end()) {
      if (r.Chance(0.05) && !(d.type == 'm' && IsDynamic(d.msg))) parts.push_back({{kNul, key, ""}});
      continue;
    }
    parts.emplace_back();
    PutValue(r, &parts.back(), key, d.type, d.msg, d.rep, it->second, g);
  }
  if (r.Chance(0.15)) {
    string z = "zz_" + S(r.Below(9));
    if (r.Chance(0.5)) parts.push_back({{static_cast<int>(r.Range(kBool, kNul)), z, "1"}});
    else parts.push_back({{kSO, z, ""}, {kI32, "name", "5"}, {kSL, "k", ""}, {kFlt, "", "1.5"}, {kEL, "", ""}, {kEO, "", ""}});
  }
  for (size_t i = parts.size(); i > 1; --i) std::swap(parts[i - 1], parts[r.Below(i)]);
  for (auto& p : parts) o->insert(o->end(), p.begin(), p.end());
  o->push_back({kEO, "", ""});
}

struct ECall {
  RCall q;  // definition and expected messages
  vector<Event> ev;
  vector<size_t> ends;  // number of events that complete message i
  size_t fired = 0, got = 0;
  string fault;
  size_t fault_at = SIZE_MAX;  // no message may complete after it
  bool failed = false;
  string err;
  std::unique_ptr<gt::RequestMessageTranslator> m;
  std::unique_ptr<gt::RequestStreamTranslator> s;
  gt::MessageStream& Out() { return m ? static_cast<gt::MessageStream&>(*m) : *s; }
  pb::util::converter::ObjectWriter* In() { return m ? &m->Input() : static_cast<pb::util::converter::ObjectWriter*>(s.get()); }
};

void PollEvents(ECall& c) {
  RCall& q = c.q;
  const uint64_t tags = Tag(12) | Tag(20);
  string msg = "stale";
  bool r, fin;
  absl::Status st;
  { Active a; r = c.Out().NextMessage(&msg); st = c.Out().Status(); fin = c.Out().Finished(); }
  Ev(210, r, static_cast<uint64_t>(st.code()));
  size_t ready = 0;
  while (ready < q.want.size() && c.ends[ready] <= std::min(c.fired, c.fault_at)) ++ready;
  const bool broken = q.badbind || c.fault_at != SIZE_MAX;
  if (!st.ok()) {
    if (!broken) Violate(tags, "spurious-error", "call %d: valid events reported as '%s'", q.id, StatusText(st).c_str());
    if (st.code() != absl::StatusCode::kInvalidArgument) Violate(tags, "error-code", "call %d: '%s' is no invalid argument", q.id, StatusText(st).c_str());
    if (c.failed && StatusText(st) != c.err && c.s) Violate(tags, "error-not-final", "call %d: error '%s' became '%s'", q.id, c.err.c_str(), StatusText(st).c_str());
    if (c.s && !fin) Violate(tags, "error-not-finished", "call %d: error '%s' but not finished", q.id, StatusText(st).c_str());
    c.failed = true;
    c.err = StatusText(st);
    Nontrivial();
  } else if (c.failed) Violate(tags, "error-not-final", "call %d: error '%s' went away", q.id, c.err.c_str());
  if (q.badbind) {  // the message itself says nothing then
    if (c.s && r) Violate(tags, "message-of-broken-input", "call %d: a message with a contradicted or invalid binding was delivered", q.id);
    return;
  }
  if (r) {
    if (c.got >= ready) Violate(tags, "early-message", "call %d: message %zu delivered after %zu events", q.id, c.got, c.fired);
    string p = msg;
    if (q.delims) {
      string hdr = Frame(p.size() >= 5 ? p.substr(5) : "");
      if (p.size() < 5 || p.compare(0, 5, hdr, 0, 5) != 0) Violate(tags, "bad-header", "call %d: message %zu has a wrong frame header: %s", q.id, c.got, Quote(msg).c_str());
      p = p.substr(5);
    }
    Node node;
    string err;
    if (!Decode(p, kItem, &node, &err)) Violate(tags, "undecodable-message", "call %d: message %zu: %s: %s", q.id, c.got, err.c_str(), Quote(msg).c_str());
    Normalize(&node, kItem);
    string got = ToText(node);
    if (got != q.want[c.got]) Violate(tags, "wrong-message", "call %d: message %zu is\n  %s\nexpected\n  %s", q.id, c.got, got.c_str(), q.want[c.got].c_str());
    v_done++;
    Nontrivial();
    Sig(Mix(static_cast<uint64_t>(q.id), HashStr(msg)));
    ++c.got;
    return;
  }
  if (c.got < ready && !c.failed) Violate(tags, "complete-element-withheld", "call %d: message %zu is complete after %zu events and not delivered", q.id, c.got, c.fired);
  if (!c.failed) {
    bool end = c.m ? c.got > 0 : c.fired == c.ev.size() && c.got == q.want.size();
    if (fin != end) Violate(tags, "finished-flag", "call %d: finished=%d after %zu of %zu events and %zu of %zu messages", q.id, fin, c.fired, c.ev.size(), c.got, q.want.size());
  }
}

void RunEvents(const vector<Line>& lines) {
  std::map<int, std::unique_ptr<ECall>> calls;
  for (auto& l : lines) {
    if (l[0] != "call") continue;
    auto& p = calls[static_cast<int>(I(l, 1))];
    if (p) continue;
    p.reset(new ECall);
    RCall& q = p->q;
    q.id = static_cast<int>(I(l, 1));
    q.streaming = I(l, 2) != 0;
    q.delims = I(l, 3) != 0;
    q.path = Unesc(T(l, 4));
    if (!FindBodyPath(q.path)) q.path = "";
    q.reject = I(l, 5) & 1;
    q.anycase = I(l, 5) & 2;
    p->fault = T(l, 6);
  }
  for (auto& l : lines) {
    auto it = calls.find(static_cast<int>(I(l, 1)));
    if (l[0] == "call" || it == calls.end()) continue;
    RCall& q = it->second->q;
    if (l[0] == "elem") q.elems.push_back(Elem{"x", Unesc(T(l, 2)), "", "", false, false}), q.elems.back().pre = T(l, 3);
    else if (l[0] == "bind") { if (BindField(T(l, 2))) q.binds.push_back(BindVal{T(l, 2), Raw(l, 3), Raw(l, 4), T(l, 5) == "bad"}); }
  }
  if (calls.empty()) return;
  Helper h;
  for (auto& kv : calls) {
    ECall& c = *kv.second;
    RCall& q = c.q;
    if (!q.streaming && q.elems.empty()) { q.elems.push_back(Elem{"x", "{}", "1", "", false, false}); q.path.clear(); }
    const BodyPath* bp = FindBodyPath(q.path);
    vector<string> seeds;
    for (auto& e : q.elems) { seeds.push_back(e.pre); e.pre.clear(); }
    Derive(q, {});
    GenOpts g;
    g.anycase = q.anycase && !q.reject;
    g.enum_names = q.reject;
    if (q.streaming) c.ev.push_back({kSL, "", ""});
    for (size_t i = 0; i < q.want.size(); ++i) {
      Rng r(strtoull(seeds[i].c_str(), nullptr, 10));
      Node n;
      FromText(q.elems[i].canon, &n);
      // the part of the message at the body path
      vector<Node> at{n};
      if (!q.path.empty() && q.path != "*") {
        MsgType t = kItem;
        string rest = q.path;
        while (true) {
          size_t dot = rest.find('.');
          const FieldDef* d = FieldByName(t, rest.substr(0, dot));
          vector<Node> next;
          if (!at.empty()) { auto f = at[0].f.find(d->num); if (f != at[0].f.end()) next = f->second; }
          at = next;
          t = d->msg;
          if (dot == string::npos) break;
          rest = rest.substr(dot + 1);
        }
        if (at.empty() && !bp->rep) at.push_back(bp->type == 'm' ? Node::Msg() : Node::Scalar(bp->type == 's' ? "" : "0"));
      }
      PutValue(r, &c.ev, "", bp->type, bp->msg, bp->rep, at, g);
      c.ends.push_back(c.ev.size());
    }
    if (q.streaming) {
      if (c.fault == "close") { v_misnest++; c.fault_at = c.ev.size(); c.ev.push_back({kEO, "", ""}); c.ev.push_back({kEL, "", ""}); }
      else {
        c.ev.push_back({kEL, "", ""});
        if (c.fault == "root") { v_misnest++; c.fault_at = 0; c.ev[0].kind = q.id & 1 ? kSO : kI32; }
      }
    }
    gt::RequestInfo ri = Info(h, q);
    Active a;
    if (q.streaming) c.s.reset(new gt::RequestStreamTranslator(*h.th->Resolver(), q.delims, std::move(ri)));
    else c.m.reset(new gt::RequestMessageTranslator(*h.th->Resolver(), q.delims, std::move(ri)));
  }
  for (auto& l : lines) {
    auto it = calls.find(static_cast<int>(I(l, 1)));
    if (it == calls.end() || (!it->second->m && !it->second->s)) continue;
    ECall& c = *it->second;
    if (l[0] == "ev") {
      for (int64_t n = I(l, 2); n > 0 && c.fired < c.ev.size(); --n) { v_ev++; Fire(c.In(), c.ev[c.fired++]); }
    } else if (l[0] == "poll") PollEvents(c);
    else if (l[0] == "drop") { Active a; c.m.reset(); c.s.reset(); k_drop++; }
  }
  for (auto& kv : calls) {
    ECall& c = *kv.second;
    if (!c.m && !c.s) continue;
    while (c.fired < c.ev.size()) { v_ev++; Fire(c.In(), c.ev[c.fired++]); }
    for (size_t i = 0; i < c.q.want.size() + 3; ++i) PollEvents(c);
    if ((c.fault_at != SIZE_MAX || c.q.badbind) && !c.failed)
      Violate(Tag(12) | Tag(20), "error-swallowed", "call %d: %s not reported", c.q.id, c.q.badbind ? "a contradicted or invalid binding" : "misnested input");
    if (!c.failed && c.got != c.q.want.size()) Violate(Tag(12) | Tag(20), "stuck", "call %d: %zu of %zu messages", c.q.id, c.got, c.q.want.size());
    Active a;
    c.m.reset();
    c.s.reset();
  }
}

vector<Line> GenEvents(Rng& r, int) {
  vector<Line> o;
  int nc = r.Chance(0.4) ? 1 : static_cast<int>(r.Range(2, 4));
  vector<size_t> approx;
  for (int c = 0; c < nc; ++c) {
    bool streaming = r.Chance(0.5), reject = r.Chance(0.5), anycase = r.Chance(0.25);
    string path = PickBodyPath(r);
    const char* fault = streaming && r.Chance(0.08) ? (r.Chance(0.5) ? "close" : "root") : "none";
    o.push_back({"call", S(c), S(streaming), S(r.Chance(0.6)), Esc(path), S(reject + 2 * anycase), fault});
    vector<BindHint> hints;
    vector<string> used;
    int nb = r.Chance(0.15) ? 0 : static_cast<int>(r.Range(1, 6));
    for (int b = 0; b < nb; ++b) {
      string p = PickBindPath(r);
      const FieldDef* d = BindField(p);
      if (!d->rep && std::find(used.begin(), used.end(), p) != used.end() && !r.Chance(0.3)) continue;
      used.push_back(p);
      Node v = GenScalar(r, d->type);
      hints.push_back({p, v.v});
      string url = ScalarUrl(d->type, v);
      if (d->type == 'e' && anycase && !reject) url = AnyCase(r, url);
      o.push_back({"bind", S(c), p, Esc(":" + v.v), Esc(":" + url), "ok"});
    }
    if (r.Chance(0.04) && std::find(used.begin(), used.end(), "sub.id") == used.end()) o.push_back({"bind", S(c), "sub.id", ":", ":12x", "bad"});
    int ne = streaming ? static_cast<int>(r.Range(r.Chance(0.1) ? 0 : 1, 5)) : 1;
    for (int e = 0; e < ne; ++e) {
      ElemGen g = GenElem(r, path, hints, static_cast<int>(r.Below(12)), anycase, reject);
      o.push_back({"elem", S(c), Esc(g.canon), S(r.Below(1u << 30))});
    }
  }
  int steps = static_cast<int>(r.Range(1, 40));
  for (int i = 0; i < steps; ++i) {
    string c = S(r.Below(static_cast<uint64_t>(nc)));
    if (r.Chance(0.6)) o.push_back({"ev", c, S(r.Log(30))});
    else if (r.Chance(0.97)) o.push_back({"poll", c});
    else if (r.Chance(0.3)) o.push_back({"drop", c});
  }
  return o;
}
