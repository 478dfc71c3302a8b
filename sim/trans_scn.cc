// Scenarios for the translators, one thread:
//   reqtrans  - JsonRequestTranslator over simulated connections (C12, C13)
//   reqevents - the request translators fed by another producer (C12, C20)
//   resptrans - ResponseToJsonTranslator over simulated connections (C14, C15)
#include "transcalls.h"

namespace sim {
namespace {
Counter k_long("probe.very_long_stream"), k_manypolls("fault.stall_of_thousands_of_polls"), k_huge("probe.message_ge_16MiB");

// n polls; between two of them piece bytes arrive (none when piece is 0).
template <class C> void Steps(C& c, int64_t n, int64_t piece) {
  n = std::min<int64_t>(n, 200000);
  if (n > 1000) k_manypolls++;
  for (int64_t i = 0; i < n; ++i) {
    if (piece > 0 && !c.src.closed) c.src.Feed(static_cast<size_t>(piece), i & 1);
    Step(c, 0, false);
  }
}
// A run of many equal messages ahead of the others, so that faults also come late in a stream.
size_t RunLength(Rng& r) {
#if __has_feature(address_sanitizer)
  return static_cast<size_t>(r.Log(3000));
#else
  return static_cast<size_t>(r.Log(8000));
#endif
}
// A fault near the end, where a run precedes it, or anywhere.
int64_t FaultAt(Rng& r, size_t run, size_t approx) {
  if (run && approx > run && r.Chance(0.7)) return static_cast<int64_t>(run + r.Below(approx - run + 2));
  return static_cast<int64_t>(r.Below(approx + 2));
}
void FeedRun(Rng& r, int c, size_t run, vector<Line>* o) {
  if (!run) return;
  if (r.Chance(0.7)) {
    int64_t piece = r.Range(1, 20);
    o->push_back({"polls", S(c), S(std::max<int64_t>(1, static_cast<int64_t>(run) / piece + r.Range(-10, 10))), S(piece)});
  } else {
    o->push_back({"feed", S(c), S(static_cast<int64_t>(run) - r.Range(-5, 5)), S(r.Chance(0.3))});
    o->push_back({"polls", S(c), S(r.Chance(0.5) ? r.Log(8000) : 1), "0"});
  }
}
// Very long streams, very long stalls and very large messages.
vector<Line> GenLong(Rng& r, bool resp) {
  vector<Line> o;
  auto log = [&](int64_t n) { return S(r.Chance(0.15) ? n : r.Log(static_cast<uint64_t>(n))); };
  bool view = r.Chance(0.3);
  int64_t kind = static_cast<int64_t>(r.Below(3));  // 0 long stream, 1 long stalls, 2 large message
  if (kind == 2 && !r.Chance(0.6)) kind = static_cast<int64_t>(r.Below(2));
  bool pieces = r.Chance(0.7);
  if (resp) o.push_back({"call", "0", S(kind == 2 ? r.Below(3) : r.Range(1, 2)), S(view), S(r.Below(32) & ~1u), "0"});
  else o.push_back({"call", "0", S(kind != 2 || r.Chance(0.5)), S(view || r.Chance(0.7)), S(view), Esc(kind == 2 && r.Chance(0.5) ? "name" : "*"), Esc(""), Esc(""), "0"});
  if (kind == 2) {
    int64_t n = (1ll << (r.Chance(0.5) ? 24 : r.Range(14, 23))) + r.Range(-8, 8);
    o.push_back({"huge", "0", S(n)});
    o.push_back({"feed", "0", S(n / 2), "0"});
    o.push_back({"poll", "0", "0", "1"});
    o.push_back({"feed", "0", S(n / 2 + r.Range(0, 40)), "0"});
    o.push_back({"poll", "0", "0", "1"});
    return o;
  }
  #if __has_feature(address_sanitizer)
  const int64_t many = 8000;  // protobuf's converter takes 0.2 ms per message here
#else
  const int64_t many = 66000;
#endif
  string first = kind == 0 ? log(many) : S(r.Range(1, 4));
  if (resp) { o.push_back({"msgs", "0", first, Esc(r.Chance(0.5) ? ":" : ":\x0a\x01z")}); o.push_back({"msg", "0", Esc(":\x18\x05"), r.Chance(0.1) ? "1" : "0"}); }
  else {
    bool em = r.Chance(0.5);
    if (r.Chance(0.3)) o.push_back({"bind", "0", "name", Esc(":b"), Esc(":b"), "ok"});
    o.push_back({"elems", "0", first, Esc(em ? ":{}" : ":{\"n\":5}"), Esc(em ? "{}" : "{3=x35,;}"), "now"});
    o.push_back({"elem", "0", Esc(":{\"id\":7}"), Esc("{2=x37,;}"), "now", Esc(":"), Esc(":")});
    if (r.Chance(0.1)) o.push_back({"cut", "0", log(300000)});
  }
  int64_t piece = r.Range(1, 20);
  if (kind == 0 && pieces) o.push_back({"polls", "0", S(r.Chance(0.5) ? 200000 : r.Log(66000)), S(piece)});
  else { o.push_back({"feed", "0", log(700000), "0"}); o.push_back({"polls", "0", log(66000), "0"}); }
  for (int k = 0; k < 2; ++k) { o.push_back({"feed", "0", S(r.Range(1, 9)), "0"}); o.push_back({"polls", "0", log(66000), "0"}); }
  if (r.Chance(0.5)) { o.push_back({"feed", "0", "1000000", "0"}); o.push_back({"close", "0"}); o.push_back({"polls", "0", log(3000), "0"}); }
  return o;
}

void RunReq(const vector<Line>& lines) {
  std::map<int, std::unique_ptr<RCall>> calls;
  std::map<int, vector<Line>> faults;
  bool own = false;
  for (auto& l : lines) {
    if (l[0] == "helpers") own = I(l, 1);
    if (l[0] == "call") {
      auto& p = calls[static_cast<int>(I(l, 1))];
      if (p) continue;
      p.reset(new RCall);
      p->id = static_cast<int>(I(l, 1));
      p->streaming = I(l, 2) != 0;
      p->delims = I(l, 3) != 0;
      p->view = I(l, 4) != 0;
      if (p->view) p->delims = true;
      p->reject = I(l, 8) & 1;
      p->anycase = I(l, 8) & 2;
      if (p->anycase) k_anycase++;
      p->path = Unesc(T(l, 5));
      if (!FindBodyPath(p->path)) p->path = "";
      p->lead = Unesc(T(l, 6));
      p->tail = Unesc(T(l, 7));
    }
  }
  for (auto& l : lines) {
    if (l[0] == "helpers" || l[0] == "call") continue;
    auto it = calls.find(static_cast<int>(I(l, 1)));
    if (it == calls.end()) continue;
    RCall& c = *it->second;
    if (l[0] == "elem") c.elems.push_back(Elem{Raw(l, 2), Unesc(T(l, 3)), Raw(l, 5), Raw(l, 6), T(l, 4) == "late", T(l, 3) == "!"});
    else if (l[0] == "elems") {  // many times the same element
      c.elems.insert(c.elems.end(), static_cast<size_t>(std::min<int64_t>(std::max<int64_t>(I(l, 2), 0), 70000)), Elem{Raw(l, 3), Unesc(T(l, 4)), "", "", T(l, 5) == "late", false});
      k_long++;
    } else if (l[0] == "huge") {
      string v(static_cast<size_t>(std::min<int64_t>(std::max<int64_t>(I(l, 2), 0), 1 << 25)), 'h');
      if (v.size() >= 1 << 24) k_huge++;
      Node n = Node::Msg();
      n.f[1].push_back(Node::Scalar(v));
      c.elems.push_back(Elem{c.path == "name" ? "\"" + v + "\"" : "{\"name\":\"" + v + "\"}", ToText(n), "", "", false, false});
    } else if (l[0] == "bind") { if (BindField(T(l, 2))) c.binds.push_back(BindVal{T(l, 2), Raw(l, 3), Raw(l, 4), T(l, 5) == "bad"}); }
    else if (l[0] == "root") c.root = Raw(l, 2);
    else if (l[0] == "cut" || l[0] == "bad") faults[c.id].push_back(l);
  }
  if (calls.empty()) return;
  if (calls.size() > 1) k_many++;
  std::map<int, std::unique_ptr<Helper>> helpers;
  for (auto& kv : calls) {
    RCall& c = *kv.second;
    auto& hp = helpers[own ? c.id : 0];
    if (!hp) hp.reset(new Helper);
    if (!c.streaming && c.elems.empty() && (FindBodyPath(c.path)->type != 'm' || FindBodyPath(c.path)->rep || IsDynamic(FindBodyPath(c.path)->msg))) c.path = "";  // "{}" is no scalar
    Derive(c, faults[c.id]);
    bool intact_valid = true;
    for (auto& e : c.elems) if (e.invalid) intact_valid = false;
    if (c.badbind || !c.root.empty()) intact_valid = false;
    if (intact_valid) Reference(*hp, c);
    Active ac;
    c.tr.reset(MakeReq(hp->th->Resolver(), Info(*hp, c), &c.src, c.streaming, c.delims));
    if (c.view) c.in = c.tr->Output().CreateInputStream();
  }
  for (auto& l : lines) {
    const string& op = l[0];
    if (op == "helpers" || op == "call" || op == "elem" || op == "elems" || op == "bind" || op == "root" || op == "cut" || op == "bad") continue;
    auto it = calls.find(static_cast<int>(I(l, 1)));
    if (it == calls.end() || it->second->dropped) continue;
    RCall& c = *it->second;
    if (op == "feed") { if (!c.src.closed) c.src.Feed(static_cast<size_t>(I(l, 2)), I(l, 3) != 0); }
    else if (op == "poll") Step(c, static_cast<size_t>(I(l, 2)), I(l, 3) != 0);
    else if (op == "polls") Steps(c, I(l, 2), I(l, 3));
    else if (op == "close") { if (c.src.arrived == c.body.size()) { c.src.Close(); k_close++; } }
    else if (op == "drop") { Active ac; c.in.reset(); c.tr.reset(); c.dropped = true; k_drop++; }
  }
  // Faults stop: everything arrives, the connection is closed, progress is bounded.
  for (auto& kv : calls) {
    RCall& c = *kv.second;
    if (c.dropped) continue;
    FinishReq(c);
    c.in.reset();
    Active ac;
    c.tr.reset();
  }
}

vector<Line> GenReq(Rng& r, int prop) {
  if (prop == 22) prop = static_cast<int>(r.Range(12, 13));
  else if (prop != 20 && r.Chance(0.0003)) return GenLong(r, false);
  const bool weave = prop == 20;
  vector<Line> o;
  int ncalls = r.Chance(0.45) ? 1 : static_cast<int>(r.Range(2, 4));
  if (r.Chance(0.3)) o.push_back({"helpers", "1"});
  struct C { size_t approx; bool view; size_t run; };
  vector<C> cs;
  for (int c = 0; c < ncalls; ++c) {
    bool streaming = r.Chance(0.6), view = r.Chance(0.35), delims = view || r.Chance(0.6);
    string path = PickBodyPath(r);
    bool reject = r.Chance(weave ? 0.5 : 0.25), anycase = r.Chance(0.25);
    string lead = r.Chance(0.2) ? Ws(r) : "", tail = r.Chance(0.2) ? Ws(r) : "";
    o.push_back({"call", S(c), S(streaming), S(delims), S(view), Esc(path), Esc(lead), Esc(tail), S(reject + 2 * anycase)});
    vector<string> used;
    vector<BindHint> hints;
    const string again = r.Chance(0.15) ? PickBindPath(r) : "";  // bound more than once
    const bool deep = weave && r.Chance(0.15);  // only fields of messages that are themselves nested
    int nb = r.Chance(weave ? 0.05 : 0.5) ? 0 : static_cast<int>(r.Range(1, weave ? 7 : 4));
    double pf = prop == 13 ? 0.8 : 0.12;
    bool fault = r.Chance(pf);
    int fk = static_cast<int>(r.Below(10));  // 0-3 cut, 4-6 bad char, 7-8 invalid element, 9 invalid binding
    for (int b = 0; b < nb; ++b) {
      const string p = !again.empty() && r.Chance(0.5) ? again : PickBindPath(r);
      if (deep && std::count(p.begin(), p.end(), '.') < 2) continue;
      const FieldDef* d = BindField(p);
      if (!d->rep && std::find(used.begin(), used.end(), p) != used.end() && !r.Chance(0.5)) continue;
      // a binding below a scalar or repeated body path target is fine; one at the body path itself only if singular
      used.push_back(p);
      Node v = GenScalar(r, d->type);
      hints.push_back(BindHint{p, v.v});
      string url = ScalarUrl(d->type, v);
      if (d->type == 'e' && anycase && !reject) url = AnyCase(r, url);
      o.push_back({"bind", S(c), p, Esc(":" + v.v), Esc(":" + url), "ok"});
    }
    if (fault && fk == 9 && std::find(used.begin(), used.end(), "sub.id") == used.end()) { o.push_back({"bind", S(c), "sub.id", ":", ":12x", "bad"}); }
    int ne = streaming ? static_cast<int>(r.Chance(0.15) ? 0 : r.Chance(0.1) ? r.Range(5, 20) : r.Range(1, 5)) : 1;
    size_t approx = 2, run = 0;
    if (streaming && path == "*" && r.Chance(prop == 13 ? 0.04 : 0.008)) {
      size_t n = RunLength(r);
      run = 3 * n;
      approx += run;
      o.push_back({"elems", S(c), S(static_cast<int64_t>(n)), Esc(":{}"), Esc("{}"), "now"});
    }
    int inval = fault && fk >= 7 && fk < 9 && ne ? static_cast<int>(r.Below(static_cast<uint64_t>(ne))) : -1;
    for (int e = 0; e < ne; ++e) {
      string json, canon;
      bool late = false;
      string pre = Ws(r), post = Ws(r);
      string bad = e == inval ? InvalidElem(r, path) : "";
      if (!bad.empty()) { json = bad; canon = "!"; }
      else if (r.Chance(0.03) && !(path.empty() || path == "*" || IsDynamic(FindBodyPath(path)->msg))) { json = "null"; canon = NullAtPath(path); }
      else { ElemGen g = GenElem(r, path, hints, static_cast<int>(r.Below(12)), anycase, reject); json = g.json; canon = g.canon; late = g.late; }
      approx += json.size() + pre.size() + post.size() + 1;
      o.push_back({"elem", S(c), Esc(":" + json), canon == "!" ? "!" : Esc(canon), late ? "late" : "now", Esc(":" + pre), Esc(":" + post)});
    }
    if (streaming && fault && r.Chance(0.1)) {
      static const char* roots[] = {"null", "true", "5", "\"x\"", "{}", "{\"name\":\"a\"}", "{\"a\":[1]}", "-1.5e3", "\"\""};
      o.push_back({"root", S(c), Esc(string(":") + roots[r.Below(9)])});
    }
    if (fault && fk < 4) o.push_back({"cut", S(c), S(FaultAt(r, run, approx))});
    if (fault && fk >= 4 && fk < 7) o.push_back({"bad", S(c), S(FaultAt(r, run, approx)), S(static_cast<int64_t>(r.Below(3)))});
    cs.push_back(C{approx - run + lead.size() + tail.size(), view, run});
  }
  for (int c = 0; c < ncalls; ++c) FeedRun(r, c, cs[static_cast<size_t>(c)].run, &o);
  int steps = static_cast<int>(r.Chance(0.2) ? r.Range(40, 120) : r.Range(2, 30));
  int style = static_cast<int>(r.Below(4));  // 0 byte by byte, 1 small, 2 large, 3 mixed
  for (int i = 0; i < steps; ++i) {
    int c = static_cast<int>(r.Below(static_cast<uint64_t>(ncalls)));
    uint64_t k = r.Below(100);
    if (k < 50) {
      size_t n = style == 0 ? 1 : style == 1 ? static_cast<size_t>(r.Range(1, 6)) : style == 2 ? static_cast<size_t>(r.Below(cs[static_cast<size_t>(c)].approx) + 1)
                                                                                           : static_cast<size_t>(r.Log(cs[static_cast<size_t>(c)].approx));
      o.push_back({"feed", S(c), S(static_cast<int64_t>(n)), S(r.Chance(0.3))});
    } else if (k < 92) o.push_back({"poll", S(c), S(r.Chance(0.3) ? static_cast<int64_t>(r.Below(12)) : 0), S(r.Chance(0.5))});
    else if (k < 98) o.push_back({"close", S(c)});
    else if (r.Chance(0.3)) o.push_back({"drop", S(c)});
  }
  return o;
}

void RunResp(const vector<Line>& lines) {
  std::map<int, std::unique_ptr<PCall>> calls;
  std::map<int, vector<Line>> faults;
  for (auto& l : lines)
    if (l[0] == "call") {
      auto& p = calls[static_cast<int>(I(l, 1))];
      if (p) continue;
      p.reset(new PCall);
      p->id = static_cast<int>(I(l, 1));
      p->mode = static_cast<int>(I(l, 2) % 3);
      p->view = I(l, 3) != 0;
      int64_t o = I(l, 4);
      p->opt.json_print_options.add_whitespace = o & 1;
      p->opt.json_print_options.always_print_primitive_fields = o & 2;
      p->opt.json_print_options.always_print_enums_as_ints = o & 4;
      p->opt.json_print_options.preserve_proto_field_names = o & 8;
      p->opt.stream_newline_delimited = p->mode == 2 || (p->mode == 0 && (o & 16));
      p->badtype = I(l, 5) != 0;
    }
  for (auto& l : lines) {
    if (l[0] == "call") continue;
    auto it = calls.find(static_cast<int>(I(l, 1)));
    if (it == calls.end()) continue;
    PCall& c = *it->second;
    if (l[0] == "msgs") {
      size_t n = static_cast<size_t>(std::min<int64_t>(std::max<int64_t>(I(l, 2), 0), 70000));
      c.msgs.insert(c.msgs.end(), n, Raw(l, 3));
      c.flags.insert(c.flags.end(), n, 0);
      k_long++;
    } else if (l[0] == "huge") {
      string v(static_cast<size_t>(std::min<int64_t>(std::max<int64_t>(I(l, 2), 0), 1 << 25)), 'h');
      if (v.size() >= 1 << 24) k_huge++;
      Node n = Node::Msg();
      n.f[1].push_back(Node::Scalar(v));
      c.msgs.push_back(Encode(n, kItem));
      c.flags.push_back(0);
    } else if (l[0] == "msg") { c.msgs.push_back(Raw(l, 2)); c.flags.push_back(static_cast<int>(I(l, 3)) & 255); }
    else if (l[0] == "deep") {  // nested deeper than the translation limit
      string s;
      int64_t depth = std::min<int64_t>(I(l, 2), 200);
      for (int64_t k = 0; k < depth; ++k) {
        string len;
        for (size_t z = s.size();;) { len += static_cast<char>((z & 127) | (z > 127 ? 128 : 0)); z >>= 7; if (!z) break; }
        s = (k + 1 == depth ? "\x5a" : "\x1a") + len + s;
      }
      c.msgs.push_back(s);
      c.flags.push_back(0);
    } else if (l[0] == "cut") faults[c.id].push_back(l);
  }
  if (calls.empty()) return;
  if (calls.size() > 1) k_many++;
  Helper h;
  for (auto& kv : calls) {
    PCall& c = *kv.second;
    DeriveResp(h, c, faults[c.id]);
    Active ac;
    c.tr.reset(MakeResp(h.th->Resolver(), c.badtype ? "type.googleapis.com/sim.Nope" : "type.googleapis.com/sim.Item", c.mode != 0, &c.src, c.opt));
    if (c.view) c.in = c.tr->CreateInputStream();
  }
  for (auto& l : lines) {
    const string& op = l[0];
    auto it = calls.find(static_cast<int>(I(l, 1)));
    if (it == calls.end() || it->second->dropped) continue;
    PCall& c = *it->second;
    if (op == "feed") { if (!c.src.closed) c.src.Feed(static_cast<size_t>(I(l, 2)), I(l, 3) != 0); }
    else if (op == "poll") Step(c, static_cast<size_t>(I(l, 2)), I(l, 3) != 0);
    else if (op == "polls") Steps(c, I(l, 2), I(l, 3));
    else if (op == "close") { if (c.src.arrived == c.src.all.size()) { c.src.Close(); k_close++; } }
    else if (op == "late") {  // more bytes after the end was seen
      if ((c.ended || c.errored) && !c.view) { string f = Frame(Unesc(T(l, 2))); c.src.all += f; c.src.arrived = c.src.all.size(); c.src.closed = false; k_late++; }
    } else if (op == "drop") { Active ac; c.in.reset(); c.tr.reset(); c.dropped = true; k_drop++; }
  }
  for (auto& kv : calls) {
    PCall& c = *kv.second;
    if (c.dropped) continue;
    FinishResp(c);
    c.in.reset();
    Active ac;
    c.tr.reset();
  }
}

vector<Line> GenResp(Rng& r, int prop) {
  if (prop == 22) prop = static_cast<int>(r.Range(14, 15));
  else if (r.Chance(0.0003)) return GenLong(r, true);
  vector<Line> o;
  int ncalls = r.Chance(0.5) ? 1 : static_cast<int>(r.Range(2, 4));
  vector<size_t> approx, runs;
  for (int c = 0; c < ncalls; ++c) {
    int mode = r.Chance(0.2) ? 0 : r.Chance(0.6) ? 1 : 2;
    bool view = r.Chance(0.3);
    bool fault = r.Chance(prop == 15 ? 0.85 : 0.1);
    int fk = static_cast<int>(r.Below(20));
    bool badtype = fault && fk == 0;
    int64_t opts = static_cast<int64_t>(r.Below(32));
    o.push_back({"call", S(c), S(mode), S(view), S(opts), S(badtype)});
    int n = static_cast<int>(r.Chance(0.12) ? 0 : r.Chance(0.1) ? r.Range(6, 25) : r.Range(1, 5));
    if (mode == 0) n = static_cast<int>(r.Range(r.Chance(0.1) ? 0 : 1, r.Chance(0.2) ? 3 : 1));
    size_t a = 2, run = 0;
    if (mode != 0 && r.Chance(prop == 15 ? 0.02 : 0.004)) {
      size_t k = RunLength(r);
      bool em = r.Chance(0.5);
      run = k * (em ? 5 : 8);
      a += run;
      o.push_back({"msgs", S(c), S(static_cast<int64_t>(k)), Esc(em ? ":" : ":\x0a\x01z")});
    }
    int hit = fault && fk > 10 && n ? static_cast<int>(r.Below(static_cast<uint64_t>(n))) : -1;
    for (int i = 0; i < n; ++i) {
      GenOpts go;
      go.budget = static_cast<int>(r.Below(12));
      Node m = GenMsg(r, kItem, &go, 3);
      string b = r.Chance(0.1) ? "" : Encode(m, kItem);
      a += b.size() + 5;
      if (i == hit && fk > 15) { o.push_back({"deep", S(c), S(r.Range(66, 90))}); a += 200; continue; }
      if (i != hit && r.Chance(0.01)) { o.push_back({"deep", S(c), S(r.Range(1, 60))}); a += 150; continue; }
      int flag = i == hit ? (r.Chance(0.5) ? 1 : static_cast<int>(r.Range(1, 255))) : 0;
      o.push_back({"msg", S(c), Esc(":" + b), S(flag)});
    }
    if (fault && fk >= 1 && fk <= 10) o.push_back({"cut", S(c), S(FaultAt(r, run, a))});
    approx.push_back(a - run);
    runs.push_back(run);
  }
  for (int c = 0; c < ncalls; ++c) FeedRun(r, c, runs[static_cast<size_t>(c)], &o);
  int steps = static_cast<int>(r.Chance(0.2) ? r.Range(40, 120) : r.Range(2, 30));
  int style = static_cast<int>(r.Below(4));
  for (int i = 0; i < steps; ++i) {
    int c = static_cast<int>(r.Below(static_cast<uint64_t>(ncalls)));
    size_t a = approx[static_cast<size_t>(c)];
    uint64_t k = r.Below(100);
    if (k < 50) {
      size_t n = style == 0 ? 1 : style == 1 ? static_cast<size_t>(r.Range(1, 6)) : style == 2 ? static_cast<size_t>(r.Below(a) + 1) : static_cast<size_t>(r.Log(a));
      o.push_back({"feed", S(c), S(static_cast<int64_t>(n)), S(r.Chance(0.3))});
    } else if (k < 90) o.push_back({"poll", S(c), S(r.Chance(0.3) ? static_cast<int64_t>(r.Below(12)) : 0), S(r.Chance(0.5))});
    else if (k < 96) o.push_back({"close", S(c)});
    else if (k < 98) o.push_back({"late", S(c), Esc("\x0a\x01z")});
    else if (r.Chance(0.3)) o.push_back({"drop", S(c)});
  }
  return o;
}

#include "events.inc"
const Scenario kEvents = {"reqevents", GenEvents, RunEvents, 48};
const Scenario kReq = {"reqtrans", GenReq, RunReq, 48};
const Scenario kResp = {"resptrans", GenResp, RunResp, 48};
}  // namespace

vector<Choice> TransScenariosFor(int prop) {
  if (prop == 13) return {{&kReq, 1}};
  if (prop == 20) return {{&kReq, 3}, {&kEvents, 1}};
  if (prop == 12) return {{&kReq, 5}, {&kEvents, 1}};
  if (prop == 22) return {{&kReq, 2}, {&kResp, 2}, {&kEvents, 1}};
  if (prop == 14 || prop == 15) return {{&kResp, 1}};
  return {};
}
const Scenario* FindTransScenario(const string& n) { return n == "reqtrans" ? &kReq : n == "reqevents" ? &kEvents : n == "resptrans" ? &kResp : nullptr; }
}  // namespace sim
