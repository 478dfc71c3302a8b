// Long sessions (C22): a stream, a row of calls or a row of look-ups that goes
// on for a long time, measured by the memory that is held while nothing, or a
// known amount, is in flight. Reference: what was held early in the session.
#include <functional>
#include <memory>

#include "core.h"
#include "google/protobuf/type.pb.h"
#include "grpc_transcoding/json_request_translator.h"
#include "grpc_transcoding/message_reader.h"
#include "grpc_transcoding/message_stream.h"
#include "grpc_transcoding/response_to_json_translator.h"
#include "grpc_transcoding/type_helper.h"
#include "jsonmodel.h"
#include "mut_router.h"
#include "transmodel.h"

namespace sim {
namespace {
namespace gt = google::grpc::transcoding;
namespace pb = google::protobuf;
using std::string;
using std::vector;

Counter k_soak("event.long_session"), k_points("event.memory_measured"), k_msgs("event.message_delivered"), k_stalls("fault.stall_poll"),
    k_lagging("fault.slow_consumer"), k_back("event.give_back"), k_brk("fault.broken_call"), k_looks("event.lookup"), k_regfail("fault.failed_registration");

int64_t Held() { int64_t b, n; Live(&b, &n); k_points++; return b; }

// The source of a long stream: `all` is cut into pieces; nothing is allocated
// per piece. `limit` is how much has arrived.
class Tape : public gt::TranscoderInputStream {
 public:
  string all;
  size_t limit = 0, pos = 0;
  vector<size_t> sizes;  // piece sizes, used in turn
  size_t turn = 0;
  bool closed = false;
  bool Next(const void** d, int* n) override {
    if (pos >= limit) { *n = 0; *d = nullptr; return !closed; }
    size_t k = std::min(sizes[turn++ % sizes.size()], limit - pos);
    *d = all.data() + pos; *n = static_cast<int>(k);
    pos += k;
    return true;
  }
  void BackUp(int c) override { pos -= static_cast<size_t>(c); }
  bool Skip(int c) override { pos = std::min(limit, pos + static_cast<size_t>(c)); return true; }
  int64_t ByteCount() const override { return static_cast<int64_t>(pos); }
  int64_t BytesAvailable() const override { return static_cast<int64_t>(limit - pos); }
  bool Finished() const override { return closed && pos >= limit; }
};

// Judges the measurements of one session.
struct Gauge {
  const char* what;
  int64_t slack;
  int64_t early = 0, late = 0;
  void Take(size_t i, size_t rounds) {
    int64_t h = Held();
    if (i >= 2 && i < rounds / 2) early = std::max(early, h);
    if (i >= rounds / 2) late = std::max(late, h);
  }
  void Judge(size_t rounds) const {
    if (rounds < 40) return;
    if (late > early + slack)
      Violate(Tag(22), "memory:grows", "%s: at most %lld bytes held in the first half of the session, %lld in the second, with the same amount in flight",
              what, (long long)early, (long long)late);
  }
};

struct Plan { int64_t seed; size_t rounds, per, size; bool view, lag; int opt; };

vector<size_t> Pieces(Rng& g, size_t unit) {
  vector<size_t> v;
  int k = static_cast<int>(g.Range(1, 7));
  for (int i = 0; i < k; ++i) v.push_back(1 + g.Below(g.Chance(0.3) ? 3 : unit + 20));
  return v;
}
size_t Max(const vector<size_t>& v) { size_t m = 0; for (size_t x : v) m = std::max(m, x); return m; }

// One read of a byte view, now and then with a give-back. Returns bytes kept.
int64_t ReadView(gt::TranscoderInputStream* in, Rng& g, bool* end) {
  const void* d; int n;
  if (!in->Next(&d, &n)) { *end = true; return 0; }
  if (n > 1 && g.Chance(0.2)) { int b = static_cast<int>(g.Range(1, n - 1)); in->BackUp(b); k_back++; return n - b; }
  return n;
}

// ---- frames ----
void SoakReader(const Plan& p) {
  Rng g(static_cast<uint64_t>(p.seed));
  Tape t;
  string round;
  for (size_t i = 0; i < p.per; ++i) round += Frame(string(g.Below(p.size + 1), 'x'));
  for (size_t i = 0; i < p.rounds; ++i) t.all += round;
  t.sizes = Pieces(g, round.size());
  gt::MessageReader r(&t);
  Gauge ga{"frame reader", 2048};
  size_t got = 0;
  auto drain = [&](std::unique_ptr<pb::io::ZeroCopyInputStream> m) { const void* d; int n; while (m->Next(&d, &n)) {} ++got; k_msgs++; };
  for (size_t i = 0; i < p.rounds; ++i) {
    if (p.lag) { if (i == 0) t.limit = t.all.size(); }
    else t.limit = (i + 1) * round.size() - (g.Chance(0.5) ? g.Below(round.size()) : 0);
    for (size_t k = 0; k < p.per + 1 && got < (i + 1) * p.per; ++k) {
      auto m = r.NextMessage();
      if (m) drain(std::move(m)); else { k_stalls++; break; }
    }
    t.limit = std::max(t.limit, (i + 1) * round.size());
    while (got < (i + 1) * p.per) { auto m = r.NextMessage(); if (!m) break; drain(std::move(m)); }
    ga.Take(i, p.rounds);
  }
  ga.Judge(p.rounds);
  if (got) Nontrivial();
  Sig(got); Ev(got);
}

// ---- byte view of messages ----
class Msgs : public gt::MessageStream {
 public:
  size_t ready = 0, done = 0, total = 0;
  vector<size_t> sizes;
  bool NextMessage(string* m) override {
    if (done >= ready) return false;
    m->assign(sizes[done++ % sizes.size()], 'y');
    return true;
  }
  bool Finished() const override { return done >= total; }
  absl::Status Status() const override { return absl::OkStatus(); }
};
void SoakView(const Plan& p) {
  Rng g(static_cast<uint64_t>(p.seed));
  Msgs s;
  for (size_t i = 0; i < p.per; ++i) s.sizes.push_back(g.Chance(0.2) ? 0 : g.Below(p.size + 1));
  s.total = p.rounds * p.per;
  auto in = s.CreateInputStream();
  Gauge ga{"byte view", 2048 + static_cast<int64_t>(4 * p.size)};
  int64_t bytes = 0;
  for (size_t i = 0; i < p.rounds; ++i) {
    s.ready = p.lag ? s.total : (i + 1) * p.per;
    bool end = false;
    for (size_t k = 0; k < 4 * p.per && !end; ++k) {
      int64_t n = ReadView(in.get(), g, &end);
      bytes += n;
      if (n == 0) { k_stalls++; break; }
    }
    if (!p.lag) while (!end) { const void* d; int n; if (!in->Next(&d, &n) || n == 0) break; bytes += n; }
    ga.Take(i, p.rounds);
  }
  ga.Judge(p.rounds);
  if (bytes) Nontrivial();
  Sig(static_cast<uint64_t>(bytes)); Ev(static_cast<uint64_t>(bytes));
}

// ---- requests ----
struct Types {
  vector<pb::Type> types = MakeTypes();
  vector<pb::Enum> enums = MakeEnums();
  gt::TypeHelper th{types, enums};
};
gt::RequestInfo Req(const Types& h, Rng& g, const string& path) {
  gt::RequestInfo ri;
  ri.message_type = &h.types[0];
  ri.body_field_path = path;
  for (const char* f : {"name", "tags", "sub.val"})
    if (g.Chance(0.5)) {
      gt::RequestWeaver::BindingInfo b;
      if (!h.th.ResolveFieldPath(h.types[0], f, &b.field_path).ok()) HarnessError("path %s", f);
      b.value = "7";
      ri.variable_bindings.push_back(b);
    }
  return ri;
}
void SoakRequest(const Plan& p) {
  Rng g(static_cast<uint64_t>(p.seed));
  Types h;
  const string path = p.opt & 1 ? "sub" : "";
  string round;
  for (size_t i = 0; i < p.per; ++i)
    round += string("{\"name\":\"") + string(g.Below(p.size + 1), 'z') + "\",\"tags\":[\"a\",\"b\"]" + (g.Chance(0.4) ? ",\"sub\":{\"val\":3}" : "") + (g.Chance(0.3) ? ",\"zz\":{\"q\":[1,2]}" : "") + "},";
  Tape t;
  t.all = "[";
  for (size_t i = 0; i < p.rounds; ++i) t.all += round;
  t.all.back() = ']';
  t.sizes = Pieces(g, round.size());
  gt::JsonRequestTranslator tr(h.th.Resolver(), &t, Req(h, g, path), true, true);
  std::unique_ptr<gt::TranscoderInputStream> in;
  if (p.view) in = tr.Output().CreateInputStream();
  // what one buffer holds may be completed and waiting, nothing more
  Gauge ga{"request translation", 16384 + static_cast<int64_t>(8 * Max(t.sizes) + 4 * p.size)};
  int64_t start = Held();
  size_t got = 0;
  auto step = [&]() {
    if (p.view) { bool end = false; int64_t n = ReadView(in.get(), g, &end); if (n) { ++got; k_msgs++; } else k_stalls++; return n > 0; }
    string m = g.Chance(0.5) ? "old" : "";
    bool r = tr.Output().NextMessage(&m);
    if (r) { ++got; k_msgs++; } else k_stalls++;
    return r;
  };
  if (p.lag) {
    k_lagging++;
    t.limit = t.all.size();
    t.closed = true;
  }
  for (size_t i = 0; i < p.rounds; ++i) {
    if (!p.lag) {
      t.limit = std::min(t.all.size(), 1 + (i + 1) * round.size() - g.Below(round.size()));
      while (step()) {}
      t.limit = std::min(t.all.size(), 1 + (i + 1) * round.size());
      while (step()) {}
    } else {
      for (size_t k = 0; k < (p.view ? 2 * p.per : p.per); ++k) step();
      int64_t now = Held();
      if (now - start > ga.slack + 65536)
        Violate(Tag(22), "memory:unread-input-hoarded", "request translation: %lld bytes held for a slow consumer after %zu messages, although a buffer carries at most %zu bytes",
                (long long)(now - start), got, Max(t.sizes));
    }
    ga.Take(i, p.rounds);
  }
  ga.Judge(p.rounds);
  if (got) Nontrivial();
  Sig(got); Ev(got);
}

// ---- responses ----
void SoakResponse(const Plan& p) {
  Rng g(static_cast<uint64_t>(p.seed));
  Types h;
  string round;
  for (size_t i = 0; i < p.per; ++i) {
    Node n = Node::Msg();
    n.f[1].push_back(Node::Scalar(string(g.Below(p.size + 1), 'w')));
    n.f[10].push_back(Node::Scalar("t"));
    round += Frame(g.Chance(0.1) ? "" : Encode(n, kItem));
  }
  Tape t;
  for (size_t i = 0; i < p.rounds; ++i) t.all += round;
  t.sizes = Pieces(g, round.size());
  gt::JsonResponseTranslateOptions o{};
  o.stream_newline_delimited = p.opt & 1;
  gt::ResponseToJsonTranslator tr(h.th.Resolver(), "type.googleapis.com/sim.Item", true, &t, o);
  std::unique_ptr<gt::TranscoderInputStream> in;
  if (p.view) in = tr.CreateInputStream();
  Gauge ga{"response translation", 16384 + static_cast<int64_t>(4 * p.size)};
  size_t got = 0;
  int64_t start = Held();
  auto step = [&]() {
    if (p.view) { bool end = false; int64_t n = ReadView(in.get(), g, &end); if (n) { ++got; k_msgs++; } else k_stalls++; return n > 0; }
    string m;
    bool r = tr.NextMessage(&m);
    if (r) { ++got; k_msgs++; } else k_stalls++;
    return r;
  };
  if (p.lag) { k_lagging++; t.limit = t.all.size(); }
  for (size_t i = 0; i < p.rounds; ++i) {
    if (!p.lag) {
      t.limit = (i + 1) * round.size() - g.Below(round.size());
      while (step()) {}
      t.limit = (i + 1) * round.size();
      while (step()) {}
    } else {
      for (size_t k = 0; k < p.per; ++k) step();
      int64_t now = Held();
      if (now - start > ga.slack + 65536)
        Violate(Tag(22), "memory:unread-input-hoarded", "response translation: %lld bytes held for a slow consumer after %zu pieces", (long long)(now - start), got);
    }
    ga.Take(i, p.rounds);
  }
  ga.Judge(p.rounds);
  if (got) Nontrivial();
  Sig(got); Ev(got);
}

// ---- a row of calls over one type helper, many of them broken or abandoned ----
void SoakCalls(const Plan& p) {
  Rng g(static_cast<uint64_t>(p.seed));
  Types h;
  Gauge ga{"row of calls over one type helper", 4096};
  size_t rounds = p.rounds / 2 + 40, errs = 0;
  for (size_t i = 0; i < rounds; ++i) {
    Rng v(static_cast<uint64_t>(p.seed) + i % 16);
    Tape t;
    t.sizes = Pieces(v, 40);
    t.all = v.Chance(0.5) ? "[{\"name\":\"a\"},{\"n\":\"bad\"}]" : "[{\"name\":\"a\",\"unknown\":1},{\"sub\":{\"val\":3}},{";
    t.limit = v.Below(t.all.size() + 1);
    t.closed = v.Chance(0.5);
    {
      gt::JsonRequestTranslator tr(h.th.Resolver(), &t, Req(h, v, v.Chance(0.3) ? "sub" : ""), v.Chance(0.7), true);
      string m;
      for (uint64_t k = v.Below(5); k-- > 0;) tr.Output().NextMessage(&m);
      if (!tr.Output().Status().ok()) { ++errs; k_brk++; }
    }
    vector<const pb::Field*> path;
    string name = "nope" + S(static_cast<int64_t>(i)) + (v.Chance(0.5) ? ".x" : "");
    if (h.th.ResolveFieldPath(h.types[0], name, &path).ok()) ++errs;
    if (h.th.ResolveFieldPath(h.types[0], "sub.no" + S(static_cast<int64_t>(i)), &path).ok()) ++errs;
    {
      Tape u;
      u.sizes = {7};
      u.all = v.Chance(0.5) ? Frame("\x0a\x01z") + Frame("\x0a\x05z") : Frame("\x0a\x01z") + Frame("", 1);
      u.limit = v.Below(u.all.size() + 1);
      u.closed = v.Chance(0.5);
      gt::ResponseToJsonTranslator tr(h.th.Resolver(), "type.googleapis.com/sim.Item", v.Chance(0.6), &u, gt::JsonResponseTranslateOptions{});
      string m;
      for (uint64_t k = v.Below(5); k-- > 0;) tr.NextMessage(&m);
      if (!tr.Status().ok()) { ++errs; k_brk++; }
    }
    ga.Take(i, rounds);
  }
  ga.Judge(rounds);
  Nontrivial();
  Sig(Mix(errs, static_cast<uint64_t>(p.seed))); Ev(errs);
}

// ---- look-ups, failed registrations and reloads ----
void SoakRoutes(const Plan& p) {
  Rng g(static_cast<uint64_t>(p.seed));
  static const char* tm[] = {"/a/{x}", "/a/{x=b/*}/c", "/v1/{name=shelves/*/books/*}:read", "/f/**", "/g/{x=**}/tail", "/h"};
  RTag tags[6];
  void* b = mb_new();
  for (int i = 0; i < 6; ++i) { tags[i].id = i; mb_reg(b, i % 2 ? "POST" : "GET", tm[i], "", nullptr, &tags[i]); }
  void* m = mb_build(b);
  Gauge ga{"look-ups on one matcher", 8192}, gr{"failed registrations", 8192};
  size_t rounds = p.rounds * 4 + 400, hit = 0;
  for (size_t i = 0; i < rounds; ++i) {
    string id = "q" + S(static_cast<int64_t>(i)) + string(g.Below(20), 'k');
    string paths[] = {"/a/" + id, "/a/b/" + id + "/c", "/v1/shelves/" + id + "/books/9:read", "/f/" + id + "/" + id, "/g/" + id + "/tail", "/none/" + id};
    const string& path = paths[g.Below(6)];
    vector<RBinding> bs;
    string body;
    k_looks++;
    if (mm_look(m, g.Chance(0.5) ? "GET" : "POST", path, g.Chance(0.5) ? "z=" + id : "", &bs, &body)) ++hit;
    if (g.Chance(0.3)) mm_look_short(m, "GET", path);
    { vector<RBinding>().swap(bs); string().swap(body); }
    ga.Take(i, rounds);
  }
  ga.Judge(rounds);
  if (p.opt & 1) {
    static const char* bad[] = {"/a/{x", "", "no", "/**/*/a", "/{x=a/{y}}", "/x:"};
    for (size_t i = 0; i < rounds; ++i) {
      mb_reg(b, "GET" + S(static_cast<int64_t>(i)), bad[i % 6], "bodybodybodybodybodybody", nullptr, &tags[0]);
      k_regfail++;
      gr.Take(i, rounds);
    }
    gr.Judge(rounds);
  }
  mm_delete(m);
  mb_delete(b);
  if (hit) Nontrivial();
  Sig(Mix(hit, static_cast<uint64_t>(p.seed))); Ev(hit);
}

void RunSoak(const vector<Line>& lines) {
  for (auto& l : lines) {
    Plan p;
    p.seed = I(l, 1);
    p.rounds = static_cast<size_t>(std::min<int64_t>(std::max<int64_t>(I(l, 2), 1), 4000));
    p.per = static_cast<size_t>(std::min<int64_t>(std::max<int64_t>(I(l, 3), 1), 64));
    p.size = static_cast<size_t>(std::min<int64_t>(std::max<int64_t>(I(l, 4), 0), 4096));
    p.view = I(l, 5) & 1;
    p.lag = I(l, 6) & 1;
    p.opt = static_cast<int>(I(l, 7));
    k_soak++;
    Cov(Mix(HashStr(l[0]), Mix(p.view * 2u + p.lag, Mix(static_cast<uint64_t>(p.opt), Mix(p.per, p.size / 8)))));
    if (l[0] == "reader") SoakReader(p);
    else if (l[0] == "view") SoakView(p);
    else if (l[0] == "request") SoakRequest(p);
    else if (l[0] == "response") SoakResponse(p);
    else if (l[0] == "calls") SoakCalls(p);
    else if (l[0] == "routes") SoakRoutes(p);
  }
}
vector<Line> GenSoak(Rng& r, int) {
  static const char* kinds[] = {"reader", "view", "request", "request", "response", "response", "calls", "routes"};
  vector<Line> o;
  o.push_back({kinds[r.Below(8)], S(static_cast<int64_t>(r.Below(1000000000))), S(r.Range(80, r.Chance(0.1) ? 1500 : 250)), S(r.Range(1, 12)), S(static_cast<int64_t>(r.Log(300))),
               S(r.Chance(0.4)), S(r.Chance(0.35)), S(static_cast<int64_t>(r.Below(2)))});
  return o;
}
const Scenario kSoak = {"soak", GenSoak, RunSoak, 6};
}  // namespace

std::vector<Choice> ScenariosFor(int prop) {
  if (prop == 22) return {{&kSoak, 1}};
  return {};
}
const Scenario* FindScenario(const std::string& n) { return n == "soak" ? &kSoak : nullptr; }
}  // namespace sim
