// One simulated call of each translator with its oracle: request calls (RCall)
// and response calls (PCall). Shared by the translator and the end-to-end
// scenarios.
#ifndef VERIF_SIM_TRANSCALLS_H_
#define VERIF_SIM_TRANSCALLS_H_
#include <algorithm>
#include <map>
#include <memory>

#include "core.h"
#include "google/protobuf/io/zero_copy_stream_impl_lite.h"
#include "google/protobuf/util/json_util.h"
#include "grpc_transcoding/json_request_translator.h"
#include "grpc_transcoding/response_to_json_translator.h"
#include "grpc_transcoding/type_helper.h"
#include "simsched.h"
#include "transmodel.h"

namespace sim {
namespace {

namespace gt = google::grpc::transcoding;
namespace pb = google::protobuf;
using std::string;
using std::vector;

Counter k_poll("event.poll"), k_stall("fault.stall_poll"), k_msg("event.message_delivered"), k_close("event.close"),
    k_cut("fault.body_cut_short"), k_cutstr("probe.cut_in_string"), k_badch("fault.corrupted_body"), k_root("fault.root_value_no_array"), k_inval("fault.invalid_element"),
    k_badbind("fault.invalid_binding"), k_drop("fault.connection_dropped"), k_many("probe.interleaved_calls"), k_err("event.error_end"),
    k_ok("event.clean_end"), k_final("probe.poll_after_terminal"), k_view("event.view_read"), k_giveback("event.give_back"),
    k_split("probe.arrival_splits_token"), k_bind("probe.binding_merged"), k_null("probe.null_element"), k_junk("probe.output_string_prefilled"),
    k_rcut("fault.response_cut"), k_rflag("fault.bad_flag_frame"), k_rjunk("fault.unparsable_message"), k_empty("probe.empty_stream"),
    k_conflict("fault.binding_conflicts_with_body"), k_agree("probe.binding_agrees_with_body"), k_bodywins("probe.body_value_wins"), k_anycase("probe.case_insensitive_enums"),
    k_notype("fault.unknown_type"), k_prompt("probe.element_completed_by_one_byte"), k_late("fault.bytes_after_end");

const char* kJunk = "}PREVIOUS CONTENT[";

// Data tokens start with ':' so that the minimiser does not take them for numbers.
string Raw(const Line& l, size_t i) {
  string s = Unesc(T(l, i));
  return s.empty() ? s : s.substr(1);
}

struct Helper {
  vector<pb::Type> types = MakeTypes();
  vector<pb::Enum> enums = MakeEnums();
  std::unique_ptr<gt::TypeHelper> th;
  Helper() { Active ac; th.reset(new gt::TypeHelper(types, enums)); }
};

// ------------------------------------------------------------- requests ----
struct Elem { string json, canon, pre, post; bool late, invalid; };
struct RCall {
  int id = 0;
  bool streaming = false, delims = false, view = false;
  bool reject = false, anycase = false;  // options of the call
  string path, lead, tail, root;  // root: a value that is no array, for a streaming call
  vector<BindVal> binds;
  bool badbind = false;
  vector<Elem> elems;
  bool cut = false, bad = false, dropped = false;
  uint64_t charge = 0;  // property charged instead of the translator ones
  uint64_t tags() const { return charge ? charge : faulty ? Tag(13) : Tag(12); }
  // claims about what the URL bindings and the body path make of the message
  uint64_t weave() const { return charge || (binds.empty() && (path.empty() || path == "*")) ? 0 : Tag(20); }
  uint64_t both() const { return charge ? charge : faulty ? Tag(12) | Tag(13) : Tag(12); }
  // derived
  string intact, body;
  vector<size_t> done_at;      // bytes that complete element i
  size_t root_start = 0, root_end = 0;
  bool faulty = false;
  size_t limit = 0;            // elements before the fault that must still come
  size_t may = 0;              // elements that may come at all
  vector<string> want;         // canonical text
  vector<string> ref;          // bytes, from a one-piece run
  ByteSource src;
  std::unique_ptr<gt::JsonRequestTranslator> tr;
  std::unique_ptr<gt::TranscoderInputStream> in;
  size_t got = 0, whole = 0;
  string viewbuf; size_t view_last = 0; int64_t view_total = 0;
  bool ended = false, errored = false;
  string err;
  int false_polls = 0;
  vector<string>* obs = nullptr;  // everything observed, in order
};

gt::RequestInfo Info(const Helper& h, const RCall& c) {
  gt::RequestInfo ri;
  ri.message_type = &h.types[0];
  ri.body_field_path = c.path;
  if (c.reject) ri.reject_binding_body_field_collisions = true;  // off unless asked for
  if (c.anycase) ri.case_insensitive_enum_parsing = true;
  for (auto& b : c.binds) {
    gt::RequestWeaver::BindingInfo bi;
    absl::Status s = h.th->ResolveFieldPath(h.types[0], b.path, &bi.field_path);
    if (!s.ok()) Violate(c.both() | c.weave(), "bind-path", "the path %s of an existing field does not resolve", b.path.c_str());
    bi.value = b.url;
    ri.variable_bindings.push_back(bi);
  }
  if (c.intact.size() % 61 == 7) {  // a path that resolves to no field at all, as "." does: nothing to bind
    gt::RequestWeaver::BindingInfo bi;
    if (!h.th->ResolveFieldPath(h.types[0], ".", &bi.field_path).ok()) Violate(c.both() | c.weave(), "bind-path", "the empty path does not resolve");
    bi.value = "nobody's";
    ri.variable_bindings.insert(ri.variable_bindings.begin() + c.intact.size() % (ri.variable_bindings.size() + 1), bi);
  }
  return ri;
}

void Derive(RCall& c, const vector<Line>& faults) {
  string& s = c.intact;
  if (c.streaming && !c.root.empty()) {
    c.elems.clear();
    s = c.body = c.lead + c.root + c.tail;
    c.root_start = c.lead.size();
    c.root_end = c.root_start + c.root.size();
    c.faulty = true;
    k_root++;
    c.src.all = c.body;
    c.src.tags = c.charge ? c.charge : Tag(12) | Tag(13);
    return;
  }
  s = c.lead;
  c.root_start = s.size();
  if (c.streaming) s += "[";
  size_t n = c.streaming ? c.elems.size() : std::min<size_t>(1, c.elems.size());
  if (!c.streaming && c.elems.size() > 1) c.elems.resize(1);
  size_t first_invalid = n;
  for (size_t i = 0; i < n; ++i) {
    Elem& e = c.elems[i];
    if (c.streaming) s += (i ? "," : "") + e.pre;
    s += e.json;
    c.done_at.push_back(s.size() + (e.late ? 1 : 0));
    c.root_end = s.size();
    if (c.streaming) s += e.post;
    if (e.invalid && first_invalid == n) first_invalid = i;
  }
  if (c.streaming) { s += "]"; c.root_end = s.size(); }
  s += c.tail;
  for (size_t i = 0; i < n; ++i) {
    Node node = Node::Msg();
    if (!c.elems[i].invalid && !FromText(c.elems[i].canon, &node)) HarnessError("canon %s", c.elems[i].canon.c_str());
    if (i == 0)
      for (auto& b : c.binds) {
        string v;
        bool has = HasValue(&node, b.path, &v);
        if (b.bad && (!has || c.reject)) c.badbind = true;
        if (!has || BindField(b.path)->rep) continue;
        if (c.elems[i].invalid) continue;
        if (!c.reject) k_bodywins++;
        else if (v != b.canon) { c.badbind = true; k_conflict++; }
        else k_agree++;
      }
    if (i == 0) {
      vector<bool> in_body;
      string v;
      for (auto& b : c.binds) in_body.push_back(HasValue(&node, b.path, &v));
      for (size_t k = 0; k < c.binds.size(); ++k) if (!c.binds[k].bad) ApplyBinding(&node, c.binds[k], in_body[k]);
    }
    Normalize(&node, kItem);
    c.want.push_back(ToText(node));
  }
  if (!c.streaming && n == 0) {  // empty body of a unary call is "{}"
    Node node = Node::Msg();
    for (auto& b : c.binds) if (!b.bad) ApplyBinding(&node, b, false); else c.badbind = true;
    Normalize(&node, kItem);
    c.want.push_back(ToText(node));
  }
  c.body = s;
  c.limit = c.may = c.want.size();
  if (first_invalid < n) { c.faulty = true; c.limit = 0; c.may = first_invalid; k_inval++; }
  if (c.badbind && !c.want.empty()) { c.faulty = true; c.limit = c.may = 0; k_badbind++; }
  for (auto& f : faults) {
    if (f[0] == "cut" && !c.cut && !c.bad) {
      // at a byte after the root value started and before it closed
      if (c.root_end <= c.root_start + 1 || (!c.streaming && n && c.elems[0].late)) continue;
      if (!c.streaming && n && !strchr("{[\"", c.elems[0].json[0]) && c.elems[0].json.size() < 2) continue;
      size_t at = c.root_start + 1 + static_cast<size_t>(I(f, 2)) % (c.root_end - c.root_start - 1);
      c.cut = true;
      if (InString(c.body, at)) k_cutstr++;
      c.body.resize(at);
      k_cut++;
      size_t whole = 0;
      while (whole < c.done_at.size() && c.done_at[whole] <= at) ++whole;
      c.may = std::min(c.may, whole);
      c.limit = c.faulty ? 0 : c.may;
      c.faulty = true;
    } else if (f[0] == "bad" && !c.cut && !c.bad) {
      if (c.root_end <= c.root_start || (!c.streaming && !n)) continue;
      size_t at = c.root_start + static_cast<size_t>(I(f, 2)) % (c.root_end - c.root_start);
      int64_t kind = I(f, 3);
      bool inside = false;  // garbage inside a bare number leaves a shorter valid number
      for (size_t i = 0; i < n; ++i) if (c.elems[i].late && at < c.done_at[i] - 1 && at + c.elems[i].json.size() > c.done_at[i] - 1) inside = true;
      if (inside) continue;
      bool instr = InString(c.body, at);
      if (kind == 2) {  // a wrong closing bracket
        size_t k = 0;
        for (bool in = false; k < c.root_end; ++k) {
          if (in && c.body[k] == '\\') { ++k; continue; }
          if (c.body[k] == '"') in = !in;
          else if (!in && k >= at && (c.body[k] == '}' || c.body[k] == ']')) break;
        }
        if (k >= c.root_end) kind = 0;
        else { at = k; c.body[k] = c.body[k] == '}' ? ']' : '}'; }
      }
      if (kind != 2) c.body.insert(at, 1, instr ? '\xff' : kind == 1 ? '\xfe' : '#');
      c.bad = c.faulty = true;
      k_badch++;
      size_t whole = 0;
      while (whole < c.done_at.size() && c.done_at[whole] <= at) ++whole;
      if (whole < c.done_at.size() && c.elems[whole].late && c.done_at[whole] == at + 1) ++whole;  // 12# : the number may count as complete
      c.may = std::min(c.may, whole);
      c.limit = 0;
    }
  }
  c.src.all = c.body;
  c.src.tags = c.charge ? c.charge : Tag(12) | Tag(13);
}

// Bytes of every message when the body arrives in one piece (no fault).
void Reference(const Helper& h, RCall& c) {
  ByteSource s;
  s.all = c.intact;
  s.tags = Tag(12);
  s.Feed(s.all.size(), true);
  s.Close();
  Active ac;
  gt::JsonRequestTranslator t(h.th->Resolver(), &s, Info(h, c), c.streaming, c.delims);
  for (size_t i = 0; i < c.want.size() + 3; ++i) {
    string msg;
    s.NewCall();
    if (t.Output().NextMessage(&msg)) c.ref.push_back(msg);
  }
}

void Deliver(RCall& c, const string& msg) {
  if (c.obs) c.obs->push_back(msg);
  size_t i = c.got;
  if (c.errored) Violate(c.tags(), "message-after-error", "call %d: message delivered after error '%s': %s", c.id, c.err.c_str(), Quote(msg).c_str());
  if (c.ended) Violate(c.tags(), "message-after-end", "call %d: message delivered after the end: %s", c.id, Quote(msg).c_str());
  if (i >= c.may)
    Violate(c.tags() | (c.badbind ? c.weave() : 0), c.faulty ? "extra-message-of-broken-body" : "extra-message", "call %d: message %zu delivered, body gives %zu%s: %s\nbody: %s", c.id, i, c.may,
            c.faulty ? " before the fault" : "", Quote(msg).c_str(), Quote(c.body, 600).c_str());
  string p = msg;
  if (c.delims) {
    string hdr = Frame(p.size() >= 5 ? p.substr(5) : "");
    if (p.size() < 5 || p.compare(0, 5, hdr, 0, 5) != 0)
      Violate(c.both(), "bad-header", "call %d: message %zu has a wrong frame header: %s", c.id, i, Quote(msg).c_str());
    p = p.substr(5);
  }
  size_t need = i < c.done_at.size() ? c.done_at[i] : 0;
  bool complete = c.src.arrived >= need || (c.src.closed && c.src.arrived == c.body.size());
  if (!complete)
    Violate(c.both(), "early-message", "call %d: message %zu delivered after %zu body bytes, complete only after %zu", c.id, i, c.src.arrived, need);
  Node node;
  string err;
  if (!Decode(p, kItem, &node, &err)) Violate(c.both() | c.weave(), "undecodable-message", "call %d: message %zu: %s: %s", c.id, i, err.c_str(), Quote(msg).c_str());
  Normalize(&node, kItem);
  string got = ToText(node);
  if (got != c.want[i])
    Violate(c.both() | c.weave(), "wrong-message", "call %d: message %zu is\n  %s\nexpected\n  %s\nbody: %s", c.id, i, got.c_str(), c.want[i].c_str(), Quote(c.body, 800).c_str());
  if (!c.ref.empty() || !c.faulty) {
    if (i >= c.ref.size() || c.ref[i] != msg)
      Violate(c.both(), "bytes-depend-on-arrival", "call %d: message %zu differs bit for bit from the one produced when the body arrives in one piece", c.id, i);
  }
  k_msg++;
  Nontrivial();
  Sig(Mix(static_cast<uint64_t>(c.id), HashStr(msg)));
  Ev(200, static_cast<uint64_t>(c.id), HashStr(msg));
  if (i == 0 && !c.binds.empty()) k_bind++;
  if (i < c.elems.size() && c.elems[i].json == "null") k_null++;
  if (i < c.done_at.size() && c.src.arrived == c.done_at[i]) k_prompt++;
  ++c.got;
}

size_t Completed(RCall& c) {  // elements that must have been delivered by now
  size_t& k = c.whole;
  while (k < c.limit && k < c.done_at.size() && (c.done_at[k] <= c.src.arrived || (c.src.closed && c.src.arrived == c.body.size()))) ++k;
  return c.done_at.empty() && c.limit && c.src.closed ? c.limit : k;
}

string StatusText(const absl::Status& s) { return s.ok() ? "OK" : S(static_cast<int>(s.code())) + " " + string(s.message()); }

// Called after every interaction: state claims.
void Settle(RCall& c, bool pending_poll, bool view_end = false) {
  absl::Status st;
  bool fin;
  { Active ac; st = c.tr->Output().Status(); fin = c.tr->Output().Finished(); }
  Ev(201, static_cast<uint64_t>(st.code()), fin);
  if (c.obs) c.obs->push_back(StatusText(st) + (fin ? " end" : ""));
  if (c.errored) {
    if (StatusText(st) != c.err || !fin) Violate(c.tags(), "error-not-final", "call %d: error '%s' became '%s', finished=%d", c.id, c.err.c_str(), StatusText(st).c_str(), fin);
    return;
  }
  if (c.ended) {
    if (!st.ok() || !fin) Violate(c.tags(), "end-not-final", "call %d: after a clean end status '%s', finished=%d", c.id, StatusText(st).c_str(), fin);
    return;
  }
  if (!st.ok()) {
    if (!c.faulty) Violate(c.tags() | c.weave(), "spurious-error", "call %d: valid body reported as '%s'\nbody: %s", c.id, StatusText(st).c_str(), Quote(c.body, 800).c_str());
    if (st.code() != absl::StatusCode::kInvalidArgument) Violate(c.tags(), "error-code", "call %d: a broken body is reported as '%s', not as an invalid argument\nbody: %s", c.id, StatusText(st).c_str(), Quote(c.body, 800).c_str());
    if (c.got < c.limit && c.cut) Violate(c.tags(), "complete-elements-lost", "call %d: error after %zu of %zu complete elements", c.id, c.got, c.limit);
    if (!fin) Violate(c.tags(), "error-not-finished", "call %d: error '%s' but not finished", c.id, StatusText(st).c_str());
    c.errored = true;
    c.err = StatusText(st);
    k_err++;
    Nontrivial();
    Cov(Mix(31, Mix(c.faulty * 4u + c.cut * 2u + c.bad, Mix(c.got < 4 ? c.got : 4, static_cast<uint64_t>(st.code())))));
    return;
  }
  bool root_closed = c.streaming ? c.src.arrived >= c.root_end : c.got > 0;
  if (fin && c.view && !view_end) {  // the source is done, the view may still hold bytes
    if (pending_poll) Violate(c.tags(), "view-end-missed", "call %d: the translation has finished but the byte view says more may come", c.id);
    return;
  }
  if (fin) {
    if (c.faulty) Violate(c.tags() | (c.badbind ? c.weave() : 0), "broken-body-succeeds", "call %d: successful end reported for a broken body: %s", c.id, Quote(c.body, 800).c_str());
    if (c.got < c.want.size() || (c.streaming && !root_closed))
      Violate(c.tags(), "early-end", "call %d: end reported after %zu of %zu messages, %zu of %zu bytes", c.id, c.got, c.want.size(), c.src.arrived, c.body.size());
    c.ended = true;
    k_ok++;
    return;
  }
  if (pending_poll) {
    size_t must = Completed(c);
    if (c.got < must)
      Violate(c.tags(), "late-message", "call %d: poll delivered nothing although message %zu is complete (%zu of %zu bytes arrived%s)\nbody: %s", c.id, c.got, c.src.arrived,
              c.body.size(), c.src.closed ? ", closed" : "", Quote(c.body, 600).c_str());
    if (!c.faulty && c.got == c.want.size() && root_closed)
      Violate(c.tags(), "end-missed", "call %d: all %zu messages delivered and the body is complete but the end is not reported", c.id, c.got);
    c.false_polls++;
    k_stall++;
    if (c.src.arrived > c.root_start && c.src.arrived < c.root_end) k_split++;
  }
}

void Poll(RCall& c, bool junk) {
  k_poll++;
  if (c.ended || c.errored) k_final++;
  string m = junk ? kJunk : "";
  if (junk) k_junk++;
  c.src.NewCall();
  bool r;
  { Active ac; r = c.tr->Output().NextMessage(&m); }
  Ev(202, static_cast<uint64_t>(c.id), r);
  Cov(Mix(32, Mix(r, Mix(c.streaming * 8u + c.view * 4u + c.delims * 2u + c.faulty,
                         Mix(std::min<size_t>(c.got, 5), Mix(c.src.closed * 2u + (c.ended || c.errored), Mix(FindBodyPath(c.path) - &BodyPaths()[0], c.binds.size())))))));
  if (r) Deliver(c, m);
  Settle(c, !r);
}

void FeedView(RCall& c, const char* d, size_t n) {
  c.viewbuf.append(d, n);
  while (c.viewbuf.size() >= 5) {
    size_t len = 0;
    for (int k = 1; k < 5; ++k) len = len * 256 + static_cast<unsigned char>(c.viewbuf[static_cast<size_t>(k)]);
    if (c.viewbuf.size() < 5 + len) break;
    Deliver(c, c.viewbuf.substr(0, 5 + len));
    c.viewbuf.erase(0, 5 + len);
  }
}

// One read of the byte view; gives `back` bytes of it back.
void Read(RCall& c, size_t back) {
  k_view++;
  if (c.ended || c.errored) k_final++;
  const void* d = nullptr;
  int n = -1;
  c.src.NewCall();
  bool r;
  { Active ac; r = c.in->Next(&d, &n); }
  Ev(203, static_cast<uint64_t>(n), r);
  if (r && n > 0) {
    size_t b = std::min<size_t>(back, static_cast<size_t>(n));
    // consume first, so that the bytes are checked, then give back
    string bytes(static_cast<const char*>(d), static_cast<size_t>(n) - b);
    if (b) { Active ac; c.in->BackUp(static_cast<int>(b)); }
    if (b) k_giveback++;
    FeedView(c, bytes.data(), bytes.size());
    Settle(c, false);
    return;
  }
  if (!r) {
    absl::Status st;
    bool fin;
    { Active ac; st = c.tr->Output().Status(); fin = c.tr->Output().Finished(); }
    if (!fin) Violate(c.tags(), "view-end-early", "call %d: byte view ended while the translation has not finished", c.id);
    if (!c.viewbuf.empty()) Violate(c.tags(), "view-partial", "call %d: byte view ended inside a frame", c.id);
  }
  Settle(c, true, !r);
}

// ------------------------------------------------------------ responses ----
// The caller's arguments do not outlive the constructor: whatever the translator
// still refers to afterwards is overwritten here.
gt::JsonRequestTranslator* MakeReq(pb::util::TypeResolver* res, gt::RequestInfo info, pb::io::ZeroCopyInputStream* src, bool streaming, bool delims) {
  Inactive off;
  std::unique_ptr<gt::RequestInfo> ri(new gt::RequestInfo(std::move(info)));
  gt::JsonRequestTranslator* t;
  { Active a; t = new gt::JsonRequestTranslator(res, src, *ri, streaming, delims); }
  ri->body_field_path = "gone";
  ri->message_type = nullptr;
  ri->reject_binding_body_field_collisions = !ri->reject_binding_body_field_collisions;
  ri->case_insensitive_enum_parsing = !ri->case_insensitive_enum_parsing;
  for (auto& b : ri->variable_bindings) { b.value = "gone"; b.field_path.clear(); }
  return t;
}
gt::ResponseToJsonTranslator* MakeResp(pb::util::TypeResolver* res, const char* url, bool streaming, gt::TranscoderInputStream* src,
                                       const gt::JsonResponseTranslateOptions& opt) {
  Inactive off;
  std::unique_ptr<gt::JsonResponseTranslateOptions> o(new gt::JsonResponseTranslateOptions(opt));
  std::unique_ptr<string> u(new string(url));
  gt::ResponseToJsonTranslator* t;
  auto& j = o->json_print_options;
  bool dflt = !j.add_whitespace && !j.always_print_primitive_fields && !j.always_print_enums_as_ints && !j.preserve_proto_field_names &&
              !o->stream_newline_delimited;
  { Active a; t = dflt ? new gt::ResponseToJsonTranslator(res, *u, streaming, src) : new gt::ResponseToJsonTranslator(res, *u, streaming, src, *o); }
  j.add_whitespace = !j.add_whitespace;
  j.always_print_primitive_fields = !j.always_print_primitive_fields;
  j.always_print_enums_as_ints = !j.always_print_enums_as_ints;
  j.preserve_proto_field_names = !j.preserve_proto_field_names;
  o->stream_newline_delimited = !o->stream_newline_delimited;
  u->assign("type.googleapis.com/sim.Gone");
  return t;
}
struct PCall {
  int id = 0, mode = 0;  // 0 unary, 1 array, 2 newline
  bool view = false, badtype = false, dropped = false;
  gt::JsonResponseTranslateOptions opt{};
  vector<string> msgs;
  vector<int> flags;
  vector<size_t> end_at;     // bytes that complete frame i
  size_t bad_at = SIZE_MAX;  // frame at which the stream breaks
  bool faulty = false, cutf = false;
  vector<string> text;       // JSON of every element
  ByteSource src;
  std::unique_ptr<gt::ResponseToJsonTranslator> tr;
  std::unique_ptr<gt::TranscoderInputStream> in;
  string out;
  bool ended = false, errored = false;
  string err;
  vector<string>* obs = nullptr;
  uint64_t charge = 0;
  uint64_t tags() const { return charge ? charge : faulty ? Tag(14) | Tag(15) : Tag(14); }
  size_t usable = 0;         // elements that may be delivered
  string full;               // output for all of them, without the end
  vector<size_t> off;        // where the output of the first k elements ends
  size_t same = 0;           // prefix of out already compared with full
  size_t whole = 0;          // elements known to have arrived
  bool plain = true;         // the fault is in the framing
};
// The output for the first k elements, with or without the end.
string Prefix(const PCall& c, size_t k, bool end) { return c.full.substr(0, c.off[k]) + (end && c.mode == 1 ? k ? "]" : "[]" : ""); }
bool IsPrefix(const PCall& c, size_t k, bool end) {
  size_t extra = end && c.mode == 1 ? k ? 1 : 2 : 0;
  if (c.out.size() != c.off[k] + extra) return false;
  return c.same >= c.off[k] ? extra == 0 || c.out.compare(c.off[k], extra, k ? "]" : "[]") == 0 : c.out == Prefix(c, k, end);
}

void DeriveResp(const Helper& h, PCall& c, const vector<Line>& faults) {
  string w;
  size_t n = c.msgs.size();
  for (size_t i = 0; i < n; ++i) {
    w += Frame(c.msgs[i], static_cast<unsigned char>(c.flags[i]));
    c.end_at.push_back(w.size());
    bool bad = c.flags[i] != 0 || c.badtype;
    string t;
    if (!bad) {
      pb::io::ArrayInputStream a(c.msgs[i].data(), static_cast<int>(c.msgs[i].size()));
      pb::io::StringOutputStream so(&t);
      absl::Status s = pb::util::BinaryToJsonStream(h.th->Resolver(), "type.googleapis.com/sim.Item", &a, &so, c.opt.json_print_options);
      if (!s.ok()) { bad = true; k_rjunk++; if (c.bad_at == SIZE_MAX) c.plain = false; }
    }
    if (c.flags[i]) k_rflag++;
    if (c.badtype) k_notype++;
    if (bad && c.bad_at == SIZE_MAX) c.bad_at = i;
    c.text.push_back(t);
  }
  for (auto& f : faults)
    if (f[0] == "cut" && !c.cutf && w.size() > 1) {
      size_t at = 1 + static_cast<size_t>(I(f, 2)) % (w.size() - 1);
      size_t whole = 0;
      while (whole < n && c.end_at[whole] <= at) ++whole;
      size_t start = whole ? c.end_at[whole - 1] : 0;
      if (at == start) continue;  // on a boundary: not a truncation
      w.resize(at);
      c.cutf = true;
      k_rcut++;
      c.bad_at = std::min(c.bad_at, whole);
    }
  c.usable = c.mode == 0 ? std::min<size_t>(n, 1) : n;
  if (c.bad_at < c.usable) { c.usable = c.bad_at; c.faulty = true; }
  c.off.push_back(0);
  for (size_t i = 0; i < c.usable; ++i) {
    if (c.mode == 1) c.full += i ? "," : "[";
    c.full += c.text[i];
    if (c.mode == 2) c.full += "\n";
    c.off.push_back(c.full.size());
  }
  c.src.all = w;
  c.src.tags = c.charge ? c.charge : Tag(14) | Tag(15);
  if (n == 0) k_empty++;
}

size_t Arrived(PCall& c) {
  while (c.whole < c.usable && c.end_at[c.whole] <= c.src.arrived) ++c.whole;
  return c.whole;
}
void CheckOut(PCall& c, bool settled) {
  size_t k = Arrived(c);
  bool complete = !c.faulty && c.src.closed && c.src.arrived == c.src.all.size() && k == c.usable;
  size_t lim = std::min(c.out.size(), c.off[k]);
  bool ok = c.full.compare(c.same, lim - std::min(lim, c.same), c.out, c.same, lim - std::min(lim, c.same)) == 0;
  if (ok) c.same = std::max(c.same, lim);
  string end = complete && c.mode == 1 ? k ? "]" : "[]" : "";
  if (ok && c.out.size() > lim) ok = c.out.size() - lim <= end.size() && c.out.compare(lim, string::npos, end, 0, c.out.size() - lim) == 0;
  if (!ok)
    Violate(c.tags(), "wrong-json", "call %d: delivered\n  %s\nwhich is no prefix of what has arrived\n  %s", c.id, Quote(c.out, 1200).c_str(), Quote(Prefix(c, k, complete), 1200).c_str());
  if (c.faulty) {
    // only whole elements of the frames before the fault
    bool at = std::binary_search(c.off.begin(), c.off.end(), c.out.size());
    if (!at && !c.view) Violate(c.tags(), "partial-element", "call %d: delivered %s", c.id, Quote(c.out, 1200).c_str());
  }
  if (settled && c.out.size() < c.off[k] + end.size())
    Violate(c.tags(), "late-element", "call %d: nothing delivered although more has arrived; delivered\n  %s\nexpected\n  %s", c.id, Quote(c.out, 1200).c_str(), Quote(Prefix(c, k, complete), 1200).c_str());
}
void SettleResp(PCall& c, bool pending) {
  absl::Status st;
  bool fin;
  { Active ac; st = c.tr->Status(); fin = c.tr->Finished(); }
  Ev(211, static_cast<uint64_t>(st.code()), fin);
  if (c.obs) c.obs->push_back(StatusText(st) + (fin ? " end" : ""));
  if (c.errored) {
    if (StatusText(st) != c.err || !fin) Violate(c.tags(), "error-not-final", "call %d: error '%s' became '%s', finished=%d", c.id, c.err.c_str(), StatusText(st).c_str(), fin);
    return;
  }
  if (c.ended) {
    if (!st.ok() || !fin) Violate(c.tags(), "end-not-final", "call %d: after a clean end status '%s', finished=%d", c.id, StatusText(st).c_str(), fin);
    return;
  }
  if (!st.ok()) {
    if (!c.faulty) Violate(c.tags(), "spurious-error", "call %d: valid response reported as '%s'", c.id, StatusText(st).c_str());
    if (!c.badtype && st.code() != absl::StatusCode::kInternal && c.plain) Violate(c.tags(), "error-code", "call %d: a broken frame is reported as '%s', not as an internal error", c.id, StatusText(st).c_str());
    if (!c.view && !IsPrefix(c, c.usable, false))
      Violate(c.tags(), "elements-before-fault", "call %d: error, but the elements before the fault are not what was delivered: %s", c.id, Quote(c.out, 1200).c_str());
    if (!fin) Violate(c.tags(), "error-not-finished", "call %d: error '%s' but not finished", c.id, StatusText(st).c_str());
    c.errored = true;
    c.err = StatusText(st);
    k_err++;
    Nontrivial();
    Cov(Mix(41, Mix(static_cast<uint64_t>(c.mode * 4 + c.view * 2 + c.cutf), Mix(std::min<size_t>(c.usable, 4), static_cast<uint64_t>(st.code())))));
    return;
  }
  if (fin) {
    if (c.faulty) Violate(c.tags(), "broken-response-succeeds", "call %d: successful end for a broken response stream", c.id);
    bool all = Arrived(c) == c.usable && (c.mode == 0 ? c.usable == 1 : c.src.closed && c.src.arrived == c.src.all.size());
    if (!all) Violate(c.tags(), "early-end", "call %d: end reported after %zu of %zu bytes", c.id, c.src.arrived, c.src.all.size());
    if (!c.view && !IsPrefix(c, c.usable, true))
      Violate(c.tags(), "incomplete-at-end", "call %d: end reported, delivered\n  %s\nexpected\n  %s", c.id, Quote(c.out, 1200).c_str(), Quote(Prefix(c, c.usable, true), 1200).c_str());
    c.ended = true;
    k_ok++;
    return;
  }
  if (pending) {
    CheckOut(c, true);
    k_stall++;
    bool over = c.src.closed && c.src.arrived == c.src.all.size();
    if (over && (c.mode != 0 || c.faulty))
      Violate(c.tags(), c.faulty ? "broken-response-unreported" : "end-missed", "call %d: the response stream has ended but the poll reports neither end nor error", c.id);
    if (c.faulty && (c.bad_at < c.end_at.size() && c.end_at[c.bad_at] <= c.src.arrived))
      Violate(c.tags(), "fault-missed", "call %d: the broken frame has arrived but the poll reports no error", c.id);
  }
}
void PollResp(PCall& c, bool junk) {
  k_poll++;
  if (c.ended || c.errored) k_final++;
  string m = junk ? kJunk : "";
  if (junk) k_junk++;
  c.src.NewCall();
  bool r;
  { Active ac; r = c.tr->NextMessage(&m); }
  Ev(212, static_cast<uint64_t>(c.id), r);
  Cov(Mix(42, Mix(r, Mix(static_cast<uint64_t>(c.mode * 4 + c.faulty * 2 + c.src.closed), Mix(std::min<size_t>(Arrived(c), 5), c.ended * 2u + c.errored)))));
  if (r) {
    if (c.errored) Violate(c.tags(), "output-after-error", "call %d: '%s' delivered after error '%s'", c.id, Quote(m).c_str(), c.err.c_str());
    if (c.ended) Violate(c.tags(), "output-after-end", "call %d: '%s' delivered after the end", c.id, Quote(m).c_str());
    c.out += m;
    if (c.obs) c.obs->push_back(m);
    k_msg++;
    Nontrivial();
    Sig(Mix(static_cast<uint64_t>(c.id) + 50, HashStr(m)));
    Ev(213, HashStr(m));
    CheckOut(c, false);
  }
  SettleResp(c, !r);
}
void ReadResp(PCall& c, size_t back) {
  k_view++;
  const void* d = nullptr;
  int n = -1;
  c.src.NewCall();
  bool r;
  { Active ac; r = c.in->Next(&d, &n); }
  Ev(214, static_cast<uint64_t>(n), r);
  if (r && n > 0) {
    size_t b = std::min<size_t>(back, static_cast<size_t>(n));
    string bytes(static_cast<const char*>(d), static_cast<size_t>(n) - b);
    if (b) { Active ac; c.in->BackUp(static_cast<int>(b)); k_giveback++; }
    c.out += bytes;
    if (c.obs) c.obs->push_back(bytes);
    if (!bytes.empty()) Nontrivial();
    Sig(Mix(static_cast<uint64_t>(c.id) + 60, HashStr(bytes)));
    CheckOut(c, false);
    SettleResp(c, false);
    return;
  }
  if (!r) {
    bool fin;
    { Active ac; fin = c.tr->Finished(); }
    if (!fin) Violate(c.tags(), "view-end-early", "call %d: byte view ended while the translation has not finished", c.id);
    if (!IsPrefix(c, c.usable, !c.faulty))
      Violate(c.tags(), "view-incomplete", "call %d: byte view ended with\n  %s\nexpected\n  %s", c.id, Quote(c.out, 1200).c_str(), Quote(Prefix(c, c.usable, !c.faulty), 1200).c_str());
  }
  SettleResp(c, true);
}

void Step(RCall& c, size_t back, bool junk) { if (c.view) Read(c, back); else Poll(c, junk); }
void Step(PCall& c, size_t back, bool junk) { if (c.view) ReadResp(c, back); else PollResp(c, junk); }

// Faults stop: everything arrives, the connection is closed, progress is bounded.
void FinishReq(RCall& c) {
  c.src.Feed(c.body.size(), false);
  c.src.Close();
  for (size_t i = 0; i < c.want.size() + 3 && !c.ended && !c.errored; ++i) Step(c, 0, i % 2);
  if (c.faulty && !c.errored)
    Violate(c.tags() | (c.badbind ? c.weave() : 0), "broken-body-unreported", "call %d: no error for a broken body after %zu polls: %s", c.id, c.want.size() + 3, Quote(c.body, 800).c_str());
  // an empty body of a streaming call has no claim
  bool claim = !c.faulty && (!c.streaming || !c.body.empty());
  if (claim && (!c.ended || c.got != c.want.size()))
    Violate(c.tags(), "no-progress", "call %d: %zu of %zu messages, ended=%d after the connection closed\nbody: %s", c.id, c.got, c.want.size(), c.ended, Quote(c.body, 800).c_str());
  for (int i = 0; i < 3; ++i) Step(c, 0, i == 1);
}
void FinishResp(PCall& c) {
  bool late = c.ended || c.errored;
  c.src.Feed(c.src.all.size(), false);
  c.src.Close();
  bool claim = c.mode != 0 || c.faulty || c.usable == 1;
  size_t bound = c.msgs.size() + 3 + (c.view ? c.msgs.size() + 3 : 0);
  for (size_t i = 0; i < bound && !c.ended && !c.errored; ++i) Step(c, 0, i % 2);
  // the view may still hold bytes that were given back
  if (c.view) for (size_t i = 0; i < 3; ++i) Step(c, 0, false);
  if (!late && claim && !c.ended && !c.errored) Violate(c.tags(), "no-progress", "call %d: neither end nor error after the stream closed", c.id);
  if (!IsPrefix(c, c.usable, claim && !c.faulty))
    Violate(c.tags(), "wrong-total", "call %d: delivered in all\n  %s\nexpected\n  %s", c.id, Quote(c.out, 1200).c_str(), Quote(Prefix(c, c.usable, claim && !c.faulty), 1200).c_str());
  for (int i = 0; i < 3; ++i) Step(c, 0, i == 1);
}
}  // namespace
}  // namespace sim
#endif
