// Scenarios for the byte/message stream layer:
//   reader  - MessageReader over simulated connections (C01-C05, C11)
//   adapter - MessageStream::CreateInputStream over simulated sources (C06, C07, C11)
#include <algorithm>
#include <deque>
#include <map>
#include <memory>
#include <new>
#include <set>

#include "core.h"
#include "google/protobuf/io/coded_stream.h"
#include "google/protobuf/io/zero_copy_stream.h"
#include "grpc_transcoding/message_reader.h"
#include "grpc_transcoding/message_stream.h"
#include "grpc_transcoding/transcoder_input_stream.h"

namespace sim {
namespace {

namespace pbio = google::protobuf::io;
namespace gt = google::grpc::transcoding;
using std::string;
using std::vector;

Counter k_arrive("event.arrival"), k_zero("fault.zero_length_buffer"), k_stall("fault.stall_poll"),
    k_close("event.close_on_boundary"), k_cut("fault.cut_inside_frame"), k_cuthdr("probe.cut_in_header"),
    k_cutbody("probe.cut_in_body"), k_flag("fault.bad_flag_frame"), k_flip("fault.flipped_byte"),
    k_ioerr("fault.stream_failure"), k_oom("fault.alloc_failure_fired"), k_oom_armed("fault.alloc_failure_armed"), k_iothrow("fault.stream_query_threw_bad_alloc"),
    k_late("fault.bytes_after_end"), k_drop("fault.connection_dropped"), k_msg("event.message_delivered"),
    k_big("probe.frame_ge_2GiB"), k_virt("probe.frame_ge_1MiB"), k_end("event.clean_end"), k_err("event.error_end"),
    k_poll("event.poll"), k_split("probe.header_split_across_arrivals"), k_open("probe.arrival_while_message_open"),
    k_backup("event.give_back"), k_many("probe.interleaved_connections"), k_empty("probe.empty_message"),
    k_detected("probe.close_seen_after_header_consumed"), k_final("probe.poll_after_terminal"), k_adsrc("probe.reader_over_adapter"),
    k_afetch("event.source_fetch"), k_aempty("probe.adapter_skipped_empty"), k_apend("probe.adapter_pending_read"),
    k_aend("probe.adapter_end"), k_alazy("fault.end_noticed_late"), k_afail("fault.source_failure"), k_coded("event.coded_stream_read"),
    k_long("probe.very_long_stream"), k_bigmsg("probe.message_gt_1MiB"), k_manypolls("fault.stall_of_thousands_of_polls");

// ------------------------------------------------------------ wire bytes ---
constexpr size_t kPatSize = 1 << 20;
const unsigned char* Pattern() {
  static unsigned char* p = [] {
    unsigned char* q = static_cast<unsigned char*>(malloc(kPatSize));
    uint64_t x = 42;
    for (size_t i = 0; i < kPatSize; i += 8) { uint64_t v = SplitMix(x); memcpy(q + i, &v, 8); }
    return q;
  }();
  return p;
}
void Fill(string* out, size_t len, uint64_t seed, const string& kind) {
  size_t at = out->size();
  out->resize(at + len);
  unsigned char* p = reinterpret_cast<unsigned char*>(&(*out)[at]);
  uint64_t x = seed * 0x9e3779b9ull + 7;
  if (kind == "zero") { memset(p, 0, len); return; }
  if (kind == "ones") { memset(p, 0xff, len); return; }
  if (kind == "hdr") {  // looks like frame headers
    for (size_t i = 0; i < len; ++i) p[i] = (i % 5 == 4) ? static_cast<unsigned char>((seed + i) % 7) : 0;
    return;
  }
  for (size_t i = 0; i < len; i += 8) {
    uint64_t v = SplitMix(x);
    memcpy(p + i, &v, len - i < 8 ? len - i : 8);
  }
}

struct Wire {
  struct Seg { bool virt; int64_t start, len; string lit; };
  vector<Seg> segs;
  int64_t size = 0;
  string& Lit() {
    if (segs.empty() || segs.back().virt) segs.push_back(Seg{false, size, 0, ""});
    return segs.back().lit;
  }
  void Sync() {
    Seg& s = segs.back();
    if (!s.virt) { size = s.start + static_cast<int64_t>(s.lit.size()); s.len = static_cast<int64_t>(s.lit.size()); }
  }
  void AddBytes(const string& b) { if (b.empty()) return; Lit() += b; Sync(); }
  void AddVirt(int64_t n) { if (!n) return; segs.push_back(Seg{true, size, n, ""}); size += n; }
  const Seg& At(int64_t pos) const {
    size_t lo = 0, hi = segs.size();
    while (hi - lo > 1) { size_t m = (lo + hi) / 2; if (segs[m].start <= pos) lo = m; else hi = m; }
    return segs[lo];
  }
  unsigned char Byte(int64_t pos) const {
    const Seg& s = At(pos);
    return s.virt ? Pattern()[(pos - s.start) % kPatSize] : static_cast<unsigned char>(s.lit[pos - s.start]);
  }
  // Longest contiguous run at pos, at most max.
  const unsigned char* Run(int64_t pos, int64_t max, int64_t* n) const {
    const Seg& s = At(pos);
    int64_t left = s.start + s.len - pos;
    if (s.virt) {
      int64_t o = (pos - s.start) % static_cast<int64_t>(kPatSize);
      left = std::min<int64_t>(left, static_cast<int64_t>(kPatSize) - o);
      *n = std::min(left, max);
      return Pattern() + o;
    }
    *n = std::min(left, max);
    return reinterpret_cast<const unsigned char*>(s.lit.data()) + (pos - s.start);
  }
  // First mismatch index or -1.
  int64_t Diff(int64_t pos, const unsigned char* d, int64_t n) const {
    int64_t i = 0;
    while (i < n) {
      if (pos + i >= size) return i;
      int64_t r; const unsigned char* e = Run(pos + i, n - i, &r);
      if (e != d + i && memcmp(e, d + i, static_cast<size_t>(r)) != 0) {
        for (int64_t j = 0; j < r; ++j) if (e[j] != d[i + j]) return i + j;
      }
      i += r;
    }
    return -1;
  }
};

// -------------------------------------------------- simulated byte stream --
struct Conn;
uint64_t ConnTags(const Conn* c);

class SimStream : public gt::TranscoderInputStream {
 public:
  const Wire* wire = nullptr;
  Conn* conn = nullptr;
  int64_t pos = 0, delivered = 0;
  bool closed = false, failed = false;
  int64_t bufmax = 1 << 30;
  int zero_every = 0;        // every n-th Next yields an empty buffer
  std::deque<int64_t> cuts;  // arrival boundaries not yet passed
  std::deque<int64_t> zeros; // positions at which an empty buffer is queued
  int64_t calls = 0;
  int nexts = 0, spins = 0, last_size = -1;
  int64_t mut_calls = 0;
  mutable int throw_in = 0;  // throw bad_alloc at the n-th query of the available bytes
  char* buf = nullptr;

  ~SimStream() override { free(buf); }
  void Budget() {
    const int64_t limit = 200000 + 16 * std::min<int64_t>(delivered, 1 << 26);
    if (++calls > limit) Violate(ConnTags(conn), "spin", "one call made more than %lld calls on the underlying stream", static_cast<long long>(limit));
  }
  bool Next(const void** data, int* size) override {
    InHarness h;
    Budget(); ++mut_calls;
    free(buf); buf = nullptr;
    last_size = -1;
    if (failed) { *size = 0; return false; }
    ++nexts;
    while (!cuts.empty() && cuts.front() <= pos) cuts.pop_front();
    bool zero = false;
    while (!zeros.empty() && zeros.front() <= pos) { zeros.pop_front(); zero = true; }
    if (zero_every && nexts % zero_every == 0) zero = true;
    if (zero && !(closed && pos == delivered)) {
      k_zero++;
      buf = static_cast<char*>(malloc(1));
      *data = buf; *size = 0; last_size = 0;
      return true;
    }
    if (pos >= delivered) {
      *size = 0;
      if (closed) return false;
      if (++spins > 2000) Violate(ConnTags(conn), "spin", "poll keeps reading a stream that has no bytes yet");
      *data = Pattern(); last_size = 0;
      return true;
    }
    int64_t end = delivered;
    if (!cuts.empty()) end = std::min(end, cuts.front());
    int64_t n; const unsigned char* p = wire->Run(pos, wire->At(pos).virt ? end - pos : std::min<int64_t>(end - pos, bufmax), &n);
    if (wire->At(pos).virt) {
      *data = p;
    } else {
      buf = static_cast<char*>(malloc(static_cast<size_t>(n)));  // exact size: overreads trap
      memcpy(buf, p, static_cast<size_t>(n));
      *data = buf;
    }
    *size = static_cast<int>(n);
    last_size = *size;
    pos += n;
    return true;
  }
  void BackUp(int count) override {
    InHarness h;
    Budget();
    if (count == 0) return;
    ++mut_calls;
    if (count < 0 || last_size < 0 || count > last_size)
      Violate(ConnTags(conn), "illegal-backup", "BackUp(%d) on the underlying stream, last buffer had %d bytes", count, last_size);
    k_backup++;
    pos -= count;
    last_size = -1;
  }
  bool Skip(int count) override {
    InHarness h;
    Budget(); ++mut_calls;
    last_size = -1;
    if (failed) return false;
    int64_t n = std::min<int64_t>(count, delivered - pos);
    pos += n;
    return n == count;
  }
  int64_t ByteCount() const override { return pos; }
  int64_t BytesAvailable() const override {
    const_cast<SimStream*>(this)->Budget();
    if (throw_in > 0 && --throw_in == 0) { k_iothrow++; throw std::bad_alloc(); }
    return delivered - pos;
  }
  bool Finished() const override {
    const_cast<SimStream*>(this)->Budget();
    return closed;
  }
};

// A message stream whose messages are slices of a wire (reader over adapter).
class SimSource : public gt::MessageStream {
 public:
  vector<string> msgs;
  size_t next = 0, avail = 0;
  bool fin = false, lazy = false, lazy_seen = false, failed = false;
  int throw_in = 0;  // throw bad_alloc at the n-th fetch that has a message
  int calls = 0;
  uint64_t tags = 0;
  int Limit() const { return 200000 + 16 * static_cast<int>(msgs.size()); }
  bool NextMessage(string* m) override {
    InHarness h;
    if (++calls > Limit()) Violate(tags, "spin", "one call made more than %d calls on the source", Limit());
    if (failed) return false;
    if (next < avail) {
      if (throw_in > 0 && --throw_in == 0) { k_oom++; throw std::bad_alloc(); }
      k_afetch++;
      if (msgs[next].empty()) k_aempty++;
      *m = msgs[next];
      ++next;
      return true;
    }
    if (fin) lazy_seen = true;
    return false;
  }
  bool Finished() const override {
    const_cast<SimSource*>(this)->calls++;
    if (calls > Limit()) Violate(tags, "spin", "one call made more than %d calls on the source", Limit());
    if (failed) return true;
    return fin && next >= msgs.size() && (!lazy || lazy_seen);
  }
  absl::Status Status() const override {
    return failed ? absl::Status(absl::StatusCode::kUnavailable, "source failed") : absl::Status();
  }
};

// ----------------------------------------------------------- reader model --
struct Conn {
  int id = 0;
  Wire wire;
  // configuration
  bool adapter = false;
  int64_t cut = -1;  // wire ends here
  bool oom_used = false;
  // the system
  std::unique_ptr<SimStream> stream;
  std::unique_ptr<SimSource> source;
  std::unique_ptr<gt::TranscoderInputStream> adapted;
  std::unique_ptr<gt::MessageReader> reader;
  std::unique_ptr<pbio::ZeroCopyInputStream> msg;  // open message
  // model
  int64_t frame_at = 0;        // start of the next frame
  int64_t body_at = 0, body_len = 0, body_pos = 0;  // open message
  bool terminal = false, term_ok = false, dead = false, dropped = false, started = false;
  absl::Status term_status;
  int64_t term_pos = 0, term_calls = 0;
  bool has_bad_flag = false, fault_cut = false;
  int pendings = 0;
  bool header_seen_pending = false;
  std::deque<int64_t> group_end;  // adapter: wire offsets at which messages end
  size_t group_avail = 0;
  vector<int64_t> groups;

  gt::TranscoderInputStream* in() { return adapter ? adapted.get() : static_cast<gt::TranscoderInputStream*>(stream.get()); }
  int64_t Delivered() const {
    if (!adapter) return stream->delivered;
    return group_avail ? groups[group_avail - 1] : 0;
  }
  bool Closed() const { return adapter ? source->fin : stream->closed; }
  int64_t WireEnd() const { return cut >= 0 ? std::min(cut, wire.size) : wire.size; }
};
// Tags for any misbehaviour of this connection outside its terminal state.
uint64_t ConnTags(const Conn* c) {
  if (!c) return Tag(1) | Tag(2);
  uint64_t t = Tag(1) | Tag(2);
  if (c->fault_cut) t |= Tag(3);
  if (c->has_bad_flag) t |= Tag(4);
  if (c->terminal) t |= Tag(5);
  if (c->oom_used) t |= Tag(11);
  if (c->adapter) t |= Tag(6) | Tag(7);
  return t;
}

struct World {
  std::map<int, Conn> conns;
};

void ParseBadFlags(Conn* c) {
  int64_t p = 0, end = c->WireEnd();
  while (p + 5 <= end) {
    if (c->wire.Byte(p) != 0) { c->has_bad_flag = true; return; }
    int64_t len = 0;
    for (int i = 1; i < 5; ++i) len = (len << 8) | c->wire.Byte(p + i);
    p += 5 + len;
  }
  c->fault_cut = p != end;
}

void Start(Conn* c) {
  if (c->started) return;
  c->started = true;
  if (c->adapter) {
    // groups hold whole frames except possibly the last one
    int64_t from = 0;
    // A frame that continues in a later message is a documented limitation of the
    // pairing (see DESIGN.md), so a cut also drops the (now empty) messages after it.
    while (!c->groups.empty() && c->groups.back() >= c->WireEnd()) c->groups.pop_back();
    for (size_t i = 0; i < c->groups.size(); ++i) {
      int64_t to = std::min(c->groups[i], c->WireEnd());
      c->groups[i] = to;
      string m;
      for (int64_t p = from; p < to; ++p) m += static_cast<char>(c->wire.Byte(p));
      c->source->msgs.push_back(m);
      from = to;
    }
    if (from < c->WireEnd()) {
      string m;
      for (int64_t p = from; p < c->WireEnd(); ++p) m += static_cast<char>(c->wire.Byte(p));
      c->source->msgs.push_back(m);
      c->groups.push_back(c->WireEnd());
    }
    c->adapted = c->source->CreateInputStream();
    k_adsrc++;
  }
  ParseBadFlags(c);
  if (c->has_bad_flag) k_flag++;
  c->stream->wire = &c->wire;
  c->stream->conn = c;
  InMut m;
  c->reader.reset(new gt::MessageReader(c->in()));
}

// Bytes the open message must still yield are compared as they are read.
void ConsumeNext(Conn* c, int backup) {
  const void* d = nullptr; int n = -1;
  int zero = 0;
  bool ok;
  for (;;) {
    { InMut m; ok = c->msg->Next(&d, &n); }
    if (!ok || n != 0) break;
    if (++zero > 4000) Violate(ConnTags(c), "message-stuck", "conn %d: message stream yields empty buffers forever", c->id);
  }
  int64_t left = c->body_len - c->body_pos;
  if (!ok) {
    if (c->dead) { c->body_pos = c->body_len; return; }  // the stream failed under the message
    if (left != 0) Violate(ConnTags(c), "message-short", "conn %d: message of %lld bytes ended after %lld", c->id, (long long)c->body_len, (long long)c->body_pos);
    return;
  }
  if (n < 0 || n > left) Violate(ConnTags(c), "message-long", "conn %d: message of %lld bytes yields more (%d bytes at %lld)", c->id, (long long)c->body_len, n, (long long)c->body_pos);
  int64_t diff = c->wire.Diff(c->body_at + c->body_pos, static_cast<const unsigned char*>(d), n);
  if (diff >= 0) Violate(ConnTags(c), "message-bytes", "conn %d: byte %lld of a %lld-byte message is wrong", c->id, (long long)(c->body_pos + diff), (long long)c->body_len);
  c->body_pos += n;
  if (backup > 0) {
    int b = std::min(backup, n);
    { InMut m; c->msg->BackUp(b); }
    c->body_pos -= b;
  }
}

void Release(Conn* c) {
  if (!c->msg) return;
  int guard = 0;
  while (c->body_pos < c->body_len) { ConsumeNext(c, 0); if (++guard > 5000000) HarnessError("consume guard"); }
  // The end must be visible too.
  if (!c->dead) {
    const void* d; int n = 0; bool ok; int z = 0;
    do { InMut m; ok = c->msg->Next(&d, &n); } while (ok && n == 0 && ++z < 4000);
    if (ok) Violate(ConnTags(c), "message-long", "conn %d: message of %lld bytes does not end", c->id, (long long)c->body_len);
  }
  { InMut m; c->msg.reset(); }
  k_msg++;
  Ev(0x3e1, c->id, c->body_len);
  if (!c->adapter && !c->dead && c->stream->pos != c->body_at + c->body_len)
    Violate(ConnTags(c), "position", "conn %d: after a message the stream is at %lld instead of %lld", c->id,
            (long long)c->stream->pos, (long long)(c->body_at + c->body_len));
}

void CheckState(Conn* c, bool fin, const char* what) {
  bool f; absl::Status st;
  { InMut m; f = c->reader->Finished(); st = c->reader->Status(); }
  if (f != fin) Violate(ConnTags(c) | (fin ? 0 : Tag(2)), "finished-flag", "conn %d: Finished() is %d but should be %d (%s)", c->id, f, fin, what);
  if (!fin && !st.ok()) Violate(ConnTags(c), "spurious-error", "conn %d: status %s although nothing is wrong (%s)", c->id, st.ToString().c_str(), what);
}

enum Exp { kMessage, kPending, kEnd, kTrunc, kBadFlag };

Exp Expect(Conn* c, int64_t* body) {
  int64_t avail = c->Delivered() - c->frame_at;
  bool closed = c->Closed();
  if (avail < 5) return !closed ? kPending : avail == 0 ? kEnd : kTrunc;
  if (c->wire.Byte(c->frame_at) != 0) return kBadFlag;
  int64_t len = 0;
  for (int i = 1; i < 5; ++i) len = (len << 8) | c->wire.Byte(c->frame_at + i);
  *body = len;
  if (avail - 5 < len) return closed ? kTrunc : kPending;
  return kMessage;
}

void Poll(Conn* c, int api, int64_t oom, int sthrow = 0) {
  Start(c);
  if (c->dropped) return;
  if (c->msg) Release(c);
  c->stream->calls = c->stream->spins = 0;
  if (c->source) c->source->calls = 0;
  k_poll++;
  gt::MessageAndGrpcFrame mf;
  bool threw = false;
  int64_t calls_before = c->stream->mut_calls;
  int64_t frame_pos = c->frame_at;
  if (oom != 0 || sthrow > 0) {
    c->oom_used = true;
    k_oom_armed++;
    (c->source ? c->source->throw_in : c->stream->throw_in) = sthrow;
    try {
      InMut m;
      OomArm(oom);
      if (api) mf = c->reader->NextMessageAndGrpcFrame(); else mf.message = c->reader->NextMessage();
    } catch (const std::bad_alloc&) {
      threw = true;
    }
    if (OomDisarm()) { k_oom++; Cov(Mix(0x00a, oom)); }
    (c->source ? c->source->throw_in : c->stream->throw_in) = 0;
  } else {
    InMut m;
    if (api) mf = c->reader->NextMessageAndGrpcFrame(); else mf.message = c->reader->NextMessage();
  }
  if (threw) {
    Ev(0x0031, c->id);
    if (g_trace) Trace("  conn %d poll api%d -> bad_alloc", c->id, api);
    if (oom == 0 && sthrow == 0) Violate(ConnTags(c) | Tag(11), "spurious-throw", "bad_alloc without injected failure");
    return;  // the model is unchanged: a failed call must have no effect
  }
  bool got = mf.message != nullptr;
  if (c->dead) {  // the underlying stream failed: nothing may be invented
    absl::Status st; bool fin;
    { InMut m; st = c->reader->Status(); fin = c->reader->Finished(); }
    Ev(0xdead, got, fin);
    if (got) {
      int64_t b = 0;
      Exp e = Expect(c, &b);
      if (c->terminal) Violate(Tag(5) | ConnTags(c), "not-final", "conn %d: message after the reader had ended", c->id);
      if (e != kMessage) Violate(ConnTags(c), "early-message", "conn %d: message handed out after a stream failure although it never arrived", c->id);
      c->msg = std::move(mf.message);
      c->body_at = c->frame_at + 5; c->body_len = b; c->body_pos = 0; c->frame_at += 5 + b;
      return;
    }
    if (c->terminal && !fin) Violate(Tag(5) | ConnTags(c), "not-final", "conn %d: reader un-finished itself", c->id);
    c->terminal = c->terminal || fin;
    return;
  }
  if (c->terminal) {
    k_final++;
    bool fin; absl::Status st;
    { InMut m; fin = c->reader->Finished(); st = c->reader->Status(); }
    Ev(0x7e, got, fin);
    if (got) Violate(Tag(5), "not-final", "conn %d: message after the reader had ended", c->id);
    if (!fin) Violate(Tag(5), "not-final", "conn %d: reader no longer finished", c->id);
    if (st != c->term_status) Violate(Tag(5), "not-final", "conn %d: status changed from %s to %s", c->id, c->term_status.ToString().c_str(), st.ToString().c_str());
    if (!c->adapter && (c->stream->pos != c->term_pos || c->stream->mut_calls != calls_before))
      Violate(Tag(5), "not-final", "conn %d: bytes consumed after the end", c->id);
    return;
  }
  int64_t body = 0;
  Exp e = Expect(c, &body);
  absl::Status st; bool fin;
  { InMut m; st = c->reader->Status(); fin = c->reader->Finished(); }
  Ev(0x901 + (got ? 1 : 0), c->id, static_cast<uint64_t>(e) * 16 + fin * 2 + st.ok());
  Cov(Mix(Mix(0x1ead, e), (fin << 1 | st.ok()) + 4 * std::min(c->pendings, 3) + 16 * (body == 0) + 32 * api));
  if (g_trace) Trace("  conn %d poll api%d -> %s fin=%d status=%s (expected %s)", c->id, api, got ? "message" : "null", fin, st.ToString().c_str(),
        e == kMessage ? "message" : e == kPending ? "pending" : e == kEnd ? "end" : e == kTrunc ? "truncation error" : "flag error");
  Sig(Mix(e, body));
  uint64_t tags = ConnTags(c);
  if (got && e != kMessage) {
    uint64_t t = tags | (e == kTrunc ? Tag(3) : 0) | (e == kBadFlag ? Tag(4) : 0);
    Violate(t, e == kPending ? "early-message" : e == kBadFlag ? "bad-flag-delivered" : e == kEnd ? "message-after-end" : "partial-message",
            "conn %d: a message was handed out at wire offset %lld where none is complete", c->id, (long long)frame_pos);
  }
  switch (e) {
    case kMessage: {
      if (!got) {
        if (!st.ok()) Violate(tags, "spurious-error", "conn %d: complete frame at %lld, but status %s", c->id, (long long)frame_pos, st.ToString().c_str());
        if (fin) Violate(tags, "early-end", "conn %d: complete frame at %lld, but the reader reports the end", c->id, (long long)frame_pos);
        Violate(tags, "stuck", "conn %d: complete frame of %lld bytes at %lld is not handed out", c->id, (long long)body, (long long)frame_pos);
      }
      if (!st.ok() || fin) Violate(tags, "state-with-message", "conn %d: message together with finished=%d status=%s", c->id, fin, st.ToString().c_str());
      if (api) {
        for (int i = 0; i < 5; ++i)
          if (mf.grpc_frame[i] != c->wire.Byte(frame_pos + i))
            Violate(tags, "frame-header", "conn %d: reported header byte %d is %02x, wire has %02x", c->id, i, mf.grpc_frame[i], c->wire.Byte(frame_pos + i));
        if (static_cast<int64_t>(mf.message_size) != body)
          Violate(tags, "frame-size", "conn %d: reported size %u, wire has %lld", c->id, mf.message_size, (long long)body);
      }
      c->msg = std::move(mf.message);
      c->body_at = frame_pos + 5; c->body_len = body; c->body_pos = 0;
      c->frame_at = frame_pos + 5 + body;
      c->pendings = 0;
      if (body == 0) k_empty++;
      if (body >= (1ll << 31)) k_big++;
      if (body >= (1 << 20)) k_virt++;
      break;
    }
    case kPending:
      if (!st.ok()) Violate(tags, "spurious-error", "conn %d: status %s while bytes may still come", c->id, st.ToString().c_str());
      if (fin) Violate(tags, "early-end", "conn %d: finished while bytes may still come", c->id);
      c->pendings++;
      k_stall++;
      if (!c->adapter) {
        int64_t p = c->stream->pos;
        if (p < frame_pos || p > frame_pos + 5)
          Violate(tags, "position", "conn %d: pending poll left the stream at %lld, frame starts at %lld", c->id, (long long)p, (long long)frame_pos);
        if (p > frame_pos) c->header_seen_pending = true;
        Cov(Mix(0x9e4d, p - frame_pos));
      }
      break;
    case kEnd:
      if (!st.ok()) Violate(tags, "spurious-error", "conn %d: clean end reported as %s", c->id, st.ToString().c_str());
      if (!fin) Violate(tags, "end-missed", "conn %d: the stream ended on a frame boundary, the reader does not say so", c->id);
      c->terminal = true; c->term_ok = true;
      k_end++;
      break;
    case kTrunc: case kBadFlag: {
      uint64_t t = tags | (e == kTrunc ? Tag(3) : Tag(4));
      const char* w = e == kTrunc ? "truncation" : "unsupported flag";
      if (st.ok()) Violate(t, e == kTrunc ? "truncation-unreported" : "flag-unreported", "conn %d: %s at frame offset %lld is not reported (finished=%d)", c->id, w, (long long)frame_pos, fin);
      if (st.code() != absl::StatusCode::kInternal) Violate(t, "error-code", "conn %d: %s reported as %s", c->id, w, st.ToString().c_str());
      if (!fin) Violate(t, "finished-flag", "conn %d: error without being finished", c->id);
      c->terminal = true;
      k_err++;
      if (c->header_seen_pending && e == kTrunc) k_detected++;
      break;
    }
  }
  if (c->terminal) {
    c->term_status = st;
    c->term_pos = c->stream->pos;
  }
}

void ReadStyle(Conn* c, const string& style, int64_t arg) {
  if (!c->msg) return;
  c->stream->calls = c->stream->spins = 0;
  if (c->source) c->source->calls = 0;
  if (style == "next") ConsumeNext(c, 0);
  else if (style == "back") ConsumeNext(c, static_cast<int>(std::max<int64_t>(1, std::min<int64_t>(arg, 1 << 30))));
  else if (style == "all") Release(c);
  else if (style == "skip" && !c->adapter && !c->dead) {
    int64_t left = c->body_len - c->body_pos;
    int n = static_cast<int>(std::min<int64_t>(std::max<int64_t>(arg, 0), 1 << 30));
    bool ok;
    { InMut m; ok = c->msg->Skip(n); }
    if (n <= left) {
      if (!ok) Violate(ConnTags(c), "message-short", "conn %d: Skip(%d) failed with %lld bytes left", c->id, n, (long long)left);
      c->body_pos += n;
    } else {
      if (ok) Violate(ConnTags(c), "message-long", "conn %d: Skip(%d) succeeded with only %lld bytes left", c->id, n, (long long)left);
      c->body_pos = c->body_len;
    }
  } else if (style == "coded" && !c->dead) {
    int64_t left = c->body_len - c->body_pos;
    int64_t n = std::min<int64_t>(std::min<int64_t>(std::max<int64_t>(arg, 0), left), 1 << 16);
    string b(static_cast<size_t>(n), '\0');
    bool ok;
    {
      InMut m;
      pbio::CodedInputStream ci(c->msg.get());
      ok = ci.ReadRaw(&b[0], static_cast<int>(n));
    }
    k_coded++;
    if (!ok) Violate(ConnTags(c), "message-short", "conn %d: reading %lld of %lld remaining bytes failed", c->id, (long long)n, (long long)left);
    int64_t d = c->wire.Diff(c->body_at + c->body_pos, reinterpret_cast<const unsigned char*>(b.data()), n);
    if (d >= 0) Violate(ConnTags(c), "message-bytes", "conn %d: byte %lld of a %lld-byte message is wrong", c->id, (long long)(c->body_pos + d), (long long)c->body_len);
    c->body_pos += n;
  } else if (style == "count" && !c->adapter && !c->dead) {
    int64_t n;
    { InMut m; n = c->msg->ByteCount(); }
    if (n != c->body_pos) Violate(ConnTags(c), "message-count", "conn %d: ByteCount() %lld after reading %lld bytes", c->id, (long long)n, (long long)c->body_pos);
  }
}

void Arrive(Conn* c, int64_t n) {
  Start(c);
  if (c->dropped || n <= 0) return;
  if (c->adapter) {
    if (c->source->fin) return;
    for (int64_t i = 0; i < n && c->group_avail < c->groups.size(); ++i) { c->group_avail++; c->source->avail++; k_arrive++; }
    return;
  }
  if (c->stream->closed) return;
  int64_t left = c->WireEnd() - c->stream->delivered;
  n = std::min(n, left);
  if (n <= 0) return;
  if (c->msg) k_open++;
  int64_t before = c->stream->delivered - c->frame_at;
  if (before > 0 && before < 5) k_split++;
  c->stream->delivered += n;
  c->stream->cuts.push_back(c->stream->delivered);
  k_arrive++;
  Ev(0xa441, c->id, c->stream->delivered);
}

void Close(Conn* c) {
  Start(c);
  if (c->dropped || c->Closed()) return;
  if (c->adapter) { c->source->fin = true; c->source->msgs.resize(c->group_avail); }
  else c->stream->closed = true;
  // What the peer managed to send before it closed decides.
  int64_t p = 0, end = c->Delivered();
  bool bad = false;
  while (p + 5 <= end) {
    if (c->wire.Byte(p) != 0) { bad = true; break; }
    int64_t len = 0;
    for (int i = 1; i < 5; ++i) len = (len << 8) | c->wire.Byte(p + i);
    if (p + 5 + len > end) break;
    p += 5 + len;
  }
  c->has_bad_flag = bad;
  c->fault_cut = !bad && p != end;
  if (c->fault_cut) { k_cut++; if (end - p < 5) k_cuthdr++; else k_cutbody++; } else if (!bad) k_close++;
  Ev(0xc105e, c->id);
}

void RunReader(const vector<Line>& lines) {
  World w;
  int active = 0;
  for (size_t li = 0; li < lines.size(); ++li) {
    const Line& l = lines[li];
    const string& op = l[0];
    if (op == "alloc") { AllocPolicy(static_cast<int>(I(l, 1)), static_cast<int>(I(l, 2))); continue; }
    int id = static_cast<int>(I(l, 1));
    if (op == "conn") {
      if (w.conns.count(id)) continue;
      Conn& c = w.conns[id];
      c.id = id;
      c.stream.reset(new SimStream);
      c.adapter = T(l, 2) == "adapter";
      c.stream->bufmax = std::max<int64_t>(1, I(l, 3, 1 << 30));
      c.stream->zero_every = static_cast<int>(I(l, 4, 0));
      if (c.stream->zero_every == 1) c.stream->zero_every = 2;
      if (c.adapter) {
        c.source.reset(new SimSource);
        c.source->tags = Tag(1) | Tag(2) | Tag(6) | Tag(7);
      }
      if (++active > 1) k_many++;
      continue;
    }
    auto it = w.conns.find(id);
    if (it == w.conns.end()) continue;
    Conn* c = &it->second;
    if (op == "frame") {
      if (c->started) continue;
      int64_t len = I(l, 3);
      if (c->adapter) len = std::min<int64_t>(len, 65536);
      string h;
      h += static_cast<char>(I(l, 2));
      for (int s = 24; s >= 0; s -= 8) h += static_cast<char>((static_cast<uint64_t>(len) >> s) & 255);
      c->wire.AddBytes(h);
      if (len > 65536) c->wire.AddVirt(len);
      else if (len > 0) { Fill(&c->wire.Lit(), static_cast<size_t>(len), static_cast<uint64_t>(I(l, 4)), T(l, 5)); c->wire.Sync(); }
    } else if (op == "frames") {  // many small frames
      if (c->started || c->adapter) continue;
      int64_t n = std::min<int64_t>(I(l, 2), 200000), len = std::min<int64_t>(I(l, 3), 8);
      for (int64_t i = 0; i < n; ++i) {
        char h[13] = {0, 0, 0, 0, static_cast<char>(len)};
        for (int64_t k = 0; k < len; ++k) h[5 + k] = static_cast<char>(i >> (8 * k));
        c->wire.Lit().append(h, static_cast<size_t>(5 + len));
      }
      if (n > 0) c->wire.Sync();
      c->stream->bufmax = std::min<int64_t>(c->stream->bufmax, 4096);
      k_long++;
    } else if (op == "group") {  // adapter: message boundary here
      if (!c->started && c->adapter) c->groups.push_back(c->wire.size);
    } else if (op == "flip") {
      if (c->started || c->adapter) continue;
      int64_t at = I(l, 2);
      if (at < 0 || at >= c->wire.size) continue;
      for (auto& s : c->wire.segs)
        if (!s.virt && at >= s.start && at < s.start + s.len) { s.lit[at - s.start] = static_cast<char>(s.lit[at - s.start] ^ I(l, 3)); k_flip++; }
    } else if (op == "cut") {
      if (!c->started) c->cut = I(l, 2);
    } else if (op == "arrive") {
      Arrive(c, I(l, 2));
    } else if (op == "zbuf") {
      Start(c);
      if (!c->adapter && !c->dropped) c->stream->zeros.push_back(c->stream->delivered);
    } else if (op == "poll") {
      Poll(c, static_cast<int>(I(l, 2)), I(l, 3), static_cast<int>(I(l, 4)));
    } else if (op == "polls") {
      int64_t n = std::min<int64_t>(I(l, 3), 200000);
      if (n > 1000) k_manypolls++;
      for (int64_t i = 0; i < n && !c->dropped; ++i) Poll(c, static_cast<int>(I(l, 2)), 0);
    } else if (op == "read") {
      if (c->started && !c->dropped) ReadStyle(c, T(l, 2), I(l, 3));
    } else if (op == "probe") {
      Start(c);
      if (!c->dropped && !c->dead && !c->terminal) CheckState(c, false, "probe");
    } else if (op == "close") {
      Close(c);
    } else if (op == "ioerr") {
      Start(c);
      if (c->dropped || c->adapter || c->terminal || c->msg) continue;
      c->stream->failed = true; c->stream->closed = true; c->dead = true;
      k_ioerr++;
    } else if (op == "late") {  // bytes after the reader has ended
      Start(c);
      if (c->dropped || c->adapter || !c->terminal) continue;
      int64_t n = std::min<int64_t>(I(l, 2), c->wire.size - c->stream->delivered);
      if (n > 0) { c->stream->delivered += n; c->stream->cuts.push_back(c->stream->delivered); k_late++; }
    } else if (op == "drop") {
      Start(c);
      if (c->dropped) continue;
      InMut m;
      if (c->msg && I(l, 2)) { c->reader.reset(); c->msg.reset(); }
      c->msg.reset(); c->reader.reset(); c->adapted.reset();
      c->dropped = true;
      k_drop++;
    }
  }
  // Faults stop: everything outstanding arrives, the peers close, and a bounded
  // number of polls must deliver all of it.
  for (auto& kv : w.conns) {
    Conn* c = &kv.second;
    Start(c);
    if (c->dropped || c->dead) continue;
    if (!c->Closed()) {
      Arrive(c, INT64_MAX);
      if (c->wire.size) Poll(c, 0, 0);
      Close(c);
    }
    int guard = 0;
    while (!c->terminal) {
      Poll(c, guard & 1, 0);  // each poll is checked against the model, so this terminates
      if (++guard > 500000) Violate(ConnTags(c), "stuck", "conn %d: not finished after 500000 polls", c->id);
    }
    Poll(c, 0, 0);
    Poll(c, 1, 0);
  }
  bool nt = false;
  for (auto& kv : w.conns) nt = nt || kv.second.frame_at > 0 || kv.second.terminal;
  if (nt) Nontrivial();
  for (auto& kv : w.conns) { InMut m; kv.second.msg.reset(); kv.second.reader.reset(); kv.second.adapted.reset(); }
}

// -------------------------------------------------------- reader generator --
int64_t FrameLen(Rng& r, int cls) {
  switch (cls) {
    case 0: return static_cast<int64_t>(r.Below(9));
    case 1: return static_cast<int64_t>(r.Below(300));
    case 2: { int64_t b = 1ll << r.Below(17); return std::max<int64_t>(0, b + r.Range(-2, 2)); }
    case 3: return r.Chance(0.5) ? 65536 : static_cast<int64_t>(r.Below(70000));
    case 4: return (1ll << r.Range(17, 31)) + r.Range(-2, 2);
    default: return r.Chance(0.4) ? 0xffffffffll : r.Chance(0.5) ? (1ll << 31) + r.Range(-2, 2) : static_cast<int64_t>(r.Below(1ull << 32));
  }
}

// Very long streams and very long stalls: counters wrap, recursion gets deep.
vector<Line> GenLongReader(Rng& r, int prop) {
  vector<Line> L;
  L.push_back({"alloc", S(r.Below(3)), S(r.Below(2))});
  L.push_back({"conn", "0", "stream", S(r.Range(1, 600)), "0"});
  int64_t total = 0;
  auto lit = [&](int64_t n, int64_t len) { L.push_back({"frames", "0", S(n), S(len)}); total += n * (5 + len); };
  auto idle = [&]() { L.push_back({"polls", "0", S(r.Below(2)), S(r.Chance(0.3) ? 70000 : r.Log(70000))}); };
  bool many = r.Chance(0.5);
  lit(many ? (r.Chance(0.3) ? 70000 : r.Log(70000)) : r.Range(1, 3), r.Below(3));
  int64_t mid = total, len = r.Range(1, 40);
  L.push_back({"frame", "0", prop == 4 && r.Chance(0.7) ? S(1 << r.Below(8)) : "0", S(len), "5", "rnd"});
  total += 5 + len;
  if (r.Chance(0.5)) lit(r.Log(500), r.Below(3));
  if (prop == 3 || r.Chance(0.2)) { total = mid + r.Range(1, 4 + len); L.push_back({"cut", "0", S(total)}); }
  int64_t at = 0;
  auto to = [&](int64_t p) { if (p > at) { L.push_back({"arrive", "0", S(p - at)}); at = p; } };
  if (r.Chance(0.3)) idle();
  if (many) {
    to(r.Chance(0.5) ? mid : static_cast<int64_t>(r.Below(static_cast<uint64_t>(mid) + 1)));
    L.push_back({"polls", "0", S(r.Below(2)), S(r.Chance(0.5) ? 200000 : r.Log(66000))});
  }
  static const int64_t off[] = {0, 1, 4, 5, 6};
  for (int i = 0; i < 2; ++i) {
    int64_t p = std::min(total, mid + off[r.Below(5)]);
    to(p);
    if (r.Chance(0.7)) idle(); else L.push_back({"poll", "0", "0", "0"});
  }
  if (r.Chance(0.5)) { to(total); L.push_back({"polls", "0", "0", S(r.Log(3000))}); }
  if (r.Chance(0.7)) L.push_back({"close", "0"});
  if (r.Chance(prop == 5 ? 0.8 : 0.2)) idle();
  return L;
}

vector<Line> GenReader(Rng& r, int prop) {
  if (prop == 22) prop = r.Chance(0.4) ? 11 : static_cast<int>(r.Range(1, 5));
  if (prop >= 1 && prop <= 5 && r.Chance(0.001)) return GenLongReader(r, prop);
  vector<Line> L;
  L.push_back({"alloc", S(r.Below(3)), S(r.Below(2))});
  int nconn = r.Chance(0.65) ? 1 : static_cast<int>(r.Range(2, 4));
  struct G { int64_t size = 0, arrived = 0, cut = -1; vector<int64_t> starts; vector<int64_t> lens; bool adapter = false, done = false; int style = 0; int64_t ngroups = 0; double pollp = 0; bool huge = false; };
  vector<G> gs(static_cast<size_t>(nconn));
  static const char* kinds[] = {"rnd", "rnd", "hdr", "zero", "ones"};
  for (int c = 0; c < nconn; ++c) {
    G& g = gs[static_cast<size_t>(c)];
    g.adapter = r.Chance(prop == 6 || prop == 7 ? 1.0 : 0.08);
    int64_t bufmax = r.Chance(0.4) ? (1 << 30) : static_cast<int64_t>(r.Log(5000));
    L.push_back({"conn", S(c), g.adapter ? "adapter" : "stream", S(bufmax), S(r.Chance(0.8) ? 0 : r.Range(2, 9))});
    int nf = static_cast<int>(r.Chance(0.1) ? r.Below(120) : r.Below(9));
    bool huge = !g.adapter && r.Chance(0.02);
    int bad = -1;
    if (r.Chance(prop == 4 ? 0.9 : prop == 5 ? 0.3 : prop == 11 ? 0.3 : 0.05) && nf > 0) bad = static_cast<int>(r.Below(nf));
    int lencls = static_cast<int>(r.Below(4));
    for (int f = 0; f < nf; ++f) {
      int cls = r.Chance(0.7) ? lencls : static_cast<int>(r.Below(4));
      if (nf > 12) cls = std::min(cls, 1);
      if (huge && r.Chance(0.3)) cls = static_cast<int>(4 + r.Below(2));
      int64_t len = FrameLen(r, cls);
      if (g.adapter) len = std::min<int64_t>(len, 4096);
      int flag = 0;
      if (f == bad) flag = r.Chance(0.4) ? 1 : r.Chance(0.4) ? (1 << r.Below(8)) : static_cast<int>(r.Range(1, 255));
      g.starts.push_back(g.size); g.lens.push_back(len);
      L.push_back({"frame", S(c), S(flag), S(len), S(r.Below(1000)), kinds[r.Below(5)]});
      g.size += 5 + len;
      if (len > 70000) g.huge = true;
      if (g.adapter && (r.Chance(0.6) || f == nf - 1)) { L.push_back({"group", S(c)}); g.ngroups++; }
    }
    if (!g.adapter && g.size > 0 && r.Chance(prop == 1 ? 0.02 : prop == 4 || prop == 5 ? 0.1 : 0.05)) {
      int n = static_cast<int>(r.Range(1, 2));
      for (int i = 0; i < n; ++i) {
        size_t f = r.Below(g.starts.size());
        int64_t at = r.Chance(0.5) ? g.starts[f] + static_cast<int64_t>(r.Below(5)) : static_cast<int64_t>(r.Below(g.size));
        L.push_back({"flip", S(c), S(at), S(1 << r.Below(8))});
      }
    }
    double pcut = prop == 3 ? 0.95 : prop == 5 || prop == 11 ? 0.4 : 0.1;
    if (g.size > 0 && r.Chance(pcut)) {
      size_t f = r.Chance(0.5) ? g.starts.size() - 1 : r.Below(g.starts.size());
      int64_t s = g.starts[f], n = g.lens[f], at;
      switch (r.Below(6)) {
        case 0: at = s + r.Range(1, 4); break;
        case 1: at = s + 5; break;
        case 2: at = s + 5 + n - 1; break;
        case 3: at = s + 5 + static_cast<int64_t>(r.Below(n + 1)); break;
        case 4: at = s + 6; break;
        default: at = static_cast<int64_t>(r.Below(g.size + 1));
      }
      g.cut = std::max<int64_t>(0, std::min(at, g.size));
      L.push_back({"cut", S(c), S(g.cut)});
    }
    g.style = static_cast<int>(r.Below(7));
    g.pollp = r.Chance(0.15) ? 0.0 : r.Chance(0.3) ? 1.0 : 0.5;
  }
  double oomp = prop == 11 ? 0.35 : 0;
  double spurious = r.Chance(0.5) ? 0.0 : 0.4;
  double readp = r.Chance(0.5) ? 0.3 : 0.9;
  static const char* rs[] = {"next", "back", "skip", "coded", "all", "count"};
  int rmask = static_cast<int>(r.Range(1, 63));
  auto poll = [&](int c) {
    const bool st = r.Chance(oomp * 0.3);
    L.push_back({"poll", S(c), S(r.Below(2)), S(!st && r.Chance(oomp) ? r.Range(1, 5) * (r.Chance(0.2) ? -1 : 1) : 0)});
    if (st) L.back().push_back(S(r.Range(1, 3)));
    while (r.Chance(readp)) {
      int k = static_cast<int>(r.Below(6));
      if (!(rmask >> k & 1)) k = 0;
      L.push_back({"read", S(c), rs[k], S(r.Log(6000))});
      if (r.Chance(0.4)) break;
    }
  };
  int steps = 0, limit = 400;
  while (steps++ < limit) {
    vector<int> live;
    for (int c = 0; c < nconn; ++c) if (!gs[static_cast<size_t>(c)].done) live.push_back(c);
    if (live.empty()) break;
    int c = live[r.Below(live.size())];
    G& g = gs[static_cast<size_t>(c)];
    if (r.Chance(0.004)) { L.push_back({"drop", S(c), S(r.Below(2))}); g.done = true; continue; }
    if (r.Chance(prop == 5 ? 0.02 : 0.003)) { L.push_back({"ioerr", S(c)}); for (int i = 0; i < 4; ++i) poll(c); g.done = true; continue; }
    int64_t end = g.adapter ? g.ngroups + 1 : g.cut >= 0 ? g.cut : g.size;
    if (g.arrived < end) {
      int64_t n;
      if (g.adapter) n = r.Range(1, 2);
      else {
        // distance to the next interesting wire position
        int64_t next = end;
        for (size_t f = 0; f < g.starts.size(); ++f) {
          for (int64_t q : {g.starts[f], g.starts[f] + 5, g.starts[f] + 5 + g.lens[f]})
            if (q > g.arrived && q < next) next = q;
        }
        int64_t toedge = std::max<int64_t>(1, next - g.arrived);
        switch (g.style) {
          case 0: n = 1; break;
          case 1: n = static_cast<int64_t>(r.Log(8)); break;
          case 2: n = toedge; break;
          case 3: n = toedge + r.Range(-1, 1); break;
          case 4: n = static_cast<int64_t>(r.Log(20000)); break;
          case 5: n = end; break;
          default: n = r.Chance(0.5) ? toedge : static_cast<int64_t>(r.Log(64)); break;
        }
        if (n < 1) n = 1;
        if (toedge > 4096 && r.Chance(0.3)) n = toedge - r.Range(0, 2);
        if (steps > limit / 2) n = std::max<int64_t>(n, (end - g.arrived) / 4 + 1);
        n = std::min(n, end - g.arrived);
      }
      L.push_back({"arrive", S(c), S(n)});
      g.arrived += n;
      if (r.Chance(0.05)) L.push_back({"zbuf", S(c)});
      if (r.Chance(g.pollp)) {
        int k = r.Chance(0.2) ? static_cast<int>(r.Range(2, 6)) : 1;
        for (int i = 0; i < k; ++i) poll(c);
      }
      if (r.Chance(spurious * 0.3)) L.push_back({"probe", S(c)});
    } else if (r.Chance(0.4)) {
      poll(c);
    } else {
      L.push_back({"close", S(c)});
      int k = static_cast<int>(r.Below(4));
      if (prop == 5) k += static_cast<int>(g.starts.size()) + 2;
      for (int i = 0; i < k; ++i) poll(c);
      if (r.Chance(prop == 5 ? 0.8 : 0.1)) {
        for (int i = 0; i < 3; ++i) { L.push_back({"late", S(c), S(r.Log(40))}); poll(c); }
      }
      g.done = true;
    }
    if (prop == 5 && r.Chance(0.05)) L.push_back({"late", S(c), S(r.Log(40))});
    if (r.Chance(spurious)) poll(c);
  }
  return L;
}

// ------------------------------------------------------- adapter scenario --
struct Ad {
  int id = 0;
  std::unique_ptr<SimSource> src;
  std::unique_ptr<gt::TranscoderInputStream> in;
  // model
  string all;              // bytes of the messages, filled as they are known
  vector<int64_t> ends;    // end offset of each message
  int64_t pos = 0;
  int last = -1;           // size of the last buffer if Next was the last call
  bool ended = false, started = false, dropped = false, oom = false;
  int lazy_polls = 0;
  const void* last_data = nullptr;
};

uint64_t AdTags(const Ad* a) { return Tag(6) | Tag(7) | (a->oom ? Tag(11) : 0); }

// Bytes the model knows can be read: up to the end of the last available message
// (or, once the source failed, the last fetched one).
int64_t Limit(const Ad* a) {
  size_t n = a->src->failed ? a->src->next : a->src->avail;
  return n ? a->ends[n - 1] : 0;
}
int64_t Remainder(const Ad* a) {
  int64_t lim = Limit(a);
  if (a->pos >= lim) return 0;
  auto it = std::upper_bound(a->ends.begin(), a->ends.end(), a->pos);
  return it == a->ends.end() ? 0 : *it - a->pos;
}

void StartAd(Ad* a) {
  if (a->started) return;
  a->started = true;
  for (auto& m : a->src->msgs) { a->all += m; a->ends.push_back(static_cast<int64_t>(a->all.size())); }
  InMut m;
  a->in = a->src->CreateInputStream();
}

// oom > 0: the source throws at its oom-th message; < 0: the view's own (-oom)-th allocation fails.
void AdArm(Ad* a, int64_t oom) {
  if (oom == 0) return;
  a->oom = true;
  k_oom_armed++;
  if (oom > 0) a->src->throw_in = static_cast<int>(oom); else OomArm(-oom);
}
bool AdDisarm(Ad* a, int64_t oom) {
  bool inj = oom > 0 && a->src->throw_in == 0;
  a->src->throw_in = 0;
  if (oom < 0 && OomDisarm()) { inj = true; k_oom++; }
  return inj;
}

void AdNext(Ad* a, int64_t oom) {
  const void* d = nullptr; int n = -12345; bool ok = false, threw = false;
  a->src->calls = 0;
  size_t before = a->src->next;
  AdArm(a, oom);
  try {
    InMut m;
    ok = a->in->Next(&d, &n);
  } catch (const std::bad_alloc&) { threw = true; }
  bool inj = AdDisarm(a, oom);
  if (threw) {
    if (!inj) Violate(AdTags(a) | Tag(11), "spurious-throw", "stream %d: bad_alloc without injected failure", a->id);
    a->last = -1;
    Ev(0xad31, a->id);
    return;
  }
  Ev(0xad01, a->id, (static_cast<uint64_t>(ok) << 32) ^ static_cast<uint32_t>(n));
  int64_t lim = Limit(a);
  bool fin = a->src->Finished();
  Cov(Mix(0xada, (ok << 1 | (n > 0)) + 4 * fin + 8 * (a->pos < lim) + 16 * (a->src->next - before > 1)));
  if (g_trace) Trace("  stream %d next -> %d size=%d (pos %lld of %lld, source finished=%d)", a->id, ok, n, (long long)a->pos, (long long)lim, fin);
  Sig(Mix(ok, static_cast<uint64_t>(n)));
  if (a->pos < lim) {
    if (!ok) Violate(AdTags(a), "early-end", "stream %d: end reported with %lld unread bytes", a->id, (long long)(lim - a->pos));
    if (n == 0) Violate(AdTags(a), "stuck", "stream %d: no data returned although %lld bytes are available", a->id, (long long)(lim - a->pos));
    if (n < 0 || n > lim - a->pos) Violate(AdTags(a), "too-long", "stream %d: %d bytes returned, %lld available", a->id, n, (long long)(lim - a->pos));
    for (int i = 0; i < n; ++i)
      if (static_cast<const char*>(d)[i] != a->all[static_cast<size_t>(a->pos + i)])
        Violate(AdTags(a), "bytes", "stream %d: byte %lld of the concatenation is wrong", a->id, (long long)(a->pos + i));
    a->pos += n;
    a->last = n;
    a->last_data = d;
    k_msg++;
    return;
  }
  a->last = -1;
  if (ok && n != 0) Violate(AdTags(a), "invented-bytes", "stream %d: %d bytes returned although everything was read", a->id, n);
  if (!ok) {
    if (n > 0) Violate(AdTags(a), "size-at-end", "stream %d: failure with size %d", a->id, n);
    if (!fin) Violate(AdTags(a), "early-end", "stream %d: end reported although the source has not finished", a->id);
    a->ended = true;
    k_aend++;
  } else {
    if (a->ended) Violate(AdTags(a), "end-not-final", "stream %d: end was reported before, now pending", a->id);
    if (fin) Violate(AdTags(a), "end-missed", "stream %d: source finished and everything read, but no end reported", a->id);
    if (a->src->fin && a->src->next >= a->src->msgs.size()) {
      k_alazy++;
      if (++a->lazy_polls > 1) Violate(AdTags(a), "end-missed", "stream %d: the end is never fetched from the source", a->id);
    }
    k_apend++;
  }
}

void AdBytes(Ad* a, int64_t oom) {
  int64_t n = -1; bool threw = false;
  a->src->calls = 0;
  AdArm(a, oom);
  try { InMut m; n = a->in->BytesAvailable(); } catch (const std::bad_alloc&) { threw = true; }
  bool inj = AdDisarm(a, oom);
  a->last = -1;
  if (threw) {
    if (!inj) Violate(AdTags(a) | Tag(11), "spurious-throw", "stream %d: bad_alloc without injected failure", a->id);
    return;
  }
  int64_t e = Remainder(a);
  Ev(0xadb, a->id, n);
  if (g_trace) Trace("  stream %d available -> %lld (model %lld)", a->id, (long long)n, (long long)e);
  if (n != e) Violate(AdTags(a), n > e ? "available-too-much" : "available-too-little",
                      "stream %d: %lld bytes reported available, the message at the read position has %lld left", a->id, (long long)n, (long long)e);
}

void RunAdapter(const vector<Line>& lines) {
  std::map<int, Ad> ads;
  for (const Line& l : lines) {
    const string& op = l[0];
    if (op == "alloc") { AllocPolicy(static_cast<int>(I(l, 1)), static_cast<int>(I(l, 2))); continue; }
    int id = static_cast<int>(I(l, 1));
    if (op == "stream") {
      if (ads.count(id)) continue;
      Ad& a = ads[id];
      a.id = id;
      a.src.reset(new SimSource);
      a.src->lazy = I(l, 2) != 0;
      a.src->tags = Tag(6) | Tag(7);
      if (ads.size() > 1) k_many++;
      continue;
    }
    auto it = ads.find(id);
    if (it == ads.end()) continue;
    Ad* a = &it->second;
    if (op == "msg") {
      if (a->started) continue;
      string s;
      Fill(&s, static_cast<size_t>(std::min<int64_t>(I(l, 2), 1 << 25)), static_cast<uint64_t>(I(l, 3)), T(l, 4));
      if (s.size() > (1 << 20)) k_bigmsg++;
      a->src->msgs.push_back(s);
      continue;
    }
    if (op == "msgs") {  // many tiny or empty messages
      if (a->started) continue;
      a->src->msgs.insert(a->src->msgs.end(), static_cast<size_t>(std::min<int64_t>(I(l, 2), 300000)), string(static_cast<size_t>(std::min<int64_t>(I(l, 3), 8)), 'e'));
      k_long++;
      continue;
    }
    StartAd(a);
    if (a->dropped) continue;
    auto back = [&](int n) {
      { InMut m; a->in->BackUp(n); }
      k_backup++;
      a->pos -= n;
      a->last = -1;
      Ev(0xbac, id, n);
    };
    if (op == "avail") {
      if (a->src->fin || a->src->failed) continue;
      a->src->avail = std::min<size_t>(a->src->msgs.size(), a->src->avail + static_cast<size_t>(std::max<int64_t>(0, I(l, 2))));
      k_arrive++;
      Ev(0xa7, id, a->src->avail);
    } else if (op == "fin") {
      if (a->src->failed || a->src->fin) continue;
      a->src->fin = true;
      a->src->msgs.resize(a->src->avail);
      k_close++;
    } else if (op == "fail") {
      if (a->src->failed || a->src->fin) continue;
      a->src->failed = true;
      k_afail++;
    } else if (op == "next") {
      AdNext(a, I(l, 2));
    } else if (op == "nexts") {
      int64_t n = std::min<int64_t>(I(l, 2), 300000);
      if (n > 1000) k_manypolls++;
      for (int64_t i = 0; i < n; ++i) {
        AdNext(a, 0);
        if (I(l, 3) && a->last > 0 && i % (I(l, 3) + 1)) back(1);  // every read but some is given back in part
      }
    } else if (op == "back") {
      if (a->last <= 0) continue;
      back(static_cast<int>(std::max<int64_t>(1, std::min<int64_t>(I(l, 2), a->last))));
    } else if (op == "bytes") {
      AdBytes(a, I(l, 2));
    } else if (op == "finq") {
      bool f;
      a->src->calls = 0;
      { InMut m; f = a->in->Finished(); }
      bool e = a->src->Finished();
      Ev(0xf1, id, f);
      if (f != e) Violate(AdTags(a), "finished-flag", "stream %d: Finished() is %d, the source says %d", id, f, e);
    } else if (op == "drop") {
      { InMut m; a->in.reset(); }
      a->dropped = true;
      k_drop++;
    }
  }
  for (auto& kv : ads) {
    Ad* a = &kv.second;
    StartAd(a);
    if (a->dropped) continue;
    if (!a->src->failed && !a->src->fin) {
      a->src->avail = a->src->msgs.size();
      a->src->fin = true;
    }
    int guard = 0;
    while (!a->ended) {
      AdBytes(a, 0);
      AdNext(a, 0);
      if (++guard > 3000000) Violate(AdTags(a), "stuck", "stream %d: no end", a->id);
    }
    AdNext(a, 0);
    if (a->pos != Limit(a)) Violate(AdTags(a), "lost-bytes", "stream %d: ended at %lld of %lld", a->id, (long long)a->pos, (long long)Limit(a));
    if (a->pos > 0) Nontrivial();
  }
}

vector<Line> GenAdapter(Rng& r, int prop) {
  if (prop == 22) prop = r.Chance(0.4) ? 11 : 7;
  vector<Line> L;
  L.push_back({"alloc", S(r.Below(3)), S(r.Below(2))});
  const bool big = r.Chance(0.0005);  // one huge message among others
  if (prop != 11 && r.Chance(0.001)) {  // very long runs of messages, of empty ones, and of reads that find nothing
    L.push_back({"stream", "0", S(r.Chance(0.3))});
    for (int k = 0; k < 2; ++k) {
      L.push_back({"msgs", "0", S(r.Chance(0.3) ? 200000 : r.Log(200000)), S(r.Chance(0.5) ? 0 : r.Range(1, 3))});
      L.push_back({"msg", "0", S(r.Range(1, 40)), "3", "rnd"});
    }
    for (int k = 0; k < 3; ++k) {
      if (r.Chance(0.6)) L.push_back({"nexts", "0", S(r.Chance(0.3) ? 70000 : r.Log(70000)), S(r.Chance(0.5) ? r.Range(1, 3) : 0)});
      L.push_back({"avail", "0", S(r.Chance(0.5) ? 300000 : r.Log(300000))});
      if (r.Chance(0.5)) L.push_back({"bytes", "0", "0"});
    }
    if (r.Chance(0.5)) { L.push_back({"fin", "0"}); L.push_back({"nexts", "0", S(r.Log(70000))}); }
    return L;
  }
  int n = r.Chance(0.6) ? 1 : static_cast<int>(r.Range(2, 4));
  static const char* kinds[] = {"rnd", "hdr", "zero"};
  vector<int64_t> left(static_cast<size_t>(n));
  vector<int> style(static_cast<size_t>(n));
  vector<bool> done(static_cast<size_t>(n), false);
  for (int i = 0; i < n; ++i) {
    L.push_back({"stream", S(i), S(r.Chance(0.3))});
    int m = static_cast<int>(r.Chance(0.1) ? r.Below(60) : r.Below(8));
    double pe = r.Chance(0.3) ? 0.6 : r.Chance(0.5) ? 0.2 : 0.0;
    int cls = static_cast<int>(r.Below(4));
    for (int k = 0; k < m; ++k)
      L.push_back({"msg", S(i), S(r.Chance(pe) ? 0 : cls == 0 ? r.Range(1, 4) : cls == 1 ? r.Range(10, 40) : cls == 2 ? (r.Chance(0.3) ? std::max<int64_t>(0, (1ll << r.Below(18)) + r.Range(-1, 1)) : r.Log(70000)) : r.Log(600)),
                   S(r.Below(1000)), kinds[r.Below(3)]});
    if (big && i == 0) { L.push_back({"msg", S(i), S(r.Chance(0.3) ? 1 << r.Range(20, 25) : r.Range(1 << 20, 1 << 25)), S(r.Below(1000)), kinds[r.Below(3)]}); ++m; }
    left[static_cast<size_t>(i)] = m;
    style[static_cast<size_t>(i)] = static_cast<int>(r.Below(3));
  }
  double oomp = prop == 11 ? 0.3 : 0.0;
  int qmask = static_cast<int>(r.Below(16));
  int steps = 0;
  auto consume = [&](int i) {
    int k = static_cast<int>(r.Range(1, 4));
    for (int j = 0; j < k; ++j) {
      if ((qmask & 1) && r.Chance(0.4)) L.push_back({"bytes", S(i), S(r.Chance(oomp) ? r.Range(1, 3) * (r.Chance(0.4) ? -1 : 1) : 0)});
      if ((qmask & 2) && r.Chance(0.3)) L.push_back({"finq", S(i)});
      L.push_back({"next", S(i), S(r.Chance(oomp) ? r.Range(1, 3) * (r.Chance(0.4) ? -1 : 1) : 0)});
      if ((qmask & 4) && r.Chance(0.6)) L.push_back({"back", S(i), S(r.Chance(0.4) ? 1 << 30 : r.Log(5000))});
      if ((qmask & 8) && r.Chance(0.3)) L.push_back({"finq", S(i)});
    }
  };
  while (steps++ < 120) {
    vector<int> live;
    for (int i = 0; i < n; ++i) if (!done[static_cast<size_t>(i)]) live.push_back(i);
    if (live.empty()) break;
    int i = live[r.Below(live.size())];
    size_t si = static_cast<size_t>(i);
    if (r.Chance(0.006)) { L.push_back({"drop", S(i)}); done[si] = true; continue; }
    if (r.Chance(prop == 7 ? 0.02 : 0.005)) { L.push_back({"fail", S(i)}); consume(i); consume(i); done[si] = true; continue; }
    if (left[si] > 0 && r.Chance(0.6)) {
      int64_t k = style[si] == 0 ? 1 : style[si] == 1 ? r.Range(1, 3) : left[si];
      L.push_back({"avail", S(i), S(k)});
      left[si] -= std::min(k, left[si]);
      if (r.Chance(0.5)) consume(i);
    } else if (left[si] <= 0 && r.Chance(0.4)) {
      L.push_back({"fin", S(i)});
      consume(i);
      done[si] = true;
    } else consume(i);
  }
  return L;
}

const Scenario kReader{"reader", GenReader, RunReader, 40};
const Scenario kAdapter{"adapter", GenAdapter, RunAdapter, 40};

}  // namespace

std::vector<Choice> StreamScenariosFor(int prop) {
  switch (prop) {
    case 1: case 2: case 3: case 4: case 5: return {{&kReader, 1}};
    case 6: case 7: return {{&kAdapter, 9}, {&kReader, 1}};
    case 11: case 22: return {{&kReader, 3}, {&kAdapter, 2}};
    default: return {};
  }
}
const Scenario* FindStreamScenario(const std::string& n) {
  for (const Scenario* s : {&kReader, &kAdapter}) if (n == s->name) return s;
  return nullptr;
}

}  // namespace sim
