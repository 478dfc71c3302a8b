#include "transmodel.h"
#include "simsched.h"
#include <algorithm>

namespace sim {
using std::string;
using std::vector;
namespace {
Counter k_piece("event.arrival"), k_giveback("event.source_give_back");
}

void ByteSource::Drop() {
  if (!buf_) return;
  memset(buf_, '}', len_);
  delete[] buf_;
  buf_ = nullptr;
}
void ByteSource::Budget() {
  const long limit = 100000 + 16 * static_cast<long>(all.size());
  if (++calls > limit) Violate(tags, "spin", "one call made more than %ld calls on the underlying stream", limit);
}
void ByteSource::Feed(size_t n, bool merge) {
  n = std::min(n, all.size() - arrived);
  if (!n) return;
  k_piece++;
  if (arrived > pos && !merge) cuts.push_back(arrived);
  arrived += n;
}
bool ByteSource::Next(const void** data, int* size) {
  Inactive h;
  Budget();
  Drop();
  while (!cuts.empty() && cuts.front() <= pos) cuts.pop_front();
  size_t end = cuts.empty() ? arrived : cuts.front();
  len_ = end - pos;
  // A reader that keeps giving almost everything back gets smaller buffers (each is a copy).
  if (copied > 16 * all.size() + (1 << 20)) len_ = std::min<size_t>(len_, 4096);
  copied += len_;
  last_ = static_cast<int>(len_);
  if (len_ == 0) {
    drained = true;
    *size = 0;
    *data = nullptr;
    return !closed;
  }
  buf_ = new char[len_];
  memcpy(buf_, all.data() + pos, len_);
  pos += len_;
  *data = buf_;
  *size = last_;
  return true;
}
void ByteSource::BackUp(int n) {
  Inactive h;
  Budget();
  if (n < 0 || n > last_) Violate(tags, "bad-backup", "gave back %d bytes of a %d-byte buffer", n, last_);
  if (n) k_giveback++;
  pos -= static_cast<size_t>(n);
  last_ = -1;
}
bool ByteSource::Skip(int n) {
  Inactive h;
  Budget();
  last_ = -1;
  size_t left = arrived - pos;
  if (static_cast<size_t>(n) > left) { pos = arrived; return false; }
  pos += static_cast<size_t>(n);
  return true;
}

static size_t kShallowPaths = 0;
// sub / other_sub, then `depth` steps of sub / mate, then perhaps a leaf.
static string DeepPath(Rng& r, int depth, const char* leaf) {
  string p = r.Chance(0.7) ? "sub" : "other_sub";
  for (int i = 0; i < depth; ++i) p += r.Chance(0.5) ? ".sub" : ".mate";
  return *leaf ? p + "." + leaf : p;
}
const vector<BodyPath>& BodyPaths() {
  static const vector<BodyPath> v = [] {
    vector<BodyPath> o = {{"", kItem, 'm', false},     {"*", kItem, 'm', false},      {"sub", kSub, 'm', false},
                          {"sub.sub", kSub, 'm', false}, {"name", kItem, 's', false}, {"n", kItem, 'i', false},
                          {"flag", kItem, 'b', false}, {"tags", kItem, 's', true},    {"nums", kItem, 'i', true},
                          {"list_items", kSub, 'm', true}, {"sub.tags", kSub, 's', true}, {"sub.name", kSub, 's', false},
                          {"extra", kStruct, 'm', false}, {"any_value", kValue, 'm', false}, {"vals", kList, 'm', false}, {"sub.any_value", kValue, 'm', false},
                          {"wrapped", kItem, 'w', false}, {"at_time", kItem, 'T', false}};
    kShallowPaths = o.size();
    Rng r(77);
    for (int d = 1; d <= 12; ++d) {
      o.push_back({DeepPath(r, d, ""), kSub, 'm', false});
      o.push_back({DeepPath(r, d, "name"), kSub, 's', false});
      o.push_back({DeepPath(r, d, "tags"), kSub, 's', true});
    }
    return o;
  }();
  return v;
}
const string& PickBodyPath(Rng& r) {
  auto& v = BodyPaths();
  return v[r.Chance(0.5) ? r.Below(4) : r.Chance(0.85) ? r.Below(kShallowPaths) : r.Below(v.size())].path;
}
string NullAtPath(const string& path) {
  size_t dot = path.rfind('.');
  return dot == string::npos ? "{}" : ToText(WrapAtPath(path.substr(0, dot), Node::Msg()));
}
const BodyPath* FindBodyPath(const string& p) {
  for (auto& b : BodyPaths()) if (p == b.path) return &b;
  return nullptr;
}
static vector<string> Split(const string& p) {
  vector<string> o;
  string cur;
  for (char c : p) { if (c == '.') { o.push_back(cur); cur.clear(); } else cur += c; }
  if (!cur.empty()) o.push_back(cur);
  return o;
}
// Walks to the parent message of the last component; creates it when asked.
static Node* Walk(Node* n, MsgType* t, const vector<string>& parts, bool create) {
  *t = kItem;
  for (size_t i = 0; i + 1 < parts.size(); ++i) {
    const FieldDef* d = FieldByName(*t, parts[i]);
    auto it = n->f.find(d->num);
    if (it == n->f.end() || it->second.empty()) {
      if (!create) return nullptr;
      n->f[d->num] = {Node::Msg()};
      it = n->f.find(d->num);
    }
    n = &it->second[0];
    *t = d->msg;
  }
  return n;
}
Node WrapAtPath(const string& path, const Node& elem) {
  if (path.empty() || path == "*") return elem;
  Node root = Node::Msg();
  MsgType t;
  auto parts = Split(path);
  Node* p = Walk(&root, &t, parts, true);
  const FieldDef* d = FieldByName(t, parts.back());
  if (d->rep) {
    if (!elem.f.empty()) p->f[d->num] = elem.f.begin()->second;  // a list travels as field 0 of a pseudo message
  } else p->f[d->num] = {elem};
  return root;
}
const string& PickBindPath(Rng& r) {
  static const vector<string> deep = [] {
    Rng g(78);
    static const char* leaf[] = {"name", "val", "id", "tags"};
    vector<string> o;
    for (int k = 0; k < 64; ++k) o.push_back(DeepPath(g, static_cast<int>(k < 32 ? g.Range(2, 9) : g.Range(2, 45)), leaf[g.Below(4)]));
    return o;
  }();
  return r.Chance(0.08) ? deep[r.Below(deep.size())] : BindPaths()[r.Below(BindPaths().size())];
}
const vector<string>& BindPaths() {
  static const vector<string> v = {"name", "id", "n", "u", "big", "d", "flag", "raw", "kind", "tags", "nums", "f", "far",
                                   "display_name", "other_sub.name", "other_sub.sub.id", "sub.name", "sub.val", "sub.id", "sub.tags", "sub.sub.name", "sub.sub.val", "sub.sub.sub.id",
                                   "wrapped", "wrapped_name", "at_time", "zig", "zag", "fix", "fix_big", "sfix", "sfix_big", "sub.mate.name", "sub.mate.val", "sub.mate.sub.id", "other_sub.mate.id"};
  return v;
}
const FieldDef* BindField(const string& path) {
  MsgType t = kItem;
  const FieldDef* d = nullptr;
  for (auto& p : Split(path)) { d = FieldByName(t, p); if (!d) return nullptr; t = d->msg; }
  return d;
}
bool HasValue(Node* item, const string& path, string* value) {
  MsgType t;
  auto parts = Split(path);
  Node* p = Walk(item, &t, parts, false);
  if (!p) return false;
  auto it = p->f.find(FieldByName(t, parts.back())->num);
  if (it == p->f.end() || it->second.empty()) return false;
  *value = it->second[0].v;
  return true;
}
void ApplyBinding(Node* item, const BindVal& b, bool in_body) {
  MsgType t;
  auto parts = Split(b.path);
  Node* p = Walk(item, &t, parts, true);
  const FieldDef* d = FieldByName(t, parts.back());
  auto& v = p->f[d->num];
  if (d->rep) v.push_back(Node::Scalar(b.canon));
  else if (!in_body) v = {Node::Scalar(b.canon)};
}

static string ScalarList(Rng& r, char type, const vector<Node>& vals, const GenOpts& o) {
  string s = "[" + Ws(r);
  for (size_t i = 0; i < vals.size(); ++i) s += (i ? Ws(r) + "," + Ws(r) : "") + ScalarJson(r, type, vals[i], o);
  return s + Ws(r) + "]";
}
// Puts fields that are also bound from the URL into the element, half the time
// with the bound value.
static void Meet(Rng& r, Node* n, MsgType t, const string& path, const vector<BindHint>& hints) {
  string prefix = path.empty() || path == "*" ? "" : path + ".";
  for (auto& h : hints) {
    if (h.path.compare(0, prefix.size(), prefix) != 0 || !r.Chance(0.4)) continue;
    auto parts = Split(h.path.substr(prefix.size()));
    Node* p = n;
    MsgType mt = t;
    for (size_t i = 0; i + 1 < parts.size(); ++i) {
      const FieldDef* d = FieldByName(mt, parts[i]);
      auto& v = p->f[d->num];
      if (v.empty()) v.push_back(Node::Msg());
      p = &v[0];
      mt = d->msg;
    }
    const FieldDef* d = FieldByName(mt, parts.back());
    auto& v = p->f[d->num];
    if (d->rep) { if (r.Chance(0.5)) v.push_back(Node::Scalar(h.canon)); }
    else v = {r.Chance(0.5) ? Node::Scalar(h.canon) : GenScalar(r, d->type)};
  }
}
ElemGen GenElem(Rng& r, const string& path, const vector<BindHint>& hints, int budget, bool anycase, bool reject) {
  const BodyPath* bp = FindBodyPath(path);
  ElemGen e;
  GenOpts o;
  o.budget = budget;
  o.anycase = anycase && !reject;
  o.enum_names = reject;
  Node n;
  if (bp->rep) {
    Node list = Node::Msg();
    auto& v = list.f[0];
    int cnt = static_cast<int>(r.Below(4));
    if (bp->type == 'm') {
      e.json = "[" + Ws(r);
      for (int i = 0; i < cnt; ++i) {
        v.push_back(GenMsg(r, bp->msg, &o, 2));
        e.json += (i ? "," + Ws(r) : "") + MsgJson(r, v.back(), bp->msg, o);
      }
      e.json += "]";
    } else {
      for (int i = 0; i < cnt; ++i) v.push_back(GenScalar(r, bp->type));
      e.json = ScalarList(r, bp->type, v, o);
    }
    n = list;
  } else if (bp->type == 'm') {
    n = GenMsg(r, bp->msg, &o, 3);
    if (r.Chance(0.01) && !IsDynamic(bp->msg)) {  // deeply nested
      n = Node::Msg();
      n.f[2].push_back(GenScalar(r, FieldByNum(kSub, 2)->type));
      for (int64_t k = r.Range(1, 80); k > 0; --k) {
        Node up = Node::Msg();
        if (r.Chance(0.1)) up.f[4].push_back(GenScalar(r, 's'));
        up.f[r.Chance(0.5) ? 3 : 6].push_back(n);
        n = up;
      }
      if (bp->msg == kItem) { Node up = Node::Msg(); up.f[r.Chance(0.5) ? 11 : 17].push_back(n); n = up; }
    }
    Meet(r, &n, bp->msg, path, hints);
    e.json = MsgJson(r, n, bp->msg, o);
    e.late = isdigit(static_cast<unsigned char>(e.json[0])) || e.json[0] == '-';
  } else {
    n = GenScalar(r, bp->type);
    for (auto& h : hints) if (h.path == path && r.Chance(0.5)) n = Node::Scalar(h.canon);
    e.json = ScalarJson(r, bp->type, n, o);
    e.late = e.json[0] != '"' && bp->type != 'b';
  }
  e.canon = ToText(WrapAtPath(path, n));
  return e;
}
string InvalidElem(Rng& r, const string& path) {
  const BodyPath* bp = FindBodyPath(path);
  if (bp->msg == kStruct) return r.Chance(0.5) ? "5" : "\"x\"";
  if (IsDynamic(bp->msg)) return "";
  if (bp->type == 'T') return r.Chance(0.5) ? "\"2020-13-01T00:00:00Z\"" : "\"soon\"";
  if (bp->type == 'w') return r.Chance(0.5) ? "\"abc\"" : "99999999999";
  if (r.Chance(0.3)) {  // the wrong kind of value altogether
    static const char *forMsg[] = {"5", "\"x\"", "true", "[]", "[{}]", "[5]", "-1.5"}, *forStr[] = {"5", "true", "{}", "[]", "[\"x\"]", "{\"a\":1}"},
                      *forInt[] = {"{}", "[]", "1.5", "true", "[5]", "\"\""}, *forBool[] = {"{}", "[]", "[true]", "\"ja\""},
                      *forReps[] = {"{}", "5", "[{}]", "[\"a\",{}]", "true"}, *forRepm[] = {"5", "[5]", "[\"x\"]", "true", "[{},5]"};
    if (bp->rep) { if (bp->type == 'm') return forRepm[r.Below(5)]; if (bp->type == 's') return forReps[r.Below(5)]; }
    else switch (bp->type) {
      case 'm': return r.Chance(0.2) && (path.empty() || path == "*") ? "null" : forMsg[r.Below(7)];
      case 's': return forStr[r.Below(6)];
      case 'i': return forInt[r.Below(6)];
      case 'b': return forBool[r.Below(4)];
    }
  }
  if (bp->type == 'm' && !bp->rep && bp->msg == kItem) {
    static const char* bad[] = {"{\"n\":\"abc\"}", "{\"kind\":\"NOPE\"}", "{\"flag\":\"maybe\"}", "{\"n\":99999999999}", "{\"sub\":5}", "{\"raw\":\"@@@\"}",
                                "{\"id\":1.5}", "{\"u\":-1}", "{\"name\":{}}", "{\"name\":[]}", "{\"d\":\"x\"}", "{\"sub\":[1]}",
                                "{\"name\":\"a\",\"sub\":{\"val\":\"q\"},\"tags\":[\"b\"]}", "{\"nums\":[1,2,\"z\"]}"};
    return bad[r.Below(sizeof bad / sizeof *bad)];
  }
  if (bp->type == 'm' && !bp->rep) return r.Chance(0.5) ? "{\"val\":\"x\"}" : "{\"sub\":{\"sub\":{\"id\":1.5}}}";
  if (bp->type == 'i' && !bp->rep) return r.Chance(0.5) ? "\"abc\"" : "99999999999";
  if (bp->type == 'b') return "\"maybe\"";
  if (bp->type == 'i') return "[1,\"z\",3]";
  return "";  // no short invalid value
}
string Frame(const string& m, unsigned char flag) {
  string s;
  s += static_cast<char>(flag);
  for (int k = 3; k >= 0; --k) s += static_cast<char>((m.size() >> (8 * k)) & 255);
  return s + m;
}
string Hex(const string& s) {
  static const char* hx = "0123456789abcdef";
  string o;
  for (unsigned char c : s) { o += hx[c >> 4]; o += hx[c & 15]; }
  return o;
}
string Quote(const string& s, size_t max) {
  string o;
  for (size_t i = 0; i < s.size() && i < max; ++i) {
    unsigned char c = static_cast<unsigned char>(s[i]);
    if (c >= 32 && c < 127 && c != '\\') o += static_cast<char>(c);
    else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
  }
  if (s.size() > max) o += "...(" + U(s.size()) + " bytes)";
  return o;
}
}  // namespace sim
