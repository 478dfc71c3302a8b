#include "jsonmodel.h"
#include <algorithm>
#include <cmath>
#include <limits>

namespace sim {
using std::string;
using std::vector;

const vector<FieldDef>& Fields(MsgType t) {
  static const vector<FieldDef> item = {
      {1, "name", "name", 's', false, kItem},        {2, "id", "id", 'l', false, kItem},
      {3, "n", "n", 'i', false, kItem},              {4, "u", "u", 'u', false, kItem},
      {5, "big", "big", 'U', false, kItem},          {6, "d", "d", 'd', false, kItem},
      {7, "flag", "flag", 'b', false, kItem},        {8, "raw", "raw", 'y', false, kItem},
      {9, "kind", "kind", 'e', false, kItem},        {10, "tags", "tags", 's', true, kItem},
      {11, "sub", "sub", 'm', false, kSub},          {12, "list_items", "listItems", 'm', true, kSub},
      {13, "labels", "labels", 'm', true, kEntry},   {14, "nums", "nums", 'i', true, kItem},
      {15, "f", "f", 'f', false, kItem},             {16, "display_name", "displayName", 's', false, kItem},
      {300, "far", "far", 's', false, kItem},      {17, "other_sub", "otherSub", 'm', false, kSub},
      {18, "extra", "extra", 'm', false, kStruct},   {19, "any_value", "anyValue", 'm', false, kValue},
      {20, "vals", "vals", 'm', false, kList},       {21, "wrapped", "wrapped", 'w', false, kItem},
      {22, "wrapped_name", "wrappedName", 'W', false, kItem}, {23, "at_time", "atTime", 'T', false, kItem},
      {30, "zig", "zig", 'z', false, kItem},         {31, "zag", "zag", 'Z', false, kItem},
      {32, "fix", "fix", 'x', false, kItem},         {33, "fix_big", "fixBig", 'X', false, kItem},
      {34, "sfix", "sfix", 'q', false, kItem},       {35, "sfix_big", "sfixBig", 'Q', false, kItem}};
  static const vector<FieldDef> sub = {{1, "name", "name", 's', false, kSub},
                                       {2, "val", "val", 'i', false, kSub},
                                       {3, "sub", "sub", 'm', false, kSub},
                                       {4, "tags", "tags", 's', true, kSub},
                                       {5, "id", "id", 'l', false, kSub},
                                       {6, "mate", "mate", 'm', false, kSub},
                                       {7, "any_value", "anyValue", 'm', false, kValue}};
  static const vector<FieldDef> entry = {{1, "key", "key", 's', false, kEntry}, {2, "value", "value", 's', false, kEntry}};
  static const vector<FieldDef> strct = {{1, "fields", "fields", 'm', true, kStructEntry}};
  static const vector<FieldDef> sentry = {{1, "key", "key", 's', false, kStructEntry}, {2, "value", "value", 'm', false, kValue}};
  static const vector<FieldDef> value = {{1, "null_value", "nullValue", 'e', false, kValue}, {2, "number_value", "numberValue", 'd', false, kValue},
                                         {3, "string_value", "stringValue", 's', false, kValue}, {4, "bool_value", "boolValue", 'b', false, kValue},
                                         {5, "struct_value", "structValue", 'm', false, kStruct}, {6, "list_value", "listValue", 'm', false, kList}};
  static const vector<FieldDef> list = {{1, "values", "values", 'm', true, kValue}};
  switch (t) {
    case kItem: return item;
    case kSub: return sub;
    case kStruct: return strct;
    case kStructEntry: return sentry;
    case kValue: return value;
    case kList: return list;
    default: return entry;
  }
}
const FieldDef* FieldByNum(MsgType t, int num) {
  for (auto& f : Fields(t)) if (f.num == num) return &f;
  return nullptr;
}
const FieldDef* FieldByName(MsgType t, const string& name) {
  for (auto& f : Fields(t)) if (name == f.name) return &f;
  return nullptr;
}

string ToText(const Node& n) {
  if (!n.msg) {
    static const char* hx = "0123456789abcdef";
    string s = "x";
    for (unsigned char c : n.v) { s += hx[c >> 4]; s += hx[c & 15]; }
    return s;
  }
  string s = "{";
  for (auto& kv : n.f) {
    s += S(kv.first) + "=";
    for (auto& x : kv.second) s += ToText(x) + ",";
    s += ";";
  }
  return s + "}";
}
static bool Parse(const string& s, size_t* p, Node* out) {
  if (*p >= s.size()) return false;
  if (s[*p] == 'x') {
    ++*p;
    auto val = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; };
    while (*p + 1 < s.size() && val(s[*p]) >= 0 && val(s[*p + 1]) >= 0) {
      out->v += static_cast<char>(val(s[*p]) * 16 + val(s[*p + 1]));
      *p += 2;
    }
    return true;
  }
  if (s[*p] != '{') return false;
  ++*p;
  out->msg = true;
  while (*p < s.size() && s[*p] != '}') {
    int num = 0;
    while (*p < s.size() && isdigit(static_cast<unsigned char>(s[*p]))) num = num * 10 + (s[(*p)++] - '0');
    if (*p >= s.size() || s[*p] != '=') return false;
    ++*p;
    auto& v = out->f[num];
    while (*p < s.size() && s[*p] != ';') {
      Node c;
      if (!Parse(s, p, &c)) return false;
      if (*p >= s.size() || s[*p] != ',') return false;
      ++*p;
      v.push_back(std::move(c));
    }
    ++*p;
  }
  ++*p;
  return true;
}
bool FromText(const string& s, Node* out) {
  size_t p = 0;
  *out = Node();
  return Parse(s, &p, out) && p == s.size();
}

static string Default(char t) { return t == 's' || t == 'y' ? "" : "0"; }

void Normalize(Node* n, MsgType t) {
  for (auto it = n->f.begin(); it != n->f.end();) {
    const FieldDef* d = FieldByNum(t, it->first);
    if (!d) { ++it; continue; }
    if (d->type == 'm') {
      for (auto& c : it->second) Normalize(&c, d->msg);
      if (d->msg == kEntry || d->msg == kStructEntry)
        std::stable_sort(it->second.begin(), it->second.end(), [](const Node& a, const Node& b) { return ToText(a) < ToText(b); });
    }
    bool drop = it->second.empty() || (!d->rep && t != kValue && !strchr("wWT", d->type) && d->type != 'm' && it->second.size() == 1 && it->second[0].v == Default(d->type));
    if (drop) it = n->f.erase(it); else ++it;
  }
}

// ------------------------------------------------------------------ wire ---
static bool Varint(const string& b, size_t* p, uint64_t* v) {
  *v = 0;
  for (int s = 0; s < 70; s += 7) {
    if (*p >= b.size()) return false;
    unsigned char c = static_cast<unsigned char>(b[(*p)++]);
    if (s < 64) *v |= static_cast<uint64_t>(c & 127) << s;
    if (!(c & 128)) return true;
  }
  return false;
}
static void PutVarint(string* o, uint64_t v) {
  while (v >= 128) { *o += static_cast<char>(v | 128); v >>= 7; }
  *o += static_cast<char>(v);
}
static string FromVarint(char type, uint64_t v) {
  switch (type) {
    case 'l': return S(static_cast<int64_t>(v));
    case 'i': case 'e': return S(static_cast<int32_t>(v));
    case 'z': { uint32_t w = static_cast<uint32_t>(v); return S(static_cast<int32_t>((w >> 1) ^ (0 - (w & 1)))); }
    case 'Z': return S(static_cast<int64_t>((v >> 1) ^ (0 - (v & 1))));
    case 'u': return U(static_cast<uint32_t>(v));
    case 'b': return v ? "1" : "0";
    default: return U(v);
  }
}
static void Merge(Node* a, const Node& b, MsgType t) {
  for (auto& kv : b.f) {
    const FieldDef* d = FieldByNum(t, kv.first);
    auto& v = a->f[kv.first];
    if (d->rep) v.insert(v.end(), kv.second.begin(), kv.second.end());
    else if (d->type == 'm' && !v.empty()) Merge(&v[0], kv.second[0], d->msg);
    else v = kv.second;
  }
}
// Int32Value and StringValue: field 1; Timestamp: seconds and nanos, as "s.n".
static bool DecodeWrapped(const string& s, char type, string* canon) {
  size_t p = 0;
  int64_t sec = 0, nano = 0;
  if (type == 'T') { size_t dot = canon->find('.'); sec = strtoll(canon->c_str(), nullptr, 10); if (dot != string::npos) nano = strtoll(canon->c_str() + dot + 1, nullptr, 10); }
  while (p < s.size()) {
    uint64_t tag, v;
    if (!Varint(s, &p, &tag) || !Varint(s, &p, &v)) return false;
    if (type == 'W') {
      if (tag != 10 || v > s.size() - p) return false;
      *canon = s.substr(p, v);
      p += v;
    } else if (type == 'w') {
      if (tag != 8) return false;
      *canon = FromVarint('i', v);
    } else if (tag == 8) sec = static_cast<int64_t>(v);
    else if (tag == 16) nano = static_cast<int32_t>(v);
    else return false;
  }
  if (type == 'T') *canon = S(sec) + "." + S(nano);
  return true;
}
bool Decode(const string& b, MsgType t, Node* out, string* err) {
  *out = Node::Msg();
  size_t p = 0;
  while (p < b.size()) {
    uint64_t tag;
    if (!Varint(b, &p, &tag)) { *err = "bad tag"; return false; }
    int num = static_cast<int>(tag >> 3), wt = static_cast<int>(tag & 7);
    const FieldDef* d = FieldByNum(t, num);
    if (!d) { *err = "unknown field " + S(num); return false; }
    vector<Node> vals;
    if (wt == 0) {
      uint64_t v;
      if (!Varint(b, &p, &v)) { *err = "bad varint"; return false; }
      if (!strchr("liuUbezZ", d->type)) { *err = "wire type of field " + S(num); return false; }
      vals.push_back(Node::Scalar(FromVarint(d->type, v)));
    } else if (wt == 1 || wt == 5) {
      size_t n = wt == 1 ? 8 : 4;
      if (p + n > b.size() || !strchr(wt == 1 ? "dXQ" : "fxq", d->type)) { *err = "bad fixed field " + S(num); return false; }
      uint64_t v = 0;
      memcpy(&v, &b[p], n);
      p += n;
      vals.push_back(Node::Scalar(d->type == 'Q' ? S(static_cast<int64_t>(v)) : d->type == 'q' ? S(static_cast<int32_t>(v)) : U(v)));
    } else if (wt == 2) {
      uint64_t n;
      if (!Varint(b, &p, &n) || n > b.size() - p) { *err = "bad length of field " + S(num); return false; }
      string s = b.substr(p, n);
      p += n;
      if (strchr("wWT", d->type)) {
        auto& was = out->f[num];
        string c = was.empty() ? (d->type == 'W' ? "" : "0") : was[0].v;
        if (!DecodeWrapped(s, d->type, &c)) { *err = "bad wrapped field " + S(num); return false; }
        vals.push_back(Node::Scalar(c));
      } else if (d->type == 's' || d->type == 'y') vals.push_back(Node::Scalar(s));
      else if (d->type == 'm') { Node c; if (!Decode(s, d->msg, &c, err)) return false; vals.push_back(c); }
      else if (d->rep && d->type == 'i') {
        size_t q = 0; uint64_t v;
        while (q < s.size()) { if (!Varint(s, &q, &v)) { *err = "bad packed field"; return false; } vals.push_back(Node::Scalar(FromVarint('i', v))); }
      } else { *err = "wire type of field " + S(num); return false; }
    } else { *err = "wire type " + S(wt); return false; }
    auto& dst = out->f[num];
    if (d->rep) dst.insert(dst.end(), vals.begin(), vals.end());
    else if (d->type == 'm' && !dst.empty()) Merge(&dst[0], vals[0], d->msg);
    else dst = vals;
  }
  return true;
}
static string EncodeWrapped(char type, const string& canon) {
  string o;
  if (type == 'W') { if (!canon.empty()) { o += '\n'; PutVarint(&o, canon.size()); o += canon; } return o; }
  int64_t a = strtoll(canon.c_str(), nullptr, 10), b = 0;
  if (type == 'T') { size_t dot = canon.find('.'); if (dot != string::npos) b = strtoll(canon.c_str() + dot + 1, nullptr, 10); }
  if (a) { o += '\x08'; PutVarint(&o, static_cast<uint64_t>(a)); }
  if (b) { o += '\x10'; PutVarint(&o, static_cast<uint64_t>(b)); }
  return o;
}
string Encode(const Node& n, MsgType t) {
  string o;
  for (auto& kv : n.f) {
    const FieldDef* d = FieldByNum(t, kv.first);
    if (!d) continue;
    for (auto& x : kv.second) {
      uint64_t num = static_cast<uint64_t>(kv.first) << 3;
      switch (d->type) {
        case 's': case 'y': PutVarint(&o, num | 2); PutVarint(&o, x.v.size()); o += x.v; break;
        case 'm': { string s = Encode(x, d->msg); PutVarint(&o, num | 2); PutVarint(&o, s.size()); o += s; break; }
        case 'w': case 'W': case 'T': { string s = EncodeWrapped(d->type, x.v); PutVarint(&o, num | 2); PutVarint(&o, s.size()); o += s; break; }
        case 'z': case 'Z': { int64_t v = strtoll(x.v.c_str(), nullptr, 10); PutVarint(&o, num); PutVarint(&o, (static_cast<uint64_t>(v) << 1) ^ static_cast<uint64_t>(v >> 63)); break; }
        case 'Q': { int64_t v = strtoll(x.v.c_str(), nullptr, 10); PutVarint(&o, num | 1); o.append(reinterpret_cast<char*>(&v), 8); break; }
        case 'q': { int32_t v = static_cast<int32_t>(strtoll(x.v.c_str(), nullptr, 10)); PutVarint(&o, num | 5); o.append(reinterpret_cast<char*>(&v), 4); break; }
        case 'X': case 'd': { uint64_t v = strtoull(x.v.c_str(), nullptr, 10); PutVarint(&o, num | 1); o.append(reinterpret_cast<char*>(&v), 8); break; }
        case 'x': case 'f': { uint32_t v = static_cast<uint32_t>(strtoull(x.v.c_str(), nullptr, 10)); PutVarint(&o, num | 5); o.append(reinterpret_cast<char*>(&v), 4); break; }
        case 'l': case 'i': case 'e': PutVarint(&o, num); PutVarint(&o, static_cast<uint64_t>(strtoll(x.v.c_str(), nullptr, 10))); break;
        default: PutVarint(&o, num); PutVarint(&o, strtoull(x.v.c_str(), nullptr, 10));
      }
    }
  }
  return o;
}

// ---------------------------------------------------------------- schema ---
vector<google::protobuf::Type> MakeTypes() {
  using google::protobuf::Field;
  vector<google::protobuf::Type> out(kMsgTypes);
  static const char* names[] = {"sim.Item", "sim.Sub", "sim.Item.LabelsEntry", "google.protobuf.Struct", "google.protobuf.Struct.FieldsEntry", "google.protobuf.Value", "google.protobuf.ListValue"};
  for (int t = 0; t < kMsgTypes; ++t) {
    out[t].set_name(names[t]);
    out[t].set_syntax(google::protobuf::SYNTAX_PROTO3);
    for (auto& d : Fields(static_cast<MsgType>(t))) {
      Field* f = out[t].add_fields();
      f->set_number(d.num);
      f->set_name(d.name);
      f->set_json_name(d.json);
      f->set_cardinality(d.rep ? Field::CARDINALITY_REPEATED : Field::CARDINALITY_OPTIONAL);
      switch (d.type) {
        case 's': f->set_kind(Field::TYPE_STRING); break;
        case 'l': f->set_kind(Field::TYPE_INT64); break;
        case 'i': f->set_kind(Field::TYPE_INT32); break;
        case 'u': f->set_kind(Field::TYPE_UINT32); break;
        case 'U': f->set_kind(Field::TYPE_UINT64); break;
        case 'd': f->set_kind(Field::TYPE_DOUBLE); break;
        case 'f': f->set_kind(Field::TYPE_FLOAT); break;
        case 'b': f->set_kind(Field::TYPE_BOOL); break;
        case 'y': f->set_kind(Field::TYPE_BYTES); break;
        case 'e': f->set_kind(Field::TYPE_ENUM); f->set_type_url(t == kValue ? "type.googleapis.com/google.protobuf.NullValue" : "type.googleapis.com/sim.Kind"); break;
        case 'z': f->set_kind(Field::TYPE_SINT32); break;
        case 'Z': f->set_kind(Field::TYPE_SINT64); break;
        case 'x': f->set_kind(Field::TYPE_FIXED32); break;
        case 'X': f->set_kind(Field::TYPE_FIXED64); break;
        case 'q': f->set_kind(Field::TYPE_SFIXED32); break;
        case 'Q': f->set_kind(Field::TYPE_SFIXED64); break;
        case 'w': f->set_kind(Field::TYPE_MESSAGE); f->set_type_url("type.googleapis.com/google.protobuf.Int32Value"); break;
        case 'W': f->set_kind(Field::TYPE_MESSAGE); f->set_type_url("type.googleapis.com/google.protobuf.StringValue"); break;
        case 'T': f->set_kind(Field::TYPE_MESSAGE); f->set_type_url("type.googleapis.com/google.protobuf.Timestamp"); break;
        case 'm': f->set_kind(Field::TYPE_MESSAGE); f->set_type_url(string("type.googleapis.com/") + names[d.msg]); break;
      }
      if (t == kValue) f->set_oneof_index(1);
    }
    if (t == kValue) out[t].add_oneofs("kind");
  }
  for (int t : {kEntry, kStructEntry}) {
    auto* o = out[t].add_options();
    o->set_name("proto2.MessageOptions.map_entry");
    o->mutable_value()->set_type_url("type.googleapis.com/google.protobuf.BoolValue");
    o->mutable_value()->set_value("\x08\x01");
  }
  auto add = [&](const char* name, std::initializer_list<std::pair<const char*, Field::Kind>> fs) {
    out.emplace_back();
    out.back().set_name(name);
    out.back().set_syntax(google::protobuf::SYNTAX_PROTO3);
    for (auto& x : fs) {
      Field* f = out.back().add_fields();
      f->set_number(out.back().fields_size());
      f->set_name(x.first);
      f->set_json_name(x.first);
      f->set_kind(x.second);
      f->set_cardinality(Field::CARDINALITY_OPTIONAL);
    }
  };
  add("google.protobuf.Int32Value", {{"value", Field::TYPE_INT32}});
  add("google.protobuf.StringValue", {{"value", Field::TYPE_STRING}});
  add("google.protobuf.Timestamp", {{"seconds", Field::TYPE_INT64}, {"nanos", Field::TYPE_INT32}});
  return out;
}
vector<google::protobuf::Enum> MakeEnums() {
  vector<google::protobuf::Enum> out(2);
  out[1].set_name("google.protobuf.NullValue");
  out[1].add_enumvalue()->set_name("NULL_VALUE");
  out[0].set_name("sim.Kind");
  static const char* vals[] = {"RED", "GREEN", "DARK_BLUE", "PALE"};
  for (int i = 0; i < 4; ++i) { auto* v = out[0].add_enumvalue(); v->set_name(vals[i]); v->set_number(i); }
  return out;
}
const vector<google::protobuf::Type>& SchemaTypes() { static auto* t = new vector<google::protobuf::Type>(MakeTypes()); return *t; }
const vector<google::protobuf::Enum>& SchemaEnums() { static auto* t = new vector<google::protobuf::Enum>(MakeEnums()); return *t; }

// ------------------------------------------------------------- generation --
static void PutUtf8(string* o, uint32_t c) {
  if (c < 0x80) *o += static_cast<char>(c);
  else if (c < 0x800) { *o += static_cast<char>(0xc0 | (c >> 6)); *o += static_cast<char>(0x80 | (c & 63)); }
  else if (c < 0x10000) { *o += static_cast<char>(0xe0 | (c >> 12)); *o += static_cast<char>(0x80 | ((c >> 6) & 63)); *o += static_cast<char>(0x80 | (c & 63)); }
  else { *o += static_cast<char>(0xf0 | (c >> 18)); *o += static_cast<char>(0x80 | ((c >> 12) & 63)); *o += static_cast<char>(0x80 | ((c >> 6) & 63)); *o += static_cast<char>(0x80 | (c & 63)); }
}
string GenText(Rng& r, int maxlen) {
  string o;
  int n = static_cast<int>(r.Below(static_cast<uint64_t>(maxlen) + 1));
  for (int i = 0; i < n; ++i) {
    switch (r.Below(8)) {
      case 0: PutUtf8(&o, static_cast<uint32_t>(r.Range(0x80, 0x7ff))); break;
      case 1: PutUtf8(&o, r.Chance(0.5) ? static_cast<uint32_t>(r.Range(0x800, 0xd7ff)) : static_cast<uint32_t>(r.Range(0xe000, 0xfffd))); break;
      case 2: PutUtf8(&o, static_cast<uint32_t>(r.Range(0x10000, 0x10ffff))); break;
      case 3:
        if (r.Chance(0.15)) {  // code points that are easily treated in a special way
          static const uint32_t odd[] = {0xfeff, 0xfeff, 0xfffe, 0xffff, 0xfffd, 0x2028, 0x2029, 0x85, 0xa0, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0x10000, 0x10ffff, 0, 1, 0x1f};
          PutUtf8(&o, odd[r.Below(20)]);
          break;
        }
        o += "\"\\/\n\t\r\b\f{}[]:,#'"[r.Below(17)]; break;
      default: o += static_cast<char>(r.Range('a', 'z'));
    }
  }
  return o;
}
string JsonString(Rng& r, const string& raw) {
  string o = "\"";
  bool esc_all = r.Chance(0.1);
  for (size_t i = 0; i < raw.size();) {
    unsigned char c = static_cast<unsigned char>(raw[i]);
    int len = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
    uint32_t cp = c;
    if (len > 1) {
      cp = c & (0xff >> (len + 1));
      for (int k = 1; k < len; ++k) cp = (cp << 6) | (static_cast<unsigned char>(raw[i + static_cast<size_t>(k)]) & 63);
    }
    char buf[32];
    if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
    else if (c == '\n') o += "\\n";
    else if (c == '\t') o += "\\t";
    else if (c == '\r') o += "\\r";
    else if (c == '\b') o += "\\b";
    else if (c == '\f') o += "\\f";
    else if (c == '/' && r.Chance(0.5)) o += "\\/";
    else if (esc_all || c < 0x20 || (len > 1 && r.Chance(0.4))) {
      if (cp >= 0x10000) { snprintf(buf, sizeof buf, "\\u%04x\\u%04X", 0xd800 + ((cp - 0x10000) >> 10), 0xdc00 + ((cp - 0x10000) & 0x3ff)); o += buf; }
      else { snprintf(buf, sizeof buf, r.Chance(0.5) ? "\\u%04x" : "\\u%04X", cp); o += buf; }
    } else o.append(raw, i, static_cast<size_t>(len));
    i += static_cast<size_t>(len);
  }
  return o + "\"";
}
Node GenScalar(Rng& r, char type) {
  switch (type) {
    case 's': {
      if (r.Chance(0.0015)) {  // sizes around powers of two
        string s(static_cast<size_t>((1 << r.Range(7, 17)) + r.Range(-24, 4)), static_cast<char>(r.Range('a', 'z')));
        return Node::Scalar(s + GenText(r, 3));
      }
      return Node::Scalar(r.Chance(0.08) ? GenText(r, 300) : GenText(r, 12));
    }
    case 'y': { string s; int n = static_cast<int>(r.Below(r.Chance(0.05) ? 300 : 10)); for (int i = 0; i < n; ++i) s += static_cast<char>(r.Below(256)); return Node::Scalar(s); }
    case 'W': return GenScalar(r, 's');
    case 'T': {
      int64_t sec = r.Chance(0.2) ? (r.Chance(0.5) ? -62135596800ll : 253402300799ll) : r.Range(-62135596800ll, 253402300799ll);
      static const int64_t unit[] = {0, 1000000, 1000, 1};
      int64_t u = unit[r.Below(4)];
      return Node::Scalar(S(sec) + "." + S(u ? r.Range(0, 999999999 / u) * u : 0));
    }
    case 'w': case 'z': case 'q':
    case 'i': { static const int32_t e[] = {0, 1, -1, INT32_MAX, INT32_MIN}; return Node::Scalar(S(r.Chance(0.3) ? e[r.Below(5)] : static_cast<int32_t>(r.Range(-100000, 100000)))); }
    case 'Z': case 'Q':
    case 'l': { static const int64_t e[] = {0, 1, -1, INT64_MAX, INT64_MIN}; return Node::Scalar(S(r.Chance(0.3) ? e[r.Below(5)] : static_cast<int64_t>(r.Next() >> r.Below(60)))); }
    case 'u': case 'x': return Node::Scalar(U(r.Chance(0.2) ? UINT32_MAX : static_cast<uint32_t>(r.Next() >> (32 + r.Below(32)))));
    case 'U': case 'X': return Node::Scalar(U(r.Chance(0.2) ? UINT64_MAX : r.Next() >> r.Below(60)));
    case 'b': return Node::Scalar(r.Chance(0.7) ? "1" : "0");
    case 'e': return Node::Scalar(S(r.Below(4)));
    case 'd': {
      double v = static_cast<double>(r.Range(-4000, 4000)) / 8;
      if (r.Chance(0.4)) {  // any magnitude
        static const double e[] = {1e300, 1.7976931348623157e308, -2.5e200, 1e-7, 2e-7, 0.1, 1 / 3.0, 16777216.5, 16777217.5, 4503599627370497.5, -1e39};
        v = e[r.Below(11)];
        if ((v > 1e3 || v < -1e3) && r.Chance(0.5)) { uint64_t x; memcpy(&x, &v, 8); x += 1 + r.Below(3); double y; memcpy(&y, &x, 8); if (y - y == 0) v = y; }  // a close neighbour
      }
      if (r.Chance(0.03)) v = r.Chance(0.5) ? HUGE_VAL : r.Chance(0.5) ? -HUGE_VAL : std::numeric_limits<double>::quiet_NaN();
      uint64_t b; memcpy(&b, &v, 8); return Node::Scalar(U(v == 0 ? 0 : b));
    }
    case 'f': { if (r.Chance(0.03)) return Node::Scalar(U(r.Chance(0.5) ? 0x7f800000u : r.Chance(0.5) ? 0xff800000u : 0x7fc00000u)); float v = static_cast<float>(r.Range(-4000, 4000)) / 8; uint32_t b; memcpy(&b, &v, 4); return Node::Scalar(U(v == 0 ? 0 : b)); }
  }
  return Node();
}
static string Base64(const string& s) {
  static const char* a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  string o;
  for (size_t i = 0; i < s.size(); i += 3) {
    uint32_t v = 0;
    size_t n = std::min<size_t>(3, s.size() - i);
    for (size_t k = 0; k < 3; ++k) v = (v << 8) | (k < n ? static_cast<unsigned char>(s[i + k]) : 0);
    for (size_t k = 0; k < 4; ++k) o += k <= n ? a[(v >> (18 - 6 * k)) & 63] : '=';
  }
  return o;
}
// RFC 3339 text of "seconds.nanos".
static string TimeText(const string& canon) {
  int64_t sec = strtoll(canon.c_str(), nullptr, 10), nano = 0;
  size_t dot = canon.find('.');
  if (dot != string::npos) nano = strtoll(canon.c_str() + dot + 1, nullptr, 10);
  int64_t day = sec / 86400, rest = sec % 86400;
  if (rest < 0) { rest += 86400; --day; }
  int64_t z = day + 719468, era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097;
  int64_t yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  int64_t mp = (5 * doy + 2) / 153, d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9, y = yoe + era * 400 + (m <= 2);
  char buf[96];
  snprintf(buf, sizeof buf, "%04lld-%02lld-%02lldT%02lld:%02lld:%02lld", static_cast<long long>(y), static_cast<long long>(m), static_cast<long long>(d),
           static_cast<long long>(rest / 3600), static_cast<long long>(rest / 60 % 60), static_cast<long long>(rest % 60));
  string s = buf;
  if (nano) {
    snprintf(buf, sizeof buf, ".%09lld", static_cast<long long>(nano));
    s += buf;
    while (s.size() > 3 && s.compare(s.size() - 3, 3, "000") == 0) s.resize(s.size() - 3);
  }
  return s + "Z";
}
string ScalarUrl(char type, const Node& n) {
  static const char* kinds[] = {"RED", "GREEN", "DARK_BLUE", "PALE"};
  char buf[64];
  switch (type) {
    case 'y': return Base64(n.v);
    case 'T': return TimeText(n.v);
    case 'b': return n.v == "1" ? "true" : "false";
    case 'e': return kinds[atoi(n.v.c_str()) & 3];
    case 'd': { uint64_t b = strtoull(n.v.c_str(), nullptr, 10); double v; memcpy(&v, &b, 8); if (v - v != 0) return v != v ? "NaN" : v > 0 ? "Infinity" : "-Infinity"; snprintf(buf, sizeof buf, "%.17g", v); return buf; }
    case 'f': { uint32_t b = static_cast<uint32_t>(strtoull(n.v.c_str(), nullptr, 10)); float v; memcpy(&v, &b, 4); if (v - v != 0) return v != v ? "NaN" : v > 0 ? "Infinity" : "-Infinity"; snprintf(buf, sizeof buf, "%.9g", static_cast<double>(v)); return buf; }
    default: return n.v;
  }
}
string AnyCase(Rng& r, const string& s) {
  string o = s;
  int k = static_cast<int>(r.Below(3));
  for (auto& c : o) if (k == 0 || (k == 1 && r.Chance(0.5))) c = static_cast<char>(tolower(static_cast<unsigned char>(c)));
  return o;
}
string ScalarJson(Rng& r, char type, const Node& n, const GenOpts& o) {
  string s = ScalarUrl(type, n);
  switch (type) {
    case 's': case 'W': case 'T': return JsonString(r, s);
    case 'y': {
      if (o.enum_names) return "\"" + s + "\"";
      // RFC 2045 and RFC 4648 spellings: no padding, the URL-safe alphabet, line breaks
      if (r.Chance(0.2)) while (!s.empty() && s.back() == '=') s.pop_back();
      if (r.Chance(0.2)) for (auto& c : s) c = c == '+' ? '-' : c == '/' ? '_' : c;
      else if (r.Chance(0.15)) for (size_t i = r.Below(8); i < s.size(); i += 10) s.insert(i, r.Chance(0.5) ? "\\r\\n" : "\\n");
      return "\"" + s + "\"";
    }
    case 'i': case 'l': case 'u': case 'U': case 'w': case 'z': case 'Z': case 'x': case 'X': case 'q': case 'Q':
      if (s.size() < 10 && s != "0" && r.Chance(0.06)) return s + (r.Chance(0.5) ? ".0" : r.Chance(0.5) ? "e0" : "E+0");
      return r.Chance(0.3) ? "\"" + s + "\"" : s;
    case 'd': case 'f': return r.Chance(0.3) || isalpha(static_cast<unsigned char>(s.back())) ? "\"" + s + "\"" : s;
    case 'b': return s;
    case 'e': return !o.enum_names && r.Chance(0.3) ? n.v : "\"" + (o.anycase ? AnyCase(r, s) : s) + "\"";
    default: return r.Chance(0.3) ? "\"" + s + "\"" : s;
  }
}
// A google.protobuf.Value, or a ListValue or Struct.
static Node GenDynamic(Rng& r, MsgType t, int depth, int width) {
  Node n = Node::Msg();
  if (t == kValue) {
    int k = depth > 0 ? static_cast<int>(r.Below(8)) : static_cast<int>(r.Below(4));
    switch (k) {
      case 0: n.f[1].push_back(Node::Scalar("0")); break;
      case 1: {
        double v = 0;
        uint64_t b;
        do { b = strtoull(GenScalar(r, 'd').v.c_str(), nullptr, 10); memcpy(&v, &b, 8); } while (v - v != 0);
        n.f[2].push_back(Node::Scalar(U(b)));
        break;
      }
      case 2: n.f[3].push_back(GenScalar(r, 's')); break;
      case 3: n.f[4].push_back(GenScalar(r, 'b')); break;
      case 4: case 5: n.f[5].push_back(GenDynamic(r, kStruct, depth - 1, width)); break;
      default: n.f[6].push_back(GenDynamic(r, kList, depth - 1, width));
    }
    return n;
  }
  int cnt = static_cast<int>(r.Below(static_cast<uint64_t>(width) + 1));
  if (r.Chance(0.01)) {  // one long chain
    for (Node in = GenDynamic(r, kValue, 0, 0);;) {
      for (int64_t k = r.Range(1, 35); k > 0; --k) {
        Node up = Node::Msg(), v = Node::Msg();
        if (r.Chance(0.5)) { if (r.Chance(0.1)) up.f[1].push_back(GenDynamic(r, kValue, 0, 0)); up.f[1].push_back(in); v.f[6].push_back(up); }
        else { Node e = Node::Msg(); e.f[1].push_back(Node::Scalar("sub")); e.f[2].push_back(in); up.f[1].push_back(e); v.f[5].push_back(up); }
        in = v;
      }
      if (t == kList) n.f[1].push_back(in);
      else { Node e = Node::Msg(); e.f[1].push_back(Node::Scalar("sub")); e.f[2].push_back(in); n.f[1].push_back(e); }
      return n;
    }
  }
  static const char* keys[] = {"name", "sub", "id", "otherSub", "tags", "mate", "val", "other_sub", "n"};  // names that mean something one level up
  unsigned used = 0;
  for (int k = 0; k < cnt; ++k) {
    Node v = GenDynamic(r, kValue, depth - 1, width);
    if (t == kStruct) {
      Node e = Node::Msg();
      size_t w = r.Below(9);
      if (used >> w & 1 || r.Chance(0.3)) e.f[1].push_back(Node::Scalar(r.Chance(0.1) && k == 0 ? "" : "k" + S(k) + GenText(r, 3)));
      else { used |= 1u << w; e.f[1].push_back(Node::Scalar(keys[w])); }
      e.f[2].push_back(v);
      n.f[1].push_back(e);
    } else n.f[1].push_back(v);
  }
  return n;
}
static string DynamicJson(Rng& r, const Node& n, MsgType t, const GenOpts& o) {
  if (t == kValue) {
    auto& kv = *n.f.begin();
    const Node& x = kv.second[0];
    switch (kv.first) {
      case 1: return "null";
      case 2: return ScalarUrl('d', x);
      case 3: return JsonString(r, x.v);
      case 4: return x.v == "1" ? "true" : "false";
      case 5: return DynamicJson(r, x, kStruct, o);
      default: return DynamicJson(r, x, kList, o);
    }
  }
  string s = (t == kStruct ? "{" : "[") + Ws(r);
  auto it = n.f.find(1);
  bool first = true;
  if (it != n.f.end())
    for (auto& e : it->second) {
      if (!first) s += Ws(r) + "," + Ws(r);
      first = false;
      if (t == kStruct) s += JsonString(r, e.f.at(1)[0].v) + Ws(r) + ":" + Ws(r) + DynamicJson(r, e.f.at(2)[0], kValue, o);
      else s += DynamicJson(r, e, kValue, o);
    }
  return s + Ws(r) + (t == kStruct ? "}" : "]");
}
Node GenMsg(Rng& r, MsgType t, GenOpts* o, int depth) {
  if (IsDynamic(t)) { o->budget -= 2; return GenDynamic(r, t, static_cast<int>(r.Range(0, 5)), static_cast<int>(r.Range(1, 3))); }
  Node n = Node::Msg();
  const auto& fs = Fields(t);
  int want = static_cast<int>(r.Below(static_cast<uint64_t>(std::max(1, std::min<int>(o->budget, static_cast<int>(fs.size())) + 1))));
  for (int i = 0; i < want; ++i) {
    const FieldDef& d = fs[r.Below(fs.size())];
    if (n.f.count(d.num)) continue;
    if (d.type == 'm' && depth <= 0) continue;
    o->budget--;
    auto& v = n.f[d.num];
    int cnt = d.rep ? static_cast<int>(r.Below(4)) : 1;
    for (int k = 0; k < cnt; ++k) {
      if (d.type == 'm' && d.msg == kEntry) {
        Node e = Node::Msg();
        e.f[1].push_back(Node::Scalar("k" + S(k) + GenText(r, 3)));
        e.f[2].push_back(GenScalar(r, 's'));
        v.push_back(e);
      } else if (d.type == 'm') v.push_back(GenMsg(r, d.msg, o, depth - 1));
      else v.push_back(GenScalar(r, d.type));
    }
  }
  return n;
}
string Ws(Rng& r) {
  if (!r.Chance(0.25)) return "";
  string s;
  int n = static_cast<int>(r.Range(1, 3));
  for (int i = 0; i < n; ++i) s += " \n\t\r"[r.Below(4)];
  return s;
}
static string RandomJson(Rng& r, int depth) {
  switch (r.Below(depth > 0 ? 7 : 5)) {
    case 0: return "null";
    case 1: return S(r.Range(-9, 99999));
    case 2: return JsonString(r, GenText(r, 8));
    case 3: return "true";
    case 4: return "-1.5e3";
    case 5: { string s = "["; int n = static_cast<int>(r.Below(3)); for (int i = 0; i < n; ++i) s += (i ? "," : "") + Ws(r) + RandomJson(r, depth - 1); return s + "]"; }
    default: { string s = "{"; int n = static_cast<int>(r.Below(3)); for (int i = 0; i < n; ++i) s += (i ? ",\"k" : "\"k") + S(i) + "\":" + RandomJson(r, depth - 1); return s + "}"; }
  }
}
string MsgJson(Rng& r, const Node& n, MsgType t, const GenOpts& o) {
  if (IsDynamic(t)) return DynamicJson(r, n, t, o);
  vector<string> parts;
  for (auto& d : Fields(t)) {
    auto it = n.f.find(d.num);
    string key = JsonString(r, r.Chance(0.5) ? d.json : d.name);
    if (it == n.f.end()) {
      if (o.nulls && r.Chance(0.04) && !(d.type == 'm' && IsDynamic(d.msg))) parts.push_back(key + Ws(r) + ":" + Ws(r) + "null");
      continue;
    }
    string v;
    if (d.type == 'm' && d.msg == kEntry) {
      v = "{" + Ws(r);
      bool first = true;
      for (auto& e : it->second) {
        if (!first) v += Ws(r) + "," + Ws(r);
        first = false;
        auto val = e.f.find(2);
        v += JsonString(r, e.f.at(1)[0].v) + Ws(r) + ":" + Ws(r) + JsonString(r, val == e.f.end() ? "" : val->second[0].v);
      }
      v += Ws(r) + "}";
    } else if (d.rep) {
      v = "[" + Ws(r);
      bool first = true;
      for (auto& e : it->second) {
        if (!first) v += Ws(r) + "," + Ws(r);
        first = false;
        v += d.type == 'm' ? MsgJson(r, e, d.msg, o) : ScalarJson(r, d.type, e, o);
      }
      v += Ws(r) + "]";
    } else v = d.type == 'm' ? MsgJson(r, it->second[0], d.msg, o) : ScalarJson(r, d.type, it->second[0], o);
    parts.push_back(key + Ws(r) + ":" + Ws(r) + v);
  }
  if (o.unknown && r.Chance(0.15)) parts.push_back("\"zz_" + S(r.Below(9)) + "\":" + Ws(r) + RandomJson(r, 2));
  for (size_t i = parts.size(); i > 1; --i) std::swap(parts[i - 1], parts[r.Below(i)]);
  string s = "{" + Ws(r);
  for (size_t i = 0; i < parts.size(); ++i) s += (i ? "," + Ws(r) : "") + parts[i] + Ws(r);
  return s + "}";
}
bool InString(const string& j, size_t at) {
  bool in = false;
  for (size_t i = 0; i < at && i < j.size(); ++i) {
    if (in && j[i] == '\\') { ++i; continue; }
    if (j[i] == '"') in = !in;
  }
  return in;
}
}  // namespace sim
