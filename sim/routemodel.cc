#include "routemodel.h"

#include <ctype.h>
#include <string.h>

using Str = std::string;

namespace {
struct P {
  const Str& s; size_t i = 0; MTemplate* t;
  bool End() const { return i >= s.size(); }
  bool Is(char c) const { return i < s.size() && s[i] == c; }
  bool Lit(Str* o) {
    size_t b = i;
    while (!End() && !strchr("/:}", s[i])) ++i;
    *o = s.substr(b, i - b);
    return i > b;
  }
  bool Segs(bool in_var, bool* wild) {
    for (;;) {
      if (End()) return false;
      if (Is('*')) {
        ++i;
        if (Is('*')) { ++i; t->segs.push_back("**"); if (wild) *wild = true; }
        else t->segs.push_back("*");
      } else if (Is('{')) {
        if (in_var) return false;
        ++i;
        MTemplate::Var v; v.start = static_cast<int>(t->segs.size()); v.wild = false;
        for (;;) {
          size_t b = i;
          while (!End() && !strchr(".}=", s[i])) ++i;
          if (i == b) return false;
          v.field.push_back(s.substr(b, i - b));
          if (Is('.')) { ++i; continue; }
          break;
        }
        if (Is('=')) { ++i; if (!Segs(true, &v.wild)) return false; }
        else t->segs.push_back("*");
        v.end = static_cast<int>(t->segs.size());
        if (!Is('}')) return false;
        ++i;
        t->vars.push_back(v);
      } else {
        Str l; if (!Lit(&l)) return false;
        t->segs.push_back(l);
      }
      if (!Is('/')) return true;
      ++i;
    }
  }
};
}  // namespace

bool MParse(const Str& s, MTemplate* out) {
  *out = MTemplate();
  if (s == "/") return true;
  P p{s, 0, out};
  if (!p.Is('/')) return false;
  ++p.i;
  if (!p.Segs(false, nullptr)) return false;
  if (p.Is(':')) { ++p.i; if (!p.Lit(&out->verb)) return false; }
  if (!p.End()) return false;
  bool seen = false;
  for (auto& g : out->segs) {
    if (seen && (g == "*" || g == "**")) return false;
    if (g == "**") seen = true;
  }
  return true;
}

static int Hex(char c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'f') return c - 'a' + 10;
  if (c >= 'A' && c <= 'F') return c - 'A' + 10;
  return -1;
}
Str MUnescape(const Str& s, int spec, bool plus) {
  Str o;
  for (size_t i = 0; i < s.size(); ++i) {
    if (plus && s[i] == '+') { o += ' '; continue; }
    if (s[i] == '%' && i + 2 < s.size() && Hex(s[i + 1]) >= 0 && Hex(s[i + 2]) >= 0) {
      char c = static_cast<char>(Hex(s[i + 1]) * 16 + Hex(s[i + 2]));
      bool keep = spec == 0 ? (c && strchr("!#$&'()*+,/:;=?@[]", c)) : spec == 1 ? c == '/' : false;
      if (!keep) { o += c; i += 2; continue; }
    }
    o += s[i];
  }
  return o;
}

bool MTable::Register(const Str& method, const Str& tmpl, const Str& body, const std::set<Str>& sys, int id) {
  Rule r; r.method = method; r.body = body; r.sys = sys; r.id = id;
  if (!MParse(tmpl, &r.t)) return false;
  rules.push_back(r);
  auto key = std::make_pair(r.t.segs, std::make_pair(method, r.t.verb));
  auto it = entries.find(key);
  if (it != entries.end()) {
    it->second.multi = true;
    if (faildup) { rules.pop_back(); return false; }
    it->second.rule = static_cast<int>(rules.size()) - 1;
  } else {
    entries[key] = Entry{static_cast<int>(rules.size()) - 1, false};
  }
  if (!r.t.verb.empty()) verbs.insert(r.t.verb);
  return true;
}

static std::vector<Str> Split(const Str& s, char c) {
  std::vector<Str> o; Str cur;
  for (char x : s) { if (x == c) { o.push_back(cur); cur.clear(); } else cur += x; }
  o.push_back(cur);
  return o;
}

MResult MTable::Lookup(const Str& method, const Str& path_in, const Str& query) const {
  Str path = path_in.substr(0, path_in.find('?'));
  Str verb;
  size_t colon = path.rfind(':');
  if (colon != Str::npos && path.find('/', colon) == Str::npos && path.rfind('/') != Str::npos) {
    Str v = path.substr(colon + 1);
    if (unreg || verbs.count(v)) { verb = v; path = path.substr(0, colon); }
  }
  std::vector<Str> parts;
  if (!path.empty()) parts = Split(path.substr(1), '/');
  while (!parts.empty() && parts.back().empty()) parts.pop_back();
  const int n = static_cast<int>(parts.size());

  // Rank of each matching template; smaller is preferred.
  std::vector<int> best; const Entry* win = nullptr;
  for (auto& e : entries) {
    const std::vector<Str>& segs = e.first.first;
    const Str &km = e.first.second.first, &kv = e.first.second.second;
    int keyrank;  // the method itself, any method with the verb, any method with any verb
    if (km == method && kv == verb) keyrank = 0; else if (km == "*" && kv == verb) keyrank = 1;
    else if (km == "*" && kv.empty()) keyrank = 2; else continue;
    std::vector<int> rank;
    int i = 0, wild = -1;
    bool ok = true;
    const int k = static_cast<int>(segs.size());
    for (i = 0; i < k; ++i) {
      if (segs[i] == "**") { wild = i; break; }
      if (i >= n) { ok = false; break; }
      if (segs[i] == "*") rank.push_back(1);
      else if (segs[i] == parts[i]) rank.push_back(0);
      else { ok = false; break; }
    }
    if (!ok) continue;
    if (wild < 0) {
      if (n != k) continue;
      rank.push_back(0);
    } else {
      int tail = k - wild - 1;
      if (tail == 0) {
        if (n == wild) rank.push_back(1);  // "**" matches nothing: after the node's own entry
        else { rank.push_back(2); rank.push_back(1 << 20); }
      } else {
        if (n - wild < tail + 1) continue;
        for (int j = 0; j < tail; ++j)
          if (segs[wild + 1 + j] != parts[n - tail + j]) { ok = false; break; }
        if (!ok) continue;
        rank.push_back(2);
        rank.push_back(n - tail);
      }
    }
    rank.push_back(keyrank);
    if (!win || rank < best) { best = rank; win = &e.second; }
  }
  MResult res;
  if (!win || win->multi) return res;
  const Rule& r = rules[win->rule];
  res.id = r.id; res.body = r.body;
  const int k = static_cast<int>(r.t.segs.size());
  int wpos = k;
  for (int i = 0; i < k; ++i) if (r.t.segs[i] == "**") wpos = i;
  for (auto& v : r.t.vars) {
    // Positions behind a "**" count from the end of the path.
    int start = v.start > wpos ? n - (k - v.start) : v.start;
    int end = v.end > wpos ? n - (k - v.end) : v.end;
    bool multi = v.wild || v.end - v.start > 1;
    Str val;
    for (int i = start; i < end; ++i) {
      if (i > start) val += '/';
      val += MUnescape(parts[i], multi ? spec : 2, false);
    }
    res.bindings.push_back(MBinding{v.field, val});
  }
  for (auto& q : Split(query, '&')) {
    size_t eq = q.find('=');
    if (eq == Str::npos || eq == 0) continue;
    Str name = q.substr(0, eq);
    if (r.sys.count(name)) continue;
    res.bindings.push_back(MBinding{Split(name, '.'), MUnescape(q.substr(eq + 1), 2, plus)});
  }
  return res;
}
