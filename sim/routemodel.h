// Executable routing model, independent of the trie: each registered template
// is matched against the request on its own, and the best match is chosen by
// the documented preference (literal before "*" before "**", leftmost first).
#ifndef VERIF_SIM_ROUTEMODEL_H_
#define VERIF_SIM_ROUTEMODEL_H_
#include <map>
#include <set>
#include <string>
#include <vector>

struct MTemplate {
  std::vector<std::string> segs;
  std::string verb;
  struct Var { std::vector<std::string> field; int start, end; bool wild; };
  std::vector<Var> vars;
};
bool MParse(const std::string& t, MTemplate* out);

struct MBinding {
  std::vector<std::string> field; std::string value;
  bool operator==(const MBinding& o) const { return field == o.field && value == o.value; }
};
struct MResult { int id = -1; std::vector<MBinding> bindings; std::string body; };

struct MTable {
  int spec = 0; bool plus = false, unreg = false, faildup = false;
  struct Rule { std::string method; MTemplate t; std::string body; std::set<std::string> sys; int id; };
  struct Entry { int rule; bool multi; };
  std::vector<Rule> rules;
  // template segments, (method, verb)
  std::map<std::pair<std::vector<std::string>, std::pair<std::string, std::string>>, Entry> entries;
  std::set<std::string> verbs;
  bool Register(const std::string& method, const std::string& tmpl, const std::string& body,
                const std::set<std::string>& sys, int id);
  MResult Lookup(const std::string& method, const std::string& path, const std::string& query) const;
};
std::string MUnescape(const std::string& s, int spec, bool plus);
#endif
