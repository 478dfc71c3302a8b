#include "mut_router.h"

#include "grpc_transcoding/path_matcher.h"
#include "grpc_transcoding/path_matcher_utility.h"

namespace tr = google::grpc::transcoding;
using B = tr::PathMatcherBuilder<const RTag*>;
using M = tr::PathMatcher<const RTag*>;

void* mb_new() { return new B(); }
void mb_delete(void* b) { delete static_cast<B*>(b); }
void mb_opts(void* bv, int spec, bool plus, bool unreg, bool faildup) {
  B* b = static_cast<B*>(bv);
  // Options that are to have their default are left alone.
  if (spec != 0) b->SetUrlUnescapeSpec(static_cast<tr::UrlUnescapeSpec>(spec));
  if (plus) b->SetQueryParamUnescapePlus(plus);
  if (unreg) b->SetMatchUnregisteredCustomVerb(unreg);
  if (faildup) b->SetFailRegistrationOnDuplicate(faildup);
}
bool mb_reg(void* b, const std::string& method, const std::string& tmpl, const std::string& body,
            const std::unordered_set<std::string>* sys, const RTag* tag) {
  if (sys) return static_cast<B*>(b)->Register(method, tmpl, body, *sys, tag);
  return static_cast<B*>(b)->Register(method, tmpl, body, tag);
}
static void Fill(google::api::HttpRule* r, const HBinding& h) {
  if (h.method == "GET") r->set_get(h.tmpl);
  else if (h.method == "PUT") r->set_put(h.tmpl);
  else if (h.method == "POST") r->set_post(h.tmpl);
  else if (h.method == "DELETE") r->set_delete_(h.tmpl);
  else if (h.method == "PATCH") r->set_patch(h.tmpl);
  else { r->mutable_custom()->set_kind(h.method); r->mutable_custom()->set_path(h.tmpl); }
}
void* mb_rule(const std::vector<HBinding>& bs) {
  auto* rule = new google::api::HttpRule;
  google::api::HttpRule& r = *rule;
  for (size_t i = 0; i < bs.size(); ++i) {
    google::api::HttpRule* x = i ? r.add_additional_bindings() : &r;
    Fill(x, bs[i]);
    x->set_body(bs[i].body);
  }
  return rule;
}
void mb_rule_delete(void* r) { delete static_cast<google::api::HttpRule*>(r); }
bool mb_regrule(void* b, const void* rule, const std::unordered_set<std::string>* sys, const RTag* tag) {
  const auto& r = *static_cast<const google::api::HttpRule*>(rule);
  if (sys) return tr::PathMatcherUtility::RegisterByHttpRule(*static_cast<B*>(b), r, *sys, tag);
  return tr::PathMatcherUtility::RegisterByHttpRule(*static_cast<B*>(b), r, tag);
}
void* mb_build(void* b) { return static_cast<B*>(b)->Build().release(); }
void mm_delete(void* m) { delete static_cast<M*>(m); }
const RTag* mm_look(const void* m, const std::string& method, const std::string& path, const std::string& query,
                    std::vector<RBinding>* b, std::string* body) {
  return static_cast<const M*>(m)->Lookup(method, path, query, b, body);
}
const RTag* mm_look_short(const void* m, const std::string& method, const std::string& path) {
  return static_cast<const M*>(m)->Lookup(method, path);
}
