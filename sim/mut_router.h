// The code under test for routing, compiled with access instrumentation.
#ifndef VERIF_SIM_MUT_ROUTER_H_
#define VERIF_SIM_MUT_ROUTER_H_
#include <string>
#include <unordered_set>
#include <vector>

#include "grpc_transcoding/http_template.h"

struct RTag { int id; };
using RBinding = google::grpc::transcoding::VariableBinding;
struct HBinding { std::string method, tmpl, body; };

void* mb_new();
void mb_delete(void*);
void mb_opts(void*, int spec, bool plus, bool unreg, bool faildup);
bool mb_reg(void*, const std::string& method, const std::string& tmpl, const std::string& body,
            const std::unordered_set<std::string>* sys, const RTag* tag);
void* mb_rule(const std::vector<HBinding>& bs);
void mb_rule_delete(void*);
bool mb_regrule(void*, const void* rule,
                const std::unordered_set<std::string>* sys, const RTag* tag);
void* mb_build(void*);
void mm_delete(void*);
const RTag* mm_look(const void*, const std::string& method, const std::string& path, const std::string& query,
                    std::vector<RBinding>* b, std::string* body);
const RTag* mm_look_short(const void*, const std::string& method, const std::string& path);
#endif
