// TypeInfo as protobuf implements it: lazily filled caches without any locking
// of their own. Compiled with the code under test, so that its cache accesses
// take part in scheduling and race detection.
#include <map>
#include <memory>
#include <string>
#include "google/protobuf/util/converter/type_info.h"
namespace google { namespace protobuf { namespace util { inline namespace simv { namespace converter {
namespace {
class CachingTypeInfo : public TypeInfo {
 public:
  explicit CachingTypeInfo(TypeResolver* r) : resolver_(r) {}
  absl::StatusOr<const google::protobuf::Type*> ResolveTypeUrl(absl::string_view type_url) const override {
    std::string key(type_url);
    auto it = types_.find(key);
    if (it == types_.end()) {
      std::unique_ptr<google::protobuf::Type> t(new google::protobuf::Type());
      absl::Status s = resolver_->ResolveMessageType(key, t.get());
      if (!s.ok()) t.reset();
      it = types_.emplace(key, TypeEntry{std::move(t), s}).first;
    }
    if (!it->second.status.ok()) return it->second.status;
    return it->second.type.get();
  }
  const google::protobuf::Type* GetTypeByTypeUrl(absl::string_view type_url) const override {
    auto r = ResolveTypeUrl(type_url);
    return r.ok() ? *r : nullptr;
  }
  const google::protobuf::Enum* GetEnumByTypeUrl(absl::string_view type_url) const override {
    std::string key(type_url);
    auto it = enums_.find(key);
    if (it == enums_.end()) {
      std::unique_ptr<google::protobuf::Enum> e(new google::protobuf::Enum());
      if (!resolver_->ResolveEnumType(key, e.get()).ok()) e.reset();
      it = enums_.emplace(key, std::move(e)).first;
    }
    return it->second.get();
  }
  const google::protobuf::Field* FindField(const google::protobuf::Type* type, absl::string_view camel_case_name) const override {
    auto it = index_.find(type);
    if (it == index_.end()) {
      std::map<std::string, std::string>& m = index_[type];
      for (const auto& f : type->fields()) m.emplace(f.json_name(), f.name());
      it = index_.find(type);
    }
    std::string name(camel_case_name);
    auto n = it->second.find(name);
    if (n != it->second.end() && !n->second.empty()) name = n->second;
    for (const auto& f : type->fields())
      if (f.name() == name) return &f;
    return nullptr;
  }

 private:
  struct TypeEntry { std::unique_ptr<google::protobuf::Type> type; absl::Status status; };
  TypeResolver* resolver_;
  mutable std::map<std::string, TypeEntry> types_;
  mutable std::map<std::string, std::unique_ptr<google::protobuf::Enum>> enums_;
  mutable std::map<const google::protobuf::Type*, std::map<std::string, std::string>> index_;
};
}  // namespace
TypeInfo* TypeInfo::NewTypeInfo(TypeResolver* r) { return new CachingTypeInfo(r); }
}}}}}
