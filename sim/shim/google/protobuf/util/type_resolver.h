#ifndef VERIF_SHIM_TYPE_RESOLVER_H_
#define VERIF_SHIM_TYPE_RESOLVER_H_
#include <string>
#include "absl/status/status.h"
#include "google/protobuf/type.pb.h"
#include "simv_ns.h"
SIMV_BEGIN
class TypeResolver {
 public:
  TypeResolver() {}
  virtual ~TypeResolver() {}
  virtual absl::Status ResolveMessageType(const std::string& type_url, google::protobuf::Type* message_type) = 0;
  virtual absl::Status ResolveEnumType(const std::string& type_url, google::protobuf::Enum* enum_type) = 0;
  TypeResolver(const TypeResolver&) = delete;
  TypeResolver& operator=(const TypeResolver&) = delete;
};
SIMV_END
#endif
