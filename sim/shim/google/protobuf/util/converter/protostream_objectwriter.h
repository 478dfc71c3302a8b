#ifndef VERIF_SHIM_PSOW_H_
#define VERIF_SHIM_PSOW_H_
#include "google/protobuf/stubs/bytestream.h"
#include "google/protobuf/type.pb.h"
#include "google/protobuf/util/converter/datapiece.h"
#include "google/protobuf/util/converter/error_listener.h"
#include "google/protobuf/util/converter/object_writer.h"
#include "google/protobuf/util/type_resolver.h"
SIMV_BEGIN
namespace converter {
class ProtoStreamObjectWriter : public ObjectWriter {
 public:
  struct Options {
    bool struct_integers_as_strings = false;
    bool ignore_unknown_fields = false;
    bool ignore_unknown_enum_values = false;
    bool use_lower_camel_for_enums = false;
    bool case_insensitive_enum_parsing = false;
    bool ignore_null_value_map_entry = false;
    bool rest[7] = {};
    static const Options& Defaults() { static const Options* d = new Options(); return *d; }
  };
  ProtoStreamObjectWriter(TypeResolver* type_resolver, const google::protobuf::Type& type, strings::ByteSink* output, ErrorListener* listener,
                          const Options& options = Options::Defaults());
  ~ProtoStreamObjectWriter() override;
  ProtoStreamObjectWriter* StartObject(absl::string_view name) override;
  ProtoStreamObjectWriter* EndObject() override;
  ProtoStreamObjectWriter* StartList(absl::string_view name) override;
  ProtoStreamObjectWriter* EndList() override;
  ProtoStreamObjectWriter* RenderBool(absl::string_view name, bool value) override;
  ProtoStreamObjectWriter* RenderInt32(absl::string_view name, int32_t value) override;
  ProtoStreamObjectWriter* RenderUint32(absl::string_view name, uint32_t value) override;
  ProtoStreamObjectWriter* RenderInt64(absl::string_view name, int64_t value) override;
  ProtoStreamObjectWriter* RenderUint64(absl::string_view name, uint64_t value) override;
  ProtoStreamObjectWriter* RenderDouble(absl::string_view name, double value) override;
  ProtoStreamObjectWriter* RenderFloat(absl::string_view name, float value) override;
  ProtoStreamObjectWriter* RenderString(absl::string_view name, absl::string_view value) override;
  ProtoStreamObjectWriter* RenderBytes(absl::string_view name, absl::string_view value) override;
  ProtoStreamObjectWriter* RenderNull(absl::string_view name) override;
  bool done();
 private:
  struct Impl;
  Impl* impl_;
};
}
SIMV_END
#endif
