#ifndef VERIF_SHIM_JSON_STREAM_PARSER_H_
#define VERIF_SHIM_JSON_STREAM_PARSER_H_
#include "absl/status/status.h"
#include "absl/strings/string_view.h"
#include "google/protobuf/util/converter/object_writer.h"
SIMV_BEGIN
namespace converter {
class JsonStreamParser {
 public:
  explicit JsonStreamParser(ObjectWriter* ow);
  ~JsonStreamParser();
  absl::Status Parse(absl::string_view json);
  absl::Status FinishParse();
  JsonStreamParser(const JsonStreamParser&) = delete;
  JsonStreamParser& operator=(const JsonStreamParser&) = delete;
 private:
  struct Impl;
  Impl* impl_;
};
}
SIMV_END
#endif
