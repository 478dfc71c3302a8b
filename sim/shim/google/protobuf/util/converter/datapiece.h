#ifndef VERIF_SHIM_DATAPIECE_H_
#define VERIF_SHIM_DATAPIECE_H_
#include <cstdint>
#include <string>
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
#include "google/protobuf/type.pb.h"
#include "simv_ns.h"
SIMV_BEGIN
namespace converter {
class DataPiece {
 public:
  enum Type { TYPE_INT32 = 1, TYPE_INT64 = 2, TYPE_UINT32 = 3, TYPE_UINT64 = 4, TYPE_DOUBLE = 5, TYPE_FLOAT = 6, TYPE_BOOL = 7,
              TYPE_ENUM = 8, TYPE_STRING = 9, TYPE_BYTES = 10, TYPE_NULL = 11 };
  explicit DataPiece(int32_t v) : type_(TYPE_INT32), strict_(false) { u_.i32 = v; }
  explicit DataPiece(int64_t v) : type_(TYPE_INT64), strict_(false) { u_.i64 = v; }
  explicit DataPiece(uint32_t v) : type_(TYPE_UINT32), strict_(false) { u_.u32 = v; }
  explicit DataPiece(uint64_t v) : type_(TYPE_UINT64), strict_(false) { u_.u64 = v; }
  explicit DataPiece(double v) : type_(TYPE_DOUBLE), strict_(false) { u_.d = v; }
  explicit DataPiece(float v) : type_(TYPE_FLOAT), strict_(false) { u_.f = v; }
  explicit DataPiece(bool v) : type_(TYPE_BOOL), strict_(false) { u_.b = v; }
  DataPiece(absl::string_view v, bool use_strict_base64_decoding) : type_(TYPE_STRING), str_(v), strict_(use_strict_base64_decoding) { u_.u64 = 0; }
  DataPiece(absl::string_view v, bool /*bytes*/, bool use_strict_base64_decoding) : type_(TYPE_BYTES), str_(v), strict_(use_strict_base64_decoding) { u_.u64 = 0; }
  static DataPiece NullData() { DataPiece d(static_cast<uint64_t>(0)); d.type_ = TYPE_NULL; return d; }
  Type type() const { return type_; }
  bool use_strict_base64_decoding() const { return strict_; }
  absl::string_view str() const { return str_; }
  absl::StatusOr<int32_t> ToInt32() const;
  absl::StatusOr<uint32_t> ToUint32() const;
  absl::StatusOr<int64_t> ToInt64() const;
  absl::StatusOr<uint64_t> ToUint64() const;
  absl::StatusOr<double> ToDouble() const;
  absl::StatusOr<float> ToFloat() const;
  absl::StatusOr<bool> ToBool() const;
  absl::StatusOr<std::string> ToString() const;
  absl::StatusOr<std::string> ToBytes() const;
  std::string ValueAsStringOrDefault(absl::string_view default_string) const;
  union U { int32_t i32; int64_t i64; uint32_t u32; uint64_t u64; double d; float f; bool b; };
  const U& raw() const { return u_; }
 private:
  Type type_;
  U u_;
  absl::string_view str_;
  bool strict_;
};
}
SIMV_END
#endif
