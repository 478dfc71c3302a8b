// Forwards the shim's converter interface to the installed libprotobuf.a.
// The library's own classes are declared below with the layout of release 3.21
// (vtable order and member offsets were read off the installed objects).
#define SIM_SHIM_IMPL
#include <new>
#include "google/protobuf/util/converter/datapiece.h"
#include "google/protobuf/util/converter/json_stream_parser.h"
#include "google/protobuf/util/converter/object_writer.h"
#include "google/protobuf/util/converter/protostream_objectwriter.h"
#include "google/protobuf/util/json_util.h"
#include "google/protobuf/stubs/status.h"
#include "google/protobuf/stubs/stringpiece.h"
// Installed headers (same names as the shim's, hence by path).
#include "/usr/include/google/protobuf/util/type_resolver.h"
#include "/usr/include/google/protobuf/util/json_util.h"

namespace google { namespace protobuf { namespace util {
namespace status_internal {
template <typename T> class StatusOr;  // only used through the accessors below
}
namespace converter {
using google::protobuf::stringpiece_internal::StringPiece;
class ObjectWriter {
 public:
  virtual ~ObjectWriter() {}
  virtual ObjectWriter* StartObject(StringPiece name) = 0;
  virtual ObjectWriter* EndObject() = 0;
  virtual ObjectWriter* StartList(StringPiece name) = 0;
  virtual ObjectWriter* EndList() = 0;
  virtual ObjectWriter* RenderBool(StringPiece name, bool value) = 0;
  virtual ObjectWriter* RenderInt32(StringPiece name, int32_t value) = 0;
  virtual ObjectWriter* RenderUint32(StringPiece name, uint32_t value) = 0;
  virtual ObjectWriter* RenderInt64(StringPiece name, int64_t value) = 0;
  virtual ObjectWriter* RenderUint64(StringPiece name, uint64_t value) = 0;
  virtual ObjectWriter* RenderDouble(StringPiece name, double value) = 0;
  virtual ObjectWriter* RenderFloat(StringPiece name, float value) = 0;
  virtual ObjectWriter* RenderString(StringPiece name, StringPiece value) = 0;
  virtual ObjectWriter* RenderBytes(StringPiece name, StringPiece value) = 0;
  virtual ObjectWriter* RenderNull(StringPiece name) = 0;
  bool use_strict_base64_decoding_ = true;
 protected:
  ObjectWriter() {}
};
class LocationTrackerInterface {
 public:
  virtual ~LocationTrackerInterface() {}
  virtual std::string ToString() const = 0;
};
class ErrorListener {
 public:
  virtual ~ErrorListener() {}
  virtual void InvalidName(const LocationTrackerInterface& loc, StringPiece invalid_name, StringPiece message) = 0;
  virtual void InvalidValue(const LocationTrackerInterface& loc, StringPiece type_name, StringPiece value) = 0;
  virtual void MissingField(const LocationTrackerInterface& loc, StringPiece missing_name) = 0;
};
class JsonStreamParser {
 public:
  explicit JsonStreamParser(ObjectWriter* ow);
  virtual ~JsonStreamParser();
  util::Status Parse(StringPiece json);
  util::Status FinishParse();
 private:
  char opaque_[1024];
};
class ProtoStreamObjectWriter : public ObjectWriter {  // the virtual interface only
 public:
  struct Options { bool b[13]; };
  virtual bool done() = 0;
};
extern "C" void sim_psow_ctor(void* self, util::TypeResolver* type_resolver, const google::protobuf::Type& type, strings::ByteSink* output,
                              ErrorListener* listener, const ProtoStreamObjectWriter::Options& options)
    asm("_ZN6google8protobuf4util9converter23ProtoStreamObjectWriterC1EPNS1_12TypeResolverERKNS0_4TypeEPNS0_7strings8ByteSinkEPNS2_13ErrorListenerERKNS3_7OptionsE");
// Conversions of scalar values.
template <typename T>
struct LibStatusOr {  // util::StatusOr<T>: a status followed by the value
  util::Status status_;
  T value_;
};
class DataPiece {
 public:
  enum Type { TYPE_STRING = 9, TYPE_BYTES = 10 };
  explicit DataPiece(const simv::converter::DataPiece& d) : type_(static_cast<Type>(d.type())), strict_(d.use_strict_base64_decoding()) {
    u_.raw = 0;
    if (d.type() == simv::converter::DataPiece::TYPE_STRING || d.type() == simv::converter::DataPiece::TYPE_BYTES) {
      new (&u_.str) StringPiece(d.str().data(), d.str().size());
    } else {
      memcpy(&u_.raw, &d.raw(), sizeof(d.raw()));
    }
  }
  virtual ~DataPiece();
  LibStatusOr<int32_t> ToInt32() const;
  LibStatusOr<uint32_t> ToUint32() const;
  LibStatusOr<int64_t> ToInt64() const;
  LibStatusOr<uint64_t> ToUint64() const;
  LibStatusOr<double> ToDouble() const;
  LibStatusOr<float> ToFloat() const;
  LibStatusOr<bool> ToBool() const;
  LibStatusOr<std::string> ToBytes() const;
  std::string ValueAsStringOrDefault(StringPiece default_string) const;
  Type type_;
  union U { U() {} uint64_t raw; StringPiece str; } u_;
  bool strict_;
};
}  // namespace converter
}}}

using google::protobuf::stringpiece_internal::StringPiece;
namespace L = google::protobuf::util::converter;
namespace PU = google::protobuf::util;

namespace google { namespace protobuf { namespace util { namespace simv {
namespace {
StringPiece SP(absl::string_view s) { return StringPiece(s.data(), s.size()); }
absl::string_view SV(StringPiece s) { return absl::string_view(s.data(), s.size()); }
absl::Status ToAbsl(const google::protobuf::util::status_internal::Status& s) {
  if (s.ok()) return absl::OkStatus();
  return absl::Status(static_cast<absl::StatusCode>(s.code()), SV(s.message()));
}
google::protobuf::util::status_internal::Status FromAbsl(const absl::Status& s) {
  return google::protobuf::util::status_internal::Status(static_cast<google::protobuf::util::status_internal::StatusCode>(s.code()), SP(s.message()));
}
// The library's parser talks to the code under test.
class ToMut : public L::ObjectWriter {
 public:
  explicit ToMut(simv::converter::ObjectWriter* ow) : ow_(ow) {}
  L::ObjectWriter* StartObject(StringPiece n) override { ow_->StartObject(SV(n)); return this; }
  L::ObjectWriter* EndObject() override { ow_->EndObject(); return this; }
  L::ObjectWriter* StartList(StringPiece n) override { ow_->StartList(SV(n)); return this; }
  L::ObjectWriter* EndList() override { ow_->EndList(); return this; }
  L::ObjectWriter* RenderBool(StringPiece n, bool v) override { ow_->RenderBool(SV(n), v); return this; }
  L::ObjectWriter* RenderInt32(StringPiece n, int32_t v) override { ow_->RenderInt32(SV(n), v); return this; }
  L::ObjectWriter* RenderUint32(StringPiece n, uint32_t v) override { ow_->RenderUint32(SV(n), v); return this; }
  L::ObjectWriter* RenderInt64(StringPiece n, int64_t v) override { ow_->RenderInt64(SV(n), v); return this; }
  L::ObjectWriter* RenderUint64(StringPiece n, uint64_t v) override { ow_->RenderUint64(SV(n), v); return this; }
  L::ObjectWriter* RenderDouble(StringPiece n, double v) override { ow_->RenderDouble(SV(n), v); return this; }
  L::ObjectWriter* RenderFloat(StringPiece n, float v) override { ow_->RenderFloat(SV(n), v); return this; }
  L::ObjectWriter* RenderString(StringPiece n, StringPiece v) override { ow_->RenderString(SV(n), SV(v)); return this; }
  L::ObjectWriter* RenderBytes(StringPiece n, StringPiece v) override { ow_->RenderBytes(SV(n), SV(v)); return this; }
  L::ObjectWriter* RenderNull(StringPiece n) override { ow_->RenderNull(SV(n)); return this; }
 private:
  simv::converter::ObjectWriter* ow_;
};
class LocBridge : public simv::converter::LocationTrackerInterface {
 public:
  explicit LocBridge(const L::LocationTrackerInterface& l) : l_(l) {}
  std::string ToString() const override { return l_.ToString(); }
 private:
  const L::LocationTrackerInterface& l_;
};
class ErrBridge : public L::ErrorListener {
 public:
  explicit ErrBridge(simv::converter::ErrorListener* e) : e_(e) {}
  void InvalidName(const L::LocationTrackerInterface& l, StringPiece a, StringPiece b) override { e_->InvalidName(LocBridge(l), SV(a), SV(b)); }
  void InvalidValue(const L::LocationTrackerInterface& l, StringPiece a, StringPiece b) override { e_->InvalidValue(LocBridge(l), SV(a), SV(b)); }
  void MissingField(const L::LocationTrackerInterface& l, StringPiece a) override { e_->MissingField(LocBridge(l), SV(a)); }
 private:
  simv::converter::ErrorListener* e_;
};
class ResBridge : public PU::TypeResolver {
 public:
  explicit ResBridge(simv::TypeResolver* r) : r_(r) {}
  google::protobuf::util::status_internal::Status ResolveMessageType(const std::string& u, google::protobuf::Type* t) override { return FromAbsl(r_->ResolveMessageType(u, t)); }
  google::protobuf::util::status_internal::Status ResolveEnumType(const std::string& u, google::protobuf::Enum* t) override { return FromAbsl(r_->ResolveEnumType(u, t)); }
 private:
  simv::TypeResolver* r_;
};
L::ProtoStreamObjectWriter::Options Opt(const simv::converter::ProtoStreamObjectWriter::Options& o) {
  L::ProtoStreamObjectWriter::Options r;
  static_assert(sizeof(o) == sizeof(r), "options");
  memcpy(&r, &o, sizeof(r));
  return r;
}
}  // namespace

namespace converter {
struct JsonStreamParser::Impl {
  ToMut out;
  L::JsonStreamParser p;
  explicit Impl(ObjectWriter* ow) : out(ow), p(&out) {}
};
JsonStreamParser::JsonStreamParser(ObjectWriter* ow) : impl_(new Impl(ow)) {}
JsonStreamParser::~JsonStreamParser() { delete impl_; }
absl::Status JsonStreamParser::Parse(absl::string_view json) { return ToAbsl(impl_->p.Parse(SP(json))); }
absl::Status JsonStreamParser::FinishParse() { return ToAbsl(impl_->p.FinishParse()); }

struct ProtoStreamObjectWriter::Impl {
  ResBridge res;
  ErrBridge err;
  alignas(16) char storage[2048];
  L::ProtoStreamObjectWriter* w;
  Impl(TypeResolver* r, const google::protobuf::Type& t, strings::ByteSink* o, ErrorListener* e, const Options& opt) : res(r), err(e) {
    L::sim_psow_ctor(storage, &res, t, o, &err, Opt(opt));
    w = reinterpret_cast<L::ProtoStreamObjectWriter*>(storage);
  }
  ~Impl() { static_cast<L::ObjectWriter*>(w)->~ObjectWriter(); }
};
ProtoStreamObjectWriter::ProtoStreamObjectWriter(TypeResolver* r, const google::protobuf::Type& t, strings::ByteSink* o, ErrorListener* e, const Options& opt)
    : impl_(new Impl(r, t, o, e, opt)) {}
ProtoStreamObjectWriter::~ProtoStreamObjectWriter() { delete impl_; }
#define FWD(name, ...) impl_->w->use_strict_base64_decoding_ = use_strict_base64_decoding(); impl_->w->name(__VA_ARGS__); return this
ProtoStreamObjectWriter* ProtoStreamObjectWriter::StartObject(absl::string_view n) { FWD(StartObject, SP(n)); }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::EndObject() { FWD(EndObject); }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::StartList(absl::string_view n) { FWD(StartList, SP(n)); }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::EndList() { FWD(EndList); }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderBool(absl::string_view n, bool v) { FWD(RenderBool, SP(n), v); }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderInt32(absl::string_view n, int32_t v) { FWD(RenderInt32, SP(n), v); }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderUint32(absl::string_view n, uint32_t v) { FWD(RenderUint32, SP(n), v); }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderInt64(absl::string_view n, int64_t v) { FWD(RenderInt64, SP(n), v); }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderUint64(absl::string_view n, uint64_t v) { FWD(RenderUint64, SP(n), v); }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderDouble(absl::string_view n, double v) { FWD(RenderDouble, SP(n), v); }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderFloat(absl::string_view n, float v) { FWD(RenderFloat, SP(n), v); }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderString(absl::string_view n, absl::string_view v) { FWD(RenderString, SP(n), SP(v)); }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderBytes(absl::string_view n, absl::string_view v) { FWD(RenderBytes, SP(n), SP(v)); }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderNull(absl::string_view n) { FWD(RenderNull, SP(n)); }
#undef FWD
bool ProtoStreamObjectWriter::done() { return impl_->w->done(); }

#define CONV(T, Name)                                            \
  absl::StatusOr<T> DataPiece::Name() const {                    \
    L::DataPiece d(*this);                                       \
    auto r = d.Name();                                           \
    if (!r.status_.ok()) return ToAbsl(r.status_);               \
    return r.value_;                                             \
  }
CONV(int32_t, ToInt32) CONV(uint32_t, ToUint32) CONV(int64_t, ToInt64) CONV(uint64_t, ToUint64) CONV(double, ToDouble) CONV(float, ToFloat) CONV(bool, ToBool)
CONV(std::string, ToBytes)
absl::StatusOr<std::string> DataPiece::ToString() const {
  if (type_ == TYPE_STRING) return std::string(str_);
  if (type_ == TYPE_BYTES) return ToBytes();
  return absl::InvalidArgumentError(ValueAsStringOrDefault("Invalid type. Cannot convert to string."));
}
std::string DataPiece::ValueAsStringOrDefault(absl::string_view def) const { return L::DataPiece(*this).ValueAsStringOrDefault(SP(def)); }

void ObjectWriter::RenderDataPieceTo(const DataPiece& d, absl::string_view name, ObjectWriter* ow) {
  switch (d.type()) {
    case DataPiece::TYPE_INT32: ow->RenderInt32(name, d.raw().i32); break;
    case DataPiece::TYPE_INT64: ow->RenderInt64(name, d.raw().i64); break;
    case DataPiece::TYPE_UINT32: ow->RenderUint32(name, d.raw().u32); break;
    case DataPiece::TYPE_UINT64: ow->RenderUint64(name, d.raw().u64); break;
    case DataPiece::TYPE_DOUBLE: ow->RenderDouble(name, d.raw().d); break;
    case DataPiece::TYPE_FLOAT: ow->RenderFloat(name, d.raw().f); break;
    case DataPiece::TYPE_BOOL: ow->RenderBool(name, d.raw().b); break;
    case DataPiece::TYPE_STRING: ow->RenderString(name, d.str()); break;
    case DataPiece::TYPE_BYTES: ow->RenderBytes(name, d.str()); break;
    case DataPiece::TYPE_NULL: ow->RenderNull(name); break;
    default: break;
  }
}
}  // namespace converter

absl::Status BinaryToJsonStream(TypeResolver* resolver, const std::string& url, io::ZeroCopyInputStream* in, io::ZeroCopyOutputStream* out, const JsonPrintOptions& o) {
  ResBridge r(resolver);
  PU::JsonPrintOptions lo;
  lo.add_whitespace = o.add_whitespace;
  lo.always_print_primitive_fields = o.always_print_primitive_fields;
  lo.always_print_enums_as_ints = o.always_print_enums_as_ints;
  lo.preserve_proto_field_names = o.preserve_proto_field_names;
  return ToAbsl(PU::BinaryToJsonStream(static_cast<PU::TypeResolver*>(&r), url, in, out, lo));
}
}}}}
