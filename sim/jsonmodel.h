// Executable model of the messages used by the translator scenarios: an own
// schema, value trees, a JSON printer with free formatting, and an own wire
// format encoder/decoder. Independent of the code under test.
#ifndef VERIF_SIM_JSONMODEL_H_
#define VERIF_SIM_JSONMODEL_H_
#include <map>
#include <string>
#include <vector>
#include "core.h"
#include "google/protobuf/type.pb.h"

namespace sim {

enum MsgType { kItem = 0, kSub = 1, kEntry = 2, kStruct = 3, kStructEntry = 4, kValue = 5, kList = 6, kMsgTypes = 7 };
inline bool IsDynamic(MsgType t) { return t >= kStruct && t <= kList; }  // JSON of any shape
struct FieldDef {
  int num;
  const char* name;
  const char* json;
  char type;  // s l i u U d f b y e m; z Z x X q Q: sint, fixed and sfixed, 32 and 64 bits; w W T: Int32Value, StringValue and Timestamp, seen as scalars
  bool rep;
  MsgType msg;
};
const std::vector<FieldDef>& Fields(MsgType t);
const FieldDef* FieldByNum(MsgType t, int num);
const FieldDef* FieldByName(MsgType t, const std::string& name);

struct Node {
  bool msg = false;
  std::string v;                        // canonical scalar
  std::map<int, std::vector<Node>> f;   // message
  static Node Scalar(const std::string& s) { Node n; n.v = s; return n; }
  static Node Msg() { Node n; n.msg = true; return n; }
};
std::string ToText(const Node& n);
bool FromText(const std::string& s, Node* out);
// Singular scalars with their default value are the same as absent ones.
void Normalize(Node* n, MsgType t);
bool Decode(const std::string& bytes, MsgType t, Node* out, std::string* err);
std::string Encode(const Node& n, MsgType t);

// The same schema as protobuf Type messages.
const std::vector<google::protobuf::Type>& SchemaTypes();
const std::vector<google::protobuf::Enum>& SchemaEnums();
std::vector<google::protobuf::Type> MakeTypes();
std::vector<google::protobuf::Enum> MakeEnums();

// Random values.
struct GenOpts {
  int budget = 12;      // roughly the number of fields
  int depth = 3;
  bool unknown = true;  // unknown JSON fields
  bool nulls = true;
  bool anycase = false;     // enum names in any case
  bool enum_names = false;  // no enum numbers
};
std::string JsonString(Rng& r, const std::string& raw);
std::string GenText(Rng& r, int maxlen);  // UTF-8
Node GenScalar(Rng& r, char type);
std::string ScalarJson(Rng& r, char type, const Node& n, const GenOpts& o);
std::string AnyCase(Rng& r, const std::string& s);
Node GenMsg(Rng& r, MsgType t, GenOpts* o, int depth);
std::string MsgJson(Rng& r, const Node& n, MsgType t, const GenOpts& o);
// Text form of a scalar as it would appear in a URL.
std::string ScalarUrl(char type, const Node& n);
std::string Ws(Rng& r);

// Is byte offset `at` of a JSON text inside a string literal?
bool InString(const std::string& json, size_t at);

}  // namespace sim
#endif
