// Shared pieces of the translator scenarios: a simulated connection delivering
// bytes in arbitrary pieces, and the expected result of applying a body and
// URL bindings to a request message.
#ifndef VERIF_SIM_TRANSMODEL_H_
#define VERIF_SIM_TRANSMODEL_H_
#include <deque>
#include <string>
#include <vector>
#include "core.h"
#include "jsonmodel.h"
#include "grpc_transcoding/transcoder_input_stream.h"

namespace sim {

// A byte source fed by the harness. Every arriving piece is one buffer; the
// previous buffer is scribbled over and released on the next call.
class ByteSource : public google::grpc::transcoding::TranscoderInputStream {
 public:
  std::string all;        // everything this source will ever carry
  size_t arrived = 0;     // how much of it has arrived
  bool closed = false;
  uint64_t tags = 0;      // properties charged with misuse of the source
  std::deque<size_t> cuts;  // piece boundaries not passed yet
  size_t pos = 0;
  bool drained = false;   // Next() reported "nothing now" or end
  long calls = 0;
  ~ByteSource() override { Drop(); }
  void Feed(size_t n, bool merge);
  void Close() { closed = true; }
  void NewCall() { calls = 0; }
  bool Next(const void** data, int* size) override;
  void BackUp(int count) override;
  bool Skip(int count) override;
  int64_t ByteCount() const override { return static_cast<int64_t>(pos); }
  int64_t BytesAvailable() const override { return static_cast<int64_t>(arrived - pos); }
  bool Finished() const override { return closed; }

 private:
  void Drop();
  void Budget();
  char* buf_ = nullptr;
  size_t copied = 0;
  size_t len_ = 0;
  int last_ = -1;
};

// Body path of a call: where the element lands in sim.Item.
struct BodyPath { std::string path; MsgType msg; char type; bool rep; };
const std::vector<BodyPath>& BodyPaths();
const BodyPath* FindBodyPath(const std::string& p);
const std::string& PickBodyPath(Rng& r);
// Item when a null arrives at the path.
std::string NullAtPath(const std::string& path);
// Item holding `elem` at the path.
Node WrapAtPath(const std::string& path, const Node& elem);
struct BindVal { std::string path, canon, url; bool bad = false; };
// Fields a binding may name.
const std::vector<std::string>& BindPaths();
const std::string& PickBindPath(Rng& r);  // also deeper ones
const FieldDef* BindField(const std::string& path);
// Merges a binding into a message: a singular value of the body wins, then the
// last one of the URL; a repeated one is appended.
void ApplyBinding(Node* item, const BindVal& b, bool in_body);
bool HasValue(Node* item, const std::string& path, std::string* value);

// One request element: JSON text with its canonical value (already wrapped).
struct ElemGen { std::string json, canon; bool late = false, invalid = false; };
struct BindHint { std::string path, canon; };
ElemGen GenElem(Rng& r, const std::string& path, const std::vector<BindHint>& hints, int budget, bool anycase, bool reject);
// An element that is well-formed JSON but not valid for the type.
std::string InvalidElem(Rng& r, const std::string& path);

std::string Frame(const std::string& msg, unsigned char flag = 0);
std::string Hex(const std::string& s);
std::string Quote(const std::string& s, size_t max = 200);

}  // namespace sim
#endif
