#ifndef VERIF_SHIM_ERROR_LISTENER_H_
#define VERIF_SHIM_ERROR_LISTENER_H_
#include <string>
#include "absl/strings/string_view.h"
#include "google/protobuf/util/converter/location_tracker.h"
SIMV_BEGIN
namespace converter {
class ErrorListener {
 public:
  virtual ~ErrorListener() {}
  virtual void InvalidName(const LocationTrackerInterface& loc, absl::string_view invalid_name, absl::string_view message) = 0;
  virtual void InvalidValue(const LocationTrackerInterface& loc, absl::string_view type_name, absl::string_view value) = 0;
  virtual void MissingField(const LocationTrackerInterface& loc, absl::string_view missing_name) = 0;
  ErrorListener(const ErrorListener&) = delete;
  ErrorListener& operator=(const ErrorListener&) = delete;
 protected:
  ErrorListener() {}
};
}
SIMV_END
#endif
