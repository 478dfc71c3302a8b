#ifndef VERIF_SHIM_LOCATION_TRACKER_H_
#define VERIF_SHIM_LOCATION_TRACKER_H_
#include <string>
#include "simv_ns.h"
SIMV_BEGIN
namespace converter {
class LocationTrackerInterface {
 public:
  virtual ~LocationTrackerInterface() {}
  virtual std::string ToString() const = 0;
  LocationTrackerInterface(const LocationTrackerInterface&) = delete;
  LocationTrackerInterface& operator=(const LocationTrackerInterface&) = delete;
 protected:
  LocationTrackerInterface() {}
};
}
SIMV_END
#endif
