#include "core.h"
namespace sim {
std::vector<Choice> StreamScenariosFor(int prop);
const Scenario* FindStreamScenario(const std::string& n);
std::vector<Choice> ScenariosFor(int prop) { return StreamScenariosFor(prop); }
const Scenario* FindScenario(const std::string& n) { return FindStreamScenario(n); }
}  // namespace sim
