#include "core.h"
namespace sim {
std::vector<Choice> TransScenariosFor(int prop);
const Scenario* FindTransScenario(const std::string& n);
std::vector<Choice> ScenariosFor(int prop) { return TransScenariosFor(prop); }
const Scenario* FindScenario(const std::string& n) { return FindTransScenario(n); }
}  // namespace sim
