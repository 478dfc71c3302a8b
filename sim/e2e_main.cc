#include "core.h"
namespace sim {
const Scenario* TypesScenario();
const Scenario* E2eScenario();
std::vector<Choice> ScenariosFor(int prop) {
  if (prop == 16) return {{TypesScenario(), 1}};
  if (prop == 17) return {{E2eScenario(), 1}};
  if (prop == 22) return {{TypesScenario(), 1}, {E2eScenario(), 1}};
  return {};
}
const Scenario* FindScenario(const std::string& n) {
  if (n == TypesScenario()->name) return TypesScenario();
  if (n == E2eScenario()->name) return E2eScenario();
  return nullptr;
}
}  // namespace sim
