#include <string>
#include <unordered_map>

#include <random_test_runner/metrics/ego_collision_metric.hpp>
#include <random_test_runner/randomizers.hpp>

namespace probe
{
auto metric() { return EgoCollisionMetric(); }
auto collides(EgoCollisionMetric & m, const std::string & npc, double time) -> bool
{
  return m.isThereEgosCollisionWith(npc, time);
}
auto integers(RandomizationEnginePtr e, int64_t a, int64_t b) { return LaneletIdRandomizer(e, a, b); }
auto reals(RandomizationEnginePtr e, double a, double b) { return SpeedRandomizer(e, a, b); }
auto integer(LaneletIdRandomizer & r) { return r.generate(); }
auto real(SpeedRandomizer & r) { return r.generate(); }
auto range(LaneletIdRandomizer & r, int64_t a, int64_t b) { r.setRange(a, b); }
auto rangeOfReals(SpeedRandomizer & r, double a, double b) { r.setRange(a, b); }
}  // namespace probe
