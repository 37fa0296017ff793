#include <atomic>
#include <string>
#include <status_monitor/status_monitor.hpp>

namespace probe
{
auto work() -> int;

struct Thunk
{
  auto operator()() const -> int { return work(); }
};

auto touch(common::StatusMonitor & monitor, const char * name) -> void { monitor.touch(name); }
auto override_(common::StatusMonitor & monitor, const std::chrono::seconds & t) -> int
{
  return monitor.overrideThreshold(t, Thunk());
}
}  // namespace probe
