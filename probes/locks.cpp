#include <concealer/task_queue.hpp>
#include <status_monitor/status_monitor.hpp>

namespace probe
{
auto touch(common::StatusMonitor & monitor) { monitor.touch("name"); }

auto override_threshold(common::StatusMonitor & monitor)
{
  monitor.overrideThreshold(std::chrono::seconds(1), []() {});
}

auto delay(concealer::TaskQueue & queue)
{
  queue.delay([]() {});
}
}  // namespace probe
