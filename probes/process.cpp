#include <concealer/launch.hpp>
#include <string>
#include <vector>

auto probe_launch(const std::vector<std::string> & parameters)
{
  return concealer::ros2_launch("package", "file", parameters);
}
