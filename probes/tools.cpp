#include <arithmetic/floating_point/comparison.hpp>
#include <cstdint>
#include <filesystem>
#include <list>
#include <openscenario_interpreter/compatibility.hpp>
#include <openscenario_interpreter/iterator/circular_iterator.hpp>
#include <openscenario_interpreter/iterator/size.hpp>
#include <openscenario_interpreter/reader/content.hpp>
#include <openscenario_interpreter/string/split.hpp>
#include <openscenario_interpreter/utility/circular_check.hpp>
#include <openscenario_interpreter/utility/execution_timer.hpp>
#include <string>
#include <vector>

namespace probe
{
// numbers
auto approximately(double a, double b) -> bool { return math::arithmetic::isApproximatelyEqualTo(a, b); }
auto essentially(double a, double b) -> bool { return math::arithmetic::isEssentiallyEqualTo(a, b); }
auto less2(double a, double b) -> bool { return math::arithmetic::isDefinitelyLessThan(a, b); }
auto less3(double a, double b, double c) -> bool { return math::arithmetic::isDefinitelyLessThan(a, b, c); }
auto greater(double a, double b) -> bool { return math::arithmetic::isDefinitelyGreaterThan(a, b); }
auto approximatelyF(float a, float b) -> bool { return math::arithmetic::isApproximatelyEqualTo(a, b); }

// iterators
using Ring = openscenario_interpreter::CircularIterator<std::list<int>>;
auto ringAt(std::list<int> & xs, std::list<int>::iterator current) -> int
{
  auto ring = Ring(xs.begin(), xs.end(), current);
  return *ring;
}
auto ringNext(std::list<int> & xs, std::list<int>::iterator current) -> int
{
  auto ring = Ring(xs.begin(), xs.end(), current);
  return *++ring;
}
auto ringAfter(std::list<int> & xs, std::list<int>::iterator current) -> int
{
  auto ring = Ring(xs.begin(), xs.end(), current);
  ring++;
  return *ring;
}
auto ringBefore(std::list<int> & xs, std::list<int>::iterator current) -> int
{
  auto ring = Ring(xs.begin(), xs.end(), current);
  return *ring++;
}
auto ringSet(std::list<int> & xs, std::list<int>::iterator current, std::list<int>::iterator other) -> int
{
  auto ring = Ring(xs.begin(), xs.end(), current);
  ring = other;
  return *ring;
}
auto ringIs(std::list<int> & xs, std::list<int>::iterator current) -> bool
{
  auto ring = Ring(xs.begin(), xs.end(), current);
  return static_cast<std::list<int>::const_iterator>(ring) == std::list<int>::const_iterator(current);
}
auto sizeOf(const std::list<int> & xs) -> std::int64_t { return openscenario_interpreter::iterator::size(xs); }

// texts
auto split(const std::string & s) -> std::vector<std::string> { return openscenario_interpreter::string::split(s); }
struct Text { auto get() const -> const char *; };
struct Node { auto text() const -> Text; };
struct Scope {};
auto contentText(const Node & n, const Scope & s) -> std::string { return openscenario_interpreter::readContent<std::string>(n, s); }
auto contentInt(const Node & n, const Scope & s) -> int { return openscenario_interpreter::readContent<int>(n, s); }

// graphs
auto children(int) -> std::vector<int>;
struct Children { auto operator()(int x) const -> std::vector<int> { return children(x); } };
auto circular(int x) -> bool { return openscenario_interpreter::utility::circular_check(x, Children()); }

// time
auto work() -> void;
struct Thunk { auto operator()() const -> void { work(); } };
using Timer = openscenario_interpreter::utility::ExecutionTimer<>;
auto timed(Timer & timer, const std::string & tag) { return timer.invoke(tag, Thunk()); }
auto saved(Timer & timer, const std::filesystem::path & path) -> void { timer.save(path); }
auto statistics(Timer & timer, const std::string & tag) -> void { timer.getStatistics(tag); }
}  // namespace probe
