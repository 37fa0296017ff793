#include <arithmetic/floating_point/comparison.hpp>

namespace probe
{
auto less4(double a, double b, double c, double d) -> bool { return math::arithmetic::isDefinitelyLessThan(a, b, c, d); }
}  // namespace probe
