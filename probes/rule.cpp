#include <openscenario_interpreter/syntax/double.hpp>
#include <openscenario_interpreter/syntax/integer.hpp>
#include <openscenario_interpreter/syntax/rule.hpp>
#include <openscenario_interpreter/syntax/string.hpp>
#include <openscenario_interpreter/syntax/unsigned_integer.hpp>
#include <openscenario_interpreter/syntax/unsigned_short.hpp>
#include <openscenario_interpreter/syntax/boolean.hpp>

namespace probe
{
using namespace openscenario_interpreter;

#define RULE(NAME, T, U) \
  auto rule_##NAME(const Rule & rule, const T & lhs, const U & rhs) { return rule(lhs, rhs); }
using Bool = bool;
RULE(double, double, double)
RULE(Double, Double, Double)
RULE(Integer, Integer, Integer)
RULE(UnsignedInteger, UnsignedInteger, UnsignedInteger)
RULE(UnsignedShort, UnsignedShort, UnsignedShort)
RULE(Boolean, Boolean, Boolean)
RULE(String, String, String)
RULE(valarray, std::valarray<double>, double)
}  // namespace probe
