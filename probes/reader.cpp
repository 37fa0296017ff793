#include <openscenario_interpreter/reader/attribute.hpp>
#include <openscenario_interpreter/reader/content.hpp>
#include <openscenario_interpreter/reader/element.hpp>
#include <openscenario_interpreter/scope.hpp>

namespace probe
{
using namespace openscenario_interpreter;

void sink(const pugi::xml_node &);

#define BOUNDS(MACRO)                                                                                                  \
  MACRO(0_0, 0, 0) MACRO(0_1, 0, 1) MACRO(1_1, 1, 1) MACRO(1_2, 1, 2) MACRO(2_3, 2, 3) MACRO(0_, 0, reader::unbounded) \
  MACRO(1_, 1, reader::unbounded) MACRO(2_, 2, reader::unbounded)

#define TRAVERSE(NAME, MIN, MAX) \
  void traverse_##NAME(const pugi::xml_node & node) { reader::traverse<MIN, MAX>(node, "Child", [](auto && x) { sink(x); }); }
BOUNDS(TRAVERSE)

struct Optional
{
  Optional() = default;
  Optional(const pugi::xml_node &, Scope &);
  Optional(const pugi::xml_node &, Scope &, int);
};

struct Mandatory
{
  Mandatory(const pugi::xml_node &, Scope &);
  Mandatory(const pugi::xml_node &, Scope &, int);
};

auto optional(const pugi::xml_node & node, Scope & scope) { return readElement<Optional>("Child", node, scope); }
auto optionalX(const pugi::xml_node & node, Scope & scope) { return readElement<Optional>("Child", node, scope, 42); }
auto optionalD(const pugi::xml_node & node, Scope & scope, Optional value) { return readElement<Optional>("Child", node, scope, value); }
auto mandatory(const pugi::xml_node & node, Scope & scope) { return readElement<Mandatory>("Child", node, scope); }
auto mandatoryX(const pugi::xml_node & node, Scope & scope) { return readElement<Mandatory>("Child", node, scope, 42); }
auto mandatoryD(const pugi::xml_node & node, Scope & scope, Mandatory value) { return readElement<Mandatory>("Child", node, scope, value); }

#define ELEMENTS(NAME, MIN, MAX) \
  auto elements_##NAME(const pugi::xml_node & node, Scope & scope) { return readElements<Mandatory, MIN, MAX>("Child", node, scope); }
BOUNDS(ELEMENTS)

#define GROUPS(NAME, MIN, MAX) \
  auto groups_##NAME(const pugi::xml_node & node, Scope & scope) { return readGroups<Mandatory, MIN, MAX>(node, scope); }
BOUNDS(GROUPS)

#define ATTRIBUTE(T)                                                                                                                             \
  auto attribute_##T(const pugi::xml_node & node, const Scope & scope) { return readAttribute<T>("attr", node, scope); }                         \
  auto attributeD_##T(const pugi::xml_node & node, const Scope & scope, T value) { return readAttribute<T>("attr", node, scope, std::move(value)); } \
  auto attributeO_##T(const pugi::xml_node & node, const Scope & scope) { return readAttribute<T>("attr", node, scope, std::nullopt); }
ATTRIBUTE(Double)
ATTRIBUTE(String)

auto content_Double(const pugi::xml_node & node, const Scope & scope) { return readContent<Double>(node, scope); }
}  // namespace probe
