#include <openscenario_interpreter/scope.hpp>

namespace probe
{
using namespace openscenario_interpreter;

struct A
{
};

struct B
{
};

struct D : public A
{
};

auto name(const std::string & s) { return Name(s); }
auto prefixed(const std::string & s) { return Prefixed<Name>(s); }
auto printed(const std::string & s) -> std::string { return boost::lexical_cast<std::string>(Prefixed<Name>(s)); }
auto stripped(const std::string & s) { return Prefixed<Name>(s).strip<1>(); }

auto ref(const Scope & scope, const std::string & s) -> Object { return scope.ref(s); }
auto refA(const Scope & scope, const std::string & s) -> A & { return scope.ref<A>(s); }
auto refB(const Scope & scope, const std::string & s) -> B & { return scope.ref<B>(s); }
auto makeA() -> Object { return make<A>(); }
auto makeB() -> Object { return make<B>(); }
auto makeD() -> Object { return make<D>(); }
auto root(const OpenScenario * const o) { return Scope(o); }
auto inner(const std::string & name, const Scope & outer) { return Scope(name, outer); }
}  // namespace probe
