#include <openscenario_interpreter/object.hpp>
#include <functional>
#include <vector>

namespace probe
{
using namespace openscenario_interpreter;

struct Plain
{
  int v;

  explicit Plain(int v) : v(v) {}
};

struct Base
{
  int b = 0;
};

struct Full : public Base
{
  int v;

  explicit Full(int v) : v(v) {}

  auto evaluate() -> Object { return make<Plain>(v); }

  auto accomplished() -> bool { return v == 1; }

  auto description() const -> std::string { return v == 1 ? "one" : "other"; }
};

auto operator<<(std::ostream & os, const Full & full) -> std::ostream &
{
  return os << (full.v == 1 ? "full one" : "full other");
}

struct Derived : public Full
{
  explicit Derived(int v) : Full(v) {}
};

struct Evaluated
{
  auto evaluate() const -> Object { return unspecified; }
};

struct Told
{
  auto description() const -> std::string { return "told"; }
};

struct Done
{
  auto accomplished() const -> bool { return true; }
};

#define TYPE(T, U)                                                        \
  auto make##T(int v) -> Object { return make<T>(v); }                    \
  auto is##T(const Object & o) { return o.is<T>(); }                      \
  auto fis##T(const Object & o) { return is<T>()(o); }                    \
  auto also##T(const Object & o) { return o.is_also<T>(); }               \
  auto falso##T(const Object & o) { return is_also<T>()(o); }             \
  auto as##T(const Object & o) -> T & { return o.as<T>(); }
TYPE(Plain, _)
TYPE(Full, _)
TYPE(Derived, _)
#undef TYPE
auto isBase(const Object & o) { return o.is<Base>(); }
auto fisBase(const Object & o) { return is<Base>()(o); }
auto alsoBase(const Object & o) { return o.is_also<Base>(); }
auto falsoBase(const Object & o) { return is_also<Base>()(o); }
auto asBase(const Object & o) -> Base & { return o.as<Base>(); }

auto isObject(const Object & o) { return is<Object>()(o); }
auto alsoObject(const Object & o) { return is_also<Object>()(o); }
auto makeEvaluated(int) -> Object { return make<Evaluated>(); }
auto makeTold(int) -> Object { return make<Told>(); }
auto makeDone(int) -> Object { return make<Done>(); }
auto moved(int v) -> Object { return make(Plain(v)); }
auto copied(int v) -> Object
{
  Plain plain(v);
  return make(plain);
}
auto rebound(Object & o, int v) -> void { o.rebind<Full>(v); }
auto null() -> Object { return {}; }

auto evaluate(const Object & o) -> Object { return o.evaluate(); }
auto accomplished(const Object & o) -> bool { return o.accomplished(); }
auto description(const Object & o) -> std::string { return o.description(); }
auto print(std::ostream & os, const Object & o) -> std::ostream & { return os << o; }
auto type(const Object & o) -> const std::type_info & { return o.type(); }
auto typename_(const char * s) { return makeTypename(s); }
auto demangled(const char * s) { return demangle(s); }

struct Any : public Object
{
  using Object::Object;
};

DEFINE_LAZY_VISITOR(Any, CASE(Derived), CASE(Full), CASE(Plain), );

auto visit(Any & any, int k) -> int
{
  return apply<int>([](auto && x, auto && k) { return x.v + k; }, any, k);
}
auto unspec() -> const Object & { return unspecified; }
auto isUnspecified(const Object & o) { return o.is<Unspecified>(); }
}  // namespace probe
