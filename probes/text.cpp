#include <iterator>
#include <string>
#include <vector>
#include <list>
#include <map>
#include <tuple>
#include <scenario_simulator_exception/exception.hpp>
#include <scenario_simulator_exception/concatenate.hpp>
#include <scenario_simulator_exception/fold.hpp>
#include <openscenario_interpreter/functional/curry.hpp>
#include <openscenario_interpreter/functional/fold.hpp>
#include <openscenario_interpreter/utility/demangle.hpp>
#include <openscenario_interpreter/utility/overload.hpp>
#include <openscenario_interpreter/utility/print.hpp>
#include <openscenario_interpreter/error.hpp>

namespace probe
{
struct Token
{
  int n;
};

auto operator<<(std::ostream & os, const Token & token) -> std::ostream &
{
  return os << "<" << token.n << ">";
}

#define KIND(NAME)                                                                             \
  auto throw##NAME(const std::string & a, int b, const Token & c) -> void                      \
  {                                                                                            \
    throw common::NAME(a, b, c, " end");                                                       \
  }                                                                                            \
  auto short##NAME(const std::string & a) -> void { throw common::NAME(a); }                   \
  auto caught##NAME(const std::string & a, int b) -> std::string                               \
  {                                                                                            \
    try {                                                                                      \
      throw common::NAME(a, b);                                                                \
    } catch (const common::Error & error) {                                                    \
      return error.what();                                                                     \
    }                                                                                          \
  }                                                                                            \
  auto standard##NAME(const std::string & a, int b) -> std::string                             \
  {                                                                                            \
    try {                                                                                      \
      throw common::NAME(a, b);                                                                \
    } catch (const std::runtime_error & error) {                                               \
      return error.what();                                                                     \
    }                                                                                          \
  }                                                                                            \
  auto kindOf##NAME(const std::string & a) -> int                                              \
  {                                                                                            \
    try {                                                                                      \
      throw common::NAME(a);                                                                   \
    } catch (const common::AutowareError &) {                                                  \
      return 1;                                                                                \
    } catch (const common::SemanticError &) {                                                  \
      return 2;                                                                                \
    } catch (const common::SimulationError &) {                                                \
      return 3;                                                                                \
    } catch (const common::SpecificationViolation &) {                                         \
      return 4;                                                                                \
    } catch (const common::SyntaxError &) {                                                    \
      return 5;                                                                                \
    } catch (const common::Error &) {                                                          \
      return 6;                                                                                \
    }                                                                                          \
  }

KIND(AutowareError)
KIND(SemanticError)
KIND(SimulationError)
KIND(SpecificationViolation)
KIND(SyntaxError)
KIND(Error)
#undef KIND

auto macroSemantic(const std::string & a, int b) -> void { THROW_SEMANTIC_ERROR(a, b); }
auto macroSimulation(const std::string & a, int b) -> void { THROW_SIMULATION_ERROR(a, b); }
auto macroViolation(const std::string & a, int b) -> void { THROW_SPECIFICATION_VIOLATION(a, b); }
auto macroSyntax(const std::string & a, int b) -> void { THROW_SYNTAX_ERROR(a, b); }

auto concatenate1(int a) { return common::concatenate(a); }
auto concatenate2(int a, const std::string & b) { return common::concatenate(a, b); }
auto concatenate4(int a, const std::string & b, const Token & c, double d)
{
  return common::concatenate(a, b, c, d);
}

// f is no operation of arithmetic: it neither commutes nor associates
auto f(int a, int b) -> int;

struct F
{
  auto operator()(int a, int b) const -> int { return f(a, b); }
};

auto left1(int a) -> int { return common::fold_left(F(), a); }
auto left2(int a, int b) -> int { return common::fold_left(F(), a, b); }
auto left4(int a, int b, int c, int d) -> int { return common::fold_left(F(), a, b, c, d); }
auto right1(int a) -> int { return common::fold_right(F(), a); }
auto right2(int a, int b) -> int { return common::fold_right(F(), a, b); }
auto right4(int a, int b, int c, int d) -> int { return common::fold_right(F(), a, b, c, d); }

namespace osi = openscenario_interpreter;
auto osiLeft1(int a) -> int { return osi::fold_left(F(), a); }
auto osiLeft2(int a, int b) -> int { return osi::fold_left(F(), a, b); }
auto osiLeft4(int a, int b, int c, int d) -> int { return osi::fold_left(F(), a, b, c, d); }
auto osiRight1(int a) -> int { return osi::fold_right(F(), a); }
auto osiRight2(int a, int b) -> int { return osi::fold_right(F(), a, b); }
auto osiRight4(int a, int b, int c, int d) -> int { return osi::fold_right(F(), a, b, c, d); }
auto osiFold1(int a) -> int { return osi::fold(F(), a); }
auto osiFold2(int a, int b) -> int { return osi::fold(F(), a, b); }
auto osiFold4(int a, int b, int c, int d) -> int { return osi::fold(F(), a, b, c, d); }

auto g(int a, int b, int c, int d) -> int;
auto curried4(int a, int b, int c, int d) -> int
{
  return osi::curry2([](int w, int x, int y, int z) { return g(w, x, y, z); })(a, b)(c, d);
}
auto curried2(int a, int b) -> int { return osi::curry2(F())(a)(b); }
// what it was given first is kept: a later change of the variable is none of it
auto curriedKeeps(int a, int b, int c) -> int
{
  auto v = a;
  auto partial = osi::curry2(F())(v);
  v = c;
  return partial(b);
}
auto curriedTwice(int a, int b, int c) -> int
{
  const auto partial = osi::curry2(F())(a);
  const auto first = partial(b);
  return f(first, partial(c));
}

struct P { int n; };
struct Q { int n; };
struct R { int n; };
auto overloaded() 
{
  return osi::overload(
    [](const P & p) { return f(1, p.n); }, [](const Q & q) { return f(2, q.n); },
    [](const R & r) { return f(3, r.n); });
}
auto overloadP(int n) -> int { return overloaded()(P{n}); }
auto overloadQ(int n) -> int { return overloaded()(Q{n}); }
auto overloadR(int n) -> int { return overloaded()(R{n}); }
auto overloadOnly(int n) -> int { return osi::overload([](const P & p) { return f(1, p.n); })(P{n}); }

auto printInt(std::ostream & os, int a) -> std::ostream & { return osi::print_to(os, a); }
auto printToken(std::ostream & os, const Token & a) -> std::ostream & { return osi::print_to(os, a); }
auto printVector(std::ostream & os, const std::vector<int> & xs) -> std::ostream &
{
  return osi::print_to(os, xs);
}
auto printList(std::ostream & os, const std::list<Token> & xs) -> std::ostream &
{
  return osi::print_to(os, xs);
}
auto printNested(std::ostream & os, const std::vector<std::vector<int>> & xs) -> std::ostream &
{
  return osi::print_to(os, xs);
}
auto printTwice(std::ostream & os, const std::vector<int> & xs, const std::vector<int> & ys)
  -> std::ostream &
{
  osi::print_to(os, xs);
  return osi::print_to(os, ys);
}
auto printKeys(std::ostream & os, const std::vector<std::pair<std::string, int>> & xs)
  -> std::ostream &
{
  return osi::print_keys_to(os, xs);
}

auto typenameOf(const char * name) -> std::string { return osi::makeTypename(name); }
auto typenameOfInfo(const std::type_info & info) -> std::string { return osi::makeTypename(info); }
}  // namespace probe
