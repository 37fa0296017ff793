// Each assertion is an obligation: which types have a property, and which do not.
#include <concealer/member_detector.hpp>
#include <geometry/quaternion/is_like_quaternion.hpp>
#include <geometry/vector3/is_like_vector3.hpp>
#include <list>
#include <map>
#include <openscenario_interpreter/functional/equal_to.hpp>
#include <openscenario_interpreter/type_traits/has_member_function_accomplished.hpp>
#include <openscenario_interpreter/type_traits/has_member_function_description.hpp>
#include <openscenario_interpreter/type_traits/has_member_function_evaluate.hpp>
#include <openscenario_interpreter/type_traits/has_stream_output_operator.hpp>
#include <openscenario_interpreter/type_traits/if_has_member_function_accomplished.hpp>
#include <openscenario_interpreter/type_traits/if_has_member_function_description.hpp>
#include <openscenario_interpreter/type_traits/if_has_member_function_evaluate.hpp>
#include <openscenario_interpreter/type_traits/if_has_stream_output_operator.hpp>
#include <openscenario_interpreter/type_traits/if_not_nothrow_default_constructible.hpp>
#include <openscenario_interpreter/type_traits/iterable.hpp>
#include <openscenario_interpreter/type_traits/must_be_default_constructible.hpp>
#include <openscenario_interpreter/type_traits/requires.hpp>
#include <openscenario_interpreter/utility/assertion_auxiliary.hpp>
#include <string>
#include <utility>
#include <valarray>
#include <vector>

namespace osi = openscenario_interpreter;

#define MEMBER(TRAIT, NAME)                                                                                            \
  namespace member_##NAME                                                                                              \
  {                                                                                                                    \
  struct Nothing {};                                                                                                   \
  struct Plain { auto NAME() -> int; };                                                                                \
  struct Const { auto NAME() const -> std::string; };                                                                  \
  struct Quiet { void NAME() noexcept; };                                                                              \
  struct Static { static auto NAME() -> double; };                                                                     \
  struct Derived : public Plain {};                                                                                    \
  struct Virtual { virtual auto NAME() const -> bool = 0; };                                                           \
  struct Defaulted { auto NAME(int = 0) const -> bool; };                                                              \
  struct Overloaded { auto NAME(int) -> int; auto NAME() -> int; };                                                    \
  struct Callable { struct { auto operator()() const -> int; } NAME; };                                                \
  struct Data { int NAME; };                                                                                           \
  struct Needs { auto NAME(int) -> int; };                                                                             \
  struct Hidden { private: auto NAME() -> int; };                                                                      \
  struct Inherits : private Plain {};                                                                                  \
  struct Longer { auto NAME##_() -> int; };                                                                            \
  static_assert(osi::TRAIT<Plain>::value, #TRAIT ": a type that has the function has it");                             \
  static_assert(osi::TRAIT<Const>::value, #TRAIT ": a type whose function is const has it");                           \
  static_assert(osi::TRAIT<const Const>::value, #TRAIT ": a const type whose function is const has it");               \
  static_assert(osi::TRAIT<Quiet>::value, #TRAIT ": a function that returns nothing counts");                          \
  static_assert(osi::TRAIT<Static>::value, #TRAIT ": a static function counts");                                       \
  static_assert(osi::TRAIT<Derived>::value, #TRAIT ": an inherited function counts");                                  \
  static_assert(osi::TRAIT<Virtual>::value, #TRAIT ": a virtual function counts");                                     \
  static_assert(osi::TRAIT<Defaulted>::value, #TRAIT ": a function that needs no argument counts");                    \
  static_assert(osi::TRAIT<Overloaded>::value, #TRAIT ": an overloaded function that needs no argument counts");       \
  static_assert(osi::TRAIT<Callable>::value, #TRAIT ": a member that can be called counts");                           \
  static_assert(not osi::TRAIT<Nothing>::value, #TRAIT ": a type without the function does not have it");              \
  static_assert(not osi::TRAIT<const Plain>::value, #TRAIT ": a const type whose function changes it does not have it");\
  static_assert(not osi::TRAIT<Data>::value, #TRAIT ": a member that cannot be called does not count");                \
  static_assert(not osi::TRAIT<Needs>::value, #TRAIT ": a function that needs an argument does not count");            \
  static_assert(not osi::TRAIT<Hidden>::value, #TRAIT ": a private function does not count");                          \
  static_assert(not osi::TRAIT<Inherits>::value, #TRAIT ": a function of a private base does not count");              \
  static_assert(not osi::TRAIT<Longer>::value, #TRAIT ": a function of another name does not count");                  \
  static_assert(not osi::TRAIT<int>::value, #TRAIT ": a number does not have it");                                     \
  static_assert(not osi::TRAIT<std::string>::value, #TRAIT ": a text does not have it");                               \
  }

MEMBER(HasMemberFunctionEvaluate, evaluate)
MEMBER(HasMemberFunctionAccomplished, accomplished)
MEMBER(HasMemberFunctionDescription, description)

namespace stream
{
struct Nothing {};
struct Own {};
auto operator<<(std::ostream &, const Own &) -> std::ostream &;
struct Changes {};
auto operator<<(std::ostream &, Changes &) -> std::ostream &;
struct Reads {};
auto operator>>(std::istream &, Reads &) -> std::istream &;
struct Derived : public Own {};
struct Converts { operator int() const; };
struct Explicit { explicit operator int() const; };
enum Unscoped { unscoped };
enum class Scoped { scoped };
static_assert(osi::HasStreamOutputOperator<int>::value, "HasStreamOutputOperator: a number can be written");
static_assert(osi::HasStreamOutputOperator<bool>::value, "HasStreamOutputOperator: a truth value can be written");
static_assert(osi::HasStreamOutputOperator<double>::value, "HasStreamOutputOperator: a double can be written");
static_assert(osi::HasStreamOutputOperator<std::string>::value, "HasStreamOutputOperator: a text can be written");
static_assert(osi::HasStreamOutputOperator<const char *>::value, "HasStreamOutputOperator: a literal can be written");
static_assert(osi::HasStreamOutputOperator<Own>::value, "HasStreamOutputOperator: a type with an operator can be written");
static_assert(osi::HasStreamOutputOperator<const Own>::value, "HasStreamOutputOperator: a const type with an operator can be written");
static_assert(osi::HasStreamOutputOperator<Derived>::value, "HasStreamOutputOperator: a type derived of one with an operator can be written");
static_assert(osi::HasStreamOutputOperator<Converts>::value, "HasStreamOutputOperator: a type that becomes a number can be written");
static_assert(osi::HasStreamOutputOperator<Unscoped>::value, "HasStreamOutputOperator: an unscoped enumeration can be written");
static_assert(not osi::HasStreamOutputOperator<Nothing>::value, "HasStreamOutputOperator: a type without an operator cannot be written");
static_assert(not osi::HasStreamOutputOperator<Changes>::value, "HasStreamOutputOperator: a type whose operator changes it cannot be written");
static_assert(not osi::HasStreamOutputOperator<Reads>::value, "HasStreamOutputOperator: a type that can only be read cannot be written");
static_assert(not osi::HasStreamOutputOperator<Explicit>::value, "HasStreamOutputOperator: a type that becomes a number only if asked cannot be written");
static_assert(not osi::HasStreamOutputOperator<Scoped>::value, "HasStreamOutputOperator: a scoped enumeration cannot be written");
static_assert(not osi::HasStreamOutputOperator<std::vector<int>>::value, "HasStreamOutputOperator: a vector cannot be written");
static_assert(not osi::HasStreamOutputOperator<std::map<int, int>>::value, "HasStreamOutputOperator: a map cannot be written");
}  // namespace stream

namespace range
{
struct Begin { auto begin() const -> int *; };
struct End { auto end() const -> int *; };
struct Both { auto begin() const -> int *; auto end() const -> int *; };
struct Data { int begin, end; };
static_assert(osi::Iterable<std::vector<int>>::value, "Iterable: a vector is");
static_assert(osi::Iterable<std::list<std::string>>::value, "Iterable: a list is");
static_assert(osi::Iterable<std::map<int, double>>::value, "Iterable: a map is");
static_assert(osi::Iterable<const std::vector<int>>::value, "Iterable: a const vector is");
static_assert(osi::Iterable<std::vector<int> &>::value, "Iterable: a reference to a vector is");
static_assert(osi::Iterable<std::string>::value, "Iterable: a text is");
static_assert(osi::Iterable<Both>::value, "Iterable: a type with both ends is");
static_assert(not osi::Iterable<Begin>::value, "Iterable: a type without an end is not");
static_assert(not osi::Iterable<End>::value, "Iterable: a type without a begin is not");
static_assert(not osi::Iterable<Data>::value, "Iterable: a type whose ends are no functions is not");
static_assert(not osi::Iterable<int>::value, "Iterable: a number is not");
static_assert(not osi::Iterable<int *>::value, "Iterable: a pointer is not");
static_assert(not osi::Iterable<std::pair<int, int>>::value, "Iterable: a pair is not");
}  // namespace range

namespace vector
{
namespace g = math::geometry;
struct Vector { double x, y, z; };
struct Quaternion { double x, y, z, w; };
struct Flat { double x, y; };
struct NoX { double y, z; };
struct NoY { double x, z; };
struct NoZ { double x, y, w; };
struct QNoX { double y, z, w; };
struct QNoY { double x, z, w; };
struct Integers { int x, y, z; };
struct Derived : public Vector { double t; };
struct DerivedW : public Vector { double w; };
struct Functions { auto x() const -> double; auto y() const -> double; auto z() const -> double; };
struct WithFunction { double x, y, z; auto w() const -> double; };
class Hidden { double x, y, z; };
class HiddenW { double x, y, z, w; };
struct References { double &x, &y, &z; };
static_assert(g::IsLikeVector3<Vector>::value, "IsLikeVector3: a type with x, y and z is");
static_assert(g::IsLikeVector3<const Vector>::value, "IsLikeVector3: a const type with x, y and z is");
static_assert(g::IsLikeVector3<Integers>::value, "IsLikeVector3: a type with integers x, y and z is");
static_assert(g::IsLikeVector3<Derived>::value, "IsLikeVector3: a type that inherits x, y and z is");
static_assert(g::IsLikeVector3<References>::value, "IsLikeVector3: a type with references x, y and z is");
static_assert(not g::IsLikeVector3<Quaternion>::value, "IsLikeVector3: a type with w is not");
static_assert(not g::IsLikeVector3<const Quaternion>::value, "IsLikeVector3: a const type with w is not");
static_assert(not g::IsLikeVector3<DerivedW>::value, "IsLikeVector3: a type that inherits x, y and z and adds w is not");
static_assert(not g::IsLikeVector3<Flat>::value, "IsLikeVector3: a type without z is not");
static_assert(not g::IsLikeVector3<NoX>::value, "IsLikeVector3: a type without x is not");
static_assert(not g::IsLikeVector3<NoY>::value, "IsLikeVector3: a type without y is not");
static_assert(not g::IsLikeVector3<NoZ>::value, "IsLikeVector3: a type with w but without z is not");
static_assert(not g::IsLikeVector3<Functions>::value, "IsLikeVector3: a type whose x, y and z are functions is not");
static_assert(not g::IsLikeVector3<Hidden>::value, "IsLikeVector3: a type whose x, y and z are private is not");
static_assert(not g::IsLikeVector3<double>::value, "IsLikeVector3: a number is not");
static_assert(not g::IsLikeVector3<std::vector<double>>::value, "IsLikeVector3: a list of numbers is not");
static_assert(g::IsLikeQuaternion<Quaternion>::value, "IsLikeQuaternion: a type with x, y, z and w is");
static_assert(g::IsLikeQuaternion<const Quaternion>::value, "IsLikeQuaternion: a const type with x, y, z and w is");
static_assert(g::IsLikeQuaternion<DerivedW>::value, "IsLikeQuaternion: a type that inherits x, y and z and adds w is");
static_assert(not g::IsLikeQuaternion<Vector>::value, "IsLikeQuaternion: a type without w is not");
static_assert(not g::IsLikeQuaternion<Derived>::value, "IsLikeQuaternion: a type with t in place of w is not");
static_assert(not g::IsLikeQuaternion<NoZ>::value, "IsLikeQuaternion: a type without z is not");
static_assert(not g::IsLikeQuaternion<QNoX>::value, "IsLikeQuaternion: a type without x is not");
static_assert(not g::IsLikeQuaternion<QNoY>::value, "IsLikeQuaternion: a type without y is not");
static_assert(not g::IsLikeQuaternion<WithFunction>::value, "IsLikeQuaternion: a type whose w is a function is not");
static_assert(not g::IsLikeQuaternion<HiddenW>::value, "IsLikeQuaternion: a type whose members are private is not");
static_assert(not g::IsLikeQuaternion<double>::value, "IsLikeQuaternion: a number is not");
static_assert(g::HasMemberW<Quaternion>::value, "HasMemberW: a type with w has it");
static_assert(not g::HasMemberW<Vector>::value, "HasMemberW: a type without w does not have it");
}  // namespace vector

// every detector is true for a type that has its member, and false for one that has all other members
namespace detector
{
struct Empty {};
#define DETECT(KIND, NAME)                                                                                     \
  static_assert(concealer::KIND##_##NAME<Only_##NAME>::value, #KIND "_" #NAME ": a type that has the member has it"); \
  static_assert(not concealer::KIND##_##NAME<Empty>::value, #KIND "_" #NAME ": an empty type does not have it");      \
  static_assert(not concealer::KIND##_##NAME<But_##NAME>::value, #KIND "_" #NAME ": a type that has every other member does not have it");
#define MEMBERS(X) X(allow_goal_modification) X(distance) X(option) X(responses) X(status) X(success)
#define ONLY(NAME) struct Only_##NAME { int NAME; };
MEMBERS(ONLY)
struct But_allow_goal_modification : Only_distance, Only_option, Only_responses, Only_status, Only_success {};
struct But_distance : Only_allow_goal_modification, Only_option, Only_responses, Only_status, Only_success {};
struct But_option : Only_allow_goal_modification, Only_distance, Only_responses, Only_status, Only_success {};
struct But_responses : Only_allow_goal_modification, Only_distance, Only_option, Only_status, Only_success {};
struct But_status : Only_allow_goal_modification, Only_distance, Only_option, Only_responses, Only_success {};
struct But_success : Only_allow_goal_modification, Only_distance, Only_option, Only_responses, Only_status {};
DETECT(DetectMember, allow_goal_modification)
DETECT(DetectMember, distance)
DETECT(DetectMember, option)
DETECT(DetectMember, responses)
DETECT(DetectMember, status)
DETECT(DetectMember, success)
#define MODULES(X)                                                                                                    \
  X(AVOIDANCE_BY_LC_LEFT) X(AVOIDANCE_BY_LC_RIGHT) X(AVOIDANCE_LEFT) X(AVOIDANCE_RIGHT) X(BLIND_SPOT)                 \
  X(COMFORTABLE_STOP) X(CROSSWALK) X(DETECTION_AREA) X(EMERGENCY_STOP) X(EXT_REQUEST_LANE_CHANGE_LEFT)                \
  X(EXT_REQUEST_LANE_CHANGE_RIGHT) X(GOAL_PLANNER) X(INTERSECTION) X(INTERSECTION_OCCLUSION) X(LANE_CHANGE_LEFT)      \
  X(LANE_CHANGE_RIGHT) X(NONE) X(NO_DRIVABLE_LANE) X(NO_STOPPING_AREA) X(OCCLUSION_SPOT) X(PULL_OUT) X(PULL_OVER)     \
  X(START_PLANNER) X(TRAFFIC_LIGHT) X(UNKNOWN)
#define MODULE(NAME)                                                     \
  struct Only_##NAME { static constexpr int NAME = 1; };                 \
  struct But_##NAME { static constexpr int OTHER_##NAME = 1, NAME##_ = 2; }; \
  DETECT(DetectStaticMember, NAME)
MODULES(MODULE)
}  // namespace detector

// what is constrained by REQUIRES can be called exactly if every condition holds
namespace requires_
{
template <typename T, REQUIRES(std::is_integral<T>)>
auto one(T) -> int;
template <typename T, REQUIRES(std::is_integral<T>, std::is_signed<T>)>
auto two(T) -> int;
#define CALLABLE(NAME)                                                                               \
  template <typename T, typename = void> struct can_##NAME : std::false_type {};                     \
  template <typename T> struct can_##NAME<T, std::void_t<decltype(NAME(std::declval<T>()))>> : std::true_type {};
CALLABLE(one)
CALLABLE(two)
static_assert(can_one<int>::value, "REQUIRES: a condition that holds admits the call");
static_assert(not can_one<double>::value, "REQUIRES: a condition that does not hold rejects the call");
static_assert(can_two<int>::value, "REQUIRES: two conditions that hold admit the call");
static_assert(not can_two<unsigned>::value, "REQUIRES: the second of two conditions that does not hold rejects the call");
static_assert(not can_two<double>::value, "REQUIRES: the first of two conditions that does not hold rejects the call");
}  // namespace requires_

// which way is chosen, and what it gives
namespace chosen
{
struct Nothing {};
struct Accomplished { auto accomplished() -> bool; };
static_assert(std::is_same<decltype(osi::IfHasMemberFunctionAccomplished<Accomplished>::invoke(std::declval<Accomplished &>())), bool>::value, "IfHasMemberFunctionAccomplished: what it says is what the function says");
static_assert(std::is_convertible<decltype(osi::IfHasMemberFunctionAccomplished<Nothing>::invoke(std::declval<const Nothing &>())), bool>::value, "IfHasMemberFunctionAccomplished: it says something without the function");
static_assert(std::is_same<decltype(osi::IfHasStreamOutputOperator<Nothing>::invoke(std::declval<std::ostream &>(), std::declval<const Nothing &>())), std::ostream &>::value, "IfHasStreamOutputOperator: it returns the stream without the operator");
static_assert(std::is_same<decltype(osi::IfHasStreamOutputOperator<int>::invoke(std::declval<std::ostream &>(), std::declval<const int &>())), std::ostream &>::value, "IfHasStreamOutputOperator: it returns the stream with the operator");
struct Describes { auto description() const -> std::string; };
static_assert(std::is_convertible<decltype(osi::IfHasMemberFunctionDescription<Describes>::invoke(std::declval<const Describes &>())), std::string>::value, "IfHasMemberFunctionDescription: what it says is what the function says");
static_assert(std::is_convertible<decltype(osi::IfHasMemberFunctionDescription<Nothing>::invoke(std::declval<const Nothing &>())), std::string>::value, "IfHasMemberFunctionDescription: it says something without the function");
static_assert(not noexcept(osi::IfHasMemberFunctionDescription<Describes>::invoke(std::declval<const Describes &>())), "IfHasMemberFunctionDescription: an error of the function gets out");
static_assert(not noexcept(osi::IfHasMemberFunctionAccomplished<Accomplished>::invoke(std::declval<Accomplished &>())), "IfHasMemberFunctionAccomplished: an error of the function gets out");
}  // namespace chosen

// doubles are compared with a tolerance, anything else as it is
namespace equal
{
template <typename T, typename = void> struct tolerant : std::true_type {};
template <typename T> struct tolerant<T, std::enable_if_t<std::is_base_of<std::equal_to<T>, osi::equal_to<T>>::value>> : std::false_type {};
static_assert(tolerant<double>::value, "equal_to: doubles are compared with a tolerance");
static_assert(tolerant<float>::value, "equal_to: floats are compared with a tolerance");
static_assert(tolerant<std::valarray<double>>::value, "equal_to: lists of doubles are compared with a tolerance");
static_assert(not tolerant<int>::value, "equal_to: integers are compared as they are");
static_assert(not tolerant<std::string>::value, "equal_to: texts are compared as they are");
static_assert(not tolerant<bool>::value, "equal_to: truth values are compared as they are");
}  // namespace equal

// an optional element has to be default constructible: this one is
namespace optional
{
struct Default { Default() = default; };
struct Needs { explicit Needs(int); };
ASSERT_IS_OPTIONAL_ELEMENT(Default);
}  // namespace optional

// what each of them does is read from these
namespace probe
{
struct Able
{
  auto evaluate() -> int;
  auto accomplished() -> bool;
  auto description() const -> std::string;
};
struct Unable {};
struct Shown { int number; };
auto operator<<(std::ostream &, const Shown &) -> std::ostream &;
struct Needs { explicit Needs(int); };
struct Simple { Simple() noexcept; };
struct Fails { Fails() noexcept(false); };

auto evaluate_able(Able & x, const int & other) { return osi::IfHasMemberFunctionEvaluate<Able>::invoke(x, other); }
auto evaluate_unable(Unable & x, const int & other) { return osi::IfHasMemberFunctionEvaluate<Unable>::invoke(x, other); }
auto accomplished_able(Able & x) { return osi::IfHasMemberFunctionAccomplished<Able>::invoke(x); }
auto accomplished_unable(Unable & x) { return osi::IfHasMemberFunctionAccomplished<Unable>::invoke(x); }
auto description_able(const Able & x) { return osi::IfHasMemberFunctionDescription<Able>::invoke(x); }
auto description_unable(const Unable & x) -> std::string { return osi::IfHasMemberFunctionDescription<Unable>::invoke(x); }
auto print_able(std::ostream & os, const Shown & x) -> std::ostream & { return osi::IfHasStreamOutputOperator<Shown>::invoke(os, x); }
auto print_unable(std::ostream & os, const Unable & x) -> std::ostream & { return osi::IfHasStreamOutputOperator<Unable>::invoke(os, x); }
auto make_simple(const osi::SyntaxError & e) { return osi::MustBeDefaultConstructible<Simple>::makeItOrThrow(e); }
auto make_fails(const osi::SyntaxError & e) { return osi::MustBeDefaultConstructible<Fails>::makeItOrThrow(e); }
auto make_needs(const osi::SyntaxError & e) { return osi::MustBeDefaultConstructible<Needs>::makeItOrThrow(e); }
auto error_simple(const std::string & a, const std::string & b) { return osi::IfNotNothrowDefaultConstructible<Simple>::error(a, b); }
auto error_fails(const std::string & a, const std::string & b) { return osi::IfNotNothrowDefaultConstructible<Fails>::error(a, b); }
auto error_needs(const std::string & a, const std::string & b) { return osi::IfNotNothrowDefaultConstructible<Needs>::error(a, b); }
}  // namespace probe
