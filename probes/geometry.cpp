#include <vector>
#include <geometry/distance.hpp>
#include <geometry/plane.hpp>
#include <geometry/quaternion/direction_to_quaternion.hpp>
#include <geometry/quaternion/euler_to_quaternion.hpp>
#include <geometry/quaternion/get_angle_difference.hpp>
#include <geometry/quaternion/get_normal_vector.hpp>
#include <geometry/quaternion/get_rotation.hpp>
#include <geometry/quaternion/get_rotation_matrix.hpp>
#include <geometry/quaternion/make_quaternion.hpp>
#include <geometry/quaternion/norm.hpp>
#include <geometry/quaternion/normalize.hpp>
#include <geometry/quaternion/operator.hpp>
#include <geometry/quaternion/quaternion_to_euler.hpp>
#include <geometry/quaternion/slerp.hpp>
#include <geometry/vector3/cross_2d.hpp>
#include <geometry/vector3/hypot.hpp>
#include <geometry/vector3/inner_product.hpp>
#include <geometry/vector3/internal_angle.hpp>
#include <geometry/vector3/is_finite.hpp>
#include <geometry/vector3/norm.hpp>
#include <geometry/vector3/normalize.hpp>
#include <geometry/vector3/operator.hpp>
#include <geometry/vector3/ros_msg_converter.hpp>
#include <geometry/vector3/scalar_to_direction_vector.hpp>
#include <geometry/vector3/truncate.hpp>
#include <geometry/vector3/vector3.hpp>

namespace probe
{
namespace g = math::geometry;
using P = geometry_msgs::msg::Point;
using V = geometry_msgs::msg::Vector3;
using Q = geometry_msgs::msg::Quaternion;

#define EACH(T, n)                                                             \
  auto add_##n(const T & a, const T & b) { return g::operator+(a, b); }        \
  auto sub_##n(const T & a, const T & b) { return g::operator-(a, b); }        \
  auto mul_##n(const T & a, double b) { return g::operator*(a, b); }           \
  auto div_##n(const T & a, double b) { return g::operator/(a, b); }           \
  auto inc_##n(T & a, const T & b) { g::operator+=(a, b); }                    \
  auto eq_##n(const T & a, const T & b) -> bool { return g::operator==(a, b); } \
  auto eig_##n(const T & a, const Eigen::Vector3d & b) { return g::operator+(a, b); } \
  auto dot_##n(const T & a, const T & b) -> double { return g::innerProduct(a, b); } \
  auto cross_##n(const T & a, const T & b) -> double { return g::cross2d(a, b); } \
  auto hypot_##n(const T & a, const T & b) -> double { return g::hypot(a, b); } \
  auto norm_##n(const T & a) -> double { return g::norm(a); }                  \
  auto angle_##n(const T & a, const T & b) -> double { return g::getInternalAngle(a, b); } \
  auto finite_##n(const T & a) -> bool { return g::isfinite(a); }              \
  auto truncate_##n(const T & a, double m) { return g::truncate(a, m); }       \
  auto normalize_##n(const T & a) { return g::normalize(a); }
EACH(P, p)
EACH(V, v)

auto mixed_pv(const P & a, const V & b) { return g::operator+(a, b); }
auto mixed_vp(const V & a, const P & b) { return g::operator+(a, b); }
auto vector(double x, double y, double z) { return g::vector3(x, y, z); }

auto q_add(const Q & a, const Q & b) { return g::operator+(a, b); }
auto q_sub(const Q & a, const Q & b) { return g::operator-(a, b); }
auto q_mul(const Q & a, const Q & b) { return g::operator*(a, b); }
auto q_inc(Q & a, const Q & b) { g::operator+=(a, b); }
auto q_norm(const Q & a) -> double { return g::norm(a); }
auto q_normalize(const Q & a) { return g::normalize(a); }
auto q_make(double x, double y, double z, double w) { return g::makeQuaternion(x, y, z, w); }
auto q_rotation(const Q & a, const Q & b) { return g::getRotation(a, b); }
auto q_matrix(const Q & a) { return g::getRotationMatrix(a); }
auto q_normal(const Q & a) { return g::getNormalVector(a); }
auto q_angle(const Q & a, const Q & b) -> double { return g::getAngleDifference(a, b); }
auto q_slerp(const Q & a, const Q & b, double t) { return g::slerp(a, b, t); }
auto q_of_euler(const V & a) { return g::convertEulerAngleToQuaternion(a); }
auto q_euler(const Q & a) { return g::convertQuaternionToEulerAngle(a); }
auto q_of_direction(const V & a) { return g::convertDirectionToQuaternion(a); }
auto q_direction(double m, const Q & a) { return g::scalarToDirectionVector(m, a); }
}  // namespace probe
