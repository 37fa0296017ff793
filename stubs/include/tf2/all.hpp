#pragma once
#include <geometry_msgs/msg/pose.hpp>
#include <geometry_msgs/msg/transform_stamped.hpp>
#include <geometry_msgs/msg/pose_stamped.hpp>
#include <rclcpp/rclcpp.hpp>
namespace tf2
{
class Quaternion;
class Vector3 { public: Vector3(); Vector3(double, double, double); double x() const; double y() const; double z() const; double getX() const; double getY() const; double getZ() const; double length() const; Vector3 operator+(const Vector3 &) const; Vector3 operator-(const Vector3 &) const; Vector3 operator*(double) const; friend Vector3 operator+(const Vector3 &, double); double dot(const Vector3 &) const; };
Vector3 operator*(double, const Vector3 &);
class Quaternion { public: Quaternion(); Quaternion(double, double, double, double); Quaternion(const Vector3 &, double); double x() const; double y() const; double z() const; double w() const; double getX() const; double getY() const; double getZ() const; double getW() const; void setRPY(double, double, double); Quaternion inverse() const; Quaternion & normalize(); Quaternion operator*(const Quaternion &) const; double getAngle() const; };
Vector3 quatRotate(const Quaternion &, const Vector3 &);
class Matrix3x3 { public: Matrix3x3(); explicit Matrix3x3(const Quaternion &); void getRPY(double &, double &, double &, unsigned = 1) const; Vector3 operator*(const Vector3 &) const; Matrix3x3 inverse() const; Matrix3x3 transpose() const; };
class Transform { public: Transform(); Transform(const Quaternion &, const Vector3 & = Vector3()); Transform inverse() const; Transform operator*(const Transform &) const; Vector3 operator*(const Vector3 &) const; Quaternion getRotation() const; Vector3 getOrigin() const; void setOrigin(const Vector3 &); void setRotation(const Quaternion &); };
void fromMsg(const geometry_msgs::msg::Quaternion &, Quaternion &);
void fromMsg(const geometry_msgs::msg::Point &, Vector3 &);
void fromMsg(const geometry_msgs::msg::Vector3 &, Vector3 &);
void fromMsg(const geometry_msgs::msg::Pose &, Transform &);
void fromMsg(const geometry_msgs::msg::Transform &, Transform &);
geometry_msgs::msg::Quaternion toMsg(const Quaternion &);
geometry_msgs::msg::Vector3 toMsg(const Vector3 &);
geometry_msgs::msg::Transform toMsg(const Transform &);
void toMsg(const Transform &, geometry_msgs::msg::Pose &);
void toMsg(const Vector3 &, geometry_msgs::msg::Point &);
template <class T> void doTransform(const T &, T &, const geometry_msgs::msg::TransformStamped &);
struct TransformException : std::runtime_error { using runtime_error::runtime_error; };
struct TimePoint {};
extern const TimePoint TimePointZero;
}
namespace tf2_ros
{
struct Buffer { template <class C> explicit Buffer(C &&); geometry_msgs::msg::TransformStamped lookupTransform(const std::string &, const std::string &, const tf2::TimePoint &) const; geometry_msgs::msg::TransformStamped lookupTransform(const std::string &, const std::string &, const rclcpp::Time &) const; };
struct TransformListener { template <class... Ts> explicit TransformListener(Ts &&...); };
struct TransformBroadcaster { template <class... Ts> explicit TransformBroadcaster(Ts &&...); void sendTransform(const geometry_msgs::msg::TransformStamped &); };
struct StaticTransformBroadcaster { template <class... Ts> explicit StaticTransformBroadcaster(Ts &&...); void sendTransform(const geometry_msgs::msg::TransformStamped &); };
}
