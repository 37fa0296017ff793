// Declarations (no behaviour) of the rclcpp API that scenario_simulator_v2 uses.
#pragma once
#include <algorithm>
#include <any>
#include <array>
#include <atomic>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <cstddef>
#include <cstdint>
#include <deque>
#include <exception>
#include <fstream>
#include <functional>
#include <future>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <queue>
#include <regex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#include <builtin_interfaces/msg/time.hpp>
#include <builtin_interfaces/msg/duration.hpp>
#include <rcl_interfaces/srv/list_parameters.hpp>

extern "C" {
enum rcl_clock_type_t { RCL_CLOCK_UNINITIALIZED, RCL_ROS_TIME, RCL_SYSTEM_TIME, RCL_STEADY_TIME };
}
#define RCL_S_TO_NS(seconds) ((seconds) * (1000LL * 1000LL * 1000LL))
#define RCL_NS_TO_S(n) ((n) / (1000LL * 1000LL * 1000LL))
#define RCL_NS_TO_MS(n) ((n) / (1000LL * 1000LL))
#define RCL_MS_TO_NS(n) ((n) * (1000LL * 1000LL))

struct rmw_qos_profile_t {};
extern const rmw_qos_profile_t rmw_qos_profile_services_default, rmw_qos_profile_default, rmw_qos_profile_sensor_data;
namespace rosidl_generator_traits
{
template <typename T> const char * data_type();
template <typename T> const char * name();
template <typename T> std::string to_yaml(const T &, bool = false);
}
namespace rclcpp
{
class Duration
{
public:
  Duration();
  Duration(int32_t seconds, uint32_t nanoseconds);
  explicit Duration(std::chrono::nanoseconds);
  template <class R, class P> Duration(const std::chrono::duration<R, P> &);
  Duration(const builtin_interfaces::msg::Duration &);
  operator builtin_interfaces::msg::Duration() const;
  bool operator==(const Duration &) const;
  bool operator<(const Duration &) const;
  bool operator<=(const Duration &) const;
  bool operator>(const Duration &) const;
  bool operator>=(const Duration &) const;
  Duration operator+(const Duration &) const;
  Duration operator-(const Duration &) const;
  Duration operator*(double) const;
  int64_t nanoseconds() const;
  double seconds() const;
  static Duration from_seconds(double);
  static Duration from_nanoseconds(int64_t);
};
class Time
{
public:
  Time(int32_t seconds, uint32_t nanoseconds, rcl_clock_type_t = RCL_SYSTEM_TIME);
  explicit Time(int64_t nanoseconds = 0, rcl_clock_type_t = RCL_SYSTEM_TIME);
  Time(const Time &);
  Time(const builtin_interfaces::msg::Time &, rcl_clock_type_t = RCL_ROS_TIME);
  operator builtin_interfaces::msg::Time() const;
  Time & operator=(const Time &);
  Time & operator=(const builtin_interfaces::msg::Time &);
  bool operator==(const Time &) const;
  bool operator!=(const Time &) const;
  bool operator<(const Time &) const;
  bool operator<=(const Time &) const;
  bool operator>(const Time &) const;
  bool operator>=(const Time &) const;
  Time operator+(const Duration &) const;
  Time operator-(const Duration &) const;
  Duration operator-(const Time &) const;
  Time & operator+=(const Duration &);
  Time & operator-=(const Duration &);
  int64_t nanoseconds() const;
  double seconds() const;
  rcl_clock_type_t get_clock_type() const;
};
class Clock
{
public:
  using SharedPtr = std::shared_ptr<Clock>;
  explicit Clock(rcl_clock_type_t = RCL_SYSTEM_TIME);
  Time now() const;
};
class Logger
{
public:
  enum class Level { Unset, Debug, Info, Warn, Error, Fatal };
  const char * get_name() const;
  Logger get_child(const std::string &);
  void set_level(Level);
};
Logger get_logger(const std::string &);
bool ok();
void init(int, const char * const *);
bool shutdown();
template <class... Ts> std::vector<std::string> init_and_remove_ros_arguments(Ts &&...);
struct KeepLast { explicit KeepLast(std::size_t); };
struct KeepAll { KeepAll(); };
class QoS
{
public:
  QoS(std::size_t);
  QoS(KeepLast);
  QoS(KeepAll);
  QoS & reliable();
  QoS & best_effort();
  QoS & transient_local();
  QoS & durability_volatile();
  QoS & keep_last(std::size_t);
};
struct SensorDataQoS : QoS { SensorDataQoS(); };
struct ServicesQoS : QoS { ServicesQoS(); };
struct SystemDefaultsQoS : QoS { SystemDefaultsQoS(); };
struct ParameterValue
{
  ParameterValue();
  template <class T> explicit ParameterValue(const T &);
  template <class T> T get() const;
};
struct Parameter
{
  Parameter();
  template <class T> Parameter(const std::string &, T);
  Parameter(const std::string &, const ParameterValue &);
  const std::string & get_name() const;
  template <class T> T get_value() const;
  const ParameterValue & get_parameter_value() const;
  std::string as_string() const;
  bool as_bool() const;
  int64_t as_int() const;
  double as_double() const;
  std::string value_to_string() const;
};
struct CallbackGroup { using SharedPtr = std::shared_ptr<CallbackGroup>; };
enum class CallbackGroupType { MutuallyExclusive, Reentrant };
template <class A> struct PublisherOptionsWithAllocator { CallbackGroup::SharedPtr callback_group; };
template <class A> struct SubscriptionOptionsWithAllocator { CallbackGroup::SharedPtr callback_group; };
using PublisherOptions = PublisherOptionsWithAllocator<std::allocator<void>>;
using SubscriptionOptions = SubscriptionOptionsWithAllocator<std::allocator<void>>;
class PublisherBase
{
public:
  using SharedPtr = std::shared_ptr<PublisherBase>;
  virtual ~PublisherBase();
  std::size_t get_subscription_count() const;
  const char * get_topic_name() const;
};
template <class M, class A = std::allocator<void>> class Publisher : public PublisherBase
{
public:
  using SharedPtr = std::shared_ptr<Publisher<M, A>>;
  using MessageType = M; using ROSMessageType = M;
  virtual void publish(const M &);
  virtual void publish(std::unique_ptr<M>);
};
struct MessageInfo {};
class SubscriptionBase { public: using SharedPtr = std::shared_ptr<SubscriptionBase>; std::size_t get_publisher_count() const; };
template <class M> class Subscription : public SubscriptionBase
{
public:
  using SharedPtr = std::shared_ptr<Subscription<M>>;
};
class ServiceBase { public: using SharedPtr = std::shared_ptr<ServiceBase>; };
template <class S> class Service : public ServiceBase
{
public:
  using SharedPtr = std::shared_ptr<Service<S>>;
};
class ClientBase
{
public:
  using SharedPtr = std::shared_ptr<ClientBase>;
  bool service_is_ready() const;
  template <class R = int64_t, class T = std::milli> bool wait_for_service(std::chrono::duration<R, T> = std::chrono::duration<R, T>(-1));
  const char * get_service_name() const;
};
template <class S> class Client : public ClientBase
{
public:
  using SharedPtr = std::shared_ptr<Client<S>>;
  using Request = typename S::Request;
  using Response = typename S::Response;
  using SharedRequest = std::shared_ptr<Request>;
  using SharedResponse = std::shared_ptr<Response>;
  using SharedFuture = std::shared_future<SharedResponse>;
  struct FutureAndRequestId : std::future<SharedResponse> { SharedFuture future; SharedFuture share(); };
  FutureAndRequestId async_send_request(SharedRequest);
  template <class F> SharedFuture async_send_request(SharedRequest, F &&);
};
class TimerBase { public: using SharedPtr = std::shared_ptr<TimerBase>; void cancel(); void reset(); bool is_canceled(); std::chrono::nanoseconds time_until_trigger(); };
namespace node_interfaces
{
struct NodeParametersInterface
{
  using SharedPtr = std::shared_ptr<NodeParametersInterface>;
  bool has_parameter(const std::string &) const;
  const ParameterValue & declare_parameter(const std::string &, const ParameterValue &);
  Parameter get_parameter(const std::string &) const;
  bool get_parameter(const std::string &, Parameter &) const;
  const std::map<std::string, ParameterValue> & get_parameter_overrides() const;
};
struct NodeTopicsInterface { using SharedPtr = std::shared_ptr<NodeTopicsInterface>; };
struct NodeTimersInterface { using SharedPtr = std::shared_ptr<NodeTimersInterface>; };
struct NodeBaseInterface { using SharedPtr = std::shared_ptr<NodeBaseInterface>; const char * get_name() const; };
template <class N> NodeParametersInterface::SharedPtr get_node_parameters_interface(N &&);
template <class N> NodeTopicsInterface::SharedPtr get_node_topics_interface(N &&);
}
class NodeOptions
{
public:
  NodeOptions();
  NodeOptions & use_global_arguments(bool);
  NodeOptions & automatically_declare_parameters_from_overrides(bool);
  NodeOptions & allow_undeclared_parameters(bool);
  NodeOptions & append_parameter_override(const std::string &, const ParameterValue &);
  NodeOptions & parameter_overrides(const std::vector<Parameter> &);
  NodeOptions & arguments(const std::vector<std::string> &);
};
class Node : public std::enable_shared_from_this<Node>
{
public:
  using SharedPtr = std::shared_ptr<Node>;
  using WeakPtr = std::weak_ptr<Node>;
  explicit Node(const std::string &, const NodeOptions & = NodeOptions());
  explicit Node(const std::string &, const std::string &, const NodeOptions & = NodeOptions());
  virtual ~Node();
  template <class... Ts> static std::shared_ptr<Node> make_shared(Ts &&...);
  const char * get_name() const;
  const char * get_namespace() const;
  const char * get_fully_qualified_name() const;
  Logger get_logger() const;
  Clock::SharedPtr get_clock();
  Time now() const;
  template <class T> T declare_parameter(const std::string &, const T &);
  template <class T> T declare_parameter(const std::string &);
  bool has_parameter(const std::string &) const;
  Parameter get_parameter(const std::string &) const;
  template <class T> bool get_parameter(const std::string &, T &) const;
  template <class T> bool get_parameter_or(const std::string &, T &, const T &) const;
  template <class T> T get_parameter_or(const std::string &, const T &) const { return T{}; }
  rcl_interfaces::msg::ListParametersResult list_parameters(const std::vector<std::string> &, uint64_t) const;
  void set_parameter(const Parameter &);
  template <class M, class A = std::allocator<void>> std::shared_ptr<Publisher<M, A>> create_publisher(const std::string &, const QoS &, const PublisherOptionsWithAllocator<A> & = PublisherOptionsWithAllocator<A>());
  template <class M, class F> std::shared_ptr<Subscription<M>> create_subscription(const std::string &, const QoS &, F &&, const SubscriptionOptions & = SubscriptionOptions()) { return {}; }
  template <class S, class... Ts> std::shared_ptr<Client<S>> create_client(const std::string &, Ts &&...);
  template <class S, class F, class... Ts> std::shared_ptr<Service<S>> create_service(const std::string &, F &&, Ts &&...) { return {}; }
  template <class D, class F> TimerBase::SharedPtr create_wall_timer(D, F &&, CallbackGroup::SharedPtr = nullptr) { return {}; }
  CallbackGroup::SharedPtr create_callback_group(CallbackGroupType, bool = true);
  std::map<std::string, std::vector<std::string>> get_topic_names_and_types() const;
  std::map<std::string, std::vector<std::string>> get_service_names_and_types() const;
  std::size_t count_publishers(const std::string &) const;
  std::size_t count_subscribers(const std::string &) const;
  node_interfaces::NodeBaseInterface::SharedPtr get_node_base_interface();
  node_interfaces::NodeTimersInterface::SharedPtr get_node_timers_interface();
  node_interfaces::NodeTopicsInterface::SharedPtr get_node_topics_interface();
  node_interfaces::NodeParametersInterface::SharedPtr get_node_parameters_interface();
};
template <class M, class A = std::allocator<void>, class N> std::shared_ptr<Publisher<M, A>> create_publisher(N &&, const std::string &, const QoS &, const PublisherOptionsWithAllocator<A> & = PublisherOptionsWithAllocator<A>());
template <class M, class N, class F> std::shared_ptr<Subscription<M>> create_subscription(N &&, const std::string &, const QoS &, F &&, const SubscriptionOptions & = SubscriptionOptions()) { return {}; }
template <class N, class D, class F> TimerBase::SharedPtr create_timer(N &&, Clock::SharedPtr, D, F &&, CallbackGroup::SharedPtr = nullptr) { return {}; }
template <class D, class F> TimerBase::SharedPtr create_timer(node_interfaces::NodeBaseInterface *, node_interfaces::NodeTimersInterface *, Clock::SharedPtr, D, F &&, CallbackGroup::SharedPtr = nullptr) { return {}; }
template <class D, class F> TimerBase::SharedPtr create_timer(node_interfaces::NodeBaseInterface::SharedPtr, node_interfaces::NodeTimersInterface::SharedPtr, Clock::SharedPtr, D, F &&, CallbackGroup::SharedPtr = nullptr) { return {}; }
enum class FutureReturnCode { SUCCESS, INTERRUPTED, TIMEOUT };
class Executor
{
public:
  using SharedPtr = std::shared_ptr<Executor>;
  virtual ~Executor();
  virtual void spin();
  void spin_some(std::chrono::nanoseconds = std::chrono::nanoseconds(0));
  void spin_once(std::chrono::nanoseconds = std::chrono::nanoseconds(-1));
  void add_node(node_interfaces::NodeBaseInterface::SharedPtr, bool = true);
  void add_node(std::shared_ptr<Node>, bool = true);
  void remove_node(std::shared_ptr<Node>, bool = true);
  void cancel();
  template <class F, class D> FutureReturnCode spin_until_future_complete(F &&, D);
};
namespace executors
{
struct SingleThreadedExecutor : Executor { using SharedPtr = std::shared_ptr<SingleThreadedExecutor>; SingleThreadedExecutor(); };
struct MultiThreadedExecutor : Executor { using SharedPtr = std::shared_ptr<MultiThreadedExecutor>; MultiThreadedExecutor(); };
}
template <class... Ts> void spin(Ts &&...);
template <class... Ts> void spin_some(Ts &&...);
template <class N, class F> FutureReturnCode spin_until_future_complete(N &&, F &&) { return {}; }
template <class C = std::chrono::system_clock> class GenericRate { public: GenericRate(double); template <class R, class P> GenericRate(std::chrono::duration<R, P>); bool sleep(); void reset(); std::chrono::nanoseconds period() const; };
using Rate = GenericRate<std::chrono::system_clock>;
using WallRate = GenericRate<std::chrono::steady_clock>;
template <class... Ts> void stub_log(int, const Logger &, Ts &&...);
std::ostream & stub_stream();
namespace exceptions { struct ParameterNotDeclaredException : std::runtime_error { using runtime_error::runtime_error; }; struct InvalidParameterTypeException : std::runtime_error { using runtime_error::runtime_error; }; struct RCLError : std::runtime_error { using runtime_error::runtime_error; }; }
}
#define RCLCPP_STUB_LOG(l, ...) ::rclcpp::stub_log(l, __VA_ARGS__)
#define RCLCPP_STUB_STREAM(lv, lg, ex) do { ::rclcpp::stub_log(lv, lg); ::rclcpp::stub_stream() << ex; } while (false)
#define RCLCPP_DEBUG(...) RCLCPP_STUB_LOG(0, __VA_ARGS__)
#define RCLCPP_INFO(...) RCLCPP_STUB_LOG(1, __VA_ARGS__)
#define RCLCPP_WARN(...) RCLCPP_STUB_LOG(2, __VA_ARGS__)
#define RCLCPP_ERROR(...) RCLCPP_STUB_LOG(3, __VA_ARGS__)
#define RCLCPP_FATAL(...) RCLCPP_STUB_LOG(4, __VA_ARGS__)
#define RCLCPP_INFO_ONCE(...) RCLCPP_STUB_LOG(1, __VA_ARGS__)
#define RCLCPP_WARN_ONCE(...) RCLCPP_STUB_LOG(2, __VA_ARGS__)
#define RCLCPP_DEBUG_STREAM(lg, ex) RCLCPP_STUB_STREAM(0, lg, ex)
#define RCLCPP_INFO_STREAM(lg, ex) RCLCPP_STUB_STREAM(1, lg, ex)
#define RCLCPP_WARN_STREAM(lg, ex) RCLCPP_STUB_STREAM(2, lg, ex)
#define RCLCPP_ERROR_STREAM(lg, ex) RCLCPP_STUB_STREAM(3, lg, ex)
#define RCLCPP_FATAL_STREAM(lg, ex) RCLCPP_STUB_STREAM(4, lg, ex)
#define RCLCPP_WARN_STREAM_ONCE(lg, ex) RCLCPP_STUB_STREAM(2, lg, ex)
#define RCLCPP_INFO_STREAM_ONCE(lg, ex) RCLCPP_STUB_STREAM(1, lg, ex)
#define RCLCPP_WARN_STREAM_THROTTLE(lg, ck, ms, ex) RCLCPP_STUB_STREAM(2, lg, ex)
#define RCLCPP_INFO_STREAM_THROTTLE(lg, ck, ms, ex) RCLCPP_STUB_STREAM(1, lg, ex)
#define RCLCPP_ERROR_STREAM_THROTTLE(lg, ck, ms, ex) RCLCPP_STUB_STREAM(3, lg, ex)
#define RCLCPP_WARN_THROTTLE(lg, ck, ms, ...) RCLCPP_STUB_LOG(2, lg, __VA_ARGS__)
