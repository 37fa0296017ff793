#pragma once
#include <rclcpp/rclcpp.hpp>
#include <lifecycle_msgs/msg/state.hpp>
#include <lifecycle_msgs/msg/transition.hpp>
namespace rclcpp_lifecycle
{
class State { public: uint8_t id() const; std::string label() const; };
template <class M, class A = std::allocator<void>> class LifecyclePublisher : public rclcpp::Publisher<M, A>
{
public:
  using SharedPtr = std::shared_ptr<LifecyclePublisher<M, A>>;
  virtual void on_activate();
  virtual void on_deactivate();
  bool is_activated() const;
};
namespace node_interfaces
{
struct LifecycleNodeInterface
{
  enum class CallbackReturn : uint8_t { SUCCESS, FAILURE, ERROR };
  virtual CallbackReturn on_configure(const State &);
  virtual CallbackReturn on_cleanup(const State &);
  virtual CallbackReturn on_shutdown(const State &);
  virtual CallbackReturn on_activate(const State &);
  virtual CallbackReturn on_deactivate(const State &);
  virtual CallbackReturn on_error(const State &);
  virtual ~LifecycleNodeInterface();
};
}
class LifecycleNode : public node_interfaces::LifecycleNodeInterface, public std::enable_shared_from_this<LifecycleNode>
{
public:
  using SharedPtr = std::shared_ptr<LifecycleNode>;
  explicit LifecycleNode(const std::string &, const rclcpp::NodeOptions & = rclcpp::NodeOptions());
  const char * get_name() const;
  rclcpp::Logger get_logger() const;
  rclcpp::Clock::SharedPtr get_clock();
  rclcpp::Time now() const;
  template <class T> T declare_parameter(const std::string &, const T &);
  rclcpp::Parameter get_parameter(const std::string &) const;
  template <class T> bool get_parameter(const std::string &, T &) const;
  template <class M, class A = std::allocator<void>> std::shared_ptr<LifecyclePublisher<M, A>> create_publisher(const std::string &, const rclcpp::QoS &, const rclcpp::PublisherOptionsWithAllocator<A> & = rclcpp::PublisherOptionsWithAllocator<A>());
  template <class M, class F> std::shared_ptr<rclcpp::Subscription<M>> create_subscription(const std::string &, const rclcpp::QoS &, F &&) { return {}; }
  template <class D, class F> rclcpp::TimerBase::SharedPtr create_wall_timer(D, F &&, rclcpp::CallbackGroup::SharedPtr = nullptr) { return {}; }
  const State & get_current_state();
  const State & configure();
  const State & cleanup();
  const State & activate();
  const State & deactivate();
  const State & shutdown();
  rclcpp::node_interfaces::NodeBaseInterface::SharedPtr get_node_base_interface();
  rclcpp::node_interfaces::NodeTimersInterface::SharedPtr get_node_timers_interface();
  rclcpp::node_interfaces::NodeTopicsInterface::SharedPtr get_node_topics_interface();
  rclcpp::node_interfaces::NodeParametersInterface::SharedPtr get_node_parameters_interface();
};
}
