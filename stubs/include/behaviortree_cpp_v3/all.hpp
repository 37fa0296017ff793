#pragma once
#include <chrono>
#include <functional>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>
#include <deque>
#include <set>
#include <iostream>
#include <fstream>
#include <sstream>
#include <cmath>
namespace BT
{
enum class NodeStatus { IDLE = 0, RUNNING, SUCCESS, FAILURE };
enum class NodeType { UNDEFINED = 0, ACTION, CONDITION, CONTROL, DECORATOR, SUBTREE };
enum class PortDirection { INPUT, OUTPUT, INOUT };
enum class TimestampType { absolute, relative };
using TimePoint = std::chrono::high_resolution_clock::time_point;
using Duration = std::chrono::high_resolution_clock::duration;
using StringView = std::string;
std::string toStr(NodeStatus, bool = false);
struct RuntimeError : std::runtime_error { using runtime_error::runtime_error; template <class... Ts> RuntimeError(Ts &&...); };
struct LogicError : std::logic_error { using logic_error::logic_error; };
struct BehaviorTreeException : std::runtime_error { using runtime_error::runtime_error; };
class PortInfo {};
using PortsList = std::unordered_map<std::string, PortInfo>;
template <class T = void> std::pair<std::string, PortInfo> InputPort(const std::string &, const std::string & = "");
template <class T = void> std::pair<std::string, PortInfo> OutputPort(const std::string &, const std::string & = "");
template <class T = void> std::pair<std::string, PortInfo> BidirectionalPort(const std::string &, const std::string & = "");
template <class T> struct Expected { explicit operator bool() const; T & value(); const T & value() const; T & operator*(); const std::string & error() const; bool has_value() const; };
class Blackboard { public: using Ptr = std::shared_ptr<Blackboard>; template <class T> bool get(const std::string &, T &) const; template <class T> T get(const std::string &) const; template <class T> void set(const std::string &, const T &); };
struct NodeConfiguration { Blackboard::Ptr blackboard; std::unordered_map<std::string, std::string> input_ports, output_ports; };
struct TreeNodeManifest { NodeType type; std::string registration_ID; PortsList ports; };
template <class... Ts> struct Signal { struct Sub { }; using Subscriber = std::shared_ptr<Sub>; };
class TreeNode
{
public:
  using Ptr = std::shared_ptr<TreeNode>;
  using StatusChangeSignal = Signal<TimePoint, const TreeNode &, NodeStatus, NodeStatus>;
  using StatusChangeSubscriber = StatusChangeSignal::Subscriber;
  using StatusChangeCallback = std::function<void(TimePoint, const TreeNode &, NodeStatus, NodeStatus)>;
  TreeNode(std::string, NodeConfiguration);
  virtual ~TreeNode();
  virtual NodeStatus executeTick();
  virtual void halt() = 0;
  NodeStatus status() const;
  void setStatus(NodeStatus);
  const std::string & name() const;
  uint16_t UID() const;
  const std::string & registrationName() const;
  const NodeConfiguration & config() const;
  virtual NodeType type() const = 0;
  template <class T> bool getInput(const std::string &, T &) const;
  template <class T> Expected<T> getInput(const std::string &) const;
  template <class T> bool setOutput(const std::string &, const T &);
  StatusChangeSubscriber subscribeToStatusChange(StatusChangeCallback);
protected:
  virtual NodeStatus tick() = 0;
};
class ActionNodeBase : public TreeNode { public: ActionNodeBase(const std::string &, const NodeConfiguration &); NodeType type() const override; };
class ControlNode : public TreeNode { public: ControlNode(const std::string &, const NodeConfiguration &); NodeType type() const override; };
class DecoratorNode : public TreeNode { public: DecoratorNode(const std::string &, const NodeConfiguration &); NodeType type() const override; TreeNode * child(); };
class Tree { public: std::vector<TreeNode::Ptr> nodes; std::vector<Blackboard::Ptr> blackboard_stack; std::unordered_map<std::string, TreeNodeManifest> manifests; TreeNode * rootNode() const; NodeStatus tickRoot(); Blackboard::Ptr rootBlackboard(); void haltTree(); };
class BehaviorTreeFactory { public: const std::unordered_map<std::string, TreeNodeManifest> & manifests() const; const std::set<std::string> & builtinNodes() const; template <class T> void registerNodeType(const std::string &); Tree createTreeFromFile(const std::string &, Blackboard::Ptr = nullptr); Tree createTreeFromText(const std::string &, Blackboard::Ptr = nullptr); };
class StatusChangeLogger { public: StatusChangeLogger(TreeNode *); virtual ~StatusChangeLogger(); virtual void callback(Duration, const TreeNode &, NodeStatus, NodeStatus) = 0; virtual void flush() = 0; };
struct StdCoutLogger : StatusChangeLogger { StdCoutLogger(const Tree &); void callback(Duration, const TreeNode &, NodeStatus, NodeStatus) override; void flush() override; };
void applyRecursiveVisitor(TreeNode *, const std::function<void(TreeNode *)> &);
void applyRecursiveVisitor(const TreeNode *, const std::function<void(const TreeNode *)> &);
}
