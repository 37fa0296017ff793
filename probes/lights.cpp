// instantiates the templates of the traffic lights; it is parsed, never built
#include <simulation_interface/conversions.hpp>
#include <traffic_simulator/traffic_lights/traffic_lights.hpp>
#include <sstream>

namespace probe
{
auto all(const std::shared_ptr<rclcpp::Node> & node, const std::string & architecture)
{
  return std::make_shared<traffic_simulator::TrafficLights>(node, architecture);
}

auto text(const traffic_simulator::TrafficLight & light) -> std::string
{
  std::stringstream ss;
  ss << light;
  return ss.str();
}

template <typename T>
auto word(const T & x) -> std::string
{
  std::stringstream ss;
  ss << x;
  return ss.str();
}

template <typename T>
auto read(const std::string & s) -> T
{
  std::stringstream ss(s);
  T x;
  ss >> x;
  return x;
}

template auto word(const traffic_simulator::TrafficLight::Color &) -> std::string;
template auto word(const traffic_simulator::TrafficLight::Status &) -> std::string;
template auto word(const traffic_simulator::TrafficLight::Shape &) -> std::string;
template auto word(const traffic_simulator::TrafficLight::Bulb &) -> std::string;
template auto word(const traffic_simulator::TrafficLight &) -> std::string;
template auto read(const std::string &) -> traffic_simulator::TrafficLight::Color;
template auto read(const std::string &) -> traffic_simulator::TrafficLight::Status;
template auto read(const std::string &) -> traffic_simulator::TrafficLight::Shape;

auto bulb(const std::string & s) { return traffic_simulator::TrafficLight::Bulb(s); }
auto hash(const traffic_simulator::TrafficLight::Bulb & b) { return b.hash(); }
auto less(const traffic_simulator::TrafficLight::Bulb & a, const traffic_simulator::TrafficLight::Bulb & b) { return a < b; }
auto category(const traffic_simulator::TrafficLight::Shape & s) { return s.category(); }
auto said(const traffic_simulator::TrafficLight::Bulb & b) { return static_cast<simulation_api_schema::TrafficLight>(b); }
auto told(const traffic_simulator::TrafficLight::Bulb & b) { return static_cast<traffic_simulator_msgs::msg::TrafficLightBulbV1>(b); }
auto signal(const traffic_simulator::TrafficLight & l) { return static_cast<simulation_api_schema::TrafficSignal>(l); }
auto shown(const traffic_simulator::TrafficLight & l) { return static_cast<traffic_simulator_msgs::msg::TrafficLightV1>(l); }
auto light(const lanelet::Id id) { return traffic_simulator::TrafficLight(id); }

using Lights = traffic_simulator::TrafficLights;
using Id = lanelet::Id;
using Text = std::string;

// what a scenario does
void conventional_set(Lights & l, Id i, const Text & s) { l.getConventionalTrafficLights()->setTrafficLightsState(i, s); }
void conventional_add(Lights & l, Id i, const Text & s) { l.getConventionalTrafficLights()->addTrafficLightsState(i, s); }
void conventional_clear(Lights & l, Id i) { l.getConventionalTrafficLights()->clearTrafficLightsState(i); }
void conventional_color(Lights & l, Id i, const traffic_simulator::TrafficLight::Color & c) { l.getConventionalTrafficLights()->setTrafficLightsColor(i, c); }
void conventional_confidence(Lights & l, Id i, double c) { l.getConventionalTrafficLights()->setTrafficLightsConfidence(i, c); }
void v2i_set(Lights & l, Id i, const Text & s) { l.getV2ITrafficLights()->setTrafficLightsState(i, s); }
void v2i_add(Lights & l, Id i, const Text & s) { l.getV2ITrafficLights()->addTrafficLightsState(i, s); }
void v2i_clear(Lights & l, Id i) { l.getV2ITrafficLights()->clearTrafficLightsState(i); }
void conventional_detected_set(Lights & l, Id i, const Text & s) { l.getConventionalDetectedTrafficLights()->setState(i, s); }
void conventional_detected_add(Lights & l, Id i, const Text & s) { l.getConventionalDetectedTrafficLights()->addState(i, s); }
auto conventional_detected_clear(Lights & l, Id i) { return l.getConventionalDetectedTrafficLights()->clearState(i); }
void v2i_detected_set(Lights & l, Id i, const Text & s) { l.getV2IDetectedTrafficLights()->setState(i, s); }
void v2i_detected_add(Lights & l, Id i, const Text & s) { l.getV2IDetectedTrafficLights()->addState(i, s); }
auto v2i_detected_clear(Lights & l, Id i) { return l.getV2IDetectedTrafficLights()->clearState(i); }
void feature(Lights & l, Id i, bool b) { l.setV2IFeature(i, b); }
void predict(Lights & l, Id i, const Text & s, double t) { l.getV2ITrafficLights()->addTrafficLightsStatePrediction(i, s, t); }
void forget(Lights & l) { l.getV2ITrafficLights()->clearTrafficLightsStatePredictions(); }
void start(Lights & l, double a, double b) { l.startTrafficLightsUpdate(a, b); }

// what can be seen of it
auto conventional(const Lights & l) { return l.generateConventionalUpdateRequest(); }
auto truth(const Lights & l) { return l.getConventionalTrafficLights()->generateUpdateTrafficLightsRequest(); }
auto v2i(const Lights & l) { return l.getV2ITrafficLights()->generateUpdateTrafficLightsRequest(); }
auto composed(Lights & l, Id i) { return l.getConventionalTrafficLights()->getTrafficLightsComposedState(i); }
auto stop(Lights & l, Id i) { return l.getConventionalTrafficLights()->isRequiredStopTrafficLightState(i); }
auto compare(Lights & l, Id i, const Text & s) { return l.getConventionalTrafficLights()->compareTrafficLightsState(i, s); }
auto line(Lights & l, const lanelet::Ids & r, const math::geometry::CatmullRomSplineInterface & s) { return l.getConventionalTrafficLights()->getDistanceToActiveTrafficLightStopLine(r, s); }
auto marks(const traffic_simulator::TrafficLight & l, const rclcpp::Time & now)
{
  std::vector<visualization_msgs::msg::Marker> m;
  l.draw(m, now, "map");
  return m;
}
auto enabled(const Lights & l, Id i) { return l.isV2ITrafficLightEnabled(i); }
}  // namespace probe
