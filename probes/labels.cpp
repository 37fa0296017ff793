#include <simulation_interface/constants.hpp>
#include <traffic_simulator/data_type/behavior.hpp>
#include <traffic_simulator/data_type/route_option.hpp>
#include <traffic_simulator/data_type/routing_configuration.hpp>
#include <openscenario_interpreter/compatibility.hpp>

namespace probe
{
using namespace traffic_simulator;

auto equal(const RoutingConfiguration & a, const RoutingConfiguration & b) -> bool { return a == b; }
auto print(std::ostream & os, const RoutingConfiguration & a) -> std::ostream & { return os << a; }
auto configuration(bool b) { return RoutingConfiguration(b); }
auto configuration0() { return RoutingConfiguration(); }
auto option() { return v2::RouteOption(); }
auto option1() { return v1::RouteOption(); }
auto convert(const v1::RouteOption & o) -> v2::RouteOption { return o; }
auto endpointOf(simulation_interface::HostName h, unsigned int port) -> std::string
{
  return simulation_interface::getEndPoint(simulation_interface::TransportProtocol::TCP, h, port);
}
auto endpointBy(simulation_interface::TransportProtocol p, unsigned int port) -> std::string
{
  return simulation_interface::getEndPoint(p, simulation_interface::HostName::ANY, port);
}
auto endpoint(const std::string & h, unsigned int port) -> std::string
{
  return simulation_interface::getEndPoint(simulation_interface::TransportProtocol::TCP, h, port);
}
auto request(behavior::Request r) -> std::string { return behavior::getRequestString(r); }
auto printRequest(std::ostream & os, behavior::Request r) -> std::ostream & { return os << r; }
auto graph(RoutingGraphType g) -> std::string { return to_string(g); }
auto mode(std::istream & is, openscenario_interpreter::Compatibility & c) -> std::istream & { return is >> c; }
}  // namespace probe
