#pragma once
#include <cmath>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <set>
#include <utility>
#include <vector>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <boost/optional.hpp>
#include <boost/variant.hpp>
#include <boost/geometry.hpp>
#include <boost/geometry/algorithms/disjoint.hpp>
#include <boost/geometry/geometries/register/point.hpp>
#include <geometry_msgs/msg/point.hpp>
#include <geometry_msgs/msg/pose.hpp>
#include <visualization_msgs/msg/marker_array.hpp>
#include <autoware_map_msgs/msg/lanelet_map_bin.hpp>
namespace lanelet
{
using Id = int64_t;
using Ids = std::vector<Id>;
constexpr Id InvalId = 0;
template <class T> using Optional = boost::optional<T>;
using ErrorMessages = std::vector<std::string>;
using BasicPoint2d = Eigen::Matrix<double, 2, 1, Eigen::DontAlign>;
using BasicPoint3d = Eigen::Matrix<double, 3, 1, Eigen::DontAlign>;
using BasicPoints3d = std::vector<BasicPoint3d>;
using BasicPoints2d = std::vector<BasicPoint2d>;
struct BasicPolygon2d : std::vector<BasicPoint2d> { using std::vector<BasicPoint2d>::vector; };
struct BasicLineString2d : std::vector<BasicPoint2d> { using std::vector<BasicPoint2d>::vector; };
struct BasicLineString3d : std::vector<BasicPoint3d> { using std::vector<BasicPoint3d>::vector; };
struct LaneletError : std::runtime_error { using runtime_error::runtime_error; };
struct NoSuchPrimitiveError : LaneletError { using LaneletError::LaneletError; };
enum class AttributeName { Type, Subtype, OneWay, ParticipantVehicle, ParticipantPedestrian, SpeedLimit, Location, Dynamic, Color, Temporary };
struct AttributeValueString
{
  static constexpr const char Curbstone[] = "curbstone";
  static constexpr const char Crosswalk[] = "crosswalk";
  static constexpr const char Road[] = "road"; static constexpr const char Highway[] = "highway"; static constexpr const char BicycleLane[] = "bicycle_lane"; static constexpr const char PlayStreet[] = "play_street"; static constexpr const char EmergencyLane[] = "emergency_lane"; static constexpr const char Exit[] = "exit"; static constexpr const char Stairs[] = "stairs"; static constexpr const char SharedWalkway[] = "shared_walkway";
  static constexpr const char RoadShoulder[] = "road_shoulder";
  static constexpr const char Walkway[] = "walkway";
  static constexpr const char StopLine[] = "stop_line";
};
struct RoleNameString { static constexpr const char Refers[] = "refers"; static constexpr const char RefLine[] = "ref_line"; };
enum class RoleName { Refers, RefLine, RightOfWay, Yield, Cancels, CancelLine };
struct Participants { static constexpr const char Vehicle[] = "vehicle"; static constexpr const char Pedestrian[] = "pedestrian"; static constexpr const char VehicleCar[] = "vehicle:car"; static constexpr const char Bicycle[] = "bicycle"; static constexpr const char VehicleEmergency[] = "vehicle:emergency"; };
struct Locations { static constexpr const char Germany[] = "de"; };
class Attribute { public: Attribute(); Attribute(const std::string &); Attribute(const char *); const std::string & value() const; operator std::string() const; bool operator==(const Attribute &) const; bool operator!=(const Attribute &) const; Optional<double> asDouble() const; Optional<Id> asId() const; Optional<bool> asBool() const; friend bool operator==(const Attribute &, const char *); friend bool operator==(const Attribute &, const std::string &); friend bool operator!=(const Attribute &, const char *); };
class AttributeMap : public std::unordered_map<std::string, Attribute> { public: using std::unordered_map<std::string, Attribute>::operator[]; using std::unordered_map<std::string, Attribute>::find; using std::unordered_map<std::string, Attribute>::at; Attribute & operator[](AttributeName); const Attribute & at(AttributeName) const; const_iterator find(AttributeName) const; iterator find(AttributeName); };
template <class D> class Primitive
{
public:
  Id id() const;
  const AttributeMap & attributes() const;
  AttributeMap & attributes();
  template <class K> bool hasAttribute(const K &) const;
  template <class K> const Attribute & attribute(const K &) const;
  template <class T, class K> T attributeOr(const K &, T) const;
  template <class K> std::string attributeOr(const K &, const char *) const;
  void setId(Id);
  template <class K, class V> void setAttribute(const K &, const V &);
  bool operator==(const D &) const;
  bool operator!=(const D &) const;
};
class ConstPoint2d; class ConstPoint3d;
class ConstPoint2d : public Primitive<ConstPoint2d> { public: using BasicPoint = BasicPoint2d; double x() const; double y() const; const BasicPoint2d & basicPoint() const; const BasicPoint2d & basicPoint2d() const; };
class ConstPoint3d : public Primitive<ConstPoint3d> { public: using BasicPoint = BasicPoint3d; ConstPoint3d(); double x() const; double y() const; double z() const; const BasicPoint3d & basicPoint() const; operator ConstPoint2d() const; operator BasicPoint3d() const; };
class Point2d : public ConstPoint2d { public: double & x(); double & y(); };
class Point3d : public ConstPoint3d { public: Point3d(); Point3d(Id, double, double, double = 0.0); Point3d(Id, const BasicPoint3d &); double & x(); double & y(); double & z(); using ConstPoint3d::x; using ConstPoint3d::y; using ConstPoint3d::z; };
template <class P, class D> class LineStringBase : public Primitive<D>
{
public:
  using ConstPointType = P;
  using const_iterator = typename std::vector<P>::const_iterator;
  using iterator = const_iterator;
  using value_type = P;
  const_iterator begin() const; const_iterator end() const; std::size_t size() const; bool empty() const;
  const P & front() const; const P & back() const; const P & operator[](std::size_t) const;
  std::size_t numSegments() const;
  bool inverted() const;
  D invert() const;
};
class ConstLineString2d : public LineStringBase<ConstPoint2d, ConstLineString2d> { public: BasicLineString2d basicLineString() const; };
class ConstLineString3d : public LineStringBase<ConstPoint3d, ConstLineString3d> { public: ConstLineString3d(); BasicLineString3d basicLineString() const; operator ConstLineString2d() const; };
class LineString3d : public ConstLineString3d { public: LineString3d(); LineString3d(Id, const std::vector<Point3d> & = {}, const AttributeMap & = {}); void push_back(const Point3d &); };
class LineString2d : public ConstLineString2d {};
class ConstPolygon3d; class CompoundPolygon3d; 
class ConstPolygon3d : public LineStringBase<ConstPoint3d, ConstPolygon3d> { public: explicit ConstPolygon3d(const ConstLineString3d & = {}); };
class Polygon3d : public ConstPolygon3d {};
class CompoundPolygon2d : public LineStringBase<ConstPoint2d, CompoundPolygon2d> { public: BasicPolygon2d basicPolygon() const; };
class CompoundPolygon3d : public LineStringBase<ConstPoint3d, CompoundPolygon3d> { public: };
using LineStrings3d = std::vector<LineString3d>;
using ConstLineStrings3d = std::vector<ConstLineString3d>;
using Points3d = std::vector<Point3d>;
using Polygons3d = std::vector<Polygon3d>;
using ConstPolygons3d = std::vector<ConstPolygon3d>;
class LineStringOrPolygon3d { public: bool isLineString() const; bool isPolygon() const; Optional<LineString3d> lineString() const; Optional<Polygon3d> polygon() const; Id id() const; };
class ConstLineStringOrPolygon3d { public: explicit operator ConstLineString3d() const; bool isLineString() const; Optional<ConstLineString3d> lineString() const; Id id() const; };
using LineStringsOrPolygons3d = std::vector<LineStringOrPolygon3d>;
class RegulatoryElement;
using RegulatoryElementPtr = std::shared_ptr<RegulatoryElement>;
using RegulatoryElementConstPtr = std::shared_ptr<const RegulatoryElement>;
using RuleParameterType = boost::variant<Point3d, LineString3d, Polygon3d>;
class ConstLanelet : public Primitive<ConstLanelet>
{
public:
  ConstLanelet();
  ConstLineString3d leftBound() const; ConstLineString3d rightBound() const; ConstLineString2d leftBound2d() const; ConstLineString2d rightBound2d() const;
  ConstLineString3d centerline() const; ConstLineString2d centerline2d() const;
  CompoundPolygon3d polygon3d() const; CompoundPolygon2d polygon2d() const;
  bool inverted() const; ConstLanelet invert() const;
  template <class T> std::vector<std::shared_ptr<const T>> regulatoryElementsAs() const;
  std::vector<RegulatoryElementConstPtr> regulatoryElements() const;
};
class Lanelet : public ConstLanelet { public: using ConstLanelet::leftBound; using ConstLanelet::rightBound; Lanelet(); Lanelet(Id, LineString3d, LineString3d); LineString3d leftBound(); LineString3d rightBound(); bool hasCustomCenterline() const; void setCenterline(const LineString3d &); template <class T> std::vector<std::shared_ptr<T>> regulatoryElementsAs(); template <class T> std::vector<std::shared_ptr<const T>> regulatoryElementsAs() const; };
class ConstArea : public Primitive<ConstArea> {}; class Area : public ConstArea {};
class ConstLaneletOrArea { public: bool isLanelet() const; Optional<ConstLanelet> lanelet() const; Id id() const; };
using ConstLaneletOrAreas = std::vector<ConstLaneletOrArea>;
using Lanelets = std::vector<Lanelet>;
using ConstLanelets = std::vector<ConstLanelet>;
using ConstAreas = std::vector<ConstArea>;
class RegulatoryElement : public Primitive<RegulatoryElement>
{
public:
  virtual ~RegulatoryElement();
  template <class T> std::vector<T> getParameters(const std::string &) const;
  template <class T> std::vector<T> getParameters(RoleName) const;
};
using RegulatoryElements = std::vector<RegulatoryElementPtr>;
class TrafficSign : public RegulatoryElement { public: using Ptr = std::shared_ptr<TrafficSign>; using ConstPtr = std::shared_ptr<const TrafficSign>; std::string type() const; ConstLineStrings3d refLines() const; LineStrings3d refLines(); LineStringsOrPolygons3d trafficSigns(); };
class TrafficLight : public RegulatoryElement { public: using Ptr = std::shared_ptr<TrafficLight>; using ConstPtr = std::shared_ptr<const TrafficLight>; static constexpr char RuleName[] = "traffic_light"; Optional<ConstLineString3d> stopLine() const; LineStringsOrPolygons3d trafficLights(); std::vector<ConstLineStringOrPolygon3d> trafficLights() const; };
enum class ManeuverType { Yield, RightOfWay, Unknown };
class RightOfWay : public RegulatoryElement { public: using Ptr = std::shared_ptr<RightOfWay>; using ConstPtr = std::shared_ptr<const RightOfWay>; ConstLanelets rightOfWayLanelets() const; Lanelets rightOfWayLanelets(); ConstLanelets yieldLanelets() const; ManeuverType getManeuver(const ConstLanelet &) const; Optional<ConstLineString3d> stopLine() const; };
namespace autoware { class AutowareTrafficLight : public TrafficLight { public: using Ptr = std::shared_ptr<AutowareTrafficLight>; static constexpr char RuleName[] = "traffic_light"; ConstLineStrings3d lightBulbs() const; LineStrings3d lightBulbs(); }; class DetectionArea : public RegulatoryElement { public: ConstPolygons3d detectionAreas() const; ConstLineString3d stopLine() const; }; }
using AutowareTrafficLightConstPtr = std::shared_ptr<const autoware::AutowareTrafficLight>;
using AutowareTrafficLightPtr = std::shared_ptr<autoware::AutowareTrafficLight>;
using DetectionAreaConstPtr = std::shared_ptr<const autoware::DetectionArea>;
using TrafficSignConstPtr = std::shared_ptr<const TrafficSign>;
template <class T, class CT> struct PrimitiveLayer
{
  using const_iterator = typename std::vector<CT>::const_iterator;
  using iterator = typename std::vector<T>::iterator;
  const_iterator begin() const; const_iterator end() const; iterator begin(); iterator end();
  const_iterator find(Id) const; iterator find(Id); bool exists(Id) const; CT get(Id) const; T get(Id); std::size_t size() const; bool empty() const;
  std::vector<CT> findUsages(const ConstLineString3d &) const; std::vector<T> findUsages(const ConstLineString3d &); std::vector<CT> findUsages(const RegulatoryElementConstPtr &) const; std::vector<T> findUsages(const RegulatoryElementConstPtr &);
  std::vector<CT> nearest(const BasicPoint2d &, unsigned) const; std::vector<T> nearest(const BasicPoint2d &, unsigned);
};
class LaneletMap
{
public:
  PrimitiveLayer<Lanelet, ConstLanelet> laneletLayer; PrimitiveLayer<LineString3d, ConstLineString3d> lineStringLayer; PrimitiveLayer<Point3d, ConstPoint3d> pointLayer; PrimitiveLayer<RegulatoryElementPtr, RegulatoryElementConstPtr> regulatoryElementLayer; PrimitiveLayer<Polygon3d, ConstPolygon3d> polygonLayer;
  template <class T> void add(const T &);
  template <class A> void serialize(A &, unsigned) {}
};
using LaneletMapPtr = std::shared_ptr<LaneletMap>;
using LaneletMapConstPtr = std::shared_ptr<const LaneletMap>;
using LaneletMapUPtr = std::unique_ptr<LaneletMap>;
using ConstLaneletSequence = ConstLanelets;
class LaneletSequence : public std::vector<ConstLanelet> {};
struct GPSPoint { double lat, lon, ele; };
struct Origin { explicit Origin(const GPSPoint &); GPSPoint position; };
class Projector { public: virtual ~Projector(); virtual BasicPoint3d forward(const GPSPoint &) const; virtual GPSPoint reverse(const BasicPoint3d &) const; };
using units_double = double;
struct Velocity { double value() const; };
namespace units { struct KmHQuantity { double value() const; template <class T> explicit KmHQuantity(const T &); KmHQuantity(); }; struct KmH { friend KmHQuantity operator*(double, KmH); }; struct MPS { }; struct MPSQuantity { double value() const; template <class T> explicit MPSQuantity(const T &); }; }
namespace geometry
{
template <class... Ts> double length(const Ts &...); template <class... Ts> double length2d(const Ts &...); template <class... Ts> double length3d(const Ts &...);
template <class... Ts> double distance(const Ts &...); template <class... Ts> double distance2d(const Ts &...); template <class... Ts> double distance3d(const Ts &...);
template <class... Ts> bool inside(const Ts &...); template <class... Ts> double area(const Ts &...);
template <class... Ts> bool intersects2d(const Ts &...); template <class... Ts> bool overlaps2d(const Ts &...); template <class... Ts> BasicPoint3d project(const Ts &...);
std::vector<std::pair<double, Lanelet>> findNearest(PrimitiveLayer<Lanelet, ConstLanelet> &, const BasicPoint2d &, unsigned);
std::vector<std::pair<double, ConstLanelet>> findNearest(const PrimitiveLayer<Lanelet, ConstLanelet> &, const BasicPoint2d &, unsigned);
BasicPoint3d interpolatedPointAtDistance(const ConstLineString3d &, double);
}
namespace traffic_rules
{
enum class LaneChangeType { ToRight, ToLeft, Both, None };
struct SpeedLimitInformation { struct V { double value() const; operator units::KmHQuantity() const; } speedLimit; bool isMandatory; };
class TrafficRules { public: using Configuration = std::map<std::string, Attribute>; explicit TrafficRules(Configuration = {}); virtual ~TrafficRules(); virtual bool canPass(const ConstLanelet &) const; virtual bool canPass(const ConstLanelet &, const ConstLanelet &) const; virtual SpeedLimitInformation speedLimit(const ConstLanelet &) const; virtual bool canChangeLane(const ConstLanelet &, const ConstLanelet &) const; virtual bool isOneWay(const ConstLanelet &) const; const std::string & participant() const; virtual LaneChangeType laneChangeType(const ConstLineString3d &, bool = false) const; };
class GenericTrafficRules : public TrafficRules { public: using TrafficRules::TrafficRules; using TrafficRules::canPass; bool canPass(const ConstLanelet &) const override; protected: virtual Optional<bool> canPass(const std::string &, const std::string &) const; public: Optional<bool> hasOverride(const AttributeMap &, const std::string &) const; protected: const Optional<SpeedLimitInformation> countrySpeedLimits() const; };
class GermanVehicle : public GenericTrafficRules { public: GermanVehicle(Configuration = {}); using GenericTrafficRules::GenericTrafficRules; };
class GermanPedestrian : public GenericTrafficRules { public: using GenericTrafficRules::GenericTrafficRules; };
using TrafficRulesPtr = std::shared_ptr<TrafficRules>; using TrafficRulesUPtr = std::unique_ptr<TrafficRules>; using TrafficRulesConstPtr = std::shared_ptr<const TrafficRules>;
struct TrafficRulesFactory { static TrafficRulesUPtr create(const std::string &, const std::string &, TrafficRules::Configuration = {}); };
template <class T> struct RegisterTrafficRules { RegisterTrafficRules(const std::string &, const std::string &); };
}
namespace routing
{
class RoutingCost { public: virtual ~RoutingCost(); virtual double travelCost(const traffic_rules::TrafficRules &, const ConstLanelet &) const noexcept; };
using RoutingCostPtr = std::shared_ptr<RoutingCost>; using RoutingCostPtrs = std::vector<RoutingCostPtr>;
struct RoutingCostDistance : RoutingCost { explicit RoutingCostDistance(double, double = 0.0); };
struct RoutingCostTravelTime : RoutingCost { explicit RoutingCostTravelTime(double, double = 0.0); };
class LaneletPath { public: ConstLanelets::const_iterator begin() const; ConstLanelets::const_iterator end() const; std::size_t size() const; bool empty() const; ConstLanelet operator[](std::size_t) const; };
class Route { public: LaneletPath shortestPath() const; double length2d() const; };
enum class RelationType { None = 0, Successor = 1, Left = 2, Right = 4, AdjacentLeft = 8, AdjacentRight = 16, Conflicting = 32, Area = 64 };
class RoutingGraph
{
public:
  static std::unique_ptr<RoutingGraph> build(const LaneletMap &, const traffic_rules::TrafficRules &, const RoutingCostPtrs & = {});
  Optional<Route> getRoute(const ConstLanelet &, const ConstLanelet &, uint16_t = 0, bool = true) const;
  Optional<LaneletPath> shortestPath(const ConstLanelet &, const ConstLanelet &, uint16_t = 0, bool = true) const;
  ConstLanelets following(const ConstLanelet &, bool = false) const; ConstLanelets previous(const ConstLanelet &, bool = false) const;
  Optional<ConstLanelet> left(const ConstLanelet &) const; Optional<ConstLanelet> right(const ConstLanelet &) const; Optional<ConstLanelet> adjacentLeft(const ConstLanelet &) const; Optional<ConstLanelet> adjacentRight(const ConstLanelet &) const;
  ConstLanelets lefts(const ConstLanelet &) const; ConstLanelets rights(const ConstLanelet &) const; ConstLanelets adjacentLefts(const ConstLanelet &) const; ConstLanelets adjacentRights(const ConstLanelet &) const; ConstLanelets besides(const ConstLanelet &) const;
  ConstLaneletOrAreas conflicting(const ConstLanelet &) const; ConstLanelets conflicting() const; Optional<RelationType> routingRelation(const ConstLanelet &, const ConstLanelet &, bool = false) const;
};
using RoutingGraphPtr = std::shared_ptr<RoutingGraph>; using RoutingGraphUPtr = std::unique_ptr<RoutingGraph>; using RoutingGraphConstPtr = std::shared_ptr<const RoutingGraph>;
class RoutingGraphContainer { public: explicit RoutingGraphContainer(const std::vector<RoutingGraphConstPtr> &); ConstLanelets conflictingInGraph(const ConstLanelet &, std::size_t, double = 4.0) const; ConstLanelets conflictingInGraphs(const ConstLanelet &, double = 4.0) const; };
}
namespace matching
{
using Hull2d = BasicPolygon2d; using Pose2d = Eigen::Transform<double, 2, Eigen::Isometry, Eigen::DontAlign>;
struct Object2d { Id objectId; Pose2d pose; Hull2d absoluteHull; };
struct LaneletMatch { Lanelet lanelet; double distance; }; struct ConstLaneletMatch { ConstLanelet lanelet; double distance; };
std::vector<LaneletMatch> getDeterministicMatches(LaneletMap &, const Object2d &, double); std::vector<ConstLaneletMatch> getDeterministicMatches(const LaneletMap &, const Object2d &, double);
template <class M> std::vector<M> removeNonRuleCompliantMatches(const std::vector<M> &, const traffic_rules::TrafficRulesPtr &);
}
namespace projection { class MGRSProjector : public Projector { public: explicit MGRSProjector(Origin = Origin({0, 0, 0})); void setMGRSCode(const std::string &); std::string getProjectedMGRSGrid() const; bool isMGRSCodeSet() const; }; class TransverseMercatorProjector : public Projector { public: explicit TransverseMercatorProjector(Origin, double = 0); }; class UtmProjector : public Projector { public: explicit UtmProjector(Origin); }; }
std::unique_ptr<LaneletMap> load(const std::string &, const Projector &, ErrorMessages * = nullptr); std::unique_ptr<LaneletMap> load(const std::string &, const Origin &);
namespace utils
{
Id getId(); void removeConst(); template <class C, class P> bool anyOf(const C &, P &&); template <class C, class F> auto transform(C &&, F &&) -> std::vector<std::decay_t<decltype(std::declval<F>()(*std::begin(std::declval<C>())))>>; template <class... Ts> bool contains(const Ts &...);
BasicPoint2d to2D(const BasicPoint3d &); BasicPoint2d to2D(const ConstPoint3d &); ConstLineString2d to2D(const ConstLineString3d &); BasicLineString2d to2D(const BasicLineString3d &); BasicPoint3d to3D(const BasicPoint2d &); 
double getLaneletLength2d(const ConstLanelet &); double getLaneletLength2d(const ConstLanelets &); double getLaneletLength3d(const ConstLanelet &); double getLaneletLength3d(const ConstLanelets &); double getLaneletAngle(const ConstLanelet &, const geometry_msgs::msg::Point &); bool isInLanelet(const geometry_msgs::msg::Pose &, const ConstLanelet &, double = 0.0); std::vector<ConstLanelet> getConflictingLanelets(const routing::RoutingGraphConstPtr &, const ConstLanelet &); void overwriteLaneletsCenterline(LaneletMapPtr, bool = false); void overwriteLaneletsCenterline(LaneletMapPtr, double, bool);
namespace conversion { void toBinMsg(const LaneletMapPtr &, autoware_map_msgs::msg::LaneletMapBin *); void fromBinMsg(const autoware_map_msgs::msg::LaneletMapBin &, LaneletMapPtr); template <class T> void toGeomMsgPt(const T &, geometry_msgs::msg::Point *); template <class T> geometry_msgs::msg::Point toGeomMsgPt(const T &); template <class T> BasicPoint3d toLaneletPoint(const T &); template <class T, class U> void toLaneletPoint(const T &, U *); }
namespace query { ConstLanelets laneletLayer(const LaneletMapPtr &); ConstLanelets laneletLayer(const LaneletMapConstPtr &); ConstLanelets subtypeLanelets(const ConstLanelets &, const char *); ConstLanelets crosswalkLanelets(const ConstLanelets &); ConstLanelets walkwayLanelets(const ConstLanelets &); ConstLanelets roadLanelets(const ConstLanelets &); ConstLanelets shoulderLanelets(const ConstLanelets &); std::vector<TrafficLight::ConstPtr> trafficLights(const ConstLanelets &); std::vector<AutowareTrafficLightConstPtr> autowareTrafficLights(const ConstLanelets &); std::vector<DetectionAreaConstPtr> detectionAreas(const ConstLanelets &); ConstLineStrings3d stopLinesLanelets(const ConstLanelets &); ConstLineStrings3d stopLinesLanelet(const ConstLanelet &); ConstPolygons3d getAllParkingLots(const LaneletMapConstPtr &); ConstLineStrings3d getAllParkingSpaces(const LaneletMapConstPtr &); ConstLanelets getSucceedingLaneletSequences(); std::vector<ConstLanelets> getPrecedingLaneletSequences(const routing::RoutingGraphPtr &, const ConstLanelet &, double); bool getClosestLanelet(const ConstLanelets &, const geometry_msgs::msg::Pose &, ConstLanelet *); }
}
namespace visualization { template <class... Ts> visualization_msgs::msg::MarkerArray laneletsBoundaryAsMarkerArray(const Ts &...); template <class... Ts> visualization_msgs::msg::MarkerArray laneletsAsTriangleMarkerArray(const Ts &...); template <class... Ts> visualization_msgs::msg::MarkerArray laneletDirectionAsMarkerArray(const Ts &...); template <class... Ts> visualization_msgs::msg::MarkerArray lineStringsAsMarkerArray(const Ts &...); template <class... Ts> visualization_msgs::msg::MarkerArray autowareTrafficLightsAsMarkerArray(const Ts &...); template <class... Ts> visualization_msgs::msg::MarkerArray detectionAreasAsMarkerArray(const Ts &...); template <class... Ts> visualization_msgs::msg::MarkerArray parkingLotsAsMarkerArray(const Ts &...); template <class... Ts> visualization_msgs::msg::MarkerArray parkingSpacesAsMarkerArray(const Ts &...); template <class... Ts> visualization_msgs::msg::MarkerArray generateLaneletIdMarker(const Ts &...); void setColor(std_msgs::msg::ColorRGBA *, float, float, float, float); }
}
