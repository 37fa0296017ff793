From ccbfe2727a48860aa3dc6cb69497ed2901332429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:34 +0000
Subject: [PATCH 01/40] fix: make notEqualTo the negation of equalTo for
 floating-point operands

---
 .../include/openscenario_interpreter/syntax/rule.hpp           | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/rule.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/rule.hpp
index 56b2e55..145a5ce 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/rule.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/rule.hpp
@@ -92,8 +92,7 @@ struct Rule
         return std::less_equal()(
           std::forward<decltype(lhs)>(lhs), std::forward<decltype(rhs)>(rhs));
       case notEqualTo:
-        return std::not_equal_to()(
-          std::forward<decltype(lhs)>(lhs), std::forward<decltype(rhs)>(rhs));
+        return !equal_to<T>()(std::forward<decltype(lhs)>(lhs), std::forward<decltype(rhs)>(rhs));
       default:
         return {};
     }
-- 
2.43.0


From df18e664ca5109a4b66359fa3ecc3901a5f31b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:33 +0000
Subject: [PATCH 02/40] fix: release the mutex before joining the watchdog in
 ~StatusMonitor

The watchdog may be about to lock the same mutex in write(), in which case
the destructor waited for it forever.
---
 common/status_monitor/src/status_monitor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/status_monitor/src/status_monitor.cpp b/common/status_monitor/src/status_monitor.cpp
index fc8fc0c..52619f7 100644
--- a/common/status_monitor/src/status_monitor.cpp
+++ b/common/status_monitor/src/status_monitor.cpp
@@ -59,7 +59,7 @@ StatusMonitor::StatusMonitor()
 
 StatusMonitor::~StatusMonitor()
 {
-  auto lock = std::scoped_lock<std::mutex>(mutex);
+  auto lock = std::unique_lock<std::mutex>(mutex);
 
   auto mark_as_exited = []() {
     if (auto iter = statuses.find(std::this_thread::get_id()); iter != std::end(statuses)) {
@@ -71,6 +71,7 @@ StatusMonitor::~StatusMonitor()
 
   if (not --count) {
     terminating.store(true, std::memory_order_release);
+    lock.unlock();  // NOTE: The watchdog needs the mutex to finish the write it may be in.
     watchdog.join();
     terminating.store(false, std::memory_order_release);
 
-- 
2.43.0


From 88f39fb151c4d9bc7dcfb6aca576796ca612e4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:45 +0000
Subject: [PATCH 03/40] fix: guard the exception passed from the TaskQueue
 dispatcher thread

rethrow() is called from other threads while the dispatcher may be storing
the exception, which was a data race on std::exception_ptr.
---
 external/concealer/src/task_queue.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/external/concealer/src/task_queue.cpp b/external/concealer/src/task_queue.cpp
index daf7642..cb6c56d 100644
--- a/external/concealer/src/task_queue.cpp
+++ b/external/concealer/src/task_queue.cpp
@@ -32,6 +32,7 @@ TaskQueue::TaskQueue()
         }
       }
     } catch (...) {
+      auto lock = std::unique_lock(thunks_mutex);
       thrown = std::current_exception();
     }
   })
@@ -66,7 +67,7 @@ auto TaskQueue::pop() -> void
 
 auto TaskQueue::rethrow() const -> void
 {
-  if (thrown) {
+  if (auto lock = std::unique_lock(thunks_mutex); thrown) {
     std::rethrow_exception(thrown);
   }
 }
-- 
2.43.0


From 83e754895dfa3176f50a7ced0fde181fa7798fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:45 +0000
Subject: [PATCH 04/40] fix: rethrow the exception of the spinner thread in
 AutowareUniverse::rethrow

'throw thrown' threw the std::exception_ptr itself, which no handler for
exceptions catches, instead of the exception it points to.
---
 external/concealer/src/autoware_universe.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/external/concealer/src/autoware_universe.cpp b/external/concealer/src/autoware_universe.cpp
index 46be450..146e294 100644
--- a/external/concealer/src/autoware_universe.cpp
+++ b/external/concealer/src/autoware_universe.cpp
@@ -185,7 +185,7 @@ AutowareUniverse::~AutowareUniverse()
 auto AutowareUniverse::rethrow() -> void
 {
   if (is_thrown.load()) {
-    throw thrown;
+    std::rethrow_exception(thrown);
   }
 }
 
-- 
2.43.0


From 5aadd201537438f466a82965b5ca6075dbb145b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:56 +0000
Subject: [PATCH 05/40] fix: hold the mutex while LaneletWrapper::activate
 replaces the map path

getInstance() reads the path and the instance under the mutex.
---
 .../traffic_simulator/src/lanelet_wrapper/lanelet_wrapper.cpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulation/traffic_simulator/src/lanelet_wrapper/lanelet_wrapper.cpp b/simulation/traffic_simulator/src/lanelet_wrapper/lanelet_wrapper.cpp
index 36c8e56..52599cc 100644
--- a/simulation/traffic_simulator/src/lanelet_wrapper/lanelet_wrapper.cpp
+++ b/simulation/traffic_simulator/src/lanelet_wrapper/lanelet_wrapper.cpp
@@ -22,9 +22,9 @@ namespace lanelet_wrapper
 {
 auto LaneletWrapper::activate(const std::string & lanelet_map_path) -> void
 {
+  std::lock_guard lock(mutex_);
   lanelet_map_path_ = lanelet_map_path;
   if (instance) {
-    std::lock_guard lock(mutex_);
     instance.reset();
   }
 }
-- 
2.43.0


From b39b35e5e1bb8070be3233cccfd9848cf8d349c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:32 +0000
Subject: [PATCH 06/40] fix: multiply and add unsigned parameters by the given
 value, not by its integer part

---
 .../openscenario_interpreter/syntax/unsigned_integer.hpp      | 4 ++--
 .../openscenario_interpreter/syntax/unsigned_short.hpp        | 4 ++--
 .../openscenario_interpreter/src/syntax/unsigned_integer.cpp  | 4 ++--
 .../openscenario_interpreter/src/syntax/unsigned_short.cpp    | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_integer.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_integer.hpp
index 8e05247..71ae575 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_integer.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_integer.hpp
@@ -37,9 +37,9 @@ struct UnsignedInteger
 
   auto operator++() noexcept -> UnsignedInteger &;
 
-  auto operator+=(const value_type &) -> UnsignedInteger &;
+  auto operator+=(const double &) -> UnsignedInteger &;
 
-  auto operator*=(const value_type &) -> UnsignedInteger &;
+  auto operator*=(const double &) -> UnsignedInteger &;
 
   operator value_type() const noexcept;
 };
diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_short.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_short.hpp
index 958076e..9d95245 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_short.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/unsigned_short.hpp
@@ -36,9 +36,9 @@ struct UnsignedShort
 
   auto operator++() noexcept -> UnsignedShort &;
 
-  auto operator+=(const value_type &) -> UnsignedShort &;
+  auto operator+=(const double &) -> UnsignedShort &;
 
-  auto operator*=(const value_type &) -> UnsignedShort &;
+  auto operator*=(const double &) -> UnsignedShort &;
 
   operator value_type() const noexcept;
 };
diff --git a/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp b/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp
index 4a2094c..d5e5ed5 100644
--- a/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/unsigned_integer.cpp
@@ -39,13 +39,13 @@ auto UnsignedInteger::operator++() noexcept -> UnsignedInteger &
   return *this;
 }
 
-auto UnsignedInteger::operator+=(const value_type & rhs) -> UnsignedInteger &
+auto UnsignedInteger::operator+=(const double & rhs) -> UnsignedInteger &
 {
   data += rhs;
   return *this;
 }
 
-auto UnsignedInteger::operator*=(const value_type & rhs) -> UnsignedInteger &
+auto UnsignedInteger::operator*=(const double & rhs) -> UnsignedInteger &
 {
   data *= rhs;
   return *this;
diff --git a/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp b/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp
index bfc23d9..5d51706 100644
--- a/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/unsigned_short.cpp
@@ -41,13 +41,13 @@ auto UnsignedShort::operator++() noexcept -> UnsignedShort &
   return *this;
 }
 
-auto UnsignedShort::operator+=(const value_type & rhs) -> UnsignedShort &
+auto UnsignedShort::operator+=(const double & rhs) -> UnsignedShort &
 {
   data += rhs;
   return *this;
 }
 
-auto UnsignedShort::operator*=(const value_type & rhs) -> UnsignedShort &
+auto UnsignedShort::operator*=(const double & rhs) -> UnsignedShort &
 {
   data *= rhs;
   return *this;
-- 
2.43.0


From 18a927c14f1fad3063c6059d601189cc812e2e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 07/40] fix: keep waiting in fork_exec when a signal interrupts
 waitpid

---
 .../openscenario_interpreter/src/posix/fork_exec.cpp      | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/posix/fork_exec.cpp b/openscenario/openscenario_interpreter/src/posix/fork_exec.cpp
index f45a27e..41214cd 100644
--- a/openscenario/openscenario_interpreter/src/posix/fork_exec.cpp
+++ b/openscenario/openscenario_interpreter/src/posix/fork_exec.cpp
@@ -15,6 +15,7 @@
 #include <sys/types.h>
 #include <sys/wait.h>
 
+#include <cerrno>
 #include <iostream>
 #include <openscenario_interpreter/posix/fork_exec.hpp>
 #include <openscenario_interpreter/string/split.hpp>
@@ -64,9 +65,10 @@ pid_t fork_exec(const std::vector<std::string> & f_xs)
         break;
 
       default:
-        do {
-          ::waitpid(pid, &status, WUNTRACED);
-        } while (!WIFEXITED(status) && !WIFSIGNALED(status));
+        while (::waitpid(pid, &status, WUNTRACED) < 0
+                 ? errno == EINTR
+                 : !WIFEXITED(status) && !WIFSIGNALED(status)) {
+        }
     }
 
     return pid;
-- 
2.43.0


From 50e4938fa58f9ed4d3fa3765b100290fd072b776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 08/40] fix: reject FaultInjectionAction@v2 without its two
 arguments

---
 .../src/syntax/custom_command_action.cpp                   | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openscenario/openscenario_interpreter/src/syntax/custom_command_action.cpp b/openscenario/openscenario_interpreter/src/syntax/custom_command_action.cpp
index c770467..3b08d8b 100644
--- a/openscenario/openscenario_interpreter/src/syntax/custom_command_action.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/custom_command_action.cpp
@@ -95,6 +95,13 @@ struct ApplyFaultInjectionAction : public CustomCommand
         }
       };
 
+      if (parameters.size() != 2) {
+        throw Error(
+          "An unexpected number of arguments were passed to FaultInjectionAction@v2. Expected 2 "
+          "arguments, but actually passed ",
+          parameters.size(), ".");
+      }
+
       simulation_events.fault_injection_events.push_back(
         makeFaultInjectionEvent(makeFaultInjectionEventLevel(parameters[0]), parameters[1]));
     }
-- 
2.43.0


From 78a34fb9ac3fb1109fa5ac2bca8b0a4c1796db60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:17 +0000
Subject: [PATCH 09/40] fix: accept an empty reference instead of reading a
 reversed range

---
 .../include/openscenario_interpreter/name.hpp                   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/name.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/name.hpp
index 299f613..5a73456 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/name.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/name.hpp
@@ -57,7 +57,7 @@ struct Prefixed  // NOTE: 1.4.5. Naming conventions for OpenSCENARIO references
   }
 
   explicit Prefixed(const std::vector<std::string> given)
-  : absolute(not given.empty() and given.front().empty()),
+  : absolute(1 < given.size() and given.front().empty()),
     prefixes(
       absolute ? std::next(std::begin(given)) : std::begin(given), std::prev(std::end(given))),
     name(given.back())
-- 
2.43.0


From fe455fa50aa73eec5966834e59b47bd2f79b51a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:17 +0000
Subject: [PATCH 10/40] fix: reject a reference whose first prefix names no
 scope instead of dropping the prefix

---
 .../openscenario_interpreter/src/scope.cpp    | 31 ++++++++++---------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/scope.cpp b/openscenario/openscenario_interpreter/src/scope.cpp
index 9aa255b..7feecfd 100644
--- a/openscenario/openscenario_interpreter/src/scope.cpp
+++ b/openscenario/openscenario_interpreter/src/scope.cpp
@@ -69,22 +69,25 @@ auto EnvironmentFrame::lookupFrame(const Prefixed<Name> & prefixed_name) const
 {
   assert(not prefixed_name.prefixes.empty());
 
-  if (isOutermost()) {
-    return this;
-  } else {
-    auto sibling_scope = outer_frame->resolvePrefix(prefixed_name);
-    switch (sibling_scope.size()) {
-      case 0:
-        assert(outer_frame);
-        return outer_frame->lookupFrame(prefixed_name);
-      case 1:
-        assert(sibling_scope.front());
-        return sibling_scope.front();
-      default:
+  const auto & enclosing_frame = isOutermost() ? *this : *outer_frame;
+
+  auto sibling_scope = enclosing_frame.resolvePrefix(prefixed_name);
+  switch (sibling_scope.size()) {
+    case 0:
+      if (enclosing_frame.isOutermost()) {
         throw SyntaxError(
-          "There are multiple StoryboardElements that can be referenced by the name ",
+          "There is no StoryboardElement that can be referenced by the name ",
           std::quoted(boost::lexical_cast<std::string>(prefixed_name)), ".");
-    }
+      } else {
+        return enclosing_frame.lookupFrame(prefixed_name);
+      }
+    case 1:
+      assert(sibling_scope.front());
+      return sibling_scope.front();
+    default:
+      throw SyntaxError(
+        "There are multiple StoryboardElements that can be referenced by the name ",
+        std::quoted(boost::lexical_cast<std::string>(prefixed_name)), ".");
   }
 }
 
-- 
2.43.0


From 213b29cac9890d061ac8c121cebbaf5b67657905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:04 +0000
Subject: [PATCH 11/40] fix: name every behavior request and routing graph type

---
 simulation/traffic_simulator/src/data_type/behavior.cpp   | 8 ++++++++
 .../src/data_type/routing_graph_type.cpp                  | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/simulation/traffic_simulator/src/data_type/behavior.cpp b/simulation/traffic_simulator/src/data_type/behavior.cpp
index 74b8cc9..9a164ac 100644
--- a/simulation/traffic_simulator/src/data_type/behavior.cpp
+++ b/simulation/traffic_simulator/src/data_type/behavior.cpp
@@ -30,6 +30,10 @@ std::ostream & operator<<(std::ostream & stream, const Request & value)
       return stream << "FOLLOW_LANE";
     case Request::FOLLOW_POLYLINE_TRAJECTORY:
       return stream << "FOLLOW_POLYLINE_TRAJECTORY";
+    case Request::FOLLOW_CLOTHOID_TRAJECTORY:
+      return stream << "FOLLOW_CLOTHOID_TRAJECTORY";
+    case Request::FOLLOW_NURBS_TRAJECTORY:
+      return stream << "FOLLOW_NURBS_TRAJECTORY";
     case Request::WALK_STRAIGHT:
       return stream << "WALK_STRAIGHT";
   }
@@ -46,6 +50,10 @@ std::string getRequestString(const Request & request)
       return "follow_lane";
     case Request::FOLLOW_POLYLINE_TRAJECTORY:
       return "follow_polyline_trajectory";
+    case Request::FOLLOW_CLOTHOID_TRAJECTORY:
+      return "follow_clothoid_trajectory";
+    case Request::FOLLOW_NURBS_TRAJECTORY:
+      return "follow_nurbs_trajectory";
     case Request::WALK_STRAIGHT:
       return "walk_straight";
     default:
diff --git a/simulation/traffic_simulator/src/data_type/routing_graph_type.cpp b/simulation/traffic_simulator/src/data_type/routing_graph_type.cpp
index 519b3de..e9df59e 100644
--- a/simulation/traffic_simulator/src/data_type/routing_graph_type.cpp
+++ b/simulation/traffic_simulator/src/data_type/routing_graph_type.cpp
@@ -25,6 +25,8 @@ char const * to_string(const RoutingGraphType & type)
       return "VEHICLE";
     case RoutingGraphType::PEDESTRIAN:
       return "PEDESTRIAN";
+    case RoutingGraphType::VEHICLE_WITH_ROAD_SHOULDER:
+      return "VEHICLE_WITH_ROAD_SHOULDER";
     default:
       return "UNKNOWN";
   }
-- 
2.43.0


From 4cef6e431a6ccb800baace6026d82c0031f4d575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:52 +0000
Subject: [PATCH 12/40] fix: start a grid traversal in the cell of its start,
 also on grid lines and at negative coordinates

---
 .../sensor_simulation/occupancy_grid/grid_traversal.cpp   | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp
index 39e56d4..ba45be2 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/grid_traversal.cpp
@@ -33,11 +33,13 @@ GridTraversal::GridTraversal(double start_x, double start_y, double end_x, doubl
 
 auto GridTraversal::begin() const -> Iterator
 {
-  double tx = vx_ > 0 ? std::ceil(start_x_) : std::floor(start_x_);
-  double ty = vy_ > 0 ? std::ceil(start_y_) : std::floor(start_y_);
+  const double x = std::floor(start_x_);
+  const double y = std::floor(start_y_);
+  double tx = vx_ > 0 ? x + 1 : x;
+  double ty = vy_ > 0 ? y + 1 : y;
   tx = vx_ != 0 ? (tx - start_x_) / vx_ : tdx_;
   ty = vy_ != 0 ? (ty - start_y_) / vy_ : tdy_;
-  return {this, tx, ty, int32_t(start_x_), int32_t(start_y_)};
+  return {this, tx, ty, int32_t(x), int32_t(y)};
 }
 
 auto GridTraversal::end() const -> Sentinel { return {}; }
-- 
2.43.0


From a2b73949106c9cffa7ca04418dc60c20de6fe571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:57 +0000
Subject: [PATCH 13/40] fix: turn a point about the origin of the occupancy
 grid instead of about the map

---
 .../sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp
index 53e8456..079d4e5 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp
@@ -45,7 +45,7 @@ auto OccupancyGridBuilder::transformToGrid(const PointType & p) const -> PointTy
   const auto & r = origin_.orientation;
   const auto & o = origin_.position;
   const auto np =
-    (Quat(r.w, r.x, r.y, r.z).conjugate() * Vec3(p.x, p.y, p.z) - Vec3(o.x, o.y, o.z)).eval();
+    (Quat(r.w, r.x, r.y, r.z).conjugate() * (Vec3(p.x, p.y, p.z) - Vec3(o.x, o.y, o.z))).eval();
   return makePoint(np.x(), np.y(), np.z());
 }
 
-- 
2.43.0


From 6d2ddb5c7938c0bdded1787f5d86d0632d012b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:57 +0000
Subject: [PATCH 14/40] fix: mark an obstacle that lies within one cell of the
 occupancy grid

---
 .../occupancy_grid/occupancy_grid_builder.cpp      | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp
index 079d4e5..2616b01 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp
@@ -201,15 +201,21 @@ auto OccupancyGridBuilder::addPolygon(MarkerGridType & grid, const PolygonType &
   min_cols_.assign(min_cols_.size(), width);  // Leftmost marked cells of each rows
   max_cols_.assign(max_cols_.size(), -1);     // Rightmost marked cells of each rows
 
+  const auto mark = [this](int32_t col, int32_t row) {
+    if (row >= 0 && row < int32_t(height)) {
+      min_cols_[row] = std::min(min_cols_[row], col);
+      max_cols_[row] = std::max(max_cols_[row], col);
+    }
+  };
+
   // Traverse each polygon edges on grid coordinate and update `min_cols_` and `max_cols_`
   for (size_t i = 0; i < convex_hull.size(); ++i) {
     const auto p = transformToPixel(convex_hull[i]);
     const auto q = transformToPixel(convex_hull[(i + 1) % convex_hull.size()]);
+    // An edge that stays in the cell of its start has no cell to traverse
+    mark(std::floor(p.x), std::floor(p.y));
     for (auto [col, row] : GridTraversal(p.x, p.y, q.x, q.y)) {
-      if (row >= 0 && row < int32_t(height)) {
-        min_cols_[row] = std::min(min_cols_[row], col);
-        max_cols_[row] = std::max(max_cols_[row], col);
-      }
+      mark(col, row);
     }
   }
 
-- 
2.43.0


From 9cfe780c1232cdc05bd7c46068173e24b6dd4fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:57 +0000
Subject: [PATCH 15/40] fix: place the origin of an occupancy grid by its width
 along x and its height along y

---
 .../occupancy_grid/occupancy_grid_sensor.cpp                  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_sensor.cpp b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_sensor.cpp
index c48ecc4..1dacd42 100644
--- a/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_sensor.cpp
+++ b/simulation/simple_sensor_simulator/src/sensor_simulation/occupancy_grid/occupancy_grid_sensor.cpp
@@ -149,8 +149,8 @@ auto OccupancyGridSensor<nav_msgs::msg::OccupancyGrid>::getOccupancyGrid(
   res.info.map_load_time = stamp;
   res.info.resolution = configuration_.resolution();
   res.info.origin = ego_pose_north_up;
-  res.info.origin.position.x -= 0.5 * configuration_.height() * configuration_.resolution();
-  res.info.origin.position.y -= 0.5 * configuration_.width() * configuration_.resolution();
+  res.info.origin.position.x -= 0.5 * configuration_.width() * configuration_.resolution();
+  res.info.origin.position.y -= 0.5 * configuration_.height() * configuration_.resolution();
   return res;
 }
 }  // namespace simple_sensor_simulator
-- 
2.43.0


From e923a591b02686caea6c000e375d3c5415294eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:23 +0000
Subject: [PATCH 16/40] fix: sum up the durations of the phases of a traffic
 signal controller as they are, not as integers

---
 .../src/syntax/traffic_signal_controller.cpp                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
index e40ead1..aacbf40 100644
--- a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
@@ -100,7 +100,7 @@ auto TrafficSignalController::currentPhaseSince() const -> double
 auto TrafficSignalController::cycleTime() const -> double
 {
   return std::accumulate(
-    std::cbegin(phases), std::cend(phases), 0,
+    std::cbegin(phases), std::cend(phases), 0.0,
     [](const auto & sum, const auto & phase) { return sum + phase.duration; });
 }
 
-- 
2.43.0


From d325af7498465dc926e1d6a2c80fb158ed65c4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:32 +0000
Subject: [PATCH 17/40] fix: name no phase of a traffic signal controller
 before the first one has begun

---
 .../src/syntax/traffic_signal_controller.cpp                   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
index aacbf40..f3222ef 100644
--- a/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/traffic_signal_controller.cpp
@@ -89,7 +89,8 @@ auto TrafficSignalController::currentPhaseExceeded() const -> bool
 
 auto TrafficSignalController::currentPhaseName() const -> const String &
 {
-  return (*current_phase).name;
+  static const String none;  // No phase has begun yet
+  return current_phase != std::end(phases) ? (*current_phase).name : none;
 }
 
 auto TrafficSignalController::currentPhaseSince() const -> double
-- 
2.43.0


From a3ff355b5ba0042f193cf587142839e78835b06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:38 +0000
Subject: [PATCH 18/40] fix: find the real roots of a cubic equation that has a
 triple root, or nearly one

Where the depressed cubic has no positive q, its square root is not a number (or the
division by the root of q^3 is one of zero by zero), so that every root was lost.
---
 common/math/geometry/src/solver/polynomial_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/math/geometry/src/solver/polynomial_solver.cpp b/common/math/geometry/src/solver/polynomial_solver.cpp
index 17eddcc..d6d7fd5 100644
--- a/common/math/geometry/src/solver/polynomial_solver.cpp
+++ b/common/math/geometry/src/solver/polynomial_solver.cpp
@@ -189,7 +189,7 @@ auto PolynomialSolver::solveMonicCubicEquationWithComplex(
     // clang-format off
     [this, a](const auto q, const auto r) -> std::vector<std::complex<double>> {
     // clang-format on
-    if (const double q3 = q * q * q; r * r <= (q3 + tolerance)) {
+    if (const double q3 = q * q * q; q > 0 and r * r <= (q3 + tolerance)) {
       /**
        * @note If 3 real solutions are found.
        * The URL specified in @sa is a reference material for developers who wish to follow the formulas,
-- 
2.43.0


From 3e6fb553693c6ed4f3b655b96279ec909f111405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:38 +0000
Subject: [PATCH 19/40] fix: tell the slope of a line segment that runs towards
 negative x

---
 common/math/geometry/src/polygon/line_segment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/math/geometry/src/polygon/line_segment.cpp b/common/math/geometry/src/polygon/line_segment.cpp
index 791fb8f..d1f87e0 100644
--- a/common/math/geometry/src/polygon/line_segment.cpp
+++ b/common/math/geometry/src/polygon/line_segment.cpp
@@ -225,7 +225,7 @@ auto LineSegment::getNormalVector() const -> geometry_msgs::msg::Vector3
 
 auto LineSegment::get2DVectorSlope() const -> double
 {
-  if (vector_2d.x <= std::numeric_limits<double>::epsilon()) {
+  if (std::abs(vector_2d.x) <= std::numeric_limits<double>::epsilon()) {
     THROW_SIMULATION_ERROR("Slope of a vertical line is undefined");
   } else {
     return vector_2d.y / vector_2d.x;
-- 
2.43.0


From e5417c873c86189fc215fd9f3f2eee9f280cc31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:46 +0000
Subject: [PATCH 20/40] fix: tell the angle between two vectors whose cosine is
 rounded out of [-1, 1]

---
 .../geometry/include/geometry/vector3/internal_angle.hpp   | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/common/math/geometry/include/geometry/vector3/internal_angle.hpp b/common/math/geometry/include/geometry/vector3/internal_angle.hpp
index 30168a2..6e6f7b4 100644
--- a/common/math/geometry/include/geometry/vector3/internal_angle.hpp
+++ b/common/math/geometry/include/geometry/vector3/internal_angle.hpp
@@ -15,6 +15,8 @@
 #ifndef GEOMETRY__VECTOR3__INTERNAL_ANGLE_HPP_
 #define GEOMETRY__VECTOR3__INTERNAL_ANGLE_HPP_
 
+#include <algorithm>
+#include <cmath>
 #include <geometry/vector3/inner_product.hpp>
 #include <geometry/vector3/is_like_vector3.hpp>
 #include <geometry/vector3/norm.hpp>
@@ -31,8 +33,9 @@ template <
 auto getInternalAngle(const T & v0, const U & v1)
 {
   const auto val = innerProduct(v0, v1) / (norm(v0) * norm(v1));
-  if (-1 <= val && val <= 1) {
-    return std::acos(val);
+  if (not std::isnan(val)) {
+    // NOTE: Rounding may bring the cosine of the angle slightly out of the range of [-1, 1].
+    return std::acos(std::clamp<double>(val, -1, 1));
   }
   THROW_SIMULATION_ERROR(
     "value of v0*v1/(size(v0)*size(v1)) in vector v0 : ", v0.x, ",", v0.y, ",", v0.z,
-- 
2.43.0


From 796576cf8e07569915b5b58f3f9ee8e8d1c2a624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:46 +0000
Subject: [PATCH 21/40] fix: interpolate quaternions whose inner product is
 rounded out of [-1, 1]

---
 common/math/geometry/include/geometry/quaternion/slerp.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/math/geometry/include/geometry/quaternion/slerp.hpp b/common/math/geometry/include/geometry/quaternion/slerp.hpp
index 1207de2..dbdcf8a 100644
--- a/common/math/geometry/include/geometry/quaternion/slerp.hpp
+++ b/common/math/geometry/include/geometry/quaternion/slerp.hpp
@@ -15,6 +15,7 @@
 #ifndef GEOMETRY__QUATERNION__SLERP_HPP_
 #define GEOMETRY__QUATERNION__SLERP_HPP_
 
+#include <algorithm>
 #include <cmath>
 #include <geometry/quaternion/is_like_quaternion.hpp>
 #include <geometry_msgs/msg/quaternion.hpp>
@@ -29,7 +30,9 @@ template <
     std::nullptr_t> = nullptr>
 auto slerp(T quat1, U quat2, V t)
 {
-  double qr = quat1.w * quat2.w + quat1.x * quat2.x + quat1.y * quat2.y + quat1.z * quat2.z;
+  // NOTE: Rounding may bring the inner product of unit quaternions slightly out of the range of [-1, 1].
+  double qr = std::clamp<double>(
+    quat1.w * quat2.w + quat1.x * quat2.x + quat1.y * quat2.y + quat1.z * quat2.z, -1.0, 1.0);
   double ss = 1.0 - qr * qr;
   constexpr double e = std::numeric_limits<double>::epsilon();
   if (std::fabs(ss) <= e) {
-- 
2.43.0


From bdd52df12bdeef9924ce2bc0fc9008005c950e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:35 +0000
Subject: [PATCH 22/40] fix: LineSegment::relativePointPosition2D told left
 from right the wrong way round

It is documented to return 1 for a point to the left of the segment and -1 for
one to the right, and returned the opposite.  Its callers in
intersection.cpp only compare the results with one another.
---
 common/math/geometry/src/polygon/line_segment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/math/geometry/src/polygon/line_segment.cpp b/common/math/geometry/src/polygon/line_segment.cpp
index d1f87e0..46069b7 100644
--- a/common/math/geometry/src/polygon/line_segment.cpp
+++ b/common/math/geometry/src/polygon/line_segment.cpp
@@ -362,7 +362,7 @@ auto LineSegment::relativePointPosition2D(const geometry_msgs::msg::Point & poin
 {
   constexpr double tolerance = std::numeric_limits<double>::epsilon();
   const double determinant =
-    vector_2d.y * (point.x - end_point.x) - vector_2d.x * (point.y - end_point.y);
+    vector_2d.x * (point.y - end_point.y) - vector_2d.y * (point.x - end_point.x);
   return static_cast<int>(determinant > tolerance) - static_cast<int>(determinant < -tolerance);
 }
 
-- 
2.43.0


From fcbea7d88f609670127f9c1a8ce57f3a3a70f739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:39 +0000
Subject: [PATCH 23/40] fix: isDefinitelyLessThan compares four or more numbers

With four or more arguments the rest was given to the local comparison of two
numbers, which did not compile.
---
 .../arithmetic/include/arithmetic/floating_point/comparison.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/math/arithmetic/include/arithmetic/floating_point/comparison.hpp b/common/math/arithmetic/include/arithmetic/floating_point/comparison.hpp
index b720e58..4652247 100644
--- a/common/math/arithmetic/include/arithmetic/floating_point/comparison.hpp
+++ b/common/math/arithmetic/include/arithmetic/floating_point/comparison.hpp
@@ -44,7 +44,7 @@ auto isDefinitelyLessThan(T a, T b, Ts... xs)
   };
 
   if constexpr (0 < sizeof...(Ts)) {
-    return compare(a, b) and compare(b, xs...);
+    return compare(a, b) and isDefinitelyLessThan(b, xs...);
   } else {
     return compare(a, b);
   }
-- 
2.43.0


From 582d8137783a212bb4736d3df0206bcceb743242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:21 +0000
Subject: [PATCH 24/40] fix: an error of description() gets out instead of
 ending the process

---
 .../type_traits/if_has_member_function_description.hpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/type_traits/if_has_member_function_description.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/type_traits/if_has_member_function_description.hpp
index 004095e..aefe8d5 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/type_traits/if_has_member_function_description.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/type_traits/if_has_member_function_description.hpp
@@ -31,7 +31,7 @@ template <typename T>
 struct IfHasMemberFunctionDescription<
   T, typename std::enable_if<HasMemberFunctionDescription<T>::value>::type>
 {
-  static constexpr decltype(auto) invoke(const T & then) noexcept { return then.description(); }
+  static constexpr decltype(auto) invoke(const T & then) { return then.description(); }
 };
 }  // namespace type_traits
 }  // namespace openscenario_interpreter
-- 
2.43.0


From 07911a8d50d75fc39fa6590d63e79ceeaeb203f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:16 +0000
Subject: [PATCH 25/40] fix: a complete storyboard element is not stopped again

---
 .../openscenario_interpreter/syntax/storyboard_element.hpp       | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
index 060506e..245fc34 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element.hpp
@@ -90,6 +90,7 @@ public:
   {
     if (
       not is<StoryboardElementState::standbyState>() and
+      not is<StoryboardElementState::completeState>() and
       not is<StoryboardElementState::stopTransition>()) {
       transitionTo(stop_transition);
     }
-- 
2.43.0


From c5f55026f8217fd7a22cd870fecc9197164ab117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:16 +0000
Subject: [PATCH 26/40] fix: an event that overrides the others is not stopped
 itself

---
 .../openscenario_interpreter/src/syntax/maneuver.cpp        | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/maneuver.cpp b/openscenario/openscenario_interpreter/src/syntax/maneuver.cpp
index 8bd3fc4..1138329 100644
--- a/openscenario/openscenario_interpreter/src/syntax/maneuver.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/maneuver.cpp
@@ -48,7 +48,11 @@ auto Maneuver::overrideEvents() -> void
 {
   for (auto && element : elements) {
     assert(element.is<Event>());
-    element.as<Event>().override();
+    // NOTE: The event in startTransition is the one that overrides the others.
+    if (auto & event = element.as<Event>();
+        not event.is<StoryboardElementState::startTransition>()) {
+      event.override();
+    }
   }
 }
 
-- 
2.43.0


From fef4cc8e249898201fd6e909c120cb2cd2a420c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:15 +0000
Subject: [PATCH 27/40] fix: a state condition is true only for transitions
 since its last evaluation

---
 .../syntax/storyboard_element_state_condition.hpp      |  2 ++
 .../src/syntax/storyboard_element_state_condition.cpp  | 10 +++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element_state_condition.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element_state_condition.hpp
index fde34c8..79284be 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element_state_condition.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/storyboard_element_state_condition.hpp
@@ -43,6 +43,8 @@ struct StoryboardElementStateCondition : private Scope
 
   StoryboardElementState current_state;
 
+  bool transitioned = false;
+
   explicit StoryboardElementStateCondition(const pugi::xml_node &, const Scope &);
 
   auto description() const -> String;
diff --git a/openscenario/openscenario_interpreter/src/syntax/storyboard_element_state_condition.cpp b/openscenario/openscenario_interpreter/src/syntax/storyboard_element_state_condition.cpp
index 5d8758f..dc7f412 100644
--- a/openscenario/openscenario_interpreter/src/syntax/storyboard_element_state_condition.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/storyboard_element_state_condition.cpp
@@ -16,6 +16,7 @@
 #include <openscenario_interpreter/syntax/storyboard.hpp>
 #include <openscenario_interpreter/syntax/storyboard_element.hpp>
 #include <openscenario_interpreter/syntax/storyboard_element_state_condition.hpp>
+#include <utility>
 
 namespace openscenario_interpreter
 {
@@ -47,6 +48,7 @@ StoryboardElementStateCondition::StoryboardElementStateCondition(
       .ref<StoryboardElement>(storyboard_element_ref)
       .addTransitionCallback(state, [this](auto && storyboard_element) {
         current_state = storyboard_element.state().template as<StoryboardElementState>();
+        transitioned = transitioned or current_state == state;
       });
   };
 
@@ -73,19 +75,21 @@ auto StoryboardElementStateCondition::evaluate() -> Object
   };
 
   /*
-     Note that current_state may have been updated by a callback function set
+     Note that transitioned may have been updated by a callback function set
      in the constructor (before this member function was called).  And at this
      point local().ref<StoryboardElement>(storyboard_element_ref).state() may
      have transitioned to a different state than the one recorded in
      current_state.
 
      Therefore, we must first check to see if the callback function has updated
-     current_state (= has the StoryboardElement transitioned to the monitored
+     transitioned (= has the StoryboardElement transitioned to the monitored
      state at least once since the last time evaluate was called), and then
      check to see if the current StoryboardElement state is indeed the state
      being monitored.
   */
-  return asBoolean(current_state == state or update() == state);
+  const auto transitioned_since_last_evaluation = std::exchange(transitioned, false);
+
+  return asBoolean(update() == state or transitioned_since_last_evaluation);
 }
 }  // namespace syntax
 }  // namespace openscenario_interpreter
-- 
2.43.0


From 3fb52ed37a48ca5d8336235a67f15ec90d0c5901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:09 +0000
Subject: [PATCH 28/40] fix: the range of a distribution is read from its Range
 element

---
 .../openscenario_interpreter/src/syntax/histogram_bin.cpp       | 2 +-
 .../openscenario_interpreter/src/syntax/normal_distribution.cpp | 2 +-
 .../src/syntax/poisson_distribution.cpp                         | 2 +-
 .../src/syntax/uniform_distribution.cpp                         | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/histogram_bin.cpp b/openscenario/openscenario_interpreter/src/syntax/histogram_bin.cpp
index efba445..f11d485 100644
--- a/openscenario/openscenario_interpreter/src/syntax/histogram_bin.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/histogram_bin.cpp
@@ -20,7 +20,7 @@ namespace openscenario_interpreter
 inline namespace syntax
 {
 HistogramBin::HistogramBin(const pugi::xml_node & node, openscenario_interpreter::Scope & scope)
-: range(readElement<Range>("range", node, scope)),
+: range(readElement<Range>("Range", node, scope)),
   weight(readAttribute<Double>("weight", node, scope))
 {
 }
diff --git a/openscenario/openscenario_interpreter/src/syntax/normal_distribution.cpp b/openscenario/openscenario_interpreter/src/syntax/normal_distribution.cpp
index 03ee4cd..6200f33 100644
--- a/openscenario/openscenario_interpreter/src/syntax/normal_distribution.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/normal_distribution.cpp
@@ -22,7 +22,7 @@ inline namespace syntax
 NormalDistribution::NormalDistribution(
   const pugi::xml_node & node, openscenario_interpreter::Scope & scope)
 : Scope(scope),
-  range(readElement<Range>("range", node, scope)),
+  range(readElement<Range>("Range", node, scope)),
   expected_value(readAttribute<Double>("expectedValue", node, scope)),
   variance(readAttribute<Double>("variance", node, scope)),
   distribute(static_cast<double>(expected_value.data), static_cast<double>(variance.data)),
diff --git a/openscenario/openscenario_interpreter/src/syntax/poisson_distribution.cpp b/openscenario/openscenario_interpreter/src/syntax/poisson_distribution.cpp
index 032bf5a..7066976 100644
--- a/openscenario/openscenario_interpreter/src/syntax/poisson_distribution.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/poisson_distribution.cpp
@@ -22,7 +22,7 @@ inline namespace syntax
 PoissonDistribution::PoissonDistribution(
   const pugi::xml_node & node, openscenario_interpreter::Scope & scope)
 : Scope(scope),
-  range(readElement<Range>("range", node, scope)),
+  range(readElement<Range>("Range", node, scope)),
   expected_value(readAttribute<Double>("expectedValue", node, scope)),
   distribute(expected_value.data),
   random_engine(scope.seed)
diff --git a/openscenario/openscenario_interpreter/src/syntax/uniform_distribution.cpp b/openscenario/openscenario_interpreter/src/syntax/uniform_distribution.cpp
index 8bf6bb4..14b8644 100644
--- a/openscenario/openscenario_interpreter/src/syntax/uniform_distribution.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/uniform_distribution.cpp
@@ -22,7 +22,7 @@ inline namespace syntax
 UniformDistribution::UniformDistribution(
   const pugi::xml_node & node, openscenario_interpreter::Scope & scope)
 : Scope(scope),
-  range(readElement<Range>("range", node, scope)),
+  range(readElement<Range>("Range", node, scope)),
   distribute(range.lower_limit.data, range.upper_limit.data),
   random_engine(scope.seed)
 {
-- 
2.43.0


From 2ea1670e5b02481a84dc8042545730c606a93d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:09 +0000
Subject: [PATCH 29/40] fix: a parameter value distribution file is read as one

---
 .../src/syntax/open_scenario_category.cpp                     | 4 ++--
 .../src/syntax/parameter_value_distribution_definition.cpp    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/open_scenario_category.cpp b/openscenario/openscenario_interpreter/src/syntax/open_scenario_category.cpp
index e7ee145..2ebc7e2 100644
--- a/openscenario/openscenario_interpreter/src/syntax/open_scenario_category.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/open_scenario_category.cpp
@@ -14,7 +14,7 @@
 
 #include <openscenario_interpreter/syntax/catalog_definition.hpp>
 #include <openscenario_interpreter/syntax/open_scenario_category.hpp>
-#include <openscenario_interpreter/syntax/parameter_value_distribution_definition.hpp>
+#include <openscenario_interpreter/syntax/parameter_value_distribution.hpp>
 #include <openscenario_interpreter/syntax/scenario_definition.hpp>
 
 namespace openscenario_interpreter
@@ -27,7 +27,7 @@ OpenScenarioCategory::OpenScenarioCategory(const pugi::xml_node & tree, Scope &
     choice(tree, {
       { "Storyboard",                [&](auto &&     ) { return make<ScenarioDefinition                  >(tree, scope); } },  // DIRTY HACK!!!
       { "Catalog",                   [&](auto &&     ) { return make<CatalogDefinition                   >(tree, scope); } },
-      { "ParameterValueDistribution",[&](auto && node) { return make<ParameterValueDistributionDefinition>(node, scope); } },
+      { "ParameterValueDistribution",[&](auto && node) { return make<ParameterValueDistribution          >(node, scope); } },
     }))
 // clang-format on
 {
diff --git a/openscenario/openscenario_interpreter/src/syntax/parameter_value_distribution_definition.cpp b/openscenario/openscenario_interpreter/src/syntax/parameter_value_distribution_definition.cpp
index a95da7e..3deb582 100644
--- a/openscenario/openscenario_interpreter/src/syntax/parameter_value_distribution_definition.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/parameter_value_distribution_definition.cpp
@@ -22,7 +22,7 @@ inline namespace syntax
 ParameterValueDistributionDefinition::ParameterValueDistributionDefinition(
   const pugi::xml_node & node, Scope & scope)
 : ParameterValueDistribution(
-    readElement<ParameterValueDistribution>("parameterValueDistribution", node, scope))
+    readElement<ParameterValueDistribution>("ParameterValueDistribution", node, scope))
 {
 }
 }  // namespace syntax
-- 
2.43.0


From 3d0a2ac26ed64dfb7cb74ad93b3fdb94756e1557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:09 +0000
Subject: [PATCH 30/40] fix: a catalog may hold more than one entry of a kind

---
 openscenario/openscenario_interpreter/src/syntax/catalog.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/catalog.cpp b/openscenario/openscenario_interpreter/src/syntax/catalog.cpp
index a0ad96c..7bf7f8d 100644
--- a/openscenario/openscenario_interpreter/src/syntax/catalog.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/catalog.cpp
@@ -32,7 +32,7 @@ Catalog::Catalog(const pugi::xml_node & node, Scope & scope)
 : name(readAttribute<std::string>("name", node, scope))
 {
 #define READ_CATEGORY(TYPE)                                  \
-  traverse<0, 1>(node, #TYPE, [&](auto && each) {            \
+  traverse<0, unbounded>(node, #TYPE, [&](auto && each) {    \
     const auto element = make<TYPE>(each, scope);            \
     scope.insert(element.template as<TYPE>().name, element); \
   })
-- 
2.43.0


From d69ac267e6d6bd04a4b5fe7d0c8574cb618830e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:45 +0000
Subject: [PATCH 31/40] fix: attributes the schema makes optional may be left
 out

---
 docs/developer_guide/OpenSCENARIOSupport.md                | 3 +--
 .../syntax/time_to_collision_condition.hpp                 | 4 ++--
 .../src/syntax/follow_trajectory_action.cpp                | 2 +-
 .../openscenario_interpreter/src/syntax/pedestrian.cpp     | 2 +-
 .../openscenario_interpreter/src/syntax/road_condition.cpp | 2 +-
 .../src/syntax/time_headway_condition.cpp                  | 2 +-
 .../openscenario_interpreter/src/syntax/weather.cpp        | 7 ++++---
 7 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/docs/developer_guide/OpenSCENARIOSupport.md b/docs/developer_guide/OpenSCENARIOSupport.md
index 6e338c2..ab2bb4a 100644
--- a/docs/developer_guide/OpenSCENARIOSupport.md
+++ b/docs/developer_guide/OpenSCENARIOSupport.md
@@ -719,8 +719,7 @@ Currently, the only way to know the result of the simulation is by viewing the s
 
 - Property `role` is ignored.
     - The simulator does not take into account `role`.
-- Property `model` deprecated version 1.1 is ignored but mandatory.
-    - Maybe this is simulator bug and need to be fixed.
+- Property `model` deprecated version 1.1 is ignored.
 
 #### PedestrianCategory
 
diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/time_to_collision_condition.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/time_to_collision_condition.hpp
index 3dc68ba..2e58bce 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/time_to_collision_condition.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/time_to_collision_condition.hpp
@@ -91,8 +91,8 @@ struct TimeToCollisionCondition : private Scope, private SimulatorCore::Conditio
     freespace(readAttribute<Boolean>("freespace", node, scope)),
     rule(readAttribute<Rule>("rule", node, scope)),
     value(readAttribute<Double>("value", node, scope)),
-    relative_distance_type(
-      readAttribute<RelativeDistanceType>("relativeDistanceType", node, scope)),
+    relative_distance_type(readAttribute<RelativeDistanceType>(
+      "relativeDistanceType", node, scope, RelativeDistanceType::euclidianDistance)),
     coordinate_system(
       readAttribute<CoordinateSystem>("coordinateSystem", node, scope, CoordinateSystem::entity)),
     routing_algorithm(readAttribute<RoutingAlgorithm>(
diff --git a/openscenario/openscenario_interpreter/src/syntax/follow_trajectory_action.cpp b/openscenario/openscenario_interpreter/src/syntax/follow_trajectory_action.cpp
index 23bee1c..3eecb90 100644
--- a/openscenario/openscenario_interpreter/src/syntax/follow_trajectory_action.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/follow_trajectory_action.cpp
@@ -24,7 +24,7 @@ inline namespace syntax
 {
 FollowTrajectoryAction::FollowTrajectoryAction(const pugi::xml_node & node, Scope & scope)
 : Scope(scope),
-  initial_distance_offset(readAttribute<Double>("initialDistanceOffset", node, local())),
+  initial_distance_offset(readAttribute<Double>("initialDistanceOffset", node, local(), Double())),
   time_reference(readElement<TimeReference>("TimeReference", node, local())),
   trajectory_following_mode(
     readElement<TrajectoryFollowingMode>("TrajectoryFollowingMode", node, local())),
diff --git a/openscenario/openscenario_interpreter/src/syntax/pedestrian.cpp b/openscenario/openscenario_interpreter/src/syntax/pedestrian.cpp
index 6ef165c..5479367 100644
--- a/openscenario/openscenario_interpreter/src/syntax/pedestrian.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/pedestrian.cpp
@@ -23,7 +23,7 @@ inline namespace syntax
 Pedestrian::Pedestrian(const pugi::xml_node & node, Scope & scope)
 : Scope(readAttribute<String>("name", node, scope), scope),
   mass(readAttribute<Double>("mass", node, local())),
-  model(readAttribute<String>("model", node, local())),
+  model(readAttribute<String>("model", node, local(), "")),
   model3d(readAttribute<String>("model3d", node, local(), "")),
   pedestrian_category(readAttribute<PedestrianCategory>("pedestrianCategory", node, local())),
   parameter_declarations(
diff --git a/openscenario/openscenario_interpreter/src/syntax/road_condition.cpp b/openscenario/openscenario_interpreter/src/syntax/road_condition.cpp
index 4e3945f..f56bd15 100644
--- a/openscenario/openscenario_interpreter/src/syntax/road_condition.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/road_condition.cpp
@@ -23,7 +23,7 @@ inline namespace syntax
 {
 RoadCondition::RoadCondition(const pugi::xml_node & node, Scope & scope)
 : friction_scale_factor(readAttribute<Double>("frictionScaleFactor", node, scope)),
-  wetness(readAttribute<Wetness>("wetness", node, scope)),
+  wetness(readAttribute<Wetness>("wetness", node, scope, Wetness())),
   properties(readElement<Properties>("Properties", node, scope))
 {
   // Valid range ref:
diff --git a/openscenario/openscenario_interpreter/src/syntax/time_headway_condition.cpp b/openscenario/openscenario_interpreter/src/syntax/time_headway_condition.cpp
index f948238..1706612 100644
--- a/openscenario/openscenario_interpreter/src/syntax/time_headway_condition.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/time_headway_condition.cpp
@@ -25,7 +25,7 @@ TimeHeadwayCondition::TimeHeadwayCondition(
 : entity_ref(readAttribute<String>("entityRef", node, scope), scope),
   value(readAttribute<Double>("value", node, scope)),
   freespace(readAttribute<Boolean>("freespace", node, scope)),
-  along_route(readAttribute<Boolean>("alongRoute", node, scope)),
+  along_route(readAttribute<Boolean>("alongRoute", node, scope, Boolean())),
   compare(readAttribute<Rule>("rule", node, scope)),
   triggering_entities(triggering_entities),
   results(triggering_entities.entity_refs.size(), {Double::nan()})
diff --git a/openscenario/openscenario_interpreter/src/syntax/weather.cpp b/openscenario/openscenario_interpreter/src/syntax/weather.cpp
index f0186f1..b24ae65 100644
--- a/openscenario/openscenario_interpreter/src/syntax/weather.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/weather.cpp
@@ -21,9 +21,10 @@ namespace openscenario_interpreter
 inline namespace syntax
 {
 Weather::Weather(const pugi::xml_node & node, Scope & scope)
-: atmospheric_pressure(readAttribute<Double>("atmosphericPressure", node, scope)),
-  temperature(readAttribute<Double>("temperature", node, scope)),
-  fractional_cloud_cover(readAttribute<FractionalCloudCover>("fractionalCloudCover", node, scope)),
+: atmospheric_pressure(readAttribute<Double>("atmosphericPressure", node, scope, 101325)),
+  temperature(readAttribute<Double>("temperature", node, scope, 288.15)),
+  fractional_cloud_cover(readAttribute<FractionalCloudCover>(
+    "fractionalCloudCover", node, scope, FractionalCloudCover())),
   sun(readElement<Sun>("Sun", node, scope)),
   fog(readElement<Fog>("Fog", node, scope)),
   precipitation(readElement<Precipitation>("Precipitation", node, scope)),
-- 
2.43.0


From a885d6500df829212ff2fd6cfcd692dba1b1fdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:48 +0000
Subject: [PATCH 32/40] fix: a normal distribution is drawn with its variance,
 not with its square

---
 .../src/syntax/normal_distribution.cpp                         | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/normal_distribution.cpp b/openscenario/openscenario_interpreter/src/syntax/normal_distribution.cpp
index 6200f33..a56070f 100644
--- a/openscenario/openscenario_interpreter/src/syntax/normal_distribution.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/normal_distribution.cpp
@@ -12,6 +12,7 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
+#include <cmath>
 #include <openscenario_interpreter/reader/element.hpp>
 #include <openscenario_interpreter/syntax/normal_distribution.hpp>
 
@@ -25,7 +26,7 @@ NormalDistribution::NormalDistribution(
   range(readElement<Range>("Range", node, scope)),
   expected_value(readAttribute<Double>("expectedValue", node, scope)),
   variance(readAttribute<Double>("variance", node, scope)),
-  distribute(static_cast<double>(expected_value.data), static_cast<double>(variance.data)),
+  distribute(static_cast<double>(expected_value.data), std::sqrt(static_cast<double>(variance.data))),
   random_engine(scope.seed)
 {
 }
-- 
2.43.0


From 23a59da803fa7b151bb7c92d2308f9f130f69a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:18 +0000
Subject: [PATCH 33/40] fix: parts of the weather that the schema makes
 optional may be left out

---
 .../openscenario_interpreter/syntax/dome_image.hpp        | 2 +-
 .../include/openscenario_interpreter/syntax/fog.hpp       | 5 +++--
 .../openscenario_interpreter/syntax/precipitation.hpp     | 6 +++---
 .../openscenario_interpreter/syntax/road_condition.hpp    | 4 ++--
 .../include/openscenario_interpreter/syntax/sun.hpp       | 8 ++++----
 .../openscenario_interpreter/syntax/time_of_day.hpp       | 4 +++-
 .../include/openscenario_interpreter/syntax/weather.hpp   | 6 +++---
 .../include/openscenario_interpreter/syntax/wind.hpp      | 4 ++--
 openscenario/openscenario_interpreter/src/syntax/fog.cpp  | 5 ++++-
 9 files changed, 25 insertions(+), 19 deletions(-)

diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/dome_image.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/dome_image.hpp
index 4122ba7..b9d990a 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/dome_image.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/dome_image.hpp
@@ -38,7 +38,7 @@ inline namespace syntax
 */
 struct DomeImage
 {
-  const Double azimuth_offset;  // Offset to north / y-axis of world coordinate system
+  const Double azimuth_offset{};  // Offset to north / y-axis of world coordinate system
                                 // (counter-clockwise). Unit: [rad]. Range: [0..2*PI]. 0 means the
                                 // left and right borders of the image are aligned with the y-axis
                                 // of the world coordinate system. Default if omitted: 0.
diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/fog.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/fog.hpp
index 39d8813..41a850f 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/fog.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/fog.hpp
@@ -18,6 +18,7 @@
 #include <openscenario_interpreter/scope.hpp>
 #include <openscenario_interpreter/syntax/bounding_box.hpp>
 #include <openscenario_interpreter/syntax/double.hpp>
+#include <optional>
 #include <pugixml.hpp>
 
 namespace openscenario_interpreter
@@ -38,9 +39,9 @@ inline namespace syntax
 */
 struct Fog
 {
-  const Double visual_range;  // Unit: [m]. Range: [0..inf[.
+  const Double visual_range{};  // Unit: [m]. Range: [0..inf[.
 
-  const BoundingBox bounding_box;  // Dimensions and center of fog in fixed coordinates.
+  const std::optional<BoundingBox> bounding_box;  // Dimensions and center of fog in fixed coordinates.
 
   Fog() = default;
 
diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/precipitation.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/precipitation.hpp
index 93cedc4..e9b8e3a 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/precipitation.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/precipitation.hpp
@@ -44,12 +44,12 @@ inline namespace syntax
  */
 struct Precipitation
 {
-  const Double intensity;  // DEPRECATED: The intensity of the precipitation. Range: [0..1].
+  const Double intensity{};  // DEPRECATED: The intensity of the precipitation. Range: [0..1].
 
-  const Double precipitation_intensity;  // The intensity of the precipitation (valid for all
+  const Double precipitation_intensity{};  // The intensity of the precipitation (valid for all
                                          // precipitation types). Unit: [mm/h]. Range: [0..inf[.
 
-  const PrecipitationType precipitation_type;
+  const PrecipitationType precipitation_type{};
 
   Precipitation() = default;
 
diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/road_condition.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/road_condition.hpp
index 84def3c..64eab2f 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/road_condition.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/road_condition.hpp
@@ -40,9 +40,9 @@ inline namespace syntax
 */
 struct RoadCondition
 {
-  const Double friction_scale_factor;  // Friction scale factor. Range: [0..inf[.
+  const Double friction_scale_factor{1};  // Friction scale factor. Range: [0..inf[.
 
-  const Wetness wetness;  // Definition of the wetness of the road.
+  const Wetness wetness{};  // Definition of the wetness of the road.
 
   const Properties properties;  // Additional properties to describe the road condition.
 
diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/sun.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/sun.hpp
index 39b9333..263c999 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/sun.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/sun.hpp
@@ -43,16 +43,16 @@ inline namespace syntax
 */
 struct Sun
 {
-  const Double azimuth;  // Azimuth of the sun, counted clockwise, 0=north, PI/2 = east, PI=south,
+  const Double azimuth{};  // Azimuth of the sun, counted clockwise, 0=north, PI/2 = east, PI=south,
                          // 3/2 PI=west. Unit: [rad]. Range: [0..2*PI].
 
   const Double
-    elevation;  // Solar elevation angle, 0=x/y plane, PI/2=zenith. Unit: [rad]. Range: [-PI..PI].
+    elevation{};  // Solar elevation angle, 0=x/y plane, PI/2=zenith. Unit: [rad]. Range: [-PI..PI].
 
-  const Double illuminance;  // Illuminance of the sun, direct sunlight is around 100,000 lx. Unit:
+  const Double illuminance{};  // Illuminance of the sun, direct sunlight is around 100,000 lx. Unit:
                              // [lx]. Range: [0..inf[. Default if missing: 0.
 
-  const Double intensity;  // DEPRECATED: Illuminance of the sun, direct sunlight is around 100,000
+  const Double intensity{};  // DEPRECATED: Illuminance of the sun, direct sunlight is around 100,000
                            // lx. Unit: [lx]. Range: [0..inf[.
 
   Sun() = default;
diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/time_of_day.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/time_of_day.hpp
index 6f60d81..359f3f6 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/time_of_day.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/time_of_day.hpp
@@ -35,11 +35,13 @@ inline namespace syntax
 */
 struct TimeOfDay
 {
-  const Boolean animation;
+  const Boolean animation{};
 
   // Actual type: DateTime
   const String date_time;
 
+  TimeOfDay() = default;
+
   explicit TimeOfDay(const pugi::xml_node &, Scope &);
 };
 }  // namespace syntax
diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/weather.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/weather.hpp
index 239b7a2..5b5edb7 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/weather.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/weather.hpp
@@ -67,16 +67,16 @@ struct Weather
    * ref:
    * https://www.asam.net/static_downloads/ASAM_OpenSCENARIO_V1.2.0_Model_Documentation/modelDocumentation/content/Weather.html
    */
-  const Double atmospheric_pressure;  // Reference atmospheric pressure at z=0.0 in world coordinate
+  const Double atmospheric_pressure{101325};  // Reference atmospheric pressure at z=0.0 in world coordinate
                                       // system. Unit: [Pa]. Range: [80000..120000]. The actual
                                       // atmospheric pressure around the entities of the scenario
                                       // has to be calculated depending on their z position. See
                                       // also the Standard Atmosphere as defined in ISO2533.
 
   const Double
-    temperature;  // Definition of the cloud state, i.e. cloud state and sky visualization settings.
+    temperature{288.15};  // Definition of the cloud state, i.e. cloud state and sky visualization settings.
 
-  const FractionalCloudCover fractional_cloud_cover;  // Definition of cloud states using the
+  const FractionalCloudCover fractional_cloud_cover{};  // Definition of cloud states using the
                                                       // fractional cloud cover in oktas.
   const Sun sun;  // Definition of the sun, i.e. position and intensity.
 
diff --git a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/wind.hpp b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/wind.hpp
index 904788c..c6781ad 100644
--- a/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/wind.hpp
+++ b/openscenario/openscenario_interpreter/include/openscenario_interpreter/syntax/wind.hpp
@@ -35,11 +35,11 @@ inline namespace syntax
 */
 struct Wind
 {
-  const Double direction;  // The target direction of the wind (not the origin direction) in the
+  const Double direction{};  // The target direction of the wind (not the origin direction) in the
     // ground/xy-plane of the world coordinate system. Corresponds to the heading/yaw
     // angle. x-axis-direction is 0 rad. Unit: [rad]. Range: [0..2*PI[.
 
-  const Double speed;  // The wind speed. Unit: [m/s]. Range: [0..inf[
+  const Double speed{};  // The wind speed. Unit: [m/s]. Range: [0..inf[
 
   Wind() = default;
 
diff --git a/openscenario/openscenario_interpreter/src/syntax/fog.cpp b/openscenario/openscenario_interpreter/src/syntax/fog.cpp
index 6be8ca1..da3364f 100644
--- a/openscenario/openscenario_interpreter/src/syntax/fog.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/fog.cpp
@@ -24,7 +24,10 @@ inline namespace syntax
 {
 Fog::Fog(const pugi::xml_node & node, Scope & scope)
 : visual_range(readAttribute<Double>("visualRange", node, scope)),
-  bounding_box(readElement<BoundingBox>("BoundingBox", node, scope))
+  bounding_box(
+    node.child("BoundingBox")
+      ? std::make_optional(readElement<BoundingBox>("BoundingBox", node, scope))
+      : std::nullopt)
 {
   // Valid range information:
   // https://www.asam.net/static_downloads/ASAM_OpenSCENARIO_V1.2.0_Model_Documentation/modelDocumentation/content/Fog.html
-- 
2.43.0


From b07d2bbc5c0ccb8ac0b4a480baa6182341960821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:18 +0000
Subject: [PATCH 34/40] fix: the range of a weather property is that of the
 property

---
 openscenario/openscenario_interpreter/src/syntax/dome_image.cpp | 2 +-
 .../openscenario_interpreter/src/syntax/precipitation.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/dome_image.cpp b/openscenario/openscenario_interpreter/src/syntax/dome_image.cpp
index 70cd5e5..08a9d43 100644
--- a/openscenario/openscenario_interpreter/src/syntax/dome_image.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/dome_image.cpp
@@ -30,7 +30,7 @@ DomeImage::DomeImage(const pugi::xml_node & node, Scope & scope)
   // https://www.asam.net/static_downloads/ASAM_OpenSCENARIO_V1.2.0_Model_Documentation/modelDocumentation/content/DomeImage.html
 
   if (auto azimuth_offset_valid =
-        0 <= azimuth_offset and azimuth_offset <= boost::math::constants::pi<double>();
+        0 <= azimuth_offset and azimuth_offset <= 2 * boost::math::constants::pi<double>();
       not azimuth_offset_valid) {
     THROW_SYNTAX_ERROR(std::quoted("DomeImage::azimuthOffset"), "is out of range [0..2*PI]");
   }
diff --git a/openscenario/openscenario_interpreter/src/syntax/precipitation.cpp b/openscenario/openscenario_interpreter/src/syntax/precipitation.cpp
index 1094fb5..007243b 100644
--- a/openscenario/openscenario_interpreter/src/syntax/precipitation.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/precipitation.cpp
@@ -32,7 +32,7 @@ Precipitation::Precipitation(const pugi::xml_node & node, Scope & scope)
     THROW_SYNTAX_ERROR(std::quoted("Precipitation::intensity"), "is out of range [0..1]");
   }
 
-  if (auto precipitation_intensity_valid = 0 <= intensity; not precipitation_intensity_valid) {
+  if (auto precipitation_intensity_valid = 0 <= precipitation_intensity; not precipitation_intensity_valid) {
     THROW_SYNTAX_ERROR(
       std::quoted("Precipitation::precipitationIntensity"), "is out of range [0..inf[");
   }
-- 
2.43.0


From 610727e88db61c5a91d2fbfc48163f6bb7e5376c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:18 +0000
Subject: [PATCH 35/40] fix: the name of an environment is read in the scope it
 is declared in

---
 .../openscenario_interpreter/src/syntax/environment.cpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/environment.cpp b/openscenario/openscenario_interpreter/src/syntax/environment.cpp
index a3c477a..5177d4a 100644
--- a/openscenario/openscenario_interpreter/src/syntax/environment.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/environment.cpp
@@ -21,7 +21,7 @@ namespace openscenario_interpreter
 inline namespace syntax
 {
 Environment::Environment(const pugi::xml_node & node, Scope & scope)
-: Scope(readAttribute<String>("name", node, local()), scope),
+: Scope(readAttribute<String>("name", node, scope), scope),
   parameter_declarations(
     readElement<ParameterDeclarations>("ParameterDeclarations", node, local())),
   time_of_day(readElement<TimeOfDay>("TimeOfDay", node, local())),
-- 
2.43.0


From ddbb731c4287f4caea05d4719b81bcde403ebda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:18 +0000
Subject: [PATCH 36/40] fix: a storyboard may be without stories

---
 openscenario/openscenario_interpreter/src/syntax/storyboard.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscenario/openscenario_interpreter/src/syntax/storyboard.cpp b/openscenario/openscenario_interpreter/src/syntax/storyboard.cpp
index 902f901..35afd37 100644
--- a/openscenario/openscenario_interpreter/src/syntax/storyboard.cpp
+++ b/openscenario/openscenario_interpreter/src/syntax/storyboard.cpp
@@ -33,7 +33,7 @@ Storyboard::Storyboard(const pugi::xml_node & node, Scope & scope)
   init(readElement<Init>("Init", node, local()))
 {
   elements.push_back(make(init.actions));
-  traverse<1, unbounded>(node, "Story", [&](auto && node) {
+  traverse<0, unbounded>(node, "Story", [&](auto && node) {
     return elements.push_back(readStoryboardElement<Story>(node, local()));
   });
 
-- 
2.43.0


From acc050509a281b90d3900632c9225cf0670bb309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:18 +0000
Subject: [PATCH 37/40] fix: control time and the flags of defined values are
 part of a control command

---
 simulation/simulation_interface/src/conversions.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/simulation/simulation_interface/src/conversions.cpp b/simulation/simulation_interface/src/conversions.cpp
index 5d006d3..9099c9d 100644
--- a/simulation/simulation_interface/src/conversions.cpp
+++ b/simulation/simulation_interface/src/conversions.cpp
@@ -493,16 +493,20 @@ void toProto(
   const autoware_control_msgs::msg::Lateral & message, autoware_control_msgs::Lateral & proto)
 {
   toProto(message.stamp, *proto.mutable_stamp());
+  toProto(message.control_time, *proto.mutable_control_time());
   proto.set_steering_tire_angle(message.steering_tire_angle);
   proto.set_steering_tire_rotation_rate(message.steering_tire_rotation_rate);
+  proto.set_is_defined_steering_tire_rotation_rate(message.is_defined_steering_tire_rotation_rate);
 }
 
 void toMsg(
   const autoware_control_msgs::Lateral & proto, autoware_control_msgs::msg::Lateral & message)
 {
   toMsg(proto.stamp(), message.stamp);
+  toMsg(proto.control_time(), message.control_time);
   message.steering_tire_angle = proto.steering_tire_angle();
   message.steering_tire_rotation_rate = proto.steering_tire_rotation_rate();
+  message.is_defined_steering_tire_rotation_rate = proto.is_defined_steering_tire_rotation_rate();
 }
 
 void toProto(
@@ -510,9 +514,12 @@ void toProto(
   autoware_control_msgs::Longitudinal & proto)
 {
   toProto(message.stamp, *proto.mutable_stamp());
+  toProto(message.control_time, *proto.mutable_control_time());
   proto.set_velocity(message.velocity);
   proto.set_acceleration(message.acceleration);
   proto.set_jerk(message.jerk);
+  proto.set_is_defined_acceleration(message.is_defined_acceleration);
+  proto.set_is_defined_jerk(message.is_defined_jerk);
 }
 
 void toMsg(
@@ -520,15 +527,19 @@ void toMsg(
   autoware_control_msgs::msg::Longitudinal & message)
 {
   toMsg(proto.stamp(), message.stamp);
+  toMsg(proto.control_time(), message.control_time);
   message.velocity = proto.velocity();
   message.acceleration = proto.acceleration();
   message.jerk = proto.jerk();
+  message.is_defined_acceleration = proto.is_defined_acceleration();
+  message.is_defined_jerk = proto.is_defined_jerk();
 }
 
 void toProto(
   const autoware_control_msgs::msg::Control & message, autoware_control_msgs::Control & proto)
 {
   toProto(message.stamp, *proto.mutable_stamp());
+  toProto(message.control_time, *proto.mutable_control_time());
   toProto(message.lateral, *proto.mutable_lateral());
   toProto(message.longitudinal, *proto.mutable_longitudinal());
 }
@@ -537,6 +548,7 @@ void toMsg(
   const autoware_control_msgs::Control & proto, autoware_control_msgs::msg::Control & message)
 {
   toMsg(proto.stamp(), message.stamp);
+  toMsg(proto.control_time(), message.control_time);
   toMsg(proto.lateral(), message.lateral);
   toMsg(proto.longitudinal(), message.longitudinal);
 }
-- 
2.43.0


From 546ac085677fa648fa4b9de421f5ba8e51736a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:36 +0000
Subject: [PATCH 38/40] fix: a detected traffic light given by its relation id
 stands for each of its ways

---
 .../traffic_lights/traffic_lights.hpp                | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp b/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp
index 8d83327..0a66ce8 100644
--- a/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp
+++ b/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp
@@ -71,13 +71,19 @@ public:
 
   auto addState(const lanelet::Id lanelet_id, const std::string & state) -> void
   {
-    auto [iter, inserted] = detected_traffic_lights_.try_emplace(lanelet_id, lanelet_id);
-    iter->second.set(state);
+    for (const auto way_id : traffic_lights::wayIds(lanelet_id)) {
+      auto [iter, inserted] = detected_traffic_lights_.try_emplace(way_id, way_id);
+      iter->second.set(state);
+    }
   }
 
   auto clearState(const lanelet::Id lanelet_id) -> bool
   {
-    return detected_traffic_lights_.erase(lanelet_id) > 0;
+    auto cleared = false;
+    for (const auto way_id : traffic_lights::wayIds(lanelet_id)) {
+      cleared |= detected_traffic_lights_.erase(way_id) > 0;
+    }
+    return cleared;
   }
 
   auto empty() const -> bool { return detected_traffic_lights_.empty(); }
-- 
2.43.0


From 7e68a3861cb171c3e34a2cb88b7067ff1528f679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:36 +0000
Subject: [PATCH 39/40] fix: a V2I traffic light follows a change of its
 conventional one that is made by its relation id

---
 .../traffic_lights/traffic_lights.hpp         | 24 ++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp b/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp
index 0a66ce8..f9e04cd 100644
--- a/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp
+++ b/simulation/traffic_simulator/include/traffic_simulator/traffic_lights/traffic_lights.hpp
@@ -241,17 +241,19 @@ public:
       [this, v2i = v2i_channel_.getGroundTruth()](
         lanelet::Id lanelet_id, const std::string & state,
         TrafficLightsBase::StateChangeType change_type) {
-        if (v2i_enabled_traffic_lights_.count(lanelet_id) > 0) {
-          switch (change_type) {
-            case TrafficLightsBase::StateChangeType::SET:
-              v2i->setTrafficLightsState(lanelet_id, state);
-              break;
-            case TrafficLightsBase::StateChangeType::CLEAR:
-              v2i->clearTrafficLightsState(lanelet_id);
-              break;
-            case TrafficLightsBase::StateChangeType::ADD:
-              v2i->addTrafficLightsState(lanelet_id, state);
-              break;
+        for (const auto way_id : traffic_simulator::traffic_lights::wayIds(lanelet_id)) {
+          if (v2i_enabled_traffic_lights_.count(way_id) > 0) {
+            switch (change_type) {
+              case TrafficLightsBase::StateChangeType::SET:
+                v2i->setTrafficLightsState(way_id, state);
+                break;
+              case TrafficLightsBase::StateChangeType::CLEAR:
+                v2i->clearTrafficLightsState(way_id);
+                break;
+              case TrafficLightsBase::StateChangeType::ADD:
+                v2i->addTrafficLightsState(way_id, state);
+                break;
+            }
           }
         }
       });
-- 
2.43.0


From ddb0e053deb704d5b3340e19f02644bf51b5df9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:36 +0000
Subject: [PATCH 40/40] fix: the id of a traffic light is sent as wide as
 lanelet::Id

---
 .../simulation_interface/proto/simulation_api_schema.proto    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simulation/simulation_interface/proto/simulation_api_schema.proto b/simulation/simulation_interface/proto/simulation_api_schema.proto
index c123b9e..d889070 100644
--- a/simulation/simulation_interface/proto/simulation_api_schema.proto
+++ b/simulation/simulation_interface/proto/simulation_api_schema.proto
@@ -320,9 +320,9 @@ message TrafficLight {
 }
 
 message TrafficSignal {
-  int32 id = 1;
+  int64 id = 1;
   repeated TrafficLight traffic_light_status = 2;
-  repeated int32 relation_ids = 3; // TrafficLightRegulatoryElement ids based on TrafficLight id
+  repeated int64 relation_ids = 3; // TrafficLightRegulatoryElement ids based on TrafficLight id
 }
 
 /**
-- 
2.43.0

