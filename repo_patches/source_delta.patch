From e37e26e8aa709d5d64a4d8e10816ad63a3631f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:33 +0000
Subject: [PATCH 01/33] fix: minimum waiting times above 32767 seconds were
 truncated to a short

---
 connection_scan_algorithm/src/forward_calculation.cpp | 4 ++--
 connection_scan_algorithm/src/reverse_calculation.cpp | 8 ++++----
 include/connection.hpp                                | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/connection_scan_algorithm/src/forward_calculation.cpp b/connection_scan_algorithm/src/forward_calculation.cpp
index 2251bc8..c1641f3 100644
--- a/connection_scan_algorithm/src/forward_calculation.cpp
+++ b/connection_scan_algorithm/src/forward_calculation.cpp
@@ -18,7 +18,7 @@ namespace TrRouting
     int   nodeDepartureTentativeTime      {MAX_INT};
     int   connectionDepartureTime         {-1};
     int   connectionArrivalTime           {-1};
-    short connectionMinWaitingTimeSeconds {-1};
+    int connectionMinWaitingTimeSeconds {-1};
     //long long   footpathsRangeStart       {-1};
     //long long   footpathsRangeEnd         {-1};
     int   footpathIndex                   {-1};
@@ -209,7 +209,7 @@ namespace TrRouting
     int   nodeDepartureTentativeTime      {MAX_INT};
     int   connectionDepartureTime         {-1};
     int   connectionArrivalTime           {-1};
-    short connectionMinWaitingTimeSeconds {-1};
+    int connectionMinWaitingTimeSeconds {-1};
     //long long   footpathsRangeStart       {-1};
     //long long   footpathsRangeEnd         {-1};
     int   footpathIndex                   {-1};
diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index 8a1d20c..6f4188d 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -19,8 +19,8 @@ namespace TrRouting
     std::optional<std::reference_wrapper<const Connection>> tripExitConnection;
     int  connectionDepartureTime          {-1};
     int  connectionArrivalTime            {-1};
-    short connectionMinWaitingTimeSeconds {-1};
-    short journeyConnectionMinWaitingTimeSeconds {-1};
+    int connectionMinWaitingTimeSeconds {-1};
+    int journeyConnectionMinWaitingTimeSeconds {-1};
     //long long  footpathsRangeStart        {-1};
     //long long  footpathsRangeEnd          {-1};
     int  footpathIndex                    {-1};
@@ -228,8 +228,8 @@ namespace TrRouting
     std::optional<std::reference_wrapper<const Connection>> tripExitConnection;
     int  connectionDepartureTime          {-1};
     int  connectionArrivalTime            {-1};
-    short connectionMinWaitingTimeSeconds {-1};
-    short journeyConnectionMinWaitingTimeSeconds {-1};
+    int connectionMinWaitingTimeSeconds {-1};
+    int journeyConnectionMinWaitingTimeSeconds {-1};
     //long long  footpathsRangeStart        {-1};
     //long long  footpathsRangeEnd          {-1};
     int  footpathIndex                    {-1};
diff --git a/include/connection.hpp b/include/connection.hpp
index 1c6adde..53fb85c 100644
--- a/include/connection.hpp
+++ b/include/connection.hpp
@@ -42,7 +42,7 @@ namespace TrRouting
     int getSequenceInTrip() const {return sequenceInTrip;}
     bool canTransferSameLine() const {return canTransferSameLineValue;}
     short getMinWaitingTime() const {return minWaitingTimeSeconds;}
-    short getMinWaitingTimeOrDefault(short defaultMinWaitingTime) const {
+    int getMinWaitingTimeOrDefault(int defaultMinWaitingTime) const {
       if (minWaitingTimeSeconds >= 0) {
         return minWaitingTimeSeconds;
       } else {
-- 
2.43.0


From dbe7a1a1ab99f25f1d69bed92db49f47e209234f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:12 +0000
Subject: [PATCH 02/33] fix: journey optimization left wrong walks and
 superfluous segments in the itinerary

---
 .../src/optimize_journey.cpp                  | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/connection_scan_algorithm/src/optimize_journey.cpp b/connection_scan_algorithm/src/optimize_journey.cpp
index ff60bc9..cf53311 100644
--- a/connection_scan_algorithm/src/optimize_journey.cpp
+++ b/connection_scan_algorithm/src/optimize_journey.cpp
@@ -209,15 +209,11 @@ namespace TrRouting
             else
             {
               usedOptimizationCases.push_back(1);
-              if (toJourneyStepIdx - fromJourneyStepIdx == 1)
-              {
-                journey.erase(journey.begin() + toJourneyStepIdx);
-              }
-              else if (toJourneyStepIdx - fromJourneyStepIdx > 1) // could not split correctly...
-              {
-                journey.erase(journey.begin() + fromJourneyStepIdx + 1, journey.begin() + toJourneyStepIdx);
-              }
+              // The traveller leaves the from segment where the to segment ended, so everything up to and including
+              // the to segment is removed and the walk that followed it now follows the from segment
               journey[fromJourneyStepIdx].setFinalExitConnection(connection);
+              journey[fromJourneyStepIdx].copyTransferTimeDistance(journey[toJourneyStepIdx]);
+              journey.erase(journey.begin() + fromJourneyStepIdx + 1, journey.begin() + toJourneyStepIdx + 1);
 
               break;
             }
@@ -245,8 +241,10 @@ namespace TrRouting
             else
             {
               usedOptimizationCases.push_back(2);
+              // The to segment is now boarded where the from segment ends: no walk nor any other segment in between
               journey[toJourneyStepIdx].setFinalEnterConnection(connection);
-              journey[toJourneyStepIdx].setTransferTimeDistance(0,0);
+              journey[fromJourneyStepIdx].setTransferTimeDistance(0,0);
+              journey.erase(journey.begin() + fromJourneyStepIdx + 1, journey.begin() + toJourneyStepIdx);
               break;
             }
           }
@@ -274,8 +272,10 @@ namespace TrRouting
             else
             {
               usedOptimizationCases.push_back(3);
+              // The from segment now ends where the to segment is boarded: no walk nor any other segment in between
               journey[fromJourneyStepIdx].setFinalExitConnection(connection);
-              journey[toJourneyStepIdx].setTransferTimeDistance(0,0);
+              journey[fromJourneyStepIdx].setTransferTimeDistance(0,0);
+              journey.erase(journey.begin() + fromJourneyStepIdx + 1, journey.begin() + toJourneyStepIdx);
               break;
             }
           }
@@ -319,14 +319,17 @@ namespace TrRouting
               if (exitConnection.has_value() && connection.get().canBoard())
               {
                 usedOptimizationCases.push_back(4);
+                // Both segments now meet at the optimization node: no walk nor any other segment in between
                 journey[fromJourneyStepIdx].setFinalExitConnection(exitConnection.value());
+                journey[fromJourneyStepIdx].setTransferTimeDistance(0,0);
                 journey[toJourneyStepIdx].setFinalEnterConnection(connection);
+                journey.erase(journey.begin() + fromJourneyStepIdx + 1, journey.begin() + toJourneyStepIdx);
               }
               else
               {
                 ignoreOptimizationNodes.push_back(optimizationNode.value());
-                break;
               }
+              break;
             }
           }
         }
-- 
2.43.0


From fea1ebbc55c5861133b50d45f5cdcd08530117ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:31 +0000
Subject: [PATCH 03/33] fix: total transfer walking distance was one metre
 short

---
 connection_scan_algorithm/src/forward_journey.cpp | 2 +-
 connection_scan_algorithm/src/reverse_journey.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/connection_scan_algorithm/src/forward_journey.cpp b/connection_scan_algorithm/src/forward_journey.cpp
index 14fe112..89d644b 100644
--- a/connection_scan_algorithm/src/forward_journey.cpp
+++ b/connection_scan_algorithm/src/forward_journey.cpp
@@ -38,7 +38,7 @@ namespace TrRouting
       int totalTransferWaitingTime { 0}; int inVehicleTime          {-1};
       int totalDistance            { 0}; int distance               {-1};
       int inVehicleDistance        {-1}; int totalInVehicleDistance { 0}; int totalWalkingDistance   { 0};
-      int totalTransferDistance    {-1}; int accessDistance         { 0}; int egressDistance         { 0};
+      int totalTransferDistance    { 0}; int accessDistance         { 0}; int egressDistance         { 0};
       int accessWalkingTime      {-1};
       int transferTime             {-1}; int egressWalkingTime      {-1};
       int waitingTime              {-1}; int accessWaitingTime      {-1};
diff --git a/connection_scan_algorithm/src/reverse_journey.cpp b/connection_scan_algorithm/src/reverse_journey.cpp
index 218a32f..7355ee7 100644
--- a/connection_scan_algorithm/src/reverse_journey.cpp
+++ b/connection_scan_algorithm/src/reverse_journey.cpp
@@ -31,7 +31,7 @@ namespace TrRouting
     int totalTransferWaitingTime { 0}; int inVehicleTime          {-1};
     int totalDistance            { 0}; int distance               {-1};
     int inVehicleDistance        {-1}; int totalInVehicleDistance { 0}; int totalWalkingDistance { 0};
-    int totalTransferDistance    {-1}; int accessDistance         { 0}; int egressDistance       { 0};
+    int totalTransferDistance    { 0}; int accessDistance         { 0}; int egressDistance       { 0};
     int accessWalkingTime      {-1};
     int transferTime             {-1}; int egressWalkingTime      {-1};
     int waitingTime              {-1}; int accessWaitingTime      {-1};
-- 
2.43.0


From 2d575e45f9bbef89e8a69039928734a9c49ca62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:02 +0000
Subject: [PATCH 04/33] fix: reverse calculation kept an earlier departure from
 an access node because of the minimum waiting time

---
 connection_scan_algorithm/src/reverse_calculation.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index 6f4188d..af88536 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -149,7 +149,9 @@ namespace TrRouting
                      //TODO Really not sure this is equivalent
                      reverseAccessJourneysSteps.count(transferableNode.node.uid) == 0
                      || 
-                     reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get().getDepartureTime() <= connectionDepartureTime - connectionMinWaitingTimeSeconds
+                     reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get().getDepartureTime()
+                       - reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get().getMinWaitingTimeOrDefault(parameters.getMinWaitingTimeSeconds())
+                       <= connectionDepartureTime - connectionMinWaitingTimeSeconds
                     )
                   )
                   {                    
@@ -346,7 +348,9 @@ namespace TrRouting
                      //TODO Really not sure this is equivalent
                      reverseAccessJourneysSteps.count(transferableNode.node.uid) == 0
                      ||
-                     reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get().getDepartureTime() <= connectionDepartureTime - connectionMinWaitingTimeSeconds
+                     reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get().getDepartureTime()
+                       - reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get().getMinWaitingTimeOrDefault(parameters.getMinWaitingTimeSeconds())
+                       <= connectionDepartureTime - connectionMinWaitingTimeSeconds
                     )
                   )
                   {
-- 
2.43.0


From 2a08761239f4ca6dad25feb6059d82cf856dcebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:54 +0000
Subject: [PATCH 05/33] fix: reverse calculation ignored max_first_waiting_time
 when shorter than the minimum waiting time

---
 connection_scan_algorithm/src/reverse_calculation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index af88536..86ed938 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -165,7 +165,7 @@ namespace TrRouting
                       if (
                         departureTimeSeconds == -1
                         ||
-                        parameters.getMaxFirstWaitingTimeSeconds() < connectionMinWaitingTimeSeconds
+                        parameters.getMaxFirstWaitingTimeSeconds() <= 0
                         ||
                         connectionDepartureTime - departureTimeSeconds - nodeDepartureInNodesAccessIte->second.time <= parameters.getMaxFirstWaitingTimeSeconds()
                       )
@@ -364,7 +364,7 @@ namespace TrRouting
                       if (
                         departureTimeSeconds == -1
                         ||
-                        parameters.getMaxFirstWaitingTimeSeconds() < connectionMinWaitingTimeSeconds
+                        parameters.getMaxFirstWaitingTimeSeconds() <= 0
                         ||
                         connectionDepartureTime - departureTimeSeconds - nodeDepartureInNodesAccessIte->second.time <= parameters.getMaxFirstWaitingTimeSeconds()
                       )
-- 
2.43.0


From 2efdeca19cc5664521fd368b313654f118143b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:13 +0000
Subject: [PATCH 06/33] fix: no service reason was missed when boarding or
 unboarding is not permitted

---
 .../src/forward_calculation.cpp                      | 12 ++++++++++--
 .../src/reverse_calculation.cpp                      | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/connection_scan_algorithm/src/forward_calculation.cpp b/connection_scan_algorithm/src/forward_calculation.cpp
index c1641f3..41bfce0 100644
--- a/connection_scan_algorithm/src/forward_calculation.cpp
+++ b/connection_scan_algorithm/src/forward_calculation.cpp
@@ -155,7 +155,11 @@ namespace TrRouting
                 footpathIndex++;
               }
             }
-            reachableConnectionsCount++;
+            // a departure from a node where boarding is not permitted cannot be caught
+            if (currentTripQueryOverlay.enterConnection.has_value())
+            {
+              reachableConnectionsCount++;
+            }
           }
         }
       }
@@ -331,7 +335,11 @@ namespace TrRouting
                 footpathIndex++;
               }
             }
-            reachableConnectionsCount++;
+            // a departure from a node where boarding is not permitted cannot be caught
+            if (currentTripQueryOverlay.enterConnection.has_value())
+            {
+              reachableConnectionsCount++;
+            }
           }
         }
       }
diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index 86ed938..cb1528b 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -178,7 +178,11 @@ namespace TrRouting
                 footpathIndex++;
               }
             }
-            reachableConnectionsCount++;
+            // an arrival at a node where unboarding is not permitted is not usable
+            if (currentTripQueryOverlay.exitConnection.has_value())
+            {
+              reachableConnectionsCount++;
+            }
           }
         }
       }
@@ -377,7 +381,11 @@ namespace TrRouting
                 footpathIndex++;
               }
             }
-            reachableConnectionsCount++;
+            // an arrival at a node where unboarding is not permitted is not usable
+            if (currentTripQueryOverlay.exitConnection.has_value())
+            {
+              reachableConnectionsCount++;
+            }
           }
         }
       }
-- 
2.43.0


From 4a3c8aa9bdd5f5c75c4fbf63a4886eea77ffb286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:40 +0000
Subject: [PATCH 07/33] fix: arrival accessibility reported boarding times
 without the requested minimum waiting time

---
 connection_scan_algorithm/src/reverse_journey.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/connection_scan_algorithm/src/reverse_journey.cpp b/connection_scan_algorithm/src/reverse_journey.cpp
index 7355ee7..86bb2d9 100644
--- a/connection_scan_algorithm/src/reverse_journey.cpp
+++ b/connection_scan_algorithm/src/reverse_journey.cpp
@@ -322,9 +322,8 @@ namespace TrRouting
       }
 
       if (reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().has_value()) {
-        //TODO Should check taht MinWaiting is not -1 or use OrDefault(0)
         //TODO Could move this operation into a function of class Connection
-        int departureTimeD = reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().value().get().getDepartureTime() - reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().value().get().getMinWaitingTime();
+        int departureTimeD = reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().value().get().getDepartureTime() - reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().value().get().getMinWaitingTimeOrDefault(parameters.getMinWaitingTimeSeconds());
         if (arrivalTimeSeconds - departureTimeD <=  parameters.getMaxTotalTravelTimeSeconds()) {
           reachableNodesCount++;
 
-- 
2.43.0


From 80ab778731df7db32ab76a17d2c7f0125df08879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:44 +0000
Subject: [PATCH 08/33] fix: endless journey reconstruction when rides without
 duration meet at the same time

---
 .../src/reverse_calculation.cpp                      | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index cb1528b..8b236fa 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -135,7 +135,11 @@ namespace TrRouting
 
                 if (footpathTravelTime <= parameters.getMaxTransferWalkingTravelTimeSeconds())
                 {                  
-                  if (connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds >= nodesReverseTentativeTime.at(transferableNode.node.uid))
+                  // On equal times, a ride that takes no time must not replace the current step: following the steps could then loop forever
+                  int transferableNodeTentativeTime = nodesReverseTentativeTime.at(transferableNode.node.uid);
+                  int transferableNodeNewTime = connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds;
+                  if (transferableNodeNewTime > transferableNodeTentativeTime ||
+                      (transferableNodeNewTime == transferableNodeTentativeTime && currentTripQueryOverlay.exitConnection.value().get().getArrivalTime() > connectionDepartureTime))
                   {
                     footpathDistance = nodeDeparture.reverseTransferableNodes.at(footpathIndex).distance;
                     nodesReverseTentativeTime[transferableNode.node.uid] = connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds;
@@ -338,7 +342,11 @@ namespace TrRouting
 
                 if (footpathTravelTime <= parameters.getMaxTransferWalkingTravelTimeSeconds())
                 {
-                  if (connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds >= nodesReverseTentativeTime.at(transferableNode.node.uid))
+                  // On equal times, a ride that takes no time must not replace the current step: following the steps could then loop forever
+                  int transferableNodeTentativeTime = nodesReverseTentativeTime.at(transferableNode.node.uid);
+                  int transferableNodeNewTime = connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds;
+                  if (transferableNodeNewTime > transferableNodeTentativeTime ||
+                      (transferableNodeNewTime == transferableNodeTentativeTime && currentTripQueryOverlay.exitConnection.value().get().getArrivalTime() > connectionDepartureTime))
                   {
                     footpathDistance = nodeDeparture.reverseTransferableNodes.at(footpathIndex).distance;
                     nodesReverseTentativeTime[transferableNode.node.uid] = connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds;
-- 
2.43.0


From 5f10471d4bed191e64463c99043f12db271f0db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 09/33] fix: reverse calculation stopped too early when trips
 have different minimum waiting times

---
 connection_scan_algorithm/src/reverse_calculation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index 8b236fa..357da66 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -117,7 +117,7 @@ namespace TrRouting
               if (!reachedAtLeastOneAccessNode &&  nodeDepartureInNodesAccessIte != nodesAccess.end() &&  nodeDepartureInNodesAccessIte->second.time != -1) // check if the departure node is accessable
               {
                 reachedAtLeastOneAccessNode      = true;
-                tentativeAccessNodeDepartureTime = connectionDepartureTime;
+                tentativeAccessNodeDepartureTime = connectionDepartureTime - connectionMinWaitingTimeSeconds;
 
               }
               footpathIndex = 0;
-- 
2.43.0


From f3f86d386d08dedc23cd1ed4cec3e886a25f1a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:37 +0000
Subject: [PATCH 10/33] fix: coordinates with trailing garbage, nan or inf were
 accepted as valid

---
 .../parameters/accessibility_parameters.cpp   |  9 +-------
 .../src/parameters/common_parameters.cpp      | 21 +++++++++++++++++++
 .../src/parameters/route_parameters.cpp       | 16 ++------------
 include/parameters.hpp                        |  2 ++
 4 files changed, 26 insertions(+), 22 deletions(-)

diff --git a/connection_scan_algorithm/src/parameters/accessibility_parameters.cpp b/connection_scan_algorithm/src/parameters/accessibility_parameters.cpp
index c1a9c30..6d3eda6 100644
--- a/connection_scan_algorithm/src/parameters/accessibility_parameters.cpp
+++ b/connection_scan_algorithm/src/parameters/accessibility_parameters.cpp
@@ -43,8 +43,6 @@ namespace TrRouting
   {
     std::optional<Point> place;
 
-    std::vector<std::string> latitudeLongitudeVector;
-
     // TODO Replace manually parsing parameters by a library that does this
     for (auto & parameterWithValue : parameters)
     {
@@ -55,12 +53,7 @@ namespace TrRouting
       {
         try
         {
-          boost::split(latitudeLongitudeVector, parameterWithValue.second, boost::is_any_of(","));
-          if (latitudeLongitudeVector.size() != 2)
-          {
-            throw ParameterException(ParameterException::Type::INVALID_PLACE);
-          }
-          place = Point(std::stod(latitudeLongitudeVector[1]), std::stod(latitudeLongitudeVector[0]));
+          place = CommonParameters::getPointValue(parameterWithValue.second);
         }
         catch (...)
         {
diff --git a/connection_scan_algorithm/src/parameters/common_parameters.cpp b/connection_scan_algorithm/src/parameters/common_parameters.cpp
index 7723ea8..1e9c1fe 100644
--- a/connection_scan_algorithm/src/parameters/common_parameters.cpp
+++ b/connection_scan_algorithm/src/parameters/common_parameters.cpp
@@ -1,3 +1,5 @@
+#include <cmath>
+#include <stdexcept>
 #include <boost/uuid/string_generator.hpp>
 #include <boost/algorithm/string.hpp>
 
@@ -65,6 +67,25 @@ namespace TrRouting
     }
   }
 
+  Point CommonParameters::getPointValue(const std::string& strValue) {
+    std::vector<std::string> longitudeLatitude;
+    boost::split(longitudeLatitude, strValue, boost::is_any_of(","));
+    if (longitudeLatitude.size() != 2)
+    {
+      throw std::invalid_argument("expected longitude and latitude");
+    }
+    std::size_t longitudeLength = 0;
+    std::size_t latitudeLength = 0;
+    double longitude = std::stod(longitudeLatitude[0], &longitudeLength);
+    double latitude = std::stod(longitudeLatitude[1], &latitudeLength);
+    // std::stod ignores what follows the number and accepts nan and inf
+    if (longitudeLength != longitudeLatitude[0].size() || latitudeLength != longitudeLatitude[1].size() || !std::isfinite(longitude) || !std::isfinite(latitude))
+    {
+      throw std::invalid_argument("coordinates are not finite numbers");
+    }
+    return Point(latitude, longitude);
+  }
+
   CommonParameters CommonParameters::createCommonParameter(std::vector<std::pair<std::string, std::string>> &parameters, const std::map<boost::uuids::uuid, Scenario> &scenarios)
   {
     boost::uuids::string_generator uuidGenerator;
diff --git a/connection_scan_algorithm/src/parameters/route_parameters.cpp b/connection_scan_algorithm/src/parameters/route_parameters.cpp
index 0120005..a060b28 100644
--- a/connection_scan_algorithm/src/parameters/route_parameters.cpp
+++ b/connection_scan_algorithm/src/parameters/route_parameters.cpp
@@ -62,8 +62,6 @@ namespace TrRouting
     std::optional<Point> destination;
     bool alternatives = false;
 
-    std::vector<std::string> latitudeLongitudeVector;
-
     // TODO Replace manually parsing parameters by a library that does this
     for (auto & parameterWithValue : parameters)
     {
@@ -74,12 +72,7 @@ namespace TrRouting
       {
         try
         {
-          boost::split(latitudeLongitudeVector, parameterWithValue.second, boost::is_any_of(","));
-          if (latitudeLongitudeVector.size() != 2)
-          {
-            throw ParameterException(ParameterException::Type::INVALID_ORIGIN);
-          }
-          origin = Point(std::stod(latitudeLongitudeVector[1]), std::stod(latitudeLongitudeVector[0]));
+          origin = CommonParameters::getPointValue(parameterWithValue.second);
         }
         catch (...)
         {
@@ -90,12 +83,7 @@ namespace TrRouting
       {
         try
         {
-          boost::split(latitudeLongitudeVector, parameterWithValue.second, boost::is_any_of(","));
-          if (latitudeLongitudeVector.size() != 2)
-          {
-            throw ParameterException(ParameterException::Type::INVALID_DESTINATION);
-          }
-          destination = Point(std::stod(latitudeLongitudeVector[1]), std::stod(latitudeLongitudeVector[0]));
+          destination = CommonParameters::getPointValue(parameterWithValue.second);
         }
         catch (...)
         {
diff --git a/include/parameters.hpp b/include/parameters.hpp
index 2b741e0..30e0241 100644
--- a/include/parameters.hpp
+++ b/include/parameters.hpp
@@ -152,6 +152,8 @@ namespace TrRouting
        * @return int The converted integer
        */
       static int getIntegerValue(std::string strValue);
+      // Parse a comma-separated lon/lat value. Throws an std::exception if it is not made of exactly 2 finite numbers
+      static Point getPointValue(const std::string& strValue);
   };
 
   class RouteParameters : public CommonParameters {
-- 
2.43.0


From 7226805b808efe96052ed7ede05313f860cecaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:47 +0000
Subject: [PATCH 11/33] fix: numerical parameters followed by garbage were
 accepted

---
 .../src/parameters/common_parameters.cpp                 | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/connection_scan_algorithm/src/parameters/common_parameters.cpp b/connection_scan_algorithm/src/parameters/common_parameters.cpp
index 1e9c1fe..982eeee 100644
--- a/connection_scan_algorithm/src/parameters/common_parameters.cpp
+++ b/connection_scan_algorithm/src/parameters/common_parameters.cpp
@@ -58,7 +58,14 @@ namespace TrRouting
   int CommonParameters::getIntegerValue(std::string strValue) {
     try
     {
-      return std::stoi(strValue);
+      std::size_t length = 0;
+      int value = std::stoi(strValue, &length);
+      // std::stoi ignores what follows the number
+      if (length != strValue.size())
+      {
+        throw std::invalid_argument("not an integer");
+      }
+      return value;
     }
     catch (...)
     {
-- 
2.43.0


From e529cefad22ef8f43dc4b123bd06c3560ff0975c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:04 +0000
Subject: [PATCH 12/33] fix: /updateCache crashed on unknown cache names and
 reported them as refreshed

---
 .../src/transit_routing_http_server.cpp                   | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index 67cc566..ecd1392 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -182,10 +182,10 @@ int main(int argc, char** argv) {
       }
     }
 
-    bool correctCacheName {false};
     //TODO Merge this and the preparations.cpp code
     for(std::string cacheName : cacheNames)
     {
+      bool correctCacheName {false};
       if (cacheName == "data_sources" || cacheName == "all")
       {
         correctCacheName = true;
@@ -251,7 +251,6 @@ int main(int argc, char** argv) {
         transitData.updateSchedules(customCacheDirectoryPath);
       }
 
-      //TODO This is incorrect if we have multiple name and the second one is wrong, correctCacheName is always true
       if (correctCacheName)
       {
         cacheNamesStr += cacheName;
@@ -259,10 +258,7 @@ int main(int argc, char** argv) {
       }
     }
 
-    //TODO do this only if we had at least one correct name
-    //Reinit some data after the update
-    // TODO Just the schedules???
-    if (cacheNames.size() > 0)
+    if (cacheNamesStr.size() > 0)
     {
       // Remove last ","
       cacheNamesStr.pop_back();
-- 
2.43.0


From aaa5cfdc384dc65cddfb9a42f7326487ca3a1ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:09 +0000
Subject: [PATCH 13/33] fix: /updateCache response was not valid JSON when the
 custom path contains special characters

---
 .../src/transit_routing_http_server.cpp                      | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index ecd1392..f4dcd79 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -21,6 +21,7 @@
 #include "parameters.hpp"
 #include "scenario.hpp"
 #include "calculator.hpp"
+#include <nlohmann/json.hpp>
 #include "program_options.hpp"
 #include "result_to_v2.hpp"
 #include "result_to_v2_summary.hpp"
@@ -262,7 +263,9 @@ int main(int argc, char** argv) {
     {
       // Remove last ","
       cacheNamesStr.pop_back();
-      response = "{\"status\": \"success\", \"cache_names\": \"" + cacheNamesStr + "\", \"custom_cache_path\": \"" + customCacheDirectoryPath + "\"}";
+      nlohmann::json jsonResponse = {{"status", "success"}, {"cache_names", cacheNamesStr}, {"custom_cache_path", customCacheDirectoryPath}};
+      // The path comes from the query: it can contain any character
+      response = jsonResponse.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
     }
     else
     {
-- 
2.43.0


From 93e8d1920e6a9a009073cab3dff050b07658176f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:02 +0000
Subject: [PATCH 14/33] fix: schedules of an unknown service or path or with an
 invalid id ended the server at startup

---
 src/trips_and_connections_cache_fetcher.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/trips_and_connections_cache_fetcher.cpp b/src/trips_and_connections_cache_fetcher.cpp
index b1dfb94..441c823 100644
--- a/src/trips_and_connections_cache_fetcher.cpp
+++ b/src/trips_and_connections_cache_fetcher.cpp
@@ -63,7 +63,13 @@ namespace TrRouting
         for (const auto & schedule : schedules)
         {
           std::string serviceUuidStr = schedule.getServiceUuid();
-          auto & service  = services.at(uuidGenerator(serviceUuidStr));
+          const auto serviceIter = services.find(uuidGenerator(serviceUuidStr));
+          if (serviceIter == services.end())
+          {
+            spdlog::error("Invalid service UUID ({}) in file {}", serviceUuidStr, cacheFilePath);
+            continue;
+          }
+          const Service & service = serviceIter->second;
 
           const auto periods {schedule.getPeriods()};
           for (const auto & period : periods)
@@ -75,7 +81,13 @@ namespace TrRouting
               pathUuidStr  = capnpTrip.getPathUuid();
               tripUuid     = uuidGenerator(tripUuidStr);
               pathUuid     = uuidGenerator(pathUuidStr);
-              Path &path = paths.at(pathUuid);
+              const auto pathIter = paths.find(pathUuid);
+              if (pathIter == paths.end())
+              {
+                spdlog::error("Invalid path UUID ({}) for trip {} in file {}", pathUuidStr, tripUuidStr, cacheFilePath);
+                continue;
+              }
+              Path &path = pathIter->second;
               
               trips.emplace(tripUuid, Trip(tripUuid,
                                            line.agency,
@@ -131,6 +143,11 @@ namespace TrRouting
         // TODO Do something about faulty cache files?
         spdlog::error("-- Error reading line cache file -- {}: {}", cacheFilePath, e.getDescription().cStr());
       }
+      catch (const std::exception& e)
+      {
+        // Invalid UUIDs for example
+        spdlog::error("-- Error reading line cache file -- {}: {}", cacheFilePath, e.what());
+      }
 
       close(fd);
     }
-- 
2.43.0


From 58cd67dc67e4aa96b983da1ee5117e0f0f2042c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:22 +0000
Subject: [PATCH 15/33] fix: trips with stop times inconsistent with their path
 made the loader read out of bounds

---
 src/trips_and_connections_cache_fetcher.cpp | 23 +++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/trips_and_connections_cache_fetcher.cpp b/src/trips_and_connections_cache_fetcher.cpp
index 441c823..01579c9 100644
--- a/src/trips_and_connections_cache_fetcher.cpp
+++ b/src/trips_and_connections_cache_fetcher.cpp
@@ -88,7 +88,23 @@ namespace TrRouting
                 continue;
               }
               Path &path = pathIter->second;
-              
+
+              auto arrivalTimesSeconds   = capnpTrip.getNodeArrivalTimesSeconds();
+              auto departureTimesSeconds = capnpTrip.getNodeDepartureTimesSeconds();
+              auto canBoards             = capnpTrip.getNodesCanBoard();
+              auto canUnboards           = capnpTrip.getNodesCanUnboard();
+              nodeTimesCount             = arrivalTimesSeconds.size();
+              // All stops must be in the path and have the values required by the connections
+              if (nodeTimesCount == 0 ||
+                  nodeTimesCount > path.nodesRef.size() ||
+                  departureTimesSeconds.size() < nodeTimesCount - 1 ||
+                  canBoards.size() < nodeTimesCount - 1 ||
+                  canUnboards.size() < nodeTimesCount)
+              {
+                spdlog::error("Inconsistent stop times for trip {} in file {}", tripUuidStr, cacheFilePath);
+                continue;
+              }
+
               trips.emplace(tripUuid, Trip(tripUuid,
                                            line.agency,
                                            line,
@@ -104,11 +120,6 @@ namespace TrRouting
               // TODO This should probably be done in the Trip constructor (setting the back reference)
               path.tripsRef.push_back(trip);
 
-              nodeTimesCount             = capnpTrip.getNodeArrivalTimesSeconds().size();
-              auto arrivalTimesSeconds   = capnpTrip.getNodeArrivalTimesSeconds();
-              auto departureTimesSeconds = capnpTrip.getNodeDepartureTimesSeconds();
-              auto canBoards             = capnpTrip.getNodesCanBoard();
-              auto canUnboards           = capnpTrip.getNodesCanUnboard();
               trip.connectionDepartureTimes.resize(nodeTimesCount);
               // nodeTimesCount - 1, since we process node pairs, we have to stop and the second from last
               for (unsigned long nodeTimeI = 0; nodeTimeI < nodeTimesCount - 1; nodeTimeI++)
-- 
2.43.0


From 7879aa8b8ab9503386ba831ef14551587689c772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:12 +0000
Subject: [PATCH 16/33] fix: departures in the 33rd hour read past the end of
 the connection hour cache

---
 src/connection_set.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connection_set.cpp b/src/connection_set.cpp
index 13c04b5..11fe045 100644
--- a/src/connection_set.cpp
+++ b/src/connection_set.cpp
@@ -10,7 +10,7 @@ namespace TrRouting {
 
   std::vector<std::reference_wrapper<const Connection>>::const_iterator ConnectionSet::getForwardConnectionsBeginAtDepartureHour(int hour) const
   {
-    if (hour > CONNECTION_ITERATOR_CACHE_END_HOUR || hour  < CONNECTION_ITERATOR_CACHE_BEGIN_HOUR) {
+    if (hour >= CONNECTION_ITERATOR_CACHE_END_HOUR || hour  < CONNECTION_ITERATOR_CACHE_BEGIN_HOUR) {
       return forwardConnections.cend();
     }
 
-- 
2.43.0


From 26f4310dc93a97c666091c5fe52909405fea6fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:00 +0000
Subject: [PATCH 17/33] fix: a departure time near the integer maximum made the
 connection hour cache grow forever

---
 src/connection_set.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connection_set.cpp b/src/connection_set.cpp
index 11fe045..6e6aa0b 100644
--- a/src/connection_set.cpp
+++ b/src/connection_set.cpp
@@ -40,7 +40,7 @@ namespace TrRouting {
          ite++) {
       // We can have a gap of multiple hours between 2 connections, so the current iterator
       // can be valid for multiple hour slots
-      while ((*ite).get().getDepartureTime() >= currentHour * 3600) {
+      while (currentHour < CONNECTION_ITERATOR_CACHE_END_HOUR && (*ite).get().getDepartureTime() >= currentHour * 3600) {
         forwardConnectionsBeginIteratorCache.push_back(ite);
         currentHour++;
       }
-- 
2.43.0


From f136c66c2aae0ffc1d7f27520ee693d178582ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:14 +0000
Subject: [PATCH 18/33] fix: missing or invalid place was reported as an
 unknown parameter error

---
 connection_scan_algorithm/src/transit_routing_http_server.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index f4dcd79..88c3c0e 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -93,8 +93,10 @@ std::string getResponseCode(ParameterException::Type type)
     case ParameterException::Type::MISSING_ORIGIN: return "MISSING_PARAM_ORIGIN";
     case ParameterException::Type::MISSING_DESTINATION: return "MISSING_PARAM_DESTINATION";
     case ParameterException::Type::MISSING_TIME_OF_TRIP: return "MISSING_PARAM_TIME_OF_TRIP";
+    case ParameterException::Type::MISSING_PLACE: return "MISSING_PARAM_PLACE";
     case ParameterException::Type::INVALID_ORIGIN: return "INVALID_ORIGIN";
     case ParameterException::Type::INVALID_DESTINATION: return "INVALID_DESTINATION";
+    case ParameterException::Type::INVALID_PLACE: return "INVALID_PLACE";
     case ParameterException::Type::INVALID_NUMERICAL_DATA: return "INVALID_NUMERICAL_DATA";
     default: return "PARAM_ERROR_UNKNOWN";
   }
-- 
2.43.0


From f62441190beda3c69809f93389032a6f55474fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:53 +0000
Subject: [PATCH 19/33] fix: connection sets of the previous data were used
 after a cache refresh

---
 include/connection_cache.hpp |  4 ++++
 src/connection_cache.cpp     | 11 +++++++++++
 src/transit_data.cpp         | 16 ++++++++++------
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/include/connection_cache.hpp b/include/connection_cache.hpp
index 5ed4e2d..66edfdb 100644
--- a/include/connection_cache.hpp
+++ b/include/connection_cache.hpp
@@ -28,6 +28,8 @@ class ScenarioConnectionCache {
     
     virtual std::optional<std::shared_ptr<ConnectionSet>> get(boost::uuids::uuid uuid) const = 0;
     virtual void set(boost::uuids::uuid uuid, std::shared_ptr<ConnectionSet> cache) = 0;
+    /** Forget all connection sets, to call when the data they refer to changes */
+    virtual void clear() = 0;
 };
 
 /**
@@ -45,6 +47,7 @@ class ScenarioConnectionCacheOne : public ScenarioConnectionCache {
 
     virtual std::optional<std::shared_ptr<ConnectionSet>> get(boost::uuids::uuid uuid) const;
     virtual void set(boost::uuids::uuid uuid, std::shared_ptr<ConnectionSet> cache);
+    virtual void clear();
 
   private:
   mutable std::shared_mutex mutex; //Reader/Writer locking
@@ -68,6 +71,7 @@ class ScenarioConnectionCacheAll : public ScenarioConnectionCache {
 
     virtual std::optional<std::shared_ptr<ConnectionSet>> get(boost::uuids::uuid uuid) const;
     virtual void set(boost::uuids::uuid uuid, std::shared_ptr<ConnectionSet> cache);
+    virtual void clear();
 
   private:
     mutable std::shared_mutex mutex; //Reader/Writer locking
diff --git a/src/connection_cache.cpp b/src/connection_cache.cpp
index 87c9959..02f0882 100644
--- a/src/connection_cache.cpp
+++ b/src/connection_cache.cpp
@@ -22,6 +22,12 @@ namespace TrRouting {
     lastConnection = cache;
   }
 
+  void ScenarioConnectionCacheOne::clear() {
+    std::unique_lock lock(mutex); //Exclusive lock when writing
+    lastUuid.reset();
+    lastConnection.reset();
+  }
+
   // ScenarioConnectionCacheAll
   std::optional<std::shared_ptr<ConnectionSet>> ScenarioConnectionCacheAll::get(boost::uuids::uuid uuid) const {
     std::shared_lock lock(mutex); //Sharing lock when reading
@@ -39,4 +45,9 @@ namespace TrRouting {
     std::unique_lock lock(mutex); //Exclusive lock when writing
     connectionSets[uuid] = cache;
   }
+
+  void ScenarioConnectionCacheAll::clear() {
+    std::unique_lock lock(mutex); //Exclusive lock when writing
+    connectionSets.clear();
+  }
 }
diff --git a/src/transit_data.cpp b/src/transit_data.cpp
index 587bc16..c01fb19 100644
--- a/src/transit_data.cpp
+++ b/src/transit_data.cpp
@@ -23,12 +23,6 @@ namespace TrRouting {
   TransitData::TransitData(DataFetcher& fetcher, bool cacheAllScenarios) :
     dataFetcher(fetcher)
   {
-    DataStatus loadStatus = loadAllData();
-    if (loadStatus != DataStatus::READY) {
-      //TODO For now, don't throw on error because Transit server expect to get the dataStatus
-      //throw std::exception("Incomplete transit data");
-      spdlog::error("TransitData loading had error, object will not be valid");
-    }
     if (cacheAllScenarios) {
       scenarioConnectionCache = new ScenarioConnectionCacheAll();
       spdlog::info("Will cache all connectionSets");
@@ -36,6 +30,12 @@ namespace TrRouting {
       scenarioConnectionCache = new ScenarioConnectionCacheOne();
       spdlog::info("Will cache one connectionSet");
     }
+    DataStatus loadStatus = loadAllData();
+    if (loadStatus != DataStatus::READY) {
+      //TODO For now, don't throw on error because Transit server expect to get the dataStatus
+      //throw std::exception("Incomplete transit data");
+      spdlog::error("TransitData loading had error, object will not be valid");
+    }
   }
 
   TransitData::~TransitData() {
@@ -127,11 +127,15 @@ namespace TrRouting {
 
   int TransitData::updateScenarios(std::string customPath)
   {
+    // The cached connection sets were selected with the previous scenarios
+    scenarioConnectionCache->clear();
     return dataFetcher.getScenarios(scenarios, getServices(), getLines(), getAgencies(), getNodes(), getModes(), customPath);
   }
 
   int TransitData::updateSchedules(std::string customPath)
   {
+    // The cached connection sets refer to the previous trips and connections
+    scenarioConnectionCache->clear();
     int ret =  dataFetcher.getSchedules(
       trips,
       getLines(),
-- 
2.43.0


From b0d82045c15e453d0b9b7dd4a6b3fb07b7b3a943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:53 +0000
Subject: [PATCH 20/33] fix: the data status was not updated by a cache refresh

---
 .../src/transit_routing_http_server.cpp                      | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index 88c3c0e..8f4d115 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -146,7 +146,7 @@ int main(int argc, char** argv) {
   server.config.thread_pool_size = programOptions.numberOfThreads;
 
   // updateCache:
-  server.resource["^/updateCache[/]?$"]["GET"]=[&server, &transitData](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
+  server.resource["^/updateCache[/]?$"]["GET"]=[&server, &dataStatus, &transitData](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
 
     std::string              response {""};
     std::vector<std::string> parametersWithValues;
@@ -261,6 +261,9 @@ int main(int argc, char** argv) {
       }
     }
 
+    // The refreshed data can be complete, or incomplete, contrary to the previous one
+    dataStatus = transitData.getDataStatus();
+
     if (cacheNamesStr.size() > 0)
     {
       // Remove last ","
-- 
2.43.0


From f4ddc5be521b69ad84770d6411ef2998a4c90fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:04 +0000
Subject: [PATCH 21/33] fix: refreshing a collection left the others referring
 to freed objects

---
 .../src/transit_routing_http_server.cpp            | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index 8f4d115..0e7fe7d 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -189,6 +189,12 @@ int main(int argc, char** argv) {
     for(std::string cacheName : cacheNames)
     {
       bool correctCacheName {false};
+      // The lines refer to the agencies, the paths to the lines and nodes, the scenarios and
+      // schedules to most of them: what refers to refreshed objects needs to be refreshed too
+      const bool refreshLines = cacheName == "lines" || cacheName == "agencies" || cacheName == "all";
+      const bool refreshPaths = cacheName == "paths" || cacheName == "nodes" || refreshLines;
+      const bool refreshScenarios = cacheName == "scenarios" || cacheName == "services" || cacheName == "nodes" || refreshLines;
+      const bool refreshSchedules = cacheName == "schedules" || cacheName == "services" || refreshPaths;
       if (cacheName == "data_sources" || cacheName == "all")
       {
         correctCacheName = true;
@@ -233,22 +239,22 @@ int main(int argc, char** argv) {
         correctCacheName = true;
         transitData.updateNodes(customCacheDirectoryPath);
       }
-      if (cacheName == "lines" || cacheName == "all")
+      if (refreshLines)
       {
         correctCacheName = true;
         transitData.updateLines(customCacheDirectoryPath);
       }
-      if (cacheName == "paths" || cacheName == "all")
+      if (refreshPaths)
       {
         correctCacheName = true;
         transitData.updatePaths(customCacheDirectoryPath);
       }
-      if (cacheName == "scenarios" || cacheName == "all")
+      if (refreshScenarios)
       {
         correctCacheName = true;
         transitData.updateScenarios(customCacheDirectoryPath);
       }
-      if (cacheName == "schedules" || cacheName == "all")
+      if (refreshSchedules)
       {
         correctCacheName = true;
         transitData.updateSchedules(customCacheDirectoryPath);
-- 
2.43.0


From 6ffd88c344d91fa8354224e919c68eac97206f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:05 +0000
Subject: [PATCH 22/33] fix: segment distances were misaligned when a path
 lacks some of them

---
 src/paths_cache_fetcher.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/paths_cache_fetcher.cpp b/src/paths_cache_fetcher.cpp
index 4274e61..0f732f2 100644
--- a/src/paths_cache_fetcher.cpp
+++ b/src/paths_cache_fetcher.cpp
@@ -81,11 +81,12 @@ namespace TrRouting
 
         for (size_t i=0; i < nodesRef.size(); i++)
         {
-          if (jsonData["segments"][i]["distanceMeters"] != nullptr)
+          // Segments are looked up by their position, stop at the first one without value
+          if (distancesMeters.size() == i && jsonData["segments"][i]["distanceMeters"] != nullptr)
           {
             distancesMeters.push_back(jsonData["segments"][i]["distanceMeters"]);
           }
-          if (jsonData["segments"][i]["travelTimeSeconds"] != nullptr)
+          if (travelTimesSeconds.size() == i && jsonData["segments"][i]["travelTimeSeconds"] != nullptr)
           {
             travelTimesSeconds.push_back(jsonData["segments"][i]["travelTimeSeconds"]);
           }
-- 
2.43.0


From cf4fd8b6e2ab19afe694a945f79a4d928ce50db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:22 +0000
Subject: [PATCH 23/33] fix: unreadable optional data kept the required data
 from being loaded

---
 src/transit_data.cpp | 84 ++++++++------------------------------------
 1 file changed, 14 insertions(+), 70 deletions(-)

diff --git a/src/transit_data.cpp b/src/transit_data.cpp
index c01fb19..2f2a484 100644
--- a/src/transit_data.cpp
+++ b/src/transit_data.cpp
@@ -264,84 +264,28 @@ namespace TrRouting {
   }
   
   DataStatus TransitData::loadAllData() {
-    int ret = 0;
-
     spdlog::debug("preparing nodes, routes, trips, connections and footpaths...");
     
     modes = dataFetcher.getModes();
 
-    ret = updateNodes();
-    // Ignore missing nodes file
-    if (ret < 0 && ret != -ENOENT)
-    {
-      return DataStatus::DATA_READ_ERROR;
-    }
-    ret = updateDataSources();
-    // Ignore missing data sources file
-    if (ret < 0 && ret != -ENOENT)
-    {
-      return DataStatus::DATA_READ_ERROR;
-    }
+    // The loaders log what they cannot read. The remaining collections are loaded anyway, so the
+    // data status tells what is really missing.
+    updateNodes();
+    updateDataSources();
     /* TODO #167
-    ret = updateHouseholds();
-    if (ret < 0)
-    {
-      return DataStatus::DATA_READ_ERROR;
-    }
+    updateHouseholds();
     */
-    ret = updatePersons();
-    if (ret < 0)
-    {
-      return DataStatus::DATA_READ_ERROR;
-    }
-    ret = updateOdTrips();
-    if (ret < 0)
-    {
-      return DataStatus::DATA_READ_ERROR;
-    }
+    updatePersons();
+    updateOdTrips();
     /* TODO #167
-    ret = updatePlaces();
-    if (ret < 0)
-    {
-      return DataStatus::DATA_READ_ERROR;
-    }
+    updatePlaces();
     */
-    ret = updateAgencies();
-    // Ignore missing file
-    if (ret < 0 && ret != -ENOENT)
-    {
-      return DataStatus::DATA_READ_ERROR;
-    }
-    ret = updateServices();
-    // Ignore missing file
-    if (ret < 0 && ret != -ENOENT)
-    {
-      return DataStatus::DATA_READ_ERROR;
-    }
-    ret = updateLines();
-    // Ignore missing file
-    if (ret < 0 && ret != -ENOENT)
-    {
-      return DataStatus::DATA_READ_ERROR;
-    }
-    ret = updatePaths();
-    // Ignore missing file
-    if (ret < 0 && ret != -ENOENT)
-    {
-      return DataStatus::DATA_READ_ERROR;
-    }
-    ret = updateScenarios();
-    // Ignore missing file
-    if (ret < 0 && ret != -ENOENT)
-    {
-      return DataStatus::DATA_READ_ERROR;
-    }
-    ret = updateSchedules();
-    // Ignore missing file
-    if (ret < 0 && ret != -ENOENT)
-    {
-      return DataStatus::DATA_READ_ERROR;
-    }
+    updateAgencies();
+    updateServices();
+    updateLines();
+    updatePaths();
+    updateScenarios();
+    updateSchedules();
 
     return getDataStatus();
   }
-- 
2.43.0


From b443ba9d3cb44f28bbd66d8a3e6df4a987701db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:22 +0000
Subject: [PATCH 24/33] fix: an invalid identifier in a node file ended the
 server at startup

---
 src/nodes_cache_fetcher.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nodes_cache_fetcher.cpp b/src/nodes_cache_fetcher.cpp
index a5cd220..720ece3 100644
--- a/src/nodes_cache_fetcher.cpp
+++ b/src/nodes_cache_fetcher.cpp
@@ -168,6 +168,13 @@ namespace TrRouting
         close(fd);
         return -EBADMSG;
       }
+      catch (const std::exception& e)
+      {
+        // Invalid UUIDs for example
+        spdlog::error("-- Error reading node cache file -- {}: {}", nodeCacheFileNamePath, e.what());
+        close(fd);
+        return -EINVAL;
+      }
       close(fd);
     }
 
-- 
2.43.0


From 426520615629d4cec728f40c7bb5a0909fa6c0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 25/33] fix: trips going back in time made requests fail

---
 src/trips_and_connections_cache_fetcher.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/trips_and_connections_cache_fetcher.cpp b/src/trips_and_connections_cache_fetcher.cpp
index 01579c9..37d04f9 100644
--- a/src/trips_and_connections_cache_fetcher.cpp
+++ b/src/trips_and_connections_cache_fetcher.cpp
@@ -104,6 +104,19 @@ namespace TrRouting
                 spdlog::error("Inconsistent stop times for trip {} in file {}", tripUuidStr, cacheFilePath);
                 continue;
               }
+              // A vehicle cannot leave before it arrived, nor arrive before it left
+              bool isChronological = true;
+              for (unsigned long nodeTimeI = 0; isChronological && nodeTimeI + 1 < nodeTimesCount; nodeTimeI++)
+              {
+                const int earliestDeparture = nodeTimeI > 0 ? arrivalTimesSeconds[nodeTimeI] : 0;
+                isChronological = departureTimesSeconds[nodeTimeI] >= earliestDeparture &&
+                  arrivalTimesSeconds[nodeTimeI + 1] >= departureTimesSeconds[nodeTimeI];
+              }
+              if (!isChronological)
+              {
+                spdlog::error("Stop times going back in time for trip {} in file {}", tripUuidStr, cacheFilePath);
+                continue;
+              }
 
               trips.emplace(tripUuid, Trip(tripUuid,
                                            line.agency,
-- 
2.43.0


From c2df1b9e4a7b2cc49ed6bb0784a1b202666c96ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 26/33] fix: node files with fewer travel times or distances
 than nodes were read out of bounds

---
 src/nodes_cache_fetcher.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nodes_cache_fetcher.cpp b/src/nodes_cache_fetcher.cpp
index 720ece3..0fbd11f 100644
--- a/src/nodes_cache_fetcher.cpp
+++ b/src/nodes_cache_fetcher.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 
 #ifndef TR_NODES_CACHE_FETCHER
 #define TR_NODES_CACHE_FETCHER
@@ -125,7 +126,10 @@ namespace TrRouting
         ::capnp::PackedFdMessageReader capnpTMessage(fd, {32 * 1024 * 1024});
 
         cNode::Reader capnpT = capnpTMessage.getRoot<cNode>();
-        const unsigned int transferableNodesCount {capnpT.getTransferableNodesUuids().size()};
+        // Ignore the transferable nodes without a travel time or a distance
+        const unsigned int transferableNodesCount {std::min({capnpT.getTransferableNodesUuids().size(),
+                                                             capnpT.getTransferableNodesTravelTimes().size(),
+                                                             capnpT.getTransferableNodesDistances().size()})};
 
         std::vector<NodeTimeDistance> transferableNodes;
         std::vector<NodeTimeDistance> reverseTransferableNodes;
-- 
2.43.0


From 951bf0c7242ac3e18e5e47e5118b7ae245f2f7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 27/33] fix: texts that are not valid UTF-8 made requests fail

---
 .../src/transit_routing_http_server.cpp          | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index 0e7fe7d..1d34837 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -338,20 +338,20 @@ int main(int argc, char** argv) {
         if (queryParams.isWithAlternatives())
         {
           TrRouting::AlternativesResult alternativeResult = calculator.alternativesRouting(queryParams);
-          response = ResultToV2Response::resultToJsonString(alternativeResult, queryParams).dump(2);
+          response = ResultToV2Response::resultToJsonString(alternativeResult, queryParams).dump(2, ' ', false, nlohmann::json::error_handler_t::replace);
         }
         else
         {
           std::unique_ptr<TrRouting::SingleCalculationResult> routingResult = calculator.calculateSingle(queryParams);
           if (routingResult.get() != nullptr) {
-            response = ResultToV2Response::resultToJsonString(*routingResult.get(), queryParams).dump(2);
+            response = ResultToV2Response::resultToJsonString(*routingResult.get(), queryParams).dump(2, ' ', false, nlohmann::json::error_handler_t::replace);
           }
         }
 
         spdlog::info("-- route request complete -- {}", currentRequestId);
 
       } catch (NoRoutingFoundException &e) {
-        response = ResultToV2Response::noRoutingFoundResponse(queryParams, e.getReason()).dump(2);
+        response = ResultToV2Response::noRoutingFoundResponse(queryParams, e.getReason()).dump(2, ' ', false, nlohmann::json::error_handler_t::replace);
         spdlog::info("-- route request not found -- {}", currentRequestId);
 
       }
@@ -410,20 +410,20 @@ int main(int argc, char** argv) {
         if (queryParams.isWithAlternatives())
         {
           TrRouting::AlternativesResult alternativeResult = calculator.alternativesRouting(queryParams);
-          response = ResultToV2SummaryResponse::resultToJsonString(alternativeResult, queryParams).dump(2);
+          response = ResultToV2SummaryResponse::resultToJsonString(alternativeResult, queryParams).dump(2, ' ', false, nlohmann::json::error_handler_t::replace);
         }
         else
         {
           std::unique_ptr<TrRouting::SingleCalculationResult> routingResult = calculator.calculateSingle(queryParams);
           if (routingResult.get() != nullptr) {
-            response = ResultToV2SummaryResponse::resultToJsonString(*routingResult.get(), queryParams).dump(2);
+            response = ResultToV2SummaryResponse::resultToJsonString(*routingResult.get(), queryParams).dump(2, ' ', false, nlohmann::json::error_handler_t::replace);
           }
         }
 
         spdlog::info("-- summary request complete -- {}", currentRequestId);
 
       } catch (NoRoutingFoundException &e) {
-        response = ResultToV2SummaryResponse::noRoutingFoundResponse(queryParams, e.getReason()).dump(2);
+        response = ResultToV2SummaryResponse::noRoutingFoundResponse(queryParams, e.getReason()).dump(2, ' ', false, nlohmann::json::error_handler_t::replace);
         spdlog::info("-- summary request not found -- {}", currentRequestId);
       }
 
@@ -480,13 +480,13 @@ int main(int argc, char** argv) {
       try {
         std::unique_ptr<AllNodesResult> accessibilityResult = calculator.calculateAllNodes(queryParams);
         if (accessibilityResult.get() != nullptr) {
-          response = ResultToV2AccessibilityResponse::resultToJsonString(*accessibilityResult.get(), queryParams).dump(2);
+          response = ResultToV2AccessibilityResponse::resultToJsonString(*accessibilityResult.get(), queryParams).dump(2, ' ', false, nlohmann::json::error_handler_t::replace);
         }
 
         spdlog::info("-- accessibility request complete -- {}", currentRequestId);
 
       } catch (NoRoutingFoundException &e) {
-        response = ResultToV2AccessibilityResponse::noRoutingFoundResponse(queryParams, e.getReason()).dump(2);
+        response = ResultToV2AccessibilityResponse::noRoutingFoundResponse(queryParams, e.getReason()).dump(2, ' ', false, nlohmann::json::error_handler_t::replace);
         spdlog::info("-- accessibility request not found -- {}", currentRequestId);
       }
 
-- 
2.43.0


From 7bbf8853a33a8c2c182f6b142ff5ae7f3cc038fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:41 +0000
Subject: [PATCH 28/33] fix: survey trips with fewer travel times or distances
 than nodes were read out of bounds

---
 src/od_trips_cache_fetcher.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/od_trips_cache_fetcher.cpp b/src/od_trips_cache_fetcher.cpp
index e907b24..6eaddfe 100644
--- a/src/od_trips_cache_fetcher.cpp
+++ b/src/od_trips_cache_fetcher.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 
 #ifndef TR_OD_TRIPS_CACHE_FETCHER
 #define TR_OD_TRIPS_CACHE_FETCHER
@@ -151,7 +152,9 @@ namespace TrRouting
             destination->latitude     = ((double)capnpT.getDestinationLatitude())  / 1000000.0;
             destination->longitude    = ((double)capnpT.getDestinationLongitude()) / 1000000.0;
 
-            const unsigned int originNodesCount {capnpT.getOriginNodesUuids().size()};
+            const unsigned int originNodesCount {std::min({capnpT.getOriginNodesUuids().size(),
+                                                           capnpT.getOriginNodesTravelTimes().size(),
+                                                           capnpT.getOriginNodesDistances().size()})};
             std::vector<NodeTimeDistance> originNodes;
             for (unsigned int j = 0; j < originNodesCount; j++)
             {
@@ -161,7 +164,9 @@ namespace TrRouting
                                                      capnpT.getOriginNodesDistances()[j]));
             }
 
-            const unsigned int destinationNodesCount {capnpT.getDestinationNodesUuids().size()};
+            const unsigned int destinationNodesCount {std::min({capnpT.getDestinationNodesUuids().size(),
+                                                                capnpT.getDestinationNodesTravelTimes().size(),
+                                                                capnpT.getDestinationNodesDistances().size()})};
             std::vector<NodeTimeDistance> destinationNodes;
             for (unsigned int j = 0; j < destinationNodesCount; j++)
             {
-- 
2.43.0


From 512110e91c3c7f240bf1d65b62f7b652753c05f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:52 +0000
Subject: [PATCH 29/33] Verification points around the connection cache
 (guarded by TRROUTING_VERIF)

---
 src/transit_data.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/transit_data.cpp b/src/transit_data.cpp
index 2f2a484..baaf77b 100644
--- a/src/transit_data.cpp
+++ b/src/transit_data.cpp
@@ -18,6 +18,14 @@
 #include "connection_set.hpp"
 
 
+#ifdef TRROUTING_VERIF
+// Verification builds supply this function, to force every order of concurrent queries at the points below
+extern "C" void trrouting_verif_point(const char* name);
+#define TRROUTING_VERIF_POINT(name) trrouting_verif_point(name)
+#else
+#define TRROUTING_VERIF_POINT(name)
+#endif
+
 namespace TrRouting {
 
   TransitData::TransitData(DataFetcher& fetcher, bool cacheAllScenarios) :
@@ -293,8 +301,10 @@ namespace TrRouting {
   std::shared_ptr<ConnectionSet> TransitData::getConnectionsForScenario(const Scenario & scenario) const {
     std::optional<std::shared_ptr<ConnectionSet>> optCurrentCache = scenarioConnectionCache->get(scenario.uuid);
     if (optCurrentCache.has_value()) {
+      TRROUTING_VERIF_POINT("hit");
       return optCurrentCache.value();
     }
+    TRROUTING_VERIF_POINT("miss");
 
     spdlog::debug("Computing connection cache for scenario {}...", boost::uuids::to_string(scenario.uuid));
     // Create the cache for scenario
@@ -414,7 +424,9 @@ namespace TrRouting {
     }
 
     std::shared_ptr<ConnectionSet> currentCache = std::make_shared<ConnectionSet>(cachedTrips, scenarioForwardConnections, scenarioReverseConnections);
+    TRROUTING_VERIF_POINT("publish");
     scenarioConnectionCache->set(scenario.uuid, currentCache);
+    TRROUTING_VERIF_POINT("published");
     return currentCache;
     
   }
-- 
2.43.0


From 3c164b76de3990bd7c6aa43c24a0168371fd824b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:55 +0000
Subject: [PATCH 30/33] fix: the request counters were changed by several
 threads without synchronisation

---
 .../src/transit_routing_http_server.cpp                    | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index 1d34837..f28640a 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -4,6 +4,7 @@
 //Added for the json-example
 #define BOOST_SPIRIT_THREADSAFE
 
+#include <atomic>
 #include <vector>
 #include <algorithm>
 #include <string>
@@ -311,7 +312,7 @@ int main(int argc, char** argv) {
   // TODO Copy-pasted and adapted from /route/v1/transit. There's still a lot of common code. Application code should be extracted to common functions outside the web server
   server.resource["^/v2/route[/]?$"]["GET"]=[&server, &dataStatus, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
-    static int routeRequestId = 0;
+    static std::atomic<int> routeRequestId{0};
     std::string response = getFastErrorResponse(dataStatus);
 
     if (!response.empty()) {
@@ -381,7 +382,7 @@ int main(int argc, char** argv) {
   // TODO Copy pasted from v2/route. There's a lot in common, it should be extracted to common class, just the response parser is different
   server.resource["^/v2/summary[/]?$"]["GET"]=[&server, &dataStatus, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
-    static int summaryRequestId = 0;
+    static std::atomic<int> summaryRequestId{0};
 
     std::string response = getFastErrorResponse(dataStatus);
 
@@ -452,7 +453,7 @@ int main(int argc, char** argv) {
   // TODO Copy-pasted and adapted from /route/v1/transit. There's still a lot of common code. Application code should be extracted to common functions outside the web server
   server.resource["^/v2/accessibility[/]?$"]["GET"]=[&server, &dataStatus, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
-    static int accessibilityRequestId = 0;
+    static std::atomic<int> accessibilityRequestId{0};
 
     std::string response = getFastErrorResponse(dataStatus);
 
-- 
2.43.0


From 3b51dfc2fa2c75592c2ab2fc618c7e872ccd0baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:25 +0000
Subject: [PATCH 31/33] fix: footpaths with a negative travel time made the
 journey reconstruction run forever

A damaged node file can hold negative travel times.  They allow cycles of
transfers, and a request following such a cycle collected steps without end.
---
 src/nodes_cache_fetcher.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nodes_cache_fetcher.cpp b/src/nodes_cache_fetcher.cpp
index 0fbd11f..b65c679 100644
--- a/src/nodes_cache_fetcher.cpp
+++ b/src/nodes_cache_fetcher.cpp
@@ -149,6 +149,12 @@ namespace TrRouting
           
           int travelTime = capnpT.getTransferableNodesTravelTimes()[j];
           int distance = capnpT.getTransferableNodesDistances()[j];
+          if (travelTime < 0)
+          {
+            // A walk going back in time would allow journeys without end
+            spdlog::error("Invalid travel time to transferable node ({}) in file {}", nodeUuidStr, nodeCacheFileNamePath);
+            continue;
+          }
           transferableNodes.push_back(NodeTimeDistance(ts.at(nodeUuid),
                                                        travelTime,
                                                        distance));
-- 
2.43.0


From 7163eeaae81ffd812d35cb75d639635282e835ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:25 +0000
Subject: [PATCH 32/33] fix: stop times near the end of the integer range
 wrapped around and looped

A damaged line file can hold such times.  Adding a walk to them made the time
of arrival negative, and a request following the resulting cycle never ended.
---
 src/trips_and_connections_cache_fetcher.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/trips_and_connections_cache_fetcher.cpp b/src/trips_and_connections_cache_fetcher.cpp
index 37d04f9..8ffe147 100644
--- a/src/trips_and_connections_cache_fetcher.cpp
+++ b/src/trips_and_connections_cache_fetcher.cpp
@@ -104,8 +104,9 @@ namespace TrRouting
                 spdlog::error("Inconsistent stop times for trip {} in file {}", tripUuidStr, cacheFilePath);
                 continue;
               }
-              // A vehicle cannot leave before it arrived, nor arrive before it left
-              bool isChronological = true;
+              // A vehicle cannot leave before it arrived, nor arrive before it left. The last
+              // arrival must leave room for the walks and waiting times the calculation adds to it.
+              bool isChronological = arrivalTimesSeconds[nodeTimesCount - 1] <= MAX_INT / 2;
               for (unsigned long nodeTimeI = 0; isChronological && nodeTimeI + 1 < nodeTimesCount; nodeTimeI++)
               {
                 const int earliestDeparture = nodeTimeI > 0 ? arrivalTimesSeconds[nodeTimeI] : 0;
-- 
2.43.0


From 469fe376d28326d53ba779344e5e8c8993141ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:17 +0000
Subject: [PATCH 33/33] fix: a trip given twice in the schedules could send a
 request into an endless loop

The connections of both occurrences were attached to the first one, so its
stop sequence was no longer the one of its path.
---
 src/trips_and_connections_cache_fetcher.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/trips_and_connections_cache_fetcher.cpp b/src/trips_and_connections_cache_fetcher.cpp
index 8ffe147..5b17d5b 100644
--- a/src/trips_and_connections_cache_fetcher.cpp
+++ b/src/trips_and_connections_cache_fetcher.cpp
@@ -119,6 +119,12 @@ namespace TrRouting
                 continue;
               }
 
+              if (trips.count(tripUuid) > 0)
+              {
+                spdlog::error("Duplicate trip UUID ({}) in file {}", tripUuidStr, cacheFilePath);
+                continue;
+              }
+
               trips.emplace(tripUuid, Trip(tripUuid,
                                            line.agency,
                                            line,
-- 
2.43.0

