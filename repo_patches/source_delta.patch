From 78c46cc3b8e8da54d8a1114f493b76bd69690482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:21 +0000
Subject: [PATCH 01/65] fix: reset superelevation derivative on roads without
 superelevation

Position kept the derivative of the previously visited road, adding a
pitch offset to objects on roads that have no superelevation at all.
---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 23ceb30..2102f36 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -3509,7 +3509,8 @@ bool Road::UpdateRollByS(double s, double* roadSuperElevationPrim, double* roll,
     }
     else
     {
-        *roll = 0.0;
+        *roll                   = 0.0;
+        *roadSuperElevationPrim = 0.0;
     }
 
     return false;
-- 
2.43.0


From 549df75982e1fa12d17a99faa457f790b5975af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:01 +0000
Subject: [PATCH 02/65] fix: honour requested lane ID when setting lane
 position via the libraries

Setting a lane position with the same lane ID as the current one, but in
another lane section, followed the lane links from the current position
and ended up in a different lane than the requested one.
---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp     | 6 +++++-
 EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 4252cf2..e1ba6b5 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -1248,7 +1248,11 @@ extern "C"
             return -1;
         }
 
-        obj->pos_.SetLanePos(roadId, laneId, s, laneOffset);
+        // lane ID refers to the lane section at specified s, hence don't follow lane links from current position
+        roadmanager::Road *road             = roadmanager::Position::GetOpenDrive()->GetRoadById(roadId);
+        idx_t              lane_section_idx = road != nullptr ? road->GetLaneSectionIdxByS(s) : IDX_UNDEFINED;
+
+        obj->pos_.SetLanePos(roadId, laneId, s, laneOffset, lane_section_idx);
         obj->dirty_.SetBits(Object::DirtyBit::LONGITUDINAL | Object::DirtyBit::LATERAL);
 
         return 0;
diff --git a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
index 1a0d8cd..ede8097 100644
--- a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
@@ -474,7 +474,11 @@ extern "C"
             roadmanager::Position* pos = &position[static_cast<unsigned int>(handle)];
             if (pos)
             {
-                int retval = static_cast<int>(pos->SetLanePos(roadId, laneId, s, laneOffset));
+                // lane ID refers to the lane section at specified s, hence don't follow lane links from current position
+                roadmanager::Road* target_road      = odrManager->GetRoadById(roadId);
+                idx_t              lane_section_idx = target_road != nullptr ? target_road->GetLaneSectionIdxByS(s) : IDX_UNDEFINED;
+
+                int retval = static_cast<int>(pos->SetLanePos(roadId, laneId, s, laneOffset, lane_section_idx));
                 if (retval >= 0 && align)
                 {
                     roadmanager::OpenDrive* odr = roadmanager::Position::GetOpenDrive();
-- 
2.43.0


From 23cb88534cf559e79387ec6c1c804b3973e32ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:35 +0000
Subject: [PATCH 03/65] fix: evaluate poly3 geometry up to its end

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 2102f36..6598257 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -1072,7 +1072,7 @@ void Poly3::EvaluateDSLocal(double ds, double& u, double& v) const
     else if (ds > SMALL_NUMBER)
     {
         double distTmp = 0;
-        for (double uTmp = 0; uTmp < length_; uTmp += steplen)
+        for (double uTmp = 0; uTmp < length_ + steplen; uTmp += steplen)
         {
             double vTmp  = poly3_.Evaluate(uTmp);
             double delta = sqrt((uTmp - u) * (uTmp - u) + (vTmp - v) * (vTmp - v));
-- 
2.43.0


From 77f8b66eca2d27f2c90cc3cf4e1f786d3f6e519a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:45 +0000
Subject: [PATCH 04/65] fix: use unsigned and well-defined distance to banked
 road segments in road lookup

---
 EnvironmentSimulator/Modules/CommonMini/CommonMini.cpp   | 3 ++-
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/CommonMini/CommonMini.cpp b/EnvironmentSimulator/Modules/CommonMini/CommonMini.cpp
index 9ee53e6..ed7afce 100644
--- a/EnvironmentSimulator/Modules/CommonMini/CommonMini.cpp
+++ b/EnvironmentSimulator/Modules/CommonMini/CommonMini.cpp
@@ -656,7 +656,8 @@ double PointToLineDistance3DSigned(double px, double py, double pz, double lx0,
     double lineMagnitude = std::sqrt(dx * dx + dy * dy + dz * dz);
 
     // Calculate the signed distance
-    double distance = crossMagnitude / (lineMagnitude > SMALL_NUMBER ? lineMagnitude : SMALL_NUMBER);
+    // for a zero length line it's the distance to the point
+    double distance = lineMagnitude > SMALL_NUMBER ? crossMagnitude / lineMagnitude : std::sqrt(px0 * px0 + py0 * py0 + pz0 * pz0);
 
     // Determine the sign of the distance using the cross product in the XY plane
     double crossProduct = GetCrossProduct2D(dx, dy, px0, py0);
diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 6598257..62ea26c 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -9173,7 +9173,9 @@ Position::XYZ2TrackPos(double x3, double y3, double z3, int mode, bool connected
                 else
                 {
                     // road is pitched and banked - we need to consider normal not perpendicular to 2D projection of segment
-                    distTmp = PointToLineDistance3DSigned(x3, y3, z3, v[l2].p.x(), v[l2].p.y(), v[l2].z, v[l1].p.x(), v[l1].p.y(), v[l1].z);
+                    // a relative z is measured from the road surface, and only the magnitude of the distance is of interest
+                    double z_abs = CheckBitsEqual(mode, PosMode::Z_MASK, PosMode::Z_REL) ? v[l2].z + z3 : z3;
+                    distTmp      = fabs(PointToLineDistance3DSigned(x3, y3, z_abs, v[l2].p.x(), v[l2].p.y(), v[l2].z, v[l1].p.x(), v[l1].p.y(), v[l1].z));
                 }
 
                 // Find closest point of the two
-- 
2.43.0


From 3800fe354089dae7915827893b6686866f2f0ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:59 +0000
Subject: [PATCH 05/65] fix: avoid endless sampling loop for lanes changing
 close to the section end

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 62ea26c..c0ccf72 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -7727,7 +7727,8 @@ int OpenDrive::CheckAndAddOSIPoint(Position&                 pos_pivot,
     else if (osi_requirement == false)
     {
         insert = true;              // indicate that a point needs to be inserted, i.e. closer to pivot point
-        step   = -abs(step) / 2.0;  // look backwards half current stepsize for a point fulfilling requirements
+        // look backwards half current stepsize for a point fulfilling requirements, never reaching the pivot point
+        step = -MIN(abs(step), pos_candidate.GetS() - pos_pivot.GetS()) / 2.0;
     }
     else
     {
-- 
2.43.0


From c0151fa761a081f4f431da6bbb3bcb40f047d63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:24 +0000
Subject: [PATCH 06/65] fix: follow lane links through all lane sections when a
 move leaves the road

MoveAlongS jumped to the last (or first) lane section of the road but kept
the lane index of the section it started from, hence continued in the wrong
lane, and evaluated the junction selector angle against the heading at the
start of the move instead of the heading of the incoming road.
---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index c0ccf72..27ab7c5 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -10405,9 +10405,6 @@ Position::ReturnCode Position::MoveAlongS(double            ds,
     {
         if (s_ + ds_road > GetOpenDrive()->GetRoadByIdx(track_idx_)->GetLength())
         {
-            // beyond end of road, ensure last lane section
-            lane_section_idx_ = road->GetNumberOfLaneSections() - 1;
-
             // Calculate remaining s-value once we moved to the connected road
             ds_road = s_ + ds_road - GetOpenDrive()->GetRoadByIdx(track_idx_)->GetLength();
             link    = GetOpenDrive()->GetRoadByIdx(track_idx_)->GetLink(SUCCESSOR);
@@ -10417,9 +10414,6 @@ Position::ReturnCode Position::MoveAlongS(double            ds,
         }
         else if (s_ + ds_road < 0)
         {
-            // beyond start of road, ensure first lane section
-            lane_section_idx_ = 0;
-
             // Calculate remaining s-value once we moved to the connected road
             ds_road = s_ + ds_road;
             link    = GetOpenDrive()->GetRoadByIdx(track_idx_)->GetLink(PREDECESSOR);
@@ -10434,6 +10428,9 @@ Position::ReturnCode Position::MoveAlongS(double            ds,
 
         if (!done)
         {
+            // Move to the end of the road, following the lane through any lane sections on the way
+            SetLanePos(track_id_, lane_id_, s_stop, offset_);
+
             // If link is OK then move to the start- or endpoint of the connected road, depending on contact point
             if (link == nullptr || link->GetElementId() == ID_UNDEFINED ||
                 static_cast<int>((ret_val = MoveToConnectingRoad(link, contact_point_type, junctionSelectorAngle))) < 0)
-- 
2.43.0


From cd514af93a5997f79ddc9d066eeda877ccfc3621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:27 +0000
Subject: [PATCH 07/65] fix: stop at the lane section of the target s when
 following lane links along a road

GetConnectedLaneIdAtS compared the start of the section just left, not of
the one entered, with the target and hence went one section too far.
---
 .../Modules/RoadManager/RoadManager.cpp                | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 27ab7c5..b43baa7 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -3147,26 +3147,24 @@ int Road::GetConnectedLaneIdAtS(int lane_id, double s_start, double s_target) co
         LaneSection* lsec = GetLaneSectionByIdx(lsec_idx);
         if (lsec != nullptr)
         {
-            int    lane_id_tmp = lane_id;
-            double s           = s_start;
+            int   lane_id_tmp     = lane_id;
+            idx_t target_lsec_idx = GetLaneSectionIdxByS(s_target);
             if (s_target > s_start - SMALL_NUMBER)
             {
-                for (unsigned int j = lsec_idx; lane_id_tmp != 0 && j < GetNumberOfLaneSections() - 1 && s < s_target; j++)
+                for (unsigned int j = lsec_idx; lane_id_tmp != 0 && j < target_lsec_idx && j < GetNumberOfLaneSections() - 1; j++)
                 {
                     // find connecting lane id
                     lsec        = GetLaneSectionByIdx(j);
                     lane_id_tmp = lsec->GetConnectingLaneId(lane_id_tmp, LinkType::SUCCESSOR);
-                    s           = lsec->GetS();
                 }
             }
             else
             {
-                for (unsigned int j = lsec_idx; lane_id_tmp != 0 && j > 0 && s > s_target; j--)
+                for (unsigned int j = lsec_idx; lane_id_tmp != 0 && j > target_lsec_idx; j--)
                 {
                     // find connecting lane id
                     lsec        = GetLaneSectionByIdx(j);
                     lane_id_tmp = lsec->GetConnectingLaneId(lane_id_tmp, LinkType::PREDECESSOR);
-                    s           = lsec->GetS();
                 }
             }
             connected_lane_id = lane_id_tmp;
-- 
2.43.0


From 864b80e964f20544a789ef4d09918153f0f83e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:36 +0000
Subject: [PATCH 08/65] fix: lane difference between positions on connected
 roads with several lane sections

The lane of the start position was carried over between the two search
directions, was mapped through the last road twice, and the road of the
target was assumed to be entered in the end where the previous one was left.
---
 .../Modules/RoadManager/RoadManager.cpp       | 33 ++++++++++---------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index b43baa7..6852488 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -6161,11 +6161,11 @@ int RoadPath::Calculate(double& dist, bool bothDirections, double maxDist)
 
             if (contact_point == ContactPointType::CONTACT_POINT_END)
             {
-                pivotLaneId = pivotRoad->GetConnectedLaneIdAtS(pivotLaneId, startPos_->GetS(), -1.0);
+                pivotLaneId = pivotRoad->GetConnectedLaneIdAtS(startPos_->GetLaneId(), startPos_->GetS(), -1.0);
             }
             else if (contact_point == ContactPointType::CONTACT_POINT_START)
             {
-                pivotLaneId = pivotRoad->GetConnectedLaneIdAtS(pivotLaneId, startPos_->GetS(), 0);
+                pivotLaneId = pivotRoad->GetConnectedLaneIdAtS(startPos_->GetLaneId(), startPos_->GetS(), 0);
             }
             else
             {
@@ -11727,27 +11727,28 @@ bool Position::Delta(Position* pos_b, PositionDiff& diff, bool bothDirections, d
         if (last_node != nullptr)
         {
             // Find out corresponding lane ID of connected route up to pos B
-            if (last_node->contactPoint == ContactPointType::CONTACT_POINT_START)
+            // fromLaneId is the lane ID at the end of the last road in the path, find out the connecting lane of the road of pos B
+            adjustedLaneIdA = last_node->fromRoad->GetConnectingLaneId(last_node->link, last_node->fromLaneId, pos_b->GetTrackId());
+
+            // find out in what end the road of pos B is entered
+            ContactPointType entry = last_node->link->GetContactPointType();
+            if (last_node->link->GetElementType() == RoadLink::ElementType::ELEMENT_TYPE_JUNCTION &&
+                !last_node->fromRoad->IsSuccessor(road_B, &entry))
             {
-                // move to end of the last road in the path leading to the road of pos B
-                adjustedLaneIdA = last_node->fromRoad->GetConnectedLaneIdAtS(last_node->fromLaneId, -1.0, 0.0);
-                // find out the connecting lane at beginning of road of pos B
-                adjustedLaneIdA = last_node->fromRoad->GetConnectingLaneId(last_node->link, adjustedLaneIdA, pos_b->GetTrackId());
-                // move to the s location of pos B to find out the lane ID there (possibly another lane section)
-                adjustedLaneIdA = road_B->GetConnectedLaneIdAtS(adjustedLaneIdA, 0.0, pos_b->GetS());
+                last_node->fromRoad->IsPredecessor(road_B, &entry);
+            }
+
+            // move to the s location of pos B to find out the lane ID there (possibly another lane section)
+            adjustedLaneIdA =
+                road_B->GetConnectedLaneIdAtS(adjustedLaneIdA, entry == ContactPointType::CONTACT_POINT_END ? -1.0 : 0.0, pos_b->GetS());
 
+            if (last_node->contactPoint == ContactPointType::CONTACT_POINT_START)
+            {
                 // Check relative heading
                 pos_a_forward = true;  // We come in at the start of the road, so we are aligned with the road direction
             }
             else
             {
-                // move to start of the last road in the path leading to the road of pos B
-                adjustedLaneIdA = last_node->fromRoad->GetConnectedLaneIdAtS(last_node->fromLaneId, 0.0, -1.0);
-                // find out the connecting lane at start of road of pos B
-                adjustedLaneIdA = last_node->fromRoad->GetConnectingLaneId(last_node->link, adjustedLaneIdA, pos_b->GetTrackId());
-                // move to the s location of pos B to find out the lane ID there (possibly another lane section)
-                adjustedLaneIdA = road_B->GetConnectedLaneIdAtS(adjustedLaneIdA, -1.0, pos_b->GetS());
-
                 // Check relative heading
                 pos_a_forward = false;  // We come in at the end of the road, so we are aligned against the road direction
             }
-- 
2.43.0


From 96176c40052eedf23bcd8a66155a233002e0ef91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:36 +0000
Subject: [PATCH 09/65] fix: sign of the distance to positions on other roads
 for objects facing against traffic

The heading was considered twice, once in the direction of the found path
and once more depending on rounding of the relative heading, in contrast to
positions on the same road.
---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 6852488..140f5b2 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -6364,12 +6364,6 @@ int RoadPath::Calculate(double& dist, bool bothDirections, double maxDist)
 
     dist = direction_ * tmpDist;
 
-    // Also take intial heading of the start position into consideration for the sign of the distance
-    if (startPos_->GetHRelativeDrivingDirection() > M_PI_2 && startPos_->GetHRelativeDrivingDirection() < 3 * M_PI_2)
-    {
-        dist *= -1;
-    }
-
     return found ? 0 : -1;
 }
 
-- 
2.43.0


From e16c9995781e98fe82f5e2019bd8bed9ed7dfb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:49 +0000
Subject: [PATCH 10/65] fix: evaluate all conditions of a group in order to
 detect edges and transitions correctly

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp  | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
index 66d483a..70c5ba7 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
@@ -326,12 +326,9 @@ bool ConditionGroup::Evaluate(double sim_time)
     for (size_t i = 0; i < condition_.size(); i++)
     {
         // AND operator, all must be true
-        if (result == true || condition_[i]->delay_ > 0.0)
-        {
-            // When at least one condition in the group is false,
-            // only conditions with timer needs to be evaluated
-            result &= condition_[i]->Evaluate(sim_time);
-        }
+        // Evaluate all conditions, also when the result is already known to be
+        // false, in order to keep track of edges, transitions and delays
+        result &= condition_[i]->Evaluate(sim_time);
     }
 
     return result;
-- 
2.43.0


From 3083c3c3219c628834bd243a98dd6aaa4dea33a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:05 +0000
Subject: [PATCH 11/65] fix: keep track of storyboard element state changes
 when a state condition is reset

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp    | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
index 70c5ba7..a85c2d9 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
@@ -580,7 +580,12 @@ std::string TrigByState::CondElementState2Str(CondElementState state)
 
 void TrigByState::Reset()
 {
-    state_change_.clear();
+    if (!state_change_.empty())
+    {
+        // keep track of current state, only the transitions are discarded
+        latest_state_change_ = state_change_.back();
+        state_change_.clear();
+    }
     OSCCondition::Reset();
 }
 
-- 
2.43.0


From 647b7ab8b173ba6180e0b22dbc6c7f216e579742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:25 +0000
Subject: [PATCH 12/65] fix: keep specified transition distance of speed action
 for repeated executions

---
 .../OSCTypeDefs/OSCPrivateAction.cpp               | 14 ++++++++++----
 .../OSCTypeDefs/OSCPrivateAction.hpp               | 10 +++++++++-
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 45944a7..bc30625 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -250,6 +250,7 @@ void OSCPrivateAction::TransitionDynamics::SetParamTargetVal(double target_value
     if (dimension_ != DynamicsDimension::RATE)
     {
         param_target_val_ = target_value;
+        distance_         = target_value;
     }
     else
     {
@@ -258,6 +259,11 @@ void OSCPrivateAction::TransitionDynamics::SetParamTargetVal(double target_value
     }
 }
 
+void OSCPrivateAction::TransitionDynamics::SetDurationOfDistance(double duration)
+{
+    param_target_val_ = duration;
+}
+
 void OSCPrivateAction::TransitionDynamics::SetMaxRate(double max_rate)
 {
     // Check max rate
@@ -1200,12 +1206,12 @@ void LongSpeedAction::Start(double simTime)
 
         double v0   = transition_.GetStartVal();
         double v1   = target_->GetValue();
-        double dist = transition_.GetParamTargetVal();
+        double dist = transition_.GetDistance();
 
         if (abs(v1 - v0) < SMALL_NUMBER)
         {
             // no change
-            transition_.SetParamTargetVal(0.0);
+            transition_.SetDurationOfDistance(0.0);
         }
         else if (abs(v0) > SMALL_NUMBER && abs(v1) > SMALL_NUMBER && SIGN(v0) != SIGN(v1))
         {
@@ -1223,13 +1229,13 @@ void LongSpeedAction::Start(double simTime)
             // calculate duration of remaning part 2
             double t1 = 2.0 * (dist - d0) / abs(v1);
 
-            transition_.SetParamTargetVal(t0 + t1);
+            transition_.SetDurationOfDistance(t0 + t1);
         }
         else  // change of speed without changing driving direction
         {
             // integrated distance = time(v_init + v_delta/2) = time(v_init + v_end)/2
             // => time = 2*distance/(v_init + v_end)
-            transition_.SetParamTargetVal(2 * dist / (abs(v0 + v1)));
+            transition_.SetDurationOfDistance(2 * dist / (abs(v0 + v1)));
         }
     }
 
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
index 0752537..23ac823 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
@@ -86,7 +86,8 @@ namespace scenarioengine
                   param_target_val_(0),
                   scale_factor_(1.0),
                   param_val_(0),
-                  rate_(0)
+                  rate_(0),
+                  distance_(0)
             {
             }
             void Reset();
@@ -119,6 +120,12 @@ namespace scenarioengine
             {
                 return param_target_val_;
             }
+            // replace the distance by corresponding duration, the specified distance is kept for next execution
+            void   SetDurationOfDistance(double duration);
+            double GetDistance() const
+            {
+                return distance_;
+            }
             void   SetMaxRate(double max_rate);
             void   SetRate(double rate);
             void   UpdateRate();
@@ -138,6 +145,7 @@ namespace scenarioengine
             double scale_factor_;
             double param_val_;
             double rate_;
+            double distance_;
         };
 
         ActionType      type_;
-- 
2.43.0


From 885b5dd52d0ce0b86c7d2fc1d11fd0b7f838e66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:14 +0000
Subject: [PATCH 13/65] fix: recognize stand still, off road and end of road
 from time zero

---
 .../Modules/ScenarioEngine/SourceFiles/Entities.cpp  | 12 ++++++------
 .../Modules/ScenarioEngine/SourceFiles/Entities.hpp  |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
index cd9c1df..3ea310d 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
@@ -30,9 +30,9 @@ Object::Object(Type type)
       ghost_trail_s_(0),
       trail_follow_index_(0),
       odometer_(0),
-      end_of_road_timestamp_(0.0),
-      off_road_timestamp_(0.0),
-      stand_still_timestamp_(0),
+      end_of_road_timestamp_(std::nan("")),
+      off_road_timestamp_(std::nan("")),
+      stand_still_timestamp_(std::nan("")),
       headstart_time_(0),
       ghost_(0),
       ghost_Ego_(0),
@@ -89,7 +89,7 @@ void Object::SetEndOfRoad(bool state, double time)
     }
     else
     {
-        end_of_road_timestamp_ = 0.0;
+        end_of_road_timestamp_ = std::nan("");
     }
 }
 
@@ -101,7 +101,7 @@ void Object::SetOffRoad(bool state, double time)
     }
     else
     {
-        off_road_timestamp_ = 0.0;
+        off_road_timestamp_ = std::nan("");
     }
 }
 
@@ -113,7 +113,7 @@ void Object::SetStandStill(bool state, double time)
     }
     else
     {
-        stand_still_timestamp_ = 0.0;
+        stand_still_timestamp_ = std::nan("");
     }
 }
 
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.hpp
index 69196ae..175e100 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.hpp
@@ -326,7 +326,7 @@ namespace scenarioengine
         void SetEndOfRoad(bool state, double time = 0.0);
         bool IsEndOfRoad() const
         {
-            return end_of_road_timestamp_ > SMALL_NUMBER;
+            return !std::isnan(end_of_road_timestamp_);
         }
         double GetEndOfRoadTimestamp() const
         {
@@ -335,7 +335,7 @@ namespace scenarioengine
         void SetOffRoad(bool state, double time = 0.0);
         bool IsOffRoad() const
         {
-            return off_road_timestamp_ > SMALL_NUMBER;
+            return !std::isnan(off_road_timestamp_);
         }
         double GetOffRoadTimestamp() const
         {
@@ -344,7 +344,7 @@ namespace scenarioengine
         void SetStandStill(bool state, double time = 0.0);
         bool IsStandStill() const
         {
-            return stand_still_timestamp_ > SMALL_NUMBER;
+            return !std::isnan(stand_still_timestamp_);
         }
         bool IsActive() const
         {
-- 
2.43.0


From c33ac1fd5ed0ec96c6de5bc67ad28289460d59ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:15 +0000
Subject: [PATCH 14/65] fix: consider moving direction of target in time to
 collision also when standing still

---
 .../Modules/ScenarioEngine/SourceFiles/Entities.cpp          | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
index 3ea310d..f7ddc7b 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
@@ -1386,7 +1386,10 @@ int Object::TimeToCollision(Object*                           target,
                                                                rel_vel[0],
                                                                rel_vel[1]);
 
-        rel_speed = SIGN(this->GetSpeed()) * SIGN(proj_speed) * (proj_speed - fabs(target->GetSpeed()));
+        // Sign depends on whether target is moving along or opposite heading, also when the triggering entity is standing still
+        double target_vel_long = target->pos_.GetVelX() * cos(this->pos_.GetH()) + target->pos_.GetVelY() * sin(this->pos_.GetH());
+
+        rel_speed = SIGN(target_vel_long) * (proj_speed - fabs(target->GetSpeed()));
     }
 
     // TTC not defined for cases:
-- 
2.43.0


From 9cd3d3820f5ad7a9393d733acccab1a21e1de25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:15 +0000
Subject: [PATCH 15/65] fix: detect road freespace overlap when target is
 within extent of the other object

---
 .../Modules/ScenarioEngine/SourceFiles/Entities.cpp         | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
index f7ddc7b..c2287f5 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
@@ -1025,12 +1025,14 @@ int Object::FreeSpaceDistanceObjectRoadLane(Object* target, PositionDiff* posDif
     // Check for overlap
     for (int i = 0; i < 4; i++)  // for each ds
     {
-        if (!((SIGN(ds[i][0]) == SIGN(ds[i][1])) && (SIGN(ds[i][0]) == SIGN(ds[i][2])) && (SIGN(ds[i][0]) == SIGN(ds[i][3]))))
+        if (!((SIGN(ds[0][0]) == SIGN(ds[i][0])) && (SIGN(ds[0][0]) == SIGN(ds[i][1])) && (SIGN(ds[0][0]) == SIGN(ds[i][2])) &&
+              (SIGN(ds[0][0]) == SIGN(ds[i][3]))))
         {
             // Overlap
             posDiff->ds = 0.0;
         }
-        if (!((SIGN(dt[i][0]) == SIGN(dt[i][1])) && (SIGN(dt[i][0]) == SIGN(dt[i][2])) && (SIGN(dt[i][0]) == SIGN(dt[i][3]))))
+        if (!((SIGN(dt[0][0]) == SIGN(dt[i][0])) && (SIGN(dt[0][0]) == SIGN(dt[i][1])) && (SIGN(dt[0][0]) == SIGN(dt[i][2])) &&
+              (SIGN(dt[0][0]) == SIGN(dt[i][3]))))
         {
             // Overlap
             posDiff->dt = 0.0;
-- 
2.43.0


From ad4a4fdb505e2fb5a88826dcd6dc25e63a8ba8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:15 +0000
Subject: [PATCH 16/65] fix: compare angles, not numbers, in orientation of
 reach position condition

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp      | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
index a85c2d9..1f8b174 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
@@ -902,8 +902,9 @@ bool TrigByReachPosition::CheckCondition(double sim_time)
             // Check for any orientation condition
             if (checkOrientation_)
             {
-                if (abs(trigObj->pos_.GetH() - pos->GetH()) < angularTolerance_ && abs(trigObj->pos_.GetP() - pos->GetP()) < angularTolerance_ &&
-                    abs(trigObj->pos_.GetR() - pos->GetR()) < angularTolerance_)
+                if (GetAbsAngleDifference(trigObj->pos_.GetH(), pos->GetH()) < angularTolerance_ &&
+                    GetAbsAngleDifference(trigObj->pos_.GetP(), pos->GetP()) < angularTolerance_ &&
+                    GetAbsAngleDifference(trigObj->pos_.GetR(), pos->GetR()) < angularTolerance_)
                 {
                     result = true;
                 }
-- 
2.43.0


From 603e192eddb4d2cfb6aa1f29df0adc320fb411e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:15 +0000
Subject: [PATCH 17/65] fix: update relative position in time to collision
 condition

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp          | 1 +
 1 file changed, 1 insertion(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
index 1f8b174..14b8677 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
@@ -817,6 +817,7 @@ bool TrigByTimeToCollision::CheckCondition(double sim_time)
         {
             roadmanager::Position* pos      = position_->GetRMPos();
             double                 rel_dist = LARGE_NUMBER;
+            pos->EvaluateRelation();
             if (trigObj->Distance(pos->GetX(), pos->GetY(), cs_, relDistType_, freespace_, rel_dist) != 0)
             {
                 rel_dist = LARGE_NUMBER;
-- 
2.43.0


From 4cbba9ef7c44b33c2c1a9557de46a67ae7975482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:15 +0000
Subject: [PATCH 18/65] fix: evaluate each triggering entity on its own in
 entity conditions

---
 .../OSCTypeDefs/OSCCondition.cpp              | 31 +++++++++++++------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
index 14b8677..7e717ec 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
@@ -771,11 +771,11 @@ bool TrigByTimeHeadway::CheckCondition(double sim_time)
             {
                 triggered_by_entities_.push_back(trigObj);
             }
+        }
 
-            if (EvalDone(result, triggering_entity_rule_))
-            {
-                break;
-            }
+        if (EvalDone(result, triggering_entity_rule_))
+        {
+            break;
         }
     }
 
@@ -850,11 +850,11 @@ bool TrigByTimeToCollision::CheckCondition(double sim_time)
             {
                 triggered_by_entities_.push_back(trigObj);
             }
+        }
 
-            if (EvalDone(result, triggering_entity_rule_))
-            {
-                break;
-            }
+        if (EvalDone(result, triggering_entity_rule_))
+        {
+            break;
         }
     }
 
@@ -897,7 +897,8 @@ bool TrigByReachPosition::CheckCondition(double sim_time)
         }
         pos->EvaluateRelation();
 
-        dist_ = fabs(trigObj->pos_.getRelativeDistance(pos->GetX(), pos->GetY(), dist_x, dist_y));
+        result = false;
+        dist_  = fabs(trigObj->pos_.getRelativeDistance(pos->GetX(), pos->GetY(), dist_x, dist_y));
         if (dist_ < tolerance_)  // dist may reach half lane width, since offset of relative position is 0
         {
             // Check for any orientation condition
@@ -1069,6 +1070,8 @@ bool TrigByCollision::CheckCondition(double sim_time)
             continue;
         }
 
+        result = false;
+
         if (object_ && object_->IsActive())
         {
             if (trigObj->Collision(object_))
@@ -1205,6 +1208,9 @@ bool TrigByEndOfRoad::CheckCondition(double sim_time)
             continue;
         }
 
+        result            = false;
+        current_duration_ = 0;
+
         if (triggering_entities_.entity_[i].object_->IsEndOfRoad())
         {
             current_duration_ = sim_time - triggering_entities_.entity_[i].object_->GetEndOfRoadTimestamp();
@@ -1248,6 +1254,8 @@ bool TrigByStandStill::CheckCondition(double sim_time)
             continue;
         }
 
+        current_duration_ = 0;
+
         if (triggering_entities_.entity_[i].object_->IsStandStill())
         {
             current_duration_ = sim_time - triggering_entities_.entity_[i].object_->GetStandStillTimestamp();
@@ -1289,6 +1297,8 @@ bool TrigByOffRoad::CheckCondition(double sim_time)
             continue;
         }
 
+        current_duration_ = 0;
+
         if (triggering_entities_.entity_[i].object_->IsOffRoad())
         {
             current_duration_ = sim_time - triggering_entities_.entity_[i].object_->GetOffRoadTimestamp();
@@ -1623,7 +1633,8 @@ bool TrigByRelativeClearance::CheckCondition(double sim_time)
         }
 
         Object* refObject_;
-        result = false;
+        result   = false;
+        objFound = false;
 
         // First check all entities within lane range
         for (size_t j = 0; j < storyBoard_->entities_->object_.size(); j++)
-- 
2.43.0


From a81db949a804ffff479834f46c7de4cf86b34214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:00 +0000
Subject: [PATCH 19/65] fix: free space distance to an object that is, or has,
 a trailer

The search for the front most towing vehicle of the target looped for ever
when the target was towed, and in road coordinates the target's trailers
were never measured.
---
 .../Modules/ScenarioEngine/SourceFiles/Entities.cpp         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
index c2287f5..91828e7 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
@@ -1076,7 +1076,7 @@ int Object::Distance(Object*                           target,
             {
                 pivot_obj = pivot_obj->TowVehicle();
             }
-            while (target_obj->TowVehicle())
+            while (target_front_obj->TowVehicle())
             {
                 target_front_obj = target_front_obj->TowVehicle();
             }
@@ -1133,7 +1133,7 @@ int Object::Distance(Object*                           target,
             {
                 pivot_obj = pivot_obj->TowVehicle();
             }
-            while (target_obj->TowVehicle())
+            while (target_front_obj->TowVehicle())
             {
                 target_front_obj = target_front_obj->TowVehicle();
             }
@@ -1148,7 +1148,7 @@ int Object::Distance(Object*                           target,
                        ((relDistType == RelativeDistanceType::REL_DIST_LATERAL && fabs(candidate_info.pos_diff.dt) > 0.0) ||
                         (relDistType == RelativeDistanceType::REL_DIST_LONGITUDINAL && fabs(candidate_info.pos_diff.ds) > 0.0)))
                 {
-                    int return_value = pivot_obj->FreeSpaceDistanceObjectRoadLane(target, &pos_diff, cs);
+                    int return_value = pivot_obj->FreeSpaceDistanceObjectRoadLane(target_obj, &pos_diff, cs);
                     if (return_value == 0)
                     {
                         if ((relDistType == RelativeDistanceType::REL_DIST_LATERAL && fabs(pos_diff.dt) < fabs(candidate_info.pos_diff.dt)) ||
-- 
2.43.0


From 34e6e5a1076de02b2c4b4ad96c55a19bc2826b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:00 +0000
Subject: [PATCH 20/65] fix: SE_SimpleGetDistanceToObject delivers a first
 sample for every distance type

The time of the next update was shared between the distance types of a pair
of objects, so asking for a second type in the same step delivered the
initial dummy value.
---
 .../SourceFiles/ScenarioEngine.cpp             | 18 ++++++++++++------
 .../SourceFiles/ScenarioEngine.hpp             |  6 +++---
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
index aa17dbc..0785acb 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
@@ -1244,12 +1244,18 @@ int ScenarioEngine::UpdateDistance(Object*                            obj_1,
         {
             euclidian_entry.distance_       = squared_distance;
             euclidian_entry.timestamp_      = simulationTime_;
-            distance_entry.next_update_     = simulationTime_ + 3.0;
+            for (auto& distance_measurement : distance_entry.measurement_)
+            {
+                distance_measurement.next_update_ = simulationTime_ + 3.0;
+            }
             auto& rev_distance_entry        = rev_it->second;
             auto& rev_measurement           = rev_distance_entry.measurement_[idx_euclidian_abs];
             rev_measurement.distance_       = squared_distance;
             rev_measurement.timestamp_      = simulationTime_;
-            rev_distance_entry.next_update_ = simulationTime_ + 3.0;
+            for (auto& distance_measurement : rev_distance_entry.measurement_)
+            {
+                distance_measurement.next_update_ = simulationTime_ + 3.0;
+            }
 
             return -2;
         }
@@ -1265,9 +1271,9 @@ int ScenarioEngine::UpdateDistance(Object*                            obj_1,
         next_update = simulationTime_ + 3.0;
     }
 
-    measurement.distance_       = dist;
-    measurement.timestamp_      = simulationTime_;
-    distance_entry.next_update_ = next_update;
+    measurement.distance_    = dist;
+    measurement.timestamp_   = simulationTime_;
+    measurement.next_update_ = next_update;
 
     return 0;
 }
@@ -1291,7 +1297,7 @@ int ScenarioEngine::GetDistance(Object*                           object_1,
 
     int  dist_updated = -2;
     auto it           = object_distance_map_.find(key);
-    bool needs_update = (it == object_distance_map_.end() || simulationTime_ > it->second.next_update_ ||
+    bool needs_update = (it == object_distance_map_.end() || simulationTime_ > it->second.measurement_[static_cast<size_t>(dist_type)].next_update_ ||
                          object_1->dirty_.Check(Object::DirtyBit::TELEPORT) || object_2->dirty_.Check(Object::DirtyBit::TELEPORT));
     if (needs_update)
     {
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.hpp
index d88795d..20fbb66 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.hpp
@@ -190,14 +190,14 @@ namespace scenarioengine
         // Distance map
         struct DistanceMeasurement
         {
-            double distance_  = 10000.0;
-            double timestamp_ = 0.0;
+            double distance_    = 10000.0;
+            double timestamp_   = 0.0;
+            double next_update_ = -1.0;
         };
 
         struct DistanceEntry
         {
             std::array<DistanceMeasurement, static_cast<size_t>(roadmanager::RelativeDistanceType::ENUM_SIZE)> measurement_;
-            double                                                                                             next_update_ = 0.0;
         };
 
         inline uint64_t GenerateKey(int id1, int id2) const
-- 
2.43.0


From 565c09c9f5ac120c045fa3320b9a2198b45a6939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:07 +0000
Subject: [PATCH 21/65] fix: a scenario that fails to load leaves nothing
 behind for the next one

Variables and pending storyboard element triggers are static and were only cleared
when the scenario engine was destroyed, or its scenario completely read. An exception
while parsing left them, including dangling condition pointers.
---
 .../Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
index cf2667f..d6835a9 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
@@ -76,7 +76,10 @@ ScenarioReader::ScenarioReader(Entities *entities, Catalogs *catalogs, OSCEnviro
       story_board_(nullptr),
       has_lightstate_action_(false)
 {
+    // get rid of any leftovers from a previous scenario that failed to load
     parameters.Clear();
+    variables.Clear();
+    storyboard_element_triggers.clear();
 }
 
 ScenarioReader::~ScenarioReader()
-- 
2.43.0


From e9d63ecdcffc6929abd7b61d92a7d37e03f71eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:07 +0000
Subject: [PATCH 22/65] fix: looming controller crashed when its lane ends
 within the look ahead distance

---
 .../Modules/Controllers/ControllerLooming.cpp        | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/Controllers/ControllerLooming.cpp b/EnvironmentSimulator/Modules/Controllers/ControllerLooming.cpp
index 93b039f..ff7b3b4 100644
--- a/EnvironmentSimulator/Modules/Controllers/ControllerLooming.cpp
+++ b/EnvironmentSimulator/Modules/Controllers/ControllerLooming.cpp
@@ -161,8 +161,9 @@ void ControllerLooming::Step(double timeStep)
                     }
                     else
                     {
-                        lane = lsec->GetLaneById(
-                            lane->GetLink(direction_prev == 1 ? roadmanager::LinkType::SUCCESSOR : roadmanager::LinkType::PREDECESSOR)->GetId());
+                        roadmanager::LaneLink* link =
+                            lane->GetLink(direction_prev == 1 ? roadmanager::LinkType::SUCCESSOR : roadmanager::LinkType::PREDECESSOR);
+                        lane = link != nullptr ? lsec->GetLaneById(link->GetId()) : nullptr;
                     }
                 }
                 else if (road_counter > 0)
@@ -178,6 +179,13 @@ void ControllerLooming::Step(double timeStep)
 
                     lane = lsec->GetLaneById(link->GetId());
                 }
+
+                if (lane == nullptr)
+                {
+                    dist = farPointDistance;  // the lane ends here, look no further
+                    break;
+                }
+
                 std::vector<roadmanager::PointStruct> osi_points = lane->GetOSIPoints()->GetPoints();
 
                 double dist_left = -1.0;  // the distance from ego vehicle to the closest found tangent point
-- 
2.43.0


From ddbe29b0db103741a44370292e04bc1bb9323569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:07 +0000
Subject: [PATCH 23/65] fix: lane direction of dsLane relative lane positions
 in left hand traffic

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 140f5b2..e5549e5 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -14440,7 +14440,7 @@ void Position::EvaluateRelation(bool release)
                         // Consider road rule (left hand or right hand traffic)
                         if ((IsAngleForward(rel_pos_->GetHRelative()) &&
                              (rel_pos_->GetLaneId() < 0 && road->GetRule() == Road::RoadRule::RIGHT_HAND_TRAFFIC)) ||
-                            (!IsAngleForward(rel_pos_->GetHRelative()) &&
+                            (IsAngleForward(rel_pos_->GetHRelative()) &&
                              (rel_pos_->GetLaneId() > 0 && road->GetRule() == Road::RoadRule::LEFT_HAND_TRAFFIC)))
                         {
                             new_lane_id = GetRelativeLaneId(rel_pos_->GetLaneId(), relative_.dLane);  // along road s axis
-- 
2.43.0


From 550e23e4c37921e1f40ffb15a98c9720456127b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:47 +0000
Subject: [PATCH 24/65] fix: parameters declared in a story, maneuver or
 environment are local to it

Restore points were created twice for one restore, and not at all for inline maneuvers
and environments, so declarations leaked and shadowed those of the global scope.
---
 .../Modules/ScenarioEngine/SourceFiles/Parameters.cpp  |  1 -
 .../ScenarioEngine/SourceFiles/ScenarioReader.cpp      | 10 ++++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
index 6b487e9..b2b7cb2 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
@@ -19,7 +19,6 @@ using namespace scenarioengine;
 
 void Parameters::addParameterDeclarations(pugi::xml_node xml_node)
 {
-    paramDeclarationsSize_.push(static_cast<int>(parameterDeclarations_.Parameter.size()));
     parseParameterDeclarations(xml_node, &parameterDeclarations_);
 }
 
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
index d6835a9..c9be59a 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
@@ -5223,6 +5223,9 @@ void ScenarioReader::parseOSCManeuver(Maneuver *maneuver, pugi::xml_node maneuve
 {
     maneuver->SetName(parameters.ReadAttribute(maneuverNode, "name"));
 
+    // parameters declared by the maneuver are local to it
+    parameters.CreateRestorePoint();
+
     for (pugi::xml_node maneuverChild = maneuverNode.first_child(); maneuverChild; maneuverChild = maneuverChild.next_sibling())
     {
         std::string maneuverChildName(maneuverChild.name());
@@ -5368,6 +5371,8 @@ void ScenarioReader::parseOSCManeuver(Maneuver *maneuver, pugi::xml_node maneuve
             maneuver->event_.push_back(event);
         }
     }
+
+    parameters.RestoreParameterDeclarations();
 }
 
 int ScenarioReader::parseStoryBoard(StoryBoard &storyBoard)
@@ -5567,6 +5572,9 @@ static void SelectCloudState(scenarioengine::CloudState &state, const std::strin
 
 void ScenarioReader::parseOSCEnvironment(const pugi::xml_node &xml_node, OSCEnvironment &env)
 {
+    // parameters declared by the environment are local to it
+    parameters.CreateRestorePoint();
+
     for (pugi::xml_node envChild : xml_node.children())
     {
         std::string envChildName(envChild.name());
@@ -5764,4 +5772,6 @@ void ScenarioReader::parseOSCEnvironment(const pugi::xml_node &xml_node, OSCEnvi
             LOG_WARN("Not valid environment attribute name:{}", envChildName);
         }
     }
+
+    parameters.RestoreParameterDeclarations();
 }
-- 
2.43.0


From 5ce5d4527884bdc3b27f7a4cb493b806b1bac009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:47 +0000
Subject: [PATCH 25/65] fix: a local parameter shadows a global one that was
 set by callback

---
 .../Modules/ScenarioEngine/SourceFiles/Parameters.cpp           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
index b2b7cb2..8b7b75b 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
@@ -567,7 +567,7 @@ void Parameters::parseParameterDeclarations(pugi::xml_node declarationsNode, OSC
         auto pos = std::find_if(pd->Parameter.begin(), pd->Parameter.end(), [&param](const auto& p) { return p.name == param.name; });
         if (pos != pd->Parameter.end())
         {
-            if (pos->dirty)
+            if (paramDeclarationsSize_.empty() && pos->dirty)  // modified by callback, applies to global declarations only
             {
                 LOG_WARN("Parameter value {} updated from {} to {}", pos->name, param.value._string, pos->value._string);
                 continue;
-- 
2.43.0


From dcef222e496a2ec6e7f90bded4eca20c33fed88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:47 +0000
Subject: [PATCH 26/65] fix: logical operators and boolean values in
 expressions

true and false were only recognized when followed by space, names ending with an operator
name were corrupted, and the (numeric) result of an expression was never true as a boolean
parameter.
---
 .../ScenarioEngine/SourceFiles/Parameters.cpp | 45 +++++++++++++------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
index 8b7b75b..a517ac2 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
@@ -17,6 +17,12 @@
 
 using namespace scenarioengine;
 
+// Boolean value can be given by name or result of an expression, which is a number
+static bool StringToBool(const std::string& str)
+{
+    return str == "true" || strtod(str) != 0.0;
+}
+
 void Parameters::addParameterDeclarations(pugi::xml_node xml_node)
 {
     parseParameterDeclarations(xml_node, &parameterDeclarations_);
@@ -301,7 +307,7 @@ int Parameters::setParameterValueByString(std::string name, std::string value)
     }
     else if (ps->type == OSCParameterDeclarations::ParameterType::PARAM_TYPE_BOOL)
     {
-        ps->value._bool = (value == "true" ? true : false);
+        ps->value._bool = StringToBool(value);
     }
     else if (ps->type != OSCParameterDeclarations::ParameterType::PARAM_TYPE_STRING)
     {
@@ -396,13 +402,23 @@ std::string Parameters::ResolveParametersInString(std::string str)
     return str;
 }
 
-static void ReplaceStringInPlace(std::string& subject, const std::string& search, const std::string& replace)
+// Replace all occurrences of a word, i.e. not being part of a longer name
+static void ReplaceWordInPlace(std::string& subject, const std::string& word, const std::string& replace)
 {
-    size_t pos = 0;
-    while ((pos = subject.find(search, pos)) != std::string::npos)
+    auto   is_word_char = [](char c) { return isalnum(static_cast<unsigned char>(c)) || c == '_'; };
+    size_t pos          = 0;
+    while ((pos = subject.find(word, pos)) != std::string::npos)
     {
-        subject.replace(pos, search.length(), replace);
-        pos += replace.length();
+        size_t end = pos + word.length();
+        if ((pos > 0 && is_word_char(subject[pos - 1])) || (end < subject.length() && is_word_char(subject[end])))
+        {
+            pos = end;
+        }
+        else
+        {
+            subject.replace(pos, word.length(), replace);
+            pos += replace.length();
+        }
     }
 }
 
@@ -438,12 +454,14 @@ std::string Parameters::ReadAttribute(pugi::xml_node node, std::string attribute
                     expr = ResolveParametersInString(expr);  // replace parameters by their values
 
                     // Convert from OpenSCENARIO 1.1 operator names to expr op names
-                    ReplaceStringInPlace(expr, "not ", "!");
-                    ReplaceStringInPlace(expr, "not(", "!(");
-                    ReplaceStringInPlace(expr, "and ", "&& ");
-                    ReplaceStringInPlace(expr, "or ", "|| ");
-                    ReplaceStringInPlace(expr, "true ", "1 ");
-                    ReplaceStringInPlace(expr, "false ", "0 ");
+                    ReplaceWordInPlace(expr, "not", "!");
+                    ReplaceWordInPlace(expr, "and", "&&");
+                    ReplaceWordInPlace(expr, "or", "||");
+                    if (expr != "true" && expr != "false")
+                    {
+                        ReplaceWordInPlace(expr, "true", "1");
+                        ReplaceWordInPlace(expr, "false", "0");
+                    }
 
                     ExprReturnStruct rs = eval_expr(expr.c_str());
                     if (rs.type == EXPR_RETURN_UNDEFINED && isnan(rs._double))
@@ -549,7 +567,8 @@ void Parameters::parseParameterDeclarations(pugi::xml_node declarationsNode, OSC
             }
 
             param.type        = OSCParameterDeclarations::ParameterType::PARAM_TYPE_BOOL;
-            param.value._bool = param.value._string == "true" ? true : false;
+            param.value._bool = StringToBool(param.value._string);
+            param.value._string = param.value._bool ? "true" : "false";
         }
         else if (type_str == "string")
         {
-- 
2.43.0


From c118b2c2c8ebc64b49414bce9dbdd9c590856b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:47 +0000
Subject: [PATCH 27/65] fix: numbers with exponent, and space after unary
 operators, in expressions

---
 externals/expr/expr.h | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/externals/expr/expr.h b/externals/expr/expr.h
index 50281fa..55e9567 100644
--- a/externals/expr/expr.h
+++ b/externals/expr/expr.h
@@ -249,6 +249,24 @@ static enum expr_type expr_op(const char *s, size_t len, int unary) {
   return OP_UNKNOWN;
 }
 
+/* Length of exponent, e.g. "e-3", at start of string. 0 if there is none. */
+static unsigned int expr_exponent_len(const char *s, size_t len) {
+  unsigned int i = 1;
+  if (len < 2 || (s[0] != 'e' && s[0] != 'E')) {
+    return 0;
+  }
+  if (s[i] == '-' || s[i] == '+') {
+    i++;
+  }
+  if (i >= len || !isdigit(s[i])) {
+    return 0;
+  }
+  while (i < len && isdigit(s[i])) {
+    i++;
+  }
+  return (i < len && isvarchr(s[i])) ? 0 : i;
+}
+
 static double expr_parse_number(const char *s, size_t len) {
   double num = 0;
   unsigned int frac = 0;
@@ -264,6 +282,9 @@ static double expr_parse_number(const char *s, size_t len) {
         frac++;
       }
       num = num * 10 + (s[i] - '0');
+    } else if (digits > 0 && i + expr_exponent_len(s + i, len - i) == len) {
+      num = num * pow(10.0, atoi(s + i + 1));
+      break;
     } else {
       return NAN;
     }
@@ -503,6 +524,7 @@ static int expr_next_token(const char *s, size_t len, int *flags) {
       i++;
       c = s[i];
     }
+    i += expr_exponent_len(s + i, len - i);
     return i;
   } else if (isfirstvarchr(c)) {
     if ((*flags & EXPR_TWORD) == 0) {
@@ -685,7 +707,7 @@ static struct expr *expr_create(const char *s, size_t len,
     if (*tok == '#') {
       continue;
     }
-    if (flags & EXPR_UNARY) {
+    if ((flags & EXPR_UNARY) && !isspace(*tok)) {
       if (n == 1) {
         switch (*tok) {
         case '-':
-- 
2.43.0


From 0ef96c96df098e7818441e3fef1adbc6d949e463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:47 +0000
Subject: [PATCH 28/65] fix: crash on expression without end brace

---
 .../Modules/ScenarioEngine/SourceFiles/Parameters.cpp           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
index a517ac2..afcf981 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
@@ -483,7 +483,7 @@ std::string Parameters::ReadAttribute(pugi::xml_node node, std::string attribute
                 }
                 else
                 {
-                    LOG_ERROR_AND_QUIT("Expression syntax error: {}, missing end '}'", attr.value());
+                    LOG_ERROR_AND_QUIT("Expression syntax error: {}, missing end '}}'", attr.value());
                 }
             }
             else
-- 
2.43.0


From be46f125595fbcf07eef9998976f4b24bd9489f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:52 +0000
Subject: [PATCH 29/65] fix: timestamps of recordings with changing time step

---
 .../Applications/replayer/Replay.cpp          | 113 +++++++-----------
 .../Applications/replayer/Replay.hpp          |   9 ++
 2 files changed, 54 insertions(+), 68 deletions(-)

diff --git a/EnvironmentSimulator/Applications/replayer/Replay.cpp b/EnvironmentSimulator/Applications/replayer/Replay.cpp
index 8e9698e..2a7eb4c 100644
--- a/EnvironmentSimulator/Applications/replayer/Replay.cpp
+++ b/EnvironmentSimulator/Applications/replayer/Replay.cpp
@@ -117,6 +117,7 @@ Replay::Replay(const std::string directory, const std::string scenario, std::str
     {
         timestamps_ = {};
         dts_        = {};
+        restart_dts_.clear();
 
         dat_reader_ = std::make_unique<Dat::DatReader>(scenarios_[i]);
         ParseDatHeader(scenarios_[i]);
@@ -284,6 +285,7 @@ bool Replay::ExtractPacketsAsSlices(bool dt_in_slice, size_t scenario_idx)
     PacketSlice* current_slice   = nullptr;
     bool         has_restart     = false;
     bool         first_timestamp = true;
+    bool         forward         = true;
     double       prev_timestamp  = 0.0;
 
     Dat::PacketHeader header;
@@ -301,7 +303,8 @@ bool Replay::ExtractPacketsAsSlices(bool dt_in_slice, size_t scenario_idx)
             dat_reader_->ReadPacket(packet, timestamp);
             current_slice->timestamp = timestamp;
 
-            if (timestamps_.empty() || timestamp > timestamps_.back())
+            forward = timestamps_.empty() || timestamp > timestamps_.back();
+            if (forward)
             {
                 timestamps_.emplace_back(timestamp);
             }
@@ -315,7 +318,14 @@ bool Replay::ExtractPacketsAsSlices(bool dt_in_slice, size_t scenario_idx)
                 continue;
             }
 
-            dts_.values.emplace_back(current_slice->timestamp, dt);
+            if (forward)
+            {
+                dts_.values.emplace_back(current_slice->timestamp, dt);
+            }
+            else  // ghost restart, time has been reset
+            {
+                restart_dts_.push_back({current_slice->timestamp, timestamps_.back(), dt});
+            }
 
             // We don't want to save the dt packet in the current slice
             if (!dt_in_slice)
@@ -876,80 +886,47 @@ Dat::DatHeader Replay::ParseDatHeader(const std::string& filename)
 
 void Replay::FillInTimestamps()
 {
-    double              curr_time = timestamps_.front();
-    std::vector<double> filled    = {curr_time};
+    std::vector<double> filled = {timestamps_.front()};
 
-    // Fixed timestep entire scenario
-    if (dts_.values.size() == 1)
+    if (dts_.values.empty())
     {
-        double current_dt = dts_.values.front().second;
-        FillEmptyTimestamps(curr_time, timestamps_.back(), current_dt, filled);
+        return;  // no steps recorded, only initial state
     }
-    // Mixed timesteps in the scenario
-    else
-    {
-        size_t i = 0;
-        for (size_t j = 0; j < dts_.values.size() - 1;)
-        {
-            double next_timestamp = timestamps_[i + 1];
-            double next_dt        = dts_.values[j + 1].second;
 
-            // We have reached the time where the next dt should be used
-            // Increment j so we get next dt in next iteration
-            if (NEAR_NUMBERS(curr_time, dts_.values[j + 1].first - next_dt))
-            {
-                j++;
-            }
-            // The next timestamp of a dt change is before our current time
-            // We have a ghost reset
-            else if (curr_time - SMALL_NUMBER > dts_.values[j + 1].first)
-            {
-                // stitch together the timestamps
-                double start_time = dts_.values[j + 1].first;
-                double end_time   = curr_time;
-                double restart_dt = dts_.values[j + 1].second;
-
-                auto   it        = std::upper_bound(filled.begin(), filled.end(), start_time);
-                size_t start_idx = static_cast<size_t>(std::distance(filled.begin(), (--it)));
-                size_t steps     = static_cast<size_t>(std::llround(((end_time - start_time) / restart_dt) + SMALL_NUMBER));
-                for (size_t k = 0; k < steps; k++)
-                {
-                    double t = k * restart_dt + start_time;
-                    for (size_t m = start_idx; m < filled.size(); m++)
-                    {
-                        if (t > filled[m] + SMALL_NUMBER && t < filled[m + 1] - SMALL_NUMBER)
-                        {
-                            filled.insert(filled.begin() + static_cast<ptrdiff_t>(m) + 1, t);
-                            start_idx = m + 1;
-                            break;
-                        }
-                    }
-                }
-                j++;
-                continue;
-            }
+    // A change of dt is always recorded, i.e. between two recorded timestamps the dt of the first one applies,
+    // except for the very last step which has the dt of the second one
+    size_t j = 0;  // dt entry applying to current timestamp
+    for (size_t i = 1; i < timestamps_.size(); i++)
+    {
+        double next_timestamp = timestamps_[i];
+        double current_dt     = dts_.values[j].second;
 
-            double current_dt = dts_.values[j].second;
-            // The gap to the next timestamp is more than 1 sample away, we should fill it
-            if (curr_time + next_dt < next_timestamp - SMALL_NUMBER && curr_time + current_dt < next_timestamp - SMALL_NUMBER)
-            {
-                // We have a large gap
-                double end_time = next_timestamp - next_dt;
-                FillEmptyTimestamps(curr_time, end_time, current_dt, filled);
-            }
-            // We are one sample away, just add it
-            else
-            {
-                filled.emplace_back(next_timestamp);
-            }
+        if (j + 1 < dts_.values.size() && NEAR_NUMBERS(dts_.values[j + 1].first, next_timestamp))
+        {
+            j++;
+        }
+        double next_dt = dts_.values[j].second;
 
-            i++;
-            curr_time = filled.back();
+        // Fill any gap of unchanged states
+        double gap = next_timestamp - next_dt - filled.back();
+        if (gap > SMALL_NUMBER)
+        {
+            FillEmptyTimestamps(filled.back(), next_timestamp - next_dt, current_dt, filled);
+        }
+        filled.emplace_back(next_timestamp);
+    }
 
-            // We have reached the last dt_ value, but the current time is not at the end, so we need to fill with current dt until the end
-            if (j == dts_.values.size() - 1 && curr_time + current_dt < timestamps_.back() - SMALL_NUMBER)
+    // Stitch in the timestamps of ghost restarts
+    for (const auto& restart : restart_dts_)
+    {
+        size_t steps = static_cast<size_t>(std::llround(((restart.end_time - restart.start_time) / restart.dt) + SMALL_NUMBER));
+        for (size_t k = 0; k < steps; k++)
+        {
+            double t  = static_cast<double>(k) * restart.dt + restart.start_time;
+            auto   it = std::lower_bound(filled.begin(), filled.end(), t - SMALL_NUMBER);
+            if (it == filled.end() || *it > t + SMALL_NUMBER)
             {
-                FillEmptyTimestamps(curr_time, timestamps_.back(), current_dt, filled);
+                filled.insert(it, t);
             }
         }
     }
diff --git a/EnvironmentSimulator/Applications/replayer/Replay.hpp b/EnvironmentSimulator/Applications/replayer/Replay.hpp
index 0ff4bc9..9411540 100644
--- a/EnvironmentSimulator/Applications/replayer/Replay.hpp
+++ b/EnvironmentSimulator/Applications/replayer/Replay.hpp
@@ -381,6 +381,14 @@ namespace scenarioengine
     };
 #endif  // _USE_OSG
 
+    // Period of ghost restart with other dt than the scenario itself
+    struct RestartDt
+    {
+        double start_time;
+        double end_time;
+        double dt;
+    };
+
     // Used in dat-merging
     struct PacketSlice
     {
@@ -502,6 +510,7 @@ namespace scenarioengine
         std::vector<std::vector<PacketSlice>>        ghost_restarts_;
         std::vector<std::pair<double, double>>       restart_timestamps_;  // start & stop of each ghost reset
         Timeline<double>                             dts_;
+        std::vector<RestartDt>                       restart_dts_;
     };
 
 }  // namespace scenarioengine
\ No newline at end of file
-- 
2.43.0


From a01495795c07b4eda1bca9f0a6def24aee908f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:52 +0000
Subject: [PATCH 30/65] fix: read interrupted recordings up to the interruption

---
 .../Applications/replayer/Replay.cpp          | 25 ++++++++++++++-----
 .../SourceFiles/PacketHandler.hpp             |  8 ++++--
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/EnvironmentSimulator/Applications/replayer/Replay.cpp b/EnvironmentSimulator/Applications/replayer/Replay.cpp
index 2a7eb4c..0b53c04 100644
--- a/EnvironmentSimulator/Applications/replayer/Replay.cpp
+++ b/EnvironmentSimulator/Applications/replayer/Replay.cpp
@@ -37,12 +37,6 @@ Replay::Replay(std::string filename, bool quiet) : time_(0.0), quiet_(quiet), in
         return;
     }
 
-    if (dts_.values.empty())
-    {
-        LOG_ERROR("No dt found in file {}", filename);
-        return;
-    }
-
     FillInTimestamps();  // Create filled timestamps with help from dt
 
     FlattenSlices();
@@ -293,6 +287,11 @@ bool Replay::ExtractPacketsAsSlices(bool dt_in_slice, size_t scenario_idx)
     {
         LOG_DEBUG("Read packet id={}, size={}", header.id, header.data_size);
         auto packet = dat_reader_->CreateGenericPacket(header);
+        if (packet.data.size() != header.data_size)
+        {
+            LOG_WARN("Incomplete packet at end of file, skipping it");
+            break;
+        }
 
         double timestamp = prev_timestamp;
         if (packet.header.id == static_cast<id_t>(Dat::PacketId::TIMESTAMP))
@@ -793,6 +792,20 @@ int Replay::ParsePackets()
         }
     }
 
+    // Objects lacking initial state, e.g. due to an interrupted recording, can't be represented
+    for (auto it = objects_timeline_.begin(); it != objects_timeline_.end();)
+    {
+        if (it->first >= 0 && it->second.pos_s_.values.empty())
+        {
+            LOG_WARN("Incomplete state of object {}, skipping it", it->first);
+            it = objects_timeline_.erase(it);
+        }
+        else
+        {
+            ++it;
+        }
+    }
+
     return 0;
 }
 
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/PacketHandler.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/PacketHandler.hpp
index 23e83a0..159eccb 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/PacketHandler.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/PacketHandler.hpp
@@ -338,9 +338,13 @@ namespace Dat
             packet.data.resize(header.data_size);
 
             file_.read(packet.data.data(), packet.header.data_size);
-            if (file_.gcount() != packet.header.data_size && !file_.eof())
+            if (file_.gcount() != packet.header.data_size)
             {
-                LOG_ERROR("Failed to create generic packet");
+                if (!file_.eof())
+                {
+                    LOG_ERROR("Failed to create generic packet");
+                }
+                packet.data.resize(static_cast<size_t>(file_.gcount()));  // keep only what was actually read
             }
 
             return packet;
-- 
2.43.0


From e235c894d13f576ebfc7ec7968212ed70f721afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:02 +0000
Subject: [PATCH 31/65] fix: refuse negative position handles in esminiRMLib

---
 .../Libraries/esminiRMLib/esminiRMLib.cpp     | 35 ++++++++++---------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
index ede8097..df1b972 100644
--- a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
@@ -465,7 +465,7 @@ extern "C"
 
     RM_DLL_API int RM_SetLanePosition(int handle, id_t roadId, int laneId, double laneOffset, double s, bool align)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -510,7 +510,7 @@ extern "C"
 
     RM_DLL_API int RM_SetRoadPosition(int handle, id_t roadId, double s, double t, bool align)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -551,7 +551,7 @@ extern "C"
 
     RM_DLL_API int RM_SetWorldPosition(int handle, double x, double y, double z, double h, double p, double r)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -576,7 +576,7 @@ extern "C"
 
     RM_DLL_API int RM_SetWorldXYHPosition(int handle, double x, double y, double h)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -594,7 +594,7 @@ extern "C"
 
     RM_DLL_API int RM_SetWorldXYZHPosition(int handle, double x, double y, double z, double h)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -612,7 +612,7 @@ extern "C"
 
     RM_DLL_API int RM_SetWorldPositionMode(int handle, double x, double y, double z, double h, double p, double r, int mode)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -652,7 +652,7 @@ extern "C"
 
     RM_DLL_API int RM_SetH(int handle, double h)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -681,7 +681,7 @@ extern "C"
 
     RM_DLL_API int RM_SetHMode(int handle, double h, int mode)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -708,7 +708,7 @@ extern "C"
 
     RM_DLL_API int RM_SetRoadId(int handle, id_t roadId)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -733,7 +733,7 @@ extern "C"
 
     RM_DLL_API int RM_SetS(int handle, double s)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -751,7 +751,7 @@ extern "C"
 
     RM_DLL_API int RM_SetSnapLaneTypes(int handle, int laneTypes)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -770,7 +770,7 @@ extern "C"
 
     RM_DLL_API int RM_PositionMoveForward(int handle, double dist, double junctionSelectorAngle)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -790,7 +790,7 @@ extern "C"
 
     RM_DLL_API int RM_GetPositionData(int handle, RM_PositionData* data)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -815,7 +815,7 @@ extern "C"
 
     RM_DLL_API int RM_GetLaneInfo(int handle, double lookahead_distance, RM_RoadLaneInfo* data, int lookAheadMode, bool inRoadDrivingDirection)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -825,7 +825,7 @@ extern "C"
 
     RM_DLL_API double RM_GetSpeedLimit(int handle)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -835,7 +835,7 @@ extern "C"
 
     RM_DLL_API int RM_GetProbeInfo(int handle, double lookahead_distance, RM_RoadProbeInfo* data, int lookAheadMode, bool inRoadDrivingDirection)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -923,7 +923,8 @@ extern "C"
 
     RM_DLL_API int RM_SubtractAFromB(int handleA, int handleB, RM_PositionDiff* pos_diff)
     {
-        if (odrManager == nullptr || handleA >= static_cast<int>(position.size()) || handleB >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handleA < 0 || handleA >= static_cast<int>(position.size()) || handleB < 0 ||
+            handleB >= static_cast<int>(position.size()))
         {
             return -1;
         }
-- 
2.43.0


From 288dcc2e64c8e110b18a56d0ce1e2c3f4244449b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:02 +0000
Subject: [PATCH 32/65] fix: include all driving lane types among drivable
 lanes

---
 EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
index df1b972..b57ee31 100644
--- a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
@@ -431,12 +431,12 @@ extern "C"
 
     RM_DLL_API int RM_GetRoadNumberOfDrivableLanes(id_t roadId, double s)
     {
-        return RM_GetRoadNumberOfLanes(roadId, s, 1966594);
+        return RM_GetRoadNumberOfLanes(roadId, s, roadmanager::Lane::LaneType::LANE_TYPE_ANY_DRIVING);
     }
 
     RM_DLL_API int RM_GetDrivableLaneIdByIndex(id_t roadId, int laneIndex, double s, int* lane_id)
     {
-        return RM_GetLaneIdByIndex(roadId, laneIndex, s, 1966594, lane_id);
+        return RM_GetLaneIdByIndex(roadId, laneIndex, s, roadmanager::Lane::LaneType::LANE_TYPE_ANY_DRIVING, lane_id);
     }
 
     RM_DLL_API int RM_GetNumberOfRoadsOverlapping(int handle)
-- 
2.43.0


From 137db2c55981251a5b118b0e52d8a03260f6af9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:02 +0000
Subject: [PATCH 33/65] fix: crash on validity query of non existing road sign

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp     | 4 ++--
 EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index e1ba6b5..d713dbb 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -2530,7 +2530,7 @@ extern "C"
             if (road != nullptr)
             {
                 roadmanager::Signal *s = road->GetSignal(index);
-                return static_cast<unsigned int>(s->validity_.size());
+                return s != nullptr ? static_cast<unsigned int>(s->validity_.size()) : 0;
             }
         }
 
@@ -2545,7 +2545,7 @@ extern "C"
             if (road != NULL)
             {
                 roadmanager::Signal *s = road->GetSignal(signIndex);
-                if (validityIndex < s->validity_.size())
+                if (s != nullptr && validityIndex < s->validity_.size())
                 {
                     validity->fromLane = s->validity_[validityIndex].fromLane_;
                     validity->toLane   = s->validity_[validityIndex].toLane_;
diff --git a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
index b57ee31..8d9a2f6 100644
--- a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
@@ -1015,7 +1015,7 @@ extern "C"
             if (road != NULL)
             {
                 roadmanager::Signal* s = road->GetSignal(index);
-                return static_cast<int>(s->validity_.size());
+                return s != nullptr ? static_cast<int>(s->validity_.size()) : -1;
             }
         }
 
@@ -1030,7 +1030,7 @@ extern "C"
             if (road != NULL)
             {
                 roadmanager::Signal* s = road->GetSignal(signIndex);
-                if (validityIndex < s->validity_.size())
+                if (s != nullptr && validityIndex < s->validity_.size())
                 {
                     validity->fromLane = s->validity_[validityIndex].fromLane_;
                     validity->toLane   = s->validity_[validityIndex].toLane_;
-- 
2.43.0


From 4c74672bffc18c5ca9177dffe848e2777cf244ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:02 +0000
Subject: [PATCH 34/65] fix: length and road id of reported road signs

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp     | 3 ++-
 EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index d713dbb..a06a719 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -2505,11 +2505,12 @@ extern "C"
                     road_sign->y           = pos.GetY();
                     road_sign->z           = pos.GetZ();
                     road_sign->h           = pos.GetH();
+                    road_sign->roadId      = static_cast<int>(road_id);
                     road_sign->s           = pos.GetS();
                     road_sign->t           = pos.GetT();
                     road_sign->orientation = s->GetOrientation() == roadmanager::Signal::Orientation::NEGATIVE ? -1 : 1;
                     road_sign->z_offset    = s->GetZOffset();
-                    road_sign->length      = s->GetLength();
+                    road_sign->length      = s->GetDepth();
                     road_sign->height      = s->GetHeight();
                     road_sign->width       = s->GetWidth();
 
diff --git a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
index 8d9a2f6..7808c0f 100644
--- a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
@@ -987,11 +987,12 @@ extern "C"
                 road_sign->y           = pos.GetY();
                 road_sign->z           = pos.GetZ();
                 road_sign->h           = pos.GetH();
+                road_sign->roadId      = static_cast<int>(road_id);
                 road_sign->s           = pos.GetS();
                 road_sign->t           = pos.GetT();
                 road_sign->orientation = s->GetOrientation() == roadmanager::Signal::Orientation::NEGATIVE ? -1 : 1;
                 road_sign->z_offset    = s->GetZOffset();
-                road_sign->length      = s->GetLength();
+                road_sign->length      = s->GetDepth();
                 road_sign->height      = s->GetHeight();
                 road_sign->width       = s->GetWidth();
 
-- 
2.43.0


From 2ac3cf34295823cc7d3f4b9e5a3658ab6bedb73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:12 +0000
Subject: [PATCH 35/65] fix: speed unit of roads without speed record or unit

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index e5549e5..bf5c430 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -3852,7 +3852,7 @@ bool OpenDrive::ParseOpenDriveXML(const pugi::xml_document& doc)
             double road_type_s_ = atof(type_node.attribute("s").value());
 
             // Check for optional speed record
-            r_type->unit_        = SpeedUnit::MS;  // default
+            r_type->unit_        = SpeedUnit::UNDEFINED;
             pugi::xml_node speed = type_node.child("speed");
             if (speed != NULL)
             {
@@ -3868,9 +3868,10 @@ bool OpenDrive::ParseOpenDriveXML(const pugi::xml_document& doc)
                     r_type->speed_ *= 0.44704;  // Convert to m/s from mph
                     r_type->unit_ = SpeedUnit::MPH;
                 }
-                else if (unit == "m/s")
+                else if (unit == "m/s" || unit.empty())
                 {
-                    // SI unit - do nothing
+                    // SI unit, also default - no conversion
+                    r_type->unit_ = SpeedUnit::MS;
                 }
                 else
                 {
-- 
2.43.0


From 54cc02230927446a697a905def9c6d87a9d93d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:49 +0000
Subject: [PATCH 36/65] fix: road ids starting with digits in scenario
 positions

---
 .../SourceFiles/ScenarioReader.cpp            | 34 ++++++++-----------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
index c9be59a..29de19c 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
@@ -1824,30 +1824,26 @@ static void CheckAndAdjustRoadSValue(const id_t road_id, double &s)
 
 static id_t ResolveRoadIdFromStr(std::string road_id_str)
 {
-    id_t   road_id           = ID_UNDEFINED;
-    double road_id_as_double = std::nan("");
+    // first look for a road with exactly this id
+    id_t road_id = roadmanager::Position::GetOpenDrive()->LookupRoadIdFromStr(road_id_str);
 
-    try
+    if (road_id == ID_UNDEFINED)
     {
-        road_id_as_double = std::stod(road_id_str);
-    }
-    catch (const std::exception &e)
-    {
-        (void)e;  // Suppress unused variable warning
-        road_id = roadmanager::Position::GetOpenDrive()->LookupRoadIdFromStr(road_id_str);
-    }
-
-    if (!std::isnan(road_id_as_double))
-    {
-        if (NEAR_NUMBERS(road_id_as_double, static_cast<id_t>(road_id_as_double)))
+        // then check for a number, e.g. an integer id from an evaluated expression
+        try
         {
-            // road id is identified as an integer
-            road_id = static_cast<id_t>(road_id_as_double);
+            size_t pos               = 0;
+            double road_id_as_double = std::stod(road_id_str, &pos);
+
+            if (pos == road_id_str.size() && road_id_as_double > -SMALL_NUMBER &&
+                NEAR_NUMBERS(road_id_as_double, static_cast<id_t>(road_id_as_double)))
+            {
+                road_id = static_cast<id_t>(road_id_as_double);
+            }
         }
-        else
+        catch (const std::exception &e)
         {
-            // interpret decimal number as string ID
-            road_id = roadmanager::Position::GetOpenDrive()->LookupRoadIdFromStr(road_id_str);
+            (void)e;  // Suppress unused variable warning
         }
     }
 
-- 
2.43.0


From 3b0db23b65c56cac425504785dd1995b422a5b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:24 +0000
Subject: [PATCH 37/65] fix: angular acceleration is the change of angular rate

---
 .../Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
index 0785acb..e8a0cdb 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
@@ -691,7 +691,7 @@ void ScenarioEngine::prepareGroundTruth(double dt)
                 if (!obj->dirty_.Check(Object::DirtyBit::ANGULAR_ACC))
                 {
                     // If not already reported, calculate angular acceleration
-                    obj->SetAngularAcc(GetAngleDifference(heading_rate_new, obj->state_old.h_rate) / dt, 0.0, 0.0);
+                    obj->SetAngularAcc((obj->pos_.GetHRate() - obj->state_old.h_rate) / dt, 0.0, 0.0);
                 }
 
                 if (obj->type_ == Object::Type::VEHICLE)
-- 
2.43.0


From e4539f02d31b577fcef61c6b67860d122265f66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:24 +0000
Subject: [PATCH 38/65] fix: lane id of reported lateral lane position

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index a06a719..8e6735a 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -1287,14 +1287,17 @@ extern "C"
 
     SE_DLL_API int SE_ReportObjectLateralLanePosition(int object_id, int laneId, double laneOffset)
     {
-        (void)laneId;
         Object *obj = nullptr;
         if (getObjectById(object_id, obj) == -1)
         {
             return -1;
         }
 
-        obj->pos_.SetLanePos(obj->pos_.GetTrackId(), obj->pos_.GetLaneId(), obj->pos_.GetS(), laneOffset);
+        // lane ID refers to the lane section at current s, hence don't follow lane links from current position
+        roadmanager::Road *road             = roadmanager::Position::GetOpenDrive()->GetRoadById(obj->pos_.GetTrackId());
+        idx_t              lane_section_idx = road != nullptr ? road->GetLaneSectionIdxByS(obj->pos_.GetS()) : IDX_UNDEFINED;
+
+        obj->pos_.SetLanePos(obj->pos_.GetTrackId(), laneId, obj->pos_.GetS(), laneOffset, lane_section_idx);
         obj->dirty_.SetBits(Object::DirtyBit::LONGITUDINAL | Object::DirtyBit::LATERAL);
 
         return 0;
-- 
2.43.0


From 2700b1d5ea551c7de33466ca4803b8a3d4f52806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:23 +0000
Subject: [PATCH 39/65] fix: snap lane types and lane lock of objects with id
 above the number of objects

---
 .../Libraries/esminiLib/esminiLib.cpp         | 20 +++----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 8e6735a..40b4591 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -1384,15 +1384,8 @@ extern "C"
             return -1;
         }
 
-        if (object_id >= 0 && object_id < static_cast<int>(player->scenarioEngine->entities_.object_.size()))
-        {
-            obj->pos_.SetSnapLaneTypes(laneTypes);
-            obj->dirty_.SetBits(Object::DirtyBit::LANE_TYPE_SNAP_MASK);
-        }
-        else
-        {
-            return -1;
-        }
+        obj->pos_.SetSnapLaneTypes(laneTypes);
+        obj->dirty_.SetBits(Object::DirtyBit::LANE_TYPE_SNAP_MASK);
 
         return 0;
     }
@@ -1405,14 +1398,7 @@ extern "C"
             return -1;
         }
 
-        if (object_id >= 0 && object_id < static_cast<int>(player->scenarioEngine->entities_.object_.size()))
-        {
-            obj->pos_.SetLockOnLane(mode);
-        }
-        else
-        {
-            return -1;
-        }
+        obj->pos_.SetLockOnLane(mode);
 
         return 0;
     }
-- 
2.43.0


From 300fd1dae1879bf900c1ffe07ceba65ed81d4da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:16 +0000
Subject: [PATCH 40/65] fix: lateral position of objects locked on lane

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index bf5c430..4bc5526 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -9530,6 +9530,10 @@ Position::XYZ2TrackPos(double x3, double y3, double z3, int mode, bool connected
                 double offset;
                 idx_t  lane_idx = lsec_new->GetClosestLaneIdx(closestS, fixed_t, lane_offset, 0, offset, true, snapToLaneTypes_);
                 fixedLaneId     = lsec_new->GetLaneIdByIdx(lane_idx);
+
+                // Lane offset refers to the center of the resulting lane
+                fixed_t = SIGN(fixedLaneId) * lsec_new->GetCenterOffset(closestS, fixedLaneId) + lane_offset;
+                fixed_t /= AVOID_ZERO(cos(GetRRoad()));  // compensate for banking
             }
         }
     }
-- 
2.43.0


From 6c4fcfa5a58a11411479242786b5a8ff148af73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:48 +0000
Subject: [PATCH 41/65] fix: adjacent lanes considered by natural driver
 controller

---
 .../Controllers/ControllerNaturalDriver.cpp   | 21 +++++--------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/EnvironmentSimulator/Modules/Controllers/ControllerNaturalDriver.cpp b/EnvironmentSimulator/Modules/Controllers/ControllerNaturalDriver.cpp
index 921d34e..d8130a1 100644
--- a/EnvironmentSimulator/Modules/Controllers/ControllerNaturalDriver.cpp
+++ b/EnvironmentSimulator/Modules/Controllers/ControllerNaturalDriver.cpp
@@ -562,22 +562,11 @@ bool ControllerNaturalDriver::AdjacentLanesAvailable()
     int left_lane_id  = current_lane - SIGN(current_lane);
     int right_lane_id = current_lane + SIGN(current_lane);
 
-    idx_t current_lane_idx = ls->GetLaneIdxById(current_lane);
-    idx_t max_lane_idx     = ls->GetNumberOfLanes() - 1;
-
-    bool left_driving, right_driving;
-    if (SIGN(current_lane) == -1)
-    {
-        unsigned int left_lanes = ls->GetNUmberOfLanesLeft();
-        (current_lane_idx == max_lane_idx) ? right_driving = false : right_driving = ls->GetLaneById(right_lane_id)->IsDriving();
-        (current_lane_idx == max_lane_idx - left_lanes) ? left_driving = false : left_driving = ls->GetLaneById(left_lane_id)->IsDriving();
-    }
-    else
-    {
-        unsigned int right_lanes = ls->GetNUmberOfLanesRight();
-        (current_lane_idx == 0) ? right_driving = false : right_driving = ls->GetLaneById(right_lane_id)->IsDriving();
-        (current_lane_idx + 1 == right_lanes) ? left_driving = false : left_driving = ls->GetLaneById(left_lane_id)->IsDriving();
-    }
+    // The center lane is not an option, and there might be no lane at all
+    roadmanager::Lane* left_lane     = left_lane_id != 0 ? ls->GetLaneById(left_lane_id) : nullptr;
+    roadmanager::Lane* right_lane    = ls->GetLaneById(right_lane_id);
+    bool               left_driving  = left_lane != nullptr && left_lane->IsDriving();
+    bool               right_driving = right_lane != nullptr && right_lane->IsDriving();
 
     if (!left_driving && right_driving)  // Lane to the left is not driveable, but right lane is.
     {
-- 
2.43.0


From e9a30ece9aebe752510530aa3bee56c1531b07b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:51 +0000
Subject: [PATCH 42/65] fix: heading when reversing during lane change over
 distance

Lane change with dynamics dimension distance mirrored the heading when
moving backwards, unlike dimensions time and rate
---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index bc30625..2387563 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -984,7 +984,7 @@ void LatLaneChangeAction::Step(double simTime, double dt)
         delta_long = sqrt(pow(step_len, 2.0) / (1.0 + pow(rate, 2.0)));
         transition_.Step(delta_long);
         offset_agnostic   = transition_.Evaluate();
-        heading_agnostic_ = atan(rate);  // heading for the step movement
+        heading_agnostic_ = atan(SIGN(object_->speed_) * rate);  // heading for the step movement
     }
     else
     {
-- 
2.43.0


From 94ab978bfd521f9e5cc31c13cf5182d9683b991a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:23 +0000
Subject: [PATCH 43/65] fix: references to and controllers of objects deleted
 by SE_DeleteObject

---
 .../Libraries/esminiLib/esminiLib.cpp         | 12 ++++++---
 .../ScenarioEngine/SourceFiles/Entities.cpp   | 25 ++++++++++++++++++-
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 40b4591..de3b1b4 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -1185,11 +1185,15 @@ extern "C"
 
         if (player != nullptr)
         {
-            for (auto &ctrl : obj->controllers_)
+            // any trailers are removed as well
+            for (Object *part = obj; part != nullptr; part = part->TrailerVehicle())
             {
-                obj->UnassignController(ctrl);
-                ctrl->UnlinkObject();
-                player->scenarioEngine->scenarioReader->RemoveController(ctrl);
+                while (!part->controllers_.empty())
+                {
+                    Controller *ctrl = part->controllers_.back();
+                    part->UnassignController(ctrl);
+                    player->scenarioEngine->scenarioReader->RemoveController(ctrl);
+                }
             }
             player->scenarioEngine->entities_.removeObject(object_id);
             return 0;
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
index 91828e7..bdc047b 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
@@ -137,8 +137,8 @@ void Object::UnassignController(Controller* controller)
         std::find_if(controllers_.begin(), controllers_.end(), [&controller](const Controller* ctrl) { return ctrl == controller; });
     if (itr != controllers_.end())
     {
+        controller->Deactivate();  // might involve the object
         controller->UnlinkObject();
-        controller->Deactivate();
     }
     controllers_.erase(std::remove(controllers_.begin(), controllers_.end(), controller), controllers_.end());
 }
@@ -1715,6 +1715,29 @@ void Entities::removeObject(Object* object, bool recursive)
     }
 
     object_.erase(std::remove(object_.begin(), object_.end(), object), object_.end());
+
+    // drop references from remaining objects
+    for (auto* objects : {&object_, &object_pool_})
+    {
+        for (auto* obj : *objects)
+        {
+            obj->collisions_.erase(std::remove(obj->collisions_.begin(), obj->collisions_.end(), object), obj->collisions_.end());
+
+            if (obj->type_ == Object::Type::VEHICLE)
+            {
+                Vehicle* v = static_cast<Vehicle*>(obj);
+                if (v->trailer_hitch_ && v->trailer_hitch_->trailer_vehicle_ == object)
+                {
+                    v->trailer_hitch_->trailer_vehicle_ = nullptr;
+                }
+                if (v->trailer_coupler_ && v->trailer_coupler_->tow_vehicle_ == object)
+                {
+                    v->trailer_coupler_->tow_vehicle_ = nullptr;
+                }
+            }
+        }
+    }
+
     delete object;
 
     return;
-- 
2.43.0


From 00f4360468d3970d299d6da0e134bd389ff4108e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:23 +0000
Subject: [PATCH 44/65] fix: sensors referring to objects deleted by
 SE_DeleteObject

---
 .../Libraries/esminiLib/esminiLib.cpp         |  5 ++++
 .../SourceFiles/IdealSensor.cpp               | 24 +++++++++++++++++++
 .../SourceFiles/IdealSensor.hpp               |  1 +
 3 files changed, 30 insertions(+)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index de3b1b4..5ed9021 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -1194,6 +1194,11 @@ extern "C"
                     part->UnassignController(ctrl);
                     player->scenarioEngine->scenarioReader->RemoveController(ctrl);
                 }
+
+                for (auto *sensor : player->sensor)
+                {
+                    sensor->ReleaseObject(part);
+                }
             }
             player->scenarioEngine->entities_.removeObject(object_id);
             return 0;
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
index 501ee3f..a5c2205 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
@@ -57,10 +57,34 @@ ObjectSensor::~ObjectSensor()
     free(hitList_);
 }
 
+void ObjectSensor::ReleaseObject(const Object *obj)
+{
+    if (host_ == obj)
+    {
+        host_ = nullptr;
+        nObj_ = 0;
+    }
+
+    int n = 0;
+    for (int i = 0; i < nObj_; i++)
+    {
+        if (hitList_[i].obj_ != obj)
+        {
+            hitList_[n++] = hitList_[i];
+        }
+    }
+    nObj_ = n;
+}
+
 void ObjectSensor::Update()
 {
     nObj_ = 0;
 
+    if (host_ == nullptr)
+    {
+        return;
+    }
+
     for (size_t i = 0; i < entities_->object_.size(); i++)
     {
         Object *obj = entities_->object_[i];
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.hpp
index 3041ebb..9c32d5c 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.hpp
@@ -93,6 +93,7 @@ namespace scenarioengine
                      int       maxObj);
         ~ObjectSensor();
         void Update();
+        void ReleaseObject(const Object *obj);  // forget about object which is about to be deleted
 
     private:
         Entities *entities_;  // Reference to the global collection of objects within the scenario
-- 
2.43.0


From a22093e33159a47331a90438e530e8b8770f88fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:23 +0000
Subject: [PATCH 45/65] fix: sensor object list exceeding specified max number
 of objects

---
 .../Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
index a5c2205..a66c659 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
@@ -85,7 +85,7 @@ void ObjectSensor::Update()
         return;
     }
 
-    for (size_t i = 0; i < entities_->object_.size(); i++)
+    for (size_t i = 0; i < entities_->object_.size() && nObj_ < maxObj_; i++)
     {
         Object *obj = entities_->object_[i];
         if (obj == host_ || obj->IsGhost())
-- 
2.43.0


From 5075bde8ad773568935ec42428d4fce815d3adf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:23 +0000
Subject: [PATCH 46/65] fix: field of view of sensors not aligned with the host
 object

---
 .../ScenarioEngine/SourceFiles/IdealSensor.cpp     | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
index a66c659..958f960 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
@@ -102,12 +102,6 @@ void ObjectSensor::Update()
 
         // Check whether object is within field of view
 
-        // find out angle between heading vector and line to object
-        double hx = 1.0;
-        double hy = 0.0;
-        double hx2, hy2;
-        RotateVec2D(hx, hy, host_->pos_.GetH(), hx2, hy2);
-
         double sensor_pos_x, sensor_pos_y;
         RotateVec2D(pos_.x, pos_.y, host_->pos_.GetH(), sensor_pos_x, sensor_pos_y);
         pos_.x_global = host_->pos_.GetX() + sensor_pos_x;
@@ -126,12 +120,8 @@ void ObjectSensor::Update()
             continue;
         }
 
-        double xon, yon;
-        NormalizeVec2D(xo, yo, xon, yon);
-
-        // Find angle to object
-        double angle     = acos(GetDotProduct2D(hx2, hy2, xon, yon));
-        double rel_angle = GetAbsAngleDifference(angle, pos_.h);
+        // Find angle from sensor heading to object
+        double rel_angle = GetAbsAngleDifference(atan2(yo, xo), GetAngleSum(host_->pos_.GetH(), pos_.h));
         if (rel_angle < fovH_ / 2)
         {
             hitList_[nObj_].obj_ = obj;
-- 
2.43.0


From 52e116a93735c5fb8e1380f5ddff9bf8d0da030e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:00 +0000
Subject: [PATCH 47/65] fix: wheel radius, invalid index and missing scenario
 in wheel data API

---
 .../Libraries/esminiLib/esminiLib.cpp          | 18 ++++++++++++++----
 .../ScenarioEngine/SourceFiles/Entities.hpp    |  2 +-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 5ed9021..8106a2a 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -161,6 +161,7 @@ static void copyWheelDataFromScenarioObject(SE_WheelData *wheeldata, const scena
         wheeldata->z                    = wd.z;
         wheeldata->h                    = wd.h;
         wheeldata->p                    = wd.p;
+        wheeldata->wheel_radius         = wd.wheel_radius;
         wheeldata->friction_coefficient = wd.friction_coefficient;
         wheeldata->axle                 = wd.axle;
         wheeldata->index                = wd.index;
@@ -2157,9 +2158,13 @@ extern "C"
 
     SE_DLL_API int SE_GetObjectNumberOfWheels(int object_id)
     {
-        Object *obj = player->scenarioEngine->entities_.GetObjectById(object_id);
+        Object *obj = nullptr;
+        if (getObjectById(object_id, obj) == -1)
+        {
+            return -1;
+        }
 
-        if (obj != nullptr && obj->GetType() == Object::Type::VEHICLE)
+        if (obj->GetType() == Object::Type::VEHICLE)
         {
             return static_cast<int>(static_cast<Vehicle *>(obj)->GetWheelData().size());
         }
@@ -2169,9 +2174,14 @@ extern "C"
 
     SE_DLL_API int SE_GetObjectWheelData(int object_id, int wheel_index, SE_WheelData *wheeldata)
     {
-        Object *obj = player->scenarioEngine->entities_.GetObjectById(object_id);
+        Object *obj = nullptr;
+        if (getObjectById(object_id, obj) == -1)
+        {
+            return -1;
+        }
 
-        if (wheel_index >= 0 && obj != nullptr && obj->GetType() == Object::Type::VEHICLE)
+        if (wheel_index >= 0 && obj->GetType() == Object::Type::VEHICLE &&
+            static_cast<unsigned int>(wheel_index) < static_cast<Vehicle *>(obj)->GetWheelData().size())
         {
             copyWheelDataFromScenarioObject(wheeldata, static_cast<Vehicle &>(*obj), static_cast<unsigned int>(wheel_index));
             return 0;
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.hpp
index 175e100..35eed73 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.hpp
@@ -34,7 +34,7 @@ namespace scenarioengine
         double p = 0.0;  // pitch in global coordinate system
         // double r;                     // roll in global coordinate system
         // double width;                 // median width of the tire
-        double wheel_radius;                // median radius of the wheel measured from the center of the wheel to the outer part of the tire
+        double wheel_radius         = 0.0;  // median radius of the wheel measured from the center of the wheel to the outer part of the tire
         double friction_coefficient = 0.0;  // the value describes the kinetic friction of the tyre's contact point
         double rotation_rate        = 0.0;  // rotation rate of the wheel
         // double rim_radius;  // 	median radius of the rim measured from the center to the outer, visible part of the rim
-- 
2.43.0


From d900791617d8802e0d82e76df413bb9b19015a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:00 +0000
Subject: [PATCH 48/65] fix: multiple callbacks registered for one object mixed
 up

---
 .../Libraries/esminiLib/esminiLib.cpp         | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 8106a2a..307a917 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -82,6 +82,7 @@ static void resetScenario(void)
     // Reset (global) callbacks
     OSCCondition::conditionCallback        = nullptr;
     StoryBoardElement::stateChangeCallback = nullptr;
+    objCallback.clear();
 
     time_stamp = 0;
 }
@@ -2443,7 +2444,7 @@ extern "C"
                                       *ttc);
     }
 
-    void objCallbackFn(scenarioengine::Object *obj, void *my_data)
+    void objCallbackFn(scenarioengine::Object *obj, void *)
     {
         for (size_t i = 0; i < objCallback.size(); i++)
         {
@@ -2451,19 +2452,33 @@ extern "C"
             {
                 SE_ScenarioObjectState se_state;
                 copyStateFromScenarioObject(&se_state, *obj);
-                objCallback[i].func(&se_state, my_data);
+                objCallback[i].func(&se_state, objCallback[i].data);
             }
         }
     }
 
     SE_DLL_API void SE_RegisterObjectCallback(int object_id, void (*fnPtr)(SE_ScenarioObjectState *, void *), void *user_data)
     {
+        if (player == nullptr)
+        {
+            LOG_ERROR("SE_RegisterObjectCallback: No scenario loaded");
+            return;
+        }
+
+        // register once per object, objCallbackFn will invoke all functions registered for it
+        bool registered =
+            std::any_of(objCallback.begin(), objCallback.end(), [object_id](const SE_ObjCallback &entry) { return entry.id == object_id; });
+
         SE_ObjCallback cb;
         cb.id   = object_id;
         cb.func = fnPtr;
-        cb.data = nullptr;
+        cb.data = user_data;
         objCallback.push_back(cb);
-        player->RegisterObjCallback(object_id, objCallbackFn, user_data);
+
+        if (!registered)
+        {
+            player->RegisterObjCallback(object_id, objCallbackFn, nullptr);
+        }
     }
 
     SE_DLL_API void SE_RegisterConditionCallback(void (*fnPtr)(const char *name, double timestamp))
-- 
2.43.0


From d00b548d8d2b4ea81968f7fa7c2e9a700507b909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:39 +0000
Subject: [PATCH 49/65] fix: logging of plain messages including curly brackets

---
 EnvironmentSimulator/Modules/CommonMini/logger.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/CommonMini/logger.hpp b/EnvironmentSimulator/Modules/CommonMini/logger.hpp
index e627c9c..c23c4e1 100644
--- a/EnvironmentSimulator/Modules/CommonMini/logger.hpp
+++ b/EnvironmentSimulator/Modules/CommonMini/logger.hpp
@@ -154,7 +154,15 @@ namespace esmini::common
             fileLoggingEnabled_    = !SE_Env::Inst().GetOptions().GetOptionSet("disable_log");
             if (fileLoggingEnabled_ || consoleLoggingEnabled_)
             {
-                Log(fmt::format(AddTimeAndMetaData(function, file, line, logStr, log), args...));
+                std::string message = AddTimeAndMetaData(function, file, line, logStr, log);
+                if constexpr (sizeof...(args) == 0)
+                {
+                    Log(message);  // plain text, which might include any characters
+                }
+                else
+                {
+                    Log(fmt::format(message, args...));
+                }
             }
         }
         // private interface
-- 
2.43.0


From 3d2d4b216a7d1016b44a88a50ba1b28c8a2a43ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:43 +0000
Subject: [PATCH 50/65] fix: keep distance offset, domains and closed flag when
 copying a follow trajectory action

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp       | 2 ++
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp    | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 4bc5526..239f5fd 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -15395,6 +15395,8 @@ RMTrajectory* RMTrajectory::Copy()
 {
     RMTrajectory* traj = new RMTrajectory();
     traj->shape_       = shape_->Copy();
+    traj->name_        = name_;
+    traj->closed_      = closed_;
 
     return traj;
 }
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
index 23ac823..ea6c4f4 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
@@ -1197,9 +1197,10 @@ namespace scenarioengine
             timing_domain_             = action.timing_domain_;
             timing_scale_              = action.timing_scale_;
             timing_offset_             = action.timing_offset_;
-            initialDistanceOffset_     = action.timing_offset_;
+            initialDistanceOffset_     = action.initialDistanceOffset_;
             following_mode_            = action.following_mode_;
             time_                      = 0;
+            domains_                   = action.domains_;
             initialHeadingSign_        = action.initialHeadingSign_;
             movingDirection_           = action.movingDirection_;
             explicit_h_active_         = action.explicit_h_active_;
-- 
2.43.0


From ce3960c082204610f496914ff300cd07863874bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:43 +0000
Subject: [PATCH 51/65] fix: time stamps of clothoid trajectories not starting
 at time zero

---
 .../Modules/RoadManager/RoadManager.cpp            | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 239f5fd..46d4d19 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -14125,8 +14125,8 @@ void ClothoidShape::CalculatePolyLine()
                 }
             }
         }
-        v.param = v.s = i * stepLen;
-        v.time        = t_start_ + (i * stepLen / spiral_.GetLength()) * t_end_;
+        v.param = v.s = (i < steps) ? i * stepLen : spiral_.GetLength();
+        v.time        = t_start_ + (v.s / spiral_.GetLength()) * (t_end_ - t_start_);
         pline_.AddVertex(v);
     }
 
@@ -14152,11 +14152,15 @@ int ClothoidShape::Evaluate(double p, TrajectoryParamType ptype, TrajVertex& pos
 {
     if (ptype == TrajectoryParamType::TRAJ_PARAM_TYPE_TIME)
     {
-        if (p >= t_start_ && p <= t_end_)
+        if (p < t_start_)
+        {
+            // not yet started, stay at the start
+            p = 0.0;
+        }
+        else if (p <= t_end_)
         {
-            double t = p - t_start_;
             // Transform time parameter value into a s value
-            p = GetLength() * (t - t_start_) / (t_end_ - t_start_);
+            p = GetLength() * (p - t_start_) / (t_end_ - t_start_);
         }
         else
         {
-- 
2.43.0


From eff9c409e6c6dd9d99d54330aab75592ea35040c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:43 +0000
Subject: [PATCH 52/65] fix: end point, time stamps and copies of clothoid
 spline trajectories

---
 .../Modules/RoadManager/RoadManager.cpp       | 25 ++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 46d4d19..9253e09 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -13444,7 +13444,12 @@ int ClothoidSplineShape::Evaluate(double p, TrajectoryParamType ptype, TrajVerte
     if (ptype == TrajectoryParamType::TRAJ_PARAM_TYPE_TIME)
     {
         // Find segment including provided timestamp
-        if (p >= GetStartTime() && p <= GetEndTime())
+        if (p < GetStartTime())
+        {
+            // not yet started, stay at the start
+            p = 0.0;
+        }
+        else if (p <= GetEndTime())
         {
             double                        s        = 0.0;
             double                        time_end = 0.0;
@@ -13488,7 +13493,7 @@ int ClothoidSplineShape::Evaluate(double p, TrajectoryParamType ptype, TrajVerte
         p = 0.0;
     }
 
-    pline_.Evaluate(p, pos, i);
+    pline_.Evaluate(p, pos);
 
     pos.s = p;
 
@@ -13594,7 +13599,7 @@ void ClothoidSplineShape::CalculatePolyLine()
     {
         if (i < steps)
         {
-            if (i * stepLen > length_sum + segments_[j].length_ - SMALL_NUMBER)
+            while (j < segments_.size() - 1 && i * stepLen > length_sum + segments_[j].length_ - SMALL_NUMBER)
             {
                 // step segment
                 length_sum += segments_[j].length_;
@@ -13605,7 +13610,12 @@ void ClothoidSplineShape::CalculatePolyLine()
         else
         {
             // Add endpoint of last clothoid
-            EvaluateInternal(length_ - length_sum, static_cast<unsigned int>(segments_.size() - 1), v);
+            while (j < segments_.size() - 1)
+            {
+                length_sum += segments_[j].length_;
+                j++;
+            }
+            EvaluateInternal(length_ - length_sum, j, v);
         }
 
         // Resolve road coordinates to get elevation at point since the clothoid only provides 2D
@@ -13614,8 +13624,10 @@ void ClothoidSplineShape::CalculatePolyLine()
         v.z      = pos.GetZ();
         v.h_true = v.h;
 
-        v.param = v.s = i * stepLen;
-        v.time        = segments_.front().time_ + (i * stepLen / length_) * segments_.back().time_;
+        v.param = v.s = (i < steps) ? i * stepLen : length_;
+
+        double time_end = (j < segments_.size() - 1) ? segments_[j + 1].time_ : GetEndTime();
+        v.time          = segments_[j].time_ + (v.s - length_sum) / MAX(segments_[j].length_, SMALL_NUMBER) * (time_end - segments_[j].time_);
 
         pline_.AddVertex(v);
     }
@@ -13654,6 +13666,7 @@ Shape* ClothoidSplineShape::Copy()
         shape->AddSegment(s.posStart_, s.curvStart_, s.curvEnd_, s.length_, s.h_offset_, s.time_);
     }
     shape->spirals_ = spirals_;
+    shape->SetEndTime(GetEndTime());
     shape->CalculatePolyLine();
     return shape;
 }
-- 
2.43.0


From 401e539abe1d4517b29494ba5fd95f8210124764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:43 +0000
Subject: [PATCH 53/65] fix: stand still phases of trajectories in follow mode

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 9253e09..8798adc 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -13264,7 +13264,8 @@ void PolyLineShape::CalculatePolyLine()
                 else
                 {
                     // no movement, set speed and to zero
-                    speed = 0.0;
+                    speed                       = 0.0;
+                    pline_.vertex_[i - 1].speed = 0.0;
                 }
                 pline_.vertex_[i - 1].acc = acc;
                 pline_.vertex_[i].speed   = speed;
-- 
2.43.0


From bcf34ffac649a42ed756ab7fcecc6e7ee9c69f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:43 +0000
Subject: [PATCH 54/65] fix: consider time offset for speed at end of
 trajectories with absolute timing

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 2387563..8d2e4a6 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -610,7 +610,7 @@ void scenarioengine::FollowTrajectoryAction::Move(double simTime, double dt)
         object_->pos_.SetTrajectoryPosByTime(time_ + timeOffset + timing_offset_);
 
         if ((dt > SMALL_NUMBER) &&  // skip speed update if timestep is zero
-            (time_ + timeOffset < traj_->GetStartTime() + traj_->GetDuration() + SMALL_NUMBER))
+            (time_ + timeOffset + timing_offset_ < traj_->GetStartTime() + traj_->GetDuration() + SMALL_NUMBER))
         {
             // don't calculate and update actual speed when reached end of trajectory,
             // since the movement is based on remaining length of trajectory, not speed
-- 
2.43.0


From 6596882dd9a81852994b9dd766122715b10596c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:28 +0000
Subject: [PATCH 55/65] fix: evaluate relative positions of trajectories at
 every start of the action

---
 .../Modules/RoadManager/RoadManager.cpp       | 21 ++++++++++++-------
 .../Modules/RoadManager/RoadManager.hpp       |  2 ++
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 8798adc..8bc16d1 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -13537,14 +13537,19 @@ void ClothoidSplineShape::Freeze(Position* ref_pos)
     {
         Segment* s = &segments_[i];
 
-        if (s->posStart_ != nullptr)
+        if (s->posStart_ != nullptr && !s->connected_)
         {
-            s->posStart_->EvaluateRelation(true);
+            s->posStart_->EvaluateRelation(false);
         }
         else if (i > 0)
         {
             // Add a clothoid segment from end of last segment
-            s->posStart_ = new Position(segments_[i - 1].posEnd_);
+            if (s->posStart_ == nullptr)
+            {
+                s->posStart_ = new Position();
+            }
+            s->posStart_->Duplicate(segments_[i - 1].posEnd_);
+            s->connected_ = true;
         }
         else
         {
@@ -13554,7 +13559,7 @@ void ClothoidSplineShape::Freeze(Position* ref_pos)
             s->posStart_->relative_.dy = 0.0;
             s->posStart_->relative_.dz = 0.0;
             s->posStart_->SetRelativePosition(ref_pos, Position::PositionType::RELATIVE_OBJECT);
-            s->posStart_->EvaluateRelation(true);
+            s->posStart_->EvaluateRelation(false);
         }
 
         double x = s->posStart_->GetX();
@@ -13562,7 +13567,7 @@ void ClothoidSplineShape::Freeze(Position* ref_pos)
         double h = GetAngleInInterval2PI(s->posStart_->GetH() + s->h_offset_);
 
         const roadmanager::Spiral spiral{0, x, y, h, s->length_, s->curvStart_, s->curvEnd_};
-        if (i < segments_.size() - 1 && segments_[i + 1].posStart_ != nullptr)
+        if (i < segments_.size() - 1 && segments_[i + 1].posStart_ != nullptr && !segments_[i + 1].connected_)
         {
             spiral.EvaluateDS(s->length_, &x, &y, &h);
             x = segments_[i + 1].posStart_->GetX();
@@ -13716,7 +13721,7 @@ void NurbsShape::CalculatePolyLine()
     double steplen = NURBS_STEPLENGTH;  // steplen in meters
     for (size_t i = 0; i < ctrlPoint_.size(); i++)
     {
-        ctrlPoint_[i].pos_.EvaluateRelation(true);
+        ctrlPoint_[i].pos_.EvaluateRelation(false);
         ctrlPoint_[i].t_ = knot_[i + order_ - 1];
         if (i > 0)
         {
@@ -15312,7 +15317,7 @@ void RMTrajectory::Freeze(FollowingMode following_mode, double current_speed, Po
         for (size_t i = 0; i < pline->vertex_.size(); i++)
         {
             Position* pos = pline->vertex_[i].pos_;
-            pos->EvaluateRelation(true);
+            pos->EvaluateRelation(false);
         }
 
         pline->following_mode_ = following_mode;
@@ -15324,7 +15329,7 @@ void RMTrajectory::Freeze(FollowingMode following_mode, double current_speed, Po
     {
         ClothoidShape* clothoid = static_cast<ClothoidShape*>(shape_);
 
-        clothoid->pos_.EvaluateRelation(true);
+        clothoid->pos_.EvaluateRelation(false);
 
         clothoid->spiral_.SetX(clothoid->pos_.GetX());
         clothoid->spiral_.SetY(clothoid->pos_.GetY());
diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.hpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.hpp
index 55cce73..d08137c 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.hpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.hpp
@@ -5561,6 +5561,7 @@ namespace roadmanager
                 length_    = other.length_;
                 h_offset_  = other.h_offset_;
                 time_      = other.time_;
+                connected_ = other.connected_;
             }
             ~Segment()
             {
@@ -5580,6 +5581,7 @@ namespace roadmanager
             double    length_;
             double    h_offset_;
             double    time_;
+            bool      connected_ = false;  // start position not specified, given by end of previous segment
         };
 
         ClothoidSplineShape() : Shape(ShapeType::CLOTHOID_SPLINE)
-- 
2.43.0


From 0aa55ed0a8711d2ad5bfe427434388643e7a272b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:43 +0000
Subject: [PATCH 56/65] fix: keep dynamic constraints when copying a speed
 profile action

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
index ea6c4f4..41afe63 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
@@ -391,6 +391,7 @@ namespace scenarioengine
         {
             SetName(action.GetName());
             following_mode_ = action.following_mode_;
+            dynamics_       = action.dynamics_;
             entry_          = action.entry_;
             entity_ref_     = action.entity_ref_;
             speed_          = action.speed_;
-- 
2.43.0


From 1cfc454eb5afd174bcbf3aa53c35d225e465dce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:21 +0000
Subject: [PATCH 57/65] fix: apply specified following mode at every start of a
 speed profile action

---
 .../OSCTypeDefs/OSCPrivateAction.cpp          | 26 ++++++++++---------
 .../OSCTypeDefs/OSCPrivateAction.hpp          |  2 ++
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 8d2e4a6..e5f2823 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -1343,6 +1343,8 @@ void LongSpeedProfileAction::Start(double simTime)
     double speed_offset = entity_ref_ != nullptr ? entity_ref_->GetSpeed() : 0.0;
     double init_time_   = simTime;
 
+    cur_following_mode_ = following_mode_;
+
     init_acc_ = object_->pos_.GetAccLong();
 
     std::vector<EntryVertex> vertex;
@@ -1356,7 +1358,7 @@ void LongSpeedProfileAction::Start(double simTime)
     }
     else if (entry_[0].time_ > -SMALL_NUMBER)
     {
-        if (following_mode_ == FollowingMode::FOLLOW)
+        if (cur_following_mode_ == FollowingMode::FOLLOW)
         {
             // replace first entry at time = 0.0 with current speed
             vertex.push_back(EntryVertex(init_time_, object_->GetSpeed()));
@@ -1471,7 +1473,7 @@ void LongSpeedProfileAction::Start(double simTime)
     {
         AddSpeedSegment(vtx.t_, vtx.v_, 0.0, 0.0);
     }
-    else if (following_mode_ == FollowingMode::FOLLOW && vertex.size() == 2)
+    else if (cur_following_mode_ == FollowingMode::FOLLOW && vertex.size() == 2)
     {
         // Special case: Single speed target, following mode = follow
         // Reach target speed with given jerk contraint. Add linear segment if needed.
@@ -1501,7 +1503,7 @@ void LongSpeedProfileAction::Start(double simTime)
 
         if (fabs(j1 - j0) < SMALL_NUMBER)
         {
-            // following_mode_ = FollowingMode::POSITION;
+            // cur_following_mode_ = FollowingMode::POSITION;
             if (fabs(t0 - t3) > SMALL_NUMBER && fabs(j1 * (t0 - t3) - k0) > SMALL_NUMBER)
             {
                 t1 = (2 * j1 * (v0 + t0 * j1 * (t0 - t3) - v3) + pow(k0, 2) + 2 * k0 * j1 * (t3 - 2 * t0)) / (2 * j1 * (j1 * (t0 - t3) - k0));
@@ -1612,7 +1614,7 @@ void LongSpeedProfileAction::Start(double simTime)
     {
         // Normal case: Follow acceleration (slopes) of multiple speed targets over time
 
-        if (following_mode_ == FollowingMode::FOLLOW)
+        if (cur_following_mode_ == FollowingMode::FOLLOW)
         {
             if (abs(vtx.k_) > SMALL_NUMBER)
             {
@@ -1632,7 +1634,7 @@ void LongSpeedProfileAction::Start(double simTime)
 
         for (index = 0; index < vertex.size(); index++)
         {
-            if (following_mode_ == FollowingMode::POSITION)
+            if (cur_following_mode_ == FollowingMode::POSITION)
             {
                 vtx = vertex[index];
                 AddSpeedSegment(vtx.t_, vtx.v_, vtx.k_, 0.0);
@@ -1662,7 +1664,7 @@ void LongSpeedProfileAction::Start(double simTime)
                         LOG_WARN("LongSpeedProfileAction failed at point {} (time={:.2f}). Falling back to linear (Position) mode.",
                                  index,
                                  vertex[index].t_);
-                        following_mode_ = FollowingMode::POSITION;
+                        cur_following_mode_ = FollowingMode::POSITION;
                         continue;
                     }
 
@@ -1719,7 +1721,7 @@ void LongSpeedProfileAction::Step(double simTime, double dt)
 
 void LongSpeedProfileAction::CheckAcceleration(double acc)
 {
-    if (following_mode_ == FollowingMode::POSITION)
+    if (cur_following_mode_ == FollowingMode::POSITION)
     {
         return;
     }
@@ -1731,13 +1733,13 @@ void LongSpeedProfileAction::CheckAcceleration(double acc)
                  dynamics_.max_acceleration_,
                  -dynamics_.max_deceleration_);
 
-        following_mode_ = FollowingMode::POSITION;
+        cur_following_mode_ = FollowingMode::POSITION;
     }
 }
 
 void LongSpeedProfileAction::CheckAccelerationRate(double acc_rate)
 {
-    if (following_mode_ == FollowingMode::POSITION)
+    if (cur_following_mode_ == FollowingMode::POSITION)
     {
         return;
     }
@@ -1749,13 +1751,13 @@ void LongSpeedProfileAction::CheckAccelerationRate(double acc_rate)
                  dynamics_.max_acceleration_rate_,
                  -dynamics_.max_deceleration_rate_);
 
-        following_mode_ = FollowingMode::POSITION;
+        cur_following_mode_ = FollowingMode::POSITION;
     }
 }
 
 void LongSpeedProfileAction::CheckSpeed(double speed)
 {
-    if (following_mode_ == FollowingMode::POSITION)
+    if (cur_following_mode_ == FollowingMode::POSITION)
     {
         return;
     }
@@ -1767,7 +1769,7 @@ void LongSpeedProfileAction::CheckSpeed(double speed)
                  dynamics_.max_speed_,
                  -dynamics_.max_speed_);
 
-        following_mode_ = FollowingMode::POSITION;
+        cur_following_mode_ = FollowingMode::POSITION;
     }
 }
 
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
index 41afe63..443545f 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
@@ -448,6 +448,8 @@ namespace scenarioengine
         double speed_;
         double acc_;
         double init_acc_;  // initial acceleration at start of the action
+
+        FollowingMode cur_following_mode_ = FollowingMode::POSITION;  // mode of current execution, including any fallback
     };
 
     class LongDistanceAction : public OSCPrivateAction
-- 
2.43.0


From e1ba4eeb142c26957485b560ce86b7125cc9d82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:21 +0000
Subject: [PATCH 58/65] fix: repeated execution and displacement any of lateral
 distance action

---
 .../OSCTypeDefs/OSCPrivateAction.cpp          | 22 ++++++++++++-------
 .../OSCTypeDefs/OSCPrivateAction.hpp          |  1 +
 .../SourceFiles/ScenarioReader.cpp            |  4 ++++
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index e5f2823..365f718 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -1991,6 +1991,12 @@ void LatDistanceAction::Start(double simTime)
         displacement_ = DisplacementType::LEFT_TO_REFERENCED_ENTITY;
     }
 
+    // Reset any state from previous execution
+    target_distance_ = distance_;
+    lat_vel_         = 0.0;
+    acceleration_    = 0.0;
+    sign_            = 0.0;
+
     double ego_width    = object_->boundingbox_.dimensions_.width_;
     double target_width = target_object_->boundingbox_.dimensions_.width_;
 
@@ -1998,29 +2004,29 @@ void LatDistanceAction::Start(double simTime)
     {
         if (freespace_)
         {
-            distance_ += (ego_width + target_width) / 2.0;
+            target_distance_ += (ego_width + target_width) / 2.0;
         }
-        distance_ *= displacement_ == DisplacementType::RIGHT_TO_REFERENCED_ENTITY ? -1 : 1;
+        target_distance_ *= displacement_ == DisplacementType::RIGHT_TO_REFERENCED_ENTITY ? -1 : 1;
     }
     else if (cs_ == roadmanager::CoordinateSystem::CS_ROAD)
     {
         if (displacement_ == DisplacementType::LEFT_TO_REFERENCED_ENTITY)
         {
             // We want to be on the left side of the target object
-            distance_ = -abs(distance_);
+            target_distance_ = -abs(target_distance_);
             sign_     = -1.0;
         }
         else if (displacement_ == DisplacementType::RIGHT_TO_REFERENCED_ENTITY)
         {
             // We want to be on the right side of the target object
-            distance_ = abs(distance_);
+            target_distance_ = abs(target_distance_);
             sign_     = 1.0;
         }
 
         if (freespace_)
         {
             // We only take the width of the cars into account if we are in freespace mode
-            distance_ += sign_ * (ego_width + target_width) / 2.0;
+            target_distance_ += sign_ * (ego_width + target_width) / 2.0;
         }
     }
 
@@ -2098,11 +2104,11 @@ void LatDistanceAction::GetDistanceError(roadmanager::Position& pos1, roadmanage
     // Both cars facing same direction, either along the driving direction or against it
     if ((facing_forward && pos_diff.dDirection) || (!facing_forward && !pos_diff.dDirection))
     {
-        distance_error = -(pos_diff.dt + distance_);
+        distance_error = -(pos_diff.dt + target_distance_);
     }
     else  // The cars are facing opposite directions
     {
-        distance_error = -(pos_diff.dt - distance_);
+        distance_error = -(pos_diff.dt - target_distance_);
     }
 }
 
@@ -2124,7 +2130,7 @@ void LatDistanceAction::Step(double simTime, double dt)
         double step_len             = object_->GetSpeed() * dt;
 
         RotateVec2D(1.0, 0.0, target_object_->pos_.GetH(), target_obj_x_axis[0], target_obj_x_axis[1]);
-        RotateVec2D(0.0, distance_, target_object_->pos_.GetH(), target_obj_offset[0], target_obj_offset[1]);
+        RotateVec2D(0.0, target_distance_, target_object_->pos_.GetH(), target_obj_offset[0], target_obj_offset[1]);
 
         // calculate target position, i.e. aiming point
         ProjectPointOnLine2D(object_->pos_.GetX(),
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
index 443545f..aa24a87 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
@@ -625,6 +625,7 @@ namespace scenarioengine
 
     private:
         MoveState    move_state_;
+        double       target_distance_ = 0.0;  // signed distance, resolved at start
         double       lat_vel_;
         double       acceleration_;
         DampedSpring spring_;
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
index 29de19c..656dd92 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
@@ -3133,6 +3133,10 @@ OSCPrivateAction *ScenarioReader::parseOSCPrivateAction(pugi::xml_node actionNod
                             LOG_WARN("displacement attribute missing, setting default 'any'");
                             action_dist->displacement_ = LatDistanceAction::DisplacementType::ANY;
                         }
+                        else if (displacement == "any")
+                        {
+                            action_dist->displacement_ = LatDistanceAction::DisplacementType::ANY;
+                        }
                         else if (displacement == "leftToReferencedEntity")
                         {
                             action_dist->displacement_ = LatDistanceAction::DisplacementType::LEFT_TO_REFERENCED_ENTITY;
-- 
2.43.0


From 79bc4cb3ae0aaba043bc5b925aa742734d14e0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:21 +0000
Subject: [PATCH 59/65] fix: resolve displacement and reset acceleration at
 every start of longitudinal distance action

---
 .../ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp   | 11 +++++++----
 .../ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp   |  1 +
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 365f718..8bbe9cf 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -1818,7 +1818,10 @@ void LongDistanceAction::Start(double simTime)
         return;
     }
 
+    acceleration_ = 0.0;
+
     // Resolve displacement
+    cur_displacement_ = displacement_;
     if (displacement_ == DisplacementType::ANY)
     {
         // Find out current displacement, and apply it
@@ -1840,11 +1843,11 @@ void LongDistanceAction::Start(double simTime)
 
         if (distance < 0.0)
         {
-            displacement_ = DisplacementType::LEADING;
+            cur_displacement_ = DisplacementType::LEADING;
         }
         else
         {
-            displacement_ = DisplacementType::TRAILING;
+            cur_displacement_ = DisplacementType::TRAILING;
         }
     }
 
@@ -1889,11 +1892,11 @@ void LongDistanceAction::Step(double simTime, double dt)
         requested_dist = abs(target_object_->speed_) * distance_;
     }
 
-    if (displacement_ == DisplacementType::TRAILING)
+    if (cur_displacement_ == DisplacementType::TRAILING)
     {
         requested_dist = abs(requested_dist);
     }
-    else if (displacement_ == DisplacementType::LEADING)
+    else if (cur_displacement_ == DisplacementType::LEADING)
     {
         requested_dist = -abs(requested_dist);
     }
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
index aa24a87..ccbb855 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
@@ -528,6 +528,7 @@ namespace scenarioengine
         void ReplaceObjectRefs(Object* obj1, Object* obj2);
 
     private:
+        DisplacementType cur_displacement_ = DisplacementType::NONE;  // displacement resolved at start
         double acceleration_;
     };
 
-- 
2.43.0


From bc522a17a9fb83efd59e54d90d5d0080c072c7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:21 +0000
Subject: [PATCH 60/65] fix: copying and repeated execution of synchronize
 action

---
 .../OSCTypeDefs/OSCPrivateAction.cpp           |  7 ++++++-
 .../OSCTypeDefs/OSCPrivateAction.hpp           | 18 +++---------------
 2 files changed, 9 insertions(+), 16 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 8bbe9cf..d04ca2b 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -2650,6 +2650,12 @@ void SynchronizeAction::SetSubMode(SynchSubmode submode, std::string msg)
 
 void SynchronizeAction::Start(double simTime)
 {
+    // reset any state from previous execution
+    mode_           = SynchMode::MODE_NONE;
+    submode_        = SynchSubmode::SUBMODE_NONE;
+    lastDist_       = LARGE_NUMBER;
+    lastMasterDist_ = LARGE_NUMBER;
+
     target_position_master_.EvaluateRelation();
     target_position_.EvaluateRelation();
 
@@ -2657,7 +2663,6 @@ void SynchronizeAction::Start(double simTime)
     if (steadyState_.type_ == SteadyStateType::STEADY_STATE_TIME)
     {
         steadyState_.dist_ = steadyState_.time_ * final_speed_->GetValue();
-        steadyState_.type_ = SteadyStateType::STEADY_STATE_DIST;
     }
     else if (steadyState_.type_ == SteadyStateType::STEADY_STATE_POS)
     {
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
index ccbb855..f4051f4 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
@@ -914,21 +914,9 @@ namespace scenarioengine
             submode_                = action.submode_;
             lastDist_               = LARGE_NUMBER;
             lastMasterDist_         = LARGE_NUMBER;
-            tolerance_              = SYNCH_DISTANCE_TOLERANCE;
-            tolerance_master_       = SYNCH_DISTANCE_TOLERANCE;
-            if (steadyState_.type_ == SteadyStateType::STEADY_STATE_DIST)
-            {
-                steadyState_.dist_ = action.steadyState_.dist_;
-            }
-            else if (steadyState_.type_ == SteadyStateType::STEADY_STATE_TIME)
-            {
-                steadyState_.dist_ = action.steadyState_.time_;
-            }
-            else if (steadyState_.type_ == SteadyStateType::STEADY_STATE_POS)
-            {
-                steadyState_.pos_ = action.steadyState_.pos_;
-            }
-            steadyState_.type_ = action.steadyState_.type_;
+            tolerance_              = action.tolerance_;
+            tolerance_master_       = action.tolerance_master_;
+            steadyState_            = action.steadyState_;
         }
 
         ~SynchronizeAction();
-- 
2.43.0


From a42238e80ded386ced9340b996c2e8fdc47c52d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:22 +0000
Subject: [PATCH 61/65] fix: provide player to controllers assigned by actions

---
 EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp b/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
index a758284..91398cf 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
@@ -1252,7 +1252,12 @@ void ScenarioPlayer::InitControllersPostPlayer()
 {
     if (!scenarioEngine->GetDisableControllersFlag())
     {
-        //  Create relation between controllers and player
+        //  Create relation between controllers and player, including controllers to be assigned later by actions
+        for (auto ctrl : scenarioEngine->GetScenarioReader()->controller_)
+        {
+            ctrl->SetPlayer(this);
+        }
+
         for (size_t i = 0; i < scenarioEngine->entities_.object_.size(); i++)
         {
             if (scenarioEngine->entities_.object_[i]->controllers_.size() > 0)
-- 
2.43.0


From 3dd95a20ad44378e3ae0860e126e9a1b1e9cac71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:42 +0000
Subject: [PATCH 62/65] fix: lane of relative lane positions on connected roads
 and lane sections

---
 .../Modules/RoadManager/RoadManager.cpp            | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 8bc16d1..cf5fffd 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -14466,23 +14466,23 @@ void Position::EvaluateRelation(bool release)
                     if (GetDirectionMode() == DirectionMode::ALONG_LANE)
                     {
                         // Consider road rule (left hand or right hand traffic)
-                        if ((IsAngleForward(rel_pos_->GetHRelative()) &&
-                             (rel_pos_->GetLaneId() < 0 && road->GetRule() == Road::RoadRule::RIGHT_HAND_TRAFFIC)) ||
-                            (IsAngleForward(rel_pos_->GetHRelative()) &&
-                             (rel_pos_->GetLaneId() > 0 && road->GetRule() == Road::RoadRule::LEFT_HAND_TRAFFIC)))
+                        if ((IsAngleForward(pos_tmp.GetHRelative()) &&
+                             (pos_tmp.GetLaneId() < 0 && road->GetRule() == Road::RoadRule::RIGHT_HAND_TRAFFIC)) ||
+                            (IsAngleForward(pos_tmp.GetHRelative()) &&
+                             (pos_tmp.GetLaneId() > 0 && road->GetRule() == Road::RoadRule::LEFT_HAND_TRAFFIC)))
                         {
-                            new_lane_id = GetRelativeLaneId(rel_pos_->GetLaneId(), relative_.dLane);  // along road s axis
+                            new_lane_id = GetRelativeLaneId(pos_tmp.GetLaneId(), relative_.dLane);  // along road s axis
                             new_offset  = relative_.offset;
                         }
                         else
                         {
-                            new_lane_id = GetRelativeLaneId(rel_pos_->GetLaneId(), -relative_.dLane);  // opposite s axis
+                            new_lane_id = GetRelativeLaneId(pos_tmp.GetLaneId(), -relative_.dLane);  // opposite s axis
                             new_offset  = -relative_.offset;
                         }
                     }
                     else
                     {
-                        new_lane_id = GetRelativeLaneId(rel_pos_->GetLaneId(), relative_.dLane);  // do not consider driving direction
+                        new_lane_id = GetRelativeLaneId(pos_tmp.GetLaneId(), relative_.dLane);  // do not consider driving direction
                         new_offset  = relative_.offset;
                     }
                 }
-- 
2.43.0


From 8b39ddd983468aac1e5f89ba0f9ae04b8a606010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:41 +0000
Subject: [PATCH 63/65] fix: evaluate absolute and relative angles of relative
 positions together

---
 .../Modules/RoadManager/RoadManager.cpp       | 25 +++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index cf5fffd..91eeaab 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -14552,6 +14552,9 @@ void Position::EvaluateRelation(bool release)
     // Now when road orientation and elevation is known, update the position object accordingly
     if (GetType() == Position::PositionType::RELATIVE_LANE || GetType() == Position::PositionType::RELATIVE_ROAD)
     {
+        // set all angles first, then evaluate them together since they depend on each other
+        int mode = 0;
+
         if ((GetMode(Position::PosModeType::INIT) & Position::PosMode::H_MASK) == Position::PosMode::H_REL ||
             (GetMode(Position::PosModeType::INIT) & Position::PosMode::H_MASK) == 0)  // not set
         {
@@ -14559,37 +14562,45 @@ void Position::EvaluateRelation(bool release)
             {
                 // ds -> s is along road, dsLane -> s is along road
                 // for dsLane, adjust relative heading to the driving direction of the lane
-                SetHeadingRelative(GetAngleSum(relative_.dh, GetDrivingDirectionRelativeRoad() < 0 ? M_PI : 0.0));
+                SetHeadingRelative(GetAngleSum(relative_.dh, GetDrivingDirectionRelativeRoad() < 0 ? M_PI : 0.0), false);
             }
             else
             {
-                SetHeadingRelative(relative_.dh);
+                SetHeadingRelative(relative_.dh, false);
             }
+            mode |= Position::PosMode::H_REL;
         }
         else
         {
-            SetHeading(relative_.dh);
+            SetHeading(relative_.dh, false);
+            mode |= Position::PosMode::H_ABS;
         }
 
         if ((GetMode(Position::PosModeType::INIT) & Position::PosMode::P_MASK) == Position::PosMode::P_REL ||
             (GetMode(Position::PosModeType::INIT) & Position::PosMode::P_MASK) == 0)  // not set
         {
-            SetPitchRelative(relative_.dp);
+            SetPitchRelative(relative_.dp, false);
+            mode |= Position::PosMode::P_REL;
         }
         else
         {
-            SetPitch(relative_.dp);
+            SetPitch(relative_.dp, false);
+            mode |= Position::PosMode::P_ABS;
         }
 
         if ((GetMode(Position::PosModeType::INIT) & Position::PosMode::R_MASK) == Position::PosMode::R_REL ||
             (GetMode(Position::PosModeType::INIT) & Position::PosMode::R_MASK) == 0)  // not set
         {
-            SetRollRelative(relative_.dr);
+            SetRollRelative(relative_.dr, false);
+            mode |= Position::PosMode::R_REL;
         }
         else
         {
-            SetRoll(relative_.dr);
+            SetRoll(relative_.dr, false);
+            mode |= Position::PosMode::R_ABS;
         }
+
+        EvaluateHPR(mode);
     }
 
     EvaluateHPR();
-- 
2.43.0


From 213119fd8efd169e52494019a1fd91437b1d7725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:34 +0000
Subject: [PATCH 64/65] fix: position along route of intermediate waypoints

---
 .../Modules/RoadManager/RoadManager.cpp                | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 91eeaab..cc72533 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -14740,11 +14740,11 @@ int Route::AddWaypoint(Position& position)
                         .MoveAlongS(nodes[i - 1]->fromRoad->GetLength() * 0.33, 0.0, 0.0, false, Position::MoveDirectionMode::ROAD_DIRECTION, false);
 
                     double mid_dist = 0.0;
-                    if (all_waypoints_.back().Distance(&connected_pos,
-                                                       CoordinateSystem::CS_ROAD,
-                                                       RelativeDistanceType::REL_DIST_LONGITUDINAL,
-                                                       mid_dist,
-                                                       LARGE_NUMBER) == 0)
+                    if (minimal_waypoints_.back().Distance(&connected_pos,
+                                                           CoordinateSystem::CS_ROAD,
+                                                           RelativeDistanceType::REL_DIST_LONGITUDINAL,
+                                                           mid_dist,
+                                                           LARGE_NUMBER) == 0)
                     {
                         length_mid_acc_ += fabs(mid_dist);
                         connected_pos.SetRouteWaypointS(length_mid_acc_);
-- 
2.43.0


From 57fc596dcabd695aaf3d08dda51afefb9773641f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:24 +0000
Subject: [PATCH 65/65] fix: lane of intermediate route waypoints

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index cc72533..702a942 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -14735,9 +14735,12 @@ int Route::AddWaypoint(Position& position)
                 {
                     // Find out lane ID of the connecting road and add the waypoint at 1/3 of the road length
                     Position connected_pos;
-                    connected_pos.SetLanePos(nodes[i - 1]->fromRoad->GetId(), nodes[i - 1]->fromLaneId, 0.0, 0.0);
-                    connected_pos
-                        .MoveAlongS(nodes[i - 1]->fromRoad->GetLength() * 0.33, 0.0, 0.0, false, Position::MoveDirectionMode::ROAD_DIRECTION, false);
+                    Road*    connected_road = nodes[i - 1]->fromRoad;
+                    double   connected_s    = connected_road->GetLength() * 0.33;
+                    // fromLaneId refers to the end where the path leaves the road, find out the corresponding lane at the waypoint
+                    double s_leave = nodes[i - 1]->contactPoint == ContactPointType::CONTACT_POINT_START ? 0.0 : -1.0;
+                    int    lane_id = connected_road->GetConnectedLaneIdAtS(nodes[i - 1]->fromLaneId, s_leave, connected_s);
+                    connected_pos.SetLanePos(connected_road->GetId(), lane_id != 0 ? lane_id : nodes[i - 1]->fromLaneId, connected_s, 0.0);
 
                     double mid_dist = 0.0;
                     if (minimal_waypoints_.back().Distance(&connected_pos,
-- 
2.43.0

