From 3e8468db8b7ae53969c1bdd386b50b520374be0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:35 +0000
Subject: [PATCH 01/14] Add guarded accessors for out-of-tree verification
 harnesses

---
 Cargo.toml        |  2 ++
 src/link.rs       |  9 +++++++++
 src/simulation.rs | 14 ++++++++++++++
 src/vehicle.rs    | 11 +++++++++++
 4 files changed, 36 insertions(+)

diff --git a/Cargo.toml b/Cargo.toml
index 3e1e218..c2ae5fd 100644
--- a/Cargo.toml
+++ b/Cargo.toml
@@ -25,3 +25,5 @@ arrayvec = "0.7.2"
 [features]
 serde = ["dep:serde", "cgmath/serde"]
 debug = ["serde"]
+# Accessors for the out-of-tree verification harnesses; not part of the public API.
+verif = []
diff --git a/src/link.rs b/src/link.rs
index 6198207..e55b65a 100644
--- a/src/link.rs
+++ b/src/link.rs
@@ -648,3 +648,12 @@ impl<'a> RelativeVehicle<'a> {
         self.vehicle.can_pass(obstacle, link)
     }
 }
+
+#[cfg(feature = "verif")]
+#[doc(hidden)]
+impl Link {
+    /// The vehicles on the link, in order of increasing position.
+    pub fn verif_vehicles(&self) -> &[VehicleId] {
+        &self.vehicles
+    }
+}
diff --git a/src/simulation.rs b/src/simulation.rs
index c46a55f..ccd6e93 100644
--- a/src/simulation.rs
+++ b/src/simulation.rs
@@ -402,3 +402,17 @@ impl Simulation {
         self.links[link_id].insert_vehicle(&self.vehicles, vehicle_id);
     }
 }
+
+#[cfg(feature = "verif")]
+#[doc(hidden)]
+impl Simulation {
+    /// Places a vehicle at a position and velocity along its current link.
+    pub fn verif_set_motion(&mut self, vehicle_id: VehicleId, pos: f64, vel: f64) {
+        let vehicle = &mut self.vehicles[vehicle_id];
+        let link_id = vehicle.link_id().unwrap();
+        self.links[link_id].remove_vehicle(vehicle_id);
+        vehicle.verif_set_motion(pos, vel);
+        vehicle.update_coords(&self.links);
+        self.links[link_id].insert_vehicle(&self.vehicles, vehicle_id);
+    }
+}
diff --git a/src/vehicle.rs b/src/vehicle.rs
index c45277c..3b27d0d 100644
--- a/src/vehicle.rs
+++ b/src/vehicle.rs
@@ -545,3 +545,14 @@ impl Vehicle {
         }
     }
 }
+
+#[cfg(feature = "verif")]
+#[doc(hidden)]
+impl Vehicle {
+    /// Places the vehicle at a position and velocity along its current link.
+    pub(crate) fn verif_set_motion(&mut self, pos: f64, vel: f64) {
+        self.pos = pos;
+        self.vel = vel;
+        self.world_dir = Vector2d::new(0.0, 0.0);
+    }
+}
-- 
2.43.0


From fe3f11463bea751a20150d973ef4daf9fe1dbae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:13:48 +0000
Subject: [PATCH 02/14] fix: keep a traffic light without phases red instead of
 panicking

---
 src/light.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/light.rs b/src/light.rs
index a79a064..1acf468 100644
--- a/src/light.rs
+++ b/src/light.rs
@@ -142,6 +142,10 @@ impl TrafficLight {
 
     /// Applies the current traffic light phase to each movement.
     fn apply_phase(&mut self) {
+        if self.phases.is_empty() {
+            return;
+        }
+
         let Phase { mask, .. } = self.phases[self.phase];
         for (idx, movement) in self.movements.iter_mut().enumerate() {
             movement.active = (mask >> idx) & 1 != 0;
-- 
2.43.0


From f94652f9b93f713439e82971f4f39435c72897e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:40:14 +0000
Subject: [PATCH 03/14] fix: don't brake for a leader that pulls away faster
 than the desired gap

---
 src/vehicle/acceleration.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vehicle/acceleration.rs b/src/vehicle/acceleration.rs
index c3be662..133253c 100644
--- a/src/vehicle/acceleration.rs
+++ b/src/vehicle/acceleration.rs
@@ -141,6 +141,7 @@ impl AccelerationModel {
             let appr = my_vel - their_vel;
             let factor = 1. / (2. * (max_acc * comf_dec).sqrt());
             let ss = MIN_GAP + (my_vel * self.headway) + (my_vel * appr * factor);
+            let ss = f64::max(ss, MIN_GAP); // don't mistake a fast-receding leader for an obstacle
             let term = ss / net_dist;
             max_acc * (1. - (term * term))
         }
-- 
2.43.0


From 9c4da3a033a462796bd806beaf27caa268384be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:19:11 +0000
Subject: [PATCH 04/14] fix: list each drivable route once, lane changes on
 later links included

---
 src/simulation.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/simulation.rs b/src/simulation.rs
index ccd6e93..782df4d 100644
--- a/src/simulation.rs
+++ b/src/simulation.rs
@@ -98,16 +98,15 @@ impl Simulation {
             .values()
             .filter(|link| link.links_in().is_empty());
         srcs.map(|link| link.id()).flat_map(move |src| {
-            let f = self.links[src].reachable_lanes().iter().copied();
             let s = pathfinding::directed::dfs::dfs_reach(src, move |id| {
                 let lanes = self.links[*id].reachable_lanes();
-                lanes.iter().flat_map(move |link_id| {
+                let outs = lanes.iter().flat_map(move |link_id| {
                     let link = &self.links[*link_id];
                     link.links_out().iter().copied()
-                })
+                });
+                lanes.iter().copied().chain(outs)
             });
-            f.chain(s)
-                .filter(|id| self.links[*id].links_out().is_empty())
+            s.filter(|id| self.links[*id].links_out().is_empty())
                 .map(move |dst| (src, dst))
         })
     }
-- 
2.43.0


From 1a0c620a7556d550c82f57282d29749597e99b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:19:11 +0000
Subject: [PATCH 05/14] fix: don't overestimate the reach time of a vehicle
 above the maximum speed

---
 src/vehicle/acceleration.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vehicle/acceleration.rs b/src/vehicle/acceleration.rs
index 133253c..48fb71b 100644
--- a/src/vehicle/acceleration.rs
+++ b/src/vehicle/acceleration.rs
@@ -61,6 +61,7 @@ impl AccelerationModel {
     /// Calculates the time it would take the vehicle to reach the given `pos`
     /// if it maximally accelerated.
     pub fn min_reach_time(&self, vel: f64, dist: f64, max_vel: f64) -> f64 {
+        let max_vel = f64::max(max_vel, vel); // a faster vehicle may keep its speed
         let discr = 2.0 * self.max_acc * dist + vel.powi(2);
         if discr < max_vel.powi(2) {
             (discr.sqrt() - vel) / self.max_acc
-- 
2.43.0


From 51e4704aeb0d1103217e7c7ee9f7e5f5b84b68fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:24:38 +0000
Subject: [PATCH 06/14] Add guarded accessor for the velocity adjustment of a
 vehicle

---
 src/simulation.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/simulation.rs b/src/simulation.rs
index 782df4d..893eade 100644
--- a/src/simulation.rs
+++ b/src/simulation.rs
@@ -414,4 +414,9 @@ impl Simulation {
         vehicle.update_coords(&self.links);
         self.links[link_id].insert_vehicle(&self.vehicles, vehicle_id);
     }
+
+    /// Sets the velocity adjustment factor of a vehicle.
+    pub fn verif_set_velocity_adjust(&mut self, vehicle_id: VehicleId, factor: f64) {
+        self.vehicles[vehicle_id].set_velocity_adjust(factor);
+    }
 }
-- 
2.43.0


From 3dd23a9d937e5c822a41813ef6610dfd7490b4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:59:38 +0000
Subject: [PATCH 07/14] fix: plan paths towards the destination only

A path could lead back to a link passed before, or on past the destination,
and was preferred over the way out when that connection was added first: the
vehicle went round in circles. Links are now ranked by their progress along the
route, and paths only follow connections to a lower rank.
---
 src/vehicle/pathfinding.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/vehicle/pathfinding.rs b/src/vehicle/pathfinding.rs
index cd18bbb..787a77d 100644
--- a/src/vehicle/pathfinding.rs
+++ b/src/vehicle/pathfinding.rs
@@ -14,6 +14,8 @@ pub(crate) struct PathfindingModel {
     dst: LinkId,
     /// A matrix used to determine the desirability of each link.
     matrix: SparseSecondaryMap<LinkId, LaneDists>,
+    /// Ranks the links in the matrix by their progress, lowest at the destination.
+    ranks: SparseSecondaryMap<LinkId, usize>,
     /// The current set of available paths.
     paths: Vec<Path>,
 }
@@ -76,6 +78,7 @@ impl PathfindingModel {
     fn calc_lane_matrix(&mut self, route: &[LinkId], links: &LinkSet) {
         let mut matrix = SparseSecondaryMap::new();
         matrix.insert(self.dst, LaneDists::exit());
+        let mut ranks = SparseSecondaryMap::new();
 
         for link_id in route.iter().rev() {
             let group = links[*link_id].group();
@@ -111,9 +114,18 @@ impl PathfindingModel {
                     }
                 }
             }
+
+            // Rank the links found
+            let rank = ranks.len();
+            for link_id in group_links {
+                if matrix.contains_key(*link_id) && !ranks.contains_key(*link_id) {
+                    ranks.insert(*link_id, rank);
+                }
+            }
         }
 
         self.matrix = matrix;
+        self.ranks = ranks;
     }
 
     fn make_paths(&mut self, links: &LinkSet) {
@@ -151,6 +163,10 @@ impl PathfindingModel {
             let last_idx = path.len();
             path.push(LinkId::null());
             for succ in links[link_id].links_out() {
+                if self.ranks.get(*succ) >= self.ranks.get(link_id) {
+                    // Don't drive in circles or on past the destination
+                    continue;
+                }
                 path[last_idx] = *succ;
                 found |= self.make_paths_inner(links, path, dist);
             }
-- 
2.43.0


From cf20c7694d53a70e443ef6c701efe921df195449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:02:06 +0000
Subject: [PATCH 08/14] fix: let vehicles exit whose destination is the link
 they are on

The permission to exit was only taken over together with a new route, so a
vehicle already on its destination link waited at its end forever.
---
 src/vehicle.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vehicle.rs b/src/vehicle.rs
index 3b27d0d..ab5431b 100644
--- a/src/vehicle.rs
+++ b/src/vehicle.rs
@@ -413,7 +413,9 @@ impl Vehicle {
             .paths()
             .iter()
             .min_by_key(|path| self.evaluate_path(path, links))
-            .filter(|path| !path.links.iter().eq(&self.route))
+            .filter(|path| {
+                path.can_exit != self.can_exit || !path.links.iter().eq(&self.route)
+            })
     }
 
     /// Evaluates the desirability of being on a given path,
-- 
2.43.0


From 6cad082afc350101fc291b3a3c1401a6094bc234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:28:27 +0000
Subject: [PATCH 09/14] fix: look up the projection onto lanes further right

The projections of a lane leave out the lane itself, so those onto lanes further
to the right are stored one place earlier. The lane choice used the projection onto a
different lane.
---
 src/group.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/group.rs b/src/group.rs
index 642a2ad..155a02a 100644
--- a/src/group.rs
+++ b/src/group.rs
@@ -91,6 +91,8 @@ impl LinkGroup {
     pub(crate) fn projection(&self, src: LinkId, dst: LinkId) -> &LinkProjection {
         let src_idx = self.find_link(src).expect("Link is not in group.");
         let dst_idx = self.find_link(dst).expect("Link is not in group.");
+        // There is no projection of a link onto itself
+        let dst_idx = if dst_idx > src_idx { dst_idx - 1 } else { dst_idx };
         let n = self.links.len() - 1;
         &self.projections[(n * src_idx) + dst_idx]
     }
-- 
2.43.0


From 1638078b7fb4fed40fa3a5e6aa815a1834bfa5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:36:59 +0000
Subject: [PATCH 10/14] fix: do not count the approach twice when looking for a
 gap

A vehicle waiting to enter a link estimated the time it needs to clear the
conflict area with the length of its current link added twice, so it let gaps
pass that were many times longer than needed.
---
 src/link.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/link.rs b/src/link.rs
index e55b65a..169a67f 100644
--- a/src/link.rs
+++ b/src/link.rs
@@ -269,7 +269,7 @@ impl Link {
                             if links[link_id].can_enter(
                                 links,
                                 vehicles,
-                                &vehicle.offset(self.length()),
+                                &vehicle,
                                 frame,
                                 priority,
                             ) {
-- 
2.43.0


From a8fdf2a255e680c0176de78fdf915fdac2f43d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:30:05 +0000
Subject: [PATCH 11/14] fix: do not report intersections beyond the ends of a
 curve

---
 src/math/curve/algorithms.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/math/curve/algorithms.rs b/src/math/curve/algorithms.rs
index d8d8d46..508fd17 100644
--- a/src/math/curve/algorithms.rs
+++ b/src/math/curve/algorithms.rs
@@ -44,7 +44,9 @@ pub fn intersect_curves(
     let mut pos2 = None;
     while pos1 < curve1.bounds().max {
         let point1 = curve1.sample(pos1);
-        pos2 = project_point_onto_curve(curve2, point1, 0.1, pos2);
+        // A projection beyond the ends is not on the curve
+        pos2 = project_point_onto_curve(curve2, point1, 0.1, pos2)
+            .map(|t| t.max(curve2.bounds().min).min(curve2.bounds().max));
         if let Some(pos2) = pos2 {
             let point2 = curve2.sample(pos2);
             let distance = point1.distance(point2);
-- 
2.43.0


From 90a2ec67dd85a53d92f327a37c03914659123151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:55:03 +0000
Subject: [PATCH 12/14] fix: plan ahead from the end of the current link

---
 src/vehicle/pathfinding.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vehicle/pathfinding.rs b/src/vehicle/pathfinding.rs
index 787a77d..3358d90 100644
--- a/src/vehicle/pathfinding.rs
+++ b/src/vehicle/pathfinding.rs
@@ -157,7 +157,7 @@ impl PathfindingModel {
 
         let mut found = false;
 
-        if !path.is_full() && dist < PLAN_DIST {
+        if !path.is_full() && dist < PLAN_DIST + links[path[0]].length() {
             let link = &links[link_id];
             let dist = dist + link.length();
             let last_idx = path.len();
-- 
2.43.0


From 272991c3f085f467ba3833c423b79b99179a661f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:13:56 +0000
Subject: [PATCH 13/14] fix: keep the route when changing lanes on request

---
 src/simulation.rs | 5 +++++
 src/vehicle.rs    | 7 ++-----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/simulation.rs b/src/simulation.rs
index 893eade..8ec880e 100644
--- a/src/simulation.rs
+++ b/src/simulation.rs
@@ -397,6 +397,11 @@ impl Simulation {
         };
         vehicle.set_location(link_id, pos, Some(lane_change), &self.links);
 
+        // Go on to the vehicle's destination from there
+        if let Some(path) = vehicle.choose_path(&self.links).cloned() {
+            vehicle.set_path(&path);
+        }
+
         // Add the vehicle to the new link
         self.links[link_id].insert_vehicle(&self.vehicles, vehicle_id);
     }
diff --git a/src/vehicle.rs b/src/vehicle.rs
index ab5431b..614b1fe 100644
--- a/src/vehicle.rs
+++ b/src/vehicle.rs
@@ -404,14 +404,11 @@ impl Vehicle {
     /// Evaluates the available paths and chooses the best, which may involve a lane change.
     /// If the path the vehicle is currently on is the best, then `None` is returned.
     pub(crate) fn choose_path(&self, links: &LinkSet) -> Option<&Path> {
-        if self.lane_change.is_some() {
-            // Don't lane change while already lane changing
-            return None;
-        }
-
         self.pathfind
             .paths()
             .iter()
+            // Don't lane change while already lane changing
+            .filter(|path| self.lane_change.is_none() || path.links[0] == self.route[0])
             .min_by_key(|path| self.evaluate_path(path, links))
             .filter(|path| {
                 path.can_exit != self.can_exit || !path.links.iter().eq(&self.route)
-- 
2.43.0


From 550b80e725c464a361e6b6d421657a91e26dccac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:42:01 +0000
Subject: [PATCH 14/14] fix: pass several short links in one step

---
 src/simulation.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simulation.rs b/src/simulation.rs
index 8ec880e..1b925d7 100644
--- a/src/simulation.rs
+++ b/src/simulation.rs
@@ -346,6 +346,9 @@ impl Simulation {
             let did_advance = vehicle.advance(&self.links);
 
             if did_advance {
+                // The links after it may be shorter than the distance travelled
+                while vehicle.advance(&self.links) {}
+
                 self.links[link_id].remove_vehicle(vehicle_id);
                 if let Some(link_id) = vehicle.link_id() {
                     // Vehicle is now on a new link
-- 
2.43.0

