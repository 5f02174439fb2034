From 6cf19f7640ec6e3bccfe9e4cda8aae8e1dc9c598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:32 +0000
Subject: [PATCH 01/58] fix: box intersections of trajectories through edges
 and corners

A trajectory which passes exactly through an edge or corner was counted once
per adjacent face, or by no face at all due to rounding, so that a box
crossed by the particle was reported as missed or as left where it is entered.
---
 src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx | 216 ++----------------
 1 file changed, 25 insertions(+), 191 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx
index 6000455..d3e3cc3 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx
@@ -1,6 +1,8 @@
 
+#include <algorithm>
+#include <array>
 #include <cmath>
-#include <vector>
+#include <limits>
 
 #include "PROPOSAL/Constants.h"
 #include "PROPOSAL/Logging.h"
@@ -63,208 +65,40 @@ void Box::print(std::ostream& os) const
 std::pair<double, double> Box::DistanceToBorder(const Vector3D& position, const Vector3D& direction) const
 {
     // Calculate intersection of particle trajectory and the box
-    // Surface of the box is defined by six planes:
-    // E1: x1   =   pos_vec.GetX() + 0.5*x
-    // E2: x1   =   pos_vec.GetX() - 0.5*x
-    // E3: x2   =   pos_vec.GetY() + 0.5*y
-    // E4: x2   =   pos_vec.GetY() - 0.5*y
-    // E5: x3   =   pos_vec.GetZ() + 0.5*z
-    // E6: x3   =   pos_vec.GetZ() - 0.5*z
+    // The box is the overlap of three slabs, one for each axis:
+    // pos_vec - 0.5*(x,y,z) <= point <= pos_vec + 0.5*(x,y,z)
     // straight line (particle trajectory) g = vec(x,y,z) + t * dir_vec( cosph
     // *sinth, sinph *sinth , costh)
-    // We are only interested in postive values of t
-    // ( we want to find the intersection in direction of the particle
-    // trajectory)
+    // The trajectory is inside the box while it is inside all three slabs.
+    // This includes trajectories which pass through an edge or a corner.
+    // A trajectory which only touches the box has no intersection.
 
     auto dir_vec = Cartesian3D(direction);
     auto pos_vec = Cartesian3D(position);
 
-    std::pair<double, double> distance;
-    double t;
-    double intersection_x;
-    double intersection_y;
-    double intersection_z;
+    const std::array<double, 3> length = { x_, y_, z_ };
 
-    std::vector<double> dist;
+    double t_enter = -std::numeric_limits<double>::infinity();
+    double t_leave = std::numeric_limits<double>::infinity();
 
-    double x_calc_pos = position_.GetX() + 0.5 * x_;
-    double x_calc_neg = position_.GetX() - 0.5 * x_;
-    double y_calc_pos = position_.GetY() + 0.5 * y_;
-    double y_calc_neg = position_.GetY() - 0.5 * y_;
-    double z_calc_pos = position_.GetZ() + 0.5 * z_;
-    double z_calc_neg = position_.GetZ() - 0.5 * z_;
+    for (size_t i = 0; i < 3; i++) {
+        double calc_pos = position_[i] + 0.5 * length[i];
+        double calc_neg = position_[i] - 0.5 * length[i];
 
-    // intersection with E1
-    if (dir_vec.GetX() != 0) // if dir_vec == 0 particle trajectory is parallel to E1
-    {
-        t = (x_calc_pos - pos_vec.GetX()) / dir_vec.GetX();
-
-        // Computer precision controll
-        if (t > 0 && t < GEOMETRY_PRECISION)
-            t = 0;
-
-        if (t > 0) // Interection is in particle trajectory direction
-        {
-            // Check if intersection is inside the box borders
-            intersection_y = pos_vec.GetY() + t * dir_vec.GetY();
-            intersection_z = pos_vec.GetZ() + t * dir_vec.GetZ();
-            if (intersection_y >= y_calc_neg && intersection_y <= y_calc_pos && intersection_z >= z_calc_neg &&
-                intersection_z <= z_calc_pos)
-            {
-                dist.push_back(t);
-            }
-        }
-    }
-
-    // intersection with E2
-    if (dir_vec.GetX() != 0) // if dir_vec == 0 particle trajectory is parallel to E2
-    {
-        t = (x_calc_neg - pos_vec.GetX()) / dir_vec.GetX();
-
-        // Computer precision controll
-        if (t > 0 && t < GEOMETRY_PRECISION)
-            t = 0;
-
-        if (t > 0) // Interection is in particle trajectory direction
-        {
-            // Check if intersection is inside the box borders
-            intersection_y = pos_vec.GetY() + t * dir_vec.GetY();
-            intersection_z = pos_vec.GetZ() + t * dir_vec.GetZ();
-            if (intersection_y >= y_calc_neg && intersection_y <= y_calc_pos && intersection_z >= z_calc_neg &&
-                intersection_z <= z_calc_pos)
-            {
-                dist.push_back(t);
-            }
-        }
-    }
-
-    // intersection with E3
-    if (dir_vec.GetY() != 0) // if dir_vec == 0 particle trajectory is parallel to E3
-    {
-        t = (y_calc_pos - pos_vec.GetY()) / dir_vec.GetY();
-
-        // Computer precision controll
-        if (t > 0 && t < GEOMETRY_PRECISION)
-            t = 0;
-
-        if (t > 0) // Interection is in particle trajectory direction
-        {
-            // Check if intersection is inside the box borders
-            intersection_x = pos_vec.GetX() + t * dir_vec.GetX();
-            intersection_z = pos_vec.GetZ() + t * dir_vec.GetZ();
-            if (intersection_x >= x_calc_neg && intersection_x <= x_calc_pos && intersection_z >= z_calc_neg &&
-                intersection_z <= z_calc_pos)
-            {
-                dist.push_back(t);
-            }
-        }
-    }
-
-    // intersection with E4
-    if (dir_vec.GetY() != 0) // if dir_vec == 0 particle trajectory is parallel to E4
-    {
-        t = (y_calc_neg - pos_vec.GetY()) / dir_vec.GetY();
-
-        // Computer precision controll
-        if (t > 0 && t < GEOMETRY_PRECISION)
-            t = 0;
-
-        if (t > 0) // Interection is in particle trajectory direction
-        {
-            // Check if intersection is inside the box borders
-            intersection_x = pos_vec.GetX() + t * dir_vec.GetX();
-            intersection_z = pos_vec.GetZ() + t * dir_vec.GetZ();
-            if (intersection_x >= x_calc_neg && intersection_x <= x_calc_pos && intersection_z >= z_calc_neg &&
-                intersection_z <= z_calc_pos)
-            {
-                dist.push_back(t);
-            }
-        }
-    }
-
-    // intersection with E5
-    if (dir_vec.GetZ() != 0) // if dir_vec == 0 particle trajectory is parallel to E5
-    {
-        t = (z_calc_pos - pos_vec.GetZ()) / dir_vec.GetZ();
-
-        // Computer precision controll
-        if (t > 0 && t < GEOMETRY_PRECISION)
-            t = 0;
-
-        if (t > 0) // Interection is in particle trajectory direction
-        {
-            // Check if intersection is inside the box borders
-            intersection_x = pos_vec.GetX() + t * dir_vec.GetX();
-            intersection_y = pos_vec.GetY() + t * dir_vec.GetY();
-            if (intersection_x >= x_calc_neg && intersection_x <= x_calc_pos && intersection_y >= y_calc_neg &&
-                intersection_y <= y_calc_pos)
-            {
-                dist.push_back(t);
-            }
-        }
-    }
-
-    // intersection with E6
-    if (dir_vec.GetZ() != 0) // if dir_vec == 0 particle trajectory is parallel to E6
-    {
-        t = (z_calc_neg - pos_vec.GetZ()) / dir_vec.GetZ();
-
-        // Computer precision controll
-        if (t > 0 && t < GEOMETRY_PRECISION)
-            t = 0;
-
-        if (t > 0) // Interection is in particle trajectory direction
-        {
-            // Check if intersection is inside the box borders
-            intersection_x = pos_vec.GetX() + t * dir_vec.GetX();
-            intersection_y = pos_vec.GetY() + t * dir_vec.GetY();
-            if (intersection_x >= x_calc_neg && intersection_x <= x_calc_pos && intersection_y >= y_calc_neg &&
-                intersection_y <= y_calc_pos)
-            {
-                dist.push_back(t);
-            }
+        if (dir_vec[i] != 0) {
+            double t_neg = (calc_neg - pos_vec[i]) / dir_vec[i];
+            double t_pos = (calc_pos - pos_vec[i]) / dir_vec[i];
+            t_enter = std::max(t_enter, std::min(t_neg, t_pos));
+            t_leave = std::min(t_leave, std::max(t_neg, t_pos));
+        } else if (pos_vec[i] < calc_neg || pos_vec[i] > calc_pos) {
+            // particle trajectory is parallel to the slab and outside of it
+            return { -1, -1 };
         }
     }
 
-    if (dist.size() < 1) // No intersection with the box
-    {
-        distance.first  = -1;
-        distance.second = -1;
-    } else if (dist.size() == 1) // Particle is inside the box and we have one
-                                 // intersection in direction of the particle
-                                 // trajectory
-    {
-        distance.first  = dist.at(0);
-        distance.second = -1;
-    } else if (dist.size() == 2) // Particle is outside and the box is infront
-                                 // of the particle trajectory ( two
-                                 // intersections).
-    {
-        if (dist.at(0) == dist.at(1)) {
-            // Both distances are equal, this means he have hit an edge of the box
-            distance.first = dist.at(0);
-            distance.second = -1;
-        }
-        distance.first  = dist.at(0);
-        distance.second = dist.at(1);
-        if (distance.second < distance.first)
-        {
-            std::swap(distance.first, distance.second);
-        }
-
-    } else if (dist.size() == 3 && dist.at(0) == dist.at(1) && dist.at(1) == dist.at(2))
-    {
-        // We have three intersections, all of them are equal, this means we
-        // hit an corner of the box
-        distance.first = dist.at(0);
-        distance.second = -1;
-    } else
-    {
-        Logging::Get("proposal.geometry")->error("This point should never be reached... (-1/-1) is returned");
-
-        distance.first  = -1;
-        distance.second = -1;
-    }
+    std::pair<double, double> distance(-1, -1);
+    if (t_enter < t_leave)
+        distance = { t_enter, t_leave };
 
     // Make a computer precision controll!
     // This is necessary cause due to numerical effects it meight be happen
-- 
2.43.0


From 70da1e5dad94b9cb53b60080e3284c8f9147515e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:32 +0000
Subject: [PATCH 02/58] fix: order and completeness of cylinder intersections

A particle entering a hollow cylinder through the hole got the distance to the
outer border before the distance to the inner one, and trajectories crossing
the rim between barrel and cap could be reported as not intersecting at all.
---
 .../detail/PROPOSAL/geometry/Cylinder.cxx     | 470 ++----------------
 1 file changed, 55 insertions(+), 415 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
index 6a5a27c..02186b7 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
@@ -1,6 +1,7 @@
 
+#include <algorithm>
 #include <cmath>
-#include <vector>
+#include <limits>
 
 #include "PROPOSAL/Constants.h"
 #include "PROPOSAL/Logging.h"
@@ -86,420 +87,60 @@ std::pair<double, double> Cylinder::DistanceToBorder(const Vector3D& position, c
     // ( dist_1 / -1 ) particle is inside the cylinder or on border and moving
     // inside
 
-    double A, B, C, t1, t2, t;
     auto dir_vec = Cartesian3D(direction);
     auto pos_vec = Cartesian3D(position);
 
-    double determinant;
-
-    double intersection_x;
-    double intersection_y;
-    double intersection_z;
-
-    std::vector<double> dist;
-
-    std::pair<double, double> distance;
+    constexpr double infinity = std::numeric_limits<double>::infinity();
+    using interval = std::pair<double, double>;
 
+    // part of the trajectory between bottom and top surface
+    interval slab(-infinity, infinity);
     double z_calc_pos = position_.GetZ() + 0.5 * z_;
     double z_calc_neg = position_.GetZ() - 0.5 * z_;
-
-    if (!(dir_vec.GetX() == 0 && dir_vec.GetY() == 0)) // Otherwise the particle
-                                             // trajectory is parallel to
-                                             // cylinder barrel
-    {
-
-        A = std::pow((pos_vec.GetX() - position_.GetX()), 2) +
-            std::pow((pos_vec.GetY() - position_.GetY()), 2) -
-            radius_*radius_;
-
-        B = 2 * ((pos_vec.GetX() - position_.GetX()) * dir_vec.GetX() + (pos_vec.GetY() - position_.GetY()) * dir_vec.GetY());
-
-        C = dir_vec.GetX() * dir_vec.GetX() + dir_vec.GetY() * dir_vec.GetY();
-
-        B /= C;
-        A /= C;
-
-        determinant = 0.25 * B*B - A;
-
-        if (determinant > 0) // determinant == 0 (boundery point) is ignored
-        {
-            t1 = -1 * B / 2 + std::sqrt(determinant);
-            t2 = -1 * B / 2 - std::sqrt(determinant);
-
-            // Computer precision controll
-            if (t1 > 0 && t1 < GEOMETRY_PRECISION)
-                t1 = 0;
-            if (t2 > 0 && t2 < GEOMETRY_PRECISION)
-                t2 = 0;
-
-            if (t1 > 0)
-            {
-                intersection_z = pos_vec.GetZ() + t1 * dir_vec.GetZ();
-                // is inside the borders
-                if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                {
-                    dist.push_back(t1);
-                }
-            }
-
-            if (t2 > 0)
-            {
-                intersection_z = pos_vec.GetZ() + t2 * dir_vec.GetZ();
-                // is inside the borders
-                if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                {
-                    dist.push_back(t2);
-                }
-            }
-        }
+    if (dir_vec.GetZ() != 0) {
+        slab.first  = (z_calc_neg - pos_vec.GetZ()) / dir_vec.GetZ();
+        slab.second = (z_calc_pos - pos_vec.GetZ()) / dir_vec.GetZ();
+        if (slab.second < slab.first)
+            std::swap(slab.first, slab.second);
+    } else if (pos_vec.GetZ() <= z_calc_neg || pos_vec.GetZ() >= z_calc_pos) {
+        return { -1, -1 };
     }
 
-    // if we have found already to intersections we don't have to check for
-    // intersections
-    // with top or bottom surface
-    if (dist.size() < 2)
-    {
-        // intersection with E1
-        if (dir_vec.GetZ() != 0) // if dir_vec == 0 particle trajectory is parallel
-                            // to E1 (Should not happen)
-        {
-            t = (z_calc_pos - pos_vec.GetZ()) / dir_vec.GetZ();
-            // Computer precision controll
-            if (t > 0 && t < GEOMETRY_PRECISION)
-                t = 0;
-
-            if (t > 0) // Interection is in particle trajectory direction
-            {
-                intersection_x = pos_vec.GetX() + t * dir_vec.GetX();
-                intersection_y = pos_vec.GetY() + t * dir_vec.GetY();
-
-                if (std::sqrt(std::pow((intersection_x - position_.GetX()), 2) +
-                    std::pow((intersection_y - position_.GetY()), 2)) <=
-                        radius_ &&
-                    std::sqrt(std::pow((intersection_x - position_.GetX()), 2) +
-                    std::pow((intersection_y - position_.GetY()), 2)) >=
-                        inner_radius_)
-                {
-                    dist.push_back(t);
-                }
-            }
+    // part of the trajectory inside of an (infinitely long) barrel and between
+    // bottom and top surface. An empty interval if there is none.
+    // determinant == 0 (boundery point) is ignored
+    double diff_x = pos_vec.GetX() - position_.GetX();
+    double diff_y = pos_vec.GetY() - position_.GetY();
+    double C = dir_vec.GetX() * dir_vec.GetX() + dir_vec.GetY() * dir_vec.GetY();
+    auto inside_barrel = [&](double radius, bool including_border) -> interval {
+        double A = diff_x * diff_x + diff_y * diff_y - radius * radius;
+        if (C == 0) { // particle trajectory is parallel to cylinder barrel
+            if (A < 0 || (including_border && A == 0))
+                return slab;
+            return { infinity, infinity };
         }
-
-        // intersection with E2
-        if (dir_vec.GetZ() != 0) // if dir_vec == 0 particle trajectory is parallel
-                            // to E2 (Should not happen)
-        {
-            t = (z_calc_neg - pos_vec.GetZ()) / dir_vec.GetZ();
-
-            // Computer precision controll
-            if (t > 0 && t < GEOMETRY_PRECISION)
-                t = 0;
-
-            if (t > 0) // Interection is in particle trajectory direction
-            {
-                intersection_x = pos_vec.GetX() + t * dir_vec.GetX();
-                intersection_y = pos_vec.GetY() + t * dir_vec.GetY();
-
-                if (std::sqrt(std::pow((intersection_x - position_.GetX()), 2) +
-                    std::pow((intersection_y - position_.GetY()), 2)) <=
-                        radius_ &&
-                    std::sqrt(std::pow((intersection_x - position_.GetX()), 2) +
-                    std::pow((intersection_y - position_.GetY()), 2)) >=
-                        inner_radius_)
-                {
-                    dist.push_back(t);
-                }
-            }
-        }
-    }
-    // No intersection with the outer cylinder
-    if (dist.size() < 1)
-    {
-        distance.first  = -1;
-        distance.second = -1;
-        //    return distance;
-    } else if (dist.size() == 1) // particle is inside the cylinder
-    {
-        distance.first  = dist.at(0);
-        distance.second = -1;
-
-    } else if (dist.size() == 2) // cylinder is infront of the particle
-    {
-        distance.first  = dist.at(0);
-        distance.second = dist.at(1);
-
-        if (distance.second < distance.first)
-        {
-            std::swap(distance.first, distance.second);
-        }
-
-    } else
-    {
-        Logging::Get("proposal.geometry")->error("This point should never be reached");
-    }
-    // This cylinder might be hollow and we have to check if the inner border is
-    // reached before.
-    // So we caluculate the intersection with the inner cylinder.
-
-    if (inner_radius_ > 0)
-    {
-        if (!(dir_vec.GetX() == 0 && dir_vec.GetY() == 0))
-        {
-
-            A = std::pow((pos_vec.GetX() - position_.GetX()), 2) +
-                std::pow((pos_vec.GetY() - position_.GetY()), 2) -
-                inner_radius_*inner_radius_;
-
-            B = 2 *
-                ((pos_vec.GetX() - position_.GetX()) * dir_vec.GetX() + (pos_vec.GetY() - position_.GetY()) * dir_vec.GetY());
-
-            C = dir_vec.GetX() * dir_vec.GetX() + dir_vec.GetY() * dir_vec.GetY();
-
-            B /= C;
-            A /= C;
-
-            determinant = 0.25 * B*B - A;
-
-            if (determinant > 0) // determinant == 0 (boundery point) is ignored
-            {
-                t1 = -1 * B / 2 + std::sqrt(determinant);
-                t2 = -1 * B / 2 - std::sqrt(determinant);
-
-                // Computer precision controll
-                if (t1 > 0 && t1 < GEOMETRY_PRECISION)
-                    t1 = 0;
-                if (t2 > 0 && t2 < GEOMETRY_PRECISION)
-                    t2 = 0;
-
-                // Ok we have a intersection with the inner cylinder
-
-                // If distance.first and distance.second are positive this means
-                // the cylinder is infornt of the particle. So the first
-                // distance
-                // ( intersection with the outer border) does not change
-                // but the second distance has to be updated (intersection with
-                // the inner border)
-                if (distance.first > 0 && distance.second > 0)
-                {
-                    if (t1 > 0)
-                    {
-                        intersection_z = pos_vec.GetZ() + t1 * dir_vec.GetZ();
-                        // is inside the borders
-                        if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                        {
-                            if (t1 < distance.second)
-                                distance.second = t1;
-                        }
-                    }
-
-                    if (t2 > 0)
-                    {
-                        intersection_z = pos_vec.GetZ() + t2 * dir_vec.GetZ();
-                        // is inside the borders
-                        if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                        {
-                            if (t2 < distance.second)
-                                distance.second = t2;
-                        }
-                    }
-                }
-                // The particle trajectory hits the inner cylinder first
-                // (particle flys through the hole and hits inner cylinder
-                // barrel first)
-                //  ___  ^     ___
-                // |   |  \   |   |
-                // |   |   \  |   |
-                // |   |    \ |   |
-                // |   |     \|   |
-                // |   |      *   |
-                // |   |      |\  |
-                // |   |      | x |
-                // |   |      |   |
-                // |___|      |___|
-                else if (distance.first < 0 && distance.second < 0)
-                {
-                    if (t1 > 0)
-                    {
-                        intersection_z = pos_vec.GetZ() + t1 * dir_vec.GetZ();
-                        // is inside the borders
-                        if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                        {
-                            distance.first = t1;
-                        }
-                    }
-                    if (t2 > 0)
-                    {
-                        intersection_z = pos_vec.GetZ() + t2 * dir_vec.GetZ();
-                        // is inside the borders
-                        if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                        {
-                            distance.first = t2;
-                        }
-                    }
-                }
-                // The particle is inside the outer cylinder
-                // or particle hits bottom or top surface and then hits
-                // the inner cylinder barrel
-                else
-                {
-                    // The inner cylinder is infront of the particle trajectory
-                    // distance.first has to be updated
-                    if (t1 > 0 && t2 > 0)
-                    {
-                        //  _____        _____
-                        // |     |      |     |
-                        // |     |      |     |
-                        // |     |      |     |
-                        // |     |      |     |
-                        // |     |      |     |
-                        // | x---*----->|     |
-                        // |     |      |     |
-                        // |     |      |     |
-                        // |_____|      |_____|
-                        //
-                        if (pos_vec.GetZ() >= z_calc_neg && pos_vec.GetZ() <= z_calc_pos &&
-                            std::sqrt(std::pow((pos_vec.GetX() - position_.GetX()), 2) +
-                            std::pow((pos_vec.GetY() - position_.GetY()), 2)) <=
-                                radius_ + GEOMETRY_PRECISION &&
-                            std::sqrt(std::pow((pos_vec.GetX() - position_.GetX()), 2) +
-                            std::pow((pos_vec.GetY() - position_.GetY()), 2)) >=
-                                inner_radius_ - GEOMETRY_PRECISION)
-                        {
-                            if (t1 < distance.first)
-                            {
-                                intersection_z = pos_vec.GetZ() + t1 * dir_vec.GetZ();
-                                // is inside the borders
-                                if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                                {
-                                    // This case means particle is inside in
-                                    // hits
-                                    // inner cylinder first
-                                    distance.first = t1;
-                                }
-                            }
-                            if (t2 < distance.first)
-                            {
-                                intersection_z = pos_vec.GetZ() + t2 * dir_vec.GetZ();
-                                // is inside the borders
-                                if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                                {
-                                    // This case means particle is inside in
-                                    // hits
-                                    // inner cylinder first
-                                    distance.first = t2;
-                                }
-                            }
-                        }
-                        //               ^
-                        //  _____       / _____
-                        // |     |     / |     |
-                        // |     |    /  |     |
-                        // |     |   /   |     |
-                        // |     |  /    |     |
-                        // |     | /     |     |
-                        // |     |/      |     |
-                        // |     *       |     |
-                        // |    /|       |     |
-                        // |___/_|       |_____|
-                        //    *
-                        //   x
-                        else
-                        {
-                            intersection_z = pos_vec.GetZ() + t1 * dir_vec.GetZ();
-                            // is inside the borders
-                            if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                            {
-                                // This case means particle is inside in hits
-                                // inner cylinder first
-                                distance.second = t1;
-                            }
-
-                            if (distance.second < 0)
-                            {
-                                intersection_z = pos_vec.GetZ() + t2 * dir_vec.GetZ();
-                                // is inside the borders
-                                if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                                {
-                                    // This case means particle is inside in
-                                    // hits
-                                    // inner cylinder first
-                                    distance.second = t2;
-                                }
-                            }
-                        }
-                    }
-                    // The particle is inside the inner cylinder
-                    // this means distance.second becomes distanc.first
-                    // and distance.first beomces distance to intersection with
-                    // the inner cylinder in direction of the particle
-                    // trajectory
-                    //  _____        _____
-                    // |     |      |     |
-                    // |     |      |     |
-                    // |     |      |     |
-                    // |     |      |     |
-                    // |     |      |     |
-                    // |     |  x---*-----*------->
-                    // |     |      |     |
-                    // |     |      |     |
-                    // |_____|      |_____|
-                    //
-                    if ((t1 > 0 && t2 < 0) || (t2 > 0 && t1 < 0))
-                    {
-                        if (t1 > 0)
-                        {
-                            intersection_z = pos_vec.GetZ() + t1 * dir_vec.GetZ();
-                            // is inside the borders
-                            if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                            {
-                                std::swap(distance.first, distance.second);
-                                distance.first = t1;
-                            }
-                        } else
-                        {
-                            intersection_z = pos_vec.GetZ() + t2 * dir_vec.GetZ();
-                            // is inside the borders
-                            if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                            {
-                                std::swap(distance.first, distance.second);
-                                distance.first = t2;
-                            }
-                        }
-                    }
-                    // Now we have to check if the particle is on the border of
-                    // the inner sphere
-                    if (t1 == 0)
-                    {
-                        // The particle is moving into the inner cylinder
-                        if (t2 > 0)
-                        {
-                            intersection_z = pos_vec.GetZ() + t2 * dir_vec.GetZ();
-                            // is inside the borders
-                            if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                            {
-                                std::swap(distance.first, distance.second);
-                                distance.first = t2;
-                            }
-                        }
-                        // if not we don't have to update distance.first
-                    }
-                    if (t2 == 0)
-                    {
-                        // The particle is moving into the inner sphere
-                        if (t1 > 0)
-                        {
-                            intersection_z = pos_vec.GetZ() + t1 * dir_vec.GetZ();
-                            // is inside the borders
-                            if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                            {
-                                std::swap(distance.first, distance.second);
-                                distance.first = t1;
-                            }
-                        }
-                        // if not we don't have to update distance.first
-                    }
-                }
-            }
+        A /= C;
+        double B = (diff_x * dir_vec.GetX() + diff_y * dir_vec.GetY()) / C;
+        double determinant = B * B - A;
+        if (determinant <= 0)
+            return { infinity, infinity };
+        double t1 = -B - std::sqrt(determinant);
+        double t2 = -B + std::sqrt(determinant);
+        return { std::max(t1, slab.first), std::min(t2, slab.second) };
+    };
+
+    auto outer = inside_barrel(radius_, true);
+    if (!(outer.first < outer.second))
+        return { -1, -1 };
+
+    // The trajectory can be cut in two parts if the cylinder is hollow
+    interval before = outer;
+    interval after(infinity, infinity);
+    if (inner_radius_ > 0) {
+        auto hole = inside_barrel(inner_radius_, false);
+        if (hole.first < hole.second) {
+            before.second = hole.first;
+            after = { hole.second, outer.second };
         }
     }
 
@@ -508,13 +149,12 @@ std::pair<double, double> Cylinder::DistanceToBorder(const Vector3D& position, c
     // that a particle which is located on a gemoetry border is treated as
     // inside
     // or outside
-
-    if (distance.first < GEOMETRY_PRECISION)
-        distance.first = -1;
-    if (distance.second < GEOMETRY_PRECISION)
-        distance.second = -1;
-    if (distance.first < 0)
-        std::swap(distance.first, distance.second);
-
-    return distance;
+    for (auto const& part : { before, after }) {
+        if (!(part.first < part.second) || part.second < GEOMETRY_PRECISION)
+            continue;
+        if (part.first < GEOMETRY_PRECISION)
+            return { part.second, -1 };
+        return part;
+    }
+    return { -1, -1 };
 }
-- 
2.43.0


From a41f85b09bfc6f88366dda6dd7cb800d245837b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:12 +0000
Subject: [PATCH 03/58] fix: read fractional inner radius and reject malformed
 cylinders from config

The inner radius was read as an integer, so fractions were dropped and large
values overflowed. Cylinder descriptions were only checked by assertions.
---
 .../detail/PROPOSAL/geometry/Cylinder.cxx        | 16 +++++++++-------
 src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx |  2 +-
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
index 02186b7..3647967 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
@@ -32,17 +32,19 @@ Cylinder::Cylinder(const Vector3D& position, double z, double radius, double inn
 Cylinder::Cylinder(const nlohmann::json& config)
     : Geometry(config)
 {
-    assert(config["outer_radius"].is_number());
-    assert(config["height"].is_number());
-
+    if(!config.at("outer_radius").is_number())
+        throw std::invalid_argument("Outer radius is not a number.");
+    if(!config.at("height").is_number())
+        throw std::invalid_argument("Height is not a number.");
 
     radius_ = config["outer_radius"].get<double>();
-    inner_radius_ = config.value("inner_radius", 0);
+    inner_radius_ = config.value("inner_radius", 0.);
     z_ = config["height"].get<double>();
 
-    assert(inner_radius_>=0);
-    assert(radius_>inner_radius_);
-    assert(z_>0);
+    if(inner_radius_ < 0) throw std::logic_error("inner radius must be >= 0");
+    if(radius_ < inner_radius_)
+        throw std::logic_error("radius must be larger than inner radius");
+    if(z_ < 0) throw std::logic_error("height must be > 0");
 }
 
 bool Cylinder::compare(const Geometry& geometry) const
diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx
index 37a9d50..8210cff 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx
@@ -33,7 +33,7 @@ Sphere::Sphere(const nlohmann::json& config)
 
     config["outer_radius"].get_to(radius_);
 
-    inner_radius_ = config.value("inner_radius", 0);
+    inner_radius_ = config.value("inner_radius", 0.);
     if(inner_radius_ < 0) throw std::logic_error("inner radius must be >= 0");
     if(radius_ < inner_radius_)
        throw std::logic_error("radius must be larger than inner radius");
-- 
2.43.0


From 572ba63b1be962e3b4c34f5b1cea41ff9badcc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:21 +0000
Subject: [PATCH 04/58] fix: Polynom owns its coefficients (dangling copies,
 overflow in shift, JSON constructor)

---
 src/PROPOSAL/PROPOSAL/math/Function.h         |  4 +--
 .../detail/PROPOSAL/math/Function.cxx         | 32 ++++++++-----------
 2 files changed, 16 insertions(+), 20 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/math/Function.h b/src/PROPOSAL/PROPOSAL/math/Function.h
index b2aefe5..02aecd7 100644
--- a/src/PROPOSAL/PROPOSAL/math/Function.h
+++ b/src/PROPOSAL/PROPOSAL/math/Function.h
@@ -43,7 +43,7 @@ class Polynom {
    public:
     Polynom(std::vector<double> coefficients);
     Polynom(const nlohmann::json&);
-    Polynom(const Polynom&);
+    Polynom(const Polynom&) = default;
 
     ~Polynom() {};
     Polynom& operator=(const Polynom& poly) = default;
@@ -66,7 +66,7 @@ class Polynom {
 
    protected:
     int N_;
-    double* coeff_;
+    std::vector<double> coeff_;
 };
 
 }  // namespace PROPOSAL
diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
index 0138e80..8ffa316 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
@@ -12,23 +12,19 @@
 
 using namespace PROPOSAL;
 
-Polynom::Polynom(std::vector<double> coefficients) : N_(coefficients.size()) {
-    coeff_ = new double[N_];
-
-    std::copy(coefficients.begin(), coefficients.end(), coeff_);
+Polynom::Polynom(std::vector<double> coefficients)
+    : N_(coefficients.size()), coeff_(coefficients) {
+    if (coefficients.empty())
+        throw std::invalid_argument("Polynom needs at least one coefficient.");
 }
 
 Polynom::Polynom(const nlohmann::json& config) {
-    if(!config.is_array()) throw std::invalid_argument("Polynom is not an array.");
-
-    N_ = config["coefficients"].get<std::vector<double>>().size();
-    coeff_ = new double[N_];
+    if(!config.contains("coefficients") || !config.at("coefficients").is_array())
+        throw std::invalid_argument("Polynom: coefficients is not an array.");
 
-    std::copy(config["coefficients"].get<std::vector<double>>().begin(), config["coefficients"].get<std::vector<double>>().end(), coeff_);
+    *this = Polynom(config.at("coefficients").get<std::vector<double>>());
 }
 
-Polynom::Polynom(const Polynom& poly) : N_(poly.N_), coeff_(poly.coeff_) {}
-
 bool Polynom::operator==(const Polynom& polynom) const {
     if (N_ != polynom.N_)
         return false;
@@ -58,9 +54,7 @@ void Polynom::shift(double x) {
 
     if (std::fabs(x) > GEOMETRY_PRECISION) {
         int n = N_ - 1;
-        double** t = new double*[N_];
-        for (int count = 0; count < N_; ++count)
-            t[count] = new double[N_];
+        std::vector<std::vector<double>> t(N_, std::vector<double>(N_ + 1));
 
         for (int i = 0; i < n; ++i) {
             t[i][0] = coeff_[n - i - 1] * std::pow(x, n - i - 1);
@@ -85,6 +79,9 @@ Polynom Polynom::GetDerivative() {
     for (auto i = 1; i < N_; ++i)
         derivative_coeff_.push_back(coeff_[i] * i);
 
+    if (derivative_coeff_.empty()) // derivative of a constant
+        derivative_coeff_.push_back(0.);
+
     return Polynom(derivative_coeff_);
 }
 
@@ -98,13 +95,12 @@ Polynom Polynom::GetAntiderivative(double constant) {
 }
 
 std::vector<double> Polynom::GetCoefficient() const {
-    std::vector<double> v(coeff_, coeff_ + N_);
-    return v;
+    return coeff_;
 }
 
 std::function<double(double)> Polynom::GetFunction() {
-    return (std::function<double(double)>)std::bind(&Polynom::evaluate, this,
-                                                    std::placeholders::_1);
+    auto polynom = *this;
+    return [polynom](double x) mutable { return polynom.evaluate(x); };
 }
 
 namespace PROPOSAL {
-- 
2.43.0


From 26ff703d6e88de5fb7d312fad0de64c50da140ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:17 +0000
Subject: [PATCH 05/58] fix: Spline derivative, saving/loading and input
 validation

---
 src/PROPOSAL/PROPOSAL/math/Spline.h          |  2 +-
 src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx | 50 ++++++++++++--------
 2 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/math/Spline.h b/src/PROPOSAL/PROPOSAL/math/Spline.h
index ebaa5e8..fa6983a 100644
--- a/src/PROPOSAL/PROPOSAL/math/Spline.h
+++ b/src/PROPOSAL/PROPOSAL/math/Spline.h
@@ -85,7 +85,7 @@ class Spline {
 
     std::vector<Polynom> splines_;
     std::vector<double> subintervall_;
-    unsigned int n_subintervalls_;
+    unsigned int n_subintervalls_ = 0;
     std::vector<double> x_;
     std::vector<double> y_;
 };
diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
index 938e313..807dff0 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
@@ -1,6 +1,8 @@
 #include <fstream>
 #include <iostream>
 #include <iterator>
+#include <limits>
+#include <stdexcept>
 #include <string>
 #include <utility>
 #include <vector>
@@ -9,22 +11,25 @@
 #include "PROPOSAL/math/Function.h"
 #include "PROPOSAL/math/MathMethods.h"
 #include "PROPOSAL/math/Spline.h"
-#include "PROPOSAL/math/TableWriter.h"
 #include <nlohmann/json.hpp>
 
 using namespace PROPOSAL;
 
 Spline::Spline(std::vector<double> x, std::vector<double> y) : x_(x), y_(y) {
-    if (x.size() != y.size())
-        Logging::Get("proposal.spline")->error(
-            "CalculateSpline: x and y (abscissa and ordinate) must have same "
-            "dimension");
+    if (x.size() != y.size() || x.size() < 2)
+        throw std::invalid_argument(
+            "Spline: x and y (abscissa and ordinate) must have same dimension "
+            "and at least two entries");
 }
 
 Spline::Spline(std::vector<Polynom> splines, std::vector<double> subintervall)
     : splines_(splines),
       subintervall_(subintervall),
-      n_subintervalls_(subintervall_.size()) {}
+      n_subintervalls_(splines_.size()) {
+    if (splines_.empty() || subintervall_.size() != splines_.size() + 1)
+        throw std::invalid_argument(
+            "Spline: n polynoms need n + 1 interval borders");
+}
 
 Spline::Spline(const Spline& spline)
     : splines_(spline.splines_),
@@ -32,10 +37,14 @@ Spline::Spline(const Spline& spline)
       n_subintervalls_(spline.n_subintervalls_) {}
 
 Spline::Spline(std::string path, bool binary) {
-    Table_read reader(path, binary);
-    reader.jump(2);
-
-    reader.read(*this);
+    std::ifstream file(path.append(binary ? ".bin" : ".txt"));
+    std::string header;
+    std::getline(file, header);
+    std::getline(file, header);
+
+    file >> *this;
+    if (!file)
+        throw std::invalid_argument("Spline: can not read spline from " + path);
 }
 
 Spline::Spline(const nlohmann::json& config) {
@@ -48,6 +57,7 @@ Spline::Spline(const nlohmann::json& config) {
     y_ = config["y"].get<std::vector<double>>();
 
     if (x_.size() != y_.size()) throw std::invalid_argument("Spline: x and y must have same dimension");
+    if (x_.size() < 2) throw std::invalid_argument("Spline: x and y need at least two entries");
 }
 
 bool Spline::operator==(const Spline& spline) const {
@@ -78,7 +88,7 @@ double Spline::evaluate(double x) {
 }
 
 void Spline::Derivative() {
-    for (auto spline : splines_)
+    for (auto& spline : splines_)
         spline = spline.GetDerivative();
 }
 
@@ -114,14 +124,12 @@ std::vector<spline_container> Spline::GetSplineContainer() const {
 }
 
 bool Spline::save(std::string path, bool binary) {
-    std::stringstream sstr;
-    sstr << *this;
-
-    Table_write writer(path, binary);
-    writer.write(sstr.str());
-    writer.close();
+    std::ofstream file(path.append(binary ? ".bin" : ".txt"));
+    file.precision(std::numeric_limits<double>::max_digits10);
+    file << *this;
+    file.close();
 
-    return 1;
+    return !file.fail();
 }
 
 namespace PROPOSAL {
@@ -139,8 +147,12 @@ std::istream& operator>>(std::istream& is, Spline& s) {
     spline_container container;
 
     is >> s.n_subintervalls_;
+    if (s.n_subintervalls_ == 0)
+        is.setstate(std::ios::failbit);
     for (unsigned int i = 0; i < s.n_subintervalls_; ++i) {
         is >> container;
+        if (!is)
+            return is;
         s.subintervall_.push_back(container.domain.first);
         s.splines_.push_back(Polynom(container.coeff));
         container.coeff.clear();
@@ -161,7 +173,7 @@ std::istream& operator>>(std::istream& is, spline_container& s) {
     unsigned int degree;
     is >> s.domain.first >> s.domain.second >> degree;
     double a_i;
-    for (unsigned int i = 0; i < degree + 1; ++i) {
+    for (unsigned int i = 0; is && i < degree + 1; ++i) {
         is >> a_i;
         s.coeff.push_back(a_i);
     }
-- 
2.43.0


From ab16f1c1f340c711de2fe08abf158aa6cacba275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:25 +0000
Subject: [PATCH 06/58] fix: density distributions and axes compare by value
 and copy deeply

---
 .../PROPOSAL/density_distr/density_distr.h    |  6 +++++
 .../PROPOSAL/density_distr/density_splines.h  |  1 +
 .../PROPOSAL/density_distr/density_distr.cxx  | 22 +++++++++++++++----
 .../density_distr/density_splines.cxx         | 19 ++++++++++++----
 4 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h b/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h
index 8300c05..0891f30 100644
--- a/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h
+++ b/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h
@@ -54,6 +54,8 @@ class Axis {
     auto GetFp0() const { return fp0_; };
 
    protected:
+    virtual bool compare(const Axis&) const { return true; };
+
     Cartesian3D fp0_;
 };
 }  // namespace PROPOSAL
@@ -90,6 +92,9 @@ class CartesianAxis : public Axis {
     double GetDepth(const Vector3D& xi) const override;
     double GetEffectiveDistance(const Vector3D& xi, const Vector3D& direction) const override;
 
+   protected:
+    bool compare(const Axis&) const override;
+
    private:
     Cartesian3D fAxis_;
 
@@ -115,6 +120,7 @@ class Density_distr {
     Density_distr(const Axis& axis, double);
     Density_distr(const nlohmann::json&);
     Density_distr(const Density_distr&);
+    Density_distr& operator=(const Density_distr&);
 
     virtual ~Density_distr() { delete axis_; };
 
diff --git a/src/PROPOSAL/PROPOSAL/density_distr/density_splines.h b/src/PROPOSAL/PROPOSAL/density_distr/density_splines.h
index 81cf0c6..a66b0fe 100644
--- a/src/PROPOSAL/PROPOSAL/density_distr/density_splines.h
+++ b/src/PROPOSAL/PROPOSAL/density_distr/density_splines.h
@@ -44,6 +44,7 @@ class Density_splines : public Density_distr {
     Density_splines(const Axis&, const Spline&, double massDensity);
     Density_splines(const Axis&, const Spline&, const Medium& medium);
     Density_splines(const Density_splines&);
+    Density_splines& operator=(const Density_splines&);
     Density_splines(const nlohmann::json&);
 
     ~Density_splines() {
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
index ec0636a..210ebf8 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
@@ -1,5 +1,6 @@
 
 #include <iostream>
+#include <typeinfo>
 #include "PROPOSAL/Logging.h"
 #include "PROPOSAL/density_distr/density_distr.h"
 #include "PROPOSAL/density_distr/density_exponential.h"
@@ -17,7 +18,16 @@ Density_distr::Density_distr() : axis_(CartesianAxis().clone()), massDensity_(1.
 Density_distr::Density_distr(const Density_distr& density_distr)
     : axis_(density_distr.axis_->clone()), massDensity_(density_distr.massDensity_) {}
 
-Density_distr::Density_distr(const nlohmann::json& config) {
+Density_distr& Density_distr::operator=(const Density_distr& density_distr) {
+    if (this != &density_distr) {
+        delete axis_;
+        axis_ = density_distr.axis_->clone();
+        massDensity_ = density_distr.massDensity_;
+    }
+    return *this;
+}
+
+Density_distr::Density_distr(const nlohmann::json& config) : axis_(nullptr) {
     if(!config.contains("axis_type"))
         throw std::invalid_argument("Axis: Type of axis must be specified using axis_type");
     std::string axis_type = config["axis_type"];
@@ -73,9 +83,11 @@ Axis::Axis(const nlohmann::json& config) {
 Axis::Axis(const Axis& axis) : fp0_(axis.fp0_) {}
 
 bool Axis::operator==(const Axis& axis) const {
+    if(typeid(*this) != typeid(axis))
+        return false;
     if(fp0_ != axis.fp0_)
         return false;
-    return true;
+    return compare(axis);
 }
 
 bool Axis::operator!=(const Axis& axis) const {
@@ -122,11 +134,13 @@ CartesianAxis::CartesianAxis(const nlohmann::json& config) : Axis(config) {
 }
 
 bool CartesianAxis::operator==(const CartesianAxis& axis) const {
-    if(fAxis_ != axis.fAxis_)
-        return false;
     return Axis::operator==(axis);
 }
 
+bool CartesianAxis::compare(const Axis& axis) const {
+    return fAxis_ == static_cast<const CartesianAxis&>(axis).fAxis_;
+}
+
 bool CartesianAxis::operator!=(const CartesianAxis& axis) const {
     return !(*this == axis);
 }
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
index 6933db5..9a1105b 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
@@ -19,8 +19,19 @@ Density_splines::Density_splines(const PROPOSAL::Axis& axis, const PROPOSAL::Spl
 
 Density_splines::Density_splines(const Density_splines& dens_splines)
     : Density_distr(dens_splines),
-      spline_(dens_splines.spline_),
-      integrated_spline_(dens_splines.integrated_spline_) {}
+      spline_(dens_splines.spline_->clone()),
+      integrated_spline_(dens_splines.integrated_spline_->clone()) {}
+
+Density_splines& Density_splines::operator=(const Density_splines& dens_splines) {
+    if (this != &dens_splines) {
+        Density_distr::operator=(dens_splines);
+        delete spline_;
+        delete integrated_spline_;
+        spline_ = dens_splines.spline_->clone();
+        integrated_spline_ = dens_splines.integrated_spline_->clone();
+    }
+    return *this;
+}
 
 Density_splines::Density_splines(const nlohmann::json& config) : Density_distr(config) {
     if(!config.contains("spline_type"))
@@ -43,9 +54,9 @@ bool Density_splines::compare(const Density_distr& dens_distr) const {
     const Density_splines* dens_splines= dynamic_cast<const Density_splines*>(&dens_distr);
     if(!dens_splines)
         return false;
-    if( spline_!= dens_splines->spline_)
+    if( *spline_ != *dens_splines->spline_)
         return false;
-    if( integrated_spline_!= dens_splines->integrated_spline_)
+    if( *integrated_spline_ != *dens_splines->integrated_spline_)
         return false;
     return true;
 }
-- 
2.43.0


From 15ec2ec905c2ab60ada8c0dac8a618752c89b707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:06 +0000
Subject: [PATCH 07/58] fix: column depth of non-homogeneous densities for
 directions off the axis

---
 .../PROPOSAL/density_distr/density_distr.cxx     |  4 +++-
 .../density_distr/density_exponential.cxx        | 16 +++++++++++++---
 .../density_distr/density_polynomial.cxx         | 12 +++++++++---
 .../PROPOSAL/density_distr/density_splines.cxx   | 12 +++++++++---
 4 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
index 210ebf8..38bd1ce 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
@@ -112,9 +112,11 @@ double RadialAxis::GetDepth(const Vector3D& xi) const {
 
 double RadialAxis::GetEffectiveDistance(const Vector3D& xi, const Vector3D& direction) const {
     Cartesian3D aux{Cartesian3D(xi) - fp0_};
+    if (aux.magnitude() == 0) // every direction leads away from the center
+        return direction.magnitude();
     aux.normalize();
 
-    return -aux * direction;
+    return aux * direction;
 }
 
 // %%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_exponential.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_exponential.cxx
index 02f75e7..d2328fd 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_exponential.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_exponential.cxx
@@ -48,9 +48,12 @@ double Density_exponential::Correct(const Vector3D& xi,
     double phi = GetDepth(xi);
     double delta = GetEffectiveDistance(xi, direction);
 
-    double aux = 1. / delta * std::log(1 + std::exp(-phi) * res * delta / massDensity_);
+    // distance for a constant density
+    double aux = std::exp(-phi) * res / massDensity_;
+    if (aux * delta != 0)
+        aux = std::log1p(aux * delta) / delta;
 
-    if (std::isnan(aux))
+    if (!std::isfinite(aux))
         throw DensityException("Next interaction point lies in infinite.");
 
     return aux;
@@ -61,13 +64,20 @@ double Density_exponential::Integrate(const Vector3D& xi,
                                       double l) const {
     double delta = GetEffectiveDistance(xi, direction);
 
+    if (delta == 0)
+        return Evaluate(xi) * l;
+
     return massDensity_ * std::exp(GetDepth(xi) + l * delta) / delta;
 }
 
 double Density_exponential::Calculate(const Vector3D& xi,
                                       const Vector3D& direction,
                                       double distance) const {
-    return Integrate(xi, direction, distance) - Integrate(xi, direction, 0);
+    double aux = distance * GetEffectiveDistance(xi, direction);
+    if (aux == 0)
+        return Evaluate(xi) * distance;
+
+    return Evaluate(xi) * distance * std::expm1(aux) / aux;
 }
 
 double Density_exponential::Evaluate(const Vector3D& xi) const {
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
index b61cc00..5fa9878 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
@@ -1,5 +1,7 @@
 
+#include <cmath>
 #include <functional>
+#include "PROPOSAL/Constants.h"
 #include "PROPOSAL/math/MathMethods.h"
 #include "PROPOSAL/density_distr/density_polynomial.h"
 #include "PROPOSAL/medium/Medium.h"
@@ -58,8 +60,8 @@ double Density_polynomial::helper_function(const Vector3D& xi,
                                            double res,
                                            double l) const {
     (void)res;
-    Cartesian3D dir_cartesian(direction);
-    return Evaluate(xi) - Evaluate(xi + l * dir_cartesian);
+    double delta = axis_->GetEffectiveDistance(xi, direction);
+    return -massDensity_ * density_distribution(axis_->GetDepth(xi) + l * delta);
 }
 
 double Density_polynomial::Correct(const Vector3D& xi,
@@ -87,8 +89,12 @@ double Density_polynomial::Integrate(const Vector3D& xi,
                                      double l) const {
     double delta = axis_->GetEffectiveDistance(xi, direction);
 
+    // (almost) constant density along the direction
+    if (std::abs(delta) < GEOMETRY_PRECISION)
+        return massDensity_ * density_distribution(axis_->GetDepth(xi) + l * delta / 2) * l;
+
     return massDensity_ * antiderived_density_distribution(axis_->GetDepth(xi) + l * delta) /
-           (delta * delta);
+           delta;
 }
 
 double Density_polynomial::Calculate(const Vector3D& xi,
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
index 9a1105b..61306c5 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
@@ -1,5 +1,7 @@
 
+#include <cmath>
 #include <functional>
+#include "PROPOSAL/Constants.h"
 #include "PROPOSAL/density_distr/density_splines.h"
 #include "PROPOSAL/medium/Medium.h"
 #include "PROPOSAL/math/Cartesian3D.h"
@@ -73,8 +75,8 @@ double Density_splines::helper_function(const Vector3D& xi,
                                         double res,
                                         double l) const {
     (void)res;
-    auto dir_cartesian = Cartesian3D(direction);
-    return Evaluate(xi) - Evaluate(xi + l * dir_cartesian);
+    double delta = axis_->GetEffectiveDistance(xi, direction);
+    return -massDensity_ * spline_->evaluate(axis_->GetDepth(xi) + l * delta);
 }
 
 double Density_splines::Correct(const Vector3D& xi,
@@ -99,7 +101,11 @@ double Density_splines::Integrate(const Vector3D& xi,
                                   double l) const {
     double delta = axis_->GetEffectiveDistance(xi, direction);
 
-    return massDensity_ / (delta * delta) *
+    // (almost) constant density along the direction
+    if (std::abs(delta) < GEOMETRY_PRECISION)
+        return massDensity_ * spline_->evaluate(axis_->GetDepth(xi) + l * delta / 2) * l;
+
+    return massDensity_ / delta *
            integrated_spline_->evaluate(axis_->GetDepth(xi) + l * delta);
 }
 
-- 
2.43.0


From bb161805f03535389d1385d9ebbf9b95863f1ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:59 +0000
Subject: [PATCH 08/58] fix: NewtonRaphson at an exact root without slope,
 truncated normal sampling in the tails

---
 .../detail/PROPOSAL/math/MathMethods.cxx       | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx b/src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx
index 46208bb..77bc51b 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx
@@ -1,4 +1,5 @@
 
+#include <algorithm>
 #include <cmath>
 #include <utility>
 #include <fstream>
@@ -199,6 +200,9 @@ double NewtonRaphson(std::function<double(double)> func,
     df = dfunc(rts);
 
     for (int j = 1; j < MAX_STEPS; j++) {
+        if (f == 0.0) {
+            return rts;
+        }
         if ((((rts - xh) * df - f) * ((rts - xl) * df - f) > 0.0) ||
             (std::abs(2.0 * f) > std::abs(dxold * df))) {
             // use bisection if Newton method produces an x that is out of range
@@ -406,10 +410,18 @@ double SampleFromGaussian(double mean, double sigma, double rnd, double min, dou
     if(sigma == 0){
         return mean;
     }
-    auto xlo = 0.5 + std::erf((min - mean) / (SQRT2 * sigma)) / 2;
-    auto xhi = 0.5 + std::erf((max - mean) / (SQRT2 * sigma)) / 2;
+    if (min > mean) {
+        // use the mirrored distribution to keep precision in the upper tail
+        return -SampleFromGaussian(-mean, sigma, 1 - rnd, -max, -min);
+    }
+    auto xlo = std::erfc((mean - min) / (SQRT2 * sigma)) / 2;
+    auto xhi = std::erfc((mean - max) / (SQRT2 * sigma)) / 2;
     auto rndtmp = xlo + (xhi - xlo) * rnd;
-    return sigma * normalppf(rndtmp)  + mean;
+    if (rndtmp < std::numeric_limits<double>::min())
+        return (xhi > 0) ? min : max; // below the numerical range of the tail
+    if (rndtmp >= 1)
+        return max;
+    return std::min(std::max(sigma * normalppf(rndtmp) + mean, min), max);
 }
 
 double SampleFromExponential(double p, double lambda) {
-- 
2.43.0


From 8a45abe6a368687d27657cf4c172c149354fd0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:03 +0000
Subject: [PATCH 09/58] fix: Integral copies its integrand, sizes its tables,
 keeps no stale limits and always ends

---
 src/PROPOSAL/PROPOSAL/math/Integral.h         |   4 +
 .../detail/PROPOSAL/math/Integral.cxx         | 110 +++++++++++++-----
 2 files changed, 85 insertions(+), 29 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/math/Integral.h b/src/PROPOSAL/PROPOSAL/math/Integral.h
index ceee22f..ccc6932 100644
--- a/src/PROPOSAL/PROPOSAL/math/Integral.h
+++ b/src/PROPOSAL/PROPOSAL/math/Integral.h
@@ -371,6 +371,10 @@ private:
 
     //----------------------------------------------------------------------------//
 
+    void ResizeBuffers();
+
+    //----------------------------------------------------------------------------//
+
     /*!
      * Interface for the integrand. This function does all the substitutions (like
      * log, exp, pow...), which are needed by the integration routines
diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
index ab5af53..1d11a6a 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
@@ -80,6 +80,9 @@ double Integral::IntegrateWithRandomRatio(double min,
 {
     if (min == 0. && max == 0.)
     {
+        this->min_ = min;
+        this->max_ = max;
+        randomDo_  = true;
         return 0.;
     }
 
@@ -114,25 +117,28 @@ double Integral::GetUpperLimit()
 
         RefineUpperLimit(savedResult_);
 
+        // randomX_ stays in the coordinate of the substitution, so that the limit can be asked for again
+        double limit = randomX_;
+
         if (reverse_)
         {
-            randomX_ = reverseX_ - randomX_;
+            limit = reverseX_ - limit;
         }
 
         if (powerOfSubstitution_ > 0)
         {
-            randomX_ = std::pow(randomX_, -powerOfSubstitution_);
+            limit = std::pow(limit, -powerOfSubstitution_);
         } else if (powerOfSubstitution_ < 0)
         {
-            randomX_ = -std::pow(-randomX_, powerOfSubstitution_);
+            limit = -std::pow(-limit, powerOfSubstitution_);
         }
 
         if (useLog_)
         {
-            randomX_ = std::exp(randomX_);
+            limit = std::exp(limit);
         }
 
-        return randomX_;
+        return limit;
     } else
     {
         Logging::Get("proposal.integral")->error("No previous call to upper limit functions was made!");
@@ -184,6 +190,9 @@ double Integral::IntegrateWithSubstitution(double min,
             aux        = -aux;
         } else
         {
+            this->min_ = min;
+            this->max_ = min;
+            randomDo_  = true;
             return 0;
         }
     } else if (powerOfSubstitution < 0)
@@ -200,6 +209,9 @@ double Integral::IntegrateWithSubstitution(double min,
             aux        = -aux;
         } else
         {
+            this->min_ = min;
+            this->max_ = min;
+            randomDo_  = true;
             return 0;
         }
     } else
@@ -222,15 +234,18 @@ double Integral::IntegrateWithSubstitution(double min,
     }
 
     randomNumber_ = randomRatio;
+    randomX_      = (this->min_ + this->max_) / 2;
     result        = RombergIntegrateOpened();
 
     if (randomNumber_ < 0)
     {
         randomNumber_ /= -std::abs(result);
 
-        if (randomNumber_ > 1)
+        if (randomNumber_ >= 1)
         {
+            // the whole integral or more: there is nothing to refine
             randomNumber_ = 1;
+            randomX_      = std::nexttoward(max_, min_);
         }
 
         if (randomNumber_ < 0)
@@ -289,14 +304,18 @@ double Integral::IntegrateWithLog(double min, double max, std::function<double(d
     }
 
     randomNumber_ = randomRatio;
+    randomX_      = (this->min_ + this->max_) / 2;
     result        = RombergIntegrateOpened();
 
     if (randomNumber_ < 0)
     {
-        randomNumber_ /= -aux * result;
-        if (randomNumber_ > 1)
+        randomNumber_ /= -std::abs(result);
+
+        if (randomNumber_ >= 1)
         {
+            // the whole integral or more: there is nothing to refine
             randomNumber_ = 1;
+            randomX_      = std::nexttoward(max_, min_);
         }
 
         if (randomNumber_ < 0)
@@ -340,7 +359,6 @@ Integral::Integral()
     , q_rlist2_()
     , q_iord_()
 {
-    int aux;
     if (romberg_ <= 0)
     {
         Logging::Get("proposal.integral")->warn("Warning (in Integral/Integral/0): romberg = {} must be > 0, setting to 1", romberg_);
@@ -359,12 +377,7 @@ Integral::Integral()
         precision_ = 1.e-6;
     }
 
-    iX_.resize(maxSteps_upper_limit_);
-    iY_.resize(maxSteps_upper_limit_);
-
-    aux = std::max(romberg_, romberg4refine_);
-    c_.resize(aux);
-    d_.resize(aux);
+    ResizeBuffers();
 
     q_last_3_results_.resize(3);
 }
@@ -383,6 +396,7 @@ Integral::Integral(const Integral& integral)
     , iY_(integral.iY_)
     , c_(integral.c_)
     , d_(integral.d_)
+    , integrand_(integral.integrand_)
     , romberg4refine_(integral.romberg4refine_)
     , powerOfSubstitution_(integral.powerOfSubstitution_)
     , randomDo_(integral.randomDo_)
@@ -396,7 +410,6 @@ Integral::Integral(const Integral& integral)
     , q_rlist2_(integral.q_rlist2_)
     , q_iord_(integral.q_iord_)
 {
-    integrand_ = std::ref(integral.integrand_);
 }
 
 //----------------------------------------------------------------------------//
@@ -423,7 +436,6 @@ Integral::Integral(int romberg, int maxSteps, double precision)
     , q_rlist2_()
     , q_iord_()
 {
-    int aux;
     if (romberg <= 0)
     {
         Logging::Get("proposal.integral")->warn("Warning (in Integral/Integral/0): romberg = {} must be > 0, setting to 1", romberg);
@@ -446,12 +458,7 @@ Integral::Integral(int romberg, int maxSteps, double precision)
     this->maxSteps_upper_limit_ = maxSteps;
     this->precision_            = precision;
 
-    iX_.resize(maxSteps_upper_limit_);
-    iY_.resize(maxSteps_upper_limit_);
-
-    aux = std::max(romberg_, romberg4refine_);
-    c_.resize(aux);
-    d_.resize(aux);
+    ResizeBuffers();
 
     q_last_3_results_.resize(3);
 }
@@ -571,7 +578,7 @@ void Integral::swap(Integral& integral)
     c_.swap(integral.c_);
     d_.swap(integral.d_);
 
-    integrand_ = std::ref(integral.integrand_);
+    integrand_.swap(integral.integrand_);
 
     swap(romberg4refine_, integral.romberg4refine_);
     swap(powerOfSubstitution_, integral.powerOfSubstitution_);
@@ -590,6 +597,21 @@ void Integral::swap(Integral& integral)
 //----------------------------------------------------------------------------//
 //----------------------------------------------------------------------------//
 
+// The Romberg tables hold one entry per step, the interpolation one per point.
+void Integral::ResizeBuffers()
+{
+    auto steps = std::max(std::max(maxSteps_romberg_, maxSteps_upper_limit_), 0);
+    iX_.resize(steps);
+    iY_.resize(steps);
+
+    auto points = std::max(std::max(romberg_, romberg4refine_), 0);
+    c_.resize(points);
+    d_.resize(points);
+}
+
+//----------------------------------------------------------------------------//
+//----------------------------------------------------------------------------//
+
 double Integral::Function(double x)
 {
     double result, t;
@@ -650,8 +672,10 @@ double Integral::Trapezoid(int n, double oldSum)
     stepSize  = (max_ - min_) / n;
     resultSum = 0;
 
-    for (xStep = min_ + stepSize / 2; xStep < max_; xStep += stepSize)
+    // count the points: in a narrow interval the step can be too small to change xStep
+    for (int i = 0; i < n; i++)
     {
+        xStep = min_ + stepSize * (i + 0.5);
         resultSum += Function(xStep);
     }
 
@@ -673,10 +697,11 @@ double Integral::Trapezoid3(int n, double oldSum)
     stepSize  = (max_ - min_) / n;
     resultSum = 0;
 
-    for (xStep = min_ + stepSize / 2; xStep < max_; xStep += stepSize)
+    for (int i = 0; i < n; i += 3)
     {
+        xStep = min_ + stepSize * (i + 0.5);
         resultSum += Function(xStep);
-        xStep += 2 * stepSize;
+        xStep = min_ + stepSize * (i + 2.5);
         resultSum += Function(xStep);
     }
 
@@ -715,10 +740,11 @@ double Integral::Trapezoid3S(int n, double oldSum, int stepNumber)
     }
     resultSum = 0;
     flag      = false;
-    for (xStep = min_ + stepSize / 2; xStep < max_; xStep += stepSize)
+    for (int i = 0; i < n; i += 3)
     {
+        xStep = min_ + stepSize * (i + 0.5);
         resultSum += functionValue1 = Function(xStep);
-        xStep += 2 * stepSize;
+        xStep = min_ + stepSize * (i + 2.5);
         resultSum += functionValue2 = Function(xStep);
 
         if (!flag)
@@ -1083,6 +1109,7 @@ double Integral::InitIntegralOpenedAndClosed(double min, double max, std::functi
     this->max_           = max;
     integrand_           = integrand;
     powerOfSubstitution_ = 0;
+    randomNumber_        = 0;
     randomDo_            = false;
 
     return aux;
@@ -1154,6 +1181,9 @@ double Integral::InitIntegralWithSubstitution(double min,
             aux        = -aux;
         } else
         {
+            this->min_ = min;
+            this->max_ = min;
+            randomDo_  = false;
             return 0;
         }
     } else if (powerOfSubstitution < 0)
@@ -1169,6 +1199,9 @@ double Integral::InitIntegralWithSubstitution(double min,
             aux        = -aux;
         } else
         {
+            this->min_ = min;
+            this->max_ = min;
+            randomDo_  = false;
             return 0;
         }
     } else
@@ -1223,6 +1256,12 @@ void Integral::RefineUpperLimit(double result)
         return;
     }
 
+    // There is no share of nothing to look for.
+    if (result == 0 || !std::isfinite(result))
+    {
+        return;
+    }
+
     xlow = min_;
     xhi  = max_;
     flow = -randomNumber_ * result;
@@ -1388,6 +1427,9 @@ double Integral::InitIntegralWithLogSubstitution(double min,
 
     if (min < 0 || max < 0)
     {
+        this->min_ = min;
+        this->max_ = min;
+        randomDo_  = false;
         return 0;
     } else if (min > max)
     {
@@ -1411,6 +1453,9 @@ double Integral::InitIntegralWithLogSubstitution(double min,
             aux        = -aux;
         } else
         {
+            this->min_ = min;
+            this->max_ = min;
+            randomDo_  = false;
             return 0;
         }
     } else if (powerOfSubstitution < 0)
@@ -1426,6 +1471,9 @@ double Integral::InitIntegralWithLogSubstitution(double min,
             aux        = -aux;
         } else
         {
+            this->min_ = min;
+            this->max_ = min;
+            randomDo_  = false;
             return 0;
         }
     } else
@@ -2202,11 +2250,13 @@ void Integral::SetMax(double max)
 void Integral::SetMaxStepsUpperLimit(int maxSteps)
 {
     maxSteps_upper_limit_ = maxSteps;
+    ResizeBuffers();
 }
 
 void Integral::SetMaxStepsRomberg(int maxSteps)
 {
     maxSteps_romberg_ = maxSteps;
+    ResizeBuffers();
 }
 
 void Integral::SetMin(double min)
@@ -2252,11 +2302,13 @@ void Integral::SetReverseX(double reverseX)
 void Integral::SetRomberg(int romberg)
 {
     romberg_ = romberg;
+    ResizeBuffers();
 }
 
 void Integral::SetRomberg4refine(int romberg4refine)
 {
     romberg4refine_ = romberg4refine;
+    ResizeBuffers();
 }
 
 void Integral::SetSavedResult(double savedResult)
-- 
2.43.0


From 8a69a80bb5a19991494e1337fa40def20ccbebab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:27 +0000
Subject: [PATCH 10/58] fix: root finders judge the bracket by signs, not by
 products that underflow

---
 src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx b/src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx
index 77bc51b..a6f4c1e 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx
@@ -170,7 +170,7 @@ double NewtonRaphson(std::function<double(double)> func,
     fl = func(x1);
     fh = func(x2);
 
-    if (fl * fh > 0.0) {
+    if (sgn(fl) * sgn(fh) > 0) {
         throw MathException("Root must be bracketed in NewtonRaphson method!");
         // Logging::Get("proposal.math")->error("Root must be bracketed in NewtonRaphson method!");
         // return 0;
@@ -203,7 +203,7 @@ double NewtonRaphson(std::function<double(double)> func,
         if (f == 0.0) {
             return rts;
         }
-        if ((((rts - xh) * df - f) * ((rts - xl) * df - f) > 0.0) ||
+        if ((sgn((rts - xh) * df - f) * sgn((rts - xl) * df - f) > 0) ||
             (std::abs(2.0 * f) > std::abs(dxold * df))) {
             // use bisection if Newton method produces an x that is out of range
             // or if Newton method is not decreasing fast enough
@@ -243,7 +243,7 @@ double NewtonRaphson(std::function<double(double)> func,
 
 std::pair<double, double> Bisection(std::function<double(double)> f, double x1,
                                     double x2, double xacc, double MAX_ITER) {
-    if (f(x1) * f(x2) > 0.)
+    if (sgn(f(x1)) * sgn(f(x2)) > 0)
         throw MathException("Root must be bracketed in Bisection method!");
 
     if (x1 > x2) {
-- 
2.43.0


From 40a0d75e8e319644f00e522223190c4a07bb8472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:30 +0000
Subject: [PATCH 11/58] fix: interpolation tables copy, save and load
 completely and reject damaged files; order one picks the nearest node; no
 index overflow far outside

---
 src/PROPOSAL/PROPOSAL/math/Interpolant.h      |  13 +
 .../detail/PROPOSAL/math/Interpolant.cxx      | 266 ++++++++----------
 2 files changed, 129 insertions(+), 150 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/math/Interpolant.h b/src/PROPOSAL/PROPOSAL/math/Interpolant.h
index cc56022..1c76d1f 100644
--- a/src/PROPOSAL/PROPOSAL/math/Interpolant.h
+++ b/src/PROPOSAL/PROPOSAL/math/Interpolant.h
@@ -196,6 +196,19 @@ private:
 
     //----------------------------------------------------------------------------//
 
+    /**
+     * Reads a table that was written by Save.
+     *
+     * \param    in
+     * \param    binary_tables
+     * \param    rows_allowed   is the table allowed to be two dimensional?
+     * \return   true if successful, otherwise the object is in an unusable state
+     */
+
+    bool ReadTable(std::ifstream& in, bool binary_tables, bool rows_allowed);
+
+    //----------------------------------------------------------------------------//
+
 public:
     Interpolant(const Interpolant&);
     Interpolant& operator=(const Interpolant&);
diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
index d0f3300..392298b 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
@@ -36,6 +36,18 @@ using namespace PROPOSAL;
 const double Interpolant::log_cutoff_ = -300;
 const double Interpolant::exp_cutoff_ = -299;
 
+namespace {
+// index of the table entry at a position, which may be anything (far outside of the table or not a number)
+int ClampedIndex(double position, int last)
+{
+    if (!(position > 0))
+        return 0;
+    if (position >= last)
+        return last;
+    return (int)position;
+}
+} // namespace
+
 //----------------------------------------------------------------------------//
 //----------------------------------------------------------------------------//
 //-------------------------public member functions----------------------------//
@@ -54,25 +66,8 @@ double Interpolant::Interpolate(double x)
 
     reverse_ = true;
     aux      = (x - xmin_) / step_;
-    starti_  = (int)aux;
-
-    if (starti_ < 0)
-    {
-        starti_ = 0;
-    } else if (starti_ >= max_)
-    {
-        starti_ = max_ - 1;
-    }
-
-    start = (int)(aux - 0.5 * (romberg_ - 1));
-
-    if (start < 0)
-    {
-        start = 0;
-    } else if (start + romberg_ > max_ || start > max_)
-    {
-        start = max_ - romberg_;
-    }
+    starti_  = ClampedIndex(aux, max_ - 1);
+    start    = ClampedIndex(aux - 0.5 * (romberg_ - 1), max_ - romberg_);
     result = Interpolate(x, start);
 
     if (logSubst_)
@@ -102,25 +97,8 @@ double Interpolant::Interpolate(double x1, double x2)
     reverse_ = true;
 
     aux     = (x2 - xmin_) / step_;
-    starti_ = (int)aux;
-
-    if (starti_ < 0)
-    {
-        starti_ = 0;
-    } else if (starti_ >= max_)
-    {
-        starti_ = max_ - 1;
-    }
-
-    start = (int)(aux - 0.5 * (romberg_ - 1));
-
-    if (start < 0)
-    {
-        start = 0;
-    } else if (start + romberg_ > max_ || start > max_)
-    {
-        start = max_ - romberg_;
-    }
+    starti_ = ClampedIndex(aux, max_ - 1);
+    start   = ClampedIndex(aux - 0.5 * (romberg_ - 1), max_ - romberg_);
 
     for (i = start; i < start + romberg_; i++)
     {
@@ -198,7 +176,7 @@ double Interpolant::InterpolateArray(double x)
     }
 
     starti_ = i + auxdir;
-    start   = i - (int)(0.5 * (romberg_ - 1 - auxdir));
+    start   = i - (int)std::floor(0.5 * (romberg_ - 1 - auxdir));
 
     if (start < 0)
     {
@@ -254,7 +232,7 @@ double Interpolant::InterpolateArray(double x1, double x2)
     }
 
     starti_ = i + auxdir;
-    start   = i - (int)(0.5 * (romberg_ - 1 - auxdir));
+    start   = i - (int)std::floor(0.5 * (romberg_ - 1 - auxdir));
 
     if (start < 0)
     {
@@ -361,7 +339,7 @@ double Interpolant::FindLimit(double y)
     }
 
     starti_ = i + auxdir;
-    start   = i - (int)(0.5 * (romberg_ - 1 - auxdir));
+    start   = i - (int)std::floor(0.5 * (romberg_ - 1 - auxdir));
 
     if (start < 0)
     {
@@ -494,7 +472,7 @@ double Interpolant::FindLimit(double x1, double y)
     }
 
     starti_ = i + auxdir;
-    start   = i - (int)(0.5 * (romberg_ - 1 - auxdir));
+    start   = i - (int)std::floor(0.5 * (romberg_ - 1 - auxdir));
 
     if (start < 0)
     {
@@ -600,10 +578,10 @@ bool Interpolant::Save(std::string Path, bool binary_tables)
         }
     }
 
-    Save(out, binary_tables);
+    bool success = Save(out, binary_tables);
 
     out.close();
-    return 1;
+    return success && out.good();
 }
 
 //----------------------------------------------------------------------------//
@@ -616,9 +594,7 @@ bool Interpolant::Save(std::ofstream& out, bool binary_tables)
         Logging::Get("proposal.interpolant")->error("Can not open file for writing");
         return 0;
     }
-    bool D2 = false;
-    if (function2d_ != NULL)
-        D2 = true;
+    bool D2 = !Interpolant_.empty();
 
     if (binary_tables)
     {
@@ -652,7 +628,8 @@ bool Interpolant::Save(std::ofstream& out, bool binary_tables)
             for (int i = 0; i < max_; i++)
             {
                 out.write(reinterpret_cast<char*>(&iX_.at(i)), sizeof iX_.at(i));
-                Interpolant_.at(i)->Save(out, binary_tables);
+                if (!Interpolant_.at(i)->Save(out, binary_tables))
+                    return 0;
             }
         } else
         {
@@ -705,7 +682,8 @@ bool Interpolant::Save(std::ofstream& out, bool binary_tables)
             for (int i = 0; i < max_; i++)
             {
                 out << iX_.at(i) << std::endl;
-                Interpolant_.at(i)->Save(out, binary_tables);
+                if (!Interpolant_.at(i)->Save(out, binary_tables))
+                    return 0;
             }
         } else
         {
@@ -726,7 +704,7 @@ bool Interpolant::Save(std::ofstream& out, bool binary_tables)
         }
     }
     out.flush();
-    return 1;
+    return out.good();
 }
 
 //----------------------------------------------------------------------------//
@@ -759,121 +737,108 @@ bool Interpolant::Load(std::string Path, bool binary_tables)
 
 bool Interpolant::Load(std::ifstream& in, bool binary_tables)
 {
-    bool D2;
+    // a file that cannot be read leaves this object as it was
+    Interpolant loaded;
+    if (!loaded.ReadTable(in, binary_tables, true))
+        return 0;
 
-    int max;
-    double xmin, xmax;
-    int romberg, rombergY;
-    bool rational, rationalY, relative, relativeY, isLog, logSubst;
+    swap(loaded);
+    return 1;
+}
 
-    if (binary_tables)
-    {
-        in.read(reinterpret_cast<char*>(&D2), sizeof D2);
+//----------------------------------------------------------------------------//
+//----------------------------------------------------------------------------//
 
-        if (D2)
-        {
-            if (!in.good())
-                return 0;
+namespace {
+// number of bytes between the current position and the end of the stream
+std::streamoff RemainingBytes(std::ifstream& in)
+{
+    auto pos = in.tellg();
+    if (pos == std::streampos(-1))
+        return 0;
+    in.seekg(0, std::ios::end);
+    auto end = in.tellg();
+    in.seekg(pos);
+    return end - pos;
+}
 
-            in.read(reinterpret_cast<char*>(&max), sizeof max);
-            in.read(reinterpret_cast<char*>(&xmin), sizeof xmin);
-            in.read(reinterpret_cast<char*>(&xmax), sizeof xmax);
-            in.read(reinterpret_cast<char*>(&romberg), sizeof romberg);
-            in.read(reinterpret_cast<char*>(&rational), sizeof rational);
-            in.read(reinterpret_cast<char*>(&relative), sizeof relative);
-            in.read(reinterpret_cast<char*>(&isLog), sizeof isLog);
-            in.read(reinterpret_cast<char*>(&rombergY), sizeof rombergY);
-            in.read(reinterpret_cast<char*>(&rationalY), sizeof rationalY);
-            in.read(reinterpret_cast<char*>(&relativeY), sizeof relativeY);
-            in.read(reinterpret_cast<char*>(&logSubst), sizeof logSubst);
+bool ReadFlag(std::ifstream& in, bool binary_tables, bool& flag)
+{
+    if (!binary_tables)
+    {
+        in >> flag;
+        return in.good();
+    }
 
-            InitInterpolant(
-                max, xmin, xmax, romberg, rational, relative, isLog, rombergY, rationalY, relativeY, logSubst);
+    char byte = 0;
+    in.read(&byte, 1);
+    flag = (byte == 1);
+    return in.good() && (byte == 0 || byte == 1);
+}
 
-            Interpolant_.resize(max_);
+template <typename T>
+bool ReadNumber(std::ifstream& in, bool binary_tables, T& number)
+{
+    if (binary_tables)
+        in.read(reinterpret_cast<char*>(&number), sizeof number);
+    else
+        in >> number;
+    return in.good();
+}
+} // namespace
 
-            for (int i = 0; i < max_; i++)
-            {
-                in.read(reinterpret_cast<char*>(&iX_.at(i)), sizeof iX_.at(i));
+bool Interpolant::ReadTable(std::ifstream& in, bool binary_tables, bool rows_allowed)
+{
+    bool D2;
+    int max, romberg, rombergY;
+    double xmin, xmax;
+    bool rational, rationalY, relative, relativeY, isLog, logSubst;
 
-                if (!in.good())
-                    return 0;
-                Interpolant_.at(i) = new Interpolant();
-                Interpolant_.at(i)->Load(in, binary_tables);
-                Interpolant_.at(i)->self_ = false;
-            }
+    if (!in.good())
+        return 0;
 
-        } else
-        {
-            if (!in.good())
-                return 0;
-            in.read(reinterpret_cast<char*>(&max), sizeof max);
-            in.read(reinterpret_cast<char*>(&xmin), sizeof xmin);
-            in.read(reinterpret_cast<char*>(&xmax), sizeof xmax);
-            in.read(reinterpret_cast<char*>(&romberg), sizeof romberg);
-            in.read(reinterpret_cast<char*>(&rational), sizeof rational);
-            in.read(reinterpret_cast<char*>(&relative), sizeof relative);
-            in.read(reinterpret_cast<char*>(&isLog), sizeof isLog);
-            in.read(reinterpret_cast<char*>(&rombergY), sizeof rombergY);
-            in.read(reinterpret_cast<char*>(&rationalY), sizeof rationalY);
-            in.read(reinterpret_cast<char*>(&relativeY), sizeof relativeY);
-            in.read(reinterpret_cast<char*>(&logSubst), sizeof logSubst);
-
-            InitInterpolant(
-                max, xmin, xmax, romberg, rational, relative, isLog, rombergY, rationalY, relativeY, logSubst);
+    if (!(ReadFlag(in, binary_tables, D2) && ReadNumber(in, binary_tables, max)
+            && ReadNumber(in, binary_tables, xmin) && ReadNumber(in, binary_tables, xmax)
+            && ReadNumber(in, binary_tables, romberg) && ReadFlag(in, binary_tables, rational)
+            && ReadFlag(in, binary_tables, relative) && ReadFlag(in, binary_tables, isLog)
+            && ReadNumber(in, binary_tables, rombergY) && ReadFlag(in, binary_tables, rationalY)
+            && ReadFlag(in, binary_tables, relativeY) && ReadFlag(in, binary_tables, logSubst)))
+        return 0;
 
-            for (int i = 0; i < max_; i++)
-            {
-                in.read(reinterpret_cast<char*>(&iX_.at(i)), sizeof iX_.at(i));
-                in.read(reinterpret_cast<char*>(&iY_.at(i)), sizeof iY_.at(i));
-                if (!in.good())
-                    return 0;
-            }
-        }
-    } else
-    {
-        in >> D2;
+    if (D2 && !rows_allowed)
+        return 0;
 
-        if (D2)
-        {
-            if (!in.good())
-                return 0;
-            in >> max >> xmin >> xmax;
-            in >> romberg >> rational >> relative >> isLog;
-            in >> rombergY >> rationalY >> relativeY >> logSubst;
+    // every node takes at least two characters or one number
+    std::streamoff node_size = binary_tables ? sizeof(double) : 2;
+    if (max <= 0 || max > RemainingBytes(in) / node_size)
+        return 0;
+    if (romberg <= 0 || romberg > max || rombergY <= 0 || rombergY > max)
+        return 0;
+    if (!std::isfinite(xmin) || !std::isfinite(xmax) || xmin > xmax)
+        return 0;
+    if (isLog && xmin <= 0)
+        return 0;
 
-            InitInterpolant(
-                max, xmin, xmax, romberg, rational, relative, isLog, rombergY, rationalY, relativeY, logSubst);
+    InitInterpolant(max, xmin, xmax, romberg, rational, relative, isLog, rombergY, rationalY, relativeY, logSubst);
 
-            Interpolant_.resize(max_);
+    // the limits of a table with several nodes differ
+    if (max_ != max)
+        return 0;
 
-            for (int i = 0; i < max_; i++)
-            {
-                in >> iX_.at(i);
-                if (!in.good())
-                    return 0;
-                Interpolant_.at(i) = new Interpolant();
-                Interpolant_.at(i)->Load(in, binary_tables);
-                Interpolant_.at(i)->self_ = false;
-            }
+    for (int i = 0; i < max_; i++)
+    {
+        if (!ReadNumber(in, binary_tables, iX_.at(i)))
+            return 0;
 
-        } else
+        if (D2)
         {
-            if (!in.good())
+            Interpolant_.push_back(new Interpolant());
+            if (!Interpolant_.back()->ReadTable(in, binary_tables, false))
                 return 0;
-            in >> max >> xmin >> xmax;
-            in >> romberg >> rational >> relative >> isLog;
-            in >> rombergY >> rationalY >> relativeY >> logSubst;
-
-            InitInterpolant(
-                max, xmin, xmax, romberg, rational, relative, isLog, rombergY, rationalY, relativeY, logSubst);
-
-            for (int i = 0; i < max_; i++)
-            {
-                in >> iX_.at(i) >> iY_.at(i);
-                if (!in.good())
-                    return 0;
-            }
+            Interpolant_.back()->self_ = false;
+        } else if (!ReadNumber(in, binary_tables, iY_.at(i)))
+        {
+            return 0;
         }
     }
     return 1;
@@ -965,8 +930,8 @@ Interpolant::Interpolant(const Interpolant& interpolant)
         Interpolant_.at(i) = new Interpolant(*interpolant.Interpolant_.at(i));
     }
 
-    function1d_ = std::ref(interpolant.function1d_);
-    function2d_ = std::ref(interpolant.function2d_);
+    // function1d_ and function2d_ are only needed to fill the table
+    iY2_ = interpolant.iY2_;
 }
 
 //----------------------------------------------------------------------------//
@@ -1581,6 +1546,7 @@ void Interpolant::swap(Interpolant& interpolant)
 
     iX_.swap(interpolant.iX_);
     iY_.swap(interpolant.iY_);
+    iY2_.swap(interpolant.iY2_);
 
     c_.swap(interpolant.c_);
     d_.swap(interpolant.d_);
-- 
2.43.0


From b1de0cda2e4c9e0c8ae766e237e549fb71d70b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:54 +0000
Subject: [PATCH 12/58] fix: the neutral kaon has the mass of the neutral kaon

---
 src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx b/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
index c567841..955316d 100644
--- a/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
@@ -570,7 +570,7 @@ PARTICLE_IMP(Pi0, MPI0, LPI0, 0.0, static_cast<int>(ParticleType::Pi0))
 PARTICLE_IMP(PiMinus, MPI, LPI, -1.0, static_cast<int>(ParticleType::PiMinus))
 PARTICLE_IMP(PiPlus, MPI, LPI, 1.0, static_cast<int>(ParticleType::PiPlus))
 
-PARTICLE_IMP(K0, MKAON, -1.0, 0.0, static_cast<int>(ParticleType::K0))
+PARTICLE_IMP(K0, MKAON0, -1.0, 0.0, static_cast<int>(ParticleType::K0))
 PARTICLE_IMP(KMinus, MKAON, LKAON, -1.0, static_cast<int>(ParticleType::KMinus))
 PARTICLE_IMP(KPlus, MKAON, LKAON, 1.0, static_cast<int>(ParticleType::KPlus))
 
-- 
2.43.0


From f49c0c4be78dec0e45c05ccd36ca248669d362ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:54 +0000
Subject: [PATCH 13/58] fix: staus are found by their particle type

---
 src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx b/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
index 955316d..d205934 100644
--- a/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
@@ -275,6 +275,8 @@ std::unordered_map<int, ParticleDef> ParticleDef::create_particle_map() {
         { static_cast<int>(ParticleType::K0), K0Def() },
         { static_cast<int>(ParticleType::KPlus), KPlusDef() },
         { static_cast<int>(ParticleType::KMinus), KMinusDef() },
+        { static_cast<int>(ParticleType::STauMinus), StauMinusDef() },
+        { static_cast<int>(ParticleType::STauPlus), StauPlusDef() },
         { static_cast<int>(ParticleType::Monopole), MonopoleDef() },
         { static_cast<int>(ParticleType::SMPPlus), SMPPlusDef() },
         { static_cast<int>(ParticleType::SMPMinus), SMPMinusDef() }};
-- 
2.43.0


From c327ad04bf7275f63b83753d984ff535c26db256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:54 +0000
Subject: [PATCH 14/58] fix: energy cuts that are not a number are rejected

---
 src/PROPOSAL/detail/PROPOSAL/EnergyCutSettings.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/EnergyCutSettings.cxx b/src/PROPOSAL/detail/PROPOSAL/EnergyCutSettings.cxx
index c9747e4..d6d0cd4 100644
--- a/src/PROPOSAL/detail/PROPOSAL/EnergyCutSettings.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/EnergyCutSettings.cxx
@@ -20,13 +20,13 @@ EnergyCutSettings::EnergyCutSettings(
     , vcut_(vcut)
     , continuous_randomization_(continuous_randomization)
 {
-    if (ecut_ <= 0)
+    if (!(ecut_ > 0))
         throw std::invalid_argument(
             "Absolut EnergyCut (ecut) must be larger > 0! \nINFO: If a ecut = "
             "std::numeric_limits<double>::infinity() is set the particle will "
             "only propagated continously. ");
 
-    if (vcut_ <= 0 || vcut_ > 1)
+    if (!(vcut_ > 0 && vcut_ <= 1))
         throw std::invalid_argument(
             "Relative EnergyCut (vcut) must be between (0, 1]. \nINF0: If a vc"
             "ut = 1 is set, the particle is only propagate continous.");
-- 
2.43.0


From 12a1e476eae62ca70b4aeb075674824869389ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:54 +0000
Subject: [PATCH 15/58] fix: paraffin consists of carbon and hydrogen

---
 src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx b/src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx
index f2f2589..fddff05 100644
--- a/src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx
@@ -421,7 +421,7 @@ Paraffin::Paraffin()
           0,        // d0
           0.93,     // massDensity
           {Components::Carbon(25.0),
-           Components::Oxygen(52.0)}) {}
+           Components::Hydrogen(52.0)}) {}
 
 AntaresWater::AntaresWater()
     : Medium("antareswater",
-- 
2.43.0


From 6f932de3ac489d739955ec80b24239a74583a932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:54 +0000
Subject: [PATCH 16/58] fix: the radiation length uses the whole nuclear charge
 of averaged components

---
 src/PROPOSAL/PROPOSAL/medium/Medium.h          |  2 +-
 src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx | 13 +++++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/medium/Medium.h b/src/PROPOSAL/PROPOSAL/medium/Medium.h
index b0153bc..9dda3bc 100644
--- a/src/PROPOSAL/PROPOSAL/medium/Medium.h
+++ b/src/PROPOSAL/PROPOSAL/medium/Medium.h
@@ -89,7 +89,7 @@ public:
 protected:
     // Methods
     void init();
-    double X0_inv(unsigned int Z, double M);
+    double X0_inv(double Z, double M);
 
     // Protected member
     std::string name_;
diff --git a/src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx b/src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx
index fddff05..165219e 100644
--- a/src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx
@@ -516,7 +516,7 @@ LiquidArgon::LiquidArgon()
  *                        private Helper Funcitons                             *
  ******************************************************************************/
 
-double Medium::X0_inv(unsigned int Z, double M) {
+double Medium::X0_inv(double Z, double M) {
     double a_sq = 0.;
     double fZ = 0.;
     double Lrad = 0.;
@@ -527,26 +527,27 @@ double Medium::X0_inv(unsigned int Z, double M) {
                  0.0083 * a_sq * a_sq - 0.002 * a_sq * a_sq * a_sq);
 
     // Get radiation logarithm from Tsai (Rev.Mod.Phys.46)
-    if (Z > 4)  // Elements Z>4
+    auto table_Z = std::lround(Z);
+    if (table_Z > 4)  // Elements Z>4
     {
         // Thomas-Fermi-Moliere model (Tsai eq. B21)
         Lrad = std::log(184.15 * std::pow(Z, -1. / 3.));
         Lrad_dash = std::log(1194. * std::pow(Z, -2. / 3.));
     }
     // Tsai table B2
-    else if (Z == 1)  // Hydrogen
+    else if (table_Z == 1)  // Hydrogen
     {
         Lrad = 5.31;
         Lrad_dash = 6.144;
-    } else if (Z == 2)  // Helium
+    } else if (table_Z == 2)  // Helium
     {
         Lrad = 4.79;
         Lrad_dash = 5.621;
-    } else if (Z == 3)  // Lithium
+    } else if (table_Z == 3)  // Lithium
     {
         Lrad = 4.74;
         Lrad_dash = 5.805;
-    } else if (Z == 4)  // Beryllium
+    } else if (table_Z == 4)  // Beryllium
     {
         Lrad = 4.71;
         Lrad_dash = 5.924;
-- 
2.43.0


From 6ddc7aed15cf15839c51548c377c974be4679da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:36 +0000
Subject: [PATCH 17/58] fix: decay tables keep channels of equal branching
 ratio

---
 src/PROPOSAL/PROPOSAL/decay/DecayTable.h          | 2 +-
 src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/decay/DecayTable.h b/src/PROPOSAL/PROPOSAL/decay/DecayTable.h
index a4d9640..bbb05cf 100644
--- a/src/PROPOSAL/PROPOSAL/decay/DecayTable.h
+++ b/src/PROPOSAL/PROPOSAL/decay/DecayTable.h
@@ -42,7 +42,7 @@ void swap(DecayTable&, DecayTable&);
 
 class DecayTable
 {
-    typedef std::map<double, DecayChannel*> DecayMap;
+    typedef std::multimap<double, DecayChannel*> DecayMap;
 
 public:
     DecayTable();
diff --git a/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx b/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx
index 5c1bf5e..16333f1 100644
--- a/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx
@@ -28,7 +28,7 @@ DecayTable::DecayTable(const DecayTable& table)
 
     for (DecayMap::const_iterator iter = table.channels_.begin(); iter != table.channels_.end(); ++iter)
     {
-        channels_[iter->first] = iter->second->clone();
+        channels_.emplace(iter->first, iter->second->clone());
     }
 }
 
@@ -136,13 +136,13 @@ void DecayTable::SetStable()
 
     // TODO(mario): Find better way Wed 2017/08/23
     // A stable channel which alwas will be selected
-    channels_[1.1] = new StableChannel();
+    channels_.emplace(1.1, new StableChannel());
 }
 
 // ------------------------------------------------------------------------- //
 DecayTable& DecayTable::addChannel(double Br, const DecayChannel& dc)
 {
-    channels_[Br] = dc.clone();
+    channels_.emplace(Br, dc.clone());
     return *this;
 }
 
-- 
2.43.0


From 68151faa94f06ba333c112a547f92f81c3aa5c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:36 +0000
Subject: [PATCH 18/58] fix: many-body channels own their estimator after
 assignment and compare their products

---
 .../PROPOSAL/decay/ManyBodyPhaseSpace.h       |  6 ++--
 .../PROPOSAL/decay/ManyBodyPhaseSpace.cxx     | 35 +++++++++++++++++++
 2 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/decay/ManyBodyPhaseSpace.h b/src/PROPOSAL/PROPOSAL/decay/ManyBodyPhaseSpace.h
index 4da9b3e..15140e4 100644
--- a/src/PROPOSAL/PROPOSAL/decay/ManyBodyPhaseSpace.h
+++ b/src/PROPOSAL/PROPOSAL/decay/ManyBodyPhaseSpace.h
@@ -65,7 +65,8 @@ public:
     ManyBodyPhaseSpace(const ManyBodyPhaseSpace& mode);
     virtual ~ManyBodyPhaseSpace() = default;
 
-    // No copy and assignemnt -> done by clone
+    ManyBodyPhaseSpace& operator=(const ManyBodyPhaseSpace& mode);
+
     DecayChannel* clone() const { return new ManyBodyPhaseSpace(*this); }
 
     // ----------------------------------------------------------------------------
@@ -112,9 +113,6 @@ public:
     const std::string& GetName() const { return name_; }
 
 private:
-    /* ManyBodyPhaseSpace& operator=(const ManyBodyPhaseSpace&); // Undefined & not allowed */
-
-
     // ----------------------------------------------------------------------------
     /// @brief Many body phase space decay
     ///
diff --git a/src/PROPOSAL/detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx b/src/PROPOSAL/detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx
index 23403ab..b992f86 100644
--- a/src/PROPOSAL/detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx
@@ -70,6 +70,35 @@ ManyBodyPhaseSpace::ManyBodyPhaseSpace(const ManyBodyPhaseSpace& mode)
 
 }
 
+// ------------------------------------------------------------------------- //
+ManyBodyPhaseSpace& ManyBodyPhaseSpace::operator=(const ManyBodyPhaseSpace& mode)
+{
+    if (this == &mode)
+        return *this;
+
+    daughters_ = mode.daughters_;
+    daughter_masses_ = mode.daughter_masses_;
+    number_of_daughters_ = mode.number_of_daughters_;
+    sum_daughter_masses_ = mode.sum_daughter_masses_;
+    uniform_ = mode.uniform_;
+    broad_phase_statistic_ = mode.broad_phase_statistic_;
+    matrix_element_ = mode.matrix_element_;
+    use_default_matrix_element_ = mode.use_default_matrix_element_;
+    parameter_map_.clear();
+
+    // the estimator belongs to this object, not to the one assigned from
+    if (use_default_matrix_element_)
+    {
+        estimate_ = std::bind(&ManyBodyPhaseSpace::EstimateMaxWeight, this, std::placeholders::_1, std::placeholders::_2);
+    }
+    else
+    {
+        estimate_ = std::bind(&ManyBodyPhaseSpace::SampleEstimateMaxWeight, this, std::placeholders::_1, std::placeholders::_2);
+    }
+
+    return *this;
+}
+
 // ------------------------------------------------------------------------- //
 bool ManyBodyPhaseSpace::compare(const DecayChannel& channel) const
 {
@@ -85,6 +114,12 @@ bool ManyBodyPhaseSpace::compare(const DecayChannel& channel) const
     {
         return false;
     } else if (daughter_masses_ != many_body->daughter_masses_)
+    {
+        return false;
+    } else if (!std::equal(daughters_.begin(), daughters_.end(), many_body->daughters_.begin(),
+                   [](const std::shared_ptr<const ParticleDef>& a, const std::shared_ptr<const ParticleDef>& b) {
+                       return *a == *b;
+                   }))
     {
         return false;
     } else if (uniform_ != many_body->uniform_)
-- 
2.43.0


From 9090ea3e56b317e32766e47297ac85c1b3ff4680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:36 +0000
Subject: [PATCH 19/58] fix: decays at rest and at the end of the lepton
 spectrum give finite products

---
 src/PROPOSAL/detail/PROPOSAL/decay/DecayChannel.cxx      | 9 +++++++--
 .../detail/PROPOSAL/decay/LeptonicDecayChannel.cxx       | 9 ++++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/decay/DecayChannel.cxx b/src/PROPOSAL/detail/PROPOSAL/decay/DecayChannel.cxx
index 41c92a2..da3638c 100644
--- a/src/PROPOSAL/detail/PROPOSAL/decay/DecayChannel.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/decay/DecayChannel.cxx
@@ -66,8 +66,13 @@ void DecayChannel::Boost(ParticleState& particle, const Vector3D& direction_unno
     // Energy will be implicit corrected with respect to the mass:
     particle.SetMomentum(momentum_vec.magnitude());
 
-    momentum_vec.normalize();
-    particle.direction = momentum_vec;
+    // a particle at rest after the boost has no direction of flight, keep the
+    // one it had
+    if (momentum_vec.magnitude() > 0.0)
+    {
+        momentum_vec.normalize();
+        particle.direction = momentum_vec;
+    }
 }
 
 // ------------------------------------------------------------------------- //
diff --git a/src/PROPOSAL/detail/PROPOSAL/decay/LeptonicDecayChannel.cxx b/src/PROPOSAL/detail/PROPOSAL/decay/LeptonicDecayChannel.cxx
index f148dc7..d0f1ac3 100644
--- a/src/PROPOSAL/detail/PROPOSAL/decay/LeptonicDecayChannel.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/decay/LeptonicDecayChannel.cxx
@@ -86,7 +86,7 @@ double LeptonicDecayChannelApprox::DifferentialDecayRate(double x, double parent
 double LeptonicDecayChannelApprox::FindRoot(double min, double parent_mass, double E_max, double right_side)
 {
     double max        = 1;
-    double x_start    = 0.5;
+    double x_start    = std::max(0.5, 0.5 * (min + max));
 
     return NewtonRaphson(std::bind(&LeptonicDecayChannelApprox::DecayRate, this, std::placeholders::_1, parent_mass, E_max, right_side),
                          std::bind(&LeptonicDecayChannelApprox::DifferentialDecayRate, this, std::placeholders::_1, parent_mass, E_max),
@@ -123,7 +123,10 @@ std::vector<ParticleState> LeptonicDecayChannelApprox::Decay(const ParticleDef&
 
     // Sample directions For the massless letpon
     double energy_neutrinos   = p_def.mass - lepton_energy;
-    double virtual_mass       = std::sqrt((energy_neutrinos - lepton_momentum) * (energy_neutrinos + lepton_momentum));
+    double virtual_mass       = std::sqrt(std::max((energy_neutrinos - lepton_momentum) * (energy_neutrinos + lepton_momentum), 0.0));
+    // at the end of the spectrum the neutrinos are collinear and the virtual
+    // mass vanishes within the numerical precision
+    virtual_mass              = std::max(virtual_mass, 1e-8 * energy_neutrinos);
     double momentum_neutrinos = 0.5 * virtual_mass;
 
 
@@ -225,5 +228,5 @@ double LeptonicDecayChannel::DifferentialDecayRate(double x, double M, double E_
     double m   = massive_lepton_.mass;
     double E_l = E_max * x;
 
-    return E_max * std::sqrt(E_l * E_l - m * m) * (M * E_l * (3.0 * M - 4.0 * E_l) + m * m * (3.0 * E_l - 2 * M));
+    return E_max * std::sqrt(std::max(0.0, E_l * E_l - m * m)) * (M * E_l * (3.0 * M - 4.0 * E_l) + m * m * (3.0 * E_l - 2 * M));
 }
-- 
2.43.0


From 18cf115c45fbb4b6ef9e839df1c41e30ba803e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:53 +0000
Subject: [PATCH 20/58] fix: phase space of massless products without a common
 rest frame

---
 src/PROPOSAL/detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx b/src/PROPOSAL/detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx
index b992f86..1a03891 100644
--- a/src/PROPOSAL/detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx
@@ -350,6 +350,12 @@ ManyBodyPhaseSpace::PhaseSpaceKinematics ManyBodyPhaseSpace::CalculateKinematics
     {
         intermediate_mass += daughter_masses_[i];
         kinematics.virtual_masses.push_back(intermediate_mass + randoms[i] * (parent_mass - sum_daughter_masses_));
+
+        // a group of massless particles has no rest frame if it has no mass
+        if (i > 0)
+        {
+            kinematics.virtual_masses[i] = std::max(kinematics.virtual_masses[i], 1e-10 * parent_mass);
+        }
     }
 
     // Calculate intermediate momenta
-- 
2.43.0


From 4863b2fb96b9479680311406164d2ff8d2a9c95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:45 +0000
Subject: [PATCH 21/58] fix: inelastic screening functions of lithium and
 beryllium in Tsai's pair production

---
 .../crosssection/parametrization/PhotoPairProduction.cxx      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx
index 20a4073..553518a 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx
@@ -282,14 +282,14 @@ double crosssection::PhotoPairTsai::DifferentialCrossSection(
                     + std::log(std::pow(ap, 2.) * std::pow(Z, 4. / 3.)
                         * std::pow(ME, 2.)))
             - 2. * std::log(1 + std::pow(bp, 2.))
-            - 4. * bp * std::atan(1. / b); // (3.48)
+            - 4. * bp * std::atan(1. / bp); // (3.48)
         Psi2 = 2.
                 * (2. / 3.
                     + std::log(std::pow(ap, 2.) * std::pow(Z, 4. / 3.)
                         * std::pow(ME, 2.)))
             - 2. * std::log(1. + std::pow(bp, 2.))
             + 8. * std::pow(bp, 2.)
-                * (1. - b * std::atan(1. / bp)
+                * (1. - bp * std::atan(1. / bp)
                     - 0.75 * std::log(1 + std::pow(bp, -2.))); // (3.49)
     } else {
         // Heavier elements
-- 
2.43.0


From faad7c0cf33efd94da3fd549354be72f03c133ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:45 +0000
Subject: [PATCH 22/58] fix: no negative pair production cross sections from
 the Koch-Motz parametrization

---
 .../crosssection/parametrization/PhotoPairProduction.cxx        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx
index 553518a..ee04e80 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx
@@ -202,7 +202,7 @@ double crosssection::PhotoPairKochMotz::DifferentialCrossSectionWithoutA(
         result *= lpm_->suppression_factor(energy, v, comp, density_correction_);
     }
 
-    return result * NA / comp.GetAtomicNum();
+    return std::max(result * NA / comp.GetAtomicNum(), 0.);
 
 }
 
-- 
2.43.0


From ecebaaa120b5641b6854fd92ebe65e68b4a79d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:13 +0000
Subject: [PATCH 23/58] fix: fingerprints of hard components start from a
 defined value

---
 .../PROPOSAL/crosssection/parametrization/Photonuclear.h        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/PROPOSAL/crosssection/parametrization/Photonuclear.h b/src/PROPOSAL/PROPOSAL/crosssection/parametrization/Photonuclear.h
index 5ac1018..ed4fb6d 100644
--- a/src/PROPOSAL/PROPOSAL/crosssection/parametrization/Photonuclear.h
+++ b/src/PROPOSAL/PROPOSAL/crosssection/parametrization/Photonuclear.h
@@ -44,7 +44,7 @@ namespace crosssection {
         size_t hash;
 
     public:
-        RealPhoton() = default;
+        RealPhoton() : hash(0) { }
         virtual ~RealPhoton() { }
 
         virtual double CalculateHardComponent(double energy, double v) = 0;
-- 
2.43.0


From 7cb073caaa3aa6a0b18828829347de4f71afde89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:34 +0000
Subject: [PATCH 24/58] fix: Koch-Motz pair production keeps its tabulated
 total near the threshold

---
 .../parametrization/PhotoPairProduction.cxx        | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx
index ee04e80..ba0d0be 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx
@@ -115,7 +115,7 @@ double crosssection::PhotoPairKochMotz::DifferentialCrossSection(
         const ParticleDef& p, const Component& comp, double energy, double v) const
 {
     if (energy > 50)
-        return DifferentialCrossSectionWithoutA(p, comp, energy, v);
+        return std::max(DifferentialCrossSectionWithoutA(p, comp, energy, v), 0.);
 
     // Correction factor A for low energies given by the Storm and Israel data
     // (doi.org/10.1016/S0092-640X(70)80017-1)
@@ -124,9 +124,15 @@ double crosssection::PhotoPairKochMotz::DifferentialCrossSection(
     auto integrand = [this, &p, &comp, energy](double v) {
         return this->DifferentialCrossSectionWithoutA(p, comp, energy, v) / NA * comp.GetAtomicNum() / (1e-24);
     };
-    auto dNdx_nocorrection = i.Integrate(limits.v_min, limits.v_max, integrand, 3);
+    auto dNdx_nocorrection = i.Integrate(limits.v_min, limits.v_max, [&integrand](double v) {
+        return std::max(integrand(v), 0.);
+    }, 3);
+    // Close to the threshold the uncorrected shape is negative everywhere,
+    // the correction factor is then negative as well.
+    if (!(dNdx_nocorrection > 0))
+        dNdx_nocorrection = i.Integrate(limits.v_min, limits.v_max, integrand, 3);
     auto A = interpolant_->InterpolateArray(comp.GetNucCharge(), energy) / dNdx_nocorrection;
-    return A * DifferentialCrossSectionWithoutA(p, comp, energy, v);
+    return std::max(A * DifferentialCrossSectionWithoutA(p, comp, energy, v), 0.);
 }
 
 double crosssection::PhotoPairKochMotz::DifferentialCrossSectionWithoutA(
@@ -202,7 +208,7 @@ double crosssection::PhotoPairKochMotz::DifferentialCrossSectionWithoutA(
         result *= lpm_->suppression_factor(energy, v, comp, density_correction_);
     }
 
-    return std::max(result * NA / comp.GetAtomicNum(), 0.);
+    return result * NA / comp.GetAtomicNum();
 
 }
 
-- 
2.43.0


From 6dd8f0c73cb074343ea9e06acf54d82347f62797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:58 +0000
Subject: [PATCH 25/58] fix: no negative bremsstrahlung cross sections at the
 kinematic limit

---
 .../PROPOSAL/crosssection/parametrization/Bremsstrahlung.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Bremsstrahlung.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Bremsstrahlung.cxx
index c308bf5..d46f8d2 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Bremsstrahlung.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Bremsstrahlung.cxx
@@ -99,7 +99,8 @@ double crosssection::Bremsstrahlung::DifferentialCrossSection(
     // \frac{m_e}{m_{particle}})^2$ is the typical Bremsstrahlung prefactor used
     // in every Parametrization
 
-    auto result = CalculateParametrization(p_def, comp, energy, v);
+    // some parametrizations become negative just below the kinematic limit
+    auto result = std::max(CalculateParametrization(p_def, comp, energy, v), 0.);
 
     auto aux = 2 * p_def.charge * p_def.charge * (ME / p_def.mass) * RE
         * comp.GetNucCharge();
@@ -468,7 +469,7 @@ double crosssection::BremsElectronScreening::DifferentialCrossSection(
     const ParticleDef& p_def, const Component& comp, double energy,
     double v) const
 {
-    auto result = CalculateParametrization(p_def, comp, energy, v);
+    auto result = std::max(CalculateParametrization(p_def, comp, energy, v), 0.);
 
     auto aux = p_def.charge * p_def.charge * (ME / p_def.mass) * RE;
     aux *= aux * (ALPHA / v) * result;
-- 
2.43.0


From c409f4e1e3379604b164a56ad83fa584cf1d2423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:15 +0000
Subject: [PATCH 26/58] fix: comparing Highland scattering with another model
 does not dereference a null pointer

---
 .../PROPOSAL/scattering/multiple_scattering/Highland.cxx      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Highland.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Highland.cxx
index 8d3fdfb..718087e 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Highland.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Highland.cxx
@@ -33,7 +33,9 @@ bool Highland::compare(const Parametrization& scattering) const
 {
     auto sc = dynamic_cast<const Highland*>(&scattering);
 
-    if (radiation_length != sc->radiation_length)
+    if (!sc)
+        return false;
+    else if (radiation_length != sc->radiation_length)
         return false;
     else if (charge != sc->charge)
         return false;
-- 
2.43.0


From 785e176c3b1e96d9de3a731c15e74cdfe77f6c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:15 +0000
Subject: [PATCH 27/58] fix: directions after very large multiple scattering
 angles stay normalized

---
 .../scattering/multiple_scattering/Parametrization.cxx      | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Parametrization.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Parametrization.cxx
index cd2e7fe..8c12f3c 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Parametrization.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Parametrization.cxx
@@ -65,6 +65,12 @@ namespace PROPOSAL {
             final_direction += tx * rotate_vector_x;
             final_direction += ty * rotate_vector_y;
 
+            // offsets beyond a right angle have no longitudinal part left
+            if (sx * sx + sy * sy > 1.)
+                mean_direction.normalize();
+            if (tx * tx + ty * ty > 1.)
+                final_direction.normalize();
+
             return std::make_pair(mean_direction, final_direction);
         }
     }
-- 
2.43.0


From 6c95c97a07a755828a9ee557608456a19fcf357d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:15 +0000
Subject: [PATCH 28/58] fix: no undefined ionization deflection at the
 kinematic limits

---
 .../scattering/stochastic_deflection/ionization/IonizNaive.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/ionization/IonizNaive.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/ionization/IonizNaive.cxx
index 7343b7e..0482926 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/ionization/IonizNaive.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/ionization/IonizNaive.cxx
@@ -1,5 +1,6 @@
 #include "PROPOSAL/scattering/stochastic_deflection/ionization/IonizNaive.h"
 #include "PROPOSAL/Constants.h"
+#include <algorithm>
 #include <cmath>
 using namespace PROPOSAL;
 
@@ -10,6 +11,8 @@ stochastic_deflection::IonizNaive::CalculateStochasticDeflection(
     auto p_i = std::sqrt((e_i + mass) * (e_i - mass));
     auto p_f = std::sqrt((e_f + mass) * (e_f - mass));
     auto costheta = ((e_i + ME) * e_f - e_i * ME - mass * mass) / (p_i * p_f);
+    // rounding may lead out of the definition range of acos
+    costheta = std::max(-1., std::min(1., costheta));
 
     return UnitSphericalVector { std::acos(costheta), 2 * PI * rnd[0] };
 }
\ No newline at end of file
-- 
2.43.0


From a5405448a4f1221a6011bbc696d70a2c517764a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:15 +0000
Subject: [PATCH 29/58] fix: no undefined photonuclear deflection at the limits
 of the momentum transfer

---
 .../stochastic_deflection/photonuclear/PhotoBorogPetrukhin.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoBorogPetrukhin.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoBorogPetrukhin.cxx
index dfcde07..3583851 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoBorogPetrukhin.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoBorogPetrukhin.cxx
@@ -1,5 +1,6 @@
 #include "PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoBorogPetrukhin.h"
 #include "PROPOSAL/Constants.h"
+#include <algorithm>
 #include <cmath>
 
 using namespace PROPOSAL;
@@ -16,6 +17,8 @@ stochastic_deflection::PhotoBorogPetrukhin::CalculateStochasticDeflection(
     auto t_1 = std::min(epsilon * epsilon, m_0 * m_0);
     auto t_p = (t_max * t_1) / ((t_max + t_1) * pow(((t_max * (t_min + t_1)) / (t_min * (t_max + t_1))), rnd[0]) - t_max); 
     auto sin2 = (t_p - t_min) / (4 * (e_i * e_f - mass * mass) - 2 * t_min);
+    // rounding may lead out of the definition range of asin
+    sin2 = std::max(0., std::min(1., sin2));
     auto theta_muon = 2 * std::asin(std::sqrt(sin2));
 
     return UnitSphericalVector { theta_muon, 2 * PI * rnd[1] };
-- 
2.43.0


From 815eb3518c98cd688b0e7e0226651ef18c617ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:15 +0000
Subject: [PATCH 30/58] fix: van Ginneken's bremsstrahlung deflection finds its
 matching point at high energies

---
 .../bremsstrahlung/BremsGinneken.cxx           | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/bremsstrahlung/BremsGinneken.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/bremsstrahlung/BremsGinneken.cxx
index afc7baa..34f64ef 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/bremsstrahlung/BremsGinneken.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/bremsstrahlung/BremsGinneken.cxx
@@ -11,17 +11,19 @@
 using namespace PROPOSAL;
 using namespace std;
 
-double stochastic_deflection::BremsGinneken::f_nu_g(double nu, double n, double k_4) const {
-    return pow(nu, (1/n + 1)) + pow((0.2/k_4), (1/n)) * nu - pow((0.2/k_4), (1/n));
+// as a function of x = 1 - nu, which is tiny at high energies
+double stochastic_deflection::BremsGinneken::f_nu_g(double x, double n, double k_4) const {
+    return pow(1 - x, (1/n + 1)) - pow((0.2/k_4), (1/n)) * x;
 }
 
+// returns 1 - nu_g
 double stochastic_deflection::BremsGinneken::get_nu_g(double n, double k_4) const {
-    auto f = [=](double nu) {
-        return f_nu_g(nu, n, k_4);
+    auto f = [=](double x) {
+        return f_nu_g(x, n, k_4);
     };
-    if (f(0.5) * f(1.) < 0) { 
+    if (f(0.5) * f(0.) < 0) { 
         // check different sign of the definition range, not possible for e_i < 0.7 GeV
-        auto nu_g_x = Bisection(f, 0.5, 1., 1e-5, 100);
+        auto nu_g_x = Bisection(f, 0., 0.5, 1e-20, 100);
         return (nu_g_x.first + nu_g_x.second) / 2;
     } 
     return 0.5; // return boundary value of parametrization
@@ -44,8 +46,8 @@ double stochastic_deflection::BremsGinneken::get_rms_theta(double e_i, double e_
         if (rms_theta < 0.2) {
             return rms_theta; 
         } else {
-            double nu_g = get_nu_g(n, k_4);
-            auto k_5 = k_4 * pow(nu_g, 1 + n) * pow(1 - nu_g, 0.5 - n);
+            double x_g = get_nu_g(n, k_4);
+            auto k_5 = k_4 * pow(1 - x_g, 1 + n) * pow(x_g, 0.5 - n);
             rms_theta = k_5 * pow(1 - nu, -0.5);
             if (rms_theta < 0.2) {
                 // This case is an undefined state
-- 
2.43.0


From 0a93a599ac7b3c0a206dff3a1ae26dc2fc71a6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:33 +0000
Subject: [PATCH 31/58] fix: a secondaries calculator without a model for an
 interaction says so instead of crashing

---
 src/PROPOSAL/PROPOSAL/secondaries/SecondariesCalculator.h   | 6 +++++-
 .../detail/PROPOSAL/secondaries/SecondariesCalculator.cxx   | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/secondaries/SecondariesCalculator.h b/src/PROPOSAL/PROPOSAL/secondaries/SecondariesCalculator.h
index 51b93d6..1aa7ecc 100644
--- a/src/PROPOSAL/PROPOSAL/secondaries/SecondariesCalculator.h
+++ b/src/PROPOSAL/PROPOSAL/secondaries/SecondariesCalculator.h
@@ -55,10 +55,14 @@ public:
 
     //!
     //! Returns number required for calculation of a specific interactiontype.
+    //! No number is required if there is no calculator for this type.
     //!
     inline size_t RequiredRandomNumbers(InteractionType type) const noexcept
     {
-        return secondary_generator.find(type)->second->RequiredRandomNumbers();
+        auto it = secondary_generator.find(type);
+        if (it != secondary_generator.end())
+            return it->second->RequiredRandomNumbers();
+        return 0;
     }
 
     //!
diff --git a/src/PROPOSAL/detail/PROPOSAL/secondaries/SecondariesCalculator.cxx b/src/PROPOSAL/detail/PROPOSAL/secondaries/SecondariesCalculator.cxx
index 442399d..a574ce5 100644
--- a/src/PROPOSAL/detail/PROPOSAL/secondaries/SecondariesCalculator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/secondaries/SecondariesCalculator.cxx
@@ -9,8 +9,10 @@ std::vector<ParticleState> SecondariesCalculator::CalculateSecondaries(
     auto it = secondary_generator.find(type);
     if (it != secondary_generator.end())
         return it->second->CalculateSecondaries(loss, comp, rnd);
+    auto name = Type_Interaction_Name_Map.find(type);
     std::ostringstream s;
     s << "No secondary calculator for interaction type ("
-        << Type_Interaction_Name_Map.find(type)->second << ") available.";
+        << (name != Type_Interaction_Name_Map.end() ? name->second : std::to_string(loss.type))
+        << ") available.";
     throw std::logic_error(s.str());
 }
-- 
2.43.0


From a49e0ae2693044bac95541108c6cb64aec81593f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:47 +0000
Subject: [PATCH 32/58] fix: photonuclear losses of heavy particles leave their
 rest mass

---
 .../crosssection/parametrization/Photonuclear.cxx        | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Photonuclear.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Photonuclear.cxx
index 1cdca73..d2f7d20 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Photonuclear.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Photonuclear.cxx
@@ -80,11 +80,12 @@ crosssection::KinematicLimits crosssection::Photonuclear::GetKinematicLimits(
         auto aux = p_def.mass / comp.GetAverageNucleonWeight();
         kin_lim.v_max
             -= comp.GetAverageNucleonWeight() * (1 + aux * aux) / (2 * energy);
+        // vMax calculated above is always smaller than 1-m/E
+        // in comparison, the following inequality arise
+        // (M-m)^2 >= 0
+    } else {
+        kin_lim.v_max -= p_def.mass / energy;
     }
-    // vMax calculated above is always smaller than 1-m/E
-    // in comparison, the following inequality arise
-    // (M-m)^2 >= 0
-    // limits.vMax = std::min(limits.vMax, 1 - p_def.mass/energy);
     if (kin_lim.v_max < kin_lim.v_min)
         kin_lim.v_max = kin_lim.v_min;
     return kin_lim;
-- 
2.43.0


From 01443704b6b25e4710ddd6c0bc24e873999a5a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:10 +0000
Subject: [PATCH 33/58] fix: electron pair asymmetries follow the pair
 production cross section

---
 .../KelnerKokoulinPetrukhinEpairProduction.h           | 10 ++++++----
 .../crosssection/parametrization/EpairProduction.cxx   |  5 +++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/secondaries/parametrization/epairproduction/KelnerKokoulinPetrukhinEpairProduction.h b/src/PROPOSAL/PROPOSAL/secondaries/parametrization/epairproduction/KelnerKokoulinPetrukhinEpairProduction.h
index f449edb..281f9df 100644
--- a/src/PROPOSAL/PROPOSAL/secondaries/parametrization/epairproduction/KelnerKokoulinPetrukhinEpairProduction.h
+++ b/src/PROPOSAL/PROPOSAL/secondaries/parametrization/epairproduction/KelnerKokoulinPetrukhinEpairProduction.h
@@ -53,13 +53,15 @@ namespace secondaries {
                 throw std::logic_error(ss.str());
             }
 
-            auto integrand = [&](double rho) {
-                return param.FunctionToIntegral(p_def, comp, energy, v, rho);
+            // the parametrizations are functions of r = 1 - rho
+            auto integrand = [&](double r) {
+                return param.FunctionToIntegral(p_def, comp, energy, v, r);
             };
 
             auto rho = 0.;
-            if (integral.IntegrateWithRandomRatio(0, rho_max, integrand, 3, rnd1) > 0)
-                rho = integral.GetUpperLimit();
+            auto r_min = std::max(1 - rho_max, COMPUTER_PRECISION);
+            if (integral.IntegrateWithRandomRatio(r_min, 1, integrand, 4, rnd1) > 0)
+                rho = 1 - integral.GetUpperLimit();
 
             if (rnd2 < 0.5)
                 rho *= -1.;
diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/EpairProduction.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/EpairProduction.cxx
index a8fb16c..0e7555f 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/EpairProduction.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/EpairProduction.cxx
@@ -474,7 +474,7 @@ double crosssection::EpairSandrockSoedingreksoRhode::FunctionToIntegral(
 // ------------------------------------------------------------------------- //
 double crosssection::EpairForElectronPositron::FunctionToIntegral(
     const ParticleDef& p_def, const Component& comp, double energy, double v,
-    double rho) const
+    double r) const
 {
     // Adaptation of the direct muon pair production cross section of muons.
     // Nuclear formfactor effects have been removed as they are negligible for
@@ -490,7 +490,8 @@ double crosssection::EpairForElectronPositron::FunctionToIntegral(
     // double medium_log_constant = 183; // According to the paper, B is set to
     // 183
 
-    r2 = rho * rho;
+    r = 1 - r; // the integration variable is 1 - rho, see the calling function
+    r2 = r * r;
     rMax = 1 - 2 * ME / (v * energy);
     Z3 = std::pow(medium_charge, -1. / 3);
     aux = v / 2;
-- 
2.43.0


From dcf3e7ac222c4abee2bd6980e5cae86a3336df95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:01 +0000
Subject: [PATCH 34/58] fix: no undefined photonuclear deflection for products
 close to rest

---
 .../stochastic_deflection/photonuclear/PhotoGinneken.cxx       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoGinneken.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoGinneken.cxx
index 7f1a2fc..4a9a9c8 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoGinneken.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoGinneken.cxx
@@ -15,7 +15,8 @@ stochastic_deflection::PhotoGinneken::CalculateStochasticDeflection(
     auto muon_mass = mass / 1000.0;
 
     auto nu = (e_i - e_f) / (e_i - muon_mass);
-    auto rms_theta = (0.39 / (e_i * (1 - nu))) * pow(std::sqrt(e_i) * nu *(1 - nu), 0.17) * (1 - 0.135 / (e_i * nu));
+    auto rest = (e_f - muon_mass) / (e_i - muon_mass); // 1 - nu
+    auto rms_theta = (0.39 / (e_i * rest)) * pow(std::sqrt(e_i) * nu * rest, 0.17) * (1 - 0.135 / (e_i * nu));
 
     auto lambda = 1 / (rms_theta * rms_theta);
     // Need sqrt because of sampling in theta^2
-- 
2.43.0


From 435163b2b00dc50cb9c6c9a95c54b5590fd6323f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:13 +0000
Subject: [PATCH 35/58] fix: muon pair production uses the nucleon number in
 the nuclear form factor

---
 .../PROPOSAL/crosssection/parametrization/MupairProduction.cxx  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/MupairProduction.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/MupairProduction.cxx
index 57cacec..664a637 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/MupairProduction.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/MupairProduction.cxx
@@ -92,7 +92,7 @@ double crosssection::MupairKelnerKokoulinPetrukhin::FunctionToIntegral(
     double aux, aux1, aux2, r2, rMax, Z3, xi, beta, A_pow, r_mu;
     double phi, U, U_max, X, Y;
     double medium_charge = comp.GetNucCharge();
-    double atomic_weight = comp.GetAtomInMolecule();
+    double atomic_weight = comp.GetAtomicNum();
     // double medium_log_constant =
     // components_[component_index_]->GetLogConstant();
     double medium_log_constant = 183; // According to the paper, B is set to 183
-- 
2.43.0


From 466558972e55a6a489c215a0edcca66f6cd2c2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:17 +0000
Subject: [PATCH 36/58] fix: upper limits of very narrow logarithmic intervals
 are energies, not logarithms

---
 .../detail/PROPOSAL/math/Integral.cxx         | 25 +++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
index 1d11a6a..a6ba1af 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
@@ -82,6 +82,8 @@ double Integral::IntegrateWithRandomRatio(double min,
     {
         this->min_ = min;
         this->max_ = max;
+        reverse_ = useLog_ = false;
+        powerOfSubstitution_ = 0;
         randomDo_  = true;
         return 0.;
     }
@@ -110,15 +112,16 @@ double Integral::GetUpperLimit()
 
     if (randomDo_)
     {
-        if (std::abs(max_ - min_) <= std::abs(min_) * COMPUTER_PRECISION)
-        {
-            return min_;
-        }
+        // an interval without room for refinement ends where it starts
+        double limit = min_;
 
-        RefineUpperLimit(savedResult_);
+        if (std::abs(max_ - min_) > std::abs(min_) * COMPUTER_PRECISION)
+        {
+            RefineUpperLimit(savedResult_);
 
-        // randomX_ stays in the coordinate of the substitution, so that the limit can be asked for again
-        double limit = randomX_;
+            // randomX_ stays in the coordinate of the substitution, so that the limit can be asked for again
+            limit = randomX_;
+        }
 
         if (reverse_)
         {
@@ -164,6 +167,8 @@ double Integral::IntegrateWithSubstitution(double min,
     {
         this->min_ = min;
         this->max_ = max;
+        reverse_ = useLog_ = false;
+        powerOfSubstitution_ = 0;
         randomDo_  = true;
         return 0;
     } else if (min > max)
@@ -192,6 +197,8 @@ double Integral::IntegrateWithSubstitution(double min,
         {
             this->min_ = min;
             this->max_ = min;
+            reverse_ = useLog_ = false;
+            powerOfSubstitution_ = 0;
             randomDo_  = true;
             return 0;
         }
@@ -211,6 +218,8 @@ double Integral::IntegrateWithSubstitution(double min,
         {
             this->min_ = min;
             this->max_ = min;
+            reverse_ = useLog_ = false;
+            powerOfSubstitution_ = 0;
             randomDo_  = true;
             return 0;
         }
@@ -274,6 +283,8 @@ double Integral::IntegrateWithLog(double min, double max, std::function<double(d
     {
         this->min_ = min;
         this->max_ = max;
+        reverse_ = useLog_ = false;
+        powerOfSubstitution_ = 0;
         randomDo_  = true;
 
         return 0;
-- 
2.43.0


From 4e5ef5fd7db46792123c90c8dd166cd7058de5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:42 +0000
Subject: [PATCH 37/58] fix: particles scattered back into an enclosed sector
 propagate in that sector

---
 src/PROPOSAL/detail/PROPOSAL/Propagator.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
index e6f88c2..f6dec17 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
@@ -233,7 +233,8 @@ int Propagator::AdvanceParticle(ParticleState &state,
 
         // Check step
         double distance_to_border = CalculateDistanceToBorder(state.position, mean_direction, *geometry);
-        bool is_inside = geometry->IsInside(state.position, mean_direction);
+        bool is_inside = get<GEOMETRY>(GetCurrentSector(
+                state.position, mean_direction)) == geometry;
 
         if (num_steps > PropagationSettings::ADVANCE_PARTICLE_MAX_STEPS) {
             // too many iteration steps!
@@ -250,7 +251,8 @@ int Propagator::AdvanceParticle(ParticleState &state,
             energy = utility.EnergyDistance(state.energy, grammage);
             advancement_type = ReachedBorder;
         } else if (!is_inside) {
-            // Special case: We are on the sector border, but scattering back outside the current sector!
+            // Special case: We are on the sector border, but scattering back outside the current sector
+            // (or into a sector with a higher hierarchy)!
             // Update sector and recalculate values
             advancement_type = InvalidStep;
             auto new_sector = GetCurrentSector(state.position, mean_direction);
-- 
2.43.0


From 983ed60bcefa1e37fd055a0bc727f4ae50b50c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:23 +0000
Subject: [PATCH 38/58] fix: cuts without continuous losses of a process no
 longer refuse tables with continuous randomization

---
 .../PROPOSAL/crosssection/CrossSection.h       | 18 +++++++++++-------
 .../CrossSectionDE2DX/AxisBuilderDE2DX.h       |  5 +++++
 .../CrossSectionDE2DXBuilder.h                 |  9 +++++++--
 .../CrossSectionDE2DX/AxisBuilderDE2DX.cxx     |  6 +++++-
 4 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/crosssection/CrossSection.h b/src/PROPOSAL/PROPOSAL/crosssection/CrossSection.h
index 6ab98eb..b11afdd 100644
--- a/src/PROPOSAL/PROPOSAL/crosssection/CrossSection.h
+++ b/src/PROPOSAL/PROPOSAL/crosssection/CrossSection.h
@@ -159,10 +159,13 @@ namespace detail {
     inline auto _build_de2dx(Cont container, std::true_type, bool interpol,
         T1&& param, T2&& p_def, T3 const& target, Args&&... args)
     {
-        for (auto& c : target.GetComponents())
-            container->emplace_back(weight_component(target, c),
-                make_de2dx(interpol, std::forward<T1>(param),
-                    std::forward<T2>(p_def), c, args...));
+        for (auto& c : target.GetComponents()) {
+            auto weight_comp = weight_component(target, c);
+            auto de2dx = make_de2dx(interpol, std::forward<T1>(param),
+                std::forward<T2>(p_def), c, args...);
+            if (de2dx)
+                container->emplace_back(weight_comp, std::move(de2dx));
+        }
     }
 
     template <typename Cont, typename T1, typename T2, typename T3,
@@ -170,9 +173,10 @@ namespace detail {
     inline auto _build_de2dx(Cont container, std::false_type, bool interpol,
         T1&& param, T2&& p_def, T3 const& target, Args&&... args)
     {
-        container->emplace_back(1.,
-            make_de2dx(interpol, std::forward<T1>(param),
-                std::forward<T2>(p_def), target, args...));
+        auto de2dx = make_de2dx(interpol, std::forward<T1>(param),
+            std::forward<T2>(p_def), target, args...);
+        if (de2dx)
+            container->emplace_back(1., std::move(de2dx));
     }
 
     template <typename Type, typename T1, typename T2, typename T3, typename T4,
diff --git a/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDE2DX/AxisBuilderDE2DX.h b/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDE2DX/AxisBuilderDE2DX.h
index 63c1a27..1c57c1c 100644
--- a/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDE2DX/AxisBuilderDE2DX.h
+++ b/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDE2DX/AxisBuilderDE2DX.h
@@ -3,6 +3,7 @@
 #include "CubicInterpolation/Axis.h"
 #include "PROPOSAL/Constants.h"
 #include <functional>
+#include <stdexcept>
 
 namespace PROPOSAL {
     class AxisBuilderDE2DX {
@@ -18,4 +19,8 @@ namespace PROPOSAL {
 
         std::unique_ptr<cubic_splines::ExpAxis<double>> Create() const;
     };
+
+    struct exception_axis_builder_de2dx_out_of_range : public std::logic_error {
+        using std::logic_error::logic_error;
+    };
 } // namespace PROPOSAL
diff --git a/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DXBuilder.h b/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DXBuilder.h
index c367ee1..f29d90c 100644
--- a/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DXBuilder.h
+++ b/src/PROPOSAL/PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DXBuilder.h
@@ -1,6 +1,7 @@
 #pragma once
 #include "PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DXIntegral.h"
 #include "PROPOSAL/crosssection/CrossSectionDE2DX/CrossSectionDE2DXInterpolant.h"
+#include "PROPOSAL/Logging.h"
 
 namespace PROPOSAL {
 
@@ -8,8 +9,12 @@ template <typename... Args> auto make_de2dx(bool interpolate, Args&&... args)
 {
     auto ptr = std::unique_ptr<CrossSectionDE2DX>();
     if (interpolate)
-        ptr = std::make_unique<CrossSectionDE2DXInterpolant>(
-            std::forward<Args>(args)...);
+        try {
+            ptr = std::make_unique<CrossSectionDE2DXInterpolant>(
+                std::forward<Args>(args)...);
+        } catch (exception_axis_builder_de2dx_out_of_range const& e) {
+            Logging::Get("CrossSection.DE2DX")->debug(e.what());
+        }
     else
         ptr = std::make_unique<CrossSectionDE2DXIntegral>(
             std::forward<Args>(args)...);
diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/CrossSectionDE2DX/AxisBuilderDE2DX.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/CrossSectionDE2DX/AxisBuilderDE2DX.cxx
index 1c5f50e..adb6ca3 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/CrossSectionDE2DX/AxisBuilderDE2DX.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/CrossSectionDE2DX/AxisBuilderDE2DX.cxx
@@ -17,9 +17,13 @@ void AxisBuilderDE2DX::refine_definition_range(
     while (!(func(ax.back_transform(i)) > 0) && i < n)
         ++i;
     if (i == n)
-        throw std::logic_error("No positive values to build dE2dx tables!");
+        throw exception_axis_builder_de2dx_out_of_range(
+            "No positive values to build dE2dx tables!");
     low = ax.back_transform(i);
 
+    if (i == 0)
+        return;
+
     double i_accuracy = 0.5;
     auto f = [&func, &ax](double i) {return func(ax.back_transform(i));};
     auto i_low = Bisection(f, i-1, i, i_accuracy, 100).first;
-- 
2.43.0


From 3e681bb539e3f65b71d290d99805bc78cfbff456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:28 +0000
Subject: [PATCH 39/58] fix: propagation far away from the origin no longer
 gets stuck at sector borders

---
 src/PROPOSAL/detail/PROPOSAL/Propagator.cxx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
index f6dec17..860c574 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
@@ -28,6 +28,7 @@
 #include <fstream>
 
 #include <iomanip>
+#include <limits>
 
 using namespace PROPOSAL;
 using std::get;
@@ -292,6 +293,14 @@ int Propagator::AdvanceParticle(ParticleState &state,
         }
     } while (advancement_type == InvalidStep);
 
+    if (advancement_type == ReachedBorder) {
+        // Far away from the origin, the remaining distance to the border may be
+        // too small to change the position. Make sure that we pass the border.
+        auto resolution = 4 * std::numeric_limits<double>::epsilon()
+            * state.position.magnitude();
+        distance = std::max(distance, std::min(resolution, max_distance));
+    }
+
     state.time = state.time + utility.TimeElapsed(state.energy, energy, grammage, density->Evaluate(state.position)); // TODO: should the energy passed here be the randomized energy or not?
     state.position = state.position + distance * mean_direction;
     state.direction = new_direction;
-- 
2.43.0


From 6694b250d65e298aa39d2728d34930cc8140cd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:54 +0000
Subject: [PATCH 40/58] fix: positions without a sector are reported instead of
 dereferenced

---
 src/PROPOSAL/detail/PROPOSAL/Propagator.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
index 860c574..e27df93 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
@@ -360,6 +360,7 @@ Sector Propagator::GetCurrentSector(
                                                       spherical_position.GetX(),
                                                       spherical_position.GetY(),
                                                       spherical_position.GetZ());
+        throw std::logic_error("Propagator: No sector defined at current particle position.");
     }
     auto highest_sector_iter = std::max_element(
         potential_sec.begin(), potential_sec.end(), [](Sector* a, Sector* b) {
-- 
2.43.0


From 7c55be7ea78906b6ed3ccf4205679df08fab1374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:38 +0000
Subject: [PATCH 41/58] fix: propagation limits that were passed before the
 start no longer turn the particle around

---
 src/PROPOSAL/detail/PROPOSAL/Propagator.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
index e27df93..f20a40a 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
@@ -78,6 +78,12 @@ Secondaries Propagator::Propagate(const ParticleState& initial_particle,
 
         InteractionEnergy[MinimalE] = std::max(
                 min_energy, utility.collection.displacement_calc->GetLowerLim());
+
+        // Limits that have been passed already can not be reached anymore
+        if (state.energy < InteractionEnergy[MinimalE]
+            || state.propagated_distance > max_distance)
+            break;
+
         InteractionEnergy[Decay] = utility.EnergyDecay(
             state.energy, rnd, density->Evaluate(state.position));
         InteractionEnergy[Stochastic]
-- 
2.43.0


From a019aaf96acba3c4f7975bc86f319bbf7b69e006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:36 +0000
Subject: [PATCH 42/58] fix: losses of an unknown interaction type are refused
 instead of dereferenced

---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index 9f4de31..6282513 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -10,6 +10,7 @@
 #include "PROPOSAL/math/Cartesian3D.h"
 
 #include <memory>
+#include <stdexcept>
 #include <vector>
 
 using std::get;
@@ -430,8 +431,10 @@ std::vector<StochasticLoss> Secondaries::GetStochasticLosses(
                            [&interaction_type](const std::pair<InteractionType, std::string> &p) {
         return p.second == interaction_type;
     });
-    if (it == Type_Interaction_Name_Map.end())
+    if (it == Type_Interaction_Name_Map.end()) {
         Logging::Get("proposal.secondaries")->critical("Could not find interaction type {}", interaction_type);
+        throw std::invalid_argument("Could not find interaction type " + interaction_type);
+    }
 
     return GetStochasticLosses(it->first);
 }
-- 
2.43.0


From 8de468a45de6c3b052c2e843c7fa94817204da0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:05 +0000
Subject: [PATCH 43/58] fix: energy lost in a geometry the track misses, starts
 in or ends in

---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index 6282513..d606213 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -164,9 +164,16 @@ std::vector<double> Secondaries::GetTrackPropagatedDistances() const
 
 double Secondaries::GetELost(const Geometry& geometry) const
 {
+    auto& start = track_.front();
     auto entry_point = GetEntryPoint(geometry);
+    if (!entry_point && !geometry.IsInside(start.position, start.direction))
+        return 0.; // geometry has not been hit
+
+    // without an entry (exit) point, the track starts (ends) inside the geometry
     auto exit_point = GetExitPoint(geometry);
-    return entry_point->energy - exit_point->energy;
+    auto energy_i = entry_point ? entry_point->energy : start.energy;
+    auto energy_f = exit_point ? exit_point->energy : track_.back().energy;
+    return energy_i - energy_f;
 }
 
 std::shared_ptr<ParticleState> Secondaries::GetEntryPoint(
-- 
2.43.0


From 6ed6cbab4b80aff19115943abadc08a757f87e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:42 +0000
Subject: [PATCH 44/58] fix: decay tables without channels are reported instead
 of dereferenced

---
 src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx b/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx
index 16333f1..88c3b52 100644
--- a/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx
@@ -1,5 +1,6 @@
 
 #include <sstream>
+#include <stdexcept>
 
 #include "PROPOSAL/decay/DecayTable.h"
 #include "PROPOSAL/decay/DecayChannel.h"
@@ -126,6 +127,8 @@ DecayChannel& DecayTable::SelectChannel(double rnd) const
     }
 
     Logging::Get("proposal.decay")->error("No decay channel found. If your particle is stable, call \"SetStable\"!");
+    if (channels_.empty())
+        throw std::logic_error("Decay table without any decay channel.");
     return *channels_.begin()->second; // return first channel just to prevent warnings
 }
 
-- 
2.43.0


From 60e088cf7e0929d78c460f3ef827fc79c09fecbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:43 +0000
Subject: [PATCH 45/58] fix: track queries no longer use steps without a
 direction, hits of hollow geometries

---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 42 ++++++++++++--------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index d606213..d244519 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -16,6 +16,19 @@
 using std::get;
 using namespace PROPOSAL;
 
+namespace {
+// Direction of the step between two track points. Steps can be too short to
+// change the position, they point in the direction of the particle.
+Cartesian3D GetStepDirection(const ParticleState& initial, const ParticleState& final)
+{
+    auto displacement = final.position - initial.position;
+    if (displacement.magnitude() == 0)
+        return initial.direction;
+    displacement.normalize();
+    return displacement;
+}
+} // namespace
+
 Secondaries::Secondaries(std::shared_ptr<ParticleDef> p_def,
                          std::vector<Sector> sectors)
     : primary_def_(p_def)
@@ -90,8 +103,7 @@ ParticleState Secondaries::GetStateForEnergy(double energy) const
     for (unsigned int i=1; i<track_.size(); i++) {
         if (track_[i].energy < energy) {
             if (types_[i] == InteractionType::ContinuousEnergyLoss) {
-                auto displacement = track_[i].position - track_[i-1].position;
-                displacement.normalize();
+                auto displacement = GetStepDirection(track_[i-1], track_[i]);
                 return RePropagateEnergy(
                         track_[i-1], displacement, track_[i-1].energy - energy,
                         track_[i-1].propagated_distance - track_[i].propagated_distance);
@@ -111,8 +123,7 @@ ParticleState Secondaries::GetStateForDistance(double propagated_distance) const
 
     for (unsigned int i=1; i<track_.size(); i++) {
         if (track_[i].propagated_distance > propagated_distance) {
-            auto displacement = track_[i].position - track_[i-1].position;
-            displacement.normalize();
+            auto displacement = GetStepDirection(track_[i-1], track_[i]);
             return RePropagateDistance(
                     track_[i-1], displacement,
                     propagated_distance - track_[i-1].propagated_distance);
@@ -191,9 +202,8 @@ std::shared_ptr<ParticleState> Secondaries::GetEntryPoint(
         auto pos_f = track_[i+1].position;
         auto dir_i = track_[i].direction;
 
-        auto displacement = pos_f - pos_i;
-        auto dist_i_f = displacement.magnitude();
-        displacement.normalize();
+        auto displacement = GetStepDirection(track_[i], track_[i+1]);
+        auto dist_i_f = (pos_f - pos_i).magnitude();
 
         auto distance = geometry.DistanceToBorder(pos_i, displacement).first;
         if (distance <= dist_i_f && distance >= 0) {
@@ -222,9 +232,8 @@ std::shared_ptr<ParticleState> Secondaries::GetExitPoint(
         auto pos_f = track_[i].position;
         auto dir_i = track_[i-1].direction;
 
-        auto displacement = pos_f - pos_i;
-        auto dist_i_f = displacement.magnitude();
-        displacement.normalize();
+        auto displacement = GetStepDirection(track_[i-1], track_[i]);
+        auto dist_i_f = (pos_f - pos_i).magnitude();
 
         auto distance = geometry.DistanceToBorder(pos_f, -displacement).first;
         if (distance <= dist_i_f && distance >= 0) {
@@ -254,9 +263,8 @@ std::shared_ptr<ParticleState> Secondaries::GetClosestApproachPoint(
         auto pos_i = track_[i].position;
         auto pos_f = track_[i+1].position;
 
-        auto displacement = pos_f - pos_i;
-        auto dist_i_f = displacement.magnitude();
-        displacement.normalize();
+        auto displacement = GetStepDirection(track_[i], track_[i+1]);
+        auto dist_i_f = (pos_f - pos_i).magnitude();
 
         auto distance_to_closest_approach
             = geometry.DistanceToClosestApproach(pos_i, displacement);
@@ -278,15 +286,15 @@ bool Secondaries::HitGeometry(const Geometry& geometry) const {
     for (unsigned int i = 0; i < track_.size() - 1; i++) {
         auto pos_a = track_[i].position;
         auto pos_b = track_[i+1].position;
-        auto disp = (pos_b - pos_a);
-        disp.normalize();
+        auto disp = GetStepDirection(track_[i], track_[i+1]);
 
         // check if first track point lies inside geometry
         if (geometry.IsInside(pos_a, disp))
             return true;
 
-        // check if geometry lies between two track points
-        if (geometry.IsInfront(pos_a, disp) && geometry.IsBehind(pos_b, disp))
+        // check if the geometry is entered between two track points
+        auto distance = geometry.DistanceToBorder(pos_a, disp).first;
+        if (distance >= 0 && distance <= (pos_b - pos_a).magnitude())
             return true;
     }
 
-- 
2.43.0


From 348975ed475f40f85b802af400beaca399247a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:43 +0000
Subject: [PATCH 46/58] fix: times of states between track points follow from
 their column depth

---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index d244519..536e22c 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -106,7 +106,7 @@ ParticleState Secondaries::GetStateForEnergy(double energy) const
                 auto displacement = GetStepDirection(track_[i-1], track_[i]);
                 return RePropagateEnergy(
                         track_[i-1], displacement, track_[i-1].energy - energy,
-                        track_[i-1].propagated_distance - track_[i].propagated_distance);
+                        track_[i].propagated_distance - track_[i-1].propagated_distance);
             } else {
                 return track_[i-1];
             }
@@ -326,7 +326,7 @@ ParticleState Secondaries::RePropagateEnergy(const ParticleState& init,
 
     auto E_f = init.energy - energy_lost;
     auto new_time = init.time + utility.TimeElapsed(
-            init.energy, E_f, displacement, density->Evaluate(init.position));
+            init.energy, E_f, advance_grammage, density->Evaluate(init.position));
     auto new_position = init.position + direction * displacement;
     auto new_propagated_distance = init.propagated_distance + displacement;
 
@@ -351,7 +351,7 @@ ParticleState Secondaries::RePropagateDistance(const ParticleState& init,
                                                displacement);
     auto E_f = utility.EnergyDistance(init.energy, advance_grammage);
     auto new_time = init.time + utility.TimeElapsed(
-            init.energy, E_f, displacement, density->Evaluate(init.position));
+            init.energy, E_f, advance_grammage, density->Evaluate(init.position));
     auto new_position = init.position + direction * displacement;
     auto new_propagated_distance = init.propagated_distance + displacement;
     return ParticleState((ParticleType)primary_def_->particle_type, new_position,
-- 
2.43.0


From df8614c03ae522a215815cbb6e0cfd627d9fb207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:43 +0000
Subject: [PATCH 47/58] fix: closest approach of scattered tracks is the
 closest of all steps

---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 44 +++++++++++---------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index 536e22c..cccb39c 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -259,27 +259,33 @@ std::shared_ptr<ParticleState> Secondaries::GetClosestApproachPoint(
    if (track_.size() == 1)
        return std::make_unique<ParticleState>(track_.front());
 
-    for (unsigned int i = 0; i < track_.size() - 1; i++) {
-        auto pos_i = track_[i].position;
-        auto pos_f = track_[i+1].position;
-
-        auto displacement = GetStepDirection(track_[i], track_[i+1]);
-        auto dist_i_f = (pos_f - pos_i).magnitude();
-
-        auto distance_to_closest_approach
-            = geometry.DistanceToClosestApproach(pos_i, displacement);
-        if (std::abs(distance_to_closest_approach - dist_i_f) <= PARTICLE_POSITION_RESOLUTION) {
-            return std::make_unique<ParticleState>(track_[i+1]);
-        } else if (distance_to_closest_approach < dist_i_f) {
-            if (distance_to_closest_approach < PARTICLE_POSITION_RESOLUTION)
-                return std::make_unique<ParticleState>(track_[i]);
-
-            auto closest_approach = RePropagateDistance(
-                    track_[i], displacement, distance_to_closest_approach);
-            return std::make_unique<ParticleState>(closest_approach);
+    // find the step which comes closest to the geometry. Scattered tracks may
+    // approach the geometry repeatedly
+    size_t closest_step = 0;
+    double closest_length = 0;
+    double closest_distance = -1;
+    for (size_t i = 0; i < track_.size() - 1; i++) {
+        auto step_direction = GetStepDirection(track_[i], track_[i+1]);
+        auto step_length = (track_[i+1].position - track_[i].position).magnitude();
+        auto length = geometry.DistanceToClosestApproach(track_[i].position, step_direction);
+        length = std::min(std::max(length, 0.), step_length);
+        auto closest_position = track_[i].position + step_direction * length;
+        auto distance = (closest_position - geometry.GetPosition()).magnitude();
+        if (closest_distance < 0 || distance < closest_distance) {
+            closest_step = i;
+            closest_length = length;
+            closest_distance = distance;
         }
     }
-    return std::make_unique<ParticleState>(track_.back());
+
+    auto& start = track_[closest_step];
+    auto& end = track_[closest_step + 1];
+    if (closest_length < PARTICLE_POSITION_RESOLUTION)
+        return std::make_unique<ParticleState>(start);
+    if ((end.position - start.position).magnitude() - closest_length <= PARTICLE_POSITION_RESOLUTION)
+        return std::make_unique<ParticleState>(end);
+    return std::make_unique<ParticleState>(RePropagateDistance(
+            start, GetStepDirection(start, end), closest_length));
 }
 
 bool Secondaries::HitGeometry(const Geometry& geometry) const {
-- 
2.43.0


From fc1d78a714b38b1e29558adbf26f09a74548fb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:43 +0000
Subject: [PATCH 48/58] fix: entry and exit points at track points on the
 border

---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index cccb39c..9776af2 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -206,7 +206,8 @@ std::shared_ptr<ParticleState> Secondaries::GetEntryPoint(
         auto dist_i_f = (pos_f - pos_i).magnitude();
 
         auto distance = geometry.DistanceToBorder(pos_i, displacement).first;
-        if (distance <= dist_i_f && distance >= 0) {
+        // the track point can be on the border, closer than its resolution
+        if (distance >= 0 && distance < dist_i_f + PARTICLE_POSITION_RESOLUTION) {
             if (std::abs(dist_i_f - distance) < PARTICLE_POSITION_RESOLUTION)
                 return std::make_unique<ParticleState>(track_[i+1]);
             auto entry_point = RePropagateDistance(track_[i], displacement,
@@ -236,7 +237,8 @@ std::shared_ptr<ParticleState> Secondaries::GetExitPoint(
         auto dist_i_f = (pos_f - pos_i).magnitude();
 
         auto distance = geometry.DistanceToBorder(pos_f, -displacement).first;
-        if (distance <= dist_i_f && distance >= 0) {
+        // the track point can be on the border, closer than its resolution
+        if (distance >= 0 && distance < dist_i_f + PARTICLE_POSITION_RESOLUTION) {
             if (std::abs(dist_i_f - distance) < PARTICLE_POSITION_RESOLUTION)
                 return std::make_unique<ParticleState>(track_[i-1]);
             auto exit_point = RePropagateDistance(
-- 
2.43.0


From e29508341e0d027248f9755662819cf0c9e2acf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:53 +0000
Subject: [PATCH 49/58] fix: states at given energies stay within their step

---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index 9776af2..68fdb64 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -329,8 +329,15 @@ ParticleState Secondaries::RePropagateEnergy(const ParticleState& init,
     }
     auto advance_grammage = utility.LengthContinuous(init.energy,
                                                      init.energy - energy_lost);
-    auto displacement = density->Correct(init.position, init.direction,
-                                         advance_grammage, max_distance);
+    // the state lies within its step, even if its column can not be reached
+    // (rounding, vanishing density)
+    auto displacement = max_distance;
+    try {
+        displacement = std::min(max_distance,
+                                density->Correct(init.position, init.direction,
+                                                 advance_grammage, max_distance));
+    } catch (const DensityException&) {
+    }
 
     auto E_f = init.energy - energy_lost;
     auto new_time = init.time + utility.TimeElapsed(
-- 
2.43.0


From 902ddb991ac6863e8db37ce71fb782a18e78b873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:53 +0000
Subject: [PATCH 50/58] fix: configurations with sectors, geometries or
 deflections of a wrong type are refused

---
 src/PROPOSAL/PROPOSAL/scattering/ScatteringFactory.h | 6 ++++--
 src/PROPOSAL/detail/PROPOSAL/Propagator.cxx          | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/scattering/ScatteringFactory.h b/src/PROPOSAL/PROPOSAL/scattering/ScatteringFactory.h
index 8bcc6e1..2972b1b 100644
--- a/src/PROPOSAL/PROPOSAL/scattering/ScatteringFactory.h
+++ b/src/PROPOSAL/PROPOSAL/scattering/ScatteringFactory.h
@@ -23,7 +23,8 @@ std::unique_ptr<Scattering> make_scattering(const nlohmann::json& config,
 
     std::vector<std::unique_ptr<stochastic_deflection::Parametrization>> sd = {};
     if (config.contains("stochastic_deflection")) {
-        assert(config["stochastic_deflection"].is_array());
+        if (!config["stochastic_deflection"].is_array())
+            throw std::invalid_argument("The stochastic deflections must be given as an array");
         for (const auto& param_raw : config.at("stochastic_deflection")) {
             std::string param = param_raw;
             std::transform(param.begin(), param.end(), param.begin(), ::tolower);
@@ -57,7 +58,8 @@ std::unique_ptr<Scattering> make_scattering(const nlohmann::json& config,
 
     std::vector<std::pair<InteractionType, double>> sd_multiplier = {};
     if (config.contains("stochastic_deflection_multiplier")) {
-        assert(config["stochastic_deflection_multiplier"].is_object());
+        if (!config["stochastic_deflection_multiplier"].is_object())
+            throw std::invalid_argument("The stochastic deflection multipliers must be given as an object");
         for (auto& item : config["stochastic_deflection_multiplier"].items()) {
             std::string type = item.key();
             std::transform(type.begin(), type.end(), type.begin(), ::tolower);
diff --git a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
index f20a40a..182ad16 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Propagator.cxx
@@ -47,7 +47,8 @@ Propagator::Propagator(const ParticleDef& p_def, const nlohmann::json& config)
     if (config.contains("global"))
         global = GlobalSettings(config["global"]);
     if (config.contains("sectors")) {
-        assert(config["sectors"].is_array());
+        if (!config["sectors"].is_array())
+            throw std::invalid_argument("The sectors must be given as an array");
         for (const auto& json_sector : config.at("sectors")) {
             InitializeSectorFromJSON(p_def, json_sector, global);
         }
@@ -450,7 +451,8 @@ void Propagator::InitializeSectorFromJSON(const ParticleDef& p_def,
     auto utility = PropagationUtility(collection);
 
     if (json_sector.contains("geometries")) {
-        assert(json_sector["geometries"].is_array());
+        if (!json_sector["geometries"].is_array())
+            throw std::invalid_argument("The geometries must be given as an array");
         for (const auto& json_geometry : json_sector.at("geometries")) {
             auto geometry = CreateGeometry(json_geometry);
             auto density = CreateDensityDistribution(density_distr);
-- 
2.43.0


From ad8cf25bf99036b18d87d13ec48e207d72d84eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:11 +0000
Subject: [PATCH 51/58] fix: sampling Koch-Motz angles leaves the global random
 stream alone

---
 .../parametrization/bremsstrahlung/BremsKochMotz.cxx  | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsKochMotz.cxx b/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsKochMotz.cxx
index 83b381e..5cc82a3 100644
--- a/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsKochMotz.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsKochMotz.cxx
@@ -1,9 +1,9 @@
 #include "PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsKochMotz.h"
 #include "PROPOSAL/Constants.h"
-#include "PROPOSAL/math/RandomGenerator.h"
 #include <cmath>
 #include <algorithm>
 #include <limits>
+#include <random>
 
 using namespace PROPOSAL;
 
@@ -35,8 +35,9 @@ secondaries::BremsKochMotz::CalculateDirections(
         const Component& c, std::vector<double>& rnd){
     // We do not know in advance how many random numbers we need, so use one
     // passed random number to set the seed for a RNG to keep reproducibility
-    RandomGenerator internal_rnd_generator;
-    internal_rnd_generator.SetSeed(std::numeric_limits<int>::max() * rnd[0]);
+    std::mt19937 internal_rnd_generator(
+            static_cast<int>(std::numeric_limits<int>::max() * rnd[0]));
+    std::uniform_real_distribution<double> uniform(0., 1.);
 
     // Based on "Improved bremsstrahlung photon angular sampling in the EGS4
     // code system" (PIRS-0203), algorithm given in chapter (2.1)
@@ -45,10 +46,10 @@ secondaries::BremsKochMotz::CalculateDirections(
     auto Z = c.GetNucCharge();
     double phi, x_hat, g_max;
     do {
-        phi = CalculatePhiCandidate(E_0, internal_rnd_generator.RandomDouble());
+        phi = CalculatePhiCandidate(E_0, uniform(internal_rnd_generator));
         x_hat = std::pow(E_0 * phi, 2);
         g_max = N(E, E_0, Z) * g(x_hat, E, E_0, Z);
-    } while (internal_rnd_generator.RandomDouble() > g_max);
+    } while (uniform(internal_rnd_generator) > g_max);
     auto cosphi = std::cos(phi);
     auto theta = rnd[1] * 2. * PI;
     auto dir_photon = Cartesian3D(init_direction);
-- 
2.43.0


From 78e2b1ff0ae7040031f02bc5fd71918165eb675f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:39 +0000
Subject: [PATCH 52/58] fix: annihilation photons at high energies follow the
 cross section down to the smallest shares

---
 .../parametrization/annihilation/HeitlerAnnihilation.cxx        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/annihilation/HeitlerAnnihilation.cxx b/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/annihilation/HeitlerAnnihilation.cxx
index 6b86611..2a70fa6 100644
--- a/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/annihilation/HeitlerAnnihilation.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/secondaries/parametrization/annihilation/HeitlerAnnihilation.cxx
@@ -30,7 +30,7 @@ double secondaries::HeitlerAnnihilation::CalculateRho(double energy, double rnd,
     double a1 = 1 + 2 * gamma * a2;
 
     auto function_to_solve = [&](double rho) { return f(rho, a1, a2, rho_min, rho_max, rnd); };
-    double precision = rho_min * energy * HALF_PRECISION;
+    double precision = rho_min * HALF_PRECISION;
     return Bisection(function_to_solve, rho_min, rho_max, precision, 100).first;
 }
 
-- 
2.43.0


From b27b84bdb4e4d519d7c0871cf51af12d054ebb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:04 +0000
Subject: [PATCH 53/58] fix: muons from pair production by photons have at
 least their rest mass

---
 .../crosssection/parametrization/PhotoMuPairProduction.cxx  | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoMuPairProduction.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoMuPairProduction.cxx
index b0d072d..da2e431 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoMuPairProduction.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoMuPairProduction.cxx
@@ -23,8 +23,10 @@ crosssection::KinematicLimits crosssection::PhotoMuPairProduction::GetKinematicL
         lim.v_min = 0.5;
         lim.v_max = 0.5;
     } else {
-        lim.v_min = 0.5 * (1. - std::sqrt(1. - 2 * SQRTE * MMU / energy));
-        lim.v_max = 0.5 * (1. + std::sqrt(1. - 2 * SQRTE * MMU / energy));
+        // neither muon can get less than its rest mass
+        lim.v_min = std::max(
+            0.5 * (1. - std::sqrt(1. - 2 * SQRTE * MMU / energy)), MMU / energy);
+        lim.v_max = 1. - lim.v_min;
     }
     return lim;
 }
-- 
2.43.0


From 4c611cdbfadd9809c6dbc4bac7840c627a17c562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:54 +0000
Subject: [PATCH 54/58] fix: copies of integrated Highland scattering outlive
 their original

---
 .../scattering/multiple_scattering/HighlandIntegral.h       | 2 +-
 .../scattering/multiple_scattering/HighlandIntegral.cxx     | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.h b/src/PROPOSAL/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.h
index 4224f35..de93138 100644
--- a/src/PROPOSAL/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.h
+++ b/src/PROPOSAL/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.h
@@ -41,7 +41,7 @@ namespace multiple_scattering {
     class HighlandIntegral : public Highland {
         std::shared_ptr<UtilityIntegral> highland_integral;
 
-        inline double Integral(Displacement&, double);
+        static inline double Integral(Displacement&, double, double);
 
     public:
         HighlandIntegral(const ParticleDef& p, Medium const& m,
diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.cxx
index bd7e34c..04421e5 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/HighlandIntegral.cxx
@@ -17,7 +17,7 @@ double HighlandIntegral::CalculateTheta0(double grammage, double ei, double ef)
     return std::min(aux, 1.0);
 }
 
-double HighlandIntegral::Integral(Displacement& disp, double energy)
+double HighlandIntegral::Integral(Displacement& disp, double energy, double mass)
 {
     auto square_momentum = (energy - mass) * (energy + mass);
     auto aux = energy / square_momentum;
@@ -28,14 +28,14 @@ HighlandIntegral::HighlandIntegral(const ParticleDef& p, Medium const& m,
                  std::shared_ptr<Displacement> disp, std::false_type)
         : Highland(p, m)
         , highland_integral(std::make_unique<UtilityIntegral>(
-                [this, disp](double E) { return Integral(*disp, E); },
+                [disp, mass = p.mass](double E) { return Integral(*disp, E, mass); },
                 disp->GetLowerLim(), disp->GetHash())) {};
 
 HighlandIntegral::HighlandIntegral(const ParticleDef& p, Medium const& m,
                  std::shared_ptr<Displacement> disp, std::true_type)
         : Highland(p, m)
         , highland_integral(std::make_unique<UtilityInterpolant>(
-                [this, disp](double E) { return Integral(*disp, E); },
+                [disp, mass = p.mass](double E) { return Integral(*disp, E, mass); },
                 disp->GetLowerLim(), disp->GetHash())) {
         highland_integral->BuildTables("scattering_", 500, true);
 };
-- 
2.43.0


From d9e468cee6bd4f58c72c9a6fc0e0cc54f2dc9b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:54 +0000
Subject: [PATCH 55/58] fix: Moliere models compare equal whatever they
 calculated before

---
 .../PROPOSAL/scattering/multiple_scattering/Moliere.cxx       | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx
index 0f5c471..3c13041 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx
@@ -202,10 +202,6 @@ bool Moliere::compare(const Parametrization& scattering) const
         return false;
     else if (max_weight_index_ != sc->max_weight_index_)
         return false;
-    else if (chiCSq_ != sc->chiCSq_)
-        return false;
-    else if (B_ != sc->B_)
-        return false;
     else
         return true;
 }
-- 
2.43.0


From 54f09f229349ea53ab45636a39a4fb309154cf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:10 +0000
Subject: [PATCH 56/58] fix: Moliere scattering takes the charge of the
 particle into account

---
 .../PROPOSAL/scattering/multiple_scattering/Moliere.h |  1 +
 .../scattering/multiple_scattering/Moliere.cxx        | 11 +++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/scattering/multiple_scattering/Moliere.h b/src/PROPOSAL/PROPOSAL/scattering/multiple_scattering/Moliere.h
index 9c82266..7690fd6 100644
--- a/src/PROPOSAL/PROPOSAL/scattering/multiple_scattering/Moliere.h
+++ b/src/PROPOSAL/PROPOSAL/scattering/multiple_scattering/Moliere.h
@@ -45,6 +45,7 @@ namespace multiple_scattering {
         bool compare(const Parametrization&) const override;
         void print(std::ostream&) const override;
 
+        double charge_; // charge of the scattered particle
         int numComp_; // number of components in medium
         double ZSq_A_average_;
         std::vector<double> Zi_; // nuclear charge of different components
diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx
index 3c13041..dfe527a 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx
@@ -13,6 +13,10 @@
 using namespace PROPOSAL::multiple_scattering;
 
 double Moliere::GetPrefactor(double ei, double grammage) {
+    if (charge_ == 0)
+        return 0; // neutral particles are not scattered
+
+    double charge_Sq = charge_ * charge_;
     double momentum_Sq = (ei - mass) * (ei + mass);
     double beta_Sq = 1. / (1. + mass * mass / momentum_Sq); // beta^2 = (v/c)^2
 
@@ -30,12 +34,12 @@ double Moliere::GetPrefactor(double ei, double grammage) {
         chi_0 = ME * ALPHA * std::pow(Zi_[i] * 128. / (9. * PI * PI), 1. / 3.);
         // Calculate Chi_a^2
         chi_A_Sq[i] = chi_0 * chi_0 / momentum_Sq
-                      * (1.13 + 3.76 * ALPHA * ALPHA * Zi_[i] * Zi_[i] / beta_Sq);
+                      * (1.13 + 3.76 * ALPHA * ALPHA * charge_Sq * Zi_[i] * Zi_[i] / beta_Sq);
     }
 
     // Calculate Chi_c^2
     chiCSq_ = ((4. * PI * NA * ALPHA * ALPHA * HBAR * HBAR * SPEED * SPEED)
-               * (grammage) / beta_p_Sq)
+               * charge_Sq * (grammage) / beta_p_Sq)
               * ZSq_A_average_;
 
     // Calculate B
@@ -126,6 +130,7 @@ double Moliere::CalculateScatteringAngle2D(double grammage, double ei, double ef
 
 Moliere::Moliere(const ParticleDef& particle_def, Medium const& medium)
     : Parametrization(particle_def.mass)
+    , charge_(particle_def.charge)
     , numComp_(medium.GetNumComponents())
     , ZSq_A_average_(0.0)
     , Zi_(numComp_)
@@ -190,6 +195,8 @@ bool Moliere::compare(const Parametrization& scattering) const
 
     if (!sc)
         return false;
+    else if (charge_ != sc->charge_)
+        return false;
     else if (numComp_ != sc->numComp_)
         return false;
     else if (ZSq_A_average_ != sc->ZSq_A_average_)
-- 
2.43.0


From cfcaea880baeea1a4420d6f3e4615c39a41e9c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:29 +0000
Subject: [PATCH 57/58] fix: Moliere scattering with few scatterings gives no
 random angles

---
 .../PROPOSAL/scattering/multiple_scattering/Moliere.cxx     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx
index dfe527a..69e7da7 100644
--- a/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/scattering/multiple_scattering/Moliere.cxx
@@ -45,6 +45,12 @@ double Moliere::GetPrefactor(double ei, double grammage) {
     // Calculate B
 
     for (int i = 0; i < numComp_; i++) {
+        // for few scatterings there is no solution to iterate to (or one with
+        // B < 4.5, see below)
+        if (std::log(chiCSq_ / chi_A_Sq[i]) + 1. - 2. * EULER_MASCHERONI
+            < 4.5 - std::log(4.5))
+            return 0;
+
         // calculate B-ln(B) = ln(chi_c^2/chi_a^2)+1-2*EULER_MASCHERONI via
         // Newton-Raphson method
         double xn = 15.;
-- 
2.43.0


From b74804b6289bc05a11ab09d674ed0a729fce72fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:06 +0000
Subject: [PATCH 58/58] fix: cross sections report unknown targets instead of
 dereferencing a null pointer

---
 src/PROPOSAL/PROPOSAL/crosssection/CrossSection.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/crosssection/CrossSection.h b/src/PROPOSAL/PROPOSAL/crosssection/CrossSection.h
index b11afdd..f544e3c 100644
--- a/src/PROPOSAL/PROPOSAL/crosssection/CrossSection.h
+++ b/src/PROPOSAL/PROPOSAL/crosssection/CrossSection.h
@@ -280,8 +280,8 @@ protected:
     double CalculateStochasticLoss_impl(
         size_t target_hash, double E, double rate, std::false_type)
     {
-        return std::get<1>((*dndx)[target_hash])
-            ->GetUpperLimit(E, rate * std::get<0>((*dndx)[target_hash]));
+        return std::get<1>(dndx->at(target_hash))
+            ->GetUpperLimit(E, rate * std::get<0>(dndx->at(target_hash)));
     }
 
     double CalculateStochasticLoss_impl(size_t, double, double, std::true_type)
@@ -304,8 +304,8 @@ public:
     double CalculatedNdx(double E, size_t target_hash) override
     {
         if (dndx)
-            return std::get<1>((*dndx)[target_hash])->Calculate(E)
-                / std::get<0>((*dndx)[target_hash]);
+            return std::get<1>(dndx->at(target_hash))->Calculate(E)
+                / std::get<0>(dndx->at(target_hash));
         return 0.;
     };
 
@@ -313,8 +313,8 @@ public:
         double E, size_t hash, double v) override
     {
         if (dndx)
-            return std::get<1>((*dndx)[hash])->Calculate(E, v)
-                / std::get<0>((*dndx)[hash]);
+            return std::get<1>(dndx->at(hash))->Calculate(E, v)
+                / std::get<0>(dndx->at(hash));
         return 0.;
     }
 
-- 
2.43.0

