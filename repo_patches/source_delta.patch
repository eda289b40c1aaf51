From 2dd73b69e7586db0b0e9285b63e379f082cce18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:05 +0000
Subject: [PATCH 01/34] fix: addTrajectories can write to the trajectory it is
 called on

clear() on the output wiped the source when both are the same object.
---
 subpackages/mav_trajectory_generation/src/trajectory.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/src/trajectory.cpp b/subpackages/mav_trajectory_generation/src/trajectory.cpp
index 22d6dd7..249d8a6 100644
--- a/subpackages/mav_trajectory_generation/src/trajectory.cpp
+++ b/subpackages/mav_trajectory_generation/src/trajectory.cpp
@@ -237,8 +237,7 @@ std::vector<double> Trajectory::getSegmentTimes() const {
 bool Trajectory::addTrajectories(const std::vector<Trajectory>& trajectories,
                                  Trajectory* merged) const {
   CHECK_NOTNULL(merged);
-  merged->clear();
-  *merged = *this;
+  *merged = *this;  // No clear() first: merged may be this trajectory.
 
   for (const Trajectory& t : trajectories) {
     // Check dimensions and coefficients.
-- 
2.43.0


From 0538e5dd20bbeda62a59ec8f262aad343e683128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:44 +0000
Subject: [PATCH 02/34] fix: evaluateRange starts at the requested time

Sampling times counted from the start of the segment that holds t_start, so
they were wrong and the range overran; a start at the end read past the last
segment.
---
 subpackages/mav_trajectory_generation/src/trajectory.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/subpackages/mav_trajectory_generation/src/trajectory.cpp b/subpackages/mav_trajectory_generation/src/trajectory.cpp
index 249d8a6..cf354c9 100644
--- a/subpackages/mav_trajectory_generation/src/trajectory.cpp
+++ b/subpackages/mav_trajectory_generation/src/trajectory.cpp
@@ -113,9 +113,16 @@ void Trajectory::evaluateRange(double t_start, double t_end, double dt,
     return;
   }
 
+  // Make sure we don't go off the end of the segments (can happen if t_start is
+  // equal to trajectory max time).
+  if (i >= segments_.size()) {
+    i = segments_.size() - 1;
+  }
   // Go back to the start of this segment.
   accumulated_time -= segments_[i].getTime();
   double time_in_segment = t_start - accumulated_time;
+  // From here on, accumulated_time is the time of the next sample.
+  accumulated_time = t_start;
 
   // Get all the samples, incrementing the segments as we go.
   while (accumulated_time < t_end) {
-- 
2.43.0


From afa7d94b821521ad121360b58beb440e129c4587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:37 +0000
Subject: [PATCH 03/34] fix: magnitude extrema of derivatives at or above the
 polynomial order

They are zero everywhere. One dimension reported lowest() as the maximum,
several dimensions aborted on a negative vector size.
---
 subpackages/mav_trajectory_generation/src/segment.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/subpackages/mav_trajectory_generation/src/segment.cpp b/subpackages/mav_trajectory_generation/src/segment.cpp
index 8aa578e..14e71c9 100644
--- a/subpackages/mav_trajectory_generation/src/segment.cpp
+++ b/subpackages/mav_trajectory_generation/src/segment.cpp
@@ -90,6 +90,10 @@ bool Segment::computeMinMaxMagnitudeCandidateTimes(
   if (dimensions.empty()) {
     LOG(WARNING) << "No dimensions specified." << std::endl;
     return false;
+  } else if (derivative >= N_) {
+    // The derivative is zero everywhere.
+    candidate_times->push_back(t_start);
+    candidate_times->push_back(t_end);
   } else if (dimensions.size() > 1) {
     const int n_d = N_ - derivative;
     const int n_dd = n_d - 1;
-- 
2.43.0


From e331ad92278998db92164a2a3d4a50cba6ed6236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 04/34] fix: joining segments of different order and duration
 keeps the time scaling

The zero-padded polynomials were taken from the unscaled segments.
---
 subpackages/mav_trajectory_generation/src/segment.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/src/segment.cpp b/subpackages/mav_trajectory_generation/src/segment.cpp
index 14e71c9..f2ec834 100644
--- a/subpackages/mav_trajectory_generation/src/segment.cpp
+++ b/subpackages/mav_trajectory_generation/src/segment.cpp
@@ -247,13 +247,14 @@ bool Segment::getSegmentWithAppendedDimension(const Segment& segment_to_append,
     for (int i = 0; i < new_D; i++) {
       Polynomial polynomial_to_append(new_N);
       if (i < D_) {
-        if (!polynomials_[i].getPolynomialWithAppendedCoefficients(
+        if (!current_segment[i].getPolynomialWithAppendedCoefficients(
                 new_N, &polynomial_to_append)) {
           return false;
         }
       } else {
-        if (!segment_to_append[i - D_].getPolynomialWithAppendedCoefficients(
-                new_N, &polynomial_to_append)) {
+        if (!segment_to_append_temp[i - D_]
+                 .getPolynomialWithAppendedCoefficients(
+                     new_N, &polynomial_to_append)) {
           return false;
         }
       }
-- 
2.43.0


From 5fb74443c3b6f8a27edf12f83cf88576ef168744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:40 +0000
Subject: [PATCH 05/34] fix: getTrajectoryWithSingleDimension keeps the segment
 durations

---
 subpackages/mav_trajectory_generation/src/trajectory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subpackages/mav_trajectory_generation/src/trajectory.cpp b/subpackages/mav_trajectory_generation/src/trajectory.cpp
index cf354c9..df1e413 100644
--- a/subpackages/mav_trajectory_generation/src/trajectory.cpp
+++ b/subpackages/mav_trajectory_generation/src/trajectory.cpp
@@ -157,6 +157,7 @@ Trajectory Trajectory::getTrajectoryWithSingleDimension(int dimension) const {
   for (size_t k = 0; k < segments_.size(); ++k) {
     Segment segment(N_, 1);
     segment[0] = (segments_[k])[dimension];
+    segment.setTime(segments_[k].getTime());
     segments.push_back(segment);
   }
 
-- 
2.43.0


From 54a099100ca34bc3a1e6fe86302866431c7b15a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:28 +0000
Subject: [PATCH 06/34] fix: second derivative of the waypoint correction

The second derivative of exp(-(t-mu)^2/(2 s^2)) is ((t-mu)^2/s^4 - 1/s^2) times
it; the -1/s^2 term was missing.
---
 include/dynamic_trajectory_generator/utils/traj_modifiers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp b/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
index 80d99da..21169a3 100644
--- a/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
+++ b/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
@@ -62,7 +62,7 @@ public:
       value = -((t - mu_) / (sigma_squared_)) * std::exp(-((t - mu_) * (t - mu_)) / (2 * sigma_squared_));
       break;
     case 2:
-      value = ((t - mu_) / (sigma_squared_)) * ((t - mu_) / (sigma_squared_)) * std::exp(-((t - mu_) * (t - mu_)) / (2 * sigma_squared_));
+      value = (((t - mu_) / (sigma_squared_)) * ((t - mu_) / (sigma_squared_)) - 1.0 / sigma_squared_) * std::exp(-((t - mu_) * (t - mu_)) / (2 * sigma_squared_));
       break;
     }
     value *= increment_;
-- 
2.43.0


From 4186997e697ba6256388032f547901dbf78e5dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:28 +0000
Subject: [PATCH 07/34] fix: a change at the waypoint's own time does not
 produce NaN

With no time left the width is zero and the correction was 0/0 at that time.
---
 include/dynamic_trajectory_generator/utils/traj_modifiers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp b/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
index 21169a3..a121da0 100644
--- a/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
+++ b/include/dynamic_trajectory_generator/utils/traj_modifiers.hpp
@@ -48,7 +48,7 @@ public:
   {
     // double max_reaction_time = MAX_REACTION_TIME;
     double max_reaction_time = 3.5 * sigma_;
-    if (std::abs(increment_) < 0.02 || std::abs(t - mu_) > max_reaction_time)
+    if (sigma_ <= 0.0 || std::abs(increment_) < 0.02 || std::abs(t - mu_) > max_reaction_time)
     {
       return 0;
     }
-- 
2.43.0


From 136824964afbd18775d616e9513ee4e1665c7456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:20 +0000
Subject: [PATCH 08/34] fix: copying a waypoint keeps the width of its next
 correction

The copy constructor left last_sigma_ at its default, so a copy reacted to a
later change with a different correction than the waypoint it was copied from.
---
 src/dynamic_waypoint.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynamic_waypoint.cpp b/src/dynamic_waypoint.cpp
index 5d62c87..b1972b7 100644
--- a/src/dynamic_waypoint.cpp
+++ b/src/dynamic_waypoint.cpp
@@ -28,6 +28,7 @@ namespace dynamic_traj_generator
         t_assigned_(other.t_assigned_), name_(other.name_), index_(other.index_)
   {
     modifiers_ = other.modifiers_;
+    last_sigma_ = other.last_sigma_;
   }
 
   void DynamicWaypoint::setCurrentPosition(Eigen::Vector3d position, double actual_time)
-- 
2.43.0


From b690d21e6db35861452dc3db826c000559d7eb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:11 +0000
Subject: [PATCH 09/34] fix: vertices of different dimension compare unequal

isEqualTol subtracted constraint vectors of different size, which aborts with
assertions on and reads out of bounds without.
---
 subpackages/mav_trajectory_generation/src/vertex.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subpackages/mav_trajectory_generation/src/vertex.cpp b/subpackages/mav_trajectory_generation/src/vertex.cpp
index a46cdaf..5117391 100644
--- a/subpackages/mav_trajectory_generation/src/vertex.cpp
+++ b/subpackages/mav_trajectory_generation/src/vertex.cpp
@@ -168,6 +168,7 @@ bool Vertex::hasConstraint(int derivative_order) const {
 }
 
 bool Vertex::isEqualTol(const Vertex& rhs, double tol) const {
+  if (D_ != rhs.D_) return false;
   if (constraints_.size() != rhs.constraints_.size()) return false;
   // loop through lhs constraint map
   for (typename Constraints::const_iterator it = cBegin(); it != cEnd(); ++it) {
-- 
2.43.0


From 83b7491b06f4b60c08b5a27a900ca96f1a7556cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:21 +0000
Subject: [PATCH 10/34] fix: the accumulator's maximum starts at the lowest
 value

numeric_limits<double>::min() is the smallest positive double, so the maximum of
values below it (negative ones, zero) was reported as 2.2e-308.
---
 .../include/mav_trajectory_generation/timing.h                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
index f30305d..651b1cd 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/timing.h
@@ -42,7 +42,7 @@ class Accumulator {
         window_sum_(0),
         sum_(0),
         min_(std::numeric_limits<T>::max()),
-        max_(std::numeric_limits<T>::min()) {}
+        max_(std::numeric_limits<T>::lowest()) {}
 
   void Add(T sample) {
     if (window_samples_ < N) {
-- 
2.43.0


From 562b183073f8a4a4bcc01b8e363cb6b411361202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:48 +0000
Subject: [PATCH 11/34] fix: estimated segment times have a positive minimum

Two consecutive waypoints at the same position gave a segment time of zero, with
which the optimizer aborts.  The velocity ramp estimate already had this bound.
---
 subpackages/mav_trajectory_generation/src/vertex.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/subpackages/mav_trajectory_generation/src/vertex.cpp b/subpackages/mav_trajectory_generation/src/vertex.cpp
index 5117391..d3b5e39 100644
--- a/subpackages/mav_trajectory_generation/src/vertex.cpp
+++ b/subpackages/mav_trajectory_generation/src/vertex.cpp
@@ -259,6 +259,9 @@ std::vector<double> estimateSegmentTimesNfabian(const Vertex::Vector& vertices,
   CHECK_GE(vertices.size(), 2);
   std::vector<double> segment_times;
   segment_times.reserve(vertices.size() - 1);
+
+  constexpr double kMinSegmentTime = 0.1;
+
   for (size_t i = 0; i < vertices.size() - 1; ++i) {
     Eigen::VectorXd start, end;
     vertices[i].getConstraint(derivative_order::POSITION, &start);
@@ -284,6 +287,7 @@ std::vector<double> estimateSegmentTimesNfabian(const Vertex::Vector& vertices,
     } else {
       t = distance / v_max;
     }
+    t = std::max(kMinSegmentTime, t);
     segment_times.push_back(t);
   }
   return segment_times;
-- 
2.43.0


From 8996da13cefa97f808921893de8e08d0cd696322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:25 +0000
Subject: [PATCH 12/34] fix: reflections are not accepted as rotation matrices

The determinant check was one-sided, so a matrix with determinant -1 passed.
---
 .../mav_trajectory_generation/include/mav_msgs/common.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp b/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
index be02f20..6c83556 100644
--- a/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
+++ b/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
@@ -178,7 +178,7 @@ inline bool isRotationMatrix(const Eigen::Matrix3d& mat){
     return false;
   }  
   // Check that det(R) = 1
-  if (mat.determinant() - 1.0 > kSmallValueCheck){
+  if (std::abs(mat.determinant() - 1.0) > kSmallValueCheck){
     std::cerr << "[mav_msgs::common] Rotation matrix requirement violated (det(R) = 1)" << std::endl;
     return false;
   }  
-- 
2.43.0


From 0bfba46b3422fcabc5c0281bb639cee0778251c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:25 +0000
Subject: [PATCH 13/34] fix: the rotation vector of a half turn

At an angle of pi the skew part of the matrix vanishes and the result was a
vector of arbitrary direction and length (0/0).
---
 .../mav_trajectory_generation/include/mav_msgs/common.hpp  | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp b/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
index 6c83556..36634f2 100644
--- a/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
+++ b/subpackages/mav_trajectory_generation/include/mav_msgs/common.hpp
@@ -233,6 +233,13 @@ inline bool vectorFromRotationMatrix(const Eigen::Matrix3d& mat,
   
   if (phi < kSmallValueCheck){
     *vec = Eigen::Vector3d::Zero();
+  } else if (M_PI - phi < kSmallValueCheck){
+    // Half a turn: R - R^T vanishes, R = 2 n n^T - I gives the axis.
+    const Eigen::Matrix3d axis_outer =
+        (mat + Eigen::Matrix3d::Identity()) / 2.0;
+    Eigen::Index i;
+    axis_outer.diagonal().maxCoeff(&i);
+    *vec = phi * axis_outer.col(i).normalized();
   } else{
     Eigen::Matrix3d vec_skew = (mat - mat.transpose()) * phi / (2.0 * std::sin(phi));
     Eigen::Vector3d vec_unskewed;
-- 
2.43.0


From 9fcff616626a6087b6e63603cee42ca3d07fad36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:33 +0000
Subject: [PATCH 14/34] fix: an optimizer can be reused for a fully constrained
 problem

---
 .../impl/polynomial_optimization_linear_impl.h                   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h
index 4f7c6f9..f0f6da8 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h
@@ -344,6 +344,7 @@ bool PolynomialOptimization<_N>::solveLinear() {
     DLOG(WARNING)
         << "No free constraints set in the vertices. Polynomial can "
            "not be optimized. Outputting fully constrained polynomial.";
+    for (Eigen::VectorXd& dp : free_constraints_compact_) dp.resize(0);
     updateSegmentsFromCompactConstraints();
     return true;
   }
-- 
2.43.0


From b5522246018f7c27d2147ba8b59435e129975bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:08 +0000
Subject: [PATCH 15/34] fix: extrema over dimensions that do not exist are
 refused

---
 .../mav_trajectory_generation/src/segment.cpp | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/src/segment.cpp b/subpackages/mav_trajectory_generation/src/segment.cpp
index f2ec834..1bcd9e0 100644
--- a/subpackages/mav_trajectory_generation/src/segment.cpp
+++ b/subpackages/mav_trajectory_generation/src/segment.cpp
@@ -90,7 +90,15 @@ bool Segment::computeMinMaxMagnitudeCandidateTimes(
   if (dimensions.empty()) {
     LOG(WARNING) << "No dimensions specified." << std::endl;
     return false;
-  } else if (derivative >= N_) {
+  }
+  for (int dim : dimensions) {
+    if (dim < 0 || dim >= D_) {
+      LOG(WARNING) << "Specified dimensions " << dim
+                   << " are out of bounds [0.." << D_ - 1 << "]." << std::endl;
+      return false;
+    }
+  }
+  if (derivative >= N_) {
     // The derivative is zero everywhere.
     candidate_times->push_back(t_start);
     candidate_times->push_back(t_end);
@@ -102,12 +110,6 @@ bool Segment::computeMinMaxMagnitudeCandidateTimes(
     Eigen::VectorXd convolved_coefficients(convolved_coefficients_length);
     convolved_coefficients.setZero();
     for (int dim : dimensions) {
-      if (dim < 0 || dim >= D_) {
-        LOG(WARNING) << "Specified dimensions " << dim
-                     << " are out of bounds [0.." << D_ - 1 << "]."
-                     << std::endl;
-        return false;
-      }
       // Our coefficients are INCREASING, so when you take the derivative,
       // only the lower powers of t have non-zero coefficients.
       // So we take the head.
@@ -144,8 +146,10 @@ bool Segment::computeMinMaxMagnitudeCandidates(
   CHECK_NOTNULL(candidates);
   // Find candidate times (roots + start + end).
   std::vector<double> candidate_times;
-  computeMinMaxMagnitudeCandidateTimes(derivative, t_start, t_end, dimensions,
-                                       &candidate_times);
+  if (!computeMinMaxMagnitudeCandidateTimes(derivative, t_start, t_end,
+                                            dimensions, &candidate_times)) {
+    return false;
+  }
 
   // Evaluate candidate times.
   candidates->resize(candidate_times.size());
-- 
2.43.0


From 8269c2fb69f63c32ce982bfc551fe26d45d07f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:01 +0000
Subject: [PATCH 16/34] fix: polynomials of different order compare unequal

---
 .../include/mav_trajectory_generation/polynomial.h              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial.h
index 6534a6f..a2b505b 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial.h
@@ -63,7 +63,7 @@ class Polynomial {
   int N() const { return N_; }
 
   inline bool operator==(const Polynomial& rhs) const {
-    return coefficients_ == rhs.coefficients_;
+    return N_ == rhs.N_ && coefficients_ == rhs.coefficients_;
   }
   inline bool operator!=(const Polynomial& rhs) const {
     return !operator==(rhs);
-- 
2.43.0


From 5f1437c11038bac9a4cd13ae9be236e3e96792a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:55 +0000
Subject: [PATCH 17/34] fix: modifying a waypoint without regeneration no
 longer cancels a pending regeneration

---
 src/dynamic_trajectory.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 518ed2c..a4ba4ff 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -98,7 +98,9 @@ namespace dynamic_traj_generator
       iter->first = name;
       iter->second = position;
     }
-    generate_new_traj_ = generate_new_traj;
+    if (generate_new_traj) {
+      generate_new_traj_ = true;
+    }
   }
   
   void DynamicTrajectory::modifyWaypoints(
-- 
2.43.0


From 7df88948fb20aa836b4609a1779fbfd60cd4e3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:55 +0000
Subject: [PATCH 18/34] fix: requests made while a trajectory is being
 generated are no longer dropped

---
 src/dynamic_trajectory.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index a4ba4ff..678ba54 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -248,7 +248,6 @@ namespace dynamic_traj_generator
         //   (next_trajectory_waypoint_.size() == 1 && !checkStitchTrajectory()))
         {
           DYNAMIC_LOG("No waypoints to generate a new trajectory");
-          generate_new_traj_ = false;
           continue;
         }
         parameters_mutex_.lock();
@@ -276,7 +275,6 @@ namespace dynamic_traj_generator
           appendDronePositionWaypoint(next_trajectory_waypoint_);
         }
         generateTrajectory(next_trajectory_waypoint_, false);
-        generate_new_traj_ = false;
       }
 
       else if (waypoints_to_be_modified_.size() && !computing_new_trajectory_)
@@ -610,6 +608,8 @@ namespace dynamic_traj_generator
     waypoints_to_be_set_.clear();
     waypoints_to_be_added_.clear();
     waypoints_to_be_modified_.clear();
+    // every request made so far has been taken, later ones need another trajectory
+    generate_new_traj_ = false;
     return next_trajectory_waypoints;
   }
 
@@ -678,7 +678,6 @@ namespace dynamic_traj_generator
         swapTrajectory();
         swapDynamicWaypoints();
         computing_new_trajectory_ = false;
-        generate_new_traj_ = false;
       }
     }
     return true;
-- 
2.43.0


From 61f074818c2315451d091cd832d037a648135fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:09 +0000
Subject: [PATCH 19/34] fix: waypoints beyond the stitching points are no
 longer dropped before being reached

---
 src/dynamic_trajectory.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 678ba54..7521846 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -514,10 +514,14 @@ namespace dynamic_traj_generator
       //                 computeSecurityTime(n_waypoints, new_parameters_.algorithm_time_constant);
       //
       // local_eval_t += 0.5f;  // FIXME: hardcoded
-      local_eval_t += 5*TRAJECTORY_COMPUTATION_TIME;
+      if (i_waypoints_appended + 1 < N_WAYPOINTS_TO_APPEND)
+      {
+        local_eval_t += 5*TRAJECTORY_COMPUTATION_TIME;
+      }
     }
     // append the rest of the waypoints
 
+    // time of the last stitching point, the waypoints before it are already on the way
     double global_eval_t = convertIntoGlobalTime(local_eval_t);
     for (auto &waypoint : waypoints)
     {
-- 
2.43.0


From 212bfec261ada3a8e0f33851144afb4607c24fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:07 +0000
Subject: [PATCH 20/34] fix: waypoints count as passed by the time being flown,
 including its offset

---
 include/dynamic_trajectory_generator/dynamic_trajectory.hpp | 2 +-
 src/dynamic_trajectory.cpp                                  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
index be10cfa..28b6354 100644
--- a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
+++ b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
@@ -134,7 +134,7 @@ class DynamicTrajectory {
     // find values that are in t > parameters.last_local_time_evaluated
     // return a vector of waypoints 
     parameters_mutex_.lock();
-    double t = parameters_.last_global_time_evaluated;
+    double t = parameters_.last_global_time_evaluated + parameters_.t_offset;
     parameters_mutex_.unlock();
     std::unique_lock<std::mutex> uniqueLock(dynamic_waypoints_mutex_);
     for (auto& waypoint : dynamic_waypoints_){
diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 7521846..11b1fbd 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -564,7 +564,7 @@ namespace dynamic_traj_generator
   void DynamicTrajectory::filterPassedWaypoints(DynamicWaypoint::Deque &waypoints)
   {
     parameters_mutex_.lock();
-    double last_t_eval = parameters_.last_global_time_evaluated;
+    double last_t_eval = parameters_.last_global_time_evaluated + parameters_.t_offset;
     parameters_mutex_.unlock();
     for (auto it = waypoints.begin(); it != waypoints.end();)
     {
@@ -704,7 +704,7 @@ namespace dynamic_traj_generator
       return false;
     const std::lock_guard<std::mutex> lock(dynamic_waypoints_mutex_);
     parameters_mutex_.lock();
-    double last_t_eval = parameters_.last_global_time_evaluated;
+    double last_t_eval = parameters_.last_global_time_evaluated + parameters_.t_offset;
     parameters_mutex_.unlock();
     for (auto &waypoint : dynamic_waypoints_)
     {
-- 
2.43.0


From 112df461e0e1573746ed5365c12580f92b53275c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:52 +0000
Subject: [PATCH 21/34] fix: a modification also reaches waypoints whose
 trajectory has not been generated yet

---
 src/dynamic_trajectory.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 11b1fbd..c36c845 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -284,6 +284,17 @@ namespace dynamic_traj_generator
         for (auto &modification : waypoints_to_be_modified_)
         {
           bool modified = applyWaypointModification(modification.first, modification.second);
+          // waypoints still waiting for their trajectory are modified as well
+          for (auto *queue : {&waypoints_to_be_set_, &waypoints_to_be_added_})
+          {
+            for (auto &waypoint : *queue)
+            {
+              if (waypoint.getName() == modification.first && waypoint.getName() != "")
+              {
+                waypoint.resetWaypoint(modification.second);
+              }
+            }
+          }
         }
         waypoints_to_be_modified_.clear();
       }
-- 
2.43.0


From a1e5413b3644c7965c736972b0c31d831160b56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:07 +0000
Subject: [PATCH 22/34] fix: a waypoint requested again starts afresh instead
 of keeping its old time and modifications

---
 src/dynamic_trajectory.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index c36c845..8e10623 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -45,6 +45,19 @@ namespace dynamic_traj_generator
     return value;
   }
 
+  // a requested waypoint may stem from an earlier trajectory: it is a new one from its current
+  // position on, with neither the time nor the modifications it had there
+  static DynamicWaypoint asNewWaypoint(const DynamicWaypoint &waypoint)
+  {
+    DynamicWaypoint new_waypoint(waypoint);
+    if (new_waypoint.hasModifiers())
+    {
+      new_waypoint.resetWaypointWithCurrentPosition();
+    }
+    new_waypoint.setTime(0.0);
+    return new_waypoint;
+  }
+
   static void calculateIndexDynamicWaypoints(DynamicWaypoint::Deque &dynamic_vector)
   {
     for (int i = 0; i < dynamic_vector.size(); i++)
@@ -67,7 +80,7 @@ namespace dynamic_traj_generator
     waypoints_to_be_set_.reserve(waypoints.size());
     for (auto &waypoint : waypoints)
     {
-      waypoints_to_be_set_.emplace_back(waypoint);
+      waypoints_to_be_set_.emplace_back(asNewWaypoint(waypoint));
     }
     generate_new_traj_ = true;
   };
@@ -75,7 +88,7 @@ namespace dynamic_traj_generator
   void DynamicTrajectory::appendWaypoint(const DynamicWaypoint &waypoint)
   {
     const std::lock_guard<std::mutex> lock(todo_mutex);
-    waypoints_to_be_added_.emplace_back(waypoint);
+    waypoints_to_be_added_.emplace_back(asNewWaypoint(waypoint));
     generate_new_traj_ = true;
   }
 
-- 
2.43.0


From ca255c3e72fd34c665bd40b6ac63a2a7a44719aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:13 +0000
Subject: [PATCH 23/34] fix: the destructor waits for a generation in progress
 before the members go away

---
 include/dynamic_trajectory_generator/dynamic_trajectory.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
index 28b6354..99348ea 100644
--- a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
+++ b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
@@ -127,6 +127,10 @@ class DynamicTrajectory {
   ~DynamicTrajectory() {
     stop_process_ = true;
     waitForGeneratingNewTraj_thread_.join();
+    // a generation in progress still uses the members
+    if (future_traj_.valid()) {
+      future_traj_.wait();
+    }
   }
 
   dynamic_traj_generator::DynamicWaypoint::Vector getNextTrajectoryWaypoints(){
-- 
2.43.0


From ac1fa72dfdca3ce9e5fa1a17eb22645d8249f0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:29 +0000
Subject: [PATCH 24/34] fix: concurrent queries take a new trajectory over once
 and never mix two of them

---
 include/dynamic_trajectory_generator/dynamic_trajectory.hpp | 2 +-
 src/dynamic_trajectory.cpp                                  | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
index 99348ea..b29927b 100644
--- a/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
+++ b/include/dynamic_trajectory_generator/dynamic_trajectory.hpp
@@ -94,7 +94,7 @@ class DynamicTrajectory {
   const double a_max_ = MAV_MAX_ACCEL;
   Eigen::Vector3d vehicle_position_;
 
-  mutable std::mutex traj_mutex_;
+  mutable std::recursive_mutex traj_mutex_;  // held while traj_ is queried or replaced
   mutable std::mutex future_mutex_;
   mutable std::mutex dynamic_waypoints_mutex_;
   mutable std::mutex parameters_mutex_;
diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 8e10623..a7cefba 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -130,6 +130,7 @@ namespace dynamic_traj_generator
   bool DynamicTrajectory::evaluateTrajectory(const float &t, dynamic_traj_generator::References &refs,
                                              bool only_positions, bool for_plotting)
   {
+    const std::lock_guard<std::recursive_mutex> traj_lock(traj_mutex_);
     // if (!checkIfTrajectoryIsAlreadyGenerated()) return false;
     // DYNAMIC_LOG("Evaluating trajectory");
     checkTrajectoryGenerated();
@@ -174,6 +175,7 @@ namespace dynamic_traj_generator
 
   double DynamicTrajectory::getMaxTime()
   {
+    const std::lock_guard<std::recursive_mutex> traj_lock(traj_mutex_);
     if (!checkIfTrajectoryIsAlreadyGenerated())
     {
       waitUntilTrajectoryIsGenerated();
@@ -183,6 +185,7 @@ namespace dynamic_traj_generator
 
   double DynamicTrajectory::getMinTime()
   {
+    const std::lock_guard<std::recursive_mutex> traj_lock(traj_mutex_);
     if (!checkIfTrajectoryIsAlreadyGenerated())
     {
       waitUntilTrajectoryIsGenerated();
@@ -192,6 +195,7 @@ namespace dynamic_traj_generator
 
   DynamicWaypoint::Deque DynamicTrajectory::getDynamicWaypoints()
   {
+    const std::lock_guard<std::recursive_mutex> traj_lock(traj_mutex_);
     checkTrajectoryGenerated();
     std::lock_guard<std::mutex> lock(dynamic_waypoints_mutex_);
     return dynamic_waypoints_;
@@ -680,6 +684,7 @@ namespace dynamic_traj_generator
 
   bool DynamicTrajectory::checkTrajectoryGenerated()
   {
+    const std::lock_guard<std::recursive_mutex> traj_lock(traj_mutex_);
     while (traj_ == nullptr)
     {
       std::this_thread::sleep_for(std::chrono::milliseconds(10));
-- 
2.43.0


From 36cb4ed8a04376fde708d92d53738ce3abfe6b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:18 +0000
Subject: [PATCH 25/34] fix: outside the trajectory the corrections are clamped
 in time with the plan

---
 src/dynamic_trajectory.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index a7cefba..c814115 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -452,13 +452,16 @@ namespace dynamic_traj_generator
   {
 
     Eigen::Vector3d refs;
+    // both times are clamped, the corrections are those of the moment that is evaluated
     if (local_time < 0.0f)
     {
+      global_time -= local_time;
       local_time = 0.0f;
       DYNAMIC_LOG("[WARN] Time out of bounds");
     }
     if (local_time > traj.getMaxTime())
     {
+      global_time -= local_time - traj.getMaxTime();
       local_time = traj.getMaxTime();
       // if (order > 0) return Eigen::Vector3d::Zero();
     }
-- 
2.43.0


From d3c8aa89ab946c537b3ddf6c718716ee52d44118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:00 +0000
Subject: [PATCH 26/34] fix: the last evaluated time survives the take-over of
 a new trajectory

---
 src/dynamic_trajectory.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index c814115..75bd167 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -429,6 +429,11 @@ namespace dynamic_traj_generator
     }
 
     parameters_mutex_.lock();
+    // evaluations have gone on since the generation started
+    new_parameters_.last_global_time_evaluated = parameters_.last_global_time_evaluated;
+    new_parameters_.last_local_time_evaluated =
+        parameters_.last_global_time_evaluated -
+        new_parameters_.global_time_last_trajectory_generated;
     parameters_ = new_parameters_;
     parameters_mutex_.unlock();
 
-- 
2.43.0


From e80a7b3c02dac244f1604ae29c04f2380edcca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:37 +0000
Subject: [PATCH 27/34] fix: a new trajectory is fitted to the motion without
 the previous one's corrections

---
 src/dynamic_trajectory.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 75bd167..257434c 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -775,15 +775,14 @@ namespace dynamic_traj_generator
     const double max_eval_time = 1.5 * TRAJECTORY_COMPUTATION_TIME;
 
     double min_time = 0.0f;
-    double global_time = min_time + new_parameters_.global_time_last_trajectory_generated;
-    auto pos = evaluateModifiedTrajectory(traj, global_time, min_time, 0);
+    // the corrections of the previous trajectory are already part of the new one
+    Eigen::Vector3d pos = traj.evaluate(min_time, 0);
 
     double min_distance = (pos - vehicle_position).norm();
 
     for (double t = step; t < max_eval_time; t += step)
     {
-    double global_t = t + new_parameters_.global_time_last_trajectory_generated;
-    auto pos = evaluateModifiedTrajectory(traj, global_t, t, 0);
+      Eigen::Vector3d pos = traj.evaluate(std::min(t, traj.getMaxTime()), 0);
       // pos = evaluateModifiedTrajectory(traj, global_t, t, 0);
       double distance = (pos - vehicle_position).norm();
       if (distance <= min_distance)
-- 
2.43.0


From 3e1f87021bb4cccd614d1b5726decb5325acebe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:07 +0000
Subject: [PATCH 28/34] fix: limits on free derivatives are put on the
 variables that are these derivatives

---
 .../impl/polynomial_optimization_nonlinear_impl.h             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
index b8bd10f..bbaacb6 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
@@ -806,7 +806,6 @@ void PolynomialOptimizationNonLinear<_N>::
 
   const size_t n_free_constraints = poly_opt_.getNumberFreeConstraints();
   const size_t dim = poly_opt_.getDimension();
-  const int derivative_to_optimize = poly_opt_.getDerivativeToOptimize();
 
   // Set all values to -inf/inf and reset only bounded opti param with values
   lower_bounds->resize(dim * n_free_constraints,
@@ -825,7 +824,8 @@ void PolynomialOptimizationNonLinear<_N>::
     const double value_hc = constraint_data->value;
 
     for (size_t v = 0; v < vertices.size(); ++v) {
-      for (int deriv = 0; deriv <= derivative_to_optimize; ++deriv) {
+      // every derivative up to half the order is a variable if it is free
+      for (int deriv = 0; deriv < N / 2; ++deriv) {
         if (!vertices[v].hasConstraint(deriv)) {
           if (deriv == derivative_hc) {
             for (size_t k = 0; k < dim; ++k) {
-- 
2.43.0


From e9bd7e055fe081f00dfe7d192add52fc633b80a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:17 +0000
Subject: [PATCH 29/34] fix: the optimized trajectory is that of the best
 parameters found

---
 .../polynomial_optimization_nonlinear_impl.h  | 51 +++++++++++++------
 .../polynomial_optimization_nonlinear.h       |  4 ++
 2 files changed, 39 insertions(+), 16 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
index bbaacb6..9954103 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
@@ -161,9 +161,13 @@ int PolynomialOptimizationNonLinear<_N>::optimizeTime() {
     result = nlopt_->optimize(segment_times, final_cost);
   } catch (std::exception& e) {
     LOG(ERROR) << "error while running nlopt: " << e.what() << std::endl;
-    return nlopt::FAILURE;
+    result = nlopt::FAILURE;
   }
 
+  // The last parameters tried need not be the best ones.
+  poly_opt_.updateSegmentTimes(segment_times);
+  poly_opt_.solveLinear();
+
   return result;
 }
 
@@ -220,6 +224,10 @@ int PolynomialOptimizationNonLinear<_N>::optimizeTimeMellingerOuterLoop() {
     }
   }
 
+  // The last parameters tried need not be the best ones.
+  poly_opt_.updateSegmentTimes(segment_times);
+  poly_opt_.solveLinear();
+
   // Scaling of segment times
   std::vector<double> relative_segment_times;
   poly_opt_.getSegmentTimes(&relative_segment_times);
@@ -516,9 +524,12 @@ int PolynomialOptimizationNonLinear<_N>::optimizeTimeAndFreeConstraints() {
     timer_solve.Stop();
   } catch (std::exception& e) {
     LOG(ERROR) << "error while running nlopt: " << e.what() << std::endl;
-    return nlopt::FAILURE;
+    result = nlopt::FAILURE;
   }
 
+  // The last parameters tried need not be the best ones.
+  setSegmentTimesAndFreeConstraints(initial_solution);
+
   return result;
 }
 
@@ -657,19 +668,12 @@ PolynomialOptimizationNonLinear<_N>::objectiveFunctionTimeMellingerOuterLoop(
 }
 
 template <int _N>
-double PolynomialOptimizationNonLinear<_N>::objectiveFunctionTimeAndConstraints(
-    const std::vector<double>& x, std::vector<double>& gradient, void* data) {
-  CHECK(gradient.empty())
-      << "computing gradient not possible, choose a gradient-free method";
-  CHECK_NOTNULL(data);
-
-  PolynomialOptimizationNonLinear<N>* optimization_data =
-      static_cast<PolynomialOptimizationNonLinear<N>*>(data);  // wheee ...
-
-  const size_t n_segments = optimization_data->poly_opt_.getNumberSegments();
+void PolynomialOptimizationNonLinear<_N>::setSegmentTimesAndFreeConstraints(
+    const std::vector<double>& x) {
+  const size_t n_segments = poly_opt_.getNumberSegments();
   const size_t n_free_constraints =
-      optimization_data->poly_opt_.getNumberFreeConstraints();
-  const size_t dim = optimization_data->poly_opt_.getDimension();
+      poly_opt_.getNumberFreeConstraints();
+  const size_t dim = poly_opt_.getDimension();
 
   CHECK_EQ(x.size(), n_segments + n_free_constraints * dim);
 
@@ -692,13 +696,28 @@ double PolynomialOptimizationNonLinear<_N>::objectiveFunctionTimeAndConstraints(
     }
   }
 
-  optimization_data->poly_opt_.updateSegmentTimes(segment_times);
-  optimization_data->poly_opt_.setFreeConstraints(free_constraints);
+  poly_opt_.updateSegmentTimes(segment_times);
+  poly_opt_.setFreeConstraints(free_constraints);
+}
+
+template <int _N>
+double PolynomialOptimizationNonLinear<_N>::objectiveFunctionTimeAndConstraints(
+    const std::vector<double>& x, std::vector<double>& gradient, void* data) {
+  CHECK(gradient.empty())
+      << "computing gradient not possible, choose a gradient-free method";
+  CHECK_NOTNULL(data);
+
+  PolynomialOptimizationNonLinear<N>* optimization_data =
+      static_cast<PolynomialOptimizationNonLinear<N>*>(data);  // wheee ...
+
+  optimization_data->setSegmentTimesAndFreeConstraints(x);
 
   double cost_trajectory = optimization_data->poly_opt_.computeCost();
   double cost_time = 0;
   double cost_constraints = 0;
 
+  std::vector<double> segment_times;
+  optimization_data->poly_opt_.getSegmentTimes(&segment_times);
   const double total_time = computeTotalTrajectoryTime(segment_times);
   switch (optimization_data->optimization_parameters_.time_alloc_method) {
     case NonlinearOptimizationParameters::kRichterTimeAndConstraints:
diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial_optimization_nonlinear.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial_optimization_nonlinear.h
index 1ae2377..df84618 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial_optimization_nonlinear.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial_optimization_nonlinear.h
@@ -248,6 +248,10 @@ class PolynomialOptimizationNonLinear {
       const std::vector<double>& optimization_variables,
       std::vector<double>& gradient, void* data);
 
+  // Applies the optimization variables (see above) to the linear problem.
+  void setSegmentTimesAndFreeConstraints(
+      const std::vector<double>& optimization_variables);
+
   // Evaluates the maximum magnitude constraint at the current value of
   // the optimization variables.
   // All input parameters are ignored, all information is contained in data.
-- 
2.43.0


From c2befab840920bbaba5979d4d94a6bfb127c86d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:21 +0000
Subject: [PATCH 30/34] fix: malformed trajectories are refused when read

---
 .../include/mav_trajectory_generation/io.h    |  8 ++++++--
 .../mav_trajectory_generation/src/io.cpp      | 20 +++++++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/io.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/io.h
index b3ca603..0fcfe0d 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/io.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/io.h
@@ -39,6 +39,9 @@ bool segmentFromYaml(const YAML::Node& node, Segment* segment);
 bool segmentsFromYaml(const YAML::Node& node, Segment::Vector* segments);
 bool trajectoryFromYaml(const YAML::Node& node, Trajectory* trajectory);
 
+// A trajectory needs at least one segment and all segments of the same shape.
+bool formTrajectory(const Segment::Vector& segments);
+
 bool segmentsToFile(const std::string& filename,
                     const mav_trajectory_generation::Segment::Vector& segments);
 
@@ -57,9 +60,10 @@ inline bool trajectoryFromFile(
     const std::string& filename,
     mav_trajectory_generation::Trajectory* trajectory) {
   mav_trajectory_generation::Segment::Vector segments;
-  bool success = segmentsFromFile(filename, &segments);
+  if (!segmentsFromFile(filename, &segments)) return false;
+  if (!formTrajectory(segments)) return false;
   trajectory->setSegments(segments);
-  return success;
+  return true;
 }
 
 bool sampledTrajectoryStatesToFile(const std::string& filename,
diff --git a/subpackages/mav_trajectory_generation/src/io.cpp b/subpackages/mav_trajectory_generation/src/io.cpp
index bfa5159..61470f8 100644
--- a/subpackages/mav_trajectory_generation/src/io.cpp
+++ b/subpackages/mav_trajectory_generation/src/io.cpp
@@ -87,12 +87,16 @@ bool segmentFromYaml(const YAML::Node& node, Segment* segment) {
   if (!node[kCoefficientsKey]) return false;
   if (!node[kCoefficientsKey].IsSequence()) return false;
 
-  *segment =
-      Segment(node[kNumCoefficientsKey].as<int>(), node[kDimKey].as<int>());
+  const int N = node[kNumCoefficientsKey].as<int>();
+  const int D = node[kDimKey].as<int>();
+  if (N < 1 || D < 1) return false;
+  if (node[kCoefficientsKey].size() != static_cast<size_t>(D)) return false;
+  *segment = Segment(N, D);
 
   for (size_t i = 0; i < segment->D(); ++i) {
     Eigen::VectorXd coeffs;
     if (!coefficientsFromYaml(node[kCoefficientsKey][i], &coeffs)) return false;
+    if (coeffs.size() != N) return false;
     (*segment)[i] = coeffs;
   }
 
@@ -113,11 +117,21 @@ bool segmentsFromYaml(const YAML::Node& node, Segment::Vector* segments) {
   return true;
 }
 
+bool formTrajectory(const Segment::Vector& segments) {
+  if (segments.empty()) return false;
+  for (const Segment& segment : segments) {
+    if (segment.D() != segments.front().D()) return false;
+    if (segment.N() != segments.front().N()) return false;
+  }
+  return true;
+}
+
 bool trajectoryFromYaml(const YAML::Node& node, Trajectory* trajectory) {
   CHECK_NOTNULL(trajectory);
 
   Segment::Vector segments;
   if (!segmentsFromYaml(node[kSegmentsKey], &segments)) return false;
+  if (!formTrajectory(segments)) return false;
   trajectory->setSegments(segments);
 
   return true;
@@ -182,6 +196,7 @@ bool segmentsFromFile(const std::string& filename,
 
   if (node[kSegmentsKey]) {
     const YAML::Node& segments_yaml = node[kSegmentsKey];
+    if (!segments_yaml.IsSequence()) return false;
     for (size_t i = 0; i < segments_yaml.size(); i++) {
       if (segments_yaml[i][kNumCoefficientsKey] && segments_yaml[i][kDimKey] &&
           segments_yaml[i][kSegmentTimeKey] &&
@@ -189,6 +204,7 @@ bool segmentsFromFile(const std::string& filename,
         // Header.
         int N = segments_yaml[i][kNumCoefficientsKey].as<int>();
         int D = segments_yaml[i][kDimKey].as<int>();
+        if (N < 1 || D < 1) return false;
         mav_trajectory_generation::Segment segment(N, D);
         uint64_t t = segments_yaml[i][kSegmentTimeKey].as<uint64_t>();
         segment.setTimeNSec(t);
-- 
2.43.0


From 8860177bd90f84c1d8fea9211951d6c999fa252f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:46 +0000
Subject: [PATCH 31/34] fix: a quantity without a limit does not stretch the
 trajectory without bound

---
 .../impl/polynomial_optimization_nonlinear_impl.h           | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
index 9954103..588c43a 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h
@@ -377,9 +377,9 @@ void PolynomialOptimizationNonLinear<_N>::scaleSegmentTimesWithViolation() {
   Trajectory traj;
   poly_opt_.getTrajectory(&traj);
 
-  // Get constraints
-  double v_max = 0.0;
-  double a_max = 0.0;
+  // Get constraints, a quantity without one is not limited.
+  double v_max = std::numeric_limits<double>::max();
+  double a_max = std::numeric_limits<double>::max();
   for (const auto& constraint : inequality_constraints_) {
     if (constraint->derivative == derivative_order::VELOCITY) {
       v_max = constraint->value;
-- 
2.43.0


From b1dc3d2bd0f5545172655f73f8d0446819fda12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:07 +0000
Subject: [PATCH 32/34] fix: coefficients of the derivative of order N for the
 largest N are zero, not out of the table

---
 .../include/mav_trajectory_generation/polynomial.h               | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial.h b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial.h
index a2b505b..83ca309 100644
--- a/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial.h
+++ b/subpackages/mav_trajectory_generation/include/mav_trajectory_generation/polynomial.h
@@ -102,6 +102,7 @@ class Polynomial {
     } else {
       Eigen::VectorXd result(N_);
       result.setZero();
+      if (derivative == N_) return result;  // beyond the table for the largest N.
       result.head(N_ - derivative) =
           coefficients_.tail(N_ - derivative)
               .cwiseProduct(
-- 
2.43.0


From 74f1160f93ba53e62e8f34e774a99ed43aaa1038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:09 +0000
Subject: [PATCH 33/34] fix: a change announced while
 getWasTrajectoryRegenerated was called could be missed

---
 src/dynamic_trajectory.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 257434c..6ccf9c7 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -229,9 +229,8 @@ namespace dynamic_traj_generator
 
   bool DynamicTrajectory::getWasTrajectoryRegenerated()
   {
-    bool value = trajectory_regenerated_;
-    trajectory_regenerated_ = false;
-    return value;
+    // read and cleared at once, or a change announced in between would be missed
+    return trajectory_regenerated_.exchange(false);
   }
   bool DynamicTrajectory::getGenerateNewTraj() const
   {
-- 
2.43.0


From d0cb3db1cae86f9947fd810db273c7a023b8f558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:19 +0000
Subject: [PATCH 34/34] fix: a new trajectory was announced before its
 waypoints were in place

---
 src/dynamic_trajectory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynamic_trajectory.cpp b/src/dynamic_trajectory.cpp
index 6ccf9c7..a17b55f 100644
--- a/src/dynamic_trajectory.cpp
+++ b/src/dynamic_trajectory.cpp
@@ -438,7 +438,6 @@ namespace dynamic_traj_generator
 
     traj_ = std::move(new_trajectory);
 
-    trajectory_regenerated_ = true;
     DYNAMIC_LOG("Trajectory swapped");
   };
 
@@ -717,6 +716,8 @@ namespace dynamic_traj_generator
       {
         swapTrajectory();
         swapDynamicWaypoints();
+        // announced once both the trajectory and its waypoints are in place
+        trajectory_regenerated_ = true;
         computing_new_trajectory_ = false;
       }
     }
-- 
2.43.0

