From dd9054cf1c3673c7b534e80f687378d14ee6ebd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:21 +0000
Subject: [PATCH 01/25] fix: copying an Agent left the copy without an envelope
 (crash) and assignment shared it

---
 include/DynamicObstacleAvoidance/Agent.hpp |  5 +++++
 src/Agent.cpp                              | 13 ++++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/DynamicObstacleAvoidance/Agent.hpp b/include/DynamicObstacleAvoidance/Agent.hpp
index 24cf801..2747fa0 100644
--- a/include/DynamicObstacleAvoidance/Agent.hpp
+++ b/include/DynamicObstacleAvoidance/Agent.hpp
@@ -47,6 +47,11 @@ namespace DynamicObstacleAvoidance
 		 */
 		Agent(const Agent& agent);
 
+		/**
+		 * @brief Copy assignment
+		 */
+		Agent& operator=(const Agent& agent);
+
 		/**
 		 * @brief Getter of the envelope
 		 * @return the envelope
diff --git a/src/Agent.cpp b/src/Agent.cpp
index 972099b..a3b80ea 100644
--- a/src/Agent.cpp
+++ b/src/Agent.cpp
@@ -15,9 +15,20 @@ namespace DynamicObstacleAvoidance
 	}
 
 	Agent::Agent(const Agent& agent):
-	state(agent.state), safety_margin(agent.safety_margin), delta_t(agent.delta_t)
+	state(agent.state), safety_margin(agent.safety_margin),
+	envelope(std::make_shared<Ellipsoid>(static_cast<const Ellipsoid&>(*agent.envelope))), delta_t(agent.delta_t)
 	{}
 
+	Agent& Agent::operator=(const Agent& agent)
+	{
+		this->state = agent.state;
+		this->safety_margin = agent.safety_margin;
+		// the envelope is owned by the agent, never share it
+		this->envelope = std::make_shared<Ellipsoid>(static_cast<const Ellipsoid&>(*agent.envelope));
+		this->delta_t = agent.delta_t;
+		return *this;
+	}
+
 	void Agent::update_envelope()
 	{
 		double margin = std::max(0.1, this->safety_margin);
-- 
2.43.0


From be54c0ae22f7751c4a63724c61ffd59a3587a3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:21 +0000
Subject: [PATCH 02/25] fix: the envelope of an Agent was stale after
 construction and after set_safety_margin

---
 include/DynamicObstacleAvoidance/Agent.hpp | 1 +
 src/Agent.cpp                              | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/include/DynamicObstacleAvoidance/Agent.hpp b/include/DynamicObstacleAvoidance/Agent.hpp
index 2747fa0..fcb7687 100644
--- a/include/DynamicObstacleAvoidance/Agent.hpp
+++ b/include/DynamicObstacleAvoidance/Agent.hpp
@@ -131,6 +131,7 @@ namespace DynamicObstacleAvoidance
 		inline void set_safety_margin(const double& safety_margin)
 		{ 
 			this->safety_margin = safety_margin;
+			this->update_envelope();
 		}
 
 		/**
diff --git a/src/Agent.cpp b/src/Agent.cpp
index a3b80ea..284a71d 100644
--- a/src/Agent.cpp
+++ b/src/Agent.cpp
@@ -6,12 +6,14 @@ namespace DynamicObstacleAvoidance
 	safety_margin(safety_margin), delta_t(0.5)
 	{
 		this->envelope = std::make_shared<Ellipsoid>("envelope", State(this->get_position()));
+		this->update_envelope();
 	}
 
 	Agent::Agent(const State& state, const double& safety_margin):
 	state(state), safety_margin(safety_margin), delta_t(0.5)
 	{
 		this->envelope = std::make_shared<Ellipsoid>("envelope", State(this->get_position()));
+		this->update_envelope();
 	}
 
 	Agent::Agent(const Agent& agent):
-- 
2.43.0


From 8ce726e3657f73c84bc4eb5d346baa3bcaf0d068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:21 +0000
Subject: [PATCH 03/25] fix: a Pose built from a quaternion longer than 1 kept
 a non-unit orientation

---
 src/State/Pose.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/State/Pose.cpp b/src/State/Pose.cpp
index 9226f77..695b125 100644
--- a/src/State/Pose.cpp
+++ b/src/State/Pose.cpp
@@ -11,7 +11,7 @@ namespace DynamicObstacleAvoidance
 	Pose::Pose(const Eigen::Vector3d& position, const Eigen::Quaterniond& orientation):
 	position(position), orientation(orientation)
 	{
-		if(this->orientation.norm() - 1 < 1e-4) this->orientation.normalize();
+		this->orientation.normalize();
 		if(this->orientation.w() < 0.0) this->orientation = Eigen::Quaterniond(-this->orientation.w(), -this->orientation.x(), -this->orientation.y(), -this->orientation.z()); 
 	}
 
@@ -22,7 +22,7 @@ namespace DynamicObstacleAvoidance
 	Pose::Pose(const double& px, const double& py, const double& pz, const double& qw, const double& qx, const double& qy, const double& qz):
 	position(px,py,pz), orientation(qw,qx,qy,qz)
 	{
-		if(orientation.norm() - 1 < 1e-4) this->orientation.normalize();
+		this->orientation.normalize();
 		if(this->orientation.w() < 0.0) this->orientation = Eigen::Quaterniond(-this->orientation.w(), -this->orientation.x(), -this->orientation.y(), -this->orientation.z());
 	}
 
-- 
2.43.0


From 56c1acf071e8a6011f4a25181c47f168510f29b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:21 +0000
Subject: [PATCH 04/25] fix: obstacles built without a state had an
 uninitialised reference position

---
 src/Obstacle/Obstacle.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Obstacle/Obstacle.cpp b/src/Obstacle/Obstacle.cpp
index 4474d64..9ed8667 100644
--- a/src/Obstacle/Obstacle.cpp
+++ b/src/Obstacle/Obstacle.cpp
@@ -6,11 +6,11 @@
 namespace DynamicObstacleAvoidance
 {
 	Obstacle::Obstacle(const std::string& name, double safety_margin):
-	name(name), state(Eigen::Vector3d::Zero()), safety_margin(Eigen::Array3d(safety_margin, safety_margin, safety_margin))  
+	name(name), state(Eigen::Vector3d::Zero()), reference_position(state.get_position()), safety_margin(Eigen::Array3d(safety_margin, safety_margin, safety_margin))  
 	{}
 
 	Obstacle::Obstacle(const std::string& name, const Eigen::Array3d& safety_margin):
-	name(name), state(Eigen::Vector3d::Zero()), safety_margin(safety_margin)
+	name(name), state(Eigen::Vector3d::Zero()), reference_position(state.get_position()), safety_margin(safety_margin)
 	{}
 
 	Obstacle::Obstacle(const std::string& name, double cx, double cy, double cz, double safety_margin):
@@ -43,7 +43,7 @@ namespace DynamicObstacleAvoidance
 	Eigen::Vector3d Obstacle::compute_normal_to_agent(const Agent&) const
 	{
 		std::cerr << "Fonction compute_normal_to_agent of abstract class obstacle used" << std::endl;
-		return Eigen::Vector3d();
+		return Eigen::Vector3d::Zero();
 	}
 
 	double Obstacle::compute_distance_to_point(const Eigen::Vector3d&, const Eigen::Array3d&) const
-- 
2.43.0


From 38fd24f209a065897ae1081ff5d69534676c235f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:21 +0000
Subject: [PATCH 05/25] fix: find_closest_points returned an out of range index
 past the last value

---
 src/Utils/MathTools.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Utils/MathTools.cpp b/src/Utils/MathTools.cpp
index 38af9b3..4befa6c 100644
--- a/src/Utils/MathTools.cpp
+++ b/src/Utils/MathTools.cpp
@@ -87,8 +87,9 @@ namespace DynamicObstacleAvoidance
         std::vector<double> vec;
         for (int64_t i = 0; i < A.cols(); ++i) vec.push_back(A.col(i)(index));
         std::vector<double>::iterator it = std::lower_bound(std::begin(vec), std::end(vec), p(index));
-        unsigned int first_index = it - vec.begin();
-        unsigned int next_index = ((it + 1) - vec.begin()) % vec.size();
+        // the values are periodic, past the last one the closest is the first one
+        unsigned int first_index = (it - vec.begin()) % vec.size();
+        unsigned int next_index = (first_index + 1) % vec.size();
         return std::make_pair(first_index, next_index);
     }
 }
-- 
2.43.0


From d9e1de5d0b9b3dd43f96bd02923e83d3948824ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:16 +0000
Subject: [PATCH 06/25] fix: the frame of a velocity along z was singular and
 the frame of a tilted one not orthonormal

---
 src/Modulation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Modulation.cpp b/src/Modulation.cpp
index 7fbc903..7f7a4f3 100644
--- a/src/Modulation.cpp
+++ b/src/Modulation.cpp
@@ -112,9 +112,11 @@ namespace DynamicObstacleAvoidance
 			Eigen::Vector3d cross_product = agent_relative_velocity.cross(unit_vector);
 			if(cross_product.norm() < 1E-4) 
 			{
-				cross_product = Eigen::Vector3d::UnitY();
+				unit_vector = Eigen::Vector3d::UnitY();
 				cross_product = agent_relative_velocity.cross(unit_vector);
 			}
+			// the frame is inverted by transposing it, it has to be orthonormal
+			cross_product.normalize();
 			Eigen::Matrix3d orthogonal_matrix;
 			orthogonal_matrix << agent_relative_velocity, cross_product, cross_product.cross(agent_relative_velocity);
 			return orthogonal_matrix;
-- 
2.43.0


From fec9eb2d28d5c1956287a987dbdd51f05350d64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:16 +0000
Subject: [PATCH 07/25] fix: the basis of a normal out of the xy plane was not
 orthonormal

---
 src/Modulation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Modulation.cpp b/src/Modulation.cpp
index 7f7a4f3..0b9d5e2 100644
--- a/src/Modulation.cpp
+++ b/src/Modulation.cpp
@@ -70,6 +70,8 @@ namespace DynamicObstacleAvoidance
 				tangent_vector = normal_vector.cross(unit_vector);
 			}
 
+			tangent_vector.normalize();
+
 			Eigen::Vector3d cross_product = tangent_vector.cross(normal_vector);
 			Eigen::Matrix3d orthogonal_basis;
 			orthogonal_basis << normal_vector, tangent_vector, cross_product;
-- 
2.43.0


From 2b41f5ab4907d9d80491522e51986dd56d40cf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:16 +0000
Subject: [PATCH 08/25] fix: the normal of a hull was not a unit vector

---
 src/Obstacle/StarShapeHull.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Obstacle/StarShapeHull.cpp b/src/Obstacle/StarShapeHull.cpp
index 2d01726..aa86d23 100644
--- a/src/Obstacle/StarShapeHull.cpp
+++ b/src/Obstacle/StarShapeHull.cpp
@@ -115,7 +115,7 @@ namespace DynamicObstacleAvoidance
 		Eigen::Vector3d surface_point1 = this->cartesian_surface_points.col(idx.first);
 		Eigen::Vector3d surface_point2 = this->cartesian_surface_points.col(idx.second);
 
-		return (surface_point1-surface_point2).cross(Eigen::Vector3d::UnitZ());
+		return (surface_point1-surface_point2).cross(Eigen::Vector3d::UnitZ()).normalized();
 	}
 
 	double StarShapeHull::compute_distance_to_point(const Eigen::Vector3d& point, const Eigen::Array3d&) const
-- 
2.43.0


From 84aa2480f5ff999048fd7d4b4c5c5b31a39e2fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:16 +0000
Subject: [PATCH 09/25] fix: modulate_velocity could return an infinite
 velocity

---
 src/Modulation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Modulation.cpp b/src/Modulation.cpp
index 0b9d5e2..f1f4015 100644
--- a/src/Modulation.cpp
+++ b/src/Modulation.cpp
@@ -224,9 +224,9 @@ namespace DynamicObstacleAvoidance
 				}
 			}
 
-			if(modulated_velocity.hasNaN())
+			if(!modulated_velocity.allFinite())
 			{
-				std:: cerr << "Modulated velocity contains NaN numbers, returning 0 velocity" << std::endl;
+				std:: cerr << "Modulated velocity contains non finite numbers, returning 0 velocity" << std::endl;
 				modulated_velocity = Eigen::Vector3d(0,0,0);
 			}
 			return modulated_velocity;
-- 
2.43.0


From bf562ed3f9edbb780cf5c35882a01b2f5d930308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:16 +0000
Subject: [PATCH 10/25] fix: linspace threw a leaked pointer that no exception
 handler catches

---
 src/Utils/MathTools.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Utils/MathTools.cpp b/src/Utils/MathTools.cpp
index 4befa6c..793b9f1 100644
--- a/src/Utils/MathTools.cpp
+++ b/src/Utils/MathTools.cpp
@@ -1,11 +1,12 @@
 #include "DynamicObstacleAvoidance/Utils/MathTools.hpp"
+#include <stdexcept>
 
 namespace DynamicObstacleAvoidance
 {
     std::vector<double> MathTools::linspace(double start, double end, int num) {
         // catch rarely, throw often
         if (num < 2) {
-            throw new std::exception();
+            throw std::invalid_argument("linspace needs at least 2 points");
         }
         int partitions = num - 1;
         std::vector<double> pts;
-- 
2.43.0


From 5b6a8bfa621ab7f6f281c894d8857dc043f7abd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:54 +0000
Subject: [PATCH 11/25] fix: destroying an obstacle through its base class did
 not run the destructor of its kind

---
 include/DynamicObstacleAvoidance/Obstacle/Obstacle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/DynamicObstacleAvoidance/Obstacle/Obstacle.hpp b/include/DynamicObstacleAvoidance/Obstacle/Obstacle.hpp
index 383870b..a5a416d 100644
--- a/include/DynamicObstacleAvoidance/Obstacle/Obstacle.hpp
+++ b/include/DynamicObstacleAvoidance/Obstacle/Obstacle.hpp
@@ -128,7 +128,7 @@ namespace DynamicObstacleAvoidance
 		/**
 		 * @brief Destructor
 		 */
-		~Obstacle();
+		virtual ~Obstacle();
 
 		/**
 		 * @brief Getter of the type as const value
-- 
2.43.0


From 8b47fcbc5a2495022ce5d77c1f3029074e5f0e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:54 +0000
Subject: [PATCH 12/25] fix: an aggregate never intersected with an ellipsoid

---
 include/DynamicObstacleAvoidance/Obstacle/Aggregate.hpp | 7 +++++++
 src/Obstacle/Aggregate.cpp                              | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/include/DynamicObstacleAvoidance/Obstacle/Aggregate.hpp b/include/DynamicObstacleAvoidance/Obstacle/Aggregate.hpp
index f82a4a7..f5776d7 100644
--- a/include/DynamicObstacleAvoidance/Obstacle/Aggregate.hpp
+++ b/include/DynamicObstacleAvoidance/Obstacle/Aggregate.hpp
@@ -30,6 +30,13 @@ namespace DynamicObstacleAvoidance
 		 */
 		void update_center_position();
 
+		/**
+		 * @brief Function to check if one of the primitives is intersecting with an ellipsoid
+		 * @param other_obstacle the ellipsoid
+		 * @return true if there is intersection
+		 */
+		bool is_intersecting_ellipsoid(const Ellipsoid& other_obstacle) const override;
+
 	public:
 		/**
 		 * @brief Empty constructor
diff --git a/src/Obstacle/Aggregate.cpp b/src/Obstacle/Aggregate.cpp
index 0b235ac..f43e1ad 100644
--- a/src/Obstacle/Aggregate.cpp
+++ b/src/Obstacle/Aggregate.cpp
@@ -65,6 +65,13 @@ namespace DynamicObstacleAvoidance
 		if(update_hull) this->update_hull();
 	}
 
+	bool Aggregate::is_intersecting_ellipsoid(const Ellipsoid& other_obstacle) const
+	{
+		bool intersecting = false;
+		for(auto& p:this->primitives) intersecting = (intersecting || p->is_intersecting(other_obstacle));
+		return intersecting;
+	}
+
 	Eigen::Vector3d Aggregate::compute_normal_to_agent(const Agent& agent) const
 	{
 		if(this->point_is_inside(agent.get_position()))
-- 
2.43.0


From 41bab5d2684a18a14679948d71765394f437c2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:54 +0000
Subject: [PATCH 13/25] fix: the radius of a hull depended on its previous
 shape

---
 src/Obstacle/StarShapeHull.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Obstacle/StarShapeHull.cpp b/src/Obstacle/StarShapeHull.cpp
index aa86d23..f410f18 100644
--- a/src/Obstacle/StarShapeHull.cpp
+++ b/src/Obstacle/StarShapeHull.cpp
@@ -84,6 +84,7 @@ namespace DynamicObstacleAvoidance
 			}
 			surface_point(0) += safety(0);
 			surface_point(0) = std::max(this->min_radius, surface_point(0));
+			this->polar_surface_points.col(i) = surface_point;
 			// smooth function
 			if(i > 1)
 			{
@@ -91,7 +92,6 @@ namespace DynamicObstacleAvoidance
 				                                         0.05 * this->polar_surface_points.col(i-2)(0) + \
 				                                         0.05 * this->polar_surface_points.col(i)(0);
 			}
-			this->polar_surface_points.col(i) = surface_point;
 		}
 		// smooth 0 point with the last one
 		this->polar_surface_points.col(0)(0) = 0.9 * this->polar_surface_points.col(0)(0) + \
-- 
2.43.0


From 3d3c7e5f64838c061bc5ede953b4385bd833aaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:54 +0000
Subject: [PATCH 14/25] fix: the area of an ellipsoid grew like a length
 instead of a surface

---
 src/Obstacle/Ellipsoid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index 8e601a2..3c636ec 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -247,7 +247,7 @@ namespace DynamicObstacleAvoidance
 	double Ellipsoid::area(bool is_include_safety_margin) const
 	{
 		Eigen::Array3d lengths = (is_include_safety_margin) ? this->get_axis_lengths() + this->get_safety_margin() : this->get_axis_lengths();
-		return 4 * M_PI * (pow((pow(lengths(0), 1.6) + pow(lengths(1), 1.6) + pow(lengths(2), 1.6))/3, 1/1.6));
+		return 4 * M_PI * (pow((pow(lengths(0) * lengths(1), 1.6) + pow(lengths(0) * lengths(2), 1.6) + pow(lengths(1) * lengths(2), 1.6))/3, 1/1.6));
 	}
 
 	Eigen::Vector3d Ellipsoid::compute_repulsion_vector(const Agent& agent) const
-- 
2.43.0


From 2409129f2a196ececacbf98c033789453933d7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:54 +0000
Subject: [PATCH 15/25] fix: the normal of an ellipsoid with a curvature factor
 was not the gradient of its distance

---
 src/Obstacle/Ellipsoid.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index 3c636ec..f943c66 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -65,12 +65,14 @@ namespace DynamicObstacleAvoidance
 	{
 		Eigen::Array3d point_in_frame = this->get_pose().inverse() * agent.get_position();
 		Eigen::Array3d lengths = this->axis_lengths + this->get_safety_margin() + agent.get_safety_margin();
-		Eigen::Array3d tmp_values = (2 * this->curvature_factor * point_in_frame);
+		// gradient of the sum of the (x / l)^(2c)
+		Eigen::Array3d tmp_values;
 		for(int i=0; i<3; ++i)
 		{
-			tmp_values(i) = (lengths(i) > this->epsilon) ? tmp_values(i) / (lengths(i) * lengths(i)) : tmp_values(i);
+			double length = (lengths(i) > this->epsilon) ? lengths(i) : 1.0;
+			tmp_values(i) = (2 * this->curvature_factor(i) / length) * std::pow(point_in_frame(i) / length, 2 * this->curvature_factor(i) - 1);
 		}
-		Eigen::Vector3d normal_vector = tmp_values.pow(2 * this->curvature_factor - 1);
+		Eigen::Vector3d normal_vector = tmp_values;
 		normal_vector.normalize();
 		return normal_vector;
 	}
-- 
2.43.0


From 189f47537b54f1d6c26fc43c7a16ac4ac3ffce1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:54 +0000
Subject: [PATCH 16/25] fix: the safety outline of an ellipsoid was drawn on
 the obstacle itself

---
 src/Obstacle/Ellipsoid.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index f943c66..7eb772d 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -133,9 +133,9 @@ namespace DynamicObstacleAvoidance
 				xrow.at(j) = point(0);
 				yrow.at(j) = point(1);
 				zrow.at(j) = point(2);
-				xrow_safety.at(j) = point(0);
-				yrow_safety.at(j) = point(1);
-				zrow_safety.at(j) = point(2);
+				xrow_safety.at(j) = safety_point(0);
+				yrow_safety.at(j) = safety_point(1);
+				zrow_safety.at(j) = safety_point(2);
 			}
 			x.at(i) = xrow;
 			y.at(i) = yrow;
-- 
2.43.0


From 3aab336488614664855c40deacf9d0b7b25cb534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:54 +0000
Subject: [PATCH 17/25] fix: the agent was drawn in the xy plane on the xz
 panel

---
 src/Utils/Plotting/PlottingTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils/Plotting/PlottingTools.cpp b/src/Utils/Plotting/PlottingTools.cpp
index 7d97514..b7e4069 100644
--- a/src/Utils/Plotting/PlottingTools.cpp
+++ b/src/Utils/Plotting/PlottingTools.cpp
@@ -64,7 +64,7 @@ namespace DynamicObstacleAvoidance
 
 			plt::subplot(2, 1, 2);
 			plot_obstacles(obstacles, "xz");
-			plot_agent(agent, "xy");
+			plot_agent(agent, "xz");
 			plot_agent_trajectory(goal, position_history, "xz");
 			plt::xlim(-10, 10);
 			plt::ylim(-10, 10);
-- 
2.43.0


From 096314ed6f87a741b6aabff99e94e99b939a58eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:54 +0000
Subject: [PATCH 18/25] fix: a line along the y axis of an ellipsoid was not
 intersecting it

---
 src/Obstacle/Ellipsoid.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index 7eb772d..984b261 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -262,27 +262,27 @@ namespace DynamicObstacleAvoidance
 		// transform both reference points in the object frame
 		Eigen::Vector3d rx1 = this->get_pose().inverse() * x1;
 		Eigen::Vector3d rx2 = this->get_pose().inverse() * x2;
-		// calculate the line passing by the two points
-		double a = (rx2(1) - rx1(1)) / (rx2(0) - rx1(0));
-		double b = rx1(1) - a * rx1(0);
-		// compute the intersection between the ellipsoid and the desired velocity line
+		// direction of the line passing by the two points
+		double dx = rx2(0) - rx1(0);
+		double dy = rx2(1) - rx1(1);
+		// compute the intersection between the ellipsoid and the line rx1 + t * (dx, dy)
 		Eigen::Array3d lengths = this->get_axis_lengths() + this->get_safety_margin();
 		double r1squared = lengths(0) * lengths(0);
 		double r2squared = lengths(1) * lengths(1);
-		double A = 1 / r1squared + (a*a) / r2squared;
-		double B = (2*a*b) / r2squared;
-		double C = (b*b) / r2squared - 1;
+		double A = (dx*dx) / r1squared + (dy*dy) / r2squared;
+		double B = 2 * ((rx1(0)*dx) / r1squared + (rx1(1)*dy) / r2squared);
+		double C = (rx1(0)*rx1(0)) / r1squared + (rx1(1)*rx1(1)) / r2squared - 1;
 		double delta = B*B - 4*A*C;
 		// solution
 		Eigen::Vector3d p1 = Eigen::Vector3d::Zero();
 		Eigen::Vector3d p2 = Eigen::Vector3d::Zero();
 		bool intersect = false;
-		if(delta >= 0)
+		if(A > 0 && delta >= 0)
 		{
-			double px1 = (-B - sqrt(delta)) / (2*A);
-			p1 << px1, a * px1 + b, 0;
-			double px2 = (-B + sqrt(delta)) / (2*A);
-			p2 << px2, a * px2 + b, 0;
+			double t1 = (-B - sqrt(delta)) / (2*A);
+			p1 << rx1(0) + t1 * dx, rx1(1) + t1 * dy, 0;
+			double t2 = (-B + sqrt(delta)) / (2*A);
+			p2 << rx1(0) + t2 * dx, rx1(1) + t2 * dy, 0;
 			p1 = this->get_pose() * p1;
 			p2 = this->get_pose() * p2;
 			intersect = true;
-- 
2.43.0


From 8a5860f240f7fff1da0fb270d6cb09ec385cd198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:54 +0000
Subject: [PATCH 19/25] fix: the header of an exception could not be included
 twice nor on its own

---
 .../Exceptions/ObstacleAlreadyExistsException.hpp            | 3 ++-
 .../Exceptions/ObstacleNotInEnvironmentException.hpp         | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/DynamicObstacleAvoidance/Exceptions/ObstacleAlreadyExistsException.hpp b/include/DynamicObstacleAvoidance/Exceptions/ObstacleAlreadyExistsException.hpp
index 9be05bb..8e69d69 100644
--- a/include/DynamicObstacleAvoidance/Exceptions/ObstacleAlreadyExistsException.hpp
+++ b/include/DynamicObstacleAvoidance/Exceptions/ObstacleAlreadyExistsException.hpp
@@ -2,7 +2,8 @@
 #define DYNAMICOBSTACLEAVOIDANCE_EXCEPTIONS_OBSTACLEALREADYEXISTSEXCEPTION_H_
 
 #include <iostream>
-#include <exception>
+#include <stdexcept>
+#include <string>
 
 namespace DynamicObstacleAvoidance
 {
diff --git a/include/DynamicObstacleAvoidance/Exceptions/ObstacleNotInEnvironmentException.hpp b/include/DynamicObstacleAvoidance/Exceptions/ObstacleNotInEnvironmentException.hpp
index 7537dd3..f0ee9aa 100644
--- a/include/DynamicObstacleAvoidance/Exceptions/ObstacleNotInEnvironmentException.hpp
+++ b/include/DynamicObstacleAvoidance/Exceptions/ObstacleNotInEnvironmentException.hpp
@@ -1,8 +1,9 @@
 #ifndef DYNAMICOBSTACLEAVOIDANCE_EXCEPTIONS_OBSTACLENOTINENVIRONMENTEXCEPTION_H_
-#define DYNAMICOBSTACLEAVOIDANCE_EXCEPTIONS_OBSTACLENOTINENVIRONMENT_H_
+#define DYNAMICOBSTACLEAVOIDANCE_EXCEPTIONS_OBSTACLENOTINENVIRONMENTEXCEPTION_H_
 
 #include <iostream>
-#include <exception>
+#include <stdexcept>
+#include <string>
 
 namespace DynamicObstacleAvoidance
 {
-- 
2.43.0


From 44a9ed38a384c4a281585bb8266ef53941cf3392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:58 +0000
Subject: [PATCH 20/25] fix: the declaration of the Pose constructor named the
 quaternion components in the wrong order

---
 include/DynamicObstacleAvoidance/State/Pose.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/DynamicObstacleAvoidance/State/Pose.hpp b/include/DynamicObstacleAvoidance/State/Pose.hpp
index 752b0e0..9c7c2ff 100644
--- a/include/DynamicObstacleAvoidance/State/Pose.hpp
+++ b/include/DynamicObstacleAvoidance/State/Pose.hpp
@@ -25,7 +25,7 @@ namespace DynamicObstacleAvoidance
 		explicit Pose(const Eigen::Vector3d& position);
 		explicit Pose(const Eigen::Vector3d& position, const Eigen::Quaterniond& orientation);
 		explicit Pose(const double& x, const double& y, const double& z);
-		explicit Pose(const double& px, const double& py, const double& pz, const double& qx, const double& qy, const double& qz, const double& qw);
+		explicit Pose(const double& px, const double& py, const double& pz, const double& qw, const double& qx, const double& qy, const double& qz);
 		Pose(const Pose& p);
 
 		inline const Eigen::Vector3d& get_position() const 
-- 
2.43.0


From 8ee8eed8f4f4d6f9bedb222c497ba06c77f75b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:58 +0000
Subject: [PATCH 21/25] fix: the normal of an oriented hull or aggregate was in
 the world frame instead of its own

---
 src/Obstacle/Aggregate.cpp     | 4 ++--
 src/Obstacle/StarShapeHull.cpp | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Obstacle/Aggregate.cpp b/src/Obstacle/Aggregate.cpp
index f43e1ad..53c3bba 100644
--- a/src/Obstacle/Aggregate.cpp
+++ b/src/Obstacle/Aggregate.cpp
@@ -76,11 +76,11 @@ namespace DynamicObstacleAvoidance
 	{
 		if(this->point_is_inside(agent.get_position()))
 		{
-			return this->inside_hull.compute_normal_to_agent(agent);
+			return this->get_orientation().inverse() * (this->inside_hull.get_orientation() * this->inside_hull.compute_normal_to_agent(agent));
 		}
 		else
 		{
-			return this->outside_hull.compute_normal_to_agent(agent);
+			return this->get_orientation().inverse() * (this->outside_hull.get_orientation() * this->outside_hull.compute_normal_to_agent(agent));
 		}
 	}
 
diff --git a/src/Obstacle/StarShapeHull.cpp b/src/Obstacle/StarShapeHull.cpp
index f410f18..474084f 100644
--- a/src/Obstacle/StarShapeHull.cpp
+++ b/src/Obstacle/StarShapeHull.cpp
@@ -115,7 +115,9 @@ namespace DynamicObstacleAvoidance
 		Eigen::Vector3d surface_point1 = this->cartesian_surface_points.col(idx.first);
 		Eigen::Vector3d surface_point2 = this->cartesian_surface_points.col(idx.second);
 
-		return (surface_point1-surface_point2).cross(Eigen::Vector3d::UnitZ()).normalized();
+		// the surface points are in the world frame, the normal is in the frame of the obstacle
+		Eigen::Vector3d tangent = this->get_orientation().inverse() * (surface_point1-surface_point2);
+		return tangent.cross(Eigen::Vector3d::UnitZ()).normalized();
 	}
 
 	double StarShapeHull::compute_distance_to_point(const Eigen::Vector3d& point, const Eigen::Array3d&) const
-- 
2.43.0


From d11a8adc3a83e5f3092e7008a3c255e5f80f0296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:58 +0000
Subject: [PATCH 22/25] fix: hulls and aggregates were always drawn in the xy
 plane

---
 src/Obstacle/Aggregate.cpp     |  2 +-
 src/Obstacle/StarShapeHull.cpp | 12 +++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/Obstacle/Aggregate.cpp b/src/Obstacle/Aggregate.cpp
index 53c3bba..a3bc262 100644
--- a/src/Obstacle/Aggregate.cpp
+++ b/src/Obstacle/Aggregate.cpp
@@ -102,7 +102,7 @@ namespace DynamicObstacleAvoidance
 		{
 			o->draw(color, axis);
 		}
-		plt::plot({this->get_reference_position()(0)}, {this->get_reference_position()(1)}, "bx");
+		plt::plot({this->get_reference_position()(0)}, {this->get_reference_position()((axis == "xz") ? 2 : 1)}, "bx");
 		this->outside_hull.draw("k", axis);
 		this->inside_hull.draw("k", axis);
 	}
diff --git a/src/Obstacle/StarShapeHull.cpp b/src/Obstacle/StarShapeHull.cpp
index 474084f..e430096 100644
--- a/src/Obstacle/StarShapeHull.cpp
+++ b/src/Obstacle/StarShapeHull.cpp
@@ -134,8 +134,10 @@ namespace DynamicObstacleAvoidance
 		return distance;
 	}
 
-	void StarShapeHull::draw(const std::string& color, const std::string&) const
+	void StarShapeHull::draw(const std::string& color, const std::string& axis) const
 	{
+		// vertical axis of the plane of the drawing
+		unsigned int v = (axis == "xz") ? 2 : 1;
 		std::vector<double> x;
 		std::vector<double> y;
 
@@ -144,20 +146,20 @@ namespace DynamicObstacleAvoidance
 		for (unsigned int i=0; i<this->resolution; ++i)
 		{		
 			x.push_back(this->cartesian_surface_points.col(i)(0));
-			y.push_back(this->cartesian_surface_points.col(i)(1));
+			y.push_back(this->cartesian_surface_points.col(i)(v));
 		}
 
 		plt::plot(x, y, color + "--");
 
 		if(this->get_name() == "")
 		{
-			plt::plot({this->get_position()(0)}, {this->get_position()(1)}, color + "o");
+			plt::plot({this->get_position()(0)}, {this->get_position()(v)}, color + "o");
 		}
 		else
 		{
-			plt::text(this->get_position()(0), this->get_position()(1), this->get_name());
+			plt::text(this->get_position()(0), this->get_position()(v), this->get_name());
 		}
-		plt::plot({this->get_reference_position()(0)}, {this->get_reference_position()(1)}, color + "x");
+		plt::plot({this->get_reference_position()(0)}, {this->get_reference_position()(v)}, color + "x");
 	}
 
 	bool StarShapeHull::point_is_inside(const Eigen::Vector3d& point) const
-- 
2.43.0


From bfaa543adfb10105f32d6104ef323d92ac736e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:49 +0000
Subject: [PATCH 23/25] fix: a removed obstacle stayed reachable by name
 through the list of the last update

---
 src/Environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Environment.cpp b/src/Environment.cpp
index 639f92b..47667da 100644
--- a/src/Environment.cpp
+++ b/src/Environment.cpp
@@ -60,7 +60,7 @@ namespace DynamicObstacleAvoidance
 			{
 				for(auto& o:this->obstacle_list)
 				{
-					if(o->get_name() == k) return o;
+					if(o->get_type() == "Aggregate" && o->get_name() == k) return o;
 				}
 			}
 			throw Exceptions::ObstacleNotInEnvironmentException(k);
-- 
2.43.0


From a9b134ad06731ba2c3a3456ad45293aec560dbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:23 +0000
Subject: [PATCH 24/25] fix: conversion of the origin to polar coordinates
 gives no NaN

---
 src/Utils/MathTools.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Utils/MathTools.cpp b/src/Utils/MathTools.cpp
index 793b9f1..6b0d875 100644
--- a/src/Utils/MathTools.cpp
+++ b/src/Utils/MathTools.cpp
@@ -51,7 +51,8 @@ namespace DynamicObstacleAvoidance
     Eigen::Vector3d MathTools::cartesian_to_polar(const Eigen::Vector3d& cartesian_point)
     {
         double radius = sqrt(cartesian_point(0) * cartesian_point(0) + cartesian_point(1) * cartesian_point(1) + cartesian_point(2) * cartesian_point(2));
-        double theta = acos(cartesian_point(2) / radius);
+        // the direction of the origin is not defined, any angle will do
+        double theta = (radius > 0) ? acos(cartesian_point(2) / radius) : 0;
         double phi = atan2(cartesian_point(1), cartesian_point(0));
         return Eigen::Vector3d(radius, theta, phi);
     }
-- 
2.43.0


From ad833dc0779a90c76616d34c4918b37f69451de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:08 +0000
Subject: [PATCH 25/25] fix: the xz outline of an ellipsoid is an ellipse, not
 a segment

---
 src/Obstacle/Ellipsoid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Obstacle/Ellipsoid.cpp b/src/Obstacle/Ellipsoid.cpp
index 984b261..898608e 100644
--- a/src/Obstacle/Ellipsoid.cpp
+++ b/src/Obstacle/Ellipsoid.cpp
@@ -115,7 +115,7 @@ namespace DynamicObstacleAvoidance
 			std::vector<double> zrow_safety(n1);
 			for (unsigned int j=0; j<n1; ++j)
 			{
-				double phi = alpha.at(j);
+				double phi = alpha.at(j) + M_PI/2;
 				double theta = alpha.at(i);
 				Eigen::Vector3d point;
 				point(0) = this->get_axis_lengths(0) * sin(theta) * cos(phi);
-- 
2.43.0

