From 215222667f45eda9bbaac1df029a735eafcce3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:18 +0000
Subject: [PATCH 01/45] fix: correct the sign of the depth terms in left-handed
 perspective projections

---
 include/muu/matrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/muu/matrix.h b/include/muu/matrix.h
index c292ef0..790ed88 100644
--- a/include/muu/matrix.h
+++ b/include/muu/matrix.h
@@ -946,14 +946,14 @@ namespace muu::impl
 
 				if constexpr (!!(Mode & math_apis::left_handed))
 				{
-					const auto e = (T{ 2 } * far_clip * near_clip) / (far_clip - near_clip);
+					const auto e = (T{ -2 } * far_clip * near_clip) / (far_clip - near_clip);
 
 					// clang-format off
 					return
 					{
 						a,		T{},	T{},	T{},
 						T{},	b,		T{},	T{},
-						T{},	T{},	c,		e,
+						T{},	T{},	-c,		e,
 						T{},	T{},	T{1},	T{}
 					};
 					// clang-format on
@@ -986,7 +986,7 @@ namespace muu::impl
 					{
 						a,		T{},	T{},	T{},
 						T{},	b,		T{},	T{},
-						T{},	T{},	c,		e,
+						T{},	T{},	-c,		e,
 						T{},	T{},	T{1},	T{}
 					};
 					// clang-format on
-- 
2.43.0


From 3ea4c1d11d5594bbbe3a3132f2abe288e064d0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:18 +0000
Subject: [PATCH 02/45] fix: make inversion of 1x1 matrices compile

---
 include/muu/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/matrix.h b/include/muu/matrix.h
index 790ed88..d06caaf 100644
--- a/include/muu/matrix.h
+++ b/include/muu/matrix.h
@@ -2781,7 +2781,7 @@ namespace muu
 
 				if constexpr (Columns == 1)
 				{
-					return inverse_type{ column_type{ scalar_type{ 1 } / m.m[0].x } };
+					return inverse_type{ scalar_type{ 1 } / m.m[0].x };
 				}
 				if constexpr (Columns == 2)
 				{
-- 
2.43.0


From be740513e2684b25af0f801394612d267f983223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:05 +0000
Subject: [PATCH 03/45] fix: use both vectors' lengths in
 quaternion::from_rotation(from, to)

---
 include/muu/quaternion.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/quaternion.h b/include/muu/quaternion.h
index f3ccdbe..535756d 100644
--- a/include/muu/quaternion.h
+++ b/include/muu/quaternion.h
@@ -813,7 +813,7 @@ namespace muu
 				MUU_FMA_BLOCK;
 
 				const auto k_cos_theta = vector_type::dot(from, to);
-				const auto k = muu::sqrt(vector_type::length_squared(from) * vector_type::length_squared(from));
+				const auto k = muu::sqrt(vector_type::length_squared(from) * vector_type::length_squared(to));
 
 				if (muu::approx_equal(k_cos_theta / k, scalar_type{ -1 }))
 				{
-- 
2.43.0


From 8e01424819db8ea1faa6ecf63cd6600603043f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:53 +0000
Subject: [PATCH 04/45] fix: vector::normalized() always returned false for
 multi-dimensional integral vectors

---
 include/muu/vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/vector.h b/include/muu/vector.h
index 3f7eb2f..dd0ca8e 100644
--- a/include/muu/vector.h
+++ b/include/muu/vector.h
@@ -2151,7 +2151,7 @@ namespace muu
 				{
 					using sum_type = decltype(scalar_type{} + scalar_type{});
 					sum_type sum{};
-					for (size_t i = 0u; i < dimensions && sum > sum_type{ 1 }; i++)
+					for (size_t i = 0u; i < dimensions && sum <= sum_type{ 1 }; i++)
 					{
 						if constexpr (muu::is_signed<scalar_type>)
 							sum += muu::abs(v[i]);
-- 
2.43.0


From 2d41ed9a331a0e6928d2c9bed0d47069fbb2c21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:45 +0000
Subject: [PATCH 05/45] fix: length and normalization of negative 1-dimensional
 vectors

---
 include/muu/vector.h | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/include/muu/vector.h b/include/muu/vector.h
index dd0ca8e..8ed4b81 100644
--- a/include/muu/vector.h
+++ b/include/muu/vector.h
@@ -1102,7 +1102,10 @@ namespace muu
 		{
 			if constexpr (Dimensions == 1)
 			{
-				return static_cast<delta_scalar_type>(v.x);
+				if constexpr (muu::is_signed<scalar_type>)
+					return static_cast<delta_scalar_type>(muu::abs(v.x));
+				else
+					return static_cast<delta_scalar_type>(v.x);
 			}
 			else if constexpr (delta_requires_promotion)
 			{
@@ -1124,7 +1127,10 @@ namespace muu
 		{
 			if constexpr (Dimensions == 1)
 			{
-				return static_cast<delta_scalar_type>(v.x);
+				if constexpr (muu::is_signed<scalar_type>)
+					return static_cast<delta_scalar_type>(muu::abs(v.x));
+				else
+					return static_cast<delta_scalar_type>(v.x);
 			}
 			else if constexpr (delta_requires_promotion)
 			{
@@ -2005,8 +2011,8 @@ namespace muu
 		{
 			if constexpr (Dimensions == 1)
 			{
-				length_out = static_cast<delta_scalar_type>(v.x);
-				return vector{ scalar_constants::one };
+				length_out = length(v);
+				return vector{ v.x < scalar_type{} ? -scalar_constants::one : scalar_constants::one };
 			}
 			else if constexpr (delta_requires_promotion)
 			{
@@ -2036,8 +2042,7 @@ namespace muu
 		{
 			if constexpr (Dimensions == 1)
 			{
-				MUU_UNUSED(v);
-				return vector{ scalar_constants::one };
+				return vector{ v.x < scalar_type{} ? -scalar_constants::one : scalar_constants::one };
 			}
 			else if constexpr (delta_requires_promotion)
 			{
@@ -2066,8 +2071,7 @@ namespace muu
 		{
 			if constexpr (Dimensions == 1)
 			{
-				MUU_UNUSED(v);
-				return vector{ scalar_constants::one };
+				return vector{ v.x < scalar_type{} ? -scalar_constants::one : scalar_constants::one };
 			}
 			else if constexpr (delta_requires_promotion)
 			{
@@ -2145,21 +2149,16 @@ namespace muu
 		{
 			if constexpr (is_integral<scalar_type>)
 			{
-				if constexpr (Dimensions == 1)
-					return v.x == scalar_type{ 1 };
-				else
+				using sum_type = decltype(scalar_type{} + scalar_type{});
+				sum_type sum{};
+				for (size_t i = 0u; i < dimensions && sum <= sum_type{ 1 }; i++)
 				{
-					using sum_type = decltype(scalar_type{} + scalar_type{});
-					sum_type sum{};
-					for (size_t i = 0u; i < dimensions && sum <= sum_type{ 1 }; i++)
-					{
-						if constexpr (muu::is_signed<scalar_type>)
-							sum += muu::abs(v[i]);
-						else
-							sum += v[i];
-					}
-					return sum == sum_type{ 1 };
+					if constexpr (muu::is_signed<scalar_type>)
+						sum += muu::abs(v[i]);
+					else
+						sum += v[i];
 				}
+				return sum == sum_type{ 1 };
 			}
 			else
 			{
-- 
2.43.0


From 966e8626e143c8eb9583ebb0f1f320511749de93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:51 +0000
Subject: [PATCH 06/45] fix: bounding_sphere::closest_point() ignored the
 sphere's center for points outside

---
 include/muu/bounding_sphere.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/bounding_sphere.h b/include/muu/bounding_sphere.h
index 2eaea6b..abdc1c9 100644
--- a/include/muu/bounding_sphere.h
+++ b/include/muu/bounding_sphere.h
@@ -436,7 +436,7 @@ namespace muu
 			if (dist_squared <= base::radius * base::radius)
 				return point;
 
-			return vector_type::normalize_lensq(delta, dist_squared) * base::radius;
+			return base::center + vector_type::normalize_lensq(delta, dist_squared) * base::radius;
 		}
 
 				/// @}
-- 
2.43.0


From 74069e2d0ec6a95f089d46a24b4b3734bd9916b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:51 +0000
Subject: [PATCH 07/45] fix: sphere x sphere containment and intersection
 compared squared radii instead of their sum or difference

---
 include/muu/bounding_sphere.h | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/include/muu/bounding_sphere.h b/include/muu/bounding_sphere.h
index abdc1c9..4ebbedc 100644
--- a/include/muu/bounding_sphere.h
+++ b/include/muu/bounding_sphere.h
@@ -618,14 +618,11 @@ namespace muu
 		static constexpr bool MUU_VECTORCALL contains(MUU_VPARAM(bounding_sphere) outer,
 													  MUU_VPARAM(bounding_sphere) inner) noexcept
 		{
-			const auto dist_squared		 = vector_type::distance_squared(outer.center, inner.center);
-			const auto outer_rad_squared = outer.radius * outer.radius;
-			const auto inner_rad_squared = inner.radius * inner.radius;
-
-			if (dist_squared > (outer_rad_squared + inner_rad_squared))
+			const auto rad_delta = outer.radius - inner.radius;
+			if (rad_delta < scalar_type{})
 				return false;
 
-			return outer_rad_squared >= dist_squared + inner_rad_squared;
+			return vector_type::distance_squared(outer.center, inner.center) <= rad_delta * rad_delta;
 		}
 
 		/// \brief	Returns true if the bounding sphere contains all the points of another bounding sphere.
@@ -640,8 +637,8 @@ namespace muu
 		static constexpr bool MUU_VECTORCALL intersects(MUU_VPARAM(bounding_sphere) bs1,
 														MUU_VPARAM(bounding_sphere) bs2) noexcept
 		{
-			return vector_type::distance_squared(bs1.center, bs2.center)
-				<= ((bs1.radius * bs1.radius) + (bs2.radius * bs2.radius));
+			const auto rad_sum = bs1.radius + bs2.radius;
+			return vector_type::distance_squared(bs1.center, bs2.center) <= rad_sum * rad_sum;
 		}
 
 		/// \brief	Returns true if two bounding spheres intersect.
@@ -790,13 +787,15 @@ namespace muu
 		MUU_PURE_INLINE_GETTER
 		constexpr bool MUU_VECTORCALL operator()(MUU_VPARAM(sphere_type) bs) const noexcept
 		{
-			return vector_type::distance_squared(center, bs.center) <= (radius_squared + bs.radius * bs.radius);
+			const auto rad_sum = radius + bs.radius;
+			return vector_type::distance_squared(center, bs.center) <= rad_sum * rad_sum;
 		}
 
 		MUU_PURE_INLINE_GETTER
 		constexpr bool MUU_VECTORCALL operator()(const collision_tester& tester) const noexcept
 		{
-			return vector_type::distance_squared(center, tester.center) <= (radius_squared + tester.radius_squared);
+			const auto rad_sum = radius + tester.radius;
+			return vector_type::distance_squared(center, tester.center) <= rad_sum * rad_sum;
 		}
 
 		MUU_PURE_GETTER
-- 
2.43.0


From 89ecc998e92b6bd712f98f3587d59033c9b0510a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:51 +0000
Subject: [PATCH 08/45] fix: make bounding_sphere::approx_zero() compile

---
 include/muu/bounding_sphere.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/bounding_sphere.h b/include/muu/bounding_sphere.h
index 4ebbedc..57d8b20 100644
--- a/include/muu/bounding_sphere.h
+++ b/include/muu/bounding_sphere.h
@@ -333,7 +333,7 @@ namespace muu
 		static constexpr bool MUU_VECTORCALL approx_zero(MUU_VPARAM(bounding_sphere) bs,
 														 scalar_type epsilon = default_epsilon<scalar_type>) noexcept
 		{
-			return vector_type::approx_zero(bs.center, epsilon) && vector_type::approx_zero(bs.radius, epsilon);
+			return vector_type::approx_zero(bs.center, epsilon) && muu::approx_zero(bs.radius, epsilon);
 		}
 
 		/// \brief	Returns true if all the scalar components in the bounding sphere are approximately equal to zero.
-- 
2.43.0


From 75627d63df00b1f7492376e9034a1a41f3791905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:51 +0000
Subject: [PATCH 09/45] fix: make bounding_sphere x triangle intersection
 compile

---
 include/muu/bounding_sphere.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/muu/bounding_sphere.h b/include/muu/bounding_sphere.h
index 57d8b20..f9ac118 100644
--- a/include/muu/bounding_sphere.h
+++ b/include/muu/bounding_sphere.h
@@ -545,15 +545,15 @@ namespace muu
 		/// \brief	Returns true if a bounding sphere intersects a triangle.
 		MUU_PURE_GETTER
 		static constexpr bool MUU_VECTORCALL intersects(MUU_VPARAM(bounding_sphere) bs,
-														MUU_VPARAM(vector_type) p0,
-														MUU_VPARAM(vector_type) p1,
-														MUU_VPARAM(vector_type) p2) noexcept
+														MUU_VPARAM(vector_type) p0_,
+														MUU_VPARAM(vector_type) p1_,
+														MUU_VPARAM(vector_type) p2_) noexcept
 		{
 			// https://realtimecollisiondetection.net/blog/?p=103
 
-			p0 -= bs.center;
-			p1 -= bs.center;
-			p2 -= bs.center;
+			const auto p0 = p0_ - bs.center;
+			const auto p1 = p1_ - bs.center;
+			const auto p2 = p2_ - bs.center;
 			const auto rr = bs.radius * bs.radius;
 			const auto V  = vector_type::cross(p1 - p0, p2 - p0);
 			const auto d  = vector_type::dot(p0, V);
-- 
2.43.0


From 1408dca0bc123ec6e529a0d0b7662668cc99a275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:51 +0000
Subject: [PATCH 10/45] fix: plane x line segment intersection was inverted

---
 include/muu/impl/geometry_common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/impl/geometry_common.h b/include/muu/impl/geometry_common.h
index ce14eae..f81fc69 100644
--- a/include/muu/impl/geometry_common.h
+++ b/include/muu/impl/geometry_common.h
@@ -152,7 +152,7 @@ namespace muu::impl
 																	 vector_param start,
 																	 vector_param end) noexcept
 		{
-			return signed_distance(normal, d, start) * signed_distance(normal, d, end) >= scalar_type{};
+			return signed_distance(normal, d, start) * signed_distance(normal, d, end) <= scalar_type{};
 		}
 	};
 }
-- 
2.43.0


From 8b53be71809d6d4de3a17e694d0b0a483e54c7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:51 +0000
Subject: [PATCH 11/45] fix: ray::infinity_or_nan() required both the origin
 and the direction to be affected

---
 include/muu/ray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/ray.h b/include/muu/ray.h
index c685661..ff772d1 100644
--- a/include/muu/ray.h
+++ b/include/muu/ray.h
@@ -155,7 +155,7 @@ namespace muu
 		static constexpr bool MUU_VECTORCALL infinity_or_nan(MUU_VPARAM(ray) r) noexcept
 		{
 			return vector_type::infinity_or_nan(r.origin) //
-				&& vector_type::infinity_or_nan(r.direction);
+				|| vector_type::infinity_or_nan(r.direction);
 		}
 
 		/// \brief	Returns true if any of the scalars in the ray are infinity or NaN.
-- 
2.43.0


From 4619f98f81df90fda32f12288cf7e8813cd88d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:51 +0000
Subject: [PATCH 12/45] fix: ray x triangle reported hits behind the ray's
 origin

---
 include/muu/impl/geometry_common.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/muu/impl/geometry_common.h b/include/muu/impl/geometry_common.h
index f81fc69..df8633b 100644
--- a/include/muu/impl/geometry_common.h
+++ b/include/muu/impl/geometry_common.h
@@ -1054,7 +1054,11 @@ namespace muu::impl
 			if (v < scalar_type{} || u + v > scalar_type{ 1 })
 				return {};
 
-			return vector_type::dot(v0v2, qvec) * invDet;
+			const scalar_type hit_distance = vector_type::dot(v0v2, qvec) * invDet;
+			if (hit_distance < scalar_type{})
+				return {};
+
+			return hit_distance;
 		}
 
 		MUU_PURE_GETTER
-- 
2.43.0


From 713d370d0ae0ed85162ad96334284496bbc5f9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:51 +0000
Subject: [PATCH 13/45] fix: ray x sphere missed hits from inside the sphere
 when pointing away from its center

---
 include/muu/impl/geometry_common.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/muu/impl/geometry_common.h b/include/muu/impl/geometry_common.h
index df8633b..c7ba98c 100644
--- a/include/muu/impl/geometry_common.h
+++ b/include/muu/impl/geometry_common.h
@@ -1072,14 +1072,14 @@ namespace muu::impl
 			const vector_type e = sphere_center - ray_origin;
 			const scalar_type a = vector_type::dot(e, ray_direction);
 
-			// ray points in the wrong direction
-			if (a < scalar_type{})
-				return {};
-
 			const scalar_type e2 = vector_type::length_squared(e);
 			const scalar_type r2 = sphere_radius * sphere_radius;
 			const scalar_type a2 = a * a;
 
+			// ray points in the wrong direction (and does not start inside the sphere)
+			if (a < scalar_type{} && e2 >= r2)
+				return {};
+
 			// no collision
 			if (r2 - e2 + a2 < default_epsilon<scalar_type>)
 				return {};
-- 
2.43.0


From 45a86c2ead4950c6e1d6fd855453a8cc3f0352b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:52 +0000
Subject: [PATCH 14/45] fix: box x oriented box intersection tests ignored the
 edge cross-product axes

---
 .../impl/bounding_box_x_oriented_bounding_box.h   | 15 ++++++++++++++-
 include/muu/oriented_bounding_box.h               | 13 +++++++++++++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/include/muu/impl/bounding_box_x_oriented_bounding_box.h b/include/muu/impl/bounding_box_x_oriented_bounding_box.h
index 6a0f279..757e271 100644
--- a/include/muu/impl/bounding_box_x_oriented_bounding_box.h
+++ b/include/muu/impl/bounding_box_x_oriented_bounding_box.h
@@ -99,7 +99,20 @@ namespace muu
 				return false;
 		}
 
-		return true;
+		// cross products of the boxes' edges
+		const auto test_edges = [&](auto idx) noexcept -> bool
+		{
+			for (size_t i = 0; i < 3; i++)
+			{
+				const auto axis = vector_type::cross(obb.axes.m[i], idx);
+				sat_tester tester1{ axis, obb_corners };
+				sat_tester tester2{ axis, aabb_corners };
+				if (!tester1(tester2))
+					return false;
+			}
+			return true;
+		};
+		return test_edges(x_axis_tag{}) && test_edges(y_axis_tag{}) && test_edges(z_axis_tag{});
 	}
 }
 
diff --git a/include/muu/oriented_bounding_box.h b/include/muu/oriented_bounding_box.h
index 95b5764..a59fdf9 100644
--- a/include/muu/oriented_bounding_box.h
+++ b/include/muu/oriented_bounding_box.h
@@ -901,6 +901,19 @@ namespace muu
 						return false;
 				}
 			}
+
+			// cross products of the boxes' edges
+			for (size_t i = 0; i < 3; i++)
+			{
+				for (size_t j = 0; j < 3; j++)
+				{
+					const auto axis = vector_type::cross(bb1.axes.m[i], bb2.axes.m[j]);
+					sat_tester tester1{ axis, corners1 };
+					sat_tester tester2{ axis, corners2 };
+					if (!tester1(tester2))
+						return false;
+				}
+			}
 			return true;
 		}
 
-- 
2.43.0


From 916e23e40a6b5d6c6e1879bfa3c85bf3a2095162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:01 +0000
Subject: [PATCH 15/45] fix: bounding_sphere::volume() multiplied by 4/(3*pi)
 instead of 4*pi/3

---
 include/muu/impl/geometry_common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/impl/geometry_common.h b/include/muu/impl/geometry_common.h
index c7ba98c..ebcbe63 100644
--- a/include/muu/impl/geometry_common.h
+++ b/include/muu/impl/geometry_common.h
@@ -471,7 +471,7 @@ namespace muu::impl
 		MUU_PURE_GETTER
 		static constexpr scalar_type MUU_VECTORCALL volume(scalar_type radius) noexcept
 		{
-			return constants<scalar_type>::four_over_three_pi * radius * radius * radius;
+			return constants<scalar_type>::four_over_three * constants<scalar_type>::pi * radius * radius * radius;
 		}
 	};
 }
-- 
2.43.0


From 2ba890e6528f94081214a0a203fe177787a643fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:58 +0000
Subject: [PATCH 16/45] fix: byte_select() with an index equal to the size of
 the value

---
 include/muu/bit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/bit.h b/include/muu/bit.h
index bfca4d7..3aa8464 100644
--- a/include/muu/bit.h
+++ b/include/muu/bit.h
@@ -154,7 +154,7 @@ namespace muu
 	{
 		static_assert(!is_cvref<T>);
 
-		if (index > sizeof(T))
+		if (index >= sizeof(T))
 			return uint8_t{};
 
 		if constexpr (std::is_enum_v<T>)
-- 
2.43.0


From b94bde881e867a28dfb0e31409b694303a5494e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:58 +0000
Subject: [PATCH 17/45] fix: make byte_reverse() compile for 8-bit integers and
 unsigned long long

---
 include/muu/byte_reverse.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/muu/byte_reverse.h b/include/muu/byte_reverse.h
index c4c916c..c2d395c 100644
--- a/include/muu/byte_reverse.h
+++ b/include/muu/byte_reverse.h
@@ -24,11 +24,11 @@ namespace muu::impl
 	{
 #if MUU_GCC || MUU_CLANG
 
-		if constexpr (std::is_same_v<T, uint16_t>)
+		if constexpr (sizeof(T) == sizeof(uint16_t))
 			return __builtin_bswap16(val);
-		else if constexpr (std::is_same_v<T, uint32_t>)
+		else if constexpr (sizeof(T) == sizeof(uint32_t))
 			return __builtin_bswap32(val);
-		else if constexpr (std::is_same_v<T, uint64_t>)
+		else if constexpr (sizeof(T) == sizeof(uint64_t))
 			return __builtin_bswap64(val);
 	#if MUU_HAS_INT128
 		else if constexpr (std::is_same_v<T, uint128_t>)
@@ -130,6 +130,8 @@ namespace muu
 	{
 		if constexpr (is_enum<T>)
 			return static_cast<T>(byte_reverse(static_cast<std::underlying_type_t<T>>(val)));
+		else if constexpr (sizeof(T) == 1u)
+			return val;
 		else
 		{
 			if constexpr (!build::supports_is_constant_evaluated || !MUU_HAS_INTRINSIC_BYTE_REVERSE)
-- 
2.43.0


From bcb017560344701b9771b5d1039c22d429ec5ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:11 +0000
Subject: [PATCH 18/45] fix: between() with an unsigned value and a negative
 lower bound

---
 include/muu/impl/core_utils.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/muu/impl/core_utils.h b/include/muu/impl/core_utils.h
index f8b72c1..447cb6b 100644
--- a/include/muu/impl/core_utils.h
+++ b/include/muu/impl/core_utils.h
@@ -124,6 +124,8 @@ namespace muu
 				{
 					if (high < rhs{})
 						return false;
+					if (low < rhs{})
+						return between(val, rhs{}, high);
 				}
 				if constexpr (!std::is_same_v<lhs, rhs>)
 				{
-- 
2.43.0


From d4c35512c79756a08cc2642fdcb763229ba649eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:11 +0000
Subject: [PATCH 19/45] fix: make apply_alignment<Alignment>() compile for
 enums

---
 include/muu/apply_alignment.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/apply_alignment.h b/include/muu/apply_alignment.h
index 648335f..a936337 100644
--- a/include/muu/apply_alignment.h
+++ b/include/muu/apply_alignment.h
@@ -30,7 +30,7 @@ namespace muu
 
 		if constexpr (std::is_enum_v<T>)
 		{
-			return static_cast<T>(apply_alignment(static_cast<std::underlying_type_t<T>>(val)));
+			return static_cast<T>(apply_alignment<Alignment>(static_cast<std::underlying_type_t<T>>(val)));
 		}
 		else
 		{
-- 
2.43.0


From ef193f01a66a2007f253a1d0e865d2a199a9c39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:22 +0000
Subject: [PATCH 20/45] fix: negative tags overwrote the pointer of a
 tagged_ptr

---
 include/muu/tagged_ptr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/muu/tagged_ptr.h b/include/muu/tagged_ptr.h
index 677bbb9..54035a6 100644
--- a/include/muu/tagged_ptr.h
+++ b/include/muu/tagged_ptr.h
@@ -206,7 +206,7 @@ namespace muu::impl
 					}
 					else
 					{
-						return pack_ptr(ptr) | static_cast<uintptr_t>(tag);
+						return pack_ptr(ptr) | static_cast<uintptr_t>(static_cast<tptr_make_unsigned<Tag>>(tag));
 					}
 				}
 				else // some pod type
@@ -259,7 +259,7 @@ namespace muu::impl
 			}
 			else
 			{
-				return (bits & ptr_mask) | static_cast<uintptr_t>(tag);
+				return (bits & ptr_mask) | static_cast<uintptr_t>(static_cast<tptr_make_unsigned<Tag>>(tag));
 			}
 		}
 
-- 
2.43.0


From 3a3b315a277f56ff9b24b2b6a9c1bbdcc3a472d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:12 +0000
Subject: [PATCH 21/45] fix: between() with an unsigned value no longer
 recurses (completes the repair of a negative lower bound)

---
 include/muu/impl/core_utils.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/muu/impl/core_utils.h b/include/muu/impl/core_utils.h
index 447cb6b..3a0d414 100644
--- a/include/muu/impl/core_utils.h
+++ b/include/muu/impl/core_utils.h
@@ -125,7 +125,10 @@ namespace muu
 					if (high < rhs{})
 						return false;
 					if (low < rhs{})
-						return between(val, rhs{}, high);
+					{
+						using common_type = std::common_type_t<lhs, rhs>;
+						return static_cast<common_type>(val) <= static_cast<common_type>(high);
+					}
 				}
 				if constexpr (!std::is_same_v<lhs, rhs>)
 				{
-- 
2.43.0


From 364930e2b989b3a768d537b8b6d544ea8468224b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:43 +0000
Subject: [PATCH 22/45] fix: digits of e and of the constants derived from it

---
 include/muu/impl/core_constants.h | 72 +++++++++++++++----------------
 1 file changed, 36 insertions(+), 36 deletions(-)

diff --git a/include/muu/impl/core_constants.h b/include/muu/impl/core_constants.h
index eacbc0b..3e1ba96 100644
--- a/include/muu/impl/core_constants.h
+++ b/include/muu/impl/core_constants.h
@@ -239,24 +239,24 @@ namespace muu
 			static constexpr T five_over_three_pi	  = T(0.530516476972984452563L); ///< `5 / (3 * pi)`
 			static constexpr T seven_over_three_pi	  = T(0.742723067762178233588L); ///< `7 / (3 * pi)`
 			static constexpr T eight_over_three_pi	  = T(0.848826363156775124101L); ///< `8 / (3 * pi)`
-			static constexpr T e					  = T(2.718281828459045534885L); ///< `e`
-			static constexpr T one_over_e			  = T(0.367879441171442281059L); ///< `1 / e`
-			static constexpr T sqrt_e				  = T(1.648721270700128237684L); ///< `sqrt(e)`
-			static constexpr T one_over_sqrt_e		  = T(0.606530659712633390187L); ///< `1 / sqrt(e)`
-			static constexpr T e_over_two			  = T(1.359140914229522767442L); ///< `e / 2`
-			static constexpr T e_over_three			  = T(0.906093942819681844962L); ///< `e / 3`
-			static constexpr T e_over_four			  = T(0.679570457114761383721L); ///< `e / 4`
-			static constexpr T e_over_five			  = T(0.543656365691809106977L); ///< `e / 5`
-			static constexpr T e_over_six			  = T(0.453046971409840922481L); ///< `e / 6`
-			static constexpr T e_over_seven			  = T(0.388325975494149362126L); ///< `e / 7`
-			static constexpr T e_over_eight			  = T(0.339785228557380691861L); ///< `e / 8`
-			static constexpr T two_over_e			  = T(0.735758882342884562119L); ///< `2 / e`
-			static constexpr T three_over_e			  = T(1.103638323514326843178L); ///< `3 / e`
-			static constexpr T four_over_e			  = T(1.471517764685769124237L); ///< `4 / e`
-			static constexpr T five_over_e			  = T(1.839397205857211405296L); ///< `5 / e`
-			static constexpr T six_over_e			  = T(2.207276647028653686356L); ///< `6 / e`
-			static constexpr T seven_over_e			  = T(2.575156088200095967415L); ///< `7 / e`
-			static constexpr T eight_over_e			  = T(2.943035529371538248474L); ///< `8 / e`
+			static constexpr T e					  = T(2.718281828459045235360L); ///< `e`
+			static constexpr T one_over_e			  = T(0.367879441171442321596L); ///< `1 / e`
+			static constexpr T sqrt_e				  = T(1.648721270700128146849L); ///< `sqrt(e)`
+			static constexpr T one_over_sqrt_e		  = T(0.606530659712633423604L); ///< `1 / sqrt(e)`
+			static constexpr T e_over_two			  = T(1.359140914229522617680L); ///< `e / 2`
+			static constexpr T e_over_three			  = T(0.906093942819681745120L); ///< `e / 3`
+			static constexpr T e_over_four			  = T(0.679570457114761308840L); ///< `e / 4`
+			static constexpr T e_over_five			  = T(0.543656365691809047072L); ///< `e / 5`
+			static constexpr T e_over_six			  = T(0.453046971409840872560L); ///< `e / 6`
+			static constexpr T e_over_seven			  = T(0.388325975494149319337L); ///< `e / 7`
+			static constexpr T e_over_eight			  = T(0.339785228557380654420L); ///< `e / 8`
+			static constexpr T two_over_e			  = T(0.735758882342884643191L); ///< `2 / e`
+			static constexpr T three_over_e			  = T(1.103638323514326964787L); ///< `3 / e`
+			static constexpr T four_over_e			  = T(1.471517764685769286382L); ///< `4 / e`
+			static constexpr T five_over_e			  = T(1.839397205857211607978L); ///< `5 / e`
+			static constexpr T six_over_e			  = T(2.207276647028653929573L); ///< `6 / e`
+			static constexpr T seven_over_e			  = T(2.575156088200096251169L); ///< `7 / e`
+			static constexpr T eight_over_e			  = T(2.943035529371538572764L); ///< `8 / e`
 			static constexpr T phi					  = T(1.618033988749894848205L); ///< `phi`
 			static constexpr T one_over_phi			  = T(0.618033988749894848205L); ///< `1 / phi`
 			static constexpr T sqrt_phi				  = T(1.272019649514068964252L); ///< `sqrt(phi)`
@@ -362,24 +362,24 @@ namespace muu
 			static constexpr float128_t five_over_three_pi	   = 0.530516476972984452562945877908381207q;
 			static constexpr float128_t seven_over_three_pi	   = 0.742723067762178233588124229071733689q;
 			static constexpr float128_t eight_over_three_pi	   = 0.848826363156775124100713404653409931q;
-			static constexpr float128_t e					   = 2.718281828459045534884808148490265012q;
-			static constexpr float128_t one_over_e			   = 0.367879441171442281059287928010393142q;
-			static constexpr float128_t sqrt_e				   = 1.648721270700128237684053351021451524q;
-			static constexpr float128_t one_over_sqrt_e		   = 0.606530659712633390187322401455485737q;
-			static constexpr float128_t e_over_two			   = 1.359140914229522767442404074245132506q;
-			static constexpr float128_t e_over_three		   = 0.906093942819681844961602716163421671q;
-			static constexpr float128_t e_over_four			   = 0.679570457114761383721202037122566253q;
-			static constexpr float128_t e_over_five			   = 0.543656365691809106976961629698053002q;
-			static constexpr float128_t e_over_six			   = 0.453046971409840922480801358081710835q;
-			static constexpr float128_t e_over_seven		   = 0.388325975494149362126401164070037859q;
-			static constexpr float128_t e_over_eight		   = 0.339785228557380691860601018561283126q;
-			static constexpr float128_t two_over_e			   = 0.735758882342884562118575856020786284q;
-			static constexpr float128_t three_over_e		   = 1.103638323514326843177863784031179427q;
-			static constexpr float128_t four_over_e			   = 1.471517764685769124237151712041572569q;
-			static constexpr float128_t five_over_e			   = 1.839397205857211405296439640051965711q;
-			static constexpr float128_t six_over_e			   = 2.207276647028653686355727568062358853q;
-			static constexpr float128_t seven_over_e		   = 2.575156088200095967415015496072751996q;
-			static constexpr float128_t eight_over_e		   = 2.943035529371538248474303424083145138q;
+			static constexpr float128_t e					   = 2.718281828459045235360287471352662498q;
+			static constexpr float128_t one_over_e			   = 0.367879441171442321595523770161460867q;
+			static constexpr float128_t sqrt_e				   = 1.648721270700128146848650787814163572q;
+			static constexpr float128_t one_over_sqrt_e		   = 0.606530659712633423603799534991180453q;
+			static constexpr float128_t e_over_two			   = 1.359140914229522617680143735676331249q;
+			static constexpr float128_t e_over_three		   = 0.906093942819681745120095823784220833q;
+			static constexpr float128_t e_over_four			   = 0.679570457114761308840071867838165624q;
+			static constexpr float128_t e_over_five			   = 0.543656365691809047072057494270532500q;
+			static constexpr float128_t e_over_six			   = 0.453046971409840872560047911892110416q;
+			static constexpr float128_t e_over_seven		   = 0.388325975494149319337183924478951785q;
+			static constexpr float128_t e_over_eight		   = 0.339785228557380654420035933919082812q;
+			static constexpr float128_t two_over_e			   = 0.735758882342884643191047540322921735q;
+			static constexpr float128_t three_over_e		   = 1.103638323514326964786571310484382602q;
+			static constexpr float128_t four_over_e			   = 1.471517764685769286382095080645843470q;
+			static constexpr float128_t five_over_e			   = 1.839397205857211607977618850807304337q;
+			static constexpr float128_t six_over_e			   = 2.207276647028653929573142620968765205q;
+			static constexpr float128_t seven_over_e		   = 2.575156088200096251168666391130226072q;
+			static constexpr float128_t eight_over_e		   = 2.943035529371538572764190161291686940q;
 			static constexpr float128_t phi					   = 1.618033988749894848204586834365638118q;
 			static constexpr float128_t one_over_phi		   = 0.618033988749894848204586834365638118q;
 			static constexpr float128_t sqrt_phi			   = 1.272019649514068964252422461737491492q;
-- 
2.43.0


From 87f98ddbae3b7246caaf427051fb8f0f4397ed6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:16 +0000
Subject: [PATCH 23/45] fix: limits and special values of half when wrapping a
 native _Float16

---
 include/muu/half.h                | 10 +++++-----
 include/muu/impl/core_constants.h | 28 ++++++++++++++++++++++++++++
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/include/muu/half.h b/include/muu/half.h
index 2ef89c6..8424aa4 100644
--- a/include/muu/half.h
+++ b/include/muu/half.h
@@ -1464,7 +1464,7 @@ namespace std
 			using namespace muu::literals;
 			return half::from_bits(0x0400_u16); // 0.000061035 (ish)
 #else
-			return half{ (std::numeric_limits<MUU_HALF_IMPL_TYPE>::min)() };
+			return half{ static_cast<MUU_HALF_IMPL_TYPE>(0.00006103515625f) };
 #endif
 		}
 
@@ -1487,7 +1487,7 @@ namespace std
 			using namespace muu::literals;
 			return half::from_bits(0b0'00101'0000000000_u16); // 0.00097656
 #else
-			return half{ std::numeric_limits<MUU_HALF_IMPL_TYPE>::epsilon() };
+			return half{ static_cast<MUU_HALF_IMPL_TYPE>(0.0009765625f) };
 #endif
 		}
 
@@ -1496,9 +1496,9 @@ namespace std
 		{
 #if MUU_HALF_EMULATED
 			using namespace muu::literals;
-			return half::from_bits(0b0'00100'0000000000_u16); // epsilon / 2
+			return half::from_bits(0b0'01110'0000000000_u16); // 0.5
 #else
-			return half{ std::numeric_limits<MUU_HALF_IMPL_TYPE>::round_error() };
+			return half{ static_cast<MUU_HALF_IMPL_TYPE>(0.5f) };
 #endif
 		}
 
@@ -1527,7 +1527,7 @@ namespace std
 			using namespace muu::literals;
 			return half::from_bits(0x0001_u16); // 0.000000059605 (ish)
 #else
-			return half{ std::numeric_limits<MUU_HALF_IMPL_TYPE>::denorm_min() };
+			return half{ static_cast<MUU_HALF_IMPL_TYPE>(0.000000059604644775390625f) };
 #endif
 		}
 	};
diff --git a/include/muu/impl/core_constants.h b/include/muu/impl/core_constants.h
index 3e1ba96..8fdd671 100644
--- a/include/muu/impl/core_constants.h
+++ b/include/muu/impl/core_constants.h
@@ -77,6 +77,16 @@ namespace muu
 		};
 #endif // MUU_HAS_INT128
 
+#if MUU_HAS_FLOAT16
+		// (std::numeric_limits is often not specialized for _Float16)
+		template <>
+		struct integer_limits<_Float16>
+		{
+			static constexpr _Float16 highest = static_cast<_Float16>(65504.0f);
+			static constexpr _Float16 lowest  = -highest;
+		};
+#endif
+
 #if MUU_HAS_FLOAT128
 		template <>
 		struct integer_limits<float128_t>
@@ -168,6 +178,24 @@ namespace muu
 			/// @}
 		};
 
+		/// \cond
+
+#if MUU_HAS_FLOAT16
+		// (std::numeric_limits is often not specialized for _Float16)
+		template <>
+		struct floating_point_special_constants<_Float16>
+		{
+			static constexpr _Float16 nan = static_cast<_Float16>(std::numeric_limits<float>::quiet_NaN());
+			static constexpr _Float16 signaling_nan =
+				static_cast<_Float16>(std::numeric_limits<float>::signaling_NaN());
+			static constexpr _Float16 infinity = static_cast<_Float16>(std::numeric_limits<float>::infinity());
+			static constexpr _Float16 negative_infinity = -infinity;
+			static constexpr _Float16 negative_zero		= -_Float16{};
+		};
+#endif
+
+		/// \endcond
+
 		template <typename T>
 		struct floating_point_named_constants
 		{
-- 
2.43.0


From 6d94330d84c4b39e2724036ceffa1e0389dc2a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:03 +0000
Subject: [PATCH 24/45] fix: count processed SHA-1 blocks in 64 bits so the
 encoded length does not wrap

---
 include/muu/hashing.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/hashing.h b/include/muu/hashing.h
index b77e962..0517484 100644
--- a/include/muu/hashing.h
+++ b/include/muu/hashing.h
@@ -307,7 +307,7 @@ namespace muu
 			digest_bytes digest;
 			hash_bytes hash;
 		} state;
-		uint32_t processed_blocks{};
+		uint64_t processed_blocks{};
 		uint8_t current_block_length{};
 		uint8_t current_block[64];
 		bool finished_ = false;
-- 
2.43.0


From f51ad640e608b3356f29b0232f26d0a72dd795c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:20 +0000
Subject: [PATCH 25/45] fix: accumulator.h includes the definitions of min and
 max it uses

---
 include/muu/accumulator.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/muu/accumulator.h b/include/muu/accumulator.h
index 6e2a807..3ee0896 100644
--- a/include/muu/accumulator.h
+++ b/include/muu/accumulator.h
@@ -9,6 +9,7 @@
 
 #include "compressed_pair.h"
 #include "math.h"
+#include "impl/core_utils.h"
 #include "impl/header_start.h"
 MUU_FORCE_NDEBUG_OPTIMIZATIONS;
 
-- 
2.43.0


From 84c53bce640d849aaa1eef7b3aaee326ddb432a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:20 +0000
Subject: [PATCH 26/45] fix: assume_aligned.h includes fwd.h for muu::launder
 and size_t

---
 include/muu/assume_aligned.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/muu/assume_aligned.h b/include/muu/assume_aligned.h
index 7e82bc4..ffc1647 100644
--- a/include/muu/assume_aligned.h
+++ b/include/muu/assume_aligned.h
@@ -8,6 +8,7 @@
 /// \ingroup cpp20
 /// \brief Contains the definition of #muu::assume_aligned().
 
+#include "fwd.h"
 #include "is_constant_evaluated.h"
 #include "impl/std_type_traits.h"
 #include "impl/header_start.h"
-- 
2.43.0


From ad2b69ca716e7d748b0fa5bbea6fdf62752baf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:20 +0000
Subject: [PATCH 27/45] fix: chars.h includes the helpers its char-type
 functions use

---
 include/muu/chars.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/muu/chars.h b/include/muu/chars.h
index aefc9e3..201ebb4 100644
--- a/include/muu/chars.h
+++ b/include/muu/chars.h
@@ -7,6 +7,7 @@
 /// \file
 /// \brief Functions to simplify working with characters (code units).
 
+#include "impl/core_utils.h"
 #include "impl/core_constants.h"
 #include "impl/unicode_char.h"
 #include "impl/unicode_wchar_t.h"
-- 
2.43.0


From 6fbb7ba2dec6df09a7210f053bae0fe97a37ab5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:20 +0000
Subject: [PATCH 28/45] fix: fixed_string.h includes size_t_literals.h

---
 include/muu/fixed_string.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/muu/fixed_string.h b/include/muu/fixed_string.h
index 1761175..83ee7a6 100644
--- a/include/muu/fixed_string.h
+++ b/include/muu/fixed_string.h
@@ -9,6 +9,7 @@
 
 #include "iterators.h"
 #include "meta.h"
+#include "size_t_literals.h"
 #include "impl/core_utils.h"
 #include "impl/core_constants.h"
 #include "impl/std_string_view.h"
-- 
2.43.0


From b4724a1fbf8b0d091fa2790fc3442a17503b02d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:20 +0000
Subject: [PATCH 29/45] fix: blob.h includes the definition of min

---
 include/muu/blob.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/muu/blob.h b/include/muu/blob.h
index 0c0bc31..510e1da 100644
--- a/include/muu/blob.h
+++ b/include/muu/blob.h
@@ -8,6 +8,7 @@
 /// \brief Contains the definition of #muu::blob.
 
 #include "aligned_alloc.h"
+#include "impl/core_utils.h"
 #include "impl/std_memcpy.h"
 #include "impl/std_utility.h"
 #include "impl/header_start.h"
-- 
2.43.0


From d2d6fb81044c93944b21f03ca06c7492bd558e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:20 +0000
Subject: [PATCH 30/45] fix: source_location.h tests MUU_GCC after it has been
 defined

---
 include/muu/source_location.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/muu/source_location.h b/include/muu/source_location.h
index 995c87e..a79592b 100644
--- a/include/muu/source_location.h
+++ b/include/muu/source_location.h
@@ -8,6 +8,8 @@
 /// \ingroup cpp20
 /// \brief Contains the definition of #muu::source_location.
 
+#include "fwd.h"
+
 #ifndef MUU_SOURCE_LOCATION_COLUMN
 	#if MUU_GCC
 		#define MUU_SOURCE_LOCATION_COLUMN() 0
@@ -16,7 +18,6 @@
 	#endif
 #endif
 
-#include "fwd.h"
 #include "impl/header_start.h"
 
 /// \cond
-- 
2.43.0


From 7e218603262e9ec8687ad040c1d708079a033b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:20 +0000
Subject: [PATCH 31/45] fix: static_array comparison operators compile and
 compare both arrays, empty() is not inverted

---
 include/muu/static_array.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/muu/static_array.h b/include/muu/static_array.h
index 5ae482b..0be3407 100644
--- a/include/muu/static_array.h
+++ b/include/muu/static_array.h
@@ -51,7 +51,7 @@ namespace muu
 		MUU_CONSTEVAL
 		bool empty() const noexcept
 		{
-			return sizeof...(Elements) > 0u;
+			return sizeof...(Elements) == 0u;
 		}
 
 		/// \brief	Returns the first element in the array.
@@ -164,7 +164,7 @@ namespace muu
 		template <T... E>
 		static constexpr bool is_less = []() noexcept
 		{
-			if constexpr (is_equal<T, E...>)
+			if constexpr (is_equal<E...>)
 				return false;
 			else
 			{
@@ -173,7 +173,7 @@ namespace muu
 				auto* first1	 = values;
 				const auto last1 = first1 + sizeof...(Elements);
 				auto* first2	 = static_array<T, E...>::values;
-				const auto last2 = last1 + sizeof...(E);
+				const auto last2 = first2 + sizeof...(E);
 
 				for (; (first1 != last1) && (first2 != last2); ++first1, ++first2)
 				{
-- 
2.43.0


From 84952bebb6426ddeec9ef45acfe8d3afb6251b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:20 +0000
Subject: [PATCH 32/45] fix: is_standard_arithmetic excludes the extended types
 in GNU dialects

---
 include/muu/meta.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/muu/meta.h b/include/muu/meta.h
index 17d99ca..b4465a9 100644
--- a/include/muu/meta.h
+++ b/include/muu/meta.h
@@ -1205,10 +1205,6 @@ namespace muu
 	template <typename... T>
 	inline constexpr bool all_floating_point = MUU_ALL_VARIADIC_T(is_floating_point);
 
-	/// \brief Is a type one of the standard c++ arithmetic types, or a reference to one?
-	template <typename T>
-	inline constexpr bool is_standard_arithmetic = std::is_arithmetic_v<std::remove_reference_t<T>>;
-
 	/// \brief Is a type a nonstandard 'extended' arithmetic type, or a reference to one?
 	/// \remarks True for muu::half.
 	/// \remarks True for #int128_t, #uint128_t, __fp16, _Float16 and #float128_t (where supported).
@@ -1229,6 +1225,10 @@ namespace muu
 #endif
 															half>;
 
+	/// \brief Is a type one of the standard c++ arithmetic types, or a reference to one?
+	template <typename T>
+	inline constexpr bool is_standard_arithmetic = std::is_arithmetic_v<std::remove_reference_t<T>> && !is_extended_arithmetic<T>;
+
 	/// \brief Is a type arithmetic or reference-to-arithmetic?
 	/// \remarks True for muu::half.
 	/// \remarks True for #int128_t, #uint128_t, __fp16, _Float16 and #float128_t (where supported).
-- 
2.43.0


From 7e209bedb24424715485162f8e88685fda8a6318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:16 +0000
Subject: [PATCH 33/45] fix: line_segment::midpoint compiles for small
 floating-point types

---
 include/muu/line_segment.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/muu/line_segment.h b/include/muu/line_segment.h
index a45ca5f..73f636e 100644
--- a/include/muu/line_segment.h
+++ b/include/muu/line_segment.h
@@ -240,8 +240,8 @@ namespace muu
 		static constexpr vector_type MUU_VECTORCALL midpoint(MUU_VPARAM(line_segment) seg) noexcept
 		{
 			if constexpr (is_small_float)
-				return vector_type{ line_segment<promoted_scalar>::midpoint(promoted_vec{ seg.points[0] },
-																			promoted_vec{ seg.points[1] }) };
+				return vector_type{ line_segment<promoted_scalar>::midpoint(
+					line_segment<promoted_scalar>{ promoted_vec{ seg.points[0] }, promoted_vec{ seg.points[1] } }) };
 			else
 				return (seg.points[0] + seg.points[1]) / scalar_type{ 2 };
 		}
-- 
2.43.0


From 210d4fed0679cff6ee88a56b277f07f2cf914199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:16 +0000
Subject: [PATCH 34/45] fix: vectors of halfs compile regardless of the order
 of includes

---
 include/muu/impl/vector_types_common.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/muu/impl/vector_types_common.h b/include/muu/impl/vector_types_common.h
index 8ec3adc..baa9b39 100644
--- a/include/muu/impl/vector_types_common.h
+++ b/include/muu/impl/vector_types_common.h
@@ -6,6 +6,7 @@
 /// \cond
 
 #include "../math.h"
+#include "../half.h"
 #include "std_iosfwd.h"
 #include "header_start.h"
 
-- 
2.43.0


From 2dd0a9f41c1fbc17e72952af042f8294e74e077c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:10 +0000
Subject: [PATCH 35/45] fix: adding one accumulator to another merged the
 sample sets only when the destination was empty

---
 include/muu/accumulator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/muu/accumulator.h b/include/muu/accumulator.h
index 3ee0896..726932f 100644
--- a/include/muu/accumulator.h
+++ b/include/muu/accumulator.h
@@ -157,13 +157,13 @@ namespace muu
 			{
 				if (empty())
 				{
-					impl_and_count.first().add(other.impl_and_count.first());
-					impl_and_count.second() += other.impl_and_count.second();
+					impl_and_count.first()	= other.impl_and_count.first();
+					impl_and_count.second() = other.impl_and_count.second();
 				}
 				else
 				{
-					impl_and_count.first()	= other.impl_and_count.first();
-					impl_and_count.second() = other.impl_and_count.second();
+					impl_and_count.first().add(other.impl_and_count.first());
+					impl_and_count.second() += other.impl_and_count.second();
 				}
 			}
 			return *this;
-- 
2.43.0


From d490695b2f5aa82c392fb71776fc0e7797b9d6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:10 +0000
Subject: [PATCH 36/45] fix: adding one floating-point accumulator to another
 did not compile

---
 include/muu/accumulator.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/muu/accumulator.h b/include/muu/accumulator.h
index 726932f..7ca8265 100644
--- a/include/muu/accumulator.h
+++ b/include/muu/accumulator.h
@@ -306,7 +306,9 @@ namespace muu
 				using muu::max;
 				min_ = min(other.min_, min_);
 				max_ = max(other.max_, max_);
-				kahan_add(other.sum);
+				const auto other_correction = other.correction_;
+				kahan_add(other.sum_);
+				correction_ += other_correction;
 			}
 
 			MUU_PURE_INLINE_GETTER
-- 
2.43.0


From 295782e4da0eb9ddc3c31a210d567df5b7bc8a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:47 +0000
Subject: [PATCH 37/45] fix: functions that write an output parameter were
 declared pure

MUU_PURE promises the compiler that a function has no effect besides its
return value. In release builds the calls were therefore moved, merged and
dropped although they write the distance, length or intersection segment.
---
 include/muu/impl/tri_tri_intersection.h | 6 +++---
 include/muu/line_segment.h              | 6 ++++--
 include/muu/triangle.h                  | 5 +++--
 include/muu/vector.h                    | 5 +++--
 4 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/include/muu/impl/tri_tri_intersection.h b/include/muu/impl/tri_tri_intersection.h
index 6a30a49..d57c8f2 100644
--- a/include/muu/impl/tri_tri_intersection.h
+++ b/include/muu/impl/tri_tri_intersection.h
@@ -342,7 +342,7 @@ namespace muu::impl
 			isectpoint1 = VTX0 + diff;
 		}
 
-		MUU_PURE_GETTER
+		MUU_NODISCARD
 		static constexpr bool compute_intervals_isectline(vector_param VERT0,
 														  vector_param VERT1,
 														  vector_param VERT2,
@@ -375,7 +375,7 @@ namespace muu::impl
 			return false;
 		}
 
-		MUU_PURE_GETTER
+		MUU_NODISCARD
 		static constexpr bool intersects(vector_param V0,
 										 vector_param V1,
 										 vector_param V2,
@@ -589,7 +589,7 @@ namespace muu
 	}
 
 	template <typename Scalar>
-	MUU_PURE_GETTER
+	MUU_NODISCARD
 	constexpr bool MUU_VECTORCALL triangle<Scalar>::intersects(MUU_VPARAM(triangle) tri1,
 															   MUU_VPARAM(triangle) tri2,
 															   std::optional<line_segment<Scalar>>& seg) noexcept
diff --git a/include/muu/line_segment.h b/include/muu/line_segment.h
index 73f636e..13c6c1d 100644
--- a/include/muu/line_segment.h
+++ b/include/muu/line_segment.h
@@ -207,7 +207,8 @@ namespace muu
 		  /// @{
 
 		/// \brief	Returns the direction of a line segment (from point 0 to point 1).
-		MUU_PURE_INLINE_GETTER
+		MUU_NODISCARD
+		MUU_ALWAYS_INLINE
 		static constexpr vector_type MUU_VECTORCALL direction(MUU_VPARAM(line_segment) seg,
 															  scalar_type& length_out) noexcept
 		{
@@ -215,7 +216,8 @@ namespace muu
 		}
 
 		/// \brief	Returns the direction of the line segment (from point 0 to point 1).
-		MUU_PURE_INLINE_GETTER
+		MUU_NODISCARD
+		MUU_ALWAYS_INLINE
 		constexpr vector_type direction(scalar_type& length_out) const noexcept
 		{
 			return direction(*this, length_out);
diff --git a/include/muu/triangle.h b/include/muu/triangle.h
index acef499..70228c2 100644
--- a/include/muu/triangle.h
+++ b/include/muu/triangle.h
@@ -555,13 +555,14 @@ namespace muu
 		//--------------------------------
 
 		/// \brief	Returns true if two triangles intersect, plus the line segment of the intersection (if one exists).
-		MUU_PURE_GETTER
+		MUU_NODISCARD
 		static constexpr bool MUU_VECTORCALL intersects(MUU_VPARAM(triangle) tri1,
 														MUU_VPARAM(triangle) tri2,
 														std::optional<line_segment<scalar_type>>& seg) noexcept;
 
 		/// \brief	Returns true if a triangle intersects with another triangle, plus the line segment of the intersection (if one exists).
-		MUU_PURE_INLINE_GETTER
+		MUU_NODISCARD
+		MUU_ALWAYS_INLINE
 		constexpr bool MUU_VECTORCALL intersects(MUU_VPARAM(triangle) tri,
 												 std::optional<line_segment<scalar_type>>& seg) const noexcept
 		{
diff --git a/include/muu/vector.h b/include/muu/vector.h
index 8ed4b81..0f1e52b 100644
--- a/include/muu/vector.h
+++ b/include/muu/vector.h
@@ -2207,7 +2207,7 @@ namespace muu
 		///
 		/// \availability	This function is only available when #dimensions == 2 or 3.
 		MUU_HIDDEN_CONSTRAINT(Dims == 2 || Dims == 3, size_t Dims = Dimensions)
-		MUU_PURE_GETTER
+		MUU_NODISCARD
 		static constexpr delta_type MUU_VECTORCALL direction(MUU_VPARAM(vector) from,
 															 MUU_VPARAM(vector) to,
 															 delta_scalar_type& distance_out) noexcept
@@ -2256,7 +2256,8 @@ namespace muu
 		///
 		/// \availability	This function is only available when #dimensions == 2 or 3.
 		MUU_HIDDEN_CONSTRAINT(Dims == 2 || Dims == 3, size_t Dims = Dimensions)
-		MUU_PURE_INLINE_GETTER
+		MUU_NODISCARD
+		MUU_ALWAYS_INLINE
 		constexpr delta_type MUU_VECTORCALL direction(MUU_VPARAM(vector) to,
 													  delta_scalar_type& distance_out) const noexcept
 		{
-- 
2.43.0


From c0eebfe021abfe6f33adb3ce9b7229e80d76c857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:47 +0000
Subject: [PATCH 38/45] fix: emplacement_array promised that the storage
 pointer of an empty array is not null

---
 include/muu/emplacement_array.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/muu/emplacement_array.h b/include/muu/emplacement_array.h
index 287ec81..4adcb5c 100644
--- a/include/muu/emplacement_array.h
+++ b/include/muu/emplacement_array.h
@@ -36,14 +36,12 @@ namespace muu
 		std::byte* storage_ = nullptr;
 
 		MUU_PURE_INLINE_GETTER
-		MUU_ATTR(returns_nonnull)
 		T* ptr(size_t index) noexcept
 		{
 			return MUU_LAUNDER(reinterpret_cast<T*>(storage_ + index * sizeof(T)));
 		}
 
 		MUU_PURE_INLINE_GETTER
-		MUU_ATTR(returns_nonnull)
 		const T* ptr(size_t index) const noexcept
 		{
 			return MUU_LAUNDER(reinterpret_cast<const T*>(storage_ + index * sizeof(T)));
-- 
2.43.0


From d0744708c214112cbb9c8d37e4705fb74fa0bb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:17 +0000
Subject: [PATCH 39/45] fix: thread_pool::wait() could return before the last
 task had been destroyed

---
 src/thread_pool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 87f56fc..43684ae 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -365,8 +365,8 @@ namespace
 									 if (t)
 									 {
 										 (*t)(worker_index);
-										 monitor->decrement();
 										 t->~task();
+										 monitor->decrement();
 									 }
 								 }
 							 } };
-- 
2.43.0


From 62f2350c1f8a08fd38dd34df2ee0c8e06a6bc582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:17 +0000
Subject: [PATCH 40/45] fix: thread_pool constructor hung when a worker thread
 could not be started

---
 src/thread_pool.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 43684ae..892e031 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -476,7 +476,10 @@ namespace
 			auto unwind_workers			 = scope_guard{ [&]() noexcept
 												{
 												   for (size_t i = constructed_workers; i-- > 0_sz;)
+												   {
+													   worker(i).terminate();
 													   worker(i).~thread_pool_worker();
+												   }
 											   } };
 			for (size_t i = 0; i < worker_count; i++)
 			{
-- 
2.43.0


From cc3c2988551f6f3f959834327e4591bfda8051f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:18 +0000
Subject: [PATCH 41/45] fix: move-assigning to a thread_pool leaked its threads
 and memory

---
 include/muu/thread_pool.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/muu/thread_pool.h b/include/muu/thread_pool.h
index 13c9788..22c0785 100644
--- a/include/muu/thread_pool.h
+++ b/include/muu/thread_pool.h
@@ -754,7 +754,11 @@ namespace muu
 		/// \brief	Move-assignment operator.
 		thread_pool& operator=(thread_pool&& rhs) noexcept
 		{
-			storage_ = std::exchange(rhs.storage_, nullptr);
+			if (this != &rhs)
+			{
+				if (auto storage = std::exchange(storage_, std::exchange(rhs.storage_, nullptr)))
+					::muu_impl_thread_pool_destroy(storage);
+			}
 			return *this;
 		}
 
-- 
2.43.0


From 43ac68d0b64019596909a134ff5bc747ee627527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:02 +0000
Subject: [PATCH 42/45] fix: thread_pool::for_each() over 8-bit and 16-bit
 integers did not compile

---
 include/muu/thread_pool.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/muu/thread_pool.h b/include/muu/thread_pool.h
index 22c0785..187a8f7 100644
--- a/include/muu/thread_pool.h
+++ b/include/muu/thread_pool.h
@@ -927,8 +927,8 @@ namespace muu
 			if (start > end)
 			{
 				T temp = end;
-				end	   = T{ static_cast<remove_enum<T>>(start) + remove_enum<T>{ 1 } };
-				start  = T{ static_cast<remove_enum<T>>(temp) + remove_enum<T>{ 1 } };
+				end	   = static_cast<T>(static_cast<remove_enum<T>>(start) + remove_enum<T>{ 1 });
+				start  = static_cast<T>(static_cast<remove_enum<T>>(temp) + remove_enum<T>{ 1 });
 			}
 
 			// determine batch count and distribute indices
-- 
2.43.0


From 427d3229852f3df6f61f1d8d6e494d9013ee8222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:52 +0000
Subject: [PATCH 43/45] fix: a span of N elements converted to a span of a
 different fixed number of elements

---
 include/muu/span.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/span.h b/include/muu/span.h
index 6ef8a28..32a94ee 100644
--- a/include/muu/span.h
+++ b/include/muu/span.h
@@ -283,7 +283,7 @@ namespace muu::impl
 		{}
 
 		// `explicit` when #extent != #dynamic_extent && E == #dynamic_extent.
-		MUU_CONSTRAINED_TEMPLATE((E != dynamic_extent									   //
+		MUU_CONSTRAINED_TEMPLATE((E == Extent_											   //
 								  && impl::is_qualifier_conversion_only<U, element_type>), //
 								 typename U,
 								 size_t E,
-- 
2.43.0


From be1d5bcc7bc80926dbec6dfc22d62445bf5ed0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:52 +0000
Subject: [PATCH 44/45] fix: integral_range::size() overflowed for signed
 ranges longer than half the type

---
 include/muu/integral_range.h | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/include/muu/integral_range.h b/include/muu/integral_range.h
index 48755b7..3c8d364 100644
--- a/include/muu/integral_range.h
+++ b/include/muu/integral_range.h
@@ -226,12 +226,6 @@ namespace muu
 		{
 			if constexpr (std::is_pointer_v<value_type>)
 				return static_cast<size_type>(e - s);
-			else if constexpr (muu::is_signed<value_type>)
-			{
-				using difference_type = impl::integral_range_difference_type<T>;
-
-				return static_cast<size_type>(static_cast<difference_type>(e) - static_cast<difference_type>(s));
-			}
 			else
 				return static_cast<size_type>(e) - static_cast<size_type>(s);
 		}
-- 
2.43.0


From 45410ee5867d501a6acbd3d5704fccdd316b28d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:52 +0000
Subject: [PATCH 45/45] fix: integral_range iterators of pointers could not be
 subtracted; unsigned ones overflowed

---
 include/muu/integral_range.h | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/muu/integral_range.h b/include/muu/integral_range.h
index 3c8d364..c12c243 100644
--- a/include/muu/integral_range.h
+++ b/include/muu/integral_range.h
@@ -143,14 +143,13 @@ namespace muu
 			friend constexpr difference_type operator-(const integral_range_iterator& lhs,
 													   const integral_range_iterator& rhs) noexcept
 			{
-				if constexpr (muu::is_unsigned<T>)
-				{
-					if (rhs.val_ > lhs.val_)
-						return -static_cast<difference_type>(static_cast<size_type>(rhs.val_)
-															 - static_cast<size_type>(lhs.val_));
-				}
-
-				return static_cast<difference_type>(lhs.val_) - static_cast<difference_type>(rhs.val_);
+				if constexpr (std::is_pointer_v<T>)
+					return static_cast<difference_type>(lhs.val_ - rhs.val_);
+				else if constexpr (muu::is_unsigned<T>)
+					return static_cast<difference_type>(static_cast<size_type>(lhs.val_)
+														- static_cast<size_type>(rhs.val_));
+				else
+					return static_cast<difference_type>(lhs.val_) - static_cast<difference_type>(rhs.val_);
 			}
 		};
 	}
-- 
2.43.0

