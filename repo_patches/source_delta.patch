From 3204303f330cf5c2b681c317cfaed203dd45e148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:57 +0000
Subject: [PATCH 01/12] fix: assigning a swizzle from the same swizzle of
 another vector overwrote the other components

---
 include/dsga.hxx | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 940621c..e2d424a 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -2876,6 +2876,19 @@ namespace dsga
 		using reverse_iterator = std::reverse_iterator<indexed_vector_iterator<M, T, Size, Count, Is...>>;
 		using const_reverse_iterator = std::reverse_iterator<indexed_vector_const_iterator<M, T, Size, Count, Is...>>;
 
+		// assignment from the same type of swizzle - better match for a non-const lvalue than the implicit copy assignment,
+		// which has to be trivial for basic_vector to be trivially copyable, so it copies all of the underlying storage
+		template <typename V>
+		requires std::same_as<V, indexed_vector> && Writable && Mutable
+		constexpr indexed_vector &operator =(V &other) & noexcept
+		{
+			return *this = other.as_base();
+		}
+
+		template <typename V>
+		requires std::same_as<V, indexed_vector> && (!Writable || !Mutable)
+		constexpr indexed_vector &operator =(V &other) & noexcept = delete;
+
 		// copy assignment
 		template <bool W, dimensional_scalar U, typename D>
 		requires Writable && Mutable && implicitly_convertible_to<U, T>
-- 
2.43.0


From 23a6d86a33e187b28a39576fc9a0e050c19bedd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:08 +0000
Subject: [PATCH 02/12] fix: swizzle iterators could not be moved to the end
 position with +=, -=, + or -

---
 include/dsga.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index e2d424a..325afa9 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -2403,7 +2403,7 @@ namespace dsga
 
 		constexpr indexed_vector_const_iterator &operator +=(const int offset) noexcept
 		{
-			dsga_constexpr_assert(((mapper_index + offset) >= begin_index) && ((mapper_index + offset) < end_index), "offset not in range");
+			dsga_constexpr_assert(((mapper_index + offset) >= begin_index) && ((mapper_index + offset) <= end_index), "offset not in range");
 
 			mapper_index += offset;
 			return *this;
@@ -2411,7 +2411,7 @@ namespace dsga
 
 		constexpr indexed_vector_const_iterator &operator -=(const int offset) noexcept
 		{
-			dsga_constexpr_assert(((mapper_index - offset) >= begin_index) && ((mapper_index - offset) < end_index), "offset not in range");
+			dsga_constexpr_assert(((mapper_index - offset) >= begin_index) && ((mapper_index - offset) <= end_index), "offset not in range");
 
 			mapper_index -= offset;
 			return *this;
@@ -2665,7 +2665,7 @@ namespace dsga
 
 		constexpr indexed_view_const_iterator &operator +=(const int offset) noexcept
 		{
-			dsga_constexpr_assert(((mapper_index + offset) >= begin_index) && ((mapper_index + offset) < end_index), "offset not in range");
+			dsga_constexpr_assert(((mapper_index + offset) >= begin_index) && ((mapper_index + offset) <= end_index), "offset not in range");
 
 			mapper_index += offset;
 			return *this;
@@ -2673,7 +2673,7 @@ namespace dsga
 
 		constexpr indexed_view_const_iterator &operator -=(const int offset) noexcept
 		{
-			dsga_constexpr_assert(((mapper_index - offset) >= begin_index) && ((mapper_index - offset) < end_index), "offset not in range");
+			dsga_constexpr_assert(((mapper_index - offset) >= begin_index) && ((mapper_index - offset) <= end_index), "offset not in range");
 
 			mapper_index -= offset;
 			return *this;
-- 
2.43.0


From 890761a15fdd3c4443420749bf463e56139e92f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:54 +0000
Subject: [PATCH 03/12] fix: view_vector assignment from an overlapping vector
 copied values already overwritten

---
 include/dsga.hxx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 325afa9..192655d 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -5889,7 +5889,10 @@ namespace dsga
 		requires Writable && Mutable && implicitly_convertible_to<U, T>
 		constexpr view_vector & operator =(const vector_base<W, U, Count, D> &other) & noexcept
 		{
-			std::copy(other.begin(), other.end(), store);
+			[&]<std::size_t ...Is>(std::index_sequence<Is...>) noexcept
+			{
+				this->set(other[Is]...);
+			}(std::make_index_sequence<Size>{});
 			return *this;
 		}
 
@@ -5897,7 +5900,10 @@ namespace dsga
 		requires Writable && Mutable && implicitly_convertible_to<U, T>
 		constexpr view_vector & operator =(vector_base<W, U, Count, D> &&other) & noexcept
 		{
-			std::copy(other.begin(), other.end(), store);
+			[&]<std::size_t ...Is>(std::index_sequence<Is...>) noexcept
+			{
+				this->set(other[Is]...);
+			}(std::make_index_sequence<Size>{});
 			return *this;
 		}
 	};
-- 
2.43.0


From fb5ef660dc5e74322d88f7a3a4827fa7db2a0069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:27 +0000
Subject: [PATCH 04/12] fix: ordering relations compared 64-bit integers as
 double

---
 include/dsga.hxx | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 192655d..51365b8 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -7033,7 +7033,10 @@ namespace dsga
 
 		constexpr inline auto less_op = []<non_bool_scalar T>(T x, T y) noexcept -> bool
 		{
-			return std::isless(x, y);
+			if constexpr (std::integral<T>)
+				return x < y;
+			else
+				return std::isless(x, y);
 		};
 
 		template <bool W1, non_bool_scalar T, std::size_t C, typename D1, bool W2, typename D2>
@@ -7052,7 +7055,10 @@ namespace dsga
 
 		constexpr inline auto less_equal_op = []<non_bool_scalar T>(T x, T y) noexcept -> bool
 		{
-			return std::islessequal(x, y);
+			if constexpr (std::integral<T>)
+				return x <= y;
+			else
+				return std::islessequal(x, y);
 		};
 
 		template <bool W1, non_bool_scalar T, std::size_t C, typename D1, bool W2, typename D2>
@@ -7071,7 +7077,10 @@ namespace dsga
 
 		constexpr inline auto greater_op = []<non_bool_scalar T>(T x, T y) noexcept -> bool
 		{
-			return std::isgreater(x, y);
+			if constexpr (std::integral<T>)
+				return x > y;
+			else
+				return std::isgreater(x, y);
 		};
 
 		template <bool W1, non_bool_scalar T, std::size_t C, typename D1, bool W2, typename D2>
@@ -7090,7 +7099,10 @@ namespace dsga
 
 		constexpr inline auto greater_equal_op = []<non_bool_scalar T>(T x, T y) noexcept -> bool
 		{
-			return std::isgreaterequal(x, y);
+			if constexpr (std::integral<T>)
+				return x >= y;
+			else
+				return std::isgreaterequal(x, y);
 		};
 
 		template <bool W1, non_bool_scalar T, std::size_t C, typename D1, bool W2, typename D2>
-- 
2.43.0


From dbbf3c3cf0494a3a61969b3e7e5b170783dc6f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:22 +0000
Subject: [PATCH 05/12] fix: constexpr round and roundEven rounded the largest
 value below one half up to 1

---
 include/dsga.hxx | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 51365b8..88b4630 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -602,14 +602,20 @@ namespace dsga
 			template <std::floating_point T>
 			constexpr T round(T value) noexcept
 			{
-				// zero could be handled either place, but here it is with the negative values.
+				const T truncated_value = trunc(value);
+
+				// this difference is exact, while (value + T(0.5f)) could have rounded up to the next integer
+				const T fraction = value - truncated_value;
 
 				// positive value, taking care of halfway case.
-				if (value > T(0))
-					return trunc(value + T(0.5f));
+				if (fraction >= T(0.5f))
+					return (truncated_value + T(1.0f));
+
+				// negative value, taking care of halfway case.
+				if (fraction <= T(-0.5f))
+					return (truncated_value - T(1.0f));
 
-				// negative or zero value, taking care of halfway case.
-				return trunc(value - T(0.5f));
+				return truncated_value;
 			}
 
 			//
@@ -653,14 +659,7 @@ namespace dsga
 				if (is_halfway && is_even)
 					return trunc_value;
 
-				// zero could be handled either place, but here it is with the negative values.
-
-				// positive value, taking care of halfway case.
-				if (value > T(0))
-					return trunc(value + T(0.5f));
-
-				// negative or zero value, taking care of halfway case.
-				return trunc(value - T(0.5f));
+				return round(value);
 			}
 
 			//
-- 
2.43.0


From 555ade24be3c9e3b28ead964745f39af7a71eedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:22 +0000
Subject: [PATCH 06/12] fix: fract of a large finite value returned the value
 instead of 0

---
 include/dsga.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 88b4630..ab469ea 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -1041,6 +1041,10 @@ namespace dsga
 				template <std::floating_point T>
 				constexpr T constexpr_fract(T value) noexcept
 				{
+					// a finite value that can't have a fractional part
+					if (isfinite(value) && (relaxed::abs(value) > limits::largest_fractional_value<T>))
+						return T(0);
+
 					// screen out unnecessary input
 					if (fails_fractional_input_constraints(value))
 						return value;
-- 
2.43.0


From d58d8f9f8693a31cc545ad7778c5ae4ea935c59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:45 +0000
Subject: [PATCH 07/12] fix: abs and fabs of negative infinity and negative
 zero kept the sign

---
 include/dsga.hxx | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index ab469ea..647467c 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -1297,9 +1297,13 @@ namespace dsga
 			template <std::floating_point T>
 			constexpr T abs(T value) noexcept
 			{
-				if (!detail::isnormal_or_subnormal(value))
+				if (isnan(value))
 					return value;
 
+				// the relaxed version doesn't clear the sign of zero
+				if (value == T(0))
+					return T(0);
+
 				return relaxed::abs(value);
 			}
 
@@ -1316,9 +1320,13 @@ namespace dsga
 			template <std::floating_point T>
 			constexpr T fabs(T value) noexcept
 			{
-				if (!detail::isnormal_or_subnormal(value))
+				if (isnan(value))
 					return value;
 
+				// the relaxed version doesn't clear the sign of zero
+				if (value == T(0))
+					return T(0);
+
 				return relaxed::fabs(value);
 			}
 
-- 
2.43.0


From 162bbdda34aef08e4b4fc99731dfe367090a2404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:45 +0000
Subject: [PATCH 08/12] fix: cxcm::abs and fabs asserted on an unsigned zero

---
 include/dsga.hxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 647467c..73216ce 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -1312,7 +1312,8 @@ namespace dsga
 			template <std::integral T>
 			constexpr T abs(T value) noexcept
 			{
-				cxcm_constexpr_assert(value != std::numeric_limits<T>::min(), "undefined behavior in abs()");
+				if constexpr (std::signed_integral<T>)
+					cxcm_constexpr_assert(value != std::numeric_limits<T>::min(), "undefined behavior in abs()");
 
 				return relaxed::abs(value);
 			}
@@ -1333,7 +1334,8 @@ namespace dsga
 			template <std::integral T>
 			constexpr double fabs(T value) noexcept
 			{
-				cxcm_constexpr_assert(value != std::numeric_limits<T>::min(), "undefined behavior in fabs()");
+				if constexpr (std::signed_integral<T>)
+					cxcm_constexpr_assert(value != std::numeric_limits<T>::min(), "undefined behavior in fabs()");
 
 				return relaxed::fabs(value);
 			}
-- 
2.43.0


From 59e8dfcfc9b99cba45fa7477cbfc319f75b7ad0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:14 +0000
Subject: [PATCH 09/12] fix: constant-evaluated fmod lost precision and failed
 for quotients outside long long

---
 include/dsga.hxx | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 73216ce..b40cd60 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -1073,7 +1073,28 @@ namespace dsga
 					if (y == 0)
 						return std::numeric_limits<T>::quiet_NaN();
 
-					return relaxed::fmod(x, y);
+					// relaxed::fmod() rounds the quotient, and can't handle a quotient too big for a long long.
+					// every operation here is exact: subtract y scaled by decreasing powers of 2.
+
+					const T divisor = relaxed::abs(y);
+					T remainder = relaxed::abs(x);
+					T scaled = divisor;
+
+					while (scaled <= remainder - scaled)
+						scaled += scaled;
+
+					while (true)
+					{
+						if (scaled <= remainder)
+							remainder -= scaled;
+
+						if (scaled == divisor)
+							break;
+
+						scaled *= T(0.5f);
+					}
+
+					return (x < T(0)) ? -remainder : remainder;
 				}
 
 				//
-- 
2.43.0


From bd99065a4a5340c407c90008ccaad133e66c1135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:11 +0000
Subject: [PATCH 10/12] fix: modf of a vector stored over its own argument
 returned zeros

---
 include/dsga.hxx | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index b40cd60..cb8fd15 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -7827,12 +7827,13 @@ namespace dsga
 		[[nodiscard]] constexpr auto modf(const vector_base<W1, T, C, D1> &arg,
 										  vector_base<W2, T, C, D2> &i) noexcept
 		{
-			if constexpr (C == 1)
-				i.as_derived() = basic_vector<T, 1>(trunc(arg));
-			else
-				i.as_derived() = trunc(arg);
+			// i might share storage with arg, so we have to be done with arg before setting i
+			const basic_vector<T, C> whole(trunc(arg));
+			const auto fraction = machinery::apply_unitype_make(arg, whole, modf_op);
+
+			i.as_derived() = whole;
 
-			return machinery::apply_unitype_make(arg, i, modf_op);
+			return fraction;
 		}
 
 		template <floating_point_scalar T>
-- 
2.43.0


From de7a57da687d329148c986e6e408405fada38c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:51 +0000
Subject: [PATCH 11/12] fix: free swap of view_wrappers terminated on
 overlapping views instead of throwing

---
 include/dsga.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index cb8fd15..d388afd 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -2071,7 +2071,7 @@ namespace dsga
 
 	template <bool Mutable, dimensional_scalar T, std::size_t S>
 	requires Mutable
-	constexpr void swap(view_wrapper<Mutable, T, S> &lhs, view_wrapper<Mutable, T, S> &rhs) noexcept
+	constexpr void swap(view_wrapper<Mutable, T, S> &lhs, view_wrapper<Mutable, T, S> &rhs)
 	{
 		lhs.swap(rhs);
 	}
-- 
2.43.0


From 2fc76aef9752e967f38b87c6979d5f0cc47362a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:35 +0000
Subject: [PATCH 12/12] fix: shift by INT_MIN negated the count, which
 overflows

---
 include/dsga.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index d388afd..95e17a7 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -2242,7 +2242,7 @@ namespace dsga
 			}
 			else if (by < 0)
 			{
-				int count = -by > max_val ? max_val : -by;
+				int count = by < -max_val ? max_val : -by;
 				std::shift_right(copy.begin(), copy.end(), count);
 				std::ranges::fill_n(copy.begin(), count, T(0));
 			}
-- 
2.43.0

