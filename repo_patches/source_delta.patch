From bc41872635bd0b2959b6139b7b51258bed79646c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:20 +0000
Subject: [PATCH 001/218] fix: one_of/one_of_equal on random access ranges must
 not ignore several matches in the left half

---
 sprout/algorithm/one_of.hpp       | 10 +++++++---
 sprout/algorithm/one_of_equal.hpp | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/sprout/algorithm/one_of.hpp b/sprout/algorithm/one_of.hpp
index f524e7f..f237104 100644
--- a/sprout/algorithm/one_of.hpp
+++ b/sprout/algorithm/one_of.hpp
@@ -51,10 +51,14 @@ namespace sprout {
 						sprout::next(first, pivot), last, pred,
 						(sprout::distance(first, last) - pivot) / 2
 						)
-					: sprout::detail::one_of_impl_ra(
-						sprout::next(first, pivot), last, pred,
-						(sprout::distance(first, last) - pivot) / 2
+					: sprout::detail::one_of_impl_ra_1(
+						first, sprout::next(first, pivot), pred,
+						pivot / 2
 						)
+						&& sprout::detail::one_of_impl_ra(
+							sprout::next(first, pivot), last, pred,
+							(sprout::distance(first, last) - pivot) / 2
+							)
 				;
 		}
 		template<typename RandomAccessIterator, typename Predicate>
diff --git a/sprout/algorithm/one_of_equal.hpp b/sprout/algorithm/one_of_equal.hpp
index 35e9e67..7e04e85 100644
--- a/sprout/algorithm/one_of_equal.hpp
+++ b/sprout/algorithm/one_of_equal.hpp
@@ -51,10 +51,14 @@ namespace sprout {
 						sprout::next(first, pivot), last, value,
 						(sprout::distance(first, last) - pivot) / 2
 						)
-					: sprout::detail::one_of_equal_impl_ra(
-						sprout::next(first, pivot), last, value,
-						(sprout::distance(first, last) - pivot) / 2
+					: sprout::detail::one_of_equal_impl_ra_1(
+						first, sprout::next(first, pivot), value,
+						pivot / 2
 						)
+						&& sprout::detail::one_of_equal_impl_ra(
+							sprout::next(first, pivot), last, value,
+							(sprout::distance(first, last) - pivot) / 2
+							)
 				;
 		}
 		template<typename RandomAccessIterator, typename T>
-- 
2.43.0


From d55fc8628e2f58f70ee30751b9c918cf1734f181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:20 +0000
Subject: [PATCH 002/218] fix: search_n for zero occurrences finds the
 beginning of the range

---
 sprout/algorithm/search_n.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/search_n.hpp b/sprout/algorithm/search_n.hpp
index 0f931db..5edfe9a 100644
--- a/sprout/algorithm/search_n.hpp
+++ b/sprout/algorithm/search_n.hpp
@@ -129,7 +129,7 @@ namespace sprout {
 	inline SPROUT_CONSTEXPR ForwardIterator
 	search_n(ForwardIterator first, ForwardIterator last, Size count, T const& value, BinaryPredicate pred) {
 		typedef typename std::iterator_traits<ForwardIterator>::iterator_category* category;
-		return count == 0 ? last : count == 1 ? sprout::find_if(first, last, sprout::bind2nd(pred, value))
+		return count == 0 ? first : count == 1 ? sprout::find_if(first, last, sprout::bind2nd(pred, value))
 			: sprout::detail::search_n(first, last, count, value, pred, category());
 	}
 
@@ -137,7 +137,7 @@ namespace sprout {
 	inline SPROUT_CONSTEXPR ForwardIterator
 	search_n(ForwardIterator first, ForwardIterator last, Size count, T const& value) {
 		typedef typename std::iterator_traits<ForwardIterator>::iterator_category* category;
-		return count == 0 ? last : count == 1 ? sprout::find(first, last, value)
+		return count == 0 ? first : count == 1 ? sprout::find(first, last, value)
 			: sprout::detail::search_n(first, last, count, value, sprout::equal_to<>(), category());
 	}
 }	// namespace sprout
-- 
2.43.0


From eb3ef431bbf7508e1729677dec7ab471c8cc90d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:48 +0000
Subject: [PATCH 003/218] fix: in-place stable_sort and partial_sort_copy can
 be instantiated

---
 sprout/algorithm/cxx14/detail/insertion_sort.hpp | 2 +-
 sprout/algorithm/cxx14/partial_sort_copy.hpp     | 2 +-
 sprout/algorithm/cxx14/stable_sort.hpp           | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/algorithm/cxx14/detail/insertion_sort.hpp b/sprout/algorithm/cxx14/detail/insertion_sort.hpp
index f23484d..857949a 100644
--- a/sprout/algorithm/cxx14/detail/insertion_sort.hpp
+++ b/sprout/algorithm/cxx14/detail/insertion_sort.hpp
@@ -32,7 +32,7 @@ namespace sprout {
 
 		template<typename RandomAccessIterator, typename Compare>
 		inline SPROUT_CXX14_CONSTEXPR void
-		insertion_sort(RandomAccessIterator first, RandomAccessIterator last, Compare comp) {
+		linear_insertion_sort(RandomAccessIterator first, RandomAccessIterator last, Compare comp) {
 			typedef typename std::iterator_traits<RandomAccessIterator>::value_type value_type;
 			if (first == last) {
 				return;
diff --git a/sprout/algorithm/cxx14/partial_sort_copy.hpp b/sprout/algorithm/cxx14/partial_sort_copy.hpp
index c42416a..93b4a4e 100644
--- a/sprout/algorithm/cxx14/partial_sort_copy.hpp
+++ b/sprout/algorithm/cxx14/partial_sort_copy.hpp
@@ -18,7 +18,7 @@
 
 namespace sprout {
 	namespace detail {
-		template<typename InputIterator, typename RandomAccessIterator, typename Compare>
+		template<typename Compare, typename InputIterator, typename RandomAccessIterator>
 		inline SPROUT_CXX14_CONSTEXPR RandomAccessIterator
 		partial_sort_copy(InputIterator first, InputIterator last, RandomAccessIterator result_first, RandomAccessIterator result_last, Compare comp) {
 			typedef typename std::iterator_traits<RandomAccessIterator>::difference_type difference_type;
diff --git a/sprout/algorithm/cxx14/stable_sort.hpp b/sprout/algorithm/cxx14/stable_sort.hpp
index 293564a..8139803 100644
--- a/sprout/algorithm/cxx14/stable_sort.hpp
+++ b/sprout/algorithm/cxx14/stable_sort.hpp
@@ -19,7 +19,7 @@ namespace sprout {
 		inline SPROUT_CXX14_CONSTEXPR void
 		inplace_stable_sort(RandomAccessIterator first, RandomAccessIterator last, Compare comp) {
 			if (last - first < 15) {
-				sprout::detail::insertion_sort(first, last, comp);
+				sprout::detail::linear_insertion_sort(first, last, comp);
 				return;
 			}
 			RandomAccessIterator middle = first + (last - first) / 2;
-- 
2.43.0


From 146fdb4fab82de1bb39d23c1cc629937e3d942a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:38 +0000
Subject: [PATCH 004/218] fix: move_backward reads from the end of the source

---
 sprout/algorithm/cxx14/move_backward.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/move_backward.hpp b/sprout/algorithm/cxx14/move_backward.hpp
index 608adc4..86788b7 100644
--- a/sprout/algorithm/cxx14/move_backward.hpp
+++ b/sprout/algorithm/cxx14/move_backward.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 	inline SPROUT_CXX14_CONSTEXPR BidirectionalIterator2
 	move_backward(BidirectionalIterator1 first, BidirectionalIterator1 last, BidirectionalIterator2 result) {
 		while (first != last) {
-			*--result = sprout::move(*--first);
+			*--result = sprout::move(*--last);
 		}
 		return result;
 	}
-- 
2.43.0


From 2743fe0e025fcb7a59227cc39280079281ae1066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:38 +0000
Subject: [PATCH 005/218] fix: in-place make_heap sifts up every element

---
 sprout/algorithm/cxx14/make_heap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/make_heap.hpp b/sprout/algorithm/cxx14/make_heap.hpp
index 497bdbd..99a22a7 100644
--- a/sprout/algorithm/cxx14/make_heap.hpp
+++ b/sprout/algorithm/cxx14/make_heap.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 			if (len > 1) {
 				last = first;
 				++last;
-				for (difference_type i = 1; i < len; ++i) {
+				for (difference_type i = 2; i <= len; ++i) {
 					sprout::detail::push_heap_back<Compare>(first, ++last, comp, i);
 				}
 			}
-- 
2.43.0


From cfc97ebff2b7692b416decca5e3c0fb610179057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:38 +0000
Subject: [PATCH 006/218] fix: functional stable_sort of an empty window

---
 sprout/algorithm/fixed/stable_sort.hpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/sprout/algorithm/fixed/stable_sort.hpp b/sprout/algorithm/fixed/stable_sort.hpp
index 218f266..d87a19a 100644
--- a/sprout/algorithm/fixed/stable_sort.hpp
+++ b/sprout/algorithm/fixed/stable_sort.hpp
@@ -179,15 +179,18 @@ namespace sprout {
 				typename sprout::container_traits<Container>::size_type size
 				)
 			{
-				return sprout::fixed::detail::stable_sort_impl_1(
-					cont, comp,
-					size,
-					sprout::next(sprout::begin(cont)),
-					sprout::end(cont),
-					*sprout::begin(cont),
-					1,
-					sprout::begin(cont)
-					);
+				return size > 1
+					? sprout::fixed::detail::stable_sort_impl_1(
+						cont, comp,
+						size,
+						sprout::next(sprout::begin(cont)),
+						sprout::end(cont),
+						*sprout::begin(cont),
+						1,
+						sprout::begin(cont)
+						)
+					: sprout::detail::container_complate(cont)
+					;
 			}
 			template<typename Container, typename Compare>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
-- 
2.43.0


From 3927dc6a6c3973f56b96f5aeb04b018a6d981789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:46 +0000
Subject: [PATCH 007/218] fix: functional nth_element with nth at the end
 changes nothing

---
 sprout/algorithm/fixed/nth_element.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/sprout/algorithm/fixed/nth_element.hpp b/sprout/algorithm/fixed/nth_element.hpp
index 71df726..055a038 100644
--- a/sprout/algorithm/fixed/nth_element.hpp
+++ b/sprout/algorithm/fixed/nth_element.hpp
@@ -43,11 +43,14 @@ namespace sprout {
 				typename sprout::container_traits<Container>::difference_type nth_size
 				)
 			{
-				return sprout::fixed::detail::nth_element_impl_1(
-					sprout::fixed::detail::make_partial_heap_impl(cont, comp, offset, size, nth_size + 1),
-					offset,
-					nth_size
-					);
+				return nth_size < size
+					? sprout::fixed::detail::nth_element_impl_1(
+						sprout::fixed::detail::make_partial_heap_impl(cont, comp, offset, size, nth_size + 1),
+						offset,
+						nth_size
+						)
+					: sprout::deep_copy(cont)
+					;
 			}
 		}	// namespace detail
 		//
-- 
2.43.0


From c8439e9bba8c202c0927c41239430f8eb2396c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:46 +0000
Subject: [PATCH 008/218] fix: is_heap_until accepts equivalent parent and
 child

---
 sprout/algorithm/is_heap_until.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/is_heap_until.hpp b/sprout/algorithm/is_heap_until.hpp
index cdaaf10..af9119f 100644
--- a/sprout/algorithm/is_heap_until.hpp
+++ b/sprout/algorithm/is_heap_until.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 			)
 		{
 			return found != first ? found
-				: pivot == 0 ? (!comp(it[first], it[(first - 1) / 2]) ? first : last)
+				: pivot == 0 ? (comp(it[(first - 1) / 2], it[first]) ? first : last)
 				: sprout::detail::is_heap_until_impl(
 					it, comp, first + pivot, last,
 					((last - first) - pivot) / 2,
-- 
2.43.0


From b6434d67b6ce16e794c179ae6e45c63b220e5345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:28 +0000
Subject: [PATCH 009/218] fix: range::fit::merge, set operations and transform
 return the fit result

---
 sprout/range/algorithm/fit/merge.hpp                    | 4 ++--
 sprout/range/algorithm/fit/set_difference.hpp           | 4 ++--
 sprout/range/algorithm/fit/set_intersection.hpp         | 4 ++--
 sprout/range/algorithm/fit/set_symmetric_difference.hpp | 4 ++--
 sprout/range/algorithm/fit/set_union.hpp                | 4 ++--
 sprout/range/algorithm/fit/transform.hpp                | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/sprout/range/algorithm/fit/merge.hpp b/sprout/range/algorithm/fit/merge.hpp
index 96d9e88..e3b7898 100644
--- a/sprout/range/algorithm/fit/merge.hpp
+++ b/sprout/range/algorithm/fit/merge.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// merge
 			//
 			template<typename InputRange1, typename InputRange2, typename Result, typename Compare>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			merge(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, Compare comp) {
 				return sprout::fit::merge(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result, comp);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			merge(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result) {
 				return sprout::fit::merge(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result);
 			}
diff --git a/sprout/range/algorithm/fit/set_difference.hpp b/sprout/range/algorithm/fit/set_difference.hpp
index a1e126e..0187c00 100644
--- a/sprout/range/algorithm/fit/set_difference.hpp
+++ b/sprout/range/algorithm/fit/set_difference.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// set_difference
 			//
 			template<typename InputRange1, typename InputRange2, typename Result, typename Compare>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_difference(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, Compare comp) {
 				return sprout::fit::set_difference(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result, comp);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_difference(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result) {
 				return sprout::fit::set_difference(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result);
 			}
diff --git a/sprout/range/algorithm/fit/set_intersection.hpp b/sprout/range/algorithm/fit/set_intersection.hpp
index 82f4766..dd1e5f3 100644
--- a/sprout/range/algorithm/fit/set_intersection.hpp
+++ b/sprout/range/algorithm/fit/set_intersection.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// set_intersection
 			//
 			template<typename InputRange1, typename InputRange2, typename Result, typename Compare>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_intersection(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, Compare comp) {
 				return sprout::fit::set_intersection(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result, comp);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_intersection(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result) {
 				return sprout::fit::set_intersection(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result);
 			}
diff --git a/sprout/range/algorithm/fit/set_symmetric_difference.hpp b/sprout/range/algorithm/fit/set_symmetric_difference.hpp
index 18073af..ae47a90 100644
--- a/sprout/range/algorithm/fit/set_symmetric_difference.hpp
+++ b/sprout/range/algorithm/fit/set_symmetric_difference.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// set_symmetric_difference
 			//
 			template<typename InputRange1, typename InputRange2, typename Result, typename Compare>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_symmetric_difference(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, Compare comp) {
 				return sprout::fit::set_symmetric_difference(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result, comp);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_symmetric_difference(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result) {
 				return sprout::fit::set_symmetric_difference(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result);
 			}
diff --git a/sprout/range/algorithm/fit/set_union.hpp b/sprout/range/algorithm/fit/set_union.hpp
index 14b1576..f005698 100644
--- a/sprout/range/algorithm/fit/set_union.hpp
+++ b/sprout/range/algorithm/fit/set_union.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// set_union
 			//
 			template<typename InputRange1, typename InputRange2, typename Result, typename Compare>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_union(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, Compare comp) {
 				return sprout::fit::set_union(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result, comp);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_union(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result) {
 				return sprout::fit::set_union(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result);
 			}
diff --git a/sprout/range/algorithm/fit/transform.hpp b/sprout/range/algorithm/fit/transform.hpp
index 1cd1568..285dca8 100644
--- a/sprout/range/algorithm/fit/transform.hpp
+++ b/sprout/range/algorithm/fit/transform.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// transform
 			//
 			template<typename InputRange, typename Result, typename UnaryOperation>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			transform(InputRange const& rng, Result const& result, UnaryOperation op) {
 				return sprout::fit::transform(sprout::begin(rng), sprout::end(rng), result, op);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result, typename BinaryOperation>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			transform(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, BinaryOperation op) {
 				return sprout::fit::transform(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), result, op);
 			}
-- 
2.43.0


From 052a9c9d86995dcbe92d1c2594b595d3df963e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:06 +0000
Subject: [PATCH 010/218] fix: in-place stable_partition of a right half
 starting with satisfying elements

---
 sprout/algorithm/cxx14/stable_partition.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/stable_partition.hpp b/sprout/algorithm/cxx14/stable_partition.hpp
index 624e75e..3e37e44 100644
--- a/sprout/algorithm/cxx14/stable_partition.hpp
+++ b/sprout/algorithm/cxx14/stable_partition.hpp
@@ -28,8 +28,9 @@ namespace sprout {
 			BidirectionalIterator left_split = sprout::detail::inplace_stable_partition(first, pred, len / 2);
 			Distance right_len = len - len / 2;
 			BidirectionalIterator right_split = sprout::find_if_not(middle, sprout::next(middle, right_len), pred);
+			right_len -= sprout::distance(middle, right_split);
 			if (right_len) {
-				right_split = sprout::detail::inplace_stable_partition(middle, pred, right_len);
+				right_split = sprout::detail::inplace_stable_partition(right_split, pred, right_len);
 			}
 			sprout::rotate(left_split, middle, right_split);
 			sprout::advance(left_split, sprout::distance(middle, right_split));
-- 
2.43.0


From fcb665b8e8ac8f7772722e48b6ad80fd795373b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:06 +0000
Subject: [PATCH 011/218] fix: fit::partition and fit::stable_partition trim to
 the satisfying elements

---
 sprout/algorithm/fit/partition.hpp        | 2 +-
 sprout/algorithm/fit/stable_partition.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/fit/partition.hpp b/sprout/algorithm/fit/partition.hpp
index 895b451..bbe9078 100644
--- a/sprout/algorithm/fit/partition.hpp
+++ b/sprout/algorithm/fit/partition.hpp
@@ -30,7 +30,7 @@ namespace sprout {
 				return sprout::sub_copy(
 					sprout::get_internal(sprout::fixed::partition(cont, pred)),
 					offset,
-					offset + sprout::size(cont) - sprout::count_if(sprout::begin(cont), sprout::end(cont), pred)
+					offset + sprout::count_if(sprout::begin(cont), sprout::end(cont), pred)
 					);
 			}
 		}	// namespace detail
diff --git a/sprout/algorithm/fit/stable_partition.hpp b/sprout/algorithm/fit/stable_partition.hpp
index 728dca9..d4d1f20 100644
--- a/sprout/algorithm/fit/stable_partition.hpp
+++ b/sprout/algorithm/fit/stable_partition.hpp
@@ -30,7 +30,7 @@ namespace sprout {
 				return sprout::sub_copy(
 					sprout::get_internal(sprout::fixed::stable_partition(cont, pred)),
 					offset,
-					offset + sprout::size(cont) - sprout::count_if(sprout::begin(cont), sprout::end(cont), pred)
+					offset + sprout::count_if(sprout::begin(cont), sprout::end(cont), pred)
 					);
 			}
 		}	// namespace detail
-- 
2.43.0


From 19988196a5e1fa05ba1c0cc884fdeb217b0a9830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:55 +0000
Subject: [PATCH 012/218] fix: range partition_copy takes both output iterators

---
 sprout/range/algorithm/cxx14/partition_copy.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sprout/range/algorithm/cxx14/partition_copy.hpp b/sprout/range/algorithm/cxx14/partition_copy.hpp
index 716ac5f..823fdc1 100644
--- a/sprout/range/algorithm/cxx14/partition_copy.hpp
+++ b/sprout/range/algorithm/cxx14/partition_copy.hpp
@@ -20,12 +20,14 @@ namespace sprout {
 		// partition_copy
 		//
 		template<
-			typename InputRange, typename OutputIterator, typename Predicate,
-			typename sprout::enabler_if<sprout::is_iterator_outputable<OutputIterator>::value>::type = sprout::enabler
+			typename InputRange, typename OutputIterator1, typename OutputIterator2, typename Predicate,
+			typename sprout::enabler_if<
+				sprout::is_iterator_outputable<OutputIterator1>::value && sprout::is_iterator_outputable<OutputIterator2>::value
+			>::type = sprout::enabler
 		>
-		inline SPROUT_CXX14_CONSTEXPR OutputIterator
-		partition_copy(InputRange const& rng, OutputIterator result, Predicate pred) {
-			return sprout::partition_copy(sprout::begin(rng), sprout::end(rng), result, pred);
+		inline SPROUT_CXX14_CONSTEXPR sprout::pair<OutputIterator1, OutputIterator2>
+		partition_copy(InputRange const& rng, OutputIterator1 out_true, OutputIterator2 out_false, Predicate pred) {
+			return sprout::partition_copy(sprout::begin(rng), sprout::end(rng), out_true, out_false, pred);
 		}
 	}	// namespace range
 }	// namespace sprout
-- 
2.43.0


From 20e124c6fa3fb5cde90c7a4b53cfa440418cb2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:45 +0000
Subject: [PATCH 013/218] fix: random_swap stays inside the range

---
 sprout/algorithm/cxx14/random_swap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/random_swap.hpp b/sprout/algorithm/cxx14/random_swap.hpp
index 6f3ea74..9674d32 100644
--- a/sprout/algorithm/cxx14/random_swap.hpp
+++ b/sprout/algorithm/cxx14/random_swap.hpp
@@ -25,7 +25,7 @@ namespace sprout {
 		typedef SPROUT_WORKAROUND_DETAIL_UNIFORM_INT_DISTRIBUTION<std::ptrdiff_t> distribution_type;
 		difference_type d = last - first;
 		if (d > 1) {
-			distribution_type dist(0, d);
+			distribution_type dist(0, d - 1);
 			difference_type i = dist(g);
 			difference_type j = dist(g);
 			if (i != j) {
-- 
2.43.0


From 2408d4219b3aadfa0cbc6e8b4fafd68df42eb0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:45 +0000
Subject: [PATCH 014/218] fix: a generator is not a seed sequence

---
 sprout/random/type_traits.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/sprout/random/type_traits.hpp b/sprout/random/type_traits.hpp
index 5fe39c0..7c42e85 100644
--- a/sprout/random/type_traits.hpp
+++ b/sprout/random/type_traits.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_RANDOM_TYPE_TRAITS_HPP
 #define SPROUT_RANDOM_TYPE_TRAITS_HPP
 
+#include <utility>
 #include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/type_traits/integral_constant.hpp>
@@ -15,10 +16,24 @@
 
 namespace sprout {
 	namespace random {
+		namespace detail {
+			SPROUT_HAS_XXX_TYPE_DEF_LAZY(result_type);
+
+			template<typename T, typename = decltype(std::declval<T const&>().min())>
+			sprout::true_type is_generator_test(int);
+			template<typename T>
+			sprout::false_type is_generator_test(long);
+		}	// namespace detail
 		//
 		// is_seed_seq
 		//
-		SPROUT_HAS_XXX_TYPE_DEF(is_seed_seq, result_type);
+		template<typename T>
+		struct is_seed_seq
+			: public sprout::bool_constant<
+				sprout::random::detail::has_result_type<T>::value
+					&& !decltype(sprout::random::detail::is_generator_test<T>(0))::value
+			>
+		{};
 
 		//
 		// is_real_std_random_parameter
-- 
2.43.0


From 142a069e4761663bc8dd0e10b647d3fcf1895f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:47 +0000
Subject: [PATCH 015/218] fix: copy_while/copy_until in-place forms compile and
 range forms return the output iterator

---
 sprout/algorithm/cxx14/copy_until.hpp       | 2 +-
 sprout/algorithm/cxx14/copy_while.hpp       | 2 +-
 sprout/range/algorithm/cxx14/copy_until.hpp | 2 +-
 sprout/range/algorithm/cxx14/copy_while.hpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/algorithm/cxx14/copy_until.hpp b/sprout/algorithm/cxx14/copy_until.hpp
index ffe3dc7..2ec2ad0 100644
--- a/sprout/algorithm/cxx14/copy_until.hpp
+++ b/sprout/algorithm/cxx14/copy_until.hpp
@@ -26,7 +26,7 @@ namespace sprout {
 		for (; first != last && !pred(*first); ++first) {
 			*result++ = *first;
 		}
-		return std::make_pair(first, result);
+		return sprout::pair<InputIterator, OutputIterator>(first, result);
 	}
 }	// namespace sprout
 
diff --git a/sprout/algorithm/cxx14/copy_while.hpp b/sprout/algorithm/cxx14/copy_while.hpp
index ad59c77..05c13d8 100644
--- a/sprout/algorithm/cxx14/copy_while.hpp
+++ b/sprout/algorithm/cxx14/copy_while.hpp
@@ -26,7 +26,7 @@ namespace sprout {
 		for (; first != last && pred(*first); ++first) {
 			*result++ = *first;
 		}
-		return std::make_pair(first, result);
+		return sprout::pair<InputIterator, OutputIterator>(first, result);
 	}
 }	// namespace sprout
 
diff --git a/sprout/range/algorithm/cxx14/copy_until.hpp b/sprout/range/algorithm/cxx14/copy_until.hpp
index 605eeee..fa3b611 100644
--- a/sprout/range/algorithm/cxx14/copy_until.hpp
+++ b/sprout/range/algorithm/cxx14/copy_until.hpp
@@ -25,7 +25,7 @@ namespace sprout {
 		>
 		inline SPROUT_CXX14_CONSTEXPR OutputIterator
 		copy_until(InputRange const& rng, OutputIterator result, Predicate pred) {
-			return sprout::copy_until(sprout::begin(rng), sprout::end(rng), result, pred);
+			return sprout::copy_until(sprout::begin(rng), sprout::end(rng), result, pred).second;
 		}
 	}	// namespace range
 }	// namespace sprout
diff --git a/sprout/range/algorithm/cxx14/copy_while.hpp b/sprout/range/algorithm/cxx14/copy_while.hpp
index f2f6954..e547c8e 100644
--- a/sprout/range/algorithm/cxx14/copy_while.hpp
+++ b/sprout/range/algorithm/cxx14/copy_while.hpp
@@ -25,7 +25,7 @@ namespace sprout {
 		>
 		inline SPROUT_CXX14_CONSTEXPR OutputIterator
 		copy_while(InputRange const& rng, OutputIterator result, Predicate pred) {
-			return sprout::copy_while(sprout::begin(rng), sprout::end(rng), result, pred);
+			return sprout::copy_while(sprout::begin(rng), sprout::end(rng), result, pred).second;
 		}
 	}	// namespace range
 }	// namespace sprout
-- 
2.43.0


From dbed9871c064afcfe27d96c2d0a18ddc82a96960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:47 +0000
Subject: [PATCH 016/218] fix: unique_copy into an empty result writes nothing

---
 sprout/algorithm/fixed/unique_copy.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/fixed/unique_copy.hpp b/sprout/algorithm/fixed/unique_copy.hpp
index 5fd51ac..6f5a3ea 100644
--- a/sprout/algorithm/fixed/unique_copy.hpp
+++ b/sprout/algorithm/fixed/unique_copy.hpp
@@ -66,7 +66,7 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			unique_copy(InputIterator const& first, InputIterator const& last, Result const& result) {
-				return first != last
+				return first != last && sprout::size(result) != 0
 					? sprout::fixed::detail::unique_copy_impl(sprout::next(first), last, result, sprout::size(result), *first)
 					: sprout::detail::container_complate(result)
 					;
@@ -144,7 +144,7 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			unique_copy(InputIterator const& first, InputIterator const& last, Result const& result, BinaryPredicate pred) {
-				return first != last
+				return first != last && sprout::size(result) != 0
 					? sprout::fixed::detail::unique_copy_impl(sprout::next(first), last, result, pred, sprout::size(result), *first)
 					: sprout::detail::container_complate(result)
 					;
-- 
2.43.0


From b514cd79165d161bebea047da6621943030c6744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:47 +0000
Subject: [PATCH 017/218] fix: fill_n/generate_n/unfold_n/recurrence_n never
 write past the result range

---
 sprout/algorithm/fixed/fill_n.hpp       | 4 +++-
 sprout/algorithm/fixed/generate_n.hpp   | 8 +++++++-
 sprout/algorithm/fixed/recurrence_n.hpp | 9 ++++++++-
 sprout/algorithm/fixed/unfold_n.hpp     | 8 +++++++-
 4 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/sprout/algorithm/fixed/fill_n.hpp b/sprout/algorithm/fixed/fill_n.hpp
index e2bf836..97af127 100644
--- a/sprout/algorithm/fixed/fill_n.hpp
+++ b/sprout/algorithm/fixed/fill_n.hpp
@@ -33,7 +33,9 @@ namespace sprout {
 					cont, value,
 					sprout::container_indexes<Container>::make(),
 					sprout::internal_begin_offset(cont),
-					n
+					sprout::size(cont) < static_cast<typename sprout::container_traits<Container>::size_type>(n)
+						? sprout::size(cont)
+						: static_cast<typename sprout::container_traits<Container>::size_type>(n)
 					);
 			}
 
diff --git a/sprout/algorithm/fixed/generate_n.hpp b/sprout/algorithm/fixed/generate_n.hpp
index c740911..0546efd 100644
--- a/sprout/algorithm/fixed/generate_n.hpp
+++ b/sprout/algorithm/fixed/generate_n.hpp
@@ -10,6 +10,7 @@
 
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/functions.hpp>
 #include <sprout/algorithm/fixed/results.hpp>
 #include <sprout/algorithm/fixed/generate.hpp>
 #include <sprout/pit/pit.hpp>
@@ -22,7 +23,12 @@ namespace sprout {
 		template<typename Container, typename Size, typename Generator>
 		inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Container>::type
 		generate_n(Container const& cont, Size n, Generator const& gen) {
-			return sprout::fixed::detail::generate_impl(cont, gen, n);
+			return sprout::fixed::detail::generate_impl(
+				cont, gen,
+				sprout::is_fixed_container<Container>::value && sprout::size(cont) < static_cast<typename sprout::container_traits<Container>::size_type>(n)
+					? sprout::size(cont)
+					: static_cast<typename sprout::container_traits<Container>::size_type>(n)
+				);
 		}
 
 		template<typename Container, typename Size, typename Generator>
diff --git a/sprout/algorithm/fixed/recurrence_n.hpp b/sprout/algorithm/fixed/recurrence_n.hpp
index 3d0d505..6c945ed 100644
--- a/sprout/algorithm/fixed/recurrence_n.hpp
+++ b/sprout/algorithm/fixed/recurrence_n.hpp
@@ -10,6 +10,7 @@
 
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/functions.hpp>
 #include <sprout/algorithm/fixed/results.hpp>
 #include <sprout/algorithm/fixed/recurrence.hpp>
 #include <sprout/pit/pit.hpp>
@@ -22,7 +23,13 @@ namespace sprout {
 		template<typename Container, typename Size, typename Generator, typename... Inits>
 		inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Container>::type
 		recurrence_n(Container const& cont, Size n, Generator const& gen, Inits const&... inits) {
-			return sprout::fixed::detail::recurrence_impl(cont, gen, n, inits...);
+			return sprout::fixed::detail::recurrence_impl(
+				cont, gen,
+				sprout::is_fixed_container<Container>::value && sprout::size(cont) < static_cast<typename sprout::container_traits<Container>::size_type>(n)
+					? sprout::size(cont)
+					: static_cast<typename sprout::container_traits<Container>::size_type>(n),
+				inits...
+				);
 		}
 
 		template<typename Container, typename Size, typename Generator, typename... Inits>
diff --git a/sprout/algorithm/fixed/unfold_n.hpp b/sprout/algorithm/fixed/unfold_n.hpp
index 5445623..eb5e6ac 100644
--- a/sprout/algorithm/fixed/unfold_n.hpp
+++ b/sprout/algorithm/fixed/unfold_n.hpp
@@ -10,6 +10,7 @@
 
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/functions.hpp>
 #include <sprout/algorithm/fixed/results.hpp>
 #include <sprout/algorithm/fixed/unfold.hpp>
 #include <sprout/pit/pit.hpp>
@@ -22,7 +23,12 @@ namespace sprout {
 		template<typename Container, typename Size, typename Generator, typename Init>
 		inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Container>::type
 		unfold_n(Container const& cont, Size n, Generator const& gen, Init const& init) {
-			return sprout::fixed::detail::unfold_impl(cont, gen, init, n);
+			return sprout::fixed::detail::unfold_impl(
+				cont, gen, init,
+				sprout::is_fixed_container<Container>::value && sprout::size(cont) < static_cast<typename sprout::container_traits<Container>::size_type>(n)
+					? sprout::size(cont)
+					: static_cast<typename sprout::container_traits<Container>::size_type>(n)
+				);
 		}
 
 		template<typename Container, typename Size,typename Generator, typename Init>
-- 
2.43.0


From bdf2a721ce1f0d95ab455c7ad47bb51ddc2b14ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:47 +0000
Subject: [PATCH 018/218] fix: recurrence keeps the leading initial values when
 they exceed the result

---
 sprout/algorithm/fixed/recurrence.hpp | 50 ++++++++++++---------------
 1 file changed, 22 insertions(+), 28 deletions(-)

diff --git a/sprout/algorithm/fixed/recurrence.hpp b/sprout/algorithm/fixed/recurrence.hpp
index abf86e7..61e45ba 100644
--- a/sprout/algorithm/fixed/recurrence.hpp
+++ b/sprout/algorithm/fixed/recurrence.hpp
@@ -11,10 +11,12 @@
 #include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
+#include <sprout/array/array.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/iterator/operation.hpp>
 #include <sprout/algorithm/fixed/results.hpp>
+#include <sprout/algorithm/fixed/copy.hpp>
 #include <sprout/pit/pit.hpp>
 #include <sprout/detail/container_complate.hpp>
 
@@ -45,43 +47,35 @@ namespace sprout {
 			call_gen(Generator const& gen, Head const&, Args const&... args) {
 				return call_gen<InitSize, Container>(gen, args...);
 			}
-			template<typename Container, typename Generator>
+			template<typename Container, typename Inits>
 			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Container>::type
-			recurrence_impl_drop(
-				Container const& cont, Generator const&,
-				typename sprout::container_traits<Container>::size_type
+			recurrence_impl_take(
+				Container const& cont,
+				typename sprout::container_traits<Container>::size_type size,
+				Inits const& inits
 				)
 			{
-				return sprout::detail::container_complate(cont);
+				return sprout::fixed::copy(sprout::begin(inits), sprout::next(sprout::begin(inits), size), cont);
 			}
-			template<typename Container, typename Generator, typename Head, typename... Inits>
-			inline SPROUT_CONSTEXPR typename std::enable_if<
-				(sprout::container_traits<Container>::static_size >= sizeof...(Inits) + 1),
-				typename sprout::fixed::results::algorithm<Container>::type
-			>::type
+			template<typename Container>
+			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Container>::type
 			recurrence_impl_drop(
-				Container const& cont, Generator const& gen,
-				typename sprout::container_traits<Container>::size_type size,
-				Head const& head, Inits const&... inits
+				Container const& cont,
+				typename sprout::container_traits<Container>::size_type
 				)
 			{
-				return size < sizeof...(Inits) + 1
-					? sprout::fixed::detail::recurrence_impl_drop(cont, gen, size, inits...)
-					: sprout::detail::container_complate(cont, head, inits...)
-					;
+				return sprout::detail::container_complate(cont);
 			}
-			template<typename Container, typename Generator, typename Head, typename... Inits>
-			inline SPROUT_CONSTEXPR typename std::enable_if<
-				(sprout::container_traits<Container>::static_size < sizeof...(Inits) + 1),
-				typename sprout::fixed::results::algorithm<Container>::type
-			>::type
+			template<typename Container, typename Head, typename... Inits>
+			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Container>::type
 			recurrence_impl_drop(
-				Container const& cont, Generator const& gen,
+				Container const& cont,
 				typename sprout::container_traits<Container>::size_type size,
-				Head const&, Inits const&... inits
+				Head const& head, Inits const&... inits
 				)
 			{
-				return sprout::fixed::detail::recurrence_impl_drop(cont, gen, size, inits...);
+				typedef sprout::array<typename sprout::container_traits<Container>::value_type, sizeof...(Inits) + 1> inits_type;
+				return sprout::fixed::detail::recurrence_impl_take(cont, size, inits_type{{head, inits...}});
 			}
 			template<std::size_t InitSize, typename Container, typename Generator, typename... Args>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
@@ -129,7 +123,7 @@ namespace sprout {
 			{
 				return sizeof...(Inits) < size
 					? sprout::fixed::detail::recurrence_impl_1<sizeof...(Inits)>(cont, gen, size, inits...)
-					: sprout::fixed::detail::recurrence_impl_drop(cont, gen, size, inits...)
+					: sprout::fixed::detail::recurrence_impl_drop(cont, size, inits...)
 					;
 			}
 			template<typename Container, typename Generator, typename... Inits>
@@ -138,12 +132,12 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Container>::type
 			>::type
 			recurrence_impl(
-				Container const& cont, Generator const& gen,
+				Container const& cont, Generator const&,
 				typename sprout::container_traits<Container>::size_type size,
 				Inits const&... inits
 				)
 			{
-				return sprout::fixed::detail::recurrence_impl_drop(cont, gen, size, inits...);
+				return sprout::fixed::detail::recurrence_impl_drop(cont, size, inits...);
 			}
 		}	// namespace detail
 		//
-- 
2.43.0


From f1d919374494676ffb9061786e54699fd4df1cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:34 +0000
Subject: [PATCH 019/218] fix: sub_array push/pop and const window/offset work
 on reference windows

---
 sprout/sub_array/sub_array.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/sprout/sub_array/sub_array.hpp b/sprout/sub_array/sub_array.hpp
index 4fbf582..f304d60 100644
--- a/sprout/sub_array/sub_array.hpp
+++ b/sprout/sub_array/sub_array.hpp
@@ -417,7 +417,7 @@ namespace sprout {
 
 		SPROUT_CXX14_CONSTEXPR sub_array& window(difference_type to_first = 0) {
 			impl_.to_first_ = to_first;
-			impl_.to_last_ = size();
+			impl_.to_last_ = sprout::size(get_internal());
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR sub_array& window(difference_type to_first, difference_type to_last) {
@@ -426,10 +426,10 @@ namespace sprout {
 			return *this;
 		}
 		SPROUT_CONSTEXPR sub_array window(difference_type to_first = 0) const {
-			return sub_array(impl_.array_, to_first, size());
+			return sub_array(impl_type::template to_param<Container>(impl_.array_), to_first, sprout::size(get_internal()));
 		}
 		SPROUT_CONSTEXPR sub_array window(difference_type to_first, difference_type to_last) const {
-			return sub_array(impl_.array_, to_first, to_last);
+			return sub_array(impl_type::template to_param<Container>(impl_.array_), to_first, to_last);
 		}
 		SPROUT_CONSTEXPR sub_array cwindow(difference_type to_first = 0) const {
 			return window(to_first);
@@ -444,7 +444,7 @@ namespace sprout {
 			return *this;
 		}
 		SPROUT_CONSTEXPR sub_array offset(difference_type from_begin = 0, difference_type from_end = 0) const {
-			return sub_array(impl_.array_, impl_.to_first_ + from_begin, impl_.to_last_ + from_end);
+			return sub_array(impl_type::template to_param<Container>(impl_.array_), impl_.to_first_ + from_begin, impl_.to_last_ + from_end);
 		}
 		SPROUT_CONSTEXPR sub_array coffset(difference_type from_begin = 0, difference_type from_end = 0) const {
 			return offset(from_begin, from_end);
@@ -470,30 +470,30 @@ namespace sprout {
 		}
 
 		SPROUT_CXX14_CONSTEXPR void push_back(value_type const& x) {
-			impl_.array_[impl_.to_last_] = x;
+			get_internal()[impl_.to_last_] = x;
 			++impl_.to_last_;
 		}
 		SPROUT_CXX14_CONSTEXPR void push_back(value_type&& x) {
-			impl_.array_[impl_.to_last_] = sprout::move(x);
+			get_internal()[impl_.to_last_] = sprout::move(x);
 			++impl_.to_last_;
 		}
 		SPROUT_CXX14_CONSTEXPR void pop_back() {
-			impl_.array_[impl_.to_last_ - 1] = value_type();
+			get_internal()[impl_.to_last_ - 1] = value_type();
 			--impl_.to_last_;
 		}
 		SPROUT_CXX14_CONSTEXPR void drop_back() {
 			--impl_.to_last_;
 		}
 		SPROUT_CXX14_CONSTEXPR void push_front(value_type const& x) {
-			impl_.array_[impl_.to_first_ - 1] = x;
+			get_internal()[impl_.to_first_ - 1] = x;
 			--impl_.to_first_;
 		}
 		SPROUT_CXX14_CONSTEXPR void push_front(value_type&& x) {
-			impl_.array_[impl_.to_first_ - 1] = sprout::move(x);
+			get_internal()[impl_.to_first_ - 1] = sprout::move(x);
 			--impl_.to_first_;
 		}
 		SPROUT_CXX14_CONSTEXPR void pop_front() {
-			impl_.array_[impl_.to_first_] = value_type();
+			get_internal()[impl_.to_first_] = value_type();
 			++impl_.to_first_;
 		}
 		SPROUT_CXX14_CONSTEXPR void drop_front() {
-- 
2.43.0


From 2232fcce354f49d9d3ed6ec69f9ad1cc3f976b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:34 +0000
Subject: [PATCH 020/218] fix: sub/csub/sub_copy of a whole container and
 sub(arr, first) compile

---
 sprout/sub_array/sub.hpp | 20 +-------------------
 1 file changed, 1 insertion(+), 19 deletions(-)

diff --git a/sprout/sub_array/sub.hpp b/sprout/sub_array/sub.hpp
index a5783df..5295476 100644
--- a/sprout/sub_array/sub.hpp
+++ b/sprout/sub_array/sub.hpp
@@ -37,7 +37,7 @@ namespace sprout {
 		typename sprout::container_traits<sprout::sub_array<Container&> >::const_iterator first
 		)
 	{
-		return sprout::sub(arr, first, sprout::end(arr));
+		return sprout::sub(arr, first, sprout::cend(arr));
 	}
 	template<typename Container>
 	inline SPROUT_CONSTEXPR typename std::enable_if<!sprout::is_sub_array<Container>::value, sprout::sub_array<Container&> >::type
@@ -137,12 +137,6 @@ namespace sprout {
 		return sprout::sub_window(arr, to_first);
 	}
 
-	template<typename Container>
-	inline SPROUT_CONSTEXPR typename std::enable_if<!sprout::is_sub_array<Container>::value, sprout::sub_array<Container&> >::type
-	sub(Container& arr) {
-		return sprout::sub(arr, sprout::begin(arr), sprout::end(arr));
-	}
-
 	//
 	// csub
 	//
@@ -224,12 +218,6 @@ namespace sprout {
 		return sprout::csub_window(arr, to_first);
 	}
 
-	template<typename Container>
-	inline SPROUT_CONSTEXPR typename std::enable_if<!sprout::is_sub_array<Container>::value, sprout::sub_array<Container const&> >::type
-	csub(Container const& arr) {
-		return sprout::csub(arr, sprout::begin(arr), sprout::end(arr));
-	}
-
 	//
 	// sub_copy
 	//
@@ -310,12 +298,6 @@ namespace sprout {
 	{
 		return sprout::sub_window_copy(arr, to_first);
 	}
-
-	template<typename Container>
-	inline SPROUT_CONSTEXPR typename std::enable_if<!sprout::is_sub_array<Container>::value, sprout::sub_array<Container> >::type
-	sub_copy(Container const& arr) {
-		return sprout::sub_copy(arr, sprout::begin(arr), sprout::end(arr));
-	}
 }	// namespace sprout
 
 #endif	// #ifndef SPROUT_SUB_ARRAY_SUB_HPP
-- 
2.43.0


From df83786d3d4a82764f83bd0b602f7a528ead0b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:34 +0000
Subject: [PATCH 021/218] fix: sub_array comparison takes the length into
 account

---
 sprout/sub_array/comparison.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/sub_array/comparison.hpp b/sprout/sub_array/comparison.hpp
index 3d59886..2d31b8e 100644
--- a/sprout/sub_array/comparison.hpp
+++ b/sprout/sub_array/comparison.hpp
@@ -26,7 +26,7 @@ namespace sprout {
 	template<typename Container>
 	inline SPROUT_CONSTEXPR bool
 	operator==(sprout::sub_array<Container> const& lhs, sprout::sub_array<Container> const& rhs) {
-		return sprout::equal(sprout::begin(lhs), sprout::end(lhs), sprout::begin(rhs));
+		return sprout::equal(sprout::begin(lhs), sprout::end(lhs), sprout::begin(rhs), sprout::end(rhs));
 	}
 	template<typename Container>
 	inline SPROUT_CONSTEXPR bool
-- 
2.43.0


From 6e6bdc053d9878ce51ba5f6fd32437c43e5b4c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:18 +0000
Subject: [PATCH 022/218] fix: fit erase_n trims N elements

---
 sprout/operation/fit/erase_n.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sprout/operation/fit/erase_n.hpp b/sprout/operation/fit/erase_n.hpp
index 2266afa..8a2701a 100644
--- a/sprout/operation/fit/erase_n.hpp
+++ b/sprout/operation/fit/erase_n.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_ERASE_N_HPP
 #define SPROUT_OPERATION_FIT_ERASE_N_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/erase_n.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,11 @@ namespace sprout {
 			struct erase_n {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::erase_n<N, Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::erase_n<N, Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
@@ -42,7 +46,7 @@ namespace sprout {
 			return sprout::sub_copy(
 				sprout::get_internal(sprout::fixed::erase_n<N>(cont, pos)),
 				sprout::internal_begin_offset(cont),
-				sprout::internal_end_offset(cont) - 1
+				sprout::internal_end_offset(cont) - N
 				);
 		}
 		template<std::size_t N, typename Container>
@@ -51,7 +55,7 @@ namespace sprout {
 			return sprout::sub_copy(
 				sprout::get_internal(sprout::fixed::erase_n<N>(cont, pos)),
 				sprout::internal_begin_offset(cont),
-				sprout::internal_end_offset(cont) - 1
+				sprout::internal_end_offset(cont) - N
 				);
 		}
 	}	// namespace fit
-- 
2.43.0


From be3918e4eb0384b4f21fe6020c7ebd0dbac0027f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:18 +0000
Subject: [PATCH 023/218] fix: fit realign_to never reports more elements than
 its result holds

---
 sprout/operation/fit/realign_to.hpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/sprout/operation/fit/realign_to.hpp b/sprout/operation/fit/realign_to.hpp
index 86e1557..5b9269b 100644
--- a/sprout/operation/fit/realign_to.hpp
+++ b/sprout/operation/fit/realign_to.hpp
@@ -8,12 +8,15 @@
 #ifndef SPROUT_OPERATION_FIT_REALIGN_TO_HPP
 #define SPROUT_OPERATION_FIT_REALIGN_TO_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/realign_to.hpp>
 #include <sprout/sub_array/sub_array.hpp>
 #include <sprout/sub_array/sub.hpp>
+#include HDR_ALGORITHM_MIN_MAX_SSCRISK_CEL_OR_SPROUT
 
 namespace sprout {
 	namespace fit {
@@ -25,9 +28,11 @@ namespace sprout {
 			struct realign_to {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::realign_to<Result, Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::realign_to<Result, Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
@@ -41,7 +46,10 @@ namespace sprout {
 			return sprout::sub_copy(
 				sprout::get_internal(sprout::fixed::realign_to<Result>(cont, v)),
 				0,
-				sprout::size(cont)
+				NS_SSCRISK_CEL_OR_SPROUT::min<typename sprout::container_traits<Result>::difference_type>(
+					sprout::size(cont),
+					sprout::container_traits<Result>::static_size
+					)
 				);
 		}
 		template<typename Result, typename Container>
@@ -50,7 +58,10 @@ namespace sprout {
 			return sprout::sub_copy(
 				sprout::get_internal(sprout::fixed::realign_to<Result>(cont)),
 				0,
-				sprout::size(cont)
+				NS_SSCRISK_CEL_OR_SPROUT::min<typename sprout::container_traits<Result>::difference_type>(
+					sprout::size(cont),
+					sprout::container_traits<Result>::static_size
+					)
 				);
 		}
 	}	// namespace fit
-- 
2.43.0


From 6a7b7bf970d0f7038d7fd0f44f4a06bcfae473a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:18 +0000
Subject: [PATCH 024/218] fix: fit forms of the container edits compile

---
 sprout/operation/fit/append.hpp          | 10 +++++++---
 sprout/operation/fit/append_back.hpp     | 10 +++++++---
 sprout/operation/fit/append_front.hpp    | 10 +++++++---
 sprout/operation/fit/erase.hpp           | 10 +++++++---
 sprout/operation/fit/insert.hpp          | 10 +++++++---
 sprout/operation/fit/insert_n.hpp        | 10 +++++++---
 sprout/operation/fit/pop_back.hpp        | 10 +++++++---
 sprout/operation/fit/pop_back_n.hpp      | 10 +++++++---
 sprout/operation/fit/pop_front.hpp       | 10 +++++++---
 sprout/operation/fit/pop_front_n.hpp     | 10 +++++++---
 sprout/operation/fit/push_back.hpp       | 10 +++++++---
 sprout/operation/fit/push_back_n.hpp     | 10 +++++++---
 sprout/operation/fit/push_front.hpp      | 10 +++++++---
 sprout/operation/fit/push_front_n.hpp    | 10 +++++++---
 sprout/operation/fit/realign.hpp         | 10 +++++++---
 sprout/operation/fit/resize.hpp          | 10 +++++++---
 sprout/operation/fit/resize_backward.hpp | 10 +++++++---
 sprout/operation/fit/set.hpp             | 10 +++++++---
 18 files changed, 126 insertions(+), 54 deletions(-)

diff --git a/sprout/operation/fit/append.hpp b/sprout/operation/fit/append.hpp
index 7b72f91..5e2614f 100644
--- a/sprout/operation/fit/append.hpp
+++ b/sprout/operation/fit/append.hpp
@@ -8,8 +8,10 @@
 #ifndef SPROUT_OPERATION_FIT_APPEND_HPP
 #define SPROUT_OPERATION_FIT_APPEND_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/append.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -25,9 +27,11 @@ namespace sprout {
 			struct append {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::append<Container, Input>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::append<Container, Input>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/append_back.hpp b/sprout/operation/fit/append_back.hpp
index f2495a1..4d45e1e 100644
--- a/sprout/operation/fit/append_back.hpp
+++ b/sprout/operation/fit/append_back.hpp
@@ -8,8 +8,10 @@
 #ifndef SPROUT_OPERATION_FIT_APPEND_BACK_HPP
 #define SPROUT_OPERATION_FIT_APPEND_BACK_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/append_back.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -24,9 +26,11 @@ namespace sprout {
 			template<typename Container, typename Input>
 			struct append_back {
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::append_back<Container, Input>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::append_back<Container, Input>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/append_front.hpp b/sprout/operation/fit/append_front.hpp
index a364222..31520cb 100644
--- a/sprout/operation/fit/append_front.hpp
+++ b/sprout/operation/fit/append_front.hpp
@@ -8,8 +8,10 @@
 #ifndef SPROUT_OPERATION_FIT_APPEND_FRONT_HPP
 #define SPROUT_OPERATION_FIT_APPEND_FRONT_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/append_front.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -24,9 +26,11 @@ namespace sprout {
 			template<typename Container, typename Input>
 			struct append_front {
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::append_front<Container, Input>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::append_front<Container, Input>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/erase.hpp b/sprout/operation/fit/erase.hpp
index 7939b44..1bbc5fb 100644
--- a/sprout/operation/fit/erase.hpp
+++ b/sprout/operation/fit/erase.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_ERASE_HPP
 #define SPROUT_OPERATION_FIT_ERASE_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/erase.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,11 @@ namespace sprout {
 			struct erase {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::erase<Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::erase<Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/insert.hpp b/sprout/operation/fit/insert.hpp
index 7ec7c34..5c3967b 100644
--- a/sprout/operation/fit/insert.hpp
+++ b/sprout/operation/fit/insert.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_INSERT_HPP
 #define SPROUT_OPERATION_FIT_INSERT_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/insert.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,11 @@ namespace sprout {
 			struct insert {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::insert<Container, T, Values...>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::insert<Container, T, Values...>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/insert_n.hpp b/sprout/operation/fit/insert_n.hpp
index 48ee75b..79560f6 100644
--- a/sprout/operation/fit/insert_n.hpp
+++ b/sprout/operation/fit/insert_n.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_INSERT_N_HPP
 #define SPROUT_OPERATION_FIT_INSERT_N_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/insert_n.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,11 @@ namespace sprout {
 			struct insert_n {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::insert_n<N, Container, T, Values...>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::insert_n<N, Container, T, Values...>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/pop_back.hpp b/sprout/operation/fit/pop_back.hpp
index 2486e27..b11c9df 100644
--- a/sprout/operation/fit/pop_back.hpp
+++ b/sprout/operation/fit/pop_back.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_POP_BACK_HPP
 #define SPROUT_OPERATION_FIT_POP_BACK_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/pop_back.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,11 @@ namespace sprout {
 			struct pop_back {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::pop_back<Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::pop_back<Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/pop_back_n.hpp b/sprout/operation/fit/pop_back_n.hpp
index dd491dd..0af3b21 100644
--- a/sprout/operation/fit/pop_back_n.hpp
+++ b/sprout/operation/fit/pop_back_n.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_POP_BACK_N_HPP
 #define SPROUT_OPERATION_FIT_POP_BACK_N_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/pop_back_n.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,11 @@ namespace sprout {
 			struct pop_back_n {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::pop_back_n<N, Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::pop_back_n<N, Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/pop_front.hpp b/sprout/operation/fit/pop_front.hpp
index b34f6d7..07bd801 100644
--- a/sprout/operation/fit/pop_front.hpp
+++ b/sprout/operation/fit/pop_front.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_POP_FRONT_HPP
 #define SPROUT_OPERATION_FIT_POP_FRONT_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/pop_front.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,11 @@ namespace sprout {
 			struct pop_front {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::pop_front<Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::pop_front<Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/pop_front_n.hpp b/sprout/operation/fit/pop_front_n.hpp
index a591b6c..a432b3c 100644
--- a/sprout/operation/fit/pop_front_n.hpp
+++ b/sprout/operation/fit/pop_front_n.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_POP_FRONT_N_HPP
 #define SPROUT_OPERATION_FIT_POP_FRONT_N_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/pop_front_n.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,11 @@ namespace sprout {
 			struct pop_front_n {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::pop_front_n<N, Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::pop_front_n<N, Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/push_back.hpp b/sprout/operation/fit/push_back.hpp
index b056ec2..1917a96 100644
--- a/sprout/operation/fit/push_back.hpp
+++ b/sprout/operation/fit/push_back.hpp
@@ -8,8 +8,10 @@
 #ifndef SPROUT_OPERATION_FIT_PUSH_BACK_HPP
 #define SPROUT_OPERATION_FIT_PUSH_BACK_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/push_back.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -25,9 +27,11 @@ namespace sprout {
 			struct push_back {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::push_back<Container, T, Values...>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::push_back<Container, T, Values...>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/push_back_n.hpp b/sprout/operation/fit/push_back_n.hpp
index 3dd2372..9c31ae4 100644
--- a/sprout/operation/fit/push_back_n.hpp
+++ b/sprout/operation/fit/push_back_n.hpp
@@ -8,8 +8,10 @@
 #ifndef SPROUT_OPERATION_FIT_PUSH_BACK_N_HPP
 #define SPROUT_OPERATION_FIT_PUSH_BACK_N_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/push_back_n.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -25,9 +27,11 @@ namespace sprout {
 			struct push_back_n {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::push_back_n<N, Container, T, Values...>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::push_back_n<N, Container, T, Values...>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/push_front.hpp b/sprout/operation/fit/push_front.hpp
index 589bfad..0b15c26 100644
--- a/sprout/operation/fit/push_front.hpp
+++ b/sprout/operation/fit/push_front.hpp
@@ -8,8 +8,10 @@
 #ifndef SPROUT_OPERATION_FIT_PUSH_FRONT_HPP
 #define SPROUT_OPERATION_FIT_PUSH_FRONT_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/push_front.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -25,9 +27,11 @@ namespace sprout {
 			struct push_front {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::push_front<Container, T, Values...>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::push_front<Container, T, Values...>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/push_front_n.hpp b/sprout/operation/fit/push_front_n.hpp
index 7493c31..c1cb636 100644
--- a/sprout/operation/fit/push_front_n.hpp
+++ b/sprout/operation/fit/push_front_n.hpp
@@ -8,8 +8,10 @@
 #ifndef SPROUT_OPERATION_FIT_PUSH_FRONT_N_HPP
 #define SPROUT_OPERATION_FIT_PUSH_FRONT_N_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/push_front_n.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -25,9 +27,11 @@ namespace sprout {
 			struct push_front_n {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::push_front_n<N, Container, T, Values...>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::push_front_n<N, Container, T, Values...>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/realign.hpp b/sprout/operation/fit/realign.hpp
index 3e65ad5..bc8061f 100644
--- a/sprout/operation/fit/realign.hpp
+++ b/sprout/operation/fit/realign.hpp
@@ -8,8 +8,10 @@
 #ifndef SPROUT_OPERATION_FIT_REALIGN_HPP
 #define SPROUT_OPERATION_FIT_REALIGN_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/realign.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -25,9 +27,11 @@ namespace sprout {
 			struct realign {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::realign<Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::realign<Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/resize.hpp b/sprout/operation/fit/resize.hpp
index 69e70a1..d9ed429 100644
--- a/sprout/operation/fit/resize.hpp
+++ b/sprout/operation/fit/resize.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_RESIZE_HPP
 #define SPROUT_OPERATION_FIT_RESIZE_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/resize.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,11 @@ namespace sprout {
 			struct resize {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::resize<N, Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::resize<N, Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/resize_backward.hpp b/sprout/operation/fit/resize_backward.hpp
index 00bdc8c..8669357 100644
--- a/sprout/operation/fit/resize_backward.hpp
+++ b/sprout/operation/fit/resize_backward.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_RESIZE_BACKWARD_HPP
 #define SPROUT_OPERATION_FIT_RESIZE_BACKWARD_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/resize_backward.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,11 @@ namespace sprout {
 			struct resize_backward {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::resize_backward<N, Container>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::resize_backward<N, Container>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/set.hpp b/sprout/operation/fit/set.hpp
index 1089748..c5cacda 100644
--- a/sprout/operation/fit/set.hpp
+++ b/sprout/operation/fit/set.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_SET_HPP
 #define SPROUT_OPERATION_FIT_SET_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/container/metafunctions.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/operation/fixed/set.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -26,9 +28,11 @@ namespace sprout {
 			struct set {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
-						typename sprout::fixed::results::set<Container, T>::type
-					>::internal_type
+					typename std::decay<
+						typename sprout::containers::internal<
+							typename sprout::fixed::results::set<Container, T>::type
+						>::type
+					>::type
 				> type;
 			};
 		}	// namespace results
-- 
2.43.0


From 5f78a63ed6e0204f2084399919d82cb97e0a8f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:22 +0000
Subject: [PATCH 025/218] fix: make sprout::empty usable (range_empty missing
 from container_range_traits_default)

---
 sprout/container/container_range_traits.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sprout/container/container_range_traits.hpp b/sprout/container/container_range_traits.hpp
index 0d3881a..db9ce58 100644
--- a/sprout/container/container_range_traits.hpp
+++ b/sprout/container/container_range_traits.hpp
@@ -291,6 +291,7 @@ namespace sprout {
 		: public sprout::container_range_begin_default<Container>
 		, public sprout::container_range_end_default<Container>
 		, public sprout::container_range_size_default<Container>
+		, public sprout::container_range_empty_default<Container>
 		, public sprout::container_range_front_default<Container>
 		, public sprout::container_range_back_default<Container>
 		, public sprout::container_range_subscript_at_default<Container>
-- 
2.43.0


From 1b70de2bd3a1fa2ef013afe1f74db85fa0461613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:22 +0000
Subject: [PATCH 026/218] fix: hash_value of pit and sized_pit accessed a
 private member

---
 sprout/pit/hash.hpp       | 2 +-
 sprout/sized_pit/hash.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/pit/hash.hpp b/sprout/pit/hash.hpp
index 36714df..cf9969a 100644
--- a/sprout/pit/hash.hpp
+++ b/sprout/pit/hash.hpp
@@ -21,7 +21,7 @@ namespace sprout {
 	template<typename Container>
 	inline SPROUT_CONSTEXPR std::size_t
 	hash_value(sprout::pit<Container> const& v) {
-		return sprout::to_hash(v.elem);
+		return sprout::to_hash(v.front());
 	}
 }	// namespace sprout
 
diff --git a/sprout/sized_pit/hash.hpp b/sprout/sized_pit/hash.hpp
index a563467..a543c1b 100644
--- a/sprout/sized_pit/hash.hpp
+++ b/sprout/sized_pit/hash.hpp
@@ -21,7 +21,7 @@ namespace sprout {
 	template<typename Container>
 	inline SPROUT_CONSTEXPR std::size_t
 	hash_value(sprout::sized_pit<Container> const& v) {
-		return sprout::to_hash(v.elem);
+		return sprout::hash_range(v);
 	}
 }	// namespace sprout
 
-- 
2.43.0


From a9751149af27ca1ffddda708acba1b4dda9e8d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:22 +0000
Subject: [PATCH 027/218] fix: sized_pit iterates over, assigns, swaps and
 compares its own size

---
 sprout/sized_pit/comparison.hpp | 10 ++++++++--
 sprout/sized_pit/sized_pit.hpp  |  9 ++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/sprout/sized_pit/comparison.hpp b/sprout/sized_pit/comparison.hpp
index e2245cf..48eb48d 100644
--- a/sprout/sized_pit/comparison.hpp
+++ b/sprout/sized_pit/comparison.hpp
@@ -9,7 +9,10 @@
 #define SPROUT_SIZED_PIT_COMPARISON_HPP
 
 #include <sprout/config.hpp>
+#include <sprout/container/functions.hpp>
 #include <sprout/sized_pit/sized_pit.hpp>
+#include <sprout/algorithm/equal.hpp>
+#include <sprout/algorithm/lexicographical_compare.hpp>
 
 namespace sprout {
 	//
@@ -23,7 +26,7 @@ namespace sprout {
 	template<typename Container>
 	inline SPROUT_CONSTEXPR bool
 	operator==(sprout::sized_pit<Container> const& lhs, sprout::sized_pit<Container> const& rhs) {
-		return lhs.front() == rhs.front();
+		return sprout::equal(sprout::begin(lhs), sprout::end(lhs), sprout::begin(rhs), sprout::end(rhs));
 	}
 	template<typename Container>
 	inline SPROUT_CONSTEXPR bool
@@ -33,7 +36,10 @@ namespace sprout {
 	template<typename Container>
 	inline SPROUT_CONSTEXPR bool
 	operator<(sprout::sized_pit<Container> const& lhs, sprout::sized_pit<Container> const& rhs) {
-		return lhs.front() < rhs.front();
+		return sprout::lexicographical_compare(
+			sprout::begin(lhs), sprout::end(lhs),
+			sprout::begin(rhs), sprout::end(rhs)
+			);
 	}
 	template<typename Container>
 	inline SPROUT_CONSTEXPR bool
diff --git a/sprout/sized_pit/sized_pit.hpp b/sprout/sized_pit/sized_pit.hpp
index f9fd429..9f195fa 100644
--- a/sprout/sized_pit/sized_pit.hpp
+++ b/sprout/sized_pit/sized_pit.hpp
@@ -60,10 +60,12 @@ namespace sprout {
 		{}
 		SPROUT_CXX14_CONSTEXPR sized_pit& operator=(sized_pit const& rhs) {
 			elem = rhs.elem;
+			size_ = rhs.size_;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR sized_pit& operator=(sized_pit&& rhs) {
 			elem = sprout::move(rhs.elem);
+			size_ = rhs.size_;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR sized_pit& operator=(value_type const& rhs) {
@@ -78,13 +80,14 @@ namespace sprout {
 		SPROUT_NOEXCEPT_IF_EXPR(sprout::swap(elem, other.elem))
 		{
 			sprout::swap(elem, other.elem);
+			sprout::swap(size_, other.size_);
 		}
 		// iterators:
 		SPROUT_CXX14_CONSTEXPR iterator begin() {
-			return iterator(elem, enumerable_size);
+			return iterator(elem, size());
 		}
 		SPROUT_CONSTEXPR const_iterator begin() const {
-			return const_iterator(elem, enumerable_size);
+			return const_iterator(elem, size());
 		}
 		SPROUT_CXX14_CONSTEXPR iterator end() SPROUT_NOEXCEPT {
 			return iterator(elem, 0);
@@ -105,7 +108,7 @@ namespace sprout {
 			return const_reverse_iterator(begin());
 		}
 		SPROUT_CONSTEXPR const_iterator cbegin() const SPROUT_NOEXCEPT {
-			return const_iterator(elem, enumerable_size);
+			return const_iterator(elem, size());
 		}
 		SPROUT_CONSTEXPR const_iterator cend() const SPROUT_NOEXCEPT {
 			return const_iterator(elem, 0);
-- 
2.43.0


From 2daf6e60045a3831569c7775675b1320d99b56f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:22 +0000
Subject: [PATCH 028/218] fix: index_of on a non-const container passed an
 iterator of the wrong constness

---
 sprout/container/detail/range_index_of.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/container/detail/range_index_of.hpp b/sprout/container/detail/range_index_of.hpp
index 332363b..087f662 100644
--- a/sprout/container/detail/range_index_of.hpp
+++ b/sprout/container/detail/range_index_of.hpp
@@ -71,7 +71,7 @@ namespace sprout {
 			typename sprout::container_traits<Container>::size_type
 		>::type
 		range_index_of_impl(Container& cont, typename sprout::container_traits<Container>::iterator p) {
-			typedef typename sprout::container_traits<Container>::iterator type;
+			typedef typename sprout::container_traits<Container const>::iterator type;
 			return sprout::index_of(sprout::as_const(cont), sprout::const_iterator_cast<type>(p));
 		}
 		template<typename Container>
-- 
2.43.0


From edd895be4db4008a13928bba0d0939af8cd09b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:22 +0000
Subject: [PATCH 029/218] fix: basic_string::rbegin()/rend() on a non-const
 string

---
 sprout/string/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index f9f42f2..d268f24 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -486,7 +486,7 @@ namespace sprout {
 #endif
 		SPROUT_CXX14_CONSTEXPR reverse_iterator
 		rbegin() SPROUT_NOEXCEPT {
-			return const_reverse_iterator(end());
+			return reverse_iterator(end());
 		}
 		SPROUT_CONSTEXPR const_reverse_iterator
 		rbegin() const SPROUT_NOEXCEPT {
@@ -494,7 +494,7 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR reverse_iterator
 		rend() SPROUT_NOEXCEPT {
-			return const_reverse_iterator(begin());
+			return reverse_iterator(begin());
 		}
 		SPROUT_CONSTEXPR const_reverse_iterator
 		rend() const SPROUT_NOEXCEPT {
-- 
2.43.0


From 8fab152cbbe6a2d0f47357b9e2413f2482915b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:22 +0000
Subject: [PATCH 030/218] fix: index_iterator converts to its const counterpart

---
 sprout/iterator/index_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/iterator/index_iterator.hpp b/sprout/iterator/index_iterator.hpp
index 33b4bca..a15d8dc 100644
--- a/sprout/iterator/index_iterator.hpp
+++ b/sprout/iterator/index_iterator.hpp
@@ -109,8 +109,8 @@ namespace sprout {
 		SPROUT_CONSTEXPR index_iterator(typename holder_type::param_type p, difference_type index)
 			: holder_(p), index_(index)
 		{}
-		SPROUT_CONSTEXPR operator index_iterator<const_container_type>() const {
-			return index_iterator<const_container_type>(holder_.get(), index_);
+		SPROUT_CONSTEXPR operator index_iterator<const_container_type, ConvertibleToPointer, Subscript>() const {
+			return index_iterator<const_container_type, ConvertibleToPointer, Subscript>(holder_.get(), index_);
 		}
 		SPROUT_CONSTEXPR typename holder_type::mutable_or_const_reference base() const {
 			return holder_.get();
-- 
2.43.0


From 0dd9125d5c3f143b4c24467c3f5dd93666c39207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:46 +0000
Subject: [PATCH 031/218] fix: valarray::empty() was inverted

---
 sprout/valarray/valarray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/valarray/valarray.hpp b/sprout/valarray/valarray.hpp
index 4fe2156..d65b0d7 100644
--- a/sprout/valarray/valarray.hpp
+++ b/sprout/valarray/valarray.hpp
@@ -526,7 +526,7 @@ namespace sprout {
 		}
 		SPROUT_CONSTEXPR bool
 		empty() const SPROUT_NOEXCEPT {
-			return size() != 0;
+			return size() == 0;
 		}
 		// element access (array):
 		SPROUT_CXX14_CONSTEXPR reference
-- 
2.43.0


From 5e90526fca406847bdf4e23282795bc8e9d22baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:52 +0000
Subject: [PATCH 032/218] fix: bitset: find_first/find_next, construction from
 a character pointer, modifiers of bitset<0>

---
 sprout/bitset/bitset.hpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/sprout/bitset/bitset.hpp b/sprout/bitset/bitset.hpp
index 1bab338..686eda5 100644
--- a/sprout/bitset/bitset.hpp
+++ b/sprout/bitset/bitset.hpp
@@ -123,7 +123,7 @@ namespace sprout {
 				return first == last ? not_found
 					: *first != static_cast<word_type>(0)
 						? i * (CHAR_BIT * sprout::detail::sizeof_<unsigned long>::value) + sprout::ctz(*first)
-					: find_next_impl_2(not_found, first + 1, last)
+					: find_next_impl_2(not_found, first + 1, last, i + 1)
 					;
 			}
 			SPROUT_CONSTEXPR size_type
@@ -727,11 +727,9 @@ namespace sprout {
 				return *this;
 			}
 
-			SPROUT_CXX14_CONSTEXPR word_type
-			getword(size_type, bool c = false) SPROUT_NOEXCEPT {
-				return SPROUT_ASSERT_MSG(!c, "base_bitset::getword"),
-					0
-					;
+			SPROUT_NON_CONSTEXPR word_type&
+			getword(size_type) {
+				return (throw std::out_of_range("base_bitset::getword")), *static_cast<word_type*>(0);
 			}
 			SPROUT_CONSTEXPR word_type
 			getword(size_type) const SPROUT_NOEXCEPT {
@@ -1146,7 +1144,7 @@ namespace sprout {
 		}
 		template<typename Char>
 		explicit SPROUT_NON_CONSTEXPR bitset(
-			Char const* str, typename std::basic_string<Char>::size_typeype n = std::basic_string<Char>::npos,
+			Char const* str, typename std::basic_string<Char>::size_type n = std::basic_string<Char>::npos,
 			Char zero = SPROUT_CHAR_LITERAL('0', Char), Char one = SPROUT_CHAR_LITERAL('1', Char)
 			)
 			: base_type()
@@ -1389,11 +1387,11 @@ namespace sprout {
 
 		SPROUT_CONSTEXPR size_type
 		find_first() const SPROUT_NOEXCEPT {
-			return this->find_first(N);
+			return base_type::find_first(N);
 		}
 		SPROUT_CONSTEXPR size_type
 		find_next(size_type prev) const SPROUT_NOEXCEPT {
-			return this->find_next(prev, N);
+			return base_type::find_next(prev, N);
 		}
 
 	public:
-- 
2.43.0


From 13fe5a21048c31f50da522fe21f8bbcd05856d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:52 +0000
Subject: [PATCH 033/218] fix: bitset stream input reports failure when no
 digit was read

---
 sprout/bitset/io.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sprout/bitset/io.hpp b/sprout/bitset/io.hpp
index 1b83d86..b0a859b 100644
--- a/sprout/bitset/io.hpp
+++ b/sprout/bitset/io.hpp
@@ -58,10 +58,9 @@ namespace sprout {
 			state |= ios_base::failbit;
 		} else {
 			rhs.copy_from_string(tmp, static_cast<std::size_t>(0), N, zero, one);
-			if (state) {
-				lhs.setstate(state);
-				return lhs;
-			}
+		}
+		if (state) {
+			lhs.setstate(state);
 		}
 		return lhs;
 	}
-- 
2.43.0


From d2252e2382e18109ffcdca28723620958d40f25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:56 +0000
Subject: [PATCH 034/218] fix: clrsb counts the redundant sign bits in the
 portable form too

---
 sprout/bit/clrsb.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sprout/bit/clrsb.hpp b/sprout/bit/clrsb.hpp
index 96f5bc4..78ce5f2 100644
--- a/sprout/bit/clrsb.hpp
+++ b/sprout/bit/clrsb.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_BIT_CLRSB_HPP
 #define SPROUT_BIT_CLRSB_HPP
 
+#include <climits>
 #include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/bit/clz.hpp>
+#include <sprout/bit/shar.hpp>
 
 namespace sprout {
 	namespace detail {
@@ -31,7 +33,7 @@ namespace sprout {
 		template<typename Integral>
 		inline SPROUT_CONSTEXPR int
 		clrsb(Integral x) SPROUT_NOEXCEPT {
-			return sprout::clz(~x);
+			return sprout::clz(static_cast<Integral>(x ^ sprout::shar(x, sizeof(x) * CHAR_BIT - 1))) - 1;
 		}
 	}	// namespace detail
 	//
-- 
2.43.0


From 00f9e7595fcefee5dd3e48328e87e5a70b4eedb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:56 +0000
Subject: [PATCH 035/218] fix: cntl1 and cntt1 count leading/trailing ones at
 every width

---
 sprout/bit/cntl1.hpp | 4 ++--
 sprout/bit/cntt1.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/bit/cntl1.hpp b/sprout/bit/cntl1.hpp
index a54b84f..b1cd2f8 100644
--- a/sprout/bit/cntl1.hpp
+++ b/sprout/bit/cntl1.hpp
@@ -10,7 +10,7 @@
 
 #include <type_traits>
 #include <sprout/config.hpp>
-#include <sprout/bit/clrsb.hpp>
+#include <sprout/bit/clz.hpp>
 
 namespace sprout {
 	//
@@ -22,7 +22,7 @@ namespace sprout {
 		int
 	>::type
 	cntl1(Integral x) SPROUT_NOEXCEPT {
-		return sprout::clrsb(x);
+		return sprout::clz(static_cast<Integral>(~x));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/cntt1.hpp b/sprout/bit/cntt1.hpp
index 0a6b207..76d9500 100644
--- a/sprout/bit/cntt1.hpp
+++ b/sprout/bit/cntt1.hpp
@@ -22,7 +22,7 @@ namespace sprout {
 		int
 	>::type
 	cntt1(Integral x) SPROUT_NOEXCEPT {
-		return sprout::ctz(~x);
+		return sprout::ctz(static_cast<Integral>(~x));
 	}
 }	// namespace sprout
 
-- 
2.43.0


From fbc8a0ec056d0247d2afab81ef3addeea0e04081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:56 +0000
Subject: [PATCH 036/218] fix: setbitsle/rstbitsle/flipbitsle at the top bit

---
 sprout/bit/flipbitsle.hpp | 4 +++-
 sprout/bit/rstbitsle.hpp  | 4 +++-
 sprout/bit/setbitsle.hpp  | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/sprout/bit/flipbitsle.hpp b/sprout/bit/flipbitsle.hpp
index 4590515..184a6d4 100644
--- a/sprout/bit/flipbitsle.hpp
+++ b/sprout/bit/flipbitsle.hpp
@@ -8,8 +8,10 @@
 #ifndef SPROUT_BIT_FLIPBITSLE_HPP
 #define SPROUT_BIT_FLIPBITSLE_HPP
 
+#include <climits>
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/bit/shlr.hpp>
 
 namespace sprout {
 	//
@@ -21,7 +23,7 @@ namespace sprout {
 		Integral
 	>::type
 	flipbitsle(Integral x, int b) SPROUT_NOEXCEPT {
-		return x ^ ((Integral(1) << (b + 1)) - 1);
+		return x ^ sprout::shlr(static_cast<Integral>(~Integral(0)), sizeof(x) * CHAR_BIT - 1 - b);
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/rstbitsle.hpp b/sprout/bit/rstbitsle.hpp
index 8f5044f..ed3a7e5 100644
--- a/sprout/bit/rstbitsle.hpp
+++ b/sprout/bit/rstbitsle.hpp
@@ -8,8 +8,10 @@
 #ifndef SPROUT_BIT_SRSTBITSLE_HPP
 #define SPROUT_BIT_SRSTBITSLE_HPP
 
+#include <climits>
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/bit/shlr.hpp>
 
 namespace sprout {
 	//
@@ -21,7 +23,7 @@ namespace sprout {
 		Integral
 	>::type
 	rstbitsle(Integral x, int b) SPROUT_NOEXCEPT {
-		return x & ~((Integral(1) << (b + 1)) - 1);
+		return x & ~sprout::shlr(static_cast<Integral>(~Integral(0)), sizeof(x) * CHAR_BIT - 1 - b);
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/setbitsle.hpp b/sprout/bit/setbitsle.hpp
index 604ad71..bb0705e 100644
--- a/sprout/bit/setbitsle.hpp
+++ b/sprout/bit/setbitsle.hpp
@@ -8,8 +8,10 @@
 #ifndef SPROUT_BIT_SETBITSLE_HPP
 #define SPROUT_BIT_SETBITSLE_HPP
 
+#include <climits>
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/bit/shlr.hpp>
 
 namespace sprout {
 	//
@@ -21,7 +23,7 @@ namespace sprout {
 		Integral
 	>::type
 	setbitsle(Integral x, int b) SPROUT_NOEXCEPT {
-		return x | ((Integral(1) << (b + 1)) - 1);
+		return x | sprout::shlr(static_cast<Integral>(~Integral(0)), sizeof(x) * CHAR_BIT - 1 - b);
 	}
 }	// namespace sprout
 
-- 
2.43.0


From 152d5a19d70143311b5ace1f3f641efbecaf7cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:56 +0000
Subject: [PATCH 037/218] fix: rotl/rotr by zero shift by the full width;
 signed rotl shifts a negative value

---
 sprout/bit/rotl.hpp | 3 ++-
 sprout/bit/rotr.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sprout/bit/rotl.hpp b/sprout/bit/rotl.hpp
index 3e39668..597cd52 100644
--- a/sprout/bit/rotl.hpp
+++ b/sprout/bit/rotl.hpp
@@ -11,6 +11,7 @@
 #include <climits>
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/bit/shll.hpp>
 #include <sprout/bit/shlr.hpp>
 
 namespace sprout {
@@ -23,7 +24,7 @@ namespace sprout {
 		Integral
 	>::type
 	rotl(Integral x, int s) SPROUT_NOEXCEPT {
-		return (x << s) | sprout::shlr(x, sizeof(x) * CHAR_BIT - s);
+		return sprout::shll(x, s) | sprout::shlr(x, (sizeof(x) * CHAR_BIT - s) % (sizeof(x) * CHAR_BIT));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/rotr.hpp b/sprout/bit/rotr.hpp
index 3327e01..02d850d 100644
--- a/sprout/bit/rotr.hpp
+++ b/sprout/bit/rotr.hpp
@@ -11,6 +11,7 @@
 #include <climits>
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/bit/shll.hpp>
 #include <sprout/bit/shlr.hpp>
 
 namespace sprout {
@@ -23,7 +24,7 @@ namespace sprout {
 		Integral
 	>::type
 	rotr(Integral x, int s) SPROUT_NOEXCEPT {
-		return sprout::shlr(x, s) | (x << (sizeof(x) * CHAR_BIT - s));
+		return sprout::shlr(x, s) | sprout::shll(x, (sizeof(x) * CHAR_BIT - s) % (sizeof(x) * CHAR_BIT));
 	}
 }	// namespace sprout
 
-- 
2.43.0


From 0a5774d41d2a3f7e868efe63a6cab3d1d7b41e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:56 +0000
Subject: [PATCH 038/218] fix: endian_traits get_byte/set_byte on types wider
 than int

---
 sprout/endian_traits.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sprout/endian_traits.hpp b/sprout/endian_traits.hpp
index c18b994..3257e6c 100644
--- a/sprout/endian_traits.hpp
+++ b/sprout/endian_traits.hpp
@@ -53,14 +53,14 @@ namespace sprout {
 			static SPROUT_CONSTEXPR unsigned char
 			get_byte(type const& t, std::size_t i) {
 				return static_cast<unsigned char>(
-					(t & (UCHAR_MAX << CHAR_BIT * ((size() - 1) - i)))
-						>> CHAR_BIT * ((size() - 1) - i)
+					(t >> CHAR_BIT * ((size() - 1) - i)) & UCHAR_MAX
 					);
 			}
 			static SPROUT_CXX14_CONSTEXPR void
 			set_byte(type& t, std::size_t i, unsigned char value) {
-				t &= ~(UCHAR_MAX << CHAR_BIT * ((size() - 1) - i));
-				t |= (value << CHAR_BIT * ((size() - 1) - i));
+				typedef typename std::make_unsigned<type>::type unsigned_type;
+				t &= ~(static_cast<unsigned_type>(UCHAR_MAX) << CHAR_BIT * ((size() - 1) - i));
+				t |= (static_cast<unsigned_type>(value) << CHAR_BIT * ((size() - 1) - i));
 			}
 		};
 
@@ -98,14 +98,14 @@ namespace sprout {
 			}
 			static SPROUT_CONSTEXPR unsigned char get_byte(type const& t, std::size_t i) {
 				return static_cast<unsigned char>(
-					(t & (UCHAR_MAX << CHAR_BIT * i))
-						>> CHAR_BIT * i
+					(t >> CHAR_BIT * i) & UCHAR_MAX
 					);
 			}
 			static SPROUT_CXX14_CONSTEXPR void
 			set_byte(type& t, std::size_t i, unsigned char value) {
-				t &= ~(UCHAR_MAX << CHAR_BIT * i);
-				t |= (value << CHAR_BIT * i);
+				typedef typename std::make_unsigned<type>::type unsigned_type;
+				t &= ~(static_cast<unsigned_type>(UCHAR_MAX) << CHAR_BIT * i);
+				t |= (static_cast<unsigned_type>(value) << CHAR_BIT * i);
 			}
 		};
 	}	// namespace detail
-- 
2.43.0


From 958958b4613f69fd03a1e83b74fdf1e5c9b43e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:03 +0000
Subject: [PATCH 039/218] fix: string stream input keeps the characters read

---
 sprout/string/io.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sprout/string/io.hpp b/sprout/string/io.hpp
index aceddb9..8db67e9 100644
--- a/sprout/string/io.hpp
+++ b/sprout/string/io.hpp
@@ -30,7 +30,7 @@ namespace sprout {
 		typedef typename string_type::size_type size_type;
 		std::ios_base::iostate state = std::ios_base::goodbit;
 		bool changed = false;
-		size_type current = 0;
+		rhs.clear();
 		if (typename istream_type::sentry(lhs)) {
 			ctype_type const& ctype_fac = std::use_facet<ctype_type>(lhs.getloc());
 			try {
@@ -46,9 +46,8 @@ namespace sprout {
 					} else if (ctype_fac.is(ctype_type::space, traits_type::to_char_type(meta))) {
 						break;
 					} else {
-						rhs[current] = traits_type::to_char_type(meta);
+						rhs.push_back(traits_type::to_char_type(meta));
 						changed = true;
-						++current;
 					}
 			} catch (...) {
 				state |= std::ios_base::badbit;
@@ -59,7 +58,6 @@ namespace sprout {
 			state |= std::ios_base::failbit;
 		}
 		lhs.setstate(state);
-		rhs.resize(current);
 		return lhs;
 	}
 	template<typename T, std::size_t N, typename Traits, typename StreamTraits>
-- 
2.43.0


From 540e7d407a6f8b972f89378c838aaea829d4bada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:03 +0000
Subject: [PATCH 040/218] fix: string positions: pos == size is valid, pos >
 size throws

---
 sprout/string/string.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index d268f24..f793297 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -363,14 +363,16 @@ namespace sprout {
 		SPROUT_CONSTEXPR basic_string(basic_string const& str, size_type pos, size_type n = npos)
 			: impl_(
 				sprout::make_index_tuple<N>::make(),
-				str, pos, NS_SSCRISK_CEL_OR_SPROUT::min(n, str.size() - pos)
+				str, pos, !(str.size() < pos) ? NS_SSCRISK_CEL_OR_SPROUT::min(n, str.size() - pos)
+					: throw std::out_of_range("basic_string<>: index out of range")
 				)
 		{}
 		template<std::size_t N2, typename Enable = typename std::enable_if<(N2 < N)>::type>
 		SPROUT_CONSTEXPR basic_string(basic_string<T, N2, Traits> const& str, size_type pos, size_type n = npos)
 			: impl_(
 				sprout::make_index_tuple<N2>::make(),
-				str, pos, NS_SSCRISK_CEL_OR_SPROUT::min(n, str.size() - pos)
+				str, pos, !(str.size() < pos) ? NS_SSCRISK_CEL_OR_SPROUT::min(n, str.size() - pos)
+					: throw std::out_of_range("basic_string<>: index out of range")
 				)
 		{}
 		template<std::size_t N2 SPROUT_ENABLE_IF_WITH_ARRAY_IN_TEMPLATE_PARAMS((N2 - 1 <= N))>
@@ -610,7 +612,9 @@ namespace sprout {
 		template<std::size_t N2>
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		append(basic_string<T, N2> const& str, size_type pos, size_type n = npos) {
-			str.rangecheck(pos);
+			if (str.size() < pos) {
+				throw std::out_of_range("basic_string<>: index out of range");
+			}
 			size_type rlen = n != npos
 				? NS_SSCRISK_CEL_OR_SPROUT::min(n, str.size() - pos)
 				: str.size() - pos
@@ -657,7 +661,9 @@ namespace sprout {
 		template<std::size_t N2>
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		assign(basic_string<T, N2, Traits> const& str, size_type pos, size_type n = npos) {
-			str.rangecheck(pos);
+			if (str.size() < pos) {
+				throw std::out_of_range("basic_string<>: index out of range");
+			}
 			size_type rlen = n != npos
 				? NS_SSCRISK_CEL_OR_SPROUT::min(n, str.size() - pos)
 				: str.size() - pos
@@ -727,7 +733,9 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR size_type
 		copy(value_type* s, size_type n, size_type pos = 0) const {
-			rangecheck(pos);
+			if (size() < pos) {
+				throw std::out_of_range("basic_string<>: index out of range");
+			}
 			size_type llen = NS_SSCRISK_CEL_OR_SPROUT::min(n, size() - pos);
 			traits_type::copy(s, begin() + pos, llen);
 			return llen;
@@ -950,7 +958,9 @@ namespace sprout {
 		template<typename StringIterator>
 		SPROUT_CXX14_CONSTEXPR size_type
 		copy(StringIterator s, size_type n, size_type pos = 0) const {
-			rangecheck(pos);
+			if (size() < pos) {
+				throw std::out_of_range("basic_string<>: index out of range");
+			}
 			size_type llen = NS_SSCRISK_CEL_OR_SPROUT::min(n, size() - pos);
 			traits_type::copy(s, begin() + pos, llen);
 			return llen;
-- 
2.43.0


From 68fb68622c88dc12e55db1b52640e0ae13029c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:10 +0000
Subject: [PATCH 041/218] fix: assigning a string a part of itself

---
 sprout/string/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index f793297..714af48 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -673,7 +673,7 @@ namespace sprout {
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		assign(value_type const* s, size_type n) {
 			lengthcheck(n);
-			traits_type::move(begin(), s, n);
+			traits_type::copy(begin(), s, n);
 			put_terminator(n);
 			return *this;
 		}
@@ -941,7 +941,7 @@ namespace sprout {
 		>::type
 		assign(StringConstIterator s, size_type n) {
 			lengthcheck(n);
-			traits_type::move(begin(), s, n);
+			traits_type::copy(begin(), s, n);
 			put_terminator(n);
 			return *this;
 		}
-- 
2.43.0


From c0b44ae858300881fa8193fb11a802580c51d12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:10 +0000
Subject: [PATCH 042/218] fix: string assign/append from input iterators stop
 at the capacity

---
 sprout/string/string.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index 714af48..e16b0fc 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -306,7 +306,8 @@ namespace sprout {
 		assign(InputIterator first, InputIterator last, std::input_iterator_tag*) {
 			iterator it = begin();
 			for (; first != last; ++first, ++it) {
-				if (sprout::distance(begin(), it) > max_size()) {
+				if (!(static_cast<size_type>(sprout::distance(begin(), it)) < max_size())) {
+					traits_type::assign(end(), max_size() - size(), value_type());
 					throw std::length_error("basic_string<>: length exceeded");
 				}
 				traits_type::assign(*it, *first);
@@ -330,7 +331,8 @@ namespace sprout {
 		append(InputIterator first, InputIterator last, std::input_iterator_tag*) {
 			iterator it = end();
 			for (; first != last; ++first, ++it) {
-				if (sprout::distance(begin(), it) > max_size()) {
+				if (!(static_cast<size_type>(sprout::distance(begin(), it)) < max_size())) {
+					traits_type::assign(end(), max_size() - size(), value_type());
 					throw std::length_error("basic_string<>: length exceeded");
 				}
 				traits_type::assign(*it, *first);
-- 
2.43.0


From 3ddf92af98c37625da848d0a98a6916c9bc97238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:45 +0000
Subject: [PATCH 043/218] fix: string.hpp compiles with temporary-container
 iteration disabled

---
 sprout/string/string.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index e16b0fc..ba4a2e6 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -1124,13 +1124,13 @@ namespace sprout {
 				;
 		}
 		SPROUT_CONSTEXPR const_iterator
-		th(size_type i) const {
+		nth(size_type i) const {
 			return i < size()
 				? data() + i
 				: (throw std::out_of_range("basic_string<>: index out of range"), const_iterator())
 				;
-		}SPROUT_CXX14_CONSTEXPR
-		SPROUT_CONSTEXPR size_type
+		}
+		SPROUT_CXX14_CONSTEXPR size_type
 		index_of(iterator p) SPROUT_NOEXCEPT {
 			return sprout::distance(begin(), p);
 		}
-- 
2.43.0


From dd7617c5956e9453a20d665148b521c1dc536d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:06 +0000
Subject: [PATCH 044/218] fix: mem* functions accept pointers to any object,
 not only unsigned char

---
 sprout/cstring/memchr.hpp  | 4 ++--
 sprout/cstring/memcmp.hpp  | 2 +-
 sprout/cstring/memcpy.hpp  | 2 +-
 sprout/cstring/memmove.hpp | 2 +-
 sprout/cstring/memset.hpp  | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sprout/cstring/memchr.hpp b/sprout/cstring/memchr.hpp
index ec550f5..2e4f281 100644
--- a/sprout/cstring/memchr.hpp
+++ b/sprout/cstring/memchr.hpp
@@ -72,7 +72,7 @@ namespace sprout {
 	>
 	inline SPROUT_CONSTEXPR void const*
 	memchr(T s, int c, std::size_t n) {
-		return sprout::detail::memchr(static_cast<unsigned char const*>(s), static_cast<unsigned char>(c), n);
+		return sprout::detail::memchr((unsigned char const*)(s), static_cast<unsigned char>(c), n);
 	}
 
 	template<
@@ -81,7 +81,7 @@ namespace sprout {
 	>
 	inline SPROUT_CONSTEXPR void*
 	memchr(T s, int c, std::size_t n) {
-		return sprout::detail::memchr(static_cast<unsigned char*>(s), static_cast<unsigned char>(c), n);
+		return sprout::detail::memchr((unsigned char*)(s), static_cast<unsigned char>(c), n);
 	}
 }	// namespace sprout
 
diff --git a/sprout/cstring/memcmp.hpp b/sprout/cstring/memcmp.hpp
index b09b266..85ab731 100644
--- a/sprout/cstring/memcmp.hpp
+++ b/sprout/cstring/memcmp.hpp
@@ -44,7 +44,7 @@ namespace sprout {
 	>
 	inline SPROUT_CONSTEXPR int
 	memcmp(T s1, T s2, std::size_t n) {
-		return sprout::detail::memcmp(static_cast<unsigned char const*>(s1), static_cast<unsigned char const*>(s2), n);
+		return sprout::detail::memcmp((unsigned char const*)(s1), (unsigned char const*)(s2), n);
 	}
 }	// namespace sprout
 
diff --git a/sprout/cstring/memcpy.hpp b/sprout/cstring/memcpy.hpp
index 37cf503..98ef1b4 100644
--- a/sprout/cstring/memcpy.hpp
+++ b/sprout/cstring/memcpy.hpp
@@ -32,7 +32,7 @@ namespace sprout {
 	>
 	inline SPROUT_CXX14_CONSTEXPR void*
 	memcpy(T s1, CT s2, std::size_t n) {
-		return sprout::detail::memcpy(static_cast<unsigned char*>(s1), static_cast<unsigned char const*>(s2), n);
+		return sprout::detail::memcpy((unsigned char*)(s1), (unsigned char const*)(s2), n);
 	}
 }	// namespace sprout
 
diff --git a/sprout/cstring/memmove.hpp b/sprout/cstring/memmove.hpp
index 30839a6..e53a75e 100644
--- a/sprout/cstring/memmove.hpp
+++ b/sprout/cstring/memmove.hpp
@@ -32,7 +32,7 @@ namespace sprout {
 	>
 	inline SPROUT_CXX14_CONSTEXPR void*
 	memmove(T s1, CT s2, std::size_t n) {
-		return sprout::detail::memmove(static_cast<unsigned char*>(s1), static_cast<unsigned char const*>(s2), n);
+		return sprout::detail::memmove((unsigned char*)(s1), (unsigned char const*)(s2), n);
 	}
 }	// namespace sprout
 
diff --git a/sprout/cstring/memset.hpp b/sprout/cstring/memset.hpp
index 60b7045..764e2e5 100644
--- a/sprout/cstring/memset.hpp
+++ b/sprout/cstring/memset.hpp
@@ -32,7 +32,7 @@ namespace sprout {
 	>
 	inline SPROUT_CXX14_CONSTEXPR void*
 	memset(T s, int c, std::size_t n) {
-		return sprout::detail::memset(static_cast<unsigned char*>(s), static_cast<unsigned char>(c), n);
+		return sprout::detail::memset((unsigned char*)(s), static_cast<unsigned char>(c), n);
 	}
 }	// namespace sprout
 
-- 
2.43.0


From 5684a3506fcc7530dbc88debd594737ac1b4e9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:06 +0000
Subject: [PATCH 045/218] fix: memmove writes into the destination and handles
 both overlaps

---
 sprout/cstring/memmove.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sprout/cstring/memmove.hpp b/sprout/cstring/memmove.hpp
index e53a75e..bb5a5e3 100644
--- a/sprout/cstring/memmove.hpp
+++ b/sprout/cstring/memmove.hpp
@@ -19,7 +19,11 @@ namespace sprout {
 		template<typename PtrIterator, typename ConstPtrIterator>
 		inline SPROUT_CXX14_CONSTEXPR PtrIterator
 		memmove(PtrIterator s1, ConstPtrIterator s2, std::size_t n) {
-			sprout::copy_backward(s2, s2 + n, s1);
+			if (s1 < s2) {
+				sprout::copy(s2, s2 + n, s1);
+			} else {
+				sprout::copy_backward(s2, s2 + n, s1 + n);
+			}
 			return s1;
 		}
 	}	// namespace detail
-- 
2.43.0


From 8e64b2fb919bb30437d938e01bd460ef227c622c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:07 +0000
Subject: [PATCH 046/218] fix: strcat appends over the terminator

---
 sprout/cstring/strcat.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sprout/cstring/strcat.hpp b/sprout/cstring/strcat.hpp
index 8fb224a..6145231 100644
--- a/sprout/cstring/strcat.hpp
+++ b/sprout/cstring/strcat.hpp
@@ -16,8 +16,9 @@ namespace sprout {
 		inline SPROUT_CXX14_CONSTEXPR OutputNullTerminatedIterator
 		strcat(OutputNullTerminatedIterator s1, NullTerminatedIterator s2) {
 			OutputNullTerminatedIterator result = s1;
-			while (*s1++)
-				;
+			while (*s1) {
+				++s1;
+			}
 			while ((*s1++ = *s2++))
 				;
 			return result;
-- 
2.43.0


From a977622296bb20b3eb8562f017a28b350bd5be03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:07 +0000
Subject: [PATCH 047/218] fix: strncat writes one terminator only

---
 sprout/cstring/strncat.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sprout/cstring/strncat.hpp b/sprout/cstring/strncat.hpp
index 8b8167c..3df4651 100644
--- a/sprout/cstring/strncat.hpp
+++ b/sprout/cstring/strncat.hpp
@@ -21,11 +21,9 @@ namespace sprout {
 			while (*s1) {
 				++s1;
 			}
-			while (n) {
+			while (n && *s2) {
 				--n;
-				if (!(*s1++ = *s2++)) {
-					break;
-				}
+				*s1++ = *s2++;
 			}
 			*s1 = value_type();
 			return result;
-- 
2.43.0


From b25d9514a599345febc384ecc99a7b19e189bf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:07 +0000
Subject: [PATCH 048/218] fix: string_view::substr does not reach past the end

---
 sprout/utility/string_view/string_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/utility/string_view/string_view.hpp b/sprout/utility/string_view/string_view.hpp
index 0618b92..a9a619c 100644
--- a/sprout/utility/string_view/string_view.hpp
+++ b/sprout/utility/string_view/string_view.hpp
@@ -367,7 +367,7 @@ namespace sprout {
 		substr(size_type pos = 0, size_type n = npos) const {
 			return !(size() < pos) ? n == npos
 					? substr(pos, size() - pos)
-					: basic_string_view(c_str() + pos, n)
+					: basic_string_view(c_str() + pos, NS_SSCRISK_CEL_OR_SPROUT::min(n, size() - pos))
 				: throw std::out_of_range("basic_string_view<>: index out of range")
 				;
 		}
-- 
2.43.0


From 6fd83eb31d5b71f67a38c0e58607106e5e094bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:07 +0000
Subject: [PATCH 049/218] fix: string_view find_first/last_not_of with an
 iterator compile

---
 sprout/utility/string_view/string_view.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/utility/string_view/string_view.hpp b/sprout/utility/string_view/string_view.hpp
index a9a619c..86e88d6 100644
--- a/sprout/utility/string_view/string_view.hpp
+++ b/sprout/utility/string_view/string_view.hpp
@@ -522,7 +522,7 @@ namespace sprout {
 			size_type
 		>::type
 		find_first_not_of(ConstIterator s, size_type pos = 0) const {
-			return sprout::string_detail::find_first_not_of_impl<basic_string_view>(s, pos, traits_type::length(s));
+			return find_first_not_of(s, pos, traits_type::length(s));
 		}
 		template<typename ConstIterator>
 		SPROUT_CONSTEXPR typename std::enable_if<
@@ -538,7 +538,7 @@ namespace sprout {
 			size_type
 		>::type
 		find_last_not_of(ConstIterator s, size_type pos = npos) const {
-			return sprout::string_detail::find_last_not_of_impl<basic_string_view>(s, pos, traits_type::length(s));
+			return find_last_not_of(s, pos, traits_type::length(s));
 		}
 		template<typename ConstIterator>
 		SPROUT_CONSTEXPR typename std::enable_if<
-- 
2.43.0


From 3ecde22ef9c50f3780a207b00e6e2b95a2104557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:07 +0000
Subject: [PATCH 050/218] fix: string_view find_last_of with an iterator
 searches from the end by default

---
 sprout/utility/string_view/string_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/utility/string_view/string_view.hpp b/sprout/utility/string_view/string_view.hpp
index 86e88d6..d4cb065 100644
--- a/sprout/utility/string_view/string_view.hpp
+++ b/sprout/utility/string_view/string_view.hpp
@@ -505,7 +505,7 @@ namespace sprout {
 			is_string_view_iterator<ConstIterator>::value,
 			size_type
 		>::type
-		find_last_of(ConstIterator s, size_type pos = 0) const {
+		find_last_of(ConstIterator s, size_type pos = npos) const {
 			return find_last_of(s, pos, traits_type::length(s));
 		}
 		template<typename ConstIterator>
-- 
2.43.0


From b7e9bd6b178f06b0269133d4fe4aecd6926177e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:44 +0000
Subject: [PATCH 051/218] fix: memmove between unrelated arrays in constant
 expressions

---
 sprout/cstring/memmove.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sprout/cstring/memmove.hpp b/sprout/cstring/memmove.hpp
index bb5a5e3..cbb5c65 100644
--- a/sprout/cstring/memmove.hpp
+++ b/sprout/cstring/memmove.hpp
@@ -12,6 +12,7 @@
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
+#include <sprout/algorithm/cxx14/copy.hpp>
 #include <sprout/algorithm/cxx14/copy_backward.hpp>
 
 namespace sprout {
@@ -19,10 +20,14 @@ namespace sprout {
 		template<typename PtrIterator, typename ConstPtrIterator>
 		inline SPROUT_CXX14_CONSTEXPR PtrIterator
 		memmove(PtrIterator s1, ConstPtrIterator s2, std::size_t n) {
-			if (s1 < s2) {
-				sprout::copy(s2, s2 + n, s1);
-			} else {
+			bool overlapped = false;
+			for (std::size_t i = 0; i != n && !overlapped; ++i) {
+				overlapped = s2 + i == s1;
+			}
+			if (overlapped) {
 				sprout::copy_backward(s2, s2 + n, s1 + n);
+			} else {
+				sprout::copy(s2, s2 + n, s1);
 			}
 			return s1;
 		}
-- 
2.43.0


From 0f47b511b9a53fb07ea3454428adea926e8cdc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:44 +0000
Subject: [PATCH 052/218] fix: strcmp and strncmp compare characters as
 unsigned char

---
 sprout/cstring/strcmp.hpp  | 21 +++++++++++++++++++--
 sprout/cstring/strncmp.hpp |  7 +++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/sprout/cstring/strcmp.hpp b/sprout/cstring/strcmp.hpp
index 944c9d5..89be39b 100644
--- a/sprout/cstring/strcmp.hpp
+++ b/sprout/cstring/strcmp.hpp
@@ -19,6 +19,23 @@
 
 namespace sprout {
 	namespace detail {
+		//
+		// str_less
+		//	char is compared as unsigned char
+		//
+		struct str_less {
+		public:
+			template<typename T, typename U>
+			SPROUT_CONSTEXPR bool
+			operator()(T const& x, U const& y) const {
+				return x < y;
+			}
+			SPROUT_CONSTEXPR bool
+			operator()(char const& x, char const& y) const {
+				return static_cast<unsigned char>(x) < static_cast<unsigned char>(y);
+			}
+		};
+
 		template<typename InputIterator1, typename InputIterator2>
 		inline SPROUT_CONSTEXPR int
 		strcmp_impl_check(sprout::tuples::tuple<InputIterator1, InputIterator2, int> const& found) {
@@ -36,8 +53,8 @@ namespace sprout {
 		{
 			typedef sprout::tuples::tuple<InputIterator1, InputIterator2, int> type;
 			return sprout::tuples::get<2>(current) || !*sprout::tuples::get<1>(current) || !*sprout::tuples::get<0>(current) ? current
-				: n == 1 ? (*sprout::tuples::get<0>(current)) < (*sprout::tuples::get<1>(current)) ? type(sprout::tuples::get<0>(current), sprout::tuples::get<1>(current), -1)
-					: (*sprout::tuples::get<1>(current)) < (*sprout::tuples::get<0>(current)) ? type(sprout::tuples::get<0>(current), sprout::tuples::get<1>(current), 1)
+				: n == 1 ? sprout::detail::str_less()(*sprout::tuples::get<0>(current), *sprout::tuples::get<1>(current)) ? type(sprout::tuples::get<0>(current), sprout::tuples::get<1>(current), -1)
+					: sprout::detail::str_less()(*sprout::tuples::get<1>(current), *sprout::tuples::get<0>(current)) ? type(sprout::tuples::get<0>(current), sprout::tuples::get<1>(current), 1)
 					: type(sprout::next(sprout::tuples::get<0>(current)), sprout::next(sprout::tuples::get<1>(current)), 0)
 				: sprout::detail::strcmp_impl_1(
 					sprout::detail::strcmp_impl_1(
diff --git a/sprout/cstring/strncmp.hpp b/sprout/cstring/strncmp.hpp
index eaa463f..bcc4d30 100644
--- a/sprout/cstring/strncmp.hpp
+++ b/sprout/cstring/strncmp.hpp
@@ -13,6 +13,7 @@
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/iterator/ptr_index_iterator.hpp>
 #include <sprout/type_traits/is_char_type.hpp>
+#include <sprout/cstring/strcmp.hpp>
 #include <sprout/algorithm/tristate_lexicographical_compare.hpp>
 
 namespace sprout {
@@ -26,7 +27,8 @@ namespace sprout {
 	strncmp(char const* s1, char const* s2, std::size_t n) {
 		return sprout::tristate_lexicographical_compare(
 			sprout::ptr_index(s1), sprout::ptr_index(s1, n), '\0',
-			sprout::ptr_index(s2), sprout::ptr_index(s2, n), '\0'
+			sprout::ptr_index(s2), sprout::ptr_index(s2, n), '\0',
+			sprout::detail::str_less()
 			);
 	}
 
@@ -39,7 +41,8 @@ namespace sprout {
 		typedef typename std::decay<Elem>::type type;
 		return sprout::tristate_lexicographical_compare(
 			sprout::ptr_index(s1), sprout::ptr_index(s1, n), type(),
-			sprout::ptr_index(s2), sprout::ptr_index(s2, n), type()
+			sprout::ptr_index(s2), sprout::ptr_index(s2, n), type(),
+			sprout::detail::str_less()
 			);
 	}
 }	// namespace sprout
-- 
2.43.0


From 6748f75eb2d537551fb7b7c2d56c1a6078e087d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:40 +0000
Subject: [PATCH 053/218] fix: strstr finds the empty string in the empty
 string

---
 sprout/cstring/strstr.hpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/sprout/cstring/strstr.hpp b/sprout/cstring/strstr.hpp
index e860257..857dff4 100644
--- a/sprout/cstring/strstr.hpp
+++ b/sprout/cstring/strstr.hpp
@@ -135,15 +135,19 @@ namespace sprout {
 	//
 	inline SPROUT_CONSTEXPR char const*
 	strstr(char const* s1, char const* s2) {
-		return sprout::detail::str_find_check(
-			sprout::detail::strstr(s1, s2)
-			);
+		return !*s2 ? s1
+			: sprout::detail::str_find_check(
+				sprout::detail::strstr(s1, s2)
+				)
+			;
 	}
 	inline SPROUT_CONSTEXPR char*
 	strstr(char* s1, char const* s2) {
-		return sprout::detail::str_find_check(
-			sprout::detail::strstr(s1, s2)
-			);
+		return !*s2 ? s1
+			: sprout::detail::str_find_check(
+				sprout::detail::strstr(s1, s2)
+				)
+			;
 	}
 
 	template<typename Elem>
@@ -152,9 +156,11 @@ namespace sprout {
 		Elem*
 	>::type
 	strstr(Elem* s1, typename std::remove_const<Elem>::type const* s2) {
-		return sprout::detail::str_find_check(
-			sprout::detail::strstr(s1, s2)
-			);
+		return !*s2 ? s1
+			: sprout::detail::str_find_check(
+				sprout::detail::strstr(s1, s2)
+				)
+			;
 	}
 }	// namespace sprout
 
-- 
2.43.0


From 4d93df719fed4e6038f6cec10ee700da6fd22a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:41 +0000
Subject: [PATCH 054/218] fix: string_view::copy accepts pos == size()

---
 sprout/utility/string_view/string_view.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sprout/utility/string_view/string_view.hpp b/sprout/utility/string_view/string_view.hpp
index d4cb065..aa2c7f7 100644
--- a/sprout/utility/string_view/string_view.hpp
+++ b/sprout/utility/string_view/string_view.hpp
@@ -358,7 +358,9 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR size_type
 		copy(value_type* s, size_type n, size_type pos = 0) const {
-			rangecheck(pos);
+			if (size() < pos) {
+				throw std::out_of_range("basic_string_view<>: index out of range");
+			}
 			size_type llen = NS_SSCRISK_CEL_OR_SPROUT::min(n, size() - pos);
 			traits_type::copy(s, begin() + pos, llen);
 			return llen;
-- 
2.43.0


From 95c5449ad39d8124fbddaf1b98f796163d3f3de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:10 +0000
Subject: [PATCH 055/218] fix: SPROUT_ENABLE_ASSERT_HANDLER compiles

---
 sprout/assert.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sprout/assert.hpp b/sprout/assert.hpp
index c03f300..0638f1c 100644
--- a/sprout/assert.hpp
+++ b/sprout/assert.hpp
@@ -14,6 +14,8 @@
 #	include <sprout/preprocessor/cat.hpp>
 #	include <sprout/preprocessor/variadic/size.hpp>
 #elif defined(SPROUT_ENABLE_ASSERT_HANDLER)
+#	include <cstdlib>
+#	include <iostream>
 #	include <sprout/config.hpp>
 #	include <sprout/preprocessor/config.hpp>
 #	include <sprout/preprocessor/cat.hpp>
@@ -83,8 +85,8 @@ namespace sprout {
 	// assertion_failed_msg_default
 	//
 	inline SPROUT_NON_CONSTEXPR bool
-	assertion_failed_default(sprout::assertion_info_msg const& info) {
-		return (std::cerr << "***** Internal Program Error - assertion (" << info.expr() << ") failed: " << info.file() << "(" << info.line() << ")" << ": " << msg << std::endl),
+	assertion_failed_msg_default(sprout::assertion_info_msg const& info) {
+		return (std::cerr << "***** Internal Program Error - assertion (" << info.expr() << ") failed: " << info.file() << "(" << info.line() << ")" << ": " << info.msg() << std::endl),
 			std::abort(), false
 			;
 	}
@@ -217,7 +219,7 @@ namespace sprout {
 	}	// namespace detail
 }	// namespace sprout
 
-#	define SPROUT_ASSERT_1(expr) \
+#	define SPROUT_ASSERT_1(expr) ( \
 		(void)sprout::detail::assertion_check( \
 			(expr), SPROUT_ASSERTION_FAILED_FORMAT(expr, __FILE__, __LINE__), \
 			#expr, "(unknown)"/*SPROUT_CURRENT_FUNCTION*/, __FILE__, __LINE__ \
-- 
2.43.0


From e0cc3882500847c71c888163c292c75abef8fbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:10 +0000
Subject: [PATCH 056/218] fix: optional can be iterated backwards

---
 sprout/optional/optional.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sprout/optional/optional.hpp b/sprout/optional/optional.hpp
index 73ec217..fbf1b78 100644
--- a/sprout/optional/optional.hpp
+++ b/sprout/optional/optional.hpp
@@ -371,10 +371,14 @@ namespace sprout {
 				;
 		}
 		SPROUT_CXX14_CONSTEXPR iterator end() SPROUT_NOEXCEPT {
-			return iterator();
+			return is_initialized() ? iterator(val, 0)
+				: iterator()
+				;
 		}
 		SPROUT_CONSTEXPR const_iterator end() const SPROUT_NOEXCEPT {
-			return const_iterator();
+			return is_initialized() ? const_iterator(val, 0)
+				: const_iterator()
+				;
 		}
 		SPROUT_CXX14_CONSTEXPR reverse_iterator rbegin() SPROUT_NOEXCEPT {
 			return reverse_iterator(end());
@@ -394,7 +398,9 @@ namespace sprout {
 				;
 		}
 		SPROUT_CONSTEXPR const_iterator cend() const SPROUT_NOEXCEPT {
-			return const_iterator();
+			return is_initialized() ? const_iterator(val, 0)
+				: const_iterator()
+				;
 		}
 		SPROUT_CONSTEXPR const_reverse_iterator crbegin() const SPROUT_NOEXCEPT {
 			return const_reverse_iterator(end());
-- 
2.43.0


From 5507b6db610937580ef74eaa93e70aaaab797748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:39 +0000
Subject: [PATCH 057/218] fix: optional of a reference can be iterated

---
 sprout/optional/optional.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sprout/optional/optional.hpp b/sprout/optional/optional.hpp
index fbf1b78..c07b99e 100644
--- a/sprout/optional/optional.hpp
+++ b/sprout/optional/optional.hpp
@@ -361,22 +361,22 @@ namespace sprout {
 		}
 		// iterators:
 		SPROUT_CXX14_CONSTEXPR iterator begin() {
-			return is_initialized() ? iterator(val, static_size)
+			return is_initialized() ? iterator(val.get(), static_size)
 				: iterator()
 				;
 		}
 		SPROUT_CONSTEXPR const_iterator begin() const {
-			return is_initialized() ? const_iterator(val, static_size)
+			return is_initialized() ? const_iterator(val.get(), static_size)
 				: const_iterator()
 				;
 		}
 		SPROUT_CXX14_CONSTEXPR iterator end() SPROUT_NOEXCEPT {
-			return is_initialized() ? iterator(val, 0)
+			return is_initialized() ? iterator(val.get(), 0)
 				: iterator()
 				;
 		}
 		SPROUT_CONSTEXPR const_iterator end() const SPROUT_NOEXCEPT {
-			return is_initialized() ? const_iterator(val, 0)
+			return is_initialized() ? const_iterator(val.get(), 0)
 				: const_iterator()
 				;
 		}
@@ -393,12 +393,12 @@ namespace sprout {
 			return const_reverse_iterator(begin());
 		}
 		SPROUT_CONSTEXPR const_iterator cbegin() const SPROUT_NOEXCEPT {
-			return is_initialized() ? const_iterator(val, static_size)
+			return is_initialized() ? const_iterator(val.get(), static_size)
 				: const_iterator()
 				;
 		}
 		SPROUT_CONSTEXPR const_iterator cend() const SPROUT_NOEXCEPT {
-			return is_initialized() ? const_iterator(val, 0)
+			return is_initialized() ? const_iterator(val.get(), 0)
 				: const_iterator()
 				;
 		}
-- 
2.43.0


From 7f7f1d2a262c6d40dcf9238eacbf40f308bdcc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:39 +0000
Subject: [PATCH 058/218] fix: optional of a reference can be moved

---
 sprout/optional/optional.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/optional/optional.hpp b/sprout/optional/optional.hpp
index c07b99e..cb4958c 100644
--- a/sprout/optional/optional.hpp
+++ b/sprout/optional/optional.hpp
@@ -125,7 +125,7 @@ namespace sprout {
 		SPROUT_CONSTEXPR optional(optional&& v)
 		SPROUT_NOEXCEPT_IF(std::is_nothrow_move_constructible<T>::value)
 			: init(v.init)
-			, val(v.is_initialized() ? holder_type(sprout::move(get(v))) : holder_type())
+			, val(v.is_initialized() ? holder_type(get(sprout::move(v))) : holder_type())
 		{}
 #endif
 		SPROUT_CONSTEXPR optional(T const& v)
@@ -170,7 +170,7 @@ namespace sprout {
 		template<typename U>
 		explicit SPROUT_CONSTEXPR optional(optional<U>&& v)
 			: init(v.is_initialized())
-			, val(v.is_initialized() ? holder_type(sprout::move(optional<U>::get(v))) : holder_type())
+			, val(v.is_initialized() ? holder_type(optional<U>::get(sprout::move(v))) : holder_type())
 		{}
 		// 20.6.4.3, assignment
 		SPROUT_CXX14_CONSTEXPR optional& operator=(sprout::nullopt_t v) SPROUT_NOEXCEPT {
-- 
2.43.0


From ce2e2d53341d571a88b09d0aa9cf6d44c43a70fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:39 +0000
Subject: [PATCH 059/218] fix: references can be emplaced

---
 sprout/utility/value_holder/value_holder.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sprout/utility/value_holder/value_holder.hpp b/sprout/utility/value_holder/value_holder.hpp
index 10ece35..9822032 100644
--- a/sprout/utility/value_holder/value_holder.hpp
+++ b/sprout/utility/value_holder/value_holder.hpp
@@ -238,6 +238,13 @@ namespace sprout {
 		explicit SPROUT_CONSTEXPR value_holder(sprout::in_place_t, Args&&... args)
 			: holder_(SPROUT_FORWARD(Args, args)...)
 		{}
+		template<
+			typename Arg,
+			typename = typename std::enable_if<std::is_reference<T>::value && is_constructible_args<Arg>::value>::type
+		>
+		explicit SPROUT_CONSTEXPR value_holder(sprout::in_place_t, Arg&& arg)
+			: holder_(helper_type::hold(SPROUT_FORWARD(Arg, arg)))
+		{}
 		template<
 			typename U, typename... Args,
 			typename = typename std::enable_if<is_constructible_args<std::initializer_list<U>&, Args...>::value>::type
-- 
2.43.0


From 146547394b02ee6cb1ed84beae31bb8963227f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:49 +0000
Subject: [PATCH 060/218] fix: variant can be copied from a non-const variant

---
 sprout/variant/variant.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sprout/variant/variant.hpp b/sprout/variant/variant.hpp
index f8917a6..1c86521 100644
--- a/sprout/variant/variant.hpp
+++ b/sprout/variant/variant.hpp
@@ -231,7 +231,10 @@ namespace sprout {
 		{}
 		variant(variant const&) = default;
 		variant(variant&&) = default;
-		template<typename T>
+		template<
+			typename T,
+			typename = typename std::enable_if<!std::is_same<typename std::decay<T>::type, variant>::value>::type
+		>
 		SPROUT_CONSTEXPR variant(T&& operand)
 			: impl_type(
 				SPROUT_FORWARD(T, operand),
@@ -254,7 +257,10 @@ namespace sprout {
 			static_cast<impl_type&>(*this) = sprout::move(rhs);
 			return *this;
 		}
-		template<typename T>
+		template<
+			typename T,
+			typename = typename std::enable_if<!std::is_same<typename std::decay<T>::type, variant>::value>::type
+		>
 		SPROUT_CXX14_CONSTEXPR variant& operator=(T&& rhs) {
 			static_cast<impl_type&>(*this) = variant(SPROUT_FORWARD(T, rhs));
 			return *this;
-- 
2.43.0


From 0277b6d9173dc5eea83e60b30294cd9471dc3592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:41 +0000
Subject: [PATCH 061/218] fix: compute descending integer ranges in the element
 type

---
 sprout/index_tuple/integer_range.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/index_tuple/integer_range.hpp b/sprout/index_tuple/integer_range.hpp
index d264c18..c1a35c4 100644
--- a/sprout/index_tuple/integer_range.hpp
+++ b/sprout/index_tuple/integer_range.hpp
@@ -27,14 +27,14 @@ namespace sprout {
 		struct integer_range_next_even;
 		template<typename T, T... Is, T Next>
 		struct integer_range_next_even<T, sprout::integer_sequence<T, Is...>, Next>
-			: public sprout::integer_sequence<T, Is..., (Is + Next)...>
+			: public sprout::integer_sequence<T, Is..., static_cast<T>(Is + Next)...>
 		{};
 
 		template<typename T, typename Seq, T Next, T Tail>
 		struct integer_range_next_odd;
 		template<typename T, T... Is, T Next, T Tail>
 		struct integer_range_next_odd<T, sprout::integer_sequence<T, Is...>, Next, Tail>
-			: public sprout::integer_sequence<T, Is..., (Is + Next)..., Tail>
+			: public sprout::integer_sequence<T, Is..., static_cast<T>(Is + Next)..., Tail>
 		{};
 
 		template<typename T, T First, typename std::make_signed<T>::type Step, typename std::make_unsigned<T>::type N, typename Enable = void>
@@ -60,7 +60,7 @@ namespace sprout {
 		>
 			: public sprout::detail::integer_range_next_even<
 				T, typename sprout::detail::integer_range_dispatch<T, First, Step, N / 2>::type,
-				N / 2 * Step
+				static_cast<T>(N / 2 * Step)
 			>
 		{};
 		template<typename T, T First, typename std::make_signed<T>::type Step, typename std::make_unsigned<T>::type N>
@@ -70,7 +70,7 @@ namespace sprout {
 		>
 			: public sprout::detail::integer_range_next_odd<
 				T, typename sprout::detail::integer_range_dispatch<T, First, Step, N / 2>::type,
-				N / 2 * Step, First + (N - 1) * Step
+				static_cast<T>(N / 2 * Step), static_cast<T>(First + (N - 1) * Step)
 			>
 		{};
 		template<typename T, T First, T Last, typename std::make_signed<T>::type Step, typename Enable = void>
-- 
2.43.0


From b80255a4b8ea32a3300ae5689b45df821a8b9883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:41 +0000
Subject: [PATCH 062/218] fix: let hash_combine take no values

---
 sprout/functional/hash/hash_combine.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sprout/functional/hash/hash_combine.hpp b/sprout/functional/hash/hash_combine.hpp
index 6a9ae81..793a48e 100644
--- a/sprout/functional/hash/hash_combine.hpp
+++ b/sprout/functional/hash/hash_combine.hpp
@@ -15,7 +15,6 @@
 
 namespace sprout {
 	namespace detail {
-		template<typename T>
 		inline SPROUT_CONSTEXPR std::size_t
 		hash_combine_impl(std::size_t seed) {
 			return seed;
-- 
2.43.0


From e70e31ab552664f4df77f82be649bb217aeed3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:46 +0000
Subject: [PATCH 063/218] fix: let get on an rvalue tuple of references return
 the reference

---
 sprout/tuple/tuple/tuple_decl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/tuple/tuple/tuple_decl.hpp b/sprout/tuple/tuple/tuple_decl.hpp
index 4110cdf..b02c3b9 100644
--- a/sprout/tuple/tuple/tuple_decl.hpp
+++ b/sprout/tuple/tuple/tuple_decl.hpp
@@ -64,7 +64,7 @@ namespace sprout {
 				}
 				static SPROUT_CONSTEXPR value_type&&
 				get(element_holder&& t) {
-					return sprout::move(t.value_);
+					return static_cast<value_type&&>(t.value_);
 				}
 				static SPROUT_CONSTEXPR value_type const&
 				get(element_holder const& t) {
-- 
2.43.0


From a42f0b08b4695bfc69ae3030915b99a95cc3e99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:11 +0000
Subject: [PATCH 064/218] x

fix: join concatenated type lists from the left
---
 sprout/type/operation/tuple_cat.hpp | 38 +++++++++--------------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/sprout/type/operation/tuple_cat.hpp b/sprout/type/operation/tuple_cat.hpp
index 3144ed4..f110106 100644
--- a/sprout/type/operation/tuple_cat.hpp
+++ b/sprout/type/operation/tuple_cat.hpp
@@ -25,41 +25,27 @@ namespace sprout {
 		// tuple_cat
 		//
 		namespace detail {
-			template<typename Tuples, typename LIndexTuple, typename RIndexTuple>
+			template<typename... Tuples>
 			struct tuple_cat_impl;
-			template<typename Tuples, sprout::index_t... LIndexes, sprout::index_t... RIndexes>
-			struct tuple_cat_impl<Tuples, sprout::index_tuple<LIndexes...>, sprout::index_tuple<RIndexes...> >
-				: public sprout::types::apply<
-					sprout::types::joint_types<
-						typename sprout::types::detail::tuple_cat_impl<
-							sprout::types::type_tuple<typename sprout::types::tuple_element<LIndexes, Tuples>::type...>,
-							typename sprout::index_range<0, sizeof...(LIndexes) / 2>::type,
-							typename sprout::index_range<sizeof...(LIndexes) / 2, sizeof...(LIndexes)>::type
-						>::type
-					>,
-					typename sprout::types::detail::tuple_cat_impl<
-						sprout::types::type_tuple<typename sprout::types::tuple_element<RIndexes, Tuples>::type...>,
-						typename sprout::index_range<0, sizeof...(RIndexes) / 2>::type,
-						typename sprout::index_range<sizeof...(RIndexes) / 2, sizeof...(RIndexes)>::type
-					>::type
+			template<typename Tuple1, typename Tuple2, typename... Tail>
+			struct tuple_cat_impl<Tuple1, Tuple2, Tail...>
+				: public sprout::types::detail::tuple_cat_impl<
+					typename sprout::types::apply<sprout::types::joint_types<Tuple1>, Tuple2>::type,
+					Tail...
 				>
 			{};
-			template<typename Tuples>
-			struct tuple_cat_impl<Tuples, sprout::index_tuple<>, sprout::index_tuple<0> >
-				: public sprout::types::tuple_element<0, Tuples>
+			template<typename Tuple>
+			struct tuple_cat_impl<Tuple>
+				: public sprout::identity<Tuple>
 			{};
-			template<typename Tuples>
-			struct tuple_cat_impl<Tuples, sprout::index_tuple<>, sprout::index_tuple<> >
+			template<>
+			struct tuple_cat_impl<>
 				: public sprout::identity<sprout::types::type_tuple<> >
 			{};
 		}	// namespace detail
 		template<typename... Tuples>
 		struct tuple_cat
-			: public sprout::types::detail::tuple_cat_impl<
-				sprout::types::type_tuple<Tuples...>,
-				typename sprout::index_range<0, sizeof...(Tuples) / 2>::type,
-				typename sprout::index_range<sizeof...(Tuples) / 2, sizeof...(Tuples)>::type
-			>
+			: public sprout::types::detail::tuple_cat_impl<Tuples...>
 		{};
 	}	// namespace types
 }	// namespace sprout
-- 
2.43.0


From eb720e78cf735e8a3ede83034209173899099b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:53 +0000
Subject: [PATCH 065/218] fix: declare tuple_get for quaternion in its own
 namespace

---
 sprout/math/quaternion/tuple.hpp | 42 +++++++++++++++++---------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/sprout/math/quaternion/tuple.hpp b/sprout/math/quaternion/tuple.hpp
index f5cd0d6..8dd6a67 100644
--- a/sprout/math/quaternion/tuple.hpp
+++ b/sprout/math/quaternion/tuple.hpp
@@ -114,26 +114,28 @@ namespace std {
 }	// namespace std
 
 namespace sprout {
-	//
-	// tuple_get
-	//
-	template<std::size_t I, typename T>
-	inline SPROUT_CONSTEXPR typename sprout::tuples::tuple_element<I, sprout::math::quaternion<T> >::type&
-	tuple_get(sprout::math::quaternion<T>& t) SPROUT_NOEXCEPT {
-		static_assert(I < 4, "tuple_get: index out of range");
-		return sprout::tuples::detail::get_impl<I, sprout::math::quaternion<T> >()(t);
-	}
-	template<std::size_t I, typename T>
-	inline SPROUT_CONSTEXPR typename sprout::tuples::tuple_element<I, sprout::math::quaternion<T> >::type const&
-	tuple_get(sprout::math::quaternion<T> const& t) SPROUT_NOEXCEPT {
-		static_assert(I < 4, "tuple_get: index out of range");
-		return sprout::tuples::detail::get_impl<I, sprout::math::quaternion<T> >()(t);
-	}
-	template<std::size_t I, typename T>
-	inline SPROUT_CONSTEXPR typename sprout::tuples::tuple_element<I, sprout::math::quaternion<T> >::type&&
-	tuple_get(sprout::math::quaternion<T>&& t) SPROUT_NOEXCEPT {
-		return sprout::move(sprout::tuples::get<I>(t));
-	}
+	namespace math {
+		//
+		// tuple_get
+		//
+		template<std::size_t I, typename T>
+		inline SPROUT_CONSTEXPR typename sprout::tuples::tuple_element<I, sprout::math::quaternion<T> >::type&
+		tuple_get(sprout::math::quaternion<T>& t) SPROUT_NOEXCEPT {
+			static_assert(I < 4, "tuple_get: index out of range");
+			return sprout::tuples::detail::get_impl<I, sprout::math::quaternion<T> >()(t);
+		}
+		template<std::size_t I, typename T>
+		inline SPROUT_CONSTEXPR typename sprout::tuples::tuple_element<I, sprout::math::quaternion<T> >::type const&
+		tuple_get(sprout::math::quaternion<T> const& t) SPROUT_NOEXCEPT {
+			static_assert(I < 4, "tuple_get: index out of range");
+			return sprout::tuples::detail::get_impl<I, sprout::math::quaternion<T> >()(t);
+		}
+		template<std::size_t I, typename T>
+		inline SPROUT_CONSTEXPR typename sprout::tuples::tuple_element<I, sprout::math::quaternion<T> >::type&&
+		tuple_get(sprout::math::quaternion<T>&& t) SPROUT_NOEXCEPT {
+			return sprout::move(sprout::tuples::get<I>(t));
+		}
+	}	// namespace math
 }	// namespace sprout
 
 #endif	// #ifndef SPROUT_MATH_QUATERNION_TUPLE_HPP
-- 
2.43.0


From 578bc372da081c89bef5ac8944aee76b33d06d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:53 +0000
Subject: [PATCH 066/218] fix: let tuple_cat take no tuples

---
 sprout/tuple/tuple/make_tuple.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sprout/tuple/tuple/make_tuple.hpp b/sprout/tuple/tuple/make_tuple.hpp
index acfe3e4..1a4f57c 100644
--- a/sprout/tuple/tuple/make_tuple.hpp
+++ b/sprout/tuple/tuple/make_tuple.hpp
@@ -73,6 +73,10 @@ namespace sprout {
 				return Result(sprout::tuples::get<ElemIndexes>(sprout::pack_get<PackIndexes>(SPROUT_FORWARD(Tuples, tuples)...))...);
 			}
 		}	// namespace detail
+		inline SPROUT_CONSTEXPR sprout::tuples::tuple<>
+		tuple_cat() {
+			return sprout::tuples::tuple<>();
+		}
 		template<typename... Tuples>
 		inline SPROUT_CONSTEXPR typename sprout::types::tuple_cat<typename std::decay<Tuples>::type...>::type
 		tuple_cat(Tuples&&... tuples) {
-- 
2.43.0


From 89b7f05043d59c468a5ec0d03ed4ccdc7e11dccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:30 +0000
Subject: [PATCH 067/218] fix: assign the second element of a tuple to a pair's
 second

---
 sprout/utility/pair/pair.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/utility/pair/pair.hpp b/sprout/utility/pair/pair.hpp
index a72ff99..28e79f9 100644
--- a/sprout/utility/pair/pair.hpp
+++ b/sprout/utility/pair/pair.hpp
@@ -74,7 +74,7 @@ namespace sprout {
 	>
 	inline SPROUT_CXX14_CONSTEXPR sprout::pair<T1, T2>& sprout::pair<T1, T2>::operator=(sprout::tuples::tuple<U, V> const& rhs) {
 		first = sprout::tuples::get<0>(rhs);
-		second = sprout::tuples::get<0>(rhs);
+		second = sprout::tuples::get<1>(rhs);
 		return *this;
 	}
 	template<typename T1, typename T2>
-- 
2.43.0


From de8b7f5a28bdc071de17dfba301883d201d3bf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:11 +0000
Subject: [PATCH 068/218] fix: do not move from what a tuple of references
 refers to on assignment

---
 sprout/tuple/tuple/tuple_decl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/tuple/tuple/tuple_decl.hpp b/sprout/tuple/tuple/tuple_decl.hpp
index b02c3b9..0901ae4 100644
--- a/sprout/tuple/tuple/tuple_decl.hpp
+++ b/sprout/tuple/tuple/tuple_decl.hpp
@@ -297,7 +297,7 @@ namespace sprout {
 			SPROUT_CXX14_CONSTEXPR void
 			assign_impl(Tuple&& t, sprout::index_tuple<Indexes...>) {
 				typedef typename std::decay<Tuple>::type type;
-				sprout::swallow({((base_type::template get<Indexes>(*this) = sprout::move(type::template get<Indexes>(SPROUT_FORWARD(Tuple, t)))), 0)...});
+				sprout::swallow({((base_type::template get<Indexes>(*this) = type::template get<Indexes>(SPROUT_FORWARD(Tuple, t))), 0)...});
 			}
 			template<sprout::index_t... Indexes>
 			SPROUT_CONSTEXPR std::tuple<Types...>
-- 
2.43.0


From b68bb9aaf0eccd9daf60872d3c2e0ff5bf2f6ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:18 +0000
Subject: [PATCH 069/218] fix: assign the elements and the size of a valarray

---
 sprout/valarray/valarray.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/valarray/valarray.hpp b/sprout/valarray/valarray.hpp
index d65b0d7..8a53531 100644
--- a/sprout/valarray/valarray.hpp
+++ b/sprout/valarray/valarray.hpp
@@ -227,14 +227,14 @@ namespace sprout {
 		// assignment:
 		SPROUT_CXX14_CONSTEXPR valarray&
 		operator=(valarray const& rhs) {
-			impl_.array_ = rhs.array_;
-			impl_.size_ = rhs.size_;
+			impl_.array_ = rhs.impl_.array_;
+			impl_.size_ = rhs.impl_.size_;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR valarray&
 		operator=(valarray&& rhs) SPROUT_NOEXCEPT {
-			impl_.array_ = sprout::move(rhs.array_);
-			impl_.size_ = sprout::move(rhs.size_);
+			impl_.array_ = sprout::move(rhs.impl_.array_);
+			impl_.size_ = sprout::move(rhs.impl_.size_);
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR valarray&
-- 
2.43.0


From dbfa431e786c2a53e17bc228764fdfd3101a6c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:18 +0000
Subject: [PATCH 070/218] fix: let binders pass a modifiable argument to their
 function

---
 sprout/functional/bind1st.hpp | 5 +++++
 sprout/functional/bind2nd.hpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/sprout/functional/bind1st.hpp b/sprout/functional/bind1st.hpp
index fd252bb..24a9b9c 100644
--- a/sprout/functional/bind1st.hpp
+++ b/sprout/functional/bind1st.hpp
@@ -67,6 +67,11 @@ namespace sprout {
 			operator()(U const& x) const {
 				return op(value, x);
 			}
+			template<typename U>
+			SPROUT_CONSTEXPR decltype(std::declval<Fn const&>()(std::declval<value_type const&>(), std::declval<U&>()))
+			operator()(U& x) const {
+				return op(value, x);
+			}
 		};
 	}	// namespace detail
 	template<typename Fn, typename T = void>
diff --git a/sprout/functional/bind2nd.hpp b/sprout/functional/bind2nd.hpp
index 20dd994..b3b563f 100644
--- a/sprout/functional/bind2nd.hpp
+++ b/sprout/functional/bind2nd.hpp
@@ -67,6 +67,11 @@ namespace sprout {
 			operator()(U const& x) const {
 				return op(x, value);
 			}
+			template<typename U>
+			SPROUT_CONSTEXPR decltype(std::declval<Fn const&>()(std::declval<U&>(), std::declval<value_type const&>()))
+			operator()(U& x) const {
+				return op(x, value);
+			}
 		};
 	}	// namespace detail
 	template<typename Fn, typename T = void>
-- 
2.43.0


From 4fd93fe88d3b8c3e9420a22aa3817dd1374aa69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:40 +0000
Subject: [PATCH 071/218] fix: shift a valarray by any amount, filling with
 zeros

---
 sprout/valarray/valarray.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sprout/valarray/valarray.hpp b/sprout/valarray/valarray.hpp
index 8a53531..ee6cfc5 100644
--- a/sprout/valarray/valarray.hpp
+++ b/sprout/valarray/valarray.hpp
@@ -421,8 +421,9 @@ namespace sprout {
 		}
 		SPROUT_CONSTEXPR valarray
 		shift(int i) const {
-			return i > 0 ? sprout::fixed::copy(begin() + i, end(), *this)
-				: i < 0 ? sprout::fixed::copy_backward(begin(), end() + i, *this)
+			return i >= static_cast<difference_type>(size()) || -static_cast<difference_type>(size()) >= i ? valarray(size())
+				: i > 0 ? sprout::fixed::copy(begin() + i, end(), valarray(size()))
+				: i < 0 ? sprout::fixed::copy_backward(begin(), end() + i, valarray(size()))
 				: *this
 				;
 		}
-- 
2.43.0


From 2971159b7d004cf183682ee1eecf44dcfeecff5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:40 +0000
Subject: [PATCH 072/218] fix: shift a valarray cyclically by any amount

---
 sprout/valarray/valarray.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/valarray/valarray.hpp b/sprout/valarray/valarray.hpp
index ee6cfc5..9ba80d5 100644
--- a/sprout/valarray/valarray.hpp
+++ b/sprout/valarray/valarray.hpp
@@ -429,9 +429,9 @@ namespace sprout {
 		}
 		SPROUT_CONSTEXPR valarray
 		cshift(int i) const {
-			return i > 0 ? sprout::fixed::rotate(*this, begin() + i)
-				: i < 0 ? sprout::fixed::rotate(*this, end() + i)
-				: *this
+			return i == 0 || empty() ? *this
+				: i > 0 ? sprout::fixed::rotate(*this, begin() + i % static_cast<difference_type>(size()))
+				: sprout::fixed::rotate(*this, end() + i % static_cast<difference_type>(size()))
 				;
 		}
 		SPROUT_CONSTEXPR valarray
-- 
2.43.0


From f229fbfd782e63fb805ca99d0ff8b86082ec846b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:40 +0000
Subject: [PATCH 073/218] fix: check the index of slice_array::at against the
 slice

---
 sprout/valarray/slice_array.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sprout/valarray/slice_array.hpp b/sprout/valarray/slice_array.hpp
index 062ff9c..07ebd41 100644
--- a/sprout/valarray/slice_array.hpp
+++ b/sprout/valarray/slice_array.hpp
@@ -209,7 +209,9 @@ namespace sprout {
 		}
 		SPROUT_CONSTEXPR reference
 		at(size_type i) const {
-			return arr_->at(slice_.start() + slice_.stride() * i);
+			return i < size() ? (*this)[i]
+				: (throw std::out_of_range("slice_array<>: index out of range"), (*this)[i])
+				;
 		}
 		SPROUT_CONSTEXPR reference
 		front() const {
-- 
2.43.0


From 0b0cb2102cbd64c6ce922278aab391513ed7392d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:40 +0000
Subject: [PATCH 074/218] fix: assign the elements when a valarray selection is
 assigned to one of its own type

---
 sprout/valarray/gslice_array.hpp   | 5 +++++
 sprout/valarray/indirect_array.hpp | 5 +++++
 sprout/valarray/mask_array.hpp     | 5 +++++
 sprout/valarray/slice_array.hpp    | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/sprout/valarray/gslice_array.hpp b/sprout/valarray/gslice_array.hpp
index 990c90a..14ef5ef 100644
--- a/sprout/valarray/gslice_array.hpp
+++ b/sprout/valarray/gslice_array.hpp
@@ -115,6 +115,11 @@ namespace sprout {
 		SPROUT_CONSTEXPR gslice_array(gslice_array const& other)
 			: arr_(other.arr_), start_(other.start_), size_(other.size_), stride_(other.stride_)
 		{}
+		SPROUT_CXX14_CONSTEXPR gslice_array&
+		operator=(gslice_array const& ar) {
+			sprout::copy(ar.begin(), ar.end(), begin());
+			return *this;
+		}
 		template<std::size_t N2, std::size_t M2>
 		SPROUT_CXX14_CONSTEXPR gslice_array const&
 		operator=(gslice_array<T, N2, M2> const& ar) const {
diff --git a/sprout/valarray/indirect_array.hpp b/sprout/valarray/indirect_array.hpp
index d11ba2c..3afae76 100644
--- a/sprout/valarray/indirect_array.hpp
+++ b/sprout/valarray/indirect_array.hpp
@@ -51,6 +51,11 @@ namespace sprout {
 		SPROUT_CONSTEXPR indirect_array(indirect_array const& other)
 			: arr_(other.arr_), indexes_(other.indexes_)
 		{}
+		SPROUT_CXX14_CONSTEXPR indirect_array&
+		operator=(indirect_array const& ar) {
+			sprout::copy(ar.begin(), ar.end(), begin());
+			return *this;
+		}
 		template<std::size_t N2, std::size_t M2>
 		SPROUT_CXX14_CONSTEXPR indirect_array const&
 		operator=(indirect_array<T, N2, M2> const& ar) const {
diff --git a/sprout/valarray/mask_array.hpp b/sprout/valarray/mask_array.hpp
index ca1585c..5faf7f4 100644
--- a/sprout/valarray/mask_array.hpp
+++ b/sprout/valarray/mask_array.hpp
@@ -59,6 +59,11 @@ namespace sprout {
 		SPROUT_CONSTEXPR mask_array(mask_array const& other)
 			: arr_(other.arr_), indexes_(other.indexes_)
 		{}
+		SPROUT_CXX14_CONSTEXPR mask_array&
+		operator=(mask_array const& ar) {
+			sprout::copy(ar.begin(), ar.end(), begin());
+			return *this;
+		}
 		template<std::size_t N2, std::size_t M2>
 		SPROUT_CXX14_CONSTEXPR mask_array const&
 		operator=(mask_array<T, N2, M2> const& ar) const {
diff --git a/sprout/valarray/slice_array.hpp b/sprout/valarray/slice_array.hpp
index 07ebd41..c3ad661 100644
--- a/sprout/valarray/slice_array.hpp
+++ b/sprout/valarray/slice_array.hpp
@@ -74,6 +74,11 @@ namespace sprout {
 		SPROUT_CONSTEXPR slice_array(slice_array const& other)
 			: arr_(other.arr_), slice_(other.slice_)
 		{}
+		SPROUT_CXX14_CONSTEXPR slice_array&
+		operator=(slice_array const& ar) {
+			sprout::copy(ar.begin(), ar.end(), begin());
+			return *this;
+		}
 		template<std::size_t N2>
 		SPROUT_CXX14_CONSTEXPR slice_array const&
 		operator=(slice_array<T, N2> const& ar) const {
-- 
2.43.0


From 6de9ffb902e6592304e671837f02fe6d06117d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:33 +0000
Subject: [PATCH 075/218] fix: call the free swap in the swap members of
 iterators and exempt_ptr

---
 sprout/iterator/indexed_iterator.hpp |  8 ++++----
 sprout/iterator/move_iterator.hpp    |  4 ++--
 sprout/iterator/next_iterator.hpp    |  8 ++++----
 sprout/iterator/remake_iterator.hpp  | 24 ++++++++++++------------
 sprout/iterator/reverse_iterator.hpp |  4 ++--
 sprout/iterator/step_iterator.hpp    | 22 +++++++++++-----------
 sprout/iterator/valued_iterator.hpp  |  8 ++++----
 sprout/memory/exempt_ptr.hpp         |  3 ++-
 8 files changed, 41 insertions(+), 40 deletions(-)

diff --git a/sprout/iterator/indexed_iterator.hpp b/sprout/iterator/indexed_iterator.hpp
index ac56dd5..dd1f1dc 100644
--- a/sprout/iterator/indexed_iterator.hpp
+++ b/sprout/iterator/indexed_iterator.hpp
@@ -121,12 +121,12 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(indexed_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
-			&& SPROUT_NOEXCEPT_EXPR(swap(idx, other.idx))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(idx, other.idx))
 			)
 		{
-			swap(current, other.current);
-			swap(idx, other.idx);
+			sprout::swap(current, other.current);
+			sprout::swap(idx, other.idx);
 		}
 	};
 
diff --git a/sprout/iterator/move_iterator.hpp b/sprout/iterator/move_iterator.hpp
index 826af24..9df2cc5 100644
--- a/sprout/iterator/move_iterator.hpp
+++ b/sprout/iterator/move_iterator.hpp
@@ -123,10 +123,10 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(move_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
 			)
 		{
-			swap(current, other.current);
+			sprout::swap(current, other.current);
 		}
 	};
 
diff --git a/sprout/iterator/next_iterator.hpp b/sprout/iterator/next_iterator.hpp
index 9addf3f..3ac7e83 100644
--- a/sprout/iterator/next_iterator.hpp
+++ b/sprout/iterator/next_iterator.hpp
@@ -90,12 +90,12 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(next_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(holder_, other.holder_))
-			&& SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(holder_, other.holder_))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
 			)
 		{
-			swap(holder_, other.holder_);
-			swap(current, other.current);
+			sprout::swap(holder_, other.holder_);
+			sprout::swap(current, other.current);
 		}
 	};
 
diff --git a/sprout/iterator/remake_iterator.hpp b/sprout/iterator/remake_iterator.hpp
index af576e1..3feeba2 100644
--- a/sprout/iterator/remake_iterator.hpp
+++ b/sprout/iterator/remake_iterator.hpp
@@ -202,20 +202,20 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(remake_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
-			&& SPROUT_NOEXCEPT_EXPR(swap(current2, other.current2))
-			&& SPROUT_NOEXCEPT_EXPR(swap(fst, other.fst))
-			&& SPROUT_NOEXCEPT_EXPR(swap(lst_, other.lst_))
-			&& SPROUT_NOEXCEPT_EXPR(swap(begin_off, other.begin_off))
-			&& SPROUT_NOEXCEPT_EXPR(swap(end_off, other.end_off))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(current2, other.current2))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(fst, other.fst))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(lst_, other.lst_))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(begin_off, other.begin_off))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(end_off, other.end_off))
 			)
 		{
-			swap(current, other.current);
-			swap(current2, other.current2);
-			swap(fst, other.fst);
-			swap(lst_, other.lst_);
-			swap(begin_off, other.begin_off);
-			swap(end_off, other.end_off);
+			sprout::swap(current, other.current);
+			sprout::swap(current2, other.current2);
+			sprout::swap(fst, other.fst);
+			sprout::swap(lst_, other.lst_);
+			sprout::swap(begin_off, other.begin_off);
+			sprout::swap(end_off, other.end_off);
 		}
 	};
 
diff --git a/sprout/iterator/reverse_iterator.hpp b/sprout/iterator/reverse_iterator.hpp
index 2990599..0d6c427 100644
--- a/sprout/iterator/reverse_iterator.hpp
+++ b/sprout/iterator/reverse_iterator.hpp
@@ -109,10 +109,10 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(reverse_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
 			)
 		{
-			swap(current, other.current);
+			sprout::swap(current, other.current);
 		}
 	};
 
diff --git a/sprout/iterator/step_iterator.hpp b/sprout/iterator/step_iterator.hpp
index 8e8a39c..0813a21 100644
--- a/sprout/iterator/step_iterator.hpp
+++ b/sprout/iterator/step_iterator.hpp
@@ -155,19 +155,19 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(step_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
-			&& SPROUT_NOEXCEPT_EXPR(swap(last, other.last))
-			&& SPROUT_NOEXCEPT_EXPR(swap(wid, other.wid))
-			&& SPROUT_NOEXCEPT_EXPR(swap(back, other.back))
-			&& SPROUT_NOEXCEPT_EXPR(swap(wid, other.wid))
-			&& SPROUT_NOEXCEPT_EXPR(swap(is_last, other.is_last))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(last, other.last))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(wid, other.wid))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(back, other.back))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(wid, other.wid))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(is_last, other.is_last))
 			)
 		{
-			swap(current, other.current);
-			swap(last, other.last);
-			swap(wid, other.wid);
-			swap(back, other.back);
-			swap(is_last, other.is_last);
+			sprout::swap(current, other.current);
+			sprout::swap(last, other.last);
+			sprout::swap(wid, other.wid);
+			sprout::swap(back, other.back);
+			sprout::swap(is_last, other.is_last);
 		}
 	};
 
diff --git a/sprout/iterator/valued_iterator.hpp b/sprout/iterator/valued_iterator.hpp
index 92e6fc6..70e5cbc 100644
--- a/sprout/iterator/valued_iterator.hpp
+++ b/sprout/iterator/valued_iterator.hpp
@@ -129,12 +129,12 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(valued_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
-			&& SPROUT_NOEXCEPT_EXPR(swap(holder, other.holder))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(holder, other.holder))
 			)
 		{
-			swap(current, other.current);
-			swap(holder, other.holder);
+			sprout::swap(current, other.current);
+			sprout::swap(holder, other.holder);
 		}
 	};
 
diff --git a/sprout/memory/exempt_ptr.hpp b/sprout/memory/exempt_ptr.hpp
index e06e918..e688c97 100644
--- a/sprout/memory/exempt_ptr.hpp
+++ b/sprout/memory/exempt_ptr.hpp
@@ -17,6 +17,7 @@
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/functional/hash.hpp>
 #include <sprout/functional/less.hpp>
+#include <sprout/utility/swap.hpp>
 #include <sprout/type_traits/common_decay.hpp>
 #include <sprout/memory/pointer_cast.hpp>
 #include <sprout/memory/get_pointer.hpp>
@@ -120,7 +121,7 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void
 		swap(exempt_ptr& other) SPROUT_NOEXCEPT {
-			swap(p_, other.p_);
+			sprout::swap(p_, other.p_);
 		}
 		SPROUT_CXX14_CONSTEXPR exempt_ptr&
 		operator++() {
-- 
2.43.0


From 455d9fcaaee34e9c1d5f8768d874d3ccccea9c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:33 +0000
Subject: [PATCH 076/218] fix: convert iterator adaptors through their
 accessors

---
 sprout/iterator/adjacent_filter_iterator.hpp |  6 +++---
 sprout/iterator/clamp_iterator.hpp           |  2 +-
 sprout/iterator/filter_iterator.hpp          |  6 +++---
 sprout/iterator/size_enum_iterator.hpp       |  8 ++++----
 sprout/iterator/transform_iterator.hpp       | 10 +++++-----
 sprout/iterator/while_iterator.hpp           |  6 +++---
 6 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/sprout/iterator/adjacent_filter_iterator.hpp b/sprout/iterator/adjacent_filter_iterator.hpp
index 52ee63e..b0053f7 100644
--- a/sprout/iterator/adjacent_filter_iterator.hpp
+++ b/sprout/iterator/adjacent_filter_iterator.hpp
@@ -82,9 +82,9 @@ namespace sprout {
 		{}
 		template<typename U>
 		SPROUT_CONSTEXPR adjacent_filter_iterator(adjacent_filter_iterator<Predicate, U> const& it)
-			: current(it.current)
-			, last(it.last)
-			, pred(it.pred)
+			: current(it.base())
+			, last(it.end())
+			, pred(it.predicate())
 		{}
 		template<typename U>
 		SPROUT_CXX14_CONSTEXPR adjacent_filter_iterator& operator=(adjacent_filter_iterator<Predicate, U> const& it) {
diff --git a/sprout/iterator/clamp_iterator.hpp b/sprout/iterator/clamp_iterator.hpp
index 418d065..772bf2a 100644
--- a/sprout/iterator/clamp_iterator.hpp
+++ b/sprout/iterator/clamp_iterator.hpp
@@ -49,7 +49,7 @@ namespace sprout {
 		{}
 		template<typename U, typename V>
 		SPROUT_CONSTEXPR clamp_iterator(clamp_iterator<U, V> const& it)
-			: current(it.current), comp(it.comp), low(it.low), up(it.up)
+			: current(it.base()), comp(it.compare()), low(it.lower()), up(it.upper())
 		{}
 		template<typename U, typename V>
 		SPROUT_CXX14_CONSTEXPR clamp_iterator& operator=(clamp_iterator<U, V> const& it) {
diff --git a/sprout/iterator/filter_iterator.hpp b/sprout/iterator/filter_iterator.hpp
index 2a8c9ac..01a28c7 100644
--- a/sprout/iterator/filter_iterator.hpp
+++ b/sprout/iterator/filter_iterator.hpp
@@ -88,9 +88,9 @@ namespace sprout {
 		{}
 		template<typename U>
 		SPROUT_CONSTEXPR filter_iterator(filter_iterator<Predicate, U> const& it)
-			: current(it.current)
-			, last(it.last)
-			, pred(it.pred)
+			: current(it.base())
+			, last(it.end())
+			, pred(it.predicate())
 		{}
 		template<typename U>
 		SPROUT_CXX14_CONSTEXPR filter_iterator& operator=(filter_iterator<Predicate, U> const& it) {
diff --git a/sprout/iterator/size_enum_iterator.hpp b/sprout/iterator/size_enum_iterator.hpp
index 5dd6d0f..974cb85 100644
--- a/sprout/iterator/size_enum_iterator.hpp
+++ b/sprout/iterator/size_enum_iterator.hpp
@@ -60,7 +60,7 @@ namespace sprout {
 		{}
 		template<typename U>
 		SPROUT_CONSTEXPR size_enum_iterator(size_enum_iterator<U> const& it)
-			: current(it.current)
+			: current(it.base())
 		{}
 		template<typename U>
 		SPROUT_CXX14_CONSTEXPR size_enum_iterator& operator=(size_enum_iterator<U> const& it) {
@@ -174,9 +174,9 @@ namespace sprout {
 		{}
 		template<typename U, bool V>
 		SPROUT_CONSTEXPR size_enum_iterator(size_enum_iterator<U, V> const& it)
-			: current(it.current)
-			, sep_size(it.sep_size)
-			, is_sep(it.is_sep)
+			: current(it.base())
+			, sep_size(it.separator_size())
+			, is_sep(it.is_separator())
 		{}
 		template<typename U, bool V>
 		SPROUT_CXX14_CONSTEXPR size_enum_iterator& operator=(size_enum_iterator<U, V> const& it) {
diff --git a/sprout/iterator/transform_iterator.hpp b/sprout/iterator/transform_iterator.hpp
index 5393cd6..43c3647 100644
--- a/sprout/iterator/transform_iterator.hpp
+++ b/sprout/iterator/transform_iterator.hpp
@@ -87,9 +87,9 @@ namespace sprout {
 		{}
 		template<typename U, typename V, typename W>
 		SPROUT_CONSTEXPR transform_iterator(transform_iterator<U, V, W> const& it)
-			: current(it.current)
-			, current2(it.current2)
-			, func(it.func)
+			: current(it.base())
+			, current2(it.base2())
+			, func(it.functor())
 		{}
 		template<typename U, typename V, typename W>
 		SPROUT_CXX14_CONSTEXPR transform_iterator& operator=(transform_iterator<U, V, W> const& it) {
@@ -222,8 +222,8 @@ namespace sprout {
 		{}
 		template<typename U, typename V>
 		SPROUT_CONSTEXPR transform_iterator(transform_iterator<U, V> const& it)
-			: current(it.current)
-			, func(it.func)
+			: current(it.base())
+			, func(it.functor())
 		{}
 		template<typename U, typename V>
 		SPROUT_CXX14_CONSTEXPR transform_iterator& operator=(transform_iterator<U, V> const& it) {
diff --git a/sprout/iterator/while_iterator.hpp b/sprout/iterator/while_iterator.hpp
index 27f0530..3a6185d 100644
--- a/sprout/iterator/while_iterator.hpp
+++ b/sprout/iterator/while_iterator.hpp
@@ -94,9 +94,9 @@ namespace sprout {
 		{}
 		template<typename U>
 		SPROUT_CONSTEXPR while_iterator(while_iterator<Predicate, U> const& it)
-			: current(it.current)
-			, last(it.last)
-			, pred(it.pred)
+			: current(it.base())
+			, last(it.end())
+			, pred(it.predicate())
 		{}
 		template<typename U>
 		SPROUT_CXX14_CONSTEXPR while_iterator& operator=(while_iterator<Predicate, U> const& it) {
-- 
2.43.0


From dca8b2d948945e15bcb3d5fe44f8f985af3b1159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:33 +0000
Subject: [PATCH 077/218] fix: let make_clamp_iterator be called without a
 comparison

---
 sprout/iterator/clamp_iterator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/iterator/clamp_iterator.hpp b/sprout/iterator/clamp_iterator.hpp
index 772bf2a..2569203 100644
--- a/sprout/iterator/clamp_iterator.hpp
+++ b/sprout/iterator/clamp_iterator.hpp
@@ -196,15 +196,15 @@ namespace sprout {
 	{
 		return sprout::clamp_iterator<Iterator, Compare>(it, low, up, comp);
 	}
-	template<typename Iterator, typename Compare>
-	inline SPROUT_CONSTEXPR sprout::clamp_iterator<Iterator, Compare>
+	template<typename Iterator>
+	inline SPROUT_CONSTEXPR sprout::clamp_iterator<Iterator>
 	make_clamp_iterator(
 		Iterator it,
 		typename std::iterator_traits<Iterator>::value_type const& low,
 		typename std::iterator_traits<Iterator>::value_type const& up
 		)
 	{
-		return sprout::clamp_iterator<Iterator, Compare>(it, low, up);
+		return sprout::clamp_iterator<Iterator>(it, low, up);
 	}
 
 	//
-- 
2.43.0


From e759484af63afdf49b9929ced9a34b4781fbac8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:16 +0000
Subject: [PATCH 078/218] fix: keep the first element in
 adjacent_filter_iterator

---
 sprout/iterator/adjacent_filter_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/iterator/adjacent_filter_iterator.hpp b/sprout/iterator/adjacent_filter_iterator.hpp
index b0053f7..f1a22df 100644
--- a/sprout/iterator/adjacent_filter_iterator.hpp
+++ b/sprout/iterator/adjacent_filter_iterator.hpp
@@ -76,7 +76,7 @@ namespace sprout {
 		{}
 		adjacent_filter_iterator(adjacent_filter_iterator const&) = default;
 		SPROUT_CONSTEXPR adjacent_filter_iterator(Predicate pred, iterator_type it, iterator_type last = iterator_type())
-			: current(find_next(it, last, pred))
+			: current(it)
 			, last(last)
 			, pred(pred)
 		{}
-- 
2.43.0


From c640ab34a610309926bfd70f1cbdaf51f926aa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:16 +0000
Subject: [PATCH 079/218] fix: do not read the end of the range in
 while_iterator

---
 sprout/iterator/while_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/iterator/while_iterator.hpp b/sprout/iterator/while_iterator.hpp
index 3a6185d..ce185b9 100644
--- a/sprout/iterator/while_iterator.hpp
+++ b/sprout/iterator/while_iterator.hpp
@@ -68,7 +68,7 @@ namespace sprout {
 		Predicate pred;
 	private:
 		SPROUT_CXX14_CONSTEXPR void satisfy_predicate() {
-			if (!pred(*current)) {
+			if (current != last && !pred(*current)) {
 				current = last;
 			}
 		}
-- 
2.43.0


From cf849b7677ab390a4b6ac5867d89366649a6475d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:16 +0000
Subject: [PATCH 080/218] fix: move alternate_iterator backwards by an odd
 distance

---
 sprout/iterator/alternate_iterator.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sprout/iterator/alternate_iterator.hpp b/sprout/iterator/alternate_iterator.hpp
index db9af14..c1433a6 100644
--- a/sprout/iterator/alternate_iterator.hpp
+++ b/sprout/iterator/alternate_iterator.hpp
@@ -47,7 +47,9 @@ namespace sprout {
 		bool in_left;
 	private:
 		SPROUT_CONSTEXPR alternate_iterator advance_impl_1(difference_type n) const {
-			return alternate_iterator(sprout::next(current1, n / 2), sprout::next(current2, n / 2), !(n % 2));
+			return n % 2 < 0 ? alternate_iterator(sprout::next(current1, n / 2 - 1), sprout::next(current2, n / 2 - 1), false)
+				: alternate_iterator(sprout::next(current1, n / 2), sprout::next(current2, n / 2), !(n % 2))
+				;
 		}
 		SPROUT_CONSTEXPR alternate_iterator advance_impl(difference_type n) const {
 			return advance_impl_1(n + (!is_in_left() ? 1 : 0));
-- 
2.43.0


From 832af97018eac51b1edd62cc07455b018c416f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:16 +0000
Subject: [PATCH 081/218] fix: move insert_range_iterator by a distance

---
 sprout/iterator/insert_range_iterator.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sprout/iterator/insert_range_iterator.hpp b/sprout/iterator/insert_range_iterator.hpp
index 6ef839c..69bad54 100644
--- a/sprout/iterator/insert_range_iterator.hpp
+++ b/sprout/iterator/insert_range_iterator.hpp
@@ -51,20 +51,20 @@ namespace sprout {
 			return n >= 0
 				? current1 > pos1 ? insert_range_iterator(sprout::next(current1, n), pos1, current2, first2, last2)
 					: current1 == pos1 ? current2 == last2 ? insert_range_iterator(sprout::next(current1, n), pos1, current2, first2, last2)
-						: n <= sprout::distance(current2, last2) ? insert_range_iterator(current1, pos1, last2, sprout::next(current2, n), first2, last2)
+						: n <= sprout::distance(current2, last2) ? insert_range_iterator(current1, pos1, sprout::next(current2, n), first2, last2)
 						: insert_range_iterator(sprout::next(current1, n - sprout::distance(current2, last2)), pos1, last2, first2, last2)
 					: n <= sprout::distance(current1, pos1) ? insert_range_iterator(sprout::next(current1, n), pos1, current2, first2, last2)
 					: n <= sprout::distance(current1, pos1) + sprout::distance(current2, last2)
-						? insert_range_iterator(pos1, pos1, last2, sprout::next(current2, n - sprout::distance(current1, pos1)), first2, last2)
+						? insert_range_iterator(pos1, pos1, sprout::next(current2, n - sprout::distance(current1, pos1)), first2, last2)
 					: insert_range_iterator(sprout::next(current1, n - sprout::distance(current1, pos1) - sprout::distance(current2, last2)), pos1, last2, first2, last2)
 				: current1 < pos1 ? insert_range_iterator(sprout::next(current1, n), pos1, current2, first2, last2)
 					: current1 == pos1 ? current2 == first2 ? insert_range_iterator(sprout::next(current1, n), pos1, current2, first2, last2)
-						: -n <= sprout::distance(first2, current2) ? insert_range_iterator(current1, pos1, last2, sprout::next(current2, n), first2, last2)
-						: insert_range_iterator(sprout::next(current1, n - sprout::distance(first2, current2)), pos1, first2, first2, last2)
+						: -n <= sprout::distance(first2, current2) ? insert_range_iterator(current1, pos1, sprout::next(current2, n), first2, last2)
+						: insert_range_iterator(sprout::next(current1, n + sprout::distance(first2, current2)), pos1, first2, first2, last2)
 					: -n <= sprout::distance(pos1, current1) ? insert_range_iterator(sprout::next(current1, n), pos1, current2, first2, last2)
 					: -n <= sprout::distance(pos1, current1) + sprout::distance(first2, current2)
-						? insert_range_iterator(pos1, pos1, last2, sprout::next(current2, n - sprout::distance(pos1, current1)), first2, last2)
-					: insert_range_iterator(sprout::next(current1, n - sprout::distance(pos1, current1) - sprout::distance(first2, current2)), pos1, first2, first2, last2)
+						? insert_range_iterator(pos1, pos1, sprout::next(current2, n + sprout::distance(pos1, current1)), first2, last2)
+					: insert_range_iterator(sprout::next(current1, n + sprout::distance(first2, current2)), pos1, first2, first2, last2)
 				;
 		}
 	public:
-- 
2.43.0


From ffa7d88eddefa3e47e5c2a17fde688a11d136a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:16 +0000
Subject: [PATCH 082/218] fix: compute bytes_iterator positions in the
 difference type

---
 sprout/iterator/bytes_iterator.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/sprout/iterator/bytes_iterator.hpp b/sprout/iterator/bytes_iterator.hpp
index 65e73ee..d2733f6 100644
--- a/sprout/iterator/bytes_iterator.hpp
+++ b/sprout/iterator/bytes_iterator.hpp
@@ -60,25 +60,28 @@ namespace sprout {
 		iterator_type it_;
 		difference_type i_;
 	private:
+		static SPROUT_CONSTEXPR difference_type width() {
+			return traits_type::size();
+		}
 		SPROUT_CONSTEXPR bytes_iterator(iterator_type it, difference_type i)
 			: it_(it) , i_(i)
 		{}
 		SPROUT_CONSTEXPR bytes_iterator(iterator_type it, difference_type i, next_tag)
-			: it_(i / traits_type::size() == 0 ? it : sprout::next(it))
-			, i_(i % traits_type::size())
+			: it_(i / width() == 0 ? it : sprout::next(it))
+			, i_(i % width())
 		{}
 		SPROUT_CONSTEXPR bytes_iterator(iterator_type it, difference_type i, prev_tag)
-			: it_((i + 1 - traits_type::size()) / traits_type::size() == 0 ? it : sprout::prev(it))
-			, i_(i % traits_type::size() + traits_type::size())
+			: it_((i + 1 - width()) / width() == 0 ? it : sprout::prev(it))
+			, i_((i + 1) % width() + width() - 1)
 		{}
 		SPROUT_CONSTEXPR bytes_iterator(iterator_type it, difference_type i, ra_tag)
 			: it_(i >= 0
-				? sprout::next(it, i / traits_type::size())
-				: sprout::next(it, (i + 1 - traits_type::size()) / traits_type::size())
+				? sprout::next(it, i / width())
+				: sprout::next(it, (i + 1 - width()) / width())
 				)
 			, i_(i >= 0
-				? i % traits_type::size()
-				: i % traits_type::size() + traits_type::size()
+				? i % width()
+				: (i + 1) % width() + width() - 1
 				)
 		{}
 	public:
-- 
2.43.0


From 8a4780d4cb4cd674ea7e055b99dd3bb228d7e485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:16 +0000
Subject: [PATCH 083/218] fix: return values from clamp_iterator

---
 sprout/iterator/clamp_iterator.hpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/sprout/iterator/clamp_iterator.hpp b/sprout/iterator/clamp_iterator.hpp
index 2569203..c9d5f51 100644
--- a/sprout/iterator/clamp_iterator.hpp
+++ b/sprout/iterator/clamp_iterator.hpp
@@ -24,10 +24,24 @@ namespace sprout {
 	//
 	template<typename Iterator, typename Compare = NS_SSCRISK_CEL_OR_SPROUT::less<typename std::iterator_traits<Iterator>::value_type> >
 	class clamp_iterator
-		: public sprout::detail::iterator_base<Iterator>::type
+		: public sprout::detail::iterator_base<
+			Iterator,
+			sprout::use_default,
+			sprout::use_default,
+			sprout::use_default,
+			void,
+			typename std::iterator_traits<Iterator>::value_type
+		>::type
 	{
 	private:
-		typedef typename sprout::detail::iterator_base<Iterator>::type base_type;
+		typedef typename sprout::detail::iterator_base<
+			Iterator,
+			sprout::use_default,
+			sprout::use_default,
+			sprout::use_default,
+			void,
+			typename std::iterator_traits<Iterator>::value_type
+		>::type base_type;
 	public:
 		typedef Iterator iterator_type;
 		typedef Compare compare_type;
@@ -72,9 +86,6 @@ namespace sprout {
 		SPROUT_CONSTEXPR reference operator*() const {
 			return sprout::clamp(*current, low, up, comp);
 		}
-		SPROUT_CONSTEXPR pointer operator->() const {
-			return &sprout::clamp(*current, low, up, comp);
-		}
 
 		SPROUT_CXX14_CONSTEXPR clamp_iterator& operator++() {
 			++current;
-- 
2.43.0


From 22fcadfec8f8af89d2e92f920f215d3627650d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:16 +0000
Subject: [PATCH 084/218] fix: order insert_range_iterator by position

---
 sprout/iterator/insert_range_iterator.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sprout/iterator/insert_range_iterator.hpp b/sprout/iterator/insert_range_iterator.hpp
index 69bad54..4cf148f 100644
--- a/sprout/iterator/insert_range_iterator.hpp
+++ b/sprout/iterator/insert_range_iterator.hpp
@@ -222,10 +222,7 @@ namespace sprout {
 		sprout::insert_range_iterator<DstIterator2, SrcIterator2> const& rhs
 		)
 	{
-		return lhs.is_in_base() && rhs.is_in_base() ? lhs.base() < rhs.base()
-			: !lhs.is_in_base() && !rhs.is_in_base() ? lhs.base2() < rhs.base2()
-			: lhs.is_in_base()
-			;
+		return lhs.base() < rhs.base() || (lhs.base() == rhs.base() && lhs.base2() < rhs.base2());
 	}
 	template<
 		typename DstIterator1, typename SrcIterator1,
-- 
2.43.0


From df89a0dfcabb4f5537b01327106b5bad4b68f5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:17 +0000
Subject: [PATCH 085/218] fix: convert ptr_index_iterator to its constant form

---
 sprout/iterator/ptr_index_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/iterator/ptr_index_iterator.hpp b/sprout/iterator/ptr_index_iterator.hpp
index 73ecc0a..ef61b25 100644
--- a/sprout/iterator/ptr_index_iterator.hpp
+++ b/sprout/iterator/ptr_index_iterator.hpp
@@ -57,8 +57,8 @@ namespace sprout {
 		SPROUT_CONSTEXPR ptr_index_iterator(pointer p, difference_type index)
 			: p_(p), index_(index)
 		{}
-		SPROUT_CONSTEXPR operator ptr_index_iterator<const_pointer>() const {
-			return ptr_index_iterator<const_pointer>(p_, index_);
+		SPROUT_CONSTEXPR operator ptr_index_iterator<T const, ConvertibleToPointer>() const {
+			return ptr_index_iterator<T const, ConvertibleToPointer>(p_, index_);
 		}
 		SPROUT_CONSTEXPR pointer base() const {
 			return p_;
-- 
2.43.0


From d3bcbf3cf78436fb8b5540b8df155cf568358c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:17 +0000
Subject: [PATCH 086/218] fix: let move_iterator adapt constant iterators

---
 sprout/iterator/move_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/iterator/move_iterator.hpp b/sprout/iterator/move_iterator.hpp
index 9df2cc5..d0620a6 100644
--- a/sprout/iterator/move_iterator.hpp
+++ b/sprout/iterator/move_iterator.hpp
@@ -30,7 +30,7 @@ namespace sprout {
 			sprout::use_default,
 			sprout::use_default,
 			Iterator,
-			typename iterator_traits<Iterator>::value_type&&
+			typename std::remove_reference<typename std::iterator_traits<Iterator>::reference>::type&&
 		>::type
 	{
 	private:
@@ -40,7 +40,7 @@ namespace sprout {
 			sprout::use_default,
 			sprout::use_default,
 			Iterator,
-			typename iterator_traits<Iterator>::value_type&&
+			typename std::remove_reference<typename std::iterator_traits<Iterator>::reference>::type&&
 		>::type base_type;
 	public:
 		typedef Iterator iterator_type;
-- 
2.43.0


From 70aff22fe81e7253045d7614a896eca1c69a34a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:17 +0000
Subject: [PATCH 087/218] fix: make step_iterator stop at the end of its range

---
 sprout/iterator/step_iterator.hpp | 66 ++++++++++++++-----------------
 sprout/range/adaptor/steps.hpp    |  8 ++--
 2 files changed, 34 insertions(+), 40 deletions(-)

diff --git a/sprout/iterator/step_iterator.hpp b/sprout/iterator/step_iterator.hpp
index 0813a21..bc3d4bb 100644
--- a/sprout/iterator/step_iterator.hpp
+++ b/sprout/iterator/step_iterator.hpp
@@ -36,12 +36,14 @@ namespace sprout {
 		typedef typename base_type::reference reference;
 	private:
 		static SPROUT_CONSTEXPR iterator_type get_back(iterator_type it, difference_type wid, iterator_type last) {
-			return sprout::next(it, (sprout::distance(it, last) - 1) / wid * wid);
+			return it == last ? last
+				: sprout::next(it, (sprout::distance(it, last) - 1) / wid * wid)
+				;
 		}
 		static SPROUT_CONSTEXPR difference_type next_distance(step_iterator const& it, difference_type n) {
-			return n >= 0 ? NS_SSCRISK_CEL_OR_SPROUT::min(sprout::distance(it.current, it.back), n * it.wid)
-				: it.is_last ? 0
-				: NS_SSCRISK_CEL_OR_SPROUT::max(-sprout::distance(it.current, it.back), n * it.wid)
+			return n >= 0 ? NS_SSCRISK_CEL_OR_SPROUT::min(sprout::distance(it.current, it.last), n * it.wid)
+				: it.is_end() ? (n + 1) * it.wid - sprout::distance(it.back, it.last)
+				: n * it.wid
 				;
 		}
 	protected:
@@ -50,29 +52,28 @@ namespace sprout {
 		difference_type wid;
 	private:
 		iterator_type back;
-		bool is_last;
 	private:
 		SPROUT_CONSTEXPR step_iterator(step_iterator const& other, difference_type n)
 			: current(sprout::next(other.current, next_distance(other, n))), last(other.last), wid(other.wid)
-			, back(other.back), is_last(next_distance(other, n) == 0)
+			, back(other.back)
 		{}
 	public:
 		SPROUT_CONSTEXPR step_iterator()
 			: current(), last(), wid(1)
-			, back(), is_last()
+			, back()
 		{}
 		SPROUT_CONSTEXPR step_iterator(step_iterator const& other)
 			: current(other.current), last(other.last), wid(other.wid)
-			, back(other.back), is_last(other.is_last)
+			, back(other.back)
 		{}
 		explicit SPROUT_CONSTEXPR step_iterator(iterator_type it, difference_type wid = 1, iterator_type last = iterator_type())
 			: current(it), last(last), wid(wid)
-			, back(get_back(it, wid, last)), is_last(it == last)
+			, back(get_back(it, wid, last))
 		{}
 		template<typename U>
 		SPROUT_CONSTEXPR step_iterator(step_iterator<U> const& it)
 			: current(it.base()), last(it.end()), wid(it.width())
-			, back(get_back(it.base(), it.width(), it.end())), is_last(it.is_end())
+			, back(it.last_stop())
 		{}
 		template<typename U>
 		SPROUT_CXX14_CONSTEXPR step_iterator& operator=(step_iterator<U> const& it) {
@@ -90,7 +91,10 @@ namespace sprout {
 			return last;
 		}
 		SPROUT_CONSTEXPR bool is_end() const {
-			return is_last;
+			return current == last;
+		}
+		SPROUT_CONSTEXPR iterator_type last_stop() const {
+			return back;
 		}
 		SPROUT_CONSTEXPR reference operator*() const {
 			return *current;
@@ -99,34 +103,24 @@ namespace sprout {
 			return &*current;
 		}
 		SPROUT_CXX14_CONSTEXPR step_iterator& operator++() {
-			if (current == back) {
-				is_last = true;
-			}
-			current += next_distance(*this, 1);
+			step_iterator temp(*this, 1);
+			temp.swap(*this);
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR step_iterator operator++(int) {
 			step_iterator result(*this);
-			if (current == back) {
-				is_last = true;
-			}
-			current += next_distance(*this, 1);
+			++*this;
 			return result;
 		}
 		SPROUT_CXX14_CONSTEXPR step_iterator& operator--() {
-			current += next_distance(*this, -1);
-			if (current != back) {
-				is_last = false;
-			}
+			step_iterator temp(*this, -1);
+			temp.swap(*this);
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR step_iterator operator--(int) {
-			step_iterator temp(*this);
-			current += next_distance(*this, -1);
-			if (current != back) {
-				is_last = false;
-			}
-			return temp;
+			step_iterator result(*this);
+			--*this;
+			return result;
 		}
 		SPROUT_CONSTEXPR step_iterator operator+(difference_type n) const {
 			return step_iterator(*this, n);
@@ -145,7 +139,7 @@ namespace sprout {
 			return *this;
 		}
 		SPROUT_CONSTEXPR reference operator[](difference_type n) const {
-			return *(current + n * wid);
+			return *(*this + n);
 		}
 		SPROUT_CONSTEXPR step_iterator next() const {
 			return step_iterator(*this, 1);
@@ -159,22 +153,19 @@ namespace sprout {
 			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(last, other.last))
 			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(wid, other.wid))
 			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(back, other.back))
-			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(wid, other.wid))
-			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(is_last, other.is_last))
 			)
 		{
 			sprout::swap(current, other.current);
 			sprout::swap(last, other.last);
 			sprout::swap(wid, other.wid);
 			sprout::swap(back, other.back);
-			sprout::swap(is_last, other.is_last);
 		}
 	};
 
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR bool
 	operator==(sprout::step_iterator<Iterator1> const& lhs, sprout::step_iterator<Iterator2> const& rhs) {
-		return lhs.base() == rhs.base() && lhs.is_end() == rhs.is_end();
+		return lhs.base() == rhs.base();
 	}
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR bool
@@ -184,7 +175,7 @@ namespace sprout {
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR bool
 	operator<(sprout::step_iterator<Iterator1> const& lhs, sprout::step_iterator<Iterator2> const& rhs) {
-		return lhs.base() < rhs.base() || (lhs.base() == rhs.base() && !lhs.is_end() && rhs.is_end());
+		return lhs.base() < rhs.base();
 	}
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR bool
@@ -204,7 +195,10 @@ namespace sprout {
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR decltype(std::declval<Iterator1>() - std::declval<Iterator2>())
 	operator-(sprout::step_iterator<Iterator1> const& lhs, sprout::step_iterator<Iterator2> const& rhs) {
-		return (lhs.base() - rhs.base()) / lhs.width() + (lhs.is_end() ? 1 : 0) - (rhs.is_end() ? 1 : 0);
+		return lhs.is_end() ? (lhs.base() - rhs.base() + lhs.width() - 1) / lhs.width()
+			: rhs.is_end() ? (lhs.base() - rhs.base() - lhs.width() + 1) / lhs.width()
+			: (lhs.base() - rhs.base()) / lhs.width()
+			;
 	}
 	template<typename Iterator>
 	inline SPROUT_CONSTEXPR sprout::step_iterator<Iterator>
diff --git a/sprout/range/adaptor/steps.hpp b/sprout/range/adaptor/steps.hpp
index 9e4e90d..9606d55 100644
--- a/sprout/range/adaptor/steps.hpp
+++ b/sprout/range/adaptor/steps.hpp
@@ -46,19 +46,19 @@ namespace sprout {
 			explicit SPROUT_CONSTEXPR steps_range(range_type& range)
 				: base_type(
 					iterator(sprout::begin(range), 1, sprout::end(range)),
-					iterator(sprout::end(range), 1, sprout::end(range))
+					iterator(sprout::begin(range), 1, sprout::end(range)) + sprout::size(range)
 					)
 			{}
 			SPROUT_CONSTEXPR steps_range(difference_type width, range_type& range)
 				: base_type(
 					iterator(sprout::begin(range), width, sprout::end(range)),
-					iterator(sprout::end(range), width, sprout::end(range))
+					iterator(sprout::begin(range), width, sprout::end(range)) + sprout::size(range)
 					)
 			{}
 			SPROUT_CONSTEXPR steps_range(difference_type width, difference_type init, range_type& range)
 				: base_type(
-					iterator(sprout::next(sprout::begin(range), NS_SSCRISK_CEL_OR_SPROUT::min(init, sprout::size(range))), width, sprout::end(range)),
-					iterator(sprout::end(range), width, sprout::end(range))
+					iterator(sprout::next(sprout::begin(range), NS_SSCRISK_CEL_OR_SPROUT::min<difference_type>(init, sprout::size(range))), width, sprout::end(range)),
+					iterator(sprout::next(sprout::begin(range), NS_SSCRISK_CEL_OR_SPROUT::min<difference_type>(init, sprout::size(range))), width, sprout::end(range)) + sprout::size(range)
 					)
 			{}
 		};
-- 
2.43.0


From bc15c27ff31eedfef3a2071573be880ea59cb4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:32 +0000
Subject: [PATCH 088/218] fix: do not divide the minimum by -1 in
 limited::multiplies

---
 sprout/utility/limited.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/utility/limited.hpp b/sprout/utility/limited.hpp
index a33ad78..84ba538 100644
--- a/sprout/utility/limited.hpp
+++ b/sprout/utility/limited.hpp
@@ -38,11 +38,11 @@ namespace sprout {
 			typedef typename sprout::arithmetic_promote<T, U>::type type;
 			return lhs > 0 && rhs > 0 && sprout::numeric_limits<type>::max() / lhs + (sprout::numeric_limits<type>::max() % lhs ? 1 : 0) <= rhs
 					? sprout::numeric_limits<type>::max()
-				: lhs > 0 && rhs < 0 && sprout::numeric_limits<type>::min() / rhs + (sprout::numeric_limits<type>::min() % rhs ? 1 : 0) <= lhs
+				: lhs > 0 && rhs < 0 && sprout::numeric_limits<type>::min() / lhs > rhs
 					? sprout::numeric_limits<type>::min()
-				: lhs < 0 && rhs > 0 && sprout::numeric_limits<type>::min() / lhs + (sprout::numeric_limits<type>::min() % lhs ? 1 : 0) <= rhs
+				: lhs < 0 && rhs > 0 && sprout::numeric_limits<type>::min() / rhs > lhs
 					? sprout::numeric_limits<type>::min()
-				: lhs < 0 && rhs < 0 && -(sprout::numeric_limits<type>::min() / rhs + (sprout::numeric_limits<type>::min() % rhs ? 1 : 0)) >= lhs
+				: lhs < 0 && rhs < 0 && sprout::numeric_limits<type>::max() / rhs > lhs
 					? sprout::numeric_limits<type>::max()
 				: lhs * rhs
 				;
-- 
2.43.0


From a960e3ae1f5d3685cabdf482a600c7a187c321df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:32 +0000
Subject: [PATCH 089/218] fix: subtract alternate_iterators standing in
 different ranges

---
 sprout/iterator/alternate_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/iterator/alternate_iterator.hpp b/sprout/iterator/alternate_iterator.hpp
index c1433a6..f49864d 100644
--- a/sprout/iterator/alternate_iterator.hpp
+++ b/sprout/iterator/alternate_iterator.hpp
@@ -252,7 +252,7 @@ namespace sprout {
 	{
 		return sprout::limited::plus(
 			sprout::limited::multiplies(lhs.base() - rhs.base(), 2),
-			lhs.is_in_left() ? (rhs.is_in_left() ? 0 : 1) : (rhs.is_in_left() ? 1 : 0)
+			lhs.is_in_left() ? (rhs.is_in_left() ? 0 : -1) : (rhs.is_in_left() ? 1 : 0)
 			);
 	}
 	template<typename LIterator, typename RIterator>
-- 
2.43.0


From a8f0b189474b13a7f4d273310f5b97f7413ea3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:32 +0000
Subject: [PATCH 090/218] fix: give the difference of joint_iterators its sign

---
 sprout/iterator/joint_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/iterator/joint_iterator.hpp b/sprout/iterator/joint_iterator.hpp
index 57702a1..1354301 100644
--- a/sprout/iterator/joint_iterator.hpp
+++ b/sprout/iterator/joint_iterator.hpp
@@ -271,7 +271,7 @@ namespace sprout {
 	{
 		return lhs.is_in_left() && rhs.is_in_left() ? lhs.base() - rhs.base()
 			: !lhs.is_in_left() && !rhs.is_in_left() ? lhs.base2() - rhs.base2()
-			: lhs.is_in_left() ? sprout::limited::plus(lhs.left_end() - lhs.base(), rhs.base2() - rhs.right_begin())
+			: lhs.is_in_left() ? sprout::limited::plus(lhs.base() - lhs.left_end(), rhs.right_begin() - rhs.base2())
 			: sprout::limited::plus(lhs.base2() - lhs.right_begin(), rhs.left_end() - rhs.base())
 			;
 	}
-- 
2.43.0


From 2473618ceff1839f4971cd12e2c92ad970eb3b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:06 +0000
Subject: [PATCH 091/218] fix: order reverse_iterators by the reversed
 direction

---
 sprout/iterator/reverse_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/iterator/reverse_iterator.hpp b/sprout/iterator/reverse_iterator.hpp
index 0d6c427..edfbbc5 100644
--- a/sprout/iterator/reverse_iterator.hpp
+++ b/sprout/iterator/reverse_iterator.hpp
@@ -129,7 +129,7 @@ namespace sprout {
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR bool
 	operator<(sprout::reverse_iterator<Iterator1> const& lhs, sprout::reverse_iterator<Iterator2> const& rhs) {
-		return lhs.base() < rhs.base();
+		return rhs.base() < lhs.base();
 	}
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR bool
-- 
2.43.0


From e76dcd2cae70bb24c477218305564c986d8aafc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:35 +0000
Subject: [PATCH 092/218] fix: count only the inserted elements when
 insert_range_iterator jumps over them

---
 sprout/iterator/insert_range_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/iterator/insert_range_iterator.hpp b/sprout/iterator/insert_range_iterator.hpp
index 4cf148f..f3574f2 100644
--- a/sprout/iterator/insert_range_iterator.hpp
+++ b/sprout/iterator/insert_range_iterator.hpp
@@ -56,7 +56,7 @@ namespace sprout {
 					: n <= sprout::distance(current1, pos1) ? insert_range_iterator(sprout::next(current1, n), pos1, current2, first2, last2)
 					: n <= sprout::distance(current1, pos1) + sprout::distance(current2, last2)
 						? insert_range_iterator(pos1, pos1, sprout::next(current2, n - sprout::distance(current1, pos1)), first2, last2)
-					: insert_range_iterator(sprout::next(current1, n - sprout::distance(current1, pos1) - sprout::distance(current2, last2)), pos1, last2, first2, last2)
+					: insert_range_iterator(sprout::next(current1, n - sprout::distance(current2, last2)), pos1, last2, first2, last2)
 				: current1 < pos1 ? insert_range_iterator(sprout::next(current1, n), pos1, current2, first2, last2)
 					: current1 == pos1 ? current2 == first2 ? insert_range_iterator(sprout::next(current1, n), pos1, current2, first2, last2)
 						: -n <= sprout::distance(first2, current2) ? insert_range_iterator(current1, pos1, sprout::next(current2, n), first2, last2)
-- 
2.43.0


From a1da7d121f19f04a63bc9aa74768ff2daa6ca101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:47 +0000
Subject: [PATCH 093/218] fix: step bytes_iterator back inside a value

---
 sprout/iterator/bytes_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/iterator/bytes_iterator.hpp b/sprout/iterator/bytes_iterator.hpp
index d2733f6..cb2b3f9 100644
--- a/sprout/iterator/bytes_iterator.hpp
+++ b/sprout/iterator/bytes_iterator.hpp
@@ -71,8 +71,8 @@ namespace sprout {
 			, i_(i % width())
 		{}
 		SPROUT_CONSTEXPR bytes_iterator(iterator_type it, difference_type i, prev_tag)
-			: it_((i + 1 - width()) / width() == 0 ? it : sprout::prev(it))
-			, i_((i + 1) % width() + width() - 1)
+			: it_(i >= 0 ? it : sprout::prev(it))
+			, i_(i >= 0 ? i : i + width())
 		{}
 		SPROUT_CONSTEXPR bytes_iterator(iterator_type it, difference_type i, ra_tag)
 			: it_(i >= 0
-- 
2.43.0


From b64b5d69962de886b49ac80c39eb238ffbcf7767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:35 +0000
Subject: [PATCH 094/218] fix: construct the iterators of removed and
 removed_if ranges

---
 sprout/range/adaptor/removed.hpp    | 4 ++--
 sprout/range/adaptor/removed_if.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/range/adaptor/removed.hpp b/sprout/range/adaptor/removed.hpp
index 32b8cbd..5e1d260 100644
--- a/sprout/range/adaptor/removed.hpp
+++ b/sprout/range/adaptor/removed.hpp
@@ -50,8 +50,8 @@ namespace sprout {
 			removed_range(removed_range const&) = default;
 			SPROUT_CONSTEXPR removed_range(range_type& range, value_type const& value)
 				: base_type(
-					iterator(sprout::begin(range), typename iterator::predicate_type(value)),
-					iterator(sprout::end(range), typename iterator::predicate_type(value))
+					iterator(typename iterator::predicate_type(value), sprout::begin(range), sprout::end(range)),
+					iterator(typename iterator::predicate_type(value), sprout::end(range), sprout::end(range))
 					)
 			{}
 		};
diff --git a/sprout/range/adaptor/removed_if.hpp b/sprout/range/adaptor/removed_if.hpp
index 3beeff5..4ff6b65 100644
--- a/sprout/range/adaptor/removed_if.hpp
+++ b/sprout/range/adaptor/removed_if.hpp
@@ -50,8 +50,8 @@ namespace sprout {
 			removed_if_range(removed_if_range const&) = default;
 			SPROUT_CONSTEXPR removed_if_range(range_type& range, Predicate pred)
 				: base_type(
-					iterator(sprout::begin(range), typename iterator::predicate_type(pred)),
-					iterator(sprout::end(range), typename iterator::predicate_type(pred))
+					iterator(typename iterator::predicate_type(pred), sprout::begin(range), sprout::end(range)),
+					iterator(typename iterator::predicate_type(pred), sprout::end(range), sprout::end(range))
 					)
 			{}
 		};
-- 
2.43.0


From 2ace468f5d64e7e6f47dd753ffddbed69279a2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:35 +0000
Subject: [PATCH 095/218] fix: compare sizes of one type in blanked ranges

---
 sprout/range/adaptor/blanked.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/range/adaptor/blanked.hpp b/sprout/range/adaptor/blanked.hpp
index 1b4ea53..b1d5f88 100644
--- a/sprout/range/adaptor/blanked.hpp
+++ b/sprout/range/adaptor/blanked.hpp
@@ -60,7 +60,7 @@ namespace sprout {
 				difference_type n
 				)
 				: base_type(
-					iterator(value_type(), NS_SSCRISK_CEL_OR_SPROUT::min(n, sprout::size(range))),
+					iterator(value_type(), NS_SSCRISK_CEL_OR_SPROUT::min<difference_type>(n, sprout::size(range))),
 					iterator(value_type(), 0)
 					)
 			{}
@@ -70,7 +70,7 @@ namespace sprout {
 				value_type const& value
 				)
 				: base_type(
-					iterator(value, NS_SSCRISK_CEL_OR_SPROUT::min(n, sprout::size(range))),
+					iterator(value, NS_SSCRISK_CEL_OR_SPROUT::min<difference_type>(n, sprout::size(range))),
 					iterator(value, 0)
 					)
 			{}
-- 
2.43.0


From 1f557519b67f961f0b0bb929595e61f6c5b723fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:35 +0000
Subject: [PATCH 096/218] fix: let piped hold more than two adaptors

---
 sprout/range/adaptor/piped.hpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/sprout/range/adaptor/piped.hpp b/sprout/range/adaptor/piped.hpp
index d2f7cb4..e51a417 100644
--- a/sprout/range/adaptor/piped.hpp
+++ b/sprout/range/adaptor/piped.hpp
@@ -20,6 +20,25 @@
 namespace sprout {
 	namespace adaptors {
 		namespace detail {
+			template<typename Range, typename... Adaptors>
+			struct apply_adaptors_result;
+			template<typename Range>
+			struct apply_adaptors_result<Range> {
+			public:
+				typedef Range&& type;
+			};
+			template<typename Range, typename Adaptor>
+			struct apply_adaptors_result<Range, Adaptor> {
+			public:
+				typedef decltype(std::declval<Range>() | std::declval<Adaptor const&>()) type;
+			};
+			template<typename Range, typename Adaptor, typename... Tail>
+			struct apply_adaptors_result<Range, Adaptor, Tail...>
+				: public sprout::adaptors::detail::apply_adaptors_result<
+					typename sprout::adaptors::detail::apply_adaptors_result<Range, Adaptor>::type, Tail...
+				>
+			{};
+
 			template<typename Range>
 			inline SPROUT_CONSTEXPR auto
 			apply_adaptors_impl(Range&& range)
@@ -37,7 +56,7 @@ namespace sprout {
 			template<typename Range, typename Adaptor, typename... Tail>
 			inline SPROUT_CONSTEXPR auto
 			apply_adaptors_impl(Range&& range, Adaptor const& adaptor, Tail const&... tail)
-			-> decltype(sprout::adaptors::detail::apply_adaptors_impl(SPROUT_FORWARD(Range, range) | adaptor, tail...))
+			-> typename sprout::adaptors::detail::apply_adaptors_result<Range, Adaptor, Tail...>::type
 			{
 				return sprout::adaptors::detail::apply_adaptors_impl(SPROUT_FORWARD(Range, range) | adaptor, tail...);
 			}
-- 
2.43.0


From 41b5e6cda9504b3abaddbae3f4695e1ed57771d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:33 +0000
Subject: [PATCH 097/218] fix: do not return references to temporaries from
 two-range iterators

---
 sprout/iterator/alternate_iterator.hpp                | 2 +-
 sprout/iterator/insert_range_iterator.hpp             | 2 +-
 sprout/iterator/joint_iterator.hpp                    | 2 +-
 sprout/iterator/merge_iterator.hpp                    | 2 +-
 sprout/iterator/set_symmetric_difference_iterator.hpp | 2 +-
 sprout/iterator/set_union_iterator.hpp                | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sprout/iterator/alternate_iterator.hpp b/sprout/iterator/alternate_iterator.hpp
index f49864d..ae13807 100644
--- a/sprout/iterator/alternate_iterator.hpp
+++ b/sprout/iterator/alternate_iterator.hpp
@@ -85,7 +85,7 @@ namespace sprout {
 			return in_left;
 		}
 		SPROUT_CONSTEXPR reference operator*() const {
-			return is_in_left() ? *current1 : *current2;
+			return is_in_left() ? static_cast<reference>(*current1) : static_cast<reference>(*current2);
 		}
 		SPROUT_CONSTEXPR pointer operator->() const {
 			return &*(*this);
diff --git a/sprout/iterator/insert_range_iterator.hpp b/sprout/iterator/insert_range_iterator.hpp
index f3574f2..67ccfc6 100644
--- a/sprout/iterator/insert_range_iterator.hpp
+++ b/sprout/iterator/insert_range_iterator.hpp
@@ -106,7 +106,7 @@ namespace sprout {
 			return current1 != pos1 || current2 == last2;
 		}
 		SPROUT_CONSTEXPR reference operator*() const {
-			return is_in_base() ? *current1 : *current2;
+			return is_in_base() ? static_cast<reference>(*current1) : static_cast<reference>(*current2);
 		}
 		SPROUT_CONSTEXPR pointer operator->() const {
 			return &*(*this);
diff --git a/sprout/iterator/joint_iterator.hpp b/sprout/iterator/joint_iterator.hpp
index 1354301..4b9f6bb 100644
--- a/sprout/iterator/joint_iterator.hpp
+++ b/sprout/iterator/joint_iterator.hpp
@@ -104,7 +104,7 @@ namespace sprout {
 			return current1 != last1;
 		}
 		SPROUT_CONSTEXPR reference operator*() const {
-			return is_in_left() ? *current1 : *current2;
+			return is_in_left() ? static_cast<reference>(*current1) : static_cast<reference>(*current2);
 		}
 		SPROUT_CONSTEXPR pointer operator->() const {
 			return &*(*this);
diff --git a/sprout/iterator/merge_iterator.hpp b/sprout/iterator/merge_iterator.hpp
index 20626bc..46447f3 100644
--- a/sprout/iterator/merge_iterator.hpp
+++ b/sprout/iterator/merge_iterator.hpp
@@ -115,7 +115,7 @@ namespace sprout {
 			return in_left;
 		}
 		SPROUT_CONSTEXPR reference operator*() const {
-			return is_in_left() ? *current1 : *current2;
+			return is_in_left() ? static_cast<reference>(*current1) : static_cast<reference>(*current2);
 		}
 		SPROUT_CONSTEXPR pointer operator->() const {
 			return &*(*this);
diff --git a/sprout/iterator/set_symmetric_difference_iterator.hpp b/sprout/iterator/set_symmetric_difference_iterator.hpp
index ae86f04..3db8d75 100644
--- a/sprout/iterator/set_symmetric_difference_iterator.hpp
+++ b/sprout/iterator/set_symmetric_difference_iterator.hpp
@@ -176,7 +176,7 @@ namespace sprout {
 			return in_left;
 		}
 		SPROUT_CONSTEXPR reference operator*() const {
-			return is_in_left() ? *current.first : *current.second;
+			return is_in_left() ? static_cast<reference>(*current.first) : static_cast<reference>(*current.second);
 		}
 		SPROUT_CONSTEXPR pointer operator->() const {
 			return &*(*this);
diff --git a/sprout/iterator/set_union_iterator.hpp b/sprout/iterator/set_union_iterator.hpp
index 14c278e..dc67825 100644
--- a/sprout/iterator/set_union_iterator.hpp
+++ b/sprout/iterator/set_union_iterator.hpp
@@ -126,7 +126,7 @@ namespace sprout {
 			return in_left;
 		}
 		SPROUT_CONSTEXPR reference operator*() const {
-			return is_in_left() ? *current.first : *current.second;
+			return is_in_left() ? static_cast<reference>(*current.first) : static_cast<reference>(*current.second);
 		}
 		SPROUT_CONSTEXPR pointer operator->() const {
 			return &*(*this);
-- 
2.43.0


From 5a68bf302139aac37855895cf1729d8a5dd8d05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:33 +0000
Subject: [PATCH 098/218] fix: keep every element once in adapted_offset

---
 sprout/range/adaptor/adapted_offset.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sprout/range/adaptor/adapted_offset.hpp b/sprout/range/adaptor/adapted_offset.hpp
index a49f5c0..d672ea9 100644
--- a/sprout/range/adaptor/adapted_offset.hpp
+++ b/sprout/range/adaptor/adapted_offset.hpp
@@ -15,6 +15,8 @@
 #include <sprout/range/adaptor/taken_end.hpp>
 #include <sprout/range/adaptor/offset.hpp>
 #include <sprout/range/adaptor/jointed.hpp>
+#include <sprout/container/functions.hpp>
+#include HDR_ALGORITHM_MIN_MAX_SSCRISK_CEL_OR_SPROUT
 
 namespace sprout {
 	namespace adaptors {
@@ -100,9 +102,17 @@ namespace sprout {
 				| sprout::adaptors::jointed(sprout::lvalue_forward<Range>(lhs) | sprout::adaptors::taken_end(rhs.from_end()))
 			)
 		{
+			typedef typename sprout::adaptors::adapt_offset_holder<Adaptor, Difference1, Difference2>::difference_type difference_type;
 			return sprout::lvalue_forward<Range>(lhs) | sprout::adaptors::taken(rhs.from_begin())
 				| sprout::adaptors::jointed(sprout::lvalue_forward<Range>(lhs) | sprout::adaptors::offset(rhs.from_begin(), rhs.from_end()) | rhs.adaptor())
-				| sprout::adaptors::jointed(sprout::lvalue_forward<Range>(lhs) | sprout::adaptors::taken_end(rhs.from_end()))
+				| sprout::adaptors::jointed(
+					sprout::lvalue_forward<Range>(lhs) | sprout::adaptors::taken_end(
+						NS_SSCRISK_CEL_OR_SPROUT::max<difference_type>(
+							rhs.from_end(),
+							NS_SSCRISK_CEL_OR_SPROUT::min<difference_type>(rhs.from_begin() - static_cast<difference_type>(sprout::size(sprout::lvalue_forward<Range>(lhs))), 0)
+							)
+						)
+					)
 				;
 		}
 		template<typename Range, typename Adaptor, typename Difference>
-- 
2.43.0


From 9344cec87d873a575e29113b86be4697fdd010f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:42 +0000
Subject: [PATCH 099/218] fix: transformed_range over two ranges ends where the
 shorter one ends

---
 sprout/range/adaptor/transformed.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sprout/range/adaptor/transformed.hpp b/sprout/range/adaptor/transformed.hpp
index 4e5eecf..40156e3 100644
--- a/sprout/range/adaptor/transformed.hpp
+++ b/sprout/range/adaptor/transformed.hpp
@@ -13,6 +13,8 @@
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/iterator/transform_iterator.hpp>
+#include <sprout/iterator/operation.hpp>
+#include HDR_ALGORITHM_MIN_MAX_SSCRISK_CEL_OR_SPROUT
 #include <sprout/range/adaptor/detail/adapted_range_default.hpp>
 #include <sprout/type_traits/lvalue_reference.hpp>
 #include <sprout/utility/forward.hpp>
@@ -54,7 +56,11 @@ namespace sprout {
 			SPROUT_CONSTEXPR transformed_range(BinaryFunction func, range1_type& range1, range2_type& range2)
 				: base_type(
 					iterator(sprout::begin(range1), sprout::begin(range2), func),
-					iterator(sprout::end(range1), sprout::end(range2), func)
+					iterator(
+						sprout::next(sprout::begin(range1), NS_SSCRISK_CEL_OR_SPROUT::min(sprout::size(range1), sprout::size(range2))),
+						sprout::next(sprout::begin(range2), NS_SSCRISK_CEL_OR_SPROUT::min(sprout::size(range1), sprout::size(range2))),
+						func
+						)
 					)
 			{}
 		};
-- 
2.43.0


From 0571502a9d36fb0eec37f9b1cc8de1565795efbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:00 +0000
Subject: [PATCH 100/218] fix: value_iterator of a value yields it by value

---
 sprout/iterator/value_iterator.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sprout/iterator/value_iterator.hpp b/sprout/iterator/value_iterator.hpp
index c506dae..33dced1 100644
--- a/sprout/iterator/value_iterator.hpp
+++ b/sprout/iterator/value_iterator.hpp
@@ -32,7 +32,11 @@ namespace sprout {
 			typename sprout::value_holder<T>::value_type,
 			std::ptrdiff_t,
 			typename sprout::value_holder<T>::mutable_or_const_pointer,
-			typename sprout::value_holder<T>::mutable_or_const_reference
+			typename std::conditional<
+				std::is_reference<T>::value,
+				typename sprout::value_holder<T>::mutable_or_const_reference,
+				typename sprout::value_holder<T>::value_type
+			>::type
 		>
 	{
 	public:
@@ -48,7 +52,11 @@ namespace sprout {
 			typename sprout::value_holder<T>::value_type,
 			std::ptrdiff_t,
 			typename sprout::value_holder<T>::mutable_or_const_pointer,
-			typename sprout::value_holder<T>::mutable_or_const_reference
+			typename std::conditional<
+				std::is_reference<T>::value,
+				typename sprout::value_holder<T>::mutable_or_const_reference,
+				typename sprout::value_holder<T>::value_type
+			>::type
 		> base_type;
 	public:
 		typedef typename base_type::iterator_category iterator_category;
-- 
2.43.0


From 4ef73c257bca87c4428e9cd173f56519483ec13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:00 +0000
Subject: [PATCH 101/218] fix: moved range begins at the beginning

---
 sprout/range/adaptor/moved.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/range/adaptor/moved.hpp b/sprout/range/adaptor/moved.hpp
index c1c8b47..0f00559 100644
--- a/sprout/range/adaptor/moved.hpp
+++ b/sprout/range/adaptor/moved.hpp
@@ -42,8 +42,8 @@ namespace sprout {
 			moved_range(moved_range const&) = default;
 			explicit SPROUT_CONSTEXPR moved_range(range_type& range)
 				: base_type(
-					iterator(sprout::end(range)),
-					iterator(sprout::begin(range))
+					iterator(sprout::begin(range)),
+					iterator(sprout::end(range))
 					)
 			{}
 		};
-- 
2.43.0


From f0ec120ee84140e4ef794f5a69bb4ad7151326d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:57 +0000
Subject: [PATCH 102/218] fix: fixed and fit adjacent_difference, and fit
 partial_sum with an operation, compile

---
 sprout/numeric/fit/adjacent_difference.hpp   | 2 +-
 sprout/numeric/fit/partial_sum.hpp           | 2 +-
 sprout/numeric/fixed/adjacent_difference.hpp | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/numeric/fit/adjacent_difference.hpp b/sprout/numeric/fit/adjacent_difference.hpp
index 22c0cb3..ff52387 100644
--- a/sprout/numeric/fit/adjacent_difference.hpp
+++ b/sprout/numeric/fit/adjacent_difference.hpp
@@ -56,7 +56,7 @@ namespace sprout {
 				return sprout::sub_copy(
 					sprout::get_internal(sprout::fixed::adjacent_difference(first, last, result, binary_op)),
 					offset,
-					offset + NS_SSCRISK_CEL_OR_SPROUT::min(sprout::distance(first, last), sprout::size(result))
+					offset + sprout::fit_size(result, sprout::distance(first, last))
 					);
 			}
 		}	// namespace detail
diff --git a/sprout/numeric/fit/partial_sum.hpp b/sprout/numeric/fit/partial_sum.hpp
index bebe6e0..46cd572 100644
--- a/sprout/numeric/fit/partial_sum.hpp
+++ b/sprout/numeric/fit/partial_sum.hpp
@@ -56,7 +56,7 @@ namespace sprout {
 				return sprout::sub_copy(
 					sprout::get_internal(sprout::fixed::partial_sum(first, last, result, binary_op)),
 					offset,
-					offset + NS_SSCRISK_CEL_OR_SPROUT::min(sprout::distance(first, last), sprout::size(result))
+					offset + sprout::fit_size(result, sprout::distance(first, last))
 					);
 			}
 		}	// namespace detail
diff --git a/sprout/numeric/fixed/adjacent_difference.hpp b/sprout/numeric/fixed/adjacent_difference.hpp
index 1426e4f..c614581 100644
--- a/sprout/numeric/fixed/adjacent_difference.hpp
+++ b/sprout/numeric/fixed/adjacent_difference.hpp
@@ -70,7 +70,7 @@ namespace sprout {
 				sprout::container_traits<Result>::static_size != 0,
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
-			adjacent_difference_impl_1(
+			adjacent_difference_impl(
 				InputIterator const& first, InputIterator const& last, Result const& result,
 				typename sprout::container_traits<Result>::size_type size
 				)
@@ -144,7 +144,7 @@ namespace sprout {
 				sprout::container_traits<Result>::static_size != 0,
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
-			adjacent_difference_impl_1(
+			adjacent_difference_impl(
 				InputIterator const& first, InputIterator const& last, Result const& result, BinaryOperation binary_op,
 				typename sprout::container_traits<Result>::size_type size
 				)
-- 
2.43.0


From 50916d00f28161c9c03b284e125b9f38bb515ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:57 +0000
Subject: [PATCH 103/218] fix: inner_product compiles for every iterator
 category

---
 sprout/numeric/inner_product.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/numeric/inner_product.hpp b/sprout/numeric/inner_product.hpp
index c29b198..e8cbce7 100644
--- a/sprout/numeric/inner_product.hpp
+++ b/sprout/numeric/inner_product.hpp
@@ -29,7 +29,7 @@ namespace sprout {
 			typename std::iterator_traits<RandomAccessIterator1>::difference_type pivot, T init
 			)
 		{
-			return pivot == 0 ? binary_op(init, binary_op2(*first1, *first2))
+			return pivot == 0 ? binary_op1(init, binary_op2(*first1, *first2))
 				: sprout::detail::inner_product_ra(
 					sprout::next(first1, pivot), last1, sprout::next(first2, pivot), binary_op1, binary_op2,
 					(sprout::distance(first1, last1) - pivot) / 2,
@@ -109,7 +109,7 @@ namespace sprout {
 			)
 		{
 			typedef sprout::tuples::tuple<InputIterator1, InputIterator2, T> type;
-			return sprout::tuples::get<2>(sprout::detail::inner_product_impl(type(first1, first2, init), last1, binary_op1, binary_op2));
+			return sprout::tuples::get<2>(sprout::detail::inner_product_impl(type(first1, first2, init), last1, binary_op1, binary_op2, 1));
 		}
 	}	// namespace detail
 
-- 
2.43.0


From e9144daebfa24d8ed9d0c01c82d4388acd0172ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:57 +0000
Subject: [PATCH 104/218] fix: transform_inclusive_scan and exclusive_scan into
 small or new containers compile

---
 sprout/numeric/fixed/exclusive_scan.hpp           | 2 +-
 sprout/numeric/fixed/transform_inclusive_scan.hpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/numeric/fixed/exclusive_scan.hpp b/sprout/numeric/fixed/exclusive_scan.hpp
index adb2cb4..eabf780 100644
--- a/sprout/numeric/fixed/exclusive_scan.hpp
+++ b/sprout/numeric/fixed/exclusive_scan.hpp
@@ -104,7 +104,7 @@ namespace sprout {
 		template<typename Result, typename InputIterator, typename T>
 		inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
 		exclusive_scan(InputIterator first, InputIterator last, T init) {
-			return sprout::fixed::exclusive_scan<Result>(first, last, sprout::pit<Result>(), init);
+			return sprout::fixed::exclusive_scan(first, last, sprout::pit<Result>(), init);
 		}
 
 		namespace detail {
diff --git a/sprout/numeric/fixed/transform_inclusive_scan.hpp b/sprout/numeric/fixed/transform_inclusive_scan.hpp
index 0d3ca49..6c43859 100644
--- a/sprout/numeric/fixed/transform_inclusive_scan.hpp
+++ b/sprout/numeric/fixed/transform_inclusive_scan.hpp
@@ -102,7 +102,7 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			transform_inclusive_scan_impl(
-				InputIterator const&, InputIterator const&, Result const& result, BinaryOperation, T,
+				InputIterator const&, InputIterator const&, Result const& result, BinaryOperation, UnaryOperation, T,
 				typename sprout::container_traits<Result>::size_type
 				)
 			{
@@ -114,7 +114,7 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			transform_inclusive_scan_impl(
-				InputIterator const&, InputIterator const&, Result const& result, BinaryOperation, T init,
+				InputIterator const&, InputIterator const&, Result const& result, BinaryOperation, UnaryOperation, T init,
 				typename sprout::container_traits<Result>::size_type
 				)
 			{
@@ -176,7 +176,7 @@ namespace sprout {
 	template<typename Result, typename InputIterator, typename BinaryOperation, typename UnaryOperation, typename T>
 	inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
 	transform_inclusive_scan(InputIterator first, InputIterator last, BinaryOperation binary_op, UnaryOperation unary_op, T init) {
-		return sprout::fixed::transform_inclusive_scan<Result>(first, last, binary_op, unary_op, unary_op, init);
+		return sprout::fixed::transform_inclusive_scan<Result>(first, last, binary_op, unary_op, init);
 	}
 }	// namespace sprout
 
-- 
2.43.0


From cf064725f6082698a8223a4b97cfb5e3619cd31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:33 +0000
Subject: [PATCH 105/218] fix: fixed scans write nothing outside an empty
 destination window

---
 sprout/numeric/fixed/adjacent_difference.hpp      |  4 ++--
 sprout/numeric/fixed/inclusive_scan.hpp           | 10 ++++++----
 sprout/numeric/fixed/partial_sum.hpp              |  4 ++--
 sprout/numeric/fixed/transform_inclusive_scan.hpp | 12 +++++++-----
 4 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/sprout/numeric/fixed/adjacent_difference.hpp b/sprout/numeric/fixed/adjacent_difference.hpp
index c614581..ed6e31a 100644
--- a/sprout/numeric/fixed/adjacent_difference.hpp
+++ b/sprout/numeric/fixed/adjacent_difference.hpp
@@ -75,7 +75,7 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? adjacent_difference_impl_1(sprout::next(first), last, result, size, *first, *first)
 					: sprout::detail::container_complate(result)
 					;
@@ -149,7 +149,7 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? adjacent_difference_impl_1(sprout::next(first), last, result, binary_op, size, *first, *first)
 					: sprout::detail::container_complate(result)
 					;
diff --git a/sprout/numeric/fixed/inclusive_scan.hpp b/sprout/numeric/fixed/inclusive_scan.hpp
index c68052e..f46198e 100644
--- a/sprout/numeric/fixed/inclusive_scan.hpp
+++ b/sprout/numeric/fixed/inclusive_scan.hpp
@@ -66,10 +66,12 @@ namespace sprout {
 			>::type
 			inclusive_scan_impl(
 				InputIterator const&, InputIterator const&, Result const& result, BinaryOperation, T init,
-				typename sprout::container_traits<Result>::size_type
+				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return sprout::remake<Result>(result, sprout::size(result), init);
+				return size != 0 ? sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
+					;
 			}
 			template<typename InputIterator, typename Result, typename BinaryOperation, typename T>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
@@ -81,8 +83,8 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
-					? partial_sum_impl_1(first, last, result, binary_op, size, init)
+				return size == 0 ? sprout::detail::container_complate(result)
+					: first != last ? partial_sum_impl_1(first, last, result, binary_op, size, init)
 					: sprout::detail::container_complate(result, init)
 					;
 			}
diff --git a/sprout/numeric/fixed/partial_sum.hpp b/sprout/numeric/fixed/partial_sum.hpp
index d0144cc..6e56a46 100644
--- a/sprout/numeric/fixed/partial_sum.hpp
+++ b/sprout/numeric/fixed/partial_sum.hpp
@@ -75,7 +75,7 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? partial_sum_impl_1(sprout::next(first), last, result, size, *first)
 					: sprout::detail::container_complate(result)
 					;
@@ -149,7 +149,7 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? partial_sum_impl_1(sprout::next(first), last, result, binary_op, size, *first)
 					: sprout::detail::container_complate(result)
 					;
diff --git a/sprout/numeric/fixed/transform_inclusive_scan.hpp b/sprout/numeric/fixed/transform_inclusive_scan.hpp
index 6c43859..2a4a878 100644
--- a/sprout/numeric/fixed/transform_inclusive_scan.hpp
+++ b/sprout/numeric/fixed/transform_inclusive_scan.hpp
@@ -75,7 +75,7 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? transform_inclusive_scan_impl_1(sprout::next(first), last, result, binary_op, unary_op, size, unary_op(*first))
 					: sprout::detail::container_complate(result)
 					;
@@ -115,10 +115,12 @@ namespace sprout {
 			>::type
 			transform_inclusive_scan_impl(
 				InputIterator const&, InputIterator const&, Result const& result, BinaryOperation, UnaryOperation, T init,
-				typename sprout::container_traits<Result>::size_type
+				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return sprout::remake<Result>(result, sprout::size(result), init);
+				return size != 0 ? sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
+					;
 			}
 			template<typename InputIterator, typename Result, typename BinaryOperation, typename UnaryOperation, typename T>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
@@ -130,8 +132,8 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
-					? transform_inclusive_scan_impl_1(first, last, result, binary_op, unary_op, size, init)
+				return size == 0 ? sprout::detail::container_complate(result)
+					: first != last ? transform_inclusive_scan_impl_1(first, last, result, binary_op, unary_op, size, init)
 					: sprout::detail::container_complate(result, init)
 					;
 			}
-- 
2.43.0


From 03a6db716ddf096341957cc28a7ffc973fd343e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:33 +0000
Subject: [PATCH 106/218] fix: exclusive scans of an empty range produce
 nothing

---
 sprout/numeric/cxx14/exclusive_scan.hpp       |  6 ++---
 .../cxx14/transform_exclusive_scan.hpp        |  6 ++---
 sprout/numeric/fixed/exclusive_scan.hpp       | 24 +++++++++++--------
 .../fixed/transform_exclusive_scan.hpp        | 12 ++++++----
 4 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/sprout/numeric/cxx14/exclusive_scan.hpp b/sprout/numeric/cxx14/exclusive_scan.hpp
index 0856eb1..7a36e36 100644
--- a/sprout/numeric/cxx14/exclusive_scan.hpp
+++ b/sprout/numeric/cxx14/exclusive_scan.hpp
@@ -24,11 +24,11 @@ namespace sprout {
 	inline SPROUT_CXX14_CONSTEXPR OutputIterator
 	exclusive_scan(InputIterator first, InputIterator last, OutputIterator result, T init, BinaryOperation binary_op) {
 		typedef typename std::iterator_traits<InputIterator>::value_type value_type;
-		value_type sum = sprout::move(init);
-		*result = sum;
 		if (first == last) {
-			return ++result;
+			return result;
 		}
+		value_type sum = sprout::move(init);
+		*result = sum;
 		value_type temp = *first;
 		while (++first != last) {
 			sum = binary_op(sum, temp);
diff --git a/sprout/numeric/cxx14/transform_exclusive_scan.hpp b/sprout/numeric/cxx14/transform_exclusive_scan.hpp
index 14d9c10..fc205a8 100644
--- a/sprout/numeric/cxx14/transform_exclusive_scan.hpp
+++ b/sprout/numeric/cxx14/transform_exclusive_scan.hpp
@@ -24,11 +24,11 @@ namespace sprout {
 	inline SPROUT_CXX14_CONSTEXPR OutputIterator
 	transform_exclusive_scan(InputIterator first, InputIterator last, OutputIterator result, T init, BinaryOperation binary_op, UnaryOperation unary_op) {
 		typedef typename std::iterator_traits<InputIterator>::value_type value_type;
-		value_type sum = sprout::move(init);
-		*result = sum;
 		if (first == last) {
-			return ++result;
+			return result;
 		}
+		value_type sum = sprout::move(init);
+		*result = sum;
 		value_type temp = unary_op(*first);
 		while (++first != last) {
 			sum = binary_op(sum, temp);
diff --git a/sprout/numeric/fixed/exclusive_scan.hpp b/sprout/numeric/fixed/exclusive_scan.hpp
index eabf780..ff4dfd0 100644
--- a/sprout/numeric/fixed/exclusive_scan.hpp
+++ b/sprout/numeric/fixed/exclusive_scan.hpp
@@ -71,11 +71,13 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			exclusive_scan_impl(
-				InputIterator const&, InputIterator const&, Result const& result, T init,
-				typename sprout::container_traits<Result>::size_type
+				InputIterator const& first, InputIterator const& last, Result const& result, T init,
+				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return sprout::detail::container_complate(result, init);
+				return first != last && size != 0 ? sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
+					;
 			}
 			template<typename InputIterator, typename Result, typename T>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
@@ -87,9 +89,9 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? exclusive_scan_impl_1(sprout::next(first), last, result, size, init, *first)
-					: sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
 					;
 			}
 		}	// namespace detail
@@ -159,11 +161,13 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			exclusive_scan_impl(
-				InputIterator const&, InputIterator const&, Result const& result, T init, BinaryOperation,
-				typename sprout::container_traits<Result>::size_type
+				InputIterator const& first, InputIterator const& last, Result const& result, T init, BinaryOperation,
+				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return sprout::detail::container_complate(result, init);
+				return first != last && size != 0 ? sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
+					;
 			}
 			template<typename InputIterator, typename Result, typename T, typename BinaryOperation>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
@@ -175,9 +179,9 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? exclusive_scan_impl_1(sprout::next(first), last, result, binary_op, size, init, *first)
-					: sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
 					;
 			}
 		}	// namespace detail
diff --git a/sprout/numeric/fixed/transform_exclusive_scan.hpp b/sprout/numeric/fixed/transform_exclusive_scan.hpp
index dc009c2..45f32a0 100644
--- a/sprout/numeric/fixed/transform_exclusive_scan.hpp
+++ b/sprout/numeric/fixed/transform_exclusive_scan.hpp
@@ -71,11 +71,13 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			transform_exclusive_scan_impl(
-				InputIterator const&, InputIterator const&, Result const& result, T init, BinaryOperation, UnaryOperation,
-				typename sprout::container_traits<Result>::size_type
+				InputIterator const& first, InputIterator const& last, Result const& result, T init, BinaryOperation, UnaryOperation,
+				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return sprout::detail::container_complate(result, init);
+				return first != last && size != 0 ? sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
+					;
 			}
 			template<typename InputIterator, typename Result, typename T, typename BinaryOperation, typename UnaryOperation>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
@@ -87,9 +89,9 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? transform_exclusive_scan_impl_1(sprout::next(first), last, result, binary_op, unary_op, size, init, unary_op(*first))
-					: sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
 					;
 			}
 		}	// namespace detail
-- 
2.43.0


From 45c6559598375cc18bc0483649e2ec75d5a6a78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:43 +0000
Subject: [PATCH 107/218] fix: to_lower_copy and to_upper_copy pass the
 arguments of transform in order

---
 sprout/algorithm/string/fixed/to_lower_copy.hpp | 2 +-
 sprout/algorithm/string/fixed/to_upper_copy.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/string/fixed/to_lower_copy.hpp b/sprout/algorithm/string/fixed/to_lower_copy.hpp
index 2802342..ce014b6 100644
--- a/sprout/algorithm/string/fixed/to_lower_copy.hpp
+++ b/sprout/algorithm/string/fixed/to_lower_copy.hpp
@@ -23,7 +23,7 @@ namespace sprout {
 			template<typename InputIterator, typename Result>
 			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
 			to_lower_copy(InputIterator first, InputIterator last, Result const& result) {
-				return sprout::fixed::transform(first, last, sprout::ctypes::to_lower<>(), result);
+				return sprout::fixed::transform(first, last, result, sprout::ctypes::to_lower<>());
 			}
 
 			template<typename Result, typename InputIterator>
diff --git a/sprout/algorithm/string/fixed/to_upper_copy.hpp b/sprout/algorithm/string/fixed/to_upper_copy.hpp
index 1cc1199..b2899ce 100644
--- a/sprout/algorithm/string/fixed/to_upper_copy.hpp
+++ b/sprout/algorithm/string/fixed/to_upper_copy.hpp
@@ -23,7 +23,7 @@ namespace sprout {
 			template<typename InputIterator, typename Result>
 			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
 			to_upper_copy(InputIterator first, InputIterator last, Result const& result) {
-				return sprout::fixed::transform(first, last, sprout::ctypes::to_upper<>(), result);
+				return sprout::fixed::transform(first, last, result, sprout::ctypes::to_upper<>());
 			}
 
 			template<typename Result, typename InputIterator>
-- 
2.43.0


From c59595821b0e17c34cac61e080963eba772e4807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:44 +0000
Subject: [PATCH 108/218] fix: range::algorithm::to_lower_copy and
 to_upper_copy are not ambiguous

---
 sprout/range/algorithm/string/fit/to_lower_copy.hpp | 1 -
 sprout/range/algorithm/string/fit/to_upper_copy.hpp | 1 -
 2 files changed, 2 deletions(-)

diff --git a/sprout/range/algorithm/string/fit/to_lower_copy.hpp b/sprout/range/algorithm/string/fit/to_lower_copy.hpp
index 7e139e2..41038cf 100644
--- a/sprout/range/algorithm/string/fit/to_lower_copy.hpp
+++ b/sprout/range/algorithm/string/fit/to_lower_copy.hpp
@@ -27,7 +27,6 @@ namespace sprout {
 				}
 			}	// namespace fit
 
-			using sprout::range::algorithm::fit::to_lower_copy;
 		}	// namespace algorithm
 
 		namespace fit {
diff --git a/sprout/range/algorithm/string/fit/to_upper_copy.hpp b/sprout/range/algorithm/string/fit/to_upper_copy.hpp
index e285eeb..bcbbece 100644
--- a/sprout/range/algorithm/string/fit/to_upper_copy.hpp
+++ b/sprout/range/algorithm/string/fit/to_upper_copy.hpp
@@ -27,7 +27,6 @@ namespace sprout {
 				}
 			}	// namespace fit
 
-			using sprout::range::algorithm::fit::to_upper_copy;
 		}	// namespace algorithm
 
 		namespace fit {
-- 
2.43.0


From 4152d249dbe396fb8641503854f7e0d1930c7bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:01 +0000
Subject: [PATCH 109/218] fix: isclassified tests the classes named by the mask

---
 sprout/ctype/ascii.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/sprout/ctype/ascii.hpp b/sprout/ctype/ascii.hpp
index 0352dc1..32acd17 100644
--- a/sprout/ctype/ascii.hpp
+++ b/sprout/ctype/ascii.hpp
@@ -250,18 +250,18 @@ namespace sprout {
 		} \
 		inline SPROUT_CONSTEXPR bool \
 		SPROUT_PP_CAT(is, SPROUT_PP_CAT(PREFIX, classified))(sprout::ctypes::mask m, CHAR_TYPE c) { \
-			return (m | sprout::ctypes::alnum && (sprout::ascii::detail::get_value(c) & (sprout::ascii::detail::alpha | sprout::ascii::detail::digit))) \
-				|| (m | sprout::ctypes::alpha && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::alpha)) \
-				|| (m | sprout::ctypes::blank && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::blank)) \
-				|| (m | sprout::ctypes::cntrl && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::cntrl)) \
-				|| (m | sprout::ctypes::digit && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::digit)) \
-				|| (m | sprout::ctypes::graph && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::graph)) \
-				|| (m | sprout::ctypes::lower && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::lower)) \
-				|| (m | sprout::ctypes::print && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::print)) \
-				|| (m | sprout::ctypes::punct && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::punct)) \
-				|| (m | sprout::ctypes::space && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::space)) \
-				|| (m | sprout::ctypes::upper && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::upper)) \
-				|| (m | sprout::ctypes::xdigit && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::xdigit)) \
+			return ((m & sprout::ctypes::alnum) == sprout::ctypes::alnum && (sprout::ascii::detail::get_value(c) & (sprout::ascii::detail::alpha | sprout::ascii::detail::digit))) \
+				|| ((m & sprout::ctypes::alpha) == sprout::ctypes::alpha && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::alpha)) \
+				|| ((m & sprout::ctypes::blank) == sprout::ctypes::blank && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::blank)) \
+				|| ((m & sprout::ctypes::cntrl) == sprout::ctypes::cntrl && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::cntrl)) \
+				|| ((m & sprout::ctypes::digit) == sprout::ctypes::digit && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::digit)) \
+				|| ((m & sprout::ctypes::graph) == sprout::ctypes::graph && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::graph)) \
+				|| ((m & sprout::ctypes::lower) == sprout::ctypes::lower && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::lower)) \
+				|| ((m & sprout::ctypes::print) == sprout::ctypes::print && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::print)) \
+				|| ((m & sprout::ctypes::punct) == sprout::ctypes::punct && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::punct)) \
+				|| ((m & sprout::ctypes::space) == sprout::ctypes::space && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::space)) \
+				|| ((m & sprout::ctypes::upper) == sprout::ctypes::upper && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::upper)) \
+				|| ((m & sprout::ctypes::xdigit) == sprout::ctypes::xdigit && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::xdigit)) \
 				; \
 		}
 
-- 
2.43.0


From e0650ce4a726394e8aeded6da566444470f2b47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:30 +0000
Subject: [PATCH 110/218] fix: iterating over a rational names its element type

---
 sprout/rational/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/rational/container.hpp b/sprout/rational/container.hpp
index e7159f9..3ad59c9 100644
--- a/sprout/rational/container.hpp
+++ b/sprout/rational/container.hpp
@@ -21,7 +21,7 @@ namespace sprout {
 		struct rational_at {
 		public:
 			template<typename Rational, typename Index>
-			SPROUT_CONSTEXPR typename Rational::value_type
+			SPROUT_CONSTEXPR typename Rational::int_type
 			operator()(Rational const& c, Index i) const {
 				return i == 0 ? c.numerator()
 					: i == 1 ? c.denominator()
-- 
2.43.0


From c99a112789889de2a3d98248b074bf8a1d777d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:30 +0000
Subject: [PATCH 111/218] fix: compare a negative rational with an integer

---
 sprout/rational/comparison.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/rational/comparison.hpp b/sprout/rational/comparison.hpp
index 2518640..d406aa7 100644
--- a/sprout/rational/comparison.hpp
+++ b/sprout/rational/comparison.hpp
@@ -123,7 +123,7 @@ namespace sprout {
 		{
 			return r < IntType(0) ? sprout::detail::rational_less_impl(
 					lhs, rhs,
-					r + lhs.denominator(), q - 1
+					q - 1, r + lhs.denominator()
 					)
 				: q < rhs
 				;
-- 
2.43.0


From f8f27c55c5df3d20da3beb5d411869c3a4245018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:30 +0000
Subject: [PATCH 112/218] fix: compound assignment of a rational by itself

---
 sprout/rational/rational.hpp | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/sprout/rational/rational.hpp b/sprout/rational/rational.hpp
index 8873073..9b148c7 100644
--- a/sprout/rational/rational.hpp
+++ b/sprout/rational/rational.hpp
@@ -118,28 +118,34 @@ namespace sprout {
 		}
 
 		SPROUT_CXX14_CONSTEXPR rational& operator+=(rational const& rhs) {
-			IntType g = sprout::gcd(den_, rhs.den_);
+			IntType rnum = rhs.num_;
+			IntType rden = rhs.den_;
+			IntType g = sprout::gcd(den_, rden);
 			den_ /= g;
-			num_ = num_ * (rhs.den_ / g) + rhs.num_ * den_;
+			num_ = num_ * (rden / g) + rnum * den_;
 			g = sprout::gcd(num_, g);
 			num_ /= g;
-			den_ *= rhs.den_ / g;
+			den_ *= rden / g;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR rational& operator-=(rational const& rhs) {
-			IntType g = sprout::gcd(den_, rhs.den_);
+			IntType rnum = rhs.num_;
+			IntType rden = rhs.den_;
+			IntType g = sprout::gcd(den_, rden);
 			den_ /= g;
-			num_ = num_ * (rhs.den_ / g) - rhs.num_ * den_;
+			num_ = num_ * (rden / g) - rnum * den_;
 			g = sprout::gcd(num_, g);
 			num_ /= g;
-			den_ *= rhs.den_ / g;
+			den_ *= rden / g;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR rational& operator*=(rational const& rhs) {
-			IntType gcd1 = sprout::gcd(num_, rhs.den_);
-			IntType gcd2 = sprout::gcd(rhs.num_, den_);
-			num_ =(num_ / gcd1) * (rhs.num_ / gcd2);
-			den_ =(den_ / gcd2) * (rhs.den_ / gcd1);
+			IntType rnum = rhs.num_;
+			IntType rden = rhs.den_;
+			IntType gcd1 = sprout::gcd(num_, rden);
+			IntType gcd2 = sprout::gcd(rnum, den_);
+			num_ =(num_ / gcd1) * (rnum / gcd2);
+			den_ =(den_ / gcd2) * (rden / gcd1);
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR rational& operator/=(rational const& rhs) {
@@ -149,10 +155,12 @@ namespace sprout {
 			if (num_ == IntType(0)) {
 				return *this;
 			}
-			IntType gcd1 = sprout::gcd(num_, rhs.num_);
-			IntType gcd2 = sprout::gcd(rhs.den_, den_);
-			num_ =(num_ / gcd1) * (rhs.den_ / gcd2);
-			den_ =(den_ / gcd2) * (rhs.num_ / gcd1);
+			IntType rnum = rhs.num_;
+			IntType rden = rhs.den_;
+			IntType gcd1 = sprout::gcd(num_, rnum);
+			IntType gcd2 = sprout::gcd(rden, den_);
+			num_ =(num_ / gcd1) * (rden / gcd2);
+			den_ =(den_ / gcd2) * (rnum / gcd1);
 			if (den_ < IntType(0)) {
 				num_ = -num_;
 				den_ = -den_;
-- 
2.43.0


From dca3f66b29e817a77795a98b45e5bf58ad208c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:00 +0000
Subject: [PATCH 113/218] fix: rational of an integer type narrower than int

---
 sprout/rational/arithmetic.hpp | 22 +++++++++++-----------
 sprout/rational/comparison.hpp | 16 ++++++++--------
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/sprout/rational/arithmetic.hpp b/sprout/rational/arithmetic.hpp
index 63e8e50..cc23998 100644
--- a/sprout/rational/arithmetic.hpp
+++ b/sprout/rational/arithmetic.hpp
@@ -56,7 +56,7 @@ namespace sprout {
 			IntType g, IntType den, IntType num
 			)
 		{
-			return rational_add_impl_3(
+			return rational_add_impl_3<IntType>(
 				rhs,
 				sprout::gcd(num, g), den, num
 				);
@@ -68,7 +68,7 @@ namespace sprout {
 			IntType g, IntType den
 			)
 		{
-			return rational_add_impl_2(
+			return rational_add_impl_2<IntType>(
 				rhs,
 				g, den, lhs.numerator() * (rhs.denominator() / g) + rhs.numerator() * den
 				);
@@ -80,7 +80,7 @@ namespace sprout {
 			IntType g
 			)
 		{
-			return rational_add_impl_1(
+			return rational_add_impl_1<IntType>(
 				lhs, rhs,
 				g, lhs.denominator() / g
 				);
@@ -89,7 +89,7 @@ namespace sprout {
 	template<typename IntType>
 	inline SPROUT_CONSTEXPR sprout::rational<IntType>
 	operator+(sprout::rational<IntType> const& lhs, sprout::rational<IntType> const& rhs) {
-		return sprout::detail::rational_add_impl(
+		return sprout::detail::rational_add_impl<IntType>(
 			lhs, rhs,
 			sprout::gcd(lhs.denominator(), rhs.denominator())
 			);
@@ -124,7 +124,7 @@ namespace sprout {
 			IntType g, IntType den, IntType num
 			)
 		{
-			return rational_sub_impl_3(
+			return rational_sub_impl_3<IntType>(
 				rhs,
 				sprout::gcd(num, g), den, num
 				);
@@ -136,7 +136,7 @@ namespace sprout {
 			IntType g, IntType den
 			)
 		{
-			return rational_sub_impl_2(
+			return rational_sub_impl_2<IntType>(
 				rhs,
 				g, den, lhs.numerator() * (rhs.denominator() / g) - rhs.numerator() * den
 				);
@@ -148,7 +148,7 @@ namespace sprout {
 			IntType g
 			)
 		{
-			return rational_sub_impl_1(
+			return rational_sub_impl_1<IntType>(
 				lhs, rhs,
 				g, lhs.denominator() / g
 				);
@@ -157,7 +157,7 @@ namespace sprout {
 	template<typename IntType>
 	inline SPROUT_CONSTEXPR sprout::rational<IntType>
 	operator-(sprout::rational<IntType> const& lhs, sprout::rational<IntType> const& rhs) {
-		return sprout::detail::rational_sub_impl(
+		return sprout::detail::rational_sub_impl<IntType>(
 			lhs, rhs,
 			sprout::gcd(lhs.denominator(), rhs.denominator())
 			);
@@ -190,7 +190,7 @@ namespace sprout {
 	template<typename IntType>
 	inline SPROUT_CONSTEXPR sprout::rational<IntType>
 	operator*(sprout::rational<IntType> const& lhs, sprout::rational<IntType> const& rhs) {
-		return sprout::detail::rational_mul_impl(
+		return sprout::detail::rational_mul_impl<IntType>(
 			lhs, rhs,
 			sprout::gcd(lhs.numerator(), rhs.denominator()),
 			sprout::gcd(rhs.numerator(), lhs.denominator())
@@ -222,7 +222,7 @@ namespace sprout {
 			IntType gcd1, IntType gcd2
 			)
 		{
-			return sprout::detail::rational_div_impl_1(
+			return sprout::detail::rational_div_impl_1<IntType>(
 				(lhs.numerator() / gcd1) * (rhs.denominator() / gcd2),
 				(lhs.denominator() / gcd2) * (rhs.numerator() / gcd1)
 				);
@@ -233,7 +233,7 @@ namespace sprout {
 	operator/(sprout::rational<IntType> const& lhs, sprout::rational<IntType> const& rhs) {
 		return rhs.numerator() == IntType(0) ? throw sprout::bad_rational()
 			: lhs.numerator() == IntType(0) ? lhs
-			: sprout::detail::rational_div_impl(
+			: sprout::detail::rational_div_impl<IntType>(
 				lhs, rhs,
 				sprout::gcd(lhs.numerator(), rhs.numerator()),
 				sprout::gcd(rhs.denominator(), lhs.denominator())
diff --git a/sprout/rational/comparison.hpp b/sprout/rational/comparison.hpp
index d406aa7..1a83fec 100644
--- a/sprout/rational/comparison.hpp
+++ b/sprout/rational/comparison.hpp
@@ -67,7 +67,7 @@ namespace sprout {
 				: r1 == IntType(0) || r2 == IntType(0)
 					? r1 == r2 ? false
 					: (r1 != IntType(0)) != static_cast<bool>(reverse ^ 1)
-				: sprout::detail::rational_less_impl_2(
+				: sprout::detail::rational_less_impl_2<IntType>(
 					lhs, rhs,
 					r1, d1 / r1, d1 % r1,
 					r2, d2 / r2, d2 % r2,
@@ -83,12 +83,12 @@ namespace sprout {
 			IntType d2, IntType q2, IntType r2
 			)
 		{
-			return r2 < IntType(0) ? sprout::detail::rational_less_impl_1(
+			return r2 < IntType(0) ? sprout::detail::rational_less_impl_1<IntType>(
 					lhs, rhs,
 					d1, q1, r1,
 					d2, q2 - 1, r2 + d2
 					)
-				: sprout::detail::rational_less_impl_2(
+				: sprout::detail::rational_less_impl_2<IntType>(
 					lhs, rhs,
 					d1, q1, r1,
 					d2, q2, r2
@@ -102,11 +102,11 @@ namespace sprout {
 			IntType d1, IntType q1, IntType r1
 			)
 		{
-			return r1 < IntType(0) ? sprout::detail::rational_less_impl(
+			return r1 < IntType(0) ? sprout::detail::rational_less_impl<IntType>(
 					lhs, rhs,
 					d1, q1 - 1, r1 + d1
 					)
-				: sprout::detail::rational_less_impl_1(
+				: sprout::detail::rational_less_impl_1<IntType>(
 					lhs, rhs,
 					d1, q1, r1,
 					rhs.denominator(), rhs.numerator() / rhs.denominator(), rhs.numerator() % rhs.denominator()
@@ -121,7 +121,7 @@ namespace sprout {
 			IntType q, IntType r
 			)
 		{
-			return r < IntType(0) ? sprout::detail::rational_less_impl(
+			return r < IntType(0) ? sprout::detail::rational_less_impl<IntType>(
 					lhs, rhs,
 					q - 1, r + lhs.denominator()
 					)
@@ -132,7 +132,7 @@ namespace sprout {
 	template<typename IntType>
 	inline SPROUT_CONSTEXPR bool
 	operator<(sprout::rational<IntType> const& lhs, sprout::rational<IntType> const& rhs) {
-		return sprout::detail::rational_less_impl(
+		return sprout::detail::rational_less_impl<IntType>(
 			lhs, rhs,
 			lhs.denominator(), lhs.numerator() / lhs.denominator(), lhs.numerator() % lhs.denominator()
 			);
@@ -140,7 +140,7 @@ namespace sprout {
 	template<typename IntType>
 	inline SPROUT_CONSTEXPR bool
 	operator<(sprout::rational<IntType> const& lhs, typename sprout::rational<IntType>::param_type rhs) {
-		return sprout::detail::rational_less_impl(
+		return sprout::detail::rational_less_impl<IntType>(
 			lhs, rhs,
 			lhs.numerator() / lhs.denominator(), lhs.numerator() % lhs.denominator()
 			);
-- 
2.43.0


From ebe16ca966a52558ffb9fe533d9691507fde2c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:44 +0000
Subject: [PATCH 114/218] fix: assign a rational without recursing

---
 sprout/rational/rational.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/rational/rational.hpp b/sprout/rational/rational.hpp
index 9b148c7..93166c9 100644
--- a/sprout/rational/rational.hpp
+++ b/sprout/rational/rational.hpp
@@ -97,8 +97,8 @@ namespace sprout {
 		{}
 
 		SPROUT_CXX14_CONSTEXPR rational& operator=(rational const& rhs) SPROUT_NOEXCEPT {
-			rational temp(rhs);
-			sprout::swap(temp, *this);
+			num_ = rhs.num_;
+			den_ = rhs.den_;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR rational& operator=(param_type n) SPROUT_NOEXCEPT {
-- 
2.43.0


From b1a1aa82b0a396ec0c91e6e8ca6eec47c24edc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:51 +0000
Subject: [PATCH 115/218] fix: complex::cend is the end

---
 sprout/complex/complex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/complex/complex.hpp b/sprout/complex/complex.hpp
index 01a9bc6..dea691c 100644
--- a/sprout/complex/complex.hpp
+++ b/sprout/complex/complex.hpp
@@ -167,7 +167,7 @@ namespace sprout {
 			return elems_.cbegin();
 		}
 		SPROUT_CONSTEXPR const_iterator cend() const SPROUT_NOEXCEPT {
-			return elems_.cbegin();
+			return elems_.cend();
 		}
 		SPROUT_CONSTEXPR const_reverse_iterator crbegin() const SPROUT_NOEXCEPT {
 			return elems_.crbegin();
-- 
2.43.0


From f8b241fc18cf6f0d5fb040f538bdf7f9e51f15a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:51 +0000
Subject: [PATCH 116/218] fix: quaternion::cend is the end

---
 sprout/math/quaternion/quaternion.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/math/quaternion/quaternion.hpp b/sprout/math/quaternion/quaternion.hpp
index e1988e5..9c52a04 100644
--- a/sprout/math/quaternion/quaternion.hpp
+++ b/sprout/math/quaternion/quaternion.hpp
@@ -281,7 +281,7 @@ namespace sprout {
 				return elems_.cbegin();
 			}
 			SPROUT_CONSTEXPR const_iterator cend() const SPROUT_NOEXCEPT {
-				return elems_.cbegin();
+				return elems_.cend();
 			}
 			SPROUT_CONSTEXPR const_reverse_iterator crbegin() const SPROUT_NOEXCEPT {
 				return elems_.crbegin();
@@ -580,7 +580,7 @@ namespace sprout {
 				return elems_.cbegin(); \
 			} \
 			SPROUT_CONSTEXPR const_iterator cend() const SPROUT_NOEXCEPT { \
-				return elems_.cbegin(); \
+				return elems_.cend(); \
 			} \
 			SPROUT_CONSTEXPR const_reverse_iterator crbegin() const SPROUT_NOEXCEPT { \
 				return elems_.crbegin(); \
-- 
2.43.0


From 55d8f09647843fad802c29602606a1a1e99229e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:51 +0000
Subject: [PATCH 117/218] fix: quaternions of floating point keep their second
 component

---
 sprout/math/quaternion/quaternion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/math/quaternion/quaternion.hpp b/sprout/math/quaternion/quaternion.hpp
index 9c52a04..1da7e86 100644
--- a/sprout/math/quaternion/quaternion.hpp
+++ b/sprout/math/quaternion/quaternion.hpp
@@ -370,7 +370,7 @@ namespace sprout {
 				type const& requested_c = static_cast<type>(0), \
 				type const& requested_d = static_cast<type>(0) \
 				) \
-				: elems_{{requested_a, requested_a, requested_c, requested_d}} \
+				: elems_{{requested_a, requested_b, requested_c, requested_d}} \
 			{} \
 			explicit SPROUT_CONSTEXPR quaternion( \
 				sprout::complex<type> const& z0, \
-- 
2.43.0


From 418f16582190351e8808419b2d2b50e6272636e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:51 +0000
Subject: [PATCH 118/218] fix: subtract a quaternion from a scalar or complex

---
 sprout/math/quaternion/arithmetic_operators.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sprout/math/quaternion/arithmetic_operators.hpp b/sprout/math/quaternion/arithmetic_operators.hpp
index 89c90ea..5d7b488 100644
--- a/sprout/math/quaternion/arithmetic_operators.hpp
+++ b/sprout/math/quaternion/arithmetic_operators.hpp
@@ -74,9 +74,9 @@ namespace sprout {
 		operator-(T const& lhs, sprout::math::quaternion<T> const& rhs) {
 			return sprout::math::quaternion<T>(
 				lhs - rhs.R_component_1(),
-				rhs.R_component_2(),
-				rhs.R_component_3(),
-				rhs.R_component_4()
+				-rhs.R_component_2(),
+				-rhs.R_component_3(),
+				-rhs.R_component_4()
 				);
 		}
 		template<typename T>
@@ -95,8 +95,8 @@ namespace sprout {
 			return sprout::math::quaternion<T>(
 				lhs.real() - rhs.R_component_1(),
 				lhs.imag() - rhs.R_component_2(),
-				rhs.R_component_3(),
-				rhs.R_component_4()
+				-rhs.R_component_3(),
+				-rhs.R_component_4()
 				);
 		}
 		template<typename T>
-- 
2.43.0


From 6eb6003c422355b3865dbdf000852031c85c1b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:51 +0000
Subject: [PATCH 119/218] fix: multiply a quaternion and a complex

---
 .../math/quaternion/arithmetic_operators.hpp  | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/sprout/math/quaternion/arithmetic_operators.hpp b/sprout/math/quaternion/arithmetic_operators.hpp
index 5d7b488..bbb7517 100644
--- a/sprout/math/quaternion/arithmetic_operators.hpp
+++ b/sprout/math/quaternion/arithmetic_operators.hpp
@@ -153,21 +153,31 @@ namespace sprout {
 					-c * br + d * ar
 					);
 			}
+			template<typename T>
+			inline SPROUT_CONSTEXPR sprout::math::quaternion<T>
+			mul_cq_impl(T const& a, T const& b, T const& ar, T const& br, T const& cr, T const& dr) {
+				return sprout::math::quaternion<T>(
+					+a * ar - b * br,
+					+a * br + b * ar,
+					+a * cr - b * dr,
+					+a * dr + b * cr
+					);
+			}
 		}	// namespace detail
 		template<typename T>
 		inline SPROUT_CONSTEXPR sprout::math::quaternion<T>
 		operator*(sprout::complex<T> const& lhs, sprout::math::quaternion<T> const& rhs) {
-			return sprout::math::detail::mul_qc_impl(
-				lhs.R_component_1(), lhs.R_component_2(), lhs.R_component_3(), lhs.R_component_4(),
-				rhs.real(), rhs.imag()
+			return sprout::math::detail::mul_cq_impl(
+				lhs.real(), lhs.imag(),
+				rhs.R_component_1(), rhs.R_component_2(), rhs.R_component_3(), rhs.R_component_4()
 				);
 		}
 		template<typename T>
 		inline SPROUT_CONSTEXPR sprout::math::quaternion<T>
 		operator*(sprout::math::quaternion<T> const& lhs, sprout::complex<T> const& rhs) {
 			return sprout::math::detail::mul_qc_impl(
-				rhs.R_component_1(), rhs.R_component_2(), rhs.R_component_3(), rhs.R_component_4(),
-				lhs.real(), lhs.imag()
+				lhs.R_component_1(), lhs.R_component_2(), lhs.R_component_3(), lhs.R_component_4(),
+				rhs.real(), rhs.imag()
 				);
 		}
 		namespace detail {
-- 
2.43.0


From 87a8a3714a6dc4ad9a874ce770b0cc112d12477b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:51 +0000
Subject: [PATCH 120/218] fix: divide quaternions

---
 sprout/math/quaternion/arithmetic_operators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/math/quaternion/arithmetic_operators.hpp b/sprout/math/quaternion/arithmetic_operators.hpp
index bbb7517..7dd0664 100644
--- a/sprout/math/quaternion/arithmetic_operators.hpp
+++ b/sprout/math/quaternion/arithmetic_operators.hpp
@@ -234,7 +234,7 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR sprout::math::quaternion<T>
 			div_qq_impl_3(sprout::array<T, 4> const& tr, T const& mixam, sprout::array<T, 4> const& tt) {
-				return sprout::math::detail::div_qq_impl_3(
+				return sprout::math::detail::div_qq_impl_4(
 					sprout::math::detail::mul(tt, mixam / sprout::math::detail::sum(tr))
 					);
 			}
-- 
2.43.0


From 57d65edfa184f43029939ab81f36291bfcb04e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:51 +0000
Subject: [PATCH 121/218] fix: divide a scalar by a quaternion

---
 .../math/quaternion/arithmetic_operators.hpp   | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/sprout/math/quaternion/arithmetic_operators.hpp b/sprout/math/quaternion/arithmetic_operators.hpp
index 7dd0664..306cd00 100644
--- a/sprout/math/quaternion/arithmetic_operators.hpp
+++ b/sprout/math/quaternion/arithmetic_operators.hpp
@@ -205,16 +205,6 @@ namespace sprout {
 		//
 		template<typename T>
 		inline SPROUT_CONSTEXPR sprout::math::quaternion<T>
-		operator/(T const& lhs, sprout::math::quaternion<T> const& rhs) {
-			return sprout::math::quaternion<T>(
-				lhs / rhs.R_component_1(),
-				lhs / rhs.R_component_2(),
-				lhs / rhs.R_component_3(),
-				lhs / rhs.R_component_4()
-				);
-		}
-		template<typename T>
-		inline SPROUT_CONSTEXPR sprout::math::quaternion<T>
 		operator/(sprout::math::quaternion<T> const& lhs, T const& rhs) {
 			return sprout::math::quaternion<T>(
 				lhs.R_component_1() / rhs,
@@ -269,6 +259,14 @@ namespace sprout {
 		}	// namespace detail
 		template<typename T>
 		inline SPROUT_CONSTEXPR sprout::math::quaternion<T>
+		operator/(T const& lhs, sprout::math::quaternion<T> const& rhs) {
+			return sprout::math::detail::div_qq_impl(
+				lhs, static_cast<T>(0), static_cast<T>(0), static_cast<T>(0),
+				sprout::array<T, 4>{{rhs.R_component_1(), rhs.R_component_2(), rhs.R_component_3(), rhs.R_component_4()}}
+				);
+		}
+		template<typename T>
+		inline SPROUT_CONSTEXPR sprout::math::quaternion<T>
 		operator/(sprout::complex<T> const& lhs, sprout::math::quaternion<T> const& rhs) {
 			return sprout::math::detail::div_qq_impl(
 				lhs.real(), lhs.imag(), static_cast<T>(0), static_cast<T>(0),
-- 
2.43.0


From c1b06bc149651ef993ed3ecda5c45d779812cae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:32 +0000
Subject: [PATCH 122/218] fix: quaternion/l1.hpp has its own include guard

---
 sprout/math/quaternion/l1.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/math/quaternion/l1.hpp b/sprout/math/quaternion/l1.hpp
index 910b15d..81033a2 100644
--- a/sprout/math/quaternion/l1.hpp
+++ b/sprout/math/quaternion/l1.hpp
@@ -5,8 +5,8 @@
   Distributed under the Boost Software License, Version 1.0. (See accompanying
   file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 =============================================================================*/
-#ifndef SPROUT_MATH_QUATERNION_SUP_HPP
-#define SPROUT_MATH_QUATERNION_SUP_HPP
+#ifndef SPROUT_MATH_QUATERNION_L1_HPP
+#define SPROUT_MATH_QUATERNION_L1_HPP
 
 #include <sprout/config.hpp>
 #include <sprout/array/array.hpp>
@@ -35,4 +35,4 @@ namespace sprout {
 	using sprout::math::l1;
 }	// namespace sprout
 
-#endif	// #ifndef SPROUT_MATH_QUATERNION_SUP_HPP
+#endif	// #ifndef SPROUT_MATH_QUATERNION_L1_HPP
-- 
2.43.0


From 792caca73d01ea2684c6824e37d43e63a96eebe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:32 +0000
Subject: [PATCH 123/218] fix: read a quaternion that ends the stream

---
 sprout/math/quaternion/stream_operators.hpp | 36 ++++++++++-----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/sprout/math/quaternion/stream_operators.hpp b/sprout/math/quaternion/stream_operators.hpp
index 5f215c4..36d20a3 100644
--- a/sprout/math/quaternion/stream_operators.hpp
+++ b/sprout/math/quaternion/stream_operators.hpp
@@ -50,13 +50,13 @@ namespace sprout {
 			Elem ch = Elem();
 			char cc;
 			lhs >> ch;
-			if (!lhs.good()) {
+			if (lhs.fail()) {
 				goto finish;
 			}
 			cc = ct.narrow(ch, char());
 			if (cc == '(') {
 				lhs >> ch;
-				if (!lhs.good()) {
+				if (lhs.fail()) {
 					goto finish;
 				}
 				cc = ct.narrow(ch, char());
@@ -65,11 +65,11 @@ namespace sprout {
 					lhs >> u;
 					a = u.real();
 					b = u.imag();
-					if (!lhs.good()) {
+					if (lhs.fail()) {
 						goto finish;
 					}
 					lhs >> ch;
-					if (!lhs.good()) {
+					if (lhs.fail()) {
 						goto finish;
 					}
 					cc = ct.narrow(ch, char());
@@ -79,11 +79,11 @@ namespace sprout {
 						lhs >> v;
 						c = v.real();
 						d = v.imag();
-						if (!lhs.good()) {
+						if (lhs.fail()) {
 							goto finish;
 						}
 						lhs >> ch;
-						if (!lhs.good()) {
+						if (lhs.fail()) {
 							goto finish;
 						}
 						cc = ct.narrow(ch, char());
@@ -98,11 +98,11 @@ namespace sprout {
 				} else {
 					lhs.putback(ch);
 					lhs >> a;
-					if (!lhs.good()) {
+					if (lhs.fail()) {
 						goto finish;
 					}
 					lhs >> ch;
-					if (!lhs.good()) {
+					if (lhs.fail()) {
 						goto finish;
 					}
 					cc = ct.narrow(ch, char());
@@ -110,7 +110,7 @@ namespace sprout {
 						rhs = sprout::math::quaternion<T>(a);
 					} else if (cc == ',') {
 						lhs >> ch;
-						if (!lhs.good()) {
+						if (lhs.fail()) {
 							goto finish;
 						}
 						cc = ct.narrow(ch, char());
@@ -119,11 +119,11 @@ namespace sprout {
 							lhs >> v;
 							c = v.real();
 							d = v.imag();
-							if (!lhs.good()) {
+							if (lhs.fail()) {
 								goto finish;
 							}
 							lhs >> ch;
-							if (!lhs.good()) {
+							if (lhs.fail()) {
 								goto finish;
 							}
 							cc = ct.narrow(ch, char());
@@ -135,11 +135,11 @@ namespace sprout {
 						} else {
 							lhs.putback(ch);
 							lhs >> b;
-							if (!lhs.good()) {
+							if (lhs.fail()) {
 								goto finish;
 							}
 							lhs >> ch;
-							if (!lhs.good()) {
+							if (lhs.fail()) {
 								goto finish;
 							}
 							cc = ct.narrow(ch, char());
@@ -147,11 +147,11 @@ namespace sprout {
 								rhs = sprout::math::quaternion<T>(a, b);
 							} else if (cc == ',') {
 								lhs >> c;
-								if (!lhs.good()) {
+								if (lhs.fail()) {
 									goto finish;
 								}
 								lhs >> ch;
-								if (!lhs.good()) {
+								if (lhs.fail()) {
 									goto finish;
 								}
 								cc = ct.narrow(ch, char());
@@ -159,11 +159,11 @@ namespace sprout {
 									rhs = sprout::math::quaternion<T>(a, b, c);
 								} else if (cc == ',') {
 									lhs >> d;
-									if (!lhs.good()) {
+									if (lhs.fail()) {
 										goto finish;
 									}
 									lhs >> ch;
-									if (!lhs.good()) {
+									if (lhs.fail()) {
 										goto finish;
 									}
 									cc = ct.narrow(ch, char());
@@ -186,7 +186,7 @@ namespace sprout {
 			} else {
 				lhs.putback(ch);
 				lhs >> a;
-				if (!lhs.good()) {
+				if (lhs.fail()) {
 					goto finish;
 				}
 				rhs = sprout::math::quaternion<T>(a);
-- 
2.43.0


From 709ee4a3c916aa05f59460263887580859383113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:04 +0000
Subject: [PATCH 124/218] fix: lround and llround of an integer

---
 sprout/math/llround.hpp | 2 +-
 sprout/math/lround.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/math/llround.hpp b/sprout/math/llround.hpp
index 660fc75..3aca469 100644
--- a/sprout/math/llround.hpp
+++ b/sprout/math/llround.hpp
@@ -60,7 +60,7 @@ namespace sprout {
 		llround(IntType x) {
 			return
 #if SPROUT_USE_BUILTIN_CMATH_FUNCTION
-				sprout::math::detail::builtin_llround(x)
+				sprout::math::detail::builtin_llround(static_cast<double>(x))
 #else
 				sprout::math::iround<long long>(x)
 #endif
diff --git a/sprout/math/lround.hpp b/sprout/math/lround.hpp
index e2d42ca..575938d 100644
--- a/sprout/math/lround.hpp
+++ b/sprout/math/lround.hpp
@@ -60,7 +60,7 @@ namespace sprout {
 		lround(IntType x) {
 			return
 #if SPROUT_USE_BUILTIN_CMATH_FUNCTION
-				sprout::math::detail::builtin_lround(x)
+				sprout::math::detail::builtin_lround(static_cast<double>(x))
 #else
 				sprout::math::iround<long>(x)
 #endif
-- 
2.43.0


From 582aa0be58ed3256da4cc5495ea29c5852c0cd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:04 +0000
Subject: [PATCH 125/218] fix: issubnormal looks at the limits of its own type

---
 sprout/math/issubnormal.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/math/issubnormal.hpp b/sprout/math/issubnormal.hpp
index 5cf7230..2f60a1e 100644
--- a/sprout/math/issubnormal.hpp
+++ b/sprout/math/issubnormal.hpp
@@ -28,8 +28,8 @@ namespace sprout {
 			inline SPROUT_CONSTEXPR bool
 			issubnormal_or_zero(FloatType x) {
 				return x > 0
-					? x < sprout::numeric_limits<double>::min()
-					: x > -sprout::numeric_limits<double>::min()
+					? x < sprout::numeric_limits<FloatType>::min()
+					: x > -sprout::numeric_limits<FloatType>::min()
 					;
 			}
 		}	// namespace detail
-- 
2.43.0


From 27c7ad5fde3880b8e824ce4622f8b2c053123396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:41 +0000
Subject: [PATCH 126/218] fix: portable rounding of 2^64

---
 sprout/math/ceil.hpp  | 2 +-
 sprout/math/floor.hpp | 2 +-
 sprout/math/round.hpp | 2 +-
 sprout/math/trunc.hpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/math/ceil.hpp b/sprout/math/ceil.hpp
index a72c3c2..6e9de19 100644
--- a/sprout/math/ceil.hpp
+++ b/sprout/math/ceil.hpp
@@ -68,7 +68,7 @@ namespace sprout {
 				: sprout::math::detail::builtin_ceil(x)
 #else
 				: x == 0 ? x
-				: sprout::numeric_limits<std::uintmax_t>::max() < x || sprout::numeric_limits<std::uintmax_t>::max() < -x
+				: sprout::numeric_limits<std::uintmax_t>::max() <= x || sprout::numeric_limits<std::uintmax_t>::max() <= -x
 					? SPROUT_MATH_THROW_LARGE_FLOAT_ROUNDING(std::runtime_error("ceil: large float rounding."), x)
 				: static_cast<FloatType>(sprout::math::detail::ceil_impl(static_cast<typename sprout::math::detail::float_compute<FloatType>::type>(x)))
 #endif
diff --git a/sprout/math/floor.hpp b/sprout/math/floor.hpp
index b018752..b2f8def 100644
--- a/sprout/math/floor.hpp
+++ b/sprout/math/floor.hpp
@@ -68,7 +68,7 @@ namespace sprout {
 				: sprout::math::detail::builtin_floor(x)
 #else
 				: x == 0 ? x
-				: sprout::numeric_limits<std::uintmax_t>::max() < x || sprout::numeric_limits<std::uintmax_t>::max() < -x
+				: sprout::numeric_limits<std::uintmax_t>::max() <= x || sprout::numeric_limits<std::uintmax_t>::max() <= -x
 					? SPROUT_MATH_THROW_LARGE_FLOAT_ROUNDING(std::runtime_error("floor: large float rounding."), x)
 				: static_cast<FloatType>(sprout::math::detail::floor_impl(static_cast<typename sprout::math::detail::float_compute<FloatType>::type>(x)))
 #endif
diff --git a/sprout/math/round.hpp b/sprout/math/round.hpp
index 1d2a361..ea8e9d7 100644
--- a/sprout/math/round.hpp
+++ b/sprout/math/round.hpp
@@ -74,7 +74,7 @@ namespace sprout {
 				: sprout::math::detail::builtin_round(x)
 #else
 				: x == 0 ? x
-				: sprout::numeric_limits<std::uintmax_t>::max() < x || sprout::numeric_limits<std::uintmax_t>::max() < -x
+				: sprout::numeric_limits<std::uintmax_t>::max() <= x || sprout::numeric_limits<std::uintmax_t>::max() <= -x
 					? SPROUT_MATH_THROW_LARGE_FLOAT_ROUNDING(std::runtime_error("round: large float rounding."), x)
 				: static_cast<FloatType>(sprout::math::detail::round_impl(static_cast<typename sprout::math::detail::float_compute<FloatType>::type>(x)))
 #endif
diff --git a/sprout/math/trunc.hpp b/sprout/math/trunc.hpp
index 80eaba3..291ef4c 100644
--- a/sprout/math/trunc.hpp
+++ b/sprout/math/trunc.hpp
@@ -51,7 +51,7 @@ namespace sprout {
 				: sprout::math::detail::builtin_trunc(x)
 #else
 				: x == 0 ? x
-				: sprout::numeric_limits<std::uintmax_t>::max() < x || sprout::numeric_limits<std::uintmax_t>::max() < -x
+				: sprout::numeric_limits<std::uintmax_t>::max() <= x || sprout::numeric_limits<std::uintmax_t>::max() <= -x
 					? SPROUT_MATH_THROW_LARGE_FLOAT_ROUNDING(std::runtime_error("trunc: large float rounding."), x)
 				: x < 0 ? -static_cast<FloatType>(static_cast<std::uintmax_t>(-x))
 				: static_cast<FloatType>(static_cast<std::uintmax_t>(x))
-- 
2.43.0


From b9349c7bc20b1e244ce8d1027f8f222ea1e90dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:16 +0000
Subject: [PATCH 127/218] fix: portable floor and ceil are exact

---
 sprout/math/ceil.hpp   | 2 +-
 sprout/math/floor.hpp  | 2 +-
 sprout/math/iceil.hpp  | 2 +-
 sprout/math/ifloor.hpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/math/ceil.hpp b/sprout/math/ceil.hpp
index 6e9de19..2c49738 100644
--- a/sprout/math/ceil.hpp
+++ b/sprout/math/ceil.hpp
@@ -40,7 +40,7 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			ceil_impl_1(T x, T x0) {
-				return sprout::math::equal_to(x, x0) ? x0
+				return x == x0 ? x0
 					: x0 + T(1)
 					;
 			}
diff --git a/sprout/math/floor.hpp b/sprout/math/floor.hpp
index b2f8def..520e90f 100644
--- a/sprout/math/floor.hpp
+++ b/sprout/math/floor.hpp
@@ -40,7 +40,7 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			floor_impl_1(T x, T x0) {
-				return sprout::math::equal_to(x, x0) ? x0
+				return x == x0 ? x0
 					: x0 - T(1)
 					;
 			}
diff --git a/sprout/math/iceil.hpp b/sprout/math/iceil.hpp
index 86def99..fefc48e 100644
--- a/sprout/math/iceil.hpp
+++ b/sprout/math/iceil.hpp
@@ -54,7 +54,7 @@ namespace sprout {
 			template<typename To, typename FloatType>
 			inline SPROUT_CONSTEXPR To
 			iceil_impl(FloatType x, To x0) {
-				return sprout::math::less_equal(x, x0) ? x0
+				return x <= x0 ? x0
 					: x0 + 1
 					;
 			}
diff --git a/sprout/math/ifloor.hpp b/sprout/math/ifloor.hpp
index a664fc8..570005f 100644
--- a/sprout/math/ifloor.hpp
+++ b/sprout/math/ifloor.hpp
@@ -54,7 +54,7 @@ namespace sprout {
 			template<typename To, typename FloatType>
 			inline SPROUT_CONSTEXPR To
 			ifloor_impl(FloatType x, To x0) {
-				return sprout::math::greater_equal(x, x0) ? x0
+				return x >= x0 ? x0
 					: x0 - 1
 					;
 			}
-- 
2.43.0


From 933642ae77cc6c02e471b9edb3393a7e6aaf6db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:16 +0000
Subject: [PATCH 128/218] fix: portable islessequal

---
 sprout/math/islessequal.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/math/islessequal.hpp b/sprout/math/islessequal.hpp
index 0f9896a..8e0d6d9 100644
--- a/sprout/math/islessequal.hpp
+++ b/sprout/math/islessequal.hpp
@@ -39,7 +39,7 @@ namespace sprout {
 #if SPROUT_USE_BUILTIN_CMATH_FUNCTION
 				sprout::math::detail::builtin_islessequal(x, y)
 #else
-				!sprout::math::isnan(x) && !sprout::math::isnan(y) && (x < y)
+				!sprout::math::isnan(x) && !sprout::math::isnan(y) && (x <= y)
 #endif
 				;
 		}
-- 
2.43.0


From 42fb4444dcb3270aba4617a2694b1578f425fd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:16 +0000
Subject: [PATCH 129/218] fix: math::equal_to of integers of different
 signedness

---
 sprout/math/equal_to.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/math/equal_to.hpp b/sprout/math/equal_to.hpp
index e6d613f..c67620e 100644
--- a/sprout/math/equal_to.hpp
+++ b/sprout/math/equal_to.hpp
@@ -54,7 +54,7 @@ namespace sprout {
 			>
 			inline SPROUT_CONSTEXPR bool
 			equal_to(IntType1 x, IntType2 y) {
-				return x == y;
+				return (x < 0) == (y < 0) && x == y;
 			}
 		}	// namespace detail
 		//
-- 
2.43.0


From b1863da429886c4c09cd77c43a220cab655a1939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:16 +0000
Subject: [PATCH 130/218] fix: fdim of two equal infinities is zero

---
 sprout/math/fdim.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sprout/math/fdim.hpp b/sprout/math/fdim.hpp
index 29cb58a..25112da 100644
--- a/sprout/math/fdim.hpp
+++ b/sprout/math/fdim.hpp
@@ -45,6 +45,7 @@ namespace sprout {
 		fdim(FloatType x, FloatType y) {
 			return sprout::math::isnan(y) ? y
 				: sprout::math::isnan(x) ? x
+				: x == y ? FloatType(0)
 				: x == sprout::numeric_limits<FloatType>::infinity() ? sprout::numeric_limits<FloatType>::infinity()
 				: x == -sprout::numeric_limits<FloatType>::infinity() ? FloatType(0)
 				: y == sprout::numeric_limits<FloatType>::infinity() ? FloatType(0)
-- 
2.43.0


From cc610bdd3176b960b2294b092154ce424d08a80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:16 +0000
Subject: [PATCH 131/218] fix: portable ldexp, scalbn and scalbln by large
 exponents

---
 sprout/math/ldexp.hpp   | 15 ++++++++++++++-
 sprout/math/scalbln.hpp | 15 ++++++++++++++-
 sprout/math/scalbn.hpp  | 15 ++++++++++++++-
 3 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/sprout/math/ldexp.hpp b/sprout/math/ldexp.hpp
index 44452b8..01f0465 100644
--- a/sprout/math/ldexp.hpp
+++ b/sprout/math/ldexp.hpp
@@ -15,6 +15,7 @@
 #include <sprout/math/detail/config.hpp>
 #include <sprout/math/detail/float_compute.hpp>
 #include <sprout/math/isnan.hpp>
+#include <sprout/math/isinf.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
 
 namespace sprout {
@@ -38,7 +39,19 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			ldexp_impl(T x, int exp) {
-				return x * sprout::detail::pow_n(T(2), exp);
+				return x == 0 || sprout::math::isinf(x) ? x
+					: exp > sprout::numeric_limits<T>::max_exponent - 1
+						? sprout::math::detail::ldexp_impl(
+							x * sprout::detail::pow_n(T(2), sprout::numeric_limits<T>::max_exponent - 1),
+							exp - (sprout::numeric_limits<T>::max_exponent - 1)
+							)
+					: exp < sprout::numeric_limits<T>::min_exponent - 1
+						? sprout::math::detail::ldexp_impl(
+							x * sprout::detail::pow_n(T(2), sprout::numeric_limits<T>::min_exponent - 1 + sprout::numeric_limits<T>::digits),
+							exp - (sprout::numeric_limits<T>::min_exponent - 1 + sprout::numeric_limits<T>::digits)
+							)
+					: x * sprout::detail::pow_n(T(2), exp)
+					;
 			}
 		}	// namespace detail
 		//
diff --git a/sprout/math/scalbln.hpp b/sprout/math/scalbln.hpp
index 78faa8a..9609daa 100644
--- a/sprout/math/scalbln.hpp
+++ b/sprout/math/scalbln.hpp
@@ -15,6 +15,7 @@
 #include <sprout/math/detail/config.hpp>
 #include <sprout/math/detail/float_compute.hpp>
 #include <sprout/math/isnan.hpp>
+#include <sprout/math/isinf.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
 
 namespace sprout {
@@ -38,7 +39,19 @@ namespace sprout {
 			template<typename FloatType, typename T>
 			inline SPROUT_CONSTEXPR T
 			scalbln_impl(T x, long exp) {
-				return x * sprout::detail::pow_n(T(sprout::numeric_limits<FloatType>::radix), exp);
+				return x == 0 || sprout::math::isinf(x) ? x
+					: exp > sprout::numeric_limits<T>::max_exponent - 1
+						? sprout::math::detail::scalbln_impl<FloatType>(
+							x * sprout::detail::pow_n(T(sprout::numeric_limits<FloatType>::radix), sprout::numeric_limits<T>::max_exponent - 1),
+							exp - (sprout::numeric_limits<T>::max_exponent - 1)
+							)
+					: exp < sprout::numeric_limits<T>::min_exponent - 1
+						? sprout::math::detail::scalbln_impl<FloatType>(
+							x * sprout::detail::pow_n(T(sprout::numeric_limits<FloatType>::radix), sprout::numeric_limits<T>::min_exponent - 1 + sprout::numeric_limits<T>::digits),
+							exp - (sprout::numeric_limits<T>::min_exponent - 1 + sprout::numeric_limits<T>::digits)
+							)
+					: x * sprout::detail::pow_n(T(sprout::numeric_limits<FloatType>::radix), exp)
+					;
 			}
 		}	// namespace detail
 		//
diff --git a/sprout/math/scalbn.hpp b/sprout/math/scalbn.hpp
index 51b5e65..772b940 100644
--- a/sprout/math/scalbn.hpp
+++ b/sprout/math/scalbn.hpp
@@ -15,6 +15,7 @@
 #include <sprout/math/detail/config.hpp>
 #include <sprout/math/detail/float_compute.hpp>
 #include <sprout/math/isnan.hpp>
+#include <sprout/math/isinf.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
 
 namespace sprout {
@@ -38,7 +39,19 @@ namespace sprout {
 			template<typename FloatType, typename T>
 			inline SPROUT_CONSTEXPR T
 			scalbn_impl(T x, int exp) {
-				return x * sprout::detail::pow_n(T(sprout::numeric_limits<FloatType>::radix), exp);
+				return x == 0 || sprout::math::isinf(x) ? x
+					: exp > sprout::numeric_limits<T>::max_exponent - 1
+						? sprout::math::detail::scalbn_impl<FloatType>(
+							x * sprout::detail::pow_n(T(sprout::numeric_limits<FloatType>::radix), sprout::numeric_limits<T>::max_exponent - 1),
+							exp - (sprout::numeric_limits<T>::max_exponent - 1)
+							)
+					: exp < sprout::numeric_limits<T>::min_exponent - 1
+						? sprout::math::detail::scalbn_impl<FloatType>(
+							x * sprout::detail::pow_n(T(sprout::numeric_limits<FloatType>::radix), sprout::numeric_limits<T>::min_exponent - 1 + sprout::numeric_limits<T>::digits),
+							exp - (sprout::numeric_limits<T>::min_exponent - 1 + sprout::numeric_limits<T>::digits)
+							)
+					: x * sprout::detail::pow_n(T(sprout::numeric_limits<FloatType>::radix), exp)
+					;
 			}
 		}	// namespace detail
 		//
-- 
2.43.0


From d3494196268936a0d675c5d6a23ad4eef173ebbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:17 +0000
Subject: [PATCH 132/218] fix: significands of very large and very small
 numbers

---
 sprout/math/float2_sig_exp.hpp     | 4 ++--
 sprout/math/float2_significand.hpp | 4 ++--
 sprout/math/float_sig_exp.hpp      | 4 ++--
 sprout/math/float_significand.hpp  | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/sprout/math/float2_sig_exp.hpp b/sprout/math/float2_sig_exp.hpp
index ccb3e85..d0d27e9 100644
--- a/sprout/math/float2_sig_exp.hpp
+++ b/sprout/math/float2_sig_exp.hpp
@@ -11,9 +11,9 @@
 #include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/limits.hpp>
-#include <sprout/detail/pow.hpp>
 #include <sprout/math/detail/config.hpp>
 #include <sprout/math/isnan.hpp>
+#include <sprout/math/ldexp.hpp>
 #include <sprout/math/ilogb2.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
 #include <sprout/utility/pair/pair.hpp>
@@ -25,7 +25,7 @@ namespace sprout {
 			inline SPROUT_CONSTEXPR sprout::pair<T, int>
 			float2_sig_exp_impl(T x, int exp) {
 				typedef sprout::pair<T, int> type;
-				return type(x / sprout::detail::pow_n(T(2), exp), exp);
+				return type(sprout::math::ldexp(x, -exp), exp);
 			}
 		}	// namespace detail
 		//
diff --git a/sprout/math/float2_significand.hpp b/sprout/math/float2_significand.hpp
index c3098eb..78165f8 100644
--- a/sprout/math/float2_significand.hpp
+++ b/sprout/math/float2_significand.hpp
@@ -11,9 +11,9 @@
 #include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/limits.hpp>
-#include <sprout/detail/pow.hpp>
 #include <sprout/math/detail/config.hpp>
 #include <sprout/math/isnan.hpp>
+#include <sprout/math/ldexp.hpp>
 #include <sprout/math/float2_exponent.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
 
@@ -32,7 +32,7 @@ namespace sprout {
 				: x == sprout::numeric_limits<FloatType>::infinity() ? sprout::numeric_limits<FloatType>::infinity()
 				: x == -sprout::numeric_limits<FloatType>::infinity() ? -sprout::numeric_limits<FloatType>::infinity()
 				: x == 0 ? x
-				: x / sprout::detail::pow_n(FloatType(2), sprout::float2_exponent(x))
+				: sprout::math::ldexp(x, -sprout::math::float2_exponent(x))
 				;
 		}
 		template<
diff --git a/sprout/math/float_sig_exp.hpp b/sprout/math/float_sig_exp.hpp
index 4f42b5a..76f7c6d 100644
--- a/sprout/math/float_sig_exp.hpp
+++ b/sprout/math/float_sig_exp.hpp
@@ -11,9 +11,9 @@
 #include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/limits.hpp>
-#include <sprout/detail/pow.hpp>
 #include <sprout/math/detail/config.hpp>
 #include <sprout/math/isnan.hpp>
+#include <sprout/math/scalbn.hpp>
 #include <sprout/math/ilogb.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
 #include <sprout/utility/pair/pair.hpp>
@@ -25,7 +25,7 @@ namespace sprout {
 			inline SPROUT_CONSTEXPR sprout::pair<T, int>
 			float_sig_exp_impl(T x, int exp) {
 				typedef sprout::pair<T, int> type;
-				return type(x / sprout::detail::pow_n(T(sprout::numeric_limits<T>::radix), exp), exp);
+				return type(sprout::math::scalbn(x, -exp), exp);
 			}
 		}	// namespace detail
 		//
diff --git a/sprout/math/float_significand.hpp b/sprout/math/float_significand.hpp
index 0d7f7ff..8e5086c 100644
--- a/sprout/math/float_significand.hpp
+++ b/sprout/math/float_significand.hpp
@@ -11,9 +11,9 @@
 #include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/limits.hpp>
-#include <sprout/detail/pow.hpp>
 #include <sprout/math/detail/config.hpp>
 #include <sprout/math/isnan.hpp>
+#include <sprout/math/scalbn.hpp>
 #include <sprout/math/float_exponent.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
 
@@ -32,7 +32,7 @@ namespace sprout {
 				: x == sprout::numeric_limits<FloatType>::infinity() ? sprout::numeric_limits<FloatType>::infinity()
 				: x == -sprout::numeric_limits<FloatType>::infinity() ? -sprout::numeric_limits<FloatType>::infinity()
 				: x == 0 ? x
-				: x / sprout::detail::pow_n(FloatType(sprout::numeric_limits<FloatType>::radix), sprout::float_exponent(x))
+				: sprout::math::scalbn(x, -sprout::math::float_exponent(x))
 				;
 		}
 		template<
-- 
2.43.0


From 8d579041eeeddbfe5855fb02f5af2b4cde97fbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:17 +0000
Subject: [PATCH 133/218] fix: portable logb at the ends of the range

---
 sprout/math/logb.hpp | 68 ++++++++++++--------------------------------
 1 file changed, 18 insertions(+), 50 deletions(-)

diff --git a/sprout/math/logb.hpp b/sprout/math/logb.hpp
index 9459ea9..1140633 100644
--- a/sprout/math/logb.hpp
+++ b/sprout/math/logb.hpp
@@ -42,76 +42,44 @@ namespace sprout {
 
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
-			logb_impl_3_neg_lo(T x, T x0, T base, T exp) {
-				return base < 1 ? sprout::math::detail::logb_impl_3_neg_lo(
-						x, x0 * sprout::numeric_limits<T>::radix, x / (x0 / sprout::numeric_limits<T>::radix), exp - 1
-						)
+			logb_impl_3_lo(T x, T x0, T exp) {
+				return x < x0 ? sprout::math::detail::logb_impl_3_lo(x, x0 / sprout::numeric_limits<T>::radix, exp - 1)
 					: exp
 					;
 			}
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
-			logb_impl_3_neg_hi(T x, T x0, T base, T exp) {
-				return !(base < sprout::numeric_limits<T>::radix) ? sprout::math::detail::logb_impl_3_neg_hi(
-						x, x0 / sprout::numeric_limits<T>::radix, x / (x0 * sprout::numeric_limits<T>::radix), exp + 1
-						)
+			logb_impl_3_hi(T x, T x0, T exp) {
+				return !(x < x0 * sprout::numeric_limits<T>::radix) ? sprout::math::detail::logb_impl_3_hi(x, x0 * sprout::numeric_limits<T>::radix, exp + 1)
 					: exp
 					;
 			}
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
-			logb_impl_3_pos_lo(T x, T x0, T base, T exp) {
-				return base < 1 ? sprout::math::detail::logb_impl_3_pos_lo(
-						x, x0 * sprout::numeric_limits<T>::radix, x / (x0 / sprout::numeric_limits<T>::radix), exp - 1
-						)
-					: exp
+			logb_impl_2(T x, T x0, T exp) {
+				return x < x0 ? sprout::math::detail::logb_impl_3_lo(x, x0, exp)
+					: sprout::math::detail::logb_impl_3_hi(x, x0, exp)
 					;
 			}
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
-			logb_impl_3_pos_hi(T x, T x0, T base, T exp) {
-				return !(base < sprout::numeric_limits<T>::radix) ? sprout::math::detail::logb_impl_3_pos_hi(
-						x, x0 / sprout::numeric_limits<T>::radix, x / (x0 * sprout::numeric_limits<T>::radix), exp + 1
+			logb_impl_1(T x, T exp) {
+				return exp > sprout::numeric_limits<T>::max_exponent - 1
+						? sprout::math::detail::logb_impl_1(x, T(sprout::numeric_limits<T>::max_exponent - 1))
+					: exp < sprout::numeric_limits<T>::min_exponent - 1
+						? sprout::math::detail::logb_impl_1(x, T(sprout::numeric_limits<T>::min_exponent - 1))
+					: sprout::math::detail::logb_impl_2(
+						x, sprout::detail::pow_n(T(sprout::numeric_limits<T>::radix), sprout::math::itrunc<std::intmax_t>(exp)), exp
 						)
-					: exp
 					;
 			}
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
-			logb_impl_3(T x, T x0, T base, T exp) {
-				return x < 1
-					? base < 1 ? sprout::math::detail::logb_impl_3_neg_lo(
-							x, x0 * sprout::numeric_limits<T>::radix, x / (x0 / sprout::numeric_limits<T>::radix), exp - 1
-							)
-						: !(base < sprout::numeric_limits<T>::radix) ? sprout::math::detail::logb_impl_3_neg_hi(
-								x, x0 / sprout::numeric_limits<T>::radix, x / (x0 * sprout::numeric_limits<T>::radix), exp + 1
-								)
-						: exp
-					: base < 1 ? sprout::math::detail::logb_impl_3_pos_lo(
-							x, x0 * sprout::numeric_limits<T>::radix, x / (x0 / sprout::numeric_limits<T>::radix), exp - 1
-							)
-						: !(base < sprout::numeric_limits<T>::radix) ? sprout::math::detail::logb_impl_3_pos_hi(
-								x, x0 / sprout::numeric_limits<T>::radix, x / (x0 * sprout::numeric_limits<T>::radix), exp + 1
-								)
-						: exp
-						;
-			}
-			template<typename T>
-			inline SPROUT_CONSTEXPR T
-			logb_impl_2(T x, T x0, T exp) {
-				return sprout::math::detail::logb_impl_3(x, x0, x / x0, exp);
-			}
-			template<typename T>
-			inline SPROUT_CONSTEXPR T
-			logb_impl_1(T x, T exp) {
-				return sprout::math::detail::logb_impl_2(
-					x, sprout::detail::pow_n(T(sprout::numeric_limits<T>::radix), sprout::math::itrunc<std::intmax_t>(exp)), exp
-					);
-			}
-			template<typename T>
-			inline SPROUT_CONSTEXPR T
 			logb_impl(T x) {
-				return x < 0 ? sprout::math::detail::logb_impl_1(-x, sprout::math::trunc(sprout::math::log_a(T(sprout::numeric_limits<T>::radix), -x)))
+				return x < 0 ? sprout::math::detail::logb_impl(-x)
+					: x < sprout::numeric_limits<T>::min()
+						? sprout::math::detail::logb_impl(x * sprout::detail::pow_n(T(sprout::numeric_limits<T>::radix), sprout::numeric_limits<T>::digits))
+							- sprout::numeric_limits<T>::digits
 					: sprout::math::detail::logb_impl_1(x, sprout::math::trunc(sprout::math::log_a(T(sprout::numeric_limits<T>::radix), x)))
 					;
 			}
-- 
2.43.0


From 81e3c681664484f84860124ebb3e0e14e51829a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:34 +0000
Subject: [PATCH 134/218] fix: make_range over an engine without a distribution

---
 sprout/random/range.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/random/range.hpp b/sprout/random/range.hpp
index ed96050..a30f980 100644
--- a/sprout/random/range.hpp
+++ b/sprout/random/range.hpp
@@ -42,9 +42,9 @@ namespace sprout {
 			Engine const& engine,
 			typename sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>::difference_type count = -1
 			)
-		-> sprout::range::range_container<sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type> >
+		-> sprout::range::range_container<sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type> >
 		{
-			return sprout::range::range_container<sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type> >(
+			return sprout::range::range_container<sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type> >(
 				sprout::random::begin(engine, count),
 				sprout::random::end(engine)
 				);
-- 
2.43.0


From 8e4984fdd1df4c883230270af21fa25f444f8de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:34 +0000
Subject: [PATCH 135/218] fix: seeding an engine from a constant seed sequence
 or a range

---
 sprout/random/detail/seed_impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/random/detail/seed_impl.hpp b/sprout/random/detail/seed_impl.hpp
index 03c93e2..fc8138e 100644
--- a/sprout/random/detail/seed_impl.hpp
+++ b/sprout/random/detail/seed_impl.hpp
@@ -39,7 +39,7 @@ namespace sprout {
 				>
 			{};
 
-			template<typename IntType, IntType m, int log, int k, typename Array>
+			template<typename IntType, IntType m, int k, typename Array>
 			inline SPROUT_CONSTEXPR IntType
 			seed_one_int_impl(Array const& arr, IntType s, int j) {
 				return j < k ? sprout::random::detail::seed_one_int_impl<IntType, m, k>(
@@ -80,7 +80,7 @@ namespace sprout {
 				return s;
 			}
 
-			template<typename IntType, IntType m, int log, int k, typename InputIterator>
+			template<typename IntType, IntType m, int k, typename InputIterator>
 			inline SPROUT_CONSTEXPR IntType
 			get_one_int_impl(InputIterator first, InputIterator last, IntType s, int j) {
 				return j < k
-- 
2.43.0


From de7d85d209e3ee5664b44d816338a5dd878a58aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:17 +0000
Subject: [PATCH 136/218] fix: iterating over the numbers of an engine

---
 sprout/random/iterator.hpp | 24 ++++++++++++------------
 sprout/random/range.hpp    | 12 ++++++------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/sprout/random/iterator.hpp b/sprout/random/iterator.hpp
index 262927b..896c774 100644
--- a/sprout/random/iterator.hpp
+++ b/sprout/random/iterator.hpp
@@ -25,26 +25,26 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR auto
 		begin(
 			Engine const& engine, Distribution const& distribution,
-			typename sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>::difference_type count = -1
+			typename sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>::difference_type count = -1
 			)
-		-> sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>
+		-> sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>
 		{
 			return count >= 0
-				? sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>(distribution(engine), count)
-				: sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>(distribution(engine))
+				? sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>(distribution(engine), count)
+				: sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>(distribution(engine))
 				;
 		}
 		template<typename Engine>
 		inline SPROUT_CONSTEXPR auto
 		begin(
 			Engine const& engine,
-			typename sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>::difference_type count = -1
+			typename sprout::generator_iterator<typename std::decay<decltype(engine())>::type>::difference_type count = -1
 			)
-		-> sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>
+		-> sprout::generator_iterator<typename std::decay<decltype(engine())>::type>
 		{
 			return count >= 0
-				? sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>(engine(), count)
-				: sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>(engine())
+				? sprout::generator_iterator<typename std::decay<decltype(engine())>::type>(engine(), count)
+				: sprout::generator_iterator<typename std::decay<decltype(engine())>::type>(engine())
 				;
 		}
 
@@ -57,16 +57,16 @@ namespace sprout {
 		>
 		inline SPROUT_CONSTEXPR auto
 		end(Engine const& engine, Distribution const& distribution)
-		-> sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>
+		-> sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>
 		{
-			return sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>();
+			return sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>();
 		}
 		template<typename Engine>
 		inline SPROUT_CONSTEXPR auto
 		end(Engine const& engine)
-		-> sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>
+		-> sprout::generator_iterator<typename std::decay<decltype(engine())>::type>
 		{
-			return sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>();
+			return sprout::generator_iterator<typename std::decay<decltype(engine())>::type>();
 		}
 	}	// namespace random
 }	// namespace sprout
diff --git a/sprout/random/range.hpp b/sprout/random/range.hpp
index a30f980..03d914d 100644
--- a/sprout/random/range.hpp
+++ b/sprout/random/range.hpp
@@ -27,11 +27,11 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR auto
 		make_range(
 			Engine const& engine, Distribution const& distribution,
-			typename sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>::difference_type count = -1
+			typename sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>::difference_type count = -1
 			)
-		-> sprout::range::range_container<sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type> >
+		-> sprout::range::range_container<sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type> >
 		{
-			return sprout::range::range_container<sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type> >(
+			return sprout::range::range_container<sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type> >(
 				sprout::random::begin(engine, distribution, count),
 				sprout::random::end(engine, distribution)
 				);
@@ -40,11 +40,11 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR auto
 		make_range(
 			Engine const& engine,
-			typename sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>::difference_type count = -1
+			typename sprout::generator_iterator<typename std::decay<decltype(engine())>::type>::difference_type count = -1
 			)
-		-> sprout::range::range_container<sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type> >
+		-> sprout::range::range_container<sprout::generator_iterator<typename std::decay<decltype(engine())>::type> >
 		{
-			return sprout::range::range_container<sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type> >(
+			return sprout::range::range_container<sprout::generator_iterator<typename std::decay<decltype(engine())>::type> >(
 				sprout::random::begin(engine, count),
 				sprout::random::end(engine)
 				);
-- 
2.43.0


From c646e7f7ad1d69f7a96e388ea76d2f9b6f4c58a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:17 +0000
Subject: [PATCH 137/218] fix: linear congruential engines modulo the whole
 word

---
 sprout/random/detail/const_mod.hpp | 8 +++-----
 sprout/random/detail/seed_impl.hpp | 2 +-
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/sprout/random/detail/const_mod.hpp b/sprout/random/detail/const_mod.hpp
index 75e895d..d0ab821 100644
--- a/sprout/random/detail/const_mod.hpp
+++ b/sprout/random/detail/const_mod.hpp
@@ -23,12 +23,10 @@ namespace sprout {
 			class const_mod {
 			private:
 				typedef typename std::make_unsigned<IntType>::type unsigned_type;
+				typedef decltype(unsigned_type() + 0u) calc_type;
 			private:
 				SPROUT_STATIC_CONSTEXPR IntType supress_warnings = m == 0;
 				SPROUT_STATIC_CONSTEXPR IntType modulus = m + supress_warnings;
-			private:
-				static_assert(supress_warnings == 0, "supress_warnings == 0");
-				static_assert(modulus == m, "modulus == m");
 			private:
 				static SPROUT_CONSTEXPR IntType pow_1(IntType a, std::uintmax_t exponent, IntType result = 1) {
 					return exponent != 0
@@ -184,7 +182,7 @@ namespace sprout {
 						;
 				}
 				static SPROUT_CONSTEXPR IntType mult(IntType a, IntType x) {
-					return ((unsigned_m() - 1) & unsigned_m()) == 0 ? unsigned_type(a) * unsigned_type(x) & (unsigned_m() - 1)
+					return ((unsigned_m() - 1) & unsigned_m()) == 0 ? calc_type(a) * calc_type(x) & (unsigned_m() - 1)
 						: a == 0 ? 0
 						: a == 1 ? x
 						: m <= sprout::numeric_limits<IntType>::max() / a ? mult_small(a, x)
@@ -193,7 +191,7 @@ namespace sprout {
 						;
 				}
 				static SPROUT_CONSTEXPR IntType mult_add(IntType a, IntType x, IntType c) {
-					return ((unsigned_m() - 1) & unsigned_m()) == 0 ? (unsigned_type(a) * unsigned_type(x) + unsigned_type(c)) & (unsigned_m() - 1)
+					return ((unsigned_m() - 1) & unsigned_m()) == 0 ? (calc_type(a) * calc_type(x) + calc_type(c)) & (unsigned_m() - 1)
 						: a == 0 ? c
 						: m <= (sprout::numeric_limits<IntType>::max() - c) / a ? (a * x + c) % (m + supress_warnings)
 						: add(mult(a, x), c)
diff --git a/sprout/random/detail/seed_impl.hpp b/sprout/random/detail/seed_impl.hpp
index fc8138e..3b6ce2a 100644
--- a/sprout/random/detail/seed_impl.hpp
+++ b/sprout/random/detail/seed_impl.hpp
@@ -28,7 +28,7 @@ namespace sprout {
 				: public std::conditional<
 					m == 0,
 					sprout::integral_constant<int, sprout::numeric_limits<IntType>::digits>,
-					sprout::integral_constant<int, sprout::detail::static_log2<m>::value>
+					sprout::integral_constant<int, sprout::detail::static_log2<(m == 0 ? 1 : m)>::value>
 				>::type
 			{};
 			template<typename IntType, IntType m, int log>
-- 
2.43.0


From c333e0c996ea3811dd5d395e1fc173ab94f410b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:17 +0000
Subject: [PATCH 138/218] fix: discard of linear congruential engines

---
 sprout/random/linear_congruential.hpp | 112 +++-----------------------
 1 file changed, 9 insertions(+), 103 deletions(-)

diff --git a/sprout/random/linear_congruential.hpp b/sprout/random/linear_congruential.hpp
index cde06c9..2dfcff6 100644
--- a/sprout/random/linear_congruential.hpp
+++ b/sprout/random/linear_congruential.hpp
@@ -21,7 +21,6 @@
 #include <sprout/random/results.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
 #include <sprout/math/greater_equal.hpp>
-#include <sprout/utility/while_loop.hpp>
 #include <sprout/assert.hpp>
 
 namespace sprout {
@@ -87,79 +86,17 @@ namespace sprout {
 					linear_congruential_engine(result, private_construct_t())
 					);
 			}
-			struct discard_init {
-			public:
-				unsigned long long exponent;
-				result_type b_gcd;
-				result_type a_zm1_over_gcd;
-				result_type a_km1_over_gcd;
-			};
-			struct discard_pred {
-			public:
-				SPROUT_CONSTEXPR bool operator()(discard_init const& init) const {
-					return static_cast<bool>(init.exponent);
-				}
-			};
-			struct discard_op {
-			public:
-				SPROUT_CONSTEXPR discard_init operator()(discard_init const& init) const {
-					typedef sprout::random::detail::const_mod<result_type, modulus> mod_type;
-					return discard_init{
-						init.exponent / 2,
-						init.b_gcd,
-						!(init.exponent % 2 == 1) ? init.a_zm1_over_gcd
-							: mod_type::mult_add(
-								init.b_gcd,
-								mod_type::mult(init.a_zm1_over_gcd, init.a_km1_over_gcd),
-								mod_type::add(init.a_zm1_over_gcd, init.a_km1_over_gcd)
-								)
-							,
-						mod_type::mult_add(
-							init.b_gcd,
-							mod_type::mult(init.a_km1_over_gcd, init.a_km1_over_gcd),
-							mod_type::add(init.a_km1_over_gcd, init.a_km1_over_gcd)
-							)
-						};
-				}
-			};
-			SPROUT_CONSTEXPR linear_congruential_engine const discard_impl_1_2(result_type b_gcd, result_type a_zm1_over_gcd) const {
-				typedef sprout::random::detail::const_mod<result_type, modulus> mod_type;
-				return linear_congruential_engine(
-					mod_type::mult_add(
-						mod_type::mult_add(b_gcd, a_zm1_over_gcd, 1),
-						x_,
-						mod_type::mult(mod_type::invert((multiplier - 1) / b_gcd), mod_type::mult(increment, a_zm1_over_gcd))
-						),
-					private_construct_t()
-					);
-			}
-			SPROUT_CONSTEXPR linear_congruential_engine const discard_impl_1_1(result_type b_inv, result_type a_z) const {
-				typedef sprout::random::detail::const_mod<result_type, modulus> mod_type;
-				return linear_congruential_engine(
-					mod_type::mult_add(a_z, x_, mod_type::mult(mod_type::mult(increment, b_inv), a_z - 1)),
-					private_construct_t()
-					);
-			}
-			SPROUT_CONSTEXPR linear_congruential_engine const discard_impl_1(unsigned long long z, result_type b_inv, result_type b_gcd) const {
+			static SPROUT_CONSTEXPR result_type discard_impl(result_type x, result_type a_k, result_type c_k, unsigned long long z) {
 				typedef sprout::random::detail::const_mod<result_type, modulus> mod_type;
-				return b_gcd == 1 ? discard_impl_1_1(b_inv, mod_type::pow(multiplier, z))
-					: discard_impl_1_2(
-						b_gcd,
-						sprout::while_loop(
-							discard_init{z, b_gcd, 0, (multiplier - 1) / b_gcd},
-							discard_pred(),
-							discard_op()
-							).a_zm1_over_gcd
+				return z == 0 ? x
+					: discard_impl(
+						z % 2 == 1 ? mod_type::mult_add(a_k, x, c_k) : x,
+						mod_type::mult(a_k, a_k),
+						mod_type::mult_add(a_k, c_k, c_k),
+						z / 2
 						)
 					;
 			}
-			SPROUT_CONSTEXPR linear_congruential_engine const discard_impl(unsigned long long z, result_type b_inv) const {
-				typedef sprout::random::detail::const_mod<result_type, modulus> mod_type;
-				return discard_impl_1(
-					z, b_inv,
-					mod_type::mult(multiplier - 1, b_inv)
-					);
-			}
 		public:
 			SPROUT_CONSTEXPR linear_congruential_engine()
 				: x_(init_seed())
@@ -209,41 +146,10 @@ namespace sprout {
 				return generate(sprout::random::detail::const_mod<result_type, modulus>::mult_add(a, x_, c));
 			}
 			SPROUT_CONSTEXPR linear_congruential_engine const discard(unsigned long long z) const {
-				typedef sprout::random::detail::const_mod<result_type, modulus> mod_type;
-				return discard_impl(z, mod_type::invert(multiplier - 1));
+				return linear_congruential_engine(discard_impl(x_, multiplier, increment, z), private_construct_t());
 			}
 			SPROUT_CXX14_CONSTEXPR void discard(unsigned long long z) {
-				typedef sprout::random::detail::const_mod<result_type, modulus> mod_type;
-				result_type b_inv = mod_type::invert(multiplier - 1);
-				result_type b_gcd = mod_type::mult(multiplier - 1, b_inv);
-				if (b_gcd == 1) {
-					result_type a_z = mod_type::pow(multiplier, z);
-					x_ = mod_type::mult_add(a_z, x_, mod_type::mult(mod_type::mult(increment, b_inv), a_z - 1));
-				} else {
-					result_type a_zm1_over_gcd = 0;
-					result_type a_km1_over_gcd = (multiplier - 1) / b_gcd;
-					unsigned long long exponent = z;
-					while (exponent) {
-						if (exponent % 2 == 1) {
-							a_zm1_over_gcd = mod_type::mult_add(
-								b_gcd,
-								mod_type::mult(a_zm1_over_gcd, a_km1_over_gcd),
-								mod_type::add(a_zm1_over_gcd, a_km1_over_gcd)
-								);
-						}
-						a_km1_over_gcd = mod_type::mult_add(
-							b_gcd,
-							mod_type::mult(a_km1_over_gcd, a_km1_over_gcd),
-							mod_type::add(a_km1_over_gcd, a_km1_over_gcd)
-							);
-						exponent /= 2;
-					}
-					x_ = mod_type::mult_add(
-						mod_type::mult_add(b_gcd, a_zm1_over_gcd, 1),
-						x_,
-						mod_type::mult(mod_type::invert((multiplier - 1) / b_gcd), mod_type::mult(increment, a_zm1_over_gcd))
-						);
-				}
+				x_ = discard_impl(x_, multiplier, increment, z);
 			}
 			friend SPROUT_CONSTEXPR bool operator==(linear_congruential_engine const& lhs, linear_congruential_engine const& rhs) SPROUT_NOEXCEPT {
 				return lhs.x_ == rhs.x_;
-- 
2.43.0


From 9c63b10f0753a71f88178f453496dd0f8fe65767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:17 +0000
Subject: [PATCH 139/218] fix: rand48 delivers 31 bits

---
 sprout/random/linear_congruential.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/random/linear_congruential.hpp b/sprout/random/linear_congruential.hpp
index 2dfcff6..ca13de5 100644
--- a/sprout/random/linear_congruential.hpp
+++ b/sprout/random/linear_congruential.hpp
@@ -231,7 +231,7 @@ namespace sprout {
 			template<typename EngineResult>
 			SPROUT_CONSTEXPR sprout::random::random_result<rand48> generate(EngineResult const& rnd) const {
 				return sprout::random::random_result<rand48>(
-					static_cast<result_type>(sprout::random::result(rnd)) >> 17,
+					static_cast<result_type>(sprout::random::result(rnd) >> 17),
 					rand48(sprout::random::next(rnd), private_construct_t())
 					);
 			}
@@ -249,7 +249,7 @@ namespace sprout {
 				return static_max();
 			}
 			SPROUT_CXX14_CONSTEXPR result_type operator()() {
-				return static_cast<result_type>(static_cast<result_type>(lcf_()) >> 17);
+				return static_cast<result_type>(lcf_() >> 17);
 			}
 			SPROUT_CONSTEXPR sprout::random::random_result<rand48> const operator()() const {
 				return generate(lcf_());
-- 
2.43.0


From 2ca95bf6160ef3f2bf739cdc63ec1ccd43fcb217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:47 +0000
Subject: [PATCH 140/218] fix: low bit masks of narrow words

---
 sprout/detail/integer/integer_mask.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sprout/detail/integer/integer_mask.hpp b/sprout/detail/integer/integer_mask.hpp
index 3950bd4..15ba679 100644
--- a/sprout/detail/integer/integer_mask.hpp
+++ b/sprout/detail/integer/integer_mask.hpp
@@ -9,6 +9,7 @@
 #define SPROUT_DETAIL_INTEGER_INTEGER_MASK_HPP
 
 #include <climits>
+#include <cstdint>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/limits.hpp>
@@ -33,7 +34,7 @@ namespace sprout {
 			typedef typename sprout::detail::uint_t<Bits>::least least;
 			typedef typename sprout::detail::uint_t<Bits>::fast fast;
 		public:
-			SPROUT_STATIC_CONSTEXPR least sig_bits = ~(~(least(0u)) << Bits);
+			SPROUT_STATIC_CONSTEXPR least sig_bits = static_cast<least>(~(~static_cast<std::uintmax_t>(0) << Bits));
 			SPROUT_STATIC_CONSTEXPR fast sig_bits_fast = fast(sig_bits);
 			SPROUT_STATIC_CONSTEXPR std::size_t bit_count = Bits;
 		};
-- 
2.43.0


From 8034f0803a96c2106d401b3fa91d6d8d25190e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:47 +0000
Subject: [PATCH 141/218] fix: linear feedback shift engines in wider types

---
 sprout/random/linear_feedback_shift.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sprout/random/linear_feedback_shift.hpp b/sprout/random/linear_feedback_shift.hpp
index 13320e5..03f7222 100644
--- a/sprout/random/linear_feedback_shift.hpp
+++ b/sprout/random/linear_feedback_shift.hpp
@@ -51,8 +51,11 @@ namespace sprout {
 			static SPROUT_CONSTEXPR result_type wordmask() {
 				return sprout::detail::low_bits_mask_t<w>::sig_bits;
 			}
+			static SPROUT_CONSTEXPR result_type next_state(result_type x) {
+				return (((x & ((wordmask() << (w - k)) & wordmask())) << s) & wordmask()) ^ ((((x << q) ^ x) & wordmask()) >> (k - s));
+			}
 			static SPROUT_CONSTEXPR result_type init_seed_1(result_type x0) {
-				return x0 < (1 << (w - k)) ? x0 + (1 << (w - k)) : x0;
+				return x0 < (result_type(1) << (w - k)) ? x0 + (result_type(1) << (w - k)) : x0;
 			}
 			static SPROUT_CONSTEXPR result_type init_seed(result_type x0 = default_seed) {
 				return init_seed_1(x0 & wordmask());
@@ -123,11 +126,11 @@ namespace sprout {
 				return static_max();
 			}
 			SPROUT_CXX14_CONSTEXPR result_type operator()() {
-				 x_ = ((x_ & ((wordmask() << (w - k)) & wordmask())) << s) ^ ((((x_ << q) ^ x_) & wordmask()) >> (k - s));
+				 x_ = next_state(x_);
 				 return x_;
 			}
 			SPROUT_CONSTEXPR sprout::random::random_result<linear_feedback_shift_engine> const operator()() const {
-				return generate(((x_ & ((wordmask() << (w - k)) & wordmask())) << s) ^ ((((x_ << q) ^ x_) & wordmask()) >> (k - s)));
+				return generate(next_state(x_));
 			}
 			friend SPROUT_CONSTEXPR bool operator==(linear_feedback_shift_engine const& lhs, linear_feedback_shift_engine const& rhs) SPROUT_NOEXCEPT {
 				return lhs.x_ == rhs.x_;
-- 
2.43.0


From 1d3cc832c6eb5eb39a62c3b8358f851edc8eb752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:31 +0000
Subject: [PATCH 142/218] fix: range of xor_combine_engine

---
 sprout/random/xor_combine.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/sprout/random/xor_combine.hpp b/sprout/random/xor_combine.hpp
index cf63339..0e9baa6 100644
--- a/sprout/random/xor_combine.hpp
+++ b/sprout/random/xor_combine.hpp
@@ -11,11 +11,11 @@
 #include <istream>
 #include <ostream>
 #include <sprout/config.hpp>
+#include <sprout/limits.hpp>
 #include <sprout/random/random_result.hpp>
 #include <sprout/random/type_traits.hpp>
 #include <sprout/random/results.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
-#include HDR_ALGORITHM_MIN_MAX_SSCRISK_CEL_OR_SPROUT
 
 namespace sprout {
 	namespace random {
@@ -33,12 +33,18 @@ namespace sprout {
 		public:
 			SPROUT_STATIC_CONSTEXPR int shift1 = s1;
 			SPROUT_STATIC_CONSTEXPR int shift2 = s2;
+		private:
+			static SPROUT_CONSTEXPR result_type fill_bits(result_type x, int n = 1) {
+				return n < sprout::numeric_limits<result_type>::digits ? fill_bits(x | (x >> n), n * 2) : x;
+			}
 		public:
 			static SPROUT_CONSTEXPR result_type static_min() SPROUT_NOEXCEPT {
-				return NS_SSCRISK_CEL_OR_SPROUT::min(base1_type::static_min(), base2_type::static_min());
+				return 0;
 			}
 			static SPROUT_CONSTEXPR result_type static_max() SPROUT_NOEXCEPT {
-				return NS_SSCRISK_CEL_OR_SPROUT::max(base1_type::static_max(), base2_type::static_max());
+				return fill_bits(
+					(static_cast<result_type>(base1_type::static_max()) << s1) | (static_cast<result_type>(base2_type::static_max()) << s2)
+					);
 			}
 		private:
 			base1_type rng1_;
@@ -47,7 +53,7 @@ namespace sprout {
 			template<typename EngineResult1, typename EngineResult2>
 			SPROUT_CONSTEXPR sprout::random::random_result<xor_combine_engine> generate(EngineResult1 const& rnd1, EngineResult2 const& rnd2) const {
 				return sprout::random::random_result<xor_combine_engine>(
-					(sprout::random::result(rnd1) << s1) ^ (sprout::random::result(rnd2) << s2),
+					(static_cast<result_type>(sprout::random::result(rnd1)) << s1) ^ (static_cast<result_type>(sprout::random::result(rnd2)) << s2),
 					xor_combine_engine(
 						sprout::random::next(rnd1), sprout::random::next(rnd2)
 						)
@@ -107,10 +113,10 @@ namespace sprout {
 				rng2_.seed(seed2);
 			}
 			SPROUT_CONSTEXPR result_type min() const SPROUT_NOEXCEPT {
-				return NS_SSCRISK_CEL_OR_SPROUT::min(rng1_.min(), rng2_.min());
+				return static_min();
 			}
 			SPROUT_CONSTEXPR result_type max() const SPROUT_NOEXCEPT {
-				return NS_SSCRISK_CEL_OR_SPROUT::max(rng1_.max(), rng2_.max());
+				return static_max();
 			}
 			SPROUT_CXX14_CONSTEXPR result_type operator()() {
 				return (static_cast<result_type>(rng1_()) << s1) ^ (static_cast<result_type>(rng2_()) << s2);
-- 
2.43.0


From 99d103aa9f9ad35b24967296912eba7f9f4d3ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:31 +0000
Subject: [PATCH 143/218] fix: additive_combine_engine as a base engine

---
 sprout/random/additive_combine.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/random/additive_combine.hpp b/sprout/random/additive_combine.hpp
index 3f39309..594b439 100644
--- a/sprout/random/additive_combine.hpp
+++ b/sprout/random/additive_combine.hpp
@@ -31,14 +31,14 @@ namespace sprout {
 			typedef base1_type first_base;
 			typedef base2_type second_base;
 			typedef typename base1_type::result_type result_type;
-		private:
+		public:
 			static SPROUT_CONSTEXPR result_type static_min() SPROUT_NOEXCEPT {
 				return 1;
 			}
 			static SPROUT_CONSTEXPR result_type static_max() SPROUT_NOEXCEPT {
 				return base1_type::modulus - 1;
 			}
-		public:
+		private:
 			struct private_construct_t {};
 		private:
 			base1_type mlcg1_;
-- 
2.43.0


From 0c6a0f205066c153db4c91c876683668fe976a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:31 +0000
Subject: [PATCH 144/218] fix: text form and comparison of
 mersenne_twister_engine

---
 sprout/random/mersenne_twister.hpp | 174 ++++-------------------------
 1 file changed, 22 insertions(+), 152 deletions(-)

diff --git a/sprout/random/mersenne_twister.hpp b/sprout/random/mersenne_twister.hpp
index 91ad483..44aad20 100644
--- a/sprout/random/mersenne_twister.hpp
+++ b/sprout/random/mersenne_twister.hpp
@@ -102,173 +102,40 @@ namespace sprout {
 			rewind_find(result_type const* last, std::size_t size, std::size_t i) const {
 				return rewind_find_1(last, size, (i + n - size + n - 1) % n);
 			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_finish_1(sprout::array<result_type, n> const&, Args const&... args) const {
-				return sprout::array<result_type, n>{{args...}};
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_finish_1(sprout::array<result_type, n> const& data, Args const&... args) const {
-				return rewind_finish_1(data, args..., data[sizeof...(args)]);
+			// the word z + 1 steps before x_[0]
+			SPROUT_CONSTEXPR result_type rewound(std::size_t z) const {
+				return (unshift(untwist(z)) & upper_mask) | (unshift(untwist(z + 1)) & lower_mask);
 			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_finish(
-				sprout::array<result_type, n> const&, result_type const*, std::size_t, std::size_t,
-				Args const&... args
-				) const
-			{
-				return sprout::array<result_type, n>{{args...}};
+			SPROUT_CONSTEXPR result_type untwist(std::size_t z) const {
+				return (z < m ? x_[m - 1 - z] : rewound(z - m)) ^ (z < n ? x_[n - 1 - z] : rewound(z - n));
 			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_finish(
-				sprout::array<result_type, n> const& data, result_type const* last, std::size_t z, std::size_t i,
-				Args const&... args
-				) const
-			{
-				return &data[0] + i == last - z
-					? rewind_finish_1(data, data[i], args...)
-					: rewind_finish(data, last, z, i + 1, data[i], args...)
+			SPROUT_CONSTEXPR result_type unshift(result_type y) const {
+				return y & (static_cast<result_type>(1) << (w - 1))
+					? ((y ^ a) << 1) | 1
+					: y << 1
 					;
 			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_4(
-				sprout::array<result_type, n> const&, result_type const*, std::size_t, result_type, result_type, std::size_t,
-				Args const&... args
-				) const
-			{
-				return sprout::array<result_type, n>{{args...}};
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_4(
-				sprout::array<result_type, n> const& data, result_type const* last, std::size_t z, result_type y0, result_type y1, std::size_t i,
-				Args const&... args
-				) const
-			{
-				return rewind_2(
-					data, last, z, y1, i, (y0 & upper_mask) | (y1 & lower_mask),
-					args...
-					);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_3(
-				sprout::array<result_type, n> const&, result_type const*, std::size_t, result_type, result_type, std::size_t,
-				Args const&... args
-				) const
-			{
-				return sprout::array<result_type, n>{{args...}};
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_3(
-				sprout::array<result_type, n> const& data, result_type const* last, std::size_t z, result_type y0, result_type y1, std::size_t i,
-				Args const&... args
-				) const
-			{
-				return rewind_4(
-					data, last, z, y0,
-					y1 & (static_cast<result_type>(1) << (w - 1))
-						? ((y1 ^ a) << 1) | 1
-						: y1 << 1
-						,
-					i,
-					args...
-					);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_2(
-				sprout::array<result_type, n> const&, result_type const*, std::size_t, result_type, std::size_t,
-				Args const&... args
-				) const
-			{
-				return sprout::array<result_type, n>{{args...}};
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_2(
-				sprout::array<result_type, n> const& data, result_type const* last, std::size_t z, result_type y0, std::size_t i,
-				Args const&... args
-				) const
-			{
-				return i < z
-					? rewind_3(data, last, z, y0, rewind_find(last, i, m - 1) ^ rewind_find(last, i, n - 1), i, args...)
-					: rewind_finish(data, last, z, 0, args...)
-					;
-			}
-			SPROUT_CONSTEXPR sprout::array<result_type, n>
-			rewind_1(sprout::array<result_type, n> const& data, result_type const* last, std::size_t z, result_type y0) const {
-				return rewind_2(
-					data,
-					last,
-					z,
-					y0 & (static_cast<result_type>(1) << (w - 1))
-						? ((y0 ^ a) << 1) | 1
-						: y0 << 1
-						,
-					0
-					);
-			}
-			SPROUT_CONSTEXPR sprout::array<result_type, n>
-			rewind(sprout::array<result_type, n> const& data, result_type const* last, std::size_t z) const {
-				return rewind_1(data, last, z, x_[m - 1] ^ x_[n - 1]);
-			}
 			SPROUT_CONSTEXPR bool
-			equal_impl_2(mersenne_twister_engine const& other, sprout::array<result_type, n> const& back, std::size_t offset, std::size_t i = 0) const {
+			equal_impl_2(mersenne_twister_engine const& other, std::size_t offset, std::size_t i = 0) const {
 				return i < offset
-					? back[i + n - offset] != other.x_[i]
+					? rewound(offset - 1 - i) != other.x_[i]
 						? false
-						: equal_impl_2(other, back, offset, i + 1)
+						: equal_impl_2(other, offset, i + 1)
 					: true
 					;
 			}
 			SPROUT_CONSTEXPR bool
-			equal_impl_1(mersenne_twister_engine const& other, sprout::array<result_type, n> const& back, std::size_t offset, std::size_t i = 0) const {
+			equal_impl_1(mersenne_twister_engine const& other, std::size_t offset, std::size_t i = 0) const {
 				return i + offset < n
 					? x_[i] != other.x_[i + offset]
 						? false
-						: equal_impl_1(other, back, offset, i + 1)
-					: equal_impl_2(other, rewind(back, &back[n - 1], offset), offset)
+						: equal_impl_1(other, offset, i + 1)
+					: equal_impl_2(other, offset)
 					;
 			}
 			SPROUT_CONSTEXPR bool
 			equal_impl(mersenne_twister_engine const& other) const {
-				return equal_impl_1(other, sprout::array<result_type, n>(), other.i_ - i_);
+				return equal_impl_1(other, other.i_ - i_);
 			}
 			SPROUT_CONSTEXPR result_type generate_impl_4(result_type z) const {
 				return z ^ (z >> l);
@@ -506,7 +373,10 @@ namespace sprout {
 				)
 			{
 				for (std::size_t i = 0; i < state_size; ++i) {
-					lhs >> rhs.x_[i] >> std::ws;
+					if (i != 0) {
+						lhs >> std::ws;
+					}
+					lhs >> rhs.x_[i];
 				}
 				rhs.i_ = state_size;
 				return lhs;
@@ -522,10 +392,10 @@ namespace sprout {
 					data[i + n - rhs.i_] = rhs.x_[i];
 				}
 				if (rhs.i_ != n) {
-					data = rhs.rewind(data, &data[n - rhs.i_ - 1], n - rhs.i_);
+					rhs.do_rewind(&data[n - rhs.i_ - 1], n - rhs.i_);
 				}
 				lhs << data[0];
-				for (std::size_t i = 0; i < rhs.i_; ++i) {
+				for (std::size_t i = 1; i < n; ++i) {
 					lhs << ' ' << data[i];
 				}
 				return lhs;
-- 
2.43.0


From 5d79404427db60d1de530038d575953d2321e6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:59 +0000
Subject: [PATCH 145/218] fix: functional stepping of mersenne_twister_engine
 in C++11

---
 sprout/random/mersenne_twister.hpp | 86 ++++++------------------------
 1 file changed, 16 insertions(+), 70 deletions(-)

diff --git a/sprout/random/mersenne_twister.hpp b/sprout/random/mersenne_twister.hpp
index 44aad20..0112120 100644
--- a/sprout/random/mersenne_twister.hpp
+++ b/sprout/random/mersenne_twister.hpp
@@ -16,6 +16,7 @@
 #include <sprout/cstdint.hpp>
 #include <sprout/random/random_result.hpp>
 #include <sprout/array/array.hpp>
+#include <sprout/index_tuple/metafunction.hpp>
 #include <sprout/detail/integer/integer_mask.hpp>
 
 namespace sprout {
@@ -162,82 +163,27 @@ namespace sprout {
 						)
 					);
 			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR mersenne_twister_engine twist_5(Args const&... args) const {
-				return mersenne_twister_engine(
-					sprout::array<result_type, n>{{
-						args..., x_[m - 1] ^ ((x_[n - 1] & upper_mask) | (x_[0] & lower_mask) >> 1) ^ ((x_[0] & 1) * a)
-						}},
-					0,
-					private_construct_t()
-					);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n - 1,
-				mersenne_twister_engine
-			>::type twist_4(std::size_t, Args const&... args) const {
-				return twist_5(args...);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n - 1,
-				mersenne_twister_engine
-			>::type twist_4(std::size_t i, Args const&... args) const {
-				return twist_4(
-					i + 1, args..., x_[i - (n - m)] ^ ((x_[i] & upper_mask) | (x_[i + 1] & lower_mask) >> 1) ^ ((x_[i + 1] & 1) * a)
-					);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n - 1 - unroll_extra2,
-				mersenne_twister_engine
-			>::type twist_3(std::size_t, Args const&... args) const {
-				return twist_4(n - 1 - unroll_extra2, args...);
+			SPROUT_CONSTEXPR result_type twist_mix(result_type x0, result_type x1, result_type xm) const {
+				return xm ^ (((x0 & upper_mask) | (x1 & lower_mask)) >> 1) ^ ((x1 & 1) * a);
 			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n - 1 - unroll_extra2,
-				mersenne_twister_engine
-			>::type twist_3(std::size_t i, Args const&... args) const {
-				return twist_3(
-					i + 1, args..., x_[i - (n - m)] ^ ((x_[i] & upper_mask) | (x_[i + 1] & lower_mask) >> 1) ^ ((x_[i + 1] & 1) * a)
-					);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n - m,
-				mersenne_twister_engine
-			>::type twist_2(std::size_t, Args const&... args) const {
-				return twist_3(n - m, args...);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n - m,
-				mersenne_twister_engine
-			>::type twist_2(std::size_t i, Args const&... args) const {
-				return twist_2(
-					i + 1, args..., x_[i + m] ^ ((x_[i] & upper_mask) | (x_[i + 1] & lower_mask) >> 1) ^ ((x_[i + 1] & 1) * a)
+			// the word n steps after x_[i]
+			SPROUT_CONSTEXPR result_type twisted(std::size_t i) const {
+				return twist_mix(
+					x_[i],
+					i + 1 < n ? x_[i + 1] : twisted(0),
+					i + m < n ? x_[i + m] : twisted(i + m - n)
 					);
 			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n - m - unroll_extra1,
-				mersenne_twister_engine
-			>::type twist_1(std::size_t, Args const&... args) const {
-				return twist_2(n - m - unroll_extra1, args...);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n - m - unroll_extra1,
-				mersenne_twister_engine
-			>::type twist_1(std::size_t i, Args const&... args) const {
-				return twist_1(
-					i + 1, args..., x_[i + m] ^ ((x_[i] & upper_mask) | (x_[i + 1] & lower_mask) >> 1) ^ ((x_[i + 1] & 1) * a)
+			template<sprout::index_t... Indexes>
+			SPROUT_CONSTEXPR mersenne_twister_engine twist_impl(sprout::index_tuple<Indexes...>) const {
+				return mersenne_twister_engine(
+					sprout::array<result_type, n>{{twisted(Indexes)...}},
+					0,
+					private_construct_t()
 					);
 			}
 			SPROUT_CONSTEXPR mersenne_twister_engine twist() const {
-				return twist_1(0);
+				return twist_impl(sprout::make_index_tuple<n>::make());
 			}
 			SPROUT_CXX14_CONSTEXPR void do_twist() {
 				UIntType const upper_mask = (~static_cast<UIntType>(0)) << r;
-- 
2.43.0


From c937842baf9a7d75b900097c9be35988403a55d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:59 +0000
Subject: [PATCH 146/218] fix: seeding from a constant seed sequence

---
 sprout/random/detail/seed_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/random/detail/seed_impl.hpp b/sprout/random/detail/seed_impl.hpp
index 3b6ce2a..80d97a5 100644
--- a/sprout/random/detail/seed_impl.hpp
+++ b/sprout/random/detail/seed_impl.hpp
@@ -60,7 +60,7 @@ namespace sprout {
 				typedef typename sprout::random::detail::seed_log<IntType, m>::type log_t;
 				typedef typename sprout::random::detail::seed_k<IntType, m, log_t::value>::type k_t;
 				return sprout::random::detail::seed_one_int_impl<IntType, m, k_t::value>(
-					seq.generate(sprout::pit<sprout::array<std::uint_least32_t, log_t::value / 32 + 4> >()),
+					seq.template generate<sprout::array<std::uint_least32_t, k_t::value + 3> >(),
 					0, 0
 					);
 			}
-- 
2.43.0


From 202434e1849ef74dd63d54539842ca695e4752b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:55 +0000
Subject: [PATCH 147/218] fix: mersenne_twister_engine tempers in C++11 as it
 does in C++14

---
 sprout/random/mersenne_twister.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/random/mersenne_twister.hpp b/sprout/random/mersenne_twister.hpp
index 0112120..bc4b3b1 100644
--- a/sprout/random/mersenne_twister.hpp
+++ b/sprout/random/mersenne_twister.hpp
@@ -142,13 +142,13 @@ namespace sprout {
 				return z ^ (z >> l);
 			}
 			SPROUT_CONSTEXPR result_type generate_impl_3(result_type z) const {
-				return z ^ generate_impl_4((z << t) & c);
+				return generate_impl_4(z ^ ((z << t) & c));
 			}
 			SPROUT_CONSTEXPR result_type generate_impl_2(result_type z) const {
-				return z ^ generate_impl_3((z << s) & b);
+				return generate_impl_3(z ^ ((z << s) & b));
 			}
 			SPROUT_CONSTEXPR result_type generate_impl_1(result_type z) const {
-				return z ^ generate_impl_2((z >> u) & d);
+				return generate_impl_2(z ^ ((z >> u) & d));
 			}
 			SPROUT_CONSTEXPR result_type generate_impl() const {
 				return generate_impl_1(x_[i_]);
-- 
2.43.0


From 167b04da6aae3c93daa3d83dee10a460d6c4e9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:59 +0000
Subject: [PATCH 148/218] fix: the real parameters of integer distributions are
 not truncated

---
 sprout/random/binomial_distribution.hpp  | 2 +-
 sprout/random/geometric_distribution.hpp | 2 +-
 sprout/random/poisson_distribution.hpp   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/random/binomial_distribution.hpp b/sprout/random/binomial_distribution.hpp
index dbc8aa6..0409e09 100644
--- a/sprout/random/binomial_distribution.hpp
+++ b/sprout/random/binomial_distribution.hpp
@@ -727,7 +727,7 @@ namespace sprout {
 			SPROUT_CONSTEXPR result_type t() const SPROUT_NOEXCEPT {
 				return t_;
 			}
-			SPROUT_CONSTEXPR result_type p() const SPROUT_NOEXCEPT {
+			SPROUT_CONSTEXPR RealType p() const SPROUT_NOEXCEPT {
 				return p_;
 			}
 			SPROUT_CONSTEXPR result_type min() const SPROUT_NOEXCEPT {
diff --git a/sprout/random/geometric_distribution.hpp b/sprout/random/geometric_distribution.hpp
index 2f0afad..18c2028 100644
--- a/sprout/random/geometric_distribution.hpp
+++ b/sprout/random/geometric_distribution.hpp
@@ -114,7 +114,7 @@ namespace sprout {
 				: p_(parm.p())
 				, log_1mp_(init_log_1mp(parm.p()))
 			{}
-			SPROUT_CONSTEXPR result_type p() const SPROUT_NOEXCEPT {
+			SPROUT_CONSTEXPR RealType p() const SPROUT_NOEXCEPT {
 				return p_;
 			}
 			SPROUT_CONSTEXPR result_type min() const SPROUT_NOEXCEPT {
diff --git a/sprout/random/poisson_distribution.hpp b/sprout/random/poisson_distribution.hpp
index aceeb0f..dc5e29e 100644
--- a/sprout/random/poisson_distribution.hpp
+++ b/sprout/random/poisson_distribution.hpp
@@ -344,7 +344,7 @@ namespace sprout {
 				, ptrd_(init_ptrd(parm.mean()))
 				, exp_mean_(init_exp_mean(parm.mean()))
 			{}
-			SPROUT_CONSTEXPR result_type mean() const SPROUT_NOEXCEPT {
+			SPROUT_CONSTEXPR RealType mean() const SPROUT_NOEXCEPT {
 				return mean_;
 			}
 			SPROUT_CONSTEXPR result_type min() const SPROUT_NOEXCEPT {
-- 
2.43.0


From f93b65cbd5506698beca7603f6e73539d3f6c0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:59 +0000
Subject: [PATCH 149/218] fix: uniform_int_distribution draws one number when
 the ranges are equal

---
 sprout/random/uniform_int_distribution.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sprout/random/uniform_int_distribution.hpp b/sprout/random/uniform_int_distribution.hpp
index 62e9608..dd0aa41 100644
--- a/sprout/random/uniform_int_distribution.hpp
+++ b/sprout/random/uniform_int_distribution.hpp
@@ -48,7 +48,6 @@ namespace sprout {
 				if (range == 0) {
 					return min_value;
 				} else if (brange == range) {
-					base_unsigned v = sprout::random::detail::subtract<base_result>()(static_cast<base_result>(eng()), bmin);
 					return sprout::random::detail::add<base_unsigned, result_type>()(
 						static_cast<base_unsigned>(sprout::random::detail::subtract<base_result>()(static_cast<base_result>(eng()), bmin)),
 						min_value
-- 
2.43.0


From 88fd6e64014b2aa98a3682438551775151d9542d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:59 +0000
Subject: [PATCH 150/218] fix: uniform_int_distribution adds its minimum when
 its range is a power of the engine range

---
 sprout/random/uniform_int_distribution.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sprout/random/uniform_int_distribution.hpp b/sprout/random/uniform_int_distribution.hpp
index dd0aa41..e17dd15 100644
--- a/sprout/random/uniform_int_distribution.hpp
+++ b/sprout/random/uniform_int_distribution.hpp
@@ -68,7 +68,7 @@ namespace sprout {
 						while (mult <= limit) {
 							result += static_cast<range_type>(sprout::random::detail::subtract<base_result>()(static_cast<base_result>(eng()), bmin) * mult);
 							if (mult * range_type(brange) == range - mult + 1) {
-								return result;
+								return sprout::random::detail::add<range_type, result_type>()(result, min_value);
 							}
 							mult *= range_type(brange) + range_type(1);
 						}
@@ -330,8 +330,9 @@ namespace sprout {
 			{
 				return mult * RangeType(brange) == range - mult + 1
 					? sprout::random::detail::generate_uniform_int_result<T, typename EngineResult::engine_type>{
-						static_cast<T>(
-							result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult)
+						sprout::random::detail::add<RangeType, T>()(
+							result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult),
+							min_value
 							),
 						sprout::random::next(rnd)
 						}
@@ -646,8 +647,9 @@ namespace sprout {
 			{
 				return mult * RangeType(brange) == range - mult + 1
 					? sprout::random::detail::generate_uniform_int_result<T, typename EngineResult::engine_type>{
-						static_cast<T>(
-							result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult)
+						sprout::random::detail::add<RangeType, T>()(
+							result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult),
+							min_value
 							),
 						sprout::random::next(rnd)
 						}
-- 
2.43.0


From 919505a3294706ce898d06cf4257dc07ce5881fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:59 +0000
Subject: [PATCH 151/218] fix: uniform_int_distribution advances a floating
 point engine and scales its numbers evenly

---
 sprout/random/detail/uniform_int_float.hpp | 4 ++--
 sprout/random/uniform_int_distribution.hpp | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/sprout/random/detail/uniform_int_float.hpp b/sprout/random/detail/uniform_int_float.hpp
index d9012f7..7198130 100644
--- a/sprout/random/detail/uniform_int_float.hpp
+++ b/sprout/random/detail/uniform_int_float.hpp
@@ -64,14 +64,14 @@ namespace sprout {
 						) - 1
 						;
 				}
-				base_type& base() {
+				SPROUT_CXX14_CONSTEXPR base_type& base() {
 					return rng_;
 				}
 				SPROUT_CONSTEXPR base_type const& base() const {
 					return rng_;
 				}
 				SPROUT_CXX14_CONSTEXPR result_type operator()() {
-					return static_cast<result_type>(static_cast<base_result>(rng_()) * static_cast<base_result>(max()) + 1);
+					return static_cast<result_type>(static_cast<base_result>(rng_()) * (static_cast<base_result>(max()) + 1));
 				}
 				SPROUT_CONSTEXPR sprout::random::random_result<uniform_int_float> const operator()() const {
 					return generate(rng_());
diff --git a/sprout/random/uniform_int_distribution.hpp b/sprout/random/uniform_int_distribution.hpp
index e17dd15..d89ed0a 100644
--- a/sprout/random/uniform_int_distribution.hpp
+++ b/sprout/random/uniform_int_distribution.hpp
@@ -116,7 +116,9 @@ namespace sprout {
 				)
 			{
 				sprout::random::detail::uniform_int_float<Engine> wrapper(eng);
-				return sprout::random::detail::generate_uniform_int_cxx14(wrapper, min_value, max_value, std::true_type());
+				T result = sprout::random::detail::generate_uniform_int_cxx14(wrapper, min_value, max_value, std::true_type());
+				eng = wrapper.base();
+				return result;
 			}
 			template<typename Engine, typename T>
 			inline SPROUT_CXX14_CONSTEXPR T
-- 
2.43.0


From 50eae2fd6a2d2c8c7d86576a58dc0b902e3407ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:59 +0000
Subject: [PATCH 152/218] fix: uniform_smallint computes the range of its
 engine in the type of the engine

---
 sprout/random/uniform_smallint.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/random/uniform_smallint.hpp b/sprout/random/uniform_smallint.hpp
index 30aca7e..d891736 100644
--- a/sprout/random/uniform_smallint.hpp
+++ b/sprout/random/uniform_smallint.hpp
@@ -102,11 +102,11 @@ namespace sprout {
 				typedef typename std::make_unsigned<base_result>::type base_unsigned;
 				typedef typename std::make_unsigned<result_type>::type range_type;
 				range_type range = sprout::random::detail::subtract<result_type>()(max_, min_);
-				base_unsigned base_range = sprout::random::detail::subtract<result_type>()(eng.max(), eng.min());
+				base_unsigned base_range = sprout::random::detail::subtract<base_result>()(eng.max(), eng.min());
 				base_unsigned val = sprout::random::detail::subtract<base_result>()(static_cast<base_result>(eng()), eng.min());
 				return range >= base_range
 					? sprout::random::detail::add<range_type, result_type>()(static_cast<range_type>(val), min_)
-					: sprout::random::detail::add<range_type, result_type>()(static_cast<range_type>(val % (static_cast<base_result>(range) + 1)), min_)
+					: sprout::random::detail::add<range_type, result_type>()(static_cast<range_type>(val % (static_cast<base_unsigned>(range) + 1)), min_)
 					;
 			}
 			template<typename Engine>
@@ -177,7 +177,7 @@ namespace sprout {
 					eng,
 					eng(),
 					range_type(sprout::random::detail::subtract<result_type>()(max_, min_)),
-					base_unsigned(sprout::random::detail::subtract<result_type>()(eng.max(), eng.min()))
+					base_unsigned(sprout::random::detail::subtract<base_result>()(eng.max(), eng.min()))
 					);
 			}
 			template<typename Engine, typename Random, typename RangeType>
-- 
2.43.0


From 310d34ac099b2ed5504292d16ed8ab1bb5f8b903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:59 +0000
Subject: [PATCH 153/218] fix: generate_canonical corrects one, not zero

---
 sprout/random/generate_canonical.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/random/generate_canonical.hpp b/sprout/random/generate_canonical.hpp
index 2b281b8..be73128 100644
--- a/sprout/random/generate_canonical.hpp
+++ b/sprout/random/generate_canonical.hpp
@@ -212,7 +212,7 @@ namespace sprout {
 			generate_canonical_check(sprout::pair<RealType, URNG> const& res) {
 				typedef sprout::pair<RealType, URNG> const pair_type;
 				return SPROUT_ASSERT(res.first >= 0), SPROUT_ASSERT(res.first <= 1),
-					res.first == 0 ? generate_canonical_check_1(
+					res.first == 1 ? generate_canonical_check_1(
 							pair_type(res.first - sprout::numeric_limits<RealType>::epsilon() / 2, res.second)
 							)
 						: res
-- 
2.43.0


From 1b6713b2d4e7dfc9dd1a5f3a57d3ce576f623a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:59 +0000
Subject: [PATCH 154/218] fix: generate_canonical scales the first number of a
 floating point engine

---
 sprout/random/generate_canonical.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/random/generate_canonical.hpp b/sprout/random/generate_canonical.hpp
index be73128..09c2be2 100644
--- a/sprout/random/generate_canonical.hpp
+++ b/sprout/random/generate_canonical.hpp
@@ -54,7 +54,7 @@ namespace sprout {
 					RealType(2),
 					RealType(NS_SSCRISK_CEL_OR_SPROUT::min(bits, static_cast<std::size_t>(sprout::numeric_limits<RealType>::digits)))
 					);
-				RealType s = RealType(static_cast<base_result>(rng()) - rng.min());
+				RealType s = sprout::math::floor((RealType(static_cast<base_result>(rng())) - RealType(rng.min())) * r);
 				RealType mult = r;
 				while (mult < limit) {
 					s += sprout::math::floor((RealType(static_cast<base_result>(rng())) - RealType(rng.min())) * r) * mult;
@@ -176,12 +176,12 @@ namespace sprout {
 				typedef sprout::pair<RealType, URNG> const pair_type;
 				return r < limit ? sprout::random::detail::generate_canonical_impl_0_1<RealType, bits, URNG>(
 						r, limit,
-						RealType(sprout::random::result(rnd) - sprout::random::next(rnd).min()),
+						sprout::math::floor((RealType(sprout::random::result(rnd)) - RealType(sprout::random::next(rnd).min())) * r),
 						r,
 						rnd()
 						)
 					: pair_type(
-						RealType(sprout::random::result(rnd) - sprout::random::next(rnd).min()) / r,
+						sprout::math::floor((RealType(sprout::random::result(rnd)) - RealType(sprout::random::next(rnd).min())) * r) / r,
 						sprout::random::next(rnd)
 						)
 					;
-- 
2.43.0


From ca5a80f0ab50fc27a57d0a20888243a712b47dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:00 +0000
Subject: [PATCH 155/218] fix: variate_generator on references passes engine
 and distribution in order

---
 sprout/random/variate_generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/random/variate_generator.hpp b/sprout/random/variate_generator.hpp
index 986bb17..e37978a 100644
--- a/sprout/random/variate_generator.hpp
+++ b/sprout/random/variate_generator.hpp
@@ -47,7 +47,7 @@ namespace sprout {
 			>::type random_result_type;
 		private:
 			static SPROUT_CONSTEXPR random_result_type call(variate_generator const& g, sprout::true_type) {
-				return random_result_type(g.distribution_(g.engine_), g.distribution_, g.engine_);
+				return random_result_type(g.distribution_(g.engine_), g.engine_, g.distribution_);
 			}
 			static SPROUT_CONSTEXPR random_result_type call(variate_generator const& g, sprout::false_type) {
 				return g.distribution_(sprout::as_const(g.engine_));
-- 
2.43.0


From 33a4fa810b9746a566f8f09a0d93e8a653a101d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:00 +0000
Subject: [PATCH 156/218] fix: poisson_distribution scales the second number in
 the functional call

---
 sprout/random/poisson_distribution.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/random/poisson_distribution.hpp b/sprout/random/poisson_distribution.hpp
index dc5e29e..ba96442 100644
--- a/sprout/random/poisson_distribution.hpp
+++ b/sprout/random/poisson_distribution.hpp
@@ -261,7 +261,7 @@ namespace sprout {
 			}
 			template<typename Engine, int D, typename Random, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_CONTINUE(D)>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, poisson_distribution> generate_1_3(Random const& rnd, RealType, RealType u) const {
-				return generate_2<Engine, D + 1>(rnd, sprout::random::result(rnd), ((u < 0) ? -0.5 : 0.5) - u, generate_us(((u < 0) ? -0.5 : 0.5) - u));
+				return generate_2<Engine, D + 1>(rnd, sprout::random::result(rnd) * ptrd_.v_r, ((u < 0) ? -0.5 : 0.5) - u, generate_us(((u < 0) ? -0.5 : 0.5) - u));
 			}
 			template<typename Engine, int D, typename Random, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_BREAK(D)>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, poisson_distribution> generate_1_3(Random const&, RealType, RealType) const {
@@ -308,7 +308,7 @@ namespace sprout {
 			}
 			template<typename Engine, typename Random>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, poisson_distribution> generate_1_3(Random const& rnd, RealType v, RealType u) const {
-				return generate_2<Engine>(rnd, sprout::random::result(rnd), ((u < 0) ? -0.5 : 0.5) - u, generate_us(((u < 0) ? -0.5 : 0.5) - u));
+				return generate_2<Engine>(rnd, sprout::random::result(rnd) * ptrd_.v_r, ((u < 0) ? -0.5 : 0.5) - u, generate_us(((u < 0) ? -0.5 : 0.5) - u));
 			}
 			template<typename Engine, typename Random>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, poisson_distribution> generate_1_2(Random const& rnd, RealType v) const {
-- 
2.43.0


From 24b7587f0664b92254d31212c70aca3308f9f83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:00 +0000
Subject: [PATCH 157/218] fix: poisson_distribution stays inside its table of
 factorials

---
 sprout/random/poisson_distribution.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/random/poisson_distribution.hpp b/sprout/random/poisson_distribution.hpp
index ba96442..9c2004e 100644
--- a/sprout/random/poisson_distribution.hpp
+++ b/sprout/random/poisson_distribution.hpp
@@ -217,7 +217,7 @@ namespace sprout {
 					RealType k = sprout::floor((2 * ptrd_.a / us + ptrd_.b) * u + mean_ + 0.445);
 					v = v * ptrd_.inv_alpha / (ptrd_.a / (us * us) + ptrd_.b);
 					if ((k >= 10 && sprout::log(v * ptrd_.smu) <= (k + 0.5) * sprout::log(mean_ / k) - mean_ - log_sqrt_2pi() + k - (1 / 12. - (1 / 360. - 1 / (1260. * k * k)) / (k * k)) / k)
-						|| (k >= 0 && sprout::log(v) <= k * sprout::log(mean_) - mean_ - log_factorial(static_cast<IntType>(k)))
+						|| (k >= 0 && k < 10 && sprout::log(v) <= k * sprout::log(mean_) - mean_ - log_factorial(static_cast<IntType>(k)))
 						)
 					{
 						return static_cast<IntType>(k);
@@ -236,7 +236,7 @@ namespace sprout {
 			template<typename Engine, int D, typename Random, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_CONTINUE(D)>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, poisson_distribution> generate_3(Random const& rnd, RealType k, RealType v) const {
 				return (k >= 10 && sprout::log(v * ptrd_.smu) <= (k + 0.5) * sprout::log(mean_ / k) - mean_ - log_sqrt_2pi() + k - (1 / 12. - (1 / 360. - 1 / (1260. * k * k)) / (k * k)) / k)
-						|| (k >= 0 && sprout::log(v) <= k * sprout::log(mean_) - mean_ - log_factorial(static_cast<IntType>(k)))
+						|| (k >= 0 && k < 10 && sprout::log(v) <= k * sprout::log(mean_) - mean_ - log_factorial(static_cast<IntType>(k)))
 						? sprout::random::random_result<Engine, poisson_distribution>(static_cast<IntType>(k), sprout::random::next(rnd).engine(), *this)
 					: generate_1<Engine, D + 1>(rnd())
 					;
@@ -291,7 +291,7 @@ namespace sprout {
 			template<typename Engine, typename Random>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, poisson_distribution> generate_3(Random const& rnd, RealType k, RealType v) const {
 				return (k >= 10 && sprout::log(v * ptrd_.smu) <= (k + 0.5) * sprout::log(mean_ / k) - mean_ - log_sqrt_2pi() + k - (1 / 12. - (1 / 360. - 1 / (1260. * k * k)) / (k * k)) / k)
-						|| (k >= 0 && sprout::log(v) <= k * sprout::log(mean_) - mean_ - log_factorial(static_cast<IntType>(k)))
+						|| (k >= 0 && k < 10 && sprout::log(v) <= k * sprout::log(mean_) - mean_ - log_factorial(static_cast<IntType>(k)))
 						? sprout::random::random_result<Engine, poisson_distribution>(static_cast<IntType>(k), sprout::random::next(rnd).engine(), *this)
 					: generate_1<Engine>(rnd())
 					;
-- 
2.43.0


From 7399f54b18249d45313ef507b802fd3143740e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:00 +0000
Subject: [PATCH 158/218] fix: inversion in poisson_distribution and
 binomial_distribution ends

---
 sprout/random/binomial_distribution.hpp |  4 ++--
 sprout/random/poisson_distribution.hpp  | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/sprout/random/binomial_distribution.hpp b/sprout/random/binomial_distribution.hpp
index 0409e09..5b4fc3a 100644
--- a/sprout/random/binomial_distribution.hpp
+++ b/sprout/random/binomial_distribution.hpp
@@ -220,7 +220,7 @@ namespace sprout {
 				RealType r = q_n_;
 				RealType u = static_cast<RealType>(sprout::random::uniform_01<RealType>()(eng));
 				IntType x = 0;
-				while (u > r) {
+				while (u > r && x < t) {
 					u = u - r;
 					++x;
 					r = ((a / x) - s) * r;
@@ -299,7 +299,7 @@ namespace sprout {
 			template<typename Engine>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, binomial_distribution>
 			invert_4(Engine const& eng, RealType u, RealType q, RealType s, RealType a, RealType r, IntType x = 0) const {
-				return u > r
+				return u > r && x < t_
 					? invert_4(eng, u - r, q, s, a, ((a / (x + 1)) - s) * r, x + 1)
 					: sprout::random::random_result<Engine, binomial_distribution>(x, eng, *this)
 					;
diff --git a/sprout/random/poisson_distribution.hpp b/sprout/random/poisson_distribution.hpp
index 9c2004e..b1f89bc 100644
--- a/sprout/random/poisson_distribution.hpp
+++ b/sprout/random/poisson_distribution.hpp
@@ -176,14 +176,25 @@ namespace sprout {
 				while (u > p) {
 					u -= p;
 					++x;
-					p = p * mean_ / x;
+					RealType next_p = p * mean_ / x;
+					if (next_p < sprout::numeric_limits<RealType>::epsilon() && next_p < p) {
+						break;
+					}
+					p = next_p;
 				}
 				return x;
 			}
 			template<typename Engine, typename Random>
+			SPROUT_CONSTEXPR sprout::random::random_result<Engine, poisson_distribution> invert_3(Random const& rnd, RealType u, IntType x, RealType p, RealType next_p) const {
+				return next_p < sprout::numeric_limits<RealType>::epsilon() && next_p < p
+					? sprout::random::random_result<Engine, poisson_distribution>(x, sprout::random::next(rnd).engine(), *this)
+					: invert_2<Engine>(rnd, u, x, next_p)
+					;
+			}
+			template<typename Engine, typename Random>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, poisson_distribution> invert_2(Random const& rnd, RealType u, IntType x, RealType p) const {
 				return !(u > p) ? sprout::random::random_result<Engine, poisson_distribution>(x, sprout::random::next(rnd).engine(), *this)
-					: invert_2<Engine>(rnd, u - p, x + 1, p * mean_ / (x + 1))
+					: invert_3<Engine>(rnd, u - p, x + 1, p, p * mean_ / (x + 1))
 					;
 			}
 			template<typename Engine, typename Random>
-- 
2.43.0


From beb90a76b658fe05f738f2d216a676085eb81596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:03 +0000
Subject: [PATCH 159/218] fix: drawing integers from a floating point generator
 compiles

---
 sprout/random/detail/uniform_int_float.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/random/detail/uniform_int_float.hpp b/sprout/random/detail/uniform_int_float.hpp
index 7198130..ae67e69 100644
--- a/sprout/random/detail/uniform_int_float.hpp
+++ b/sprout/random/detail/uniform_int_float.hpp
@@ -57,7 +57,7 @@ namespace sprout {
 					return (
 						result_type(2) << (
 							NS_SSCRISK_CEL_OR_SPROUT::min(
-								sprout::numeric_limits<result_type>::digits,
+								static_cast<std::size_t>(sprout::numeric_limits<result_type>::digits),
 								sprout::random::detail::generator_bits<base_type>::value()
 								) - 1
 							)
-- 
2.43.0


From ab6458c50fca3a490928bb7a7dc5d83de3dbff70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:03 +0000
Subject: [PATCH 160/218] fix: binomial_distribution with a mutable generator
 compiles

---
 sprout/random/binomial_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/random/binomial_distribution.hpp b/sprout/random/binomial_distribution.hpp
index 5b4fc3a..2e0d7df 100644
--- a/sprout/random/binomial_distribution.hpp
+++ b/sprout/random/binomial_distribution.hpp
@@ -251,7 +251,7 @@ namespace sprout {
 						continue;
 					}
 					v = v * btrd_.alpha / (btrd_.a / (us * us) + btrd_.b);
-					RealType km = sprout::math::abs(k - m_);
+					RealType km = sprout::abs(k - m_);
 					if (km <= 15) {
 						RealType f = RealType(1);
 						if (m_ < k) {
-- 
2.43.0


From c49c1fb685fa9f029300aad6f9857fdf9777bbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:56 +0000
Subject: [PATCH 161/218] fix: uniform_int_distribution of types narrower than
 int compiles

---
 sprout/random/uniform_int_distribution.hpp | 24 +++++++++++-----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/sprout/random/uniform_int_distribution.hpp b/sprout/random/uniform_int_distribution.hpp
index d89ed0a..858dcaf 100644
--- a/sprout/random/uniform_int_distribution.hpp
+++ b/sprout/random/uniform_int_distribution.hpp
@@ -275,7 +275,7 @@ namespace sprout {
 					? sprout::random::detail::generate_uniform_int_true_2<D + 1>(eng, min_value, range, bmin, brange)
 					: sprout::random::detail::generate_uniform_int_true_2_4<D + 1>(
 						eng, min_value, range,
-						bmin, brange, result + (result_increment * mult), result_increment * mult
+						bmin, brange, static_cast<RangeType>(result + (result_increment * mult)), static_cast<RangeType>(result_increment * mult)
 						)
 					;
 			}
@@ -341,8 +341,8 @@ namespace sprout {
 					: sprout::random::detail::generate_uniform_int_true_2_1<D + 1>(
 						sprout::random::next(rnd), min_value, range,
 						bmin, brange, limit,
-						result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult),
-						mult * (RangeType(brange) + RangeType(1))
+						static_cast<RangeType>(result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult)),
+						static_cast<RangeType>(mult * (RangeType(brange) + RangeType(1)))
 						)
 					;
 			}
@@ -403,10 +403,10 @@ namespace sprout {
 					eng, min_value, range,
 					bmin, brange,
 					range == sprout::numeric_limits<RangeType>::max()
-						? range / (RangeType(brange) + 1) + (
+						? static_cast<RangeType>(range / (RangeType(brange) + 1) + (
 							range % (RangeType(brange) + 1) == RangeType(brange) ? 1 : 0
-							)
-						: (range + 1) / (RangeType(brange) + 1)
+							))
+						: static_cast<RangeType>((range + 1) / (RangeType(brange) + 1))
 					);
 			}
 			template<int D, typename Engine, typename T, typename RangeType, typename BaseResult, typename BaseUnsigned, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_BREAK_DECL(D)>
@@ -617,7 +617,7 @@ namespace sprout {
 					? sprout::random::detail::generate_uniform_int_true_2(eng, min_value, range, bmin, brange)
 					: sprout::random::detail::generate_uniform_int_true_2_4(
 						eng, min_value, range,
-						bmin, brange, result + (result_increment * mult), result_increment * mult
+						bmin, brange, static_cast<RangeType>(result + (result_increment * mult)), static_cast<RangeType>(result_increment * mult)
 						)
 					;
 			}
@@ -658,8 +658,8 @@ namespace sprout {
 					: sprout::random::detail::generate_uniform_int_true_2_1(
 						sprout::random::next(rnd), min_value, range,
 						bmin, brange, limit,
-						result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult),
-						mult * (RangeType(brange) + RangeType(1))
+						static_cast<RangeType>(result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult)),
+						static_cast<RangeType>(mult * (RangeType(brange) + RangeType(1)))
 						)
 					;
 			}
@@ -701,10 +701,10 @@ namespace sprout {
 					eng, min_value, range,
 					bmin, brange,
 					range == sprout::numeric_limits<RangeType>::max()
-						? range / (RangeType(brange) + 1) + (
+						? static_cast<RangeType>(range / (RangeType(brange) + 1) + (
 							range % (RangeType(brange) + 1) == RangeType(brange) ? 1 : 0
-							)
-						: (range + 1) / (RangeType(brange) + 1)
+							))
+						: static_cast<RangeType>((range + 1) / (RangeType(brange) + 1))
 					);
 			}
 			template<typename EngineResult, typename T, typename BaseResult>
-- 
2.43.0


From a8751b53846fbfa01359a0f0aba9721aeb558f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:43 +0000
Subject: [PATCH 162/218] fix: random numbers of a narrow generator are added
 to a wide lower limit

---
 sprout/random/detail/signed_unsigned_tools.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sprout/random/detail/signed_unsigned_tools.hpp b/sprout/random/detail/signed_unsigned_tools.hpp
index e5540c3..3a4a856 100644
--- a/sprout/random/detail/signed_unsigned_tools.hpp
+++ b/sprout/random/detail/signed_unsigned_tools.hpp
@@ -54,10 +54,12 @@ namespace sprout {
 			struct add<T1, T2, true> {
 			public:
 				typedef T2 result_type;
+			private:
+				typedef typename std::common_type<T1, typename std::make_unsigned<T2>::type>::type common_type;
 			public:
 				SPROUT_CONSTEXPR result_type operator()(T1 x, T2 y) const {
 					return y >= 0 ? T2(x) + y
-						: x >= T1(-(y + 1)) ? T2(x - T1(-(y + 1)) - 1)
+						: x >= common_type(-(y + 1)) ? T2(x - common_type(-(y + 1)) - 1)
 						: T2(x) + y
 						;
 				}
-- 
2.43.0


From 04b40d42f1934b1cf9decc08fdffd7ba2d3b5fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:35 +0000
Subject: [PATCH 163/218] fix: the functional binomial_distribution ends its
 products at the mode

---
 sprout/random/binomial_distribution.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/random/binomial_distribution.hpp b/sprout/random/binomial_distribution.hpp
index 2e0d7df..570853c 100644
--- a/sprout/random/binomial_distribution.hpp
+++ b/sprout/random/binomial_distribution.hpp
@@ -399,7 +399,7 @@ namespace sprout {
 			template<int D, typename Engine, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_CONTINUE(D)>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, binomial_distribution>
 			generate_7_2(Engine const& eng, RealType v, IntType k, RealType f, IntType i) const {
-				return i != k
+				return i != m_
 					? generate_7_2<D + 1>(eng, v * (btrd_.nr / (i + 1) - btrd_.r), k, f, i + 1)
 					: generate_7_3<D + 1>(eng, v, k, f)
 					;
@@ -585,7 +585,7 @@ namespace sprout {
 			template<typename Engine>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, binomial_distribution>
 			generate_7_2(Engine const& eng, RealType v, IntType k, RealType f, IntType i) const {
-				return i != k
+				return i != m_
 					? generate_7_2(eng, v * (btrd_.nr / (i + 1) - btrd_.r), k, f, i + 1)
 					: generate_7_3(eng, v, k, f)
 					;
-- 
2.43.0


From ef3c08da6fb3fabfbd33a990df250132622a5bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:06 +0000
Subject: [PATCH 164/218] fix: int_to_string writes the digits of its base

---
 sprout/string/int_to_string.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/string/int_to_string.hpp b/sprout/string/int_to_string.hpp
index 2d465f8..a705d37 100644
--- a/sprout/string/int_to_string.hpp
+++ b/sprout/string/int_to_string.hpp
@@ -46,13 +46,13 @@ namespace sprout {
 			return val < 0 ? access_type::raw_construct(
 					static_cast<std::size_t>(digits + 1),
 					SPROUT_CHAR_LITERAL('-', Elem),
-					(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at<Base>(val, digits - 1 - Indexes))
+					(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at<Base>(val, digits - 1 - Indexes), Base)
 						: Elem()
 						)...
 					)
 				: access_type::raw_construct(
 					static_cast<std::size_t>(digits),
-					(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at<Base>(val, digits - 1 - Indexes))
+					(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at<Base>(val, digits - 1 - Indexes), Base)
 						: Elem()
 						)...
 					)
@@ -68,7 +68,7 @@ namespace sprout {
 			typedef sprout::detail::string_construct_access<Elem, sprout::printed_integer_digits<IntType, Base>::value> access_type;
 			return access_type::raw_construct(
 				static_cast<std::size_t>(digits),
-				(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at<Base>(val, digits - 1 - Indexes))
+				(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at<Base>(val, digits - 1 - Indexes), Base)
 					: Elem()
 					)...
 				);
-- 
2.43.0


From e99c2adfcb5bfd25db6a29e1f2a27e979f89d72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:06 +0000
Subject: [PATCH 165/218] fix: int_to_string writes the minimum of a signed
 type in bases 2, 8 and 32

---
 sprout/detail/math/int.hpp      |  5 +++--
 sprout/string/int_to_string.hpp | 22 ++++++++++++++++++++--
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/sprout/detail/math/int.hpp b/sprout/detail/math/int.hpp
index 6c1465f..170e591 100644
--- a/sprout/detail/math/int.hpp
+++ b/sprout/detail/math/int.hpp
@@ -84,8 +84,9 @@ namespace sprout {
 		>
 		inline SPROUT_CONSTEXPR int
 		int_digit_at(IntType val, int digits) {
-			return val < 0 ? -((val / sprout::detail::int_pow<IntType, Base>(digits)) % Base)
-				: (val / sprout::detail::int_pow<IntType, Base>(digits)) % Base
+			return digits ? sprout::detail::int_digit_at<Base>(static_cast<IntType>(val / Base), digits - 1)
+				: val < 0 ? -(val % Base)
+				: val % Base
 				;
 		}
 		template<
diff --git a/sprout/string/int_to_string.hpp b/sprout/string/int_to_string.hpp
index a705d37..7cec3ce 100644
--- a/sprout/string/int_to_string.hpp
+++ b/sprout/string/int_to_string.hpp
@@ -13,6 +13,7 @@
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/index_tuple/metafunction.hpp>
 #include <sprout/string/string.hpp>
+#include <sprout/limits.hpp>
 #include <sprout/integer/integer_digits.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
 #include <sprout/type_traits/integral_constant.hpp>
@@ -23,6 +24,23 @@
 #include <sprout/detail/math/int.hpp>
 
 namespace sprout {
+	namespace detail {
+		//
+		// the digits of the magnitude (the minimum of a signed type can have one more digit than its maximum)
+		//
+		template<typename IntType, std::size_t Base>
+		struct printed_integer_magnitude
+			: public sprout::integral_constant<
+				std::size_t,
+				(sprout::integer_digits<IntType, Base>::value
+					< static_cast<std::size_t>(sprout::detail::int_digits<static_cast<int>(Base)>(sprout::numeric_limits<IntType>::min()))
+					? static_cast<std::size_t>(sprout::detail::int_digits<static_cast<int>(Base)>(sprout::numeric_limits<IntType>::min()))
+					: sprout::integer_digits<IntType, Base>::value
+					)
+			>
+		{};
+	}	// namespace detail
+
 	//
 	// printed_integer_digits
 	//
@@ -30,7 +48,7 @@ namespace sprout {
 	struct printed_integer_digits
 		: public sprout::integral_constant<
 			std::size_t,
-			sprout::integer_digits<IntType, Base>::value + (sprout::is_signed<IntType>::value ? 1 : 0)
+			sprout::detail::printed_integer_magnitude<IntType, Base>::value + (sprout::is_signed<IntType>::value ? 1 : 0)
 		>
 	{};
 
@@ -87,7 +105,7 @@ namespace sprout {
 		return sprout::detail::int_to_string<Elem, Base>(
 			val,
 			sprout::detail::int_digits<Base>(val),
-			sprout::make_index_tuple<sprout::integer_digits<IntType, Base>::value>::make()
+			sprout::make_index_tuple<sprout::detail::printed_integer_magnitude<IntType, Base>::value>::make()
 			);
 	}
 
-- 
2.43.0


From 19a84ff44d2e16a2fc33ebc4ba8ff0534fe4a5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:06 +0000
Subject: [PATCH 166/218] fix: str_to_int reads the prefix 0x only in bases 0
 and 16

---
 sprout/cstdlib/str_to_int.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sprout/cstdlib/str_to_int.hpp b/sprout/cstdlib/str_to_int.hpp
index af50e37..d966740 100644
--- a/sprout/cstdlib/str_to_int.hpp
+++ b/sprout/cstdlib/str_to_int.hpp
@@ -47,8 +47,10 @@ namespace sprout {
 		str_to_int_impl(NullTerminatedIterator const& str, int base, bool negative) {
 			typedef typename std::iterator_traits<NullTerminatedIterator>::value_type char_type;
 			return *str == SPROUT_CHAR_LITERAL('0', char_type)
-				? *sprout::next(str) == SPROUT_CHAR_LITERAL('x', char_type)
-					|| *sprout::next(str) == SPROUT_CHAR_LITERAL('X', char_type)
+				? (base == 0 || base == 16)
+					&& (*sprout::next(str) == SPROUT_CHAR_LITERAL('x', char_type)
+						|| *sprout::next(str) == SPROUT_CHAR_LITERAL('X', char_type)
+						)
 					? sprout::detail::str_to_int_impl_1<IntType>(
 						sprout::next(str, 2),
 						base ? base : 16,
-- 
2.43.0


From 74f1de56e96aa9a048ce1a6b57440401250ec717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:06 +0000
Subject: [PATCH 167/218] fix: str_to_int and ascii_to_int read the negated
 maximum

---
 sprout/cstdlib/ascii_to_int.hpp | 2 +-
 sprout/cstdlib/str_to_int.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/cstdlib/ascii_to_int.hpp b/sprout/cstdlib/ascii_to_int.hpp
index 276ff83..6b125d4 100644
--- a/sprout/cstdlib/ascii_to_int.hpp
+++ b/sprout/cstdlib/ascii_to_int.hpp
@@ -31,7 +31,7 @@ namespace sprout {
 			SPROUT_STATIC_ASSERT(sprout::detail::is_char_type_of_consecutive_digits<value_type>::value);
 			return !sprout::ascii::isdigit(*str)
 				? negative ? -val : val
-				: val > (sprout::numeric_limits<IntType>::max() - (*str - SPROUT_CHAR_LITERAL('0', value_type)) - (negative ? 1 : 0)) / 10
+				: val > (sprout::numeric_limits<IntType>::max() - (*str - SPROUT_CHAR_LITERAL('0', value_type))) / 10
 				? (negative ? sprout::numeric_limits<IntType>::min() : sprout::numeric_limits<IntType>::max())
 				: sprout::detail::ascii_to_int_impl<IntType>(
 					sprout::next(str),
diff --git a/sprout/cstdlib/str_to_int.hpp b/sprout/cstdlib/str_to_int.hpp
index d966740..306ca9d 100644
--- a/sprout/cstdlib/str_to_int.hpp
+++ b/sprout/cstdlib/str_to_int.hpp
@@ -31,7 +31,7 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR IntType
 		str_to_int_impl_1(NullTerminatedIterator const& str, int base, IntType val, IntType x, bool negative) {
 			return x == static_cast<IntType>(-1) ? (negative ? -1 * val : val)
-				: val > (sprout::numeric_limits<IntType>::max() - x - (negative ? 1 : 0)) / base
+				: val > (sprout::numeric_limits<IntType>::max() - x) / base
 					? (negative ? sprout::numeric_limits<IntType>::min() : sprout::numeric_limits<IntType>::max())
 				: sprout::detail::str_to_int_impl_1<IntType>(
 					sprout::next(str),
-- 
2.43.0


From b9870855d0d13eb49f6797875239c40fd1dcd80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:06 +0000
Subject: [PATCH 168/218] fix: str_to_int reads a minus sign for unsigned types

---
 sprout/cstdlib/str_to_int.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sprout/cstdlib/str_to_int.hpp b/sprout/cstdlib/str_to_int.hpp
index 306ca9d..0518f72 100644
--- a/sprout/cstdlib/str_to_int.hpp
+++ b/sprout/cstdlib/str_to_int.hpp
@@ -32,7 +32,7 @@ namespace sprout {
 		str_to_int_impl_1(NullTerminatedIterator const& str, int base, IntType val, IntType x, bool negative) {
 			return x == static_cast<IntType>(-1) ? (negative ? -1 * val : val)
 				: val > (sprout::numeric_limits<IntType>::max() - x) / base
-					? (negative ? sprout::numeric_limits<IntType>::min() : sprout::numeric_limits<IntType>::max())
+					? (negative && sprout::is_signed<IntType>::value ? sprout::numeric_limits<IntType>::min() : sprout::numeric_limits<IntType>::max())
 				: sprout::detail::str_to_int_impl_1<IntType>(
 					sprout::next(str),
 					base,
@@ -83,6 +83,8 @@ namespace sprout {
 			typedef typename std::iterator_traits<NullTerminatedIterator>::value_type char_type;
 			return sprout::ascii::isspace(*str)
 					? sprout::detail::str_to_int<IntType>(sprout::next(str), base)
+				: *str == SPROUT_CHAR_LITERAL('-', char_type)
+					? sprout::detail::str_to_int_impl<IntType>(sprout::next(str), base, true)
 				: *str == SPROUT_CHAR_LITERAL('+', char_type)
 					? sprout::detail::str_to_int_impl<IntType>(sprout::next(str), base, false)
 				: sprout::detail::str_to_int_impl<IntType>(str, base, false)
-- 
2.43.0


From d3c3ac2709e702f36cbd128ac861ed1223865d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:06 +0000
Subject: [PATCH 169/218] fix: str_to_int with an end pointer saturates a type
 narrower than long

---
 sprout/cstdlib/str_to_int.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sprout/cstdlib/str_to_int.hpp b/sprout/cstdlib/str_to_int.hpp
index 0518f72..c703232 100644
--- a/sprout/cstdlib/str_to_int.hpp
+++ b/sprout/cstdlib/str_to_int.hpp
@@ -106,6 +106,14 @@ namespace sprout {
 				: sprout::detail::str_to_int_impl<IntType>(str, base, false)
 				;
 		}
+		template<typename IntType>
+		inline SPROUT_CONSTEXPR IntType
+		str_to_int_saturate(long val) {
+			return val < sprout::numeric_limits<IntType>::min() ? sprout::numeric_limits<IntType>::min()
+				: val > sprout::numeric_limits<IntType>::max() ? sprout::numeric_limits<IntType>::max()
+				: static_cast<IntType>(val)
+				;
+		}
 		template<typename IntType, typename NullTerminatedIterator, typename CharPtr>
 		inline SPROUT_CONSTEXPR IntType
 		str_to_int(NullTerminatedIterator const& str, CharPtr* endptr, int base) {
@@ -124,7 +132,8 @@ namespace sprout {
 						: static_cast<IntType>(std::strtoumax(&*str, endptr, base))
 #else
 				: sprout::is_signed<IntType>::value
-					? sizeof(IntType) <= sizeof(long) ? static_cast<IntType>(std::strtol(&*str, endptr, base))
+					? sizeof(IntType) < sizeof(long) ? sprout::detail::str_to_int_saturate<IntType>(std::strtol(&*str, endptr, base))
+						: sizeof(IntType) == sizeof(long) ? static_cast<IntType>(std::strtol(&*str, endptr, base))
 						: sizeof(IntType) <= sizeof(long long) ? static_cast<IntType>(std::strtoll(&*str, endptr, base))
 						: static_cast<IntType>(std::strtoimax(&*str, endptr, base))
 					: sizeof(IntType) <= sizeof(unsigned long) ? static_cast<IntType>(std::strtoul(&*str, endptr, base))
-- 
2.43.0


From 39a238b791fbf96a99794c7167f8e8f9ce082d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:23 +0000
Subject: [PATCH 170/218] fix: str_to_float reads decimal exponents

---
 sprout/cstdlib/str_to_float.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/cstdlib/str_to_float.hpp b/sprout/cstdlib/str_to_float.hpp
index cf74032..3f7a05f 100644
--- a/sprout/cstdlib/str_to_float.hpp
+++ b/sprout/cstdlib/str_to_float.hpp
@@ -93,7 +93,7 @@ namespace sprout {
 					num_digits,
 					num_decimals,
 					exponent,
-					n * 10 + (*str - SPROUT_CHAR_LITERAL('0', char_type))
+					n < 100000 ? n * 10 + (*str - SPROUT_CHAR_LITERAL('0', char_type)) : n
 					)
 				: sprout::detail::str_to_float_impl_exponent_2<FloatType>(
 					str,
@@ -101,7 +101,7 @@ namespace sprout {
 					number,
 					num_digits,
 					num_decimals,
-					negative ? exponent + n : exponent - n
+					negative ? exponent - n : exponent + n
 					)
 				;
 		}
@@ -128,7 +128,7 @@ namespace sprout {
 						exponent
 						)
 					: sprout::detail::str_to_float_impl_exponent_1<FloatType>(
-						sprout::next(str, 2),
+						sprout::next(str, *sprout::next(str) == SPROUT_CHAR_LITERAL('+', char_type) ? 2 : 1),
 						false,
 						number,
 						num_digits,
-- 
2.43.0


From 339bd30ee495b01c7e7d4a3f506cd9b5d617ae56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:23 +0000
Subject: [PATCH 171/218] fix: str_to_float gives zero for exponents too small
 and keeps the sign of an overflow

---
 sprout/cstdlib/str_to_float.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sprout/cstdlib/str_to_float.hpp b/sprout/cstdlib/str_to_float.hpp
index 3f7a05f..f947952 100644
--- a/sprout/cstdlib/str_to_float.hpp
+++ b/sprout/cstdlib/str_to_float.hpp
@@ -58,9 +58,9 @@ namespace sprout {
 			long exponent = 0
 			)
 		{
-			return exponent >= sprout::numeric_limits<FloatType>::min_exponent
-				&& exponent <= sprout::numeric_limits<FloatType>::max_exponent
-				? sprout::detail::str_to_float_impl_scale<FloatType>(
+			return number == 0 ? number
+				: exponent < sprout::numeric_limits<FloatType>::min_exponent ? number * 0
+				: exponent <= sprout::numeric_limits<FloatType>::max_exponent ? sprout::detail::str_to_float_impl_scale<FloatType>(
 					str,
 					negative,
 					number,
@@ -69,6 +69,7 @@ namespace sprout {
 					exponent,
 					exponent < 0 ? -exponent : exponent
 					)
+				: number < 0 ? -HUGE_VAL
 				: HUGE_VAL
 				;
 		}
-- 
2.43.0


From fcb432dce8461ff6d44b40453100f66879c4c959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:23 +0000
Subject: [PATCH 172/218] fix: str_to_float does not square its power of ten
 past the last bit

---
 sprout/cstdlib/str_to_float.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/cstdlib/str_to_float.hpp b/sprout/cstdlib/str_to_float.hpp
index f947952..d86650b 100644
--- a/sprout/cstdlib/str_to_float.hpp
+++ b/sprout/cstdlib/str_to_float.hpp
@@ -42,7 +42,7 @@ namespace sprout {
 					num_decimals,
 					exponent,
 					n >> 1,
-					p10 * p10
+					n >> 1 ? p10 * p10 : p10
 					)
 				: number
 				;
-- 
2.43.0


From 8f2b35fe8f8a6d2508aa11897e94e05a3cb2673a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:14 +0000
Subject: [PATCH 173/218] fix: float_to_string writes the digits of the rounded
 value

---
 sprout/detail/math/float.hpp      | 26 +++++---------------------
 sprout/string/float_to_string.hpp |  9 +++++----
 2 files changed, 10 insertions(+), 25 deletions(-)

diff --git a/sprout/detail/math/float.hpp b/sprout/detail/math/float.hpp
index 897ccfa..0d2a71c 100644
--- a/sprout/detail/math/float.hpp
+++ b/sprout/detail/math/float.hpp
@@ -10,6 +10,7 @@
 
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/limits.hpp>
 #include <sprout/math/abs.hpp>
 #include <sprout/math/floor.hpp>
 #include <sprout/math/round.hpp>
@@ -139,7 +140,9 @@ namespace sprout {
 		template<typename FloatType>
 		inline SPROUT_CONSTEXPR int
 		float_digit_of_impl(FloatType val) {
-			return static_cast<int>((val - sprout::math::floor(val)) * 10);
+			return val < 1 / sprout::numeric_limits<FloatType>::epsilon() ? static_cast<int>(val - sprout::math::floor(val / 10) * 10)
+				: 0
+				;
 		}
 		template<
 			typename FloatType,
@@ -147,7 +150,7 @@ namespace sprout {
 		>
 		inline SPROUT_CONSTEXPR int
 		float_digit_at(FloatType val, int digits) {
-			return sprout::detail::float_digit_of_impl(val / sprout::detail::float_pow10<FloatType>(digits + 1));
+			return sprout::detail::float_digit_of_impl(sprout::math::floor(val / sprout::detail::float_pow10<FloatType>(digits)));
 		}
 
 		//
@@ -194,25 +197,6 @@ namespace sprout {
 				;
 		}
 
-		//
-		// float_digits_checked
-		//
-		template<typename FloatType>
-		inline SPROUT_CONSTEXPR int
-		float_digits_checked_impl(FloatType val, int digits) {
-			return val == 0 ? digits
-				: sprout::detail::float_digit_at(val, digits - 1) == 0 ? digits - 1 : digits
-				;
-		}
-		template<
-			typename FloatType,
-			typename sprout::enabler_if<std::is_floating_point<FloatType>::value>::type = sprout::enabler
-		>
-		inline SPROUT_CONSTEXPR int
-		float_digits_checked(FloatType val) {
-			return sprout::detail::float_digits_checked_impl(val, sprout::detail::float_digits(val));
-		}
-
 		//
 		// float_round_at
 		//
diff --git a/sprout/string/float_to_string.hpp b/sprout/string/float_to_string.hpp
index 8427f12..8ad25fc 100644
--- a/sprout/string/float_to_string.hpp
+++ b/sprout/string/float_to_string.hpp
@@ -20,6 +20,7 @@
 #include <sprout/math/isnan.hpp>
 #include <sprout/math/signbit.hpp>
 #include <sprout/math/floor.hpp>
+#include <sprout/math/round.hpp>
 #include <sprout/tpp/algorithm/max_element.hpp>
 #include <sprout/detail/char_literal.hpp>
 #include <sprout/detail/char_conversion.hpp>
@@ -72,9 +73,10 @@ namespace sprout {
 		}
 		template<typename Elem, typename FloatType>
 		inline SPROUT_CONSTEXPR sprout::basic_string<Elem, sprout::printed_float_digits<FloatType>::value>
-		float_to_string(FloatType val, bool negative, int digits) {
+		float_to_string(FloatType val, bool negative) {
 			return sprout::detail::float_to_string_impl<Elem>(
-				val, negative, digits, static_cast<int>((val - sprout::math::floor(val)) * sprout::detail::int_pow<int>(sprout::detail::decimal_places_length)),
+				sprout::math::floor(val), negative, sprout::detail::float_digits(val),
+				static_cast<int>(sprout::math::round((val - sprout::math::floor(val)) * sprout::detail::int_pow<int>(sprout::detail::decimal_places_length))),
 				sprout::make_index_tuple<sprout::printed_float_digits<FloatType>::value - 1>::make()
 				);
 		}
@@ -98,8 +100,7 @@ namespace sprout {
 				: access_type::raw_construct(3, SPROUT_CHAR_LITERAL('n', Elem), SPROUT_CHAR_LITERAL('a', Elem), SPROUT_CHAR_LITERAL('n', Elem))
 			: sprout::detail::float_to_string<Elem>(
 				sprout::detail::float_round_at(val < 0 ? -val : val, sprout::detail::decimal_places_length),
-				sprout::math::signbit(val),
-				sprout::detail::float_digits_checked(val)
+				sprout::math::signbit(val)
 				)
 			;
 	}
-- 
2.43.0


From 7256641544a97e071505bd2d863e6ee1a0c1652c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:14 +0000
Subject: [PATCH 174/218] fix: float_to_string of large values

---
 sprout/detail/math/float.hpp      | 4 +++-
 sprout/string/float_to_string.hpp | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sprout/detail/math/float.hpp b/sprout/detail/math/float.hpp
index 0d2a71c..732ba42 100644
--- a/sprout/detail/math/float.hpp
+++ b/sprout/detail/math/float.hpp
@@ -211,7 +211,9 @@ namespace sprout {
 		>
 		inline SPROUT_CONSTEXPR FloatType
 		float_round_at(FloatType val, int digits) {
-			return sprout::detail::float_round_impl(val, sprout::detail::float_pow10<FloatType>(digits));
+			return val < 1 / sprout::numeric_limits<FloatType>::epsilon() ? sprout::detail::float_round_impl(val, sprout::detail::float_pow10<FloatType>(digits))
+				: val
+				;
 		}
 	}	// namespace detail
 }	// namespace sprout
diff --git a/sprout/string/float_to_string.hpp b/sprout/string/float_to_string.hpp
index 8ad25fc..798f087 100644
--- a/sprout/string/float_to_string.hpp
+++ b/sprout/string/float_to_string.hpp
@@ -40,7 +40,7 @@ namespace sprout {
 	struct printed_float_digits
 		: public sprout::integral_constant<
 			std::size_t,
-			sprout::numeric_limits<FloatType>::max_exponent10 + sprout::detail::decimal_places_length + 2
+			sprout::numeric_limits<FloatType>::max_exponent10 + sprout::detail::decimal_places_length + 3
 		>
 	{};
 
-- 
2.43.0


From cbe0ac32f0071c2f57dfc13e8da095a3a0a6f30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:14 +0000
Subject: [PATCH 175/218] fix: float_to_string_exp writes the significand and
 the exponent of the value

---
 sprout/detail/math/float.hpp      | 24 +++++++--------
 sprout/string/float_to_string.hpp | 50 +++++++++++++++++++++----------
 2 files changed, 46 insertions(+), 28 deletions(-)

diff --git a/sprout/detail/math/float.hpp b/sprout/detail/math/float.hpp
index 732ba42..ca62e52 100644
--- a/sprout/detail/math/float.hpp
+++ b/sprout/detail/math/float.hpp
@@ -64,17 +64,17 @@ namespace sprout {
 				;
 		}
 		template<typename FloatType>
-		inline SPROUT_CONSTEXPR int
+		inline SPROUT_CONSTEXPR sprout::pair<int, FloatType>
 		float_exponent10_positive(FloatType val) {
 			typedef sprout::pair<int, FloatType> type;
-			return float_exponent10_positive_0(type(val, 0), 1).first;
+			return sprout::detail::float_exponent10_positive_0(type(0, val), 1);
 		}
 		template<typename FloatType>
 		inline SPROUT_CONSTEXPR sprout::pair<int, FloatType>
 		float_exponent10_negative_1(sprout::pair<int, FloatType> const& current, int n) {
 			typedef sprout::pair<int, FloatType> type;
 			return !((current.second) < 1) ? current
-				: n == 1 ? type(current.first + 1, current.second * 10)
+				: n == 1 ? type(current.first - 1, current.second * 10)
 				: sprout::detail::float_exponent10_negative_1(
 					sprout::detail::float_exponent10_negative_1(
 						current,
@@ -98,10 +98,10 @@ namespace sprout {
 				;
 		}
 		template<typename FloatType>
-		inline SPROUT_CONSTEXPR int
+		inline SPROUT_CONSTEXPR sprout::pair<int, FloatType>
 		float_exponent10_negative(FloatType val) {
 			typedef sprout::pair<int, FloatType> type;
-			return float_exponent10_negative_0(type(val, 0), 1).first;
+			return sprout::detail::float_exponent10_negative_0(type(0, val), 1);
 		}
 		// !!! OLD:
 //		template<typename FloatType>
@@ -122,15 +122,13 @@ namespace sprout {
 			typename FloatType,
 			typename sprout::enabler_if<std::is_floating_point<FloatType>::value>::type = sprout::enabler
 		>
-		inline SPROUT_CONSTEXPR int
+		inline SPROUT_CONSTEXPR sprout::pair<int, FloatType>
 		float_exponent10(FloatType val) {
-			return val < 0
-				? val > -1
-					? sprout::detail::float_exponent10_negative(-val)
-					: sprout::detail::float_exponent10_positive(-val)
-				: val < 1
-					? sprout::detail::float_exponent10_negative(val)
-					: sprout::detail::float_exponent10_positive(val)
+			typedef sprout::pair<int, FloatType> type;
+			return val == 0 ? type(0, val)
+				: val < 0 ? sprout::detail::float_exponent10(-val)
+				: val < 1 ? sprout::detail::float_exponent10_negative(val)
+				: sprout::detail::float_exponent10_positive(val)
 				;
 		}
 
diff --git a/sprout/string/float_to_string.hpp b/sprout/string/float_to_string.hpp
index 798f087..f77b445 100644
--- a/sprout/string/float_to_string.hpp
+++ b/sprout/string/float_to_string.hpp
@@ -129,16 +129,16 @@ namespace sprout {
 	namespace detail {
 		template<typename Elem, typename FloatType, sprout::index_t... Indexes>
 		inline SPROUT_CONSTEXPR sprout::basic_string<Elem, sprout::printed_float_exp_digits<FloatType>::value>
-		float_to_string_exp(FloatType val, bool negative, int exponent10, int e10_digits, sprout::index_tuple<Indexes...>) {
+		float_to_string_exp_impl(int v, bool negative, int exponent10, int e10_digits, sprout::index_tuple<Indexes...>) {
 			typedef sprout::detail::string_construct_access<Elem, sprout::printed_float_exp_digits<FloatType>::value> access_type;
 			return negative
 				? access_type::raw_construct(
 					static_cast<std::size_t>(5 + sprout::detail::decimal_places_length + e10_digits),
 					SPROUT_CHAR_LITERAL('-', Elem),
-					(Indexes == 0 ? sprout::detail::int_to_char<Elem>(sprout::detail::float_digit_at(val, 0))
+					(Indexes == 0 ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at(v, sprout::detail::decimal_places_length))
 						: Indexes == 1 ? SPROUT_CHAR_LITERAL('.', Elem)
 						: Indexes < 2 + sprout::detail::decimal_places_length
-							? sprout::detail::int_to_char<Elem>(sprout::detail::float_digit_at(val, 1 - Indexes))
+							? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at(v, 1 + sprout::detail::decimal_places_length - Indexes))
 						: Indexes == 2 + sprout::detail::decimal_places_length ? SPROUT_CHAR_LITERAL('e', Elem)
 						: Indexes == 3 + sprout::detail::decimal_places_length ? (exponent10 < 0 ? SPROUT_CHAR_LITERAL('-', Elem) : SPROUT_CHAR_LITERAL('+', Elem))
 						: Indexes < 4 + sprout::detail::decimal_places_length + e10_digits
@@ -148,10 +148,10 @@ namespace sprout {
 					)
 				: access_type::raw_construct(
 					static_cast<std::size_t>(4 + sprout::detail::decimal_places_length + e10_digits),
-					(Indexes == 0 ? sprout::detail::int_to_char<Elem>(sprout::detail::float_digit_at(val, 0))
+					(Indexes == 0 ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at(v, sprout::detail::decimal_places_length))
 						: Indexes == 1 ? SPROUT_CHAR_LITERAL('.', Elem)
 						: Indexes < 2 + sprout::detail::decimal_places_length
-							? sprout::detail::int_to_char<Elem>(sprout::detail::float_digit_at(val, 1 - Indexes))
+							? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at(v, 1 + sprout::detail::decimal_places_length - Indexes))
 						: Indexes == 2 + sprout::detail::decimal_places_length ? SPROUT_CHAR_LITERAL('e', Elem)
 						: Indexes == 3 + sprout::detail::decimal_places_length ? (exponent10 < 0 ? SPROUT_CHAR_LITERAL('-', Elem) : SPROUT_CHAR_LITERAL('+', Elem))
 						: Indexes < 4 + sprout::detail::decimal_places_length + e10_digits
@@ -161,6 +161,35 @@ namespace sprout {
 					)
 				;
 		}
+		template<typename Elem, typename FloatType>
+		inline SPROUT_CONSTEXPR sprout::basic_string<Elem, sprout::printed_float_exp_digits<FloatType>::value>
+		float_to_string_exp_1(int v, bool negative, int exponent10) {
+			return sprout::detail::float_to_string_exp_impl<Elem, FloatType>(
+				v, negative, exponent10,
+				NS_SSCRISK_CEL_OR_SPROUT::max(sprout::detail::int_digits(exponent10), 2),
+				sprout::make_index_tuple<sprout::printed_float_exp_digits<FloatType>::value - 1>::make()
+				);
+		}
+		//
+		// v is the significand with its decimal places as an integer: rounding can take it up to the next power of ten
+		//
+		template<typename Elem, typename FloatType>
+		inline SPROUT_CONSTEXPR sprout::basic_string<Elem, sprout::printed_float_exp_digits<FloatType>::value>
+		float_to_string_exp_0(int v, bool negative, int exponent10) {
+			return v < sprout::detail::int_pow<int>(sprout::detail::decimal_places_length + 1)
+				? sprout::detail::float_to_string_exp_1<Elem, FloatType>(v, negative, exponent10)
+				: sprout::detail::float_to_string_exp_1<Elem, FloatType>(v / 10, negative, exponent10 + 1)
+				;
+		}
+		template<typename Elem, typename FloatType>
+		inline SPROUT_CONSTEXPR sprout::basic_string<Elem, sprout::printed_float_exp_digits<FloatType>::value>
+		float_to_string_exp(sprout::pair<int, FloatType> const& val, bool negative) {
+			return sprout::detail::float_to_string_exp_0<Elem, FloatType>(
+				static_cast<int>(sprout::math::round(val.second * sprout::detail::int_pow<int>(sprout::detail::decimal_places_length))),
+				negative,
+				val.first
+				);
+		}
 	}	// namespace detail
 
 	//
@@ -179,16 +208,7 @@ namespace sprout {
 			: sprout::math::isnan(val) ? sprout::math::signbit(val)
 				? access_type::raw_construct(4, SPROUT_CHAR_LITERAL('-', Elem), SPROUT_CHAR_LITERAL('n', Elem), SPROUT_CHAR_LITERAL('a', Elem), SPROUT_CHAR_LITERAL('n', Elem))
 				: access_type::raw_construct(3, SPROUT_CHAR_LITERAL('n', Elem), SPROUT_CHAR_LITERAL('a', Elem), SPROUT_CHAR_LITERAL('n', Elem))
-			: sprout::detail::float_to_string_exp<Elem>(
-				sprout::detail::float_round_at(
-					(val < 0 ? -val : val) / sprout::detail::float_pow10<FloatType>(sprout::detail::float_exponent10(val)),
-					sprout::detail::decimal_places_length
-					),
-				sprout::math::signbit(val),
-				sprout::detail::float_exponent10(val),
-				NS_SSCRISK_CEL_OR_SPROUT::max(sprout::detail::int_digits(sprout::detail::float_exponent10(val)), 2),
-				sprout::make_index_tuple<sprout::printed_float_exp_digits<FloatType>::value - 1>::make()
-				)
+			: sprout::detail::float_to_string_exp<Elem>(sprout::detail::float_exponent10(val), sprout::math::signbit(val))
 			;
 	}
 
-- 
2.43.0


From 3a555967d1493419591aba0be3ca8d7c4c3909c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:22 +0000
Subject: [PATCH 176/218] fix: str_to_int_saturate compares values of one
 signedness

---
 sprout/cstdlib/str_to_int.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/cstdlib/str_to_int.hpp b/sprout/cstdlib/str_to_int.hpp
index c703232..b95b031 100644
--- a/sprout/cstdlib/str_to_int.hpp
+++ b/sprout/cstdlib/str_to_int.hpp
@@ -109,8 +109,8 @@ namespace sprout {
 		template<typename IntType>
 		inline SPROUT_CONSTEXPR IntType
 		str_to_int_saturate(long val) {
-			return val < sprout::numeric_limits<IntType>::min() ? sprout::numeric_limits<IntType>::min()
-				: val > sprout::numeric_limits<IntType>::max() ? sprout::numeric_limits<IntType>::max()
+			return val < static_cast<long>(sprout::numeric_limits<IntType>::min()) ? sprout::numeric_limits<IntType>::min()
+				: val > static_cast<long>(sprout::numeric_limits<IntType>::max()) ? sprout::numeric_limits<IntType>::max()
 				: static_cast<IntType>(val)
 				;
 		}
-- 
2.43.0


From 03e8d0c3ebb3e70691b76597b02c5c5704a5b971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:22 +0000
Subject: [PATCH 177/218] fix: float_to_string takes the digits of large values
 from one scaled integer

---
 sprout/detail/math/float.hpp      |  4 +---
 sprout/string/float_to_string.hpp | 36 ++++++++++++++++++++++++++-----
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/sprout/detail/math/float.hpp b/sprout/detail/math/float.hpp
index ca62e52..ecb549f 100644
--- a/sprout/detail/math/float.hpp
+++ b/sprout/detail/math/float.hpp
@@ -138,9 +138,7 @@ namespace sprout {
 		template<typename FloatType>
 		inline SPROUT_CONSTEXPR int
 		float_digit_of_impl(FloatType val) {
-			return val < 1 / sprout::numeric_limits<FloatType>::epsilon() ? static_cast<int>(val - sprout::math::floor(val / 10) * 10)
-				: 0
-				;
+			return static_cast<int>(val - sprout::math::floor(val / 10) * 10);
 		}
 		template<
 			typename FloatType,
diff --git a/sprout/string/float_to_string.hpp b/sprout/string/float_to_string.hpp
index f77b445..6deb601 100644
--- a/sprout/string/float_to_string.hpp
+++ b/sprout/string/float_to_string.hpp
@@ -45,15 +45,23 @@ namespace sprout {
 	{};
 
 	namespace detail {
+		//
+		// the digit of (val * 10 ^ zeros) at the position
+		//
+		template<typename Elem, typename FloatType>
+		inline SPROUT_CONSTEXPR Elem
+		float_to_string_digit(FloatType val, int pos, int zeros) {
+			return sprout::detail::int_to_char<Elem>(pos < zeros ? 0 : sprout::detail::float_digit_at(val, pos - zeros));
+		}
 		template<typename Elem, typename FloatType, sprout::index_t... Indexes>
 		inline SPROUT_CONSTEXPR sprout::basic_string<Elem, sprout::printed_float_digits<FloatType>::value>
-		float_to_string_impl(FloatType val, bool negative, int digits, int v, sprout::index_tuple<Indexes...>) {
+		float_to_string_impl(FloatType val, bool negative, int digits, int zeros, int v, sprout::index_tuple<Indexes...>) {
 			typedef sprout::detail::string_construct_access<Elem, sprout::printed_float_digits<FloatType>::value> access_type;
 			return negative
 				? access_type::raw_construct(
 					static_cast<std::size_t>(digits + 2 + sprout::detail::decimal_places_length),
 					SPROUT_CHAR_LITERAL('-', Elem),
-					(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::float_digit_at(val, digits - 1 - Indexes))
+					(Indexes < digits ? sprout::detail::float_to_string_digit<Elem>(val, digits - 1 - Indexes, zeros)
 						: Indexes == digits ? SPROUT_CHAR_LITERAL('.', Elem)
 						: Indexes < digits + 1 + sprout::detail::decimal_places_length
 							? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at(v, digits + sprout::detail::decimal_places_length - Indexes))
@@ -62,7 +70,7 @@ namespace sprout {
 					)
 				: access_type::raw_construct(
 					static_cast<std::size_t>(digits + 1 + sprout::detail::decimal_places_length),
-					(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::float_digit_at(val, digits - 1 - Indexes))
+					(Indexes < digits ? sprout::detail::float_to_string_digit<Elem>(val, digits - 1 - Indexes, zeros)
 						: Indexes == digits ? SPROUT_CHAR_LITERAL('.', Elem)
 						: Indexes < digits + 1 + sprout::detail::decimal_places_length
 							? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at(v, digits + sprout::detail::decimal_places_length - Indexes))
@@ -73,9 +81,27 @@ namespace sprout {
 		}
 		template<typename Elem, typename FloatType>
 		inline SPROUT_CONSTEXPR sprout::basic_string<Elem, sprout::printed_float_digits<FloatType>::value>
-		float_to_string(FloatType val, bool negative) {
+		float_to_string_large(FloatType val, bool negative, int zeros) {
 			return sprout::detail::float_to_string_impl<Elem>(
-				sprout::math::floor(val), negative, sprout::detail::float_digits(val),
+				val, negative, sprout::detail::float_digits(val) + zeros, zeros, 0,
+				sprout::make_index_tuple<sprout::printed_float_digits<FloatType>::value - 1>::make()
+				);
+		}
+		template<typename Elem, typename FloatType>
+		inline SPROUT_CONSTEXPR sprout::basic_string<Elem, sprout::printed_float_digits<FloatType>::value>
+		float_to_string_large(FloatType val, bool negative) {
+			return sprout::detail::float_to_string_large<Elem>(
+				sprout::math::round(val / sprout::detail::float_pow10<FloatType>(sprout::detail::float_digits(val) - sprout::numeric_limits<FloatType>::digits10)),
+				negative,
+				sprout::detail::float_digits(val) - sprout::numeric_limits<FloatType>::digits10
+				);
+		}
+		template<typename Elem, typename FloatType>
+		inline SPROUT_CONSTEXPR sprout::basic_string<Elem, sprout::printed_float_digits<FloatType>::value>
+		float_to_string(FloatType val, bool negative) {
+			return !(val < 2 / sprout::numeric_limits<FloatType>::epsilon()) ? sprout::detail::float_to_string_large<Elem>(val, negative)
+				: sprout::detail::float_to_string_impl<Elem>(
+				sprout::math::floor(val), negative, sprout::detail::float_digits(val), 0,
 				static_cast<int>(sprout::math::round((val - sprout::math::floor(val)) * sprout::detail::int_pow<int>(sprout::detail::decimal_places_length))),
 				sprout::make_index_tuple<sprout::printed_float_digits<FloatType>::value - 1>::make()
 				);
-- 
2.43.0


From 45c14d28437713fe7fb3484ad7a695e2fb2f978a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:02 +0000
Subject: [PATCH 178/218] fix: md5: let the mutating process_block advance its
 own copy of the iterators

---
 sprout/checksum/md5.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/checksum/md5.hpp b/sprout/checksum/md5.hpp
index fe8e468..77caf49 100644
--- a/sprout/checksum/md5.hpp
+++ b/sprout/checksum/md5.hpp
@@ -362,7 +362,7 @@ namespace sprout {
 			block_.assign(0);
 		}
 		template<typename InputIterator>
-		SPROUT_CXX14_CONSTEXPR void process_block_impl(InputIterator const& first, InputIterator const& last) {
+		SPROUT_CXX14_CONSTEXPR void process_block_impl(InputIterator first, InputIterator last) {
 			for (; first != last; ++first) {
 				process_byte(*first);
 			}
-- 
2.43.0


From 428190ee67d1ef0771a2975b91a1ce47fe973e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:10 +0000
Subject: [PATCH 179/218] fix: uuid: make the stream extraction of uuids
 compile

---
 sprout/uuid/io.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sprout/uuid/io.hpp b/sprout/uuid/io.hpp
index 4452e10..de17493 100644
--- a/sprout/uuid/io.hpp
+++ b/sprout/uuid/io.hpp
@@ -40,26 +40,27 @@ namespace sprout {
 					char const szdigits[] = "0123456789ABCDEF";
 					ctype.widen(szdigits, szdigits + 16, xdigits);
 				}
+				char_type const* const xdigits_begin = xdigits;
 				char_type const* const xdigits_end = xdigits + 16;
 				char_type c;
 				for (sprout::uuids::uuid::size_type i = 0, last = rhs.size(); i < last && lhs; ++i) {
 					lhs >> c;
 					c = ctype.toupper(c);
-					char_type const* f = sprout::find(xdigits, xdigits_end, c);
+					char_type const* f = sprout::find(xdigits_begin, xdigits_end, c);
 					if (f == xdigits_end) {
 						lhs.setstate(std::ios_base::failbit);
 						break;
 					}
-					sprout::uuids::uuid::value_type byte = static_cast<sprout::uuids::uuid::value_type>(std::distance(&xdigits[0], f));
+					sprout::uuids::uuid::value_type byte = static_cast<sprout::uuids::uuid::value_type>(std::distance(xdigits_begin, f));
 					lhs >> c;
 					c = ctype.toupper(c);
-					f = sprout::find(xdigits, xdigits_end, c);
+					f = sprout::find(xdigits_begin, xdigits_end, c);
 					if (f == xdigits_end) {
 						lhs.setstate(std::ios_base::failbit);
 						break;
 					}
 					byte <<= 4;
-					byte |= static_cast<sprout::uuids::uuid::value_type>(std::distance(&xdigits[0], f));
+					byte |= static_cast<sprout::uuids::uuid::value_type>(std::distance(xdigits_begin, f));
 					data[i] = byte;
 					if (lhs) {
 						if (i == 3 || i == 5 || i == 7 || i == 9) {
-- 
2.43.0


From 6eebb9e578e82cd9ae463690b9dafabc01e49880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:10 +0000
Subject: [PATCH 180/218] fix: uuid: declare tuple_get where argument dependent
 lookup finds it

---
 sprout/uuid/tuple.hpp | 44 +++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/sprout/uuid/tuple.hpp b/sprout/uuid/tuple.hpp
index 7ba170d..cfe1d07 100644
--- a/sprout/uuid/tuple.hpp
+++ b/sprout/uuid/tuple.hpp
@@ -20,26 +20,30 @@
 #include <sprout/detail/nil_base.hpp>
 
 namespace sprout {
-	//
-	// tuple_get
-	//
-	template<std::size_t I>
-	inline SPROUT_CONSTEXPR sprout::uuids::uuid::value_type&
-	tuple_get(sprout::uuids::uuid& t) SPROUT_NOEXCEPT {
-		static_assert(I < 16, "tuple_get: index out of range");
-		return t[I];
-	}
-	template<std::size_t I>
-	inline SPROUT_CONSTEXPR sprout::uuids::uuid::value_type const&
-	tuple_get(sprout::uuids::uuid const& t) SPROUT_NOEXCEPT {
-		static_assert(I < 16, "tuple_get: index out of range");
-		return t[I];
-	}
-	template<std::size_t I>
-	inline SPROUT_CONSTEXPR sprout::uuids::uuid::value_type&&
-	tuple_get(sprout::uuids::uuid&& t) SPROUT_NOEXCEPT {
-		return sprout::move(sprout::tuples::get<I>(t));
-	}
+	namespace uuids {
+		//
+		// tuple_get
+		//
+		template<std::size_t I>
+		inline SPROUT_CONSTEXPR sprout::uuids::uuid::value_type&
+		tuple_get(sprout::uuids::uuid& t) SPROUT_NOEXCEPT {
+			static_assert(I < 16, "tuple_get: index out of range");
+			return t[I];
+		}
+		template<std::size_t I>
+		inline SPROUT_CONSTEXPR sprout::uuids::uuid::value_type const&
+		tuple_get(sprout::uuids::uuid const& t) SPROUT_NOEXCEPT {
+			static_assert(I < 16, "tuple_get: index out of range");
+			return t[I];
+		}
+		template<std::size_t I>
+		inline SPROUT_CONSTEXPR sprout::uuids::uuid::value_type&&
+		tuple_get(sprout::uuids::uuid&& t) SPROUT_NOEXCEPT {
+			return sprout::move(sprout::tuples::get<I>(t));
+		}
+	}	// namespace uuids
+
+	using sprout::uuids::tuple_get;
 }	// namespace sprout
 
 namespace std {
-- 
2.43.0


From 6cc03246aed759655a0a5ae9e07833d142140a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:01 +0000
Subject: [PATCH 181/218] fix: uuid: declare hash_value where argument
 dependent lookup finds it

---
 sprout/uuid/hash.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/sprout/uuid/hash.hpp b/sprout/uuid/hash.hpp
index 8b7e55d..033f605 100644
--- a/sprout/uuid/hash.hpp
+++ b/sprout/uuid/hash.hpp
@@ -15,13 +15,17 @@
 #include <sprout/functional/hash.hpp>
 
 namespace sprout {
-	//
-	// hash_value
-	//
-	inline SPROUT_CONSTEXPR std::size_t
-	hash_value(sprout::uuids::uuid const& v) {
-		return sprout::hash_range(v);
-	}
+	namespace uuids {
+		//
+		// hash_value
+		//
+		inline SPROUT_CONSTEXPR std::size_t
+		hash_value(sprout::uuids::uuid const& v) {
+			return sprout::hash_range(v);
+		}
+	}	// namespace uuids
+
+	using sprout::uuids::hash_value;
 }	// namespace sprout
 
 namespace std {
-- 
2.43.0


From 0fb4ebf1a79e0279691941e492499f121e87ba66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:01 +0000
Subject: [PATCH 182/218] fix: uuid: write the bytes of a uuid unaffected by
 the stream's adjustment and base flags

---
 sprout/uuid/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/uuid/io.hpp b/sprout/uuid/io.hpp
index de17493..364e00a 100644
--- a/sprout/uuid/io.hpp
+++ b/sprout/uuid/io.hpp
@@ -97,7 +97,7 @@ namespace sprout {
 						lhs << fill;
 					}
 				}
-				lhs << std::hex;
+				lhs << std::hex << std::right << std::noshowbase;
 				lhs.fill(lhs.widen('0'));
 				std::size_t i = 0;
 				for (sprout::uuids::uuid::const_iterator i_data = rhs.begin(), i_last = rhs.end(); i_data != i_last; ++i_data, ++i) {
-- 
2.43.0


From 6268b637584b8a4c856f51db1cdfe056dc528075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:01 +0000
Subject: [PATCH 183/218] fix: uuid: string_generator rejects text after the
 uuid

---
 sprout/uuid/string_generator.hpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/sprout/uuid/string_generator.hpp b/sprout/uuid/string_generator.hpp
index 92aae7e..0f0e310 100644
--- a/sprout/uuid/string_generator.hpp
+++ b/sprout/uuid/string_generator.hpp
@@ -85,6 +85,22 @@ namespace sprout {
 			static SPROUT_CONSTEXPR bool is_close_brace(Elem c, Elem open_brace) {
 				return is_open_brace(open_brace) && is_close_brace(c);
 			}
+			template<typename ForwardIterator, typename... Args>
+			SPROUT_CONSTEXPR result_type
+			generate_4(next_char<ForwardIterator> nc, Args... args) const {
+				return nc.first == nc.last
+					? result_type{{args...}}
+					: throw std::runtime_error("string_generator: invalid uuid string (trailing characters)")
+					;
+			}
+			template<typename ForwardIterator, typename Char, typename... Args>
+			SPROUT_CONSTEXPR result_type
+			generate_3(next_char<ForwardIterator> nc, Char open_brace, Args... args) const {
+				return is_close_brace(nc.c, open_brace)
+					? generate_4(nc, args...)
+					: throw std::runtime_error("string_generator: invalid uuid string (brace not closed)")
+					;
+			}
 			template<typename ForwardIterator, typename Char, typename... Args>
 			SPROUT_CONSTEXPR result_type
 			generate_2_3(next_char<ForwardIterator> nc, Char open_brace, bool has_dashes, std::uint8_t byte, Args... args) const {
@@ -133,9 +149,9 @@ namespace sprout {
 				result_type
 			>::type
 			generate_2(next_char<ForwardIterator> nc, Char open_brace, bool, Args... args) const {
-				return !open_brace || (open_brace && is_close_brace(nc.next().c, open_brace))
-					? result_type{{args...}}
-					: throw std::runtime_error("string_generator: invalid uuid string (brace not closed)")
+				return open_brace
+					? generate_3(nc.next(), open_brace, args...)
+					: generate_4(nc, args...)
 					;
 			}
 			template<typename ForwardIterator, typename Char, typename... Args>
-- 
2.43.0


From 0d8c6a2e25a20e73c88159ac3477e38b36fa3f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:44 +0000
Subject: [PATCH 184/218] fix: brainfuck: execute '-'

---
 sprout/brainfuck/brainfuck.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/brainfuck/brainfuck.hpp b/sprout/brainfuck/brainfuck.hpp
index 3d182b3..c7ccb81 100644
--- a/sprout/brainfuck/brainfuck.hpp
+++ b/sprout/brainfuck/brainfuck.hpp
@@ -98,7 +98,7 @@ namespace sprout {
 							sprout::next(first), last, output, in_first, in_last,
 							sprout::fixed::set(buffer, pos, value_type(buffer.at(pos) + 1)), out_buffer, pos, out_pos
 							)
-					: *first == SPROUT_CHAR_LITERAL('+', value_type)
+					: *first == SPROUT_CHAR_LITERAL('-', value_type)
 						? sprout::brainfuck::detail::exec_impl(
 							sprout::next(first), last, output, in_first, in_last,
 							sprout::fixed::set(buffer, pos, value_type(buffer.at(pos) - 1)), out_buffer, pos, out_pos
-- 
2.43.0


From b3e11893fa59a93233c11bbdfed361ec3dfb5c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:44 +0000
Subject: [PATCH 185/218] fix: brainfuck: translate every ook pair to its own
 command

---
 sprout/brainfuck/ook.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sprout/brainfuck/ook.hpp b/sprout/brainfuck/ook.hpp
index ab87f54..d7c0295 100644
--- a/sprout/brainfuck/ook.hpp
+++ b/sprout/brainfuck/ook.hpp
@@ -39,19 +39,19 @@ namespace sprout {
 						*sprout::weed::lim<sprout::container_traits<Result>::static_size>(
 							sprout::weed::replace('>')
 								["Ook." >> *sprout::weed::space_ >> "Ook?"]
-							| sprout::weed::replace('>')
+							| sprout::weed::replace('<')
 								["Ook?" >> *sprout::weed::space_ >> "Ook."]
-							| sprout::weed::replace('>')
+							| sprout::weed::replace('+')
 								["Ook." >> *sprout::weed::space_ >> "Ook."]
-							| sprout::weed::replace('>')
+							| sprout::weed::replace('-')
 								["Ook!" >> *sprout::weed::space_ >> "Ook!"]
-							| sprout::weed::replace('>')
+							| sprout::weed::replace('.')
 								["Ook!" >> *sprout::weed::space_ >> "Ook."]
-							| sprout::weed::replace('>')
+							| sprout::weed::replace(',')
 								["Ook." >> *sprout::weed::space_ >> "Ook!"]
-							| sprout::weed::replace('>')
+							| sprout::weed::replace('[')
 								["Ook!" >> *sprout::weed::space_ >> "Ook?"]
-							| sprout::weed::replace('>')
+							| sprout::weed::replace(']')
 								["Ook?" >> *sprout::weed::space_ >> "Ook!"]
 							| sprout::weed::replace(' ')
 								[sprout::weed::char_]
-- 
2.43.0


From 2ae69d0bcc6f746435654618887c1d2998d45106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:44 +0000
Subject: [PATCH 186/218] fix: brainfuck: spell the misa long vowel mark as a
 hexadecimal escape

---
 sprout/brainfuck/misa.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/brainfuck/misa.hpp b/sprout/brainfuck/misa.hpp
index 8919c6f..93d54e1 100644
--- a/sprout/brainfuck/misa.hpp
+++ b/sprout/brainfuck/misa.hpp
@@ -38,7 +38,7 @@ namespace sprout {
 						first, last,
 						*sprout::weed::lim<sprout::container_traits<Result>::static_size>(
 							sprout::weed::replace('>')
-								[sprout::weed::lit('>') | "\x81\xA8"/*"��"*/ | "\x81\x60"/*"�`"*/ | "\x81\5B"/*"�["*/]
+								[sprout::weed::lit('>') | "\x81\xA8"/*"��"*/ | "\x81\x60"/*"�`"*/ | "\x81\x5B"/*"�["*/]
 							| sprout::weed::replace('<')
 								[sprout::weed::lit('<') | "\x81\xA9"/*"��"*/ | "\x81\x9A"/*"��"*/ | "\x81\x99"/*"��"*/]
 							| sprout::weed::replace('+')
-- 
2.43.0


From e603bbe222e84c5886d5de149a90a5f5e4920942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:15 +0000
Subject: [PATCH 187/218] fix: weed: is_parser answers false for what is no
 parser instead of failing

---
 sprout/weed/traits/parser/is_parser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sprout/weed/traits/parser/is_parser.hpp b/sprout/weed/traits/parser/is_parser.hpp
index 6307298..37b6cfa 100644
--- a/sprout/weed/traits/parser/is_parser.hpp
+++ b/sprout/weed/traits/parser/is_parser.hpp
@@ -24,7 +24,9 @@ namespace sprout {
 			// is_parser
 			//
 			template<typename T, typename = void>
-			struct is_parser;
+			struct is_parser
+				: public sprout::false_type
+			{};
 			template<typename T>
 			struct is_parser<
 				T,
-- 
2.43.0


From 4d4ff345ef46283645ad9f76be0f2ec7884eff52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:15 +0000
Subject: [PATCH 188/218] fix: weed: include the replace directive with the
 other directives

---
 sprout/weed/parser/directive.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sprout/weed/parser/directive.hpp b/sprout/weed/parser/directive.hpp
index 463fdc8..7026161 100644
--- a/sprout/weed/parser/directive.hpp
+++ b/sprout/weed/parser/directive.hpp
@@ -11,6 +11,7 @@
 #include <sprout/config.hpp>
 #include <sprout/weed/parser/directive/omit.hpp>
 #include <sprout/weed/parser/directive/repeat.hpp>
+#include <sprout/weed/parser/directive/replace.hpp>
 #include <sprout/weed/parser/directive/as_array.hpp>
 #include <sprout/weed/parser/directive/as_tuple.hpp>
 
-- 
2.43.0


From 78f3fedf3532ca88cbc9425c659cb43f2f2a2e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:15 +0000
Subject: [PATCH 189/218] fix: weed: element | container takes the size of the
 container

---
 sprout/weed/attr_cnv/results/bitwise_or.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/weed/attr_cnv/results/bitwise_or.hpp b/sprout/weed/attr_cnv/results/bitwise_or.hpp
index 6e23a74..33ab760 100644
--- a/sprout/weed/attr_cnv/results/bitwise_or.hpp
+++ b/sprout/weed/attr_cnv/results/bitwise_or.hpp
@@ -76,7 +76,7 @@ namespace sprout {
 					>::type
 				>
 					: public std::conditional<
-						sprout::container_traits<T>::static_size != 0,
+						sprout::container_traits<U>::static_size != 0,
 						U,
 						typename sprout::container_transform_traits<U>::template rebind_size<1>::type
 					>
-- 
2.43.0


From e80eb0ccdf77693e64926df7e4314cac59102de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:15 +0000
Subject: [PATCH 190/218] fix: weed: a list leaves a separator that no element
 follows

---
 sprout/weed/context/parse_context/operator/modulus.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/weed/context/parse_context/operator/modulus.hpp b/sprout/weed/context/parse_context/operator/modulus.hpp
index 1f549e9..ec5e9e8 100644
--- a/sprout/weed/context/parse_context/operator/modulus.hpp
+++ b/sprout/weed/context/parse_context/operator/modulus.hpp
@@ -65,7 +65,7 @@ namespace sprout {
 					? call(
 						expr1,
 						expr2,
-						res.ctx(),
+						ctx,
 						limited_category,
 						sprout::weed::eval(expr1, res.ctx()),
 						attrs...
@@ -202,7 +202,7 @@ namespace sprout {
 				) const
 			{
 				return res.success()
-					? call_inf(expr1, expr2, res.ctx(), sprout::weed::eval(expr1, res.ctx()))
+					? call_inf(expr1, expr2, ctx, sprout::weed::eval(expr1, res.ctx()))
 					: result_type(true, ctx.begin(), attribute_type(), ctx)
 					;
 			}
-- 
2.43.0


From a6f970ff827e55fd05a314076822e674add80a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:39 +0000
Subject: [PATCH 191/218] fix: weed: a repetition limited to one element stops
 over after it

---
 .../parse_context/operator/dereference.hpp    | 21 ++++++++++++-------
 .../parse_context/operator/modulus.hpp        | 21 ++++++++++++-------
 .../parse_context/operator/unary_plus.hpp     | 21 ++++++++++++-------
 3 files changed, 42 insertions(+), 21 deletions(-)

diff --git a/sprout/weed/context/parse_context/operator/dereference.hpp b/sprout/weed/context/parse_context/operator/dereference.hpp
index 5aa4577..c7dbc7f 100644
--- a/sprout/weed/context/parse_context/operator/dereference.hpp
+++ b/sprout/weed/context/parse_context/operator/dereference.hpp
@@ -196,13 +196,20 @@ namespace sprout {
 				) const
 			{
 				return res.success()
-					? call(
-						expr,
-						res.ctx(),
-						sprout::tuples::get<0>(expr.args()).limited_category(),
-						sprout::weed::eval(expr, res.ctx()),
-						res.attr()
-						)
+					? limit::value == 1 && sprout::tuples::get<0>(expr.args()).limited_category() == sprout::weed::limited::stopover
+						? result_type(
+							true,
+							res.current(),
+							sprout::weed::attr_cnv::times<limit::value, attr_type>(res.attr()),
+							res.ctx()
+							)
+						: call(
+							expr,
+							res.ctx(),
+							sprout::tuples::get<0>(expr.args()).limited_category(),
+							sprout::weed::eval(expr, res.ctx()),
+							res.attr()
+							)
 					: result_type(true, ctx.begin(), attribute_type(), ctx)
 					;
 			}
diff --git a/sprout/weed/context/parse_context/operator/modulus.hpp b/sprout/weed/context/parse_context/operator/modulus.hpp
index ec5e9e8..5077465 100644
--- a/sprout/weed/context/parse_context/operator/modulus.hpp
+++ b/sprout/weed/context/parse_context/operator/modulus.hpp
@@ -247,13 +247,20 @@ namespace sprout {
 				) const
 			{
 				return res.success()
-					? call_1(
-						expr1,
-						expr2,
-						res.ctx(),
-						sprout::tuples::get<0>(expr1.args()).limited_category(),
-						sprout::weed::eval(expr2, res.ctx()), res.attr()
-						)
+					? limit::value == 1 && sprout::tuples::get<0>(expr1.args()).limited_category() == sprout::weed::limited::stopover
+						? result_type(
+							true,
+							res.current(),
+							sprout::weed::attr_cnv::modulus<limit::value, attr_type>(res.attr()),
+							res.ctx()
+							)
+						: call_1(
+							expr1,
+							expr2,
+							res.ctx(),
+							sprout::tuples::get<0>(expr1.args()).limited_category(),
+							sprout::weed::eval(expr2, res.ctx()), res.attr()
+							)
 					: result_type(false, ctx.begin(), attribute_type(), ctx)
 					;
 			}
diff --git a/sprout/weed/context/parse_context/operator/unary_plus.hpp b/sprout/weed/context/parse_context/operator/unary_plus.hpp
index b6be770..444c48c 100644
--- a/sprout/weed/context/parse_context/operator/unary_plus.hpp
+++ b/sprout/weed/context/parse_context/operator/unary_plus.hpp
@@ -196,13 +196,20 @@ namespace sprout {
 				) const
 			{
 				return res.success()
-					? call(
-						expr,
-						res.ctx(),
-						sprout::tuples::get<0>(expr.args()).limited_category(),
-						sprout::weed::eval(expr, res.ctx()),
-						res.attr()
-						)
+					? limit::value == 1 && sprout::tuples::get<0>(expr.args()).limited_category() == sprout::weed::limited::stopover
+						? result_type(
+							true,
+							res.current(),
+							sprout::weed::attr_cnv::times<limit::value, attr_type>(res.attr()),
+							res.ctx()
+							)
+						: call(
+							expr,
+							res.ctx(),
+							sprout::tuples::get<0>(expr.args()).limited_category(),
+							sprout::weed::eval(expr, res.ctx()),
+							res.attr()
+							)
 					: result_type(false, ctx.begin(), attribute_type(), ctx)
 					;
 			}
-- 
2.43.0


From c766aabd068c18ea794735cc52c6a5dba3b55fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:39 +0000
Subject: [PATCH 192/218] fix: weed: repeat consumes what it matched

---
 sprout/weed/parser/directive/repeat.hpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/sprout/weed/parser/directive/repeat.hpp b/sprout/weed/parser/directive/repeat.hpp
index 745a78d..d46c7cd 100644
--- a/sprout/weed/parser/directive/repeat.hpp
+++ b/sprout/weed/parser/directive/repeat.hpp
@@ -75,7 +75,7 @@ namespace sprout {
 					) const
 				{
 					return res.success()
-						? call(p, p.count_ <= sizeof...(Attrs) ? res.current() : first, sprout::weed::eval(p.expr_, res.ctx()), attrs..., res.attr())
+						? call(p, p.count_ <= sizeof...(Attrs) + 1 ? res.current() : first, sprout::weed::eval(p.expr_, res.ctx()), attrs..., res.attr())
 						: p.count_ <= sizeof...(Attrs)
 							? result_type(true, first, sprout::weed::attr_cnv::times<limit::value, attr_type>(attrs...))
 							: result_type(false, first, attribute_type())
@@ -90,7 +90,7 @@ namespace sprout {
 					) const
 				{
 					return res.success()
-						? call_inf(p, p.count_ <= n ? res.current() : first, sprout::weed::eval(p.expr_, res.ctx()), n + 1)
+						? call_inf(p, p.count_ <= n + 1 || p.count_ == std::size_t(-1) ? res.current() : first, sprout::weed::eval(p.expr_, res.ctx()), n + 1)
 						: result_type(p.count_ <= n || p.count_ == std::size_t(-1), first, attribute_type())
 						;
 				}
@@ -107,7 +107,7 @@ namespace sprout {
 					return res.success()
 						? call_inf(
 							p,
-							p.count_ <= 0 ? res.current() : first,
+							p.count_ <= 1 || p.count_ == std::size_t(-1) ? res.current() : first,
 							sprout::weed::eval(p.expr_, res.ctx()),
 							1
 							)
@@ -124,15 +124,7 @@ namespace sprout {
 					Result const& res
 					) const
 				{
-					return res.success()
-						? call(
-							p,
-							p.count_ <= 0 ? res.current() : first,
-							sprout::weed::eval(p.expr_, res.ctx()),
-							res.attr()
-							)
-						: result_type(p.count_ <= 0, first, attribute_type())
-						;
+					return call(p, first, res);
 				}
 			public:
 				SPROUT_CONSTEXPR result_type operator()(
-- 
2.43.0


From 6743f709df2a148955d1debad5700d4fe5cfba38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:39 +0000
Subject: [PATCH 193/218] fix: weed: count the digits read against the least
 number of digits

---
 sprout/weed/parser/numeric/int_p.hpp  | 6 +++---
 sprout/weed/parser/numeric/uint_p.hpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sprout/weed/parser/numeric/int_p.hpp b/sprout/weed/parser/numeric/int_p.hpp
index 4280be0..a5d2af8 100644
--- a/sprout/weed/parser/numeric/int_p.hpp
+++ b/sprout/weed/parser/numeric/int_p.hpp
@@ -88,7 +88,7 @@ namespace sprout {
 							sprout::next(first),
 							static_cast<IntType>(t * Radix + sprout::tuples::get<0>(res))
 							)
-					: N < MinDigits
+					: n <= MinDigits
 						? result_type(false, temp_first, attribute_type())
 						: result_type(true, first, t)
 					;
@@ -114,7 +114,7 @@ namespace sprout {
 						static_cast<IntType>(t * Radix + sprout::tuples::get<0>(res)),
 						n
 						)
-					: N < MinDigits
+					: n <= MinDigits
 						? result_type(false, temp_first, attribute_type())
 						: result_type(true, first, t)
 					;
@@ -137,7 +137,7 @@ namespace sprout {
 						n + 1,
 						sprout::weed::detail::from_ndigit<Radix, IntType>(*first)
 						)
-					: N < MinDigits
+					: n < MinDigits
 						? result_type(false, temp_first, attribute_type())
 						: result_type(true, first, t)
 					;
diff --git a/sprout/weed/parser/numeric/uint_p.hpp b/sprout/weed/parser/numeric/uint_p.hpp
index 2ca693f..d96bd99 100644
--- a/sprout/weed/parser/numeric/uint_p.hpp
+++ b/sprout/weed/parser/numeric/uint_p.hpp
@@ -87,7 +87,7 @@ namespace sprout {
 							sprout::next(first),
 							static_cast<UIntType>(t * Radix + sprout::tuples::get<0>(res))
 							)
-					: N < MinDigits
+					: n <= MinDigits
 						? result_type(false, temp_first, attribute_type())
 						: result_type(true, first, t)
 					;
@@ -113,7 +113,7 @@ namespace sprout {
 						static_cast<UIntType>(t * Radix + sprout::tuples::get<0>(res)),
 						n
 						)
-					: N < MinDigits
+					: n <= MinDigits
 						? result_type(false, temp_first, attribute_type())
 						: result_type(true, first, t)
 					;
@@ -136,7 +136,7 @@ namespace sprout {
 						n + 1,
 						sprout::weed::detail::from_ndigit<Radix, UIntType>(*first)
 						)
-					: N < MinDigits
+					: n < MinDigits
 						? result_type(false, temp_first, attribute_type())
 						: result_type(true, first, t)
 					;
-- 
2.43.0


From cea6a8e3667b055321501e580ff0663944294873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:39 +0000
Subject: [PATCH 194/218] fix: weed: bin, oct and hex take one digit or more

---
 sprout/weed/parser/numeric/bin.hpp | 2 +-
 sprout/weed/parser/numeric/hex.hpp | 2 +-
 sprout/weed/parser/numeric/oct.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/weed/parser/numeric/bin.hpp b/sprout/weed/parser/numeric/bin.hpp
index 0167dee..f7c6d18 100644
--- a/sprout/weed/parser/numeric/bin.hpp
+++ b/sprout/weed/parser/numeric/bin.hpp
@@ -19,7 +19,7 @@ namespace sprout {
 		//
 		// bin
 		//
-		SPROUT_STATIC_CONSTEXPR auto bin = sprout::weed::uint_p<std::uintmax_t, 2, static_cast<std::size_t>(-1)>();
+		SPROUT_STATIC_CONSTEXPR auto bin = sprout::weed::uint_p<std::uintmax_t, 2, 1, static_cast<std::size_t>(-1)>();
 
 		//
 		// bin8
diff --git a/sprout/weed/parser/numeric/hex.hpp b/sprout/weed/parser/numeric/hex.hpp
index ca34529..e21888b 100644
--- a/sprout/weed/parser/numeric/hex.hpp
+++ b/sprout/weed/parser/numeric/hex.hpp
@@ -19,7 +19,7 @@ namespace sprout {
 		//
 		// hex
 		//
-		SPROUT_STATIC_CONSTEXPR auto hex = sprout::weed::uint_p<std::uintmax_t, 16, static_cast<std::size_t>(-1)>();
+		SPROUT_STATIC_CONSTEXPR auto hex = sprout::weed::uint_p<std::uintmax_t, 16, 1, static_cast<std::size_t>(-1)>();
 
 		//
 		// hex8
diff --git a/sprout/weed/parser/numeric/oct.hpp b/sprout/weed/parser/numeric/oct.hpp
index e9eb433..9db621b 100644
--- a/sprout/weed/parser/numeric/oct.hpp
+++ b/sprout/weed/parser/numeric/oct.hpp
@@ -19,7 +19,7 @@ namespace sprout {
 		//
 		// oct
 		//
-		SPROUT_STATIC_CONSTEXPR auto oct = sprout::weed::uint_p<std::uintmax_t, 8, static_cast<std::size_t>(-1)>();
+		SPROUT_STATIC_CONSTEXPR auto oct = sprout::weed::uint_p<std::uintmax_t, 8, 1, static_cast<std::size_t>(-1)>();
 
 		//
 		// oct8
-- 
2.43.0


From 6fedc680c3312ab3bb8c0d3f3935ce5cdbf4eb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:09 +0000
Subject: [PATCH 195/218] fix: weed: numeric parsers of at most one digit

---
 sprout/weed/parser/numeric/int_p.hpp  | 9 +++++----
 sprout/weed/parser/numeric/uint_p.hpp | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/sprout/weed/parser/numeric/int_p.hpp b/sprout/weed/parser/numeric/int_p.hpp
index a5d2af8..1831119 100644
--- a/sprout/weed/parser/numeric/int_p.hpp
+++ b/sprout/weed/parser/numeric/int_p.hpp
@@ -152,11 +152,12 @@ namespace sprout {
 				typedef typename result<Context, Iterator>::type result_type;
 				typedef typename attribute<Context, Iterator>::type attribute_type;
 				return sprout::tuples::get<1>(res)
-					? call_0<1, Context>(
-						sprout::next(first), last,
+					? call_1<1, Context>(
+						first, last,
 						temp_first,
-						sprout::tuples::get<0>(res),
-						1
+						IntType(),
+						1,
+						res
 						)
 					: result_type(false, temp_first, attribute_type())
 					;
diff --git a/sprout/weed/parser/numeric/uint_p.hpp b/sprout/weed/parser/numeric/uint_p.hpp
index d96bd99..405e1dd 100644
--- a/sprout/weed/parser/numeric/uint_p.hpp
+++ b/sprout/weed/parser/numeric/uint_p.hpp
@@ -151,11 +151,12 @@ namespace sprout {
 				typedef typename result<Context, Iterator>::type result_type;
 				typedef typename attribute<Context, Iterator>::type attribute_type;
 				return sprout::tuples::get<1>(res)
-					? call_0<1, Context>(
-						sprout::next(first), last,
+					? call_1<1, Context>(
+						first, last,
 						temp_first,
-						sprout::tuples::get<0>(res),
-						1
+						UIntType(),
+						1,
+						res
 						)
 					: result_type(false, temp_first, attribute_type())
 					;
-- 
2.43.0


From 9d89d74447a2e6c4cc095f1821a4013de472ccda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:09 +0000
Subject: [PATCH 196/218] fix: weed: a '-' at either end of a character set
 stands for itself

---
 sprout/weed/detail/find_character_set.hpp | 35 ++++++++++++++---------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/sprout/weed/detail/find_character_set.hpp b/sprout/weed/detail/find_character_set.hpp
index 8f4b3f9..e056b33 100644
--- a/sprout/weed/detail/find_character_set.hpp
+++ b/sprout/weed/detail/find_character_set.hpp
@@ -23,12 +23,13 @@ namespace sprout {
 			inline SPROUT_CONSTEXPR RandomAccessIterator
 			find_character_set_impl_ra(
 				RandomAccessIterator const& first, RandomAccessIterator const& last, T const& value,
-				typename std::iterator_traits<RandomAccessIterator>::difference_type pivot, RandomAccessIterator const& found
+				typename std::iterator_traits<RandomAccessIterator>::difference_type pivot, RandomAccessIterator const& found,
+				RandomAccessIterator const& set_first, RandomAccessIterator const& set_last
 				)
 			{
 				return found != first ? found
 					: pivot == 0 ? (
-						*first == SPROUT_CHAR_LITERAL('-', T) ? *sprout::prev(first) <= value && *sprout::next(first) >= value
+						*first == SPROUT_CHAR_LITERAL('-', T) && first != set_first && sprout::next(first) != set_last ? *sprout::prev(first) <= value && *sprout::next(first) >= value
 							: *first == value
 						) ? first : last
 					: sprout::weed::detail::find_character_set_impl_ra(
@@ -37,8 +38,10 @@ namespace sprout {
 						sprout::weed::detail::find_character_set_impl_ra(
 							first, sprout::next(first, pivot), value,
 							pivot / 2,
-							first
-							)
+							first,
+							set_first, set_last
+							),
+						set_first, set_last
 						)
 					;
 			}
@@ -53,7 +56,7 @@ namespace sprout {
 				)
 			{
 				return first == last ? last
-					: sprout::weed::detail::find_character_set_impl_ra(first, last, value, sprout::distance(first, last) / 2, first)
+					: sprout::weed::detail::find_character_set_impl_ra(first, last, value, sprout::distance(first, last) / 2, first, first, last)
 					;
 			}
 
@@ -61,21 +64,24 @@ namespace sprout {
 			inline SPROUT_CONSTEXPR sprout::pair<BidirectionalIterator, bool>
 			find_character_set_impl_1(
 				sprout::pair<BidirectionalIterator, bool> const& current,
-				BidirectionalIterator const& last, T const& value, typename std::iterator_traits<BidirectionalIterator>::difference_type n
+				BidirectionalIterator const& last, T const& value, typename std::iterator_traits<BidirectionalIterator>::difference_type n,
+				BidirectionalIterator const& set_first
 				)
 			{
 				typedef sprout::pair<BidirectionalIterator, bool> type;
 				return current.second || current.first == last ? current
 					: n == 1 ? (
-						*current.first == SPROUT_CHAR_LITERAL('-', T) ? *sprout::prev(current.first) <= value && *sprout::next(current.first) >= value
+						*current.first == SPROUT_CHAR_LITERAL('-', T) && current.first != set_first && sprout::next(current.first) != last ? *sprout::prev(current.first) <= value && *sprout::next(current.first) >= value
 							: *current.first == value
 						) ? type(current.first, true) : type(sprout::next(current.first), false)
 					: sprout::weed::detail::find_character_set_impl_1(
 						sprout::weed::detail::find_character_set_impl_1(
 							current,
-							last, value, n / 2
+							last, value, n / 2,
+							set_first
 							),
-						last, value, n - n / 2
+						last, value, n - n / 2,
+						set_first
 						)
 					;
 			}
@@ -83,16 +89,19 @@ namespace sprout {
 			inline SPROUT_CONSTEXPR sprout::pair<BidirectionalIterator, bool>
 			find_character_set_impl(
 				sprout::pair<BidirectionalIterator, bool> const& current,
-				BidirectionalIterator const& last, T const& value, typename std::iterator_traits<BidirectionalIterator>::difference_type n
+				BidirectionalIterator const& last, T const& value, typename std::iterator_traits<BidirectionalIterator>::difference_type n,
+				BidirectionalIterator const& set_first
 				)
 			{
 				return current.second || current.first == last ? current
 					: sprout::weed::detail::find_character_set_impl(
 						sprout::weed::detail::find_character_set_impl_1(
 							current,
-							last, value, n
+							last, value, n,
+							set_first
 							),
-						last, value, n * 2
+						last, value, n * 2,
+						set_first
 						)
 					;
 			}
@@ -104,7 +113,7 @@ namespace sprout {
 				)
 			{
 				typedef sprout::pair<BidirectionalIterator, bool> type;
-				return sprout::weed::detail::find_character_set_impl(type(first, false), last, value, 1).first;
+				return sprout::weed::detail::find_character_set_impl(type(first, false), last, value, 1, first).first;
 			}
 
 			template<typename BidirectionalIterator, typename T>
-- 
2.43.0


From ac1b0f41ca8c3149cbcbfd492c0774a0d204da77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:59 +0000
Subject: [PATCH 197/218] fix: weed: string delivers the text that it matched

---
 sprout/weed/parser/string/string.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sprout/weed/parser/string/string.hpp b/sprout/weed/parser/string/string.hpp
index 9771ef9..ac2ee71 100644
--- a/sprout/weed/parser/string/string.hpp
+++ b/sprout/weed/parser/string/string.hpp
@@ -129,10 +129,9 @@ namespace sprout {
 				) const
 			{
 				typedef typename result<Context, Iterator>::type result_type;
-				typedef typename attribute<Context, Iterator>::type attribute_type;
 				return sprout::distance(first, last) >= sprout::size(t_)
 					&& sprout::equal(sprout::begin(t_), sprout::end(t_), first)
-					? result_type(true, sprout::next(first, sprout::size(t_)), attribute_type())
+					? result_type(true, sprout::next(first, sprout::size(t_)), t_)
 					: result_type(false, first, typename attribute<Context, Iterator>::type())
 					;
 			}
-- 
2.43.0


From ace70af3aeb1dab2dc4d0120528d820339c64409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:33 +0000
Subject: [PATCH 198/218] fix: compute the size and elements of wide integer
 ranges without overflow

---
 sprout/index_tuple/integer_range.hpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/sprout/index_tuple/integer_range.hpp b/sprout/index_tuple/integer_range.hpp
index c1a35c4..40f3fc3 100644
--- a/sprout/index_tuple/integer_range.hpp
+++ b/sprout/index_tuple/integer_range.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_INDEX_TUPLE_INTEGER_RANGE_HPP
 #define SPROUT_INDEX_TUPLE_INTEGER_RANGE_HPP
 
+#include <cstdint>
 #include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/index_tuple/integer_sequence.hpp>
@@ -23,18 +24,31 @@ namespace sprout {
 	}	// namespace detail
 
 	namespace detail {
+		// the distances need not fit in T, so they are computed in the widest unsigned type
+		template<typename T, T First, T Last, typename std::make_signed<T>::type Step>
+		struct integer_range_size
+			: public sprout::integral_constant<
+				typename std::make_unsigned<T>::type,
+				static_cast<typename std::make_unsigned<T>::type>(
+					First == Last ? 0
+						: Step > 0 ? (static_cast<std::uintmax_t>(Last) - static_cast<std::uintmax_t>(First) - 1) / (Step > 0 ? static_cast<std::uintmax_t>(Step) : 1) + 1
+						: (static_cast<std::uintmax_t>(First) - static_cast<std::uintmax_t>(Last) - 1) / (Step < 0 ? 0 - static_cast<std::uintmax_t>(Step) : 1) + 1
+					)
+			>
+		{};
+
 		template<typename T, typename Seq, T Next>
 		struct integer_range_next_even;
 		template<typename T, T... Is, T Next>
 		struct integer_range_next_even<T, sprout::integer_sequence<T, Is...>, Next>
-			: public sprout::integer_sequence<T, Is..., static_cast<T>(Is + Next)...>
+			: public sprout::integer_sequence<T, Is..., static_cast<T>(static_cast<std::uintmax_t>(Is) + static_cast<std::uintmax_t>(Next))...>
 		{};
 
 		template<typename T, typename Seq, T Next, T Tail>
 		struct integer_range_next_odd;
 		template<typename T, T... Is, T Next, T Tail>
 		struct integer_range_next_odd<T, sprout::integer_sequence<T, Is...>, Next, Tail>
-			: public sprout::integer_sequence<T, Is..., static_cast<T>(Is + Next)..., Tail>
+			: public sprout::integer_sequence<T, Is..., static_cast<T>(static_cast<std::uintmax_t>(Is) + static_cast<std::uintmax_t>(Next))..., Tail>
 		{};
 
 		template<typename T, T First, typename std::make_signed<T>::type Step, typename std::make_unsigned<T>::type N, typename Enable = void>
@@ -60,7 +74,7 @@ namespace sprout {
 		>
 			: public sprout::detail::integer_range_next_even<
 				T, typename sprout::detail::integer_range_dispatch<T, First, Step, N / 2>::type,
-				static_cast<T>(N / 2 * Step)
+				static_cast<T>(static_cast<std::uintmax_t>(N / 2) * static_cast<std::uintmax_t>(Step))
 			>
 		{};
 		template<typename T, T First, typename std::make_signed<T>::type Step, typename std::make_unsigned<T>::type N>
@@ -70,7 +84,7 @@ namespace sprout {
 		>
 			: public sprout::detail::integer_range_next_odd<
 				T, typename sprout::detail::integer_range_dispatch<T, First, Step, N / 2>::type,
-				static_cast<T>(N / 2 * Step), static_cast<T>(First + (N - 1) * Step)
+				static_cast<T>(static_cast<std::uintmax_t>(N / 2) * static_cast<std::uintmax_t>(Step)), static_cast<T>(static_cast<std::uintmax_t>(First) + static_cast<std::uintmax_t>(N - 1) * static_cast<std::uintmax_t>(Step))
 			>
 		{};
 		template<typename T, T First, T Last, typename std::make_signed<T>::type Step, typename Enable = void>
@@ -82,7 +96,7 @@ namespace sprout {
 		>
 			: public sprout::detail::integer_range_dispatch<
 				T, First, Step,
-				(static_cast<typename std::make_signed<T>::type>(Last - First) + (Step > 0 ? Step - 1 : Step + 1)) / Step
+				sprout::detail::integer_range_size<T, First, Last, Step>::value
 			>
 		{};
 
-- 
2.43.0


From 611c097a9e934efa7b80b7931c09d09274629c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:33 +0000
Subject: [PATCH 199/218] fix: make one_of of types demand exactly one

---
 sprout/tpp/algorithm/one_of.hpp       | 3 ++-
 sprout/type/algorithm/one_of.hpp      | 8 ++++++--
 sprout/type/algorithm/one_of_same.hpp | 8 ++++++--
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/sprout/tpp/algorithm/one_of.hpp b/sprout/tpp/algorithm/one_of.hpp
index dfd54e4..0bc7087 100644
--- a/sprout/tpp/algorithm/one_of.hpp
+++ b/sprout/tpp/algorithm/one_of.hpp
@@ -38,7 +38,8 @@ namespace sprout {
 				: public sprout::bool_constant<
 					sprout::tpp::detail::one_of_impl<Tup, First, (First + Last) / 2>::value
 						? sprout::tpp::detail::one_of_impl_1<Tup, (First + Last) / 2, Last>::value
-						: sprout::tpp::detail::one_of_impl<Tup, (First + Last) / 2, Last>::value
+						: sprout::tpp::detail::one_of_impl_1<Tup, First, (First + Last) / 2>::value
+							&& sprout::tpp::detail::one_of_impl<Tup, (First + Last) / 2, Last>::value
 				>
 			{};
 		}	// namespace detail
diff --git a/sprout/type/algorithm/one_of.hpp b/sprout/type/algorithm/one_of.hpp
index 6f1ba25..549ba19 100644
--- a/sprout/type/algorithm/one_of.hpp
+++ b/sprout/type/algorithm/one_of.hpp
@@ -77,7 +77,11 @@ namespace sprout {
 						Tuple, Predicate, First + Pivot, Last,
 						(Last - First - Pivot) / 2
 					>::value
-					: sprout::types::detail::one_of_impl<
+					: sprout::types::detail::one_of_impl_1<
+						Tuple, Predicate, First, First + Pivot,
+						Pivot / 2
+					>::value
+					&& sprout::types::detail::one_of_impl<
 						Tuple, Predicate, First + Pivot, Last,
 						(Last - First - Pivot) / 2
 					>::value
@@ -89,7 +93,7 @@ namespace sprout {
 			{};
 			template<typename Tuple, typename Predicate>
 			struct one_of<Tuple, Predicate, 0>
-				: public sprout::true_type
+				: public sprout::false_type
 			{};
 		}	// namespace detail
 		//
diff --git a/sprout/type/algorithm/one_of_same.hpp b/sprout/type/algorithm/one_of_same.hpp
index de23826..9236146 100644
--- a/sprout/type/algorithm/one_of_same.hpp
+++ b/sprout/type/algorithm/one_of_same.hpp
@@ -76,7 +76,11 @@ namespace sprout {
 						Tuple, T, First + Pivot, Last,
 						(Last - First - Pivot) / 2
 					>::value
-					: sprout::types::detail::one_of_same_impl<
+					: sprout::types::detail::one_of_same_impl_1<
+						Tuple, T, First, First + Pivot,
+						Pivot / 2
+					>::value
+					&& sprout::types::detail::one_of_same_impl<
 						Tuple, T, First + Pivot, Last,
 						(Last - First - Pivot) / 2
 					>::value
@@ -88,7 +92,7 @@ namespace sprout {
 			{};
 			template<typename Tuple, typename T>
 			struct one_of_same<Tuple, T, 0>
-				: public sprout::true_type
+				: public sprout::false_type
 			{};
 		}	// namespace detail
 		//
-- 
2.43.0


From c1278da536200700e6e336bdd3fdbe419c73dc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:33 +0000
Subject: [PATCH 200/218] fix: let u16string and u32string of types hold their
 characters

---
 sprout/type/string/alias.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/type/string/alias.hpp b/sprout/type/string/alias.hpp
index d495475..ce35026 100644
--- a/sprout/type/string/alias.hpp
+++ b/sprout/type/string/alias.hpp
@@ -29,12 +29,12 @@ namespace sprout {
 		//
 		// u16string
 		//
-		template<char... Values>
+		template<char16_t... Values>
 		using u16string = sprout::types::basic_string<char16_t, Values...>;
 		//
 		// u32string
 		//
-		template<char... Values>
+		template<char32_t... Values>
 		using u32string = sprout::types::basic_string<char32_t, Values...>;
 #endif
 	}	// namespace types
-- 
2.43.0


From ba9b311c2e3ba01c90690e2ea5772300e944b96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:33 +0000
Subject: [PATCH 201/218] fix: let the end of a list of types be stepped back
 from

---
 sprout/type/iterator/index_iterator.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/sprout/type/iterator/index_iterator.hpp b/sprout/type/iterator/index_iterator.hpp
index 7543b5d..a3f5f4d 100644
--- a/sprout/type/iterator/index_iterator.hpp
+++ b/sprout/type/iterator/index_iterator.hpp
@@ -11,11 +11,26 @@
 #include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
+#include <sprout/type_traits/has_type.hpp>
 #include <sprout/type/tuple.hpp>
 #include <sprout/type/void.hpp>
 
 namespace sprout {
 	namespace types {
+		namespace detail {
+			template<typename Tuple, std::ptrdiff_t Index, typename Enable = void>
+			struct index_iterator_element {
+			public:
+				typedef sprout::types::void_ type;
+			};
+			template<typename Tuple, std::ptrdiff_t Index>
+			struct index_iterator_element<
+				Tuple, Index,
+				typename std::enable_if<sprout::has_type<sprout::types::tuple_element<Index, Tuple> >::value>::type
+			>
+				: public sprout::types::tuple_element<Index, Tuple>
+			{};
+		}	// namespace detail
 		//
 		// index_iterator
 		//
@@ -24,7 +39,7 @@ namespace sprout {
 			: public sprout::integral_constant<std::ptrdiff_t, Index>
 		{
 		public:
-			typedef typename sprout::types::tuple_element<Index, Tuple>::type type;
+			typedef typename sprout::types::detail::index_iterator_element<Tuple, Index>::type type;
 			typedef sprout::types::index_iterator<Tuple, Index + 1> next;
 			typedef sprout::types::index_iterator<Tuple, Index - 1> prev;
 		public:
-- 
2.43.0


From 167a1c96cd18ea3742d0c8c8e0ea4961783d41aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:33 +0000
Subject: [PATCH 202/218] fix: read literals of three digits and other bases

---
 sprout/detail/digits_to_int.hpp | 49 +++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/sprout/detail/digits_to_int.hpp b/sprout/detail/digits_to_int.hpp
index 3b28336..7611a71 100644
--- a/sprout/detail/digits_to_int.hpp
+++ b/sprout/detail/digits_to_int.hpp
@@ -13,15 +13,48 @@
 
 namespace sprout {
 	namespace detail {
+		template<typename IntType, IntType Base, IntType Value, char... Chars>
+		struct digits_to_int_impl;
+		template<typename IntType, IntType Base, IntType Value>
+		struct digits_to_int_impl<IntType, Base, Value>
+			: public sprout::integral_constant<IntType, Value>
+		{};
+		template<typename IntType, IntType Base, IntType Value, char... Tail>
+		struct digits_to_int_impl<IntType, Base, Value, '\'', Tail...>
+			: public sprout::detail::digits_to_int_impl<IntType, Base, Value, Tail...>
+		{};
+		template<typename IntType, IntType Base, IntType Value, char Head, char... Tail>
+		struct digits_to_int_impl<IntType, Base, Value, Head, Tail...>
+			: public sprout::detail::digits_to_int_impl<
+				IntType, Base,
+				Base * Value + IntType(Head <= '9' ? Head - '0' : (Head | 0x20) - 'a' + 10),
+				Tail...
+			>
+		{};
+
 		template<typename IntType, char... Chars>
-		struct digits_to_int;
-		template<typename IntType, char C>
-		struct digits_to_int<IntType, C>
-			: public sprout::integral_constant<IntType, IntType(C - 48)>
-		{};
-		template<typename IntType, char Head, char... Tail>
-		struct digits_to_int<IntType, Head, Tail...>
-			: public sprout::integral_constant<IntType, 10 * IntType(Head - 48) + sprout::detail::digits_to_int<IntType, Tail...>::value>
+		struct digits_to_int
+			: public sprout::detail::digits_to_int_impl<IntType, 10, 0, Chars...>
+		{};
+		template<typename IntType, char... Tail>
+		struct digits_to_int<IntType, '0', Tail...>
+			: public sprout::detail::digits_to_int_impl<IntType, 8, 0, Tail...>
+		{};
+		template<typename IntType, char... Tail>
+		struct digits_to_int<IntType, '0', 'x', Tail...>
+			: public sprout::detail::digits_to_int_impl<IntType, 16, 0, Tail...>
+		{};
+		template<typename IntType, char... Tail>
+		struct digits_to_int<IntType, '0', 'X', Tail...>
+			: public sprout::detail::digits_to_int_impl<IntType, 16, 0, Tail...>
+		{};
+		template<typename IntType, char... Tail>
+		struct digits_to_int<IntType, '0', 'b', Tail...>
+			: public sprout::detail::digits_to_int_impl<IntType, 2, 0, Tail...>
+		{};
+		template<typename IntType, char... Tail>
+		struct digits_to_int<IntType, '0', 'B', Tail...>
+			: public sprout::detail::digits_to_int_impl<IntType, 2, 0, Tail...>
 		{};
 	}	// namespace detail
 }	// namespace sprout
-- 
2.43.0


From acfeea39c26b8ff7b555406eaac34a294b14f655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:30 +0000
Subject: [PATCH 203/218] fix: give the polymorphic right shifts include guards
 of their own

---
 sprout/functional/polymorphic/shift_right.hpp        | 6 +++---
 sprout/functional/polymorphic/shift_right_assign.hpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sprout/functional/polymorphic/shift_right.hpp b/sprout/functional/polymorphic/shift_right.hpp
index 3a9dd94..3fa6dc4 100644
--- a/sprout/functional/polymorphic/shift_right.hpp
+++ b/sprout/functional/polymorphic/shift_right.hpp
@@ -5,8 +5,8 @@
   Distributed under the Boost Software License, Version 1.0. (See accompanying
   file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 =============================================================================*/
-#ifndef SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_LEFT_HPP
-#define SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_LEFT_HPP
+#ifndef SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_RIGHT_HPP
+#define SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_RIGHT_HPP
 
 #include <sprout/config.hpp>
 #include <sprout/functional/shift_right.hpp>
@@ -22,4 +22,4 @@ namespace sprout {
 	}	// anonymous-namespace
 }	// namespace sprout
 
-#endif	// #ifndef SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_LEFT_HPP
+#endif	// #ifndef SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_RIGHT_HPP
diff --git a/sprout/functional/polymorphic/shift_right_assign.hpp b/sprout/functional/polymorphic/shift_right_assign.hpp
index fb71ef5..812da1d 100644
--- a/sprout/functional/polymorphic/shift_right_assign.hpp
+++ b/sprout/functional/polymorphic/shift_right_assign.hpp
@@ -5,8 +5,8 @@
   Distributed under the Boost Software License, Version 1.0. (See accompanying
   file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 =============================================================================*/
-#ifndef SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_LEFT_ASSIGN_HPP
-#define SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_LEFT_ASSIGN_HPP
+#ifndef SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_RIGHT_ASSIGN_HPP
+#define SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_RIGHT_ASSIGN_HPP
 
 #include <sprout/config.hpp>
 #include <sprout/functional/shift_right_assign.hpp>
@@ -22,4 +22,4 @@ namespace sprout {
 	}	// anonymous-namespace
 }	// namespace sprout
 
-#endif	// #ifndef SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_LEFT_ASSIGN_HPP
+#endif	// #ifndef SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_RIGHT_ASSIGN_HPP
-- 
2.43.0


From 38ac0b738aa1095d02527f740b55316aeb57336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:05 +0000
Subject: [PATCH 204/218] fix: pair the elements of two valarrays from the
 beginning in powers, and give the trigonometric functions their own include
 guard

---
 sprout/valarray/exponential.hpp   | 16 +++++++--------
 sprout/valarray/hyperbolic.hpp    | 12 +++++------
 sprout/valarray/power.hpp         | 21 +++++++++++---------
 sprout/valarray/trigonometric.hpp | 33 +++++++++++++++++--------------
 4 files changed, 44 insertions(+), 38 deletions(-)

diff --git a/sprout/valarray/exponential.hpp b/sprout/valarray/exponential.hpp
index b7fa551..6ac2a41 100644
--- a/sprout/valarray/exponential.hpp
+++ b/sprout/valarray/exponential.hpp
@@ -100,7 +100,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_exp(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_exp(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_exp(std::declval<T>()))
 			{
 				return sprout_math_detail::call_exp(SPROUT_FORWARD(T, x));
 			}
@@ -112,7 +112,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_exp10(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_exp10(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_exp10(std::declval<T>()))
 			{
 				return sprout_math_detail::call_exp10(SPROUT_FORWARD(T, x));
 			}
@@ -124,7 +124,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_exp2(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_exp2(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_exp2(std::declval<T>()))
 			{
 				return sprout_math_detail::call_exp2(SPROUT_FORWARD(T, x));
 			}
@@ -136,7 +136,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_expm1(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_expm1(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_expm1(std::declval<T>()))
 			{
 				return sprout_math_detail::call_expm1(SPROUT_FORWARD(T, x));
 			}
@@ -148,7 +148,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_log(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_log(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_log(std::declval<T>()))
 			{
 				return sprout_math_detail::call_log(SPROUT_FORWARD(T, x));
 			}
@@ -160,7 +160,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_log10(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_log10(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_log10(std::declval<T>()))
 			{
 				return sprout_math_detail::call_log10(SPROUT_FORWARD(T, x));
 			}
@@ -172,7 +172,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_log1p(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_log1p(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_log1p(std::declval<T>()))
 			{
 				return sprout_math_detail::call_log1p(SPROUT_FORWARD(T, x));
 			}
@@ -184,7 +184,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_log2(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_log2(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_log2(std::declval<T>()))
 			{
 				return sprout_math_detail::call_log2(SPROUT_FORWARD(T, x));
 			}
diff --git a/sprout/valarray/hyperbolic.hpp b/sprout/valarray/hyperbolic.hpp
index c7dba6b..3eda7b7 100644
--- a/sprout/valarray/hyperbolic.hpp
+++ b/sprout/valarray/hyperbolic.hpp
@@ -82,7 +82,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_acosh(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_acosh(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_acosh(std::declval<T>()))
 			{
 				return sprout_math_detail::call_acosh(SPROUT_FORWARD(T, x));
 			}
@@ -94,7 +94,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_asinh(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_asinh(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_asinh(std::declval<T>()))
 			{
 				return sprout_math_detail::call_asinh(SPROUT_FORWARD(T, x));
 			}
@@ -106,7 +106,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_atanh(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_atanh(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_atanh(std::declval<T>()))
 			{
 				return sprout_math_detail::call_atanh(SPROUT_FORWARD(T, x));
 			}
@@ -118,7 +118,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_cosh(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_cosh(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_cosh(std::declval<T>()))
 			{
 				return sprout_math_detail::call_cosh(SPROUT_FORWARD(T, x));
 			}
@@ -130,7 +130,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_sinh(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_sinh(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_sinh(std::declval<T>()))
 			{
 				return sprout_math_detail::call_sinh(SPROUT_FORWARD(T, x));
 			}
@@ -142,7 +142,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_tanh(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_tanh(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_tanh(std::declval<T>()))
 			{
 				return sprout_math_detail::call_tanh(SPROUT_FORWARD(T, x));
 			}
diff --git a/sprout/valarray/power.hpp b/sprout/valarray/power.hpp
index 448af94..aa03740 100644
--- a/sprout/valarray/power.hpp
+++ b/sprout/valarray/power.hpp
@@ -20,6 +20,9 @@
 #include <sprout/math/sqrt.hpp>
 #include <sprout/math/log_a.hpp>
 #include <sprout/cstdlib/abs.hpp>
+#include <sprout/functional/transparent.hpp>
+#include <sprout/functional/bind1st.hpp>
+#include <sprout/functional/bind2nd.hpp>
 #include <sprout/utility/forward.hpp>
 
 namespace sprout_math_detail {
@@ -84,7 +87,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_cbrt(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_cbrt(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_cbrt(std::declval<T>()))
 			{
 				return sprout_math_detail::call_cbrt(SPROUT_FORWARD(T, x));
 			}
@@ -96,7 +99,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_abs(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_abs(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_abs(std::declval<T>()))
 			{
 				return sprout_math_detail::call_abs(SPROUT_FORWARD(T, x));
 			}
@@ -108,7 +111,7 @@ namespace sprout {
 			template<typename T, typename U>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_hypot(std::declval<T>(), std::declval<U>()))
 			operator()(T&& x, U&& y)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_hypot(std::declval<T>(), std::declval<U>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_hypot(std::declval<T>(), std::declval<U>()))
 			{
 				return sprout_math_detail::call_hypot(SPROUT_FORWARD(T, x), SPROUT_FORWARD(U, y));
 			}
@@ -120,7 +123,7 @@ namespace sprout {
 			template<typename T, typename U>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_pow(std::declval<T>(), std::declval<U>()))
 			operator()(T&& x, U&& y)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_pow(std::declval<T>(), std::declval<U>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_pow(std::declval<T>(), std::declval<U>()))
 			{
 				return sprout_math_detail::call_pow(SPROUT_FORWARD(T, x), SPROUT_FORWARD(U, y));
 			}
@@ -132,7 +135,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_sqrt(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_sqrt(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_sqrt(std::declval<T>()))
 			{
 				return sprout_math_detail::call_sqrt(SPROUT_FORWARD(T, x));
 			}
@@ -144,7 +147,7 @@ namespace sprout {
 			template<typename T, typename U>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_log_a(std::declval<T>(), std::declval<U>()))
 			operator()(T&& x, U&& y)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_log_a(std::declval<T>(), std::declval<U>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_log_a(std::declval<T>(), std::declval<U>()))
 			{
 				return sprout_math_detail::call_log_a(SPROUT_FORWARD(T, x), SPROUT_FORWARD(U, y));
 			}
@@ -173,7 +176,7 @@ namespace sprout {
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
 	hypot(sprout::valarray<T, N> const& x, sprout::valarray<T, N> const& y) {
-		return sprout::fixed::transform(x.begin(), x.end(), y.end(), x, sprout::detail::hypot_f());
+		return sprout::fixed::transform(x.begin(), x.end(), y.begin(), x, sprout::detail::hypot_f());
 	}
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
@@ -191,7 +194,7 @@ namespace sprout {
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
 	pow(sprout::valarray<T, N> const& x, sprout::valarray<T, N> const& y) {
-		return sprout::fixed::transform(x.begin(), x.end(), y.end(), x, sprout::detail::pow_f());
+		return sprout::fixed::transform(x.begin(), x.end(), y.begin(), x, sprout::detail::pow_f());
 	}
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
@@ -217,7 +220,7 @@ namespace sprout {
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
 	log_a(sprout::valarray<T, N> const& x, sprout::valarray<T, N> const& y) {
-		return sprout::fixed::transform(x.begin(), x.end(), y.end(), x, sprout::detail::log_a_f());
+		return sprout::fixed::transform(x.begin(), x.end(), y.begin(), x, sprout::detail::log_a_f());
 	}
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
diff --git a/sprout/valarray/trigonometric.hpp b/sprout/valarray/trigonometric.hpp
index 2af3144..8706c38 100644
--- a/sprout/valarray/trigonometric.hpp
+++ b/sprout/valarray/trigonometric.hpp
@@ -5,8 +5,8 @@
   Distributed under the Boost Software License, Version 1.0. (See accompanying
   file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 =============================================================================*/
-#ifndef SPROUT_VALARRAY_BITWISE_HPP
-#define SPROUT_VALARRAY_BITWISE_HPP
+#ifndef SPROUT_VALARRAY_TRIGONOMETRIC_HPP
+#define SPROUT_VALARRAY_TRIGONOMETRIC_HPP
 
 #include <utility>
 #include <sprout/workaround/std/cstddef.hpp>
@@ -19,6 +19,9 @@
 #include <sprout/math/cos.hpp>
 #include <sprout/math/sin.hpp>
 #include <sprout/math/tan.hpp>
+#include <sprout/functional/transparent.hpp>
+#include <sprout/functional/bind1st.hpp>
+#include <sprout/functional/bind2nd.hpp>
 #include <sprout/utility/forward.hpp>
 
 namespace sprout_math_detail {
@@ -56,7 +59,7 @@ namespace sprout_math_detail {
 	call_atan2(T&& x, U&& y)
 	SPROUT_NOEXCEPT_IF_EXPR(atan2(std::declval<T>(), std::declval<U>()))
 	{
-		return atan2(SPROUT_FORWARD(T, x), SPROUT_FORWARD(U, u));
+		return atan2(SPROUT_FORWARD(T, x), SPROUT_FORWARD(U, y));
 	}
 	template<typename T>
 	inline SPROUT_CONSTEXPR decltype(cos(std::declval<T>()))
@@ -90,7 +93,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_acos(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_acos(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_acos(std::declval<T>()))
 			{
 				return sprout_math_detail::call_acos(SPROUT_FORWARD(T, x));
 			}
@@ -102,7 +105,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_asin(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_asin(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_asin(std::declval<T>()))
 			{
 				return sprout_math_detail::call_asin(SPROUT_FORWARD(T, x));
 			}
@@ -114,7 +117,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_atan(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_atan(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_atan(std::declval<T>()))
 			{
 				return sprout_math_detail::call_atan(SPROUT_FORWARD(T, x));
 			}
@@ -126,7 +129,7 @@ namespace sprout {
 			template<typename T, typename U>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_atan2(std::declval<T>(), std::declval<U>()))
 			operator()(T&& x, U&& y)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_atan2(std::declval<T>(), std::declval<U>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_atan2(std::declval<T>(), std::declval<U>()))
 			{
 				return sprout_math_detail::call_atan2(SPROUT_FORWARD(T, x), SPROUT_FORWARD(U, y));
 			}
@@ -138,7 +141,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_cos(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_cos(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_cos(std::declval<T>()))
 			{
 				return sprout_math_detail::call_cos(SPROUT_FORWARD(T, x));
 			}
@@ -150,7 +153,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_sin(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_sin(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_sin(std::declval<T>()))
 			{
 				return sprout_math_detail::call_sin(SPROUT_FORWARD(T, x));
 			}
@@ -162,7 +165,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_tan(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_tan(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_tan(std::declval<T>()))
 			{
 				return sprout_math_detail::call_tan(SPROUT_FORWARD(T, x));
 			}
@@ -199,17 +202,17 @@ namespace sprout {
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
 	atan2(sprout::valarray<T, N> const& x, sprout::valarray<T, N> const& y) {
-		return sprout::fixed::transform(x.begin(), x.end(), y.end(), x, sprout::detail::atan2_f());
+		return sprout::fixed::transform(x.begin(), x.end(), y.begin(), x, sprout::detail::atan2_f());
 	}
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
-	atan2(sprout::valarray<T, N> const& lhs, T const& y) {
-		return sprout::fixed::transform(x.begin(), x.end(), x, sprout::bind2nd(sprout::detail::atan2_f()()), y));
+	atan2(sprout::valarray<T, N> const& x, T const& y) {
+		return sprout::fixed::transform(x.begin(), x.end(), x, sprout::bind2nd(sprout::detail::atan2_f(), y));
 	}
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
 	atan2(T const& x, sprout::valarray<T, N> const& y) {
-		return sprout::fixed::transform(y.begin(), y.end(), y, sprout::bind1st(sprout::detail::atan2_f()()), x));
+		return sprout::fixed::transform(y.begin(), y.end(), y, sprout::bind1st(sprout::detail::atan2_f(), x));
 	}
 	//
 	// cos
@@ -237,4 +240,4 @@ namespace sprout {
 	}
 }	// namespace sprout
 
-#endif	// #ifndef SPROUT_VALARRAY_BITWISE_HPP
+#endif	// #ifndef SPROUT_VALARRAY_TRIGONOMETRIC_HPP
-- 
2.43.0


From 31c77692bdb2afa6348d51afdbd4cce9530c6c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:05 +0000
Subject: [PATCH 205/218] fix: give cwctype.hpp an include guard of its own

---
 sprout/cwctype.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/cwctype.hpp b/sprout/cwctype.hpp
index ea5bbcd..19571d5 100644
--- a/sprout/cwctype.hpp
+++ b/sprout/cwctype.hpp
@@ -5,10 +5,10 @@
   Distributed under the Boost Software License, Version 1.0. (See accompanying
   file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 =============================================================================*/
-#ifndef SPROUT_CCTYPE_HPP
-#define SPROUT_CCTYPE_HPP
+#ifndef SPROUT_CWCTYPE_HPP
+#define SPROUT_CWCTYPE_HPP
 
 #include <sprout/config.hpp>
 #include <sprout/ctype/wascii.hpp>
 
-#endif	// #ifndef SPROUT_CCTYPE_HPP
+#endif	// #ifndef SPROUT_CWCTYPE_HPP
-- 
2.43.0


From 950c0dabd10ac02717014675eab28c81fa45351c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:48 +0000
Subject: [PATCH 206/218] fix: answer false for a deleted conversion

---
 sprout/type_traits/is_convert_constructible.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sprout/type_traits/is_convert_constructible.hpp b/sprout/type_traits/is_convert_constructible.hpp
index 220d90d..0dd390e 100644
--- a/sprout/type_traits/is_convert_constructible.hpp
+++ b/sprout/type_traits/is_convert_constructible.hpp
@@ -21,13 +21,16 @@ namespace sprout {
 		template<typename T>
 		struct is_convert_constructible_test {
 		public:
-			static sprout::true_type test(T);
+			static void convert(T);
+			template<typename Arg, typename = decltype(convert(std::declval<Arg>()))>
+			static sprout::true_type test(int);
+			template<typename Arg>
 			static sprout::false_type test(...);
 		};
 	}	// namespace detail
 	template<typename T, typename Arg>
 	struct is_convert_constructible
-		: public sprout::identity<decltype(sprout::detail::is_convert_constructible_test<T>::test(std::declval<Arg>()))>::type
+		: public sprout::identity<decltype(sprout::detail::is_convert_constructible_test<T>::template test<Arg>(0))>::type
 	{};
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
-- 
2.43.0


From d5fe5e49a1b949cda69e7d6657c3116729e94f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:48 +0000
Subject: [PATCH 207/218] fix: treat bound arguments alike in every kind of
 binder

---
 sprout/functional/bind/bind.hpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/sprout/functional/bind/bind.hpp b/sprout/functional/bind/bind.hpp
index 9ac4c91..5773bec 100644
--- a/sprout/functional/bind/bind.hpp
+++ b/sprout/functional/bind/bind.hpp
@@ -429,21 +429,21 @@ namespace sprout {
 			template<typename Result, typename... Args, sprout::index_t... Indexes>
 			SPROUT_CONSTEXPR Result call_c(sprout::tuples::tuple<Args...>&& args, sprout::index_tuple<Indexes...>) const {
 				return f_(
-					sprout::detail::mu<typename sprout::detail::bound_element<Indexes, bounds_type, sizeof...(Args)>::type const>()
+					sprout::detail::mu<typename sprout::detail::bound_element<Indexes, bounds_type, sizeof...(Args)>::type>()
 						(sprout::detail::get_bound<Indexes, sizeof...(Args)>(bound_args_), args)...
 					);
 			}
 			template<typename Result, typename... Args, sprout::index_t... Indexes>
 			Result call_v(sprout::tuples::tuple<Args...>&& args, sprout::index_tuple<Indexes...>) volatile {
 				return f_(
-					sprout::detail::mu<typename sprout::detail::bound_element<Indexes, bounds_type, sizeof...(Args)>::type volatile>()
+					sprout::detail::mu<typename sprout::detail::bound_element<Indexes, bounds_type, sizeof...(Args)>::type>()
 						(sprout::detail::get_bound<Indexes, sizeof...(Args)>(bound_args_), args)...
 					);
 			}
 			template<typename Result, typename... Args, sprout::index_t... Indexes>
 			SPROUT_CONSTEXPR Result call_cv(sprout::tuples::tuple<Args...>&& args, sprout::index_tuple<Indexes...>) const volatile {
 				return f_(
-					sprout::detail::mu<typename sprout::detail::bound_element<Indexes, bounds_type, sizeof...(Args)>::type const volatile>()
+					sprout::detail::mu<typename sprout::detail::bound_element<Indexes, bounds_type, sizeof...(Args)>::type>()
 						(sprout::detail::get_bound<Indexes, sizeof...(Args)>(bound_args_), args)...
 					);
 			}
@@ -463,7 +463,7 @@ namespace sprout {
 			>
 			static decltype(
 				std::declval<typename std::enable_if<(sizeof...(Args) >= 0), typename std::add_const<Functor>::type>::type&>()(
-					sprout::detail::mu<typename sprout::detail::bound_element<Indexes, bounds_type, sizeof...(Args)>::type const>()
+					sprout::detail::mu<typename sprout::detail::bound_element<Indexes, bounds_type, sizeof...(Args)>::type>()
 						(sprout::detail::get_bound<Indexes, sizeof...(Args)>(std::declval<bounds_type const&>()), std::declval<sprout::tuples::tuple<Args...>&>())...
 					)
 				)
@@ -473,7 +473,7 @@ namespace sprout {
 			>
 			static decltype(
 				std::declval<typename std::enable_if<(sizeof...(Args) >= 0), typename std::add_volatile<Functor>::type>::type&>()(
-					sprout::detail::mu<typename sprout::detail::bound_element<Indexes, bounds_type, sizeof...(Args)>::type volatile>()
+					sprout::detail::mu<typename sprout::detail::bound_element<Indexes, bounds_type, sizeof...(Args)>::type>()
 						(sprout::detail::get_bound<Indexes, sizeof...(Args)>(std::declval<bounds_type volatile&>()), std::declval<sprout::tuples::tuple<Args...>&>())...
 					)
 				)
@@ -483,7 +483,7 @@ namespace sprout {
 			>
 			static decltype(
 				std::declval<typename std::enable_if<(sizeof...(Args) >= 0), typename std::add_cv<Functor>::type>::type&>()(
-					sprout::detail::mu<typename sprout::detail::bound_element<Indexes, bounds_type, sizeof...(Args)>::type const volatile>()
+					sprout::detail::mu<typename sprout::detail::bound_element<Indexes, bounds_type, sizeof...(Args)>::type>()
 						(sprout::detail::get_bound<Indexes, sizeof...(Args)>(std::declval<bounds_type const volatile&>()), std::declval<sprout::tuples::tuple<Args...>&>())...
 					)
 				)
@@ -637,7 +637,7 @@ namespace sprout {
 				typename disable_if_void<Res>::type = 0
 				)
 			{
-				return f_(sprout::detail::mu<BoundArgs>()(sprout::detail::get_bound<Indexes, sizeof...(Args)>(bound_args_), args)...);
+				return f_(sprout::detail::mu<typename sprout::detail::bound_element<Indexes, bounds_type, sizeof...(Args)>::type>()(sprout::detail::get_bound<Indexes, sizeof...(Args)>(bound_args_), args)...);
 			}
 			template<typename Res, typename... Args, sprout::index_t... Indexes>
 			Result call(
@@ -646,7 +646,7 @@ namespace sprout {
 				typename enable_if_void<Res>::type = 0
 				)
 			{
-				f_(sprout::detail::mu<BoundArgs>()(sprout::detail::get_bound<Indexes, sizeof...(Args)>(bound_args_), args)...);
+				f_(sprout::detail::mu<typename sprout::detail::bound_element<Indexes, bounds_type, sizeof...(Args)>::type>()(sprout::detail::get_bound<Indexes, sizeof...(Args)>(bound_args_), args)...);
 			}
 			template<typename Res, typename... Args, sprout::index_t... Indexes>
 			SPROUT_CONSTEXPR Result call(
@@ -655,7 +655,7 @@ namespace sprout {
 				typename disable_if_void<Res>::type = 0
 				) const
 			{
-				return f_(sprout::detail::mu<BoundArgs>()(sprout::detail::get_bound<Indexes, sizeof...(Args)>(bound_args_), args)...);
+				return f_(sprout::detail::mu<typename sprout::detail::bound_element<Indexes, bounds_type, sizeof...(Args)>::type>()(sprout::detail::get_bound<Indexes, sizeof...(Args)>(bound_args_), args)...);
 			}
 			template<typename Res, typename... Args, sprout::index_t... Indexes>
 			Result call(
@@ -664,7 +664,7 @@ namespace sprout {
 				typename enable_if_void<Res>::type = 0
 				) const
 			{
-				f_(sprout::detail::mu<BoundArgs>()(sprout::detail::get_bound<Indexes, sizeof...(Args)>(bound_args_), args)...);
+				f_(sprout::detail::mu<typename sprout::detail::bound_element<Indexes, bounds_type, sizeof...(Args)>::type>()(sprout::detail::get_bound<Indexes, sizeof...(Args)>(bound_args_), args)...);
 			}
 			template<typename Res, typename... Args, sprout::index_t... Indexes>
 			Result call(
@@ -673,7 +673,7 @@ namespace sprout {
 				typename disable_if_void<Res>::type = 0
 				) volatile
 			{
-				return f_(sprout::detail::mu<BoundArgs>()(sprout::detail::get_bound<Indexes, sizeof...(Args)>(bound_args_), args)...);
+				return f_(sprout::detail::mu<typename sprout::detail::bound_element<Indexes, bounds_type, sizeof...(Args)>::type>()(sprout::detail::get_bound<Indexes, sizeof...(Args)>(bound_args_), args)...);
 			}
 			template<typename Res, typename... Args, sprout::index_t... Indexes>
 			Result call(
@@ -682,7 +682,7 @@ namespace sprout {
 				typename enable_if_void<Res>::type = 0
 				) volatile
 			{
-				f_(sprout::detail::mu<BoundArgs, Indexes>()(sprout::detail::get_bound<Indexes, sizeof...(Args)>(bound_args_), args)...);
+				f_(sprout::detail::mu<typename sprout::detail::bound_element<Indexes, bounds_type, sizeof...(Args)>::type>()(sprout::detail::get_bound<Indexes, sizeof...(Args)>(bound_args_), args)...);
 			}
 			template<typename Res, typename... Args, sprout::index_t... Indexes>
 			SPROUT_CONSTEXPR Result call(
@@ -691,7 +691,7 @@ namespace sprout {
 				typename disable_if_void<Res>::type = 0
 				) const volatile
 			{
-				return f_(sprout::detail::mu<BoundArgs>()(sprout::detail::get_bound<Indexes, sizeof...(Args)>(bound_args_), args)...);
+				return f_(sprout::detail::mu<typename sprout::detail::bound_element<Indexes, bounds_type, sizeof...(Args)>::type>()(sprout::detail::get_bound<Indexes, sizeof...(Args)>(bound_args_), args)...);
 			}
 			template<typename Res, typename... Args, sprout::index_t... Indexes>
 			Result call(
@@ -700,7 +700,7 @@ namespace sprout {
 				typename enable_if_void<Res>::type = 0
 				) const volatile
 			{
-				f_(sprout::detail::mu<BoundArgs>()(sprout::detail::get_bound<Indexes, sizeof...(Args)>(bound_args_), args)...);
+				f_(sprout::detail::mu<typename sprout::detail::bound_element<Indexes, bounds_type, sizeof...(Args)>::type>()(sprout::detail::get_bound<Indexes, sizeof...(Args)>(bound_args_), args)...);
 			}
 		public:
 			template<typename... Args>
-- 
2.43.0


From 2393242127298462d469d242b19c46a83181917d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:49 +0000
Subject: [PATCH 208/218] fix: make the tail literal a variadic placeholder

---
 sprout/functional/bind/literals.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/functional/bind/literals.hpp b/sprout/functional/bind/literals.hpp
index a091567..3547bb7 100644
--- a/sprout/functional/bind/literals.hpp
+++ b/sprout/functional/bind/literals.hpp
@@ -31,7 +31,7 @@ namespace sprout {
 	template<char... Chars>
 	struct variadic_placeholders_result
 		: public sprout::identity<
-			sprout::placeholder<sprout::is_placeholder<decltype(sprout::placeholders::_va)>::value - sprout::detail::digits_to_int<int, Chars...>::value>
+			sprout::variadic_placeholder<sprout::detail::digits_to_int<int, Chars...>::value>
 		>
 	{};
 
-- 
2.43.0


From dfff314b258faec0fc7a3b211ec01d969f9e8c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:49 +0000
Subject: [PATCH 209/218] fix: accept lvalue functions and values in bind1st_
 and bind2nd_

---
 sprout/functional/polymorphic/bind1st.hpp | 5 +++--
 sprout/functional/polymorphic/bind2nd.hpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/sprout/functional/polymorphic/bind1st.hpp b/sprout/functional/polymorphic/bind1st.hpp
index 196995d..2dffd0b 100644
--- a/sprout/functional/polymorphic/bind1st.hpp
+++ b/sprout/functional/polymorphic/bind1st.hpp
@@ -24,8 +24,9 @@ namespace sprout {
 		Fn op;
 		T value;
 	public:
-		SPROUT_CONSTEXPR binder1st_(Fn&& x, T&& y)
-			: op(SPROUT_FORWARD(Fn, x)), value(SPROUT_FORWARD(T, y))
+		template<typename Fn2, typename T2>
+		SPROUT_CONSTEXPR binder1st_(Fn2&& x, T2&& y)
+			: op(SPROUT_FORWARD(Fn2, x)), value(SPROUT_FORWARD(T2, y))
 		{}
 		template<typename Arg>
 		SPROUT_CONSTEXPR decltype(op(value, std::declval<Arg>()))
diff --git a/sprout/functional/polymorphic/bind2nd.hpp b/sprout/functional/polymorphic/bind2nd.hpp
index b531b93..9204f7d 100644
--- a/sprout/functional/polymorphic/bind2nd.hpp
+++ b/sprout/functional/polymorphic/bind2nd.hpp
@@ -24,8 +24,9 @@ namespace sprout {
 		Fn op;
 		T value;
 	public:
-		SPROUT_CONSTEXPR binder2nd_(Fn&& x, T&& y)
-			: op(SPROUT_FORWARD(Fn, x)), value(SPROUT_FORWARD(T, y))
+		template<typename Fn2, typename T2>
+		SPROUT_CONSTEXPR binder2nd_(Fn2&& x, T2&& y)
+			: op(SPROUT_FORWARD(Fn2, x)), value(SPROUT_FORWARD(T2, y))
 		{}
 		template<typename Arg>
 		SPROUT_CONSTEXPR decltype(op(std::declval<Arg>(), value))
-- 
2.43.0


From 3f023fde2cff704c93f21b6017c35f122f6fdf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:49 +0000
Subject: [PATCH 210/218] fix: dereference the pointer in invoke of a member

---
 sprout/type_traits/detail/invoke.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/type_traits/detail/invoke.hpp b/sprout/type_traits/detail/invoke.hpp
index 9f80fce..046a9bc 100644
--- a/sprout/type_traits/detail/invoke.hpp
+++ b/sprout/type_traits/detail/invoke.hpp
@@ -32,7 +32,7 @@ namespace sprout {
 		template<typename PMD, typename Pointer>
 		inline SPROUT_CONSTEXPR decltype((*std::declval<Pointer>()).*(std::declval<PMD>()))
 		invoke(PMD&& pmd, Pointer&& ptr) SPROUT_NOEXCEPT_IF_EXPR((*std::declval<Pointer>()).*(std::declval<PMD>())) {
-			return SPROUT_FORWARD(Pointer, ptr).*(SPROUT_FORWARD(PMD, pmd));
+			return (*SPROUT_FORWARD(Pointer, ptr)).*(SPROUT_FORWARD(PMD, pmd));
 		}
 
 		template<typename Base, typename T, typename Derived, typename... Args>
@@ -44,7 +44,7 @@ namespace sprout {
 		template<typename PMF, typename Pointer, typename... Args>
 		inline SPROUT_CONSTEXPR decltype(((*std::declval<Pointer>()).*(std::declval<PMF>()))(std::declval<Args>()...))
 		invoke(PMF&& pmf, Pointer&& ptr, Args&&... args) SPROUT_NOEXCEPT_IF_EXPR(((*std::declval<Pointer>()).*(std::declval<PMF>()))(std::declval<Args>()...)) {
-			return (SPROUT_FORWARD(Pointer, ptr).*(SPROUT_FORWARD(PMF, pmf)))(SPROUT_FORWARD(Args, args)...);
+			return ((*SPROUT_FORWARD(Pointer, ptr)).*(SPROUT_FORWARD(PMF, pmf)))(SPROUT_FORWARD(Args, args)...);
 		}
 
 		template<typename R, typename F, typename... Args>
-- 
2.43.0


From 280dc554b7b00dfa903bcc46f5a2ac98f54a6e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:34 +0000
Subject: [PATCH 211/218] fix: no signed overflow in the rightmost-bit and
 bit-range functions

---
 sprout/bit/flipbitsge.hpp | 3 ++-
 sprout/bit/isols0b.hpp    | 3 ++-
 sprout/bit/isols1b.hpp    | 3 ++-
 sprout/bit/maskt0.hpp     | 3 ++-
 sprout/bit/maskt0ls1b.hpp | 3 ++-
 sprout/bit/maskt1.hpp     | 3 ++-
 sprout/bit/maskt1ls0b.hpp | 3 ++-
 sprout/bit/rstbitsge.hpp  | 3 ++-
 sprout/bit/rstls1b.hpp    | 3 ++-
 sprout/bit/rstt1.hpp      | 3 ++-
 sprout/bit/setbitsge.hpp  | 3 ++-
 sprout/bit/setls0b.hpp    | 3 ++-
 sprout/bit/sett0.hpp      | 3 ++-
 13 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/sprout/bit/flipbitsge.hpp b/sprout/bit/flipbitsge.hpp
index 06effdb..4b0064e 100644
--- a/sprout/bit/flipbitsge.hpp
+++ b/sprout/bit/flipbitsge.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	flipbitsge(Integral x, int b) SPROUT_NOEXCEPT {
-		return x ^ ~((Integral(1) << b) - 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return x ^ ~static_cast<Integral>((static_cast<type>(1) << b) - 1);
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/isols0b.hpp b/sprout/bit/isols0b.hpp
index c5dc1a2..9d20483 100644
--- a/sprout/bit/isols0b.hpp
+++ b/sprout/bit/isols0b.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	isols0b(Integral x) SPROUT_NOEXCEPT {
-		return ~x & (x + 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return ~x & static_cast<Integral>(static_cast<type>(x) + 1);
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/isols1b.hpp b/sprout/bit/isols1b.hpp
index 22102e8..474ea7e 100644
--- a/sprout/bit/isols1b.hpp
+++ b/sprout/bit/isols1b.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	isols1b(Integral x) SPROUT_NOEXCEPT {
-		return x & -x;
+		typedef typename std::make_unsigned<Integral>::type type;
+		return x & static_cast<Integral>(type() - static_cast<type>(x));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/maskt0.hpp b/sprout/bit/maskt0.hpp
index c8f7903..4afa838 100644
--- a/sprout/bit/maskt0.hpp
+++ b/sprout/bit/maskt0.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	maskt0(Integral x) SPROUT_NOEXCEPT {
-		return ~x & (x - 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return ~x & static_cast<Integral>(static_cast<type>(x) - 1);
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/maskt0ls1b.hpp b/sprout/bit/maskt0ls1b.hpp
index 26c8ef9..fdbc112 100644
--- a/sprout/bit/maskt0ls1b.hpp
+++ b/sprout/bit/maskt0ls1b.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	maskt0ls1b(Integral x) SPROUT_NOEXCEPT {
-		return (x - 1) ^ x;
+		typedef typename std::make_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) - 1) ^ x;
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/maskt1.hpp b/sprout/bit/maskt1.hpp
index 76190b3..f9f3064 100644
--- a/sprout/bit/maskt1.hpp
+++ b/sprout/bit/maskt1.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	maskt1(Integral x) SPROUT_NOEXCEPT {
-		return ~(~x | (x + 1));
+		typedef typename std::make_unsigned<Integral>::type type;
+		return ~(~x | static_cast<Integral>(static_cast<type>(x) + 1));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/maskt1ls0b.hpp b/sprout/bit/maskt1ls0b.hpp
index f218c31..eef3404 100644
--- a/sprout/bit/maskt1ls0b.hpp
+++ b/sprout/bit/maskt1ls0b.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	maskt1ls0b(Integral x) SPROUT_NOEXCEPT {
-		return x ^ (x + 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return x ^ static_cast<Integral>(static_cast<type>(x) + 1);
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/rstbitsge.hpp b/sprout/bit/rstbitsge.hpp
index 61b605a..05cd9b9 100644
--- a/sprout/bit/rstbitsge.hpp
+++ b/sprout/bit/rstbitsge.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	rstbitsge(Integral x, int b) SPROUT_NOEXCEPT {
-		return x & ((Integral(1) << b) - 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return x & static_cast<Integral>((static_cast<type>(1) << b) - 1);
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/rstls1b.hpp b/sprout/bit/rstls1b.hpp
index d3ada72..ec017a2 100644
--- a/sprout/bit/rstls1b.hpp
+++ b/sprout/bit/rstls1b.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	rstls1b(Integral x) SPROUT_NOEXCEPT {
-		return x & (x - 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return x & static_cast<Integral>(static_cast<type>(x) - 1);
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/rstt1.hpp b/sprout/bit/rstt1.hpp
index 96253f6..3bb4e5c 100644
--- a/sprout/bit/rstt1.hpp
+++ b/sprout/bit/rstt1.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	rstt1(Integral x) SPROUT_NOEXCEPT {
-		return x & (x + 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return x & static_cast<Integral>(static_cast<type>(x) + 1);
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/setbitsge.hpp b/sprout/bit/setbitsge.hpp
index ea82f41..7c3086e 100644
--- a/sprout/bit/setbitsge.hpp
+++ b/sprout/bit/setbitsge.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	setbitsge(Integral x, int b) SPROUT_NOEXCEPT {
-		return x | ~((Integral(1) << b) - 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return x | ~static_cast<Integral>((static_cast<type>(1) << b) - 1);
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/setls0b.hpp b/sprout/bit/setls0b.hpp
index 496971d..0ee310b 100644
--- a/sprout/bit/setls0b.hpp
+++ b/sprout/bit/setls0b.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	setls0b(Integral x) SPROUT_NOEXCEPT {
-		return x | (x + 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return x | static_cast<Integral>(static_cast<type>(x) + 1);
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/sett0.hpp b/sprout/bit/sett0.hpp
index 6c5f801..b0174e5 100644
--- a/sprout/bit/sett0.hpp
+++ b/sprout/bit/sett0.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	sett0(Integral x) SPROUT_NOEXCEPT {
-		return x | (x - 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return x | static_cast<Integral>(static_cast<type>(x) - 1);
 	}
 }	// namespace sprout
 
-- 
2.43.0


From 437426826e9bb62c40bab2bf6d5836fd1e266f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:10 +0000
Subject: [PATCH 212/218] fix: no signed overflow in carry_to_exp2

---
 sprout/integer/carry_to_exp2.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sprout/integer/carry_to_exp2.hpp b/sprout/integer/carry_to_exp2.hpp
index 7eceb15..dd25c76 100644
--- a/sprout/integer/carry_to_exp2.hpp
+++ b/sprout/integer/carry_to_exp2.hpp
@@ -10,6 +10,7 @@
 
 #include <climits>
 #include <limits>
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/bit/cntl0.hpp>
 #include <sprout/bit/popcount.hpp>
@@ -56,7 +57,7 @@ namespace sprout {
 	inline SPROUT_CONSTEXPR IntType
 	carry_to_exp2(IntType x) {
 		return x == std::numeric_limits<IntType>::min() ? x
-			: x < IntType(0) ? -sprout::detail::carry_to_exp2_simpl(-x)
+			: x < IntType(0) ? static_cast<IntType>(0 - static_cast<typename std::make_unsigned<IntType>::type>(sprout::detail::carry_to_exp2_simpl(-x)))
 			: sprout::detail::carry_to_exp2_simpl(x)
 			;
 	}
-- 
2.43.0


From 4a60e22731be217c9a7e20b2865a55b46e4d3a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:10 +0000
Subject: [PATCH 213/218] fix: no overflow of the quotient in rem_quo

---
 sprout/math/rem_quo.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/math/rem_quo.hpp b/sprout/math/rem_quo.hpp
index 4b8126a..1cd5815 100644
--- a/sprout/math/rem_quo.hpp
+++ b/sprout/math/rem_quo.hpp
@@ -54,8 +54,8 @@ namespace sprout {
 			rem_quo_impl_5(T x, T y, int k, R iquo, T x1, T y1, T z, int iscy, int idiff, int i) {
 				return i != idiff
 					? z >= 0
-						? sprout::math::detail::rem_quo_impl_5(x, y, k, iquo + iquo + 2, z + z, y1, z + z - y1, iscy, idiff, i + 1)
-						: sprout::math::detail::rem_quo_impl_5(x, y, k, iquo + iquo, x1 + x1, y1, x1 + x1 - y1, iscy, idiff, i + 1)
+						? sprout::math::detail::rem_quo_impl_5(x, y, k, (iquo & 0x7) * 2 + 2, z + z, y1, z + z - y1, iscy, idiff, i + 1)
+						: sprout::math::detail::rem_quo_impl_5(x, y, k, (iquo & 0x7) * 2, x1 + x1, y1, x1 + x1 - y1, iscy, idiff, i + 1)
 					: sprout::math::detail::rem_quo_impl_6(x, y, k, iquo, sprout::math::scalbn(x1, iscy))
 					;
 			}
-- 
2.43.0


From 296ea6e308aabeca750298788c92f81b62b6b577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:37 +0000
Subject: [PATCH 214/218] fix: no overflow in logb of the greatest values

---
 sprout/math/logb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/math/logb.hpp b/sprout/math/logb.hpp
index 1140633..aced3be 100644
--- a/sprout/math/logb.hpp
+++ b/sprout/math/logb.hpp
@@ -50,7 +50,7 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			logb_impl_3_hi(T x, T x0, T exp) {
-				return !(x < x0 * sprout::numeric_limits<T>::radix) ? sprout::math::detail::logb_impl_3_hi(x, x0 * sprout::numeric_limits<T>::radix, exp + 1)
+				return !(x / sprout::numeric_limits<T>::radix < x0) ? sprout::math::detail::logb_impl_3_hi(x, x0 * sprout::numeric_limits<T>::radix, exp + 1)
 					: exp
 					;
 			}
-- 
2.43.0


From d7d182874b4b110251b49dce66617cb6fbfeb366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:30 +0000
Subject: [PATCH 215/218] fix: measure wide strings by their own character
 traits in the checksums

---
 sprout/checksum/md5.hpp  |  6 +++---
 sprout/checksum/sha1.hpp |  6 +++---
 sprout/checksum/sum.hpp  | 18 +++++++++---------
 sprout/checksum/xor.hpp  |  6 +++---
 4 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/sprout/checksum/md5.hpp b/sprout/checksum/md5.hpp
index 77caf49..86b5506 100644
--- a/sprout/checksum/md5.hpp
+++ b/sprout/checksum/md5.hpp
@@ -504,16 +504,16 @@ namespace sprout {
 	}
 	inline SPROUT_CONSTEXPR sprout::md5::value_type
 	make_md5(wchar_t const* s) {
-		return sprout::md5().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::md5().c_process_bytes(s, sprout::char_traits<wchar_t>::length(s))();
 	}
 #if SPROUT_USE_UNICODE_LITERALS
 	inline SPROUT_CONSTEXPR sprout::md5::value_type
 	make_md5(char16_t const* s) {
-		return sprout::md5().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::md5().c_process_bytes(s, sprout::char_traits<char16_t>::length(s))();
 	}
 	inline SPROUT_CONSTEXPR sprout::md5::value_type
 	make_md5(char32_t const* s) {
-		return sprout::md5().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::md5().c_process_bytes(s, sprout::char_traits<char32_t>::length(s))();
 	}
 #endif
 }	// namespace sprout
diff --git a/sprout/checksum/sha1.hpp b/sprout/checksum/sha1.hpp
index c6256a9..5d273eb 100644
--- a/sprout/checksum/sha1.hpp
+++ b/sprout/checksum/sha1.hpp
@@ -546,16 +546,16 @@ namespace sprout {
 	}
 	inline SPROUT_CONSTEXPR sprout::sha1::value_type
 	make_sha1(wchar_t const* s) {
-		return sprout::sha1().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::sha1().c_process_bytes(s, sprout::char_traits<wchar_t>::length(s))();
 	}
 #if SPROUT_USE_UNICODE_LITERALS
 	inline SPROUT_CONSTEXPR sprout::sha1::value_type
 	make_sha1(char16_t const* s) {
-		return sprout::sha1().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::sha1().c_process_bytes(s, sprout::char_traits<char16_t>::length(s))();
 	}
 	inline SPROUT_CONSTEXPR sprout::sha1::value_type
 	make_sha1(char32_t const* s) {
-		return sprout::sha1().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::sha1().c_process_bytes(s, sprout::char_traits<char32_t>::length(s))();
 	}
 #endif
 }	// namespace sprout
diff --git a/sprout/checksum/sum.hpp b/sprout/checksum/sum.hpp
index f37fbf2..c664d15 100644
--- a/sprout/checksum/sum.hpp
+++ b/sprout/checksum/sum.hpp
@@ -146,16 +146,16 @@ namespace sprout {
 	}
 	inline SPROUT_CONSTEXPR sprout::sum8::value_type
 	make_sum8(wchar_t const* s) {
-		return sprout::sum8().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::sum8().c_process_bytes(s, sprout::char_traits<wchar_t>::length(s))();
 	}
 #if SPROUT_USE_UNICODE_LITERALS
 	inline SPROUT_CONSTEXPR sprout::sum8::value_type
 	make_sum8(char16_t const* s) {
-		return sprout::sum8().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::sum8().c_process_bytes(s, sprout::char_traits<char16_t>::length(s))();
 	}
 	inline SPROUT_CONSTEXPR sprout::sum8::value_type
 	make_sum8(char32_t const* s) {
-		return sprout::sum8().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::sum8().c_process_bytes(s, sprout::char_traits<char32_t>::length(s))();
 	}
 #endif
 	//
@@ -177,16 +177,16 @@ namespace sprout {
 	}
 	inline SPROUT_CONSTEXPR sprout::sum16::value_type
 	make_sum16(wchar_t const* s) {
-		return sprout::sum16().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::sum16().c_process_bytes(s, sprout::char_traits<wchar_t>::length(s))();
 	}
 #if SPROUT_USE_UNICODE_LITERALS
 	inline SPROUT_CONSTEXPR sprout::sum16::value_type
 	make_sum16(char16_t const* s) {
-		return sprout::sum16().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::sum16().c_process_bytes(s, sprout::char_traits<char16_t>::length(s))();
 	}
 	inline SPROUT_CONSTEXPR sprout::sum16::value_type
 	make_sum16(char32_t const* s) {
-		return sprout::sum16().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::sum16().c_process_bytes(s, sprout::char_traits<char32_t>::length(s))();
 	}
 #endif
 	//
@@ -208,16 +208,16 @@ namespace sprout {
 	}
 	inline SPROUT_CONSTEXPR sprout::sum32::value_type
 	make_sum32(wchar_t const* s) {
-		return sprout::sum32().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::sum32().c_process_bytes(s, sprout::char_traits<wchar_t>::length(s))();
 	}
 #if SPROUT_USE_UNICODE_LITERALS
 	inline SPROUT_CONSTEXPR sprout::sum32::value_type
 	make_sum32(char16_t const* s) {
-		return sprout::sum32().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::sum32().c_process_bytes(s, sprout::char_traits<char16_t>::length(s))();
 	}
 	inline SPROUT_CONSTEXPR sprout::sum32::value_type
 	make_sum32(char32_t const* s) {
-		return sprout::sum32().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::sum32().c_process_bytes(s, sprout::char_traits<char32_t>::length(s))();
 	}
 #endif
 }	// namespace sprout
diff --git a/sprout/checksum/xor.hpp b/sprout/checksum/xor.hpp
index 570098b..35433f2 100644
--- a/sprout/checksum/xor.hpp
+++ b/sprout/checksum/xor.hpp
@@ -127,16 +127,16 @@ namespace sprout {
 	}
 	inline SPROUT_CONSTEXPR sprout::xor8::value_type
 	make_xor8(wchar_t const* s) {
-		return sprout::xor8().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::xor8().c_process_bytes(s, sprout::char_traits<wchar_t>::length(s))();
 	}
 #if SPROUT_USE_UNICODE_LITERALS
 	inline SPROUT_CONSTEXPR sprout::xor8::value_type
 	make_xor8(char16_t const* s) {
-		return sprout::xor8().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::xor8().c_process_bytes(s, sprout::char_traits<char16_t>::length(s))();
 	}
 	inline SPROUT_CONSTEXPR sprout::xor8::value_type
 	make_xor8(char32_t const* s) {
-		return sprout::xor8().c_process_bytes(s, sprout::char_traits<char>::length(s))();
+		return sprout::xor8().c_process_bytes(s, sprout::char_traits<char32_t>::length(s))();
 	}
 #endif
 }	// namespace sprout
-- 
2.43.0


From 05de1cc327a6380c835a3e415cf59ccc71261f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:45 +0000
Subject: [PATCH 216/218] fix: lgamma uses the polynomial of the right interval

---
 sprout/math/lgamma.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/math/lgamma.hpp b/sprout/math/lgamma.hpp
index fdaa6d1..7d1d49f 100644
--- a/sprout/math/lgamma.hpp
+++ b/sprout/math/lgamma.hpp
@@ -162,7 +162,7 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			lgamma_impl_2_b(T x, T t) {
-				return sprout::math::detail::lgamma_impl_2_b_1(x, t, sprout::math::itrunc(t) + 4);
+				return sprout::math::detail::lgamma_impl_2_b_1(x, t, sprout::math::itrunc(t + T(4)));
 			}
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
-- 
2.43.0


From 4d9a82959b287719d227006ae498a18e99c96e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:23 +0000
Subject: [PATCH 217/218] fix: exp beyond 16 and asinh of large negative
 numbers without the builtins

---
 sprout/math/asinh.hpp |  4 +++-
 sprout/math/exp.hpp   | 13 ++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/sprout/math/asinh.hpp b/sprout/math/asinh.hpp
index 1a5f4fb..985130c 100644
--- a/sprout/math/asinh.hpp
+++ b/sprout/math/asinh.hpp
@@ -39,7 +39,9 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			asinh_impl(T x) {
-				return sprout::math::log(x + sprout::math::sqrt(x * x + 1));
+				return x < 0 ? -sprout::math::log(sprout::math::sqrt(x * x + 1) - x)
+					: sprout::math::log(x + sprout::math::sqrt(x * x + 1))
+					;
 			}
 		}	// namespace detail
 		//
diff --git a/sprout/math/exp.hpp b/sprout/math/exp.hpp
index 1b27a77..ca3d28f 100644
--- a/sprout/math/exp.hpp
+++ b/sprout/math/exp.hpp
@@ -48,8 +48,19 @@ namespace sprout {
 			}
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
+			exp_impl(T x);
+			template<typename T>
+			inline SPROUT_CONSTEXPR T
+			exp_impl_sq(T t) {
+				return t * t;
+			}
+			template<typename T>
+			inline SPROUT_CONSTEXPR T
 			exp_impl(T x) {
-				return !(x > -1) ? T(1) / (T(1) + sprout::math::detail::exp_impl_1(-x, 1, sprout::math::factorial_limit<T>() / 2 + 1))
+				return x > static_cast<T>(sprout::numeric_limits<T>::max_exponent) ? sprout::numeric_limits<T>::infinity()
+					: x < -2 * static_cast<T>(sprout::numeric_limits<T>::max_exponent) ? T(0)
+					: x > 16 || x < -16 ? sprout::math::detail::exp_impl_sq(sprout::math::detail::exp_impl(x / 2))
+					: !(x > -1) ? T(1) / (T(1) + sprout::math::detail::exp_impl_1(-x, 1, sprout::math::factorial_limit<T>() / 2 + 1))
 					: T(1) + sprout::math::detail::exp_impl_1(x, 1, sprout::math::factorial_limit<T>() / 2 + 1)
 					;
 			}
-- 
2.43.0


From 89db8dc0f0173b2f6ded8b479aa04cf2631b62ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:31 +0000
Subject: [PATCH 218/218] fix: tgamma of large arguments without the builtins

---
 sprout/math/tgamma.hpp | 47 +++++++++---------------------------------
 1 file changed, 10 insertions(+), 37 deletions(-)

diff --git a/sprout/math/tgamma.hpp b/sprout/math/tgamma.hpp
index 7edf1ad..bce1ab7 100644
--- a/sprout/math/tgamma.hpp
+++ b/sprout/math/tgamma.hpp
@@ -74,53 +74,26 @@ namespace sprout {
 			}
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
-			tgamma_impl_t_pos_rec(T x, std::size_t n, std::size_t last) {
-				return last - n == 1
-					? T(1) / (x - static_cast<T>(n))
-					: sprout::math::detail::tgamma_impl_t_pos_rec(x, n, n + (last - n) / 2)
-						* sprout::math::detail::tgamma_impl_t_pos_rec(x, n + (last - n) / 2, last)
-					;
-			}
-			template<typename T>
-			inline SPROUT_CONSTEXPR T
-			tgamma_impl_t_neg_rec(T x, std::size_t n, std::size_t last) {
-				return last - n == 1
-					? T(1) / (x + static_cast<T>(n))
-					: sprout::math::detail::tgamma_impl_t_neg_rec(x, n, n + (last - n) / 2)
-						* sprout::math::detail::tgamma_impl_t_neg_rec(x, n + (last - n) / 2, last)
-					;
-			}
-			template<typename T>
-			inline SPROUT_CONSTEXPR T
-			tgamma_impl_2_pos_rec(T x, T y, T t) {
-				return t == 0 ? sprout::numeric_limits<T>::infinity()
-					: (x - T(1)) / y / t
-					;
-			}
-			template<typename T>
-			inline SPROUT_CONSTEXPR T
 			tgamma_impl_1(T x, int n) {
 				return n == 1 ? (x - T(1)) / sprout::math::detail::tgamma_impl_y(x - (n + 2))
 					: n == 0 ? T(1) / sprout::math::detail::tgamma_impl_y(x - (n + 2))
-					: n == static_cast<int>(sprout::math::factorial_limit<T>())
-						? sprout::math::detail::tgamma_impl_2_pos_rec(x, sprout::math::detail::tgamma_impl_y(x - (n + 2)), sprout::math::detail::tgamma_impl_t_pos_rec(x, 2, n + 1))
-					: n == -static_cast<int>(sprout::math::factorial_limit<T>())
-						? T(1) / sprout::math::detail::tgamma_impl_y(x - (n + 2)) * sprout::math::detail::tgamma_impl_t_neg_rec(x, 0, -n)
 					: n > 1 ? (x - T(1)) / sprout::math::detail::tgamma_impl_y(x - (n + 2)) * sprout::math::detail::tgamma_impl_t_pos(x, 2, n + 1)
 					: T(1) / sprout::math::detail::tgamma_impl_y(x - (n + 2)) / sprout::math::detail::tgamma_impl_t_neg(x, 0, -n)
 					;
 			}
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
+			tgamma_impl_0(T x, int limit) {
+				return x > limit ? sprout::numeric_limits<T>::infinity()
+					: x < -(limit + 20) ? T(0)
+					: sprout::math::detail::tgamma_impl_1(x, sprout::math::iround(x - T(2)))
+					;
+			}
+			template<typename T>
+			inline SPROUT_CONSTEXPR T
 			tgamma_impl(T x) {
-				return sprout::math::detail::tgamma_impl_1(
-					x,
-					sprout::clamp(
-						sprout::math::iround(x - T(2)),
-						-static_cast<int>(sprout::math::factorial_limit<T>()),
-						static_cast<int>(sprout::math::factorial_limit<T>())
-						)
-					);
+				// the greatest argument with a finite result, rounded up
+				return sprout::math::detail::tgamma_impl_0(x, sprout::numeric_limits<T>::max_exponent > 1024 ? 1756 : 172);
 			}
 		}	// namespace detail
 		//
-- 
2.43.0

