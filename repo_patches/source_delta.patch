From fab636ce599eb48ce649df612ce492470f379b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:37 +0000
Subject: [PATCH 01/23] fix: HomoPoint2::LexicographicallyLt honours
 denominator signs

---
 include/walnut/homo_point2.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/walnut/homo_point2.h b/include/walnut/homo_point2.h
index 0928a7b..5ca8c02 100644
--- a/include/walnut/homo_point2.h
+++ b/include/walnut/homo_point2.h
@@ -69,8 +69,9 @@ class HomoPoint2 {
     vector_from_origin_(v), dist_denom_(w) { }
 
   static bool LexicographicallyLt(const HomoPoint2& a, const HomoPoint2& b) {
-    auto a_scaled = a.vector_from_origin() * b.dist_denom();
-    auto b_scaled = b.vector_from_origin() * a.dist_denom();
+    const int sign_flip = b.dist_denom().GetAbsMult(a.dist_denom());
+    auto a_scaled = a.vector_from_origin() * (b.dist_denom() * sign_flip);
+    auto b_scaled = b.vector_from_origin() * (a.dist_denom() * sign_flip);
     return std::lexicographical_compare(a_scaled.coords().begin(),
                                         a_scaled.coords().end(),
                                         b_scaled.coords().begin(),
-- 
2.43.0


From 4747daef4630c4aa7f78a7aef5f8c0ab5bf78014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:45 +0000
Subject: [PATCH 02/23] fix: HomoPoint3::Get2DTwistDir reports collinear points
 for mixed denominator signs

---
 src/walnut/homo_point3.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/walnut/homo_point3.cpp b/src/walnut/homo_point3.cpp
index 165ef3a..f798bae 100644
--- a/src/walnut/homo_point3.cpp
+++ b/src/walnut/homo_point3.cpp
@@ -99,9 +99,10 @@ BigIntWord HomoPoint3::Get2DTwistDir(int drop_dimension, const HomoPoint3& p1,
     vector_from_origin().DropDimension(drop_dimension) * p3.dist_denom();
   Vector2 p3_from_origin =
     p3.vector_from_origin().DropDimension(drop_dimension) * dist_denom();
-  return (p1_from_origin - p2_from_origin1).Cross(
-      p3_from_origin - p2_from_origin3).GetSign() ^
-    p1.dist_denom().SignExtension() ^ p3.dist_denom().SignExtension();
+  BigInt twist = (p1_from_origin - p2_from_origin1).Cross(
+      p3_from_origin - p2_from_origin3);
+  if (p1.dist_denom().HasDifferentSign(p3.dist_denom())) twist.Negate();
+  return twist.GetSign();
 }
 
 void HomoPoint3::Reduce() {
-- 
2.43.0


From 7d1c168b7de73c33944c3329cec9db5abe108a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:51 +0000
Subject: [PATCH 03/23] fix: HalfSpace2SidelessCompare orders horizontal lines
 consistently

---
 include/walnut/half_space2_sideless_compare.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/walnut/half_space2_sideless_compare.h b/include/walnut/half_space2_sideless_compare.h
index b3f35b9..55a602f 100644
--- a/include/walnut/half_space2_sideless_compare.h
+++ b/include/walnut/half_space2_sideless_compare.h
@@ -26,7 +26,7 @@ struct HalfSpace2SidelessCompare {
           /*flip=*/h1.x().HasDifferentSign(h2.x()), h2.d() * h1.x());
     } else {
       return (h1.d() * h2.y()).LessThan(
-          /*flip=*/h1.y().HasDifferentSign(h2.x()), h2.d() * h1.y());
+          /*flip=*/h1.y().HasDifferentSign(h2.y()), h2.d() * h1.y());
     }
   }
 };
-- 
2.43.0


From 6e1a2a5d8d245406c454bb964f7b28ab880e4f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:25 +0000
Subject: [PATCH 04/23] fix: HalfSpace3Compare is a strict weak order when a
 normal sums to zero

---
 include/walnut/half_space3.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/walnut/half_space3.h b/include/walnut/half_space3.h
index 23e75fa..90f3b20 100644
--- a/include/walnut/half_space3.h
+++ b/include/walnut/half_space3.h
@@ -278,8 +278,8 @@ std::ostream& operator<<(std::ostream& out, const HalfSpace3& p);
 // This is useful for putting `HalfSpace3`s in a std::map or std::set.
 struct HalfSpace3Compare {
   bool operator()(const HalfSpace3& a, const HalfSpace3& b) const {
-    BigInt scale_a = (b.x() + b.y() + b.z()).abs();
-    BigInt scale_b = (a.x() + a.y() + a.z()).abs();
+    BigInt scale_a = GetScale(b);
+    BigInt scale_b = GetScale(a);
 
     return std::make_tuple(a.x().Multiply(scale_a),
                            a.y().Multiply(scale_a),
@@ -290,6 +290,15 @@ struct HalfSpace3Compare {
                            b.z().Multiply(scale_b),
                            b.d().Multiply(scale_b));
   }
+
+ private:
+  // Returns a value that is positive for every valid half-space, and that is
+  // proportional to the length of its normal among parallel normals.
+  static BigInt GetScale(const HalfSpace3& h) {
+    if (!h.x().IsZero()) return h.x().abs();
+    if (!h.y().IsZero()) return h.y().abs();
+    return h.z().abs();
+  }
 };
 
 }  // walnut
-- 
2.43.0


From 3cd86f257a26a17337c074c557064e130b634c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:50 +0000
Subject: [PATCH 05/23] fix: BigInt ++ and -- allocate the word they carry into
 and stay trimmed

---
 include/walnut/big_int.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/walnut/big_int.h b/include/walnut/big_int.h
index b269f9d..65c4ca3 100644
--- a/include/walnut/big_int.h
+++ b/include/walnut/big_int.h
@@ -317,13 +317,13 @@ class BigInt {
     for (; i < used_words() - 1; i++) {
       ++words_[i];
       if (words_[i] != 0) {
+        Trim();
         return *this;
       }
     }
     ++words_[i];
     if ((BigIntWord)words_[i] == std::numeric_limits<BigIntWord>::min()) {
-      ++i;
-      ++words_[i] = 0;
+      words_.push_back(BigUIntWord{0});
     } else {
       Trim();
     }
@@ -390,6 +390,7 @@ class BigInt {
     for (; i < used_words() - 1; i++) {
       --words_[i];
       if ((BigIntWord)words_[i] != -1) {
+        Trim();
         return *this;
       }
     }
-- 
2.43.0


From 5d4db202512e1be4ff62eec812c4ac813af6c776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:21 +0000
Subject: [PATCH 06/23] fix: BigInt::abs of the smallest one word value is
 positive

---
 include/walnut/big_int.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/walnut/big_int.h b/include/walnut/big_int.h
index 65c4ca3..1a793a5 100644
--- a/include/walnut/big_int.h
+++ b/include/walnut/big_int.h
@@ -730,9 +730,6 @@ class BigInt {
   }
 
   BigInt abs() const {
-    if (used_words() == 1) {
-      return BigInt(BigIntWord{words_[0].SignedAbs()});
-    }
     if (BigIntWord{words_[used_words() - 1]} >= 0) {
       return *this;
     } else {
-- 
2.43.0


From 7b596b3857b97d56c66c1b9a73a92a659c150071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:16 +0000
Subject: [PATCH 07/23] fix: BigInt division of the smallest one word value by
 -1

---
 include/walnut/big_int.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/walnut/big_int.h b/include/walnut/big_int.h
index 1a793a5..e16659f 100644
--- a/include/walnut/big_int.h
+++ b/include/walnut/big_int.h
@@ -654,7 +654,7 @@ class BigInt {
 
   // Divide `this` by `other`. Return the quotient.
   BigInt operator/(const BigInt& other) const {
-    if (used_words() == 1 && other.used_words() == 1) {
+    if (CanDivideAsWords(other)) {
       return BigInt{BigIntWord{words_[0]} / BigIntWord{other.words_[0]}};
     }
     BigInt unused;
@@ -678,7 +678,7 @@ class BigInt {
   //
   // The quotient is rounded towards 0.
   BigInt DivideRemainder(const BigInt& other, BigInt* remainder_out) const {
-    if (used_words() == 1 && other.used_words() == 1) {
+    if (CanDivideAsWords(other)) {
       *remainder_out = BigInt(BigIntWord{words_[0]} %
                                   BigIntWord{other.words_[0]});
       return BigInt{BigIntWord{words_[0]} / BigIntWord{other.words_[0]}};
@@ -688,7 +688,7 @@ class BigInt {
 
   // Divide `this` by `other`. Return the remainder.
   BigInt operator%(const BigInt& other) const {
-    if (used_words() == 1 && other.used_words() == 1) {
+    if (CanDivideAsWords(other)) {
       return BigInt(BigIntWord{words_[0]} %
                         BigIntWord{other.words_[0]});
     }
@@ -856,6 +856,15 @@ class BigInt {
     }
   }
 
+  // Returns true if `this` and `other` both fit in a single word, and so does
+  // their quotient.
+  //
+  // The quotient of the minimum word and -1 does not fit in a word.
+  constexpr bool CanDivideAsWords(const BigInt& other) const {
+    return used_words() == 1 && other.used_words() == 1 &&
+           BigIntWord{other.words_[0]} != -1;
+  }
+
   BigInt MultiplySlow(const BigInt& other) const;
 
   // Mask everyone of `other` words with `mask`, then subtract other_masked *
-- 
2.43.0


From 731fb2b4d17827c1af9009cb268f019aeed203cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:47 +0000
Subject: [PATCH 08/23] fix: BigInt += and -= accept the object itself as
 operand

---
 include/walnut/big_int.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/walnut/big_int.h b/include/walnut/big_int.h
index e16659f..30a7bff 100644
--- a/include/walnut/big_int.h
+++ b/include/walnut/big_int.h
@@ -275,14 +275,16 @@ class BigInt {
     BigUIntWord this_extension(SignExtension());
     BigUIntWord other_extension(other.SignExtension());
     size_t old_used_words = used_words();
-    words_.resize(std::max(old_used_words, other.used_words()) + 1);
+    // `other` may be an alias of `this`, so read its size before the resize.
+    size_t other_used_words = other.used_words();
+    words_.resize(std::max(old_used_words, other_used_words) + 1);
     for (; i < common_words; i++) {
       words_[i] = words_[i].Add(other.words_[i], carry, &carry);
     }
     for (; i < old_used_words; i++) {
       words_[i] = words_[i].Add(other_extension, carry, &carry);
     }
-    for (; i < other.used_words(); i++) {
+    for (; i < other_used_words; i++) {
       words_[i] = this_extension.Add(other.words_[i], carry, &carry);
     }
     words_[i] = this_extension.Add(other_extension, carry, &carry);
@@ -347,14 +349,16 @@ class BigInt {
     BigUIntWord this_extension(SignExtension());
     BigUIntWord other_extension(other.SignExtension());
     size_t old_used_words = used_words();
-    words_.resize(std::max(old_used_words, other.used_words()) + 1);
+    // `other` may be an alias of `this`, so read its size before the resize.
+    size_t other_used_words = other.used_words();
+    words_.resize(std::max(old_used_words, other_used_words) + 1);
     for (; i < common_words; i++) {
       words_[i] = words_[i].Subtract(other.words_[i], carry, &carry);
     }
     for (; i < old_used_words; i++) {
       words_[i] = words_[i].Subtract(other_extension, carry, &carry);
     }
-    for (; i < other.used_words(); i++) {
+    for (; i < other_used_words; i++) {
       words_[i] = this_extension.Subtract(other.words_[i], carry, &carry);
     }
     words_[i] = this_extension.Subtract(other_extension, carry, &carry);
-- 
2.43.0


From 142d1f4d6ea99d66824a97e07434388d52c863de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:59 +0000
Subject: [PATCH 09/23] fix: AABB::GetDiagonalLength divides by the denominator
 outside the root

---
 include/walnut/aabb.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/walnut/aabb.h b/include/walnut/aabb.h
index 72b6535..e8d2577 100644
--- a/include/walnut/aabb.h
+++ b/include/walnut/aabb.h
@@ -166,7 +166,7 @@ class AABB {
   }
 
   double GetDiagonalLength() const {
-    return sqrt((double)GetSquaredDiagonalLengthNumerator() / (double)denom());
+    return sqrt((double)GetSquaredDiagonalLengthNumerator()) / (double)denom();
   }
 
  private:
-- 
2.43.0


From 97adbc2dffad51dfa652e29946a0970404472969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:47 +0000
Subject: [PATCH 10/23] fix: ConvexPolygon::operator== compares the edge data
 of every vertex

---
 include/walnut/convex_polygon.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/walnut/convex_polygon.h b/include/walnut/convex_polygon.h
index b6dbe36..c88b712 100644
--- a/include/walnut/convex_polygon.h
+++ b/include/walnut/convex_polygon.h
@@ -842,6 +842,9 @@ bool ConvexPolygon<EdgeParent>::operator==(
   if (vertex_count() != other.vertex_count()) {
     return false;
   }
+  if (vertex_count() == 0) {
+    return true;
+  }
   size_t match_offset = 0;
   while (true) {
     if (match_offset == vertex_count()) {
@@ -853,7 +856,7 @@ bool ConvexPolygon<EdgeParent>::operator==(
     }
     ++match_offset;
   }
-  for (size_t i = 1, j = match_offset + 1; i < vertex_count(); ++i, ++j) {
+  for (size_t i = 0, j = match_offset; i < vertex_count(); ++i, ++j) {
     if (vertex(i).DropDimension(drop_dimension()) !=
         other.vertex(j % vertex_count()).DropDimension(drop_dimension())) {
       return false;
-- 
2.43.0


From 86d7dfafaafc93f324f587c2dcbd2c313e49a34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:40 +0000
Subject: [PATCH 11/23] fix: AABBConvexPolygon keeps its extreme vertex indices
 up to date in SplitEdge and Invert

---
 include/walnut/aabb_convex_polygon.h        | 12 ++++++++++++
 include/walnut/convex_vertex_aabb_tracker.h | 21 +++++++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/include/walnut/aabb_convex_polygon.h b/include/walnut/aabb_convex_polygon.h
index 0e1f71d..967692e 100644
--- a/include/walnut/aabb_convex_polygon.h
+++ b/include/walnut/aabb_convex_polygon.h
@@ -159,6 +159,18 @@ class AABBConvexPolygon : public ParentTemplate, public AABBConvexPolygonKey {
     aabb_tracker_.RotateIndices(offset, vertex_count());
   }
 
+  // Overrides the non-virtual function from ConvexPolygon.
+  void SplitEdge(size_t split_index, HomoPoint3 mid_point) {
+    Parent::SplitEdge(split_index, std::move(mid_point));
+    aabb_tracker_.InsertIndex(split_index + 1);
+  }
+
+  // Overrides the non-virtual function from ConvexPolygon.
+  void Invert() {
+    Parent::Invert();
+    aabb_tracker_.ReverseIndices(vertex_count());
+  }
+
   // Overrides the non-virtual function from ConvexPolygon.
   ConvexPolygonSplitInfo GetSplitInfo(const HalfSpace3& half_space) const {
     switch (aabb().GetPlaneSide(half_space)) {
diff --git a/include/walnut/convex_vertex_aabb_tracker.h b/include/walnut/convex_vertex_aabb_tracker.h
index 9302f2c..7afb2d9 100644
--- a/include/walnut/convex_vertex_aabb_tracker.h
+++ b/include/walnut/convex_vertex_aabb_tracker.h
@@ -91,6 +91,27 @@ class ConvexVertexAABBTracker {
     }
   }
 
+  // Updates the extreme vertex indices after a vertex was inserted at `index`.
+  //
+  // The inserted vertex must not be outside of the bounding box.
+  void InsertIndex(size_t index) {
+    for (size_t i = 0; i < 3; ++i) {
+      if (min_indices_[i] >= index) ++min_indices_[i];
+      if (max_indices_[i] >= index) ++max_indices_[i];
+    }
+  }
+
+  // Updates the extreme vertex indices after the order of the vertices was
+  // reversed, with the first vertex remaining first.
+  void ReverseIndices(size_t vertex_count) {
+    if (vertex_count == 0) return;
+
+    for (size_t i = 0; i < 3; ++i) {
+      min_indices_[i] = (vertex_count - min_indices_[i]) % vertex_count;
+      max_indices_[i] = (vertex_count - max_indices_[i]) % vertex_count;
+    }
+  }
+
   // Creates both split children.
   //
   // This function may only be called if `split.ShouldEmitNegativeChild()`
-- 
2.43.0


From 46d75ae44105b68370ac9d0434f2a8b1ae41bcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:36 +0000
Subject: [PATCH 12/23] fix: SubtractIdsFilter looks up the minuend by its id
 and accepts absent subtrahends

---
 include/walnut/boolean_operation_filter.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/walnut/boolean_operation_filter.h b/include/walnut/boolean_operation_filter.h
index 13eda01..8ed0977 100644
--- a/include/walnut/boolean_operation_filter.h
+++ b/include/walnut/boolean_operation_filter.h
@@ -118,8 +118,8 @@ class SubtractIdsFilter : public BooleanOperationFilter {
       return std::make_pair(false, false);
     } 
 
-    std::pair<bool, bool> total(content_info_by_id[0].pwn > 0,
-                                content_info_by_id[0].has_polygons());
+    std::pair<bool, bool> total(content_info_by_id[ids_[0]].pwn > 0,
+                                content_info_by_id[ids_[0]].has_polygons());
 
     for (size_t i = 1; i < ids_.size(); ++i) {
       BSPContentId id = ids_[i];
@@ -127,7 +127,8 @@ class SubtractIdsFilter : public BooleanOperationFilter {
       std::pair<bool, bool> id_result;
 
       if (id >= content_info_by_id.size()) {
-        id_result = std::make_pair(false, false);
+        // The pwn of a polyhedron without any polygons is 0.
+        id_result = std::make_pair(true, false);
       } else {
         id_result =  std::make_pair(content_info_by_id[id].pwn >= 0,
                                     content_info_by_id[id].has_polygons());
-- 
2.43.0


From 3d2e40a8285bd4908c56e3ae2b6ce667b763d052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:00 +0000
Subject: [PATCH 13/23] fix: InvertedPolygonFilter treats an id without
 polygons as having pwn 0

---
 include/walnut/bsp_visitor.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/walnut/bsp_visitor.h b/include/walnut/bsp_visitor.h
index 52e0134..90731b7 100644
--- a/include/walnut/bsp_visitor.h
+++ b/include/walnut/bsp_visitor.h
@@ -53,7 +53,8 @@ class InvertedPolygonFilter {
   std::pair<bool, bool> operator()(
       const std::vector<BSPContentInfo>& content_info_by_id) {
     if (accept_id_ >= content_info_by_id.size()) {
-      return std::make_pair(false, false);
+      // The pwn of an id without any polygons is 0.
+      return std::make_pair(true, false);
     } else {
       return std::make_pair(content_info_by_id[accept_id_].pwn >= 0,
                             content_info_by_id[accept_id_].has_polygons());
-- 
2.43.0


From f07cf3f844d2ab51f6478318155ba6e10c6ec89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:17 +0000
Subject: [PATCH 14/23] fix: BSPNode: size the children's content info before
 pushing new ids into a split node

---
 include/walnut/bsp_node.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/walnut/bsp_node.h b/include/walnut/bsp_node.h
index bf0ab25..6a60ede 100644
--- a/include/walnut/bsp_node.h
+++ b/include/walnut/bsp_node.h
@@ -277,6 +277,13 @@ class BSPNode {
     }
   }
 
+  // Ensure `content_info_by_id_` has an entry for every id less than `count`.
+  void ReserveContentIds(size_t count) {
+    if (content_info_by_id_.size() < count) {
+      content_info_by_id_.resize(count);
+    }
+  }
+
   // Update the children's PWN based on this node's contents.
   //
   // This may only be called on an interior node.
@@ -600,6 +607,9 @@ void BSPNode<OutputPolygonParent>::PushContentsToChildren() {
   if (IsLeaf()) {
     return;
   }
+  // Content ids may have been added to this node since it was split.
+  negative_child_->ReserveContentIds(content_info_by_id_.size());
+  positive_child_->ReserveContentIds(content_info_by_id_.size());
   PushContentPWNToChildren();
 
   for (PolygonRep& polygon : contents_) {
-- 
2.43.0


From 91f933f8312174933ccfa4bf0d71696a0f535385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:54 +0000
Subject: [PATCH 15/23] fix: BSPNode: propagate PWN changes through children
 that are already split

---
 include/walnut/bsp_node.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/walnut/bsp_node.h b/include/walnut/bsp_node.h
index 6a60ede..a9d33d1 100644
--- a/include/walnut/bsp_node.h
+++ b/include/walnut/bsp_node.h
@@ -284,6 +284,16 @@ class BSPNode {
     }
   }
 
+  // Adds `delta` to the PWN of `id` in this node and all of its descendants.
+  void AddPWN(BSPContentId id, int delta) {
+    ReserveContentIds(id + 1);
+    content_info_by_id_[id].pwn += delta;
+    if (!IsLeaf()) {
+      negative_child_->AddPWN(id, delta);
+      positive_child_->AddPWN(id, delta);
+    }
+  }
+
   // Update the children's PWN based on this node's contents.
   //
   // This may only be called on an interior node.
@@ -525,8 +535,7 @@ void BSPNode<OutputPolygonParent>::PushContentPWNToChildren() {
         BSPNode<OutputPolygonParent>* push_to_child =
           push_info.second ? positive_child() : negative_child();
         assert(push_to_child->content_info_by_id_.size() >= polygon.id);
-        push_to_child->content_info_by_id_[polygon.id].pwn +=
-          push_info.first;
+        push_to_child->AddPWN(polygon.id, push_info.first);
       }
 
       const EdgeRep& next_edge =
@@ -537,8 +546,7 @@ void BSPNode<OutputPolygonParent>::PushContentPWNToChildren() {
         BSPNode<OutputPolygonParent>* push_to_child =
           push_info.second ? positive_child() : negative_child();
         assert(push_to_child->content_info_by_id_.size() >= polygon.id);
-        push_to_child->content_info_by_id_[polygon.id].pwn +=
-          -push_info.first;
+        push_to_child->AddPWN(polygon.id, -push_info.first);
       }
     }
   }
-- 
2.43.0


From 95f9802b3f1658e48ee153d04a693994b355ad37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:10 +0000
Subject: [PATCH 16/23] fix: ApplySecondary keeps end events before the start
 events of other polygons at the same location

---
 include/walnut/polygon_event_point.h | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/walnut/polygon_event_point.h b/include/walnut/polygon_event_point.h
index beca202..84865fe 100644
--- a/include/walnut/polygon_event_point.h
+++ b/include/walnut/polygon_event_point.h
@@ -98,6 +98,20 @@ struct PolygonMergeEvent {
       return polygon.max_vertex(dimension);
     }
   }
+
+  // Returns true if the polygon starts and ends at the same location.
+  template <typename ParentPolygon=ConvexPolygon<>>
+  bool IsFlat(
+      size_t dimension,
+      const std::vector<BSPPolygon<AABBConvexPolygon<ParentPolygon>>>&
+        neg_polygons,
+      const std::vector<BSPPolygon<AABBConvexPolygon<ParentPolygon>>>&
+        pos_polygons) const {
+    const BSPPolygon<AABBConvexPolygon<ParentPolygon>>& polygon =
+      pos_child ? pos_polygons[polygon_index] : neg_polygons[polygon_index];
+    return polygon.min_vertex(dimension).IsEquivalentComponent(
+        dimension, polygon.max_vertex(dimension));
+  }
 };
 
 template <typename ParentPolygon=ConvexPolygon<>>
@@ -123,7 +137,11 @@ class PolygonMergeEventCompare {
     if (compare > 0) return true;
     if (compare < 0) return false;
     // Start events come after end events.
-    return a.start > b.start;
+    if (a.start != b.start) return a.start;
+    // The start events of polygons that also end at this location come before
+    // other start events.
+    return a.start && !a.IsFlat(dimension_, neg_polygons_, pos_polygons_) &&
+           b.IsFlat(dimension_, neg_polygons_, pos_polygons_);
   }
 
  private:
@@ -942,7 +960,13 @@ void PolygonEventPointPartition::ApplySecondary(
         }
       }
       // Process the merge start events up to and at the main event location.
-      while (process_heap_events && heap_start->start) {
+      //
+      // Until all main events at the location are processed, only process the
+      // start events of polygons that also end at this location, so that the
+      // remaining start events come after all of the end events.
+      while (process_heap_events && heap_start->start &&
+             (!process_main_events ||
+              heap_start->IsFlat(dimension, neg_polygons, pos_polygons))) {
         if (heap_start->pos_child) {
           assert(pos_used < pos_polygons.size()*2);
           if (heap_start->partner_index != static_cast<size_t>(-1)) {
-- 
2.43.0


From f8909c0b2213b71c73be832826ae00c6498bec5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:29 +0000
Subject: [PATCH 17/23] fix: ApplySecondary does not assert a new location
 after skipping border events of a location

---
 include/walnut/polygon_event_point.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/walnut/polygon_event_point.h b/include/walnut/polygon_event_point.h
index 84865fe..b88bb47 100644
--- a/include/walnut/polygon_event_point.h
+++ b/include/walnut/polygon_event_point.h
@@ -838,7 +838,6 @@ void PolygonEventPointPartition::ApplySecondary(
   size_t neg_used = 0;
   size_t pos_used = 0;
   while (event_points_pos < event_points_end) {
-    assert(event_points_pos->new_location);
     // Skip main events for border polygons
     while (event_points_pos < event_points_end) {
       if (event_points_pos->start) {
-- 
2.43.0


From 1276ae013d5439dcf65779fd629279d94b5b42cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:30 +0000
Subject: [PATCH 18/23] fix: GenericDeed(nullptr) makes an empty deed instead
 of dereferencing the pointer

---
 include/walnut/deed.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/walnut/deed.h b/include/walnut/deed.h
index a324337..7f3ac19 100644
--- a/include/walnut/deed.h
+++ b/include/walnut/deed.h
@@ -55,11 +55,13 @@ class GenericDeed {
   GenericDeed() = default;
 
   GenericDeed(DeedTarget* object) : object_(object) {
-    if (object != nullptr && object->owner_ != nullptr) {
-      lender_ = object->owner_;
-      lender_->MarkLent();
+    if (object != nullptr) {
+      if (object->owner_ != nullptr) {
+        lender_ = object->owner_;
+        lender_->MarkLent();
+      }
+      object->owner_ = this;
     }
-    object->owner_ = this;
   }
 
   GenericDeed(const GenericDeed&) = delete;
-- 
2.43.0


From 2c55196fbd214f9e69e8ea4938bb95bc0da88e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:07 +0000
Subject: [PATCH 19/23] fix: collected polygons keep no reference to the
 partitioner's split plane in edge_created_by

---
 include/walnut/bsp_visitor.h        | 7 ++++++-
 include/walnut/connecting_visitor.h | 5 +++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/walnut/bsp_visitor.h b/include/walnut/bsp_visitor.h
index 90731b7..acf27b9 100644
--- a/include/walnut/bsp_visitor.h
+++ b/include/walnut/bsp_visitor.h
@@ -269,7 +269,12 @@ class CollectorVisitor : public BSPVisitor<PolygonRep> {
   void Accept(PolygonRep&& polygon) override {
     for (size_t i = 0; i < polygon.vertex_count(); ++i) {
       auto& edge = polygon.bsp_edge_info(i);
-      auto it = split_plane_map_.find(edge.edge_first_coincident.split);
+      auto it = split_plane_map_.find(edge.edge_created_by.split);
+      if (it != split_plane_map_.end()) {
+        edge.edge_created_by.split = it->second;
+      }
+
+      it = split_plane_map_.find(edge.edge_first_coincident.split);
       if (it != split_plane_map_.end()) {
         edge.edge_first_coincident.split = it->second;
       }
diff --git a/include/walnut/connecting_visitor.h b/include/walnut/connecting_visitor.h
index e25210f..9d41f4a 100644
--- a/include/walnut/connecting_visitor.h
+++ b/include/walnut/connecting_visitor.h
@@ -86,6 +86,11 @@ class ConnectingVisitor
         edge.edge_first_coincident.split = nullptr;
       }
 
+      it = interior_nodes_.find(edge.edge_created_by.split);
+      if (it != interior_nodes_.end() && it->second.temporary) {
+        edge.edge_created_by.split = nullptr;
+      }
+
       it = interior_nodes_.find(edge.vertex_last_coincident.split);
       assert(it != interior_nodes_.end());
       if (it->second.temporary) {
-- 
2.43.0


From ac0f64ee33db7380406809c12fb0b4fc3bff4f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:51 +0000
Subject: [PATCH 20/23] fix: find the plane of a loop whose first and last
 vertices are equal

---
 include/walnut/planar_range.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/walnut/planar_range.h b/include/walnut/planar_range.h
index 4b440d5..a344a4e 100644
--- a/include/walnut/planar_range.h
+++ b/include/walnut/planar_range.h
@@ -102,8 +102,19 @@ inline void PlanarRange<Point3Iterator>::Build(
     return;
   }
 
-  const Point3Rep& p2 = *remaining_begin;
   size_ = 2;
+  // Skip the vertices that are equal to p1, because no plane could be formed
+  // if p2 was equal to p1.
+  while (*remaining_begin == p1) {
+    ++remaining_begin;
+    if (remaining_begin == remaining_end) {
+      range_.Append(range_begin, range_end);
+      plane_ = HalfSpace3::Zero();
+      return;
+    }
+    ++size_;
+  }
+  const Point3Rep& p2 = *remaining_begin;
   ++remaining_begin;
 
   // Keep p1 and p2 pointing to where they are. Use the next soonest point for
-- 
2.43.0


From 51144e1d808c1edd6d57899623dbf99d12148947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:09 +0000
Subject: [PATCH 21/23] fix: look at all of chain2 before declaring the
 vertices collinear

---
 include/walnut/orienting_monotone_decomposer.h | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/include/walnut/orienting_monotone_decomposer.h b/include/walnut/orienting_monotone_decomposer.h
index a718476..f1ceb81 100644
--- a/include/walnut/orienting_monotone_decomposer.h
+++ b/include/walnut/orienting_monotone_decomposer.h
@@ -218,20 +218,15 @@ bool OrientingMonotoneDecomposer<Point3RepTemplate>::DetectOrientation(
   // Keep looping until a non-collinear vertex is found, or all of the
   // vertices in both chains are consumed.
   while (true) {
-    // Entries are preferentially taken from chain1, and both chains contain
-    // the max element. So as long as chain1 is not completely consumed,
-    // chain2 still contains at least the max element.
-    if (chain1_pos == chain1_end) {
-      // Chain1 was completely consumed, which means only the maximum vertex
-      // remains in chain2. All of the vertices were collinear.
-#ifndef NDEBUG
-      ++chain2_pos;
-      assert(chain2_pos == chain2_end);
-#endif
+    // Entries are preferentially taken from chain1. After chain1 is completely
+    // consumed, chain2 still contains the maximum vertex, possibly preceded by
+    // other vertices with the same component in the monotone dimension.
+    if (chain1_pos == chain1_end && chain2_pos == chain2_end) {
+      // All of the vertices were collinear.
       return false;
     }
     assert(chain2_pos != chain2_end);
-    const bool chain1_is_current =
+    const bool chain1_is_current = chain1_pos != chain1_end &&
       chain1_pos->CompareComponent(monotone_dimension, *chain2_pos) <= 0;
     const Point3Rep& current = chain1_is_current ? *chain1_pos : *chain2_pos;
     const BigIntWord twist =
-- 
2.43.0


From ed0656d5dcf71686c11600d4cf56a00ec05183ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:26 +0000
Subject: [PATCH 22/23] fix: do not merge triangles into a polygon that would
 not be convex

---
 include/walnut/monotone_decomposer.h | 33 +++++++++++++++++++---------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/include/walnut/monotone_decomposer.h b/include/walnut/monotone_decomposer.h
index 408250c..787953f 100644
--- a/include/walnut/monotone_decomposer.h
+++ b/include/walnut/monotone_decomposer.h
@@ -105,33 +105,46 @@ class MonotoneDecomposer : public MonotoneTriangulator<Point3RepTemplate> {
 
   void EmitTriangle(bool p3_is_top_chain, const Point3Rep& p1,
                     const Point3Rep& p2, const Point3Rep& p3) override {
+    if (p1 == p2 || p3 == (p3_is_top_chain ? p2 : p1)) {
+      // The triangle has no area, because one of its vertices is in both
+      // chains.
+      return;
+    }
     if (!convex_top_.empty()) {
       assert(!convex_bottom_.empty());
+      if (p3 == (p3_is_top_chain ? p1 : p2)) {
+        // The triangle has no area, because the chain repeats a vertex.
+        return;
+      }
       if (convex_top_.back() == p1 && convex_bottom_.back() == p2) {
+        const int triangle_orientation =
+          p2.Get2DTwistDirReduced(drop_dimension_, p1, p3);
         bool set_orientation = false;
         if (orientation_ == 0) {
           set_orientation = true;
-          orientation_ = p2.Get2DTwistDirReduced(drop_dimension_, p1, p3);
+          orientation_ = triangle_orientation;
         }
         // For non-self-intersecting polygons, orientation_ will always be 0 or
         // -1. However for self-intersecting polygons, the triangulator can
         // produce flipped triangles, in which case orientation_ will be 1.
-        const Point3Rep& prev_top = convex_top_.size() > 1 ?
+        // The first 2 vertices of a chain are allowed to be equal.
+        const Point3Rep& prev_top =
+          convex_top_.size() > 1 && convex_top_.end()[-2] != p1 ?
           convex_top_.end()[-2] : convex_bottom_.front();
-        const Point3Rep& prev_bottom = convex_bottom_.size() > 1 ?
+        const Point3Rep& prev_bottom =
+          convex_bottom_.size() > 1 && convex_bottom_.end()[-2] != p2 ?
           convex_bottom_.end()[-2] : convex_top_.front();
-        if (p1.Get2DTwistDir(drop_dimension_, prev_top, p3) *
+        // Merging a triangle whose orientation is the opposite of the existing
+        // vertices would make p3 reflex.
+        if (triangle_orientation * orientation_ >= 0 &&
+            p1.Get2DTwistDir(drop_dimension_, prev_top, p3) *
               orientation_ <= 0 &&
             p2.Get2DTwistDir(drop_dimension_, prev_bottom, p3) *
               orientation_ >= 0) {
           if (p3_is_top_chain) {
-            if (p1 != p3) {
-              convex_top_.push_back(p3);
-            }
+            convex_top_.push_back(p3);
           } else {
-            if (p2 != p3) {
-              convex_bottom_.push_back(p3);
-            }
+            convex_bottom_.push_back(p3);
           }
           return;
         }
-- 
2.43.0


From 6c436a6366d5938da667e95477dc033075a11c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:44 +0000
Subject: [PATCH 23/23] fix: split off a triangle when no vertex fits into the
 second chain

---
 include/walnut/monotone_range.h | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/include/walnut/monotone_range.h b/include/walnut/monotone_range.h
index 884996e..95ea334 100644
--- a/include/walnut/monotone_range.h
+++ b/include/walnut/monotone_range.h
@@ -251,6 +251,11 @@ inline void MonotoneRange<Point3Iterator>::Build(
   Point3Iterator range_end = remaining_end;
   --remaining_end;
 
+  // The position of the last vertex, and the position of the second vertex.
+  const Point3Iterator last = remaining_end;
+  Point3Iterator after_first = remaining_begin;
+  ++after_first;
+
   // Step 1. determine chain_dir_.
   Point3Iterator range_begin = remaining_begin;
   chain_dir_ = MonotoneRange<Point3Iterator>::GetDir(monotone_dimension,
@@ -367,10 +372,29 @@ inline void MonotoneRange<Point3Iterator>::Build(
   }
   chain2_.Append(remaining_end, range_end);
 
-  if (remaining_begin != remaining_end) {
-    --remaining_begin;
-    ++remaining_end;
+  if (remaining_begin == remaining_end) return;
+
+  if (remaining_begin == after_first && remaining_end == last) {
+    // The first and last vertices of the input range are the maximum and
+    // minimum of both chains, and none of the vertices between them fit into
+    // chain2_. That means the second vertex is strictly past the last vertex
+    // in the opposite direction of chain_dir_. Since nothing was removed from
+    // the input range, continuing with the remaining range would never end.
+    // Instead split off the triangle formed from the last, first, and second
+    // vertices.
+    range_begin = remaining_begin;
+    --range_begin;
+    ++remaining_begin;
+    chain1_.Clear();
+    chain1_.Append(after_first, remaining_begin);
+    chain1_.Append(remaining_end, range_end);
+    chain1_.Append(range_begin, after_first);
+    chain2_.Clear();
+    chain2_.Append(range_begin, remaining_begin);
   }
+
+  --remaining_begin;
+  ++remaining_end;
 }
 
 template <typename Point3Iterator>
-- 
2.43.0

