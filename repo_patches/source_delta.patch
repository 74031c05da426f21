From 9af3c5c3bdb08fa1950068c7f7f19e4455e1d937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:04 +0000
Subject: [PATCH 01/63] fix: keep the value when appending an element of the
 vector to itself

push_back and emplace_back moved the existing elements to the new buffer
before constructing the new one, so an argument referring to an element of
the same vector was read after it had been moved from.
---
 include/um2/stdlib/vector.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/um2/stdlib/vector.hpp b/include/um2/stdlib/vector.hpp
index 6560658..446c24f 100644
--- a/include/um2/stdlib/vector.hpp
+++ b/include/um2/stdlib/vector.hpp
@@ -362,8 +362,10 @@ Vector<T>::emplaceBackSlowPath(Args &&... args) noexcept -> Ptr
 {
   Vector<T> temp;
   temp.allocate(recommend(size() + 1));
+  // Construct the new element before relocating the others, since args may refer to an
+  // element of this vector.
+  um2::construct_at(temp._begin + size(), um2::forward<Args>(args)...);
   swapBuffers(temp);
-  um2::construct_at(_end, um2::forward<Args>(args)...);
   ++_end;
   return _end;
 }
@@ -376,8 +378,10 @@ Vector<T>::pushBackSlowPath(U && value) noexcept -> Ptr
 {
   Vector<T> temp;
   temp.allocate(recommend(size() + 1));
+  // Construct the new element before relocating the others, since value may refer to an
+  // element of this vector.
+  um2::construct_at(temp._begin + size(), um2::forward<U>(value));
   swapBuffers(temp);
-  um2::construct_at(_end, um2::forward<U>(value));
   ++_end;
   return _end;
 }
-- 
2.43.0


From 804618611a8b1ad4f2b4e360e72ea2c56af81d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:04 +0000
Subject: [PATCH 02/63] fix: do not pass null pointers to memcpy for empty
 ranges

---
 include/um2/stdlib/algorithm/copy.hpp | 4 ++++
 include/um2/stdlib/vector.hpp         | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/um2/stdlib/algorithm/copy.hpp b/include/um2/stdlib/algorithm/copy.hpp
index c10ccd9..c6ae948 100644
--- a/include/um2/stdlib/algorithm/copy.hpp
+++ b/include/um2/stdlib/algorithm/copy.hpp
@@ -53,6 +53,10 @@ copy(InputIt first, InputIt last, OutputIt d_first) noexcept -> OutputIt
     // Since d_first in [first, last) is undefined, we can do better than memmove,
     // we can use memcpy.
     auto const n = static_cast<size_t>(last - first);
+    // memcpy must not be given a null pointer, even if there is nothing to copy
+    if (n == 0) {
+      return d_first;
+    }
     ASSERT(!is_pointer_in_range(first, last, d_first));
     ASSERT(!is_pointer_in_range(first, last, d_first + n));
     return static_cast<OutputIt>(memcpy(d_first, first, n * sizeof(InT))) + n;
diff --git a/include/um2/stdlib/vector.hpp b/include/um2/stdlib/vector.hpp
index 446c24f..15a3802 100644
--- a/include/um2/stdlib/vector.hpp
+++ b/include/um2/stdlib/vector.hpp
@@ -413,7 +413,10 @@ Vector<T>::swapBuffers(Vector & v) noexcept
   // can use memcpy to move the objects
   if constexpr (std::is_trivially_move_constructible_v<T> &&
                 std::is_trivially_destructible_v<T>) {
-    memcpy(pnew, pold, static_cast<size_t>(size()) * sizeof(T));
+    // memcpy must not be given a null pointer, even if there is nothing to copy
+    if (!empty()) {
+      memcpy(pnew, pold, static_cast<size_t>(size()) * sizeof(T));
+    }
   } else {
     for (; pold != _end; ++pold, ++pnew) {
       um2::construct_at(pnew, um2::move(*pold));
-- 
2.43.0


From 7da69d050321b2dc732152004c38b1d0cff61aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:04 +0000
Subject: [PATCH 03/63] fix: allow copying a range to the memory directly in
 front of it

The overlap assertion tested the end of the destination range instead of its
last element, so adjacent ranges were rejected.
---
 include/um2/stdlib/algorithm/copy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/um2/stdlib/algorithm/copy.hpp b/include/um2/stdlib/algorithm/copy.hpp
index c6ae948..358967c 100644
--- a/include/um2/stdlib/algorithm/copy.hpp
+++ b/include/um2/stdlib/algorithm/copy.hpp
@@ -58,7 +58,7 @@ copy(InputIt first, InputIt last, OutputIt d_first) noexcept -> OutputIt
       return d_first;
     }
     ASSERT(!is_pointer_in_range(first, last, d_first));
-    ASSERT(!is_pointer_in_range(first, last, d_first + n));
+    ASSERT(!is_pointer_in_range(first, last, d_first + (n - 1)));
     return static_cast<OutputIt>(memcpy(d_first, first, n * sizeof(InT))) + n;
   } else {
     return copyLoop(first, last, d_first);
-- 
2.43.0


From 7fbed155607f601e1db60e63f81bbec444877cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:23 +0000
Subject: [PATCH 04/63] fix: allow empty strings and empty string views

Assigning, comparing or appending an empty string, and matching against an
empty prefix or suffix, terminated the program in builds with assertions.
---
 include/um2/stdlib/string.hpp      | 4 ++--
 include/um2/stdlib/string_view.hpp | 9 +++------
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/um2/stdlib/string.hpp b/include/um2/stdlib/string.hpp
index fb91d59..0588aa5 100644
--- a/include/um2/stdlib/string.hpp
+++ b/include/um2/stdlib/string.hpp
@@ -488,7 +488,7 @@ String::fitsInShort(uint64_t n) noexcept -> bool
 HOSTDEV inline void
 String::init(ConstPtr s, uint64_t size) noexcept
 {
-  ASSERT(s != nullptr);
+  ASSERT(s != nullptr || size == 0);
   Ptr p = nullptr;
   // GCC warns about wraparound here, but it should not be possible
   ASSERT_ASSUME(size < INT32_MAX);
@@ -853,7 +853,7 @@ HOSTDEV inline auto
 String::append(char const * s, Int n) -> String &
 {
   ASSERT(s != nullptr);
-  ASSERT(n > 0);
+  ASSERT(n >= 0);
   Int const cap = capacity(); // not including null terminator
   Int sz = size();
   Int const remaining = cap - sz;
diff --git a/include/um2/stdlib/string_view.hpp b/include/um2/stdlib/string_view.hpp
index 95bacd8..30fa228 100644
--- a/include/um2/stdlib/string_view.hpp
+++ b/include/um2/stdlib/string_view.hpp
@@ -227,8 +227,7 @@ HOSTDEV constexpr StringView::StringView(char const * s, uint64_t size) noexcept
     : _data(s),
       _size(size)
 {
-  ASSERT(s != nullptr);
-  ASSERT(size > 0);
+  ASSERT(s != nullptr || size == 0);
 }
 
 HOSTDEV constexpr StringView::StringView(char const * s) noexcept
@@ -236,16 +235,14 @@ HOSTDEV constexpr StringView::StringView(char const * s) noexcept
       _size(strlen(s))
 {
   ASSERT(s != nullptr);
-  ASSERT(_size > 0);
 }
 
 HOSTDEV constexpr StringView::StringView(char const * begin, char const * end) noexcept
     : _data(begin),
       _size(static_cast<uint64_t>(end - begin))
 {
-  ASSERT(begin != nullptr);
-  ASSERT(end != nullptr);
-  ASSERT(_size > 0);
+  ASSERT(begin != nullptr || begin == end);
+  ASSERT(begin <= end);
 }
 
 //==============================================================================
-- 
2.43.0


From 6f6cdab2f6eebc29a750c5bbec6aca7d1c9a384b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:23 +0000
Subject: [PATCH 05/63] fix: make room for every float when converting it to a
 string

Values of magnitude 1e25 and above did not fit the conversion buffer. The
program terminated, or read past the buffer when assertions were disabled.
---
 include/um2/stdlib/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/um2/stdlib/string.hpp b/include/um2/stdlib/string.hpp
index 0588aa5..8afe579 100644
--- a/include/um2/stdlib/string.hpp
+++ b/include/um2/stdlib/string.hpp
@@ -673,7 +673,7 @@ inline String::String(int64_t t) noexcept
 template <>
 inline String::String(float t) noexcept
 {
-  char buf[32];
+  char buf[64]; // FLT_MAX has 39 digits before the decimal point
   auto const d = static_cast<double>(t);
   int32_t const len = snprintf(nullptr, 0, "%f", d);
   int32_t const written = snprintf(buf, sizeof(buf), "%f", d);
@@ -684,7 +684,7 @@ inline String::String(float t) noexcept
 template <>
 inline String::String(double t) noexcept
 {
-  char buf[32];
+  char buf[336]; // DBL_MAX has 309 digits before the decimal point
   int32_t const len = snprintf(nullptr, 0, "%f", t);
   int32_t const written = snprintf(buf, sizeof(buf), "%f", t);
   ASSERT(written == len);
-- 
2.43.0


From d945ec9d0563272f1a4dfd74a4cff9d31cda4f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:36 +0000
Subject: [PATCH 06/63] fix: order strings by unsigned byte value

Strings with bytes above 0x7f sorted before plain ASCII strings, unlike
std::memcmp and std::string.
---
 include/um2/stdlib/cstring/memcmp.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/um2/stdlib/cstring/memcmp.hpp b/include/um2/stdlib/cstring/memcmp.hpp
index 5d5d428..b2ebd4b 100644
--- a/include/um2/stdlib/cstring/memcmp.hpp
+++ b/include/um2/stdlib/cstring/memcmp.hpp
@@ -9,12 +9,16 @@ template <class T, class U>
 PURE HOSTDEV [[nodiscard]] constexpr auto
 memcmp(T const * lhs, U const * rhs, uint64_t n) -> int
 {
+  static_assert(sizeof(T) == 1 && sizeof(U) == 1);
   auto count = n;
   while (count != 0) {
-    if (*lhs < *rhs) {
+    // Compare as unsigned char, like std::memcmp
+    auto const l = static_cast<unsigned char>(*lhs);
+    auto const r = static_cast<unsigned char>(*rhs);
+    if (l < r) {
       return -1;
     }
-    if (*rhs < *lhs) {
+    if (r < l) {
       return 1;
     }
     --count;
-- 
2.43.0


From 8006a37c4df4c9b8f5d71364cddf0b183ec6aa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:37 +0000
Subject: [PATCH 07/63] fix: accept blank lines when parsing a lattice from
 text

A line of spaces ended the parse early, so the rows after it were dropped.
Trailing new lines terminated the program in builds with assertions.
---
 include/um2/common/string_to_lattice.hpp | 26 ++++++++----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/include/um2/common/string_to_lattice.hpp b/include/um2/common/string_to_lattice.hpp
index c4e23f3..03560c8 100644
--- a/include/um2/common/string_to_lattice.hpp
+++ b/include/um2/common/string_to_lattice.hpp
@@ -17,14 +17,18 @@ stringToLattice(String const & str, char const delimiter = ' ') -> Vector<Vector
 {
   Vector<Vector<T>> result;
 
-  // Remove leading spaces
   StringView str_view(str);
-  str_view.removeLeadingSpaces();
 
   // For each new line
-  StringView line = str_view.getTokenAndShrink('\n');
-  line.removeLeadingSpaces();
-  while (!line.empty()) {
+  while (!str_view.empty()) {
+    StringView line = str_view.getTokenAndShrink('\n');
+    if (line.empty()) {
+      break; // Only new lines are left
+    }
+    line.removeLeadingSpaces();
+    if (line.empty()) {
+      continue; // Skip lines which are all spaces
+    }
     Vector<T> line_vec;
 
     // For each token in the line
@@ -39,20 +43,8 @@ stringToLattice(String const & str, char const delimiter = ' ') -> Vector<Vector
     }
     // Add the line to the result
     result.emplace_back(um2::move(line_vec));
-
-    // Get the next line
-    line = str_view.getTokenAndShrink('\n');
-    line.removeLeadingSpaces();
   }
 
-#if UM2_ENABLE_ASSERTS
-  str_view.removeLeadingSpaces();
-  bool const last_line_empty = str_view.empty();
-  bool const last_line_has_more_values =
-      str_view.find_first_not_of(delimiter) == StringView::npos;
-  ASSERT(last_line_empty || last_line_has_more_values);
-#endif
-
   return result;
 }
 
-- 
2.43.0


From 7f6392953dd164ad86ad72cde47f1d66667ad29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:06 +0000
Subject: [PATCH 08/63] fix: compute every column of a product of small
 non-square matrices

The loop ran over the inner dimension instead of the columns of the result.
---
 include/um2/math/mat.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/um2/math/mat.hpp b/include/um2/math/mat.hpp
index 7f00676..94a26ec 100644
--- a/include/um2/math/mat.hpp
+++ b/include/um2/math/mat.hpp
@@ -234,11 +234,11 @@ template <Int M, Int N, Int P, typename T>
 PURE HOSTDEV constexpr auto
 operator*(Mat<M, N, T> const & a, Mat<N, P, T> const & b) noexcept -> Mat<M, P, T>
 {
-// False positive warning for uninitialized variable, since N > 0
+// False positive warning for uninitialized variable, since P > 0
 #pragma GCC diagnostic push
 #pragma GCC diagnostic ignored "-Wuninitialized"
   Mat<M, P, T> result;
-  for (Int i = 0; i < N; ++i) {
+  for (Int i = 0; i < P; ++i) {
     result.col(i) = a * b.col(i);
   }
   return result;
-- 
2.43.0


From 5928a39d87dd12538f963e5eca5a9f4cb91cca7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:06 +0000
Subject: [PATCH 09/63] fix: overwrite the output in matrix multiplication
 without BLAS

The portable version added the product to what the output held before.
---
 include/um2/math/matrix.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/um2/math/matrix.hpp b/include/um2/math/matrix.hpp
index e8b7c35..afb7697 100644
--- a/include/um2/math/matrix.hpp
+++ b/include/um2/math/matrix.hpp
@@ -477,6 +477,7 @@ matmul(Matrix<T> & c, Matrix<T> const & a, Matrix<T> const & b)
 
   for (Int i = 0; i < a.rows(); ++i) {
     for (Int j = 0; j < b.cols(); ++j) {
+      c(i, j) = static_cast<T>(0);
       for (Int k = 0; k < a.cols(); ++k) {
         c(i, j) += a(i, k) * b(k, j);
       }
-- 
2.43.0


From f07daa3805bc1a7500bab972b8292011ff9c9beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:51 +0000
Subject: [PATCH 10/63] fix: clip rays that run along a side of a box correctly

---
 include/um2/geometry/axis_aligned_box.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/um2/geometry/axis_aligned_box.hpp b/include/um2/geometry/axis_aligned_box.hpp
index fb21bc1..ffefb4f 100644
--- a/include/um2/geometry/axis_aligned_box.hpp
+++ b/include/um2/geometry/axis_aligned_box.hpp
@@ -286,8 +286,10 @@ AxisAlignedBox<D, T>::intersect(Ray<D, T> const & ray) const noexcept -> Vec2<T>
   Vec<D, T> const vt1 = (minima() - ray.origin()) * inv_dir;
   Vec<D, T> const vt2 = (maxima() - ray.origin()) * inv_dir;
   for (Int i = 0; i < D; ++i) {
-    tmin = um2::min(um2::max(vt1[i], tmin), um2::max(vt2[i], tmin));
-    tmax = um2::max(um2::min(vt1[i], tmax), um2::min(vt2[i], tmax));
+    // If the ray lies in the plane of a side, vt1 or vt2 is 0 * inf = NaN. Keep tmin and
+    // tmax as the first argument, since it is the one returned when the other is NaN.
+    tmin = um2::min(um2::max(tmin, vt1[i]), um2::max(tmin, vt2[i]));
+    tmax = um2::max(um2::min(tmax, vt1[i]), um2::min(tmax, vt2[i]));
   }
   return tmin <= tmax ? Vec2<T>(tmin, tmax) : Vec2<T>(-1, -1); // -1 indicates a miss
 }
@@ -303,8 +305,10 @@ AxisAlignedBox<D, T>::intersect(Ray<D, T> const & ray,
   Vec<D, T> const vt1 = (minima() - ray.origin()) * inv_dir;
   Vec<D, T> const vt2 = (maxima() - ray.origin()) * inv_dir;
   for (Int i = 0; i < D; ++i) {
-    tmin = um2::min(um2::max(vt1[i], tmin), um2::max(vt2[i], tmin));
-    tmax = um2::max(um2::min(vt1[i], tmax), um2::min(vt2[i], tmax));
+    // If the ray lies in the plane of a side, vt1 or vt2 is 0 * inf = NaN. Keep tmin and
+    // tmax as the first argument, since it is the one returned when the other is NaN.
+    tmin = um2::min(um2::max(tmin, vt1[i]), um2::max(tmin, vt2[i]));
+    tmax = um2::max(um2::min(tmax, vt1[i]), um2::min(tmax, vt2[i]));
   }
   return tmin <= tmax ? Vec2<T>(tmin, tmax) : Vec2<T>(-1, -1); // -1 indicates a miss
 }
-- 
2.43.0


From a059d7ab3ce122c8740042375c2f11f38caa19f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:45 +0000
Subject: [PATCH 11/63] fix: find the closest point on straight quadratic
 segments with an off-centre vertex

---
 include/um2/geometry/quadratic_segment.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/um2/geometry/quadratic_segment.hpp b/include/um2/geometry/quadratic_segment.hpp
index 47b58ec..eada545 100644
--- a/include/um2/geometry/quadratic_segment.hpp
+++ b/include/um2/geometry/quadratic_segment.hpp
@@ -413,7 +413,15 @@ QuadraticSegment<D, T>::pointClosestTo(Point<D, T> const & p) const noexcept ->
 {
 
   if (isStraight(*this)) {
-    return LineSegment<D, T>(_v[0], _v[1]).pointClosestTo(p);
+    T const t = LineSegment<D, T>(_v[0], _v[1]).pointClosestTo(p);
+    // Unless v[2] is the midpoint, Q(r) moves along the line with varying speed.
+    // Find r such that Q(r) = v[0] + t(v[1] - v[0]), or
+    // (1 - b)r² + br - t = 0, where b = 4x - 1 and x is the position of v[2] on the line.
+    Vec<D, T> const v01 = _v[1] - _v[0];
+    T const b = 4 * (_v[2] - _v[0]).dot(v01) / v01.squaredNorm() - 1;
+    T const root = um2::sqrt(um2::max(b * b + 4 * (1 - b) * t, static_cast<T>(0)));
+    T const r = b > 0 ? 2 * t / (b + root) : (root - b) / (2 * (1 - b));
+    return um2::clamp(r, static_cast<T>(0), static_cast<T>(1));
   }
 
   // The interpolation function of the quadratic segment is
-- 
2.43.0


From 58219f3f1433d75374729a6b241551b724635090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:24 +0000
Subject: [PATCH 12/63] fix: compute the length of nearly straight quadratic
 segments without cancellation

---
 include/um2/geometry/quadratic_segment.hpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/um2/geometry/quadratic_segment.hpp b/include/um2/geometry/quadratic_segment.hpp
index eada545..4e36aab 100644
--- a/include/um2/geometry/quadratic_segment.hpp
+++ b/include/um2/geometry/quadratic_segment.hpp
@@ -351,10 +351,26 @@ QuadraticSegment<D, T>::length() const noexcept -> T
   T const sa = um2::sqrt(a);
   T const sc = um2::sqrt(c);
   T const sabc = um2::sqrt(a + b + c);
-  T const disc = quadraticDiscriminant(a, b, c);
   T const a2b = 2 * a + b;
-  T const num = disc * um2::log((2 * sa * sc + b) / (2 * sa * sabc + a2b)) +
-                sa * (2 * (a2b * sabc - b * sc));
+  T num = sa * (2 * (a2b * sabc - b * sc));
+  // -disc = 4ac - b² = 16‖x1 × x2‖²
+  auto const cp = x1.cross(x2);
+  T neg_disc = 16;
+  if constexpr (D == 2) {
+    neg_disc *= cp * cp;
+  } else {
+    neg_disc *= cp.squaredNorm();
+  }
+  // If x1 and x2 are (nearly) parallel, then 2 * sa * sc + b or 2 * sa * sabc + a2b can
+  // vanish due to cancellation. Avoid this using u + v = (u² - v²) / (u - v), where
+  // u² - v² = -disc in both cases.
+  if (neg_disc > 0) {
+    T const u0 = 2 * sa * sc;
+    T const u1 = 2 * sa * sabc;
+    T const x = b < 0 ? neg_disc / (u0 - b) : u0 + b;
+    T const y = a2b < 0 ? neg_disc / (u1 - a2b) : u1 + a2b;
+    num -= neg_disc * um2::log(x / y);
+  }
   T const den = 8 * sa * sa * sa;
   T const result = num / den;
   ASSERT(0 <= result);
-- 
2.43.0


From d431b85628cd30ba1e0429204e8c8e32163e42d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:21 +0000
Subject: [PATCH 13/63] fix: swap all edges when flipping a quadratic
 quadrilateral

---
 include/um2/geometry/quadratic_quadrilateral.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/um2/geometry/quadratic_quadrilateral.hpp b/include/um2/geometry/quadratic_quadrilateral.hpp
index e2d4bab..2640bf0 100644
--- a/include/um2/geometry/quadratic_quadrilateral.hpp
+++ b/include/um2/geometry/quadratic_quadrilateral.hpp
@@ -273,6 +273,7 @@ QuadraticQuadrilateral<D, T>::flip() noexcept
 {
   um2::swap(_v[1], _v[3]);
   um2::swap(_v[4], _v[7]);
+  um2::swap(_v[5], _v[6]);
 }
 
 //==============================================================================
-- 
2.43.0


From fb6282275342b2cc7dbae37691fbe8e77b250578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:22 +0000
Subject: [PATCH 14/63] fix: swap all edges when flipping a quadratic
 quadrilateral mesh face

---
 include/um2/mesh/face_vertex_mesh.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/um2/mesh/face_vertex_mesh.hpp b/include/um2/mesh/face_vertex_mesh.hpp
index 8a35846..b7944f0 100644
--- a/include/um2/mesh/face_vertex_mesh.hpp
+++ b/include/um2/mesh/face_vertex_mesh.hpp
@@ -422,6 +422,7 @@ FaceVertexMesh<P, N>::flipFace(Int i) noexcept
   } else if constexpr (P == 2 && N == 8) {
     um2::swap(_fv[i][1], _fv[i][3]);
     um2::swap(_fv[i][4], _fv[i][7]);
+    um2::swap(_fv[i][5], _fv[i][6]);
   }
 }
 
-- 
2.43.0


From 36eea8beac5a85fc609f7126a92acaae1853734f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:52 +0000
Subject: [PATCH 15/63] fix: sort the intersections of a ray with a quadratic
 segment

---
 include/um2/geometry/quadratic_segment.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/um2/geometry/quadratic_segment.hpp b/include/um2/geometry/quadratic_segment.hpp
index 4e36aab..75ab1f2 100644
--- a/include/um2/geometry/quadratic_segment.hpp
+++ b/include/um2/geometry/quadratic_segment.hpp
@@ -721,6 +721,10 @@ QuadraticSegment<D, T>::intersect(Ray2<T> const ray,
       }
     }
   }
+  // The roots are sorted by s, not r.
+  if (hits == 2 && buffer[1] < buffer[0]) {
+    um2::swap(buffer[0], buffer[1]);
+  }
   return hits;
 }
 
-- 
2.43.0


From 7cc7ee715a51a2c0c7a0c6f4be1afa322230c9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:38 +0000
Subject: [PATCH 16/63] fix: compare squared distances to a squared tolerance
 when intersecting quadratic segments

---
 include/um2/geometry/quadratic_segment.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/um2/geometry/quadratic_segment.hpp b/include/um2/geometry/quadratic_segment.hpp
index 75ab1f2..9631d1d 100644
--- a/include/um2/geometry/quadratic_segment.hpp
+++ b/include/um2/geometry/quadratic_segment.hpp
@@ -784,8 +784,9 @@ intersect(QuadraticSegment2<T> const & q1, QuadraticSegment2<T> const & q2,
 
     // This has to be fuzzy, since we incur floating point errors as we bisect the
     // segment.
-    auto constexpr err_tol = 100 * epsDistance<T>();
-    if (err_next < err_tol && -err_tol <= rs[0] && rs[0] <= 1 + err_tol &&
+    auto constexpr eps = epsDistance<T>();
+    auto constexpr err_tol = 100 * eps;
+    if (err_next < eps * eps && -err_tol <= rs[0] && rs[0] <= 1 + err_tol &&
         -err_tol <= rs[1] && rs[1] <= 1 + err_tol) {
       *buffer = q1(rs[0]);
       return 1;
@@ -876,8 +877,9 @@ intersects(QuadraticSegment2<T> const & q1, QuadraticSegment2<T> const & q2,
 
     // This has to be fuzzy, since we incur floating point errors as we bisect the
     // segment.
-    auto constexpr err_tol = 100 * epsDistance<T>();
-    return (err_next < err_tol && -err_tol <= rs[0] && rs[0] <= 1 + err_tol &&
+    auto constexpr eps = epsDistance<T>();
+    auto constexpr err_tol = 100 * eps;
+    return (err_next < eps * eps && -err_tol <= rs[0] && rs[0] <= 1 + err_tol &&
             -err_tol <= rs[1] && rs[1] <= 1 + err_tol);
   }
 
-- 
2.43.0


From 9e05baf8623dba82036a3ef66f7114d14c86a323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:38 +0000
Subject: [PATCH 17/63] fix: keep bisecting quadratic segments when Newton's
 method does not converge

---
 include/um2/geometry/quadratic_segment.hpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/um2/geometry/quadratic_segment.hpp b/include/um2/geometry/quadratic_segment.hpp
index 9631d1d..7668ddc 100644
--- a/include/um2/geometry/quadratic_segment.hpp
+++ b/include/um2/geometry/quadratic_segment.hpp
@@ -772,7 +772,7 @@ intersect(QuadraticSegment2<T> const & q1, QuadraticSegment2<T> const & q2,
 #pragma GCC diagnostic ignored "-Wfloat-equal"
       // NOLINTNEXTLINE(clang-diagnostic-float-equal)
       if (det == 0) {
-        return 0;
+        break;
       }
 #pragma GCC diagnostic pop
       Mat2x2<T> const inv_jac(Vec2<T>{d / det, -c / det}, Vec2<T>{-b / det, a / det});
@@ -791,7 +791,11 @@ intersect(QuadraticSegment2<T> const & q1, QuadraticSegment2<T> const & q2,
       *buffer = q1(rs[0]);
       return 1;
     }
-    return 0;
+    // Newton's method may leave the segments if they are not yet sufficiently straight.
+    // In that case, continue bisecting.
+    if (iters > 9) {
+      return 0;
+    }
   }
 
   // QuadraticSegment bisection:
@@ -865,7 +869,7 @@ intersects(QuadraticSegment2<T> const & q1, QuadraticSegment2<T> const & q2,
 #pragma GCC diagnostic ignored "-Wfloat-equal"
       // NOLINTNEXTLINE(clang-diagnostic-float-equal)
       if (det == 0) {
-        return false;
+        break;
       }
 #pragma GCC diagnostic pop
       Mat2x2<T> const inv_jac(Vec2<T>{d / det, -c / det}, Vec2<T>{-b / det, a / det});
@@ -879,8 +883,15 @@ intersects(QuadraticSegment2<T> const & q1, QuadraticSegment2<T> const & q2,
     // segment.
     auto constexpr eps = epsDistance<T>();
     auto constexpr err_tol = 100 * eps;
-    return (err_next < eps * eps && -err_tol <= rs[0] && rs[0] <= 1 + err_tol &&
-            -err_tol <= rs[1] && rs[1] <= 1 + err_tol);
+    if (err_next < eps * eps && -err_tol <= rs[0] && rs[0] <= 1 + err_tol &&
+        -err_tol <= rs[1] && rs[1] <= 1 + err_tol) {
+      return true;
+    }
+    // Newton's method may leave the segments if they are not yet sufficiently straight.
+    // In that case, continue bisecting.
+    if (iters > 9) {
+      return false;
+    }
   }
 
   // QuadraticSegment bisection:
-- 
2.43.0


From 1616491a85ac29f1da8841e07e7df52b9873b4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:03:16 +0000
Subject: [PATCH 18/63] fix: classify points on the chord of a curved quadratic
 segment by its curvature

---
 include/um2/geometry/quadratic_segment.hpp | 27 ++++++++++++++--------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/um2/geometry/quadratic_segment.hpp b/include/um2/geometry/quadratic_segment.hpp
index 7668ddc..461cc0a 100644
--- a/include/um2/geometry/quadratic_segment.hpp
+++ b/include/um2/geometry/quadratic_segment.hpp
@@ -567,16 +567,20 @@ QuadraticSegment<D, T>::isLeft(Point2<T> const p) const noexcept -> bool
   // segment and return simply based upon areCCW(v[0], v[1], p).
   Vec2<T> const bcp = getBezierControlPoint(*this);
   Triangle2<T> tri(_v[0], _v[1], bcp);
-  // precondition for tri.contains(p) is that tri.isCCW()
-  if (!tri.isCCW()) {
+  bool const tri_flipped = !tri.isCCW();
+  if (tri_flipped) {
     tri.flip();
   }
   ASSERT(tri.isCCW());
-  if (!tri.contains(p)) {
+  // The edge v[0]-v[1] is not tested here, since the curvature determines the result for
+  // points which are on that edge, up to floating point error.
+  bool const b0 = tri_flipped ? areCCW(tri[0], tri[1], p) : areCCW(tri[2], tri[0], p);
+  bool const b1 = areCCW(tri[1], tri[2], p);
+  if (!b0 || !b1) {
     return areCCW(_v[0], _v[1], p);
   }
 
-  // The point is in the bounding triangle, so we must perform further analysis.
+  // The point may be in the bounding triangle, so we must perform further analysis.
   // To make the math easier, we transform the coordinate system so that v[0] is at the
   // origin and v[1] is on the x-axis. In particular, we want v[1][0] > 0.
   QuadraticSegment2<T> q(Point2<T>(0, 0), _v[1] - _v[0], _v[2] - _v[0]);
@@ -596,8 +600,10 @@ QuadraticSegment<D, T>::isLeft(Point2<T> const p) const noexcept -> bool
     p_r[1] = -p_r[1];
   }
   ASSERT(q[2][1] >= 0);
-  // The point must be above the origin if it was in the bounding triangle.
-  ASSERT(p_r[1] >= 0);
+  // If the point is below the x-axis, it is not in the bounding triangle.
+  if (p_r[1] < 0) {
+    return !curves_right;
+  }
 
   // Now, since we may have flipped the y-coordinates, we will always need to
   // account for this when we return the result.
@@ -645,9 +651,12 @@ QuadraticSegment<D, T>::isLeft(Point2<T> const p) const noexcept -> bool
   auto const roots = solveQuadratic(ax, bx, -p_r[0]);
   // Only one root
   if (roots[1] > invalid_root) {
-    // We know the point is in the bounding triangle, so we expect r to be in [0, 1]
-    ASSERT(0 <= roots[0]);
-    ASSERT(roots[0] <= 1);
+    // No roots. The point is beside the segment, up to floating point error.
+    if (roots[0] > invalid_root) {
+      return curves_right;
+    }
+    // We know the point is in the bounding box, so we expect r to be in [0, 1], up to
+    // floating point error.
     T const qy = roots[0] * (by + roots[0] * ay);
     bool const is_left = p_r[1] >= qy;
     return curves_right ? is_left : !is_left;
-- 
2.43.0


From 9b9a919e96b5dcd889de31fd7f3a410823745027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:45 +0000
Subject: [PATCH 19/63] fix: construct a regular grid from an axis-aligned box

---
 include/um2/mesh/regular_grid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/um2/mesh/regular_grid.hpp b/include/um2/mesh/regular_grid.hpp
index 76f2a26..68d4095 100644
--- a/include/um2/mesh/regular_grid.hpp
+++ b/include/um2/mesh/regular_grid.hpp
@@ -165,8 +165,8 @@ HOSTDEV constexpr RegularGrid<D, T>::RegularGrid(Point<D, T> const & minima,
 template <Int D, class T>
 HOSTDEV constexpr RegularGrid<D, T>::RegularGrid(
     AxisAlignedBox<D, T> const & box) noexcept
-    : _minima(box.minima),
-      _spacing(box.maxima - box.minima)
+    : _minima(box.minima()),
+      _spacing(box.extents())
 {
   for (Int i = 0; i < D; ++i) {
     _num_cells[i] = 1;
-- 
2.43.0


From 1fc6b5ab28875b9ee725ca25b7d184604909a01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:11:22 +0000
Subject: [PATCH 20/63] fix: locate cells of a regular grid for points and
 boxes far outside of it

---
 include/um2/mesh/regular_grid.hpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/include/um2/mesh/regular_grid.hpp b/include/um2/mesh/regular_grid.hpp
index 68d4095..e28cdd0 100644
--- a/include/um2/mesh/regular_grid.hpp
+++ b/include/um2/mesh/regular_grid.hpp
@@ -364,23 +364,24 @@ RegularGrid<D, T>::getCellIndicesIntersecting(
     AxisAlignedBox<D, T> const & box) const noexcept -> Vec<2 * D, Int>
 {
   Vec<2 * D, Int> result;
-  Int const zero = 0;
+  T const zero = 0;
   for (Int i = 0; i < D; ++i) {
     // Determine how many cells over the min and max are, then floor to get the
-    // interger indices.
-    result[i] = static_cast<Int>(um2::floor((box.minima(i) - _minima[i]) / _spacing[i]));
-    result[i + D] =
-        static_cast<Int>(um2::floor((box.maxima(i) - _minima[i]) / _spacing[i]));
+    // index. Note that the floored value may not be representable as an integer, hence
+    // the range is checked prior to the conversion.
+    T const index_min = um2::floor((box.minima(i) - _minima[i]) / _spacing[i]);
+    T const index_max = um2::floor((box.maxima(i) - _minima[i]) / _spacing[i]);
+    auto const last = static_cast<T>(_num_cells[i] - 1);
     // If the result is invalid, set to -1 to indicate no intersection
     // If the min index is greater than the max index (_num_cell[i] - 1)
     // If the max index is less than the min index (0)
-    if (_num_cells[i] - 1 < result[i] || result[i + D] < 0) {
+    if (last < index_min || index_max < 0) {
       result[i] = -1;
       result[i + D] = -1;
     } else {
       // Clamp to the grid bounds, since at least one of the indices is valid
-      result[i] = um2::clamp(result[i], zero, _num_cells[i] - 1);
-      result[i + D] = um2::clamp(result[i + D], zero, _num_cells[i] - 1);
+      result[i] = static_cast<Int>(um2::clamp(index_min, zero, last));
+      result[i + D] = static_cast<Int>(um2::clamp(index_max, zero, last));
     }
   }
   return result;
@@ -392,15 +393,14 @@ RegularGrid<D, T>::getCellIndexContaining(Point<D, T> const & point) const noexc
     -> Vec<D, Int>
 {
   Vec<D, Int> result;
-  Int const zero = 0;
   for (Int i = 0; i < D; ++i) {
-    result[i] = static_cast<Int>(um2::floor((point[i] - _minima[i]) / _spacing[i]));
-    // If the result is invalid, set to -1
-    if (_num_cells[i] - 1 < result[i] || result[i] < 0) {
-      result[i] = -1;
+    T const index = um2::floor((point[i] - _minima[i]) / _spacing[i]);
+    // If the index is invalid, set to -1. Note that an invalid index may not be
+    // representable as an integer.
+    if (0 <= index && index <= static_cast<T>(_num_cells[i] - 1)) {
+      result[i] = static_cast<Int>(index);
     } else {
-      // Clamp to the grid bounds, since the index is valid
-      result[i] = um2::clamp(result[i], zero, _num_cells[i] - 1);
+      result[i] = -1;
     }
   }
   return result;
-- 
2.43.0


From 1281434c029866064773f238eddd6c7759f67eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:03 +0000
Subject: [PATCH 21/63] fix: do not leave stale data behind when getting an
 elset without data

---
 src/mesh/polytope_soup.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index f9af604..3f2948c 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -74,9 +74,7 @@ PolytopeSoup::getElset(Int const i, String & name, Vector<Int> & ids,
   auto const n = iend - istart;
   ids.resize(n);
   um2::copy(_elset_ids.cbegin() + istart, _elset_ids.cbegin() + iend, ids.begin());
-  if (!_elset_data[i].empty()) {
-    data = _elset_data[i];
-  }
+  data = _elset_data[i];
 }
 
 void
@@ -90,9 +88,7 @@ PolytopeSoup::getElset(String const & name, Vector<Int> & ids, Vector<Float> & d
       auto const n = iend - istart;
       ids.resize(n);
       um2::copy(_elset_ids.cbegin() + istart, _elset_ids.cbegin() + iend, ids.begin());
-      if (!_elset_data[i].empty()) {
-        data = _elset_data[i];
-      }
+      data = _elset_data[i];
       return;
     }
   }
-- 
2.43.0


From 01af84f5eb441bbce086d91534c60d856ca23d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:03 +0000
Subject: [PATCH 22/63] fix: allow sorting the elsets of a soup without elsets

---
 src/mesh/polytope_soup.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index 3f2948c..0dddb35 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -202,6 +202,9 @@ PolytopeSoup::sortElsets()
   // Create a vector that stores the name and index of each elset.
   using NameIndexPair = um2::Pair<String, Int>;
   Int const num_elsets = _elset_names.size();
+  if (num_elsets == 0) {
+    return;
+  }
   Vector<NameIndexPair> elset_name_index_pairs(num_elsets);
   for (Int i = 0; i < num_elsets; ++i) {
     elset_name_index_pairs[i] = NameIndexPair(_elset_names[i], i);
-- 
2.43.0


From 374464b7aaa829c1e335b8c7db0fbd882a748be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:03 +0000
Subject: [PATCH 23/63] fix: allow adding a polytope soup to itself

---
 src/mesh/polytope_soup.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index 0dddb35..f03eb52 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -256,6 +256,12 @@ auto
 // NOLINTNEXTLINE(readability-function-cognitive-complexity)
 PolytopeSoup::operator+=(PolytopeSoup const & other) noexcept -> PolytopeSoup &
 {
+  // The members of this are modified while the members of other are read
+  if (this == addressof(other)) {
+    PolytopeSoup const other_copy(other);
+    return *this += other_copy;
+  }
+
   // Vertices
   auto const this_num_verts = numVertices();
   auto const other_num_verts = other.numVertices();
-- 
2.43.0


From 09fcf274bd95bfd41492850bdc9da749c0448bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:03 +0000
Subject: [PATCH 24/63] fix: allow adding a polytope soup without elements

---
 src/mesh/polytope_soup.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index f03eb52..defba37 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -277,10 +277,12 @@ PolytopeSoup::operator+=(PolytopeSoup const & other) noexcept -> PolytopeSoup &
             _element_types.begin() + this_num_elems);
 
   // Element offsets
-  Int const last_offset = _element_offsets.empty() ? 0 : _element_offsets.back();
-  _element_offsets.resize(this_num_elems + other_num_elems + 1);
-  for (Int i = 0; i < other_num_elems + 1; ++i) {
-    _element_offsets[this_num_elems + i] = other._element_offsets[i] + last_offset;
+  if (other_num_elems > 0) {
+    Int const last_offset = _element_offsets.empty() ? 0 : _element_offsets.back();
+    _element_offsets.resize(this_num_elems + other_num_elems + 1);
+    for (Int i = 0; i < other_num_elems + 1; ++i) {
+      _element_offsets[this_num_elems + i] = other._element_offsets[i] + last_offset;
+    }
   }
 
   // Element connectivity
-- 
2.43.0


From ca028c40491e21e44f0b13d70a98507183718be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:24:48 +0000
Subject: [PATCH 25/63] fix: read back XDMF meshes made of quadratic edges

---
 src/mesh/polytope_soup.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index defba37..d636723 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -1651,6 +1651,8 @@ addElementsToSoup(Int const num_elements, String const & topology_type,
       elem_type = VTKElemType::Triangle;
     } else if (topology_type == "Quadrilateral") {
       elem_type = VTKElemType::Quad;
+    } else if (topology_type == "Edge_3") {
+      elem_type = VTKElemType::QuadraticEdge;
     } else if (topology_type == "Triangle_6") {
       elem_type = VTKElemType::QuadraticTriangle;
     } else if (topology_type == "Quadrilateral_8") {
-- 
2.43.0


From c8f3fd79543db3a01ed77218862dc6c7059ff878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:03 +0000
Subject: [PATCH 26/63] fix: keep the last id of an Abaqus element set list
 without a trailing comma

---
 src/mesh/polytope_soup.cpp | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index d636723..62ddbde 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -749,26 +749,19 @@ abaqusParseElsets(PolytopeSoup & soup, std::ifstream & file, char * const line,
     StringView line_view(line);
     // Add each element ID to the elset
     // Format: id, id, id, id, id,
-    // Note, line ends in ", " or ",", hence a meaningful token is always followed
-    // by a comma and is at least 2 characters long: ex "1," or "1, "
-    uint64_t comma = line_view.find_first_of(',');
-    ASSERT(comma > 0);
-    while (comma != StringView::npos) {
-      // token = "id"
-      StringView const token = line_view.substr(0, comma);
+    // Note, the line may end in ", ", ",", or the last id.
+    StringView token = line_view.getTokenAndShrink(',');
+    while (!token.empty()) {
       char * end = nullptr;
       Int const id = strto<Int>(token.data(), &end);
       ASSERT(end != nullptr);
-      ASSERT(id > 0);
-      elset_ids.emplace_back(id - 1); // ABAQUS is 1-indexed
-
-      // Done if there are not enough characters left for another id
-      if (line_view.size() <= comma + 2) {
+      // Done if only white space is left
+      if (end == token.data()) {
         break;
       }
-      // Otherwise, remove the token and the comma, and find the next comma
-      line_view.remove_prefix(comma + 1);
-      comma = line_view.find_first_of(',');
+      ASSERT(id > 0);
+      elset_ids.emplace_back(id - 1); // ABAQUS is 1-indexed
+      token = line_view.getTokenAndShrink(',');
     }
   }
   ASSERT(um2::is_sorted(elset_ids.cbegin(), elset_ids.cend()));
-- 
2.43.0


From 66dd7bf0b32dbc255f188083303cd72e8e2b6403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:20 +0000
Subject: [PATCH 27/63] fix: skip comment lines inside the sections of Abaqus
 files

---
 src/mesh/polytope_soup.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index 62ddbde..401d482 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -626,13 +626,30 @@ PolytopeSoup::getSubset(String const & elset_name, PolytopeSoup & subset) const
 namespace
 {
 
+// Get the next data line of a section. Returns false if a new section or the end of the
+// file was reached. Comment lines, which start with "**", are skipped.
+auto
+abaqusGetDataLine(std::ifstream & file, char * const line,
+                  uint64_t const max_line_length) -> bool
+{
+  auto const smax_line_length = static_cast<int64_t>(max_line_length);
+  while (file.getline(line, smax_line_length)) {
+    if (line[0] != '*') {
+      return true;
+    }
+    if (line[1] != '*') {
+      return false;
+    }
+  }
+  return false;
+}
+
 auto
 abaqusParseNodes(PolytopeSoup & soup, std::ifstream & file, char * const line,
                  uint64_t const max_line_length) -> StringView
 {
   // line starts with "*NODE"
-  auto const smax_line_length = static_cast<int64_t>(max_line_length);
-  while (file.getline(line, smax_line_length) && line[0] != '*') {
+  while (abaqusGetDataLine(file, line, max_line_length)) {
     StringView line_view(line);
     // Format: node_id, x, y, z
     // Skip ID
@@ -708,8 +725,7 @@ abaqusParseElements(PolytopeSoup & soup, std::ifstream & file, char * const line
   }
   Int const verts_per_elem = verticesPerElem(this_type);
   Vector<Int> conn(verticesPerElem(this_type));
-  auto const smax_line_length = static_cast<int64_t>(max_line_length);
-  while (file.getline(line, smax_line_length) && line[0] != '*') {
+  while (abaqusGetDataLine(file, line, max_line_length)) {
     StringView line_view(line);
     // For each element, read the element ID and the node IDs
     // Format: id, n1, n2, n3, n4, n5 ...
@@ -744,8 +760,7 @@ abaqusParseElsets(PolytopeSoup & soup, std::ifstream & file, char * const line,
   ASSERT(info_line_view.size() > 13);
   String const elset_name(info_line_view.substr(13, info_line_view.size() - 13));
   Vector<Int> elset_ids;
-  auto const smax_line_length = static_cast<int64_t>(max_line_length);
-  while (file.getline(line, smax_line_length) && line[0] != '*') {
+  while (abaqusGetDataLine(file, line, max_line_length)) {
     StringView line_view(line);
     // Add each element ID to the elset
     // Format: id, id, id, id, id,
-- 
2.43.0


From 61edce1dce83db43b5b6daa5665c2156d15d6f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:48 +0000
Subject: [PATCH 28/63] fix: read VTK points and cells independent of the line
 layout

---
 src/mesh/polytope_soup.cpp | 98 ++++++++++++--------------------------
 1 file changed, 31 insertions(+), 67 deletions(-)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index 401d482..0ff50be 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -893,79 +893,47 @@ vtkParseUnstructuredGrid(PolytopeSoup & soup, std::ifstream & file, char * const
   // line_view now just contains the data type
   ASSERT(line_view.starts_with("float") || line_view.starts_with("double"));
 
+  // Values are separated by white space, including line breaks. Hence, the layout of the
+  // lines is not significant.
+  char word[128];
+
   // Read the vertices
-  while (file.getline(line, smax_line_length)) {
-    if (line[0] == '\0') {
-      continue;
+  for (Int ipoint = 0; ipoint < num_points; ++ipoint) {
+    Point3F p;
+    for (Int i = 0; i < 3; ++i) {
+      file >> word;
+      ASSERT(file.good());
+      p[i] = strto<Float>(word, &end);
+      ASSERT(end != word);
     }
-    line_view = StringView(line);
-    if (line_view.starts_with("CELLS")) {
-      break;
-    }
-    // Format: x y z
-    // x
-    token = line_view.getTokenAndShrink();
-    ASSERT(!token.empty());
-    Float const x = strto<Float>(token.data(), &end);
-    ASSERT(end != nullptr);
-    end = nullptr;
-
-    // y
-    token = line_view.getTokenAndShrink();
-    ASSERT(!token.empty());
-    Float const y = strto<Float>(token.data(), &end);
-    ASSERT(end != nullptr);
-    end = nullptr;
-
-    // Only final token left of the form " zzzz\n"
-    Float const z = strto<Float>(line_view.data(), &end);
-    ASSERT(end != nullptr);
-    end = nullptr;
-    soup.addVertex(x, y, z);
+    soup.addVertex(p);
   }
 
-  // Line starts with "CELLS"
-  ASSERT(line_view.starts_with("CELLS"));
-  line_view.getTokenAndShrink(); // Remove "CELLS"
+  file >> word;
+  if (StringView(word) != "CELLS") {
+    LOG_ERROR("Expected CELLS");
+    return;
+  }
   // Get the number of cells and the length of the cell connectivity
-  token = line_view.getTokenAndShrink();
-  ASSERT(!token.empty());
-  Int const num_cells = strto<Int>(token.data(), &end);
-  ASSERT(end != nullptr);
-  end = nullptr;
+  Int num_cells = 0;
+  Int cell_conn_len = 0;
+  file >> num_cells >> cell_conn_len;
   ASSERT(num_cells > 0);
-#if UM2_ENABLE_ASSERTS
-  token = line_view.getTokenAndShrink();
-  ASSERT(!token.empty());
-  Int const cell_conn_len = strto<Int>(token.data(), &end);
-  ASSERT(end != nullptr);
-  end = nullptr;
   ASSERT(cell_conn_len > 0);
-#else
-  line_view.getTokenAndShrink();
-#endif
 
   // Read the cells
   // Since we only accept a few cell types, we try to infer the cell type from the
   // number of vertices per cell.
   Vector<Int> conn;
   for (Int icell = 0; icell < num_cells; ++icell) {
-    file.getline(line, smax_line_length);
-    line_view = StringView(line);
     // Format: num_verts v1 v2 v3 ...
-    // num_verts
-    token = line_view.getTokenAndShrink();
-    ASSERT(!token.empty());
-    Int const num_verts = strto<Int>(token.data(), &end);
-    ASSERT(end != nullptr);
-    end = nullptr;
+    Int num_verts = 0;
+    file >> num_verts;
     ASSERT(num_verts > 0);
     conn.resize(num_verts);
     for (Int i = 0; i < num_verts; ++i) {
-      token = line_view.getTokenAndShrink();
-      ASSERT(!token.empty());
-      Int const id = strto<Int>(token.data(), &end);
-      ASSERT(end != nullptr);
+      Int id = -1;
+      file >> id;
       ASSERT(id >= 0);
       ASSERT(id < num_points);
       conn[i] = id;
@@ -975,21 +943,17 @@ vtkParseUnstructuredGrid(PolytopeSoup & soup, std::ifstream & file, char * const
     soup.addElement(type, conn);
   }
 
-  // Skip the blank line
-  file.getline(line, smax_line_length);
-  ASSERT(line[0] == '\0');
-  file.getline(line, smax_line_length);
-  line_view = StringView(line);
-  if (!line_view.starts_with("CELL_TYPES")) {
+  file >> word;
+  if (StringView(word) != "CELL_TYPES") {
     LOG_ERROR("Expected CELL_TYPES");
     return;
   }
 
-  // Line starts with "CELL_TYPES"
-  // The next line is potentially VERY large, since MPACT outputs the cell type
-  // array with a simple WRITE(*,*) type of statement. We skip it.
-  file.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
-  ASSERT(file.good());
+  // The cell types have been inferred, so skip them and the number of them.
+  for (Int i = 0; i < num_cells + 1; ++i) {
+    file >> word;
+  }
+  ASSERT(!file.fail());
 } // vtkParseUnstructuredGrid
 
 void
-- 
2.43.0


From 0c9d9f235833938433878b961c5009657f188584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:15 +0000
Subject: [PATCH 29/63] fix: read exactly as many VTK cell values as the file
 has cells

---
 src/mesh/polytope_soup.cpp | 63 +++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 35 deletions(-)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index 0ff50be..7927c46 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -895,7 +895,7 @@ vtkParseUnstructuredGrid(PolytopeSoup & soup, std::ifstream & file, char * const
 
   // Values are separated by white space, including line breaks. Hence, the layout of the
   // lines is not significant.
-  char word[128];
+  char word[128] = {};
 
   // Read the vertices
   for (Int ipoint = 0; ipoint < num_points; ++ipoint) {
@@ -998,47 +998,40 @@ vtkParseCellData(PolytopeSoup & soup, std::ifstream & file, char * const line,
   file.getline(line, smax_line_length);
   ASSERT(StringView(line).starts_with("LOOKUP_TABLE"));
 
-  // Read the data
+  // Read the data. Values are separated by white space, including line breaks.
   Vector<Float> data(num_data);
   Vector<Int> ids(num_data);
   um2::iota(ids.begin(), ids.end(), 0);
-  Int data_ctr = 0;
-  while (file.getline(line, smax_line_length) && line[0] != '\0') {
-    line_view = StringView(line);
-    token = line_view.getTokenAndShrink();
-    while (!token.empty()) {
-      Float const value = strto<Float>(token.data(), &end);
-      ASSERT(end != nullptr);
-      end = nullptr;
-      // if the data type is not float, ensure the conversion was lossless
-      if (!is_float) {
-        int64_t const ivalue = strto<int64_t>(token.data(), &end);
-        ASSERT(end != nullptr);
-        end = nullptr;
-        if constexpr (std::same_as<Float, double>) {
-          // If Float == double, then the significand is 52 bits (excluding the sign bit)
-          // Hence, we can safely convert all integers less than 2^52 to double
-          int64_t constexpr max_int = 1LL << 52;
-          if (um2::abs(ivalue) > max_int) {
-            LOG_ERROR("Integer value ", ivalue, " is too large to be stored as a double");
-            return;
-          }
-        } else {
-          // If Float == float, then the significand is 23 bits (excluding the sign bit)
-          // Hence, we can safely convert all integers less than 2^23 to float
-          int64_t constexpr max_int = 1LL << 23;
-          if (um2::abs(ivalue) > max_int) {
-            LOG_ERROR("Integer value ", ivalue, " is too large to be stored as a float");
-            return;
-          }
+  char word[128] = {};
+  for (Int i = 0; i < num_data; ++i) {
+    file >> word;
+    ASSERT(!file.fail());
+    Float const value = strto<Float>(word, &end);
+    ASSERT(end != word);
+    // if the data type is not float, ensure the conversion was lossless
+    if (!is_float) {
+      int64_t const ivalue = strto<int64_t>(word, &end);
+      ASSERT(end != word);
+      if constexpr (std::same_as<Float, double>) {
+        // If Float == double, then the significand is 52 bits (excluding the sign bit)
+        // Hence, we can safely convert all integers less than 2^52 to double
+        int64_t constexpr max_int = 1LL << 52;
+        if (um2::abs(ivalue) > max_int) {
+          LOG_ERROR("Integer value ", ivalue, " is too large to be stored as a double");
+          return;
+        }
+      } else {
+        // If Float == float, then the significand is 23 bits (excluding the sign bit)
+        // Hence, we can safely convert all integers less than 2^23 to float
+        int64_t constexpr max_int = 1LL << 23;
+        if (um2::abs(ivalue) > max_int) {
+          LOG_ERROR("Integer value ", ivalue, " is too large to be stored as a float");
+          return;
         }
       }
-      data[data_ctr] = value;
-      ++data_ctr;
-      token = line_view.getTokenAndShrink();
     }
+    data[i] = value;
   }
-  ASSERT(data_ctr == num_data);
   // Add elset
   soup.addElset(data_name, ids, data);
 }
-- 
2.43.0


From 2006aab6dbd6618ee4689e21c511046c1c931500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:53 +0000
Subject: [PATCH 30/63] fix: read every data set of a VTK cell data section

---
 src/mesh/polytope_soup.cpp | 40 ++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index 7927c46..a4eeacf 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -958,31 +958,15 @@ vtkParseUnstructuredGrid(PolytopeSoup & soup, std::ifstream & file, char * const
 
 void
 // NOLINTNEXTLINE(readability-function-cognitive-complexity)
-vtkParseCellData(PolytopeSoup & soup, std::ifstream & file, char * const line,
-                 uint64_t const max_line_length)
+vtkParseCellScalars(PolytopeSoup & soup, std::ifstream & file, char * const line,
+                    uint64_t const max_line_length)
 {
-  // line starts with "CELL_DATA"
+  // line starts with "SCALARS"
   auto const smax_line_length = static_cast<int64_t>(max_line_length);
 
   StringView line_view(line);
-  if (!line_view.starts_with("CELL_DATA")) {
-    LOG_ERROR("Expected CELL_DATA");
-    return;
-  }
-
-  // Get the number of cells in the dataset. It should be
-  // equal to the number of elements in the soup.
-  line_view.getTokenAndShrink(); // Remove "CELL_DATA"
   char * end = nullptr;
-  Int const num_data = strto<Int>(line_view.data(), &end);
-  ASSERT(end != nullptr);
-  end = nullptr;
-  ASSERT(num_data == soup.numElements());
-
-  // Ensure SCALARS data
-  file.getline(line, smax_line_length);
-  line_view = StringView(line);
-  ASSERT(line_view.starts_with("SCALARS"));
+  Int const num_data = soup.numElements();
 
   // Get the name of the data set
   StringView token = line_view.getTokenAndShrink();
@@ -1096,14 +1080,28 @@ readVTKFile(String const & filename, PolytopeSoup & soup)
 
   // If there are any lines left, it's data. We only support scalar CELL_DATA of
   // float or double type
+  // A CELL_DATA section may contain more than one data set.
   if (file.peek() != EOF) {
+    bool in_cell_data = false;
     while (file.getline(line, max_line_length)) {
       if (line[0] == '\0') {
         continue;
       }
       line_view = StringView(line);
       if (line_view.starts_with("CELL_DATA")) {
-        vtkParseCellData(soup, file, line, max_line_length);
+        in_cell_data = true;
+#if UM2_ENABLE_ASSERTS
+        // The number of cells in the section should be equal to the number of elements
+        // in the soup.
+        line_view.getTokenAndShrink(); // Remove "CELL_DATA"
+        char * end = nullptr;
+        ASSERT(strto<Int>(line_view.data(), &end) == soup.numElements());
+        ASSERT(end != nullptr);
+#endif
+      } else if (line_view.starts_with("POINT_DATA")) {
+        in_cell_data = false;
+      } else if (in_cell_data && line_view.starts_with("SCALARS")) {
+        vtkParseCellScalars(soup, file, line, max_line_length);
       }
     }
   }
-- 
2.43.0


From 118b495c32a6175b873b4f616fba57e1255f0cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:54 +0000
Subject: [PATCH 31/63] fix: keep all vertices when a mesh is made from
 non-planar vertices

---
 src/mesh/face_vertex_mesh.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mesh/face_vertex_mesh.cpp b/src/mesh/face_vertex_mesh.cpp
index 58e7d88..22287a6 100644
--- a/src/mesh/face_vertex_mesh.cpp
+++ b/src/mesh/face_vertex_mesh.cpp
@@ -71,16 +71,19 @@ FaceVertexMesh<P, N>::FaceVertexMesh(PolytopeSoup const & soup, bool validate)
   // Ensure each of the vertices has approximately the same z
   _v.resize(num_vertices);
   Float const z = soup.getVertex(0)[2];
+  bool is_planar = true;
   for (Int i = 0; i < num_vertices; ++i) {
     auto const & p = soup.getVertex(i);
     _v[i][0] = p[0];
     _v[i][1] = p[1];
     if (um2::abs(p[2] - z) > epsDistance<Float>()) {
-      LOG_WARN(
-          "Constructing a FaceVertexMesh from a PolytopeSoup with non-planar vertices");
-      break;
+      is_planar = false;
     }
   }
+  if (!is_planar) {
+    LOG_WARN(
+        "Constructing a FaceVertexMesh from a PolytopeSoup with non-planar vertices");
+  }
 
   // -- Face/Vertex connectivity --
   _fv.resize(num_faces);
-- 
2.43.0


From 07498343ece4a5d82967388d78effe0441d25e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:18 +0000
Subject: [PATCH 32/63] fix: renumber meshes that do not touch the origin along
 the space-filling curve

---
 src/mesh/face_vertex_mesh.cpp | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/mesh/face_vertex_mesh.cpp b/src/mesh/face_vertex_mesh.cpp
index 22287a6..da0a25a 100644
--- a/src/mesh/face_vertex_mesh.cpp
+++ b/src/mesh/face_vertex_mesh.cpp
@@ -8,6 +8,7 @@
 #include <um2/geometry/morton_sort_points.hpp>
 #include <um2/geometry/point.hpp>
 #include <um2/math/vec.hpp>
+#include <um2/stdlib/algorithm/clamp.hpp>
 #include <um2/stdlib/assert.hpp>
 #include <um2/stdlib/math/abs.hpp>
 #include <um2/stdlib/utility/pair.hpp>
@@ -102,6 +103,25 @@ FaceVertexMesh<P, N>::FaceVertexMesh(PolytopeSoup const & soup, bool validate)
 // Modifiers
 //==============================================================================
 
+namespace
+{
+
+// Map points in the box to the unit square, as required by the morton encoding.
+void
+mapToUnitSquare(Vector<Point2F> & points, AxisAlignedBox2F const & aabb)
+{
+  Vec2F const inv_scale = 1 / aabb.extents();
+  for (auto & p : points) {
+    p = (p - aabb.minima()) * inv_scale;
+    // Rounding may put points on the box's boundary slightly outside of it.
+    for (Int i = 0; i < 2; ++i) {
+      p[i] = um2::clamp(p[i], static_cast<Float>(0), static_cast<Float>(1));
+    }
+  }
+}
+
+} // namespace
+
 template <Int P, Int N>
 void
 FaceVertexMesh<P, N>::mortonSort() noexcept
@@ -131,16 +151,15 @@ FaceVertexMesh<P, N>::mortonSortFaces() noexcept
   for (Int i = 0; i < num_faces; ++i) {
     centroids[i] = getFace(i).centroid();
   }
-  // We need to scale the centroids to the unit cube before we can apply
+  // We need to map the centroids to the unit square before we can apply
   // the morton encoding. Therefore we need to find the bounding box of
   // all faces.
-  auto const aabb = boundingBox();
-  Vec2F const inv_scale = 1 / aabb.extents();
+  mapToUnitSquare(centroids, boundingBox());
 
   // Get the permutation vector which sorts the centroids according to the morton
   // encoding.
   Vector<Int> perm(num_faces);
-  mortonSortPermutation(centroids.begin(), centroids.end(), perm.begin(), inv_scale);
+  mortonSortPermutation(centroids.cbegin(), centroids.cend(), perm.begin());
 
   // Sort the faces according to the permutation vector.
   applyPermutation(_fv.begin(), _fv.end(), perm.cbegin());
@@ -153,10 +172,10 @@ FaceVertexMesh<P, N>::mortonSortVertices() noexcept
   // Invalidate vertex-face connectivity
   _has_vf = false;
 
-  // We need to scale the vertices to the unit cube before we can apply
+  // We need to map the vertices to the unit square before we can apply
   // the morton encoding.
-  auto const aabb = boundingBox();
-  Vec2F const inv_scale = 1 / aabb.extents();
+  Vector<Point2F> points = _v;
+  mapToUnitSquare(points, boundingBox());
 
   // Get the permutation vector which sorts the vertices according to the morton
   // encoding. We also need the inverse permutation to ensure that the face-vertex
@@ -164,7 +183,7 @@ FaceVertexMesh<P, N>::mortonSortVertices() noexcept
   Int const num_verts = numVertices();
   Vector<Int> perm(num_verts);
   Vector<Int> inv_perm(num_verts);
-  mortonSortPermutation(_v.cbegin(), _v.cend(), perm.begin(), inv_scale);
+  mortonSortPermutation(points.cbegin(), points.cend(), perm.begin());
   invertPermutation(perm.cbegin(), perm.cend(), inv_perm.begin());
 
   // Sort the vertices according to the permutation vector.
-- 
2.43.0


From 844b0934ee82d12a97e3863a523129f2e1fc32a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:58 +0000
Subject: [PATCH 33/63] fix: sort the faces a ray crosses by the two smallest
 crossings of each face

---
 src/mesh/face_vertex_mesh.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mesh/face_vertex_mesh.cpp b/src/mesh/face_vertex_mesh.cpp
index da0a25a..8f5ffa7 100644
--- a/src/mesh/face_vertex_mesh.cpp
+++ b/src/mesh/face_vertex_mesh.cpp
@@ -580,8 +580,11 @@ sortRayMeshIntersections(Float const * RESTRICT coords,  // size >= total_hits
     Int const offset = offsets[iface];
     Int const next_offset = offsets[iface + 1];
     Float r0 = coords[offset];
-    Float r1 = coords[offset];
-    for (Int i = offset + 1; i < next_offset; ++i) {
+    Float r1 = (next_offset - offset > 1) ? coords[offset + 1] : r0;
+    if (r1 < r0) {
+      um2::swap(r0, r1);
+    }
+    for (Int i = offset + 2; i < next_offset; ++i) {
       Float const r = coords[i];
       if (r < r0) {
         r1 = r0;
-- 
2.43.0


From c6fffc0a7e698ced162bb499a031e76158ae9d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:04:22 +0000
Subject: [PATCH 34/63] fix: report a mesh that contains the same face twice

The overlap test only looked for edges used more than twice, so a repeated
face whose edges are otherwise on the boundary was missed.
---
 src/mesh/face_vertex_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/face_vertex_mesh.cpp b/src/mesh/face_vertex_mesh.cpp
index 8f5ffa7..05b0bda 100644
--- a/src/mesh/face_vertex_mesh.cpp
+++ b/src/mesh/face_vertex_mesh.cpp
@@ -395,7 +395,7 @@ checkManifoldWatertight(FaceVertexMesh<P, N> const & mesh)
   for (Int i = 0; i < edge_counts.size(); ++i) {
     auto const & edge_count = edge_counts[i];
     Int const sum = edge_count[0] + edge_count[1];
-    if (sum > 2) {
+    if (edge_count[0] > 1 || edge_count[1] > 1) {
       LOG_ERROR("Mesh has overlapping faces");
       return;
     }
-- 
2.43.0


From c04a05e9e4a84e73caa6d9d515844a252d676826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:04:22 +0000
Subject: [PATCH 35/63] fix: detect opposite edges of a curved quadrilateral
 that cross once

---
 include/um2/geometry/polygon.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/um2/geometry/polygon.hpp b/include/um2/geometry/polygon.hpp
index 3cac193..1170b92 100644
--- a/include/um2/geometry/polygon.hpp
+++ b/include/um2/geometry/polygon.hpp
@@ -285,11 +285,12 @@ hasSelfIntersection(PlanarQuadraticPolygon<N, T> const & poly,
   }
 
   // If this is a quadratic quadrilateral, we need to check i vs i + 2.
+  // These edges do not share a vertex, hence they should not intersect.
   if constexpr (m == 4) {
-    if (poly.getEdge(0).intersect(poly.getEdge(2), buffer) > 1) {
+    if (poly.getEdge(0).intersect(poly.getEdge(2), buffer) > 0) {
       return true;
     }
-    if (poly.getEdge(1).intersect(poly.getEdge(3), buffer) > 1) {
+    if (poly.getEdge(1).intersect(poly.getEdge(3), buffer) > 0) {
       return true;
     }
   }
@@ -327,6 +328,7 @@ fixSelfIntersection(PlanarQuadraticPolygon<N, T> & poly, Point2<T> * buffer,
 {
   Int e0 = -1;
   Int e1 = -1;
+  Int max_hits = 1; // The number of intersections e0 and e1 are allowed to have.
   // Edge i should intersect edge i + 1 exactly once.
   Int constexpr m = polygonNumEdges<2, N>();
   for (Int i = 0; i < m - 1; ++i) {
@@ -344,14 +346,17 @@ fixSelfIntersection(PlanarQuadraticPolygon<N, T> & poly, Point2<T> * buffer,
   }
 
   // If this is a quadratic quadrilateral, we need to check i vs i + 2.
+  // These edges do not share a vertex, hence they should not intersect.
   if constexpr (m == 4) {
-    if (poly.getEdge(0).intersect(poly.getEdge(2), buffer) > 1) {
+    if (poly.getEdge(0).intersect(poly.getEdge(2), buffer) > 0) {
       e0 = 0;
       e1 = 2;
+      max_hits = 0;
     }
-    if (poly.getEdge(1).intersect(poly.getEdge(3), buffer) > 1) {
+    if (poly.getEdge(1).intersect(poly.getEdge(3), buffer) > 0) {
       e0 = 1;
       e1 = 3;
+      max_hits = 0;
     }
   }
 
@@ -377,7 +382,7 @@ fixSelfIntersection(PlanarQuadraticPolygon<N, T> & poly, Point2<T> * buffer,
   edge0[2] += disp;
 
   // Check that the intersection is fixed.
-  if (edge0.intersect(edge1, buffer) > 1) {
+  if (edge0.intersect(edge1, buffer) > max_hits) {
     return false;
   }
 
-- 
2.43.0


From eb3033935e10927232ba69d0be2d2694b7ca112e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:17 +0000
Subject: [PATCH 36/63] fix: allow oxide fuel without U-235 or without uranium

setUO2 accepts an enrichment of zero and a gadolinia fraction of one, but
added the absent uranium isotopes with a number density of zero. That is
reported as an error and the material cannot be used afterwards. The
isotopes are now left out, as is already done for gadolinium.
---
 src/physics/material.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/physics/material.cpp b/src/physics/material.cpp
index bf8c24a..b2aa2f9 100644
--- a/src/physics/material.cpp
+++ b/src/physics/material.cpp
@@ -569,10 +569,14 @@ Material::setUO2(Float wt_u235, Float wt_gad) noexcept
   Float const n_u235 = at_u235 * n_u;
   Float const n_u236 = at_u236 * n_u;
   Float const n_u238 = at_u238 * n_u;
-  addNuclide(92234, n_u234);
-  addNuclide(92235, n_u235);
-  addNuclide(92236, n_u236);
-  addNuclide(92238, n_u238);
+  if (n_u235 > 0) {
+    addNuclide(92234, n_u234);
+    addNuclide(92235, n_u235);
+    addNuclide(92236, n_u236);
+  }
+  if (n_u > 0) {
+    addNuclide(92238, n_u238);
+  }
 
   // Compute the average mass of Gd2O3
   //---------------------------------------------------------------------------
-- 
2.43.0


From 712c75c8f62a6d378e35e7a2a78ab32f75f7d846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:52:03 +0000
Subject: [PATCH 37/63] fix: reset the fissile flag when a nuclide is cleared

---
 src/physics/nuclide.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/physics/nuclide.cpp b/src/physics/nuclide.cpp
index f6fcc11..1738706 100644
--- a/src/physics/nuclide.cpp
+++ b/src/physics/nuclide.cpp
@@ -22,6 +22,7 @@ namespace um2
 void
 Nuclide::clear() noexcept
 {
+  _is_fissile = false;
   _zaid = 0;
   _mass = 0;
   _temperatures.clear();
-- 
2.43.0


From 75b8c68ee4fd840af7f342f20ec6ee4f92c245a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:52:03 +0000
Subject: [PATCH 38/63] fix: keep the fissile flag when interpolating towards
 fissile data

Interpolation between two temperatures took the flag from the lower one
only, so a nuclide with fission data at the upper temperature only gave
non-zero fission cross sections that were marked as not fissile.
---
 src/physics/nuclide.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/nuclide.cpp b/src/physics/nuclide.cpp
index 1738706..43fa40c 100644
--- a/src/physics/nuclide.cpp
+++ b/src/physics/nuclide.cpp
@@ -105,7 +105,7 @@ Nuclide::interpXS(Float const temperature) const noexcept -> XSec
   XSec xs(xs0.numGroups());
   ASSERT(xs1.numGroups() == ng);
   xs.isMacro() = xs0.isMacro();
-  xs.isFissile() = xs0.isFissile();
+  xs.isFissile() = xs0.isFissile() || xs1.isFissile();
 
   // Interpolate the cross sections
   // TODO(kcvaughn): This should be handled with arithmetic operators on the XSec
-- 
2.43.0


From 8e8f83e45d546790e4610b49845bca5811e029f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:54:11 +0000
Subject: [PATCH 39/63] fix: read group bounds and fission spectra followed by
 trailing blanks

When a line of the table ended in blanks, the blanks were taken for one
more value and the following line was misread.
---
 src/physics/cross_section_library.cpp | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/src/physics/cross_section_library.cpp b/src/physics/cross_section_library.cpp
index 1be97eb..479d6bf 100644
--- a/src/physics/cross_section_library.cpp
+++ b/src/physics/cross_section_library.cpp
@@ -118,17 +118,9 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
 
     // If the token is empty, we have reached the end of the line
     if (token.empty()) {
-      bool const one_more_token = !line_view.empty();
-      if (one_more_token) {
-        token = line_view;
-      }
-      // If this is the last group, we don't need to read another line
       file.getline(line, max_line_length);
       line_view = StringView(line);
-      line_view.removeLeadingSpaces();
-      if (!one_more_token) {
-        token = line_view.getTokenAndShrink();
-      }
+      token = line_view.getTokenAndShrink();
     }
 
     group_bounds[ig] = strto<Float>(token.data(), &end);
@@ -158,17 +150,9 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
 
     // If the token is empty, we have reached the end of the line
     if (token.empty()) {
-      bool const one_more_token = !line_view.empty();
-      if (one_more_token) {
-        token = line_view;
-      }
-      // If this is the last group, we don't need to read another line
       file.getline(line, max_line_length);
       line_view = StringView(line);
-      line_view.removeLeadingSpaces();
-      if (!one_more_token) {
-        token = line_view.getTokenAndShrink();
-      }
+      token = line_view.getTokenAndShrink();
     }
 
     chi[ig] = strto<Float>(token.data(), &end);
-- 
2.43.0


From 1fa16cc8c10f15e8c7c0f08fe72c70575bb045a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:54:11 +0000
Subject: [PATCH 40/63] fix: read cross section libraries with many energy
 groups

A row of the scattering matrix is stored on a single line. With more than
about 80 groups it exceeds 1023 characters, after which nothing more was
read from the file.
---
 src/physics/cross_section_library.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/physics/cross_section_library.cpp b/src/physics/cross_section_library.cpp
index 479d6bf..bb89a30 100644
--- a/src/physics/cross_section_library.cpp
+++ b/src/physics/cross_section_library.cpp
@@ -37,7 +37,8 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
     return;
   }
 
-  uint64_t const max_line_length = 1024;
+  // A row of the scattering matrix is one line, so lines grow with the number of groups
+  uint64_t const max_line_length = 65536;
   char line[max_line_length];
 
   // %VER
-- 
2.43.0


From a900a9aae3bf73eb09efcaec0daf0085ced6c8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:01:06 +0000
Subject: [PATCH 41/63] fix: reject pin meshes with unordered radii or without
 rings

---
 src/mpact/model.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index 9e4a9b8..6819da9 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -167,6 +167,24 @@ Model::addCylindricalPinMesh(Float const pitch, Vector<Float> const & radii,
     return -1;
   }
 
+  if (radii.empty()) {
+    logger::error("At least one radius is required");
+    return -1;
+  }
+
+  if (std::any_of(num_rings.begin(), num_rings.end(), [](Int n) { return n < 1; })) {
+    logger::error("The number of rings in each radial region must be at least 1");
+    return -1;
+  }
+
+  for (Int i = 0; i < radii.size(); ++i) {
+    Float const prev = i == 0 ? static_cast<Float>(0) : radii[i - 1];
+    if (!(prev < radii[i])) {
+      logger::error("The radii must be positive and in ascending order");
+      return -1;
+    }
+  }
+
   if (std::any_of(radii.begin(), radii.end(),
                   [pitch](Float r) { return r > pitch / 2; })) {
     logger::error("The radii must be less than half the pitch");
-- 
2.43.0


From ead8caff8b659824e690a249f60f60c4a51bccc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:01:06 +0000
Subject: [PATCH 42/63] fix: leave the model unchanged when adding a pin fails

---
 src/mpact/model.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index 6819da9..44a93a0 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -676,10 +676,6 @@ Model::addCylindricalPinCell(Float const pitch, Vector<Float> const & radii,
                              Vector<Int> const & num_rings, Int const num_azimuthal,
                              Int const mesh_order) -> Int
 {
-  // Make the mesh
-  Int const mesh_id =
-      addCylindricalPinMesh(pitch, radii, num_rings, num_azimuthal, mesh_order);
-
   // We need 1 more material than the number of rings
   if (materials.size() != num_rings.size() + 1) {
     logger::error("The number of materials must be one more than the number of rings");
@@ -703,6 +699,13 @@ Model::addCylindricalPinCell(Float const pitch, Vector<Float> const & radii,
     }
   }
 
+  // Make the mesh
+  Int const mesh_id =
+      addCylindricalPinMesh(pitch, radii, num_rings, num_azimuthal, mesh_order);
+  if (mesh_id == -1) {
+    return -1;
+  }
+
   Vec2F const xy_extents(pitch, pitch);
   MeshType const mesh_type = mesh_order == 1 ? MeshType::Quad : MeshType::QuadraticQuad;
 
@@ -736,8 +739,6 @@ Model::addRectangularPinMesh(Vec2F const xy_extents, Int const nx_faces,
 {
   Int const mesh_id = _quads.size();
   LOG_DEBUG("Adding rectangular pin mesh ", mesh_id);
-  _quads.emplace_back();
-  auto & mesh = _quads.back();
 
   if (xy_extents[0] <= 0 || xy_extents[1] <= 0) {
     logger::error("Pin dimensions must be positive");
@@ -748,6 +749,9 @@ Model::addRectangularPinMesh(Vec2F const xy_extents, Int const nx_faces,
     return -1;
   }
 
+  _quads.emplace_back();
+  auto & mesh = _quads.back();
+
   // Make the vertices
   auto & vertices = mesh.vertices();
   vertices.resize((nx_faces + 1) * (ny_faces + 1));
-- 
2.43.0


From 56e5cfd180b78a2b78c6d231f78dc1b837e20f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:02:10 +0000
Subject: [PATCH 43/63] fix: reject layouts which are empty, ragged or do not
 align

---
 src/mpact/model.cpp | 58 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 51 insertions(+), 7 deletions(-)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index 44a93a0..0de99b1 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -86,6 +86,32 @@ flattenLattice(Vector<Vector<T>> const & ids, Vector<U> & flat_ids)
   }
 }
 
+// A layout must have at least one row and column, and rows of the same length
+auto
+isRectangularLayout(Vector<Vector<Int>> const & ids) -> bool
+{
+  if (ids.empty() || ids[0].empty()) {
+    return false;
+  }
+  return std::all_of(ids.begin(), ids.end(),
+                     [&ids](auto const & row) { return row.size() == ids[0].size(); });
+}
+
+// The cells in each column must have the same width, and in each row the same height
+auto
+isAlignedLayout(Vector<Vector<Int>> const & ids, Vector<Vec2F> const & dxdy) -> bool
+{
+  for (Int i = 0; i < ids.size(); ++i) {
+    for (Int j = 0; j < ids[0].size(); ++j) {
+      if (um2::abs(dxdy[ids[i][j]][0] - dxdy[ids[0][j]][0]) > epsDistance<Float>() ||
+          um2::abs(dxdy[ids[i][j]][1] - dxdy[ids[i][0]][1]) > epsDistance<Float>()) {
+        return false;
+      }
+    }
+  }
+  return true;
+}
+
 } // namespace
 
 //=============================================================================
@@ -921,6 +947,10 @@ Model::addRTM(Vector<Vector<Int>> const & cc_ids) -> Int
 {
   Int const rtm_id = _rtms.size();
   LOG_DEBUG("Adding ray tracing module ", rtm_id);
+  if (!isRectangularLayout(cc_ids)) {
+    logger::error("Each row must have the same number of columns");
+    return -1;
+  }
   Vector<Int> unique_cc_ids;
   Vector<Vec2F> xy_extents;
   // Ensure that all coarse cells exist
@@ -951,6 +981,10 @@ Model::addRTM(Vector<Vector<Int>> const & cc_ids) -> Int
       cc_ids_renumbered[i][j] = static_cast<Int>(it - unique_cc_ids.begin());
     }
   }
+  if (!isAlignedLayout(cc_ids_renumbered, xy_extents)) {
+    logger::error("The coarse cells in the RTM do not align");
+    return -1;
+  }
   // Create the rectilinear grid
   RectilinearGrid2F const grid(xy_extents, cc_ids_renumbered);
   // Ensure the grid has the same extents as all other RTMs
@@ -977,6 +1011,11 @@ Model::addLattice(Vector<Vector<Int>> const & rtm_ids) -> Int
 {
   Int const lat_id = _lattices.size();
   LOG_DEBUG("Adding lattice ", lat_id);
+  // Ensure each row has the same number of columns
+  if (!isRectangularLayout(rtm_ids)) {
+    logger::error("Each row must have the same number of columns");
+    return -1;
+  }
   // Ensure that all RTMs exist
   Int const num_rtm = _rtms.size();
   for (auto const & rtm_ids_row : rtm_ids) {
@@ -988,17 +1027,10 @@ Model::addLattice(Vector<Vector<Int>> const & rtm_ids) -> Int
     }
   }
   // Create the lattice
-  // Ensure each row has the same number of columns
   Point2F const minima(0, 0);
   Vec2F const spacing = _rtms[0].grid().extents();
   Int const num_rows = rtm_ids.size();
   Int const num_cols = rtm_ids[0].size();
-  for (Int i = 1; i < num_rows; ++i) {
-    if (rtm_ids[i].size() != num_cols) {
-      logger::error("Each row must have the same number of columns");
-      return -1;
-    }
-  }
   Vec2I const num_cells(num_cols, num_rows);
   RegularGrid2F const grid(minima, spacing, num_cells);
   // Flatten the RTM IDs (rows are reversed)
@@ -1018,6 +1050,10 @@ Model::addAssembly(Vector<Int> const & lat_ids, Vector<Float> const & z) -> Int
 {
   Int const asy_id = _assemblies.size();
   LOG_DEBUG("Adding assembly ", asy_id);
+  if (lat_ids.empty()) {
+    logger::error("An assembly must have at least one lattice");
+    return -1;
+  }
   // Ensure that all lattices exist
   Int const num_lat = _lattices.size();
   for (auto const & id : lat_ids) {
@@ -1089,6 +1125,10 @@ Model::addCore(Vector<Vector<Int>> const & asy_ids) -> Int
     logger::error("The core has already been made");
     return -1;
   }
+  if (!isRectangularLayout(asy_ids)) {
+    logger::error("Each row must have the same number of columns");
+    return -1;
+  }
 
   // Ensure that all assemblies exist
   Int const num_asy = _assemblies.size();
@@ -1105,6 +1145,10 @@ Model::addCore(Vector<Vector<Int>> const & asy_ids) -> Int
     auto const lat_id = _assemblies[i].getChild(0);
     xy_extents[i] = _lattices[lat_id].grid().extents();
   }
+  if (!isAlignedLayout(asy_ids, xy_extents)) {
+    logger::error("The assemblies in the core do not align");
+    return -1;
+  }
   // Create the rectilinear grid
   RectilinearGrid2F const grid(xy_extents, asy_ids);
   // Flatten the assembly IDs (rows are reversed)
-- 
2.43.0


From 539139014da87dbff915f387bedfecc3ce961ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:02:26 +0000
Subject: [PATCH 44/63] fix: track lattices by their own id when reading a
 model

---
 src/mpact/model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index 0de99b1..7dd9445 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -2662,7 +2662,7 @@ readXDMFFile(String const & filename, Model & model)
       }
 
       LOG_DEBUG("New lattice ID: ", lattice_id);
-      lattice_ids.emplace_back(assembly_id);
+      lattice_ids.emplace_back(lattice_id);
 
       // Get NX by NY size of the lattice
       Int lattice_nx = 0;
-- 
2.43.0


From a14845a11fce275b13d18bf948c64513d50dd10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:02:34 +0000
Subject: [PATCH 45/63] fix: write the axial positions of a model with full
 precision

---
 src/mpact/model.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index 7dd9445..69a8d35 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -38,6 +38,7 @@
 #endif
 
 #include <algorithm>
+#include <cstdio>
 #include <cstring>
 #include <fstream>
 #include <iomanip>
@@ -1904,9 +1905,12 @@ writeXDMFFile(String const & filepath, Model const & model,
         // Add the lattice "Z" information
         pugi::xml_node xlat_info = xlat_grid.append_child("Information");
         xlat_info.append_attribute("Name") = "Z";
-        String const lat_z_str =
-            String(low_z) + ", " + String(lat_z) + ", " + String(high_z);
-        xlat_info.append_child(pugi::node_pcdata).set_value(lat_z_str.data());
+        // Use enough digits to recover the exact values
+        char lat_z_str[96];
+        snprintf(lat_z_str, sizeof(lat_z_str), "%.17g, %.17g, %.17g",
+                 static_cast<double>(low_z), static_cast<double>(lat_z),
+                 static_cast<double>(high_z));
+        xlat_info.append_child(pugi::node_pcdata).set_value(lat_z_str);
 
         // Get the lattice
         auto const & lattice = lattices[lat_id];
-- 
2.43.0


From 69b19bbb94af075932ffb214bcc5a19721211e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:17:58 +0000
Subject: [PATCH 46/63] fix: write models in which a material is not used

---
 src/mpact/model.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index 69a8d35..a754681 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -2214,6 +2214,10 @@ writeMaterialVolumes(String const & filename, Model const & model)
   // Reduce the volumes to the total volume of each material
   Vector<Float> total_volumes(nmats, 0);
   for (Int imat = 0; imat < nmats; ++imat) {
+    // The material may not be used
+    if (volumes[imat].empty()) {
+      continue;
+    }
     // Sort and use the sum function for minimal floating point error
     // (sum uses pairwise summation)
     std::sort(volumes[imat].begin(), volumes[imat].end());
-- 
2.43.0


From 4354dd467ea4d46e5837f2150dd6547e8ce3dd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:08 +0000
Subject: [PATCH 47/63] fix: report imported meshes which do not match the size
 of their cell

---
 src/mpact/model.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index a754681..af3963f 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -1330,10 +1330,12 @@ Model::importCoarseCellMeshes(String const & filename)
     for (Int ip = 0; ip < num_verts; ++ip) {
       vertices[ip] -= min_point;
     }
-#if UM2_ENABLE_ASSERTS
+    // Check that the mesh is the size of the coarse cell
     Point2F const dxdy = bb.maxima() - bb.minima();
-    ASSERT(dxdy.isApprox(cc.xy_extents));
-#endif
+    if (!dxdy.isApprox(cc.xy_extents)) {
+      logger::error("The extents of the mesh do not match coarse cell ", icc);
+      return;
+    }
   }
 } // importCoarseCellMeshes
 
-- 
2.43.0


From 441e8438f320e16cf6f76cfdac2e584e6ace6cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:27:47 +0000
Subject: [PATCH 48/63] fix: return no regions when a file has no usable power
 data

---
 src/mpact/powers.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/mpact/powers.cpp b/src/mpact/powers.cpp
index 3f22bed..b8cd3a6 100644
--- a/src/mpact/powers.cpp
+++ b/src/mpact/powers.cpp
@@ -32,29 +32,36 @@ namespace um2::mpact
 namespace
 {
 
-void
-getPowerData(PolytopeSoup const & soup, Vector<Int> & ids, Vector<Float> & power_data)
+// Returns false if there is no usable power data
+[[nodiscard]] auto
+getPowerData(PolytopeSoup const & soup, Vector<Int> & ids,
+             Vector<Float> & power_data) -> bool
 {
   soup.getElset("power", ids, power_data);
   if (ids.size() != power_data.size()) {
     LOG_ERROR("Mismatch in number of ids and data");
+    return false;
   }
   if (ids.empty()) {
     LOG_ERROR("No power data found");
+    return false;
   }
   if (ids.size() != soup.numElements()) {
     LOG_ERROR("Mismatch in number of ids and elements");
+    return false;
   }
   if (!um2::is_sorted(ids.cbegin(), ids.cend())) {
     LOG_ERROR("IDs are not sorted");
+    return false;
   }
   // Ensure there is at least one non-zero power
   for (auto const p : power_data) {
     if (p > 0) {
-      return;
+      return true;
     }
   }
   LOG_ERROR("No non-zero power FSRs found");
+  return false;
 }
 
 template <Int P, Int N>
@@ -83,7 +90,9 @@ getPowers(PolytopeSoup const & soup) -> Vector<Pair<Float, Point2F>>
   //---------------------------------------------------------------------------
   Vector<Int> ids;
   Vector<Float> power_data;
-  getPowerData(soup, ids, power_data);
+  if (!getPowerData(soup, ids, power_data)) {
+    return {};
+  }
 
   // Create the FVM, then compute the AABB of each element which has non-zero
   // power. We will store the indices of these elements in a separate vector.
-- 
2.43.0


From 3580c0097b45b67b5f96c9f038b854a4fe42ed42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:31:38 +0000
Subject: [PATCH 49/63] fix: check that the index of a grid cell is in range

---
 include/um2/mesh/rectilinear_grid.hpp | 3 ++-
 include/um2/mesh/regular_grid.hpp     | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/um2/mesh/rectilinear_grid.hpp b/include/um2/mesh/rectilinear_grid.hpp
index 16a7250..69f4976 100644
--- a/include/um2/mesh/rectilinear_grid.hpp
+++ b/include/um2/mesh/rectilinear_grid.hpp
@@ -350,7 +350,8 @@ PURE HOSTDEV [[nodiscard]] constexpr auto
 RectilinearGrid<D, T>::getFlatIndex(Vec<D, Int> const & index) const noexcept -> Int
 {
   for (Int i = 0; i < D; ++i) {
-    ASSERT(index[i] < _divs[i].size());
+    ASSERT(index[i] >= 0);
+    ASSERT(index[i] < numCells(i));
   }
   // For D = 1, 2, 3, write out the explicit formulas
   if constexpr (D == 1) {
diff --git a/include/um2/mesh/regular_grid.hpp b/include/um2/mesh/regular_grid.hpp
index e28cdd0..e7896f3 100644
--- a/include/um2/mesh/regular_grid.hpp
+++ b/include/um2/mesh/regular_grid.hpp
@@ -309,6 +309,7 @@ PURE HOSTDEV [[nodiscard]] constexpr auto
 RegularGrid<D, T>::getFlatIndex(Vec<D, Int> const & index) const noexcept -> Int
 {
   for (Int i = 0; i < D; ++i) {
+    ASSERT(index[i] >= 0);
     ASSERT(index[i] < _num_cells[i]);
   }
   // For D = 1, 2, 3, write out the explicit formulas
-- 
2.43.0


From 3049cac31c267b1feffe40c4da4789a19d714e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:39:10 +0000
Subject: [PATCH 50/63] fix: cut off log messages that do not fit in the buffer

---
 src/common/logger.cpp | 87 +++++++++++++++++++------------------------
 1 file changed, 38 insertions(+), 49 deletions(-)

diff --git a/src/common/logger.cpp b/src/common/logger.cpp
index 29be0e0..140bec7 100644
--- a/src/common/logger.cpp
+++ b/src/common/logger.cpp
@@ -64,13 +64,33 @@ reset() noexcept
 namespace
 {
 
+// The space left for text at buffer_pos. Room for the postamble (color reset and null
+// terminator) is always kept. Text that does not fit is cut off.
+auto
+remainingSpace(char const * const buffer_pos) noexcept -> uint64_t
+{
+  int64_t constexpr postamble_size = 5;
+  int64_t const n = buffer_end - buffer_pos - postamble_size;
+  return n > 0 ? static_cast<uint64_t>(n) : 0;
+}
+
 auto
 appendStringViewToBuffer(char * buffer_pos, StringView const sv) noexcept -> char *
 {
-  auto * const new_pos = buffer_pos + sv.size();
-  ASSERT(new_pos < buffer_end);
-  um2::copy(sv.begin(), sv.end(), buffer_pos);
-  return new_pos;
+  uint64_t const space = remainingSpace(buffer_pos);
+  uint64_t const n = sv.size() < space ? sv.size() : space;
+  um2::copy(sv.begin(), sv.begin() + n, buffer_pos);
+  return buffer_pos + n;
+}
+
+// The position after snprintf would have written len characters at buffer_pos
+auto
+advance(char * buffer_pos, int32_t const len) noexcept -> char *
+{
+  ASSERT(len >= 0);
+  uint64_t const space = remainingSpace(buffer_pos);
+  auto const n = static_cast<uint64_t>(len);
+  return buffer_pos + (n < space ? n : space);
 }
 
 } // namespace
@@ -90,10 +110,8 @@ template <>
 auto
 toBuffer(char * buffer_pos, char const & value) noexcept -> char *
 {
-  *buffer_pos = value;
-  ++buffer_pos;
-  ASSERT(buffer_pos < buffer_end);
-  return buffer_pos;
+  StringView const sv(&value, 1);
+  return appendStringViewToBuffer(buffer_pos, sv);
 }
 
 // Use snprintf to convert the value to a string and store it in the buffer
@@ -101,12 +119,9 @@ template <>
 auto
 toBuffer(char * buffer_pos, int32_t const & value) noexcept -> char *
 {
-  int32_t const len = snprintf(nullptr, 0, "%d", value);
-  int32_t const written =
+  int32_t const len =
       snprintf(buffer_pos, static_cast<uint64_t>(buffer_end - buffer_pos), "%d", value);
-  ASSERT(len == written);
-  ASSERT(buffer_pos + len < buffer_end);
-  return buffer_pos + len;
+  return advance(buffer_pos, len);
 }
 
 template <>
@@ -122,48 +137,36 @@ template <>
 auto
 toBuffer(char * buffer_pos, uint32_t const & value) noexcept -> char *
 {
-  int32_t const len = snprintf(nullptr, 0, "%u", value);
-  int32_t const written =
+  int32_t const len =
       snprintf(buffer_pos, static_cast<uint64_t>(buffer_end - buffer_pos), "%u", value);
-  ASSERT(len == written);
-  ASSERT(buffer_pos + len < buffer_end);
-  return buffer_pos + len;
+  return advance(buffer_pos, len);
 }
 
 template <>
 auto
 toBuffer(char * buffer_pos, int64_t const & value) noexcept -> char *
 {
-  int32_t const len = snprintf(nullptr, 0, "%ld", value);
-  int32_t const written =
+  int32_t const len =
       snprintf(buffer_pos, static_cast<uint64_t>(buffer_end - buffer_pos), "%ld", value);
-  ASSERT(len == written);
-  ASSERT(buffer_pos + len < buffer_end);
-  return buffer_pos + len;
+  return advance(buffer_pos, len);
 }
 
 template <>
 auto
 toBuffer(char * buffer_pos, uint64_t const & value) noexcept -> char *
 {
-  int32_t const len = snprintf(nullptr, 0, "%lu", value);
-  int32_t const written =
+  int32_t const len =
       snprintf(buffer_pos, static_cast<uint64_t>(buffer_end - buffer_pos), "%lu", value);
-  ASSERT(len == written);
-  ASSERT(buffer_pos + len < buffer_end);
-  return buffer_pos + len;
+  return advance(buffer_pos, len);
 }
 
 template <>
 auto
 toBuffer(char * buffer_pos, double const & value) noexcept -> char *
 {
-  int32_t const len = snprintf(nullptr, 0, "%f", value);
-  int32_t const written =
+  int32_t const len =
       snprintf(buffer_pos, static_cast<uint64_t>(buffer_end - buffer_pos), "%f", value);
-  ASSERT(len == written);
-  ASSERT(buffer_pos + len < buffer_end);
-  return buffer_pos + len;
+  return advance(buffer_pos, len);
 }
 
 template <>
@@ -179,22 +182,8 @@ template <>
 auto
 toBuffer(char * buffer_pos, bool const & value) noexcept -> char *
 {
-  if (value) {
-    buffer_pos[0] = 't';
-    buffer_pos[1] = 'r';
-    buffer_pos[2] = 'u';
-    buffer_pos[3] = 'e';
-    buffer_pos += 4;
-  } else {
-    buffer_pos[0] = 'f';
-    buffer_pos[1] = 'a';
-    buffer_pos[2] = 'l';
-    buffer_pos[3] = 's';
-    buffer_pos[4] = 'e';
-    buffer_pos += 5;
-  }
-  ASSERT(buffer_pos < buffer_end);
-  return buffer_pos;
+  StringView const sv(value ? "true" : "false");
+  return appendStringViewToBuffer(buffer_pos, sv);
 }
 
 template <>
-- 
2.43.0


From f36e89970c9af520bfc741204659e4b14bd4f0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:58:13 +0000
Subject: [PATCH 51/63] fix: only treat groups whose name starts with Material_
 as materials

---
 src/gmsh/model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gmsh/model.cpp b/src/gmsh/model.cpp
index 34b9e75..0455015 100644
--- a/src/gmsh/model.cpp
+++ b/src/gmsh/model.cpp
@@ -84,7 +84,7 @@ getMaterials(std::vector<Material> & materials)
     int const tag = dimtag.second;
     std::string name;
     gmsh::model::getPhysicalName(dim, tag, name);
-    if (name.starts_with("Material")) {
+    if (name.starts_with("Material_")) {
       std::vector<int> tags;
       gmsh::model::getEntitiesForPhysicalGroup(dim, tag, tags);
       um2::String const material_name(name.substr(9).c_str());
-- 
2.43.0


From 9b4f05c1f75e871a82b315de6c41b2c3fe7fdf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:58:13 +0000
Subject: [PATCH 52/63] fix: do not colour materials in a model without
 physical groups

---
 src/gmsh/model.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gmsh/model.cpp b/src/gmsh/model.cpp
index 0455015..81ce6df 100644
--- a/src/gmsh/model.cpp
+++ b/src/gmsh/model.cpp
@@ -130,6 +130,9 @@ colorMaterialPhysicalGroupEntities(std::vector<Material> const & materials)
   std::vector<int> ptags(num_materials, -1);
   gmsh::vectorpair dimtags;
   gmsh::model::getPhysicalGroups(dimtags);
+  if (dimtags.empty()) {
+    return;
+  }
   // We only care about the highest dimension physical groups.
   int const dim_max = dimtags.back().first;
   for (auto const & dimtag : dimtags) {
-- 
2.43.0


From a061ef3e45ebedd41a628d095709e1f6b8c9915b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:58:13 +0000
Subject: [PATCH 53/63] fix: leave the model alone when the entities of an
 operation are invalid

---
 src/gmsh/model.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/gmsh/model.cpp b/src/gmsh/model.cpp
index 81ce6df..9eef388 100644
--- a/src/gmsh/model.cpp
+++ b/src/gmsh/model.cpp
@@ -437,6 +437,9 @@ groupPreservingFragment(gmsh::vectorpair const & object_dimtags,
   // Input checking
   //==============================================================================
   int const model_dim = groupPreservingInputChecking(object_dimtags, tool_dimtags);
+  if (model_dim < 0) {
+    return;
+  }
 
   //==============================================================================
   // Fragment the object and tool
@@ -527,6 +530,9 @@ groupPreservingIntersect(gmsh::vectorpair const & object_dimtags,
   // Input checking
   //==============================================================================-
   int const model_dim = groupPreservingInputChecking(object_dimtags, tool_dimtags);
+  if (model_dim < 0) {
+    return;
+  }
 
   //==============================================================================
   // Intersect the object and tool
@@ -609,6 +615,9 @@ groupPreservingCut(gmsh::vectorpair const & object_dimtags,
   // Input checking
   //==============================================================================-
   int const model_dim = groupPreservingInputChecking(object_dimtags, tool_dimtags);
+  if (model_dim < 0) {
+    return;
+  }
 
   //==============================================================================
   // Cut the object and tool
-- 
2.43.0


From 5bee094a690491e194525e6abebc0c6923915b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:58:13 +0000
Subject: [PATCH 54/63] fix: keep the labels of entities that are not removed
 by an operation

---
 src/gmsh/model.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/gmsh/model.cpp b/src/gmsh/model.cpp
index 9eef388..9972b26 100644
--- a/src/gmsh/model.cpp
+++ b/src/gmsh/model.cpp
@@ -280,13 +280,14 @@ getNewPhysicalGroups(gmsh::vectorpair const & object_dimtags,
                      gmsh::vectorpair const & tool_dimtags, size_t const num_groups,
                      std::vector<std::vector<int>> const & pre_physical_group_ent_tags,
                      std::vector<gmsh::vectorpair> const & out_dimtags_map,
-                     std::vector<std::vector<int>> & post_physical_group_ent_tags)
+                     std::vector<std::vector<int>> & post_physical_group_ent_tags,
+                     bool const remove_object, bool const remove_tool)
 {
   // For each physical group,
   //   For each entity in the group,
   //     If the entity is in the object or tool,
   //       Add the fragment children of the entity to the new physical group.
-  //     Else,
+  //     If the entity is not in the object or tool, or if it was not removed,
   //       Add the entity to the new physical group.
   std::vector<int> object_tags(object_dimtags.size());
   std::vector<int> tool_tags(tool_dimtags.size());
@@ -311,12 +312,14 @@ getNewPhysicalGroups(gmsh::vectorpair const & object_dimtags,
     size_t idx = 0;
     for (int const etag : tags) {
       bool found = false;
+      bool removed = false;
       while (object_idx < nobject && object_tags[object_idx] < etag) {
         ++object_idx;
       }
       if (object_idx < nobject && object_tags[object_idx] == etag) {
         idx = object_idx;
         found = true;
+        removed = remove_object;
       }
       if (!found) {
         while (tool_idx < ntool && tool_tags[tool_idx] < etag) {
@@ -325,6 +328,7 @@ getNewPhysicalGroups(gmsh::vectorpair const & object_dimtags,
         if (tool_idx < ntool && tool_tags[tool_idx] == etag) {
           idx = tool_idx + nobject;
           found = true;
+          removed = remove_tool;
         }
       }
       if (found) {
@@ -338,9 +342,10 @@ getNewPhysicalGroups(gmsh::vectorpair const & object_dimtags,
             new_tags.insert(child_it, child.second);
           }
         }
-      } else {
-        // The entity is not in the object or tool, so add the entity to the
-        // new physical group.
+      }
+      if (!removed) {
+        // The entity is not in the object or tool, or it was kept, so add the entity
+        // to the new physical group.
         auto const child_it = std::lower_bound(new_tags.begin(), new_tags.end(), etag);
         if (child_it == new_tags.end() || *child_it != etag) {
           new_tags.insert(child_it, etag);
@@ -470,7 +475,7 @@ groupPreservingFragment(gmsh::vectorpair const & object_dimtags,
   std::vector<std::vector<int>> post_physical_group_ent_tags(num_groups);
   getNewPhysicalGroups(object_dimtags, tool_dimtags, num_groups,
                        pre_physical_group_ent_tags, out_dimtags_map,
-                       post_physical_group_ent_tags);
+                       post_physical_group_ent_tags, remove_object, remove_tool);
 
   //==============================================================================
   // Process the material hierarchy
@@ -561,7 +566,7 @@ groupPreservingIntersect(gmsh::vectorpair const & object_dimtags,
   std::vector<std::vector<int>> post_physical_group_ent_tags(num_groups);
   getNewPhysicalGroups(object_dimtags, tool_dimtags, num_groups,
                        pre_physical_group_ent_tags, out_dimtags_map,
-                       post_physical_group_ent_tags);
+                       post_physical_group_ent_tags, remove_object, remove_tool);
 
   //==============================================================================
   // Process the material hierarchy
@@ -646,7 +651,7 @@ groupPreservingCut(gmsh::vectorpair const & object_dimtags,
   std::vector<std::vector<int>> post_physical_group_ent_tags(num_groups);
   getNewPhysicalGroups(object_dimtags, tool_dimtags, num_groups,
                        pre_physical_group_ent_tags, out_dimtags_map,
-                       post_physical_group_ent_tags);
+                       post_physical_group_ent_tags, remove_object, remove_tool);
 
   //==============================================================================
   // Create the new physical groups
-- 
2.43.0


From a2b02d04d6a38f3f6cdeaa71d5b843266daef5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:58:13 +0000
Subject: [PATCH 55/63] fix: do not remove a single physical group when
 extending it

---
 src/gmsh/model.cpp | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/gmsh/model.cpp b/src/gmsh/model.cpp
index 9972b26..0f9fadb 100644
--- a/src/gmsh/model.cpp
+++ b/src/gmsh/model.cpp
@@ -48,21 +48,34 @@ addToPhysicalGroup(int const dim, std::vector<int> const & tags, int const tag,
     std::string existing_group_name;
     gmsh::model::getPhysicalName(dim, existing_group_tag, existing_group_name);
     if (existing_group_name == name) {
-      std::vector<int> existing_tags;
-      gmsh::model::getEntitiesForPhysicalGroup(dim, existing_group_tag, existing_tags);
-      std::vector<int> new_tags(tags.size() + existing_tags.size());
-      std::merge(tags.begin(), tags.end(), existing_tags.begin(), existing_tags.end(),
-                 new_tags.begin());
-      gmsh::model::removePhysicalGroups({
-          {dim, existing_group_tag}
-      });
+      // Removing a single physical group and later all of them makes Gmsh free the group
+      // twice. Hence, remove all groups and add them again.
+      gmsh::vectorpair all_dimtags;
+      gmsh::model::getPhysicalGroups(all_dimtags);
+      std::vector<std::string> all_names(all_dimtags.size());
+      std::vector<std::vector<int>> all_tags(all_dimtags.size());
+      for (size_t i = 0; i < all_dimtags.size(); ++i) {
+        auto const & [group_dim, group_tag] = all_dimtags[i];
+        gmsh::model::getPhysicalName(group_dim, group_tag, all_names[i]);
+        gmsh::model::getEntitiesForPhysicalGroup(group_dim, group_tag, all_tags[i]);
+        if (group_dim == dim && group_tag == existing_group_tag) {
+          std::vector<int> const existing_tags = all_tags[i];
+          all_tags[i].resize(tags.size() + existing_tags.size());
+          std::merge(tags.begin(), tags.end(), existing_tags.begin(), existing_tags.end(),
+                     all_tags[i].begin());
+        }
+      }
+      gmsh::model::removePhysicalGroups();
+      for (size_t i = 0; i < all_dimtags.size(); ++i) {
+        auto const & [group_dim, group_tag] = all_dimtags[i];
 #  if UM2_ENABLE_ASSERTS
-      int const new_tag =
-          gmsh::model::addPhysicalGroup(dim, new_tags, existing_group_tag, name);
-      ASSERT(new_tag == existing_group_tag);
+        int const new_tag =
+            gmsh::model::addPhysicalGroup(group_dim, all_tags[i], group_tag, all_names[i]);
+        ASSERT(new_tag == group_tag);
 #  else
-      gmsh::model::addPhysicalGroup(dim, new_tags, existing_group_tag, name);
+        gmsh::model::addPhysicalGroup(group_dim, all_tags[i], group_tag, all_names[i]);
 #  endif
+      }
       return;
     }
   }
-- 
2.43.0


From 465a4e85cd980a341a366e9f9d16d641611075f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:58:13 +0000
Subject: [PATCH 56/63] fix: accept labelled points when a saved geometry is
 opened

---
 src/gmsh/io.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gmsh/io.cpp b/src/gmsh/io.cpp
index 35e31ef..fb39170 100644
--- a/src/gmsh/io.cpp
+++ b/src/gmsh/io.cpp
@@ -212,10 +212,10 @@ addPhysicalGroups(std::ifstream & info_file, std::string const & info_filename)
     size_t const name_start = line.find('"') + 1;
     size_t const name_end = line.find('"', name_start);
     std::string const name = line.substr(name_start, name_end - name_start);
-    // dim is 1, 2, or 3 and is 2 characters after the end of the name.
+    // dim is 0, 1, 2, or 3 and is 2 characters after the end of the name.
     size_t const dim_start = name_end + 2;
     int const dim = std::stoi(line.substr(dim_start, 1));
-    ASSERT(dim > 0);
+    ASSERT(dim >= 0);
     ASSERT(dim < 4);
 
     size_t const num_tags_start = dim_start + 2;
-- 
2.43.0


From 3d426fe07747542632d1b514bbe9330288b949dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:10:51 +0000
Subject: [PATCH 57/63] fix: apply a global mesh size after a mesh size field
 was used

---
 src/gmsh/mesh.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gmsh/mesh.cpp b/src/gmsh/mesh.cpp
index 8bbf62c..5be12fc 100644
--- a/src/gmsh/mesh.cpp
+++ b/src/gmsh/mesh.cpp
@@ -32,6 +32,9 @@ setGlobalMeshSize(double const size)
   gmsh::vectorpair dimtags;
   gmsh::model::getEntities(dimtags, 0);
   gmsh::model::mesh::setSize(dimtags, size);
+  // These are turned off by setMeshFieldFromKnudsenNumber, and stay off for the session
+  gmsh::option::setNumber("Mesh.MeshSizeExtendFromBoundary", 1);
+  gmsh::option::setNumber("Mesh.MeshSizeFromPoints", 1);
 }
 
 //=============================================================================
-- 
2.43.0


From d51aaccfb577edc75978facbee04e2eff32bd095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:11:30 +0000
Subject: [PATCH 58/63] fix: ignore groups other than materials when
 prescribing mesh sizes

---
 src/gmsh/mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gmsh/mesh.cpp b/src/gmsh/mesh.cpp
index 5be12fc..9187b98 100644
--- a/src/gmsh/mesh.cpp
+++ b/src/gmsh/mesh.cpp
@@ -182,7 +182,7 @@ setMeshFieldFromKnudsenNumber(int const dim, um2::Vector<Material> const & mater
     int const tag = dimtag.second;
     std::string name;
     gmsh::model::getPhysicalName(dim, tag, name);
-    if (name.starts_with("Material")) {
+    if (name.starts_with("Material_")) {
       material_group_names.push_back(name);
       material_group_tags.push_back(tag);
     }
-- 
2.43.0


From f698dbbe415b237002e1215d38c9a213764154cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:46:29 +0000
Subject: [PATCH 59/63] fix: do not read values beyond the end when validating
 cross sections

Validation reported a wrong number of values and then read one value per
group anyway, beyond the end of the data it had just found too short.
---
 src/physics/cross_section.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/physics/cross_section.cpp b/src/physics/cross_section.cpp
index c39436b..222f7fd 100644
--- a/src/physics/cross_section.cpp
+++ b/src/physics/cross_section.cpp
@@ -46,6 +46,14 @@ XSec::validate() const noexcept
     LOG_ERROR("Cross section has an incorrect scattering matrix size");
   }
 
+  // The values can only be examined if there is one for each group
+  if (_a.size() != _num_groups || _f.size() != _num_groups ||
+      _nuf.size() != _num_groups || _tr.size() != _num_groups ||
+      _s.size() != _num_groups || _ss.rows() != _num_groups ||
+      _ss.cols() != _num_groups) {
+    return;
+  }
+
   if (isMacro()) {
     for (Int i = 0; i < _num_groups; ++i) {
       auto const a = _a[i];
-- 
2.43.0


From 0b10f0f228da4ac273ab9dda602e78f7ac4f0746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:00:45 +0000
Subject: [PATCH 60/63] fix: report element sets stored with unsupported
 integer sizes

---
 src/mesh/polytope_soup.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index a4eeacf..033aee5 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -1943,6 +1943,8 @@ readXDMFElsets(pugi::xml_node const & xgrid, H5::H5File const & h5file,
       } else {
         logger::error("Unsupported attribute data type size");
       }
+    } else {
+      logger::error("Unsupported elset data type size");
     }
   }
 }
-- 
2.43.0


From 8ff8eebd3646da4822ea7283b6b6096bc9a3c58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:13:54 +0000
Subject: [PATCH 61/63] fix: report libraries that end early or hold another
 number of nuclides

---
 src/physics/cross_section_library.cpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/physics/cross_section_library.cpp b/src/physics/cross_section_library.cpp
index bb89a30..c46b5ce 100644
--- a/src/physics/cross_section_library.cpp
+++ b/src/physics/cross_section_library.cpp
@@ -185,6 +185,10 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
       return;
     }
   }
+  if (!file) {
+    LOG_ERROR("Unexpected end of MPACT library file: ", filename);
+    return;
+  }
 
   // %NUC
   //--------------------------------------------------------------------
@@ -202,6 +206,11 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
   auto & nuclides = lib.nuclides();
   nuclides.resize(num_nuclides);
   while (!line_view.starts_with("%END")) {
+    if (nuclide_ctr == num_nuclides) {
+      LOG_ERROR("More nuclides than expected in MPACT library file: ", filename);
+      return;
+    }
+
     // Skip the %NUC token
     StringView token = line_view.getTokenAndShrink();
 
@@ -254,7 +263,10 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
     line_view = StringView(line);
     line_view.removeLeadingSpaces();
     ASSERT(line_view.starts_with("TP1+"));
-    file.getline(line, max_line_length);
+    if (!file.getline(line, max_line_length)) {
+      LOG_ERROR("Unexpected end of MPACT library file: ", filename);
+      return;
+    }
     line_view = StringView(line);
     line_view.removeLeadingSpaces();
     for (Int itemp = 0; itemp < num_temps; ++itemp) {
@@ -285,7 +297,10 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
     for (Int ig = 0; ig < num_groups; ++ig) {
       for (Int itemp = 0; itemp < num_temps; ++itemp) {
 
-        file.getline(line, max_line_length);
+        if (!file.getline(line, max_line_length)) {
+          LOG_ERROR("Unexpected end of MPACT library file: ", filename);
+          return;
+        }
         line_view = StringView(line);
         line_view.removeLeadingSpaces();
 
@@ -423,9 +438,17 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
         break;
       }
     }
+    if (!file) {
+      LOG_ERROR("Unexpected end of MPACT library file: ", filename);
+      return;
+    }
 
     ++nuclide_ctr;
   } // while (!line.starts_with("%END"))
+  if (nuclide_ctr != num_nuclides) {
+    LOG_ERROR("Fewer nuclides than expected in MPACT library file: ", filename);
+    return;
+  }
 
   // close the file
   file.close();
-- 
2.43.0


From 388781ac01495ed22f21016e866a4c7c21d2241a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:13:54 +0000
Subject: [PATCH 62/63] fix: report XDMF meshes whose data do not match their
 description

---
 src/mesh/polytope_soup.cpp | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index 033aee5..b6e4de6 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -1456,6 +1456,10 @@ addNodesToSoup(PolytopeSoup & mesh, Int const num_verts, Int const num_dimension
                bool const xyz)
 {
   Vector<T> data_vec(num_verts * num_dimensions);
+  if (dataset.getSpace().getSimpleExtentNpoints() != data_vec.size()) {
+    logger::error("XDMF geometry dimensions do not match the data");
+    return;
+  }
   dataset.read(data_vec.data(), datatype);
   // Add the nodes to the mesh
   mesh.reserveMoreVertices(num_verts);
@@ -1579,14 +1583,30 @@ addElementsToSoup(Int const num_elements, String const & topology_type,
     ASSERT(end != nullptr);
     end = nullptr;
     Vector<T> data_vec(conn_length);
+    if (dataset.getSpace().getSimpleExtentNpoints() != conn_length) {
+      logger::error("XDMF topology dimensions do not match the data");
+      return;
+    }
     dataset.read(data_vec.data(), datatype);
     // Add the elements to the soup
     Int position = 0;
     Vector<Int> conn;
     for (Int i = 0; i < num_elements; ++i) {
+      if (position >= conn_length) {
+        logger::error("Mismatch in number of elements");
+        return;
+      }
       auto const element_type = static_cast<int8_t>(data_vec[position]);
       VTKElemType const elem_type = xdmfToVTKElemType(element_type);
+      if (elem_type == VTKElemType::Invalid) {
+        logger::error("Unsupported element type");
+        return;
+      }
       auto const npoints = verticesPerElem(elem_type);
+      if (position + npoints >= conn_length) {
+        logger::error("Mismatch in number of elements");
+        return;
+      }
       conn.resize(npoints);
       for (Int j = 0; j < npoints; ++j) {
         conn[j] = static_cast<Int>(data_vec[position + j + 1]);
@@ -1594,6 +1614,10 @@ addElementsToSoup(Int const num_elements, String const & topology_type,
       position += npoints + 1;
       soup.addElement(elem_type, conn);
     }
+    if (position != conn_length) {
+      logger::error("Mismatch in number of elements");
+      return;
+    }
   } else {
     Int const split = dimensions.find_last_of(' ');
     char * end = nullptr;
@@ -1608,6 +1632,10 @@ addElementsToSoup(Int const num_elements, String const & topology_type,
       return;
     }
     Vector<T> data_vec(ncells * nverts);
+    if (dataset.getSpace().getSimpleExtentNpoints() != data_vec.size()) {
+      logger::error("XDMF topology dimensions do not match the data");
+      return;
+    }
     dataset.read(data_vec.data(), datatype);
     VTKElemType elem_type = VTKElemType::Invalid;
     if (topology_type == "Triangle") {
@@ -1624,6 +1652,10 @@ addElementsToSoup(Int const num_elements, String const & topology_type,
       logger::error("Unsupported element type");
       return;
     }
+    if (nverts != verticesPerElem(elem_type)) {
+      logger::error("Mismatch in number of vertices per element");
+      return;
+    }
     Vector<Int> conn(nverts);
     // Add the elements to the soup
     soup.reserveMoreElements(elem_type, ncells);
@@ -1743,6 +1775,10 @@ addElsetToSoup(PolytopeSoup & soup, Int const num_elements, H5::DataSet const &
   }
   Vector<U> attribute_data_vec;
   attribute_data_vec.resize(num_elements);
+  if (attribute_dataset.getSpace().getSimpleExtentNpoints() != num_elements) {
+    logger::error("XDMF elset attribute does not match the elset");
+    return;
+  }
   attribute_dataset.read(attribute_data_vec.data(), attribute_datatype);
   Vector<Float> elset_data(num_elements);
   for (Int i = 0; i < num_elements; ++i) {
-- 
2.43.0


From a4bda6114f269ae78c52ea22fb10d49507535405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:13:54 +0000
Subject: [PATCH 63/63] fix: report unusable radii and materials of cylindrical
 pins

---
 src/gmsh/model.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/gmsh/model.cpp b/src/gmsh/model.cpp
index 0f9fadb..ae30013 100644
--- a/src/gmsh/model.cpp
+++ b/src/gmsh/model.cpp
@@ -712,9 +712,11 @@ addCylindricalPin2D(Vec2F const & center, Vector<Float> const & radii,
     LOG_ERROR("radii must be positive");
     return out_tags;
   }
-  if (!um2::is_sorted(radii.cbegin(), radii.cend())) {
-    LOG_ERROR("radii must be strictly increasing");
-    return out_tags;
+  for (Int i = 1; i < nradii; ++i) {
+    if (radii[i] <= radii[i - 1]) {
+      LOG_ERROR("radii must be strictly increasing");
+      return out_tags;
+    }
   }
   // Create the pin geometry
   out_tags.reserve(nradii);
@@ -816,6 +818,21 @@ addCylindricalPinLattice2D(Vector<Vector<Int>> const & pin_ids,
       }
     }
   }
+  // Ensure the radii and materials of each pin are valid
+  for (Int pin_id = 0; pin_id < nunique_pins; ++pin_id) {
+    auto const & pin_radii = radii[pin_id];
+    if (pin_radii.size() != materials[pin_id].size()) {
+      LOG_ERROR("Number of radii must equal to the number of materials");
+      return out_tags;
+    }
+    for (Int i = 0; i < pin_radii.size(); ++i) {
+      Float const prev = i == 0 ? static_cast<Float>(0) : pin_radii[i - 1];
+      if (pin_radii[i] <= prev) {
+        LOG_ERROR("radii must be positive and strictly increasing");
+        return out_tags;
+      }
+    }
+  }
   auto const nrow = pin_ids.size();
   // Use the rectilinear grid to validate the correctness of the lattice and
   // get the centroids of the grid cells.
-- 
2.43.0

