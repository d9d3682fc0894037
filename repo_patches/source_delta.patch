From 5d3e03a28aca82a72e6a7ea751c734dff9a8a21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:46 +0000
Subject: [PATCH 001/101] fix: check the backwards offset in enumerator item
 prev()

prev(offset) validated index + offset instead of index - offset, so it
rejected valid neighbours at the end of the range and read before the
start of it. check_offset was also not callable from the const overloads.
---
 src/hstd/stdlib/Enumerate.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hstd/stdlib/Enumerate.hpp b/src/hstd/stdlib/Enumerate.hpp
index 4e2e562..3728e67 100644
--- a/src/hstd/stdlib/Enumerate.hpp
+++ b/src/hstd/stdlib/Enumerate.hpp
@@ -34,7 +34,7 @@ class enumerator_impl {
                      - iterator_ref.skip_last;
             }
 
-            void check_offset(int offset) {
+            void check_offset(int offset) const {
                 int pos = index() + offset;
                 if (pos < 0 || size() <= pos) {
                     throw std::domain_error(
@@ -44,7 +44,7 @@ class enumerator_impl {
             }
 
             it_reference prev(int offset = 1) const {
-                check_offset(offset);
+                check_offset(-offset);
                 return *(iterator_ref.it - offset);
             }
 
@@ -54,7 +54,7 @@ class enumerator_impl {
             }
 
             it_reference prev(int offset = 1) {
-                check_offset(offset);
+                check_offset(-offset);
                 return *(iterator_ref.it - offset);
             }
 
-- 
2.43.0


From c4ca106e9aa23ea437b55ee68c212fd7ad2e5d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:46 +0000
Subject: [PATCH 002/101] fix: keep enumerator ranges with overlapping skips
 empty

When skip_first and skip_last together exceeded the sequence size the
begin iterator was placed after the end one and iteration ran past the
sequence. Item size and base index now use the clamped skip counts.
---
 src/hstd/stdlib/Enumerate.hpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/hstd/stdlib/Enumerate.hpp b/src/hstd/stdlib/Enumerate.hpp
index 3728e67..534ce82 100644
--- a/src/hstd/stdlib/Enumerate.hpp
+++ b/src/hstd/stdlib/Enumerate.hpp
@@ -99,27 +99,33 @@ class enumerator_impl {
 
     int base_size() const { return std::distance(base_begin, base_end); }
 
+    int leading_skip() const { return std::clamp(skip_first_base, 0, base_size()); }
+
+    /// Trailing skip never reaches into the elements removed by the leading one
+    int trailing_skip() const {
+        return std::clamp(skip_last_base, 0, base_size() - leading_skip());
+    }
+
     enumerate_iterator begin() {
-        auto start   = base_begin;
-        int  advance = std::clamp(skip_first_base, 0, base_size());
-        std::advance(start, advance);
+        auto start = base_begin;
+        std::advance(start, leading_skip());
         return enumerate_iterator{
             .idx        = 0,
             .it         = start,
-            .skip_first = skip_first_base,
-            .skip_last  = skip_last_base,
+            .skip_first = leading_skip(),
+            .skip_last  = trailing_skip(),
             .base_size  = base_size(),
         };
     }
 
     enumerate_iterator end() {
         auto end = base_end;
-        std::advance(end, -std::clamp(skip_last_base, 0, base_size()));
+        std::advance(end, -trailing_skip());
         return enumerate_iterator{
             .idx        = -1,
             .it         = end,
-            .skip_first = skip_first_base,
-            .skip_last  = skip_last_base,
+            .skip_first = leading_skip(),
+            .skip_last  = trailing_skip(),
             .base_size  = base_size(),
         };
     }
-- 
2.43.0


From 236a2dc0882c4df64efb797d7dcad378d116829d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:39 +0000
Subject: [PATCH 003/101] fix: make dyn_variant from_index instantiable

The index pack was declared as int while std::index_sequence carries
std::size_t, so no call of from_index could be compiled.
---
 src/hstd/stdlib/DynVariant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/DynVariant.hpp b/src/hstd/stdlib/DynVariant.hpp
index 3972ebe..3be70a7 100644
--- a/src/hstd/stdlib/DynVariant.hpp
+++ b/src/hstd/stdlib/DynVariant.hpp
@@ -125,7 +125,7 @@ decltype(auto) dyn_visit(Visitor&& vis, dyn_variant<Tag> const& v) {
         std::forward<Visitor>(vis), v, std::make_index_sequence<Tag::type_count>{});
 }
 
-template <typename Tag, typename Factory, int... Is>
+template <typename Tag, typename Factory, std::size_t... Is>
 dyn_variant<Tag> from_index_impl(
     int       index,
     Factory&& factory,
-- 
2.43.0


From ab88a5b410025634df44f9a64d89c253cb0d0f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:38 +0000
Subject: [PATCH 004/101] fix: saturate additions and subtractions of signed
 and mixed types

Overflow was detected by comparing the wrapped result with the operand,
which misfired for negative changes, for changes wider than the value
and for values that are promoted to int. Use the checked builtins and
saturate towards the bound the result ran past.
---
 src/hstd/system/basic_templates.hpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/hstd/system/basic_templates.hpp b/src/hstd/system/basic_templates.hpp
index 7002f53..b3d9890 100644
--- a/src/hstd/system/basic_templates.hpp
+++ b/src/hstd/system/basic_templates.hpp
@@ -125,27 +125,25 @@ struct value_domain_ungapped {
 
 template <std::integral T, std::integral Other>
 T saturating_add(T value, Other change) {
-    T res = value + change;
-    // Can only happen due to overflow
-    if (res < value) { res = value_domain<T>::high(); }
+    T res{};
+    if (__builtin_add_overflow(value, change, &res)) {
+        res = change < 0 ? value_domain<T>::low() : value_domain<T>::high();
+    }
     return res;
 }
 
 template <std::integral T, std::integral Other>
 T saturating_sub(T value, Other change) {
-    T res = value - change;
-    // Can only happen due to overflow
-    if (value < res) { res = value_domain<T>::low(); }
+    T res{};
+    if (__builtin_sub_overflow(value, change, &res)) {
+        res = change < 0 ? value_domain<T>::high() : value_domain<T>::low();
+    }
     return res;
 }
 
 template <std::integral T, std::integral Other>
 T saturating_add_any(T value, Other change) {
-    if (0 <= change) {
-        return saturating_add(value, change);
-    } else {
-        return saturating_sub(value, std::abs(change));
-    }
+    return saturating_add(value, change);
 }
 
 
-- 
2.43.0


From 9e490090302678113b67cc53fad73295740d8cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:38 +0000
Subject: [PATCH 005/101] fix: do not truncate ordinals of wide integers to int

value_domain::ord is declared to give a long long but converted the
value through int, so distinct 64-bit values shared an ordinal.
---
 src/hstd/system/basic_templates.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hstd/system/basic_templates.hpp b/src/hstd/system/basic_templates.hpp
index b3d9890..284f5ad 100644
--- a/src/hstd/system/basic_templates.hpp
+++ b/src/hstd/system/basic_templates.hpp
@@ -69,7 +69,9 @@ struct value_domain<T> {
     static inline T             high() { return std::numeric_limits<T>::max(); }
     static inline T             succ(T const& val) { return val + 1; }
     static inline T             prev(T const& val) { return val - 1; }
-    static inline long long int ord(T const& val) { return static_cast<int>(val); }
+    static inline long long int ord(T const& val) {
+        return static_cast<long long int>(val);
+    }
 };
 
 template <typename T>
-- 
2.43.0


From 39f44a7c9c463da6a4681c37b835d1b04292df19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:30:07 +0000
Subject: [PATCH 006/101] fix: keep zero bytes of string literals with the _qs
 suffix

The literal was cut at its first zero byte because the length passed by
the compiler was ignored.
---
 src/hstd/system/basic_typedefs.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hstd/system/basic_typedefs.hpp b/src/hstd/system/basic_typedefs.hpp
index 20c5b80..15f1e41 100644
--- a/src/hstd/system/basic_typedefs.hpp
+++ b/src/hstd/system/basic_typedefs.hpp
@@ -30,8 +30,8 @@ inline u8 operator""_u8(unsigned long long int value) {
     return static_cast<u8>(value);
 }
 
-inline std::string operator""_qs(char const* value,  [[maybe_unused]] unsigned long size) {
-    return std::string(value);
+inline std::string operator""_qs(char const* value, unsigned long size) {
+    return std::string(value, size);
 }
 
 template <typename T> using Ref   = T&;
-- 
2.43.0


From cbf7294e5e709988aed23104693c8b8c47bfe61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:04:40 +0000
Subject: [PATCH 007/101] fix: report slices that share a boundary value as
 overlapping

Slices are inclusive, so [0..1] and [1..2] share a value, and a point
slice overlaps itself. The bounds of the overlap were also computed as
int whatever the type of the slice.
---
 src/hstd/stdlib/Slice.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/hstd/stdlib/Slice.hpp b/src/hstd/stdlib/Slice.hpp
index 733041c..d2bce88 100644
--- a/src/hstd/stdlib/Slice.hpp
+++ b/src/hstd/stdlib/Slice.hpp
@@ -73,10 +73,8 @@ struct Slice : public HSlice<T, T> {
     }
 
     std::optional<Slice<T>> overlap(Slice<T> const& other) const {
-        if (first < other.last && other.first < last) {
-            int overlap_start = std::max(first, other.first);
-            int overlap_end   = std::min(last, other.last);
-            return Slice<int>{overlap_start, overlap_end};
+        if (first <= other.last && other.first <= last) {
+            return slice(std::max(first, other.first), std::min(last, other.last));
         } else {
             return std::nullopt;
         }
-- 
2.43.0


From 7538949aa282d5307cdc9c559db100a14bcf8894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:04:40 +0000
Subject: [PATCH 008/101] fix: compare vectors lexicographically

A greater item did not stop the comparison, so both a < b and b < a
could hold for the same two vectors and sorting them was undefined.
---
 src/hstd/stdlib/Vec.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hstd/stdlib/Vec.hpp b/src/hstd/stdlib/Vec.hpp
index 99f69d0..b01154d 100644
--- a/src/hstd/stdlib/Vec.hpp
+++ b/src/hstd/stdlib/Vec.hpp
@@ -33,6 +33,7 @@ bool itemwise_less_than(
                     );
          ++i) {
         if (cmp(lhs.at(i), rhs.at(i))) { return true; }
+        if (cmp(rhs.at(i), lhs.at(i))) { return false; }
     }
     return lhs.size() < rhs.size();
 }
-- 
2.43.0


From f781693992cc54d8ab5970639b64095c48b522a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:04:40 +0000
Subject: [PATCH 009/101] fix: do not report negative indices as present in an
 array

---
 src/hstd/stdlib/Array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/Array.hpp b/src/hstd/stdlib/Array.hpp
index b91236e..9207e4e 100644
--- a/src/hstd/stdlib/Array.hpp
+++ b/src/hstd/stdlib/Array.hpp
@@ -31,7 +31,7 @@ struct Array : std::array<T, Size> {
         return static_cast<std::array<T, Size>>(*this);
     }
 
-    bool has(int idx) const { return idx < size(); }
+    bool has(int idx) const { return 0 <= idx && idx < size(); }
 
     template <typename A, typename B>
     std::span<T> at(HSlice<A, B> const& s, bool checkRange = true) {
-- 
2.43.0


From 8180d615ed2cddc7d2208d33f1f3fdead9a1bd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:04:40 +0000
Subject: [PATCH 010/101] fix: visit every key once when listing pairs of a
 typed array

The loop compared the key with the highest one after stepping, which
never ends for keys that use the whole range of their type and never
starts for plain characters.
---
 src/hstd/stdlib/Array.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hstd/stdlib/Array.hpp b/src/hstd/stdlib/Array.hpp
index 9207e4e..d53e3b1 100644
--- a/src/hstd/stdlib/Array.hpp
+++ b/src/hstd/stdlib/Array.hpp
@@ -101,16 +101,16 @@ struct TypArray : public Array<Val, pow_v<2, 8 * sizeof(Key)>::res> {
 
 
     generator<Pair<Key, Val const*>> pairs() const {
-        for (auto i = value_domain<Key>::low(); i <= value_domain<Key>::high();
-             i      = value_domain<Key>::succ(i)) {
+        for (auto i = value_domain<Key>::low();; i = value_domain<Key>::succ(i)) {
             co_yield {i, &this->operator[](i)};
+            if (i == value_domain<Key>::high()) { break; }
         }
     }
 
     generator<Pair<Key, Val*>> pairs() {
-        for (auto i = value_domain<Key>::low(); i <= value_domain<Key>::high();
-             i      = value_domain<Key>::succ(i)) {
+        for (auto i = value_domain<Key>::low();; i = value_domain<Key>::succ(i)) {
             co_yield {i, &this->operator[](i)};
+            if (i == value_domain<Key>::high()) { break; }
         }
     }
 };
-- 
2.43.0


From 1e0b1858924f18a816bc67af531341601bdea404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:04:40 +0000
Subject: [PATCH 011/101] fix: give string slices their own length

The end position of the slice was used as its length, so slices that do
not start at index one were too long or too short and could reach past
the end of the string.
---
 src/hstd/stdlib/Str.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hstd/stdlib/Str.hpp b/src/hstd/stdlib/Str.hpp
index 7945e2d..3ca034e 100644
--- a/src/hstd/stdlib/Str.hpp
+++ b/src/hstd/stdlib/Str.hpp
@@ -47,13 +47,13 @@ struct [[refl(R"({"backend": {"target-backends": ["c"]}})")]] Str : public std::
     template <typename A, typename B>
     std::string_view at(HSlice<A, B> const& s, bool checkRange = true) {
         const auto [start, end] = getSpan(size(), s, checkRange);
-        return std::string_view(this->data() + start, end);
+        return std::string_view(this->data() + start, end - start + 1);
     }
 
     template <typename A, typename B>
     const std::string_view at(HSlice<A, B> const& s, bool checkRange = true) const {
         const auto [start, end] = getSpan(size(), s, checkRange);
-        return std::string_view(this->data() + start, end);
+        return std::string_view(this->data() + start, end - start + 1);
     }
 
     template <typename A, typename B>
-- 
2.43.0


From dbe9c6baec58d3bcfc6072838b14e2b92c9d8cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:04:40 +0000
Subject: [PATCH 012/101] fix: do not loop forever replacing an empty string

---
 src/hstd/stdlib/Str.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hstd/stdlib/Str.cpp b/src/hstd/stdlib/Str.cpp
index 98c6b47..31dc44b 100644
--- a/src/hstd/stdlib/Str.cpp
+++ b/src/hstd/stdlib/Str.cpp
@@ -59,6 +59,7 @@ char& hstd::Str::at(int pos) {
 }
 
 Str hstd::Str::replaceAll(Str const& from, Str const& to) const {
+    if (from.empty()) { return *this; }
     size_t startPos = 0;
     Str    result   = *this;
     while ((startPos = result.find(from, startPos)) != std::string::npos) {
-- 
2.43.0


From a8715430b99f0a1e08588aa5694fee86f8da73ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:04:40 +0000
Subject: [PATCH 013/101] fix: keep the size of a moved window when its end is
 moved

Moving the end of a fixed-size span also changed its size, and moving
it past its data raised an error instead of giving an empty span like
the start does.
---
 src/hstd/stdlib/Span.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hstd/stdlib/Span.hpp b/src/hstd/stdlib/Span.hpp
index 07fceb6..576ffd1 100644
--- a/src/hstd/stdlib/Span.hpp
+++ b/src/hstd/stdlib/Span.hpp
@@ -100,8 +100,7 @@ class Span : public std::span<T> {
         /// directions.
         bool fixSize = false) {
         if (fixSize) {
-            auto data = dataAtOffset(steps);
-            *this     = Span<T>(data, clampSize(size() + steps, data, maxEnd));
+            moveStart(steps, maxEnd, true);
         } else {
             *this = Span<T>(data(), clampSize(size() + steps, data(), maxEnd));
         }
-- 
2.43.0


From 1754898fc1d1c9426f8998d73aa2f09e1e29269d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:04:40 +0000
Subject: [PATCH 014/101] fix: make the complement of an integer set
 instantiable

---
 src/hstd/stdlib/IntSet.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/IntSet.hpp b/src/hstd/stdlib/IntSet.hpp
index 4bfd621..2bbc261 100644
--- a/src/hstd/stdlib/IntSet.hpp
+++ b/src/hstd/stdlib/IntSet.hpp
@@ -135,7 +135,11 @@ struct [[refl(R"({
 
     /// Return complement of the set that contains all values that were not
     /// placed in the original set.
-    IntSet<T> operator~() { return {.values = ~values}; }
+    IntSet<T> operator~() const {
+        IntSet<T> result;
+        result.values = ~values;
+        return result;
+    }
 
     int  size() const { return values.count(); }
     bool empty() const { return size() == 0; }
-- 
2.43.0


From 604ab8cfef22db4443f25b99de93bdc20311e9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:31:43 +0000
Subject: [PATCH 015/101] fix: wrap words without counting a space before the
 first one

The line width was updated after the word had been added, so every line was
counted one column too wide and words that fitted exactly were wrapped.
---
 src/hstd/stdlib/strutils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/strutils.cpp b/src/hstd/stdlib/strutils.cpp
index 7160356..8d2a1e7 100644
--- a/src/hstd/stdlib/strutils.cpp
+++ b/src/hstd/stdlib/strutils.cpp
@@ -385,8 +385,8 @@ Str hstd::wrap_text(Vec<Str> const& words, int maxWidth, bool justified) {
         if (maxWidth < (currentWidth + word.size() + (buffer.empty() ? 0 : 1))) {
             if (!buffer.empty()) { fold_buffer(); }
         }
-        buffer.push_back(word);
         currentWidth += word.size() + (buffer.empty() ? 0 : 1);
+        buffer.push_back(word);
     }
 
     if (!buffer.empty()) { fold_buffer(); }
-- 
2.43.0


From 27c47b638f192d5e600128ab36863457a680b51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:31:43 +0000
Subject: [PATCH 016/101] fix: splitting by an empty delimiter returns

The search position never advanced past an empty delimiter, so the loop kept
appending empty tokens until memory ran out.
---
 src/hstd/stdlib/strutils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hstd/stdlib/strutils.cpp b/src/hstd/stdlib/strutils.cpp
index 8d2a1e7..c736fc2 100644
--- a/src/hstd/stdlib/strutils.cpp
+++ b/src/hstd/stdlib/strutils.cpp
@@ -691,6 +691,10 @@ std::string hstd::format_table(
 
 Vec<Str> hstd::split(Str const& value, Str const& delimiter) {
     Vec<Str> tokens;
+    if (delimiter.empty()) {
+        tokens.push_back(value);
+        return tokens;
+    }
     size_t   start = 0;
     size_t   end   = value.find(delimiter);
 
-- 
2.43.0


From a9a27b44199056351121337bb23d37218aa4309e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:47:35 +0000
Subject: [PATCH 017/101] fix: keep the first common item of a longest common
 subsequence

When nothing before the first matching pair was common, the backtracking had
no partial result to extend and dropped the whole subsequence.
---
 src/hstd/stdlib/diffs.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hstd/stdlib/diffs.cpp b/src/hstd/stdlib/diffs.cpp
index 7f7249a..fbf9161 100644
--- a/src/hstd/stdlib/diffs.cpp
+++ b/src/hstd/stdlib/diffs.cpp
@@ -72,6 +72,7 @@ Vec<BacktrackRes> hstd::longestCommonSubsequence(
         } else if (itemCmp(lhsIdx, rhsIdx)) {
             auto              back = backtrack(lhsIdx - 1, rhsIdx - 1);
             Vec<BacktrackRes> res;
+            if (back.empty()) { back.push_back(BacktrackRes{}); }
             for (const auto& t : back) {
                 res.push_back(
                     {.lhsIndex = t.lhsIndex + lhsIdx, .rhsIndex = t.rhsIndex + rhsIdx});
-- 
2.43.0


From dd2af7b901f87a3cde7e4d8033e5bb6119752575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:47:35 +0000
Subject: [PATCH 018/101] fix: show the new side of replacements in shifted
 diffs

A replacement contributed only the removed item, so the inserted one was
missing from the new side of the diff.
---
 src/hstd/stdlib/diffs.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hstd/stdlib/diffs.cpp b/src/hstd/stdlib/diffs.cpp
index fbf9161..f44ea2a 100644
--- a/src/hstd/stdlib/diffs.cpp
+++ b/src/hstd/stdlib/diffs.cpp
@@ -293,6 +293,7 @@ hstd::ShiftedDiff::ShiftedDiff(Vec<SeqEdit> const& diff) {
         switch (line.kind) {
             case sek::Replace:
                 oldShifted.push_back({sek::Replace, line.sourcePos});
+                newShifted.push_back({sek::Replace, line.targetPos});
                 break;
 
             case sek::None:
-- 
2.43.0


From e850bac0a8f7d12158e489eccae7a8eeae8f04d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:47:35 +0000
Subject: [PATCH 019/101] fix: include the last line in grouped diffs

The grouping loop stopped before the last line, ran past the end for a single
line, and indexed into empty input.
---
 src/hstd/stdlib/diffs.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/diffs.cpp b/src/hstd/stdlib/diffs.cpp
index f44ea2a..1326b47 100644
--- a/src/hstd/stdlib/diffs.cpp
+++ b/src/hstd/stdlib/diffs.cpp
@@ -447,6 +447,7 @@ hstd::FormattedDiff::FormattedDiff(
         assert(!conf.sideBySide);
         // Grouping line edits is not possible in the side-by-side
         // representation, so going directly for unified one.
+        if (oldText.empty()) { return; }
         Vec<BufItem> lhsBuf = {oldText[0]};
         Vec<BufItem> rhsBuf = {newText[0]};
 
@@ -473,7 +474,7 @@ hstd::FormattedDiff::FormattedDiff(
         };
 
         for (auto it = oldText.begin() + 1, jt = newText.begin() + 1;
-             it != oldText.end() - 1;
+             it != oldText.end();
              ++it, ++jt) {
             if (it->kind != lhsBuf.back().kind || jt->kind != rhsBuf.back().kind) {
                 // If one of the edit streaks finished, dump both
-- 
2.43.0


From 6d01b76af09cc8a0eac6413395c6bd4b7851abc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:47:35 +0000
Subject: [PATCH 020/101] fix: print the line of the diff entry being formatted

Formatted lines are stored per diff entry but were looked up by the position
in the original sequence, so any insertion or deletion shifted the text.
---
 src/hstd/stdlib/diffs.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hstd/stdlib/diffs.cpp b/src/hstd/stdlib/diffs.cpp
index 1326b47..8c34847 100644
--- a/src/hstd/stdlib/diffs.cpp
+++ b/src/hstd/stdlib/diffs.cpp
@@ -630,12 +630,12 @@ ColText FormattedDiff::format() {
 
             os << (ColText(lhsStyle, toPrefix(lhs.prefix)) <<= linePrefixSize)
                << ((lhs.empty() ? ColText("")
-                                : formattedLines.at(lhs.index().value())
+                                : formattedLines.at(i)
                                       .first.withStyle(lhsStyle)) <<= lhsSize)
                << splitSeparator //
                << (ColText(rhsStyle, toPrefix(rhs.prefix)) <<= linePrefixSize)
                << ((rhs.empty() ? ColText("")
-                                : formattedLines.at(rhs.index().value())
+                                : formattedLines.at(i)
                                       .second.withStyle(rhsStyle)) <<= rhsSize)
                << "\n";
         }
-- 
2.43.0


From 6946fadf827dd87ed05961b2bc9a6999fba15dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:47:35 +0000
Subject: [PATCH 021/101] fix: limit the width of formatted diff lines

The inclusive slice used to cut a line reached one past its end, so lines that
were not longer than the limit were refused.
---
 src/hstd/stdlib/diffs.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/hstd/stdlib/diffs.cpp b/src/hstd/stdlib/diffs.cpp
index 8c34847..9e372c8 100644
--- a/src/hstd/stdlib/diffs.cpp
+++ b/src/hstd/stdlib/diffs.cpp
@@ -552,13 +552,11 @@ ColText FormattedDiff::format() {
             auto lhsLine = conf.formatLine(pair.first);
             auto rhsLine = conf.formatLine(pair.second);
             if (conf.maxLhsSize) {
-                lhsLine = lhsLine.at(
-                    slice(0, std::min(lhsLine.size(), conf.maxLhsSize.value())));
+                lhsLine.resize(std::min(lhsLine.size(), conf.maxLhsSize.value()));
             }
 
             if (conf.maxRhsSize) {
-                rhsLine = rhsLine.at(
-                    slice(0, std::min(rhsLine.size(), conf.maxRhsSize.value())));
+                rhsLine.resize(std::min(rhsLine.size(), conf.maxRhsSize.value()));
             }
 
             formattedLines.push_back({lhsLine, rhsLine});
-- 
2.43.0


From 31ecbe9ff24400ab85d6b90807a8fa5362e53b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:47:35 +0000
Subject: [PATCH 022/101] fix: format a diff of two empty sequences

The column widths were taken as the maximum of an empty range, which is
undefined, before the empty diff was reported.
---
 src/hstd/stdlib/diffs.cpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/hstd/stdlib/diffs.cpp b/src/hstd/stdlib/diffs.cpp
index 9e372c8..25ad955 100644
--- a/src/hstd/stdlib/diffs.cpp
+++ b/src/hstd/stdlib/diffs.cpp
@@ -562,19 +562,12 @@ ColText FormattedDiff::format() {
             formattedLines.push_back({lhsLine, rhsLine});
         }
 
-        int lhsSize = std::max(
-            conf.minLhsSize.value_or(0),
-            rs::max(
-                formattedLines | rv::transform([](Pair<ColText, ColText> const& elem) {
-                    return elem.first.size();
-                })));
-
-        int rhsSize = std::max(
-            conf.minRhsSize.value_or(0),
-            rs::max(
-                formattedLines | rv::transform([](Pair<ColText, ColText> const& elem) {
-                    return elem.second.size();
-                })));
+        int lhsSize = conf.minLhsSize.value_or(0);
+        int rhsSize = conf.minRhsSize.value_or(0);
+        for (auto const& elem : formattedLines) {
+            lhsSize = std::max(lhsSize, elem.first.size());
+            rhsSize = std::max(rhsSize, elem.second.size());
+        }
 
         int const linePrefixSize = 2;
 
-- 
2.43.0


From b5e55464623aa4d769bf2fad8b0f296119e8a326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:47:35 +0000
Subject: [PATCH 023/101] fix: keep the score configuration alive in the linear
 score function

The returned function referred to the configuration passed by the caller,
which is usually a temporary.
---
 src/hstd/stdlib/diffs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/diffs.cpp b/src/hstd/stdlib/diffs.cpp
index 25ad955..7959c96 100644
--- a/src/hstd/stdlib/diffs.cpp
+++ b/src/hstd/stdlib/diffs.cpp
@@ -851,7 +851,7 @@ fuzzy_result fuzzy_match_recursive(
 
 FuzzyMatcher::ScoreFunc hstd::FuzzyMatcher::getLinearScore(
     LinearScoreConfig const& conf) {
-    return [&conf](Range const& _str, int nextMatch, Vec<int> const& matches) -> int {
+    return [conf](Range const& _str, int nextMatch, Vec<int> const& matches) -> int {
         auto str      = _str;
         int  outScore = 0;
         // Iterate str to end
-- 
2.43.0


From 20adde7af8404e53713e9747f545da3b2ea09a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:47:35 +0000
Subject: [PATCH 024/101] fix: return the formatted line diff

The result was bound to new names in an inner scope, so the function returned
empty text for every pair of lines.
---
 src/hstd/stdlib/diffs.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hstd/stdlib/diffs.hpp b/src/hstd/stdlib/diffs.hpp
index 96271be..312e400 100644
--- a/src/hstd/stdlib/diffs.hpp
+++ b/src/hstd/stdlib/diffs.hpp
@@ -443,11 +443,11 @@ inline Pair<ColText, ColText> formatLineDiff(
         auto oldVisible = toVisibleNames(conf, oldLineSplit);
         auto newVisible = toVisibleNames(conf, newLineSplit);
 
-        auto const& [oldLineLine, newLineLine] = formatDiffed(
+        std::tie(oldLineLine, newLineLine) = formatDiffed(
             diffed.operations, oldVisible.toSpan(), newVisible.toSpan(), conf);
 
     } else {
-        auto const& [oldLineLine, newLineLine] = formatDiffed(
+        std::tie(oldLineLine, newLineLine) = formatDiffed(
             diffed.operations, oldLineSplit.toSpan(), newLineSplit.toSpan(), conf);
     }
 
-- 
2.43.0


From 12b83b92e1b40af28091acac28f51ce023888441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:47:35 +0000
Subject: [PATCH 025/101] fix: name the filled-in side of padded pairs
 correctly

The flags telling which side was filled in were declared in the opposite order
of the values produced for them.
---
 src/hstd/stdlib/diffs.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/diffs.hpp b/src/hstd/stdlib/diffs.hpp
index 312e400..451e494 100644
--- a/src/hstd/stdlib/diffs.hpp
+++ b/src/hstd/stdlib/diffs.hpp
@@ -241,8 +241,8 @@ template <typename T>
 struct ZipToMaxResult {
     T    lhs;
     T    rhs;
-    bool rhsDefault;
     bool lhsDefault;
+    bool rhsDefault;
     int  idx;
 };
 
-- 
2.43.0


From ca4cbf5b9a9e9a8067e9935914df97882a399474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:12:45 +0000
Subject: [PATCH 026/101] fix: stop reading multi-byte words at the end of the
 text

---
 src/haxorg/base_lexer/base_token_tokenize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/haxorg/base_lexer/base_token_tokenize.cpp b/src/haxorg/base_lexer/base_token_tokenize.cpp
index 4420682..79cc430 100644
--- a/src/haxorg/base_lexer/base_token_tokenize.cpp
+++ b/src/haxorg/base_lexer/base_token_tokenize.cpp
@@ -203,7 +203,7 @@ struct Cursor {
     }
 
     int is_at_unicode(int offset = 0) {
-        return 0xF0 <= static_cast<unsigned char>(get(offset));
+        return has_pos(offset) && 0xF0 <= static_cast<unsigned char>(get(offset));
     }
 
     bool nextUnicode() {
-- 
2.43.0


From c3bd4b5e1723ad12d9d5bfe26b13e1533b1758a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:12:45 +0000
Subject: [PATCH 027/101] fix: compare keywords case-insensitively only within
 the text

---
 src/haxorg/base_lexer/base_token_tokenize.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/haxorg/base_lexer/base_token_tokenize.cpp b/src/haxorg/base_lexer/base_token_tokenize.cpp
index 79cc430..c7e6102 100644
--- a/src/haxorg/base_lexer/base_token_tokenize.cpp
+++ b/src/haxorg/base_lexer/base_token_tokenize.cpp
@@ -152,8 +152,9 @@ struct Cursor {
 
     bool is_iat(std::string const& text, int offset = 0) const {
         for (int i = 0; i < text.size(); ++i) {
-            if (std::tolower(static_cast<unsigned char>(get(i + offset)))
-                != std::tolower(static_cast<unsigned char>(text.at(i)))) {
+            if (!has_pos(i + offset)
+                || std::tolower(static_cast<unsigned char>(get(i + offset)))
+                       != std::tolower(static_cast<unsigned char>(text.at(i)))) {
                 return false;
             }
         }
-- 
2.43.0


From dbadef794ae3c47706d3ca326bd8d9a0c0283257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:12:45 +0000
Subject: [PATCH 028/101] fix: record the line of lexed tokens

---
 src/haxorg/base_lexer/base_token_tokenize.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/haxorg/base_lexer/base_token_tokenize.cpp b/src/haxorg/base_lexer/base_token_tokenize.cpp
index c7e6102..f1c32d4 100644
--- a/src/haxorg/base_lexer/base_token_tokenize.cpp
+++ b/src/haxorg/base_lexer/base_token_tokenize.cpp
@@ -404,10 +404,10 @@ struct Cursor {
         Args&&... args) {
         OrgToken tok;
         tok->loc = org::parse::SourceLoc{
+            .line    = this->line,
             .column  = this->col,
-            .file_id = this->file_id,
             .pos     = this->pos,
-            .column  = this->col,
+            .file_id = this->file_id,
         };
 
         tok.kind = kind;
-- 
2.43.0


From cc02ada71ce335eafcd18bb81885f2f4a6e0e02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:12:45 +0000
Subject: [PATCH 029/101] fix: end a colon command argument at the end of the
 text

---
 src/haxorg/base_lexer/base_token_tokenize.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/haxorg/base_lexer/base_token_tokenize.cpp b/src/haxorg/base_lexer/base_token_tokenize.cpp
index f1c32d4..06643a7 100644
--- a/src/haxorg/base_lexer/base_token_tokenize.cpp
+++ b/src/haxorg/base_lexer/base_token_tokenize.cpp
@@ -570,7 +570,9 @@ void switch_cmd_argument(Cursor& c) {
             } else {
                 c.token0(otk::CmdRawArg, [](Cursor& c) {
                     c.next();
-                    while (!c.is_at_any_of(0, '(', ')', ']', '[', '=', ',', ' ', '\n')) {
+                    while (c.has_text()
+                           && !c.is_at_any_of(
+                               0, '(', ')', ']', '[', '=', ',', ' ', '\n')) {
                         c.next();
                     }
                 });
-- 
2.43.0


From bd930ccb99e4a1ddbf53005fa6d24d43bc73a16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:12:45 +0000
Subject: [PATCH 030/101] fix: let unterminated blocks run to the end of the
 text

---
 src/haxorg/base_lexer/base_token_tokenize.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/haxorg/base_lexer/base_token_tokenize.cpp b/src/haxorg/base_lexer/base_token_tokenize.cpp
index 06643a7..7a35ad0 100644
--- a/src/haxorg/base_lexer/base_token_tokenize.cpp
+++ b/src/haxorg/base_lexer/base_token_tokenize.cpp
@@ -771,34 +771,34 @@ void switch_command(Cursor& c) {
             head.kind = otk::CmdExportBegin;
             head_args();
             c.token0(otk::Newline, &advance1);
-            int offset;
-            while ((offset = get_end_block_offset("export")) == -1) {
+            int offset = -1;
+            while (c.has_text() && (offset = get_end_block_offset("export")) == -1) {
                 auto __guard = c.advance_guard();
                 c.token0(otk::CmdExportLine, [](Cursor& c) {
                     while (c.can_search('\n')) { c.next(); }
                 });
                 if (c.is_at('\n')) { c.token0(otk::Newline, &advance1); }
             }
-            c.token1(otk::CmdExportEnd, &advance_count, offset);
+            if (offset != -1) { c.token1(otk::CmdExportEnd, &advance_count, offset); }
         } else if (block_kind == "example") {
             head.kind = otk::CmdExampleBegin;
             head_args();
             c.token0(otk::Newline, &advance1);
-            int offset;
-            while ((offset = get_end_block_offset("example")) == -1) {
+            int offset = -1;
+            while (c.has_text() && (offset = get_end_block_offset("example")) == -1) {
                 auto __guard = c.advance_guard();
                 c.token0(otk::CmdExampleLine, [](Cursor& c) {
                     while (c.can_search('\n')) { c.next(); }
                 });
                 if (c.is_at('\n')) { c.token0(otk::Newline, &advance1); }
             }
-            c.token1(otk::CmdExampleEnd, &advance_count, offset);
+            if (offset != -1) { c.token1(otk::CmdExampleEnd, &advance_count, offset); }
         } else if (block_kind == "src") {
             head.kind = otk::CmdSrcBegin;
             head_args();
             c.token0(otk::Newline, &advance1);
-            int offset;
-            while ((offset = get_end_block_offset("src")) == -1) {
+            int offset = -1;
+            while (c.has_text() && (offset = get_end_block_offset("src")) == -1) {
                 auto __guard = c.advance_guard();
                 if (c.is_at_all_of(0, '<', '<')) {
                     c.token1(otk::DoubleAngleBegin, &advance_count, 2);
@@ -816,7 +816,7 @@ void switch_command(Cursor& c) {
                 }
                 if (c.is_at('\n')) { c.token0(otk::Newline, &advance1); }
             }
-            c.token1(otk::CmdSrcEnd, &advance_count, offset);
+            if (offset != -1) { c.token1(otk::CmdSrcEnd, &advance_count, offset); }
         } else {
             head.kind = otk::CmdDynamicBlockBegin;
             head_args();
-- 
2.43.0


From 8058bc8f5c5e31da9712372d38a6e48f40f8d391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:12:45 +0000
Subject: [PATCH 031/101] fix: count the indentation of a table separator once

---
 src/haxorg/base_lexer/base_token_tokenize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/haxorg/base_lexer/base_token_tokenize.cpp b/src/haxorg/base_lexer/base_token_tokenize.cpp
index 7a35ad0..7cfd12f 100644
--- a/src/haxorg/base_lexer/base_token_tokenize.cpp
+++ b/src/haxorg/base_lexer/base_token_tokenize.cpp
@@ -1098,7 +1098,7 @@ void switch_regular_char(Cursor& c) {
             c.token_adv(otk::LeadingPipe, *span + skip);
             return;
         } else if (auto span = is_at_table_separator(c, skip)) {
-            c.token_adv(otk::TableSeparator, *span + skip);
+            c.token_adv(otk::TableSeparator, *span);
             return;
         } else if (auto span = c.try_lexy_patt<LEXY_ILIT("clock:")>(skip)) {
             c.token_adv(otk::TreeClock, *span + skip);
-- 
2.43.0


From eecb705e959d7f5795f833ec130fd555dbcbebad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:12:45 +0000
Subject: [PATCH 032/101] fix: do not read the target of an unterminated link

---
 src/haxorg/base_lexer/base_token_tokenize.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/haxorg/base_lexer/base_token_tokenize.cpp b/src/haxorg/base_lexer/base_token_tokenize.cpp
index 7cfd12f..08bdb29 100644
--- a/src/haxorg/base_lexer/base_token_tokenize.cpp
+++ b/src/haxorg/base_lexer/base_token_tokenize.cpp
@@ -1276,7 +1276,8 @@ void switch_regular_char(Cursor& c) {
                 c.token_adv(otk::FootnoteInlineBegin, *span);
             } else if (
                 auto span = c.try_lexy_patt<
-                            LEXY_LIT("[[") + dsl::p<org_ident> + dsl::lit_c<':'>>()) {
+                            LEXY_LIT("[[") + dsl::p<org_ident> + dsl::lit_c<':'>
+                            + dsl::until(link_end)>()) {
                 c.token_adv(otk::LinkBegin, 2);
 
                 if (c.is_iat("http")) {
-- 
2.43.0


From 108ed6f26c2117934f8f87f719f39663b43ac31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:15:30 +0000
Subject: [PATCH 033/101] fix: record where line breaks start rather than where
 they end

---
 src/haxorg/base_lexer/base_token_tokenize.cpp | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/haxorg/base_lexer/base_token_tokenize.cpp b/src/haxorg/base_lexer/base_token_tokenize.cpp
index 08bdb29..8d60490 100644
--- a/src/haxorg/base_lexer/base_token_tokenize.cpp
+++ b/src/haxorg/base_lexer/base_token_tokenize.cpp
@@ -363,22 +363,22 @@ struct Cursor {
     }
 
     void range_token(
-        OrgTokenKind kind,
-        int          start,
-        int          end,
-        int          line     = __builtin_LINE(),
-        char const*  function = __builtin_FUNCTION()) {
+        OrgTokenKind  kind,
+        Recall const& start,
+        int           end,
+        int           line     = __builtin_LINE(),
+        char const*   function = __builtin_FUNCTION()) {
         OrgToken tok;
         tok->loc = org::parse::SourceLoc{
-            .column  = this->col,
-            .line    = this->line,
-            .pos     = start,
+            .column  = start.col,
+            .line    = start.line,
+            .pos     = start.pos,
             .file_id = file_id,
         };
         tok.kind = kind;
 
         tok.value.text = std::string{
-            text.begin() + start,
+            text.begin() + start.pos,
             text.begin() + end,
         };
 
@@ -1547,7 +1547,7 @@ void switch_regular_char(Cursor& c) {
             break;
         }
         case '\n': {
-            int start        = c.pos;
+            auto start       = c.getRecall();
             int end          = c.pos;
             int newlineCount = 0;
             while (c.is_at('\n')) {
-- 
2.43.0


From 6f45379817b61037f1a1e59dce50757020682cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:17:01 +0000
Subject: [PATCH 034/101] fix: treat src words without a body as plain words

---
 src/haxorg/base_lexer/base_token_tokenize.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/haxorg/base_lexer/base_token_tokenize.cpp b/src/haxorg/base_lexer/base_token_tokenize.cpp
index 8d60490..be9fe2e 100644
--- a/src/haxorg/base_lexer/base_token_tokenize.cpp
+++ b/src/haxorg/base_lexer/base_token_tokenize.cpp
@@ -968,7 +968,8 @@ void switch_word(Cursor& c) {
                 auto span = c.try_lexy_patt<
                             dsl::ascii::case_folding(LEXY_LIT("src"))
                             + dsl::opt(dsl::lit_c<'_'>)
-                            + dsl::while_one(dsl::ascii::alpha_digit_underscore)>()) {
+                            + dsl::while_one(dsl::ascii::alpha_digit_underscore)>();
+                span && c.is_at('{', *span)) {
                 c.token_adv(otk::TextSrcBegin, *span);
                 lex_inline_src();
                 return;
-- 
2.43.0


From 4b54d3f26d5a1a07d419dca624a37c10fbccae34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:17:59 +0000
Subject: [PATCH 035/101] fix: recognise latex commands by their normalised
 names

---
 src/haxorg/base_lexer/base_token_tokenize.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/haxorg/base_lexer/base_token_tokenize.cpp b/src/haxorg/base_lexer/base_token_tokenize.cpp
index be9fe2e..bc02bc9 100644
--- a/src/haxorg/base_lexer/base_token_tokenize.cpp
+++ b/src/haxorg/base_lexer/base_token_tokenize.cpp
@@ -642,12 +642,12 @@ UnorderedMap<std::string, CommandSpec> CmdSpec{
     {"call", CommandSpec{.token = otk::CmdCall, .type = CommandType::Args}},
     {"row", CommandSpec{.token = otk::CmdRow, .type = CommandType::Args}},
     {"cell", CommandSpec{.token = otk::CmdCell, .type = CommandType::Args}},
-    {"latex_class", CommandSpec{.token = otk::CmdLatexClass, .type = CommandType::Args}},
-    {"latex_compiler",
+    {"latexclass", CommandSpec{.token = otk::CmdLatexClass, .type = CommandType::Args}},
+    {"latexcompiler",
      CommandSpec{.token = otk::CmdLatexCompiler, .type = CommandType::Args}},
-    {"latex_header",
+    {"latexheader",
      CommandSpec{.token = otk::CmdLatexHeader, .type = CommandType::Args}},
-    {"latex_class_options",
+    {"latexclassoptions",
      CommandSpec{.token = otk::CmdLatexClassOptions, .type = CommandType::Args}},
 };
 
-- 
2.43.0


From a50d7aa38f83b260a8f38f2eedac8f248fa7515a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:59 +0000
Subject: [PATCH 036/101] fix: do not shift by the full width when ids have no
 mask

---
 src/hstd/stdlib/dod_base.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hstd/stdlib/dod_base.hpp b/src/hstd/stdlib/dod_base.hpp
index 4e874d6..f70c048 100644
--- a/src/hstd/stdlib/dod_base.hpp
+++ b/src/hstd/stdlib/dod_base.hpp
@@ -119,12 +119,14 @@ struct [[nodiscard]] Id {
     /// \brief Get mask value
     inline MaskType getMask() const {
 #pragma clang diagnostic ignored "-Wshift-count-overflow"
+        if (mask_size == 0) { return 0; }
         return (value & (~IdType(0) << mask_offset)) >> mask_offset;
     }
 
     /// \brief Get direct value of the mask, with right-padded zeroes that
     /// were occupied by the value.
     inline MaskType getMaskUnshifed() const {
+        if (mask_size == 0) { return 0; }
         return (value & (~IdType(0) << mask_offset));
     }
 
-- 
2.43.0


From d3b28f23919ad806f39dd5cb7f57ba8cd48399be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:59 +0000
Subject: [PATCH 037/101] fix: keep the id mask in place when setting the
 unmasked part

---
 src/hstd/stdlib/dod_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/dod_base.hpp b/src/hstd/stdlib/dod_base.hpp
index f70c048..96ee209 100644
--- a/src/hstd/stdlib/dod_base.hpp
+++ b/src/hstd/stdlib/dod_base.hpp
@@ -131,7 +131,7 @@ struct [[nodiscard]] Id {
     }
 
     /// \brief Set unmasked portion of the value
-    inline void setUnmasked(IdType base) { value = getMask() | base; }
+    inline void setUnmasked(IdType base) { value = getMaskUnshifed() | base; }
 
     /// \brief Set mask for the ID
     inline void setMask(MaskType mask) {
-- 
2.43.0


From 7b7a735ad778dbd634007ff5f1c730581423ece2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:34:59 +0000
Subject: [PATCH 038/101] fix: allow formatting nil ids

---
 src/hstd/stdlib/dod_base.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/dod_base.hpp b/src/hstd/stdlib/dod_base.hpp
index 96ee209..dc2b016 100644
--- a/src/hstd/stdlib/dod_base.hpp
+++ b/src/hstd/stdlib/dod_base.hpp
@@ -214,7 +214,8 @@ struct [[nodiscard]] Id {
 
     /// \brief Write strig representation of the ID into output stream
     std::string format(FormatConfig const& conf = FormatConfig{}) const {
-        return detail::format_id(getMask(), getIndex(), mask_size, conf, isNil());
+        return detail::format_id(
+            getMask(), isNil() ? 0 : getIndex(), mask_size, conf, isNil());
     }
 
   public:
-- 
2.43.0


From 413d0b06d566fc69dcd620efb56f79890d28993b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:42:40 +0000
Subject: [PATCH 039/101] fix: report a stray block end command as a parse
 error node

---
 src/haxorg/parse/OrgParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/haxorg/parse/OrgParser.cpp b/src/haxorg/parse/OrgParser.cpp
index fab44ee..3c550a8 100644
--- a/src/haxorg/parse/OrgParser.cpp
+++ b/src/haxorg/parse/OrgParser.cpp
@@ -2431,7 +2431,7 @@ OrgParser::ParseResult OrgParser::parseLineCommand(OrgLexer& lex) {
 
 
         default: {
-            throw fatalError(lex, hstd::fmt("Unhandled command kind {}", lex.kind(+1)));
+            return error_end(ErrorTable::UnexpectedToken, lex);
         }
     }
 
-- 
2.43.0


From 825405fa4d0dcee023a0e38ff76e973238815ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:42:40 +0000
Subject: [PATCH 040/101] fix: parse critic markup without content

---
 src/haxorg/parse/OrgParser.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/haxorg/parse/OrgParser.cpp b/src/haxorg/parse/OrgParser.cpp
index 3c550a8..9efc5b5 100644
--- a/src/haxorg/parse/OrgParser.cpp
+++ b/src/haxorg/parse/OrgParser.cpp
@@ -1378,8 +1378,12 @@ OrgParser::ParseResult OrgParser::parseCriticMarkup(OrgLexer& lex) {
     SubLexer sub{lex};
     while (lex.can_search(e)) { sub.add(lex.pop()); }
 
-    sub.start();
-    SUB_PARSE(Paragraph, sub);
+    if (sub.empty()) {
+        empty();
+    } else {
+        sub.start();
+        SUB_PARSE(Paragraph, sub);
+    }
     TRY_SKIP(lex, e);
     return criticGuard->end();
 }
-- 
2.43.0


From 5773644bf60ee64801633505e05a40ce509ceabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:42:40 +0000
Subject: [PATCH 041/101] fix: parse inline footnotes without content

---
 src/haxorg/parse/OrgParser.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/haxorg/parse/OrgParser.cpp b/src/haxorg/parse/OrgParser.cpp
index 9efc5b5..c002f80 100644
--- a/src/haxorg/parse/OrgParser.cpp
+++ b/src/haxorg/parse/OrgParser.cpp
@@ -1048,8 +1048,12 @@ OrgParser::ParseResult OrgParser::parseFootnote(OrgLexer& lex) {
         TRY_SKIP(lex, otk::FootnoteInlineBegin);
         SubLexer sub{lex};
         while (!lex.finished() && !lex.at(otk::BraceEnd)) { sub.add(pop(lex)); }
-        sub.start();
-        SUB_PARSE(Paragraph, sub);
+        if (sub.empty()) {
+            empty();
+        } else {
+            sub.start();
+            SUB_PARSE(Paragraph, sub);
+        }
         TRY_SKIP(lex, otk::BraceEnd, MissingClosingBracket);
         return inlineGuard->end();
     }
-- 
2.43.0


From 3a0555a727116fc67c832fa1950353bcb470fd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:42:40 +0000
Subject: [PATCH 042/101] fix: report parse errors on tokens without a source
 location

---
 src/haxorg/parse/OrgParserUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/haxorg/parse/OrgParserUtils.cpp b/src/haxorg/parse/OrgParserUtils.cpp
index 2d1ef26..f4090bb 100644
--- a/src/haxorg/parse/OrgParserUtils.cpp
+++ b/src/haxorg/parse/OrgParserUtils.cpp
@@ -197,7 +197,7 @@ OrgNodeMono::Error OrgParser::error_value(
     }
 
     if (failToken) {
-        fail.err.loc       = failToken->value.loc.value();
+        if (failToken->value.loc) { fail.err.loc = failToken->value.loc.value(); }
         fail.err.tokenText = failToken->value.text;
     }
 
-- 
2.43.0


From 30dcd183f7b659174425e4acb229e748c416e0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:42:40 +0000
Subject: [PATCH 043/101] fix: stop merging a quoted command argument at the
 end of the tokens

---
 src/haxorg/parse/OrgTokenizer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/haxorg/parse/OrgTokenizer.cpp b/src/haxorg/parse/OrgTokenizer.cpp
index 3c25ace..2de0745 100644
--- a/src/haxorg/parse/OrgTokenizer.cpp
+++ b/src/haxorg/parse/OrgTokenizer.cpp
@@ -423,8 +423,8 @@ struct RecombineState {
                     Vec<OrgToken> buf;
                     buf.push_back(lex.tok());
                     lex.pop();
-                    while (lex.tok().kind == OrgTokenKind::Whitespace
-                           || lex.tok().kind == OrgTokenKind::CmdRawArg) {
+                    while (lex.at(OrgTokenKind::Whitespace)
+                           || lex.at(OrgTokenKind::CmdRawArg)) {
                         buf.push_back(lex.tok());
                         lex.pop();
                         if (buf.back().value.text.ends_with('"')) { break; }
-- 
2.43.0


From 4aad86423f5a1d483e16608dfa3a0856b236bb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:42:40 +0000
Subject: [PATCH 044/101] fix: stop mapping property text at the end of the
 tokens

---
 src/haxorg/parse/OrgTokenizer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/haxorg/parse/OrgTokenizer.cpp b/src/haxorg/parse/OrgTokenizer.cpp
index 2de0745..49e863b 100644
--- a/src/haxorg/parse/OrgTokenizer.cpp
+++ b/src/haxorg/parse/OrgTokenizer.cpp
@@ -375,8 +375,8 @@ struct RecombineState {
                 while (lex.at(otk::Whitespace)) { lex.next(); }
                 break;
             case otk::CmdPropertyText:
-                pop_as(otk::CmdRawArg);
-                while (!lex.at(line_end)) { map_interpreted_token(); }
+                if (lex.can_search(line_end)) { pop_as(otk::CmdRawArg); }
+                while (lex.can_search(line_end)) { map_interpreted_token(); }
                 break;
             default:
         }
-- 
2.43.0


From e1b9cab114c1314ccffd4c07191e48cb9f819b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:45:39 +0000
Subject: [PATCH 045/101] fix: parse a dynamic timestamp start at the end of
 the text

---
 src/haxorg/parse/OrgParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/haxorg/parse/OrgParser.cpp b/src/haxorg/parse/OrgParser.cpp
index c002f80..af44631 100644
--- a/src/haxorg/parse/OrgParser.cpp
+++ b/src/haxorg/parse/OrgParser.cpp
@@ -897,6 +897,8 @@ OrgParser::ParseResult OrgParser::parseTimeStamp(OrgLexer& lex) {
                 }
                 TRY_SKIP(lex, otk::ParEnd);
                 return stmtGuard->end();
+            } else if (lex.finished()) {
+                return ParseOk{empty()};
             } else {
                 return ParseOk{token(onk::RawText, pop(lex))};
             }
-- 
2.43.0


From 5fb3a4046dccb892b0d3761795ca18ebbdc02682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:46:45 +0000
Subject: [PATCH 046/101] fix: end a block at a heading that directly follows
 its first line

---
 src/haxorg/parse/OrgParser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/haxorg/parse/OrgParser.cpp b/src/haxorg/parse/OrgParser.cpp
index af44631..9d9818b 100644
--- a/src/haxorg/parse/OrgParser.cpp
+++ b/src/haxorg/parse/OrgParser.cpp
@@ -1480,7 +1480,8 @@ OrgParser::ParseResult OrgParser::parseTextWrapCommand(OrgLexer& lex) {
         hstd::replace_all(tmp, "begin", "end");
         Str endName = normalize(tmp);
         print(hstd::fmt("Dynamic block, name {}", endName));
-        while (lex.can_search(Vec<otk>{otk::CmdPrefix, endTok}) && lex.hasNext(2)
+        while (lex.can_search(Vec<otk>{otk::CmdPrefix, endTok})
+               && !lex.at(BlockTerminator) && lex.hasNext(2)
                && normalize(lex.val(1).text) != endName) {
             SUB_PARSE(StmtListItem, lex);
             if (lex.at(BlockTerminator)) {
@@ -1489,7 +1490,8 @@ OrgParser::ParseResult OrgParser::parseTextWrapCommand(OrgLexer& lex) {
             }
         }
     } else {
-        while (lex.can_search(Vec<otk>{otk::CmdPrefix, endTok})) {
+        while (lex.can_search(Vec<otk>{otk::CmdPrefix, endTok})
+               && !lex.at(BlockTerminator)) {
             SUB_PARSE(StmtListItem, lex);
             if (lex.at(BlockTerminator)) {
                 print(hstd::fmt("block terminator {}", lex));
-- 
2.43.0


From e9d1266153b8bdf2a4d31e85c33b1c9a527e278f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:48:37 +0000
Subject: [PATCH 047/101] fix: report malformed macros as parse error nodes

---
 src/haxorg/parse/OrgParser.cpp | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/src/haxorg/parse/OrgParser.cpp b/src/haxorg/parse/OrgParser.cpp
index 9d9818b..40be95b 100644
--- a/src/haxorg/parse/OrgParser.cpp
+++ b/src/haxorg/parse/OrgParser.cpp
@@ -190,15 +190,6 @@ OrgParser::ParseResult OrgParser::parseMacro(OrgLexer& lex) {
     __perf_trace("parsing", "parseMacro");
     auto __trace = trace(lex);
 
-    int closingOffset = 0;
-    while (lex.hasNext(closingOffset) && !lex.at(otk::CurlyEnd, closingOffset)) {
-        ++closingOffset;
-    }
-
-    bool hasClose = lex.at(otk::CurlyEnd, closingOffset)
-                 && lex.at(otk::CurlyEnd, closingOffset + 1)
-                 && lex.at(otk::CurlyEnd, closingOffset + 2);
-
     auto macroGuard = start(onk::Macro);
     TRY_SKIP(lex, otk::CurlyBegin);
     TRY_SKIP(lex, otk::CurlyBegin);
@@ -211,12 +202,10 @@ OrgParser::ParseResult OrgParser::parseMacro(OrgLexer& lex) {
         if (lex.at(otk::CurlyEnd)) {
             std::ignore = skip(lex, otk::CurlyEnd);
         } else {
-            LOGIC_ASSERTION_CHECK_FMT(!hasClose, "");
             return error_end(ErrorTable::MissingMacroClose, lex);
         }
     }
 
-    LOGIC_ASSERTION_CHECK_FMT(hasClose, "");
     return macroGuard->end();
 }
 
-- 
2.43.0


From 6613049899b3c4cf77ddda141559c5340d858500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:48:37 +0000
Subject: [PATCH 048/101] fix: report unexpected tokens in code blocks as parse
 error nodes

---
 src/haxorg/parse/OrgParser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/haxorg/parse/OrgParser.cpp b/src/haxorg/parse/OrgParser.cpp
index 40be95b..c353489 100644
--- a/src/haxorg/parse/OrgParser.cpp
+++ b/src/haxorg/parse/OrgParser.cpp
@@ -1647,8 +1647,7 @@ OrgParser::ParseResult OrgParser::parseSrc(OrgLexer& lex) {
                         break;
                     }
                     default: {
-                        throw fatalError(
-                            lex, hstd::fmt("Unhandled code parse token {}", lex.tok()));
+                        return error_end(ErrorTable::UnexpectedToken, lex);
                     }
                 }
             }
-- 
2.43.0


From 4f79a2d25be819951d0c107f182d45f6c6b303dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:48:37 +0000
Subject: [PATCH 049/101] fix: end an unterminated block table cell at a
 heading or the end of the text

---
 src/haxorg/parse/OrgParser.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/haxorg/parse/OrgParser.cpp b/src/haxorg/parse/OrgParser.cpp
index c353489..876738f 100644
--- a/src/haxorg/parse/OrgParser.cpp
+++ b/src/haxorg/parse/OrgParser.cpp
@@ -1254,9 +1254,12 @@ OrgParser::ParseResult OrgParser::parseTableBlockRow(OrgLexer& lex) {
             auto cellGuard = start(onk::TableCell);
             SUB_PARSE(CommandArguments, lex);
             auto stmtGuard = start(onk::StmtList);
-            while (!(
-                lex.at(otk::CmdPrefix)
-                && lex.at(OrgTokSet{otk::CmdCell, otk::CmdRow, otk::CmdTableEnd}, +1))) {
+            while (
+                !lex.finished() && !lex.at(BlockTerminator)
+                && !(
+                    lex.at(otk::CmdPrefix)
+                    && lex.at(
+                        OrgTokSet{otk::CmdCell, otk::CmdRow, otk::CmdTableEnd}, +1))) {
                 SUB_PARSE(StmtListItem, lex);
             }
             stmtGuard->end();
-- 
2.43.0


From 4c7f6a762992dd6b732def329cde9cebe2f28d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:49:49 +0000
Subject: [PATCH 050/101] fix: parse an empty results command at the end of the
 text

---
 src/haxorg/parse/OrgParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/haxorg/parse/OrgParser.cpp b/src/haxorg/parse/OrgParser.cpp
index 876738f..a2f67c1 100644
--- a/src/haxorg/parse/OrgParser.cpp
+++ b/src/haxorg/parse/OrgParser.cpp
@@ -1682,7 +1682,7 @@ OrgParser::ParseResult OrgParser::parseSrc(OrgLexer& lex) {
         space(lex);
         SUB_PARSE(CommandArguments, lex);
         newline(lex);
-        if (!lex.at(otk::SubtreeStars)) {
+        if (!lex.finished() && !lex.at(otk::SubtreeStars)) {
             SUB_PARSE(StmtListItem, lex);
         } else {
             empty();
-- 
2.43.0


From 0a25f11dff45a851481ee9bdcaeea1d12ed9b5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:52:14 +0000
Subject: [PATCH 051/101] fix: stop reading an unterminated link at the end of
 its paragraph

---
 src/haxorg/parse/OrgParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/haxorg/parse/OrgParser.cpp b/src/haxorg/parse/OrgParser.cpp
index a2f67c1..3b332f1 100644
--- a/src/haxorg/parse/OrgParser.cpp
+++ b/src/haxorg/parse/OrgParser.cpp
@@ -686,7 +686,7 @@ OrgParser::ParseResult OrgParser::parseLink(OrgLexer& lex) {
             default:
                 token(onk::Word, TRY_POPX(lex, otk::LinkProtocol));
                 SubLexer sub{lex};
-                while (!lex.at(OrgTokSet{otk::LinkSplit, otk::LinkEnd})) {
+                while (lex.can_search(OrgTokSet{otk::LinkSplit, otk::LinkEnd})) {
                     sub.add(pop(lex));
                 }
                 if (sub.empty()) {
-- 
2.43.0


From 951bbbdbccd0366caa2911e8d1d51d55f4875899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:55:41 +0000
Subject: [PATCH 052/101] fix: parse a symbol with an unterminated bracket
 argument

---
 src/haxorg/parse/OrgParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/haxorg/parse/OrgParser.cpp b/src/haxorg/parse/OrgParser.cpp
index 3b332f1..31ed634 100644
--- a/src/haxorg/parse/OrgParser.cpp
+++ b/src/haxorg/parse/OrgParser.cpp
@@ -739,7 +739,7 @@ OrgParser::ParseResult OrgParser::parseSymbol(OrgLexer& lex) {
         auto stmtGuard = start(onk::InlineStmtList);
         while (lex.at(otk::BraceBegin)) {
             TRY_SKIP(lex, otk::BraceBegin);
-            token(onk::RawText, pop(lex));
+            if (!lex.finished()) { token(onk::RawText, pop(lex)); }
             TRY_SKIP(lex, otk::BraceEnd);
         }
         stmtGuard->end();
-- 
2.43.0


From 8d9e0396e6a7715b55c1ab0084c5228679460f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:55:41 +0000
Subject: [PATCH 053/101] fix: stop collecting nested tokens at the end of the
 lexer

---
 src/haxorg/lexbase/Lexer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/haxorg/lexbase/Lexer.hpp b/src/haxorg/lexbase/Lexer.hpp
index b6b140b..6ab7e7d 100644
--- a/src/haxorg/lexbase/Lexer.hpp
+++ b/src/haxorg/lexbase/Lexer.hpp
@@ -314,11 +314,11 @@ struct LexerCommon {
         hstd::IntSet<K> const& finish) {
         hstd::Vec<TokenId<K, V>> result;
         int                      count = 0;
-        while (start.contains(kind())) { next(); }
+        while (!finished() && start.contains(kind())) { next(); }
         count++;
         while (0 < count && !finished()) {
             if (!finished() && start.contains(kind())) {
-                while (start.contains(kind())) {
+                while (!finished() && start.contains(kind())) {
                     // TODO identical to the inner loop -- implement unit
                     // test to get coverage for this case to make sure this
                     // can be safely removed.
-- 
2.43.0


From 82d8e9e71deabf3fcc946dbc5aa6d98720a96c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:00:25 +0000
Subject: [PATCH 054/101] fix: drop the footnote marker whatever its letter
 case

---
 src/haxorg/parse/OrgTokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/haxorg/parse/OrgTokenizer.cpp b/src/haxorg/parse/OrgTokenizer.cpp
index 49e863b..1a41d85 100644
--- a/src/haxorg/parse/OrgTokenizer.cpp
+++ b/src/haxorg/parse/OrgTokenizer.cpp
@@ -529,7 +529,7 @@ struct RecombineState {
             }
 
             case otk::FootnoteLinked: {
-                auto text = lex.val().text.dropPrefix("[fn:").dropSuffix("]");
+                auto text = lex.val().text.substr(4).dropSuffix("]");
                 add_fake(otk::FootnoteLinked, loc_fill(text));
                 lex.next();
                 break;
-- 
2.43.0


From 292d54cf0d634ba4604b7983aaa880be1d4df249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:23:47 +0000
Subject: [PATCH 055/101] fix: keep the target of links with a custom protocol

---
 src/haxorg/sem/SemConvert.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/haxorg/sem/SemConvert.cpp b/src/haxorg/sem/SemConvert.cpp
index a23745e..cbcf4f2 100644
--- a/src/haxorg/sem/SemConvert.cpp
+++ b/src/haxorg/sem/SemConvert.cpp
@@ -1287,6 +1287,9 @@ OrgConverter::ConvResult<Link> OrgConverter::convertLink(__args) {
 
         } else {
             link->target = LinkTarget{LinkTarget::UserProtocol{.protocol = protocol}};
+            for (auto const& it : one(a, N::Link)) {
+                link->target.getUserProtocol().target += get_text(it);
+            }
         }
     }
 
-- 
2.43.0


From f3dd752f21a66cf2bef8a08de7b6c6e0bde0498f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:23:47 +0000
Subject: [PATCH 056/101] fix: do not report bulleted lists as numbered

---
 src/haxorg/sem/SemOrgSharedApi.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/haxorg/sem/SemOrgSharedApi.cpp b/src/haxorg/sem/SemOrgSharedApi.cpp
index a324433..7e3ee24 100644
--- a/src/haxorg/sem/SemOrgSharedApi.cpp
+++ b/src/haxorg/sem/SemOrgSharedApi.cpp
@@ -734,14 +734,18 @@ bool List_isDescriptionList(Handle handle) {
 
 template <typename Handle>
 bool List_isNumberedList(Handle handle) {
-    auto h = getConstHandle(handle);
+    auto h        = getConstHandle(handle);
+    auto isNumber = [](Opt<Str> const& bullet) {
+        return bullet.has_value() && *bullet != "-" && *bullet != "+" && *bullet != "*";
+    };
+
     for (const auto& sub : getSubnodes(handle, false)) {
         if (is_kind(sub, OrgSemKind::ListItem)) {
             auto sub_as = org_cast<sem::ListItem>(sub);
             if constexpr (IsSemOrgInstance<Handle>) {
-                if (sub_as->bullet.has_value()) { return true; }
+                if (isNumber(sub_as->bullet)) { return true; }
             } else {
-                if (sub_as->bullet.get().has_value()) { return true; }
+                if (isNumber(sub_as->bullet.get())) { return true; }
             }
         }
     }
-- 
2.43.0


From a88b78bfb06dd302f8faf884965458ca9bd8d985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:29:02 +0000
Subject: [PATCH 057/101] fix: find attached attributes of commands without own
 parameters

---
 src/haxorg/sem/SemOrgSharedApi.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/haxorg/sem/SemOrgSharedApi.cpp b/src/haxorg/sem/SemOrgSharedApi.cpp
index 7e3ee24..18be8df 100644
--- a/src/haxorg/sem/SemOrgSharedApi.cpp
+++ b/src/haxorg/sem/SemOrgSharedApi.cpp
@@ -576,14 +576,10 @@ Opt<sem::AttrValue> Cmd_getFirstAttr(Handle handle, Str const& kind) {
     auto h = getConstHandle(handle);
     if (!isBoolFalse(h->attrs)) {
         auto res = Attrs_getAttrs(h->attrs, kind);
-        if (res.empty()) {
-            return std::nullopt;
-        } else {
-            return res.front();
-        }
-    } else {
-        return Stmt_getFirstAttr(handle, kind);
+        if (!res.empty()) { return res.front(); }
     }
+
+    return Stmt_getFirstAttr(handle, kind);
 }
 
 template <typename Handle>
-- 
2.43.0


From caf2099e1464c523b2500e4061d39121a329064b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:50:02 +0000
Subject: [PATCH 058/101] fix: format links to headings with their level

---
 src/haxorg/sem/SemOrgFormat.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/haxorg/sem/SemOrgFormat.cpp b/src/haxorg/sem/SemOrgFormat.cpp
index c0aa699..d26ab7f 100644
--- a/src/haxorg/sem/SemOrgFormat.cpp
+++ b/src/haxorg/sem/SemOrgFormat.cpp
@@ -653,7 +653,9 @@ auto Formatter::toString(sem::LinkTarget const& t, Context const& ctx) -> Res {
         }
 
         case LinkTarget::Kind::SubtreeTitle: {
-            head = str("*" + FormatPath(t.getSubtreeTitle().title));
+            head = str(
+                std::string(t.getSubtreeTitle().level, '*')
+                + FormatPath(t.getSubtreeTitle().title));
             break;
         }
 
-- 
2.43.0


From 7aa7a5e13f1df1fa0af0b37c69c707a936eb2d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:50:02 +0000
Subject: [PATCH 059/101] fix: format the latex class as latex class

---
 src/haxorg/sem/SemOrgFormat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/haxorg/sem/SemOrgFormat.cpp b/src/haxorg/sem/SemOrgFormat.cpp
index d26ab7f..9681615 100644
--- a/src/haxorg/sem/SemOrgFormat.cpp
+++ b/src/haxorg/sem/SemOrgFormat.cpp
@@ -357,7 +357,7 @@ auto Formatter::toString(SemId<Document> id, Context const& ctx) -> Res {
                 case P::Kind::ExportLatexClass: {
                     add(result,
                         str(hstd::fmt(
-                            "#+latex_header: {}",
+                            "#+latex_class: {}",
                             prop.getExportLatexClass().latexClass)));
                     break;
                 }
-- 
2.43.0


From 7aaeae66362c6773febacc3dc15e998ebdf28ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:50:02 +0000
Subject: [PATCH 060/101] fix: do not add lines when formatting example blocks

---
 src/haxorg/sem/SemOrgFormat.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/haxorg/sem/SemOrgFormat.cpp b/src/haxorg/sem/SemOrgFormat.cpp
index 9681615..9dfeab1 100644
--- a/src/haxorg/sem/SemOrgFormat.cpp
+++ b/src/haxorg/sem/SemOrgFormat.cpp
@@ -1658,9 +1658,19 @@ auto Formatter::toString(SemId<CmdExport> id, Context const& ctx) -> Res {
 
 auto Formatter::toString(SemId<BlockExample> id, Context const& ctx) -> Res {
     if (id.isNil()) { return str("<nil>"); }
-    return b.stack(
-        Vec<Res>::Splice(
-            str("#+begin_example"), toSubnodes(id, ctx), str("#+end_example")));
+    Res result = b.stack({str("#+begin_example")});
+    Res line   = b.line({str("")});
+    for (auto const& sub : id->subnodes) {
+        if (sub->is(OrgSemKind::RawText) && sub.as<RawText>()->text == "\n") {
+            add(result, line);
+            line = b.line({str("")});
+        } else {
+            add(line, toString(sub, ctx));
+        }
+    }
+    add(result, line);
+    add(result, str("#+end_example"));
+    return result;
 }
 
 auto Formatter::toString(SemId<BlockDynamicFallback> id, Context const& ctx) -> Res {
-- 
2.43.0


From 98879501173c46c77d5e019af67eaeb2dd487f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:50:02 +0000
Subject: [PATCH 061/101] fix: format repeated attributes on one line

---
 src/haxorg/sem/SemOrgFormat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/haxorg/sem/SemOrgFormat.cpp b/src/haxorg/sem/SemOrgFormat.cpp
index 9dfeab1..e31634d 100644
--- a/src/haxorg/sem/SemOrgFormat.cpp
+++ b/src/haxorg/sem/SemOrgFormat.cpp
@@ -58,7 +58,7 @@ void Formatter::add(Res id, Res other) {
 }
 
 Formatter::Res Formatter::toString(sem::AttrList const& args, Context const& ctx) {
-    Res res = b.stack();
+    Res res = b.line();
     for (auto const& it : enumerator(args.items)) {
         if (!it.is_first()) { b.add_at(res, str(" ")); }
         b.add_at(res, toString(it.value(), ctx));
-- 
2.43.0


From ca280e72f656d5b077ebcc98bd21d1ebb2342386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:50:02 +0000
Subject: [PATCH 062/101] fix: separate table and custom command attributes
 from the command when formatting

---
 src/haxorg/sem/SemOrgFormat.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/haxorg/sem/SemOrgFormat.cpp b/src/haxorg/sem/SemOrgFormat.cpp
index e31634d..6f00fc5 100644
--- a/src/haxorg/sem/SemOrgFormat.cpp
+++ b/src/haxorg/sem/SemOrgFormat.cpp
@@ -798,7 +798,7 @@ auto Formatter::toString(SemId<CmdCustomRaw> id, Context const& ctx) -> Res {
 
 auto Formatter::toString(SemId<CmdCustomArgs> id, Context const& ctx) -> Res {
     if (id.isNil()) { return str("<nil>"); }
-    return b.line({str(hstd::fmt("#+{}:", id->name)), toString(id->attrs, ctx)});
+    return b.line({str(hstd::fmt("#+{}: ", id->name)), toString(id->attrs, ctx)});
 }
 
 auto Formatter::toString(SemId<CmdCustomText> id, Context const& ctx) -> Res {
@@ -1057,7 +1057,7 @@ auto Formatter::toString(SemId<Table> id, Context const& ctx) -> Res {
     if (id->isBlock) {
         add(result,
             b.line({
-                str("#+begin_table"),
+                str(id->attrs.isEmpty() ? "#+begin_table" : "#+begin_table "),
                 toString(id->attrs, ctx),
             }));
     }
@@ -1065,14 +1065,14 @@ auto Formatter::toString(SemId<Table> id, Context const& ctx) -> Res {
     for (auto const& in_row : id->rows) {
         if (in_row->isBlock) {
             Res row = b.stack({b.line({
-                str("#+row:"),
+                str(in_row->attrs.isEmpty() ? "#+row:" : "#+row: "),
                 toString(in_row->attrs, ctx),
             })});
 
             for (auto const& in_cell : in_row->cells) {
                 if (in_cell->isBlock) {
                     Res cell = b.stack({b.line({
-                        str("#+cell:"),
+                        str(in_cell->attrs.isEmpty() ? "#+cell:" : "#+cell: "),
                         toString(in_cell->attrs, ctx),
                     })});
                     for (auto const& item : in_cell) { add(cell, toString(item, ctx)); }
-- 
2.43.0


From cb20c3354270e6ad8adf6c6b64d52f8efedad488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:50:02 +0000
Subject: [PATCH 063/101] fix: format the attributes of dynamic blocks

---
 src/haxorg/sem/SemOrgFormat.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/haxorg/sem/SemOrgFormat.cpp b/src/haxorg/sem/SemOrgFormat.cpp
index 6f00fc5..a4a1866 100644
--- a/src/haxorg/sem/SemOrgFormat.cpp
+++ b/src/haxorg/sem/SemOrgFormat.cpp
@@ -1675,9 +1675,13 @@ auto Formatter::toString(SemId<BlockExample> id, Context const& ctx) -> Res {
 
 auto Formatter::toString(SemId<BlockDynamicFallback> id, Context const& ctx) -> Res {
     if (id.isNil()) { return str("<nil>"); }
+    Res head = b.line({str("#+begin_" + id->name)});
+    if (!id->attrs.isEmpty()) {
+        add(head, str(" "));
+        add(head, toString(id->attrs, ctx));
+    }
     return b.stack(
-        Vec<Res>::Splice(
-            str("#+begin_" + id->name), toSubnodes(id, ctx), str("#+end_" + id->name)));
+        Vec<Res>::Splice(head, toSubnodes(id, ctx), str("#+end_" + id->name)));
 }
 
 auto Formatter::toString(SemId<ColonExample> id, Context const& ctx) -> Res {
-- 
2.43.0


From 1b5aca9e0b46b87d298e6aa2296f6cfa085a6bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:50:02 +0000
Subject: [PATCH 064/101] fix: parse heading times on several indented lines

---
 src/haxorg/parse/OrgParser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/haxorg/parse/OrgParser.cpp b/src/haxorg/parse/OrgParser.cpp
index 31ed634..710308c 100644
--- a/src/haxorg/parse/OrgParser.cpp
+++ b/src/haxorg/parse/OrgParser.cpp
@@ -1993,8 +1993,11 @@ OrgParser::ParseResult OrgParser::parseSubtreeTimes(OrgLexer& lex) {
         space(lex);
         auto subtreeTimesGuard = start(onk::StmtList);
         while (lex.at(otk::TreeTime)
-               || (lex.at(otk::Newline) && lex.at(otk::TreeTime, +1))) {
+               || (lex.at(otk::Newline) && lex.at(otk::TreeTime, +1))
+               || (lex.at(otk::Newline) && lex.at(otk::LeadingSpace, +1)
+                   && lex.at(otk::TreeTime, +2))) {
             newline(lex);
+            space(lex);
             auto stmtGuard = start(onk::InlineStmtList);
             token(onk::Word, pop(lex));
             space(lex);
-- 
2.43.0


From 22ad1a29753ac592f2cc216ef92c3b63a9744198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:50:02 +0000
Subject: [PATCH 065/101] fix: keep separators out of the name and text of
 custom commands

---
 src/haxorg/sem/SemConvert.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/haxorg/sem/SemConvert.cpp b/src/haxorg/sem/SemConvert.cpp
index cbcf4f2..0d6e5ec 100644
--- a/src/haxorg/sem/SemConvert.cpp
+++ b/src/haxorg/sem/SemConvert.cpp
@@ -1401,8 +1401,8 @@ OrgConverter::ConvResult<CmdCustomRaw> OrgConverter::convertCmdCustomRaw(__args)
     __perf_trace("convert", "convertCmdCaption");
     auto __trace = trace(a);
     auto cmd     = Sem<CmdCustomRaw>(a);
-    cmd->name    = get_text(one(a, N::Name));
-    if (1 < a.size()) { cmd->text = get_text(one(a, N::Args)); }
+    cmd->name    = strip(get_text(one(a, N::Name)), CharSet{}, CharSet{':'});
+    if (1 < a.size()) { cmd->text = strip_space(get_text(one(a, N::Args))); }
     return cmd;
 }
 
-- 
2.43.0


From f432222a65b95fd71f4af1da609766d4022e951e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:50:02 +0000
Subject: [PATCH 066/101] fix: keep the indentation out of property names with
 arguments

---
 src/haxorg/sem/SemConvert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/haxorg/sem/SemConvert.cpp b/src/haxorg/sem/SemConvert.cpp
index 0d6e5ec..82f4b93 100644
--- a/src/haxorg/sem/SemConvert.cpp
+++ b/src/haxorg/sem/SemConvert.cpp
@@ -880,7 +880,7 @@ Opt<SemId<ErrorGroup>> OrgConverter::convertPropertyList(SemId<Subtree>& tree, I
         handled();
         NamedProperty::CustomArgs prop;
         auto                      name = hstd::split(
-            strip(get_text(one(a, N::Name)), CharSet{':'}, CharSet{':'}), ':');
+            strip(get_text(one(a, N::Name)), CharSet{' ', ':'}, CharSet{':'}), ':');
 
         prop.name = name.at(0);
         if (name.has(1)) { prop.sub = name.at(1); }
-- 
2.43.0


From 97583b40e5a0b122b819befd6d49dca6ab24e313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:50:02 +0000
Subject: [PATCH 067/101] fix: read the value of the language command

---
 src/haxorg/base_lexer/base_token_tokenize.cpp | 2 +-
 src/haxorg/parse/OrgSpec.cpp                  | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/haxorg/base_lexer/base_token_tokenize.cpp b/src/haxorg/base_lexer/base_token_tokenize.cpp
index bc02bc9..78aaa62 100644
--- a/src/haxorg/base_lexer/base_token_tokenize.cpp
+++ b/src/haxorg/base_lexer/base_token_tokenize.cpp
@@ -622,7 +622,7 @@ UnorderedMap<std::string, CommandSpec> CmdSpec{
     {"date", CommandSpec{.token = otk::CmdDateRaw, .type = CommandType::Text}},
     {"link", CommandSpec{.token = otk::CmdLinkRaw, .type = CommandType::Text}},
     {"description", CommandSpec{.token = otk::CmdDescription, .type = CommandType::Text}},
-    {"language", CommandSpec{.token = otk::CmdLanguage, .type = CommandType::Text}},
+    {"language", CommandSpec{.token = otk::CmdLanguage, .type = CommandType::Raw}},
     {"creator", CommandSpec{.token = otk::CmdCreator, .type = CommandType::Text}},
     {"name", CommandSpec{.token = otk::CmdName, .type = CommandType::Args}},
     {"email", CommandSpec{.token = otk::CmdEmailRaw, .type = CommandType::Raw}},
diff --git a/src/haxorg/parse/OrgSpec.cpp b/src/haxorg/parse/OrgSpec.cpp
index ff5060a..977162f 100644
--- a/src/haxorg/parse/OrgSpec.cpp
+++ b/src/haxorg/parse/OrgSpec.cpp
@@ -352,6 +352,7 @@ std::unique_ptr<OrgSpec> getOrgSpec() {
         SpecPair{onk::CmdCreator, parTextCmdPattern},
         SpecPair{onk::CmdAuthor, parTextCmdPattern},
         SpecPair{onk::CmdEmail, parTextCmdPattern},
+        SpecPair{onk::CmdLanguage, parTextCmdPattern},
         SpecPair{
             onk::CmdColumns,
             OrgPattern({
-- 
2.43.0


From 0437f74515e0d79902ce9a3004c25d5d9c64032e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:55:24 +0000
Subject: [PATCH 068/101] fix: recognise marks next to the end of a list

---
 src/haxorg/parse/OrgTokenizer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/haxorg/parse/OrgTokenizer.cpp b/src/haxorg/parse/OrgTokenizer.cpp
index 1a41d85..2619674 100644
--- a/src/haxorg/parse/OrgTokenizer.cpp
+++ b/src/haxorg/parse/OrgTokenizer.cpp
@@ -257,6 +257,7 @@ struct RecombineState {
         otk::Semicolon,
         otk::Comma,
         otk::StmtListBegin,
+        otk::Dedent,
         otk::ParBegin,
         otk::ParEnd,
         otk::AnyPunct,
-- 
2.43.0


From 1cfde77c634687329ada28f35c9499f019b7bce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:55:24 +0000
Subject: [PATCH 069/101] fix: do not add a blank line after described list
 items when formatting

---
 src/haxorg/sem/SemOrgFormat.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/haxorg/sem/SemOrgFormat.cpp b/src/haxorg/sem/SemOrgFormat.cpp
index a4a1866..799f3f2 100644
--- a/src/haxorg/sem/SemOrgFormat.cpp
+++ b/src/haxorg/sem/SemOrgFormat.cpp
@@ -1016,7 +1016,6 @@ auto Formatter::toString(SemId<ListItem> id, Context const& ctx) -> Res {
         if (id->subnodes.has(0)) {
             add(head, toString(id->at(0), ctx));
             add(body, head);
-            add(body, str(""));
 
             for (auto const& sub : id->subnodes | rv::drop(1)) {
                 add(body, toString(sub, ctx));
-- 
2.43.0


From 558ae7f2d719e394fe3c0be89a533a64cbd5bdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:06:58 +0000
Subject: [PATCH 070/101] fix: format the commands attached to blocks and
 custom commands

---
 src/haxorg/sem/SemOrgFormat.cpp | 36 +++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/haxorg/sem/SemOrgFormat.cpp b/src/haxorg/sem/SemOrgFormat.cpp
index 799f3f2..e6e62c5 100644
--- a/src/haxorg/sem/SemOrgFormat.cpp
+++ b/src/haxorg/sem/SemOrgFormat.cpp
@@ -793,7 +793,10 @@ auto Formatter::toString(SemId<CmdCall> id, Context const& ctx) -> Res {
 
 auto Formatter::toString(SemId<CmdCustomRaw> id, Context const& ctx) -> Res {
     if (id.isNil()) { return str("<nil>"); }
-    return b.line({str(hstd::fmt("#+{}: {}", id->name, id->text))});
+    return stackAttached(
+        b.line({str(hstd::fmt("#+{}: {}", id->name, id->text))}),
+        id.as<sem::Stmt>(),
+        ctx);
 }
 
 auto Formatter::toString(SemId<CmdCustomArgs> id, Context const& ctx) -> Res {
@@ -991,9 +994,12 @@ auto Formatter::toString(sem::SubtreeCompletion const& id, Context const& ctx) -
 
 auto Formatter::toString(SemId<BlockCenter> id, Context const& ctx) -> Res {
     if (id.isNil()) { return str("<nil>"); }
-    return b.stack(
-        Vec<Res>::Splice(
-            str("#+begin_center"), toSubnodes(id, ctx), str("#+end_center")));
+    return stackAttached(
+        b.stack(
+            Vec<Res>::Splice(
+                str("#+begin_center"), toSubnodes(id, ctx), str("#+end_center"))),
+        id.as<sem::Stmt>(),
+        ctx);
 }
 
 auto Formatter::toString(SemId<Bold> id, Context const& ctx) -> Res {
@@ -1584,9 +1590,12 @@ auto Formatter::toString(SemId<BlockQuote> id, Context const& ctx) -> Res {
 
 auto Formatter::toString(SemId<BlockComment> id, Context const& ctx) -> Res {
     if (id.isNil()) { return str("<nil>"); }
-    return b.stack(
-        Vec<Res>::Splice(
-            str("#+begin_comment"), toSubnodes(id, ctx), str("#+end_comment")));
+    return stackAttached(
+        b.stack(
+            Vec<Res>::Splice(
+                str("#+begin_comment"), toSubnodes(id, ctx), str("#+end_comment"))),
+        id.as<sem::Stmt>(),
+        ctx);
 }
 
 auto Formatter::toString(SemId<BlockVerse> id, Context const& ctx) -> Res {
@@ -1644,7 +1653,10 @@ auto Formatter::toString(SemId<BlockExport> id, Context const& ctx) -> Res {
         add(head, toString(id->attrs, ctx));
     }
 
-    return b.stack(Vec<Res>::Splice(head, str(id->content), str("#+end_export")));
+    return stackAttached(
+        b.stack(Vec<Res>::Splice(head, str(id->content), str("#+end_export"))),
+        id.as<sem::Stmt>(),
+        ctx);
 }
 
 auto Formatter::toString(SemId<InlineExport> id, Context const& ctx) -> Res {
@@ -1669,7 +1681,7 @@ auto Formatter::toString(SemId<BlockExample> id, Context const& ctx) -> Res {
     }
     add(result, line);
     add(result, str("#+end_example"));
-    return result;
+    return stackAttached(result, id.as<sem::Stmt>(), ctx);
 }
 
 auto Formatter::toString(SemId<BlockDynamicFallback> id, Context const& ctx) -> Res {
@@ -1679,8 +1691,10 @@ auto Formatter::toString(SemId<BlockDynamicFallback> id, Context const& ctx) ->
         add(head, str(" "));
         add(head, toString(id->attrs, ctx));
     }
-    return b.stack(
-        Vec<Res>::Splice(head, toSubnodes(id, ctx), str("#+end_" + id->name)));
+    return stackAttached(
+        b.stack(Vec<Res>::Splice(head, toSubnodes(id, ctx), str("#+end_" + id->name))),
+        id.as<sem::Stmt>(),
+        ctx);
 }
 
 auto Formatter::toString(SemId<ColonExample> id, Context const& ctx) -> Res {
-- 
2.43.0


From a727c4c5fdf0b7e4c45327db72ef2e6f762e2226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:27:33 +0000
Subject: [PATCH 071/101] fix: keep the mask of ids when incrementing past the
 last index

---
 src/hstd/stdlib/dod_base.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/hstd/stdlib/dod_base.hpp b/src/hstd/stdlib/dod_base.hpp
index dc2b016..3610a0d 100644
--- a/src/hstd/stdlib/dod_base.hpp
+++ b/src/hstd/stdlib/dod_base.hpp
@@ -116,6 +116,11 @@ struct [[nodiscard]] Id {
     }
 
 
+    /// \brief Get largest value of the unmasked part
+    static IdType getUnmaskedHigh() {
+        return mask_size == 0 ? ~IdType(0) : IdType(~(~IdType(0) << mask_offset));
+    }
+
     /// \brief Get mask value
     inline MaskType getMask() const {
 #pragma clang diagnostic ignored "-Wshift-count-overflow"
@@ -300,7 +305,9 @@ Id operator--(Id& id, int) {
 /// \brief Saturated in-place pre-increment of the ID
 template <IsIdType Id>
 Id& operator++(Id& id) {
-    id.setValue(id.getMaskUnshifed() | saturating_add(id.getUnmasked(), 1));
+    id.setValue(
+        id.getMaskUnshifed()
+        | std::min(saturating_add(id.getUnmasked(), 1), Id::getUnmaskedHigh()));
     return id;
 }
 
@@ -314,14 +321,17 @@ auto operator-(Id lhs, Id rhs) {
 template <IsIdType Id>
 Id operator+(Id id, int extent) {
     return Id::FromValue(
-        id.getMaskUnshifed() | saturating_add_any(id.getUnmasked(), extent));
+        id.getMaskUnshifed()
+        | std::min(saturating_add_any(id.getUnmasked(), extent), Id::getUnmaskedHigh()));
 }
 
 /// \brief Saturated in-place post-increment of the ID
 template <IsIdType Id>
 Id operator++(Id& id, int) {
     Id res = id;
-    id.setValue(id.getMaskUnshifed() | saturating_add(id.getUnmasked(), 1));
+    id.setValue(
+        id.getMaskUnshifed()
+        | std::min(saturating_add(id.getUnmasked(), 1), Id::getUnmaskedHigh()));
     return res;
 }
 
-- 
2.43.0


From 39f1d2a2b91b5dfd98bb18463660f63c1eae71d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:27:33 +0000
Subject: [PATCH 072/101] fix: forget the previous value when replacing an
 interned value

---
 src/hstd/stdlib/dod_base_intern.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hstd/stdlib/dod_base_intern.hpp b/src/hstd/stdlib/dod_base_intern.hpp
index 39625af..cb0f785 100644
--- a/src/hstd/stdlib/dod_base_intern.hpp
+++ b/src/hstd/stdlib/dod_base_intern.hpp
@@ -61,6 +61,7 @@ struct InternStore {
         if (!contains(value)) {
             LOGIC_ASSERTION_CHECK(
                 !id.isNil(), "cannot use nil ID for interned store key");
+            if (content.contains(id)) { id_map.erase(content.at(id)); }
             content.insert(id, value);
             id_map.insert({value, id});
         }
-- 
2.43.0


From 7e1d9f3380a0eaf2a392c5b4fed1410742c9fef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:28:36 +0000
Subject: [PATCH 073/101] fix: order equal ranges consistently when building a
 range tree

---
 src/hstd/stdlib/RangeTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/RangeTree.hpp b/src/hstd/stdlib/RangeTree.hpp
index 95bae8a..3511358 100644
--- a/src/hstd/stdlib/RangeTree.hpp
+++ b/src/hstd/stdlib/RangeTree.hpp
@@ -117,7 +117,7 @@ class RangeTree {
                 // When lhs completely contains rhs, sort lhs first.
                 return rhs.range.last < lhs.range.last;
             } else {
-                return true;
+                return lhs.index < rhs.index;
             }
         });
 
-- 
2.43.0


From ff8ef2c376b0884685c0b0992e5855daf3754a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:28:36 +0000
Subject: [PATCH 074/101] fix: keep the last segment of a sequence when it is
 one element long

---
 src/hstd/stdlib/RangeSegmentation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/RangeSegmentation.cpp b/src/hstd/stdlib/RangeSegmentation.cpp
index e01faba..862215f 100644
--- a/src/hstd/stdlib/RangeSegmentation.cpp
+++ b/src/hstd/stdlib/RangeSegmentation.cpp
@@ -80,7 +80,7 @@ Vec<SequenceAnnotation> hstd::annotateSequence(
         }
     }
 
-    if (lastStart < last && !prevKind.empty()) {
+    if (lastStart <= last && !prevKind.empty()) {
         result.push_back(
             SequenceAnnotation{
                 .first       = lastStart,
-- 
2.43.0


From e0aab1a2e89b4f2392006bfdbf945b6a8925d8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:30:10 +0000
Subject: [PATCH 075/101] fix: sort the segment kinds of an annotation

---
 src/hstd/stdlib/RangeSegmentation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/RangeSegmentation.cpp b/src/hstd/stdlib/RangeSegmentation.cpp
index 862215f..599c642 100644
--- a/src/hstd/stdlib/RangeSegmentation.cpp
+++ b/src/hstd/stdlib/RangeSegmentation.cpp
@@ -39,7 +39,7 @@ Vec<SequenceAnnotation> hstd::annotateSequence(
                 for (auto const& range : ranges) {
                     kinds.push_back(tree.group.segments.at(range.index).kind);
                 }
-                ranges::actions::sort(kinds.begin(), kinds.end());
+                rs::sort(kinds);
                 groups.incl(std::make_pair(tree.group.kind, kinds));
             }
         }
-- 
2.43.0


From 1aacff3a93cd3615419f9efee7d06d8741e008c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:50:41 +0000
Subject: [PATCH 076/101] fix: do not treat inline exports as blocks in the
 immutable tree

---
 src/haxorg/imm/ImmOrg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/haxorg/imm/ImmOrg.hpp b/src/haxorg/imm/ImmOrg.hpp
index 077efb8..a68f182 100644
--- a/src/haxorg/imm/ImmOrg.hpp
+++ b/src/haxorg/imm/ImmOrg.hpp
@@ -1371,7 +1371,7 @@ struct [[refl]] ImmAdapterBlockQuoteAPI : ImmAdapterBlockAPI {};
 struct [[refl]] ImmAdapterBlockCommentAPI : ImmAdapterStmtAPI {};
 struct [[refl]] ImmAdapterBlockVerseAPI : ImmAdapterBlockAPI {};
 struct [[refl]] ImmAdapterBlockExampleAPI : ImmAdapterBlockAPI {};
-struct [[refl]] ImmAdapterInlineExportAPI : ImmAdapterBlockAPI {};
+struct [[refl]] ImmAdapterInlineExportAPI : ImmAdapterInlineAPI {};
 struct [[refl]] ImmAdapterCmdExportAPI : ImmAdapterBlockAPI {};
 struct [[refl]] ImmAdapterBlockExportAPI : ImmAdapterBlockAPI {
     hstd::Opt<hstd::Str> getPlacement() const;
-- 
2.43.0


From c35d2de508cd1e52bf822ecdf42e8f85ac993205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:03:32 +0000
Subject: [PATCH 077/101] fix: give the position of a node among equal siblings
 from its path

---
 src/haxorg/imm/ImmOrg.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/haxorg/imm/ImmOrg.hpp b/src/haxorg/imm/ImmOrg.hpp
index a68f182..b079cdb 100644
--- a/src/haxorg/imm/ImmOrg.hpp
+++ b/src/haxorg/imm/ImmOrg.hpp
@@ -985,6 +985,15 @@ struct [[refl(R"({"default-constructor": false})")]] ImmAdapter {
     [[refl]] int getSelfIndex() const {
         auto parent = getParent();
         if (parent) {
+            // Values are interned, several subnodes can have the same ID.
+            auto const& step = lastStep().path.path;
+            if (step.size() == 2
+                && step.at(0)
+                       == ImmReflPathItemBase::FromFieldName(
+                           ImmReflFieldId::FromTypeField<ImmOrg>(&ImmOrg::subnodes))
+                && step.at(1).isIndex()) {
+                return step.at(1).getIndex().index;
+            }
             return parent.value()->indexOf(this->id);
         } else {
             return -1;
-- 
2.43.0


From 033225d594e10cd084f86ee0dbbc2dc85b6bf752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:03:32 +0000
Subject: [PATCH 078/101] fix: order unique ids and paths consistently

---
 src/haxorg/imm/ImmOrg.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/haxorg/imm/ImmOrg.hpp b/src/haxorg/imm/ImmOrg.hpp
index b079cdb..667c07f 100644
--- a/src/haxorg/imm/ImmOrg.hpp
+++ b/src/haxorg/imm/ImmOrg.hpp
@@ -202,8 +202,8 @@ struct [[refl]] ImmPath {
     }
 
     bool operator<(ImmPath const& other) const {
-        return root < other.root
-            && hstd::itemwise_less_than(path, other.path, std::less<ImmPathStep>{});
+        if (root != other.root) { return root.getValue() < other.root.getValue(); }
+        return hstd::itemwise_less_than(path, other.path, std::less<ImmPathStep>{});
     }
 };
 
@@ -241,7 +241,10 @@ struct [[refl]] ImmUniqId {
 
     bool operator==(ImmUniqId const& it) const { return id == it.id && path == it.path; }
 
-    bool operator<(ImmUniqId const& it) const { return id < it.id && path < it.path; }
+    bool operator<(ImmUniqId const& it) const {
+        if (id != it.id) { return id.getValue() < it.id.getValue(); }
+        return path < it.path;
+    }
 };
 
 } // namespace org::imm
-- 
2.43.0


From 293700aacf40e60538754f45bbaa7dbdb5061fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:10:52 +0000
Subject: [PATCH 079/101] fix: return variants read from json

---
 src/hstd/stdlib/VariantSerde.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hstd/stdlib/VariantSerde.hpp b/src/hstd/stdlib/VariantSerde.hpp
index 8c04d16..a508518 100644
--- a/src/hstd/stdlib/VariantSerde.hpp
+++ b/src/hstd/stdlib/VariantSerde.hpp
@@ -25,6 +25,7 @@ struct JsonSerde<V> {
         std::visit(
             [&]<typename T>(T& value) { value = JsonSerde<T>::from_json(j["value"]); },
             result);
+        return result;
     }
 };
 
-- 
2.43.0


From d3843d7244a82bbd5103fd20c1c862d563a3cbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:10:52 +0000
Subject: [PATCH 080/101] fix: escape field names in compact json

---
 src/hstd/stdlib/Json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/Json.cpp b/src/hstd/stdlib/Json.cpp
index 5502dbc..95398b6 100644
--- a/src/hstd/stdlib/Json.cpp
+++ b/src/hstd/stdlib/Json.cpp
@@ -87,7 +87,7 @@ std::string hstd::to_compact_json(json const& j, JsonFormatOptions const& option
                     for (auto const& [key, sub] : items) {
                         result += "\n";
                         result += std::string(indent, ' ');
-                        result += "\"" + key + "\": ";
+                        result += json(key).dump() + ": ";
                         result += format(indent + options.indent, sub);
                         if (i < j.size() - 1) { result += ","; }
                         ++i;
-- 
2.43.0


From a1b7a402433d50cec63046500accd16529213510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:10:52 +0000
Subject: [PATCH 081/101] fix: write null in compact json regardless of the
 width

---
 src/hstd/stdlib/Json.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hstd/stdlib/Json.cpp b/src/hstd/stdlib/Json.cpp
index 95398b6..3bbe11b 100644
--- a/src/hstd/stdlib/Json.cpp
+++ b/src/hstd/stdlib/Json.cpp
@@ -41,6 +41,7 @@ std::string hstd::to_compact_json(json const& j, JsonFormatOptions const& option
 
                     break;
                 }
+                case json::value_t::null:
                 case json::value_t::boolean:
                 case json::value_t::number_float:
                 case json::value_t::number_integer:
-- 
2.43.0


From eee8f9e9fe3fa148941908a4bef29ff5d3270d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:35:59 +0000
Subject: [PATCH 082/101] fix: slide over four elements when making tuples of
 four

---
 src/hstd/stdlib/Ranges.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/Ranges.hpp b/src/hstd/stdlib/Ranges.hpp
index 7af716a..36b2b2c 100644
--- a/src/hstd/stdlib/Ranges.hpp
+++ b/src/hstd/stdlib/Ranges.hpp
@@ -177,7 +177,7 @@ inline auto rv_sliding_tuple3 //
 
 
 inline auto rv_sliding_tuple4 //
-    = hstd::rv::sliding(3) | hstd::rv::transform([](auto const& it) {
+    = hstd::rv::sliding(4) | hstd::rv::transform([](auto const& it) {
           return std::tuple(it[0], it[1], it[2], it[3]);
       });
 
-- 
2.43.0


From 94b088ec34a269b69ef36a8c5b8df6f58c7a6dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:36:13 +0000
Subject: [PATCH 083/101] fix: add pairs to the stable two-way map

---
 src/hstd/ext/bimap_wrap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/ext/bimap_wrap.hpp b/src/hstd/ext/bimap_wrap.hpp
index 89aaf29..523b069 100644
--- a/src/hstd/ext/bimap_wrap.hpp
+++ b/src/hstd/ext/bimap_wrap.hpp
@@ -225,7 +225,7 @@ class StableNto1Bimap
             throw hstd::runtime_error::init(
                 "add_unique failed: Left key already exists.");
         }
-        this->bimap.insert({left, right});
+        this->bimap.push_back({left, right});
     }
 
     bool contains_left(L const& leftKey) const {
-- 
2.43.0


From faf168cdfa5b59b441777f34f76c484fcb585425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:43:29 +0000
Subject: [PATCH 084/101] fix: keep parallel edges incoming when one of them is
 removed

Removing one of several edges between the same two vertices dropped the
others from the list of incoming edges of the target.
---
 src/hstd/ext/graph/base/graph_edge.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hstd/ext/graph/base/graph_edge.cpp b/src/hstd/ext/graph/base/graph_edge.cpp
index 4aef2f5..720eaab 100644
--- a/src/hstd/ext/graph/base/graph_edge.cpp
+++ b/src/hstd/ext/graph/base/graph_edge.cpp
@@ -151,7 +151,8 @@ void IEdgeCollection::untrackEdge(EdgeID const& id) {
 
     if (incoming_from.contains(target)) {
         auto& sources = incoming_from.at(target);
-        std::erase(sources, source);
+        // One entry per edge, parallel edges are still incoming.
+        sources.erase(std::find(sources.begin(), sources.end(), source));
         if (sources.empty()) { incoming_from.erase(target); }
     }
 }
-- 
2.43.0


From fe6d6982fdcfe3e82940619291cb0b621027f386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:43:29 +0000
Subject: [PATCH 085/101] fix: forget the ends and the stable ID of a removed
 edge

Asking whether a removed edge is tracked raised an exception, and an edge
with the same stable ID could not be added again.
---
 src/hstd/ext/graph/base/graph_edge.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hstd/ext/graph/base/graph_edge.cpp b/src/hstd/ext/graph/base/graph_edge.cpp
index 720eaab..c761b77 100644
--- a/src/hstd/ext/graph/base/graph_edge.cpp
+++ b/src/hstd/ext/graph/base/graph_edge.cpp
@@ -155,6 +155,9 @@ void IEdgeCollection::untrackEdge(EdgeID const& id) {
         sources.erase(std::find(sources.begin(), sources.end(), source));
         if (sources.empty()) { incoming_from.erase(target); }
     }
+
+    source_target.erase(id);
+    if (auto edge = getEdge(id)) { stableIdMap.erase(edge->getStableId()); }
 }
 
 std::string IEdgeProvider::getStableID() const {
-- 
2.43.0


From 80228e701cff14185dfd848f8cc6b706834974e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:43:29 +0000
Subject: [PATCH 086/101] fix: track edges of collections without edge objects

The collection that only stores IDs has no edge objects, adding an edge to
it dereferenced a null pointer.
---
 src/hstd/ext/graph/base/graph_edge.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/hstd/ext/graph/base/graph_edge.cpp b/src/hstd/ext/graph/base/graph_edge.cpp
index c761b77..18ec65c 100644
--- a/src/hstd/ext/graph/base/graph_edge.cpp
+++ b/src/hstd/ext/graph/base/graph_edge.cpp
@@ -108,12 +108,14 @@ void hstd::ext::graph::IEdgeCollection::trackEdge(
         "hasEdge({}) = false",
         id);
 
-    LOGIC_ASSERTION_CHECK_FMT(
-        !hasEdgeStableId(getEdge(id)->getStableId()),
-        "The collection already contains edge with stable ID {}",
-        getEdge(id)->getStableId());
+    if (auto edge = getEdge(id)) {
+        LOGIC_ASSERTION_CHECK_FMT(
+            !hasEdgeStableId(edge->getStableId()),
+            "The collection already contains edge with stable ID {}",
+            edge->getStableId());
 
-    stableIdMap.insert_or_assign(getEdge(id)->getStableId(), id);
+        stableIdMap.insert_or_assign(edge->getStableId(), id);
+    }
 
     if (!incidence.contains(source)) {
         incidence.insert_or_assign(
-- 
2.43.0


From ccbe11971b8d8ac13980384efebf261beaf7fb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:43:29 +0000
Subject: [PATCH 087/101] fix: return the sources of the incoming edges

The list of vertices with edges into a vertex contained only the vertex
itself.
---
 src/hstd/ext/graph/base/graph_edge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/ext/graph/base/graph_edge.cpp b/src/hstd/ext/graph/base/graph_edge.cpp
index 18ec65c..1e9690e 100644
--- a/src/hstd/ext/graph/base/graph_edge.cpp
+++ b/src/hstd/ext/graph/base/graph_edge.cpp
@@ -176,7 +176,7 @@ hstd::ext::graph::VertexIDSet hstd::ext::graph::IEdgeProvider::getInNodes(
     VertexID id) const {
     return VertexIDSet::FromIterable(
         hstd::own_view(getIncoming(id))
-        | hstd::rv::transform([&](EdgeID e) -> VertexID { return getTarget(e); }));
+        | hstd::rv::transform([&](EdgeID e) -> VertexID { return getSource(e); }));
 }
 
 EdgeCollectionID IEdgeProvider::edgeCategoryFromEdge(EdgeID const& id) {
-- 
2.43.0


From b53a4a50052ae01af096457d7b3d008c2beb0bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:43:29 +0000
Subject: [PATCH 088/101] fix: remove nesting edges together with the nesting
 relation

The edges of removed vertices and relations stayed in the hierarchy, so
the relation could not be added again.  The removed edges are now also
reported to the caller.
---
 src/hstd/ext/graph/base/graph_hierarchy.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/hstd/ext/graph/base/graph_hierarchy.cpp b/src/hstd/ext/graph/base/graph_hierarchy.cpp
index a172ad6..d893829 100644
--- a/src/hstd/ext/graph/base/graph_hierarchy.cpp
+++ b/src/hstd/ext/graph/base/graph_hierarchy.cpp
@@ -26,6 +26,12 @@ IEdgeProvider::DependantDeletion IVertexHierarchy::untrackVertex(VertexID const&
 
     collect(id);
 
+    for (auto const& vertex_id : result.vertices) {
+        result.edges.incl(getIncoming(vertex_id));
+    }
+
+    for (auto const& edge : result.edges) { edgeTracker.erase_right(edge); }
+
     for (auto const& vertex_id : result.vertices) {
         if (parentMap.contains(vertex_id)) {
             auto parent = parentMap.at(vertex_id);
@@ -202,6 +208,7 @@ void IVertexHierarchy::untrackSubVertexRelation(
         nestedInMap.at(parent).erase(sub);
         if (nestedInMap.at(parent).empty()) { nestedInMap.erase(parent); }
     }
+    edgeTracker.erase_left({parent, sub});
     rootVertices.insert(sub);
 }
 
-- 
2.43.0


From 4b3865be00369bc3f6e25719bd700ca37f5af868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:43:29 +0000
Subject: [PATCH 089/101] fix: find the common ancestor of vertices at
 different depths

The crossings of an edge whose ends are nested at different depths, or
belong to different trees, raised an exception or listed wrong vertices.
---
 src/hstd/ext/graph/base/graph_hierarchy.cpp | 22 ++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/hstd/ext/graph/base/graph_hierarchy.cpp b/src/hstd/ext/graph/base/graph_hierarchy.cpp
index d893829..a8d572a 100644
--- a/src/hstd/ext/graph/base/graph_hierarchy.cpp
+++ b/src/hstd/ext/graph/base/graph_hierarchy.cpp
@@ -63,15 +63,19 @@ hstd::Vec<VertexID> IVertexHierarchy::getHierarchyCrossings(
     VertexID const& source,
     VertexID const& target) const {
     auto findLCA = [this](VertexID u, VertexID v) -> VertexID {
-        hstd::UnorderedSet<VertexID> parents{};
-        while (true) {
-            parents.insert(u);
-            u = parentMap.contains(u) ? parentMap.at(u) : u;
-            if (parents.contains(v)) { return v; }
-            if (!parentMap.contains(v)) { break; }
+        hstd::UnorderedSet<VertexID> parents{u};
+        for (auto const& parent : getParentChain(u)) { parents.insert(parent); }
+        while (!parents.contains(v)) {
+            if (!parentMap.contains(v)) { return VertexID::Nil(); }
             v = parentMap.at(v);
         }
-        return u;
+        return v;
+    };
+
+    // Next vertex on the way to the common ancestor, which does not exist
+    // for vertices of different trees.
+    auto parentOrNil = [this](VertexID const& id) -> VertexID {
+        return getParentVertex(id).value_or(VertexID::Nil());
     };
 
     bool sourceHasParent = parentMap.contains(source);
@@ -106,7 +110,7 @@ hstd::Vec<VertexID> IVertexHierarchy::getHierarchyCrossings(
         VertexID current = source;
         while (current != lca) {
             if (current != source) { path.emplace_back(current); }
-            current = parentMap.at(current);
+            current = parentOrNil(current);
         }
 
         current = target;
@@ -114,7 +118,7 @@ hstd::Vec<VertexID> IVertexHierarchy::getHierarchyCrossings(
 
         while (current != lca) {
             temp.push(current);
-            current = parentMap.at(current);
+            current = parentOrNil(current);
         }
 
         while (!temp.empty()) {
-- 
2.43.0


From 626613b61f3ac06c4f7e5cd2cb9c124aac5afffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:43:29 +0000
Subject: [PATCH 090/101] fix: stop the parent chain at the requested vertex

---
 src/hstd/ext/graph/base/graph_hierarchy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hstd/ext/graph/base/graph_hierarchy.cpp b/src/hstd/ext/graph/base/graph_hierarchy.cpp
index a8d572a..9080a00 100644
--- a/src/hstd/ext/graph/base/graph_hierarchy.cpp
+++ b/src/hstd/ext/graph/base/graph_hierarchy.cpp
@@ -424,8 +424,8 @@ hstd::Vec<VertexID> hstd::ext::graph::IVertexHierarchy::getParentChainUntil(
     VertexID const& finish) const {
     hstd::Vec<VertexID> result;
     auto                current = start;
-    for (; auto parent = getParentVertex(current);
-         parent.has_value() && parent != finish) {
+    for (auto parent = getParentVertex(current); parent.has_value() && parent != finish;
+         parent      = getParentVertex(current)) {
         result.push_back(parent.value());
         current = parent.value();
     }
-- 
2.43.0


From a5c7d0d3293b95314a88e6649ec86ee87fd9a973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:43:29 +0000
Subject: [PATCH 091/101] fix: return the closest common ancestor independently
 of the order

When one of the vertices was an ancestor of the others the answer depended
on which vertex the unordered set listed first.
---
 src/hstd/ext/graph/base/graph_hierarchy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/ext/graph/base/graph_hierarchy.cpp b/src/hstd/ext/graph/base/graph_hierarchy.cpp
index 9080a00..d313970 100644
--- a/src/hstd/ext/graph/base/graph_hierarchy.cpp
+++ b/src/hstd/ext/graph/base/graph_hierarchy.cpp
@@ -364,7 +364,7 @@ std::optional<VertexID> hstd::ext::graph::IVertexHierarchy::getCommonAncestor(
 
     auto                it     = ids.begin();
     hstd::Vec<VertexID> common = getParentChain(*it);
-    common.push_back(*it);
+    common.insert(common.begin(), *it);
     ++it;
 
     for (; it != ids.end(); ++it) {
-- 
2.43.0


From 20917c8e8e5d2861d7dad17c8ad7c321485eaecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:43:29 +0000
Subject: [PATCH 092/101] fix: remove vertices from graphs with hierarchies

The vertex was removed from every hierarchy twice, and the second time
raised an exception.  Vertices that are not in the hierarchy raised it as
well.  The stable ID of the removed vertex stayed in the graph.
---
 src/hstd/ext/graph/base/graph_base.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hstd/ext/graph/base/graph_base.cpp b/src/hstd/ext/graph/base/graph_base.cpp
index 316d444..42dd1aa 100644
--- a/src/hstd/ext/graph/base/graph_base.cpp
+++ b/src/hstd/ext/graph/base/graph_base.cpp
@@ -217,6 +217,7 @@ hstd::UnorderedMap<EdgeCollectionID, IEdgeCollection::DependantDeletion> hstd::e
     hstd::UnorderedMap<EdgeCollectionID, IEdgeProvider::DependantDeletion> result;
 
     for (auto const& [hierarchy_id, hierarchy] : hierarchies) {
+        if (!hierarchy->isTrackingVertex(id)) { continue; }
         auto deleted_by_provider = hierarchy->untrackVertex(id);
         result.insert_or_assign(hierarchy_id, deleted_by_provider);
     }
@@ -225,11 +226,10 @@ hstd::UnorderedMap<EdgeCollectionID, IEdgeCollection::DependantDeletion> hstd::e
         collection->untrackVertex(id);
     }
 
-    for (auto& collection : getEdgeProviders()) { collection->untrackVertex(id); }
-
     for (auto& track : trackers) { track.second->untrackVertex(id); }
 
     vertexIDs.erase(id);
+    stableIdMap.erase(getVertex(id)->getStableId());
     return result;
 }
 
-- 
2.43.0


From 6944b2f317fcf443578182dd247f770071e53aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:43:29 +0000
Subject: [PATCH 093/101] fix: start the hash of graph objects from a defined
 value

---
 src/hstd/ext/graph/base/graph_common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/ext/graph/base/graph_common.cpp b/src/hstd/ext/graph/base/graph_common.cpp
index fccf742..113e996 100644
--- a/src/hstd/ext/graph/base/graph_common.cpp
+++ b/src/hstd/ext/graph/base/graph_common.cpp
@@ -5,7 +5,7 @@
 using namespace hstd::ext::graph;
 
 std::size_t IGraphObjectBase::getHash() const {
-    std::size_t res;
+    std::size_t res = 0;
     hstd::hax_hash_combine(res, stable_id);
     return res;
 }
-- 
2.43.0


From fcc440b05c35c5f84c8cd3ea5a931512cdcf4264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:43:29 +0000
Subject: [PATCH 094/101] fix: compare the dynamic types of unique attributes

The static pointer types were compared instead, so that either no or every
attribute was taken to be of the same type.  Resetting an attribute that
the object does not have now adds it.
---
 src/hstd/ext/graph/base/graph_attribute.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/hstd/ext/graph/base/graph_attribute.hpp b/src/hstd/ext/graph/base/graph_attribute.hpp
index 5ab0055..6ed9adb 100644
--- a/src/hstd/ext/graph/base/graph_attribute.hpp
+++ b/src/hstd/ext/graph/base/graph_attribute.hpp
@@ -120,13 +120,13 @@ class IAttributeObject {
         requires std::derived_from<T, IAttribute>
     void addUniqueAttribute(hstd::SPtr<T> const& attr, std::string const& err_ctx = "") {
         for (auto const& existing : getAttributes()) {
-            if (typeid(attr.get()) == typeid(existing.get())) {
+            if (typeid(*attr) == typeid(*existing)) {
                 throw graph_error::init(
                     hstd::fmt(
                         "Graph object is required to have only one "
                         "attribute of type {}, but the code is attempting "
                         "to add a new instance. {}",
-                        typeid(attr.get()).name(),
+                        typeid(*attr).name(),
                         err_ctx));
             }
         }
@@ -138,13 +138,16 @@ class IAttributeObject {
         requires std::derived_from<T, IAttribute>
     void addOrResetUniqueAttribute(hstd::SPtr<T> const& attr) {
         hstd::Vec<hstd::SPtr<IAttribute>> new_list;
+        bool                              found = false;
         for (auto const& existing : getAttributes()) {
-            if (typeid(attr.get()) == typeid(existing.get())) {
+            if (typeid(*attr) == typeid(*existing)) {
                 new_list.push_back(attr);
+                found = true;
             } else {
                 new_list.push_back(existing);
             }
         }
+        if (!found) { new_list.push_back(attr); }
         setAttributes(new_list);
     }
 
-- 
2.43.0


From 081fab92348776623c7e0649eb5c90a2b5d425ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:50:37 +0000
Subject: [PATCH 095/101] fix: list crossings from the source to the target

For edges from a vertex to one nested deeper inside it the crossings were
listed from the target up, so the segments did not form a path.
---
 src/hstd/ext/graph/base/graph_hierarchy.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hstd/ext/graph/base/graph_hierarchy.cpp b/src/hstd/ext/graph/base/graph_hierarchy.cpp
index d313970..5ff9046 100644
--- a/src/hstd/ext/graph/base/graph_hierarchy.cpp
+++ b/src/hstd/ext/graph/base/graph_hierarchy.cpp
@@ -99,6 +99,7 @@ hstd::Vec<VertexID> IVertexHierarchy::getHierarchyCrossings(
                 if (current != target) { path.emplace_back(current); }
                 current = parentMap.at(current);
             }
+            hstd::rs::reverse(path);
         } else {
             VertexID current = source;
             while (current != lca) {
-- 
2.43.0


From 3f47218489076e2bd80705533b2017d4730994d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:34:12 +0000
Subject: [PATCH 096/101] fix: take the chain of a new node from the new tree

---
 src/hstd/ext/astdiff/astdiff.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/ext/astdiff/astdiff.hpp b/src/hstd/ext/astdiff/astdiff.hpp
index 3f46563..185121e 100644
--- a/src/hstd/ext/astdiff/astdiff.hpp
+++ b/src/hstd/ext/astdiff/astdiff.hpp
@@ -410,7 +410,7 @@ class ASTDiff {
 
         // clang-format off
         Vec<NodeIdx> getSrcChain(bool withSelf = true) const { return diff->src.getParentIdChain(src, withSelf); }
-        Vec<NodeIdx> getDstChain(bool withSelf = true) const { return diff->src.getParentIdChain(src, withSelf); }
+        Vec<NodeIdx> getDstChain(bool withSelf = true) const { return diff->dst.getParentIdChain(dst, withSelf); }
         Vec<SyntaxTree::PathElement> getSrcPath() const { return diff->src.getNodePath(src); }
         Vec<SyntaxTree::PathElement> getDstPath() const { return diff->dst.getNodePath(dst); }
         Vec<NodeStore::Id> getBaseSrcChain(bool withSelf = true) const { return diff->src.getBaseParentIdChain(src, withSelf); }
-- 
2.43.0


From 4366c9edd7fbdec5d9b339a3f63c940f1a25f031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:34:12 +0000
Subject: [PATCH 097/101] fix: say when a moved node has another value

---
 src/hstd/ext/astdiff/astdiff.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/ext/astdiff/astdiff.hpp b/src/hstd/ext/astdiff/astdiff.hpp
index 185121e..4480251 100644
--- a/src/hstd/ext/astdiff/astdiff.hpp
+++ b/src/hstd/ext/astdiff/astdiff.hpp
@@ -464,7 +464,7 @@ class ASTDiff {
             case ChangeKind::UpdateMove:
             case ChangeKind::Move: {
                 result.data = typename Change::Move{
-                    .update = node.Change == ChangeKind::Update,
+                    .update = node.Change == ChangeKind::UpdateMove,
                     .from   = Change::MovePoint{
                          src.getNode(srcNode).Parent,
                          src.findPositionInParent(srcNode, true),
-- 
2.43.0


From 55414b02cb7a64671be9c21967d7f78d37a461ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:34:12 +0000
Subject: [PATCH 098/101] fix: follow tree distances with the costs they were
 computed with

---
 src/hstd/ext/astdiff/astdiff.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hstd/ext/astdiff/astdiff.cpp b/src/hstd/ext/astdiff/astdiff.cpp
index 965a0a7..cdad0e3 100644
--- a/src/hstd/ext/astdiff/astdiff.cpp
+++ b/src/hstd/ext/astdiff/astdiff.cpp
@@ -320,11 +320,15 @@ Vec<std::pair<NodeIdx, NodeIdx>> ZhangShashaMatcher::getMatchingNodes() {
         while (Row > FirstRow || Col > FirstCol) {
             // COUT << "rowcol " << Row << " " << Col << "\n";
             // COUT << ForestDist << "\n";
-            if (Row > FirstRow && ForestDist[Row - 1][Col] + 1 == ForestDist[Row][Col]) {
+            if (Row > FirstRow
+                && ForestDist[Row - 1][Col] + opts.DeletionCost
+                       == ForestDist[Row][Col]) {
                 // COUT << "Dec col\n";
                 --Row;
             } else if (
-                Col > FirstCol && ForestDist[Row][Col - 1] + 1 == ForestDist[Row][Col]) {
+                Col > FirstCol
+                && ForestDist[Row][Col - 1] + opts.InsertionCost
+                       == ForestDist[Row][Col]) {
                 // COUT << "Dec row\n";
                 --Col;
             } else {
-- 
2.43.0


From a09702d7a7928fdd0e0ff96e7a88fd0fc58c51be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:36:50 +0000
Subject: [PATCH 099/101] fix: keep equal siblings in place when a tree is
 compared with itself

---
 src/hstd/ext/astdiff/astdiff_eager.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/hstd/ext/astdiff/astdiff_eager.cpp b/src/hstd/ext/astdiff/astdiff_eager.cpp
index 8661175..e2aac51 100644
--- a/src/hstd/ext/astdiff/astdiff_eager.cpp
+++ b/src/hstd/ext/astdiff/astdiff_eager.cpp
@@ -132,16 +132,16 @@ struct EagerAstDiff {
             }
         }
 
-        if (moveCandidate.has_value() && moveCandidate->isExactMatch) {
-            HSLOG_TRACE("Selecting exact move candidate");
-            return moveCandidate;
-        }
-
         if (exactMatch.has_value()) {
             HSLOG_TRACE("Selecting exact match");
             return exactMatch;
         }
 
+        if (moveCandidate.has_value() && moveCandidate->isExactMatch) {
+            HSLOG_TRACE("Selecting exact move candidate");
+            return moveCandidate;
+        }
+
         if (diaIdMatch.has_value()) {
             HSLOG_TRACE("Selecting DiaId match");
             return diaIdMatch;
-- 
2.43.0


From 15a5553fb6932d6fb570e53b87d4b02e4cf8c1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:08:03 +0000
Subject: [PATCH 100/101] fix: look for footnotes among the footnotes

The lookup of a footnote by its name searched the named nodes, which never
have any, so that no footnote could be found.
---
 src/haxorg/api/SemBaseApi.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/haxorg/api/SemBaseApi.hpp b/src/haxorg/api/SemBaseApi.hpp
index 311040c..5d74e87 100644
--- a/src/haxorg/api/SemBaseApi.hpp
+++ b/src/haxorg/api/SemBaseApi.hpp
@@ -228,7 +228,7 @@ struct [[refl]] AstTrackingMap {
 
     [[refl]] hstd::Opt<AstTrackingAlternatives> getFootnotePath(
         hstd::Str const& id) const {
-        return names.get(id);
+        return footnotes.get(id);
     }
 };
 
-- 
2.43.0


From ebaccb686692afbfae048c9e1000ceb2aa674034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:11:29 +0000
Subject: [PATCH 101/101] fix: count optional parts among the nodes of a node

The list of all nodes directly inside a node left out those that may be absent,
such as the header of a described list item, so that walks with paths and the
search for footnotes and targets never entered them.
---
 src/haxorg/sem/SemOrgApi.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/haxorg/sem/SemOrgApi.cpp b/src/haxorg/sem/SemOrgApi.cpp
index efd5245..c681ece 100644
--- a/src/haxorg/sem/SemOrgApi.cpp
+++ b/src/haxorg/sem/SemOrgApi.cpp
@@ -282,6 +282,9 @@ Vec<SemId<Org>> Org::getAllSubnodes() const {
                 [&]<typename F>(char const* name, SemId<F> const& id) {
                     result.push_back(id.asOrg());
                 },
+                [&]<typename F>(char const* name, Opt<SemId<F>> const& id) {
+                    if (id) { result.push_back(id->asOrg()); }
+                },
                 [&]<typename F>(char const* name, F const& value) {},
             });
     });
-- 
2.43.0

