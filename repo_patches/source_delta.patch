From 6e609ae98a784d13a3588e3d0e6e1b2ca7c1dc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 1/9] fix: encoded_size of U+0000, U+0800-U+1FFF and
 U+10000-U+7FFFF

The number of octets was computed as if every octet but the first added
six bits to a single one, so these codepoints were written with too few
octets (and U+0000 called __builtin_clz(0)).
---
 include/u5e/utf8_util.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/u5e/utf8_util.hpp b/include/u5e/utf8_util.hpp
index 23f553d..d1ab6b5 100644
--- a/include/u5e/utf8_util.hpp
+++ b/include/u5e/utf8_util.hpp
@@ -58,7 +58,11 @@ namespace u5e {
      * How many octets will this codepoint take
      */
     inline static int encoded_size(int value) {
-      return std::ceil((float)(32 - __builtin_clz(value) - 1) / (float)6);
+      if (value < 0x80) {
+        return 1;
+      }
+      // n octets, for n > 1, hold up to 5 * n + 1 bits.
+      return (32 - __builtin_clz(value) - 2) / 5 + 1;
     }
     
   };
-- 
2.43.0


From 2144d166df7fafe6def34c00ab93803a86220183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 2/9] fix: utf8_bounds looked at the octet past the end and not
 at the first one

The walk back from the end started by reading (and, in enforce, writing)
*end, and stopped before the first octet of the text, so a truncated
sequence at the start of the text was accepted. Octets 0xFE and 0xFF,
which codepoint_size takes for sequences of 7 and 8 octets, were not
looked for far enough, and an empty text was read.
---
 include/u5e/utf8_bounds.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/u5e/utf8_bounds.hpp b/include/u5e/utf8_bounds.hpp
index b1e8cfc..44bee16 100644
--- a/include/u5e/utf8_bounds.hpp
+++ b/include/u5e/utf8_bounds.hpp
@@ -9,7 +9,7 @@ namespace u5e {
   /**
    * \brief Check and enforce bounds of utf8 text
    *
-   * This will only look at the last 6 octets of the text and will
+   * This will only look at the last 7 octets of the text and will
    * only look at the first octet. It will not guarantee that the
    * entire text is valid. The intent of this class is to provide a
    * cheap safety check to make sure you will not have any under or
@@ -30,21 +30,23 @@ namespace u5e {
      * correct bounds.
      */
     static bool check(NativeIterator begin, NativeIterator end) {
-      if (utf8_util::is_codepoint_continuation(*begin)) {
+      if (begin == end) {
+        return true;
+      } else if (utf8_util::is_codepoint_continuation(*begin)) {
         return false;
       } else {
-        int max_walkback = 6; // mathematically, it's impossible for
-                              // something more than 6 elements away
+        int max_walkback = 7; // mathematically, it's impossible for
+                              // something more than 7 elements away
                               // from the end to generate a overflow.
         int walkback = 0;
         while (walkback < max_walkback && end != begin) {
+          --end; walkback++;
           char octet = *end;
           if (utf8_util::is_codepoint_start(octet)) {
             if (utf8_util::codepoint_size(octet) > walkback) {
               return false;
             }
           }
-          --end; walkback++;
         }
         return true;
       }
@@ -56,16 +58,17 @@ namespace u5e {
      */
     static bool enforce(NativeIterator begin, NativeIterator end) {
       bool ret = true;
-      while (utf8_util::is_codepoint_continuation(*begin)) {
+      while (begin != end && utf8_util::is_codepoint_continuation(*begin)) {
         *begin = '?';
         ++begin;
         ret = false;
       }
-      int max_walkback = 6; // mathematically, it's impossible for
-                            // something more than 6 elements away
+      int max_walkback = 7; // mathematically, it's impossible for
+                            // something more than 7 elements away
                             // from the end to generate a overflow.
       int walkback = 0;
       while (walkback < max_walkback && end != begin) {
+        --end; walkback++;
         char octet = *end;
         if (utf8_util::is_codepoint_start(octet)) {
           if (utf8_util::codepoint_size(octet) > walkback) {
@@ -73,7 +76,6 @@ namespace u5e {
             ret = false;
           }
         }
-        --end; walkback++;
       }
       return ret;
     }
-- 
2.43.0


From 597ee2439d58353af66a77b1c9c0a7da162c1b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 3/9] fix: utf8 iterators read the octet at the end of the text

Comparing with, or stepping back from, the end iterator dereferenced it,
which for a string view is outside of the text.
---
 include/u5e/utf8_iterator.hpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/include/u5e/utf8_iterator.hpp b/include/u5e/utf8_iterator.hpp
index 97bb431..77c6024 100644
--- a/include/u5e/utf8_iterator.hpp
+++ b/include/u5e/utf8_iterator.hpp
@@ -70,10 +70,17 @@ namespace u5e {
      * Go to the previous codepoint.
      */
     inline void rewind_one_codepoint() {
-      rewind_to_start_of_codepoint(*raw_iterator_);
+      NativeIterator from = raw_iterator_;
       raw_iterator_--;
-      while (utf8_util::is_codepoint_continuation(*raw_iterator_)) {
+      rewind_to_start_of_codepoint(*raw_iterator_);
+      // if we were in the middle of a codepoint, that is as far as its
+      // first octet. The octet where we were can only be looked at if
+      // this codepoint covers it, as that may be the end of the text.
+      if (utf8_util::codepoint_size(*raw_iterator_) >
+          std::distance(raw_iterator_, from) &&
+          utf8_util::is_codepoint_continuation(*from)) {
         raw_iterator_--;
+        rewind_to_start_of_codepoint(*raw_iterator_);
       }
     }
     
@@ -164,6 +171,14 @@ namespace u5e {
      * Compare with another iterator
      */
     inline bool operator==(const utf8_const_iterator& rhs) const {
+      // the later of the two may be at the end of the text, where
+      // there is no octet to look at.
+      if (this->raw_iterator_ == rhs.raw_iterator_) {
+        return true;
+      }
+      if (rhs.raw_iterator_ < this->raw_iterator_) {
+        return rhs == *this;
+      }
       char c;
       utf8_const_iterator copy(*this);
       c = *(copy.raw_iterator_);
@@ -261,6 +276,14 @@ namespace u5e {
      * Compare the iterator with another iterator
      */
     inline bool operator==(const utf8_iterator& rhs) const {
+      // the later of the two may be at the end of the text, where
+      // there is no octet to look at.
+      if (this->raw_iterator_ == rhs.raw_iterator_) {
+        return true;
+      }
+      if (rhs.raw_iterator_ < this->raw_iterator_) {
+        return rhs == *this;
+      }
       char c;
       utf8_iterator copy(*this);
       c = *(copy.raw_iterator_);
-- 
2.43.0


From 4303fc5aa5eec5e7c75be25aa763fde012070f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 4/9] fix: find_start_of_grapheme compared codepoints in the
 wrong order

After the first step back it looked at the pair (later, earlier) instead
of (earlier, later), so the start of e.g. a Hangul L V T sequence was not
found, and at the end of the text it read the codepoint past the end.
---
 include/u5e/basic_grapheme_iterator.hpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/u5e/basic_grapheme_iterator.hpp b/include/u5e/basic_grapheme_iterator.hpp
index cb1b62b..aafb8d9 100644
--- a/include/u5e/basic_grapheme_iterator.hpp
+++ b/include/u5e/basic_grapheme_iterator.hpp
@@ -156,26 +156,23 @@ namespace u5e {
 
     void find_start_of_grapheme() {
       // GB2
-      if (where_ == begin_)
+      if (where_ == end_)
         return;
       // rewind where_ until it's no longer in the same grapheme
 
-      // GB1
-      // this always start as copy = where_
-      const_codepoint_iterator copy = where_;
-      --copy;
-      codepoint a = *copy;
-
       while (1) {
+        // GB1
         if (where_ == begin_)
           return;
         codepoint b = *where_;
+        const_codepoint_iterator copy = where_;
+        --copy;
+        codepoint a = *copy;
 
         if (is_grapheme_boundary(a, b)) {
           return;
         }
 
-        a = b;
         --where_;
       }
     }
-- 
2.43.0


From 3edada8309858bf49a0b1928d9f0ddd6c38b06d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 5/9] fix: basic_encodedstring assignment did not compile when
 used

---
 include/u5e/basic_encodedstring.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/u5e/basic_encodedstring.hpp b/include/u5e/basic_encodedstring.hpp
index 35c832d..e9b82d9 100644
--- a/include/u5e/basic_encodedstring.hpp
+++ b/include/u5e/basic_encodedstring.hpp
@@ -104,7 +104,8 @@ namespace u5e {
      */
     basic_encodedstring&
     operator= (const basic_encodedstring &other) {
-      native_string = other;
+      native_string = other.native_string;
+      return *this;
     }
 
     //@{
-- 
2.43.0


From 9590ac3c6f2c751b1ed16e1dc8dd70413458c79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 6/9] fix: appending a grapheme range truncated each codepoint
 to one unit

The native string was given the codepoint iterators, so every codepoint
was narrowed to the native character type instead of copying the text.
---
 include/u5e/basic_encodedstring.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/u5e/basic_encodedstring.hpp b/include/u5e/basic_encodedstring.hpp
index e9b82d9..55e1993 100644
--- a/include/u5e/basic_encodedstring.hpp
+++ b/include/u5e/basic_encodedstring.hpp
@@ -194,9 +194,8 @@ namespace u5e {
     (basic_grapheme_iterator<basic_encodedstring<Encoding, StorageType>>& first,
      basic_grapheme_iterator<basic_encodedstring<Encoding, StorageType>>& last)
     {
-      native_string.append((*first).codepoint_begin(),
-                           (*last).codepoint_begin());
-      return *this;
+      return append<StorageType>((*first).codepoint_begin(),
+                                 (*last).codepoint_begin());
     }
     
     inline basic_encodedstring& append
-- 
2.43.0


From d4244e3474e531049846f7d9424fcd65fa7fcd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 7/9] fix: normalization sorted codepoints across starters

Canonical ordering only exchanges codepoints with a non-zero combining
class, and keeps the order of those of the same class. Sorting the whole
grapheme by class moved starters (e.g. a ZWJ after a virama) in front of
the marks that precede them, and std::sort is not stable.
---
 include/u5e/canonical_combining_order.hpp | 25 ++++++++++++++++++++++-
 include/u5e/normalization_form_c.hpp      |  4 ++--
 include/u5e/normalization_form_d.hpp      |  4 ++--
 include/u5e/normalization_form_kc.hpp     |  4 ++--
 include/u5e/normalization_form_kd.hpp     |  4 ++--
 5 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/include/u5e/canonical_combining_order.hpp b/include/u5e/canonical_combining_order.hpp
index 3e86ba9..34191ec 100644
--- a/include/u5e/canonical_combining_order.hpp
+++ b/include/u5e/canonical_combining_order.hpp
@@ -1,6 +1,7 @@
 #ifndef INCLUDED_U5E_CANONICAL_COMBINING_ORDER
 #define INCLUDED_U5E_CANONICAL_COMBINING_ORDER
 
+#include <algorithm>
 #include <u5e/props/canonical_combining_class.hpp>
 
 namespace u5e {
@@ -8,7 +9,7 @@ namespace u5e {
   /**
    * \brief compare codepoints according to the canonical combining order
    *
-   * This is intended to be used with std::sort on a utf32ne string type.
+   * This is intended to be used with std::stable_sort on a utf32ne string type.
    */
   inline bool canonical_combining_order(int a, int b) {
     return
@@ -16,6 +17,28 @@ namespace u5e {
       <
       props::canonical_combining_class::resolve(b);
   }
+
+  /**
+   * \brief put codepoints in canonical order
+   *
+   * Only the sequences of codepoints with a non-zero combining class
+   * are sorted, codepoints are never moved across one that has the
+   * combining class zero, nor across one of their own class.
+   */
+  template <typename Iterator>
+  inline void canonical_ordering(Iterator begin, Iterator end) {
+    while (begin != end) {
+      Iterator first = begin;
+      while (begin != end &&
+             props::canonical_combining_class::resolve(*begin) != 0) {
+        ++begin;
+      }
+      std::stable_sort(first, begin, canonical_combining_order);
+      if (begin != end) {
+        ++begin;
+      }
+    }
+  }
 }
 
 #endif
diff --git a/include/u5e/normalization_form_c.hpp b/include/u5e/normalization_form_c.hpp
index c8f9741..b271918 100644
--- a/include/u5e/normalization_form_c.hpp
+++ b/include/u5e/normalization_form_c.hpp
@@ -32,8 +32,8 @@ namespace u5e {
                             canonical_decomposition<utf32ne_string>);
 
     // then sort based on canonical combining class
-    std::sort(decomposed.codepoint_begin(), decomposed.codepoint_end(),
-              canonical_combining_order);
+    canonical_ordering(decomposed.codepoint_begin(),
+                       decomposed.codepoint_end());
 
     // finally recompose. we will do that in-place on the decomposed
     // string, since we never have to look back.
diff --git a/include/u5e/normalization_form_d.hpp b/include/u5e/normalization_form_d.hpp
index 0b435c0..44ba2a7 100644
--- a/include/u5e/normalization_form_d.hpp
+++ b/include/u5e/normalization_form_d.hpp
@@ -31,8 +31,8 @@ namespace u5e {
                             canonical_decomposition<utf32ne_string>);
 
     // then sort based on canonical combining class
-    std::sort(decomposed.codepoint_begin(), decomposed.codepoint_end(),
-              canonical_combining_order);
+    canonical_ordering(decomposed.codepoint_begin(),
+                       decomposed.codepoint_end());
 
     // finally append the output
     output.template append_from_utf32ne<utf32ne_string>
diff --git a/include/u5e/normalization_form_kc.hpp b/include/u5e/normalization_form_kc.hpp
index 7ea4f0f..77476da 100644
--- a/include/u5e/normalization_form_kc.hpp
+++ b/include/u5e/normalization_form_kc.hpp
@@ -33,8 +33,8 @@ namespace u5e {
        compatibility_and_canonical_decomposition<utf32ne_string>);
 
     // then sort based on canonical combining class
-    std::sort(decomposed.codepoint_begin(), decomposed.codepoint_end(),
-              canonical_combining_order);
+    canonical_ordering(decomposed.codepoint_begin(),
+                       decomposed.codepoint_end());
 
     // finally recompose. we will do that in-place on the decomposed
     // string, since we never have to look back.
diff --git a/include/u5e/normalization_form_kd.hpp b/include/u5e/normalization_form_kd.hpp
index 49d19a7..2ba1bbb 100644
--- a/include/u5e/normalization_form_kd.hpp
+++ b/include/u5e/normalization_form_kd.hpp
@@ -32,8 +32,8 @@ namespace u5e {
        compatibility_and_canonical_decomposition<utf32ne_string>);
 
     // then sort based on canonical combining class
-    std::sort(decomposed.codepoint_begin(), decomposed.codepoint_end(),
-              canonical_combining_order);
+    canonical_ordering(decomposed.codepoint_begin(),
+                       decomposed.codepoint_end());
 
     // finally append the output
     output.template append_from_utf32ne<utf32ne_string>
-- 
2.43.0


From ee7b2cfc5cdfded21219aa29a0d3f801e85842f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 8/9] fix: canonical composition only composed adjacent
 codepoints

A codepoint composes with the last starter unless it is blocked by one
in between with the same or a higher combining class, so <U+0061, U+0334,
U+0301> was left as it is in form C.
---
 include/u5e/canonical_composition.hpp | 55 ++++++++++++++-------------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/include/u5e/canonical_composition.hpp b/include/u5e/canonical_composition.hpp
index f4bb30c..b5d59fa 100644
--- a/include/u5e/canonical_composition.hpp
+++ b/include/u5e/canonical_composition.hpp
@@ -1,6 +1,7 @@
 #ifndef INCLUDED_U5E_CANONICAL_COMPOSITION
 #define INCLUDED_U5E_CANONICAL_COMPOSITION
 
+#include <u5e/props/canonical_combining_class.hpp>
 #include <u5e/props/canonical_composition_mapping.hpp>
 
 namespace u5e {
@@ -31,43 +32,45 @@ namespace u5e {
     typename StorageType::iterator in = oi;
     typename StorageType::iterator end(data.codepoint_end());
 
-    int a, b, c;
+    // the last codepoint with class zero in the output, if any, and
+    // the class of the last codepoint in the output.
+    typename StorageType::iterator starter = end;
+    int last_class = 0;
+
+    int b, c;
     while (in != end) {
       //
       // grab the codepoint in the current input iterator
       //
-      a = *in;
-      if ((in + 1) == end) {
+      b = *in;
+      int b_class = u5e::props::canonical_combining_class::resolve(b);
+      //
+      // A codepoint composes with the last starter, unless there is
+      // something in between with the same or a higher class.
+      //
+      if (starter != end &&
+          (starter + 1 == oi || last_class < b_class) &&
+          u5e::props::canonical_composition_mapping::resolve(*starter, b, &c)) {
         //
-        // If this is the last codepoint, it can't be composed, so we
-        // just push it to the output as-is.
+        // If this is a composition, it replaces the starter, because
+        // it may still be composed more.
         //
-        *(oi++) = a;
-        in++;
+        *starter = c;
+        *count = *count + 1;
       } else {
         //
-        // look ahead for the next codepoint
+        // If there is no composition, we set it in the output iterator
         //
-        b = *(in + 1);
-        if (u5e::props::canonical_composition_mapping::resolve(a, b, &c)) {
-          //
-          // If this is a composition, we set it as the current input
-          // iterator after advancing, because it may still be
-          // composed more.
-          //
-          *(++in) = c;
-          *count = *count + 1;
-        } else {
-          //
-          // If there is no composition, we set it in the output iterator
-          //
-          *(oi++) = a;
-          //
-          // And finally advance the input iterator.
-          //
-          in++;
+        if (b_class == 0) {
+          starter = oi;
         }
+        last_class = b_class;
+        *(oi++) = b;
       }
+      //
+      // And finally advance the input iterator.
+      //
+      in++;
     }
 
     return oi;
-- 
2.43.0


From 78377ae7d838572921684c9f4e60fdcf46a236dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:25 +0000
Subject: [PATCH 9/9] fix: reverse iterators over UTF-8 text returned a
 reference to a dead temporary

---
 include/u5e/utf8_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/u5e/utf8_iterator.hpp b/include/u5e/utf8_iterator.hpp
index 77c6024..00941a5 100644
--- a/include/u5e/utf8_iterator.hpp
+++ b/include/u5e/utf8_iterator.hpp
@@ -30,7 +30,7 @@ namespace u5e {
      * Basic iterator typedefs
      */
     typedef codepoint value_type;
-    typedef const codepoint& reference;
+    typedef const codepoint reference;
     typedef int difference_type;
     typedef std::bidirectional_iterator_tag iterator_category;
     //@}
-- 
2.43.0

