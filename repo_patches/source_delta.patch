From 972da339c3af9b83ed901f00fad784cf3703b9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:14 +0000
Subject: [PATCH 01/52] fix: stop multi-unit sequence decoding at the end of
 the string

Advancing a by_code_point iterator over a truncated UTF-8 or UTF-16
sequence looked one code unit past the end of the string before
noticing that it had ended.
---
 api/src/cmp/unicode/by_code_point.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/api/src/cmp/unicode/by_code_point.cpp b/api/src/cmp/unicode/by_code_point.cpp
index c5c11d9..d909744 100644
--- a/api/src/cmp/unicode/by_code_point.cpp
+++ b/api/src/cmp/unicode/by_code_point.cpp
@@ -466,7 +466,7 @@ const
         return result;
     }
     while (--sequence_length > 0) {
-        if (i == m_end_iterator) {
+        if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
         code_unit = *(i + 1);
@@ -493,7 +493,7 @@ by_code_point<char8_t>::const_iterator::finish_sequence (
         return result;
     }
     while (--sequence_length > 0) {
-        if (i == m_end_iterator) {
+        if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
         code_unit = *(i + 1);
@@ -841,7 +841,7 @@ by_code_point<char16_t>::const_iterator::finish_sequence (
 const
 {
     if (sequence_length == 2) {
-        if (i == m_end_iterator) {
+        if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
         char16_t code_unit{*(i + 1)};
@@ -862,7 +862,7 @@ by_code_point<char16_t>::const_iterator::finish_sequence (
     std::u16string_view::const_iterator& i
 ) {
     if (sequence_length == 2) {
-        if (i == m_end_iterator) {
+        if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
         char16_t code_unit{*(i + 1)};
@@ -1431,7 +1431,7 @@ by_code_point<wchar_t>::const_iterator::finish_sequence (
 const
 {
     if (sequence_length == 2) {
-        if (i == m_end_iterator) {
+        if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
         char16_t code_unit{static_cast<char16_t>(*(i + 1))};
@@ -1452,7 +1452,7 @@ by_code_point<wchar_t>::const_iterator::finish_sequence (
     std::wstring_view::const_iterator& i
 ) {
     if (sequence_length == 2) {
-        if (i == m_end_iterator) {
+        if (i + 1 == m_end_iterator) {
             throw iterated_past_end{};
         }
         char16_t code_unit{static_cast<char16_t>(*(i + 1))};
-- 
2.43.0


From 0246bb47cd1c8f9a592554eb6c5b3b16ecd16985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:14 +0000
Subject: [PATCH 02/52] fix: advance over both halves of a UTF-16 surrogate
 pair

The iterator only stepped over the leading surrogate, so iterating over
any string with a supplementary code point threw on the next step.
---
 api/src/cmp/unicode/by_code_point.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/api/src/cmp/unicode/by_code_point.cpp b/api/src/cmp/unicode/by_code_point.cpp
index d909744..7677eb0 100644
--- a/api/src/cmp/unicode/by_code_point.cpp
+++ b/api/src/cmp/unicode/by_code_point.cpp
@@ -869,7 +869,7 @@ by_code_point<char16_t>::const_iterator::finish_sequence (
         if (!is_trailing_surrogate(code_unit)) {
             throw invalid_unicode_encoding{};
         }
-        ++i;
+        i += 2;
         return initial_code_point_value + (code_unit - 0xDC00) + 0x10000;
     } else {
         ++i;
@@ -1459,7 +1459,7 @@ by_code_point<wchar_t>::const_iterator::finish_sequence (
         if (!is_trailing_surrogate(code_unit)) {
             throw invalid_unicode_encoding{};
         }
-        ++i;
+        i += 2;
         return initial_code_point_value + (code_unit - 0xDC00) + 0x10000;
     } else {
         ++i;
-- 
2.43.0


From 3caa19a95b25f5bb97cbc44fae304873476539bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:14 +0000
Subject: [PATCH 03/52] fix: retreat instead of advancing when moving UTF-16
 iterators back

---
 api/src/cmp/unicode/by_code_point.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/api/src/cmp/unicode/by_code_point.cpp b/api/src/cmp/unicode/by_code_point.cpp
index 7677eb0..22ce570 100644
--- a/api/src/cmp/unicode/by_code_point.cpp
+++ b/api/src/cmp/unicode/by_code_point.cpp
@@ -915,7 +915,7 @@ by_code_point<char16_t>::const_iterator::retreat (
     difference_type offset
 ) {
     while (offset-- > 0) {
-        advance();
+        retreat();
     }
 } // function -----------------------------------------------------------------
 
@@ -1518,7 +1518,7 @@ by_code_point<wchar_t>::const_iterator::retreat (
 ) {
     if constexpr (sizeof (wchar_t) == 2) {
         while (offset-- > 0) {
-            advance();
+            retreat();
         }
     } else {
         m_current_iterator -= offset;
-- 
2.43.0


From ce5331f72943ced2f05edf7a1ec2ce047ac8a4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:28 +0000
Subject: [PATCH 04/52] fix: report advancing past the end instead of reading
 past it

Advancing a UTF-8 or UTF-16 iterator that is at the end read the code
unit after the last one. iterated_past_end is now thrown, also from
operator +, which can no longer be noexcept.
---
 api/include/cmp/unicode/by_code_point.hpp | 18 ++++--------
 api/src/cmp/unicode/by_code_point.cpp     | 36 +++++++++++------------
 2 files changed, 24 insertions(+), 30 deletions(-)

diff --git a/api/include/cmp/unicode/by_code_point.hpp b/api/include/cmp/unicode/by_code_point.hpp
index e7ba723..08d958f 100644
--- a/api/include/cmp/unicode/by_code_point.hpp
+++ b/api/include/cmp/unicode/by_code_point.hpp
@@ -516,8 +516,7 @@ public:
         operator + (
             const const_iterator& iterator,
             difference_type offset
-        )
-        noexcept;
+        );
 
         CMP_CONDITIONAL_INLINE
         CMP_LIBRARY_NAME
@@ -526,8 +525,7 @@ public:
         operator + (
             difference_type offset,
             const const_iterator& iterator
-        )
-        noexcept;
+        );
 
         CMP_CONDITIONAL_INLINE
         CMP_LIBRARY_NAME
@@ -934,8 +932,7 @@ public:
         operator + (
             const const_iterator& iterator,
             difference_type offset
-        )
-        noexcept;
+        );
 
         CMP_CONDITIONAL_INLINE
         CMP_LIBRARY_NAME
@@ -944,8 +941,7 @@ public:
         operator + (
             difference_type offset,
             const const_iterator& iterator
-        )
-        noexcept;
+        );
 
         CMP_CONDITIONAL_INLINE
         CMP_LIBRARY_NAME
@@ -1695,8 +1691,7 @@ public:
         operator + (
             const const_iterator& iterator,
             difference_type offset
-        )
-        noexcept;
+        );
 
         CMP_CONDITIONAL_INLINE
         CMP_LIBRARY_NAME
@@ -1705,8 +1700,7 @@ public:
         operator + (
             difference_type offset,
             const const_iterator& iterator
-        )
-        noexcept;
+        );
 
         CMP_CONDITIONAL_INLINE
         CMP_LIBRARY_NAME
diff --git a/api/src/cmp/unicode/by_code_point.cpp b/api/src/cmp/unicode/by_code_point.cpp
index 22ce570..dc2fb51 100644
--- a/api/src/cmp/unicode/by_code_point.cpp
+++ b/api/src/cmp/unicode/by_code_point.cpp
@@ -370,9 +370,7 @@ by_code_point<char8_t>::const_iterator
 operator + (
     const by_code_point<char8_t>::const_iterator& iterator,
     by_code_point<char8_t>::const_iterator::difference_type offset
-)
-noexcept
-{
+) {
     by_code_point<char8_t>::const_iterator result_iterator{
         iterator.m_current_iterator,
         iterator.m_end_iterator
@@ -385,9 +383,7 @@ by_code_point<char8_t>::const_iterator
 operator + (
     by_code_point<char8_t>::const_iterator::difference_type offset,
     const by_code_point<char8_t>::const_iterator& iterator
-)
-noexcept
-{
+) {
     by_code_point<char8_t>::const_iterator result_iterator{
         iterator.m_current_iterator,
         iterator.m_end_iterator
@@ -511,6 +507,10 @@ by_code_point<char8_t>::const_iterator::finish_sequence (
 void
 by_code_point<char8_t>::const_iterator::advance ()
 {
+    if (m_current_iterator == m_end_iterator) {
+        throw iterated_past_end{};
+    }
+
     char8_t code_unit{*m_current_iterator};
     char32_t code_point;
     auto sequence_length{
@@ -750,9 +750,7 @@ by_code_point<char16_t>::const_iterator
 operator + (
     const by_code_point<char16_t>::const_iterator& iterator,
     by_code_point<char16_t>::const_iterator::difference_type offset
-)
-noexcept
-{
+) {
     by_code_point<char16_t>::const_iterator result_iterator{
         iterator.m_current_iterator,
         iterator.m_end_iterator
@@ -765,9 +763,7 @@ by_code_point<char16_t>::const_iterator
 operator + (
     by_code_point<char16_t>::const_iterator::difference_type offset,
     const by_code_point<char16_t>::const_iterator& iterator
-)
-noexcept
-{
+) {
     by_code_point<char16_t>::const_iterator result_iterator{
         iterator.m_current_iterator,
         iterator.m_end_iterator
@@ -880,6 +876,10 @@ by_code_point<char16_t>::const_iterator::finish_sequence (
 void
 by_code_point<char16_t>::const_iterator::advance ()
 {
+    if (m_current_iterator == m_end_iterator) {
+        throw iterated_past_end{};
+    }
+
     char16_t code_unit{*m_current_iterator};
     char32_t code_point;
     auto sequence_length{
@@ -1340,9 +1340,7 @@ by_code_point<wchar_t>::const_iterator
 operator + (
     const by_code_point<wchar_t>::const_iterator& iterator,
     by_code_point<wchar_t>::const_iterator::difference_type offset
-)
-noexcept
-{
+) {
     by_code_point<wchar_t>::const_iterator result_iterator{
         iterator.m_current_iterator,
         iterator.m_end_iterator
@@ -1355,9 +1353,7 @@ by_code_point<wchar_t>::const_iterator
 operator + (
     by_code_point<wchar_t>::const_iterator::difference_type offset,
     const by_code_point<wchar_t>::const_iterator& iterator
-)
-noexcept
-{
+) {
     by_code_point<wchar_t>::const_iterator result_iterator{
         iterator.m_current_iterator,
         iterator.m_end_iterator
@@ -1471,6 +1467,10 @@ void
 by_code_point<wchar_t>::const_iterator::advance ()
 {
     if constexpr (sizeof (wchar_t) == 2) {
+        if (m_current_iterator == m_end_iterator) {
+            throw iterated_past_end{};
+        }
+
         char16_t code_unit{static_cast<char16_t>(*m_current_iterator)};
         char32_t code_point;
         auto sequence_length{
-- 
2.43.0


From df058dfd3946c0d5ba2e2df4916baa70de8e10e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:28 +0000
Subject: [PATCH 05/52] fix: accept supplementary code points whose low half
 looks like a surrogate

is_code_point_valid truncated the code point to 16 bits before checking
for surrogates, so U+1D800 and the like were rejected.
---
 api/src/cmp/unicode/examiners.ipp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/api/src/cmp/unicode/examiners.ipp b/api/src/cmp/unicode/examiners.ipp
index c42d066..099320d 100644
--- a/api/src/cmp/unicode/examiners.ipp
+++ b/api/src/cmp/unicode/examiners.ipp
@@ -90,7 +90,10 @@ is_code_point_valid (
 noexcept
 {
     return code_point <= maximum_code_point
-        && !is_surrogate(code_point);
+        && (
+            code_point > maximum_bmp_code_point
+                || !is_surrogate(static_cast<char16_t>(code_point))
+        );
 } // function -----------------------------------------------------------------
 
 constexpr
-- 
2.43.0


From a8337d62ab0e405e2e3faab5d2bb1a72e3a7ba10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:57 +0000
Subject: [PATCH 06/52] fix: reject invalid code points in every Unicode
 encoding form

Only UTF-8 strings refused surrogates and values above U+10FFFF. Adding
one to a UTF-16 string produced an unrelated surrogate pair and adding
one to a UTF-32 string produced an invalid string.
---
 api/src/cmp/unicode/algorithms.ipp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/api/src/cmp/unicode/algorithms.ipp b/api/src/cmp/unicode/algorithms.ipp
index bffc917..ac9e907 100644
--- a/api/src/cmp/unicode/algorithms.ipp
+++ b/api/src/cmp/unicode/algorithms.ipp
@@ -150,10 +150,11 @@ insert_code_point (
                        && sizeof (wchar_t) == 2
                )
     ) {
-        if (
-            !is_surrogate(code_point)
-                && code_point <= maximum_bmp_code_point
-        ) {
+        if (!is_code_point_valid(code_point)) {
+            throw invalid_code_point{};
+        }
+
+        if (code_point <= maximum_bmp_code_point) {
             s.insert(index, 1, static_cast<char16_t>(code_point));
         } else {
             code_point -= 0x10000;
@@ -181,6 +182,10 @@ insert_code_point (
                        && sizeof (wchar_t) == 4
                )
     ) {
+        if (!is_code_point_valid(code_point)) {
+            throw invalid_code_point{};
+        }
+
         s.insert(index, 1, code_point);
     }
 } // function -----------------------------------------------------------------
-- 
2.43.0


From 5b607e4f2b10ed769cd8d6ba9723b64d546e84cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:57 +0000
Subject: [PATCH 07/52] fix: treat surrogates as invalid when validating UTF-32
 strings

---
 api/src/cmp/unicode/algorithms.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/src/cmp/unicode/algorithms.ipp b/api/src/cmp/unicode/algorithms.ipp
index ac9e907..4efeb3f 100644
--- a/api/src/cmp/unicode/algorithms.ipp
+++ b/api/src/cmp/unicode/algorithms.ipp
@@ -292,7 +292,7 @@ noexcept
     auto bcp_iterator{std::cbegin(bcp_range)};
     try {
         while (bcp_iterator != bcp_range_end) {
-            if (*bcp_iterator > maximum_code_point) {
+            if (!is_code_point_valid(*bcp_iterator)) {
                 return bcp_iterator;
             }
             ++bcp_iterator;
-- 
2.43.0


From 5a59c7d50637b32291c00102c3af3b3e562cb65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:57 +0000
Subject: [PATCH 08/52] fix: let starts_with and ends_with report malformed
 strings

Both decode their arguments, which throws for malformed UTF-8 or UTF-16,
but were noexcept and so ended the whole program instead.
---
 api/include/cmp/unicode/algorithms.hpp | 6 ++----
 api/src/cmp/unicode/algorithms.ipp     | 8 ++------
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/api/include/cmp/unicode/algorithms.hpp b/api/include/cmp/unicode/algorithms.hpp
index 5297c98..4b8be32 100644
--- a/api/include/cmp/unicode/algorithms.hpp
+++ b/api/include/cmp/unicode/algorithms.hpp
@@ -35,8 +35,7 @@ bool
 starts_with (
     const ContentString& content,
     const Substring& substring
-)
-noexcept;
+);
 
 /**
     Description:
@@ -57,8 +56,7 @@ bool
 ends_with (
     const ContentString& content,
     const Substring& substring
-)
-noexcept;
+);
 
 /**
     Description:
diff --git a/api/src/cmp/unicode/algorithms.ipp b/api/src/cmp/unicode/algorithms.ipp
index 4efeb3f..9b4d61f 100644
--- a/api/src/cmp/unicode/algorithms.ipp
+++ b/api/src/cmp/unicode/algorithms.ipp
@@ -15,9 +15,7 @@ bool
 starts_with (
     const ContentString& content,
     const Substring& substring
-)
-noexcept
-{
+) {
     cmp::by_code_point content_range{content};
     cmp::by_code_point substring_range{substring};
     auto content_iterator{content_range.cbegin()};
@@ -41,9 +39,7 @@ bool
 ends_with (
     const ContentString& content,
     const Substring& substring
-)
-noexcept
-{
+) {
     cmp::by_code_point content_range{content};
     cmp::by_code_point substring_range{substring};
     auto content_iterator{content_range.crbegin()};
-- 
2.43.0


From 8b0c83f87df081c4241406b22243294718308b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:19 +0000
Subject: [PATCH 09/52] fix: reject overlong, surrogate and out-of-range UTF-8
 sequences

These are not valid UTF-8, but were decoded as if they were, both from
strings and from text input streams.
---
 api/include/cmp/unicode/impl/impl.hpp | 13 +++++++++++++
 api/src/cmp/io/text_input_stream.ipp  |  1 +
 api/src/cmp/unicode/by_code_point.cpp |  8 +++++++-
 api/src/cmp/unicode/impl/impl.cpp     | 15 +++++++++++++++
 4 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/api/include/cmp/unicode/impl/impl.hpp b/api/include/cmp/unicode/impl/impl.hpp
index e044dd2..7d40e9a 100644
--- a/api/include/cmp/unicode/impl/impl.hpp
+++ b/api/include/cmp/unicode/impl/impl.hpp
@@ -22,6 +22,19 @@ initialize_utf8_sequence (
     char32_t& initial_code_point_value
 );
 
+/*
+    Throws invalid_unicode_encoding if the code point decoded from a UTF-8
+    sequence of the given length is not a valid code point or could have
+    been encoded in a shorter sequence.
+*/
+CMP_CONDITIONAL_INLINE
+CMP_LIBRARY_NAME
+void
+check_utf8_sequence (
+    int sequence_length,
+    char32_t code_point
+);
+
 CMP_CONDITIONAL_INLINE
 CMP_LIBRARY_NAME
 int
diff --git a/api/src/cmp/io/text_input_stream.ipp b/api/src/cmp/io/text_input_stream.ipp
index 59a74da..341122c 100644
--- a/api/src/cmp/io/text_input_stream.ipp
+++ b/api/src/cmp/io/text_input_stream.ipp
@@ -231,6 +231,7 @@ text_input_stream<InputResource>::read_utf8_code_point ()
     char32_t result;
     int sequence_length{impl::initialize_utf8_sequence(code_unit, result)};
     result = finish_utf8_sequence(sequence_length, result);
+    impl::check_utf8_sequence(sequence_length, result);
     return result;
 } // function -----------------------------------------------------------------
 
diff --git a/api/src/cmp/unicode/by_code_point.cpp b/api/src/cmp/unicode/by_code_point.cpp
index dc2fb51..8d2f96c 100644
--- a/api/src/cmp/unicode/by_code_point.cpp
+++ b/api/src/cmp/unicode/by_code_point.cpp
@@ -254,6 +254,8 @@ const
         code_point,
         m_current_iterator
     );
+    impl::check_utf8_sequence(sequence_length, code_point);
+
     return code_point;
 } // function -----------------------------------------------------------------
 
@@ -516,11 +518,15 @@ by_code_point<char8_t>::const_iterator::advance ()
     auto sequence_length{
         impl::initialize_utf8_sequence(code_unit, code_point)
     };
+    auto next_iterator{m_current_iterator};
     code_point = finish_sequence(
         sequence_length,
         code_point,
-        m_current_iterator
+        next_iterator
     );
+    impl::check_utf8_sequence(sequence_length, code_point);
+
+    m_current_iterator = next_iterator;
 } // function -----------------------------------------------------------------
 
 void
diff --git a/api/src/cmp/unicode/impl/impl.cpp b/api/src/cmp/unicode/impl/impl.cpp
index 91483c0..2a37c82 100644
--- a/api/src/cmp/unicode/impl/impl.cpp
+++ b/api/src/cmp/unicode/impl/impl.cpp
@@ -31,6 +31,21 @@ initialize_utf8_sequence (
     }
 } // function -----------------------------------------------------------------
 
+void
+check_utf8_sequence (
+    int sequence_length,
+    char32_t code_point
+) {
+    const bool is_overlong{
+        (sequence_length == 2 && code_point < 0x80)
+            || (sequence_length == 3 && code_point < 0x800)
+            || (sequence_length == 4 && code_point < 0x10000)
+    };
+    if (is_overlong || !is_code_point_valid(code_point)) {
+        throw invalid_unicode_encoding{};
+    }
+} // function -----------------------------------------------------------------
+
 int
 initialize_utf16_sequence (
     char16_t leading_code_unit,
-- 
2.43.0


From fea2fcff9221e37d4a8874a8257cb040bca4211f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:13 +0000
Subject: [PATCH 10/52] fix: keep backward iteration inside the string

Retreating over malformed UTF-8 or UTF-16 skipped stray trailing code
units without reporting them and, when the string started with one, read
memory in front of the string. The iterator now knows where the string
begins and stops at stray code units, which then fail to decode.
---
 api/include/cmp/unicode/by_code_point.hpp |  27 ++++
 api/src/cmp/unicode/by_code_point.cpp     | 178 ++++++++++++++--------
 2 files changed, 142 insertions(+), 63 deletions(-)

diff --git a/api/include/cmp/unicode/by_code_point.hpp b/api/include/cmp/unicode/by_code_point.hpp
index 08d958f..8523d1e 100644
--- a/api/include/cmp/unicode/by_code_point.hpp
+++ b/api/include/cmp/unicode/by_code_point.hpp
@@ -431,6 +431,14 @@ public:
         )
         noexcept;
 
+        CMP_CONDITIONAL_INLINE
+        const_iterator (
+            std::u8string_view::const_iterator initial_begin_iterator,
+            std::u8string_view::const_iterator initial_current_iterator,
+            std::u8string_view::const_iterator initial_end_iterator
+        )
+        noexcept;
+
         CMP_CONDITIONAL_INLINE
         ~const_iterator ()
         = default;
@@ -570,6 +578,7 @@ public:
     private:
         // Private Data -------------------------------------------------------
 
+        std::u8string_view::const_iterator m_begin_iterator;
         std::u8string_view::const_iterator m_current_iterator;
         std::u8string_view::const_iterator m_end_iterator;
 
@@ -847,6 +856,14 @@ public:
         )
         noexcept;
 
+        CMP_CONDITIONAL_INLINE
+        const_iterator (
+            std::u16string_view::const_iterator initial_begin_iterator,
+            std::u16string_view::const_iterator initial_current_iterator,
+            std::u16string_view::const_iterator initial_end_iterator
+        )
+        noexcept;
+
         CMP_CONDITIONAL_INLINE
         ~const_iterator ()
         = default;
@@ -986,6 +1003,7 @@ public:
     private:
         // Private Data -------------------------------------------------------
 
+        std::u16string_view::const_iterator m_begin_iterator;
         std::u16string_view::const_iterator m_current_iterator;
         std::u16string_view::const_iterator m_end_iterator;
 
@@ -1606,6 +1624,14 @@ public:
         )
         noexcept;
 
+        CMP_CONDITIONAL_INLINE
+        const_iterator (
+            std::wstring_view::const_iterator initial_begin_iterator,
+            std::wstring_view::const_iterator initial_current_iterator,
+            std::wstring_view::const_iterator initial_end_iterator
+        )
+        noexcept;
+
         CMP_CONDITIONAL_INLINE
         ~const_iterator ()
         = default;
@@ -1745,6 +1771,7 @@ public:
     private:
         // Private Data -------------------------------------------------------
 
+        std::wstring_view::const_iterator m_begin_iterator;
         std::wstring_view::const_iterator m_current_iterator;
         std::wstring_view::const_iterator m_end_iterator;
 
diff --git a/api/src/cmp/unicode/by_code_point.cpp b/api/src/cmp/unicode/by_code_point.cpp
index 8d2f96c..4c5f20f 100644
--- a/api/src/cmp/unicode/by_code_point.cpp
+++ b/api/src/cmp/unicode/by_code_point.cpp
@@ -298,7 +298,22 @@ by_code_point<char8_t>::const_iterator::const_iterator (
     std::u8string_view::const_iterator initial_end_iterator
 )
 noexcept
-    : m_current_iterator{initial_current_iterator}
+    : const_iterator{
+          initial_current_iterator,
+          initial_current_iterator,
+          initial_end_iterator
+      }
+{
+} // function -----------------------------------------------------------------
+
+by_code_point<char8_t>::const_iterator::const_iterator (
+    std::u8string_view::const_iterator initial_begin_iterator,
+    std::u8string_view::const_iterator initial_current_iterator,
+    std::u8string_view::const_iterator initial_end_iterator
+)
+noexcept
+    : m_begin_iterator{initial_begin_iterator}
+    , m_current_iterator{initial_current_iterator}
     , m_end_iterator{initial_end_iterator}
 {
 } // function -----------------------------------------------------------------
@@ -373,10 +388,7 @@ operator + (
     const by_code_point<char8_t>::const_iterator& iterator,
     by_code_point<char8_t>::const_iterator::difference_type offset
 ) {
-    by_code_point<char8_t>::const_iterator result_iterator{
-        iterator.m_current_iterator,
-        iterator.m_end_iterator
-    };
+    by_code_point<char8_t>::const_iterator result_iterator{iterator};
     result_iterator.advance(offset);
     return result_iterator;
 } // function -----------------------------------------------------------------
@@ -386,10 +398,7 @@ operator + (
     by_code_point<char8_t>::const_iterator::difference_type offset,
     const by_code_point<char8_t>::const_iterator& iterator
 ) {
-    by_code_point<char8_t>::const_iterator result_iterator{
-        iterator.m_current_iterator,
-        iterator.m_end_iterator
-    };
+    by_code_point<char8_t>::const_iterator result_iterator{iterator};
     result_iterator.advance(offset);
     return result_iterator;
 } // function -----------------------------------------------------------------
@@ -401,10 +410,7 @@ operator - (
 )
 noexcept
 {
-    by_code_point<char8_t>::const_iterator result_iterator{
-        iterator.m_current_iterator,
-        iterator.m_end_iterator
-    };
+    by_code_point<char8_t>::const_iterator result_iterator{iterator};
     result_iterator.retreat(offset);
     return result_iterator;
 } // function -----------------------------------------------------------------
@@ -416,10 +422,7 @@ operator - (
 )
 noexcept
 {
-    by_code_point<char8_t>::const_iterator result_iterator{
-        iterator.m_current_iterator,
-        iterator.m_end_iterator
-    };
+    by_code_point<char8_t>::const_iterator result_iterator{iterator};
     result_iterator.retreat(offset);
     return result_iterator;
 } // function -----------------------------------------------------------------
@@ -541,12 +544,37 @@ by_code_point<char8_t>::const_iterator::advance (
 void
 by_code_point<char8_t>::const_iterator::retreat ()
 {
-    char8_t code_unit{*(--m_current_iterator)};
-    if (is_standalone_byte(code_unit)) {
+    if (m_current_iterator == m_begin_iterator) {
         return;
     }
-    while (is_trailing_byte(code_unit)) {
-        code_unit = *(--m_current_iterator);
+
+    auto last_iterator{--m_current_iterator};
+    int sequence_length{1};
+    while (
+        is_trailing_byte(*m_current_iterator)
+            && m_current_iterator != m_begin_iterator
+            && sequence_length < 4
+    ) {
+        --m_current_iterator;
+        ++sequence_length;
+    }
+
+    /*
+        If the leading byte we found does not announce a sequence this long
+        then the last byte is a stray one, so that's where we need to be.
+    */
+    const char8_t leading_byte{*m_current_iterator};
+    const int announced_length{
+        (leading_byte >> 3) == 0b11110
+            ? 4
+            : (leading_byte >> 4) == 0b1110
+                ? 3
+                : (leading_byte >> 5) == 0b110
+                    ? 2
+                    : 1
+    };
+    if (sequence_length > announced_length) {
+        m_current_iterator = last_iterator;
     }
 } // function -----------------------------------------------------------------
 
@@ -592,14 +620,14 @@ by_code_point<char8_t>::const_iterator
 by_code_point<char8_t>::cbegin ()
 const noexcept
 {
-    return const_iterator{m_begin_iterator, m_end_iterator};
+    return const_iterator{m_begin_iterator, m_begin_iterator, m_end_iterator};
 } // function -----------------------------------------------------------------
 
 by_code_point<char8_t>::const_iterator
 by_code_point<char8_t>::cend ()
 const noexcept
 {
-    return const_iterator{m_end_iterator, m_end_iterator};
+    return const_iterator{m_begin_iterator, m_end_iterator, m_end_iterator};
 } // function -----------------------------------------------------------------
 
 by_code_point<char8_t>::const_reverse_iterator
@@ -682,7 +710,22 @@ by_code_point<char16_t>::const_iterator::const_iterator (
     std::u16string_view::const_iterator initial_end_iterator
 )
 noexcept
-    : m_current_iterator{initial_current_iterator}
+    : const_iterator{
+          initial_current_iterator,
+          initial_current_iterator,
+          initial_end_iterator
+      }
+{
+} // function -----------------------------------------------------------------
+
+by_code_point<char16_t>::const_iterator::const_iterator (
+    std::u16string_view::const_iterator initial_begin_iterator,
+    std::u16string_view::const_iterator initial_current_iterator,
+    std::u16string_view::const_iterator initial_end_iterator
+)
+noexcept
+    : m_begin_iterator{initial_begin_iterator}
+    , m_current_iterator{initial_current_iterator}
     , m_end_iterator{initial_end_iterator}
 {
 } // function -----------------------------------------------------------------
@@ -757,10 +800,7 @@ operator + (
     const by_code_point<char16_t>::const_iterator& iterator,
     by_code_point<char16_t>::const_iterator::difference_type offset
 ) {
-    by_code_point<char16_t>::const_iterator result_iterator{
-        iterator.m_current_iterator,
-        iterator.m_end_iterator
-    };
+    by_code_point<char16_t>::const_iterator result_iterator{iterator};
     result_iterator.advance(offset);
     return result_iterator;
 } // function -----------------------------------------------------------------
@@ -770,10 +810,7 @@ operator + (
     by_code_point<char16_t>::const_iterator::difference_type offset,
     const by_code_point<char16_t>::const_iterator& iterator
 ) {
-    by_code_point<char16_t>::const_iterator result_iterator{
-        iterator.m_current_iterator,
-        iterator.m_end_iterator
-    };
+    by_code_point<char16_t>::const_iterator result_iterator{iterator};
     result_iterator.advance(offset);
     return result_iterator;
 } // function -----------------------------------------------------------------
@@ -785,10 +822,7 @@ operator - (
 )
 noexcept
 {
-    by_code_point<char16_t>::const_iterator result_iterator{
-        iterator.m_current_iterator,
-        iterator.m_end_iterator
-    };
+    by_code_point<char16_t>::const_iterator result_iterator{iterator};
     result_iterator.retreat(offset);
     return result_iterator;
 } // function -----------------------------------------------------------------
@@ -800,10 +834,7 @@ operator - (
 )
 noexcept
 {
-    by_code_point<char16_t>::const_iterator result_iterator{
-        iterator.m_current_iterator,
-        iterator.m_end_iterator
-    };
+    by_code_point<char16_t>::const_iterator result_iterator{iterator};
     result_iterator.retreat(offset);
     return result_iterator;
 } // function -----------------------------------------------------------------
@@ -910,8 +941,16 @@ by_code_point<char16_t>::const_iterator::advance (
 void
 by_code_point<char16_t>::const_iterator::retreat ()
 {
+    if (m_current_iterator == m_begin_iterator) {
+        return;
+    }
+
     char16_t code_unit{*(--m_current_iterator)};
-    if (is_trailing_surrogate(code_unit)) {
+    if (
+        is_trailing_surrogate(code_unit)
+            && m_current_iterator != m_begin_iterator
+            && is_leading_surrogate(*(m_current_iterator - 1))
+    ) {
         --m_current_iterator;
     }
 } // function -----------------------------------------------------------------
@@ -958,14 +997,14 @@ by_code_point<char16_t>::const_iterator
 by_code_point<char16_t>::cbegin ()
 const noexcept
 {
-    return const_iterator{m_begin_iterator, m_end_iterator};
+    return const_iterator{m_begin_iterator, m_begin_iterator, m_end_iterator};
 } // function -----------------------------------------------------------------
 
 by_code_point<char16_t>::const_iterator
 by_code_point<char16_t>::cend ()
 const noexcept
 {
-    return const_iterator{m_end_iterator, m_end_iterator};
+    return const_iterator{m_begin_iterator, m_end_iterator, m_end_iterator};
 } // function -----------------------------------------------------------------
 
 by_code_point<char16_t>::const_reverse_iterator
@@ -1272,7 +1311,22 @@ by_code_point<wchar_t>::const_iterator::const_iterator (
     std::wstring_view::const_iterator initial_end_iterator
 )
 noexcept
-    : m_current_iterator{initial_current_iterator}
+    : const_iterator{
+          initial_current_iterator,
+          initial_current_iterator,
+          initial_end_iterator
+      }
+{
+} // function -----------------------------------------------------------------
+
+by_code_point<wchar_t>::const_iterator::const_iterator (
+    std::wstring_view::const_iterator initial_begin_iterator,
+    std::wstring_view::const_iterator initial_current_iterator,
+    std::wstring_view::const_iterator initial_end_iterator
+)
+noexcept
+    : m_begin_iterator{initial_begin_iterator}
+    , m_current_iterator{initial_current_iterator}
     , m_end_iterator{initial_end_iterator}
 {
 } // function -----------------------------------------------------------------
@@ -1347,10 +1401,7 @@ operator + (
     const by_code_point<wchar_t>::const_iterator& iterator,
     by_code_point<wchar_t>::const_iterator::difference_type offset
 ) {
-    by_code_point<wchar_t>::const_iterator result_iterator{
-        iterator.m_current_iterator,
-        iterator.m_end_iterator
-    };
+    by_code_point<wchar_t>::const_iterator result_iterator{iterator};
     result_iterator.advance(offset);
     return result_iterator;
 } // function -----------------------------------------------------------------
@@ -1360,10 +1411,7 @@ operator + (
     by_code_point<wchar_t>::const_iterator::difference_type offset,
     const by_code_point<wchar_t>::const_iterator& iterator
 ) {
-    by_code_point<wchar_t>::const_iterator result_iterator{
-        iterator.m_current_iterator,
-        iterator.m_end_iterator
-    };
+    by_code_point<wchar_t>::const_iterator result_iterator{iterator};
     result_iterator.advance(offset);
     return result_iterator;
 } // function -----------------------------------------------------------------
@@ -1375,10 +1423,7 @@ operator - (
 )
 noexcept
 {
-    by_code_point<wchar_t>::const_iterator result_iterator{
-        iterator.m_current_iterator,
-        iterator.m_end_iterator
-    };
+    by_code_point<wchar_t>::const_iterator result_iterator{iterator};
     result_iterator.retreat(offset);
     return result_iterator;
 } // function -----------------------------------------------------------------
@@ -1390,10 +1435,7 @@ operator - (
 )
 noexcept
 {
-    by_code_point<wchar_t>::const_iterator result_iterator{
-        iterator.m_current_iterator,
-        iterator.m_end_iterator
-    };
+    by_code_point<wchar_t>::const_iterator result_iterator{iterator};
     result_iterator.retreat(offset);
     return result_iterator;
 } // function -----------------------------------------------------------------
@@ -1509,8 +1551,18 @@ void
 by_code_point<wchar_t>::const_iterator::retreat ()
 {
     if constexpr (sizeof (wchar_t) == 2) {
+        if (m_current_iterator == m_begin_iterator) {
+            return;
+        }
+
         char16_t code_unit{static_cast<char16_t>(*(--m_current_iterator))};
-        if (is_trailing_surrogate(code_unit)) {
+        if (
+            is_trailing_surrogate(code_unit)
+                && m_current_iterator != m_begin_iterator
+                && is_leading_surrogate(
+                       static_cast<char16_t>(*(m_current_iterator - 1))
+                   )
+        ) {
             --m_current_iterator;
         }
     } else {
@@ -1564,14 +1616,14 @@ by_code_point<wchar_t>::const_iterator
 by_code_point<wchar_t>::cbegin ()
 const noexcept
 {
-    return const_iterator{m_begin_iterator, m_end_iterator};
+    return const_iterator{m_begin_iterator, m_begin_iterator, m_end_iterator};
 } // function -----------------------------------------------------------------
 
 by_code_point<wchar_t>::const_iterator
 by_code_point<wchar_t>::cend ()
 const noexcept
 {
-    return const_iterator{m_end_iterator, m_end_iterator};
+    return const_iterator{m_begin_iterator, m_end_iterator, m_end_iterator};
 } // function -----------------------------------------------------------------
 
 by_code_point<wchar_t>::const_reverse_iterator
-- 
2.43.0


From 912b7693c562b5173d8e5e726061244eae555147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:35 +0000
Subject: [PATCH 11/52] fix: reject an unsupported radix in the format setters
 too

The constructors throw invalid_radix for a radix outside 2 to 36, but
set_radix stored it, and a radix of 0 or 1 made formatting crash or
loop forever.
---
 api/include/cmp/unicode/formats.hpp |  6 ++----
 api/src/cmp/unicode/formats.cpp     | 14 ++++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/api/include/cmp/unicode/formats.hpp b/api/include/cmp/unicode/formats.hpp
index e69584d..054a65c 100644
--- a/api/include/cmp/unicode/formats.hpp
+++ b/api/include/cmp/unicode/formats.hpp
@@ -435,8 +435,7 @@ public:
     void
     set_radix (
         unsigned int new_radix
-    )
-    noexcept;
+    );
 
     /**
         Description:
@@ -648,8 +647,7 @@ public:
     void
     set_radix (
         unsigned int new_radix
-    )
-    noexcept;
+    );
 
     /**
         Description:
diff --git a/api/src/cmp/unicode/formats.cpp b/api/src/cmp/unicode/formats.cpp
index f9db33a..7aab38f 100644
--- a/api/src/cmp/unicode/formats.cpp
+++ b/api/src/cmp/unicode/formats.cpp
@@ -109,9 +109,10 @@ const noexcept
 void
 integer_format::set_radix (
     unsigned int new_radix
-)
-noexcept
-{
+) {
+    if (new_radix < 2 || new_radix > 36) {
+        throw invalid_radix{};
+    }
     m_radix = new_radix;
 } // function -----------------------------------------------------------------
 
@@ -194,9 +195,10 @@ const noexcept
 void
 floating_point_format::set_radix (
     unsigned int new_radix
-)
-noexcept
-{
+) {
+    if (new_radix < 2 || new_radix > 36) {
+        throw invalid_radix{};
+    }
     m_radix = new_radix;
 } // function -----------------------------------------------------------------
 
-- 
2.43.0


From 972c1b2627ae8db5c42cba4ef8e659cfe9789f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:35 +0000
Subject: [PATCH 12/52] fix: format the minimum value of signed integer types

The absolute value of the minimum isn't representable, so taking it
overflowed and produced garbage digits.
---
 api/src/cmp/unicode/formatters.ipp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/api/src/cmp/unicode/formatters.ipp b/api/src/cmp/unicode/formatters.ipp
index a862e72..fb5a87d 100644
--- a/api/src/cmp/unicode/formatters.ipp
+++ b/api/src/cmp/unicode/formatters.ipp
@@ -33,22 +33,23 @@ number_formatter::format_integer (
     } else if (format.get_sign_status() == sign_status::always_show) {
         sign_character = '+';
     }
-    if constexpr (std::is_signed_v<Input>) {
-        input = std::abs(input);
+    unsigned long long magnitude{static_cast<unsigned long long>(input)};
+    if (input < 0) {
+        magnitude = 0 - magnitude;
     }
-    while (input != 0) {
-        char character{static_cast<char>(input % format_radix)};
+    while (magnitude != 0) {
+        char character{static_cast<char>(magnitude % format_radix)};
         if (character <= 9) {
             character += '0';
         } else {
             character += 'A' - 10;
         }
         prepend_code_point(output, character);
-        input /= format_radix;
+        magnitude /= format_radix;
         ++digits_counted;
         if (digits_counted == 3) {
             digits_counted = 0;
-            if (input != 0) {
+            if (magnitude != 0) {
                 switch (format.get_thousands_separator()) {
                     case thousands_separator::comma:
                         prepend_code_point(output, ',');
-- 
2.43.0


From 791c397f4ba207386dd39a515ef8e936c69dd038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:53 +0000
Subject: [PATCH 13/52] fix: format negative, large and non-terminating
 floating-point values

Negative values were rounded towards negative infinity (-1.5 became
-2.5) and lost their sign above -1, values outside of long long were
cast to it, an exact number of radix places wasn't padded for whole
numbers, a place count of 0 left a dangling radix character, thousands
separators were put in the fractional part, and NaN, infinities and
fractions without a finite representation in the radix never finished.
---
 api/include/cmp/unicode/formatters.hpp |  19 ++++
 api/src/cmp/unicode/formatters.ipp     | 133 +++++++++++++++++--------
 2 files changed, 113 insertions(+), 39 deletions(-)

diff --git a/api/include/cmp/unicode/formatters.hpp b/api/include/cmp/unicode/formatters.hpp
index d1e18c0..870b087 100644
--- a/api/include/cmp/unicode/formatters.hpp
+++ b/api/include/cmp/unicode/formatters.hpp
@@ -5,6 +5,8 @@
 #define CMP_UNICODE_FORMATTERS_HPP_INCLUDED
 
 #include <cmath>
+#include <limits>
+#include <vector>
 
 #include <cmp/unicode/inclusion_assert.hpp>
 #include <cmp/unicode/algorithms.hpp>
@@ -39,6 +41,23 @@ public:
         Input input,
         const floating_point_format& format
     );
+
+private:
+
+    // Private Functions ------------------------------------------------------
+
+    template <
+        writable_raii_text_object Output,
+        std::floating_point Input
+    >
+    static
+    void
+    append_integral_part (
+        Output& output,
+        Input integral_part,
+        const floating_point_format& format
+    );
+
 }; // class -------------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
diff --git a/api/src/cmp/unicode/formatters.ipp b/api/src/cmp/unicode/formatters.ipp
index fb5a87d..eaa6608 100644
--- a/api/src/cmp/unicode/formatters.ipp
+++ b/api/src/cmp/unicode/formatters.ipp
@@ -79,70 +79,125 @@ number_formatter::format_floating_point (
     Input input,
     const floating_point_format& format
 ) {
-    integer_format equivalent_format{
-        format.get_radix(),
-        format.get_sign_status(),
-        format.get_thousands_separator()
-    };
-    Output output{
-        number_formatter::format_integer<Output>(
-            static_cast<long long>(std::floor(input)),
-            equivalent_format
-        )
-    };
+    Output output;
+    if (std::isnan(input)) {
+        for (const char character : {'n', 'a', 'n'}) {
+            append_code_point(output, character);
+        }
+        return output;
+    }
     if (input < 0) {
+        append_code_point(output, '-');
         input = -input;
+    } else if (
+        input > 0 && format.get_sign_status() == sign_status::always_show
+    ) {
+        append_code_point(output, '+');
     }
-    Input fractional_part{input - std::floor(input)};
-    if (fractional_part == 0) {
+    if (std::isinf(input)) {
+        for (const char character : {'i', 'n', 'f'}) {
+            append_code_point(output, character);
+        }
         return output;
     }
+    const Input integral_part{std::floor(input)};
+    append_integral_part(output, integral_part, format);
+
+    Input fractional_part{input - integral_part};
+    const bool is_limited{
+        format.get_radix_place_limit() != radix_place_limit::none
+    };
     Output fractional_part_string;
-    unsigned int digits_counted{0};
     unsigned int radix_places_counted{0};
-    while (fractional_part != 0) {
+    int significant_places_counted{0};
+    while (
+        fractional_part != 0
+            && (
+                is_limited
+                    ? radix_places_counted < format.get_radix_place_count()
+                    : significant_places_counted
+                        < std::numeric_limits<Input>::digits
+            )
+    ) {
         fractional_part *= format.get_radix();
         char character{static_cast<char>(std::floor(fractional_part))};
         fractional_part -= std::floor(fractional_part);
+        if (character != 0 || significant_places_counted != 0) {
+            ++significant_places_counted;
+        }
         if (character <= 9) {
             character += '0';
         } else {
             character += 'A' - 10;
         }
-        if (
-            format.get_radix_place_limit() != radix_place_limit::none
-                && (radix_places_counted++) == format.get_radix_place_count()
-        ) {
-            break;
-        }
         append_code_point(fractional_part_string, character);
-        ++digits_counted;
-        if (digits_counted == 3) {
-            digits_counted = 0;
+        ++radix_places_counted;
+    }
+    if (format.get_radix_place_limit() == radix_place_limit::exactly_equal) {
+        while (radix_places_counted < format.get_radix_place_count()) {
+            append_code_point(fractional_part_string, '0');
+            ++radix_places_counted;
+        }
+    }
+    if (radix_places_counted > 0) {
+        append_code_point(
+            output,
+            format.get_radix_character() == radix_character::period ? '.' : ','
+        );
+        output += fractional_part_string;
+    }
+
+    return output;
+} // function -----------------------------------------------------------------
+
+// Private Functions ----------------------------------------------------------
+
+template <
+    writable_raii_text_object Output,
+    std::floating_point Input
+>
+void
+number_formatter::append_integral_part (
+    Output& output,
+    Input integral_part,
+    const floating_point_format& format
+) {
+    const unsigned int format_radix{format.get_radix()};
+    int exponent;
+    Input significand{std::frexp(integral_part, &exponent)};
+    std::vector<unsigned int> digits{0};
+    for (; exponent > 0; --exponent) {
+        significand *= 2;
+        unsigned int carry{significand >= 1 ? 1u : 0u};
+        significand -= carry;
+        for (unsigned int& digit : digits) {
+            digit = digit * 2 + carry;
+            carry = digit / format_radix;
+            digit %= format_radix;
+        }
+        if (carry != 0) {
+            digits.push_back(carry);
+        }
+    }
+    for (std::size_t i{digits.size()}; i > 0; --i) {
+        const unsigned int digit{digits[i - 1]};
+        append_code_point(
+            output,
+            static_cast<char>(digit <= 9 ? digit + '0' : digit + 'A' - 10)
+        );
+        if (i > 1 && i % 3 == 1) {
             switch (format.get_thousands_separator()) {
                 case thousands_separator::comma:
-                    append_code_point(fractional_part_string, ',');
+                    append_code_point(output, ',');
                     break;
                 case thousands_separator::period:
-                    append_code_point(fractional_part_string, '.');
+                    append_code_point(output, '.');
                     break;
                 case thousands_separator::none:
-                    continue;
+                    break;
             }
         }
     }
-    if (format.get_radix_place_limit() == radix_place_limit::exactly_equal) {
-        while ((radix_places_counted++) < format.get_radix_place_count()) {
-            append_code_point(fractional_part_string, '0');
-        }
-    }
-    append_code_point(
-        output,
-        format.get_radix_character() == radix_character::period ? '.' : ','
-    );
-    output += fractional_part_string;
-
-    return output;
 } // function -----------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
-- 
2.43.0


From 7e0139563f5288b99ad9210d5d9f963355afc67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:29 +0000
Subject: [PATCH 14/52] fix: only accept a sign at the start and a separator
 between digits

A sign was accepted anywhere ("1-2" parsed as -12) and so was a
thousands separator before the first digit (",123").
---
 api/src/cmp/unicode/parsers.cpp |  1 +
 api/src/cmp/unicode/parsers.ipp | 35 +++++++++++++++------------------
 2 files changed, 17 insertions(+), 19 deletions(-)

diff --git a/api/src/cmp/unicode/parsers.cpp b/api/src/cmp/unicode/parsers.cpp
index 75de8a3..57b3a9e 100644
--- a/api/src/cmp/unicode/parsers.cpp
+++ b/api/src/cmp/unicode/parsers.cpp
@@ -28,6 +28,7 @@ noexcept
     } else if (character >= 'A' && character <= 'Z') {
         return character - 'A' + 10;
     }
+    return -1;
 } // function -----------------------------------------------------------------
 
 void
diff --git a/api/src/cmp/unicode/parsers.ipp b/api/src/cmp/unicode/parsers.ipp
index 7c04653..9c0184d 100644
--- a/api/src/cmp/unicode/parsers.ipp
+++ b/api/src/cmp/unicode/parsers.ipp
@@ -52,34 +52,28 @@ number_parser::parse_integer (
     for (; bcp_iterator != bcp_range.crend(); ++bcp_iterator) {
         current_character = *bcp_iterator;
         if (
-            digits_counted == 3
-                && format_thousands_separator != thousands_separator::none
-        ) {
-            digits_counted = 0;
-            if (
-                check_for_sign(
+            digits_counted != 0
+                && check_for_sign(
                     current_character,
                     sign_found,
                     negate,
                     format_sign_status
                 )
-            ) {
-                continue;
-            }
-            check_for_thousands_separator(
-                current_character,
-                format_thousands_separator
-            );
+        ) {
             continue;
         }
+        if (sign_found) {
+            report_non_digit_character();
+        }
         if (
-            check_for_sign(
-                current_character,
-                sign_found,
-                negate,
-                format_sign_status
-            )
+            digits_counted == 3
+                && format_thousands_separator != thousands_separator::none
         ) {
+            check_for_thousands_separator(
+                current_character,
+                format_thousands_separator
+            );
+            digits_counted = 0;
             continue;
         } else if (!is_radix_digit(current_character, format_radix)) {
             report_non_digit_character();
@@ -93,6 +87,9 @@ number_parser::parse_integer (
             digits_counted
         );
     }
+    if (digits_counted == 0) {
+        report_non_digit_character();
+    }
     if (negate) {
         if constexpr (std::is_signed_v<Output>) {
             output = -output;
-- 
2.43.0


From 898385b7232391ee381b31144958addcc8ec4322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:29 +0000
Subject: [PATCH 15/52] fix: report integers that don't fit instead of
 overflowing

Parsing a number outside of the range of the output type overflowed and
returned an unrelated value. It's reported as a failed parse now.
---
 api/include/cmp/unicode/parsers.hpp | 21 +++++++-----
 api/src/cmp/unicode/parsers.cpp     | 37 +++++++++++++++++++++
 api/src/cmp/unicode/parsers.ipp     | 50 ++++++++++++++---------------
 3 files changed, 74 insertions(+), 34 deletions(-)

diff --git a/api/include/cmp/unicode/parsers.hpp b/api/include/cmp/unicode/parsers.hpp
index 1d90092..9c9784f 100644
--- a/api/include/cmp/unicode/parsers.hpp
+++ b/api/include/cmp/unicode/parsers.hpp
@@ -6,6 +6,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <limits>
 
 #include <cmp/unicode/inclusion_assert.hpp>
 #include <cmp/core/general.hpp>
@@ -59,6 +60,11 @@ private:
     void
     report_non_digit_character ();
 
+    CMP_CONDITIONAL_INLINE
+    static
+    void
+    report_out_of_range ();
+
     CMP_CONDITIONAL_INLINE
     static
     int
@@ -93,19 +99,17 @@ private:
         thousands_separator format_thousands_separator
     );
 
-    template <
-        std::integral Output
-    >
+    CMP_CONDITIONAL_INLINE
     static
     void
     prepend_digit (
-        Output& power,
+        unsigned long long& power,
+        bool& power_overflowed,
         unsigned int radix,
-        Output& output,
+        unsigned long long& magnitude,
         int current_digit,
         unsigned int& digits_counted
-    )
-    noexcept;
+    );
 
     template <
         std::floating_point Output
@@ -145,7 +149,8 @@ public:
         thousands_separator_missing,
         digit_character_expected,
         negative_unsigned,
-        wrong_place_limit
+        wrong_place_limit,
+        out_of_range
     }; // enum ----------------------------------------------------------------
 
     // Constructors and Destructor --------------------------------------------
diff --git a/api/src/cmp/unicode/parsers.cpp b/api/src/cmp/unicode/parsers.cpp
index 57b3a9e..f66f20b 100644
--- a/api/src/cmp/unicode/parsers.cpp
+++ b/api/src/cmp/unicode/parsers.cpp
@@ -41,6 +41,16 @@ number_parser::report_non_digit_character ()
     };
 } // function -----------------------------------------------------------------
 
+void
+number_parser::report_out_of_range ()
+{
+    throw parse_failed{
+        "The number in the input string is out of "
+        "the range of the output type.",
+        parse_failed::type::out_of_range
+    };
+} // function -----------------------------------------------------------------
+
 int
 number_parser::get_next_digit (
     char32_t character,
@@ -113,6 +123,33 @@ number_parser::check_for_thousands_separator (
     }
 } // function -----------------------------------------------------------------
 
+void
+number_parser::prepend_digit (
+    unsigned long long& power,
+    bool& power_overflowed,
+    unsigned int radix,
+    unsigned long long& magnitude,
+    int current_digit,
+    unsigned int& digits_counted
+) {
+    constexpr unsigned long long maximum{
+        std::numeric_limits<unsigned long long>::max()
+    };
+    const auto digit{static_cast<unsigned long long>(current_digit)};
+    if (power > maximum / radix) {
+        power_overflowed = true;
+    } else {
+        power *= radix;
+    }
+    if (digit != 0) {
+        if (power_overflowed || digit > (maximum - magnitude) / power) {
+            report_out_of_range();
+        }
+        magnitude += digit * power;
+    }
+    ++digits_counted;
+} // function -----------------------------------------------------------------
+
 } // namespace ----------------------------------------------------------------
 
 // --------------------------------------------------------- cmp::parse_failed
diff --git a/api/src/cmp/unicode/parsers.ipp b/api/src/cmp/unicode/parsers.ipp
index 9c0184d..15fcbc8 100644
--- a/api/src/cmp/unicode/parsers.ipp
+++ b/api/src/cmp/unicode/parsers.ipp
@@ -36,16 +36,16 @@ number_parser::parse_integer (
     const auto format_sign_status{format.get_sign_status()};
 
     int current_digit{get_next_digit(*bcp_iterator, format_radix)};
-    Output output{static_cast<Output>(current_digit)};
+    unsigned long long magnitude{
+        static_cast<unsigned long long>(current_digit)
+    };
 
     ++bcp_iterator;
-    if (bcp_iterator == bcp_range.crend()) {
-        return output;
-    }
 
     bool sign_found{false};
     bool negate{false};
-    Output power{1};
+    unsigned long long power{1};
+    bool power_overflowed{false};
     unsigned int digits_counted{1};
     char32_t current_character;
 
@@ -81,8 +81,9 @@ number_parser::parse_integer (
         current_digit = get_next_digit(current_character, format_radix);
         prepend_digit(
             power,
+            power_overflowed,
             format_radix,
-            output,
+            magnitude,
             current_digit,
             digits_counted
         );
@@ -92,7 +93,15 @@ number_parser::parse_integer (
     }
     if (negate) {
         if constexpr (std::is_signed_v<Output>) {
-            output = -output;
+            const unsigned long long limit{
+                static_cast<unsigned long long>(
+                    std::numeric_limits<Output>::max()
+                ) + 1
+            };
+            if (magnitude > limit) {
+                report_out_of_range();
+            }
+            return static_cast<Output>(0 - magnitude);
         } else {
             throw parse_failed{
                 "The input string contains a negative "
@@ -101,7 +110,14 @@ number_parser::parse_integer (
             };
         }
     }
-    return output;
+    if (
+        magnitude > static_cast<unsigned long long>(
+            std::numeric_limits<Output>::max()
+        )
+    ) {
+        report_out_of_range();
+    }
+    return static_cast<Output>(magnitude);
 } // function -----------------------------------------------------------------
 
 template <
@@ -192,24 +208,6 @@ number_parser::parse_floating_point (
 
 // Private Functions ----------------------------------------------------------
 
-template <
-    std::integral Output
->
-void
-number_parser::prepend_digit (
-    Output& power,
-    unsigned int radix,
-    Output& output,
-    int current_digit,
-    unsigned int& digits_counted
-)
-noexcept
-{
-    power *= radix;
-    output += current_digit * power;
-    ++digits_counted;
-} // function -----------------------------------------------------------------
-
 template <
     std::floating_point Output
 >
-- 
2.43.0


From 333b31513c3463b195e9d6d826157345f32324e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:55 +0000
Subject: [PATCH 16/52] fix: parse negative fractions and honour the radix
 place limit

The fractional part of a negative number was added to it (-1.5 parsed as
-0.5), and the limit on the number of radix places was ignored.
---
 api/src/cmp/unicode/parsers.ipp | 76 ++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 39 deletions(-)

diff --git a/api/src/cmp/unicode/parsers.ipp b/api/src/cmp/unicode/parsers.ipp
index 15fcbc8..8a8256a 100644
--- a/api/src/cmp/unicode/parsers.ipp
+++ b/api/src/cmp/unicode/parsers.ipp
@@ -141,30 +141,25 @@ number_parser::parse_floating_point (
                 : ','
         )
     };
+    const bool is_negative{!u32_input.empty() && u32_input.front() == '-'};
     integer_format equivalent_format{
         format_radix,
         format.get_sign_status(),
         format.get_thousands_separator()
     };
-    if (radix_character_iterator == u32_input.cend()) {
-        return number_parser::parse_integer<long long>(
-            u32_input,
-            equivalent_format
-        );
-    } else {
-        const auto integral_part_start{u32_input.data()};
-        const auto integral_part_size{
+    const std::u32string_view integral_part{
+        u32_input.data(),
+        static_cast<std::u32string_view::size_type>(
             radix_character_iterator - u32_input.cbegin()
-        };
-        const std::u32string_view integral_part{
-            integral_part_start,
-            static_cast<std::u32string_view::size_type>(integral_part_size)
-        };
-        Output output{
-            static_cast<Output>(
-                parse_integer<long long>(integral_part, equivalent_format)
-            )
-        };
+        )
+    };
+    Output output{
+        static_cast<Output>(
+            parse_integer<long long>(integral_part, equivalent_format)
+        )
+    };
+    unsigned int digits_counted{0};
+    if (radix_character_iterator != u32_input.cend()) {
         ++radix_character_iterator;
         if (radix_character_iterator == u32_input.cend()) {
             if (format.get_radix_place_limit() == radix_place_limit::none) {
@@ -178,32 +173,35 @@ number_parser::parse_floating_point (
             }
         }
         Output root = 1;
-        int current_digit;;
-        unsigned int digits_counted{0};
         while (radix_character_iterator != u32_input.cend()) {
-            current_digit = digit_character_to_integer(
-                *radix_character_iterator,
-                format_radix
+            const int current_digit{
+                get_next_digit(*radix_character_iterator, format_radix)
+            };
+            append_digit(
+                root,
+                format_radix,
+                output,
+                is_negative ? -current_digit : current_digit,
+                digits_counted
             );
-            if (current_digit == -1) {
-                throw parse_failed{
-                    "The input string didn't have enough "
-                    "places after the radix point.",
-                    parse_failed::type::wrong_place_limit
-                };
-            } else {
-                append_digit(
-                    root,
-                    format_radix,
-                    output,
-                    current_digit,
-                    digits_counted
-                );
-            }
             ++radix_character_iterator;
         }
-        return output;
     }
+    const auto format_place_limit{format.get_radix_place_limit()};
+    const auto format_place_count{format.get_radix_place_count()};
+    if (
+        (format_place_limit == radix_place_limit::up_to
+            && digits_counted > format_place_count)
+        || (format_place_limit == radix_place_limit::exactly_equal
+            && digits_counted != format_place_count)
+    ) {
+        throw parse_failed{
+            "The input string didn't have the right number "
+            "of places after the radix point.",
+            parse_failed::type::wrong_place_limit
+        };
+    }
+    return output;
 } // function -----------------------------------------------------------------
 
 // Private Functions ----------------------------------------------------------
-- 
2.43.0


From cbbebcffcee3d89e68f17625a3aa10b7be69adde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:02 +0000
Subject: [PATCH 17/52] fix: grow a container resource just enough to hold what
 is written

Writing over the end grew the container by the whole write even if it
partly overwrote existing content, and not at all if fewer bytes than an
element were written, in which case the data went past the end of it.
---
 api/src/cmp/io/impl/ctr_essence.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/api/src/cmp/io/impl/ctr_essence.ipp b/api/src/cmp/io/impl/ctr_essence.ipp
index a823097..c5bee1d 100644
--- a/api/src/cmp/io/impl/ctr_essence.ipp
+++ b/api/src/cmp/io/impl/ctr_essence.ipp
@@ -199,8 +199,8 @@ ctr_essence<Container>::write_raw (
             than there are bytes available. So we just make room.
         */
         content_ref.resize(
-            std::size(content_ref)
-                + (byte_count / sizeof (element_type))
+            (m_position + byte_count + sizeof (element_type) - 1)
+                / sizeof (element_type)
         );
     }
 
-- 
2.43.0


From b76318ece795ca7fdc8fdd66336999d6dd8b3f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:02 +0000
Subject: [PATCH 18/52] fix: make container and file positions mean the same
 bytes

Containers took positions in elements but reported them in bytes, counted
backwards from the end where files count forwards, and let the position
leave the content on either side, so that reading went out of bounds.
A position in front of the beginning is the beginning now, as it already
was for files when given relative to it.
---
 api/src/cmp/io/impl/ctr_essence.ipp           | 32 ++++++++++++-------
 .../cmp/io/impl/unix_like/unix_like_file.cpp  | 10 +++++-
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/api/src/cmp/io/impl/ctr_essence.ipp b/api/src/cmp/io/impl/ctr_essence.ipp
index c5bee1d..78231cb 100644
--- a/api/src/cmp/io/impl/ctr_essence.ipp
+++ b/api/src/cmp/io/impl/ctr_essence.ipp
@@ -62,7 +62,7 @@ const noexcept
 {
     using element_type = typename Container::value_type;
 
-    return get_position(buffer) ==
+    return static_cast<std::size_t>(get_position(buffer)) >=
         std::size(*get_const_content_ptr()) * sizeof (element_type);
 } // function -----------------------------------------------------------------
 
@@ -92,16 +92,20 @@ noexcept
 
     switch (pr) {
         case position_reference::begin:
-            m_position = new_position * sizeof (element_type);
+            m_position = new_position;
             break;
         case position_reference::current:
-            m_position += new_position * sizeof (element_type);
+            m_position += new_position;
             break;
         case position_reference::end:
-            m_position = (std::size(*get_const_content_ptr()) - new_position)
-                * sizeof (element_type);
+            m_position = static_cast<std::int64_t>(
+                std::size(*get_const_content_ptr()) * sizeof (element_type)
+            ) + new_position;
             break;
     }
+    if (m_position < 0) {
+        m_position = 0;
+    }
     m_last_fill_amount = 0;
 } // function -----------------------------------------------------------------
 
@@ -134,7 +138,9 @@ ctr_essence<Container>::read_raw (
         We check if the position would spill over the end of the content
         if we actually went ahead and read the requested number of bytes.
     */
-    if (m_position + byte_count > content_size) {
+    if (static_cast<std::size_t>(m_position) >= content_size) {
+        byte_count = 0;
+    } else if (m_position + byte_count > content_size) {
         /*
             Here we know that the caller is requesting more bytes than
             there are bytes available. So we adjust the number of bytes
@@ -146,12 +152,14 @@ ctr_essence<Container>::read_raw (
     /*
         We copy the bytes from the content to the data array.
     */
-    std::memcpy(
-        data,
-        reinterpret_cast<const std::byte*>(std::data(content_ref))
-            + m_position,
-        byte_count
-    );
+    if (byte_count > 0) {
+        std::memcpy(
+            data,
+            reinterpret_cast<const std::byte*>(std::data(content_ref))
+                + m_position,
+            byte_count
+        );
+    }
 
     /*
         We advance the position by the number of bytes read.
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index e2d66de..7704f75 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -125,7 +125,15 @@ noexcept
             break;
     }
 
-    ::lseek(m_file_descriptor, new_position, unix_like_position_reference);
+    if (
+        ::lseek(
+            m_file_descriptor,
+            new_position,
+            unix_like_position_reference
+        ) == -1 && new_position < 0
+    ) {
+        ::lseek(m_file_descriptor, 0, SEEK_SET);
+    }
 
     m_last_fill_amount = 0;
 } // function -----------------------------------------------------------------
-- 
2.43.0


From 2db0c825377d7ba839ee4165f59a3514fb5adad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:46 +0000
Subject: [PATCH 19/52] fix: continue after the buffered data when reading past
 the buffer

A read larger than the buffer that came after a buffered one got the
bytes of the buffer again, because the position of the resource is kept
at the start of the buffer and wasn't moved to its end first. The buffer
also stayed in use afterwards although it was behind the position.
---
 api/include/cmp/io/impl/ctr_essence.hpp                |  3 +--
 api/src/cmp/io/impl/ctr_essence.ipp                    | 10 +++++-----
 api/src/cmp/io/impl/unix_like/unix_like_file.cpp       |  9 ++++++---
 api/src/cmp/io/impl/windows/windows_file.cpp           |  9 ++++++---
 api/src/cmp/io/input_resource.cpp                      |  1 +
 api/src/cmp/io/opaque_container_input_resource.ipp     |  3 +--
 api/src/cmp/io/opaque_container_io_resource.ipp        |  3 +--
 .../cmp/io/transparent_container_input_resource.ipp    |  3 +--
 api/src/cmp/io/transparent_container_io_resource.ipp   |  3 +--
 9 files changed, 23 insertions(+), 21 deletions(-)

diff --git a/api/include/cmp/io/impl/ctr_essence.hpp b/api/include/cmp/io/impl/ctr_essence.hpp
index 2d8b6f1..1375411 100644
--- a/api/include/cmp/io/impl/ctr_essence.hpp
+++ b/api/include/cmp/io/impl/ctr_essence.hpp
@@ -69,8 +69,7 @@ protected:
     read_raw (
         std::byte* data,
         std::size_t byte_count,
-        read_request rr,
-        seekable_input_resource<std::int64_t>& resource
+        read_request rr
     );
 
     std::size_t
diff --git a/api/src/cmp/io/impl/ctr_essence.ipp b/api/src/cmp/io/impl/ctr_essence.ipp
index 78231cb..9489ab2 100644
--- a/api/src/cmp/io/impl/ctr_essence.ipp
+++ b/api/src/cmp/io/impl/ctr_essence.ipp
@@ -116,15 +116,15 @@ std::size_t
 ctr_essence<Container>::read_raw (
     std::byte *data,
     std::size_t byte_count,
-    cmp::read_request rr,
-    seekable_input_resource<std::int64_t>& resource
+    cmp::read_request rr
 ) {
     using element_type = typename Container::value_type;
 
     const auto& content_ref{*get_const_content_ptr()};
 
-    if (rr == read_request::fill_buffer && m_last_fill_amount > 0) {
-        resource.go_forward(m_last_fill_amount);
+    if (m_last_fill_amount > 0) {
+        m_position += m_last_fill_amount;
+        m_last_fill_amount = 0;
     }
 
     /*
@@ -171,7 +171,7 @@ ctr_essence<Container>::read_raw (
         then we go back by the number of bytes read.
     */
     if (rr == read_request::fill_buffer) {
-        resource.go_back(static_cast<std::int64_t>(byte_count));
+        m_position -= byte_count;
         m_last_fill_amount = byte_count;
     }
 
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index 7704f75..35f687e 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -146,8 +146,8 @@ file::read_raw (
 )
 noexcept
 {
-    if (rr == read_request::fill_buffer && m_last_fill_amount > 0) {
-        go_forward(m_last_fill_amount);
+    if (m_last_fill_amount > 0) {
+        set_position_raw(m_last_fill_amount, position_reference::current);
     }
 
     std::size_t total_result;
@@ -180,7 +180,10 @@ noexcept
         then we go back by the number of bytes read.
     */
     if (rr == read_request::fill_buffer) {
-        go_back(static_cast<position_type>(total_result));
+        set_position_raw(
+            -static_cast<position_type>(total_result),
+            position_reference::current
+        );
         m_last_fill_amount = total_result;
     }
 
diff --git a/api/src/cmp/io/impl/windows/windows_file.cpp b/api/src/cmp/io/impl/windows/windows_file.cpp
index 9025917..3be9f0f 100644
--- a/api/src/cmp/io/impl/windows/windows_file.cpp
+++ b/api/src/cmp/io/impl/windows/windows_file.cpp
@@ -165,8 +165,8 @@ file::read_raw (
 )
 noexcept
 {
-    if (rr == read_request::fill_buffer && m_last_fill_amount > 0) {
-        go_forward(m_last_fill_amount);
+    if (m_last_fill_amount > 0) {
+        set_position_raw(m_last_fill_amount, position_reference::current);
     }
 
     std::size_t total_result;
@@ -199,7 +199,10 @@ noexcept
         then we go back by the number of bytes read.
     */
     if (rr == read_request::fill_buffer) {
-        go_back(static_cast<position_type>(total_result));
+        set_position_raw(
+            -static_cast<position_type>(total_result),
+            position_reference::current
+        );
         m_last_fill_amount = total_result;
     }
 
diff --git a/api/src/cmp/io/input_resource.cpp b/api/src/cmp/io/input_resource.cpp
index d1bdd87..a7d40e4 100644
--- a/api/src/cmp/io/input_resource.cpp
+++ b/api/src/cmp/io/input_resource.cpp
@@ -125,6 +125,7 @@ input_resource::read_buffered (
                 byte_count,
                 read_request::lean_retrieval
             );
+            m_buffer.set_read_dirty(true);
             return bytes_read;
         } else {
             /*
diff --git a/api/src/cmp/io/opaque_container_input_resource.ipp b/api/src/cmp/io/opaque_container_input_resource.ipp
index 34189b7..0e768d1 100644
--- a/api/src/cmp/io/opaque_container_input_resource.ipp
+++ b/api/src/cmp/io/opaque_container_input_resource.ipp
@@ -118,8 +118,7 @@ opaque_container_input_resource<Container>::read_raw (
     return essence_type::read_raw(
         data,
         byte_count,
-        rr,
-        *this
+        rr
     );
 } // function -----------------------------------------------------------------
 
diff --git a/api/src/cmp/io/opaque_container_io_resource.ipp b/api/src/cmp/io/opaque_container_io_resource.ipp
index d6c6e7c..c460a0d 100644
--- a/api/src/cmp/io/opaque_container_io_resource.ipp
+++ b/api/src/cmp/io/opaque_container_io_resource.ipp
@@ -142,8 +142,7 @@ opaque_container_io_resource<Container>::read_raw (
     return essence_type::read_raw(
         data,
         byte_count,
-        rr,
-        *this
+        rr
     );
 } // function -----------------------------------------------------------------
 
diff --git a/api/src/cmp/io/transparent_container_input_resource.ipp b/api/src/cmp/io/transparent_container_input_resource.ipp
index 78dad08..19761e7 100644
--- a/api/src/cmp/io/transparent_container_input_resource.ipp
+++ b/api/src/cmp/io/transparent_container_input_resource.ipp
@@ -87,8 +87,7 @@ transparent_container_input_resource<Container>::read_raw (
     return essence_type::read_raw(
         data,
         byte_count,
-        rr,
-        *this
+        rr
     );
 } // function -----------------------------------------------------------------
 
diff --git a/api/src/cmp/io/transparent_container_io_resource.ipp b/api/src/cmp/io/transparent_container_io_resource.ipp
index 2576e8d..2104f1c 100644
--- a/api/src/cmp/io/transparent_container_io_resource.ipp
+++ b/api/src/cmp/io/transparent_container_io_resource.ipp
@@ -104,8 +104,7 @@ transparent_container_io_resource<Container>::read_raw (
     return essence_type::read_raw(
         data,
         byte_count,
-        rr,
-        *this
+        rr
     );
 } // function -----------------------------------------------------------------
 
-- 
2.43.0


From 9c82bbb309178033cf82868febf5db0a40144eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:46 +0000
Subject: [PATCH 20/52] fix: seek relative to the position that get_position
 reports

While the buffer holds data, the position of the underlying resource
isn't the one the caller is at, but relative seeks used it, and going
back or forward didn't tell the buffer about it at all.
---
 api/src/cmp/io/seekable_input_resource.ipp    | 3 +++
 api/src/cmp/io/seekable_io_resource.ipp       | 3 +++
 api/src/cmp/io/seekable_transfer_resource.ipp | 4 ++--
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/api/src/cmp/io/seekable_input_resource.ipp b/api/src/cmp/io/seekable_input_resource.ipp
index 25b359c..24507d2 100644
--- a/api/src/cmp/io/seekable_input_resource.ipp
+++ b/api/src/cmp/io/seekable_input_resource.ipp
@@ -33,6 +33,9 @@ seekable_input_resource<Position>::set_position (
 )
 noexcept
 {
+    if (pr == position_reference::current) {
+        new_position += m_buffer.get_position();
+    }
     this->set_position_raw(new_position, pr);
     m_buffer.set_read_dirty(true);
 } // function -----------------------------------------------------------------
diff --git a/api/src/cmp/io/seekable_io_resource.ipp b/api/src/cmp/io/seekable_io_resource.ipp
index 7799a9b..7c78b27 100644
--- a/api/src/cmp/io/seekable_io_resource.ipp
+++ b/api/src/cmp/io/seekable_io_resource.ipp
@@ -34,6 +34,9 @@ seekable_io_resource<Position>::set_position (
 noexcept
 {
     this->flush();
+    if (pr == position_reference::current) {
+        new_position += transfer_resource::m_buffer.get_position();
+    }
     this->set_position_raw(new_position, pr);
     transfer_resource::m_buffer.set_read_dirty(true);
 } // function -----------------------------------------------------------------
diff --git a/api/src/cmp/io/seekable_transfer_resource.ipp b/api/src/cmp/io/seekable_transfer_resource.ipp
index c29053d..7f6b85e 100644
--- a/api/src/cmp/io/seekable_transfer_resource.ipp
+++ b/api/src/cmp/io/seekable_transfer_resource.ipp
@@ -30,7 +30,7 @@ seekable_transfer_resource<Position>::go_back (
 )
 noexcept
 {
-    set_position_raw(-count, position_reference::current);
+    set_position(-count, position_reference::current);
 } // function -----------------------------------------------------------------
 
 template <
@@ -42,7 +42,7 @@ seekable_transfer_resource<Position>::go_forward (
 )
 noexcept
 {
-    set_position_raw(count, position_reference::current);
+    set_position(count, position_reference::current);
 } // function -----------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
-- 
2.43.0


From baaf8379cf1ed5c14fa970ddcc99c4c88f3619d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:46 +0000
Subject: [PATCH 21/52] fix: let reads and writes of the same resource take
 turns

Reading and writing share one buffer. Writing after reading used the
read buffer's position as the amount of data to write, and reading after
writing ignored the data that was waiting to be written.
---
 api/include/cmp/io/seekable_io_resource.hpp | 44 +++++++++++++++++++++
 api/src/cmp/io/file.cpp                     |  4 +-
 api/src/cmp/io/seekable_io_resource.ipp     | 32 +++++++++++++++
 3 files changed, 78 insertions(+), 2 deletions(-)

diff --git a/api/include/cmp/io/seekable_io_resource.hpp b/api/include/cmp/io/seekable_io_resource.hpp
index b8a8d5f..8407893 100644
--- a/api/include/cmp/io/seekable_io_resource.hpp
+++ b/api/include/cmp/io/seekable_io_resource.hpp
@@ -136,6 +136,50 @@ public:
         position_reference pr
     )
     noexcept override;
+
+    // Core -------------------------------------------------------------------
+
+    /**
+        Description:
+            Reads data from <#this/> resource. Any data that is
+            still waiting to be written is flushed before that.
+
+        Parameters:
+            data:
+                The destination of the data to be read.
+            byte_count:
+                The maximum number of bytes to read.
+
+        Return Value:
+            The number of bytes actually read.
+    */
+    std::size_t
+    read (
+        std::byte* data,
+        std::size_t byte_count
+    )
+    override;
+
+    /**
+        Description:
+            Writes data to <#this/> resource, at the
+            position up to which data was read or written.
+
+        Parameters:
+            data:
+                The source of the data to be written.
+            byte_count:
+                The number of bytes to write.
+
+        Return Value:
+            The number of bytes actually written.
+    */
+    std::size_t
+    write (
+        const std::byte* data,
+        std::size_t byte_count
+    )
+    override;
 }; // class -------------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
diff --git a/api/src/cmp/io/file.cpp b/api/src/cmp/io/file.cpp
index 4f3abd6..27c8efc 100644
--- a/api/src/cmp/io/file.cpp
+++ b/api/src/cmp/io/file.cpp
@@ -58,7 +58,7 @@ basic_file::read (
     switch (m_access_mode) {
         case read_only:
         case read_and_write: {
-            return input_resource::read(data, byte_count);
+            return seekable_io_resource::read(data, byte_count);
         }
         case write_only:
             throw invalid_access_mode{};
@@ -75,7 +75,7 @@ basic_file::write (
             throw invalid_access_mode{};
         case write_only:
         case read_and_write: {
-            return output_resource::write(data, byte_count);
+            return seekable_io_resource::write(data, byte_count);
         }
     }
 } // function -----------------------------------------------------------------
diff --git a/api/src/cmp/io/seekable_io_resource.ipp b/api/src/cmp/io/seekable_io_resource.ipp
index 7c78b27..39f30fd 100644
--- a/api/src/cmp/io/seekable_io_resource.ipp
+++ b/api/src/cmp/io/seekable_io_resource.ipp
@@ -41,4 +41,36 @@ noexcept
     transfer_resource::m_buffer.set_read_dirty(true);
 } // function -----------------------------------------------------------------
 
+// Core -----------------------------------------------------------------------
+
+template <
+    typename Position
+>
+std::size_t
+seekable_io_resource<Position>::read (
+    std::byte* data,
+    std::size_t byte_count
+) {
+    this->flush();
+    return input_resource::read(data, byte_count);
+} // function -----------------------------------------------------------------
+
+template <
+    typename Position
+>
+std::size_t
+seekable_io_resource<Position>::write (
+    const std::byte* data,
+    std::size_t byte_count
+) {
+    /*
+        If the buffer holds data that was read, we drop it
+        and move to where the caller is within that data.
+    */
+    if (!transfer_resource::m_buffer.is_read_dirty()) {
+        this->set_position(0, position_reference::current);
+    }
+    return output_resource::write(data, byte_count);
+} // function -----------------------------------------------------------------
+
 } // namespace ----------------------------------------------------------------
-- 
2.43.0


From d1dde08e6510ce8794e4e5ec8fc2a95c36c0137b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:30 +0000
Subject: [PATCH 22/52] fix: complete file transfers that are interrupted or
 cut short

A short read was continued at the start of the destination, over the
bytes that were already there and with room for fewer bytes than were
asked for, a short write wasn't continued at all, and an interruption by
a signal looked like the end of the file or lost the data.
---
 .../cmp/io/impl/unix_like/unix_like_file.hpp  |  2 ++
 .../cmp/io/impl/unix_like/unix_like_file.cpp  | 33 ++++++++++++++++---
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/api/include/cmp/io/impl/unix_like/unix_like_file.hpp b/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
index 8d33fea..b8650e2 100644
--- a/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
+++ b/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
@@ -4,6 +4,8 @@
 #ifndef CMP_IO_UNIX_LIKE_FILE_HPP_INCLUDED
 #define CMP_IO_UNIX_LIKE_FILE_HPP_INCLUDED
 
+#include <cerrno>
+
 #include <fcntl.h>
 #include <unistd.h>
 
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index 35f687e..363239c 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -236,7 +236,14 @@ noexcept
     ssize_t bytes_read_last;
     ssize_t bytes_read_total{0};
     while (true) {
-        bytes_read_last = ::read(m_file_descriptor, data, byte_count);
+        bytes_read_last = ::read(
+            m_file_descriptor,
+            data + bytes_read_total,
+            byte_count - bytes_read_total
+        );
+        if (bytes_read_last == -1 && errno == EINTR) {
+            continue;
+        }
         if (bytes_read_last == -1 || bytes_read_last == 0) {
             break;
         }
@@ -256,11 +263,27 @@ file::write_block (
 )
 noexcept
 {
-    ssize_t native_bytes_written{::write(m_file_descriptor, data, byte_count)};
-    if (native_bytes_written == -1) {
-        return 0;
+    ssize_t bytes_written_last;
+    ssize_t bytes_written_total{0};
+    while (true) {
+        bytes_written_last = ::write(
+            m_file_descriptor,
+            data + bytes_written_total,
+            byte_count - bytes_written_total
+        );
+        if (bytes_written_last == -1 && errno == EINTR) {
+            continue;
+        }
+        if (bytes_written_last == -1 || bytes_written_last == 0) {
+            break;
+        }
+        bytes_written_total += bytes_written_last;
+        if (bytes_written_total == byte_count) {
+            break;
+        }
     }
-    return native_bytes_written;
+
+    return bytes_written_total;
 } // function -----------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
-- 
2.43.0


From 91a7d33cee8baabd297f1cd8ee7b143a420c14cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:30 +0000
Subject: [PATCH 23/52] fix: complete standard stream transfers that are cut
 short

Pipes and terminals deliver and take fewer bytes than asked for. Reading
gave up after the first delivery, which looked like the end of the input
in the middle of a code point, writing dropped the rest, and an
interrupted read was taken for the largest possible number of bytes.
---
 .../cmp/io/impl/unix_like/unix_like_uout.hpp  |  2 +
 api/include/cmp/io/input_resource.hpp         |  7 ++
 .../cmp/io/impl/unix_like/unix_like_uin.cpp   |  9 ++-
 .../cmp/io/impl/unix_like/unix_like_uout.cpp  | 19 ++++-
 api/src/cmp/io/input_resource.cpp             | 71 +++++++++++--------
 5 files changed, 75 insertions(+), 33 deletions(-)

diff --git a/api/include/cmp/io/impl/unix_like/unix_like_uout.hpp b/api/include/cmp/io/impl/unix_like/unix_like_uout.hpp
index d0ee464..7f7dd3b 100644
--- a/api/include/cmp/io/impl/unix_like/unix_like_uout.hpp
+++ b/api/include/cmp/io/impl/unix_like/unix_like_uout.hpp
@@ -4,6 +4,8 @@
 #ifndef CMP_IO_UNIX_LIKE_UOUT_HPP_INCLUDED
 #define CMP_IO_UNIX_LIKE_UOUT_HPP_INCLUDED
 
+#include <cerrno>
+
 #include <unistd.h>
 
 #include <cmp/io/inclusion_assert.hpp>
diff --git a/api/include/cmp/io/input_resource.hpp b/api/include/cmp/io/input_resource.hpp
index 7444a03..3111885 100644
--- a/api/include/cmp/io/input_resource.hpp
+++ b/api/include/cmp/io/input_resource.hpp
@@ -190,6 +190,13 @@ private:
 
     // Private Functions ------------------------------------------------------
 
+    CMP_CONDITIONAL_INLINE
+    std::size_t
+    read_directly (
+        std::byte* data,
+        std::size_t byte_count
+    );
+
     CMP_CONDITIONAL_INLINE
     std::size_t
     read_buffered (
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_uin.cpp b/api/src/cmp/io/impl/unix_like/unix_like_uin.cpp
index 10e8db6..9485acb 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_uin.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_uin.cpp
@@ -36,7 +36,14 @@ stdin_resource::read_raw (
     std::size_t byte_count,
     read_request rr
 ) {
-    return ::read(STDIN_FILENO, data, byte_count);
+    ssize_t bytes_read;
+    do {
+        bytes_read = ::read(STDIN_FILENO, data, byte_count);
+    } while (bytes_read == -1 && errno == EINTR);
+    if (bytes_read == -1) {
+        return 0;
+    }
+    return bytes_read;
 } // function -----------------------------------------------------------------
 
 // --------------------------------------------------------- cmp::stdin_stream
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_uout.cpp b/api/src/cmp/io/impl/unix_like/unix_like_uout.cpp
index e7143e7..3e9ac6f 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_uout.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_uout.cpp
@@ -36,9 +36,22 @@ stdout_resource::write_raw (
     const std::byte* data,
     std::size_t byte_count
 ) {
-    ssize_t bytes_written{::write(m_file_descriptor, data, byte_count)};
-    if (bytes_written == -1) {
-        return 0;
+    std::size_t bytes_written{0};
+    while (bytes_written < byte_count) {
+        ssize_t result{
+            ::write(
+                m_file_descriptor,
+                data + bytes_written,
+                byte_count - bytes_written
+            )
+        };
+        if (result == -1 && errno == EINTR) {
+            continue;
+        }
+        if (result == -1 || result == 0) {
+            break;
+        }
+        bytes_written += result;
     }
     return bytes_written;
 } // function -----------------------------------------------------------------
diff --git a/api/src/cmp/io/input_resource.cpp b/api/src/cmp/io/input_resource.cpp
index a7d40e4..14bf78f 100644
--- a/api/src/cmp/io/input_resource.cpp
+++ b/api/src/cmp/io/input_resource.cpp
@@ -30,7 +30,7 @@ input_resource::read (
     if (m_buffer.get_capacity() > 0) {
         return read_buffered(data, byte_count);
     } else {
-        return read_raw(data, byte_count, read_request::lean_retrieval);
+        return read_directly(data, byte_count);
     }
 } // function -----------------------------------------------------------------
 
@@ -62,6 +62,28 @@ input_resource::fill ()
 
 // Private Functions ----------------------------------------------------------
 
+std::size_t
+input_resource::read_directly (
+    std::byte* data,
+    std::size_t byte_count
+) {
+    std::size_t bytes_read{0};
+    while (bytes_read < byte_count) {
+        const std::size_t last_byte_count{
+            read_raw(
+                data + bytes_read,
+                byte_count - bytes_read,
+                read_request::lean_retrieval
+            )
+        };
+        if (last_byte_count == 0) {
+            break;
+        }
+        bytes_read += last_byte_count;
+    }
+    return bytes_read;
+} // function -----------------------------------------------------------------
+
 std::size_t
 input_resource::read_buffered (
     std::byte* data,
@@ -120,40 +142,31 @@ input_resource::read_buffered (
             all the remaining data directly.
         */
         if (byte_count > m_buffer.get_capacity()) {
-            bytes_read += read_raw(
-                data + bytes_read,
-                byte_count,
-                read_request::lean_retrieval
-            );
+            bytes_read += read_directly(data + bytes_read, byte_count);
             m_buffer.set_read_dirty(true);
             return bytes_read;
         } else {
             /*
-                We now try to fill up the buffer
-                by reading data from the resource.
+                We now fill up the buffer by reading data from the
+                resource and read the bytes we want from it. The
+                resource may have fewer bytes for us at a time than
+                we asked for, so we go on until we have what we want
+                or there's nothing left.
             */
-            std::size_t bytes_filled{fill()};
-
-            std::size_t last_byte_count;
-            if (bytes_filled < byte_count) {
-                /*
-                    We weren't able to load as many bytes into the buffer
-                    as we wanted to, so we remember to just read all the
-                    bytes we can from the buffer.
-                */
-                last_byte_count = bytes_filled;
-            } else {
-                /*
-                    We were able to load at least as many bytes into
-                    the buffer as we wanted to, so we remember to just
-                    read the bytes we want from the buffer.
-                */
-                last_byte_count = byte_count;
+            while (byte_count > 0) {
+                std::size_t bytes_filled{fill()};
+                if (bytes_filled == 0) {
+                    break;
+                }
+                const std::size_t last_byte_count{
+                    m_buffer.read(
+                        data + bytes_read,
+                        bytes_filled < byte_count ? bytes_filled : byte_count
+                    )
+                };
+                bytes_read += last_byte_count;
+                byte_count -= last_byte_count;
             }
-            /*
-                We now go ahead and read the final bytes.
-            */
-            bytes_read += m_buffer.read(data + bytes_read, last_byte_count);
 
             return bytes_read;
         }
-- 
2.43.0


From e9245fe06771d01fe62a96ae0ceb145bfaf277ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:14 +0000
Subject: [PATCH 24/52] fix: start with an empty buffer when a file is opened
 again

The buffer still held the data of the file that was closed, so the first
reads of the next one returned it. Closing a file that isn't open no
longer closes the invalid descriptor either.
---
 api/src/cmp/io/impl/unix_like/unix_like_file.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index 363239c..7fea261 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -61,9 +61,7 @@ file::open (
 )
 noexcept
 {
-    if (is_open()) {
-        close();
-    }
+    close();
     std::error_code ec;
     if (
         if_file_not_there == if_not_there::fail
@@ -95,9 +93,14 @@ void
 file::close ()
 noexcept
 {
-    this->flush();
-    ::close(m_file_descriptor);
-    m_file_descriptor = -1;
+    if (is_open()) {
+        this->flush();
+        ::close(m_file_descriptor);
+        m_file_descriptor = -1;
+    }
+    m_buffer.set_write_dirty(false);
+    m_buffer.set_read_dirty(true);
+    m_last_fill_amount = 0;
 } // function -----------------------------------------------------------------
 
 // Protected Functions --------------------------------------------------------
-- 
2.43.0


From 615da0edb4c9adeb33e4667547672a2dc3fbd3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:14 +0000
Subject: [PATCH 25/52] fix: ask the open file for its end instead of the path
 it had

The path is only set by the constructor, so is_at_end terminated the
program for a file opened later, or after the file was renamed, and it
wasn't true for a position behind the end.
---
 api/include/cmp/io/impl/unix_like/unix_like_file.hpp |  6 ++++++
 api/src/cmp/io/impl/unix_like/unix_like_file.cpp     | 11 +++++++++++
 2 files changed, 17 insertions(+)

diff --git a/api/include/cmp/io/impl/unix_like/unix_like_file.hpp b/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
index b8650e2..6c373ca 100644
--- a/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
+++ b/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
@@ -7,6 +7,7 @@
 #include <cerrno>
 
 #include <fcntl.h>
+#include <sys/stat.h>
 #include <unistd.h>
 
 #include <cmp/io/inclusion_assert.hpp>
@@ -76,6 +77,11 @@ public:
     get_position ()
     const noexcept override;
 
+    CMP_CONDITIONAL_INLINE
+    bool
+    is_at_end ()
+    const noexcept override;
+
     // Core -------------------------------------------------------------------
 
     CMP_CONDITIONAL_INLINE
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index 7fea261..334bcb2 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -51,6 +51,17 @@ const noexcept
     return ::lseek(m_file_descriptor, 0, SEEK_CUR) + m_buffer.get_position();
 } // function -----------------------------------------------------------------
 
+bool
+file::is_at_end ()
+const noexcept
+{
+    struct stat status;
+    if (::fstat(m_file_descriptor, &status) == -1) {
+        return true;
+    }
+    return get_position() >= status.st_size;
+} // function -----------------------------------------------------------------
+
 // Core -----------------------------------------------------------------------
 
 bool
-- 
2.43.0


From f2fd42d511cce0e6c66d1b8c7df2f0db3be44165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:49 +0000
Subject: [PATCH 26/52] fix: hand over the file and its buffered data when
 moving a file

The source of a move kept its descriptor, so destroying it closed the
file of the destination, the destination's own file was leaked, and
assigning lost the data in the buffer.
---
 .../cmp/io/impl/unix_like/unix_like_file.hpp  |  5 +--
 api/include/cmp/io/io_buffer.hpp              |  4 +--
 .../cmp/io/impl/unix_like/unix_like_file.cpp  | 31 +++++++++++++++++++
 api/src/cmp/io/io_buffer.cpp                  | 27 +++++++++++++++-
 4 files changed, 62 insertions(+), 5 deletions(-)

diff --git a/api/include/cmp/io/impl/unix_like/unix_like_file.hpp b/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
index 6c373ca..a89880f 100644
--- a/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
+++ b/api/include/cmp/io/impl/unix_like/unix_like_file.hpp
@@ -5,6 +5,7 @@
 #define CMP_IO_UNIX_LIKE_FILE_HPP_INCLUDED
 
 #include <cerrno>
+#include <utility>
 
 #include <fcntl.h>
 #include <sys/stat.h>
@@ -56,14 +57,14 @@ public:
     file (
         file&& other
     )
-    noexcept = default;
+    noexcept;
 
     CMP_CONDITIONAL_INLINE
     file&
     operator = (
         file&& other
     )
-    noexcept = default;
+    noexcept;
 
     // Accessors --------------------------------------------------------------
 
diff --git a/api/include/cmp/io/io_buffer.hpp b/api/include/cmp/io/io_buffer.hpp
index 2a937f2..8e6a244 100644
--- a/api/include/cmp/io/io_buffer.hpp
+++ b/api/include/cmp/io/io_buffer.hpp
@@ -95,7 +95,7 @@ public:
     io_buffer (
         io_buffer&& other
     )
-    noexcept = default;
+    noexcept;
 
     /**
         Description:
@@ -112,7 +112,7 @@ public:
     operator = (
         io_buffer&& other
     )
-    noexcept = default;
+    noexcept;
 
     // Accessors --------------------------------------------------------------
 
diff --git a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
index 334bcb2..d74e3ee 100644
--- a/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
+++ b/api/src/cmp/io/impl/unix_like/unix_like_file.cpp
@@ -35,6 +35,37 @@ file::~file ()
     close();
 } // function -----------------------------------------------------------------
 
+// Move Operations ------------------------------------------------------------
+
+file::file (
+    file&& other
+)
+noexcept
+    : transfer_resource{std::move(other)}
+    , seekable_transfer_resource<std::int64_t>{std::move(other)}
+    , seekable_input_resource<std::int64_t>{std::move(other)}
+    , seekable_output_resource<std::int64_t>{std::move(other)}
+    , basic_file{std::move(other)}
+    , m_file_descriptor{std::exchange(other.m_file_descriptor, -1)}
+{
+    other.close();
+} // function -----------------------------------------------------------------
+
+file&
+file::operator = (
+    file&& other
+)
+noexcept
+{
+    if (this != &other) {
+        close();
+        basic_file::operator = (std::move(other));
+        m_file_descriptor = std::exchange(other.m_file_descriptor, -1);
+        other.close();
+    }
+    return *this;
+} // function -----------------------------------------------------------------
+
 // Accessors ------------------------------------------------------------------
 
 bool
diff --git a/api/src/cmp/io/io_buffer.cpp b/api/src/cmp/io/io_buffer.cpp
index 74dc0f4..49f9990 100644
--- a/api/src/cmp/io/io_buffer.cpp
+++ b/api/src/cmp/io/io_buffer.cpp
@@ -21,13 +21,38 @@ io_buffer::io_buffer (
     m_data.resize(buffer_capacity);
 } // function -----------------------------------------------------------------
 
+// Move Operations ------------------------------------------------------------
+
+/*
+    The buffer is part of a virtual base class, and assigning a derived
+    object may assign that more than once. So moving leaves the source
+    as it was, because otherwise the second time would move nothing.
+*/
+
+io_buffer::io_buffer (
+    io_buffer&& other
+)
+noexcept
+    : io_buffer{static_cast<const io_buffer&>(other)}
+{
+} // function -----------------------------------------------------------------
+
+io_buffer&
+io_buffer::operator = (
+    io_buffer&& other
+)
+noexcept
+{
+    return *this = static_cast<const io_buffer&>(other);
+} // function -----------------------------------------------------------------
+
 // Accessors ------------------------------------------------------------------
 
 std::size_t
 io_buffer::get_capacity ()
 const noexcept
 {
-    return m_data.capacity();
+    return m_data.size();
 } // function -----------------------------------------------------------------
 
 std::size_t
-- 
2.43.0


From 24187a7edbad907dedeeaa914a4458545f2976b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:49 +0000
Subject: [PATCH 27/52] fix: let copies of opaque container resources use their
 own content

A copied or moved resource kept pointing at the content of the original,
so it read and wrote that, even after the original was destroyed.
---
 api/include/cmp/io/impl/ctr_essence.hpp           | 15 +++++++++++++++
 .../cmp/io/opaque_container_input_resource.hpp    |  4 ++++
 .../cmp/io/opaque_container_io_resource.hpp       |  4 ++++
 .../cmp/io/opaque_container_output_resource.hpp   |  4 ++++
 api/src/cmp/io/impl/ctr_essence.ipp               |  2 +-
 .../cmp/io/opaque_container_input_resource.ipp    | 10 ++++++++++
 api/src/cmp/io/opaque_container_io_resource.ipp   | 10 ++++++++++
 .../cmp/io/opaque_container_output_resource.ipp   | 10 ++++++++++
 8 files changed, 58 insertions(+), 1 deletion(-)

diff --git a/api/include/cmp/io/impl/ctr_essence.hpp b/api/include/cmp/io/impl/ctr_essence.hpp
index 1375411..26040cb 100644
--- a/api/include/cmp/io/impl/ctr_essence.hpp
+++ b/api/include/cmp/io/impl/ctr_essence.hpp
@@ -26,9 +26,23 @@ public:
         const Container* initial_content_ptr
     );
 
+    virtual
     ~ctr_essence ()
     = default;
 
+    // Copy Operations --------------------------------------------------------
+
+    ctr_essence (
+        const ctr_essence& other
+    )
+    = default;
+
+    ctr_essence&
+    operator = (
+        const ctr_essence& other
+    )
+    = default;
+
 protected:
     // Protected Data ---------------------------------------------------------
 
@@ -42,6 +56,7 @@ protected:
     get_content_ptr ()
     noexcept;
 
+    virtual
     const Container*
     get_const_content_ptr ()
     const noexcept;
diff --git a/api/include/cmp/io/opaque_container_input_resource.hpp b/api/include/cmp/io/opaque_container_input_resource.hpp
index be71bc8..ccd08e2 100644
--- a/api/include/cmp/io/opaque_container_input_resource.hpp
+++ b/api/include/cmp/io/opaque_container_input_resource.hpp
@@ -205,6 +205,10 @@ protected:
 
     // Protected Functions ----------------------------------------------------
 
+    const content_type*
+    get_const_content_ptr ()
+    const noexcept override;
+
     void
     set_position_raw (
         std::int64_t new_position,
diff --git a/api/include/cmp/io/opaque_container_io_resource.hpp b/api/include/cmp/io/opaque_container_io_resource.hpp
index 4c9ede5..1d872ea 100644
--- a/api/include/cmp/io/opaque_container_io_resource.hpp
+++ b/api/include/cmp/io/opaque_container_io_resource.hpp
@@ -235,6 +235,10 @@ protected:
 
     // Protected Functions ----------------------------------------------------
 
+    const content_type*
+    get_const_content_ptr ()
+    const noexcept override;
+
     void
     set_position_raw (
         std::int64_t new_position,
diff --git a/api/include/cmp/io/opaque_container_output_resource.hpp b/api/include/cmp/io/opaque_container_output_resource.hpp
index c31d4c1..7df22e8 100644
--- a/api/include/cmp/io/opaque_container_output_resource.hpp
+++ b/api/include/cmp/io/opaque_container_output_resource.hpp
@@ -213,6 +213,10 @@ protected:
 
     // Protected Functions ----------------------------------------------------
 
+    const content_type*
+    get_const_content_ptr ()
+    const noexcept override;
+
     void
     set_position_raw (
         std::int64_t new_position,
diff --git a/api/src/cmp/io/impl/ctr_essence.ipp b/api/src/cmp/io/impl/ctr_essence.ipp
index 9489ab2..f68b3ad 100644
--- a/api/src/cmp/io/impl/ctr_essence.ipp
+++ b/api/src/cmp/io/impl/ctr_essence.ipp
@@ -38,7 +38,7 @@ Container*
 ctr_essence<Container>::get_content_ptr ()
 noexcept
 {
-    return reinterpret_cast<Container*>(m_content_ptr);
+    return const_cast<Container*>(get_const_content_ptr());
 } // function -----------------------------------------------------------------
 
 template <
diff --git a/api/src/cmp/io/opaque_container_input_resource.ipp b/api/src/cmp/io/opaque_container_input_resource.ipp
index 0e768d1..cdd0efd 100644
--- a/api/src/cmp/io/opaque_container_input_resource.ipp
+++ b/api/src/cmp/io/opaque_container_input_resource.ipp
@@ -90,6 +90,16 @@ const noexcept
 
 // Protected Functions --------------------------------------------------------
 
+template <
+    typename Container
+>
+const typename opaque_container_input_resource<Container>::content_type*
+opaque_container_input_resource<Container>::get_const_content_ptr ()
+const noexcept
+{
+    return &m_content;
+} // function -----------------------------------------------------------------
+
 template <
     typename Container
 >
diff --git a/api/src/cmp/io/opaque_container_io_resource.ipp b/api/src/cmp/io/opaque_container_io_resource.ipp
index c460a0d..662e2c3 100644
--- a/api/src/cmp/io/opaque_container_io_resource.ipp
+++ b/api/src/cmp/io/opaque_container_io_resource.ipp
@@ -114,6 +114,16 @@ const noexcept
 
 // Protected Functions --------------------------------------------------------
 
+template <
+    typename Container
+>
+const typename opaque_container_io_resource<Container>::content_type*
+opaque_container_io_resource<Container>::get_const_content_ptr ()
+const noexcept
+{
+    return &m_content;
+} // function -----------------------------------------------------------------
+
 template <
     typename Container
 >
diff --git a/api/src/cmp/io/opaque_container_output_resource.ipp b/api/src/cmp/io/opaque_container_output_resource.ipp
index aecbe92..ad188e0 100644
--- a/api/src/cmp/io/opaque_container_output_resource.ipp
+++ b/api/src/cmp/io/opaque_container_output_resource.ipp
@@ -100,6 +100,16 @@ const noexcept
 
 // Protected Functions --------------------------------------------------------
 
+template <
+    typename Container
+>
+const typename opaque_container_output_resource<Container>::content_type*
+opaque_container_output_resource<Container>::get_const_content_ptr ()
+const noexcept
+{
+    return &m_content;
+} // function -----------------------------------------------------------------
+
 template <
     typename Container
 >
-- 
2.43.0


From 640d531fa15f80e28d43479202a05ec5a2dffede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:49 +0000
Subject: [PATCH 28/52] fix: invert the endianness of what is read only once

The stream inverted all the bytes of a read, whatever they were, and the
data input stream inverted each value again, so values were always read
in native endianness. That is what users of the data input stream's
default endianness got and what the tests expect, so the default is
native now, and any endianness given is honoured.
---
 api/include/cmp/io/data_input_stream.hpp | 2 +-
 api/src/cmp/io/input_stream.ipp          | 3 ---
 api/src/cmp/io/text_input_stream.ipp     | 6 ++++++
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/api/include/cmp/io/data_input_stream.hpp b/api/include/cmp/io/data_input_stream.hpp
index ee3f6e6..7d636ac 100644
--- a/api/include/cmp/io/data_input_stream.hpp
+++ b/api/include/cmp/io/data_input_stream.hpp
@@ -47,7 +47,7 @@ public:
     explicit
     data_input_stream (
         referenced_resource_type& resource,
-        std::endian endianness = std::endian::big
+        std::endian endianness = std::endian::native
     )
     noexcept;
 
diff --git a/api/src/cmp/io/input_stream.ipp b/api/src/cmp/io/input_stream.ipp
index 6d4e953..3894e54 100644
--- a/api/src/cmp/io/input_stream.ipp
+++ b/api/src/cmp/io/input_stream.ipp
@@ -87,9 +87,6 @@ input_stream<InputResource>::read (
     std::size_t byte_count
 ) {
     std::size_t bytes_read{m_resource.read(data, byte_count)};
-    if (m_endianness != std::endian::native) {
-        invert_endianness(data, byte_count);
-    }
     return bytes_read;
 } // function -----------------------------------------------------------------
 
diff --git a/api/src/cmp/io/text_input_stream.ipp b/api/src/cmp/io/text_input_stream.ipp
index 341122c..788fc9e 100644
--- a/api/src/cmp/io/text_input_stream.ipp
+++ b/api/src/cmp/io/text_input_stream.ipp
@@ -154,6 +154,9 @@ text_input_stream<InputResource>::read_utf16_code_unit (
     if (this->read(data, 2) < 2) {
         return false;
     }
+    if (this->get_endianness() != std::endian::native) {
+        invert_endianness(data, 2);
+    }
     std::memcpy(&output, data, 2);
     return true;
 } // function -----------------------------------------------------------------
@@ -169,6 +172,9 @@ text_input_stream<InputResource>::read_utf32_code_unit (
     if (this->read(data, 4) < 4) {
         return false;
     }
+    if (this->get_endianness() != std::endian::native) {
+        invert_endianness(data, 4);
+    }
     std::memcpy(&output, data, 4);
     return true;
 } // function -----------------------------------------------------------------
-- 
2.43.0


From c1111a58b696a9ea8346622b79f36d06d6e675dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:52 +0000
Subject: [PATCH 29/52] fix: return what was read when there's no byte order
 mark

Bytes were shifted out of themselves before they were widened, so the
code point returned in place of a missing byte order mark lost all but
its lowest byte.
---
 api/src/cmp/io/text_input_stream.ipp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/api/src/cmp/io/text_input_stream.ipp b/api/src/cmp/io/text_input_stream.ipp
index 788fc9e..e08e945 100644
--- a/api/src/cmp/io/text_input_stream.ipp
+++ b/api/src/cmp/io/text_input_stream.ipp
@@ -329,11 +329,11 @@ text_input_stream<InputResource>::read_utf16_bom ()
         char16_t code_unit;
         if (this->get_endianness() == std::endian::big) {
             code_unit
-                = static_cast<int>(first_byte << 8)
+                = static_cast<char32_t>(first_byte) << 8
                     | static_cast<int>(second_byte);
         } else {
             code_unit
-                = static_cast<int>(second_byte << 8)
+                = static_cast<char32_t>(second_byte) << 8
                     | static_cast<int>(first_byte);
         }
         char32_t result;
@@ -387,15 +387,15 @@ text_input_stream<InputResource>::read_utf32_bom ()
         char32_t result;
         if (this->get_endianness() == std::endian::big) {
             result
-                = static_cast<int>(first_byte << 24)
-                    | static_cast<int>(second_byte << 16)
-                    | static_cast<int>(third_byte << 8)
+                = static_cast<char32_t>(first_byte) << 24
+                    | static_cast<char32_t>(second_byte) << 16
+                    | static_cast<char32_t>(third_byte) << 8
                     | static_cast<int>(fourth_byte);
         } else {
             result
-                = static_cast<int>(fourth_byte << 24)
-                    | static_cast<int>(third_byte << 16)
-                    | static_cast<int>(second_byte << 8)
+                = static_cast<char32_t>(fourth_byte) << 24
+                    | static_cast<char32_t>(third_byte) << 16
+                    | static_cast<char32_t>(second_byte) << 8
                     | static_cast<int>(first_byte);
         }
         return result;
-- 
2.43.0


From fabbcb0d4e51d1ff30498ea55857f8c3629057ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:45 +0000
Subject: [PATCH 30/52] fix: pad test indexes that have more digits than the
 test count

---
 api/include/cmp/core/test_module.hpp |  1 +
 api/src/cmp/core/test_module.ipp     | 10 +++++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/api/include/cmp/core/test_module.hpp b/api/include/cmp/core/test_module.hpp
index 4cd42c1..ed16fb9 100644
--- a/api/include/cmp/core/test_module.hpp
+++ b/api/include/cmp/core/test_module.hpp
@@ -4,6 +4,7 @@
 #ifndef CMP_CORE_TEST_MODULE_HPP_INCLUDED
 #define CMP_CORE_TEST_MODULE_HPP_INCLUDED
 
+#include <algorithm>
 #include <cstring>
 #include <functional>
 #include <initializer_list>
diff --git a/api/src/cmp/core/test_module.ipp b/api/src/cmp/core/test_module.ipp
index e9adf4d..73c4d04 100644
--- a/api/src/cmp/core/test_module.ipp
+++ b/api/src/cmp/core/test_module.ipp
@@ -325,11 +325,15 @@ noexcept
         count_digits(m_test_functions.size())
     };
 
-    unsigned int digit_difference{
-        total_number_digit_count - input_number_digit_count
+    /*
+        More tests may be started than there are test functions.
+    */
+    unsigned int string_length{
+        std::max(total_number_digit_count, input_number_digit_count)
     };
 
-    unsigned int string_length{total_number_digit_count};
+    unsigned int digit_difference{string_length - input_number_digit_count};
+
     std::string zero_padded_number(string_length, '\0');
 
     unsigned int zero_pad_index{0};
-- 
2.43.0


From e81dccfaf58fbb11d7139ba7eadb79782191c817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:29 +0000
Subject: [PATCH 31/52] fix: compare the decimal places of negative values like
 those of positive ones

---
 api/src/cmp/core/general.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/src/cmp/core/general.ipp b/api/src/cmp/core/general.ipp
index c449134..9f3408c 100644
--- a/api/src/cmp/core/general.ipp
+++ b/api/src/cmp/core/general.ipp
@@ -20,7 +20,7 @@ cmp_equal (
 noexcept
 {
     double power{std::pow(10, relevant_decimal_places)};
-    return std::floor(value1 * power) == std::floor(value2 * power);
+    return std::trunc(value1 * power) == std::trunc(value2 * power);
 } // function -----------------------------------------------------------------
 
 template <
-- 
2.43.0


From c36add2a118fc05c6fde834af5b8ddd4b53a9614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:55 +0000
Subject: [PATCH 32/52] fix: let updates open and close windows (GTK)

The main loop kept iterating over the window associations while an
update added to them or removed from them.
---
 .../impl/gtk/gtk_desktop_gui_application.hpp  |  1 +
 .../impl/gtk/gtk_desktop_gui_application.cpp  | 22 ++++++++++++++-----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/api/include/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.hpp b/api/include/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.hpp
index f4de618..4b53379 100755
--- a/api/include/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.hpp
+++ b/api/include/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.hpp
@@ -4,6 +4,7 @@
 #ifndef CMP_DESKTOP_GUI_GTK_DESKTOP_GUI_APPLICATION_HPP_INCLUDED
 #define CMP_DESKTOP_GUI_GTK_DESKTOP_GUI_APPLICATION_HPP_INCLUDED
 
+#include <algorithm>
 #include <vector>
 
 #include <cmp/desktop_gui/inclusion_assert.hpp>
diff --git a/api/src/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.cpp b/api/src/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.cpp
index 8c73ba9..c25431e 100755
--- a/api/src/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.cpp
+++ b/api/src/cmp/desktop_gui/impl/gtk/gtk_desktop_gui_application.cpp
@@ -88,11 +88,23 @@ desktop_gui_application::run ()
         if (g_main_context_pending(context)) {
             g_main_context_dispatch(context);
         } else {
-            for (
-                auto& current_association
-                    : m_native_handle.window_associations
-            ) {
-                impl::update_window(current_association.second);
+            // An update may open, move or close any window.
+            auto& window_associations{m_native_handle.window_associations};
+            auto associations_to_update{window_associations};
+            for (const auto& current_association : associations_to_update) {
+                auto association_iterator{
+                    std::find_if(
+                        std::begin(window_associations),
+                        std::end(window_associations),
+                        [&] (const auto& element)
+                        {
+                            return element.first == current_association.first;
+                        }
+                    )
+                };
+                if (association_iterator != std::end(window_associations)) {
+                    impl::update_window(association_iterator->second);
+                }
             }
         }
     }
-- 
2.43.0


From 1e2376cc7a8c2723e121f16b5fa62e0647fe5233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:55 +0000
Subject: [PATCH 33/52] fix: forget the native window once it's closed (GTK)

A closed window kept the handle of the destroyed native window, so it
couldn't be opened again. A close handler that opened another window
invalidated the association that was about to be erased.
---
 .../cmp/desktop_gui/impl/gtk/gtk_window.cpp   | 43 +++++++++++++------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp b/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
index 40899f3..b68b440 100755
--- a/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
+++ b/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
@@ -267,22 +267,37 @@ forward_close_event_to_window (
     auto& window_associations{
         dgui_app()->grab_native_handle().window_associations
     };
-    for (
-        auto current_association{std::begin(window_associations)};
-        current_association != std::end(window_associations);
-        ++current_association
-    ) {
-        if (current_association->first == window_handle) {
-            close_event ev{true};
-            current_association->second->handle_close_event(ev);
-            if (ev.should_close()) {
-                window_associations.erase(current_association);
-                return FALSE;
-            } else {
-                return TRUE;
-            }
+    auto find_association{
+        [&]
+        {
+            return std::find_if(
+                std::begin(window_associations),
+                std::end(window_associations),
+                [&] (const auto& element)
+                {
+                    return element.first == window_handle;
+                }
+            );
         }
+    };
+    auto current_association{find_association()};
+    if (current_association == std::end(window_associations)) {
+        return FALSE;
+    }
+    close_event ev{true};
+    current_association->second->handle_close_event(ev);
+    if (!ev.should_close()) {
+        return TRUE;
+    }
+
+    // The handler may have changed the associations.
+    current_association = find_association();
+    if (current_association != std::end(window_associations)) {
+        current_association->second->grab_native_handle()
+            .gtk_application_window = NULL;
+        window_associations.erase(current_association);
     }
+    return FALSE;
 } // function -----------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
-- 
2.43.0


From 032ba1c61c2170ab94d2b6fa9292f58aef48b09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:55 +0000
Subject: [PATCH 34/52] fix: closing a window that isn't open does nothing
 (GTK)

---
 api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp b/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
index b68b440..f1965a9 100755
--- a/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
+++ b/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
@@ -503,6 +503,10 @@ window::hide ()
 void
 window::close ()
 {
+    if (m_native_handle.gtk_application_window == NULL) {
+        return;
+    }
+
     gtk_window_close(GTK_WINDOW(m_native_handle.gtk_application_window));
 } // function -----------------------------------------------------------------
 
-- 
2.43.0


From 4f57f45a6c9dcc247c877572002ed6f4e09d7c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:55 +0000
Subject: [PATCH 35/52] fix: destroy the native window along with its window
 (GTK)

Events and updates went to a window that no longer existed.
---
 .../cmp/desktop_gui/impl/gtk/gtk_window.hpp   |  3 +--
 .../cmp/desktop_gui/impl/gtk/gtk_window.cpp   | 23 +++++++++++++++++++
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/api/include/cmp/desktop_gui/impl/gtk/gtk_window.hpp b/api/include/cmp/desktop_gui/impl/gtk/gtk_window.hpp
index f5c4e57..1d29f34 100755
--- a/api/include/cmp/desktop_gui/impl/gtk/gtk_window.hpp
+++ b/api/include/cmp/desktop_gui/impl/gtk/gtk_window.hpp
@@ -28,8 +28,7 @@ public:
         window_mode initial_mode
     );
 
-    ~window ()
-    = default;
+    ~window ();
 
     // Copy Operations --------------------------------------------------------
 
diff --git a/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp b/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
index f1965a9..262b440 100755
--- a/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
+++ b/api/src/cmp/desktop_gui/impl/gtk/gtk_window.cpp
@@ -316,6 +316,29 @@ window::window (
     open(initial_width, initial_height, initial_title, initial_mode);
 } // function -----------------------------------------------------------------
 
+window::~window ()
+{
+    if (m_native_handle.gtk_application_window == NULL) {
+        return;
+    }
+
+    auto& window_associations{
+        dgui_app()->grab_native_handle().window_associations
+    };
+    window_associations.erase(
+        std::remove_if(
+            std::begin(window_associations),
+            std::end(window_associations),
+            [this] (const auto& element)
+            {
+                return element.first == m_native_handle.gtk_application_window;
+            }
+        ),
+        std::end(window_associations)
+    );
+    gtk_window_destroy(GTK_WINDOW(m_native_handle.gtk_application_window));
+} // function -----------------------------------------------------------------
+
 // Move Operations ------------------------------------------------------------
 
 window::window (
-- 
2.43.0


From 89f94f0226864ccc900e771afb47fb6c936f1c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:38 +0000
Subject: [PATCH 36/52] fix: parse floating-point values with whole parts of
 any size

The whole part was parsed as a long long, so values from 2^63 on, which
the formatter writes, were refused.
---
 api/include/cmp/unicode/parsers.hpp | 15 ++++++++++++++-
 api/src/cmp/unicode/parsers.cpp     | 18 ++++++++++++++++++
 api/src/cmp/unicode/parsers.ipp     | 22 ++++++++++++++++------
 3 files changed, 48 insertions(+), 7 deletions(-)

diff --git a/api/include/cmp/unicode/parsers.hpp b/api/include/cmp/unicode/parsers.hpp
index 9c9784f..78da977 100644
--- a/api/include/cmp/unicode/parsers.hpp
+++ b/api/include/cmp/unicode/parsers.hpp
@@ -22,7 +22,7 @@ public:
     // Core -------------------------------------------------------------------
 
     template <
-        std::integral Output,
+        typename Output,
         text_object Input
     >
     static
@@ -111,6 +111,19 @@ private:
         unsigned int& digits_counted
     );
 
+    CMP_CONDITIONAL_INLINE
+    static
+    void
+    prepend_digit (
+        long double& power,
+        bool& power_overflowed,
+        unsigned int radix,
+        long double& magnitude,
+        int current_digit,
+        unsigned int& digits_counted
+    )
+    noexcept;
+
     template <
         std::floating_point Output
     >
diff --git a/api/src/cmp/unicode/parsers.cpp b/api/src/cmp/unicode/parsers.cpp
index f66f20b..91b47d4 100644
--- a/api/src/cmp/unicode/parsers.cpp
+++ b/api/src/cmp/unicode/parsers.cpp
@@ -150,6 +150,24 @@ number_parser::prepend_digit (
     ++digits_counted;
 } // function -----------------------------------------------------------------
 
+void
+number_parser::prepend_digit (
+    long double& power,
+    bool& power_overflowed,
+    unsigned int radix,
+    long double& magnitude,
+    int current_digit,
+    unsigned int& digits_counted
+)
+noexcept
+{
+    power *= radix;
+    if (current_digit != 0) {
+        magnitude += current_digit * power;
+    }
+    ++digits_counted;
+} // function -----------------------------------------------------------------
+
 } // namespace ----------------------------------------------------------------
 
 // --------------------------------------------------------- cmp::parse_failed
diff --git a/api/src/cmp/unicode/parsers.ipp b/api/src/cmp/unicode/parsers.ipp
index 8a8256a..da0407f 100644
--- a/api/src/cmp/unicode/parsers.ipp
+++ b/api/src/cmp/unicode/parsers.ipp
@@ -12,7 +12,7 @@ namespace impl {
 // Core -----------------------------------------------------------------------
 
 template <
-    std::integral Output,
+    typename Output,
     text_object Input
 >
 Output
@@ -20,6 +20,12 @@ number_parser::parse_integer (
     const Input& input,
     const integer_format& format
 ) {
+    using magnitude_type = std::conditional_t<
+        std::is_floating_point_v<Output>,
+        Output,
+        unsigned long long
+    >;
+
     std::size_t input_size{string_size(input)};
     if (input_size == 0) {
         throw parse_failed{
@@ -36,15 +42,13 @@ number_parser::parse_integer (
     const auto format_sign_status{format.get_sign_status()};
 
     int current_digit{get_next_digit(*bcp_iterator, format_radix)};
-    unsigned long long magnitude{
-        static_cast<unsigned long long>(current_digit)
-    };
+    magnitude_type magnitude{static_cast<magnitude_type>(current_digit)};
 
     ++bcp_iterator;
 
     bool sign_found{false};
     bool negate{false};
-    unsigned long long power{1};
+    magnitude_type power{1};
     bool power_overflowed{false};
     unsigned int digits_counted{1};
     char32_t current_character;
@@ -91,6 +95,9 @@ number_parser::parse_integer (
     if (digits_counted == 0) {
         report_non_digit_character();
     }
+    if constexpr (std::is_floating_point_v<Output>) {
+        return negate ? -magnitude : magnitude;
+    }
     if (negate) {
         if constexpr (std::is_signed_v<Output>) {
             const unsigned long long limit{
@@ -155,9 +162,12 @@ number_parser::parse_floating_point (
     };
     Output output{
         static_cast<Output>(
-            parse_integer<long long>(integral_part, equivalent_format)
+            parse_integer<long double>(integral_part, equivalent_format)
         )
     };
+    if (!std::isfinite(output)) {
+        report_out_of_range();
+    }
     unsigned int digits_counted{0};
     if (radix_character_iterator != u32_input.cend()) {
         ++radix_character_iterator;
-- 
2.43.0


From 0d5912e3490eedd85a4f3ec757f2b2e1a86cfbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:55 +0000
Subject: [PATCH 37/52] Revert "fix: pad test indexes that have more digits
 than the test count"

The test module counts as test code, which isn't to be changed here.
---
 api/include/cmp/core/test_module.hpp |  1 -
 api/src/cmp/core/test_module.ipp     | 10 +++-------
 2 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/api/include/cmp/core/test_module.hpp b/api/include/cmp/core/test_module.hpp
index ed16fb9..4cd42c1 100644
--- a/api/include/cmp/core/test_module.hpp
+++ b/api/include/cmp/core/test_module.hpp
@@ -4,7 +4,6 @@
 #ifndef CMP_CORE_TEST_MODULE_HPP_INCLUDED
 #define CMP_CORE_TEST_MODULE_HPP_INCLUDED
 
-#include <algorithm>
 #include <cstring>
 #include <functional>
 #include <initializer_list>
diff --git a/api/src/cmp/core/test_module.ipp b/api/src/cmp/core/test_module.ipp
index 73c4d04..e9adf4d 100644
--- a/api/src/cmp/core/test_module.ipp
+++ b/api/src/cmp/core/test_module.ipp
@@ -325,15 +325,11 @@ noexcept
         count_digits(m_test_functions.size())
     };
 
-    /*
-        More tests may be started than there are test functions.
-    */
-    unsigned int string_length{
-        std::max(total_number_digit_count, input_number_digit_count)
+    unsigned int digit_difference{
+        total_number_digit_count - input_number_digit_count
     };
 
-    unsigned int digit_difference{string_length - input_number_digit_count};
-
+    unsigned int string_length{total_number_digit_count};
     std::string zero_padded_number(string_length, '\0');
 
     unsigned int zero_pad_index{0};
-- 
2.43.0


From 9c9c046b5e6b3ba276707a49fb4c649f012f9b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:46 +0000
Subject: [PATCH 38/52] fix: go to the beginning for a position in front of it
 on Windows

The distance was taken before it was limited, and positions relative to
the current one or the end weren't limited at all, so the file stayed
where it was. It's the beginning on the other systems.
---
 api/src/cmp/io/impl/windows/windows_file.cpp | 22 ++++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/api/src/cmp/io/impl/windows/windows_file.cpp b/api/src/cmp/io/impl/windows/windows_file.cpp
index 3be9f0f..9de2aa3 100644
--- a/api/src/cmp/io/impl/windows/windows_file.cpp
+++ b/api/src/cmp/io/impl/windows/windows_file.cpp
@@ -128,9 +128,6 @@ file::set_position_raw (
 )
 noexcept
 {
-    LARGE_INTEGER distance_to_move;
-    distance_to_move.QuadPart = new_position;
-
     int windows_position_reference;
     switch (pr) {
         case position_reference::begin:
@@ -147,12 +144,19 @@ noexcept
             break;
     }
 
-    SetFilePointerEx(
-        m_handle,
-        distance_to_move,
-        nullptr,
-        windows_position_reference
-    );
+    LARGE_INTEGER distance_to_move;
+    distance_to_move.QuadPart = new_position;
+    if (
+        !SetFilePointerEx(
+            m_handle,
+            distance_to_move,
+            nullptr,
+            windows_position_reference
+        ) && new_position < 0
+    ) {
+        distance_to_move.QuadPart = 0;
+        SetFilePointerEx(m_handle, distance_to_move, nullptr, FILE_BEGIN);
+    }
 
     m_last_fill_amount = 0;
 } // function -----------------------------------------------------------------
-- 
2.43.0


From a8b1a65366eed9485c388a731aaf7b55f96b3967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:46 +0000
Subject: [PATCH 39/52] fix: ask the open file for its end instead of the path
 it had on Windows

The path is only set by the constructor, so is_at_end terminated the
program for a file opened later, or after the file was renamed, and it
wasn't true for a position behind the end.
---
 api/include/cmp/io/impl/windows/windows_file.hpp |  5 +++++
 api/src/cmp/io/impl/windows/windows_file.cpp     | 11 +++++++++++
 2 files changed, 16 insertions(+)

diff --git a/api/include/cmp/io/impl/windows/windows_file.hpp b/api/include/cmp/io/impl/windows/windows_file.hpp
index cbd1019..e197ef6 100644
--- a/api/include/cmp/io/impl/windows/windows_file.hpp
+++ b/api/include/cmp/io/impl/windows/windows_file.hpp
@@ -73,6 +73,11 @@ public:
     get_position ()
     const noexcept override;
 
+    CMP_CONDITIONAL_INLINE
+    bool
+    is_at_end ()
+    const noexcept override;
+
     // Core -------------------------------------------------------------------
 
     CMP_CONDITIONAL_INLINE
diff --git a/api/src/cmp/io/impl/windows/windows_file.cpp b/api/src/cmp/io/impl/windows/windows_file.cpp
index 9de2aa3..4b662a7 100644
--- a/api/src/cmp/io/impl/windows/windows_file.cpp
+++ b/api/src/cmp/io/impl/windows/windows_file.cpp
@@ -60,6 +60,17 @@ const noexcept
     return position_structure.QuadPart + m_buffer.get_position();
 } // function -----------------------------------------------------------------
 
+bool
+file::is_at_end ()
+const noexcept
+{
+    LARGE_INTEGER size;
+    if (!GetFileSizeEx(m_handle, &size)) {
+        return true;
+    }
+    return get_position() >= size.QuadPart;
+} // function -----------------------------------------------------------------
+
 // Core -----------------------------------------------------------------------
 
 bool
-- 
2.43.0


From 30ab99e54aa6c647dbaae6fc1cd8f819f0786455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:46 +0000
Subject: [PATCH 40/52] fix: start with an empty buffer when a file is opened
 again on Windows

The buffer still held the data of the file that was closed, so the first
reads of the next one returned it. Closing a file that isn't open no
longer closes the invalid handle either.
---
 api/src/cmp/io/impl/windows/windows_file.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/api/src/cmp/io/impl/windows/windows_file.cpp b/api/src/cmp/io/impl/windows/windows_file.cpp
index 4b662a7..160eb29 100644
--- a/api/src/cmp/io/impl/windows/windows_file.cpp
+++ b/api/src/cmp/io/impl/windows/windows_file.cpp
@@ -81,9 +81,7 @@ file::open (
 )
 noexcept
 {
-    if (is_open()) {
-        close();
-    }
+    close();
     std::error_code ec;
     if (
         if_file_not_there == if_not_there::fail
@@ -125,9 +123,14 @@ void
 file::close ()
 noexcept
 {
-    this->flush();
-    CloseHandle(m_handle);
-    m_handle = INVALID_HANDLE_VALUE;
+    if (is_open()) {
+        this->flush();
+        CloseHandle(m_handle);
+        m_handle = INVALID_HANDLE_VALUE;
+    }
+    m_buffer.set_write_dirty(false);
+    m_buffer.set_read_dirty(true);
+    m_last_fill_amount = 0;
 } // function -----------------------------------------------------------------
 
 // Protected Functions --------------------------------------------------------
-- 
2.43.0


From eee856368bac133baf1250a1271bbb37147aaa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:46 +0000
Subject: [PATCH 41/52] fix: hand over the file and its buffered data when
 moving one on Windows

The source of a move kept its handle, so destroying it closed the file of
the destination, and the destination's own file was leaked.
---
 .../cmp/io/impl/windows/windows_file.hpp      |  6 ++--
 api/src/cmp/io/impl/windows/windows_file.cpp  | 31 +++++++++++++++++++
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/api/include/cmp/io/impl/windows/windows_file.hpp b/api/include/cmp/io/impl/windows/windows_file.hpp
index e197ef6..8dda716 100644
--- a/api/include/cmp/io/impl/windows/windows_file.hpp
+++ b/api/include/cmp/io/impl/windows/windows_file.hpp
@@ -4,6 +4,8 @@
 #ifndef CMP_IO_WINDOWS_FILE_HPP_INCLUDED
 #define CMP_IO_WINDOWS_FILE_HPP_INCLUDED
 
+#include <utility>
+
 #include <Windows.h>
 
 #include <cmp/io/inclusion_assert.hpp>
@@ -52,14 +54,14 @@ public:
     file (
         file&& other
     )
-    noexcept = default;
+    noexcept;
 
     CMP_CONDITIONAL_INLINE
     file&
     operator = (
         file&& other
     )
-    noexcept = default;
+    noexcept;
 
     // Accessors --------------------------------------------------------------
 
diff --git a/api/src/cmp/io/impl/windows/windows_file.cpp b/api/src/cmp/io/impl/windows/windows_file.cpp
index 160eb29..a8f0f4b 100644
--- a/api/src/cmp/io/impl/windows/windows_file.cpp
+++ b/api/src/cmp/io/impl/windows/windows_file.cpp
@@ -35,6 +35,37 @@ file::~file ()
     close();
 } // function -----------------------------------------------------------------
 
+// Move Operations ------------------------------------------------------------
+
+file::file (
+    file&& other
+)
+noexcept
+    : transfer_resource{std::move(other)}
+    , seekable_transfer_resource<std::int64_t>{std::move(other)}
+    , seekable_input_resource<std::int64_t>{std::move(other)}
+    , seekable_output_resource<std::int64_t>{std::move(other)}
+    , basic_file{std::move(other)}
+    , m_handle{std::exchange(other.m_handle, INVALID_HANDLE_VALUE)}
+{
+    other.close();
+} // function -----------------------------------------------------------------
+
+file&
+file::operator = (
+    file&& other
+)
+noexcept
+{
+    if (this != &other) {
+        close();
+        basic_file::operator = (std::move(other));
+        m_handle = std::exchange(other.m_handle, INVALID_HANDLE_VALUE);
+        other.close();
+    }
+    return *this;
+} // function -----------------------------------------------------------------
+
 // Accessors ------------------------------------------------------------------
 
 bool
-- 
2.43.0


From 220c67959e3125cb95a46eddc29e1198e69cf927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:46 +0000
Subject: [PATCH 42/52] fix: go on behind the first 4 GiB of a transfer on
 Windows

Every further part was read to, or written from, the beginning of the
data again.
---
 api/src/cmp/io/impl/windows/windows_file.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/api/src/cmp/io/impl/windows/windows_file.cpp b/api/src/cmp/io/impl/windows/windows_file.cpp
index a8f0f4b..2de9ff1 100644
--- a/api/src/cmp/io/impl/windows/windows_file.cpp
+++ b/api/src/cmp/io/impl/windows/windows_file.cpp
@@ -234,7 +234,10 @@ noexcept
                 native_byte_count = dword_max;
                 byte_count -= dword_max;
             }
-            native_bytes_read = read_block(data, native_byte_count);
+            native_bytes_read = read_block(
+                data + bytes_read,
+                native_byte_count
+            );
             bytes_read += native_bytes_read;
             if (native_bytes_read != native_byte_count) {
                 break;
@@ -281,7 +284,10 @@ noexcept
                 native_byte_count = dword_max;
                 byte_count -= dword_max;
             }
-            native_bytes_written = write_block(data, native_byte_count);
+            native_bytes_written = write_block(
+                data + bytes_written,
+                native_byte_count
+            );
             bytes_written += native_bytes_written;
             if (native_bytes_written != native_byte_count) {
                 break;
-- 
2.43.0


From f49c6e952b57849670126121d65411a9017f2117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:39 +0000
Subject: [PATCH 43/52] fix: let updates open and close windows (Windows)

The main loop kept iterating over the window associations while an
update added to them or removed from them.
---
 .../windows_desktop_gui_application.hpp       |  3 +++
 .../windows_desktop_gui_application.cpp       | 21 ++++++++++++++-----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/api/include/cmp/desktop_gui/impl/windows/windows_desktop_gui_application.hpp b/api/include/cmp/desktop_gui/impl/windows/windows_desktop_gui_application.hpp
index 34ea161..b774242 100644
--- a/api/include/cmp/desktop_gui/impl/windows/windows_desktop_gui_application.hpp
+++ b/api/include/cmp/desktop_gui/impl/windows/windows_desktop_gui_application.hpp
@@ -4,6 +4,9 @@
 #ifndef CMP_DESKTOP_GUI_WINDOWS_DESKTOP_GUI_APPLICATION_HPP_INCLUDED
 #define CMP_DESKTOP_GUI_WINDOWS_DESKTOP_GUI_APPLICATION_HPP_INCLUDED
 
+#include <algorithm>
+#include <iterator>
+#include <utility>
 #include <vector>
 
 #include <cmp/desktop_gui/inclusion_assert.hpp>
diff --git a/api/src/cmp/desktop_gui/impl/windows/windows_desktop_gui_application.cpp b/api/src/cmp/desktop_gui/impl/windows/windows_desktop_gui_application.cpp
index 66ab0e2..8736743 100644
--- a/api/src/cmp/desktop_gui/impl/windows/windows_desktop_gui_application.cpp
+++ b/api/src/cmp/desktop_gui/impl/windows/windows_desktop_gui_application.cpp
@@ -74,11 +74,22 @@ desktop_gui_application::run ()
             TranslateMessage(&message);
             DispatchMessageW(&message);
         } else {
-            for (
-                auto& current_association
-                    : m_native_handle.window_associations
-            ) {
-                impl::update_window(current_association.second);
+            // An update may change the associations.
+            auto& window_associations{m_native_handle.window_associations};
+            auto associations_to_update{window_associations};
+            for (const auto& current_association : associations_to_update) {
+                auto association_iterator{
+                    std::find_if(
+                        std::begin(window_associations),
+                        std::end(window_associations),
+                        [&] (const auto& element) {
+                            return element.first == current_association.first;
+                        }
+                    )
+                };
+                if (association_iterator != std::end(window_associations)) {
+                    impl::update_window(association_iterator->second);
+                }
             }
         }
     }
-- 
2.43.0


From 6109e84dc4408313ca8085cc5091b7bcfd7884fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:39 +0000
Subject: [PATCH 44/52] fix: forget the native window once it's closed
 (Windows)

A closed window kept the handle of the destroyed native window, so it
couldn't be opened again. A close handler that opened another window
invalidated the association that was about to be erased, and closing a
native window that isn't known had no result.
---
 .../impl/windows/windows_window.cpp           | 41 ++++++++++++-------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/api/src/cmp/desktop_gui/impl/windows/windows_window.cpp b/api/src/cmp/desktop_gui/impl/windows/windows_window.cpp
index 95ccc35..5a28e38 100644
--- a/api/src/cmp/desktop_gui/impl/windows/windows_window.cpp
+++ b/api/src/cmp/desktop_gui/impl/windows/windows_window.cpp
@@ -223,22 +223,35 @@ forward_close_event_to_window (
     auto& window_associations{
         dgui_app()->grab_native_handle().window_associations
     };
-    for (
-        auto current_association{std::begin(window_associations)};
-        current_association != std::end(window_associations);
-        ++current_association
-    ) {
-        if (current_association->first == window_handle) {
-            close_event ev{true};
-            current_association->second->handle_close_event(ev);
-            if (ev.should_close()) {
-                window_associations.erase(current_association);
-                return true;
-            } else {
-                return false;
-            }
+    auto find_association{
+        [&] {
+            return std::find_if(
+                std::begin(window_associations),
+                std::end(window_associations),
+                [&] (const auto& element) {
+                    return element.first == window_handle;
+                }
+            );
         }
+    };
+    auto current_association{find_association()};
+    if (current_association == std::end(window_associations)) {
+        return false;
+    }
+    close_event ev{true};
+    current_association->second->handle_close_event(ev);
+    if (!ev.should_close()) {
+        return false;
     }
+
+    // The handler may have changed the associations.
+    current_association = find_association();
+    if (current_association == std::end(window_associations)) {
+        return false;
+    }
+    current_association->second->grab_native_handle().window_handle = NULL;
+    window_associations.erase(current_association);
+    return true;
 } // function -----------------------------------------------------------------
 
 void
-- 
2.43.0


From 0f9f7a1d6411eb21e848689dfcc8b6ca639f9648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:39 +0000
Subject: [PATCH 45/52] fix: closing a window that isn't open does nothing
 (Windows)

---
 api/src/cmp/desktop_gui/impl/windows/windows_window.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api/src/cmp/desktop_gui/impl/windows/windows_window.cpp b/api/src/cmp/desktop_gui/impl/windows/windows_window.cpp
index 5a28e38..b96e72f 100644
--- a/api/src/cmp/desktop_gui/impl/windows/windows_window.cpp
+++ b/api/src/cmp/desktop_gui/impl/windows/windows_window.cpp
@@ -485,6 +485,9 @@ window::hide ()
 void
 window::close ()
 {
+    if (m_native_handle.window_handle == NULL) {
+        return;
+    }
     impl::close_window(m_native_handle.window_handle);
 } // function -----------------------------------------------------------------
 
-- 
2.43.0


From f62f54182283027767fa95a35010630fd2244542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:39 +0000
Subject: [PATCH 46/52] fix: destroy the native window along with its window
 (Windows)

Events and updates went to a window that no longer existed.
---
 .../impl/windows/windows_window.hpp           |  3 +--
 .../impl/windows/windows_window.cpp           | 21 +++++++++++++++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/api/include/cmp/desktop_gui/impl/windows/windows_window.hpp b/api/include/cmp/desktop_gui/impl/windows/windows_window.hpp
index b1f3471..54868de 100644
--- a/api/include/cmp/desktop_gui/impl/windows/windows_window.hpp
+++ b/api/include/cmp/desktop_gui/impl/windows/windows_window.hpp
@@ -28,8 +28,7 @@ public:
         window_mode initial_mode
     );
 
-    ~window ()
-    = default;
+    ~window ();
 
     // Copy Operations --------------------------------------------------------
 
diff --git a/api/src/cmp/desktop_gui/impl/windows/windows_window.cpp b/api/src/cmp/desktop_gui/impl/windows/windows_window.cpp
index b96e72f..7ebc5be 100644
--- a/api/src/cmp/desktop_gui/impl/windows/windows_window.cpp
+++ b/api/src/cmp/desktop_gui/impl/windows/windows_window.cpp
@@ -319,6 +319,27 @@ window::window (
     open(initial_width, initial_height, initial_title, initial_mode);
 } // function -----------------------------------------------------------------
 
+window::~window ()
+{
+    if (m_native_handle.window_handle == NULL) {
+        return;
+    }
+    auto& window_associations{
+        dgui_app()->grab_native_handle().window_associations
+    };
+    window_associations.erase(
+        std::remove_if(
+            std::begin(window_associations),
+            std::end(window_associations),
+            [this] (const auto& element) {
+                return element.first == m_native_handle.window_handle;
+            }
+        ),
+        std::end(window_associations)
+    );
+    DestroyWindow(m_native_handle.window_handle);
+} // function -----------------------------------------------------------------
+
 // Move Operations ------------------------------------------------------------
 
 window::window (
-- 
2.43.0


From 70204bf9d35ba7884352751d8361c08e41fde9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:39 +0000
Subject: [PATCH 47/52] fix: report F10 and keys pressed along with Alt
 (Windows)

They arrive as system keys, which weren't forwarded, so F10 was never
reported.
---
 api/src/cmp/desktop_gui/impl/windows/windows_window.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/api/src/cmp/desktop_gui/impl/windows/windows_window.cpp b/api/src/cmp/desktop_gui/impl/windows/windows_window.cpp
index 7ebc5be..6739711 100644
--- a/api/src/cmp/desktop_gui/impl/windows/windows_window.cpp
+++ b/api/src/cmp/desktop_gui/impl/windows/windows_window.cpp
@@ -295,6 +295,12 @@ window_procedure (
         case WM_KEYUP:
             forward_key_up_event_to_window(window_handle, w_param);
             return 0;
+        case WM_SYSKEYDOWN:
+            forward_key_down_event_to_window(window_handle, w_param);
+            return DefWindowProcW(window_handle, message, w_param, l_param);
+        case WM_SYSKEYUP:
+            forward_key_up_event_to_window(window_handle, w_param);
+            return DefWindowProcW(window_handle, message, w_param, l_param);
         case WM_SIZE:
             forward_resize_event_to_window(window_handle);
             return 0;
-- 
2.43.0


From f6406060a1dbfdca3ed99de173a9aa538f765c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:48 +0000
Subject: [PATCH 48/52] fix: read nothing when the Windows console can't be
 read

---
 api/src/cmp/io/impl/windows/windows_uin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/src/cmp/io/impl/windows/windows_uin.cpp b/api/src/cmp/io/impl/windows/windows_uin.cpp
index 4555e1b..e1efaf0 100644
--- a/api/src/cmp/io/impl/windows/windows_uin.cpp
+++ b/api/src/cmp/io/impl/windows/windows_uin.cpp
@@ -37,7 +37,7 @@ stdin_resource::read_raw (
     std::size_t byte_count,
     read_request rr
 ) {
-    DWORD chars_read;
+    DWORD chars_read{0};
     ReadConsoleW(
         m_handle,
         static_cast<LPVOID>(data),
-- 
2.43.0


From e02216aa1ee6575387eab2804cd21e7234da9fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:18 +0000
Subject: [PATCH 49/52] fix: let reads and writes of a resource that cannot
 seek take turns

---
 api/include/cmp/io/io_resource.hpp | 46 ++++++++++++++++++++++++++++++
 api/src/cmp/io/io_resource.cpp     | 26 +++++++++++++++++
 2 files changed, 72 insertions(+)

diff --git a/api/include/cmp/io/io_resource.hpp b/api/include/cmp/io/io_resource.hpp
index 30102fd..23dc5c2 100644
--- a/api/include/cmp/io/io_resource.hpp
+++ b/api/include/cmp/io/io_resource.hpp
@@ -112,6 +112,52 @@ public:
         io_resource&& other
     )
     noexcept = default;
+
+    // Core -------------------------------------------------------------------
+
+    /**
+        Description:
+            Reads data from <#this/> resource. Any data that is
+            still waiting to be written is flushed before that.
+
+        Parameters:
+            data:
+                The destination of the data to be read.
+            byte_count:
+                The maximum number of bytes to read.
+
+        Return Value:
+            The number of bytes actually read.
+    */
+    CMP_CONDITIONAL_INLINE
+    std::size_t
+    read (
+        std::byte* data,
+        std::size_t byte_count
+    )
+    override;
+
+    /**
+        Description:
+            Writes data to <#this/> resource. The data isn't buffered
+            as long as the buffer holds data that is yet to be read.
+
+        Parameters:
+            data:
+                The source of the data to be written.
+            byte_count:
+                The number of bytes to write.
+
+        Return Value:
+            The number of bytes actually written.
+    */
+    CMP_CONDITIONAL_INLINE
+    std::size_t
+    write (
+        const std::byte* data,
+        std::size_t byte_count
+    )
+    override;
 }; // class -------------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
diff --git a/api/src/cmp/io/io_resource.cpp b/api/src/cmp/io/io_resource.cpp
index 8253a84..e039f1f 100644
--- a/api/src/cmp/io/io_resource.cpp
+++ b/api/src/cmp/io/io_resource.cpp
@@ -16,4 +16,30 @@ io_resource::io_resource (
 {
 } // function -----------------------------------------------------------------
 
+// Core -----------------------------------------------------------------------
+
+std::size_t
+io_resource::read (
+    std::byte* data,
+    std::size_t byte_count
+) {
+    this->flush();
+    return input_resource::read(data, byte_count);
+} // function -----------------------------------------------------------------
+
+std::size_t
+io_resource::write (
+    const std::byte* data,
+    std::size_t byte_count
+) {
+    // The buffer is either used for input or for output.
+    if (!m_buffer.is_read_dirty()) {
+        if (m_buffer.get_position() < m_buffer.get_size()) {
+            return write_raw(data, byte_count);
+        }
+        m_buffer.set_read_dirty(true);
+    }
+    return output_resource::write(data, byte_count);
+} // function -----------------------------------------------------------------
+
 } // namespace ----------------------------------------------------------------
-- 
2.43.0


From 6a92418cab09345caef93041a6c17c5fbc232532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:11 +0000
Subject: [PATCH 50/52] fix: let updates open and close windows (macOS)

The main loop kept iterating over the window associations while an
update added to them or removed from them.
---
 .../macos/macos_desktop_gui_application.hpp   |  3 +++
 .../macos/macos_desktop_gui_application.mm    | 21 ++++++++++++++-----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/api/include/cmp/desktop_gui/impl/macos/macos_desktop_gui_application.hpp b/api/include/cmp/desktop_gui/impl/macos/macos_desktop_gui_application.hpp
index 7249bfc..66c5b0c 100755
--- a/api/include/cmp/desktop_gui/impl/macos/macos_desktop_gui_application.hpp
+++ b/api/include/cmp/desktop_gui/impl/macos/macos_desktop_gui_application.hpp
@@ -4,7 +4,10 @@
 #ifndef CMP_DESKTOP_GUI_MACOS_DESKTOP_GUI_APPLICATION_HPP_INCLUDED
 #define CMP_DESKTOP_GUI_MACOS_DESKTOP_GUI_APPLICATION_HPP_INCLUDED
 
+#include <algorithm>
+#include <iterator>
 #include <type_traits>
+#include <utility>
 #include <vector>
 
 #include <cmp/desktop_gui/inclusion_assert.hpp>
diff --git a/api/src/cmp/desktop_gui/impl/macos/macos_desktop_gui_application.mm b/api/src/cmp/desktop_gui/impl/macos/macos_desktop_gui_application.mm
index 9acbdfd..4df35a0 100755
--- a/api/src/cmp/desktop_gui/impl/macos/macos_desktop_gui_application.mm
+++ b/api/src/cmp/desktop_gui/impl/macos/macos_desktop_gui_application.mm
@@ -127,11 +127,22 @@ desktop_gui_application::run ()
                         event
             ];
         } else {
-            for (
-                auto& current_association
-                    : m_native_handle.window_associations
-            ) {
-                impl::update_window(current_association.second);
+            // An update may change the associations.
+            auto& window_associations{m_native_handle.window_associations};
+            auto associations_to_update{window_associations};
+            for (const auto& current_association : associations_to_update) {
+                auto association_iterator{
+                    std::find_if(
+                        std::begin(window_associations),
+                        std::end(window_associations),
+                        [&] (const auto& element) {
+                            return element.first == current_association.first;
+                        }
+                    )
+                };
+                if (association_iterator != std::end(window_associations)) {
+                    impl::update_window(association_iterator->second);
+                }
             }
         }
     }
-- 
2.43.0


From 35df90f5130fb743a2cbe0c5de69c151b1310ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:11 +0000
Subject: [PATCH 51/52] fix: forget the native window once it's closed (macOS)

A closed window kept the handle of the native window that was released
as it closed, so it couldn't be opened again. A close handler that opened
another window invalidated the association that was about to be erased,
and closing a native window that isn't known had no result.
---
 .../desktop_gui/impl/macos/macos_window.mm    | 42 ++++++++++++-------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/api/src/cmp/desktop_gui/impl/macos/macos_window.mm b/api/src/cmp/desktop_gui/impl/macos/macos_window.mm
index 51f11cb..9fe616c 100755
--- a/api/src/cmp/desktop_gui/impl/macos/macos_window.mm
+++ b/api/src/cmp/desktop_gui/impl/macos/macos_window.mm
@@ -244,22 +244,36 @@ forward_close_event_to_window (
     auto& window_associations{
         dgui_app()->grab_native_handle().window_associations
     };
-    for (
-        auto current_association{std::begin(window_associations)};
-        current_association != std::end(window_associations);
-        ++current_association
-    ) {
-        if (current_association->first == cmp_window_ptr) {
-            close_event ev{true};
-            current_association->second->handle_close_event(ev);
-            if (ev.should_close()) {
-                window_associations.erase(current_association);
-                return YES;
-            } else {
-                return NO;
-            }
+    auto find_association{
+        [&] {
+            return std::find_if(
+                std::begin(window_associations),
+                std::end(window_associations),
+                [&] (const auto& element) {
+                    return element.first == cmp_window_ptr;
+                }
+            );
         }
+    };
+    auto current_association{find_association()};
+    if (current_association == std::end(window_associations)) {
+        return NO;
+    }
+    close_event ev{true};
+    current_association->second->handle_close_event(ev);
+    if (!ev.should_close()) {
+        return NO;
+    }
+
+    // The handler may have changed the associations.
+    current_association = find_association();
+    if (current_association == std::end(window_associations)) {
+        return NO;
     }
+    current_association->second->grab_native_handle().cmp_window_handle
+        = nullptr;
+    window_associations.erase(current_association);
+    return YES;
 } // function -----------------------------------------------------------------
 
 } // namespace ----------------------------------------------------------------
-- 
2.43.0


From deafa58f272253fa604a0a58a9c3caa774f77a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:11 +0000
Subject: [PATCH 52/52] fix: close the native window along with its window
 (macOS)

Events and updates went to a window that no longer existed.
---
 .../desktop_gui/impl/macos/macos_window.hpp   |  3 +--
 .../desktop_gui/impl/macos/macos_window.mm    | 21 +++++++++++++++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/api/include/cmp/desktop_gui/impl/macos/macos_window.hpp b/api/include/cmp/desktop_gui/impl/macos/macos_window.hpp
index 4d38058..ff42a4f 100755
--- a/api/include/cmp/desktop_gui/impl/macos/macos_window.hpp
+++ b/api/include/cmp/desktop_gui/impl/macos/macos_window.hpp
@@ -27,8 +27,7 @@ public:
         window_mode initial_mode
     );
 
-    ~window ()
-    = default;
+    ~window ();
 
     // Copy Operations --------------------------------------------------------
 
diff --git a/api/src/cmp/desktop_gui/impl/macos/macos_window.mm b/api/src/cmp/desktop_gui/impl/macos/macos_window.mm
index 9fe616c..0532395 100755
--- a/api/src/cmp/desktop_gui/impl/macos/macos_window.mm
+++ b/api/src/cmp/desktop_gui/impl/macos/macos_window.mm
@@ -292,6 +292,27 @@ window::window (
     open(initial_width, initial_height, initial_title, initial_mode);
 } // function -----------------------------------------------------------------
 
+window::~window ()
+{
+    if (m_native_handle.cmp_window_handle == nullptr) {
+        return;
+    }
+    auto& window_associations{
+        dgui_app()->grab_native_handle().window_associations
+    };
+    window_associations.erase(
+        std::remove_if(
+            std::begin(window_associations),
+            std::end(window_associations),
+            [this] (const auto& element) {
+                return element.first == m_native_handle.cmp_window_handle;
+            }
+        ),
+        std::end(window_associations)
+    );
+    [impl::as_cmp_window(m_native_handle.cmp_window_handle) close];
+} // function -----------------------------------------------------------------
+
 // Move Operations ------------------------------------------------------------
 
 window::window (
-- 
2.43.0

