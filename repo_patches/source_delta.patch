From 61db6fcf42be3cca204dc76627add29a88e71375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:21 +0000
Subject: [PATCH 01/43] fix: CBOR: reject integers the target type cannot
 represent

A value above the maximum of a signed target wrapped to a negative number, and a
negative integer was silently converted to an unsigned target.
---
 src/cxon/lang/cbor/fundamental.hxx | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/cxon/lang/cbor/fundamental.hxx b/src/cxon/lang/cbor/fundamental.hxx
index 3e5ff39..79a861c 100644
--- a/src/cxon/lang/cbor/fundamental.hxx
+++ b/src/cxon/lang/cbor/fundamental.hxx
@@ -60,6 +60,14 @@ namespace cxon { // numeric|character/read
 
     namespace cbor { namespace imp {
 
+        template <typename T>
+            struct is_quantum_  : bool_constant<std::is_same<T, char>::value || std::is_same<T, wchar_t>::value> {};
+
+        template <typename T>
+            inline auto is_negative_(T t) -> enable_if_t< std::is_signed<T>::value, bool> { return t < 0; }
+        template <typename T>
+            inline auto is_negative_(T  ) -> enable_if_t<!std::is_signed<T>::value, bool> { return false; }
+
         template <typename X, typename T, typename II, typename Cx>
             inline bool read_unsigned_(T& t, II& i, II e, Cx& cx) {
                 II const o = i;
@@ -69,7 +77,7 @@ namespace cxon { // numeric|character/read
                     case 0x10: case 0x11: case 0x12: case 0x13: case 0x14: case 0x15: case 0x16: case 0x17:
                         return  (t = T(b), true);
                     case 0x18: case 0x19: case 0x1A: case 0x1B:
-                        return  (bio::get(t, 1 << (b - 0x18), i, e)) ||
+                        return  (bio::get(t, 1 << (b - 0x18), i, e) && (sizeof(T) == 1 || is_quantum_<T>::value || !is_negative_(t))) ||
                                 (bio::rewind(i, o), cx/cbor::read_error::integer_invalid)
                         ;
                     case 0x1C: case 0x1D: case 0x1E: case 0x1F:
@@ -81,7 +89,12 @@ namespace cxon { // numeric|character/read
 
         template <typename X, typename T, typename II, typename Cx>
             inline bool read_signed_(T& t, II& i, II e, Cx& cx) {
-                return read_unsigned_<X>(t, i, e, cx) && (t = -1 - t, true);
+                II const o = i;
+                if (!read_unsigned_<X>(t, i, e, cx))
+                    return false;
+                return  (std::is_signed<T>::value && !is_negative_(t) && (t = -1 - t, true)) ||
+                        (bio::rewind(i, o), cx/cbor::read_error::integer_invalid)
+                ;
             }
 
         template <typename X, typename T, typename II, typename Cx>
@@ -183,8 +196,6 @@ namespace cxon { // numeric|character/write
         template <typename T>
             inline auto power_(T t) -> enable_if_t<sizeof(T) == 8, unsigned> { return !(t >> 32) ? !(t >> 16) ? !(t >> 8) ? 0 : 1 : 2 : 3; }
 
-        template <typename T>
-            struct is_quantum_  : bool_constant<std::is_same<T, char>::value || std::is_same<T, wchar_t>::value> {};
         template <typename T>
             struct is_signed_   : bool_constant<std::is_signed<T>::value   && !is_quantum_<T>::value> {};
         template <typename T>
-- 
2.43.0


From f34ecabedac54252605eda67603f4768c08c740a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:15 +0000
Subject: [PATCH 02/43] fix: JSON: do not read past the end of an unterminated
 string that ends with a multi-byte character

---
 src/cxon/lang/common/cio/string.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/cio/string.hxx b/src/cxon/lang/common/cio/string.hxx
index 50e37cc..88ebf60 100644
--- a/src/cxon/lang/common/cio/string.hxx
+++ b/src/cxon/lang/common/cio/string.hxx
@@ -137,7 +137,7 @@ namespace cxon { namespace cio { namespace str {
                                         auto bs = chr::utf8_check(i, e);
                                         if (bs == 0)
                                             return cx/X::read_error::character_invalid;
-                                        while ((bs = chr::utf8_check(i += bs, e)))
+                                        while ((i += bs) != e && (bs = chr::utf8_check(i, e)))
                                             ;
                                         --i;
                                     }
-- 
2.43.0


From d524468f63629a974eea47ec153ba0f8ef068851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:51 +0000
Subject: [PATCH 03/43] fix: JSON: allow reading of strings from forward and
 bidirectional iterators

---
 src/cxon/lang/common/cio/char.hxx   | 14 ++++++++------
 src/cxon/lang/common/cio/string.hxx | 12 ++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/cxon/lang/common/cio/char.hxx b/src/cxon/lang/common/cio/char.hxx
index a38592c..56f345c 100644
--- a/src/cxon/lang/common/cio/char.hxx
+++ b/src/cxon/lang/common/cio/char.hxx
@@ -160,6 +160,11 @@ namespace cxon { namespace cio { namespace chr {
         template <typename II>
             inline auto tail_(II& i, II  ) -> enable_if_t< is_random_access_iterator<II>::value, unsigned char> { return *++i; }
 
+        template <typename II>
+            inline auto less_(II  , II  , int  ) -> enable_if_t<!is_random_access_iterator<II>::value, bool> { return false; } // head_ and tail_ check
+        template <typename II>
+            inline auto less_(II i, II e, int n) -> enable_if_t< is_random_access_iterator<II>::value, bool> { return e - i < n; }
+
 #       define CXON_EXPECT(c) if (!(c)) return cx/X::read_error::character_invalid, bad_utf32
 
             template <typename X, typename II, typename Cx>
@@ -306,8 +311,7 @@ namespace cxon { namespace cio { namespace chr {
             //    return 1;
             // 2
             if (c0 < 0xE0) {
-                CXON_IF_CONSTEXPR (is_random_access_iterator<II>::value)
-                    if (e - i < 2) return 0;
+                if (imp::less_(i, e, 2)) return 0;
                 if (c0 >= 0xC2 && c0 <= 0xDF) {
                     c1 = imp::head_(i, e);
                     if (c1 >= 0x80 && c1 <= 0xBF)
@@ -316,8 +320,7 @@ namespace cxon { namespace cio { namespace chr {
             }
             // 3
             else if (c0 < 0xF0) {
-                CXON_IF_CONSTEXPR (is_random_access_iterator<II>::value)
-                    if (e - i < 3) return 0;
+                if (imp::less_(i, e, 3)) return 0;
                 if (c0 == 0xE0) {
                     c1 = imp::head_(i, e), c2 = imp::tail_(i, e);
                     if (c1 >= 0xA0 && c1 <= 0xBF && c2 >= 0x80 && c2 <= 0xBF)
@@ -341,8 +344,7 @@ namespace cxon { namespace cio { namespace chr {
             }
             // 4
             else if (c0 < 0xF8) {
-                CXON_IF_CONSTEXPR (is_random_access_iterator<II>::value)
-                    if (e - i < 4) return 0;
+                if (imp::less_(i, e, 4)) return 0;
                 if (c0 == 0xF0) {
                     c1 = imp::head_(i, e), c2 = imp::tail_(i, e), c3 = imp::tail_(i, e);
                     if (c1 >= 0x90 && c1 <= 0xBF && c2 >= 0x80 && c2 <= 0xBF && c3 >= 0x80 && c3 <= 0xBF)
diff --git a/src/cxon/lang/common/cio/string.hxx b/src/cxon/lang/common/cio/string.hxx
index 88ebf60..c827e20 100644
--- a/src/cxon/lang/common/cio/string.hxx
+++ b/src/cxon/lang/common/cio/string.hxx
@@ -107,7 +107,7 @@ namespace cxon { namespace cio { namespace str {
                 {
                     II l = i;
                         constexpr bool HANDLE_ESCAPES = is_unquoted_key_context<X>::value || !X::assume_no_escapes;
-                        for ( ; i != e; ++i) {
+                        for ( ; i != e; ) {
                             if (HANDLE_ESCAPES && *i == '\\') {
                                 if (l != i && !cxon::cnt::append(c, l, i))
                                     return rewind(i, l), cx/X::read_error::overflow;
@@ -122,7 +122,7 @@ namespace cxon { namespace cio { namespace str {
                                         if (c32 == chr::bad_utf32) return rewind(i, o), false;
                                     if (!char_append_(c, c32))
                                         return rewind(i, o), cx/X::read_error::overflow;
-                                l = i, --i;
+                                l = i;
                             }
                             else {
                                 CXON_IF_CONSTEXPR (!is_unquoted_key_context<X>::value) {
@@ -134,12 +134,11 @@ namespace cxon { namespace cio { namespace str {
                                 }
                                 CXON_IF_CONSTEXPR (X::validate_string_encoding) {
                                     if ((unsigned char)*i > 0x7F) {
-                                        auto bs = chr::utf8_check(i, e);
+                                        auto const bs = chr::utf8_check(i, e);
                                         if (bs == 0)
                                             return cx/X::read_error::character_invalid;
-                                        while ((i += bs) != e && (bs = chr::utf8_check(i, e)))
-                                            ;
-                                        --i;
+                                        std::advance(i, bs);
+                                        continue;
                                     }
                                     else CXON_IF_CONSTEXPR (X::validate_string_escapes) {
                                         if (chr::is<X>::ctrl(*i))
@@ -150,6 +149,7 @@ namespace cxon { namespace cio { namespace str {
                                     if (chr::is<X>::ctrl(*i))
                                         return cx/X::read_error::unexpected;
                                 }
+                                ++i;
                             }
                         }
                     return cx/X::read_error::unexpected;
-- 
2.43.0


From 3df44712f591c0731a3a134aa0e5390e420780e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:29 +0000
Subject: [PATCH 04/43] fix: JSON: do not read past the end of a truncated
 multi-byte character

---
 src/cxon/lang/common/cio/char.hxx | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/cio/char.hxx b/src/cxon/lang/common/cio/char.hxx
index 56f345c..9fb7911 100644
--- a/src/cxon/lang/common/cio/char.hxx
+++ b/src/cxon/lang/common/cio/char.hxx
@@ -177,42 +177,50 @@ namespace cxon { namespace cio { namespace chr {
                     if (c0 <= 0x7F)
                         return ++i, c0;
                     if (c0 >= 0xC2 && c0 <= 0xDF) {
+                        CXON_EXPECT(!less_(i, e, 2));
                         c1 = head_(i, e);       CXON_EXPECT(c1 >= 0x80 && c1 <= 0xBF);
                         return ++i, ((c0 & 0x1F) << 6) | (c1 & 0x3F);
                     }
                     if (c0 == 0xE0) {
+                        CXON_EXPECT(!less_(i, e, 3));
                         c1 = head_(i, e);       CXON_EXPECT(c1 >= 0xA0 && c1 <= 0xBF);
                         c2 = tail_(i, e);       CXON_EXPECT(c2 >= 0x80 && c2 <= 0xBF);
                         return ++i, ((c0 & 0x0F) << 12) | ((c1 & 0x3F) << 6) | (c2 & 0x3F);
                     }
                     if (c0 >= 0xE1 && c0 <= 0xEC) {
+                        CXON_EXPECT(!less_(i, e, 3));
                         c1 = head_(i, e);       CXON_EXPECT(c1 >= 0x80 && c1 <= 0xBF);
                         c2 = tail_(i, e);       CXON_EXPECT(c2 >= 0x80 && c2 <= 0xBF);
                         return ++i, ((c0 & 0x0F) << 12) | ((c1 & 0x3F) << 6) | (c2 & 0x3F);
                     }
                     if (c0 == 0xED) {
+                        CXON_EXPECT(!less_(i, e, 3));
                         c1 = head_(i, e);       CXON_EXPECT(c1 >= 0x80 && c1 <= 0x9F);
                         c2 = tail_(i, e);       CXON_EXPECT(c2 >= 0x80 && c2 <= 0xBF);
                         return ++i, ((c0 & 0x0F) << 12) | ((c1 & 0x3F) << 6) | (c2 & 0x3F);
                     }
                     if (c0 >= 0xEE && c0 <= 0xEF) {
+                        CXON_EXPECT(!less_(i, e, 3));
                         c1 = head_(i, e);       CXON_EXPECT(c1 >= 0x80 && c1 <= 0xBF);
                         c2 = tail_(i, e);       CXON_EXPECT(c2 >= 0x80 && c2 <= 0xBF);
                         return ++i, ((c0 & 0x0F) << 12) | ((c1 & 0x3F) << 6) | (c2 & 0x3F);
                     }
                     if (c0 == 0xF0) {
+                        CXON_EXPECT(!less_(i, e, 4));
                         c1 = head_(i, e);       CXON_EXPECT(c1 >= 0x90 && c1 <= 0xBF);
                         c2 = tail_(i, e);       CXON_EXPECT(c2 >= 0x80 && c2 <= 0xBF);
                         c3 = tail_(i, e);       CXON_EXPECT(c3 >= 0x80 && c3 <= 0xBF);
                         return ++i, ((c0 & 0x07) << 18) | ((c1 & 0x3F) << 12) | ((c2 & 0x3F) << 6) | (c3 & 0x3F);
                     }
                     if (c0 >= 0xF1 && c0 <= 0xF3) {
+                        CXON_EXPECT(!less_(i, e, 4));
                         c1 = head_(i, e);       CXON_EXPECT(c1 >= 0x80 && c1 <= 0xBF);
                         c2 = tail_(i, e);       CXON_EXPECT(c2 >= 0x80 && c2 <= 0xBF);
                         c3 = tail_(i, e);       CXON_EXPECT(c3 >= 0x80 && c3 <= 0xBF);
                         return ++i, ((c0 & 0x07) << 18) | ((c1 & 0x3F) << 12) | ((c2 & 0x3F) << 6) | (c3 & 0x3F);
                     }
                     if (c0 == 0xF4) {
+                        CXON_EXPECT(!less_(i, e, 4));
                         c1 = head_(i, e);       CXON_EXPECT(c1 >= 0x80 && c1 <= 0x8F);
                         c2 = tail_(i, e);       CXON_EXPECT(c2 >= 0x80 && c2 <= 0xBF);
                         c3 = tail_(i, e);       CXON_EXPECT(c3 >= 0x80 && c3 <= 0xBF);
@@ -230,15 +238,18 @@ namespace cxon { namespace cio { namespace chr {
                     if ((c0 & 0x80) == 0)
                         return ++i, c0;
                     if ((c0 & 0xE0) == 0xC0) {
+                        CXON_EXPECT(!less_(i, e, 2));
                         c1 = head_(i, e);       CXON_EXPECT((c1 & 0xC0) == 0x80);
                         return ++i, ((c0 & 0x1F) << 6) | (c1 & 0x3F);
                     }
                     if ((c0 & 0xF0) == 0xE0) {
+                        CXON_EXPECT(!less_(i, e, 3));
                         c1 = head_(i, e);       CXON_EXPECT((c1 & 0xC0) == 0x80);
                         c2 = tail_(i, e);       CXON_EXPECT((c2 & 0xC0) == 0x80);
                         return ++i, ((c0 & 0x0F) << 12) | ((c1 & 0x3F) << 6) | (c2 & 0x3F);
                     }
                     if ((c0 & 0xF8) == 0xF0) {
+                        CXON_EXPECT(!less_(i, e, 4));
                         c1 = head_(i, e);       CXON_EXPECT((c1 & 0xC0) == 0x80);
                         c2 = tail_(i, e);       CXON_EXPECT((c2 & 0xC0) == 0x80);
                         c3 = tail_(i, e);       CXON_EXPECT((c3 & 0xC0) == 0x80);
@@ -254,7 +265,9 @@ namespace cxon { namespace cio { namespace chr {
         inline auto utf8_to_utf32(II& i, II e, Cx& cx)
             -> enable_if_t<is_char_8<typename std::iterator_traits<II>::value_type>::value, char32_t>
         {
-            return peek(i, e) != '\\' ?
+            if (i == e)
+                return cx/X::read_error::unexpected, bad_utf32;
+            return *i != '\\' ?
                 imp::utf8_to_utf32_<X>(i, e, cx) :
                 esc_to_utf32<X>(++i, e, cx)
             ;
-- 
2.43.0


From 5424cbb6663f707d71a5aafe61466e7edacc6420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:02 +0000
Subject: [PATCH 05/43] fix: JSON: reject an unpaired low surrogate escape

---
 src/cxon/lang/common/cio/char.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/common/cio/char.hxx b/src/cxon/lang/common/cio/char.hxx
index 9fb7911..2f4f6bf 100644
--- a/src/cxon/lang/common/cio/char.hxx
+++ b/src/cxon/lang/common/cio/char.hxx
@@ -140,9 +140,9 @@ namespace cxon { namespace cio { namespace chr {
         inline char32_t esc_to_utf32(II& i, II e, Cx& cx) {
             char32_t const c32 = imp::esc_to_utf32_<X>(i, e);
                 if (c32 == bad_utf32) return cx/X::read_error::escape_invalid, bad_utf32;
-            if (c32 < 0xD800 || c32 > 0xDBFF) return c32;
+            if (c32 < 0xD800 || c32 > 0xDFFF) return c32;
             // surrogate
-                if (peek(i, e) != '\\') return cx/X::read_error::surrogate_invalid, bad_utf32;
+                if (c32 > 0xDBFF || peek(i, e) != '\\') return cx/X::read_error::surrogate_invalid, bad_utf32;
             char32_t const s32 = (++i, imp::esc_to_utf32_<X>(i, e));
                 if (s32 < 0xDC00 || s32 > 0xDFFF)
                     return (s32 == bad_utf32 ? cx/X::read_error::escape_invalid : cx/X::read_error::surrogate_invalid), bad_utf32;
-- 
2.43.0


From 180ad0a78158e6282df6102f387df9808c69d015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:52 +0000
Subject: [PATCH 06/43] fix: JSON: single characters: reject unescaped control
 characters, a missing character and whitespace before the closing quote

---
 src/cxon/lang/json/fundamental.hxx | 33 ++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/cxon/lang/json/fundamental.hxx b/src/cxon/lang/json/fundamental.hxx
index 9869777..f1a830d 100644
--- a/src/cxon/lang/json/fundamental.hxx
+++ b/src/cxon/lang/json/fundamental.hxx
@@ -91,16 +91,37 @@ namespace cxon { // bool
 
 namespace cxon { // character
 
+    namespace json { namespace imp {
+
+        template <typename X, typename II, typename Cx>
+            inline char32_t char_read_(II& i, II e, Cx& cx) {
+                if (i != e) {
+                    CXON_IF_CONSTEXPR (!cio::is_key_context<X>::value) {
+                        if (cio::str::delim_en_check<X>(*i))    return cx/json::read_error::unexpected, cio::chr::bad_utf32;
+                    }
+                    CXON_IF_CONSTEXPR (X::validate_string_escapes) {
+                        if (cio::chr::is<X>::ctrl(*i))          return cx/json::read_error::unexpected, cio::chr::bad_utf32;
+                    }
+                }
+                return cio::chr::utf8_to_utf32<X>(i, e, cx);
+            }
+        template <typename X, typename II, typename Cx>
+            inline bool char_read_end_(II& i, II e, Cx& cx) {
+                return cio::str::delim_en_read<X>(i, e) || cx/json::read_error::unexpected;
+            }
+
+    }}
+
     template <typename X, typename T>
         struct read<JSON<X>, T, enable_if_t<cio::chr::is_char_8<T>::value>> {
             template <typename II, typename Cx>
                 static bool value(T& t, II& i, II e, Cx& cx) {
                     if (!cio::consume<X>(cio::str::delim_be_read<X, II>, i, e, cx)) return false;
                         II const o = i;
-                            char32_t const c32 = cio::chr::utf8_to_utf32<X>(i, e, cx);
+                            char32_t const c32 = json::imp::char_read_<X>(i, e, cx);
                                 if (c32 == cio::chr::bad_utf32) return cio::rewind(i, o), false;
                                 if (c32 >  0xFF)                return cio::rewind(i, o), cx/json::read_error::character_invalid;
-                    return cio::consume<X>(cio::str::delim_en_read<X, II>, i, e, cx) && (t = char(c32), true);
+                    return json::imp::char_read_end_<X>(i, e, cx) && (t = char(c32), true);
                 }
             };
     template <typename X, typename T>
@@ -109,10 +130,10 @@ namespace cxon { // character
                 static bool value(T& t, II& i, II e, Cx& cx) {
                     if (!cio::consume<X>(cio::str::delim_be_read<X, II>, i, e, cx)) return false;
                         II const o = i;
-                            char32_t const c32 = cio::chr::utf8_to_utf32<X>(i, e, cx);
+                            char32_t const c32 = json::imp::char_read_<X>(i, e, cx);
                                 if (c32 == cio::chr::bad_utf32) return cio::rewind(i, o), false;
                                 if (c32 >  0xFFFF)              return cio::rewind(i, o), cx/json::read_error::character_invalid;
-                    return cio::consume<X>(cio::str::delim_en_read<X, II>, i, e, cx) && (t = T(c32), true);
+                    return json::imp::char_read_end_<X>(i, e, cx) && (t = T(c32), true);
                 }
         };
     template <typename X, typename T>
@@ -121,9 +142,9 @@ namespace cxon { // character
                 static bool value(T& t, II& i, II e, Cx& cx) {
                     if (!cio::consume<X>(cio::str::delim_be_read<X, II>, i, e, cx)) return false;
                         II const o = i;
-                            char32_t const c32 = cio::chr::utf8_to_utf32<X>(i, e, cx);
+                            char32_t const c32 = json::imp::char_read_<X>(i, e, cx);
                                 if (c32 == cio::chr::bad_utf32) return cio::rewind(i, o), false;
-                    return cio::consume<X>(cio::str::delim_en_read<X, II>, i, e, cx) && (t = T(c32), true);
+                    return json::imp::char_read_end_<X>(i, e, cx) && (t = T(c32), true);
                 }
         };
 
-- 
2.43.0


From 797541794c3a121b205be24948eabef4f80bcaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:52 +0000
Subject: [PATCH 07/43] fix: JSON: null, booleans, numbers and characters: skip
 JSON whitespace only

---
 src/cxon/lang/json/fundamental.hxx | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/cxon/lang/json/fundamental.hxx b/src/cxon/lang/json/fundamental.hxx
index f1a830d..a27f790 100644
--- a/src/cxon/lang/json/fundamental.hxx
+++ b/src/cxon/lang/json/fundamental.hxx
@@ -20,16 +20,16 @@ namespace cxon { // std::nullptr_t
         struct read<JSON<X>, std::nullptr_t> {
             template <typename II, typename Cx>
                 static bool value(std::nullptr_t& t, II& i, II e, Cx& cx) {
-                    if (!cio::consume<X>(i, e, cx))
+                    if (!cio::consume<JSON<X>>(i, e, cx))
                         return false;
                     II const o = i;
-                    return  (cio::consume<X>(X::id::nil, i, e) && (t = nullptr, true)) ||
+                    return  (cio::consume<JSON<X>>(X::id::nil, i, e) && (t = nullptr, true)) ||
                             (cio::rewind(i, o), cx/json::read_error::unexpected)
                     ;
                 }
             template <typename Cx>
                 static bool value(std::nullptr_t& t, const char*& i, const char* e, Cx& cx) {
-                    if (!cio::consume<X>(i, e, cx))
+                    if (!cio::consume<JSON<X>>(i, e, cx))
                         return false;
                     constexpr auto nl = X::id::len::nil;
                     return  (std::size_t(e - i) >= nl && std::char_traits<char>::compare(X::id::nil, i, nl) == 0 && (i += nl, t = nullptr, true)) ||
@@ -55,17 +55,17 @@ namespace cxon { // bool
             template <typename II, typename Cx>
                 static bool value(bool& t, II& i, II e, Cx& cx) {
                     static_assert(*X::id::pos != *X::id::neg, "boolean literals ambiguous"); // for input-iterator, id must be consumed
-                    if (!cio::consume<X>(i, e, cx))
+                    if (!cio::consume<JSON<X>>(i, e, cx))
                         return false;
                     II const o = i;
                         char const c = cio::peek(i, e);
-                            if (c == *X::id::pos && cio::consume<X>(X::id::pos, i, e)) return t = true,  true;
-                            if (c == *X::id::neg && cio::consume<X>(X::id::neg, i, e)) return t = false, true;
+                            if (c == *X::id::pos && cio::consume<JSON<X>>(X::id::pos, i, e)) return t = true,  true;
+                            if (c == *X::id::neg && cio::consume<JSON<X>>(X::id::neg, i, e)) return t = false, true;
                     return cio::rewind(i, o), cx/json::read_error::boolean_invalid;
                 }
             template <typename Cx>
                 static bool value(bool& t, const char*& i, const char* e, Cx& cx) {
-                    if (!cio::consume<X>(i, e, cx))
+                    if (!cio::consume<JSON<X>>(i, e, cx))
                         return false;
                     std::size_t const il = std::size_t(e - i);
                         constexpr auto pl = X::id::len::pos;
@@ -116,7 +116,7 @@ namespace cxon { // character
         struct read<JSON<X>, T, enable_if_t<cio::chr::is_char_8<T>::value>> {
             template <typename II, typename Cx>
                 static bool value(T& t, II& i, II e, Cx& cx) {
-                    if (!cio::consume<X>(cio::str::delim_be_read<X, II>, i, e, cx)) return false;
+                    if (!cio::consume<JSON<X>>(cio::str::delim_be_read<X, II>, i, e, cx)) return false;
                         II const o = i;
                             char32_t const c32 = json::imp::char_read_<X>(i, e, cx);
                                 if (c32 == cio::chr::bad_utf32) return cio::rewind(i, o), false;
@@ -128,7 +128,7 @@ namespace cxon { // character
         struct read<JSON<X>, T, enable_if_t<cio::chr::is_char_16<T>::value>> {
             template <typename II, typename Cx>
                 static bool value(T& t, II& i, II e, Cx& cx) {
-                    if (!cio::consume<X>(cio::str::delim_be_read<X, II>, i, e, cx)) return false;
+                    if (!cio::consume<JSON<X>>(cio::str::delim_be_read<X, II>, i, e, cx)) return false;
                         II const o = i;
                             char32_t const c32 = json::imp::char_read_<X>(i, e, cx);
                                 if (c32 == cio::chr::bad_utf32) return cio::rewind(i, o), false;
@@ -140,7 +140,7 @@ namespace cxon { // character
         struct read<JSON<X>, T, enable_if_t<cio::chr::is_char_32<T>::value>> {
             template <typename II, typename Cx>
                 static bool value(T& t, II& i, II e, Cx& cx) {
-                    if (!cio::consume<X>(cio::str::delim_be_read<X, II>, i, e, cx)) return false;
+                    if (!cio::consume<JSON<X>>(cio::str::delim_be_read<X, II>, i, e, cx)) return false;
                         II const o = i;
                             char32_t const c32 = json::imp::char_read_<X>(i, e, cx);
                                 if (c32 == cio::chr::bad_utf32) return cio::rewind(i, o), false;
@@ -164,7 +164,7 @@ namespace cxon { // numeric
         struct read<JSON<X>, T, enable_if_t<is_numeric<T>::value>> {
             template <typename II, typename Cx>
                 static bool value(T& t, II& i, II e, Cx& cx) {
-                    return cio::num::number_read<X>(t, i, e, cx);
+                    return cio::num::number_read<JSON<X>>(t, i, e, cx);
                 }
         };
 
-- 
2.43.0


From 1a493f3a696638b4a8236d25e7848f74efeb47e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:36 +0000
Subject: [PATCH 08/43] fix: charconv fallback: parse only [first, last),
 accept subnormals

The C++11 fallback handed the caller's range to strtol/strtod, which read
past 'last' when the text is not followed by a terminator; 16-bit and
unsigned overflow handling and subnormal rejection differed from std::from_chars.
---
 src/cxon/lang/common/charconv.hxx | 121 ++++++++++++++++++------------
 1 file changed, 75 insertions(+), 46 deletions(-)

diff --git a/src/cxon/lang/common/charconv.hxx b/src/cxon/lang/common/charconv.hxx
index 85a2999..66a8379 100644
--- a/src/cxon/lang/common/charconv.hxx
+++ b/src/cxon/lang/common/charconv.hxx
@@ -14,6 +14,7 @@
 
 #include <algorithm> // reverse
 #include <limits>
+#include <string>
 #include <type_traits>
 
 #ifdef CXON_USE_BOOST_CHARCONV
@@ -46,64 +47,92 @@ namespace cxon { namespace charconv { namespace imp {
 
     namespace {
 
-        template <typename T, typename F>
-            constexpr auto clamp_(F t) noexcept -> enable_if_t<sizeof(T) == sizeof(F), T> {
-                return t;
-            }
-        template <typename T, typename F>
-            inline auto clamp_(F f) noexcept    -> enable_if_t<sizeof(T) < sizeof(F) && std::is_signed<T>(), T> {
-                        if (f < std::numeric_limits<T>::min()) errno = ERANGE, f = std::numeric_limits<T>::min();
-                else    if (f > std::numeric_limits<T>::max()) errno = ERANGE, f = std::numeric_limits<T>::max();
-                return (T)f;
-            }
-        template <typename T, typename F>
-            inline auto clamp_(F f) noexcept    -> enable_if_t<sizeof(T) < sizeof(F) && std::is_unsigned<T>(), T> {
-                if (std::numeric_limits<T>::max() < f) errno = ERANGE, f = std::numeric_limits<T>::max();
-                return (T)f;
-            }
+        inline int digit_(char c) noexcept {
+            return  c >= '0' && c <= '9' ? c - '0' :
+                    c >= 'a' && c <= 'z' ? c - 'a' + 10 :
+                    c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 36
+            ;
+        }
 
+        // the input is not necessarily null-terminated
         template <typename T>
-            inline auto is_sign_invalid_(char c) noexcept -> enable_if_t<std::is_signed<T>::value, bool> {
-                return c == '+';
-            }
-        template <typename T>
-            inline auto is_sign_invalid_(char c) noexcept -> enable_if_t<std::is_unsigned<T>::value, bool> {
-                return c == '+' || c == '-';
+            inline from_chars_result number_from_chars_(const char* first, const char* last, T& value, int base) noexcept {
+                CXON_ASSERT(base >= 2 && base <= 36, "invalid base");
+                using U = typename std::make_unsigned<T>::type;
+                bool const neg = std::is_signed<T>::value && first != last && *first == '-';
+                U const max = U(U(std::numeric_limits<T>::max()) + U(neg));
+                const char *const beg = first + neg, *ptr = beg;
+                bool out = false; U v = 0;
+                    for ( ; ptr != last; ++ptr) {
+                        int const d = digit_(*ptr);
+                            if (d >= base) break;
+                        if (out || v > U(max - U(d)) / U(base)) out = true;
+                        else                                    v = U(v * U(base) + U(d));
+                    }
+                if (ptr == beg) return { first, std::errc::invalid_argument };
+                if (out)        return { ptr, std::errc::result_out_of_range };
+                return value = neg ? T(U(0) - v) : T(v), from_chars_result { ptr, std::errc{} };
             }
 
-        template <typename T, typename Cv>
-            inline from_chars_result number_from_chars_(const char* first, const char*, Cv convert, T& value, int base) noexcept {
-                CXON_ASSERT(base >= 2 && base <= 36, "invalid base");
-                    if (is_sign_invalid_<T>(*first)) return { first, std::errc::invalid_argument };
-                char* end;
-                errno = 0; auto const v = clamp_<T>(convert(first, &end, base));
-                return { end, end != first ? errno != ERANGE ? (value = v, std::errc{}) : std::errc::result_out_of_range : std::errc::invalid_argument };
+        inline const char* digits_(const char* i, const char* e) noexcept {
+            while (i != e && *i >= '0' && *i <= '9') ++i;
+            return i;
+        }
+        inline const char* word_(const char* i, const char* e, const char* w) noexcept { // w is lower-case
+            for ( ; *w && i != e && (*i | 0x20) == *w; ++i, ++w)
+                ;
+            return *w ? nullptr : i;
+        }
+        // the end of the number at i (decimal or inf|infinity|nan, as for std::from_chars) or i
+        inline const char* number_end_(const char* i, const char* e) noexcept {
+            const char *const b = i, *p;
+                if (i != e && *i == '-') ++i;
+            if ((p = word_(i, e, "infinity")) || (p = word_(i, e, "inf")) || (p = word_(i, e, "nan")))
+                return p;
+            bool has = (p = digits_(i, e)) != i;
+                if (p != e && *p == '.') {
+                    const char *const f = p + 1, *const l = digits_(f, e);
+                        if (has || l != f) has = true, p = l;
+                }
+                if (!has) return b;
+            if (p != e && (*p == 'e' || *p == 'E')) {
+                const char* f = p + 1;
+                    if (f != e && (*f == '-' || *f == '+')) ++f;
+                const char *const l = digits_(f, e);
+                    if (l != f) p = l;
             }
+            return p;
+        }
+
         template <typename T, typename Cv>
-            inline from_chars_result number_from_chars_(const char* first, const char*, Cv convert, T& value, chars_format) noexcept {
-                    if (is_sign_invalid_<T>(*first)) return { first, std::errc::invalid_argument };
-                char* end;
-                errno = 0; auto const v = convert(first, &end);
-                return { end, end != first ? errno != ERANGE ? (value = v, std::errc{}) : std::errc::result_out_of_range : std::errc::invalid_argument };
+            inline from_chars_result number_from_chars_(const char* first, const char* last, Cv convert, T& value, chars_format) {
+                const char *const end = number_end_(first, last);
+                    if (end == first) return { first, std::errc::invalid_argument };
+                std::string const s(first, end);
+                int const en = errno;
+                    errno = 0; T const v = convert(s.c_str(), nullptr);
+                    bool const out = errno == ERANGE && (v == T(0) || v > std::numeric_limits<T>::max() || v < std::numeric_limits<T>::lowest());
+                errno = en;
+                return { end, out ? std::errc::result_out_of_range : (value = v, std::errc{}) };
             }
 
     }
 
-#   define CXON_FROM_CHARS(T, C)\
+#   define CXON_FROM_CHARS(T)\
         inline from_chars_result from_chars(const char* first, const char* last, T& value, int base = 10) noexcept {\
-            return number_from_chars_(first, last, C, value, base);\
+            return number_from_chars_(first, last, value, base);\
         }
-        CXON_FROM_CHARS(char, strtol)
-        CXON_FROM_CHARS(signed char, strtol)
-        CXON_FROM_CHARS(unsigned char, strtoul)
-        CXON_FROM_CHARS(short, strtol)
-        CXON_FROM_CHARS(unsigned short, strtoul)
-        CXON_FROM_CHARS(int, strtol)
-        CXON_FROM_CHARS(unsigned int, strtoul)
-        CXON_FROM_CHARS(long, strtol)
-        CXON_FROM_CHARS(unsigned long, strtoul)
-        CXON_FROM_CHARS(long long, strtoll)
-        CXON_FROM_CHARS(unsigned long long, strtoull)
+        CXON_FROM_CHARS(char)
+        CXON_FROM_CHARS(signed char)
+        CXON_FROM_CHARS(unsigned char)
+        CXON_FROM_CHARS(short)
+        CXON_FROM_CHARS(unsigned short)
+        CXON_FROM_CHARS(int)
+        CXON_FROM_CHARS(unsigned int)
+        CXON_FROM_CHARS(long)
+        CXON_FROM_CHARS(unsigned long)
+        CXON_FROM_CHARS(long long)
+        CXON_FROM_CHARS(unsigned long long)
 #   undef CXON_FROM_CHARS
 #   define CXON_FROM_CHARS(T, C)\
         inline from_chars_result from_chars(const char* first, const char* last, T& value, chars_format fmt = chars_format::general) noexcept {\
-- 
2.43.0


From 8e68d0ff2ed76ff4ce9a9c382d832f02bd34153b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:36 +0000
Subject: [PATCH 09/43] fix: JSON: reject out-of-range numbers of non-pointer
 iterators and strict numbers

The error code of from_chars was ignored there, so out-of-range input
was accepted leaving the value unchanged; the pointer reader of integers
compared with a character past the end.
---
 src/cxon/lang/common/cio/numeric.hxx | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/cxon/lang/common/cio/numeric.hxx b/src/cxon/lang/common/cio/numeric.hxx
index 720670d..73e1afd 100644
--- a/src/cxon/lang/common/cio/numeric.hxx
+++ b/src/cxon/lang/common/cio/numeric.hxx
@@ -60,7 +60,7 @@ namespace cxon { namespace cio { namespace num { // read
             inline auto number_consume_(const char*& i, const char* e)
                 -> enable_if_t<std::is_integral<T>::value, int>
             {
-                char c = *i;
+                char c = peek(i, e);
                     if (is_sign_<T>(c)) goto trap_neg;
                 // trap_pos
                     if (c == '0') return ++i, 1;
@@ -232,8 +232,8 @@ namespace cxon { namespace cio { namespace num { // read
                         case -1: return rewind(i, o), cx/X::read_error::overflow;
                         case  0: return rewind(i, o), cx/X::read_error::integral_invalid;
                         default: {
-                            auto const r = charconv::from_chars(std::begin(s), std::end(s), t); CXON_ASSERT(r.ec == std::errc(), "unexpected");
-                            return true;
+                            auto const r = charconv::from_chars(std::begin(s), std::end(s), t);
+                            return r.ec == std::errc() || (rewind(i, o), cx/X::read_error::integral_invalid);
                         }
                     }
             }
@@ -246,8 +246,8 @@ namespace cxon { namespace cio { namespace num { // read
                     return i = b, cx/X::read_error::integral_invalid;
                 if (i - b == 1)
                     return t = *b - '0', true;
-                auto const r = charconv::from_chars(b, i, t); CXON_ASSERT(r.ec == std::errc() && r.ptr == i, "unexpected");
-                return true;
+                auto const r = charconv::from_chars(b, i, t);
+                return r.ec == std::errc() || (i = b, cx/X::read_error::integral_invalid);
             }
         template <typename X, typename T, typename Cx>
             inline auto number_read_(T& t, const char*& i, const char* e, Cx& cx)
@@ -312,8 +312,8 @@ namespace cxon { namespace cio { namespace num { // read
                         case -1: return rewind(i, o), cx/X::read_error::overflow;
                         case  0: return rewind(i, o), cx/X::read_error::floating_point_invalid;
                         default: {
-                            auto const r = from_chars_<X>(std::begin(s), std::end(s), t); CXON_ASSERT(r.ec == std::errc(), "unexpected");
-                            return true;
+                            auto const r = from_chars_<X>(std::begin(s), std::end(s), t);
+                            return r.ec == std::errc() || (rewind(i, o), cx/X::read_error::floating_point_invalid);
                         }
                     }
             }
@@ -326,8 +326,8 @@ namespace cxon { namespace cio { namespace num { // read
                     return i = b, cx/X::read_error::floating_point_invalid;
                 if (i - b == 1)
                     return t = T(*b - '0'), true;
-                auto const r = from_chars_<X>(b, i, t); CXON_ASSERT(r.ec == std::errc() && r.ptr == i, "unexpected");
-                return true;
+                auto const r = from_chars_<X>(b, i, t);
+                return r.ec == std::errc() || (i = b, cx/X::read_error::floating_point_invalid);
             }
         template <typename X, typename T, typename Cx>
             inline auto number_read_(T& t, const char*& i, const char* e, Cx& cx)
-- 
2.43.0


From 550dbadfdd035bbcf0b66db7a5eb3eb2ae517049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:57 +0000
Subject: [PATCH 10/43] fix: an unpaired UTF-16 surrogate at the end of a
 string is not read past the end

---
 src/cxon/lang/common/cio/char.hxx | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/cxon/lang/common/cio/char.hxx b/src/cxon/lang/common/cio/char.hxx
index 2f4f6bf..c906cfe 100644
--- a/src/cxon/lang/common/cio/char.hxx
+++ b/src/cxon/lang/common/cio/char.hxx
@@ -590,7 +590,6 @@ namespace cxon { namespace cio { namespace chr {
             struct encode_<X, char16_t> {
                 template <typename O, typename Cx>
                     static bool value(O& o, char16_t c, Cx& cx) {
-                        CXON_ASSERT(c < 0xD800 || c > 0xDBFF, "unexpected surrogate");
                         return encode_<X, char32_t>::value(o, c, cx);
                     }
                 template <typename O, typename Cx>
@@ -603,9 +602,8 @@ namespace cxon { namespace cio { namespace chr {
                     template <typename O, typename Cx>
                         static bool value_(O& o, const char16_t*& i, const char16_t* e, Cx& cx) {
                             char32_t c32 = *i;
-                                if (c32 >= 0xD800 && c32 <= 0xDBFF) { // surrogate
-                                    ++i;                        CXON_ASSERT(i != e, "invalid surrogate");
-                                    char32_t const s32 = *i;    CXON_ASSERT(s32 >= 0xDC00 && s32 <= 0xDFFF, "invalid surrogate");
+                                if (c32 >= 0xD800 && c32 <= 0xDBFF && e - i > 1 && i[1] >= 0xDC00 && i[1] <= 0xDFFF) { // surrogate pair
+                                    char32_t const s32 = *++i;
                                     c32 = char32_t(0x10000 + (((c32 - 0xD800) << 10) | (s32 - 0xDC00)));
                                 }
                             return encode_<X, char32_t>::value(o, c32, cx);
-- 
2.43.0


From ea08f399212685e377092fd014c4b1a1c39475e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:46 +0000
Subject: [PATCH 11/43] fix: cbor: do not reserve memory for announced sizes
 that exceed the input

---
 src/cxon/lang/cbor/common/container.hxx | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/cbor/common/container.hxx b/src/cxon/lang/cbor/common/container.hxx
index dda1b6c..7d12143 100644
--- a/src/cxon/lang/cbor/common/container.hxx
+++ b/src/cxon/lang/cbor/common/container.hxx
@@ -86,6 +86,20 @@ namespace cxon { namespace cbor { namespace cnt {
 
     namespace imp { // byte/text arrays
 
+        // the announced size is not trustworthy, an element takes at least one byte of the input
+        template <typename II>
+            inline auto size_hint_(std::size_t n, II i, II e)
+                -> enable_if_t< is_random_access_iterator<II>::value, std::size_t>
+            {
+                return std::min(n, static_cast<std::size_t>(std::distance(i, e)));
+            }
+        template <typename II>
+            inline auto size_hint_(std::size_t, const II&, const II&)
+                -> enable_if_t<!is_random_access_iterator<II>::value, std::size_t>
+            {
+                return 0;
+            }
+
         template <typename C>
             inline auto size_(option<1>, const C& c) -> decltype(c.size(), std::size_t()) {
                 return c.size();
@@ -127,7 +141,7 @@ namespace cxon { namespace cbor { namespace cnt {
             inline bool read_array_b_fix_(T& t, II& i, II e, Cx& cx) {
                 std::size_t n;
                 return  read_size_le<X>(n, t.max_size() - size_(t), i, e, cx) &&
-                        cxon::cnt::reserve(t, size_(t) + n) &&
+                        cxon::cnt::reserve(t, size_(t) + size_hint_(n, i, e)) &&
                         read_bytes_<X>(t, n, i, e, cx)
                 ;
             }
@@ -167,7 +181,7 @@ namespace cxon { namespace cbor { namespace cnt {
             inline bool read_array_w_fix_(T& t, II& i, II e, Cx& cx) {
                 std::size_t n;
                 return  read_size_le<X>(n, t.max_size() - size_(t), i, e, cx) &&
-                        cxon::cnt::reserve(t, n) &&
+                        cxon::cnt::reserve(t, size_hint_(n, i, e)) &&
                         read_elements_<X>(t, n, i, e, cx)
                 ;
             }
-- 
2.43.0


From 8959368dd49e76b742b6a4769f68291d863eba9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:33 +0000
Subject: [PATCH 12/43] fix: cbor: write the tag of a taggle as a tag, not as
 an integer

---
 src/cxon/lib/node.cbor.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lib/node.cbor.hxx b/src/cxon/lib/node.cbor.hxx
index e6e0eae..6509bbe 100644
--- a/src/cxon/lib/node.cbor.hxx
+++ b/src/cxon/lib/node.cbor.hxx
@@ -194,7 +194,7 @@ namespace cxon {
         struct write<CBOR<X>, cbor::taggle<N, T>> {
             template <typename O, typename Cx, typename Y = CBOR<X>>
                 static bool value(O& o, const cbor::taggle<N, T>& t, Cx& cx) {
-                    return write_value<Y>(o, t.tag, cx) && write_value<Y>(o, t.value, cx); // TODO: check simple-value values
+                    return (t.tag == N(-1) || cbor::cnt::write_size<Y>(o, Y::tag, t.tag, cx)) && write_value<Y>(o, t.value, cx); // TODO: check simple-value values
                 }
         };
 
-- 
2.43.0


From b8b12f2c5903249f0a25b1d7cbcb4b675f202ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:24 +0000
Subject: [PATCH 13/43] fix: cbor: tuples, variants and classes were read from
 heads of any major type

---
 src/cxon/lang/cbor/class.hxx              |  2 +-
 src/cxon/lang/cbor/common/container.hxx   | 21 +++++++++++++++++++++
 src/cxon/lang/cbor/lib/boost/variant.hxx  |  2 +-
 src/cxon/lang/cbor/lib/boost/variant2.hxx |  2 +-
 src/cxon/lang/cbor/lib/std/complex.hxx    |  2 +-
 src/cxon/lang/cbor/lib/std/tuple.hxx      |  4 ++--
 src/cxon/lang/cbor/lib/std/utility.hxx    |  2 +-
 src/cxon/lang/cbor/lib/std/variant.hxx    |  2 +-
 8 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/cxon/lang/cbor/class.hxx b/src/cxon/lang/cbor/class.hxx
index fc07df6..3687274 100644
--- a/src/cxon/lang/cbor/class.hxx
+++ b/src/cxon/lang/cbor/class.hxx
@@ -145,7 +145,7 @@ namespace cxon { namespace cbor { namespace cls {
     template <typename X, typename T, typename ...Fs, typename II, typename Cx>
         inline bool read_fields(T& t, const fields<Fs...>& fs, II& i, II e, Cx& cx) {
             std::size_t n;
-            if (cbor::cnt::read_size_le<X>(n, sizeof...(Fs), i, e, cx)) {
+            if (cbor::cnt::read_size_le<X>(X::map, n, sizeof...(Fs), i, e, cx)) {
                 int st[sizeof...(Fs)] = {0};
                 for (char id[bio::ids_len_max::constant<napa_type<Cx>>(64)]; n; --n) {
                     II const o = i;
diff --git a/src/cxon/lang/cbor/common/container.hxx b/src/cxon/lang/cbor/common/container.hxx
index 7d12143..523dfe6 100644
--- a/src/cxon/lang/cbor/common/container.hxx
+++ b/src/cxon/lang/cbor/common/container.hxx
@@ -20,6 +20,12 @@ namespace cxon { namespace cbor { namespace cnt {
     template <typename X, typename II, typename Cx>
         inline bool read_size_eq(std::size_t n, II& i, II e, Cx& cx);
 
+    // for major type m
+    template <typename X, typename II, typename Cx>
+        inline bool read_size_le(bio::byte m, std::size_t& s, std::size_t n, II& i, II e, Cx& cx);
+    template <typename X, typename II, typename Cx>
+        inline bool read_size_eq(bio::byte m, std::size_t n, II& i, II e, Cx& cx);
+
     template <typename X, typename O, typename Cx>
         inline bool write_size(O& o, bio::byte m, std::size_t s, Cx& cx);
 
@@ -71,6 +77,21 @@ namespace cxon { namespace cbor { namespace cnt {
             ;
         }
 
+    template <typename X, typename II, typename Cx>
+        inline bool read_size_le(bio::byte m, std::size_t& s, std::size_t n, II& i, II e, Cx& cx) {
+            return  (bio::peek(i, e) & X::mjr) == m ?
+                read_size_le<X>(s, n, i, e, cx) :
+                cx/cbor::read_error::size_invalid
+            ;
+        }
+    template <typename X, typename II, typename Cx>
+        inline bool read_size_eq(bio::byte m, std::size_t n, II& i, II e, Cx& cx) {
+            return  (bio::peek(i, e) & X::mjr) == m ?
+                read_size_eq<X>(n, i, e, cx) :
+                cx/cbor::read_error::size_invalid
+            ;
+        }
+
     template <typename X, typename O, typename Cx>
         inline bool write_size(O& o, bio::byte m, std::size_t s, Cx& cx) {
             unsigned const p = cbor::imp::power_(s);
diff --git a/src/cxon/lang/cbor/lib/boost/variant.hxx b/src/cxon/lang/cbor/lib/boost/variant.hxx
index efd8fc6..4efc107 100644
--- a/src/cxon/lang/cbor/lib/boost/variant.hxx
+++ b/src/cxon/lang/cbor/lib/boost/variant.hxx
@@ -91,7 +91,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(boost::variant<T...>& t, II& i, II e, Cx& cx) {
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(2, i, e, cx) &&
+                            cbor::cnt::read_size_eq<Y>(Y::arr, 2, i, e, cx) &&
                             cbor::imp::boost::variant_read_<Y>(t, i, e, cx)
                     ;
                 }
diff --git a/src/cxon/lang/cbor/lib/boost/variant2.hxx b/src/cxon/lang/cbor/lib/boost/variant2.hxx
index 303b666..102feb3 100644
--- a/src/cxon/lang/cbor/lib/boost/variant2.hxx
+++ b/src/cxon/lang/cbor/lib/boost/variant2.hxx
@@ -98,7 +98,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(boost::variant2::variant<T...>& t, II& i, II e, Cx& cx) {
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(2, i, e, cx) &&
+                            cbor::cnt::read_size_eq<Y>(Y::arr, 2, i, e, cx) &&
                             cbor::imp::boost::variant2::variant_read_<Y>(t, i, e, cx)
                     ;
                 }
diff --git a/src/cxon/lang/cbor/lib/std/complex.hxx b/src/cxon/lang/cbor/lib/std/complex.hxx
index b43faf5..2b6641a 100644
--- a/src/cxon/lang/cbor/lib/std/complex.hxx
+++ b/src/cxon/lang/cbor/lib/std/complex.hxx
@@ -16,7 +16,7 @@ namespace cxon {
                 static bool value(std::complex<T>& t, II& i, II e, Cx& cx) {
                     T rl, mg;
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(2, i, e, cx) &&
+                            cbor::cnt::read_size_eq<Y>(Y::arr, 2, i, e, cx) &&
                                 read_value<Y>(rl, i, e, cx) &&
                                 read_value<Y>(mg, i, e, cx) &&
                             (t.real(rl), t.imag(mg), true)
diff --git a/src/cxon/lang/cbor/lib/std/tuple.hxx b/src/cxon/lang/cbor/lib/std/tuple.hxx
index 3a6bcf1..09f9e8a 100644
--- a/src/cxon/lang/cbor/lib/std/tuple.hxx
+++ b/src/cxon/lang/cbor/lib/std/tuple.hxx
@@ -65,7 +65,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(std::tuple<>&, II& i, II e, Cx& cx) {
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(0, i, e, cx)
+                            cbor::cnt::read_size_eq<Y>(Y::arr, 0, i, e, cx)
                     ;
                 }
         };
@@ -75,7 +75,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(std::tuple<T...>& t, II& i, II e, Cx& cx) {
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(sizeof...(T), i, e, cx) &&
+                            cbor::cnt::read_size_eq<Y>(Y::arr, sizeof...(T), i, e, cx) &&
                             cbor::cnt::read_tuple<Y>(t, i, e, cx)
                     ;
                 }
diff --git a/src/cxon/lang/cbor/lib/std/utility.hxx b/src/cxon/lang/cbor/lib/std/utility.hxx
index b416550..35c1e69 100644
--- a/src/cxon/lang/cbor/lib/std/utility.hxx
+++ b/src/cxon/lang/cbor/lib/std/utility.hxx
@@ -15,7 +15,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(std::pair<F, S>& t, II& i, II e, Cx& cx) {
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(2, i, e, cx) &&
+                            cbor::cnt::read_size_eq<Y>(Y::arr, 2, i, e, cx) &&
                                 read_value<Y>(t.first, i, e, cx) &&
                                 read_value<Y>(t.second, i, e, cx)
                     ;
diff --git a/src/cxon/lang/cbor/lib/std/variant.hxx b/src/cxon/lang/cbor/lib/std/variant.hxx
index cdc63cb..fb018f8 100644
--- a/src/cxon/lang/cbor/lib/std/variant.hxx
+++ b/src/cxon/lang/cbor/lib/std/variant.hxx
@@ -69,7 +69,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(std::variant<T...>& t, II& i, II e, Cx& cx) {
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(2, i, e, cx) &&
+                            cbor::cnt::read_size_eq<Y>(Y::arr, 2, i, e, cx) &&
                             cbor::imp::variant_read_<Y>(t, i, e, cx)
                     ;
                 }
-- 
2.43.0


From 4dc9e8a67bc2137b33a5b5924d992db2363dda06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:24 +0000
Subject: [PATCH 14/43] fix: cbor: reading a bit set kept bits of the target's
 previous value

---
 src/cxon/lang/cbor/lib/std/bitset.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/cbor/lib/std/bitset.hxx b/src/cxon/lang/cbor/lib/std/bitset.hxx
index c995f8c..1846b32 100644
--- a/src/cxon/lang/cbor/lib/std/bitset.hxx
+++ b/src/cxon/lang/cbor/lib/std/bitset.hxx
@@ -25,6 +25,7 @@ namespace cxon {
                             return cx/cbor::read_error::size_invalid;
                         if (++i == e)
                             return cx/cbor::read_error::unexpected;
+                        t.reset();
                         if (N % 8)
                             t |= std::bitset<N> {*i++};
                         std::size_t n = N / 8;
@@ -52,7 +53,7 @@ namespace cxon {
                             return cx/cbor::read_error::size_invalid;
                         if (++i == e)
                             return cx/cbor::read_error::unexpected;
-                        return t |= std::bitset<N> {*i}, ++i, true;
+                        return t = std::bitset<N> {*i}, ++i, true;
                     }
                     default:
                         return cx/cbor::read_error::unexpected;
-- 
2.43.0


From cf2e2927119f4836d9a6ef3ff982423f55dab057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:44 +0000
Subject: [PATCH 15/43] fix: cbor: class keys without a terminator were
 compared with uninitialised or stale characters

---
 src/cxon/lang/cbor/class.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cxon/lang/cbor/class.hxx b/src/cxon/lang/cbor/class.hxx
index 3687274..75f2786 100644
--- a/src/cxon/lang/cbor/class.hxx
+++ b/src/cxon/lang/cbor/class.hxx
@@ -149,6 +149,7 @@ namespace cxon { namespace cbor { namespace cls {
                 int st[sizeof...(Fs)] = {0};
                 for (char id[bio::ids_len_max::constant<napa_type<Cx>>(64)]; n; --n) {
                     II const o = i;
+                        std::char_traits<char>::assign(id, sizeof(id), '\0');
                         if (!read_value<X>(id, i, e, cx))
                             return false;
                         if (!imp::read_field_<X>(t, id, fs, st, i, e, cx))
-- 
2.43.0


From 1f9be0ae99c0430502706e38712a108dfc11d1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:42 +0000
Subject: [PATCH 16/43] fix: writing a block from a non-contiguous container
 overran a bounded output range

The range adaptor had no block append for iterators that are not random
access, so such blocks were pushed unchecked.
---
 src/cxon/lang/common/container.hxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cxon/lang/common/container.hxx b/src/cxon/lang/common/container.hxx
index 49f8018..eeb6260 100644
--- a/src/cxon/lang/common/container.hxx
+++ b/src/cxon/lang/common/container.hxx
@@ -356,6 +356,13 @@ namespace cxon { namespace cnt {
 #                       pragma GCC diagnostic pop
 #                   endif
                 }
+            template <typename II>
+                auto append(II f, II l) noexcept
+                    -> enable_if_t<std::is_base_of<std::input_iterator_tag, iterator_category_t<II>>::value && !is_random_access_iterator<II>::value, bool>
+                {
+                    for ( ; f != l && e_ != l_; ++f) push_back(*f);
+                    return f == l;
+                }
             bool append(const value_type* t, std::size_t n) noexcept {
                 return append(t, t + n);
             }
-- 
2.43.0


From f5e142ac0b8361fb34454d5bfe95d873299697a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:57 +0000
Subject: [PATCH 17/43] fix: copies of a buffered back insert iterator wrote
 the buffered characters again

---
 src/cxon/lang/common/cio/io.hxx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cxon/lang/common/cio/io.hxx b/src/cxon/lang/common/cio/io.hxx
index 5b00151..fa82ec5 100644
--- a/src/cxon/lang/common/cio/io.hxx
+++ b/src/cxon/lang/common/cio/io.hxx
@@ -322,11 +322,13 @@ namespace cxon { namespace cio {
             static_assert(std::is_scalar<T>::value, "not implemented");
 
             buffered_back_insert_iterator(container_type& c, buffer_type& b) noexcept : c_(c), b_(b), s_() {}
+            // the buffer is shared, so its content must be written out only once
+            buffered_back_insert_iterator(const buffered_back_insert_iterator& o) : c_(o.c_), b_(o.b_), s_() { o.flush(); }
             ~buffered_back_insert_iterator() { if (s_) flush(); }
 
             buffered_back_insert_iterator& operator *()     noexcept    { return *this; }
             buffered_back_insert_iterator& operator ++()    noexcept    { return *this; }
-            buffered_back_insert_iterator  operator ++(int) noexcept    { return *this; }
+            buffered_back_insert_iterator  operator ++(int)             { return *this; }
             buffered_back_insert_iterator& operator =(T t)              { return append(t), *this; }
 
             void append(T t) {
@@ -356,14 +358,14 @@ namespace cxon { namespace cio {
                 std::fill_n(b_.data() + s_, n, t), s_ += n;
             }
 
-            void flush() {
+            void flush() const {
                 poke(c_, b_.data(), /*b_.data() + */s_), s_ = 0;
             }
 
             private:
                 container_type& c_;
                 buffer_type& b_;
-                typename buffer_type::size_type s_;
+                mutable typename buffer_type::size_type s_;
         };
     template <typename C, typename B>
         inline auto buffered_back_inserter(C& c, B& b) noexcept -> buffered_back_insert_iterator<C, B> {
-- 
2.43.0


From 156ac194ddf1ab333177c24ad5d61c2adff4afcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:57 +0000
Subject: [PATCH 18/43] fix: cbor: after a failed write of a valarray an empty
 array was written and success reported

---
 src/cxon/lang/cbor/lib/std/valarray.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/cbor/lib/std/valarray.hxx b/src/cxon/lang/cbor/lib/std/valarray.hxx
index c52d816..0010b81 100644
--- a/src/cxon/lang/cbor/lib/std/valarray.hxx
+++ b/src/cxon/lang/cbor/lib/std/valarray.hxx
@@ -67,8 +67,9 @@ namespace cxon {
         struct write<CBOR<X>, std::valarray<T>> {
             template <typename O, typename Cx, typename Y = CBOR<X>>
                 static bool value(O& o, const std::valarray<T>& t, Cx& cx) {
-                    return (t.size() && cbor::cnt::write_array<Y>(o, std::begin(t), std::end(t), cx)) ||
-                           (cbor::cnt::write_size<Y>(o, Y::arr, 0, cx))
+                    return t.size() ?
+                        cbor::cnt::write_array<Y>(o, std::begin(t), std::end(t), cx) :
+                        cbor::cnt::write_size<Y>(o, Y::arr, 0, cx)
                     ;
                 }
         };
-- 
2.43.0


From 054370e5e76cefefeea1bd7fe4c18ad9196850e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:57 +0000
Subject: [PATCH 19/43] fix: json: the indenter wrote blocks through a copy of
 its output, losing them for bounded ranges

---
 src/cxon/lang/json/tidy.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cxon/lang/json/tidy.hxx b/src/cxon/lang/json/tidy.hxx
index c006265..9446fdd 100644
--- a/src/cxon/lang/json/tidy.hxx
+++ b/src/cxon/lang/json/tidy.hxx
@@ -207,22 +207,22 @@ namespace cxon { namespace json {
                 }
 
             bool append(const char* f, const char* l) {
-                return append([&](out_type o) {
+                return append([&](out_type& o) {
                     return cio::poke(o, f, l);
                 });
             }
             bool append(const char* s, std::size_t n) {
-                return append([&](out_type o) {
+                return append([&](out_type& o) {
                     return cio::poke(o, s, n);
                 });
             }
             bool append(const char* s) {
-                return append([&](out_type o) {
+                return append([&](out_type& o) {
                     return cio::poke(o, s);
                 });
             }
             bool append(unsigned n, char c) {
-                return append([&](out_type o) {
+                return append([&](out_type& o) {
                     return cio::poke(o, n, c);
                 });
             }
-- 
2.43.0


From 38c0ad1875617874f99d85064e8646aa86e16b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:57 +0000
Subject: [PATCH 20/43] fix: json: the indenter ignored output failures of the
 indentation behind a separator

---
 src/cxon/lang/json/tidy.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/json/tidy.hxx b/src/cxon/lang/json/tidy.hxx
index 9446fdd..86ce856 100644
--- a/src/cxon/lang/json/tidy.hxx
+++ b/src/cxon/lang/json/tidy.hxx
@@ -157,7 +157,9 @@ namespace cxon { namespace json {
                             case '}': case ']':
                                 break;
                             default:
-                                mut(stt::grn),   poke(o_, '\n') && poke(o_, lvl_, pad_);
+                                mut(stt::grn);
+                                if (!poke(o_, '\n') || !poke(o_, lvl_, pad_))
+                                    return false;
                         }
                         break;
                 }
-- 
2.43.0


From fd2621b97eba9bdcb0c6bbccc222d1689d8c59bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:39 +0000
Subject: [PATCH 21/43] fix: json: classes accepted a trailing separator
 although allow_trailing_separators is off

---
 src/cxon/lang/common/cio/class.hxx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/cio/class.hxx b/src/cxon/lang/common/cio/class.hxx
index 396079c..defd6a7 100644
--- a/src/cxon/lang/common/cio/class.hxx
+++ b/src/cxon/lang/common/cio/class.hxx
@@ -323,8 +323,15 @@ namespace cxon { namespace cio { namespace cls {
                             return rewind(i, o), false;
                         if (!read_field_<X>(t, id, fs, st, i, e, cx))
                             return cx && (rewind(i, o), cx/X::read_error::unexpected);
-                        if (cnt::consume_sep<X, typename X::map>(i, e, cx))
+                        if (cnt::consume_sep<X, typename X::map>(i, e, cx)) {
+                            CXON_IF_CONSTEXPR (!X::allow_trailing_separators && X::map::sep != ' ') {
+                                if (!consume<X>(i, e, cx))
+                                    return false;
+                                if (peek(i, e) == X::map::end)
+                                    return cx/X::read_error::unexpected;
+                            }
                             continue;
+                        }
                     return consume<X>(X::map::end, i, e, cx);
                 }
                 return true;
-- 
2.43.0


From e92c412891eef67ccdce6d99363240b9fa440b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:39 +0000
Subject: [PATCH 22/43] fix: json: skipping a missing value read past the end
 of the input

---
 src/cxon/lang/common/cio/value.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cxon/lang/common/cio/value.hxx b/src/cxon/lang/common/cio/value.hxx
index 037578c..1b9e2be 100644
--- a/src/cxon/lang/common/cio/value.hxx
+++ b/src/cxon/lang/common/cio/value.hxx
@@ -35,6 +35,7 @@ namespace cxon { namespace cio { namespace val {
             struct value_ {
                 template <typename O, typename II>
                     static bool skip(O& o, II& i, II e) {
+                        if (i == e)                 return false;
                         if (*i == X::map::end)      return false;
                         CXON_IF_CONSTEXPR (X::list::end != X::map::end)
                             if (*i == X::list::end) return false;
-- 
2.43.0


From b6816d71f58db26121fd5bf02ddf130afdc29646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:39 +0000
Subject: [PATCH 23/43] fix: json: escaped keys of classes with trivial field
 names were not unescaped

---
 src/cxon/lang/common/cio/string.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cxon/lang/common/cio/string.hxx b/src/cxon/lang/common/cio/string.hxx
index c827e20..758c612 100644
--- a/src/cxon/lang/common/cio/string.hxx
+++ b/src/cxon/lang/common/cio/string.hxx
@@ -160,6 +160,11 @@ namespace cxon { namespace cio { namespace str {
                 {
                     II l = i;
                         for ( ; i != e; ++i) {
+                            if (!X::assume_no_escapes && *i == '\\') {
+                                if (l != i && !cxon::cnt::append(c, l, i))
+                                    return rewind(i, l), cx/X::read_error::overflow;
+                                return string_read_tail_<unbind_traits_t<X, str::raw_traits>>(c, i, e, cx);
+                            }
                             if (delim_en_check<X>(*i)) {
                                 if (l == i || cxon::cnt::append(c, l, i))
                                     return delim_en_read<X>(i, e);
-- 
2.43.0


From f5a1659322b383cf7efc7ad7a0e8a95e9e8b394b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:38 +0000
Subject: [PATCH 24/43] fix: json: names of enumerations were compared up to an
 embedded zero and past the end of the identifier buffer

---
 src/cxon/lang/common/cio/enum.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/common/cio/enum.hxx b/src/cxon/lang/common/cio/enum.hxx
index cad694f..5cf6d71 100644
--- a/src/cxon/lang/common/cio/enum.hxx
+++ b/src/cxon/lang/common/cio/enum.hxx
@@ -50,9 +50,10 @@ namespace cxon { namespace cio { namespace enm {
                 return false;
             II const o = i;
             char id[ids_len_max::constant<napa_type<Cx>>(64)];
-                if (!cxon::read_value<X>(id, i, e, cx))
+            auto c = cxon::cnt::make_range_container(id, id + sizeof(id));
+                if (!str::string_read<X>(c, i, e, cx))
                     return false;
-            for ( ; f != l && std::char_traits<char>::compare(f->name, id, f->nale + 1) != 0; ++f)
+            for ( ; f != l && (f->nale != c.size() || std::char_traits<char>::compare(f->name, id, c.size()) != 0); ++f)
                 ;
             return  (f != l && (t = f->value, true)) ||
                     (rewind(i, o), cx/X::read_error::unexpected);
-- 
2.43.0


From 25da27a4d431092dcd79fb1e09a8f0437c4fd97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:25 +0000
Subject: [PATCH 25/43] fix: json: class keys were compared up to an embedded
 zero and past the end of the identifier buffer

---
 src/cxon/lang/common/cio/class.hxx | 74 ++++++++++++++++++------------
 src/cxon/lang/common/cio/key.hxx   | 10 ++++
 2 files changed, 55 insertions(+), 29 deletions(-)

diff --git a/src/cxon/lang/common/cio/class.hxx b/src/cxon/lang/common/cio/class.hxx
index defd6a7..2f3ed82 100644
--- a/src/cxon/lang/common/cio/class.hxx
+++ b/src/cxon/lang/common/cio/class.hxx
@@ -205,6 +205,16 @@ namespace cxon { namespace cio { namespace cls {
                 return  val::sink_read<X>(f.unit, i, e, cx);
             }
 
+        template <typename F>
+            inline bool is_name_(const F& f, const char* name, std::size_t nale) {
+                return f.nale == nale && std::char_traits<char>::compare(f.name, name, nale) == 0;
+            }
+        template <typename F>
+            inline int compare_name_(const F& f, const char* name, std::size_t nale) {
+                int const c = std::char_traits<char>::compare(f.name, name, f.nale < nale ? f.nale : nale);
+                return c != 0 ? c : f.nale < nale ? -1 : f.nale > nale;
+            }
+
         namespace imp {
             namespace imp { // binary search
 
@@ -223,18 +233,18 @@ namespace cxon { namespace cio { namespace cls {
                                 return read_field_<Y>(t, std::get<Ix>(fs), i, e, cx);
                             }
                         template <typename T, typename ...Fs, typename II, typename Cx>
-                            static bool field(T& t, const char* name, const fields<Fs...>& fs, int (&st)[sizeof...(Fs)], II& i, II e, Cx& cx) {
+                            static bool field(T& t, const char* name, std::size_t nale, const fields<Fs...>& fs, int (&st)[sizeof...(Fs)], II& i, II e, Cx& cx) {
                                 constexpr auto M = (L + R) / 2;
-                                int const c = std::char_traits<char>::compare(std::get<M>(fs).name, name, std::get<M>(fs).nale + 1);
-                                     if (c < 0) return read_ordered_<X, M + 1, R>::field(t, name, fs, st, i, e, cx);
-                                else if (c > 0) return read_ordered_<X, L, M - 1>::field(t, name, fs, st, i, e, cx);
+                                int const c = compare_name_(std::get<M>(fs), name, nale);
+                                     if (c < 0) return read_ordered_<X, M + 1, R>::field(t, name, nale, fs, st, i, e, cx);
+                                else if (c > 0) return read_ordered_<X, L, M - 1>::field(t, name, nale, fs, st, i, e, cx);
                                 else            return field_<M>(t, fs, st, i, e, cx);
                             }
                     };
                 template <typename X, int L, int R>
                     struct read_ordered_<X, L, R, void_t<enable_if_t<R < L>>> {
                         template <typename T, typename ...Fs, typename II, typename Cx, typename Y = X>
-                            static constexpr bool field(T&, const char* name, const fields<Fs...>&, int (&)[sizeof...(Fs)], II&, II, Cx&) noexcept {
+                            static constexpr bool field(T&, const char* name, std::size_t nale, const fields<Fs...>&, int (&)[sizeof...(Fs)], II&, II, Cx&) noexcept {
                                 return false;
                             }
                     };
@@ -245,63 +255,63 @@ namespace cxon { namespace cio { namespace cls {
                 template <typename X, std::size_t N, std::size_t L>
                     struct read_ {
                         template <typename T, typename Fs, typename II, typename Cx, typename Y = X>
-                            static auto field(T& t, const char* name, const Fs& fs, int (&st)[L], II& i, II e, Cx& cx)
+                            static auto field(T& t, const char* name, std::size_t nale, const Fs& fs, int (&st)[L], II& i, II e, Cx& cx)
                                 -> enable_if_t< Y::assume_unique_object_keys, bool>
                             {
-                                return st[N] == 0 && std::char_traits<char>::compare(std::get<N>(fs).name, name, std::get<N>(fs).nale + 1) == 0 ?
+                                return st[N] == 0 && is_name_(std::get<N>(fs), name, nale) ?
                                     (st[N] = 1, read_field_<Y>(t, std::get<N>(fs), i, e, cx)) :
-                                    read_<Y, N + 1, L>::field(t, name, fs, st, i, e, cx)
+                                    read_<Y, N + 1, L>::field(t, name, nale, fs, st, i, e, cx)
                                 ;
                             }
                         template <typename T, typename Fs, typename II, typename Cx, typename Y = X>
-                            static auto field(T& t, const char* name, const Fs& fs, int (&st)[L], II& i, II e, Cx& cx)
+                            static auto field(T& t, const char* name, std::size_t nale, const Fs& fs, int (&st)[L], II& i, II e, Cx& cx)
                                 -> enable_if_t<!Y::assume_unique_object_keys, bool>
                             {
-                                return std::char_traits<char>::compare(std::get<N>(fs).name, name, std::get<N>(fs).nale + 1) == 0 ?
+                                return is_name_(std::get<N>(fs), name, nale) ?
                                     read_field_<Y>(t, std::get<N>(fs), i, e, cx) :
-                                    read_<Y, N + 1, L>::field(t, name, fs, st, i, e, cx)
+                                    read_<Y, N + 1, L>::field(t, name, nale, fs, st, i, e, cx)
                                 ;
                             }
                     };
                 template <typename X, std::size_t N>
                     struct read_<X, N, N> {
                         template <typename T, typename Fs, typename II, typename Cx>
-                            static constexpr bool field(T&, const char*, const Fs&, int (&)[N], II&, II, Cx&) noexcept {
+                            static constexpr bool field(T&, const char*, std::size_t, const Fs&, int (&)[N], II&, II, Cx&) noexcept {
                                 return false;
                             }
                     };
 
             }
             template <typename X, typename T, typename Fs, typename II, typename Cx, std::size_t N>
-                inline bool read_field_(option<0>, T& t, const char* name, const Fs& fs, int (&st)[N], II& i, II e, Cx& cx) {
+                inline bool read_field_(option<0>, T& t, const char* name, std::size_t nale, const Fs& fs, int (&st)[N], II& i, II e, Cx& cx) {
                     //CXON_IF_CONSTEXPR (has_traits<X, ordered_keys_traits>::value && N > 8)
-                    //    return imp::read_ordered_<X, 0, N - 1>::field(t, name, fs, st, i, e, cx);
-                    return imp::read_<X, 0, N>::field(t, name, fs, st, i, e, cx);
+                    //    return imp::read_ordered_<X, 0, N - 1>::field(t, name, nale, fs, st, i, e, cx);
+                    return imp::read_<X, 0, N>::field(t, name, nale, fs, st, i, e, cx);
                 }
 
             template <typename X, typename T, typename Fs, typename II, typename Cx, std::size_t N> // read_field in cxon namespace
-                inline auto read_field_(option<1>, T& t, const char* name, const Fs& fs, int (&st)[N], II& i, II e, Cx& cx)
+                inline auto read_field_(option<1>, T& t, const char* name, std::size_t nale, const Fs& fs, int (&st)[N], II& i, II e, Cx& cx)
                     -> decltype(read_field<X>(name, 0, i, e, cx), bool())
                 {   CXON_ASSERT(!X::assume_unique_object_keys, "not supported");
-                    return read_field<X>(name, std::char_traits<char>::length(name), i, e, cx);
+                    return read_field<X>(name, nale, i, e, cx);
                 }
             template <typename X, typename T, typename Fs, typename II, typename Cx, std::size_t N> // read_field static method of T
-                inline auto read_field_(option<2>, T& t, const char* name, const Fs& fs, int (&st)[N], II& i, II e, Cx& cx)
+                inline auto read_field_(option<2>, T& t, const char* name, std::size_t nale, const Fs& fs, int (&st)[N], II& i, II e, Cx& cx)
                     -> decltype(T::template read_field<X>(t, name, 0, i, e, cx), bool())
                 {   CXON_ASSERT(!X::assume_unique_object_keys, "not supported");
-                    return T::template read_field<X>(t, name, std::char_traits<char>::length(name), i, e, cx);
+                    return T::template read_field<X>(t, name, nale, i, e, cx);
                 }
             template <typename X, typename T, typename Fs, typename II, typename Cx, std::size_t N> // read_field method of T
-                inline auto read_field_(option<3>, T& t, const char* name, const Fs& fs, int (&st)[N], II& i, II e, Cx& cx)
+                inline auto read_field_(option<3>, T& t, const char* name, std::size_t nale, const Fs& fs, int (&st)[N], II& i, II e, Cx& cx)
                     -> decltype(t.template read_field<X>(name, 0, i, e, cx), bool())
                 {   CXON_ASSERT(!X::assume_unique_object_keys, "not supported");
-                    return t.template read_field<X>(name, std::char_traits<char>::length(name), i, e, cx);
+                    return t.template read_field<X>(name, nale, i, e, cx);
                 }
         }
         template <typename X, typename T, typename Fs, typename II, typename Cx, std::size_t N>
-            inline bool read_field_(T& t, const char* name, const Fs& fs, int (&st)[N], II& i, II e, Cx& cx) {
+            inline bool read_field_(T& t, const char* name, std::size_t nale, const Fs& fs, int (&st)[N], II& i, II e, Cx& cx) {
                 using Y = unbind_traits_t<X, cio::key::simple_traits>;
-                return imp::read_field_<Y>(option<3>(), t, name, fs, st, i, e, cx);
+                return imp::read_field_<Y>(option<3>(), t, name, nale, fs, st, i, e, cx);
             }
 
         template <typename X, typename T, typename ...Fs, typename II, typename Cx>
@@ -313,15 +323,18 @@ namespace cxon { namespace cio { namespace cls {
                 int st[sizeof...(Fs)];
                     CXON_IF_CONSTEXPR (X::assume_unique_object_keys)
                         std::fill_n(st, sizeof...(Fs), 0);
-                for (char id[ids_len_max::constant<napa_type<Cx>>(64)]; ; ) {
+                constexpr std::size_t N = ids_len_max::constant<napa_type<Cx>>(64);
+                for (char id[N + 1]; ; ) {
                     if (!consume<X>(i, e, cx))
                         return false;
                     if (peek(i, e) == X::map::end)
                         return ++i, true;
                     II const o = i;
-                        if (!read_map_key<X>(id, i, e, cx))
+                        auto c = cxon::cnt::make_range_container(id, id + N);
+                        if (!read_map_key<X>(c, i, e, cx))
                             return rewind(i, o), false;
-                        if (!read_field_<X>(t, id, fs, st, i, e, cx))
+                        id[c.size()] = '\0';
+                        if (!read_field_<X>(t, id, c.size(), fs, st, i, e, cx))
                             return cx && (rewind(i, o), cx/X::read_error::unexpected);
                         if (cnt::consume_sep<X, typename X::map>(i, e, cx)) {
                             CXON_IF_CONSTEXPR (!X::allow_trailing_separators && X::map::sep != ' ') {
@@ -345,11 +358,14 @@ namespace cxon { namespace cio { namespace cls {
                 int st[sizeof...(Fs)];
                     CXON_IF_CONSTEXPR (X::assume_unique_object_keys)
                         std::fill_n(st, sizeof...(Fs), 0);
-                for (char id[ids_len_max::constant<napa_type<Cx>>(64)]; i != e && *i; ) {
+                constexpr std::size_t N = ids_len_max::constant<napa_type<Cx>>(64);
+                for (char id[N + 1]; i != e && *i; ) {
                     II const o = i;
-                        if (!read_map_key<X>(id, i, e, cx))
+                        auto c = cxon::cnt::make_range_container(id, id + N);
+                        if (!read_map_key<X>(c, i, e, cx))
                             return false;
-                        if (!read_field_<X>(t, id, fs, st, i, e, cx))
+                        id[c.size()] = '\0';
+                        if (!read_field_<X>(t, id, c.size(), fs, st, i, e, cx))
                             return cx && (rewind(i, o), cx/X::read_error::unexpected);
                         if (!consume<X>(i, e, cx))
                             return false;
diff --git a/src/cxon/lang/common/cio/key.hxx b/src/cxon/lang/common/cio/key.hxx
index 4aa6cec..ab8ccf5 100644
--- a/src/cxon/lang/common/cio/key.hxx
+++ b/src/cxon/lang/common/cio/key.hxx
@@ -14,6 +14,8 @@ namespace cxon { namespace cio { // key read/write helpers: <key>:
 
     template <typename X, typename T, typename II, typename Cx>
         inline bool read_map_key(T& t, II& i, II e, Cx& cx);
+    template <typename X, typename T, typename II, typename Cx>
+        inline auto read_map_key(cxon::cnt::range_container<T*>& c, II& i, II e, Cx& cx) -> enable_if_t<is_char<T>::value, bool>;
 
     template <typename X, typename T, typename O, typename Cx>
         inline bool write_map_key(O& o, const T& t, Cx& cx);
@@ -54,6 +56,14 @@ namespace cxon { namespace cio {
         inline bool read_map_key(T& t, II& i, II e, Cx& cx) {
             return key::read<X, T>::key(t, i, e, cx) && consume<X>(X::map::div, i, e, cx);
         }
+    template <typename X, typename T, typename II, typename Cx>
+        inline auto read_map_key(cxon::cnt::range_container<T*>& c, II& i, II e, Cx& cx)
+            -> enable_if_t<is_char<T>::value, bool>
+        {
+            using Y = conditional_t<X::unquote_quoted_keys, quoted_key_context<X>, X>;
+            using Z = replace_traits_t<Y, key::simple_traits, str::raw_traits>;
+            return consume<Z>(i, e, cx) && str::string_read<Z>(c, i, e, cx) && consume<X>(X::map::div, i, e, cx);
+        }
 
     template <typename X, typename T, typename O, typename Cx>
         inline bool write_map_key(O& o, const T& t, Cx& cx) {
-- 
2.43.0


From 6188e60ff210708265f06d7d924f36ce504dbf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:52 +0000
Subject: [PATCH 26/43] fix: cbor: names of fields longer than the identifier
 buffer were compared past its end

---
 src/cxon/lang/cbor/class.hxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cxon/lang/cbor/class.hxx b/src/cxon/lang/cbor/class.hxx
index 75f2786..a4eb3e6 100644
--- a/src/cxon/lang/cbor/class.hxx
+++ b/src/cxon/lang/cbor/class.hxx
@@ -120,9 +120,9 @@ namespace cxon { namespace cbor { namespace cls {
 
         template <typename X, std::size_t N, std::size_t L>
             struct read_ {
-                template <typename T, typename Fs, typename II, typename Cx>
-                    static bool field(T& t, const char* name, const Fs& fs, int (&st)[L], II& i, II e, Cx& cx) {
-                        return st[N] == 0 && std::char_traits<char>::compare(std::get<N>(fs).name, name, std::get<N>(fs).nale + 1) == 0 ?
+                template <typename T, std::size_t S, typename Fs, typename II, typename Cx>
+                    static bool field(T& t, const char (&name)[S], const Fs& fs, int (&st)[L], II& i, II e, Cx& cx) {
+                        return st[N] == 0 && std::get<N>(fs).nale < S && std::char_traits<char>::compare(std::get<N>(fs).name, name, std::get<N>(fs).nale + 1) == 0 ?
                             (st[N] = 1, read_field<X>(t, std::get<N>(fs), i, e, cx)) :
                             read_<X, N + 1, L>::field(t, name, fs, st, i, e, cx)
                         ;
@@ -136,8 +136,8 @@ namespace cxon { namespace cbor { namespace cls {
                     }
             };
 
-        template <typename X, std::size_t N, typename T, typename Fs, typename II, typename Cx>
-            constexpr bool read_field_(T& t, const char* name, const Fs& fs, int (&st)[N], II& i, II e, Cx& cx) {
+        template <typename X, std::size_t N, typename T, std::size_t S, typename Fs, typename II, typename Cx>
+            constexpr bool read_field_(T& t, const char (&name)[S], const Fs& fs, int (&st)[N], II& i, II e, Cx& cx) {
                 return read_<X, 0, N>::field(t, name, fs, st, i, e, cx);
             }
 
-- 
2.43.0


From 76873f3d0c42c1eff5be87ab479f7ec9eeff8ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:17 +0000
Subject: [PATCH 27/43] fix: json: an incomplete null in front of a string was
 accepted for character pointers; null did not reset them

---
 src/cxon/lang/common/cio/string.hxx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/common/cio/string.hxx b/src/cxon/lang/common/cio/string.hxx
index 758c612..d53eb62 100644
--- a/src/cxon/lang/common/cio/string.hxx
+++ b/src/cxon/lang/common/cio/string.hxx
@@ -211,8 +211,14 @@ namespace cxon { namespace cio { namespace str {
         {
             if (!consume<X>(i, e, cx))
                 return false;
-            if (peek(i, e) == *X::id::nil && consume<X>(X::id::nil, i, e))
-                return true;
+            if (peek(i, e) == *X::id::nil) {
+                II const o = i;
+                    if (consume<X>(X::id::nil, i, e))
+                        return t = nullptr, true;
+                CXON_IF_CONSTEXPR (!is_key_context<X>::value)
+                    return cx/X::read_error::unexpected;
+                rewind(i, o);
+            }
             auto c = cxon::cnt::make_pointer_container<X, T>(cx);
             return string_read<X>(c, i, e, cx) && (c.push_back({}), t = c.release(), true);
         }
-- 
2.43.0


From 42b3a948055fe82c3b07a1ffdbef2e7539d43f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:17 +0000
Subject: [PATCH 28/43] fix: json: bit sets accepted whitespace before the
 closing quote

---
 src/cxon/lang/json/lib/boost/dynamic_bitset.hxx | 2 +-
 src/cxon/lang/json/lib/std/bitset.hxx           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx b/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx
index 275d243..4a3d333 100644
--- a/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx
+++ b/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx
@@ -45,7 +45,7 @@ namespace cxon {
                 static bool value(boost::dynamic_bitset<B, A>& t, II& i, II e, Cx& cx) {
                     return  cio::consume<Y>(cio::str::delim_be_read<Y, II>, i, e, cx) &&
                                 json::imp::read_bits_<Y>(t, i, e, cx) &&
-                            cio::consume<Y>(cio::str::delim_en_read<Y, II>, i, e, cx)
+                            (cio::str::delim_en_read<Y>(i, e) || cx/json::read_error::unexpected)
                     ;
                 }
         };
diff --git a/src/cxon/lang/json/lib/std/bitset.hxx b/src/cxon/lang/json/lib/std/bitset.hxx
index 1e0938c..cf401eb 100644
--- a/src/cxon/lang/json/lib/std/bitset.hxx
+++ b/src/cxon/lang/json/lib/std/bitset.hxx
@@ -45,7 +45,7 @@ namespace cxon {
                 static bool value(std::bitset<N>& t, II& i, II e, Cx& cx) {
                     return  cio::consume<Y>(cio::str::delim_be_read<Y, II>, i, e, cx) &&
                                 json::imp::read_bits_<Y>(t, i, e, cx) &&
-                            cio::consume<Y>(cio::str::delim_en_read<Y, II>, i, e, cx)
+                            (cio::str::delim_en_read<Y>(i, e) || cx/json::read_error::unexpected)
                     ;
                 }
         };
-- 
2.43.0


From eb6ebfb4b06862928faa3737ab434433570aa41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:50 +0000
Subject: [PATCH 29/43] fix: json: a slash that starts no comment was skipped
 behind a comment

---
 src/cxon/lang/common/cio/io.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/cio/io.hxx b/src/cxon/lang/common/cio/io.hxx
index fa82ec5..4309ea0 100644
--- a/src/cxon/lang/common/cio/io.hxx
+++ b/src/cxon/lang/common/cio/io.hxx
@@ -130,7 +130,7 @@ namespace cxon { namespace cio { // input
                         default:
                             return false;
                     }
-                    consume_<X>(i, e);
+                    return consume_<X>(i, e);
                 }
                 return true;
             }
-- 
2.43.0


From 9e0577165da4c72876994f720cb9a10fe4ced0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:50 +0000
Subject: [PATCH 30/43] fix: cxcf: unquoted keys with a closing brace or a
 slash did not read back

---
 src/cxon/lang/common/cio/char.hxx | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/common/cio/char.hxx b/src/cxon/lang/common/cio/char.hxx
index c906cfe..be323cc 100644
--- a/src/cxon/lang/common/cio/char.hxx
+++ b/src/cxon/lang/common/cio/char.hxx
@@ -399,9 +399,9 @@ namespace cxon { namespace cio { namespace chr {
             }
         static constexpr char should_escape_quoted_key_context_[] = {
             1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1, 1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,
-            1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0, 0,0,0,0,0,0,0,0,0,0,1,0,0,1,0,0,
+            1,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1, 0,0,0,0,0,0,0,0,0,0,1,0,0,1,0,0,
             0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0, 0,0,0,0,0,0,0,0,0,0,0,0,1,0,0,0,
-            0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0, 0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
+            0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0, 0,0,0,0,0,0,0,0,0,0,0,0,0,1,0,0,
             0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0, 0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
             0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0, 0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
             0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0, 0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
@@ -458,6 +458,14 @@ namespace cxon { namespace cio { namespace chr {
                                 CXON_IF_CONSTEXPR (is_quoted_key_context<X>::value && X::map::div == '=')
                                         return poke<X>(o, "\\=", 2, cx);
                                 else    return poke<X>(o, '=', cx);
+                            case '/' :
+                                CXON_IF_CONSTEXPR (is_quoted_key_context<X>::value && X::allow_comments)
+                                        return poke<X>(o, "\\/", 2, cx);
+                                else    return poke<X>(o, '/', cx);
+                            case '}' :
+                                CXON_IF_CONSTEXPR (is_quoted_key_context<X>::value)
+                                        return poke<X>(o, "\\u007d", 6, cx);
+                                else    return poke<X>(o, '}', cx);
                             case '\\':  return poke<X>(o, "\\\\", 2, cx);
                             default  :  return poke<X>(o, c, cx);
                         }
-- 
2.43.0


From a74d555981eb9371dbf9e57d1c74c1329ade5876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:50 +0000
Subject: [PATCH 31/43] fix: json: boost bit sets of more than two blocks were
 read wrong

---
 src/cxon/lang/json/lib/boost/dynamic_bitset.hxx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx b/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx
index 4a3d333..d5276ac 100644
--- a/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx
+++ b/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx
@@ -16,11 +16,10 @@ namespace cxon { namespace json { namespace imp {
         inline bool read_bits_(BS& t, II& i, II e, Cx&) {
             using st = typename BS::size_type;
             constexpr st u = sizeof(typename BS::block_type) * 8;
-            st p = u;
-            t.resize(t.size() + u);
+            st p = 0;
             for ( ; i != e && (*i == '1' || *i == '0'); ++i) {
                 if (p == 0)
-                    t.resize(t.size() * 2), t <<= u, p = u;
+                    t.resize(t.size() + u), t <<= u, p = u;
                 --p;
                 if (*i == '1') t.set(p);
             }
-- 
2.43.0


From 054911dcd7bb923ea142114f8f05ddd712c8b3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:50 +0000
Subject: [PATCH 32/43] fix: cbor: boost bit sets: empty and truncated strings,
 wrong padding and filled targets

---
 src/cxon/lang/cbor/lib/boost/dynamic_bitset.hxx | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/cxon/lang/cbor/lib/boost/dynamic_bitset.hxx b/src/cxon/lang/cbor/lib/boost/dynamic_bitset.hxx
index e24d2aa..a23d89c 100644
--- a/src/cxon/lang/cbor/lib/boost/dynamic_bitset.hxx
+++ b/src/cxon/lang/cbor/lib/boost/dynamic_bitset.hxx
@@ -19,16 +19,17 @@ namespace cxon {
                         std::size_t N;
                         if (!cbor::cnt::read_size<X>(N, i, e, cx))
                             return false;
-                        if (i == e)
+                        if (i == e || N == 0)
                             return cx/cbor::read_error::unexpected;
                         bio::byte const S = *i;
-                        t.resize(t.size() + --N * 8);
-                            for (++i; N != 0 && i != e; --N, ++i) {
-                                bio::byte const b = *i; t <<= 8;
-                                t.set(7, b & 0x80); t.set(6, b & 0x40); t.set(5, b & 0x20); t.set(4, b & 0x10);
-                                t.set(3, b & 0x08); t.set(2, b & 0x04); t.set(1, b & 0x02); t.set(0, b & 0x01);
+                            if (S > 7 || (S != 0 && N == 1))
+                                return cx/cbor::read_error::unexpected;
+                        int n = 8 - S;
+                            for (++i, --N; N != 0 && i != e; --N, ++i, n = 8) {
+                                bio::byte const b = *i;
+                                t.resize(t.size() + n), t <<= n;
+                                for (int p = 0; p != n; ++p) t.set(p, (b >> p) & 1);
                             }
-                        t.resize(t.size() - S);
                         return N == 0 || cx/cbor::read_error::unexpected;
                     }
                     default:
-- 
2.43.0


From 0705ed4f075d1326fa3a9a963ad9ccb0c6b84a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:12 +0000
Subject: [PATCH 33/43] fix: cbor: input wider than the target type triggered
 assertions in debug builds

---
 src/cxon/lang/common/bio/io.hxx | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/cxon/lang/common/bio/io.hxx b/src/cxon/lang/common/bio/io.hxx
index 04866e7..ba98db9 100644
--- a/src/cxon/lang/common/bio/io.hxx
+++ b/src/cxon/lang/common/bio/io.hxx
@@ -151,7 +151,6 @@ namespace cxon { namespace bio {
             inline bool be_to_i_(const buffer_<2, II>& bs, T& t) {
                 using R = std::uint_fast32_t;
                 R const x = (R(bs[1])<< 0) | (R(bs[0])<< 8) ;
-                CXON_ASSERT(sizeof(T) >= 2, "narrowing");
                 return sizeof(T) >= 2 && (t = T(x), true);
             }
         // coverity[ -tainted_data_return ]
@@ -161,7 +160,6 @@ namespace cxon { namespace bio {
                 using R = std::uint_fast32_t;
                 R const x = (R(bs[3])<< 0) | (R(bs[2])<< 8) |
                             (R(bs[1])<<16) | (R(bs[0])<<24) ;
-                CXON_ASSERT(sizeof(T) >= 4, "narrowing");
                 return sizeof(T) >= 4 && (t = T(x), true);
             }
         // coverity[ -tainted_data_return ]
@@ -173,7 +171,6 @@ namespace cxon { namespace bio {
                             (R(bs[5])<<16) | (R(bs[4])<<24) |
                             (R(bs[3])<<32) | (R(bs[2])<<40) |
                             (R(bs[1])<<48) | (R(bs[0])<<56) ;
-                CXON_ASSERT(sizeof(T) >= 8, "narrowing"); // LCOV_EXCL_LINE
                 return sizeof(T) >= 8 && (t = T(x), true);
             }
 
@@ -192,7 +189,6 @@ namespace cxon { namespace bio {
         template <typename T, typename II>
             inline T be_to_fp_(const buffer_<4, II>& bs) {
                 using R = unsigned long;
-                CXON_ASSERT(sizeof(R) <= sizeof(T), "narrowing");
                 union { R i; float f; } u;
                 u.i =   (R(bs[3])<< 0) | (R(bs[2])<< 8) |
                         (R(bs[1])<<16) | (R(bs[0])<<24)
@@ -202,7 +198,6 @@ namespace cxon { namespace bio {
         template <typename T, typename II>
             inline T be_to_fp_(const buffer_<8, II>& bs) {
                 using R = unsigned long long;
-                CXON_ASSERT(sizeof(R) <= sizeof(T), "narrowing");
                 union { R i; double f; } u;
                 u.i =   (R(bs[7])<< 0) | (R(bs[6])<< 8) |
                         (R(bs[5])<<16) | (R(bs[4])<<24) |
-- 
2.43.0


From 1b46fd4af9d4a165bbf291a7b05a6b73e1bca768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:12 +0000
Subject: [PATCH 34/43] fix: cbor: a class that could not be read returned an
 uninitialised value

---
 src/cxon/lang/cbor/class.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/cbor/class.hxx b/src/cxon/lang/cbor/class.hxx
index a4eb3e6..7c82cd5 100644
--- a/src/cxon/lang/cbor/class.hxx
+++ b/src/cxon/lang/cbor/class.hxx
@@ -155,8 +155,9 @@ namespace cxon { namespace cbor { namespace cls {
                         if (!imp::read_field_<X>(t, id, fs, st, i, e, cx))
                             return cx && (bio::rewind(i, o), cx/cbor::read_error::unexpected);
                 }
+                return true;
             }
-            return n == 0;
+            return false;
         }
 
     namespace imp {
-- 
2.43.0


From be0827faa6f84978397024b9369d746bf3b81102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:22 +0000
Subject: [PATCH 35/43] fix: node: move construction with an unequal allocator
 took memory of the other allocator

---
 src/cxon/lang/common/node-value.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/node-value.hxx b/src/cxon/lang/common/node-value.hxx
index 2ab8016..f78ac8c 100644
--- a/src/cxon/lang/common/node-value.hxx
+++ b/src/cxon/lang/common/node-value.hxx
@@ -114,7 +114,10 @@ namespace cxon { namespace value {
                     static auto move_construct(N& n, N&& o) noexcept
                         -> enable_if_t< is_dynamic_type<T>::value>
                     {
-                        get<T*>(n) = get<T*>(o), o.kind_ = N::kind_default_;
+                        if (n.alloc_ == o.alloc_) // TODO: likely
+                            get<T*>(n) = get<T*>(o), o.kind_ = N::kind_default_;
+                        else
+                            construct<T>(n, std::move(get<T>(o)));
                     }
             // move assign
                 template <typename T>
-- 
2.43.0


From 298f3a9f1dad70b973775c8070f47dbf175b0eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:18 +0000
Subject: [PATCH 36/43] fix: node: assignment destroyed the value before
 reading a source that is the node itself or a part of it

---
 src/cxon/lang/common/node-value.hxx | 139 +++++-----------------------
 1 file changed, 24 insertions(+), 115 deletions(-)

diff --git a/src/cxon/lang/common/node-value.hxx b/src/cxon/lang/common/node-value.hxx
index f78ac8c..a09fa3a 100644
--- a/src/cxon/lang/common/node-value.hxx
+++ b/src/cxon/lang/common/node-value.hxx
@@ -119,75 +119,22 @@ namespace cxon { namespace value {
                         else
                             construct<T>(n, std::move(get<T>(o)));
                     }
-            // move assign
-                template <typename T>
+            // move assign (the source could be the target or a part of it)
+                template <typename T, typename P = propagate_on_container_move_assignment>
                     static auto move_assign(N& n, N&& o) noexcept(std::is_nothrow_move_constructible<T>::value)
-                        -> enable_if_t<!is_dynamic_type<T>::value &&  propagate_on_container_move_assignment::value, N&>
+                        -> enable_if_t< P::value, N&>
                     {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T(), n.alloc_ = std::move(o.alloc_);
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, std::move(get<T>(o)));
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_, n.alloc_ = std::move(o.alloc_);
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, std::move(get<T>(o)));
-                        }
-                        return n;
-                    }
-                template <typename T>
-                    static auto move_assign(N& n, N&& o) noexcept
-                        -> enable_if_t< is_dynamic_type<T>::value &&  propagate_on_container_move_assignment::value, N&>
-                    {
-                        if (n.kind_ == o.kind_) {
-                            destruct<T>(n), n.alloc_ = std::move(o.alloc_);
-                            get<T*>(n) = get<T*>(o), o.kind_ = N::kind_default_;
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_, n.alloc_ = std::move(o.alloc_);
-                            get<T*>(n) = get<T*>(o), o.kind_ = N::kind_default_;
-                        }
-                        return n;
+                        N t(std::move(o));
+                        n.reset(), n.alloc_ = t.alloc_, n.kind_ = t.kind_;
+                        return move_construct<T>(n, std::move(t)), n;
                     }
-                template <typename T>
+                template <typename T, typename P = propagate_on_container_move_assignment>
                     static auto move_assign(N& n, N&& o)
-                        noexcept(std::is_nothrow_move_constructible<T>::value && std::is_nothrow_move_constructible<T>::value)
-                        -> enable_if_t<!is_dynamic_type<T>::value && !propagate_on_container_move_assignment::value, N&>
+                        -> enable_if_t<!P::value, N&>
                     {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T();
-                            if (n.alloc_ == o.alloc_) // TODO: likely
-                                alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, std::move(get<T>(o)));
-                            else
-                                alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_;
-                            if (n.alloc_ == o.alloc_) // TODO: likely
-                                alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, std::move(get<T>(o)));
-                            else
-                                alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        return n;
-                    }
-                template <typename T>
-                    static auto move_assign(N& n, N&& o)
-                        -> enable_if_t< is_dynamic_type<T>::value && !propagate_on_container_move_assignment::value, N&>
-                    {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T();
-                            if (n.alloc_ == o.alloc_) // TODO: likely
-                                alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, std::move(get<T>(o)));
-                            else
-                                alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_;
-                            if (n.alloc_ == o.alloc_) // TODO: likely
-                                construct<T>(n, std::move(get<T>(o)));
-                            else
-                                construct<T>(n, get<T>(o));
-                        }
-                        return n;
+                        N t(std::move(o), n.alloc_);
+                        n.reset(), n.kind_ = t.kind_;
+                        return move_construct<T>(n, std::move(t)), n;
                     }
             // copy construct
                 template <typename T>
@@ -208,62 +155,24 @@ namespace cxon { namespace value {
                     {
                         construct<T>(n, get<T>(o));
                     }
-            // copy assign
-                template <typename T>
-                    static auto copy_assign(N& n, const N& o) noexcept(std::is_nothrow_copy_constructible<T>::value)
-                        -> enable_if_t<!is_dynamic_type<T>::value &&  propagate_on_container_copy_assignment::value, N&>
-                    {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T(), n.alloc_ = o.alloc_;
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_, n.alloc_ = o.alloc_;
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        return n;
-                    }
-                template <typename T>
+            // copy assign (the source could be the target or a part of it)
+                template <typename T, typename P = propagate_on_container_copy_assignment>
                     static auto copy_assign(N& n, const N& o)
-                        -> enable_if_t< is_dynamic_type<T>::value &&  propagate_on_container_copy_assignment::value, N&>
+                        noexcept(!is_dynamic_type<T>::value && std::is_nothrow_copy_constructible<T>::value)
+                        -> enable_if_t< P::value, N&>
                     {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T(), n.alloc_ = o.alloc_;
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_, n.alloc_ = o.alloc_;
-                            construct<T>(n, get<T>(o));
-                        }
-                        return n;
+                        N t(o, o.alloc_);
+                        n.reset(), n.alloc_ = t.alloc_, n.kind_ = t.kind_;
+                        return move_construct<T>(n, std::move(t)), n;
                     }
-                template <typename T>
-                    static auto copy_assign(N& n, const N& o) noexcept(std::is_nothrow_copy_constructible<T>::value)
-                        -> enable_if_t<!is_dynamic_type<T>::value && !propagate_on_container_copy_assignment::value, N&>
-                    {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T();
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_;
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        return n;
-                    }
-                template <typename T>
+                template <typename T, typename P = propagate_on_container_copy_assignment>
                     static auto copy_assign(N& n, const N& o)
-                        -> enable_if_t< is_dynamic_type<T>::value && !propagate_on_container_copy_assignment::value, N&>
+                        noexcept(!is_dynamic_type<T>::value && std::is_nothrow_copy_constructible<T>::value)
+                        -> enable_if_t<!P::value, N&>
                     {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T();
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_;
-                            construct<T>(n, get<T>(o));
-                        }
-                        return n;
+                        N t(o, n.alloc_);
+                        n.reset(), n.kind_ = t.kind_;
+                        return move_construct<T>(n, std::move(t)), n;
                     }
             // construct
                 template <typename T, typename ...A>
-- 
2.43.0


From b22715bf3907e6b5b5cdf648d50a8eda20acd359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:08 +0000
Subject: [PATCH 37/43] fix: cbor: invalid simple values in two bytes were read
 (and could not be written)

---
 src/cxon/lib/node.cbor.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lib/node.cbor.hxx b/src/cxon/lib/node.cbor.hxx
index 6509bbe..8c7476a 100644
--- a/src/cxon/lib/node.cbor.hxx
+++ b/src/cxon/lib/node.cbor.hxx
@@ -152,7 +152,7 @@ namespace cxon {
                                 case 0x0A: case 0x0B: case 0x0C: case 0x0D: case 0x0E: case 0x0F: case 0x10: case 0x11: case 0x12: case 0x13:
                                     return  (t = T(b & Y::mnr), true);
                                 case 0x18:
-                                    return  (bio::get(t.value, 1, i, e)) ||
+                                    return  (bio::get(t.value, 1, i, e) && (t.value < 0x14 || t.value == 0x18 || t.value > 0x1F)) || // see write
                                             (bio::rewind(i, o), cx/cbor::read_error::unexpected)
                                     ;
                                 case 0x14: case 0x15: case 0x16: case 0x17:
-- 
2.43.0


From dcc4e9abcc3c15b8660f86b713cf9b75daa567b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:08 +0000
Subject: [PATCH 38/43] fix: node: nested CBOR tags were read into a JSON node
 without recursion limit

---
 src/cxon/lib/node.cbor.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lib/node.cbor.hxx b/src/cxon/lib/node.cbor.hxx
index 8c7476a..fb864f2 100644
--- a/src/cxon/lib/node.cbor.hxx
+++ b/src/cxon/lib/node.cbor.hxx
@@ -217,7 +217,7 @@ namespace cxon {
                                 case X::tstr            :                       return read_value<Y>(CXON_IMBUE(string),        i, e, cx);
                                 case X::arr             : { CXON_NODE_RG();     return read_value<Y>(CXON_IMBUE(array),         i, e, cx); }
                                 case X::map             : { CXON_NODE_RG();     return read_value<Y>(CXON_IMBUE(object),        i, e, cx); }
-                                case X::tag             :                       return cbor::tag::read<Y>(i, e, cx) && value(t, i, e, cx);
+                                case X::tag             : { CXON_NODE_RG();     return cbor::tag::read<Y>(i, e, cx) && value(t, i, e, cx); }
                                 case X::svn:
                                     switch (b) {
                                         case X::neg: case X::pos
-- 
2.43.0


From 735367357212d6dd7b7598cb6dab5605547ab875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:50 +0000
Subject: [PATCH 39/43] fix: node: a number with an empty exponent was accepted

---
 src/cxon/lib/node.json.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lib/node.json.hxx b/src/cxon/lib/node.json.hxx
index 4346189..837bd02 100644
--- a/src/cxon/lib/node.json.hxx
+++ b/src/cxon/lib/node.json.hxx
@@ -95,7 +95,9 @@ namespace cxon {
 
         template <typename X, typename T, typename II, typename Cx>
             inline bool read_number_value_(T& t, II i, II e, Cx& cx) {
-                return read_value<X>(t, i, e, cx);
+                return  read_value<X>(t, i, e, cx) &&
+                        (i == e || *i == '\0' || cx/X::read_error::floating_point_invalid)
+                ;
             }
 
         template <typename T, typename C, bool S = std::is_signed<T>::value>
-- 
2.43.0


From 5dad3622a4de77670f209156337354fbe1817034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:06 +0000
Subject: [PATCH 40/43] fix: json: strict integers through pointers took digits
 behind a negative zero for part of the number

---
 src/cxon/lang/common/cio/numeric.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cxon/lang/common/cio/numeric.hxx b/src/cxon/lang/common/cio/numeric.hxx
index 73e1afd..1a2d6a0 100644
--- a/src/cxon/lang/common/cio/numeric.hxx
+++ b/src/cxon/lang/common/cio/numeric.hxx
@@ -69,6 +69,7 @@ namespace cxon { namespace cio { namespace num { // read
                     goto trap_end;
                 trap_neg:
                     c = next(i, e);
+                    if (c == '0') return ++i, 1;
                        if (!chr::is<X>::digit10(c)) return 0;
                     while ( chr::is<X>::digit10(c)) c = next(i, e);
                 trap_end:
-- 
2.43.0


From 64de9827b502d9eadc4cef44914e5bea0b61d897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:07 +0000
Subject: [PATCH 41/43] fix: io: blocks were written behind the end of a range
 of another character type

---
 src/cxon/lang/common/container.hxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cxon/lang/common/container.hxx b/src/cxon/lang/common/container.hxx
index eeb6260..e1e0a27 100644
--- a/src/cxon/lang/common/container.hxx
+++ b/src/cxon/lang/common/container.hxx
@@ -363,9 +363,10 @@ namespace cxon { namespace cnt {
                     for ( ; f != l && e_ != l_; ++f) push_back(*f);
                     return f == l;
                 }
-            bool append(const value_type* t, std::size_t n) noexcept {
-                return append(t, t + n);
-            }
+            template <typename T>
+                bool append(const T* t, std::size_t n) noexcept {
+                    return append(t, t + n);
+                }
 
             bool append(unsigned n, const value_type& t) noexcept {
                 return  n <= static_cast<std::size_t>(std::distance(e_, l_)) &&
-- 
2.43.0


From e9a5f2e26cae72cb36f552ca80697449b633e7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:22 +0000
Subject: [PATCH 42/43] fix: a smart pointer read from CBOR holds exactly one
 object

---
 src/cxon/lang/cbor/lib/std/memory.hxx | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/cxon/lang/cbor/lib/std/memory.hxx b/src/cxon/lang/cbor/lib/std/memory.hxx
index 687964f..dd680f0 100644
--- a/src/cxon/lang/cbor/lib/std/memory.hxx
+++ b/src/cxon/lang/cbor/lib/std/memory.hxx
@@ -7,6 +7,24 @@
 #define CXON_CBOR_LIB_STD_MEMORY_HXX_
 
 #include "cxon/lang/common/allocator.hxx"
+#include "cxon/lang/cbor/compound.hxx"
+
+namespace cxon { namespace cbor { namespace imp {
+
+    // a smart pointer owns exactly one object (or a zero-terminated text), hence not an array of T
+    template <typename X, typename T, typename II, typename Cx>
+        inline auto read_pointee_(T*& t, II& i, II e, Cx& cx) -> enable_if_t<!is_char<T>::value, bool> {
+            typename X::tag_type tag;
+            return  tag::read<X>(tag, i, e, cx) &&
+                    read_pointer_t_<X>(t, i, e, cx)
+            ;
+        }
+    template <typename X, typename T, typename II, typename Cx>
+        inline auto read_pointee_(T*& t, II& i, II e, Cx& cx) -> enable_if_t< is_char<T>::value, bool> {
+            return read_value<X>(t, i, e, cx);
+        }
+
+}}}
 
 namespace cxon {
 
@@ -15,7 +33,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(std::unique_ptr<T, D>& t, II& i, II e, Cx& cx) {
                         T* p;
-                    return read_value<Y>(p, i, e, cx) && (t.reset(p), true);
+                    return cbor::imp::read_pointee_<Y>(p, i, e, cx) && (t.reset(p), true);
                 }
         };
 
@@ -34,9 +52,9 @@ namespace cxon {
                     auto al = alc::make_context_allocator<T>(cx);
                         T* p;
 #                   if __cplusplus < 201402L
-                        return read_value<Y>(p, i, e, cx) && (t.reset(p, [al](T* p) mutable { al.release(p); }), true);
+                        return cbor::imp::read_pointee_<Y>(p, i, e, cx) && (t.reset(p, [al](T* p) mutable { al.release(p); }), true);
 #                   else
-                        return read_value<Y>(p, i, e, cx) && (t.reset(p, [al = std::move(al)](T* p) mutable { al.release(p); }), true);
+                        return cbor::imp::read_pointee_<Y>(p, i, e, cx) && (t.reset(p, [al = std::move(al)](T* p) mutable { al.release(p); }), true);
 #                   endif
                 }
         };
-- 
2.43.0


From c477c174f4692ae0b5c3cc2ab4320ad77f5c9da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:22 +0000
Subject: [PATCH 43/43] fix: a tagged CBOR node takes its memory from the
 allocator of the node it is in

---
 src/cxon/lang/cbor/node/node.hxx | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/cxon/lang/cbor/node/node.hxx b/src/cxon/lang/cbor/node/node.hxx
index 91b4d8a..b283df8 100644
--- a/src/cxon/lang/cbor/node/node.hxx
+++ b/src/cxon/lang/cbor/node/node.hxx
@@ -680,6 +680,33 @@ namespace cxon { namespace cbor { // helpers
             {
             }
 
+            // allocator-extended (T is an allocator-aware type)
+            template <typename Al, typename = enable_if_t<std::uses_allocator<T, Al>::value>>
+                explicit taggle(const Al& al)
+                :   tag(-1), value(al)
+                {
+                }
+            template <typename Al, typename = enable_if_t<std::uses_allocator<T, Al>::value>>
+                taggle(N n, T&& t, const Al& al)
+                :   tag(n), value(std::move(t), al)
+                {
+                }
+            template <typename Al, typename = enable_if_t<std::uses_allocator<T, Al>::value>>
+                taggle(N n, const T& t, const Al& al)
+                :   tag(n), value(t, al)
+                {
+                }
+            template <typename Al, typename = enable_if_t<std::uses_allocator<T, Al>::value>>
+                taggle(taggle&& t, const Al& al)
+                :   tag(t.tag), value(std::move(t.value), al)
+                {
+                }
+            template <typename Al, typename = enable_if_t<std::uses_allocator<T, Al>::value>>
+                taggle(const taggle& t, const Al& al)
+                :   tag(t.tag), value(t.value, al)
+                {
+                }
+
             ~taggle() = default;
 
             taggle(taggle&& t) noexcept(std::is_nothrow_move_constructible<T>::value)
-- 
2.43.0

