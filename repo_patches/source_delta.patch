From 776a38d76fa56898ef7f5bff93e9e801b7014aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:21 +0000
Subject: [PATCH 001/157] fix: CSS highlighter hangs or fails on truncated or
 ill-formed UTF-8

---
 src/main/cpp/lang/css.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index 1a895b2..9c94b03 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <cstddef>
 #include <memory_resource>
 #include <string_view>
@@ -98,7 +99,7 @@ std::size_t match_escaped_code_point(std::u8string_view str)
         }
         return length;
     }
-    return std::size_t(utf8::sequence_length(str[0]));
+    return std::min(str.length(), std::size_t(utf8::sequence_length(str[0], 1)));
 }
 
 std::size_t match_ident_sequence(std::u8string_view str)
@@ -398,7 +399,7 @@ public:
                     consume_ident_like_token(contextual_highlight_type);
                 }
                 else {
-                    advance(std::size_t(utf8::sequence_length(c)));
+                    advance(std::min(remainder.length(), std::size_t(utf8::sequence_length(c, 1))));
                 }
                 break;
             }
-- 
2.43.0


From 766fb0a08e02e32378f3651505cb82252a522bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:21 +0000
Subject: [PATCH 002/157] fix: C++ character literal with truncated UTF-8
 reaches beyond the source

---
 src/main/cpp/lang/cpp.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/cpp.cpp b/src/main/cpp/lang/cpp.cpp
index e50a9c4..61fd998 100644
--- a/src/main/cpp/lang/cpp.cpp
+++ b/src/main/cpp/lang/cpp.cpp
@@ -811,7 +811,9 @@ public:
                 fresh_line = true;
                 return;
             }
-            const auto code_units = std::size_t(utf8::sequence_length(source[index], 1));
+            const auto code_units = std::min(
+                remainder().length(), std::size_t(utf8::sequence_length(source[index], 1))
+            );
             chars_length += code_units;
             advance(code_units);
         }
-- 
2.43.0


From d017893bf9181bc827d5be0a538d454b4a3ae00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:21 +0000
Subject: [PATCH 003/157] fix: Lua highlighter emits an empty token for an
 empty long bracket

---
 src/main/cpp/lang/lua.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/main/cpp/lang/lua.cpp b/src/main/cpp/lang/lua.cpp
index 9c048ad..69a8719 100644
--- a/src/main/cpp/lang/lua.cpp
+++ b/src/main/cpp/lang/lua.cpp
@@ -589,10 +589,11 @@ bool highlight_lua(
                 : 0;
 
             emit(index, prefix_length, Highlight_Type::comment_delim);
-            emit(
-                index + prefix_length, block_comment.length - prefix_length - closing_delim_length,
-                Highlight_Type::comment
-            );
+            const std::size_t content_length
+                = block_comment.length - prefix_length - closing_delim_length;
+            if (content_length != 0) {
+                emit(index + prefix_length, content_length, Highlight_Type::comment);
+            }
 
             if (block_comment.is_terminated) {
                 emit(
@@ -627,10 +628,11 @@ bool highlight_lua(
                 }
 
                 emit(index, opening_delim_len, Highlight_Type::string);
-                emit(
-                    index + opening_delim_len,
-                    string.length - opening_delim_len - closing_delim_len, Highlight_Type::string
-                );
+                const std::size_t content_length
+                    = string.length - opening_delim_len - closing_delim_len;
+                if (content_length != 0) {
+                    emit(index + opening_delim_len, content_length, Highlight_Type::string);
+                }
 
                 if (string.terminated) {
                     emit(
-- 
2.43.0


From 57e50dd22edb05b06796823c7771925ac96e3d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:42 +0000
Subject: [PATCH 004/157] fix: Rust highlighter fails on a quoted sequence of
 several characters

---
 src/main/cpp/lang/rust.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index 4dedc55..403fcfc 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -584,9 +584,6 @@ private:
             else {
                 emit_result(raw_prefix.length(), id_length);
             }
-            // There should not be a closing apostrophe here because any such case would have
-            // been interpreted as a character literal already.
-            ULIGHT_DEBUG_ASSERT(!remainder.starts_with(u8'\''));
         }
         else {
             const std::size_t id_length = match_identifier(remainder.substr(1));
@@ -594,7 +591,6 @@ private:
                 return false;
             }
             emit_result(1, id_length);
-            ULIGHT_DEBUG_ASSERT(!remainder.starts_with(u8'\''));
         }
         return true;
     }
-- 
2.43.0


From a020da934dbed0b4f1a84aa29e4e3e827d89ccca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:13 +0000
Subject: [PATCH 005/157] fix: JavaScript string escape may reach beyond the
 string literal

---
 src/main/cpp/lang/js.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 7449ea1..eb55f8a 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -1284,7 +1284,8 @@ private:
         std::size_t remaining = content_length;
         while (remaining > 0) {
             if (remainder.starts_with(u8'\\')) {
-                if (const Escape_Result esc = match_escape_sequence(remainder)) {
+                if (const Escape_Result esc
+                    = match_escape_sequence(remainder.substr(0, remaining))) {
                     flush_chars();
                     emit_and_advance(
                         esc.length,
-- 
2.43.0


From a459ae9291f7cf4bad38f64513ce10bb872ca2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:13 +0000
Subject: [PATCH 006/157] fix: Markdown emits an empty token for an HTML
 comment opened at the end of a line

---
 src/main/cpp/lang/markdown.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/markdown.cpp b/src/main/cpp/lang/markdown.cpp
index 5e1f766..d055c13 100644
--- a/src/main/cpp/lang/markdown.cpp
+++ b/src/main/cpp/lang/markdown.cpp
@@ -830,7 +830,9 @@ private:
             return true;
         }
 
-        emit_and_advance(comment.length - html_comment_prefix.length(), Highlight_Type::comment);
+        if (comment.length > html_comment_prefix.length()) {
+            emit_and_advance(comment.length - html_comment_prefix.length(), Highlight_Type::comment);
+        }
         in_html_comment = true;
         return true;
     }
-- 
2.43.0


From 259e6f4248107b3a337c9487839acd4b67a4d133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 007/157] fix: HTML attribute value loses the character
 following a character reference

---
 src/main/cpp/lang/html.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index 3705701..e334cb6 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -454,7 +454,7 @@ private:
             }
         };
 
-        for (; piece_length < remainder.length(); ++piece_length) {
+        while (piece_length < remainder.length()) {
             const char8_t c = remainder[piece_length];
             if (is_html_unquoted_attribute_value_terminator(c)) {
                 flush();
@@ -464,7 +464,9 @@ private:
                 = match_character_reference(remainder.substr(piece_length))) {
                 flush();
                 emit_and_advance(ref_length, Highlight_Type::string_escape);
+                continue;
             }
+            ++piece_length;
         }
         flush();
         return true;
@@ -483,7 +485,7 @@ private:
             }
         };
 
-        for (; piece_length < remainder.length(); ++piece_length) {
+        while (piece_length < remainder.length()) {
             const char8_t c = remainder[piece_length];
             if (c == quote_char) {
                 ++piece_length;
@@ -494,7 +496,9 @@ private:
                 = match_character_reference(remainder.substr(piece_length))) {
                 flush();
                 emit_and_advance(ref_length, Highlight_Type::string_escape);
+                continue;
             }
+            ++piece_length;
         }
         flush();
         return true;
-- 
2.43.0


From 8fcea1ed18b99fef1f77acd485d4950faaabae40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 008/157] fix: HTML raw text miscounts a closing tag whose name
 merely has the expected prefix

---
 src/main/cpp/lang/html.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index e334cb6..ad060f7 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -104,8 +104,7 @@ std::size_t match_raw_text(std::u8string_view str, std::u8string_view closing_na
         if (is_html_whitespace(c) || c == u8'>' || c == u8'/') {
             return length;
         }
-        length += 2;
-        str.remove_prefix(2);
+        length = new_length;
     }
     return length;
 }
@@ -153,6 +152,7 @@ match_escapable_raw_text_piece(std::u8string_view str, std::u8string_view closin
         if (is_html_whitespace(c) || c == u8'>' || c == u8'/') {
             return { .raw_length = length, .ref_length = 0 };
         }
+        length = new_length;
     }
     return { .raw_length = length, .ref_length = 0 };
 }
-- 
2.43.0


From a91077780611ae5611099b799e640e913be89a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:37 +0000
Subject: [PATCH 009/157] fix: HTML end tag containing whitespace excludes its
 closing bracket

---
 src/main/cpp/lang/html.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index ad060f7..c8ef86e 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -252,7 +252,7 @@ End_Tag_Result match_end_tag_permissive(const std::u8string_view str)
         return {};
     }
 
-    return { .length = end_pos, .name_length = name_length };
+    return { .length = end_pos + 1, .name_length = name_length };
 }
 
 namespace {
-- 
2.43.0


From bde3d5897254db4d1343aa530c3d25e47694bdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:26 +0000
Subject: [PATCH 010/157] fix: Lua highlighter emits an empty token for an
 empty line comment

---
 src/main/cpp/lang/lua.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/lua.cpp b/src/main/cpp/lang/lua.cpp
index 69a8719..5e6af45 100644
--- a/src/main/cpp/lang/lua.cpp
+++ b/src/main/cpp/lang/lua.cpp
@@ -567,7 +567,9 @@ bool highlight_lua(
         // Line comments - Lua treats each line separately, no backslash continuation
         if (const std::size_t line_comment_length = lua::match_line_comment(remainder)) {
             emit(index, 2, Highlight_Type::comment_delim);
-            emit(index + 2, line_comment_length - 2, Highlight_Type::comment);
+            if (line_comment_length > 2) {
+                emit(index + 2, line_comment_length - 2, Highlight_Type::comment);
+            }
             index += line_comment_length;
             continue;
         }
-- 
2.43.0


From 168d85ade5a908daa6cfc3e3f5cc18915c6ded70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 011/157] fix: JSX braced code is highlighted beyond its
 closing brace

---
 src/main/cpp/lang/js.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index eb55f8a..395c4f1 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -1178,9 +1178,18 @@ private:
         emit_and_advance(1, Highlight_Type::symbol_brace);
         const std::size_t js_length = braced.length - (braced.is_terminated ? 2 : 1);
 
-        if (js_length != 0) {
+        // The extent of the braced code has already been decided by match_jsx_braced,
+        // so tokens such as template literals must not reach beyond it.
+        const std::u8string_view after_js = remainder.substr(js_length);
+        remainder = remainder.substr(0, js_length);
+        while (!remainder.empty()) {
             consume_js_before_closing_brace();
+            if (!remainder.empty()) {
+                ULIGHT_ASSERT(remainder.starts_with(u8'}'));
+                emit_and_advance(1, Highlight_Type::symbol_brace);
+            }
         }
+        remainder = after_js;
         if (braced.is_terminated) {
             emit_and_advance(1, Highlight_Type::symbol_brace);
         }
-- 
2.43.0


From 54e660b9a0a46fdb845450023b854b4759d1d38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:29 +0000
Subject: [PATCH 012/157] fix: JSON parser reports the text after a block
 comment instead of the comment

---
 src/main/cpp/lang/json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index d2298c4..076b2df 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -525,8 +525,8 @@ private:
                 error(JSON_Error::comment);
                 return false;
             }
-            advance(block_comment.length);
             out.block_comment(pos, remainder.substr(0, block_comment.length));
+            advance(block_comment.length);
             return true;
         }
         ULIGHT_DEBUG_ASSERT_UNREACHABLE(u8"/* should have been tested.");
-- 
2.43.0


From cb9bd48b58f0035c87d3b4b5658be79a1c1be8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:29 +0000
Subject: [PATCH 013/157] fix: JSON parser fails internally on an object member
 without a string key

---
 src/main/cpp/lang/json.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index 076b2df..bc01a95 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -754,6 +754,14 @@ private:
     [[nodiscard]]
     bool consume_member()
     {
+        if (remainder.empty()) {
+            error(JSON_Error::unterminated_object);
+            return false;
+        }
+        if (!remainder.starts_with(u8'"')) {
+            error(JSON_Error::illegal_character);
+            return false;
+        }
         if (!consume_string(String_Type::property)) {
             return false;
         }
-- 
2.43.0


From d74445812d5b9f98fbedf7231ceeab760f512dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:29 +0000
Subject: [PATCH 014/157] fix: JSON parser accepts text after the document's
 value

---
 src/main/cpp/lang/json.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index bc01a95..a1d7db2 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -441,7 +441,14 @@ public:
     [[nodiscard]]
     bool operator()()
     {
-        return consume_whitespace_comments() && consume_value() && consume_whitespace_comments();
+        if (!consume_whitespace_comments() || !consume_value() || !consume_whitespace_comments()) {
+            return false;
+        }
+        if (!remainder.empty()) {
+            error(JSON_Error::illegal_character);
+            return false;
+        }
+        return true;
     }
 
 private:
-- 
2.43.0


From f0eac4aa9c85ecb9733f2b0cae93c95a7b799613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:29 +0000
Subject: [PATCH 015/157] fix: JSON parser converts numbers by reading beyond
 the number and the source

---
 src/main/cpp/lang/json.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index a1d7db2..ba2835f 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -1,6 +1,7 @@
 #include <charconv>
 #include <cstddef>
 #include <cstdlib>
+#include <string>
 #include <string_view>
 
 #include "ulight/json.hpp"
@@ -699,10 +700,12 @@ private:
 
         const std::u8string_view number_string = remainder.substr(0, number.length);
         if (options.parse_numbers) {
-            const auto* const str_begin = reinterpret_cast<const char*>(number_string.data());
+            // The source is not null-terminated, and may continue with characters that std::strtod
+            // would consider to be part of the number, so the number has to be copied.
+            const std::string null_terminated { as_string_view(number_string) };
             char* str_end = nullptr;
-            const double value = std::strtod(str_begin, &str_end);
-            if (str_end == str_begin) {
+            const double value = std::strtod(null_terminated.c_str(), &str_end);
+            if (str_end == null_terminated.c_str()) {
                 error(JSON_Error::illegal_number);
                 return false;
             }
-- 
2.43.0


From 84f6dc489672ef2f0e9078063f508009fbb389c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:29 +0000
Subject: [PATCH 016/157] fix: JSON parser fails without reporting an error, or
 reports a bad escape

---
 src/main/cpp/lang/json.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index ba2835f..28d74e4 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -546,6 +546,7 @@ private:
     bool consume_value()
     {
         if (remainder.empty()) {
+            error(JSON_Error::error);
             return false;
         }
         switch (remainder[0]) {
@@ -577,6 +578,7 @@ private:
                 advance_on_same_line(4);
                 return true;
             }
+            error(JSON_Error::illegal_character);
             return false;
         }
         case u8'f': {
@@ -585,6 +587,7 @@ private:
                 advance_on_same_line(5);
                 return true;
             }
+            error(JSON_Error::illegal_character);
             return false;
         }
         case u8'n': {
@@ -593,9 +596,10 @@ private:
                 advance_on_same_line(4);
                 return true;
             }
+            error(JSON_Error::illegal_character);
             return false;
         }
-        default: error(JSON_Error::illegal_escape); return false;
+        default: error(JSON_Error::illegal_character); return false;
         }
     }
 
-- 
2.43.0


From e8225e327270b6400365f7390b294d946805e10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:29 +0000
Subject: [PATCH 017/157] fix: JSON parser does not report disallowed comments
 as such

---
 src/main/cpp/lang/json.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index 28d74e4..32d0ce5 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -490,6 +490,10 @@ private:
         if (!options.allow_comments) {
             const std::size_t white_length = match_whitespace(remainder);
             advance(white_length);
+            if (remainder.starts_with(u8"//") || remainder.starts_with(u8"/*")) {
+                error(JSON_Error::comment);
+                return false;
+            }
             return true;
         }
         while (true) {
-- 
2.43.0


From c6ab717b6f7ad0e9468efe22cf336d1c2d4d0da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:29 +0000
Subject: [PATCH 018/157] fix: JSON form feed is not whitespace

---
 include/ulight/impl/lang/json.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/json.hpp b/include/ulight/impl/lang/json.hpp
index be33d2f..b63ad1b 100644
--- a/include/ulight/impl/lang/json.hpp
+++ b/include/ulight/impl/lang/json.hpp
@@ -11,7 +11,7 @@
 namespace ulight::json {
 
 // https://www.json.org/json-en.html
-inline constexpr auto is_json_whitespace = Charset256(u8" \t\f\n\r");
+inline constexpr auto is_json_whitespace = Charset256(u8" \t\n\r");
 
 inline constexpr auto is_json_escapable = Charset256(u8"\"\\/bfnrtu");
 
-- 
2.43.0


From 6aac95d84b68d3f3c9c4b1630f71c42b4379afbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:29 +0000
Subject: [PATCH 019/157] fix: JSON highlighter marks what follows a literal in
 an array as an error

---
 src/main/cpp/lang/json.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index 32d0ce5..beb38ea 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -415,6 +415,7 @@ private:
             const auto coalescing
                 = highlight == Highlight_Type::error ? Coalescing::forced : Coalescing::normal;
             emit_and_advance(id.length, highlight, coalescing);
+            return true;
         }
         return false;
     }
-- 
2.43.0


From 4550be9c6a9e2327987fae8c389ba0c250aa3649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:58 +0000
Subject: [PATCH 020/157] fix: JSON parser reports an unterminated object or
 array before trailing space as a bad character

---
 src/main/cpp/lang/json.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index beb38ea..609419e 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -743,6 +743,9 @@ private:
             if (!consume_whitespace_comments()) {
                 return false;
             }
+            if (remainder.empty()) {
+                break;
+            }
             if (remainder.starts_with(u8'}')) {
                 out.pop_object(pos);
                 advance_on_same_line(1);
@@ -827,6 +830,9 @@ private:
             if (!consume_whitespace_comments()) {
                 return false;
             }
+            if (remainder.empty()) {
+                break;
+            }
             if (remainder.starts_with(u8']')) {
                 out.pop_array(pos);
                 advance_on_same_line(1);
-- 
2.43.0


From e789ed17c4eba5f7ae14fce4136248ecdcb036bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 021/157] fix: ulight_lang_from_path_u8 takes the whole path
 for a language name

---
 src/main/cpp/ulight.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/ulight.cpp b/src/main/cpp/ulight.cpp
index 092935c..b09dea9 100644
--- a/src/main/cpp/ulight.cpp
+++ b/src/main/cpp/ulight.cpp
@@ -258,7 +258,7 @@ ulight_lang ulight_lang_from_path(const char* path, size_t path_length) noexcept
 ULIGHT_EXPORT
 ulight_lang ulight_lang_from_path_u8(const char8_t* path, size_t path_length) noexcept
 {
-    return ulight_get_lang(reinterpret_cast<const char*>(path), path_length);
+    return ulight_lang_from_path(reinterpret_cast<const char*>(path), path_length);
 }
 
 ULIGHT_EXPORT
-- 
2.43.0


From 2b8d4c2d8be315362ff9488c7fc9abd5a442721f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 022/157] fix: the first invalid language value is reported as
 an internal error

---
 src/main/cpp/ulight.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/ulight.cpp b/src/main/cpp/ulight.cpp
index b09dea9..2e7b731 100644
--- a/src/main/cpp/ulight.cpp
+++ b/src/main/cpp/ulight.cpp
@@ -411,7 +411,7 @@ ulight_status ulight_source_to_tokens(ulight_state* state) noexcept
     if (state->flush_tokens == nullptr) {
         return error(state, ULIGHT_STATUS_BAD_BUFFER, u8"flush_tokens must not be null.");
     }
-    if (state->lang == ULIGHT_LANG_NONE || int(state->lang) > ULIGHT_LANG_COUNT) {
+    if (state->lang == ULIGHT_LANG_NONE || int(state->lang) >= ULIGHT_LANG_COUNT) {
         return error(
             state, ULIGHT_STATUS_BAD_LANG, u8"The given language (numeric value) is invalid."
         );
-- 
2.43.0


From d71c6717867d1c3b7b2da8caa576649213c3bb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 023/157] fix: a path exactly as long as the I/O buffer is not
 null-terminated

---
 src/main/cpp/io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/io.cpp b/src/main/cpp/io.cpp
index 1101513..92415e8 100644
--- a/src/main/cpp/io.cpp
+++ b/src/main/cpp/io.cpp
@@ -24,7 +24,7 @@ std::expected<void, IO_Error_Code> file_to_bytes_chunked(
     constexpr std::size_t block_size = BUFSIZ;
     char buffer[block_size] {};
 
-    if (path.size() > block_size) {
+    if (path.size() >= block_size) {
         return std::unexpected { IO_Error_Code::cannot_open };
     }
     std::memcpy(buffer, path.data(), path.size());
-- 
2.43.0


From 9cc667997fb17c49abff6f6949e9d325dacb229c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 024/157] fix: State::set_html_attr_name sets the length of the
 tag name

---
 include/ulight/ulight.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/ulight.hpp b/include/ulight/ulight.hpp
index da170ab..bc4500f 100644
--- a/include/ulight/ulight.hpp
+++ b/include/ulight/ulight.hpp
@@ -484,7 +484,7 @@ struct [[nodiscard]] State {
     void set_html_attr_name(std::string_view name) noexcept
     {
         impl.html_attr_name = name.data();
-        impl.html_tag_name_length = name.length();
+        impl.html_attr_name_length = name.length();
     }
 
     void set_text_buffer(std::span<char> buffer)
-- 
2.43.0


From 80e55b110e876ff37b8b4553e5f92cfcc70ec5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 025/157] fix: Unique_File closes a file twice when
 move-assigned or closed

---
 include/ulight/impl/io.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ulight/impl/io.hpp b/include/ulight/impl/io.hpp
index b0c7792..a63ded7 100644
--- a/include/ulight/impl/io.hpp
+++ b/include/ulight/impl/io.hpp
@@ -73,6 +73,7 @@ public:
     {
         if (m_file) {
             std::fclose(m_file);
+            m_file = nullptr;
         }
     }
 
-- 
2.43.0


From 9b0fde93d2143034fedf521b9b8467d2e1694074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 026/157] fix: ulight_new dereferences null when out of memory

---
 src/main/cpp/ulight.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/cpp/ulight.cpp b/src/main/cpp/ulight.cpp
index 2e7b731..5a799ef 100644
--- a/src/main/cpp/ulight.cpp
+++ b/src/main/cpp/ulight.cpp
@@ -354,6 +354,9 @@ ULIGHT_EXPORT
 ulight_state* ulight_new() noexcept
 {
     void* const result = ulight_alloc(sizeof(ulight_state), alignof(ulight_state));
+    if (result == nullptr) {
+        return nullptr;
+    }
     return ulight_init(static_cast<ulight_state*>(result));
 }
 
-- 
2.43.0


From 3483e88719d8e9df346a78b0bcdb9e5e154b07ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:39 +0000
Subject: [PATCH 027/157] fix: an erroneous hexadecimal escape ends inside a
 code point

---
 include/ulight/impl/escapes.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/ulight/impl/escapes.hpp b/include/ulight/impl/escapes.hpp
index 649b296..cd55406 100644
--- a/include/ulight/impl/escapes.hpp
+++ b/include/ulight/impl/escapes.hpp
@@ -159,12 +159,19 @@ constexpr Escape_Result match_common_escape(std::u8string_view str)
     else if constexpr (type == Common_Escape::hex_2 || type == Common_Escape::hex_4
                        || type == Common_Escape::hex_8) {
         constexpr std::size_t min_length = escape_type_min_length(type);
+        const std::u8string_view available = str;
         str = str.substr(0, min(min_length, str.length()));
         if (str.length() < min_length) {
             return { .length = str.length(), .erroneous = true };
         }
         const bool all_hex = all_of(str, hex_digit_lambda);
-        return { .length = str.length(), .erroneous = !all_hex };
+        std::size_t length = str.length();
+        // An erroneous escape must not end in the middle of a code point.
+        while (!all_hex && length != 0 && length < available.length()
+               && (available[length] & 0xC0) == 0x80) {
+            --length;
+        }
+        return { .length = length, .erroneous = !all_hex };
     }
 
     else if constexpr (type == Common_Escape::nonempty_braced) {
-- 
2.43.0


From c141a1e0b3713aa2549752da61d1ebf96776c82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:39 +0000
Subject: [PATCH 028/157] fix: COWEL errors split code points

---
 include/ulight/impl/highlighter.hpp | 13 +++++++++++++
 src/main/cpp/lang/cowel.cpp         |  4 ++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/ulight/impl/highlighter.hpp b/include/ulight/impl/highlighter.hpp
index da6b980..7f07f5e 100644
--- a/include/ulight/impl/highlighter.hpp
+++ b/include/ulight/impl/highlighter.hpp
@@ -9,6 +9,7 @@
 #include "ulight/impl/highlight.hpp"
 #include "ulight/impl/numbers.hpp"
 #include "ulight/impl/parse_utils.hpp"
+#include "ulight/impl/unicode.hpp"
 
 namespace ulight {
 
@@ -119,6 +120,18 @@ protected:
         advance(length);
     }
 
+    /// @brief Like `emit_and_advance`,
+    /// but the length is that of the code point at the start of `remainder`,
+    /// so that a non-ASCII character is not split into multiple tokens.
+    void emit_and_advance_code_point(
+        Highlight_Type type,
+        Coalescing coalescing = Coalescing::normal
+    )
+    {
+        const auto [_, length] = utf8::decode_and_length_or_replacement(remainder);
+        emit_and_advance(std::size_t(length), type, coalescing);
+    }
+
     /// @brief Consumes a span of code in a language of choice,
     /// and appends the resulting tokens to this highlighter.
     /// @param lang The nested language to highlight.
diff --git a/src/main/cpp/lang/cowel.cpp b/src/main/cpp/lang/cowel.cpp
index b578562..4cd1653 100644
--- a/src/main/cpp/lang/cowel.cpp
+++ b/src/main/cpp/lang/cowel.cpp
@@ -469,7 +469,7 @@ struct [[nodiscard]] Highlighter : Highlighter_Base {
                 );
             }
             else {
-                emit_and_advance(1, Highlight_Type::error);
+                emit_and_advance_code_point(Highlight_Type::error);
             }
         }
 
@@ -553,7 +553,7 @@ struct [[nodiscard]] Highlighter : Highlighter_Base {
                 );
             }
             else {
-                emit_and_advance(1, Highlight_Type::error);
+                emit_and_advance_code_point(Highlight_Type::error);
             }
         }
 
-- 
2.43.0


From 49e6e0204ce9ab18656646cbc37939a8d826cc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:39 +0000
Subject: [PATCH 029/157] fix: NASM errors split code points

---
 src/main/cpp/lang/nasm.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index 3f28f46..57b8d48 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -6,6 +6,7 @@
 #include "ulight/impl/highlighter.hpp"
 #include "ulight/impl/numbers.hpp"
 #include "ulight/impl/parse_utils.hpp"
+#include "ulight/impl/unicode.hpp"
 
 #include "ulight/impl/lang/nasm.hpp"
 
@@ -55,7 +56,8 @@ Escape_Result match_escape_sequence(std::u8string_view str)
         return match_common_escape<Common_Escape::hex_8>(str, 2);
     }
     default: {
-        return { .length = 2uz, .erroneous = true };
+        const auto [_, length] = utf8::decode_and_length_or_replacement(str.substr(1));
+        return { .length = 1 + std::size_t(length), .erroneous = true };
     }
     }
 }
@@ -438,7 +440,7 @@ private:
                 consume_identifier();
                 break;
             }
-            emit_and_advance(1, Highlight_Type::error, Coalescing::forced);
+            emit_and_advance_code_point(Highlight_Type::error, Coalescing::forced);
             break;
         }
         }
-- 
2.43.0


From 357a8509afb09ccf459e47a00b464b47b362ff2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:39 +0000
Subject: [PATCH 030/157] fix: LLVM IR errors split code points

---
 src/main/cpp/lang/llvm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/llvm.cpp b/src/main/cpp/lang/llvm.cpp
index 8411d91..9e6ba73 100644
--- a/src/main/cpp/lang/llvm.cpp
+++ b/src/main/cpp/lang/llvm.cpp
@@ -222,7 +222,7 @@ private:
             if (expect_keyword_or_label()) {
                 break;
             }
-            emit_and_advance(1, Highlight_Type::error, Coalescing::forced);
+            emit_and_advance_code_point(Highlight_Type::error, Coalescing::forced);
             break;
         }
         }
-- 
2.43.0


From 0f3af791d5425493a150e6345fbf98a2af28d1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:39 +0000
Subject: [PATCH 031/157] fix: EBNF errors split code points

---
 src/main/cpp/lang/ebnf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/ebnf.cpp b/src/main/cpp/lang/ebnf.cpp
index 0034fe1..696044d 100644
--- a/src/main/cpp/lang/ebnf.cpp
+++ b/src/main/cpp/lang/ebnf.cpp
@@ -293,7 +293,7 @@ public:
                 break;
             }
             default: {
-                emit_and_advance(1, Highlight_Type::error, Coalescing::forced);
+                emit_and_advance_code_point(Highlight_Type::error, Coalescing::forced);
                 break;
             }
             }
-- 
2.43.0


From 556c672b16ba8f722b3a39bfe8b2084f417c9c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:40 +0000
Subject: [PATCH 032/157] fix: errors in Kotlin annotation lists split code
 points

---
 src/main/cpp/lang/kotlin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index 9d24fda..c410215 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -497,7 +497,7 @@ private:
                 consume_dotted_annotation_name();
             }
             else {
-                emit_and_advance(1, Highlight_Type::error);
+                emit_and_advance_code_point(Highlight_Type::error);
             }
         }
         if (!remainder.empty() && remainder[0] == u8']') {
-- 
2.43.0


From 0b3982f6097c3e866a5b9153837372ac5fa129f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:40 +0000
Subject: [PATCH 033/157] fix: JavaScript escapes and errors split code points

---
 src/main/cpp/lang/js.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 395c4f1..13ab920 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -287,7 +287,8 @@ Escape_Result match_escape_sequence(const std::u8string_view str)
     }
     default: {
         // https://262.ecma-international.org/15.0/index.html#prod-CharacterEscapeSequence
-        return { .length = 2 };
+        const auto [_, length] = utf8::decode_and_length_or_replacement(str.substr(1));
+        return { .length = 1 + std::size_t(length) };
     }
     }
 }
@@ -997,7 +998,7 @@ private:
 
     void consume_error()
     {
-        emit_and_advance(1, Highlight_Type::error);
+        emit_and_advance_code_point(Highlight_Type::error);
         input_element = Input_Element::regex;
     }
 
-- 
2.43.0


From 64a7f220e6ce3d4f963443a38109f027c926eefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:40 +0000
Subject: [PATCH 034/157] fix: Bash escapes split code points

---
 src/main/cpp/lang/bash.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/bash.cpp b/src/main/cpp/lang/bash.cpp
index 7c58241..a7b2f13 100644
--- a/src/main/cpp/lang/bash.cpp
+++ b/src/main/cpp/lang/bash.cpp
@@ -7,6 +7,7 @@
 
 #include "ulight/impl/highlight.hpp"
 #include "ulight/impl/highlighter.hpp"
+#include "ulight/impl/unicode.hpp"
 
 #include "ulight/impl/lang/bash.hpp"
 
@@ -319,7 +320,8 @@ private:
             advance(1);
         }
         else {
-            emit_and_advance(std::min(2uz, remainder.length()), Highlight_Type::string_escape);
+            const auto [_, length] = utf8::decode_and_length_or_replacement(remainder.substr(1));
+            emit_and_advance(1 + std::size_t(length), Highlight_Type::string_escape);
         }
     }
 
-- 
2.43.0


From 99dcfe02ade6f4d010b8d75e7307e759257879c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:40 +0000
Subject: [PATCH 035/157] fix: TeX escapes split code points

---
 src/main/cpp/lang/tex.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/tex.cpp b/src/main/cpp/lang/tex.cpp
index 55ed495..d2b1d17 100644
--- a/src/main/cpp/lang/tex.cpp
+++ b/src/main/cpp/lang/tex.cpp
@@ -8,6 +8,7 @@
 #include "ulight/impl/buffer.hpp"
 #include "ulight/impl/highlight.hpp"
 #include "ulight/impl/highlighter.hpp"
+#include "ulight/impl/unicode.hpp"
 
 #include "ulight/impl/lang/tex.hpp"
 
@@ -65,7 +66,9 @@ struct Highlighter : Highlighter_Base {
                     // While TeX doesn't really distinguish between '\{' and '\abc'
                     // as being escape sequences or commands,
                     // it is helpful for highlighting if we do that.
-                    emit_and_advance(2, Highlight_Type::string_escape);
+                    const auto [_, length]
+                        = utf8::decode_and_length_or_replacement(remainder.substr(1));
+                    emit_and_advance(1 + std::size_t(length), Highlight_Type::string_escape);
                     break;
                 }
                 emit_and_advance(name_length, Highlight_Type::markup_tag);
-- 
2.43.0


From 91712608acf7bf1fb4aaa87a1511dc628468aecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:40 +0000
Subject: [PATCH 036/157] fix: unknown characters in Lua are split

---
 src/main/cpp/lang/lua.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/lua.cpp b/src/main/cpp/lang/lua.cpp
index 5e6af45..0f0bc30 100644
--- a/src/main/cpp/lang/lua.cpp
+++ b/src/main/cpp/lang/lua.cpp
@@ -684,8 +684,9 @@ bool highlight_lua(
             continue;
         }
 
-        emit(index, 1, Highlight_Type::symbol);
-        index++;
+        const auto [_, length] = utf8::decode_and_length_or_replacement(remainder);
+        emit(index, std::size_t(length), Highlight_Type::symbol);
+        index += std::size_t(length);
     }
 
     return true;
-- 
2.43.0


From 6b26b712c3e12309c101d611fe82e4cc3df35403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:40 +0000
Subject: [PATCH 037/157] fix: C++ escapes and raw string errors split code
 points

---
 src/main/cpp/lang/cpp.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/cpp.cpp b/src/main/cpp/lang/cpp.cpp
index 61fd998..994a008 100644
--- a/src/main/cpp/lang/cpp.cpp
+++ b/src/main/cpp/lang/cpp.cpp
@@ -448,7 +448,8 @@ Escape_Result match_escape_sequence(std::u8string_view str)
     }
 
     default: {
-        return { .length = 2,
+        const auto [_, length] = utf8::decode_and_length_or_replacement(str.substr(1));
+        return { .length = 1 + std::size_t(length),
                  .type = Escape_Type::conditional,
                  .erroneous = !is_cpp_basic(str[1]) };
     }
@@ -839,7 +840,11 @@ public:
             return;
         }
         if (rem[d_char_sequence_length + 1] != u8'(') {
-            emit_and_advance(d_char_sequence_length + 2, Highlight_Type::error);
+            const auto [_, length]
+                = utf8::decode_and_length_or_replacement(rem.substr(d_char_sequence_length + 1));
+            emit_and_advance(
+                d_char_sequence_length + 1 + std::size_t(length), Highlight_Type::error
+            );
             return;
         }
         rem.remove_prefix(d_char_sequence_length + 2);
-- 
2.43.0


From fe801aa78ce1cc0c0adbc52b22a41a49ab83dfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:40 +0000
Subject: [PATCH 038/157] fix: errors in XML names split code points

---
 src/main/cpp/lang/xml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 9dec07c..16aae3f 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -748,10 +748,10 @@ private:
                 if (piece_length) {
                     emit_and_advance(piece_length, type);
                 }
-                emit_and_advance(1, Highlight_Type::error);
+                emit_and_advance(std::size_t(length), Highlight_Type::error);
 
                 piece_length = 0;
-                total_length += 1;
+                total_length += std::size_t(length);
             }
             else {
                 piece_length += std::size_t(length);
-- 
2.43.0


From 69f03aabe13356c6b25c1e83b0d3175a58b55574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:40 +0000
Subject: [PATCH 039/157] fix: non-ASCII Java character literals are split

---
 src/main/cpp/lang/java.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/java.cpp b/src/main/cpp/lang/java.cpp
index fc1b436..3d9b22a 100644
--- a/src/main/cpp/lang/java.cpp
+++ b/src/main/cpp/lang/java.cpp
@@ -341,7 +341,7 @@ private:
         }
         else if (!remainder.empty() && remainder[0] != u8'\'' //
                  && remainder[0] != u8'\r' && remainder[0] != u8'\n') {
-            emit_and_advance(1, Highlight_Type::string);
+            emit_and_advance_code_point(Highlight_Type::string);
         }
         else if (!remainder.empty()) {
             emit_and_advance(1, Highlight_Type::error);
-- 
2.43.0


From f3826b6a20b68a170f54ab64801a27197d0768dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:40 +0000
Subject: [PATCH 040/157] fix: YAML tags and directive parameters split code
 points

---
 src/main/cpp/lang/yaml.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 7297ae8..6718378 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -436,7 +436,7 @@ private:
                 advance(1);
             }
             else {
-                emit_and_advance(1, Highlight_Type::string);
+                emit_and_advance_code_point(Highlight_Type::string);
             }
         }
         skip_line();
@@ -841,7 +841,7 @@ private:
             emit_and_advance(2, Highlight_Type::name_attr_delim);
             while (!remainder.empty() && remainder[0] != u8'>' && remainder[0] != u8'\r'
                    && remainder[0] != u8'\n') {
-                emit_and_advance(1, Highlight_Type::name_attr);
+                emit_and_advance_code_point(Highlight_Type::name_attr);
             }
             if (!remainder.empty() && remainder[0] == u8'>') {
                 emit_and_advance(1, Highlight_Type::name_attr_delim);
@@ -880,7 +880,7 @@ private:
     void consume_tag_suffix()
     {
         while (!remainder.empty() && !is_yaml_word_terminator(remainder[0])) {
-            emit_and_advance(1, Highlight_Type::name_attr);
+            emit_and_advance_code_point(Highlight_Type::name_attr);
         }
     }
 
-- 
2.43.0


From 8c80131f24cbf7a33cfbc37af8a9865f8098f0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 041/157] fix: treat negative language values as invalid

Values above INT_MAX were read from beyond the table of display names, and
highlighted as the language given by their lowest eight bits.
---
 src/main/cpp/ulight.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/ulight.cpp b/src/main/cpp/ulight.cpp
index 5a799ef..832e413 100644
--- a/src/main/cpp/ulight.cpp
+++ b/src/main/cpp/ulight.cpp
@@ -196,7 +196,7 @@ static_assert(std::ranges::none_of(ulight_lang_display_names, [](ulight_string_v
 ULIGHT_EXPORT
 ulight_string_view ulight_lang_display_name(ulight_lang lang) noexcept
 {
-    if (lang == ULIGHT_LANG_NONE || int(lang) >= int(ULIGHT_LANG_COUNT)) {
+    if (lang == ULIGHT_LANG_NONE || unsigned(lang) >= unsigned(ULIGHT_LANG_COUNT)) {
         return {};
     }
     return ulight_lang_display_names[std::size_t(lang)];
@@ -414,7 +414,8 @@ ulight_status ulight_source_to_tokens(ulight_state* state) noexcept
     if (state->flush_tokens == nullptr) {
         return error(state, ULIGHT_STATUS_BAD_BUFFER, u8"flush_tokens must not be null.");
     }
-    if (state->lang == ULIGHT_LANG_NONE || int(state->lang) >= ULIGHT_LANG_COUNT) {
+    if (state->lang == ULIGHT_LANG_NONE
+        || unsigned(state->lang) >= unsigned(ULIGHT_LANG_COUNT)) {
         return error(
             state, ULIGHT_STATUS_BAD_LANG, u8"The given language (numeric value) is invalid."
         );
-- 
2.43.0


From 8e178e2e56faedca9d7608d85f6cb0d835cb8edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 042/157] fix: report bad_alloc for the last part of the HTML
 output too

An std::bad_alloc thrown by flush_text was an internal error if it was thrown
for the text behind the last token, and bad_alloc before.
---
 src/main/cpp/ulight.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/cpp/ulight.cpp b/src/main/cpp/ulight.cpp
index 832e413..d545453 100644
--- a/src/main/cpp/ulight.cpp
+++ b/src/main/cpp/ulight.cpp
@@ -555,6 +555,11 @@ ulight_status ulight_source_to_html(ulight_state* state) noexcept
         buffer.flush();
         return ULIGHT_STATUS_OK;
 #ifdef ULIGHT_EXCEPTIONS
+    } catch (const std::bad_alloc&) {
+        return error(
+            state, ULIGHT_STATUS_BAD_ALLOC,
+            u8"An attempt to allocate memory during highlighting failed."
+        );
     } catch (...) {
         return error(state, ULIGHT_STATUS_INTERNAL_ERROR, u8"An internal error occurred.");
     }
-- 
2.43.0


From e93cf9444249f920125d687ec3a9ecb70da1b62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 043/157] fix: give ULIGHT_HL_NAME_SHELL_COMMAND_DELIM a short
 string of its own

It had that of ULIGHT_HL_NAME_SHELL_COMMAND.
---
 include/ulight/ulight.hpp | 2 +-
 scripts/theme-to-css.cjs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ulight/ulight.hpp b/include/ulight/ulight.hpp
index bc4500f..38f2f8f 100644
--- a/include/ulight/ulight.hpp
+++ b/include/ulight/ulight.hpp
@@ -220,7 +220,7 @@ constexpr Flag operator|(Flag x, Flag y) noexcept
       ULIGHT_HL_NAME_SHELL_COMMAND_DECL)                                                           \
     F(name_shell_command_builtin, "name-command-builtin", "sh_cmd_pre",                            \
       ULIGHT_HL_NAME_SHELL_COMMAND_BUILTIN)                                                        \
-    F(name_shell_command_delim, "name-command-delim", "name_cmd",                                  \
+    F(name_shell_command_delim, "name-command-delim", "name_cmd_dlim",                             \
       ULIGHT_HL_NAME_SHELL_COMMAND_DELIM)                                                          \
                                                                                                    \
     F(name_shell_option, "name-option", "name_opt", ULIGHT_HL_NAME_SHELL_OPTION)                   \
diff --git a/scripts/theme-to-css.cjs b/scripts/theme-to-css.cjs
index 582d050..03597fa 100644
--- a/scripts/theme-to-css.cjs
+++ b/scripts/theme-to-css.cjs
@@ -74,7 +74,7 @@ const longNameToShort = {
     "name-command": "name_cmd",
     "name-command-decl": "name_cmd_decl",
     "name-command-builtin": "sh_cmd_pre",
-    "name-command": "name_cmd",
+    "name-command-delim": "name_cmd_dlim",
     "name-option": "name_opt",
     "name-option-decl": "name_opt_decl",
     "name-option-builtin": "name_opt_pre",
-- 
2.43.0


From 62570bc17d08d03a73b45dc80cb1f793a9991d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 044/157] fix: make the long string of ULIGHT_HL_NAME_DELIM its
 enumerator

As documented for ulight_highlight_type_long_string.
---
 include/ulight/ulight.hpp | 2 +-
 scripts/theme-to-css.cjs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ulight/ulight.hpp b/include/ulight/ulight.hpp
index 38f2f8f..ca9440f 100644
--- a/include/ulight/ulight.hpp
+++ b/include/ulight/ulight.hpp
@@ -148,7 +148,7 @@ constexpr Flag operator|(Flag x, Flag y) noexcept
     F(name, "name", "name", ULIGHT_HL_NAME)                                                        \
     F(name_decl, "name-decl", "name_decl", ULIGHT_HL_NAME_DECL)                                    \
     F(name_builtin, "name-builtin", "name_pre", ULIGHT_HL_NAME_BUILTIN)                            \
-    F(name_delim, "name-builtin-delim", "name_dlim", ULIGHT_HL_NAME_DELIM)                         \
+    F(name_delim, "name-delim", "name_dlim", ULIGHT_HL_NAME_DELIM)                                 \
                                                                                                    \
     F(name_var, "name-var", "name_var", ULIGHT_HL_NAME_VAR)                                        \
     F(name_var_decl, "name-var-decl", "name_var_decl", ULIGHT_HL_NAME_VAR_DECL)                    \
diff --git a/scripts/theme-to-css.cjs b/scripts/theme-to-css.cjs
index 03597fa..3afd2c1 100644
--- a/scripts/theme-to-css.cjs
+++ b/scripts/theme-to-css.cjs
@@ -26,7 +26,7 @@ const longNameToShort = {
     "name": "name",
     "name-decl": "name_decl",
     "name-builtin": "name_pre",
-    "name-builtin-delim": "name_dlim",
+    "name-delim": "name_dlim",
     "name-var": "name_var",
     "name-var-decl": "name_var_decl",
     "name-var-builtin": "name_var_pre",
-- 
2.43.0


From e5c8449636fcead889b2d486644bbb42ea43a1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:33 +0000
Subject: [PATCH 045/157] fix: recognize a trailing digit separator that is
 followed by other text

---
 src/main/cpp/parse_utils.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index a289886..bba9b11 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -153,11 +153,13 @@ Digits_Result match_separated_digits(std::u8string_view str, int base, char8_t s
             previous = c;
             return true;
         }
-        const bool is_digit = is_ascii_digit_base(c, base);
+        if (!is_ascii_digit_base(c, base)) {
+            return false;
+        }
         previous = c;
-        return is_digit;
+        return true;
     });
-    erroneous |= previous == separator;
+    erroneous |= length != 0 && previous == separator;
 
     return { .length = length, .erroneous = erroneous };
 }
-- 
2.43.0


From 158e30936bdb32550bbdb4a787ead6acd7c8c287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:33 +0000
Subject: [PATCH 046/157] fix: recognize a trailing digit separator in
 js::match_digits

---
 src/main/cpp/lang/js.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 13ab920..94a8ac4 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -337,11 +337,13 @@ Digits_Result match_digits(std::u8string_view str, int base)
             previous = c;
             return true;
         }
-        const bool is_digit = is_ascii_digit_base(c, base);
+        if (!is_ascii_digit_base(c, base)) {
+            return false;
+        }
         previous = c;
-        return is_digit;
+        return true;
     });
-    erroneous |= previous == u8'_';
+    erroneous |= length != 0 && previous == u8'_';
 
     return { .length = length, .erroneous = erroneous };
 }
-- 
2.43.0


From ab420ca5a1474fc76daa40a085408203782fc53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:33 +0000
Subject: [PATCH 047/157] fix: do not match a lone sign as a number

---
 src/main/cpp/parse_utils.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index bba9b11..f47a9fa 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -224,7 +224,8 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
         length += result.radix_point + result.fractional;
     }
 
-    if (length == 0) {
+    // A sign on its own is not a number.
+    if (length == result.sign) {
         return {};
     }
 
@@ -262,7 +263,7 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
     }
 
     result.length = length;
-    result.erroneous |= result.prefix == length;
+    result.erroneous |= result.sign + result.prefix == length;
     ULIGHT_DEBUG_ASSERT(
         (result.sign + result.prefix + result.integer + result.radix_point + result.fractional
          + result.exponent_sep + result.exponent_digits + result.suffix)
-- 
2.43.0


From 1ca53ce3413699dd2a0ee0423ee66f44b1d29f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:33 +0000
Subject: [PATCH 048/157] fix: accept digit separators in numbers with a base
 suffix

---
 src/main/cpp/parse_utils.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index f47a9fa..a1f777b 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -298,6 +298,14 @@ Suffix_Number_Result match_suffix_number(
     const bool erroneous = [&] {
         for (std::size_t i = 0; i + suffix.length < length; ++i) {
             const char8_t c = number[i];
+            if (digit_separator != 0 && c == digit_separator) {
+                const bool leading_or_repeated = i == 0 || number[i - 1] == digit_separator;
+                const bool trailing = i + suffix.length + 1 == length;
+                if (leading_or_repeated || trailing) {
+                    return true;
+                }
+                continue;
+            }
 
             const int digit_value = c >= u8'A' && c <= u8'Z' ? c - u8'A' + 10
                 : c >= u8'a' && c <= u8'z'                   ? c - u8'a' + 10
@@ -305,12 +313,6 @@ Suffix_Number_Result match_suffix_number(
             if (digit_value >= suffix.base) {
                 return true;
             }
-            const bool repeated_separator = digit_separator != 0 && c == digit_separator //
-                && i != 0 //
-                && number[i - 1] == digit_separator;
-            if (repeated_separator) {
-                return true;
-            }
         }
         return false;
     }();
-- 
2.43.0


From 0fb74c55d698162b7b884d72ea3f056b95224d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:33 +0000
Subject: [PATCH 049/157] fix: match only alphanumerics in suffixed numbers
 without separator

---
 src/main/cpp/parse_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index a1f777b..8693778 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -282,7 +282,7 @@ Suffix_Number_Result match_suffix_number(
     ULIGHT_ASSERT(determine_suffix);
 
     const std::size_t length = ascii::length_if(str, [s = digit_separator](char8_t c) {
-        return s == 0 || c == s || is_ascii_alphanumeric(c);
+        return (s != 0 && c == s) || is_ascii_alphanumeric(c);
     });
 
     if (length <= 1) {
-- 
2.43.0


From 2d052da78b6b4751ad65915f15c3691ddadfdcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:33 +0000
Subject: [PATCH 050/157] fix: end a blank line sequence with a newline at the
 end of the text

---
 src/main/cpp/parse_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index 8693778..ded6aa3 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -66,7 +66,7 @@ Blank_Line find_blank_line_sequence // NOLINT(bugprone-exception-escape)
 
     static_assert(!Blank_Line {}, "A value-initialized Blank_Line should be falsy");
     if (state == State::blank) {
-        return { .begin = blank_begin, .length = str.size() - blank_begin };
+        return { .begin = blank_begin, .length = blank_end - blank_begin };
     }
     return {};
 }
-- 
2.43.0


From b5c7495c4561d85203f7043e80758ff3bc4fcbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:33 +0000
Subject: [PATCH 051/157] fix: treat empty braces as an erroneous escape

---
 include/ulight/impl/escapes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/escapes.hpp b/include/ulight/impl/escapes.hpp
index cd55406..0dd0e12 100644
--- a/include/ulight/impl/escapes.hpp
+++ b/include/ulight/impl/escapes.hpp
@@ -182,7 +182,7 @@ constexpr Escape_Result match_common_escape(std::u8string_view str)
         if (index == std::u8string_view::npos) {
             return { .length = str.length(), .erroneous = true };
         }
-        return { .length = index + 1 };
+        return { .length = index + 1, .erroneous = index == 1 };
     }
 
     else if constexpr (type == Common_Escape::hex_braced) {
-- 
2.43.0


From 283ff3eae7e325b7e176fe1893106492d7b961f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:33 +0000
Subject: [PATCH 052/157] fix: treat an unterminated braced escape as erroneous

---
 include/ulight/impl/escapes.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/ulight/impl/escapes.hpp b/include/ulight/impl/escapes.hpp
index 0dd0e12..7f22643 100644
--- a/include/ulight/impl/escapes.hpp
+++ b/include/ulight/impl/escapes.hpp
@@ -111,11 +111,9 @@ constexpr Escape_Result match_common_braced_escape(std::u8string_view str, Predi
     }
     const std::size_t length_without_brace = ascii::length_before(str, u8'}', 1);
     const std::u8string_view digits = str.substr(1, length_without_brace - 1);
-    const bool erroneous = length_without_brace <= 1 || !all_of(digits, p);
-    const std::size_t length
-        = length_without_brace == str.length() || str[length_without_brace] != u8'}'
-        ? length_without_brace
-        : length_without_brace + 1;
+    const bool terminated = length_without_brace != str.length();
+    const bool erroneous = !terminated || length_without_brace <= 1 || !all_of(digits, p);
+    const std::size_t length = length_without_brace + std::size_t(terminated);
     return { .length = length, .erroneous = erroneous };
 }
 
-- 
2.43.0


From e6042b9fd48f96c6525d6e0fae2f4f6ce3a1a7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 053/157] fix: reject integer literals with other text after
 the digits

---
 src/main/cpp/parse_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index ded6aa3..1e6e720 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -79,7 +79,7 @@ std::optional<unsigned long long> parse_uinteger_digits(std::u8string_view text,
     unsigned long long value;
     const std::from_chars_result result
         = std::from_chars(sv.data(), sv.data() + sv.size(), value, base);
-    if (result.ec != std::errc {}) {
+    if (result.ec != std::errc {} || result.ptr != sv.data() + sv.size()) {
         return {};
     }
     return value;
-- 
2.43.0


From b9fd94f58eae81f26bec0d9d39a7b3754c7a2089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 054/157] fix: do not wrap integer literals that are out of
 range

---
 src/main/cpp/parse_utils.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index 1e6e720..2996ec6 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -1,5 +1,6 @@
 #include <charconv>
 #include <cstddef>
+#include <limits>
 #include <optional>
 #include <string_view>
 #include <system_error>
@@ -120,14 +121,17 @@ std::optional<long long> parse_integer_literal(std::u8string_view str) noexcept
     if (str.empty()) {
         return std::nullopt;
     }
+    constexpr unsigned long long max = std::numeric_limits<long long>::max();
     if (str.starts_with(u8'-')) {
-        if (auto positive = parse_uinteger_literal(str.substr(1))) {
+        const auto positive = parse_uinteger_literal(str.substr(1));
+        if (positive && *positive <= max + 1) {
             // Negating as Uint is intentional and prevents overflow.
             return static_cast<long long>(-*positive);
         }
         return std::nullopt;
     }
-    if (auto result = parse_uinteger_literal(str)) {
+    const auto result = parse_uinteger_literal(str);
+    if (result && *result <= max) {
         return static_cast<long long>(*result);
     }
     return std::nullopt;
-- 
2.43.0


From c023c008532a067d0e97951a270a168d9b70ba2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:05 +0000
Subject: [PATCH 055/157] fix: do not shift out of range in
 Charset::range_before

---
 include/ulight/impl/charset.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/ulight/impl/charset.hpp b/include/ulight/impl/charset.hpp
index 59e3a5a..0b80d57 100644
--- a/include/ulight/impl/charset.hpp
+++ b/include/ulight/impl/charset.hpp
@@ -26,6 +26,9 @@ struct Charset {
         const limb_type all_bits = ~limb_type { 0 };
         for (std::size_t limb = 0; limb < limb_count; ++limb) {
             const std::size_t begin = limb * limb_width;
+            if (j <= begin) {
+                break;
+            }
             const std::size_t lo = i > begin ? i - begin : 0;
             const std::size_t hi = j < begin + limb_width ? j - begin : limb_width;
             if (lo < hi) {
-- 
2.43.0


From 0e58530e9d4892ec9da17c4fe4e041274780de97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:02 +0000
Subject: [PATCH 056/157] fix: exit with failure when highlighting fails

---
 src/main/cpp/main.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/cpp/main.cpp b/src/main/cpp/main.cpp
index d022e38..3530267 100644
--- a/src/main/cpp/main.cpp
+++ b/src/main/cpp/main.cpp
@@ -65,6 +65,7 @@ int main(int argc, const char** argv)
     Status status = state.source_to_html();
     if (status != Status::ok) {
         std::cerr << "Error: " << state.get_error_string() << '\n';
+        return EXIT_FAILURE;
     }
 
     return 0;
-- 
2.43.0


From 8acd5e537db24aaf1df5ed1b0cda82fe765ee3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:02 +0000
Subject: [PATCH 057/157] fix: exit with failure when the output cannot be
 written

---
 src/main/cpp/main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/cpp/main.cpp b/src/main/cpp/main.cpp
index 3530267..61fdcba 100644
--- a/src/main/cpp/main.cpp
+++ b/src/main/cpp/main.cpp
@@ -1,3 +1,4 @@
+#include <cstdio>
 #include <cstdlib>
 #include <expected>
 #include <iostream>
@@ -67,6 +68,10 @@ int main(int argc, const char** argv)
         std::cerr << "Error: " << state.get_error_string() << '\n';
         return EXIT_FAILURE;
     }
+    if (std::fflush(out_file) != 0 || std::ferror(out_file)) {
+        std::cerr << "Error: failed to write output.\n";
+        return EXIT_FAILURE;
+    }
 
     return 0;
 }
-- 
2.43.0


From ef7a771fc29da5d188b6bfe185dc4297dd0a9211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 058/157] fix: do not pass null pointers to memcpy for an empty
 file

---
 include/ulight/impl/io.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/ulight/impl/io.hpp b/include/ulight/impl/io.hpp
index a63ded7..287cf69 100644
--- a/include/ulight/impl/io.hpp
+++ b/include/ulight/impl/io.hpp
@@ -135,6 +135,9 @@ file_to_bytes(std::vector<Byte, Alloc>& out, std::string_view path)
 {
     return file_to_bytes_chunked(
         [&out](std::span<const std::byte> chunk) -> void {
+            if (chunk.empty()) {
+                return;
+            }
             const std::size_t old_size = out.size();
             out.resize(out.size() + chunk.size());
             std::memcpy(out.data() + old_size, chunk.data(), chunk.size());
-- 
2.43.0


From 99f855a45cf41a202388509b9c013fc6c32dd575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 059/157] fix: nest block comments in Rust and Kotlin

---
 include/ulight/impl/parse_utils.hpp |  7 +++++++
 src/main/cpp/lang/kotlin.cpp        |  5 ++---
 src/main/cpp/lang/rust.cpp          |  5 ++---
 src/main/cpp/parse_utils.cpp        | 27 +++++++++++++++++++++++++++
 4 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/include/ulight/impl/parse_utils.hpp b/include/ulight/impl/parse_utils.hpp
index b34fca1..8da626a 100644
--- a/include/ulight/impl/parse_utils.hpp
+++ b/include/ulight/impl/parse_utils.hpp
@@ -116,6 +116,13 @@ inline Enclosed_Result match_enclosed(std::u8string_view str, char8_t prefix, ch
     return detail::match_enclosed_impl(str, prefix, suffix);
 }
 
+/// @brief Like `match_enclosed`,
+/// but `prefix` and `suffix` within the span have to be balanced,
+/// like in block comments in languages where these can be nested.
+[[nodiscard]]
+Enclosed_Result
+match_enclosed_nested(std::u8string_view str, std::u8string_view prefix, std::u8string_view suffix);
+
 /// @brief Like `parse_integer_literal`, but does not permit negative numbers and results
 /// in an unsigned integer.
 /// @param str the string containing the prefix and literal digits
diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index c410215..35b6239 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -158,8 +158,6 @@ std::optional<Token_Type> match_symbol(std::u8string_view str) noexcept
 // However, it should be close enough.
 using cpp::match_identifier;
 
-using js::Comment_Result;
-using js::match_block_comment;
 using js::match_line_comment;
 
 Escape_Result match_escape_sequence(const std::u8string_view str)
@@ -289,7 +287,8 @@ private:
 
     bool expect_block_comment()
     {
-        if (const Comment_Result block_comment = match_block_comment(remainder)) {
+        if (const Enclosed_Result block_comment
+            = match_enclosed_nested(remainder, u8"/*", u8"*/")) {
             emit(index, 2, Highlight_Type::comment_delim); // /*
             const std::size_t suffix_length = block_comment.is_terminated ? 2 : 0;
             const std::size_t content_length = block_comment.length - 2 - suffix_length;
diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index 403fcfc..6ae0d1b 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -241,8 +241,6 @@ std::optional<Token_Type> match_punctuation(std::u8string_view str) noexcept
     }
 }
 
-using js::Comment_Result;
-using js::match_block_comment;
 using js::match_line_comment;
 
 namespace {
@@ -313,7 +311,8 @@ private:
 
     bool expect_block_comment()
     {
-        if (const Comment_Result block_comment = match_block_comment(remainder)) {
+        if (const Enclosed_Result block_comment
+            = match_enclosed_nested(remainder, u8"/*", u8"*/")) {
             emit(index, 2, Highlight_Type::comment_delim); // /*
             const std::size_t suffix_length = block_comment.is_terminated ? 2 : 0;
             const std::size_t content_length = block_comment.length - 2 - suffix_length;
diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index 2996ec6..01f4303 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -99,6 +99,33 @@ Line_Result match_crlf_line(std::u8string_view str)
     return { .content_length = length, .terminator_length = terminator_length };
 }
 
+Enclosed_Result
+match_enclosed_nested(std::u8string_view str, std::u8string_view prefix, std::u8string_view suffix)
+{
+    if (!str.starts_with(prefix)) {
+        return {};
+    }
+    std::size_t depth = 1;
+    std::size_t length = prefix.length();
+    while (length < str.length()) {
+        const std::u8string_view remainder = str.substr(length);
+        if (remainder.starts_with(suffix)) {
+            length += suffix.length();
+            if (--depth == 0) {
+                return { .length = length, .is_terminated = true };
+            }
+        }
+        else if (remainder.starts_with(prefix)) {
+            length += prefix.length();
+            ++depth;
+        }
+        else {
+            ++length;
+        }
+    }
+    return { .length = str.length(), .is_terminated = false };
+}
+
 std::optional<unsigned long long> parse_uinteger_literal(std::u8string_view str) noexcept
 {
     if (str.empty()) {
-- 
2.43.0


From b42b753c6b3c83255cc185afe73198a72557a6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 060/157] fix: nest comments in EBNF

---
 src/main/cpp/lang/ebnf.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/lang/ebnf.cpp b/src/main/cpp/lang/ebnf.cpp
index 696044d..c1acf09 100644
--- a/src/main/cpp/lang/ebnf.cpp
+++ b/src/main/cpp/lang/ebnf.cpp
@@ -329,10 +329,17 @@ private:
 
     void consume_comment()
     {
-        consume_delimited(
-            u8"(*", u8"*)", //
-            Highlight_Type::comment_delim, Highlight_Type::comment, Highlight_Type::comment_delim
-        );
+        // ISO/IEC 14977, 4.18: a comment symbol may itself be a bracketed textual comment.
+        const Enclosed_Result comment = match_enclosed_nested(remainder, u8"(*", u8"*)");
+        const std::size_t suffix_length = comment.is_terminated ? 2 : 0;
+        const std::size_t content_length = comment.length - 2 - suffix_length;
+        emit_and_advance(2, Highlight_Type::comment_delim);
+        if (content_length != 0) {
+            emit_and_advance(content_length, Highlight_Type::comment);
+        }
+        if (comment.is_terminated) {
+            emit_and_advance(2, Highlight_Type::comment_delim);
+        }
     }
 
     void consume_string(char8_t quote_char)
-- 
2.43.0


From 354ba546fd9180271bb9b1fc47e39a148b0e248e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:13 +0000
Subject: [PATCH 061/157] fix: do not end Java, Kotlin and Rust comments at
 U+2028 or U+2029

---
 src/main/cpp/lang/java.cpp   | 10 +++++++++-
 src/main/cpp/lang/kotlin.cpp | 10 +++++++++-
 src/main/cpp/lang/rust.cpp   | 10 +++++++++-
 3 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/lang/java.cpp b/src/main/cpp/lang/java.cpp
index 3d9b22a..a26157b 100644
--- a/src/main/cpp/lang/java.cpp
+++ b/src/main/cpp/lang/java.cpp
@@ -163,7 +163,15 @@ using js::Comment_Result;
 // https://docs.oracle.com/javase/specs/jls/se26/html/jls-3.html#jls-TraditionalComment
 using js::match_block_comment;
 // https://docs.oracle.com/javase/specs/jls/se26/html/jls-3.html#jls-EndOfLineComment
-using js::match_line_comment;
+[[nodiscard]]
+static std::size_t match_line_comment(std::u8string_view str)
+{
+    // Unlike in JavaScript, U+2028 and U+2029 are not line terminators.
+    if (!str.starts_with(u8"//")) {
+        return 0;
+    }
+    return std::min(str.find_first_of(u8"\r\n", 2), str.length());
+}
 
 Escape_Result match_escape_sequence(const std::u8string_view str)
 {
diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index 35b6239..b1bf472 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -158,7 +158,15 @@ std::optional<Token_Type> match_symbol(std::u8string_view str) noexcept
 // However, it should be close enough.
 using cpp::match_identifier;
 
-using js::match_line_comment;
+[[nodiscard]]
+static std::size_t match_line_comment(std::u8string_view str)
+{
+    // Unlike in JavaScript, U+2028 and U+2029 are not line terminators.
+    if (!str.starts_with(u8"//")) {
+        return 0;
+    }
+    return std::min(str.find_first_of(u8"\r\n", 2), str.length());
+}
 
 Escape_Result match_escape_sequence(const std::u8string_view str)
 {
diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index 6ae0d1b..ad447ce 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -241,7 +241,15 @@ std::optional<Token_Type> match_punctuation(std::u8string_view str) noexcept
     }
 }
 
-using js::match_line_comment;
+[[nodiscard]]
+static std::size_t match_line_comment(std::u8string_view str)
+{
+    // Unlike in JavaScript, U+2028 and U+2029 are not line terminators.
+    if (!str.starts_with(u8"//")) {
+        return 0;
+    }
+    return std::min(str.find_first_of(u8"\r\n", 2), str.length());
+}
 
 namespace {
 
-- 
2.43.0


From 21685978b3bccfe035df5b52c7011fd0ab394f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:13 +0000
Subject: [PATCH 062/157] fix: highlight YAML comments following other content
 in a line

---
 src/main/cpp/lang/yaml.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 6718378..8c70866 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -278,10 +278,16 @@ private:
     // Line-level utilities
     // ========================================================================
 
-    /// @brief Skip to the next line.
+    /// @brief Skip to the next line, highlighting a comment at the end of the current line.
     void skip_line()
     {
         while (!remainder.empty() && !match_line_break(remainder)) {
+            // https://yaml.org/spec/1.2.2/#66-comments
+            // Comments have to be separated from other tokens by white space.
+            if (remainder[0] == u8'#' && index != 0 && is_yaml_whitespace(remainder.data()[-1])) {
+                consume_comment();
+                break;
+            }
             advance(1);
         }
         skip_line_break();
-- 
2.43.0


From c96a905bc416d75fc15f10e9e74892f1f698fb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:13 +0000
Subject: [PATCH 063/157] fix: highlight YAML numbers with white space at the
 end of the line

---
 src/main/cpp/lang/yaml.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 8c70866..93b5d4e 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -1203,11 +1203,14 @@ private:
             const bool number_followed_by_colon = peek == u8':'
                 && (num.length + 1 >= remainder.length() || remainder[num.length + 1] == u8' '
                     || match_line_break(remainder.substr(num.length + 1)));
-            // Space + flow indicator (e.g. "42 }" in flow mappings) or space + comment.
-            const bool number_then_terminating_space = num.length + 1 < remainder.length()
-                && peek == u8' '
-                && (remainder[num.length + 1] == u8'#'
-                    || is_yaml_flow_indicator(remainder[num.length + 1]));
+            // Space + flow indicator (e.g. "42 }" in flow mappings), space + comment,
+            // or nothing but space in the rest of the line.
+            const std::u8string_view after_space = remainder.substr(
+                ascii::length_if(remainder, is_yaml_whitespace, num.length)
+            );
+            const bool number_then_terminating_space = is_yaml_whitespace(peek)
+                && (after_space.empty() || match_line_break(after_space)
+                    || after_space[0] == u8'#' || is_yaml_flow_indicator(after_space[0]));
             if (number_terminates || peek == u8']' || peek == u8'}' || number_followed_by_colon
                 || number_then_terminating_space) {
                 const auto highlight
-- 
2.43.0


From e0d46bbf63aa7298809063c2ac7d76279de5719d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:49 +0000
Subject: [PATCH 064/157] fix: do not let JavaScript comments turn a division
 into a regular expression

---
 src/main/cpp/lang/js.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 94a8ac4..386910a 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -1202,9 +1202,22 @@ private:
     {
         const std::size_t white_length = match_whitespace(remainder);
         advance(white_length);
+        if (white_length != 0) {
+            no_hashbang();
+        }
         return white_length != 0;
     }
 
+    /// @brief Called after white space and comments,
+    /// which do not affect whether `/` can begin a regular expression,
+    /// but can no longer be followed by a hashbang comment.
+    void no_hashbang()
+    {
+        if (input_element_has_hashbang(input_element)) {
+            input_element = Input_Element::regex;
+        }
+    }
+
     bool expect_hashbang_comment()
     {
         // https://262.ecma-international.org/15.0/index.html#sec-hashbang
@@ -1221,6 +1234,7 @@ private:
         if (hashbang_length > 2) {
             emit_and_advance(hashbang_length - 2, Highlight_Type::comment);
         }
+        no_hashbang();
         return true;
     }
 
@@ -1240,7 +1254,7 @@ private:
         if (length > 2) {
             emit_and_advance(length - 2, Highlight_Type::comment);
         }
-        input_element = Input_Element::regex;
+        no_hashbang();
     }
 
     bool expect_block_comment()
@@ -1266,7 +1280,7 @@ private:
             emit(index + block_comment.length - 2, 2, Highlight_Type::comment_delim); // */
         }
         advance(block_comment.length);
-        input_element = Input_Element::regex;
+        no_hashbang();
     }
 
     bool expect_string_literal()
-- 
2.43.0


From 3202cf346c06421fda11b4246f8a917e302cb84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:49 +0000
Subject: [PATCH 065/157] fix: treat a lone carriage return as a line
 terminator in JavaScript line continuations

---
 src/main/cpp/lang/js.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 386910a..77da801 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -171,6 +171,7 @@ std::size_t match_line_terminator_sequence(std::u8string_view s)
 
     return s.starts_with(u8'\n') ? 1
         : s.starts_with(crlf)    ? crlf.length()
+        : s.starts_with(u8'\r')  ? 1
         : s.starts_with(ls)      ? ls.length()
         : s.starts_with(ps)      ? ps.length()
                                  : 0;
-- 
2.43.0


From cb7ab6b254f25c2bdb4cb1f42d6df2e55298b7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:49 +0000
Subject: [PATCH 066/157] fix: let neither slashes in classes nor escaped line
 terminators end or extend JavaScript regular expressions

---
 src/main/cpp/lang/js.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 77da801..802ac1e 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -1451,18 +1451,28 @@ private:
 
         rem.remove_prefix(1);
 
-        auto escaped = false;
+        bool escaped = false;
+        bool in_class = false;
 
         for (std::size_t size = 0; size < rem.length(); ++size) {
             const char8_t c = rem[size];
 
+            if (starts_with_line_terminator(rem.substr(size))) {
+                break;
+            }
             if (escaped) {
                 escaped = false;
             }
             else if (c == u8'\\') {
                 escaped = true;
             }
-            else if (c == u8'/') {
+            else if (c == u8'[') {
+                in_class = true;
+            }
+            else if (c == u8']') {
+                in_class = false;
+            }
+            else if (c == u8'/' && !in_class) {
                 emit_and_advance(1, Highlight_Type::string_delim);
                 emit_and_advance(size, Highlight_Type::string);
                 emit_and_advance(1, Highlight_Type::string_delim);
@@ -1472,9 +1482,6 @@ private:
                 input_element = Input_Element::div;
                 return true;
             }
-            else if (starts_with_line_terminator(rem.substr(size))) {
-                break;
-            }
         }
 
         return false;
-- 
2.43.0


From 416467bed805d4102e43e7d15557d4341df1b09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:18 +0000
Subject: [PATCH 067/157] fix: do not let incomplete escapes include the end of
 the literal

---
 include/ulight/impl/escapes.hpp | 41 ++++++++++++++-------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/include/ulight/impl/escapes.hpp b/include/ulight/impl/escapes.hpp
index 7f22643..f661112 100644
--- a/include/ulight/impl/escapes.hpp
+++ b/include/ulight/impl/escapes.hpp
@@ -109,10 +109,16 @@ constexpr Escape_Result match_common_braced_escape(std::u8string_view str, Predi
     if (!str.starts_with(u8'{')) {
         return { .length = 0, .erroneous = true };
     }
-    const std::size_t length_without_brace = ascii::length_before(str, u8'}', 1);
-    const std::u8string_view digits = str.substr(1, length_without_brace - 1);
-    const bool terminated = length_without_brace != str.length();
-    const bool erroneous = !terminated || length_without_brace <= 1 || !all_of(digits, p);
+    // An escape that is not terminated must not include anything that could end the literal,
+    // such as a closing quote or the end of the line.
+    constexpr auto ends_content = [](char8_t c) {
+        return c == u8'}' || c == u8'"' || c == u8'\'' || c == u8'`' || c == u8'\\' || c == u8'\n'
+            || c == u8'\r';
+    };
+    const std::size_t length_without_brace = ascii::length_if_not(str, ends_content, 1);
+    const std::u8string_view content = str.substr(1, length_without_brace - 1);
+    const bool terminated = str.substr(length_without_brace).starts_with(u8'}');
+    const bool erroneous = !terminated || content.empty() || !all_of(content, p);
     const std::size_t length = length_without_brace + std::size_t(terminated);
     return { .length = length, .erroneous = erroneous };
 }
@@ -157,30 +163,17 @@ constexpr Escape_Result match_common_escape(std::u8string_view str)
     else if constexpr (type == Common_Escape::hex_2 || type == Common_Escape::hex_4
                        || type == Common_Escape::hex_8) {
         constexpr std::size_t min_length = escape_type_min_length(type);
-        const std::u8string_view available = str;
         str = str.substr(0, min(min_length, str.length()));
-        if (str.length() < min_length) {
-            return { .length = str.length(), .erroneous = true };
-        }
-        const bool all_hex = all_of(str, hex_digit_lambda);
-        std::size_t length = str.length();
-        // An erroneous escape must not end in the middle of a code point.
-        while (!all_hex && length != 0 && length < available.length()
-               && (available[length] & 0xC0) == 0x80) {
-            --length;
-        }
-        return { .length = length, .erroneous = !all_hex };
+        // Where digits are missing, there may be anything, such as a closing quote,
+        // so an erroneous escape must not extend beyond letters and digits.
+        const std::size_t length
+            = ascii::length_if(str, [](char8_t c) { return is_ascii_alphanumeric(c); });
+        const bool erroneous = length != min_length || !all_of(str, hex_digit_lambda);
+        return { .length = length, .erroneous = erroneous };
     }
 
     else if constexpr (type == Common_Escape::nonempty_braced) {
-        if (!str.starts_with(u8'{')) {
-            return { .length = 0, .erroneous = true };
-        }
-        const std::size_t index = str.find(u8'}', 1);
-        if (index == std::u8string_view::npos) {
-            return { .length = str.length(), .erroneous = true };
-        }
-        return { .length = index + 1, .erroneous = index == 1 };
+        return detail::match_common_braced_escape(str, [](char8_t) { return true; });
     }
 
     else if constexpr (type == Common_Escape::hex_braced) {
-- 
2.43.0


From 7907dd7789bfa9f42abe154954a89e224a84cfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:57 +0000
Subject: [PATCH 068/157] fix: let CR end JavaScript strings, and CRLF be
 escaped in them

---
 src/main/cpp/lang/js.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 802ac1e..d22c388 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -310,6 +310,10 @@ String_Literal_Result match_string_literal(std::u8string_view str)
 
         if (escaped) {
             escaped = false;
+            // A line continuation may consist of a backslash and CRLF.
+            if (str.substr(length).starts_with(u8"\r\n")) {
+                ++length;
+            }
         }
         else if (c == u8'\\') {
             escaped = true;
@@ -317,7 +321,7 @@ String_Literal_Result match_string_literal(std::u8string_view str)
         else if (c == quote) {
             return String_Literal_Result { .length = length + 1, .terminated = true };
         }
-        else if (c == u8'\n') {
+        else if (c == u8'\n' || c == u8'\r') {
             return String_Literal_Result { .length = length, .terminated = false };
         }
 
-- 
2.43.0


From f4fd4c80bb2f0f441afb91ae66d747abde9c128b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:57 +0000
Subject: [PATCH 069/157] fix: do not consider single quotes escapable in
 double-quoted Bash strings

---
 include/ulight/impl/lang/bash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/bash.hpp b/include/ulight/impl/lang/bash.hpp
index a53e3ef..68b9e46 100644
--- a/include/ulight/impl/lang/bash.hpp
+++ b/include/ulight/impl/lang/bash.hpp
@@ -27,7 +27,7 @@ inline constexpr auto is_bash_metacharacter = is_bash_blank | Charset256(u8"|&;(
 /// For example, `\x` has no special meaning within double quotes (outside it does).
 ///
 /// https://www.gnu.org/software/bash/manual/bash.html#Double-Quotes
-inline constexpr auto is_bash_escapable_in_double_quotes = Charset256(u8"'$`\"\\\n");
+inline constexpr auto is_bash_escapable_in_double_quotes = Charset256(u8"$`\"\\\n");
 
 /// @brief Returns `true` iff `c` forms a parameter substitution
 /// when preceded by `$` despite not being a variable name.
-- 
2.43.0


From 299d8920a7169a7f9872367d4e43720be67897a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:57 +0000
Subject: [PATCH 070/157] fix: highlight unterminated NASM backquoted strings
 at the end of the source

---
 src/main/cpp/lang/nasm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index 57b8d48..10a8afa 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -658,6 +658,8 @@ private:
             }
             }
         }
+        // Unterminated string.
+        flush();
     }
 
     bool expect_escape()
-- 
2.43.0


From 28cfe8244e431672e1774310ce58d2ea550393be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:57 +0000
Subject: [PATCH 071/157] fix: accept octal escapes of one or two digits in
 NASM and Python

---
 src/main/cpp/lang/nasm.cpp   | 2 +-
 src/main/cpp/lang/python.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index 10a8afa..6133c10 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -44,7 +44,7 @@ Escape_Result match_escape_sequence(std::u8string_view str)
     case u8'5':
     case u8'6':
     case u8'7': {
-        return match_common_escape<Common_Escape::octal_1_to_2>(str, 2);
+        return match_common_escape<Common_Escape::octal_1_to_3>(str, 1);
     }
     case u8'x': {
         return match_common_escape<Common_Escape::hex_1_to_2>(str, 2);
diff --git a/src/main/cpp/lang/python.cpp b/src/main/cpp/lang/python.cpp
index ff8b430..84a6f62 100644
--- a/src/main/cpp/lang/python.cpp
+++ b/src/main/cpp/lang/python.cpp
@@ -165,7 +165,7 @@ Escape_Result match_escape_sequence(const std::u8string_view str, const String_P
         // Note that while octal escapes with a value above 255 produce a `SyntaxWarning`
         // as of Python 3.12, they do not raise an error yet,
         // so we don't highlight them as an error.
-        return match_common_escape<Common_Escape::octal_3>(str, 1);
+        return match_common_escape<Common_Escape::octal_1_to_3>(str, 1);
     }
 
     case u8'x': return match_common_escape<Common_Escape::hex_2>(str, 2);
-- 
2.43.0


From dc59558738c748bb1d83af3697dcadf5be30e223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:57 +0000
Subject: [PATCH 072/157] fix: recognize the Python string prefixes "u" and
 "Rf"

---
 src/main/cpp/lang/python.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/cpp/lang/python.cpp b/src/main/cpp/lang/python.cpp
index 84a6f62..cbcc8eb 100644
--- a/src/main/cpp/lang/python.cpp
+++ b/src/main/cpp/lang/python.cpp
@@ -96,6 +96,7 @@ std::optional<String_Prefix> classify_string_prefix(std::u8string_view str)
         { u8"RB", raw_byte },
         { u8"RF", raw_formatted },
         { u8"Rb", raw_byte },
+        { u8"Rf", raw_formatted },
         { u8"U", unicode },
         { u8"b", byte },
         { u8"bR", raw_byte },
@@ -108,6 +109,7 @@ std::optional<String_Prefix> classify_string_prefix(std::u8string_view str)
         { u8"rF", raw_formatted },
         { u8"rb", raw_byte },
         { u8"rf", raw_formatted },
+        { u8"u", unicode },
     };
     static_assert(std::ranges::is_sorted(prefixes, {}, &Prefix_And_Type::id));
 
-- 
2.43.0


From 7973caf0ecebad630d1e09c51e50b6e79862ee57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 073/157] fix: continue Bash commands correctly after
 substitutions, quotes and escapes

---
 src/main/cpp/lang/bash.cpp | 44 +++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/main/cpp/lang/bash.cpp b/src/main/cpp/lang/bash.cpp
index a7b2f13..e68369f 100644
--- a/src/main/cpp/lang/bash.cpp
+++ b/src/main/cpp/lang/bash.cpp
@@ -179,17 +179,23 @@ private:
         while (!remainder.empty()) {
             switch (remainder[0]) {
             case u8'\\': {
+                const bool is_line_continuation = remainder.starts_with(u8"\\\n");
                 consume_escape_character();
+                if (!is_line_continuation) {
+                    enter_word();
+                }
                 continue;
             }
             case u8'\'': {
                 const String_Result string = match_single_quoted_string(remainder);
                 highlight_string(string);
+                enter_word();
                 continue;
             }
             case u8'"': {
                 emit_and_advance(1, Highlight_Type::string_delim);
                 consume_double_quoted_string();
+                enter_word();
                 continue;
             }
             case u8'#': {
@@ -313,6 +319,17 @@ private:
         }
     }
 
+    /// @brief Called after a part of a word which is not handled by `consume_word`.
+    void enter_word()
+    {
+        if (state == State::before_command) {
+            state = State::in_command;
+        }
+        else if (state == State::before_argument) {
+            state = State::in_argument;
+        }
+    }
+
     void consume_escape_character()
     {
         if (remainder.starts_with(u8"\\\n")) {
@@ -375,10 +392,13 @@ private:
     {
         ULIGHT_ASSERT(remainder.size() >= 2 && remainder.starts_with(u8'$'));
         const char8_t next = remainder[1];
+        const State outer_state = state;
         if (next == u8'{') {
             emit_and_advance(2, Highlight_Type::string_interpolation_delim);
             state = State::parameter_sub;
             consume_commands(Context::parameter_sub);
+            state = outer_state;
+            enter_word();
             return;
         }
         if (next == u8'(') {
@@ -386,31 +406,25 @@ private:
                 emit_and_advance(3, Highlight_Type::string_interpolation_delim);
                 state = State::before_command;
                 consume_commands(Context::arith_sub);
-                return;
             }
-            emit_and_advance(2, Highlight_Type::string_interpolation_delim);
-            state = State::before_command;
-            consume_commands(Context::command_sub);
+            else {
+                emit_and_advance(2, Highlight_Type::string_interpolation_delim);
+                state = State::before_command;
+                consume_commands(Context::command_sub);
+            }
+            state = outer_state;
+            enter_word();
             return;
         }
 
-        const auto update_state = [&] {
-            if (state == State::before_command) {
-                state = State::in_command;
-            }
-            else if (state == State::before_argument) {
-                state = State::in_argument;
-            };
-        };
-
         if (is_bash_special_parameter(next)) {
             emit_and_advance(2, Highlight_Type::string_interpolation);
-            update_state();
+            enter_word();
             return;
         }
         if (const std::size_t id = match_identifier(remainder.substr(1))) {
             emit_and_advance(id + 1, Highlight_Type::string_interpolation);
-            update_state();
+            enter_word();
             return;
         }
         ULIGHT_ASSERT_UNREACHABLE(u8"No substitution to consume.");
-- 
2.43.0


From aa7755d13f1c9694a9e8e4030a6047cdf2369eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:47 +0000
Subject: [PATCH 074/157] fix: highlight Bash commands following `;`, `|`,
 `||`, and `&&` as commands

---
 src/main/cpp/lang/bash.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/cpp/lang/bash.cpp b/src/main/cpp/lang/bash.cpp
index e68369f..b1c1a19 100644
--- a/src/main/cpp/lang/bash.cpp
+++ b/src/main/cpp/lang/bash.cpp
@@ -264,7 +264,13 @@ private:
             case u8'>': {
                 const std::optional<Token_Type> op = match_operator(remainder);
                 ULIGHT_ASSERT(op);
+                // https://www.gnu.org/software/bash/manual/bash.html#Lists
+                const bool is_separator = remainder[0] == u8';' || remainder[0] == u8'|'
+                    || remainder.starts_with(u8"&&");
                 emit_and_advance(token_type_length(*op), Highlight_Type::symbol_op);
+                if (is_separator && state != State::parameter_sub) {
+                    state = State::before_command;
+                }
                 continue;
             }
             case u8'}': {
-- 
2.43.0


From 1515f034e14caa2ffbf6515d01c1cbca8f6a67b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:08 +0000
Subject: [PATCH 075/157] fix: treat CRLF as one character in CSS escapes

---
 src/main/cpp/lang/css.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index 9c94b03..e4a4d48 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -89,12 +89,21 @@ std::size_t match_escaped_code_point(std::u8string_view str)
     if (str.empty()) {
         return 0;
     }
+    // https://www.w3.org/TR/css-syntax-3/#input-preprocessing
+    // CRLF is a single code point after preprocessing.
+    constexpr std::u8string_view crlf = u8"\r\n";
+    if (str.starts_with(crlf)) {
+        return crlf.length();
+    }
     std::size_t length = 0;
     while (length < 6 && length < str.length() && is_ascii_hex_digit(str[length])) {
         ++length;
     }
     if (length != 0) {
-        if (length < str.length() && is_css_whitespace(str[length])) {
+        if (str.substr(length).starts_with(crlf)) {
+            length += crlf.length();
+        }
+        else if (length < str.length() && is_css_whitespace(str[length])) {
             ++length;
         }
         return length;
-- 
2.43.0


From 220f67cc0c3f25268e61bbb1d6b311a20e1d599f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:08 +0000
Subject: [PATCH 076/157] fix: let CRLF be escaped in Python raw strings

---
 src/main/cpp/lang/python.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/cpp/lang/python.cpp b/src/main/cpp/lang/python.cpp
index cbcc8eb..92615f6 100644
--- a/src/main/cpp/lang/python.cpp
+++ b/src/main/cpp/lang/python.cpp
@@ -425,6 +425,10 @@ private:
                     // However, a backslash still prevents the next source character from
                     // terminating the literal early, so they must be consumed together.
                     const std::u8string_view escaped_units = remainder.substr(1);
+                    if (escaped_units.starts_with(u8"\r\n")) {
+                        emit_and_advance(3, Highlight_Type::string);
+                        continue;
+                    }
                     const auto [_, units] = utf8::decode_and_length_or_replacement(escaped_units);
                     const auto highlight = string_prefix_is_byte(prefix) && units != 1
                         ? Highlight_Type::error
-- 
2.43.0


From 822bc6873e1bac291d0f4cb1d1bb0ce69bc26f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:40 +0000
Subject: [PATCH 077/157] fix: recognize url tokens in CSS

---
 src/main/cpp/lang/css.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index e4a4d48..4ab2247 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -137,7 +137,7 @@ Ident_Result match_ident_like_token(std::u8string_view str)
     // parenthesis or the following URL, just the identifier.
 
     const std::size_t length = match_ident_sequence(str);
-    const std::u8string_view result = str.substr(length);
+    const std::u8string_view result = str.substr(0, length);
 
     if (length == str.length() || str[length] != u8'(') {
         return { .length = length, .type = Ident_Type::ident };
-- 
2.43.0


From d22a3d11266983abf19484ec9600796fe42b6985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:36 +0000
Subject: [PATCH 078/157] fix: do not include extra hashes in the end of Rust
 raw strings

---
 src/main/cpp/lang/rust.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index ad447ce..c4bb02f 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -507,7 +507,8 @@ private:
                         = ascii::length_before_not(remainder.substr(length + 1), u8'#');
                     if (terminating_hashes >= raw_hash_length) {
                         flush();
-                        emit_and_advance(1 + terminating_hashes, Highlight_Type::string_delim);
+                        // Any further hashes are separate tokens.
+                        emit_and_advance(1 + raw_hash_length, Highlight_Type::string_delim);
                         break;
                     }
                 }
-- 
2.43.0


From b6039c16048c0ff327594359b382633c73e424e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:27 +0000
Subject: [PATCH 079/157] fix: do not match identifiers with leading
 underscores as numbers

---
 src/main/cpp/parse_utils.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index 01f4303..4bf27b2 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -226,6 +226,12 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
         return str.substr(length).starts_with(u8'0') ? options.default_leading_zero_base
                                                      : options.default_base;
     }();
+    // Without a prefix, a leading digit separator cannot be distinguished from an identifier
+    // such as "_1", so this is not a number.
+    if (options.digit_separator != 0 && result.prefix == 0
+        && str.substr(length).starts_with(options.digit_separator)) {
+        return {};
+    }
     {
         const auto [integer_digits, integer_error]
             = match_separated_digits(str.substr(length), base, options.digit_separator);
-- 
2.43.0


From d7ce89e9336b4f27c930eecf1cdadce52bd98dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:27 +0000
Subject: [PATCH 080/157] fix: highlight super in Kotlin

---
 include/ulight/impl/lang/kotlin.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/kotlin.hpp b/include/ulight/impl/lang/kotlin.hpp
index 6036cce..64a9bf0 100644
--- a/include/ulight/impl/lang/kotlin.hpp
+++ b/include/ulight/impl/lang/kotlin.hpp
@@ -118,7 +118,7 @@ namespace ulight::kotlin {
     F(sealed, "sealed", keyword)                                                                   \
     F(set, "set", keyword)                                                                         \
     F(setparam, "setparam", keyword)                                                               \
-    F(super, "super@", keyword_this)                                                               \
+    F(super, "super", keyword_this)                                                                \
     F(super_at, "super@", keyword_this)                                                            \
     F(suspend, "suspend", keyword)                                                                 \
     F(this_, "this", keyword_this)                                                                 \
-- 
2.43.0


From 24ae7a3780a1a63f65af059ec9c64b2c423d6b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:27 +0000
Subject: [PATCH 081/157] fix: do not highlight catch as a keyword in C

---
 include/ulight/impl/lang/cpp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/cpp.hpp b/include/ulight/impl/lang/cpp.hpp
index 4c2734e..d71ab45 100644
--- a/include/ulight/impl/lang/cpp.hpp
+++ b/include/ulight/impl/lang/cpp.hpp
@@ -193,7 +193,7 @@ constexpr bool is_cpp_feature(Feature_Source source)
     F(kw_bool, "bool", keyword_type, c_cpp)                                                        \
     F(kw_break, "break", keyword_control, c_cpp)                                                   \
     F(kw_case, "case", keyword_control, c_cpp)                                                     \
-    F(kw_catch, "catch", keyword_control, c_cpp)                                                   \
+    F(kw_catch, "catch", keyword_control, cpp)                                                     \
     F(kw_char, "char", keyword_type, c_cpp)                                                        \
     F(kw_char16_t, "char16_t", keyword_type, cpp)                                                  \
     F(kw_char32_t, "char32_t", keyword_type, cpp)                                                  \
-- 
2.43.0


From 85de682ee246eef9e402f413a97b0a672e22d216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:27 +0000
Subject: [PATCH 082/157] fix: highlight throw and try in C++ as control flow
 keywords

---
 include/ulight/impl/lang/cpp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ulight/impl/lang/cpp.hpp b/include/ulight/impl/lang/cpp.hpp
index d71ab45..432963b 100644
--- a/include/ulight/impl/lang/cpp.hpp
+++ b/include/ulight/impl/lang/cpp.hpp
@@ -270,10 +270,10 @@ constexpr bool is_cpp_feature(Feature_Source source)
     F(kw_template, "template", keyword, cpp)                                                       \
     F(kw_this, "this", keyword_this, cpp)                                                          \
     F(kw_thread_local, "thread_local", keyword, c_cpp)                                             \
-    F(kw_throw, "throw", keyword, cpp)                                                             \
+    F(kw_throw, "throw", keyword_control, cpp)                                                     \
     F(kw_trivially_relocatable_if_eligible, "trivially_relocatable_if_eligible", keyword, cpp)     \
     F(kw_true, "true", bool_, c_cpp)                                                               \
-    F(kw_try, "try", keyword, cpp)                                                                 \
+    F(kw_try, "try", keyword_control, cpp)                                                         \
     F(kw_typedef, "typedef", keyword, c_cpp)                                                       \
     F(kw_typeid, "typeid", keyword, cpp)                                                           \
     F(kw_typename, "typename", keyword, cpp)                                                       \
-- 
2.43.0


From d24345b3dc3baef208cb8b86917d49b090d33447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:27 +0000
Subject: [PATCH 083/157] fix: highlight half in LLVM as a type

---
 src/main/cpp/lang/llvm.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/cpp/lang/llvm.cpp b/src/main/cpp/lang/llvm.cpp
index 9e6ba73..f0216d7 100644
--- a/src/main/cpp/lang/llvm.cpp
+++ b/src/main/cpp/lang/llvm.cpp
@@ -67,6 +67,7 @@ constexpr LLVM_Keyword keywords[] {
     { u8"false"sv, Highlight_Type::bool_ },
     { u8"float"sv, Highlight_Type::keyword_type },
     { u8"fp128"sv, Highlight_Type::keyword_type },
+    { u8"half"sv, Highlight_Type::keyword_type },
     { u8"indirectbr"sv, Highlight_Type::keyword_control },
     { u8"invoke"sv, Highlight_Type::keyword_control },
     { u8"label"sv, Highlight_Type::keyword_type },
-- 
2.43.0


From 2ce9f3b70af904cc77a10c4023ddaab1112a50a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:36 +0000
Subject: [PATCH 084/157] fix: recognize xmm30, ymm30, and zmm30 as NASM
 registers

---
 src/main/cpp/lang/nasm.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index 6133c10..2411675 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -248,17 +248,17 @@ constexpr std::u8string_view registers[] {
     u8"xmm0", u8"xmm1", u8"xmm10", u8"xmm11", u8"xmm12", u8"xmm13", u8"xmm14", u8"xmm15",
     u8"xmm16", u8"xmm17", u8"xmm18", u8"xmm19", u8"xmm2", u8"xmm20", u8"xmm21", u8"xmm22",
     u8"xmm23", u8"xmm24", u8"xmm25", u8"xmm26", u8"xmm27", u8"xmm28", u8"xmm29", u8"xmm3",
-    u8"xmm31", u8"xmm32", u8"xmm4", u8"xmm5", u8"xmm6", u8"xmm7", u8"xmm8", u8"xmm9",
+    u8"xmm30", u8"xmm31", u8"xmm4", u8"xmm5", u8"xmm6", u8"xmm7", u8"xmm8", u8"xmm9",
 
     u8"ymm0", u8"ymm1", u8"ymm10", u8"ymm11", u8"ymm12", u8"ymm13", u8"ymm14", u8"ymm15",
     u8"ymm16", u8"ymm17", u8"ymm18", u8"ymm19", u8"ymm2", u8"ymm20", u8"ymm21", u8"ymm22",
     u8"ymm23", u8"ymm24", u8"ymm25", u8"ymm26", u8"ymm27", u8"ymm28", u8"ymm29", u8"ymm3",
-    u8"ymm31", u8"ymm32", u8"ymm4", u8"ymm5", u8"ymm6", u8"ymm7", u8"ymm8", u8"ymm9",
+    u8"ymm30", u8"ymm31", u8"ymm4", u8"ymm5", u8"ymm6", u8"ymm7", u8"ymm8", u8"ymm9",
 
     u8"zmm0", u8"zmm1", u8"zmm10", u8"zmm11", u8"zmm12", u8"zmm13", u8"zmm14", u8"zmm15",
     u8"zmm16", u8"zmm17", u8"zmm18", u8"zmm19", u8"zmm2", u8"zmm20", u8"zmm21", u8"zmm22",
     u8"zmm23", u8"zmm24", u8"zmm25", u8"zmm26", u8"zmm27", u8"zmm28", u8"zmm29", u8"zmm3",
-    u8"zmm31", u8"zmm32", u8"zmm4", u8"zmm5", u8"zmm6", u8"zmm7", u8"zmm8", u8"zmm9",
+    u8"zmm30", u8"zmm31", u8"zmm4", u8"zmm5", u8"zmm6", u8"zmm7", u8"zmm8", u8"zmm9",
 };
 // clang-format on
 
-- 
2.43.0


From c9450c9d31d651ce6becb0b6ce6d46da4d85c133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:36 +0000
Subject: [PATCH 085/157] fix: recognize jns, jcxz, jecxz, and jrcxz as NASM
 instructions with labels

---
 src/main/cpp/lang/nasm.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index 2411675..0e58395 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -267,10 +267,11 @@ static_assert(std::ranges::is_sorted(registers));
 constexpr std::u8string_view label_instructions[] {
     u8"call",
 
-    u8"ja",   u8"jae",   u8"jb",     u8"jbe",    u8"jc",    u8"je",   u8"jg",  u8"jge",
-    u8"jl",   u8"jle",   u8"jmp",    u8"jna",    u8"jna",   u8"jnae", u8"jnb", u8"jnbe",
-    u8"jnc",  u8"jne",   u8"jng",    u8"jnge",   u8"jnl",   u8"jnle", u8"jno", u8"jnp",
-    u8"jnz",  u8"jo",    u8"jp",     u8"jpe",    u8"jpo",   u8"js",   u8"jz",
+    u8"ja",   u8"jae",   u8"jb",     u8"jbe",    u8"jc",    u8"jcxz", u8"je",  u8"jecxz",
+    u8"jg",   u8"jge",   u8"jl",     u8"jle",    u8"jmp",   u8"jna",  u8"jnae", u8"jnb",
+    u8"jnbe", u8"jnc",   u8"jne",    u8"jng",    u8"jnge",  u8"jnl",  u8"jnle", u8"jno",
+    u8"jnp",  u8"jns",   u8"jnz",    u8"jo",     u8"jp",    u8"jpe",  u8"jpo", u8"jrcxz",
+    u8"js",   u8"jz",
 
     u8"loop", u8"loope", u8"loopne", u8"loopnz", u8"loopz",
 };
-- 
2.43.0


From e0215e583f6e7988ea83a26b703a5130893d58a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:12 +0000
Subject: [PATCH 086/157] fix: require a leading digit in NASM numbers with a
 suffix

---
 src/main/cpp/lang/nasm.cpp | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index 0e58395..1112fa1 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -527,7 +527,9 @@ private:
         if (remainder.starts_with(digit_separator)) {
             return false;
         }
-        return expect_suffixed_number() || expect_common_number();
+        // Hexadecimal numbers with a suffix need a leading digit as well;
+        // "ffh" is an identifier, "0ffh" is a number.
+        return (is_ascii_digit(remainder[0]) && expect_suffixed_number()) || expect_common_number();
     }
 
     bool expect_common_number()
@@ -569,22 +571,6 @@ private:
         if (!suffixed) {
             return false;
         }
-        if (suffixed.base == 16) {
-            // In the case of hex numbers, there are actually some insane ambiguities.
-            // For example, "eax" could technically be parsed as hexadecimal digits
-            // "ea" followed by the suffix "x".
-            // The only thing we can really do in this case is detect special cases that shouldn't
-            // be parsed as numbers.
-            const std::u8string_view number = remainder.substr(0, suffixed.digits + 1);
-            if (is_pseudo_instruction(number)) {
-                emit_and_advance(number.length(), Highlight_Type::name_instruction_pseudo);
-                return true;
-            }
-            if (is_register(number)) {
-                emit_and_advance(number.length(), Highlight_Type::name_var);
-                return true;
-            }
-        }
         if (suffixed.erroneous) {
             emit_and_advance(suffixed.digits + suffixed.suffix, Highlight_Type::error);
             return true;
-- 
2.43.0


From a3bc1ad745a03cf655c13075d732eff49f995b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:23 +0000
Subject: [PATCH 087/157] fix: highlight unquoted URLs in CSS as strings

---
 src/main/cpp/lang/css.cpp | 41 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index 4ab2247..963e97d 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -405,7 +405,12 @@ public:
             }
             default: {
                 if (is_css_identifier_start(c)) {
+                    const bool is_url
+                        = match_ident_like_token(remainder).type == Ident_Type::url;
                     consume_ident_like_token(contextual_highlight_type);
+                    if (is_url) {
+                        consume_url();
+                    }
                 }
                 else {
                     advance(std::min(remainder.length(), std::size_t(utf8::sequence_length(c, 1))));
@@ -522,6 +527,42 @@ public:
         }
         flush();
     }
+
+    /// @brief Consumes the parenthesis following `url`,
+    /// as well as any unquoted URL up to (but not including) the closing parenthesis.
+    void consume_url()
+    {
+        // https://www.w3.org/TR/css-syntax-3/#consume-url-token
+        ULIGHT_ASSERT(remainder.starts_with(u8'('));
+        emit_and_advance(1, Highlight_Type::symbol_parens);
+        consume_whitespace();
+        if (remainder.starts_with(u8'"') || remainder.starts_with(u8'\'')) {
+            return;
+        }
+
+        std::size_t length = 0;
+        const auto flush = [&] {
+            if (length != 0) {
+                emit_and_advance(length, Highlight_Type::string);
+                length = 0;
+            }
+        };
+        while (length < remainder.length() && remainder[length] != u8')') {
+            if (starts_with_valid_escape(remainder.substr(length))) {
+                flush();
+                const std::size_t escape_length = match_escaped_code_point(remainder.substr(1)) + 1;
+                emit_and_advance(escape_length, Highlight_Type::string_escape);
+            }
+            else if (is_css_whitespace(remainder[length])) {
+                flush();
+                consume_whitespace();
+            }
+            else {
+                ++length;
+            }
+        }
+        flush();
+    }
 };
 
 } // namespace
-- 
2.43.0


From 5278d57a160d956461d11a190aff6067216775b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:52 +0000
Subject: [PATCH 088/157] fix: accept digit separators in exponents

---
 src/main/cpp/parse_utils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index 4bf27b2..24237db 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -274,9 +274,11 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
             result.exponent_sep = s.str.length();
             length += result.exponent_sep;
 
-            const std::size_t exp_digits = match_digits(str.substr(length));
+            const auto [exp_digits, exp_error]
+                = match_separated_digits(str.substr(length), 10, options.digit_separator);
             result.exponent_digits += exp_digits;
             result.erroneous |= exp_digits == 0;
+            result.erroneous |= exp_error;
             length += exp_digits;
             break;
         }
-- 
2.43.0


From 5995c993d364e570a601e3eb81082d785914271e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:52 +0000
Subject: [PATCH 089/157] fix: accept digit separators where Java, Kotlin,
 Python, and Rust allow them

---
 include/ulight/impl/numbers.hpp | 28 ++++++++++++++++++++++++++--
 src/main/cpp/lang/java.cpp      |  1 +
 src/main/cpp/lang/kotlin.cpp    |  1 +
 src/main/cpp/lang/python.cpp    |  1 +
 src/main/cpp/lang/rust.cpp      |  4 ++++
 src/main/cpp/parse_utils.cpp    | 28 +++++++++++++++++++++-------
 6 files changed, 54 insertions(+), 9 deletions(-)

diff --git a/include/ulight/impl/numbers.hpp b/include/ulight/impl/numbers.hpp
index 44487c3..5ccc19a 100644
--- a/include/ulight/impl/numbers.hpp
+++ b/include/ulight/impl/numbers.hpp
@@ -12,7 +12,8 @@ namespace ulight {
 struct Digits_Result {
     std::size_t length;
     /// @brief If `true`, does not satisfy the rules for a digit sequence.
-    /// In particular, digit separators cannot be leading or trailing,
+    /// In particular, unless permitted by `Separator_Rules`,
+    /// digit separators cannot be leading or trailing,
     /// and there cannot be multiple consecutive digit separators.
     bool erroneous;
 
@@ -36,8 +37,23 @@ inline Digits_Result match_digits_as_result(std::u8string_view str, int base = 1
     return { .length = match_digits(str, base), .erroneous = false };
 }
 
+/// @brief Where digit separators are permitted, besides alone between two digits.
+struct Separator_Rules {
+    /// @brief If `true`, separators may precede the first digit.
+    bool leading = false;
+    /// @brief If `true`, separators may follow the last digit.
+    bool trailing = false;
+    /// @brief If `true`, there may be multiple consecutive separators between digits.
+    bool repeated = false;
+};
+
 [[nodiscard]]
-Digits_Result match_separated_digits(std::u8string_view str, int base, char8_t separator = 0);
+Digits_Result match_separated_digits(
+    std::u8string_view str,
+    int base,
+    char8_t separator = 0,
+    Separator_Rules rules = {}
+);
 
 enum struct Matched_Signs : Underlying {
     none = 0b00,
@@ -96,6 +112,14 @@ struct Common_Number_Options {
     /// @brief An optional digit separator which is accepted as part of digit sequences
     /// in addition to the set of digits determined by the base.
     char8_t digit_separator = 0;
+    /// @brief If `true`, multiple consecutive digit separators are allowed, like `1__0`.
+    bool repeated_separators = false;
+    /// @brief If `true`, trailing digit separators are allowed, like `1_`.
+    bool trailing_separators = false;
+    /// @brief If `true`, digit separators are allowed following the prefix, like `0x_ff`.
+    bool separators_after_prefix = false;
+    /// @brief If `true`, digit separators are allowed at the start of the exponent, like `1e_5`.
+    bool leading_exponent_separators = false;
     /// @brief If `true`, the integer part shall not be empty, even if there is a fraction,
     /// like `.5f`.
     bool nonempty_integer = false;
diff --git a/src/main/cpp/lang/java.cpp b/src/main/cpp/lang/java.cpp
index a26157b..c8d9504 100644
--- a/src/main/cpp/lang/java.cpp
+++ b/src/main/cpp/lang/java.cpp
@@ -96,6 +96,7 @@ Common_Number_Result match_number(const std::u8string_view str)
         .exponent_separators = exponent_separators,
         .suffixes = suffixes,
         .digit_separator = digit_separator,
+        .repeated_separators = true,
         .nonempty_fraction = true,
     };
     return match_common_number(str, options);
diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index b1bf472..1af63c7 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -80,6 +80,7 @@ Common_Number_Result match_number(std::u8string_view str)
         .exponent_separators = exponent_separators,
         .suffixes = suffixes,
         .digit_separator = digit_separator,
+        .repeated_separators = true,
     };
     Common_Number_Result result = match_common_number(str, options);
     result.erroneous |= (result.fractional || result.radix_point) && result.prefix;
diff --git a/src/main/cpp/lang/python.cpp b/src/main/cpp/lang/python.cpp
index 92615f6..4ab3f00 100644
--- a/src/main/cpp/lang/python.cpp
+++ b/src/main/cpp/lang/python.cpp
@@ -140,6 +140,7 @@ Common_Number_Result match_number(std::u8string_view str)
         .exponent_separators = exponent_separators,
         .suffixes = suffixes,
         .digit_separator = digit_separator,
+        .separators_after_prefix = true,
         .nonempty_integer = true,
     };
     return match_common_number(str, options);
diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index c4bb02f..ab01b84 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -134,6 +134,10 @@ Common_Number_Result match_number(const std::u8string_view str)
         .exponent_separators = exponent_separators,
         .match_suffix = Constant<match_suffix> {},
         .digit_separator = digit_separator,
+        .repeated_separators = true,
+        .trailing_separators = true,
+        .separators_after_prefix = true,
+        .leading_exponent_separators = true,
         .nonempty_integer = true,
     };
     Common_Number_Result result = match_common_number(str, options);
diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index 24237db..e55093d 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -170,27 +170,34 @@ std::size_t match_digits(std::u8string_view str, int base)
     return ascii::length_if(str, predicate);
 }
 
-Digits_Result match_separated_digits(std::u8string_view str, int base, char8_t separator)
+Digits_Result match_separated_digits(
+    std::u8string_view str,
+    int base,
+    char8_t separator,
+    Separator_Rules rules
+)
 {
     if (separator == 0) {
         return match_digits_as_result(str, base);
     }
     bool erroneous = false;
 
+    bool any_digits = false;
     char8_t previous = separator;
     const std::size_t length = ascii::length_if(str, [&](char8_t c) {
         if (c == separator) {
-            erroneous |= previous == separator;
+            erroneous |= previous == separator && !(any_digits ? rules.repeated : rules.leading);
             previous = c;
             return true;
         }
         if (!is_ascii_digit_base(c, base)) {
             return false;
         }
+        any_digits = true;
         previous = c;
         return true;
     });
-    erroneous |= length != 0 && previous == separator;
+    erroneous |= length != 0 && (!any_digits || (previous == separator && !rules.trailing));
 
     return { .length = length, .erroneous = erroneous };
 }
@@ -213,6 +220,8 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
         result.sign = 1;
         length += 1;
     }
+    const Separator_Rules separator_rules { .trailing = options.trailing_separators,
+                                            .repeated = options.repeated_separators };
     const auto base = [&] -> int {
         for (const Number_Prefix& prefix : options.prefixes) {
             ULIGHT_DEBUG_ASSERT(!prefix.str.empty());
@@ -233,8 +242,10 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
         return {};
     }
     {
+        Separator_Rules rules = separator_rules;
+        rules.leading = result.prefix != 0 && options.separators_after_prefix;
         const auto [integer_digits, integer_error]
-            = match_separated_digits(str.substr(length), base, options.digit_separator);
+            = match_separated_digits(str.substr(length), base, options.digit_separator, rules);
         result.integer = integer_digits;
         result.erroneous |= options.nonempty_integer && integer_digits == 0;
         result.erroneous |= integer_error;
@@ -244,8 +255,9 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
     if (allow_float && str.substr(length).starts_with(u8'.')) {
         result.radix_point = 1;
 
-        const auto [fractional_digits, fractional_error]
-            = match_separated_digits(str.substr(length + 1), base, options.digit_separator);
+        const auto [fractional_digits, fractional_error] = match_separated_digits(
+            str.substr(length + 1), base, options.digit_separator, separator_rules
+        );
         result.fractional += fractional_digits;
         result.erroneous |= options.nonempty_fraction && fractional_digits == 0;
         result.erroneous |= fractional_error;
@@ -274,8 +286,10 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
             result.exponent_sep = s.str.length();
             length += result.exponent_sep;
 
+            Separator_Rules rules = separator_rules;
+            rules.leading = options.leading_exponent_separators;
             const auto [exp_digits, exp_error]
-                = match_separated_digits(str.substr(length), 10, options.digit_separator);
+                = match_separated_digits(str.substr(length), 10, options.digit_separator, rules);
             result.exponent_digits += exp_digits;
             result.erroneous |= exp_digits == 0;
             result.erroneous |= exp_error;
-- 
2.43.0


From 1b37eb60636a491a4e610f9079acaa2595b2a4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:52 +0000
Subject: [PATCH 090/157] fix: accept Python numbers without digits before the
 point

---
 src/main/cpp/lang/python.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/main/cpp/lang/python.cpp b/src/main/cpp/lang/python.cpp
index 4ab3f00..5390f58 100644
--- a/src/main/cpp/lang/python.cpp
+++ b/src/main/cpp/lang/python.cpp
@@ -141,7 +141,6 @@ Common_Number_Result match_number(std::u8string_view str)
         .suffixes = suffixes,
         .digit_separator = digit_separator,
         .separators_after_prefix = true,
-        .nonempty_integer = true,
     };
     return match_common_number(str, options);
 }
-- 
2.43.0


From 3f54fbe6490b84056f7cbaaa3519f591706ffc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:52 +0000
Subject: [PATCH 091/157] fix: match the Kotlin number suffixes UL and uL

---
 src/main/cpp/lang/kotlin.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index 1af63c7..0e4f13f 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -72,9 +72,8 @@ Common_Number_Result match_number(std::u8string_view str)
         { u8"e+", 10 }, { u8"e-", 10 }, { u8"e", 10 }, //
     };
     static constexpr std::u8string_view suffixes[] {
-        u8"F", u8"L", u8"U", u8"UL", u8"f", u8"l", u8"u", u8"uL",
+        u8"F", u8"L", u8"UL", u8"U", u8"f", u8"l", u8"uL", u8"u",
     };
-    static_assert(std::ranges::is_sorted(suffixes));
     static constexpr Common_Number_Options options {
         .prefixes = prefixes,
         .exponent_separators = exponent_separators,
-- 
2.43.0


From d67573409bc968f0c02a4f40f4dc549e799b7dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:18 +0000
Subject: [PATCH 092/157] fix: do not treat the point of a member access as
 part of a Kotlin number

---
 src/main/cpp/lang/kotlin.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index 0e4f13f..e1423f1 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -81,13 +81,22 @@ Common_Number_Result match_number(std::u8string_view str)
         .digit_separator = digit_separator,
         .repeated_separators = true,
     };
+
+    // A point which is followed by another point or by an identifier is not a radix point,
+    // but part of a range or of a member access, like in `1..2` or `1.plus(2)`.
+    const std::size_t integer_length = ascii::length_if(str, [](char8_t c) {
+        return is_ascii_digit(c) || c == digit_separator;
+    });
+    if (str.substr(integer_length).starts_with(u8'.')) {
+        const std::u8string_view after_point = str.substr(integer_length + 1);
+        if (after_point.starts_with(u8'.') || after_point.starts_with(u8'`')
+            || cpp::match_identifier(after_point)) {
+            str = str.substr(0, integer_length);
+        }
+    }
+
     Common_Number_Result result = match_common_number(str, options);
     result.erroneous |= (result.fractional || result.radix_point) && result.prefix;
-    if (result.radix_point && result.fractional == 0 && result.length < str.length()
-        && str[result.length] == u8'.') {
-        result.radix_point = 0;
-        --result.length;
-    }
     return result;
 }
 
-- 
2.43.0


From 5c68a45f077f946247a4499aa95b370f6d08acc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:18 +0000
Subject: [PATCH 093/157] fix: tell points of ranges, member accesses, and
 tuple indices from radix points in Rust

---
 src/main/cpp/lang/rust.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index ab01b84..b7066aa 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -113,8 +113,12 @@ std::optional<String_Classify_Result> classify_string_prefix(const std::u8string
     return String_Classify_Result { result->prefix_length, result->type };
 }
 
-Common_Number_Result match_number(const std::u8string_view str)
+Common_Number_Result match_number(std::u8string_view str)
 {
+    // Numbers cannot start with a point; ".0" may be part of a tuple index such as `pair.0`.
+    if (str.empty() || !is_ascii_digit(str[0])) {
+        return {};
+    }
     // https://doc.rust-lang.org/reference/grammar.html#grammar-summary-INTEGER_LITERAL
     static constexpr Number_Prefix prefixes[] {
         { u8"0b", 2 },
@@ -138,8 +142,21 @@ Common_Number_Result match_number(const std::u8string_view str)
         .trailing_separators = true,
         .separators_after_prefix = true,
         .leading_exponent_separators = true,
-        .nonempty_integer = true,
     };
+
+    // https://doc.rust-lang.org/reference/tokens.html#floating-point-literals
+    // A point which is followed by another point or by an identifier is not a radix point,
+    // but part of a range or of a member access, like in `1..2` or `1.max(2)`.
+    const std::size_t integer_length = ascii::length_if(str, [](char8_t c) {
+        return is_ascii_digit(c) || c == digit_separator;
+    });
+    if (str.substr(integer_length).starts_with(u8'.')) {
+        const std::u8string_view after_point = str.substr(integer_length + 1);
+        if (after_point.starts_with(u8'.') || match_identifier(after_point)) {
+            str = str.substr(0, integer_length);
+        }
+    }
+
     Common_Number_Result result = match_common_number(str, options);
     if (result.is_integer()) {
         if (result.suffix) {
-- 
2.43.0


From 558a395f9e3d08a7213116b04c5333c03c64f456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:18 +0000
Subject: [PATCH 094/157] fix: do not limit the digits of JavaScript numbers
 with a leading zero to octal

---
 src/main/cpp/lang/js.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index d22c388..04cbf21 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -370,7 +370,6 @@ Common_Number_Result match_numeric_literal(std::u8string_view str)
         .prefixes = prefixes,
         .exponent_separators = exponent_separators,
         .suffixes = suffixes,
-        .default_leading_zero_base = 8,
         .digit_separator = digit_separator,
     };
     Common_Number_Result result = match_common_number(str, options);
-- 
2.43.0


From 42896339f1df736eaae56dcf91c5f02dac3352da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:18 +0000
Subject: [PATCH 095/157] fix: highlight hexadecimal LLVM numbers with a type
 letter

---
 src/main/cpp/lang/llvm.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/llvm.cpp b/src/main/cpp/lang/llvm.cpp
index f0216d7..8dd113d 100644
--- a/src/main/cpp/lang/llvm.cpp
+++ b/src/main/cpp/lang/llvm.cpp
@@ -355,11 +355,12 @@ private:
     {
         // https://llvm.org/docs/LangRef.html#simple-constants
         static constexpr Number_Prefix prefixes[] {
-            { u8"0x"sv, 16 }, // float and double
+            { u8"0xH"sv, 16 }, // half
             { u8"0xK"sv, 16 }, // x86 80-bit
             { u8"0xL"sv, 16 }, // IEEE 128-bit
             { u8"0xM"sv, 16 }, // PowerPC 128-bit
             { u8"0xR"sv, 16 }, // bfloat 16-bit
+            { u8"0x"sv, 16 }, // float and double
             { u8"s0x"sv, 16 }, // signed integer
             { u8"u0x"sv, 16 }, // unsigned integer
         };
-- 
2.43.0


From c05cabd44cecf5c7a0bf77c09e095da4d22c7a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:40 +0000
Subject: [PATCH 096/157] fix: highlight LLVM numbers with a sign

---
 src/main/cpp/lang/llvm.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/llvm.cpp b/src/main/cpp/lang/llvm.cpp
index 8dd113d..2c0e26e 100644
--- a/src/main/cpp/lang/llvm.cpp
+++ b/src/main/cpp/lang/llvm.cpp
@@ -209,6 +209,14 @@ private:
             consume_identifier();
             break;
         }
+        case u8'+':
+        case u8'-': {
+            const bool is_number = remainder.length() > 1 && is_ascii_digit(remainder[1]);
+            if (!is_number || !expect_number()) {
+                goto default_case;
+            }
+            break;
+        }
         case u8's':
         case u8'u': {
             // https://llvm.org/docs/LangRef.html#simple-constants
@@ -372,7 +380,7 @@ private:
             { u8"E+", 10 }, { u8"E-", 10 }, { u8"E", 10 }, //
         };
         static constexpr Common_Number_Options options {
-            .signs = Matched_Signs::minus_only,
+            .signs = Matched_Signs::minus_and_plus,
             .prefixes = prefixes,
             .exponent_separators = exponent_separators,
         };
-- 
2.43.0


From 11e77836c800358f1b354dd346971411907dbff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:40 +0000
Subject: [PATCH 097/157] fix: highlight prefixed NASM numbers whose last digit
 could be a suffix

---
 src/main/cpp/lang/nasm.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index 1112fa1..bf0e968 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -300,6 +300,11 @@ constexpr Base_Suffix determine_suffix(std::u8string_view str)
     if (base <= 0) {
         return {};
     }
+    // If there is both a prefix and a suffix, the one with the greater base counts;
+    // for example, "0x1b" is hexadecimal because of its prefix, and "0b1h" because of its suffix.
+    if (str.length() > 2 && str[0] == u8'0' && base_of_suffix_char(str[1]) > base) {
+        return {};
+    }
     return { .length = 1, .base = base };
 }
 
-- 
2.43.0


From fb2551014a3fbc4709fbf90abc8be0eb40bed34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:40 +0000
Subject: [PATCH 098/157] fix: highlight hexadecimal NASM floating-point
 numbers

---
 src/main/cpp/lang/nasm.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index bf0e968..6480c70 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -544,7 +544,8 @@ private:
             { u8"0b", 2 },  { u8"0B", 2 },  { u8"0y", 2 },  { u8"0Y", 2 }, //
             { u8"0o", 8 },  { u8"0O", 8 },  { u8"0q", 8 },  { u8"0Q", 8 }, //
             { u8"0d", 10 }, { u8"0D", 10 }, { u8"0t", 10 }, { u8"0T", 10 }, //
-            { u8"0x", 16 }, { u8"0X", 16 }, { u8"0h", 16 }, { u8"0H", 16 }, { u8"$", 16 }, //
+            { u8"0x", 16, true }, { u8"0X", 16, true }, //
+            { u8"0h", 16 }, { u8"0H", 16 }, { u8"$", 16 }, //
         };
         // https://www.nasm.us/xdoc/2.16.03/html/nasmdoc3.html#section-3.4.4
         // Signed variants must come before the plain letter so that e.g. "e-3" is matched
-- 
2.43.0


From 7e462b9eef8a3d3dff1649495a5334c6827f9545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:40 +0000
Subject: [PATCH 099/157] fix: highlight the suffix of hexadecimal
 floating-point literals in C and C++

---
 src/main/cpp/lang/cpp.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/cpp.cpp b/src/main/cpp/lang/cpp.cpp
index 994a008..1c62410 100644
--- a/src/main/cpp/lang/cpp.cpp
+++ b/src/main/cpp/lang/cpp.cpp
@@ -909,6 +909,7 @@ public:
             pp_number.remove_prefix(2);
         }
 
+        bool is_after_exponent = false;
         std::size_t digits = 0;
         const auto flush_digits = [&] {
             if (digits != 0) {
@@ -955,6 +956,8 @@ public:
                 if (is_exponent) {
                     emit_and_advance(1, Highlight_Type::number_delim);
                     pp_number.remove_prefix(1);
+                    // The digits of the exponent are always decimal.
+                    is_after_exponent = true;
                     break;
                 }
                 emit_and_advance(pp_number.length(), Highlight_Type::number_decor);
@@ -983,7 +986,7 @@ public:
                 break;
             }
             default: {
-                if (is_hex && is_ascii_hex_digit(c)) {
+                if (is_hex && !is_after_exponent && is_ascii_hex_digit(c)) {
                     digits += 1;
                     pp_number.remove_prefix(1);
                     break;
-- 
2.43.0


From 91f90873e6c682dee8624bc403e1126d9a771b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:46 +0000
Subject: [PATCH 100/157] fix: recognize CSS identifiers starting with two
 hyphens everywhere

---
 src/main/cpp/lang/css.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index 963e97d..2b3e625 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -42,7 +42,7 @@ bool starts_with_ident_sequence(std::u8string_view str)
         return false;
     }
     if (str[0] == u8'-') {
-        return (str.length() > 1 && is_css_identifier_start(str[1]))
+        return (str.length() > 1 && (str[1] == u8'-' || is_css_identifier_start(str[1])))
             || starts_with_valid_escape(str.substr(1));
     }
     return is_css_identifier_start(str[0]) || starts_with_valid_escape(str);
@@ -261,7 +261,7 @@ public:
                         emit_and_advance(cdc_token.length(), Highlight_Type::comment_delim);
                         break;
                     }
-                    if (starts_with_ident_sequence(remainder.substr(1))) {
+                    if (starts_with_ident_sequence(remainder)) {
                         consume_ident_like_token(Highlight_Type::name);
                         break;
                     }
-- 
2.43.0


From 810f13d636a29828cfe4af731d1741ca30514893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:40 +0000
Subject: [PATCH 101/157] fix: do not start comments within Bash parameter
 substitutions

---
 src/main/cpp/lang/bash.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/cpp/lang/bash.cpp b/src/main/cpp/lang/bash.cpp
index b1c1a19..aa37e8e 100644
--- a/src/main/cpp/lang/bash.cpp
+++ b/src/main/cpp/lang/bash.cpp
@@ -199,6 +199,10 @@ private:
                 continue;
             }
             case u8'#': {
+                if (context == Context::parameter_sub) {
+                    consume_word(context);
+                    continue;
+                }
                 const std::size_t length = match_comment(remainder);
                 emit_and_advance(1, Highlight_Type::comment_delim);
                 if (length > 1) {
-- 
2.43.0


From b5ac9e44c867cc4f186b6ec9c147727c6a283907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:40 +0000
Subject: [PATCH 102/157] fix: do not start subshells within Bash parameter
 substitutions

---
 src/main/cpp/lang/bash.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/cpp/lang/bash.cpp b/src/main/cpp/lang/bash.cpp
index aa37e8e..f5f0e5b 100644
--- a/src/main/cpp/lang/bash.cpp
+++ b/src/main/cpp/lang/bash.cpp
@@ -237,6 +237,9 @@ private:
             }
             case u8'(': {
                 emit_and_advance(1, Highlight_Type::symbol_parens);
+                if (context == Context::parameter_sub) {
+                    continue;
+                }
                 state = State::before_command;
                 consume_commands(Context::subshell);
                 continue;
-- 
2.43.0


From c301e2be4197c743c671b460a188f431d3f94aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:40 +0000
Subject: [PATCH 103/157] fix: do not start commands after line breaks in Bash
 parameter substitutions

---
 src/main/cpp/lang/bash.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/bash.cpp b/src/main/cpp/lang/bash.cpp
index f5f0e5b..73d446f 100644
--- a/src/main/cpp/lang/bash.cpp
+++ b/src/main/cpp/lang/bash.cpp
@@ -223,7 +223,9 @@ private:
             case u8'\r':
             case u8'\n': {
                 advance(1);
-                state = State::before_command;
+                if (state != State::parameter_sub) {
+                    state = State::before_command;
+                }
                 continue;
             }
             case u8'$': {
-- 
2.43.0


From 15eaf504832beb7d5d487fb5466fe0d605ab086f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:40 +0000
Subject: [PATCH 104/157] fix: do not start Bash comments within a word

---
 src/main/cpp/lang/bash.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/bash.cpp b/src/main/cpp/lang/bash.cpp
index 73d446f..82d518e 100644
--- a/src/main/cpp/lang/bash.cpp
+++ b/src/main/cpp/lang/bash.cpp
@@ -156,6 +156,9 @@ private:
     };
 
     State state = State::before_command;
+    /// @brief The index past the last part of a word, if any.
+    /// If this equals `index`, the word continues.
+    std::size_t word_end = std::size_t(-1);
 
 public:
     Highlighter(
@@ -180,10 +183,14 @@ private:
             switch (remainder[0]) {
             case u8'\\': {
                 const bool is_line_continuation = remainder.starts_with(u8"\\\n");
+                const bool is_in_word = index == word_end;
                 consume_escape_character();
                 if (!is_line_continuation) {
                     enter_word();
                 }
+                else if (is_in_word) {
+                    word_end = index;
+                }
                 continue;
             }
             case u8'\'': {
@@ -199,7 +206,7 @@ private:
                 continue;
             }
             case u8'#': {
-                if (context == Context::parameter_sub) {
+                if (context == Context::parameter_sub || index == word_end) {
                     consume_word(context);
                     continue;
                 }
@@ -332,11 +339,13 @@ private:
             break;
         }
         }
+        word_end = index;
     }
 
     /// @brief Called after a part of a word which is not handled by `consume_word`.
     void enter_word()
     {
+        word_end = index;
         if (state == State::before_command) {
             state = State::in_command;
         }
-- 
2.43.0


From 087ecf235fa94b6002de42876f6b8155b321c47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:53 +0000
Subject: [PATCH 105/157] fix: find the end of braced JSX children with nested
 templates, regexes, and text

---
 src/main/cpp/lang/js.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 04cbf21..b4568ca 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -1152,15 +1152,13 @@ private:
             }
             case u8'{': {
                 // https://facebook.github.io/jsx/#prod-JSXChild
-                const JSX_Braced_Result braced = match_jsx_braced(rem);
-                if (braced) {
-                    highlight_jsx_braced(braced);
-                    rem.remove_prefix(braced.length);
-                }
-                else {
-                    emit_and_advance(1, Highlight_Type::error);
-                    rem.remove_prefix(1);
+                emit_and_advance(1, Highlight_Type::symbol_brace);
+                consume_js_before_closing_brace();
+                if (!remainder.empty()) {
+                    ULIGHT_ASSERT(remainder.starts_with(u8'}'));
+                    emit_and_advance(1, Highlight_Type::symbol_brace);
                 }
+                rem = remainder;
                 continue;
             }
             case u8'}': {
-- 
2.43.0


From b50ce59093b712f2301b43c1031450c3d49a5102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:53 +0000
Subject: [PATCH 106/157] fix: find the end of braced JSX attributes with
 template literals

---
 src/main/cpp/lang/js.cpp | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index b4568ca..db03e8a 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -528,6 +528,36 @@ std::size_t match_whitespace_comment_sequence(std::u8string_view str)
     return out.length;
 }
 
+/// @brief Returns the length of a template literal at the start of `str`, including substitutions.
+/// If the literal is unterminated, the length of `str` is returned.
+[[nodiscard]]
+std::size_t match_template(std::u8string_view str)
+{
+    // https://262.ecma-international.org/15.0/index.html#sec-template-literal-lexical-components
+    if (!str.starts_with(u8'`')) {
+        return 0;
+    }
+    std::size_t length = 1;
+    while (length < str.length()) {
+        switch (str[length]) {
+        case u8'`': return length + 1;
+        case u8'\\': {
+            length = std::min(length + 2, str.length());
+            break;
+        }
+        case u8'$': {
+            ++length;
+            length += match_jsx_braced(str.substr(length)).length;
+            break;
+        }
+        default: {
+            ++length;
+        }
+        }
+    }
+    return length;
+}
+
 } // namespace
 
 [[nodiscard]]
@@ -566,6 +596,10 @@ JSX_Braced_Result match_jsx_braced(std::u8string_view str)
             length += s ? s.length : 1;
             break;
         }
+        case u8'`': {
+            length += match_template(str.substr(length));
+            break;
+        }
         default: {
             ++length;
         }
-- 
2.43.0


From 0389438dc56ded1252473ca6612858f5d586384b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:55 +0000
Subject: [PATCH 107/157] fix: highlight '$' which does not begin a reference
 in Kotlin strings as text

---
 src/main/cpp/lang/kotlin.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index e1423f1..a1ca3e3 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -432,8 +432,9 @@ private:
             // Character literals do not support string interpolation;
             // '$' is an ordinary character inside them.
             if (!is_character && remainder[length] == u8'$') {
-                flush();
-                if (remainder.starts_with(u8"${")) {
+                const std::u8string_view ref = remainder.substr(length);
+                if (ref.starts_with(u8"${")) {
+                    flush();
                     emit_and_advance(2, Highlight_Type::string_interpolation_delim);
                     consume_brace_balanced_tokens(Context::string);
                     if (eof()) {
@@ -443,14 +444,13 @@ private:
                     emit_and_advance(1, Highlight_Type::string_interpolation_delim);
                     continue;
                 }
-                if (const std::size_t id = match_identifier(remainder.substr(1))) {
+                if (const std::size_t id = match_identifier(ref.substr(1))) {
+                    flush();
                     emit_and_advance(1 + id, Highlight_Type::string_interpolation);
                     continue;
                 }
-                // A '$' that cannot be matched as a LineStrExprStart or FieldIdentifier
-                // is an error.
-                emit_and_advance(1, Highlight_Type::error);
-                continue;
+                // Based on the LineStrText and MultiLineStrText rules in the grammar,
+                // any other '$' is simply part of the string.
             }
 
             // 3. Check for escape sequences.
-- 
2.43.0


From c42538d1a7dee47a3104cc8a51ba4c4da64d8ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:55 +0000
Subject: [PATCH 108/157] fix: highlight references to backtick identifiers in
 Kotlin strings

---
 src/main/cpp/lang/kotlin.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index a1ca3e3..8277535 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -204,6 +204,19 @@ Escape_Result match_escape_sequence(const std::u8string_view str)
 
 namespace {
 
+/// @brief Returns the length of a non-empty backtick identifier at the start of `str`,
+/// including the delimiters.
+[[nodiscard]]
+std::size_t match_backtick_identifier(std::u8string_view str)
+{
+    // https://kotlinlang.org/docs/reference/grammar.html#Identifier
+    if (!str.starts_with(u8'`')) {
+        return 0;
+    }
+    const std::size_t end = str.find_first_of(u8"\r\n`", 1);
+    return end == std::u8string_view::npos || str[end] != u8'`' || end == 1 ? 0 : end + 1;
+}
+
 struct Highlighter : Highlighter_Base {
 
     Highlighter(
@@ -444,7 +457,9 @@ private:
                     emit_and_advance(1, Highlight_Type::string_interpolation_delim);
                     continue;
                 }
-                if (const std::size_t id = match_identifier(ref.substr(1))) {
+                const std::size_t backtick_id = match_backtick_identifier(ref.substr(1));
+                if (const std::size_t id
+                    = backtick_id ? backtick_id : match_identifier(ref.substr(1))) {
                     flush();
                     emit_and_advance(1 + id, Highlight_Type::string_interpolation);
                     continue;
-- 
2.43.0


From 503aad06ece0642c30896f2ea384ecf2352823f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:36 +0000
Subject: [PATCH 109/157] fix: highlight Bash positional parameters

---
 include/ulight/impl/lang/bash.hpp | 8 +++++++-
 src/main/cpp/lang/bash.cpp        | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/ulight/impl/lang/bash.hpp b/include/ulight/impl/lang/bash.hpp
index 68b9e46..7f2ac3f 100644
--- a/include/ulight/impl/lang/bash.hpp
+++ b/include/ulight/impl/lang/bash.hpp
@@ -38,6 +38,11 @@ inline constexpr auto is_bash_escapable_in_double_quotes = Charset256(u8"$`\"\\\
 // https://www.gnu.org/software/bash/manual/bash.html#Special-Parameters
 inline constexpr auto is_bash_special_parameter = Charset256(u8"*@#?-$!0");
 
+/// @brief Returns `true` iff `c` is a positional parameter when preceded by `$`.
+/// Positional parameters with more than one digit have to be enclosed in braces.
+// https://www.gnu.org/software/bash/manual/bash.html#Positional-Parameters
+inline constexpr auto is_bash_positional_parameter = Charset256(u8"123456789");
+
 // https://www.gnu.org/software/bash/manual/bash.html#index-name
 inline constexpr auto is_bash_identifier_start = is_ascii_alpha | u8'_';
 // https://www.gnu.org/software/bash/manual/bash.html#index-name
@@ -45,7 +50,8 @@ inline constexpr auto is_bash_identifier = is_ascii_alphanumeric | u8'_';
 
 /// @brief Returns `true` iff `c` would start a parameter substitution when following `'$'`.
 inline constexpr auto is_bash_parameter_substitution_start
-    = Charset256(u8"({") | is_bash_identifier_start | is_bash_special_parameter;
+    = Charset256(u8"({") | is_bash_identifier_start | is_bash_special_parameter
+    | is_bash_positional_parameter;
 
 /// @brief Returns `true` if `c` is a character that ends a sequence of unquoted characters that
 /// comprise a single argument for the highlighter.
diff --git a/src/main/cpp/lang/bash.cpp b/src/main/cpp/lang/bash.cpp
index 82d518e..39fda36 100644
--- a/src/main/cpp/lang/bash.cpp
+++ b/src/main/cpp/lang/bash.cpp
@@ -441,7 +441,7 @@ private:
             return;
         }
 
-        if (is_bash_special_parameter(next)) {
+        if (is_bash_special_parameter(next) || is_bash_positional_parameter(next)) {
             emit_and_advance(2, Highlight_Type::string_interpolation);
             enter_word();
             return;
-- 
2.43.0


From 30ba1c42a8bfe2d7058d0ed2f7d87fa2265e58bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:39 +0000
Subject: [PATCH 110/157] fix: highlight '%>' as a brace in C and C++

---
 src/main/cpp/lang/cpp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/cpp.cpp b/src/main/cpp/lang/cpp.cpp
index 1c62410..bba2416 100644
--- a/src/main/cpp/lang/cpp.cpp
+++ b/src/main/cpp/lang/cpp.cpp
@@ -482,7 +482,7 @@ std::optional<Token_Type> match_preprocessing_op_or_punc(std::u8string_view str,
         return str.starts_with(u8"%:%:") ? pound_pound_alt
             : str.starts_with(u8"%:")    ? pound_alt
             : str.starts_with(u8"%=")    ? percent_eq
-            : str.starts_with(u8"%>")    ? right_square_alt
+            : str.starts_with(u8"%>")    ? right_brace_alt
                                          : percent;
     case u8'{': return left_brace;
     case u8'}': return right_brace;
-- 
2.43.0


From be85eb917ddff9202ff733f57231cb62758f5f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:39 +0000
Subject: [PATCH 111/157] fix: highlight '::' as one token in C

---
 include/ulight/impl/lang/cpp.hpp | 2 +-
 src/main/cpp/lang/cpp.cpp        | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/ulight/impl/lang/cpp.hpp b/include/ulight/impl/lang/cpp.hpp
index 432963b..ff01e90 100644
--- a/include/ulight/impl/lang/cpp.hpp
+++ b/include/ulight/impl/lang/cpp.hpp
@@ -104,7 +104,7 @@ constexpr bool is_cpp_feature(Feature_Source source)
     F(slash, "/", symbol_op, c_cpp)                                                                \
     F(slash_eq, "/=", symbol_op, c_cpp)                                                            \
     F(colon, ":", symbol_punc, c_cpp)                                                              \
-    F(scope, "::", symbol_op, cpp)                                                                 \
+    F(scope, "::", symbol_op, c_cpp)                                                               \
     F(right_square_alt, ":>", symbol_square, c_cpp)                                                \
     F(semicolon, ";", symbol_punc, c_cpp)                                                          \
     F(less, "<", symbol_op, c_cpp)                                                                 \
diff --git a/src/main/cpp/lang/cpp.cpp b/src/main/cpp/lang/cpp.cpp
index bba2416..091df0a 100644
--- a/src/main/cpp/lang/cpp.cpp
+++ b/src/main/cpp/lang/cpp.cpp
@@ -492,7 +492,7 @@ std::optional<Token_Type> match_preprocessing_op_or_punc(std::u8string_view str,
     case u8')': return right_parens;
     case u8'<': {
         // https://eel.is/c++draft/lex.pptoken#4.2
-        if (str.starts_with(u8"<::") && !str.starts_with(u8"<:::") && !str.starts_with(u8"<::>")) {
+        if (is_cpp && str.starts_with(u8"<::") && !str.starts_with(u8"<:::") && !str.starts_with(u8"<::>")) {
             return less;
         }
         return is_cpp && str.starts_with(u8"<=>") ? three_way
@@ -505,9 +505,9 @@ std::optional<Token_Type> match_preprocessing_op_or_punc(std::u8string_view str,
     }
     case u8';': return semicolon;
     case u8':':
-        return str.starts_with(u8":>")          ? right_square_alt //
-            : is_cpp && str.starts_with(u8"::") ? scope
-                                                : colon;
+        return str.starts_with(u8":>") ? right_square_alt //
+            : str.starts_with(u8"::")  ? scope
+                                       : colon;
     case u8'.':
         return str.starts_with(u8"...")         ? ellipsis
             : is_cpp && str.starts_with(u8".*") ? member_pointer_access
-- 
2.43.0


From 4aa80236aac9c7a03f1129e06b7d486a16ffba89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:39 +0000
Subject: [PATCH 112/157] fix: highlight Kotlin identifiers which begin with
 'in' or 'is' after '!'

---
 src/main/cpp/lang/kotlin.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index 8277535..4543529 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -111,9 +111,9 @@ std::optional<Token_Type> match_symbol(std::u8string_view str) noexcept
     switch (str[0]) {
     case u8'!':
         return str.starts_with(u8"!=") ? excl_eq
-            : str.starts_with(u8"!in") ? not_in
-            : str.starts_with(u8"!is") ? not_is
-                                       : excl;
+            : str.starts_with(u8"!in") && cpp::match_identifier(str.substr(1)) == 2 ? not_in
+            : str.starts_with(u8"!is") && cpp::match_identifier(str.substr(1)) == 2 ? not_is
+                                                                                    : excl;
     case u8'"': return str.starts_with(u8"\"\"\"") ? triple_quote_open : quote_open;
     case u8'#': return hash;
     case u8'%': return str.starts_with(u8"%=") ? mod_assignment : mod;
-- 
2.43.0


From 3193f5c098f10b47a823f45f6be8805e0c0eb1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:39 +0000
Subject: [PATCH 113/157] fix: highlight '=>' as one token in Kotlin

---
 src/main/cpp/lang/kotlin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index 4543529..dcb308e 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -137,7 +137,7 @@ std::optional<Token_Type> match_symbol(std::u8string_view str) noexcept
     case u8'=':
         return str.starts_with(u8"===") ? eqeqeq
             : str.starts_with(u8"==")   ? eqeq
-            : str.starts_with(u8">=")   ? double_arrow
+            : str.starts_with(u8"=>")   ? double_arrow
                                         : assignment;
     case u8'>': return str.starts_with(u8">=") ? ge : rangle;
     case u8'?':
-- 
2.43.0


From c5a4f22452110daeb3eb71b3ed9db63dbce76eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:39 +0000
Subject: [PATCH 114/157] fix: highlight '!==' and '..<' as one token in Kotlin

---
 include/ulight/impl/lang/kotlin.hpp | 2 ++
 src/main/cpp/lang/kotlin.cpp        | 9 +++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/ulight/impl/lang/kotlin.hpp b/include/ulight/impl/lang/kotlin.hpp
index 64a9bf0..b57f891 100644
--- a/include/ulight/impl/lang/kotlin.hpp
+++ b/include/ulight/impl/lang/kotlin.hpp
@@ -14,6 +14,7 @@ namespace ulight::kotlin {
 #define ULIGHT_KOTLIN_TOKEN_ENUM_DATA(F)                                                           \
     F(excl, "!", symbol_op)                                                                        \
     F(excl_eq, "!=", symbol_op)                                                                    \
+    F(excl_eqeq, "!==", symbol_op)                                                                 \
     F(not_in, "!in", keyword)                                                                      \
     F(not_is, "!is", keyword)                                                                      \
     F(quote_open, "\"", string_delim)                                                              \
@@ -37,6 +38,7 @@ namespace ulight::kotlin {
     F(dot, ".", symbol_punc)                                                                       \
     F(range, "..", symbol_punc)                                                                    \
     F(reserved, "...", symbol_punc)                                                                \
+    F(range_until, "..<", symbol_punc)                                                             \
     F(div, "/", symbol_op)                                                                         \
     F(div_assignment, "/=", symbol_op)                                                             \
     F(colon, ":", symbol_punc)                                                                     \
diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index dcb308e..bbb9f7c 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -110,7 +110,8 @@ std::optional<Token_Type> match_symbol(std::u8string_view str) noexcept
     }
     switch (str[0]) {
     case u8'!':
-        return str.starts_with(u8"!=") ? excl_eq
+        return str.starts_with(u8"!==") ? excl_eqeq
+            : str.starts_with(u8"!=") ? excl_eq
             : str.starts_with(u8"!in") && cpp::match_identifier(str.substr(1)) == 2 ? not_in
             : str.starts_with(u8"!is") && cpp::match_identifier(str.substr(1)) == 2 ? not_is
                                                                                     : excl;
@@ -129,7 +130,11 @@ std::optional<Token_Type> match_symbol(std::u8string_view str) noexcept
             : str.starts_with(u8"-=")  ? sub_assignment
             : str.starts_with(u8"->")  ? arrow
                                        : sub;
-    case u8'.': return str.starts_with(u8"...") ? reserved : str.starts_with(u8"..") ? range : dot;
+    case u8'.':
+        return str.starts_with(u8"...") ? reserved
+            : str.starts_with(u8"..<")  ? range_until
+            : str.starts_with(u8"..")   ? range
+                                        : dot;
     case u8'/': return str.starts_with(u8"/=") ? div_assignment : div;
     case u8':': return str.starts_with(u8"::") ? coloncolon : colon;
     case u8';': return str.starts_with(u8";;") ? double_semicolon : semicolon;
-- 
2.43.0


From e408cdd5c0cf7d67ee4ab542e4469aa7fb13a20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:39 +0000
Subject: [PATCH 115/157] fix: highlight the CSS combinator '+'

---
 src/main/cpp/lang/css.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index 2b3e625..acbf296 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -266,9 +266,14 @@ public:
                         break;
                     }
                 }
+                if (c == u8'+' && context == Context::top_level) {
+                    // Example: "dt + dd"
+                    emit_and_advance(1, selector_highlight_type, Coalescing::forced);
+                    break;
+                }
                 emit_and_advance(
                     1,
-                    context == Context::value || context == Context::at_prelude
+                    c == u8'+' || context == Context::value || context == Context::at_prelude
                         ? Highlight_Type::symbol_op
                         : Highlight_Type::error
                 );
-- 
2.43.0


From 6e5f6e27978ddde1282acfc1451145daedc6d422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:39 +0000
Subject: [PATCH 116/157] fix: do not include '-' in NASM identifiers

---
 include/ulight/impl/lang/nasm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/nasm.hpp b/include/ulight/impl/lang/nasm.hpp
index 4c0a95a..78a9eeb 100644
--- a/include/ulight/impl/lang/nasm.hpp
+++ b/include/ulight/impl/lang/nasm.hpp
@@ -12,7 +12,7 @@ namespace ulight::nasm {
 inline constexpr auto is_nasm_identifier_start = is_ascii_alpha | Charset256(u8"._?$");
 
 // https://www.nasm.us/xdoc/2.16.03/html/nasmdoc3.html
-inline constexpr auto is_nasm_identifier = is_ascii_alphanumeric | Charset256(u8"_$@-.?");
+inline constexpr auto is_nasm_identifier = is_ascii_alphanumeric | Charset256(u8"_$#@~.?");
 
 [[nodiscard]]
 bool is_pseudo_instruction(std::u8string_view name) noexcept;
-- 
2.43.0


From 620aadf7697a07d83bcadcf164944d6b8c9cb3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:39 +0000
Subject: [PATCH 117/157] fix: highlight '$' and '$$' in NASM expressions

---
 src/main/cpp/lang/nasm.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index 6480c70..d2e4dc0 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -539,6 +539,12 @@ private:
 
     bool expect_common_number()
     {
+        // Hexadecimal numbers with a "$" prefix need a leading digit;
+        // otherwise, "$" is the current position or part of an identifier.
+        if (remainder.starts_with(u8'$')
+            && (remainder.length() < 2 || !is_ascii_digit(remainder[1]))) {
+            return false;
+        }
         // https://www.nasm.us/xdoc/2.16.03/html/nasmdoc3.html#section-3.4.1
         static constexpr Number_Prefix prefixes[] {
             { u8"0b", 2 },  { u8"0B", 2 },  { u8"0y", 2 },  { u8"0Y", 2 }, //
-- 
2.43.0


From dc2eb5a0fba6b09bc14ed371a3fe00669607377e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:39 +0000
Subject: [PATCH 118/157] fix: highlight the NASM operators '*', '=', '==', and
 '<>'

---
 src/main/cpp/lang/nasm.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index d2e4dc0..ee221e3 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -73,7 +73,9 @@ std::size_t match_operator(std::u8string_view str)
     case u8':':
     case u8'+':
     case u8'-':
+    case u8'*':
     case u8'~': return 1;
+    case u8'=': return str.starts_with(u8"==") ? 2 : 1;
     case u8'!': return str.starts_with(u8"!=") ? 2 : 1;
     case u8'|': return str.starts_with(u8"||") ? 2 : 1;
     case u8'&': return str.starts_with(u8"&&") ? 2 : 1;
@@ -88,6 +90,7 @@ std::size_t match_operator(std::u8string_view str)
             : str.starts_with(u8"<=>")  ? 3
             : str.starts_with(u8"<<")   ? 2
             : str.starts_with(u8"<=")   ? 2
+            : str.starts_with(u8"<>")   ? 2
                                         : 1;
     case u8'/': return str.starts_with(u8"//") ? 2 : 1;
     case u8'%': return str.starts_with(u8"%%") ? 2 : 1;
-- 
2.43.0


From f8af063c170cd249134030a7fcdd9106d8470492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:39 +0000
Subject: [PATCH 119/157] fix: highlight the NASM operators '%' and '%%'

---
 src/main/cpp/lang/nasm.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index ee221e3..b7381fc 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -433,7 +433,16 @@ private:
             break;
         }
         case u8'%': {
-            consume_macro();
+            // The modulo operators have to be followed by whitespace,
+            // which is what distinguishes them from macros.
+            const std::size_t op_length = match_operator(remainder);
+            const std::u8string_view after_op = remainder.substr(op_length);
+            if (after_op.starts_with(u8' ') || after_op.starts_with(u8'\t')) {
+                emit_and_advance(op_length, Highlight_Type::symbol_op);
+            }
+            else {
+                consume_macro();
+            }
             break;
         }
 
-- 
2.43.0


From 703cc3561bfc00266b391ca647c052398a2ea908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:39 +0000
Subject: [PATCH 120/157] fix: highlight '...', '*', and '|' in LLVM IR

---
 src/main/cpp/lang/llvm.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/llvm.cpp b/src/main/cpp/lang/llvm.cpp
index 2c0e26e..99f00f1 100644
--- a/src/main/cpp/lang/llvm.cpp
+++ b/src/main/cpp/lang/llvm.cpp
@@ -186,11 +186,22 @@ private:
             emit_and_advance(1, Highlight_Type::symbol_brace);
             break;
         }
+        case u8'.': {
+            if (remainder.starts_with(u8"...")) {
+                emit_and_advance(3, Highlight_Type::symbol_punc);
+            }
+            else {
+                emit_and_advance(1, Highlight_Type::error, Coalescing::forced);
+            }
+            break;
+        }
+        case u8'*':
         case u8',':
         case u8':':
         case u8'<':
         case u8'=':
-        case u8'>': {
+        case u8'>':
+        case u8'|': {
             emit_and_advance(1, Highlight_Type::symbol_punc);
             break;
         }
-- 
2.43.0


From ccec04336011abd18ae6beee09ad2afd96045733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:39 +0000
Subject: [PATCH 121/157] fix: highlight attribute groups and metadata in LLVM
 IR

---
 src/main/cpp/lang/llvm.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/main/cpp/lang/llvm.cpp b/src/main/cpp/lang/llvm.cpp
index 99f00f1..75731e5 100644
--- a/src/main/cpp/lang/llvm.cpp
+++ b/src/main/cpp/lang/llvm.cpp
@@ -228,6 +228,16 @@ private:
             }
             break;
         }
+        case u8'#': {
+            // https://llvm.org/docs/LangRef.html#attribute-groups
+            consume_prefixed_attribute(ascii::length_if(remainder.substr(1), is_ascii_digit));
+            break;
+        }
+        case u8'!': {
+            // https://llvm.org/docs/LangRef.html#metadata
+            consume_prefixed_attribute(ascii::length_if(remainder.substr(1), is_llvm_identifier));
+            break;
+        }
         case u8's':
         case u8'u': {
             // https://llvm.org/docs/LangRef.html#simple-constants
@@ -301,6 +311,16 @@ private:
         }
     }
 
+    void consume_prefixed_attribute(std::size_t name_length)
+    {
+        if (name_length == 0) {
+            emit_and_advance(1, Highlight_Type::symbol_punc);
+            return;
+        }
+        emit_and_advance(1, Highlight_Type::name_attr_delim);
+        emit_and_advance(name_length, Highlight_Type::name_attr);
+    }
+
     bool expect_keyword_or_label()
     {
         const std::size_t length = match_keyword(remainder);
-- 
2.43.0


From ad683bb6283804a7623a366ea8d26cd989431f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:50 +0000
Subject: [PATCH 122/157] fix: highlight '>|', '|&', '<<-', ';;', ';&', and
 ';;&' as one token in Bash

---
 include/ulight/impl/lang/bash.hpp |  6 ++++++
 src/main/cpp/lang/bash.cpp        | 13 +++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/ulight/impl/lang/bash.hpp b/include/ulight/impl/lang/bash.hpp
index 7f2ac3f..c075774 100644
--- a/include/ulight/impl/lang/bash.hpp
+++ b/include/ulight/impl/lang/bash.hpp
@@ -79,15 +79,20 @@ inline constexpr auto is_bash_unquoted_terminator
     F(minus, "-", symbol_op)                                                                       \
     F(colon, ":", symbol_punc)                                                                     \
     F(semicolon, ";", symbol_punc)                                                                 \
+    F(semicolon_amp, ";&", symbol_punc)                                                            \
+    F(semicolon_semicolon, ";;", symbol_punc)                                                      \
+    F(semicolon_semicolon_amp, ";;&", symbol_punc)                                                 \
     F(less, "<", symbol_op)                                                                        \
     F(less_amp, "<&", symbol_op)                                                                   \
     F(less_less, "<<", symbol_op)                                                                  \
+    F(less_less_minus, "<<-", symbol_op)                                                           \
     F(less_less_less, "<<<", symbol_op)                                                            \
     F(less_greater, "<>", symbol_op)                                                               \
     F(equal, "=", symbol_op)                                                                       \
     F(greater, ">", symbol_op)                                                                     \
     F(greater_amp, ">&", symbol_op)                                                                \
     F(greater_greater, ">>", symbol_op)                                                            \
+    F(greater_pipe, ">|", symbol_op)                                                               \
     F(question, "?", symbol_op)                                                                    \
     F(at, "@", symbol_op)                                                                          \
     F(left_square, "[", symbol_square)                                                             \
@@ -113,6 +118,7 @@ inline constexpr auto is_bash_unquoted_terminator
     F(kw_while, "while", keyword_control)                                                          \
     F(left_brace, "{", symbol_brace)                                                               \
     F(pipe, "|", symbol_op)                                                                        \
+    F(pipe_amp, "|&", symbol_op)                                                                   \
     F(pipe_pipe, "||", symbol_op)                                                                  \
     F(right_brace, "}", symbol_brace)                                                              \
     F(tilde, "~", symbol_op)
diff --git a/src/main/cpp/lang/bash.cpp b/src/main/cpp/lang/bash.cpp
index 39fda36..ecd073f 100644
--- a/src/main/cpp/lang/bash.cpp
+++ b/src/main/cpp/lang/bash.cpp
@@ -110,9 +110,14 @@ std::optional<Token_Type> match_operator(std::u8string_view str)
     case u8'*': return plus;
     case u8'-': return minus;
     case u8':': return colon;
-    case u8';': return semicolon;
+    case u8';':
+        return str.starts_with(u8";;&") ? semicolon_semicolon_amp
+            : str.starts_with(u8";;")   ? semicolon_semicolon
+            : str.starts_with(u8";&")   ? semicolon_amp
+                                        : semicolon;
     case u8'<':
         return str.starts_with(u8"<<<") ? less_less_less
+            : str.starts_with(u8"<<-")  ? less_less_minus
             : str.starts_with(u8"<<")   ? less_less
             : str.starts_with(u8"<&")   ? less_amp
             : str.starts_with(u8"<>")   ? less_greater
@@ -121,13 +126,17 @@ std::optional<Token_Type> match_operator(std::u8string_view str)
     case u8'>':
         return str.starts_with(u8">>") ? greater_greater
             : str.starts_with(u8">&")  ? greater_amp
+            : str.starts_with(u8">|")  ? greater_pipe
                                        : greater;
     case u8'?': return question;
     case u8'@': return at;
     case u8'[': return str.starts_with(u8"[[") ? left_square_square : left_square;
     case u8']': return str.starts_with(u8"]]") ? right_square_square : right_square;
     case u8'{': return left_brace;
-    case u8'|': return str.starts_with(u8"||") ? pipe_pipe : pipe;
+    case u8'|':
+        return str.starts_with(u8"||") ? pipe_pipe
+            : str.starts_with(u8"|&")  ? pipe_amp
+                                       : pipe;
     case u8'}': return right_brace;
     case u8'~': return tilde;
     default: break;
-- 
2.43.0


From a0a39af70730d7a4863580e43ed0b0cbc7242eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:08 +0000
Subject: [PATCH 123/157] fix: highlight '!=' as one token after identifiers in
 Rust

---
 src/main/cpp/lang/rust.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index b7066aa..2ee607f 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -357,6 +357,13 @@ private:
         return false;
     }
 
+    /// @brief Returns `true` if `str` starts with the `!` of a macro invocation,
+    /// rather than with the operator `!=`.
+    static bool starts_with_macro_delimiter(std::u8string_view str)
+    {
+        return str.starts_with(u8'!') && !str.starts_with(u8"!=");
+    }
+
     bool expect_raw_identifier()
     {
         // https://doc.rust-lang.org/reference/identifiers.html#grammar-RAW_IDENTIFIER
@@ -372,7 +379,7 @@ private:
         if (is_illegal_raw_identifier(id)) {
             emit_and_advance(prefix.length() + id_length, Highlight_Type::error);
         }
-        else if (remainder.substr(prefix.length() + id_length).starts_with(u8'!')) {
+        else if (starts_with_macro_delimiter(remainder.substr(prefix.length() + id_length))) {
             // https://doc.rust-lang.org/reference/macros.html
             emit_and_advance(prefix.length(), Highlight_Type::name_macro_delim);
             emit_and_advance(id_length, Highlight_Type::name_macro);
@@ -398,7 +405,7 @@ private:
         if (type) {
             emit_and_advance(length, token_type_highlight(*type));
         }
-        else if (remainder.substr(length).starts_with(u8'!')) {
+        else if (starts_with_macro_delimiter(remainder.substr(length))) {
             emit_and_advance(length, Highlight_Type::name_macro);
             emit_and_advance(1, Highlight_Type::name_macro_delim);
         }
-- 
2.43.0


From a20cfb2b3c580d6041cf0fdd820eb38bd00fc683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:53 +0000
Subject: [PATCH 124/157] fix: highlight raw identifiers in Rust

---
 src/main/cpp/lang/rust.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index 2ee607f..5b7ebcb 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -321,8 +321,8 @@ private:
             || expect_string_literal() //
             || expect_number() //
             || expect_lifetime_token() //
-            || expect_identifier_or_keyword() //
             || expect_raw_identifier() //
+            || expect_identifier_or_keyword() //
             || expect_punctuation();
     }
 
-- 
2.43.0


From 6770f1e4fb21967cffad5716114f02277b23edc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:46 +0000
Subject: [PATCH 125/157] fix: highlight raw lifetimes and labels in Rust

---
 src/main/cpp/lang/rust.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index 5b7ebcb..1300044 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -591,7 +591,7 @@ private:
     bool expect_lifetime_token()
     {
         // https://doc.rust-lang.org/reference/tokens.html#lifetimes-and-loop-labels
-        constexpr std::u8string_view raw_prefix = u8"'#r";
+        constexpr std::u8string_view raw_prefix = u8"'r#";
 
         if (!remainder.starts_with(u8'\'')) {
             return false;
-- 
2.43.0


From 21bb676c3a2a6eadccdb6eb1ee029ada517033f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:14 +0000
Subject: [PATCH 126/157] fix: permit U+EFFF0 to U+EFFFF in XML names

---
 include/ulight/impl/lang/xml.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/xml.hpp b/include/ulight/impl/lang/xml.hpp
index e1918ce..33170bb 100644
--- a/include/ulight/impl/lang/xml.hpp
+++ b/include/ulight/impl/lang/xml.hpp
@@ -36,7 +36,7 @@ inline constexpr struct Is_XML_Name_Start {
             || (c >= U'\u3001' && c <= U'\ud7ff') //
             || (c >= U'\uf900' && c <= U'\ufdcf') //
             || (c >= U'\ufdf0' && c <= U'\ufffd') //
-            || (c >= U'\U00010000' && c <= U'\U000effef');
+            || (c >= U'\U00010000' && c <= U'\U000effff');
     }
 } is_xml_name_start;
 
-- 
2.43.0


From 27c5105d80a4438ca1d1f4133e3967baf671b163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:14 +0000
Subject: [PATCH 127/157] fix: check the target of XML processing instructions
 instead of what follows it

---
 src/main/cpp/lang/xml.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 16aae3f..d1aa362 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -478,14 +478,15 @@ private:
         constexpr auto is_processing_name_end = [](std::u8string_view str) {
             return match_whitespace(str) || str.starts_with(u8"?>");
         };
+        const std::u8string_view target = remainder;
         const std::size_t name_length
             = expect_name(Highlight_Type::name_macro, is_processing_name_end);
         if (!name_length) {
             return true;
         }
 
-        const std::u8string_view target_name = remainder.substr(0, name_length);
-        if (ascii::contains_ignore_case(target_name, u8"xml")) {
+        // https://www.w3.org/TR/xml/#NT-PITarget
+        if (ascii::equals_ignore_case(target.substr(0, name_length), u8"xml")) {
             return true;
         }
 
-- 
2.43.0


From 4f4b571817456a2dd577db546a417ce4a43d6a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:14 +0000
Subject: [PATCH 128/157] fix: highlight quoted versions and blanks in XML
 declarations

---
 src/main/cpp/lang/xml.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index d1aa362..73d3a7d 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -402,6 +402,11 @@ private:
         if (!remainder.starts_with(xml_tag)) {
             return false;
         }
+        // Targets such as "xml-stylesheet" are processing instructions.
+        const std::u8string_view after_tag = remainder.substr(xml_tag.size());
+        if (!after_tag.empty() && !match_whitespace(after_tag) && !after_tag.starts_with(u8"?>")) {
+            return false;
+        }
         emit_and_advance(xml_tag.size(), Highlight_Type::name_macro);
         expect_whitespace();
 
@@ -422,6 +427,11 @@ private:
         };
 
         const auto expect_string = [&]() { expect_attribute_value(); };
+        const auto expect_version = [&]() {
+            if (!expect_attribute_value()) {
+                highlight_number();
+            }
+        };
 
         const auto highlight_decl_attr = [&](std::u8string_view attr_name, auto expect_val) {
             if (!remainder.starts_with(attr_name)) {
@@ -429,17 +439,19 @@ private:
             }
             emit_and_advance(attr_name.size(), Highlight_Type::markup_attr);
 
+            expect_whitespace();
             if (!remainder.starts_with(u8'=')) {
                 return;
             }
             emit_and_advance(1, Highlight_Type::symbol_punc);
 
+            expect_whitespace();
             if (!remainder.empty()) {
                 expect_val();
             }
         };
 
-        highlight_decl_attr(decltype_version_attr, highlight_number);
+        highlight_decl_attr(decltype_version_attr, expect_version);
         expect_whitespace();
 
         highlight_decl_attr(decltype_encoding_attr, expect_string);
-- 
2.43.0


From 3ac38bedad4a5f8841979850f072f8556734cd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:14 +0000
Subject: [PATCH 129/157] fix: highlight XML entity references with '_', '.',
 ':' and non-ASCII characters

---
 include/ulight/impl/lang/xml.hpp |  5 +++++
 src/main/cpp/lang/xml.cpp        | 25 ++++++++++++++++++++-----
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/include/ulight/impl/lang/xml.hpp b/include/ulight/impl/lang/xml.hpp
index 33170bb..258a7a2 100644
--- a/include/ulight/impl/lang/xml.hpp
+++ b/include/ulight/impl/lang/xml.hpp
@@ -128,6 +128,11 @@ std::size_t match_ndata_decl(std::u8string_view str);
 [[nodiscard]]
 std::size_t match_pcdata_decl(std::u8string_view str);
 
+/// @brief Matches a character reference or an entity reference at the beginning of `str`.
+///        https://www.w3.org/TR/xml/#NT-Reference
+[[nodiscard]]
+std::size_t match_reference(std::u8string_view str);
+
 /// @brief matches an entity reference at the beginning of `str`.
 ///        https://www.w3.org/TR/xml/#NT-EntityRef
 [[nodiscard]]
diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 73d3a7d..caea5d4 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -185,6 +185,23 @@ std::size_t match_entity_reference(const std::u8string_view str)
     return success ? result + 1 : 0;
 }
 
+[[nodiscard]]
+std::size_t match_reference(const std::u8string_view str)
+{
+    if (!str.starts_with(u8'&')) {
+        return 0;
+    }
+    if (str.starts_with(u8"&#")) {
+        // Unlike in HTML, the 'x' has to be lower-case.
+        return str.starts_with(u8"&#X") ? 0 : html::match_character_reference(str);
+    }
+    const std::size_t name_length = match_name(str.substr(1));
+    const bool success = name_length != 0
+        && is_xml_name_start(utf8::decode_or_replacement(str.substr(1)))
+        && str.substr(1 + name_length).starts_with(u8';');
+    return success ? name_length + 2 : 0;
+}
+
 [[nodiscard]]
 std::size_t match_pe_reference(const std::u8string_view str)
 {
@@ -543,8 +560,7 @@ private:
 
     bool expect_reference()
     {
-        // https://www.w3.org/TR/xml/#NT-CharRef
-        if (std::size_t ref_length = html::match_character_reference(remainder)) {
+        if (const std::size_t ref_length = match_reference(remainder)) {
             emit_and_advance(ref_length, Highlight_Type::string_escape);
             return true;
         }
@@ -644,14 +660,13 @@ private:
         while (!remainder.empty() && piece_length < remainder.length()
                && remainder[piece_length] != quote_type) {
             std::u8string_view candidate = remainder.substr(piece_length);
-            if ((remainder[piece_length] == u8'&' && !html::match_character_reference(candidate))
+            if ((remainder[piece_length] == u8'&' && !match_reference(candidate))
                 || remainder[piece_length] == u8'<') {
                 highlight_piece();
                 emit_and_advance(1, Highlight_Type::error);
                 piece_length = 0;
             }
-            else if (remainder[piece_length] == u8'&'
-                     && html::match_character_reference(candidate)) {
+            else if (remainder[piece_length] == u8'&') {
                 highlight_piece();
                 expect_reference();
                 piece_length = 0;
-- 
2.43.0


From 9942cf31dd1f51a3de763eb85eb9c0f274a93ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:14 +0000
Subject: [PATCH 130/157] fix: permit an upper-case X in HTML character
 references

---
 src/main/cpp/lang/html.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index c8ef86e..8278971 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -31,7 +31,7 @@ constexpr std::u8string_view doctype_prefix = u8"<!DOCTYPE";
 
 bool is_character_reference_content(std::u8string_view str)
 {
-    if (str.starts_with(u8"#x")) {
+    if (str.starts_with(u8"#x") || str.starts_with(u8"#X")) {
         return str.length() > 2 && std::ranges::all_of(str.substr(2), is_ascii_hex_digit);
     }
     if (str.starts_with(u8'#')) {
-- 
2.43.0


From f38b0883191b9ce4ffa6a32f10eb8e2155b0ee44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:14 +0000
Subject: [PATCH 131/157] fix: take linear rather than quadratic time for HTML
 text before an ampersand

---
 src/main/cpp/lang/html.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index 8278971..1ca480f 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -526,8 +526,8 @@ private:
                 advance(remainder.length());
                 break;
             }
-            if (remainder[safe_length] == u8'<') {
-                advance(safe_length);
+            advance(safe_length);
+            if (remainder[0] == u8'<') {
                 break;
             }
             if (!expect_character_reference()) {
-- 
2.43.0


From a4b7a9b9ecc59c95a791185466cdf203bb855ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:28 +0000
Subject: [PATCH 132/157] fix: highlight JSX attribute strings with newlines,
 backslashes, and references

---
 include/ulight/impl/lang/js.hpp |  7 ++++++
 src/main/cpp/lang/js.cpp        | 42 +++++++++++++++++++++++++++++++--
 2 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/include/ulight/impl/lang/js.hpp b/include/ulight/impl/lang/js.hpp
index d6be250..c534279 100644
--- a/include/ulight/impl/lang/js.hpp
+++ b/include/ulight/impl/lang/js.hpp
@@ -337,6 +337,13 @@ struct String_Literal_Result {
 [[nodiscard]]
 String_Literal_Result match_string_literal(std::u8string_view str);
 
+/// @brief Matches a JSX attribute string at the start of `str`.
+/// Unlike in a JavaScript string literal, `\` has no special meaning,
+/// and the string can span multiple lines.
+/// Unterminated strings are not matched.
+[[nodiscard]]
+String_Literal_Result match_jsx_string(std::u8string_view str);
+
 /// @brief Matches a JavaScript template literal substitution at the start of `str`.
 /// Returns the position after the closing } if found.
 [[nodiscard]]
diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index db03e8a..8a19102 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -560,6 +560,21 @@ std::size_t match_template(std::u8string_view str)
 
 } // namespace
 
+[[nodiscard]]
+String_Literal_Result match_jsx_string(std::u8string_view str)
+{
+    // https://facebook.github.io/jsx/#prod-JSXDoubleStringCharacters
+    // https://facebook.github.io/jsx/#prod-JSXSingleStringCharacters
+    if (!str.starts_with(u8'"') && !str.starts_with(u8'\'')) {
+        return {};
+    }
+    const std::size_t closing = str.find(str[0], 1);
+    if (closing == std::u8string_view::npos) {
+        return {};
+    }
+    return { .length = closing + 1, .terminated = true };
+}
+
 [[nodiscard]]
 JSX_Braced_Result match_jsx_braced(std::u8string_view str)
 {
@@ -813,7 +828,7 @@ bool match_jsx_tag_impl(
             out.attribute_equals();
             match_whitespace_comment_sequence(out, str);
             // https://facebook.github.io/jsx/#prod-JSXAttributeValue
-            if (const String_Literal_Result s = match_string_literal(str)) {
+            if (const String_Literal_Result s = match_jsx_string(str)) {
                 out.string_literal(s);
                 continue;
             }
@@ -1116,7 +1131,7 @@ private:
             }
             void string_literal(String_Literal_Result r) final
             {
-                self.highlight_string_literal(r);
+                self.highlight_jsx_string(r);
             }
             void braced(JSX_Braced_Result braced) final
             {
@@ -1387,6 +1402,29 @@ private:
         input_element = Input_Element::div;
     }
 
+    void highlight_jsx_string(const String_Literal_Result& string)
+    {
+        ULIGHT_ASSERT(string && string.terminated);
+        emit_and_advance(1, Highlight_Type::string_delim);
+
+        std::size_t remaining = string.length - 2;
+        while (remaining > 0) {
+            const std::u8string_view content = remainder.substr(0, remaining);
+            // https://facebook.github.io/jsx/#prod-HTMLCharacterReference
+            if (const std::size_t ref = html::match_character_reference(content)) {
+                emit_and_advance(ref, Highlight_Type::string_escape);
+                remaining -= ref;
+                continue;
+            }
+            const std::size_t chars = std::min(remaining, content.find(u8'&', 1));
+            emit_and_advance(chars, Highlight_Type::string);
+            remaining -= chars;
+        }
+
+        emit_and_advance(1, Highlight_Type::string_delim);
+        input_element = Input_Element::div;
+    }
+
     bool expect_template()
     {
         // https://262.ecma-international.org/15.0/index.html#sec-template-literal-lexical-components
-- 
2.43.0


From 87c9c15f4a27a833f26ba8a58db56efadc6dad2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:41 +0000
Subject: [PATCH 133/157] fix: take linear rather than quadratic time for
 sequences of ampersands in HTML

---
 src/main/cpp/lang/html.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index 1ca480f..0d6303e 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -52,8 +52,10 @@ std::size_t match_character_reference(std::u8string_view str)
     if (!str.starts_with(u8'&')) {
         return 0;
     }
-    const std::size_t result = str.find(u8';', 1);
-    const bool success = result != std::u8string_view::npos
+    // References cannot contain '&',
+    // and by not searching past it, sequences of '&' don't take quadratic time.
+    const std::size_t result = str.find_first_of(u8"&;", 1);
+    const bool success = result != std::u8string_view::npos && str[result] == u8';'
         && is_character_reference_content(str.substr(1, result - 1));
     return success ? result + 1 : 0;
 }
-- 
2.43.0


From 42fcacb17391fa308946993040308593441eab6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:34 +0000
Subject: [PATCH 134/157] fix: end XML document type declarations without
 internal subset at ">"

---
 src/main/cpp/lang/xml.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index caea5d4..233e3c0 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -369,8 +369,10 @@ private:
         if (match_external_id_type(remainder)) {
             expect_external_id();
         }
-        else if (!remainder.starts_with(u8'[')) {
-            const std::size_t word_len = ascii::length_if_not(remainder, is_xml_whitespace);
+        else if (!remainder.starts_with(u8'[') && !remainder.starts_with(u8'>')) {
+            const std::size_t word_len = ascii::length_if_not(remainder, [](char8_t c) {
+                return is_xml_whitespace(c) || c == u8'[' || c == u8'>';
+            });
             advance(word_len);
 
             expect_whitespace();
@@ -385,6 +387,10 @@ private:
         }
 
         expect_whitespace();
+        if (remainder.starts_with(u8'>')) {
+            emit_and_advance(1, Highlight_Type::name_macro);
+            return true;
+        }
         if (!remainder.starts_with(u8'[')) {
             return true;
         }
-- 
2.43.0


From 56c43dde6154df1d4b56706a17416d22d802dff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:45 +0000
Subject: [PATCH 135/157] fix: highlight + and ? in XML element type
 declarations

---
 src/main/cpp/lang/xml.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 233e3c0..7aa0df4 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -307,6 +307,8 @@ private:
                 remainder.starts_with(u8'(') || //
                 remainder.starts_with(u8'|') || //
                 remainder.starts_with(u8'*') || //
+                remainder.starts_with(u8'+') || //
+                remainder.starts_with(u8'?') || //
                 remainder.starts_with(u8',')) { //
                 emit_and_advance(1, Highlight_Type::symbol_punc);
             }
-- 
2.43.0


From 7cebcc2a2161a8cf04b32916a62da7df85ba81f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:58 +0000
Subject: [PATCH 136/157] fix: highlight XML parameter-entity references

---
 src/main/cpp/lang/xml.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 7aa0df4..127b89d 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -206,15 +206,16 @@ std::size_t match_reference(const std::u8string_view str)
 std::size_t match_pe_reference(const std::u8string_view str)
 {
 
-    if (!str.starts_with(u8'&')) {
+    // https://www.w3.org/TR/xml/#NT-PEReference
+    if (!str.starts_with(u8'%')) {
         return 0;
     }
 
-    const std::size_t result = str.find(u8';', 1);
-    const std::u8string_view ref_content = str.substr(1, result - 1);
-    const bool success
-        = result != std::u8string_view::npos && match_name(ref_content) == ref_content.size();
-    return success ? result + 1 : 0;
+    const std::size_t name_length = match_name(str.substr(1));
+    const bool success = name_length != 0
+        && is_xml_name_start(utf8::decode_or_replacement(str.substr(1)))
+        && str.substr(1 + name_length).starts_with(u8';');
+    return success ? name_length + 2 : 0;
 }
 
 struct XML_Highlighter : Highlighter_Base {
@@ -399,7 +400,7 @@ private:
         emit_and_advance(1, Highlight_Type::symbol_punc);
 
         expect_whitespace();
-        while (expect_markup_decl()) {
+        while (expect_pe_reference() || expect_markup_decl()) {
             expect_whitespace();
             if (remainder.starts_with(u8'>')) {
                 emit_and_advance(1, Highlight_Type::name_macro);
@@ -575,6 +576,15 @@ private:
         return false;
     }
 
+    bool expect_pe_reference()
+    {
+        if (const std::size_t ref_length = match_pe_reference(remainder)) {
+            emit_and_advance(ref_length, Highlight_Type::string_escape);
+            return true;
+        }
+        return false;
+    }
+
     bool expect_start_tag()
     {
         // https://www.w3.org/TR/xml/#NT-STag as well as
-- 
2.43.0


From 7e9741a3027a06cd38b719cd40887b0ef193456f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:24 +0000
Subject: [PATCH 137/157] fix: do not highlight the start of an XML name as a
 keyword

---
 src/main/cpp/lang/xml.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 127b89d..6c22ae7 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -64,6 +64,17 @@ std::size_t match_name(const std::u8string_view str)
     return name_len;
 }
 
+namespace {
+
+/// @brief Returns `true` if `str` starts with `keyword`, and not with a longer name.
+[[nodiscard]]
+bool match_keyword(const std::u8string_view str, const std::u8string_view keyword)
+{
+    return str.starts_with(keyword) && match_name(str.substr(keyword.size())) == 0;
+}
+
+} // namespace
+
 [[nodiscard]]
 std::size_t match_att_type(const std::u8string_view str)
 {
@@ -97,11 +108,11 @@ std::size_t match_default_decl_type(const std::u8string_view str)
 [[nodiscard]]
 std::size_t match_external_id_type(const std::u8string_view str)
 {
-    if (str.starts_with(external_id_public)) {
+    if (match_keyword(str, external_id_public)) {
         return external_id_public.size();
     }
 
-    if (str.starts_with(external_id_system)) {
+    if (match_keyword(str, external_id_system)) {
         return external_id_system.size();
     }
 
@@ -111,11 +122,11 @@ std::size_t match_external_id_type(const std::u8string_view str)
 [[nodiscard]]
 std::size_t match_content_spec_type(const std::u8string_view str)
 {
-    if (str.starts_with(content_spec_empty)) {
+    if (match_keyword(str, content_spec_empty)) {
         return content_spec_empty.size();
     }
 
-    if (str.starts_with(content_spec_any)) {
+    if (match_keyword(str, content_spec_any)) {
         return content_spec_any.size();
     }
 
@@ -125,7 +136,7 @@ std::size_t match_content_spec_type(const std::u8string_view str)
 [[nodiscard]]
 std::size_t match_ndata_decl(const std::u8string_view str)
 {
-    return str.starts_with(ndata_decl_string) ? ndata_decl_string.size() : 0;
+    return match_keyword(str, ndata_decl_string) ? ndata_decl_string.size() : 0;
 }
 
 [[nodiscard]]
-- 
2.43.0


From 0952b4571191489f6c1497bcec4d3d1a17ca9e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:55 +0000
Subject: [PATCH 138/157] fix: permit markup in XML entity values, and any
 characters in external identifiers

---
 src/main/cpp/lang/xml.cpp | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 6c22ae7..4742020 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -269,16 +269,16 @@ private:
         if (external_id == external_id_system) {
             emit_and_advance(external_id_system.size(), Highlight_Type::keyword);
             expect_whitespace();
-            expect_attribute_value();
+            expect_attribute_value(Literal_Kind::external_id);
             return true;
         }
 
         if (external_id == external_id_public) {
             emit_and_advance(external_id_public.size(), Highlight_Type::keyword);
             expect_whitespace();
-            expect_attribute_value();
+            expect_attribute_value(Literal_Kind::external_id);
             expect_whitespace();
-            expect_attribute_value();
+            expect_attribute_value(Literal_Kind::external_id);
             return true;
         }
 
@@ -301,6 +301,9 @@ private:
         constexpr auto after_markup_decl_name
             = [](std::u8string_view str) { return match_whitespace(str); };
 
+        Literal_Kind literal_kind = remainder.starts_with(u8"ENTITY")
+            ? Literal_Kind::entity_value
+            : Literal_Kind::attribute_value;
         expect_name(Highlight_Type::name_macro, after_markup_decl_name);
         expect_whitespace();
 
@@ -332,6 +335,7 @@ private:
             }
             else if (const std::size_t external_id_len = match_external_id_type(remainder)) {
                 emit_and_advance(external_id_len, Highlight_Type::keyword);
+                literal_kind = Literal_Kind::external_id;
             }
             else if (const std::size_t content_spec_len = match_content_spec_type(remainder)) {
                 emit_and_advance(content_spec_len, Highlight_Type::keyword);
@@ -349,7 +353,7 @@ private:
                 emit_and_advance(name_len, Highlight_Type::name);
             }
             else if (remainder.starts_with(u8'\'') || remainder.starts_with(u8'"')) {
-                expect_attribute_value();
+                expect_attribute_value(literal_kind);
             }
             else {
                 const std::size_t len = ascii::length_if_not(remainder, [](char8_t c) {
@@ -662,9 +666,18 @@ private:
         return expect_attribute_value();
     }
 
-    bool expect_attribute_value()
+    /// @brief The kinds of quoted literals, which differ in what they can contain.
+    enum struct Literal_Kind : unsigned char {
+        /// @brief See https://www.w3.org/TR/xml/#NT-AttValue
+        attribute_value,
+        /// @brief See https://www.w3.org/TR/xml/#NT-EntityValue
+        entity_value,
+        /// @brief See https://www.w3.org/TR/xml/#NT-ExternalID
+        external_id,
+    };
+
+    bool expect_attribute_value(Literal_Kind kind = Literal_Kind::attribute_value)
     {
-        // https://www.w3.org/TR/xml/#NT-AttValue
         char8_t quote_type;
         if (remainder.starts_with(u8'\'')) {
             quote_type = u8'\'';
@@ -689,8 +702,11 @@ private:
         while (!remainder.empty() && piece_length < remainder.length()
                && remainder[piece_length] != quote_type) {
             std::u8string_view candidate = remainder.substr(piece_length);
-            if ((remainder[piece_length] == u8'&' && !match_reference(candidate))
-                || remainder[piece_length] == u8'<') {
+            if (kind == Literal_Kind::external_id) {
+                piece_length++;
+            }
+            else if ((remainder[piece_length] == u8'&' && !match_reference(candidate))
+                || (remainder[piece_length] == u8'<' && kind != Literal_Kind::entity_value)) {
                 highlight_piece();
                 emit_and_advance(1, Highlight_Type::error);
                 piece_length = 0;
-- 
2.43.0


From 3cff920db2f9ccdcdacd3cb4e305a351f1dc9123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:23 +0000
Subject: [PATCH 139/157] fix: permit "-" in XML names

---
 include/ulight/impl/lang/xml.hpp | 1 +
 src/main/cpp/lang/xml.cpp        | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ulight/impl/lang/xml.hpp b/include/ulight/impl/lang/xml.hpp
index 258a7a2..b1213e6 100644
--- a/include/ulight/impl/lang/xml.hpp
+++ b/include/ulight/impl/lang/xml.hpp
@@ -51,6 +51,7 @@ inline constexpr struct Is_XML_Name {
         // https://www.w3.org/TR/REC-xml/#sec-common-syn
         return is_ascii_digit(c) //
             || is_xml_name_start(c) //
+            || c == U'-' //
             || c == U':' //
             || c == U'.' //
             || c == U'\u00b7' //
diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 4742020..0fb9d0a 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -191,8 +191,9 @@ std::size_t match_entity_reference(const std::u8string_view str)
     }
     const std::size_t result = str.find(u8';', 1);
     std::u8string_view ref_content = str.substr(1, result - 1);
-    const bool success
-        = result != std::u8string_view::npos && match_name(ref_content) == ref_content.size();
+    // Unlike names in general, '-' is not accepted here.
+    const bool success = result != std::u8string_view::npos
+        && match_name(ref_content) == ref_content.size() && !ref_content.contains(u8'-');
     return success ? result + 1 : 0;
 }
 
-- 
2.43.0


From 6bdb5e60e6f232c369cb9a853378f265051f5002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:50 +0000
Subject: [PATCH 140/157] fix: highlight #, $, ~, and <- in Rust

---
 include/ulight/impl/lang/rust.hpp | 5 ++++-
 src/main/cpp/lang/rust.cpp        | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/rust.hpp b/include/ulight/impl/lang/rust.hpp
index 8a5a339..e5f8a52 100644
--- a/include/ulight/impl/lang/rust.hpp
+++ b/include/ulight/impl/lang/rust.hpp
@@ -35,6 +35,8 @@ inline constexpr struct Is_Rust_Whitespace {
 #define ULIGHT_RUST_TOKEN_ENUM_DATA(F)                                                             \
     F(exclamation, "!", symbol_op)                                                                 \
     F(exclamation_eq, "!=", symbol_op)                                                             \
+    F(pound, "#", symbol_punc)                                                                     \
+    F(dollar, "$", symbol_punc)                                                                    \
     F(percent, "%", symbol_op)                                                                     \
     F(percent_eq, "%=", symbol_op)                                                                 \
     F(amp, "&", symbol_op)                                                                         \
@@ -160,7 +162,8 @@ inline constexpr struct Is_Rust_Whitespace {
     F(pipe, "|", symbol_op)                                                                        \
     F(pipe_eq, "|=", symbol_op)                                                                    \
     F(pipe_pipe, "||", symbol_op)                                                                  \
-    F(right_brace, "}", symbol_brace)
+    F(right_brace, "}", symbol_brace)                                                              \
+    F(tilde, "~", symbol_punc)
 
 #define ULIGHT_RUST_TOKEN_ENUM_ENUMERATOR(id, code, highlight) id,
 
diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index 1300044..1fcfd0a 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -210,6 +210,8 @@ std::optional<Token_Type> match_punctuation(std::u8string_view str) noexcept
     }
     switch (str[0]) {
     case u8'!': return str.starts_with(u8"!=") ? exclamation_eq : exclamation;
+    case u8'#': return pound;
+    case u8'$': return dollar;
     case u8'%': return str.starts_with(u8"%=") ? percent_eq : percent;
     case u8'&':
         return str.starts_with(u8"&&") ? amp_amp //
@@ -235,6 +237,7 @@ std::optional<Token_Type> match_punctuation(std::u8string_view str) noexcept
     case u8'<':
         return str.starts_with(u8"<<=") ? lt_lt_eq
             : str.starts_with(u8"<<")   ? lt_lt
+            : str.starts_with(u8"<-")   ? lt_minus
             : str.starts_with(u8"<=")   ? lt_eq
                                         : lt;
     case u8'=':
@@ -258,6 +261,7 @@ std::optional<Token_Type> match_punctuation(std::u8string_view str) noexcept
             : str.starts_with(u8"||")  ? pipe_pipe
                                        : pipe;
     case u8'}': return right_brace;
+    case u8'~': return tilde;
     default: return {};
     }
 }
-- 
2.43.0


From 930d29dc3a4a31a2b66054112b0fbb3cd1329444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:25 +0000
Subject: [PATCH 141/157] fix: do not take the point of a number for optional
 chaining in JavaScript

---
 src/main/cpp/lang/js.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 8a19102..e83d9e0 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -910,8 +910,10 @@ std::optional<Token_Type> match_operator_or_punctuation(std::u8string_view str)
     case u8'?':
         return str.starts_with(u8"??=") ? nullish_coalescing_equal
             : str.starts_with(u8"??")   ? nullish_coalescing
-            : str.starts_with(u8"?.")   ? optional_chaining
-                                        : conditional;
+            // https://262.ecma-international.org/15.0/index.html#prod-OptionalChainingPunctuator
+            : str.starts_with(u8"?.") && (str.length() == 2 || !is_ascii_digit(str[2]))
+            ? optional_chaining
+            : conditional;
     case u8'[': return left_bracket;
     case u8']': return right_bracket;
     case u8'^': return str.starts_with(u8"^=") ? bitwise_xor_equal : bitwise_xor;
-- 
2.43.0


From 3c5b6b7529620657f7474203db88dab07b5e2c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:13 +0000
Subject: [PATCH 142/157] fix: highlight numeric labels and labels with "$" or
 "." in LLVM

---
 src/main/cpp/lang/llvm.cpp | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/main/cpp/lang/llvm.cpp b/src/main/cpp/lang/llvm.cpp
index 75731e5..80310ec 100644
--- a/src/main/cpp/lang/llvm.cpp
+++ b/src/main/cpp/lang/llvm.cpp
@@ -143,8 +143,14 @@ struct Highlighter : Highlighter_Base {
     }
 
 private:
+    /// @brief The end of the characters in which no label begins.
+    std::size_t label_search_end = 0;
+
     void consume_anything()
     {
+        if (expect_label()) {
+            return;
+        }
         switch (remainder[0]) {
         case u8' ':
         case u8'\t':
@@ -249,7 +255,7 @@ private:
         }
         default:
         default_case: {
-            if (expect_keyword_or_label()) {
+            if (expect_keyword()) {
                 break;
             }
             emit_and_advance_code_point(Highlight_Type::error, Coalescing::forced);
@@ -321,19 +327,33 @@ private:
         emit_and_advance(name_length, Highlight_Type::name_attr);
     }
 
-    bool expect_keyword_or_label()
+    bool expect_label()
+    {
+        // https://llvm.org/docs/LangRef.html#functions
+        // Unlike keywords, labels can contain any identifier character,
+        // and they can be numeric.
+        if (index < label_search_end) {
+            return false;
+        }
+        const std::size_t length = ascii::length_if(remainder, is_llvm_identifier);
+        if (length == 0 || !remainder.substr(length).starts_with(u8':')) {
+            // No label can begin within the characters that have just been examined.
+            label_search_end = index + length;
+            return false;
+        }
+        // TODO: this is not very robust;
+        //       it does not consider intervening whitespace
+        emit_and_advance(length, Highlight_Type::name_label_decl);
+        emit_and_advance(1, Highlight_Type::name_label_delim);
+        return true;
+    }
+
+    bool expect_keyword()
     {
         const std::size_t length = match_keyword(remainder);
         if (!length) {
             return false;
         }
-        if (remainder.substr(length).starts_with(u8':')) {
-            // TODO: this is not very robust;
-            //       it does not consider intervening whitespace
-            emit_and_advance(length, Highlight_Type::name_label_decl);
-            emit_and_advance(1, Highlight_Type::name_label_delim);
-            return true;
-        }
 
         const std::u8string_view keyword = remainder.substr(0, length);
         emit_and_advance(length, classify_keyword(keyword));
-- 
2.43.0


From bab641d49aec5f5ccbfe7f73bc524ddd4b953b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:22 +0000
Subject: [PATCH 143/157] fix: highlight names of comdats in LLVM

---
 src/main/cpp/lang/llvm.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/main/cpp/lang/llvm.cpp b/src/main/cpp/lang/llvm.cpp
index 80310ec..cd20f23 100644
--- a/src/main/cpp/lang/llvm.cpp
+++ b/src/main/cpp/lang/llvm.cpp
@@ -226,6 +226,15 @@ private:
             consume_identifier();
             break;
         }
+        case u8'$': {
+            // https://llvm.org/docs/LangRef.html#comdats
+            const std::size_t name_length = ascii::length_if(remainder.substr(1), is_llvm_identifier);
+            emit_and_advance(1, Highlight_Type::name_delim);
+            if (name_length != 0) {
+                emit_and_advance(name_length, Highlight_Type::name);
+            }
+            break;
+        }
         case u8'+':
         case u8'-': {
             const bool is_number = remainder.length() > 1 && is_ascii_digit(remainder[1]);
-- 
2.43.0


From 59192f041a4ffb1e648a59f2f6e023d0dd84dc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:32 +0000
Subject: [PATCH 144/157] fix: highlight the attribute "close" in Lua

---
 src/main/cpp/lang/lua.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/lua.cpp b/src/main/cpp/lang/lua.cpp
index 0f0bc30..13ee23f 100644
--- a/src/main/cpp/lang/lua.cpp
+++ b/src/main/cpp/lang/lua.cpp
@@ -546,10 +546,10 @@ bool highlight_lua(
         const std::u8string_view remainder = source.substr(index);
 
         // Special case (s).
-        if (remainder.length() >= 7 && remainder.substr(0, 7) == u8"<const>") {
+        if (remainder.starts_with(u8"<const>") || remainder.starts_with(u8"<close>")) {
             // Emit '<' with attr_delim highlight.
             emit(index, 1, Highlight_Type::name_attr_delim);
-            // Emit 'const' with attr highlight.
+            // Emit 'const' or 'close' with attr highlight.
             emit(index + 1, 5, Highlight_Type::name_attr);
             // Emit '>' with attr_delim highlight.
             emit(index + 6, 1, Highlight_Type::name_attr_delim);
-- 
2.43.0


From b02cdc6601b5756768c61db2c683fcfb5f6efd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:03 +0000
Subject: [PATCH 145/157] fix: do not end anchors, aliases, and tags in YAML at
 "#", "&", or "*"

---
 include/ulight/impl/lang/yaml.hpp | 11 ++++++++++-
 src/main/cpp/lang/yaml.cpp        |  6 +++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/ulight/impl/lang/yaml.hpp b/include/ulight/impl/lang/yaml.hpp
index bee17ed..07174af 100644
--- a/include/ulight/impl/lang/yaml.hpp
+++ b/include/ulight/impl/lang/yaml.hpp
@@ -26,8 +26,17 @@ inline constexpr auto is_yaml_word_char = is_ascii_alphanumeric | Charset256(u8"
 // when followed by a separator (space/newline/end). See consume_plain_scalar().
 inline constexpr Charset256 is_yaml_plain_terminator { u8"\r\n,[]{}#" };
 
+// https://yaml.org/spec/1.2.2/#ns-anchor-char
+// Characters that terminate an anchor name or alias name.
+inline constexpr auto is_yaml_anchor_terminator
+    = is_yaml_whitespace | is_yaml_flow_indicator | Charset256(u8"\r\n");
+
+// https://yaml.org/spec/1.2.2/#ns-tag-char
+// Characters that terminate a tag suffix.
+inline constexpr auto is_yaml_tag_terminator = is_yaml_anchor_terminator | Charset256(u8"!");
+
 // https://yaml.org/spec/1.2.2/#c-indicator
-// Characters that terminate a tag suffix, anchor name, or alias name.
+// Characters that terminate a null or boolean.
 inline constexpr Charset256 is_yaml_word_terminator { u8"\r\n,[]{}# \t&*!" };
 
 [[nodiscard]]
diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 93b5d4e..3b93d70 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -190,7 +190,7 @@ std::size_t match_anchor(const std::u8string_view str)
     if (!str.starts_with(u8'&')) {
         return 0;
     }
-    const std::size_t name_len = ascii::length_if_not(str.substr(1), is_yaml_word_terminator);
+    const std::size_t name_len = ascii::length_if_not(str.substr(1), is_yaml_anchor_terminator);
     return name_len > 0 ? 1 + name_len : 0;
 }
 
@@ -200,7 +200,7 @@ std::size_t match_alias(const std::u8string_view str)
     if (!str.starts_with(u8'*')) {
         return 0;
     }
-    const std::size_t name_len = ascii::length_if_not(str.substr(1), is_yaml_word_terminator);
+    const std::size_t name_len = ascii::length_if_not(str.substr(1), is_yaml_anchor_terminator);
     return name_len > 0 ? 1 + name_len : 0;
 }
 
@@ -885,7 +885,7 @@ private:
 
     void consume_tag_suffix()
     {
-        while (!remainder.empty() && !is_yaml_word_terminator(remainder[0])) {
+        while (!remainder.empty() && !is_yaml_tag_terminator(remainder[0])) {
             emit_and_advance_code_point(Highlight_Type::name_attr);
         }
     }
-- 
2.43.0


From 8970c611fabc6400c31030bf98159a4fb0b0ef4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:17 +0000
Subject: [PATCH 146/157] fix: permit "$" in Java identifiers

---
 src/main/cpp/lang/java.cpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/java.cpp b/src/main/cpp/lang/java.cpp
index c8d9504..b0df907 100644
--- a/src/main/cpp/lang/java.cpp
+++ b/src/main/cpp/lang/java.cpp
@@ -157,7 +157,28 @@ std::optional<Token_Type> match_symbol(const std::u8string_view str) noexcept
 }
 
 // https://docs.oracle.com/javase/specs/jls/se26/html/jls-3.html#jls-3.8
-using cpp::match_identifier;
+[[nodiscard]]
+static std::size_t match_identifier(std::u8string_view str)
+{
+    // https://docs.oracle.com/javase/specs/jls/se26/html/jls-3.html#jls-3.8
+    // Unlike in C++, "$" is a letter.
+    std::size_t length = 0;
+    while (length < str.length()) {
+        const std::u8string_view rest = str.substr(length);
+        std::size_t part_length = ascii::length_if(rest, [](char8_t c) { return c == u8'$'; });
+        if (length != 0) {
+            part_length += ascii::length_if(rest.substr(part_length), is_ascii_digit);
+        }
+        if (part_length == 0) {
+            part_length = cpp::match_identifier(rest);
+        }
+        if (part_length == 0) {
+            break;
+        }
+        length += part_length;
+    }
+    return length;
+}
 
 // https://docs.oracle.com/javase/specs/jls/se26/html/jls-3.html#jls-3.7
 using js::Comment_Result;
-- 
2.43.0


From 820da93562f21c04aca892f091b4f72f6e56898d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:09 +0000
Subject: [PATCH 147/157] fix: do not highlight the beginning of longer names
 as "!important" in CSS

---
 src/main/cpp/lang/css.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index acbf296..e829632 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -353,7 +353,7 @@ public:
                 const std::size_t white_length = html::match_whitespace(remainder.substr(1));
                 if (const std::size_t name_length
                     = match_ident_sequence(remainder.substr(1 + white_length))) {
-                    if (ascii::starts_with_ignore_case(
+                    if (ascii::equals_ignore_case(
                             remainder.substr(1 + white_length, name_length), important
                         )) {
                         emit_and_advance(
-- 
2.43.0


From e9b39c8e2bcc6e3d48fe9d4890c6a4c0728e3d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:22 +0000
Subject: [PATCH 148/157] fix: highlight declarations and selectors after
 nested CSS rules as such

---
 src/main/cpp/lang/css.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index e829632..5ef4d5d 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -309,7 +309,7 @@ public:
                     context = Context::block;
                 }
                 else if (context == Context::at_prelude) {
-                    context = Context::top_level;
+                    context = brace_level == 0 ? Context::top_level : Context::block;
                 }
                 emit_and_advance(1, Highlight_Type::symbol_punc);
                 break;
@@ -389,9 +389,7 @@ public:
                 if (brace_level != 0) {
                     --brace_level;
                 }
-                if (brace_level == 0) {
-                    context = Context::top_level;
-                }
+                context = brace_level == 0 ? Context::top_level : Context::block;
                 emit_and_advance(1, Highlight_Type::symbol_brace);
                 break;
             }
-- 
2.43.0


From ca58d4505db0e3fc3aae29f7610cf83813583430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:39 +0000
Subject: [PATCH 149/157] fix: recognize closing sequences of Markdown headings
 after tabs

---
 src/main/cpp/lang/markdown.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/main/cpp/lang/markdown.cpp b/src/main/cpp/lang/markdown.cpp
index d055c13..93a4401 100644
--- a/src/main/cpp/lang/markdown.cpp
+++ b/src/main/cpp/lang/markdown.cpp
@@ -29,8 +29,8 @@ std::size_t strip_atx_trailing(const std::u8string_view str)
 {
     /// https://spec.commonmark.org/0.31.2/#atx-headings
     std::size_t end = str.length();
-    // Strip trailing spaces.
-    while (end > 0 && str[end - 1] == u8' ') {
+    // Strip trailing spaces and tabs.
+    while (end > 0 && is_md_space(str[end - 1])) {
         --end;
     }
     if (end == 0) {
@@ -44,11 +44,11 @@ std::size_t strip_atx_trailing(const std::u8string_view str)
     while (hash_end > 0 && str[hash_end - 1] == u8'#') {
         --hash_end;
     }
-    // The hash run must be preceded by a space (or start of string) to count
+    // The hash run must be preceded by a space or tab (or start of string) to count
     // as a closing sequence.
-    if (hash_end == 0 || str[hash_end - 1] == u8' ') {
-        // Also strip the spaces before the hash run.
-        while (hash_end > 0 && str[hash_end - 1] == u8' ') {
+    if (hash_end == 0 || is_md_space(str[hash_end - 1])) {
+        // Also strip the spaces and tabs before the hash run.
+        while (hash_end > 0 && is_md_space(str[hash_end - 1])) {
             --hash_end;
         }
         return hash_end;
-- 
2.43.0


From 559c87ec4898532cda53b363551d998ca6d2592b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:33 +0000
Subject: [PATCH 150/157] fix: recognize YAML keys with quotes, "#" or blanks
 before the colon

---
 src/main/cpp/lang/yaml.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 3b93d70..1982c94 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -657,22 +657,26 @@ private:
                 }
             }
             else {
-                if (c == u8'"' || c == u8'\'') {
+                // Within a plain scalar, quotes and '#' have no special meaning.
+                const bool starts_token
+                    = colon_pos == 0 || is_yaml_whitespace(line[colon_pos - 1]);
+                if (starts_token && (c == u8'"' || c == u8'\'')) {
                     in_quote = true;
                     quote_char = c;
                 }
-                else if (c == u8'#') {
+                else if (starts_token && c == u8'#') {
                     // Comment starts - no colon after this
                     break;
                 }
                 else if (c == u8':') {
                     // Found colon! Check if followed by space or end of line
-                    if (colon_pos + 1 >= line.length() || line[colon_pos + 1] == u8' '
+                    if (colon_pos + 1 >= line.length() || is_yaml_whitespace(line[colon_pos + 1])
                         || match_line_break(line.substr(colon_pos + 1))) {
                         // It's a mapping key!
                         // Highlight the key
                         const std::u8string_view key_part = remainder.substr(0, colon_pos);
                         consume_flow_node_content(key_part.length(), Highlight_Type::markup_attr);
+                        consume_inline_whitespace();
 
                         // Highlight the colon
                         emit_and_advance(1, Highlight_Type::symbol_punc);
-- 
2.43.0


From a820589a5657bec26fb53fe4584a584d5141c238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:48 +0000
Subject: [PATCH 151/157] fix: recognize YAML sequence entries followed by a
 tab or line break

---
 src/main/cpp/lang/yaml.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 1982c94..708bb5a 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -588,11 +588,8 @@ private:
             }
 
             // Handle block sequence entry: - item
-            if (remainder.starts_with(u8"- ")) {
+            if (is_block_entry_indicator(remainder)) {
                 emit_and_advance(1, Highlight_Type::symbol_punc);
-                if (!remainder.empty() && remainder[0] == u8' ') {
-                    advance(1);
-                }
                 consume_whitespace_and_comments();
 
                 if (!remainder.empty() && !match_line_break(remainder) && remainder[0] != u8'#') {
@@ -633,6 +630,15 @@ private:
         }
     }
 
+    /// @brief Returns `true` if `str` starts with a `-` that introduces a block sequence entry.
+    [[nodiscard]]
+    static bool is_block_entry_indicator(const std::u8string_view str)
+    {
+        // https://yaml.org/spec/1.2.2/#821-block-sequences
+        return str.starts_with(u8'-')
+            && (str.length() == 1 || is_yaml_whitespace(str[1]) || match_line_break(str.substr(1)));
+    }
+
     /// @brief Try to consume a block mapping key at the given indentation.
     /// Returns `true` if a key/value pair was consumed.
     [[nodiscard]]
@@ -751,7 +757,7 @@ private:
         }
 
         // Compact sequence: another "- " on the same line
-        if (remainder.starts_with(u8"- ")) {
+        if (is_block_entry_indicator(remainder)) {
             consume_block_node(indent, 1);
             return;
         }
-- 
2.43.0


From 39896951358d5be35088f3d54b47b9cbee6512b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:00 +0000
Subject: [PATCH 152/157] fix: highlight YAML flow mappings that are no value
 of a key as such

---
 src/main/cpp/lang/yaml.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 708bb5a..2094296 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -647,6 +647,9 @@ private:
         // Look for "key: value" pattern on the current line.
         // We need to find the ': ' separator.
         const std::u8string_view line = remainder;
+        if (line.starts_with(u8'{') || line.starts_with(u8'[')) {
+            return false; // flow collection
+        }
         std::size_t colon_pos = 0;
         bool in_quote = false;
         char8_t quote_char = 0;
-- 
2.43.0


From 0888f63a06ec99c9f040f358fc25d3180f4884ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:14 +0000
Subject: [PATCH 153/157] fix: highlight longer YAML scalars that begin with
 "no" or "~" as strings

---
 src/main/cpp/lang/yaml.cpp | 53 +++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 2094296..1105467 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -1176,20 +1176,42 @@ private:
         flush();
     }
 
+    /// @brief Returns `true` if the first `length` code units are not continued by others
+    /// that belong to the same plain scalar.
+    [[nodiscard]]
+    bool is_entire_plain_scalar(const std::size_t length) const
+    {
+        const std::u8string_view rest = remainder.substr(length);
+        if (rest.empty() || match_line_break(rest) || is_yaml_plain_terminator(rest[0])) {
+            return true;
+        }
+        if (rest[0] == u8':') {
+            return rest.length() == 1 || is_yaml_whitespace(rest[1])
+                || match_line_break(rest.substr(1));
+        }
+        if (is_yaml_whitespace(rest[0])) {
+            // Space + flow indicator (e.g. "42 }" in flow mappings), space + comment,
+            // or nothing but space in the rest of the line.
+            const std::u8string_view after_space
+                = rest.substr(ascii::length_if(rest, is_yaml_whitespace));
+            return after_space.empty() || match_line_break(after_space) || after_space[0] == u8'#'
+                || after_space[0] == u8':' || is_yaml_flow_indicator(after_space[0]);
+        }
+        return false;
+    }
+
     void consume_plain_scalar(const bool is_key = false)
     {
         // https://yaml.org/spec/1.2.2/#ns-plain
         // First, check for special plain values: null, bool, number
-        if (remainder.starts_with(u8'~')) {
+        if (remainder.starts_with(u8'~') && is_entire_plain_scalar(1)) {
             emit_and_advance(1, Highlight_Type::null);
             return;
         }
 
         // Check for null/boolean identifiers
         if (const Plain_Identifier_Result id = match_plain_identifier(remainder)) {
-            if (id.length >= remainder.length() || is_yaml_word_terminator(remainder[id.length])
-                || match_line_break(remainder.substr(id.length)) || remainder[id.length] == u8':'
-                || remainder[id.length] == u8'-') {
+            if (is_entire_plain_scalar(id.length)) {
                 const auto highlight = id.type == Plain_Identifier_Type::null ? Highlight_Type::null
                     : id.type == Plain_Identifier_Type::bool_true  ? Highlight_Type::bool_
                     : id.type == Plain_Identifier_Type::bool_false ? Highlight_Type::bool_
@@ -1204,28 +1226,7 @@ private:
         // (up to a plain-terminator, not a generic word-terminator).
         // Otherwise "123 Main St" would be split into number + unhighlighted text.
         if (const Common_Number_Result num = match_number(remainder)) {
-            if (num.length >= remainder.length()) {
-                const auto highlight
-                    = num.erroneous ? Highlight_Type::error : Highlight_Type::number;
-                emit_and_advance(num.length, highlight);
-                return;
-            }
-            const char8_t peek = remainder[num.length];
-            const bool number_terminates
-                = is_yaml_plain_terminator(peek) || match_line_break(remainder.substr(num.length));
-            const bool number_followed_by_colon = peek == u8':'
-                && (num.length + 1 >= remainder.length() || remainder[num.length + 1] == u8' '
-                    || match_line_break(remainder.substr(num.length + 1)));
-            // Space + flow indicator (e.g. "42 }" in flow mappings), space + comment,
-            // or nothing but space in the rest of the line.
-            const std::u8string_view after_space = remainder.substr(
-                ascii::length_if(remainder, is_yaml_whitespace, num.length)
-            );
-            const bool number_then_terminating_space = is_yaml_whitespace(peek)
-                && (after_space.empty() || match_line_break(after_space)
-                    || after_space[0] == u8'#' || is_yaml_flow_indicator(after_space[0]));
-            if (number_terminates || peek == u8']' || peek == u8'}' || number_followed_by_colon
-                || number_then_terminating_space) {
+            if (is_entire_plain_scalar(num.length)) {
                 const auto highlight
                     = num.erroneous ? Highlight_Type::error : Highlight_Type::number;
                 emit_and_advance(num.length, highlight);
-- 
2.43.0


From f228d6f060b17df97126ac67cde93954e40652c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:54 +0000
Subject: [PATCH 154/157] fix: do not end YAML scalars at "," or "#" where
 these have no meaning

---
 src/main/cpp/lang/yaml.cpp | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 1105467..f167930 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -247,6 +247,8 @@ struct Highlighter : Highlighter_Base {
     };
 
     Indent_Stack indent_stack;
+    /// @brief The number of flow sequences and mappings that surround the current position.
+    std::size_t flow_depth = 0;
 
 public:
     Highlighter(
@@ -935,7 +937,13 @@ private:
         // https://yaml.org/spec/1.2.2/#c-flow-sequence
         ULIGHT_ASSERT(remainder.starts_with(u8'['));
         emit_and_advance(1, Highlight_Type::symbol_square);
+        ++flow_depth;
+        consume_flow_sequence_contents(indent);
+        --flow_depth;
+    }
 
+    void consume_flow_sequence_contents(const std::size_t indent)
+    {
         while (!remainder.empty()) {
             consume_whitespace_and_comments();
             if (remainder.empty()) {
@@ -963,7 +971,13 @@ private:
         // https://yaml.org/spec/1.2.2/#c-flow-mapping
         ULIGHT_ASSERT(remainder.starts_with(u8'{'));
         emit_and_advance(1, Highlight_Type::symbol_brace);
+        ++flow_depth;
+        consume_flow_mapping_contents(indent);
+        --flow_depth;
+    }
 
+    void consume_flow_mapping_contents(const std::size_t indent)
+    {
         while (!remainder.empty()) {
             consume_whitespace_and_comments();
             if (remainder.empty()) {
@@ -1176,17 +1190,25 @@ private:
         flush();
     }
 
+    /// @brief Returns `true` if `c` is a flow indicator and ends a plain scalar here.
+    /// https://yaml.org/spec/1.2.2/#733-plain-style
+    [[nodiscard]]
+    bool is_flow_indicator(const char8_t c) const
+    {
+        return flow_depth != 0 && is_yaml_flow_indicator(c);
+    }
+
     /// @brief Returns `true` if the first `length` code units are not continued by others
     /// that belong to the same plain scalar.
     [[nodiscard]]
     bool is_entire_plain_scalar(const std::size_t length) const
     {
         const std::u8string_view rest = remainder.substr(length);
-        if (rest.empty() || match_line_break(rest) || is_yaml_plain_terminator(rest[0])) {
+        if (rest.empty() || match_line_break(rest) || is_flow_indicator(rest[0])) {
             return true;
         }
         if (rest[0] == u8':') {
-            return rest.length() == 1 || is_yaml_whitespace(rest[1])
+            return rest.length() == 1 || is_yaml_whitespace(rest[1]) || is_flow_indicator(rest[1])
                 || match_line_break(rest.substr(1));
         }
         if (is_yaml_whitespace(rest[0])) {
@@ -1195,7 +1217,7 @@ private:
             const std::u8string_view after_space
                 = rest.substr(ascii::length_if(rest, is_yaml_whitespace));
             return after_space.empty() || match_line_break(after_space) || after_space[0] == u8'#'
-                || after_space[0] == u8':' || is_yaml_flow_indicator(after_space[0]);
+                || after_space[0] == u8':' || is_flow_indicator(after_space[0]);
         }
         return false;
     }
@@ -1238,10 +1260,10 @@ private:
         std::size_t length = 0;
         while (length < remainder.length()) {
             const char8_t c = remainder[length];
-            if (is_yaml_plain_terminator(c)) {
+            if (c == u8'\r' || c == u8'\n' || is_flow_indicator(c)) {
                 break;
             }
-            if (c == u8' ' && length > 0 && length + 1 < remainder.length()
+            if (is_yaml_whitespace(c) && length > 0 && length + 1 < remainder.length()
                 && remainder[length + 1] == u8'#') {
                 break;
             }
@@ -1251,7 +1273,8 @@ private:
             // A colon at position zero is just part of the scalar content
             // (e.g. \":value\" inside a flow sequence).
             if (c == u8':' && length > 0) {
-                if (length + 1 >= remainder.length() || remainder[length + 1] == u8' '
+                if (length + 1 >= remainder.length() || is_yaml_whitespace(remainder[length + 1])
+                    || is_flow_indicator(remainder[length + 1])
                     || match_line_break(remainder.substr(length + 1))) {
                     break;
                 }
-- 
2.43.0


From 2b0ce75e297ae072320dd992557305f612172b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:28 +0000
Subject: [PATCH 155/157] fix: highlight nodes behind YAML document markers

---
 src/main/cpp/lang/yaml.cpp | 56 +++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index f167930..3da0530 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -339,6 +339,27 @@ private:
         }
     }
 
+    /// @brief Returns `true` if `str` starts with `marker`, followed by white space or nothing.
+    [[nodiscard]]
+    static bool is_document_marker(const std::u8string_view str, const std::u8string_view marker)
+    {
+        // https://yaml.org/spec/1.2.2/#912-document-markers
+        return str.starts_with(marker)
+            && (str.length() == marker.length() || is_yaml_whitespace(str[marker.length()])
+                || match_line_break(str.substr(marker.length())));
+    }
+
+    /// @brief Consumes `---` and the node that may follow it in the same line.
+    void consume_directives_end_marker()
+    {
+        emit_and_advance(3, Highlight_Type::symbol_punc);
+        consume_inline_whitespace();
+        if (!remainder.empty() && !match_line_break(remainder) && remainder[0] != u8'#') {
+            consume_flow_node(0);
+        }
+        skip_line();
+    }
+
     void consume_document_suffix()
     {
         // https://yaml.org/spec/1.2.2/#l-document-suffix
@@ -348,22 +369,15 @@ private:
                 break;
             }
             // Document end marker: ...
-            if (remainder.starts_with(u8"...")) {
-                if (const std::size_t indent = current_indent(); indent == 0) {
-                    consume_indent(indent);
-                    emit_and_advance(3, Highlight_Type::symbol_punc);
-                    skip_line();
-                    continue;
-                }
+            if (is_document_marker(remainder, u8"...")) {
+                emit_and_advance(3, Highlight_Type::symbol_punc);
+                skip_line();
+                continue;
             }
             // Directives end marker: ---
-            if (remainder.starts_with(u8"---")) {
-                if (const std::size_t indent = current_indent(); indent == 0) {
-                    consume_indent(indent);
-                    emit_and_advance(3, Highlight_Type::symbol_punc);
-                    skip_line();
-                    break; // Start of next document
-                }
+            if (is_document_marker(remainder, u8"---")) {
+                consume_directives_end_marker();
+                break; // Start of next document
             }
             break;
         }
@@ -381,10 +395,8 @@ private:
         const std::size_t indent = current_indent();
 
         // Check for directives end marker (explicit document start)
-        if (indent == 0 && remainder.starts_with(u8"---")) {
-            consume_indent(0);
-            emit_and_advance(3, Highlight_Type::symbol_punc);
-            skip_line();
+        if (indent == 0 && is_document_marker(remainder, u8"---")) {
+            consume_directives_end_marker();
             consume_whitespace_and_comments();
             if (eof()) {
                 return;
@@ -396,9 +408,8 @@ private:
             consume_directives();
             // After directives, expect ---
             consume_whitespace_and_comments();
-            if (!remainder.empty() && remainder.starts_with(u8"---")) {
-                emit_and_advance(3, Highlight_Type::symbol_punc);
-                skip_line();
+            if (is_document_marker(remainder, u8"---")) {
+                consume_directives_end_marker();
                 consume_whitespace_and_comments();
             }
             if (eof()) {
@@ -545,7 +556,8 @@ private:
 
             // Document markers at indent 0 stop block parsing.
             if (line_indent == 0
-                && (remainder.starts_with(u8"---") || remainder.starts_with(u8"..."))) {
+                && (is_document_marker(remainder, u8"---")
+                    || is_document_marker(remainder, u8"..."))) {
                 return;
             }
 
-- 
2.43.0


From 07b3b4cd31460edead32bc3658898742ac9f0d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:07 +0000
Subject: [PATCH 156/157] fix: do not lose the line after a YAML block scalar
 with a tag or anchor

---
 src/main/cpp/lang/yaml.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 3da0530..e8f8cc8 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -295,6 +295,15 @@ private:
         skip_line_break();
     }
 
+    /// @brief Like `skip_line`, but has no effect behind a block scalar,
+    /// which includes the line break that ends it.
+    void finish_line()
+    {
+        if (index == 0 || !match_line_break({ remainder.data() - 1, 1 })) {
+            skip_line();
+        }
+    }
+
     /// @brief Skip a line break sequence (CR, LF, or CRLF).
     void skip_line_break()
     {
@@ -357,7 +366,7 @@ private:
         if (!remainder.empty() && !match_line_break(remainder) && remainder[0] != u8'#') {
             consume_flow_node(0);
         }
-        skip_line();
+        finish_line();
     }
 
     void consume_document_suffix()
@@ -636,7 +645,7 @@ private:
             // Check for flow node
             if (!remainder.empty() && !match_line_break(remainder) && remainder[0] != u8'#') {
                 consume_flow_node(line_indent);
-                skip_line();
+                finish_line();
                 continue;
             }
 
@@ -744,7 +753,7 @@ private:
                         if (is_block_scalar) {
                             return true;
                         }
-                        skip_line();
+                        finish_line();
 
                         // If value was on the next line(s), parse block value.
                         skip_blank_and_comment_lines();
@@ -1275,6 +1284,9 @@ private:
             if (c == u8'\r' || c == u8'\n' || is_flow_indicator(c)) {
                 break;
             }
+            if (c == u8'#' && length == 0) {
+                break; // comment
+            }
             if (is_yaml_whitespace(c) && length > 0 && length + 1 < remainder.length()
                 && remainder[length + 1] == u8'#') {
                 break;
-- 
2.43.0


From 052a1845ecab78af4daf79d96a465951b69f6b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:50 +0000
Subject: [PATCH 157/157] fix: tell apart the tags and anchors of YAML keys

---
 src/main/cpp/lang/yaml.cpp | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index e8f8cc8..ae11478 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -662,6 +662,29 @@ private:
             && (str.length() == 1 || is_yaml_whitespace(str[1]) || match_line_break(str.substr(1)));
     }
 
+    /// @brief Returns the length of tags and anchors at the start of `str`,
+    /// including white space that follows them.
+    [[nodiscard]]
+    static std::size_t match_node_properties(const std::u8string_view str)
+    {
+        // https://yaml.org/spec/1.2.2/#c-ns-properties
+        std::size_t length = 0;
+        while (length < str.length() && (str[length] == u8'&' || str[length] == u8'!')) {
+            if (str.substr(length).starts_with(u8"!<")) {
+                length = ascii::length_if_not(
+                    str, [](char8_t c) { return c == u8'>' || c == u8'\r' || c == u8'\n'; }, length
+                );
+                length += str.substr(length).starts_with(u8'>');
+            }
+            else {
+                length += 1;
+                length = ascii::length_if_not(str, is_yaml_anchor_terminator, length);
+            }
+            length = ascii::length_if(str, is_yaml_whitespace, length);
+        }
+        return length;
+    }
+
     /// @brief Try to consume a block mapping key at the given indentation.
     /// Returns `true` if a key/value pair was consumed.
     [[nodiscard]]
@@ -673,7 +696,7 @@ private:
         if (line.starts_with(u8'{') || line.starts_with(u8'[')) {
             return false; // flow collection
         }
-        std::size_t colon_pos = 0;
+        std::size_t colon_pos = match_node_properties(line);
         bool in_quote = false;
         char8_t quote_char = 0;
 
@@ -706,8 +729,14 @@ private:
                         || match_line_break(line.substr(colon_pos + 1))) {
                         // It's a mapping key!
                         // Highlight the key
-                        const std::u8string_view key_part = remainder.substr(0, colon_pos);
-                        consume_flow_node_content(key_part.length(), Highlight_Type::markup_attr);
+                        const std::size_t key_end = index + colon_pos;
+                        consume_node_properties();
+                        const std::size_t alias_length = match_alias(remainder);
+                        if (alias_length != 0 && alias_length <= key_end - index) {
+                            consume_alias();
+                            consume_inline_whitespace();
+                        }
+                        consume_flow_node_content(key_end - index, Highlight_Type::markup_attr);
                         consume_inline_whitespace();
 
                         // Highlight the colon
-- 
2.43.0

