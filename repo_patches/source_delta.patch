From 5ff743bdeb7080f8a98bffb5b601d888aef0c2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:25 +0000
Subject: [PATCH 01/51] fix: css: make progress on bytes that start no UTF-8
 sequence, and stay in bounds

---
 src/main/cpp/lang/css.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index 1a895b2..7ba277b 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -98,7 +98,7 @@ std::size_t match_escaped_code_point(std::u8string_view str)
         }
         return length;
     }
-    return std::size_t(utf8::sequence_length(str[0]));
+    return std::size_t(utf8::decode_and_length_or_replacement(str).length);
 }
 
 std::size_t match_ident_sequence(std::u8string_view str)
@@ -398,7 +398,7 @@ public:
                     consume_ident_like_token(contextual_highlight_type);
                 }
                 else {
-                    advance(std::size_t(utf8::sequence_length(c)));
+                    advance(std::size_t(utf8::decode_and_length_or_replacement(remainder).length));
                 }
                 break;
             }
-- 
2.43.0


From 719ad7e44520c001b9bf66f89457db6bc5bb2153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 02/51] fix: js: do not run past the end of a string whose
 escape is cut off

---
 src/main/cpp/lang/js.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 7449ea1..77a920d 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -1284,7 +1284,7 @@ private:
         std::size_t remaining = content_length;
         while (remaining > 0) {
             if (remainder.starts_with(u8'\\')) {
-                if (const Escape_Result esc = match_escape_sequence(remainder)) {
+                if (const Escape_Result esc = match_escape_sequence(remainder.substr(0, remaining))) {
                     flush_chars();
                     emit_and_advance(
                         esc.length,
-- 
2.43.0


From 97084aed8ac24991e1bf1b325508c581ad54ef97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 03/51] fix: js: keep escapes and errors from splitting
 multi-byte characters

---
 src/main/cpp/lang/js.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 77a920d..a8b0145 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -287,7 +287,8 @@ Escape_Result match_escape_sequence(const std::u8string_view str)
     }
     default: {
         // https://262.ecma-international.org/15.0/index.html#prod-CharacterEscapeSequence
-        return { .length = 2 };
+        const auto [_, units] = utf8::decode_and_length_or_replacement(str.substr(1));
+        return { .length = 1 + std::size_t(units) };
     }
     }
 }
@@ -997,7 +998,8 @@ private:
 
     void consume_error()
     {
-        emit_and_advance(1, Highlight_Type::error);
+        const auto [_, error_length] = utf8::decode_and_length_or_replacement(remainder);
+        emit_and_advance(std::size_t(error_length), Highlight_Type::error);
         input_element = Input_Element::regex;
     }
 
-- 
2.43.0


From 5ce56995ef365a0cb399aeb4caafa314327dc975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 04/51] fix: js: keep JSX matching and highlighting at the same
 position

---
 src/main/cpp/lang/js.cpp | 43 +++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index a8b0145..d946fc2 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -1094,40 +1094,34 @@ private:
     {
         // https://facebook.github.io/jsx/#prod-JSXChildren
         int depth = 0;
-        std::u8string_view rem = remainder;
-        while (!rem.empty()) {
+        while (!remainder.empty()) {
             // https://facebook.github.io/jsx/#prod-JSXText
-            const std::size_t safe_length = rem.find_first_of(u8"&{}<>");
+            const std::size_t safe_length = remainder.find_first_of(u8"&{}<>");
             if (safe_length == std::u8string_view::npos) {
-                advance(rem.length());
+                advance(remainder.length());
                 break;
             }
             advance(safe_length);
-            rem.remove_prefix(safe_length);
 
-            switch (rem[0]) {
+            switch (remainder[0]) {
             case u8'&': {
                 // https://facebook.github.io/jsx/#prod-HTMLCharacterReference
-                if (const std::size_t ref = html::match_character_reference(rem)) {
+                if (const std::size_t ref = html::match_character_reference(remainder)) {
                     emit_and_advance(ref, Highlight_Type::string_escape);
-                    rem.remove_prefix(ref);
                 }
                 else {
                     advance(1);
-                    rem.remove_prefix(1);
                 }
                 continue;
             }
             case u8'<': {
                 // https://facebook.github.io/jsx/#prod-JSXElement
-                const JSX_Tag_Result tag = match_jsx_tag(rem);
+                const JSX_Tag_Result tag = match_jsx_tag(remainder);
                 if (!tag) {
                     emit_and_advance(1, Highlight_Type::error);
-                    rem.remove_prefix(1);
                     continue;
                 }
                 consume_jsx_tag();
-                rem.remove_prefix(tag.length);
                 if (tag.type == JSX_Type::opening || tag.type == JSX_Type::fragment_opening) {
                     ++depth;
                 }
@@ -1142,27 +1136,23 @@ private:
                 // Stray ">".
                 // This should have been part of a tag.
                 emit_and_advance(1, Highlight_Type::error);
-                rem.remove_prefix(1);
                 continue;
             }
             case u8'{': {
                 // https://facebook.github.io/jsx/#prod-JSXChild
-                const JSX_Braced_Result braced = match_jsx_braced(rem);
-                if (braced) {
-                    highlight_jsx_braced(braced);
-                    rem.remove_prefix(braced.length);
-                }
-                else {
-                    emit_and_advance(1, Highlight_Type::error);
-                    rem.remove_prefix(1);
+                emit_and_advance(1, Highlight_Type::symbol_brace);
+                consume_js_before_closing_brace();
+                if (!remainder.empty()) {
+                    ULIGHT_ASSERT(remainder.starts_with(u8'}'));
+                    emit_and_advance(1, Highlight_Type::symbol_brace);
                 }
+                // Otherwise, we have an unterminated expression.
                 continue;
             }
             case u8'}': {
                 // Stray "}".
                 // This should have been part of a braced child expression.
                 emit_and_advance(1, Highlight_Type::error);
-                rem.remove_prefix(1);
                 continue;
             }
             default: ULIGHT_ASSERT_UNREACHABLE();
@@ -1180,9 +1170,16 @@ private:
         emit_and_advance(1, Highlight_Type::symbol_brace);
         const std::size_t js_length = braced.length - (braced.is_terminated ? 2 : 1);
 
-        if (js_length != 0) {
+        // Highlighting must stop exactly where the braces were matched,
+        // even if tokenization within (e.g. template literals) disagrees about where that is.
+        const std::u8string_view after_js = remainder.substr(js_length);
+        remainder = remainder.substr(0, js_length);
+        consume_js_before_closing_brace();
+        while (!remainder.empty()) {
+            emit_and_advance(1, Highlight_Type::symbol_brace); // Unbalanced '}'.
             consume_js_before_closing_brace();
         }
+        remainder = after_js;
         if (braced.is_terminated) {
             emit_and_advance(1, Highlight_Type::symbol_brace);
         }
-- 
2.43.0


From d7827f9af442c899b8511e373d3e32b3e9eca299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:18 +0000
Subject: [PATCH 05/51] fix: yaml: keep directives and tags from splitting
 multi-byte characters

---
 src/main/cpp/lang/yaml.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 7297ae8..e369f25 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -5,6 +5,7 @@
 #include "ulight/impl/ascii_algorithm.hpp"
 #include "ulight/impl/ascii_chars.hpp"
 #include "ulight/impl/highlighter.hpp"
+#include "ulight/impl/unicode.hpp"
 
 #include "ulight/impl/lang/yaml.hpp"
 
@@ -278,6 +279,13 @@ private:
     // Line-level utilities
     // ========================================================================
 
+    /// @brief Returns the length of the code point at the start of `remainder`, in code units.
+    [[nodiscard]]
+    std::size_t next_code_point_length() const
+    {
+        return std::size_t(utf8::decode_and_length_or_replacement(remainder).length);
+    }
+
     /// @brief Skip to the next line.
     void skip_line()
     {
@@ -436,7 +444,7 @@ private:
                 advance(1);
             }
             else {
-                emit_and_advance(1, Highlight_Type::string);
+                emit_and_advance(next_code_point_length(), Highlight_Type::string);
             }
         }
         skip_line();
@@ -841,7 +849,7 @@ private:
             emit_and_advance(2, Highlight_Type::name_attr_delim);
             while (!remainder.empty() && remainder[0] != u8'>' && remainder[0] != u8'\r'
                    && remainder[0] != u8'\n') {
-                emit_and_advance(1, Highlight_Type::name_attr);
+                emit_and_advance(next_code_point_length(), Highlight_Type::name_attr);
             }
             if (!remainder.empty() && remainder[0] == u8'>') {
                 emit_and_advance(1, Highlight_Type::name_attr_delim);
@@ -880,7 +888,7 @@ private:
     void consume_tag_suffix()
     {
         while (!remainder.empty() && !is_yaml_word_terminator(remainder[0])) {
-            emit_and_advance(1, Highlight_Type::name_attr);
+            emit_and_advance(next_code_point_length(), Highlight_Type::name_attr);
         }
     }
 
-- 
2.43.0


From 8e55178b452589abaaa40eb2ae4b0e774f70d222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 06/51] fix: yaml: do not limit the number of entries in a
 block

---
 src/main/cpp/lang/yaml.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index e369f25..f255f27 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -1,6 +1,7 @@
 #include <algorithm>
 #include <memory_resource>
 #include <string_view>
+#include <vector>
 
 #include "ulight/impl/ascii_algorithm.hpp"
 #include "ulight/impl/ascii_chars.hpp"
@@ -213,37 +214,37 @@ struct Highlighter : Highlighter_Base {
     /// @brief Stack of indentation levels for block structures.
     /// Used to detect when a block collection ends (de-dent).
     struct Indent_Stack {
-        static constexpr std::size_t capacity = 64;
-        std::size_t data[capacity];
-        std::size_t size = 0;
+        std::pmr::vector<std::size_t> data;
 
         void push(std::size_t n)
         {
-            ULIGHT_ASSERT(size < capacity);
-            data[size++] = n;
+            // Entries on the same level are always popped together.
+            if (data.empty() || data.back() != n) {
+                data.push_back(n);
+            }
         }
 
         [[nodiscard]]
         std::size_t top() const
         {
-            return size == 0 ? 0 : data[size - 1];
+            return data.empty() ? 0 : data.back();
         }
 
         void pop()
         {
-            ULIGHT_ASSERT(size > 0);
-            --size;
+            ULIGHT_ASSERT(!data.empty());
+            data.pop_back();
         }
 
         [[nodiscard]]
         bool empty() const
         {
-            return size == 0;
+            return data.empty();
         }
 
         void reset()
         {
-            size = 0;
+            data.clear();
         }
     };
 
@@ -257,6 +258,7 @@ public:
         const Highlight_Options& options
     )
         : Highlighter_Base { out, source, memory, options }
+        , indent_stack { std::pmr::vector<std::size_t>(memory) }
     {
     }
 
-- 
2.43.0


From d4c2fedf3a9a15386f97e3a7a5d8a196b90580e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 07/51] fix: yaml: do not recurse for each entry of a block
 sequence

---
 src/main/cpp/lang/yaml.cpp | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index f255f27..22c5039 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -535,7 +535,24 @@ private:
     ///   (to account for the "- " prefix being perceived as indentation).
     void consume_block_node(const std::size_t block_indent, const std::size_t seq_offset)
     {
-        const std::size_t effective_indent = block_indent - seq_offset;
+        // Nodes that are the last thing in the current one are not processed recursively
+        // because each entry of a sequence would then go one level deeper.
+        // Instead, the indentation levels to return to are stored here.
+        std::pmr::vector<std::size_t> outer_indents(memory);
+        std::size_t effective_indent = block_indent - seq_offset;
+        const auto enter = [&](const std::size_t indent) {
+            outer_indents.push_back(effective_indent);
+            effective_indent = indent;
+        };
+        const auto leave = [&] {
+            if (outer_indents.empty()) {
+                return false;
+            }
+            effective_indent = outer_indents.back();
+            outer_indents.pop_back();
+            return true;
+        };
+
         while (!eof()) {
             // Skip blank lines and comment lines, preserving indentation.
             skip_blank_and_comment_lines();
@@ -557,7 +574,10 @@ private:
                 while (!indent_stack.empty() && line_indent <= indent_stack.top()) {
                     indent_stack.pop();
                 }
-                return;
+                if (!leave()) {
+                    return;
+                }
+                continue;
             }
 
             // Consume the indentation (no highlighting).
@@ -581,11 +601,11 @@ private:
                     consume_whitespace_and_comments();
                     if (!remainder.empty() && !match_line_break(remainder)
                         && remainder[0] != u8'#') {
-                        consume_block_node(line_indent, 0);
+                        enter(line_indent);
                     }
                     else {
                         skip_line();
-                        consume_block_node(line_indent, 0);
+                        enter(line_indent);
                     }
                 }
                 continue;
@@ -606,7 +626,7 @@ private:
                     skip_line();
                 }
                 indent_stack.push(line_indent);
-                consume_block_node(line_indent, 0);
+                enter(line_indent);
                 continue;
             }
 
@@ -633,7 +653,9 @@ private:
                 continue;
             }
 
-            break;
+            if (!leave()) {
+                return;
+            }
         }
     }
 
-- 
2.43.0


From 43e77093077594f598b1b826064187ca124bdac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 08/51] fix: rust: remove wrong assertions after lifetimes

---
 src/main/cpp/lang/rust.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index 4dedc55..403fcfc 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -584,9 +584,6 @@ private:
             else {
                 emit_result(raw_prefix.length(), id_length);
             }
-            // There should not be a closing apostrophe here because any such case would have
-            // been interpreted as a character literal already.
-            ULIGHT_DEBUG_ASSERT(!remainder.starts_with(u8'\''));
         }
         else {
             const std::size_t id_length = match_identifier(remainder.substr(1));
@@ -594,7 +591,6 @@ private:
                 return false;
             }
             emit_result(1, id_length);
-            ULIGHT_DEBUG_ASSERT(!remainder.starts_with(u8'\''));
         }
         return true;
     }
-- 
2.43.0


From c61d453bb8a4408f67f4f3b75fd49d79e0bda415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 09/51] fix: markdown: emit no empty token for a comment that
 ends the source

---
 src/main/cpp/lang/markdown.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/markdown.cpp b/src/main/cpp/lang/markdown.cpp
index 5e1f766..84e315b 100644
--- a/src/main/cpp/lang/markdown.cpp
+++ b/src/main/cpp/lang/markdown.cpp
@@ -830,7 +830,11 @@ private:
             return true;
         }
 
-        emit_and_advance(comment.length - html_comment_prefix.length(), Highlight_Type::comment);
+        if (comment.length > html_comment_prefix.length()) {
+            emit_and_advance(
+                comment.length - html_comment_prefix.length(), Highlight_Type::comment
+            );
+        }
         in_html_comment = true;
         return true;
     }
-- 
2.43.0


From 8e798e133fec5663ff0971a88d728ffc8ae71039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 10/51] fix: lua: emit no empty tokens and do not split
 multi-byte characters

---
 src/main/cpp/lang/lua.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/lua.cpp b/src/main/cpp/lang/lua.cpp
index 9c048ad..048cbb5 100644
--- a/src/main/cpp/lang/lua.cpp
+++ b/src/main/cpp/lang/lua.cpp
@@ -528,6 +528,10 @@ bool highlight_lua(
 )
 {
     const auto emit = [&](std::size_t begin, std::size_t length, Highlight_Type type) {
+        if (length == 0) {
+            // This happens for empty comments and strings.
+            return;
+        }
         const bool coalesce = options.coalescing //
             && !out.empty() //
             && Highlight_Type(out.back().type) == type //
@@ -680,8 +684,10 @@ bool highlight_lua(
             continue;
         }
 
-        emit(index, 1, Highlight_Type::symbol);
-        index++;
+        // Anything else is not necessarily ASCII, and code points should not be split up.
+        const auto [_, units] = utf8::decode_and_length_or_replacement(remainder);
+        emit(index, std::size_t(units), Highlight_Type::symbol);
+        index += std::size_t(units);
     }
 
     return true;
-- 
2.43.0


From bacb6ce69c6a0609404c31afe8b99ff82e0816b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 11/51] fix: tex: keep escapes from splitting multi-byte
 characters

---
 src/main/cpp/lang/tex.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/tex.cpp b/src/main/cpp/lang/tex.cpp
index 55ed495..f50d249 100644
--- a/src/main/cpp/lang/tex.cpp
+++ b/src/main/cpp/lang/tex.cpp
@@ -8,6 +8,7 @@
 #include "ulight/impl/buffer.hpp"
 #include "ulight/impl/highlight.hpp"
 #include "ulight/impl/highlighter.hpp"
+#include "ulight/impl/unicode.hpp"
 
 #include "ulight/impl/lang/tex.hpp"
 
@@ -65,7 +66,10 @@ struct Highlighter : Highlighter_Base {
                     // While TeX doesn't really distinguish between '\{' and '\abc'
                     // as being escape sequences or commands,
                     // it is helpful for highlighting if we do that.
-                    emit_and_advance(2, Highlight_Type::string_escape);
+                    // The escaped character is not necessarily ASCII.
+                    const auto [_, units]
+                        = utf8::decode_and_length_or_replacement(remainder.substr(1));
+                    emit_and_advance(1 + std::size_t(units), Highlight_Type::string_escape);
                     break;
                 }
                 emit_and_advance(name_length, Highlight_Type::markup_tag);
-- 
2.43.0


From 7fcffd77d5ac293aeb50e3b6c787b5e243792ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 12/51] fix: xml: keep errors in names from splitting
 multi-byte characters

---
 src/main/cpp/lang/xml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 9dec07c..16aae3f 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -748,10 +748,10 @@ private:
                 if (piece_length) {
                     emit_and_advance(piece_length, type);
                 }
-                emit_and_advance(1, Highlight_Type::error);
+                emit_and_advance(std::size_t(length), Highlight_Type::error);
 
                 piece_length = 0;
-                total_length += 1;
+                total_length += std::size_t(length);
             }
             else {
                 piece_length += std::size_t(length);
-- 
2.43.0


From a95430739f9101296c2d21541454f4e036963ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 13/51] fix: leave flush_tokens as configured after converting
 to HTML

---
 src/main/cpp/ulight.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/main/cpp/ulight.cpp b/src/main/cpp/ulight.cpp
index 092935c..11d15dd 100644
--- a/src/main/cpp/ulight.cpp
+++ b/src/main/cpp/ulight.cpp
@@ -532,10 +532,19 @@ ulight_status ulight_source_to_html(ulight_state* state) noexcept
     ulight::Function_Ref<void( ulight_token*, std::size_t)> flush_text_ref = flush_text;
 
     // clang-format on
+    const void* const old_flush_tokens_data = state->flush_tokens_data;
+    const auto old_flush_tokens = state->flush_tokens;
+
     state->flush_tokens_data = flush_text_ref.get_entity();
     state->flush_tokens = flush_text_ref.get_invoker();
 
     const ulight_status result = ulight_source_to_tokens(state);
+
+    // The function object above does not outlive this call,
+    // so no reference to it should remain in the state.
+    state->flush_tokens_data = old_flush_tokens_data;
+    state->flush_tokens = old_flush_tokens;
+
     if (result != ULIGHT_STATUS_OK) {
         return result;
     }
-- 
2.43.0


From a386ed9f83c189cfaf7d834bc297d4b581437960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 14/51] fix: reject all numeric values that are no language

---
 src/main/cpp/ulight.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/ulight.cpp b/src/main/cpp/ulight.cpp
index 11d15dd..6def47b 100644
--- a/src/main/cpp/ulight.cpp
+++ b/src/main/cpp/ulight.cpp
@@ -411,7 +411,7 @@ ulight_status ulight_source_to_tokens(ulight_state* state) noexcept
     if (state->flush_tokens == nullptr) {
         return error(state, ULIGHT_STATUS_BAD_BUFFER, u8"flush_tokens must not be null.");
     }
-    if (state->lang == ULIGHT_LANG_NONE || int(state->lang) > ULIGHT_LANG_COUNT) {
+    if (int(state->lang) <= int(ULIGHT_LANG_NONE) || int(state->lang) >= ULIGHT_LANG_COUNT) {
         return error(
             state, ULIGHT_STATUS_BAD_LANG, u8"The given language (numeric value) is invalid."
         );
-- 
2.43.0


From 52a393710284b45c4eb0fe96e381b7a8bef4f17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 15/51] fix: report allocation failure in ulight_new

---
 src/main/cpp/ulight.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/cpp/ulight.cpp b/src/main/cpp/ulight.cpp
index 6def47b..7d264e3 100644
--- a/src/main/cpp/ulight.cpp
+++ b/src/main/cpp/ulight.cpp
@@ -354,6 +354,9 @@ ULIGHT_EXPORT
 ulight_state* ulight_new() noexcept
 {
     void* const result = ulight_alloc(sizeof(ulight_state), alignof(ulight_state));
+    if (!result) {
+        return nullptr;
+    }
     return ulight_init(static_cast<ulight_state*>(result));
 }
 
-- 
2.43.0


From aa03fd0b5d9dc4cab490d0eaba57a431f10b41e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 16/51] fix: make ulight_lang_from_path_u8 look at the path

---
 src/main/cpp/ulight.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/ulight.cpp b/src/main/cpp/ulight.cpp
index 7d264e3..fa53d0f 100644
--- a/src/main/cpp/ulight.cpp
+++ b/src/main/cpp/ulight.cpp
@@ -258,7 +258,7 @@ ulight_lang ulight_lang_from_path(const char* path, size_t path_length) noexcept
 ULIGHT_EXPORT
 ulight_lang ulight_lang_from_path_u8(const char8_t* path, size_t path_length) noexcept
 {
-    return ulight_get_lang(reinterpret_cast<const char*>(path), path_length);
+    return ulight_lang_from_path(reinterpret_cast<const char*>(path), path_length);
 }
 
 ULIGHT_EXPORT
-- 
2.43.0


From d73551c53cb5befa930d95b4ca47092a84dfeee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 17/51] fix: set the length of the attribute name in
 set_html_attr_name

---
 include/ulight/ulight.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/ulight.hpp b/include/ulight/ulight.hpp
index da170ab..bc4500f 100644
--- a/include/ulight/ulight.hpp
+++ b/include/ulight/ulight.hpp
@@ -484,7 +484,7 @@ struct [[nodiscard]] State {
     void set_html_attr_name(std::string_view name) noexcept
     {
         impl.html_attr_name = name.data();
-        impl.html_tag_name_length = name.length();
+        impl.html_attr_name_length = name.length();
     }
 
     void set_text_buffer(std::span<char> buffer)
-- 
2.43.0


From 7bd85a9c06cdc6b312eede0c6fdfe786beae2ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:35 +0000
Subject: [PATCH 18/51] fix: keep erroneous hexadecimal escapes from splitting
 multi-byte characters

---
 include/ulight/impl/escapes.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/ulight/impl/escapes.hpp b/include/ulight/impl/escapes.hpp
index 649b296..7ca1024 100644
--- a/include/ulight/impl/escapes.hpp
+++ b/include/ulight/impl/escapes.hpp
@@ -159,12 +159,19 @@ constexpr Escape_Result match_common_escape(std::u8string_view str)
     else if constexpr (type == Common_Escape::hex_2 || type == Common_Escape::hex_4
                        || type == Common_Escape::hex_8) {
         constexpr std::size_t min_length = escape_type_min_length(type);
-        str = str.substr(0, min(min_length, str.length()));
         if (str.length() < min_length) {
             return { .length = str.length(), .erroneous = true };
         }
-        const bool all_hex = all_of(str, hex_digit_lambda);
-        return { .length = str.length(), .erroneous = !all_hex };
+        std::size_t length = min_length;
+        const bool all_hex = all_of(str.substr(0, length), hex_digit_lambda);
+        if (!all_hex) {
+            // The last code unit may be in the middle of a multi-byte character,
+            // which should not be split up.
+            while (length < str.length() && (str[length] & 0xC0) == 0x80) {
+                ++length;
+            }
+        }
+        return { .length = length, .erroneous = !all_hex };
     }
 
     else if constexpr (type == Common_Escape::nonempty_braced) {
-- 
2.43.0


From 03f503f97343ff324baa96ef42992c8d0f9a279d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:35 +0000
Subject: [PATCH 19/51] fix: bash: keep escapes from splitting multi-byte
 characters

---
 src/main/cpp/lang/bash.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/bash.cpp b/src/main/cpp/lang/bash.cpp
index 7c58241..b2cb2af 100644
--- a/src/main/cpp/lang/bash.cpp
+++ b/src/main/cpp/lang/bash.cpp
@@ -7,6 +7,7 @@
 
 #include "ulight/impl/highlight.hpp"
 #include "ulight/impl/highlighter.hpp"
+#include "ulight/impl/unicode.hpp"
 
 #include "ulight/impl/lang/bash.hpp"
 
@@ -319,7 +320,8 @@ private:
             advance(1);
         }
         else {
-            emit_and_advance(std::min(2uz, remainder.length()), Highlight_Type::string_escape);
+            const auto [_, units] = utf8::decode_and_length_or_replacement(remainder.substr(1));
+            emit_and_advance(1 + std::size_t(units), Highlight_Type::string_escape);
         }
     }
 
-- 
2.43.0


From 87e46ba3eb99f1f52f2490d384506c27b651ac0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:36 +0000
Subject: [PATCH 20/51] fix: cowel: keep errors from splitting multi-byte
 characters

---
 src/main/cpp/lang/cowel.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/cowel.cpp b/src/main/cpp/lang/cowel.cpp
index b578562..74f2c75 100644
--- a/src/main/cpp/lang/cowel.cpp
+++ b/src/main/cpp/lang/cowel.cpp
@@ -469,7 +469,8 @@ struct [[nodiscard]] Highlighter : Highlighter_Base {
                 );
             }
             else {
-                emit_and_advance(1, Highlight_Type::error);
+                const auto [_, units] = utf8::decode_and_length_or_replacement(remainder);
+                emit_and_advance(std::size_t(units), Highlight_Type::error);
             }
         }
 
@@ -553,7 +554,8 @@ struct [[nodiscard]] Highlighter : Highlighter_Base {
                 );
             }
             else {
-                emit_and_advance(1, Highlight_Type::error);
+                const auto [_, units] = utf8::decode_and_length_or_replacement(remainder);
+                emit_and_advance(std::size_t(units), Highlight_Type::error);
             }
         }
 
-- 
2.43.0


From 3a39027ad6960f7c61b4b4b2472386ed4e9403e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:36 +0000
Subject: [PATCH 21/51] fix: cpp: keep literals from splitting multi-byte
 characters, and stay in bounds

---
 src/main/cpp/lang/cpp.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/lang/cpp.cpp b/src/main/cpp/lang/cpp.cpp
index e50a9c4..93aea6d 100644
--- a/src/main/cpp/lang/cpp.cpp
+++ b/src/main/cpp/lang/cpp.cpp
@@ -448,7 +448,8 @@ Escape_Result match_escape_sequence(std::u8string_view str)
     }
 
     default: {
-        return { .length = 2,
+        const auto [_, units] = utf8::decode_and_length_or_replacement(str.substr(1));
+        return { .length = 1 + std::size_t(units),
                  .type = Escape_Type::conditional,
                  .erroneous = !is_cpp_basic(str[1]) };
     }
@@ -811,9 +812,9 @@ public:
                 fresh_line = true;
                 return;
             }
-            const auto code_units = std::size_t(utf8::sequence_length(source[index], 1));
-            chars_length += code_units;
-            advance(code_units);
+            const auto [_, code_units] = utf8::decode_and_length_or_replacement(remainder());
+            chars_length += std::size_t(code_units);
+            advance(std::size_t(code_units));
         }
 
         // This point is only reached when the literal is unterminated.
@@ -837,7 +838,11 @@ public:
             return;
         }
         if (rem[d_char_sequence_length + 1] != u8'(') {
-            emit_and_advance(d_char_sequence_length + 2, Highlight_Type::error);
+            const auto [_, units]
+                = utf8::decode_and_length_or_replacement(rem.substr(d_char_sequence_length + 1));
+            emit_and_advance(
+                d_char_sequence_length + 1 + std::size_t(units), Highlight_Type::error
+            );
             return;
         }
         rem.remove_prefix(d_char_sequence_length + 2);
-- 
2.43.0


From 4500d727c58666caa48b8f7552b974e39e343fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:36 +0000
Subject: [PATCH 22/51] fix: java: keep character literals from splitting
 multi-byte characters

---
 src/main/cpp/lang/java.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/java.cpp b/src/main/cpp/lang/java.cpp
index fc1b436..084a7f7 100644
--- a/src/main/cpp/lang/java.cpp
+++ b/src/main/cpp/lang/java.cpp
@@ -341,7 +341,8 @@ private:
         }
         else if (!remainder.empty() && remainder[0] != u8'\'' //
                  && remainder[0] != u8'\r' && remainder[0] != u8'\n') {
-            emit_and_advance(1, Highlight_Type::string);
+            const auto [_, units] = utf8::decode_and_length_or_replacement(remainder);
+            emit_and_advance(std::size_t(units), Highlight_Type::string);
         }
         else if (!remainder.empty()) {
             emit_and_advance(1, Highlight_Type::error);
-- 
2.43.0


From b933658eeb1e23af7e6bbfe5c1e29682c785cfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:36 +0000
Subject: [PATCH 23/51] fix: kotlin: keep errors in annotations from splitting
 multi-byte characters

---
 src/main/cpp/lang/kotlin.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index 9d24fda..f91b563 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -497,7 +497,8 @@ private:
                 consume_dotted_annotation_name();
             }
             else {
-                emit_and_advance(1, Highlight_Type::error);
+                const auto [_, units] = utf8::decode_and_length_or_replacement(remainder);
+                emit_and_advance(std::size_t(units), Highlight_Type::error);
             }
         }
         if (!remainder.empty() && remainder[0] == u8']') {
-- 
2.43.0


From b1bf8e857566b4fde90c03beac55bf51e21dc4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:36 +0000
Subject: [PATCH 24/51] fix: nasm: keep escapes from splitting multi-byte
 characters

---
 src/main/cpp/lang/nasm.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index 3f28f46..b952004 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -4,6 +4,7 @@
 #include "ulight/impl/ascii_algorithm.hpp"
 #include "ulight/impl/highlight.hpp"
 #include "ulight/impl/highlighter.hpp"
+#include "ulight/impl/unicode.hpp"
 #include "ulight/impl/numbers.hpp"
 #include "ulight/impl/parse_utils.hpp"
 
@@ -55,7 +56,8 @@ Escape_Result match_escape_sequence(std::u8string_view str)
         return match_common_escape<Common_Escape::hex_8>(str, 2);
     }
     default: {
-        return { .length = 2uz, .erroneous = true };
+        const auto [_, units] = utf8::decode_and_length_or_replacement(str.substr(1));
+        return { .length = 1 + std::size_t(units), .erroneous = true };
     }
     }
 }
-- 
2.43.0


From 1666f73ece12fa14f9dc531d8a866f94c70c5d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 25/51] fix: html: stay in bounds and keep count when raw text
 contains longer end tag names

---
 src/main/cpp/lang/html.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index 3705701..e0241f7 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -104,8 +104,7 @@ std::size_t match_raw_text(std::u8string_view str, std::u8string_view closing_na
         if (is_html_whitespace(c) || c == u8'>' || c == u8'/') {
             return length;
         }
-        length += 2;
-        str.remove_prefix(2);
+        length = new_length;
     }
     return length;
 }
@@ -153,6 +152,7 @@ match_escapable_raw_text_piece(std::u8string_view str, std::u8string_view closin
         if (is_html_whitespace(c) || c == u8'>' || c == u8'/') {
             return { .raw_length = length, .ref_length = 0 };
         }
+        length = new_length;
     }
     return { .raw_length = length, .ref_length = 0 };
 }
-- 
2.43.0


From 5522ce148c679f11a67e7ef20e1fa3451c8a0c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 26/51] fix: html: include the closing bracket in end tags with
 trailing space

---
 src/main/cpp/lang/html.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index e0241f7..58974a5 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -252,7 +252,7 @@ End_Tag_Result match_end_tag_permissive(const std::u8string_view str)
         return {};
     }
 
-    return { .length = end_pos, .name_length = name_length };
+    return { .length = end_pos + 1, .name_length = name_length };
 }
 
 namespace {
-- 
2.43.0


From 7be3d303cb6611d413407ee8a4846b30565d376d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 27/51] fix: html: do not skip the character after a reference
 in an attribute value

---
 src/main/cpp/lang/html.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index 58974a5..a330c5a 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -454,7 +454,7 @@ private:
             }
         };
 
-        for (; piece_length < remainder.length(); ++piece_length) {
+        while (piece_length < remainder.length()) {
             const char8_t c = remainder[piece_length];
             if (is_html_unquoted_attribute_value_terminator(c)) {
                 flush();
@@ -465,6 +465,9 @@ private:
                 flush();
                 emit_and_advance(ref_length, Highlight_Type::string_escape);
             }
+            else {
+                ++piece_length;
+            }
         }
         flush();
         return true;
@@ -483,7 +486,7 @@ private:
             }
         };
 
-        for (; piece_length < remainder.length(); ++piece_length) {
+        while (piece_length < remainder.length()) {
             const char8_t c = remainder[piece_length];
             if (c == quote_char) {
                 ++piece_length;
@@ -495,6 +498,9 @@ private:
                 flush();
                 emit_and_advance(ref_length, Highlight_Type::string_escape);
             }
+            else {
+                ++piece_length;
+            }
         }
         flush();
         return true;
-- 
2.43.0


From 28f6ed51df94f42141a27a3e6214f6ca08bdc215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:51 +0000
Subject: [PATCH 28/51] fix: compare with the output type before copying bytes
 into buffers

Appending a range of wider integers to a Non_Owning_Buffer wrote past its end.
---
 include/ulight/impl/algorithm/copy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/algorithm/copy.hpp b/include/ulight/impl/algorithm/copy.hpp
index e7badbe..5d27e1b 100644
--- a/include/ulight/impl/algorithm/copy.hpp
+++ b/include/ulight/impl/algorithm/copy.hpp
@@ -23,7 +23,7 @@ template <typename Iter, typename Out>
 constexpr void copy(Iter begin, Iter end, Out dest)
 {
     using Iter_Element = std::iter_value_t<Iter>;
-    using Out_Element = std::iter_value_t<Iter>;
+    using Out_Element = std::iter_value_t<Out>;
 
     constexpr bool can_memmove //
         = std::contiguous_iterator<Iter> //
-- 
2.43.0


From 9f605f4703c017a2245e1ab97645c03de2035eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:51 +0000
Subject: [PATCH 29/51] fix: make Unique_File::close give up the file

A closed or move-assigned-from handle closed the same stream again when it was destroyed.
---
 include/ulight/impl/io.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ulight/impl/io.hpp b/include/ulight/impl/io.hpp
index b0c7792..6208a0b 100644
--- a/include/ulight/impl/io.hpp
+++ b/include/ulight/impl/io.hpp
@@ -71,8 +71,8 @@ public:
 
     void close() noexcept
     {
-        if (m_file) {
-            std::fclose(m_file);
+        if (std::FILE* const file = release()) {
+            std::fclose(file);
         }
     }
 
-- 
2.43.0


From ee1a1300d8f4527a5649f263ddbdbe99ed2f96cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:51 +0000
Subject: [PATCH 30/51] fix: reject paths that leave no room for the null
 terminator

---
 src/main/cpp/io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/io.cpp b/src/main/cpp/io.cpp
index 1101513..92415e8 100644
--- a/src/main/cpp/io.cpp
+++ b/src/main/cpp/io.cpp
@@ -24,7 +24,7 @@ std::expected<void, IO_Error_Code> file_to_bytes_chunked(
     constexpr std::size_t block_size = BUFSIZ;
     char buffer[block_size] {};
 
-    if (path.size() > block_size) {
+    if (path.size() >= block_size) {
         return std::unexpected { IO_Error_Code::cannot_open };
     }
     std::memcpy(buffer, path.data(), path.size());
-- 
2.43.0


From b2c512349b75882a76212e16045d949741ff0bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:51 +0000
Subject: [PATCH 31/51] fix: exit with failure when highlighting or writing the
 output fails

---
 src/main/cpp/main.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/main.cpp b/src/main/cpp/main.cpp
index d022e38..0343249 100644
--- a/src/main/cpp/main.cpp
+++ b/src/main/cpp/main.cpp
@@ -65,9 +65,20 @@ int main(int argc, const char** argv)
     Status status = state.source_to_html();
     if (status != Status::ok) {
         std::cerr << "Error: " << state.get_error_string() << '\n';
+        return EXIT_FAILURE;
+    }
+
+    // Failure to write is sticky, so it is sufficient to check once at the end.
+    bool write_failed = std::fflush(out_file) != 0 || std::ferror(out_file) != 0;
+    if (unique_out) {
+        write_failed |= std::fclose(unique_out.release()) != 0;
+    }
+    if (write_failed) {
+        std::cerr << "Error: failed to write output.\n";
+        return EXIT_FAILURE;
     }
 
-    return 0;
+    return EXIT_SUCCESS;
 }
 
 } // namespace
-- 
2.43.0


From 17da3b38b18372cfe5202e47fdcf1ff29974a55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:31 +0000
Subject: [PATCH 32/51] fix: do not copy from or to null pointers when a file
 is empty

---
 include/ulight/impl/io.hpp | 3 +++
 src/main/cpp/io.cpp        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/ulight/impl/io.hpp b/include/ulight/impl/io.hpp
index 6208a0b..81e68df 100644
--- a/include/ulight/impl/io.hpp
+++ b/include/ulight/impl/io.hpp
@@ -134,6 +134,9 @@ file_to_bytes(std::vector<Byte, Alloc>& out, std::string_view path)
 {
     return file_to_bytes_chunked(
         [&out](std::span<const std::byte> chunk) -> void {
+            if (chunk.empty()) {
+                return;
+            }
             const std::size_t old_size = out.size();
             out.resize(out.size() + chunk.size());
             std::memcpy(out.data() + old_size, chunk.data(), chunk.size());
diff --git a/src/main/cpp/io.cpp b/src/main/cpp/io.cpp
index 92415e8..2ebc63f 100644
--- a/src/main/cpp/io.cpp
+++ b/src/main/cpp/io.cpp
@@ -86,6 +86,9 @@ std::expected<std::vector<char32_t>, IO_Error_Code> load_utf32le_file(std::strin
     // We could make this code more portable in the long run, but I don't care for now.
     static_assert(std::endian::native == std::endian::little);
     std::vector<char32_t> result(bytes.size() / 4);
+    if (bytes.empty()) {
+        return result;
+    }
     std::memcpy(result.data(), bytes.data(), bytes.size());
 
     return result;
-- 
2.43.0


From 80b6ae7e8d6be0a38b5bd307e4b7368e9907957d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:13 +0000
Subject: [PATCH 33/51] fix: json: report block comments with their own text
 and position

---
 src/main/cpp/lang/json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index d2298c4..076b2df 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -525,8 +525,8 @@ private:
                 error(JSON_Error::comment);
                 return false;
             }
-            advance(block_comment.length);
             out.block_comment(pos, remainder.substr(0, block_comment.length));
+            advance(block_comment.length);
             return true;
         }
         ULIGHT_DEBUG_ASSERT_UNREACHABLE(u8"/* should have been tested.");
-- 
2.43.0


From 2bacf56ecf9e84eba66e6e0613cd7c6b395a5666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:13 +0000
Subject: [PATCH 34/51] fix: json: parse numbers from their own characters, in
 any locale

---
 src/main/cpp/lang/json.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index 076b2df..3e6225b 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -1,6 +1,8 @@
 #include <charconv>
+#include <clocale>
 #include <cstddef>
 #include <cstdlib>
+#include <string>
 #include <string_view>
 
 #include "ulight/json.hpp"
@@ -692,13 +694,14 @@ private:
 
         const std::u8string_view number_string = remainder.substr(0, number.length);
         if (options.parse_numbers) {
-            const auto* const str_begin = reinterpret_cast<const char*>(number_string.data());
-            char* str_end = nullptr;
-            const double value = std::strtod(str_begin, &str_end);
-            if (str_end == str_begin) {
-                error(JSON_Error::illegal_number);
-                return false;
-            }
+            // std::strtod needs a null-terminated string,
+            // recognizes more than just JSON numbers (such as "0x10"),
+            // and uses the radix character of the current locale.
+            std::string buffer { as_string_view(number_string) };
+            if (number.fraction != 0) {
+                buffer.replace(number.integer, 1, std::localeconv()->decimal_point);
+            }
+            const double value = std::strtod(buffer.c_str(), nullptr);
             out.number(pos, number_string, value);
         }
         else {
-- 
2.43.0


From 059c5f8ad7a80f63ddb7ce76882dfd556bc8b213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:13 +0000
Subject: [PATCH 35/51] fix: json: report comments that are not allowed as such

---
 src/main/cpp/lang/json.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index 3e6225b..262fc13 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -484,6 +484,10 @@ private:
         if (!options.allow_comments) {
             const std::size_t white_length = match_whitespace(remainder);
             advance(white_length);
+            if (remainder.starts_with(u8"//") || remainder.starts_with(u8"/*")) {
+                error(JSON_Error::comment);
+                return false;
+            }
             return true;
         }
         while (true) {
-- 
2.43.0


From f89045cbdbb32c73e583a4fd3088fc2027ffb8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:13 +0000
Subject: [PATCH 36/51] fix: json: reject characters after the value

---
 src/main/cpp/lang/json.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index 262fc13..c08bf57 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -443,7 +443,14 @@ public:
     [[nodiscard]]
     bool operator()()
     {
-        return consume_whitespace_comments() && consume_value() && consume_whitespace_comments();
+        if (!consume_whitespace_comments() || !consume_value() || !consume_whitespace_comments()) {
+            return false;
+        }
+        if (!remainder.empty()) {
+            error(JSON_Error::illegal_character);
+            return false;
+        }
+        return true;
     }
 
 private:
-- 
2.43.0


From 6bb09393b156b2c600dad8d2ae052fab054405e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:13 +0000
Subject: [PATCH 37/51] fix: json: report exactly one error, with its reason,
 for rejected input

---
 src/main/cpp/lang/json.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index c08bf57..20dd9b3 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -551,6 +551,7 @@ private:
     bool consume_value()
     {
         if (remainder.empty()) {
+            error(JSON_Error::error);
             return false;
         }
         switch (remainder[0]) {
@@ -582,6 +583,7 @@ private:
                 advance_on_same_line(4);
                 return true;
             }
+            error(JSON_Error::illegal_character);
             return false;
         }
         case u8'f': {
@@ -590,6 +592,7 @@ private:
                 advance_on_same_line(5);
                 return true;
             }
+            error(JSON_Error::illegal_character);
             return false;
         }
         case u8'n': {
@@ -598,9 +601,10 @@ private:
                 advance_on_same_line(4);
                 return true;
             }
+            error(JSON_Error::illegal_character);
             return false;
         }
-        default: error(JSON_Error::illegal_escape); return false;
+        default: error(JSON_Error::illegal_character); return false;
         }
     }
 
@@ -743,6 +747,9 @@ private:
                 advance_on_same_line(1);
                 return true;
             }
+            if (remainder.empty()) {
+                break;
+            }
             if (first_member) {
                 if (!consume_member()) {
                     return false;
@@ -768,6 +775,10 @@ private:
     [[nodiscard]]
     bool consume_member()
     {
+        if (!remainder.starts_with(u8'"')) {
+            error(remainder.empty() ? JSON_Error::unterminated_object : JSON_Error::illegal_character);
+            return false;
+        }
         if (!consume_string(String_Type::property)) {
             return false;
         }
@@ -819,6 +830,9 @@ private:
                 advance_on_same_line(1);
                 return true;
             }
+            if (remainder.empty()) {
+                break;
+            }
             if (first_element) {
                 if (!consume_value()) {
                     return false;
@@ -828,7 +842,13 @@ private:
             }
             if (remainder.starts_with(u8',')) {
                 advance_on_same_line(1);
-                if (!consume_whitespace_comments() || !consume_value()) {
+                if (!consume_whitespace_comments()) {
+                    return false;
+                }
+                if (remainder.empty()) {
+                    break;
+                }
+                if (!consume_value()) {
                     return false;
                 }
                 continue;
-- 
2.43.0


From fd952a3078129b26a895fc1cdc86d3412dd5142e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:29 +0000
Subject: [PATCH 38/51] fix: json: do not accept form feeds as whitespace

---
 include/ulight/impl/lang/json.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/json.hpp b/include/ulight/impl/lang/json.hpp
index be33d2f..b63ad1b 100644
--- a/include/ulight/impl/lang/json.hpp
+++ b/include/ulight/impl/lang/json.hpp
@@ -11,7 +11,7 @@
 namespace ulight::json {
 
 // https://www.json.org/json-en.html
-inline constexpr auto is_json_whitespace = Charset256(u8" \t\f\n\r");
+inline constexpr auto is_json_whitespace = Charset256(u8" \t\n\r");
 
 inline constexpr auto is_json_escapable = Charset256(u8"\"\\/bfnrtu");
 
-- 
2.43.0


From 9417eb71aed6499e6097010563054c5b8c5e4fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:09 +0000
Subject: [PATCH 39/51] fix: js: report allocation failure with the requested
 size

---
 www/js/ulight.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/www/js/ulight.js b/www/js/ulight.js
index 7b2ea7d..482cf43 100644
--- a/www/js/ulight.js
+++ b/www/js/ulight.js
@@ -209,7 +209,7 @@ export class UlightWasm {
     _alloc(size, alignment) {
         const result = this._exports.ulight_alloc(size, alignment);
         if (result === 0) {
-            throw new Error(`Allocation failure in WASM with: bytes=${bytes}, align=${alignment}`);
+            throw new Error(`Allocation failure in WASM with: bytes=${size}, align=${alignment}`);
         }
         return result;
     }
-- 
2.43.0


From 4b25efd6e86c882baed733f259d0025fff57aa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:09 +0000
Subject: [PATCH 40/51] fix: js: do not free a name whose allocation failed

---
 www/js/ulight.js | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/www/js/ulight.js b/www/js/ulight.js
index 482cf43..fff23c4 100644
--- a/www/js/ulight.js
+++ b/www/js/ulight.js
@@ -57,9 +57,8 @@ export class UlightWasm {
      * @returns {number} The numeric ID. The special value `0` represents no valid language.
      */
     getLanguageId(name) {
-        let u8string;
+        const u8string = this._allocUtf8(name);
         try {
-            u8string = this._allocUtf8(name);
             return this._exports.ulight_get_lang(u8string.address, u8string.size);
         } finally {
             this._freeUtf8(u8string);
-- 
2.43.0


From 0aaba97f3a32223e5770eb8e856b16f732bd5fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:09 +0000
Subject: [PATCH 41/51] fix: js: decode code points that are split between
 chunks of HTML

---
 www/js/ulight.js | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/www/js/ulight.js b/www/js/ulight.js
index fff23c4..f1e94fd 100644
--- a/www/js/ulight.js
+++ b/www/js/ulight.js
@@ -100,6 +100,7 @@ export class UlightWasm {
         const sourceData = typeof (source) === "string" ? new TextEncoder().encode(source) : source;
 
         this._bufferedText = "";
+        this._textDecoder = new TextDecoder("utf-8", { fatal: true, ignoreBOM: true });
 
         let u8source = 0;
         let tokenBuffer = 0;
@@ -137,7 +138,7 @@ export class UlightWasm {
                 console.error(`ulight_source_to_html failed with status ${result}:`, error);
                 throw result;
             }
-            return this._bufferedText;
+            return this._bufferedText + this._textDecoder.decode();
         } finally {
             if (state) {
                 this._deleteState(state);
@@ -260,8 +261,9 @@ export class UlightWasm {
         }
 
         const flushTextFunction = (_, textAddress, textLength) => {
-            const str = this._loadUtf8(textAddress, textLength);
-            this._bufferedText += str;
+            // Code points may be split between chunks.
+            const utf8Bytes = this._heap8.slice(textAddress, textAddress + textLength);
+            this._bufferedText += this._textDecoder.decode(utf8Bytes, { stream: true });
         };
         const flushTextModule = await fetchBytes('f_i32_i32_i32_to_void.wasm')
             .then(bytes => WebAssembly.compile(bytes));
-- 
2.43.0


From a21bc19214cd09a060fc5ecd62cd98219032f3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:09 +0000
Subject: [PATCH 42/51] fix: js: read the error text from the current view of
 the memory

---
 www/js/ulight.js | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/www/js/ulight.js b/www/js/ulight.js
index f1e94fd..d170e3c 100644
--- a/www/js/ulight.js
+++ b/www/js/ulight.js
@@ -132,8 +132,9 @@ export class UlightWasm {
 
             const result = this._exports.ulight_source_to_html(state);
             if (result != 0) {
-                const errorAddress = heap32[state / 4 + 16];
-                const errorLength = heap32[state / 4 + 17];
+                // Memory may have grown, so the old view cannot be used anymore.
+                const errorAddress = this._heap32[state / 4 + 16];
+                const errorLength = this._heap32[state / 4 + 17];
                 const error = this._loadUtf8(errorAddress, errorLength);
                 console.error(`ulight_source_to_html failed with status ${result}:`, error);
                 throw result;
-- 
2.43.0


From dae4671986c8d6aacaa613d5357c4449801c5d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:24 +0000
Subject: [PATCH 43/51] fix: js: highlight the edited text even if it cannot be
 saved

---
 www/js/live_edit.js | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/www/js/live_edit.js b/www/js/live_edit.js
index 2564c35..4f4d098 100644
--- a/www/js/live_edit.js
+++ b/www/js/live_edit.js
@@ -56,7 +56,12 @@ function setVisibleLineNumbers(e, n) {
 
 function onCodeInput(persist) {
     if (persist) {
-        localStorage.setItem(editorContentsItem, codeInput.value);
+        try {
+            localStorage.setItem(editorContentsItem, codeInput.value);
+        } catch (e) {
+            // Storage being full or unavailable should not prevent highlighting.
+            console.warn('Failed to save editor contents:', e);
+        }
     }
 
     try {
-- 
2.43.0


From bdef44a86ea018ec404a8cdf3cecadcae4514b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:30 +0000
Subject: [PATCH 44/51] fix: a failed assignment left an element in the buffer
 that was never appended

---
 include/ulight/impl/buffer.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/ulight/impl/buffer.hpp b/include/ulight/impl/buffer.hpp
index a392ba6..66615cb 100644
--- a/include/ulight/impl/buffer.hpp
+++ b/include/ulight/impl/buffer.hpp
@@ -105,7 +105,8 @@ public:
         if (full()) {
             flush();
         }
-        return m_buffer[m_size++] = e;
+        m_buffer[m_size] = e;
+        return m_buffer[m_size++];
     }
 
     constexpr value_type& push_back(value_type&& e)
@@ -114,7 +115,8 @@ public:
         if (full()) {
             flush();
         }
-        return m_buffer[m_size++] = std::move(e);
+        m_buffer[m_size] = std::move(e);
+        return m_buffer[m_size++];
     }
 
     template <typename... Args>
@@ -125,7 +127,8 @@ public:
         if (full()) {
             flush();
         }
-        return m_buffer[m_size++] = value_type(std::forward<Args>(args)...);
+        m_buffer[m_size] = value_type(std::forward<Args>(args)...);
+        return m_buffer[m_size++];
     }
 
     template <std::input_iterator Iter, std::sentinel_for<Iter> Sentinel>
-- 
2.43.0


From ae7872a1bbfa7f080ed20b0f1ffd581ad25f1959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:06 +0000
Subject: [PATCH 45/51] fix: a path with a zero byte opened the file named by
 its first part

---
 src/main/cpp/io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/io.cpp b/src/main/cpp/io.cpp
index 2ebc63f..91e7b68 100644
--- a/src/main/cpp/io.cpp
+++ b/src/main/cpp/io.cpp
@@ -24,7 +24,7 @@ std::expected<void, IO_Error_Code> file_to_bytes_chunked(
     constexpr std::size_t block_size = BUFSIZ;
     char buffer[block_size] {};
 
-    if (path.size() >= block_size) {
+    if (path.size() >= block_size || path.contains('\0')) {
         return std::unexpected { IO_Error_Code::cannot_open };
     }
     std::memcpy(buffer, path.data(), path.size());
-- 
2.43.0


From 753f911b3b45a3ec1152c09e8c97fc81c4051f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:00 +0000
Subject: [PATCH 46/51] fix: a theme could not set the colour of "text"

---
 scripts/theme-to-css.cjs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/theme-to-css.cjs b/scripts/theme-to-css.cjs
index 582d050..a5a0d79 100644
--- a/scripts/theme-to-css.cjs
+++ b/scripts/theme-to-css.cjs
@@ -112,7 +112,7 @@ const longNameToShort = {
     "markup-attr-decl": "mk_attr_decl",
     "markup-attr-builtin": "mk_attr_pre",
     "markup-attr-delim": "mk_attr_dlim",
-    "text-emph": "text",
+    "text": "text",
     "text-heading": "text_head",
     "text-link": "text_link",
     "text-mark": "text_mark",
-- 
2.43.0


From 7718c607ec192baa002cad286796b555da7f5998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:00 +0000
Subject: [PATCH 47/51] fix: "name-command-delim" had the short name of
 "name-command"

Two highlight types with one name cannot be told apart in HTML output and by themes.
---
 include/ulight/ulight.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/ulight.hpp b/include/ulight/ulight.hpp
index bc4500f..38f2f8f 100644
--- a/include/ulight/ulight.hpp
+++ b/include/ulight/ulight.hpp
@@ -220,7 +220,7 @@ constexpr Flag operator|(Flag x, Flag y) noexcept
       ULIGHT_HL_NAME_SHELL_COMMAND_DECL)                                                           \
     F(name_shell_command_builtin, "name-command-builtin", "sh_cmd_pre",                            \
       ULIGHT_HL_NAME_SHELL_COMMAND_BUILTIN)                                                        \
-    F(name_shell_command_delim, "name-command-delim", "name_cmd",                                  \
+    F(name_shell_command_delim, "name-command-delim", "name_cmd_dlim",                             \
       ULIGHT_HL_NAME_SHELL_COMMAND_DELIM)                                                          \
                                                                                                    \
     F(name_shell_option, "name-option", "name_opt", ULIGHT_HL_NAME_SHELL_OPTION)                   \
-- 
2.43.0


From e1b587a64b508afa919e598611c479e6c1cd6153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:00 +0000
Subject: [PATCH 48/51] fix: a theme could not set the colour of
 "name-command-delim"

---
 scripts/theme-to-css.cjs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/theme-to-css.cjs b/scripts/theme-to-css.cjs
index a5a0d79..2ffef0d 100644
--- a/scripts/theme-to-css.cjs
+++ b/scripts/theme-to-css.cjs
@@ -74,7 +74,7 @@ const longNameToShort = {
     "name-command": "name_cmd",
     "name-command-decl": "name_cmd_decl",
     "name-command-builtin": "sh_cmd_pre",
-    "name-command": "name_cmd",
+    "name-command-delim": "name_cmd_dlim",
     "name-option": "name_opt",
     "name-option-decl": "name_opt_decl",
     "name-option-builtin": "name_opt_pre",
-- 
2.43.0


From 83e339c81630860eade5aac51aaf5244572e17aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:00 +0000
Subject: [PATCH 49/51] fix: -B, -F and --no-foreground of theme-to-css.cjs had
 no effect

yargs turns --no-X into X: false, but the alias of an option called no-X into
noX: true. The foreground was looked up under a name that no option has.
---
 scripts/theme-to-css.cjs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/theme-to-css.cjs b/scripts/theme-to-css.cjs
index 2ffef0d..58d7dd3 100644
--- a/scripts/theme-to-css.cjs
+++ b/scripts/theme-to-css.cjs
@@ -398,8 +398,8 @@ function main() {
         .argv;
 
     const isThemed = argv.themed ?? false;
-    const noBlockBackground = !(argv.blockBackground ?? true);
-    const noBlockForeground = !(argv.blockForeground ?? true);
+    const noBlockBackground = argv.noBlockBackground ?? !(argv.blockBackground ?? true);
+    const noBlockForeground = argv.noForeground ?? !(argv.foreground ?? true);
     const isCowel = argv.cowel ?? false;
 
     const inputStats = fs.lstatSync(argv.input);
-- 
2.43.0


From 37df4034ad17828faf736b1a2ed90d6092b33e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:00 +0000
Subject: [PATCH 50/51] fix: theme-to-css.cjs took "constructor" and the like
 for highlight types

These keys are found in the prototype of the table, and functions became part
of the selector.
---
 scripts/theme-to-css.cjs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/theme-to-css.cjs b/scripts/theme-to-css.cjs
index 58d7dd3..387a703 100644
--- a/scripts/theme-to-css.cjs
+++ b/scripts/theme-to-css.cjs
@@ -270,7 +270,7 @@ function keyToCssSelector(path, key, themePrefix) {
             : `${themePrefix}.ulight-code-block, ${themePrefix} .ulight-code-block`;
     }
 
-    const shortName = longNameToShort[key];
+    const shortName = Object.hasOwn(longNameToShort, key) ? longNameToShort[key] : undefined;
     if (shortName === undefined) {
         console.error(`${path}: Invalid highlight type "${key}"`);
         process.exit(1);
-- 
2.43.0


From 4b72dd90ce99350c490df505bea3d4fd765b24bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:52 +0000
Subject: [PATCH 51/51] fix: yaml: do not recurse for each entry of nested
 blocks

Mappings with block values and compact sequences also went one level deeper with
each entry, so that long documents overflowed the stack.
---
 src/main/cpp/lang/yaml.cpp | 139 +++++++++++++++++++++----------------
 1 file changed, 81 insertions(+), 58 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 22c5039..202dee1 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -409,7 +409,7 @@ private:
         }
 
         // Parse the document body (a block node at indent -1 conceptually)
-        consume_block_node(0, 0);
+        consume_block_node();
     }
 
     void consume_directives()
@@ -529,27 +529,56 @@ private:
         }
     }
 
-    /// @brief Consume a block node at the given indentation level.
-    /// @param block_indent The indentation level of the parent block collection.
-    /// @param seq_offset Extra indentation offset for nested block sequences
-    ///   (to account for the "- " prefix being perceived as indentation).
-    void consume_block_node(const std::size_t block_indent, const std::size_t seq_offset)
+    /// @brief What remains to be done in a block node once a node within it has ended.
+    enum struct Outer_Block_Type : Underlying { plain, mapping_value, sequence_entry };
+
+    struct Outer_Block {
+        Outer_Block_Type type;
+        std::size_t effective_indent;
+        std::size_t line_indent;
+    };
+
+    enum struct Mapping_Key_Result : Underlying {
+        /// @brief There is no key.
+        none,
+        /// @brief The key and possibly its value were consumed.
+        consumed,
+        /// @brief The key was consumed, and its value is a block node that starts here.
+        block_value_follows,
+    };
+
+    /// @brief Consume the block node of a document.
+    void consume_block_node()
     {
-        // Nodes that are the last thing in the current one are not processed recursively
-        // because each entry of a sequence would then go one level deeper.
-        // Instead, the indentation levels to return to are stored here.
-        std::pmr::vector<std::size_t> outer_indents(memory);
-        std::size_t effective_indent = block_indent - seq_offset;
-        const auto enter = [&](const std::size_t indent) {
-            outer_indents.push_back(effective_indent);
-            effective_indent = indent;
+        // Nodes within the current one are not processed recursively
+        // because each entry of a sequence or mapping may go one level deeper.
+        // Instead, what to return to is stored here.
+        std::pmr::vector<Outer_Block> outer_blocks(memory);
+        std::size_t effective_indent = 0;
+        const auto enter
+            = [&](const std::size_t indent, const Outer_Block_Type type, const std::size_t line_indent) {
+                  outer_blocks.push_back({ type, effective_indent, line_indent });
+                  effective_indent = indent;
+              };
+        const auto end_sequence_entry = [&](const std::size_t line_indent) {
+            if (!remainder.empty() && match_line_break(remainder)) {
+                skip_line();
+            }
+            indent_stack.push(line_indent);
+            enter(line_indent, Outer_Block_Type::plain, line_indent);
         };
         const auto leave = [&] {
-            if (outer_indents.empty()) {
+            if (outer_blocks.empty()) {
                 return false;
             }
-            effective_indent = outer_indents.back();
-            outer_indents.pop_back();
+            const Outer_Block outer = outer_blocks.back();
+            outer_blocks.pop_back();
+            effective_indent = outer.effective_indent;
+            switch (outer.type) {
+            case Outer_Block_Type::plain: break;
+            case Outer_Block_Type::mapping_value: indent_stack.push(outer.line_indent); break;
+            case Outer_Block_Type::sequence_entry: end_sequence_entry(outer.line_indent); break;
+            }
             return true;
         };
 
@@ -565,7 +594,10 @@ private:
             // Document markers at indent 0 stop block parsing.
             if (line_indent == 0
                 && (remainder.starts_with(u8"---") || remainder.starts_with(u8"..."))) {
-                return;
+                if (!leave()) {
+                    return;
+                }
+                continue;
             }
 
             // Check for de-dent.
@@ -601,11 +633,11 @@ private:
                     consume_whitespace_and_comments();
                     if (!remainder.empty() && !match_line_break(remainder)
                         && remainder[0] != u8'#') {
-                        enter(line_indent);
+                        enter(line_indent, Outer_Block_Type::plain, line_indent);
                     }
                     else {
                         skip_line();
-                        enter(line_indent);
+                        enter(line_indent, Outer_Block_Type::plain, line_indent);
                     }
                 }
                 continue;
@@ -620,13 +652,23 @@ private:
                 consume_whitespace_and_comments();
 
                 if (!remainder.empty() && !match_line_break(remainder) && remainder[0] != u8'#') {
-                    try_consume_compact_sequence_or_mapping(line_indent + 1);
-                }
-                if (!remainder.empty() && match_line_break(remainder)) {
-                    skip_line();
+                    // Compact sequence: another "- " on the same line
+                    if (remainder.starts_with(u8"- ")) {
+                        enter(line_indent, Outer_Block_Type::sequence_entry, line_indent);
+                        continue;
+                    }
+                    // Compact mapping: "key: value" on the same line
+                    const Mapping_Key_Result key = try_consume_block_mapping_key(line_indent + 1);
+                    if (key == Mapping_Key_Result::block_value_follows) {
+                        enter(line_indent + 1, Outer_Block_Type::sequence_entry, line_indent);
+                        continue;
+                    }
+                    // Otherwise, just a flow node
+                    if (key == Mapping_Key_Result::none) {
+                        consume_flow_node(line_indent + 1);
+                    }
                 }
-                indent_stack.push(line_indent);
-                enter(line_indent);
+                end_sequence_entry(line_indent);
                 continue;
             }
 
@@ -641,7 +683,12 @@ private:
             }
 
             // Handle block mapping entry: key: value
-            if (try_consume_block_mapping_key(line_indent)) {
+            const Mapping_Key_Result key = try_consume_block_mapping_key(line_indent);
+            if (key == Mapping_Key_Result::block_value_follows) {
+                enter(line_indent, Outer_Block_Type::mapping_value, line_indent);
+                continue;
+            }
+            if (key == Mapping_Key_Result::consumed) {
                 indent_stack.push(line_indent);
                 continue;
             }
@@ -660,9 +707,8 @@ private:
     }
 
     /// @brief Try to consume a block mapping key at the given indentation.
-    /// Returns `true` if a key/value pair was consumed.
     [[nodiscard]]
-    bool try_consume_block_mapping_key(const std::size_t line_indent)
+    Mapping_Key_Result try_consume_block_mapping_key(const std::size_t line_indent)
     {
         // Look for "key: value" pattern on the current line.
         // We need to find the ': ' separator.
@@ -724,10 +770,10 @@ private:
                                 && remainder[0] != u8'\n') {
                                 const std::size_t next_indent = current_indent();
                                 if (next_indent > line_indent) {
-                                    consume_block_node(line_indent, 0);
+                                    return Mapping_Key_Result::block_value_follows;
                                 }
                             }
-                            return true;
+                            return Mapping_Key_Result::consumed;
                         }
 
                         // Value
@@ -741,7 +787,7 @@ private:
                         // Block scalars are self-contained and consume their own content lines;
                         // do not skip_line() or descend into block_node for them.
                         if (is_block_scalar) {
-                            return true;
+                            return Mapping_Key_Result::consumed;
                         }
                         skip_line();
 
@@ -750,41 +796,18 @@ private:
                         if (!remainder.empty() && !match_line_break(remainder)) {
                             const std::size_t next_indent = current_indent();
                             if (next_indent > line_indent) {
-                                consume_block_node(line_indent, 0);
+                                return Mapping_Key_Result::block_value_follows;
                             }
                         }
 
-                        return true;
+                        return Mapping_Key_Result::consumed;
                     }
                 }
             }
             ++colon_pos;
         }
 
-        return false;
-    }
-
-    /// @brief Try to consume a compact block sequence or mapping
-    /// starting on the same line as a block entry indicator.
-    void try_consume_compact_sequence_or_mapping(const std::size_t indent)
-    {
-        if (remainder.empty()) {
-            return;
-        }
-
-        // Compact sequence: another "- " on the same line
-        if (remainder.starts_with(u8"- ")) {
-            consume_block_node(indent, 1);
-            return;
-        }
-
-        // Compact mapping: "key: value" on the same line
-        if (try_consume_block_mapping_key(indent)) {
-            return;
-        }
-
-        // Otherwise, just a flow node
-        consume_flow_node(indent);
+        return Mapping_Key_Result::none;
     }
 
     /// @brief Consume a flow-level node (inline value on a single logical line).
-- 
2.43.0

