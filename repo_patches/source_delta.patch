From 238c122b075976e0ff12e813c40051692e46f668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:57 +0000
Subject: [PATCH 01/74] fix: detect uint64 wrap-around when scanning integers
 with the maximum number of digits

A 20-digit value in [2^64 + 10^19, ...) wrapped around to a value that
passed the overflow check, e.g. 28446744073709551616. The same check also
counted leading zeroes in scan_int_exhaustive_valid.
---
 src/scn/impl.cpp | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index f97c748..e4c5577 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1051,6 +1051,7 @@ SCN_FORCE_INLINE constexpr size_t min_safe_u64(int base)
 template <typename T>
 constexpr bool check_integer_overflow(uint64_t val,
                                       size_t digits_count,
+                                      int leading_digit,
                                       int base,
                                       bool is_negative)
 {
@@ -1058,8 +1059,16 @@ constexpr bool check_integer_overflow(uint64_t val,
     if (digits_count > max_digits) {
         return true;
     }
-    if (digits_count == max_digits && val < min_safe_u64(base)) {
-        return true;
+    if (digits_count == max_digits) {
+        // The actual value is in the range
+        // [leading_digit * min_safe, (leading_digit + 1) * min_safe):
+        // if `val` is below that, it has wrapped around
+        const uint64_t min_safe = min_safe_u64(base);
+        const auto leading = static_cast<uint64_t>(leading_digit);
+        if (leading > std::numeric_limits<uint64_t>::max() / min_safe ||
+            val < leading * min_safe) {
+            return true;
+        }
     }
     if constexpr (!std::is_same_v<T, uint64_t>) {
         if (val > static_cast<uint64_t>(std::numeric_limits<T>::max()) +
@@ -1098,7 +1107,9 @@ auto parse_decimal_integer_fast(std::string_view input,
 
     auto digits_count = static_cast<size_t>(ptr - input.data());
     if (SCN_UNLIKELY(
-            check_integer_overflow<T>(u64val, digits_count, 10, is_negative))) {
+            check_integer_overflow<T>(u64val, digits_count,
+                                      char_to_int(input.front()), 10,
+                                      is_negative))) {
         return detail::unexpected_scan_error(
             is_negative ? scan_error::value_negative_overflow
                         : scan_error::value_positive_overflow,
@@ -1130,7 +1141,8 @@ auto parse_regular_integer(std::basic_string_view<CharT> input,
     }
 
     auto digits_count = static_cast<size_t>(begin - input.data());
-    if (SCN_UNLIKELY(check_integer_overflow<T>(u64val, digits_count, base,
+    if (SCN_UNLIKELY(check_integer_overflow<T>(u64val, digits_count,
+                                               char_to_int(input.front()), base,
                                                is_negative))) {
         return detail::unexpected_scan_error(
             is_negative ? scan_error::value_negative_overflow
@@ -1230,10 +1242,14 @@ void parse_integer_value_exhaustive_valid(std::string_view source, T& value)
     SCN_EXPECT(p == end);
 
     {
-        auto digits_count = static_cast<size_t>(p - source.data());
+        // Leading zeroes don't count towards the maximum number of digits
+        const auto first_digit =
+            std::min(source.find_first_not_of('0'), source.size() - 1);
+        auto digits_count = source.size() - first_digit;
         SCN_UNUSED(digits_count);
-        SCN_EXPECT(check_integer_overflow<T>(u64val, digits_count, 10,
-                                             negative_sign) == false);
+        SCN_EXPECT(check_integer_overflow<T>(
+                       u64val, digits_count, char_to_int(source[first_digit]),
+                       10, negative_sign) == false);
     }
 
     value = store_result<T>(u64val, negative_sign);
-- 
2.43.0


From 033dc87fe46e5218da8403f68aa9e0727ee5e35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:57 +0000
Subject: [PATCH 02/74] fix: accept the documented 'O' type specifier

---
 include/scn/scan.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 255f789..7334de5 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -6832,7 +6832,7 @@ enum class presentation_type {
     int_decimal,           // 'd'
     int_generic,           // 'i'
     int_unsigned_decimal,  // 'u'
-    int_octal,             // 'o'
+    int_octal,             // 'o', 'O'
     int_hex,               // 'x', 'X'
     int_arbitrary_base,    // 'rnn', 'Rnn' (R for radix)
     float_hex,             // 'a', 'A'
@@ -7214,6 +7214,7 @@ constexpr presentation_type parse_presentation_type(CharT type)
         case 'u':
             return presentation_type::int_unsigned_decimal;
         case 'o':
+        case 'O':
             return presentation_type::int_octal;
         case 'x':
         case 'X':
-- 
2.43.0


From 62f301d9a1c7447b99ac72f22323553103fe335a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:57 +0000
Subject: [PATCH 03/74] fix: store the value read when scanning a char or
 wchar_t with an integer specifier

---
 src/scn/impl.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 676a9e5..ac3e696 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -5707,7 +5707,9 @@ public:
         reader_impl_for_int<CharT> reader{};
         signed char tmp_value{};
         auto ret = reader.read_specs(range, specs, tmp_value, loc);
-        value = static_cast<signed char>(value);
+        if (SCN_LIKELY(ret)) {
+            value = static_cast<char>(tmp_value);
+        }
         return ret;
     }
 };
@@ -5745,7 +5747,9 @@ public:
             std::conditional_t<sizeof(wchar_t) == 2, int16_t, int32_t>;
         integer_type tmp_value{};
         auto ret = reader.read_specs(range, specs, tmp_value, loc);
-        value = static_cast<integer_type>(value);
+        if (SCN_LIKELY(ret)) {
+            value = static_cast<wchar_t>(tmp_value);
+        }
         return ret;
     }
 };
-- 
2.43.0


From 6d3d0e604d87358250af0dc267b1208f480bb31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:08 +0000
Subject: [PATCH 04/74] fix: accept the documented 'c' type specifier for
 character types

---
 include/scn/scan.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 7334de5..732b9e0 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -7921,8 +7921,8 @@ template <typename Handler>
 constexpr void check_char_type_specs(const format_specs& specs,
                                      Handler&& handler)
 {
-    if (specs.type > presentation_type::int_hex ||
-        specs.type == presentation_type::int_arbitrary_base) {
+    if (specs.type > presentation_type::int_hex &&
+        specs.type != presentation_type::character) {
         SCN_UNLIKELY_ATTR
         return handler.on_error("Invalid type specifier for character type");
     }
-- 
2.43.0


From 5f77fc5e4b1ebb4092d220847db9e9c63e808f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:32 +0000
Subject: [PATCH 05/74] fix: skip and find multi-byte white space that
 straddles source segments

---
 src/scn/impl.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index ac3e696..2a8eef2 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -2181,6 +2181,20 @@ auto read_while_code_point(Range range, function_ref<bool(char32_t)> pred)
     return read_until_code_point(range, std::not_fn(pred));
 }
 
+// A segment of a non-contiguous source can end in the middle of a code point.
+// Leave such an incomplete code point out.
+inline std::string_view without_incomplete_code_point(std::string_view segment)
+{
+    for (std::size_t n = 1; n <= 3 && n <= segment.size(); ++n) {
+        const auto len = detail::code_point_length_by_starting_code_unit(
+            segment[segment.size() - n]);
+        if (len != 0) {
+            return len > n ? segment.substr(0, segment.size() - n) : segment;
+        }
+    }
+    return segment;
+}
+
 template <typename Range>
 auto read_until_classic_space(Range range) -> ranges::const_iterator_t<Range>
 {
@@ -2196,7 +2210,8 @@ auto read_until_classic_space(Range range) -> ranges::const_iterator_t<Range>
         auto it = range.begin();
 
         if constexpr (std::is_same_v<detail::char_t<Range>, char>) {
-            auto seg = get_contiguous_beginning(range);
+            auto seg =
+                without_incomplete_code_point(get_contiguous_beginning(range));
             if (auto seg_it = find_classic_space_narrow_fast(seg);
                 seg_it != seg.end()) {
                 return ranges::next(it, ranges::distance(seg.begin(), seg_it));
@@ -2225,7 +2240,8 @@ auto read_while_classic_space(Range range) -> ranges::const_iterator_t<Range>
         auto it = range.begin();
 
         if constexpr (std::is_same_v<detail::char_t<Range>, char>) {
-            auto seg = get_contiguous_beginning(range);
+            auto seg =
+                without_incomplete_code_point(get_contiguous_beginning(range));
             if (auto seg_it = find_classic_nonspace_narrow_fast(seg);
                 seg_it != seg.end()) {
                 return ranges::next(it, ranges::distance(seg.begin(), seg_it));
-- 
2.43.0


From 1dc7a437948e55320c212015b455d9cd035d24fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:25 +0000
Subject: [PATCH 06/74] fix: track visited arguments correctly with 64 or more
 arguments

---
 src/scn/impl.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index e4c5577..4bc1b18 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1425,8 +1425,8 @@ private:
 struct format_handler_base {
     format_handler_base(size_t argcount) : args_count(argcount)
     {
-        if (SCN_UNLIKELY(args_count >= 64)) {
-            visited_args_upper.resize((args_count - 64) / 8);
+        if (SCN_UNLIKELY(args_count > 64)) {
+            visited_args_upper.resize((args_count - 64 + 7) / 8);
         }
     }
 
@@ -1444,7 +1444,7 @@ struct format_handler_base {
             }
         }
 
-        if (args_count < 64) {
+        if (args_count <= 64) {
             return;
         }
 
@@ -1458,7 +1458,7 @@ struct format_handler_base {
             last_args_count -= 8;
         }
 
-        const auto mask = static_cast<uint8_t>(1u << last_args_count) - 1;
+        const auto mask = static_cast<uint8_t>((1u << last_args_count) - 1);
         if (visited_args_upper.back() != mask) {
             return on_error({scan_error::invalid_format_string,
                              "Argument list not exhausted"});
-- 
2.43.0


From 1c5f29169b2ef0917ec329169e141875d35b83ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:25 +0000
Subject: [PATCH 07/74] fix: reject ill-formed Unicode when decoding code
 points

---
 include/scn/scan.h | 15 ++++++++++++++-
 src/scn/impl.h     |  7 ++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 732b9e0..1dd2134 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -4111,6 +4111,10 @@ inline constexpr char32_t decode_utf8_code_point_exhaustive(
         char32_t cp{};
         cp |= (static_cast<char32_t>(input[0]) & 0x1f) << 6;
         cp |= (static_cast<char32_t>(input[1]) & 0x3f) << 0;
+        if (SCN_UNLIKELY(cp < 0x80)) {
+            // overlong encoding
+            return invalid_code_point;
+        }
         return cp;
     }
 
@@ -4129,6 +4133,10 @@ inline constexpr char32_t decode_utf8_code_point_exhaustive(
         cp |= (static_cast<char32_t>(input[0]) & 0x0f) << 12;
         cp |= (static_cast<char32_t>(input[1]) & 0x3f) << 6;
         cp |= (static_cast<char32_t>(input[2]) & 0x3f) << 0;
+        if (SCN_UNLIKELY(cp < 0x800 || (cp >= 0xd800 && cp <= 0xdfff))) {
+            // overlong encoding, or a surrogate
+            return invalid_code_point;
+        }
         return cp;
     }
 
@@ -4153,6 +4161,10 @@ inline constexpr char32_t decode_utf8_code_point_exhaustive(
         cp |= (static_cast<char32_t>(input[1]) & 0x3f) << 12;
         cp |= (static_cast<char32_t>(input[2]) & 0x3f) << 6;
         cp |= (static_cast<char32_t>(input[3]) & 0x3f) << 0;
+        if (SCN_UNLIKELY(cp < 0x10000 || cp >= invalid_code_point)) {
+            // overlong encoding, or out of range
+            return invalid_code_point;
+        }
         return cp;
     }
 
@@ -4280,7 +4292,8 @@ inline constexpr char32_t decode_code_point_exhaustive(
     else {
         SCN_EXPECT(input.size() == 1);
         auto cp = static_cast<char32_t>(input.front());
-        if (SCN_UNLIKELY(cp >= invalid_code_point)) {
+        if (SCN_UNLIKELY(cp >= invalid_code_point ||
+                         (cp >= 0xd800 && cp <= 0xdfff))) {
             return invalid_code_point;
         }
         return cp;
diff --git a/src/scn/impl.h b/src/scn/impl.h
index 2a8eef2..cd5a2a5 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -5636,9 +5636,14 @@ public:
             return detail::unexpected_scan_error(
                 scan_error::invalid_scanned_value, "Invalid code point");
         }
-        cp = detail::decode_code_point_exhaustive_valid(
+        const auto decoded_cp = detail::decode_code_point_exhaustive(
             std::basic_string_view<detail::char_t<SourceRange>>{
                 result.codepoint});
+        if (SCN_UNLIKELY(decoded_cp >= detail::invalid_code_point)) {
+            return detail::unexpected_scan_error(
+                scan_error::invalid_scanned_value, "Invalid code point");
+        }
+        cp = decoded_cp;
         return result.iterator;
     }
 };
-- 
2.43.0


From 02c23019c0d019fa5d38ad53532e79c8149c1e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:48 +0000
Subject: [PATCH 08/74] fix: store the size of non-ASCII wide fill characters

---
 include/scn/scan.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 1dd2134..e02a80f 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -6929,6 +6929,7 @@ public:
             m_data[0] = static_cast<char>(static_cast<unsigned>(s.front()));
             m_data[1] =
                 static_cast<char>(static_cast<unsigned>(s.front()) >> 8);
+            m_size = static_cast<unsigned char>(s.size() * sizeof(CharT));
             if (s.size() == 1) {
                 return;
             }
@@ -6941,6 +6942,7 @@ public:
             m_data[1] = static_cast<char>(front >> 8);
             m_data[2] = static_cast<char>(front >> 16);
             m_data[3] = static_cast<char>(front >> 24);
+            m_size = static_cast<unsigned char>(sizeof(CharT));
         }
     }
 
@@ -6961,7 +6963,8 @@ public:
     template <typename CharT>
     std::basic_string_view<CharT> get_code_units() const
     {
-        return {reinterpret_cast<const CharT*>(m_data), m_size};
+        return {reinterpret_cast<const CharT*>(m_data),
+                m_size / sizeof(CharT)};
     }
 
 private:
-- 
2.43.0


From a53c6e58636216cbaa9aa1e6901e00ada250389e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:55 +0000
Subject: [PATCH 09/74] fix: read hexadecimal floats alike on contiguous and
 segmented sources

---
 src/scn/impl.cpp |  2 +-
 src/scn/impl.h   | 27 +++++++++++++++------------
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 4bc1b18..adc6bc3 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -854,7 +854,7 @@ scan_expected<std::ptrdiff_t> dispatch_impl(
                 "Invalid floating-point digit");
         }
     }
-    if (SCN_UNLIKELY(char_to_int(data.input.view().front()) >= 10)) {
+    else if (SCN_UNLIKELY(char_to_int(data.input.view().front()) >= 10)) {
         return detail::unexpected_scan_error(scan_error::invalid_scanned_value,
                                              "Invalid floating-point digit");
     }
diff --git a/src/scn/impl.h b/src/scn/impl.h
index cd5a2a5..49902fe 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -3951,13 +3951,7 @@ private:
         auto it = range.begin();
 
         std::ptrdiff_t digits_count = 0;
-        if (auto r = read_hex_digits(ranges::subrange{it, range.end()}, true);
-            SCN_UNLIKELY(!r)) {
-            return r.transform_error(map_parse_error_to_scan_error(
-                scan_error::invalid_scanned_value,
-                "Invalid hexadecimal floating-point value"));
-        }
-        else {
+        if (auto r = read_hex_digits(ranges::subrange{it, range.end()}, true)) {
             digits_count += ranges::distance(it, *r);
             it = *r;
         }
@@ -4074,12 +4068,18 @@ private:
 
             if (auto r = read_hex_prefix(range)) {
                 m_kind = float_kind::hex_with_prefix;
-                it = *r;
-            }
-            else {
-                m_kind = float_kind::hex_without_prefix;
+                if (auto hex = read_hex(ranges::subrange{*r, range.end()})) {
+                    return *hex;
+                }
+                // No digits after the prefix: only the "0" is a value
             }
 
+            m_kind = float_kind::hex_without_prefix;
+            if (SCN_UNLIKELY(it == range.end() || char_to_int(*it) >= 16)) {
+                return detail::unexpected_scan_error(
+                    scan_error::invalid_scanned_value,
+                    "Invalid hexadecimal floating-point value");
+            }
             return read_hex(ranges::subrange{it, range.end()});
         }
         if (!allowed_hex && allowed_nonhex) {
@@ -4094,7 +4094,10 @@ private:
 
         if (auto r = read_hex_prefix(range); SCN_UNLIKELY(r)) {
             m_kind = float_kind::hex_with_prefix;
-            return read_hex(ranges::subrange{*r, range.end()});
+            if (auto hex = read_hex(ranges::subrange{*r, range.end()})) {
+                return *hex;
+            }
+            // No digits after the prefix: only the "0" is a value
         }
 
         m_kind = float_kind::generic;
-- 
2.43.0


From 26fa9d23776e5951c9a624917877f53986044475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:09 +0000
Subject: [PATCH 10/74] fix: match multi-byte literals and let trailing white
 space in the format match nothing

---
 src/scn/impl.cpp | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index adc6bc3..0c3d82e 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1613,41 +1613,41 @@ struct format_handler : format_handler_base {
 
     void on_literal_text(const char_type* begin, const char_type* end)
     {
-        for (; begin != end; ++begin) {
-            auto it = get_ctx().begin();
-            if (impl::is_range_eof(it, get_ctx().end())) {
-                SCN_UNLIKELY_ATTR
-                return on_error(
-                    {scan_error::invalid_literal, "Unexpected end of source"});
-            }
-
-            if (auto [after_space_it, cp, is_space] = impl::is_first_char_space(
-                    detail::make_string_view_from_pointers(begin, end));
-                cp == detail::invalid_code_point) {
-                SCN_UNLIKELY_ATTR
+        while (begin != end) {
+            const auto [after_cp_it, cp, is_space] = impl::is_first_char_space(
+                detail::make_string_view_from_pointers(begin, end));
+            if (SCN_UNLIKELY(cp == detail::invalid_code_point)) {
                 return on_error({scan_error::invalid_format_string,
                                  "Invalid encoding in format string"});
             }
-            else if (is_space) {
+            const auto after_cp = detail::to_address(after_cp_it);
+
+            if (is_space) {
                 // Skip all whitespace in input
                 get_ctx().advance_to(
                     impl::read_while_classic_space(get_ctx().range()));
                 // And, skip all whitespace in the format string
                 auto begin_it = impl::read_while_classic_space(
                     detail::make_string_view_from_pointers(
-                        detail::to_address(after_space_it),
-                        detail::to_address(end)));
-                // (-1 because of the for loop ++begin)
-                begin = detail::to_address(begin_it) - 1;
+                        after_cp, detail::to_address(end)));
+                begin = detail::to_address(begin_it);
                 continue;
             }
 
-            if (*it != *begin) {
-                SCN_UNLIKELY_ATTR
-                return on_error({scan_error::invalid_literal,
-                                 "Unexpected literal character in source"});
+            for (; begin != after_cp; ++begin) {
+                auto it = get_ctx().begin();
+                if (impl::is_range_eof(it, get_ctx().end())) {
+                    SCN_UNLIKELY_ATTR
+                    return on_error({scan_error::invalid_literal,
+                                     "Unexpected end of source"});
+                }
+                if (*it != *begin) {
+                    SCN_UNLIKELY_ATTR
+                    return on_error({scan_error::invalid_literal,
+                                     "Unexpected literal character in source"});
+                }
+                get_ctx().advance_to(ranges::next(it));
             }
-            get_ctx().advance_to(ranges::next(it));
         }
     }
 
-- 
2.43.0


From d08d10ad7c6fb307576961b70a0c543f96151a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:54 +0000
Subject: [PATCH 11/74] fix: include the ASCII part of character set ranges
 that extend past U+007E

---
 include/scn/scan.h | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index e02a80f..728f511 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -7093,16 +7093,11 @@ public:
         const auto end_value = static_cast<unsigned>(end);
         SCN_EXPECT(begin_value < end_value);
 
-        if (SCN_LIKELY(end_value <= 127)) {
-            // No need to bit-twiddle with a mask, because with the
-            // SCN_ASSUME, -O3 will optimize this to a single operation
-            SCN_ASSUME(begin_value < end_value);
-            for (auto v = begin_value; v != end_value; ++v) {
-                m_specs.charset_literals[v / 8] |=
-                    static_cast<unsigned char>(1ul << (v % 8));
-            }
+        for (auto v = begin_value; v < end_value && v <= 127; ++v) {
+            m_specs.charset_literals[v / 8] |=
+                static_cast<unsigned char>(1ul << (v % 8));
         }
-        else {
+        if (end_value > 128) {
             m_specs.charset_has_nonascii = true;
         }
     }
-- 
2.43.0


From 6d24fde461fc0a2f86aa3dd23f19101fcac240eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:03 +0000
Subject: [PATCH 12/74] fix: report end of input when a {:c} string field has
 nothing to read

---
 src/scn/impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 49902fe..aa0b3ec 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -5031,6 +5031,9 @@ private:
                           detail::priority_tag<1>)
         -> scan_expected<ranges::const_iterator_t<take_width_view<View>&>>
     {
+        if (auto e = eof_check(range); SCN_UNLIKELY(!e)) {
+            return unexpected(make_eof_scan_error(e));
+        }
         return read_cb(range);
     }
 
-- 
2.43.0


From f18d28957a636c513a02b153bf3adb7b8d5f9f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:38 +0000
Subject: [PATCH 13/74] fix: do not advance a FILE that has no read buffer yet
 when syncing

---
 src/scn/impl.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index aa0b3ec..a176327 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -1205,8 +1205,12 @@ bool basic_scan_file_buffer<FileInterface>::sync(std::ptrdiff_t position)
             return true;
         }
 
-        m_file.unsafe_advance_n(position - static_cast<std::ptrdiff_t>(
-                                               this->putback_buffer().size()));
+        const auto n = position - static_cast<std::ptrdiff_t>(
+                                      this->putback_buffer().size());
+        // The buffer may not exist yet, if nothing has been read
+        if (n != 0) {
+            m_file.unsafe_advance_n(n);
+        }
         return true;
     }
 
-- 
2.43.0


From 1f63888065b6e4dc13dc2d8c5db363cac8731972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:40 +0000
Subject: [PATCH 14/74] fix: report end of input when a code point field has
 nothing left to read

---
 src/scn/impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index a176327..e7704c2 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -5641,6 +5641,9 @@ public:
     auto read(const SourceRange& range, char32_t& cp)
         -> scan_expected<ranges::const_iterator_t<SourceRange>>
     {
+        if (auto e = eof_check(range); SCN_UNLIKELY(!e)) {
+            return unexpected(make_eof_scan_error(e));
+        }
         auto result = read_code_point_into(range);
         if (SCN_UNLIKELY(!result.is_valid())) {
             return detail::unexpected_scan_error(
-- 
2.43.0


From fdf2d2c86ee12cfaa4b76d6e01fab7305261f22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:46 +0000
Subject: [PATCH 15/74] fix: report the error that stopped the scan instead of
 unread arguments

---
 include/scn/scan.h | 3 +++
 src/scn/impl.cpp   | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 728f511..85f8576 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -7806,6 +7806,9 @@ constexpr scan_expected<void> parse_format_string(
     Handler&& handler)
 {
     parse_format_string_impl<IsConstexpr>(format, handler);
+    if (auto err = handler.get_error(); SCN_UNLIKELY(!err)) {
+        return err;
+    }
     handler.check_args_exhausted();
     return handler.get_error();
 }
diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 0c3d82e..87d1e41 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1717,7 +1717,8 @@ struct format_handler : format_handler_base {
                       "Missing '}' in format string"});
             return parse_ctx.begin();
         }
-        if (SCN_UNLIKELY(!handler.get_error())) {
+        if (auto err = handler.get_error(); SCN_UNLIKELY(!err)) {
+            on_error(err.error());
             return parse_ctx.begin();
         }
         parse_ctx.advance_to(begin);
-- 
2.43.0


From da4a86558ab822f1e05a7d7fc1ad7803589a92f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:46 +0000
Subject: [PATCH 16/74] fix: reject mixing manual and automatic argument
 indexing at run time

---
 src/scn/impl.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 87d1e41..3baed06 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1651,16 +1651,26 @@ struct format_handler : format_handler_base {
         }
     }
 
-    constexpr std::size_t on_arg_id()
+    std::size_t on_arg_id()
     {
-        return parse_ctx.next_arg_id();
+        const auto id = parse_ctx.next_arg_id();
+        check_parse_ctx();
+        return id;
     }
-    constexpr std::size_t on_arg_id(std::size_t id)
+    std::size_t on_arg_id(std::size_t id)
     {
         parse_ctx.check_arg_id(id);
+        check_parse_ctx();
         return id;
     }
 
+    void check_parse_ctx()
+    {
+        if (auto err = parse_ctx.get_error(); SCN_UNLIKELY(!err)) {
+            on_error(err.error());
+        }
+    }
+
     template <typename Visitor>
     void on_visit_scan_arg(Visitor&& visitor, arg_type arg)
     {
-- 
2.43.0


From e02e753565f37c0454519b99b58f66dd59b0e805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:59 +0000
Subject: [PATCH 17/74] fix: do not cut values short at the end of a source
 segment

---
 src/scn/impl.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index e7704c2..d78cbcd 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -996,11 +996,8 @@ bool is_segment_contiguous(Range r)
                    ranges::end(r).contiguous_segment().end();
         }
         else {
-            if (beg.stores_parent()) {
-                return beg.contiguous_segment().end() ==
-                       beg.parent()->current_view().end();
-            }
-            return true;
+            // If a parent is stored, more segments may follow the current one
+            return !beg.stores_parent();
         }
     }
     else {
-- 
2.43.0


From 159e41ad13fe8f41048b0828294c590a19eae47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:32 +0000
Subject: [PATCH 18/74] fix: do not take the end of a replacement field for a
 fill character

---
 include/scn/scan.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 85f8576..7ff409d 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -7334,7 +7334,7 @@ constexpr const CharT* parse_align(const CharT* begin,
             handler.on_error("Invalid fill character '{' in format string");
             return begin;
         }
-        if (potential_fill[0] == '[') {
+        if (potential_fill[0] == '[' || potential_fill[0] == '}') {
             return begin_before_fill;
         }
     }
-- 
2.43.0


From 28d9101a011fe228798a09053c8f6164ea194bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:50 +0000
Subject: [PATCH 19/74] fix: do not treat ill-formed text as matching in
 read_while_code_point

---
 src/scn/impl.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index d78cbcd..e6dbd41 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -2179,7 +2179,23 @@ template <typename Range>
 auto read_while_code_point(Range range, function_ref<bool(char32_t)> pred)
     -> ranges::const_iterator_t<Range>
 {
-    return read_until_code_point(range, std::not_fn(pred));
+    // Ill-formed text never satisfies the predicate
+    auto it = range.begin();
+    while (it != range.end()) {
+        const auto val =
+            read_code_point_into(ranges::subrange{it, range.end()});
+        if (SCN_UNLIKELY(!val.is_valid())) {
+            return it;
+        }
+        const auto cp = detail::decode_code_point_exhaustive(
+            std::basic_string_view<detail::char_t<Range>>{val.codepoint});
+        if (!pred(cp)) {
+            return it;
+        }
+        it = val.iterator;
+    }
+
+    return it;
 }
 
 // A segment of a non-contiguous source can end in the middle of a code point.
-- 
2.43.0


From 1d169a04b9f71713ea8cedb7c5c3026e0b3ff14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:05 +0000
Subject: [PATCH 20/74] fix: reject specifiers invalid for regex_matches
 without failing an assertion

---
 include/scn/scan.h | 2 ++
 src/scn/impl.h     | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 7ff409d..10dd926 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -7863,6 +7863,8 @@ constexpr arg_type_category get_category_for_arg_type(arg_type type)
         case arg_type::narrow_string_type:
         case arg_type::wide_string_view_type:
         case arg_type::wide_string_type:
+        case arg_type::narrow_regex_matches_type:
+        case arg_type::wide_regex_matches_type:
             return arg_type_category::string;
 
         case arg_type::custom_type:
diff --git a/src/scn/impl.h b/src/scn/impl.h
index e6dbd41..9faf68b 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -4740,8 +4740,8 @@ struct regex_matches_reader
                           reader_error_handler& eh)
     {
         detail::check_regex_type_specs(specs, eh);
-        SCN_EXPECT(specs.charset_string_data != nullptr);
-        SCN_EXPECT(specs.charset_string_size > 0);
+        SCN_EXPECT(!eh || specs.charset_string_data != nullptr);
+        SCN_EXPECT(!eh || specs.charset_string_size > 0);
     }
 
     template <typename Range, typename DestCharT>
-- 
2.43.0


From 296eb3342db84f3ba430fe2203eabc59e9e9d164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:05 +0000
Subject: [PATCH 21/74] fix: do not skip white space before matching
 regex_matches

---
 src/scn/impl.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 9faf68b..f3dc6ee 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -4736,6 +4736,11 @@ inline std::wstring get_unescaped_regex_pattern(std::wstring_view pattern)
 template <typename SourceCharT>
 struct regex_matches_reader
     : public reader_base<regex_matches_reader<SourceCharT>, SourceCharT> {
+    bool skip_ws_before_read() const
+    {
+        return false;
+    }
+
     void check_specs_impl(const detail::format_specs& specs,
                           reader_error_handler& eh)
     {
-- 
2.43.0


From e3f1ab8f19a039ab29f8d5ff34f9b4165eea2384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:31 +0000
Subject: [PATCH 22/74] fix: allow back references in regexes read into strings

---
 src/scn/impl.h | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index f3dc6ee..4df692f 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -4420,8 +4420,9 @@ auto read_regex_string_impl(std::basic_string_view<CharT> pattern,
     std::basic_regex<CharT> re{};
     try {
         SCN_TRY(re_flags, make_regex_flags(flags));
-        re = std::basic_regex<CharT>{pattern.data(), pattern.size(),
-                                     re_flags | std::regex_constants::nosubs};
+        // The subexpressions aren't needed for the result,
+        // but the pattern may refer back to them
+        re = std::basic_regex<CharT>{pattern.data(), pattern.size(), re_flags};
     }
     catch (const std::regex_error& err) {
         return detail::unexpected_scan_error(scan_error::invalid_format_string,
@@ -4449,15 +4450,13 @@ auto read_regex_string_impl(std::basic_string_view<CharT> pattern,
 #elif SCN_REGEX_BACKEND == SCN_REGEX_BACKEND_BOOST
     auto re =
 #if SCN_REGEX_BOOST_USE_ICU
-        boost::make_u32regex(pattern.data(), pattern.data() + pattern.size(),
-                             make_regex_flags(flags) |
-                                 boost::regex_constants::no_except |
-                                 boost::regex_constants::nosubs);
+        boost::make_u32regex(
+            pattern.data(), pattern.data() + pattern.size(),
+            make_regex_flags(flags) | boost::regex_constants::no_except);
 #else
-        boost::basic_regex<CharT>{pattern.data(), pattern.size(),
-                                  make_regex_flags(flags) |
-                                      boost::regex_constants::no_except |
-                                      boost::regex_constants::nosubs};
+        boost::basic_regex<CharT>{
+            pattern.data(), pattern.size(),
+            make_regex_flags(flags) | boost::regex_constants::no_except};
 #endif
     if (re.status() != 0) {
         return detail::unexpected_scan_error(scan_error::invalid_format_string,
-- 
2.43.0


From 76d0a48b6b51ca5558ec688ba983948bc483d731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:31 +0000
Subject: [PATCH 23/74] fix: do not let '.' match a newline without the s flag
 with Boost.Regex

---
 src/scn/impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 4df692f..7188f1b 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -4373,6 +4373,9 @@ constexpr auto make_regex_flags(detail::regex_flags flags)
         detail::regex_flags::none) {
         result |= boost::regex_constants::mod_s;
     }
+    else {
+        result |= boost::regex_constants::no_mod_s;
+    }
     if ((flags & detail::regex_flags::nocase) != detail::regex_flags::none) {
         result |= boost::regex_constants::icase;
     }
-- 
2.43.0


From 0c9c7c7245a7098469cda6c985b6517d8ef7de13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:10 +0000
Subject: [PATCH 24/74] fix: reject a '.' without a precision in the format
 string

---
 include/scn/scan.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 10dd926..ba09aac 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -7389,6 +7389,9 @@ constexpr const CharT* parse_precision(const CharT* begin,
             return begin;
         }
     }
+    else {
+        handler.on_error("Missing field precision after '.'");
+    }
     return begin;
 }
 
-- 
2.43.0


From ecdc35ea423369521ac745c63f0b4bb9cdb1ab80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:41 +0000
Subject: [PATCH 25/74] fix: report format errors found by scanners of built-in
 types

---
 include/scn/scan.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index ba09aac..a1e5c7b 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -9100,10 +9100,13 @@ constexpr typename ParseCtx::iterator scanner_parse_for_builtin_type(
 
         case arg_type::narrow_character_type:
         case arg_type::wide_character_type:
-        case arg_type::code_point_type:
             check_char_type_specs(specs, checker);
             break;
 
+        case arg_type::code_point_type:
+            check_code_point_type_specs(specs, checker);
+            break;
+
         case arg_type::float_type:
         case arg_type::double_type:
         case arg_type::ldouble_type:
@@ -9150,6 +9153,10 @@ constexpr typename ParseCtx::iterator scanner_parse_for_builtin_type(
         }
     }
 
+    if (const auto e = checker.get_error(); SCN_UNLIKELY(!e)) {
+        pctx.on_error(e.error().msg());
+    }
+
     return it;
 }
 }  // namespace detail
-- 
2.43.0


From 927d4158c647f3ede17b00a95b269ce47b4b685a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:39 +0000
Subject: [PATCH 26/74] fix: do not switch the process locale to read floats on
 glibc

---
 src/scn/impl.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 3baed06..de54427 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -88,8 +88,10 @@ SCN_GCC_POP
 
 #if !((__GLIBC__ > 2) || ((__GLIBC__ == 2) && (__GLIBC_MINOR__ > 25)))
 #include <xlocale.h>
-#define SCN_XLOCALE SCN_XLOCALE_POSIX
+#else
+#include <locale.h>
 #endif  // __GLIBC__ <= 2.25
+#define SCN_XLOCALE SCN_XLOCALE_POSIX
 
 #elif defined(__FreeBSD_version) && __FreeBSD_version >= 1000010
 
-- 
2.43.0


From 71b85cfb7da552ebef3af36483e933036d72f0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:16 +0000
Subject: [PATCH 27/74] fix: read floats whose thousands separator is '.'

---
 src/scn/impl.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 7188f1b..13b2349 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -4129,6 +4129,12 @@ private:
         }
 
         auto& str = this->m_buffer.make_into_allocated_string();
+        // The thousands separator may be '.', so it needs to be handled before
+        // the decimal point
+        if (m_locale_options.thousands_sep != 0) {
+            remove_thousands_separators(str);
+        }
+
         if (m_locale_options.decimal_point != CharT{'.'}) {
             for (auto& ch : str) {
                 if (ch == m_locale_options.decimal_point) {
@@ -4136,11 +4142,10 @@ private:
                 }
             }
         }
+    }
 
-        if (m_locale_options.thousands_sep == 0) {
-            return;
-        }
-
+    void remove_thousands_separators(std::basic_string<CharT>& str)
+    {
         auto first =
             std::find(str.begin(), str.end(), m_locale_options.thousands_sep);
         if (first == str.end()) {
-- 
2.43.0


From 9931d3f28088c9b45b6a5e3e2c41b7bbe1d0aa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:16 +0000
Subject: [PATCH 28/74] fix: match the longer localized boolean name first

---
 src/scn/impl.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 13b2349..ffba829 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -5559,14 +5559,15 @@ protected:
         const auto longer = std::pair{
             !is_truename_shorter ? truename : falsename, !is_truename_shorter};
 
-        if (auto r = read_matching_string(range, shorter.first)) {
-            value = shorter.second;
-            return *r;
-        }
+        // The shorter name may be a prefix of the longer one
         if (auto r = read_matching_string(range, longer.first)) {
             value = longer.second;
             return *r;
         }
+        if (auto r = read_matching_string(range, shorter.first)) {
+            value = shorter.second;
+            return *r;
+        }
 
         return detail::unexpected_scan_error(
             scan_error::invalid_scanned_value,
-- 
2.43.0


From 4c5e0f4ad0fb890dd0d76a010c5d5c2b32f59643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:16 +0000
Subject: [PATCH 29/74] fix: do not take NUL for a thousands separator in
 locales without grouping

---
 src/scn/impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index ffba829..2b2e6de 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -3476,7 +3476,8 @@ auto parse_integer_digits_with_thsep(
     auto it = range.begin();
     bool digit_matched = false;
     for (; it != range.end(); ++it) {
-        if (*it == locale_options.thousands_sep) {
+        if (locale_options.thousands_sep != 0 &&
+            *it == locale_options.thousands_sep) {
             thsep_indices.push_back(
                 static_cast<char>(ranges::distance(range.begin(), it)));
         }
-- 
2.43.0


From 82062de55ddffd5aeaeaef5d6cb537d47655c813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:16 +0000
Subject: [PATCH 30/74] fix: pass the locale on to custom and delegating
 scanners

---
 src/scn/impl.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index de54427..9a82c33 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -236,7 +236,8 @@ scan_expected<typename Context::iterator>
 scanner_scan_for_builtin_type(T& val, Context& ctx, const format_specs& specs)
 {
     if constexpr (!detail::is_type_disabled<T>) {
-        return impl::arg_reader<Context>{ctx.range(), specs, {}}(val);
+        return impl::arg_reader<Context>{ctx.range(), specs, ctx.locale()}(
+            val);
     }
     else {
         SCN_EXPECT(false);
@@ -1778,7 +1779,7 @@ scan_expected<std::ptrdiff_t> vscan_internal(
     const auto argcount = args.size();
     if (is_simple_single_argument_format_string(format) && argcount == 1) {
         auto arg = args.get(0);
-        return scan_simple_single_argument(source, SCN_MOVE(args), arg);
+        return scan_simple_single_argument(source, SCN_MOVE(args), arg, loc);
     }
 
     auto handler = format_handler<true, CharT>{
@@ -1798,7 +1799,7 @@ scan_expected<std::ptrdiff_t> vscan_internal(
     const auto argcount = args.size();
     if (is_simple_single_argument_format_string(format) && argcount == 1) {
         auto arg = args.get(0);
-        return scan_simple_single_argument(buffer, SCN_MOVE(args), arg);
+        return scan_simple_single_argument(buffer, SCN_MOVE(args), arg, loc);
     }
 
     if (buffer.is_contiguous()) {
-- 
2.43.0


From 2f8565d96838d4567be13a3a2880c8ea21f7e9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:28 +0000
Subject: [PATCH 31/74] fix: do not let the global locale affect regexes

---
 src/scn/impl.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 2b2e6de..f6099b5 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -4431,7 +4431,9 @@ auto read_regex_string_impl(std::basic_string_view<CharT> pattern,
         SCN_TRY(re_flags, make_regex_flags(flags));
         // The subexpressions aren't needed for the result,
         // but the pattern may refer back to them
-        re = std::basic_regex<CharT>{pattern.data(), pattern.size(), re_flags};
+        // Don't depend on the global locale
+        re.imbue(std::locale::classic());
+        re.assign(pattern.data(), pattern.size(), re_flags);
     }
     catch (const std::regex_error& err) {
         return detail::unexpected_scan_error(scan_error::invalid_format_string,
@@ -4543,7 +4545,9 @@ auto read_regex_matches_impl(std::basic_string_view<CharT> pattern,
     std::basic_regex<CharT> re{};
     try {
         SCN_TRY(re_flags, make_regex_flags(flags));
-        re = std::basic_regex<CharT>{pattern.data(), pattern.size(), re_flags};
+        // Don't depend on the global locale
+        re.imbue(std::locale::classic());
+        re.assign(pattern.data(), pattern.size(), re_flags);
     }
     catch (const std::regex_error& err) {
         return detail::unexpected_scan_error(scan_error::invalid_format_string,
-- 
2.43.0


From b1a065c955bcbb3e36d19dccef4693859f56d9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:07 +0000
Subject: [PATCH 32/74] fix: keep the stream locked while putting characters
 back

---
 include/scn/scan.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index a1e5c7b..79f4563 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -4960,14 +4960,10 @@ struct posix_stdio_file_interface : stdio_file_interface_base<File> {
         return static_cast<char>(res);
     }
 
-    void prepare_putback()
-    {
-        unlock();
-    }
-    void finalize_putback()
-    {
-        lock();
-    }
+    // The lock is recursive: keep holding it over the calls to ungetc,
+    // so that no other thread can read what is about to be put back
+    void prepare_putback() {}
+    void finalize_putback() {}
 
     bool putback(char ch)
     {
-- 
2.43.0


From 1042fc4bc2d495086a457401ce3c1eb8fd51895b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:06 +0000
Subject: [PATCH 33/74] fix: do not skip the character after a multi-byte
 literal in chrono formats

---
 include/scn/chrono.h | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/include/scn/chrono.h b/include/scn/chrono.h
index cb25ac5..04d8ccf 100644
--- a/include/scn/chrono.h
+++ b/include/scn/chrono.h
@@ -414,28 +414,23 @@ constexpr const CharT* parse_chrono_format_specs(const CharT* begin,
                 handler.on_error("Invalid literal character");
                 return p;
             }
-            if (cp_len > 1) {
-                // Multi code unit code point,
-                // possible space
-                auto cp_start_p = p;
-                CharT buffer[4] = {};
-                for (std::size_t i = 0; i < cp_len; ++i) {
-                    if (p == end) {
-                        handler.on_error("Invalid literal character");
-                        return p;
-                    }
-                    buffer[i] = *p;
-                    ++p;
-                }
-                if (is_cp_space(decode_code_point_exhaustive(
-                        std::basic_string_view<CharT>{buffer, cp_len}))) {
-                    handler.on_text(begin, cp_start_p);
-                    handler.on_whitespace();
-                    begin = p;
-                    continue;
+            // Possible non-ASCII space
+            auto cp_start_p = p;
+            CharT buffer[4] = {};
+            for (std::size_t i = 0; i < cp_len; ++i) {
+                if (p == end) {
+                    handler.on_error("Invalid literal character");
+                    return p;
                 }
+                buffer[i] = *p;
+                ++p;
+            }
+            if (is_cp_space(decode_code_point_exhaustive(
+                    std::basic_string_view<CharT>{buffer, cp_len}))) {
+                handler.on_text(begin, cp_start_p);
+                handler.on_whitespace();
+                begin = p;
             }
-            ++p;
             continue;
         }
         if (begin != p) {
-- 
2.43.0


From 342d53171ea8e6dbe9f5ef70e7d6b36ff070221f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:06 +0000
Subject: [PATCH 34/74] fix: accept every day of the year for
 datetime_components

---
 src/scn/impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 9a82c33..5032cc5 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -2473,7 +2473,7 @@ struct datetime_setter<datetime_components> {
                          setter_state& st,
                          int d)
     {
-        if (SCN_UNLIKELY(d < 0 || d > 6)) {
+        if (SCN_UNLIKELY(d < 0 || d > 365)) {
             return h.set_error(
                 {scan_error::invalid_scanned_value, "Invalid value for yday"});
         }
-- 
2.43.0


From 7ca9330b239d8a8d5cf8e41484a46418c96e2e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:06 +0000
Subject: [PATCH 35/74] fix: read %u as an ISO weekday

---
 src/scn/impl.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 5032cc5..9c29505 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -2974,17 +2974,18 @@ public:
     }
     void on_dec1_weekday(numeric_system sys = numeric_system::standard)
     {
+        // ISO weekday: 1 is Monday, 7 is Sunday
         auto adjust_wday = [](int d) {
             if (d == 0) {
-                return 6;
+                return -1;
             }
-            return d - 1;
+            return d == 7 ? 0 : d;
         };
 
 #if !SCN_DISABLE_LOCALE
         if (m_st.localized && sys != numeric_system::standard) {
             if (auto t = read_localized("%Ow", L"%Ow")) {
-                setter::set_wday(*this, m_tm, m_st, adjust_wday(t->tm_wday));
+                setter::set_wday(*this, m_tm, m_st, t->tm_wday);
             }
             return;
         }
-- 
2.43.0


From ad5beee1bc97a2730b9734e6bd3d6bcfe9db250a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:06 +0000
Subject: [PATCH 36/74] fix: do not read %OW as a weekday

---
 include/scn/chrono.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/scn/chrono.h b/include/scn/chrono.h
index 04d8ccf..215f26f 100644
--- a/include/scn/chrono.h
+++ b/include/scn/chrono.h
@@ -675,9 +675,12 @@ constexpr const CharT* parse_chrono_format_specs(const CharT* begin,
                     case CharT{'w'}:
                         handler.on_dec0_weekday(numeric_system::alternative_o);
                         break;
-                    case CharT{'W'}:
+                    case CharT{'u'}:
                         handler.on_dec1_weekday(numeric_system::alternative_o);
                         break;
+                    case CharT{'W'}:
+                        handler.on_dec1_week_of_year();
+                        break;
                     case CharT{'y'}:
                         handler.on_short_year(numeric_system::alternative_o);
                         break;
-- 
2.43.0


From 8107a6c671385b0e76296b9b03a000ff5632c15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:06 +0000
Subject: [PATCH 37/74] fix: read %C and %y into datetime_components

---
 src/scn/impl.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 9c29505..df0233f 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -2432,12 +2432,9 @@ struct datetime_setter<datetime_components> {
                             setter_state& st,
                             int c)
     {
-        if (!t.year) {
-            t.year = c * 100;
-        }
-        else {
-            t.year = *t.year + c * 100;
-        }
+        // Combined in handle_short_year_and_century
+        t.year = c * 100;
+        st.century_value = static_cast<unsigned char>(c);
         st.set_century(h);
     }
     template <typename Handler>
@@ -2446,12 +2443,13 @@ struct datetime_setter<datetime_components> {
                                setter_state& st,
                                int y)
     {
-        if (!t.year) {
-            t.year = y;
-        }
-        else {
-            t.year = *t.year + y;
+        if (SCN_UNLIKELY(y < 0 || y > 99)) {
+            return h.set_error(
+                {scan_error::invalid_scanned_value, "Invalid value for year"});
         }
+        // Combined in handle_short_year_and_century
+        t.year = y;
+        st.short_year_value = static_cast<unsigned char>(y);
         st.set_short_year(h);
     }
     template <typename Handler>
-- 
2.43.0


From ce9905ae3a41f6de6a9e82cd8176f04aba7ef81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:06 +0000
Subject: [PATCH 38/74] fix: do not use the result of a failed scan of a time
 zone name

---
 src/scn/impl.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index df0233f..ee8fac0 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3181,12 +3181,10 @@ public:
                 }
             }());
         if (!res) {
-            set_error(res.error());
-        }
-        else {
-            setter::set_tz_name(*this, m_tm, m_st, std::move(res->value()));
+            return set_error(res.error());
         }
         m_begin = res->begin();
+        setter::set_tz_name(*this, m_tm, m_st, std::move(res->value()));
     }
 
     void on_loc_datetime(numeric_system sys = numeric_system::standard)
-- 
2.43.0


From 507fcb88f02d90fdc06da43abc0f21873bffb559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:06 +0000
Subject: [PATCH 39/74] fix: read localized date and time fields from the
 current position

---
 src/scn/impl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index ee8fac0..aa6043a 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3531,12 +3531,12 @@ private:
             if constexpr (std::is_same_v<
                               iterator,
                               remove_cvref_t<decltype(m_range.end())>>) {
-                return std::pair{m_range.begin(), m_range.end()};
+                return std::pair{m_begin, m_range.end()};
             }
             else {
                 using common_iterator_type =
                     typename basic_scan_buffer<CharT>::common_forward_iterator;
-                return std::pair{common_iterator_type{m_range.begin()},
+                return std::pair{common_iterator_type{m_begin},
                                  common_iterator_type{m_range.end()}};
             }
         }();
-- 
2.43.0


From 4bfb8ebe972ff76cadabcd1284e341669afccd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:06 +0000
Subject: [PATCH 40/74] fix: accept 12 o'clock for a localized 12-hour clock

---
 src/scn/impl.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index aa6043a..233e7e7 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3012,7 +3012,9 @@ public:
 #if !SCN_DISABLE_LOCALE
         if (m_st.localized && sys != numeric_system::standard) {
             if (auto t = read_localized("%OI", L"%OI")) {
-                setter::set_hour12(*this, m_tm, m_st, t->tm_hour);
+                // The facet may report 12 o'clock as 0
+                setter::set_hour12(*this, m_tm, m_st,
+                                   t->tm_hour == 0 ? 12 : t->tm_hour);
             }
             return;
         }
-- 
2.43.0


From 9e80425089a905c455ca6bfec4e0d63fb1be3247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:38 +0000
Subject: [PATCH 41/74] fix: report calendar fields missing from the format
 string instead of asserting

---
 include/scn/chrono.h | 46 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/include/scn/chrono.h b/include/scn/chrono.h
index 215f26f..e2b7d37 100644
--- a/include/scn/chrono.h
+++ b/include/scn/chrono.h
@@ -1579,7 +1579,11 @@ struct scanner<weekday, CharT>
         if (!r) {
             return unexpected(r.error());
         }
-        assert(dt.wday);
+        if (!dt.wday) {
+            return detail::unexpected_scan_error(
+                scan_error::invalid_format_string,
+                "Required field not set by the format string");
+        }
         wd = *dt.wday;
         return *r;
     }
@@ -1595,7 +1599,11 @@ struct scanner<day, CharT> : public detail::chrono_component_scanner<CharT> {
         if (!r) {
             return unexpected(r.error());
         }
-        assert(dt.mday);
+        if (!dt.mday) {
+            return detail::unexpected_scan_error(
+                scan_error::invalid_format_string,
+                "Required field not set by the format string");
+        }
         d = day{static_cast<unsigned>(*dt.mday)};
         return *r;
     }
@@ -1611,7 +1619,11 @@ struct scanner<month, CharT> : public detail::chrono_component_scanner<CharT> {
         if (!r) {
             return unexpected(r.error());
         }
-        assert(dt.mon);
+        if (!dt.mon) {
+            return detail::unexpected_scan_error(
+                scan_error::invalid_format_string,
+                "Required field not set by the format string");
+        }
         m = *dt.mon;
         return *r;
     }
@@ -1627,7 +1639,11 @@ struct scanner<year, CharT> : public detail::chrono_component_scanner<CharT> {
         if (!r) {
             return unexpected(r.error());
         }
-        assert(dt.year);
+        if (!dt.year) {
+            return detail::unexpected_scan_error(
+                scan_error::invalid_format_string,
+                "Required field not set by the format string");
+        }
         y = year{static_cast<int>(*dt.year)};
         return *r;
     }
@@ -1645,8 +1661,11 @@ struct scanner<month_day, CharT>
         if (!r) {
             return unexpected(r.error());
         }
-        assert(dt.mon);
-        assert(dt.mday);
+        if (!dt.mon || !dt.mday) {
+            return detail::unexpected_scan_error(
+                scan_error::invalid_format_string,
+                "Required field not set by the format string");
+        }
         md = month_day{month{static_cast<unsigned>(*dt.mon)},
                        day{static_cast<unsigned>(*dt.mday)}};
         return *r;
@@ -1665,8 +1684,11 @@ struct scanner<year_month, CharT>
         if (!r) {
             return unexpected(r.error());
         }
-        assert(dt.year);
-        assert(dt.mon);
+        if (!dt.year || !dt.mon) {
+            return detail::unexpected_scan_error(
+                scan_error::invalid_format_string,
+                "Required field not set by the format string");
+        }
         ym = year_month{year{static_cast<int>(*dt.year)},
                         month{static_cast<unsigned>(*dt.mon)}};
         return *r;
@@ -1685,9 +1707,11 @@ struct scanner<year_month_day, CharT>
         if (!r) {
             return unexpected(r.error());
         }
-        assert(dt.year);
-        assert(dt.mon);
-        assert(dt.mday);
+        if (!dt.year || !dt.mon || !dt.mday) {
+            return detail::unexpected_scan_error(
+                scan_error::invalid_format_string,
+                "Required field not set by the format string");
+        }
         ymd = year_month_day{year{static_cast<int>(*dt.year)},
                              month{static_cast<unsigned>(*dt.mon)},
                              day{static_cast<unsigned>(*dt.mday)}};
-- 
2.43.0


From 5c644605fd870e6ea7e823326fd2366824bd093e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:38 +0000
Subject: [PATCH 42/74] fix: reject setting all of weekday, day of month, and
 day of year

---
 include/scn/chrono.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/scn/chrono.h b/include/scn/chrono.h
index e2b7d37..ad3a4de 100644
--- a/include/scn/chrono.h
+++ b/include/scn/chrono.h
@@ -824,8 +824,7 @@ struct setter_state {
                 {scan_error::invalid_format_string,
                  "tzoff (%z) can't be used together with tzname (%Z)"});
         }
-        if ((wday_set || mday_set || yday_set) &&
-            !(wday_set ^ mday_set ^ yday_set)) {
+        if (wday_set + mday_set + yday_set > 1u) {
             return handler.set_error(
                 {scan_error::invalid_format_string,
                  "Only up to one of wday (%a/%u/%w), mday "
-- 
2.43.0


From 365108a6d2a54070b190271188d1a5be68e1d790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:38 +0000
Subject: [PATCH 43/74] fix: make %c usable without the L flag

---
 src/scn/impl.cpp | 56 ++++++++++++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 23 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 233e7e7..5708d85 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -2929,28 +2929,7 @@ public:
         }
 #endif
 
-        std::array<std::pair<std::string_view, int>, 7> long_mapping = {{
-            {"Sunday", 0},
-            {"Monday", 1},
-            {"Tuesday", 2},
-            {"Wednesday", 3},
-            {"Thursday", 4},
-            {"Friday", 5},
-            {"Saturday", 6},
-        }};
-        if (auto d = try_one_of_str_nocase(long_mapping)) {
-            return setter::set_wday(*this, m_tm, m_st, *d);
-        }
-        std::array<std::pair<std::string_view, int>, 7> short_mapping = {{
-            {"Sun", 0},
-            {"Mon", 1},
-            {"Tue", 2},
-            {"Wed", 3},
-            {"Thu", 4},
-            {"Fri", 5},
-            {"Sat", 6},
-        }};
-        if (auto d = try_one_of_str_nocase(short_mapping)) {
+        if (auto d = read_weekday_name()) {
             return setter::set_wday(*this, m_tm, m_st, *d);
         }
         return set_error(
@@ -3213,7 +3192,12 @@ public:
 #endif
         // %c == %a %b %d %H:%M:%S %Y
         constexpr CharT colon = ':';
-        on_weekday_name();
+        // The weekday is redundant (see setter_state::verify),
+        // as with the localized %c above
+        if (!read_weekday_name()) {
+            return set_error(
+                {scan_error::invalid_scanned_value, "Invalid weekday name"});
+        }
         on_whitespace();
         on_month_name();
         on_whitespace();
@@ -3405,6 +3389,32 @@ private:
         on_error("Unimplemented");
     }
 
+    std::optional<int> read_weekday_name()
+    {
+        std::array<std::pair<std::string_view, int>, 7> long_mapping = {{
+            {"Sunday", 0},
+            {"Monday", 1},
+            {"Tuesday", 2},
+            {"Wednesday", 3},
+            {"Thursday", 4},
+            {"Friday", 5},
+            {"Saturday", 6},
+        }};
+        if (auto d = try_one_of_str_nocase(long_mapping)) {
+            return d;
+        }
+        std::array<std::pair<std::string_view, int>, 7> short_mapping = {{
+            {"Sun", 0},
+            {"Mon", 1},
+            {"Tue", 2},
+            {"Wed", 3},
+            {"Thu", 4},
+            {"Fri", 5},
+            {"Sat", 6},
+        }};
+        return try_one_of_str_nocase(short_mapping);
+    }
+
     int read_classic_unsigned_integer(int min_digits, int max_digits)
     {
         int digits_read = 0;
-- 
2.43.0


From f3c13c5f87652ac0530c41b933b2363f9da96196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:38 +0000
Subject: [PATCH 44/74] fix: check the range of time points and round their
 subseconds

---
 include/scn/chrono.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/scn/chrono.h b/include/scn/chrono.h
index ad3a4de..aed4d2f 100644
--- a/include/scn/chrono.h
+++ b/include/scn/chrono.h
@@ -353,15 +353,25 @@ std::optional<Duration> time_since_unix_epoch(const datetime_components& dt)
     }
 
     auto tm = dt.to_tm();
-    // TODO: overflow checks
     auto time = std::chrono::seconds{std::mktime(&tm)};
     if constexpr (Duration::period::type::den > std::intmax_t{1}) {
         // Duration more precise than seconds (seconds is std::ratio<1, 1>)
+        // -> may not be able to represent all values
+        if (time <=
+                std::chrono::duration_cast<std::chrono::seconds>(
+                    Duration::min()) ||
+            time >= std::chrono::duration_cast<std::chrono::seconds>(
+                        Duration::max()) -
+                        std::chrono::seconds{1}) {
+            return std::nullopt;
+        }
         if (dt.subsec) {
+            // Round to nearest: *dt.subsec is not exact
             auto subsec_in_ns =
                 std::chrono::nanoseconds{static_cast<std::int64_t>(
-                    *dt.subsec * static_cast<double>(std::nano::den))};
-            return std::chrono::duration_cast<Duration>(time + subsec_in_ns);
+                    *dt.subsec * static_cast<double>(std::nano::den) + 0.5)};
+            return std::chrono::duration_cast<Duration>(time) +
+                   std::chrono::duration_cast<Duration>(subsec_in_ns);
         }
     }
     // Duration is seconds or larger, or subsec is not set
-- 
2.43.0


From 32441f557e86b6e1a7331fb24f81f956c296cb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:38 +0000
Subject: [PATCH 45/74] fix: keep subseconds below one

---
 src/scn/impl.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 5708d85..53bb04a 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3079,7 +3079,12 @@ public:
             return set_error(dbl_res.error());
         }
 
-        setter::set_subsec(*this, m_tm, m_st, dbl_res->value());
+        auto subsec = dbl_res->value();
+        if (subsec >= 1.0) {
+            // Rounded up from 0.999..., keep in [0.0, 1.0)
+            subsec = std::nextafter(1.0, 0.0);
+        }
+        setter::set_subsec(*this, m_tm, m_st, subsec);
 
 #else  // !SCN_DISABLE_TYPE_STRING && !SCN_DISABLE_TYPE_DOUBLE
         SCN_UNUSED(sys);
-- 
2.43.0


From bab56e293ba7db98aee7ac96e96591198efbf0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:38 +0000
Subject: [PATCH 46/74] fix: check the range of time zone offsets

---
 src/scn/impl.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 53bb04a..4115528 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3151,6 +3151,11 @@ public:
             }
         }
 
+        if (SCN_UNLIKELY(hour > 23 || minute > 59)) {
+            return set_error({scan_error::invalid_scanned_value,
+                              "Invalid value for timezone offset"});
+        }
+
         setter::set_tz_offset(
             *this, m_tm, m_st,
             std::chrono::minutes{(is_minus ? -1 : 1) * (hour * 60 + minute)});
-- 
2.43.0


From 70bb46791f2e707149be7bb0ce3d4c59bd9cafc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:38 +0000
Subject: [PATCH 47/74] fix: do not ignore the case of periods in a.m. and p.m.

---
 src/scn/impl.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 4115528..572b8c3 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3478,10 +3478,16 @@ private:
             const auto ch = *m_begin;
             ++m_begin;
             while (i < options_available) {
-                const auto cmp = static_cast<unsigned>(
-                    ch ^ options[i].first[chars_consumed]);
-                if (options[i].first.size() <= chars_consumed ||
-                    (cmp != 0 && cmp != 32)) {
+                const auto matches = [&](std::string_view opt) {
+                    if (opt.size() <= chars_consumed) {
+                        return false;
+                    }
+                    const auto opt_ch = opt[chars_consumed];
+                    const auto cmp = static_cast<unsigned>(ch ^ opt_ch);
+                    // Only letters have a case
+                    return cmp == 0 || (cmp == 32 && opt_ch != '.');
+                };
+                if (!matches(options[i].first)) {
                     std::rotate(options.begin() + i, options.begin() + i + 1,
                                 options.end());
                     --options_available;
-- 
2.43.0


From 48c09148f8a252bc2ed25d0ee80e733da94d1810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:08 +0000
Subject: [PATCH 48/74] fix: read localized month names also with
 SCN_DISABLE_FAST_FLOAT

---
 src/scn/impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 572b8c3..966c174 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -2827,7 +2827,7 @@ public:
 
     void on_month_name()
     {
-#if !SCN_DISABLE_FAST_FLOAT
+#if !SCN_DISABLE_LOCALE
         if (m_st.localized) {
             if (auto t = read_localized("%b", L"%b")) {
                 setter::set_mon(*this, m_tm, m_st, t->tm_mon + 1);
-- 
2.43.0


From 457af9107232dceff24a183f29d4cc5d8b90b8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:08 +0000
Subject: [PATCH 49/74] fix: detect a month set multiple times by its name

---
 include/scn/chrono.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/scn/chrono.h b/include/scn/chrono.h
index aed4d2f..d62c030 100644
--- a/include/scn/chrono.h
+++ b/include/scn/chrono.h
@@ -1239,6 +1239,7 @@ struct tm_format_checker {
         if (!always_supports_field<T, field_tags::mon>::value) {
             on_error("Months not supported with this type");
         }
+        st.set_mon(*this);
     }
     constexpr void on_dec_month(numeric_system = numeric_system::standard)
     {
-- 
2.43.0


From bc3672f59773ca4b08f97ac9547aee32083dacf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:08 +0000
Subject: [PATCH 50/74] fix: accept empty sources without storage in scanners
 of user types

---
 include/scn/scan.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 79f4563..c1f161f 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -4483,8 +4483,8 @@ public:
 
     bool stores_parent() const
     {
-        assert(m_begin);
-        return m_end == nullptr;
+        // Both are null for an empty view without any storage
+        return m_begin != nullptr && m_end == nullptr;
     }
 
     basic_scan_buffer<CharT>* parent()
-- 
2.43.0


From bb9389cc8a18777391620a82d296aa17a5500336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:08 +0000
Subject: [PATCH 51/74] fix: read nested scans of segmented sources from the
 right position

---
 include/scn/scan.h | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index c1f161f..8d12099 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -5137,8 +5137,11 @@ public:
           m_starting_pos(starting_pos)
     {
         this->m_current_view = other.get_segment_starting_at(starting_pos);
-        m_fill_needs_to_propagate = other.get_segment_starting_at(0).end() ==
-                                    this->m_current_view.end();
+        // If starting from inside the putback buffer,
+        // the current view of other comes next
+        m_fill_needs_to_propagate =
+            starting_pos >=
+            static_cast<std::ptrdiff_t>(other.putback_buffer().size());
     }
 
     basic_scan_ref_buffer(std::basic_string_view<CharT> view)
@@ -5155,9 +5158,17 @@ public:
 
         if (m_fill_needs_to_propagate) {
             auto ret = m_other->fill();
-            this->m_current_view = m_other->current_view();
-            this->m_putback_buffer =
-                m_other->putback_buffer().substr(m_starting_pos);
+            const auto starting_pos = static_cast<std::size_t>(m_starting_pos);
+            const auto& other_putback = m_other->putback_buffer();
+            if (starting_pos <= other_putback.size()) {
+                this->m_current_view = m_other->current_view();
+                this->m_putback_buffer = other_putback.substr(starting_pos);
+            }
+            else {
+                this->m_current_view = m_other->current_view().substr(
+                    starting_pos - other_putback.size());
+                this->m_putback_buffer.clear();
+            }
             return ret;
         }
 
-- 
2.43.0


From bf1a001ee374f50c0ec3258737f6f45c5f0d47a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:25 +0000
Subject: [PATCH 52/74] fix: stop reading localized times at the end of
 segmented sources

---
 src/scn/impl.cpp | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 966c174..f6d33ea 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3505,8 +3505,17 @@ private:
     }
 
 #if !SCN_DISABLE_LOCALE
+    // The iterator given to std::time_get has to be able to detect the end of
+    // the source by itself
+    using time_get_iterator = std::conditional_t<
+        std::is_same_v<
+            iterator,
+            remove_cvref_t<decltype(std::declval<Range&>().end())>>,
+        iterator,
+        typename basic_scan_buffer<CharT>::common_forward_iterator>;
+
     struct localized_read_state {
-        using time_facet_type = std::time_get<CharT, iterator>;
+        using time_facet_type = std::time_get<CharT, time_get_iterator>;
         using numpunct_facet_type = std::numpunct<CharT>;
 
         std::locale locale;
@@ -3555,21 +3564,10 @@ private:
         const auto& facet = *get_localized_read_state().time_facet;
         std::ios_base::iostate err{std::ios_base::goodbit};
         std::tm tm{};
-        auto [begin, end] = [&]() {
-            if constexpr (std::is_same_v<
-                              iterator,
-                              remove_cvref_t<decltype(m_range.end())>>) {
-                return std::pair{m_begin, m_range.end()};
-            }
-            else {
-                using common_iterator_type =
-                    typename basic_scan_buffer<CharT>::common_forward_iterator;
-                return std::pair{common_iterator_type{m_begin},
-                                 common_iterator_type{m_range.end()}};
-            }
-        }();
-        auto iter = facet.get(begin, end, m_loc_state->dummy_stream, err, &tm,
-                              fmt.data(), fmt.data() + fmt.size());
+        auto iter = facet.get(time_get_iterator{m_begin},
+                              time_get_iterator{m_range.end()},
+                              m_loc_state->dummy_stream, err, &tm, fmt.data(),
+                              fmt.data() + fmt.size());
         if ((err & std::ios_base::failbit) != 0) {
             set_error({scan_error::invalid_scanned_value,
                        "Failed to scan localized datetime"});
-- 
2.43.0


From 28f71a285437e64eb557d66b333bb088addeb94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:41 +0000
Subject: [PATCH 53/74] fix: respect the capacity of containers of limited size

---
 include/scn/ranges.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/scn/ranges.h b/include/scn/ranges.h
index f592adc..f5c2ee8 100644
--- a/include/scn/ranges.h
+++ b/include/scn/ranges.h
@@ -210,14 +210,18 @@ void add_element_to_range(Range& r, Element&& elem)
 template <typename Range, typename Enable = void>
 struct has_max_size : std::false_type {};
 template <typename Range>
-struct has_max_size<Range, decltype(SCN_DECLVAL(const Range&).max_size())>
+struct has_max_size<
+    Range,
+    std::void_t<decltype(SCN_DECLVAL(const Range&).max_size())>>
     : std::true_type {};
 
 template <typename Range, typename DiffT = ranges::range_difference_t<Range>>
 DiffT range_max_size(const Range& r)
 {
     if constexpr (has_max_size<Range>::value) {
-        return static_cast<DiffT>(r.max_size());
+        return static_cast<DiffT>((std::min)(
+            static_cast<std::uintmax_t>(r.max_size()),
+            static_cast<std::uintmax_t>((std::numeric_limits<DiffT>::max)())));
     }
     else {
         return std::numeric_limits<DiffT>::max();
-- 
2.43.0


From 89f43d44b3cabdc46dc7ddceb4ad682911580273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:41 +0000
Subject: [PATCH 54/74] fix: check for the end of the source when reading
 brackets and separators

---
 include/scn/ranges.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/scn/ranges.h b/include/scn/ranges.h
index f5c2ee8..8ab42ac 100644
--- a/include/scn/ranges.h
+++ b/include/scn/ranges.h
@@ -153,6 +153,9 @@ scan_expected<ranges::iterator_t<Source>> scan_str(
 {
     SCN_TRY(it, internal_skip_classic_whitespace(source, false));
     for (auto ch_to_read : str_to_read) {
+        if (SCN_UNLIKELY(it == source.end())) {
+            return unexpected_scan_error(scan_error::end_of_input, "EOF");
+        }
         if (SCN_UNLIKELY(ch_to_read != *it)) {
             return unexpected_scan_error(scan_error::invalid_scanned_value,
                                          "Invalid range character");
-- 
2.43.0


From f5439c54ac469e5fd798ea8c03f1d2f20e26873b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:06 +0000
Subject: [PATCH 55/74] fix: let stream extraction put back any character just
 extracted

---
 include/scn/istream.h | 61 ++++++++++++++-----------------------------
 1 file changed, 20 insertions(+), 41 deletions(-)

diff --git a/include/scn/istream.h b/include/scn/istream.h
index 3fd86d1..f658474 100644
--- a/include/scn/istream.h
+++ b/include/scn/istream.h
@@ -76,72 +76,55 @@ public:
     {
     }
 
+    // The first character not yet extracted
     iterator begin() const
         noexcept(std::is_nothrow_copy_constructible_v<iterator>)
     {
         return m_begin;
     }
-    iterator begin_prev() const
-        noexcept(std::is_nothrow_copy_constructible_v<iterator>)
-    {
-        return m_begin_prev;
-    }
-    int_type last_char() const noexcept
-    {
-        return m_ch;
-    }
 
 private:
     int_type underflow() override
     {
-        // Already read
-        if (!traits_type::eq_int_type(m_ch, traits_type::eof())) {
-            return m_ch;
-        }
-
         if (m_begin == ranges::end(m_range)) {
             return traits_type::eof();
         }
-        m_begin_prev = m_begin;
-        SCN_CLANG_PUSH_IGNORE_UNSAFE_BUFFER_USAGE
-        m_ch = traits_type::to_int_type(*m_begin++);
-        SCN_CLANG_POP_IGNORE_UNSAFE_BUFFER_USAGE
-        return m_ch;
+        return traits_type::to_int_type(*m_begin);
     }
 
     int_type uflow() override
     {
         auto ret = underflow();
-        if (ret != traits_type::eof()) {
-            m_ch = traits_type::eof();
+        if (!traits_type::eq_int_type(ret, traits_type::eof())) {
+            m_begin_prev = m_begin;
+            SCN_CLANG_PUSH_IGNORE_UNSAFE_BUFFER_USAGE
+            ++m_begin;
+            SCN_CLANG_POP_IGNORE_UNSAFE_BUFFER_USAGE
+            m_can_put_back = true;
         }
         return ret;
     }
 
-    std::streamsize showmanyc() override
-    {
-        return traits_type::eq_int_type(m_ch, traits_type::eof()) ? 0 : 1;
-    }
-
+    // Only the character extracted last can be put back
     int_type pbackfail(int_type c) override
     {
-        SCN_EXPECT(traits_type::eq_int_type(c, traits_type::eof()));
-        SCN_EXPECT(!m_has_put_back);
-        m_has_put_back = true;
-
-        m_begin = m_begin_prev;
-
-        if (m_begin == ranges::end(m_range)) {
+        if (!m_can_put_back) {
             return traits_type::eof();
         }
-        return traits_type::to_int_type(0);
+        const auto prev = traits_type::to_int_type(*m_begin_prev);
+        if (!traits_type::eq_int_type(c, traits_type::eof()) &&
+            !traits_type::eq_int_type(c, prev)) {
+            return traits_type::eof();
+        }
+        m_begin = m_begin_prev;
+        m_can_put_back = false;
+        return prev;
     }
 
     range_type m_range;
     iterator m_begin;
     iterator m_begin_prev;
-    int_type m_ch{traits_type::eof()};
-    bool m_has_put_back{false};
+    bool m_can_put_back{false};
 };
 
 using range_streambuf = basic_range_streambuf<scan_context::range_type>;
@@ -181,7 +164,6 @@ struct basic_istream_scanner {
     {
         detail::basic_range_streambuf<typename Context::range_type> streambuf(
             ctx.range());
-        using traits = typename decltype(streambuf)::traits_type;
         std::basic_istream<CharT> stream(std::addressof(streambuf));
 
         if (!(stream >> val)) {
@@ -201,10 +183,7 @@ struct basic_istream_scanner {
                 "Failed to read with std::istream");
         }
 
-        if (traits::eq_int_type(streambuf.last_char(), traits::eof())) {
-            return streambuf.begin();
-        }
-        return streambuf.begin_prev();
+        return streambuf.begin();
     }
 };
 
-- 
2.43.0


From ee8d3abacf036dd57370995d998f64c4c695db04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:08 +0000
Subject: [PATCH 56/74] fix: define the scanners of all built-in types

---
 src/scn/impl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index f6d33ea..e796677 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -260,6 +260,9 @@ scan_expected<ranges::iterator_t<Range>> internal_skip_classic_whitespace(
 
 #define SCN_DEFINE_SCANNER_SCAN_FOR_CTX(Context)                    \
     SCN_DEFINE_SCANNER_SCAN_FOR_TYPE(Context::char_type, Context)   \
+    SCN_DEFINE_SCANNER_SCAN_FOR_TYPE(char32_t, Context)             \
+    SCN_DEFINE_SCANNER_SCAN_FOR_TYPE(bool, Context)                 \
+    SCN_DEFINE_SCANNER_SCAN_FOR_TYPE(void*, Context)                \
     SCN_DEFINE_SCANNER_SCAN_FOR_TYPE(signed char, Context)          \
     SCN_DEFINE_SCANNER_SCAN_FOR_TYPE(short, Context)                \
     SCN_DEFINE_SCANNER_SCAN_FOR_TYPE(int, Context)                  \
@@ -283,6 +286,7 @@ scan_expected<ranges::iterator_t<Range>> internal_skip_classic_whitespace(
     internal_skip_classic_whitespace(Context::range_type, bool);
 
 SCN_DEFINE_SCANNER_SCAN_FOR_CTX(scan_context)
+SCN_DEFINE_SCANNER_SCAN_FOR_TYPE(wchar_t, scan_context)
 SCN_DEFINE_SCANNER_SCAN_FOR_CTX(wscan_context)
 
 /////////////////////////////////////////////////////////////////
-- 
2.43.0


From e3ceaa4d28715527ba5e3d7e3fb66245122ea08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:55 +0000
Subject: [PATCH 57/74] fix: report a literal mismatch in front of a field of a
 user type

---
 include/scn/scan.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 8d12099..c6a63fe 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -7790,6 +7790,9 @@ constexpr void parse_format_string_impl(std::basic_string_view<CharT> format,
         const auto ch = *it++;
         if (ch == CharT{'{'}) {
             handler.on_literal_text(begin, it - 1);
+            if (!handler.get_error()) {
+                return;
+            }
 
             begin = it = parse_replacement_field(it - 1, end, handler);
             if (!handler.get_error()) {
-- 
2.43.0


From d1c3ffbba751d5686b12198aaa85d58d31ba223e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:02 +0000
Subject: [PATCH 58/74] fix: accept an exhausted contiguous source in regex
 scanners of user types

---
 src/scn/impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index f6099b5..6362ed8 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -989,7 +989,7 @@ bool is_segment_contiguous(Range r)
                                detail::char_t<Range>>::forward_iterator>) {
         auto beg = r.begin();
         if (beg.contiguous_segment().empty()) {
-            return false;
+            return !beg.stores_parent();
         }
         if constexpr (ranges::common_range<Range>) {
             return beg.contiguous_segment().end() ==
-- 
2.43.0


From 73ffa61c7624aa29e92ba7943659cdfce733c4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:05 +0000
Subject: [PATCH 59/74] fix: compare the decimal point of subseconds as a wide
 character

---
 src/scn/impl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index e796677..d6f0e8b 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3453,12 +3453,12 @@ private:
         return accumulator;
     }
 
-    bool consume_ch(char ch)
+    bool consume_ch(CharT ch)
     {
         if (m_begin == m_range.end()) {
             return false;
         }
-        if (*m_begin == static_cast<CharT>(ch)) {
+        if (*m_begin == ch) {
             ++m_begin;
             return true;
         }
-- 
2.43.0


From 56cda809a30bc6a144d5e87ad86f87de943eab36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:26 +0000
Subject: [PATCH 60/74] fix: keep the error reported by scanner::parse

An exception thrown by parse() of a user-provided scanner was caught and
turned into an error with its message, which was then overwritten with
"Unknown format specifier", because the format string hadn't been advanced.
---
 src/scn/impl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index d6f0e8b..67cc876 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1474,6 +1474,12 @@ struct format_handler_base {
 
     void on_error(const char* msg)
     {
+        if (SCN_UNLIKELY(!error && error.error().code() ==
+                                       scan_error::invalid_format_string)) {
+            // Keep the first, more specific, message
+            // (e.g. the one from parse() of a user-provided scanner)
+            return;
+        }
         SCN_UNLIKELY_ATTR
         error = detail::unexpected_scan_error(scan_error::invalid_format_string,
                                               msg);
-- 
2.43.0


From a5065886809fd1c2d82c48ccd87d21de2416f829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:49 +0000
Subject: [PATCH 61/74] fix: pass results holding non-trivial objects by value
 safely

---
 include/scn/scan.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index c6a63fe..3b8c490 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -607,7 +607,7 @@ constexpr T max(T a, T b) noexcept
 }
 
 template <typename T, typename E>
-struct SCN_TRIVIAL_ABI expected_storage_base<T, E, false> {
+struct expected_storage_base<T, E, false> {
     constexpr expected_storage_base() noexcept : m_has_value(true)
     {
         construct();
@@ -747,7 +747,7 @@ private:
 };
 
 template <typename E>
-struct SCN_TRIVIAL_ABI expected_storage_base<void, E, false> {
+struct expected_storage_base<void, E, false> {
     constexpr expected_storage_base() noexcept : m_has_value(true) {}
 
     explicit constexpr expected_storage_base(deferred_init_tag_t) noexcept
-- 
2.43.0


From 6a925a622c3de682ff4d86cb64eed932e74b32d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:49 +0000
Subject: [PATCH 62/74] fix: let copying a value over an error compile and
 throw

---
 include/scn/scan.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 3b8c490..eca91ca 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -981,8 +981,7 @@ private:
 #if SCN_HAS_EXCEPTIONS
     void assign_value_over_unexpected(
         const expected_operations_base&
-            other) noexcept(std::is_nothrow_copy_constructible_v<T> ||
-                            std::is_nothrow_move_constructible_v<T>)
+            other) noexcept(std::is_nothrow_copy_constructible_v<T>)
     {
         if constexpr (std::is_nothrow_copy_constructible_v<T>) {
             this->destroy_unexpected();
@@ -994,11 +993,11 @@ private:
             this->construct(std::move(tmp));
         }
         else {
-            auto tmp = std::move(this->get_unexpecetd());
+            auto tmp = std::move(this->get_unexpected());
             this->destroy_unexpected();
 
             try {
-                this->construct(other.get());
+                this->construct(other.get_value());
             }
             catch (...) {
                 this->construct_unexpected(std::move(tmp));
@@ -1030,10 +1029,10 @@ private:
     }
 #else
     template <typename Other>
-    void assing_value_over_unexpected(Other&& other) noexcept
+    void assign_value_over_unexpected(Other&& other) noexcept
     {
         this->destroy_unexpected();
-        this->construct_value(std::forward<Other>(other).get_value());
+        this->construct(std::forward<Other>(other).get_value());
     }
 #endif
 
-- 
2.43.0


From 9b0fe2374c33719f2e898a7e4caaf3bf0fa1bced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:49 +0000
Subject: [PATCH 63/74] fix: keep the error or value when expected::emplace
 throws, and release it otherwise

---
 include/scn/scan.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index eca91ca..cf31f5e 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -1993,12 +1993,22 @@ private:
         std::is_nothrow_constructible_v<T, Args&&...>)
     {
         if (this->has_value()) {
-            this->destroy_value();
-            this->construct(std::forward<Args>(args)...);
+            if constexpr (std::is_nothrow_constructible_v<T, Args&&...>) {
+                this->destroy_value();
+                this->construct(std::forward<Args>(args)...);
+            }
+            else if constexpr (std::is_nothrow_move_constructible_v<T>) {
+                T tmp(std::forward<Args>(args)...);
+                this->destroy_value();
+                this->construct(std::move(tmp));
+            }
+            else {
+                this->get_value() = T(std::forward<Args>(args)...);
+            }
         }
         else {
 #if SCN_HAS_EXCEPTIONS
-            if constexpr (std::is_nothrow_constructible_v<T, Args&&...>) {
+            if constexpr (!std::is_nothrow_constructible_v<T, Args&&...>) {
                 auto tmp = std::move(error());
                 this->destroy_unexpected();
 
@@ -2011,6 +2021,7 @@ private:
                 }
             }
             else {
+                this->destroy_unexpected();
                 this->construct(std::forward<Args>(args)...);
             }
 #else
-- 
2.43.0


From c1e81e6f991bbd9673dfb6bd71c382c977ffbeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:49 +0000
Subject: [PATCH 64/74] fix: propagate an exception thrown by assigning a value
 over an error

---
 include/scn/scan.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index cf31f5e..da8b92f 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -2033,8 +2033,7 @@ private:
 
     template <typename Value>
     void assign_value(Value&& val) noexcept(
-        std::is_nothrow_constructible_v<detail::remove_cvref_t<Value>,
-                                        Value&&> &&
+        std::is_nothrow_constructible_v<T, Value&&> &&
         std::is_nothrow_assignable_v<T, Value&&>)
     {
         if (has_value()) {
@@ -2056,6 +2055,7 @@ private:
             }
             catch (...) {
                 this->construct_unexpected(std::move(tmp));
+                throw;
             }
         }
 #else
-- 
2.43.0


From fbe975e9fad14d26ec4584634d83becec198a910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:49 +0000
Subject: [PATCH 65/74] fix: keep the value when copying an error over it
 throws

---
 include/scn/scan.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index da8b92f..cb9ec9f 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -1042,8 +1042,9 @@ private:
             E,
             decltype(std::forward<Other>(other).get_unexpected())>)
     {
+        unexpected<E> tmp(std::forward<Other>(other).get_unexpected());
         this->destroy_value();
-        this->construct_unexpected(std::forward<Other>(other).get_unexpected());
+        this->construct_unexpected(std::move(tmp));
     }
 };
 
@@ -1160,8 +1161,9 @@ private:
             E,
             decltype(std::forward<Other>(other).get_unexpected())>)
     {
+        unexpected<E> tmp(std::forward<Other>(other).get_unexpected());
         this->destroy_value();
-        this->construct_unexpected(std::forward<Other>(other).get_unexpected());
+        this->construct_unexpected(std::move(tmp));
     }
 };
 
@@ -2074,8 +2076,9 @@ private:
             return;
         }
 
+        unexpected_type tmp(std::forward<Unexpected>(unex));
         this->destroy_value();
-        this->construct_unexpected(std::forward<Unexpected>(unex));
+        this->construct_unexpected(std::move(tmp));
     }
 };
 
-- 
2.43.0


From b887f61500e19356c29b65051dbf2aead56be8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:49 +0000
Subject: [PATCH 66/74] fix: allow a throwing default constructor in expected

---
 include/scn/scan.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index cb9ec9f..ce81db9 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -608,7 +608,9 @@ constexpr T max(T a, T b) noexcept
 
 template <typename T, typename E>
 struct expected_storage_base<T, E, false> {
-    constexpr expected_storage_base() noexcept : m_has_value(true)
+    constexpr expected_storage_base() noexcept(
+        std::is_nothrow_default_constructible_v<T>)
+        : m_has_value(true)
     {
         construct();
     }
-- 
2.43.0


From 8d32fe11a371a9227c0a01751d599c3a44be78c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:49 +0000
Subject: [PATCH 67/74] fix: construct a converted expected in empty storage

---
 include/scn/scan.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index ce81db9..d676f13 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -1639,7 +1639,8 @@ public:
     explicit constexpr expected(const expected<U, G>& other) noexcept(
         std::is_nothrow_constructible_v<T, const U&> &&
         std::is_nothrow_constructible_v<E, const G&>)
-        : base(), ctor_base(detail::non_default_ctor_tag_t{})
+        : base(detail::deferred_init_tag),
+          ctor_base(detail::non_default_ctor_tag_t{})
     {
         if (other.has_value()) {
             this->construct(*other);
@@ -1657,7 +1658,8 @@ public:
     constexpr expected(const expected<U, G>& other) noexcept(
         std::is_nothrow_constructible_v<T, const U&> &&
         std::is_nothrow_constructible_v<E, const G&>)
-        : base(), ctor_base(detail::non_default_ctor_tag_t{})
+        : base(detail::deferred_init_tag),
+          ctor_base(detail::non_default_ctor_tag_t{})
     {
         if (other.has_value()) {
             this->construct(*other);
@@ -1675,7 +1677,8 @@ public:
     explicit constexpr expected(expected<U, G>&& other) noexcept(
         std::is_nothrow_constructible_v<T, U&&> &&
         std::is_nothrow_constructible_v<E, G&&>)
-        : base(), ctor_base(detail::non_default_ctor_tag_t{})
+        : base(detail::deferred_init_tag),
+          ctor_base(detail::non_default_ctor_tag_t{})
     {
         if (other.has_value()) {
             this->construct(std::move(*other));
@@ -1692,7 +1695,8 @@ public:
     constexpr expected(expected<U, G>&& other) noexcept(
         std::is_nothrow_constructible_v<T, U&&> &&
         std::is_nothrow_constructible_v<E, G&&>)
-        : base(), ctor_base(detail::non_default_ctor_tag_t{})
+        : base(detail::deferred_init_tag),
+          ctor_base(detail::non_default_ctor_tag_t{})
     {
         if (other.has_value()) {
             this->construct(std::move(*other));
-- 
2.43.0


From 3ca720f9c26a0ce1c74962260e1725fc11be5f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:49 +0000
Subject: [PATCH 68/74] fix: do not destroy what a throwing copy of an expected
 never made

---
 include/scn/scan.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index d676f13..2386ba3 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -616,7 +616,7 @@ struct expected_storage_base<T, E, false> {
     }
 
     explicit constexpr expected_storage_base(deferred_init_tag_t) noexcept
-        : m_has_value(false)
+        : m_has_value(false), m_is_empty(true)
     {
     }
 
@@ -645,7 +645,7 @@ struct expected_storage_base<T, E, false> {
         if (has_value()) {
             destroy_value();
         }
-        else {
+        else if (!m_is_empty) {
             destroy_unexpected();
         }
     }
@@ -703,6 +703,7 @@ struct expected_storage_base<T, E, false> {
         scn::detail::construct_at(unexpected_ptr(),
                                   std::forward<Args>(args)...);
         m_has_value = false;
+        m_is_empty = false;
     }
 
     void destroy_value() noexcept
@@ -746,6 +747,8 @@ private:
 
     alignas(required_alignment) unsigned char m_memory[required_size];
     bool m_has_value;
+    // Only while a constructor has not yet put anything into m_memory
+    bool m_is_empty{false};
 };
 
 template <typename E>
@@ -753,7 +756,7 @@ struct expected_storage_base<void, E, false> {
     constexpr expected_storage_base() noexcept : m_has_value(true) {}
 
     explicit constexpr expected_storage_base(deferred_init_tag_t) noexcept
-        : m_has_value(false)
+        : m_has_value(false), m_is_empty(true)
     {
     }
 
@@ -774,7 +777,7 @@ struct expected_storage_base<void, E, false> {
 
     ~expected_storage_base()
     {
-        if (!has_value()) {
+        if (!has_value() && !m_is_empty) {
             destroy_unexpected();
         }
     }
@@ -813,6 +816,7 @@ struct expected_storage_base<void, E, false> {
         scn::detail::construct_at(unexpected_ptr(),
                                   std::forward<Args>(args)...);
         m_has_value = false;
+        m_is_empty = false;
     }
 
     static constexpr void destroy_value() noexcept {}
@@ -839,6 +843,8 @@ private:
 
     alignas(required_alignment) unsigned char m_memory[required_size];
     bool m_has_value;
+    // Only while a constructor has not yet put anything into m_memory
+    bool m_is_empty{false};
 };
 
 template <typename T, typename U>
-- 
2.43.0


From 5f2edb9d0be09701a983cad58a3ac9f365e216ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:49 +0000
Subject: [PATCH 69/74] fix: let a scan_result be made and assigned from one
 with another range type

---
 include/scn/scan.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 2386ba3..f9e4cd5 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -6534,7 +6534,7 @@ protected:
     template <typename Other>
     void assign_range(Other&& r)
     {
-        m_range = r.m_range;
+        m_range = range_type(r.range());
     }
 
 private:
@@ -6681,7 +6681,7 @@ public:
                   std::is_convertible_v<const OtherR&, range_type>>* = nullptr>
     SCN_IMPLICIT scan_result(const scan_result<OtherR, Args...>& o)
         : range_base(detail::scan_result_convert_tag{}, o.range()),
-          value_base(o.values())
+          value_base(tuple_type(o.values()))
     {
     }
     template <typename OtherR,
@@ -6690,7 +6690,7 @@ public:
                   !std::is_convertible_v<const OtherR&, range_type>>* = nullptr>
     explicit scan_result(const scan_result<OtherR, Args...>& o)
         : range_base(detail::scan_result_convert_tag{}, o.range()),
-          value_base(o.values())
+          value_base(tuple_type(o.values()))
     {
     }
 
-- 
2.43.0


From 98ec692f0f5afe4e661947e03679b8018f0dfa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:36 +0000
Subject: [PATCH 70/74] fix: read a character from the source only when it's
 asked for

Advancing an iterator over a buffered source fetched the next character
right away, so scanning a char, or a double followed by a newline, from a
terminal or a pipe waited for input the result didn't depend on.
---
 include/scn/scan.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index f9e4cd5..dc2070a 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -4539,8 +4539,9 @@ public:
 
     forward_iterator& operator++()
     {
+        // The character there is read only once it's asked for:
+        // the source may have to wait for it
         ++m_position;
-        (void)read_at_position();
         return *this;
     }
 
-- 
2.43.0


From 44a82054dcb2afe11cf4c0be2c835aba7cb48c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:36 +0000
Subject: [PATCH 71/74] fix: don't read past the first mismatch when matching
 words

Reading a floating-point number or a textual bool took as many characters
as the words "inf", "nan", "true" and "false" have, before comparing
them: scanning a double from "1\n" on a terminal waited for another line.
---
 src/scn/impl.h | 63 ++++++++++++++++++++++----------------------------
 1 file changed, 28 insertions(+), 35 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 6362ed8..25729a9 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -2309,13 +2309,16 @@ auto read_matching_string(Range range,
                           std::basic_string_view<detail::char_t<Range>> str)
     -> parse_expected<ranges::const_iterator_t<Range>>
 {
-    SCN_TRY(it, read_exactly_n_code_units(
-                    range, static_cast<std::ptrdiff_t>(str.size()))
-                    .transform_error(make_eof_parse_error));
-
-    auto sv = make_contiguous_buffer(ranges::subrange{range.begin(), it});
-    if (SCN_UNLIKELY(sv.view() != str)) {
-        return unexpected(parse_error::error);
+    // Stop at the first mismatch: what's after it may not be available yet
+    auto it = range.begin();
+    for (auto ch : str) {
+        if (SCN_UNLIKELY(it == range.end())) {
+            return unexpected(parse_error::eof);
+        }
+        if (SCN_UNLIKELY(*it != ch)) {
+            return unexpected(parse_error::error);
+        }
+        ++it;
     }
     return it;
 }
@@ -2324,27 +2327,17 @@ template <typename Range>
 auto read_matching_string_classic(Range range, std::string_view str)
     -> parse_expected<ranges::const_iterator_t<Range>>
 {
-    SCN_TRY(it, read_exactly_n_code_units(
-                    range, static_cast<std::ptrdiff_t>(str.size()))
-                    .transform_error(make_eof_parse_error));
-
-    if constexpr (std::is_same_v<detail::char_t<Range>, char>) {
-        auto sv = make_contiguous_buffer(ranges::subrange{range.begin(), it});
-        if (SCN_UNLIKELY(sv.view() != str)) {
-            return unexpected(parse_error::error);
+    auto it = range.begin();
+    for (auto ch : str) {
+        if (SCN_UNLIKELY(it == range.end())) {
+            return unexpected(parse_error::eof);
         }
-        return it;
-    }
-    else {
-        auto range_it = range.begin();
-        for (size_t i = 0; i < str.size(); ++i, (void)++range_it) {
-            if (SCN_UNLIKELY(*range_it !=
-                             static_cast<detail::char_t<Range>>(str[i]))) {
-                return unexpected(parse_error::error);
-            }
+        if (SCN_UNLIKELY(*it != static_cast<detail::char_t<Range>>(ch))) {
+            return unexpected(parse_error::error);
         }
-        return it;
+        ++it;
     }
+    return it;
 }
 
 // Ripped from fast_float
@@ -2382,16 +2375,16 @@ auto read_matching_string_classic_nocase(Range range, std::string_view str)
                                           static_cast<char_type>('a' - 'A'));
         };
 
-        SCN_TRY(it, read_exactly_n_code_units(
-                        range, static_cast<std::ptrdiff_t>(str.size()))
-                        .transform_error(make_eof_parse_error));
-
-        if (SCN_UNLIKELY(!std::equal(
-                range.begin(), it, str.begin(), [&](auto a, auto b) {
-                    return ascii_tolower(a) ==
-                           static_cast<detail::char_t<Range>>(b);
-                }))) {
-            return unexpected(parse_error::error);
+        // Stop at the first mismatch: what's after it may not be available yet
+        auto it = range.begin();
+        for (auto ch : str) {
+            if (SCN_UNLIKELY(it == range.end())) {
+                return unexpected(parse_error::eof);
+            }
+            if (ascii_tolower(*it) != static_cast<char_type>(ch)) {
+                return unexpected(parse_error::error);
+            }
+            ++it;
         }
 
         return it;
-- 
2.43.0


From b5bab53377827507c3980621af9ccdff8eb6de72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:36 +0000
Subject: [PATCH 72/74] fix: don't read past the first mismatch when skipping
 fill characters

---
 src/scn/impl.h | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 25729a9..e0c1110 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -2138,17 +2138,15 @@ auto read_while_code_units(Range range, const CodeUnits& needle)
 
     auto it = range.begin();
     while (it != range.end()) {
-        auto r = read_exactly_n_code_units(ranges::subrange{it, range.end()},
-                                           needle.size());
-        if (!r) {
-            return it;
-        }
-        static_assert(
-            std::is_same_v<decltype(it), detail::remove_cvref_t<decltype(*r)>>);
-        if (!std::equal(it, *r, needle.begin())) {
-            return it;
+        // Stop at the first mismatch: what's after it may not be available yet
+        auto needle_end_it = it;
+        for (auto ch : needle) {
+            if (needle_end_it == range.end() || *needle_end_it != ch) {
+                return it;
+            }
+            ++needle_end_it;
         }
-        it = *r;
+        it = needle_end_it;
     }
     SCN_ENSURE(it == range.end());
     return it;
-- 
2.43.0


From ba9fb652ee462f4688a2dd3c5228b06bbc861de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:36 +0000
Subject: [PATCH 73/74] fix: don't look past a field that has no postfix to
 skip

---
 src/scn/impl.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index e0c1110..4911c77 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -6184,6 +6184,9 @@ struct arg_reader {
                 specs.precision - value_width - prefix_width == 0) {
                 return result_type{rng.begin(), 0};
             }
+            if (rng.begin() == rng.end()) {
+                return result_type{rng.begin(), 0};
+            }
             return skip_fill(rng, specs.precision - value_width - prefix_width,
                              specs.fill, need_skipped_width);
         }
@@ -6192,6 +6195,9 @@ struct arg_reader {
             ((specs.width != 0 && prefix_width + value_width < specs.width) ||
              (specs.precision != 0 &&
               prefix_width + value_width < specs.precision))) {
+            if (rng.begin() == rng.end()) {
+                return result_type{rng.begin(), 0};
+            }
             if (specs.precision != 0) {
                 const auto initial_width =
                     specs.precision - prefix_width - value_width;
@@ -6267,14 +6273,14 @@ struct arg_reader {
         }
 
         // Read postfix
+        // impl_postfix looks at the source only if there can be a postfix:
+        // past the value, the source may not be available yet
         std::ptrdiff_t postfix_width = 0;
-        if (it != rng.end()) {
-            SCN_TRY(postfix_result,
-                    impl_postfix(ranges::subrange{it, rng.end()},
-                                 rd.skip_ws_before_read(), prefix_width,
-                                 value_width));
-            std::tie(it, postfix_width) = postfix_result;
-        }
+        SCN_TRY(postfix_result,
+                impl_postfix(ranges::subrange{it, rng.end()},
+                             rd.skip_ws_before_read(), prefix_width,
+                             value_width));
+        std::tie(it, postfix_width) = postfix_result;
 
         SCN_TRY_DISCARD(check_widths_for_arg_reader(
             specs, prefix_width, value_width, postfix_width));
-- 
2.43.0


From 7e4e579ac8a5a2b37021c253d99da92ed640727e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:47 +0000
Subject: [PATCH 74/74] fix: compare base prefixes exactly, not up to the bit
 0x20

---
 src/scn/impl.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 4911c77..105dd94 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -2338,14 +2338,18 @@ auto read_matching_string_classic(Range range, std::string_view str)
     return it;
 }
 
-// Ripped from fast_float
+// Precondition: b is in lower case
 constexpr bool fast_streq_nocase(const char* a, const char* b, size_t len)
 {
-    unsigned char running_diff{0};
     for (size_t i = 0; i < len; ++i) {
-        running_diff |= static_cast<unsigned char>(a[i] ^ b[i]);
+        // Only letters have a case:
+        // '0' and '\x10' also differ by nothing but the bit 0x20
+        const bool is_upper = a[i] >= 'A' && a[i] <= 'Z';
+        if ((is_upper ? static_cast<char>(a[i] ^ 0x20) : a[i]) != b[i]) {
+            return false;
+        }
     }
-    return running_diff == 0 || running_diff == 32;
+    return true;
 }
 
 template <typename Range>
-- 
2.43.0

