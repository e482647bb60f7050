From a9887fb5fcdc512bafab06191862c187f7871b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 01/26] fix: check that a string's bytes are available before
 allocating them

---
 include/eosio/from_bin.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/eosio/from_bin.hpp b/include/eosio/from_bin.hpp
index 2326049..6cbd3b4 100644
--- a/include/eosio/from_bin.hpp
+++ b/include/eosio/from_bin.hpp
@@ -168,6 +168,7 @@ template <typename S>
 inline void from_bin(std::string& obj, S& stream) {
    uint32_t size;
    varuint32_from_bin(size, stream);
+   stream.check_available(size);
    obj.resize(size);
    stream.read(obj.data(), obj.size());
 }
-- 
2.43.0


From 2f8d72d423f0e39012b1cfbdd332ea0c4e0758d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 02/26] fix: do not allocate a claimed vector size before its
 elements are read

---
 include/eosio/from_bin.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/eosio/from_bin.hpp b/include/eosio/from_bin.hpp
index 6cbd3b4..6eb998d 100644
--- a/include/eosio/from_bin.hpp
+++ b/include/eosio/from_bin.hpp
@@ -108,9 +108,10 @@ void from_bin(std::vector<T>& v, S& stream) {
    } else {
       uint32_t size;
       varuint32_from_bin(size, stream);
-      v.resize(size);
+      v.clear();
       for (size_t i = 0; i < size; ++i) {
-         from_bin(v[i], stream);
+         v.emplace_back();
+         from_bin(v.back(), stream);
       }
    }
 }
-- 
2.43.0


From 5e48e9d6ef2573193efd14ca0ed33448b0825e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 03/26] fix: accept subnormal floating-point numbers in JSON

---
 include/eosio/from_json.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/eosio/from_json.hpp b/include/eosio/from_json.hpp
index 448f39d..57407af 100644
--- a/include/eosio/from_json.hpp
+++ b/include/eosio/from_json.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cmath>
 #include <cstdlib>
 #include "for_each_field.hpp"
 #include "check.hpp"
@@ -485,7 +486,8 @@ void from_json(float& result, S& stream) {
    errno = 0;
    char* end;
    result = std::strtof(s.c_str(), &end);
-   check( !errno && end == s.c_str() + s.size(),
+   // ERANGE is also set for subnormal results, which are in range
+   check( (!errno || std::abs(result) < 1) && end == s.c_str() + s.size(),
          convert_json_error(from_json_error::expected_number) );
 }
 
@@ -497,7 +499,9 @@ void from_json(double& result, S& stream) {
    errno = 0;
    char* end;
    result = std::strtod(s.c_str(), &end);
-   check( !errno && end == s.c_str() + s.size(), convert_json_error(from_json_error::expected_number) );
+   // ERANGE is also set for subnormal results, which are in range
+   check( (!errno || std::abs(result) < 1) && end == s.c_str() + s.size(),
+         convert_json_error(from_json_error::expected_number) );
 }
 
 /*
-- 
2.43.0


From c9025daa0de96312cae144d635843f511f75d622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 04/26] fix: avoid signed overflow when printing the most
 negative asset amount

---
 include/eosio/chain_conversions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eosio/chain_conversions.hpp b/include/eosio/chain_conversions.hpp
index 42c3353..bbd95a0 100644
--- a/include/eosio/chain_conversions.hpp
+++ b/include/eosio/chain_conversions.hpp
@@ -426,7 +426,7 @@ inline std::string asset_to_string(int64_t amount, uint64_t symbol) {
    std::string result;
    uint64_t    uamount;
    if (amount < 0)
-      uamount = -amount;
+      uamount = -uint64_t(amount);
    else
       uamount = amount;
    uint8_t precision = symbol;
-- 
2.43.0


From c307d2d47fe2e842682d024825a41ac5171732a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 05/26] fix: reject asset text whose amount or precision does
 not fit

---
 include/eosio/chain_conversions.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/eosio/chain_conversions.hpp b/include/eosio/chain_conversions.hpp
index bbd95a0..8486bac 100644
--- a/include/eosio/chain_conversions.hpp
+++ b/include/eosio/chain_conversions.hpp
@@ -2,6 +2,7 @@
 
 #include "stream.hpp"
 #include <chrono>
+#include <limits>
 #include <stdint.h>
 #include <string>
 #include <string_view>
@@ -389,7 +390,6 @@ inline std::string symbol_to_string(uint64_t v) {
 
 [[nodiscard]] inline bool string_to_asset(int64_t& amount, uint64_t& symbol, const char*& s, const char* end,
                                           bool expect_end) {
-   // todo: check overflow
    while (s != end && *s == ' ') //
       ++s;
    uint64_t uamount   = 0;
@@ -399,12 +399,22 @@ inline std::string symbol_to_string(uint64_t v) {
       ++s;
       negative = true;
    }
-   while (s != end && *s >= '0' && *s <= '9') //
-      uamount = uamount * 10 + (*s++ - '0');
+   const uint64_t limit = uint64_t(std::numeric_limits<int64_t>::max()) + negative;
+   auto append_digit = [&](char c) {
+      uint64_t digit = c - '0';
+      if (uamount > (limit - digit) / 10)
+         return false;
+      uamount = uamount * 10 + digit;
+      return true;
+   };
+   while (s != end && *s >= '0' && *s <= '9')
+      if (!append_digit(*s++))
+         return false;
    if (s != end && *s == '.') {
       ++s;
       while (s != end && *s >= '0' && *s <= '9') {
-         uamount = uamount * 10 + (*s++ - '0');
+         if (!append_digit(*s++) || precision == std::numeric_limits<uint8_t>::max())
+            return false;
          ++precision;
       }
    }
-- 
2.43.0


From 9696d023ef9f00da1191235d111098df55e65a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 06/26] fix: reject symbol text whose precision does not fit

---
 include/eosio/chain_conversions.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/eosio/chain_conversions.hpp b/include/eosio/chain_conversions.hpp
index 8486bac..d2ee9ed 100644
--- a/include/eosio/chain_conversions.hpp
+++ b/include/eosio/chain_conversions.hpp
@@ -371,6 +371,8 @@ inline std::string symbol_code_to_string(uint64_t v) {
    uint8_t precision = 0;
    bool    found     = false;
    while (pos != end && *pos >= '0' && *pos <= '9') {
+      if (precision > (std::numeric_limits<uint8_t>::max() - (*pos - '0')) / 10)
+         return false;
       precision = precision * 10 + (*pos - '0');
       found     = true;
       ++pos;
-- 
2.43.0


From 0eb540f62f892b5578a544e88b2109ce5ce8af7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 07/26] fix: reject date-time text that is malformed or out of
 range instead of wrapping it

---
 include/eosio/chain_conversions.hpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/eosio/chain_conversions.hpp b/include/eosio/chain_conversions.hpp
index d2ee9ed..61234fe 100644
--- a/include/eosio/chain_conversions.hpp
+++ b/include/eosio/chain_conversions.hpp
@@ -264,7 +264,7 @@ inline std::string microseconds_to_str(uint64_t microseconds) {
    return result;
 }
 
-[[nodiscard]] inline bool string_to_utc_seconds(uint32_t& result, const char*& s, const char* end, bool eat_fractional,
+[[nodiscard]] inline bool string_to_utc_seconds(int64_t& result, const char*& s, const char* end, bool eat_fractional,
                                                 bool require_end) {
    auto parse_uint = [&](uint32_t& result, int digits) {
       result = 0;
@@ -299,7 +299,14 @@ inline std::string microseconds_to_str(uint64_t microseconds) {
       return false;
    if (!parse_uint(sec, 2))
       return false;
-   result = sys_days(year_month_day{year_t{y}, month_t{m}, day_t{d}}.to_days()).time_since_epoch().count() * 86400 + h * 3600 + min * 60 + sec;
+   if (m < 1 || m > 12 || d < 1 || h > 23 || min > 59 || sec > 59)
+      return false;
+   auto date         = year_month_day{year_t{y}, month_t{m}, day_t{d}};
+   auto days_in_date = date.to_days();
+   // a day past the end of its month denotes a day of another month
+   if (year_month_day{sys_days(days_in_date)}.month() != m)
+      return false;
+   result = int64_t(days_in_date.count()) * 86400 + h * 3600 + min * 60 + sec;
    if (eat_fractional && s != end && *s == '.') {
       ++s;
       while (s != end && *s >= '0' && *s <= '9') ++s;
@@ -307,16 +314,25 @@ inline std::string microseconds_to_str(uint64_t microseconds) {
    return s == end || !require_end;
 }
 
+[[nodiscard]] inline bool string_to_utc_seconds(uint32_t& result, const char*& s, const char* end, bool eat_fractional,
+                                                bool require_end) {
+   int64_t sec;
+   if (!string_to_utc_seconds(sec, s, end, eat_fractional, require_end))
+      return false;
+   result = sec;
+   return sec >= 0 && sec <= std::numeric_limits<uint32_t>::max();
+}
+
 [[nodiscard]] inline bool string_to_utc_seconds(uint32_t& result, const char* s, const char* end) {
    return string_to_utc_seconds(result, s, end, true, true);
 }
 
 [[nodiscard]] inline bool string_to_utc_microseconds(uint64_t& result, const char*& s, const char* end,
                                                      bool require_end) {
-   uint32_t sec;
+   int64_t sec;
    if (!string_to_utc_seconds(sec, s, end, false, false))
       return false;
-   result = sec * 1000000ull;
+   result = sec * 1000000ll;
    if (s == end)
       return true;
    if (*s != '.')
-- 
2.43.0


From 0c91d4fe62a64f2c4ffd9aecc3519645cc76805e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 08/26] fix: reject block timestamp text outside the range of
 slots instead of wrapping it

---
 include/eosio/time.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/eosio/time.hpp b/include/eosio/time.hpp
index c021595..86a545d 100644
--- a/include/eosio/time.hpp
+++ b/include/eosio/time.hpp
@@ -253,6 +253,9 @@ template <typename S>
 void from_json(block_timestamp& obj, S& stream) {
    time_point tp;
    from_json(tp, stream);
+   int64_t msec = tp.time_since_epoch().count() / 1000 - block_timestamp::block_timestamp_epoch;
+   check( msec >= 0 && msec / block_timestamp::block_interval_ms <= std::numeric_limits<uint32_t>::max(),
+         convert_json_error(from_json_error::expected_time_point) );
    obj = block_timestamp(tp);
 }
 
-- 
2.43.0


From d25e2bf5da1a657a4ab7ae88e1c82561df994384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 09/26] fix: do not copy arbitrary bytes into a bool when
 decoding

---
 include/eosio/from_bin.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/eosio/from_bin.hpp b/include/eosio/from_bin.hpp
index 6eb998d..c9d808b 100644
--- a/include/eosio/from_bin.hpp
+++ b/include/eosio/from_bin.hpp
@@ -18,6 +18,14 @@ namespace eosio {
 template <typename T, typename S>
 void from_bin(T& obj, S& stream);
 
+// Any nonzero byte is true; copying it into a bool would be undefined
+template <typename S>
+void from_bin(bool& obj, S& stream) {
+   uint8_t b;
+   stream.read(&b, 1);
+   obj = b != 0;
+}
+
 template <typename S>
 void varuint32_from_bin(uint32_t& dest, S& stream) {
    dest          = 0;
-- 
2.43.0


From 986dc9145dcf372e3ade846cb2532b823b9c0ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 10/26] fix: keep the declared names of variant alternatives
 when exporting an ABI

---
 src/abi.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/abi.cpp b/src/abi.cpp
index 2c5d5b7..695f5f9 100644
--- a/src/abi.cpp
+++ b/src/abi.cpp
@@ -257,8 +257,8 @@ void to_abi_def(abi_def& def, const std::string& name, const abi_type::struct_&
 
 void to_abi_def(abi_def& def, const std::string& name, const abi_type::variant& variant) {
    std::vector<std::string> types;
-   for(const auto& [name, type] : variant) {
-      types.push_back(type->name);
+   for(const auto& alternative : variant) {
+      types.push_back(alternative.name);
    }
    def.variants.value.push_back({name, std::move(types)});
 }
-- 
2.43.0


From ec862fcf90c2daf12237622a63a6ae559fc5ca8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 11/26] fix: do not accept NUL as a base58 digit

---
 include/eosio/abieos_numeric.hpp | 2 +-
 src/crypto.cpp                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eosio/abieos_numeric.hpp b/include/eosio/abieos_numeric.hpp
index acc8724..04096b2 100644
--- a/include/eosio/abieos_numeric.hpp
+++ b/include/eosio/abieos_numeric.hpp
@@ -32,7 +32,7 @@ inline constexpr auto create_base58_map() {
     std::array<int8_t, 256> base58_map{{0}};
     for (unsigned i = 0; i < base58_map.size(); ++i)
         base58_map[i] = -1;
-    for (unsigned i = 0; i < sizeof(base58_chars); ++i)
+    for (unsigned i = 0; i < sizeof(base58_chars) - 1; ++i)
         base58_map[base58_chars[i]] = i;
     return base58_map;
 }
diff --git a/src/crypto.cpp b/src/crypto.cpp
index df10ad6..106e9ad 100644
--- a/src/crypto.cpp
+++ b/src/crypto.cpp
@@ -27,7 +27,7 @@ constexpr auto create_base58_map() {
     std::array<int8_t, 256> base58_map{{0}};
     for (unsigned i = 0; i < base58_map.size(); ++i)
         base58_map[i] = -1;
-    for (unsigned i = 0; i < sizeof(base58_chars); ++i)
+    for (unsigned i = 0; i < sizeof(base58_chars) - 1; ++i)
         base58_map[base58_chars[i]] = i;
     return base58_map;
 }
-- 
2.43.0


From c14afa7c291f91d956c9338d5efe8545d6101f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 12/26] fix: reject key text with data after the key

---
 src/crypto.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/crypto.cpp b/src/crypto.cpp
index 106e9ad..c461133 100644
--- a/src/crypto.cpp
+++ b/src/crypto.cpp
@@ -106,7 +106,12 @@ Key string_to_key(std::string_view s, key_type type, std::string_view suffix) {
     check(memcmp(ripe_digest.data(), whole.data() + whole.size() - 4, 4)==0,
         convert_json_error(from_json_error::expected_key));
     whole.erase(whole.end() - 4, whole.end());
-    return convert_from_bin<Key>(whole);
+    input_stream stream{whole};
+    Key result;
+    from_bin(result, stream);
+    check(stream.remaining() == 0,
+        convert_json_error(from_json_error::expected_key));
+    return result;
 }
 
 template <typename Key>
-- 
2.43.0


From f98135c441ce25887d96f1e0f09be186230ae577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 13/26] fix: do not pass null pointers to memcpy for empty
 reads and writes

---
 include/eosio/stream.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/eosio/stream.hpp b/include/eosio/stream.hpp
index 043e5be..8f9c6e4 100644
--- a/include/eosio/stream.hpp
+++ b/include/eosio/stream.hpp
@@ -100,7 +100,8 @@ struct fixed_buf_stream {
 
    void write(const void* src, std::size_t sz) {
       check( pos + sz <= end, convert_stream_error(stream_error::overrun) );
-      memcpy(pos, src, sz);
+      if (sz)
+         memcpy(pos, src, sz);
       pos += sz;
    }
 
@@ -207,7 +208,8 @@ struct input_stream {
 
    void read(void* dest, size_t size) {
       check( size <= size_t(end-pos), convert_stream_error(stream_error::overrun) );
-      memcpy(dest, pos, size);
+      if (size)
+         memcpy(dest, pos, size);
       pos += size;
    }
 
-- 
2.43.0


From f60a16312efa214d915cb28f40e14ae04851e67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 14/26] fix: require every member omitted at the end of an
 object to be an extension

---
 src/abieos.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/abieos.hpp b/src/abieos.hpp
index 1c25578..add4191 100644
--- a/src/abieos.hpp
+++ b/src/abieos.hpp
@@ -779,7 +779,7 @@ inline void json_to_bin(pseudo_object*, json_to_bin_state& state, bool allow_ext
     auto& stack_entry = state.stack.back();
     const std::vector<eosio::abi_field>& fields = type->as_struct()->fields;
     if (state.get_end_object_pred()) {
-        if (stack_entry.position + 1 != (ptrdiff_t)fields.size()) {
+        while (stack_entry.position + 1 != (ptrdiff_t)fields.size()) {
             auto& field = fields[stack_entry.position + 1];
             if (!field.type->extension_of() || !allow_extensions) {
                 stack_entry.position = -1;
-- 
2.43.0


From 50ffe866111cce67eb7af059912406082ffa8a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 15/26] fix: reject binary that omits an extension but has a
 later member

---
 src/abieos.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/abieos.hpp b/src/abieos.hpp
index add4191..c0ba9d4 100644
--- a/src/abieos.hpp
+++ b/src/abieos.hpp
@@ -936,6 +936,8 @@ inline void bin_to_json(pseudo_object*, bin_to_json_state& state, bool allow_ext
             state.skipped_extension = true;
             return;
         }
+        eosio::check(!state.skipped_extension,
+            eosio::convert_stream_error(eosio::stream_error::overrun));
         if(stack_entry.position != 0) { state.writer.write(','); };
         to_json(field.name, state.writer);
         state.writer.write(':');
-- 
2.43.0


From ae73a07b51beff27751edc48799ecf46d82d025f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 16/26] fix: print large negative floating-point values without
 overrunning the buffer

fpconv writes an integral value of up to 24 digits in plain notation, so with
its sign it needs 25 characters; -2.6885010793284233e+23 overran the 24-byte
buffer in fp_to_json.
---
 include/eosio/fpconv.c    |  2 +-
 include/eosio/fpconv.h    | 10 +++++-----
 include/eosio/to_json.hpp |  2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/eosio/fpconv.c b/include/eosio/fpconv.c
index 54c6d6f..e708b03 100644
--- a/include/eosio/fpconv.c
+++ b/include/eosio/fpconv.c
@@ -308,7 +308,7 @@ static int filter_special(double fp, char* dest)
     return 3;
 }
 
-int fpconv_dtoa(double d, char dest[24])
+int fpconv_dtoa(double d, char dest[26])
 {
     char digits[18];
 
diff --git a/include/eosio/fpconv.h b/include/eosio/fpconv.h
index 5c9dc78..e2979ea 100644
--- a/include/eosio/fpconv.h
+++ b/include/eosio/fpconv.h
@@ -10,8 +10,8 @@
  *
  * Input:
  * fp -> the double to convert, dest -> destination buffer.
- * The generated string will never be longer than 24 characters.
- * Make sure to pass a pointer to at least 24 bytes of memory.
+ * The generated string will never be longer than 26 characters.
+ * Make sure to pass a pointer to at least 26 bytes of memory.
  * The emitted string will not be null terminated.
  *
  * Output:
@@ -21,7 +21,7 @@
  *
  * void print(double d)
  * {
- *      char buf[24 + 1] // plus null terminator
+ *      char buf[26 + 1] // plus null terminator
  *      int str_len = fpconv_dtoa(d, buf);
  *
  *      buf[str_len] = '\0';
@@ -31,9 +31,9 @@
  */
 
 #   ifdef __cplusplus
-extern "C" int fpconv_dtoa(double fp, char dest[24]);
+extern "C" int fpconv_dtoa(double fp, char dest[26]);
 #   else
-int fpconv_dtoa(double fp, char dest[24]);
+int fpconv_dtoa(double fp, char dest[26]);
 #   endif
 
 #endif
diff --git a/include/eosio/to_json.hpp b/include/eosio/to_json.hpp
index 3c62ef9..5d014f2 100644
--- a/include/eosio/to_json.hpp
+++ b/include/eosio/to_json.hpp
@@ -118,7 +118,7 @@ void fp_to_json(double value, S& stream) {
    } else if (std::isnan(value)) {
       stream.write("\"NaN\"", 5);
    } else {
-      small_buffer<24> b; // fpconv_dtoa generates at most 24 characters
+      small_buffer<26> b; // fpconv_dtoa generates at most 26 characters
       int              n = fpconv_dtoa(value, b.pos);
       check( n > 0, convert_stream_error(stream_error::float_error) );
       b.pos += n;
-- 
2.43.0


From 997e3ba005601a5ddd26eb818da803b54f034e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 17/26] fix: format the earliest time points without overflow

std::chrono::floor<days> of a time less than a day after the smallest 64-bit
count multiplied past the range of int64_t.
---
 include/eosio/chain_conversions.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/eosio/chain_conversions.hpp b/include/eosio/chain_conversions.hpp
index 61234fe..551fcee 100644
--- a/include/eosio/chain_conversions.hpp
+++ b/include/eosio/chain_conversions.hpp
@@ -243,11 +243,15 @@ inline std::string microseconds_to_str(uint64_t microseconds) {
       result.insert(result.end(), s, ch);
    };
 
-   std::chrono::microseconds us{ microseconds };
-   sys_days                  sd(std::chrono::floor<days>(us));
-   auto                      ymd = year_month_day{ sd };
-   uint32_t                  ms  = (std::chrono::floor<std::chrono::milliseconds>(us) - sd.time_since_epoch()).count();
-   us -= sd.time_since_epoch();
+   constexpr int64_t us_per_day = 86'400'000'000ll;
+   int64_t           day        = int64_t(microseconds) / us_per_day;
+   int64_t           us         = int64_t(microseconds) % us_per_day;
+   if (us < 0) {
+      us += us_per_day;
+      --day;
+   }
+   auto     ymd = year_month_day{ sys_days{ days{ day } } };
+   uint32_t ms  = us / 1000;
    append_uint((int)ymd.year(), 4);
    result.push_back('-');
    append_uint((unsigned)ymd.month(), 2);
-- 
2.43.0


From 4d81e978374dc70f5ebc284a13a5e20a8048809b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:23 +0000
Subject: [PATCH 18/26] fix: reject private keys that lack the WIF version byte

Any base-58 text of the right length was accepted as a private key: the
version byte was overwritten without being looked at.
---
 src/crypto.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypto.cpp b/src/crypto.cpp
index c461133..6b3a301 100644
--- a/src/crypto.cpp
+++ b/src/crypto.cpp
@@ -174,7 +174,7 @@ private_key eosio::private_key_from_string(std::string_view s) {
     } else {
         std::vector<char> whole;
         base58_to_binary(whole, s);
-        check(whole.size() >= 5, convert_json_error(from_json_error::expected_private_key));
+        check(whole.size() >= 5 && (unsigned char)whole[0] == 0x80, convert_json_error(from_json_error::expected_private_key));
         whole[0] = key_type::k1;
         whole.erase(whole.end() - 4, whole.end());
         return convert_from_bin<private_key>(whole);
-- 
2.43.0


From 15cf6ab16af944c8ba0c41b12250963ec5d351dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:00 +0000
Subject: [PATCH 19/26] fix: do not read past the end of JSON text that stops
 inside a multi-byte character

---
 include/eosio/from_json.hpp | 23 +++++++++++++++++++++--
 src/abieos.hpp              |  2 +-
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/eosio/from_json.hpp b/include/eosio/from_json.hpp
index 57407af..b3c21d9 100644
--- a/include/eosio/from_json.hpp
+++ b/include/eosio/from_json.hpp
@@ -178,10 +178,29 @@ struct json_token {
    std::string_view value_string = {};
 };
 
+// rapidjson's UTF-8 validation takes all the bytes which a lead byte announces, even if the
+// terminating null is among them. This stream never moves past the null, and writes only what was taken.
+struct json_insitu_stream : rapidjson::InsituStringStream {
+   using rapidjson::InsituStringStream::InsituStringStream;
+   Ch   Take() { return *src_ ? *src_++ : '\0'; }
+   void Put(Ch c) {
+      if (dst_ < src_)
+         *dst_++ = c;
+   }
+};
+
+} // namespace eosio
+
+// rapidjson's in-situ number parsing relies on this, as it does for InsituStringStream
+template <>
+struct rapidjson::StreamTraits<eosio::json_insitu_stream> : rapidjson::StreamTraits<rapidjson::InsituStringStream> {};
+
+namespace eosio {
+
 class json_token_stream : public rapidjson::BaseReaderHandler<rapidjson::UTF8<>, json_token_stream> {
  private:
-   rapidjson::Reader             reader;
-   rapidjson::InsituStringStream ss;
+   rapidjson::Reader  reader;
+   json_insitu_stream ss;
 
  public:
    json_token current_token;
diff --git a/src/abieos.hpp b/src/abieos.hpp
index c0ba9d4..a6e3019 100644
--- a/src/abieos.hpp
+++ b/src/abieos.hpp
@@ -515,7 +515,7 @@ inline void json_to_jvalue(jvalue& value, std::string_view json, F&& f) {
     json_to_jvalue_state state{error};
     state.stack.push_back({&value});
     rapidjson::Reader reader;
-    rapidjson::InsituStringStream ss(mutable_json.data());
+    eosio::json_insitu_stream ss(mutable_json.data());
     eosio::check(reader.Parse<rapidjson::kParseValidateEncodingFlag | rapidjson::kParseIterativeFlag |
         rapidjson::kParseNumbersAsStringsFlag>(ss, state),
         eosio::convert_json_error(eosio::from_json_error::unspecific_syntax_error));
-- 
2.43.0


From 8633ddf22fee83494b8c1e960c3fa8ca4a59a4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:31 +0000
Subject: [PATCH 20/26] fix: decoding a container replaces its previous
 elements

---
 include/eosio/from_bin.hpp  | 3 +++
 include/eosio/from_json.hpp | 1 +
 2 files changed, 4 insertions(+)

diff --git a/include/eosio/from_bin.hpp b/include/eosio/from_bin.hpp
index c9d808b..3fe97e1 100644
--- a/include/eosio/from_bin.hpp
+++ b/include/eosio/from_bin.hpp
@@ -66,6 +66,7 @@ template <typename T, typename S>
 void from_bin_assoc(T& v, S& stream) {
    uint32_t size;
    varuint32_from_bin(size, stream);
+   v.clear();
    for (size_t i = 0; i < size; ++i) {
       typename T::value_type elem;
       from_bin(elem, stream);
@@ -77,6 +78,7 @@ template <typename T, typename S>
 void from_bin_sequence(T& v, S& stream) {
    uint32_t size;
    varuint32_from_bin(size, stream);
+   v.clear();
    for (size_t i = 0; i < size; ++i) {
       v.emplace_back();
       from_bin(v.back(), stream);
@@ -133,6 +135,7 @@ template <typename T, typename U, typename S>
 void from_bin(std::map<T, U>& v, S& stream) {
    uint32_t size;
    varuint32_from_bin(size, stream);
+   v.clear();
    for (size_t i = 0; i < size; ++i) {
       std::pair<T, U> elem;
       from_bin(elem, stream);
diff --git a/include/eosio/from_json.hpp b/include/eosio/from_json.hpp
index b3c21d9..8b35d55 100644
--- a/include/eosio/from_json.hpp
+++ b/include/eosio/from_json.hpp
@@ -563,6 +563,7 @@ void from_json(bool& result, S& stream) {
 template <typename T, typename S>
 void from_json(std::vector<T>& result, S& stream) {
    stream.get_start_array();
+   result.clear();
    while (true) {
       auto t = stream.peek_token();
       if (t.get().type == json_token_type::type_end_array)
-- 
2.43.0


From 425d7b9f8afc720729020bef828eeeb7fe8f70d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:36 +0000
Subject: [PATCH 21/26] fix: leave assets unchanged when an addition,
 subtraction or new amount is refused

---
 include/eosio/asset.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/eosio/asset.hpp b/include/eosio/asset.hpp
index 9281752..0933c98 100644
--- a/include/eosio/asset.hpp
+++ b/include/eosio/asset.hpp
@@ -74,8 +74,8 @@ struct asset {
     * @param a - New amount for the asset
     */
    void set_amount(int64_t a) {
+      eosio::check(-max_amount <= a && a <= max_amount, "magnitude of asset amount must be less than 2^62");
       amount = a;
-      eosio::check(is_amount_within_range(), "magnitude of asset amount must be less than 2^62");
    }
 
    /// @cond OPERATORS
@@ -100,9 +100,11 @@ struct asset {
     */
    asset& operator-=(const asset& a) {
       eosio::check(a.symbol == symbol, "attempt to subtract asset with different symbol");
-      amount -= a.amount;
-      eosio::check(-max_amount <= amount, "subtraction underflow");
-      eosio::check(amount <= max_amount, "subtraction overflow");
+      int64_t result;
+      bool    wraps = __builtin_sub_overflow(amount, a.amount, &result);
+      eosio::check(wraps ? amount > 0 : -max_amount <= result, "subtraction underflow");
+      eosio::check(!wraps && result <= max_amount, "subtraction overflow");
+      amount = result;
       return *this;
    }
 
@@ -115,9 +117,11 @@ struct asset {
     */
    asset& operator+=(const asset& a) {
       eosio::check(a.symbol == symbol, "attempt to add asset with different symbol");
-      amount += a.amount;
-      eosio::check(-max_amount <= amount, "addition underflow");
-      eosio::check(amount <= max_amount, "addition overflow");
+      int64_t result;
+      bool    wraps = __builtin_add_overflow(amount, a.amount, &result);
+      eosio::check(wraps ? amount > 0 : -max_amount <= result, "addition underflow");
+      eosio::check(!wraps && result <= max_amount, "addition overflow");
+      amount = result;
       return *this;
    }
 
-- 
2.43.0


From 2e7730b0ad6b52eea1ccb89f95ba266dba87ef9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:36 +0000
Subject: [PATCH 22/26] fix: refuse to negate or divide the one asset amount
 for which that overflows

---
 include/eosio/asset.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/eosio/asset.hpp b/include/eosio/asset.hpp
index 0933c98..7c4f26e 100644
--- a/include/eosio/asset.hpp
+++ b/include/eosio/asset.hpp
@@ -86,6 +86,7 @@ struct asset {
     * @return asset - New asset with its amount is the negative amount of this asset
     */
    asset operator-() const {
+      eosio::check(amount != std::numeric_limits<int64_t>::min(), "negation overflow");
       asset r  = *this;
       r.amount = -r.amount;
       return r;
@@ -241,6 +242,7 @@ struct asset {
    friend int64_t operator/(const asset& a, const asset& b) {
       eosio::check(b.amount != 0, "divide by zero");
       eosio::check(a.symbol == b.symbol, "comparison of assets with different symbols is not allowed");
+      eosio::check(!(a.amount == std::numeric_limits<int64_t>::min() && b.amount == -1), "signed division overflow");
       return a.amount / b.amount;
    }
 
-- 
2.43.0


From dab834d94360bc2563fe1b0edc5a49552c91f874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:01 +0000
Subject: [PATCH 23/26] fix: reject empty decimal text in the portable 128-bit
 integer conversion

---
 include/eosio/abieos_numeric.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/eosio/abieos_numeric.hpp b/include/eosio/abieos_numeric.hpp
index 04096b2..dbad56f 100644
--- a/include/eosio/abieos_numeric.hpp
+++ b/include/eosio/abieos_numeric.hpp
@@ -57,6 +57,7 @@ void negate(std::array<uint8_t, size>& a) {
 template <auto size>
 inline void decimal_to_binary(std::array<uint8_t, size>& result,
                                                               std::string_view s) {
+    eosio::check(!s.empty(), eosio::convert_json_error(eosio::from_json_error::expected_int));
     memset(result.begin(), 0, result.size());
     for (auto& src_digit : s) {
        eosio::check(!(src_digit < '0' || src_digit > '9'),
-- 
2.43.0


From 2bc5686731774d3e9dd6f1912e0551595c6446fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:01 +0000
Subject: [PATCH 24/26] fix: accept -0 in the portable int128 conversion

---
 src/abieos.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/abieos.hpp b/src/abieos.hpp
index a6e3019..bc09ccc 100644
--- a/src/abieos.hpp
+++ b/src/abieos.hpp
@@ -420,7 +420,7 @@ void from_json(int128& obj, S& stream) {
     if (s.size() && s[0] == '-') {
         decimal_to_binary(obj.data, {s.data() + 1, s.size() - 1});
         negate(obj.data);
-        eosio::check(is_negative(obj.data), eosio::convert_json_error(eosio::from_json_error::number_out_of_range));
+        eosio::check(is_negative(obj.data) || obj.data == decltype(obj.data){}, eosio::convert_json_error(eosio::from_json_error::number_out_of_range));
     } else {
         decimal_to_binary(obj.data, s);
         eosio::check(!is_negative(obj.data), eosio::convert_json_error(eosio::from_json_error::number_out_of_range));
-- 
2.43.0


From 54f6ab727ff4ee7a21721d3146e750f92be09774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:38 +0000
Subject: [PATCH 25/26] fix: symbol codes of eight letters are not valid

---
 include/eosio/symbol.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eosio/symbol.hpp b/include/eosio/symbol.hpp
index e33dd3e..411f4be 100644
--- a/include/eosio/symbol.hpp
+++ b/include/eosio/symbol.hpp
@@ -86,7 +86,7 @@ class symbol_code {
             } while (i < 7);
          }
       }
-      return true;
+      return sym == 0;
    }
 
    /**
-- 
2.43.0


From 7735317c66abcf6678aca8efaa2f14200594debc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:36 +0000
Subject: [PATCH 26/26] fix: report a failed allocation while an error is
 reported instead of ending the process

---
 src/abieos.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/abieos.cpp b/src/abieos.cpp
index 5d46a1f..df63bcd 100644
--- a/src/abieos.cpp
+++ b/src/abieos.cpp
@@ -29,6 +29,17 @@ bool set_error(abieos_context* context, std::string error) noexcept {
     return false;
 }
 
+// The copy of the message may fail, too; nothing may leave the exception handlers below.
+bool set_error(abieos_context* context, const char* error) noexcept {
+    try {
+        context->last_error_buffer = error;
+        context->last_error = context->last_error_buffer.c_str();
+    } catch (...) {
+        context->last_error = "out of memory";
+    }
+    return false;
+}
+
 template <typename T, typename F>
 auto handle_exceptions(abieos_context* context, T errval, F f) noexcept -> decltype(f()) {
     if (!context)
-- 
2.43.0

