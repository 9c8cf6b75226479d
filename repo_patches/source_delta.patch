From 96283523f2275c0c0b2fe3beb8b06bc45b0a5b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:10 +0000
Subject: [PATCH 001/101] fix: digest tool reports read errors instead of
 digesting a partial or empty content

---
 mbo/digest/digest_main.cc | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/mbo/digest/digest_main.cc b/mbo/digest/digest_main.cc
index 3548ede..748f87a 100644
--- a/mbo/digest/digest_main.cc
+++ b/mbo/digest/digest_main.cc
@@ -114,22 +114,26 @@ namespace {
 
 namespace fs = std::filesystem;
 
-// Digests a stream in chunks (no whole-file buffering).
+// Digests a stream in chunks (no whole-file buffering). Returns `std::nullopt`
+// if reading fails (e.g. for a directory), as opposed to reaching the end.
 template<typename Algo>
-std::string HexDigestStream(std::istream& input) {
+std::optional<std::string> HexDigestStream(std::istream& input) {
   static constexpr std::size_t kChunkSize = 1ULL << 16U;
   Streamer<Algo> stream;
   std::array<char, kChunkSize> buffer = {};
   while (input.read(buffer.data(), kChunkSize).gcount() > 0) {
     stream.Update(std::string_view(buffer.data(), static_cast<std::size_t>(input.gcount())));
   }
+  if (input.bad()) {
+    return std::nullopt;
+  }
   return ToHexString(stream.Finalize());
 }
 
 // The SHAKE XOFs have no inherent output size; the CLI prints 32 bytes.
 constexpr std::size_t kShakeOutputSize = 32;
 
-using DigestFunc = std::string (*)(std::istream&);
+using DigestFunc = std::optional<std::string> (*)(std::istream&);
 
 struct NamedAlgorithm {
   std::string_view name;
@@ -211,7 +215,8 @@ void CheckStream(const NamedAlgorithm& algorithm, std::istream& sums, CheckStats
     }
     const auto [hex, file_name] = *parsed;
     std::ifstream input{fs::path(file_name), std::ios::binary};
-    if (!input) {
+    const std::optional<std::string> digest = input ? algorithm.func(input) : std::nullopt;
+    if (!digest.has_value()) {
       if (!ignore_missing) {
         ++stats.unreadable;
         if (!silent) {
@@ -220,7 +225,7 @@ void CheckStream(const NamedAlgorithm& algorithm, std::istream& sums, CheckStats
       }
       continue;
     }
-    if (algorithm.func(input) == ToLowerHex(hex)) {
+    if (*digest == ToLowerHex(hex)) {
       ++stats.verified;
       if (!quiet) {
         std::cout << file_name << ": OK\n";
@@ -274,7 +279,13 @@ int Run(DigestFunc digest, const std::vector<std::string_view>& files) {
   int result = 0;
   for (const std::string_view file_name : files) {
     if (file_name == "-") {
-      Print(digest(std::cin), file_name);
+      const std::optional<std::string> hex = digest(std::cin);
+      if (hex.has_value()) {
+        Print(*hex, file_name);
+      } else {
+        std::cerr << file_name << ": Cannot read file.\n";
+        result = 1;
+      }
       continue;
     }
     const fs::path path(file_name);
@@ -287,12 +298,13 @@ int Run(DigestFunc digest, const std::vector<std::string_view>& files) {
       continue;
     }
     std::ifstream input(path, std::ios::binary);
-    if (!input) {
+    const std::optional<std::string> hex = input ? digest(input) : std::nullopt;
+    if (!hex.has_value()) {
       std::cerr << file_name << ": Cannot read file.\n";
       result = 1;
       continue;
     }
-    Print(digest(input), file_name);
+    Print(*hex, file_name);
   }
   return result;
 }
-- 
2.43.0


From 4d60ae340edd5be71bf7a55a352b6bf5b656003e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 002/101] fix: xxh3 128-bit keeps pointers inside the secret so
 192..240 byte inputs are constant expressions

---
 mbo/hash/hash_xxh3.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/hash/hash_xxh3.h b/mbo/hash/hash_xxh3.h
index 6b6ff4f..b020b3d 100644
--- a/mbo/hash/hash_xxh3.h
+++ b/mbo/hash/hash_xxh3.h
@@ -370,7 +370,7 @@ constexpr Hash128 Len129To240_128(const char* input, std::size_t len, uint64_t s
   acc.h1 = Avalanche(acc.h1);
   acc.h2 = Avalanche(acc.h2);
   for (std::size_t i = 160; i <= len; i += 32) {
-    acc = Mix32B(acc, input + i - 32, input + i - 16, kSecret + kStartOffset + i - 160, seed);
+    acc = Mix32B(acc, input + i - 32, input + i - 16, kSecret + (kStartOffset + i - 160), seed);
   }
   acc = Mix32B(acc, input + len - 16, input + len - 32, kSecret + kSecretSizeMin - kLastOffset - 16, 0ULL - seed);
   return Finalize128(acc, len, seed);
-- 
2.43.0


From 1ca812a05859e9c3899a174f0d8c7dbf7f568bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:04 +0000
Subject: [PATCH 003/101] fix: the portable 64x64 multiply compiles where the
 compiler has no 128 bit integer

---
 mbo/hash/hash_internal_util.h | 65 +++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 30 deletions(-)

diff --git a/mbo/hash/hash_internal_util.h b/mbo/hash/hash_internal_util.h
index 7a0024c..5d31ff8 100644
--- a/mbo/hash/hash_internal_util.h
+++ b/mbo/hash/hash_internal_util.h
@@ -171,15 +171,19 @@ MBO_FORCE_INLINE constexpr uint64_t Hash128To64(Hash128 hash) noexcept {
 
 #if defined(__cpp_lib_int_128)
 using mbo_uint128_t = std::uint128_t;
-inline constexpr bool has_128_bit = true;
+# define MBO_HASH_HAS_128_BIT 1
 #elif defined(__SIZEOF_INT128__)
 // __extension__: the compiler advertised __int128 via __SIZEOF_INT128__, so using
 // it is deliberate; the keyword keeps -Wpedantic quiet at exactly this one site.
 __extension__ typedef unsigned __int128 mbo_uint128_t;  // NOLINT(modernize-use-using): __extension__ needs typedef.
+# define MBO_HASH_HAS_128_BIT 1
+#endif
+
+// Whether `mbo_uint128_t` is available. The multiplications below select with the preprocessor: in a function that is
+// not a template `if constexpr` still requires the discarded branch to compile, so the type would have to exist.
+#if defined(MBO_HASH_HAS_128_BIT)
 inline constexpr bool has_128_bit = true;
 #else
-// Fallback to 64-bit if compiling for a 32-bit system
-using mbo_uint128_t = void;  // Placeholder type, not usable
 inline constexpr bool has_128_bit = false;
 #endif
 
@@ -187,20 +191,20 @@ inline constexpr bool has_128_bit = false;
 // `h2`. Uses `__uint128_t` where the compiler provides it (gcc/clang,
 // constexpr-legal); the portable 32-bit schoolbook multiply otherwise.
 MBO_FORCE_INLINE constexpr Hash128 Mult128(uint64_t lhs, uint64_t rhs) noexcept {
-  if constexpr (has_128_bit) {
-    const auto product = static_cast<mbo_uint128_t>(lhs) * static_cast<mbo_uint128_t>(rhs);
-    return {.h1 = static_cast<uint64_t>(product), .h2 = static_cast<uint64_t>(product >> 64U)};
-  } else {
-    const uint64_t lo_lo = (lhs & 0xFFFFFFFFULL) * (rhs & 0xFFFFFFFFULL);
-    const uint64_t hi_lo = (lhs >> 32U) * (rhs & 0xFFFFFFFFULL);
-    const uint64_t lo_hi = (lhs & 0xFFFFFFFFULL) * (rhs >> 32U);
-    const uint64_t hi_hi = (lhs >> 32U) * (rhs >> 32U);
-    const uint64_t cross = (lo_lo >> 32U) + (hi_lo & 0xFFFFFFFFULL) + lo_hi;
-    return {
-        .h1 = (cross << 32U) | (lo_lo & 0xFFFFFFFFULL),
-        .h2 = (hi_lo >> 32U) + (cross >> 32U) + hi_hi,
-    };
-  }
+#if defined(MBO_HASH_HAS_128_BIT)
+  const auto product = static_cast<mbo_uint128_t>(lhs) * static_cast<mbo_uint128_t>(rhs);
+  return {.h1 = static_cast<uint64_t>(product), .h2 = static_cast<uint64_t>(product >> 64U)};
+#else
+  const uint64_t lo_lo = (lhs & 0xFFFFFFFFULL) * (rhs & 0xFFFFFFFFULL);
+  const uint64_t hi_lo = (lhs >> 32U) * (rhs & 0xFFFFFFFFULL);
+  const uint64_t lo_hi = (lhs & 0xFFFFFFFFULL) * (rhs >> 32U);
+  const uint64_t hi_hi = (lhs >> 32U) * (rhs >> 32U);
+  const uint64_t cross = (lo_lo >> 32U) + (hi_lo & 0xFFFFFFFFULL) + lo_hi;
+  return {
+      .h1 = (cross << 32U) | (lo_lo & 0xFFFFFFFFULL),
+      .h2 = (hi_lo >> 32U) + (cross >> 32U) + hi_hi,
+  };
+#endif
 }
 
 // Full 64x64->128 multiply folded to 64 bits by XORing the halves (the core
@@ -208,19 +212,19 @@ MBO_FORCE_INLINE constexpr Hash128 Mult128(uint64_t lhs, uint64_t rhs) noexcept
 // compiler provides it (gcc/clang, constexpr-legal); the portable 32-bit
 // schoolbook multiply otherwise.
 MBO_FORCE_INLINE constexpr uint64_t Mul128Fold64(uint64_t lhs, uint64_t rhs) noexcept {
-  if constexpr (has_128_bit) {
-    const auto product = static_cast<mbo_uint128_t>(lhs) * static_cast<mbo_uint128_t>(rhs);
-    return static_cast<uint64_t>(product) ^ static_cast<uint64_t>(product >> 64U);
-  } else {
-    const uint64_t lo_lo = (lhs & 0xFFFFFFFFULL) * (rhs & 0xFFFFFFFFULL);
-    const uint64_t hi_lo = (lhs >> 32U) * (rhs & 0xFFFFFFFFULL);
-    const uint64_t lo_hi = (lhs & 0xFFFFFFFFULL) * (rhs >> 32U);
-    const uint64_t hi_hi = (lhs >> 32U) * (rhs >> 32U);
-    const uint64_t cross = (lo_lo >> 32U) + (hi_lo & 0xFFFFFFFFULL) + lo_hi;
-    const uint64_t upper = (hi_lo >> 32U) + (cross >> 32U) + hi_hi;
-    const uint64_t lower = (cross << 32U) | (lo_lo & 0xFFFFFFFFULL);
-    return lower ^ upper;
-  }
+#if defined(MBO_HASH_HAS_128_BIT)
+  const auto product = static_cast<mbo_uint128_t>(lhs) * static_cast<mbo_uint128_t>(rhs);
+  return static_cast<uint64_t>(product) ^ static_cast<uint64_t>(product >> 64U);
+#else
+  const uint64_t lo_lo = (lhs & 0xFFFFFFFFULL) * (rhs & 0xFFFFFFFFULL);
+  const uint64_t hi_lo = (lhs >> 32U) * (rhs & 0xFFFFFFFFULL);
+  const uint64_t lo_hi = (lhs & 0xFFFFFFFFULL) * (rhs >> 32U);
+  const uint64_t hi_hi = (lhs >> 32U) * (rhs >> 32U);
+  const uint64_t cross = (lo_lo >> 32U) + (hi_lo & 0xFFFFFFFFULL) + lo_hi;
+  const uint64_t upper = (hi_lo >> 32U) + (cross >> 32U) + hi_hi;
+  const uint64_t lower = (cross << 32U) | (lo_lo & 0xFFFFFFFFULL);
+  return lower ^ upper;
+#endif
 }
 
 // Loads the (0..16 byte) small-key input into two words; see the structure
@@ -268,5 +272,6 @@ MBO_FORCE_INLINE constexpr SmallInput LoadSmall(const char* ptr, std::size_t len
 }  // namespace mbo::hash::hash_internal
 
 #undef MBO_FORCE_INLINE
+#undef MBO_HASH_HAS_128_BIT
 
 #endif  // MBO_HASH_HASH_INTERNAL_UTIL_H_
-- 
2.43.0


From 7fa7cb57be72eeb5c9b334e7616e7c38f7f49d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:13 +0000
Subject: [PATCH 004/101] fix: two RefWraps, and a RefWrap and a comparable
 value of another type, can be ordered

---
 mbo/types/ref_wrap.h | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/mbo/types/ref_wrap.h b/mbo/types/ref_wrap.h
index f902984..46842f1 100644
--- a/mbo/types/ref_wrap.h
+++ b/mbo/types/ref_wrap.h
@@ -19,12 +19,24 @@
 #include <compare>   // IWYU pragma: keep
 #include <concepts>  // IWYU pragma: keep
 #include <cstddef>
+#include <type_traits>
 
 #include "absl/hash/hash.h"
 #include "absl/strings/str_format.h"
 
 namespace mbo::types {
 
+template<typename T>
+class RefWrap;
+
+namespace types_internal {
+// Whether a `RefWrap` is comparable with `T` is decided by the comparison itself, so its constraint must not ask.
+template<typename T>
+inline constexpr bool kIsRefWrap = false;
+template<typename T>
+inline constexpr bool kIsRefWrap<RefWrap<T>> = true;
+}  // namespace types_internal
+
 // Template class `RefWrap<T>` is a reference wrapper for a type `T`. It has
 // similar goals to `std::reference_wrapper` or GSL's `not_null`. However, the
 // wrapper behaves like a pointer that cannot be a nullptr. In details:
@@ -84,16 +96,16 @@ class RefWrap final {
 
   template<std::three_way_comparable_with<T> U>
   constexpr auto operator<=>(const RefWrap<U>& other) const noexcept {
-    if (ptr_ == other.ptr_) {
-      return decltype(*ptr_ <=> other)::equivalent;
-    }
-    return *ptr_ <=> *other.ptr_;
+    return *this <=> other.get();
   }
 
-  template<std::three_way_comparable_with<T> U>
+  template<typename U>
+  requires(!types_internal::kIsRefWrap<U> && std::three_way_comparable_with<U, T>)
   constexpr auto operator<=>(const U& other) const noexcept {
-    if (ptr_ == &other) {
-      return decltype(*ptr_ <=> other)::equivalent;
+    if constexpr (std::same_as<std::remove_cv_t<T>, U>) {
+      if (ptr_ == &other) {
+        return decltype(*ptr_ <=> other)::equivalent;
+      }
     }
     return *ptr_ <=> other;
   }
-- 
2.43.0


From fc689f52e16cda20c36565430131ddeb9a7c3851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:13 +0000
Subject: [PATCH 005/101] fix: two Required values can be ordered, and Required
 can be hashed

---
 mbo/types/required.h | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/mbo/types/required.h b/mbo/types/required.h
index 93f4b42..bfd5ccf 100644
--- a/mbo/types/required.h
+++ b/mbo/types/required.h
@@ -26,6 +26,17 @@
 
 namespace mbo::types {
 
+template<typename T>
+class Required;
+
+namespace types_internal {
+// Whether a `Required` is comparable with `T` is decided by the comparison itself, so its constraint must not ask.
+template<typename T>
+inline constexpr bool kIsRequired = false;
+template<typename T>
+inline constexpr bool kIsRequired<Required<T>> = true;
+}  // namespace types_internal
+
 // Template class `Required<T>` is a wrapper around a type `T`. The value can be
 // replaced without using assign or move-assign operators. Instead the wrapper
 // will call the destructor and then in-place construct the wrapped value using
@@ -118,13 +129,11 @@ class Required {
 
   template<std::three_way_comparable_with<T> U>
   constexpr auto operator<=>(const Required<U>& other) const noexcept {
-    if (value_ == other) {
-      return decltype(value_ <=> other)::equivalent;
-    }
-    return value_ <=> other.value_;
+    return *this <=> other.get();
   }
 
-  template<std::three_way_comparable_with<T> U>
+  template<typename U>
+  requires(!types_internal::kIsRequired<U> && std::three_way_comparable_with<U, T>)
   constexpr auto operator<=>(const U& other) const noexcept {
     if (value_ == other) {
       return decltype(value_ <=> other)::equivalent;
@@ -134,7 +143,7 @@ class Required {
 
   template<typename H>
   friend H AbslHashValue(H hash, const Required<T>& v) {
-    return H::combine(std::move(hash), absl::HashOf<>(*v.value_));
+    return H::combine(std::move(hash), absl::HashOf<>(v.value_));
   }
 
   template<typename Sink>
-- 
2.43.0


From acfb708a8dcc1eefd831f936bd680f56779336d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:18 +0000
Subject: [PATCH 006/101] fix: MBO_LOG_CHECK compiles outside of namespace
 mbo::log

---
 mbo/log/scoped_log_check.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mbo/log/scoped_log_check.h b/mbo/log/scoped_log_check.h
index cd205fc..4eb3a5c 100644
--- a/mbo/log/scoped_log_check.h
+++ b/mbo/log/scoped_log_check.h
@@ -140,9 +140,9 @@ void ScopedLogCheck(bool, std::string_view, const Disallowed&&) {  // NOLINT(*-n
 #undef MBO_FORCE_INLINE
 
 // A local optimized check implementation, it only processes the log stream if its `check` is false.
-#define MBO_LOG_CHECK(check)                            \
-  while (!(check))                                      \
-  mbo::log::ScopedStream<ScopedStreamMode::kQuickExit>( \
+#define MBO_LOG_CHECK(check)                                          \
+  while (!(check))                                                    \
+  ::mbo::log::ScopedStream<::mbo::log::ScopedStreamMode::kQuickExit>( \
       std::source_location::current(), std::cerr, "Failed MBO_LOG_CHECK(" #check ")")
 
 #endif  // MBO_LOG_SCOPED_LOG_CHECK_H_
-- 
2.43.0


From d7249151d0d3dc7cb3d932eba28a681c241d5597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:31 +0000
Subject: [PATCH 007/101] fix: align_markdown_tables takes a trailing pipe
 after an escaped backslash as the row's end

---
 tools/align_markdown_tables.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/align_markdown_tables.py b/tools/align_markdown_tables.py
index 19fe6e7..d69e86a 100755
--- a/tools/align_markdown_tables.py
+++ b/tools/align_markdown_tables.py
@@ -47,8 +47,8 @@ def _split_cells(row):
     s = row.strip()
     if s.startswith("|"):
         s = s[1:]
-    # A trailing pipe is a delimiter unless it is escaped (``\|``).
-    if s.endswith("|") and not s.endswith("\\|"):
+    # A trailing pipe is a delimiter unless it is escaped (``\|``, but not ``\\|``).
+    if s.endswith("|") and (len(s) - 1 - len(s[:-1].rstrip("\\"))) % 2 == 0:
         s = s[:-1]
     cells = []
     cur = []
-- 
2.43.0


From c66b8f5c194cc55a52b8d83bf1e44297bb4a2865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:31 +0000
Subject: [PATCH 008/101] fix: align_markdown_tables does not end a code fence
 at a fence with an info string

---
 tools/align_markdown_tables.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tools/align_markdown_tables.py b/tools/align_markdown_tables.py
index d69e86a..93f6895 100755
--- a/tools/align_markdown_tables.py
+++ b/tools/align_markdown_tables.py
@@ -154,7 +154,13 @@ def align_text(text):
         fence_match = _FENCE.match(line)
         if fence is not None:
             out.append(line)
-            if fence_match and fence_match.group(2)[0] == fence[0] and len(fence_match.group(2)) >= len(fence):
+            # Unlike an opening fence, a closing one carries no info string.
+            if (
+                fence_match
+                and fence_match.group(2)[0] == fence[0]
+                and len(fence_match.group(2)) >= len(fence)
+                and not line[fence_match.end() :].strip()
+            ):
                 fence = None
             i += 1
             continue
-- 
2.43.0


From cd31470c7db38d905157555d9c9d0a5f2d7090fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:31 +0000
Subject: [PATCH 009/101] fix: align_markdown_tables keeps the line ends of the
 text

---
 tools/align_markdown_tables.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tools/align_markdown_tables.py b/tools/align_markdown_tables.py
index 93f6895..8eb440c 100755
--- a/tools/align_markdown_tables.py
+++ b/tools/align_markdown_tables.py
@@ -139,7 +139,8 @@ def _format_table(rows):
             body = " | ".join(render_delim(c) for c in range(ncols))
         else:
             body = " | ".join(render_cell(cells[c], c) for c in range(ncols))
-        out.append(f"{indent}| {body} |".rstrip())
+        eol = "\r" if rows[idx].endswith("\r") else ""
+        out.append(f"{indent}| {body} |{eol}")
     return out
 
 
@@ -195,7 +196,7 @@ def main(argv):
     changed = []
     for path in args.files:
         try:
-            with open(path, "r", encoding="utf-8") as handle:
+            with open(path, "r", encoding="utf-8", newline="") as handle:
                 original = handle.read()
         except OSError as err:
             print(f"align_markdown_tables: {path}: {err}", file=sys.stderr)
@@ -204,7 +205,7 @@ def main(argv):
         if aligned != original:
             changed.append(path)
             if not args.check:
-                with open(path, "w", encoding="utf-8") as handle:
+                with open(path, "w", encoding="utf-8", newline="") as handle:
                     handle.write(aligned)
     for path in changed:
         verb = "would reformat" if args.check else "reformatted"
-- 
2.43.0


From 6aea63455f83396774cc230db7224b93538bc45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:25 +0000
Subject: [PATCH 010/101] fix: BUILD lints do not take commented out labels for
 dependencies

---
 tools/build_rules.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/build_rules.py b/tools/build_rules.py
index 5671e6b..bb9fa5b 100755
--- a/tools/build_rules.py
+++ b/tools/build_rules.py
@@ -71,6 +71,8 @@ def parse_rules(text: str) -> list[Rule]:
     current: Rule | None = None
     in_deps = False
     for number, line in enumerate(text.splitlines(), start=1):
+        if line.lstrip().startswith("#"):
+            continue  # A commented out label is not a dependency.
         opened = _RULE_OPEN.match(line)
         if opened:
             inline = _INLINE_NAME.match(line)
-- 
2.43.0


From 7fc711704055fc5950b5f637a727ea4c17eb7340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:14 +0000
Subject: [PATCH 011/101] fix: ContainerProxy offers clear, pop_front, const
 front and comparison of the container

---
 mbo/types/container_proxy.h | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/mbo/types/container_proxy.h b/mbo/types/container_proxy.h
index 1031eb2..fb56482 100644
--- a/mbo/types/container_proxy.h
+++ b/mbo/types/container_proxy.h
@@ -17,6 +17,7 @@
 #define MBO_TYPES_CONTAINER_PROXY_H_
 
 #include <compare>
+#include <concepts>  // IWYU pragma: keep
 #include <cstddef>
 #include <type_traits>
 #include <utility>
@@ -103,7 +104,7 @@ struct ContainerProxy : T {
   constexpr auto max_size() const requires(requires(const C& v) { v.max_size(); }) { return Get().max_size(); }
   constexpr auto capacity() const requires(requires(const C& v) { v.capacity(); }) { return Get().capacity(); }
 
-  constexpr void clear() requires(requires(const C& v) { v.clear(); }) { Get().clear(); }
+  constexpr void clear() requires(requires(C& v) { v.clear(); }) { Get().clear(); }
   constexpr void reserve(size_type capacity) requires(requires(C& v) { v.reserve(std::declval<size_type>()); }) { Get().reserve(capacity); }
   constexpr void resize(size_type size) requires(requires(C& v) { v.resize(std::declval<size_type>()); }) { Get().resize(size); }
 
@@ -146,20 +147,32 @@ struct ContainerProxy : T {
 
   constexpr auto& back() const requires(requires(const C& v) { v.back(); }) { return Get().back(); }
   constexpr auto& back() requires(requires(C& v) { v.back(); }) { return Get().back(); }
-  constexpr auto& front() const requires(requires(const T& v) { v.front(); }) { return Get().front(); }
+  constexpr auto& front() const requires(requires(const C& v) { v.front(); }) { return Get().front(); }
   constexpr auto& front() requires(requires(C& v) { v.front(); }) { return Get().front(); }
 
   constexpr void pop_back() requires(requires(C& v) { v.pop_back(); }) { Get().pop_back(); }
-  constexpr void pop_front() requires(requires(C& v) { v.pop_frontk(); }) { Get().pop_front(); }
+  constexpr void pop_front() requires(requires(C& v) { v.pop_front(); }) { Get().pop_front(); }
+
+  bool operator==(const ContainerProxy& other) const
+  requires std::equality_comparable<C>
+  {
+    return Get() == other.Get();
+  }
+
+  bool operator==(const C& other) const
+  requires std::equality_comparable<C>
+  {
+    return Get() == other;
+  }
 
   auto operator<=>(const ContainerProxy& other) const
-  requires std::three_way_comparable<T>
+  requires std::three_way_comparable<C>
   {
     return Get() <=> other.Get();
   }
 
   auto operator<=>(const C& other) const
-  requires std::three_way_comparable<T>
+  requires std::three_way_comparable<C>
   {
     return Get() <=> other;
   }
-- 
2.43.0


From b11a6fd2fc058f32297a56fccbd5a94331b51cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:12 +0000
Subject: [PATCH 012/101] fix: OpaqueValue can be compared for equality and
 copied from a non-const value

---
 mbo/types/opaque.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/mbo/types/opaque.h b/mbo/types/opaque.h
index 3315c71..bfceae7 100644
--- a/mbo/types/opaque.h
+++ b/mbo/types/opaque.h
@@ -100,7 +100,11 @@ struct OpaqueValue {
   }
 
   template<typename... Args>
-  explicit OpaqueValue(Args&&... args) : ptr_(MakeOpaquePtr<T>(std::forward<Args>(args)...)) {}
+  explicit OpaqueValue(Args&&... args)
+  requires(
+      !ConstructibleFrom<T, Args...>
+      && (sizeof...(Args) != 1 || (!std::same_as<std::remove_cvref_t<Args>, OpaqueValue> && ...)))
+      : ptr_(MakeOpaquePtr<T>(std::forward<Args>(args)...)) {}
 
   T& operator*() { return *ptr_; }
 
@@ -110,6 +114,18 @@ struct OpaqueValue {
 
   const T* operator->() const { return &*ptr_; }
 
+  bool operator==(const OpaqueValue& other) const
+  requires std::equality_comparable<T>
+  {
+    return *ptr_ == *other.ptr_;
+  }
+
+  bool operator==(const T& other) const
+  requires std::equality_comparable<T>
+  {
+    return *ptr_ == other;
+  }
+
   auto operator<=>(const OpaqueValue& other) const
   requires std::three_way_comparable<T>
   {
-- 
2.43.0


From 15a045ff96a0cc72de0a3e07107c40a024dfe224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:12 +0000
Subject: [PATCH 013/101] fix: NoDestruct can be hashed and stringified

---
 mbo/types/no_destruct.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbo/types/no_destruct.h b/mbo/types/no_destruct.h
index 6624c59..10fabe5 100644
--- a/mbo/types/no_destruct.h
+++ b/mbo/types/no_destruct.h
@@ -102,12 +102,12 @@ class NoDestruct final {
 
   template<typename H>
   friend H AbslHashValue(H hash, const NoDestruct<T>& v) {
-    return H::combine(std::move(hash), absl::HashOf<>(*v.data_));
+    return H::combine(std::move(hash), absl::HashOf<>(v.Get()));
   }
 
   template<typename Sink>
   friend void AbslStringify(Sink& sink, const NoDestruct<T>& v) {
-    absl::Format(&sink, "%v", v.data_);
+    absl::Format(&sink, "%v", v.Get());
   }
 
  private:
-- 
2.43.0


From 7f4823d579a29524c69609601a8ea6b8eb8dcb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:10 +0000
Subject: [PATCH 014/101] fix: ConvertContainer does not move the elements out
 of a container that is passed by reference

---
 mbo/container/convert_container.h | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/mbo/container/convert_container.h b/mbo/container/convert_container.h
index 8569a20..2468845 100644
--- a/mbo/container/convert_container.h
+++ b/mbo/container/convert_container.h
@@ -16,6 +16,9 @@
 #ifndef MBO_CONTAINER_CONVERT_CONTAINER_H_
 #define MBO_CONTAINER_CONVERT_CONTAINER_H_
 
+#include <type_traits>
+#include <utility>
+
 #include "mbo/types/traits.h"
 
 namespace mbo::container {
@@ -51,27 +54,27 @@ class ConvertContainer final {
     for (auto&& v : container_) {
       if constexpr (mbo::types::ContainerHasEmplace<ContainerOut, ValueType>) {
         if constexpr (std::same_as<Func, NoFunc>) {
-          result.emplace(std::move(v));
+          result.emplace(Pass(v));
         } else {
-          result.emplace(convert_(std::move(v)));
+          result.emplace(convert_(Pass(v)));
         }
       } else if constexpr (mbo::types::ContainerHasEmplaceBack<ContainerOut, ValueType>) {
         if constexpr (std::same_as<Func, NoFunc>) {
-          result.emplace_back(std::move(v));
+          result.emplace_back(Pass(v));
         } else {
-          result.emplace_back(convert_(std::move(v)));
+          result.emplace_back(convert_(Pass(v)));
         }
       } else if constexpr (mbo::types::ContainerHasInsert<ContainerOut, ValueType>) {
         if constexpr (std::same_as<Func, NoFunc>) {
-          result.insert(std::move(v));
+          result.insert(Pass(v));
         } else {
-          result.insert(convert_(std::move(v)));
+          result.insert(convert_(Pass(v)));
         }
       } else if constexpr (mbo::types::ContainerHasPushBack<ContainerOut, ValueType>) {
         if constexpr (std::same_as<Func, NoFunc>) {
-          result.push_back(std::move(v));
+          result.push_back(Pass(v));
         } else {
-          result.push_back(convert_(std::move(v)));
+          result.push_back(convert_(Pass(v)));
         }
       }
     }
@@ -79,6 +82,16 @@ class ConvertContainer final {
   }
 
  private:
+  // Values are only moved out of a container that was moved in, never out of one that is merely referenced.
+  template<typename V>
+  static constexpr decltype(auto) Pass(V& v) noexcept {
+    if constexpr (std::is_lvalue_reference_v<Container>) {
+      return (v);
+    } else {
+      return std::move(v);
+    }
+  }
+
   static inline constexpr NoFunc kNoFunc{};
   Container container_;
   Func convert_ = kNoFunc;
-- 
2.43.0


From 17a4026cb8ec52d1b4d1cb6b557c63598973bc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:09 +0000
Subject: [PATCH 015/101] fix: a LimitedVector can be copy-assigned

---
 mbo/container/limited_vector.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mbo/container/limited_vector.h b/mbo/container/limited_vector.h
index 5efcb89..a0ab8d4 100644
--- a/mbo/container/limited_vector.h
+++ b/mbo/container/limited_vector.h
@@ -146,8 +146,9 @@ class LimitedVector final {
   constexpr LimitedVector& operator=(const LimitedVector& other) noexcept {
     if (this != &other) {
       clear();
-      size_ = other.size_;
-      values_ = other.values_;
+      for (; size_ < other.size_; ++size_) {
+        std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[size_].data), other.values_[size_].data);
+      }
     }
     return *this;
   }
-- 
2.43.0


From 3c103118357a97acfa4a447ee86c1d3227a5855b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:09 +0000
Subject: [PATCH 016/101] fix: moving out of a LimitedVector destroys the
 moved-from elements

---
 mbo/container/limited_vector.h | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/mbo/container/limited_vector.h b/mbo/container/limited_vector.h
index a0ab8d4..95e9919 100644
--- a/mbo/container/limited_vector.h
+++ b/mbo/container/limited_vector.h
@@ -158,16 +158,18 @@ class LimitedVector final {
       std::construct_at(
           const_cast<std::remove_const_t<T>*>(&values_[size_].data), std::move(other.values_[size_].data));
     }
-    other.size_ = 0;
+    other.clear();
   }
 
   constexpr LimitedVector& operator=(LimitedVector&& other) noexcept {
-    clear();
-    for (; size_ < other.size_; ++size_) {
-      std::construct_at(
-          const_cast<std::remove_const_t<T>*>(&values_[size_].data), std::move(other.values_[size_].data));
+    if (this != &other) {
+      clear();
+      for (; size_ < other.size_; ++size_) {
+        std::construct_at(
+            const_cast<std::remove_const_t<T>*>(&values_[size_].data), std::move(other.values_[size_].data));
+      }
+      other.clear();
     }
-    other.size_ = 0;
     return *this;
   }
 
@@ -229,7 +231,7 @@ class LimitedVector final {
     for (; size_ < other.size(); ++size_) {
       std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[size_].data), std::move(other.at(size_)));
     }
-    other.size_ = 0;
+    other.clear();
   }
 
   template<types::ConstructibleInto<T> U, auto OtherN>
@@ -241,7 +243,7 @@ class LimitedVector final {
     for (; size_ < other.size(); ++size_) {
       std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[size_].data), std::move(other.at(size_)));
     }
-    other.size_ = 0;
+    other.clear();
     return *this;
   }
 
@@ -285,8 +287,12 @@ class LimitedVector final {
     for (; pos < other.size(); ++pos) {
       emplace_back(std::move(other.at(pos)));
     }
-    size_ = other_size;
-    other.size_ = this_size;
+    while (size_ > other_size) {
+      pop_back();
+    }
+    while (other.size_ > this_size) {
+      other.pop_back();
+    }
   }
 
   template<typename... Args>
-- 
2.43.0


From 9247d9f4f449d7e0d314d3a71b699f245ec9eaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:09 +0000
Subject: [PATCH 017/101] fix: LimitedVector emplace, insert and erase
 construct and destroy every element exactly once

---
 mbo/container/limited_vector.h | 42 +++++++++++++++-------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/mbo/container/limited_vector.h b/mbo/container/limited_vector.h
index 95e9919..7adf9db 100644
--- a/mbo/container/limited_vector.h
+++ b/mbo/container/limited_vector.h
@@ -299,25 +299,17 @@ class LimitedVector final {
   constexpr iterator emplace(const_iterator pos, Args&&... args) noexcept(!kRequireThrows) {
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `emplace` at capacity.");
     MBO_CONFIG_REQUIRE(&values_[0].data <= pos && pos <= &values_[size_].data, "Invalid `pos`.");
-    iterator dst = end();
-    for (; dst > pos; --dst) {
-      *dst = std::move(*std::prev(dst));
-    }
-    std::construct_at(const_cast<std::remove_const_t<T>*>(dst), std::forward<Args>(args)...);
-    ++size_;
+    const auto dst = const_cast<iterator>(pos);              // NOLINT(cppcoreguidelines-pro-type-const-cast)
+    std::remove_const_t<T> value(std::forward<Args>(args)...);  // The arguments may refer to elements.
+    move_backward(dst, 1);
+    std::construct_at(const_cast<std::remove_const_t<T>*>(dst), std::move(value));
     return dst;
   }
 
   constexpr iterator erase(const_iterator pos) noexcept(!kRequireThrows) {
     // NOLINTBEGIN(cppcoreguidelines-pro-type-const-cast)
     MBO_CONFIG_REQUIRE(&values_[0].data <= pos && pos < &values_[size_].data, "Invalid `pos`.");
-    auto dst = const_cast<iterator>(pos);
-    --size_;
-    std::destroy_at(dst);
-    for (; dst < end(); ++dst) {
-      *dst = std::move(*std::next(dst));
-    }
-    return pos > end() ? end() : const_cast<iterator>(pos);
+    return erase(pos, std::next(pos));
     // NOLINTEND(cppcoreguidelines-pro-type-const-cast)
   }
 
@@ -325,17 +317,18 @@ class LimitedVector final {
     // NOLINTBEGIN(cppcoreguidelines-pro-type-const-cast)
     MBO_CONFIG_REQUIRE(
         &values_[0].data <= first && first <= last && last <= &values_[size_].data, "Invalid `first` or `last`.");
-    std::size_t deleted = 0;
-    for (const_iterator it = first; it < last; ++it) {
-      std::destroy_at(it);
-      ++deleted;
+    auto dst = const_cast<std::remove_const_t<T>*>(first);
+    if (first == last) {
+      return dst;
     }
-    auto dst = const_cast<iterator>(first);
-    auto src = const_cast<iterator>(last);
+    auto src = const_cast<std::remove_const_t<T>*>(last);
     for (; src < end(); ++src, ++dst) {
-      *dst = std::move(*src);
+      std::destroy_at(dst);
+      std::construct_at(dst, std::move(*src));
+    }
+    while (dst < end()) {
+      pop_back();
     }
-    size_ -= deleted;
     return const_cast<iterator>(first);
     // NOLINTEND(cppcoreguidelines-pro-type-const-cast)
   }
@@ -398,8 +391,9 @@ class LimitedVector final {
     // Clang does not like `std::distance`. The issue is that the iterators point into the union.
     // That makes them technically not point into an array AND that is indeed not allowed by C++.
     const auto dst = const_cast<iterator>(pos);  // NOLINT(cppcoreguidelines-pro-type-const-cast)
+    std::remove_const_t<T> new_value(std::forward<U>(value));  // The argument may be an element.
     move_backward(dst, 1);
-    std::construct_at(const_cast<std::remove_const_t<T>*>(&*dst), std::forward<U>(value));
+    std::construct_at(const_cast<std::remove_const_t<T>*>(&*dst), std::move(new_value));
     return dst;
   }
 
@@ -410,9 +404,10 @@ class LimitedVector final {
     if (count == 0) {
       return dst;
     }
+    const std::remove_const_t<T> new_value(value);  // The argument may be an element.
     std::size_t index = move_backward(dst, count);
     while (count > 0) {
-      std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[index].data), value);
+      std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[index].data), new_value);
       ++index;
       --count;
     }
@@ -517,6 +512,7 @@ class LimitedVector final {
     while (dst < &values_[pos].data) {
       --pos;
       std::construct_at(const_cast<std::remove_const_t<T>*>(&values_[pos + count].data), std::move(values_[pos].data));
+      std::destroy_at(&values_[pos].data);
     }
     size_ += count;
     return pos;
-- 
2.43.0


From 9dfd8a233560e73cd46a2f9b227fcddaa61e86d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:09 +0000
Subject: [PATCH 018/101] fix: LimitedVector takes elements from any forward
 iterator, and assign does not move them

---
 mbo/container/limited_vector.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mbo/container/limited_vector.h b/mbo/container/limited_vector.h
index 7adf9db..1995807 100644
--- a/mbo/container/limited_vector.h
+++ b/mbo/container/limited_vector.h
@@ -178,7 +178,7 @@ class LimitedVector final {
   template<std::forward_iterator It>
   requires types::ConstructibleFrom<T, mbo::types::ForwardIteratorValueType<It>>
   constexpr LimitedVector(It begin, It end) noexcept {
-    while (begin < end) {
+    while (begin != end) {
       emplace_back(*begin++);
     }
   }
@@ -370,8 +370,8 @@ class LimitedVector final {
   template<std::forward_iterator It>
   constexpr void assign(It begin, It end) noexcept {
     clear();
-    while (begin < end) {
-      emplace_back(std::forward<mbo::types::ForwardIteratorValueType<It>>(*begin++));
+    while (begin != end) {
+      emplace_back(*begin++);
     }
   }
 
@@ -420,7 +420,9 @@ class LimitedVector final {
   requires(types::ConstructibleFrom<T, decltype(*std::declval<InputIt>())>)
   constexpr iterator insert(const_iterator pos, InputIt first, InputIt last) {
     MBO_CONFIG_REQUIRE(begin() <= pos && pos <= end(), "Invalid `pos`.");
-    MBO_CONFIG_REQUIRE(first <= last, "First > Last.");
+    if constexpr (std::totally_ordered<InputIt>) {
+      MBO_CONFIG_REQUIRE(first <= last, "First > Last.");
+    }
     std::size_t count = std::distance(first, last);
     MBO_CONFIG_REQUIRE(size_ + count <= Capacity, "Called `insert` at capacity.");
     const auto dst = const_cast<iterator>(pos);  // NOLINT(*-pro-type-const-cast)
-- 
2.43.0


From 67e2bbdf6708cd995dce65e07f7996a4ce5b5831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:09 +0000
Subject: [PATCH 019/101] fix: LimitedVector insert checks its capacity without
 overflow

---
 mbo/container/limited_vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbo/container/limited_vector.h b/mbo/container/limited_vector.h
index 1995807..417ef4c 100644
--- a/mbo/container/limited_vector.h
+++ b/mbo/container/limited_vector.h
@@ -398,7 +398,7 @@ class LimitedVector final {
   }
 
   constexpr iterator insert(const_iterator pos, size_type count, const T& value) {
-    MBO_CONFIG_REQUIRE(size_ + count <= Capacity, "Called `insert` at capacity.");
+    MBO_CONFIG_REQUIRE(count <= Capacity - size_, "Called `insert` at capacity.");
     MBO_CONFIG_REQUIRE(begin() <= pos && pos <= end(), "Invalid `pos`.");
     const auto dst = const_cast<iterator>(pos);  // NOLINT(cppcoreguidelines-pro-type-const-cast)
     if (count == 0) {
@@ -424,7 +424,7 @@ class LimitedVector final {
       MBO_CONFIG_REQUIRE(first <= last, "First > Last.");
     }
     std::size_t count = std::distance(first, last);
-    MBO_CONFIG_REQUIRE(size_ + count <= Capacity, "Called `insert` at capacity.");
+    MBO_CONFIG_REQUIRE(count <= Capacity - size_, "Called `insert` at capacity.");
     const auto dst = const_cast<iterator>(pos);  // NOLINT(*-pro-type-const-cast)
     if (count == 0) {
       return dst;
-- 
2.43.0


From e86cdfb6b761a0ac7b72ed9408cebdcbb7a1d782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:09 +0000
Subject: [PATCH 020/101] fix: MakeLimitedVector does not move out of lvalue
 arguments

---
 mbo/container/limited_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/container/limited_vector.h b/mbo/container/limited_vector.h
index 417ef4c..5d6712d 100644
--- a/mbo/container/limited_vector.h
+++ b/mbo/container/limited_vector.h
@@ -607,7 +607,7 @@ requires((types::NotInitializerList<Args> && !std::forward_iterator<Args> && !ty
 inline constexpr auto MakeLimitedVector(Args&&... args) noexcept {
   using T = std::common_type_t<Args...>;
   auto result = LimitedVector<T, sizeof...(Args)>();
-  (result.emplace_back(std::forward<T>(args)), ...);
+  (result.emplace_back(std::forward<Args>(args)), ...);
   return result;
 }
 
-- 
2.43.0


From fba3ba81e141ea9359700a2bce5c3c4a9900b5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:09 +0000
Subject: [PATCH 021/101] fix: LimitedVectors of partially or weakly ordered
 values can be ordered

---
 mbo/container/limited_vector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mbo/container/limited_vector.h b/mbo/container/limited_vector.h
index 5d6712d..215d2d5 100644
--- a/mbo/container/limited_vector.h
+++ b/mbo/container/limited_vector.h
@@ -535,7 +535,8 @@ LimitedVector(T&&... v) -> LimitedVector<std::common_type_t<T...>, sizeof...(T)>
 // and going through the checked operator[] would re-verify that per element.
 template<auto LN, auto RN, typename LHS, typename RHS>
 requires std::three_way_comparable_with<LHS, RHS>
-constexpr inline auto operator<=>(const LimitedVector<LHS, LN>& lhs, const LimitedVector<RHS, RN>& rhs) noexcept {
+constexpr inline auto operator<=>(const LimitedVector<LHS, LN>& lhs, const LimitedVector<RHS, RN>& rhs) noexcept
+    -> std::compare_three_way_result_t<LHS, RHS> {
   const std::size_t minsize = std::min(lhs.size(), rhs.size());
   for (std::size_t index = 0; index < minsize; ++index) {
     const auto comp = lhs[index] <=> rhs[index];
-- 
2.43.0


From a0c4d6d72335eb0d96fb47caa18da33acb820489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:04 +0000
Subject: [PATCH 022/101] fix: key_comp() of LimitedSet and LimitedMap compiles

---
 mbo/container/internal/limited_ordered.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index 7c3b545..991e1a4 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -1146,7 +1146,7 @@ class [[nodiscard]] LimitedOrdered {
 
   // Observers
 
-  constexpr key_compare key_comp() const noexcept { return key_comp; }
+  constexpr key_compare key_comp() const noexcept { return key_comp_; }
 
   constexpr value_compare value_comp() const noexcept { return val_comp_; }
 
-- 
2.43.0


From e48e4e93feea118d90fd0c12e94f89e3d570c1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:47 +0000
Subject: [PATCH 023/101] fix: LimitedSet and LimitedMap construct and destroy
 every element exactly once, and copies keep the comparator

---
 mbo/container/internal/limited_ordered.h | 159 ++++++++++++-----------
 1 file changed, 85 insertions(+), 74 deletions(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index 991e1a4..1c899e2 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -417,7 +417,7 @@ class [[nodiscard]] LimitedOrdered {
 
   // NOLINTBEGIN(cppcoreguidelines-pro-type-const-cast)
 
-  constexpr LimitedOrdered(const LimitedOrdered& other) noexcept {
+  constexpr LimitedOrdered(const LimitedOrdered& other) noexcept : key_comp_(other.key_comp_) {
     for (; size_ < other.size_; ++size_) {
       std::construct_at(const_cast<RawValue*>(&values_[size_].data), other.values_[size_].data);
     }
@@ -426,25 +426,22 @@ class [[nodiscard]] LimitedOrdered {
   constexpr LimitedOrdered& operator=(const LimitedOrdered& other) noexcept {
     if (this != &other) {
       clear();
-      size_ = other.size_;
-      values_ = other.values_;
+      AssignComp(other);
+      for (; size_ < other.size_; ++size_) {
+        std::construct_at(const_cast<RawValue*>(&values_[size_].data), other.values_[size_].data);
+      }
     }
     return *this;
   }
 
-  constexpr LimitedOrdered(LimitedOrdered&& other) noexcept {
-    for (; size_ < other.size_; ++size_) {
-      std::construct_at(const_cast<RawValue*>(&values_[size_].data), std::move(other.values_[size_].data));
-    }
-    other.size_ = 0;
-  }
+  constexpr LimitedOrdered(LimitedOrdered&& other) noexcept : key_comp_(other.key_comp_) { MoveFrom(other); }
 
   constexpr LimitedOrdered& operator=(LimitedOrdered&& other) noexcept {
-    clear();
-    for (; size_ < other.size_; ++size_) {
-      std::construct_at(const_cast<RawValue*>(&values_[size_].data), std::move(other.values_[size_].data));
+    if (this != &other) {
+      clear();
+      AssignComp(other);
+      MoveFrom(other);
     }
-    other.size_ = 0;
     return *this;
   }
 
@@ -489,7 +486,8 @@ class [[nodiscard]] LimitedOrdered {
       auto OtherN,
       typename OtherCompare>
   requires(MakeLimitedOptions<OtherN>().kCapacity <= Capacity)
-  constexpr explicit LimitedOrdered(const LimitedOrdered<OK, OM, OV, OtherN, OtherCompare>& other) noexcept {
+  constexpr explicit LimitedOrdered(const LimitedOrdered<OK, OM, OV, OtherN, OtherCompare>& other) noexcept
+      : key_comp_(CompFrom(other)) {
     for (auto it = other.begin(); it < other.end(); ++it) {
       if constexpr (kKeyOnly) {
         emplace(*it);
@@ -508,6 +506,7 @@ class [[nodiscard]] LimitedOrdered {
   requires(MakeLimitedOptions<OtherN>().kCapacity <= Capacity)
   constexpr LimitedOrdered& operator=(const LimitedOrdered<OK, OM, OV, OtherN, OtherCompare>& other) noexcept {
     clear();
+    AssignComp(other);
     for (auto it = other.begin(); it < other.end(); ++it) {
       if constexpr (kKeyOnly) {
         emplace(*it);
@@ -879,38 +878,25 @@ class [[nodiscard]] LimitedOrdered {
       typename OtherCompare>
   requires(MakeLimitedOptions<OtherN>().kCapacity == Capacity && std::same_as<OtherCompare, Compare>)
   constexpr void swap(LimitedOrdered<OK, OM, OV, OtherN, OtherCompare>& other) noexcept {
-    std::size_t pos = 0;
-    for (; pos < size_ && pos < other.size(); ++pos) {
-      if constexpr (kKeyOnly) {
-        std::swap(values_[pos].data, other.values_[pos].data);
-      } else {
-        std::swap(const_cast<Key&>(values_[pos].data.first), const_cast<Key&>(other.values_[pos].data.first));
-        std::swap(values_[pos].data.second, other.values_[pos].data.second);
-      }
-    }
-    const std::size_t other_size = other.size_;
-    const std::size_t this_size = size_;
-    for (; pos < size_; ++pos) {
-      other.emplace(std::move(values_[pos].data));
-    }
-    for (; pos < other.size(); ++pos) {
-      emplace(std::move(other.values_[pos].data));
-    }
-    size_ = other_size;
-    other.size_ = this_size;
+    if (static_cast<const void*>(this) == static_cast<const void*>(&other)) {
+      return;
+    }
+    LimitedOrdered temp(std::move(*this));
+    AssignComp(other);
+    MoveFrom(other);
+    other.AssignComp(temp);
+    other.MoveFrom(temp);
   }
 
   template<typename... Args>
   constexpr std::pair<iterator, bool> emplace(Args&&... args) noexcept(!kRequireThrows) {
-    const RawValue new_val(std::forward<Args>(args)...);
+    RawValue new_val(std::forward<Args>(args)...);
     const iterator dst = lower_bound(GetKey(new_val));
     if (dst != end() && !key_comp_(GetKey(*dst), GetKey(new_val)) && !key_comp_(GetKey(new_val), GetKey(*dst))) {
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `emplace` at capacity.");
-    for (iterator next = end(); next > dst; --next) {
-      std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
-    }
+    OpenGap(dst);
     std::construct_at(const_cast<RawValue*>(&*dst), std::move(new_val));
     ++size_;
     return std::make_pair(dst, true);
@@ -919,30 +905,26 @@ class [[nodiscard]] LimitedOrdered {
   template<typename It>
   requires IsIterator<It>::value
   constexpr iterator erase(It pos) noexcept(!kRequireThrows) {
-    MBO_CONFIG_REQUIRE(begin() <= pos && pos < end(), "Invalid `pos`.");
-    auto dst = to_iterator(pos);
-    --size_;
-    std::destroy_at(&*dst);
-    for (; dst < end(); ++dst) {
-      std::construct_at(const_cast<RawValue*>(&*dst), std::move(*std::next(dst)));
-    }
-    return pos > end() ? end() : to_iterator(pos);
+    MBO_CONFIG_REQUIRE(cbegin() <= const_iterator(pos) && const_iterator(pos) < cend(), "Invalid `pos`.");
+    return erase(const_iterator(pos), std::next(const_iterator(pos)));
   }
 
   constexpr iterator erase(const_iterator first, const_iterator last) noexcept(!kRequireThrows) {
-    MBO_CONFIG_REQUIRE(begin() <= first && first <= last && last <= end(), "Invalid `first` or `last`.");
-    std::size_t deleted = 0;
-    for (const_iterator it = first; it < last; ++it) {
-      std::destroy_at(it);
-      ++deleted;
-    }
-    auto dst = to_iterator(first);
-    auto src = to_iterator(last);
-    for (; src < end(); ++src, ++dst) {
-      *dst = std::move(*src);
-    }
-    size_ -= deleted;
-    return to_iterator(first);
+    MBO_CONFIG_REQUIRE(cbegin() <= first && first <= last && last <= cend(), "Invalid `first` or `last`.");
+    const auto result = to_iterator(first);
+    if (first == last) {
+      return result;
+    }
+    for (auto it = result; it < to_iterator(last); ++it) {
+      std::destroy_at(&*it);
+    }
+    auto dst = result;
+    for (auto src = to_iterator(last); src < end(); ++src, ++dst) {
+      std::construct_at(const_cast<RawValue*>(&*dst), std::move(*src));
+      std::destroy_at(&*src);
+    }
+    size_ -= last - first;
+    return result;
   }
 
   constexpr size_type erase(const Key& key) {
@@ -1035,9 +1017,7 @@ class [[nodiscard]] LimitedOrdered {
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `try_emplace` at capacity.");
-    for (iterator next = end(); next > dst; --next) {
-      std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
-    }
+    OpenGap(dst);
     std::construct_at(
         const_cast<RawValue*>(&*dst), std::piecewise_construct, std::forward_as_tuple(key),
         std::forward_as_tuple(std::forward<Args>(args)...));
@@ -1054,9 +1034,7 @@ class [[nodiscard]] LimitedOrdered {
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `try_emplace` at capacity.");
-    for (iterator next = end(); next > dst; --next) {
-      std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
-    }
+    OpenGap(dst);
     // Should possibly use: std::piecewise_construct, std::move(key), std::forward_as_tuple(std::forward<Args>(args)...)
     // But that creates issues with conversion. However, we know the two types, so we do not need piecewise.
     std::construct_at(const_cast<RawValue*>(&*dst), std::move(key), Mapped(std::forward<Args>(args)...));
@@ -1073,9 +1051,7 @@ class [[nodiscard]] LimitedOrdered {
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `insert_or_assign` at capacity.");
-    for (iterator next = end(); next > dst; --next) {
-      std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
-    }
+    OpenGap(dst);
     std::construct_at(const_cast<RawValue*>(&*dst), key, std::forward<V>(value));
     ++size_;
     return std::make_pair(dst, true);
@@ -1090,9 +1066,7 @@ class [[nodiscard]] LimitedOrdered {
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `emplace` at capacity.");
-    for (iterator next = end(); next > dst; --next) {
-      std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
-    }
+    OpenGap(dst);
     std::construct_at(const_cast<RawValue*>(&*dst), std::move(key), std::forward<V>(value));
     ++size_;
     return std::make_pair(dst, true);
@@ -1151,9 +1125,46 @@ class [[nodiscard]] LimitedOrdered {
   constexpr value_compare value_comp() const noexcept { return val_comp_; }
 
  protected:
-  static constexpr iterator to_iterator(iterator pos) noexcept { return pos; }
+  constexpr iterator to_iterator(const const_iterator& pos) noexcept { return begin() + (pos - cbegin()); }
+
+  // Moves the elements of `other` here, where there are none, and leaves none in `other`.
+  template<typename OK, typename OM, typename OV, auto OtherN, typename OtherCompare>
+  constexpr void MoveFrom(LimitedOrdered<OK, OM, OV, OtherN, OtherCompare>& other) noexcept {
+    for (; size_ < other.size_; ++size_) {
+      std::construct_at(const_cast<RawValue*>(&values_[size_].data), std::move(other.values_[size_].data));
+    }
+    other.clear();
+  }
 
-  static constexpr iterator to_iterator(const const_iterator& pos) noexcept { return iterator(pos.pos); }
+  // Moves the elements from `dst` on up by one. That leaves no element at `dst`.
+  constexpr void OpenGap(iterator dst) noexcept {
+    for (iterator next = end(); next > dst; --next) {
+      std::construct_at(const_cast<RawValue*>(&*next), std::move(*std::prev(next)));
+      if constexpr (!std::is_trivially_destructible_v<RawValue>) {
+        std::destroy_at(&*std::prev(next));
+      }
+    }
+  }
+
+  // The comparator goes with the elements, unless the other one is of a different type.
+  template<typename OK, typename OM, typename OV, auto OtherN, typename OtherCompare>
+  static constexpr Compare CompFrom(const LimitedOrdered<OK, OM, OV, OtherN, OtherCompare>& other) noexcept {
+    if constexpr (std::same_as<OtherCompare, Compare>) {
+      return other.key_comp_;
+    } else {
+      return Compare();
+    }
+  }
+
+  template<typename OK, typename OM, typename OV, auto OtherN, typename OtherCompare>
+  constexpr void AssignComp(const LimitedOrdered<OK, OM, OV, OtherN, OtherCompare>& other) noexcept {
+    if constexpr (std::same_as<OtherCompare, Compare> && !std::is_empty_v<Compare>) {
+      std::destroy_at(&val_comp_);
+      std::destroy_at(&key_comp_);
+      std::construct_at(&key_comp_, other.key_comp_);
+      std::construct_at(&val_comp_, key_comp_);
+    }
+  }
 
   // NOLINTNEXTLINE(bugprone-return-const-ref-from-parameter)
   static constexpr const Key& GetKey(const Key& key) noexcept { return key; }
@@ -1179,8 +1190,8 @@ class [[nodiscard]] LimitedOrdered {
   // std::array<Data, Capacity == 0 ? 1 : Capacity> values_;
   Data values_[Capacity == 0 ? 1 : Capacity];  // NOLINT(*-avoid-c-arrays)
 
-  const key_compare key_comp_ = {};
-  const value_compare val_comp_ = value_compare(key_comp_);
+  key_compare key_comp_ = {};
+  value_compare val_comp_ = value_compare(key_comp_);
 };
 
 // NOLINTEND(readability-identifier-naming)
-- 
2.43.0


From fa2d5ab7aca6a3c062ed8941bbb1aa4c56557b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:47 +0000
Subject: [PATCH 024/101] fix: erasing a key that is an element of the
 LimitedSet or LimitedMap erases only that element

---
 mbo/container/internal/limited_ordered.h | 54 +++++++-----------------
 1 file changed, 16 insertions(+), 38 deletions(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index 1c899e2..d5ddbce 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -928,16 +928,13 @@ class [[nodiscard]] LimitedOrdered {
   }
 
   constexpr size_type erase(const Key& key) {
-    size_type count = 0;
-    while (true) {
-      auto pos = find(key);
-      if (pos == end()) {
-        break;
-      }
-      erase(pos);
-      ++count;
+    // There is at most one, and `key` may refer to it.
+    const iterator pos = find(key);
+    if (pos == end()) {
+      return 0;
     }
-    return count;
+    erase(pos);
+    return 1;
   }
 
   // Erase by a key that is NOT this container's key type.
@@ -953,19 +950,15 @@ class [[nodiscard]] LimitedOrdered {
   requires(!IsIterator<K>::value && !std::same_as<std::remove_cvref_t<K>, std::remove_cvref_t<Key>>)
   // NOLINTNEXTLINE(cppcoreguidelines-missing-std-forward)
   constexpr size_type erase(K&& key) {
-    size_type count = 0;
     if constexpr (kTransparent) {
-      // Nothing to convert: `find` compares the foreign key directly, so no `Key` is
-      // ever built. `key` is therefore never forwarded - there is no target to move
-      // into - which is what the NOLINT above is about.
-      while (true) {
-        auto pos = find(key);
-        if (pos == end()) {
-          break;
-        }
-        erase(pos);
-        ++count;
-      }
+      // Nothing to convert: `equal_range` compares the foreign key directly, so no `Key`
+      // is ever built. `key` is therefore never forwarded - there is no target to move
+      // into - which is what the NOLINT above is about. All equivalent elements are found
+      // before the first is erased, as `key` may refer to one of them.
+      const auto [first, last] = equal_range(key);
+      const size_type count = last - first;
+      erase(const_iterator(first), const_iterator(last));
+      return count;
     } else {
       // A `Key` has to be materialised, because the comparator can only compare keys.
       //
@@ -973,25 +966,10 @@ class [[nodiscard]] LimitedOrdered {
       // temporary or a value, and the compiler picks what is cheapest - a small type in
       // registers beats a const& indirection.
       //
-      // It is forwarded EXACTLY ONCE, into this binding, rather than inside the loop. An
-      // object can only be forwarded once, so forwarding per iteration would claim a move
-      // of `key` every time round (bugprone-use-after-move), and there is no "last
-      // iteration" to single out because the loop runs until `find` fails. Measured with a
-      // `Key` having both converting constructors, over three iterations:
-      //   * `find(key)` inside the loop:                   3 copy-conversions
-      //   * `find(std::forward<K>(key))` inside the loop:   3 move-conversions (and unsound)
-      //   * forwarded once into this binding:               1 conversion, a move for an rvalue
+      // It is forwarded EXACTLY ONCE, into this binding: 1 conversion, a move for an rvalue.
       const Key& key_ref = std::forward<K>(key);
-      while (true) {
-        auto pos = find(key_ref);
-        if (pos == end()) {
-          break;
-        }
-        erase(pos);
-        ++count;
-      }
+      return erase(key_ref);
     }
-    return count;
   }
 
   constexpr std::pair<iterator, bool> insert(const value_type& value) { return emplace(value); }
-- 
2.43.0


From 40ef3991712fc801377440d400b4b53b7c1af12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:47 +0000
Subject: [PATCH 025/101] fix: LimitedSet and LimitedMap take elements from any
 forward iterator

---
 mbo/container/internal/limited_ordered.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index d5ddbce..9b8a06b 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -454,7 +454,7 @@ class [[nodiscard]] LimitedOrdered {
     if constexpr (Options::Has(LimitedOptionsFlag::kRequireSortedInput)) {
       MBO_CONFIG_REQUIRE(std::is_sorted(first, last, key_comp_), "Flag `kRequireSortedInput` violated.");
     }
-    while (first < last) {
+    while (first != last) {
       if constexpr (Options::Has(LimitedOptionsFlag::kRequireSortedInput)) {
         std::construct_at(const_cast<RawValue*>(&values_[size_++].data), *first);
       } else {
@@ -978,7 +978,7 @@ class [[nodiscard]] LimitedOrdered {
 
   template<typename InputIt>
   constexpr void insert(InputIt first, InputIt last) {
-    while (first < last) {
+    while (first != last) {
       emplace(*first);
       ++first;
     }
-- 
2.43.0


From 872d4dca19c2a130da171e9de6129ab22470f5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:47 +0000
Subject: [PATCH 026/101] fix: sorted input does not write beyond the capacity
 of a LimitedSet or LimitedMap

---
 mbo/container/internal/limited_ordered.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index 9b8a06b..6fe49fe 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -456,6 +456,7 @@ class [[nodiscard]] LimitedOrdered {
     }
     while (first != last) {
       if constexpr (Options::Has(LimitedOptionsFlag::kRequireSortedInput)) {
+        MBO_CONFIG_REQUIRE(size_ < Capacity, "Input exceeds capacity.");
         std::construct_at(const_cast<RawValue*>(&values_[size_++].data), *first);
       } else {
         emplace(*first);
-- 
2.43.0


From 06dc8769faeb75a24fb6016eda1469e5190134da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:47 +0000
Subject: [PATCH 027/101] fix: LimitedMap try_emplace and operator[] leave the
 value of an existing key alone, and arguments may be elements

---
 mbo/container/internal/limited_ordered.h | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index 6fe49fe..0b09a0e 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -992,14 +992,14 @@ class [[nodiscard]] LimitedOrdered {
   constexpr std::pair<iterator, bool> try_emplace(const Key& key, Args&&... args) {
     const iterator dst = lower_bound(key);
     if (dst != end() && !key_comp_(dst->first, key) && !key_comp_(key, dst->first)) {
-      dst->second = Mapped(args...);
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `try_emplace` at capacity.");
+    // The arguments may refer to elements, so they are used before those are moved.
+    RawValue new_val(
+        std::piecewise_construct, std::forward_as_tuple(key), std::forward_as_tuple(std::forward<Args>(args)...));
     OpenGap(dst);
-    std::construct_at(
-        const_cast<RawValue*>(&*dst), std::piecewise_construct, std::forward_as_tuple(key),
-        std::forward_as_tuple(std::forward<Args>(args)...));
+    std::construct_at(const_cast<RawValue*>(&*dst), std::move(new_val));
     ++size_;
     return std::make_pair(dst, true);
   }
@@ -1009,14 +1009,15 @@ class [[nodiscard]] LimitedOrdered {
   constexpr std::pair<iterator, bool> try_emplace(Key&& key, Args&&... args) {
     const iterator dst = lower_bound(key);
     if (dst != end() && !key_comp_(dst->first, key) && !key_comp_(key, dst->first)) {
-      dst->second = Mapped(args...);
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `try_emplace` at capacity.");
-    OpenGap(dst);
     // Should possibly use: std::piecewise_construct, std::move(key), std::forward_as_tuple(std::forward<Args>(args)...)
     // But that creates issues with conversion. However, we know the two types, so we do not need piecewise.
-    std::construct_at(const_cast<RawValue*>(&*dst), std::move(key), Mapped(std::forward<Args>(args)...));
+    // The arguments may refer to elements, so they are used before those are moved.
+    RawValue new_val(std::move(key), Mapped(std::forward<Args>(args)...));
+    OpenGap(dst);
+    std::construct_at(const_cast<RawValue*>(&*dst), std::move(new_val));
     ++size_;
     return std::make_pair(dst, true);
   }
@@ -1030,8 +1031,9 @@ class [[nodiscard]] LimitedOrdered {
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `insert_or_assign` at capacity.");
+    RawValue new_val(key, std::forward<V>(value));  // The arguments may refer to elements.
     OpenGap(dst);
-    std::construct_at(const_cast<RawValue*>(&*dst), key, std::forward<V>(value));
+    std::construct_at(const_cast<RawValue*>(&*dst), std::move(new_val));
     ++size_;
     return std::make_pair(dst, true);
   }
@@ -1045,8 +1047,9 @@ class [[nodiscard]] LimitedOrdered {
       return std::make_pair(dst, false);
     }
     MBO_CONFIG_REQUIRE(size_ < Capacity, "Called `emplace` at capacity.");
+    RawValue new_val(std::move(key), std::forward<V>(value));  // The arguments may refer to elements.
     OpenGap(dst);
-    std::construct_at(const_cast<RawValue*>(&*dst), std::move(key), std::forward<V>(value));
+    std::construct_at(const_cast<RawValue*>(&*dst), std::move(new_val));
     ++size_;
     return std::make_pair(dst, true);
   }
-- 
2.43.0


From a6282cee6b06518b5938c5d364878c1bdc93fd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:05 +0000
Subject: [PATCH 028/101] fix: LimitedSets and LimitedMaps of partially or
 weakly ordered values can be ordered

---
 mbo/container/limited_map.h | 5 ++++-
 mbo/container/limited_set.h | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/mbo/container/limited_map.h b/mbo/container/limited_map.h
index c5b895b..2ffa598 100644
--- a/mbo/container/limited_map.h
+++ b/mbo/container/limited_map.h
@@ -252,7 +252,10 @@ template<
 requires(std::three_way_comparable_with<LHS_K, RHS_K> && std::three_way_comparable_with<LHS_V, RHS_V>)
 constexpr inline auto operator<=>(
     const LimitedMap<LHS_K, LHS_V, LN, LKComp>& lhs,
-    const LimitedMap<RHS_K, RHS_V, RN, RKComp>& rhs) noexcept {
+    const LimitedMap<RHS_K, RHS_V, RN, RKComp>& rhs) noexcept
+    -> std::common_comparison_category_t<
+        std::compare_three_way_result_t<LHS_K, RHS_K>,
+        std::compare_three_way_result_t<LHS_V, RHS_V>> {
   auto lhs_it = lhs.begin();
   auto rhs_it = rhs.begin();
   while (lhs_it != lhs.end() && rhs_it != rhs.end()) {
diff --git a/mbo/container/limited_set.h b/mbo/container/limited_set.h
index 3f48364..456d016 100644
--- a/mbo/container/limited_set.h
+++ b/mbo/container/limited_set.h
@@ -185,7 +185,7 @@ template<auto LN, auto RN, typename LHS, typename RHS, typename LCompare, typena
 requires std::three_way_comparable_with<LHS, RHS>
 constexpr inline auto operator<=>(
     const LimitedSet<LHS, LN, LCompare>& lhs,
-    const LimitedSet<RHS, RN, RCompare>& rhs) noexcept {
+    const LimitedSet<RHS, RN, RCompare>& rhs) noexcept -> std::compare_three_way_result_t<LHS, RHS> {
   auto lhs_it = lhs.begin();
   auto rhs_it = rhs.begin();
   while (lhs_it != lhs.end() && rhs_it != rhs.end()) {
-- 
2.43.0


From 5251f21b9c2255d10ab844a773dd49a1dfee0266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:05 +0000
Subject: [PATCH 029/101] fix: MakeLimitedSet does not move out of lvalue
 arguments

---
 mbo/container/limited_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/container/limited_set.h b/mbo/container/limited_set.h
index 456d016..07626ee 100644
--- a/mbo/container/limited_set.h
+++ b/mbo/container/limited_set.h
@@ -266,7 +266,7 @@ requires((types::NotInitializerList<Args> && !std::forward_iterator<Args> && !ty
 inline constexpr auto MakeLimitedSet(Args&&... args) noexcept {
   using T = std::common_type_t<Args...>;
   auto result = LimitedSet<T, sizeof...(Args)>();
-  (result.emplace(std::forward<T>(args)), ...);
+  (result.emplace(std::forward<Args>(args)), ...);
   return result;
 }
 
-- 
2.43.0


From a91f99b4d391bf91d425244af85b26fc4c9c2b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:14 +0000
Subject: [PATCH 030/101] fix: a LimitedMap can require sorted input

---
 mbo/container/internal/limited_ordered.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mbo/container/internal/limited_ordered.h b/mbo/container/internal/limited_ordered.h
index 0b09a0e..301e8d2 100644
--- a/mbo/container/internal/limited_ordered.h
+++ b/mbo/container/internal/limited_ordered.h
@@ -452,7 +452,12 @@ class [[nodiscard]] LimitedOrdered {
   constexpr LimitedOrdered(It first, It last, const Compare& key_comp = Compare()) noexcept(!kRequireThrows)
       : key_comp_(key_comp) {
     if constexpr (Options::Has(LimitedOptionsFlag::kRequireSortedInput)) {
-      MBO_CONFIG_REQUIRE(std::is_sorted(first, last, key_comp_), "Flag `kRequireSortedInput` violated.");
+      if constexpr (kKeyOnly) {
+        MBO_CONFIG_REQUIRE(std::is_sorted(first, last, key_comp_), "Flag `kRequireSortedInput` violated.");
+      } else {
+        const auto less = [this](const auto& lhs, const auto& rhs) { return key_comp_(lhs.first, rhs.first); };
+        MBO_CONFIG_REQUIRE(std::is_sorted(first, last, less), "Flag `kRequireSortedInput` violated.");
+      }
     }
     while (first != last) {
       if constexpr (Options::Has(LimitedOptionsFlag::kRequireSortedInput)) {
-- 
2.43.0


From 850938b34beb1feb0d6b119cda53b54ecec1548a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:32 +0000
Subject: [PATCH 031/101] fix: AnyScan and ConstScan iterators at the same
 element are equal

---
 mbo/container/any_scan.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/container/any_scan.h b/mbo/container/any_scan.h
index 019a4f0..3fdfdd8 100644
--- a/mbo/container/any_scan.h
+++ b/mbo/container/any_scan.h
@@ -470,7 +470,7 @@ class AnyScanImpl {
       if constexpr (kAccessByRef) {
         // Approximate equal address means equal iterator. That is not always correct as a container
         // might have the same element reference twice.
-        return &funcs_.curr() != &other.funcs_.curr();
+        return &funcs_.curr() == &other.funcs_.curr();
       } else {
         // Cannot take address of rvalue temp. Comparing actual values would be incorrect.
         return false;
-- 
2.43.0


From 2e3250d5273293f65a11833c7823ba565a0a3167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:18 +0000
Subject: [PATCH 032/101] fix: postfix increment of scan iterators returns the
 previous position

---
 mbo/container/any_scan.h | 41 ++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/mbo/container/any_scan.h b/mbo/container/any_scan.h
index 3fdfdd8..89761bd 100644
--- a/mbo/container/any_scan.h
+++ b/mbo/container/any_scan.h
@@ -289,6 +289,7 @@ class AnyScanImpl {
     FuncMore more;
     FuncCurr curr;
     FuncNext next;
+    std::function<IterFuncs()> copy;  // Creates functions with their own copy of the position.
   };
 
   using FuncIter = std::function<IterFuncs()>;
@@ -351,6 +352,22 @@ class AnyScanImpl {
     return std::shared_ptr<Iterator>(new Iterator(container.begin()));
   }
 
+  template<typename Data, typename Iterator>
+  static IterFuncs MakeIterFuncs(const Data& data, const std::shared_ptr<Iterator>& pos) {
+    return IterFuncs{
+        .more = [data = data, pos = pos]() -> bool { return *pos != data.container().end(); },
+        .curr = [&it = *pos]() -> AccessType {
+          if constexpr (kAccessByRef) {
+            return *it;
+          } else {
+            return AccessType(*it);
+          }
+        },
+        .next = [&it = *pos] { ++it; },
+        .copy = [data = data, pos = pos] { return MakeIterFuncs(data, std::make_shared<Iterator>(*pos)); },
+    };
+  }
+
   // NOLINTBEGIN(bugprone-forwarding-reference-overload)
 
   // For MakAnyScan / MakeConstScan
@@ -358,15 +375,7 @@ class AnyScanImpl {
   requires kAccessByRef
   explicit AnyScanImpl(const MakeAnyScanData<Container, kScanMode>& data)
       : funcs_{
-            .iter =
-                [data = data] {
-                  auto pos = MakeSharedIterator(data.container());
-                  return IterFuncs{
-                      .more = [data = data, pos = pos]() -> bool { return *pos != data.container().end(); },
-                      .curr = [&it = *pos]() -> AccessType { return *it; },
-                      .next = [&it = *pos] { ++it; },
-                  };
-                },
+            .iter = [data = data] { return MakeIterFuncs(data, MakeSharedIterator(data.container())); },
             .empty = [data = data] { return data.empty(); },
             .size = [data = data] { return data.size(); },
         } {}
@@ -380,15 +389,7 @@ class AnyScanImpl {
   explicit AnyScanImpl(const MakeAnyScanData<Container, kScanMode>& data)
       : funcs_{
             // NOTE: data must be copied here!
-            .iter =
-                [data = data] {
-                  auto pos = MakeSharedIterator(data.container());
-                  return IterFuncs{
-                      .more = [data = data, pos = pos]() -> bool { return *pos != data.container().end(); },
-                      .curr = [&it = *pos]() -> AccessType { return AccessType(*it); },
-                      .next = [&it = *pos] { ++it; },
-                  };
-                },
+            .iter = [data = data] { return MakeIterFuncs(data, MakeSharedIterator(data.container())); },
             .empty = [data = data] { return data.empty(); },
             .size = [data = data] { return data.size(); },
         } {}
@@ -411,6 +412,7 @@ class AnyScanImpl {
               .more = [] { return false; },
               .curr = nullptr,
               .next = [] {},
+              .copy = nullptr,
           } {}
 
     explicit iterator_impl(const AccessFuncs& funcs) : funcs_(funcs.iter()) {}
@@ -452,6 +454,9 @@ class AnyScanImpl {
 
     iterator_impl operator++(int) noexcept {  // NOLINT(cert-dcl21-cpp)
       iterator_impl result = *this;
+      if (funcs_.copy != nullptr) {
+        funcs_ = funcs_.copy();  // Otherwise `result` would share its position with `this`.
+      }
       funcs_.next();
       return result;
     }
-- 
2.43.0


From 0fa428009c8e4cbebcfa40c6e1d4b441d7d3e221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 033/101] fix: assigning nullopt to an OptionalDataOrRef
 returns it

---
 mbo/types/optional_data_or_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/types/optional_data_or_ref.h b/mbo/types/optional_data_or_ref.h
index e5c21ea..38a5cfb 100644
--- a/mbo/types/optional_data_or_ref.h
+++ b/mbo/types/optional_data_or_ref.h
@@ -123,7 +123,7 @@ class OptionalDataOrRef {
     return *this;
   }
 
-  constexpr OptionalDataOrRef& operator=(std::nullopt_t /* unused */) { reset(); }
+  constexpr OptionalDataOrRef& operator=(std::nullopt_t /* unused */) { return reset(); }
 
   constexpr OptionalDataOrRef& operator=(value_type&& v) {
     emplace(std::move(v));
-- 
2.43.0


From 20ceba34400032f3a52eccc8c0cd8d0721085cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 034/101] fix: moving an OptionalDataOrRef destroys the
 moved-from data

---
 mbo/types/optional_data_or_ref.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mbo/types/optional_data_or_ref.h b/mbo/types/optional_data_or_ref.h
index 38a5cfb..2d6baeb 100644
--- a/mbo/types/optional_data_or_ref.h
+++ b/mbo/types/optional_data_or_ref.h
@@ -103,8 +103,7 @@ class OptionalDataOrRef {
   {
     if (other.is_val_) {
       emplace(std::move(other.union_.val));
-      other.is_val_ = false;
-      other.union_.ptr = nullptr;
+      other.reset();
     } else {
       Destruct(other.union_.ptr);
     }
@@ -113,10 +112,12 @@ class OptionalDataOrRef {
   constexpr OptionalDataOrRef& operator=(OptionalDataOrRef&& other)
   requires std::move_constructible<T>
   {
+    if (this == &other) {
+      return *this;
+    }
     if (other.is_val_) {
       emplace(std::move(other.union_.val));
-      other.is_val_ = false;
-      other.union_.ptr = nullptr;
+      other.reset();
     } else {
       Destruct(other.union_.ptr);
     }
-- 
2.43.0


From e22e541d0d1b30bbc8e2503d98b120acd9ed66b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 035/101] fix: optional references of partially or weakly
 ordered values can be compared

---
 mbo/types/optional_data_or_ref.h | 4 ++--
 mbo/types/optional_ref.h         | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/mbo/types/optional_data_or_ref.h b/mbo/types/optional_data_or_ref.h
index 2d6baeb..3a1c519 100644
--- a/mbo/types/optional_data_or_ref.h
+++ b/mbo/types/optional_data_or_ref.h
@@ -255,11 +255,11 @@ class OptionalDataOrRef {
   template<std::three_way_comparable_with<T> U = T, typename RefU = U>
   constexpr auto operator<=>(const OptionalDataOrRef<U, RefU>& rhs) const {
     using Result = decltype(std::declval<T>() <=> std::declval<T>());
-    if (Result result = has_value() <=> rhs.has_value(); result != Result::equal) {
+    if (Result result = has_value() <=> rhs.has_value(); result != Result::equivalent) {
       return result;
     }
     if (!has_value()) {
-      return Result::equal;
+      return Result::equivalent;
     }
     return value() <=> rhs.value();
   }
diff --git a/mbo/types/optional_ref.h b/mbo/types/optional_ref.h
index 1e8ae60..57850b0 100644
--- a/mbo/types/optional_ref.h
+++ b/mbo/types/optional_ref.h
@@ -123,18 +123,18 @@ class OptionalRef {
   template<std::three_way_comparable_with<T> U = T>
   constexpr auto operator<=>(const OptionalRef<U>& rhs) const {
     using Result = decltype(std::declval<T>() <=> std::declval<T>());
-    if (Result result = has_value() <=> rhs.has_value(); result != Result::equal) {
+    if (Result result = has_value() <=> rhs.has_value(); result != Result::equivalent) {
       return result;
     }
     if (!has_value()) {
-      return Result::equal;
+      return Result::equivalent;
     }
     return value() <=> rhs.value();
   }
 
   constexpr bool operator==(std::nullopt_t /*unused*/) const noexcept { return v_ == nullptr; }
 
-  constexpr bool operator<(std::nullopt_t /*unused*/) const noexcept { return v_ < nullptr; }
+  constexpr bool operator<(std::nullopt_t /*unused*/) const noexcept { return false; }
 
   constexpr std::strong_ordering operator<=>(std::nullopt_t /*unused*/) const noexcept {
     if (!has_value()) {
-- 
2.43.0


From 3668caab19cc94f92afec1acae047f9cbab944b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:50 +0000
Subject: [PATCH 036/101] fix: optional references can be hashed

---
 mbo/types/optional_data_or_ref.h | 2 +-
 mbo/types/optional_ref.h         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbo/types/optional_data_or_ref.h b/mbo/types/optional_data_or_ref.h
index 3a1c519..7633ae6 100644
--- a/mbo/types/optional_data_or_ref.h
+++ b/mbo/types/optional_data_or_ref.h
@@ -308,7 +308,7 @@ class OptionalDataOrRef {
     if (v.has_value()) {
       return H::combine(std::move(hash), absl::HashOf<>(v.value()));
     } else {
-      return H::combine(std::move(hash), absl::HashOf<>(std::nullopt));
+      return H::combine(std::move(hash), false);
     }
   }
 
diff --git a/mbo/types/optional_ref.h b/mbo/types/optional_ref.h
index 57850b0..c13083c 100644
--- a/mbo/types/optional_ref.h
+++ b/mbo/types/optional_ref.h
@@ -176,7 +176,7 @@ class OptionalRef {
     if (v.has_value()) {
       return H::combine(std::move(hash), absl::HashOf<>(v.value()));
     } else {
-      return H::combine(std::move(hash), absl::HashOf<>(std::nullopt));
+      return H::combine(std::move(hash), false);
     }
   }
 
-- 
2.43.0


From 85260ce803f5ee054894fbc9f86eca7211d0776c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:46 +0000
Subject: [PATCH 037/101] fix: AtLast::Find returns the separator's position in
 the whole text

---
 mbo/strings/split.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/strings/split.h b/mbo/strings/split.h
index 5f94a51..7dd46f9 100644
--- a/mbo/strings/split.h
+++ b/mbo/strings/split.h
@@ -31,7 +31,7 @@ class AtLast {
     if (next_pos == std::string_view::npos) {
       return std::string_view{text.data() + text.size(), 0};
     }
-    return text.substr(next_pos, 1);
+    return text.substr(pos + next_pos, 1);
   }
 
  private:
-- 
2.43.0


From f3f9321bcb422ccf16eec9300f89832d72cda12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:46 +0000
Subject: [PATCH 038/101] fix: ParseString accepts an octal escape with a
 single digit at the end of the input

---
 mbo/strings/parse.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mbo/strings/parse.cc b/mbo/strings/parse.cc
index c82bb70..81143cb 100644
--- a/mbo/strings/parse.cc
+++ b/mbo/strings/parse.cc
@@ -29,11 +29,11 @@
 namespace mbo::strings {
 namespace {
 absl::StatusOr<char> ParseOctal(char first_char, std::string_view& data) {
-  if (data.empty()) {
-    return absl::InvalidArgumentError("ParseString input has bad octal sequence.");
-  }
   const bool octal_23 = first_char == 'o';
   if (octal_23) {
+    if (data.empty()) {
+      return absl::InvalidArgumentError("ParseString input has bad octal sequence.");
+    }
     if (data.size() < 3 || data.front() != '{') {
       return absl::InvalidArgumentError("ParseString input has bad octal C++23 sequence.");
     }
-- 
2.43.0


From 4c2cfc89ef0f2397657d4f7650d689750deab2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:46 +0000
Subject: [PATCH 039/101] fix: ParseString rejects a C++23 octal escape that
 does not start with an octal digit

---
 mbo/strings/parse.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mbo/strings/parse.cc b/mbo/strings/parse.cc
index 81143cb..1385213 100644
--- a/mbo/strings/parse.cc
+++ b/mbo/strings/parse.cc
@@ -39,6 +39,9 @@ absl::StatusOr<char> ParseOctal(char first_char, std::string_view& data) {
     }
     data.remove_prefix(1);
     first_char = PopChar(data);
+    if (first_char < '0' || first_char > '7') {
+      return absl::InvalidArgumentError("ParseString input has bad octal C++23 sequence.");
+    }
   }
   static constexpr int kOctalDigit = 8;
   int next_chr = first_char - '0';
-- 
2.43.0


From e5ce755717ae517a86a408e15c5b05a99b25ba66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:46 +0000
Subject: [PATCH 040/101] fix: ParseStringList stops at stop_at_str and at
 unquoted characters without dropping a character

---
 mbo/strings/parse.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mbo/strings/parse.cc b/mbo/strings/parse.cc
index 1385213..b673fe9 100644
--- a/mbo/strings/parse.cc
+++ b/mbo/strings/parse.cc
@@ -245,7 +245,11 @@ absl::StatusOr<std::vector<std::string>> ParseStringList(const ParseOptions& opt
   if (str_options.split_at_any_of.empty()) {
     str_options.split_at_any_of = ",";
   }
-  if (absl::StrContains(options.stop_at_any_of, data.front())) {
+  const auto stop_list = [&options](std::string_view text) {
+    return absl::StrContains(options.stop_at_any_of, text.front())
+           || (!options.stop_at_str.empty() && text.starts_with(options.stop_at_str));
+  };
+  if (stop_list(data)) {
     return result;
   }
   if (data.size() == 1 && absl::StrContains(str_options.split_at_any_of, data.front())) {
@@ -260,10 +264,10 @@ absl::StatusOr<std::vector<std::string>> ParseStringList(const ParseOptions& opt
     if (data.empty()) {
       return result;
     }
-    if (absl::StrContains(options.stop_at_any_of, data.front())) {
+    if (stop_list(data) || !absl::StrContains(str_options.split_at_any_of, data.front())) {
       return result;
     }
-    if (data.size() == 1 && absl::StrContains(str_options.split_at_any_of, data.front())) {
+    if (data.size() == 1) {
       result.emplace_back("");
       data.remove_prefix(1);
       return result;
-- 
2.43.0


From 5c4d7cc0a93cc674667a57a6835ca047b40bb0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:55 +0000
Subject: [PATCH 041/101] fix: StatusBuilder::SetPrepend puts the streamed text
 in front of the message

---
 mbo/status/status_builder.cc | 13 ++++++++++---
 mbo/status/status_builder.h  |  1 +
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/mbo/status/status_builder.cc b/mbo/status/status_builder.cc
index 505af1a..b1a527f 100644
--- a/mbo/status/status_builder.cc
+++ b/mbo/status/status_builder.cc
@@ -15,6 +15,7 @@
 
 #include "mbo/status/status_builder.h"
 
+#include <string>
 #include <string_view>
 #include <utility>
 
@@ -25,6 +26,9 @@
 namespace mbo::status {
 
 StatusBuilder& StatusBuilder::SetPrepend() & {
+  if (data_) {
+    data_->prepend = true;
+  }
   return *this;
 }
 
@@ -52,9 +56,12 @@ StatusBuilder::operator absl::Status() const & {
   if (!data_) {
     return absl::OkStatus();
   }
-  absl::Status result(
-      data_->status.code(),
-      data_->appended ? data_->stream.str() : absl::StrCat(data_->status.message(), data_->stream.str()));
+  std::string message = data_->stream.str();
+  if (!data_->appended) {
+    message = data_->prepend ? absl::StrCat(message, data_->status.message())
+                             : absl::StrCat(data_->status.message(), message);
+  }
+  absl::Status result(data_->status.code(), message);
   data_->status.ForEachPayload(
       [&result](std::string_view url, const absl::Cord& payload) { result.SetPayload(url, payload); });
   return result;
diff --git a/mbo/status/status_builder.h b/mbo/status/status_builder.h
index 095df2d..00b2d14 100644
--- a/mbo/status/status_builder.h
+++ b/mbo/status/status_builder.h
@@ -128,6 +128,7 @@ class StatusBuilder final {
     absl::Status status;
     std::stringstream stream;
     bool appended = false;
+    bool prepend = false;
   };
 
   std::unique_ptr<Data> data_;
-- 
2.43.0


From 32c772dc42f9d6e544622b2faea63d037b7108b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:55 +0000
Subject: [PATCH 042/101] fix: moving an already moved LogTiming does not log
 it again

---
 mbo/log/log_timing.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/log/log_timing.h b/mbo/log/log_timing.h
index 22295eb..3445aae 100644
--- a/mbo/log/log_timing.h
+++ b/mbo/log/log_timing.h
@@ -70,7 +70,7 @@ class LogTimingImpl final {
     Once(const Once&) = delete;
     Once& operator=(const Once&) = delete;
 
-    Once(Once&& other) noexcept { other.once_ = false; }
+    Once(Once&& other) noexcept : once_(std::exchange(other.once_, false)) {}
 
     Once& operator=(Once&&) = delete;
 
-- 
2.43.0


From c16a1a39edee5df2ccb30c6291bd007a0d9ae7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:55 +0000
Subject: [PATCH 043/101] fix: LogTiming accepts the function name operator()

---
 mbo/log/log_timing.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mbo/log/log_timing.cc b/mbo/log/log_timing.cc
index 11fc1b7..b938bec 100644
--- a/mbo/log/log_timing.cc
+++ b/mbo/log/log_timing.cc
@@ -138,6 +138,10 @@ std::string LogTimingImpl::StripFunctionName(std::string_view function) {
         static constexpr std::string_view kConversion = "operator()";
         if (function.substr(0, pos + 2).ends_with(kConversion)) {
           function.remove_suffix(function.length() - (pos + 2));
+          if (pos <= kConversion.length()) {
+            pos = 0;
+            break;
+          }
           pos -= kConversion.length();
           continue;
         }
-- 
2.43.0


From 866742c83684cad56cde001eabbc33968c041b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:55 +0000
Subject: [PATCH 044/101] fix: MBO_RETURN_IF_ERROR accepts an expression with a
 variable named var

---
 mbo/status/status_macros.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mbo/status/status_macros.h b/mbo/status/status_macros.h
index 6560481..5c057a8 100644
--- a/mbo/status/status_macros.h
+++ b/mbo/status/status_macros.h
@@ -44,10 +44,11 @@
 // NOLINTNEXTLINE(cppcoreguidelines-macro-usage)
 #define MBO_RETURN_IF_ERROR(expr)                                                    \
   MBO_PRIVATE_STATUS_STATUS_MACROS_ELSE_BLOCKER_                                     \
-  if (auto var = (expr); var.ok()) { /* NOLINT(*-unnecessary-copy-initialization) */ \
+  if (auto _status_macro_var_ = (expr);                                              \
+      _status_macro_var_.ok()) { /* NOLINT(*-unnecessary-copy-initialization) */     \
     /* GOOD */                                                                       \
   } else                                                                             \
-    return mbo::status::StatusBuilder(var)
+    return mbo::status::StatusBuilder(_status_macro_var_)
 
 // Similar to MBO_RETURN_IF_ERROR but this assigns the result of an `absl::StatusOr<T>`, to a target
 // which can be an existing variable or a new variable declaration. The asignment is by move.
-- 
2.43.0


From 83cd6a256438be1619268efc58570a43d5744083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:33 +0000
Subject: [PATCH 045/101] fix: NormalizePath leaves no trailing separator
 behind '/.' and '/..'

---
 mbo/file/file.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mbo/file/file.cc b/mbo/file/file.cc
index cbb963a..5ce6280 100644
--- a/mbo/file/file.cc
+++ b/mbo/file/file.cc
@@ -59,7 +59,9 @@ std::filesystem::path NormalizePath(const std::filesystem::path& path) {
          && (path_str.back() == static_cast<PathChar>('/') || path_str.back() == static_cast<PathChar>('\\'))) {
     path_str.remove_suffix(1);
   }
-  return std::filesystem::path(path_str).lexically_normal();
+  std::filesystem::path result = std::filesystem::path(path_str).lexically_normal();
+  // The normal form of 'a/.' and 'a/b/..' is 'a/'.
+  return !result.has_filename() && result.has_relative_path() ? result.parent_path() : result;
 }
 
 absl::Status SetContents(const std::filesystem::path& file_name, std::string_view content) {
-- 
2.43.0


From 73ff6f3bb518b1a95b0c4ce8fead0560e5a3b54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:33 +0000
Subject: [PATCH 046/101] fix: JoinPathsRespectAbsolute respects absolute paths
 behind an empty one

---
 mbo/file/file.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/file/file.h b/mbo/file/file.h
index cb951bb..7fa2e8b 100644
--- a/mbo/file/file.h
+++ b/mbo/file/file.h
@@ -65,7 +65,7 @@ inline std::filesystem::path JoinPathsRespectAbsolute(const std::filesystem::pat
     if constexpr (sizeof...(paths) == 0) {
       return std::filesystem::path(first_path);
     } else if (first_path.empty()) {
-      return JoinPaths(paths...);
+      return JoinPathsRespectAbsolute(paths...);
     } else {
       // In theory this is what `fs::path /=` should do. But then it does way more.
       auto joined = JoinPathsRespectAbsolute(paths...);
-- 
2.43.0


From 248b37ea110739436037fcdf7451c4d299f5d8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:33 +0000
Subject: [PATCH 047/101] fix: GetContents reports an error for a directory

---
 mbo/file/file.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mbo/file/file.cc b/mbo/file/file.cc
index 5ce6280..e25b603 100644
--- a/mbo/file/file.cc
+++ b/mbo/file/file.cc
@@ -100,6 +100,10 @@ absl::Status Readable(const std::filesystem::path& file_name) {
 }
 
 absl::StatusOr<std::string> GetContents(const std::filesystem::path& file_name) {
+  std::error_code error;
+  if (std::filesystem::is_directory(file_name, error)) {
+    return absl::FailedPreconditionError(absl::StrFormat("Cannot open directory for reading: '%s'", file_name));
+  }
   std::ifstream ifs;
   ifs.exceptions(static_cast<std::ios_base::iostate>(0));
   ifs.open(file_name, std::ios_base::in);
-- 
2.43.0


From 3a7399854aa9d5423a46b2e46e5af915d64dd3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:33 +0000
Subject: [PATCH 048/101] fix: Readable returns an error instead of throwing
 when the path cannot be accessed

---
 mbo/file/file.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mbo/file/file.cc b/mbo/file/file.cc
index e25b603..cf0ac45 100644
--- a/mbo/file/file.cc
+++ b/mbo/file/file.cc
@@ -81,10 +81,15 @@ absl::Status SetContents(const std::filesystem::path& file_name, std::string_vie
 }
 
 absl::Status Readable(const std::filesystem::path& file_name) {
-  if (!std::filesystem::exists(file_name)) {
+  std::error_code error;
+  const std::filesystem::file_status status = std::filesystem::status(file_name, error);
+  if (status.type() == std::filesystem::file_type::not_found) {
     return absl::NotFoundError(absl::StrFormat("File does not exist: '%s'", file_name));
   }
-  if (std::filesystem::is_directory(file_name)) {
+  if (error) {
+    return absl::UnknownError(absl::StrFormat("Unable to access file: '%s': %s", file_name, error.message()));
+  }
+  if (std::filesystem::is_directory(status)) {
     return absl::FailedPreconditionError(absl::StrFormat("Cannot open directory for reading: '%s'", file_name));
   }
   // Perform same operation as `GetContents` and use the ifstream constructor
-- 
2.43.0


From c29abe246db6c76007cefb613d780c64a4e2e3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:33 +0000
Subject: [PATCH 049/101] fix: INI lines with only whitespace do not set an
 empty key

---
 mbo/file/ini/ini_file.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/file/ini/ini_file.cc b/mbo/file/ini/ini_file.cc
index 4400212..5fddefb 100644
--- a/mbo/file/ini/ini_file.cc
+++ b/mbo/file/ini/ini_file.cc
@@ -50,7 +50,7 @@ IniFile IniFile::Parse(std::string_view content) {
       group = line;
       continue;
     }
-    if (line.starts_with(';') || line.starts_with('#')) {
+    if (line.empty() || line.starts_with(';') || line.starts_with('#')) {
       continue;
     }
     const std::pair<std::string_view, std::string_view> key_val = absl::StrSplit(line, absl::MaxSplits('=', 1));
-- 
2.43.0


From 0bed79d9edf1b26a07c70248802286c58e22c710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:33 +0000
Subject: [PATCH 050/101] fix: IniFile::GetGroupData ignores outer whitespace
 of the group like all other functions

---
 mbo/file/ini/ini_file.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/file/ini/ini_file.h b/mbo/file/ini/ini_file.h
index 6dbe778..9189872 100644
--- a/mbo/file/ini/ini_file.h
+++ b/mbo/file/ini/ini_file.h
@@ -104,7 +104,7 @@ class IniFile {
 
   absl::btree_map<std::string, std::string> GetGroupData(std::string_view group) const {
     absl::btree_map<std::string, std::string> result;
-    const auto group_it = data_.find(group);
+    const auto group_it = data_.find(absl::StripAsciiWhitespace(group));
     if (group_it != data_.end()) {
       for (const auto& kv : group_it->second) {
         result.emplace(kv);
-- 
2.43.0


From 104b32e871428309c3df8fbc8f5b58008da88a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 051/101] fix: '^' and '$' in glob patterns match only
 themselves

---
 mbo/file/glob.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index a513b71..16a692c 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -392,6 +392,8 @@ MBO_ALWAYS_INLINE absl::StatusOr<std::string> Glob2Re2ExpressionImpl(
       case '|':
       case '+':
       case '.':
+      case '^':
+      case '$':
         // Characters that need to be escaped since they are literal in rglob but special in re2.
         re2_pattern += '\\';
         re2_pattern += chr;
-- 
2.43.0


From b69af78f605d15410f12d8e17f578ce3c1352b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 052/101] fix: '[' in glob patterns matches only itself if
 ranges are disabled

---
 mbo/file/glob.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index 16a692c..9d83361 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -401,7 +401,7 @@ MBO_ALWAYS_INLINE absl::StatusOr<std::string> Glob2Re2ExpressionImpl(
         continue;
       case '[':
         if (!options.allow_ranges) {
-          re2_pattern += pattern.front();
+          absl::StrAppend(&re2_pattern, "\\[");
           pattern.remove_prefix(1);
           continue;
         }
-- 
2.43.0


From 2e1734a2c7121932a170cf8a7e4883c72c4a0be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 053/101] fix: escaped letters and digits in glob patterns
 match only themselves

---
 mbo/file/glob.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index 9d83361..931041d 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -98,6 +98,14 @@ MBO_ALWAYS_INLINE bool GlobFindRangePrefix(std::string_view& pattern, std::strin
   return false;
 }
 
+// Append the escape sequence `\<chr>`. Only punctuation may be escaped in RE2, anything else has a special meaning.
+void AppendEscaped(char chr, std::string& re2_pattern) {
+  if (absl::ascii_ispunct(chr) && chr != '_') {
+    re2_pattern += '\\';
+  }
+  re2_pattern += chr;
+}
+
 bool CopytNextChar(std::string_view& pattern, std::string& re2_pattern) {
   if (pattern.empty()) {
     return false;
@@ -110,7 +118,7 @@ bool CopytNextChar(std::string_view& pattern, std::string& re2_pattern) {
   if (pattern.size() < 2) {
     return false;
   }
-  re2_pattern.append(pattern.substr(0, 2));
+  AppendEscaped(pattern[1], re2_pattern);
   pattern.remove_prefix(2);
   return true;
 }
@@ -374,7 +382,7 @@ MBO_ALWAYS_INLINE absl::StatusOr<std::string> Glob2Re2ExpressionImpl(
         continue;
       case '\\':
         // if (pattern.size() < 2) { already handled
-        absl::StrAppend(&re2_pattern, pattern.substr(0, 2));
+        AppendEscaped(pattern[1], re2_pattern);
         pattern.remove_prefix(2);
         continue;
       case '*': {
-- 
2.43.0


From 6446d7ad847ef2b5c084590a98ef1a86d6fa10fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 054/101] fix: a character-class does not end the glob range it
 is in

---
 mbo/file/glob.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index 931041d..b8a827e 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -68,7 +68,7 @@ MBO_ALWAYS_INLINE absl::Status MaybeCharacterClass(std::string_view& glob_patter
     return absl::InvalidArgumentError("Unterminated character-class.");
   }
   MBO_RETURN_IF_ERROR(ValidateCharacterClass(glob_pattern.substr(2, end - 2)));
-  ++end;
+  end += 2;
   absl::StrAppend(&re2_pattern, glob_pattern.substr(0, end));
   glob_pattern.remove_prefix(end);
   return absl::OkStatus();
-- 
2.43.0


From e2cb153efdc1a5379a32d5815cb6ec78d365617d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 055/101] fix: '[/]' inside a glob range is part of that range

---
 mbo/file/glob.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index b8a827e..b7116bd 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -249,9 +249,20 @@ MBO_ALWAYS_INLINE absl::StatusOr<std::string> GlobNormalizeStr(
         continue;
       case '[':
         if (!options.allow_ranges || !glob_pattern.starts_with("/]")) {
-          result += chr;  // replace '[/]' with '/'.
+          result += chr;
+          if (options.allow_ranges) {
+            // Copy the whole range as is. Errors are reported when the range gets converted.
+            std::string_view after_range{glob_pattern.data() - 1, glob_pattern.size() + 1};
+            std::string tmp_re2;
+            if (GlobFindRange(after_range, tmp_re2).ok()) {
+              result.append(glob_pattern.substr(0, glob_pattern.size() - after_range.size()));
+              glob_pattern.remove_prefix(glob_pattern.size() - after_range.size());
+              past_last_escape = result.size();
+            }
+          }
           continue;
         }
+        // Replace '[/]' with '/'.
         glob_pattern.remove_prefix(2);
         chr = '/';
         [[fallthrough]];
-- 
2.43.0


From 85c8fcdacb44afcbcb5abbacebd55d8502212ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 056/101] fix: '**' in glob patterns matches newlines like all
 other wildcards

---
 mbo/file/glob.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index b7116bd..a1c9a39 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -471,7 +471,9 @@ absl::StatusOr<std::unique_ptr<const RE2>> Glob2Re2(
     std::string_view pattern,
     const Glob2Re2Options& re2_convert_options) {
   MBO_MOVE_TO_OR_RETURN(Glob2Re2Expression(pattern, re2_convert_options), const std::string re2_pattern);
-  auto re2 = std::make_unique<RE2>(re2_pattern, re2_convert_options.re2_options);
+  RE2::Options re2_options = re2_convert_options.re2_options;
+  re2_options.set_dot_nl(true);  // The only unescaped '.' come from '**' which matches any character.
+  auto re2 = std::make_unique<RE2>(re2_pattern, re2_options);
   if (re2->error_code() != RE2::NoError) {
     return absl::InvalidArgumentError(absl::StrFormat("Could not compile re2: '%s': %s.", pattern, re2->error()));
   }
-- 
2.43.0


From a9ba0bb60e5744a9ddf36d623b81442e97e75424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 057/101] fix: GlobSplit removes the escapes from the root

---
 mbo/file/glob.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index a1c9a39..ef5642c 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -22,6 +22,7 @@
 #include <string>
 #include <string_view>
 #include <system_error>
+#include <utility>
 
 #include "absl/algorithm/container.h"
 #include "absl/status/status.h"
@@ -482,8 +483,13 @@ absl::StatusOr<std::unique_ptr<const RE2>> Glob2Re2(
 
 absl::StatusOr<RootAndPattern> GlobSplit(std::string_view pattern, const Glob2Re2Options& options) {
   MBO_MOVE_TO_OR_RETURN(GlobNormalizeData(pattern, options), const GlobData data);
-  std::string_view root(data.pattern);
-  root.remove_suffix(root.size() - data.root_len);
+  std::string root;
+  for (std::size_t pos = 0; pos < data.root_len; ++pos) {
+    if (data.pattern[pos] == '\\') {
+      ++pos;  // The root is not a pattern, so drop the escapes.
+    }
+    root += data.pattern[pos];
+  }
   std::string_view patt(data.pattern);
   patt.remove_prefix(data.root_len);
   if (patt.starts_with('/')) {
@@ -493,7 +499,7 @@ absl::StatusOr<RootAndPattern> GlobSplit(std::string_view pattern, const Glob2Re
     }
   }
   return RootAndPattern{
-      .root = std::string{root},
+      .root = std::move(root),
       .pattern = std::string{patt},
   };
 }
-- 
2.43.0


From ad7f12f64a35a2d9b03baf7f8d9f01ebb23c333a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 058/101] fix: Glob matches below a root that is not normalized

---
 mbo/file/glob.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index ef5642c..01ae919 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -574,6 +574,8 @@ absl::Status GlobRe2(fs::path root, const RE2& regex, const GlobOptions& options
       root = std::filesystem::current_path() / root;
     }
   }
+  // The paths of the entries start with the normalized root, see `GlobLoopImpl`.
+  root = (root.empty() || root == ".") ? fs::current_path() : root.lexically_normal();
   const auto wrap_func = [&](const GlobEntry& entry) -> absl::StatusOr<GlobEntryAction> {
     if (!regex.pattern().empty()) {
       if (options.use_rel_path) {
-- 
2.43.0


From 92b9f3b353daa4ad4c019d20b545e061c5962866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 059/101] fix: Glob returns errors that occur while walking
 instead of throwing

---
 mbo/file/glob.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index 01ae919..6c04c89 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -536,7 +536,8 @@ absl::Status GlobLoopImpl(const fs::path& root, const GlobOptions& options, cons
   if (error_code) {
     return absl::CancelledError(error_code.message());
   }
-  for (const fs::directory_entry& entry : it) {
+  for (; it != FileIterator{}; it.increment(error_code)) {
+    const fs::directory_entry& entry = *it;
     const GlobEntry glob_entry{
         .rel_path =
             options.use_rel_path ? std::optional<fs::path>{entry.path().lexically_relative(root)} : std::nullopt,
@@ -553,6 +554,9 @@ absl::Status GlobLoopImpl(const fs::path& root, const GlobOptions& options, cons
       }
     }
   }
+  if (error_code) {
+    return absl::CancelledError(error_code.message());
+  }
   return absl::OkStatus();
 }
 
-- 
2.43.0


From 26bae1923cceb7c337815c6b984e037a56523c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 060/101] fix: GlobEntry::FileSize returns 0 for a symlink loop
 instead of terminating

---
 mbo/file/glob.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbo/file/glob.h b/mbo/file/glob.h
index 4eccb7e..19cbc91 100644
--- a/mbo/file/glob.h
+++ b/mbo/file/glob.h
@@ -138,10 +138,10 @@ struct GlobEntry : mbo::types::Extend<GlobEntry> {
   // Returns the file's size or 0 if the entry is not a regular file.
   // If the file size cannot be retrieved, then the function also returns 0.
   std::size_t FileSize() const noexcept {
-    if (!entry.is_regular_file()) {
+    std::error_code error;
+    if (!entry.is_regular_file(error)) {
       return 0;
     }
-    std::error_code error;
     const std::size_t result = entry.file_size(error);
     return error ? 0 : result;
   }
-- 
2.43.0


From 095f5c303db171a7225ba788b232cd1df51d3503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:07 +0000
Subject: [PATCH 061/101] fix: glob shows the entries below a relative root

---
 mbo/file/glob_main.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mbo/file/glob_main.cc b/mbo/file/glob_main.cc
index 7675706..a471a96 100644
--- a/mbo/file/glob_main.cc
+++ b/mbo/file/glob_main.cc
@@ -69,9 +69,8 @@ class Entries {
 
   ~Entries() = default;
 
-  explicit Entries(std::filesystem::path root)
-      : root_(std::move(root)),
-        dotdir_(absl::GetFlag(FLAGS_dotdir)),
+  Entries()
+      : dotdir_(absl::GetFlag(FLAGS_dotdir)),
         dotfile_(absl::GetFlag(FLAGS_dotfile)),
         show_fast_(absl::GetFlag(FLAGS_fast)),
         show_size_(absl::GetFlag(FLAGS_size)),
@@ -181,7 +180,7 @@ class Entries {
     if (show_depth_) {
       std::cout << absl::StreamFormat("%*s ", depth_len_, BigNumber(entry.glob_entry.depth));
     }
-    std::cout << entry.glob_entry.entry.path().lexically_relative(root_).native() << "\n";
+    std::cout << entry.glob_entry.MaybeRelativePath().native() << "\n";
   }
 
   void ComputeFieldLengths() const {
@@ -223,7 +222,6 @@ class Entries {
   }
 
  private:
-  const std::filesystem::path root_;
   const bool dotdir_{true};
   const bool dotfile_{true};
   const bool show_fast_{false};
@@ -315,12 +313,14 @@ int main(int argc, char** argv) {
           ? mbo::file::GlobSplit(root)
           : mbo::file::RootAndPattern{.root = std::string{root}, .pattern = args.at(2)};
   EXIT_IF_ERROR(root_pattern);
-  Entries entries(root_pattern->root);
+  Entries entries;
 
+  // Entries are shown relative to the root, however the root was specified.
+  const mbo::file::GlobOptions options{.use_rel_path = true};
   const auto collect = std::bind_front(&Entries::Add, &entries);
   const auto result = absl::GetFlag(FLAGS_re2)  // NL
-                          ? mbo::file::GlobRe2(root_pattern, {}, collect)
-                          : mbo::file::Glob(root_pattern, {}, {}, collect);
+                          ? mbo::file::GlobRe2(root_pattern, options, collect)
+                          : mbo::file::Glob(root_pattern, {}, options, collect);
   EXIT_IF_ERROR(result);
   if (absl::GetFlag(FLAGS_entries) && !absl::GetFlag(FLAGS_fast)) {
     entries.PrintAllEntries();
-- 
2.43.0


From 7df566c5fc8b5c0595f42e5945d0daf573458b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:07 +0000
Subject: [PATCH 062/101] fix: glob does not stop at symlink loops

---
 mbo/file/glob_main.cc | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/mbo/file/glob_main.cc b/mbo/file/glob_main.cc
index a471a96..b017989 100644
--- a/mbo/file/glob_main.cc
+++ b/mbo/file/glob_main.cc
@@ -19,6 +19,7 @@
 #include <iostream>
 #include <string>
 #include <string_view>
+#include <system_error>
 #include <utility>
 #include <vector>
 
@@ -89,22 +90,23 @@ class Entries {
   Entries& operator=(Entries&&) = delete;
 
   mbo::file::GlobEntryAction Add(const mbo::file::GlobEntry& glob_entry) {
+    std::error_code ignore;  // E.g. symlink loops have a type but cannot be followed.
     // Filter
-    if (glob_entry.entry.is_directory()) {
+    if (glob_entry.entry.is_directory(ignore)) {
       if (!dotdir_ && glob_entry.entry.path().filename().string().starts_with('.')) {
         return mbo::file::GlobEntryAction::kDoNotRecurse;
       }
-    } else if (glob_entry.entry.is_regular_file()) {
+    } else if (glob_entry.entry.is_regular_file(ignore)) {
       if (!dotfile_ && glob_entry.entry.path().filename().string().starts_with('.')) {
         return mbo::file::GlobEntryAction::kContinue;
       }
     }
     // Actual Add
-    if (glob_entry.entry.is_directory()) {
+    if (glob_entry.entry.is_directory(ignore)) {
       ++dirs_;
-    } else if (glob_entry.entry.is_symlink()) {
+    } else if (glob_entry.entry.is_symlink(ignore)) {
       ++links_;
-    } else if (glob_entry.entry.is_regular_file()) {
+    } else if (glob_entry.entry.is_regular_file(ignore)) {
       ++files_;
       const std::size_t size = glob_entry.FileSize();
       size_ += size;
@@ -151,19 +153,20 @@ class Entries {
   }
 
   static char GetType(const std::filesystem::directory_entry& entry) {
-    if (entry.is_directory()) {
+    std::error_code ignore;
+    if (entry.is_directory(ignore)) {
       return 'd';
-    } else if (entry.is_symlink()) {
+    } else if (entry.is_symlink(ignore)) {
       return 'l';
-    } else if (entry.is_regular_file()) {
+    } else if (entry.is_regular_file(ignore)) {
       return 'f';
-    } else if (entry.is_block_file()) {
+    } else if (entry.is_block_file(ignore)) {
       return 'b';
-    } else if (entry.is_character_file()) {
+    } else if (entry.is_character_file(ignore)) {
       return 'c';
-    } else if (entry.is_fifo()) {
+    } else if (entry.is_fifo(ignore)) {
       return 'p';
-    } else if (entry.is_socket()) {
+    } else if (entry.is_socket(ignore)) {
       return 's';
     }
     // NO 'o' for other: entry.is_other()) {
-- 
2.43.0


From 8964b00ee2488b6c92c0726799aa1c93bf0d4ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:33 +0000
Subject: [PATCH 063/101] fix: a character-class may follow '-' in a glob range

---
 mbo/file/glob.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mbo/file/glob.cc b/mbo/file/glob.cc
index 6c04c89..c94f511 100644
--- a/mbo/file/glob.cc
+++ b/mbo/file/glob.cc
@@ -169,6 +169,9 @@ MBO_ALWAYS_INLINE absl::StatusOr<GlobRangeInfo> GlobFindRange(std::string_view&
           pattern.remove_prefix(1);
           return result;
         }
+        if (pattern.starts_with("[:")) {
+          continue;  // Not the end of a range of characters but a character-class.
+        }
         if (!CopytNextChar(pattern, re2_pattern)) {
           return absl::InvalidArgumentError("Unterminated range expression ending in back-slash.");
         }
-- 
2.43.0


From 6482805b61cd447cf29e0e132ba79787ef875c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:19 +0000
Subject: [PATCH 064/101] fix: a very large diff context size drops context and
 crashes

---
 mbo/diff/internal/context.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mbo/diff/internal/context.h b/mbo/diff/internal/context.h
index 08d66d6..e772337 100644
--- a/mbo/diff/internal/context.h
+++ b/mbo/diff/internal/context.h
@@ -39,7 +39,10 @@ class Context final {
 
   bool HalfFull() const noexcept { return Full(true); }
 
-  bool Full(bool half = false) const noexcept { return data_.size() >= (half ? Max() : 2 * Max()); }
+  // Without computing `2 * Max()` which could overflow.
+  bool Full(bool half = false) const noexcept {
+    return data_.size() >= Max() && (half || data_.size() - Max() >= Max());
+  }
 
   bool Push(std::string_view line, bool half = false) {
     if (Max() == 0) {
-- 
2.43.0


From a3500954f4e96d5bc16cdf4db40e1e8f24bc1e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:06 +0000
Subject: [PATCH 065/101] fix: diff ignore options do not apply to a last line
 without newline

---
 mbo/diff/internal/data.cc | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/mbo/diff/internal/data.cc b/mbo/diff/internal/data.cc
index 8946501..e460f96 100644
--- a/mbo/diff/internal/data.cc
+++ b/mbo/diff/internal/data.cc
@@ -37,6 +37,8 @@
 namespace mbo::diff::diff_internal {
 
 namespace {
+constexpr std::string_view kNoNewLine = "\n\\ No newline at end of file";
+
 // The overload-set idiom: inheriting each callable IS the mechanism, and
 // `using Args::operator()...` below is what it exists for. The suppression sits
 // directly above the line the check reports - the `struct`, not the `template`.
@@ -69,7 +71,7 @@ std::string Data::LastLineIfNoNewLine(std::string_view text, bool got_nl) {
   } else {
     pos += 1;  // skip '\n'
   }
-  return absl::StrCat(text.substr(pos), "\n\\ No newline at end of file");
+  return absl::StrCat(text.substr(pos), kNoNewLine);
 }
 
 std::vector<Data::LineCache> Data::SplitAndAdaptLastLine(
@@ -95,14 +97,9 @@ std::vector<Data::LineCache> Data::SplitAndAdaptLastLine(
   // suppresses the marker (the last line is processed like any other), equating the two forms. The
   // zero-length-input guard above still fires on the real `got_nl`, so "" is never equated with "\n".
   if (!got_nl && !options.ignore_missing_final_newline) {
-    if (!result.empty()) {
-      result.pop_back();
-    }
-    result.push_back({
-        .line = last_line,
-        .processed = last_line,
-        .matches_ignore = false,
-    });
+    LineCache& last = result.back();  // The text is not empty, so there is a last line.
+    last.line = last_line;
+    last.processed = owned.emplace_back(absl::StrCat(last.processed, kNoNewLine));
   }
   return result;
 }
-- 
2.43.0


From aff4a3318a6342a7a00859ca77ec91bd3fa09ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:06 +0000
Subject: [PATCH 066/101] fix: ignore_consecutive_space distinguishes tabs from
 blanks

---
 mbo/diff/internal/data.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mbo/diff/internal/data.cc b/mbo/diff/internal/data.cc
index e460f96..cde544b 100644
--- a/mbo/diff/internal/data.cc
+++ b/mbo/diff/internal/data.cc
@@ -132,6 +132,8 @@ Data::LineCache Data::Process(
     own(std::move(stripped));
   } else if (options.ignore_consecutive_space) {
     std::string collapsed{line};
+    // Any whitespace is as good as any other, so all that is left become blanks.
+    std::ranges::replace_if(collapsed, [](char chr) { return absl::ascii_isspace(chr); }, ' ');
     absl::RemoveExtraAsciiWhitespace(&collapsed);
     own(std::move(collapsed));
   } else if (options.ignore_trailing_space) {
-- 
2.43.0


From 0b718bd848c9f6bb7325d912ec1d4e1229102642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:06 +0000
Subject: [PATCH 067/101] fix: --ignore_matching_chunks=0 has no effect or
 disables ignore_matching_lines

---
 mbo/diff/diff_main.cc     | 1 +
 mbo/diff/internal/data.cc | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/mbo/diff/diff_main.cc b/mbo/diff/diff_main.cc
index 2f48cbc..3900026 100644
--- a/mbo/diff/diff_main.cc
+++ b/mbo/diff/diff_main.cc
@@ -258,6 +258,7 @@ Diff::Options MakeDiffOptions() {
       .file_header_use = *file_header_use,
       .ignore_blank_lines = absl::GetFlag(FLAGS_ignore_blank_lines),
       .ignore_case = absl::GetFlag(FLAGS_ignore_case),
+      .ignore_matching_chunks = absl::GetFlag(FLAGS_ignore_matching_chunks),
       .ignore_all_space = absl::GetFlag(FLAGS_ignore_all_space),
       .ignore_consecutive_space = absl::GetFlag(FLAGS_ignore_consecutive_space),
       .ignore_trailing_space = absl::GetFlag(FLAGS_ignore_trailing_space),
diff --git a/mbo/diff/internal/data.cc b/mbo/diff/internal/data.cc
index cde544b..8eed66c 100644
--- a/mbo/diff/internal/data.cc
+++ b/mbo/diff/internal/data.cc
@@ -165,7 +165,7 @@ Data::LineCache Data::Process(
   return {
       .line = line,
       .processed = processed,
-      .matches_ignore = options.ignore_matching_chunks && options.ignore_matching_lines.has_value()
+      .matches_ignore = options.ignore_matching_lines.has_value()
                         && RE2::PartialMatch(processed, *options.ignore_matching_lines),
   };
 }
-- 
2.43.0


From e14e53974fec5cb97a5ef736aa2a26f6ade5c01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:06 +0000
Subject: [PATCH 068/101] fix: ignore_blank_lines only ignores empty lines, not
 whitespace-only ones

---
 mbo/diff/internal/chunk.cc | 13 +++++++++----
 mbo/diff/internal/chunk.h  |  2 ++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/mbo/diff/internal/chunk.cc b/mbo/diff/internal/chunk.cc
index bbb5672..a795cce 100644
--- a/mbo/diff/internal/chunk.cc
+++ b/mbo/diff/internal/chunk.cc
@@ -20,6 +20,7 @@
 #include <string_view>
 
 #include "absl/cleanup/cleanup.h"
+#include "absl/strings/ascii.h"
 #include "mbo/diff/diff_options.h"
 #include "mbo/diff/internal/output.h"
 #include "re2/re2.h"
@@ -50,21 +51,25 @@ void Chunk::PushLhs(std::size_t lhs_idx, std::size_t rhs_idx, std::string_view l
   if (options_.skip_left_deletions) {
     return;
   }
-  only_blank_lines_ &= lhs.empty();
-  only_matching_lines_ &= options_.ignore_matching_lines && RE2::PartialMatch(lhs, *options_.ignore_matching_lines);
+  CheckIgnored(lhs);
   CheckContext(lhs_idx, rhs_idx);
   lhs_.emplace_back(lhs);
   ++lhs_size_;
 }
 
 void Chunk::PushRhs(std::size_t lhs_idx, std::size_t rhs_idx, std::string_view rhs) {
-  only_blank_lines_ &= rhs.empty();
-  only_matching_lines_ &= options_.ignore_matching_lines && RE2::PartialMatch(rhs, *options_.ignore_matching_lines);
+  CheckIgnored(rhs);
   CheckContext(lhs_idx, rhs_idx);
   rhs_.emplace_back(rhs);
   ++rhs_size_;
 }
 
+void Chunk::CheckIgnored(std::string_view line) {
+  line = line.substr(0, line.find('\n'));  // Without the marker of a missing final newline.
+  only_blank_lines_ &= absl::StripAsciiWhitespace(line).empty();
+  only_matching_lines_ &= options_.ignore_matching_lines && RE2::PartialMatch(line, *options_.ignore_matching_lines);
+}
+
 std::string Chunk::MoveOutput() {
   OutputChunk();
   if (diff_found_) {
diff --git a/mbo/diff/internal/chunk.h b/mbo/diff/internal/chunk.h
index 2947e43..1f9ae2d 100644
--- a/mbo/diff/internal/chunk.h
+++ b/mbo/diff/internal/chunk.h
@@ -47,6 +47,8 @@ class Chunk {
   std::string MoveOutput();
 
  private:
+  void CheckIgnored(std::string_view line);
+
   void CheckContext(std::size_t lhs_idx, std::size_t rhs_idx);
 
   void MoveContext(bool last);
-- 
2.43.0


From 449b2233501416ec70c6e540b58002704fd2b5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:51 +0000
Subject: [PATCH 069/101] fix: strip_comments has no effect together with
 ignore_all_space or ignore_consecutive_space

---
 mbo/diff/internal/data.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mbo/diff/internal/data.cc b/mbo/diff/internal/data.cc
index 8eed66c..fe3b22f 100644
--- a/mbo/diff/internal/data.cc
+++ b/mbo/diff/internal/data.cc
@@ -145,6 +145,9 @@ Data::LineCache Data::Process(
           [&](const mbo::strings::StripCommentArgs& args) {
             // A pure truncation (plus trailing whitespace strip).
             processed = mbo::strings::StripLineComments(processed, args);
+            if (has_storage) {
+              own(std::string(processed));  // What gets kept is the storage.
+            }
           },
           [&](const mbo::strings::StripParsedCommentArgs& args) {
             auto line_or = mbo::strings::StripParsedLineComments(processed, args);
-- 
2.43.0


From f0fe135314615679d5e7837cc72e93db005e64ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:59 +0000
Subject: [PATCH 070/101] fix: diff reports wrong usage as a difference (exit
 code 1) or aborts

---
 mbo/diff/diff_main.cc | 52 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 43 insertions(+), 9 deletions(-)

diff --git a/mbo/diff/diff_main.cc b/mbo/diff/diff_main.cc
index 3900026..f8da82a 100644
--- a/mbo/diff/diff_main.cc
+++ b/mbo/diff/diff_main.cc
@@ -28,6 +28,7 @@
 #include "absl/log/absl_log.h"
 #include "absl/log/initialize.h"
 #include "absl/status/statusor.h"
+#include "absl/strings/str_split.h"
 #include "mbo/diff/diff.h"
 #include "mbo/diff/internal/update_absl_log_flags.h"
 #include "mbo/file/artefact.h"
@@ -225,25 +226,54 @@ constexpr int kExitEqual = 0;
 constexpr int kExitDifferent = 1;
 constexpr int kExitTrouble = 2;
 
-// Builds the diff options from the command-line flags. Split out of `Diff` so
+// Whether a `--regex_replace_{lhs,rhs}` value is unset or well formed.
+bool IsValidRegexReplace(std::string_view flag) {
+  if (flag.empty()) {
+    return true;
+  }
+  const std::vector<std::string> parts = absl::StrSplit(flag, flag.front());
+  return parts.size() == 4 && parts.at(3).empty() && RE2(parts.at(1)).ok();
+}
+
+// Returns what is wrong with the flag values, or an empty string if they can be used. Wrong usage is
+// trouble (exit code 2) and must not look like a difference (exit code 1).
+std::string_view FindFlagError() {
+  if (!Diff::Options::ParseAlgorithmFlag(absl::GetFlag(FLAGS_algorithm))) {
+    return "Unknown algorithm";
+  }
+  const auto output_format = Diff::Options::ParseOutputFormatFlag(absl::GetFlag(FLAGS_format));
+  if (!output_format) {
+    return "Unknown format";
+  }
+  if (absl::GetFlag(FLAGS_algorithm) == "unified" && *output_format != Diff::Options::OutputFormat::kUnified) {
+    return "The deprecated '--algorithm=unified' alias implies '--format=unified'.";
+  }
+  if (!Diff::Options::ParseFileHeaderUse(absl::GetFlag(FLAGS_file_header_use))) {
+    return "Unknown file_header_use";
+  }
+  if (!RE2(absl::GetFlag(FLAGS_ignore_matching_lines)).ok()) {
+    return "Invalid ignore_matching_lines";
+  }
+  if (!IsValidRegexReplace(absl::GetFlag(FLAGS_regex_replace_lhs))) {
+    return "Invalid regex_replace_lhs";
+  }
+  if (!IsValidRegexReplace(absl::GetFlag(FLAGS_regex_replace_rhs))) {
+    return "Invalid regex_replace_rhs";
+  }
+  return "";
+}
+
+// Builds the diff options from the (valid) command-line flags. Split out of `Diff` so
 // that reading the inputs and reporting the result stay legible next to the
 // flag validation and the two option-building lambdas.
 Diff::Options MakeDiffOptions() {
   const std::string strip_comments = absl::GetFlag(FLAGS_strip_comments);
   const std::optional<Diff::Options::Algorithm> algorithm =
       Diff::Options::ParseAlgorithmFlag(absl::GetFlag(FLAGS_algorithm));
-  ABSL_QCHECK(algorithm) << "Unknown algorithm";
   const std::optional<Diff::Options::OutputFormat> output_format =
       Diff::Options::ParseOutputFormatFlag(absl::GetFlag(FLAGS_format));
-  ABSL_QCHECK(output_format) << "Unknown format";
-  if (absl::GetFlag(FLAGS_algorithm) == "unified") {
-    // The CLI tests exercise both outcomes, but QCHECK failure aborts before GCC flushes counters.
-    ABSL_QCHECK_EQ(output_format, Diff::Options::OutputFormat::kUnified)  // LCOV_EXCL_BR_LINE
-        << "The deprecated '--algorithm=unified' alias implies '--format=unified'.";
-  }
   const std::optional<Diff::Options::FileHeaderUse> file_header_use =
       Diff::Options::ParseFileHeaderUse(absl::GetFlag(FLAGS_file_header_use));
-  ABSL_QCHECK(file_header_use) << "Unknown file_header_use";
   const bool is_direct = algorithm == Diff::Options::Algorithm::kDirect;
   const bool is_normal = output_format == Diff::Options::OutputFormat::kNormal;
   const bool is_side_by_side = output_format == Diff::Options::OutputFormat::kSideBySide;
@@ -295,6 +325,10 @@ Diff::Options MakeDiffOptions() {
 }
 
 int Diff(std::string_view lhs_name, std::string_view rhs_name) {
+  if (const std::string_view error = FindFlagError(); !error.empty()) {
+    std::cerr << "ERROR: " << error << "\n";
+    return kExitTrouble;
+  }
   const auto lhs = Read(lhs_name);
   if (!lhs.ok()) {
     return kExitTrouble;
-- 
2.43.0


From b09faa80d4de576aaff8c9f73b07e35ee1229f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:30 +0000
Subject: [PATCH 071/101] fix: diff --strip_comments uses a string after its
 lifetime

---
 mbo/diff/diff_main.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mbo/diff/diff_main.cc b/mbo/diff/diff_main.cc
index f8da82a..e603a15 100644
--- a/mbo/diff/diff_main.cc
+++ b/mbo/diff/diff_main.cc
@@ -266,8 +266,8 @@ std::string_view FindFlagError() {
 // Builds the diff options from the (valid) command-line flags. Split out of `Diff` so
 // that reading the inputs and reporting the result stay legible next to the
 // flag validation and the two option-building lambdas.
-Diff::Options MakeDiffOptions() {
-  const std::string strip_comments = absl::GetFlag(FLAGS_strip_comments);
+// The options refer to `strip_comments`, so that must outlive them.
+Diff::Options MakeDiffOptions(const std::string& strip_comments) {
   const std::optional<Diff::Options::Algorithm> algorithm =
       Diff::Options::ParseAlgorithmFlag(absl::GetFlag(FLAGS_algorithm));
   const std::optional<Diff::Options::OutputFormat> output_format =
@@ -337,7 +337,8 @@ int Diff(std::string_view lhs_name, std::string_view rhs_name) {
   if (!rhs.ok()) {
     return kExitTrouble;
   }
-  const Diff::Options diff_options = MakeDiffOptions();
+  const std::string strip_comments = absl::GetFlag(FLAGS_strip_comments);
+  const Diff::Options diff_options = MakeDiffOptions(strip_comments);
   const auto result = Diff::FileDiff(*lhs, *rhs, diff_options);
   if (!result.ok()) {
     ABSL_LOG(ERROR) << "ERROR: " << result.status();
-- 
2.43.0


From f8b05babf2694f570450c48365644c872440fa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:04 +0000
Subject: [PATCH 072/101] fix: pointers returned by mope Template::AddSection
 dangle once another entry is added

---
 mbo/mope/mope.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mbo/mope/mope.h b/mbo/mope/mope.h
index 0100016..1057bf9 100644
--- a/mbo/mope/mope.h
+++ b/mbo/mope/mope.h
@@ -16,6 +16,7 @@
 #ifndef MBO_MOPE_MOPE_H_
 #define MBO_MOPE_MOPE_H_
 
+#include <list>
 #include <optional>
 #include <string>
 #include <string_view>
@@ -85,7 +86,8 @@ class Template {
 
   struct Section {
     mutable std::string join;
-    std::vector<Template> dictionary;
+    // A list, so that the pointers returned by `AddSection` stay valid when more entries are added.
+    std::list<Template> dictionary;
   };
 
   struct Range : mbo::types::Extend<Range> {
-- 
2.43.0


From 1045788232a427d1a30ad2a8d64f03e7cf1f8f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:04 +0000
Subject: [PATCH 073/101] fix: mope ranges overflow near the limits of int

---
 mbo/mope/mope.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mbo/mope/mope.cc b/mbo/mope/mope.cc
index e9c3407..6a349c7 100644
--- a/mbo/mope/mope.cc
+++ b/mbo/mope/mope.cc
@@ -16,6 +16,7 @@
 #include "mbo/mope/mope.h"
 
 #include <cstddef>
+#include <cstdint>
 #include <optional>
 #include <string>
 #include <string_view>
@@ -211,8 +212,9 @@ absl::Status Template::ExpandRangeTag(const TagInfo& /*tag*/, Range& range, Cont
   }
   range.expanding = true;
   const absl::Cleanup cleanup = [&range] { range.expanding = false; };
-  for (range.curr = range.start; range.step > 0 ? range.curr <= range.end : range.curr >= range.end;
-       range.curr += range.step) {
+  // The iteration uses a wider type, as stepping past `end` may exceed the limits of `int`.
+  for (std::int64_t curr = range.start; range.step > 0 ? curr <= range.end : curr >= range.end; curr += range.step) {
+    range.curr = static_cast<int>(curr);
     if (!range.join.empty() && range.curr != range.start) {
       output.append(range.join);
     }
-- 
2.43.0


From ff42d74b7af20754ae21fe949a182273c21de4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:08 +0000
Subject: [PATCH 074/101] fix: mope range joins cannot contain a semicolon

---
 mbo/mope/mope.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/mope/mope.cc b/mbo/mope/mope.cc
index 6a349c7..1d8e995 100644
--- a/mbo/mope/mope.cc
+++ b/mbo/mope/mope.cc
@@ -360,7 +360,7 @@ absl::Status Template::ExpandSectionTag(const TagInfo& tag, Context& ctx, std::s
   }
   static constexpr LazyRE2 kReFor = {
       .pattern_ =
-          R"(\s*(-?\d+|[_a-zA-Z]\w*)\s*;\s*(-?\d+|[_a-zA-Z]\w*)\s*(?:;\s*(|-?\d+|[_a-zA-Z]\w*)\s*(?:;([^;]*))?)?)"};
+          R"(\s*(-?\d+|[_a-zA-Z]\w*)\s*;\s*(-?\d+|[_a-zA-Z]\w*)\s*(?:;\s*(|-?\d+|[_a-zA-Z]\w*)\s*(?:;((?s:.*)))?)?)"};
   RangeData range;
   if (RE2::FullMatch(*tag.config, *kReFor, &range.start, &range.end, &range.step, &range.join)) {
     return ExpandRangeData(tag, range, ctx, output);
-- 
2.43.0


From e6064b657cf8be8bdf6042be39a9828bb9e837c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:08 +0000
Subject: [PATCH 075/101] fix: mope ignores a reference as section join and
 shares the join between expansions

---
 mbo/mope/mope.cc | 19 +++++++++----------
 mbo/mope/mope.h  |  7 +++++--
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/mbo/mope/mope.cc b/mbo/mope/mope.cc
index 1d8e995..cce0fb9 100644
--- a/mbo/mope/mope.cc
+++ b/mbo/mope/mope.cc
@@ -254,7 +254,11 @@ absl::Status Template::ExpandRangeData(
   return result;
 }
 
-absl::Status Template::ExpandSection(const TagData<Section>& tag, Context& ctx, std::string& output) {
+absl::Status Template::ExpandSection(
+    const TagData<Section>& tag,
+    std::string_view join,
+    Context& ctx,
+    std::string& output) {
   const std::string original(std::move(output));
   output = "";
   bool first = true;
@@ -262,7 +266,7 @@ absl::Status Template::ExpandSection(const TagData<Section>& tag, Context& ctx,
     std::string result(original);
     MBO_RETURN_IF_ERROR(section.ExpandInternal(ctx, result));
     if (!first) {
-      output.append(tag.data.join);
+      output.append(join);
     }
     first = false;
     output.append(result);
@@ -347,16 +351,11 @@ absl::Status Template::ExpandSectionTag(const TagInfo& tag, Context& ctx, std::s
       output.clear();
       return absl::OkStatus();
     }
-    static constexpr mbo::strings::ParseOptions kOptions{
-        .remove_quotes = true,
-        .allow_unquoted = false,
-    };
-    std::string_view join;
+    std::string join;
     if (tag.option.has_value()) {
-      join = *tag.option;
+      MBO_RETURN_IF_ERROR(MaybeLookup(tag, *tag.option, ctx, join));
     }
-    MBO_ASSIGN_OR_RETURN(section->data.join, ParseString(kOptions, join));
-    return ExpandSection(*section, ctx, output);
+    return ExpandSection(*section, join, ctx, output);
   }
   static constexpr LazyRE2 kReFor = {
       .pattern_ =
diff --git a/mbo/mope/mope.h b/mbo/mope/mope.h
index 1057bf9..563d7de 100644
--- a/mbo/mope/mope.h
+++ b/mbo/mope/mope.h
@@ -85,7 +85,6 @@ class Template {
   };
 
   struct Section {
-    mutable std::string join;
     // A list, so that the pointers returned by `AddSection` stay valid when more entries are added.
     std::list<Template> dictionary;
   };
@@ -159,7 +158,11 @@ class Template {
 
   absl::Status ExpandInternal(Context& ctx, std::string& output) const;
 
-  static absl::Status ExpandSection(const TagData<Section>& tag, Context& ctx, std::string& output);
+  static absl::Status ExpandSection(
+      const TagData<Section>& tag,
+      std::string_view join,
+      Context& ctx,
+      std::string& output);
 
   template<typename Sink>
   friend void AbslStringify(Sink& /*sink*/, TagType /*tag*/);
-- 
2.43.0


From 6ce1512a9ace9b91fb9d3a601b3b486d2fb2efc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:08 +0000
Subject: [PATCH 076/101] fix: a mope range with the name of a template tag
 expands to that tag's value

---
 mbo/mope/mope.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mbo/mope/mope.cc b/mbo/mope/mope.cc
index cce0fb9..4dad604 100644
--- a/mbo/mope/mope.cc
+++ b/mbo/mope/mope.cc
@@ -244,6 +244,10 @@ absl::Status Template::ExpandRangeData(
   // * range.step > 0 && range.start > range.end
   // * range.step < 0 && range.start < range.end
   // But that would not work well with values that were looked up or computed.
+  if (data_.contains(tag.name)) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("Tag '", tag.name, "' may not be present prior to expanding a range of the same name."));
+  }
   auto [r_tag_it, inserted] = ctx.data.emplace(tag.name, TagData<Range>{.tag = tag, .data = range});
   if (!inserted) {
     return absl::InvalidArgumentError(absl::StrCat("Tag '", tag.name, "' appears twice."));
-- 
2.43.0


From 443ba6cb6073785a64e9fdb9ce3790b5b160022f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:08 +0000
Subject: [PATCH 077/101] fix: mope crashes when the template cannot be read

---
 mbo/mope/mope_main.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mbo/mope/mope_main.cc b/mbo/mope/mope_main.cc
index 3bdca6b..10fec2f 100644
--- a/mbo/mope/mope_main.cc
+++ b/mbo/mope/mope_main.cc
@@ -97,7 +97,7 @@ absl::Status ApplySetFlag(
 }
 
 absl::Status Process(const Options& opts) {
-  auto input = mbo::file::Artefact::Read(opts.template_name);
+  MBO_ASSIGN_OR_RETURN(mbo::file::Artefact input, mbo::file::Artefact::Read(opts.template_name));
   mbo::mope::Template mope_template;
   // Add `--set` flag values.
   absl::flat_hash_map<std::string, std::string> context_data;
@@ -110,12 +110,12 @@ absl::Status Process(const Options& opts) {
     MBO_RETURN_IF_ERROR(mope::ReadIniToTemlate(ini_filename, mope_template));
   }
   // Expand the template.
-  MBO_RETURN_IF_ERROR(mope_template.Expand(input->data, mbo::container::MakeConvertingScan(context_data)));
+  MBO_RETURN_IF_ERROR(mope_template.Expand(input.data, mbo::container::MakeConvertingScan(context_data)));
   if (opts.generate_name.empty() || opts.generate_name == "-") {
-    std::cout << input->data;
+    std::cout << input.data;
     return absl::OkStatus();
   }
-  return mbo::file::SetContents(opts.generate_name, input->data);
+  return mbo::file::SetContents(opts.generate_name, input.data);
 }
 
 }  // namespace
-- 
2.43.0


From a6a8154808931fa94a8d999ba36db6849ef50e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:08 +0000
Subject: [PATCH 078/101] fix: mope fails unless an INI file is given

---
 mbo/mope/mope_main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/mope/mope_main.cc b/mbo/mope/mope_main.cc
index 10fec2f..5b8a7df 100644
--- a/mbo/mope/mope_main.cc
+++ b/mbo/mope/mope_main.cc
@@ -39,7 +39,7 @@
 
 ABSL_FLAG(std::string, template, "", "The templte input file (.tpl, .mope).");
 ABSL_FLAG(std::string, generate, "-", "The generated out file ('-' for stdout)");
-ABSL_FLAG(std::string, ini, "-", "An INI file that can be used to initialize section data.");
+ABSL_FLAG(std::string, ini, "", "An INI file that can be used to initialize section data.");
 
 ABSL_FLAG(
     std::vector<std::string>,
-- 
2.43.0


From 4575235fd3b4b67a9751d7f800a290461059b5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:08 +0000
Subject: [PATCH 079/101] fix: mope --set drops everything from a second '=' on

---
 mbo/mope/mope_main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/mope/mope_main.cc b/mbo/mope/mope_main.cc
index 5b8a7df..dcd2ab6 100644
--- a/mbo/mope/mope_main.cc
+++ b/mbo/mope/mope_main.cc
@@ -73,7 +73,7 @@ absl::Status ApplySetFlag(
     absl::flat_hash_map<std::string, std::string>& context_data) {
   static constexpr std::string_view kEmptyPartError =
       "No part of the key in `--set=<key>=<value>` may be empty if split by ':'.";
-  const auto [names, value] = std::pair<std::string_view, std::string_view>(absl::StrSplit(set_kv, '='));
+  const auto [names, value] = std::pair<std::string_view, std::string_view>(absl::StrSplit(set_kv, absl::MaxSplits('=', 1)));
   std::vector<std::string_view> section_names = absl::StrSplit(names, ':');
   const std::string_view key = section_names.back();
   if (key.empty()) {
-- 
2.43.0


From b8ed6d0b86483d1bde3e85f6b6364b855d30b0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:19 +0000
Subject: [PATCH 080/101] fix: JSON output uses C escapes which are not valid
 JSON

---
 mbo/types/stringify.cc | 59 ++++++++++++++++++++++++++++++++++++++++++
 mbo/types/stringify.h  | 15 ++++++++++-
 2 files changed, 73 insertions(+), 1 deletion(-)

diff --git a/mbo/types/stringify.cc b/mbo/types/stringify.cc
index a6b7f06..2f0c666 100644
--- a/mbo/types/stringify.cc
+++ b/mbo/types/stringify.cc
@@ -15,10 +15,69 @@
 
 #include "mbo/types/stringify.h"
 
+#include <cstddef>
 #include <ios>
 #include <sstream>
+#include <string>
+#include <string_view>
+
+#include "absl/strings/str_format.h"
 
 namespace mbo::types {
+namespace {
+
+// Length of the valid UTF-8 sequence at the start of `v`, or 0 if there is none.
+std::size_t Utf8Length(std::string_view v) {
+  // NOLINTBEGIN(*-magic-numbers)
+  const auto byte = [v](std::size_t pos) { return static_cast<unsigned char>(v.at(pos)); };
+  const unsigned char lead = byte(0);
+  const std::size_t len = lead < 0x80 ? 1 : lead < 0xC2 ? 0 : lead < 0xE0 ? 2 : lead < 0xF0 ? 3 : lead < 0xF5 ? 4 : 0;
+  if (len == 0 || v.size() < len) {
+    return 0;
+  }
+  for (std::size_t pos = 1; pos < len; ++pos) {
+    if ((byte(pos) & 0xC0U) != 0x80U) {
+      return 0;
+    }
+  }
+  if ((lead == 0xE0 && byte(1) < 0xA0) || (lead == 0xED && byte(1) >= 0xA0)  // Overlong or surrogate.
+      || (lead == 0xF0 && byte(1) < 0x90) || (lead == 0xF4 && byte(1) >= 0x90)) {
+    return 0;
+  }
+  // NOLINTEND(*-magic-numbers)
+  return len;
+}
+
+}  // namespace
+
+std::string Stringify::JsonEscape(std::string_view v) {
+  static constexpr unsigned char kSpace = 0x20;
+  static constexpr unsigned char kDelete = 0x7F;
+  std::string result;
+  result.reserve(v.size());
+  while (!v.empty()) {
+    const std::size_t len = Utf8Length(v);
+    const auto chr = static_cast<unsigned char>(v.front());
+    switch (chr) {
+      case '"': result += "\\\""; break;
+      case '\\': result += "\\\\"; break;
+      case '\b': result += "\\b"; break;
+      case '\f': result += "\\f"; break;
+      case '\n': result += "\\n"; break;
+      case '\r': result += "\\r"; break;
+      case '\t': result += "\\t"; break;
+      default:
+        if (len == 0 || chr < kSpace || chr == kDelete) {
+          result += absl::StrFormat("\\u%04x", chr);
+        } else {
+          result += v.substr(0, len);
+        }
+        break;
+    }
+    v.remove_prefix(len == 0 ? 1 : len);
+  }
+  return result;
+}
 
 std::string StringifyOptions::DebugStr() const {
 // NOLINTNEXTLINE(*-macro-usage)
diff --git a/mbo/types/stringify.h b/mbo/types/stringify.h
index 45c4953..afdab99 100644
--- a/mbo/types/stringify.h
+++ b/mbo/types/stringify.h
@@ -185,6 +185,7 @@ struct StringifyOptions {
     kNone,        // Values are printed as is.
     kCEscape,     // Values are C-escaped.
     kCHexEscape,  // Values are C-HEX-escaped.
+    kJsonEscape,  // Values (and keys) are JSON-escaped. Bytes that are not part of valid UTF-8 become `\u00XX`.
   };
 
   friend std::ostream& operator<<(std::ostream& os, const EscapeMode& value) {
@@ -192,6 +193,7 @@ struct StringifyOptions {
       case EscapeMode::kNone: break;
       case EscapeMode::kCEscape: return os << "EscapeMode::kCEscape";
       case EscapeMode::kCHexEscape: return os << "EscapeMode::kCHexEscape";
+      case EscapeMode::kJsonEscape: return os << "EscapeMode::kJsonEscape";
     }
     return os << "EscapeMode::kNone";
   }
@@ -1154,7 +1156,13 @@ class Stringify {
       field_name = field.name;
     }
     if (!field_name.empty()) {
-      os << key_control.key_prefix << field_name << key_control.key_suffix << format.key_value_separator;
+      os << key_control.key_prefix;
+      if (field.options.outer.value_control->escape_mode == StringifyOptions::EscapeMode::kJsonEscape) {
+        os << JsonEscape(field_name);
+      } else {
+        os << field_name;
+      }
+      os << key_control.key_suffix << format.key_value_separator;
     } else if (key_control.key_mode == StringifyOptions::KeyMode::kNumericFallback) {
       os << key_control.key_prefix << field.idx << key_control.key_suffix << format.key_value_separator;
     }
@@ -1398,6 +1406,9 @@ class Stringify {
     }
   }
 
+  // Escape `v` so that it can be placed between the double quotes of a JSON string.
+  static std::string JsonEscape(std::string_view v);
+
   static void StreamValueStr(OStream& os, const StringifyOptions& options, std::string_view v) {
     if (!options.value_overrides->replacement_str.empty()) {
       os << options.value_overrides->replacement_str;
@@ -1411,6 +1422,7 @@ class Stringify {
       case StringifyOptions::EscapeMode::kNone: os << vvv; break;
       case StringifyOptions::EscapeMode::kCEscape: os << absl::CEscape(vvv); break;
       case StringifyOptions::EscapeMode::kCHexEscape: os << absl::CHexEscape(vvv); break;
+      case StringifyOptions::EscapeMode::kJsonEscape: os << JsonEscape(vvv); break;
     }
     if (vvv.length() < v.length()) {
       os << options.value_control->str_cutoff_suffix;
@@ -1481,6 +1493,7 @@ class Stringify {
           .key_suffix = "\"",
       }},
       .value_control{StringifyOptions::ValueControl{
+          .escape_mode = StringifyOptions::EscapeMode::kJsonEscape,
           .nullptr_t_str = "null",
           .nullptr_v_str = "null",
           .nullopt_str = "null",
-- 
2.43.0


From 91ab16202021f19d023f6691fc269161b1fb4d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:19 +0000
Subject: [PATCH 081/101] fix: Stringify escapes the single quote character
 twice

---
 mbo/types/stringify.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/types/stringify.h b/mbo/types/stringify.h
index afdab99..8424deb 100644
--- a/mbo/types/stringify.h
+++ b/mbo/types/stringify.h
@@ -1308,7 +1308,7 @@ class Stringify {
         os << absl::StreamFormat("%v", int(v));
       } else {
         os << options.outer.format->char_delim;
-        if (v == '\'') {
+        if (v == '\'' && options.outer.value_control->escape_mode == StringifyOptions::EscapeMode::kNone) {
           StreamValueStr(os, options.outer, "\\'");
         } else {
           const std::string_view vv{reinterpret_cast<const char*>(&v), 1};  // NOLINT(*-type-reinterpret-cast)
-- 
2.43.0


From b288a05f34f5be190bd7213eae2004ca265d5d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:19 +0000
Subject: [PATCH 082/101] fix: Stringify does not suppress pointer and optional
 fields

---
 mbo/types/stringify.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mbo/types/stringify.h b/mbo/types/stringify.h
index 8424deb..2f9f085 100644
--- a/mbo/types/stringify.h
+++ b/mbo/types/stringify.h
@@ -1097,13 +1097,12 @@ class Stringify {
   }
 
   static bool StreamFieldKeyEnabled(const StringifyOptions& options, SpecialFieldValue is_special) {
+    if (options.field_control->suppress) {
+      return false;
+    }
     switch (is_special) {
       case SpecialFieldValue::kNoSuppress: break;
-      case SpecialFieldValue::kNormal:
-        if (options.field_control->suppress) {
-          return false;
-        }
-        break;
+      case SpecialFieldValue::kNormal: break;
       case SpecialFieldValue::kIsNullptr:
         if (options.field_control->suppress_nullptr) {
           return false;
-- 
2.43.0


From 5a4369c0c1084028983da8248786b4d5760a1502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:19 +0000
Subject: [PATCH 083/101] fix: Stringify replaces empty map keys with an index

---
 mbo/types/stringify.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbo/types/stringify.h b/mbo/types/stringify.h
index 2f9f085..39bc323 100644
--- a/mbo/types/stringify.h
+++ b/mbo/types/stringify.h
@@ -1154,7 +1154,7 @@ class Stringify {
     if (field_name.empty()) {
       field_name = field.name;
     }
-    if (!field_name.empty()) {
+    if (!field_name.empty() || !allow_key_override) {  // No override: `name` is an actual key, which may be empty.
       os << key_control.key_prefix;
       if (field.options.outer.value_control->escape_mode == StringifyOptions::EscapeMode::kJsonEscape) {
         os << JsonEscape(field_name);
-- 
2.43.0


From 95817d25e1eb3fb10d0978cc6351a49c5843663b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:19 +0000
Subject: [PATCH 084/101] fix: Stringify drops the keys of pairs and maps
 within variants

---
 mbo/types/stringify.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mbo/types/stringify.h b/mbo/types/stringify.h
index 39bc323..df3103c 100644
--- a/mbo/types/stringify.h
+++ b/mbo/types/stringify.h
@@ -1248,14 +1248,14 @@ class Stringify {
   }
 
   template<IsVariant Variant>
-  void StreamValue(OStream& os, const StringifyFieldOptions& options, const Variant& value, bool /*allow_field_names*/)
+  void StreamValue(OStream& os, const StringifyFieldOptions& options, const Variant& value, bool allow_field_names)
       const {
     std::visit(
         [&]<typename ArgT>(const ArgT& arg) {
           if constexpr (IsAggregate<ArgT> || IsStringKeyedContainer<ArgT>) {
             StreamImpl<ArgT>(os, options, arg);
           } else {
-            StreamValue(os, options, arg, false);
+            StreamValue(os, options, arg, allow_field_names);
           }
         },
         value);
@@ -1263,9 +1263,9 @@ class Stringify {
 
   template<HasMboTypesStringifyValueAccess T>
   requires(!IsStringKeyedContainer<T>)
-  void StreamValue(OStream& os, const StringifyFieldOptions& options, const T& value, bool /*allow_field_names*/)
+  void StreamValue(OStream& os, const StringifyFieldOptions& options, const T& value, bool allow_field_names)
       const {
-    StreamValue(os, options, MboTypesStringifyValueAccess(value, options), false);
+    StreamValue(os, options, MboTypesStringifyValueAccess(value, options), allow_field_names);
   }
 
   template<typename T>
-- 
2.43.0


From 965612e993839a74593caaa23ddf2e64fb9128cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:41 +0000
Subject: [PATCH 085/101] fix: StringifyOptions::WithAllRefs refers to
 temporaries

---
 mbo/types/stringify.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mbo/types/stringify.h b/mbo/types/stringify.h
index df3103c..67ef791 100644
--- a/mbo/types/stringify.h
+++ b/mbo/types/stringify.h
@@ -322,7 +322,12 @@ struct StringifyOptions {
   static constexpr StringifyOptions WithAllRefs(StringifyOptions&& options, const StringifyOptions& defaults = {}) {
     ApplyAll(options, [&defaults]<typename T>(T& v) constexpr {
       if (!v.has_value()) {
-        v.set_ref(defaults.Access<typename T::value_type>().get({}));
+        const auto& default_value = defaults.Access<typename T::value_type>();
+        if (default_value.has_value()) {
+          v.set_ref(*default_value);
+        } else {
+          v.as_data();  // There is nothing to refer to.
+        }
       }
       return true;
     });
-- 
2.43.0


From 8b419b32f1d6915ed48163891b6b800df47cfa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:57 +0000
Subject: [PATCH 086/101] fix: Stringify prints only six digits of floating
 point values

---
 mbo/types/stringify.h | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/mbo/types/stringify.h b/mbo/types/stringify.h
index 67ef791..3995095 100644
--- a/mbo/types/stringify.h
+++ b/mbo/types/stringify.h
@@ -20,6 +20,7 @@
 
 // IWYU pragma: private, include "mbo/types/extend.h"
 
+#include <cmath>
 #include <concepts>  // IWYU pragma: keep
 #include <functional>
 #include <iostream>
@@ -37,6 +38,7 @@
 #include "absl/log/absl_check.h"
 #include "absl/log/absl_log.h"
 #include "absl/strings/escaping.h"
+#include "absl/strings/numbers.h"
 #include "absl/strings/str_format.h"
 #include "mbo/config/require.h"
 #include "mbo/types/internal/extender.h"      // IWYU pragma: keep
@@ -1321,10 +1323,12 @@ class Stringify {
         os << options.outer.format->char_delim;
       }
     } else if constexpr (std::is_arithmetic_v<RawV>) {
-      if (options.outer.value_overrides->replacement_other.empty()) {
-        os << absl::StreamFormat("%v", v);
-      } else {
+      if (!options.outer.value_overrides->replacement_other.empty()) {
         os << options.outer.value_overrides->replacement_other;
+      } else if constexpr (std::is_floating_point_v<RawV>) {
+        StreamValueFloat(os, options.outer, v);
+      } else {
+        os << absl::StreamFormat("%v", v);
       }
     } else if constexpr (
         std::same_as<RawV, std::string_view> || std::same_as<V, std::string>
@@ -1339,6 +1343,28 @@ class Stringify {
     }
   }
 
+  // Streams `v` as `%v` does, but with as many digits as are needed to get the same value back.
+  template<std::floating_point V>
+  static void StreamValueFloat(OStream& os, const StringifyOptions& options, V v) {
+    if (!std::isfinite(v)) {
+      if (options.value_control->escape_mode == StringifyOptions::EscapeMode::kJsonEscape) {
+        os << options.value_control->nullptr_v_str;  // JSON has neither `inf` nor `nan`.
+      } else {
+        os << absl::StreamFormat("%v", v);
+      }
+      return;
+    }
+    std::string str = absl::StrFormat("%v", v);
+    for (int digits = std::numeric_limits<V>::digits10; digits <= std::numeric_limits<V>::max_digits10; ++digits) {
+      double parsed = 0;
+      if (absl::SimpleAtod(str, &parsed) && static_cast<V>(parsed) == v) {
+        break;
+      }
+      str = absl::StrFormat("%.*g", digits, v);
+    }
+    os << str;
+  }
+
   template<IsPair V>
   void StreamValuePair(OStream& os, const StringifyFieldOptions& options, const V& v, bool allow_field_names) const {
     using RawV = std::remove_cvref_t<V>;
-- 
2.43.0


From 72a31aa6de6959d652ad5045a450b5309db670fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:50 +0000
Subject: [PATCH 087/101] fix: Json::values() prints to standard output

---
 mbo/json/json.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mbo/json/json.h b/mbo/json/json.h
index 00786ad..f2438e3 100644
--- a/mbo/json/json.h
+++ b/mbo/json/json.h
@@ -645,12 +645,10 @@ class Json {
     if (IsArray()) {
       auto& array = std::get<Array>(data_);
       MBO_CONFIG_REQUIRE_DEBUG(array != nullptr, "May not be nulltr.");
-      std::cout << "Array Size: " << array->size() << "\n" << std::flush;
       return {*this, array->begin(), array->end()};
     }
     MBO_CONFIG_REQUIRE(IsObject(), "Is neither Array nor Object.");
     auto& object = std::get<Object>(data_);
-    std::cout << "Object Size: " << object.size() << "\n" << std::flush;
     return {*this, object.begin(), object.end()};
   }
 
-- 
2.43.0


From aadb8f47ef2368e298f99beba583817ed28ad7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:50 +0000
Subject: [PATCH 088/101] fix: Json stores integers as floats unless they are
 temporaries

---
 mbo/json/json.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mbo/json/json.h b/mbo/json/json.h
index f2438e3..0120c0d 100644
--- a/mbo/json/json.h
+++ b/mbo/json/json.h
@@ -57,11 +57,13 @@ using Object = absl::flat_hash_map<std::string, std::unique_ptr<Json>>;
 using Variant = std::variant<std::nullopt_t, Array, bool, Float, SignedInt, Object, std::string, UnsignedInt>;
 
 template<typename Value>
-concept JsonUseSignedInt = std::is_signed_v<Value> && std::integral<Value> && std::convertible_to<Value, SignedInt>;
+concept JsonUseSignedInt = std::is_signed_v<std::remove_cvref_t<Value>> && std::integral<std::remove_cvref_t<Value>>
+                           && std::convertible_to<Value, SignedInt>;
 
 template<typename Value>
 concept JsonUseUnsignedInt =
-    std::is_unsigned_v<Value> && std::integral<Value> && std::convertible_to<Value, UnsignedInt>;
+    std::is_unsigned_v<std::remove_cvref_t<Value>> && std::integral<std::remove_cvref_t<Value>>
+    && std::convertible_to<Value, UnsignedInt>;
 
 template<typename Value>
 concept JsonUseFloat = !std::same_as<std::remove_cvref_t<Value>, bool>
-- 
2.43.0


From 6c879ce15222403471d2e9f1475ad69ce4c4784f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:50 +0000
Subject: [PATCH 089/101] fix: Json assignment from a non const Json fails
 unless that is an object

---
 mbo/json/json.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mbo/json/json.h b/mbo/json/json.h
index 0120c0d..d5416f9 100644
--- a/mbo/json/json.h
+++ b/mbo/json/json.h
@@ -338,6 +338,7 @@ class Json {
   }
 
   template<typename Value, typename = ToKind<Value>>
+  requires(!JsonUseObject<Value>)
   Json& operator=(Value&& value) {  // NOLINT(misc-unconventional-assign-operator,*-signature): See above.
     CopyFrom(std::forward<Value>(value));
     return *this;
-- 
2.43.0


From 5535f6bff0f7e8a4dc48a6c8d6c84a6119a4e238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:50 +0000
Subject: [PATCH 090/101] fix: Json uses freed memory when moving a part of a
 value to the value

---
 mbo/json/json.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mbo/json/json.h b/mbo/json/json.h
index d5416f9..d7e5453 100644
--- a/mbo/json/json.h
+++ b/mbo/json/json.h
@@ -319,7 +319,14 @@ class Json {
   }
 
   Json(Json&&) noexcept = default;
-  Json& operator=(Json&&) noexcept = default;
+
+  Json& operator=(Json&& other) noexcept {
+    if (this != &other) {
+      Variant data = std::move(other.data_);  // `other` may be part of `this`.
+      data_ = std::move(data);
+    }
+    return *this;
+  }
 
   explicit Json(std::nullopt_t /*value*/) noexcept : data_{std::nullopt} {}
 
-- 
2.43.0


From 846d730d235be5394b36d6a03bfb5e938ec81ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:50 +0000
Subject: [PATCH 091/101] fix: Json objects compare by iteration order and not
 by content

---
 mbo/json/json.h | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/mbo/json/json.h b/mbo/json/json.h
index d7e5453..8bb6b17 100644
--- a/mbo/json/json.h
+++ b/mbo/json/json.h
@@ -18,6 +18,7 @@
 #ifndef MBO_JSON_JSON_H_
 #define MBO_JSON_JSON_H_
 
+#include <algorithm>
 #include <compare>
 #include <concepts>  // IWYU pragma: keep
 #include <cstdint>
@@ -27,9 +28,11 @@
 #include <ranges>
 #include <sstream>
 #include <string>
+#include <string_view>
 #include <type_traits>
 #include <utility>
 #include <variant>
+#include <vector>
 
 #include "absl/container/flat_hash_map.h"
 #include "mbo/config/require.h"
@@ -829,13 +832,26 @@ constexpr auto kJsonComparator = mbo::types::Overloaded{
     },
     [](const Json::Array& lhs, const Json::Array& rhs) { return types::WeakToStrong(*lhs <=> *rhs); },
     [](const Json::Object& lhs, const Json::Object& rhs) -> std::strong_ordering {
-      auto lhs_it = lhs.begin();
-      auto rhs_it = rhs.begin();
-      while (lhs_it != lhs.end() && rhs_it != rhs.end()) {
-        if (auto comp = types::WeakToStrong(lhs_it->first <=> rhs_it->first); comp != std::strong_ordering::equal) {
+      // The iteration order of objects is unspecified, so compare in the order of their property names.
+      const auto sorted = [](const Json::Object& object) {
+        std::vector<const Json::Object::value_type*> properties;
+        properties.reserve(object.size());
+        for (const auto& property : object) {
+          properties.push_back(&property);
+        }
+        std::ranges::sort(properties, {}, [](const auto* property) -> std::string_view { return property->first; });
+        return properties;
+      };
+      const auto lhs_sorted = sorted(lhs);
+      const auto rhs_sorted = sorted(rhs);
+      auto lhs_it = lhs_sorted.begin();
+      auto rhs_it = rhs_sorted.begin();
+      while (lhs_it != lhs_sorted.end() && rhs_it != rhs_sorted.end()) {
+        if (auto comp = types::WeakToStrong((*lhs_it)->first <=> (*rhs_it)->first);
+            comp != std::strong_ordering::equal) {
           return comp;
         }
-        if (auto comp = lhs_it->second <=> rhs_it->second; comp != std::strong_ordering::equal) {
+        if (auto comp = (*lhs_it)->second <=> (*rhs_it)->second; comp != std::strong_ordering::equal) {
           return comp;
         }
         ++lhs_it;
-- 
2.43.0


From d83b38bf2dcd482bed0459200e2a57f2dd77fd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:00 +0000
Subject: [PATCH 092/101] fix: Stringify prints a std::array within a variant
 as a struct

---
 mbo/types/stringify.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mbo/types/stringify.h b/mbo/types/stringify.h
index 3995095..6f2f7ed 100644
--- a/mbo/types/stringify.h
+++ b/mbo/types/stringify.h
@@ -1259,7 +1259,8 @@ class Stringify {
       const {
     std::visit(
         [&]<typename ArgT>(const ArgT& arg) {
-          if constexpr (IsAggregate<ArgT> || IsStringKeyedContainer<ArgT>) {
+          if constexpr (
+              (IsAggregate<ArgT> && !ContainerIsForwardIteratable<ArgT>) || IsStringKeyedContainer<ArgT>) {
             StreamImpl<ArgT>(os, options, arg);
           } else {
             StreamValue(os, options, arg, allow_field_names);
-- 
2.43.0


From d56ad9031cfaa34448535d5c2f41c10786463932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 093/101] fix: Extend'ed structs cannot be compared to a
 std::tuple

---
 mbo/types/extender.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mbo/types/extender.h b/mbo/types/extender.h
index d89ab84..e6ff07f 100644
--- a/mbo/types/extender.h
+++ b/mbo/types/extender.h
@@ -199,6 +199,7 @@ struct Comparable_ : ExtenderBase {  // NOLINT(readability-identifier-naming)
 
   // Define operator `<=>` on `const T&` and another type.
   template<typename Other, typename = decltype(StructToTuple(std::declval<const Other&>()))>
+  requires(!IsTuple<Other>)
   auto operator<=>(const Other& other) const {
     return this->ToTuple() <=> StructToTuple(other);
   }
@@ -209,6 +210,7 @@ struct Comparable_ : ExtenderBase {  // NOLINT(readability-identifier-naming)
   }
 
   template<typename Other, typename = decltype(StructToTuple(std::declval<const Other&>()))>
+  requires(!IsTuple<Other>)
   bool operator==(const Other& other) const {
     return this->ToTuple() == StructToTuple(other);
   }
@@ -219,6 +221,7 @@ struct Comparable_ : ExtenderBase {  // NOLINT(readability-identifier-naming)
   }
 
   template<typename Other, typename = decltype(StructToTuple(std::declval<const Other&>()))>
+  requires(!IsTuple<Other>)
   bool operator<(const Other& other) const {
     return this->ToTuple() < StructToTuple(other);
   }
-- 
2.43.0


From 3201c88dd501a46c94b6e11d75edf0e1cf00cf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 094/101] fix: ConstructFromConversions requires the fields to
 convert to the arguments

---
 mbo/types/internal/extender.h | 4 ++--
 mbo/types/tuple_extras.h      | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/mbo/types/internal/extender.h b/mbo/types/internal/extender.h
index ce0a25f..0b96a5d 100644
--- a/mbo/types/internal/extender.h
+++ b/mbo/types/internal/extender.h
@@ -61,8 +61,8 @@ struct ExtendBase {
   // Effectively calling `T(FieldType<N>(args<N>)...)`.
   template<typename... Args>
   requires TupleFieldsConstructible<
-      std::tuple<Args...>,
-      decltype(std::declval<const ExtendBase<ActualType>&>().ToTuple())>
+      decltype(std::declval<const ExtendBase<ActualType>&>().ToTuple()),
+      std::tuple<Args...>>
   static Type ConstructFromConversions(Args&&... args) {
     return ConstructFromConversionsImpl(
         std::make_index_sequence<sizeof...(Args)>{}, std::make_tuple(std::forward<Args>(args)...));
diff --git a/mbo/types/tuple_extras.h b/mbo/types/tuple_extras.h
index 0bbaab3..9a6295e 100644
--- a/mbo/types/tuple_extras.h
+++ b/mbo/types/tuple_extras.h
@@ -97,7 +97,8 @@ struct TupleFieldsConstructibleImpl;
 template<typename Fields, typename Args, std::size_t... Idx>
 struct TupleFieldsConstructibleImpl<Fields, Args, std::index_sequence<Idx...>>
     : std::bool_constant<(
-          ConstructibleFrom<std::tuple_element_t<Idx, Fields>, std::tuple_element_t<Idx, Args>> && ...)> {};
+          ConstructibleFrom<std::remove_cvref_t<std::tuple_element_t<Idx, Fields>>, std::tuple_element_t<Idx, Args>>
+          && ...)> {};
 
 }  // namespace types_internal
 
-- 
2.43.0


From d86f396f62dd10ae070d6e9e2430796aafce3f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 095/101] fix: WhenTransformedBy matchers refer to temporaries

---
 mbo/testing/matchers.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mbo/testing/matchers.h b/mbo/testing/matchers.h
index bbfd0dc..070b6d5 100644
--- a/mbo/testing/matchers.h
+++ b/mbo/testing/matchers.h
@@ -348,12 +348,12 @@ class WhenTransformedByMatcher {
     }
 
    private:
-    const Transformer& transformer_;
+    const Transformer transformer_;
     const MatcherType container_matcher_;
   };
 
-  const Transformer& transformer_;
-  const ContainerMatcher& container_matcher_;
+  const Transformer transformer_;
+  const ContainerMatcher container_matcher_;
 };
 
 }  // namespace testing_internal
@@ -388,7 +388,8 @@ class WhenTransformedByMatcher {
 // standard container matchers work as expected.
 template<typename Transformer, typename ContainerMatcher>
 inline auto WhenTransformedBy(const Transformer& transformer, const ContainerMatcher& container_matcher) {
-  return testing_internal::WhenTransformedByMatcher(transformer, container_matcher);
+  return testing_internal::WhenTransformedByMatcher<std::decay_t<Transformer>, std::decay_t<ContainerMatcher>>(
+      transformer, container_matcher);
 }
 
 namespace testing_internal {
-- 
2.43.0


From 526735fb0909505ce52d1c0562fbc8cc754a7827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:27 +0000
Subject: [PATCH 096/101] fix: the header checker reported claimed headers
 whose names git quotes

---
 tools/check_headers_claimed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/check_headers_claimed.py b/tools/check_headers_claimed.py
index dad5c02..82703aa 100755
--- a/tools/check_headers_claimed.py
+++ b/tools/check_headers_claimed.py
@@ -58,9 +58,9 @@ def repo_root() -> Path:
 
 def tracked_headers(root: Path) -> list[str]:
     out = subprocess.run(
-        ["git", "ls-files", "mbo/**/*.h", "mbo/*.h"], capture_output=True, text=True, check=True, cwd=root
+        ["git", "ls-files", "-z", "mbo/**/*.h", "mbo/*.h"], capture_output=True, text=True, check=True, cwd=root
     )
-    return [line for line in out.stdout.splitlines() if line]
+    return [name for name in out.stdout.split("\0") if name]  # Without `-z` git quotes unusual names.
 
 
 def owning_build_file(root: Path, header: str) -> Path | None:
-- 
2.43.0


From a39ec905503dbfe7e5281b7e92a196cc7ec672a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:27 +0000
Subject: [PATCH 097/101] fix: the status assert checker reported wrong lines
 after form feeds and the like

---
 tools/check_status_assert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/check_status_assert.py b/tools/check_status_assert.py
index 7b31a16..f4740cb 100755
--- a/tools/check_status_assert.py
+++ b/tools/check_status_assert.py
@@ -10,7 +10,7 @@ _WINDOW = 8
 
 def check(path):
     with open(path, encoding="utf-8") as source:
-        lines = source.read().splitlines()
+        lines = source.read().split("\n")  # Not `splitlines`, which also splits at e.g. form feeds.
     problems = []
     for index, line in enumerate(lines):
         match = _ASSERT.search(line)
-- 
2.43.0


From 740ed6b85e200521e525725691d17948ef0e62d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 098/101] Revert "fix: WhenTransformedBy matchers refer to
 temporaries"

This reverts commit d86f396f62dd10ae070d6e9e2430796aafce3f4c.
---
 mbo/testing/matchers.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mbo/testing/matchers.h b/mbo/testing/matchers.h
index 070b6d5..bbfd0dc 100644
--- a/mbo/testing/matchers.h
+++ b/mbo/testing/matchers.h
@@ -348,12 +348,12 @@ class WhenTransformedByMatcher {
     }
 
    private:
-    const Transformer transformer_;
+    const Transformer& transformer_;
     const MatcherType container_matcher_;
   };
 
-  const Transformer transformer_;
-  const ContainerMatcher container_matcher_;
+  const Transformer& transformer_;
+  const ContainerMatcher& container_matcher_;
 };
 
 }  // namespace testing_internal
@@ -388,8 +388,7 @@ class WhenTransformedByMatcher {
 // standard container matchers work as expected.
 template<typename Transformer, typename ContainerMatcher>
 inline auto WhenTransformedBy(const Transformer& transformer, const ContainerMatcher& container_matcher) {
-  return testing_internal::WhenTransformedByMatcher<std::decay_t<Transformer>, std::decay_t<ContainerMatcher>>(
-      transformer, container_matcher);
+  return testing_internal::WhenTransformedByMatcher(transformer, container_matcher);
 }
 
 namespace testing_internal {
-- 
2.43.0


From 1f3d9cbdb59bbbfe972ed09378aa4d71c448b530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:16 +0000
Subject: [PATCH 099/101] fix: Json moved from an array holds a null pointer

A moved from Json that was an array kept the array alternative with a nullptr,
so that even empty(), size(), comparing or copying it dereferenced a nullptr.
Moving now leaves the source as Null.
---
 mbo/json/json.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mbo/json/json.h b/mbo/json/json.h
index 8bb6b17..87c758a 100644
--- a/mbo/json/json.h
+++ b/mbo/json/json.h
@@ -321,11 +321,12 @@ class Json {
     return *this;
   }
 
-  Json(Json&&) noexcept = default;
+  // The moved from `other` becomes Null (a moved from `Array` would otherwise be a nullptr).
+  Json(Json&& other) noexcept : data_{std::exchange(other.data_, std::nullopt)} {}
 
   Json& operator=(Json&& other) noexcept {
     if (this != &other) {
-      Variant data = std::move(other.data_);  // `other` may be part of `this`.
+      Variant data = std::exchange(other.data_, std::nullopt);  // `other` may be part of `this`.
       data_ = std::move(data);
     }
     return *this;
-- 
2.43.0


From f09f3ed2c27b3f0718d8bd1598024f632ea0dad8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:55:55 +0000
Subject: [PATCH 100/101] fix: diff_test passes minimal, skip_left_deletions
 and width on to the tool

---
 mbo/diff/diff.bzl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mbo/diff/diff.bzl b/mbo/diff/diff.bzl
index 5c773cc..63b1827 100644
--- a/mbo/diff/diff.bzl
+++ b/mbo/diff/diff.bzl
@@ -160,12 +160,15 @@ if ! {diff_tool} "${{OLD}}" "${{NEW}}" \
     --ignore_matching_lines={ignore_matching_lines} \
     --ignore_trailing_space={ignore_trailing_space} \
     --ignore_missing_final_newline={ignore_missing_final_newline} \
+    --minimal={minimal} \
     --regex_replace_lhs={regex_replace_lhs} \
     --regex_replace_rhs={regex_replace_rhs} \
     --show_chunk_headers={show_chunk_headers} \
+    --skip_left_deletions={skip_left_deletions} \
     --strip_comments={strip_comments} \
     --strip_file_header_prefix={strip_file_header_prefix} \
     --strip_parsed_comments={strip_parsed_comments} \
+    {width} \
 ; then
   EXTRA_FAILURE_MESSAGE={failure_message}
   echo >&2 "FAIL: files \"{file_old}\" and \"{file_new}\" differ.${{EXTRA_FAILURE_MESSAGE:+ }}${{EXTRA_FAILURE_MESSAGE}}"
-- 
2.43.0


From ed51eec9ba4ffdd38b7bc20e5f12d1313e1594bf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:55:55 +0000
Subject: [PATCH 101/101] fix: diff_test takes only paths below external/ for
 files of other repositories

---
 mbo/diff/diff.bzl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbo/diff/diff.bzl b/mbo/diff/diff.bzl
index 63b1827..cb6a37b 100644
--- a/mbo/diff/diff.bzl
+++ b/mbo/diff/diff.bzl
@@ -132,8 +132,8 @@ set -xeuo pipefail
 
 OLD="{file_old}"
 NEW="{file_new}"
-[[ "${{OLD}}" =~ ^external/* ]] && OLD="${{OLD#external/}}" || OLD="${{TEST_WORKSPACE}}/${{OLD}}"
-[[ "${{NEW}}" =~ ^external/* ]] && NEW="${{NEW#external/}}" || NEW="${{TEST_WORKSPACE}}/${{NEW}}"
+[[ "${{OLD}}" =~ ^external/ ]] && OLD="${{OLD#external/}}" || OLD="${{TEST_WORKSPACE}}/${{OLD}}"
+[[ "${{NEW}}" =~ ^external/ ]] && NEW="${{NEW#external/}}" || NEW="${{TEST_WORKSPACE}}/${{NEW}}"
 if [[ -d "${{RUNFILES_DIR:-/dev/null}}" && "${{RUNFILES_MANIFEST_ONLY:-}}" != 1 ]]; then
   OLD="${{RUNFILES_DIR}}/${{OLD}}"
   NEW="${{RUNFILES_DIR}}/${{NEW}}"
-- 
2.43.0

