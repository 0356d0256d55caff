From 449abc36477a8974792affe8fd324b5671be5398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:20 +0000
Subject: [PATCH 01/55] fix: big_num::extend only replicates ones for a
 negative value

---
 include/logic/big_num.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index f9bc667..533d1ad 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -114,8 +114,10 @@ public:
             for (auto i = 0ul; i < s; i++) result.values[i] = values[i];
             // based on the sign, need to fill out leading ones
             if constexpr (signed_) {
-                for (uint64_t i = size; i < op_size; i++) {
-                    result.set(i, true);
+                if (negative()) {
+                    for (uint64_t i = size; i < op_size; i++) {
+                        result.set(i, true);
+                    }
                 }
             }
             return result;
-- 
2.43.0


From 5fcffe970283a12b48080220fad9781ace0c2025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:20 +0000
Subject: [PATCH 02/55] fix: big_num::operator~ clears the bits beyond the
 width

---
 include/logic/big_num.hh | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 533d1ad..fac279e 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -172,9 +172,7 @@ public:
             result.values[i] = ~values[i];
         }
         // mask off the top bit, if any
-        for (auto i = size; i < s * big_num_threshold; i++) {
-            result.set(i, false);
-        }
+        result.mask_off();
         return result;
     }
 
-- 
2.43.0


From 81bf29a423cfb2a9e2fde29d961efe35795c9a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:20 +0000
Subject: [PATCH 03/55] fix: big_num addition and multiplication are modulo
 2^size

---
 include/logic/big_num.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index fac279e..f26ffbf 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -581,6 +581,7 @@ public:
             result.values[i] = (v << 64) >> 64;
             carry = v >> 64;
         }
+        result.mask_off();
         return result;
     }
 
@@ -632,6 +633,7 @@ public:
             __uint128_t c = a * b;
             result.values[0] = (c << 64) >> 64;
             result.values[1] = c >> 64;
+            result.mask_off();
             return result;
         }
         // we're not using Karatsuba's algorithm since it can get infinitely recursion or underflow
@@ -650,12 +652,12 @@ public:
                 uint64_t hi = c >> 64u;
                 uint64_t lo = (c << 64u) >> 64;
 
-                if ((i + j) < size) {
+                if ((i + j) < s) {
                     temp.values[i + j] = lo;
                     result = result + temp;
                     temp.values[i + j] = 0;
                 }
-                if ((i + j + 1) < size) {
+                if ((i + j + 1) < s) {
                     temp.values[i + j + 1] = hi;
                     result = result + temp;
                     temp.values[i + j + 1] = 0;
-- 
2.43.0


From d14e69dd120a9c3398b400200c5895482291519d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:20 +0000
Subject: [PATCH 04/55] fix: big_num limb reductions use the limb type, not int

---
 include/logic/big_num.hh | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index f26ffbf..5e758ed 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -773,7 +773,8 @@ public:
         // we use the fact that SIMD instructions are faster than compare and branch
         // so summation is faster than any_of in theory
         // also all unused bit are set to 0 by default
-        auto r = std::reduce(values.begin(), values.end(), 0, [](auto a, auto b) { return a | b; });
+        auto r = std::reduce(values.begin(), values.end(), big_num_holder_type{0},
+                             [](auto a, auto b) { return a | b; });
         return r != 0;
     }
 
@@ -789,7 +790,8 @@ public:
     [[maybe_unused]] void unmask() { std::fill(values.begin(), values.end(), 0); }
 
     [[nodiscard]] bool all_set() const {
-        auto v = std::reduce(values.begin(), values.begin() + s - 1, 0,
+        auto v = std::reduce(values.begin(), values.begin() + s - 1,
+                             std::numeric_limits<big_num_holder_type>::max(),
                              [](auto a, auto b) { return a & b; });
         auto constexpr max =
             std::numeric_limits<big_num_holder_type>::max() >> (s * big_num_threshold - size);
@@ -808,13 +810,14 @@ public:
         if constexpr (s == 1) {
             return values[0] == 1u;
         } else {
-            return values[0] == 1u && (std::reduce(values.begin() + 1, values.end(), 0,
-                                                   [](auto a, auto b) { return a | b; }) == 0u);
+            return values[0] == 1u &&
+                   (std::reduce(values.begin() + 1, values.end(), big_num_holder_type{0},
+                                [](auto a, auto b) { return a | b; }) == 0u);
         }
     }
 
     [[nodiscard]] bool fit_in_64() const {
-        return std::reduce(values.begin() + 1, values.end(), 0,
+        return std::reduce(values.begin() + 1, values.end(), big_num_holder_type{0},
                            [](auto a, auto b) { return a | b; }) == 0;
     }
 
-- 
2.43.0


From 11bd7519dad252c06b119d6ea29b2f2398b384c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:20 +0000
Subject: [PATCH 05/55] fix: big_num::popcount compiles and counts every limb

---
 include/logic/big_num.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 5e758ed..4a669ef 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -146,7 +146,8 @@ public:
     }
 
     [[maybe_unused]] [[nodiscard]] uint64_t popcount() const {
-        return std::accumulate(values.begin(), values.end(), std::popcount);
+        return std::accumulate(values.begin(), values.end(), uint64_t{0},
+                               [](uint64_t n, auto v) { return n + std::popcount(v); });
     }
 
     void mask_off() {
-- 
2.43.0


From 5b4a985c2782c081dc31fef4e3eab8e2f73d8900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:20 +0000
Subject: [PATCH 06/55] fix: big_num::r_and is true exactly when all bits are
 set

---
 include/logic/big_num.hh | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 4a669ef..477ab9e 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -300,19 +300,7 @@ public:
     // reduction
     [[maybe_unused]] [[nodiscard]] bool r_and() const {
         // only if all the bit are set
-        auto b = std::all_of(values.begin(), values.begin() + s - 1, [](auto const v) {
-            return v == std::numeric_limits<uint64_t>::max();
-        });
-        if constexpr (values.size() * 8 == size) {
-            return b;
-        } else {
-            if (b) return false;
-
-            for (uint64_t i = (values.size() - 1); i < s; i++) {
-                if (!get(i)) return false;
-            }
-        }
-        return true;
+        return all_set();
     }
 
     [[maybe_unused]] [[nodiscard]] bool r_xor() const {
-- 
2.43.0


From 854e8e0ff4182f5ffcbf567c3a8ec5ea2fbaccfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:20 +0000
Subject: [PATCH 07/55] fix: big_num compound assignments return the object
 itself and can modify it

---
 include/logic/big_num.hh | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 477ab9e..ca4aa79 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -209,8 +209,7 @@ public:
     }
 
     template <uint64_t op_size, bool op_signed>
-    big_num<size, util::signed_result(signed_, op_signed)> &operator&=(
-        const big_num<op_size, op_signed> &op) {
+    big_num<size, signed_> &operator&=(const big_num<op_size, op_signed> &op) {
         auto v = (*this) & op;
         if constexpr (op_size > size) {
             // need to size it down
@@ -247,8 +246,7 @@ public:
     }
 
     template <uint64_t op_size, bool op_signed>
-    big_num<size, util::signed_result(signed_, op_signed)> &operator^=(
-        const big_num<op_size, op_signed> &op) {
+    big_num<size, signed_> &operator^=(const big_num<op_size, op_signed> &op) {
         auto v = (*this) ^ op;
         if constexpr (op_size > size) {
             // need to size it down
@@ -285,8 +283,7 @@ public:
     }
 
     template <uint64_t op_size, bool op_signed>
-    big_num<size, util::signed_result(signed_, op_signed)> &operator|=(
-        const big_num<op_size, op_signed> &op) const {
+    big_num<size, signed_> &operator|=(const big_num<op_size, op_signed> &op) {
         auto v = (*this) | op;
         if constexpr (op_size > size) {
             // need to size it down
-- 
2.43.0


From 1e5adf1cdd3e64b7a721d0a9e98448db73b58f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:37 +0000
Subject: [PATCH 08/55] fix: big_num compound assignments accept a wider
 operand

---
 include/logic/big_num.hh | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index ca4aa79..f1df7c1 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -211,11 +211,8 @@ public:
     template <uint64_t op_size, bool op_signed>
     big_num<size, signed_> &operator&=(const big_num<op_size, op_signed> &op) {
         auto v = (*this) & op;
-        if constexpr (op_size > size) {
-            // need to size it down
-            v = v.template slice<size>();
-        }
-        this->values = v.values;
+        // the result is at least as wide as this. size it down if necessary
+        std::copy_n(v.values.begin(), s, values.begin());
         mask_off();
         return *this;
     }
@@ -248,11 +245,8 @@ public:
     template <uint64_t op_size, bool op_signed>
     big_num<size, signed_> &operator^=(const big_num<op_size, op_signed> &op) {
         auto v = (*this) ^ op;
-        if constexpr (op_size > size) {
-            // need to size it down
-            v = v.template slice<size>();
-        }
-        this->values = v.values;
+        // the result is at least as wide as this. size it down if necessary
+        std::copy_n(v.values.begin(), s, values.begin());
         mask_off();
         return *this;
     }
@@ -285,11 +279,8 @@ public:
     template <uint64_t op_size, bool op_signed>
     big_num<size, signed_> &operator|=(const big_num<op_size, op_signed> &op) {
         auto v = (*this) | op;
-        if constexpr (op_size > size) {
-            // need to size it down
-            v = v.template slice<size>();
-        }
-        this->values = v.values;
+        // the result is at least as wide as this. size it down if necessary
+        std::copy_n(v.values.begin(), s, values.begin());
         mask_off();
         return *this;
     }
-- 
2.43.0


From 31e055a2feae9d485e72e3bafd0ec6e777ddd020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:37 +0000
Subject: [PATCH 09/55] fix: big_num::ashr keeps the sign bit

---
 include/logic/big_num.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index f1df7c1..e887abd 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -368,7 +368,7 @@ public:
                 auto dst = size - i - 1;
                 res.set(dst, negative);
             }
-            for (uint64_t i = amount; i < (size - 1); i++) {
+            for (uint64_t i = amount; i < size; i++) {
                 auto dst = i - amount;
                 res.set(dst, get(i));
             }
-- 
2.43.0


From 1ea66959addcf8b985cde7c63bd1b1c6b0a2efca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:37 +0000
Subject: [PATCH 10/55] fix: big_num comparisons extend the narrower operand
 and order negative numbers correctly

---
 include/logic/big_num.hh | 57 ++++++++++------------------------------
 1 file changed, 14 insertions(+), 43 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index e887abd..4bd9770 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -416,45 +416,14 @@ public:
      */
     template <uint64_t op_size, bool op_signed>
     bool operator==(const big_num<op_size, op_signed> &op) const {
-        if constexpr (signed_ && op_signed) {
-            // doing signed comparison
-            if constexpr (op_size > size) {
-                // extend itself
-                auto t = this->template extend<op_size>();
-                auto constexpr op_s = big_num<op_size, op_signed>::s;
-                for (auto i = 0u; i < op_s; i++) {
-                    if (t.values[i] != op.values[i]) return false;
-                }
-                return true;
-            } else {
-                auto op_t = op->template extend<size>();
-                for (auto i = 0u; i < size; i++) {
-                    if (values[i] != op_t.values[i]) return false;
-                }
-                return true;
-            }
-        }
-        auto constexpr op_s = big_num<op_size, op_signed>::s;
-        if constexpr (s >= op_s) {
-            for (auto i = 0u; i < op_s; i++) {
-                if (values[i] != op.values[i]) return false;
-            }
-            if constexpr (s == op_s) {
-                return true;
-            } else {
-                // the rest has to be zero
-                return std::reduce(values.begin() + op_s, values.end(), 0,
-                                   [](auto a, auto b) { return a | b; }) == 0;
-            }
+        // the narrower one is extended according to its own sign
+        if constexpr (op_size > size) {
+            return this->template extend<op_size>() == op;
+        } else if constexpr (op_size < size) {
+            return (*this) == op.template extend<size>();
         } else {
-            for (auto i = 0u; i < s; i++) {
-                if (values[i] != op.values[i]) return false;
-            }
-            // the rest has to be zero
-            return std::reduce(op.values.begin() + s, op.values.end(), 0,
-                               [](auto a, auto b) { return a | b; }) == 0;
+            return values == op.values;
         }
-        return true;
     }
 
     template <typename T>
@@ -466,19 +435,21 @@ public:
 
     template <uint64_t op_size, bool op_signed>
     bool operator>(const big_num<op_size, op_signed> &op) const {
+        // the narrower one is extended according to its own sign
+        if constexpr (op_size > size) {
+            return this->template extend<op_size>() > op;
+        } else if constexpr (op_size < size) {
+            return (*this) > op.template extend<size>();
+        }
         if constexpr (signed_ && op_signed) {
             if (negative() && !op.negative()) {
                 return false;
             } else if (!negative() && op.negative()) {
                 return true;
             }
-            // if it's both positive or both negative, we fall back to the normal comparison
+            // if it's both positive or both negative, we fall back to the normal comparison, since
+            // 2's complement preserves the order among the numbers with the same sign
             // per LRM, signed comparison is only used when both operands are signed
-            // notice that if both of them are negative, we need to revert the result
-            // since the smaller number appears to be bigger due to 2's complement
-            else if (negative() && negative()) {
-                return negate() < op.negate();
-            }
         }
         // from top to bottom comparison
         auto top = util::max(s, big_num<op_size, op_signed>::s);
-- 
2.43.0


From f9bcc188bbdacf495a66117e7e85e13de20df0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:06 +0000
Subject: [PATCH 11/55] fix: big_num comparisons with C++ integers compile and
 honour the sign

---
 include/logic/big_num.hh | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 4bd9770..9b434f5 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -428,9 +428,9 @@ public:
 
     template <typename T>
     requires(std::is_arithmetic_v<T>) bool operator==(T v) const {
-        auto v_casted = static_cast<uint64_t>(v);
-        if (v_casted != values[0]) return false;
-        return std::all_of(values.begin() + 1, values.end(), [](auto c) { return c == 0; });
+        auto op = big_num<big_num_threshold, std::is_signed_v<T>>();
+        op.values[0] = static_cast<uint64_t>(v);
+        return (*this) == op;
     }
 
     template <uint64_t op_size, bool op_signed>
@@ -471,12 +471,18 @@ public:
 
     template <typename T>
     requires(std::is_arithmetic_v<T>) bool operator>(T v) const {
-        auto constexpr is_signed = std::is_signed_v<T>();
-        auto op = big_num<sizeof(T) * 8, is_signed>();
+        auto op = big_num<big_num_threshold, std::is_signed_v<T>>();
         op.values[0] = static_cast<uint64_t>(v);
         return (*this) > op;
     }
 
+    template <typename T>
+    requires(std::is_arithmetic_v<T>) bool operator<(T v) const {
+        auto op = big_num<big_num_threshold, std::is_signed_v<T>>();
+        op.values[0] = static_cast<uint64_t>(v);
+        return (*this) < op;
+    }
+
     template <uint64_t op_size, bool op_signed>
     bool operator<(const big_num<op_size, op_signed> &op) const {
         return op > (*this);
@@ -484,8 +490,7 @@ public:
 
     template <typename T>
     requires(std::is_arithmetic_v<T>) bool operator<=(T v) const {
-        auto constexpr is_signed = std::is_signed_v<T>();
-        auto op = big_num<sizeof(T) * 8, is_signed>();
+        auto op = big_num<big_num_threshold, std::is_signed_v<T>>();
         op.values[0] = static_cast<uint64_t>(v);
         return (*this) <= op;
     }
@@ -497,8 +502,7 @@ public:
 
     template <typename T>
     requires(std::is_arithmetic_v<T>) bool operator>=(T v) const {
-        auto constexpr is_signed = std::is_signed_v<T>();
-        auto op = big_num<sizeof(T) * 8, is_signed>();
+        auto op = big_num<big_num_threshold, std::is_signed_v<T>>();
         op.values[0] = static_cast<uint64_t>(v);
         return (*this) >= op;
     }
-- 
2.43.0


From 37dcdfb1ed6c6a657a5b2169dfee420fc772b6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:06 +0000
Subject: [PATCH 12/55] fix: big_num signed and mixed division compile, the
 remainder takes the sign of the dividend

---
 include/logic/big_num.hh | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 9b434f5..ffb030a 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -788,16 +788,16 @@ public:
         }
         if constexpr (result_signed) {
             // this implies that both of them are signed numbers
-            auto op_pos = op.negative() ? op.negate() : op;
-            auto this_pos = negative() ? negate() : *this;
-            std::tie(q, r) = this_pos.div_mode_(op);
+            big_num<size, false> const op_pos = op.negative() ? op.negate() : op;
+            big_num<size, false> const this_pos = negative() ? negate() : *this;
+            std::tie(q, r) = this_pos.div_mod_unsigned(op_pos);
             // if both of them are negative or positive, the sign will cancel out
-            if (op.negative() ^ negative()) {
-                q = q.negate();
-                r = r.negate();
-            }
+            if (op.negative() ^ negative()) q = q.negate();
+            // the remainder has the same sign as the dividend
+            if (negative()) r = r.negate();
         } else {
-            std::tie(q, r) = div_mod_unsigned(op);
+            big_num<size, false> const l = *this;
+            std::tie(q, r) = l.div_mod_unsigned(op);
         }
         return {q, r};
     }
-- 
2.43.0


From 69e4b0dc7dc83f3268a02d64ed354863f2904f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:06 +0000
Subject: [PATCH 13/55] fix: big_num construction from a C++ integer compiles
 for signed types and sign extends

---
 include/logic/big_num.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index ffb030a..d21b0f6 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -150,7 +150,7 @@ public:
                                [](uint64_t n, auto v) { return n + std::popcount(v); });
     }
 
-    void mask_off() {
+    constexpr void mask_off() {
         // mask off bit that's excessive bit
         auto constexpr amount = s * 64 - size;
         auto constexpr mask = std::numeric_limits<uint64_t>::max() >> amount;
@@ -858,15 +858,15 @@ public:
 
     template <typename T>
     requires std::is_arithmetic_v<T>
-    explicit constexpr big_num(T v) : values({v}) {
-        if constexpr (signed_) {
+    explicit constexpr big_num(T v) : values({static_cast<big_num_holder_type>(v)}) {
+        if constexpr (std::is_signed_v<T>) {
             if (v < 0) {
                 for (auto i = 1u; i < s; i++) {
                     values[i] = std::numeric_limits<big_num_holder_type>::max();
                 }
-                mask_off();
             }
         }
+        mask_off();
     }
 
     // set values to 0 when initialized
-- 
2.43.0


From 6eee79d4d19a75b2c79cb1ca598c67b0935c4f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:37 +0000
Subject: [PATCH 14/55] Revert "fix: big_num::ashr keeps the sign bit"

This reverts commit 31e055a2feae9d485e72e3bafd0ec6e777ddd020.
---
 include/logic/big_num.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index d21b0f6..3d9f4ca 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -368,7 +368,7 @@ public:
                 auto dst = size - i - 1;
                 res.set(dst, negative);
             }
-            for (uint64_t i = amount; i < size; i++) {
+            for (uint64_t i = amount; i < (size - 1); i++) {
                 auto dst = i - amount;
                 res.set(dst, get(i));
             }
-- 
2.43.0


From 9cd831f484fd828277c38ef278958fecc817d9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:24 +0000
Subject: [PATCH 15/55] fix: bit::mask_off keeps the sign extension of native
 signed numbers

---
 include/logic/bit.hh | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 769ab9b..53a75e3 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -323,14 +323,25 @@ public:
         }
     }
 
-    void mask_off() {
+    // the bits of a native holder without any sign extension
+    [[nodiscard]] constexpr uint64_t raw_bits() const requires(native_num) {
+        return static_cast<uint64_t>(value) & (std::numeric_limits<uint64_t>::max() >> (64 - size));
+    }
+
+    // set the native holder from the lower bits of v
+    constexpr void assign_bits(uint64_t v) requires(native_num) {
+        if constexpr (size == 1) {
+            value = v & 1;
+        } else if constexpr (signed_) {
+            value = static_cast<T>(static_cast<int64_t>(v << (64 - size)) >> (64 - size));
+        } else {
+            value = static_cast<T>(v & (std::numeric_limits<uint64_t>::max() >> (64 - size)));
+        }
+    }
+
+    constexpr void mask_off() {
         if constexpr (native_num) {
-            if constexpr (size > 1) {
-                auto constexpr amount = sizeof(T) * 8 - size;
-                auto constexpr mask_max = bit_mask();
-                auto mask = mask_max >> amount;
-                value &= mask;
-            }
+            assign_bits(static_cast<uint64_t>(value));
         } else {
             value.mask_off();
         }
-- 
2.43.0


From 1d9288638a48fdf0b070a44636cdd83f87a8685f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:24 +0000
Subject: [PATCH 16/55] fix: bit::operator~ and the bitwise operators clear the
 bits beyond the width

---
 include/logic/bit.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 53a75e3..70fdafe 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -365,6 +365,7 @@ public:
         } else {
             result.value = ~value;
         }
+        result.mask_off();
         return result;
     }
 
@@ -379,6 +380,7 @@ public:
     auto operator&(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value & op.value;
+        result.mask_off();
         return result;
     }
 
@@ -412,6 +414,7 @@ public:
     auto operator^(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value ^ op.value;
+        result.mask_off();
         return result;
     }
 
@@ -445,6 +448,7 @@ public:
     auto operator|(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value | op.value;
+        result.mask_off();
         return result;
     }
 
-- 
2.43.0


From a8289e9289b5aa7b2880a7febcd2c75880ac2d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:24 +0000
Subject: [PATCH 17/55] fix: bit arithmetic on native numbers wraps at the
 width without undefined behavior

---
 include/logic/bit.hh | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 70fdafe..1b9485b 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -715,11 +715,13 @@ public:
     }
 
     constexpr bit<msb, lsb, signed_> operator-() const {
+        bit<msb, lsb, signed_> result;
         if constexpr (native_num) {
-            return bit<msb, lsb, signed_>(-value);
+            result.assign_bits(-static_cast<uint64_t>(value));
         } else {
-            return bit<msb, lsb, signed_>(value.negate());
+            result.value = value.negate();
         }
+        return result;
     }
 
     constexpr auto operator+() const { return *this; }
@@ -738,7 +740,11 @@ public:
     template <int op_lsb, bool op_signed>
     auto operator+(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
-        result.value = value + op.value;
+        if constexpr (native_num) {
+            result.assign_bits(static_cast<uint64_t>(value) + static_cast<uint64_t>(op.value));
+        } else {
+            result.value = value + op.value;
+        }
         return result;
     }
 
@@ -762,7 +768,11 @@ public:
     template <int op_lsb, bool op_signed>
     auto operator-(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
-        result.value = value - op.value;
+        if constexpr (native_num) {
+            result.assign_bits(static_cast<uint64_t>(value) - static_cast<uint64_t>(op.value));
+        } else {
+            result.value = value - op.value;
+        }
         return result;
     }
 
@@ -786,7 +796,11 @@ public:
     template <int op_lsb, bool op_signed>
     auto operator*(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
-        result.value = value * op.value;
+        if constexpr (native_num) {
+            result.assign_bits(static_cast<uint64_t>(value) * static_cast<uint64_t>(op.value));
+        } else {
+            result.value = value * op.value;
+        }
         return result;
     }
 
-- 
2.43.0


From 501e575973800b24cda1ee366f1a7af40af8de10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:24 +0000
Subject: [PATCH 18/55] fix: bit division on native numbers handles zero,
 overflow and mixed signs

---
 include/logic/bit.hh | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 1b9485b..cfce49d 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -824,7 +824,17 @@ public:
     template <int op_lsb, bool op_signed>
     auto operator%(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
-        result.value = value % op.value;
+        if constexpr (!native_num) {
+            result.value = value % op.value;
+        } else if (op.raw_bits() == 0) {
+            // same convention as the big number: divide by zero gives 0
+            result.value = 0;
+        } else if constexpr (signed_ && op_signed) {
+            // dividing the smallest number by -1 overflows
+            result.assign_bits(op.value == -1 ? 0 : static_cast<uint64_t>(value % op.value));
+        } else {
+            result.assign_bits(raw_bits() % op.raw_bits());
+        }
         return result;
     }
 
@@ -848,7 +858,17 @@ public:
     template <int op_lsb, bool op_signed>
     auto operator/(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
-        result.value = value / op.value;
+        if constexpr (!native_num) {
+            result.value = value / op.value;
+        } else if (op.raw_bits() == 0) {
+            // same convention as the big number: divide by zero gives 0
+            result.value = 0;
+        } else if constexpr (signed_ && op_signed) {
+            // dividing the smallest number by -1 overflows
+            result.assign_bits(op.value == -1 ? -static_cast<uint64_t>(value) : static_cast<uint64_t>(value / op.value));
+        } else {
+            result.assign_bits(raw_bits() / op.raw_bits());
+        }
         return result;
     }
 
-- 
2.43.0


From 813f8678f42f38c653cfa445458e4cd6dee249e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:24 +0000
Subject: [PATCH 19/55] fix: bit assignment and conversion resize the number

---
 include/logic/bit.hh | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index cfce49d..298b155 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -885,11 +885,7 @@ public:
     [[nodiscard]] bit<size - 1, 0, true> to_signed() const {
         bit<size - 1, 0, true> res;
         if constexpr (native_num) {
-            if constexpr (size == 1) {
-                res.value = value;
-            } else {
-                res.value = static_cast<decltype(bit<size - 1, 0, true>::value)>(value);
-            }
+            res.assign_bits(static_cast<uint64_t>(value));
         } else {
             res.value = value.to_signed();
         }
@@ -899,11 +895,7 @@ public:
     [[nodiscard]] bit<size - 1, 0, false> to_unsigned() const {
         bit<size - 1, 0, false> res;
         if constexpr (native_num) {
-            if constexpr (size == 1) {
-                res.value = value;
-            } else {
-                res.value = static_cast<decltype(bit<size - 1, 0, false>::value)>(value);
-            }
+            res.assign_bits(static_cast<uint64_t>(value));
         } else {
             // big number is always unsigned
             res.value = value;
@@ -1048,20 +1040,21 @@ public:
      */
     explicit constexpr bit(std::string_view v) {
         if constexpr (native_num) {
-            value = static_cast<T>(util::parse_raw_str(v));
+            assign_bits(util::parse_raw_str(v));
         } else {
             util::parse_raw_str(v, size, value.values.data());
         }
     }
 
-    explicit constexpr bit(T v) requires(util::native_num(size)) : value(v) {}
+    explicit constexpr bit(T v) requires(util::native_num(size)) : value(v) { mask_off(); }
     template <typename K>
     requires(std::is_arithmetic_v<K> && !util::native_num(size)) constexpr bit(K v)  // NOLINT
         : value(v) {}
 
     template <uint64_t new_size, bool new_signed>
-    explicit bit(const big_num<new_size, new_signed> &big_num) requires(size <= big_num_threshold)
-        : value(big_num.values[0]) {}
+    explicit bit(const big_num<new_size, new_signed> &big_num) requires(size <= big_num_threshold) {
+        assign_bits(big_num.values[0]);
+    }
 
     template <uint64_t op_hi, uint64_t op_lo, bool op_signed>
     constexpr bit(logic<op_hi, op_lo, op_signed> &&logic) {  // NOLINT
@@ -1079,19 +1072,35 @@ public:
     // implicit conversion via assignment
     template <int new_msb, int new_lsb, bool new_signed>
     bit &operator=(const bit<new_msb, new_lsb, new_signed> &b) {
-        value = b.value;
+        auto constexpr new_size = bit<new_msb, new_lsb>::size;
+        if constexpr (native_num && bit<new_msb, new_lsb>::native_num) {
+            assign_bits(static_cast<uint64_t>(b.value));
+        } else if constexpr (native_num) {
+            assign_bits(b.value.values[0]);
+        } else if constexpr (bit<new_msb, new_lsb>::native_num) {
+            value = b.template extend<size>().value;
+        } else if constexpr (new_size <= size) {
+            value = b.value.template extend<size>();
+        } else {
+            std::copy_n(b.value.values.begin(), value.values.size(), value.values.begin());
+            mask_off();
+        }
         return *this;
     }
 
     template <typename T>
     bit &operator=(T v) requires(std::is_arithmetic<T>::value) {
-        value = v;
+        if constexpr (native_num) {
+            assign_bits(static_cast<uint64_t>(v));
+        } else {
+            value = big_num<size, signed_>(v);
+        }
         return *this;
     }
 
     template <int new_msb, int new_lsb>
     constexpr bit(const bit<new_msb, new_lsb, true> &b) {  // NOLINT
-        value = b.value;
+        *this = b;
     }
 
     static constexpr bit<0> one_() {
-- 
2.43.0


From c3ce30cc9b2a0681a5d52636e5dbcb7e6cca4e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:15 +0000
Subject: [PATCH 20/55] fix: bit compound assignments return the object itself
 and accept any operand width

---
 include/logic/bit.hh | 33 ++++++++++-----------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 298b155..97b84b3 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -395,11 +395,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    bit<size - 1, 0, util::signed_result(signed_, op_signed)> &operator&=(
-        const bit<op_msb, op_lsb, op_signed> &op) {
-        auto res = (*this) & op;
-        value = res.value;
-        mask_off();
+    bit &operator&=(const bit<op_msb, op_lsb, op_signed> &op) {
+        *this = (*this) & op;
         return *this;
     }
 
@@ -429,11 +426,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    bit<size - 1, 0, util::signed_result(signed_, op_signed)> &operator^=(
-        const bit<op_msb, op_lsb, op_signed> &op) {
-        auto res = (*this) ^ op;
-        value = res.value;
-        mask_off();
+    bit &operator^=(const bit<op_msb, op_lsb, op_signed> &op) {
+        *this = (*this) ^ op;
         return *this;
     }
 
@@ -463,11 +457,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    bit<size - 1, 0, util::signed_result(signed_, op_signed)> &operator|=(
-        const bit<op_msb, op_lsb, op_signed> &op) {
-        auto res = (*this) | op;
-        value = res.value;
-        mask_off();
+    bit &operator|=(const bit<op_msb, op_lsb, op_signed> &op) {
+        *this = (*this) | op;
         return *this;
     }
 
@@ -544,10 +535,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    bit<size - 1, 0, util::signed_result(signed_, op_signed)> &operator>>=(
-        const bit<op_msb, op_lsb, op_signed> &amount) {
-        auto res = (*this) >> amount;
-        value = res.value;
+    bit &operator>>=(const bit<op_msb, op_lsb, op_signed> &amount) {
+        *this = (*this) >> amount;
         return *this;
     }
 
@@ -575,10 +564,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    bit<size - 1, 0, util::signed_result(signed_, op_signed)> &operator<<=(
-        const bit<op_msb, op_lsb, op_signed> &amount) {
-        auto res = (*this) << amount;
-        value = res.value;
+    bit &operator<<=(const bit<op_msb, op_lsb, op_signed> &amount) {
+        *this = (*this) << amount;
         return *this;
     }
 
-- 
2.43.0


From 8d27b9c7d24c6caf970cfa9068f79b881e6472e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:15 +0000
Subject: [PATCH 21/55] fix: bit reductions, popcount and mask look at the
 declared bits only

---
 include/logic/bit.hh | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 97b84b3..b8af0ef 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -317,7 +317,7 @@ public:
 
     [[nodiscard]] uint64_t popcount() const {
         if constexpr (native_num) {
-            return std::popcount(value);
+            return std::popcount(raw_bits());
         } else {
             return value.popcount();
         }
@@ -464,11 +464,10 @@ public:
 
     // reduction
     [[nodiscard]] bool r_and() const requires(native_num) {
-        auto constexpr max = std::numeric_limits<T>::max() >> (sizeof(T) * 8 - size);
-        return value == max;
+        return all_set();
     }
 
-    [[nodiscard]] bool r_and() const requires(!native_num) { return value.r_xor(); }
+    [[nodiscard]] bool r_and() const requires(!native_num) { return value.r_and(); }
 
     [[maybe_unused]] [[nodiscard]] bool r_nand() const { return !r_and(); }
 
@@ -477,11 +476,7 @@ public:
     [[maybe_unused]] [[nodiscard]] bool r_nor() const { return !r_or(); }
 
     [[nodiscard]] bool r_xor() const requires(native_num) {
-        bool b = get<0>();
-        for (auto i = 1; i < size; i++) {
-            b = b ^ get(i);
-        }
-        return b;
+        return popcount() % 2;
     }
 
     [[nodiscard]] bool r_xor() const requires(!native_num) { return value.r_xor(); }
@@ -902,11 +897,7 @@ public:
 
     void mask() {
         if constexpr (native_num) {
-            if constexpr (size == 1) {
-                value = true;
-            } else {
-                value = std::numeric_limits<T>::max() >> (sizeof(T) * 8 - size);
-            }
+            assign_bits(std::numeric_limits<uint64_t>::max());
         } else {
             value.mask();
         }
@@ -917,7 +908,7 @@ public:
             if (value == 0)
                 return size;
             else {
-                auto r = __builtin_clzll(static_cast<uint64_t>(value));
+                auto r = __builtin_clzll(raw_bits());
                 return 64 - r - 1;
             }
         } else {
@@ -927,18 +918,16 @@ public:
 
     void negate() {
         if constexpr (native_num) {
-            value = (~value) + 1;
-            mask_off();
+            assign_bits(-static_cast<uint64_t>(value));
         } else {
-            return value.negate();
+            value = value.negate();
         }
     }
 
     [[nodiscard]] bit<size - 1, 0> negate() const {
         bit<size - 1, 0> res;
         if constexpr (native_num) {
-            res.value = (~value) + 1;
-            res.mask_off();
+            res.assign_bits(-static_cast<uint64_t>(value));
         } else {
             res.value = value.negate();
         }
@@ -947,8 +936,7 @@ public:
 
     [[nodiscard]] bool all_set() const {
         if constexpr (native_num) {
-            auto constexpr max = value_mask(size);
-            return value == max;
+            return raw_bits() == std::numeric_limits<uint64_t>::max() >> (64 - size);
         } else {
             return value.all_set();
         }
-- 
2.43.0


From 451e7a862d12837e7654e458421dbab81cc1ef72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:15 +0000
Subject: [PATCH 22/55] fix: bit shifts treat the amount as unsigned, shift
 everything out for a large amount and keep the width

---
 include/logic/bit.hh | 68 ++++++++++++++++++--------------------------
 1 file changed, 28 insertions(+), 40 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index b8af0ef..be6b98a 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -328,6 +328,15 @@ public:
         return static_cast<uint64_t>(value) & (std::numeric_limits<uint64_t>::max() >> (64 - size));
     }
 
+    // shift amount is always treated as an unsigned number
+    [[nodiscard]] constexpr uint64_t shift_amount() const {
+        if constexpr (native_num) {
+            return raw_bits();
+        } else {
+            return value.fit_in_64() ? value.values[0] : std::numeric_limits<uint64_t>::max();
+        }
+    }
+
     // set the native holder from the lower bits of v
     constexpr void assign_bits(uint64_t v) requires(native_num) {
         if constexpr (size == 1) {
@@ -486,20 +495,12 @@ public:
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator>>(const bit<op_msb, op_lsb, op_signed> &amount) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> res;
-        // couple cases
-        // 1. both of them are native number
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            // make sure to mask off any bit dur to signed extension
-            res.value = (value >> static_cast<T>(amount.value)) & value_mask(size - amount.value);
-        } else if constexpr ((!native_num)) {
-            res.value = value >> amount.value;
+        auto const n = amount.shift_amount();
+        if constexpr (native_num) {
+            // logical shift regardless of the sign
+            res.assign_bits(n < static_cast<uint64_t>(size) ? raw_bits() >> n : 0);
         } else {
-            // itself is a native number but amount is not
-            // convert to itself as a big number
-            big_num<size, signed_> big_num;
-            big_num.values[0] = static_cast<uint64_t>(value);
-            auto res_num = big_num >> amount;
-            res.value = static_cast<T>(res_num.values[0]);
+            res.value = value >> n;
         }
 
         return res;
@@ -538,21 +539,11 @@ public:
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator<<(const bit<op_msb, op_lsb, op_signed> &amount) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> res;
-        // couple cases
-        // 1. both of them are native number
-        // clang doesn't allow accessing native_num as amount.native_num
-        // see https://stackoverflow.com/a/44996066
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            res.value = value << static_cast<T>(amount.value);
-        } else if constexpr ((!native_num)) {
-            res.value = value << amount.value;
+        auto const n = amount.shift_amount();
+        if constexpr (native_num) {
+            res.assign_bits(n < static_cast<uint64_t>(size) ? raw_bits() << n : 0);
         } else {
-            // itself is a native number but amount is not
-            // convert to itself as a big number
-            big_num<size> big_num;
-            big_num.values[0] = static_cast<uint64_t>(value);
-            auto res_num = big_num << amount;
-            res.value = static_cast<T>(res_num.values[0]);
+            res.value = value << n;
         }
 
         return res;
@@ -567,20 +558,17 @@ public:
     template <int op_msb, int op_lsb, bool op_signed>
     auto ashr(const bit<op_msb, op_lsb, op_signed> &amount) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> res;
-        // couple cases
-        // 1. both of them are native number
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            // no need to mask since C++ does arithmetic shifts by default
-            res.value = value >> static_cast<T>(amount.value);
-        } else if constexpr ((!native_num)) {
-            res.value = value.ashr(amount.value);
+        auto const n = amount.shift_amount();
+        if constexpr (native_num) {
+            // C++ does arithmetic shifts on signed numbers
+            if constexpr (signed_) {
+                res.assign_bits(
+                    static_cast<uint64_t>(static_cast<int64_t>(value) >> util::min<uint64_t>(n, 63)));
+            } else {
+                res.assign_bits(n < static_cast<uint64_t>(size) ? raw_bits() >> n : 0);
+            }
         } else {
-            // itself is a native number but amount is not
-            // convert to itself as a big number
-            big_num<size> big_num;
-            big_num.values[0] = static_cast<uint64_t>(value);
-            auto res_num = big_num.ashr(amount);
-            res.value = static_cast<T>(res_num.values[0]);
+            res.value = value.ashr(n);
         }
 
         return res;
-- 
2.43.0


From 71c3e5fe89479fdcfb2d6c4d115c569387285230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:15 +0000
Subject: [PATCH 23/55] fix: bit comparisons extend both operands to the larger
 width and compile for native against big numbers

---
 include/logic/bit.hh | 55 +++++++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index be6b98a..1dfefb7 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -328,6 +328,22 @@ public:
         return static_cast<uint64_t>(value) & (std::numeric_limits<uint64_t>::max() >> (64 - size));
     }
 
+    // the bits after being extended to the larger size of the two operands
+    template <int op_msb, int op_lsb, bool op_signed>
+    [[nodiscard]] constexpr uint64_t compare_bits() const requires(native_num) {
+        auto constexpr target_size = util::max(size, bit<op_msb, op_lsb>::size);
+        return static_cast<uint64_t>(value) &
+               (std::numeric_limits<uint64_t>::max() >> (64 - target_size));
+    }
+
+    [[nodiscard]] constexpr auto to_big_num() const {
+        if constexpr (native_num) {
+            return this->template extend<big_num_threshold + 1>().value;
+        } else {
+            return value;
+        }
+    }
+
     // shift amount is always treated as an unsigned number
     [[nodiscard]] constexpr uint64_t shift_amount() const {
         if constexpr (native_num) {
@@ -583,19 +599,16 @@ public:
     template <int op_msb, int op_lsb, bool op_signed>
     bool operator==(const bit<op_msb, op_lsb, op_signed> &v) const {
         if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            return value == static_cast<T>(v.value);
+            return compare_bits<op_msb, op_lsb, op_signed>() ==
+                   v.template compare_bits<msb, lsb, signed_>();
         } else {
-            return value == v.value;
+            return to_big_num() == v.to_big_num();
         }
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
     bool operator!=(const bit<op_msb, op_lsb, op_signed> &v) const {
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            return value != static_cast<T>(v.value);
-        } else {
-            return value != v.value;
-        }
+        return !((*this) == v);
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -615,10 +628,11 @@ public:
             if constexpr (signed_ && op_signed) {
                 return value > v.value;
             } else {
-                return static_cast<uint64_t>(value) > static_cast<uint64_t>(v.value);
+                return compare_bits<op_msb, op_lsb, op_signed>() >
+                       v.template compare_bits<msb, lsb, signed_>();
             }
-        } else if constexpr (!native_num) {
-            return value > v.value;
+        } else {
+            return to_big_num() > v.to_big_num();
         }
     }
 
@@ -634,10 +648,11 @@ public:
             if constexpr (signed_ && op_signed) {
                 return value < v.value;
             } else {
-                return static_cast<uint64_t>(value) < static_cast<uint64_t>(v.value);
+                return compare_bits<op_msb, op_lsb, op_signed>() <
+                       v.template compare_bits<msb, lsb, signed_>();
             }
-        } else if constexpr (!native_num) {
-            return value < v.value;
+        } else {
+            return to_big_num() < v.to_big_num();
         }
     }
 
@@ -653,10 +668,11 @@ public:
             if constexpr (signed_ && op_signed) {
                 return value >= v.value;
             } else {
-                return static_cast<uint64_t>(value) >= static_cast<uint64_t>(v.value);
+                return compare_bits<op_msb, op_lsb, op_signed>() >=
+                       v.template compare_bits<msb, lsb, signed_>();
             }
-        } else if constexpr (!native_num) {
-            return value >= v.value;
+        } else {
+            return to_big_num() >= v.to_big_num();
         }
     }
 
@@ -672,10 +688,11 @@ public:
             if constexpr (signed_ && op_signed) {
                 return value <= v.value;
             } else {
-                return static_cast<uint64_t>(value) <= static_cast<uint64_t>(v.value);
+                return compare_bits<op_msb, op_lsb, op_signed>() <=
+                       v.template compare_bits<msb, lsb, signed_>();
             }
-        } else if constexpr (!native_num) {
-            return value <= v.value;
+        } else {
+            return to_big_num() <= v.to_big_num();
         }
     }
 
-- 
2.43.0


From 247a1bdacbdb842fb9c5a23af60918d51c52993b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:07 +0000
Subject: [PATCH 24/55] fix: bit::negative compiles for an unsigned big number

---
 include/logic/bit.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 1dfefb7..a46bb91 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -137,7 +137,9 @@ public:
      * relates to whether it's negative or not
      */
     [[nodiscard]] bool negative() const {
-        if constexpr (native_num) {
+        if constexpr (!signed_) {
+            return false;
+        } else if constexpr (native_num) {
             return value < 0;
         } else {
             return value.negative();
-- 
2.43.0


From 36c8fac909470686501b971866725cd3855c03f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:07 +0000
Subject: [PATCH 25/55] fix: bit indexing honours the declared range for every
 width and ignores positions out of range

---
 include/logic/bit.hh | 100 ++++++++++---------------------------------
 1 file changed, 23 insertions(+), 77 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index a46bb91..95a97b0 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -47,36 +47,26 @@ public:
     bit<0> inline operator[](int idx) const requires(!array) { return get_(idx); }
 
     template <int idx>
-    requires(idx < size && native_num) [[nodiscard]] bit<0> inline get() const requires(!array) {
-        return this->operator[](idx);
+    [[nodiscard]] bit<0> inline get() const requires(!array) {
+        return get_(idx);
     }
 
     template <int op_msb, int op_lsb, bool op_signed, bool op_array>
     bool inline get(const bit<op_msb, op_lsb, op_signed, op_array> &op) const requires(!array) {
-        int index;
-        if constexpr (bit<op_msb, op_lsb>::native_num) {
-            index = op.value - util::min(msb, lsb);
-        } else {
-            if (op.fit_in_64()) {
-                index = op.value.value[0] - util::min(msb, lsb);
-            } else {
-                return false;
-            }
+        // an index that doesn't fit into an int is out of range, in which case 0 is returned
+        if (op.negative()) {
+            if (op < bit<31, 0, true>(std::numeric_limits<int>::min())) return false;
+        } else if (op.shift_amount() > static_cast<uint64_t>(std::numeric_limits<int>::max())) {
+            return false;
         }
-        return get_(index);
+        return get_(static_cast<int>(op.to_uint64())).value;
     }
 
     void inline set(int idx, bool v) {
-        if constexpr (!big_endian) {
-            idx = lsb - idx;
-        }
-        auto i = static_cast<uint64_t>(idx - util::min(lsb, msb));
+        auto const i = bit_pos(idx);
+        if (i >= static_cast<uint64_t>(size)) return;
         if constexpr (native_num) {
-            if (v) {
-                value |= 1ull << i;
-            } else {
-                value &= ~(1ull << i);
-            }
+            assign_bits((raw_bits() & ~(1ull << i)) | (static_cast<uint64_t>(v) << i));
         } else {
             value.set(i, v);
         }
@@ -84,33 +74,11 @@ public:
 
     template <int idx>
     void set(bool v) requires(!array) {
-        constexpr auto idx_ = big_endian ? idx : (lsb - idx);
-        constexpr auto i = static_cast<uint64_t>(idx_ - util::min(lsb, msb));
-        if constexpr (native_num) {
-            if (v) {
-                value |= 1ull << i;
-            } else {
-                value &= ~(1ull << i);
-            }
-        } else {
-            value.template set<i>(v);
-        }
+        set(idx, v);
     }
 
     void inline set(int idx, bit<0> v) {
-        if constexpr (!big_endian) {
-            idx = lsb - idx;
-        }
-        auto i = static_cast<uint64_t>(idx - util::min(lsb, msb));
-        if constexpr (native_num) {
-            if (v) {
-                value |= 1ull << i;
-            } else {
-                value &= ~(1ull << i);
-            }
-        } else {
-            value.set(idx, v.value);
-        }
+        set(idx, v.value);
     }
 
     template <int idx>
@@ -120,17 +88,7 @@ public:
 
     template <int idx, bool v>
     void set() requires(!array) {
-        auto constexpr idx_ = big_endian ? idx : (lsb - idx);
-        constexpr auto i = idx_ - util::min(lsb, msb);
-        if constexpr (native_num) {
-            if constexpr (v) {
-                value |= 1ull << i;
-            } else {
-                value &= ~(1ull << i);
-            }
-        } else {
-            value.template set<i, v>();
-        }
+        set(idx, v);
     }
 
     /*
@@ -1131,32 +1089,20 @@ private:
     }
 
     [[nodiscard]] inline bit<0> get_(int idx) const {
-        if constexpr (!big_endian) {
-            idx = lsb - idx;
-        }
+        auto const i = bit_pos(idx);
+        if (i >= static_cast<uint64_t>(size)) return bit<0>(false);
         if constexpr (native_num) {
-            return bit<0>((value >> idx) & 1);
+            return bit<0>((raw_bits() >> i) & 1);
         } else {
-            return bit<0>(value[idx]);
+            return bit<0>(value[i]);
         }
     }
 
-    template <int idx>
-    [[nodiscard]] inline bit<0> get_() const {
-        if constexpr (!big_endian) {
-            constexpr auto idx_ = lsb - idx;
-            if constexpr (native_num) {
-                return bit<0>((value >> idx_) & 1);
-            } else {
-                return bit<0>(value.template get<idx_>());
-            }
-        } else {
-            if constexpr (native_num) {
-                return bit<0>((value >> idx) & 1);
-            } else {
-                return bit<0>(value.template get<idx>());
-            }
-        }
+    // position in the holder. for little endian the msb has the smallest index.
+    // out of range if the result is not smaller than size
+    static constexpr uint64_t bit_pos(int idx) {
+        auto const i = static_cast<int64_t>(idx);
+        return static_cast<uint64_t>(big_endian ? i - lsb : lsb - i);
     }
 
 protected:
-- 
2.43.0


From b693df4490d9b2b132208a583d78e01ea1762d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:07 +0000
Subject: [PATCH 26/55] fix: bit slices are taken from the declared bits only,
 also for signed and 65-bit results

---
 include/logic/bit.hh | 46 ++++++++++----------------------------------
 1 file changed, 10 insertions(+), 36 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 95a97b0..f2a4072 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -118,7 +118,7 @@ public:
      * big number but small slice
      */
     template <int a, int b>
-    requires(util::max(a, b) < size && !native_num && util::native_num(util::abs_diff(a, b)) &&
+    requires(util::max(a, b) < size && !native_num && util::native_num(util::abs_diff(a, b) + 1) &&
              b >= lsb) constexpr bit<util::abs_diff(a, b)> inline slice() const requires(!array) {
         bit<util::abs_diff(a, b), false> result;
         auto res = value.template slice<a, b>();
@@ -131,7 +131,7 @@ public:
      * big number and big slice
      */
     template <int a, int b>
-    requires(util::max(a, b) < size && !native_num && !util::native_num(util::abs_diff(a, b)) &&
+    requires(util::max(a, b) < size && !native_num && !util::native_num(util::abs_diff(a, b) + 1) &&
              b >= lsb) constexpr bit<util::abs_diff(a, b)> inline slice() const requires(!array) {
         bit<util::abs_diff(a, b), false> result;
         result.value = value.template slice<a, b>();
@@ -1082,12 +1082,6 @@ private:
         this->template unpack_<base + arg0_size>(args...);
     }
 
-    [[nodiscard]] T value_mask(uint64_t requested_size) const {
-        auto mask = std::numeric_limits<uint64_t>::max();
-        mask = mask >> (64ull - requested_size);
-        return static_cast<T>(mask);
-    }
-
     [[nodiscard]] inline bit<0> get_(int idx) const {
         auto const i = bit_pos(idx);
         if (i >= static_cast<uint64_t>(size)) return bit<0>(false);
@@ -1111,25 +1105,11 @@ protected:
     constexpr inline slice_() const {
         // assume the import has type-checked properly, e.g. by a compiler
         constexpr auto base = util::min(msb, lsb);
-        constexpr auto max = util::max(a, b) - base;
         constexpr auto min = util::min(a, b) - base;
-        constexpr auto t_size = sizeof(T) * 8;
         constexpr auto target_size = util::abs_diff(a, b) + 1;
         bit<target_size - 1, false> result;
-        if constexpr (target_size == 1 && size == 1) {
-            result.value = value != 0;
-        } else {
-            constexpr auto default_mask = bit_mask();
-            uint64_t mask = default_mask << min;
-            uint64_t shmnt;
-            if constexpr (signed_) {
-                shmnt = 2;
-            } else {
-                shmnt = 1;
-            }
-            mask &= (default_mask >> (t_size - max - shmnt));
-            result.value = (value & static_cast<T>(mask)) >> min;
-        }
+        // the bits above the slice are masked off
+        result.assign_bits(raw_bits() >> min);
         return result;
     }
 
@@ -1141,12 +1121,12 @@ protected:
             auto base = util::min(msb, lsb);
             auto max = util::max(a, b) - base;
             auto min = util::min(a, b) - base;
-            auto t_size = sizeof(T) * 8;
-            constexpr auto default_mask = bit_mask();
-            uint64_t mask = default_mask << min;
-            mask &= (default_mask >> (t_size - max - 1));
-            result.value = (value & static_cast<T>(mask)) >> min;
-
+            // out of range bits are 0
+            if (min >= 0 && min < size) {
+                auto v = raw_bits() >> min;
+                if (max - min < 63) v &= (1ull << (max - min + 1)) - 1;
+                result.assign_bits(v);
+            }
             return result;
         } else {
             // may need to shrink
@@ -1177,12 +1157,6 @@ protected:
             set(i, b);
         }
     }
-
-    // compute the mask in unsigned fashion
-    static constexpr auto bit_mask() requires(native_num) {
-        using TU = typename util::get_holder_type<size, false>::type;
-        return std::numeric_limits<TU>::max();
-    }
 };
 
 template <int a, int b, typename T>
-- 
2.43.0


From 55ebb69aa674941a9ec8ab2ea451274fbfdba1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:07 +0000
Subject: [PATCH 27/55] fix: bit concatenation compiles for big numbers and
 does not leak the sign extension

---
 include/logic/bit.hh | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index f2a4072..7d41c8f 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -230,28 +230,20 @@ public:
      * concatenation
      */
     template <int arg0_msb, int arg0_lsb, bool arg0_signed>
-    auto concat(const bit<arg0_msb, arg0_lsb, arg0_signed> &arg0) {
+    auto concat(const bit<arg0_msb, arg0_lsb, arg0_signed> &arg0) const {
         auto constexpr arg0_size = bit<arg0_msb, arg0_lsb>::size;
         auto constexpr final_size = size + arg0_size;
-        if constexpr (final_size < big_num_threshold) {
-            return bit<final_size - 1>(value << arg0_size | arg0.value);
+        auto res = bit<final_size - 1>();
+        if constexpr (util::native_num(final_size)) {
+            res.assign_bits(raw_bits() << arg0_size | arg0.raw_bits());
         } else {
-            auto res = bit<final_size - 1>();
-            if constexpr (bit<arg0_msb, arg0_lsb>::native_num) {
-                // convert to big num
-                big_num<arg0_size, false> b(arg0.value);
-                auto big_num = value.concat(b);
-                res.big_num = big_num;
-            } else {
-                auto big_num = value.concat(arg0.value);
-                res.big_num = big_num;
-            }
-            return res;
+            res.value = raw_big_num().concat(arg0.raw_big_num());
         }
+        return res;
     }
 
     template <typename U, typename... Ts>
-    auto concat(U arg0, Ts... args) {
+    auto concat(U arg0, Ts... args) const {
         return concat(arg0).concat(args...);
     }
 
@@ -304,6 +296,17 @@ public:
         }
     }
 
+    // the bits as an unsigned big number of the same size
+    [[nodiscard]] constexpr auto raw_big_num() const {
+        big_num<size, false> res;
+        if constexpr (native_num) {
+            res.values[0] = raw_bits();
+        } else {
+            res.values = value.values;
+        }
+        return res;
+    }
+
     // shift amount is always treated as an unsigned number
     [[nodiscard]] constexpr uint64_t shift_amount() const {
         if constexpr (native_num) {
-- 
2.43.0


From 30bded52e2f7afe08ca3b5433c2fa2b3f7d84c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:07 +0000
Subject: [PATCH 28/55] fix: bit formatting passes the declared bits only, not
 the sign extension

---
 include/logic/bit.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 7d41c8f..e909a64 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -31,7 +31,7 @@ public:
             if (signed_ && negative() && util::decimal_fmt(fmt)) {
                 return util::to_string(fmt, size, negate().value, true);
             } else {
-                return util::to_string(fmt, size, value, false);
+                return util::to_string(fmt, size, raw_bits(), false);
             }
         } else {
             if (signed_ && negative() && util::decimal_fmt(fmt)) {
-- 
2.43.0


From b4263b9b029c0fee6a5f3a91664331e0454965eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:41 +0000
Subject: [PATCH 29/55] fix: bit::update aligns the operand to the slice for
 every endianness

---
 include/logic/bit.hh | 37 ++++++++-----------------------------
 1 file changed, 8 insertions(+), 29 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index e909a64..e3478cb 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -916,27 +916,12 @@ public:
     // setting values
     template <int hi, int lo = hi, int op_hi, int op_lo, bool op_signed>
     void update(const bit<op_hi, op_lo, op_signed> &op) requires(hi < size && lo < size) {
-        auto constexpr start = util::min(hi, lo);
-        auto constexpr end = util::max(hi, lo) + 1;
-        for (auto i = start; i < end; i++) {
-            // notice that if it is out of range, 0 will be returned
-            // we need to revert the index accessing scheme here, if the endian doesn't match
-            int idx;
-            if constexpr (bit<op_hi, op_lo>::big_endian ^ big_endian) {
-                idx = util::max(op_lo, op_hi) - i;
-            } else {
-                idx = i;
-            }
-            auto b = op.operator[](idx);
-            set(i, b);
-        }
+        this->update_(hi, lo, op);
     }
 
     template <int op_hi, int op_lo, bool op_signed>
     void update(int hi, int lo, const bit<op_hi, op_lo, op_signed> &op) {
-        auto start = util::min(hi, lo);
-        auto end = util::max(hi, lo);
-        this->template update_(start, end, op);
+        this->update_(hi, lo, op);
     }
 
     /*
@@ -1145,19 +1130,13 @@ protected:
 
     template <int op_msb, int op_lsb, bool op_signed>
     void update_(int hi, int lo, const bit<op_msb, op_lsb, op_signed> &op) {
-        auto start = util::min(hi, lo);
-        auto end = util::max(hi, lo) + 1;
-        for (auto i = start; i < end; i++) {
+        auto const start = util::min(hi, lo);
+        auto const end = util::max(hi, lo);
+        // go from the LSB to the MSB of the slice. the index grows or shrinks depending on the endian
+        for (auto i = 0; i <= end - start; i++) {
             // notice that if it is out of range, 0 will be returned
-            // we need to revert the index accessing scheme here, if the endian doesn't match
-            uint64_t idx;
-            if constexpr (bit<op_msb, op_lsb>::big_endian ^ big_endian) {
-                idx = util::max(op_lsb, op_msb) - i;
-            } else {
-                idx = i;
-            }
-            auto b = op.operator[](idx - start);
-            set(i, b);
+            auto const idx = bit<op_msb, op_lsb>::big_endian ? op_lsb + i : op_lsb - i;
+            set(big_endian ? start + i : end - i, op.operator[](idx));
         }
     }
 };
-- 
2.43.0


From 937fbe186beb199b3db53baa256fab432067c81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:41 +0000
Subject: [PATCH 30/55] fix: bit::unpack compiles and assigns every argument

---
 include/logic/bit.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index e3478cb..85e77d4 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -1045,7 +1045,7 @@ private:
     requires(base < size) void unpack_(bit<arg0_msb, arg0_lsb, arg0_signed> &arg0) const {
         auto constexpr arg0_size = bit<arg0_msb, arg0_lsb, arg0_signed>::size;
         auto constexpr upper_bound = util::min(size - 1, arg0_size + base - 1);
-        arg0.value = this->template slice<base, upper_bound>();
+        arg0 = this->template slice<base, upper_bound>();
     }
 
     template <int base, int arg0_msb, int arg0_lsb, bool arg0_signed>
@@ -1056,6 +1056,10 @@ private:
         arg0.xz_mask.clear();
     }
 
+    // no more arguments
+    template <int base>
+    void unpack_() const {}
+
     template <int base = 0, int arg0_msb, int arg0_lsb, bool arg0_signed, typename... Ts>
     [[maybe_unused]] auto unpack_(bit<arg0_msb, arg0_lsb, arg0_signed> &arg0, Ts &...args) const {
         auto constexpr arg0_size = bit<arg0_msb, arg0_lsb, arg0_signed>::size;
-- 
2.43.0


From 9e0ffc6a8913ac467b67e0cc384d8883b5b4be7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:06 +0000
Subject: [PATCH 31/55] fix: util.hh compiles on its own

---
 include/logic/util.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/logic/util.hh b/include/logic/util.hh
index 11e9464..39981b1 100644
--- a/include/logic/util.hh
+++ b/include/logic/util.hh
@@ -3,6 +3,7 @@
 
 #include <algorithm>
 #include <array>
+#include <cstdint>
 #include <limits>
 #include <numeric>
 #include <sstream>
-- 
2.43.0


From 6d72394a291fa1495b81f3b8b752f15613839e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:58 +0000
Subject: [PATCH 32/55] fix: logic single bit selection keeps x and z for every
 index

---
 include/logic/logic.hh | 38 +++++++++++++-------------------------
 1 file changed, 13 insertions(+), 25 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 0c5933e..cbd20b3 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -55,9 +55,9 @@ public:
         if (idx <= util::max(msb, lsb) && idx >= util::min(msb, lsb)) [[likely]] {
             logic<0> r;
             if (x_set(idx)) [[unlikely]] {
-                r.set_x(idx);
+                r.set_x(0);
             } else if (z_set(idx)) [[unlikely]] {
-                r.set_z(idx);
+                r.set_z(0);
             } else {
                 r.value = value[idx];
                 r.xz_mask.value = false;
@@ -73,9 +73,9 @@ public:
     requires(idx < size) [[nodiscard]] inline logic<0> get() const requires(!array) {
         logic<0> r{false};
         if (this->template x_set<idx>()) [[unlikely]] {
-            r.set_x<idx>();
+            r.set_x(0);
         } else if (this->template z_set<idx>()) [[unlikely]] {
-            r.set_z<idx>();
+            r.set_z(0);
         } else {
             r.value = value.template get<idx>();
         }
@@ -85,32 +85,20 @@ public:
     template <int op_msb, int op_lsb, bool op_signed, bool op_array>
     logic<0> inline get(const logic<op_msb, op_lsb, op_signed, op_array> &op) const
         requires(!array) {
-        int index;
-        if constexpr (util::native_num(util::total_size(msb, lsb))) {
-            index = op.value - util::min(msb, lsb);
-        } else {
-            if (op.fit_in_64() && !op.xz_mask.any_set()) {
-                index = op.value.value[0] - util::min(msb, lsb);
-            } else {
-                return x_();
-            }
-        }
-        return operator[](index);
+        // unknown index gives unknown value
+        if (op.xz_mask.any_set()) return x_();
+        return get(op.value);
     }
 
     template <int op_msb, int op_lsb, bool op_signed, bool op_array>
     logic<0> inline get(const bit<op_msb, op_lsb, op_signed, op_array> &op) const requires(!array) {
-        int index;
-        if constexpr (util::native_num(util::total_size(msb, lsb))) {
-            index = op.value - util::min(msb, lsb);
-        } else {
-            if (op.fit_in_64()) {
-                index = op.value.value[0] - util::min(msb, lsb);
-            } else {
-                return x_();
-            }
+        // an index that doesn't fit into an int is out of range
+        if (op.negative()) {
+            if (op < bit<31, 0, true>(std::numeric_limits<int>::min())) return x_();
+        } else if (op.shift_amount() > static_cast<uint64_t>(std::numeric_limits<int>::max())) {
+            return x_();
         }
-        return operator[](index);
+        return operator[](static_cast<int>(op.to_uint64()));
     }
 
     void set(int idx, bool v) requires(!array) {
-- 
2.43.0


From 40349ca72fbba0e403e83acb963c1cfee186936f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:58 +0000
Subject: [PATCH 33/55] fix: logic extension and assignment replicate an
 unknown sign bit

---
 include/logic/logic.hh | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index cbd20b3..76e8fc5 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -217,7 +217,7 @@ public:
         [[nodiscard]] constexpr logic<target_size - 1, 0, signed_> extend() const {
         logic<target_size - 1, 0, signed_> result;
         result.value = value.template extend<target_size>();
-        result.xz_mask = xz_mask.template extend<target_size>();
+        result.xz_mask = signed_mask().template extend<target_size>();
         return result;
     }
 
@@ -654,7 +654,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     [[nodiscard]] bool match(const logic<op_msb, op_lsb, op_signed> &op) const {
-        return value == op.value && xz_mask == op.xz_mask;
+        return value == op.value && signed_mask() == op.signed_mask();
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -1026,7 +1026,7 @@ public:
     template <int new_msb, int new_lsb, bool new_signed>
     logic &operator=(const logic<new_msb, new_lsb, new_signed> &b) {
         value = b.value;
-        xz_mask = b.xz_mask;
+        xz_mask = b.signed_mask();
         return *this;
     }
 
@@ -1040,7 +1040,16 @@ public:
     template <int new_msb, int new_lsb>
     constexpr logic(const logic<new_msb, new_lsb, true> &b) {  // NOLINT
         value = b.value;
-        xz_mask = b.xz_mask;
+        xz_mask = b.signed_mask();
+    }
+
+    // the mask with the same sign as the value, so that it will be extended in the same way
+    [[nodiscard]] constexpr auto signed_mask() const {
+        if constexpr (signed_) {
+            return xz_mask.to_signed();
+        } else {
+            return xz_mask.to_unsigned();
+        }
     }
 
     // useful constants
-- 
2.43.0


From 025b5088377bf9298a8ad9270575d95c92a9c356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:58 +0000
Subject: [PATCH 34/55] fix: logic concatenation with bit keeps the unknown
 bits in place

---
 include/logic/logic.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 76e8fc5..2f16b20 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -240,7 +240,7 @@ public:
         auto res = logic<final_size - 1, 0, signed_>();
         res.value = value.concat(arg0);
         // concat masks as well
-        res.xz_mask = xz_mask.template extend<final_size>();
+        res.xz_mask = xz_mask.concat(bit<arg0_msb, arg0_lsb>());
         return res;
     }
 
-- 
2.43.0


From 7ba54b010ed5befc9bc86639578d78313381dd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:58 +0000
Subject: [PATCH 35/55] fix: logic bitwise and/or/xor follow the four state
 truth table

---
 include/logic/logic.hh | 48 ++++++++++--------------------------------
 1 file changed, 11 insertions(+), 37 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 2f16b20..13df395 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -295,21 +295,12 @@ public:
         // x 0 x x x
         // z 0 x x x
         logic<size - 1, 0, util::signed_result(signed_, op_signed)> result;
+        // a known 0 dominates. otherwise any x/z makes it x
+        auto const zero = (~value & ~xz_mask) | (~op.value & ~op.xz_mask);
+        result.xz_mask = (xz_mask | op.xz_mask) & ~zero;
         result.value = value & op.value;
-        result.xz_mask = xz_mask & op.xz_mask;
-        // we have taken care of the top left and bottom case
-        // i.e.
-        // 0 0 0 0
-        // 0 1
-        // 0   x x
-        // 0   x x
-        // need to take care of the rest
-        // only happens between 1 and x/z. Notice that 1 is encoded as (1, 0) and x is (, 1)
-        //
-        auto mask = (((xz_mask ^ op.xz_mask) & ~xz_mask) & value) |     // 1   & x/z
-                    (((op.xz_mask ^ xz_mask) & ~op.xz_mask) & ~value);  // x/z & 1
-        result.value &= ~mask;
-        result.xz_mask |= mask;
+        // x is encoded as (0, 1)
+        result.value &= ~result.xz_mask;
 
         return result;
     }
@@ -354,28 +345,11 @@ public:
         // x x 1 x x
         // z x 1 x x
         logic<size - 1, 0, util::signed_result(signed_, op_signed)> result;
-        result.value = value | op.value;
-        result.xz_mask = xz_mask | op.xz_mask;
-        // we have taken care of the only top left case
-        // i.e.
-        // 0 0
-        // 0 1
-        //
-        //
-        // notice that for the rest of the empty cells, xz_mask is set properly
-        // we use that to create a msk of change everything into x
-        result.value &= ~result.xz_mask;
-        // now we have something like this
-        //   0 1 x z
-        // 0 0 1 x x
-        // 1 1 1 x x
-        // x x x x x
-        // z x x x x
-        // compute the mask for case // 1 & x/z and x/z & 1
-        auto mask = (((xz_mask ^ op.xz_mask) & ~xz_mask) & value) |     // 1   | x/z
-                    (((op.xz_mask ^ xz_mask) & ~op.xz_mask) & ~value);  // x/z | 1
-        result.value |= mask;
-        result.xz_mask &= ~mask;
+        // a known 1 dominates. otherwise any x/z makes it x
+        auto const one = (value & ~xz_mask) | (op.value & ~op.xz_mask);
+        result.xz_mask = (xz_mask | op.xz_mask) & ~one;
+        // x is encoded as (0, 1)
+        result.value = one;
         return result;
     }
 
@@ -444,7 +418,7 @@ public:
         const logic<op_msb, op_lsb, op_signed> &op) const {
         auto l = this->template extend<target_size>();
         auto r = op.template extend<target_size>();
-        auto result = l | r;
+        auto result = l ^ r;
         return result;
     }
 
-- 
2.43.0


From 5e8734f84b11af782294fd30af68adc4b16cffd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:58 +0000
Subject: [PATCH 36/55] fix: logic reductions: a known 0/1 dominates x, xor is
 the parity of the ones

---
 include/logic/logic.hh | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 13df395..8693cbb 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -450,12 +450,9 @@ public:
         for (auto i = 0u; i < size; i++) {
             auto b = value[i];
             auto m = xz_mask[i];
-            if (!b && !m)
-                return zero_();
-            else if (m)
-                return x_();
+            if (!b && !m) return zero_();
         }
-        return one_();
+        return xz_mask.any_set() ? x_() : one_();
     }
 
     [[nodiscard]] logic<0> r_nand() const { return !r_and(); }
@@ -464,12 +461,9 @@ public:
         for (auto i = 0u; i < size; i++) {
             auto b = value[i];
             auto m = xz_mask[i];
-            if (b && !m)
-                return one_();
-            else if (m)
-                return x_();
+            if (b && !m) return one_();
         }
-        return zero_();
+        return xz_mask.any_set() ? x_() : zero_();
     }
 
     [[nodiscard]] logic<0> r_nor() const { return !r_or(); }
@@ -484,8 +478,7 @@ public:
         // if x/z is set, it's always x
         if (xz_mask.any_set()) return x_();
         auto bits_count = value.popcount();
-        auto zeros = size - bits_count;
-        return (zeros % 2) ? one_() : zero_();
+        return (bits_count % 2) ? one_() : zero_();
     }
 
     [[nodiscard]] logic<0> r_xnor() const { return !r_xor(); }
-- 
2.43.0


From 22157dd59d4bed7ad42b5a6552d458ab0fc1b581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:58 +0000
Subject: [PATCH 37/55] fix: logic compound assignments return the object
 itself and resize the result

---
 include/logic/logic.hh | 35 ++++++++++-------------------------
 1 file changed, 10 insertions(+), 25 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 8693cbb..1e36845 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -321,11 +321,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    logic<size - 1, 0, util::signed_result(signed_, op_signed)> &operator&=(
-        const logic<op_msb, op_lsb, op_signed> &op) {
-        auto const res = (*this) & op;
-        this->value = res.value;
-        this->xz_mask = res.xz_mask;
+    logic &operator&=(const logic<op_msb, op_lsb, op_signed> &op) {
+        *this = (*this) & op;
         return *this;
     }
 
@@ -369,11 +366,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    logic<size - 1, 0, util::signed_result(signed_, op_signed)> &operator|=(
-        const logic<op_msb, op_lsb, op_signed> &op) {
-        auto const res = (*this) | op;
-        this->value = res.value;
-        this->xz_mask = res.xz_mask;
+    logic &operator|=(const logic<op_msb, op_lsb, op_signed> &op) {
+        *this = (*this) | op;
         return *this;
     }
 
@@ -423,11 +417,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    logic<size - 1, 0, util::signed_result(signed_, op_signed)> &operator^=(
-        const logic<op_msb, op_lsb, op_signed> &op) {
-        auto const res = (*this) ^ op;
-        this->value = res.value;
-        this->xz_mask = res.xz_mask;
+    logic &operator^=(const logic<op_msb, op_lsb, op_signed> &op) {
+        *this = (*this) ^ op;
         return *this;
     }
 
@@ -527,11 +518,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    logic<size - 1, 0, util::signed_result(signed_, op_signed)> &operator>>=(
-        const logic<op_msb, op_lsb, op_signed> &amount) {
-        auto res = (*this) >> amount;
-        value = res.value;
-        xz_mask = res.xz_mask;
+    logic &operator>>=(const logic<op_msb, op_lsb, op_signed> &amount) {
+        *this = (*this) >> amount;
         return *this;
     }
 
@@ -555,11 +543,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    logic<size - 1, 0, util::signed_result(signed_, op_signed)> &operator<<=(
-        const logic<op_msb, op_lsb, op_signed> &amount) {
-        auto res = (*this) << amount;
-        value = res.value;
-        xz_mask = res.xz_mask;
+    logic &operator<<=(const logic<op_msb, op_lsb, op_signed> &amount) {
+        *this = (*this) << amount;
         return *this;
     }
 
-- 
2.43.0


From 21ef8284cd830731bfa413807b8d2684ffef7b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:58 +0000
Subject: [PATCH 38/55] fix: logic operators accept bit operands of any width
 and keep their sign

---
 include/logic/logic.hh | 51 +++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 1e36845..775de9d 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -306,9 +306,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    requires((util::abs_diff(op_msb, op_lsb) + 1) != size) auto operator&(
-        const bit<op_msb, op_lsb, op_signed> &op) const {
-        return this->template operator&(logic(op));
+    auto operator&(const bit<op_msb, op_lsb, op_signed> &op) const {
+        return (*this) & ::logic::logic<op_msb, op_lsb, op_signed>(op);
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
@@ -351,9 +350,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    requires((util::abs_diff(op_msb, op_lsb) + 1) != size) auto operator|(
-        const bit<op_msb, op_lsb, op_signed> &op) const {
-        return this->template operator|(logic(op));
+    auto operator|(const bit<op_msb, op_lsb, op_signed> &op) const {
+        return (*this) | ::logic::logic<op_msb, op_lsb, op_signed>(op);
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
@@ -402,9 +400,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    requires((util::abs_diff(op_msb, op_lsb) + 1) != size) auto operator^(
-        const bit<op_msb, op_lsb, op_signed> &op) const {
-        return this->template operator^(logic(op));
+    auto operator^(const bit<op_msb, op_lsb, op_signed> &op) const {
+        return (*this) ^ ::logic::logic<op_msb, op_lsb, op_signed>(op);
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
@@ -512,9 +509,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    requires((util::abs_diff(op_msb, op_lsb) + 1) != size) auto operator>>(
-        const bit<op_msb, op_lsb, op_signed> &op) const {
-        return this->template operator>>(logic(op));
+    auto operator>>(const bit<op_msb, op_lsb, op_signed> &op) const {
+        return (*this) >> ::logic::logic<op_msb, op_lsb, op_signed>(op);
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -537,9 +533,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    requires((util::abs_diff(op_msb, op_lsb) + 1) != size) auto operator<<(
-        const bit<op_msb, op_lsb, op_signed> &op) const {
-        return this->template operator<<(logic(op));
+    auto operator<<(const bit<op_msb, op_lsb, op_signed> &op) const {
+        return (*this) << ::logic::logic<op_msb, op_lsb, op_signed>(op);
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -576,7 +571,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto ashl(const bit<op_msb, op_lsb, op_signed> &amount) const {
-        return this->template ashl(logic(amount));
+        return ashl(::logic::logic<op_msb, op_lsb, op_signed>(amount));
     }
 
     /*
@@ -590,7 +585,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     logic<0> operator==(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator==(logic(target));
+        return (*this) == ::logic::logic<op_msb, op_lsb, op_signed>(target);
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -601,7 +596,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     logic<0> operator!=(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator!=(logic(target));
+        return (*this) != ::logic::logic<op_msb, op_lsb, op_signed>(target);
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -611,7 +606,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     [[nodiscard]] bool match(const bit<op_msb, op_lsb, op_signed> &op) const {
-        return this->template match(logic(op));
+        return match(::logic::logic<op_msb, op_lsb, op_signed>(op));
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -632,7 +627,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     logic<0> operator>(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator>(logic(target));
+        return (*this) > ::logic::logic<op_msb, op_lsb, op_signed>(target);
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -643,7 +638,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     logic<0> operator<(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator<(logic(target));
+        return (*this) < ::logic::logic<op_msb, op_lsb, op_signed>(target);
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -654,7 +649,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     logic<0> operator>=(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator>=(logic(target));
+        return (*this) >= ::logic::logic<op_msb, op_lsb, op_signed>(target);
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -665,7 +660,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     logic<0> operator<=(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator<=(logic(target));
+        return (*this) <= ::logic::logic<op_msb, op_lsb, op_signed>(target);
     }
 
     constexpr auto operator-() const {
@@ -703,7 +698,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator+(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator+(logic(target));
+        return (*this) + ::logic::logic<op_msb, op_lsb, op_signed>(target);
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
@@ -734,7 +729,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator-(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator-(logic(target));
+        return (*this) - ::logic::logic<op_msb, op_lsb, op_signed>(target);
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
@@ -765,7 +760,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator*(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator*(logic(target));
+        return (*this) * ::logic::logic<op_msb, op_lsb, op_signed>(target);
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
@@ -797,7 +792,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator/(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator/(logic(target));
+        return (*this) / ::logic::logic<op_msb, op_lsb, op_signed>(target);
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
@@ -829,7 +824,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator%(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator%(logic(target));
+        return (*this) % ::logic::logic<op_msb, op_lsb, op_signed>(target);
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
-- 
2.43.0


From b65f0b6f5847c11ede33598055321602eecd0d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:58 +0000
Subject: [PATCH 39/55] fix: logic formatting and parsing use the declared bits
 only

---
 include/logic/logic.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 775de9d..f30a1e6 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -30,7 +30,7 @@ public:
             if (is_negative && util::decimal_fmt(fmt)) {
                 auto value_ = value.negate().value;
                 if constexpr (util::native_num(size)) {
-                    uint64_t xz = xz_mask.value;
+                    uint64_t xz = xz_mask.raw_bits();
                     return util::to_string(fmt, size, value_, xz, true);
                 } else {
                     return util::to_string(fmt, size, value_.values.data(),
@@ -39,8 +39,8 @@ public:
             }
         }
         if constexpr (util::native_num(size)) {
-            uint64_t v = value.value;
-            uint64_t xz = xz_mask.value;
+            uint64_t v = value.raw_bits();
+            uint64_t xz = xz_mask.raw_bits();
             return util::to_string(fmt, size, v, xz, false);
         } else {
             return util::to_string(fmt, size, value.value.values.data(),
@@ -948,8 +948,8 @@ public:
     explicit logic(const char *str) : logic(std::string_view(str)) {}
     explicit constexpr logic(std::string_view v) {
         if constexpr (util::native_num(size)) {
-            value.value = util::parse_raw_str(v);
-            xz_mask.value = util::parse_xz_raw_str(v);
+            value.assign_bits(util::parse_raw_str(v));
+            xz_mask.assign_bits(util::parse_xz_raw_str(v));
         } else {
             util::parse_raw_str(v, size, value.value.values.data());
             util::parse_xz_raw_str(v, size, xz_mask.value.values.data());
-- 
2.43.0


From 8cb96edbdff05158385ca88d89c4787121b22298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:58 +0000
Subject: [PATCH 40/55] fix: logic::update aligns the operand to the slice for
 every endianness

---
 include/logic/logic.hh | 54 +++++++++---------------------------------
 1 file changed, 11 insertions(+), 43 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index f30a1e6..e05ab43 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -863,9 +863,7 @@ public:
 
     template <int op_hi, int op_lo, bool op_signed>
     void update(int hi, int lo, const logic<op_hi, op_lo, op_signed> &op) {
-        auto start = util::min(hi, lo);
-        auto end = util::max(hi, lo);
-        this->template update_(start, end, op);
+        this->update_(hi, lo, op);
     }
 
     /*
@@ -1078,51 +1076,21 @@ protected:
     void update_(const logic<op_hi, op_lo, op_signed> &op) requires(hi < size && lo < size &&
                                                                     util::match_endian(hi, lo, msb,
                                                                                        lsb)) {
-        auto constexpr start = util::min(hi, lo);
-        auto constexpr end = util::max(hi, lo) + 1;
-        for (auto i = start; i < end; i++) {
-            // notice that if it is out of range, 0 will be returned
-            // we need to revert the index accessing scheme here, if the endian doesn't match
-            uint64_t idx;
-            if constexpr (logic<op_hi, op_lo, op_signed>::big_endian ^ big_endian) {
-                idx = util::max(op_lo, op_hi) - i;
-            } else {
-                idx = i;
-            }
-            idx = idx - start;
-            logic<0, 0> b;
-            if (idx > util::max(op_lo, op_hi) || idx < util::min(op_lo, op_hi)) {
-                // out of bound access, set to 0
-                b = zero_();
-            } else {
-                b = op.operator[](idx);
-            }
-            set_(i, b);
-        }
+        this->update_(hi, lo, op);
     }
 
     template <int op_hi, int op_lo, bool op_signed>
     void update_(int hi, int lo, const logic<op_hi, op_lo, op_signed> &op) {
-        auto start = util::min(hi, lo);
-        auto end = util::max(hi, lo) + 1;
-        for (auto i = start; i < end; i++) {
-            // notice that if it is out of range, 0 will be returned
-            // we need to revert the index accessing scheme here, if the endian doesn't match
-            uint64_t idx;
-            if constexpr (logic<op_hi, op_lo, op_signed>::big_endian ^ big_endian) {
-                idx = util::max(op_lo, op_hi) - i;
-            } else {
-                idx = i;
-            }
-            idx = idx - start;
-            logic<0, 0> b;
-            if (idx > util::max(op_lo, op_hi) || idx < util::min(op_lo, op_hi)) {
-                // out of bound access, set to 0
-                b = zero_();
-            } else {
-                b = op.operator[](idx);
+        auto const start = util::min(hi, lo);
+        auto const end = util::max(hi, lo);
+        // go from the LSB to the MSB of the slice. the index grows or shrinks depending on the endian
+        for (auto i = 0; i <= end - start; i++) {
+            // if the operand is too small, 0 will be used
+            logic<0, 0> b = zero_();
+            if (i < logic<op_hi, op_lo>::size) {
+                b = op.operator[](logic<op_hi, op_lo>::big_endian ? op_lo + i : op_lo - i);
             }
-            set_(i, b);
+            set_(big_endian ? start + i : end - i, b);
         }
     }
 };
-- 
2.43.0


From aebd6ee75f098fafd863baf95feb424b72bda4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:33 +0000
Subject: [PATCH 41/55] fix: a static slice of a big number starts from the
 declared right bound

---
 include/logic/bit.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 85e77d4..56c708b 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -121,7 +121,8 @@ public:
     requires(util::max(a, b) < size && !native_num && util::native_num(util::abs_diff(a, b) + 1) &&
              b >= lsb) constexpr bit<util::abs_diff(a, b)> inline slice() const requires(!array) {
         bit<util::abs_diff(a, b), false> result;
-        auto res = value.template slice<a, b>();
+        constexpr auto base = util::min(msb, lsb);
+        auto res = value.template slice<a - base, b - base>();
         // need to shrink it down
         result.value = res.values[0];
         return result;
@@ -134,7 +135,8 @@ public:
     requires(util::max(a, b) < size && !native_num && !util::native_num(util::abs_diff(a, b) + 1) &&
              b >= lsb) constexpr bit<util::abs_diff(a, b)> inline slice() const requires(!array) {
         bit<util::abs_diff(a, b), false> result;
-        result.value = value.template slice<a, b>();
+        constexpr auto base = util::min(msb, lsb);
+        result.value = value.template slice<a - base, b - base>();
         return result;
     }
 
-- 
2.43.0


From 03016f940c3753da462f19a70bf937493feed7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:33 +0000
Subject: [PATCH 42/55] fix: a runtime slice honours the declared range and
 ends for every index

---
 include/logic/bit.hh | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 56c708b..7e81bc9 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -1088,12 +1088,15 @@ private:
 
     // position in the holder. for little endian the msb has the smallest index.
     // out of range if the result is not smaller than size
-    static constexpr uint64_t bit_pos(int idx) {
+    static constexpr uint64_t bit_pos(int idx) { return static_cast<uint64_t>(slice_pos(idx)); }
+
+protected:
+    // signed position in the holder
+    static constexpr int64_t slice_pos(int idx) {
         auto const i = static_cast<int64_t>(idx);
-        return static_cast<uint64_t>(big_endian ? i - lsb : lsb - i);
+        return big_endian ? i - lsb : lsb - i;
     }
 
-protected:
     template <int a, int b>
     requires(util::max(a, b) < size && native_num && b >= lsb) bit<util::abs_diff(a, b)>
     constexpr inline slice_() const {
@@ -1110,26 +1113,18 @@ protected:
     template <uint32_t target_size>
     [[nodiscard]] auto slice_(int a, int b) const {
         bit<target_size - 1, false> result;
-        if constexpr (native_num) {
-            // assume the import has type-checked properly, e.g. by a compiler
-            auto base = util::min(msb, lsb);
-            auto max = util::max(a, b) - base;
-            auto min = util::min(a, b) - base;
-            // out of range bits are 0
-            if (min >= 0 && min < size) {
-                auto v = raw_bits() >> min;
-                if (max - min < 63) v &= (1ull << (max - min + 1)) - 1;
-                result.assign_bits(v);
-            }
-            return result;
-        } else {
-            // may need to shrink
-            auto v = value.template slice<target_size>(a, b);
-            if constexpr (util::native_num(target_size)) {
-                result.value = static_cast<decltype(result.value)>(v.values[0]);
+        auto const start = util::min(slice_pos(a), slice_pos(b));
+        auto const end = util::max(slice_pos(a), slice_pos(b));
+        // out of range bits are 0
+        for (auto i = util::max<int64_t>(start, 0); i <= util::min<int64_t>(end, size - 1); i++) {
+            if (i - start >= target_size) break;
+            bool v;
+            if constexpr (native_num) {
+                v = (raw_bits() >> i) & 1;
             } else {
-                result.value = v;
+                v = value[i];
             }
+            result.set(static_cast<int>(i - start), v);
         }
         return result;
     }
-- 
2.43.0


From 5604fbb307c2896e16dd802085290c40cc957988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:25 +0000
Subject: [PATCH 43/55] fix: a runtime slice reads x outside of the declared
 range, like a single bit does

---
 include/logic/logic.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index e05ab43..54f7524 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -180,6 +180,14 @@ public:
         logic<target_size - 1, 0> result;
         result.value = value.template slice<target_size>(a, b);
         result.xz_mask = xz_mask.template slice<target_size>(a, b);
+        // out of range bits are x
+        int64_t const start = big_endian ? static_cast<int64_t>(util::min(a, b)) - lsb
+                                         : lsb - static_cast<int64_t>(util::max(a, b));
+        for (int64_t i = 0; i < static_cast<int64_t>(target_size); i++) {
+            if (start + i < 0 || start + i >= static_cast<int64_t>(size)) {
+                result.xz_mask.set(static_cast<int>(i), true);
+            }
+        }
         return result;
     }
 
-- 
2.43.0


From b94b49804e5ed6ab0af8e5ceba8906bdef3164f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:25 +0000
Subject: [PATCH 44/55] fix: packed_array addresses whole elements within its
 bounds

---
 include/logic/array.hh | 68 +++++++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 30 deletions(-)

diff --git a/include/logic/array.hh b/include/logic/array.hh
index 62b0b2e..f6a7352 100644
--- a/include/logic/array.hh
+++ b/include/logic/array.hh
@@ -42,6 +42,24 @@ private:
     }
     using VT = typename util::get_array_type<T, msb, lsb, T::is_4state>::type;
 
+    // position of the element, counting from the one that holds the least significant bits
+    static constexpr int element_pos(int idx) { return msb >= lsb ? idx - lsb : lsb - idx; }
+
+    // -1 if the index is unknown or out of range
+    template <int op_msb, int op_lsb, bool op_signed>
+    static int element_pos(const logic<op_msb, op_lsb, op_signed> &op) {
+        if (op.xz_mask.any_set()) return -1;
+        // an index that doesn't fit into an int is out of range
+        if (op.value.negative()) {
+            if (op.value < bit<31, 0, true>(std::numeric_limits<int>::min())) return -1;
+        } else if (op.value.shift_amount() > static_cast<uint64_t>(std::numeric_limits<int>::max())) {
+            return -1;
+        }
+        auto const idx = static_cast<int>(op.value.to_uint64());
+        if (idx < util::min(msb, lsb) || idx > util::max(msb, lsb)) return -1;
+        return element_pos(idx);
+    }
+
 public:
     // compute the base size
     static constexpr auto base_size = T::size;
@@ -55,12 +73,16 @@ public:
         // copy values over
         // maybe use SIMD to copy?
         // need to compute base address
-        auto constexpr min_idx = util::min(hi, lo) - util::min(msb, lsb);
-        auto constexpr max_idx = util::max(hi, lo) - util::min(msb, lsb);
+        auto constexpr min_idx = util::min(element_pos(hi), element_pos(lo));
+        auto constexpr max_idx = util::max(element_pos(hi), element_pos(lo));
         auto constexpr start_addr = min_idx * base_size;
         auto constexpr end_addr = (max_idx + 1) * base_size;
 
-        return VT::template slice_<end_addr - 1, start_addr>();
+        if constexpr (is_4state) {
+            return VT::template slice_<end_addr - 1, start_addr>();
+        } else {
+            return VT::template slice_<end_addr - start_addr>(end_addr - 1, start_addr);
+        }
     }
 
     // Clion linter goes crazy here, even though it's hiding since the base class requires
@@ -68,51 +90,37 @@ public:
     template <int hi, int lo, typename V>
     auto update(V &&v) {
         // need to compute the base
-        auto constexpr min_idx = util::min(hi, lo) - util::min(msb, lsb);
-        auto constexpr max_idx = util::max(hi, lo) - util::min(msb, lsb);
+        auto constexpr min_idx = util::min(element_pos(hi), element_pos(lo));
+        auto constexpr max_idx = util::max(element_pos(hi), element_pos(lo));
         auto constexpr start_addr = min_idx * base_size;
         auto constexpr end_addr = (max_idx + 1) * base_size;
         // use the underlying logic implementation
-        VT::template update_<end_addr - 1, start_addr>(v);
+        VT::update_(end_addr - 1, start_addr, v);
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator[](const logic<op_msb, op_lsb, op_signed> &op) const {
         // if the value is too big, we return X
-        static const auto size_logic = logic<31, 0>(array_size);
-        if (op.xz_mask.any_set() || op >= size_logic) [[unlikely]] {
+        auto const idx = element_pos(op);
+        if (idx < 0) [[unlikely]] {
             using T_ = typename util::get_array_base_type<T, base_size, T::is_4state>::type;
             return T_{};
         } else {
-            int index;
-            if constexpr (util::native_num(logic<op_msb, op_lsb>::size)) {
-                index = op.value.value;
-            } else {
-                index = op.value.value[0];
-            }
-            auto idx = index - util::min(msb, lsb);
-            auto start_addr = idx * base_size;
-            auto end_addr = (idx + 1) * base_size;
-            return VT::template slice<base_size>(start_addr, end_addr);
+            int const start_addr = idx * base_size;
+            int const end_addr = (idx + 1) * base_size;
+            return VT::template slice<base_size>(start_addr, end_addr - 1);
         }
     }
 
     template <int op_msb, int op_lsb, bool op_signed, typename K>
     void update(const logic<op_msb, op_lsb, op_signed> &op, const K &value) {
-        static const auto size_logic = logic<31, 0>(array_size);
-        if (op.xz_mask.any_set() || op >= size_logic) [[unlikely]] {
+        auto const idx = element_pos(op);
+        if (idx < 0) [[unlikely]] {
             return;
         } else {
-            int index;
-            if constexpr (util::native_num(logic<op_msb, op_lsb>::size)) {
-                index = op.value.value;
-            } else {
-                index = op.value.value[0];
-            }
-            auto idx = index - util::min(msb, lsb);
-            int start_addr = idx * base_size;
-            int end_addr = (idx + 1) * base_size;
-            VT::template update_(start_addr, end_addr, value);
+            int const start_addr = idx * base_size;
+            int const end_addr = (idx + 1) * base_size;
+            VT::update_(end_addr - 1, start_addr, value);
         }
     }
 
-- 
2.43.0


From 17dbfcda1297432ccc6cde3f04ddb56b7c0e1f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:03 +0000
Subject: [PATCH 45/55] fix: unpacked_array::update honours the declared range

---
 include/logic/array.hh | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/logic/array.hh b/include/logic/array.hh
index f6a7352..7590f4b 100644
--- a/include/logic/array.hh
+++ b/include/logic/array.hh
@@ -139,21 +139,21 @@ public:
 
     const T &operator[](int idx) const {
         const static T x_ = T{};
-        auto i = static_cast<uint32_t>(idx - util::min(msb, lsb));
-        if (i >= size) {
+        if (idx < util::min(msb, lsb) || idx > util::max(msb, lsb)) {
             return x_;
         } else {
-            return value[i];
+            return value[idx - util::min(msb, lsb)];
         }
     }
 
     template <int idx, typename V>
     auto update(const V v) {
-        if (idx >= size) return;
-        // need to compute the base
-        auto constexpr i = idx - util::min(msb, lsb);
-        // use the underlying logic implementation
-        value[i] = v;
+        if constexpr (idx >= util::min(msb, lsb) && idx <= util::max(msb, lsb)) {
+            // need to compute the base
+            auto constexpr i = idx - util::min(msb, lsb);
+            // use the underlying logic implementation
+            value[i] = v;
+        }
     }
 
 private:
-- 
2.43.0


From db83ac9d22d47e3a2945a70f19a430f51429e400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:05 +0000
Subject: [PATCH 46/55] fix: logic concatenation is unsigned, like the bit one

---
 include/logic/logic.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 54f7524..0fd6ae4 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -235,7 +235,7 @@ public:
     template <int arg0_msb, int arg0_lsb, bool arg0_signed>
     constexpr auto concat(const logic<arg0_msb, arg0_lsb, arg0_signed> &arg0) {
         auto constexpr final_size = size + logic<arg0_msb, arg0_lsb, arg0_signed>::size;
-        auto res = logic<final_size - 1, 0, signed_>();
+        auto res = logic<final_size - 1, 0>();
         res.value = value.concat(arg0.value);
         // concat masks as well
         res.xz_mask = xz_mask.concat(arg0.xz_mask);
@@ -245,7 +245,7 @@ public:
     template <int arg0_msb, int arg0_lsb, bool arg0_signed>
     constexpr auto concat(const bit<arg0_msb, arg0_lsb, arg0_signed> &arg0) {
         auto constexpr final_size = size + bit<arg0_msb, arg0_lsb, arg0_signed>::size;
-        auto res = logic<final_size - 1, 0, signed_>();
+        auto res = logic<final_size - 1, 0>();
         res.value = value.concat(arg0);
         // concat masks as well
         res.xz_mask = xz_mask.concat(bit<arg0_msb, arg0_lsb>());
-- 
2.43.0


From 169f454b12e20798b5242720a77cbbd4ac5aeb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:13 +0000
Subject: [PATCH 47/55] Hook: loop invariant of the long division, under
 LOGIC_CONTRACTS

---
 include/logic/big_num.hh | 2 +-
 include/logic/util.hh    | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 3d9f4ca..2729ff4 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -824,7 +824,7 @@ public:
 
         big_num<size, false> q;
         big_num<size, false> r = *this;
-        for (auto i = 0u; i <= diff_bits; i++) {
+        for (auto i = 0u; LOGIC_LOOP_INVARIANT(div_mod, i, diff_bits, *this, op, q, r) i <= diff_bits; i++) {
             // shift r to the correct bit, could be too big
             auto t = op << (diff_bits - i);
             if (r >= t) {
diff --git a/include/logic/util.hh b/include/logic/util.hh
index 39981b1..2868ed8 100644
--- a/include/logic/util.hh
+++ b/include/logic/util.hh
@@ -12,6 +12,13 @@
 #include <type_traits>
 #include <vector>
 
+// loop invariants of the contracts; nothing is left of them unless the contracts are compiled along
+#ifdef LOGIC_CONTRACTS
+#define LOGIC_LOOP_INVARIANT(name, ...) ::logic_contracts::name(__VA_ARGS__),
+#else
+#define LOGIC_LOOP_INVARIANT(name, ...)
+#endif
+
 namespace logic {
 template <uint64_t size, bool signed_ = false>
 struct big_num;
-- 
2.43.0


From a63e0d1e234f45e233e150b039181cc8e0f102eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:00 +0000
Subject: [PATCH 48/55] Hook: pass the bit positions to the loop invariant of
 the long division

---
 include/logic/big_num.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 2729ff4..02f65e5 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -824,7 +824,7 @@ public:
 
         big_num<size, false> q;
         big_num<size, false> r = *this;
-        for (auto i = 0u; LOGIC_LOOP_INVARIANT(div_mod, i, diff_bits, *this, op, q, r) i <= diff_bits; i++) {
+        for (auto i = 0u; LOGIC_LOOP_INVARIANT(div_mod, i, this_hi_bit, op_hi_bit, *this, op, q, r) i <= diff_bits; i++) {
             // shift r to the correct bit, could be too big
             auto t = op << (diff_bits - i);
             if (r >= t) {
-- 
2.43.0


From 0b3a195e1b88ffabb6d0645f69e52091332ed4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:53 +0000
Subject: [PATCH 49/55] fix: hexadecimal digits in lower case parse as 10 to 15

---
 src/util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.cc b/src/util.cc
index fd5dfcc..a9d2e5f 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -97,7 +97,7 @@ constexpr uint64_t parse_raw_str_(std::string_view value, char base) {
                 else if (c >= '0' && c <= '9')
                     s = c - '0';
                 else if (c >= 'a' && c <= 'f')
-                    s = c - 'a';
+                    s = c - 'a' + 10;
                 else if (c >= 'A' && c <= 'F')
                     s = c - 'A' + 10;
                 result |= s << (idx * 4ull);
-- 
2.43.0


From 522d8806ea7944bccc3e9ea308804de05987f88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:53 +0000
Subject: [PATCH 50/55] fix: upper case x and z are accepted in binary literals

---
 src/util.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index a9d2e5f..2ce44a7 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -57,7 +57,7 @@ constexpr uint64_t parse_raw_str_(std::string_view value, char base) {
             uint64_t idx = 0;
             for (auto i = 0ull; i < value.size(); i++) {
                 auto c = value[value.size() - i - 1];
-                if (c == '1' || c == 'z') {
+                if (c == '1' || c == 'z' || c == 'Z') {
                     result |= 1ull << idx;
                 }
                 if (c != '_') idx++;
@@ -132,7 +132,7 @@ uint64_t parse_xz_raw_str_(std::string_view value, char base) {
             uint64_t idx = 0;
             for (auto i = 0u; i < value.size(); i++) {
                 auto c = value[value.size() - i - 1];
-                if (c == 'x' || c == 'z') {
+                if (c == 'x' || c == 'X' || c == 'z' || c == 'Z') {
                     result |= 1u << idx;
                 }
                 if (c != '_') idx++;
-- 
2.43.0


From 3df93165774dbed06745f10393d227e94c06c9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:53 +0000
Subject: [PATCH 51/55] fix: x and z bits above bit 31 of a binary literal are
 recorded

---
 src/util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.cc b/src/util.cc
index 2ce44a7..ddb80b2 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -133,7 +133,7 @@ uint64_t parse_xz_raw_str_(std::string_view value, char base) {
             for (auto i = 0u; i < value.size(); i++) {
                 auto c = value[value.size() - i - 1];
                 if (c == 'x' || c == 'X' || c == 'z' || c == 'Z') {
-                    result |= 1u << idx;
+                    result |= 1ull << idx;
                 }
                 if (c != '_') idx++;
             }
-- 
2.43.0


From f181188dba945030b3c1555ba050597a06234645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:53 +0000
Subject: [PATCH 52/55] fix: digits of a literal beyond bit 63 are cut instead
 of shifted by more than the word

---
 src/util.cc | 56 +++++++++++++++++++++++++++--------------------------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index ddb80b2..117e70a 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -35,8 +35,30 @@ char get_output_base(std::string_view fmt) {
     }
 }
 
+constexpr uint64_t get_stride(char base) {
+    switch (base) {
+        case 'b':
+        case 'B':
+            return 1;
+        case 'o':
+        case 'O':
+            return 3;
+        case 'h':
+        case 'H':
+        case 'x':
+        case 'X':
+            return 4;
+        case 's':
+        case 'S':
+            return 8;
+        default:
+            return 1;
+    }
+}
+
 constexpr uint64_t parse_raw_str_(std::string_view value, char base) {
     uint64_t result = 0;
+    auto const stride = get_stride(base);
     switch (base) {
         case 'd':
         case 'D': {
@@ -60,7 +82,7 @@ constexpr uint64_t parse_raw_str_(std::string_view value, char base) {
                 if (c == '1' || c == 'z' || c == 'Z') {
                     result |= 1ull << idx;
                 }
-                if (c != '_') idx++;
+                if (c != '_' && ++idx * stride >= 64) break;
             }
             break;
         }
@@ -79,7 +101,7 @@ constexpr uint64_t parse_raw_str_(std::string_view value, char base) {
                 else
                     s = c - '0';
                 result |= s << (idx * 3ull);
-                if (c != '_') idx++;
+                if (c != '_' && ++idx * stride >= 64) break;
             }
             break;
         }
@@ -101,7 +123,7 @@ constexpr uint64_t parse_raw_str_(std::string_view value, char base) {
                 else if (c >= 'A' && c <= 'F')
                     s = c - 'A' + 10;
                 result |= s << (idx * 4ull);
-                if (c != '_') idx++;
+                if (c != '_' && ++idx * stride >= 64) break;
             }
             break;
         }
@@ -125,6 +147,7 @@ uint64_t parse_raw_str(std::string_view value) {
 
 uint64_t parse_xz_raw_str_(std::string_view value, char base) {
     uint64_t result = 0;
+    auto const stride = get_stride(base);
 
     switch (base) {
         case 'b':
@@ -135,7 +158,7 @@ uint64_t parse_xz_raw_str_(std::string_view value, char base) {
                 if (c == 'x' || c == 'X' || c == 'z' || c == 'Z') {
                     result |= 1ull << idx;
                 }
-                if (c != '_') idx++;
+                if (c != '_' && ++idx * stride >= 64) break;
             }
             break;
         }
@@ -151,7 +174,7 @@ uint64_t parse_xz_raw_str_(std::string_view value, char base) {
                     s = 0b111;
                     result |= s << (idx * 3);
                 }
-                if (c != '_') idx++;
+                if (c != '_' && ++idx * stride >= 64) break;
             }
             break;
         }
@@ -166,7 +189,7 @@ uint64_t parse_xz_raw_str_(std::string_view value, char base) {
                     s = 0b1111;
                     result |= s << (idx * 4);
                 }
-                if (c != '_') idx++;
+                if (c != '_' && ++idx * stride >= 64) break;
             }
         }
         default:;
@@ -180,27 +203,6 @@ uint64_t parse_xz_raw_str(std::string_view value) {
     return parse_xz_raw_str_(value.substr(start_pos), base);
 }
 
-uint64_t get_stride(char base) {
-    switch (base) {
-        case 'b':
-        case 'B':
-            return 1;
-        case 'o':
-        case 'O':
-            return 3;
-        case 'h':
-        case 'H':
-        case 'x':
-        case 'X':
-            return 4;
-        case 's':
-        case 'S':
-            return 8;
-        default:
-            return 1;
-    }
-}
-
 void parse_raw_str(std::string_view value, uint64_t size, uint64_t* ptr) {
     // use existing functions to parse single uint64_t values, except for decimals.
     // big number decimals are just inefficient, and I don't know why would anyone use it.
-- 
2.43.0


From af47ac47602c15cf0cfa493cd75ac57e3a19de67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:53 +0000
Subject: [PATCH 53/55] fix: literals wider than 64 bits: octal digits and
 underscores across words, decimal values, cut at the width

---
 src/util.cc | 60 +++++++++++++++++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index 117e70a..d3530c7 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -1,5 +1,6 @@
 #include "logic/util.hh"
 
+#include <algorithm>
 #include <bitset>
 #include <cmath>
 #include <optional>
@@ -208,21 +209,35 @@ void parse_raw_str(std::string_view value, uint64_t size, uint64_t* ptr) {
     // big number decimals are just inefficient, and I don't know why would anyone use it.
     auto [base, start_pos] = get_input_base(value);
     value = value.substr(start_pos);
-    auto remaining_size = value.size();
-    auto end = value.size();
     auto const stride = get_stride(base);
-    auto const batch_size = 64 / stride;
 
     auto num_array = (size % 64 == 0) ? size / 64 : (size / 64 + 1);
-    uint64_t idx = 0;
-    while (remaining_size > 0 && idx < num_array) {
-        auto begin = remaining_size >= batch_size ? remaining_size - batch_size : 0;
-        ptr[idx] = parse_raw_str_(value.substr(begin, end - begin), base);
-
-        idx++;
-        end = begin;
-        remaining_size = remaining_size > batch_size ? remaining_size - batch_size : 0;
+    std::fill(ptr, ptr + num_array, 0);
+    if (base == 'd' || base == 'D') {
+        for (auto c : value) {
+            if (c < '0' || c > '9') continue;
+            __uint128_t carry = c - '0';
+            for (uint64_t i = 0; i < num_array; i++) {
+                carry += static_cast<__uint128_t>(ptr[i]) * 10;
+                ptr[i] = static_cast<uint64_t>(carry);
+                carry >>= 64;
+            }
+        }
+        if (size % 64) ptr[num_array - 1] &= std::numeric_limits<uint64_t>::max() >> (64 - size % 64);
+        return;
     }
+    // place digit by digit: the bits of a digit may belong to two elements, and an underscore has none
+    uint64_t pos = 0;
+    for (auto i = value.size(); i > 0 && pos < size; i--) {
+        if (value[i - 1] == '_' && stride != 8) continue;
+        uint64_t v = parse_raw_str_(value.substr(i - 1, 1), base);
+        ptr[pos / 64] |= v << (pos % 64);
+        if (pos % 64 + stride > 64 && pos / 64 + 1 < num_array) {
+            ptr[pos / 64 + 1] |= v >> (64 - pos % 64);
+        }
+        pos += stride;
+    }
+    if (size % 64) ptr[num_array - 1] &= std::numeric_limits<uint64_t>::max() >> (64 - size % 64);
 }
 
 void parse_xz_raw_str(std::string_view value, uint64_t size, uint64_t* ptr) {
@@ -230,21 +245,22 @@ void parse_xz_raw_str(std::string_view value, uint64_t size, uint64_t* ptr) {
     // big number decimals are just inefficient, and I don't know why would anyone use it.
     auto [base, start_pos] = get_input_base(value);
     value = value.substr(start_pos);
-    auto remaining_size = value.size();
-    auto end = value.size();
     auto const stride = get_stride(base);
-    auto const batch_size = 64 / stride;
 
     auto num_array = (size % 64 == 0) ? size / 64 : (size / 64 + 1);
-    uint64_t idx = 0;
-    while (remaining_size > 0 && idx < num_array) {
-        auto begin = remaining_size >= batch_size ? remaining_size - batch_size : 0;
-        ptr[idx] = parse_xz_raw_str_(value.substr(begin, end - begin), base);
-
-        idx++;
-        end = begin;
-        remaining_size = remaining_size > batch_size ? remaining_size - batch_size : 0;
+    std::fill(ptr, ptr + num_array, 0);
+    // place digit by digit: the bits of a digit may belong to two elements, and an underscore has none
+    uint64_t pos = 0;
+    for (auto i = value.size(); i > 0 && pos < size; i--) {
+        if (value[i - 1] == '_' && stride != 8) continue;
+        uint64_t v = parse_xz_raw_str_(value.substr(i - 1, 1), base);
+        ptr[pos / 64] |= v << (pos % 64);
+        if (pos % 64 + stride > 64 && pos / 64 + 1 < num_array) {
+            ptr[pos / 64 + 1] |= v >> (64 - pos % 64);
+        }
+        pos += stride;
     }
+    if (size % 64) ptr[num_array - 1] &= std::numeric_limits<uint64_t>::max() >> (64 - size % 64);
 }
 
 constexpr std::array<uint64_t, 128> compute_decimal_size() {
-- 
2.43.0


From 4cded33460a5f7be2a90ffa72510f08f481f7cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:25 +0000
Subject: [PATCH 54/55] fix: multiplication of a big_num of at most 64 bits
 writes beyond its only limb

---
 include/logic/big_num.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 02f65e5..1d02848 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -584,7 +584,7 @@ public:
             __uint128_t b = op.values[0];
             __uint128_t c = a * b;
             result.values[0] = (c << 64) >> 64;
-            result.values[1] = c >> 64;
+            if constexpr (s > 1) result.values[1] = c >> 64;
             result.mask_off();
             return result;
         }
-- 
2.43.0


From 4782a9f78b5e6af31a871f0461cf4c9cef44ef64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:11 +0000
Subject: [PATCH 55/55] fix: reduction and/or of a four-state number look at
 its declared bits, whatever its range

The loops read the bits with the indices 0 to size - 1, while the index operator takes declared
indices: for logic<11, 4> the reduction looked at bits outside the range and missed bits inside it.
---
 include/logic/logic.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 0fd6ae4..3d430cb 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -443,7 +443,7 @@ public:
     [[nodiscard]] logic<0> r_and() const {
         // zero trump everything
         // brute force way to compute
-        for (auto i = 0u; i < size; i++) {
+        for (auto i = util::min(msb, lsb); i <= util::max(msb, lsb); i++) {
             auto b = value[i];
             auto m = xz_mask[i];
             if (!b && !m) return zero_();
@@ -454,7 +454,7 @@ public:
     [[nodiscard]] logic<0> r_nand() const { return !r_and(); }
 
     [[nodiscard]] logic<0> r_or() const {
-        for (auto i = 0u; i < size; i++) {
+        for (auto i = util::min(msb, lsb); i <= util::max(msb, lsb); i++) {
             auto b = value[i];
             auto m = xz_mask[i];
             if (b && !m) return one_();
-- 
2.43.0

