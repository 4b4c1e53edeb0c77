From fa4863abe6dc90c912c697ebf73d9fa7c76aae64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:43 +0000
Subject: [PATCH 01/10] fix: ends_with() in C++17 mode compared the first
 occurrence of the suffix

ends_with("abab", "ab") returned false.
---
 src/utki/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utki/string.hpp b/src/utki/string.hpp
index 436da6a..bc23a52 100644
--- a/src/utki/string.hpp
+++ b/src/utki/string.hpp
@@ -849,7 +849,7 @@ inline bool ends_with(std::string_view str, std::string_view suffix)
 	if (suffix.size() > str.size()) {
 		return false;
 	}
-	return str.find(suffix) == (str.size() - suffix.size());
+	return str.substr(str.size() - suffix.size()) == suffix;
 #endif
 }
 
-- 
2.43.0


From 7b6f362b82f52ed0148abc875cabc8d73d139433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:43 +0000
Subject: [PATCH 02/10] fix: base64_decode() indexed its table with a signed
 char

bytes >= 0x80 read outside of the table.
---
 src/utki/base64.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utki/base64.cpp b/src/utki/base64.cpp
index cd7e9c5..3587267 100644
--- a/src/utki/base64.cpp
+++ b/src/utki/base64.cpp
@@ -58,10 +58,10 @@ std::array<uint8_t, 3> base64_decode_quad(char a, char b, char c, char d)
 {
 	constexpr auto bits_per_char = 6;
 	uint32_t quad = //
-		(decode_table[a] << bits_per_char * 3) | //
-		(decode_table[b] << bits_per_char * 2) | //
-		(decode_table[c] << bits_per_char) | //
-		decode_table[d];
+		(decode_table[uint8_t(a)] << bits_per_char * 3) | //
+		(decode_table[uint8_t(b)] << bits_per_char * 2) | //
+		(decode_table[uint8_t(c)] << bits_per_char) | //
+		decode_table[uint8_t(d)];
 
 	return {
 		uint8_t((quad >> utki::byte_bits * 2) & utki::byte_mask), //
-- 
2.43.0


From bc42b207b09f14f95a122069fb667a4c526c4f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:43 +0000
Subject: [PATCH 03/10] fix: base64_decode() read past the end of a string with
 a single trailing character

---
 src/utki/base64.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utki/base64.cpp b/src/utki/base64.cpp
index 3587267..99f508c 100644
--- a/src/utki/base64.cpp
+++ b/src/utki/base64.cpp
@@ -120,7 +120,9 @@ std::vector<uint8_t> utki::base64_decode(std::string_view str)
 
 	auto a = *i;
 	i = std::next(i);
-	ASSERT(i != str.end())
+	if (i == str.end()) {
+		throw std::invalid_argument("base64_decode(): malformed base64 string: single trailing character");
+	}
 	auto b = *i;
 	i = std::next(i);
 
-- 
2.43.0


From a4d7cbcc60bccb45f120eab6ccc97849cda63143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:43 +0000
Subject: [PATCH 04/10] fix: utf8_iterator read past the terminating null of a
 truncated sequence

---
 src/utki/unicode.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/utki/unicode.cpp b/src/utki/unicode.cpp
index 13488bf..5f25077 100644
--- a/src/utki/unicode.cpp
+++ b/src/utki/unicode.cpp
@@ -43,11 +43,8 @@ utf8_iterator::utf8_iterator(utki::span<const uint8_t> str) :
 static_assert(sizeof(char) == sizeof(uint8_t), "unexpected char size");
 
 utf8_iterator::utf8_iterator(const char* str) :
-	// NOLINTNEXTLINE(cppcoreguidelines-pro-type-reinterpret-cast)
-	p(reinterpret_cast<const uint8_t*>(str))
-{
-	this->operator++();
-}
+	utf8_iterator(str ? std::string_view(str) : std::string_view())
+{}
 
 // NOLINTBEGIN(cppcoreguidelines-avoid-magic-numbers)
 
-- 
2.43.0


From 0f8b2914d0cede24e87aef26a3e1b105daca618b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:43 +0000
Subject: [PATCH 05/10] fix: utf8_iterator shifted by more than the width for
 lead bytes 0xfe and 0xff

---
 src/utki/unicode.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utki/unicode.cpp b/src/utki/unicode.cpp
index 5f25077..5a02c8a 100644
--- a/src/utki/unicode.cpp
+++ b/src/utki/unicode.cpp
@@ -88,8 +88,11 @@ utf8_iterator& utf8_iterator::operator++() noexcept
 		this->c <<= 6; // NOLINT(cppcoreguidelines-avoid-magic-numbers)
 		this->c |= (*this->p) & 0x3f; // NOLINT(cppcoreguidelines-avoid-magic-numbers)
 	}
-	// NOLINTNEXTLINE(cppcoreguidelines-avoid-magic-numbers)
-	this->c |= (char32_t(uint8_t(b << (i + 1)) >> (i + 1)) << (6 * (i - 1)));
+	// lead bytes 0xfe and 0xff have no payload bits
+	if (i < 7) { // NOLINT(cppcoreguidelines-avoid-magic-numbers)
+		// NOLINTNEXTLINE(cppcoreguidelines-avoid-magic-numbers)
+		this->c |= (char32_t(uint8_t(b << (i + 1)) >> (i + 1)) << (6 * (i - 1)));
+	}
 
 	return *this;
 }
-- 
2.43.0


From 9787437edd5d9247bbd5b80141bae6eab00af2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:43 +0000
Subject: [PATCH 06/10] fix: overlaps() returned true for null pointer and
 empty span

---
 src/utki/span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utki/span.hpp b/src/utki/span.hpp
index a467095..f2231ae 100644
--- a/src/utki/span.hpp
+++ b/src/utki/span.hpp
@@ -489,7 +489,7 @@ public:
 template <typename element_type>
 bool overlaps(const span<element_type>& s, typename span<element_type>::const_pointer p)
 {
-	return (&*s.begin()) <= p && p <= (&*std::prev(s.end()));
+	return s.data() <= p && p < s.data() + s.size();
 }
 
 template <typename lhs_element_type, typename rhs_element_type>
-- 
2.43.0


From 6c07631958331a3df433498236d187ea788f600f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:43 +0000
Subject: [PATCH 07/10] fix: make_indentation() overflowed unsigned for big
 depth and size

---
 src/utki/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utki/string.cpp b/src/utki/string.cpp
index cd582c7..0614773 100644
--- a/src/utki/string.cpp
+++ b/src/utki/string.cpp
@@ -496,5 +496,5 @@ std::string utki::make_indentation(unsigned depth, unsigned size)
 		return std::string(depth, '\t');
 	}
 	// NOLINTNEXTLINE(modernize-return-braced-init-list)
-	return std::string(size_t(depth * size), ' ');
+	return std::string(size_t(depth) * size_t(size), ' ');
 }
-- 
2.43.0


From 33bbaf261d8ca8c859caec2a13f82e207dbfe3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:00 +0000
Subject: [PATCH 08/10] fix: signal::emit() moved by-value arguments into the
 first callback

The following callbacks got moved-from values.
---
 src/utki/signal.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/utki/signal.hpp b/src/utki/signal.hpp
index 33d8c0e..26cdae9 100644
--- a/src/utki/signal.hpp
+++ b/src/utki/signal.hpp
@@ -30,6 +30,7 @@ SOFTWARE.
 
 #include <functional>
 #include <list>
+#include <type_traits>
 
 #include "debug.hpp"
 
@@ -93,7 +94,12 @@ public:
 	void emit(args_type... a)
 	{
 		for (const auto& c : this->callbacks) {
-			c(std::forward<args_type>(a)...);
+			if constexpr ((std::is_constructible_v<args_type, args_type&> && ...)) {
+				// all the callbacks have to get same argument values, so do not move from the arguments
+				c(a...);
+			} else {
+				c(std::forward<args_type>(a)...);
+			}
 		}
 	}
 
-- 
2.43.0


From da0d28d259738d6ff4d8d73de9da4782a3853846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:10 +0000
Subject: [PATCH 09/10] fix: traversal of a non-const forest:
 make_const_iterator and const operator[] did not compile

---
 src/utki/tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utki/tree.hpp b/src/utki/tree.hpp
index 87dd9a0..6346638 100644
--- a/src/utki/tree.hpp
+++ b/src/utki/tree.hpp
@@ -536,8 +536,8 @@ private:
 	{
 		iterator_internal<is_const> ret;
 
-		auto* list = &this->roots;
-		auto iter = this->roots.begin();
+		typename iterator_internal<is_const>::list_type* list = &this->roots;
+		typename iterator_internal<is_const>::iterator_type iter = list->begin();
 
 		for (auto i : index) {
 			ret.list_stack.push_back(list);
-- 
2.43.0


From 4a77cf505a2aabdef33dece5eea27fc3de4abf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:07 +0000
Subject: [PATCH 10/10] fix: exception::to_string() ignored the indentation

---
 src/utki/exception.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utki/exception.cpp b/src/utki/exception.cpp
index 3ea4512..88369b7 100644
--- a/src/utki/exception.cpp
+++ b/src/utki/exception.cpp
@@ -42,9 +42,9 @@ using namespace std::string_literals;
 
 using namespace utki;
 
-std::string exception::to_string(std::string_view) const
+std::string exception::to_string(std::string_view indentation) const
 {
-	return utki::to_string(static_cast<const std::exception&>(*this));
+	return utki::to_string(static_cast<const std::exception&>(*this), indentation);
 }
 
 std::string utki::current_exception_to_string(std::string_view indentation)
-- 
2.43.0

