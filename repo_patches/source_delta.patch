From 8b757473cabf67676455fb2492eacf6a509b05b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:23 +0000
Subject: [PATCH 01/42] fix: cache: updating a key must not exceed the byte
 budget

set() of an existing key never dropped the oldest entries, so growing
values pushed the cache past size_max until the next insertion.
---
 coda/cache.tcc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coda/cache.tcc b/coda/cache.tcc
index e2dac3b..cdf3933 100644
--- a/coda/cache.tcc
+++ b/coda/cache.tcc
@@ -66,6 +66,7 @@ void coda_cache<Key, Val>::set(const Key &key, const Val &val, bool do_update_ti
 				res.first->second.time = time(NULL);
 			}
 
+			drop_last_unused();
 			return;
 		}
 
@@ -96,6 +97,7 @@ void coda_cache<Key, Val>::set(const Key &key, const Val &val, bool do_update_ti
 			res.first->second.time = time(NULL);
 		}
 
+		drop_last_unused();
 		return;
 	}
 
-- 
2.43.0


From 0a01d9bb13ac0df01de7832a5aa7a17282e179b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:31 +0000
Subject: [PATCH 02/42] fix: base58: report an invalid character as a negative
 result

coda_base58_decode() returned minus the index of the offending character,
which is 0 (an empty success) when it is the first one; it also leaked its
work buffer when the value did not fit.
---
 coda/base58.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coda/base58.c b/coda/base58.c
index 56d863d..944de97 100644
--- a/coda/base58.c
+++ b/coda/base58.c
@@ -237,7 +237,7 @@ ssize_t coda_base58_decode (const char* in, size_t inlen, char* out)
     char *b256_curr = NULL;
     b256_begin = b256_curr = (char*)calloc (b256len, sizeof(char));
     if (!b256_begin)
-        return -_inlen + inlen;
+        return -_inlen + (ssize_t) inlen - 1;
 
     while (inlen)
     {
@@ -253,14 +253,14 @@ ssize_t coda_base58_decode (const char* in, size_t inlen, char* out)
             carry /= 256;
         }
         if (carry)
-            return -_inlen + inlen;
+            break;
         inlen--;
     }
 
     if (inlen != 0)
     {
         free(b256_begin);
-        return -_inlen + inlen;
+        return -_inlen + (ssize_t) inlen - 1;
     }
 
     while (b256len && !*b256_curr)
-- 
2.43.0


From 179479ab9add034a0685bf3823294d023a3b00da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:31 +0000
Subject: [PATCH 03/42] fix: base58: coda_base58_encode_alloc() returns the
 length of the text

It returned the capacity of the buffer it had allocated, which is an upper
bound of the length, not the length.
---
 coda/base58.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coda/base58.c b/coda/base58.c
index 944de97..258c1dc 100644
--- a/coda/base58.c
+++ b/coda/base58.c
@@ -1,5 +1,6 @@
 #include "base58.h"
 #include <stdlib.h>
+#include <string.h>
 #include <limits.h>
 #include <stdio.h>
 
@@ -75,7 +76,7 @@ size_t coda_base58_encode_alloc (const char *in, size_t inlen, char **out)
         return outlen;
 
     coda_base58_encode (in, inlen, *out, outlen);
-    return outlen - 1;
+    return strlen (*out);
 }
 
 #define B58(_)                 \
-- 
2.43.0


From 83b3fc9a792cd37cb2dab1a3f1495dfc5c055622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:33 +0000
Subject: [PATCH 04/42] fix: url: coda_url_escape() escapes bytes above 0x7f
 and honours tiny buffers

---
 coda/url.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/coda/url.cpp b/coda/url.cpp
index 1b5078b..223b9c1 100644
--- a/coda/url.cpp
+++ b/coda/url.cpp
@@ -265,14 +265,16 @@ std::string coda_urldec(const std::string &u)
 void coda_url_escape(const char *s, char *dest, size_t sz)
 {
 	memset(dest, 0, sz);
+	if (sz <= 3) return;
 	size_t ptr = 0;
 	sz -= 3;
 	while (*s && (ptr < sz))
 	{
+		unsigned char c = *s;
 		//if (*s & 0x80 != 0)
-		if (table_urlenc[*s >> 5] & (1 << (*s & 0x1f)))
+		if (table_urlenc[c >> 5] & (1 << (c & 0x1f)))
 		{
-			ptr += snprintf(dest + ptr, sz - ptr, "%%%02X", *s);
+			ptr += snprintf(dest + ptr, sz - ptr, "%%%02X", c);
 		}
 		else if (*s == ' ')
 		{
-- 
2.43.0


From 52efcb70be7f52b0f75cf082b59a06eacceab68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:33 +0000
Subject: [PATCH 05/42] fix: url: coda_url_unescape() honours tiny buffers, %u
 takes four digits, 0x7f is kept

---
 coda/url.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/coda/url.cpp b/coda/url.cpp
index 223b9c1..5a76141 100644
--- a/coda/url.cpp
+++ b/coda/url.cpp
@@ -291,9 +291,10 @@ void coda_url_escape(const char *s, char *dest, size_t sz)
 
 void coda_url_unescape(const char *s, char *dest, size_t sz)
 {
+	if (!sz) return;
 	memset(dest, 0, sz);
 	size_t ptr = 0;
-	while (*s && (ptr < sz - 2))
+	while (*s && (ptr + 2 < sz))
 	{
 		if (*s == '+')
 		{
@@ -313,16 +314,17 @@ void coda_url_unescape(const char *s, char *dest, size_t sz)
 		}
 		else if ((*s == '%') && (s[1] == 'u') && isxdigit(s[2]))
 		{
-			char *ns;
-			uint32_t c = strtol(s + 2, &ns, 16);
-			s = ns;
+			char xnum[5] = { 0 };
+			size_t n = 0;
+			for (s += 2; n < 4 && isxdigit(*s); ++s) xnum[n++] = *s;
+			uint32_t c = strtol(xnum, 0, 16);
 			/* doing only russian letters */
 			if ((c < 0x0800) && (c > 0x7F))
 			{
 				dest[ptr++] = ((c >> 6) | 0xc0);
 				dest[ptr++] = ((c & 0x3f) | 0x80);
 			}
-			else if (c < 0x7F)
+			else if (c <= 0x7F)
 			{
 				dest[ptr++] = c;
 			}
-- 
2.43.0


From 3d865d526d985f279e7487a77e9c9333527ce33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:33 +0000
Subject: [PATCH 06/42] fix: url: coda_url_preunescape() stays inside the
 buffer and keeps \xHH escapes

---
 coda/url.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/coda/url.cpp b/coda/url.cpp
index 5a76141..f35ca74 100644
--- a/coda/url.cpp
+++ b/coda/url.cpp
@@ -352,8 +352,9 @@ void coda_url_unescape(const char *s, char *dest, size_t sz)
 
 void coda_url_preunescape(const char* s, char* dest, size_t sz)
 {
+	if (!sz) return;
 	size_t ptr = 0;
-	while (*s && (ptr < sz + 5))
+	while (*s && (ptr + 4 < sz))
 	{
 		if ((*s == '%') && isxdigit(s[1]) && isxdigit(s[2]))
 		{
@@ -369,7 +370,7 @@ void coda_url_preunescape(const char* s, char* dest, size_t sz)
 			}
 			else
 			{
-				if (ptr + 4 < sz) memcpy(dest + ptr, s, 3);
+				memcpy(dest + ptr, s, 3);
 				ptr += 3;
 			}
 			s += 3;
@@ -388,7 +389,8 @@ void coda_url_preunescape(const char* s, char* dest, size_t sz)
 			}
 			else
 			{
-				if (ptr + 3 < sz) memcpy(dest + ptr, s, 4);
+				memcpy(dest + ptr, s, 4);
+				ptr += 4;
 			}
 			s += 4;
 		}
-- 
2.43.0


From b7d976123c2a2c5e7b36114e0d046994a29d5b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:57 +0000
Subject: [PATCH 07/42] fix: string: coda_revnspn/coda_revxspn do not count the
 mismatching byte

---
 coda/string.c       | 12 ++++++++----
 coda/url_parser.cpp |  6 +++---
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/coda/string.c b/coda/string.c
index c8d8502..99bca83 100644
--- a/coda/string.c
+++ b/coda/string.c
@@ -208,14 +208,16 @@ size_t coda_revnspn(const char *s, const char *n, size_t len)
 {
 	const char *b = s - 1;
 	const char *p = s - 1 + len;
-	const char *x = n;
+	const char *x;
 
-	for (; p > b && *x; --p)
+	for (; p > b; --p)
 	{
 		for (x = n; *x; ++x)
 		{
 			if (*p == *x) break;
 		}
+
+		if (!*x) break;
 	}
 
 	return s - 1 + len - p;
@@ -225,14 +227,16 @@ size_t coda_revxspn(const char *s, const char *n, size_t len)
 {
 	const char *b = s - 1;
 	const char *p = s - 1 + len;
-	const char *x = n;
+	const char *x;
 
-	for (; p > b && *x; --p)
+	for (; p > b; --p)
 	{
 		for (x = n; *x; ++x)
 		{
 			if (tolower(*p) == tolower(*x)) break;
 		}
+
+		if (!*x) break;
 	}
 
 	return s - 1 + len - p;
diff --git a/coda/url_parser.cpp b/coda/url_parser.cpp
index 7a0ab27..2113e1c 100644
--- a/coda/url_parser.cpp
+++ b/coda/url_parser.cpp
@@ -202,9 +202,9 @@ int coda_url::assign_anchor(char *beg, uint32_t flags)
 
 	if (end != (p = end - coda_revnspn(beg, ".", end - beg)))
 	{
-		memmove(p + 1, end, val_str + val_len - end);
-		val_len -= end - (p + 1);
-			end -= end - (p + 1);
+		memmove(p, end, val_str + val_len - end);
+		val_len -= end - p;
+			end -= end - p;
 	}
 
 	p = end;
-- 
2.43.0


From b676c07cd59d2c8a7b659082b55a1c0e3e2ed8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:57 +0000
Subject: [PATCH 08/42] fix: string: coda_strnstr/coda_strxstr go by the given
 length, not by a NUL

---
 coda/string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coda/string.c b/coda/string.c
index 99bca83..4623ce3 100644
--- a/coda/string.c
+++ b/coda/string.c
@@ -91,7 +91,7 @@ char *coda_strnstr(const char *s, const char *n, size_t len)
 	const char *w;
 	const char *x;
 
-	if (!s || !*s) return NULL;
+	if (!s || !len) return NULL;
 	if (!n || !*n) return (char *) s;
 
 	if (len < (nsz = strlen(n))) return NULL;
@@ -123,7 +123,7 @@ char *coda_strxstr(const char *s, const char *n, size_t len)
 	const char *en;
 	size_t nsz;
 
-	if (!s || !*s) return NULL;
+	if (!s || !len) return NULL;
 	if (!n || !*n) return (char *) s;
 	if (len < (nsz = strlen(n))) return NULL;
 
-- 
2.43.0


From 2ca41c5840272e87d39457dc8567ea3b5e1cca47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:57 +0000
Subject: [PATCH 09/42] fix: string: coda_get_uint64set() does not insert an
 uninitialised number

---
 coda/string.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/coda/string.cpp b/coda/string.cpp
index 890671c..5ae73a1 100644
--- a/coda/string.cpp
+++ b/coda/string.cpp
@@ -157,8 +157,10 @@ void coda_get_uint64set(const char* str, std::set<uint64_t>& result)
 	while (i)
 	{
 		uint64_t temp;
-		sscanf(i, "%" PRIu64, &temp);
-		result.insert(temp);
+		if (1 == sscanf(i, "%" PRIu64, &temp))
+		{
+			result.insert(temp);
+		}
 		i = strchr(i, ',');
 		if (i)
 		{
-- 
2.43.0


From ec65ee3ab31013078f9639518b28af946eb274db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:57 +0000
Subject: [PATCH 10/42] fix: string: sized coda_split_string() does not split
 at a NUL byte

---
 coda/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coda/string.cpp b/coda/string.cpp
index 5ae73a1..74936fa 100644
--- a/coda/string.cpp
+++ b/coda/string.cpp
@@ -205,7 +205,7 @@ std::vector<std::string> coda_split_string(const char *src, size_t size, const c
 
 	for (; p < e; ++p)
 	{
-		if (NULL != strchr(delimiters, *p))
+		if (*p && NULL != strchr(delimiters, *p))
 		{
 			if (prev_ptr < p || !ignore_empty)
 			{
-- 
2.43.0


From ce41c09cb8486bd6b9fd42816142da8751a94e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:57 +0000
Subject: [PATCH 11/42] fix: string: coda_strprintf() keeps text with an
 embedded NUL

---
 coda/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coda/string.cpp b/coda/string.cpp
index 74936fa..a11da4a 100644
--- a/coda/string.cpp
+++ b/coda/string.cpp
@@ -23,7 +23,7 @@ std::string coda_strprintf(const char *fmt, ...)
 		va_end(ap);
 	}
 
-	return BUF;
+	return std::string(BUF, 0 > bytes ? 0 : bytes);
 }
 
 int coda_strappend(std::string& out, const char* fmt, ...)
-- 
2.43.0


From ba7f9994c3021129d8e518d1547dadf8f08a8483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:07 +0000
Subject: [PATCH 12/42] fix: string: case-insensitive character searches find
 bytes above 0x7f

---
 coda/string.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/coda/string.c b/coda/string.c
index 4623ce3..c2b0ab0 100644
--- a/coda/string.c
+++ b/coda/string.c
@@ -13,9 +13,10 @@ char* coda_strnchr(const char* s, char c, size_t len)
 char *coda_strxchr(const char *s, char c, size_t len)
 {
 	const char *e = s + len;
-	for (c = tolower(c); s < e; ++s)
+	const int x = tolower(c);
+	for (; s < e; ++s)
 	{
-		if (c == tolower(*s)) return (char *) s;
+		if (x == tolower(*s)) return (char *) s;
 	}
 	return NULL;
 }
@@ -33,9 +34,10 @@ char *coda_revnchr(const char *s, char c, size_t len)
 char *coda_revxchr(const char *s, char c, size_t len)
 {
 	const char *b = s - 1;
-	for (s = b + len, c = tolower(c); s > b; --s)
+	const int x = tolower(c);
+	for (s = b + len; s > b; --s)
 	{
-		if (c == tolower(*s)) return (char *) s;
+		if (x == tolower(*s)) return (char *) s;
 	}
 	return NULL;
 }
@@ -53,9 +55,10 @@ size_t coda_strnchp(const char *s, char c, size_t len)
 size_t coda_strxchp(const char *s, char c, size_t len)
 {
 	size_t p = 0;
-	for (c = tolower(c); p < len; ++p)
+	const int x = tolower(c);
+	for (; p < len; ++p)
 	{
-		if (c == tolower(s[p])) return p;
+		if (x == tolower(s[p])) return p;
 	}
 	return len;
 }
-- 
2.43.0


From 7ea16a403126a0bfb5900b3032702b2d8f5d8570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:16 +0000
Subject: [PATCH 13/42] fix: url_parser: look for a scheme within the given
 length only

---
 coda/url_parser.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/coda/url_parser.cpp b/coda/url_parser.cpp
index 2113e1c..7db5e93 100644
--- a/coda/url_parser.cpp
+++ b/coda/url_parser.cpp
@@ -6,6 +6,11 @@
 #include "string.h"
 #include "url_parser.hpp"
 
+static inline bool has_prefix(const char *u, size_t sz, const char *prefix, size_t len)
+{
+	return sz >= len && NULL != coda_strxstr(u, prefix, len);
+}
+
 coda_url::coda_url()
 {
 	val_str = dom_str = NULL;
@@ -109,7 +114,7 @@ int coda_url::create_relative(const char *u, size_t sz, uint32_t flags, const co
 
 	val_str = (char *) malloc(2 + 2 * sz + parent.val_len + parent.dom_len); // if relative, parent may be bigger than u
 
-	if (coda_strxstr(u, "http://", 7) || coda_strxstr(u, "https://", 8))
+	if (has_prefix(u, sz, "http://", 7) || has_prefix(u, sz, "https://", 8))
 	{
 		create_scheme(u, sz, flags);
 
@@ -133,13 +138,13 @@ int coda_url::create_relative(const char *u, size_t sz, uint32_t flags, const co
 
 int coda_url::create_scheme(const char *u, size_t sz, uint32_t flags)
 {
-	if (coda_strxstr(u, "https://", 8))
+	if (has_prefix(u, sz, "https://", 8))
 	{
 		val_len += coda_cpymsz(val_str, u, sz);
 		return assign_anchor(val_str + 8, flags);
 	}
 
-	if (coda_strxstr(u, "http://", 7))
+	if (has_prefix(u, sz, "http://", 7))
 	{
 		val_len += coda_cpymsz(val_str, u, sz);
 		return assign_anchor(val_str + 7, flags);
@@ -341,8 +346,8 @@ int coda_url::assign_refers(char *beg, uint32_t flags)
 
 int coda_url::create_suburl(const char *u, size_t sz, uint32_t flags, const coda_url &parent)
 {
-	if (NULL != coda_strxstr(u, "mailto:", 7)) return -1;
-	if (NULL != coda_strxstr(u, "javascript:", 11)) return -1;
+	if (has_prefix(u, sz, "mailto:", 7)) return -1;
+	if (has_prefix(u, sz, "javascript:", 11)) return -1;
 	if ( '#' == *u) return -1;
 
 	size_t sz_dom = (parent.val_str[4] != 's' ? 7 : 8);
-- 
2.43.0


From a6f9334b7c1345fe4e9078d7344ec6b1fdfb3855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:16 +0000
Subject: [PATCH 14/42] fix: url_parser: lower-case the scheme, so that
 children of HTTPS:// urls keep their host

---
 coda/url_parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coda/url_parser.cpp b/coda/url_parser.cpp
index 7db5e93..aa53ff0 100644
--- a/coda/url_parser.cpp
+++ b/coda/url_parser.cpp
@@ -141,12 +141,14 @@ int coda_url::create_scheme(const char *u, size_t sz, uint32_t flags)
 	if (has_prefix(u, sz, "https://", 8))
 	{
 		val_len += coda_cpymsz(val_str, u, sz);
+		memcpy(val_str, "https://", 8);
 		return assign_anchor(val_str + 8, flags);
 	}
 
 	if (has_prefix(u, sz, "http://", 7))
 	{
 		val_len += coda_cpymsz(val_str, u, sz);
+		memcpy(val_str, "http://", 7);
 		return assign_anchor(val_str + 7, flags);
 	}
 
-- 
2.43.0


From 249598036fac270cee355e7e3123b51c5b98ba26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:16 +0000
Subject: [PATCH 15/42] fix: url_parser: self-assignment

---
 coda/url_parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coda/url_parser.cpp b/coda/url_parser.cpp
index aa53ff0..8ac05a9 100644
--- a/coda/url_parser.cpp
+++ b/coda/url_parser.cpp
@@ -41,6 +41,8 @@ coda_url::coda_url(const coda_url &u)
 
 coda_url &coda_url::operator= (const coda_url &u)
 {
+	if (this == &u) return *this;
+
 	if (allocated())
 	{
 		free(val_str);
-- 
2.43.0


From c7a8b9ad9bf0a2ccdbe71f407171d42eb5583969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:39 +0000
Subject: [PATCH 16/42] fix: stringstorage: count the prefix byte when checking
 that a string fits a block

---
 coda/stringstorage.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coda/stringstorage.c b/coda/stringstorage.c
index c832f39..afec65e 100644
--- a/coda/stringstorage.c
+++ b/coda/stringstorage.c
@@ -142,7 +142,7 @@ void *string_storage_add(string_storage *ss, const char *s)
 {
 	size_t len = strlen(s) + 1;
 
-	if (len + ss->sb.user_data_size > STORAGE_BLOCK_SIZE) return 0;
+	if (1 + len + ss->sb.user_data_size > STORAGE_BLOCK_SIZE) return 0;
 
 	return internal_find_add(&ss->sb, &ss->root, 0, s, 1);
 }
-- 
2.43.0


From 7be313ccf6464ac7df2c0b806458f52050845f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:54 +0000
Subject: [PATCH 17/42] fix: stringstorage: prefixes longer than 255 bytes must
 not wrap

---
 coda/stringstorage.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/coda/stringstorage.c b/coda/stringstorage.c
index afec65e..3d98d98 100644
--- a/coda/stringstorage.c
+++ b/coda/stringstorage.c
@@ -73,7 +73,7 @@ void *internal_find_add(storage_blocks *sb, struct string_struct *r, uint8_t pre
 {
 	size_t begin = 0;
 	size_t end = r->child_count;
-	uint8_t common_bytes = 0;
+	size_t common_bytes = 0;
 	size_t len;
 	char *newvalue;
 
@@ -99,6 +99,9 @@ void *internal_find_add(storage_blocks *sb, struct string_struct *r, uint8_t pre
 	/* 2. check how many bytes common with previous string */
 	if (begin != 0) common_bytes = get_common_prefix_size(s, r->children[begin - 1].value + sb->user_data_size + 1);
 
+	/* the prefix size is kept in one byte */
+	if (common_bytes > (size_t) (UINT8_MAX - prev_bytes)) common_bytes = UINT8_MAX - prev_bytes;
+
 	if (common_bytes > 8)
 	{
 		return internal_find_add(sb, &r->children[begin - 1], prev_bytes + common_bytes, s + common_bytes, doadd);
-- 
2.43.0


From 3ec43a91519ba78c683de54795762f4c63d03c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:08 +0000
Subject: [PATCH 18/42] fix: stringstorage: compare a string only with siblings
 that continue the same prefix

---
 coda/stringstorage.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coda/stringstorage.c b/coda/stringstorage.c
index 3d98d98..3142709 100644
--- a/coda/stringstorage.c
+++ b/coda/stringstorage.c
@@ -97,7 +97,7 @@ void *internal_find_add(storage_blocks *sb, struct string_struct *r, uint8_t pre
 	}
 
 	/* 2. check how many bytes common with previous string */
-	if (begin != 0) common_bytes = get_common_prefix_size(s, r->children[begin - 1].value + sb->user_data_size + 1);
+	if (begin != 0 && *(uint8_t *) r->children[begin - 1].value == prev_bytes) common_bytes = get_common_prefix_size(s, r->children[begin - 1].value + sb->user_data_size + 1);
 
 	/* the prefix size is kept in one byte */
 	if (common_bytes > (size_t) (UINT8_MAX - prev_bytes)) common_bytes = UINT8_MAX - prev_bytes;
-- 
2.43.0


From b4e6a7b5d786b1bf60790e1b10d41184cc076bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:26 +0000
Subject: [PATCH 19/42] fix: stringstorage: enumerate strings of any stored
 length in full

---
 coda/stringstorage.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coda/stringstorage.c b/coda/stringstorage.c
index 3142709..b5d309d 100644
--- a/coda/stringstorage.c
+++ b/coda/stringstorage.c
@@ -157,14 +157,14 @@ void *string_storage_find(string_storage *ss, const char *s)
 
 void string_storage_enumerate_recursive(const struct string_struct *ss, string_storage_enumerate_callback cb, void *user_data, const char *parent, size_t user_data_size)
 {
-	char buf[256];
+	char buf[STORAGE_BLOCK_SIZE];
 	size_t i;
 	for (i = 0; i < ss->child_count; i++)
 	{
 		uint8_t prev = *(uint8_t*)ss->children[i].value;
 		memcpy(buf, parent, prev);
-		strncpy(buf + prev, ss->children[i].value + 1 + user_data_size, 255 - prev);
-		buf[255] = 0;
+		strncpy(buf + prev, ss->children[i].value + 1 + user_data_size, sizeof(buf) - 1 - prev);
+		buf[sizeof(buf) - 1] = 0;
 		cb(user_data, buf, ss->children[i].value + 1);
 		string_storage_enumerate_recursive(&ss->children[i], cb, user_data, buf, user_data_size);
 	}
-- 
2.43.0


From 8cedba34d81ce5c41328d381c51104d3644a8412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:01 +0000
Subject: [PATCH 20/42] fix: shm_queue: a failed connect releases the lock and
 leaves the object able to connect later

---
 coda/shm_queue.tcc | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index 9e2942f..3345b19 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -163,10 +163,14 @@ void shm_queue::queue<_T>::connect_shm(const char *key_fname)
 
 	if ((BOX_SIZE != info->box_size) || (MAX_BOXES_IN_QUEUE != info->size))
 	{
+		uint32_t box_size = info->box_size;
+		uint32_t boxes_num = info->size;
+
 		shmdt(info);
 		info = 0;
 
-		throw coda_error("box_size(%d) in queue is not equal to %d", info->box_size, BOX_SIZE);
+		throw coda_error("queue of %d boxes of %d bytes is not equal to %d boxes of %d bytes",
+			boxes_num, box_size, MAX_BOXES_IN_QUEUE, BOX_SIZE);
 	}
 
 	boxes = ptr;
@@ -221,12 +225,29 @@ void shm_queue::queue<_T>::connect_sem(const char *key_fname)
 template <typename _T>
 void shm_queue::queue<_T>::connect(const char *key_fname, uint32_t bs, uint32_t mbiq)
 {
+	connect_sem(key_fname);
+
 	BOX_SIZE = bs;
 	MAX_BOXES_IN_QUEUE = mbiq;
 
-	connect_sem(key_fname);
 	lock_queue();
-	connect_shm(key_fname);
+
+	try
+	{
+		connect_shm(key_fname);
+	}
+	catch (const std::exception &e)
+	{
+		unlock_queue();
+
+		sem_id = -1;
+		shm_id = -1;
+		BOX_SIZE = 0;
+		MAX_BOXES_IN_QUEUE = 0;
+
+		throw;
+	}
+
 	unlock_queue();
 }
 
-- 
2.43.0


From ae72e60dc1ccaf2760e34ca14ffb9d481aa63a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:50 +0000
Subject: [PATCH 21/42] fix: shm_queue: no window in which a new queue has
 unset semaphores

---
 coda/shm_queue.tcc | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index 3345b19..d0c9b21 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -203,22 +203,12 @@ void shm_queue::queue<_T>::connect_sem(const char *key_fname)
 		throw coda_error("shm_queue::queue<>: error creating key from file '%s': %s", key_fname, coda_strerror(errno));
 	}
 
-	if (-1 == (sem_id = semget(key, 2, 0)))
-	{
-		if (-1 == (sem_id = semget(key, 2, IPC_CREAT | 0666)))
-		{
-			throw coda_error("shm_queue::queue<>:error getting sem: %s", coda_strerror(errno));
-		}
-
-		if (-1 == semctl(sem_id, SEM_ID_0, SETVAL, (1)))
-		{
-			throw coda_error("shm_queue::queue<>:error setting sem: %s", coda_strerror(errno));
-		}
+	// new semaphores are 0: unlocked, no boxes. They are not set here, as another
+	// process may already use them (or this one may die before it has set them).
 
-		if (-1 == semctl(sem_id, SEM_ID_QUEUE_COUNT, SETVAL, (0)))
-		{
-			throw coda_error("shm_queue::queue<>:error setting sem: %s", coda_strerror(errno));
-		}
+	if (-1 == (sem_id = semget(key, 2, IPC_CREAT | 0666)))
+	{
+		throw coda_error("shm_queue::queue<>:error getting sem: %s", coda_strerror(errno));
 	}
 }
 
@@ -406,11 +396,14 @@ uint32_t shm_queue::queue<_T>::pages_used()const
 template <typename _T>
 void shm_queue::queue<_T>::lock_queue()
 {
-	struct sembuf sem;
-	sem.sem_num = SEM_ID_0;
-	sem.sem_op = -1;
-	sem.sem_flg = SEM_UNDO;
-	semop(sem_id, &sem, 1);
+	struct sembuf sem[2];
+	sem[0].sem_num = SEM_ID_0;
+	sem[0].sem_op = 0;
+	sem[0].sem_flg = 0;
+	sem[1].sem_num = SEM_ID_0;
+	sem[1].sem_op = 1;
+	sem[1].sem_flg = SEM_UNDO;
+	semop(sem_id, sem, 2);
 }
 
 template <typename _T>
@@ -418,7 +411,7 @@ void shm_queue::queue<_T>::unlock_queue()
 {
 	struct sembuf sem;
 	sem.sem_num = SEM_ID_0;
-	sem.sem_op = 1;
+	sem.sem_op = -1;
 	sem.sem_flg = SEM_UNDO;
 	semop(sem_id, &sem, 1);
 }
-- 
2.43.0


From 52a63f57dbe2f2a0ad06a2e767820c9ee1220181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:50 +0000
Subject: [PATCH 22/42] fix: shm_queue: a signal while waiting for the lock
 must not let two processes in

---
 coda/shm_queue.tcc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index d0c9b21..1957524 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -403,7 +403,11 @@ void shm_queue::queue<_T>::lock_queue()
 	sem[1].sem_num = SEM_ID_0;
 	sem[1].sem_op = 1;
 	sem[1].sem_flg = SEM_UNDO;
-	semop(sem_id, sem, 2);
+
+	while (-1 == semop(sem_id, sem, 2) && EINTR == errno)
+	{
+		// interrupted by a signal: the lock is not taken yet
+	}
 }
 
 template <typename _T>
-- 
2.43.0


From de3252b22934e63971ea318e1d7d79c6bd8bc8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:35 +0000
Subject: [PATCH 23/42] fix: shm_queue: a queue whose creator died before
 filling the header can be connected

---
 coda/shm_queue.tcc | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index 1957524..cb4ec68 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -131,16 +131,12 @@ void shm_queue::queue<_T>::connect_shm(const char *key_fname)
 		throw coda_error("shm_queue::queue<>: error creating key from file '%s': %s", key_fname, coda_strerror(errno));
 	}
 
-	int created = 0;
-
 	if (-1 == (shm_id = shmget(key, MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info), 0666)))
 	{
 		if (-1 == (shm_id = shmget(key, MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info), IPC_CREAT | 0666))) // not created? creating...
 		{
 			throw coda_error("shm_queue::queue<>: error creating queue shm: %s", coda_strerror(errno));
 		}
-
-		created = 1;
 	}
 
 	uint8_t *ptr = (uint8_t *) shmat(shm_id, 0, 0);
@@ -152,7 +148,7 @@ void shm_queue::queue<_T>::connect_shm(const char *key_fname)
 
 	info = (shm_queue::queue_info *) ptr;
 
-	if (created)
+	if (0 == info->size) // created just now, or by a process that died before it came here
 	{
 		memset(ptr, 0, MAX_BOXES_IN_QUEUE * BOX_SIZE + sizeof(queue_info));
 		info->box_size = BOX_SIZE;
-- 
2.43.0


From c88d07e26bd5516c8de2b70393ac710c66995083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:25 +0000
Subject: [PATCH 24/42] fix: shm_queue: ring positions are valid and boxes
 whole at every point a process may die

---
 coda/shm_queue.tcc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/coda/shm_queue.tcc b/coda/shm_queue.tcc
index cb4ec68..15bce62 100644
--- a/coda/shm_queue.tcc
+++ b/coda/shm_queue.tcc
@@ -292,10 +292,10 @@ bool shm_queue::queue<_T>::unflush(short sem_flg, long sem_usec)
 
 		uint8_t *ptr = boxes + info->start * info->box_size;
 		current_box.copy_from(ptr);
-		memset(ptr, 0, info->box_size);
 
-		info->start++;
-		info->start %= info->size;
+		// in one store, and before the box is wiped: this process may die at any point
+		info->start = (info->start + 1) % info->size;
+		memset(ptr, 0, info->box_size);
 
 		unlock_queue();
 
@@ -327,8 +327,7 @@ void shm_queue::queue<_T>::flush()
 		{
 			uint8_t *ptr = boxes + info->end * info->box_size;
 			current_box.copy_to(ptr);
-			info->end++;
-			info->end %= info->size;
+			info->end = (info->end + 1) % info->size;
 
 			struct sembuf sem;
 			sem.sem_num = SEM_ID_QUEUE_COUNT;
-- 
2.43.0


From 46329f98316e789981d7f0a25314e27ef35e6e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:46 +0000
Subject: [PATCH 25/42] fix: shm_hash_map: disconnect() releases the segment,
 and a failed connect leaves the object able to connect later

---
 coda/shm_hash_map.tcc | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/coda/shm_hash_map.tcc b/coda/shm_hash_map.tcc
index 07d85d0..faa1c14 100644
--- a/coda/shm_hash_map.tcc
+++ b/coda/shm_hash_map.tcc
@@ -442,18 +442,16 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::connect(const char *key_fna
 template <typename _Type, int _OBJECTS_NUM, int _HASH_SIZE>
 void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::disconnect()
 {
-	if (!is_connected())
+	if (is_connected())
 	{
-		return;
-	}
+		uint8_t *ptr = shmem_p;
 
-	detach();
+		detach();
+		shmdt(ptr);
+	}
 
 	sem_id = -1;
 	shm_id = -1;
-
-	shmdt(shmem_p);
-	shmem_p = 0;
 }
 
 template <typename _Type, int _OBJECTS_NUM, int _HASH_SIZE>
-- 
2.43.0


From 67b0718479a22c6a5236a96b12fbc76dbe9d1924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:34 +0000
Subject: [PATCH 26/42] fix: shm_hash_map: creating the semaphores must not
 reset locks other processes hold

---
 coda/shm_hash_map.tcc | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/coda/shm_hash_map.tcc b/coda/shm_hash_map.tcc
index faa1c14..a4b5c89 100644
--- a/coda/shm_hash_map.tcc
+++ b/coda/shm_hash_map.tcc
@@ -391,23 +391,12 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::connect_sem(const char *key
 		throw coda_error("error creating key from file %s: %s", key_fname, coda_strerror(errno));
 	}
 
-	if (-1 == (sem_id = semget(key, 2, 0)))
-	{
-		if (-1 == (sem_id = semget(key, 2, IPC_CREAT | 0666)))
-		{
-			throw coda_error("error getting sem: %s", coda_strerror(errno));
-		}
+	// new semaphores are 0 (unlocked); setting them here would drop the locks of
+	// other processes that are creating the map at the same time
 
-		// now set initial values for _GUARD semaphores
-		if (-1 == semctl(sem_id, mySEM_R, SETVAL, (0)))
-		{
-			throw coda_error("error setting sem: %s", coda_strerror(errno));
-		}
-
-		if (-1 == semctl(sem_id, mySEM_W, SETVAL, (0)))
-		{
-			throw coda_error("error setting sem: %s", coda_strerror(errno));
-		}
+	if (-1 == (sem_id = semget(key, 2, IPC_CREAT | 0666)))
+	{
+		throw coda_error("error getting sem: %s", coda_strerror(errno));
 	}
 }
 
-- 
2.43.0


From 9cbd44b8b6bd12ff120d0c3af262780c7409c1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:58 +0000
Subject: [PATCH 27/42] fix: shm_hash_map: a map whose creator died half way
 through can be connected and used

---
 coda/shm_hash_map.tcc | 10 +++++-----
 coda/shm_pool.tcc     |  4 ++--
 coda/shm_stack.tcc    |  4 ++--
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/coda/shm_hash_map.tcc b/coda/shm_hash_map.tcc
index a4b5c89..76b3478 100644
--- a/coda/shm_hash_map.tcc
+++ b/coda/shm_hash_map.tcc
@@ -50,17 +50,17 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::attach(void * mem_begin) th
 	int map_data_size = floor1024(nodes_pool.data_size());
 	uint8_t *hash_p = mem_p + map_header_size + map_stacks_size + map_data_size;
 
-	if (0 == *objects_num && 0 == *item_size && 0 == *hash_size)
+	if (0 == *objects_num)
 	{
 		// kto perviy vstal togo i tapki!
-		*objects_num = _OBJECTS_NUM;
-		*item_size = sizeof(_Type);
-		*hash_size = _HASH_SIZE;
-
 		for (uint32_t i = 0; i < _HASH_SIZE; i++)
 		{
 			((uint32_t *) hash_p)[i] = (uint32_t)(-1);
 		}
+
+		*item_size = sizeof(_Type);
+		*hash_size = _HASH_SIZE;
+		*objects_num = _OBJECTS_NUM; // last: if we die earlier, the next one starts over
 	}
 	else if (_OBJECTS_NUM != *objects_num || sizeof(_Type) != *item_size || _HASH_SIZE != *hash_size)
 	{
diff --git a/coda/shm_pool.tcc b/coda/shm_pool.tcc
index e624030..3166b89 100644
--- a/coda/shm_pool.tcc
+++ b/coda/shm_pool.tcc
@@ -24,12 +24,12 @@ void shm::pool<_Type, _OBJECTS_NUM>::attach(void *header_begin, void *stack_begi
 
 	data = (_Type *) objects_begin;
 
-	if (0 == *reserved && 0 == *item_size)
+	if (0 == *reserved)
 	{
 		//kto perviy vstal togo i tapki!
-		*reserved = _OBJECTS_NUM;
 		*item_size = sizeof(_Type);
 		*current = 0;
+		*reserved = _OBJECTS_NUM; // last: if we die earlier, the next one starts over
 	}
 	else if (_OBJECTS_NUM != *reserved || sizeof(_Type) != *item_size)
 	{
diff --git a/coda/shm_stack.tcc b/coda/shm_stack.tcc
index 67b1b7c..483c7d5 100644
--- a/coda/shm_stack.tcc
+++ b/coda/shm_stack.tcc
@@ -22,12 +22,12 @@ inline void shm::stack<_Type, _OBJECTS_NUM>::attach(void * header_begin, void *
 
 	data = (_Type *) block_begin;
 
-	if (0 == *reserved && 0 == *item_size)
+	if (0 == *reserved)
 	{
 		//kto perviy vstal togo i tapki!
-		*reserved = _OBJECTS_NUM;
 		*item_size = sizeof(_Type);
 		*current = (uint32_t)(-1);
+		*reserved = _OBJECTS_NUM; // last: if we die earlier, the next one starts over
 	}
 	else if (_OBJECTS_NUM != *reserved || sizeof(_Type) != *item_size)
 	{
-- 
2.43.0


From 3de3bd2ae6f720d25bc8d13a94a561bdaaf3b116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:23 +0000
Subject: [PATCH 28/42] fix: shm_hash_map: a process that dies inside an
 operation must not leave a cycle for the others

---
 coda/shm_hash_map.tcc | 4 +++-
 coda/shm_pool.tcc     | 2 +-
 coda/shm_stack.tcc    | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/coda/shm_hash_map.tcc b/coda/shm_hash_map.tcc
index 76b3478..3eae6ea 100644
--- a/coda/shm_hash_map.tcc
+++ b/coda/shm_hash_map.tcc
@@ -202,13 +202,15 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::clear()
 {
 	lock_write_rw();
 
-	nodes_pool.clear();
+	// chains go before their nodes can be given out again: we may die at any point
 
 	for (uint32_t i = 0; i < _HASH_SIZE; i++)
 	{
 		hash[i] = (uint32_t) -1;
 	}
 
+	nodes_pool.clear();
+
 	unlock_write_rw();
 }
 
diff --git a/coda/shm_pool.tcc b/coda/shm_pool.tcc
index 3166b89..cbb8bc6 100644
--- a/coda/shm_pool.tcc
+++ b/coda/shm_pool.tcc
@@ -96,7 +96,7 @@ size_t shm::pool<_Type, _OBJECTS_NUM>::allocated_objects()
 template <typename _Type, int _OBJECTS_NUM>
 void shm::pool<_Type, _OBJECTS_NUM>::clear()
 {
-	*current = 0;
 	free_nodes.clear();
+	*current = 0;
 }
 
diff --git a/coda/shm_stack.tcc b/coda/shm_stack.tcc
index 483c7d5..851599f 100644
--- a/coda/shm_stack.tcc
+++ b/coda/shm_stack.tcc
@@ -79,7 +79,8 @@ inline bool shm::stack<_Type, _OBJECTS_NUM>::push(const _Type& el)
 	}
 	else
 	{
-		data[++(*current)] = el;
+		data[*current + 1] = el;
+		++(*current);
 
 		return true;
 	}
-- 
2.43.0


From b8ef6b53c85a48eae50f652f00919ce8bb5087be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:41 +0000
Subject: [PATCH 29/42] fix: shm_hash_map: a connect interrupted by a signal
 must not release a lock it does not hold

---
 coda/shm_hash_map.tcc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coda/shm_hash_map.tcc b/coda/shm_hash_map.tcc
index 3eae6ea..b6a3aa2 100644
--- a/coda/shm_hash_map.tcc
+++ b/coda/shm_hash_map.tcc
@@ -409,6 +409,7 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::connect(const char *key_fna
 	{
 		connect_sem(key_fname);
 		connect_shm(key_fname);
+		lock_write_rw();
 	}
 	catch (const std::exception& e)
 	{
@@ -418,9 +419,7 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::connect(const char *key_fna
 
 	try
 	{
-		lock_write_rw();
 		attach(shmem_p);
-		unlock_write_rw();
 	}
 	catch (const std::exception& e)
 	{
@@ -428,6 +427,8 @@ void shm::hash_map<_Type, _OBJECTS_NUM, _HASH_SIZE>::connect(const char *key_fna
 		disconnect();
 		throw;
 	}
+
+	unlock_write_rw();
 }
 
 template <typename _Type, int _OBJECTS_NUM, int _HASH_SIZE>
-- 
2.43.0


From a44a31717bdf0b47820b7564666faaf6b6eee18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:58 +0000
Subject: [PATCH 30/42] fix: system: coda_fdopen() does not leak the opened
 file when it cannot be moved

---
 coda/system.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/coda/system.c b/coda/system.c
index a60cf60..26be45e 100644
--- a/coda/system.c
+++ b/coda/system.c
@@ -24,12 +24,21 @@ int coda_fdmove(int fd, int nd) /* if nd is ebadf or eq-to-fd => fd is returned
 
 int coda_fdopen(int fd, const char* path, int flags)
 {
-	int td;
+	int td, rc;
 
 	td = open(path, flags, 0644);
 	if (0 > td) return -1;
 
-	return coda_fdmove(td, fd);
+	fd = coda_fdmove(td, fd);
+
+	if (0 > fd)
+	{
+		rc = errno;
+		close(td);
+		errno = rc;
+	}
+
+	return fd;
 }
 
 int coda_mkpath(char* path)
-- 
2.43.0


From 7fd5d66d08277542603324b554d2493d9adc2f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:58 +0000
Subject: [PATCH 31/42] fix: system: coda_mkpath() fails when a component
 exists and is not a directory, and reads no further than an empty path

---
 coda/system.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/coda/system.c b/coda/system.c
index 26be45e..2fbfcc9 100644
--- a/coda/system.c
+++ b/coda/system.c
@@ -44,17 +44,30 @@ int coda_fdopen(int fd, const char* path, int flags)
 int coda_mkpath(char* path)
 {
 	int rc;
-	char* p = path + 1;
+	char* p = path;
+	struct stat st;
+
+	if (!*p) return 0;
 
-	for (; *p; ++p)
+	for (++p; *p; ++p)
 	{
 		if (*p != '/') continue;
 
 		*p = 0;
 		rc = mkdir(path, 0755);
+
+		if (0 > rc && EEXIST == errno)
+		{
+			if (0 == (rc = stat(path, &st)) && !S_ISDIR(st.st_mode))
+			{
+				errno = ENOTDIR;
+				rc = -1;
+			}
+		}
+
 		*p = '/';
 
-		if (0 > rc && EEXIST != errno)
+		if (0 > rc)
 		{
 			return -1;
 		}
-- 
2.43.0


From 7e8a4529c8afcd83535c21a168542598be8995b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:58 +0000
Subject: [PATCH 32/42] fix: logger: log_create() does not write to the path it
 is given

---
 coda/logger.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/coda/logger.c b/coda/logger.c
index a51975a..caa3756 100644
--- a/coda/logger.c
+++ b/coda/logger.c
@@ -2,6 +2,8 @@
 #include <errno.h>
 #include <fcntl.h>
 #include <stdarg.h>
+#include <stdlib.h>
+#include <string.h>
 #include <unistd.h>
 #include <pthread.h>
 #include "logger.h"
@@ -38,7 +40,14 @@ int log_levels(const char* level)
 
 int log_create(const char* path, int level)
 {
-	if (0 > coda_mkpath((char *) path)) return -1;
+	size_t size = strlen(path) + 1;
+	char* copy = (char*) malloc(size); /* path may be read-only */
+	if (NULL == copy) return -1;
+
+	int rc = coda_mkpath((char*) memcpy(copy, path, size));
+	free(copy);
+
+	if (0 > rc) return -1;
 	if (0 > coda_fdopen(STDERR_FILENO, path, O_CREAT|O_APPEND|O_WRONLY)) return -1;
 
 	log_level = level;
-- 
2.43.0


From 2bdcd1b98818f34bf08ebcf01fc3d4b5d3112619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:58 +0000
Subject: [PATCH 33/42] fix: daemon: signal set-up without restart does not
 inherit one-shot handlers

---
 coda/daemon.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coda/daemon.c b/coda/daemon.c
index c2f5477..7bc8d22 100644
--- a/coda/daemon.c
+++ b/coda/daemon.c
@@ -179,8 +179,8 @@ int coda_daemon_stop(coda_getopt_t* opt)
 
 #define CODA_SIG_INIT_NORESTART(name,hand,glob_hand) do { \
     struct sigaction sa;                                  \
-    if (0 > sigaction((SIG##name), NULL, &sa)) return -1; \
-    sa.sa_flags &= ~SA_RESTART;                           \
+    sigemptyset(&sa.sa_mask);                             \
+    sa.sa_flags = 0;                                      \
     sa.sa_handler = (glob_hand);                          \
     if (0 > sigaction((SIG##name), &sa, NULL)) return -1; \
 } while (0);
-- 
2.43.0


From fedb2723a00e2fdbdb4e871add4860299cb2495a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:58 +0000
Subject: [PATCH 34/42] fix: daemon: the signal handler uses async-signal-safe
 calls only

---
 coda/daemon.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/coda/daemon.c b/coda/daemon.c
index 7bc8d22..191d0b9 100644
--- a/coda/daemon.c
+++ b/coda/daemon.c
@@ -1,7 +1,9 @@
 #define _GNU_SOURCE
+#include <errno.h>
 #include <fcntl.h>
 #include <getopt.h>
 #include <stdlib.h>
+#include <string.h>
 #include <sys/stat.h>
 #include <sys/types.h>
 #include <unistd.h>
@@ -173,8 +175,8 @@ int coda_daemon_stop(coda_getopt_t* opt)
 /*  _(UNUSED , ignoremsg, ##__VA_ARGS__) */ \
 /*  _(EMT    , ignoremsg, ##__VA_ARGS__) */
 
-#define CODA_SIG_CASE(name,hand) case SIG##name: log_notice(QUOTES_NAME(SIG##name)"("QUOTES_DATA(SIG##name)"): "#hand); CODA_SIG_CASE_##hand; break;
-#define CODA_SIG_CASE_DEFAULT(n) default: log_notice("DEFAULT CASE in coda_signal_handle(%d) - sigaction is not defined", n); break;
+#define CODA_SIG_CASE(name,hand) case SIG##name: coda_signal_note(QUOTES_NAME(SIG##name)"("QUOTES_DATA(SIG##name)"): "#hand"\n"); CODA_SIG_CASE_##hand; break;
+#define CODA_SIG_CASE_DEFAULT default: coda_signal_note("DEFAULT CASE in coda_signal_handle - sigaction is not defined\n"); break;
 #define CODA_SIG_INIT(name,hand,glob_hand) if (SIG_ERR == signal((SIG##name), (glob_hand))) return -1;
 
 #define CODA_SIG_INIT_NORESTART(name,hand,glob_hand) do { \
@@ -197,13 +199,25 @@ volatile int coda_changecfg = 0;
 volatile int coda_rotatelog = 0;
 volatile int coda_changebin = 0;
 
+/* only async-signal-safe calls here: the signal may have interrupted the logger itself */
+static
+void coda_signal_note(const char* note)
+{
+    if (LOG_notice <= log_level)
+    {
+        int saved = errno;
+        if (0 > write(STDERR_FILENO, note, strlen(note))) { /* nothing to do about it */ }
+        errno = saved;
+    }
+}
+
 static
 void coda_signal_handle(int sig)
 {
     switch (sig)
     {
     CODA_SIG_LIST(CODA_SIG_CASE)
-	CODA_SIG_CASE_DEFAULT(sig)
+	CODA_SIG_CASE_DEFAULT
     }
 }
 
-- 
2.43.0


From dad700729ada55a43178c9d9fbac4f0ee42122a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:58 +0000
Subject: [PATCH 35/42] fix: socket: coda_inet_addr() rejects numbers too large
 for its arithmetic

---
 coda/socket.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coda/socket.h b/coda/socket.h
index eecfcaa..7d30443 100644
--- a/coda/socket.h
+++ b/coda/socket.h
@@ -81,6 +81,7 @@ in_addr_t coda_inet_addr(const char *data, size_t size)
 		if (c >= '0' && c <= '9')
 		{
 			octet = octet * 10 + (c - '0');
+			if (octet > 255) return INADDR_NONE;
 			continue;
 		}
 
-- 
2.43.0


From 115cd06681ced2c5196c96bc67f6e65bdec12a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:58 +0000
Subject: [PATCH 36/42] fix: socket: timeouts of a second and more

---
 coda/socket.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coda/socket.h b/coda/socket.h
index 7d30443..3d6b66a 100644
--- a/coda/socket.h
+++ b/coda/socket.h
@@ -32,8 +32,8 @@ int coda_set_socket_timeout(int s, long timeout)
 {
 	struct timeval tv;
 
-	tv.tv_sec = 0;
-	tv.tv_usec = timeout;
+	tv.tv_sec = timeout / 1000000;
+	tv.tv_usec = timeout % 1000000;
 
 	return setsockopt(s, SOL_SOCKET, SO_RCVTIMEO, (struct timeval *) &tv, sizeof(tv));
 }
-- 
2.43.0


From c05bfa4ab6df0a4892313f08b79c5543637de60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:58 +0000
Subject: [PATCH 37/42] fix: socket: include what close() and struct timeval
 need

---
 coda/socket.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coda/socket.h b/coda/socket.h
index 3d6b66a..b51b80e 100644
--- a/coda/socket.h
+++ b/coda/socket.h
@@ -5,6 +5,8 @@
 #include <stdlib.h>
 #include <netinet/in.h>
 #include <arpa/inet.h>
+#include <sys/time.h>
+#include <unistd.h>
 #include <sys/ioctl.h>
 #include <sys/types.h>
 #include <sys/socket.h>
-- 
2.43.0


From b0e4927bef3d6accfb3f19b1473cb5c497476685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:30 +0000
Subject: [PATCH 38/42] fix: coda_mkpidf takes a partly written pid for success

---
 coda/system.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coda/system.c b/coda/system.c
index 2fbfcc9..6f23e5d 100644
--- a/coda/system.c
+++ b/coda/system.c
@@ -116,8 +116,9 @@ int coda_mkpidf(const char* path)
 		return -1;
 	}
 
-	if (0 > write(fd, buf, nb))
+	if (nb != write(fd, buf, nb))
 	{
+		if (0 > ftruncate(fd, 0)) { /* nothing to do about it */ }
 		flock(fd, LOCK_UN);
 		close(fd);
 		return -1;
-- 
2.43.0


From 7ef401410c7394974be65d4e5267eadf63a8cd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:30 +0000
Subject: [PATCH 39/42] fix: coda_mkpidf fails but leaves its pid in the file

---
 coda/system.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coda/system.c b/coda/system.c
index 6f23e5d..7dca2b9 100644
--- a/coda/system.c
+++ b/coda/system.c
@@ -126,6 +126,7 @@ int coda_mkpidf(const char* path)
 
 	if (0 > flock(fd, LOCK_UN))
 	{
+		if (0 > ftruncate(fd, 0)) { /* nothing to do about it */ }
 		close(fd);
 		return -1;
 	}
-- 
2.43.0


From 0df839e7460c1b1c817817a7f6fd843676c5d65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:17 +0000
Subject: [PATCH 40/42] fix: rotating the log splits lines of other threads

---
 coda/logger.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/coda/logger.c b/coda/logger.c
index caa3756..d8b81bd 100644
--- a/coda/logger.c
+++ b/coda/logger.c
@@ -48,7 +48,12 @@ int log_create(const char* path, int level)
 	free(copy);
 
 	if (0 > rc) return -1;
-	if (0 > coda_fdopen(STDERR_FILENO, path, O_CREAT|O_APPEND|O_WRONLY)) return -1;
+
+	flockfile(stderr); /* a line is written in pieces, all of them go to the same file */
+	rc = coda_fdopen(STDERR_FILENO, path, O_CREAT|O_APPEND|O_WRONLY);
+	funlockfile(stderr);
+
+	if (0 > rc) return -1;
 
 	log_level = level;
 	return STDERR_FILENO;
-- 
2.43.0


From a7b17fa915c7cfd9f05603982481684ce42fec93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:59 +0000
Subject: [PATCH 41/42] fix: random: close the device when reading it fails

---
 coda/random.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/coda/random.c b/coda/random.c
index d74da55..a3b5d0d 100644
--- a/coda/random.c
+++ b/coda/random.c
@@ -20,9 +20,8 @@ int coda_random_init()
 	uint32_t rnd_from_device;
 
 	int rc = read(fd, &rnd_from_device, sizeof(rnd_from_device));
-	if (0 > rc) return -1;
-
 	close(fd);
+	if (0 > rc) return -1;
 
 	srandom(rnd_from_device);
 	coda_random_inited = 1;
-- 
2.43.0


From e2200f464463e7364a4ec0f1498d2bdaf13812f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:00:07 +0000
Subject: [PATCH 42/42] fix: cache: a very long lifetime must not wrap around
 and expire everything at once

---
 coda/cache.tcc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/coda/cache.tcc b/coda/cache.tcc
index cdf3933..d96d75a 100644
--- a/coda/cache.tcc
+++ b/coda/cache.tcc
@@ -7,7 +7,9 @@ const Val *coda_cache<Key, Val>::get(const Key &key)
 
 	if (it != data.end())
 	{
-		if (time_max && it->second.time + time_max < (size_t) time(NULL))
+		size_t time_cur = time(NULL);
+
+		if (time_max && it->second.time < time_cur && time_max < time_cur - it->second.time)
 		{
 			erase(it);
 			return NULL;
@@ -28,7 +30,9 @@ void coda_cache<Key, Val>::get(const Key &key, Val &val)
 
 	if (it != data.end())
 	{
-		if (time_max && it->second.time + time_max < (size_t) time(NULL))
+		size_t time_cur = time(NULL);
+
+		if (time_max && it->second.time < time_cur && time_max < time_cur - it->second.time)
 		{
 			erase(it);
 		}
-- 
2.43.0

