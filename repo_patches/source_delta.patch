From 3e967d76d76fa5edb0cb0fefc09dc8f9b9ebeddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:06 +0000
Subject: [PATCH 01/18] fix: strview_find_last() must not form pointers before
 the haystack

With a needle longer than the haystack the start position was computed as
&haystack.data[haystack.size - needle.size], before the start of the haystack.
If that wraps around the address space (a haystack at a low address) the
">= haystack.data" test passes and the search reads out of bounds.
---
 strview.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/strview.c b/strview.c
index 4edea19..46ed704 100644
--- a/strview.c
+++ b/strview.c
@@ -548,21 +548,21 @@ static strview_t find_last(strview_t haystack, strview_t needle, int(*comp_func)
 {
 	strview_t result = STRVIEW_INVALID;
 
-	const char* remaining_hay = &haystack.data[haystack.size - needle.size];
+	int index = haystack.size - needle.size;
 	bool found = false;
 
 	if(haystack.data && needle.data)
 	{
-		while((remaining_hay >= haystack.data) && !found)
+		while((index >= 0) && !found)
 		{
-			found = !comp_func(remaining_hay, needle.data, needle.size);
-			remaining_hay -= !found;
+			found = !comp_func(&haystack.data[index], needle.data, needle.size);
+			index -= !found;
 		};
 	};
 
 	if(found)
 	{
-		result.data = remaining_hay;
+		result.data = &haystack.data[index];
 		result.size = needle.size;
 	};
 
-- 
2.43.0


From 61d9b0d10f55537641c653cdbf698851b864bba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:06 +0000
Subject: [PATCH 02/18] fix: strview_is_match() of an invalid and an empty view
 is false

As documented under strview_compare(): "strview_is_match() would return false
if only one string is invalid". Same for strview_is_match_nocase().
---
 strview.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strview.c b/strview.c
index 46ed704..c11e6b9 100644
--- a/strview.c
+++ b/strview.c
@@ -65,7 +65,7 @@ void strview_swap(strview_t* a, strview_t* b)
 
 bool strview_is_match_strview(strview_t str1, strview_t str2)
 {
-	return (str1.size == str2.size) && (str1.data == str2.data || !memcmp(str1.data, str2.data, str1.size));
+	return (strview_is_valid(str1) == strview_is_valid(str2)) && (str1.size == str2.size) && (str1.data == str2.data || !memcmp(str1.data, str2.data, str1.size));
 }
 
 bool strview_is_match_cstr(strview_t str1, const char* str2)
@@ -75,7 +75,7 @@ bool strview_is_match_cstr(strview_t str1, const char* str2)
 
 bool strview_is_match_nocase_strview(strview_t str1, strview_t str2)
 {
-	return (str1.size == str2.size) && (str1.data == str2.data || !memcmp_nocase(str1.data, str2.data, str1.size));
+	return (strview_is_valid(str1) == strview_is_valid(str2)) && (str1.size == str2.size) && (str1.data == str2.data || !memcmp_nocase(str1.data, str2.data, str1.size));
 }
 
 bool strview_is_match_nocase_cstr(strview_t str1, const char* str2)
-- 
2.43.0


From 60c6d50b515de8f48a6c31139b62c5f6a63506e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:06 +0000
Subject: [PATCH 03/18] fix: strview_split_line() leaves the source unmodified
 if there is no line

With a pending CR or LF in *eol, a source which starts with its counterpart
and holds no line ending lost that first character while *eol was kept, so the
next call could swallow a second one, and with it an empty line.
---
 strview.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/strview.c b/strview.c
index c11e6b9..cf219d9 100644
--- a/strview.c
+++ b/strview.c
@@ -325,11 +325,8 @@ strview_t strview_split_line(strview_t* strview_ptr, char* eol)
 				*eol = e;
 			*strview_ptr = src;
 		}
-		else	//a line ending was not found, restore the source, and return an invalid strview_t
-		{
-			*strview_ptr = result;
+		else	//a line ending was not found, leave the source unmodified, and return an invalid strview_t
 			result = STRVIEW_INVALID;
-		};
 	};
 	return result;
 }
-- 
2.43.0


From 1b671c61d8095ce5a587e4d2ff9d9b1e2b0613fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:06 +0000
Subject: [PATCH 04/18] fix: strview_dequote() removes only quotes

Any matching first and last character was taken for a quote, so that "level"
became "eve", and surrounding spaces were trimmed.
---
 strview.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strview.c b/strview.c
index cf219d9..a852565 100644
--- a/strview.c
+++ b/strview.c
@@ -510,6 +510,7 @@ strview_t strview_dequote(strview_t src)
 	if(result.size > 1)
 		quote_char = result.data[0];
 	while( 	(result.size > 1)
+	 && 	(quote_char == '\"' || quote_char == '\'')
 	 && 	(result.data[0] == quote_char)
 	 && 	(result.data[result.size-1] == quote_char) )
 		result = strview_sub(result, 1, -1);
-- 
2.43.0


From a6b44dd7511fd104f84c3429d333ec3817fda18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:06 +0000
Subject: [PATCH 05/18] fix: strbuf_append_vprintf() handles a failed
 vsnprintf()

A negative return (such as an encoding error for %ls) was added to the size
of the buffer, which then could even become -1. Empty the buffer instead, as
for any other append which fails.
---
 strbuf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strbuf.c b/strbuf.c
index ebce1da..c16a6a0 100644
--- a/strbuf.c
+++ b/strbuf.c
@@ -211,7 +211,7 @@ strview_t strbuf_append_vprintf(strbuf_t** buf_ptr, const char* format, va_list
 		size = buf->size;
 		append_size = vsnprintf(NULL, 0, format, va);
 
-		failed = add_will_overflow_int(size, append_size);
+		failed = append_size < 0 || add_will_overflow_int(size, append_size);
 		if(!failed)
 		{
 			size += append_size;
-- 
2.43.0


From 2c5994011fdbcc585c33992a18663b4f3ffc2436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:06 +0000
Subject: [PATCH 06/18] fix: detect integer overflow without overflowing an int

add_will_overflow_int() performed the overflowing addition it is there to
prevent, which is undefined and allows a compiler to drop the check.
---
 strbuf.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/strbuf.c b/strbuf.c
index c16a6a0..3e88f53 100644
--- a/strbuf.c
+++ b/strbuf.c
@@ -599,7 +599,8 @@ static strview_t buffer_vcat(strbuf_t** buf_ptr, int n_args, va_list va)
 	{
 		str = va_arg(va, strview_t);
 		failed |= add_will_overflow_int(size_needed, str.size);
-		size_needed += str.size;
+		if(!failed)
+			size_needed += str.size;
 		tmp_buf_needed |= buf_contains_str(dst_buf, str);
 	};
 
@@ -790,9 +791,7 @@ static void empty_buf(strbuf_t* buf)
 
 static bool add_will_overflow_int(int a, int b)
 {
-	int c = a;
-	c += b;
-	return ((a < 0) == (b < 0) && (a < 0) != (c < 0));
+	return b < 0 ? (a < INT_MIN - b) : (a > INT_MAX - b);
 }
 
 static bool view_contains_char(strview_t view, char c)
-- 
2.43.0


From 3bd428635b4677ae54940f3a6406acc24b877266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:06 +0000
Subject: [PATCH 07/18] fix: recognise "infinity" as a floating point value

Because of a typo only the "inf" of it was consumed, and "infinty" was
accepted instead, along with the character following it.
---
 strnum.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strnum.c b/strnum.c
index 3a5fc3b..f78016f 100644
--- a/strnum.c
+++ b/strnum.c
@@ -514,7 +514,7 @@ static int process_float_components(float_components_t* fc)
 static float consume_float_special(float_components_t* fc)
 {
 	float value = 0.0;
-	if(strview_starts_with_nocase(fc->num, "infinty"))
+	if(strview_starts_with_nocase(fc->num, "infinity"))
 	{
 		value = INFINITY;
 		fc->num = strview_sub(fc->num, strlen("infinity"), INT_MAX);
-- 
2.43.0


From 267e20d47e08d790f80b772a8a520f91cea7d936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:06 +0000
Subject: [PATCH 08/18] fix: floating point value of numbers with 40 or more
 integral digits

With a third group of digits, the groups before it were scaled more than once.
---
 strnum.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/strnum.c b/strnum.c
index f78016f..09142f7 100644
--- a/strnum.c
+++ b/strnum.c
@@ -554,8 +554,7 @@ static int consume_exponent(float_components_t* fc)
 	while(integral_digits.size)													\
 	{																			\
 		consume_decimal_digits(&ull, &integral_digits);							\
-		result += (typ)ull;														\
-		result *= powfunc(10, integral_digits.size);							\
+		result += (typ)ull * powfunc(10, integral_digits.size);					\
 	};																			\
 	fractional_digits = strview_trim_end(fractional_digits, "0");				\
 	while(fractional_digits.size)												\
-- 
2.43.0


From 208c80969163b1878d3257dd34a7d8bbf08ca028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:06 +0000
Subject: [PATCH 09/18] fix: do not convert numbers such as 0e999 to NAN

Zero times an infinite scale, or an overflowed value times a scale which
underflows to zero, gave NAN and reported success.
---
 strnum.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strnum.c b/strnum.c
index 09142f7..bb7b78c 100644
--- a/strnum.c
+++ b/strnum.c
@@ -566,7 +566,8 @@ static int consume_exponent(float_components_t* fc)
 		fractional_part *= powfunc(10, fractional_power);						\
 		result += fractional_part;												\
 	};																			\
-	result *= powfunc(10, exp_value);											\
+	if(result != 0 && result != INFINITY)										\
+		result *= powfunc(10, exp_value);										\
 	return result;
 
 static float make_float(strview_t integral_digits, strview_t fractional_digits, int exp_value)
-- 
2.43.0


From 85f1929abe3bb266f7e8a5e7100824aeecc8c4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:06 +0000
Subject: [PATCH 10/18] fix: strnum_consume_float() of a NULL source returns
 EINVAL

As all of the other strnum_consume_ functions. It dereferenced the NULL.
---
 strnum.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/strnum.c b/strnum.c
index bb7b78c..9969c4c 100644
--- a/strnum.c
+++ b/strnum.c
@@ -321,10 +321,9 @@ int strnum_consume_float(float* dst, strview_t* src, int options)
 	};
 
 	if(src)
-	{
 		fc.num = *src;
-		err = process_float_components(&fc);
-	};
+
+	err = process_float_components(&fc);
 
 	// calculate/determine output value
 	if(!err && fc.special_value)
-- 
2.43.0


From ae76bdda620f47176dead0f989dc033e2e6a4fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:06 +0000
Subject: [PATCH 11/18] fix: strbuf_encrypt() and strbuf_decrypt() return a
 view of the buffer

They always returned an invalid view.
---
 accessories/strbuf_crypt/strbuf_crypt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/accessories/strbuf_crypt/strbuf_crypt.c b/accessories/strbuf_crypt/strbuf_crypt.c
index 1886074..495fa25 100644
--- a/accessories/strbuf_crypt/strbuf_crypt.c
+++ b/accessories/strbuf_crypt/strbuf_crypt.c
@@ -70,11 +70,13 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t ke
 			buf->size = fptr((uint8_t*)buf->cstr, buf->size, key, ivec, ctx_ptr);
 			buf->allocator.allocator(&buf->allocator, ctx_ptr, 0);
 			buf->cstr[buf->size] = 0;
+			retval = strbuf_view(&buf);
 		}
 		else if(buf->capacity >= cypher_size(buf->size))
 		{
 			buf->size = encdec_with_ctx_on_stack(fptr, (uint8_t*)buf->cstr, buf->size, key, ivec);
 			buf->cstr[buf->size] = 0;
+			retval = strbuf_view(&buf);
 		};
 		*buf_ptr = buf;	
 	};
-- 
2.43.0


From 7c6a7e9e092446cd4a2be887872b427d2b5f306f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:06 +0000
Subject: [PATCH 12/18] fix: strbuf_decrypt() of content which is not a valid
 cyphertext

Decrypting an empty buffer read the padding length from before the content,
and any padding length (a wrong key gives 0 to 255) was subtracted from the
size, which could become negative and have the terminator written before the
buffer content. Empty the buffer and return an invalid view instead.
---
 accessories/strbuf_crypt/strbuf_crypt.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/accessories/strbuf_crypt/strbuf_crypt.c b/accessories/strbuf_crypt/strbuf_crypt.c
index 495fa25..0c1e684 100644
--- a/accessories/strbuf_crypt/strbuf_crypt.c
+++ b/accessories/strbuf_crypt/strbuf_crypt.c
@@ -33,6 +33,7 @@
 	static int enc256cbc(uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16], aes256_ctx_t* ctx);
 	static int dec256cbc(uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16], aes256_ctx_t* ctx);
 	static int cypher_size(int content_size);
+	static strview_t set_result_size(strbuf_t* buf, int size);
 	static int encdec_with_ctx_on_stack(encdec_fptr_t fptr, uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16]);
 	static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t key[32], uint8_t ivec[16]);
 
@@ -67,17 +68,11 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t ke
 		{
 			strbuf_grow(&buf, cypher_size(buf->size));
 			ctx_ptr = buf->allocator.allocator(&buf->allocator, NULL, sizeof(*ctx_ptr));
-			buf->size = fptr((uint8_t*)buf->cstr, buf->size, key, ivec, ctx_ptr);
+			retval = set_result_size(buf, fptr((uint8_t*)buf->cstr, buf->size, key, ivec, ctx_ptr));
 			buf->allocator.allocator(&buf->allocator, ctx_ptr, 0);
-			buf->cstr[buf->size] = 0;
-			retval = strbuf_view(&buf);
 		}
 		else if(buf->capacity >= cypher_size(buf->size))
-		{
-			buf->size = encdec_with_ctx_on_stack(fptr, (uint8_t*)buf->cstr, buf->size, key, ivec);
-			buf->cstr[buf->size] = 0;
-			retval = strbuf_view(&buf);
-		};
+			retval = set_result_size(buf, encdec_with_ctx_on_stack(fptr, (uint8_t*)buf->cstr, buf->size, key, ivec));
 		*buf_ptr = buf;	
 	};
 
@@ -114,8 +109,8 @@ static int enc256cbc(uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16], a
 }
 
 // decrypt buf, using 256bit key and 128bit init vector.
-// len must be a multiple of 16
 // returns the size of the decoded output in bytes
+// or -1 if len is not a multiple of 16 (and at least 16), or the padding is not valid
 static int dec256cbc(uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16], aes256_ctx_t* ctx)
 {
 	int block_count = len/AES_BLOCK_SIZE;
@@ -126,6 +121,9 @@ static int dec256cbc(uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16], a
 	uint8_t (*this_xor)[AES_BLOCK_SIZE] = &buf1;
 	uint8_t (*next_xor)[AES_BLOCK_SIZE] = &buf2;
 
+	if(len <= 0 || len % AES_BLOCK_SIZE)
+		return -1;
+
 	aes256_init(key, ctx);
 	memcpy(this_xor, ivec, AES_BLOCK_SIZE);
 	while(block_count--)
@@ -139,6 +137,8 @@ static int dec256cbc(uint8_t *buf, int len, uint8_t key[32], uint8_t ivec[16], a
 
 	pad_len = buf[-1];
 	out_len = len - pad_len;
+	if(pad_len < 1 || pad_len > AES_BLOCK_SIZE)
+		out_len = -1;
 
 	return out_len;
 }
@@ -149,3 +149,10 @@ static int cypher_size(int content_size)
 	return block_count * AES_BLOCK_SIZE;
 }
 
+// set the size of the encoded/decoded buffer content, or empty the buffer if size is negative
+static strview_t set_result_size(strbuf_t* buf, int size)
+{
+	buf->size = size < 0 ? 0 : size;
+	buf->cstr[buf->size] = 0;
+	return size < 0 ? STRVIEW_INVALID : strbuf_view(&buf);
+}
-- 
2.43.0


From 09cf1abcbd4afc9ae49cae8cb591a1d60e9c8880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:06 +0000
Subject: [PATCH 13/18] fix: strbuf_decrypt() does not need spare capacity

A buffer of fixed capacity with less than 16 bytes of space after the
cyphertext was silently not decrypted, so it could hold the output of
strbuf_encrypt() but not have it decrypted.
---
 accessories/strbuf_crypt/strbuf_crypt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/accessories/strbuf_crypt/strbuf_crypt.c b/accessories/strbuf_crypt/strbuf_crypt.c
index 0c1e684..54cc3ba 100644
--- a/accessories/strbuf_crypt/strbuf_crypt.c
+++ b/accessories/strbuf_crypt/strbuf_crypt.c
@@ -71,7 +71,7 @@ static strview_t strbuf_crypt(encdec_fptr_t fptr, strbuf_t** buf_ptr, uint8_t ke
 			retval = set_result_size(buf, fptr((uint8_t*)buf->cstr, buf->size, key, ivec, ctx_ptr));
 			buf->allocator.allocator(&buf->allocator, ctx_ptr, 0);
 		}
-		else if(buf->capacity >= cypher_size(buf->size))
+		else if(fptr == dec256cbc || buf->capacity >= cypher_size(buf->size))
 			retval = set_result_size(buf, encdec_with_ctx_on_stack(fptr, (uint8_t*)buf->cstr, buf->size, key, ivec));
 		*buf_ptr = buf;	
 	};
-- 
2.43.0


From 5736bd25a7f2fad60123dc78d99adcd6f5989e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:06 +0000
Subject: [PATCH 14/18] fix: strnum_value() with STRNUM_NOFLOAT does not
 compile

Trailing comma in the list of its generic associations.
---
 strnum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strnum.h b/strnum.h
index 6c12da4..b92a97b 100644
--- a/strnum.h
+++ b/strnum.h
@@ -115,7 +115,7 @@
 		short*:					strnum_consume_short,\
 		int*:					strnum_consume_int,\
 		long*:					strnum_consume_long,\
-		long long*:				strnum_consume_llong,\
+		long long*:				strnum_consume_llong\
 		)(dst, src, opt)
 	#endif
 
-- 
2.43.0


From 7c740470f506972ce27d82d93c964a334b234ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:26 +0000
Subject: [PATCH 15/18] fix: strbuf_append_vprintf() handles vsnprintf()
 failing to write

A failure of the second vsnprintf() was added to the size of the buffer as if
it was a length, and the space passed to it overflowed an int for a capacity
of INT_MAX.
---
 strbuf.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/strbuf.c b/strbuf.c
index 3e88f53..00b48fe 100644
--- a/strbuf.c
+++ b/strbuf.c
@@ -222,7 +222,10 @@ strview_t strbuf_append_vprintf(strbuf_t** buf_ptr, const char* format, va_list
 		};
 
 		if(!failed)
-			buf->size += vsnprintf(&buf->cstr[buf->size], buf->capacity - buf->size + 1, format, vb);
+			failed = vsnprintf(&buf->cstr[buf->size], (size_t)(buf->capacity - buf->size) + 1, format, vb) != append_size;
+
+		if(!failed)
+			buf->size = size;
 		else
 			empty_buf(buf);
 
-- 
2.43.0


From 70b0364a1035cf53d5bc09816f3bb7872492da6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:38 +0000
Subject: [PATCH 16/18] fix: STRBUF_PACK_LE/BE do not capture a variable named
 tmp

STRBUF_PACK_LE(&buf, tmp) packed the uninitialised local variable of the macro.
---
 accessories/strbuf_pack.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/accessories/strbuf_pack.h b/accessories/strbuf_pack.h
index 8e9f16b..41e6ec1 100644
--- a/accessories/strbuf_pack.h
+++ b/accessories/strbuf_pack.h
@@ -16,10 +16,10 @@
 //********************************************************************************************************
 
 //	Pack integer types little endian into buffer
-	#define STRBUF_PACK_LE(dst, src) do {typeof(src) tmp = xendian_pack_LE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&tmp, .size=sizeof(tmp)});}while(0)
+	#define STRBUF_PACK_LE(dst, src) do {typeof(src) strbuf_pack_tmp_ = xendian_pack_LE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&strbuf_pack_tmp_, .size=sizeof(strbuf_pack_tmp_)});}while(0)
 
 //	Pack integer types big endian into buffer
-	#define STRBUF_PACK_BE(dst, src) do {typeof(src) tmp = xendian_pack_BE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&tmp, .size=sizeof(tmp)});}while(0)
+	#define STRBUF_PACK_BE(dst, src) do {typeof(src) strbuf_pack_tmp_ = xendian_pack_BE(src); strbuf_append_strview((dst), (strview_t){.data = (const char*)&strbuf_pack_tmp_, .size=sizeof(strbuf_pack_tmp_)});}while(0)
 
 //********************************************************************************************************
 // Public prototypes
-- 
2.43.0


From ac4293f1f33eafa569fba0ed42faf983419a682f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:40 +0000
Subject: [PATCH 17/18] fix: binary digits are only '0' and '1'

isbdigit() masked bit 7, so that the bytes 0xB0 and 0xB1 were taken as binary digits.
---
 strnum.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strnum.c b/strnum.c
index 9969c4c..e44aafa 100644
--- a/strnum.c
+++ b/strnum.c
@@ -886,7 +886,7 @@ static int xdigit_value(char c)
 
 static bool isbdigit(char c)
 {
-	return (c & 0x7E) == 0x30;
+	return (c & 0xFE) == 0x30;
 }
 
 static strview_t split_digits(strview_t* src)
-- 
2.43.0


From 3ba7219a5f9c1721e687cc2455b8f41d95a874c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:18 +0000
Subject: [PATCH 18/18] fix: exponents beyond the range of the type do not lose
 the value

The power of ten of the exponent overflowed or became subnormal although the
number itself is within range: 123456e-45 was converted to 1.73e-40 and 0.001e40
gave ERANGE as a float.
---
 strnum.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/strnum.c b/strnum.c
index e44aafa..89477c9 100644
--- a/strnum.c
+++ b/strnum.c
@@ -3,6 +3,7 @@
 
 	#ifndef STRNUM_NOFLOAT
 		#include <math.h>
+		#include <float.h>
 	#endif
 	#include <limits.h>
 	#include <ctype.h>
@@ -545,7 +546,7 @@ static int consume_exponent(float_components_t* fc)
 	return err;
 }
 
-#define make_float_type(typ, powfunc)											\
+#define make_float_type(typ, powfunc, prefix)									\
 	typ result = 0.0;															\
 	typ fractional_part;														\
 	unsigned long long ull;														\
@@ -566,22 +567,34 @@ static int consume_exponent(float_components_t* fc)
 		result += fractional_part;												\
 	};																			\
 	if(result != 0 && result != INFINITY)										\
+	{																			\
+		if(exp_value < prefix##_MIN_10_EXP)										\
+		{																		\
+			result *= powfunc(10, prefix##_MIN_10_EXP);							\
+			exp_value -= prefix##_MIN_10_EXP;									\
+		}																		\
+		else if(exp_value > prefix##_MAX_10_EXP)								\
+		{																		\
+			result *= powfunc(10, prefix##_MAX_10_EXP);							\
+			exp_value -= prefix##_MAX_10_EXP;									\
+		};																		\
 		result *= powfunc(10, exp_value);										\
+	};																			\
 	return result;
 
 static float make_float(strview_t integral_digits, strview_t fractional_digits, int exp_value)
 {
-	make_float_type(float, powf)
+	make_float_type(float, powf, FLT)
 }
 
 static double make_double(strview_t integral_digits, strview_t fractional_digits, int exp_value)
 {
-	make_float_type(double, pow)
+	make_float_type(double, pow, DBL)
 }
 
 static long double make_ldouble(strview_t integral_digits, strview_t fractional_digits, int exp_value)
 {
-	make_float_type(long double, powl)
+	make_float_type(long double, powl, LDBL)
 }
 
 #endif
-- 
2.43.0

