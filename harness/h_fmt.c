/* h_fmt.c - operations whose source is produced by something else: vsnprintf, vfptrprnf, a fetcher
   (B10, B11, B12, and B01, B04, B07, B08). The formatters are stubs which produce an arbitrary text of a given
   length, or fail. */
#include "buf.h"
#include <stdio.h>
#ifdef STRBUF_PROVIDE_PRNF
	#include "prnf.h"
#endif
#define PRINTF		0
#define APPEND_PRINTF	1
#define PRNF		2
#define APPEND_PRNF	3
#define FETCH		4
#ifndef OP
	#define OP PRINTF
#endif
#ifndef SLO
	#define SLO 0
#endif
#ifndef SHI
	#define SHI CAP
#endif
#define FAIL_BOTH	-1
#define FAIL_SECOND	-2	/* the length is told, but writing fails */

static int text_len;		/* what the formatter is to produce; text is in SRC */
static int arg_given;
static int fmt_calls;
static strbuf_t* cur;

/* is [p,p+n) within the space of the buffer? */
static bool in_buffer(const char* p, size_t n)
{
	#if FIXED
		const char* begin = cur->cstr;
		return p >= begin && p <= begin + CAP + 1 && n <= (size_t)(begin + CAP + 1 - p);
	#else
		bool in = false;
		for(int i = 0; i < NBLK; i++)
			if(i < n_blk && blk[i].live && blk[i].p + HDR <= p && p <= blk[i].p + blk[i].size && n <= (size_t)(blk[i].p + blk[i].size - p))
				in = true;
		return in;
	#endif
}
#ifdef STRBUF_PROVIDE_PRINTF
int v_vsnprintf(char* dst, size_t n, const char* fmt, va_list va)
{
	fmt_calls++;
	int a = va_arg(va, int);
	VASSERT(a == arg_given && fmt[0] == '%', "the formatter gets the format and arguments");
	if(text_len == FAIL_BOTH || (text_len < 0 && n))
		return -1;
	int len = text_len < 0 ? 1 : text_len;
	if(n)
	{
		VASSERT(in_buffer(dst, n), "the formatter is offered no more than the space of the buffer");
		for(int i = 0; i < len; i++)
			if((size_t)i + 1 < n)
				dst[i] = SRC[i];
		dst[(size_t)len < n ? (size_t)len : n - 1] = 0;
	}
	return len;
}
#endif
#ifdef STRBUF_PROVIDE_PRNF
int vfptrprnf(void(*out)(void*, char), void* vars, const char* fmt, va_list va)
{
	fmt_calls++;
	int a = va_arg(va, int);
	VASSERT(a == arg_given && fmt[0] == '%', "the formatter gets the format and arguments");
	for(int i = 0; i < text_len; i++)
		out(vars, SRC[i]);
	return text_len;
}
#endif
static int fetch_ret, fetch_cap, fetch_calls;
static char* fetch_dst;
static int fetcher(void* dst, int n, void* vars)
{
	fetch_calls++;
	VASSERT(vars == &fetch_ret, "the fetcher gets its variables");
	VASSERT(n == fetch_cap, "the fetcher is offered the free space");
	VASSERT(dst == fetch_dst, "right after the content");
	for(int i = 0; i < n; i++)
		((char*)dst)[i] = SRC[i];	/* it may use all of what it was offered */
	return fetch_ret;
}

#if OP == PRINTF
	#define CALL strbuf_printf
#elif OP == APPEND_PRINTF
	#define CALL strbuf_append_printf
#elif OP == PRNF
	#define CALL strbuf_prnf
#elif OP == APPEND_PRNF
	#define CALL strbuf_append_prnf
#endif
#define APPENDS (OP == APPEND_PRINTF || OP == APPEND_PRNF)

static void body(int s, int n)
{
	static char ref[CAP + SN + 1];
	int size = s;
	strbuf_t* b = nd_buf(s, ref);
	strview_t r;
	nd_bytes(SRC, SN + 1);
	cur = b;
	fmt_calls = fetch_calls = 0;
	#if OP == FETCH
		fetch_ret = n;
		fetch_cap = CAP - s;
		fetch_dst = b->cstr + s;
		r = strbuf_append_using(&b, fetcher, &fetch_ret);
		VASSERT(fetch_calls == 1, "the fetcher is called once");
		bool ok = 0 <= n && n <= CAP - s;
		if(ok)
			for(int i = 0; i < n; i++)
				ref[size++] = SRC[i];
		else
			size = 0;
		GASSERT(G_CONTENT, ok == !!r.data, "the view returned is valid unless the fetcher misbehaved");
	#else
		text_len = n;
		arg_given = (int)nd_raw();
		r = CALL(&b, "%i", arg_given);
		VASSERT(fmt_calls > 0, "the formatter is called");
		if(!APPENDS || n < 0)
			size = 0;
		for(int i = 0; i < n; i++)
			ref[size++] = SRC[i];
		GASSERT(G_CONTENT, r.data, "a view of the content is returned");
	#endif
	GASSERT(G_WELLFORMED, b != NULL, "the buffer exists");
	#if FIXED
		check_fixed(b);
		check_wellformed(b, HDR + CAP + 1, r);
		check_content(b, ref, size <= CAP ? size : 0);
	#else
		int at = check_live(b);
		check_wellformed(b, blk[at].size, r);
		check_content(b, ref, size);
		if(n >= 0)
			GASSERT(G_CAPACITY, b->capacity == (size <= CAP ? CAP : ref_round(size)),
				"the capacity is left alone if sufficient and otherwise a multiple of the step");
	#endif
	mem_check();
	end_buf(&b);
}

void h_fmt(void)
{
	for(int s = SLO; s <= SHI; s++)
	{
		#if OP == FETCH
			for(int n = -2; n <= CAP - s + 2; n++)
				body(s, n);
			body(s, INT_MIN);
			body(s, INT_MAX);
			body(s, CAP + 1);
		#elif OP == PRINTF || OP == APPEND_PRINTF
			for(int n = FAIL_SECOND; n <= SN; n++)
				body(s, n);
		#else
			for(int n = 0; n <= SN; n++)
				body(s, n);
		#endif
	}
	VREACH("all done");
}
