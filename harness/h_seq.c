/* h_seq.c - sequences of operations on one or two buffers against the same edits of an ordinary string (B18). Which
   operations and the sizes are enumerated, the content of the buffers and sources is symbolic. */
#define REUSE 1
#include "buf.h"
#include <stdio.h>
#ifndef FIRST
	#define FIRST 0		/* the first operation */
#endif
#ifndef LEN
	#define LEN 2		/* operations in a sequence */
#endif
#ifndef START
	#define START 2		/* bytes of content before the first one */
#endif
#ifndef TWO
	#define TWO 0		/* 1: the operations alternate between two buffers */
#endif
#define SMAX (AK + 8)

typedef struct { strbuf_t* b; int cap; bool fixed; char ref[SMAX]; int size; } str_t;
static str_t A, B;

static int text_len;
int v_vsnprintf(char* dst, size_t n, const char* fmt, va_list va)
{
	(void)fmt;
	(void)va;
	for(int i = 0; i < text_len; i++)
		if((size_t)i + 1 < n)
			dst[i] = SRC[i];
	if(n)
		dst[(size_t)text_len < n ? (size_t)text_len : n - 1] = 0;
	return text_len;
}
static int fetcher(void* dst, int n, void* vars)
{
	(void)vars;
	if(n > 1) n = 1;
	if(n)
		*(char*)dst = SRC[0];
	return n;
}

static int clip(int v, int lo, int hi) { return v < lo ? lo : v > hi ? hi : v; }
/* splice n bytes of src into the reference; a fixed buffer which cannot hold the result is emptied */
static void ref_splice(str_t* s, int at, const char* src, int n)
{
	static char copy[SMAX];
	for(int i = 0; i < n; i++)
		copy[i] = src[i];
	if(s->fixed && s->size + n > s->cap)
	{
		s->size = 0;
		return;
	}
	for(int i = s->size - 1; i >= at; i--)
		s->ref[i + n] = s->ref[i];
	for(int i = 0; i < n; i++)
		s->ref[at + i] = copy[i];
	s->size += n;
}
static strview_t own(str_t* s, int from, int n) { return (strview_t){.data = s->b->cstr + from, .size = n}; }
static strview_t out(int n) { return (strview_t){.data = SRC, .size = n}; }

#define NOPS 16
static void apply(str_t* s, int op)
{
	char copy[SMAX];
	int n = s->size, mid = n/2;
	strview_t r = STRVIEW_INVALID;
	switch(op)
	{
		case 0:  r = strbuf_append(&s->b, out(3));			ref_splice(s, n, SRC, 3); break;
		case 1:  r = strbuf_prepend(&s->b, out(2));			ref_splice(s, 0, SRC, 2); break;
		case 2:  r = strbuf_insert_at_index(&s->b, 1, out(2));		ref_splice(s, clip(1, 0, n), SRC, 2); break;
		case 3:  r = strbuf_append(&s->b, own(s, 0, n));		ref_splice(s, n, s->ref, n); break;
		case 4:  r = strbuf_insert_at_index(&s->b, -1, own(s, mid, n - mid));	ref_splice(s, clip(n - 1, 0, n), s->ref + mid, n - mid); break;
		case 5:  r = strbuf_assign(&s->b, own(s, mid, n - mid));
			for(int i = mid; i < n; i++)
				s->ref[i - mid] = s->ref[i];
			s->size = n - mid;
			break;
		case 6:  r = strbuf_append_char(&s->b, SRC[0]);			ref_splice(s, n, SRC, 1); break;
		case 7:  r = strbuf_shrink(&s->b); break;
		case 8:  strbuf_grow(&s->b, n + 2); r = strbuf_view(&s->b); break;
		case 9:
			if(s->fixed)
			{
				r = strbuf_cat(&s->b, out(1), out(3));
				s->size = 0;
				ref_splice(s, 0, SRC, 1);
				if(s->size) ref_splice(s, 1, SRC, 3);
			}
			else
			{
				r = strbuf_cat(&s->b, own(s, mid, n - mid), out(1), own(s, 0, mid));
				for(int i = 0; i < n; i++)
					copy[i] = s->ref[i];
				s->size = 0;
				ref_splice(s, 0, copy + mid, n - mid);
				ref_splice(s, s->size, SRC, 1);
				ref_splice(s, s->size, copy, mid);
			}
			break;
		case 10: text_len = 2; r = strbuf_append_printf(&s->b, "x");	ref_splice(s, n, SRC, 2); break;
		case 11: text_len = 3; r = strbuf_printf(&s->b, "x");		s->size = 0; ref_splice(s, 0, SRC, 3); break;
		case 12:
			copy[0] = SRC[0];
			text_len = s->b->capacity > n;
			r = strbuf_append_using(&s->b, fetcher, NULL);
			ref_splice(s, n, copy, text_len);
			break;
		case 13: r = strbuf_insert_after(&s->b, own(s, 0, mid), out(2));	ref_splice(s, mid, SRC, 2); break;
		case 14: r = strbuf_assign(&s->b, out(2));			s->size = 0; ref_splice(s, 0, SRC, 2); break;
		case 15: r = strbuf_prepend(&s->b, own(s, mid, n - mid));	ref_splice(s, 0, s->ref + mid, n - mid); break;
	}
	VASSERT(r.data == s->b->cstr && r.size == s->b->size, "the view returned is the content");
}
static void check(str_t* s)
{
	VASSERT(s->b->size == s->size, "size after the sequence");
	if(s->b->size == s->size)
		for(int i = 0; i < s->size; i++)
			VASSERT(s->b->cstr[i] == s->ref[i], "content after the sequence");
	VASSERT(s->b->size >= 0 && s->b->size <= s->b->capacity && s->b->cstr[s->b->size] == 0, "well formed after the sequence");
	if(s->fixed)
		VASSERT(s->b == &FIXED_SPACE.buf && s->b->capacity == s->cap, "a fixed buffer stays where it is");
	else
	{
		int at = blk_find(s->b);
		VASSERT(at >= 0, "a live block");
		VASSUME(at >= 0);
		VASSERT(HDR + (size_t)s->b->capacity + 1 <= blk[at].size, "capacity within the allocation");
	}
}
static void start(str_t* s, bool fixed, int size)
{
	s->fixed = fixed;
	s->cap = CAP;
	if(fixed)
	{
		s->b = strbuf_create_fixed(&FIXED_SPACE, HDR + CAP + 1);
		VASSERT(s->b == &FIXED_SPACE.buf && s->b->capacity == CAP && s->b->size == 0 && !s->b->allocator.allocator, "created");
		s->b = &FIXED_SPACE.buf;	/* no effect, see new_buf() */
		s->b->capacity = CAP;
		s->b->allocator.allocator = NULL;
	}
	else
		s->b = strbuf_create_empty(CAP, &v_allocator);
	nd_bytes(s->b->cstr, CAP + 1);
	for(int i = 0; i < size; i++)
		s->ref[i] = s->b->cstr[i];
	s->b->cstr[size] = 0;
	s->b->size = s->size = size;
}

static void sequence(int* op)
{
	mem_reset();
	start(&A, FIXED, START);
	#if TWO
		start(&B, false, START);
	#endif
	for(int i = 0; i < LEN; i++)
	{
		nd_bytes(SRC, SN);
		apply(TWO && i % 2 ? &B : &A, op[i]);
		check(&A);
		#if TWO
			check(&B);
		#endif
	}
	VASSERT(n_live == !FIXED + TWO, "each dynamic buffer has one block");
	strbuf_destroy(&A.b);
	#if TWO
		check(&B);
		strbuf_destroy(&B.b);
	#endif
	VASSERT(n_live == 0, "nothing remains");
	mem_check();
}

void h_seq(void)
{
	int op[3] = {FIRST, 0, 0};
	for(op[1] = 0; op[1] < NOPS; op[1]++)
	#if LEN > 2
		for(op[2] = 0; op[2] < NOPS; op[2]++)
	#endif
			sequence(op);
	VREACH("all done");
}
