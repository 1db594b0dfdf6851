/* h_buf.c - operations which splice a source into a buffer (B01-B04, B06-B08, B17).
   Sizes, offsets and indexes are enumerated by loops, so that the symbolic execution knows them;
   the content of buffer and source, and what lies behind, is symbolic. */
#include "buf.h"
#ifndef SELF
	#define SELF 0	/* 1: the source is a view within the buffer */
#endif
/* ELSEWHERE 1..6: the place to insert is none within the content (see body()). How such a pointer compares with those of
   the buffer is not known to symbolic execution, so these are queries of their own. */
/* OP */
#define APPEND		0
#define PREPEND		1
#define INSERT		2
#define ASSIGN		3
#define APPEND_CHAR	4
#define BEFORE		5
#define AFTER		6
#ifndef OP
	#define OP APPEND
#endif
#ifndef CSTR
	#define CSTR 0
#endif
#define MAX (CAP + (SELF ? CAP : SN))

/* ref[0..size) with the n bytes of src inserted at at; returns the new size */
static int splice(char* ref, int size, int at, const char* src, int n)
{
	for(int i = size - 1; i >= at; i--)
		ref[i + n] = ref[i];
	for(int i = 0; i < n; i++)
		ref[at + i] = src[i];
	return size + n;
}

/* one operation on a buffer of s bytes with a source of n bytes (n < 0: the invalid view) which, with SELF,
   starts at from; the place is the index given or a view which starts or ends at that place */
static void body(int s, int n, int from, int index, int rest)
{
	static char ref[2*MAX + 1], copy[MAX + 1];
	int size = s, at = 0;
	strbuf_t* b = nd_buf(s, ref);
	strview_t v = STRVIEW_INVALID, r = STRVIEW_INVALID;

	#if SELF
		v = (strview_t){.data = b->cstr + from, .size = n};
	#else
		(void)from;
		nd_bytes(SRC, SN + 1);
		if(n >= 0)
			v = (strview_t){.data = SRC, .size = n};
		#if CSTR
			for(int i = 0; i < n; i++)
				SRC[i] = (char)(0x81 + i);	/* known, so that its length is */
			SRC[n < 0 ? 0 : n] = 0;
		#endif
	#endif
	int nn = n < 0 ? 0 : n;
	for(int i = 0; i < nn; i++)
		copy[i] = v.data[i];

	#if CSTR
		#define ARG ((const char*)v.data)
	#else
		#define ARG v
	#endif
	#if OP == APPEND
		r = strbuf_append(&b, ARG);
		at = s;
	#elif OP == PREPEND
		r = strbuf_prepend(&b, ARG);
	#elif OP == INSERT
		at = index >= 0 ? (index > s ? s : index) : (index < -s ? 0 : s + index);
		r = strbuf_insert_at_index(&b, index, ARG);
	#elif OP == ASSIGN
		r = strbuf_assign(&b, v);
		size = 0;
	#elif OP == APPEND_CHAR
		copy[0] = SRC[0];
		r = strbuf_append_char(&b, SRC[0]);
		nn = 1;
		at = s;
	#else
		/* index is the edge, rest the size of the view; index < 0: a view that is not one of the content */
		strview_t pos = {.data = b->cstr + (OP == AFTER ? index - rest : index), .size = rest};
		at = index;
		if(index < 0)
		{
			if(index == -1)
				pos = STRVIEW_INVALID;
			else if(index == -2)
				pos = (strview_t){.data = SRC, .size = rest};
			else if(index == -3)	/* within the capacity, behind the content */
				pos = (strview_t){.data = b->cstr + s + 1, .size = 0};
			else if(index == -4)	/* in front of the content */
				pos = (strview_t){.data = b->cstr - 4, .size = OP == AFTER ? 3 : 8};
			else if(index == -5)	/* from within the content to behind it */
				pos = (strview_t){.data = b->cstr + s/2, .size = s - s/2 + 1};
			else			/* from in front of the content into it */
				pos = (strview_t){.data = b->cstr - 4, .size = 4 + s/2};
			if(OP == BEFORE ? index == -5 : index == -6)
				at = s/2;
			else
				at = nn = 0;
		}
		r = OP == BEFORE ? strbuf_insert_before(&b, pos, ARG) : strbuf_insert_after(&b, pos, ARG);
	#endif
	size = splice(ref, size, at, copy, nn);
	check_result(b, ref, size, r);
	end_buf(&b);
}

/* all places of an operation on a buffer of s bytes with a source of n bytes */
static void places(int s, int n, int from)
{
	#if OP == INSERT && defined(FEW)
		body(s, n, from, 0, 0);
		body(s, n, from, s/2, 0);
		body(s, n, from, s + 1, 0);
		body(s, n, from, -1, 0);
		body(s, n, from, INT_MIN, 0);
	#elif OP == INSERT && defined(ANYINDEX)
		body(s, n, from, nd_int(), 0);
	#elif OP == INSERT
		for(int i = -s - 2; i <= s + 2; i++)
			body(s, n, from, i, 0);
		body(s, n, from, INT_MIN, 0);
		body(s, n, from, INT_MAX, 0);
	#elif defined(ELSEWHERE)
		body(s, n, from, -ELSEWHERE, ELSEWHERE == 2);
	#elif (OP == BEFORE || OP == AFTER) && defined(FEW)
		body(s, n, from, 0, 0);
		body(s, n, from, s, OP == AFTER ? s : 0);
		body(s, n, from, s/2, OP == AFTER ? s/2 : s - s/2);
	#elif OP == BEFORE || OP == AFTER
		for(int i = 0; i <= s; i++)
			for(int rest = 0; rest <= (OP == AFTER ? i : s - i); rest++)
				body(s, n, from, i, rest);
	#else
		body(s, n, from, 0, 0);
	#endif
}

#ifndef SLO
	#define SLO 0
#endif
#ifndef SHI
	#define SHI CAP
#endif
#ifndef NLO
	#define NLO -1
#endif
void h_splice(void)
{
	#ifdef LIST
	/* the calls listed: size, source size, where the source starts, index, size of the view at that index */
	static const int list[][5] = { LIST };
	for(int i = 0; i < (int)(sizeof list/sizeof list[0]); i++)
		body(list[i][0], list[i][1], list[i][2], list[i][3], list[i][4]);
	#else
	for(int s = SLO; s <= SHI; s++)
	{
	#if SELF
		for(int n = 0; n <= s; n++)
			for(int from = 0; from <= s - n; from++)
				places(s, n, from);
	#elif OP == APPEND_CHAR
		places(s, 0, 0);
	#else
		for(int n = NLO; n <= SN; n++)
			places(s, n, 0);
	#endif
	}
	#endif
	VREACH("all done");
}
