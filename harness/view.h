/* view.h - arbitrary views and reference definitions shared by the harnesses */
#ifndef VERIF_VIEW_H
#define VERIF_VIEW_H
#include "verif.h"
#include "strview.h"

/* PLACE: where an arbitrary view lies in the object that holds it
	0  with a margin of arbitrary bytes on both sides (they must not influence anything)
	1  first byte of the view is the first of the object
	2  last byte of the view is the last of the object
   With 1 and 2 a read past that side of the view is a read outside of the object. */
#ifndef PLACE
	#define PLACE 0
#endif
#define MARGIN (PLACE == 0 ? 2 : 0)
#define OBJ(n) ((n) + 2*MARGIN)

static inline void nd_fill(char* a, int n)
{
	for(int i = 0; i < n; i++)
		a[i] = nd_char();
}

/* an arbitrary view of lo..n arbitrary bytes in the object a of OBJ(n) bytes */
static inline strview_t nd_view_in(char* a, int lo, int n)
{
	int size = lo == n ? n : (int)nd_range(lo, n);
	nd_fill(a, OBJ(n));
	return (strview_t){.data = PLACE == 2 ? a + (n - size) : a + MARGIN, .size = size};
}
#define nd_view(a, n) nd_view_in(a, 0, n)

/* as nd_view(), or the invalid view */
static inline strview_t nd_view_or_invalid(char* a, int n)
{
	strview_t v = nd_view(a, n);
	if(nd_bool())
		v = STRVIEW_INVALID;
	return v;
}

/* an arbitrary window into the n bytes at a (content left as it is) */
static inline strview_t nd_window(const char* a, int n)
{
	int begin = (int)nd_range(0, n);
	int size = (int)nd_range(0, n);
	VASSUME(size <= n - begin);
	return (strview_t){.data = a + begin, .size = size};
}

/* an arbitrary terminated string of up to n characters in the object a of n+1 bytes; it ends at the
   end of the object with PLACE 2 */
static inline const char* nd_cstr(char* a, int n)
{
	nd_fill(a, n);
	a[n] = 0;
	return a;
}

static inline bool same_view(strview_t a, strview_t b) { return a.data == b.data && a.size == b.size; }
static inline bool is_invalid(strview_t v) { return v.data == NULL && v.size == 0; }
/* r lies within src */
static inline bool within(strview_t r, strview_t src)
{
	return r.size >= 0 && src.size >= 0 && r.size <= src.size && (r.data == src.data
		|| (r.data - src.data >= 0 && r.data - src.data <= src.size - r.size));
}
/* offset of r within src */
static inline int off(strview_t r, strview_t src) { return (int)(r.data - src.data); }

/* reference case folding: C locale */
static inline int ref_up(char c)
{
	unsigned char u = (unsigned char)c;
	return (u >= 'a' && u <= 'z') ? u - 32 : u;
}
static inline bool ref_eq_char(char a, char b, bool nocase)
{
	return nocase ? ref_up(a) == ref_up(b) : a == b;
}
/* is b found at a; max: an upper bound of n */
static inline bool ref_eq(const char* a, const char* b, int n, int max, bool nocase)
{
	bool eq = true;
	for(int i = 0; i < max; i++)
		if(i < n && !ref_eq_char(a[i], b[i], nocase))
			eq = false;
	return eq;
}
static inline bool ref_in_set(strview_t set, int max, char c)
{
	bool in = false;
	for(int i = 0; i < max; i++)
		if(i < set.size && set.data[i] == c)
			in = true;
	return in;
}
/* is c in the C string set of at most max characters */
static inline bool ref_in_cset(const char* set, int max, char c)
{
	bool in = false, end = false;
	for(int i = 0; i < max; i++)
	{
		if(!set[i])
			end = true;
		if(!end && set[i] == c)
			in = true;
	}
	return in;
}
static inline int ref_strlen(const char* s, int max)
{
	int n = max;
	for(int i = max - 1; i >= 0; i--)
		if(!s[i])
			n = i;
	return n;
}
#endif
