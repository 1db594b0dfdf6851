/* h_long.c - long views (V01, V03-V10, V13, V15, V16): LN bytes, all of them known but a window of WN symbolic ones at
   the far end of the search, so that symbolic execution follows the loops up to there without help of the solver.
   What is decided here is that the functions do not depend on sizes being small. */
#include "view.h"
#ifndef LN
	#define LN 259
#endif
#ifndef WN
	#define WN 3
#endif
#ifndef LAST
	#define LAST 0
#endif
#ifndef NOCASE
	#define NOCASE 0
#endif

static char a[LN + 1], b[LN + 1];

/* n bytes of c, those at w..w+WN symbolic */
static void fill(char* p, int n, char c, int w)
{
	for(int i = 0; i < n; i++)
		p[i] = w <= i && i < w + WN ? nd_char() : c;
}
static strview_t view(const char* p, int n) { return (strview_t){.data = p, .size = n}; }

void h_long_find(void)
{
	char n[2] = {'b', nd_char()};
	int w = LAST ? 0 : LN - WN, at = -1;
	fill(a, LN, 'a', w);
	strview_t h = view(a, LN), d = view(n, 2);
	strview_t r = LAST ? NOCASE ? strview_find_last_nocase(h, d) : strview_find_last(h, d)
		: NOCASE ? strview_find_first_nocase(h, d) : strview_find_first(h, d);
	for(int i = 0; i <= WN; i++)
	{
		int k = LAST ? i : LN - 1 - i;		/* the last byte before or after the window cannot begin an occurrence */
		if(k + 1 < LN && ref_eq(a + k, n, 2, 2, NOCASE))
			at = k;
	}
	VASSERT(at < 0 ? is_invalid(r) : r.data == a + at && r.size == 2, "the first/last occurrence is found in a long view");
	#if !LAST
		VASSERT((NOCASE ? strview_contains_nocase(h, d) : strview_contains(h, d)) == (at >= 0), "contains, in a long view");
	#endif
	VREACH_IF(at == (LAST ? 0 : LN - 2), "found at the far end");
}
/* a long needle, in a haystack one longer */
void h_long_needle(void)
{
	fill(a, LN + 1, 'a', LN + 1 - WN);
	fill(b, LN, 'a', LN - WN);
	strview_t h = view(a, LN + 1), d = view(b, LN);
	bool eq[2];
	for(int k = 0; k < 2; k++)
		eq[k] = ref_eq(a + k, b, LN, LN, NOCASE);
	int at = LAST ? eq[1] ? 1 : eq[0] ? 0 : -1 : eq[0] ? 0 : eq[1] ? 1 : -1;
	strview_t r = LAST ? NOCASE ? strview_find_last_nocase(h, d) : strview_find_last(h, d)
		: NOCASE ? strview_find_first_nocase(h, d) : strview_find_first(h, d);
	VASSERT(at < 0 ? is_invalid(r) : r.data == a + at && r.size == LN, "first/last occurrence of a long needle");
	VREACH_IF(at == (LAST ? 0 : 1), "at the far end only");
	VREACH_IF(at < 0, "no occurrence");
}
/* views equal but for a window at the end (WHERE 0), the start (1) or the middle (2) */
#ifndef WHERE
	#define WHERE 0
#endif
void h_long_match(void)
{
	const int w = WHERE == 0 ? LN - 1 - WN : WHERE == 1 ? 0 : LN/2;
	fill(a, LN, 'a', w);
	fill(b, LN, 'a', w);
	bool eq = ref_eq(a + w, b + w, WN, WN, false), eqn = ref_eq(a + w, b + w, WN, WN, true);
	int r0 = 0;
	for(int i = w + WN - 1; i >= w; i--)
		if(a[i] != b[i])
			r0 = (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1;
	for(int n = LN - 1; n <= LN; n++)
	{
		strview_t x = view(a, LN), y = view(b, n);
		VASSERT(strview_is_match(x, y) == (eq && n == LN), "is_match, long");
		VASSERT(strview_is_match_nocase(x, y) == (eqn && n == LN), "is_match_nocase, long");
		VASSERT(strview_starts_with(x, y) == eq, "starts_with, long");
		VASSERT(strview_starts_with_nocase(x, y) == eqn, "starts_with_nocase, long");
		VASSERT(strview_starts_with(y, x) == (eq && n == LN), "starts_with, longer");
	}
	VREACH_IF(eq, "equal");
	VREACH_IF(!eqn, "different");
}
void h_long_compare(void)
{
	const int w = WHERE == 0 ? LN - 1 - WN : WHERE == 1 ? 0 : LN/2;
	fill(a, LN, 'a', w);
	fill(b, LN, 'a', w);
	int r0 = 0;
	for(int i = w + WN - 1; i >= w; i--)
		if(a[i] != b[i])
			r0 = (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1;
	for(int n = LN - 1; n <= LN; n++)
	{
		strview_t x = view(a, LN), y = view(b, n);
		int r = r0 ? r0 : n < LN, c = strview_compare(x, y), d = strview_compare(y, x);
		VASSERT((c > 0) - (c < 0) == r && (d > 0) - (d < 0) == -r, "compare, long");
	}
	VREACH_IF(r0 == 0, "equal");
	VREACH_IF(r0 == 1, "greater");
	/* and by sizes which differ by about a multiple of 256 */
	for(int i = 0; i < LN; i++)
		a[i] = b[i] = 'a';
	for(int n = LN - 255; n >= LN - 257 && n > 0; n--)
	{
		VASSERT(strview_compare(view(a, LN), view(b, n)) > 0 && strview_compare(view(a, n), view(b, LN)) < 0, "compare with a much shorter one");
		VASSERT(!strview_is_match(view(a, LN), view(b, n)) && !strview_is_match_nocase(view(a, n), view(b, LN)), "is_match with a much shorter one");
	}
}
#ifndef END
	#define END 0	// with -DWN=2
#endif
/* END 0: trim_start, 1: trim_end, 2 and 3: trim, of LN-2 characters to trim, and two arbitrary ones at the end/start */
void h_long_trim(void)
{
	const char* set = "\tb ";
	const int w = END % 2 ? 0 : LN - 2;
	fill(a, LN, ' ', w);
	bool in[2];
	for(int i = 0; i < 2; i++)
		in[i] = a[w + i] == '\t' || a[w + i] == 'b' || a[w + i] == ' ';
	int first = !in[0] ? 0 : !in[1] ? 1 : 2, last = !in[1] ? 2 : !in[0] ? 1 : 0;
	strview_t v = view(a, LN);
	if(END == 0)
	{
		strview_t r = strview_trim_start(v, set);
		VASSERT(r.size == 2 - first && r.data && within(r, v) && (!r.size || r.data == a + w + first), "trim_start, long");
	}
	else if(END == 1)
	{
		strview_t r = strview_trim_end(v, set);
		VASSERT(r.size == last && r.data && within(r, v) && (!last || r.data == a), "trim_end, long");
	}
	else
	{
		strview_t t = strview_trim(v, set);
		if(last)
			VASSERT(t.data == a + w + first && t.size == last - first, "trim, long");
		else
			VASSERT(t.data && t.size == 0 && within(t, v), "trim to nothing, long");
	}
	VREACH_IF(in[0] && !in[1], "one left");
	VREACH_IF(in[0] && in[1], "nothing left");
}
/* a long set: the only characters in it that may be in the view are the last ones */
void h_long_set(void)
{
	char v[2] = {nd_char(), nd_char()};
	bool in[2] = {false, false};
	fill(b, LN, 'a', LN - WN);
	for(int i = 0; i < LN; i++)
		for(int k = 0; k < 2; k++)
			if(b[i] == v[k])
				in[k] = true;
	strview_t s = view(b, LN), r = strview_trim_start(view(v, 2), s), e = strview_trim_end(view(v, 2), s);
	VASSERT(r.size == (in[0] ? in[1] ? 0 : 1 : 2), "trim_start with a long set");
	VASSERT(e.size == (in[1] ? in[0] ? 0 : 1 : 2), "trim_end with a long set");
	VREACH_IF(in[0] && !in[1], "one trimmed");
}
void h_long_split(void)
{
	const int last = LAST;
	for(int quotes = 0; quotes <= 1; quotes++)
	{
		int w = last ? 0 : LN - WN, at = -1;
		bool inq = false;
		fill(a, LN, 'a', w);
		strview_t v = view(a, LN), src = v;
		strview_t r = last ? strview_split_last_delim(&src, ";,", quotes) : strview_split_first_delim(&src, ";,", quotes);
		for(int i = 0; i < WN; i++)
		{
			int k = w + (last ? WN - 1 - i : i);
			inq ^= a[k] == '"' && quotes;
			if(at < 0 && !inq && (a[k] == ',' || a[k] == ';'))
				at = k;
		}
		if(at < 0)
			VASSERT(same_view(r, v) && is_invalid(src), "no delimiter in a long view");
		else
		{
			strview_t left = last ? src : r, right = last ? r : src;
			VASSERT(left.data == a && left.size == at, "what precedes the delimiter in a long view");
			VASSERT(right.size == LN - at - 1 && right.data && within(right, v) && (!right.size || right.data == a + at + 1), "what follows the delimiter in a long view");
		}
		VREACH_IF(at == (last ? 0 : LN - 1), "delimiter at the far end");
	}
}
/* more fields than an 8 bit counter holds: LN-1 delimiters, then any byte; an array of DN elements */
#ifndef DN
	#define DN LN
#endif
void h_long_split_all(void)
{
	static strview_t dst[LN + 3];
	fill(a, LN, ',', LN - 1);
	a[LN - 1] = nd_char();
	const bool one_more = a[LN - 1] == ',';
	strview_t v = view(a, LN);
	const strview_t mark = {.data = a, .size = -5};
	for(int i = 0; i < LN + 3; i++)
		dst[i] = mark;
	int n = strview_split_all(DN, dst, v, ",", false);
	VASSERT(n == (DN < LN ? DN : DN == LN ? LN : LN + one_more), "the number of fields, of many");
	for(int i = 0; i < LN - 1 && i < DN; i++)
		VASSERT(dst[i].size == 0 && dst[i].data && within(dst[i], v), "an empty field, of many");
	if(DN >= LN)
	{
		VASSERT(dst[LN - 1].data == a + LN - 1 && dst[LN - 1].size == !one_more, "the field after the last known delimiter");
		if(DN > LN && one_more)
			VASSERT(dst[LN].size == 0 && dst[LN].data && within(dst[LN], v), "the empty field at the end");
	}
	for(int i = DN < LN ? DN : LN; i < LN + 3; i++)
		if(i >= DN || !(i == LN && one_more))
			VASSERT(same_view(dst[i], mark), "elements beyond the count are not touched");
	VREACH_IF(one_more, "a delimiter at the end");
	VREACH_IF(!one_more, "none at the end");
}
void h_long_line(void)
{
	for(int e = 0; e <= 2; e++)
	{
		char eol0 = e == 0 ? 0 : e == 1 ? '\r' : '\n', eol = eol0;
		fill(a, LN, 'a', LN - WN);
		strview_t v = view(a, LN), src = v;
		strview_t r = strview_split_line(&src, &eol);
		int at = -1;
		for(int i = LN - 1; i >= LN - WN; i--)
			if(a[i] == '\r' || a[i] == '\n')
				at = i;
		if(at < 0)
			VASSERT(is_invalid(r) && same_view(src, v) && eol == eol0, "no terminator in a long view");
		else
		{
			bool pair = at + 1 < LN && a[at+1] == (a[at] == '\r' ? '\n' : '\r');
			VASSERT(r.data == a && r.size == at, "the line, long");
			VASSERT(src.data && src.size == LN - at - 1 - pair && within(src, v), "the line and its terminator are removed, long");
			VASSERT(eol == (pair ? 0 : a[at]), "the discriminator, long");
		}
		VREACH_IF(at == LN - 1, "terminator at the end");
		VREACH_IF(at == LN - 3, "terminator earlier");
	}
}
void h_long_dequote(void)
{
	/* both ends of quotes, and a window in the middle, before it or behind it */
	for(int place = 0; place < 3; place++)
	{
		int w = place == 0 ? LN/2 - 1 : place == 1 ? LN/2 - 4 : LN/2 + 3, n = 0;
		fill(a, LN, '\'', w);
		bool more = true;
		for(int i = 0; i < LN/2; i++)
		{
			if(a[i] != '\'' || a[LN-1-i] != '\'')
				more = false;
			if(more)
				n = i + 1;
		}
		strview_t r = strview_dequote(view(a, LN));
		VASSERT(r.size == LN - 2*n && (!r.size || r.data == a + n), "many levels of quotes");
		VREACH_IF(r.size == 1, "all removed");
		VREACH_IF(r.size > 1, "some removed");
	}
}
void h_long_cstr(void)
{
	static char dst[LN + 2];
	fill(a, LN, 'a', LN - WN);
	a[LN] = 0;
	strview_t c = cstr(a);
	int len = LN;
	for(int i = LN - 1; i >= LN - WN; i--)
		if(!a[i])
			len = i;
	VASSERT(c.data == a && c.size == len, "cstr of a long string");
	VREACH_IF(len == LN, "cstr");
	for(int cap = LN - 3; cap <= LN + 2; cap++)
	{
		for(int i = 0; i < LN + 2; i++)
			dst[i] = 'x';
		VASSERT(strview_to_cstr(dst, cap, view(a, LN)) == dst, "returns dst");
		int n = cap - 1 < LN ? cap - 1 : LN;
		for(int i = 0; i < LN + 2; i++)
			VASSERT(dst[i] == (i < n ? a[i] : i == n ? 0 : 'x'), "a long view, terminated, and nothing beyond");
	}
	VREACH("done");
}
