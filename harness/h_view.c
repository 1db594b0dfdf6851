/* h_view.c - strview functions that look at content (V01, V03-V10, V13, V15, V16) */
#include "view.h"
#ifndef HN
	#define HN 5	/* source bytes */
#endif
#ifndef HLO
	#define HLO 0	/* at least */
#endif
#ifndef NN
	#define NN 2	/* needle, set, second view */
#endif
#ifndef NLO
	#define NLO 0
#endif
#ifndef NOCASE
	#define NOCASE 0
#endif
#ifndef LAST
	#define LAST 0
#endif
#ifndef CSTR
	#define CSTR 0
#endif
#ifndef QUOTES
	#define QUOTES 0
#endif

/* ---- V04, V05: find_first, find_last */
void h_find(void)
{
	static char h[OBJ(HN)], n[OBJ(NN) + 1];
	strview_t hay = nd_view_in(h, HLO, HN);
	strview_t needle, r;
	const char* c = NULL;

	#if CSTR
		c = nd_cstr(n, NN);
		needle = (strview_t){.data = c, .size = ref_strlen(c, NN)};
		r = LAST ? (NOCASE ? strview_find_last_nocase(hay, c) : strview_find_last(hay, c))
			 : (NOCASE ? strview_find_first_nocase(hay, c) : strview_find_first(hay, c));
	#else
		(void)c;
		needle = nd_view_in(n, NLO, NN);
		r = LAST ? (NOCASE ? strview_find_last_nocase(hay, needle) : strview_find_last(hay, needle))
			 : (NOCASE ? strview_find_first_nocase(hay, needle) : strview_find_first(hay, needle));
	#endif

	int expect = -1;
	for(int i = 0; i <= HN; i++)
	{
		int at = LAST ? i : HN - i;
		if(at + needle.size <= hay.size && ref_eq(hay.data + at, needle.data, needle.size, NN, NOCASE))
			expect = at;
	}
	if(expect < 0)
	{
		VASSERT(is_invalid(r), "a needle that does not occur gives an invalid view");
		#if NN > 0
		VREACH("not found");
		#endif
	}
	else
	{
		VASSERT(r.data == hay.data + expect, "the first/last occurrence is found");
		VASSERT(r.size == needle.size, "the result has the size of the needle");
		VREACH("found");
		VREACH_IF(hay.size == HN && expect == HN - NN && needle.size == NN, "found at the end");
	}
}

void h_find_invalid(void)
{
	static char h[OBJ(HN)], n[OBJ(NN)];
	strview_t hay = nd_view_or_invalid(h, HN);
	strview_t needle = nd_view_or_invalid(n, NN);
	VASSUME(!hay.data || !needle.data);
	VASSERT(is_invalid(strview_find_first(hay, needle)), "find_first with an invalid view");
	VASSERT(is_invalid(strview_find_first_nocase(hay, needle)), "find_first_nocase with an invalid view");
	VASSERT(is_invalid(strview_find_last(hay, needle)), "find_last with an invalid view");
	VASSERT(is_invalid(strview_find_last_nocase(hay, needle)), "find_last_nocase with an invalid view");
	VASSERT(is_invalid(strview_find_first(hay, (const char*)NULL)), "find_first of NULL");
	VASSERT(is_invalid(strview_find_last(hay, (const char*)NULL)), "find_last of NULL");
	VASSERT(is_invalid(strview_find_first_nocase(hay, (const char*)NULL)), "find_first_nocase of NULL");
	VASSERT(is_invalid(strview_find_last_nocase(hay, (const char*)NULL)), "find_last_nocase of NULL");
	VREACH_IF(hay.data, "valid haystack");
	VREACH_IF(needle.data, "valid needle");
}

/* ---- V06 */
void h_match(void)
{
	static char a[OBJ(HN)], b[OBJ(HN) + 1];
	strview_t x = nd_view_or_invalid(a, HN), y;
	bool m, s;
	#if CSTR
		char* c = b;
		nd_cstr(b, HN);
		y = (strview_t){.data = c, .size = ref_strlen(c, HN)};
		if(nd_bool())
		{
			c = NULL;
			y = STRVIEW_INVALID;
		}
		m = NOCASE ? strview_is_match_nocase(x, c) : strview_is_match(x, c);
		s = NOCASE ? strview_starts_with_nocase(x, c) : strview_starts_with(x, c);
	#else
		y = nd_view_or_invalid(b, HN);
		m = NOCASE ? strview_is_match_nocase(x, y) : strview_is_match(x, y);
		s = NOCASE ? strview_starts_with_nocase(x, y) : strview_starts_with(x, y);
	#endif
	bool both = x.data && y.data;
	bool prefix = both && y.size <= x.size && ref_eq(x.data, y.data, y.size, HN, NOCASE);
	VASSERT(m == (both ? prefix && x.size == y.size : !x.data && !y.data), "is_match decides by content");
	if(both)
		VASSERT(s == prefix, "starts_with decides by content");
	else if(!y.data)
		VASSERT(s == !x.data, "starts_with an invalid view");
	else if(y.size)
		VASSERT(!s, "an invalid view starts with no content");
	VREACH_IF(both && m && x.size == HN, "match");
	VREACH_IF(both && s && !m && y.size, "proper prefix");
	VREACH_IF(both && !s && x.size == y.size && x.size == HN && x.data[HN-1] != y.data[HN-1] && x.data[0] == y.data[0], "no match");
	VREACH_IF(!x.data && y.data, "invalid first");
}

/* both views in the same memory */
void h_match_same(void)
{
	static char a[OBJ(HN)];
	strview_t v = nd_view_in(a, HN, HN);
	strview_t x = nd_window(v.data, HN), y = nd_window(v.data, HN);
	bool prefix = y.size <= x.size && ref_eq(x.data, y.data, y.size, HN, NOCASE);
	bool m = NOCASE ? strview_is_match_nocase(x, y) : strview_is_match(x, y);
	bool s = NOCASE ? strview_starts_with_nocase(x, y) : strview_starts_with(x, y);
	VASSERT(m == (prefix && x.size == y.size), "is_match decides by content");
	VASSERT(s == prefix, "starts_with decides by content");
	VREACH_IF(m && x.data != y.data && x.size == 2, "match of overlapping views");
	VREACH_IF(!m && x.data == y.data, "same start, other size");
}

void h_contains(void)
{
	static char h[OBJ(HN)], n[OBJ(NN)];
	strview_t hay = nd_view_or_invalid(h, HN);
	strview_t needle = nd_view_or_invalid(n, NN);
	bool expect = false;
	if(hay.data && needle.data)
		for(int i = 0; i <= HN; i++)
			if(i + needle.size <= hay.size && ref_eq(hay.data + i, needle.data, needle.size, NN, NOCASE))
				expect = true;
	VASSERT((NOCASE ? strview_contains_nocase(hay, needle) : strview_contains(hay, needle)) == expect, "contains");
	VREACH_IF(expect && needle.size == NN, "contained");
	VREACH_IF(!expect && needle.size == NN && hay.size == HN, "not contained");
}

/* ---- V07 */
static int sign(int x) { return (x > 0) - (x < 0); }
static int ref_compare(strview_t x, strview_t y)
{
	int r = x.size < y.size ? -1 : x.size > y.size;
	for(int i = HN - 1; i >= 0; i--)
		if(i < x.size && i < y.size && x.data[i] != y.data[i])
			r = (unsigned char)x.data[i] < (unsigned char)y.data[i] ? -1 : 1;
	return r;
}
void h_compare(void)
{
	static char a[OBJ(HN)], b[OBJ(HN)];
	strview_t x = nd_view_or_invalid(a, HN), y = nd_view_or_invalid(b, HN);
	int r = strview_compare(x, y);
	VASSERT(sign(r) == ref_compare(x, y), "the sign is that of the first difference, or of the sizes");
	VASSERT(sign(strview_compare(y, x)) == -sign(r), "swapping the arguments reverses the sign");
	VREACH_IF(x.size == HN && y.size == HN && x.data[HN-1] != y.data[HN-1] && r > 0 && x.data[0] == y.data[0], "differ late");
	VREACH_IF(r == 0 && x.size == HN, "equal");
	VREACH_IF(!x.data && r < 0, "invalid first");
}
void h_compare3(void)
{
	static char a[OBJ(HN)], b[OBJ(HN)], c[OBJ(HN)];
	strview_t x = nd_view(a, HN), y = nd_view(b, HN), z = nd_view(c, HN);
	int xy = strview_compare(x, y), yz = strview_compare(y, z), xz = strview_compare(x, z);
	VASSERT(!(xy <= 0 && yz <= 0) || xz <= 0, "transitive");
	VASSERT(!(xy < 0 && yz <= 0) || xz < 0, "transitive, strictly");
	VREACH_IF(xy < 0 && yz < 0, "chain");
}

/* ---- V03 */
#ifndef TRIM
	#define TRIM 2	/* 0 start 1 end 2 both */
#endif
void h_trim(void)
{
	static char a[OBJ(HN)], b[OBJ(NN) + 1];
	strview_t v = nd_view_in(a, HLO, HN);
	strview_t set, r;
	#if CSTR
		const char* c = nd_cstr(b, NN);
		set = (strview_t){.data = c, .size = ref_strlen(c, NN)};
		r = TRIM == 0 ? strview_trim_start(v, c) : TRIM == 1 ? strview_trim_end(v, c) : strview_trim(v, c);
	#else
		set = nd_view_in(b, NLO, NN);
		r = TRIM == 0 ? strview_trim_start(v, set) : TRIM == 1 ? strview_trim_end(v, set) : strview_trim(v, set);
	#endif
	int first = v.size, last = 0;		/* first, and one past the last, character outside of the set */
	for(int i = HN - 1; i >= 0; i--)
		if(i < v.size && !ref_in_set(set, NN, v.data[i]))
		{
			if(first == v.size)
				last = i + 1;
			first = i;
		}
	VASSERT(r.data && within(r, v), "the result lies within the source");
	if(first == v.size)
	{
		VASSERT(r.size == 0, "a source of nothing but trimmed characters becomes empty");
		VREACH("all trimmed");
	}
	else
	{
		int begin = TRIM == 1 ? 0 : first, end = TRIM == 0 ? v.size : last;
		VASSERT(r.data == v.data + begin, "trimmed at the start");
		VASSERT(r.size == end - begin, "trimmed at the end");
		VREACH_IF(begin > (TRIM == 1 ? -1 : 0) && end < v.size + (TRIM == 0 ? 1 : 0) && r.size == 2, "trimmed");
	}
	VREACH_IF(v.size == HN && set.size == 0, "empty set");
}
void h_trim_invalid(void)
{
	static char b[OBJ(NN)];
	strview_t set = nd_view(b, NN);
	strview_t v = STRVIEW_INVALID;
	VASSERT(is_invalid(strview_trim(v, set)), "trim of an invalid view");
	VASSERT(is_invalid(strview_trim_start(v, set)), "trim_start of an invalid view");
	VASSERT(is_invalid(strview_trim_end(v, set)), "trim_end of an invalid view");
	VREACH("done");
}

/* ---- V08, V09 */
static int ref_split(strview_t v, const char* delims, int max, bool last, bool quotes)
{
	int at = -1;
	bool inq = false;
	for(int i = 0; i < HN; i++)
	{
		int k = last ? v.size - 1 - i : i;
		if(i < v.size && at < 0)
		{
			if(v.data[k] == '"' && quotes)
				inq = !inq;
			if(!inq && ref_in_cset(delims, max, v.data[k]))
				at = k;
		}
	}
	return at;
}
void h_split(void)
{
	static char a[OBJ(HN)], d[NN + 1];
	strview_t v = nd_view_in(a, HLO, HN), src = v;
	const char* delims = nd_cstr(d, NN);
	strview_t r = LAST ? strview_split_last_delim(&src, delims, QUOTES) : strview_split_first_delim(&src, delims, QUOTES);
	int at = ref_split(v, delims, NN, LAST, QUOTES);
	if(at < 0)
	{
		VASSERT(same_view(r, v), "no delimiter: the whole source is returned");
		VASSERT(is_invalid(src), "no delimiter: the source becomes invalid");
		VREACH("no delimiter");
	}
	else
	{
		strview_t left = LAST ? src : r, right = LAST ? r : src;
		VASSERT(left.data == v.data && left.size == at, "the left part is what precedes the delimiter");
		VASSERT(right.size == v.size - at - 1, "the right part is what follows the delimiter");
		VASSERT(right.data != NULL && within(right, v), "the right part is valid and within the source");
		VASSERT(right.size == 0 || right.data == v.data + at + 1, "the right part starts after the delimiter");
		VREACH_IF(v.size == HN && at == HN - 1, "delimiter at the end");
		VREACH_IF(v.size == HN && at == 0, "delimiter at the start");
		#if QUOTES
		VREACH_IF(v.size == HN && at == (LAST ? 0 : HN - 1) && v.data[1] == '"' && v.data[3] == '"' && ref_in_cset(delims, NN, v.data[2]), "delimiter in quotes");
		#endif
	}
}
void h_split_invalid(void)
{
	static char a[OBJ(HN)], d[NN + 1];
	const char* delims = nd_cstr(d, NN);
	strview_t inv = STRVIEW_INVALID;
	strview_t v = nd_view(a, HN), src;
	bool q = nd_bool();
	VASSERT(is_invalid(strview_split_first_delim(NULL, delims, q)), "split_first_delim of NULL");
	VASSERT(is_invalid(strview_split_last_delim(NULL, delims, q)), "split_last_delim of NULL");
	VASSERT(is_invalid(strview_split_first_delim(&inv, delims, q)) && is_invalid(inv), "split_first_delim of an invalid view");
	VASSERT(is_invalid(strview_split_last_delim(&inv, delims, q)) && is_invalid(inv), "split_last_delim of an invalid view");
	src = v;
	VASSERT(same_view(strview_split_first_delim(&src, NULL, q), v) && is_invalid(src), "split_first_delim, no delimiters");
	src = v;
	VASSERT(same_view(strview_split_last_delim(&src, NULL, q), v) && is_invalid(src), "split_last_delim, no delimiters");
	VASSERT(is_invalid(strview_split_line(&inv, NULL)) && is_invalid(strview_split_line(NULL, NULL)), "split_line of an invalid view");
	VREACH("done");
}

/* ---- V10 */
#ifndef DN
	#define DN 4	/* elements of the array */
#endif
void h_split_all(void)
{
	static char a[OBJ(HN)], d[NN + 1];
	strview_t v = nd_view_or_invalid(a, HN);
	const char* delims = nd_cstr(d, NN);
	strview_t dst[DN + 1];
	int dn = (int)nd_range(0, DN);
	const strview_t mark = {.data = d, .size = -12345};
	for(int i = 0; i <= DN; i++)
		dst[i] = mark;
	int n = strview_split_all(dn, dst, v, delims, QUOTES);

	int fields = 0, begin = 0;
	bool inq = false, open = v.data != NULL;
	for(int i = 0; i <= HN; i++)
	{
		bool end = i == v.size, delim = false;
		if(open && i < v.size)
		{
			if(v.data[i] == '"' && QUOTES)
				inq = !inq;
			delim = !inq && ref_in_cset(delims, NN, v.data[i]);
		}
		if(open && (end || delim))
		{
			if(fields < dn)
			{
				VASSERT(dst[fields].size == i - begin, "size of a field");
				VASSERT(dst[fields].data != NULL && within(dst[fields], v), "a field is valid and within the source");
				VASSERT(dst[fields].size == 0 || dst[fields].data == v.data + begin, "place of a field");
				fields++;
			}
			begin = i + 1;
			inq = false;
			if(end)
				open = false;
		}
	}
	VASSERT(n == fields, "the number of fields, at most that of the array");
	for(int i = 0; i <= DN; i++)
		if(i >= n)
			VASSERT(same_view(dst[i], mark), "elements beyond the count are not touched");
	VREACH_IF(n == DN && dn == DN, "array filled");
	VREACH_IF(n == 1 && v.size == HN && dn == DN, "one field");
	VREACH_IF(n == 0 && !v.data && dn, "invalid source");
}

/* ---- V13 */
void h_line(void)
{
	static char a[OBJ(HN)];
	strview_t v = nd_view_or_invalid(a, HN), src = v;
	bool with_eol = nd_bool();
	static const char states[3] = {0, '\r', '\n'};
	char eol0 = states[nd_range(0, 2)], eol = eol0;
	strview_t r = strview_split_line(&src, with_eol ? &eol : NULL);

	int begin = 0, at = -1;
	if(with_eol && eol0 && v.size && v.data[0] == (eol0 == '\r' ? '\n' : '\r'))
		begin = 1;
	for(int i = HN - 1; i >= 0; i--)
		if(i < v.size && i >= begin && (v.data[i] == '\r' || v.data[i] == '\n'))
			at = i;
	if(at < 0)
	{
		VASSERT(is_invalid(r), "no terminator: the result is invalid");
		VASSERT(same_view(src, v), "no terminator: the source is unmodified");
		VASSERT(eol == eol0, "no terminator: the discriminator is unmodified");
		VREACH_IF(begin && v.size == HN, "completes a pair, but no line");
		VREACH_IF(v.size == HN, "no line");
	}
	else
	{
		char e = v.data[at];
		bool pair = at + 1 < v.size && v.data[at+1] == (e == '\r' ? '\n' : '\r');
		int rest = at + 1 + pair;
		VASSERT(r.size == at - begin && r.data == v.data + begin, "the line is what precedes the terminator");
		VASSERT(src.data != NULL && src.size == v.size - rest && within(src, v), "the line and its terminator are removed");
		VASSERT(src.size == 0 || src.data == v.data + rest, "the source continues after the terminator");
		if(with_eol)
			VASSERT(eol == (pair ? 0 : e), "the discriminator is the terminator still waiting for its counterpart");
		else
			VASSERT(eol == eol0, "nothing else is written");
		VREACH_IF(pair && begin, "pair after pair");
		VREACH_IF(!pair && v.size == HN && at == HN - 1, "terminator at the end");
		VREACH_IF(at == begin && src.size > 1, "empty line");
	}
}

/* ---- V14: chunks. The text is cut anywhere; lines are taken after each chunk */
#ifndef CUTS
	#define CUTS 1
#endif
void h_line_chunks(void)
{
	char text[HN], buf[HN + 1];
	int size = (int)nd_range(0, HN);
	nd_fill(text, HN);
	for(int i = 0; i < HN; i++)		/* three kinds of characters are enough to tell lines apart, others by position */
		VASSUME(text[i] == '\r' || text[i] == '\n' || text[i] == 'a' + i);
	/* the lines of the text: start and size of each */
	int start[HN + 1], len[HN + 1], lines = 0, begin = 0;
	for(int i = 0; i < HN; i++)
		if(i >= begin && i < size && (text[i] == '\r' || text[i] == '\n'))
		{
			start[lines] = begin;
			len[lines] = i - begin;
			lines++;
			begin = i + 1 + (i + 1 < size && text[i+1] == (text[i] == '\r' ? '\n' : '\r'));
		}
	int tail = begin;
	/* taken in chunks */
	int got = 0, have = 0, prev = 0;
	char eol = 0;
	for(int c = 0; c <= CUTS; c++)
	{
		int cut = c == CUTS ? size : (int)nd_range(0, HN);
		VASSUME(prev <= cut && cut <= size);
		for(int i = 0; i < HN; i++)		/* append the chunk to what is left */
			if(i < cut - prev)
				buf[have + i] = text[prev + i];
		have += cut - prev;
		prev = cut;
		strview_t src = {.data = buf, .size = have};
		for(int k = 0; k <= HN; k++)
		{
			strview_t r = strview_split_line(&src, &eol);
			if(!r.data)
				break;
			VASSERT(got < lines, "no more lines than the text has");
			if(got < lines)
			{
				VASSERT(r.size == len[got], "the line has the size it has in the whole text");
				for(int i = 0; i < HN; i++)
					if(i < r.size && i < len[got])
						VASSERT(r.data[i] == text[start[got] + i], "the line has the content it has in the whole text");
			}
			got++;
		}
		VASSERT(src.data != NULL && src.size >= 0 && src.size <= have, "what is left is part of what there was");
		char left[HN + 1];
		for(int i = 0; i < HN; i++)
			if(i < src.size)
				left[i] = src.data[i];
		have = src.size;
		for(int i = 0; i < HN; i++)
			if(i < have)
				buf[i] = left[i];
	}
	VASSERT(got == lines, "as many lines as the whole text has");
	/* what is left over is the text after the last line; the counterpart of the last terminator may still be there */
	int skip = eol && have && buf[0] == (eol == '\r' ? '\n' : '\r');
	VASSERT(have - skip == size - tail, "what is left is the text after the last terminator");
	for(int i = 0; i < HN; i++)
		if(i < have - skip && i < size - tail)
			VASSERT(buf[i + skip] == text[tail + i], "what is left has the content it has in the whole text");
	VREACH_IF(lines == HN, "all lines empty");
	VREACH_IF(lines == 2 && size == HN && tail == HN - 1, "two lines and a rest");
	VREACH_IF(skip, "counterpart left");
}

/* ---- V15 */
void h_dequote(void)
{
	static char a[OBJ(HN)];
	strview_t v = nd_view_or_invalid(a, HN);
	strview_t r = strview_dequote(v);
	int n = 0;
	bool more = true;
	for(int i = 0; i < (HN + 1) / 2; i++)
	{
		if(!(2*i + 2 <= v.size && (v.data[0] == '"' || v.data[0] == '\'') && v.data[i] == v.data[0] && v.data[v.size-1-i] == v.data[0]))
			more = false;
		if(more)
			n = i + 1;
	}
	VASSERT(r.size == v.size - 2*n, "balanced outer quotes are removed, and nothing else");
	VASSERT(r.size == 0 || r.data == v.data + n, "the content stays where it is");
	VASSERT((r.data == NULL) == (v.data == NULL), "stays valid");
	VASSERT(!r.data || within(r, v), "within the source");
	VREACH_IF(n == 2 && r.size == 1, "two levels");
	VREACH_IF(n == 1 && r.size == HN - 2 && r.data[0] == (v.data[0] ^ '"' ^ '\'') && r.data[r.size-1] == r.data[0], "other kind inside");
	VREACH_IF(n == 0 && v.size == HN && v.data[0] == v.data[HN-1], "not a quote");
}

/* ---- V16 */
/* a destination said to be of INT_MAX characters or more: all of the view is copied */
void h_to_cstr_huge(void)
{
	static char a[OBJ(HN)], dst[HN + 2];
	strview_t v = nd_view_or_invalid(a, HN);
	size_t cap = (size_t)nd_raw();
	VASSUME(cap >= INT_MAX);
	for(int i = 0; i < HN + 2; i++)
		dst[i] = 'x';
	VASSERT(strview_to_cstr(dst, cap, v) == dst, "returns dst");
	int n = v.size < 0 ? 0 : v.size;
	for(int i = 0; i < HN + 2; i++)
		VASSERT(dst[i] == (i < n ? v.data[i] : i == n ? 0 : 'x'), "the content, terminated, and nothing beyond");
	VREACH_IF(cap > (size_t)INT_MAX + 1, "larger than an int");
}
void h_to_cstr(void)
{
	static char a[OBJ(HN)], dst[HN + 4];
	strview_t v = nd_view_or_invalid(a, HN);
	int cap = (int)nd_range(0, HN + 3);
	char before[HN + 4];
	nd_fill(dst, HN + 4);
	for(int i = 0; i < HN + 4; i++)
		before[i] = dst[i];
	#if PLACE == 2
		char* to = dst + (HN + 4 - cap);		/* flush with the end of the object */
	#else
		char* to = dst;
	#endif
	int o = (int)(to - dst);
	char* ret = strview_to_cstr(to, cap, v);
	int n = cap == 0 ? 0 : v.size < cap - 1 ? v.size : cap - 1;
	VASSERT(ret == to, "returns dst");
	for(int i = 0; i < HN + 4; i++)
	{
		char expect = before[i];
		if(cap && i - o == n)
			expect = 0;
		else if(cap && i >= o && i - o < n)
			expect = v.data[i - o];
		VASSERT(dst[i] == expect, "the content, terminated, and nothing beyond");
	}
	VASSERT(strview_to_cstr(NULL, cap, v) == NULL, "NULL destination");
	VREACH_IF(n == HN && cap == HN + 1, "exact fit");
	VREACH_IF(v.size == HN && cap == 2, "truncated");
	VREACH_IF(cap == 0 && v.size, "no space");
	VREACH_IF(!v.data && cap, "invalid");
}
void h_cstr(void)
{
	char s[HN + 1];
	nd_cstr(s, HN);
	strview_t v = cstr(s);
	VASSERT(v.data == s && v.size == ref_strlen(s, HN), "cstr views the characters before the NUL");
	VASSERT(is_invalid(cstr(NULL)), "cstr of NULL");
	VASSERT(same_view(cstr_SL("abc\0d"), (strview_t){.data = cstr_SL("abc\0d").data, .size = 5}), "cstr_SL");
	VREACH_IF(v.size == HN, "full");
	VREACH_IF(v.size == 0, "empty");
}

/* ---- V17 */
/* what "%"PRIstr takes from the arguments of printf: an int of the precision, and the characters */
static void takes(strview_t expect, const char* fmt, ...)
{
	va_list va;
	va_start(va, fmt);
	int n = va_arg(va, int);
	const char* p = va_arg(va, const char*);
	int after = va_arg(va, int);
	va_end(va);
	VASSERT(fmt[0] == '<' && fmt[1] == '%' && fmt[2] == '.' && fmt[3] == '*' && fmt[4] == 's' && fmt[5] == '>' && fmt[6] == 0, "PRIstr takes precision and string");
	VASSERT(n == expect.size && p == expect.data, "PRIstrarg() gives the size and the characters of the view");
	VASSERT(after == 42, "and nothing else");
}
#define SAME_LITERAL(v, lit) VASSERT((v).size == (int)sizeof(lit) - 1 && eq_bytes((v).data, lit, sizeof(lit) - 1), "cstr_SL views the literal")
static bool eq_bytes(const char* a, const char* b, int n)
{
	for(int i = 0; i < n; i++)
		if(a[i] != b[i])
			return false;
	return true;
}
void h_macros(void)
{
	static char a[OBJ(HN)];
	strview_t v = nd_view_or_invalid(a, HN), w = STRVIEW_INVALID, u[2] = {v, STRVIEW_INVALID}, *p = u;
	bool c = nd_bool();
	VASSERT(_Generic(PRIstrarg(v), const char*: true, default: false), "the type of the characters");
	takes(v, "<%"PRIstr">", PRIstrarg(v), 42);
	takes(v, "<%"PRIstr">", PRIstrarg(*p), 42);
	takes(c ? v : w, "<%"PRIstr">", PRIstrarg(c ? v : w), 42);
	takes(w, "<%"PRIstr">", PRIstrarg(p[1]), 42);

	SAME_LITERAL(cstr_SL(""), "");
	SAME_LITERAL(cstr_SL("a"), "a");
	SAME_LITERAL(cstr_SL("\0"), "\0");
	SAME_LITERAL(cstr_SL("ab\0c\0"), "ab\0c\0");
	SAME_LITERAL(cstr_SL("two " "parts"), "two parts");
	SAME_LITERAL((c ? cstr_SL("yes") : cstr_SL("yes")), "yes");
	VASSERT(strview_is_valid(cstr_SL("")), "an empty literal is valid");
	static const strview_t st = {.data = "x", .size = 1};
	VASSERT(strview_is_valid(st), "valid");

	VASSERT(w.data == NULL && w.size == 0 && !strview_is_valid(w), "STRVIEW_INVALID as an initializer");
	u[0] = STRVIEW_INVALID;
	VASSERT(!strview_is_valid(u[0]), "STRVIEW_INVALID as a value");
	VASSERT(!strview_is_valid(STRVIEW_INVALID), "STRVIEW_INVALID as an argument");
	VASSERT(strview_is_valid(v) == (v.data != NULL), "a view of something is valid, even if of size 0");
	VREACH_IF(v.data && v.size == 0, "empty and valid");
}

/* ---- V01: content of the source is not modified, results are within: any function, any arguments */
#ifndef FN
	#define FN 0
#endif
void h_bounds(void)
{
	static char h[OBJ(HN)], n[OBJ(NN) + 1];
	char copy[OBJ(HN)];
	strview_t v = nd_view_or_invalid(h, HN);
	strview_t src = v, r = STRVIEW_INVALID;
	const char* c = nd_cstr(n, OBJ(NN));
	strview_t w = (strview_t){.data = PLACE == 2 ? n + 1 : n, .size = OBJ(NN)};
	bool q = nd_bool();
	int i1 = nd_int(), i2 = nd_int();
	char eol = (char)nd_range(0, 2);
	eol = eol == 1 ? '\r' : eol == 2 ? '\n' : 0;
	strview_t pos = v.data ? nd_window(v.data, v.size) : v;
	strview_t dst[3] = {STRVIEW_INVALID, STRVIEW_INVALID, STRVIEW_INVALID};
	int k = 0;
	for(int i = 0; i < OBJ(HN); i++)
		copy[i] = h[i];
	#if FN == 0
		r = strview_sub(v, i1, i2);
	#elif FN == 1
		r = q ? strview_trim(v, w) : strview_trim(v, c);
	#elif FN == 2
		r = q ? strview_find_first(v, w) : strview_find_first_nocase(v, c);
	#elif FN == 3
		r = q ? strview_find_last(v, w) : strview_find_last_nocase(v, c);
	#elif FN == 4
		r = strview_split_first_delim(&src, c, q);
	#elif FN == 5
		r = strview_split_last_delim(&src, c, q);
	#elif FN == 6
		r = strview_split_index(&src, i1);
	#elif FN == 7
		r = strview_split_left(&src, pos);
	#elif FN == 8
		r = strview_split_right(&src, pos);
	#elif FN == 9
		r = strview_split_line(&src, q ? &eol : NULL);
	#elif FN == 10
		r = strview_dequote(v);
	#elif FN == 11
		k = strview_split_all(3, dst, v, c, q);
	#elif FN == 12
		strview_pop_first_char(&src);
	#elif FN == 13
		k = strview_is_match(v, w) + strview_is_match_nocase(v, w) + strview_starts_with(v, w) + strview_starts_with_nocase(v, w) + strview_compare(v, w);
		k = 0;
	#endif
	VASSERT(!r.data || (v.data && within(r, v)), "a returned view lies within the source");
	VASSERT(!src.data || (v.data && within(src, v)), "the source is left with a part of itself");
	VASSERT((r.data || !r.size) && (src.data || !src.size), "an invalid view has no size");
	VASSERT(k >= 0 && k <= 3, "count");
	for(int i = 0; i < 3; i++)
		if(i < k)
			VASSERT(dst[i].data && within(dst[i], v), "a field lies within the source");
	for(int i = 0; i < OBJ(HN); i++)
		VASSERT(copy[i] == h[i], "viewed memory is not modified");
	VREACH_IF(v.size == HN, "full source");
	VREACH_IF(!v.data, "invalid source");
	VREACH_IF(v.data && !v.size, "empty source");
}
