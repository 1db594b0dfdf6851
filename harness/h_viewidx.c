/* h_viewidx.c - strview functions that calculate with sizes and indexes only, over the whole
   range of int (V02, V11, V12). The views are as large as their size says, but no content is looked at. */
#include "view.h"

#ifndef SMAX
	#define SMAX INT_MAX
#endif

void h_sub(void)
{
	static char a[8];
	strview_t v = {.data = a, .size = (int)nd_range(0, SMAX)};
	int begin = nd_int(), end = nd_int();
	strview_t r = strview_sub(v, begin, end);
	if(v.size == 0)
		VASSERT(same_view(r, v), "an empty source gives an empty view of the same address");
	else
	{
		long b = begin < 0 ? (long)begin + v.size : begin, e = end < 0 ? (long)end + v.size : end;
		if(b <= e && b < v.size && e >= 0)
		{
			if(b < 0) b = 0;
			if(e > v.size) e = v.size;
			VASSERT(r.data == v.data + b, "starts at begin");
			VASSERT(r.size == e - b, "ends at end");
			VREACH_IF(begin < 0 && end < 0 && b > 0 && e > b, "negative indexes");
			VREACH_IF(end == INT_MAX && begin > 0, "to the end");
			VREACH_IF(begin == INT_MIN, "from the start");
		}
		else
		{
			VASSERT(!r.data && !r.size, "nothing selected: invalid");
			VREACH_IF(begin > end && begin < v.size && end > 0, "reversed");
			VREACH_IF(end < 0, "before the start");
		}
	}
	VASSERT(is_invalid(strview_sub(STRVIEW_INVALID, begin, end)), "an invalid source gives an invalid view");
}

void h_index(void)
{
	static char a[8];
	strview_t v = {.data = a, .size = (int)nd_range(0, SMAX)}, src = v;
	int index = nd_int();
	strview_t r = strview_split_index(&src, index);
	long n = index < 0 ? -(long)index : index;
	if(n > v.size) n = v.size;
	if(index >= 0)
	{
		VASSERT(r.data == v.data && r.size == n, "the first n bytes are returned");
		VASSERT(src.data == v.data + n && src.size == v.size - n, "the rest is left");
	}
	else
	{
		VASSERT(r.data == v.data + (v.size - n) && r.size == n, "the last n bytes are returned");
		VASSERT(src.data == v.data && src.size == v.size - n, "the rest is left");
	}
	VASSERT(is_invalid(strview_split_index(NULL, index)), "NULL source");
	VREACH_IF(index == INT_MIN && v.size, "INT_MIN");
	VREACH_IF(index > v.size && v.size, "more than there is");
	VREACH_IF(index < 0 && -(long)index < v.size, "from the end");
	VREACH_IF(index > 0 && index < v.size, "from the start");
}

void h_pop(void)
{
	static char a[1];
	a[0] = nd_char();
	strview_t v = {.data = a, .size = (int)nd_range(0, SMAX)};
	if(nd_bool())
		v = STRVIEW_INVALID;
	strview_t src = v;
	char c = strview_pop_first_char(&src);
	if(v.size)
	{
		VASSERT(c == a[0], "the first character");
		VASSERT(src.data == v.data + 1 && src.size == v.size - 1, "is removed");
		VREACH("popped");
		VREACH_IF(v.size == 1, "last one");
	}
	else
	{
		VASSERT(c == 0 && same_view(src, v), "empty or invalid: 0, unchanged");
		VREACH_IF(v.data, "empty");
		VREACH_IF(!v.data, "invalid");
	}
	VASSERT(strview_pop_first_char(NULL) == 0, "NULL source");
}

/* all positions within one object: source and pos anywhere in it, overlapping or not */
#ifndef ON
	#define ON 64
#endif
#ifndef KIND
	#define KIND 0	/* 0 pos in the same object, 1 pos invalid, 2 pos elsewhere, 3 source invalid */
#endif
#if KIND == 0
	#define REACH0(c, msg) VREACH_IF(c, msg)
#else
	#define REACH0(c, msg) do {} while(0)
#endif
void h_left_right(void)
{
	static char a[ON], other[4];
	/* the places of both within the object are chosen here, so that no distance has to be taken of the views */
	long vb = nd_range(0, ON), vs = nd_range(0, ON), pb = nd_range(0, ON), ps = nd_range(0, ON);
	VASSUME(vs <= ON - vb && ps <= ON - pb);
	strview_t v = {.data = a + vb, .size = (int)vs};
	strview_t pos = {.data = a + pb, .size = (int)ps};
	long kind = KIND;
	if(kind == 1) pos = STRVIEW_INVALID;
	if(kind == 2) pos = (strview_t){.data = other, .size = (int)nd_range(0, 4)};
	if(kind == 3) v = STRVIEW_INVALID;
	strview_t src = v;
	strview_t r = strview_split_left(&src, pos);
	long at = kind == 0 ? pb - vb : -1;
	if(kind == 0 && at >= 0 && at <= v.size)
	{
		VASSERT(r.data == v.data && r.size == at, "split_left: the source before pos is returned");
		VASSERT(src.data == v.data + at && src.size == v.size - at, "split_left: the rest is left");
		REACH0((at > 0 && at < v.size), "left");
	}
	else
	{
		VASSERT(is_invalid(r) && same_view(src, v), "split_left: pos elsewhere: invalid, source unmodified");
		REACH0(at < -1, "pos before source");
		REACH0(at > v.size, "pos after source");
	}
	src = v;
	r = strview_split_right(&src, pos);
	at = kind == 0 ? pb + ps - vb : -1;
	if(kind == 0 && at >= 0 && at <= v.size)
	{
		VASSERT(src.data == v.data && src.size == at, "split_right: the source up to the end of pos is left");
		VASSERT(r.data == v.data + at && r.size == v.size - at, "split_right: the rest is returned");
		REACH0((at > 0 && at < v.size), "right");
		REACH0(at > 0 && pb < vb, "pos overlaps the start");
	}
	else
	{
		VASSERT(is_invalid(r) && same_view(src, v), "split_right: pos elsewhere: invalid, source unmodified");
		REACH0(pb > vb && pb - vb < v.size, "pos overlaps the end");
	}
	VASSERT(is_invalid(strview_split_left(NULL, pos)) && is_invalid(strview_split_right(NULL, pos)), "NULL source");
	VREACH("done");
}
void h_swap(void)
{
	static char a[ON];
	strview_t x = nd_window(a, ON), y = nd_window(a, ON), p = x, q = y;
	if(nd_bool()) q = y = STRVIEW_INVALID;
	strview_swap(&p, &q);
	VASSERT(same_view(p, y) && same_view(q, x), "swapped");
	VASSERT(strview_is_valid(x) && strview_is_valid(y) == (y.data != NULL), "is_valid");
	VREACH("done");
}
