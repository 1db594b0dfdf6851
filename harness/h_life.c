/* h_life.c - creation, capacity and end of a buffer (B08, B14, B15, B16, B13 strip) */
#include "buf.h"

static char ref[2*CAP + SN + 1];

/* ---- creation for a capacity or with content */
void h_create(void)
{
	for(int k = 0; k <= SN; k++)
	{
		mem_reset();
		strbuf_t* b = strbuf_create((size_t)k, THE_ALLOCATOR);
		GASSERT(G_CAPACITY, b != NULL, "created");
		int at = check_live(b);
		GASSERT(G_CAPACITY, b->capacity >= k, "a buffer created for a capacity has it");
		check_wellformed(b, blk[at].size, strbuf_view(&b));
		check_content(b, ref, 0);
		mem_check();
		end_buf(&b);
	}
	for(int k = 0; k <= SN; k++)
	{
		mem_reset();
		strbuf_t* b = strbuf_create(k, THE_ALLOCATOR);
		int at = check_live(b);
		GASSERT(G_CAPACITY, b->capacity >= k && b->size == 0, "a buffer created for a capacity has it");
		check_wellformed(b, blk[at].size, strbuf_view(&b));
		end_buf(&b);
	}
	for(int n = -1; n <= SN; n++)
	{
		mem_reset();
		nd_bytes(SRC, SN + 1);
		strbuf_t* b = strbuf_create(n < 0 ? STRVIEW_INVALID : ((strview_t){.data = SRC, .size = n}), THE_ALLOCATOR);
		GASSERT(G_CAPACITY, b != NULL, "created");
		int at = check_live(b);
		GASSERT(G_CAPACITY, b->capacity >= n, "a buffer created from content has room for it");
		check_wellformed(b, blk[at].size, strbuf_view(&b));
		check_content(b, SRC, n < 0 ? 0 : n);
		mem_check();
		end_buf(&b);
	}
	VREACH("all done");
}

/* ---- grow and shrink */
static void resize(int s, int to)
{
	strbuf_t* b = nd_buf(s, ref);
	strview_t r = to < 0 ? strbuf_shrink(&b) : strbuf_grow(&b, to);
	#if FIXED
		check_fixed(b);
		check_wellformed(b, HDR + CAP + 1, r);
		check_content(b, ref, s);
		if(to >= 0)
			GASSERT(G_CAPACITY, is_invalid(r), "grow of a fixed buffer returns an invalid view");
	#else
		int at = check_live(b);
		GASSERT(G_CAPACITY, r.data, "returns the content");
		check_wellformed(b, blk[at].size, r);
		check_content(b, ref, s);
		if(to < 0)
		{
			GASSERT(G_CAPACITY, b->capacity == s, "shrink makes the capacity equal to the size");
			/* and it can be used again */
			r = strbuf_append_char(&b, 'x');
			at = check_live(b);
			check_wellformed(b, blk[at].size, r);
			ref[s] = 'x';
			check_content(b, ref, s + 1);
			GASSERT(G_CAPACITY, b->capacity == ref_round(s + 1), "expanded by the step");
		}
		else
		{
			GASSERT(G_CAPACITY, b->capacity >= to, "grow raises the capacity to at least what is asked for");
			GASSERT(G_CAPACITY, b->capacity >= CAP, "grow never lowers the capacity");
		}
	#endif
	mem_check();
	end_buf(&b);
}
void h_resize(void)
{
	for(int s = 0; s <= CAP; s++)
		for(int to = -1; to <= CAP + SN; to++)
			resize(s, to);
	for(int s = 0; s <= CAP; s++)	/* a negative size asks for nothing */
	{
		strbuf_t* b = nd_buf(s, ref);
		strbuf_grow(&b, INT_MIN);
		GASSERT(G_CAPACITY, b->capacity == CAP, "capacity unchanged");
		check_content(b, ref, s);
		end_buf(&b);
	}
	VREACH("all done");
}

/* ---- B15 */
void h_end(void)
{
	for(int s = 0; s <= CAP; s++)
	{
		strbuf_t* b = nd_buf(s, ref);
		char* str = strbuf_to_cstr(&b);
		VASSERT(b == NULL, "to_cstr sets the pointer to NULL");
		VASSERT(str != NULL, "to_cstr returns the string");
		for(int i = 0; i < s; i++)
			VASSERT(str[i] == ref[i], "to_cstr returns the content");
		VASSERT(str[s] == 0, "which is terminated");
		#if FIXED
			VASSERT(n_calls == 0, "no allocator for a fixed buffer");
			VASSERT(str >= (char*)&FIXED_SPACE && str + s < (char*)&FIXED_SPACE + sizeof FIXED_SPACE, "the string is in the memory of the buffer");
		#else
			int at = blk_find(str);
			VASSERT(at >= 0 && n_live == 1, "the string is the start of the only live block");
			VASSUME(at >= 0);
			VASSERT(blk[at].size == (size_t)s + 1, "resized to the length plus one");
		#endif
		VASSERT(strbuf_to_cstr(&b) == NULL, "to_cstr of no buffer");
		#if !FIXED
			#if ARENA
				for(int k = 0; k < (int)HDR; k++)	/* the block held a string, not a header */
					if(k > s)
						break;
			#endif
			blk_release(at);
		#endif
		mem_check();
	}
	for(int s = 0; s <= CAP; s++)
	{
		strbuf_t* b = nd_buf(s, ref);
		strbuf_t* b0 = b;
		int calls = n_calls;
		strbuf_destroy(&b);
		VASSERT(b == NULL, "destroy sets the pointer to NULL");
		#if FIXED
			VASSERT(n_calls == 0, "no allocator for a fixed buffer");
			VASSERT(b0->size == s && b0->capacity == CAP && b0->cstr[s] == 0, "destroy leaves the memory of a fixed buffer alone");
			for(int i = 0; i < s; i++)
				VASSERT(b0->cstr[i] == ref[i], "destroy leaves the memory of a fixed buffer alone");
		#else
			(void)b0;
			VASSERT(n_live == 0 && n_calls == calls + 1, "destroy releases the block once");
		#endif
		calls = n_calls;
		strbuf_destroy(&b);
		strbuf_destroy(NULL);
		VASSERT(n_calls == calls && b == NULL, "a second destroy does nothing");
		mem_check();
	}
	VREACH("all done");
}

/* ---- B14 */
void h_fixed(void)
{
	static struct { void* align[8]; char tail[16]; } space;
	char* base = (char*)space.align;
	for(int misalign = 0; misalign < 8; misalign++)
		for(int n = 0; n <= (int)HDR + 8; n++)
		{
			if(n > 1 && (n < (int)HDR - 1 || (misalign && n > (int)HDR + 2)))
				continue;	/* see h_fixed_size for all sizes */
			for(int i = 0; i < (int)HDR + 16; i++)
				base[i] = GUARD;
			strbuf_t* b = strbuf_create_fixed(base + misalign, n);
			if(misalign || n < (int)HDR + 1)
			{
				VASSERT(b == NULL, "not aligned or too small: NULL");
				for(int i = 0; i < (int)HDR + 16; i++)
					VASSERT(base[i] == GUARD, "and nothing is written");
			}
			else
			{
				VASSERT((char*)b == base, "created at the address given");
				VASSERT(b->capacity == n - (int)HDR - 1, "capacity is the space minus header and NUL");
				VASSERT(b->size == 0 && b->cstr[0] == 0 && b->allocator.allocator == NULL, "an empty fixed buffer");
				for(int i = n; i < (int)HDR + 16; i++)
					VASSERT(base[i] == GUARD, "nothing is written behind the space");
			}
		}
	VREACH("all done");
}
/* any size, as far as the capacity is concerned */
void h_fixed_size(void)
{
	static struct { void* align[8]; } space;
	size_t n = (size_t)nd_raw();
	VASSERT(strbuf_create_fixed(NULL, n) == NULL, "no address");
	strbuf_t* b = strbuf_create_fixed(space.align, n);
	if(n < HDR + 1)
		VASSERT(b == NULL, "too small");
	else
	{
		VASSERT(b == (strbuf_t*)space.align && b->size == 0, "created");
		VASSERT(b->capacity == (n - HDR - 1 > INT_MAX ? INT_MAX : (int)(n - HDR - 1)), "capacity is the space minus header and NUL, at most INT_MAX");
		VREACH_IF(n > (size_t)INT_MAX + 100, "huge");
		VREACH_IF(n == HDR + 1, "no capacity");
	}
}
#define STATIC_CAP 5
static strbuf_space_t(STATIC_CAP) static_space = STRBUF_STATIC_INIT(STATIC_CAP);
static void use_fixed(strbuf_t* b, int cap)
{
	VASSERT(b->size == 0 && b->capacity == cap && b->cstr[0] == 0 && b->allocator.allocator == NULL, "an empty fixed buffer of the capacity stated");
	for(int i = 0; i < cap; i++)
	{
		strbuf_append_char(&b, 'a');
		VASSERT(b->size == i + 1, "has room for its capacity");
	}
	strbuf_append_char(&b, 'a');
	VASSERT(b->size == 0, "and no more");
}
void h_static(void)
{
	use_fixed((strbuf_t*)&static_space, STATIC_CAP);
	VASSERT(sizeof static_space >= HDR + STATIC_CAP + 1, "the space is large enough");
	use_fixed(STRBUF_FIXED_CAP(0), 0);
	use_fixed(STRBUF_FIXED_CAP(1), 1);
	use_fixed(STRBUF_FIXED_CAP(3), 3);
	use_fixed(STRBUF_FIXED_CAP(8), 8);
	/* expressions as the capacity */
	use_fixed(STRBUF_FIXED_CAP(8 & 15), 8);
	use_fixed(STRBUF_FIXED_CAP(true ? 2 : 9), 2);
	use_fixed(STRBUF_FIXED_CAP(2 | 4), 6);
	use_fixed(STRBUF_FIXED_CAP(2 + 1), 3);
	static strbuf_space_t(4 & 7) expr_space = STRBUF_STATIC_INIT(4 & 7);
	use_fixed(&expr_space.buf, 4);
	VASSERT(sizeof(strbuf_space_t(2 ^ 1)) >= sizeof(strbuf_t) + 4, "strbuf_space_t() has room for content and terminator");
	VREACH("done");
}

/* ---- B13 */
#ifndef NN
	#define NN 2
#endif
#ifndef CSTR
	#define CSTR 0
#endif
void h_strip(void)
{
	static char set[NN + 1], left[CAP + 1];
	for(int s = 0; s <= CAP; s++)
		for(int n = -1; n <= NN; n++)
		{
			if(CSTR && n < NN) continue;
			strbuf_t* b = nd_buf(s, ref);
			nd_bytes(set, NN + 1);
			#if CSTR
				set[NN] = 0;
				strview_t v = {.data = set, .size = ref_strlen(set, NN)}, r;
				r = strbuf_strip(&b, (const char*)set);
			#else
				strview_t v = STRVIEW_INVALID, r;
				if(n >= 0)
					v = (strview_t){.data = set, .size = n};
				r = strbuf_strip(&b, v);
			#endif
			int size = 0;
			for(int i = 0; i < s; i++)
				if(!ref_in_set(v, NN, ref[i]))
				{
					for(int k = 0; k <= i; k++)	/* concrete places */
						if(k == size)
							left[k] = ref[i];
					size++;
				}
			#if FIXED
				check_fixed(b);
				check_wellformed(b, HDR + CAP + 1, r);
			#else
				int at = check_live(b);
				check_wellformed(b, blk[at].size, r);
				GASSERT(G_CAPACITY, b->capacity == CAP && n_calls == 1, "the capacity is left alone");
			#endif
			GASSERT(G_CONTENT, b->size == size, "what is left");
			for(int i = 0; i < s; i++)
				GASSERT(G_CONTENT, i >= size || b->cstr[i] == left[i], "exactly the characters not in the set are left, in order");
			VREACH_IF(s != CAP || n != NN || size == 1, "some stripped");
			mem_check();
			end_buf(&b);
		}
}

/* ---- B16 */
static int no_fetch(void* dst, int n, void* vars)
{
	VASSERT(false, "the fetcher is not called");
	return 0;
}
static void on_null(strbuf_t** p)
{
	strview_t v = {.data = SRC, .size = 2};
	const char* c = "ab";
	VASSERT(is_invalid(strbuf_assign(p, v)), "assign");
	VASSERT(is_invalid(strbuf_assign(p, STRVIEW_INVALID)), "assign an invalid view");
	VASSERT(is_invalid(strbuf_append(p, v)) && is_invalid(strbuf_append(p, c)), "append");
	VASSERT(is_invalid(strbuf_prepend(p, v)) && is_invalid(strbuf_prepend(p, c)), "prepend");
	VASSERT(is_invalid(strbuf_insert_at_index(p, 1, v)) && is_invalid(strbuf_insert_at_index(p, -1, c)), "insert_at_index");
	VASSERT(is_invalid(strbuf_insert_before(p, v, v)) && is_invalid(strbuf_insert_before(p, v, c)), "insert_before");
	VASSERT(is_invalid(strbuf_insert_after(p, v, v)) && is_invalid(strbuf_insert_after(p, v, c)), "insert_after");
	VASSERT(is_invalid(strbuf_append_char(p, 'x')), "append_char");
	VASSERT(is_invalid(strbuf_cat(p, v, v)), "cat");
	VASSERT(is_invalid(strbuf_strip(p, v)) && is_invalid(strbuf_strip(p, c)), "strip");
	VASSERT(is_invalid(strbuf_view(p)), "view");
	VASSERT(is_invalid(strbuf_shrink(p)), "shrink");
	VASSERT(is_invalid(strbuf_grow(p, 10)), "grow");
	VASSERT(is_invalid(strbuf_append_using(p, no_fetch, NULL)), "append_using");
	VASSERT(is_invalid(strbuf_append(p, (const char*)NULL)), "append NULL");
	VASSERT(strbuf_to_cstr(p) == NULL, "to_cstr");
	#ifdef STRBUF_PROVIDE_PRINTF
	VASSERT(is_invalid(strbuf_printf(p, "x")), "printf");
	VASSERT(is_invalid(strbuf_append_printf(p, "x")), "append_printf");
	#endif
	#ifdef STRBUF_PROVIDE_PRNF
	VASSERT(is_invalid(strbuf_prnf(p, "x")), "prnf");
	VASSERT(is_invalid(strbuf_append_prnf(p, "x")), "append_prnf");
	#endif
	strbuf_destroy(p);
	VASSERT(!p || !*p, "the pointer stays NULL");
}
#ifdef STRBUF_PROVIDE_PRINTF
int v_vsnprintf(char* dst, size_t n, const char* fmt, va_list va)
{
	VASSERT(false, "the formatter is not called");
	return 0;
}
#endif
#ifdef STRBUF_PROVIDE_PRNF
int vfptrprnf(void(*out)(void*, char), void* vars, const char* fmt, va_list va)
{
	VASSERT(false, "the formatter is not called");
	return 0;
}
#endif
void h_null(void)
{
	strbuf_t* none = NULL;
	nd_bytes(SRC, SN);
	on_null(NULL);
	on_null(&none);
	VREACH("done");
}
/* without a default allocator (the library built without STRBUF_DEFAULT_ALLOCATOR_STDLIB) */
void h_no_default(void)
{
	nd_bytes(SRC, SN + 1);
	size_t n = (size_t)nd_raw();
	VASSERT(strbuf_create(n, NULL) == NULL, "no allocator, no buffer");
	VASSERT(strbuf_create(((strview_t){.data = SRC, .size = 1}), NULL) == NULL, "no allocator, no buffer");
	VASSERT(strbuf_create((size_t)INT_MAX + 1, &v_allocator) == NULL, "capacity beyond INT_MAX");
	strbuf_allocator_t none = {.app_data = &cookie, .allocator = NULL};
	VASSERT(strbuf_create(n, &none) == NULL, "no allocator, no buffer");
	VREACH("done");
}
