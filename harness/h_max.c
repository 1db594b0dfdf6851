/* h_max.c - results beyond INT_MAX (B09). Sizes and capacities are symbolic over all of [0,INT_MAX]. The solver is given
   the first bytes of the memory only (what is written behind has no effect, what is read there is arbitrary), and a
   copy has its ranges checked; the replay has the memory in full. */
#include "verif.h"
#include "strbuf.h"
#include <stdio.h>
#define HDR sizeof(strbuf_t)
#define FULL (HDR + (size_t)INT_MAX + 1)	/* a buffer of capacity INT_MAX */

static char *space, *src;
static int cookie, n_calls;
static size_t last_size;
#ifdef VERIF_CBMC
static struct { strbuf_t b; char cstr[8]; } region1, region2;
#define KNOWN 8		/* bytes of content the solver is given */
static void* region(int i) { return i ? (void*)&region2 : (void*)&region1; }
#else
#include <sys/mman.h>
#define KNOWN INT_MAX
static void* region(int i)	/* the page behind it is not accessible */
{
	size_t len = (FULL + 4095) & ~(size_t)4095;
	char* p = mmap(NULL, len + 4096, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	if(p == MAP_FAILED)
		v_skip("2 GB of address space", __FILE__, __LINE__);
	mprotect(p + len, 4096, PROT_NONE);
	return p + len - FULL - (len - FULL) % 16;
}
#endif

static bool within(const char* p, size_t n, const char* r, size_t len)
{
	#ifdef VERIF_CBMC
		size_t o = __CPROVER_POINTER_OFFSET(p);
		return __CPROVER_same_object(p, r) && o <= len && n <= len - o;
	#else
		return p >= r && p <= r + len && n <= len - (size_t)(p - r);
	#endif
}
static size_t valid;	/* bytes of space that belong to the buffer */
/* compiled with -Dmemmove=v_memmove -Dmemcpy=v_memcpy */
void* v_memmove(void* dst, const void* s, size_t n)
{
	VASSERT(!n || within(dst, n, space, valid), "what is written lies within the buffer");
	VASSERT(!n || within(s, n, space, valid) || within(s, n, src, INT_MAX), "what is read lies within the buffer or the source");
	return dst;
}
void* v_memcpy(void* dst, const void* s, size_t n) { return v_memmove(dst, s, n); }

static void* v_alloc(struct strbuf_allocator_t* this, void* ptr, size_t size)
{
	(void)this;
	n_calls++;
	last_size = size;
	VASSERT(size <= FULL, "no more than a buffer of INT_MAX is ever requested");
	VASSERT(!size || size >= HDR + 1, "nor less than an empty one");
	VASSUME(size <= FULL);
	VASSERT(!ptr || ptr == space, "the block of the buffer");
	if(!size)
		return NULL;
	valid = size;
	return space;
}
static strbuf_allocator_t v_allocator = {.app_data = &cookie, .allocator = v_alloc};

/* a buffer of any size and capacity */
static strbuf_t* any_buf(int size, int capacity, bool fixed)
{
	space = region(0);
	src = region(1);
	strbuf_t* b = (strbuf_t*)space;
	b->size = size;
	b->capacity = capacity;
	b->allocator.app_data = fixed ? NULL : &cookie;
	b->allocator.allocator = fixed ? NULL : v_alloc;
	b->cstr[size] = 0;
	n_calls = 0;
	valid = HDR + (size_t)capacity + 1;
	return b;
}
static void check_emptied(strbuf_t* b, strview_t r, int capacity)
{
	VASSERT(b == (strbuf_t*)space, "the buffer exists");
	VASSERT(b->size == 0 && b->cstr[0] == 0, "the buffer is emptied if the result would exceed INT_MAX");
	VASSERT(b->capacity >= 0, "the capacity is not negative");
	VASSERT(HDR + (size_t)b->capacity + 1 <= valid, "and allocated");
	VASSERT(!r.data || (r.data == b->cstr && r.size == 0), "the view returned is the content");
}

static int text_len;
int v_vsnprintf(char* dst, size_t n, const char* fmt, va_list va)
{
	(void)fmt;
	(void)va;
	VASSERT(!n || within(dst, n, space, valid), "the formatter is offered no more than the space of the buffer");
	if(n && text_len <= 3)
	{
		for(int i = 0; i < text_len; i++)
			if((size_t)i + 1 < n)
				dst[i] = 'x';
		dst[(size_t)text_len < n ? (size_t)text_len : n - 1] = 0;
	}
	return text_len;
}

#define APPEND		0
#define PREPEND		1
#define INSERT		2
#define APPEND_CHAR	3
#define CAT		4
#define PRINTF		5
#define SELF		6
#define ASSIGN		7
#define BEFORE		8
#define VCAT3		9
#ifndef OP
	#define OP APPEND
#endif

/* results beyond INT_MAX */
void h_refused(void)
{
	bool fixed = nd_bool();
	int capacity = (int)nd_range(0, INT_MAX);
	int size = (int)nd_range(0, capacity);
	int n = (int)nd_range(0, INT_MAX);
	strbuf_t* b = any_buf(size, capacity, fixed);
	strview_t v = {.data = src, .size = n}, r = STRVIEW_INVALID;
	#if OP == CAT || OP == VCAT3
		int n2 = (int)nd_range(0, INT_MAX), n3 = OP == VCAT3 ? (int)nd_range(0, INT_MAX) : 0;
		VASSUME((long)n + n2 + n3 > INT_MAX);
		strview_t v2 = {.data = src, .size = n2}, v3 = {.data = src, .size = n3};
		#if OP == CAT
			r = strbuf_cat(&b, v, v2);
		#else
			r = strbuf_cat(&b, v, v2, v3);
		#endif
		VREACH_IF(n2 == INT_MAX && n == 1, "one too many");
		VREACH_IF(n2 == INT_MAX && n == INT_MAX, "all");
	#elif OP == APPEND_CHAR
		VASSUME(size == INT_MAX);
		r = strbuf_append_char(&b, 'x');
		VREACH_IF(fixed, "fixed");
		VREACH_IF(!fixed, "dynamic");
	#elif OP == ASSIGN
		VASSUME(fixed && n > capacity);
		r = strbuf_assign(&b, v);
		VREACH_IF(n == INT_MAX, "all");
	#else
		VASSUME((long)size + n > INT_MAX);
		#if OP == APPEND
			r = strbuf_append(&b, v);
		#elif OP == PREPEND
			r = strbuf_prepend(&b, v);
		#elif OP == INSERT
			int index = nd_int();
			r = strbuf_insert_at_index(&b, index, v);
		#elif OP == SELF
			v.data = b->cstr;
			VASSUME(n <= size);
			r = strbuf_append(&b, v);
		#elif OP == BEFORE
			strview_t pos = {.data = b->cstr, .size = size};
			r = strbuf_insert_after(&b, pos, v);
		#elif OP == PRINTF
			text_len = n;
			r = strbuf_append_printf(&b, "x");
		#endif
		VREACH_IF(size == INT_MAX && n == 1, "one too many");
		VREACH_IF(size == INT_MAX && n == INT_MAX, "all");
		VREACH_IF(size == 0x40000000 && n == 0x40000000 && !fixed, "half");
	#endif
	check_emptied(b, r, capacity);
	VASSERT(fixed ? !n_calls && b->capacity == capacity : 1, "a fixed buffer is left where it is");
}

/* results of up to INT_MAX: stored, and the capacity is that rounded up, but at most INT_MAX */
void h_accepted(void)
{
	bool fixed = nd_bool();
	int capacity = (int)nd_range(0, INT_MAX);
	int size = (int)nd_range(0, capacity);
	int n = (int)nd_range(0, INT_MAX);
	strbuf_t* b = any_buf(size, capacity, fixed);
	strview_t v = {.data = src, .size = n}, r = STRVIEW_INVALID;
	long total = (long)size + n;
	#if OP == APPEND_CHAR
		VASSUME(n == 1);
	#elif OP == ASSIGN
		total = n;
	#elif OP == PRINTF
		VASSUME(n <= 3);	/* written by the stub */
	#endif
	VASSUME(total <= INT_MAX && (!fixed || total <= capacity));
	#if OP == APPEND
		r = strbuf_append(&b, v);
	#elif OP == PREPEND
		r = strbuf_prepend(&b, v);
	#elif OP == INSERT
		r = strbuf_insert_at_index(&b, (int)nd_range(0, INT_MAX), v);
	#elif OP == APPEND_CHAR
		r = strbuf_append_char(&b, 'x');
	#elif OP == PRINTF
		text_len = n;
		r = strbuf_append_printf(&b, "x");
	#elif OP == ASSIGN
		r = strbuf_assign(&b, v);
	#elif OP == SELF
		v.data = b->cstr;
		VASSUME(n <= size);
		r = strbuf_append(&b, v);
	#elif OP == BEFORE
		strview_t pos = {.data = b->cstr, .size = size};
		r = strbuf_insert_after(&b, pos, v);
	#endif
	VASSERT(b == (strbuf_t*)space, "the buffer exists");
	VASSERT(b->size == total && (total >= KNOWN || b->cstr[total] == 0), "the result is stored");
	long rounded = (total + STRBUF_CAPACITY_GROW_STEP - 1) / STRBUF_CAPACITY_GROW_STEP * STRBUF_CAPACITY_GROW_STEP;
	VASSERT(b->capacity == (total <= capacity ? capacity : rounded > INT_MAX ? INT_MAX : rounded), "capacity rounded to a multiple of the step, and at most INT_MAX");
	VASSERT(HDR + (size_t)b->capacity + 1 <= valid, "and allocated");
	VASSERT(r.data == b->cstr && r.size == b->size, "the view returned is the content");
	VREACH_IF(total == INT_MAX && !fixed && capacity < INT_MAX, "expanded to INT_MAX");
	VREACH_IF(total == INT_MAX - 3 && !fixed && capacity < total, "rounded to INT_MAX");
	VREACH_IF(total == INT_MAX && fixed, "fixed");
}

/* creation, grow and shrink at any capacity */
void h_resized(void)
{
	int capacity = (int)nd_range(0, INT_MAX);
	int size = (int)nd_range(0, capacity);
	int to = nd_int();
	strbuf_t* b = any_buf(size, capacity, false);
	strview_t r = strbuf_grow(&b, to);
	VASSERT(b->size == size && b->capacity >= capacity && b->capacity >= to, "grow raises the capacity");
	VASSERT(HDR + (size_t)b->capacity + 1 <= valid, "which is allocated");
	VASSERT(r.data == b->cstr && r.size == size, "the content is the same");
	b->size = size = (int)nd_range(0, b->capacity);
	b->cstr[size] = 0;
	r = strbuf_shrink(&b);
	VASSERT(b->size == size && b->capacity == size, "shrink makes the capacity equal to the size");
	VASSERT(HDR + (size_t)size + 1 <= valid, "which is allocated");
	VREACH_IF(to == INT_MAX && capacity < INT_MAX, "grown to INT_MAX");
	VREACH_IF(to == INT_MIN, "negative");
	n_calls = 0;
	size_t k = (size_t)nd_raw();
	b = strbuf_create(k, &v_allocator);
	VASSERT(!!b == (k <= INT_MAX), "created up to INT_MAX, refused beyond");
	if(b)
	{
		VASSERT(b->capacity >= 0 && (size_t)b->capacity >= k && HDR + (size_t)b->capacity + 1 <= valid, "room for the capacity asked for");
		VASSERT(b->size == 0 && b->cstr[0] == 0, "empty");
	}
	else
		VASSERT(n_calls == 0, "nothing allocated");
	VREACH_IF(k == INT_MAX, "created for INT_MAX");
	VREACH_IF(k > UINT_MAX, "refused beyond");
}
