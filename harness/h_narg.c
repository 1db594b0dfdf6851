/* h_narg.c - strbuf_cat() with each number of arguments it is documented to count (B05). The arguments are A(n-1) ...
   A(0), views of one byte at A(0), A(8), A(16) ... and empty ones otherwise; their content is symbolic. COUNTS: the calls */
#include "buf.h"

static strview_t A(int i)
{
	return (strview_t){.data = SRC + i, .size = i % 8 == 0};
}

static void check(strbuf_t* b, int n, strview_t r)
{
	int size = 0;
	for(int i = n - 1; i >= 0; i--)
		if(i % 8 == 0)
		{
			VASSERT(size >= b->size || b->cstr[size] == SRC[i], "every argument is stored, in order");
			size++;
		}
	VASSERT(b->size == size && r.size == size && r.data == b->cstr, "as many bytes as the arguments have");
}
#ifndef STUB
void h_narg(void)
{
	strbuf_t* b = new_buf();
	nd_bytes(SRC, SN + 1);
	COUNTS
	VREACH("done");
}
#else
/* the same for every count, with the function behind the macro replaced by one that tells its arguments */
static int got_n, got_first;
strview_t _strbuf_cat(strbuf_t** buf_ptr, int n_args, ...)
{
	va_list va;
	(void)buf_ptr;
	va_start(va, n_args);
	got_n = n_args;
	got_first = va_arg(va, strview_t).size;
	va_end(va);
	return STRVIEW_INVALID;
}
static strview_t I(int i) { return (strview_t){.data = SRC, .size = i}; }
static void expect(int n, int first)
{
	VASSERT(got_n == n, "the arguments are counted");
	VASSERT(got_first == first, "the first argument is the first");
}
void h_count(void)
{
	strbuf_t* b = NULL;
	int first = nd_int();
	COUNTS
	VREACH("done");
}
#endif
