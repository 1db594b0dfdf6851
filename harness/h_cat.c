/* h_cat.c - strbuf_cat and strbuf_vcat (B05, B01, B04, B07, B08). Which arguments are given is enumerated, their
   content is symbolic. */
#include "buf.h"
#ifndef NARGS
	#define NARGS 2
#endif
#ifndef FEW
	#define FEW 0
#endif
#ifndef SLO
	#define SLO 0
#endif
#ifndef SHI
	#define SHI CAP
#endif
#ifndef VCAT
	#define VCAT 0
#endif
/* ARGS: one call with these arguments only. Used for invalid views: the solver, and not symbolic execution, has to
   decide how NULL compares with pointers into the buffer, so these are queries of their own, of small bounds. */
#define ASIZE (CAP > SN ? CAP : SN)

typedef struct { int from, n; } arg_t;	/* from -2: invalid, -1: outside of the buffer, otherwise within it */
static arg_t arg[40];
static int n_arg;

static strview_t vcat(strbuf_t** b, int n, ...)
{
	va_list va;
	va_start(va, n);
	strview_t r = strbuf_vcat(b, n, va);
	va_end(va);
	return r;
}

static void body(int s, arg_t* a)
{
	static char ref[2*CAP + 3*ASIZE + 1], prev[CAP + 1];
	int size = 0;
	bool self = false;
	strbuf_t* b = nd_buf(s, prev);
	strview_t v[3], r;

	nd_bytes(SRC, SN + 1);
	for(int i = 0; i < NARGS; i++)
	{
		v[i] = STRVIEW_INVALID;
		if(a[i].from == -1)
			v[i] = (strview_t){.data = SRC, .size = a[i].n};
		if(a[i].from >= 0)
		{
			v[i] = (strview_t){.data = b->cstr + a[i].from, .size = a[i].n};
			self = true;
		}
		for(int k = 0; k < v[i].size; k++)
			ref[size++] = v[i].data[k];
	}
	#if VCAT
		#define CAT vcat
	#else
		#define CAT _strbuf_cat
	#endif
	#if NARGS == 1
		r = CAT(&b, 1, v[0]);
	#elif NARGS == 2
		r = CAT(&b, 2, v[0], v[1]);
	#else
		#if VCAT
			r = CAT(&b, 3, v[0], v[1], v[2]);
		#else
			r = strbuf_cat(&b, v[0], v[1], v[2]);
		#endif
	#endif
	GASSERT(G_WELLFORMED, b != NULL, "the buffer exists");
	#if FIXED
		check_fixed(b);
		check_wellformed(b, HDR + CAP + 1, r);
		if(!self)
			check_content(b, ref, size <= CAP ? size : 0);
	#else
		int at = check_live(b);
		check_wellformed(b, blk[at].size, r);
		check_content(b, ref, size);
		GASSERT(G_CAPACITY, b->capacity == (size <= CAP ? CAP : ref_round(size)),
			"the capacity is left alone if sufficient and otherwise a multiple of the step");
	#endif
	mem_check();
	end_buf(&b);
}

void h_cat(void)
{
	#ifdef ARGS
		arg_t one[] = { ARGS };
		body(SLO, one);
	#else
	for(int s = SLO; s <= SHI; s++)
	{
		n_arg = 0;
		for(int n = 0; n <= SN; n += FEW ? SN : 1)
			arg[n_arg++] = (arg_t){-1, n};
		#if FEW
			if(FIXED && SN > 2)
				arg[n_arg++] = (arg_t){-1, 1};
			arg[n_arg++] = (arg_t){0, s};
			if(s > 1)
			{
				arg[n_arg++] = (arg_t){s - 1, 1};
				arg[n_arg++] = (arg_t){0, s - 1};
			}
			if(s > 2)
				arg[n_arg++] = (arg_t){1, s - 1};
		#else
			for(int from = 0; from <= s; from++)
				for(int n = from || !s ? 1 : 0; n <= s - from || (n == 1 && s == from); n++)
					arg[n_arg++] = (arg_t){from, s == from ? 0 : n};
		#endif
		arg_t a[3];
		for(int i = 0; i < n_arg; i++)
		{
			a[0] = arg[i];
			#if NARGS > 1
			for(int j = 0; j < n_arg; j++)
			{
				a[1] = arg[j];
				#if NARGS > 2
				for(int k = 0; k < n_arg; k++)
				{
					a[2] = arg[k];
				#endif
			#endif
					body(s, a);
			#if NARGS > 1
				#if NARGS > 2
				}
				#endif
			}
			#endif
		}
	}
	#endif
	VREACH("all done");
}
