/*
 * verif.h - the interface between a harness and its two executions:
 *   - symbolic: compiled by goto-cc with -DVERIF_CBMC, every nd_*() is an
 *     unconstrained solver variable (bounded by VASSUME), every VASSERT an obligation;
 *   - replay:   compiled by gcc with sanitizers, nd_*() returns the values the solver
 *     found, in the same order, and a VASSERT that fails ends the program with code 3.
 * A harness uses only the public API of /repo, so it does not depend on how the
 * implementation is written.
 */
#ifndef VERIF_H
#define VERIF_H

#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdarg.h>
#include <limits.h>
#include <errno.h>
#include <string.h>

#ifdef VERIF_CBMC
	long nondet_long(void);
	long nd_raw(void);
	void* malloc(size_t);
	void free(void*);
	#define VASSUME(c)      __CPROVER_assume(c)
	#define VASSERT(c, msg) __CPROVER_assert((c), "PROP: " msg)
	/* a limit of the harness, not of the code: beyond it there is no verdict */
	#define VBOUND(c, msg)  do { __CPROVER_assert((c), "BOUND: " msg); __CPROVER_assume(c); } while(0)
	#define VREACH(msg)     __CPROVER_assert(0, "REACH: " msg)
	#define VREACH_IF(c, msg) __CPROVER_assert(!(c), "REACH: " msg)
#else
	#include <stdio.h>
	#include <stdlib.h>
	long nd_raw(void);
	void v_fail(const char* msg, const char* file, int line);
	void v_skip(const char* what, const char* file, int line);
	#define VASSUME(c)      do { if(!(c)) v_skip(#c, __FILE__, __LINE__); } while(0)
	#define VASSERT(c, msg) do { if(!(c)) v_fail(msg, __FILE__, __LINE__); } while(0)
	#define VBOUND(c, msg)  VASSUME(c)
	#define VREACH(msg)     do {} while(0)
	#define VREACH_IF(c, msg) do {} while(0)
#endif

/* an arbitrary integer within [lo,hi] */
static inline long nd_range(long lo, long hi)
{
	long v = nd_raw();
	VASSUME(lo <= v && v <= hi);
	return v;
}
static inline int  nd_int(void)  { return (int)nd_range(INT_MIN, INT_MAX); }
static inline char nd_char(void) { return (char)nd_range(CHAR_MIN, CHAR_MAX); }
/* n arbitrary bytes */
static inline void nd_bytes(char* a, int n)
{
	unsigned long w = 0;
	for(int i = 0; i < n; i++)
	{
		if(i % 8 == 0)
			w = (unsigned long)nd_raw();
		a[i] = (char)(w >> 8*(i % 8));
	}
}
static inline bool nd_bool(void) { return (bool)nd_range(0, 1); }

#endif
