/* buf.h - arbitrary buffers, the recording allocator and the checks shared by the strbuf harnesses */
#ifndef VERIF_BUF_H
#define VERIF_BUF_H
#include "view.h"
#include "strbuf.h"

/* G: which groups of assertions the query decides (one group per property); memory safety is
   always decided */
#define G_WELLFORMED	1	/* B01 */
#define G_CONTENT	2	/* B02, B03, B05, B06, B10-B13, B17, B18 */
#define G_FIXED		4	/* B04 */
#define G_ALLOC		8	/* B07 */
#define G_CAPACITY	16	/* B08 */
#ifndef G
	#define G 31
#endif
#define GASSERT(g, c, msg) do { if(G & (g)) VASSERT(c, msg); } while(0)

#ifndef CAP
	#define CAP 4		/* capacity of the buffer before the operation */
#endif
#ifndef FIXED
	#define FIXED 0
#endif
#ifndef SN
	#define SN 5		/* bytes of a source */
#endif
/* ARENA 1: all memory is part of one object, which keeps pointer comparisons decidable during symbolic
            execution. What lies outside of the blocks is filled with GUARD and checked afterwards.
   ARENA 0: every block is an object of its own and of the exact size, so that CBMC's own checks find
            every access outside of it, reads included, and any use after release. */
#ifndef ARENA
	#define ARENA 1
#endif
#ifndef INPLACE
	#define INPLACE 0	/* 1: the allocator resizes blocks without moving them, 0: it always moves them */
#endif
#ifndef AK
	#define AK ((CAP) + (SN) + 2*STRBUF_CAPACITY_GROW_STEP)	/* largest capacity of a block in the arena */
#endif
#ifndef NBLK
	#define NBLK (FIXED ? 1 : INPLACE ? 1 : 2)
#endif
#ifndef REUSE
	#define REUSE 0		/* 1: the memory of released blocks is allocated again */
#endif
#ifndef STDLIB
	#define STDLIB 0	/* 1: the default allocator of the library, on top of realloc() and free() of this file */
#endif
#define GUARD 0x5A

/* the layout of a buffer of capacity k; packed, so that nothing lies behind the terminator */
#define BUF_SPACE(k) struct __attribute__((packed)) { strbuf_t buf; char bdy[(k) + 1]; }

typedef struct { char* p; size_t size; bool live; } blk_t;
static blk_t blk[NBLK];
static int n_blk, n_calls, n_live;
static int cookie;		/* app_data */

#if ARENA
	static struct __attribute__((packed, aligned(16)))
	{
		char guard0[8];
		struct __attribute__((packed)) { BUF_SPACE(AK) b; char pad[8 - (AK + 1) % 8]; } b[NBLK];
		char src[SN + 1 + 8];
		char pad[8 - (SN + 1) % 8];	/* the buffers are aligned */
		BUF_SPACE(CAP) fixed;
		char guard1[8];
	} arena;
	#define SRC (arena.src)
	#define FIXED_SPACE (arena.fixed)
	#define BODY(i) (arena.b[i].b.bdy)
#else
	static char src_space[SN + 1];
	#define SRC src_space
	static BUF_SPACE(CAP) fixed_space __attribute__((aligned(8)));
	#define FIXED_SPACE fixed_space
#endif
#define HDR sizeof(strbuf_t)

/* ---------------------------------------------------------------- the allocator */
#if !ARENA
#ifdef VERIF_CBMC
/* blocks of the usual sizes are structs rather than arrays of bytes: far easier on the solver */
static void* sys_alloc(size_t n)
{
	#define C1(k)  case HDR + (k) + 1: return malloc(sizeof(BUF_SPACE(k)));
	#define C8(k)  C1(k) C1(k+1) C1(k+2) C1(k+3) C1(k+4) C1(k+5) C1(k+6) C1(k+7)
	switch(n)
	{
		C8(0) C8(8) C8(16) C8(24)
	}
	return malloc(n);
}
#else
static void* sys_alloc(size_t n) { return malloc(n); }
#endif
#endif

static int blk_find(const void* p)
{
	int r = -1;
	for(int i = 0; i < NBLK; i++)
		if(i < n_blk && blk[i].live && blk[i].p == (const char*)p)
			r = i;
	return r;
}
static void blk_copy(char* dst, const char* src, size_t n)
{
	size_t i = 0;
	if(n >= HDR)
	{
		*(strbuf_t*)dst = *(const strbuf_t*)src;
		i = HDR;
	}
	for(; i < n; i++)
		dst[i] = src[i];
}
static void blk_release(int i)
{
	blk[i].live = false;
	n_live--;
	#if ARENA
		/* nobody may rely on what was there, or change it */
		blk[i].size = 0;
		for(int k = 0; k <= AK; k++)
			BODY(i)[k] = GUARD;
		arena.b[i].b.buf.size = -1;
	#else
		free(blk[i].p);
	#endif
}
static void* v_alloc(struct strbuf_allocator_t* this, void* ptr, size_t size)
{
	char* p = NULL;
	int old = -1;
	n_calls++;
	if(!STDLIB)
		GASSERT(G_ALLOC, this && this->app_data == &cookie && this->allocator == v_alloc, "the allocator gets its own instance");
	#ifdef OTHER_SIZE
		/* blocks of another kind than buffers */
		if(!ptr && size == OTHER_SIZE)
			return other_alloc();
		if(ptr && !size && other_free(ptr))
			return NULL;
	#endif
	if(ptr)
	{
		old = blk_find(ptr);
		GASSERT(G_ALLOC, old >= 0, "only live blocks of this allocator are resized or released");
		VASSUME(old >= 0);
	}
	if(!size)
	{
		if(ptr)
			blk_release(old);
		return NULL;
	}
	#if ARENA
		GASSERT(G_CAPACITY, ptr == NULL || size <= HDR + AK + 1, "no more is requested than the content and the step call for");
		VBOUND(size <= HDR + AK + 1, "size of the blocks of the arena");
		if(INPLACE && ptr)
		{
			for(int k = 0; k <= AK; k++)
				if(HDR + k >= size)
					BODY(old)[k] = GUARD;
			blk[old].size = size;
			return ptr;
		}
	#endif
	int slot = 0;
	while(slot < NBLK && slot < n_blk && (!REUSE || blk[slot].live))
		slot++;
	VBOUND(slot < NBLK, "number of blocks");
	#if ARENA
		p = (char*)&arena.b[slot].b;
	#else
		p = sys_alloc(size);
	#endif
	blk[slot].p = p;
	blk[slot].size = size;
	blk[slot].live = true;
	if(slot == n_blk)
		n_blk++;
	n_live++;
	if(ptr)
	{
		blk_copy(p, ptr, blk[old].size < size ? blk[old].size : size);
		blk_release(old);
	}
	return p;
}
static strbuf_allocator_t v_allocator = {.app_data = &cookie, .allocator = v_alloc};
#if STDLIB
	/* compiled with -Drealloc=v_realloc and so on */
	void* v_malloc(size_t size) { return v_alloc(NULL, NULL, size); }
	void* v_calloc(size_t n, size_t size)
	{
		char* p = v_alloc(NULL, NULL, n*size);
		for(size_t i = 0; i < n*size; i++)
			p[i] = 0;
		return p;
	}
	void* v_realloc(void* p, size_t size)
	{
		GASSERT(G_ALLOC, size, "realloc() is not relied on to release");
		return v_alloc(NULL, p, size);
	}
	void v_free(void* p) { v_alloc(NULL, p, 0); }
	#define THE_ALLOCATOR NULL
#else
	#define THE_ALLOCATOR (&v_allocator)
#endif

static bool mem_ready;		/* all blocks were released, and mem_check() found the rest unmodified */
static void mem_reset(void)
{
	n_blk = n_calls = n_live = 0;
	#if ARENA
		if(mem_ready)
			return;
		mem_ready = true;
		for(int i = 0; i < NBLK; i++)
			blk[i] = (blk_t){0};
		for(int i = 0; i < NBLK; i++)
		{
			for(int k = 0; k <= AK; k++)
				BODY(i)[k] = GUARD;
			for(int k = 0; k < (int)sizeof arena.b[i].pad; k++)
				arena.b[i].pad[k] = GUARD;
		}
		for(int k = 0; k < 8; k++)
			arena.guard0[k] = arena.src[SN + 1 + k] = arena.guard1[k] = GUARD;
	#endif
}
/* nothing was written outside of the blocks, or to those released */
static void mem_check(void)
{
	#if ARENA && (G & (G_WELLFORMED|G_FIXED|G_ALLOC))
		for(int i = 0; i < NBLK; i++)
		{
			for(int k = 0; k <= AK; k++)
				if(i >= n_blk || HDR + k >= blk[i].size)
					GASSERT(G_WELLFORMED|G_FIXED|G_ALLOC, BODY(i)[k] == GUARD, "nothing is written outside of the allocation");
			for(int k = 0; k < (int)sizeof arena.b[i].pad; k++)
				GASSERT(G_WELLFORMED|G_FIXED|G_ALLOC, arena.b[i].pad[k] == GUARD, "nothing is written outside of the allocation");
		}
		for(int k = 0; k < 8; k++)
			GASSERT(G_WELLFORMED|G_FIXED|G_ALLOC, arena.guard0[k] == GUARD && arena.src[SN + 1 + k] == GUARD && arena.guard1[k] == GUARD,
				"nothing is written outside of the allocation");
	#endif
}

/* ---------------------------------------------------------------- an arbitrary buffer */
static strbuf_t* new_buf(void)
{
	mem_reset();
	#if FIXED
		strbuf_t* b = strbuf_create_fixed(&FIXED_SPACE, HDR + CAP + 1);
		VASSERT(b == &FIXED_SPACE.buf && b->capacity == CAP && b->size == 0 && !b->allocator.allocator && !b->allocator.app_data && !b->cstr[0],
			"the fixed buffer is created where and as asked for");
		/* no effect, as just asserted; for the solver this removes the dependency on the alignment of the address */
		b = &FIXED_SPACE.buf;
		b->capacity = CAP;
		b->allocator.allocator = NULL;
		b->allocator.app_data = NULL;
		return b;
	#else
		return strbuf_create_empty(CAP, THE_ALLOCATOR);
	#endif
}
/* a buffer of capacity CAP holding size arbitrary bytes, which are copied to ref; what lies behind the
   terminator is arbitrary */
static strbuf_t* nd_buf(int size, char* ref)
{
	strbuf_t* b = new_buf();
	nd_bytes(b->cstr, CAP + 1);
	for(int i = 0; i < size; i++)
		ref[i] = b->cstr[i];
	b->cstr[size] = 0;
	b->size = size;
	return b;
}

/* ---------------------------------------------------------------- checks after an operation */
static inline int ref_round(int n)
{
	return n % STRBUF_CAPACITY_GROW_STEP ? n + STRBUF_CAPACITY_GROW_STEP - n % STRBUF_CAPACITY_GROW_STEP : n;
}
/* B01 */
static void check_wellformed(strbuf_t* b, size_t bytes, strview_t v)
{
	GASSERT(G_WELLFORMED, 0 <= b->size && b->size <= b->capacity, "0 <= size <= capacity");
	GASSERT(G_WELLFORMED, HDR + (size_t)b->capacity + 1 <= bytes, "capacity and terminator lie within the allocation");
	GASSERT(G_WELLFORMED, b->cstr[b->size] == 0, "the content is terminated");
	GASSERT(G_WELLFORMED, !v.data || (v.data == b->cstr && v.size == b->size), "the view returned is the content");
}
static void check_content(strbuf_t* b, const char* ref, int size)
{
	GASSERT(G_CONTENT|G_FIXED, b->size == size, "size of the content");
	if(b->size == size)
		for(int i = 0; i < size; i++)
			GASSERT(G_CONTENT|G_FIXED, b->cstr[i] == ref[i], "content");
}
/* the buffer is a live block, the only one */
static int check_live(strbuf_t* b)
{
	int at = blk_find(b);
	GASSERT(G_ALLOC, at >= 0, "the buffer is a live block of its allocator");
	GASSERT(G_ALLOC, n_live == 1, "which is the only one");
	if(!STDLIB)
		GASSERT(G_ALLOC, b->allocator.allocator == v_alloc && b->allocator.app_data == &cookie, "the buffer keeps its allocator");
	VASSUME(at >= 0);
	return at;
}
static void check_fixed(strbuf_t* b)
{
	GASSERT(G_FIXED|G_ALLOC|G_CAPACITY, b == &FIXED_SPACE.buf, "a fixed buffer does not move");
	GASSERT(G_FIXED|G_CAPACITY, b->capacity == CAP, "a fixed buffer keeps its capacity");
	GASSERT(G_FIXED|G_ALLOC, b->allocator.allocator == NULL && n_calls == 0, "a fixed buffer uses no allocator");
}
/* after one operation whose result is ref[0..size), on a buffer of capacity CAP */
static void check_result(strbuf_t* b, const char* ref, int size, strview_t v)
{
	GASSERT(G_WELLFORMED, b != NULL, "the buffer exists");
	#if FIXED
		check_fixed(b);
		check_wellformed(b, HDR + CAP + 1, v);
		check_content(b, ref, size <= CAP ? size : 0);
	#else
		int at = check_live(b);
		check_wellformed(b, blk[at].size, v);
		check_content(b, ref, size);
		GASSERT(G_CAPACITY, b->capacity == (size <= CAP ? CAP : ref_round(size)),
			"the capacity is left alone if sufficient and otherwise a multiple of the step");
		GASSERT(G_CAPACITY, size > CAP || n_calls == 1, "no allocator call if the capacity is sufficient");
	#endif
	mem_check();
}
static void end_buf(strbuf_t** b)
{
	strbuf_destroy(b);
	GASSERT(G_ALLOC, *b == NULL, "destroy sets the pointer to NULL");
	GASSERT(G_ALLOC, n_live == 0, "nothing is live after destroy");
	mem_check();
}
#endif
