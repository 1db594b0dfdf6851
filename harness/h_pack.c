/* h_pack.c - byte order (A01), packing into a buffer and unpacking from a view (A02).
   T, T2, T3: types of the integers */
#include "xendian.h"
#include "buf.h"
#include "strbuf_pack.h"
#include "strview_unpack.h"

#ifndef T
	#define T int32_t
#endif
#ifndef T2
	#define T2 T
#endif
#ifndef T3
	#define T3 T2
#endif
#ifndef SIZE
	#define SIZE 0
#endif
#ifndef O1
	#define O1 0
	#define O2 0
	#define O3 0
#endif
#define IS_T(x) _Generic((x), T: 1, default: 0)

/* byte i of x as stored */
static unsigned byte_le(uint64_t x, int i)          { return (unsigned)(x >> 8*i) & 0xFF; }
static unsigned byte_be(uint64_t x, int n, int i)   { return byte_le(x, n - 1 - i); }

static T as_T(const unsigned char* b)
{
	union { T x; unsigned char b[sizeof(T)]; } u;
	for(int i = 0; i < (int)sizeof(T); i++)
		u.b[i] = b[i];
	return u.x;
}
static int n_eval;
static T arg(T x) { n_eval++; return x; }

/* A01, as compiled for a machine that stores the most significant byte first (-D__BYTE_ORDER__=__ORDER_BIG_ENDIAN__):
   byte i in memory then is the i-th most significant one of the value */
void h_big_endian(void)
{
	enum { N = sizeof(T) };
	const T x = (T)nd_raw();
	const uint64_t bits = (uint64_t)x;
	VASSERT(IS_T(xendian_pack_LE(x)) && IS_T(xendian_pack_BE(x)) && IS_T(xendian_unpack_LE(x)) && IS_T(xendian_unpack_BE(x)),
		"the type is that of the argument (big endian machine)");
	const uint64_t le = (uint64_t)xendian_pack_LE(x), be = (uint64_t)xendian_pack_BE(x);
	for(int i = 0; i < N; i++)
	{
		VASSERT(byte_be(le, N, i) == byte_le(bits, i), "least significant byte first (big endian machine)");
		VASSERT(byte_be(be, N, i) == byte_be(bits, N, i), "most significant byte first (big endian machine)");
	}
	VASSERT((T)xendian_unpack_LE((T)le) == x && (T)xendian_unpack_BE((T)be) == x, "inverse (big endian machine)");
	VASSERT((T)xendian_pack_LE(arg(x)) == (T)le && n_eval == 1, "an expression as the argument (big endian machine)");
	VREACH("done");
}
/* A01 */
void h_endian(void)
{
	enum { N = sizeof(T) };
	const T x = (T)nd_raw();
	const uint64_t bits = (uint64_t)x;
	union { T x; unsigned char b[N]; } le, be;
	unsigned char mem[N];

	VASSERT(IS_T(xendian_pack_LE(x)) && IS_T(xendian_pack_BE(x)) && IS_T(xendian_unpack_LE(x)) && IS_T(xendian_unpack_BE(x)),
		"the type is that of the argument");
	le.x = xendian_pack_LE(x);
	be.x = xendian_pack_BE(x);
	for(int i = 0; i < N; i++)
	{
		VASSERT(le.b[i] == byte_le(bits, i), "least significant byte first");
		VASSERT(be.b[i] == byte_be(bits, N, i), "most significant byte first");
	}
	VASSERT((T)xendian_unpack_LE(le.x) == x, "LE inverse");
	VASSERT((T)xendian_unpack_BE(be.x) == x, "BE inverse");
	VASSERT((T)xendian_pack_LE(xendian_unpack_LE(x)) == x, "LE inverse");
	VASSERT((T)xendian_pack_BE(xendian_unpack_BE(x)) == x, "BE inverse");

	/* an expression of the type as the argument, evaluated once */
	le.x = xendian_pack_LE(arg(x));
	VASSERT(n_eval == 1 && le.b[0] == byte_le(bits, 0), "an expression as the argument");
	be.x = xendian_pack_BE(arg(x));
	VASSERT(n_eval == 2 && be.b[0] == byte_be(bits, N, 0), "an expression as the argument");

	/* the value that bytes in memory hold */
	nd_bytes((char*)mem, N);
	uint64_t vl = 0, vb = 0;
	for(int i = 0; i < N; i++)
	{
		vl |= (uint64_t)mem[i] << 8*i;
		vb = vb << 8 | mem[i];
	}
	VASSERT(xendian_unpack_LE(as_T(mem)) == (T)vl, "the value of LE bytes");
	VASSERT(xendian_unpack_BE(as_T(mem)) == (T)vb, "the value of BE bytes");
	/* as part of a greater expression */
	if(sizeof(T) <= 4)
	{
		VASSERT((int64_t)xendian_unpack_BE(as_T(mem)) + 1 == (int64_t)(T)vb + 1, "as part of an expression");
		VASSERT((int64_t)xendian_unpack_LE(as_T(mem)) + 1 == (int64_t)(T)vl + 1, "as part of an expression");
	}
	VREACH_IF((T)vb != (T)vl || N == 1, "bytes which differ by their order");
}

/* what is appended is taken to the arena first, which decides the pointer comparisons for the symbolic execution */
static strview_t append_by_arena(strbuf_t** dst, strview_t v)
{
	VBOUND(v.size <= SN, "size appended at once");
	for(int i = 0; i < v.size; i++)
		SRC[i] = v.data[i];
	return strbuf_append_strview(dst, (strview_t){.data = SRC, .size = v.size});
}
#if BYARENA
	#define strbuf_append_strview append_by_arena
#endif
/* A02: one integer, on any content of SIZE bytes */
#ifndef BIG
	#define BIG 0
#endif
void h_pack(void)
{
	enum { N = sizeof(T) };
	static char ref[CAP + 1 + N];
	/* names a macro might use for its own */
	const T tmp = (T)nd_raw();
	strbuf_t* buf = nd_buf(SIZE, ref);
	#if BIG
		STRBUF_PACK_BE(&buf, tmp);
	#else
		STRBUF_PACK_LE(&buf, tmp);
	#endif
	for(int k = 0; k < N; k++)
		ref[SIZE + k] = (char)(BIG ? byte_be((uint64_t)tmp, N, k) : byte_le((uint64_t)tmp, k));
	check_result(buf, ref, SIZE + N, STRVIEW_INVALID);
	#if !FIXED
		end_buf(&buf);
	#endif
	VREACH("end");
}

/* A02: one integer from a view, which continues behind it or not */
void h_unpack(void)
{
	enum { N = sizeof(T) };
	unsigned char mem[2 + N + 2];
	for(int rest = 0; rest < 3; rest++)
		for(int big = 0; big < 2; big++)
		{
			struct { char before; T dst; char after; } v = {.before = 0x77, .after = 0x66};
			nd_bytes((char*)mem, sizeof mem);
			strview_t src = {.data = (char*)mem + 2, .size = N + rest};
			uint64_t val = 0;
			for(int i = 0; i < N; i++)
				val |= (uint64_t)mem[2 + i] << 8*(big ? N - 1 - i : i);
			if(big) STRVIEW_UNPACK_BE(v.dst, src);
			else    STRVIEW_UNPACK_LE(v.dst, src);
			VASSERT(v.dst == (T)val, "the value that the bytes hold");
			VASSERT(v.before == 0x77 && v.after == 0x66, "only the destination is set");
			VASSERT(src.size == rest, "exactly the bytes of the integer are taken");
			if(rest)
				VASSERT(src.data == (char*)mem + 2 + N, "the rest of the view remains");
			/* through pointers */
			T d2, *p = &d2;
			strview_t* w = &src;
			*w = (strview_t){.data = (char*)mem + 2, .size = N + rest};
			if(big) STRVIEW_UNPACK_BE(*p, *w);
			else    STRVIEW_UNPACK_LE(*p, *w);
			VASSERT(d2 == (T)val && src.size == rest, "destination and view by pointer");
		}
	VREACH("end");
}

/* A02: a sequence of three integers; O1..O3: the byte order of each */
#define PACK(big, dst, x) do { if(big) STRBUF_PACK_BE(dst, x); else STRBUF_PACK_LE(dst, x); } while(0)
#define UNPACK(big, x, v) do { if(big) STRVIEW_UNPACK_BE(x, v); else STRVIEW_UNPACK_LE(x, v); } while(0)
void h_packseq(void)
{
	strbuf_t* buf = new_buf();
	const T a = (T)nd_raw();
	const T2 b = (T2)nd_raw();
	const T3 c = (T3)nd_raw();
	PACK(O1, &buf, a);
	PACK(O2, &buf, b);
	PACK(O3, &buf, c);
	VASSERT(buf->size == (int)(sizeof a + sizeof b + sizeof c), "size of the record");
	strview_t view = strbuf_view(&buf);
	T a2;
	T2 b2;
	T3 c2;
	UNPACK(O1, a2, view);
	UNPACK(O2, b2, view);
	UNPACK(O3, c2, view);
	VASSERT(a2 == a && b2 == b && c2 == c, "what was packed is unpacked");
	VASSERT(view.size == 0, "nothing is left");
	VREACH("end");
}
