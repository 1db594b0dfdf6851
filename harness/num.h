/* num.h - reference definition of the integer texts strnum accepts, and the types it converts to */
#ifndef VERIF_NUM_H
#define VERIF_NUM_H
#include "verif.h"
#include "strnum.h"
#include "view.h"

/* TYPES: a row for each type: its C type, name in strnum_<name>, limits, signed, has a strnum_consume_<name> */
#define T_uchar(X)  X(unsigned char,      uchar,  0,         UCHAR_MAX,  0)
#define T_ushort(X) X(unsigned short,     ushort, 0,         USHRT_MAX,  0)
#define T_uint(X)   X(unsigned int,       uint,   0,         UINT_MAX,   0)
#define T_ulong(X)  X(unsigned long,      ulong,  0,         ULONG_MAX,  0)
#define T_ullong(X) X(unsigned long long, ullong, 0,         ULLONG_MAX, 0)
#define T_char(X)   X(char,               char,   CHAR_MIN,  CHAR_MAX,   1)
#define T_short(X)  X(short,              short,  SHRT_MIN,  SHRT_MAX,   1)
#define T_int(X)    X(int,                int,    INT_MIN,   INT_MAX,    1)
#define T_long(X)   X(long,               long,   LONG_MIN,  LONG_MAX,   1)
#define T_llong(X)  X(long long,          llong,  LLONG_MIN, LLONG_MAX,  1)
#define T_u8(X)     X(uint8_t,            u8,     0,         255,        0)
#define T_u16(X)    X(uint16_t,           u16,    0,         65535,      0)
#define T_u32(X)    X(uint32_t,           u32,    0,         4294967295u, 0)
#define T_u64(X)    X(uint64_t,           u64,    0,         18446744073709551615ull, 0)
#define T_i8(X)     X(int8_t,             i8,     -128,      127,        1)
#define T_i16(X)    X(int16_t,            i16,    -32768,    32767,      1)
#define T_i32(X)    X(int32_t,            i32,    -2147483647-1, 2147483647, 1)
#define T_i64(X)    X(int64_t,            i64,    -9223372036854775807ll-1, 9223372036854775807ll, 1)

#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define ROW_(R, X) R(X)
#define ROW(ty, X) ROW_(CAT(T_, ty), X)
#ifdef TY
	#define X_CTYPE(c, n, lo, hi, s) c
	#define X_CONSUME(c, n, lo, hi, s) strnum_consume_##n
	#define X_VALUE(c, n, lo, hi, s) strnum_##n
	#define X_MIN(c, n, lo, hi, s) (lo)
	#define X_MAX(c, n, lo, hi, s) (hi)
	#define X_SIGNED(c, n, lo, hi, s) s
	#define CTYPE    ROW(TY, X_CTYPE)
	#define CONSUME  ROW(TY, X_CONSUME)
	#define VALUE    ROW(TY, X_VALUE)
	#define TY_MIN    ROW(TY, X_MIN)
	#define TY_MAX    ROW(TY, X_MAX)
	#define SIGNED   ROW(TY, X_SIGNED)
#endif

typedef struct
{
	int err;			/* 0, EINVAL or ERANGE */
	bool neg;
	uint64_t mag;		/* magnitude, if it is less than 2^64 */
	bool big;			/* it is not */
	int used;			/* characters the number takes */
}ref_num_t;

static inline int ref_digit(char c, int base)
{
	int d = -1;
	if(c >= '0' && c <= '9')
		d = c - '0';
	else if(c >= 'a' && c <= 'f')
		d = c - 'a' + 10;
	else if(c >= 'A' && c <= 'F')
		d = c - 'A' + 10;
	return d < base ? d : -1;
}

static inline void ref_add_digit(ref_num_t* r, unsigned base, unsigned d)
{
	uint64_t q = UINT64_MAX / base, rem = UINT64_MAX % base;
	if(r->mag > q || (r->mag == q && d > rem))
		r->big = true;
	r->mag = (base == 10 ? (r->mag << 3) + (r->mag << 1) : base == 16 ? r->mag << 4 : r->mag << 1) + d;
}

/* the grammar: spaces? sign? prefix? digits, over the n characters at t (n <= max) */
static inline ref_num_t ref_number(const char* t, int n, int max, int options, bool is_signed)
{
	ref_num_t r = {.err = EINVAL};
	int base = (options & STRNUM_BASE_BIN) ? 2 : (options & STRNUM_BASE_HEX) ? 16 : 10;
	int p = 0, d;
	bool more;

	more = !(options & STRNUM_NOSPACE);
	for(int i = 0; i < max; i++)
	{
		if(i >= n || t[i] != ' ')
			more = false;
		if(more)
			p = i + 1;
	}
	if(is_signed && !(options & STRNUM_NOSIGN) && p < n && (t[p] == '-' || t[p] == '+'))
	{
		r.neg = t[p] == '-';
		p++;
	}
	if(!(options & STRNUM_NOBX) && p + 1 < n && t[p] == '0')
	{
		if((t[p+1] == 'x' || t[p+1] == 'X') && !(options & STRNUM_BASE_BIN))
			base = 16, p += 2;
		else if((t[p+1] == 'b' || t[p+1] == 'B') && !(options & STRNUM_BASE_HEX))
			base = 2, p += 2;
	}
	more = true;
	for(int i = 0; i < max; i++)
		if(i >= p)
		{
			d = i < n ? ref_digit(t[i], base) : -1;
			if(d < 0)
				more = false;
			if(more)
			{
				r.err = 0;
				ref_add_digit(&r, base, (unsigned)d);
				r.used = i + 1;
			}
		}
	return r;
}
/* is the number within the limits of a type */
static inline bool ref_fits(ref_num_t r, long long lo, unsigned long long hi)
{
	if(r.big)
		return false;
	if(r.neg)
		return r.mag <= (lo < 0 ? -(unsigned long long)lo : 0);
	return r.mag <= hi;
}
#define REF_OF(t, n, max, options, lo, hi, s) ({ \
	ref_num_t r_ = ref_number((t), (n), (max), (options), (s)); \
	if(!r_.err && !ref_fits(r_, (long long)(lo), (unsigned long long)(hi))) r_.err = ERANGE; \
	r_; })
#define REF_VALUE(r, ctype) ((ctype)((r).neg ? -(r).mag : (r).mag))

/* what a conversion did is what the grammar says: of the n characters at t, err with dst and v left */
#define CHECK_CONVERSION(ref, err, ctype, dst, before, v, t, n) do { \
	if((ref).err == 0) \
	{ \
		VASSERT((err) == 0, "a number within range is converted"); \
		VASSERT((dst) == REF_VALUE(ref, ctype), "the value is that of the digits"); \
		VASSERT((v).size == (n) - (ref).used, "exactly the number is consumed"); \
		VASSERT((v).size == 0 || (v).data == (t) + (ref).used, "the remainder follows the number"); \
	} \
	else \
	{ \
		VASSERT((err) == (ref).err, "EINVAL if there is no number, ERANGE if it is out of range"); \
		VASSERT((dst) == (before), "a failure leaves the destination"); \
		VASSERT((v).data == (t) && (v).size == (n), "a failure leaves the source"); \
	} \
} while(0)

/* any option but both bases at once */
static inline int nd_options(void)
{
	int o = (int)nd_range(0, 63);
	VASSUME(!((o & STRNUM_BASE_BIN) && (o & STRNUM_BASE_HEX)));
	return o;
}
#endif
