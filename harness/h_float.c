/* h_float.c - floating point conversions: syntax, values, overflow (N08..N10, N05) */
#include "num.h"

#define F_float(X)   X(float, float, 1.2e-7, 1e-44, 3.4028234e38)
#define F_double(X)  X(double, double, 2.3e-16, 1e-323, 1.7976931348623157e308)
#define F_ldouble(X) X(long double, ldouble, 1.1e-19, 1e-4949L, 1.18973149535723176502e4932L)
#define FROW_(R, X) R(X)
#define FROW(ty, X) FROW_(CAT(F_, ty), X)
#define X_FTYPE(c, n, eps, tiny, max) c
#define X_FCONSUME(c, n, eps, tiny, max) strnum_consume_##n
#define X_FVALUE(c, n, eps, tiny, max) strnum_##n
#define X_EPS(c, n, eps, tiny, max) eps
#define X_TINY(c, n, eps, tiny, max) tiny
#define X_FMAX(c, n, eps, tiny, max) max
#define FTYPE    FROW(FT, X_FTYPE)
#define FCONSUME FROW(FT, X_FCONSUME)
#define FVALUE   FROW(FT, X_FVALUE)
#define EPS      FROW(FT, X_EPS)
#define TINY     FROW(FT, X_TINY)		/* a few times the least positive value */
#define FMAX     FROW(FT, X_FMAX)

#ifdef VERIF_CBMC
/* pow() in the symbolic runs (the replay has the real one). POW_ANY: the property at hand does not depend on the
   power: one value, that is neither zero nor infinite, for all. Otherwise the powers of ten, correctly rounded. */
#ifdef POW_ANY
float powf(float x, float y)                         { return 1; }
double pow(double x, double y)                       { return 1; }
long double powl(long double x, long double y)       { return 1; }
#else
#include "powtab.h"
#define V_CORE(k) ((k) >= -26 && (k) <= 26)
#ifdef POW_FULL			/* also the powers near the limits of the type, or else those of -26 to 26 only */
	#define POW_BOUND(k, c) VBOUND(V_CORE(k) || (c), "a power in the table")
#else
	#define POW_BOUND(k, c) VBOUND(V_CORE(k), "a power in the table")
	#undef V_POWF_REST
	#undef V_POW_REST
	#undef V_POWL_REST
	#undef V_POWF_REST2
	#undef V_POW_REST2
	#undef V_POWL_REST2
	#define V_POWF_REST
	#define V_POW_REST
	#define V_POWL_REST
	#define V_POWF_REST2
	#define V_POW_REST2
	#define V_POWL_REST2
#endif
float powf(float x, float y)
{
	int k = y > 5000 ? 5000 : y < -5000 ? -5000 : (int)y;
	VBOUND(x == 10 && (k == y || k == 5000 || k == -5000), "pow() of 10 and an integer");
	POW_BOUND(k, true);
	switch(k) { V_POWF_CORE V_POWF_REST V_POWF_REST2 }
	return k > 0 ? __builtin_inff() : 0;
}
double pow(double x, double y)
{
	int k = y > 5000 ? 5000 : y < -5000 ? -5000 : (int)y;
	VBOUND(x == 10 && (k == y || k == 5000 || k == -5000), "pow() of 10 and an integer");
	POW_BOUND(k, k < -323 || (k >= -323 && k <= -300) || k >= 290);
	switch(k) { V_POW_CORE V_POW_REST V_POW_REST2 }
	return k > 0 ? __builtin_inf() : 0;
}
long double powl(long double x, long double y)
{
	int k = y > 5000 ? 5000 : y < -5000 ? -5000 : (int)y;
	VBOUND(x == 10 && (k == y || k == 5000 || k == -5000), "pow() of 10 and an integer");
	POW_BOUND(k, k < -4970 || (k >= -4940 && k <= -4925) || k >= 4920);
	switch(k) { V_POWL_CORE V_POWL_REST V_POWL_REST2 }
	return k > 0 ? __builtin_inf() : 0;
}
#endif
#endif

static inline bool same_float(FTYPE a, FTYPE b) { return a == b || (a != a && b != b); }

typedef struct { int err; bool neg; int kind; /* 0 number 1 inf 2 nan */ bool zero; bool exp_neg; long exp; int used; int used2; } ref_float_t;

/* does t + p start with the lower case word w, in any case */
static inline bool ref_word(const char* t, int p, int n, const char* w)
{
	int k = 0;
	bool ok = true;
	for(; w[k]; k++)
		if(p + k >= n || ref_up(t[p + k]) != w[k] - 32)
			ok = false;
	return ok;
}
static inline ref_float_t ref_float(const char* t, int n, int max, int options)
{
	ref_float_t r = {.err = EINVAL, .zero = true};
	int p = 0;
	bool more = !(options & STRNUM_NOSPACE), digits = false;
	for(int i = 0; i < max; i++)
	{
		if(i >= n || t[i] != ' ')
			more = false;
		if(more)
			p = i + 1;
	}
	if(!(options & STRNUM_NOSIGN) && p < n && (t[p] == '-' || t[p] == '+'))
	{
		r.neg = t[p] == '-';
		p++;
	}
	if(ref_word(t, p, n, "nan"))
		return (ref_float_t){.kind = 2, .used = p + 3};
	if(ref_word(t, p, n, "infinity"))
		return (ref_float_t){.kind = 1, .neg = r.neg, .used = p + 8};
	if(ref_word(t, p, n, "inf"))
		return (ref_float_t){.kind = 1, .neg = r.neg, .used = p + 3};
	bool point = false, end = false;
	for(int i = 0; i < max; i++)
		if(i >= p && !end)
		{
			if(i < n && t[i] >= '0' && t[i] <= '9')
			{
				digits = true;
				if(t[i] != '0')
					r.zero = false;
				r.used = i + 1;
			}
			else if(i < n && t[i] == '.' && !point)
			{
				point = true;
				r.used = i + 1;
			}
			else
				end = true;
		}
	if(!digits)
	{
		r.used = 0;
		return r;
	}
	r.err = 0;
	p = r.used;
	if(!(options & STRNUM_NOEXP) && p < n && (t[p] == 'e' || t[p] == 'E'))
	{
		bool neg = false, any = false;
		p++;
		if(p < n && (t[p] == '-' || t[p] == '+'))
		{
			neg = t[p] == '-';
			p++;
		}
		more = true;
		for(int i = 0; i < max; i++)
			if(i >= p)
			{
				if(i >= n || t[i] < '0' || t[i] > '9')
					more = false;
				if(more)
				{
					any = true;
					r.used = i + 1;
					r.exp = r.exp > 100000000000 ? r.exp : r.exp * 10 + (t[i] - '0');
				}
			}
		if(any)
		{
			if(neg)
				r.exp = -r.exp;
			if(r.exp < INT_MIN || r.exp > INT_MAX)
				r.err = ERANGE;
		}
	}
	return r;
}
static int nd_foptions(void)
{
	int o = 0;
	if(nd_bool()) o |= STRNUM_NOSIGN;
	if(nd_bool()) o |= STRNUM_NOSPACE;
	if(nd_bool()) o |= STRNUM_NOEXP;
	if(nd_bool()) o |= STRNUM_NOBX;
	return o;
}
#ifndef BIGEXP
	#define BIGEXP 30		/* the exponents with which no number of the length at hand overflows or becomes zero */
#endif
#ifndef CHECK_EXTRA
	#define CHECK_EXTRA
#endif
static void check_syntax(const char* t, int n, int max, int options)
{
	strview_t v = {.data = t, .size = n};
	FTYPE before = 42.5, dst = before;
	ref_float_t r = ref_float(t, n, max, options);
	VASSUME(r.err == ERANGE || r.zero || (r.exp >= -BIGEXP && r.exp <= BIGEXP));
	int err = FCONSUME(&dst, &v, options);
	if(r.err)
	{
		VASSERT(err == r.err, "EINVAL for what is no number, ERANGE for an exponent out of range");
		VASSERT(dst == before, "a failure leaves the destination");
		VASSERT(v.data == t && v.size == n, "a failure leaves the source");
	}
	else
	{
		VASSERT(err == 0, "a number is converted");
		VASSERT(v.size == n - r.used, "exactly the number is consumed");
		VASSERT(v.size == 0 || v.data == t + r.used, "the remainder follows the number");
		if(r.kind == 1)
			VASSERT(dst == (r.neg ? -(FTYPE)__builtin_inff() : (FTYPE)__builtin_inff()), "an infinity of the sign");
		else if(r.kind == 2)
			VASSERT(dst != dst, "a NaN");
		else if(r.zero)
			VASSERT(dst == 0, "zero");
		else
			VASSERT(r.neg ? dst < 0 && dst >= -FMAX : dst > 0 && dst <= FMAX, "a finite number of the sign");
	}
	VREACH_IF(err == 0, "number");
	CHECK_EXTRA
}
/* every text up to LEN characters */
#ifndef LEN
	#define LEN 4
#endif
#ifndef MINLEN
	#define MINLEN 0
#endif
void h_ftext(void)
{
	char t[OBJ(LEN) + 1];
	strview_t v = nd_view_in(t, MINLEN, LEN);
	int options = nd_foptions();
	#ifdef OPTVAL
		VASSUME(options == OPTVAL);
	#endif
	#ifdef FIRST		/* what the text starts with */
		static const char first[] = FIRST;
		for(int i = 0; i < (int)sizeof(FIRST) - 1; i++)
			VASSUME(i >= v.size || v.data[i] == first[i]);
	#endif
	check_syntax(v.data, v.size, LEN, options);
}
/* words: each letter of WORD in either case, or one of them replaced by any character, and TAILN more of any kind */
#ifndef WORD
	#define WORD "inf"
#endif
#ifndef TAILN
	#define TAILN 1
#endif
void h_fword(void)
{
	static const char w[] = WORD;
	enum { WL = sizeof(WORD) - 1, N = WL + TAILN };
	char t[N + 1];
	int n = (int)nd_range(0, N), wrong = (int)nd_range(-1, WL - 1), up = (int)nd_range(0, (1 << WL) - 1);
	for(int i = 0; i < WL; i++)
	{
		char c = w[i], other = nd_char();
		if(c >= 'a' && c <= 'z' && ((up >> i) & 1))
			c -= 32;
		t[i] = i == wrong ? other : c;
	}
	for(int i = WL; i < N; i++)
		t[i] = nd_char();
	check_syntax(t, n, N, nd_foptions());
}

/* every text up to LEN characters: what succeeds is finite but for inf and nan, what fails changes nothing */
void h_fsafe(void)
{
	char t[OBJ(LEN) + 1];
	strview_t v = nd_view_in(t, MINLEN, LEN), s = v;
	int options = nd_foptions();
	FTYPE before = 42.5, dst = before;
	ref_float_t r = ref_float(s.data, s.size, LEN, options);
	int err = FCONSUME(&dst, &v, options);
	VASSERT(err == r.err || (r.err == 0 && r.kind == 0 && !r.zero && r.exp > 0 && err == ERANGE), "EINVAL for what is no number, ERANGE only for what may be too large");
	if(err)
		VASSERT(dst == before && same_view(v, s), "a failure changes nothing");
	else if(r.kind == 0)
		VASSERT(dst >= -FMAX && dst <= FMAX && (r.zero ? dst == 0 : dst != 0), "what is converted is finite");
	VREACH_IF(err == EINVAL, "no number");
	VREACH_IF(err == 0 && r.exp == 19, "number with an exponent");
}

/* NULL and invalid */
void h_fnull(void)
{
	char t[OBJ(LEN) + 1];
	strview_t v = nd_view_in(t, 0, LEN), s = v, inv = STRVIEW_INVALID;
	int options = nd_foptions();
	FTYPE before = 42.5, dst = before;
	ref_float_t r = ref_float(s.data, s.size, LEN, options);
	VASSERT(FCONSUME(&dst, NULL, options) == EINVAL, "NULL source gives EINVAL");
	VASSERT(dst == before, "a failure leaves the destination");
	VASSERT(FCONSUME(&dst, &inv, options) == EINVAL, "invalid source gives EINVAL");
	VASSERT(dst == before && is_invalid(inv), "a failure leaves destination and source");
	VASSERT(FCONSUME(NULL, NULL, options) == EINVAL, "NULL source gives EINVAL");
	VASSERT(FCONSUME(NULL, &inv, options) == EINVAL && is_invalid(inv), "invalid source gives EINVAL");
	VASSERT(FVALUE(inv, before, options) == before, "the default is returned for an invalid view");
	int err = FCONSUME(NULL, &v, options);
	VASSERT((err == 0) == (r.err == 0), "a number is consumed without a destination");
	VASSERT(v.size == (err ? s.size : s.size - r.used), "exactly the number is consumed");
	VREACH_IF(err == 0, "number consumed without a destination");
	VREACH_IF(err != 0, "failure without a destination");
}
/* the function returning a value and the macro agree with the consume function */
void h_fvalue(void)
{
	char t[OBJ(LEN) + 1];
	strview_t v = nd_view_in(t, 0, LEN), w = v, s = v;
	int options = nd_foptions();
	FTYPE a = 42.5, b = 42.5;
	int e1 = FCONSUME(&a, &v, options);
	int e2 = strnum_value(&b, &w, options);
	VASSERT(e1 == e2 && same_float(a, b) && v.data == w.data && v.size == w.size, "strnum_value() is the function of the type");
	FTYPE r = FVALUE(s, (FTYPE)43.5, options);
	VASSERT(e1 ? r == 43.5 : same_float(r, a), "the value, or the default");
	VREACH_IF(!e1, "value");
	VREACH_IF(e1, "default");
}

/* ---------------------------------------------------------------- values
   The text is TEXT, in which every '#' is an arbitrary digit. The reference: the digits of MANT (a text of the digits,
   with the same #s) as an integer, times 10^SCALE. */
#ifdef TEXT
typedef long double wide_t;
static const char text[] = TEXT;
#define TEXT_LEN ((int)sizeof(TEXT) - 1)
#ifndef NDIG
	#define NDIG 19		/* the digits of the mantissa that count; those after them are zeros, or below the tolerance */
#endif
static uint64_t fill(char* t)
{
	uint64_t d = 0;
	bool exp = false;
	int digits = 0;
	for(int i = 0; i < TEXT_LEN; i++)
	{
		t[i] = text[i];
		if(text[i] == 'e' || text[i] == 'E')
			exp = true;
		if(text[i] == '#')
		{
			int k = (int)nd_range(0, 9);
			t[i] = '0' + k;
			if(exp || digits++ < NDIG)
				d = (d << 3) + (d << 1) + k;
		}
		else if(!exp && text[i] >= '0' && text[i] <= '9' && digits++ < NDIG)
			d = (d << 3) + (d << 1) + (text[i] - '0');
	}
	return d;
}
#ifndef SCALE
	#define SCALE 0
#endif
#ifndef TOL
	#define TOL (8 * EPS)
#endif
#ifndef SCALEF
	#define SCALEF 1.0
#endif
static bool text_is_negative(void)
{
	for(int i = 0; i < TEXT_LEN && text[i] != 'e' && text[i] != 'E'; i++)
		if(text[i] == '-')
			return true;
	return false;
}
/* the digits D of the text (at most 19) give D * SCALEF */
void h_fval(void)
{
	char t[TEXT_LEN + 1];
	uint64_t d = fill(t);
	strview_t v = {.data = t, .size = TEXT_LEN};
	FTYPE dst = 42.5;
	int err = FCONSUME(&dst, &v, 0);
	WIDE ref = (WIDE)d * (WIDE)SCALEF;
	if(text_is_negative())
		dst = -dst;
	VASSERT(err == 0, "a number within range is converted");
	VASSERT(v.size == 0, "all of it is consumed");
	VASSERT(dst >= ref * ((WIDE)1 - (WIDE)(TOL)) - (WIDE)TINY && dst <= ref * ((WIDE)1 + (WIDE)(TOL)) + (WIDE)TINY, "the value is that of the digits");
	VREACH("value");
}
/* the same digits written in two ways */
#ifdef TEXT2
void h_fsame(void)
{
	char t[TEXT_LEN + 1];
	static const char text2[] = TEXT2;
	char t2[sizeof(TEXT2)];
	fill(t);
	int k = 0;
	for(int i = 0; i < (int)sizeof(TEXT2) - 1; i++)
	{
		t2[i] = text2[i];
		if(text2[i] == '#')
		{
			while(text[k] != '#')
				k++;
			t2[i] = t[k++];
		}
	}
	strview_t v = {.data = t, .size = TEXT_LEN}, w = {.data = t2, .size = (int)sizeof(TEXT2) - 1};
	FTYPE a = 42.5, b = 43.5;
	VASSERT(FCONSUME(&a, &v, 0) == 0 && FCONSUME(&b, &w, 0) == 0, "both are converted");
	FTYPE tol = (a < 0 ? -a : a) * (FTYPE)(TOL) + (FTYPE)TINY;
	VASSERT(a >= b - tol && a <= b + tol, "both have the same value");
	VREACH("same");
}
#endif
#ifdef LIMIT
/* out of the range of the type for each value of the digits of at least LIMIT (their integer value), within for those
   of at most LIMIT-1 */
void h_frange(void)
{
	char t[TEXT_LEN + 1];
	uint64_t d = fill(t);
	strview_t v = {.data = t, .size = TEXT_LEN};
	FTYPE dst = 42.5;
	int err = FCONSUME(&dst, &v, 0);
	if(d >= LIMIT)
	{
		VASSERT(err == ERANGE, "what is too large for the type gives ERANGE");
		VASSERT(dst == 42.5 && v.data == t && v.size == TEXT_LEN, "a failure changes nothing");
		VASSERT(FVALUE(v, 44.5, 0) == 44.5, "the default is returned");
		VREACH("too large");
	}
	else
	{
		VASSERT(err == 0, "what is within range is converted");
		VASSERT(dst == dst && dst >= -(FMAX) && dst <= FMAX, "a finite value");
		#if LIMIT > 0
			VREACH("within range");
		#endif
	}
}
#endif
#endif
