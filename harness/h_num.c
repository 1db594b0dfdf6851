/* h_num.c - integer conversions against the grammar of num.h (N01..N07) */
#include "num.h"
#ifndef LEN
	#define LEN 4
#endif
#ifndef OPT
	#define OPT 0
#endif

#ifdef ALLDIGITS
/* The queries whose text has no character but digits to be classified (-Disdigit=v_isdigit): that isdigit() is true for
   each of them is an obligation here, and a constant for the symbolic execution of the code */
#ifdef VERIF_CBMC
int v_isdigit(int c)  { VBOUND(c >= '0' && c <= '9', "isdigit() is asked about digits only"); return 1; }
int v_isxdigit(int c) { VBOUND(ref_digit((char)c, 16) >= 0, "isxdigit() is asked about digits only"); return 1; }
#endif
#endif

/* every text of exactly LEN characters and every option, one type */
void h_text(void)
{
	#ifndef MINLEN
		#define MINLEN LEN
	#endif
	char t[OBJ(LEN) + 1];
	strview_t v = nd_view_in(t, MINLEN, LEN), s = v;
	int options = nd_options();
	#ifdef OPTMASK
		VASSUME((options & OPTMASK) == OPTVAL);
	#endif
	CTYPE before = (CTYPE)nd_raw(), dst = before;
	ref_num_t ref = REF_OF(s.data, s.size, LEN, options, TY_MIN, TY_MAX, SIGNED);
	int err = CONSUME(&dst, &v, options);
	CHECK_CONVERSION(ref, err, CTYPE, dst, before, v, s.data, s.size);
	VREACH_IF(err == 0, "conversion");
	VREACH_IF(err == EINVAL, "no number");
}

/* The shape: SPACES spaces, SIGN (0 none, '+', '-'), PREFIX (0 none, 'x', 'b'), ZEROS zeros, the digits LEAD (a string
   literal without leading zeros), then DIGITS arbitrary digits of the base, then the characters TAIL (a string literal;
   not starting with a digit). The reference value is computed from the values of the digits, not from the text. */
#ifndef SPACES
	#define SPACES 0
#endif
#ifndef SIGN
	#define SIGN 0
#endif
#ifndef PREFIX
	#define PREFIX 0
#endif
#ifndef ZEROS
	#define ZEROS 0
#endif
#ifndef LEAD
	#define LEAD ""
#endif
#ifndef DIGITS
	#define DIGITS 3
#endif
#ifndef TAIL
	#define TAIL ""
#endif
#define BASE_OF_SHAPE (PREFIX == 'x' || PREFIX == 'X' || (OPT & STRNUM_BASE_HEX) ? 16 \
					 : PREFIX == 'b' || PREFIX == 'B' || (OPT & STRNUM_BASE_BIN) ? 2 : 10)
#define LEAD_LEN ((int)sizeof(LEAD) - 1)
#define TAIL_LEN ((int)sizeof(TAIL) - 1)
#define SHAPE_LEN (SPACES + (SIGN ? 1 : 0) + (PREFIX ? 2 : 0) + ZEROS + LEAD_LEN + DIGITS + TAIL_LEN)
static ref_num_t shape(char* t)
{
	static const char lead[] = LEAD, tail[] = TAIL;
	ref_num_t r = {.err = ZEROS + LEAD_LEN + DIGITS && !(SIGN && (!SIGNED || (OPT & STRNUM_NOSIGN))) ? 0 : EINVAL, .neg = SIGN == '-'};
	int n = 0;
	for(int i = 0; i < SPACES; i++)
		t[n++] = ' ';
	if(SIGN)
		t[n++] = SIGN;
	if(PREFIX)
	{
		t[n++] = '0';
		t[n++] = PREFIX;
	}
	for(int i = 0; i < ZEROS; i++)
		t[n++] = '0';
	for(int i = 0; i < LEAD_LEN; i++)
	{
		ref_add_digit(&r, BASE_OF_SHAPE, ref_digit(lead[i], BASE_OF_SHAPE));
		t[n++] = lead[i];
	}
	for(int i = 0; i < DIGITS; i++)
	{
		unsigned d = (unsigned)nd_range(0, BASE_OF_SHAPE - 1);
		ref_add_digit(&r, BASE_OF_SHAPE, d);
		t[n++] = d < 10 ? '0' + d : (nd_bool() ? 'a' : 'A') + d - 10;
	}
	r.used = n;
	for(int i = 0; i < TAIL_LEN; i++)
		t[n++] = tail[i];
	if(!r.err && !ref_fits(r, TY_MIN, TY_MAX))
		r.err = ERANGE;
	return r;
}
void h_shape(void)
{
	char t[SHAPE_LEN + 1];
	const int n = SHAPE_LEN;
	ref_num_t ref = shape(t);
	strview_t v = {.data = t, .size = n};
	CTYPE before = (CTYPE)nd_raw(), dst = before;
	int err = CONSUME(&dst, &v, OPT);
	CHECK_CONVERSION(ref, err, CTYPE, dst, before, v, t, n);
	VREACH("converted");
}

/* the function returning a value, and the macro, against the same definition */
void h_value(void)
{
	char t[OBJ(LEN) + 1];
	strview_t v = nd_view_in(t, 0, LEN);
	int options = nd_options();
	CTYPE dfault = (CTYPE)nd_raw();
	ref_num_t ref = REF_OF(v.data, v.size, LEN, options, TY_MIN, TY_MAX, SIGNED);
	CTYPE r = VALUE(v, dfault, options);
	if(ref.err)
		VASSERT(r == dfault, "the default is returned for what is not a number of the type");
	else
		VASSERT(r == REF_VALUE(ref, CTYPE), "the value of the number is returned");
	VREACH_IF(!ref.err, "value");
	VREACH_IF(ref.err, "default");
}
void h_value_shape(void)
{
	char t[SHAPE_LEN + 1];
	const int n = SHAPE_LEN;
	ref_num_t ref = shape(t);
	strview_t v = {.data = t, .size = n};
	CTYPE dfault = (CTYPE)nd_raw();
	CTYPE r = VALUE(v, dfault, OPT);
	if(ref.err)
		VASSERT(r == dfault, "the default is returned for what is out of the range of the type");
	else
		VASSERT(r == REF_VALUE(ref, CTYPE), "the value of the number is returned");
	VREACH("value");
}
void h_generic(void)
{
	#if !defined(NOGENERIC)
	char t[OBJ(LEN) + 1];
	strview_t v = nd_view_in(t, 0, LEN), s = v;
	int options = nd_options();
	CTYPE before = (CTYPE)nd_raw(), dst = before;
	ref_num_t ref = REF_OF(s.data, s.size, LEN, options, TY_MIN, TY_MAX, SIGNED);
	int err = strnum_value(&dst, &v, options);
	CHECK_CONVERSION(ref, err, CTYPE, dst, before, v, s.data, s.size);
	VREACH_IF(err == 0, "value");
	#endif
}
void h_generic_shape(void)
{
	char t[SHAPE_LEN + 1];
	const int n = SHAPE_LEN;
	ref_num_t ref = shape(t);
	strview_t v = {.data = t, .size = n};
	CTYPE before = (CTYPE)nd_raw(), dst = before;
	int err = strnum_value(&dst, &v, OPT);
	CHECK_CONVERSION(ref, err, CTYPE, dst, before, v, t, n);
	VREACH("value");
}

/* NULL and invalid sources, NULL destination, NULL both */
void h_null(void)
{
	char t[OBJ(LEN) + 1];
	strview_t v = nd_view_in(t, 0, LEN), s = v, inv = STRVIEW_INVALID;
	int options = nd_options();
	CTYPE before = (CTYPE)nd_raw(), dst = before;
	ref_num_t ref = REF_OF(s.data, s.size, LEN, options, TY_MIN, TY_MAX, SIGNED);
	VASSERT(CONSUME(&dst, NULL, options) == EINVAL, "NULL source gives EINVAL");
	VASSERT(dst == before, "a failure leaves the destination");
	VASSERT(CONSUME(&dst, &inv, options) == EINVAL, "invalid source gives EINVAL");
	VASSERT(dst == before && is_invalid(inv), "a failure leaves destination and source");
	VASSERT(CONSUME(NULL, NULL, options) == EINVAL, "NULL source gives EINVAL");
	VASSERT(CONSUME(NULL, &inv, options) == EINVAL && is_invalid(inv), "invalid source gives EINVAL");
	VASSERT(VALUE(inv, before, options) == before, "the default is returned for an invalid view");
	int err = CONSUME(NULL, &v, options);
	CHECK_CONVERSION(ref, err, CTYPE, REF_VALUE(ref, CTYPE), REF_VALUE(ref, CTYPE), v, s.data, s.size);
	VREACH_IF(err == 0, "number consumed without a destination");
	VREACH_IF(err != 0, "failure without a destination");
}

/* numbers separated by single characters, read one after the other; ROUNDS conversions */
#ifndef ROUNDS
	#define ROUNDS 3
#endif
void h_list(void)
{
	char t[OBJ(LEN) + 1];
	strview_t v = nd_view_in(t, 0, LEN), s = v;
	int options = nd_options();
	int p = 0, got = 0;
	for(int k = 0; k < ROUNDS; k++)
	{
		CTYPE before = (CTYPE)nd_raw(), dst = before;
		strview_t b = v;
		if(!strview_is_valid(v))
			break;
		VASSERT(v.size == 0 || v.data == s.data + p, "the conversion starts where the one before ended");
		ref_num_t ref = REF_OF(s.data + p, s.size - p, LEN, options, TY_MIN, TY_MAX, SIGNED);
		int err = CONSUME(&dst, &v, options);
		if(ref.err)
		{
			VASSERT(err == ref.err && dst == before && v.data == b.data && v.size == b.size, "a failure changes nothing");
			break;
		}
		VASSERT(err == 0 && dst == REF_VALUE(ref, CTYPE), "the value is that of the digits");
		p += ref.used;
		got++;
		VASSERT(v.size == s.size - p, "exactly the number is consumed");
		if(p == s.size)
			break;
		char c = strview_pop_first_char(&v);
		VASSERT(c == s.data[p], "the remainder starts with the character after the number");
		p++;
	}
	VREACH_IF(got == ROUNDS, "all rounds convert");
}
