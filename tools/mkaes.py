#!/usr/bin/env python3
"""writes harness/fips.h: AES after FIPS-197, the S-boxes computed from their definition"""
def mul(a, b):
    r = 0
    while b:
        if b & 1: r ^= a
        a <<= 1
        if a & 256: a ^= 0x11b
        b >>= 1
    return r
def inv(a):
    return next((x for x in range(256) if mul(a, x) == 1), 0)
def aff(x):
    r = 0
    for i in range(8):
        b = x >> i ^ x >> (i + 4) % 8 ^ x >> (i + 5) % 8 ^ x >> (i + 6) % 8 ^ x >> (i + 7) % 8 ^ 0x63 >> i
        r |= (b & 1) << i
    return r
S = [aff(inv(i)) for i in range(256)]
I = [S.index(i) for i in range(256)]
assert S[0x53] == 0xed and I[0] == 0x52
def tab(n, t):
    return 'static const uint8_t %s[256] = {%s\n};\n' % (n, ','.join(('\n\t' if i % 16 == 0 else ' ') + '0x%02x' % v for i, v in enumerate(t)))
import os
open(os.path.join(os.path.dirname(__file__), '..', 'harness', 'fips.h'), 'w').write('''/* fips.h - AES after FIPS-197, independent of the code in /repo; written by tools/mkaes.py */
#ifndef VERIF_FIPS_H
#define VERIF_FIPS_H
#include <stdint.h>
''' + tab('F_S', S) + tab('F_I', I) + '''
/* the product in GF(2)[x]/(x^8 + red), section 4.2 */
static inline uint8_t f_mul(uint8_t a, uint8_t b, uint8_t red)
{
	unsigned p = 0;
	for(int i = 0; i < 8; i++)
		if(a >> i & 1)
			p ^= (unsigned)b << i;
	for(int i = 14; i >= 8; i--)
		if(p >> i & 1)
			p ^= (0x100u | red) << (i - 8);
	return (uint8_t)p;
}
static inline uint8_t f_x(uint8_t a) { return (uint8_t)(a << 1 ^ (a & 0x80 ? 0x1b : 0)); }	/* xtime */

/* 5.1: the state in the order of the bytes of the block, s[r,c] = s[r + 4c] */
static void f_add(uint8_t* s, const uint8_t* k) { for(int i = 0; i < 16; i++) s[i] ^= k[i]; }
static void f_subshift(uint8_t* s)
{
	uint8_t t[16];
	for(int c = 0; c < 4; c++)
		for(int r = 0; r < 4; r++)
			t[r + 4*c] = F_S[s[r + 4*((c + r) % 4)]];
	for(int i = 0; i < 16; i++)
		s[i] = t[i];
}
static void f_mix(uint8_t* s)
{
	for(int c = 0; c < 4; c++)
	{
		uint8_t a = s[4*c], b = s[4*c + 1], d = s[4*c + 2], e = s[4*c + 3];
		s[4*c]     = f_x(a) ^ (f_x(b) ^ b) ^ d ^ e;
		s[4*c + 1] = a ^ f_x(b) ^ (f_x(d) ^ d) ^ e;
		s[4*c + 2] = a ^ b ^ f_x(d) ^ (f_x(e) ^ e);
		s[4*c + 3] = (f_x(a) ^ a) ^ b ^ d ^ f_x(e);
	}
}
/* nr rounds, as in figure 5 */
static void f_cipher(uint8_t* s, const uint8_t (*w)[16], int nr)
{
	f_add(s, w[0]);
	for(int i = 1; i < nr; i++)
	{
		f_subshift(s);
		f_mix(s);
		f_add(s, w[i]);
	}
	f_subshift(s);
	f_add(s, w[nr]);
}
/* 5.3 */
static void f_invsubshift(uint8_t* s)
{
	uint8_t t[16];
	for(int c = 0; c < 4; c++)
		for(int r = 0; r < 4; r++)
			t[r + 4*((c + r) % 4)] = F_I[s[r + 4*c]];
	for(int i = 0; i < 16; i++)
		s[i] = t[i];
}
static uint8_t f_c(uint8_t a, int k)	/* k times a */
{
	uint8_t a2 = f_x(a), a4 = f_x(a2), a8 = f_x(a4);
	return (k & 1 ? a : 0) ^ (k & 2 ? a2 : 0) ^ (k & 4 ? a4 : 0) ^ (k & 8 ? a8 : 0);
}
static void f_invmix(uint8_t* s)
{
	for(int c = 0; c < 4; c++)
	{
		uint8_t a = s[4*c], b = s[4*c + 1], d = s[4*c + 2], e = s[4*c + 3];
		s[4*c]     = f_c(a, 14) ^ f_c(b, 11) ^ f_c(d, 13) ^ f_c(e, 9);
		s[4*c + 1] = f_c(a, 9) ^ f_c(b, 14) ^ f_c(d, 11) ^ f_c(e, 13);
		s[4*c + 2] = f_c(a, 13) ^ f_c(b, 9) ^ f_c(d, 14) ^ f_c(e, 11);
		s[4*c + 3] = f_c(a, 11) ^ f_c(b, 13) ^ f_c(d, 9) ^ f_c(e, 14);
	}
}
/* the same by another way: the matrix is circ(2,3,1,1) times circ(5,0,4,0); see h_invmix() */
static void f_invmix2(uint8_t* s)
{
	for(int c = 0; c < 4; c++)
	{
		uint8_t a = s[4*c], b = s[4*c + 1], d = s[4*c + 2], e = s[4*c + 3];
		uint8_t t = d ^ e, u = a ^ b, z = f_c(t ^ u, 9);
		uint8_t w = z ^ f_c(d ^ a, 4), v = z ^ f_c(e ^ b, 4);
		s[4*c]     = a ^ w ^ f_x(u);
		s[4*c + 1] = b ^ v ^ f_x(d ^ b);
		s[4*c + 2] = d ^ w ^ f_x(t);
		s[4*c + 3] = e ^ v ^ f_x(a ^ e);
	}
}
#ifndef INVMIX
	#define INVMIX f_invmix
#endif
static void f_invcipher(uint8_t* s, const uint8_t (*w)[16], int nr)
{
	f_add(s, w[nr]);
	for(int i = nr - 1; i >= 1; i--)
	{
		f_invsubshift(s);
		f_add(s, w[i]);
		INVMIX(s);
	}
	f_invsubshift(s);
	f_add(s, w[0]);
}
/* 5.2: word i of the key expansion for nk words of key, from the words before */
static void f_word(uint8_t* out, const uint8_t* w, int i, int nk)
{
	static const uint8_t rcon[] = {0x8d, 0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80, 0x1b, 0x36};
	uint8_t t[4];
	for(int k = 0; k < 4; k++)
		t[k] = w[4*(i - 1) + k];
	if(i % nk == 0)
	{
		uint8_t t0 = t[0];
		t[0] = F_S[t[1]] ^ rcon[i/nk];
		t[1] = F_S[t[2]];
		t[2] = F_S[t[3]];
		t[3] = F_S[t0];
	}
	else if(nk > 6 && i % nk == 4)
		for(int k = 0; k < 4; k++)
			t[k] = F_S[t[k]];
	for(int k = 0; k < 4; k++)
		out[k] = w[4*(i - nk) + k] ^ t[k];
}
#endif
''')
