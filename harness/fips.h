/* fips.h - AES after FIPS-197, independent of the code in /repo; written by tools/mkaes.py */
#ifndef VERIF_FIPS_H
#define VERIF_FIPS_H
#include <stdint.h>
static const uint8_t F_S[256] = {
	0x63, 0x7c, 0x77, 0x7b, 0xf2, 0x6b, 0x6f, 0xc5, 0x30, 0x01, 0x67, 0x2b, 0xfe, 0xd7, 0xab, 0x76,
	0xca, 0x82, 0xc9, 0x7d, 0xfa, 0x59, 0x47, 0xf0, 0xad, 0xd4, 0xa2, 0xaf, 0x9c, 0xa4, 0x72, 0xc0,
	0xb7, 0xfd, 0x93, 0x26, 0x36, 0x3f, 0xf7, 0xcc, 0x34, 0xa5, 0xe5, 0xf1, 0x71, 0xd8, 0x31, 0x15,
	0x04, 0xc7, 0x23, 0xc3, 0x18, 0x96, 0x05, 0x9a, 0x07, 0x12, 0x80, 0xe2, 0xeb, 0x27, 0xb2, 0x75,
	0x09, 0x83, 0x2c, 0x1a, 0x1b, 0x6e, 0x5a, 0xa0, 0x52, 0x3b, 0xd6, 0xb3, 0x29, 0xe3, 0x2f, 0x84,
	0x53, 0xd1, 0x00, 0xed, 0x20, 0xfc, 0xb1, 0x5b, 0x6a, 0xcb, 0xbe, 0x39, 0x4a, 0x4c, 0x58, 0xcf,
	0xd0, 0xef, 0xaa, 0xfb, 0x43, 0x4d, 0x33, 0x85, 0x45, 0xf9, 0x02, 0x7f, 0x50, 0x3c, 0x9f, 0xa8,
	0x51, 0xa3, 0x40, 0x8f, 0x92, 0x9d, 0x38, 0xf5, 0xbc, 0xb6, 0xda, 0x21, 0x10, 0xff, 0xf3, 0xd2,
	0xcd, 0x0c, 0x13, 0xec, 0x5f, 0x97, 0x44, 0x17, 0xc4, 0xa7, 0x7e, 0x3d, 0x64, 0x5d, 0x19, 0x73,
	0x60, 0x81, 0x4f, 0xdc, 0x22, 0x2a, 0x90, 0x88, 0x46, 0xee, 0xb8, 0x14, 0xde, 0x5e, 0x0b, 0xdb,
	0xe0, 0x32, 0x3a, 0x0a, 0x49, 0x06, 0x24, 0x5c, 0xc2, 0xd3, 0xac, 0x62, 0x91, 0x95, 0xe4, 0x79,
	0xe7, 0xc8, 0x37, 0x6d, 0x8d, 0xd5, 0x4e, 0xa9, 0x6c, 0x56, 0xf4, 0xea, 0x65, 0x7a, 0xae, 0x08,
	0xba, 0x78, 0x25, 0x2e, 0x1c, 0xa6, 0xb4, 0xc6, 0xe8, 0xdd, 0x74, 0x1f, 0x4b, 0xbd, 0x8b, 0x8a,
	0x70, 0x3e, 0xb5, 0x66, 0x48, 0x03, 0xf6, 0x0e, 0x61, 0x35, 0x57, 0xb9, 0x86, 0xc1, 0x1d, 0x9e,
	0xe1, 0xf8, 0x98, 0x11, 0x69, 0xd9, 0x8e, 0x94, 0x9b, 0x1e, 0x87, 0xe9, 0xce, 0x55, 0x28, 0xdf,
	0x8c, 0xa1, 0x89, 0x0d, 0xbf, 0xe6, 0x42, 0x68, 0x41, 0x99, 0x2d, 0x0f, 0xb0, 0x54, 0xbb, 0x16
};
static const uint8_t F_I[256] = {
	0x52, 0x09, 0x6a, 0xd5, 0x30, 0x36, 0xa5, 0x38, 0xbf, 0x40, 0xa3, 0x9e, 0x81, 0xf3, 0xd7, 0xfb,
	0x7c, 0xe3, 0x39, 0x82, 0x9b, 0x2f, 0xff, 0x87, 0x34, 0x8e, 0x43, 0x44, 0xc4, 0xde, 0xe9, 0xcb,
	0x54, 0x7b, 0x94, 0x32, 0xa6, 0xc2, 0x23, 0x3d, 0xee, 0x4c, 0x95, 0x0b, 0x42, 0xfa, 0xc3, 0x4e,
	0x08, 0x2e, 0xa1, 0x66, 0x28, 0xd9, 0x24, 0xb2, 0x76, 0x5b, 0xa2, 0x49, 0x6d, 0x8b, 0xd1, 0x25,
	0x72, 0xf8, 0xf6, 0x64, 0x86, 0x68, 0x98, 0x16, 0xd4, 0xa4, 0x5c, 0xcc, 0x5d, 0x65, 0xb6, 0x92,
	0x6c, 0x70, 0x48, 0x50, 0xfd, 0xed, 0xb9, 0xda, 0x5e, 0x15, 0x46, 0x57, 0xa7, 0x8d, 0x9d, 0x84,
	0x90, 0xd8, 0xab, 0x00, 0x8c, 0xbc, 0xd3, 0x0a, 0xf7, 0xe4, 0x58, 0x05, 0xb8, 0xb3, 0x45, 0x06,
	0xd0, 0x2c, 0x1e, 0x8f, 0xca, 0x3f, 0x0f, 0x02, 0xc1, 0xaf, 0xbd, 0x03, 0x01, 0x13, 0x8a, 0x6b,
	0x3a, 0x91, 0x11, 0x41, 0x4f, 0x67, 0xdc, 0xea, 0x97, 0xf2, 0xcf, 0xce, 0xf0, 0xb4, 0xe6, 0x73,
	0x96, 0xac, 0x74, 0x22, 0xe7, 0xad, 0x35, 0x85, 0xe2, 0xf9, 0x37, 0xe8, 0x1c, 0x75, 0xdf, 0x6e,
	0x47, 0xf1, 0x1a, 0x71, 0x1d, 0x29, 0xc5, 0x89, 0x6f, 0xb7, 0x62, 0x0e, 0xaa, 0x18, 0xbe, 0x1b,
	0xfc, 0x56, 0x3e, 0x4b, 0xc6, 0xd2, 0x79, 0x20, 0x9a, 0xdb, 0xc0, 0xfe, 0x78, 0xcd, 0x5a, 0xf4,
	0x1f, 0xdd, 0xa8, 0x33, 0x88, 0x07, 0xc7, 0x31, 0xb1, 0x12, 0x10, 0x59, 0x27, 0x80, 0xec, 0x5f,
	0x60, 0x51, 0x7f, 0xa9, 0x19, 0xb5, 0x4a, 0x0d, 0x2d, 0xe5, 0x7a, 0x9f, 0x93, 0xc9, 0x9c, 0xef,
	0xa0, 0xe0, 0x3b, 0x4d, 0xae, 0x2a, 0xf5, 0xb0, 0xc8, 0xeb, 0xbb, 0x3c, 0x83, 0x53, 0x99, 0x61,
	0x17, 0x2b, 0x04, 0x7e, 0xba, 0x77, 0xd6, 0x26, 0xe1, 0x69, 0x14, 0x63, 0x55, 0x21, 0x0c, 0x7d
};

/* the product in GF(2)[x]/(x^8 + red), section 4.2 */
static inline uint8_t f_mul(uint8_t a, uint8_t b, uint8_t red)
{
	unsigned p = 0;
	for(int i = 0; i < 8; i++)
		if(a >> i & 1)
			p ^= (unsigned)b << i;
	for(int i = 14; i >= 8; i--)
		if(p >> i & 1)
			p ^= (0x100u | red) << (i - 8);
	return (uint8_t)p;
}
static inline uint8_t f_x(uint8_t a) { return (uint8_t)(a << 1 ^ (a & 0x80 ? 0x1b : 0)); }	/* xtime */

/* 5.1: the state in the order of the bytes of the block, s[r,c] = s[r + 4c] */
static void f_add(uint8_t* s, const uint8_t* k) { for(int i = 0; i < 16; i++) s[i] ^= k[i]; }
static void f_subshift(uint8_t* s)
{
	uint8_t t[16];
	for(int c = 0; c < 4; c++)
		for(int r = 0; r < 4; r++)
			t[r + 4*c] = F_S[s[r + 4*((c + r) % 4)]];
	for(int i = 0; i < 16; i++)
		s[i] = t[i];
}
static void f_mix(uint8_t* s)
{
	for(int c = 0; c < 4; c++)
	{
		uint8_t a = s[4*c], b = s[4*c + 1], d = s[4*c + 2], e = s[4*c + 3];
		s[4*c]     = f_x(a) ^ (f_x(b) ^ b) ^ d ^ e;
		s[4*c + 1] = a ^ f_x(b) ^ (f_x(d) ^ d) ^ e;
		s[4*c + 2] = a ^ b ^ f_x(d) ^ (f_x(e) ^ e);
		s[4*c + 3] = (f_x(a) ^ a) ^ b ^ d ^ f_x(e);
	}
}
/* nr rounds, as in figure 5 */
static void f_cipher(uint8_t* s, const uint8_t (*w)[16], int nr)
{
	f_add(s, w[0]);
	for(int i = 1; i < nr; i++)
	{
		f_subshift(s);
		f_mix(s);
		f_add(s, w[i]);
	}
	f_subshift(s);
	f_add(s, w[nr]);
}
/* 5.3 */
static void f_invsubshift(uint8_t* s)
{
	uint8_t t[16];
	for(int c = 0; c < 4; c++)
		for(int r = 0; r < 4; r++)
			t[r + 4*((c + r) % 4)] = F_I[s[r + 4*c]];
	for(int i = 0; i < 16; i++)
		s[i] = t[i];
}
static uint8_t f_c(uint8_t a, int k)	/* k times a */
{
	uint8_t a2 = f_x(a), a4 = f_x(a2), a8 = f_x(a4);
	return (k & 1 ? a : 0) ^ (k & 2 ? a2 : 0) ^ (k & 4 ? a4 : 0) ^ (k & 8 ? a8 : 0);
}
static void f_invmix(uint8_t* s)
{
	for(int c = 0; c < 4; c++)
	{
		uint8_t a = s[4*c], b = s[4*c + 1], d = s[4*c + 2], e = s[4*c + 3];
		s[4*c]     = f_c(a, 14) ^ f_c(b, 11) ^ f_c(d, 13) ^ f_c(e, 9);
		s[4*c + 1] = f_c(a, 9) ^ f_c(b, 14) ^ f_c(d, 11) ^ f_c(e, 13);
		s[4*c + 2] = f_c(a, 13) ^ f_c(b, 9) ^ f_c(d, 14) ^ f_c(e, 11);
		s[4*c + 3] = f_c(a, 11) ^ f_c(b, 13) ^ f_c(d, 9) ^ f_c(e, 14);
	}
}
/* the same by another way: the matrix is circ(2,3,1,1) times circ(5,0,4,0); see h_invmix() */
static void f_invmix2(uint8_t* s)
{
	for(int c = 0; c < 4; c++)
	{
		uint8_t a = s[4*c], b = s[4*c + 1], d = s[4*c + 2], e = s[4*c + 3];
		uint8_t t = d ^ e, u = a ^ b, z = f_c(t ^ u, 9);
		uint8_t w = z ^ f_c(d ^ a, 4), v = z ^ f_c(e ^ b, 4);
		s[4*c]     = a ^ w ^ f_x(u);
		s[4*c + 1] = b ^ v ^ f_x(d ^ b);
		s[4*c + 2] = d ^ w ^ f_x(t);
		s[4*c + 3] = e ^ v ^ f_x(a ^ e);
	}
}
#ifndef INVMIX
	#define INVMIX f_invmix
#endif
static void f_invcipher(uint8_t* s, const uint8_t (*w)[16], int nr)
{
	f_add(s, w[nr]);
	for(int i = nr - 1; i >= 1; i--)
	{
		f_invsubshift(s);
		f_add(s, w[i]);
		INVMIX(s);
	}
	f_invsubshift(s);
	f_add(s, w[0]);
}
/* 5.2: word i of the key expansion for nk words of key, from the words before */
static void f_word(uint8_t* out, const uint8_t* w, int i, int nk)
{
	static const uint8_t rcon[] = {0x8d, 0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80, 0x1b, 0x36};
	uint8_t t[4];
	for(int k = 0; k < 4; k++)
		t[k] = w[4*(i - 1) + k];
	if(i % nk == 0)
	{
		uint8_t t0 = t[0];
		t[0] = F_S[t[1]] ^ rcon[i/nk];
		t[1] = F_S[t[2]];
		t[2] = F_S[t[3]];
		t[3] = F_S[t0];
	}
	else if(nk > 6 && i % nk == 4)
		for(int k = 0; k < 4; k++)
			t[k] = F_S[t[k]];
	for(int k = 0; k < 4; k++)
		out[k] = w[4*(i - nk) + k] ^ t[k];
}
#endif
