/* h_aes.c - the AES tables, key schedule and block cipher (A05, A06, A07) */
#include "verif.h"
#include "fips.h"
#include "aes/aes_types.h"
#include "aes/aes_keyschedule.h"
#include "aes/aes_enc.h"
#include "aes/aes_dec.h"
#include "aes/aes256_enc.h"
#include "aes/aes256_dec.h"
#include "aes/aes_sbox.h"
#include "aes/aes_invsbox.h"
#include "aes/gf256mul.h"

#ifndef NR
	#define NR 2
#endif

/* ---------------------------------------------------------------- A05 */
void h_sbox(void)
{
	uint8_t b = (uint8_t)nd_range(0, 255), inv = (uint8_t)nd_range(0, 255);
	VASSUME(b ? f_mul(b, inv, 0x1b) == 1 : inv == 0);
	uint8_t s = 0;
	for(int i = 0; i < 8; i++)
		s |= ((inv >> i ^ inv >> (i + 4) % 8 ^ inv >> (i + 5) % 8 ^ inv >> (i + 6) % 8 ^ inv >> (i + 7) % 8 ^ 0x63 >> i) & 1) << i;
	VASSERT(aes_sbox[b] == s, "the S-box is the affine transform of the inverse");
	VASSERT(aes_invsbox[s] == b, "the inverse S-box inverts it");
	VASSERT(F_S[b] == s && F_I[s] == b, "the tables of the harness");
	VREACH_IF(b == 0, "0");
	VREACH_IF(b == 255, "255");
}
void h_invsbox(void)
{
	uint8_t b = (uint8_t)nd_range(0, 255);
	VASSERT(aes_sbox[aes_invsbox[b]] == b, "the S-box inverts the inverse S-box");
	VREACH("end");
}
void h_gfmul(void)
{
	#ifdef RED
		const uint8_t red = RED;
	#else
		const uint8_t red = (uint8_t)nd_range(0, 255);
	#endif
	#ifdef FACTOR
		const uint8_t a = FACTOR;
	#else
		const uint8_t a = (uint8_t)nd_range(0, 255);
	#endif
	uint8_t b = (uint8_t)nd_range(0, 255);
	VASSERT(gf256mul(a, b, red) == f_mul(a, b, red), "the product in the field");
	VREACH("end");
}

/* ---------------------------------------------------------------- A06 */
#ifndef KEYBITS
	#define KEYBITS 256
#endif
#define NK (KEYBITS/32)
#define KEYS (NK + 7)
void h_keys(void)
{
	struct { uint8_t before[4]; uint8_t key[NK*4]; uint8_t after[4]; } k, was;
	static struct { uint8_t before[16]; uint8_t w[16*KEYS]; uint8_t after[16]; } c;
	nd_bytes((char*)k.key, NK*4);
	for(int i = 0; i < NK*4; i++)
		was.key[i] = k.key[i];
	for(int i = 0; i < 16; i++)
		c.before[i] = c.after[i] = 0x5A;
	#if KEYBITS == 256
		aes256_init(k.key, (aes256_ctx_t*)c.w);
	#elif KEYBITS == 192
		aes192_init(k.key, (aes192_ctx_t*)c.w);
	#else
		aes128_init(k.key, (aes128_ctx_t*)c.w);
	#endif
	for(int i = 0; i < NK*4; i++)
	{
		VASSERT(c.w[i] == k.key[i], "the first words are the key");
		VASSERT(k.key[i] == was.key[i], "the key is not changed");
	}
	for(int i = NK; i < 4*KEYS; i++)
	{
		uint8_t w[4];
		f_word(w, c.w, i, NK);
		for(int j = 0; j < 4; j++)
			VASSERT(c.w[4*i + j] == w[j], "the word of the key expansion");
	}
	for(int i = 0; i < 16; i++)
		VASSERT(c.before[i] == 0x5A && c.after[i] == 0x5A, "only the context is written");
	VREACH_IF(c.w[16*KEYS - 1] == 0x12, "end");
}

/* ---------------------------------------------------------------- A07 */
static struct { uint8_t before[16]; uint8_t s[16]; uint8_t after[16]; } blk;
static struct { uint8_t before[16]; uint8_t w[15][16]; uint8_t after[16]; } ctx, cwas;
static uint8_t ref[16];

/* fixed bytes of no structure */
static uint8_t known(int i) { return (uint8_t)((i*167 + 41) ^ (i*i*13 >> 3)); }
static void setup(void)
{
	for(int i = 0; i < 16; i++)
	{
		blk.before[i] = blk.after[i] = ctx.before[i] = ctx.after[i] = 0x5A;
		blk.s[i] = known(i);
		for(int r = 0; r < 15; r++)
			ctx.w[r][i] = known(16 + 16*r + i);
	}
}
static void save(void)
{
	for(int i = 0; i < 16; i++)
		ref[i] = blk.s[i];
	cwas = ctx;
}
static void check(void)
{
	for(int i = 0; i < 16; i++)
	{
		VASSERT(blk.s[i] == ref[i], "the block as by FIPS-197");
		VASSERT(blk.before[i] == 0x5A && blk.after[i] == 0x5A && ctx.before[i] == 0x5A && ctx.after[i] == 0x5A, "only the block is written");
		for(int r = 0; r < 15; r++)
			VASSERT(ctx.w[r][i] == cwas.w[r][i], "the round keys are not changed");
	}
	VREACH("end");
}
/* Encryption in NR rounds. Known keys take the block, also known, to the start of the last two rounds; the round key
   there is arbitrary, hence so is the state, and the keys of these rounds. */
void h_enc(void)
{
	setup();
	#if NR <= 2
		nd_bytes((char*)blk.s, 16);
	#endif
	for(int r = NR < 2 ? 0 : NR - 2; r <= NR; r++)
		nd_bytes((char*)ctx.w[r], 16);
	save();
	aes_encrypt_core((aes_cipher_state_t*)blk.s, (aes_genctx_t*)ctx.w, NR);
	f_cipher(ref, cwas.w, NR);
	check();
}
/* decryption likewise: the state in front of the last rounds is arbitrary */
#ifndef INJECT
	#define INJECT 1
#endif
#ifndef COLUMN
	#define COLUMN 15
#endif
void h_dec(void)
{
	setup();
	#if NR <= 1
		nd_bytes((char*)blk.s, 16);
	#endif
	for(int r = 0; r <= (NR < INJECT ? NR : INJECT); r++)
		nd_bytes((char*)ctx.w[r], 16);
	/* with COLUMN, only these of the four bytes of each column are */
	for(int i = 0; i < 16; i++)
		if(!(COLUMN >> i % 4 & 1))
		{
			ctx.w[NR < INJECT ? NR : INJECT][i] = known(i);
			#if NR <= 1
				blk.s[i] = known(i + 300);
			#endif
		}
	save();
	aes_decrypt_core((aes_cipher_state_t*)blk.s, (aes_genctx_t*)ctx.w, NR);
	f_invcipher(ref, cwas.w, NR);
	check();
}
/* all 14 rounds; byte AT of the block (KEYNO -1) or of a round key is arbitrary */
#ifndef KEYNO
	#define KEYNO -1
#endif
#ifndef AT
	#define AT 0
#endif
static void setup14(void)
{
	setup();
	uint8_t b = (uint8_t)nd_range(0, 255);
	#if KEYNO < 0
		blk.s[AT] = b;
	#else
		ctx.w[KEYNO][AT] = b;
	#endif
	save();
}
void h_enc14(void)
{
	setup14();
	aes256_enc(blk.s, (aes256_ctx_t*)ctx.w);
	f_cipher(ref, cwas.w, 14);
	check();
}
void h_dec14(void)
{
	setup14();
	aes256_dec(blk.s, (aes256_ctx_t*)ctx.w);
	f_invcipher(ref, cwas.w, 14);
	check();
}
/* one after the other */
void h_both14(void)
{
	setup14();
	aes256_enc(blk.s, (aes256_ctx_t*)ctx.w);
	aes256_dec(blk.s, (aes256_ctx_t*)ctx.w);
	check();
}
/* the two ways to write InvMixColumns in fips.h */
void h_invmix(void)
{
	uint8_t a[16], b[16];
	setup();
	for(int i = 0; i < 16; i++)
		a[i] = b[i] = COLUMN >> i % 4 & 1 ? (uint8_t)nd_range(0, 255) : 0;
	f_invmix(a);
	f_invmix2(b);
	for(int i = 0; i < 16; i++)
		VASSERT(a[i] == b[i], "InvMixColumns of the harness");
	VREACH("end");
}
