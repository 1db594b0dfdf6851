/* h_crypt.c - strbuf_encrypt() and strbuf_decrypt() (A08, A09, A10), linked with any block cipher in place of AES:
   a permutation of blocks of which nothing else is known. AES itself is the subject of A05 to A07. */
#include "verif.h"
#include "aes/aes_types.h"

/* the context, if from the allocator */
static struct { char before[8]; aes256_ctx_t ctx; char after[8]; } other;
static bool other_live;
static int other_n;
#define OTHER_SIZE sizeof(aes256_ctx_t)
static void* other_alloc(void)
{
	VBOUND(!other_live, "one context at a time");
	other_live = true;
	other_n++;
	return &other.ctx;
}
static bool other_free(void* p)
{
	if(p != &other.ctx)
		return false;
	VASSERT(other_live, "the context is released once");
	other_live = false;
	return true;
}
#include "buf.h"
#include "strbuf_crypt.h"

#ifndef SIZE
	#define SIZE 5
#endif
#define PADDED (SIZE/16*16 + 16)

/* ---------------------------------------------------------------- the key and the cipher */
static struct { char before[8]; uint8_t key[32]; uint8_t ivec[16]; char after[8]; } k;
static uint8_t key_was[32], ivec_was[16];

static void nd_key(void)
{
	nd_bytes((char*)k.key, 32);
	nd_bytes((char*)k.ivec, 16);
	for(int i = 0; i < 32; i++)
		key_was[i] = k.key[i];
	for(int i = 0; i < 16; i++)
		ivec_was[i] = k.ivec[i];
	for(int i = 0; i < 8; i++)
		other.before[i] = other.after[i] = GUARD;
}
static void check_key(void)
{
	for(int i = 0; i < 32; i++)
		VASSERT(k.key[i] == key_was[i], "the key is not modified");
	for(int i = 0; i < 16; i++)
		VASSERT(k.ivec[i] == ivec_was[i], "the vector is not modified");
	for(int i = 0; i < 8; i++)
		VASSERT(other.before[i] == GUARD && other.after[i] == GUARD, "only the context is written");
	VASSERT(!other_live, "the context is released");
}

#ifndef REAL
void aes256_init(const void* key, aes256_ctx_t* ctx)
{
	for(int i = 0; i < 32; i++)
		ctx->key[i/16].ks[i%16] = ((const uint8_t*)key)[i];
}
static void check_ctx(const aes256_ctx_t* ctx)
{
	bool same = true;
	for(int i = 0; i < 32; i++)
		if(ctx->key[i/16].ks[i%16] != key_was[i])
			same = false;
	VASSERT(same, "the cipher is used with the key given");
}
/* x[] and y[]: the blocks known to correspond */
#define NT (3*((PADDED + 16)/16))
typedef struct { uint64_t a, b; } block_t;
static block_t x[NT], y[NT];
static int nt;
static block_t load(const uint8_t* p)
{
	block_t r = {0, 0};
	for(int i = 0; i < 8; i++)
	{
		r.a |= (uint64_t)p[i] << 8*i;
		r.b |= (uint64_t)p[8 + i] << 8*i;
	}
	return r;
}
static void store(uint8_t* p, block_t v)
{
	for(int i = 0; i < 8; i++)
	{
		p[i] = (uint8_t)(v.a >> 8*i);
		p[8 + i] = (uint8_t)(v.b >> 8*i);
	}
}
static bool same(block_t v, block_t w) { return v.a == w.a && v.b == w.b; }
/* what corresponds to v, which is one of from; the known ones, or any that is not taken */
static block_t perm(block_t v, block_t* from, block_t* to)
{
	VBOUND(nt < NT, "number of blocks");
	block_t r;
	bool found = false;
	r.a = (uint64_t)nd_raw();
	r.b = (uint64_t)nd_raw();
	for(int i = 0; i < nt; i++)
		if(same(from[i], v))
		{
			r = to[i];
			found = true;
		}
	for(int i = 0; i < nt; i++)
		VASSUME(found || !same(to[i], r));
	from[nt] = v;
	to[nt] = r;
	nt++;
	return r;
}
void aes256_enc(void* buffer, aes256_ctx_t* ctx)
{
	check_ctx(ctx);
	store(buffer, perm(load(buffer), x, y));
}
void aes256_dec(void* buffer, aes256_ctx_t* ctx)
{
	check_ctx(ctx);
	store(buffer, perm(load(buffer), y, x));
}
static void ref_enc(uint8_t* p) { store(p, perm(load(p), x, y)); }
static void ref_dec(uint8_t* p) { store(p, perm(load(p), y, x)); }
#else
	/* AES itself, with the key schedule and cipher of FIPS-197 as the reference */
	#include "fips.h"
	static uint8_t w[15][16];
	static void ref_key(void)
	{
		for(int i = 0; i < 32; i++)
			w[i/16][i%16] = key_was[i];
		for(int i = 8; i < 60; i++)
			f_word(&w[i/4][4*(i%4)], &w[0][0], i, 8);
	}
	static void ref_enc(uint8_t* p) { f_cipher(p, w, 14); }
	static void ref_dec(uint8_t* p) { f_invcipher(p, w, 14); }
#endif

/* ---------------------------------------------------------------- the properties */
static char plain[PADDED + 1];
static uint8_t text[PADDED + 16];	/* reference */

static void check_buf(strbuf_t* b, strview_t v)
{
	#if FIXED
		check_fixed(b);
		check_wellformed(b, HDR + CAP + 1, v);
		VASSERT(other_n == 0, "no allocator");
	#else
		int at = check_live(b);
		check_wellformed(b, blk[at].size, v);
	#endif
	mem_check();
	check_key();
}
/* CBC of section 6.2 of SP 800-38A with the padding of RFC 5652, 6.3 */
static void ref_cbc(void)
{
	for(int i = 0; i < PADDED; i++)
		text[i] = i < SIZE ? (uint8_t)plain[i] : PADDED - SIZE;
	for(int i = 0; i < PADDED; i += 16)
	{
		for(int j = 0; j < 16; j++)
			text[i + j] ^= i ? text[i - 16 + j] : ivec_was[j];
		ref_enc(&text[i]);
	}
}

/* A08 */
void h_encrypt(void)
{
	strbuf_t* b = nd_buf(SIZE, plain);
	nd_key();
	strview_t v = strbuf_encrypt(&b, k.key, k.ivec);
	check_buf(b, v);
	#if FIXED && CAP < PADDED
		VASSERT(is_invalid(v), "an invalid view, as the buffer is too small");
		check_content(b, plain, SIZE);
	#else
		VASSERT(v.data == b->cstr && v.size == b->size, "a view of the result");
		ref_cbc();
		check_content(b, (char*)text, PADDED);
	#endif
	VREACH("end");
	#if !FIXED
		end_buf(&b);
	#endif
}

/* A09 */
void h_roundtrip(void)
{
	strbuf_t* b = nd_buf(SIZE, plain);
	nd_key();
	strbuf_encrypt(&b, k.key, k.ivec);
	strview_t v = strbuf_decrypt(&b, k.key, k.ivec);
	check_buf(b, v);
	VASSERT(v.data == b->cstr && v.size == b->size, "a view of the result");
	check_content(b, plain, SIZE);
	VREACH("end");
	#if !FIXED
		end_buf(&b);
	#endif
}

/* A10: any content of SIZE bytes */
void h_decrypt(void)
{
	strbuf_t* b = nd_buf(SIZE, plain);
	nd_key();
	strview_t v = strbuf_decrypt(&b, k.key, k.ivec);
	check_buf(b, v);
	int pad = 0;
	if(SIZE && SIZE % 16 == 0)
	{
		for(int i = 0; i < SIZE; i += 16)
		{
			for(int j = 0; j < 16; j++)
				text[i + j] = (uint8_t)plain[i + j];
			ref_dec(&text[i]);
			for(int j = 0; j < 16; j++)
				text[i + j] ^= i ? (uint8_t)plain[i - 16 + j] : ivec_was[j];
		}
		pad = text[SIZE - 1 < 0 ? 0 : SIZE - 1];
	}
	if(pad < 1 || pad > 16)
	{
		VASSERT(b->size == 0 && b->cstr[0] == 0, "no valid padding: the buffer is emptied");
		VASSERT(is_invalid(v), "no valid padding: the view is invalid");
		VREACH("not valid");
	}
	else
	{
		VASSERT(v.data == b->cstr && v.size == b->size, "a view of the result");
		VASSERT(b->size == SIZE - pad, "the padding is removed");
		for(int i = 0; i < SIZE; i++)
			if(i < SIZE - pad)
				VASSERT((uint8_t)b->cstr[i] == text[i], "the CBC decryption");
		#if SIZE && SIZE % 16 == 0
			VREACH_IF(pad == 16, "only padding in the last block");
			VREACH_IF(pad == 1, "a byte of padding");
		#endif
	}
	#if !FIXED
		b->size = 0;
		end_buf(&b);
	#endif
}

#ifdef REAL
/* known key and content, but for one byte */
void h_real(void)
{
	strbuf_t* b = nd_buf(SIZE, plain);
	nd_key();
	for(int i = 0; i < 32; i++)
		k.key[i] = key_was[i] = (uint8_t)(i*73 + 5);
	for(int i = 0; i < 16; i++)
		k.ivec[i] = ivec_was[i] = (uint8_t)(i*29 + 7);
	for(int i = 0; i < SIZE; i++)
		b->cstr[i] = plain[i] = (char)(i*i + 31);
	char c = nd_char();
	#if AT < 0
		k.ivec[3] = ivec_was[3] = (uint8_t)c;
	#else
		b->cstr[AT] = plain[AT] = c;
	#endif
	ref_key();
	strview_t v = strbuf_encrypt(&b, k.key, k.ivec);
	check_buf(b, v);
	ref_cbc();
	check_content(b, (char*)text, PADDED);
	#ifdef BACK
		v = strbuf_decrypt(&b, k.key, k.ivec);
		check_buf(b, v);
		check_content(b, plain, SIZE);
	#endif
	VREACH("end");
}
#endif
