/*
 * models.c - what the symbolic run links instead of libc, and what the replay links
 * to read the solver's values. The models are the plain C definitions of the functions
 * (byte loops, so every byte they touch is bounds-checked; 0 bytes touch nothing).
 */
#include "verif.h"

#ifdef VERIF_CBMC

long nd_raw(void)
{
	long nd_value = nondet_long();
	return nd_value;
}

void* memcpy(void* dst, const void* src, size_t n)
{
	unsigned char* d = dst;
	const unsigned char* s = src;
	if(n && d != s && __CPROVER_same_object(d, s))
		VASSERT(__CPROVER_POINTER_OFFSET(d) + n <= __CPROVER_POINTER_OFFSET(s) || __CPROVER_POINTER_OFFSET(s) + n <= __CPROVER_POINTER_OFFSET(d),
			"memcpy() is not given regions which overlap");
	for(size_t i = 0; i < n; i++)
		d[i] = s[i];
	return dst;
}

void* memmove(void* dst, const void* src, size_t n)
{
	unsigned char* d = dst;
	const unsigned char* s = src;
	if(n && d != s)
	{
		if(__CPROVER_same_object(d, s) && __CPROVER_POINTER_OFFSET(d) < __CPROVER_POINTER_OFFSET(s))
		{
			for(size_t i = 0; i < n; i++)
				d[i] = s[i];
		}
		else
		{
			for(size_t i = n; i > 0; i--)
				d[i-1] = s[i-1];
		}
	}
	return dst;
}

void* memset(void* dst, int c, size_t n)
{
	unsigned char* d = dst;
	for(size_t i = 0; i < n; i++)
		d[i] = (unsigned char)c;
	return dst;
}

int memcmp(const void* a, const void* b, size_t n)
{
	const unsigned char* x = a;
	const unsigned char* y = b;
	int r = 0;
	/* reads all n bytes of both, as the standard permits memcmp to do */
	for(size_t i = 0; i < n; i++)
	{
		int d = (int)x[i] - (int)y[i];
		if(!r)
			r = d;
	}
	return r;
}

void* memchr(const void* p, int c, size_t n)
{
	const unsigned char* s = p;
	for(size_t i = 0; i < n; i++)
		if(s[i] == (unsigned char)c)
			return (void*)&s[i];
	return NULL;
}

size_t strlen(const char* s)
{
	size_t n = 0;
	while(s[n])
		n++;
	return n;
}

/* what the code does not use, but might */
void* memrchr(const void* p, int c, size_t n)
{
	const unsigned char* s = p;
	for(size_t i = n; i > 0; i--)
		if(s[i-1] == (unsigned char)c)
			return (void*)&s[i-1];
	return NULL;
}
void* memmem(const void* h, size_t n, const void* d, size_t m)
{
	const unsigned char* s = h;
	for(size_t i = 0; i + m <= n; i++)
		if(!memcmp(s + i, d, m))
			return (void*)(s + i);
	return NULL;
}
void* mempcpy(void* dst, const void* src, size_t n) { return (char*)memcpy(dst, src, n) + n; }
void* memccpy(void* dst, const void* src, int c, size_t n)
{
	unsigned char* d = dst;
	const unsigned char* s = src;
	for(size_t i = 0; i < n; i++)
	{
		d[i] = s[i];
		if(s[i] == (unsigned char)c)
			return d + i + 1;
	}
	return NULL;
}
void bzero(void* dst, size_t n) { memset(dst, 0, n); }
void bcopy(const void* src, void* dst, size_t n) { memmove(dst, src, n); }
size_t strnlen(const char* s, size_t max)
{
	size_t n = 0;
	while(n < max && s[n])
		n++;
	return n;
}
int strncmp(const char* a, const char* b, size_t n)
{
	for(size_t i = 0; i < n; i++)
	{
		if(a[i] != b[i] || !a[i])
			return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
	}
	return 0;
}
int strcmp(const char* a, const char* b) { return strncmp(a, b, (size_t)-1); }
char* strchr(const char* s, int c)
{
	for(size_t i = 0; ; i++)
	{
		if(s[i] == (char)c)
			return (char*)&s[i];
		if(!s[i])
			return NULL;
	}
}
char* strrchr(const char* s, int c)
{
	const char* r = NULL;
	for(size_t i = 0; ; i++)
	{
		if(s[i] == (char)c)
			r = &s[i];
		if(!s[i])
			return (char*)r;
	}
}
size_t strspn(const char* s, const char* set)
{
	size_t n = 0;
	while(s[n] && strchr(set, s[n]))
		n++;
	return n;
}
size_t strcspn(const char* s, const char* set)
{
	size_t n = 0;
	while(s[n] && !strchr(set, s[n]))
		n++;
	return n;
}
char* strpbrk(const char* s, const char* set)
{
	size_t n = strcspn(s, set);
	return s[n] ? (char*)s + n : NULL;
}
char* strcpy(char* dst, const char* src)
{
	memcpy(dst, src, strlen(src) + 1);
	return dst;
}
char* stpcpy(char* dst, const char* src) { return strcpy(dst, src) + strlen(src); }
char* strncpy(char* dst, const char* src, size_t n)
{
	size_t i = 0;
	for(; i < n && src[i]; i++)
		dst[i] = src[i];
	for(; i < n; i++)
		dst[i] = 0;
	return dst;
}
char* strcat(char* dst, const char* src)
{
	strcpy(dst + strlen(dst), src);
	return dst;
}
int abs(int n) { return n < 0 ? -n : n; }
long labs(long n) { return n < 0 ? -n : n; }
int isblank(int c)  { return c == ' ' || c == '\t'; }
int isprint(int c)  { return c >= 32 && c <= 126; }
int iscntrl(int c)  { return (c >= 0 && c < 32) || c == 127; }
int ispunct(int c)  { return c > 32 && c < 127 && !((c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z')); }
int strncasecmp(const char* a, const char* b, size_t n)
{
	for(size_t i = 0; i < n; i++)
	{
		int x = (unsigned char)a[i], y = (unsigned char)b[i];
		if(x >= 'A' && x <= 'Z')
			x += 32;
		if(y >= 'A' && y <= 'Z')
			y += 32;
		if(x != y || !x)
			return x - y;
	}
	return 0;
}
int strcasecmp(const char* a, const char* b) { return strncasecmp(a, b, (size_t)-1); }

/* <ctype.h> in the C locale */
int isdigit(int c)  { return c >= '0' && c <= '9'; }
int isupper(int c)  { return c >= 'A' && c <= 'Z'; }
int islower(int c)  { return c >= 'a' && c <= 'z'; }
int isalpha(int c)  { return isupper(c) || islower(c); }
int isalnum(int c)  { return isalpha(c) || isdigit(c); }
int isspace(int c)  { return c == ' ' || (c >= 9 && c <= 13); }
int isxdigit(int c) { return isdigit(c) || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'); }
int toupper(int c)  { return islower(c) ? c - 32 : c; }
int tolower(int c)  { return isupper(c) ? c + 32 : c; }

#else	/* replay */

static FILE* v_file;
long nd_raw(void)
{
	long v;
	if(!v_file)
	{
		const char* p = getenv("VERIF_REPLAY");
		v_file = p ? fopen(p, "r") : NULL;
		if(!v_file)
		{
			fprintf(stderr, "VERIF_REPLAY not readable\n");
			exit(78);
		}
	}
	if(fscanf(v_file, "%ld", &v) != 1)
		v = 0;		/* the solver did not constrain inputs beyond the violation */
	return v;
}
void v_fail(const char* msg, const char* file, int line)
{
	fprintf(stderr, "VIOLATED: %s (%s:%d)\n", msg, file, line);
	_Exit(3);
}
void v_skip(const char* what, const char* file, int line)
{
	fprintf(stderr, "assumption not met in replay: %s (%s:%d)\n", what, file, line);
	_Exit(77);
}
int main(void)
{
	extern void VERIF_ENTRY(void);
	VERIF_ENTRY();
	fprintf(stderr, "replay: no violation\n");
	return 0;
}
#endif
