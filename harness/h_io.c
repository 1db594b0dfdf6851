/* h_io.c - read() and write() on buffers and views (A03, A04). The system calls are stubs of any result;
   the sources are compiled with -Dread=v_read -Dwrite=v_write. */
#include "buf.h"
#include <sys/types.h>
#include "strbuf_io.h"
#include "strview_io.h"

#ifndef SIZE
	#define SIZE 0
#endif
#ifndef STEPS
	#define STEPS 2
#endif

static struct { int n, fd; void* buf; size_t size; ssize_t ret; } sys;
static char input[CAP + 1];
static int n_write = -1;	/* what the next write() is given */
static int n_free = -1;		/* what the next read() is to ask for */

/* delivers up to size bytes of input, or fails; exceeding the requested size is what read() never does */
ssize_t v_read(int fd, void* buf, size_t size)
{
	ssize_t ret = (ssize_t)nd_range(-1, CAP);
	VASSUME(ret <= (ssize_t)size);
	sys.n++;
	sys.fd = fd;
	sys.buf = buf;
	sys.size = size;
	sys.ret = ret;
	VASSERT(n_free < 0 || size == (size_t)n_free, "read() is asked for exactly the free space");
	VBOUND(size <= CAP, "size of read()");
	for(int i = 0; i < CAP; i++)
		if(i < ret)
			((char*)buf)[i] = input[i];
	errno = ret < 0 ? 1234 : 0;
	return ret;
}

#define ACC 64
static char accepted[ACC];	/* what write() took so far */
static int n_accepted;

static const int* planned;	/* the result of the next write(), if set */
#define WMAX (CAP > SN ? CAP : SN)
ssize_t v_write(int fd, const void* buf, size_t size)
{
	ssize_t ret = planned ? *planned : (ssize_t)nd_range(-1, WMAX);
	if(!planned)
		VASSUME(ret <= (ssize_t)size);
	else
		VBOUND(ret <= (ssize_t)size, "what is planned is possible");
	sys.n++;
	sys.fd = fd;
	sys.buf = (void*)buf;
	sys.size = size;
	sys.ret = ret;
	VASSERT(n_write < 0 || size == (size_t)n_write, "write() is given exactly the content");
	VBOUND(size <= WMAX, "size of write()");
	/* reads all of it */
	for(int i = 0; i < WMAX; i++)
		if(i < (int)size)
		{
			char c = ((const char*)buf)[i];
			if(i < ret)
				accepted[n_accepted + i] = c;
		}
	if(ret > 0)
		n_accepted += ret;
	errno = ret < 0 ? 1234 : 0;
	return ret;
}

/* A03 */
void h_read(void)
{
	static char ref[2*CAP + 2];
	int s = (int)nd_range(0, CAP);
	int fd = nd_int();
	for(int i = 0; i <= CAP; i++)
		if(i == s)
		{
			strbuf_t* b = nd_buf(i, ref);
			strbuf_t* const was = b;
			nd_bytes(input, CAP + 1);
			int calls = n_calls;
			char* end = b->cstr + i;
			sys.n = 0;
			n_free = CAP - i;
			int ret = strbuf_append_read(&b, fd);
			VASSERT(sys.n == 1, "read() is called once");
			VASSERT(sys.fd == fd, "with the descriptor given");
			VASSERT(sys.size == (size_t)(CAP - i), "for exactly the free space");
			VASSERT(CAP == i || sys.buf == end, "into the free space");
			VASSERT(ret == sys.ret, "the result of read() is returned");
			VASSERT(ret >= 0 || errno == 1234, "errno is that of read()");
			VASSERT(b == was && b->capacity == CAP && n_calls == calls, "the buffer is not resized");
			int n = ret > 0 ? ret : 0;
			VASSERT(b->size == i + n, "the bytes delivered are appended");
			for(int k = 0; k < i; k++)
				VASSERT(b->cstr[k] == ref[k], "the prior content is unchanged");
			for(int k = 0; k < CAP - i; k++)
				if(k < n)
					VASSERT(b->cstr[i + k] == input[k], "the bytes delivered are appended");
			for(int k = 0; k <= CAP; k++)
				if(k == i + n)
					VASSERT(b->cstr[k] == 0, "the content is terminated");
			VREACH_IF(ret == 0, "end of file");
			VREACH_IF(ret < 0, "error");
			VREACH_IF(ret == CAP - i, "as many as requested");
			/* and again, on whatever that left */
			if(STEPS > 1)
			{
				int size = b->size;
				nd_bytes(input, CAP + 1);
				sys.n = 0;
				n_free = CAP - size;
				int ret2 = strbuf_append_read(&b, fd);
				int n2 = ret2 > 0 ? ret2 : 0;
				VASSERT(sys.n == 1 && sys.size == (size_t)(CAP - size) && ret2 == sys.ret, "the second read()");
				VASSERT(b->size == size + n2 && b->capacity == CAP, "the bytes delivered are appended");
				for(int k = 0; k < CAP; k++)
					if(size <= k && k < size + n2)
						for(int j = 0; j <= k; j++)
							if(j == k - size)
								VASSERT(b->cstr[k] == input[j], "the bytes delivered are appended");
				for(int k = 0; k < i; k++)
					VASSERT(b->cstr[k] == ref[k], "the prior content is unchanged");
				for(int k = 0; k <= CAP; k++)
					if(k == size + n2)
						VASSERT(b->cstr[k] == 0, "the content is terminated");
			}
			#if !FIXED
				b->size = 0;
				end_buf(&b);
			#endif
		}
	mem_check();
}

/* A04: write() STEPS times, each with any result. Sizes and results are enumerated, so that the symbolic
   execution knows them; the content is symbolic. */
static void bufwrite(int i, int fd, const int* plan)
{
	static char ref[2*CAP + 2];
	strbuf_t* b = nd_buf(i, ref);
	n_accepted = 0;
	for(int step = 0; step < STEPS; step++)
	{
		int left = i - n_accepted;
		char* data = b->cstr;
		sys.n = 0;
		planned = &plan[step];
		n_write = left;
		int ret = strbuf_write(fd, &b);
		VASSERT(sys.n == 1, "write() is called once");
		VASSERT(sys.fd == fd, "with the descriptor given");
		VASSERT(sys.size == (size_t)left, "for all of the content");
		VASSERT(!left || sys.buf == data, "for the content");
		VASSERT(ret == sys.ret, "the result of write() is returned");
		VASSERT(ret >= 0 || errno == 1234, "errno is that of write()");
		left -= plan[step] > 0 ? plan[step] : 0;
		VASSERT(b->size == left, "exactly the bytes accepted are removed");
		VASSERT(left <= b->capacity && b->capacity >= CAP, "the capacity suffices");
		for(int k = 0; k < left; k++)
			VASSERT(b->cstr[k] == ref[k + i - left], "the rest of the content remains");
		VASSERT(b->cstr[left] == 0, "the content is terminated");
	}
	for(int k = 0; k < n_accepted; k++)
		VASSERT(accepted[k] == ref[k], "the bytes accepted are the content, in order");
	#if FIXED
		check_fixed(b);
	#else
		b->size = 0;
		end_buf(&b);
	#endif
	mem_check();
}
/* all results of the steps from step on, when left bytes are left */
static void plans(int i, int fd, long id, long* n, int step, int left, int* plan)
{
	if(step == STEPS)
	{
		if((*n)++ == id)
		{
			bufwrite(i, fd, plan);
			VREACH_IF(plan[STEPS - 1] < 0, "failed at last");
			VREACH_IF(plan[STEPS - 1] >= (i > 0) && plan[0] < 1 + (STEPS == 1)*9, "something accepted at last");
		}
		return;
	}
	for(int r = -1; r <= left; r++)
	{
		plan[step] = r;
		plans(i, fd, id, n, step + 1, left - (r > 0 ? r : 0), plan);
	}
}
void h_bufwrite(void)
{
	int fd = nd_int(), plan[STEPS];
	long id = nd_range(0, 100000), n = 0;
	plans(SIZE, fd, id, &n, 0, SIZE, plan);
	VASSUME(id < n);
}

void h_viewwrite(void)
{
	char mem[OBJ(SN)], was[OBJ(SN)];
	strview_t v = nd_view(mem, SN);
	const strview_t whole = v;
	int fd = nd_int();
	for(int i = 0; i < OBJ(SN); i++)
		was[i] = mem[i];
	for(int step = 0; step < STEPS; step++)
	{
		int left = whole.size - n_accepted;
		const char* data = v.data;
		bool gone = step && !left;	/* the view may have become the invalid one */
		sys.n = 0;
		n_write = left;
		int ret = strview_write(fd, &v);
		if(gone)
			VASSERT(sys.n <= 1 && ret <= 0, "nothing is left to write");
		else
		{
			VASSERT(sys.n == 1, "write() is called once");
			VASSERT(sys.fd == fd, "with the descriptor given");
			VASSERT(sys.size == (size_t)left, "for all of the view");
			VASSERT(sys.buf == data, "for the view");
			VASSERT(ret == sys.ret, "the result of write() is returned");
			VASSERT(ret >= 0 || errno == 1234, "errno is that of write()");
		}
		left -= ret > 0 ? ret : 0;
		VASSERT(v.size == left, "exactly the bytes accepted are removed");
		VASSERT(left == 0 || v.data == whole.data + (whole.size - left), "the rest of the view remains");
		VREACH_IF(step == STEPS - 1 && ret > 0, "something accepted at last");
		VREACH_IF(step == STEPS - 1 && ret < 0, "failed at last");
		VREACH_IF(step == STEPS - 1 && left == 0, "all accepted");
	}
	for(int k = 0; k < SN; k++)
		if(k < n_accepted)
			VASSERT(accepted[k] == whole.data[k], "the bytes accepted are the content, in order");
	for(int i = 0; i < OBJ(SN); i++)
		VASSERT(was[i] == mem[i], "what the view shows is not written to");
}

/* no buffer or view: nothing is read or written */
void h_nothing(void)
{
	strbuf_t* none = NULL;
	strview_t inv = STRVIEW_INVALID;
	int fd = nd_int();
	sys.n = 0;
	VASSERT(strview_write(fd, &inv) == 0 && sys.n == 0 && is_invalid(inv), "nothing is written of an invalid view");
	VASSERT(strview_write(fd, NULL) == 0 && sys.n == 0, "no view");
	VASSERT(strbuf_write(fd, NULL) == 0 && strbuf_write(fd, &none) == 0 && sys.n == 0 && !none, "no buffer to write");
	VASSERT(strbuf_append_read(NULL, fd) == 0 && strbuf_append_read(&none, fd) == 0 && sys.n == 0 && !none, "no buffer to read into");
	VREACH("end");
}
