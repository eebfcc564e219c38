/* Event recorder linked into every monitored program (compiled by the
 * reference compiler, never by toycc).  Freestanding: own _start, raw
 * system calls, so that a monitored program has nothing but toycc's code and
 * this file in it.  Every event is two 8-byte words: id, value. */
typedef unsigned long ul;
static ul buf[1 << 14];
static int n;

static long sys3(long nr, long a, long b, long c)
{
	register long a7 __asm__("a7") = nr;
	register long a0 __asm__("a0") = a;
	register long a1 __asm__("a1") = b;
	register long a2 __asm__("a2") = c;
	__asm__ volatile("ecall" : "+r"(a0) : "r"(a1), "r"(a2), "r"(a7) : "memory");
	return a0;
}

void ev_flush(void)
{
	char *p = (char *)buf;
	long len = (long)n * 8;
	while (len > 0) {
		long r = sys3(64, 1, (long)p, len);
		if (r <= 0)
			break;
		p += r;
		len -= r;
	}
	n = 0;
}

void ev(long id, long v)
{
	if (n + 2 > (int)(sizeof(buf) / 8))
		ev_flush();
	buf[n++] = id;
	buf[n++] = v;
}

void evu(long id, ul v) { ev(id, (long)v); }
void evd(long id, double d) { long v; __builtin_memcpy(&v, &d, 8); ev(id, v); }
void evf(long id, float f) { int v; __builtin_memcpy(&v, &f, 4); ev(id, (long)(unsigned)v); }
void evL(long id, long double x)
{
	long v[2];
	__builtin_memcpy(v, &x, 16);
	ev(id, v[0]);
	ev(id, v[1]);
}

/* dump n bytes, 8 per event */
void evm(long id, const void *p, long len)
{
	const unsigned char *s = p;
	for (long i = 0; i < len; i += 8) {
		ul v = 0;
		for (int j = 0; j < 8 && i + j < len; j++)
			v |= (ul)s[i + j] << (8 * j);
		ev(id, v);
	}
}

void evs(long id, const char *s)
{
	long l = 0;
	while (s[l])
		l++;
	evm(id, s, l + 1);
}

/* The stack pointer of the caller is aligned, and as far from a local variable
 * of the caller as it was at the first call with this id (one id is one place
 * of the program, outside of functions that allocate stack dynamically). */
void evsp(long id, const char *local)
{
	static long first[1 << 14];
	const char *sp = __builtin_frame_address(0);
	long dist = local - sp + 1, *f = &first[id & ((1 << 14) - 1)];

	if (!*f)
		*f = dist;
	ev(id, ((ul)sp & 15) | (dist != *f) << 8);
}

void *memset(void *d, int c, ul len) { char *p = d; while (len--) *p++ = c; return d; }
void *memcpy(void *d, const void *s, ul len) { char *p = d; const char *q = s; while (len--) *p++ = *q++; return d; }
void *memmove(void *d, const void *s, ul len)
{
	char *p = d; const char *q = s;
	if (p < q) while (len--) *p++ = *q++;
	else while (len--) p[len] = q[len];
	return d;
}
int memcmp(const void *a, const void *b, ul len)
{
	const unsigned char *p = a, *q = b;
	for (; len--; p++, q++) if (*p != *q) return *p - *q;
	return 0;
}

int main(void);
void ev_exit(int rc)
{
	ev_flush();
	sys3(94, rc, 0, 0);
	for (;;) ;
}
__asm__(".globl _start\n_start:\n.option push\n.option norelax\nla gp, __global_pointer$\n.option pop\n"
	"li fp, 0\nandi sp, sp, -16\ncall ev_start\n");
void ev_start(void) { ev_exit(main()); }

/* records where it was called from, and the line the caller says it is on */
long mk(long id, long line)
{
	ev(id, (long)__builtin_return_address(0));
	ev(id, line);
	return 1;
}
