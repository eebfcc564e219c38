/* Monitor linked into the programs of C18 (compiled by the reference
 * compiler): a stack of live objects with shadow copies.  Every registration
 * is checked for overlap with the live objects, every step for changes of
 * objects that were not written.  Only violations and hashes become events. */
void ev(long id, long v);
void ev_flush(void);
typedef unsigned char uc;

static struct obj { uc *p; long n, sh; int id, kind, act; } o[2048];
static int no;
static uc shadow[4 << 20];
static long top;
static long regs, checks;

static void cp(uc *d, const uc *s, long n) { while (n-- > 0) *d++ = *s++; }

/* kind 0: ends with its scope, 1: ends with its function */
int mon_reg(int id, void *p, long n, int kind)
{
	uc *b = p;

	regs++;
	if (no == 2048 || top + n > (long)sizeof shadow || n <= 0) {
		/* too much for the monitor: the run ends here */
		register long a7 __asm__("a7") = 93;
		register long a0 __asm__("a0") = 0;

		ev(-90, id);
		ev_flush();
		a7 = 93;
		a0 = 0;
		__asm__ volatile("ecall" : : "r"(a0), "r"(a7));
	}
	for (int i = 0; i < no; i++)
		if (b < o[i].p + o[i].n && o[i].p < b + n)
			ev(-1, (long)id << 32 | (unsigned)o[i].id);
	if ((uc *)&b < b + n && b < (uc *)&b + 64)
		ev(-2, id);
	o[no] = (struct obj){ b, n, top, id, kind };
	for (long i = 0; i < n; i++)
		b[i] = id * 37 + i * 11 + (i >> 8);
	cp(shadow + top, b, n);
	top += n;
	return no++;
}

int mon_mark(void) { return no; }

/* ends the objects registered since the mark; kind 0: only those of scopes */
void mon_release(int mark, int kind)
{
	int w = mark;

	for (int i = mark; i < no; i++)
		if (o[i].kind > kind)
			o[w++] = o[i];
	no = w;
	top = 0;
	for (int i = 0; i < no; i++)
		if (o[i].sh + o[i].n > top)
			top = o[i].sh + o[i].n;
}

static long hash(const uc *p, long n)
{
	unsigned long h = 14695981039346656037u;

	for (long i = 0; i < n; i++)
		h = (h ^ p[i]) * 1099511628211u;
	return h;
}

/* the object at p was written on purpose: record its contents */
void mon_touch(int id, void *p)
{
	for (int i = no; i-- > 0;)
		if (o[i].p <= (uc *)p && (uc *)p < o[i].p + o[i].n) {
			cp(shadow + o[i].sh, o[i].p, o[i].n);
			ev(id, hash(o[i].p, o[i].n));
			return;
		}
	ev(-3, id);
}

/* nothing else may have changed */
void mon_all(int id)
{
	for (int i = 0; i < no; i++) {
		checks++;
		for (long k = 0; k < o[i].n; k++)
			if (shadow[o[i].sh + k] != o[i].p[k]) {
				ev(-4, (long)id << 32 | (unsigned)o[i].id);
				cp(shadow + o[i].sh, o[i].p, o[i].n);
				break;
			}
	}
}

void mon_end(void) { ev(-100, regs); ev(-101, checks); ev(-102, no); }

long idl(long x) { return x; }
double idd(double x) { return x; }
void *fn3(int x, void *p, int y) { ev(7, x * 10 + y); return p; }
void *fn12(int a, long b, int c, int d, int e, int f, int g, int h, int i, void *p, int k, long l)
{
	ev(8, a + b * 2 + c * 3 + d * 5 + e * 7 + f * 11 + g * 13 + h * 17 + i * 19 + k * 23 + l * 29);
	return p;
}
void *fd10(double a, double b, double c, double d, double e, double f, double g, double h, double i, void *p, float k)
{
	ev(9, a + b * 2 + c * 3 + d * 5 + e * 7 + f * 11 + g * 13 + h * 17 + i * 19 + k * 23);
	return p;
}
struct big { long a[5]; };
struct big mkbig(long x, void *p) { struct big b = { { x, x + 1, x + 2, x + 3, p != 0 } }; return b; }
long usebig(struct big b, void *p, struct big c) { return b.a[0] + b.a[3] * 2 + c.a[1] * 3 + c.a[2] + b.a[4] * 100 + c.a[4] * 1000; }
