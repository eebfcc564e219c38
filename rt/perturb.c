/* Preloaded into toycc by C12: makes everything a compilation must not depend
 * on vary with PERTURB: contents of fresh and freed heap and of the unused
 * stack, heap addresses, the time, the process id, environment variables. */
#define _GNU_SOURCE
#include <malloc.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

extern char **environ;
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);

static uint64_t state = 1;

static unsigned rnd(void)
{
	state = state * 6364136223846793005u + 1442695040888963407u;
	return state >> 33;
}

static void fill(void *p, size_t n)
{
	unsigned char *c = p;
	unsigned mode = rnd() % 4;
	unsigned b = rnd();

	if (mode == 0)
		memset(p, 0xff, n);
	else if (mode == 1)
		memset(p, b, n);
	else
		for (size_t i = 0; i < n; i++)
			c[i] = mode == 2 ? (i % 8 == 0) * (1 + b % 7) : rnd();
}

static const char *lookup(const char *name)
{
	size_t n = strlen(name);

	for (char **e = environ; e && *e; e++)
		if (!strncmp(*e, name, n) && (*e)[n] == '=')
			return *e + n + 1;
	return NULL;
}

static void __attribute__((noinline)) dirty(int depth)
{
	volatile unsigned char a[4096];

	for (size_t i = 0; i < sizeof a; i++)
		a[i] = rnd();
	if (depth > 0)
		dirty(depth - 1);
	a[0] = a[1];
}

static void __attribute__((constructor)) init(void)
{
	const char *s = lookup("PERTURB");

	for (; s && *s; s++)
		state = state * 131 + (unsigned char)*s;
	dirty(200);
}

void *malloc(size_t n)
{
	void *p = __libc_malloc(n + rnd() % 5 * 16);

	if (p)
		fill(p, malloc_usable_size(p));
	return p;
}

void *calloc(size_t a, size_t b)
{
	size_t n;

	if (__builtin_mul_overflow(a, b, &n) || n > PTRDIFF_MAX - 4096)
		return __libc_calloc(a, b);
	unsigned k = rnd() % 6;
	void *p = __libc_calloc(1, n + k * 16);
	/* what lies beyond the requested size is anything */
	if (p)
		fill((char *)p + n, malloc_usable_size(p) - n);
	return p;
}

void free(void *p)
{
	if (p)
		fill(p, malloc_usable_size(p));
	__libc_free(p);
}

void *realloc(void *p, size_t n)
{
	if (!p)
		return malloc(n);
	void *q = malloc(n);
	size_t old = malloc_usable_size(p);
	if (q) {
		memcpy(q, p, old < n ? old : n);
		free(p);
	}
	return q;
}

/* an unset variable is set to a directory */
char *getenv(const char *name)
{
	const char *v = lookup(name);

	return (char *)(v ? v : lookup("PERTURB_DIR"));
}

char *secure_getenv(const char *name)
{
	return getenv(name);
}

static time_t shift(void)
{
	return (time_t)(state % 100000000);
}

static time_t off = -1;

time_t time(time_t *t)
{
	struct timespec ts;

	if (off < 0)
		off = shift();
	clock_gettime(CLOCK_REALTIME, &ts);
	ts.tv_sec += off;
	if (t)
		*t = ts.tv_sec;
	return ts.tv_sec;
}
