/* Starts the threads over the functions of rt/atomic_work.c, records what
 * they return and checks conservation, uniqueness, exclusion and isolation.
 * Output: "ok <test> <type> <ops>" or "BAD <test> <type> <what>". */
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sched.h>

#define NT 8
typedef void work_fn(int, long, long *);
struct type {
	const char *name;
	int isint, isptr;
	int (*size)(void), (*issigned)(void), (*guards_ok)(void);
	void (*reset)(long), (*l_reset)(void), (*o_reset)(void);
	long (*final)(void), (*final_m)(void), (*final_a)(int), (*l_final)(void), (*o_step)(int);
	work_fn *w[32];
};
#define DECL(ID) int size_##ID(void), issigned_##ID(void), guards_ok_##ID(void); \
	void reset_##ID(long), l_reset_##ID(void), o_reset_##ID(void); \
	long final_##ID(void), final_m_##ID(void), final_a_##ID(int), l_final_##ID(void), o_step_##ID(int); \
	work_fn t_postinc_##ID, t_preinc_##ID, t_postdec_##ID, t_predec_##ID, t_addeq_##ID, t_subeq_##ID, t_member_##ID, t_memberp_##ID, t_memberpre_##ID, \
		t_casweak_##ID, t_casstrong_##ID, x_exch_##ID, x_exchm_##ID, n_mixed_##ID, v_tear_##ID, l_exch_##ID, l_cas_##ID, l_flag_##ID
#define DECLI(ID) DECL(ID); work_fn t_fetchadd_##ID, t_fetchsub_##ID, b_xor_##ID, b_orand_##ID, b_fetch_##ID, m_mul_##ID
#define COMMON(ID) size_##ID, issigned_##ID, guards_ok_##ID, reset_##ID, l_reset_##ID, o_reset_##ID, final_##ID, final_m_##ID, final_a_##ID, l_final_##ID, o_step_##ID
#define W(ID) t_postinc_##ID, t_preinc_##ID, t_postdec_##ID, t_predec_##ID, t_addeq_##ID, t_subeq_##ID, t_member_##ID, t_memberp_##ID, t_memberpre_##ID, \
		t_casweak_##ID, t_casstrong_##ID, x_exch_##ID, x_exchm_##ID, n_mixed_##ID, v_tear_##ID, l_exch_##ID, l_cas_##ID, l_flag_##ID
#define WI(ID) W(ID), t_fetchadd_##ID, t_fetchsub_##ID, b_xor_##ID, b_orand_##ID, b_fetch_##ID, m_mul_##ID
static const char *wname[] = { "t_postinc", "t_preinc", "t_postdec", "t_predec", "t_addeq", "t_subeq", "t_member", "t_memberp", "t_memberpre",
	"t_casweak", "t_casstrong", "x_exch", "x_exchm", "n_mixed", "v_tear", "l_exch", "l_cas", "l_flag",
	"t_fetchadd", "t_fetchsub", "b_xor", "b_orand", "b_fetch", "m_mul" };
/* tickets: 0 the old value, 1 the new value, and the direction */
static const struct { const char *n; int new, dir; } tick[] = {
	{"t_postinc", 0, 1}, {"t_preinc", 1, 1}, {"t_postdec", 0, -1}, {"t_predec", 1, -1}, {"t_addeq", 1, 1}, {"t_subeq", 1, -1},
	{"t_member", 1, 1}, {"t_memberp", 0, 1}, {"t_memberpre", 1, 1}, {"t_casweak", 0, 1}, {"t_casstrong", 1, 1}, {"t_fetchadd", 0, 1}, {"t_fetchsub", 0, -1} };

#include "types.inc"	/* DECL... and: static struct type types[] */

static volatile int gate, nready;
static int nt;
static long iters;
static work_fn *cur;
static long *outs[NT];

static void *thread(void *a)
{
	long tid = (long)a;
	__atomic_add_fetch(&nready, 1, __ATOMIC_SEQ_CST);
	while (!__atomic_load_n(&gate, __ATOMIC_SEQ_CST))
		sched_yield();
	cur((int)tid, iters, outs[tid]);
	return NULL;
}

static void race(work_fn *f)
{
	pthread_t t[NT];
	cur = f;
	gate = nready = 0;
	for (long i = 0; i < nt; i++)
		if (pthread_create(&t[i], NULL, thread, (void *)i)) {
			puts("HARNESS pthread_create");
			exit(3);
		}
	while (__atomic_load_n(&nready, __ATOMIC_SEQ_CST) < nt)
		sched_yield();
	__atomic_store_n(&gate, 1, __ATOMIC_SEQ_CST);
	for (int i = 0; i < nt; i++)
		pthread_join(t[i], NULL);
}

static unsigned long mask(struct type *t, unsigned long v)
{
	int b = t->size() * 8;
	return b == 64 ? v : v & ((1UL << b) - 1);
}

static int cmpul(const void *a, const void *b)
{
	unsigned long x = *(unsigned long *)a, y = *(unsigned long *)b;
	return x < y ? -1 : x > y;
}

static const char *run1(struct type *t, int k)
{
	static char buf[300];
	const char *n = wname[k];
	long total = nt * iters;
	int scale = t->isptr ? 4 : 1;

	for (int i = 0; i < nt; i++)
		memset(outs[i], 0, iters * sizeof(long));
	t->reset(n[0] == 'm' ? 1 : 0);
	t->l_reset();
	race(t->w[k]);
	if (!t->guards_ok())
		return "a neighbouring byte was changed";

	if (n[0] == 't') {
		int new = 0, dir = 0;
		for (int i = 0; i < sizeof(tick) / sizeof(*tick); i++)
			if (!strcmp(tick[i].n, n))
				new = tick[i].new, dir = tick[i].dir;
		long fin = strstr(n, "member") ? t->final_m() : t->final();
		long want = dir * total * scale;
		if (!t->isint && !t->isptr) {
			if (fin != want) {
				sprintf(buf, "updates are lost: final value %ld instead of %ld", fin, want);
				return buf;
			}
		} else if (mask(t, fin) != mask(t, want)) {
			sprintf(buf, "updates are lost: final value %ld instead of %ld", fin, want);
			return buf;
		}
		/* the results of all threads are those of some order */
		unsigned long *all = malloc(total * 8), *exp = malloc(total * 8);
		for (long i = 0; i < total; i++) {
			all[i] = outs[i / iters][i % iters];
			exp[i] = dir * scale * (i + new);
			if (t->isint) {
				exp[i] = mask(t, exp[i]);
				if (t->issigned() && t->size() < 8) {
					int s = 64 - 8 * t->size();
					exp[i] = (unsigned long)((long)(exp[i] << s) >> s);
				}
			}
		}
		qsort(all, total, 8, cmpul);
		qsort(exp, total, 8, cmpul);
		for (long i = 0; i < total; i++)
			if (all[i] != exp[i]) {
				sprintf(buf, "results are not unique: %ldth smallest is %ld, not %ld", i, (long)all[i], (long)exp[i]);
				free(all);
				free(exp);
				return buf;
			}
		free(all);
		free(exp);
	} else if (n[0] == 'x') {
		/* conservation: put in + initial = taken out + final */
		static long cnt[256];
		memset(cnt, 0, sizeof(cnt));
		for (int i = 0; i < nt; i++)
			for (long j = 0; j < iters; j++) {
				cnt[(i * 16 + j % 13) & 255]++;
				long o = outs[i][j];
				if (o < 0 && t->issigned() && t->size() == 1)
					o &= 255;
				if (o < 0 || o > 255) {
					sprintf(buf, "exchange yields %ld, which nobody stored", outs[i][j]);
					return buf;
				}
				cnt[o]--;
			}
		cnt[0]++;
		cnt[(strcmp(n, "x_exchm") ? t->final() : t->final_m()) & 255]--;
		for (int i = 0; i < 256; i++)
			if (cnt[i]) {
				sprintf(buf, "exchange lost or duplicated value %d (%ld)", i, cnt[i]);
				return buf;
			}
	} else if (n[0] == 'n') {
		for (int i = 0; i < nt; i++) {
			if (outs[i][0]) {
				sprintf(buf, "an object no other thread uses changed, or a result was wrong, %ld times", outs[i][0]);
				return buf;
			}
			if (mask(t, t->final_a(i)) != mask(t, outs[i][1]))
				return "an object no other thread uses has another value in the end";
		}
	} else if (n[0] == 'b' || n[0] == 'v') {
		for (int i = 0; i < nt; i++)
			if (outs[i][0]) {
				sprintf(buf, n[0] == 'b' ? "a bit no other thread changes was wrong %ld times" : "%ld torn values were read", outs[i][0]);
				return buf;
			}
	} else if (n[0] == 'm') {
		unsigned long w = 1;
		for (long i = 0; i < total; i++)
			w *= 3;
		if (mask(t, t->final()) != mask(t, w)) {
			sprintf(buf, "multiplications are lost: %lu", mask(t, t->final()));
			return buf;
		}
	} else if (n[0] == 'l') {
		for (int i = 0; i < nt; i++)
			if (outs[i][0]) {
				sprintf(buf, "two threads were in the critical section (%ld)", outs[i][0]);
				return buf;
			}
		if (t->l_final() != total)
			return "updates in the critical section are lost";
	}
	return NULL;
}

/* store buffering: two threads in lock step */
static struct type *lt;
static long lrounds, lres[2];
static volatile long lturn[2] __attribute__((aligned(128)));
static long lbad, lsync;
static pthread_barrier_t dummy;
static volatile long arrive0 __attribute__((aligned(128))), arrive1 __attribute__((aligned(128)));

static void *lthread(void *a)
{
	int tid = (int)(long)a;
	volatile long *me = tid ? &arrive1 : &arrive0, *other = tid ? &arrive0 : &arrive1;
	for (long i = 1; i <= lrounds; i++) {
		if (!tid)
			lt->o_reset();
		__atomic_store_n(me, 4 * i + 1, __ATOMIC_SEQ_CST);
		while (__atomic_load_n(other, __ATOMIC_SEQ_CST) < 4 * i + 1)
			;
		lres[tid] = lt->o_step(tid);
		__atomic_store_n(me, 4 * i + 2, __ATOMIC_SEQ_CST);
		while (__atomic_load_n(other, __ATOMIC_SEQ_CST) < 4 * i + 2)
			;
		if (!tid) {
			lbad += !lres[0] && !lres[1];
			lsync += lres[0] && lres[1];
		}
		__atomic_store_n(me, 4 * i + 3, __ATOMIC_SEQ_CST);
		while (__atomic_load_n(other, __ATOMIC_SEQ_CST) < 4 * i + 3)
			;
	}
	return NULL;
}

int main(int argc, char **argv)
{
	iters = atol(argv[1]);
	lrounds = atol(argv[2]);
	int maxt = atoi(argv[3]);
	for (int i = 0; i < NT; i++)
		outs[i] = malloc((iters + 2) * sizeof(long));
	for (int i = 0; i < sizeof(types) / sizeof(*types); i++) {
		struct type *t = &types[i];
		for (int k = 0; k < sizeof(wname) / sizeof(*wname); k++) {
			if (!t->w[k])
				break;
			for (nt = 2; nt <= maxt; nt *= 2) {
				const char *bad = run1(t, k);
				if (bad) {
					printf("BAD %s|%s|%s\n", wname[k], t->name, bad);
					break;
				}
				printf("ok %s|%s|%ld\n", wname[k], t->name, nt * iters);
			}
			fflush(stdout);
		}
		if (lrounds) {
			pthread_t p[2];
			lt = t;
			lbad = lsync = arrive0 = arrive1 = 0;
			for (long j = 0; j < 2; j++)
				pthread_create(&p[j], NULL, lthread, (void *)j);
			for (int j = 0; j < 2; j++)
				pthread_join(p[j], NULL);
			if (lbad)
				printf("BAD order|%s|each of two threads stored before the other loaded, yet both saw the old value\n", t->name);
			else
				printf("ok order|%s|%ld\n", t->name, lrounds);
		}
	}
	return 0;
}
