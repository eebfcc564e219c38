/* Compiled by toycc once per element type: -DT=<type> -DID=<suffix>
 * -DISINT=0/1 -DISPTR=0/1.  Every function is run by several threads at a
 * time; rt/atomic_main.c (never compiled by toycc) starts them and judges. */
#include <stdatomic.h>
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define FN(n) CAT(n##_, ID)
typedef _Atomic(T) AT;

AT FN(obj);
static AT FN(priv)[8];
struct FN(S) { char c; AT m; char d; AT n; short e; };
struct FN(S) FN(st);
struct FN(S) *FN(stp) = &FN(st);
static struct { char before[16]; AT a[8]; char after[16]; } FN(guard);
int FN(size)(void) { return sizeof(T); }
int FN(issigned)(void) { return ISINT && (T)-1 < (T)1; }

void FN(reset)(long v)
{
	FN(obj) = (T)v;
	for (int i = 0; i < 8; i++) {
		FN(priv)[i] = (T)0;
		FN(guard).a[i] = (T)0;
	}
	for (int i = 0; i < 16; i++)
		FN(guard).before[i] = FN(guard).after[i] = 0x5a;
	FN(st).m = (T)0;
	FN(st).n = (T)0;
	FN(st).c = 11;
	FN(st).d = 22;
	FN(st).e = 333;
}

long FN(final)(void) { return (long)FN(obj); }
long FN(final_m)(void) { return (long)FN(st).m; }
long FN(final_n)(void) { return (long)FN(st).n; }
long FN(final_a)(int i) { return (long)FN(guard).a[i]; }
int FN(guards_ok)(void)
{
	for (int i = 0; i < 16; i++)
		if (FN(guard).before[i] != 0x5a || FN(guard).after[i] != 0x5a)
			return 0;
	return FN(st).c == 11 && FN(st).d == 22 && FN(st).e == 333;
}

/* tickets: each result is unique, up or down */
void FN(t_postinc)(int tid, long n, long *out) { for (long i = 0; i < n; i++) out[i] = (long)FN(obj)++; }
void FN(t_preinc)(int tid, long n, long *out) { AT *p = &FN(obj); for (long i = 0; i < n; i++) out[i] = (long)++*p; }
void FN(t_postdec)(int tid, long n, long *out) { AT *p = &FN(obj); for (long i = 0; i < n; i++) out[i] = (long)(*p)--; }
void FN(t_predec)(int tid, long n, long *out) { for (long i = 0; i < n; i++) out[i] = (long)--FN(obj); }
void FN(t_addeq)(int tid, long n, long *out) { for (long i = 0; i < n; i++) out[i] = (long)(FN(obj) += 1); }
void FN(t_subeq)(int tid, long n, long *out) { AT *p = &FN(obj); for (long i = 0; i < n; i++) out[i] = (long)(*p -= 1); }
void FN(t_member)(int tid, long n, long *out) { for (long i = 0; i < n; i++) out[i] = (long)(FN(st).m += 1); }
void FN(t_memberp)(int tid, long n, long *out) { for (long i = 0; i < n; i++) out[i] = (long)FN(stp)->m++; }
void FN(t_memberpre)(int tid, long n, long *out) { for (long i = 0; i < n; i++) out[i] = (long)++FN(stp)->m; }
void FN(t_casweak)(int tid, long n, long *out)
{
	for (long i = 0; i < n; i++) {
		T old = FN(obj);
		while (!atomic_compare_exchange_weak(&FN(obj), &old, old + 1))
			;
		out[i] = (long)old;
	}
}
void FN(t_casstrong)(int tid, long n, long *out)
{
	for (long i = 0; i < n; i++) {
		T old = atomic_load(&FN(obj)), new;
		do
			new = old + 1;
		while (!atomic_compare_exchange_strong(&FN(obj), &old, new));
		out[i] = (long)new;
	}
}
#if ISINT
void FN(t_fetchadd)(int tid, long n, long *out) { for (long i = 0; i < n; i++) out[i] = (long)atomic_fetch_add(&FN(obj), 1); }
void FN(t_fetchsub)(int tid, long n, long *out) { for (long i = 0; i < n; i++) out[i] = (long)atomic_fetch_sub_explicit(&FN(obj), 1, memory_order_seq_cst); }

/* every thread owns a bit; nobody else changes it */
static long FN(bit)(int tid, long i, long v, int want)
{
	return ((v >> tid) & 1) != want;
}
void FN(b_xor)(int tid, long n, long *out)
{
	long bad = 0;
	for (long i = 0; i < n; i++)
		bad += FN(bit)(tid, i, (long)(FN(obj) ^= (T)(1 << tid)), ~i & 1);
	out[0] = bad;
}
void FN(b_orand)(int tid, long n, long *out)
{
	long bad = 0;
	for (long i = 0; i < n; i += 2) {
		bad += FN(bit)(tid, i, (long)(FN(obj) |= (T)(1 << tid)), 1);
		bad += FN(bit)(tid, i, (long)(FN(obj) &= (T)~(1 << tid)), 0);
	}
	out[0] = bad;
}
void FN(b_fetch)(int tid, long n, long *out)
{
	long bad = 0;
	for (long i = 0; i < n; i += 4) {
		bad += FN(bit)(tid, i, (long)atomic_fetch_or(&FN(obj), (T)(1 << tid)), 0);
		bad += FN(bit)(tid, i, (long)atomic_fetch_and(&FN(obj), (T)~(1 << tid)), 1);
		bad += FN(bit)(tid, i, (long)atomic_fetch_xor(&FN(obj), (T)(1 << tid)), 0);
		bad += FN(bit)(tid, i, (long)atomic_fetch_xor_explicit(&FN(obj), (T)(1 << tid), memory_order_relaxed), 1);
	}
	out[0] = bad;
}
/* commutes modulo the width */
void FN(m_mul)(int tid, long n, long *out) { for (long i = 0; i < n; i++) FN(obj) *= 3; }
#endif

/* what is put in comes out once */
void FN(x_exch)(int tid, long n, long *out)
{
	for (long i = 0; i < n; i++) {
		T v = (T)(tid * 16 + i % 13);
		out[i] = (long)atomic_exchange(&FN(obj), v);
	}
}
void FN(x_exchm)(int tid, long n, long *out)
{
	for (long i = 0; i < n; i++) {
		T v = (T)(tid * 16 + i % 13);
		out[i] = (long)atomic_exchange_explicit(&FN(stp)->m, v, memory_order_acq_rel);
	}
}

/* neighbours: a thread works on its own element only and must never see it
 * change otherwise; whatever happens next to it */
void FN(n_mixed)(int tid, long n, long *out)
{
	long bad = 0;
	AT *p = &FN(guard).a[tid];
	T shadow = (T)0;
	for (long i = 0; i < n; i++) {
		T e;
		switch ((i + tid) % 6) {
		case 0: bad += (*p)++ != shadow; shadow = shadow + 1; break;
		case 1: bad += (*p += 1) != (T)(shadow + 1); shadow = shadow + 1; break;
		case 2: e = shadow; bad += !atomic_compare_exchange_strong(p, &e, shadow + 1); bad += e != shadow; shadow = shadow + 1; break;
		case 3: e = (T)(shadow + 1); bad += atomic_compare_exchange_strong(p, &e, shadow) ; bad += e != shadow; break;
		case 4: bad += atomic_exchange(p, shadow + 1) != shadow; shadow = shadow + 1; break;
		case 5: *p = shadow - 1; bad += *p != (T)(shadow - 1); shadow = shadow - 1; break;
		}
		bad += *p != shadow;
	}
	out[0] = bad;
	out[1] = (long)shadow;
}

/* a value is never seen half written */
void FN(v_tear)(int tid, long n, long *out)
{
	long bad = 0;
#if ISINT
	unsigned long ones = 0x0101010101010101;
	for (long i = 0; i < n; i++) {
		if (tid & 1) {
			FN(obj) = (T)(ones * (i & 0x7f));
		} else {
			T v = FN(obj);
			bad += v != (T)(ones * (v & 0x7f));
		}
	}
#endif
	out[0] = bad;
}

/* mutual exclusion built on each operation */
static long FN(plain);
static struct { long a, b, c; } FN(both);
void FN(l_reset)(void) { FN(plain) = 0; FN(both).a = FN(both).b = FN(both).c = 0; }
long FN(l_final)(void) { return FN(plain); }
static int FN(critical)(void)
{
	int bad = FN(both).a != FN(both).b || FN(both).b != FN(both).c;
	FN(plain)++;
	FN(both).a++;
	FN(both).b = FN(both).a;
	FN(both).c = FN(both).b;
	return bad;
}
void FN(l_exch)(int tid, long n, long *out)
{
	long bad = 0;
	for (long i = 0; i < n; i++) {
		while (atomic_exchange(&FN(obj), 1))
			;
		bad += FN(critical)();
		atomic_store(&FN(obj), 0);
	}
	out[0] = bad;
}
void FN(l_cas)(int tid, long n, long *out)
{
	long bad = 0;
	for (long i = 0; i < n; i++) {
		for (;;) {
			T e = (T)0;
			if (atomic_compare_exchange_weak(&FN(obj), &e, (T)(tid + 1)))
				break;
			bad += !e;
		}
		bad += FN(critical)();
		bad += atomic_exchange(&FN(obj), 0) != (T)(tid + 1);
	}
	out[0] = bad;
}
static atomic_flag FN(flag) = ATOMIC_FLAG_INIT;
void FN(l_flag)(int tid, long n, long *out)
{
	long bad = 0;
	for (long i = 0; i < n; i++) {
		while (atomic_flag_test_and_set(&FN(flag)))
			;
		bad += FN(critical)();
		atomic_flag_clear(&FN(flag));
	}
	out[0] = bad;
}

/* store buffering and message passing on two objects */
static struct { AT x; char gap[120]; AT y; char gap2[120]; } FN(two);
void FN(o_reset)(void) { FN(two).x = (T)0; FN(two).y = (T)0; }
long FN(o_step)(int tid)
{
	if (tid) {
		FN(two).y = (T)1;
		return (long)FN(two).x;
	}
	atomic_store(&FN(two).x, 1);
	return (long)atomic_load(&FN(two).y);
}
