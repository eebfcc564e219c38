/* Stress of the real hash table with an online shadow-map oracle.
 * usage: hashmap_stress SEED ROUNDS
 * Prints statistics; on a violation prints "BAD ..." and exits with 2. */
#include <toycc.h>
#include <hashmap.h>

static uint64_t rs;
static uint64_t rnd(void)
{
	rs ^= rs << 13;
	rs ^= rs >> 7;
	rs ^= rs << 17;
	return rs * 0x2545F4914F6CDD1DULL;
}
static int below(int n) { return (rnd() >> 33) % n; }

struct Key {
	char *s;		/* exactly len bytes, no terminator: over-reads are seen by ASan */
	char *z;		/* with terminator, NULL if the key has a NUL inside */
	int len;
	bool present;
	void *val;
};

static long n_ops, n_get_hit, n_get_miss, n_put_new, n_put_over, n_put_again, n_del_hit, n_del_miss, n_full;
static const char *last_op = "";

static void bad(int round, int op, const char *what, struct Key *k)
{
	printf("BAD round %d operation %d: %s key \"", round, op, what);
	for (int i = 0; i < k->len && i < 40; i++)
		if (k->s[i] >= 32 && k->s[i] < 127)
			putchar(k->s[i]);
		else
			printf("\\x%02x", (unsigned char)k->s[i]);
	printf("\" after %s\n", last_op);
	fflush(stdout);
	_exit(2);
}

static struct Key *make_keys(int n, int family)
{
	struct Key *k = calloc(n, sizeof(*k));
	char buf[600];
	for (int i = 0; i < n; i++) {
		int len;
		switch (family) {
		case 0: len = sprintf(buf, "key %d", i); break;
		case 1: len = sprintf(buf, "__M%x_%d", i * 7, i); break;
		case 2:		/* all prefixes of one long string */
			len = i % 512;
			memset(buf, 'a', sizeof(buf));
			if (i >= 512)
				len = 512 + sprintf(buf + 512, "%d", i);
			break;
		case 3:		/* arbitrary bytes, NUL included */
			len = sprintf(buf, "%d", i);
			for (int j = 0; j < 6; j++)
				buf[len++] = rnd() >> 40;
			break;
		case 4:		/* keys that only differ in the last byte, or in case */
			len = sprintf(buf, "common_prefix_of_all_names_%c%c", 'A' + i % 50, 'A' + i / 50 % 50);
			if (i >= 2500)
				len += sprintf(buf + len, "%d", i);
			break;
		case 6:		/* keys of one length that only differ behind a NUL byte */
			len = 0;
			buf[len++] = 'k';
			buf[len++] = 0;
			buf[len++] = i >> 8;
			buf[len++] = 0;
			buf[len++] = i;
			break;
		default:	/* one and two letters */
			len = 0;
			for (int v = i + 1; v; v /= 53)
				buf[len++] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"[v % 53];
			buf[len++] = 'x';
			break;
		}
		k[i].s = malloc(len ? len : 1);
		memcpy(k[i].s, buf, len);
		k[i].len = len;
		if (!memchr(buf, 0, len)) {
			k[i].z = malloc(len + 1);
			memcpy(k[i].z, buf, len);
			k[i].z[len] = 0;
		}
	}
	return k;
}

static void check_all(struct HashMap *m, struct Key *k, int n, int round, int op)
{
	for (int i = 0; i < n; i++) {
		void *v = hashmap_get2(m, k[i].s, k[i].len);
		if (v != (k[i].present ? k[i].val : NULL))
			bad(round, op, k[i].present ? (v ? "wrong value for" : "lost") : "found deleted or absent", &k[i]);
		n_full++;
	}
}

int main(int argc, char **argv)
{
	rs = strtoull(argv[1], 0, 10) * 0x9E3779B97F4A7C15ULL + 12345;
	int rounds = atoi(argv[2]);
	static const int sizes[] = {3, 8, 12, 24, 40, 100, 400, 3000};

	for (int round = 0; round < rounds; round++) {
		int n = sizes[below(8)];
		int fam = below(7);
		struct Key *k = make_keys(n, fam);
		struct HashMap map = {};
		int ops = n < 100 ? 4000 : n * 12;
		int wput = 20, wdel = 20;
		int window = n, base = 0;

		for (int op = 0; op < ops; op++) {
			if (op % 256 == 0) {
				/* change the mix: growing, shrinking, churning, sliding window */
				wput = 5 + below(60);
				wdel = below(45);
				window = 1 + below(n);
				base = below(n);
			}
			struct Key *q = &k[(base + below(window)) % n];
			int w = below(100);
			bool z = q->z && below(2);
			n_ops++;
			if (w < wput) {
				void *v = (void *)(rnd() | 1);
				if (below(20) == 0)
					v = NULL;
				if (q->present)
					n_put_over++, last_op = "overwriting";
				else if (q->val)
					n_put_again++, last_op = "inserting again";
				else
					n_put_new++, last_op = "inserting";
				if (z)
					hashmap_put(&map, q->z, v);
				else
					hashmap_put2(&map, q->s, q->len, v);
				q->present = true;
				q->val = v;
			} else if (w < wput + wdel) {
				if (q->present)
					n_del_hit++, last_op = "deleting";
				else
					n_del_miss++, last_op = "deleting an absent key";
				if (z)
					hashmap_delete(&map, q->z);
				else
					hashmap_delete2(&map, q->s, q->len);
				q->present = false;
				if (!q->val)
					q->val = (void *)1;
			} else {
				/* look up through a copy of the key */
				char *c = malloc(q->len ? q->len : 1);
				memcpy(c, q->s, q->len);
				void *v = z ? hashmap_get(&map, q->z) : hashmap_get2(&map, c, q->len);
				free(c);
				if (v != (q->present ? q->val : NULL))
					bad(round, op, q->present ? (v ? "wrong value for" : "lost") : "found deleted or absent", q);
				if (q->present)
					n_get_hit++;
				else
					n_get_miss++;
			}
			if (op % 97 == 0 && (n < 200 || op % 970 == 0))
				check_all(&map, k, n, round, op);
		}
		check_all(&map, k, n, round, ops);
		/* empty it and fill it again */
		for (int i = 0; i < n; i++) {
			hashmap_delete2(&map, k[i].s, k[i].len);
			k[i].present = false;
		}
		check_all(&map, k, n, round, ops + 1);
		for (int i = n - 1; i >= 0; i--) {
			hashmap_put2(&map, k[i].s, k[i].len, &k[i]);
			k[i].present = true;
			k[i].val = &k[i];
		}
		check_all(&map, k, n, round, ops + 2);
		for (int i = 0; i < n; i++) {
			free(k[i].s);
			free(k[i].z);
		}
		free(k);
		free(map.buckets);
	}
	printf("ops %ld get_hit %ld get_miss %ld put_new %ld put_over %ld put_again %ld del_hit %ld del_miss %ld full %ld\n",
	       n_ops, n_get_hit, n_get_miss, n_put_new, n_put_over, n_put_again, n_del_hit, n_del_miss, n_full);
	fflush(stdout);
	_exit(0);
}
