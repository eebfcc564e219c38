import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
from modelprog import PRE, check_diff, summarize

# 1. results and memory of atomic operations without contention, against gcc
# 2. threads race over every operation and type; conservation, uniqueness,
#    exclusion, isolation and ordering are checked from what they recorded
# 3. thread-local objects seen from several threads and translation units

INTS = [('c', 'char', 8, 1), ('sc', 'signed char', 8, 1), ('uc', 'unsigned char', 8, 0), ('s', 'short', 16, 1), ('us', 'unsigned short', 16, 0),
        ('i', 'int', 32, 1), ('u', 'unsigned', 32, 0), ('l', 'long', 64, 1), ('ul', 'unsigned long', 64, 0), ('ll', 'long long', 64, 1)]
FLTS = [('f', 'float', 0, 1), ('d', 'double', 0, 1)]
BOOL = ('b', '_Bool', 1, 0)


class Seq:
    def __init__(self, r):
        self.r = r
        self.id = 0
        self.descr = {}
        self.cov = set()
        self.gl, self.body = [], []
        self.conts = []                  # (dump expression, size expression)
        self.objs = []                   # (lvalue, type)
        self.setup = ''
        for k in range(r.randint(2, 4)):
            self.container(k)

    def ty(self):
        r = self.r
        return r.choice(INTS * 3 + FLTS + [BOOL])

    def container(self, k):
        r = self.r
        t = self.ty()
        n = 'k%d' % k
        form = r.randrange(6)
        at = r.choice(['_Atomic(%s)', '_Atomic %s', '%s _Atomic']) % t[1]
        place = r.choice(['global', 'static', 'local', 'param'])
        if form == 0:
            d, objs = '%s %s' % (at, n), [(n, t)]
        elif form in (1, 2):
            m = r.randint(2, 9)
            d, objs = '%s %s[%d]' % (at, n, m), [('%s[%d]' % (n, j), t) for j in range(m)]
        else:
            mem, objs = [], []
            for j in range(r.randint(2, 6)):
                u = self.ty()
                if r.random() < .6:
                    mem.append('_Atomic(%s) m%d;' % (u[1], j))
                    objs.append(('%s.m%d' % (n, j), u))
                else:
                    mem.append('%s q%d;' % (u[1], j))
            if not objs:
                mem.append('%s z;' % at)
                objs.append((n + '.z', t))
            self.gl.append('struct S%d { %s };' % (k, ' '.join(mem)))
            d = 'struct S%d %s' % (k, n)
        sz = 'sizeof(%s)' % n
        if place == 'local':
            self.setup += '%s; memset(&%s, 0, sizeof %s);\n' % (d, n, n)
        elif place == 'param' and form >= 3:
            self.gl.append('static %s_g;' % d)
            self.setup += 'struct S%d *%sp = &%s_g;\n' % (k, n, n)
            objs = [(o.replace(n + '.', n + 'p->'), t) for o, t in objs]
            self.conts.append(('%sp' % n, 'sizeof(*%sp)' % n))
            self.objs += objs
            return
        else:
            self.gl.append(('static ' if place == 'static' else '') + d + ';')
        self.conts.append(('&' + n, sz))
        self.objs += objs

    def nid(self, what):
        self.id += 1
        self.descr[self.id] = what
        return self.id

    def small(self, t):
        r = self.r
        if t[2] == 0:
            return r.choice(['1.5', '-2', '3', '0.25f', '100'])
        if t[2] == 1:
            return r.choice(['0', '1', '5'])
        if t[2] < 32:
            return str(r.choice([1, 2, 3, 5, 7, 100, 127, 128, 255, 300, 1000, 40000, -1, -2, -100]))
        return str(r.choice([1, 2, 3, 5, 7, 100, 127, 300, 1000, 40000, -1, -2, -100]))

    def value(self, t):
        """an expression whose evaluation may itself use registers"""
        r = self.r
        v = self.small(t)
        k = r.random()
        if k < .4:
            return v
        if k < .55:
            return 'idl(%s)' % v if t[2] else 'idd(%s)' % v
        if k < .7:
            return '(one * %s + zero)' % v
        if k < .8 and t[2] > 1:
            return '(idl(2) * idl(3) + idl(%s) - idl(6))' % v
        if k < .9:
            o, u = r.choice(self.objs)
            if u[2] > 1 and o != self.lhs:
                f = r.choice(['(%s)', 'atomic_exchange(&%s, 9)', '(%s += 1, 3)', 'atomic_load(&%s)'])
                if t[2] == 32 or t[2] == 64:
                    return '(short)((%s) & 63)' % (f % o)
                return '(signed char)(%s & 31)' % (f % o)
        return v

    def rec(self, e, t, what):
        i = self.nid(what)
        if t[2] == 0:
            return 'evd(%d, %s);' % (i, e)
        return 'ev(%d, %s);' % (i, e)

    def step(self):
        r = self.r
        o, t = r.choice(self.objs)
        self.lhs = o
        k = r.randrange(10)
        addr = r.choice(['&%s', '&%s', 'idp(&%s)', '(&%s + zero)']) % o
        addr = '&' + o if 'idp' not in addr else '(_Atomic(%s) *)idp(&%s)' % (t[1], o)
        v = self.value(t)
        if k < 3:
            ops = ['+', '-', '*', '/'] + (['%', '&', '|', '^', '<<', '>>'] if t[2] else [])
            op = r.choice(ops)
            if op in ('/', '%'):
                v = r.choice(['3', '7', '2', '(one + 4)', 'idl(5)'])
            if op in ('<<', '>>'):
                v = r.choice(['1', '2', 'idl(3)', 'one'])
            if op == '*' and t[2]:
                v = r.choice(['2', '3', '(one + one)', 'idl(3)'])
            pre = ''
            if t[2] >= 32 and t[3] and op in ('<<', '*', '+', '-'):
                # stay away from signed overflow
                pre = '%s = %s;' % (o, r.choice(['5', '77', '1000', '123456'] + (['-5'] if op != '<<' else [])))
            elif op == '<<' and t[3]:
                pre = '%s = 3;' % o
            elif t[2] == 0:
                pre = '%s = %s;' % (o, r.choice(['2.5', '-7', '1000000', '0']))
            form = r.random()
            st = '(%s %s= %s)' % (o, op, v)
            if form < .2:
                st = '(*(%s) %s= %s)' % (addr, op, v)
            self.cov.add('%s %s=' % (t[1], op))
            return pre + self.rec(st, t, '%s on _Atomic(%s)' % (op + '=', t[1]))
        if k == 3:
            f = r.choice(['%s++', '++%s', '%s--', '--%s'])
            if t[2] == 1 and '--' in f:
                f = '++%s'
            self.cov.add('%s %s' % (t[1], f % 'x'))
            pre = '%s = %s;' % (o, r.choice(['0', '5', '100', '-3' if t[3] else '3', '1'])) if r.random() < .6 or t[2] >= 32 or t[2] == 0 else ''
            return pre + self.rec('(%s)' % (f % o), t, '%s on _Atomic(%s)' % (f % 'x', t[1]))
        if k in (4, 5):
            ev = r.choice(['same', 'same', 'other', 'near'])
            e = {'same': o, 'other': self.small(t), 'near': '%s + 1' % o}[ev]
            if t[2] == 0 and ev == 'near':
                e = o
            w = r.choice(['weak', 'strong'])
            if w == 'weak' and ev == 'same':
                w = 'strong'
            self.cov.add('%s cas %s' % (t[1], ev))
            i = self.nid('compare exchange on _Atomic(%s), expected %s' % (t[1], ev))
            ee = r.choice(['&e.x', '&e.x', '(%s *)idp(&e.x)' % t[1]])
            s = '{ struct { %s g, x, h; } e; memset(&e, 0x5a, sizeof e); e.x = %s; ' % (t[1], e)
            s += 'int ok = atomic_compare_exchange_%s(%s, %s, %s); ev(%d, ok); evm(%d, &e, sizeof e); }' % (w, addr, ee, v, i, i)
            return s
        if k == 6:
            self.cov.add('%s exchange' % t[1])
            f = r.choice(['atomic_exchange(%s, %s)', 'atomic_exchange_explicit(%s, %s, memory_order_seq_cst)']) % (addr, v)
            return self.rec(f, t, 'atomic_exchange on _Atomic(%s)' % t[1])
        if k == 7 and t[2] > 1:
            op = r.choice(['add', 'sub', 'or', 'and', 'xor'])
            pre = ''
            if t[2] >= 32 and t[3] and op in ('add', 'sub'):
                pre = '%s = %s;' % (o, r.choice(['5', '-77', '1000']))
            if t[2] < 32:
                # the reference compiler itself overwrites neighbours when the
                # operand of a narrow fetch operation is negative
                v = '((%s) & 63)' % v
            self.cov.add('%s fetch_%s' % (t[1], op))
            f = r.choice(['atomic_fetch_%s(%s, %s)', 'atomic_fetch_%s_explicit(%s, %s, memory_order_relaxed)']) % (op, addr, v)
            return pre + self.rec(f, t, 'atomic_fetch_%s on _Atomic(%s)' % (op, t[1]))
        if k == 8:
            f = r.choice(['atomic_store(%s, %s);', 'atomic_store_explicit(%s, %s, memory_order_release);', 'atomic_init(%s, %s);']) % (addr, v)
            self.cov.add('%s store/load' % t[1])
            g = r.choice(['atomic_load(&%s)', 'atomic_load_explicit(&%s, memory_order_acquire)', '%s', '(1 ? %s : 0)']) % o
            return f + self.rec(g, t, 'atomic load of _Atomic(%s)' % t[1])
        self.cov.add('%s assignment' % t[1])
        m = re.match(r'(k\d+)\[(\d+)\]$', o)
        if m and r.random() < .6 and t[2] > 1:
            i = self.nid('atomic operation on an element with a side effect in its index')
            op = r.choice(['%s[j++] += 1', '%s[j++]++', 'atomic_exchange(&%s[j++], 4)', 'atomic_fetch_or(&%s[j++], 4)']) % m[1]
            return '{ int j = %s; %s[j] = 3; ev(%d, %s); ev(%d, j); }' % (m[2], m[1], i, op, i)
        return self.rec('(%s = %s)' % (o, v), t, 'assignment to _Atomic(%s)' % t[1])

    def text(self, n):
        out = []
        for _ in range(n):
            s = self.step()
            what = self.nid('memory after: ' + s[:200])
            out.append(s + ' ' + ' '.join('evm(%d, %s, %s);' % (what, a, z) for a, z in self.conts))
        return (PRE + '#include <stdatomic.h>\nstatic volatile int one = 1, zero;\nlong idl(long x) { return x; }\ndouble idd(double x) { return x; }\n'
                'void *idp(void *p) { return p; }\n' + '\n'.join(self.gl) + '\nint main(void)\n{\n' + self.setup + '\n'.join(out) + '\nreturn 0;\n}\n')


def sequential(ctx, q):
    r = ctx.sub('seq', q)
    p = Seq(r)
    src = p.text(25)

    def label(i, g, w):
        return p.descr.get((w or g)[0], '?')[:1000]
    res = check_diff(ctx, 'seq%d' % q, src, label=label, ref_opts=('-O0', '-O1'), ref_flags=('-fno-trapping-math', '-I/nonexistent'),
                     toy_flags=('-fpic',) if q % 4 == 0 else ())
    if res:
        ctx.seen(*p.cov)
        ctx.bump('uncontended operations', 25)


TYPES = [('char', 'char', 1, 0), ('uc', 'unsigned char', 1, 0), ('sc', 'signed char', 1, 0), ('short', 'short', 1, 0), ('us', 'unsigned short', 1, 0),
         ('int', 'int', 1, 0), ('ui', 'unsigned', 1, 0), ('long', 'long', 1, 0), ('ul', 'unsigned long', 1, 0), ('ll', 'long long', 1, 0),
         ('flt', 'float', 0, 0), ('dbl', 'double', 0, 0), ('ptr', 'int *', 0, 1)]


def races(ctx):
    d = ctx.uniq('race')
    rt = os.path.join(VERIF, 'rt')
    for f in ('atomic_work.c', 'atomic_main.c'):
        shutil.copy(os.path.join(rt, f), d)
    groups = [TYPES[k::4] for k in range(4)]

    def group(k):
        """one executable per group of types"""
        ts = groups[k]
        gd = os.path.join(d, 'g%d' % k)
        os.mkdir(gd)
        shutil.copy(os.path.join(d, 'atomic_main.c'), gd)
        with open(os.path.join(gd, 'types.inc'), 'w') as f:
            for id, t, i, p in ts:
                f.write('DECL%s(%s);\n' % ('I' if i else '', id))
            f.write('static struct type types[] = {%s};\n' % ',\n'.join(
                '{"%s", %d, %d, COMMON(%s), {%s(%s)}}' % (t, i, p, id, 'WI' if i else 'W', id) for id, t, i, p in ts))
        objs = []
        for id, t, i, p in ts:
            o = os.path.join(gd, id + '.o')
            r = run([ctx.toycc(), *(['-fpic'] if k % 2 else []), '-DT=' + t, '-DID=' + id, '-DISINT=%d' % i, '-DISPTR=%d' % p, '-c', 'atomic_work.c', '-o', o], 60, cwd=d)
            if r.rc:
                ctx.violate('a program with atomic operations on %s is rejected: %s' % (t, summarize(r.err)), txt(r.err))
                return
            objs.append(o)
        exe = os.path.join(gd, 'am')
        r = run([RVGCC, '-w', '-O1', '-static', '-pthread', '-o', exe, os.path.join(gd, 'atomic_main.c'), *objs], 120)
        if r.rc:
            ctx.violate('objects with atomic operations do not link: ' + summarize(r.err), txt(r.err))
            return
        iters, rounds, nt = ctx.scale((6000, 60000, 8), (60000, 600000, 8))
        x = run(QEMU + [exe, str(iters), str(rounds), str(nt)], ctx.scale(240, 3000))
        out = txt(x.out)
        for l in out.split('\n'):
            if l.startswith('ok '):
                test, t, ops = l[3:].split('|')
                ctx.count()
                ctx.bump('contended operations', int(ops))
                ctx.seen('race %s %s' % (test, t))
            elif l.startswith('BAD '):
                test, t, what = l[4:].split('|')
                ctx.violate('%s on _Atomic(%s) under contention: %s' % (test, t, re.sub(r'-?\d+', 'N', what)),
                            '%s\nsource: rt/atomic_work.c compiled with -DT="%s", driven by rt/atomic_main.c with %s' % (what, t, x))
            elif l.startswith('HARNESS'):
                raise HarnessError(l)
        last = out.strip().split('\n')[-1][:80] if out.strip() else '-'
        if x.timed_out:
            ctx.violate('racing threads never finish; last result: ' + re.sub(r'\d+', 'N', last), out[-2000:])
        elif x.rc:
            ctx.violate('a program with racing threads dies (status %s); last result: %s' % (x.rc, re.sub(r'\d+', 'N', last)), out[-2000:] + txt(x.err)[-500:])
    ctx.pmap(group, range(len(groups)), 2)
    shutil.rmtree(d, ignore_errors=True)


# ---- thread-local objects
class Tls:
    """Two translation units share thread-local objects of random types; every
    thread checks initial values, alignment and that its stores stay its own."""
    TY = ['char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'float', 'double', 'int *']

    def __init__(self, r):
        self.r = r
        self.decl = [[], []]
        self.fun = [[], []]
        self.vars = []
        self.cov = set()
        for k in range(r.randint(3, 9)):
            self.var(k)

    def const(self, t):
        r = self.r
        if t == 'int *':
            return r.choice(['0', '&plain', '&arr[3]'])
        if t in ('float', 'double'):
            return r.choice(['1.5', '-2.25', '1000'])
        return str(r.choice([1, 2, 77, 100, -1 if 'unsigned' not in t else 200 if 'char' in t else 1000]))

    def var(self, k):
        r = self.r
        u = r.randrange(2)
        t = r.choice(self.TY)
        n = 'tv%d' % k
        kind = r.choice(['extern', 'extern', 'static', 'local', 'onlyhere'])
        init = r.choice(['none', 'value', 'value', 'zero'])
        al = r.choice(['', '', '_Alignas(16) ', '_Alignas(32) ', '_Alignas(64) '])
        shape = r.choice(['scalar', 'scalar', 'array', 'struct'])
        if shape == 'scalar':
            c = self.const(t)
            d, ini, acc = '%s %s' % (t if t != 'int *' else 'int *', n), {'none': '', 'zero': ' = 0', 'value': ' = ' + c}[init], [('%s', c if init == 'value' else '0', t)]
        elif shape == 'array':
            m = r.choice([2, 3, 5, 100, 700])
            cs = [self.const(t) for _ in range(min(m, 3))]
            d = '%s %s[%d]' % (t, n, m)
            ini = {'none': '', 'zero': ' = {0}', 'value': ' = {%s}' % ', '.join(cs)}[init]
            acc = [('%%s[%d]' % j, (cs[j] if init == 'value' and j < len(cs) else '0'), t) for j in sorted({0, 1, m - 1, m // 2})]
        else:
            t2 = r.choice(self.TY)
            self.decl[0].append('struct TS%d { char c; %s a; %s b[2]; };' % (k, t, t2))
            self.decl[1].append(self.decl[0][-1])
            a, b = self.const(t), self.const(t2)
            d = 'struct TS%d %s' % (k, n)
            ini = {'none': '', 'zero': ' = {0}', 'value': ' = {7, %s, {%s}}' % (a, b)}[init]
            v = init == 'value'
            acc = [('%s.c', '7' if v else '0', 'char'), ('%s.a', a if v else '0', t), ('%s.b[0]', b if v else '0', t2), ('%s.b[1]', '0', t2)]
        q = r.choice(['_Thread_local', '__thread', '_Thread_local'])
        self.cov.add('tls %s %s %s%s' % (kind, shape, init, ' aligned' if al else ''))
        addr = 'adr%d' % k
        if kind == 'extern':
            if r.random() < .3:
                self.decl[u].append('extern %s %s;' % (q, d))
            self.decl[u].append('%s%s %s%s;' % (al, q, d, ini))
            self.decl[1 - u].append('extern %s %s;' % (q, d))
            units = (0, 1)
        elif kind == 'onlyhere':
            self.decl[u].append('%s%s %s%s;' % (al, q, d, ini))
            units = (u,)
        elif kind == 'static':
            self.decl[u].append('static %s%s %s%s;' % (al, q, d, ini))
            units = (u,)
        else:
            units = (u,)
        for w in units:
            x = n
            pre = ''
            if kind == 'local':
                pre = 'static %s%s %s%s; ' % (al, q, d, ini)
            if r.random() < .5 and kind == 'extern' and not al:
                # use through a block-scope redeclaration
                pre = 'extern %s %s; ' % (q, d)
            # initial values
            conds = ' + '.join('!(%s == %s)' % (a % n, c) for a, c, _ in acc)
            body = 'long get%d_%d(int what, int tid) { %sswitch (what) { case 0: return %s; ' % (k, w, pre, conds)
            stores, checks = [], []
            for j, (a, c, ty) in enumerate(acc):
                if ty == 'int *':
                    e = '&arr[tid + %d]' % j
                else:
                    e = '(%s)(tid * 7 + %d)' % (ty, j)
                stores.append('%s = %s;' % (a % n, e))
                checks.append('!(%s == %s)' % (a % n, e))
            body += 'case 1: %s return 0; case 2: return %s; case 3: return (long)&%s; case 4: return sizeof %s; ' % (' '.join(stores), ' + '.join(checks), n, n)
            nums = [a % n for a, _, ty in acc if ty != 'int *']
            if nums:
                # thread-local operands deep inside expressions and arguments
                e = nums[0]
                expr = 'mix(%s, tid, %s, %s)' % (e, nums[-1], e)
                body += 'case 5: return (long)(tid * 3 + (%s * 2 + (tid - mix(tid, %s, 1, 2) * (%s + tid)))) == (long)(tid * 3 + (%s)); ' % (
                    e, e, nums[-1], 'h%d_%d(%s, %s, tid)' % (k, w, e, nums[-1]))
                ty0, ty1 = acc[[a % n for a, _, _ in acc].index(e)][2], acc[[a % n for a, _, _ in acc].index(nums[-1])][2]
                body = 'static long mixd(long a) { return a; }\n'.replace('mixd', 'mixd%d_%d' % (k, w)) + \
                    'static %s h%d_%d(%s a, %s b, int tid) { return a * 2 + (tid - mix(tid, a, 1, 2) * (b + tid)); }\n' % (
                        'double' if ty0 in ('float', 'double') or ty1 in ('float', 'double') else 'long', k, w, ty0, ty1) + body if 0 else body.replace(
                        'h%d_%d(%s, %s, tid)' % (k, w, e, nums[-1]), '(cp0 * 2 + (tid - mix(tid, cp0, 1, 2) * (cp1 + tid)))').replace(
                        'case 5: return', 'case 5: { %s cp0 = %s; %s cp1 = %s; return' % (ty0, e, ty1, nums[-1])).rstrip() + ' } '
            else:
                body += 'case 5: return 1; '
            body += '} return -1; }'
            self.fun[w].append(body)
        alv = int(re.search(r'\d+', al).group()) if al else 1
        self.vars.append((k, units, alv))

    def unit(self, w):
        return ('extern int plain, arr[];\nlong mix(long, long, long, long);\n' + '\n'.join(self.decl[w]) + '\n' + '\n'.join(self.fun[w]) + '\n')

    def main(self, seed):
        r = self.r
        out = ['#include <pthread.h>\n#include <stdio.h>\n#include <stdlib.h>\n#include <sched.h>\nint plain, arr[64];\nlong mix(long a, long b, long c, long d) { return a * 3 + b - c * 5 + d; }']
        rows = []
        for k, units, al in self.vars:
            for w in units:
                out.append('long get%d_%d(int, int);' % (k, w))
            rows.append('{%d, %d, {%s}}' % (k, al, ', '.join('get%d_%d' % (k, w) for w in units)))
        out.append('struct row { int k, al; long (*get[2])(int, int); } rows[] = {%s};' % ', '.join(rows))
        out.append(r'''
enum { NR = sizeof(rows) / sizeof(*rows), NT = 6 };
static long lo[NT][NR], size[NR];
static pthread_barrier_t bar;
static void bad(const char *what, int k, int tid) { printf("BAD %s|%d|%d\n", what, k, tid); fflush(stdout); }
static void *thread(void *a)
{
	int tid = (int)(long)a;
	unsigned s = tid * 7919 + 1;
	for (int i = 0; i < NR; i++) {
		for (int w = 0; w < 2 && rows[i].get[w]; w++) {
			if (rows[i].get[w](0, tid))
				bad("a thread-local object does not start with its initial value", rows[i].k, tid);
			long p = rows[i].get[w](3, tid);
			if (p % rows[i].al)
				bad("a thread-local object is not aligned", rows[i].k, tid);
			if (w && p != lo[tid][i])
				bad("two translation units use different objects of the same name", rows[i].k, tid);
			lo[tid][i] = p;
			size[i] = rows[i].get[w](4, tid);
		}
	}
	pthread_barrier_wait(&bar);
	for (int round = 0; round < 20; round++) {
		for (int i = 0; i < NR; i++)
			rows[i].get[(round & 1) && rows[i].get[1] ? 1 : 0](1, tid);
		if (s % 3 == 0)
			sched_yield();
		s = s * 1103515245 + 12345;
		for (int i = 0; i < NR; i++)
			for (int w = 0; w < 2 && rows[i].get[w]; w++) {
				if (rows[i].get[w](2, tid))
					bad("a thread-local object lost the value its thread stored", rows[i].k, tid);
				if (rows[i].get[w](5, tid) != 1)
					bad("an expression with thread-local operands has another value than with copies of them", rows[i].k, tid);
			}
	}
	pthread_barrier_wait(&bar);
	return NULL;
}
int main(void)
{
	pthread_t t[NT];
	pthread_barrier_init(&bar, NULL, NT);
	for (long i = 1; i < NT; i++)
		pthread_create(&t[i], NULL, thread, (void *)i);
	thread((void *)0);
	for (int i = 1; i < NT; i++)
		pthread_join(t[i], NULL);
	/* the objects of all threads are disjoint */
	for (int a = 0; a < NT * NR; a++)
		for (int b = 0; b < a; b++) {
			long p = lo[a / NR][a % NR], q = lo[b / NR][b % NR];
			if (p < q + size[b % NR] && q < p + size[a % NR])
				bad("thread-local objects overlap", rows[a % NR].k, a / NR);
		}
	printf("done %d %d\n", NT * NR, (int)NR);
	return 0;
}''')
        return '\n'.join(out)


def thread_local(ctx, q):
    r = ctx.sub('tls', q)
    p = Tls(r)
    d = ctx.uniq('tls')
    try:
        for n, t in (('u0.c', p.unit(0)), ('u1.c', p.unit(1)), ('main.c', p.main(q))):
            with open(os.path.join(d, n), 'w') as f:
                f.write(t)
        how = r.choice(['static', 'static', 'dynamic', 'dynamic-pic', 'so0', 'so1', 'so-gcc', 'toy-link'])
        comps = r.choice([('toy', 'toy'), ('toy', 'gcc'), ('gcc', 'toy')])
        # which unit goes to a shared library
        so = {'so0': 0, 'so1': 1}.get(how)
        if how == 'so-gcc':
            so = comps.index('gcc') if 'gcc' in comps else None
        flags = []
        for w in (0, 1):
            pic = how == 'dynamic-pic' or so == w or (how == 'static' and r.random() < .5)
            flags.append(['-fpic'] if pic else [])

        def build(comp, tag):
            objs = []
            for w in (0, 1):
                o = os.path.join(d, '%s%d.o' % (tag, w))
                src = os.path.join(d, 'u%d.c' % w)
                if comp[w] == 'toy':
                    x = ctx.cc_toy(src, o, flags[w])
                    if x.rc:
                        return None, 'valid program rejected: ' + summarize(x.err), x
                else:
                    x = run([RVGCC, *REFFLAGS, '-O1', *(flags[w] or ['-fno-pic']), '-c', '-o', o, src], 60)
                    if x.rc:
                        raise HarnessError('gcc rejects: ' + txt(x.err)[:500] + open(src).read()[:1500])
                objs.append(o)
            mo = os.path.join(d, 'main.o')
            x = run([RVGCC, '-w', '-O1', '-fno-pic', '-c', '-o', mo, os.path.join(d, 'main.c')], 60)
            if x.rc:
                raise HarnessError('main: ' + txt(x.err)[:500])
            exe = os.path.join(d, tag + '.exe')
            if so is not None:
                lib = os.path.join(d, 'lib%s.so' % tag)
                x = run([RVGCC, '-shared', '-o', lib, objs[so]], 60)
                if x.rc:
                    return None, 'shared library does not link: ' + summarize(x.err), x
                objs[so] = lib
                x = run([RVGCC, '-no-pie', '-pthread', '-o', exe, mo, *objs, '-Wl,-rpath,' + d], 60)
            elif how == 'toy-link' and comp != ('gcc', 'gcc'):
                x = run([ctx.toycc(), '-static', '-o', exe, mo, *objs, '-lpthread'], 60, cwd=d)
            else:
                x = run([RVGCC, '-static' if how in ('static', 'toy-link') else '-no-pie', '-pthread', '-o', exe, mo, *objs], 60)
            if x.rc:
                return None, 'does not link: ' + summarize(x.err), x
            y = run(QEMU + [exe], 60)
            return y, None, x

        def judge(y):
            if y.timed_out:
                return 'the program does not terminate'
            if y.rc or b'done' not in y.out:
                return 'the program dies (status %s)' % y.rc
            m = re.search(r'BAD ([^|]*)\|(\d+)\|(\d+)', txt(y.out))
            return m[1] if m else None
        y, why, x = build(comps, 't')
        bad = why or judge(y)
        if bad:
            z, zwhy, _ = build(('gcc', 'gcc'), 'g')
            if zwhy or judge(z):
                ctx.inconcl('tls%d: the reference fails, too: %s' % (q, zwhy or judge(z)))
                return
            ctx.violate('%s [%s]' % (bad, 'shared library' if so is not None else how),
                        'units %s, link %s, flags %s\n%s\n%s' % (comps, how, flags, bad, txt(y.out)[-800:] if y else txt(x.err)[:800]),
                        {'u0.c': p.unit(0), 'u1.c': p.unit(1), 'main.c': p.main(q)})
            return
        m = re.search(rb'done (\d+) (\d+)', y.out)
        ctx.count(int(m[1]))
        ctx.bump('thread-local instances observed', int(m[1]))
        ctx.seen(*p.cov, 'tls linked %s %s' % (how, '+'.join(comps)))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(ctx):
    ctx.rule = 'an operation x type observed alone, an operation x type raced by threads, or a kind of thread-local declaration x way of linking'
    ctx.assumptions = ['qemu runs guest threads in parallel on the host and emulates lr/sc and amo atomically', 'gcc and glibc are right about atomics and TLS']
    ctx.toycc()
    ctx.pmap(lambda q: thread_local(ctx, q), range(ctx.scale(200, 3000)))
    ctx.pmap(lambda q: sequential(ctx, q), range(ctx.scale(250, 5000)))
    races(ctx)
    ctx.sample('race: 8 threads over t_fetchadd on _Atomic(short): results unique, final value conserved, neighbouring bytes intact')


if __name__ == "__main__":
    main('C17', check)
