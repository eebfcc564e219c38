import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
from modelprog import *
from tygen import *

FL = ('float', 'double', 'long double')


def leaves(t, path=''):
    """(path, type) of every scalar; unions are represented by their first member only (dumped as bytes elsewhere)"""
    if t.kind in ('s', 'b'):
        yield path, t
    elif t.kind == 'a':
        for i in range(max(t.n, 0)):
            yield from leaves(t.base, '%s[%d]' % (path, i))
    else:
        for m, mt in t.members:
            if mt.kind == 'b' and m is None:
                continue
            yield from leaves(mt, '%s.%s' % (path, m) if m else path)


def has_union(t):
    if t.kind == 'r':
        return t.union or any(has_union(m) for _, m in t.members)
    return t.kind == 'a' and has_union(t.base)


def subobjects(t, path=''):
    yield path, t
    if t.kind == 'a':
        for i in range(max(t.n, 0)):
            yield from subobjects(t.base, '%s[%d]' % (path, i))
    elif t.kind == 'r':
        for m, mt in t.members:
            if m is None and mt.kind == 'b':
                continue
            yield from subobjects(mt, '%s.%s' % (path, m) if m else path)


def rec(id, e, t):
    f = {'float': 'evf', 'double': 'evd', 'long double': 'evL'}.get(t.name, 'ev')
    if t.name.endswith('*'):
        return 'ev(%d, (long)%s);' % (id, e)
    return '%s(%d, %s);' % (f, id, e)


class Prog:
    def __init__(self, r):
        self.r = r
        self.cov, self.descr, self.id = set(), {}, 0
        self.g = TyGen(r, flex=False, packed=r.random() < .3, maxalign=16)
        self.out, self.fns, self.calls = [], [], []
        types = []
        while len(types) < 5:
            t = self.g.record(2, small=r.random() < .3)
            if sum(1 for _ in leaves(t)) <= 16:
                types.append(t)
        self.types = types
        self.out += self.g.out
        for i in range(3):
            self.func(i)

    def nid(self, d):
        self.id += 1
        self.descr[self.id] = d
        return self.id

    def anytype(self):
        r = self.r
        k = r.random()
        if k < .35:
            return self.g.scalar()
        if k < .55:
            return Ty('a', base=self.g.scalar(), n=r.choice([1, 2, 3, 5]))
        if k < .65:
            return Ty('a', base=r.choice(self.types), n=r.choice([1, 2, 3]))
        return r.choice(self.types)

    def func(self, fi):
        r = self.r
        objs, decl_l, decl_g, init = [], [], [], []
        n = r.randrange(3, 7)
        for k in range(n):
            t = self.anytype()
            nm = 'x%d_%d' % (fi, k)
            where = r.choice(['local', 'local', 'global', 'static', 'arena', 'volatile'])
            if r.random() < .25:
                decl_l.append('volatile char pad%d[%d];' % (k, r.choice([1, 3, 1000, 2040, 3000])))
            if where == 'local':
                decl_l.append(t.decl(nm) + ';')
            elif where == 'volatile':
                decl_l.append('volatile ' + t.decl(nm) + ';')
            elif where == 'global':
                decl_g.append(t.decl(nm) + ';')
            elif where == 'static':
                decl_l.append('static ' + t.decl(nm) + ';')
            else:
                big = r.choice([0, 0, 1, 2030, 4100])
                wrap = 'struct W%d_%d { unsigned char g0[8]; %s%s; unsigned char g1[8]; }' % (
                    fi, k, 'char big[%d]; ' % big if big else '', t.decl('v'))
                if r.random() < .5:
                    decl_g.append(wrap + ' %s;' % nm)
                else:
                    decl_l.append(wrap + ' %s;' % nm)
                objs.append((nm + '.g0', Ty('a', base=Ty('s', 'unsigned char'), n=8), where))
                objs.append((nm + '.g1', Ty('a', base=Ty('s', 'unsigned char'), n=8), where))
                nm = nm + '.v'
                self.cov.add('arena offset %d' % big)
            objs.append((nm, t, where))
            self.cov.add('object %s' % where)
        for nm, t, w in objs:
            init.append('memset((void *)&%s, 0, sizeof %s);' % (nm, nm))
            for p, lt in leaves(t):
                init.append('%s%s = %s;' % (nm, p, self.startval(lt)))
        dump = []
        for nm, t, w in objs:
            for p, lt in leaves(t):
                dump.append((nm + p, lt))
        # a union leaf may hold an invalid _Bool or depend on padding: drop those
        bad = set()
        for nm, t, w in objs:
            for p, st in subobjects(t):
                if st.kind == 'r' and st.union:
                    for q, lt in leaves(st):
                        bad.add(nm + p + q)
        dump = [(p, lt) for p, lt in dump if not (p in bad and lt.name == '_Bool')]
        scal = [(p, lt) for p, lt in dump]
        scal = [(p, lt) for p, lt in scal if not (p in bad and lt.name in FL)]
        aggr = [(nm + p, st) for nm, t, w in objs for p, st in subobjects(t) if st.kind == 'r' and st.name and w != 'volatile']
        prs = [(nm + p, st) for nm, t, w in objs for p, st in subobjects(t) if st.kind != 'b' and w != 'volatile' and (st.kind != 'r' or st.name)]
        arrs = [(nm + p, st) for nm, t, w in objs for p, st in subobjects(t) if st.kind == 'a' and w != 'volatile' and (st.base.kind != 'r' or st.base.name)]
        params = ', '.join(['long dd'] )
        stm = []
        ns = r.randrange(8, 18)
        for _ in range(ns):
            s, what = self.stmt(scal, aggr, prs, arrs)
            if s is None:
                continue
            id = self.nid('store: after %s   [objects: %s]' % (s, '; '.join(decl_l + decl_g)[:700]))
            stm.append(s)
            stm.append(' '.join(rec(id, p, lt) for p, lt in dump))
            self.cov.add(what)
        self.out += decl_g
        self.fns.append('static void f%d(int one, long mone)\n{\n\t%s\n}' % (fi, '\n\t'.join(decl_l + init + stm)))
        self.calls.append('f%d(1, -1);' % fi)

    def startval(self, t):
        r = self.r
        if t.name in FL:
            return '%d.%s' % (r.randrange(-90, 90), r.choice(['0', '5', '25']))
        if t.name == '_Bool':
            return str(r.randrange(2))
        if t.name.endswith('*'):
            return '(%s)%d' % (t.name, r.randrange(1 << 20))
        if t.name == 'enum E':
            return '(enum E)%d' % r.randrange(2)
        return '%dL' % (r.getrandbits(63) - (1 << 62))

    def lv(self, p, t):
        """the lvalue p in some syntactic form"""
        r = self.r
        if t.kind == 'b':
            i = p.rfind('.')
            k = r.random()
            base = p[:i]
            if k < .5 or not base:
                return p
            # anonymous members make the part before the last dot still the right record
            if k < .75:
                return '(&%s)->%s' % (base, p[i + 1:])
            return '(*&%s)%s' % (base, p[i:])
        k = r.random()
        if k < .5:
            return p
        if k < .65:
            return '*&' + p
        if k < .75:
            return '(%s)' % p
        m = re.match(r'(.*)\[(\d+)\]$', p)
        if m:
            j = int(m[2])
            return r.choice(['%s[%d * one]' % (m[1], j), '*(%s + %d)' % (m[1], j), '%d[%s]' % (j, m[1]), '(%s + %d)[mone]' % (m[1], j + 1),
                             '(&%s[%d])[%d]' % (m[1], j + 2, -2), '*(%s + %d - one)' % (m[1], j + 1)])
        i = p.rfind('.')
        if i > 0:
            return r.choice(['(&%s)->%s' % (p[:i], p[i + 1:]), '(one ? &%s : 0)->%s' % (p[:i], p[i + 1:]), '*&(%s)%s' % (p[:i], p[i:])])
        return p

    def rhs(self, scal, t):
        r = self.r
        k = r.random()
        if t.name in FL:
            return r.choice(['%d' % r.randrange(-99, 99), '%d.5' % r.randrange(-99, 99), '%d.25f' % r.randrange(9), '3L'])
        if k < .4 and scal:
            p, lt = r.choice(scal)
            if lt.name in FL:
                return '(long)' + p
            if lt.name.endswith('*'):
                return '(long)' + p
            return p
        if k < .5:
            return '%d.75' % r.randrange(0, 1 if t.name == '_Bool' or t.kind == 'b' else 100)
        return r.choice(['%d' % r.randrange(-200, 200), '%dL' % r.getrandbits(63), '-1', '0', 'mone', '%du' % r.getrandbits(32), "'x'"])

    def stmt(self, scal, aggr, prs, arrs):
        r = self.r
        k = r.random()
        if k < .34 and scal:
            p, t = r.choice(scal)
            l = self.lv(p, t)
            if t.name.endswith('*'):
                op = r.choice(['=', '+=', '-=', '++', '--', '='])
                self.cov.add('pointer ' + op)
                if op == '=':
                    return '%s = (%s)(%dL);' % (l, t.name, r.getrandbits(40)), 'pointer ='
                if t.name == 'void *':
                    return '%s = (char *)%s + %d;' % (l, p, r.randrange(-50, 50)), 'void pointer arithmetic'
                if op in ('++', '--'):
                    return r.choice(['%s%s;' % ('(%s)' % l, op), '%s(%s);' % (op, l)]), 'pointer ' + op
                return '%s %s %d;' % (l, op, r.randrange(-50, 50)), 'pointer ' + op
            if t.name == 'enum E':
                return '%s = (enum E)%d;' % (l, r.randrange(2)), 'enum ='
            if t.name in FL:
                op = r.choice(['=', '+=', '-=', '++', '--'])
            else:
                op = r.choice(['=', '=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=', '++', '--'])
            what = '%s%s %s' % (t.name, ' bit-field' if t.kind == 'b' else '', op)
            if op in ('++', '--'):
                return r.choice(['(%s)%s;' % (l, op), '%s(%s);' % (op, l)]), what
            if op in ('/=', '%='):
                return '%s %s %s;' % (l, op, r.choice(['7', '3', '-5', '2u', '9L'])), what
            if op in ('<<=', '>>='):
                return '%s %s %s;' % (l, op, r.choice(['1', '3', '5', '7L'])), what
            if op in ('+=', '-=', '*='):
                v = r.choice(['1', '3', '-2', '100', '2u', '7L', 'one']) if t.name not in FL else r.choice(['1', '2.5', '-0.25f', '3u'])
                return '%s %s %s;' % (l, op, v), what
            if op in ('&=', '|=', '^='):
                return '%s %s %s;' % (l, op, r.choice(['0x55', '-2', '0x0f0f0f0fL', '1u', '0x8000000000000000ul', 'mone'])), what
            return '%s = %s;' % (l, self.rhs(scal, t)), what
        if k < .42 and len(scal) > 1:
            # chained assignments
            xs = [x for x in scal if x[1].name not in FL and not x[1].name.endswith('*') and x[1].name != 'enum E']
            if len(xs) < 2:
                return None, None
            a, b = r.sample(xs, 2)
            return '%s = %s = %s;' % (self.lv(*a), self.lv(*b), r.choice(['-1', '77', '0x1234567', 'mone'])), 'chained assignment'
        if k < .62 and aggr:
            p, t = r.choice(aggr)
            src = [x for x in aggr if x[1] is t]
            q = r.choice(src)[0]
            form = r.randrange(8)
            self.cov.add('struct copy form %d' % form)
            pt = t.name
            if form == 0:
                return '%s = %s;' % (p, q), 'struct copy'
            if form == 1:
                return '{ %s *sp = &%s; *sp = %s; }' % (pt, p, q), 'struct copy'
            if form == 2:
                q2 = r.choice(src)[0]
                return '%s = one ? %s : %s;' % (p, q, q2), 'struct copy'
            if form == 3:
                return '%s = (one, %s);' % (p, q), 'struct copy'
            if form == 4:
                return '{ %s tmp = %s, tm2; tm2 = tmp; %s = tm2; }' % (pt, q, p), 'struct copy'
            if form == 5:
                q2 = r.choice(src)[0]
                return '%s = %s = %s;' % (p, q, q2), 'struct copy'
            if form == 6:
                fn = 'id_' + re.sub(r'\W', '_', pt)
                self.need(fn, pt)
                return '%s = %s(%s);' % (p, fn, q), 'struct copy'
            return '%s = ({ %s tq = %s; tq; });' % (p, pt, q), 'struct copy'
        if k < .80 and prs:
            # store through a pointer variable
            p, t = r.choice(prs)
            inner = [(q, lt) for q, lt in leaves(t) if lt.name not in FL + ('enum E', '_Bool') and not lt.name.endswith('*')]
            if not inner:
                return None, None
            q, lt = r.choice(inner)
            v = r.choice(['one', '-3', '0x1234', 'mone * 5', '100'])
            op = r.choice(['=', '=', '+=', '^=', '|='])
            decl = t.decl('(*pp)')
            acc = '(*pp)%s' % q
            if t.kind == 'r' and q.startswith('.') and r.random() < .5:
                acc = 'pp->' + q[1:]
            if t.kind == 'r' and r.random() < .4:
                acc = 'pp[0]%s' % q
            extra = ''
            if r.random() < .4:
                decl2 = t.decl('(**ppp)')
                extra = '%s = &pp; ' % decl2
                acc = acc.replace('pp->', '(*ppp)->', 1) if acc.startswith('pp->') else acc.replace('pp', '(*ppp)', 1)
            return '{ %s = (void *)&%s; %s%s %s %s; }' % (decl, p, extra, acc, op, v), 'store through pointer ' + op
        if k < .9 and arrs:
            # pointer walking over an array
            p, t = r.choice(arrs)
            inner = [(q, lt) for q, lt in leaves(t.base) if lt.name not in FL + ('enum E', '_Bool') and not lt.name.endswith('*')]
            if not inner:
                return None, None
            q, lt = r.choice(inner)
            n = t.n
            form = r.randrange(5)
            d = t.base.decl('*w') if t.base.kind != 'a' else t.base.decl('(*w)')
            self.cov.add('array walk %d' % form)
            i = r.randrange(n)
            if form == 0:
                return '{ %s = %s; for (int i = 0; i < %d; i++, w++) (*w)%s = i + 3; }' % (d, p, n, q), 'array walk'
            if form == 1:
                return '{ %s = %s + %d; while (w-- > %s) (*w)%s ^= 5; }' % (d, p, n, p, q), 'array walk'
            if form == 2:
                return '{ %s = %s; w += %d; (*w)%s = 9; ev(%d, w - %s); w -= %d; ev(%d, w == %s); }' % (d, p, i, q, self.nid('pointer difference in ' + p), p, i, self.id, p), 'array walk'
            if form == 3:
                return '{ %s = &%s[%d]; w[%d * one]%s += 2; ev(%d, (%s + %d) - w); ev(%d, (char *)&%s[%d] - (char *)w); }' % (
                    d, p, i, -i, q, self.nid('pointer difference in ' + p), p, n, self.id, p, n), 'array walk'
            return '{ %s = %s; unsigned char ix = %d; (*(w + ix))%s |= 64; (*(ix + w))%s += 1; }' % (d, p, i, q, q), 'array walk'
        if prs:
            # byte access
            p, t = r.choice(prs)
            if any(lt.name in FL + ('_Bool', 'enum E') for _, lt in leaves(t)):
                return None, None
            ls = [x for x in leaves(t) if x[1].kind != 'b']
            if not ls or any(lt.kind == 'b' for _, lt in leaves(t)):
                return None, None
            q, lt = r.choice(ls)
            return '{ unsigned char *bp = (unsigned char *)&%s%s; bp[sizeof(%s%s) - 1] %s %d; }' % (p, q, p, q, r.choice(['=', '^=', '+=']), r.randrange(1, 255)), 'byte store'
        return None, None

    def need(self, fn, pt):
        if not any((' %s(' % fn) in x for x in self.fns):
            self.fns.append('static %s %s(%s a) { %s b = a; return b; }' % (pt, fn, pt, pt))

    def text(self):
        return '\n'.join([PRE] + self.out + self.fns + ['int main(void) { %s return 0; }' % ' '.join(self.calls)])


def selected(ctx):
    """stores through, and arithmetic on, pointers that ?:, the comma operator and statement expressions select: every form of null pointer constant"""
    decls, body, descr, n = [PRE, 'static int one = 1, zero; static void *v;'], [], {}, 0
    types = ['char', 'short', 'int', 'long', 'double', 'float', '_Bool', 'long double', 'struct S', 'union U', 'A3', 'PI', 'PV']
    decls.append('struct S { char c[5]; short a; }; union U { char c[9]; short a; }; typedef int A3[3], *PI; typedef void *PV;')
    nulls = ['0', '0L', '(void *)0', '((void *)0)', '(void *)(0)', '1 - 1', "'\\0'"]
    for k, t in enumerate(types):
        decls.append('static %s a%d[4], *p%d = a%d, *const q%d = a%d + 1, *z%d;' % (t, k, k, k, k, k, k))
        p, q, a = 'p%d' % k, 'q%d' % k, 'a%d' % k
        forms = ['(one ? %s : %s)' % (p, x) for x in nulls] + ['(zero ? %s : %s)' % (x, p) for x in nulls]
        forms += ['(one ? %s : %s)' % (a, x) for x in nulls[::2]] + ['(zero ? %s : %s)' % (x, a) for x in nulls[::2]]
        forms += ['(one ? %s : %s)' % (p, q), '(zero ? %s : %s)' % (a, q), '(zero ? %s : %s)' % (p, a), '(zero, %s)' % q, '(%s ?: %s)' % (p, q), '(z%d ?: %s)' % (k, q),
                  '({ zero; %s; })' % p, '(one ? zero ? 0 : %s : 0)' % q, '(zero ? 0 : one ? %s : (void *)0)' % q, '(%s *)(one ? %s : v)' % (t, p),
                  '(one ? %s + 1 : 0)' % a, '(zero ? 0 : 1 + %s)' % a]
        if t != 'A3':           # the type of &array: known finding of C05
            forms += ['(one ? &%s[1] : 0)' % a, '(zero ? (void *)0 : &*%s)' % q]
        for e in forms:
            n += 1
            descr[n] = 'pointer to %s: %s' % (t, e)
            lv = {'struct S': '%s->a', 'union U': '%s->a', 'A3': '(*%s)[1]', 'PI': '*(long *)&*%s', 'PV': '*(long *)&%s[0]'}.get(t, '*%s') % ('(%s)' % e)
            body.append('%s = %d; evm(%d, a%d, sizeof a%d); ev(%d, (char *)((%s) + 1) - (char *)a%d); ev(%d, (char *)&(%s)[one] - (char *)a%d); ev(%d, 0 == %s); ev(%d, %s == 0); ev(%d, sizeof(*(%s)));' % (
                lv, n % 100 + 1 if t != '_Bool' else n & 1, n, k, k, n, e, k, n, e, k, n, e, n, e, n, e))
            if t != 'PV':
                body.append('memset(a%d, 0, sizeof a%d);' % (k, k))
            body.append('{ typeof(%s) w = %s; w += one; ev(%d, (char *)w - (char *)a%d); }' % (e, e, n, k))
        if t != 'PV':
            for e, w in (('one ? %s : v' % p, 1), ('one ? v : %s' % p, 1), ('one ? (void *)0 : v', 1), ('one ? 0 : v', 1), ('one ? %s : (void *)0' % p, 2), ('one ? (void *)0 : %s' % p, 2)):
                n += 1
                descr[n] = 'type of %s (pointers to %s)' % (e, t)
                body.append('ev(%d, _Generic(%s, void *: 1, default: 2));' % (n, e))
    decls.append('static int f1(void) { return 71; } static int f2(void) { return 72; }')
    for e in ['(one ? f1 : %s)' % x for x in nulls] + ['(zero ? %s : f2)' % x for x in nulls] + ['(zero ? f1 : f2)', '(one ? &f1 : f2)', '(zero ? f1 : &f2)', '(*(one ? &f1 : 0))', '(zero, f2)']:
        n += 1
        descr[n] = 'call of ' + e
        body.append('ev(%d, %s());' % (n, e))
    fns = ['static void g%d(void) { v = &one; %s }' % (i, '\n'.join(body[i * 40:i * 40 + 40])) for i in range((len(body) + 39) // 40)]
    src = '\n'.join(decls + fns + ['int main(void) { %s return 0; }' % ' '.join('g%d();' % i for i in range(len(fns)))])
    if check_diff(ctx, 'selected', src, label=lambda i, g, w: 'selected ' + descr.get((w or g)[0], '?'), ref_opts=('-O0', '-O1')):
        ctx.seen(*['selected ' + x for x in descr.values()])


def body(ctx):
    ctx.rule = ('An evaluation is one scalar object read back after one store and compared with the reference execution: every live object of the '
                'function is read back after every store; distinct: store forms (type x operator, copies, pointer forms, placements) observed.')
    ctx.assumptions = ['riscv64 gcc implements the stores of the C abstract machine']

    def one(j):
        r = ctx.sub('store', j)
        p = Prog(r)
        src = p.text()

        def label(i, g, w):
            return p.descr.get((w or g)[0], '?')[:1000]
        res = check_diff(ctx, 'store%d' % j, src, label=label, ref_opts=('-O0', '-O1'), flags=('-fpic',) if j % 5 == 0 else ())
        if res:
            ctx.seen(*p.cov)
            ctx.sample({'example': p.descr[max(p.descr)][:300]} if p.descr else {})
    selected(ctx)
    ctx.pmap(one, range(ctx.scale(500, 6000)))


if __name__ == '__main__':
    main('C08', body)
