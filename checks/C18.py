import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
from modelprog import *

HEAD = PRE + '''
int mon_reg(int, void *, long, int); int mon_mark(void); void mon_release(int, int); void mon_touch(int, void *); void mon_all(int); void mon_end(void);
long idl(long); double idd(double); void *fn3(int, void *, int); void *fn12(int, long, int, int, int, int, int, int, int, void *, int, long);
void *fd10(double, double, double, double, double, double, double, double, double, void *, float);
struct big { long a[5]; }; struct big mkbig(long, void *); long usebig(struct big, void *, struct big);
struct s3 { char c[3]; }; struct s8 { int a; short b; char c[2]; }; struct s24 { long a; int b[2]; double d; };
void *alloca(unsigned long);
'''
# (name, size, lvalue suffix of a scalar member, floating)
ELEM = [('char', 1, '', 0), ('short', 2, '', 0), ('int', 4, '', 0), ('unsigned', 4, '', 0), ('long', 8, '', 0), ('double', 8, '', 1), ('float', 4, '', 1),
        ('struct s3', 3, '.c[1]', 0), ('struct s8', 8, '.b', 0), ('struct s24', 24, '.b[1]', 0), ('unsigned char', 1, '', 0), ('long double', 16, '', 2)]


class V:
    """a live array: name, element, names of the variables holding its dimensions"""
    def __init__(self, name, el, dims, kind, text):
        self.name, self.el, self.dims, self.kind, self.text = name, el, dims, kind, text
        # known finding of C05: &row has the wrong type if the row has constant size
        self.rowaddr = False


class Fn:
    def __init__(self, P, k, mode):
        self.P, self.r, self.k, self.mode = P, P.r, k, mode
        self.objs = []
        self.depth = 0
        self.loops = []
        self.budget = P.r.randrange(8, 22)
        self.vla_seen = False

    def bound(self):
        r = self.r
        return r.choice(['n', 'm', 'n + 1', 'm + 2', 'n * m', 'n * 2 + m', '(n + m) / 2 + 1', 'idl(n) + 1', '(char)(m + 1)', 'n ? n : 1', '3 + zero', 'n << 1', '(unsigned)m', '(long)n * m', 'm - -n', '(n > m) + 2'])

    def id(self, what):
        return self.P.nid(what)

    def reg(self, name, size, kind, what):
        i = self.id(what)
        self.P.cov.add(what.split(':')[0])
        return 'mon_reg(%d, %s, %s, %d); mon_all(%d);' % (i, name, size, kind, i)

    def after(self, o, what):
        """o was written"""
        i = self.id(what)
        return 'mon_touch(%d, %s); mon_all(%d);' % (i, o.name, i)

    def decl(self):
        r, P = self.r, self.P
        el = r.choice(ELEM)
        if el[0] == 'long double' and r.random() < .5:
            el = ELEM[2]
        nd = r.choice([1, 1, 1, 2, 2, 3])
        q = P.fresh()
        dims, pre, txt_ = [], [], ''
        var = False
        for j in range(nd):
            if r.random() < .2 and not (j == nd - 1 and not var):
                c = r.randrange(1, 5)
                pre.append('int d%d_%d = %d;' % (q, j, c))
                txt_ += '[%d]' % c
            else:
                b = self.bound()
                if nd == 1 and el[1] <= 8 and self.depth == 0 and r.random() < .06:
                    b = r.choice(['n * 300', 'm * 1100 + n'])
                var = True
                if r.random() < .15:
                    pre.append('int d%d_%d = n;' % (q, j))
                    b = r.choice(['n++', 'n--', '(n += 2) - 2']) if False else 'k++'
                    pre[-1] = 'int k%d_%d = n + 1; int d%d_%d = n + 1;' % (q, j, q, j)
                    b = 'k%d_%d++' % (q, j)
                else:
                    pre.append('int d%d_%d = %s;' % (q, j, b))
                txt_ += '[%s]' % b
            dims.append('d%d_%d' % (q, j))
        name = 'v%d' % q
        form = r.random()
        what = 'VLA %s%s' % (el[0], re.sub(r'\d+_\d', '', txt_))
        if form < .15 and 'k%d' % q not in txt_:
            # typedef, bounds change afterwards
            s = ' '.join(pre) + ' typedef %s T%d%s; n++; m++; T%d %s; n--; m--;' % (el[0], q, txt_, q, name)
            i = self.id('sizeof typedef of VLA')
            s += ' ev(%d, sizeof(T%d)); ev(%d, sizeof(%s));' % (i, q, i, name)
            P.cov.add('typedef')
        elif form < .25:
            s = ' '.join(pre) + ' %s x%d, %s%s, *y%d = &x%d; x%d = *y%d;' % (el[0], q, name, txt_, q, q, q, q)
            s = ' '.join(pre) + ' %s %s%s, *y%d = 0;' % (el[0], name, txt_, q)
        else:
            s = ' '.join(pre) + ' %s %s%s;' % (el[0], name, txt_)
        self.vla_seen = True
        o = V(name, el, dims, 0, what)
        o.rowaddr = bool(re.search(r'[a-z]', re.sub(r'^\[.*?\](?=\[|$)', '', txt_)))
        self.objs.append(o)
        s += self.reg(name, 'sizeof(%s)' % name, 0, what)
        return s

    def local(self):
        r = self.r
        el = r.choice(ELEM[:-1])
        q = self.P.fresh()
        n = r.choice([1, 2, 3, 7, 600 if r.random() < .3 else 5])
        name = 'v%d' % q
        o = V(name, el, ['d%d_0' % q], 0, 'local')
        self.objs.append(o)
        return 'int d%d_0 = %d; %s %s[%d]; %s' % (q, n, el[0], name, n, self.reg(name, 'sizeof(%s)' % name, 0, 'fixed array among VLAs'))

    def alloc(self):
        r, P = self.r, self.P
        q = P.fresh()
        el = r.choice(ELEM[:-1])
        name = 'v%d' % q
        d = 'd%d_0' % q
        s = 'int %s = %s;' % (d, self.bound())
        size = r.choice(['%s * sizeof(%s)', 'sizeof(%s[%s])', '%s * (int)sizeof(%s)'])
        size = size % ((el[0], d) if size.startswith('sizeof') else (d, el[0]))
        f = r.choice(['alloca', 'alloca', '__builtin_alloca' if False else 'alloca'])
        a = '%s(%s)' % (f, size)
        i = self.id('expression around alloca')
        form = r.randrange(14)
        P.cov.add('alloca form %d' % form)
        kind = 1
        if self.mode == 'mixed' and self.depth > 0:
            kind = 0
        o = V(name, el, [d], kind, 'alloca')
        self.objs.append(o)
        p = '%s *%s' % (el[0], name)
        if form == 0:
            s += '%s = %s;' % (p, a)
        elif form == 1:
            s += '%s; ev(%d, idl(7) * 3 + ((%s = %s) != 0) * idl(5) + idl(2));' % (p, i, name, a)
        elif form == 2:
            s += '%s = fn3(n, %s, m);' % (p, a)
        elif form == 3:
            s += '%s = fn12(1, n, 3, m, idl(5), 6, n * m, 8, 9, %s, 11, idl(12) + n);' % (p, a)
        elif form == 4:
            s += '%s = fd10(1, n, 3.5, m, idd(5.5), 6, n * m, 8, 9.25, %s, idd(12) + n);' % (p, a)
        elif form == 5:
            s += '%s; evd(%d, idd(1.5) * 2 + ((%s = %s) ? 3.25 : idd(1)) * idd(4));' % (p, i, name, a)
        elif form == 6:
            q2 = P.fresh()
            o2 = V('v%d' % q2, ELEM[0], ['d%d_0' % q2], kind, 'alloca')
            s += 'int d%d_0 = m + 3; char *v%d; %s = fn3(1, fn3(2, %s, (v%d = fn3(4, alloca(m + 3), 5)) != 0), 3);' % (q2, q2, p, a, q2)
            s += self.reg('v%d' % q2, 'd%d_0' % q2, kind, 'alloca: nested')
            self.objs.append(o2)
        elif form == 7:
            s += '%s = n > 2 ? %s : fn3(1, %s, 2);' % (p, a, a)
        elif form == 8:
            s += '%s; ev(%d, usebig(mkbig(n, %s = %s), &n, mkbig(m, 0)));' % (p, i, name, a)
        elif form == 9:
            s += 'long t%d[3] = {1, 2, 3}; %s; t%d[idl(1)] += ((%s = %s) != 0) + idl(4); ev(%d, t%d[0] * 100 + t%d[1] * 10 + t%d[2]);' % (q, p, q, name, a, i, q, q, q)
        elif form == 11:
            s += '%s; void *(*fp%d)(int, void *, int) = n ? fn3 : 0; %s = (n > 0 ? fp%d : fn3)(idl(3), %s, idl(4) * 2);' % (p, q, name, q, a)
        elif form == 12:
            s += '%s; evL(%d, (long double)idd(2.5) * 3 + ((%s = %s) ? (long double)idl(7) : 1) * (long double)idd(1.5));' % (p, i, name, a)
        elif form == 13:
            s += '%s; if (idl(5) + idl(6) * (((%s = %s) != 0) + idl(1)) == 17) ev(%d, 1); else ev(%d, 0);' % (p, name, a, i, i)
        else:
            s += '%s = (void *)((char *)idl(0) + (long)%s + idl(0));' % (p, a)
        s += self.reg(name, '(long)%s * sizeof(*%s)' % (d, name), kind, 'alloca: form %d' % form)
        return s

    def index(self, o, full=True):
        r = self.r
        out = []
        for d in o.dims:
            out.append(r.choice(['0', '%s - 1' % d, 'n %% %s' % d, '(n + 3 * m) %% %s' % d, '(%d * n + m) %% %s' % (r.randrange(9), d), '%s / 2' % d]).replace('%%', '%'))
        return out

    def val(self, el):
        r = self.r
        if el[3]:
            return r.choice(['n + 0.5', '-m', '1.25', 'idd(n) * 2'])
        return r.choice(['n', 'm + 40', '-3', 'idl(n) * 7', '99', 'n * m'])

    def elem(self, o, ix):
        """an lvalue for the element"""
        r = self.r
        e = o.name
        k = r.randrange(6)
        if k == 5:
            # through a pointer whose bounds are computed in a cast
            ds = o.dims[1:] if len(o.dims) > 1 else o.dims
            xs = list(ix) if len(o.dims) > 1 else ['0'] + list(ix)
            t = '%s (*)%s' % (o.el[0], ''.join('[%s]' % r.choice([d, 'idl(%s)' % d, '%s + zero' % d, '(char)%s' % d if False else d]) for d in ds))
            c = '((%s)%s)' % (t, r.choice(['(void *)%s' % e, '(char *)%s' % e]))
            self.P.cov.add('cast to pointer to VLA')
            e = r.choice(['%s[%s]' % (c, xs[0]), '(*(%s + (%s)))' % (c, xs[0]), '(*((%s) + %s))' % (xs[0], c), '(*(%s + 3 + (%s) - 3))' % (c, xs[0]),
                          '%s[%s + 2 - (int)((%s + 2) - %s)]' % (c, xs[0], c, c), '(*(%s - (-(%s))))' % (c, xs[0])])
            e += ''.join('[%s]' % i for i in xs[1:])
        elif k == 0:
            for i in ix:
                e = '(*(%s + (%s)))' % (e, i)
        elif k == 1 and len(ix) > 1 and o.rowaddr:
            e = '(&%s[%s])[0]' % (e, ix[0])
            e += ''.join('[%s]' % i for i in ix[1:])
        elif k == 2:
            e = '(%s)[%s]' % (ix[0], e) + ''.join('[%s]' % i for i in ix[1:])
        elif k == 3 and o.kind == 0 and o.text.startswith('VLA'):
            e = '(*&%s)' % e + ''.join('[%s]' % i for i in ix)
        else:
            e += ''.join('[%s]' % i for i in ix)
        return e + o.el[2]

    def rec(self, i, e, el):
        return ('evd(%d, %s);' if el[3] == 1 else 'evL(%d, %s);' if el[3] == 2 else 'ev(%d, %s);') % (i, e)

    def use(self):
        r = self.r
        if not self.objs:
            return self.decl() if self.mode != 'alloca' else self.alloc()
        o = r.choice(self.objs)
        q = self.P.fresh()
        ix = self.index(o)
        k = r.randrange(12)
        nd = len(o.dims)
        if k < 4:
            e = self.elem(o, ix)
            op = r.choice(['=', '+=', '-=', '='])
            if '.' in o.el[2] and o.el[0] == 'struct s24' and r.random() < .4:
                e = e[:-len(o.el[2])] + '.d'
                i = self.id('element of ' + o.text)
                return 'evd(%d, %s = %s + 0.5);' % (i, e, self.val(('', 8, '', 1))) + self.after(o, 'store to element of ' + o.text)
            i = self.id('element of ' + o.text)
            self.P.cov.add('store %dd %s' % (nd, o.el[0]))
            return self.rec(i, '(%s %s %s)' % (e, op, self.val(o.el)), o.el) + self.after(o, 'store to element of ' + o.text)
        if k == 4 and o.text.startswith('VLA'):
            i = self.id('sizes of ' + o.text)
            self.P.cov.add('sizeof %dd' % nd)
            s = 'ev(%d, sizeof(%s)); ev(%d, sizeof *%s); ev(%d, (char *)(%s + 1) - (char *)%s); ev(%d, (char *)(&%s + 1) - (char *)&%s);' % (
                i, o.name, i, o.name, i, o.name, o.name, i, o.name, o.name)
            if o.rowaddr:
                s += 'ev(%d, sizeof %s[0][0]); ev(%d, &%s[%s] - %s); ev(%d, (char *)&%s[%s] - (char *)%s);' % (i, o.name, i, o.name, ix[0], o.name, i, o.name, ix[0], o.name)
            if nd == 1 and r.random() < .5:
                e = r.choice(['%s', '(n ? %s : 0)', '(!n ? 0 : %s)', '(!n ? (void *)0 : %s)', '(n, %s)', '%s + 0']) % o.name
                s += 'ev(%d, _Generic(%s, %s *: 1, default: 2)); ev(%d, (char *)((%s) + 1) - (char *)%s);' % (i, e, o.el[0], i, e, o.name)
            if r.random() < .3:
                s += 'ev(%d, sizeof(typeof(%s))); ev(%d, sizeof(%s[%s]));' % (i, o.name, i, o.el[0], self.bound())
            if r.random() < .3:
                s += '{ int k = n; ev(%d, sizeof(char[k++][2])); ev(%d, k); ev(%d, sizeof(int (*)[k++])); }' % (i, i, i)
            return s
        if k == 5 and nd > 1 and o.text.startswith('VLA'):
            # pointer to row, walked
            rest = ''.join('[%s]' % d for d in o.dims[1:])
            i = self.id('pointer to row of ' + o.text)
            tail = ''.join('[%s]' % x for x in ix[1:])
            self.P.cov.add('row pointer %dd' % nd)
            s = '{ %s (*p)%s = %s; %s (*e)%s = %s + %s; int c = 0; for (; p != e; p++) { (*p)%s%s = %s; c++; } ev(%d, c); ev(%d, e - %s); ev(%d, p - %s); ev(%d, sizeof *p); p -= %s; ev(%d, p == %s); ev(%d, p < e); }' % (
                o.el[0], rest, o.name, o.el[0], rest, o.name, o.dims[0], tail, o.el[2], self.val(o.el), i, i, o.name, i, o.name, i, o.dims[0], i, o.name, i)
            if r.random() < .5:
                # the pointer is held in another object
                hold, acc = r.choice([('%s (*p)%s = %s; %s (**pp)%s = &p;' % (o.el[0], rest, o.name, o.el[0], rest), '(*pp)'),
                                      ('%s (*pa[3])%s; pa[2] = %s;' % (o.el[0], rest, o.name), 'pa[2]'),
                                      ('%s (*pa[3])%s; pa[1] = %s;' % (o.el[0], rest, o.name), '(*(pa + 1))')])
                s += '{ %s ' % hold
                for st in r.sample(['@ += %s;', '@ -= %s;', '++@;', '--@;', '@++;', '@--;', '@ = @ + %s;', 'ev(ID, (char *)(@ + 1) - (char *)@);',
                                    'ev(ID, (char *)(1 + @) - (char *)&@[%s]);'], 5):
                    s += st.replace('%s', r.choice(['1', 'n', 'n - 1', '(char)m'])).replace('@', acc).replace('ID', str(i))
                    s += ' ev(%d, (char *)%s - (char *)%s); ev(%d, %s - %s);' % (i, acc, o.name, i, acc, o.name)
                s += ' }'
                self.P.cov.add('row pointer in another object: ' + acc)
            return s + self.after(o, 'row pointer stores to ' + o.text)
        if k == 6:
            # reinterpretation through a cast to another shape
            i = self.id('cast to pointer to VLA')
            self.P.cov.add('cast to VLA pointer')
            tot = '(' + ' * '.join(o.dims) + ')'
            return '{ int w = %s; int h = %s / w; %s (*p)[w] = (%s (*)[w])%s; if (h > 0) { p[h - 1][w - 1]%s = %s; (*(p + h / 2))[w / 2]%s = %s; ev(%d, sizeof p[0]); ev(%d, (p + h) - p); } }' % (
                r.choice(['(n < %s ? n : 1)' % tot, '(m < %s ? m : 1)' % tot, '1']), tot, o.el[0], o.el[0], o.name, o.el[2], self.val(o.el), o.el[2], self.val(o.el), i, i) + self.after(o, 'stores through a cast of ' + o.text)
        if k == 7:
            f = self.P.helper(o.el, nd, r)
            i = self.id('array passed to a function: ' + o.text)
            self.P.cov.add('passed %dd' % nd)
            return self.rec(i, '%s(%s, %s, %s)' % (f, ', '.join(o.dims), o.name, self.val(o.el)), (0, 0, 0, o.el[3])) + self.after(o, 'stores in callee to ' + o.text)
        if k == 8:
            # statement expression with a VLA inside an expression with temporaries
            i = self.id('VLA in a statement expression')
            self.P.cov.add('VLA in statement expression')
            self.vla_seen = True
            if self.mode == 'alloca':
                return ''
            return 'ev(%d, idl(3) * ({ int w%d[%s]; w%d[0] = n; for (int i = 1; i < (int)(sizeof w%d / sizeof *w%d); i++) w%d[i] = w%d[i - 1] + m; w%d[sizeof w%d / sizeof *w%d - 1]; }) + idl(2) * idl(5)); mon_all(%d);' % (
                i, q, self.bound(), q, q, q, q, q, q, q, q, i)
        if k == 9:
            i = self.id('call while arrays live')
            return 'ev(%d, usebig(mkbig(n, &n), %s, mkbig(m, 0)) + (long)(idd(2.5) * 2)); mon_all(%d);' % (i, o.name, i)
        if k == 10:
            i = self.id('whole contents of ' + o.text)
            return 'mon_touch(%d, %s);' % (i, o.name)
        # element copy between objects of the same type
        same = [x for x in self.objs if x.el[0] == o.el[0]]
        x = r.choice(same)
        e1 = o.name + ''.join('[%s]' % i for i in ix)
        e2 = x.name + ''.join('[%s]' % i for i in self.index(x))
        if o.el[3] == 2:
            return ''
        if o.el[3]:
            return '%s = %s;' % (e1, '1.5') + self.after(o, 'element copy')
        return '%s = %s;' % (e1, e2) + self.after(o, 'element copy in ' + o.text)

    def scope(self, f):
        n = len(self.objs)
        self.depth += 1
        q = self.P.fresh()
        s = 'int mk%d = mon_mark(); ' % q
        self.loops.append(q)
        s += f(q)
        self.loops.pop()
        s += ' mon_release(mk%d, 0);' % q
        self.depth -= 1
        del self.objs[n:]
        return '{ ' + s + ' }'

    def stmts(self, n):
        return '\n\t'.join(self.stmt() for _ in range(n))

    def stmt(self):
        r = self.r
        self.budget -= 1
        k = r.random()
        if k < .2:
            if self.mode == 'alloca':
                return self.alloc()
            if self.mode == 'mixed' and r.random() < .4:
                return self.alloc()
            return self.decl()
        if k < .25:
            return self.local()
        if k < .75 or self.depth >= 3 or self.budget <= 0:
            return self.use()
        q = self.P.fresh()
        self.P.cov.add('nesting %d' % self.depth)
        k = r.randrange(8)
        if k == 0:
            return self.scope(lambda mk: self.stmts(r.randrange(1, 5)))
        if k == 1:
            def f(mk):
                a = self.stmts(r.randrange(1, 4))
                b = ''
                if r.random() < .5:
                    b = 'if (i%d == 1) { mon_release(mk%d, 0); %s; }' % (q, mk, r.choice(['continue', 'break']))
                return a + b + self.stmts(r.randrange(0, 3))
            return 'for (int i%d = 0; i%d < 3; i%d++) ' % (q, q, q) + self.scope(f).replace('{', '{ n += i%d;' % q, 1)[:-1] + ' n -= i%d; if (n > 12) n = 3; }' % q
        if k == 2:
            return 'if (%s) ' % r.choice(['n > 2', 'm % 2', 'n < m']) + self.scope(lambda mk: self.stmts(r.randrange(1, 4))) + \
                   ' else ' + self.scope(lambda mk: self.stmts(r.randrange(1, 3)))
        if k == 3:
            # jump back over the declaration, from its own scope
            self.P.cov.add('goto back over a declaration')

            def f(mk):
                a = 'int c%d = 0; again%d:; int mr%d = mon_mark(); ' % (q, q, q)
                n0 = len(self.objs)
                a += self.decl() if self.mode != 'alloca' else self.local()
                a += self.stmts(r.randrange(1, 3))
                a += 'n++; if (c%d++ < 2) { mon_release(mr%d, 0); goto again%d; } n -= 3;' % (q, q, q)
                return a
            return self.scope(f)
        if k == 4:
            self.P.cov.add('goto out of scopes')

            def f(mk):
                inner = self.scope(lambda m2: self.stmts(r.randrange(1, 3)) + 'if (%s) { mon_release(mk%d, 0); goto out%d; }' % (r.choice(['n > 3', 'm == 2', '1']), mk, q) + self.use())
                return self.stmts(1) + inner + self.use()
            return self.scope(f) + ' out%d:;' % q
        if k == 5:
            s = 'switch (%s) { ' % r.choice(['n % 3', 'm & 3'])
            for c in range(3):
                s += 'case %d: ' % c + self.scope(lambda mk: self.stmts(r.randrange(1, 3))) + r.choice(['break;', ''])
            return s + ' default:; }'
        if k == 6 and self.P.rec_ok:
            i = self.id('recursion')
            self.P.cov.add('recursion')
            return 'if (dep > 0) { ev(%d, f%d(n %% 4 + 1, m %% 3 + 1, dep - 1)); mon_all(%d); }' % (i, r.randrange(self.k + 1), i)
        i = self.id('while with VLA')

        def g(mk):
            return self.stmts(r.randrange(1, 3))
        return '{ int w%d = 2; do ' % q + self.scope(g) + ' while (w%d-- > 0); }' % q

    def text(self):
        r = self.r
        pads = ''
        if r.random() < .25:
            pads = 'char pad[%d]; mon_reg(1, pad, sizeof pad, 1);' % r.choice([2100, 5000, 100])
        b = '\n\t'.join(self.stmt() for _ in range(r.randrange(4, 9)))
        ret = 'n * 10 + m'
        if self.objs and self.objs[0].el[3] == 0:
            o = self.objs[0]
            ret += ' + (long)%s%s%s' % (o.name, '[0]' * len(o.dims), o.el[2])
        params = 'int n, int m, int dep'
        extra = ''
        return 'long f%d(%s)\n{\n\tint mkf = mon_mark(); %s\n\t%s\n\tlong res = %s; mon_release(mkf, 1); return res;\n}\n' % (self.k, params, pads, b, ret)


class Prog:
    def __init__(self, r):
        self.r = r
        self.n = 10
        self.descr = {}
        self.cov = set()
        self.helpers = {}
        self.ids = 100
        self.rec_ok = True
        fns = []
        self.nf = r.randrange(2, 5)
        for k in range(self.nf):
            fns.append(Fn(self, k, r.choice(['vla', 'vla', 'alloca', 'mixed'])).text())
        self.fns = fns

    def fresh(self):
        self.n += 1
        return self.n

    def nid(self, what):
        self.ids += 1
        self.descr[self.ids] = what
        return self.ids

    def helper(self, el, nd, r):
        v = r.randrange(5)
        key = (el[0], nd, v)
        if key in self.helpers:
            return self.helpers[key][0]
        n = 'h%d' % len(self.helpers)
        ds = ['a%d' % i for i in range(nd)]
        inner = ''.join('[%s]' % d for d in ds[1:])
        p = {0: 'x[%s]%s' % (ds[0], inner), 1: 'x[]%s' % inner, 2: '(*x)%s' % inner if nd > 1 else '*x', 3: 'x[static %s]%s' % (ds[0], inner), 4: 'x[%s * 2 - %s]%s' % (ds[0], ds[0], ''.join('[%s + 0]' % d for d in ds[1:]))}[v]
        rt = {0: 'long', 1: 'double', 2: 'long double'}[el[3]]
        vt = 'double' if el[3] else 'long'
        sig = 'static %s %s(%s, %s %s, %s val)' % (rt, n, ', '.join('int ' + d for d in ds), el[0], p, vt)
        proto = ''
        if nd > 1 and r.random() < .5:
            proto = 'static %s %s(%s, %s x[*]%s, %s val);\n' % (rt, n, ', '.join('int ' + d for d in ds), el[0], '[*]' * (nd - 1), vt)
        ix = ''.join('[i%d]' % i for i in range(nd))
        loops = ' '.join('for (int i%d = 0; i%d < %s; i%d++)' % (i, i, d, i) for i, d in enumerate(ds))
        tot = '(%s)' % ' + '.join('i%d' % i for i in range(nd))
        b = '%s s = sizeof x[0]; %s { %s *e = &x%s; if (%s %% 3 == 1) (*e)%s = val + %s; s += (*e)%s * (%s + 1); } %s' % (
            rt, loops, el[0], ix, tot, el[2], tot, el[2], tot,
            ('{ typeof(x) y = x; y++; s += (char *)y - (char *)x; }' if v != 3 else ''))
        if nd > 1:
            b += ' a%d = 1; s += sizeof(*x);' % (nd - 1)
        if el[3]:
            # keep the pattern bits of doubles out of the arithmetic
            b = b.replace('s += (*e)%s * (%s + 1);' % (el[2], tot), 's += 1;')
        self.helpers[key] = (n, proto + sig + ' { ' + b + ' return s; }\n')
        return n

    def text(self):
        calls = []
        for k in range(self.nf):
            for a in range(3):
                calls.append('ev(%d, f%d(%d, %d, 2)); mon_all(0);' % (k, k, self.r.randrange(1, 6), self.r.randrange(1, 5)))
        return HEAD + 'static int zero;\n' + '\n'.join('long f%d(int, int, int);' % k for k in range(self.nf)) + '\n' + \
            ''.join(h[1] for h in self.helpers.values()) + '\n'.join(self.fns) + 'int main(void) { %s mon_end(); return 0; }\n' % '\n'.join(calls)


def monitor(ctx):
    o = ctx.path('vlamon.o')
    r = run([RVGCC, '-O1', '-ffreestanding', '-fno-builtin', '-fno-tree-loop-distribute-patterns', '-march=rv64g', '-mabi=lp64d', '-c', '-o', o, os.path.join(VERIF, 'rt', 'vlamon.c')], 60)
    if r.rc:
        raise HarnessError(txt(r.err))
    return o


def probes(ctx):
    src = PRE + '''static int f(int n) { char *p = 0; int same = 1; for (int i = 0; i < 5; i++) { char a[n]; if (p && p != a) same = 0; p = a; } return same; }
        int main(void) { ev(1, f(10)); return 0; }'''
    check_diff(ctx, 'release', src, label=lambda i, g, w: 'the memory of a variable-length array is not released at the end of its block: for (...) { char a[n]; }')


def body(ctx):
    ctx.rule = ('An evaluation is one event of a program using VLAs and alloca: a size, stride, element, hash of an object\'s contents, or result of an expression around an allocation, '
                'compared with the reference execution, in which the monitor found no overlap of live objects and no change of an object that was not written; distinct: forms observed.')
    ctx.assumptions = ['riscv64 gcc implements variable-length arrays; alignment of the memory is not judged (test/alloca.c fixes 8-byte spacing)',
                       'bounds are positive; memory from alloca in a block that also declares a VLA is used inside the block only (as gcc documents)']
    mon = monitor(ctx)
    probes(ctx)

    def one(j):
        r = ctx.sub('vla', j)
        p = Prog(r)
        src = p.text()

        def label(i, g, w):
            g = g or (0, 0)
            names = {-1: 'live objects overlap', -2: 'an object overlaps the active frame', -3: 'an address inside an object is not', -4: 'an object changed without being written'}
            if g[0] in names and (w is None or w[0] != g[0]):
                return '%s: %s / %s' % (names[g[0]], p.descr.get(g[1] >> 32, g[1] >> 32), p.descr.get(g[1] & 0xffffffff, g[1] & 0xffffffff))
            return 'VLA/alloca: ' + p.descr.get((w or g)[0], '?')[:600]
        res = check_diff(ctx, 'vla%d' % j, src, label=label, ref_opts=('-O0', '-O1'), extra_objs=[mon], ref_flags=('-Dalloca=__builtin_alloca',), flags=('-fpic',) if j % 7 == 0 else ())
        if res:
            if any(e[0] == -90 for e in res):
                ctx.bump('too large for the monitor')
                return
            if any(e[0] in (-1, -2, -3, -4) for e in res):
                ctx.inconcl('the monitor objects to the reference execution %d: %s' % (j, [(e[0], p.descr.get(e[1] >> 32), p.descr.get(e[1] & 0xffffffff)) for e in res if -5 < e[0] < 0][:2]))
                return
            ctx.seen(*p.cov)
            ctx.bump('objects monitored', sum(e[1] for e in res if e[0] == -100))
            ctx.bump('contents checks', sum(e[1] for e in res if e[0] == -101))
            ctx.sample({'example': p.descr[max(p.descr)][:200], 'events': len(res)})
    ctx.pmap(one, range(ctx.scale(int(os.environ.get('NV', '500')), 8000)))


if __name__ == '__main__':
    main('C18', body)
