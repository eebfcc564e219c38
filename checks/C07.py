import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
from modelprog import *
from tygen import *

CHARS = ('char', 'signed char', 'unsigned char')


def esc(s):
    return ''.join('\\%03o' % ord(c) if (ord(c) < 32 or c in '"\\?' or ord(c) > 126) else c for c in s)


class Init:
    """one initializer; actives[path of union] = initialized member"""

    def __init__(self, r, auto, cov, consts=(), syms=()):
        self.r, self.auto, self.cov = r, auto, cov
        self.act = {}
        self.consts = consts        # (name, type, actives) objects usable as struct expressions
        self.syms = syms
        self.budget = 40
        self.top_max = -1
        self.no_runtime = False
        self.done = set()
        self.sealed = set()
        self.nostring = False     # gcc misplaces a string that follows a nested designator

    def kids(self, t):
        if t.kind == 'a':
            return [('[%d]' % i, t.base) for i in range(t.n)]
        return [('.' + m if m else '<%d>' % i, mt) for i, (m, mt) in enumerate(t.members) if not (mt.kind == 'b' and m is None)]

    def touched(self, path):
        """something below path has an initializer already"""
        return any(k.startswith(path) for k in self.done)

    def reset(self, path):
        for k in [k for k in self.act if k.startswith(path) and k != path]:
            del self.act[k]

    def scalar(self, t):
        r = self.r
        n = t.name
        if self.auto and not self.no_runtime and r.random() < .25 and not n.endswith('*') and n != 'enum E':
            self.cov.add('run-time value for ' + n)
            return r.choice(['vi', 'vu', 'vc', 'vl', 'vf'] if n in ('float', 'double', 'long double') else ['vi', 'vu', 'vc', 'vl', 'vs + 1'])
        if n.endswith('*'):
            if r.random() < .3:
                return r.choice(['0', '(void *)0', '(%s)%d' % (n, r.randrange(4096))])
            s = r.choice(self.syms)
            self.cov.add('address constant')
            return '(%s)(%s)' % (n, s) if n != 'void *' else s
        if n == 'enum E':
            w = t.width if t.kind == 'b' else 31
            return r.choice(['E_A', 'E_B' if w >= 4 else 'E_A', str(r.randrange(1 << min(w - 1, 20)) if w > 1 else 0)])
        if n in ('float', 'double', 'long double'):
            return r.choice(['%d' % r.randrange(-100, 100), '%d.5' % r.randrange(-1000, 1000), '%d.25f' % r.randrange(1000), '-0.0',
                             '1e10', '3L', "'a'", '0x1.8p3', '2147483648u', '%d.125L' % r.randrange(99)])
        if n == '_Bool':
            return r.choice(['0', '1', '2', '0.5', '256', '-1', '!3'])
        if t.kind == 'b':
            return r.choice(['%d' % r.randrange(-128, 128), "'%s'" % r.choice('azAZ09'), '%d' % r.randrange(1 << 16), '-1',
                             '(char)200', '1 + 2 * 3', '0.5'])
        if n in CHARS or 'short' in n:
            return r.choice(['%d' % r.randrange(-128, 128), "'%s'" % r.choice('azAZ09'), '%d' % r.randrange(1 << 16), '-1', '1.75',
                             '(char)200', '1 + 2 * 3'])
        return r.choice(['%d' % r.randrange(-100, 1000), '%dL' % (r.getrandbits(63)), '%dU' % r.getrandbits(32), '-1', '3.99', "'b'",
                         'sizeof(long) << 2', '1 ? 7 : 8', '~0u', '0x7fffffff'])

    def string(self, t):
        """string literal for a char array of t.n elements"""
        r = self.r
        n = t.n if t.n >= 0 else r.randrange(0, 9)
        k = r.choice([n, max(n - 1, 0), r.randrange(0, n + 1)]) if t.n >= 0 else n
        s = ''.join(r.choice('abcXYZ 019\x01\x7f"\\?') for _ in range(k))
        self.cov.add('string len %d in %d' % (k, t.n))
        lit = '"%s"' % esc(s)
        if k > 2 and r.random() < .2:
            lit = '"%s" "%s"' % (esc(s[:2]), esc(s[2:]))
        if t.n >= 0 and r.random() < .1:
            lit = 'u8' + lit
        self.strlen = k
        return r.choice([lit, lit, '{%s}' % lit, '(%s)' % lit if False else lit])

    def init(self, t, path, nobrace=False):
        """text initializing the whole object (braced, or a single expression)"""
        r = self.r
        self.budget -= 1
        self.reset(path)
        self.done.add(path)
        if t.kind in ('s', 'b'):
            s = self.scalar(t)
            if r.random() < .06 and not nobrace:
                self.cov.add('braced scalar')
                return '{%s%s}' % (s, r.choice(['', ',']))
            return s
        if t.kind == 'a' and t.base.kind == 's' and t.base.name in CHARS and r.random() < .6 and not self.nostring:
            return self.string(t)
        if r.random() < .4:
            e = self.record_expr(t, path)
            if e:
                return e
        return self.braced(t, path)

    def record_expr(self, t, path):
        """an expression of record type, where one is available"""
        if t.kind != 'r' or not self.auto or self.no_runtime:
            return None
        c = [x for x in self.consts if x[1] is t]
        if not c:
            return None
        x = self.r.choice(c)
        self.cov.add('%s expression as initializer' % ('union' if t.union else 'struct'))
        self.reset(path)
        self.done.add(path)
        for k, v in x[2].items():
            self.act[path + k] = v
        return self.r.choice(['%s', '%s', '*&%s', '(%s)', '(vi, %s)', '(vi ? %s : %s)']).replace('%s', x[0])

    def braced(self, t, path):
        r = self.r
        items = []
        if t.kind == 'r' and t.union:
            ks = self.kids(t)
            if r.random() < .1:
                return '{}' if r.random() < .5 else '{%s}' % self.zero_first(t, path)
            j = 0 if r.random() < .5 else r.randrange(len(ks))
            name, mt = ks[j]
            if j == 0 and r.random() < .7:
                self.set(path, 0)
                items.append(self.init(mt, path + name))
            else:
                items += self.designated(t, path, [j])
            return '{%s%s}' % (', '.join(items), r.choice(['', '', ',']))
        if r.random() < .04:
            self.cov.add('empty braces')
            return '{}'
        if r.random() < .55:
            full = r.random() < .5
            self.seq(t, path, 0, items, full)
        while r.random() < .45 and self.budget > 0:
            ks = self.kids(t)
            items += self.designated(t, path, [r.randrange(len(ks))])
        if not items:
            self.seq(t, path, 0, items, False)
        return '{%s%s}' % (', '.join(items), r.choice(['', '', ',']))

    def whole(self, t, path):
        """text that gives every scalar of an object a value again: overrides what was there, with nothing left over"""
        self.reset(path)
        self.act.pop(path, None)
        # toycc keeps what a later partial initializer does not mention (known finding)
        self.sealed.add(path)
        self.done.add(path)
        self.cov.add('override of a whole ' + ('array' if t.kind == 'a' else 'union' if t.union else 'struct'))
        e = self.record_expr(t, path) if self.r.random() < .3 else None
        return e or self.full(t, path)

    def full(self, t, path):
        if t.kind in ('s', 'b'):
            return self.scalar(t)
        ks = self.kids(t)
        if t.kind == 'r' and t.union:
            j = self.r.randrange(len(ks))
            self.act[path] = j
            name, mt = ks[j]
            x = self.full(mt, path + name)
            return '{%s}' % (x if j == 0 and self.r.random() < .5 else '%s = %s' % (name, x))
        return '{%s}' % ', '.join(self.full(mt, path + name) for name, mt in ks)

    def can_whole(self, t):
        """every member can be named, and there are not too many"""
        if t.kind in ('s', 'b'):
            return True
        if t.kind == 'a':
            return 0 < t.n <= 6 and self.can_whole(t.base)
        return 0 < len(self.kids(t)) and all((m or mt.kind == 'b') and self.can_whole(mt) for m, mt in t.members)

    def zero_first(self, t, path):
        self.set(path, 0)
        ks = self.kids(t)
        return self.init(ks[0][1], path + ks[0][0])

    def set(self, path, j):
        if path in self.act and self.act[path] != j:
            self.reset(path)
        self.act[path] = j

    def seq(self, t, path, start, items, full, elided=False):
        """initialize the children start.. positionally; False if it stopped early"""
        r = self.r
        ks = self.kids(t)
        if t.kind == 'r' and t.union:
            if start > 0:
                return True
            ks = ks[:1]
            if self.act.get(path, 0) != 0:
                return False
            self.set(path, 0)
        for j in range(start, len(ks)):
            if items and (self.budget <= 0 or not full and r.random() < .15):
                return False
            name, mt = ks[j]
            n0 = len(items)
            again = self.touched(path + name)
            seal = path + name in self.sealed
            if seal and elided and j == 0:
                return False
            if again and mt.kind in ('a', 'r') and not (elided and j == 0) and (seal or r.random() < .4) and self.can_whole(mt):
                items.append(self.whole(mt, path + name))
                if t.kind == 'a' and path == '':
                    self.top_max = max(self.top_max, j)
                continue
            if again and self.has_union(mt):
                return False
            e = self.record_expr(mt, path + name) if r.random() < .3 and not again else None
            if e:
                if elided and j == 0:
                    self.cov.add('record expression for the first member of an elided record')
                items.append(e)
                if t.kind == 'a' and path == '':
                    self.top_max = max(self.top_max, j)
            elif mt.kind in ('a', 'r') and (r.random() < .45 or elided and j == 0 or again):
                self.cov.add('brace elision ' + ('array' if mt.kind == 'a' else 'union' if mt.union else 'struct'))
                ok = self.seq(mt, path + name, 0, items, full, True)
                if t.kind == 'a' and path == '' and len(items) > n0:
                    self.top_max = max(self.top_max, j)
                if not ok:
                    return False
            else:
                items.append(self.init(mt, path + name, elided and j == 0))
                if t.kind == 'a' and path == '':
                    self.top_max = max(self.top_max, j)
        return True

    def designated(self, t, path, idx):
        """one designated item, possibly deep, plus positional items after it"""
        r = self.r
        chain = []      # (type, path, index)
        text = ''
        cur, p, j = t, path, idx[0]
        rng = None
        while True:
            if cur.kind == 'r' and cur.union:
                if self.touched(p):
                    j = self.act.get(p, 0)
                self.set(p, j)
            ks = self.kids(cur)
            name, mt = ks[j]
            if cur.kind == 'a' and p == '':
                self.top_max = max(self.top_max, j)
            chain.append((cur, p, j))
            if cur.kind == 'a' and j + 1 < cur.n and r.random() < .25 and not self.has_union(mt) and (mt.kind == 's' or not self.touched(p)):
                b = r.randrange(j + 1, cur.n)
                text += '[%d ... %d]' % (j, b)
                chain[-1] = (cur, p, b)
                rng = (cur, p, j, b)
                if p == '':
                    self.top_max = max(self.top_max, b)
                self.cov.add('range designator')
                p = p + '[%d]' % b
                cur = mt
                break
            anon = name[0] == '<'
            text += '' if anon else name
            p += name
            cur = mt
            if cur.kind in ('a', 'r') and not anon and self.touched(p) and (p in self.sealed or r.random() < .4) and self.can_whole(cur):
                break
            if cur.kind not in ('a', 'r') or not (anon or r.random() < .4 or self.touched(p)):
                break
            j = r.randrange(len(self.kids(cur)))
        self.cov.add('designator depth %d' % len(chain))
        if rng:
            self.no_runtime, old = True, self.no_runtime
        again = cur.kind in ('a', 'r') and not rng and self.touched(p)
        items = ['%s = %s' % (text, self.whole(cur, p) if again else self.init(cur, p))]
        if rng:
            self.no_runtime = old
            for q in range(rng[2], rng[3] + 1):
                self.done.add('%s[%d]' % (rng[1], q))
        # continue after it
        if r.random() < .4:
            self.cov.add('positional after designator')
            self.nostring, old = True, self.nostring
            for c, cp, j in reversed(chain):
                if r.random() < .3 or not self.seq(c, cp, j + 1, items, False):
                    break
            self.nostring = old
        return items

    def has_union(self, t):
        if t.kind == 'r':
            return t.union or any(self.has_union(m) for _, m in t.members)
        return t.kind == 'a' and self.has_union(t.base)

    def leaves(self, t, path=''):
        if t.kind in ('s', 'b'):
            yield path, t
        elif t.kind == 'a':
            for i in range(max(t.n, 0)):
                yield from self.leaves(t.base, '%s[%d]' % (path, i))
        else:
            ks = self.kids(t)
            if t.union:
                ks = [ks[self.act.get(path, 0)]]
            for name, mt in ks:
                yield from self.leaves(mt, path + name)


def rec(id, e, t):
    f = {'float': 'evf', 'double': 'evd', 'long double': 'evL'}.get(t.name, 'ev')
    if t.name.endswith('*'):
        return 'ev(%d, ptrid(%s));' % (id, e)
    return '%s(%d, %s);' % (f, id, e)


SYMS = ['&gi', 'ga', 'ga + 3', '&ga[5]', '&gs.b', 'gs.c', '&gs.c[2]', 'gs.c + 1', '(char *)&gs + 2', '"lit"', 'fn', '&ga[1] - 1', '&gm[1][2]',
        'gm[2]', '*gm', '(gm + 1)', '&*ga', '&gs']

HEAD = PRE + '''
static int gi; static short ga[8]; static struct { char a; long b; char c[5]; } gs; static int gm[3][4]; static void fn(void) {}
static long ptrid(const void *p) {
	if (p >= (void *)&gi && p < (void *)(&gi + 1)) return 1000 + ((char *)p - (char *)&gi);
	if (p >= (void *)ga && p < (void *)(ga + 8)) return 2000 + ((char *)p - (char *)ga);
	if (p >= (void *)&gs && p < (void *)(&gs + 1)) return 3000 + ((char *)p - (char *)&gs);
	if (p >= (void *)gm && p < (void *)(gm + 3)) return 5000 + ((char *)p - (char *)gm);
	if (p == (void *)fn) return 4000;
	if ((long)p < 4096) return -(long)p;
	return ((char *)p)[0] * 7 + ((char *)p)[1] + ((char *)p)[2] + ((char *)p)[3];
}
static int vi = -77777; static unsigned vu = 4000000000u; static signed char vc = -3; static long vl = 0x123456789abcdL; static float vf = 2.75f; static short vs = 300;
static void dirty(void) { volatile char a[6000]; for (int i = 0; i < 6000; i++) a[i] = 0xa5; }
'''


def program(ctx, r, nobj):
    g = TyGen(r, packed=r.random() < .2, flex=False)
    cov, descr = set(), {}
    glob, fns, calls = [], [], []
    consts = []
    nid = 0
    pool = []
    for i in range(nobj):
        k = r.random()
        unsized = False
        if r.random() < .5 and g.recs:
            # a source for expressions of record type
            t = r.choice(g.recs)
            if sum(1 for _ in t.leaves()) <= 40:
                ini = Init(r, False, set(), (), SYMS)
                glob.append('static %s = %s;' % (t.decl('c%d' % i), ini.init(t, '')))
                consts.append(('c%d' % i, t, dict(ini.act)))
        if k < .12:
            t = g.scalar()
        elif k < .35:
            base = g.any(2)
            t = Ty('a', base=base, n=r.randrange(1, 7))
            unsized = r.random() < .5
        elif k < .42:
            t = Ty('a', base=Ty('s', r.choice(CHARS)), n=r.randrange(1, 10))
            unsized = r.random() < .5
        elif k < .55 and pool:
            t = r.choice(pool)
        else:
            t = g.record(2)
            pool.append(t)
        if sum(1 for _ in t.leaves()) > 60:
            continue
        form = r.choice(['static', 'auto', 'auto', 'local static', 'compound', 'static compound', 'both'])
        if form.endswith('compound') and t.kind == 's':
            form = 'auto'
        auto = form in ('auto', 'compound')
        ini = Init(r, auto, cov, consts, SYMS)
        text = ini.init(t, '')
        T = t
        if unsized:
            if text.startswith('"') or text.startswith('{"') or text.startswith('u8'):
                if t.base.name in CHARS and hasattr(ini, 'strlen') and ini.top_max < 0:
                    T = Ty('a', base=t.base, n=ini.strlen + 1)
                else:
                    unsized = False
            elif ini.top_max >= 0:
                T = Ty('a', base=t.base, n=ini.top_max + 1)
            else:
                unsized = False
        nm = 'o%d' % i
        if form == 'compound' and t.kind == 'r' and not text.startswith('{'):
            form = 'auto'
        D = Ty('a', base=t.base, n=-1) if unsized else t
        d = '%s = %s;' % (D.decl(nm), text)
        cov.add(form + (' unsized' if unsized else ''))
        nid += 1
        lead = '%s%s' % (form + ' ', d)
        decls = '\n'.join(x for x in g.out if t.name and (t.name + ' ') in x)
        descr[nid] = 'initializer: size of %s' % lead
        b = ['dirty();']
        vars = [nm]
        if form == 'static':
            glob.append('static ' + d)
            b = []
        elif form == 'both':
            glob.append(r.choice(['', 'static ']) + d)
            b.append(d.replace(nm, nm + 'l', 1))
            vars.append(nm + 'l')
        elif form == 'auto':
            b.append('for (int k = 0; k < 2; k++) {' if False else '{')
            b.append(d)
        elif form == 'local static':
            b.append('static ' + d)
        elif form in ('compound', 'static compound'):
            text2 = text if text.startswith('{') else '{%s}' % text
            if form == 'compound':
                b.append('%s = &(%s)%s;' % (t.decl('(*p)') if False else ptr(D if unsized else t, 'p%d' % i, g), tname(D, g), text2))
            else:
                glob.append('static %s = &(%s)%s;' % (ptr(D, 'p%d' % i, g), tname(D, g), text2))
                b = []
            nm = vars[0] = '(*p%d)' % i
        for v in vars:
            b.append('ev(%d, sizeof(%s));' % (nid, v) if form not in ('compound', 'static compound') else '')
            for p, lt in ini.leaves(T):
                nid += 1
                p = re.sub(r'<\d+>', '', p)
                descr[nid] = 'initializer: value of %s in %s' % (p or 'the object', lead)
                b.append(rec(nid, v + p, lt))
        if form == 'auto':
            b.append('}')
        if t.kind == 'r' and form == 'static' and not unsized:
            consts.append((nm, t, dict(ini.act)))
        fns.append('static void f%d(void)\n{\n\t%s\n}' % (i, '\n\t'.join(b)))
        calls.append('f%d();' % i)
    src = '\n'.join([HEAD] + g.out + glob + fns + ['int main(void) { %s return 0; }' % ' '.join(calls)])
    return src, descr, cov


def ptr(t, nm, g):
    """declarator of a pointer to t (pointer to the array for arrays)"""
    return Ty.decl(t, '(*%s)' % nm)


def tname(t, g):
    return Ty.decl(t, '').strip()


def flex_program(ctx, r, n):
    """flexible array members (static), wide strings, unspecified sizes"""
    cov, descr = set(), {}
    out, b = [HEAD], []
    for i in range(n):
        id = i + 1
        k = r.randrange(4)
        if k == 0:
            base = r.choice(['char', 'short', 'int', 'long', 'double', 'struct { char a; int b; }'])
            ne = r.randrange(0, 6)
            if base == 'char' and r.random() < .5:
                s = '"%s"' % ('abcdefgh'[:ne])
                ne += 1
                els = s
            elif base.startswith('struct'):
                els = '{%s}' % ', '.join('{%d, %d}' % (r.randrange(100), r.randrange(1000)) for _ in range(ne))
            else:
                els = '{%s}' % ', '.join(str(r.randrange(100)) for _ in range(ne))
            out.append('static struct { int n; char c; %s a[]; } x%d = {%d, %d, %s};' % (base, i, ne, r.randrange(9), els))
            descr[id] = 'initializer: flexible array member ' + out[-1]
            b.append('ev(%d, x%d.n); ev(%d, x%d.c);' % (id, i, id, i))
            for q in range(ne):
                if base.startswith('struct'):
                    b.append('ev(%d, x%d.a[%d].a); ev(%d, x%d.a[%d].b);' % (id, i, q, id, i, q))
                else:
                    b.append('ev(%d, x%d.a[%d]);' % (id, i, q))
            cov.add('flex ' + base)
        elif k == 1:
            pre, ty = r.choice([('L', 'int'), ('u', 'unsigned short'), ('U', 'unsigned')])
            s = ''.join(r.choice(['a', 'Z', '\u00e9', '\u3042', '\U0001f600', '\\x7f', '\\0']) for _ in range(r.randrange(0, 6)))
            sz = r.choice(['', '', '12'])
            st = r.choice(['static ', ''])
            d = '%s%s x%d[%s] = %s"%s";' % (st, ty, i, sz, pre, s)
            descr[id] = 'initializer: wide string ' + d
            b.append('dirty(); { %s ev(%d, sizeof x%d); for (int k = 0; k < sizeof x%d / sizeof *x%d; k++) ev(%d, x%d[k]); }' % (d, id, i, i, i, id, i))
            cov.add('wide ' + pre + sz)
        elif k == 2:
            n1 = r.randrange(0, 30)
            n2 = r.randrange(0, 30)
            d = '%s x%d[] = {%d, %d, [%d] = 5, 6, 7, [%d] = 9, };' % (r.choice(['int', 'char', 'long', 'static short']), i, r.randrange(9), r.randrange(9), n1, n2)
            descr[id] = 'initializer: ' + d
            b.append('dirty(); { %s ev(%d, sizeof x%d); for (int k = 0; k < sizeof x%d / sizeof *x%d; k++) ev(%d, x%d[k]); }' % (d, id, i, i, i, id, i))
            cov.add('unsized designated')
        else:
            rows = r.randrange(1, 5)
            d = '%s x%d[][%d] = {%s};' % (r.choice(['int', 'char', 'static long', 'static double']), i, r.randrange(2, 5), ', '.join(
                str(r.randrange(100)) for _ in range(rows * 3 - 1)))
            descr[id] = 'initializer: ' + d
            b.append('dirty(); { %s ev(%d, sizeof x%d); for (int k = 0; k < sizeof x%d / sizeof **x%d; k++) ev(%d, (*x%d)[k]); }' % (d, id, i, i, i, id, i))
            cov.add('unsized rows')
    src = '\n'.join(out) + '\nint main(void) { %s return 0; }' % '\n'.join(b)
    return src, descr, cov


def probes(ctx):
    """behaviour pinned by test/initializer.c, see known-findings.txt"""
    src = PRE + 'static int x[2][3] = {1, 2, 3, 4, 5, 6, [0] = {7, 8}, 9, 10}; int main(void) { for (int i = 0; i < 6; i++) ev(i, (*x)[i]); return 0; }'
    check_diff(ctx, 'override', src, ref_opts=('-O0',), label=lambda i, g, w: 'a braced initializer that overrides an earlier one keeps the elements it does not mention: '
               'int x[2][3] = {1, 2, 3, 4, 5, 6, [0] = {7, 8}, 9, 10}')
    src = PRE + 'static struct { char a, b[]; } x = {1, {2, 3, 4}}; int main(void) { ev(1, sizeof(x)); return 0; }'
    check_diff(ctx, 'flexsize', src, ref_opts=('-O0',), label=lambda i, g, w: 'sizeof of an object with an initialized flexible array member includes the array: '
               'struct { char a, b[]; } x = {1, {2, 3, 4}}')
    src = PRE + 'static int n; static int f(void) { return ++n; } int main(void) { int x[4] = {[0 ... 3] = f()}; for (int i = 0; i < 4; i++) ev(i, x[i]); ev(4, n); return 0; }'
    check_diff(ctx, 'rangeonce', src, ref_opts=('-O0',), label=lambda i, g, w: 'the initializer of a range designator is evaluated once for each element: int x[4] = {[0 ... 3] = f()}')


OVERRIDES = [
    'char x[2][4] = {"abc", [0] = "x"};', 'char x[2][4] = {[1] = "abc", "z", [1] = "x", [0] = "y"};', 'char x[4] = {[1] = 3};', 'char x[8] = {"abcdefg"};',
    'struct { char s[6]; int n; } x = {"hello", 3, .s = "a"};', 'struct { char s[6]; int n; } x = {.s[4] = 7, .s = "a", 5};', 'struct { char s[6]; int n; } x = {"hello", .s[1] = 0, .s[3] = 9};',
    'unsigned short x[2][5] = {u"abcd", [0] = u"x"};', 'unsigned x[2][5] = {U"abcd", U"efg", [0] = U"x", [1] = U""};', 'char x[3][3] = {[0 ... 2] = "ab", [1] = "c"};', 'char x[2][5] = {[0][3] = 1, [0] = {"q"}};',
    'union U x = {.i = 0x11223344, .s = 5};', 'union U x = {.c[1] = 1, .c[2] = 3};', 'union U x = {.c = {1, 2, 3}, .s = 5};', 'union U x = {.s = 5, .c[3] = 4,};', 'union U x = {.i = 1, .c[0] = 2, .i = 3};',
    'union U x = {.t.b = 7, .t.a = 3};', 'union U x = {.t = {1, 2}, .i = 9};', 'union U x = {.i = -1, .t.b = 7};', 'union U x = {.t.a = 1, .c[4] = 5, .t.b = 6};',
    'struct { union U u; int k; } x = {.u.i = 0x11223344, .u.s = 5};', 'struct { union U u; int k; } x = {.u = {.i = 0x11223344}, .u.c[5] = 1};', 'struct { union U u; int k; } x = {.u.c = {1, 2, 3}, .u.s = 5, 7};',
    'struct { union U u; int k; } x = {.u.c = {1, 2, 3}, 4, .u.c[1] = 5};', 'union U x[2] = {[0].c[3] = 1, [0].c[2] = 2, [1].i = 5, [0].i = -1};', 'union U x[2] = {[0 ... 1].t.b = 1, [1].t.a = 2, [0].s = 3};',
    'struct { union { int i; char c[8]; }; int k; } x = {.i = -1, .c[6] = 2};', 'struct { union { int i; char c[8]; }; int k; } x = {.c[6] = 2, .k = 3, .i = 4};', 'struct { union { int i; struct { short p, q; long r; }; }; int k; } x = {.r = 2, .q = 3, .k = 4};',
    'union { union U u; long l[3]; } x = {.l[2] = 5, .u.c[2] = 4, .u.c[3] = 6};', 'union { union U u; long l[3]; } x = {.u.t.b = 5, .l = {1, 2, 3}};', 'struct { int a, b, c; } x = {1, 2, 3, .a = 4, 5};',
    'struct { struct T t; int k; } x = {.t.a = 1, .t.b = 2, .t.a = 3};', 'struct { struct T t; int k; } x = {1, 2, 3, .t.b = 4, 5};', 'int x[5] = {1, 2, 3, [1] = 7, 8, [0] = 9};', 'int x[5] = {[0 ... 4] = 1, [2] = 7, 8, [1 ... 2] = 9};',
    'union { int a : 5; unsigned b : 9; char c[4]; } x = {.c[3] = 1, .b = 511};', 'union { int a : 5; unsigned b : 9; char c[4]; } x = {.b = 511, .a = -1};', 'union { double d; float f[2]; long double l; } x = {.l = 1.5L, .d = 2.5, .f[1] = 3};',
    'union { char s[6]; long n; } x = {.s = "hello", .n = 1};', 'union { char s[6]; long n; } x = {.n = -1, .s = "a"};', 'union { char s[6]; long n; } x = {.s = "hello", .s = "a"};', 'union { char s[6]; long n; } x = {.s = "hello", .s[1] = 0};',
    'union { char *p; long n; } x = {.p = 0, .n = 77};', 'union { long n[2]; char *p; } x = {.n = {1, 2}, .p = (char *)5};',
]


def overrides(ctx):
    """initializers that replace others, without a braced list that leaves some out (known finding)"""
    out, body, descr = [PRE + 'struct T { short a; long b; }; union U { int i; char c[20]; short s; struct T t; };', 'static void dirty(void) { volatile char x[600]; for (int i = 0; i < 600; i++) x[i] = 0x5a; }'], [], {}
    for i, d in enumerate(OVERRIDES):
        n = i + 1
        descr[n] = 'static: ' + d
        descr[1000 + n] = 'automatic: ' + d
        t = d[:d.index(' = ')]
        out.append('static %s' % re.sub(r'\bx\b', 'x%d' % n, d, count=1))
        out.append('static void f%d(void) { %s evm(%d, &x, sizeof x); }' % (n, d, 1000 + n) if not any(k in d for k in ('union', 'struct', 'T t')) else
                   # padding and the bytes of other members are indeterminate: compare with the static object where that is zero
                   'static void f%d(void) { %s unsigned char *p = (void *)&x, *q = (void *)&x%d; int s = 0; for (int i = 0; i < (int)sizeof x; i++) s += q[i] && p[i] != q[i]; ev(%d, s); }' % (n, d, n, 1000 + n))
        body.append('evm(%d, &x%d, sizeof x%d); dirty(); f%d();' % (n, n, n, n))
    src = '\n'.join(out) + '\nint main(void) { %s return 0; }' % '\n'.join(body)
    if check_diff(ctx, 'overrides', src, label=lambda i, g, w: 'overriding initializer, ' + descr.get((w or g)[0], '?'), ref_opts=('-O0', '-O1')):
        ctx.seen(*['override: ' + x for x in OVERRIDES])


def body(ctx):
    ctx.rule = ('An evaluation is one recorded object size or scalar member compared with the reference after initialization (automatic '
                'objects on a dirtied stack); distinct: initializer forms observed.')
    ctx.assumptions = ['riscv64 gcc implements C initialization']
    jobs = [('init', i) for i in range(ctx.scale(700, 8000))] + [('flex', i) for i in range(ctx.scale(60, 600))]

    def one(j):
        r = ctx.sub(*j)
        src, descr, cov = program(ctx, r, 14) if j[0] == 'init' else flex_program(ctx, r, 25)

        def label(i, g, w):
            return descr.get((w or g)[0], '?')[:900]
        res = check_diff(ctx, '%s%d' % j, src, label=label, ref_opts=('-O0', '-O1'))
        if res:
            ctx.seen(*cov)
            ctx.sample({'example': descr[max(descr)][:300]})
    probes(ctx)
    overrides(ctx)
    ctx.pmap(one, jobs)


if __name__ == '__main__':
    main('C07', body)
