import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
from modelprog import *

UL = 'unsigned long'


class F:
    """Generates one function as text."""

    def __init__(self, r, k, prev, cov):
        self.r, self.k, self.prev, self.cov = r, k, prev, cov
        self.nid = k * 1000
        self.labels = 0
        self.body_labels = []
        self.loop = 0
        self.brk = 0
        self.stmts = 0
        self.vars = ['a', 'b', 'c', 'x', 'y']
        self.in_se = 0
        self.decl = 0
        self.plain = 0

    def id(self):
        self.nid += 1
        return self.nid

    def note(self, s):
        self.cov.add(s)

    # ---- expressions (unsigned long, at most one side effect per unsequenced part)
    def pure(self, d=2):
        r = self.r
        if d <= 0 or r.random() < .3:
            return r.choice(self.vars) if r.random() < .6 else str(r.choice([0, 1, 2, 3, 5, 7, 9, 100, 255]))
        k = r.randrange(7)
        a, b = self.pure(d - 1), self.pure(d - 1)
        if k == 0:
            return '(%s + %s)' % (a, b)
        if k == 1:
            return '(%s ^ %s)' % (a, b)
        if k == 2:
            return '(%s * %d)' % (a, r.randrange(1, 9))
        if k == 3:
            return '(%s %% %d)' % (a, r.randrange(2, 9))
        if k == 4:
            return '(%s < %s)' % (a, b)
        if k == 5:
            return '(%s & %s)' % (a, b)
        return '(%s >> %d)' % (a, r.randrange(1, 5))

    def cond(self, d=3):
        """a condition, possibly with recorded calls under && || ?: ,"""
        r = self.r
        if d <= 0 or r.random() < .2:
            if r.random() < .5:
                return 't(%d, %s)' % (self.id(), self.pure(1))
            return self.pure(2)
        k = r.randrange(19)
        self.note('cond%d' % k)
        if k == 0:
            return '(%s && %s)' % (self.cond(d - 1), self.cond(d - 1))
        if k == 1:
            return '(%s || %s)' % (self.cond(d - 1), self.cond(d - 1))
        if k == 2:
            return '(%s ? %s : %s)' % (self.cond(d - 1), self.cond(d - 1), self.cond(d - 1))
        if k == 3:
            return '!%s' % self.cond(d - 1)
        if k == 4:
            return '(%s, %s)' % (self.cond(d - 1), self.cond(d - 1))
        if k == 5:
            return self.store(r.choice(['a', 'b', 'c']), self.cond(d - 1))
        if k == 6:
            v = r.choice(['a', 'b', 'c'])
            return r.choice(['%s++', '++%s', '%s--', '--%s', '(%s += 3)', '(%s ^= 5)', '(%s <<= 1)']) % v
        if k == 7 and self.prev and self.in_se < 2:
            return 'f%d(%s, %s, %s)' % (r.choice(self.prev), self.pure(1), self.pure(1), r.choice(['depth - 1', 'depth - 2']))
        if k == 8 and self.in_se < 2:
            self.in_se += 1
            sl, sb = self.loop, self.brk
            if not self.plain or r.random() < .5:
                self.loop = self.brk = 0
            pl, self.plain = self.plain, 0
            n = '__v%d' % self.id()
            s = '({ unsigned long %s = %s; %s %s; })' % (n, self.pure(1), ' '.join(self.stmt(1) for _ in range(r.randrange(0, 3))), n)
            self.loop, self.brk = sl, sb
            self.plain = pl
            self.in_se -= 1
            return s
        if k == 9:
            # the side effect is in one argument only
            return 't2(%s, %s, %d)' % (self.cond(d - 1), r.choice(['1', '2', '3']), self.id())
        if k == 10:
            return '(%s ?: %s)' % (self.cond(d - 1), self.cond(d - 1))
        if k == 11:
            # the place a compound assignment changes is found once
            return '(*pt(%d, %s) %s %s)' % (self.id(), self.pure(1), r.choice(['=', '+=', '*=', '^=', '|=', '-=', '>>=', '%=']),
                                            r.choice([str(r.randrange(1, 9)), '(c % 7 + 1)']))
        if k == 12:
            return r.choice(['(*pt(%d, %s))++', '--*pt(%d, %s)', '++pt(%d, %s)[0]', 'pt(%d, %s)[1]--']) % (self.id(), self.pure(1))
        if k == 13:
            return r.choice(['(ar[t(%d, %s) & 3] %s %d)', '(gs->bf[t(%d, %s) & 3].f %s %d)', '(gs->bf[t(%d, %s) & 3].g %s %d)']) % (
                self.id(), self.pure(1), r.choice(['=', '+=', '^=', '<<=', '/=']), r.randrange(1, 9))
        if k == 14:
            return r.choice(['gs->bf[t(%d, %s) & 3].f++', '--gs->bf[t(%d, %s) & 3].g', 'ps(%d, %s)->f--', '++ps(%d, %s)->g',
                             '(ps(%d, %s)->f *= 3)', '(ps(%d, %s)->g |= 3)']) % (self.id(), self.pure(1))
        if k == 15:
            # operands that are not evaluated (not bit-fields, whose type is the implementation's choice)
            e = self.cond(d - 1)
            if 'bf[' in e or 'ps(' in e:
                return e
            return r.choice(['sizeof(%s)', '_Generic(%s, unsigned long: 3, default: 4)', '(typeof(%s))7', 'sizeof(int[1 + sizeof(%s)])',
                             '_Alignof(typeof(%s))']) % e
        if k == 16:
            # comparing and dereferencing what an assignment yields
            return '*(gp = pt(%d, %s))' % (self.id(), self.pure(1))
        if k == 17:
            return '(%s, %s ? pt(%d, a) : pt(%d, b))[0]' % (self.cond(d - 1), self.cond(d - 1), self.id(), self.id())
        return '(%s %s %s)' % (self.pure(1), r.choice(['==', '<', '>', '!=']), self.pure(1))

    def store(self, v, e):
        """v = e, unless e changes v itself, unsequenced"""
        if re.search(r'\b%s(\+\+|--| (|[-+*/%%^|&]|<<|>>)= )|(\+\+|--)%s\b' % (v, v), e):
            return '(%s)' % e
        return '(%s = %s)' % (v, e)

    def rec(self):
        if self.r.random() < .25:
            self.note('stack pointer')
            return 'evsp(%d, &fuel);' % self.id()
        return 'ev(%d, %s);' % (self.id(), self.pure(2))

    # ---- statements
    def block(self, d, n=None):
        n = self.r.randrange(1, 4) if n is None else n
        return '{ %s }' % ' '.join(self.stmt(d) for _ in range(n))

    def sub(self, d):
        """a sub-statement with or without braces"""
        if self.r.random() < .3:
            s = self.stmt(d)
            if re.match(r'unsigned long|struct|enum|typedef', s):
                return '{ %s }' % s
            return s
        return self.block(d)

    FUEL = 'if (fuel-- <= 0) return %s;'

    def stmt(self, d):
        r = self.r
        self.stmts += 1
        if d <= 0 or self.stmts > 60:
            k = r.choice(['rec', 'rec', 'assign', 'break', 'continue', 'expr', 'empty', 'goto', 'return'])
        else:
            k = r.choice(['if', 'ifelse', 'while', 'do', 'for', 'for2', 'switch', 'switch', 'block', 'rec', 'assign', 'break',
                          'continue', 'goto', 'cgoto', 'expr', 'return', 'label', 'decl', 'forever', 'duff', 'dangling', 'static'])
        self.note('stmt ' + k)
        fuel = self.FUEL % self.pure(1)
        if k == 'rec':
            return self.rec()
        if k == 'assign':
            self.plain = 1
            c = self.cond(2)
            self.plain = 0
            return self.store(r.choice(['a', 'b', 'c']), c)[1:-1] + ';'
        if k == 'expr':
            self.plain = 1
            c = self.cond(3)
            self.plain = 0
            return c + ';'
        if k == 'empty':
            return r.choice([';', '{}', '{;}'])
        if k == 'if':
            return 'if (%s) %s' % (self.cond(), self.sub(d - 1))
        if k == 'ifelse':
            s = '{ %s }' % self.stmt(d - 1)
            return 'if (%s) %s else %s' % (self.cond(), s, self.sub(d - 1))
        if k == 'dangling':
            return 'if (%s) if (%s) %s else %s' % (self.cond(), self.cond(1), self.rec(), self.sub(d - 1))
        if k in ('while', 'do', 'for', 'for2', 'forever'):
            self.loop += 1
            self.brk += 1
            self.decl += k == 'for'
            b = '{ %s %s %s }' % (fuel, self.rec(), ' '.join(self.stmt(d - 1) for _ in range(r.randrange(1, 4))))
            self.loop -= 1
            self.brk -= 1
            self.decl -= k == 'for'
            if k == 'while':
                return 'while (%s) %s' % (self.cond(), b)
            if k == 'do':
                return 'do %s while (%s);' % (b, self.cond())
            v = 'i%d' % self.id()
            if k == 'for':
                return 'for (unsigned long %s = %d; %s < %d; %s%s) %s' % (
                    v, r.randrange(0, 4), v, r.randrange(0, 8), v, r.choice(['++', ' += 2', '++, t(%d, 1)' % self.id()]),
                    re.sub(r'\by\b', v, b) if r.random() < .3 else b)
            if k == 'for2':
                return 'for (%s; %s; %s) %s' % (self.cond(1), self.cond(2), self.cond(1), b)
            return 'for (;;) %s' % (b[:-1] + ' if (%s) break; }' % self.cond(1))
        if k == 'switch':
            return self.switch(d)
        if k == 'duff':
            self.brk += 1
            n = r.randrange(2, 5)
            s = 'switch (%s %% %d) { case 0: do { %s %s' % (self.pure(1), n, fuel, self.rec())
            self.loop += 1
            for i in range(1, n):
                s += ' case %d: %s' % (i, self.rec() if r.random() < .6 else self.stmt(d - 2))
            self.loop -= 1
            self.brk -= 1
            return s + ' } while (%s); }' % self.cond(1)
        if k == 'block':
            return self.block(d - 1)
        if k == 'decl':
            v = r.choice(['a', 'b', 'x'])
            self.decl += 1
            s = '{ unsigned long %s = %s; %s }' % (v, r.choice(['1', '7', 'c + 3', 'y ^ 9']), ' '.join(self.stmt(d - 1) for _ in range(2)))
            self.decl -= 1
            return s
        if k == 'static':
            v = 's%d' % self.id()
            return '{ static unsigned long %s = %d; ev(%d, %s++); }' % (v, r.randrange(9), self.id(), v)
        if k == 'break':
            return ('if (%s) break;' % self.cond(1) if r.random() < .6 else 'break;') if self.brk else self.rec()
        if k == 'continue':
            return ('if (%s) continue;' % self.cond(1) if r.random() < .7 else 'continue;') if self.loop else self.rec()
        if k == 'return':
            return 'if (%s) return %s;' % (self.cond(1), self.cond(1))
        if k == 'goto':
            if not self.body_labels:
                return self.rec()
            return 'if (%s) goto %s;' % (self.pure(1), r.choice(self.body_labels))
        if k == 'cgoto':
            if len(self.body_labels) < 2:
                return self.rec()
            ls = [r.choice(self.body_labels) for _ in range(r.randrange(2, 4))]
            v = 'tb%d' % self.id()
            return '{ static void *%s[] = { %s }; ev(%d, 0); goto *%s[%s %% %d]; }' % (
                v, ', '.join('&&' + l for l in ls), self.id(), v, self.pure(1), len(ls))
        if k == 'label':
            if self.in_se or self.decl:
                return self.rec()
            l = 'L%d' % self.id()
            s = '%s: %s %s' % (l, fuel, self.rec())
            self.late.append(l)
            return '{ %s }' % s
        return self.rec()

    def switch(self, d):
        r = self.r
        self.brk += 1
        ty = r.choice(['int', 'unsigned', 'long', UL, 'char', 'unsigned char', 'short', '_Bool'])
        self.note('switch ' + ty)
        n = r.randrange(0, 7)
        used = set()
        parts = []
        dflt = r.randrange(-1, n + 1)
        for i in range(n + 1):
            if i == dflt:
                parts.append('default: ' + ' '.join(self.stmt(d - 1) for _ in range(r.randrange(0, 3))) + ';')
            if i == n:
                break
            lo = r.choice([r.randrange(-4, 12), r.randrange(0, 8), r.randrange(0, 8)])
            if ty.startswith('u') or ty == '_Bool':
                lo = abs(lo)
            hi = lo + (r.randrange(0, 4) if r.random() < .25 else 0)
            if any(v in used for v in range(lo, hi + 1)):
                continue
            used.update(range(lo, hi + 1))
            lab = 'case %d:' % lo if hi == lo else 'case %d ... %d:' % (lo, hi)
            if r.random() < .2:
                lab += ' ;'
            b = ' '.join(self.stmt(d - 1) for _ in range(r.randrange(0, 3)))
            if r.random() < .15:
                parts.append('%s { %s %s }' % (lab, self.rec(), b))
            else:
                parts.append('%s %s %s%s' % (lab, self.rec() if r.random() < .7 else ';', b, ' break;' if r.random() < .5 else ''))
        self.brk -= 1
        pre = self.rec() if r.random() < .1 else ''        # never executed
        sel = r.choice(['(%s)(%s)' % (ty, self.cond(1)), '(%s)(%s %% 8)' % (ty, self.pure(1)), '(%s)(%s %% 8 - 2)' % (ty, self.pure(1))])
        return 'switch (%s) { %s %s ; }' % (sel, pre, '\n'.join(parts))

    def make(self):
        r = self.r
        # top-level labels known in advance: targets of goto and computed goto
        self.late = []
        nl = r.randrange(0, 4)
        self.body_labels = ['T%d_%d' % (self.k, i) for i in range(nl)]
        parts = []
        for i in range(nl + 1):
            for _ in range(r.randrange(1, 4)):
                parts.append(self.stmt(r.randrange(1, 5)))
            if i < nl:
                parts.append('T%d_%d: %s %s' % (self.k, i, self.FUEL % '77', self.rec()))
        for l in self.late:
            if r.random() < .7:
                parts.append('if (%s) goto %s;' % (self.pure(1), l))
        rt = r.choice([UL, UL, 'int', 'unsigned char', 'short'])
        return ('static %s f%d(unsigned long x, unsigned long y, int depth) { unsigned long a = x + 1, b = y, c = 3; int fuel = 60;\n'
                'if (depth <= 0) return 5; ev(%d, x);\n%s\nev(%d, a + b * 3 + c); return a ^ b; }' % (
                    rt, self.k, self.id(), '\n'.join(parts), self.id()))


def program(r, cov, nf=8):
    out = [PRE, '#ifdef REF\n#define evsp(id, p) ev(id, 0)\n#else\nvoid evsp(long, void *);\n#endif', 'static int budget;',
           'static unsigned long ar[8] = {3, 1, 4, 1, 5}, *gp = ar; static struct { struct bf { unsigned f : 5; long g : 7; } bf[4]; } gs[1];',
           'static unsigned long *pt(long id, unsigned long v) { ev(id, v); return ar + v % 4; }',
           'static struct bf *ps(long id, unsigned long v) { ev(id, v); return gs->bf + v % 4; }',
           'static unsigned long t(long id, unsigned long v) { ev(id, v); return v; }',
           'static unsigned long t2(unsigned long v, int k, long id) { ev(id, v + k); return v * k; }']
    fs = []
    for k in range(1, nf + 1):
        f = F(r, k, list(range(max(1, k - 2), k)), cov)
        out.append(f.make())
        fs.append(k)
    calls = []
    for k in fs:
        for _ in range(4):
            calls.append('ev(%d, f%d(%d, %d, 3));' % (k * 1000, k, r.randrange(0, 20), r.randrange(0, 20)))
    out.append('int main(void) { %s return 0; }' % '\n'.join(calls))
    return '\n'.join(out)


SWT = {'_Bool': (0, 1, 'int'), 'char': (0, 255, 'int'), 'signed char': (-128, 127, 'int'), 'unsigned char': (0, 255, 'int'), 'short': (-32768, 32767, 'int'), 'unsigned short': (0, 65535, 'int'),
       'int': (-2 ** 31, 2 ** 31 - 1, 'int'), 'unsigned': (0, 2 ** 32 - 1, 'unsigned'), 'long': (-2 ** 63, 2 ** 63 - 1, 'long'), 'unsigned long': (0, 2 ** 64 - 1, 'unsigned long'), 'enum E': (-2 ** 31, 2 ** 31 - 1, 'int')}
CONV = {'int': (32, 1), 'unsigned': (32, 0), 'long': (64, 1), 'unsigned long': (64, 0)}


def conv(v, t):
    w, sg = CONV[t]
    v &= (1 << w) - 1
    return v - (1 << w) if sg and v >> (w - 1) else v


def cst(v, r):
    if v == -2 ** 63:
        return '(-9223372036854775807 - 1)'
    if v == -2 ** 31:
        return r.choice(['(-2147483647 - 1)', '-2147483648'])
    if v > 2 ** 63 - 1:
        return '%du' % v
    s = r.choice(['%d', '%d', hex(v).replace('-0x', '-0x')]) if v >= 0 else '%d'
    return s % v if '%' in s else s


def switches(r, cov):
    """case labels and ranges at the limits of the types, on selectors around them"""
    out = [PRE]
    body = []
    edges = sorted({e + d for w in (0, 7, 8, 11, 15, 16, 31, 32, 63, 64) for e in (1 << w, -(1 << w)) for d in (-2, -1, 0, 1, 2)} | {0, 1, 2, 3, -3, 2047, 2048, 2049, -2048, -2049})
    for k in range(25):
        st = r.choice(sorted(SWT))
        pt = SWT[st][2]
        ok = [e for e in edges if -2 ** 63 <= e < 2 ** 64]
        marks, lab = [], []
        sel = set()
        for _ in range(r.randrange(1, 7)):
            lo = r.choice(ok)
            hi = r.choice([e for e in ok if e >= lo] or [lo]) if r.random() < .4 else lo
            if r.random() < .3:
                hi = min(lo + r.randrange(0, 3000), 2 ** 64 - 1)
            a, b = conv(lo, pt), conv(hi, pt)
            # gcc diagnoses labels outside of the type of the selector, and converts the others
            if a > b or hi != lo and (a != lo or b != hi):
                continue
            if any(not (b < x or a > y) for x, y in marks):
                continue
            marks.append((a, b))
            lab.append('case %s:' % cst(lo, r) if lo == hi else 'case %s ... %s:' % (cst(lo, r), cst(hi, r)))
            sel |= {x + d for x in (a, b, lo, hi) for d in (-1, 0, 1)} | {(a + b) // 2}
            cov.add('%s on %s' % ('range' if lo != hi else 'label', st))
        if not lab:
            continue
        sel |= {r.choice(ok) for _ in range(4)}
        d = r.randrange(-1, len(lab) + 1)
        cases = ['%s ev(%d, %d); %s' % (l, k, i + 1, 'break;' if r.random() < .8 else '') for i, l in enumerate(lab)]
        if d >= 0:
            cases.insert(d, 'default: ev(%d, 99);%s' % (k, r.choice(['', ' break;'])))
        if st == '_Bool' or r.random() < .1:
            # constants as selectors
            ss = [cst(v, r) for v in sorted(sel) if -2 ** 63 <= v < 2 ** 64][:12]
            out.append('static void s%d(void) { %s }' % (k, ' '.join('switch ((%s)%s) { %s }' % (st, x, ' '.join(cases)) for x in ss)))
            body.append('s%d();' % k)
            continue
        out.append('static void s%d(%s x) { ev(%d, -1); switch (%s) { %s } }' % (k, st, k, r.choice(['x', 'x', '(x)', '+x', 'x + 0']), ' '.join(cases)))
        body.append(' '.join('s%d((%s)%s);' % (k, st, cst(v, r)) for v in sorted(sel) if -2 ** 63 <= v < 2 ** 64))
    return '\n'.join(out) + '\nint main(void) { %s return 0; }' % '\n'.join(body)


def body(ctx):
    ctx.rule = ('An evaluation is one event of a compiled program\'s trace compared with the reference trace; programs are '
                'random nests of all statement forms, executed on several arguments. Distinct: statement and condition forms '
                'plus distinct traces.')
    ctx.assumptions = ['order of evaluation left unspecified by C is not relied on: one side effect per unsequenced operand set']

    def one(i):
        r = ctx.sub('p', i)
        cov = set()
        src = program(r, cov)
        res = check_diff(ctx, 'cf%d' % i, src, ref_flags=('-DREF',))
        if res:
            ctx.seen(*cov)
            ctx.seen(hashlib.sha1(repr([e[0] for e in res]).encode()).hexdigest())
            ctx.sample({'program': i, 'events': len(res), 'first': res[:3]})
            ctx.bump('programs')
    def sw(i):
        cov = set()
        res = check_diff(ctx, 'sw%d' % i, switches(ctx.sub('switch', i), cov), ref_opts=('-O0',), ref_flags=('-fsigned-char',))
        if res:
            ctx.seen(*cov)
            ctx.bump('switch programs')
    ctx.pmap(sw, range(ctx.scale(40, 600)))
    ctx.pmap(one, range(ctx.scale(250, 3000)))


if __name__ == '__main__':
    main('C04', body)
