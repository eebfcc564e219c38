import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
from cmodel import *
from modelprog import *
from exprgen import *


class PPGen(Gen):
    """#if expressions: every integer is intmax_t or uintmax_t."""

    def __init__(self, r, macros):
        super().__init__(r, 0.0, True)
        self.macros = macros

    def leaf(self):
        r = self.r
        k = r.random()
        if k < .1:
            return E('UNDEF_%d' % r.randrange(9), P_PRIM, LONG, 0, True)
        if k < .3 and self.macros:
            n = r.choice(list(self.macros))
            return E(n, P_PRIM, self.macros[n][1], self.macros[n][0], True)
        if k < .36:
            n = r.choice(list(self.macros) + ['UNDEF_1', 'UNDEF_2'])
            return E(r.choice(['defined %s', 'defined(%s)', 'defined ( %s )']) % n, P_UNARY, LONG,
                     int(n in self.macros), True)
        if k < .42:
            c = r.choice("abzAZ09 ~!%{}")
            return E("'%s'" % c, P_PRIM, LONG, ord(c), True)
        e = int_literal(r)
        e.t = LONG if e.t.signed else ULONG
        return e

    def un(self, op, a):
        e = super().un(op, a)
        if e and e.t is INT:
            e.t = LONG
        return e

    def bin(self, op, a, b):
        e = super().bin(op, a, b)
        if e and e.t is INT:
            e.t = LONG
        return e

    def cast(self, t, a):
        if t in (UINT, ULONG):
            return self.bin('|', a, E('0u', P_PRIM, ULONG, 0, True))
        return a


def pp_program(ctx, r, n):
    tr = Trace()
    out = [PRE]
    macros = {}
    for i in range(8):
        e = int_literal(r)
        t = LONG if e.t.signed else ULONG
        nm = 'MAC%d' % i
        if r.random() < .4 and e.v and t.signed:
            out.append('#define %s (-%s)' % (nm, e.s))
            macros[nm] = (-e.v, t)
        else:
            out.append('#define %s %s' % (nm, e.s))
            macros[nm] = (e.v, t)
    out.append('int main(void) {')
    G = PPGen(r, macros)
    for i in range(n):
        e = G.expr(r.randrange(1, 6))
        id = tr.new()
        k = r.randrange(3)
        t = truth(e.v, e.t)
        d = '#if ' + e.s[:400]
        if k == 0:
            out += ['#if ' + e.s, 'ev(%d, 1);' % id, '#else', 'ev(%d, 0);' % id, '#endif']
            tr.add(id, int(t), d)
        elif k == 1:
            out += ['#if 0', '#elif ' + e.s, 'ev(%d, 1);' % id, '#elif 1', 'ev(%d, 2);' % id, '#endif']
            tr.add(id, 1 if t else 2, d)
        else:
            # the value itself, bit by bit, plus its sign
            c = ctext(e.v, e.t)
            if c.startswith('('):
                c = '(-9223372036854775807 - 1)'
            out += ['#if (%s) == %s && %s((%s) * 0 - 1 < 0)' % (e.s, c, '' if e.t.signed else '!', e.s),
                    'ev(%d, 1);' % id, '#else', 'ev(%d, 0);' % id, '#endif']
            tr.add(id, 1, 'value of ' + d)
        ctx.seen('pp depth %d' % min(len(e.s) // 8, 30))
    out.append('return 0; }')
    for o in G.ops:
        ctx.seen('#if ' + o)
    return '\n'.join(out), tr


class CGen(Gen):
    """integer constant expressions: floating literals only as operands of casts"""
    fcast = False

    def leaf(self):
        if self.fcast and self.r.random() < .3:
            e = self.cast(self.r.choice(INTS), flt_literal(self.r))
            if e:
                return e
        return super().leaf()


def const_program(ctx, r, n):
    tr = Trace()
    out = [PRE]
    body = []
    Gi = CGen(r, 0.0, True)
    Gf = Gen(r, 0.3, True)
    enums = []
    for i in range(n):
        k = r.choice(['global', 'global', 'static', 'enum', 'enumseq', 'case', 'dim', 'dim', 'bf', 'desig',
                      'alignas', 'caserange', 'member_dim', 'sizeof_dim', 'typedef', 'comp_lit'])
        id = tr.new()
        G = Gf if k in ('global', 'static') else Gi
        Gi.fcast = r.random() < .3
        for _ in range(30):
            if enums and r.random() < .5:
                nm, ev_ = r.choice(enums)
                G.vars = []
                e0 = E(nm, P_PRIM, INT, ev_, True)
                e = G.bin(r.choice(['+', '-', '*', '&', '|', '^', '<', '==', '%', '/']), e0, G.expr(2))
                if e is None:
                    continue
            else:
                e = G.expr(r.randrange(1, 6))
            break
        if e is None or not e.const or (e.t.isf and k not in ('global', 'static')):
            continue
        d = '%s: %s' % (k, e.s[:400])
        if k in ('global', 'static'):
            t = Gf.anytype()
            v = conv(e.v, e.t, t)
            if v is None:
                t, v = e.t, e.v
            if t is LDOUBLE and fround(v.frac() if v.k == 'fin' else Fraction(0), DOUBLE).frac() != (v.frac() if v.k == 'fin' else 0):
                continue    # host long double precision
            if e.t.isf and has_ld(e.s):
                continue
            pre = 'static %s v%d = %s;' % (t.name, i, e.s if e.p >= P_ASSIGN else '(%s)' % e.s)
            if k == 'global':
                out.append(pre)
                pre = ''
            body.append(pre + emit('v%d' % i, id, t))
            # and the same expression at run time
            if e.t is not LDOUBLE:
                body.append('{ %s w = %s; %s }' % (t.name, e.s, emit('w', id, t)))
                tr.add(id, v, d, t)
                tr.add(id, v, d + ' [run time]', t)
            else:
                tr.add(id, v, d, t)
        elif k == 'enum':
            if not (INT.lo <= e.v <= INT.hi):
                continue
            out.append('enum { K%d = %s };' % (i, e.s))
            enums.append(('K%d' % i, e.v))
            body.append('ev(%d, K%d); ev(%d, sizeof(K%d));' % (id, i, id, i))
            tr.add(id, e.v, d)
            tr.add(id, 4, 'sizeof enum constant')
        elif k == 'enumseq':
            if not (INT.lo <= e.v <= INT.hi - 3):
                continue
            out.append('enum N%d { KA%d, KB%d = %s, KC%d, KD%d, };' % (i, i, i, e.s, i, i))
            body.append('ev(%d, KA%d); ev(%d, KC%d); ev(%d, KD%d);' % (id, i, id, i, id, i))
            tr.add(id, 0, d)
            tr.add(id, e.v + 1, d)
            tr.add(id, e.v + 2, d)
        elif k == 'case':
            st = r.choice([INT, UINT, LONG, ULONG, CHAR, UCHAR, SHORT])
            pt = promote(st)
            cv = wrap(e.v, pt)
            sv = wrap(cv, st)
            other = wrap(cv + 1, pt)
            body.append('{ %s q = %s; switch (q) { case %s: ev(%d, 1); break; case %s: ev(%d, 3); break; default: ev(%d, 2); } }' % (
                st.name, ctext(sv, st), e.s, id, ctext(other, pt) if other >= 0 or pt.signed else '%dU' % other, id, id))
            tr.add(id, 1 if sv == cv else (3 if sv == other else 2), d)
        elif k == 'caserange':
            st = r.choice([INT, LONG])
            lo = e.v
            if not (st.lo + 300 < lo < st.hi - 300):
                continue
            hi = lo + r.randrange(0, 200)
            if hi > promote(e.t).hi:
                continue
            for q in {lo - 1, lo, hi, hi + 1, (lo + hi) // 2}:
                body.append('{ %s q = %s; switch (q) { default: ev(%d, 2); break; case %s ... (%s) + %d: ev(%d, 1); } }' % (
                    st.name, ctext(q, st), id, e.s, e.s, hi - lo, id))
                tr.add(id, 1 if lo <= q <= hi else 2, d + ' ... +%d with %d' % (hi - lo, q))
        elif k in ('dim', 'sizeof_dim', 'member_dim', 'typedef', 'comp_lit'):
            v = e.v
            if e.t.size < 8:
                m = E('((%s) & 15) + 1' % e.s, P_ADD, e.t, (v & 15) + 1, True)
            else:
                m = E('((%s) %% 16 + 16) %% 16 + 1' % e.s if e.t.signed else '(%s) %% 13 + 1' % e.s, P_ADD, e.t,
                      ((abs(v) % 16 * (1 if v >= 0 else -1)) + 16) % 16 + 1 if e.t.signed else v % 13 + 1, True)
            t = r.choice(INTS)
            if k == 'dim':
                pre = 'static %s v%d[%s];' % (t.name, i, m.s)
                if r.random() < .5:
                    out.append(pre)
                    pre = ''
                body.append(pre + 'ev(%d, sizeof(v%d));' % (id, i))
                tr.add(id, t.size * m.v, 'sizeof %s[%s]' % (t, m.s[:400]))
            elif k == 'typedef':
                out.append('typedef %s T%d[%s][2];' % (t.name, i, m.s))
                body.append('ev(%d, sizeof(T%d));' % (id, i))
                tr.add(id, t.size * m.v * 2, 'sizeof %s[%s][2]' % (t, m.s[:400]))
            elif k == 'member_dim':
                out.append('struct M%d { char a[%s]; %s b; };' % (i, m.s, t.name))
                body.append('ev(%d, (long)&((struct M%d *)0)->b);' % (id, i))
                tr.add(id, (m.v + t.size - 1) // t.size * t.size, 'offset after char[%s]' % m.s[:400])
            elif k == 'comp_lit':
                body.append('ev(%d, sizeof((%s[%s]){1}));' % (id, t.name, m.s))
                tr.add(id, t.size * m.v, 'sizeof compound literal [%s]' % m.s[:400])
            else:
                body.append('ev(%d, sizeof(%s[%s]));' % (id, t.name, m.s))
                tr.add(id, t.size * m.v, 'sizeof(%s[%s])' % (t, m.s[:400]))
        elif k == 'bf':
            w = abs(e.v) % 30 + 1
            s = '((%s) < 0 ? -((%s) %% 30) : (%s) %% 30) + 1' % (e.s, e.s, e.s)
            if e.v == promote(e.t).lo:
                continue
            out.append('struct B%d { unsigned x : %s; } ;' % (i, s))
            body.append('{ struct B%d b = {0}; b.x = ~0; ev(%d, b.x); }' % (i, id))
            tr.add(id, (1 << w) - 1, 'bit-field width ' + s[:400])
        elif k == 'desig':
            if not 0 <= e.v < 200:
                continue
            out.append('static short v%d[] = { [%s] = 7, 9 };' % (i, e.s))
            body.append('ev(%d, sizeof(v%d) / 2); ev(%d, v%d[%d]); ev(%d, v%d[%d]);' % (id, i, id, i, e.v, id, i, e.v + 1))
            tr.add(id, e.v + 2, d)
            tr.add(id, 7, d)
            tr.add(id, 9, d)
        elif k == 'alignas':
            a = 1 << (abs(e.v) % 5)
            if e.v == promote(e.t).lo:
                continue
            s = '1 << (((%s) < 0 ? -(%s) : (%s)) %% 5)' % (e.s, e.s, e.s)
            out.append('struct A%d { char c; _Alignas(%s) char d; };' % (i, s))
            body.append('ev(%d, sizeof(struct A%d)); ev(%d, _Alignof(struct A%d));' % (id, i, id, i))
            tr.add(id, max(2, 2 * a), 'size with _Alignas(%s)' % s[:400])
            tr.add(id, a, '_Alignas(%s)' % s[:400])
        ctx.seen(k + ' ' + e.t.name)
    # split main into functions
    fns = []
    for j in range(0, len(body), 40):
        fns.append('static void part%d(void) {\n%s\n}' % (j, '\n'.join(body[j:j + 40])))
    out += fns
    out.append('int main(void) { %s return 0; }' % ' '.join('part%d();' % j for j in range(0, len(body), 40)))
    for G in (Gi, Gf):
        for o in G.ops:
            ctx.seen('const ' + o)
    return '\n'.join(out), tr


def has_ld(s):
    return 'long double' in s or bool(re.search(r'[0-9.p][lL]\b', s)) and ('.' in s or 'p' in s or 'P' in s)


def addr_program(ctx, r, n):
    """address constants: object or function plus a constant offset"""
    tr = Trace()
    out = [PRE, '''struct In { char c; short h[3]; long l; }; struct Ou { int i; struct In in[3]; struct { char x, y; } an; double d; };
static char ca[40]; static int ia[20]; static long la[4][5]; static struct Ou so, sa[6]; int fn1(void) { return 1; } int fn2(int x) { return x; }
union Un { char c; long l; struct In n; } un;''']
    body = []
    for i in range(n):
        k = r.randrange(12)
        id = tr.new()
        a, b, c = r.randrange(6), r.randrange(3), r.randrange(3)
        off = r.randrange(-5, 20)
        IN = {'c': 0, 'h': 2, 'l': 8}
        if k == 0:
            ex, base, o = '&ia[%d]' % a, 'ia', 4 * a
        elif k == 1:
            ex, base, o = 'ia + %d' % (a + off), 'ia', 4 * (a + off)
        elif k == 2:
            ex, base, o = '&sa[%d].in[%d].h[%d]' % (a, b, c), 'sa', 104 * a + 8 + 16 * 0 + b * 16 + 2 + 2 * c
        elif k == 3:
            ex, base, o = 'la[%d] + %d' % (b, c), 'la', 40 * b + 8 * c
        elif k == 4:
            ex, base, o = '&la[%d][%d] - %d' % (b, c, a), 'la', 40 * b + 8 * c - 8 * a
        elif k == 5:
            ex, base, o = '(char *)&so + %d' % off, '&so', off
        elif k == 6:
            ex, base, o = '&so.in[%d].l' % b, '&so', 8 + 16 * b + 8
        elif k == 7:
            ex, base, o = '(void *)((long)ca + %d)' % off, 'ca', off
        elif k == 8:
            ex, base, o = '%d + ca' % off, 'ca', off
        elif k == 9:
            ex, base, o = '&(&so)->in[%d].c' % b, '&so', 8 + 16 * b
        elif k == 10:
            ex, base, o = '(1 ? &ca[%d] : ca)' % a, 'ca', a
        else:
            ex, base, o = '&un.n.h[%d]' % c, '&un', 2 + 2 * c
        # the layout is asked from the compiler itself at run time
        ev_ = {2: '(char *)&sa[%d].in[%d].h[%d] - (char *)sa' % (a, b, c), 6: '(char *)&so.in[%d].l - (char *)&so' % b,
               9: '(char *)&so.in[%d].c - (char *)&so' % b}.get(k)
        out.append('%svoid *p%d = %s;' % (r.choice(['', 'static ']), i, ex))
        if ev_:
            body.append('ev(%d, (char *)p%d - (char *)%s == %s);' % (id, i, base, ev_))
            tr.add(id, 1, 'static pointer = ' + ex)
        else:
            body.append('ev(%d, (char *)p%d - (char *)%s);' % (id, i, base))
            tr.add(id, o, 'static pointer = ' + ex)
        ctx.seen('address form %d' % k)
    out.append('int (*f1)(void) = fn1; int (*f2)(int) = &fn2; int (*ft[3])(int) = { fn2, 0, *fn2 };')
    out.append('static char *strs[] = { "abc", "de" "f", &"xyz"[1], "hello" + 2 }; static long diff = (long)sizeof(struct Ou) - 3;')
    out.append('static void *self = &self; static struct Nd { struct Nd *n; int v; } n1, n2 = { &n1, 2 }, n1 = { &n2, 1 };')
    id = tr.new()
    body.append('ev(%d, f1()); ev(%d, f2(7)); ev(%d, ft[0](8) + ft[2](1) + !ft[1]); evs(%d, strs[0]); evs(%d, strs[1]); evs(%d, strs[2]); evs(%d, strs[3]);'
                'ev(%d, self == &self); ev(%d, n1.n->v * 10 + n2.n->v); ev(%d, diff == sizeof(struct Ou) - 3);' % ((id,) * 10))
    for v, d in [(1, 'f1'), (7, 'f2'), (10, 'ft'), (0x636261, 'abc'), (0x666564, 'def'), (0x7a79, 'yz'), (0x6f6c6c, 'llo'),
                 (1, 'self'), (21, 'nodes'), (1, 'diff')]:
        tr.add(id, v, 'static address of ' + d)
    out.append('int main(void) { %s return 0; }' % '\n'.join(body))
    return '\n'.join(out), tr


NANS = ['0.0 / 0.0', '0.0f / 0.0f', '1e308 * 10 - 1e308 * 10', '0 * (1 / 0.0)', '0.0 / 0.0 + 1', '1 - 0.0 / 0.0', '(float)(0.0 / 0.0)', '(double)(0.0f / 0.0f)',
        '-(0.0 / 0.0)', '-(0.0f / 0.0f)', '0.0L / 0.0L', '(double)(0.0L / 0.0L)', '1 ? 0.0 / 0.0 : 1', '- -(0.0 / 0.0)']


def probes(ctx):
    """static NaNs have the bits the operation gives at run time (invalid operations: the positive quiet NaN of the target)"""
    out, body_ = [PRE], []
    for i, e in enumerate(NANS):
        for t, f in (('float', 'evf'), ('double', 'evd'), ('long double', 'evL')):
            if e[0] == '-' and (t == 'long double' or (t == 'float') != ('f' in e)):
                continue        # the conversion of a negative NaN
            out.append('static %s v%s%d = %s;' % (t, f, i, e))
            body_.append('%s(%d, v%s%d);' % (f, i, f, i))
    src = '\n'.join(out) + 'int main(void) { %s return 0; }' % ' '.join(body_)
    check_diff(ctx, 'nan', src, label=lambda i, g, w: 'the static NaN %s' % NANS[(w or g)[0]])
    src = PRE + 'static long double a = 1.0L / 3; int main(void) { evL(1, a); return 0; }'
    check_diff(ctx, 'ld', src, label=lambda i, g, w: "long double constant expressions are computed in the host's long double: static long double a = 1.0L / 3")


def fchain_program(r, n):
    """chains of conversions between the floating types in constants; literals that every long double holds exactly"""
    out, body_, d = [PRE], [], []
    T = ['float', 'double', 'long double']
    for i in range(n):
        bits = r.choice([24, 25, 26, 30, 53, 54, 55, 60, 62])
        m = r.getrandbits(bits) | 1 | 1 << (bits - 1)
        if r.random() < .5:     # near a tie of float or double
            keep = r.choice([24, 53])
            if bits > keep:
                m = (m >> (bits - keep) << (bits - keep)) | 1 << (bits - keep - 1) | r.choice([0, 0, 1])
        e = '0x%xp%d%s' % (m, r.randrange(-40, 20), r.choice(['L', 'L', 'L', '']))
        for _ in range(r.randrange(1, 4)):
            e = r.choice(['(%s)%s' % (r.choice(T), e), '(%s)%s' % (r.choice(T), e), '(1 ? %s : 0)' % e, '(- %s)' % e, '(%s)(- %s)' % (r.choice(T), e), '(%s)(0 ? 1 : %s)' % (r.choice(T), e)])
        t = r.choice(T)
        out.append('static %s v%d = %s;' % (t, i, e))
        body_.append('%s(%d, v%d);' % ({'float': 'evf', 'double': 'evd', 'long double': 'evL'}[t], i, i))
        out.append('static char c%d = (long double)(%s) == (double)(%s) ? 1 : 2;' % (i, e, e))
        body_.append('ev(%d, c%d);' % (i, i))
        d.append('%s = %s' % (t, e))
    return '\n'.join(out) + '\nint main(void) { %s return 0; }' % '\n'.join(body_), d


def bigaddr_program(r, n):
    """address constants with large offsets"""
    dims = [r.choice([3, 50, 127, 130, 260, 2047, 2049, 33000, 70000]) for _ in range(4)]
    out = [PRE, 'struct In { char pad[%d]; short h[4]; struct { char q[%d]; int z; } an; long l; };' % (dims[0], dims[1]),
           'struct Ou { char p[%d]; struct In in[3]; char q[%d]; struct { struct In k; }; double d; }; static struct Ou so, sa[3]; union { char c[9]; struct Ou o; } un;' % (dims[2], dims[3])]
    body_, d = [], []
    for i in range(n):
        path = r.choice(['so', 'sa[%d]' % r.randrange(3), 'un.o', '(*&so)', '(&sa[1])[-1]', '(sa + 2)[0]']) + \
            r.choice(['.d', '.q[1]', '.in[%d].l' % r.randrange(3), '.in[%d].an.z' % r.randrange(3), '.in[1].h[%d]' % r.randrange(4), '.k.an.q[2]', '.k.l', '.k', '.in[2]'])
        e = r.choice(['&%s', '(char *)&%s + 3', '(void *)((long)&%s - 5)', '1 ? &%s : 0', '&(&%s)[1]']) % path
        out.append('void *p%d = %s;' % (i, e))
        body_.append('{ char *b = %s; ev(%d, (char *)p%d - b); ev(%d, (void *)(%s) == p%d); }' % ('(char *)&un' if 'un' in path else '(char *)sa' if 'sa' in path else '(char *)&so', i, i, i, e, i))
        d.append(e)
    return '\n'.join(out) + '\nint main(void) { %s return 0; }' % '\n'.join(body_), d


def body(ctx):
    ctx.rule = ('An evaluation is one recorded event: the value a constant expression took in one context (static '
                'initializer, enumerator, case label, array bound, bit-field width, designator, _Alignas, #if, address '
                'constant) compared with the run-time semantics of the model. Distinct: context x type and operator.')
    ctx.assumptions = ['long double constants are compared only when exact in double (host long double precision)']
    jobs = [('const', i) for i in range(ctx.scale(250, 1200))] + [('pp', i) for i in range(ctx.scale(100, 600))] + \
           [('addr', i) for i in range(ctx.scale(12, 60))] + [('probe', 0)] + \
           [('fchain', i) for i in range(ctx.scale(10, 60))] + [('bigaddr', i) for i in range(ctx.scale(10, 60))]

    def one(j):
        if j[0] == 'probe':
            return probes(ctx)
        r = ctx.sub(*j)
        if j[0] in ('fchain', 'bigaddr'):
            src, d = (fchain_program if j[0] == 'fchain' else bigaddr_program)(r, 120 if j[0] == 'fchain' else 40)
            ctx.seen(j[0])
            return check_diff(ctx, '%s%d' % j, src, label=lambda i, g, w: 'the constant ' + d[(w or g)[0]])
        src, tr = {'const': const_program, 'pp': pp_program, 'addr': addr_program}[j[0]](ctx, r, 120)
        if tr.exp:
            ctx.sample({'job': str(j), 'example': tr.exp[-1][3]})
        check_program(ctx, '%s%d' % j, src, tr)
    ctx.pmap(one, jobs)


if __name__ == '__main__':
    main('C03', body)
