"""Programs exercising expressions, with the trace the model expects."""
from vlib import *
from cmodel import *
from modelprog import *

ALLBIN = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '<', '<=', '>', '>=', '==', '!=', '&&', '||']
ASSIGNOPS = ['=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=', '++x', 'x++', '--x', 'x--']


def val(r, t, lit=False):
    return flt_interesting(r, t) if t.isf else interesting(r, t)


def pairs(r, op, t1, t2, n, f):
    """n operand pairs for which f(v1, v2) is defined"""
    out = []
    for _ in range(n * 6):
        if len(out) >= n:
            break
        a = val(r, t1)
        if op in ('<<', '>>', '<<=', '>>=') and not t1.isf and not t2.isf and r.random() < .85:
            b = wrap(r.choice([0, 1, 5, 7, 8, 15, 16, 31, 32, 33, 63, r.randrange(64)]), t2)
        elif r.random() < .15 and not t1.isf and not t2.isf:
            b = wrap(a + r.choice([-1, 0, 1]), t2)
        elif r.random() < .15 and t1.isf and t2.isf:
            b = fconv(a, t2)
        else:
            b = val(r, t2)
        x = f(a, b)
        if x is not None:
            out.append((a, b, x))
    return out


def signtest(e):
    return '(typeof(%s))-1 < (typeof(%s))0' % (e, e)


def arr(t, name, vs):
    return 'static %s %s[] = { %s };' % (t.name, name, ', '.join(ctext(v, t) for v in vs))


def matrix_program(ctx, r, op, types, n):
    tr = Trace()
    out = [PRE]
    calls = []
    k = 0
    for t1 in types:
        for t2 in types:
            ps = pairs(r, op, t1, t2, n, lambda a, b: binop(op, a, t1, b, t2))
            if not ps:
                continue
            rt = ps[0][2][1]
            k += 1
            id = tr.new()
            out.append(arr(t1, 'a%d' % k, [p[0] for p in ps]))
            out.append(arr(t2, 'b%d' % k, [p[1] for p in ps]))
            # operands from memory and from locals in turn
            ev1 = emit('a%d[i] %s b%d[i]' % (k, op, k), id, rt)
            ev2 = emit('x %s y' % op, id, rt)
            out.append('static void f%d(void) { for (int i = 0; i < %d; i++) { %s x = a%d[i]; %s y = b%d[i]; %s %s } '
                       'ev(%d, sizeof(a%d[0] %s b%d[0])); ev(%d, %s); }' % (
                           k, len(ps), t1.name, k, t2.name, k, ev1, ev2,
                           id, k, op, k, id, signtest('a%d[0] %s b%d[0]' % (k, op, k))))
            calls.append('f%d();' % k)
            for a, b, x in ps:
                d = '(%s)%s %s (%s)%s' % (t1, a, op, t2, b)
                tr.add(id, x[0], d, x[1])
                tr.add(id, x[0], d + ' [locals]', x[1])
            tr.add(id, rt.size, 'sizeof(%s %s %s)' % (t1, op, t2))
            tr.add(id, int(rt.signed), 'signedness of %s %s %s' % (t1, op, t2))
            ctx.seen('%s %s %s' % (t1, op, t2))
    out.append('int main(void) { %s return 0; }' % ' '.join(calls))
    return '\n'.join(out), tr


def imm_program(ctx, r, op, types, n):
    """one operand is a constant, the other a variable; and both constant"""
    tr = Trace()
    out = [PRE]
    calls = []
    k = 0
    for t1 in types:
        for t2 in types:
            ps = pairs(r, op, t1, t2, n, lambda a, b: binop(op, a, t1, b, t2))
            body = []
            for a, b, x in ps:
                id = tr.new()
                ca = '((%s)%s)' % (t1.name, ctext(a, t1))
                cb = '((%s)%s)' % (t2.name, ctext(b, t2))
                d = '(%s)%s %s (%s)%s' % (t1, a, op, t2, b)
                body.append('{ %s x = %s; %s y = %s;' % (t1.name, ca, t2.name, cb))
                body.append(emit('x %s %s' % (op, cb), id, x[1]))
                body.append(emit('%s %s y' % (ca, op), id, x[1]))
                body.append(emit('%s %s %s' % (ca, op, cb), id, x[1]))
                body.append('ev(%d, x %s %s ? 11 : 22); }' % (id, op, cb))
                tr.add(id, x[0], d + ' [const rhs]', x[1])
                tr.add(id, x[0], d + ' [const lhs]', x[1])
                tr.add(id, x[0], d + ' [const]', x[1])
                tr.add(id, 11 if truth(x[0], x[1]) else 22, d + ' [condition]')
            k += 1
            out.append('static void f%d(void) { %s }' % (k, '\n'.join(body)))
            calls.append('f%d();' % k)
            ctx.seen('imm %s %s %s' % (t1, op, t2))
    out.append('int main(void) { %s return 0; }' % ' '.join(calls))
    return '\n'.join(out), tr


def assign_program(ctx, r, op, types, n):
    tr = Trace()
    out = [PRE, 'struct G { char p; %s char q; };' % ' '.join('%s m%d;' % (t.name, i) for i, t in enumerate(types))]
    calls = []
    k = 0
    unary = op[0] == 'x' or op[-1] == 'x'
    for i1, t1 in enumerate(types):
        for t2 in (types if not unary else [INT]):
            def f(a, b):
                if op == '=':
                    n = conv(b, t2, t1)
                    return None if n is None else (n, n)
                o = {'++x': '+', 'x++': '+', '--x': '-', 'x--': '-'}.get(op, op[:-1])
                if unary:
                    x = binop(o, a, t1, 1, INT)
                else:
                    x = binop(o, a, t1, b, t2)
                if x is None:
                    return None
                n = conv(x[0], x[1], t1)
                if n is None:
                    return None
                return (a if op[0] == 'x' else n), n
            ps = pairs(r, op, t1, t2, n, f)
            if not ps:
                continue
            k += 1
            id = tr.new()
            out.append(arr(t1, 'a%d' % k, [p[0] for p in ps]))
            out.append(arr(t2, 'b%d' % k, [p[1] for p in ps]))

            def ex(x):
                return op.replace('x', x) if unary else '%s %s b%d[i]' % (x, op, k)
            out.append('static void f%d(void) { for (int i = 0; i < %d; i++) { %s x = a%d[i]; struct G g; memset(&g, 0, sizeof g); '
                       'g.p = g.q = 0x55; struct G *p = &g; p->m%d = a%d[i]; %s %s ev(%d, g.p + g.q); %s %s %s %s %s } '
                       'ev(%d, sizeof(%s)); }' % (
                           k, len(ps), t1.name, k, i1, k,
                           emit(ex('x'), id, t1), emit('x', id, t1), id,
                           emit(ex('p->m%d' % i1), id, t1), emit('g.m%d' % i1, id, t1),
                           emit(ex('a%d[i]' % k), id, t1), emit('a%d[i]' % k, id, t1),
                           'ev(%d, g.p + g.q);' % id,
                           id, ex('a%d[0]' % k).replace('[i]', '[0]')))
            calls.append('f%d();' % k)
            for a, b, x in ps:
                d = '(%s)%s %s (%s)%s' % (t1, a, op, t2, b)
                tr.add(id, x[0], d + ' value', t1)
                tr.add(id, x[1], d + ' stored', t1)
                tr.add(id, 0xaa, d + ' neighbours')
                tr.add(id, x[0], d + ' member value', t1)
                tr.add(id, x[1], d + ' member stored', t1)
                tr.add(id, x[0], d + ' element value', t1)
                tr.add(id, x[1], d + ' element stored', t1)
                tr.add(id, 0xaa, d + ' neighbours')
            tr.add(id, t1.size, 'sizeof(%s %s %s)' % (t1, op, t2))
            ctx.seen('%s %s %s' % (t1, op, t2))
    out.append('int main(void) { %s return 0; }' % ' '.join(calls))
    return '\n'.join(out), tr


def unary_program(ctx, r, types, n, casts_to=None):
    tr = Trace()
    out = [PRE]
    calls = []
    k = 0
    ops = ['-', '+', '~', '!', '!!', '- -', '~~', 'if', '?', 'while', '&&1']
    ops += ['cast:%d' % i for i in range(len(types))]
    ops += ['ret:%d' % i for i in range(len(types))]
    ops += ['arg:%d' % i for i in range(len(types))]
    for i in range(len(types)):
        out.append('static %s id%d(%s x) { return x; }' % (types[i].name, i, types[i].name))
    for t in types:
        for op in ops:
            tgt = types[int(op[op.index(':') + 1:])] if ':' in op else None

            def f(a, b):
                if tgt is not None:
                    v = conv(a, t, tgt)
                    return None if v is None else (v, tgt)
                if op in ('if', '?', 'while', '&&1', '!!'):
                    return int(truth(a, t)), INT
                if op in ('- -', '~~'):
                    x = unop(op[0], a, t)
                    return x and unop(op[0], x[0], x[1])
                return unop(op, a, t)
            ps = pairs(r, op, t, INT, n if tgt is None else max(6, n // 2), f)
            if not ps:
                continue
            k += 1
            id = tr.new()
            out.append(arr(t, 'a%d' % k, [p[0] for p in ps]))
            rt = ps[0][2][1]
            x = 'a%d[i]' % k
            if op == 'if':
                st = 'if (%s) ev(%d, 1); else ev(%d, 0);' % (x, id, id)
            elif op == '?':
                st = 'ev(%d, %s ? 1 : 0);' % (id, x)
            elif op == 'while':
                st = '{ int z = 0; while (%s) { z++; break; } ev(%d, z); }' % (x, id)
            elif op == '&&1':
                st = 'ev(%d, %s && 1);' % (id, x)
            elif op.startswith('cast'):
                st = emit('(%s)%s' % (tgt.name, x), id, tgt)
            elif op.startswith('arg'):
                st = emit('id%d(%s)' % (types.index(tgt), x), id, tgt)
            elif op.startswith('ret'):
                out.append('static %s r%d(%s v) { return v; }' % (tgt.name, k, t.name))
                st = emit('r%d(%s)' % (k, x), id, tgt)
            else:
                st = emit(op + x, id, rt)
            out.append('static void f%d(void) { for (int i = 0; i < %d; i++) { %s } }' % (k, len(ps), st))
            calls.append('f%d();' % k)
            for a, b, xx in ps:
                tr.add(id, xx[0], '%s applied to (%s)%s' % (op if tgt is None else op.split(':')[0] + ' ' + tgt.name, t, a), xx[1])
            ctx.seen('%s %s' % (op if tgt is None else op.split(':')[0] + tgt.name, t))
    out.append('int main(void) { %s return 0; }' % ' '.join(calls))
    return '\n'.join(out), tr


def bf_widths(r):
    t = r.choice([INT, UINT, SHORT, USHORT, CHAR, UCHAR, BOOL, LONG, ULONG])
    if t is BOOL:
        w = 1
    else:
        w = r.randrange(1, min(t.bits, 31) + 1)
    return t, w


def random_program(ctx, r, floats, nfun, depth, const_pool=False):
    """Functions evaluating random expressions over globals, locals,
    parameters, members, bit-fields, elements and dereferences."""
    tr = Trace()
    out = [PRE]
    glob = []
    G = Gen(r, floats)
    for i in range(14):
        t = G.anytype()
        v = val(r, t)
        st = r.choice(['', 'static ', 'volatile ', 'const '])
        out.append('%s%s g%d = %s;' % (st, t.name, i, ctext(v, t)))
        glob.append(E('g%d' % i, P_PRIM, t, v))
    for i in range(4):
        t = G.anytype()
        n = r.randrange(2, 6)
        vs = [val(r, t) for _ in range(n)]
        out.append('%s h%d[%d] = { %s };' % (t.name, i, n, ', '.join(ctext(v, t) for v in vs)))
        j = r.randrange(n)
        glob.append(E('h%d[%d]' % (i, j), P_POST, t, vs[j]))
        j = r.randrange(n)
        glob.append(E('*(h%d + %d)' % (i, j), P_UNARY, t, vs[j]))
        j = r.randrange(n)
        glob.append(E('%d[h%d]' % (j, i), P_POST, t, vs[j]))
    ms, init = [], []
    for i in range(10):
        if r.random() < .5:
            t, w = bf_widths(r)
            v = r.getrandbits(w)
            if t.signed and t.kind != 'b' and v >> (w - 1):
                v -= 1 << w
            ms.append('%s b%d : %d;' % (t.name, i, w))
            init.append('.b%d = %d' % (i, v))
            if t.kind == 'b' or t.size < 4 or t.signed or w < 32:
                pt = INT
            else:
                pt = UINT
            # bit-fields of long keep an implementation-defined type: read through a cast
            if t.size == 8:
                glob.append(E('(%s)s.b%d' % (t.name, i), P_UNARY, t, v))
            else:
                glob.append(E('s.b%d' % i, P_POST, pt, v, False, True))
                glob.append(E('sp->b%d' % i, P_POST, pt, v, False, True))
        else:
            t = G.anytype()
            v = val(r, t)
            ms.append('%s b%d;' % (t.name, i))
            init.append('.b%d = %s' % (i, ctext(v, t)))
            glob.append(E(r.choice(['s.b%d', 'sp->b%d', '(*sp).b%d']) % i, P_POST, t, v))
    out.append('struct S { %s } s = { %s }, *sp = &s;' % (' '.join(ms), ', '.join(init)))
    glob.append(E('E_NEG', P_PRIM, INT, -5, True))
    glob.append(E('E_B', P_PRIM, INT, 7, True))
    out.append('enum E ge = E_NEG;')
    glob.append(E('ge', P_PRIM, ENUM, -5))
    calls = []
    for k in range(nfun):
        loc = []
        params, args = [], []
        for i in range(r.randrange(0, 5)):
            t = G.anytype()
            v = val(r, t)
            params.append('%s p%d' % (t.name, i))
            args.append(ctext(v, t))
            loc.append(E('p%d' % i, P_PRIM, t, v))
        decl = []
        for i in range(r.randrange(1, 5)):
            t = G.anytype()
            v = val(r, t)
            decl.append('%s%s l%d = %s;' % (r.choice(['', '', 'register ', 'static ']), t.name, i, ctext(v, t)))
            loc.append(E('l%d' % i, P_PRIM, t, v))
        G.vars = r.sample(glob, 8) + loc * 2
        body = []
        for q in range(r.randrange(2, 6)):
            G.mut = []
            for i in range(3):
                t = G.anytype()
                v = val(r, t)
                nm = 'm%d_%d' % (q, i)
                decl.append('%s %s = %s;' % (t.name, nm, ctext(v, t)))
                G.mut.append([nm, t, v])
            e = G.expr(r.randrange(2, depth + 1))
            id = tr.new()
            ctxk = r.randrange(9)
            t2 = G.anytype()
            v2 = conv(e.v, e.t, t2)
            if v2 is None or (e.bf and ctxk == 7):
                ctxk = 0
            d = e.s
            if len(d) > 400:
                d = d[:400] + '...'
            if ctxk == 1:
                body.append('{ %s v = %s; %s }' % (t2.name, G.paren(e, P_ASSIGN), emit('v', id, t2)))
                tr.add(id, v2, '%s v = %s' % (t2, d), t2)
            elif ctxk == 2:
                body.append('if (%s) ev(%d, 1); else ev(%d, 0);' % (e.s, id, id))
                tr.add(id, int(truth(e.v, e.t)), 'if (%s)' % d)
            elif ctxk == 3:
                body.append('ev(%d, %s ? 3 : 4);' % (id, G.paren(e, P_LOR)))
                tr.add(id, 3 if truth(e.v, e.t) else 4, d + ' ? 3 : 4')
            elif ctxk == 4:
                nm = 'arg%d_%d' % (k, q)
                out.append('static void %s(int z, %s v, int w) { %s ev(%d, z + w); }' % (nm, t2.name, emit('v', id, t2), id))
                body.append('%s(3, %s, 4);' % (nm, G.paren(e, P_ASSIGN)))
                tr.add(id, v2, 'argument %s: %s' % (t2, d), t2)
                tr.add(id, 7, 'neighbouring arguments')
            elif ctxk == 5:
                body.append('{ struct { %s x, y; char c; } v = {0}; v.y = %s; %s }' % (
                    t2.name, G.paren(e, P_ASSIGN), emit('v.y', id, t2)))
                tr.add(id, v2, 'member %s = %s' % (t2, d), t2)
            elif ctxk == 6:
                body.append('{ %s v = 0; %s %s }' % (t2.name, emit('v = ' + G.paren(e, P_ASSIGN), id, t2), emit('v', id, t2)))
                tr.add(id, v2, '(%s v = %s)' % (t2, d), t2)
                tr.add(id, v2, '(%s v = %s), v' % (t2, d), t2)
            elif ctxk == 7:
                body.append('ev(%d, !(%s)); ev(%d, sizeof(%s));' % (id, e.s, id, e.s))
                tr.add(id, int(not truth(e.v, e.t)), '!(%s)' % d)
                tr.add(id, e.t.size, 'sizeof(%s)' % d)
            else:
                body.append(emit(G.paren(e, P_ASSIGN), id, e.t))
                tr.add(id, e.v, d, e.t)
                if not e.t.isf and not e.bf:
                    body.append('ev(%d, %s);' % (id, signtest(e.s)))
                    tr.add(id, int(e.t.signed), 'signedness of ' + d)
        out.append('static void fn%d(%s) { %s %s }' % (k, ', '.join(params) or 'void', ' '.join(decl), '\n\t'.join(body)))
        calls.append('fn%d(%s);' % (k, ', '.join(args)))
    out.append('int main(void) { %s return 0; }' % ' '.join(calls))
    for o, c in G.ops.items():
        ctx.seen('random ' + o)
    ctx.bump('operators_in_random_expressions', sum(G.ops.values()))
    return '\n'.join(out), tr


def x87(v):
    """can be written as a literal: the host reads it into its long double"""
    return v.k != 'fin' or v.m == 0 or (v.m.numerator.bit_length() <= 64 and (v.m * 2 ** 16445).denominator == 1)


def tight(r, s, t):
    """A value of type s whose conversion to t is delicate: next to a midpoint
    between two values of t (where rounding twice, through a wider format,
    goes wrong), next to the limits of t, or tiny."""
    ps = 64 if s is LDOUBLE else FMT[s.name][0] if s.isf else s.bits - s.signed
    if t.isf:
        p = FMT[t.name][0]
        k = r.random()
        m = r.getrandbits(p) | 1 << (p - 1)
        if k < .15:
            m = (1 << p) - r.choice([1, 2])
        elif k < .3:
            m = (1 << (p - 1)) + r.choice([0, 1])
        q = r.choice([p + 1, min(54, ps - 1), ps - 1])
        # mantissa, half a unit, and a stray bit below or above
        n = ps - p
        if n < 2:
            x = m
        else:
            x = (m << n) + (r.choice([0, 1, 1, 1]) << (n - 1)) + r.choice([0, 0, 1, -1, 1 << r.randrange(n), -(1 << r.randrange(n))])
        x &= (1 << ps) - 1
        if s.isf:
            lo = FMT[t.name][1]
            e = r.choice([0, 0, -ps, r.randrange(-20, 20), lo - r.randrange(0, 4) - n if n > 0 else lo, lo + r.randrange(0, 40) - ps,
                          FMT[t.name][2] - ps, FMT[t.name][2] - ps - 1])
            v = fround(Fraction(x) * Fraction(2) ** e, s)
            if s is LDOUBLE and not x87(v):
                return None
            if r.random() < .4:
                v = FP(v.k, True, v.m)
            return v
        x >>= r.choice([0, 0, 0, 1, 2, r.randrange(ps)])
        if s.signed and r.random() < .4:
            x = -x
        return x if s.lo <= x <= s.hi else None
    if not s.isf:
        return wrap(r.choice([t.lo, t.hi, 0]) + r.randrange(-3, 4), s)
    base = Fraction(r.choice([t.lo, t.hi, 0, 1, 1 << r.randrange(1, 64), -(1 << r.randrange(1, 64)), t.hi + 1]))
    x = base + r.choice([Fraction(0), Fraction(1, 2), Fraction(-1, 2), Fraction(1), Fraction(-1), Fraction(3, 4), Fraction(-3, 4),
                         Fraction(1, 1 << r.randrange(1, 60)), -Fraction(1, 1 << r.randrange(1, 60)),
                         r.choice([-1, 1]) * Fraction(2) ** FMT[s.name][1]])
    if base and r.random() < .5:
        # the neighbour of the limit in the source type
        e = ilog2(abs(base)) - (ps - 1)
        x = base + r.choice([-1, 1]) * Fraction(2) ** (e - r.choice([0, 1]))
    v = fround(x, s)
    if s is LDOUBLE and not x87(v):
        return None
    return v


def conv_program(ctx, r, types, n):
    """every conversion between two types, on delicate values, at run time
    (from memory, through a local, as an argument) and in static initializers"""
    tr = Trace()
    out = [PRE]
    calls = []
    k = 0
    for s in types:
        for t in types:
            if not s.isf and not t.isf:
                continue
            vs = []
            for _ in range(n * 5):
                v = tight(r, s, t)
                if v is None or len(vs) >= n:
                    continue
                x = conv(v, s, t)
                if x is None or (s.isf and v.k != 'fin'):
                    continue
                vs.append((v, x))
            if not vs:
                continue
            k += 1
            id = tr.new()
            out.append(arr(s, 'a%d' % k, [v for v, _ in vs]))
            out.append('static %s c%d[] = { %s };' % (t.name, k, ', '.join('(%s)%s' % (t.name, ctext(v, s)) for v, _ in vs)))
            out.append('static %s d%d[] = { %s };' % (t.name, k, ', '.join('(%s)%s' % (s.name, ctext(v, s)) for v, _ in vs)))
            out.append('static void g%d(%s v) { %s }' % (k, t.name, emit('v', id, t)))
            out.append('static void f%d(void) { for (int i = 0; i < %d; i++) { %s x = a%d[i]; %s y = x; %s %s %s %s g%d(a%d[i]); g%d(x); } }' % (
                k, len(vs), s.name, k, t.name, emit('(%s)a%d[i]' % (t.name, k), id, t), emit('y', id, t),
                emit('c%d[i]' % k, id, t), emit('d%d[i]' % k, id, t), k, k, k))
            calls.append('f%d();' % k)
            for v, x in vs:
                for w in ('cast', 'assigned', 'static initializer, cast', 'static initializer', 'argument', 'argument'):
                    tr.add(id, x, '(%s)(%s)%s, %s' % (t, s, v, w), t)
            ctx.seen('conversion %s to %s' % (s, t))
    out.append('int main(void) { %s return 0; }' % ' '.join(calls))
    return '\n'.join(out), tr
