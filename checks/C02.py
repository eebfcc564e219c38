import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
from cmodel import *
from modelprog import *
from exprgen import *


def lit_program(ctx, r, n):
    """decimal literals are rounded once, to the type of the literal"""
    tr = Trace()
    out = [PRE, 'int main(void) {']
    for _ in range(n):
        t = r.choice([FLOAT, DOUBLE])
        k = r.random()
        if k < .5:
            digs = ''.join(r.choice('0123456789') for _ in range(r.randrange(1, 24)))
            e = r.randrange(-30, 30)
        elif k < .7:
            # close to a midpoint between two adjacent values
            p = FMT[t.name][0]
            m = (r.getrandbits(p) | 1 << (p - 1)) * 2 + 1
            e2 = r.randrange(-60, 20)
            fr = Fraction(m) * Fraction(2) ** e2
            s = decfloat(fr)
            if r.random() < .5:
                s += '1' if '.' in s else '.01'
            digs, e = s, None
        else:
            digs = '%d.%d' % (r.randrange(100), r.getrandbits(40))
            e = r.choice([None, r.randrange(-300, 300) if t is DOUBLE else r.randrange(-40, 38)])
        s = digs + ('' if e is None else '%s%s%d' % (r.choice('eE'), r.choice(['', '+']) if e >= 0 else '', e))
        if '.' not in s and 'e' not in s and 'E' not in s:
            s += '.'
        v = fround(Fraction(s if not s.endswith('.') else s + '0'), t)
        if v.k != 'fin':
            continue
        id = tr.new()
        lit = s + ('f' if t is FLOAT else '')
        out.append(emit(lit, id, t) + 'ev(%d, sizeof(%s));' % (id, lit))
        tr.add(id, v, 'literal ' + lit, t)
        tr.add(id, t.size, 'sizeof ' + lit)
        ctx.seen('literal digits %d %s' % (min(len(digs), 20), t))
    out.append('return 0; }')
    return '\n'.join(out), tr


def body(ctx):
    ctx.rule = ('An evaluation is one recorded event (bit pattern of a floating result, or integer result of a '
                'conversion or comparison) compared with an exact rational model rounded to binary32/64/128; '
                'distinct cases are (operator, operand types) combinations and literal shapes.')
    ctx.assumptions = ['default rounding mode; NaN payloads are not compared',
                       'long double literals are limited to 64 significant bits (host long double)',
                       'conversions out of range are not generated']
    types = FLTS + [BOOL, CHAR, UCHAR, SHORT, USHORT, INT, UINT, LONG, ULONG, LLONG, ULLONG, ENUM]
    jobs = []
    n = ctx.scale(16, 60)
    for op in ['+', '-', '*', '/', '<', '<=', '>', '>=', '==', '!=', '&&', '||']:
        for t in FLTS:
            jobs.append(('matrix', op, t))
        jobs.append(('imm', op, None))
    for op in ['=', '+=', '-=', '*=', '/=', '++x', 'x++', '--x', 'x--']:
        jobs.append(('assign', op, None))
    jobs.append(('unary', None, None))
    jobs.append(('probe', None, None))
    for i in range(ctx.scale(8, 60)):
        jobs.append(('lit', i, None))
    for i in range(ctx.scale(6, 60)):
        jobs.append(('conv', i, None))
    for i in range(ctx.scale(120, 1000)):
        jobs.append(('random', i, None))

    def one(j):
        kind, a, b = j
        if kind == 'probe':
            src = PRE + 'int main(void) { evL(1, 0.1L); return 0; }'
            return check_diff(ctx, 'ld', src, label=lambda i, g, w: "long double literals are rounded to the host's long double: 0.1L")
        r = ctx.sub(kind, a, b)
        if kind == 'matrix':
            others = types if b is LDOUBLE else [t for t in types if not t.isf or t.rank <= b.rank]
            src, tr = matrix_program(ctx, r, a, [b] + [t for t in others if t is not b], n)
        elif kind == 'imm':
            src, tr = imm_program(ctx, r, a, FLTS + [INT, ULONG, BOOL, UCHAR], ctx.scale(6, 20))
        elif kind == 'assign':
            src, tr = assign_program(ctx, r, a, types, ctx.scale(8, 30))
        elif kind == 'unary':
            src, tr = unary_program(ctx, r, types, ctx.scale(40, 120))
        elif kind == 'lit':
            src, tr = lit_program(ctx, r, 400)
        elif kind == 'conv':
            src, tr = conv_program(ctx, r, types, ctx.scale(24, 40))
        else:
            src, tr = random_program(ctx, r, 0.6, 30, 5)
        ctx.sample({'job': str(j), 'example': tr.exp[-1][3] if tr.exp else ''})
        check_program(ctx, '%s%s' % (kind, ''.join(ch if ch.isalnum() else '_%x' % ord(ch) for ch in str(a))), src, tr)
    ctx.pmap(one, jobs)


if __name__ == '__main__':
    main('C02', body)
