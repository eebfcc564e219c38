import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
from cmodel import *
from modelprog import *
from exprgen import *


BFOPS = ['%s > -1', '%s - 5 < 0', '-%s < 0', '~%s < 0', '(%s >> 31) + 0L', '(%s << 1) + 0L', '%s * -1L', '(%s * -1) / 2 + 0L', '%s / -2 + 0L', '%s %% -7 + 0L', '(1 ? %s : -1) > 0', '(%s & -1) < 0', '(%s | 1) - 3 < 0', '-1 < %s',
         '(%s ? : -1) - 9 < 0', '(%s + 0) - 9 < 0', '(0, %s) - 9 < 0', 'sizeof(+%s)', '(%s = 3) - 9 < 0', '(%s += 1) - 19 < 0', '%s++ - 29 < 0', '--%s - 39 < 0', '(double)(%s - 9)', '+%s - 50 < 0', '(long)-%s', '(long)~%s']


def bitfield_program(r):
    """promotion of bit-fields of every width up to int, at the boundary values"""
    out, body_, d = [PRE], [], []
    for base in ('int', 'unsigned', '_Bool', 'unsigned char', 'short', 'unsigned short'):
        top = {'_Bool': 1, 'unsigned char': 8, 'short': 16, 'unsigned short': 16}.get(base, 32)
        for w in sorted({1, 2, 7, 8, 15, 16, 30, 31, 32} & set(range(top + 1))):
            for e in r.sample(BFOPS, 13) if w < 31 else BFOPS:
                if w < 32 and ('= 3' in e or '+= 1' in e or '++' in e or '--' in e):
                    continue        # whether the value of an assignment to a bit-field has its width is not settled
                v = r.choice(['0', '1', '2', '3', '-1', '0x7fffffff', '0x80000000'])
                if base == 'int' and w > 30:
                    v = '2'
                x = 's->f'
                ex = e.replace('%%', '%') if '%%' in e else e
                ex = ex.replace('%s', x)
                ty = 'struct { %s f : %d; int g; }' % (base, w)
                body_.append('static void t%d(void) { %s q = { 0, 5 }, *s = &q; q.f = %s; ev(%d, %s); ev(%d, q.f); ev(%d, q.g); }' % (len(d), ty, v, len(d), ex, len(d), len(d)))
                d.append('%s f : %d = %s; %s' % (base, w, v, ex))
    return '\n'.join(out + body_) + '\nint main(void) { %s return 0; }' % ' '.join('t%d();' % i for i in range(len(d))), d


def body(ctx):
    ctx.rule = ('An evaluation is one recorded event (value, sizeof or signedness of an integer '
                'expression at run time) compared with the model; distinct cases are '
                '(operator, operand types) pairs and operator/context combinations that were executed.')
    ctx.assumptions = ['programs are free of undefined behaviour by construction (model-checked while generating)',
                       'a disagreement is reported only if riscv64 gcc -O0 agrees with the model']
    jobs = []
    npairs = ctx.scale(20, 80)
    for op in ALLBIN:
        jobs.append(('matrix', op, npairs))
        jobs.append(('imm', op, ctx.scale(3, 10)))
    for op in ASSIGNOPS:
        jobs.append(('assign', op, npairs))
    jobs.append(('unary', None, ctx.scale(20, 60)))
    for i in range(ctx.scale(200, 1500)):
        jobs.append(('random', i, None))

    for i in range(ctx.scale(3, 30)):
        jobs.append(('bitfield', i, None))

    def one(j):
        kind, a, n = j
        r = ctx.sub(kind, a)
        if kind == 'bitfield':
            src, d = bitfield_program(r)
            ctx.seen(*['bit-field ' + x.split(' =')[0] for x in d])
            return check_diff(ctx, 'bitfield%d' % a, src, label=lambda i, g, w: 'bit-field ' + d[(w or g)[0]])
        if kind == 'matrix':
            src, tr = matrix_program(ctx, r, a, INTS + [ENUM], n)
        elif kind == 'imm':
            src, tr = imm_program(ctx, r, a, INTS + [ENUM], n)
        elif kind == 'assign':
            src, tr = assign_program(ctx, r, a, INTS + [ENUM], n)
        elif kind == 'unary':
            src, tr = unary_program(ctx, r, INTS + [ENUM], n)
        else:
            src, tr = random_program(ctx, r, 0.0, 40, 5)
        ctx.sample({'job': str(j), 'example': tr.exp[-1][3] if tr.exp else ''})
        check_program(ctx, '%s%s' % (kind, ''.join(ch if ch.isalnum() else '_%x' % ord(ch) for ch in str(a))), src, tr)
    ctx.pmap(one, jobs)


if __name__ == '__main__':
    main('C01', body)
