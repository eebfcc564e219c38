"""Predefined macros: their expansion, token by token, against the platform compiler's."""
import os, re
from vlib import *

NAMES = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'predef.txt')).read().split()
TYPES = [n for n in NAMES if re.search(r'FLT|DBL|_MAX|_MIN|_WIDTH|SIZEOF|ORDER|_TYPE|CHAR|EXP|_DIG|C_SUFFIX|WCHAR|_C$', n)]


def compare(ctx, names):
    src = ''.join('#ifdef %s\nq%s %s\n#else\nq%s (not defined)\n#endif\n' % (n, n, n, n) for n in names).encode()
    outs = []
    for cmd in ([ctx.toycc(), '-E', '-'], [RVGCC, '-std=gnu11', '-fsigned-char', '-march=rv64g', '-mabi=lp64d', '-E', '-P', '-']):
        r = run(cmd, 60, inp=src)
        outs.append((r, {l.split()[0]: re.sub(r'\s+', '', ' '.join(l.split()[1:])) for l in txt(r.out).splitlines() if l.startswith('q')}))
    (r, got), (_, want) = outs
    for n in names:
        if 'q' + n not in want:
            continue
        ctx.count()
        if got.get('q' + n) != want['q' + n]:
            ctx.violate('predefined macro %s is %s, expected %s' % (n, got.get('q' + n), want['q' + n]), 'toycc -E status %s\n%s' % (r.rc, txt(r.err)[:500]))
        else:
            ctx.seen('predefined ' + n)
