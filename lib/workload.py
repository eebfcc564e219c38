"""Mixed workload for the checks about the compiler as a whole: programs of
every other check's generator, the repository's own tests, invalid inputs."""
import glob, importlib, os, sys
from vlib import *
import hostile
from exprgen import *
from cmodel import *

sys.path.insert(0, os.path.join(VERIF, 'checks'))


class Sink:
    """stands in for Ctx where a generator wants to record coverage"""
    def seen(self, *a): pass
    def bump(self, *a): pass


SINK = Sink()


_MODS = {n: importlib.import_module(n) for n in ('C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C17')}


def mod(n):
    return _MODS[n]


def valid(r, ld=True):
    """(kind, {file name: text}, options) of a random valid program, main file main.c;
    ld: may contain long double constants"""
    while True:
        k = r.randrange(14)
        args = []
        if k == 0:
            kind, s = 'integer expressions', random_program(SINK, r, 0.0, 12, 4)[0]
        elif k == 1:
            if not ld:
                continue
            kind, s = 'floating expressions', random_program(SINK, r, 0.5, 10, 4)[0]
        elif k == 2:
            kind, s = 'constants', mod('C03').const_program(SINK, r, 30)[0]
        elif k == 3:
            kind, s = 'control flow', mod('C04').program(r, set(), 5)
        elif k == 4:
            kind, s = 'layout', mod('C05').layout_program(SINK, r, 8)[0]
        elif k == 5:
            kind, s = 'declarators', mod('C05').declarator_program(SINK, r, 15)[0]
        elif k == 6:
            t = mod('C06').Prog(r, 4).texts()
            kind, s = 'calls', t[r.randrange(2)]
        elif k == 7:
            kind, s = 'initializers', mod('C07').program(SINK, r, 6)[0]
        elif k == 8:
            kind, s = 'flexible initializers', mod('C07').flex_program(SINK, r, 8)[0]
        elif k == 9:
            kind, s = 'stores', mod('C08').Prog(r).text()
        elif k == 10:
            f, args, _ = mod('C09').macro_case(SINK, r)
            yieldable = {'main.c': f['main.c'].replace('#line@', '#line')}
            return 'macros (-E)', yieldable, args + ['-E']
        elif k == 11:
            f, args, _ = mod('C09').include_case(SINK, r)
            return 'inclusion (-E)', {n: t.replace('#line@', '#line') for n, t in f.items()}, args + ['-E']
        elif k == 12:
            p = mod('C17').Seq(r)
            kind, s = 'atomics', p.text(8)
        else:
            kind, s = 'addresses', mod('C03').addr_program(SINK, r, 20)[0]
        if not ld and re.search(r'long double|\d[lL]\b.*\.|[0-9.]+[eEpP][-+]?\d+[lL]', s):
            continue
        if r.random() < .25:
            args = [r.choice(['-fpic', '-fno-common', '-fcommon'])]
        return kind, {'main.c': s}, args


def _lines():
    seeds = []
    for p in sorted(glob.glob(REPO + '/test/*.c')):
        with open(p, 'rb') as f:
            seeds.append(f.read())
    ls = [l for s in seeds for l in s.split(b'\n') if len(l) > 8]
    return [re.sub(rb'^\s*ASSERT\([^,]*,(.*)\);\s*$', rb'\1;', l) for l in ls], seeds


_LINES = _lines()


def invalid(r):
    """(kind, bytes): mostly, but not always, invalid inputs"""
    ls, seeds = _LINES
    q = r.random()
    if q < .4:
        return 'semantic', hostile.semantic(r)
    if q < .65:
        l = b'\n'.join(r.choice(ls) for _ in range(2))
        if r.random() < .8:
            l = hostile.mutate(r, l, ls)
        return 'corpus line', hostile.DECLS.encode() + b'int fn(int par, ...) {\n' + hostile.LOCALS.encode() + b'\n' + l + b'\n}\n'
    if q < .75:
        return 'corpus file', hostile.mutate(r, r.choice(seeds), seeds)
    if q < .9:
        return 'preprocessor', hostile.ppfile(r)
    return 'lexical', hostile.lexical(r)


def put(d, files):
    for n, t in files.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(t if isinstance(t, bytes) else t.encode('utf8', 'surrogateescape'))
    for s in ('i1', 'i2', 'i3', 'sub', 'i1/sub', 'i2/sub', 'i3/sub'):
        os.makedirs(os.path.join(d, s), exist_ok=True)
