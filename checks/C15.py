import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
import workload, glob
from C12 import first_diff

INC = ['-I' + os.path.join(REPO, x) for x in ('', 'parser', 'preprocessor')]


def bootstrap(ctx):
    """toycc compiled by toycc from the working tree; returns the command that runs it"""
    host = ctx.toycc()
    d = os.path.dirname(host)
    w = ctx.uniq('boot')

    def one(s):
        o = os.path.join(w, s.replace('/', '_')[:-2] + '.o')
        return s, o, run([host, '-DDEBUG', *INC, '-c', '-o', o, os.path.join(REPO, s)], 120, cwd=w)
    objs = []
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        for s, o, r in ex.map(one, sources()):
            if r.rc != 0:
                ctx.violate('toycc does not compile its own source ' + s, txt(r.err)[:3000])
                return None
            objs.append(o)
    exe = os.path.join(d, 'toycc-stage2')
    r = run([host, '-static', '-o', exe, *objs], 120, cwd=w)
    if r.rc != 0:
        ctx.violate('toycc cannot link itself', txt(r.err)[:3000])
        return None
    # the compiler starts itself again through argv[0]
    wrap = os.path.join(d, 'stage2')
    with open(wrap, 'w') as f:
        f.write('#!/bin/bash\nexec qemu-riscv64 -0 "$0" "$(dirname "$0")/toycc-stage2" "$@"\n')
    os.chmod(wrap, 0o755)
    return wrap


def once(cc, d, cmd, outs, timeout):
    for o in outs:
        if os.path.exists(os.path.join(d, o)):
            os.unlink(os.path.join(d, o))
    x = run([cc] + cmd, timeout, cwd=d, retry=False, mem_mb=4000)
    if x.timed_out:
        return None
    res = [x.rc, x.out, x.err]
    for o in outs:
        p = os.path.join(d, o)
        res.append(open(p, 'rb').read() if os.path.exists(p) else None)
    return res


def job(ctx, cc2, q):
    r = ctx.sub('input', q)
    corpus = sorted(glob.glob(REPO + '/test/*.c'))
    nc = len(corpus)
    hs = {}
    if q < nc:
        p = corpus[q]
        kind, args = 'test ' + os.path.basename(p), []
        files = {'main.c': open(p, 'rb').read()}
        hs = {os.path.basename(h): open(h, 'rb').read() for h in glob.glob(REPO + '/test/*.h')}
    elif q < nc + len(sources()):
        s = sources()[q - nc]
        kind, args = 'own source ' + s, INC + ['-I' + os.path.join(REPO, 'test')]
        files = {'main.c': open(os.path.join(REPO, s), 'rb').read()}
    elif r.random() < .6:
        kind, files, args = workload.valid(r, ld=False)
    else:
        kind, data = workload.invalid(r)
        files, args = {'main.c': data}, ['-I' + os.path.join(REPO, 'test')]
        hs = {os.path.basename(h): open(h, 'rb').read() for h in glob.glob(REPO + '/test/include*.h')}
    enc = lambda t: t if isinstance(t, bytes) else t.encode('utf8', 'surrogateescape')
    files = {n: re.sub(rb'__(DATE|TIME|TIMESTAMP)__', b'"date"', enc(t)) for n, t in files.items()}
    d = ctx.uniq('w')
    workload.put(d, dict(files, **hs))
    mode = '-E' if '-E' in args else r.choice(['-S'] * 8 + ['-E', '-M', '-MD'])
    if kind.startswith(('test', 'own')):
        mode = '-S'
    args = [a for a in args if a != '-E']
    outs = ['out.x']
    if mode == '-MD':
        opt = ['-S', '-MD', '-MF', 'dep.d', '-MT', 'T']
        outs.append('dep.d')
    else:
        opt = [mode]
    cmd = [*opt, '-o', 'out.x', *args, 'main.c']
    try:
        t0 = time.time()
        a = once(ctx.toycc(), d, cmd, outs, 5)
        t1 = time.time() - t0
        if a is None or (isinstance(a[0], int) and a[0] not in (0, 1)):
            ctx.bump('skipped (resources)')
            return
        b = once(cc2, d, cmd, outs, 150)
        if b is None:
            if t1 < .3:
                ctx.violate('the self-compiled compiler does not terminate', 'input %s\ncommand %s' % (kind, cmd), {'input-' + n.replace('/', '_'): t for n, t in files.items()})
            else:
                ctx.inconcl('stage 2 timed out on ' + kind)
            return
        ctx.count()
        ctx.bump('bytes of output compared', sum(len(x) for x in a[1:] if x))
        ctx.seen('%s %s %s' % (kind.split(' ')[0], mode, a[0]))
        if a[0]:
            m = re.search(r'\^ (.*)', txt(a[2]))
            ctx.seen('diagnostic ' + (re.sub(r"'.*?'|\d+|:.*", '', m[1])[:60] if m else ''))
        if a == b:
            ctx.sample({'input': kind, 'mode': mode, 'status': a[0], 'bytes': len(a[3] or b'')})
            return
        if a[0] == b[0] == 0 and ld_only(a, b, files):
            ctx.bump('differs in long double constants only')
            return
        what, dd = first_diff(a, b)
        if a[0] == b[0] == 1 and a[3:] == b[3:] and both_operands(a[2], b[2]):
            ctx.bump('the other operand of the same expression reported')
            return
        if what == 'status':
            dd += '\n' + txt(b[2])[-300:]
        ctx.violate('the two stages differ in %s' % what, 'input %s\ncommand %s\n(host build / self-compiled) %s' % (kind, cmd, dd),
                    {'input-' + n.replace('/', '_'): t for n, t in files.items()})
    finally:
        shutil.rmtree(d, ignore_errors=True)


def both_operands(a, b):
    """C leaves open which of two invalid operands of one expression is found first"""
    a, b = txt(a).splitlines(), txt(b).splitlines()
    return len(a) == len(b) and all(x.strip() == y.strip() for x, y in zip(a, b))


def ld_only(a, b, files):
    """long double constants hold more digits on the target than on the host (recorded exclusion)"""
    t = b' '.join(files.values())
    if not re.search(rb'[0-9][lL]\b|long double|LDBL', t):
        return False
    la, lb = (a[3] or b'').split(b'\n'), (b[3] or b'').split(b'\n')
    if len(la) != len(lb) or a[1:3] != b[1:3] or a[4:] != b[4:]:
        return False
    diff = [(x, y) for x, y in zip(la, lb) if x != y]
    pat = rb'\s*(li\s+\w+,\s*|\.(byte|quad|dword)\s+)(0x)?[-0-9a-f]+(\s*#.*)?$'
    return len(diff) <= 64 and all(re.match(pat, x) and re.match(pat, y) for x, y in diff)


PROBES = [
    # (name, text, key of a known finding or None)
    ('nan', 'double a = 0.0 / 0.0, b = 1e308 * 10 - 1e308 * 10; float c = 0.0f / 0.0f, d = (float)(0.0 / 0.0); long double e = 0.0L / 0.0L; int f = 0.0 / 0.0 == 0.0 / 0.0;\n', None),
    ('negated nan', 'double a = -(0.0 / 0.0);\n', 'a negated NaN in a static initializer: double a = -(0.0 / 0.0)'),
    ('long double', 'long double a = 0.1L;\n', 'long double constants that need more than 64 bits: long double a = 0.1L'),
    ('special', 'double a[] = { 1e400, -1e400, -0.0, 4.9e-324, 2.2250738585072011e-308, 1.7976931348623157e308, 0x1p-1074, 0x1.fffffffffffff8p0 };'
     'float b[] = { 1e40f, 1e-45f, 1.17549429e-38f, 0x1.fffffep127f, 16777217.0f, 0.1, 1e-50 }; int c[] = { (int)2147483647.0, (int)-2147483648.0, (char)-1.5 };'
     'unsigned long d[] = { (unsigned long)1.8e19, (unsigned long)9223372036854775808.0, 1e18 }; _Bool e[] = { 0.1, 1e-320, -0.0 };\n', None),
    ('integers', 'long a[] = { -9223372036854775807L - 1, 1UL << 63, -1 / 2, -7 % 3, -1 >> 1, -1U >> 1, (char)200, (short)40000, (unsigned char)-1, 1 ? -1 : 1U };'
     'enum { A = 0x7fffffff, B = -A - 1 }; char c = \'\\377\'; int d = \'ab\', e = L\'\\xffffffff\'; char s[] = "\\377\\200\\x80";\n', None),
    ('bytes', b'char *s = "\xc3\xa9\xff\x80\xfe"; int a = L\'\xc3\xa9\'; unsigned short *u = u"\xf0\x9f\x98\x80"; int \xc3\xa9;\n', None),
]


def probes(ctx, cc2):
    for name, text, key in PROBES:
        d = ctx.uniq('p')
        text = text if isinstance(text, bytes) else text.encode()
        open(os.path.join(d, 'main.c'), 'wb').write(text)
        for mode in ('-S', '-E'):
            cmd = [mode, '-o', 'out.x', 'main.c']
            a, b = once(ctx.toycc(), d, cmd, ['out.x'], 30), once(cc2, d, cmd, ['out.x'], 100)
            if a is None or b is None:
                ctx.inconcl('probe ' + name)
                continue
            ctx.count()
            ctx.seen('probe %s %s' % (name, mode))
            if a != b:
                ctx.violate(key or 'the two stages differ on the probe ' + name, 'host build / self-compiled: %s %s\n%s' % (first_diff(a, b) + (text,)), {'input-main.c': text})
        shutil.rmtree(d, ignore_errors=True)


def body(ctx):
    ctx.rule = ('An evaluation is one input given to the host-built toycc and to toycc compiled by itself (run by qemu), status, standard output, standard error and output files '
                'compared byte for byte; distinct: input families x modes x statuses, and diagnostics given by both.')
    ctx.assumptions = ['long double constants with more than 64 significant bits are excluded: the host has no wider type',
                       'qemu executes RISC-V user code faithfully']
    cc2 = bootstrap(ctx)
    if not cc2:
        return
    n = len(glob.glob(REPO + '/test/*.c')) + len(sources())
    jobs = list(range(n + ctx.scale(800, 20000)))
    ctx.sub('order').shuffle(jobs)
    ctx.pmap(lambda q: job(ctx, cc2, q) if q is not None else probes(ctx, cc2), [None] + jobs)


if __name__ == '__main__':
    main('C15', body)
