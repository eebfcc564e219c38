import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
import workload, hostile, glob
from C11 import build_harness

MSAN = dict(os.environ, MSAN_OPTIONS='exitcode=77:print_stats=0:poison_in_dtor=0', LC_ALL='C')


class Env:
    def __init__(self, ctx):
        self.ctx = ctx
        self.bin = ctx.toycc()
        self.so = ctx.path('perturb.so')
        r = run(['gcc', '-shared', '-fPIC', '-O1', '-fno-builtin', '-w', '-o', self.so, os.path.join(VERIF, 'rt', 'perturb.c')], 60)
        if r.rc:
            raise HarnessError(txt(r.err))
        self.dir = ctx.uniq('envdir')
        self.builds = {}
        for name, fl in (('pattern', ['-O0', '-ftrivial-auto-var-init=pattern']), ('zero', ['-O2', '-ftrivial-auto-var-init=zero'])):
            self.builds[name] = self.build(name, fl)
        self.clean = {'PATH': os.environ['PATH'], 'LC_ALL': 'C'}

    def build(self, name, fl):
        ctx = self.ctx
        d = ctx.uniq('bin-' + name)
        base = ['gcc', '-std=c2x', '-g', '-fno-common', '-w', '-DDEBUG', *fl] + ['-I' + os.path.join(REPO, x) for x in ('', 'parser', 'preprocessor')]

        def one(s):
            o = os.path.join(d, s.replace('/', '_')[:-2] + '.o')
            r = run(base + ['-c', '-o', o, os.path.join(REPO, s)], 300)
            if r.rc:
                raise HarnessError('building: ' + txt(r.err)[:1500])
            return o
        with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
            objs = list(ex.map(one, sources()))
        # the directory of the headers appears in the output: all builds share it
        exe = os.path.join(os.path.dirname(self.bin), 'toycc-' + name)
        r = run(base + ['-o', exe, *objs], 300)
        if r.rc:
            raise HarnessError(txt(r.err)[:1500])
        return exe


def observe(d, cmd, env, outs, stdin=None, pre=None, timeout=60):
    """status, standard output and error, and contents of the output files"""
    for o in outs:
        if os.path.exists(os.path.join(d, o)) and pre is None:
            os.unlink(os.path.join(d, o))
    x = run(cmd, timeout, cwd=d, env=env, inp=stdin)
    res = [x.rc if not x.timed_out else 'timeout', x.out, x.err]
    for o in outs:
        p = os.path.join(d, o)
        res.append(open(p, 'rb').read() if os.path.exists(p) else None)
    return res


def first_diff(a, b):
    for nm, x, y in zip(('status', 'standard output', 'standard error', 'output', 'dependencies'), a, b):
        if x != y:
            if isinstance(x, bytes) and isinstance(y, bytes):
                lx, ly = x.split(b'\n'), y.split(b'\n')
                for i in range(max(len(lx), len(ly))):
                    p, q = lx[i] if i < len(lx) else b'(end)', ly[i] if i < len(ly) else b'(end)'
                    if p != q:
                        return nm, '%s, line %d: %r / %r' % (nm, i + 1, txt(p)[:200], txt(q)[:200])
            return nm, '%s: %r / %r' % (nm, txt(x) if isinstance(x, bytes) else x, txt(y) if isinstance(y, bytes) else y)
    return 'nothing', ''


def perturbed(env, q):
    """one input under all perturbations"""
    ctx = env.ctx
    r = ctx.sub('perturb', q)
    k = r.random()
    corpus = sorted(glob.glob(REPO + '/test/*.c'))
    if q < len(corpus) + len(sources()):
        if q < len(corpus):
            p = corpus[q]
            kind, args = 'test ' + os.path.basename(p), []
            files = {'main.c': open(p, 'rb').read()}
            for h in glob.glob(REPO + '/test/*.h'):
                files[os.path.basename(h)] = open(h, 'rb').read()
        else:
            s = sources()[q - len(corpus)]
            kind, args = 'own source ' + s, ['-I' + os.path.join(REPO, x) for x in ('', 'parser', 'preprocessor', 'test')]
            files = {'main.c': open(os.path.join(REPO, s), 'rb').read()}
    elif k < .7:
        kind, files, args = workload.valid(r)
    else:
        kind, data = workload.invalid(r)
        files, args = {'main.c': data}, ['-I' + os.path.join(REPO, 'test')]
        for h in glob.glob(REPO + '/test/include*.h'):
            files[os.path.basename(h)] = open(h, 'rb').read()
    if any(re.search(rb'__(DATE|TIME|TIMESTAMP)__', t if isinstance(t, bytes) else t.encode('utf8', 'surrogateescape')) for t in files.values()):
        files = {n: re.sub(rb'__(DATE|TIME|TIMESTAMP)__', b'"date"', t if isinstance(t, bytes) else t.encode('utf8', 'surrogateescape')) for n, t in files.items()}
    top = ctx.uniq('w')
    d = os.path.join(top, 'a')
    os.makedirs(d)
    workload.put(d, files)
    mode = '-E' if '-E' in args else r.choice(['-S'] * 6 + ['-E', '-M', '-MD'])
    args = [a for a in args if a != '-E']
    outs = ['out.x']
    if mode == '-MD':
        cmd = ['-S', '-MD', '-MF', 'dep.d', '-MT', 'T']
        outs.append('dep.d')
    else:
        cmd = [mode]
    tail = [*args, 'main.c']
    full = [env.bin, *cmd, '-o', 'out.x', *tail]
    base = observe(d, full, env.clean, outs)
    if base[0] == 'timeout' or (isinstance(base[0], int) and base[0] < 0) or len(base[1]) + len(base[3] or b'') > 20000000:
        ctx.bump('skipped (resources)')
        shutil.rmtree(top, ignore_errors=True)
        return
    ctx.seen(kind.split()[0] + ' ' + mode + (' accepted' if base[0] == 0 else ' rejected'))

    def cmp(name, got, ref=None):
        ref = ref or base
        ctx.count()
        if got == ref:
            return True
        if 'timeout' in got:
            ctx.inconcl('timeout under ' + name)
            return True
        # a difference must not be an accident of the machine
        what, dd = first_diff(ref, got)
        ctx.violate('%s depends on %s' % (what, name), 'input kind %s\ncommand %s\n%s' % (kind, ' '.join(full), dd),
                    {'input-' + n.replace('/', '_'): t for n, t in files.items()})
        return False

    def pert(n):
        return dict(env.clean, LD_PRELOAD=env.so, PERTURB='%d-%d-%d' % (ctx.seed, q, n), PERTURB_DIR=env.dir)
    try:
        if not cmp('chance (two identical runs differ)', observe(d, full, env.clean, outs)):
            return
        for n in range(3):
            if not cmp('contents and addresses of fresh memory, the time or unset environment variables', observe(d, full, pert(n), outs)):
                return
        big = dict(env.clean, LC_ALL='tr_TR.UTF-8', LANG='de_DE.UTF-8', TZ='Asia/Tokyo', COLUMNS='20', TERM='xterm-256color', HOME='/nonexistent',
                   TMPDIR=env.dir, CPATH=d, CFLAGS='-DX', SOURCE_DATE_EPOCH='12345', **{'V%d' % i: 'x' * r.randrange(1, 300) for i in range(r.randrange(1, 60))})
        if not cmp('the environment', observe(d, full, big, outs)):
            return
        # working directory: the same relative names elsewhere
        d2 = os.path.join(top, 'another directory with a longer name ' + 'x' * r.randrange(60))
        shutil.copytree(d, d2, copy_function=shutil.copy)
        open(os.path.join(d2, 'stray.h'), 'w').write('int stray;\n')
        open(os.path.join(d2, 'main.s'), 'w').write('garbage\n' * 50000)
        if not cmp('the working directory', observe(d2, full, env.clean, outs)):
            return
        # destination
        ref = base[:1] + [b''] + base[2:]
        if base[0] == 0:
            os.makedirs(os.path.join(d, 'deep'), exist_ok=True)
            got = observe(d, [env.bin, *cmd, *tail, '-o', './deep/other.txt'], env.clean, ['deep/other.txt'] + outs[1:])
            if not cmp('the name of the output file', got):
                return
            with open(os.path.join(d, 'out.x'), 'wb') as f:
                f.write(b'old contents\n' * (1000 + len(base[3] or b'') // 8))
            if not cmp('earlier contents of the output file', observe(d, full, env.clean, outs, pre=1)):
                return
            got = observe(d, [env.bin, *cmd, '-o', '-', *tail], env.clean, outs[1:])
            if not cmp('output going to standard output', got, base[:1] + [base[3]] + base[2:3] + base[4:]):
                return
        # stack size, inherited descriptors, standard input
        got = observe(d, ['bash', '-c', 'ulimit -s unlimited 2>/dev/null || ulimit -s 65536 2>/dev/null; exec 7<main.c 8>/dev/null 9</dev/null; exec "$@"', 'x', *full], env.clean, outs, stdin=b'junk')
        if not cmp('limits, descriptors or standard input', got):
            return
        # other inputs on the same command line, several at a time
        if base[0] == 0 and mode == '-S':
            other = 'int other%d(int x) { static int y; return x ? y++ : sizeof "abc"; }\n#define main notmain\n#define int long\n' % q
            open(os.path.join(d, 'other.c'), 'w').write(other)
            for order in (['other.c', 'main.c'], ['main.c', 'other.c']):
                x = observe(d, [env.bin, '-S', *args, *order], env.clean, ['main.s'])
                if not cmp('other inputs on the command line', [x[0], x[1], x[2], x[3]], base[:4]):
                    return
            # the built variants differ in what uninitialized automatic variables hold
        if base[0] == 0 and mode == '-S' and r.random() < .35 and b'asm' not in (files['main.c'] if isinstance(files['main.c'], bytes) else files['main.c'].encode('utf8', 'replace')):
            one = observe(d, [env.bin, '-c', '-o', 'out.o', *tail], env.clean, ['out.o'])
            two = observe(d, [env.bin, '-c', '-o', 'out.o', *tail], dict(big, **pert(9)), ['out.o'])
            if not cmp('the environment (object file)', two, one):
                return
            ctx.bump('objects compared')
        for n, exe in env.builds.items():
            if not cmp('contents of uninitialized automatic variables (or optimization of the compiler itself)', observe(d, [exe, *full[1:]], env.clean, outs)):
                return
        # concurrency
        if q % 3 == 0:
            ps = []
            for i in range(4):
                dd = d if i < 2 else d2
                o = 'conc%d.x' % i
                c = [env.bin, *cmd, '-o', o, *tail]
                if mode == '-MD':
                    c = [x if x != 'dep.d' else 'dep%d.d' % i for x in c]
                ps.append((dd, o, subprocess.Popen(c, cwd=dd, env=env.clean, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)))
            for dd, o, p in ps:
                so, se = p.communicate(timeout=300)
                fn = os.path.join(dd, o)
                got = [p.returncode, so, se, open(fn, 'rb').read() if os.path.exists(fn) else None] + base[4:]
                if not cmp('compilations running at the same time', got):
                    return
        ctx.bump('inputs perturbed')
        ctx.sample({'input': kind, 'mode': mode, 'status': base[0], 'output_bytes': len(base[3] or b'')})
    finally:
        shutil.rmtree(top, ignore_errors=True)


def uninit(ctx, exe, j, n):
    """MemorySanitizer build on a batch of inputs"""
    r = ctx.sub('msan', j)
    d = ctx.uniq('ms')
    items = []
    corpus = sorted(glob.glob(REPO + '/test/*.c'))
    for i in range(n):
        if j == 0 and i < len(corpus):
            items.append(('test', open(corpus[i], 'rb').read(), []))
        elif r.random() < .45:
            kind, files, args = workload.valid(r)
            if len(files) > 1:
                continue
            items.append((kind, files['main.c'].encode('utf8', 'surrogateescape'), args))
        else:
            kind, data = workload.invalid(r)
            items.append((kind, data, r.choice([[], [], [], [], ['-E'], ['-fpic'], ['-MD', '-MF', '/dev/null']])))
    jl = os.path.join(d, 'jobs')
    with open(jl, 'w') as f:
        for i, (kind, data, args) in enumerate(items):
            src = os.path.join(d, 'i%d.c' % i)
            open(src, 'wb').write(data)
            a = [x for x in args]
            f.write('\t'.join([os.path.join(d, 'e%d' % i), '40', '-cc1', '-cc1-input', src, '-cc1-output', '/dev/null', *a, '-I' + os.path.join(REPO, 'test'), src]) + '\n')
    x = run([exe, jl], 2400, env=MSAN, cwd=d)
    lines = txt(x.out).split('\n')[:-1]
    if len(lines) != len(items):
        raise HarnessError('fork server: %d results for %d jobs, rc %s %s' % (len(lines), len(items), x.rc, txt(x.err)[-500:]))
    for i, l in enumerate(lines):
        _, k, v, size, rss = l.split()
        ctx.count()
        ctx.bump('MemorySanitizer inputs')
        ctx.seen('msan %s %s' % (items[i][0].split()[0], k + v))
        err = open(os.path.join(d, 'e%d' % i), errors='replace').read() if int(size) else ''
        if 'MemorySanitizer: use-of-uninitialized-value' in err:
            fn = [f for f in re.findall(r'#\d+ 0x[0-9a-f]+ in (\w+) ', err) if not f.startswith(('__interceptor', '__msan', '___', 'printf_common'))]
            ctx.violate('a decision depends on uninitialized memory' + (' in ' + fn[0] if fn else ''), 'input kind %s options %s\n%s' % (items[i][0], items[i][2], err[:5000]), {'input.c': items[i][1]})
    shutil.rmtree(d, ignore_errors=True)


def memcheck(ctx, q):
    r = ctx.sub('valgrind', q)
    d = ctx.uniq('vg')
    corpus = sorted(glob.glob(REPO + '/test/*.c'))
    if q % 2 == 0:
        p = corpus[(q // 2 * 7 + ctx.seed) % len(corpus)]
        src = p
        args, kind = [], 'test ' + os.path.basename(p)
    else:
        kind, files, args = workload.valid(r)
        workload.put(d, files)
        src = 'main.c'
    x = run(['valgrind', '-q', '--error-exitcode=99', '--undef-value-errors=yes', '--track-origins=no', '--leak-check=no', ctx.toycc(), '-cc1', '-cc1-input', src,
             '-cc1-output', '/dev/null', *args, src], 300, cwd=d)
    ctx.count()
    ctx.bump('memcheck inputs')
    ctx.seen('memcheck ' + kind.split()[0])
    if x.rc == 99 or b'uninitialised' in x.err or b'Invalid read' in x.err or b'Invalid write' in x.err:
        fn = re.findall(r'(?:at|by) 0x[0-9A-F]+: (\w+) \((?!vg_|in )', txt(x.err))
        ctx.violate('memcheck: %s%s' % ('uninitialised value used' if b'uninit' in x.err else 'invalid access', ' in ' + fn[0] if fn else ''),
                    'input %s %s\n%s' % (kind, args, txt(x.err)[:4000]), {'input.c': open(os.path.join(d, src)).read()} if q % 2 else {})
    elif x.timed_out:
        ctx.inconcl('memcheck too slow on ' + kind)
    shutil.rmtree(d, ignore_errors=True)


def body(ctx):
    ctx.rule = ('An evaluation is one compilation under one perturbation whose status, standard output and error and output files were compared byte for byte with those of the unperturbed '
                'compilation, or one compilation watched by MemorySanitizer or valgrind memcheck; distinct: input families x modes x outcomes.')
    ctx.assumptions = ['__DATE__, __TIME__ and __TIMESTAMP__ are replaced in the inputs: they depend on the time by definition',
                       'names of files are given relative to the working directory, as the output contains them as given']
    env = Env(ctx)
    n = len(glob.glob(REPO + '/test/*.c')) + len(sources())
    jobs = [('p', i) for i in range(n + ctx.scale(130, 6000))]
    exe = build_harness(ctx, 'forkserver.c', ('-fsanitize=memory', '-fno-omit-frame-pointer'), cc='clang')
    jobs += [('m', i) for i in range(ctx.scale(16, 400))]
    jobs += [('v', i) for i in range(ctx.scale(16, 300))]
    ctx.sub('order').shuffle(jobs)

    def one(j):
        if j[0] == 'p':
            perturbed(env, j[1])
        elif j[0] == 'm':
            uninit(ctx, exe, j[1], 120)
        else:
            memcheck(ctx, j[1])
    ctx.pmap(one, jobs)


if __name__ == '__main__':
    main('C12', body)
