import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
import hostile, nesting, glob

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=1500:hard_rss_limit_mb=3000:detect_stack_use_after_return=0:abort_on_error=0:exitcode=77:handle_abort=0',
           UBSAN_OPTIONS='print_stacktrace=1:exitcode=77', LC_ALL='C')
RESOURCE = ('allocation-size-too-big', 'out-of-memory', 'hard rss limit', 'rss-limit-exceeded', 'calloc-overflow')


def signature(err):
    """what went wrong and in which function, for deduplication"""
    m = re.search(r'(\S+?):\d+:\d+: runtime error: ([^\n]*)', err)
    kind = None
    if m:
        kind = 'undefined behaviour: ' + re.sub(r'0x[0-9a-f]+|-?\d+', 'N', m[2])[:70]
    m = re.search(r'ERROR: AddressSanitizer: (\S+)', err)
    if m:
        kind = 'AddressSanitizer: ' + m[1]
    fn = None
    for f in re.findall(r'#\d+ 0x[0-9a-f]+ in (\w+) ', err):
        if not f.startswith(('__interceptor', '__asan', '__ubsan', '___', '_IO', 'strlen', 'memcpy', 'mem', 'str')):
            fn = f
            break
    return kind, fn


class Fuzz:
    def __init__(self, ctx, exe):
        self.ctx, self.exe = ctx, exe
        self.inc = ['-I' + os.path.join(REPO, 'test')]

    def batch(self, job):
        """job: (name, list of (kind, bytes, extra args))"""
        ctx = self.ctx
        name, items = job
        d = ctx.uniq('fz')
        jl = os.path.join(d, 'jobs')
        with open(jl, 'w') as f:
            for i, (kind, data, args) in enumerate(items):
                src = os.path.join(d, 'i%d.c' % i)
                with open(src, 'wb') as g:
                    g.write(data)
                f.write('\t'.join([os.path.join(d, 'e%d' % i), '20', '-cc1', '-cc1-input', src, '-cc1-output', '/dev/null', *args, *self.inc, src]) + '\n')
        r = run([self.exe, jl], 2400, env=ENV, cwd=d)
        lines = txt(r.out).split('\n')[:-1]
        if len(lines) != len(items):
            raise HarnessError('fork server: %d results for %d jobs, rc %s %s' % (len(lines), len(items), r.rc, txt(r.err)[-500:]))
        for i, l in enumerate(lines):
            _, k, v, size, rss = l.split()
            self.judge(items[i], k, int(v), int(size), int(rss), os.path.join(d, 'e%d' % i), os.path.join(d, 'i%d.c' % i))
        shutil.rmtree(d, ignore_errors=True)

    def judge(self, item, k, v, size, rss, errf, src):
        ctx = self.ctx
        kind, data, args = item
        ctx.count()
        if k == 'E' and v == 0:
            ctx.bump('accepted')
            ctx.seen(kind + ' accepted')
            return
        err = open(errf, errors='replace').read() if size else ''
        if k == 'E' and v == 1 and size and 'runtime error' not in err and 'AddressSanitizer' not in err:
            ctx.bump('rejected')
            m = re.search(r'\^ (.*)', err)
            if len(data) < 3000:
                ctx.sample('%s input ending %r rejected: %s' % (kind, txt(data[-60:]), m[1] if m else err[:60]))
            ctx.seen(kind + ' ' + (re.sub(r"'.*?'|\d+|:.*", '', m[1])[:60] if m else 'message'))
            return
        if any(x in err for x in RESOURCE) and kind.startswith('nested '):
            ctx.violate('memory out of proportion to the nesting: ' + kind, 'input kind %s\n%s\n--- stderr\n%s' % (kind, txt(data), err[:2000]), {'input.c': data})
            return
        if any(x in err for x in RESOURCE):
            ctx.bump('resource_limited')
            return
        if k == 'T':
            if re.search(rb'\d{5}|[<*]{2}|0[xX][0-9a-fA-F]{4}', data) and rss > 200000:
                ctx.bump('resource_limited')
                return
            r = run([ctx.toycc('plain'), '-cc1', '-cc1-input', src, '-cc1-output', '/dev/null', *args, *self.inc, src], 60, retry=False, mem_mb=6000)
            if kind.startswith('nested ') and r.rc != 0 and not (r.rc == 1 and r.err):
                ctx.violate('time or memory out of proportion to the nesting: ' + kind, 'input kind %s: status %s\n%s' % (kind, r.rc, txt(data)), {'input.c': data})
                return
            if not r.timed_out:
                ctx.inconcl('slow under sanitizers')
                return
            ctx.violate('the compiler does not terminate', 'input kind %s, options %s\n%s' % (kind, args, txt(data)), {'input.c': data})
            return
        sk, fn = signature(err)
        if sk is None:
            if k == 'S':
                sk = 'killed by signal %d' % v
            elif v == 1:
                sk = 'rejects without any diagnostic'
            else:
                m = re.search(r'(internal error.*|.*[Aa]ssertion.*)', err)
                sk = 'exit status %d %s' % (v, re.sub(r'\S*/', '', m[1])[:80] if m else '')
        ctx.violate('%s%s' % (sk, ' in ' + fn if fn else ''), 'input kind %s, options %s\n%s\n--- stderr\n%s' % (kind, args, txt(data), err[:4000]), {'input.c': data})


def corpus():
    out = []
    for p in sorted(glob.glob(REPO + '/test/*.c') + glob.glob(REPO + '/test/*.h') + glob.glob(REPO + '/include/*.h')):
        with open(p, 'rb') as f:
            out.append(f.read())
    return out


def functions(data):
    """small pieces of the corpus: single declarations and lines, so that mutations are dense"""
    return [l for l in data.split(b'\n') if len(l) > 8]


OPERANDS = ['a.c', 'b.c', 'c.s', 'd.o', 'bad.c', 'empty.c', 'nosuch.c', 'sub', 'noext', 'x.h', '-', '', '.c', '.', 'a.c.c', 'A', 'A=1', 'F(x)=x', '=', '=3', 'A=', '3', 'A B=2', 'if=while', '__LINE__=3', 'F(x, ...)=#x', 'F(=', 'A="',
            "A='", 'A=/*', 'A=\\\\', 'A=\n', 'c', 'none', 'assembler', 'foo', 'out1', 'out2.o', 'sub/out3', 'nodir/out4', 'm', 'nosuchlib', '--gc-sections', '\udcff\udcfe', 'x y', '$@ #\t', '\\\\\\ \\ ', 'z' * 300, 'q' * 5000]
PLAIN = ['-###', '-S', '-c', '-E', '-M', '-MD', '-MMD', '-MP', '-s', '-fcommon', '-fno-common', '-fpic', '-fPIC', '-static', '-shared', '-O2', '-Wall', '-std=c11', '-g', '-w', '--help', '-hashmap-test', '-m64', '-foo', '--', '-Wl,', '-Wl,-s']
TAKES = ['-o', '-I', '-idirafter', '-include', '-x', '-MF', '-MT', '-MQ', '-Xlinker', '-D', '-U', '-L', '-l']


def command(ctx, exe, j):
    """the instrumented driver under random command lines"""
    r = ctx.sub('command', j)
    d = ctx.uniq('cmd')
    for n, t in (('a.c', 'int v(void);\nint main(void) { return v(); }\n'), ('b.c', '#include "x.h"\nint v(void) { return X; }\n'), ('x.h', '#define X 3\n'), ('bad.c', 'int ('), ('empty.c', ''),
                 ('c.s', '.globl v\nv: li a0, 3\n ret\n'), ('noext', 'int z;\n')):
        open(os.path.join(d, n), 'w').write(t)
    os.mkdir(os.path.join(d, 'sub'))
    shutil.copy(ctx.dobj, os.path.join(d, 'd.o'))
    args = []
    if r.random() < .5:         # something sensible at the core
        args += r.choice([['a.c', 'b.c'], ['a.c', 'c.s'], ['b.c', '-c'], ['a.c', '-S'], ['a.c', 'b.c', '-E'], ['b.c', '-M'], ['a.c', 'd.o', '-o', 'out1'], ['a.c', 'b.c', '-c', '-MD'], ['-xc', '-', '-S', '-o', 'out1']])
    for _ in range(r.randrange(0, 6)):
        k = r.random()
        op = r.choice(OPERANDS)
        if k < .35:
            o = [r.choice(PLAIN)]
        elif k < .7:
            o = [r.choice(TAKES), op]
        elif k < .82:
            o = [r.choice(TAKES) + op]
        elif k < .9:
            o = [op]
        else:
            o = [r.choice(TAKES)]
        i = r.randrange(len(args) + 1)
        args[i:i] = o
    x = run([exe] + args, 60, cwd=d, inp=b'int q;\n', env=dict(ENV, TMPDIR=d))
    err = txt(x.err)
    ctx.count()
    sk, fn = signature(err)
    if sk is None and x.timed_out:
        sk = 'does not terminate'
    elif sk is None and x.rc not in (0, 1):
        sk = 'ends with status %s' % x.rc
    elif sk is None and x.rc == 1 and not err.strip():
        sk = 'fails without any message'
    if sk:
        ctx.violate('the driver: %s%s' % (sk, ' in ' + fn if fn else ''), 'toycc %r\nstatus %s\n%s' % (args, x.rc, err[:4000]))
    else:
        ctx.bump('command lines')
        ctx.seen(*['option ' + a for a in args if a in PLAIN or a in TAKES], 'command line status %d' % x.rc)
    shutil.rmtree(d, ignore_errors=True)


def body(ctx):
    ctx.rule = ('An evaluation is one input compiled by the ASan+UBSan build (cc1 stage) in its own process, its end (status, signal, time) and its sanitizer '
                'reports observed; distinct: input families x outcomes (accepted, or the diagnostic given).')
    ctx.assumptions = ['nesting depth up to 300 and allocations up to 1.5 GB: exhaustion of the stack or of memory by larger inputs is not counted',
                       'inputs are files; NUL bytes end the text']
    exe = build_harness(ctx, 'forkserver.c')
    fz = Fuzz(ctx, exe)
    seeds = corpus()
    small = [b'#include "test.h"\n' + hostile.DECLS.encode() + b'int fn(int par, ...) {\n' + hostile.LOCALS.encode() + b'\n%s\n}\n']
    lines = [l for s in seeds for l in functions(s)]
    lines = [re.sub(rb'^\s*ASSERT\([^,]*,(.*)\);\s*$', rb'\1;', l) for l in lines]

    def gen(j, n):
        r = ctx.sub('batch', j)
        items = []
        for _ in range(n):
            q = r.random()
            args = []
            if r.random() < .1:
                args = [r.choice([['-E'], ['-fpic'], ['-M'], ['-fno-common'], ['-DA=1'], ['-MD', '-MF', '/dev/null']])][0]
            if q < .36:
                items.append(('semantic', hostile.semantic(r), args))
            elif q < .46:
                items.append(('semantic mutated', hostile.mutate(r, hostile.semantic(r), seeds), args))
            elif q < .66:
                l = b'\n'.join(r.choice(lines) for _ in range(r.choice([1, 1, 2])))
                if r.random() < .85:
                    l = hostile.mutate(r, l, lines)
                items.append(('corpus line', small[0].replace(b'%s', l) if r.random() < .8 else hostile.DECLS.encode() + l, args))
            elif q < .76:
                items.append(('corpus file', hostile.mutate(r, r.choice(seeds), seeds), args))
            elif q < .9:
                items.append(('preprocessor', hostile.ppfile(r), args))
            elif q < .97:
                items.append(('lexical', hostile.lexical(r), args))
            else:
                items.append(('nested', hostile.nested(r), args))
        return items
    forms = [('nested ' + k, (f(n) + '\n').encode(), []) for k, f in nesting.FORMS.items() for n in (26, 100, 290)]
    r = ctx.sub('mixed')
    forms += [('nested mixed', nesting.mixed(r, r.choice([5, 10, 20, 30, 40])).encode(), []) for _ in range(ctx.scale(400, 4000))]
    # every operator over the boundary values, in the places where constants are evaluated
    vals = ['(-9223372036854775807L-1)', '9223372036854775807L', '18446744073709551615UL', '(-2147483647-1)', '2147483647', '4294967295U', '-1', '-1L', '0', '1', '31', '32', '63', '64', '(char)-128', '1.5', '-1e300', '1e30f', '(0.0/0.0)', '(1/0.0)', '3.0L', '(long)&ext', '(char*)0']
    places = ['long v = %s;', 'int v = (int)(%s);', 'unsigned char v = %s;', 'double v = %s;', '_Bool v = %s;', 'enum { K = %s };', 'char v[%s];', 'void g(int i) { switch (i) { case %s: ; } }', 'struct { int b : %s; } v;', 'int v[] = { [%s] = 1 };', 'int v = (%s) ? 1 : 2;', '_Static_assert(%s, "");', 'float v = %s;', '_Alignas(%s) char v;']
    for a in vals:
        forms += [('boundary constant', ('char ext;\n' + p % (u % a) + '\n').encode(), []) for u in ('-%s', '~%s', '!%s', '%s') for p in places]
        for b in vals:
            for o in '+ - * / % << >> < <= == != & | ^ && || ,'.split():
                e = '(%s %s %s)' % (a, o, b)
                forms += [('boundary constant', ('char ext;\n' + p % e + '\n').encode(), []) for p in r.sample(places, 3)]
                if '.' not in e and '(' not in a[1:] + b[1:] and 'U)' not in e:
                    forms.append(('boundary #if', ('#if %s\nint x;\n#elif 1 ? %s : 0\nint y;\n#endif\n' % (e, e)).encode(), []))
    for a in ('(-9223372036854775807-1)', '-1', '0', '64', '9223372036854775807', '18446744073709551615u'):
        for b in ('(-9223372036854775807-1)', '-1', '0', '64', '9223372036854775807', '18446744073709551615u'):
            for o in '+ - * / % << >> < <= == ^ && ||'.split():
                forms.append(('boundary #if', ('#if %s %s %s\nint x;\n#elif 1\nint y;\n#endif\n' % (a, o, b)).encode(), []))
    r.shuffle(forms)
    ctx.pmap(lambda i: fz.batch((i, forms[i::NPROC])), range(NPROC))
    d = ctx.uniq('dobj')
    open(os.path.join(d, 'd.c'), 'w').write('int v(void) { return 3; }')
    ctx.dobj = os.path.join(d, 'd.o')
    ctx.cc_ref(os.path.join(d, 'd.c'), ctx.dobj)
    drv = ctx.toycc('asan')
    ctx.pmap(lambda j: command(ctx, drv, j), range(ctx.scale(700, 20000)))
    nb = ctx.scale(int(os.environ.get('NB', '48')), 1500)
    ctx.pmap(lambda j: fz.batch((j, gen(j, 500))), range(nb))


def build_harness(ctx, src, flags=('-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'), cc='gcc'):
    d = ctx.uniq('hb')
    base = [cc, '-std=c2x', '-g', '-O1', '-w', '-fno-common', '-DDEBUG', *flags] + ['-I' + os.path.join(REPO, x) for x in ('', 'parser', 'preprocessor')]

    def one(s):
        o = os.path.join(d, s.replace('/', '_')[:-2] + '.o')
        r = run(base + ['-Dmain=toycc_main', '-c', '-o', o, os.path.join(REPO, s)], 300)
        if r.rc:
            raise HarnessError('building: ' + txt(r.err)[:1500])
        return o
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        objs = list(ex.map(one, sources()))
    exe = os.path.join(d, 'harness')
    r = run(base + ['-o', exe, os.path.join(VERIF, 'harness', src), *objs], 300)
    if r.rc:
        raise HarnessError('building harness: ' + txt(r.err)[:1500])
    shutil.copytree(os.path.join(REPO, 'include'), os.path.join(d, 'include'))
    return exe


if __name__ == '__main__':
    main('C11', body)
