import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
import itertools

# Every command runs in a scratch directory of its own, with an assembler and a
# linker on PATH that record their calls and fail when told to (rt/tool.sh) and
# a preloaded library that makes system calls of toycc itself fail (rt/shim.c).
# A model of the driver predicts status, files, and the result of the link.

MODES = ['link', 'c', 'S', 'E', 'M']
MODEFLAG = {'link': [], 'c': ['-c'], 'S': ['-S'], 'E': ['-E'], 'M': ['-M']}
BAD = {
    'syntax': b'int main(void) { return 1 +; }\n',
    'undeclared': b'int g(void) { return nowhere; }\n',
    'include': b'#include "no-such-header.h"\nint x;\n',
    'error': b'#error stop\n',
    'unterminated': b'#if 1\nint x;\n',
    'lex': b'char *s = "abc;\n',
}
PPBAD = ['include', 'error', 'unterminated', 'lex']    # those the preprocessor finds


class Driver:
    def __init__(self, ctx):
        self.ctx = ctx
        self.exe = ctx.toycc()
        self.shim = ctx.path('shim.so')
        r = run(['gcc', '-shared', '-fPIC', '-O1', '-w', '-o', self.shim, os.path.join(VERIF, 'rt', 'shim.c'), '-ldl'], 120)
        if r.rc:
            raise HarnessError('shim: ' + txt(r.err))
        self.tools = ctx.path('tools')
        os.mkdir(self.tools)
        for t in ('as', 'ld'):
            shutil.copy(os.path.join(VERIF, 'rt', 'tool.sh'), os.path.join(self.tools, 'riscv64-linux-gnu-' + t))
            os.chmod(os.path.join(self.tools, 'riscv64-linux-gnu-' + t), 0o755)
        for missing in ('as', 'ld'):
            for how in ('missing', 'noexec'):
                d = self.tools + '-%s-%s' % (missing, how)
                shutil.copytree(self.tools, d)
                p = os.path.join(d, 'riscv64-linux-gnu-' + missing)
                os.unlink(p)
                if how == 'noexec':
                    with open(p, 'w') as f:
                        f.write('not a program')
        self.refs = {}

    # ---- material: unit i defines vi() returning 1 << i
    def unit(self, i, main_of=None, filler=0):
        t = 'int v%d(void) { return %d; }\n' % (i, 1 << i)
        for k in range(filler):
            t += 'int filler%d_%d(int a, int b) { return a * %d + b / (a | 1) - %d; }\n' % (i, k, k, k)
        if main_of is not None:
            for j in main_of:
                if j != i:
                    t += 'int v%d(void);\n' % j
            t += 'int main(void) { return %s; }\n' % ' + '.join('v%d()' % j for j in main_of)
        return t.encode()

    def asm_of(self, text):
        with self.ctx.lock:
            if text in self.refs:
                return self.refs[text]
        d = self.ctx.uniq('ref')
        with open(os.path.join(d, 'u.c'), 'wb') as f:
            f.write(text)
        for c in ([RVGCC, '-w', '-O1', '-S', '-o', 'u.s', 'u.c'], [RVGCC, '-c', '-o', 'u.o', 'u.s'], ['riscv64-linux-gnu-ar', 'rc', 'u.a', 'u.o']):
            r = run(c, 60, cwd=d)
            if r.rc:
                raise HarnessError('%s: %s' % (c, txt(r.err)))
        v = {k: open(os.path.join(d, 'u.' + k), 'rb').read() for k in 'soa'}
        shutil.rmtree(d, ignore_errors=True)
        with self.ctx.lock:
            self.refs[text] = v
        return v


def tree(d):
    out = {}
    for p, ds, fs in os.walk(d):
        for f in fs:
            q = os.path.join(p, f)
            try:
                with open(q, 'rb') as g:
                    out[os.path.relpath(q, d)] = g.read()
            except OSError:
                out[os.path.relpath(q, d)] = None
        for f in ds:
            out[os.path.relpath(os.path.join(p, f), d) + '/'] = b''
    return out


def mkname(n):
    return n.replace('$', '$$').replace(' ', '\\ ').encode()


def base(n):
    b = n.rsplit('/', 1)[-1]
    return b.rsplit('.', 1)[0] if '.' in b else b


class Scn:
    """inputs: list of dicts(kind, name, bad?); mode; o (None or path); fault: None or (stage, ...)"""
    def __init__(self, inputs, mode, o=None, fault=None, opts=(), ostyle=0, extra=None, env=None):
        self.inputs, self.mode, self.o, self.fault = inputs, mode, o, fault
        self.opts, self.ostyle, self.extra, self.env = list(opts), ostyle, extra or {}, env or {}

    def label(self):
        return '%s [%s] -o %s fault=%s %s' % (self.mode, ' '.join(i['kind'] + (':' + i['bad'] if i.get('bad') else '') for i in self.inputs),
                                              self.o, self.fault, ' '.join(self.opts))


def launch(drv, s, d, cmd, stdin, logdir):
    """runs the command with the fault of the scenario; returns Res"""
    f = s.fault or ('none',)
    env = {'PATH': drv.tools, 'TOOL_LOG': logdir, 'TOOL_FAIL': '', 'LC_ALL': 'C', 'HOME': d, 'TMPDIR': d}
    pre, stdout = None, subprocess.PIPE
    close = None
    if f[0] == 'tool':
        env['TOOL_FAIL'] = f[1]
    elif f[0] == 'path':
        env['PATH'] = drv.tools + '-' + f[1]
    elif f[0] == 'shim':
        env.update(LD_PRELOAD=drv.shim, SHIM_ROLE=f[1], SHIM_FAULT=f[2], SHIM_LOG=os.path.join(logdir, 'shim'))
    elif f[0] == 'fsize':
        def pre():
            if f[2]:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (f[1], f[1]))
    elif f[0] == 'stray':
        def pre():
            if os.fork() == 0:
                time.sleep(0.4)
                os._exit(f[1])
    elif f[0] == 'sigchld':
        def pre():
            signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    elif f[0] == 'closed':
        def pre():
            for fd in f[1]:
                os.close(fd)
    elif f[0] == 'stdout':
        if f[1] == 'full':
            stdout = open('/dev/full', 'wb')
        else:
            r, w = os.pipe()
            os.close(r)
            stdout = w
            def pre():
                signal.signal(signal.SIGPIPE, signal.SIG_IGN if f[2] else signal.SIG_DFL)
    env.update(s.env)

    def setup():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if f[0] != 'fsize':
            resource.setrlimit(resource.RLIMIT_FSIZE, (100 << 20, 100 << 20))
        if pre:
            pre()
    p = subprocess.Popen(cmd, cwd=d, env=env, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=stdout, stderr=subprocess.PIPE, start_new_session=True, preexec_fn=setup)
    if stdout is not subprocess.PIPE:
        if isinstance(stdout, int):
            os.close(stdout)
        else:
            stdout.close()
    try:
        out, err = p.communicate(stdin, timeout=120)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        return Res(None, out or b'', err or b'', True), False
    alive = False
    try:
        os.killpg(p.pid, 0)
        alive = True
    except (ProcessLookupError, PermissionError):
        pass
    return Res(p.returncode, out or b'', err or b''), alive


def judge(drv, s):
    ctx = drv.ctx
    d = ctx.uniq('d')
    logdir = ctx.uniq('log')
    stdin = None
    cs = [i for i in s.inputs if i['kind'] in ('c', 'stdin', 's', 'o', 'a', 'lib')]
    ids = list(range(len(cs)))
    mainat = s.extra.get('main', 0)
    args = []
    for k, i in enumerate(cs):
        i['id'] = k
        text = drv.unit(k, ids if k == mainat else None, i.get('filler', 0))
        kind = i['kind']
        if i.get('bad') and i['bad'] in BAD:
            text = BAD[i['bad']]
        i['text'] = text
        name = i['name']
        if kind == 'stdin':
            stdin = text
            continue
        p = os.path.join(d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if i.get('bad') == 'missing':
            continue
        if i.get('bad') == 'directory':
            os.mkdir(p)
            continue
        if i.get('bad') == 'garbage':
            data = b'this is no such file\n'
        elif kind == 'c':
            data = text
        else:
            data = drv.asm_of(text)[{'s': 's', 'o': 'o', 'a': 'a', 'lib': 'a'}[kind]]
        with open(p, 'wb') as f:
            f.write(data)
    for i in s.inputs:
        if i['kind'] == 'lib':
            args += ['-l' + os.path.basename(i['name'])[3:-2]]
        else:
            args.append('-' if i['kind'] == 'stdin' else i['name'])
    if s.o and '/' in s.o and not s.o.startswith('/') and s.extra.get('mkdir', True):
        os.makedirs(os.path.join(d, os.path.dirname(s.o)), exist_ok=True)
    if s.extra.get('odir'):
        os.makedirs(os.path.join(d, s.o))
    if s.extra.get('existing'):
        with open(os.path.join(d, s.o or 'a.out'), 'wb') as f:
            f.write(b'old contents\n' * 1000)
    oarg = [] if s.o is None else ['-o' + s.o] if s.ostyle == 1 else ['-o', s.o]
    flags = MODEFLAG[s.mode] + s.opts
    cmd = {0: flags + oarg + args, 1: flags + args + oarg, 2: args + oarg + flags}[s.extra.get('order', 0)]
    cmd = [drv.exe] + cmd
    before = tree(d)
    rundir = d
    if s.fault and s.fault[0] == 'nocwd':
        rundir = ctx.uniq('gone')
    r, alive = launch(drv, s, rundir, cmd, stdin, logdir)
    after = tree(d)
    log = {t: [] for t in ('as', 'ld')}
    for t in log:
        p = os.path.join(logdir, t + '.log')
        if os.path.exists(p):
            log[t] = open(p, errors='replace').read().split('\n')[:-1]
    try:
        verdict(drv, s, d, cmd, r, alive, before, after, log, logdir)
    except Violation as v:
        ctx.violate('%s: %s' % (v.key, re.sub(r'tmpfile-\w+', 'tmpfile', s.label())),
                    'command: %s\nin a directory with: %s\nstatus %s\nstdout %r\nstderr %s\nfiles after: %s\nassembler calls %s\nlinker calls %s\n%s' % (
                        ' '.join(cmd), sorted(before), r.rc, r.out[:500], txt(r.err)[:1500], sorted(after), log['as'], log['ld'], v.detail))
    shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(logdir, ignore_errors=True)


def injected(s, logdir, r):
    """did the injected fault take place?"""
    f = s.fault
    if f[0] == 'tool':
        return os.path.exists(os.path.join(logdir, 'injected'))
    if f[0] == 'shim' and not f[2].startswith('kill'):
        p = os.path.join(logdir, 'shim')
        return os.path.exists(p) and b'\nF ' in b'\n' + open(p, 'rb').read()
    return True


def outputs(s):
    """{path: input} of the files the command has to produce, apart from a link"""
    out = {}
    for i in s.inputs:
        if s.mode == 'c' and i['kind'] in ('c', 'stdin', 's'):
            out[s.o or base(i['name']) + '.o'] = i
        elif s.mode == 'S' and i['kind'] in ('c', 'stdin') and s.o != '-':
            out[s.o or base(i['name']) + '.s'] = i
        elif s.mode in 'EM' and s.o and s.o != '-':
            out[s.o] = i
    return out


def verdict(drv, s, d, cmd, r, alive, before, after, log, logdir):
    ctx = drv.ctx
    ctx.count()
    if r.timed_out:
        raise Violation('the driver hangs')
    if r.rc < 0:
        raise Violation('the driver dies from signal %d' % -r.rc)
    f = s.fault or ('none',)
    for p, c in before.items():
        if p not in after:
            raise Violation('a file of the user is removed', p)
        if after[p] != c and not (s.extra.get('existing') and p == (s.o or 'a.out')):
            raise Violation('an input is modified', p)
    left = [p for p in after if 'tmpfile' in p]
    if left:
        raise Violation('temporary files are left behind', str(left))
    if alive and f[0] != 'stray':
        raise Violation('processes are left behind')
    made = {p for p in after if p not in before}
    want = outputs(s)
    exe = (s.o or 'a.out') if s.mode == 'link' else None
    bad = [i for i in s.inputs if i.get('bad')]
    if f[0] in ('tool', 'shim') and not injected(s, logdir, r) and not s.extra.get('usage'):
        f = ('none',)
        ctx.bump('fault points not reached')
    harmless = f[0] in ('none', 'stray', 'sigchld') or (f[0] == 'closed' and s.extra.get('harmless'))
    ok = harmless and not bad and not s.extra.get('fails')
    ctx.seen('%s/%s/%s/%s' % (s.mode, ','.join(sorted({i['kind'] for i in s.inputs})), '-o' if s.o else '',
                              ':'.join(str(x) for x in f) if not ok else 'success ' + f[0]))
    ctx.bump('commands that must fail' if not ok else 'commands that must succeed')
    ctx.bump('assembler calls observed', len(log['as']))
    ctx.bump('linker calls observed', len(log['ld']))

    allowed = set(want) | ({exe} if exe else set())
    for i in s.inputs:
        if '-MD' in s.opts:
            allowed.add(base(s.o or i['name']) + '.d' if not s.o else os.path.join(os.path.dirname(s.o), base(s.o) + '.d'))
    extra = made - allowed
    if extra:
        raise Violation('files are created that were not asked for', str(sorted(extra)))
    if exe is None and log['ld']:
        raise Violation('the linker runs though no link was requested')

    if ok:
        if r.rc != 0:
            raise Violation('a command that should succeed fails')
        for p in want:
            if p not in after:
                raise Violation('an output is missing', p)
        check_outputs(drv, s, d, r, want, after, made)
        if exe and s.inputs:
            if exe not in after:
                raise Violation('no executable is produced')
            check_exe(drv, s, os.path.join(d, exe))
        if s.mode in ('c', 'S', 'link') and r.out and s.o != '-':
            raise Violation('something is printed on standard output', repr(r.out[:200]))
        return

    if r.rc == 0:
        raise Violation('a failure is not reported by the exit status')
    quiet = f[0] == 'tool' or (f[0] == 'shim' and 'kill' in f[2]) or (f[0] == 'fsize' and not f[2]) or \
        (f[0] == 'stdout' and f[1] == 'pipe' and not f[2]) or (f[0] == 'closed' and 2 in f[1])
    if not r.err and not quiet:
        raise Violation('a failure is reported without any message')
    # what was completed before the failure may stay, but has to be right
    writefault = f[0] in ('fsize', 'shim') or (f[0] == 'tool' and f[1].endswith('partial')) or \
        (f[0] == 'tool' and 'after' in f[1])
    for p, i in want.items():
        if p not in made:
            continue
        if i.get('bad') and not (s.mode in 'EM' and i['bad'] not in PPBAD):
            raise Violation('an output is left for an input that failed', p)
        if not writefault:
            if f[0] == 'tool' and s.mode == 'c':
                k = int(f[1].split(':')[1])
                if list(want).index(p) == k - 1:
                    raise Violation('an output is left for an input that failed', p)
            check_outputs(drv, s, d, r, {p: i}, after, made)
    if exe and exe in made:
        if not writefault and not (f[0] == 'tool' and f[1].startswith('ld')):
            raise Violation('an executable is left by a command that failed')
    if exe and log['ld'] and (bad and any(i['kind'] in ('c', 'stdin', 's') for i in bad) or (f[0] == 'tool' and f[1].startswith('as'))):
        raise Violation('the linker runs though an earlier stage failed')


def check_outputs(drv, s, d, r, want, after, made):
    """Objects and assembly have to be what each stage gives on its own."""
    for p, i in want.items():
        if p.startswith('/'):
            continue
        data = after[p]
        if s.mode == 'c':
            ref = ref_object(drv, i)
            got = symbols(os.path.join(d, p))
            if ref != got:
                raise Violation('an object does not have the contents of its source', '%s: %s instead of %s' % (p, got, ref))
        elif s.mode == 'S':
            if b'v%d:' % i['id'] not in data or (b'main:' in data) != (b'main' in i['text']):
                raise Violation('assembly output is not that of its source', p)
        elif s.mode == 'E':
            for j in s.inputs:
                if b'int v%d' % j['id'] not in data:
                    raise Violation('preprocessed output is incomplete', p)
        elif s.mode == 'M':
            if mkname(i['name']) not in data:
                raise Violation('dependency output does not name the source', p)
    if s.mode in 'SEM' and (s.o == '-' or (s.mode in 'EM' and not s.o)) and r.rc == 0 and not (s.fault and s.fault[0] in ('stdout', 'closed')):
        need = {'S': b'v%d:', 'E': b'int v%d', 'M': None}[s.mode]
        pos = -1
        for i in s.inputs:
            if i['kind'] not in ('c', 'stdin'):
                continue
            n = mkname(i['name']) if need is None else need % i['id']
            q = r.out.find(n, pos + 1)
            if q < 0:
                raise Violation('standard output is incomplete or in another order', '%r missing' % n)
            pos = q


def symbols(obj):
    """defined functions with their size, and the bytes of .text and .data"""
    r = run(['riscv64-linux-gnu-nm', '-S', '--defined-only', obj], 30)
    if r.rc:
        return 'not an object: ' + txt(r.err)[:100]
    syms = sorted(l.split()[-1] for l in txt(r.out).split('\n') if re.search(r' [TD] ', l))
    r = run(['riscv64-linux-gnu-objdump', '-d', '--no-show-raw-insn', obj], 30)
    code = hashlib.sha1(r.out.split(b'Disassembly', 1)[-1]).hexdigest()[:12]
    return syms, code


def ref_object(drv, i):
    """the same input through -cc1 and the assembler by hand"""
    key = (i['kind'], i['text'])
    with drv.ctx.lock:
        if key in drv.refs:
            return drv.refs[key]
    d = drv.ctx.uniq('ro')
    if i['kind'] == 's':
        with open(os.path.join(d, 'u.s'), 'wb') as f:
            f.write(drv.asm_of(i['text'])['s'])
    else:
        with open(os.path.join(d, 'u.c'), 'wb') as f:
            f.write(i['text'])
        r = run([drv.exe, '-cc1', '-cc1-input', 'u.c', '-cc1-output', 'u.s', 'u.c'], 60, cwd=d)
        if r.rc:
            raise Violation('a valid source is rejected', txt(r.err))
    r = run(['riscv64-linux-gnu-as', '-o', 'u.o', 'u.s'], 60, cwd=d)
    v = symbols(os.path.join(d, 'u.o'))
    shutil.rmtree(d, ignore_errors=True)
    with drv.ctx.lock:
        drv.refs[key] = v
    return v


def check_exe(drv, s, exe):
    ctx = drv.ctx
    if '-shared' in s.opts:
        r = run(['riscv64-linux-gnu-readelf', '-h', '--dyn-syms', '-W', exe], 30)
        t = txt(r.out)
        if 'DYN' not in t or any(not re.search(r'\bv%d\b' % i['id'], t) for i in s.inputs if 'id' in i):
            raise Violation('a shared library lacks its symbols', t[:1500])
        return
    if not os.access(exe, os.X_OK):
        raise Violation('the executable is not executable')
    r = run(QEMU + [exe], 60)
    want = sum(1 << i['id'] for i in s.inputs if 'id' in i) + s.extra.get('plus', 0)
    if r.rc != want % 256:
        raise Violation('the linked program gives another result', 'status %s, expected %d %s' % (r.rc, want, txt(r.err)[:300]))
    t = txt(run(['riscv64-linux-gnu-readelf', '-lS', '-W', exe], 30).out)
    if ('INTERP' in t) == ('-static' in s.opts):
        raise Violation('-static is not respected', t[:800])
    if ('.symtab' in t) == ('-s' in s.opts):
        raise Violation('-s is not respected', t[:800])
    ctx.bump('linked programs run')


NAMES = ['u%d', 'sub/u%d', 'a dir/u %d', 'x.y/u%d', 'u.%d.z', './u%d', 'u$%d', 'u"%d', 'u\\%d\\t', "u'%d;", 'u%d\u00e9']


def inp(kind, k, rnd=None, **kw):
    n = (rnd.choice(NAMES) if rnd else 'u%d') % k
    if kind == 'stdin':
        return dict(kind=kind, name='-', **kw)
    if kind == 'lib':
        return dict(kind=kind, name='ld/libu%d.a' % k, **kw)
    return dict(kind=kind, name=n + {'c': '.c', 's': '.s', 'o': '.o', 'a': '.a'}[kind], **kw)


TOOLFAULTS = ['exit1', 'exit2', 'exit77', 'exit127', 'exit128', 'exit255', 'late1', 'kill9', 'kill11', 'kill15', 'kill6', 'kill1', 'after1', 'after3', 'partial']


def systematic(ctx):
    C = lambda k, **kw: inp('c', k, **kw)
    out = []
    shapes = [['c'], ['c', 'c', 'c'], ['c', 's', 'o'], ['c', 'o', 'a'], ['s', 'c'], ['c', 'lib']]
    fl = lambda sh: ['-L', 'ld'] if 'lib' in sh else []
    # 1. success in every mode
    for sh in shapes:
        for m in MODES:
            if m in 'EM' and set(sh) != {'c'}:
                continue
            for o in (None, 'out', 'sub/out.x', '-'):
                if o == '-' and m not in 'SE':
                    continue
                nfile = len([k for k in sh if k != 'lib'])
                if o and m != 'link' and nfile > 1:
                    if m != 'M':
                        out.append(Scn([inp(k, n) for n, k in enumerate(sh)], m, o, None, fl(sh), extra={'fails': True, 'nooutput': True}))
                    continue
                for style in (0, 1):
                    for ex in ({}, {'existing': True}):
                        if ex and (o == '-' or (o is None and m != 'link') or (o and '/' in o)):
                            continue
                        if style and o is None:
                            continue
                        out.append(Scn([inp(k, n) for n, k in enumerate(sh)], m, o, None, fl(sh), ostyle=style, extra=dict(ex, order=len(out) % 3)))
    # 2. standard input
    for m in MODES:
        for o in (None, 'res'):
            out.append(Scn([inp('stdin', 0)], m, o, None, ['-xc']))
            out.append(Scn([inp('stdin', 0, bad='syntax' if m not in 'EM' else 'error')], m, o, None, ['-xc']))
    # 3. an invalid input at each position
    for m in MODES:
        for b in list(BAD) + ['missing', 'directory']:
            if m in 'EM' and b not in PPBAD + ['missing', 'directory']:
                continue
            for n in (1, 3):
                for at in range(n):
                    out.append(Scn([C(k, **({'bad': b} if k == at else {})) for k in range(n)], m, extra={'main': 0}))
            out.append(Scn([C(0, bad=b)], m, 'res'))
    for kind in 'soa':
        for b in ('missing', 'garbage'):
            for at in (0, 1):
                sh = [inp('c', 0), inp('c', 1)]
                sh[at] = inp(kind, at, bad=b)
                out.append(Scn(sh, 'link', extra={'main': 1 - at}))
    out.append(Scn([inp('s', 0, bad='garbage')], 'c'))
    out.append(Scn([inp('c', 0), inp('s', 1, bad='missing'), inp('c', 2)], 'c'))
    # 4. the assembler and the linker fail at each call
    for how in TOOLFAULTS:
        for n in (1, 2, 3):
            for k in range(1, n + 1):
                for m in ('link', 'c'):
                    out.append(Scn([C(j) for j in range(n)], m, None, ('tool', 'as:%d:%s' % (k, how))))
        out.append(Scn([C(0)], 'c', 'res', ('tool', 'as:1:' + how)))
        out.append(Scn([inp('s', 0), C(1)], 'c', None, ('tool', 'as:1:' + how)))
        out.append(Scn([inp('s', 0), C(1)], 'link', None, ('tool', 'as:1:' + how)))
        for sh in (['c'], ['c', 'c'], ['c', 'o'], ['o']):
            for o in (None, 'prog'):
                out.append(Scn([inp(k, n) for n, k in enumerate(sh)], 'link', o, ('tool', 'ld:1:' + how)))
    for t in ('as', 'ld'):
        for how in ('missing', 'noexec'):
            for m in ('link', 'c'):
                if (t, m) != ('ld', 'c'):
                    out.append(Scn([C(0), C(1)], m, None, ('path', '%s-%s' % (t, how))))
    # 5. the compiler proper dies or cannot read or write; the driver cannot fork or make temporary files
    for m in MODES:
        for sig in (1, 2, 6, 9, 11, 13, 14, 15):
            for w in ('kill', 'killexit'):
                out.append(Scn([C(0)], m, None, ('shim', 'cc1', '%s:%d' % (w, sig))))
        for flt in ('fopenr:1', 'fopenw:1', 'fclosew:1'):
            for o in (None, 'res'):
                if flt != 'fopenr:1' and m in 'EM' and o is None:
                    continue
                out.append(Scn([C(0)], m, o, ('shim', 'cc1', flt)))
        for n in range(1, 7):
            if m in ('S', 'E', 'M') and n > 2:
                continue
            if n > {'link': 5, 'c': 4}.get(m, 2):
                continue
            out.append(Scn([C(0), C(1)], m, None, ('shim', 'driver', 'fork:%d' % n)))
        for n in range(1, 5):
            if n > {'link': 4, 'c': 2}.get(m, 0):
                continue
            out.append(Scn([C(0), C(1)], m, None, ('shim', 'driver', 'mkstemp:%d' % n)))
    # 6. output that cannot be written
    for m in MODES:
        out.append(Scn([C(0)], m, '/dev/full', extra={'fails': True}))
        out.append(Scn([C(0, filler=300)], m, '/dev/full', extra={'fails': True}))
        out.append(Scn([C(0)], m, 'no/such/dir/res', extra={'fails': True, 'mkdir': False}))
        out.append(Scn([C(0)], m, 'adir', extra={'fails': True, 'odir': True}))
        for ign in (0, 1):
            for lim in (64, 1024, 8192, 16384):
                if m != 'M':
                    out.append(Scn([C(0, filler=600)], m, 'res', ('fsize', lim, ign)))
                    if m in ('c', 'S', 'link'):
                        out.append(Scn([C(0, filler=600)], m, None, ('fsize', lim, ign)))
    for m in 'EMS':
        big = C(0, filler=600)
        o = '-' if m == 'S' else None
        for i in (C(0), big):
            out.append(Scn([dict(i)], m, o, ('stdout', 'full')))
            for ign in (0, 1):
                out.append(Scn([dict(i)], m, o, ('stdout', 'pipe', ign)))
        out.append(Scn([C(0)], m, o, ('closed', (1,))))
    for m in ('link', 'c', 'S'):
        for fds in ((0,), (1,), (0, 1), (2,), (0, 1, 2)):
            out.append(Scn([C(0)], m, 'res', ('closed', fds), extra={'harmless': True}))
    # 7. circumstances that are no failures
    for m in MODES:
        for st in (0, 1, 3):
            out.append(Scn([C(0), C(1)], m, None, ('stray', st)))
            out.append(Scn([C(0), C(1, bad='error')], m, None, ('stray', st)))
        out.append(Scn([C(0), C(1)], m, None, ('sigchld',)))
        out.append(Scn([C(0), C(1, bad='error')], m, None, ('sigchld',)))
    # 8. linking options
    for opts in (['-static'], ['-s'], ['-static', '-s'], ['-Wl,-s', '-s'], ['-Wl,--no-gc-sections,-O1'], ['-Xlinker', '--no-gc-sections'], ['-###'],
                 ['-Wl,--defsym=magic=42'], ['-O2', '-Wall', '-g', '-std=c11', '-fno-builtin']):
        for sh in (['c'], ['c', 's', 'o', 'a']):
            if '-###' in opts and 0:
                continue
            out.append(Scn([inp(k, n) for n, k in enumerate(sh)], 'link', 'prog', None, opts))
    out.append(Scn([C(0), C(1)], 'link', 'lib.so', None, ['-shared', '-fpic']))
    out.append(Scn([inp('o', 0), inp('c', 1), inp('a', 2)], 'link', 'prog', None, ['-lm', '-Wl,-z,now'], extra={'main': 0}))
    out.append(Scn([C(0), C(1)], 'c', None, None, ['-lm', '-Wl,-z,now']))
    out.append(Scn([C(0)], 'c', 'x.o', None, ['-lm', '-Wl,-z,now', '-s', '-Lnowhere']))
    out.append(Scn([C(0), C(1)], 'c', None, None, ['-MD']))
    out.append(Scn([C(0)], 'c', 'sub/x.o', None, ['-MD']))
    out.append(Scn([C(0)], 'link', None, None, ['-lnosuchlibrary'], extra={'fails': True}))
    # 9. command lines that are no good
    for a in (['-o'], ['-I'], ['-D'], ['-U'], ['-L'], ['-x'], ['-include'], ['-idirafter'], ['-MF'], ['-MT'], ['-MQ'], ['-Xlinker'],
              ['-x', 'fortran'], ['-xada'], ['-fno-such-option'], ['--nonsense'], ['-q'], ['u0.txt'], ['u0'], ['-include', 'no-such-file']):
        for m in ('link', 'c'):
            out.append(Scn([C(0)], m, None, None, a, extra={'fails': True, 'order': 2}))
    for m in MODES:
        out.append(Scn([], m, None, None, [], extra={'fails': True}))
        out.append(Scn([], m, 'res', None, [], extra={'fails': True}))
    # 10. names
    for n in NAMES:
        for m in MODES:
            out.append(Scn([dict(kind='c', name=n % 0 + '.c')], m, None))
            if m != 'M':
                out.append(Scn([dict(kind='c', name=n % 0 + '.c'), dict(kind='c', name='t/' + n % 1 + '.c')], m, None))
    out.append(Scn([C(0)], 'link', None, ('nocwd',)) if 0 else Scn([C(0)], 'link'))
    return out


def randomized(ctx, n):
    out = []
    for q in range(n):
        rnd = ctx.sub('r', q)
        m = rnd.choice(['link', 'link', 'c', 'c', 'S', 'E', 'M'])
        cnt = rnd.randint(1, 6)
        if m in 'EM':
            sh = ['c'] * cnt
        elif m == 'S':
            sh = [rnd.choice('cccs') for _ in range(cnt)]
        else:
            sh = [rnd.choice(['c', 'c', 'c', 's', 'o'] + (['a', 'lib'] if m == 'link' else [])) for _ in range(cnt)]
            if sh[0] in ('a', 'lib'):
                sh[0] = 'c'
        inputs = [inp(k, j, rnd) for j, k in enumerate(sh)]
        o = None
        if m == 'link' or (cnt == 1 and not (m == 'S' and sh == ['s'])):
            o = rnd.choice([None, 'prog', 'sub/prog.exe', 'a b'])
        elif m == 'M':
            o = None
        fault = None
        cc = [j for j, k in enumerate(sh) if k == 'c']
        asn = [j for j, k in enumerate(sh) if k in 'cs']
        w = rnd.random()
        if w < 0.2 and cc:
            inputs[rnd.choice(cc)]['bad'] = rnd.choice(PPBAD + ['missing'] if m in 'EM' else list(BAD) + ['missing'])
        elif w < 0.4 and asn and m in ('link', 'c'):
            fault = ('tool', 'as:%d:%s' % (rnd.randint(1, len(asn)), rnd.choice(TOOLFAULTS)))
        elif w < 0.5 and m == 'link':
            fault = ('tool', 'ld:1:' + rnd.choice(TOOLFAULTS))
        elif w < 0.55:
            fault = ('stray', rnd.randint(0, 1))
        elif w < 0.7:
            fault = ('shim', 'driver', 'fork:%d' % rnd.randint(1, 8))
        opts = ['-L', 'ld'] if 'lib' in sh else []
        opts += rnd.choice([[], [], ['-static'], ['-###'], ['-O2', '-g'], ['-fpic'], ['-DX=1', '-UX']]) if m == 'link' else []
        if '-###' in opts and m == 'link':
            pass
        out.append(Scn(inputs, m, o, fault, opts, ostyle=rnd.randint(0, 1), extra={'order': rnd.randint(0, 2), 'main': 0}))
    return out


def concurrent_runs(drv, q):
    """Several compilers at work in one directory do not disturb one another."""
    ctx = drv.ctx
    rnd = ctx.sub('conc', q)
    d = ctx.uniq('cc')
    logdir = ctx.uniq('log')
    jobs = []
    n = rnd.randint(4, 10)
    for k in range(n):
        texts = [b'int f(void); int main(void) { return f() + %d; }\n' % k, b'int f(void) { return %d; }\n' % (100 - 3 * k)]
        bad = rnd.random() < 0.3
        if bad:
            texts[1] = BAD['syntax']
        for j, t in enumerate(texts):
            with open(os.path.join(d, 'p%d_%d.c' % (k, j)), 'wb') as f:
                f.write(t)
        jobs.append((k, bad, 100 - 3 * k + k))
    env = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C'}
    ps = [subprocess.Popen([drv.exe, '-o', 'p%d' % k, 'p%d_0.c' % k, 'p%d_1.c' % k], cwd=d, env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for k, _, _ in jobs]
    for p in ps:
        p.wait(300)
    for p, (k, bad, want) in zip(ps, jobs):
        ctx.count()
        exe = os.path.join(d, 'p%d' % k)
        if bad:
            if p.returncode == 0 or os.path.exists(exe):
                ctx.violate('a failing command succeeds while others run in the same directory', 'job %d status %s' % (k, p.returncode))
        elif p.returncode != 0 or not os.path.exists(exe):
            ctx.violate('a command fails while others run in the same directory', 'job %d status %s' % (k, p.returncode))
        else:
            r = run(QEMU + [exe], 60)
            if r.rc != want % 256:
                ctx.violate('a command gives another result while others run in the same directory', 'job %d: %s, expected %d' % (k, r.rc, want))
    left = [f for f in os.listdir(d) if 'tmpfile' in f]
    if left:
        ctx.violate('temporary files are left behind by concurrent commands', str(left))
    ctx.bump('concurrent commands', n)
    ctx.seen('concurrent')
    shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(logdir, ignore_errors=True)


def history(drv, q):
    """A sequence of commands in one directory: separate compilation, relinking."""
    ctx = drv.ctx
    rnd = ctx.sub('h', q)
    d = ctx.uniq('hist')
    env = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C'}
    n = rnd.randint(2, 4)
    val = [rnd.randint(1, 40) for _ in range(n)]
    steps = []

    def write(k):
        t = 'int v%d(void) { return %d; }\n' % (k, val[k])
        if k == 0:
            t += ''.join('int v%d(void);\n' % j for j in range(1, n)) + 'int main(void) { return %s; }\n' % ' + '.join('v%d()' % j for j in range(n))
        with open(os.path.join(d, 'm%d.c' % k), 'w') as f:
            f.write(t)
    for k in range(n):
        write(k)
    obj = {}                       # state of m<k>.o and m<k>.s: the value compiled into it
    asm = {}
    files = {'m%d.c' % k for k in range(n)}

    def cmd(*a):
        steps.append(' '.join(a))
        r = run([drv.exe, *a], 120, cwd=d, env=env)
        ctx.count()
        return r
    for _ in range(rnd.randint(4, 9)):
        w = rnd.random()
        k = rnd.randrange(n)
        if w < 0.25:
            val[k] = rnd.randint(1, 40)
            write(k)
            steps.append('edit m%d.c' % k)
            continue
        if w < 0.5:
            ks = rnd.sample(range(n), rnd.randint(1, n))
            r = cmd('-c', *['m%d.c' % j for j in ks])
            ok = r.rc == 0
            for j in ks:
                obj[j] = val[j]
                files.add('m%d.o' % j)
        elif w < 0.65:
            r = cmd('-S', 'm%d.c' % k)
            asm[k] = val[k]
            files.add('m%d.s' % k)
            ok = r.rc == 0
        elif w < 0.75 and k in asm:
            r = cmd('-c', 'm%d.s' % k)
            obj[k] = asm[k]
            files.add('m%d.o' % k)
            ok = r.rc == 0
        else:
            names, want = [], 0
            for j in range(n):
                c = [('m%d.c' % j, val[j])] + ([('m%d.o' % j, obj[j])] if j in obj else []) + ([('m%d.s' % j, asm[j])] if j in asm else [])
                nm, v = rnd.choice(c)
                names.append(nm)
                want += v
            rnd.shuffle(names)
            r = cmd('-o', 'prog', *names)
            files.add('prog')
            ok = r.rc == 0
            if ok:
                x = run(QEMU + [os.path.join(d, 'prog')], 60)
                if x.rc != want % 256:
                    ctx.violate('a program linked from several kinds of files gives another result', 'expected %d, got %s\n%s' % (want, x.rc, '\n'.join(steps)))
                ctx.bump('linked programs run')
        if not ok:
            ctx.violate('a command that should succeed fails: %s' % re.sub(r'\d', 'N', steps[-1])[:60], '%s\n%s' % ('\n'.join(steps), txt(r.err)))
            break
        got = set(os.listdir(d))
        if got != files:
            ctx.violate('a sequence of commands leaves other files than requested', '%s\nextra %s missing %s' % ('\n'.join(steps), got - files, files - got))
            break
    ctx.seen('history')
    shutil.rmtree(d, ignore_errors=True)


def check(ctx):
    ctx.rule = 'a mode x kinds of inputs x output option x fault (or success) combination that was executed and judged'
    ctx.assumptions = ['the assembler and the linker behave as binutils do', 'signals sent to the driver itself are out of scope']
    drv = Driver(ctx)
    jobs = systematic(ctx)
    ctx.extra['systematic scenarios'] = len(jobs)
    jobs += randomized(ctx, ctx.scale(700, 6000))
    ctx.pmap(lambda s: judge(drv, s), jobs)
    ctx.pmap(lambda q: history(drv, q), range(ctx.scale(80, 800)))
    ctx.pmap(lambda q: concurrent_runs(drv, q), range(ctx.scale(12, 100)), 3)
    ctx.sample('each of %d command lines x faults: status, files created/changed/left, calls of the stand-ins, result of the linked program' % len(jobs))
    for s in ctx.rnd.sample(jobs, 5):
        ctx.sample(s.label())


if __name__ == "__main__":
    main('C13', check, 'fault_enumeration')
