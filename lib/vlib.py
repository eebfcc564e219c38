"""Shared machinery: builds toycc from /repo's working tree, runs monitored
programs, decides verdicts and writes evidence."""
import concurrent.futures, hashlib, json, os, random, re, resource, shutil, signal
import struct, subprocess, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
# fixes what depends on the clock, for checks that compare two compilations of one text
CLOCK = [x for n, v in (("__DATE__", "Jan  1 2020"), ("__TIME__", "00:00:00"), ("__TIMESTAMP__", "Wed Jan  1 00:00:00 2020")) for x in ("-U" + n, "-D%s=\"%s\"" % (n, v))]
RVGCC = 'riscv64-linux-gnu-gcc'
QEMU = ['qemu-riscv64', '-L', '/usr/riscv64-linux-gnu']
NPROC = os.cpu_count() or 4
REFFLAGS = ['-w', '-std=gnu11', '-fsigned-char', '-march=rv64g', '-mabi=lp64d',
            '-ffp-contract=off', '-fno-builtin', '-fno-strict-aliasing',
            '-fno-stack-protector']


# A check may be started with signals ignored (nohup, background jobs) or
# blocked; the programs it runs must not inherit that.  A handler, unlike
# SIG_IGN, is reset to the default by exec.
for _s in set(signal.Signals) - {signal.SIGKILL, signal.SIGSTOP, signal.SIGCHLD}:
    try:
        if signal.getsignal(_s) == signal.SIG_IGN and _s not in (signal.SIGPIPE, signal.SIGXFSZ):
            signal.signal(_s, lambda *a: None)
    except (OSError, ValueError):
        pass
signal.signal(signal.SIGCHLD, signal.SIG_DFL)
signal.pthread_sigmask(signal.SIG_SETMASK, [])


class HarnessError(Exception):
    pass


class Violation(Exception):
    """key: short stable identification of what fails (matched against the
    known findings); detail: text of the replay file."""
    def __init__(self, key, detail=''):
        super().__init__(key)
        self.key, self.detail = key, detail


class Res:
    def __init__(self, rc, out, err, timed_out=False):
        self.rc, self.out, self.err, self.timed_out = rc, out, err, timed_out

    @property
    def sig(self):
        return -self.rc if self.rc is not None and self.rc < 0 else 0


def _limits(mem_mb, fsize_mb):
    def f():
        if mem_mb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_mb << 20, mem_mb << 20))
        if fsize_mb:
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize_mb << 20, fsize_mb << 20))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run(cmd, timeout=60, cwd=None, env=None, inp=None, mem_mb=0, fsize_mb=200, retry=True,
        stdout=None):
    """Run a command in its own process group.  A timeout is retried once with
    a much longer limit, so that only a real hang is reported as timed_out."""
    p = subprocess.Popen([str(c) for c in cmd], cwd=cwd, env=env,
                         stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         stdout=stdout or subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True, preexec_fn=_limits(mem_mb, fsize_mb))
    try:
        out, err = p.communicate(inp, timeout=timeout)
        return Res(p.returncode, out or b'', err or b'')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        if retry:
            return run(cmd, timeout * 3, cwd, env, inp, mem_mb, fsize_mb, False, stdout)
        return Res(None, out or b'', err or b'', True)


SRC_DIRS = ['', 'preprocessor', 'parser']


def sources():
    out = []
    for d in SRC_DIRS:
        p = os.path.join(REPO, d)
        for f in sorted(os.listdir(p)):
            if f.endswith('.c'):
                out.append(os.path.join(d, f))
    return out


class Ctx:
    def __init__(self, prop, level='exploration'):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if len(sys.argv) > 1 and sys.argv[1] in ('quick', 'thorough'):
            self.tier = sys.argv[1]
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.rnd = random.Random('%s-%d' % (prop, self.seed))
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='toycc-verif-%s-' % prop)
        self.lock = threading.Lock()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.extra = {}
        self.violations = []
        self.inconclusive = []
        self.rule = ''
        self.assumptions = []
        self._bins = {}
        self.n = 0
        self._evo = None
        self.max_viol = int(os.environ.get('VERIF_MAXV', '3'))
        self._known = None

    # ---- tiers
    def scale(self, quick, thorough):
        return thorough if self.tier == 'thorough' else quick

    def sub(self, *key):
        return random.Random('%s-%d-%s' % (self.prop, self.seed, '-'.join(map(str, key))))

    def path(self, name):
        return os.path.join(self.tmp, name)

    def uniq(self, prefix='w'):
        with self.lock:
            self.n += 1
            d = os.path.join(self.tmp, '%s%d' % (prefix, self.n))
        os.mkdir(d)
        return d

    # ---- building toycc
    def toycc(self, kind='plain'):
        """Build toycc from /repo's current working tree; returns the binary."""
        with self.lock:
            if kind in self._bins:
                return self._bins[kind]
            d = os.path.join(self.tmp, 'bin-' + kind)
            os.makedirs(d)
            flags = {
                'plain': ['gcc', '-O1'],
                'asan': ['gcc', '-O1', '-fsanitize=address,undefined',
                         '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
                'msan': ['clang', '-O1', '-fsanitize=memory', '-fno-omit-frame-pointer'],
            }[kind]
            base = flags[:1] + ['-std=c2x', '-g', '-fno-common', '-w', '-DDEBUG',
                                '-I' + REPO, '-I' + REPO + '/parser',
                                '-I' + REPO + '/preprocessor'] + flags[1:]
            objs = []

            def one(s):
                o = os.path.join(d, s.replace('/', '_')[:-2] + '.o')
                r = run(base + ['-c', '-o', o, os.path.join(REPO, s)], 300, cwd=REPO)
                return o, r
            with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
                for o, r in ex.map(one, sources()):
                    if r.rc != 0:
                        raise HarnessError('building toycc failed: ' + r.err.decode('utf8', 'replace')[:2000])
                    objs.append(o)
            exe = os.path.join(d, 'toycc')
            r = run(base + ['-o', exe] + objs, 300)
            if r.rc != 0:
                raise HarnessError('linking toycc failed: ' + r.err.decode('utf8', 'replace')[:2000])
            shutil.copytree(os.path.join(REPO, 'include'), os.path.join(d, 'include'))
            self._bins[kind] = exe
            return exe

    def evo(self):
        with self.lock:
            if self._evo is None:
                o = self.path('ev.o')
                r = run([RVGCC, '-O1', '-ffreestanding', '-fno-builtin', '-fno-tree-loop-distribute-patterns',
                         '-c', '-o', o, os.path.join(VERIF, 'rt', 'ev.c')], 120)
                if r.rc != 0:
                    raise HarnessError('ev.o: ' + r.err.decode())
                self._evo = o
            return self._evo

    # ---- compile / run
    def cc_toy(self, src, obj, flags=(), kind='plain', timeout=60, cwd=None):
        return run([self.toycc(kind), *flags, '-c', '-o', obj, src], timeout,
                   cwd=cwd or os.path.dirname(src))

    def cc_ref(self, src, obj, flags=(), opt='-O0', timeout=120):
        r = run([RVGCC, *REFFLAGS, opt, *flags, '-c', '-o', obj, src], timeout,
                cwd=os.path.dirname(src))
        return r

    def link(self, objs, exe, extra=()):
        r = run([RVGCC, '-static', '-nostdlib', '-o', exe, *objs, self.evo(), *extra, '-lgcc'], 60)
        return r

    def execute(self, exe, timeout=30, args=()):
        return run(QEMU + [exe, *args], timeout)

    # ---- verdicts
    def count(self, n=1):
        with self.lock:
            self.evaluations += n

    def seen(self, *keys):
        with self.lock:
            self.distinct.update(keys)

    def bump(self, name, n=1):
        with self.lock:
            self.extra[name] = self.extra.get(name, 0) + n

    def sample(self, s, limit=6):
        with self.lock:
            if len(self.samples) < limit:
                self.samples.append(s)

    def violate(self, key, detail, files=None):
        """Record a violation (deduplicated by key)."""
        with self.lock:
            if any(v[0] == key for v in self.violations):
                return
            self.violations.append((key, detail, files or {}))

    def enough(self):
        if self._known is None:
            self._known = set(load_known(self.prop))
        return len([v for v in self.violations if v[0] not in self._known]) >= self.max_viol

    def inconcl(self, what):
        with self.lock:
            self.inconclusive.append(what)

    def pmap(self, fn, items, workers=NPROC):
        """Run fn over items in parallel; stops handing out work once enough
        violations are recorded."""
        def g(x):
            if self.enough():
                return None
            return fn(x)
        with concurrent.futures.ThreadPoolExecutor(workers) as ex:
            futs = [ex.submit(g, x) for x in items]
            return [f.result() for f in futs]

    # ---- finishing
    def finish(self):
        known = load_known(self.prop)
        bad, quiet = [], []
        for key, detail, files in self.violations:
            k = next((k for k in known if k == key), None)
            (quiet if k else bad).append((key, detail, files))
        for key, _, _ in quiet:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, key))
        rep = None
        if bad:
            rd = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(rd, exist_ok=True)
            for i, (key, detail, files) in enumerate(bad[:self.max_viol]):
                h = hashlib.sha1(key.encode()).hexdigest()[:8]
                base = os.path.join(rd, '%s-%s' % (self.prop, h))
                with open(base + '.txt', 'w') as f:
                    f.write('property %s\nseed %d tier %s\nkey: %s\n\n%s\n' % (
                        self.prop, self.seed, self.tier, key, detail))
                for name, text in files.items():
                    with open(base + '-' + name, 'wb') as f:
                        f.write(text if isinstance(text, bytes) else text.encode('utf8', 'surrogateescape'))
                rep = base + '.txt'
                print('  ' + key[:300])
                print('VIOLATION property=%s replay=%s' % (self.prop, rep))
        cov = {'evaluations': self.evaluations, 'distinct_nontrivial': len(self.distinct),
               'rule': self.rule, 'samples': self.samples[:8] or ['(none)']}
        cov.update(self.extra)
        if self.inconclusive:
            cov['inconclusive'] = len(self.inconclusive)
            cov['inconclusive_samples'] = self.inconclusive[:5]
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(bad)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        print('%s %s seed=%d: %d evaluations, %d distinct, %d violations, %d inconclusive, %.1fs' % (
            self.prop, self.tier, self.seed, self.evaluations, len(self.distinct), len(bad),
            len(self.inconclusive), time.time() - self.t0))
        return 1 if bad else 0


def load_known(prop):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(.*)$', line.rstrip('\n'))
            if m and m[1] == prop:
                out.append(m[2])
    return out


def main(prop, fn, level='exploration'):
    ctx = Ctx(prop, level)
    rc = 3
    try:
        fn(ctx)
        if ctx.evaluations == 0 and not ctx.violations:
            raise HarnessError('nothing was observed')
        rc = ctx.finish()
    except HarnessError as e:
        print('HARNESS-ERROR', e)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def parse_events(b):
    n = len(b) // 16
    return [struct.unpack_from('<qq', b, 16 * i) for i in range(n)]


def s64(v):
    v &= (1 << 64) - 1
    return v - (1 << 64) if v >> 63 else v


def txt(b):
    return b.decode('utf8', 'replace') if isinstance(b, bytes) else b
