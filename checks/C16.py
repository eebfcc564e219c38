import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *

# Random trees of headers are compiled with random dependency options.  A
# preloaded library records the files the compiler really opens; the rule it
# prints has to name exactly those, once each, in the way GNU make reads it.

WORDS = ['alpha', 'be ta', 'ga$mma', 'del#ta', 'eps', 'z-eta', 'e.ta', 'th eta two', 'io_ta', 'ka+ppa', 'la@mbda', 'mu,', 'n$u x', '$(omi)', 'pi%', 'o ', ' p', 'q$', '#r']
DIRS = ['', 'inc/', 'inc/deep/', 'sp ace/', 'do$lar/', 'ha#sh/', 'a/b/c/d/']


def unquote(text):
    """the rules of a dependency file, read as GNU make does: [(targets, prerequisites)]"""
    rules = []
    lines = re.sub(r'\\\n', ' ', text).split('\n')
    for l in lines:
        if not l.strip():
            continue
        words, cur, i, sep = [], '', 0, None
        have = False
        while i < len(l):
            c = l[i]
            if c == '\\':
                n = 0
                while i + n < len(l) and l[i + n] == '\\':
                    n += 1
                nxt = l[i + n] if i + n < len(l) else ''
                if nxt in (' ', '\t', '#') and nxt:
                    cur += '\\' * (n // 2)
                    if n % 2:
                        cur += nxt
                        i += n + 1
                    else:
                        i += n
                else:
                    cur += '\\' * n
                    i += n
                have = True
                continue
            if c == '$' and i + 1 < len(l) and l[i + 1] == '$':
                cur += '$'
                i += 2
                have = True
                continue
            if c in ' \t':
                if have:
                    words.append(cur)
                cur, have = '', False
                i += 1
                continue
            if c == ':' and sep is None:
                if have:
                    words.append(cur)
                cur, have = '', False
                sep = len(words)
                i += 1
                continue
            cur += c
            have = True
            i += 1
        if have:
            words.append(cur)
        if sep is None:
            raise Violation('the dependency output is no make rule', l)
        rules.append((words[:sep], words[sep:]))
    return rules


def make_reads(ctx, text, goal):
    """the names GNU make itself takes for prerequisites of goal"""
    d = ctx.uniq('mk')
    with open(os.path.join(d, 'dep.mk'), 'w') as f:
        f.write(text)
    with open(os.path.join(d, 'top.mk'), 'w') as f:
        f.write('.SUFFIXES:\ninclude dep.mk\n%: ; $(info [$@])@:\ndep.mk: ;\ntop.mk: ;\n')
    r = run(['make', '-rRB', '-j1', '-f', 'top.mk', '--', goal], 60, cwd=d, env={'PATH': '/usr/bin:/bin', 'LC_ALL': 'C'})
    shutil.rmtree(d, ignore_errors=True)
    names = re.findall(r'^\[(.*)\]$', txt(r.out), re.M)
    return r, names


def strip(n):
    while n.startswith('./'):
        n = n[2:].lstrip('/')
    return n


class Tree:
    def __init__(self, rnd, d, inst):
        self.rnd, self.d = rnd, d
        n = rnd.randint(1, 9)
        self.files = []
        words = rnd.sample(WORDS, n)
        for k in range(n):
            plain = rnd.random() < 0.5
            w = 'h%d' % k if plain else words[k] + str(k)
            self.files.append(rnd.choice(DIRS) + w + '.h')
        w = rnd.choice(WORDS)
        self.src = rnd.choice(['main.c', 'main.c', 'sub/src.c', w + 'x.c', 'sp ace/' + w + 's.c', './main.c', '../%s/main.c' % os.path.basename(d)])
        self.idirs = rnd.sample(['inc', 'inc/deep', 'sp ace', './inc', 'do$lar', 'a/b/c/d', d + '/inc'], rnd.randint(1, 4))
        self.flags = []
        for x in self.idirs:
            self.flags += ['-I', x] if rnd.random() < 0.5 else ['-I' + x]
        self.pre = []
        if rnd.random() < 0.25 and len(self.files) > 1:
            self.pre = [rnd.choice(self.files)]
            self.flags += ['-include', self.pre[0]]
        self.system = rnd.random() < 0.5
        for k, f in enumerate(self.files):
            self.write(f, self.header(k))
        body = ''
        # twins: the same name in two directories of the search path
        self.twin = rnd.random() < 0.4
        if self.twin:
            for x in self.idirs:
                self.write(os.path.join(x, 'twin.h') if not x.startswith('/') else os.path.relpath(os.path.join(x, 'twin.h'), d),
                           ('#pragma once\n' if rnd.random() < 0.3 else '') + ('#include_next <twin.h>\n' if rnd.random() < 0.5 and x != self.idirs[-1] and len({os.path.normpath(os.path.join(d, y)) for y in self.idirs}) == len(self.idirs) else '') + 'extern int twin;\n')
            body += '#include <twin.h>\n' + ('#include "twin.h"\n' if rnd.random() < 0.3 else '')
        # directories whose names begin as a standard one, and one inside it
        for x, h in (('include2', 'sib.h'), ('include.d', 'dot.h'), ('include/sys', 'inner.h')):
            if rnd.random() < 0.3:
                self.flags += ['-I' + os.path.join(inst, x)]
                body += '#include <%s>\n' % h
        for _ in range(rnd.randint(1, 5)):
            body += self.inc(self.src, rnd.randrange(len(self.files)))
        self.write(self.src, body + 'int main(void) { return 0; }\n')

    def write(self, rel, text):
        p = os.path.join(self.d, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(text)

    def inc(self, frm, k):
        rnd = self.rnd
        f = self.files[k]
        here = os.path.dirname(frm)
        # a spelling that finds it
        alts = [os.path.relpath(os.path.join(self.d, f), os.path.join(self.d, here))]
        if rnd.random() < 0.2:
            alts = ['./' + alts[0]]
        if rnd.random() < 0.1:
            alts = [os.path.join(self.d, f)]
        for x in self.idirs:
            if f.startswith(strip(x) + '/'):
                alts.append(f[len(strip(x)) + 1:])
        s = rnd.choice(alts)
        q = '"%s"' % s
        if s != alts[0] and rnd.random() < 0.5:
            q = '<%s>' % s
        w = rnd.random()
        if w < 0.12 and '"' in q:
            return '#define HDR%d %s\n#include HDR%d\n' % (k, q, k)
        if w < 0.22:
            return '#if 0\n#include "never.h"\n#else\n#include %s\n#endif\n' % q
        if w < 0.28:
            return '#ifdef NOPE\n#include %s\n#endif\n' % q
        if w < 0.34:
            return '#include %s\n#include %s\n' % (q, q)
        if w < 0.38:
            return '#if __has_include(%s)\nextern int has%d;\n#endif\n' % (q, k) if 0 else '#include %s\n' % q
        return '#include %s\n' % q

    def header(self, k):
        rnd = self.rnd
        t = 'extern int v%d;\n' % k
        for _ in range(rnd.randint(0, 3)):
            if k + 1 < len(self.files):
                t += self.inc(self.files[k], rnd.randrange(k + 1, len(self.files)))
        if self.system and rnd.random() < 0.3:
            t += '#include <%s>\n' % rnd.choice(['stddef.h', 'stdarg.h', 'limits.h', 'stdint.h', 'string.h', 'stdbool.h'])
        w = rnd.random()
        if w < 0.4:
            t = '#ifndef G%d\n#define G%d\n%s#endif\n' % (k, k, t)
        elif w < 0.6:
            t = '#pragma once\n' + t
        return t


MK = re.compile(r'[%*?\[\]~=:;|&<>]')


def base(n):
    b = n.rsplit('/', 1)[-1]
    return b.rsplit('.', 1)[0] if '.' in b else b


def one(env, q):
    ctx, exe, shim = env
    rnd = ctx.sub('t', q)
    d = ctx.uniq('dep')
    t = Tree(rnd, d, os.path.dirname(exe))
    opts, depfile, target, raw = [], None, None, None
    mode = rnd.choice(['M', 'M', 'Mo', 'MF', 'MD', 'MD', 'MDo', 'MDo', 'MDMF', 'MMD', 'MMDo', 'MDE', 'MDS', 'MDSo'])
    out = None
    oname = rnd.choice(['res.o', 'sub/res.o', 'o dir/re s.o', './res.x.o', 'noext', 'dir.d/noext', 'a$b.o', d + '/abs.o'])
    dname = rnd.choice(['deps', 'sub/deps.mk', 'o dir/d.d', 'x$y.d'])
    if 'o' in mode:
        os.makedirs(os.path.join(d, os.path.dirname(oname)), exist_ok=True)
    os.makedirs(os.path.join(d, os.path.dirname(dname)), exist_ok=True)
    deft = base(t.src) + '.o'
    dep_of = lambda o: os.path.join(os.path.dirname(o), base(o) + '.d')
    if mode == 'M':
        opts, target = ['-M'], deft
    elif mode == 'Mo':
        opts, target, depfile = ['-M', '-o', dname], deft, dname
    elif mode == 'MF':
        opts, target, depfile = ['-M', '-MF', dname], deft, dname
    elif mode in ('MD', 'MMD'):
        opts, target, depfile, out = ['-c', '-' + mode], deft, base(t.src) + '.d', base(t.src) + '.o'
    elif mode in ('MDo', 'MMDo'):
        opts, target, depfile, out = ['-c', '-' + mode[:-1], '-o', oname], oname, dep_of(oname), oname
    elif mode == 'MDMF':
        opts, target, depfile, out = ['-c', '-MD', '-MF', dname, '-o', oname], oname, dname, oname
        os.makedirs(os.path.join(d, os.path.dirname(oname)), exist_ok=True)
    elif mode == 'MDE':
        opts, target, depfile = ['-E', '-MD', '-MF', dname], deft, dname
    elif mode == 'MDS':
        opts, target, depfile, out = ['-S', '-MD', '-MF', dname], deft, dname, base(t.src) + '.s'
    elif mode == 'MDSo':
        opts, target, depfile, out = ['-S', '-MD', '-o', oname], oname, dep_of(oname), oname
    targets = [target]
    goal = target
    w = rnd.random()
    if w < 0.4:
        targets, mt = [], []
        for _ in range(rnd.randint(1, 3)):
            if rnd.random() < 0.5:
                x = rnd.choice(['t.o', 'obj/t%d.o' % rnd.randint(1, 9), 'two targets'])
                opts += ['-MT', x]
                targets += x.split()
            else:
                x = rnd.choice(['t q.o', '$(obj)/t.o', 'a#b.o', 'q.o', 'x$y', 'd r/f.o', '$$.o', 'a\\ b.o', 'w\\\\ x', 'tab\tx'])
                opts += ['-MQ', x]
                targets.append(x)
        goal = targets[0]
    mp = rnd.random() < 0.4
    if mp:
        opts.append('-MP')
    order = [t.src] if rnd.random() < 0.5 else []
    cmd = t.flags + (order + opts if order else opts + [t.src])
    log = os.path.join(d, 'the log')
    renv = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C', 'LD_PRELOAD': shim, 'SHIM_LOG': log}
    what = '%s%s' % (mode, ' -MP' if mp else '')
    try:
        if out and os.path.normpath(out) == os.path.normpath(depfile):
            return
        plain = ctx.path('unused')
        r0 = run([exe, *t.flags, '-E', t.src], 60, cwd=d)
        if r0.rc:
            # the tree itself is not valid (for example include_next past the end)
            if b'cannot open' not in r0.err and b'No such file' not in r0.err and b'not found' not in r0.err:
                raise Violation('a valid tree of headers is rejected', txt(r0.err)[:600])
            ctx.bump('trees with a missing header')
            return
        r = run([exe, *cmd], 60, cwd=d, env=renv)
        if r.rc:
            raise Violation('the command fails', txt(r.err)[:800])
        opened = []
        for l in open(log, errors='surrogateescape').read().split('\n'):
            if l[:2] == 'R ':
                opened.append(l[2:])
        if t.src not in opened:
            raise HarnessError('the record of opened files lacks the source: %r' % opened)
        read = list(dict.fromkeys(opened))
        if 'MMD' in mode:
            std = [os.path.dirname(exe) + '/include/', '/usr/local/include/', '/usr/riscv64-linux-gnu/include/', '/usr/include/']
            read = [x for x in read if not x.startswith(tuple(std))]
        text = txt(r.out) if depfile is None else open(os.path.join(d, depfile), errors='surrogateescape').read() if os.path.exists(os.path.join(d, depfile)) else None
        if text is None:
            raise Violation('no dependency file where the options say', '%s expected; there are %s' % (depfile, sorted(os.listdir(d))))
        if depfile is not None and mode != 'MDE' and r.out:
            raise Violation('something is printed on standard output', repr(r.out[:200]))
        rules = unquote(text)
        ctx.count()
        main_rules = [x for x in rules if x[1] or x[0] == targets]
        if len(main_rules) != 1 or rules[0] is not main_rules[0]:
            raise Violation('not exactly one rule with prerequisites', text)
        tg, pre = main_rules[0]
        if tg != targets:
            raise Violation('the rule has another target than the options request', 'expected %s, got %s\n%s' % (targets, tg, text))
        if len(pre) != len(set(pre)):
            raise Violation('a file is listed more than once', text)
        missing, extra = set(read) - set(pre), set(pre) - set(read)
        if missing:
            raise Violation('a file that was read is not listed', '%s\n%s' % (sorted(missing), text))
        if extra:
            raise Violation('a file is listed that was not read', '%s\n%s' % (sorted(extra), text))
        if pre[0] != t.src:
            raise Violation('the source is not the first prerequisite', text)
        phony = [x[0] for x in rules[1:]]
        wantp = [[x] for x in pre[1:]] if mp else []
        if sorted(phony) != sorted(wantp):
            raise Violation('phony targets are not exactly the headers' if mp else 'there are phony targets without -MP', text)
        # what make makes of it
        if not any(MK.search(strip(x)) for x in pre + targets) and '\\' not in ''.join(targets):
            for g in targets:
                if re.search(r'[\t]', g):
                    continue
                mr, names = make_reads(ctx, text, g)
                want = {strip(x) for x in pre} | {strip(g)}
                if mr.rc or set(map(strip, names)) != want:
                    raise Violation('GNU make reads other names', 'goal %s\nmake: %s %s\nread %s\nexpected %s\n%s' % (g, mr.rc, txt(mr.err)[:400], sorted(names), sorted(want), text))
                ctx.bump('rules read by GNU make')
        # the compilation is what it would be without the options
        if out:
            f = '-S' if '-S' in opts else '-c'
            os.rename(os.path.join(d, out), os.path.join(d, 'with'))
            r2 = run([exe, *t.flags, f, '-o', 'without', t.src], 60, cwd=d)
            a, b = open(os.path.join(d, 'with'), 'rb').read(), open(os.path.join(d, 'without'), 'rb').read()
            if r2.rc or a != b:
                raise Violation('the compilation is affected by the dependency options', what)
        elif mode == 'MDE':
            if r.out != r0.out:
                raise Violation('the preprocessed output is affected by the dependency options', what)
        ctx.bump('files read', len(opened))
        ctx.seen('%s %d targets %s' % (what, len(targets), 'quoted' if any(re.search(r'[ $#]', x) for x in pre) else ''),
                 'tree with %d files' % len(read))
        ctx.sample('%s -> %s' % (' '.join(opts), text[:200]))
    except Violation as v:
        files = '\n'.join('--- %s\n%s' % (os.path.relpath(os.path.join(p, f), d), open(os.path.join(p, f), errors='replace').read()[:300])
                          for p, _, fs in os.walk(d) for f in fs if f.endswith(('.h', '.c')))
        ctx.violate('%s: %s' % (v.key, what), 'command: toycc %s\n%s\n\n%s' % (cmd, v.detail, files))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def several(env, q):
    """-MD for several sources: a dependency file for each, of that source alone"""
    ctx, exe, shim = env
    rnd = ctx.sub('s', q)
    d = ctx.uniq('sev')
    n = rnd.randint(2, 4)
    use = {}
    for k in range(n):
        use[k] = sorted(rnd.sample(range(5), rnd.randint(0, 4)))
        with open(os.path.join(d, 's%d.c' % k), 'w') as f:
            f.write(''.join('#include "h%d.h"\n' % j for j in use[k]) + 'int f%d;\n' % k)
    for j in range(5):
        with open(os.path.join(d, 'h%d.h' % j), 'w') as f:
            f.write('extern int h%d;\n' % j)
    try:
        stdout = rnd.random() < 0.5
        r = run([exe, *(['-M'] if stdout else ['-c', rnd.choice(['-MD', '-MMD'])]), *['s%d.c' % k for k in range(n)]], 60, cwd=d)
        if r.rc:
            raise Violation('the command fails', txt(r.err))
        want = [(['s%d.o' % k], ['s%d.c' % k] + ['h%d.h' % j for j in use[k]]) for k in range(n)]
        ctx.count()
        if stdout:
            got = unquote(txt(r.out))
        else:
            got = []
            for k in range(n):
                p = os.path.join(d, 's%d.d' % k)
                if not os.path.exists(p):
                    raise Violation('no dependency file for one of several sources', 's%d.d' % k)
                got += unquote(open(p).read())
        got = [(x, [strip(n) for n in y]) for x, y in got]
        if got != want:
            raise Violation('dependencies of several sources are wrong', 'expected %s\ngot %s' % (want, got))
        ctx.seen('several -M' if stdout else 'several -MD')
    except Violation as v:
        ctx.violate(v.key, v.detail)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(ctx):
    ctx.rule = 'an option combination x number of targets x quoting that was judged against the record of opened files'
    ctx.assumptions = ['names with characters GNU make cannot quote (: = % wildcards) are compared textually only',
                       'the target and file of -MD in a command that links with -o are not judged']
    inst = ctx.path('inst')
    os.makedirs(inst)
    exe = os.path.join(inst, 'toycc')
    shutil.copy2(ctx.toycc(), exe)
    shutil.copytree(os.path.join(os.path.dirname(ctx.toycc()), 'include'), os.path.join(inst, 'include'))
    for x, h in (('include2', 'sib.h'), ('include.d', 'dot.h'), ('include/sys', 'inner.h')):
        os.makedirs(os.path.join(inst, x), exist_ok=True)
        with open(os.path.join(inst, x, h), 'w') as f:
            f.write('extern int inst_%s;\n' % h[:-2])
    shim = ctx.path('shim.so')
    r = run(['gcc', '-shared', '-fPIC', '-O1', '-w', '-o', shim, os.path.join(VERIF, 'rt', 'shim.c'), '-ldl'], 120)
    if r.rc:
        raise HarnessError('shim: ' + txt(r.err))
    env = (ctx, exe, shim)
    ctx.pmap(lambda q: one(env, q), range(ctx.scale(2500, 25000)))
    ctx.pmap(lambda q: several(env, q), range(ctx.scale(60, 600)))
    if ctx.extra.get('trees with a missing header', 0) * 3 > ctx.evaluations:
        raise HarnessError('too many invalid trees: %d' % ctx.extra['trees with a missing header'])


if __name__ == "__main__":
    main('C16', check)
