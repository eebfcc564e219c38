import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *

FLAGS = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all']


def build(ctx):
    """the harness with all of toycc's sources, toycc's main renamed"""
    d = ctx.path('hm')
    os.makedirs(d)
    objs = []
    base = ['gcc', '-std=c2x', '-g', '-O1', '-w', '-fno-common', '-DDEBUG'] + FLAGS + ['-I' + os.path.join(REPO, x) for x in ('', 'parser', 'preprocessor')]

    def one(s):
        o = os.path.join(d, s.replace('/', '_')[:-2] + '.o')
        r = run(base + ['-Dmain=toycc_main', '-c', '-o', o, os.path.join(REPO, s)], 300)
        if r.rc:
            raise HarnessError('building: ' + txt(r.err)[:1500])
        return o
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        objs = list(ex.map(one, sources()))
    exe = os.path.join(d, 'stress')
    r = run(base + ['-o', exe, os.path.join(VERIF, 'harness', 'hashmap_stress.c'), *objs], 300)
    if r.rc:
        raise HarnessError('building harness: ' + txt(r.err)[:1500])
    return exe


def body(ctx):
    ctx.rule = ('An evaluation is one table operation or lookup compared with the shadow map (under ASan and UBSan); distinct: operation kinds x outcomes '
                'x seeds that occurred.')
    ctx.assumptions = ['keys stay allocated while they are in the table, as in all uses']
    exe = build(ctx)
    rounds = ctx.scale(120, 2500)

    def one(i):
        seed = ctx.seed * 1000 + i
        r = run([exe, str(seed), str(rounds)], ctx.scale(240, 3000), env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0', UBSAN_OPTIONS='print_stacktrace=1'))
        out = txt(r.out)
        if r.timed_out:
            ctx.violate('a table operation does not terminate', 'seed %d' % seed)
            return
        m = re.search(r'BAD (.*)', out)
        if m:
            ctx.violate('hash table: ' + re.sub(r'round \d+ operation \d+: ', '', m[1])[:60], out[-2000:])
            return
        if r.rc != 0:
            e = txt(r.err)
            m = re.search(r'(SUMMARY: .*|runtime error: .*|internal error.*|Assertion.*)', e)
            ctx.violate('hash table: ' + (re.sub(r'/\S*/', '', m[1])[:120] if m else 'rc %s' % r.rc), out[-1000:] + e[-3000:])
            return
        st = dict(re.findall(r'(\w+) (\d+)', out))
        ctx.count(int(st['ops']) + int(st['full']))
        for k, v in st.items():
            ctx.bump(k, int(v))
            if int(v):
                ctx.seen('%s seed %d' % (k, seed))
        ctx.sample({'seed': seed, **st})
    ctx.pmap(one, range(ctx.scale(16, 64)))
    # the table as the preprocessor uses it: histories of #define and #undef
    ctx.pmap(lambda j: macros(ctx, j), range(ctx.scale(120, 1500)))


def macros(ctx, j):
    r = ctx.sub('macro', j)
    n = r.choice([4, 10, 30, 200])
    pool = ['%s%d' % (r.choice(['A', 'b_', 'LONG_NAME_', 'x']), r.randrange(10 * n)) for _ in range(n)]
    state, lines, want = {}, [], []
    for i in range(r.choice([100, 1500])):
        k = r.choice(pool)
        q = r.random()
        if q < .3:
            state[k] = i
            lines.append('#undef %s\n#define %s %d' % (k, k, i) if r.random() < .5 and k in state else '#define %s %d' % (k, i))
        elif q < .6:
            state.pop(k, None)
            lines.append('#undef ' + k)
        else:
            lines.append('=%s' % k)
            want += ['=', str(state.get(k, k))]
    for k in sorted(set(pool)):
        lines.append('#ifdef %s\n=%s\n#endif' % (k, k))
        if k in state:
            want += ['=', str(state[k])]
    d = ctx.uniq('m')
    try:
        f = os.path.join(d, 'm.c')
        open(f, 'w').write('\n'.join(lines) + '\n')
        x = run([ctx.toycc(), '-E', 'm.c'], 60, cwd=d)
        got = txt(x.out).replace('=', ' = ').split()
        if x.rc != 0 or got != want:
            i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
            ctx.violate('macro table after a history of #define and #undef: got %s, expected %s' % (got[i:i + 1], want[i:i + 1]), txt(x.err)[:500], {'m.c': '\n'.join(lines)})
            return
        ctx.count(len(want))
        ctx.seen('macro history over %d names' % n)
        ctx.bump('macro lookups', len(want) // 2)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    main('C14', body)
