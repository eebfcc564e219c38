import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
import predef
from modelprog import *
from tygen import *


def layout_program(ctx, r, n):
    g = TyGen(r)
    descr = {}
    fns, calls = [], []
    id = 0
    for i in range(n):
        t = g.record(3, flex=True)
        if len(g.recs) > 12:
            g.recs = g.recs[-6:]
        id += 1
        descr[id] = 'sizeof/_Alignof of %s: %s' % (t.name, g.out[-1])
        b = ['ev(%d, sizeof(%s)); ev(%d, _Alignof(%s)); ev(%d, sizeof(%s[3]));' % (id, t.name, id, t.name, id, t.name)]
        b.append('{ struct { char c; %s x; char e; } w; ev(%d, (char *)&w.x - (char *)&w); ev(%d, sizeof w); }' % (t.name, id, id))
        b.append('{ %s a[2]; ev(%d, (char *)(a + 1) - (char *)a); ev(%d, sizeof *a); }' % (t.name, id, id))
        b.append('static %s o;' % t.name)
        leaves = list(t.leaves())
        if len(leaves) > 40:
            leaves = r.sample(leaves, 40)
        for p, lt in leaves:
            id += 1
            if lt.kind == 'b':
                descr[id] = 'bit-field %s : %d at %s in %s' % (lt.name, lt.width, p, g.out[-1])
                v = r.choice(['-1', '1', '2', '0x5555555555555555', str(1 << max(lt.width - 1, 0))])
                if lt.name == 'enum E':
                    v = '(enum E)1'
                if lt.name == '_Bool':
                    v = '1'
                b.append('memset(&o, 0, sizeof o); o%s = %s; evm(%d, &o, sizeof o); ev(%d, o%s != 0);' % (p, v, id, id, p))
                b.append('memset(&o, 255, sizeof o); o%s = 0; evm(%d, &o, sizeof o);' % (p, id))
            else:
                descr[id] = 'offset of %s (%s) in %s' % (p, lt.name, g.out[-1])
                b.append('ev(%d, (char *)&o%s - (char *)&o); ev(%d, sizeof(o%s)); ev(%d, (long)&((%s *)0)->%s); ev(%d, (long)&o %% _Alignof(%s));' % (
                    id, p, id, p, id, t.name, p[1:], id, t.name))
        fns.append('static void f%d(void) { %s }' % (i, '\n\t'.join(b)))
        calls.append('f%d();' % i)
        # members that are arrays or records: size and offset of the whole
    src = '\n'.join([PRE] + interleave(g.out, fns) + ['int main(void) { %s return 0; }' % ' '.join(calls)])
    return src, descr, g.cov


def interleave(decls, fns):
    return decls + fns


def declarator_program(ctx, r, n):
    """random declarators: sizeof and pointer strides of every derived form"""
    out, body, descr, cov = [PRE, 'typedef short TT;'], [], {}, set()
    bases = ['char', 'short', 'int', 'long', 'double', 'unsigned char', 'struct { char a[3]; }', 'union { long l; char c[12]; }',
             'unsigned long long int', 'long unsigned', 'short int unsigned', 'const int', 'int const', 'volatile char', 'signed',
             'long double', 'float', '_Bool', 'enum { QQ%d }', 'struct { int x : 3; long y; }']
    for i in range(n):
        base = r.choice(bases)
        if '%d' in base:
            base = base % i
        d = 'v%d' % i
        kinds = []
        last = None
        for _ in range(r.randrange(0, 5)):
            k = r.choice(['*', '*', '[]', '[]', '()'])
            if k == '[]' and last == '()':
                k = '*'         # no function returning array
            if k == '()' and last in ('()', '[]'):
                k = '*'         # no array of functions, function returning function
            kinds.append(k)
            last = k
        # kinds[0] is applied to the identifier first
        if kinds and kinds[0] == '()':
            kinds.insert(0, '*')
        fixed = []
        for k in kinds:
            if fixed and fixed[-1] == '[]' and k == '()':
                fixed.append('*')
            if fixed and fixed[-1] == '()' and k in ('[]', '()'):
                fixed.append('*')
            fixed.append(k)
        kinds = fixed
        dims = []
        for ki, k in enumerate(kinds):
            if k == '*':
                q = r.choice(['', '', '', ' const', ' volatile', ' restrict']) if d != 'v%d' % i else ''
                if q == ' restrict' and kinds[ki + 1:ki + 2] == ['()']:
                    q = ''
                d = '*%s %s' % (q, d) if q else '*' + d
                prevp = True
            elif k == '[]':
                m = r.randrange(1, 6)
                if d.startswith('*'):
                    d = '(%s)' % d
                d += '[%d]' % m
            else:
                if d.startswith('*'):
                    d = '(%s)' % d
                d += r.choice(['(void)', '(int)', '(int a, char *b)', '(double, ...)', '(int (*)(long), int[3])', '(int (long), char ())',
                               '(int (TT))', '(TT (TT), int (*)(TT (int)))', '(char *(int), long (*(char (TT)))[2])', '(int (a), int (*b)(TT))', '()', '(int (void), ...)'])
        cov.add(' '.join(kinds))
        form = r.randrange(4)
        if form == 0:
            out.append('typedef %s %s; static %s x%d;' % (base, re.sub(r'\bv%d\b' % i, 'T%d' % i, d), 'T%d' % i, i))
            v = 'x%d' % i
        elif form == 1:
            out.append('static struct { char pad; %s %s; } h%d;' % (base, d, i))
            v = 'h%d.v%d' % (i, i)
        else:
            out.append('static %s %s%s;' % (base, d, r.choice(['', ', y%d' % i, ', *z%d, w%d[3]' % (i, i)])))
            v = 'v%d' % i
        id = i + 1
        descr[id] = 'declaration: ' + out[-1]
        b = 'ev(%d, sizeof(%s)); { typeof(%s) *p = 0; ev(%d, (long)(p + 1)); }' % (id, v, v, id)
        # walk down while it is a pointer or array
        e = v
        for k in kinds:
            if k == '()':
                break
            e = '(*%s)' % e
            nxt = kinds[kinds.index(k):]
            if k in ('*', '[]'):
                idx = kinds.index(k)
            b += ' ev(%d, sizeof(%s));' % (id, e) if not is_func_after(kinds, e.count('(*')) else ''
        b += ' { typeof(%s) *p = 0; ev(%d, sizeof(*p)); }' % (v, id)
        if form == 0:
            b += ' ev(%d, sizeof(T%d)); ev(%d, _Alignof(T%d));' % (id, i, id, i)
        body.append(b)
        # abstract declarator of the same shape
        ab = re.sub(r'\bv%d\b' % i, '', d)
        if 'struct' not in base and 'union' not in base and 'enum' not in base:
            body.append('ev(%d, sizeof(%s %s)); { %s %s; ev(%d, sizeof(loc)); }' % (
                id, base, ab, base, re.sub(r'\bv%d\b' % i, 'loc', d), id))
            body.append('ev(%d, __builtin_types_compatible_p(typeof(%s), %s %s));' % (id, v, base, ab))
            if r.random() < .2:
                # the typedef name is declared anew
                body.append('{ %s %s; ev(%d, sizeof(TT)); }' % (base, re.sub(r'\bv%d\b' % i, r.choice(['TT', '(TT)']), re.sub(r'\bTT\b', 'short', d)), id))
    src = '\n'.join(out) + '\nint main(void) { %s return 0; }' % '\n'.join(body)
    return src, descr, cov


def is_func_after(kinds, n):
    return n < len(kinds) and kinds[n] == '()'


def probes(ctx):
    """the type of &array: pinned by test/initializer.c (g22 = &g17-3), see known-findings.txt"""
    src = PRE + 'static int a[5], b[3][4]; int main(void) { ev(1, (char *)(&a + 1) - (char *)&a); ev(2, sizeof(*&b)); return 0; }'
    check_diff(ctx, 'addr_of_array', src, ref_opts=('-O0',), label=lambda i, g, w: '&array has type pointer to element: &a + 1, sizeof(*&b)')
    # the frame is 16-byte aligned only
    src = PRE + '''struct S { _Alignas(32) char c; }; static int f(int n) { char t[24]; _Alignas(64) char x; struct S s; x = s.c = t[0] = 1;
        int r = ((long)&x % 64 != 0) | ((long)&s % 32 != 0) | ((long)&t[0] * 0); return r; }
        static int g(int n) { char t[3]; int r = f(n); return n ? r | g(n - 1) : r | ((long)t * 0); }
        static int h(int n) { char t[17]; int r = f(n); return n ? r | h(n - 1) : r | ((long)t * 0); }
        int main(void) { ev(1, g(9) | h(9)); return 0; }'''
    check_diff(ctx, 'overaligned', src, ref_opts=('-O0',), label=lambda i, g, w: 'automatic objects are aligned to 16 bytes at most: _Alignas(64) char x in a function')


def described(ctx):
    """predefined macros and standard headers describe the types as they are"""
    items = []
    for t in ('CHAR', 'SCHAR', 'SHRT', 'INT', 'LONG', 'LLONG'):
        items += [t + '_MAX', t + '_MIN']
    items += ['UCHAR_MAX', 'USHRT_MAX', 'UINT_MAX', 'ULONG_MAX', 'ULLONG_MAX', 'CHAR_BIT', 'SIZE_MAX', 'PTRDIFF_MAX', 'PTRDIFF_MIN', 'WCHAR_MAX', 'WCHAR_MIN',
              'WINT_MAX', 'SIG_ATOMIC_MAX', 'INTMAX_MAX', 'UINTMAX_MAX', 'INTPTR_MAX', 'UINTPTR_MAX']
    for w in (8, 16, 32, 64):
        for k in ('', '_LEAST', '_FAST'):
            items += ['INT%s%d_MAX' % (k, w), 'INT%s%d_MIN' % (k, w), 'UINT%s%d_MAX' % (k, w)]
            tn = '%sint%s%d_t'
            for u in ('', 'u'):
                n = tn % (u, k.lower(), w)
                items += ['sizeof(%s)' % n, '(%s)-1 < 0' % n]
    for n in ('size_t', 'ptrdiff_t', 'wchar_t', 'intptr_t', 'uintptr_t', 'intmax_t', 'uintmax_t', 'max_align_t', 'char', 'wint_t'):
        if n == 'wint_t':
            continue
        if n != 'max_align_t':
            items.append('sizeof(%s)' % n)
            items.append('(%s)-1 < 0' % n)
        else:
            items.append('_Alignof(max_align_t)')
    items += ['FLT_MANT_DIG', 'DBL_MANT_DIG', 'LDBL_MANT_DIG', 'FLT_DIG', 'DBL_DIG', 'LDBL_DIG', 'FLT_MAX_EXP', 'DBL_MAX_EXP', 'LDBL_MAX_EXP', 'FLT_MIN_EXP', 'DBL_MIN_EXP',
              'LDBL_MIN_EXP', 'FLT_RADIX', 'FLT_MAX_10_EXP', 'DBL_MAX_10_EXP', 'LDBL_MAX_10_EXP', 'FLT_MIN_10_EXP', 'DBL_MIN_10_EXP', 'LDBL_MIN_10_EXP', 'DECIMAL_DIG']
    items += ['offsetof(struct S, %s)' % m for m in ('a', 'b', 'c', 'd[2]', 'e.y')] + ['alignof(long double)', 'alignof(struct S)', 'true', 'false', 'sizeof(true)', 'sizeof(NULL)', 'sizeof(bool)']
    r = run([RVGCC, '-std=gnu11', '-fsigned-char', '-dM', '-E', '-'], 60, inp=b'')
    for l in txt(r.out).splitlines():
        m = re.match(r'#define (__(?:SIZEOF|\w+_MAX|\w+_MIN|\w+_WIDTH|ORDER|BYTE_ORDER|FLOAT_WORD_ORDER|CHAR_BIT|FLT|DBL)\w*__|__\w+_(?:MAX|MIN|WIDTH|DIG|EXP)__) (.*)', l)
        if m and re.fullmatch(r'\(?-?[0-9][0-9a-fA-FxXuUlL]*\)?', m[2]) and not re.search('FLT16|FLT32|FLT64|FLT128|BFLT|DEC32|DEC64|DEC128|__GCC|INT128|GNUC|LDBL_MAX__|IEC_60559', m[1]):
            items.append(m[1])
    signed = '#ifdef __CHAR_UNSIGNED__\nev(9000, 1);\n#else\nev(9000, 0);\n#endif\nev(9001, (char)-1 < 0);\n'
    fl = ['FLT_MAX', 'FLT_MIN', 'FLT_EPSILON', 'DBL_MAX', 'DBL_MIN', 'DBL_EPSILON', 'LDBL_EPSILON * 0x1p100L', 'LDBL_MIN * 0x1p16000L', '__FLT_MAX__', '__FLT_DENORM_MIN__', '__DBL_DENORM_MIN__']
    for n, hs in (('described', ['limits.h', 'stdint.h', 'stddef.h', 'float.h', 'stdbool.h', 'stdalign.h']),):
        src = ''.join('#include <%s>\n' % h for h in hs) + PRE + 'struct S { char a; long double b; short c; int d[3]; struct { char x; double y; } e; };\nint main(void) {\n' + signed
        for i, e in enumerate(items):
            src += 'ev(%d, %s); ev(%d, sizeof(%s)); ev(%d, (%s) * 0 - 1 < 0);\n' % (i, e, i, e, i, e)
        for i, e in enumerate(fl):
            src += 'evd(%d, %s);\n' % (5000 + i, e)
        src += 'return 0; }\n'
        names = dict(enumerate(items))
        names.update({5000 + i: e for i, e in enumerate(fl)})
        names.update({9000: '__CHAR_UNSIGNED__', 9001: 'signedness of char'})
        if check_diff(ctx, n, src, ref_opts=('-O0',), label=lambda i, g, w: 'description of types: %s is %s, expected %s' % (names[(w or g)[0]], g and g[1], w and w[1])):
            ctx.seen(*['described ' + x for x in items])


COMPAT = [
    'int', 'unsigned', 'long', 'short', 'char', 'unsigned char', '_Bool', 'float', 'double', 'long double', 'struct S', 'struct S2', 'union U',
    'int *', 'unsigned *', 'char *', 'void *', 'struct S *', 'int **', 'int[3]', 'int[4]', 'int[2][3]', 'int[3][2]', 'char[3]', 'int(*)[3]',
    'int(*)[4]', 'unsigned(*)[3]', 'int(int)', 'int(long)', 'int(int,int)', 'int(int,...)', 'int(void)', 'long(int)', 'int(*)(int)',
    'int(*)(int,...)', 'int(*)(int,int)', 'int(*)(void)', 'void(*)(int)', 'int(*)(int(*)(int))', 'int(*)(int(int))', 'int(*)(int *)',
    'int(*)(int[3])', 'int(*)(struct S)', 'int(*)(long,int)', 'int(*)(int,long)', 'int *(*)(int)', 'int(*(*)(int))(int)', 'int(*[3])(int)', 'T',
    'TP', 'TF *', 'typeof(int)', 'typeof(gi)', 'typeof(gp)', 'int(*)(T)', 'int(*)(TF)', 'int(*)(char)', 'int(*)(const int)', 'int(*)(int, int, ...)',
    'int(*)(int x)', 'int(*)(int(*)[3])', 'int(*)(int[2][3])']


def compat(ctx):
    """every pair of types: the same type or not, through __builtin_types_compatible_p and _Generic"""
    out = [PRE, 'struct S { int a; }; struct S2 { int a; }; union U { int a; }; typedef int T; typedef int *TP; typedef int TF(int); int gi; int *gp;', 'int main(void) {']
    n = len(COMPAT)
    for i, a in enumerate(COMPAT):
        for j, b in enumerate(COMPAT):
            out.append('ev(%d, __builtin_types_compatible_p(%s, %s));' % (i * n + j, a, b))
            out.append('ev(%d, _Generic((typeof(%s) *)0, typeof(%s) *: 1, default: 0));' % (i * n + j, a, b))
    out.append('return 0; }')

    def label(k, g, w):
        i = (w or g)[0]
        return 'whether the types are compatible: %s and %s' % (COMPAT[i // n], COMPAT[i % n])
    if check_diff(ctx, 'compat', '\n'.join(out), label=label, ref_opts=('-O0',)):
        ctx.seen(*['compatibility of ' + t for t in COMPAT])


def body(ctx):
    ctx.rule = ('An evaluation is one recorded size, alignment, offset, stride or memory word compared with the psABI reference; '
                'distinct: type forms (bit-field type x width, attributes, record shapes, declarator chains) observed.')
    ctx.assumptions = ['riscv64 gcc implements the psABI layout']
    jobs = [('layout', i) for i in range(ctx.scale(300, 3000))] + [('decl', i) for i in range(ctx.scale(120, 800))]

    def one(j):
        r = ctx.sub(*j)
        src, descr, cov = (layout_program if j[0] == 'layout' else declarator_program)(ctx, r, 20 if j[0] == 'layout' else 50)

        def label(i, g, w):
            return 'layout: ' + descr.get((w or g)[0], '?')[:600]
        res = check_diff(ctx, '%s%d' % j, src, label=label, ref_opts=('-O0',))
        if res:
            ctx.seen(*cov)
            ctx.sample({'job': str(j), 'example': descr[max(descr)]})
    probes(ctx)
    compat(ctx)
    described(ctx)
    predef.compare(ctx, predef.TYPES)
    ctx.pmap(one, jobs)


if __name__ == '__main__':
    main('C05', body)
