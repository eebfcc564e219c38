import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
from modelprog import *
from exprgen import *
from pptok import tokens

TYPES = ['int', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long', 'float', 'double', 'long double', 'char', 'unsigned char',
         'short', 'unsigned short']
# toycc identifies long and long long, so both get one code
GEN = '#define TY(x) _Generic((x), int: 1, unsigned: 2, long: 3, unsigned long: 4, float: 5, double: 6, long double: 7, default: 9)\n'
GENR = '#define TY(x) _Generic((x), int: 1, unsigned: 2, long: 3, long long: 3, unsigned long: 4, unsigned long long: 4, float: 5, double: 6, long double: 7, default: 9)\n'
GENP = '#define TP(x) _Generic((x), char *: 1, unsigned char *: 2, short *: 3, unsigned short *: 4, int *: 5, unsigned *: 6, long *: 7, default: 9)\n'
PTY = ('#ifdef __clang__\n#endif\n#ifdef __GNUC__\n' + GENR.replace('char: 1', 'char: 1') + '#else\n' + GEN + '#endif\n' + GENP +
       '#define TC(x) _Generic((x), int: 1, unsigned: 2, unsigned short: 3, short: 4, char: 5, unsigned char: 6, long: 7, default: 9)\n')


def int_literal(r):
    b = r.choice([10, 10, 16, 16, 8, 2])
    bits = r.choice([1, 4, 7, 8, 15, 16, 30, 31, 32, 33, 47, 62, 63, 64])
    v = r.choice([0, 1, (1 << bits) - 1, 1 << (bits - 1), r.getrandbits(bits), (1 << bits) - r.randrange(1, 5) if bits > 3 else 1])
    v &= (1 << 64) - 1
    if b == 10:
        v &= (1 << 63) - 1       # larger decimal constants have no type in C11 without a u
    suf = r.choice(['', '', '', 'u', 'U', 'l', 'L', 'ul', 'uL', 'Ul', 'UL', 'lu', 'lU', 'Lu', 'LU', 'll', 'LL', 'ull', 'uLL', 'Ull', 'ULL', 'llu', 'llU', 'LLu', 'LLU'])
    if b == 10:
        s = str(v)
    elif b == 16:
        h = '%x' % v
        s = r.choice(['0x', '0X']) + '0' * r.choice([0, 0, 0, 1, 3]) + ''.join(r.choice([c, c.upper()]) for c in h)
    elif b == 8:
        s = '0' * r.choice([1, 1, 2]) + '%o' % v
    else:
        s = r.choice(['0b', '0B']) + '0' * r.choice([0, 0, 2]) + bin(v)[2:]
    return s + suf, 'base %d suffix %s bits %d' % (b, suf.lower(), v.bit_length())


def float_literal(r):
    suf = r.choice(['', '', 'f', 'F', 'l', 'L'])
    k = r.randrange(5)
    digs = lambda n: ''.join(r.choice('0123456789') for _ in range(n))
    if suf in ('l', 'L'):
        # host long double has 64 bits: stay exact
        m = r.getrandbits(r.choice([1, 10, 52, 60]))
        if k < 2:
            s = '%d.%s' % (m % 100000, r.choice(['0', '5', '25', '125', '']))
        else:
            s = '0x%x.%sp%s%d' % (m >> 8, r.choice(['', '8', '4', '08']), r.choice(['', '+', '-']), r.randrange(0, 200))
    elif k == 0:
        s = digs(r.randrange(1, 9)) + '.' + digs(r.randrange(0, 12))
    elif k == 1:
        s = '.' + digs(r.randrange(1, 20))
    elif k == 2:
        s = digs(r.randrange(1, 20)) + r.choice('eE') + r.choice(['', '+', '-']) + str(r.randrange(0, 30 if suf else 280))
    elif k == 3:
        s = digs(r.randrange(1, 5)) + '.' + digs(r.randrange(0, 30)) + r.choice('eE') + r.choice(['', '+', '-']) + str(r.randrange(0, 30 if suf else 300))
    else:
        s = r.choice(['0x', '0X']) + r.choice(['%x' % r.getrandbits(r.choice([4, 24, 53, 60, 64])), '%x.%x' % (r.getrandbits(20), r.getrandbits(40)), '.%x' % r.getrandbits(30),
                                              '%x.' % r.getrandbits(12)]) + r.choice('pP') + r.choice(['', '+', '-']) + str(r.randrange(0, 60))
    return s + suf, 'float form %d suffix %s' % (k, suf.lower())


SIMPLE = ['\\a', '\\b', '\\t', '\\n', '\\v', '\\f', '\\r', '\\\\', '\\\'', '\\"', '\\?', '\\e']
UNI = [0xe9, 0xff, 0x100, 0x3b1, 0x7ff, 0x800, 0x20ac, 0x3042, 0x4e2d, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0xa0, 0x2028]


def uni(r, c, cov):
    k = r.randrange(3)
    if k == 0:
        cov.add('raw UTF-8 length %d' % len(chr(c).encode()))
        return chr(c)
    if k == 1 and c < 0x10000:
        cov.add('\\u')
        return '\\u' + ('%04x' if r.random() < .5 else '%04X') % c
    cov.add('\\U')
    return '\\U%08x' % c


def rand_uni(r):
    while True:
        c = r.choice([r.choice(UNI), r.randrange(0xa0, 0x800), r.randrange(0x800, 0xd800), r.randrange(0xe000, 0x10000), r.randrange(0x10000, 0x110000)])
        if c != 0xfeff and (c & 0xfffe) != 0xfffe and not 0xfdd0 <= c <= 0xfdef:
            return c


def elems(r, width, n, cov):
    """n string elements; hex and octal escapes fit the element width"""
    out = []
    for _ in range(n):
        k = r.random()
        if k < .4:
            out.append(r.choice("abcxyzABF019 _'+-/*?(){}#%:;<>=|~^.,&!@$`[]"))
        elif k < .55:
            out.append(r.choice(SIMPLE))
            cov.add('escape ' + out[-1])
        elif k < .67:
            v = r.choice([0, 7, 8, 63, 0o177, 0o200, 0o377, r.randrange(256)])
            out.append('\\%o' % v if r.random() < .5 else '\\%03o' % v)
            cov.add('octal escape')
        elif k < .8:
            hi = {1: 0xff, 2: 0xffff, 4: 0xffffffff}[width]
            v = r.choice([0, 0x7f, 0x80, hi, r.randrange(hi + 1)])
            out.append('\\x' + ('%x' % v if r.random() < .5 else '%04X' % v))
            cov.add('hex escape')
            # the next element must not be read as part of the escape
            out.append(r.choice([' ', '-', 'g', '\\n', 'z']))
        else:
            out.append(uni(r, rand_uni(r), cov))
    return ''.join(out)


def safe(s):
    return s.replace('??', '? ?')


def string_literal(r, cov):
    pre = r.choice(['', '', 'u8', 'u', 'U', 'L'])
    w = {'': 1, 'u8': 1, 'u': 2, 'U': 4, 'L': 4}[pre]
    parts = []
    np = r.choice([1, 1, 1, 2, 3])
    which = {r.randrange(np)} | ({0} if r.random() < .5 else set())
    for i in range(np):
        p = pre if i in which else r.choice(['', pre])
        # the escapes of an unprefixed part must be valid in either reading
        parts.append(p + '"' + safe(elems(r, w if p else 1, r.randrange(0, 8), cov)) + '"')
        cov.add('string prefix %s part %d of %d' % (p or 'none', i, np))
    return r.choice([' ', '\n\t', ' /* c */ ', '', '\\\n ']).join(parts) if all(not x[0].isalpha() for x in parts[1:]) else ' '.join(parts), w


def char_literal(r, cov):
    pre = r.choice(['', '', 'u', 'U', 'L'])
    w = {'': 1, 'u': 2, 'U': 4, 'L': 4}[pre]
    k = r.random()
    if k < .3:
        b = r.choice("abcxyzABF019 _\"+-/*?(){}#%:;<>=|~^.,&!@$`[]")
    elif k < .5:
        b = r.choice(SIMPLE)
    elif k < .65:
        b = '\\%o' % r.choice([0, 7, 0o77, 0o177, 0o200, 0o377, r.randrange(256)])
    elif k < .8 or not pre:
        hi = {1: 0xff, 2: 0xffff, 4: 0xffffffff}[w]
        b = '\\x%x' % r.choice([0, 0x7f, 0x80, hi, r.randrange(hi + 1)])
    else:
        c = rand_uni(r)
        while w == 2 and c > 0xffff:
            c = rand_uni(r)
        b = uni(r, c, cov)
    cov.add('character prefix %s form %d' % (pre or 'none', int(k * 5)))
    return pre + "'" + b + "'"


def literals(ctx, j):
    r = ctx.sub('lit', j)
    cov = set()
    out, names = [], {}
    glob = []
    for i in range(40):
        k = r.random()
        if k < .3:
            s, c = int_literal(r)
            cov.add(c)
            out.append('ev(%d, %s); ev(%d, TY(%s)); ev(%d, sizeof(%s));' % (i, s, i, s, i, s))
            if r.random() < .3:
                # the sign of the type decides the comparison
                out.append('ev(%d, %s - %s - 1 < 0);' % (i, s, s))
        elif k < .5:
            s, c = float_literal(r)
            cov.add(c)
            f = {'f': 'evf', 'l': 'evL'}.get(s[-1].lower() if not (s[:2].lower() == '0x' and 'p' not in s.lower()) else '', 'evd')
            out.append('%s(%d, %s); ev(%d, TY(%s));' % (f, i, s, i, s))
        elif k < .7:
            s = char_literal(r, cov)
            out.append('ev(%d, %s); ev(%d, TC(%s)); ev(%d, sizeof(%s));' % (i, s, i, s, i, s))
        else:
            s, w = string_literal(r, cov)
            t = {1: 'char', 2: 'unsigned short', 4: None}[w]
            if w == 4:
                t = 'int' if re.match(r'(.*\s|")?L"|^L', s.replace('"', '"')) and 'U"' not in re.sub(r'"(?:\\.|[^"\\])*"', '""', s) else 'unsigned'
                ps = re.findall(r'([A-Za-z0-9]*)"(?:\\.|[^"\\])*"', s)
                t = 'int' if 'L' in ps else 'unsigned'
            out.append('ev(%d, sizeof(%s)); evm(%d, %s, sizeof(%s)); ev(%d, TP(&(%s)[0]));' % (i, s, i, s, s, i, s))
            q = r.randrange(3)
            if q == 0:
                glob.append('static %s g%d[] = %s;' % (t, i, s))
                out.append('ev(%d, sizeof(g%d)); evm(%d, g%d, sizeof(g%d));' % (i, i, i, i, i))
                cov.add('static array of %s' % t)
            elif q == 1:
                out.append('{ %s l[] = %s; ev(%d, sizeof(l)); evm(%d, l, sizeof(l)); }' % (t, s, i, i))
                cov.add('automatic array of %s' % t)
            else:
                glob.append('static %s *p%d = %s;' % (t, i, s))
                out.append('evm(%d, p%d, sizeof(%s));' % (i, i, s))
                cov.add('pointer to %s' % t)
        names[i] = s
    src = PRE + PTY + '\n'.join(glob) + '\nint main(void) {\n' + '\n'.join(out) + '\nreturn 0; }\n'
    ref = check_diff(ctx, 'lit%d' % j, src, key=None,
                     label=lambda i, g, w: 'literal %s: recorded %s, expected %s' % (names.get((w or g)[0]), g and hex(g[1] & (1 << 64) - 1), w and hex(w[1] & (1 << 64) - 1)))
    if ref:
        ctx.seen(*cov)
        ctx.bump('literals', 40)
        ctx.sample({'literals': [names[i] for i in range(0, 40, 8)]})


# ---- source text: layout must not matter

def noise(r, text, cov):
    """the same tokens, other layout"""
    out = []
    i = 0
    n = len(text)
    state = 'code'
    bol = True
    directive = False
    while i < n:
        c = text[i]
        two = text[i:i + 2]
        if state == 'code':
            if two == '//':
                state = 'line'
                out.append(two)
                i += 2
                continue
            if two == '/*':
                state = 'block'
                out.append(two)
                i += 2
                continue
            if c in '"\'':
                state = c
            elif c == '#' and bol:
                directive = True
            elif c == '\n':
                if not (text[i - 1:i] == '\\'):
                    directive = False
                    if r.random() < .02:
                        out.append(r.choice([' // c', ' /* c */', ' // it\'s "x', '/**/', ' /* \n x */' if r.random() < .5 else '\t']))
                        cov.add('comment before the end of a line')
            elif c in ' \t' and i and not bol:
                k = r.random()
                if k < .02:
                    out.append(r.choice(['\t', '  ', '\f', '\v', ' \t ']))
                    cov.add('other white space')
                    i += 1
                    continue
                if k < .05:
                    out.append(r.choice(['/**/', ' /* * / // " \' */ ', '/***/', '/*/ */', '\\\n ', ' /* a \\\n b */ ', '/\\\n* c *\\\n/']))
                    cov.add('comment for white space')
                    i += 1
                    continue
                if k < .06 and not directive and text[i:i + 2].strip(' \t') != '' and ncomment(text, i):
                    out.append(r.choice(['\n', '\n\n', ' // c\n', ' /* a \n b */ ', ' // a \\\n b\n']))
                    cov.add('newline for white space')
                    i += 1
                    continue
            if not c.isspace():
                bol = False
            if c == '\n':
                bol = True
        elif state == 'line':
            if c == '\n' and text[i - 1] != '\\':
                state = 'code'
                bol = True
                directive = False
        elif state == 'block':
            if two == '*/':
                out.append(two)
                i += 2
                state = 'code'
                continue
        else:
            if c == '\\':
                out.append(c)
                if r.random() < .05:
                    out.append('\\\n')
                out.append(text[i + 1])
                i += 2
                continue
            if c == state:
                state = 'code'
            elif c == '\n':
                state = 'code'      # an apostrophe in text that is not C
        out.append(c)
        # a splice may be anywhere, even within a token (but not between a backslash and its newline)
        if c not in '\\\n' and r.random() < .01 and text[i + 1:i + 2] != '\n':
            out.append('\\\n')
            cov.add('splice in ' + ('code' if state == 'code' else 'literal' if state in '"\'' else 'comment'))
        i += 1
    s = ''.join(out)
    return s


def ncomment(text, i):
    # within a directive or its continuation lines nothing may be broken
    b = text.rfind('\n', 0, i)
    line = text[b + 1:text.find('\n', i)]
    while b > 0 and text[b - 1] == '\\':
        b2 = text.rfind('\n', 0, b - 1)
        line = text[b2 + 1:b] + line
        b = b2
    return not line.lstrip().startswith('#') and '//' not in line and 'ASSERT' not in line and 'M1' not in line and not re.search(r'__LINE__|__FILE__', line)


def strip_asm(b):
    return [l for l in txt(b).splitlines() if not re.match(r'\s*\.(loc|file)\b', l) and not l.lstrip().startswith('#')]


def layout(ctx, path, text, args, j):
    r = ctx.sub('layout', path, j)
    cov = set()
    d = ctx.uniq('n')
    try:
        base = os.path.join(d, 'a')
        os.makedirs(base)
        f = os.path.join(base, os.path.basename(path))
        # __LINE__ changes with the layout: fix it for the comparison
        # (and the clock runs between the two compilations)
        a1 = args + ['-U__LINE__', '-D__LINE__=1'] + CLOCK
        open(f, 'w', newline='').write(text)
        ra = run([ctx.toycc(), *a1, '-S', '-o', os.path.join(d, 'a.s'), f], 60, cwd=base)
        if ra.rc != 0:
            ctx.inconcl('does not compile: %s %s' % (path, txt(ra.err)[:200]))
            return
        t2 = noise(r, text, cov)
        k = r.randrange(4)
        data = t2.encode('utf8', 'surrogateescape')
        if k == 1:
            data = data.replace(b'\n', b'\r\n')
            cov.add('CRLF')
        elif k == 2:
            data = b'\xef\xbb\xbf' + data
            cov.add('BOM')
        elif k == 3:
            data = data.rstrip(b'\n')
            if data.endswith(b'\\'):
                data += b'\n'
            cov.add('no newline at the end')
        open(f, 'wb').write(data)
        rb = run([ctx.toycc(), *a1, '-S', '-o', os.path.join(d, 'b.s'), f], 60, cwd=base)
        A = strip_asm(open(os.path.join(d, 'a.s'), 'rb').read())
        B = strip_asm(open(os.path.join(d, 'b.s'), 'rb').read()) if rb.rc == 0 else None
        if A == B:
            ctx.count(len(A))
            ctx.seen(*cov)
            ctx.bump('texts laid out differently')
            return
        # is the other layout really the same program?
        if not same_tokens(ctx, d, f, text, data, a1):
            ctx.inconcl('layout changed the tokens: %s seed %d' % (path, j))
            return
        if B is None:
            why = 'rejected (rc %s): %s' % (rb.rc, summarize(rb.err))
        else:
            i = next((i for i in range(max(len(A), len(B))) if i >= len(A) or i >= len(B) or A[i] != B[i]))
            why = 'assembly line %d: %s / %s' % (i, A[i:i + 1], B[i:i + 1])
        ctx.violate('the layout of %s changes the program: %s' % (os.path.basename(path), why), txt(rb.err)[:1500], {os.path.basename(path): data})
    finally:
        shutil.rmtree(d, ignore_errors=True)


def same_tokens(ctx, d, f, text, data, args):
    from pptok import tokens
    a = [x for x in args if x != '-U__LINE__' and not x.startswith('-D__LINE__')]
    res = []
    for t in (text.encode('utf8', 'surrogateescape'), data):
        open(f, 'wb').write(t)
        x = run([RVGCC, '-E', '-P', '-w', '-D__LINE__=1', '-U__GNUC__', *a, f], 60, cwd=os.path.dirname(f))
        if x.rc != 0:
            return False
        res.append(tokens(txt(x.out)))
    return res[0] == res[1]


# ---- longest match and identifiers

def maximal_munch(ctx, j):
    r = ctx.sub('munch', j)
    lines = []
    names = {}
    for i in range(40):
        form = r.choice(['a+++b', 'a---b', 'a--- -b', 'a+++ +b', 'a- -b', 'a+ +b', 'a-- -b', 'a&&b', 'a& &c', 'a<<1', 'a<<=1', 'a>>=1', 'a<b', 'a<=b', 'a>=b', 'a>>1',
                         'a!=b', 'a=!b', 'a= !b', 'a=-1', 'a-=1', 'a=~b', 'a|=b', 'a||b', 'a|b', 'a^=b', 'a%=b', 'a/=b', 'a*=*p', 'a**p', 'a/ *p', 's->x', 's->x-->y' if 0 else 's->x--',
                         'a-->b', 'a==b', 'a= =b' if 0 else 'a==-b', '1.e1+a', '.5+a', '1.+a', 'a?b:.5', 'a+1.e-1', '0xe+1' if 0 else '0xe +1', 'a?.1:1', 'arr[1]', '&arr[1]-&arr[0]', 'a&~b', 'a+-b', 'a-+b', 'a*-b',
                         '!!a', '~-a', '-~a', '- -a', '!-a', 'a<-b', 'a>-b', '(a)-(b)', '(a)+(b)', 'sizeof+a', 'sizeof-a', 'sizeof~a', 'a?b:c', 'L\'a\'', 'u\'a\'', 'U\'a\'', 'u8v', 'uv+Uv+Lv'])
        if form in ('a& &c',):
            form = 'a&&c'
        names[i] = form
        lines.append('{ long a = %d, b = %d, c = 3; long *p = &c; struct { long x; } S = {9}, *s = &S; long arr[3] = {1, 2, 3}; int u8v = 5, uv = 1, Uv = 2, Lv = 3;\n'
                     'evd(%d, (%s)); ev(%d, a); ev(%d, b); ev(%d, S.x); }' % (r.randrange(1, 50), r.randrange(1, 9), i, form, i, i, i))
    src = PRE + 'int main(void) {\n' + '\n'.join(lines) + '\nreturn 0; }\n'
    ref = check_diff(ctx, 'munch%d' % j, src, label=lambda i, g, w: 'tokens of %s' % names.get((w or g)[0]))
    if ref:
        ctx.seen(*['munch ' + f for f in names.values()])


D1 = [(0xA8, 0xA8), (0xAA, 0xAA), (0xAD, 0xAD), (0xAF, 0xAF), (0xB2, 0xB5), (0xB7, 0xBA), (0xBC, 0xBE), (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0xFF),
      (0x100, 0x167F), (0x1681, 0x180D), (0x180F, 0x1FFF), (0x200B, 0x200D), (0x202A, 0x202E), (0x203F, 0x2040), (0x2054, 0x2054), (0x2060, 0x206F),
      (0x2070, 0x218F), (0x2460, 0x24FF), (0x2776, 0x2793), (0x2C00, 0x2DFF), (0x2E80, 0x2FFF), (0x3004, 0x3007), (0x3021, 0x302F), (0x3031, 0x303F),
      (0x3040, 0xD7FF), (0xF900, 0xFD3D), (0xFD40, 0xFDCF), (0xFDF0, 0xFE44), (0xFE47, 0xFFFD)] + [((p << 16), (p << 16) | 0xFFFD) for p in range(1, 15)]
D2 = [(0x300, 0x36F), (0x1DC0, 0x1DFF), (0x20D0, 0x20FF), (0xFE20, 0xFE2F)]


def pp_numbers(ctx, j):
    """where preprocessing numbers end: every identifier in the text is a macro, so a number split in two shows"""
    r = ctx.sub('ppnum', j)
    macros = ['_', 'a', 'e', 'E', 'p', 'P', 'x', 'X', 'U', 'f', 'L', '_1', 'e1', 'x1', '_a', 'ab', 'p1', 'a_', '__']
    lines = ['#define %s %s' % (m, c) for m, c in zip(macros, ['[%s]' % ('t%d' % i) for i in range(len(macros))])]
    for _ in range(60):
        toks = []
        for _ in range(r.randrange(1, 5)):
            t = r.choice(['', '', '.']) + r.choice('0123456789')
            for _ in range(r.randrange(0, 6)):
                t += r.choice(['_', '.', 'e+', 'E-', 'p-', 'P+', 'e', 'E', 'p', 'x', 'X', 'a', 'U', 'f', 'L', '1', '0', '+', '-', '_1', '..'])
            toks.append(t)
        lines.append(r.choice([' ', ' ', '+', ',', '/**/']).join(toks) + ' ;')
    text = '\n'.join(lines) + '\n'
    d = ctx.uniq('pn')
    f = os.path.join(d, 'n.c')
    open(f, 'w').write(text)
    ref = run([RVGCC, '-E', '-P', '-w', f], 60, cwd=d)
    x = run([ctx.toycc(), '-E', f], 60, cwd=d)
    want = tokens(txt(ref.out))
    got = tokens(txt(x.out)) if x.rc == 0 else None
    ctx.count(len(want))
    if ref.rc == 0 and got != want:
        i = next((i for i in range(len(want)) if got is None or i >= len(got) or got[i] != want[i]), len(want))
        ctx.violate('preprocessing numbers: token %d is %s, expected %s' % (i, got[i] if got and i < len(got) else x.rc, want[i] if i < len(want) else '(end)'), text + txt(x.err)[:500])
    else:
        ctx.seen('pp-numbers')
    shutil.rmtree(d, ignore_errors=True)


def inr(c, rs):
    return any(a <= c <= b for a, b in rs)


def identifiers(ctx, j):
    """Annex D: which characters may be in identifiers; checked at and around all range boundaries and at random"""
    r = ctx.sub('ident', j)
    pts = sorted({x for rg in D1 + D2 for b in rg for x in (b - 1, b, b + 1)} | {r.randrange(0xa0, 0x110000) for _ in range(200)})
    pts = [c for c in pts if c >= 0xa0 and not 0xd800 <= c < 0xe000 and c <= 0x10ffff]
    d = ctx.uniq('i')
    try:
        # all valid ones in one program; the invalid ones one by one
        ok1 = [c for c in pts if inr(c, D1) and not inr(c, D2)]
        ok2 = [c for c in pts if inr(c, D1)]
        src = PRE + ''.join('int %s%s;\n' % (chr(c), 'k%d' % i) for i, c in enumerate(ok1)) + ''.join('int k%s_%d;\n' % (chr(c), i) for i, c in enumerate(ok2))
        # a name spelt with a universal character name is the same name
        src += 'int main(void) {\n' + ''.join('%sk%d = %d; ev(%d, %sk%d);\n' % (chr(c), i, i, i, '\\U%08x' % c, i) for i, c in enumerate(ok1)) + 'return 0; }\n'
        f = os.path.join(d, 'v.c')
        open(f, 'w').write(src)
        x = ctx.cc_toy(f, os.path.join(d, 'v.o'))
        if x.rc != 0:
            ctx.violate('identifier with an allowed character rejected', txt(x.err)[:1500], {'v.c': src})
            return
        l = ctx.link([os.path.join(d, 'v.o')], os.path.join(d, 'v.exe'))
        ev = parse_events(ctx.execute(os.path.join(d, 'v.exe')).out) if l.rc == 0 else None
        if ev != [(i, i) for i in range(len(ok1))]:
            ctx.violate('identifiers spelt with UCNs and characters differ', str(ev)[:500], {'v.c': src})
            return
        ctx.count(len(ok1) + len(ok2))
        ctx.bump('identifier characters accepted', len(ok1) + len(ok2))
        bad = [(c, '%sk' % chr(c)) for c in pts if not inr(c, D1) or inr(c, D2)] + [(c, 'k%s' % chr(c)) for c in pts if not inr(c, D1)]

        def one(cb):
            c, name = cb
            f = os.path.join(d, 'x%d%s.c' % (c, name[0] == 'k'))
            open(f, 'w').write('int %s;\n' % name)
            x = run([ctx.toycc(), '-S', '-o', os.path.join(d, 'x%d%s.s' % (c, name[0] == 'k')), f], 30, cwd=d)
            ctx.count()
            if x.rc == 0:
                ctx.violate('U+%04X accepted in an identifier' % c, name)
        ctx.pmap(one, bad)
        ctx.bump('identifier characters rejected', len(bad))
        ctx.seen(*['identifier U+%04X' % c for c in pts[:400]])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def body(ctx):
    ctx.rule = ('An evaluation is one recorded event (value, size, type or bytes of a literal) or one assembly line compared between two layouts of a text; '
                'distinct: literal forms, prefixes, escapes and layout changes observed.')
    ctx.assumptions = ['gcc -std=gnu11 reads literals as C11 defines', 'multi-character constants and digraphs are not covered']
    ctx.toycc()
    identifiers(ctx, 0)
    ctx.pmap(lambda j: literals(ctx, j), range(ctx.scale(500, 6000)))
    ctx.pmap(lambda j: pp_numbers(ctx, j), range(ctx.scale(15, 150)))
    ctx.pmap(lambda j: maximal_munch(ctx, j), range(ctx.scale(20, 200)))
    inc = ['-I' + os.path.join(REPO, x) for x in ('test', '', 'parser', 'preprocessor')]
    srcs = sorted(os.path.join(REPO, 'test', f) for f in os.listdir(os.path.join(REPO, 'test')) if f.endswith('.c'))
    srcs += [os.path.join(REPO, s) for s in sources()]
    texts = [(s, open(s, encoding='utf8', errors='surrogateescape', newline='').read()) for s in srcs]
    ctx.pmap(lambda a: layout(ctx, a[0][0], a[0][1], inc + ['-I' + os.path.dirname(a[0][0])], a[1]), [(t, j) for j in range(ctx.scale(6, 60)) for t in texts])


if __name__ == '__main__':
    main('C10', body)
