"""Executable model of C arithmetic on LP64 RISC-V: types, conversions and a
generator of expressions whose value and type the model knows.  Nothing that
C leaves undefined or unspecified is generated."""
from fractions import Fraction


class T:
    __slots__ = ('name', 'size', 'signed', 'kind', 'rank')

    def __init__(self, name, size, signed, kind, rank):
        self.name, self.size, self.signed, self.kind, self.rank = name, size, signed, kind, rank

    def __repr__(self):
        return self.name

    @property
    def bits(self):
        return 8 * self.size

    @property
    def isf(self):
        return self.kind == 'f'

    @property
    def lo(self):
        return 0 if not self.signed or self.kind == 'b' else -(1 << (self.bits - 1))

    @property
    def hi(self):
        if self.kind == 'b':
            return 1
        return (1 << (self.bits - (1 if self.signed else 0))) - 1


BOOL = T('_Bool', 1, False, 'b', 0)
CHAR = T('char', 1, True, 'i', 1)
SCHAR = T('signed char', 1, True, 'i', 1)
UCHAR = T('unsigned char', 1, False, 'i', 1)
SHORT = T('short', 2, True, 'i', 2)
USHORT = T('unsigned short', 2, False, 'i', 2)
INT = T('int', 4, True, 'i', 3)
UINT = T('unsigned int', 4, False, 'i', 3)
LONG = T('long', 8, True, 'i', 4)
ULONG = T('unsigned long', 8, False, 'i', 4)
LLONG = T('long long', 8, True, 'i', 5)
ULLONG = T('unsigned long long', 8, False, 'i', 5)
ENUM = T('enum E', 4, True, 'i', 3)
FLOAT = T('float', 4, True, 'f', 10)
DOUBLE = T('double', 8, True, 'f', 11)
LDOUBLE = T('long double', 16, True, 'f', 12)
INTS = [BOOL, CHAR, SCHAR, UCHAR, SHORT, USHORT, INT, UINT, LONG, ULONG, LLONG, ULLONG]
FLTS = [FLOAT, DOUBLE, LDOUBLE]
FMT = {'float': (24, -149, 128), 'double': (53, -1074, 1024), 'long double': (113, -16494, 16384)}


class FP:
    """A floating value: kind 'nan', 'inf' or 'fin'; neg; exact magnitude."""
    __slots__ = ('k', 'neg', 'm')

    def __init__(self, k, neg, m=Fraction(0)):
        self.k, self.neg, self.m = k, neg, m

    def __repr__(self):
        if self.k == 'fin':
            return ('-' if self.neg else '') + hexfloat(self.m)
        return ('-' if self.neg else '') + self.k

    def frac(self):
        return -self.m if self.neg else self.m

    def iszero(self):
        return self.k == 'fin' and self.m == 0


NAN = FP('nan', False)


def ilog2(f):
    """floor(log2(f)) for f > 0"""
    e = f.numerator.bit_length() - f.denominator.bit_length()
    if e >= 0:
        if Fraction(1 << e) > f:
            e -= 1
    else:
        if Fraction(1, 1 << -e) > f:
            e -= 1
    return e


def fround(fr, t, neg=None):
    """Round an exact Fraction to type t; neg gives the sign of a zero."""
    p, emin, emax = FMT[t.name]
    if neg is None:
        neg = fr < 0
    a = abs(fr)
    if a == 0:
        return FP('fin', neg)
    e = max(ilog2(a) - p + 1, emin)
    q = a / (Fraction(2) ** e)
    n = q.numerator // q.denominator
    r = q - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n & 1):
        n += 1
    v = n * Fraction(2) ** e
    if v >= Fraction(2) ** emax:
        return FP('inf', neg)
    return FP('fin', neg, v)


def fconv(v, t):
    if v.k != 'fin':
        return v
    return fround(v.frac(), t, v.neg)


def fbits(v, t):
    """IEEE bits of v (None for a NaN: any NaN is accepted)."""
    p, emin, emax = FMT[t.name]
    width = t.bits
    s = int(v.neg) << (width - 1)
    if v.k == 'nan':
        return None
    ebits = width - p
    if v.k == 'inf':
        return s | (((1 << ebits) - 1) << (p - 1))
    if v.m == 0:
        return s
    e = max(ilog2(v.m) - p + 1, emin)
    n = v.m / (Fraction(2) ** e)
    assert n.denominator == 1
    n = n.numerator
    if n < 1 << (p - 1):
        return s | n
    return s | ((e - emin + 1) << (p - 1)) | (n - (1 << (p - 1)))


def bits_isnan(b, t):
    p = FMT[t.name][0]
    ebits = t.bits - p
    e = (b >> (p - 1)) & ((1 << ebits) - 1)
    return e == (1 << ebits) - 1 and (b & ((1 << (p - 1)) - 1)) != 0


def conv(v, a, t):
    """Convert value v of type a to type t; None if undefined."""
    if a.isf:
        if t.isf:
            return fconv(v, t)
        if t.kind == 'b':
            return 0 if v.iszero() else 1
        if v.k != 'fin':
            return None
        n = int(v.m)
        n = -n if v.neg else n
        if n < t.lo or n > t.hi:
            return None
        return n
    if t.isf:
        return fround(Fraction(v), t)
    return wrap(v, t)


def wrap(v, t):
    if t.kind == 'b':
        return 1 if v else 0
    v &= (1 << t.bits) - 1
    if t.signed and v >> (t.bits - 1):
        v -= 1 << t.bits
    return v


def promote(t):
    if not t.isf and t.rank < INT.rank:
        return INT
    if t is ENUM:
        return INT
    return t


def usual(a, b):
    if a.isf or b.isf:
        return a if (a.rank if a.isf else 0) >= (b.rank if b.isf else 0) else b
    a, b = promote(a), promote(b)
    if a is b:
        return a
    if a.signed == b.signed:
        return a if a.rank >= b.rank else b
    u, s = (a, b) if b.signed else (b, a)
    if u.rank >= s.rank:
        return u
    if s.size > u.size:
        return s
    return {LONG: ULONG, LLONG: ULLONG, INT: UINT}[s]


def truth(v, t):
    return (not v.iszero()) if t.isf else v != 0


def fadd(x, y, t, sub=False):
    yn = y.neg ^ sub
    if x.k == 'nan' or y.k == 'nan':
        return NAN
    if x.k == 'inf' or y.k == 'inf':
        if x.k == y.k:
            return FP('inf', x.neg) if x.neg == yn else NAN
        return FP('inf', x.neg) if x.k == 'inf' else FP('inf', yn)
    r = x.frac() + (-y.m if yn else y.m)
    if r == 0:
        return FP('fin', x.neg and yn)
    return fround(r, t)


def fmul(x, y, t):
    n = x.neg ^ y.neg
    if x.k == 'nan' or y.k == 'nan':
        return NAN
    if x.k == 'inf' or y.k == 'inf':
        return NAN if x.iszero() or y.iszero() else FP('inf', n)
    return fround(x.frac() * y.frac(), t, n)


def fdiv(x, y, t):
    n = x.neg ^ y.neg
    if x.k == 'nan' or y.k == 'nan':
        return NAN
    if x.k == 'inf':
        return NAN if y.k == 'inf' else FP('inf', n)
    if y.k == 'inf':
        return FP('fin', n)
    if y.m == 0:
        return NAN if x.m == 0 else FP('inf', n)
    return fround(x.frac() / y.frac(), t, n)


def fcmp(op, x, y):
    if x.k == 'nan' or y.k == 'nan':
        return 1 if op == '!=' else 0
    big = Fraction(2) ** 20000

    def key(z):
        if z.k == 'inf':
            return -big if z.neg else big
        return z.frac()
    a, b = key(x), key(y)
    return int({'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op])


CMP = ('==', '!=', '<', '<=', '>', '>=')
ARITH = ('+', '-', '*', '/')
INTOPS = ('%', '&', '|', '^', '<<', '>>')


def binop(op, v1, t1, v2, t2):
    """(value, type) of v1 op v2, or None if undefined or not allowed."""
    if op in ('&&', '||'):
        a, b = truth(v1, t1), truth(v2, t2)
        return int((a and b) if op == '&&' else (a or b)), INT
    if op in ('<<', '>>'):
        if t1.isf or t2.isf:
            return None
        t = promote(t1)
        n = v2
        a = v1
        if n < 0 or n >= t.bits:
            return None
        if op == '<<':
            if t.signed:
                # stay with what C defines
                if a < 0 or (a << n) > t.hi:
                    return None
                return a << n, t
            return wrap(a << n, t), t
        return a >> n, t
    if op in INTOPS and (t1.isf or t2.isf):
        return None
    t = usual(t1, t2)
    a, b = conv(v1, t1, t), conv(v2, t2, t)
    if a is None or b is None:
        return None
    if t.isf:
        if op in CMP:
            return fcmp(op, a, b), INT
        if op == '+':
            return fadd(a, b, t), t
        if op == '-':
            return fadd(a, b, t, True), t
        if op == '*':
            return fmul(a, b, t), t
        if op == '/':
            return fdiv(a, b, t), t
        return None
    if op in CMP:
        return int({'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b,
                    '>': a > b, '>=': a >= b}[op]), INT
    if op in ('/', '%'):
        if b == 0:
            return None
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        r = a - q * b
        if q < t.lo or q > t.hi:
            return None
        return (q if op == '/' else r), t
    r = {'+': a + b, '-': a - b, '*': a * b, '&': a & b, '|': a | b, '^': a ^ b}[op]
    if t.signed and (r < t.lo or r > t.hi):
        return None
    return wrap(r, t), t


def unop(op, v, t):
    if op == '!':
        return int(not truth(v, t)), INT
    if t.isf:
        if op == '~':
            return None
        return (FP(v.k, not v.neg, v.m) if op == '-' and v.k != 'nan' else v), t
    p = promote(t)
    if op == '+':
        return v, p
    if op == '~':
        return wrap(~v, p), p
    r = -v
    if p.signed and r > p.hi:
        return None
    return wrap(r, p), p


# ---------------------------------------------------------------- generation

P_COMMA, P_ASSIGN, P_COND, P_LOR, P_LAND, P_OR, P_XOR, P_AND, P_EQ, P_REL, P_SHIFT, P_ADD, P_MUL, \
    P_UNARY, P_POST, P_PRIM = range(1, 17)
BPREC = {'||': P_LOR, '&&': P_LAND, '|': P_OR, '^': P_XOR, '&': P_AND, '==': P_EQ, '!=': P_EQ,
         '<': P_REL, '<=': P_REL, '>': P_REL, '>=': P_REL, '<<': P_SHIFT, '>>': P_SHIFT,
         '+': P_ADD, '-': P_ADD, '*': P_MUL, '/': P_MUL, '%': P_MUL}


class E:
    __slots__ = ('s', 'p', 't', 'v', 'const', 'bf')

    def __init__(self, s, p, t, v, const=False, bf=False):
        self.s, self.p, self.t, self.v, self.const = s, p, t, v, const
        self.bf = bf            # designates a bit-field: no sizeof, no typeof


def lit_type(v, base, suf):
    suf = suf.lower()
    u = 'u' in suf
    l = suf.replace('u', '')
    if l == 'll':
        c = [ULLONG] if u else ([LLONG] if base == 10 else [LLONG, ULLONG])
    elif l == 'l':
        c = [ULONG] if u else ([LONG] if base == 10 else [LONG, ULONG])
    elif u:
        c = [UINT, ULONG]
    else:
        c = [INT, LONG] if base == 10 else [INT, UINT, LONG, ULONG]
    for t in c:
        if v <= t.hi:
            return t
    return None


SUFS = ['', '', '', 'u', 'U', 'l', 'L', 'ul', 'UL', 'lu', 'LU', 'll', 'LL', 'ull', 'ULL', 'llu', 'Ull', 'uLL']


def int_literal(r, v=None):
    while True:
        if v is None or v < 0:
            v = interesting(r, r.choice([INT, UINT, LONG, ULONG]))
            if v < 0:
                v = -v - 1
        base = r.choice([10, 10, 10, 16, 16, 8, 2])
        suf = r.choice(SUFS)
        t = lit_type(v, base, suf)
        if t is None:
            v = None
            continue
        s = {10: '%d' % v, 16: '0x%x' % v, 8: '0%o' % v, 2: '0b' + bin(v)[2:]}[base]
        if base == 16 and r.random() < .3:
            s = '0X%X' % v
        return E(s + suf, P_PRIM, t, v, True)


def interesting(r, t):
    """A value of integer type t, biased to boundaries."""
    if t.kind == 'b':
        return r.randrange(2)
    k = r.random()
    if k < .25:
        v = r.choice([0, 1, 2, 3, 5, 7, 8, 10, 31, 32, 63, 64, 100, 127, 128, 255, 256])
        if t.signed and r.random() < .4:
            v = -v
    elif k < .5:
        v = r.choice([t.lo, t.hi, t.lo + 1, t.hi - 1, t.hi // 2, t.hi // 2 + 1])
    elif k < .75:
        b = r.randrange(t.bits)
        v = (1 << b) + r.choice([-1, 0, 0, 1])
        if t.signed and r.random() < .4:
            v = -v
    else:
        v = r.getrandbits(r.randrange(1, t.bits + 1))
        if t.signed and r.random() < .5:
            v = -v
    return wrap(v, t)


def flt_interesting(r, t, literal=False):
    """A value of floating type t."""
    k = r.random()
    p, emin, emax = FMT[t.name]
    if t is LDOUBLE:
        p = 60          # every value starts as a literal (host long double)
    if k < .3:
        f = Fraction(r.choice([0, 1, 2, 3, 10, 100, 7, 255, 256, 65535, 1 << 31, (1 << 31) - 1, 1 << 32,
                               (1 << 53) + 2, 1 << 63, 12345]))
    elif k < .5:
        f = Fraction(r.choice([1, 3, 5, 7, 9, 11]), 1 << r.randrange(1, 8))
    elif k < .8:
        f = Fraction(r.getrandbits(r.randrange(1, min(p, 64) + 1)), 1 << r.randrange(0, 40))
    else:
        e = r.randrange(-60, 60) if r.random() < .6 else r.randrange(emin + p, emax - p)
        f = Fraction(r.getrandbits(p) | 1) * Fraction(2) ** e
    if r.random() < .4:
        f = -f
    if literal and f < 0:
        f = -f
    x = fround(f, t, neg=f < 0 or (f == 0 and not literal and r.random() < .3))
    if not literal and r.random() < .04:
        return r.choice([NAN, FP('inf', False), FP('inf', True)])
    if x.k != 'fin':
        return fround(Fraction(3, 2), t)
    return x


def hexfloat(m):
    """exact hexadecimal text of a non-negative Fraction with a power-of-2 denominator"""
    n, d = m.numerator, m.denominator
    e = -(d.bit_length() - 1)
    while n and n % 16 == 0:
        n //= 16
        e += 4
    return '0x%xp%d' % (n, e)


def decfloat(m):
    """exact decimal text"""
    n, d = m.numerator, m.denominator
    k = d.bit_length() - 1
    s = str(n * 5 ** k)
    if k == 0:
        return s + '.0'
    s = s.rjust(k + 1, '0')
    return s[:-k] + '.' + s[-k:]


FSUF = {'float': ['f', 'F'], 'double': [''], 'long double': ['l', 'L']}


def flt_literal(r, t=None):
    t = t or r.choice(FLTS)
    x = flt_interesting(r, t, literal=True)
    m = x.m
    if r.random() < .5 or m.denominator.bit_length() > 60 or m.numerator.bit_length() > 100:
        s = hexfloat(m)
        if r.random() < .3:
            s = s.replace('0x', '0X').replace('p', 'P')
    else:
        s = decfloat(m)
        if r.random() < .3 and s.endswith('.0'):
            s = s[:-1] if r.random() < .5 else s[:-2] + 'e0'
        elif s.startswith('0.') and len(s) > 2 and r.random() < .3:
            s = s[1:]
    return E(s + r.choice(FSUF[t.name]), P_PRIM, t, x, True)


class Gen:
    """Generates expressions over a pool of variables with known values."""

    def __init__(self, r, floats=0.0, const_only=False):
        self.r = r
        self.floats = floats
        self.const_only = const_only
        self.vars = []          # E leaves
        self.mut = []           # mutable variables: [text, T, value]
        self.ops = {}           # coverage

    def note(self, k):
        self.ops[k] = self.ops.get(k, 0) + 1

    def anytype(self):
        if self.r.random() < self.floats:
            return self.r.choice(FLTS)
        return self.r.choice(INTS)

    def leaf(self):
        r = self.r
        if self.vars and not self.const_only and r.random() < .7:
            e = r.choice(self.vars)
            return e
        if r.random() < self.floats:
            return flt_literal(r)
        k = r.random()
        if k < .06:
            t = r.choice(INTS + (FLTS if self.floats else []))
            return E('sizeof(%s)' % t.name, P_UNARY, ULONG, t.size, True)
        if k < .1:
            t = r.choice(INTS + (FLTS if self.floats else []))
            return E('_Alignof(%s)' % t.name, P_UNARY, ULONG, t.size, True)
        if k < .18:
            c = r.choice("abzAZ09 ~!%{}")
            return E("'%s'" % c, P_PRIM, INT, ord(c), True)
        return int_literal(r)

    def paren(self, e, minp):
        if e.p < minp or self.r.random() < .12:
            return '(' + e.s + ')'
        return e.s

    def bin(self, op, a, b):
        x = binop(op, a.v, a.t, b.v, b.t)
        if x is None:
            return None
        p = BPREC[op]
        sa = self.paren(a, p)
        sb = self.paren(b, p + 1)
        self.note(op)
        return E('%s %s %s' % (sa, op, sb), p, x[1], x[0], a.const and b.const)

    def un(self, op, a):
        x = unop(op, a.v, a.t)
        if x is None:
            return None
        s = self.paren(a, P_UNARY)
        sp = ' ' if s[0] in '+-&' else ''
        self.note('u' + op)
        return E(op + sp + s, P_UNARY, x[1], x[0], a.const)

    def cast(self, t, a):
        v = conv(a.v, a.t, t)
        if v is None:
            return None
        self.note('cast')
        return E('(%s)%s' % (t.name, self.paren(a, P_UNARY)), P_UNARY, t, v, a.const)

    def assign(self, d):
        """an expression that modifies a variable not used elsewhere in it"""
        r = self.r
        if not self.mut:
            return None
        i = r.randrange(len(self.mut))
        m = self.mut.pop(i)
        text, t, v = m
        res = None
        k = r.random()
        if k < .4:
            op = r.choice(['++', '--'])
            x = binop('+' if op == '++' else '-', v, t, 1, INT)
            n = x and conv(x[0], x[1], t)
            if n is not None:
                self.note('inc')
                if r.random() < .5:
                    res = E(text + op, P_POST, t, v)
                else:
                    res = E(op + text, P_UNARY, t, n)
        else:
            b = self.expr(d - 1)
            if k < .55:
                n = conv(b.v, b.t, t)
                op = '='
            else:
                op = r.choice(['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>'])
                x = binop(op, v, t, b.v, b.t)
                n = x and conv(x[0], x[1], t)
                op += '='
            if n is not None:
                self.note('a' + op)
                res = E('%s %s %s' % (text, op, self.paren(b, P_ASSIGN)), P_ASSIGN, t, n)
        # a modified (or tried) variable is not used again in this expression
        if res:
            res = E(res.s, res.p, t, res.v)
        return res

    def expr(self, d):
        r = self.r
        for _ in range(20):
            if d <= 0 or r.random() < .12:
                return self.leaf()
            k = r.random()
            e = None
            if k < .52:
                op = r.choice(['+', '-', '*', '/', '&', '|', '^', '<<', '>>', '%', '<', '<=', '>', '>=',
                               '==', '!=', '&&', '||'])
                a = self.expr(d - 1)
                if op in ('<<', '>>') and r.random() < .8:
                    b = E(*[(str(n), P_PRIM, INT, n, True) for n in [r.randrange(promote(a.t).bits)]][0]) \
                        if not a.t.isf else self.leaf()
                    if r.random() < .5 and not a.t.isf:
                        b = self.cast(r.choice(INTS[1:]), b) or b
                else:
                    b = self.expr(d - 1)
                e = self.bin(op, a, b)
                if e is None and not a.t.isf and not b.t.isf and op in ('+', '-', '*'):
                    a2 = self.cast(r.choice([UINT, ULONG]), a)
                    e = self.bin(op, a2, b)
            elif k < .68:
                e = self.un(r.choice(['-', '~', '!', '+', '-', '~']), self.expr(d - 1))
            elif k < .82:
                e = self.cast(self.anytype(), self.expr(d - 1))
            elif k < .91:
                c = self.expr(d - 1)
                if r.random() < .12 and not self.const_only:
                    # [GNU] omitted middle operand
                    b = self.expr(d - 1)
                    t = usual(c.t, b.t)
                    v = conv(c.v, c.t, t) if truth(c.v, c.t) else conv(b.v, b.t, t)
                    if v is not None:
                        e = E('%s ?: %s' % (self.paren(c, P_LOR), self.paren(b, P_COND)), P_COND, t, v,
                              c.const and b.const)
                        self.note('?:gnu')
                else:
                    a, b = self.expr(d - 1), self.expr(d - 1)
                    t = usual(a.t, b.t)
                    x = a if truth(c.v, c.t) else b
                    v = conv(x.v, x.t, t)
                    if v is not None:
                        e = E('%s ? %s : %s' % (self.paren(c, P_LOR), self.paren(a, P_COMMA),
                                                self.paren(b, P_COND)), P_COND, t, v,
                              c.const and a.const and b.const)
                        self.note('?:')
            elif k < .94 and not self.const_only:
                a, b = self.expr(d - 1), self.expr(d - 1)
                e = E('(%s, %s)' % (self.paren(a, P_ASSIGN), self.paren(b, P_ASSIGN)), P_PRIM, b.t, b.v, False, b.bf)
                self.note(',')
            elif not self.const_only:
                e = self.assign(d)
            if e is not None:
                return e
        return self.leaf()
