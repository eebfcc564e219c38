"""Random C types with known member paths."""
SCALARS = [('_Bool', 1), ('char', 1), ('signed char', 1), ('unsigned char', 1), ('short', 2), ('unsigned short', 2),
           ('int', 4), ('unsigned', 4), ('long', 8), ('unsigned long', 8), ('long long', 8), ('float', 4), ('double', 8),
           ('long double', 16), ('void *', 8), ('enum E', 4), ('int *', 8)]
INTLIKE = [s for s in SCALARS if s[0] not in ('float', 'double', 'long double', 'void *', 'int *')]
BFT = [('_Bool', 1), ('char', 8), ('signed char', 8), ('unsigned char', 8), ('short', 16), ('unsigned short', 16), ('int', 32),
       ('unsigned', 32), ('long', 64), ('unsigned long', 64), ('enum E', 32), ('unsigned long long', 64)]


class Ty:
    """kind: 's' scalar, 'a' array, 'r' record, 'b' bit-field (as member only)"""

    def __init__(self, kind, name=None, base=None, n=0, members=None, union=False, width=0):
        self.kind, self.name, self.base, self.n = kind, name, base, n
        self.members, self.union, self.width = members, union, width

    def decl(self, ident):
        if self.kind == 's':
            return '%s %s' % (self.name, ident)
        if self.kind == 'a':
            return self.base.decl('%s[%s]' % (ident, self.n if self.n >= 0 else ''))
        return '%s %s' % (self.name, ident)

    def leaves(self, path=''):
        """(path, scalar Ty or bit-field Ty)"""
        if self.kind in ('s', 'b'):
            yield path, self
        elif self.kind == 'a':
            for i in range(max(self.n, 0)):
                yield from self.base.leaves('%s[%d]' % (path, i))
        else:
            for m, t in self.members:
                if t.kind == 'b' and m is None:
                    continue
                yield from t.leaves('%s.%s' % (path, m) if m else path)


class TyGen:
    def __init__(self, r, prefix='S', packed=True, aligned=True, bitfields=True, flex=True, ldouble=True, anon=True, maxalign=32):
        self.maxalign = maxalign
        self.r, self.prefix = r, prefix
        self.k = 0
        self.out = []          # declarations
        self.recs = []         # record types
        self.o = dict(packed=packed, aligned=aligned, bitfields=bitfields, flex=flex, ldouble=ldouble, anon=anon)
        self.cov = set()
        self.mem = 0

    def scalar(self):
        r = self.r
        while True:
            s = r.choice(SCALARS)
            if s[0] == 'long double' and (not self.o['ldouble'] or r.random() < .5):
                continue
            return Ty('s', s[0])

    def any(self, d):
        r = self.r
        k = r.random()
        if d <= 0 or k < .5:
            return self.scalar()
        if k < .7:
            return Ty('a', base=self.any(d - 1), n=r.choice([1, 1, 2, 3, 4, 5, 7]))
        if k < .85 and self.recs:
            return r.choice(self.recs)
        return self.record(d - 1)

    def mname(self):
        self.mem += 1
        return 'm%d' % self.mem

    def record(self, d, flex=False, small=False):
        r = self.r
        self.k += 1
        name = '%s%d' % (self.prefix, self.k)
        union = r.random() < .22
        members, text = self.members(d, union, small)
        attr = ''
        if self.o['packed'] and r.random() < .15:
            attr += ' __attribute__((packed))'
            self.cov.add('packed')
        if self.o['aligned'] and r.random() < .12:
            attr += ' __attribute__((aligned(%d)))' % min(self.maxalign, r.choice([1, 2, 4, 8, 16, 32]))
            self.cov.add('aligned')
        if flex and self.o['flex'] and not union and members and r.random() < .3:
            b = self.scalar()
            m = self.mname()
            members.append((m, Ty('a', base=b, n=-1)))
            text += ' ' + b.decl(m + '[]') + ';'
            self.cov.add('flex')
        kw = 'union' if union else 'struct'
        if self.o['aligned'] and attr and r.random() < .4:
            # attributes at both places, several in one list
            a2 = ' __attribute__((aligned(%d)))' % min(self.maxalign, r.choice([2, 4, 8, 16, 32])) if 'aligned' not in attr else ' __attribute__((packed))' if self.o['packed'] and 'packed' not in attr else ''
            if a2:
                self.cov.add('packed and aligned')
            if r.random() < .3:
                attr, a2 = a2, attr
            if a2 and attr and r.random() < .2:
                attr, a2 = ' __attribute__((%s, %s))' % (attr.strip()[15:-2], a2.strip()[15:-2]), ''
            self.out.append('%s%s %s { %s }%s;' % (kw, attr, name, text, a2))
        elif r.random() < .5 or not attr:
            self.out.append('%s %s { %s }%s;' % (kw, name, text, attr))
        else:
            self.out.append('%s%s %s { %s };' % (kw, attr, name, text))
        t = Ty('r', '%s %s' % (kw, name), members=members, union=union)
        self.recs.append(t)
        self.cov.add('record %s n%d' % (kw, len(members)))
        return t

    def members(self, d, union, small=False):
        r = self.r
        members, text = [], []
        n = r.randrange(1, 3 if small else 7)
        bfrun = self.o['bitfields'] and r.random() < .4
        for _ in range(n):
            k = r.random()
            if bfrun and k < .65:
                t, w = r.choice(BFT)
                if r.random() < .12:
                    text.append('%s : %d;' % (t, r.choice([0, 0, r.randrange(1, w + 1)])))
                    self.cov.add('unnamed bit-field ' + t)
                    members.append((None, Ty('b', t, width=0)))
                    continue
                width = r.choice([1, w, r.randrange(1, w + 1), r.randrange(1, w + 1)])
                m = self.mname()
                text.append('%s %s : %d;' % (t, m, width))
                members.append((m, Ty('b', t, width=width)))
                self.cov.add('bit-field %s:%d' % (t, width))
            elif k > .9 and d > 0 and self.o['anon']:
                u = r.random() < .5
                ms, tx = self.members(d - 1, u)
                ms = [x for x in ms]
                if not any(m for m, _ in ms):
                    continue
                al = ''
                if self.o['aligned'] and self.maxalign >= 16 and r.random() < .2:
                    al = '_Alignas(%d) ' % self.maxalign
                    self.cov.add('_Alignas anonymous')
                text.append('%s%s { %s };' % (al, 'union' if u else 'struct', tx))
                members.append((None, Ty('r', None, members=ms, union=u)))
                self.cov.add('anonymous')
            else:
                t = self.any(d)
                m = self.mname()
                al = ''
                if self.o['aligned'] and r.random() < .08 and t.kind == 's':
                    a = min(self.maxalign, r.choice([4, 8, 16, 32]))
                    import builtins
                    sz = dict(SCALARS)[t.name]
                    if a >= sz:
                        al = '_Alignas(%d) ' % a
                        self.cov.add('_Alignas member')
                elif self.o['aligned'] and self.maxalign >= 16 and r.random() < .04:
                    al = '_Alignas(%d) ' % self.maxalign
                    self.cov.add('_Alignas derived member')
                members.append((m, t))
                text.append(al + t.decl(m) + ';')
        if not any(m for m, _ in members) and not any(t.kind == 'r' for _, t in members):
            m = self.mname()
            t = self.scalar()
            members.append((m, t))
            text.append(t.decl(m) + ';')
        return members, ' '.join(text)
