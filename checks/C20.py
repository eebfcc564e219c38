import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
from modelprog import *

NAMES = ['a', 'b', 'c', 'x', 'T', 'U', 'foo', 'y']
# spellings that look like something else: literal prefixes, registers, instructions, keywords, builtins, labels of the assembly
ODD = ['L', 'u', 'u8', 'LL', 'e1', 'p1', 'x1', 'a0', 'sp', 't0', 'fp', 'ra', 'zero', 'li', 'add', 'ret', 'alloca', 'begin', 'end', 'va_area',
       'defined', 'once', 'include', 'inlined', 'ifx', 'int8', 'forx', 'dox', 'sizeof_', '_Boolx', 'Generic', 'asm_', 'é', 'ü1', 'x$', '_', '__', 'xx', 'xxx',
       'tp', 'gp', 'ft0', 'rem', 'not', 'file', 'data', 'text', 'abcdefghijklmnopqrstuvwxyz_0123456789_ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz']


def odd_names(r, src):
    """the same program with some of its names spelled differently"""
    odd = r.sample(sorted(set(ODD)), len(NAMES)) if r.random() < .5 else []
    m = {n: o for n, o in zip(NAMES, odd) if r.random() < .5}
    if not m:
        return src, m
    src = re.sub(r'"(?:[^"\\]|\\.)*"|\b(%s)\b' % '|'.join(m), lambda x: m[x[1]] if x[1] else x[0], src)
    return src, m
ITYPES = [('char', 1), ('short', 2), ('int', 4), ('long', 8), ('unsigned', 4), ('signed char', 1), ('long long', 8)]


class Ent:
    """what a declaration denotes"""
    n = 0

    def __init__(self, kind, **kw):
        self.kind = kind            # auto static enum type func tag
        self.__dict__.update(kw)

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.__dict__)


class Scopes:
    """one translation unit of nested scopes, with the resolution C prescribes"""
    def __init__(self, r, cov):
        self.r, self.cov = r, cov
        self.out = []
        self.ids = 0
        self.vals = 0
        self.ord = [{}]             # scope chain, ordinary identifiers
        self.tag = [{}]
        self.static = {}            # entity -> value between calls
        self.funcs = []             # (name, ops, params)
        self.labels = set()
        self.ind = 0
        self.late = []
        self.nf = 0

    # -- infrastructure
    def w(self, t):
        self.out.append('\t' * self.ind + t)

    def ev(self):
        self.ids += 1
        return self.ids

    def val(self):
        self.vals += 1
        return 100 + 3 * self.vals + self.r.randrange(3)

    def look(self, chain, n):
        for s in reversed(chain):
            if n in s:
                return s[n]
        return None

    def push(self):
        self.ord.append({})
        self.tag.append({})
        self.ind += 1

    def pop(self):
        self.ord.pop()
        self.tag.pop()
        self.ind -= 1

    # -- uses
    def use(self, ops):
        r = self.r
        cand = sorted({n for s in self.ord for n in s})
        tags = sorted({n for s in self.tag for n in s})
        if tags and r.random() < .3:
            n = r.choice(tags)
            e = self.look(self.tag, n)
            if not e.size:
                return
            i = self.ev()
            self.w('ev(%d, sizeof(%s %s));' % (i, e.kw, n))
            ops.append(lambda m, f: m.add(i, e.size, 'sizeof(%s %s)' % (e.kw, n)))
            self.cov.add('use of tag %s' % e.kw)
            return
        if not cand:
            return
        n = r.choice(cand)
        e = self.look(self.ord, n)
        i = self.ev()
        depth = next(k for k, s in enumerate(reversed(self.ord)) if n in s)
        hidden = sum(n in s for s in self.ord) - 1
        self.cov.add('use of %s%s' % (e.kind, ', hiding %d' % min(hidden, 3) if hidden else ''))
        if depth:
            self.cov.add('use of %s from %s scopes out' % (e.kind, min(depth, 4)))
        if e.kind in ('auto', 'static'):
            k = r.randrange(7)
            if k < 2:
                self.w('ev(%d, %s);' % (i, n))
                ops.append(lambda m, f: m.add(i, m.get(f, e), n))
            elif k == 2:
                self.w('ev(%d, (%s) - 3);' % (i, n))
                ops.append(lambda m, f: m.add(i, m.get(f, e) - 3, '(%s) - 3' % n))
            elif k == 3:
                self.w('ev(%d, ++%s);' % (i, n))
                ops.append(lambda m, f: (m.set(f, e, m.get(f, e) + 1), m.add(i, m.get(f, e), '++' + n)))
            elif k == 4:
                v = self.val()
                self.w('%s = %d;' % (n, v))
                self.w('ev(%d, %s);' % (i, n))
                ops.append(lambda m, f: (m.set(f, e, v), m.add(i, v, n)))
            elif k == 5:
                self.w('ev(%d, sizeof %s);' % (i, n))
                ops.append(lambda m, f: m.add(i, 4, 'sizeof ' + n))
            else:
                self.w('{ int *p_ = &%s; *p_ += 2; ev(%d, %s * 2); }' % (n, i, n))
                ops.append(lambda m, f: (m.set(f, e, m.get(f, e) + 2), m.add(i, 2 * m.get(f, e), n + ' * 2')))
        elif e.kind == 'array':
            self.w('ev(%d, sizeof %s);' % (i, n))
            ops.append(lambda m, f: m.add(i, e.size, 'sizeof ' + n))
        elif e.kind == 'enum':
            k = r.randrange(3)
            self.w('ev(%d, %s);' % (i, [n, '(%s) - 3' % n, 'sizeof(char[%s])' % n][k]))
            ops.append(lambda m, f: m.add(i, e.v - 3 * (k == 1), 'enumerator ' + n))
        elif e.kind == 'type':
            k = r.randrange(4)
            if k == 0 or not e.int:
                self.w('ev(%d, sizeof(%s));' % (i, n))
                ops.append(lambda m, f: m.add(i, e.size, 'sizeof(%s)' % n))
            elif k == 1:
                self.w('ev(%d, (%s) - 3 == -3);' % (i, n)) if e.int != 'unsigned' else self.w('ev(%d, (%s) - 3 == -3u);' % (i, n))
                ops.append(lambda m, f: m.add(i, 1, '(%s) - 3' % n))
            elif k == 2:
                v = self.r.randrange(100)
                p = 'q%d_' % self.ev()
                self.w('{ %s * %s, %sv = %d; %s = &%sv; ev(%d, *%s + sizeof *%s); }' % (n, p, p, v, p, p, i, p, p))
                ops.append(lambda m, f: m.add(i, v + e.size, 'object of type ' + n))
            else:
                # T (x); declares x
                v = self.r.randrange(100)
                self.w('{ %s (z_), w_; z_ = %d; w_ = 1; ev(%d, z_ + sizeof w_); }' % (n, v, i))
                ops.append(lambda m, f: m.add(i, v + e.size, '%s (z_)' % n))
        elif e.kind == 'func':
            k = r.randrange(3)
            self.w('ev(%d, %s);' % (i, [n + '()', '(%s)()' % n, '(*&%s)()' % n][k]))
            ops.append(lambda m, f: m.add(i, e.v, 'call of ' + n))

    # -- declarations
    def name(self, chain=None):
        return self.r.choice([n for n in NAMES if n not in (chain or self.ord)[-1]] or ['n%d' % self.ev()])

    def decl(self, ops):
        r = self.r
        k = r.randrange(17)
        n = self.name()
        old = self.look(self.ord, n)
        top = self.ord[-1]
        if k < 3:
            v = self.val()
            e = Ent('auto')
            cand = sorted(m for s in self.ord for m in s if self.look(self.ord, m).kind in ('auto', 'static') and m != n)
            if cand and r.random() < .4:
                o = r.choice(cand)
                oe = self.look(self.ord, o)
                self.w('int %s = %s + %d;' % (n, o, v))
                ops.append(lambda m, f: m.set(f, e, m.get(f, oe) + v))
            elif r.random() < .2:
                self.w('int %s = sizeof %s + %d;' % (n, n, v))
                ops.append(lambda m, f: m.set(f, e, 4 + v))
                self.cov.add('the declared name in its own initializer')
            elif r.random() < .2 and cand:
                # int n = outer, outer2 = n: several declarators, scope starts after each
                o = r.choice(cand)
                oe = self.look(self.ord, o)
                if o not in top:
                    e2 = Ent('auto')
                    self.w('int %s = %s, %s = %s + 1;' % (n, o, o, n))
                    ops.append(lambda m, f: (m.set(f, e, m.get(f, oe)), m.set(f, e2, m.get(f, e) + 1)))
                    top[o] = e2
                    self.cov.add('a later declarator hides a name an earlier one used')
                else:
                    self.w('int %s = %d;' % (n, v))
                    ops.append(lambda m, f: m.set(f, e, v))
            else:
                self.w('%s %s = %d;' % (r.choice(['int', 'auto int' if False else 'int', 'register int' if False else 'int']), n, v))
                ops.append(lambda m, f: m.set(f, e, v))
            top[n] = e
        elif k < 6:
            v = self.val()
            e = Ent('static')
            if r.random() < .25:
                v = 0
                self.w('static int %s;' % n)
            elif old is not None and old.kind == 'enum' and r.random() < .5:
                m = self.val()
                # the initializer sees the new declaration; use another constant
                self.w('static int %s = %d;' % (n, m))
                v = m
            else:
                self.w('static int %s = %d;' % (n, v))
            self.static[e] = v
            top[n] = e
        elif k < 8:
            if old is not None and old.kind == 'enum' and r.random() < .7:
                v = old.v + 1
                self.w('enum { %s = %s + 1 };' % (n, n))
                self.cov.add('enumerator initialized with the one it hides')
            else:
                v = self.val()
                self.w(r.choice(['enum { %s = %d };', 'enum { %s = %d, };', '(void)(enum { %s = %d })0;', '(void)sizeof(enum { %s = %d });', 'int dummy%d_ = sizeof(enum { %%s = %%d });' % self.ev()]) % (n, v))
            top[n] = Ent('enum', v=v)
        elif k < 10:
            if r.random() < .5:
                t, z = r.choice(ITYPES)
                e = Ent('type', size=z, int=t)
                self.w('typedef %s %s;' % (t, n))
            elif old is not None and old.kind in ('type', 'array') and r.random() < .6:
                e = Ent('type', size=old.size + 1, int=None)
                self.w('typedef char %s[sizeof(%s) + 1];' % (n, n))
                self.cov.add('typedef declared with the name it hides')
            elif old is not None and old.kind == 'type' and old.int:
                e = Ent('type', size=old.size, int=old.int)
                self.w('typedef %s %s;' % (n, n))
                self.cov.add('typedef T T')
            else:
                z = r.randrange(1, 90)
                e = Ent('type', size=z, int=None)
                self.w('typedef char %s[%d];' % (n, z))
            top[n] = e
        elif k == 10:
            if old is not None and old.kind in ('type', 'array') and r.random() < .7:
                z = old.size + 2
                self.w('char %s[sizeof(%s) + 2];' % (n, n))
                self.cov.add('array declared with a bound using the name it hides')
            elif old is not None and old.kind == 'type' and old.int:
                z = old.size
                self.w('%s %s;' % (n, n))
                self.cov.add('object named like its type')
            else:
                z = r.randrange(1, 50)
                self.w('char %s[%d];' % (n, z))
            top[n] = Ent('array', size=z)
        elif k < 14:
            self.decltag()
        elif k == 14:
            # extern of a file-scope object
            g = [m for m, e in self.ord[0].items() if e.kind == 'static' and m not in top and
                 (e.ext or self.look(self.ord, m) is e)]
            if g:
                n = r.choice(sorted(g))
                self.w('extern int %s;' % n)
                top[n] = self.ord[0][n]
                self.cov.add('block-scope extern')
        elif k == 15:
            g = [m for m, e in self.ord[0].items() if e.kind == 'func' and m not in top and (e.ext or self.look(self.ord, m) is e)]
            if g:
                n = r.choice(sorted(g))
                self.w('%sint %s(void);' % (r.choice(['', 'extern ']), n))
                top[n] = self.ord[0][n]
                self.cov.add('block-scope function declaration')
        else:
            # things that declare nothing here
            n2 = r.choice(NAMES)
            v = self.val()
            i = self.ev()
            j = r.randrange(5)
            if j == 0:
                self.w('int proto%d_(enum { %s = %d } q_, struct %s { char c[%d]; } *r_, int %s);' % (i, n2, v, n2, v, r.choice([m for m in NAMES if m != n2])))
                self.cov.add('prototype scope')
            elif j == 1:
                self.w('{ struct { int %s, *z; } s_ = { %d }; ev(%d, s_.%s); }' % (n2, v, i, n2))
                ops.append(lambda m, f: m.add(i, v, 'member ' + n2))
                self.cov.add('member name space')
            elif j == 2:
                self.w('ev(%d, ({ int %s = %d; %s + 1; }));' % (i, n2, v, n2))
                ops.append(lambda m, f: m.add(i, v + 1, 'statement expression'))
                self.cov.add('statement expression scope')
            elif j == 3:
                self.w('for (int %s = %d; %s < %d; %s++) ev(%d, %s);' % (n2, v, n2, v + 2, n2, i, n2))
                ops.append(lambda m, f: (m.add(i, v, 'for'), m.add(i, v + 1, 'for')))
                self.cov.add('for scope')
            else:
                self.w('{ union { struct { int %s; }; char z; } s_ = { { %d } }, *p_ = &s_; ev(%d, p_->%s); }' % (n2, v, i, n2))
                ops.append(lambda m, f: m.add(i, v, 'anonymous member ' + n2))
                self.cov.add('member name space')

    def decltag(self):
        r = self.r
        tops = self.tag[-1]
        n = r.choice(NAMES)
        e = tops.get(n)
        old = self.look(self.tag, n)
        if e is None:
            k = r.randrange(6)
            kw = r.choice(['struct', 'struct', 'union'])
            z = r.randrange(1, 120)
            if k == 0:
                self.w('%s %s;' % (kw, n))
                tops[n] = Ent('tag', kw=kw, size=0)
                self.cov.add('forward declaration of a tag' + (' hiding another' if old else ''))
            elif k == 1:
                if len(self.ord) > 1:
                    self.w('%s %s { char c[%d]; %s %s *next; } v%d_;' % (kw, n, 16, kw, n, self.ev()))
                    z = 24 if kw == 'struct' else 16
                else:
                    self.w('%s %s { char c[%d]; };' % (kw, n, z))
                tops[n] = Ent('tag', kw=kw, size=z)
            elif k == 2:
                # nested definition belongs to the enclosing scope
                m = r.choice([x for x in NAMES if x != n])
                if m not in tops:
                    self.w('struct %s { struct %s { char c[%d]; } in[2]; };' % (n, m, z))
                    tops[n] = Ent('tag', kw='struct', size=2 * z)
                    tops[m] = Ent('tag', kw='struct', size=z)
                    self.cov.add('tag defined inside another')
            elif k == 3 and n not in self.ord[-1] and n not in self.tag[-1]:
                v = self.val()
                en = self.name()
                self.w('enum %s { %s = %d };' % (n, en, v))
                tops[n] = Ent('tag', kw='enum', size=4)
                self.ord[-1][en] = Ent('enum', v=v)
            elif k == 4 and old is not None and old.size and old.kw == kw:
                # uses the visible one, declares nothing
                self.w('extern %s %s *nothing%d_;' % (kw, n, self.ev()))
            else:
                self.w('%s %s { char c[%d]; };' % (kw, n, z))
                tops[n] = Ent('tag', kw=kw, size=z)
        elif not e.size:
            z = r.randrange(1, 120)
            self.w('%s %s { char c[%d]; };' % (e.kw, n, z))
            e2 = Ent('tag', kw=e.kw, size=z)
            tops[n] = e2
            self.cov.add('tag completed later')

    # -- statements
    def block(self, ops, d):
        r = self.r
        for _ in range(r.randrange(2, 9)):
            k = r.random()
            if k < .35:
                self.decl(ops)
            elif k < .75 or d > 4:
                self.use(ops)
            else:
                self.nest(ops, d)

    def nest(self, ops, d):
        r = self.r
        k = r.randrange(11)
        if k < 3:
            self.w('{')
            self.push()
            self.block(ops, d + 1)
            self.pop()
            self.w('}')
        elif k == 3:
            n = self.r.choice(NAMES)
            v = self.val()
            self.w('for (int %s = %d; %s < %d; %s++) {' % (n, v, n, v + 1, n))
            self.ord.append({n: Ent('auto')})
            self.tag.append({})
            e = self.ord[-1][n]
            e.const = True
            ops.append(lambda m, f: m.set(f, e, v))
            self.push()
            sub = []
            # the loop variable itself may be changed: run once
            self.block(sub, d + 1)
            self.pop()
            self.w('break; }')
            self.ord.pop()
            self.tag.pop()
            ops.append(lambda m, f: m.run(sub, f))
            self.cov.add('for loop scope')
        elif k == 4:
            self.w('if (1) {')
            self.push()
            self.block(ops, d + 1)
            self.pop()
            self.w('} else {')
            self.push()
            self.block([], d + 1)
            self.pop()
            self.w('}')
        elif k == 5:
            self.w('do {')
            self.push()
            self.block(ops, d + 1)
            self.pop()
            self.w('} while (0);')
        elif k == 6:
            self.w('switch (1) { case 1: {')
            self.push()
            self.block(ops, d + 1)
            self.pop()
            self.w('} }')
        elif k == 7:
            n = r.choice([x for x in NAMES if x not in self.labels] or [None])
            if n:
                self.labels.add(n)
                i = self.ev()
                self.w('goto %s;' % n)
                self.w('ev(%d, 1);' % i)
                self.w('%s: ;' % n)
                self.cov.add('label name space')
        elif k == 8:
            # loop run twice: automatic objects start again, static ones do not
            c = 'i%d_' % self.ev()
            self.w('for (int %s = 0; %s < 2; %s++) {' % (c, c, c))
            self.push()
            sub = []
            self.block(sub, d + 1)
            self.pop()
            self.w('}')
            ops.append(lambda m, f: (m.run(sub, f), m.run(sub, f)))
            self.cov.add('block entered twice')
        elif k == 9:
            i = self.ev()
            self.w('ev(%d, ({' % i)
            self.push()
            self.block(ops, d + 1)
            v = self.val()
            self.w('%d; }));' % v)
            self.pop()
            ops.append(lambda m, f: m.add(i, v, 'statement expression'))
            self.cov.add('statement expression scope')
        else:
            # a tag or enumerator declared in a controlling expression ends with the statement
            n = r.choice(NAMES)
            v = self.val()
            w = r.choice(['if', 'switch', 'while', 'for'])
            if w == 'for':
                self.w('for (; sizeof(enum { %s = %d }); ) {' % (n, v))
            elif w == 'switch':
                self.w('switch (sizeof(enum { %s = %d })) { default: {' % (n, v))
            else:
                self.w('%s (sizeof(enum { %s = %d })) {' % (w, n, v))
            self.ord.append({n: Ent('enum', v=v)})
            self.tag.append({})
            self.push()
            self.block(ops, d + 1)
            self.pop()
            self.w('break; }' if w in ('while', 'for') else '}' + ' }' * (w == 'switch'))
            self.ord.pop()
            self.tag.pop()
            self.cov.add('declaration in the controlling expression of ' + w)

    # -- file scope
    def filescope(self):
        r = self.r
        k = r.randrange(9)
        n = self.name()
        v = self.val()
        if k == 0:
            e = Ent('static', ext=True)
            forms = r.choice([['int %s = %d;'], ['extern int %s;', 'int %s = %d;'], ['int %s;', 'int %s = %d;', 'int %s;'], ['int %s;', 'extern int %s;', 'int %s;'], ['int %s = %d;', 'extern int %s;'],
                              ['extern int %s;', 'int %s;'], ['int %s;'], ['int %s, *pp_%s = &%s;']])
            self.static[e] = v if any('%d' in f for f in forms) else 0
            j = r.randrange(len(forms))
            for f in forms[:j + 1]:
                self.w(f % (n, v) if '%d' in f else f % ((n,) * f.count('%s')))
            self.late += [(f % (n, v) if '%d' in f else f % n) for f in forms[j + 1:]]
            if forms[j + 1:]:
                self.cov.add('used before its definition')
            self.cov.add('file scope: ' + ' '.join(forms))
            self.ord[0][n] = e
        elif k == 1:
            e = Ent('static', ext=False)
            forms = r.choice([['static int %s = %d;'], ['static int %s;', 'static int %s = %d;'], ['static int %s;', 'extern int %s;', 'static int %s;'], ['static int %s = %d;', 'extern int %s;'], ['static int %s;', 'static int %s;', 'static int %s = %d;', 'static int %s;']])
            self.static[e] = v if any('%d' in f for f in forms) else 0
            j = r.randrange(len(forms))
            for f in forms[:j + 1]:
                self.w(f % (n, v) if '%d' in f else f % n)
            self.late += [(f % (n, v) if '%d' in f else f % n) for f in forms[j + 1:]]
            self.cov.add('file scope: ' + ' '.join(forms))
            self.ord[0][n] = e
        elif k == 2:
            ext = r.random() < .5
            e = Ent('func', v=v, ext=ext)
            body = ' { return %d; }' % v
            forms = r.choice([['int %s(void)' + body], ['int %s(void);', 'int %s(void)' + body], ['extern int %s(void);', 'int %s(void)' + body], ['int %s(void)' + body, 'int %s(void);'], ['extern inline int %s(void)' + body]] if ext else
                             [['static int %s(void)' + body], ['static int %s(void);', 'int %s(void)' + body], ['static int %s(void);', 'static int %s(void)' + body], ['static inline int %s(void)' + body],
                              ['static int %s(void);', 'extern int %s(void);', 'static int %s(void)' + body], ['static inline int %s(void);', 'static int %s(void)' + body]])
            j = r.randrange(len(forms))
            for f in forms[:j + 1]:
                self.w(f % n)
            self.late += [f % n for f in forms[j + 1:]]
            self.cov.add('file scope: ' + ' '.join(forms).replace(str(v), '1'))
            self.ord[0][n] = e
        elif k == 3:
            self.w('enum { %s = %d };' % (n, v))
            self.ord[0][n] = Ent('enum', v=v)
        elif k == 4:
            t, z = r.choice(ITYPES)
            self.w('typedef %s %s;' % (t, n))
            self.ord[0][n] = Ent('type', size=z, int=t)
            if r.random() < .3:
                self.w('typedef %s %s;' % (t, n))
                self.cov.add('typedef repeated')
        elif k < 7:
            self.decltag()
        else:
            self.function()

    def function(self):
        r = self.r
        f = 'fn%d' % self.nf
        self.nf += 1
        ops = []
        np = r.randrange(0, 3)
        ps = r.sample(NAMES, np)
        scope, tags, text = {}, {}, []
        ents = []
        for p in ps:
            e = Ent('auto')
            old = self.ord[0].get(p)
            if old is not None and old.kind == 'type' and old.int == 'int' and p not in scope and r.random() < .5:
                text.append('%s %s' % (p, p))
                self.cov.add('parameter named like its type')
            else:
                text.append('int %s' % p)
            scope[p] = e
            ents.append(e)
        if r.random() < .25:
            n = r.choice(NAMES)
            z = r.randrange(1, 70)
            text.append('struct %s { char c[%d]; } *p_%d' % (n, z, self.ev()))
            tags[n] = Ent('tag', kw='struct', size=z)
            self.cov.add('tag declared in a parameter list')
        extra = ', 0' * bool(tags)
        st = r.random() < .5
        if r.random() < .4 and not tags:
            self.w('%sint %s(%s);' % ('static ' * st, f, ', '.join(r.choice(['int', t]) for t in text) if all(t.startswith('int') for t in text) and text else ', '.join('int' for t in text) or 'void'))
        self.labels = set()
        self.w('%sint %s(%s)' % ('static ' * st, f, ', '.join(text) or 'void'))
        self.w('{')
        # parameters and the body share one scope
        self.ord.append(scope)
        self.tag.append(tags)
        self.ind += 1
        if r.random() < .5:
            i = self.ev()
            self.w('ev(%d, sizeof(__func__));' % i)
            ops.append(lambda m, fr: m.add(i, len(f) + 1, '__func__'))
        self.block(ops, 0)
        self.block(ops, 0)
        v = self.val()
        self.w('return %d;' % v)
        self.pop()
        self.w('}')
        self.funcs.append((f, ops, ents, extra, v))

    def build(self):
        r = self.r
        self.w(PRE)
        for _ in range(r.randrange(6, 16)):
            self.filescope()
        self.function()
        for t in r.sample(self.late, 0):
            pass
        self.out += self.late
        # main: several calls of each function
        m = Model(self.static)
        self.w('int main(void)')
        self.w('{')
        calls = [r.choice(self.funcs) for _ in range(r.randrange(3, 9))] + self.funcs
        for f, ops, ents, extra, v in calls:
            vs = [self.val() for _ in ents]
            i = self.ev()
            a = ', '.join(map(str, vs)) + (extra if vs else extra[2:])
            self.w('\tev(%d, %s(%s));' % (i, f, a))
            fr = dict(zip(ents, vs))
            m.run(ops, fr)
            m.add(i, v, 'result of ' + f)
        self.w('\treturn 0;')
        self.w('}')
        return m.t


class Model:
    def __init__(self, static):
        self.static = dict(static)
        self.t = Trace()

    def get(self, f, e):
        return self.static[e] if e.kind == 'static' else f[e]

    def set(self, f, e, v):
        if e.kind == 'static':
            self.static[e] = v
        else:
            f[e] = v

    def add(self, i, v, what):
        self.t.add(i, v, what)

    def run(self, ops, f):
        for o in ops:
            o(self, f)


def scopes(ctx, q):
    r = ctx.sub('scopes', q)
    cov = set()
    s = Scopes(r, cov)
    t = s.build()
    src, m = odd_names(r, '\n'.join(s.out) + '\n')
    cov.update('name ' + o for o in m.values())
    if check_program(ctx, 'scopes', src, t, flags=r.choice([(), (), ('-fcommon',), ('-fno-common',), ('-fpic',)])):
        ctx.seen(*cov)
        ctx.bump('scope programs')


# ---------------------------------------------------------------- several units
class GObj:
    """an object with linkage"""
    def __init__(self, name, shape, r, units, mode, home):
        self.name, self.shape, self.units, self.mode, self.home = name, shape, units, mode, home
        self.zero = False
        self.val = {}               # path -> value


SHAPES = {
    'int': ('int %s', [''], 4), 'long': ('long %s', [''], 8), 'char': ('signed char %s', [''], 1), 'short': ('short %s', [''], 2),
    'arr': ('int %s[5]', ['[%d]' % i for i in range(5)], 20), 'carr': ('signed char %s[7]', ['[%d]' % i for i in range(7)], 7),
    'st': ('struct P %s', ['.a', '.b', '.c', '.d[0]', '.d[1]'], 24), 'big': ('long %s[40]', ['[%d]' % i for i in (0, 1, 20, 39)], 320),
    'sta': ('struct P %s[3]', ['[%d]%s' % (i, m) for i in range(3) for m in ('.a', '.b', '.c', '.d[1]')], 72),
    'un': ('union Q %s', ['.i'], 16), 'al': ('_Alignas(64) int %s', [''], 4), 'll2': ('long %s[2][3]', ['[%d][%d]' % (i, j) for i in range(2) for j in range(3)], 48),
}
UPRE = PRE + '''struct P { int a; signed char b; long c; short d[2]; }; union Q { int i; long l[2]; };
void *canon(int); void setcanon(int, void *);
'''


def initializer(o):
    v = o.val
    n, paths = o.name, SHAPES[o.shape][1]
    if o.shape in ('int', 'long', 'char', 'short', 'al'):
        return str(v[''])
    if o.shape in ('arr', 'carr'):
        return '{ %s }' % ', '.join(str(v[p]) for p in paths)
    return '{ %s }' % ', '.join('%s = %d' % (p, v[p]) for p in paths if p in v)


class Units:
    def __init__(self, r, cov):
        self.r, self.cov = r, cov
        self.ids = 0
        self.n = r.randrange(2, 5)
        self.cc = ['toy'] + [r.choice(['toy', 'toy', 'gcc']) for _ in range(self.n - 1)]
        r.shuffle(self.cc)
        self.link = r.choice(['static', 'static', 'dyn', 'pie'])
        self.lib = [self.link != 'static' and k > 0 and (k == 1 or r.random() < .5) for k in range(self.n)]
        self.pic = [self.lib[k] or self.link == 'pie' or r.random() < .3 for k in range(self.n)]
        self.common = r.random() < .6
        self.top = [[] for _ in range(self.n)]
        self.body = [[] for _ in range(self.n)]
        self.tail = [[] for _ in range(self.n)]
        self.t = Trace()
        self.uses = [[] for _ in range(self.n)]
        self.sym = {}               # (unit, symbol) -> (binding, kind, size)
        self.k = 0

    def ev(self):
        self.ids += 1
        return self.ids

    def value(self, shape, path):
        r = self.r
        if shape in ('char', 'carr') or path.endswith('.b'):
            return r.randrange(-100, 100) or 1
        return r.randrange(1, 30000)

    def obj(self):
        r = self.r
        self.k += 1
        shape = r.choice(sorted(SHAPES))
        decl = SHAPES[shape][0]
        paths = SHAPES[shape][1]
        mode = r.choice(['def', 'def', 'zero', 'tent', 'static', 'static', 'local'])
        # common symbols do not cross the border of a shared library
        units = list(range(self.n))
        name = r.choice(['g', 'obj', 'x_', 'Glob']) + str(self.k)
        vals = lambda: {p: self.value(shape, p) for p in paths}
        ext = 'extern ' + (decl % name) + ';'
        if shape in ('arr', 'carr') and r.random() < .4:
            ext = 'extern %s %s[];' % (decl.split(' %s')[0], name)
        size = SHAPES[shape][2]
        if mode == 'static':
            for u in units:
                if r.random() < .8:
                    o = GObj(name, shape, r, [u], mode, u)
                    o.val = vals()
                    if r.random() < .3:
                        o.val = {p: 0 for p in paths}
                        self.top[u].append('static %s;' % (decl % name))
                    else:
                        self.top[u].append('static %s = %s;' % (decl % name, initializer(o)))
                    if r.random() < .3:
                        self.top[u].append(ext)
                        self.cov.add('extern after static')
                    self.access(o, u)
                    self.sym[u, name] = ('LOCAL', 'OBJECT', size)
            self.cov.add('static objects of one name in several units')
            return
        if mode == 'local':
            # static in functions of the same name
            for u in units:
                o = GObj(name, shape, r, [u], mode, u)
                o.val = vals()
                self.top[u].append('static int *loc_%s(void) { static int %s = %d; { static int %s = 1; %s++; } return &%s; }' % (name, name, 5 * u + self.k, name, name, name))
                i, j = self.ev(), self.ev()
                st = [5 * u + self.k]
                self.uses[u].append(('ev(%d, (*loc_%s())++);' % (i, name), lambda st=st, i=i: (self.t.add(i, st[0], 'static local'), st.__setitem__(0, st[0] + 1))))
            self.cov.add('block-scope static objects of one name')
            return
        home = r.randrange(self.n)
        o = GObj(name, shape, r, units, mode, home)
        if mode == 'def':
            o.val = vals()
            order = [ext] * (r.random() < .5) + ['%s;' % (decl % name)] * (r.random() < .2)
            post = ['%s;' % (decl % name)] * (r.random() < .2) + [ext] * (r.random() < .3)
            if r.random() < .15:
                self.top[home] += ['extern %s = %s;' % (decl % name, initializer(o))]
            else:
                d = ['%s = %s;' % (decl % name, initializer(o))]
                if order and r.random() < .4:
                    self.tail[home] += d + post
                    self.top[home] += order
                    self.cov.add('defined behind its uses')
                else:
                    self.top[home] += order + d + post
            self.sym[home, name] = ('GLOBAL', 'OBJECT', size)
        elif mode == 'zero':
            o.val = {p: 0 for p in paths}
            self.top[home] += [ext] * (r.random() < .3) + ['%s%s;' % (decl % name, r.choice(['', '', ' = { 0 }' if size != 4 and shape not in ('long', 'char', 'short', 'al') else ' = 0']))] * 1
            self.sym[home, name] = ('GLOBAL', 'OBJECT', size)
        else:
            o.val = {p: 0 for p in paths}
            self.top[home].append('%s;' % (decl % name))
            more = [u for u in units if u != home and self.common and r.random() < .6 and self.lib[u] == self.lib[home] and not self.lib[u]]
            for u in more:
                if o.val[paths[0]] == 0 and r.random() < .3:
                    o.val = vals()
                    self.top[u].append('%s = %s;' % (decl % name, initializer(o)))
                    self.cov.add('common symbol overridden by a definition')
                else:
                    self.top[u].append('%s;' % (decl % name))
                    self.cov.add('common symbols of several units')
            units = [u for u in units if u not in more and u != home]
            for u in more:
                self.access(o, u)
            self.access(o, home)
            self.sym[home, name] = ('GLOBAL', 'OBJECT', size)
            for u in units:
                if r.random() < .7:
                    self.top[u].append(ext)
                    self.access(o, u, 'sizeof' if '[]' not in ext else '')
            return
        self.access(o, home)
        for u in units:
            if u != home and r.random() < .8:
                if r.random() < .2:
                    self.access(o, u, block=ext)
                    self.cov.add('extern in a block')
                else:
                    self.top[u].append(ext)
                    self.access(o, u)
        # address constants of other units
        if r.random() < .6 and shape not in ('al',):
            u = r.randrange(self.n)
            if any(name in l for l in self.top[u]):
                p = r.choice(paths)
                pn = 'ptr%d' % self.ev()
                add = '' if p else ''
                ty = 'const void'
                stc = r.choice(['static ', ''])
                self.tail_ptr(u, stc, pn, '&%s%s' % (name, p), o, p)

    def tail_ptr(self, u, stc, pn, expr, o, p):
        i = self.ev()
        ctype = {'char': 'signed char', 'carr': 'signed char', 'long': 'long', 'big': 'long', 'll2': 'long', 'short': 'short'}.get(o.shape, 'int')
        if p.endswith('.b'):
            ctype = 'signed char'
        elif p.endswith('.c'):
            ctype = 'long'
        elif '.d[' in p:
            ctype = 'short'
        self.top[u].append('%s%s *%s = %s;' % (stc, ctype, pn, expr))
        self.uses[u].append(('ev(%d, *%s);' % (i, pn), lambda: self.t.add(i, o.val[p], '*' + pn)))
        self.cov.add('address constant of %s' % ('another unit' if u != o.home else 'the unit'))

    def access(self, o, u, how='', block=''):
        """uses of object o in unit u"""
        r = self.r
        paths = SHAPES[o.shape][1]
        for _ in range(r.randrange(1, 4)):
            p = r.choice(paths)
            i = self.ev()
            k = r.randrange(4)
            e = o.name + p
            pre = '{ %s ' % block if block else ''
            post = ' }' if block else ''
            if k < 2:
                self.uses[u].append(('%sev(%d, %s);%s' % (pre, i, e, post), lambda i=i, p=p, e=e: self.t.add(i, o.val[p], e)))
            elif k == 2:
                v = self.value(o.shape, p)
                self.uses[u].append(('%s%s = %d;%s' % (pre, e, v, post), lambda p=p, v=v: o.val.__setitem__(p, v)))
            elif o.mode != 'static':
                # one object: its address is the same everywhere
                if not hasattr(o, 'canon'):
                    o.canon = self.ev()
                self.uses[u].append(('%scanon_(%d, %d, &%s%s);%s' % (pre, o.canon, i, o.name, paths[0], post), lambda i=i: self.t.add(i, 1, 'address of ' + o.name)))
        if not block and r.random() < .2 and '[]' not in str(self.top[u][-1:]) and 'extern %s %s[];' % (SHAPES[o.shape][0].split(' %s')[0], o.name) not in self.top[u]:
            i = self.ev()
            self.uses[u].append(('ev(%d, sizeof %s);' % (i, o.name), lambda i=i: self.t.add(i, SHAPES[o.shape][2], 'sizeof ' + o.name)))

    def fun(self):
        r = self.r
        self.k += 1
        name = r.choice(['f', 'fn_', 'call']) + str(self.k)
        mode = r.choice(['ext', 'ext', 'static', 'sinline', 'inline', 'einline'])
        v = r.randrange(1, 999)
        def call(u, v, st=None):
            i = self.ev()
            k = r.randrange(4)
            t = ['ev(%d, %s(3));', 'ev(%d, (*%s)(3));', 'ev(%d, (&%s)(3));', '{ int (*p_)(int) = %s; ev(%d, p_(3)); }'][k]
            t = t % ((i, name) if k < 3 else (name, i))
            def m():
                self.t.add(i, v + 3 + (st[0] if st else 0), 'call of ' + name)
                if st:
                    st[0] += 1
            self.uses[u].append((t, m))
        if mode == 'ext':
            home = r.randrange(self.n)
            if r.random() < .4:
                self.top[home].append('int %s(int);' % name)
                self.tail[home].append('int %s(int a) { return a + %d; }' % (name, v))
            else:
                self.top[home].append('int %s(int a) { return a + %d; }' % (name, v))
            self.sym[home, name] = ('GLOBAL', 'FUNC', None)
            for u in range(self.n):
                if u != home and r.random() < .7:
                    self.top[u].append(r.choice(['int %s(int);', 'extern int %s(int a);', 'int %s();' if False else 'int %s(int x);']) % name)
                    call(u, v)
                    if r.random() < .4:
                        pn = 'fp%d' % self.ev()
                        self.top[u].append('%sint (*%s[2])(int) = { 0, %s%s };' % (r.choice(['', 'static ']), pn, r.choice(['', '&']), name))
                        i = self.ev()
                        self.uses[u].append(('ev(%d, %s[1](4));' % (i, pn), lambda i=i: self.t.add(i, v + 4, 'call through a table')))
                        self.cov.add('function pointer constant')
                        if r.random() < .5:
                            j = self.ev()
                            self.uses[u].append(('canon_(%d, %d, %s[1]);' % (100000 + self.k, j, pn), lambda j=j: self.t.add(j, 1, 'address of ' + name)))
            call(home, v)
        elif mode in ('static', 'sinline'):
            for u in range(self.n):
                if r.random() < .8:
                    w = v + u * 1000
                    st = [0]
                    pre = 'static ' + 'inline ' * (mode == 'sinline')
                    if r.random() < .4:
                        self.top[u].append('%sint %s(int);' % (pre, name))
                        self.tail[u].append('%sint %s(int a) { static int n; return a + %d + n++; }' % (r.choice([pre, 'static ']) if mode == 'sinline' else r.choice([pre, '']), name, w))
                    else:
                        self.top[u].append('%sint %s(int a) { static int n; return a + %d + n++; }' % (pre, name, w))
                    call(u, w, st)
                    call(u, w, st)
                    self.sym[u, name] = ('LOCAL', 'FUNC', None)
            self.cov.add('%s functions of one name in several units' % mode)
        elif mode == 'inline':
            # inline definitions everywhere, an external one in one unit
            home = r.randrange(self.n)
            for u in range(self.n):
                d = 'inline int %s(int a) { return a + %d; }' % (name, v)
                if u == home:
                    self.top[u] += r.choice([[d, 'extern int %s(int);' % name], ['int %s(int);' % name, d], ['extern int %s(int);' % name, d], ['extern ' + d], [d, 'int %s(int a);' % name], ['extern inline int %s(int);' % name, d]])
                elif r.random() < .7:
                    self.top[u].append(d)
                else:
                    self.top[u].append('int %s(int);' % name)
                call(u, v)
            self.sym[home, name] = ('GLOBAL', 'FUNC', None)
            self.cov.add('inline definitions with an external one')
        else:
            home = r.randrange(self.n)
            self.top[home].append('extern inline int %s(int a) { return a + %d; }' % (name, v))
            self.sym[home, name] = ('GLOBAL', 'FUNC', None)
            for u in range(self.n):
                if u != home:
                    self.top[u].append('int %s(int);' % name)
                call(u, v)

    def noise(self):
        """declarations that need no definition anywhere"""
        r = self.r
        u = r.randrange(self.n)
        i = self.ev()
        self.top[u].append(['extern int nowhere%d;' % i, 'int nofn%d(int);' % i, 'extern struct Un%d unk%d;' % (i, i), 'static inline int unused%d(void) { extern int gone%d; int gonef%d(void); return gone%d + gonef%d(); }' % (i, i, i, i, i),
                            'extern int nowhere%d; enum { sz%d = sizeof nowhere%d };' % (i, i, i), 'static int decl_only%d(void);' % i,
                            'inline int unusedi%d(void) { extern int gonei%d; return gonei%d; }' % (i, i, i)][r.randrange(7)])
        self.cov.add('declarations without a definition')

    def build(self):
        r = self.r
        for _ in range(r.randrange(4, 14)):
            self.obj()
        for _ in range(r.randrange(2, 8)):
            self.fun()
        for _ in range(r.randrange(0, 4)):
            self.noise()
        src = []
        main = []
        texts = []
        for u in range(self.n):
            texts.append(UPRE + 'void canon_(int, int, const void *);\n')
        runs = [u for u in range(self.n)] + [r.randrange(self.n) for _ in range(3)]
        r.shuffle(runs)
        for u in range(self.n):
            r.shuffle(self.uses[u])
        for u in runs:
            for t, m in self.uses[u]:
                m()
        for u in range(self.n):
            b = '\n'.join(self.top[u]) + '\nvoid unit%d(void)\n{\n' % u + '\n'.join('\t' + t for t, m in self.uses[u]) + '\n}\n' + '\n'.join(self.tail[u]) + '\n'
            if u == 0:
                b += ''.join('void unit%d(void); ' % k for k in range(self.n)) + '\nint main(void)\n{\n' + ''.join('\tunit%d();\n' % k for k in runs) + '\treturn 0;\n}\n'
            src.append(texts[u] + b)
        return src


CANON = '''void ev(long, long);
static const void *first[110000];
void canon_(int k, int id, const void *p) { if (!first[k]) first[k] = p; ev(id, first[k] == p); }
'''


def build_units(ctx, d, U, src, cc, tag):
    """compile and link; returns (exe, failure)"""
    objs = []
    for u, s in enumerate(src):
        c = os.path.join(d, 'u%d.c' % u)
        open(c, 'w').write(s)
        o = os.path.join(d, '%s%d.o' % (tag, u))
        fl = ['-fpic'] if U.pic[u] else []
        fl.append('-fcommon' if U.common else '-fno-common')
        if cc[u] == 'toy':
            x = ctx.cc_toy(c, o, fl)
        else:
            x = ctx.cc_ref(c, o, fl if U.pic[u] else fl + ['-fno-pic'])
        if x.timed_out or x.rc != 0:
            return None, 'unit %d (%s) is rejected: %s' % (u, cc[u], summarize(x.err)), objs
        objs.append(o)
    exe = os.path.join(d, tag + '.exe')
    can = os.path.join(d, 'canon.c')
    open(can, 'w').write(CANON)
    co = os.path.join(d, 'canon.o')
    ctx.cc_ref(can, co, ['-fpic'])
    if U.link == 'static':
        l = ctx.link(objs + [co], exe)
    else:
        lib = os.path.join(d, 'lib%s.so' % tag)
        l = run([RVGCC, '-shared', '-nostdlib', '-o', lib] + [o for u, o in enumerate(objs) if U.lib[u]], 60)
        if l.rc == 0:
            l = run([RVGCC, '-pie' if U.link == 'pie' else '-no-pie', '-nostdlib', '-Wl,--export-dynamic', '-o', exe] + [o for u, o in enumerate(objs) if not U.lib[u]] + [co, ctx.evo(), lib, '-Wl,-rpath,' + d, '-lgcc'], 60)
    if l.rc != 0:
        m = re.search(r'undefined reference to|multiple definition of|[^:]*relocation[^:]*|[^:]*TLS[^:]*', txt(l.err))
        return None, 'does not link: %s\n%s' % (m[0].strip() if m else '', txt(l.err)), objs
    return exe, re.sub(r'/tmp/\S*', '', txt(l.err)), objs


def symbols(o):
    res = {}
    for l in txt(run(['riscv64-linux-gnu-readelf', '-sW', o], 30).out).split('\n'):
        f = l.split()
        if len(f) == 8 and f[0].endswith(':') and f[0][:-1].isdigit():
            res.setdefault(f[7], []).append((f[4], f[3], int(f[2], 0), f[6]))
    return res


def units(ctx, q):
    r = ctx.sub('units', q)
    cov = set()
    U = Units(r, cov)
    src = U.build()
    d = ctx.uniq('u')
    words = U.t.words()
    names = {'u%d.c' % u: s for u, s in enumerate(src)}

    def attempt(cc, tag):
        exe, why, objs = build_units(ctx, d, U, src, cc, tag)
        if exe is None:
            return (('the program ' + why if 'link' in why else why).split('\n')[0], why), objs
        x = ctx.execute(exe)
        dd = diff(words, parse_events(x.out))
        if dd:
            return (dd[0], str(dd)), objs
        if x.rc:
            return ('the program ends with status %s' % x.rc, txt(x.err)[:300]), objs
        return None, objs

    why, objs = attempt(U.cc, 't')
    if why is None:
        ctx.count(len(words))
        for (u, name), (bind, kind, size) in U.sym.items():
            if U.cc[u] != 'toy':
                continue
            s = [x for x in symbols(objs[u]).get(name, []) if x[3] != 'UND']
            ctx.count()
            if bind == 'GLOBAL' and len(s) != 1 or any(x[0] != bind for x in s):
                why = ('symbol %s binding of %s is not %s' % (kind, re.sub(r'\d+$', '', name), bind), str((name, s)))
            elif bind == 'GLOBAL' and size is not None and any(x[1] != kind or x[2] != size for x in s):
                why = ('a global object has no type or the wrong size in the symbol table', str((name, s, size)))
    if why is None:
        ctx.seen('%s, %s%s' % (U.link, 'common' if U.common else 'no common', ', with other compilers' if 'gcc' in U.cc else ''), *cov)
        ctx.bump('multi-unit programs')
        ctx.bump('units', U.n)
        shutil.rmtree(d, ignore_errors=True)
        return
    ref, _ = attempt(['gcc'] * U.n, 'g')
    if ref is not None:
        ctx.inconcl('model and reference disagree on units: %s | toycc %s' % (ref, why))
    else:
        ctx.violate(why[0], 'compilers %s link %s lib %s pic %s common %s\n%s' % (U.cc, U.link, U.lib, U.pic, U.common, why[1]), names)
    shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- references
def references(ctx, q):
    """functions that are only reached through initializers, other functions or later declarations; attributes of static objects"""
    r = ctx.sub('references', q)
    cov, names = set(), {}
    out = [PRE, 'typedef int (*F)(int); struct H { char c; F f; struct { F g[2]; } in; };']
    body = []
    n = [0]

    def ev(e, what):
        n[0] += 1
        names[n[0]] = what
        body.append('ev(%d, %s);' % (n[0], e))

    def ref(f):
        return r.choice(['%s', '&%s', '*%s', '**%s', '(F)%s', '(F)&%s', '1 ? %s : 0', '0 ? 0 : &%s', '(void *)%s', '(F)(long)%s', '(%s)', '&*%s' if False else '*&%s']) % f
    fns = []
    for k in range(r.randrange(3, 8)):
        f = 'fn%d' % k
        kind = r.choice(['static inline', 'static inline', 'inline static', 'static', ''])
        callee = r.choice(fns) if fns and r.random() < .5 else None
        how = r.choice(['%s(x + 1)', '(&%s)(x)', '(*%s)(x - 1)', '(x ? %s : 0)(x | 1)', '({ F p = %s; p(x); })', '((F[]){%s})[0](x)', '({ static F sp = %s; sp(x); })', '({ F p[2] = {0, %s}; p[1](x); })']) % callee if callee else 'x * 3'
        proto = r.random() < .5
        early = proto and r.random() < .6
        if proto:
            out.append('%s int %s(int);' % (kind, f))
        defn = '%s int %s(int x) { return x > 40 ? x : %d + %s; }' % (kind, f, r.randrange(100), how)
        if not early:
            out.append(defn)
        form = r.randrange(12)
        cov.add('reference form %d, %s%s' % (form, kind, ', before the definition' if early else ''))
        g = 'g%d' % k
        call = None
        if form == 0:
            out.append('%sF %s = %s;' % (r.choice(['', 'static ']), g, ref(f)))
            call = g + '(2)'
        elif form == 1:
            out.append('%sF %s[%s] = {%s};' % (r.choice(['', 'static ']), g, r.choice(['', '3']), r.choice(['0, %s', '[1] = %s', '0, %s,']) % ref(f)))
            call = g + '[1](2)'
        elif form == 2:
            out.append('%sstruct H %s = {%s};' % (r.choice(['', 'static ', 'const ']), g, r.choice(['1, .in.g[1] = %s', '.in = {{0, %s}}', '1, 0, {0, %s}', '1, 0, 0, %s']) % ref(f)))
            call = g + '.in.g[1](2)'
        elif form == 3:
            out.append('static int use%d(void) { static F p = %s; return p(3); }' % (k, ref(f)))
            call = 'use%d()' % k
        elif form == 4:
            out.append('static inline F get%d(void) { return %s; }' % (k, ref(f)))
            call = 'get%d()(4)' % k
        elif form == 5:
            out.append('struct H *%s = &(struct H){1, %s};' % (g, ref(f)))
            call = g + '->f(1)'
        elif form == 6:
            out.append('F *%s = (F[]){0, %s} + 1;' % (g, ref(f)))
            call = '(*%s)(5)' % g
        elif form == 7:
            out.append('static const struct { long pad; F f; } %s[2] = {{1}, {2, %s}};' % (g, ref(f)))
            call = g + '[1].f(5)'
        elif form == 8:
            out.append('int use%d(int c) { switch (c) { case 1: { static F t[] = {%s}; return t[0](c); } default: return -1; } }' % (k, ref(f)))
            call = 'use%d(1)' % k
        elif form == 9:
            out.append('union { long l; F f; } %s = {.f = %s};' % (g, ref(f)))
            call = g + '.f(6)'
        elif form == 10:
            call = '(%s ? %s : 0)(7)' % (r.choice(['1', 'zero + 1']), f)
            if 'zero' in call:
                out.append('static int zero;') if 'static int zero;' not in out else None
        else:
            call = '%s(8)' % f
        if early:
            out.append(defn)
        ev(call, 'a function reached by form %d (%s)' % (form, kind))
        fns.append(f)
    # attributes of static objects
    for k in range(r.randrange(1, 5)):
        t, z = r.choice([('char', 1), ('int', 4), ('short', 2), ('long', 8), ('struct { char c[3]; }', 3)])
        al = r.choice([0, 0, 2, 8, 16, 64, 256])
        al = al if al >= z else 0
        init = r.random() < .5 and 'struct' not in t
        what = '%sstatic object%s' % ('aligned ' if al else '', ' with initializer' if init else '')
        mods = ['static']
        dcl = ' '.join(mods + (['_Alignas(%d)' % al] if al else []))
        if r.random() < .3 and al:
            dcl = ' '.join(['_Alignas(%d)' % al] + mods)
        arr = r.choice(['', '[3]'])
        i = r.randrange(1, 90)
        d = '%s %s so%d%s%s;' % (dcl, t, k, arr, ' = %s' % ('{%d, %d}' % (i, i + 1) if arr else i) if init else '')
        pad = 'static char pad%d[%d] = {1};' % (k, r.choice([1, 3, 5, 7]))
        if r.random() < .7:
            out.append('static void *so_%d(void) { %s %s pad%d[0]++; return &so%d; }' % (k, pad, d, k, k))
            cov.add('local ' + what)
        else:
            out.append('%s %s static void *so_%d(void) { pad%d[0]++; return &so%d; }' % (pad, d, k, k, k))
            cov.add('file-scope ' + what)
        if al:
            ev('(long)so_%d() %% %d' % (k, al), 'alignment of a local ' + what)
        if init:
            ev('*(%s *)so_%d()' % (t, k), 'value of a ' + what)
        ev('so_%d() == so_%d()' % (k, k), 'address of a ' + what)
        ev('(*(char *)so_%d())++' % k, 'value of a ' + what)
        ev('(*(char *)so_%d())++' % k, 'value of a ' + what)
    # declarations without parameters, completed later
    for k in range(r.randrange(1, 4)):
        f = 'dp%d' % k
        ps = [r.choice(['int', 'long', 'double', 'unsigned', 'int *']) for _ in range(r.randrange(1, 4))]
        conv = {'int': ['3.7', '5L', 'w', "(char)200", '2.5f'], 'long': ['3', '-1', '2.75', '0xffffffffu', "'a'"], 'double': ['1', '3L', '2.5f', "'b'", 'w'], 'unsigned': ['-1', '3.5', '7L'], 'int *': ['0', '&w', '(void *)0']}
        before = ['int %s();' % f] * r.choice([1, 1, 2])
        kind = r.choice(['', '', 'static '])
        out += [kind + x for x in before]
        if 'static int w = 4;' not in out:
            out.append('static int w = 4;')
        if r.random() < .3:
            out.append('%sint %s(%s);' % (kind, f, ', '.join(ps)))
        out.append('%sint %s(%s) { return %s; }' % (kind, f, ', '.join('%s p%d' % (p, i) for i, p in enumerate(ps)),
                                                  ' + '.join('%d * (int)%s' % (i + 3, '(p%d ? 1 : 2)' % i if '*' in p else 'p%d' % i if p != 'double' else '(p%d * 4)' % i) for i, p in enumerate(ps))))
        if r.random() < .5:
            out.append('%sint %s();' % (kind, f))
        ev('%s(%s)' % (f, ', '.join(r.choice(conv[p]) for p in ps)), 'arguments of a function declared without parameters first')
        cov.add('%d declarations without parameters' % len(before))
    src = '\n'.join(out) + '\nint main(void) { %s return 0; }\n' % '\n'.join(body)
    if check_diff(ctx, 'refs%d' % q, src, ref_opts=('-O0',), ref_flags=('-fsigned-char',), label=lambda i, g, w: names.get((w or g)[0], '?'),
                  flags=r.choice([(), (), ('-fpic',)])):
        ctx.seen(*cov)
        ctx.bump('reference programs')


def body(ctx):
    ctx.rule = ('An evaluation is one recorded value, address comparison or symbol-table entry compared with the model of scopes and linkage (gcc confirms every disagreement); '
                'distinct: declaration forms, uses per scope distance, and link configurations.')
    ctx.assumptions = ['the reference linker and loader', 'inline functions: only calls are compared, not addresses']
    ctx.toycc()
    ctx.evo()
    jobs = [(references, j) for j in range(ctx.scale(250, 4000))] + [(scopes, j) for j in range(ctx.scale(900, 20000))] + [(units, j) for j in range(ctx.scale(500, 10000))]
    ctx.pmap(lambda j: j[0](ctx, j[1]), jobs)


if __name__ == '__main__':
    main('C20', body)
