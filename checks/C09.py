import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
import predef
from modelprog import summarize
from pptok import tokens

IDENTS = ['za', 'zb', 'zc', 'x', 'y', 'if', 'return', 'int', '_q9']
OPS = ['+', '-', '*', '/', '%', '&', '|', '^', '<', '>', '<<', '>>', '<=', '>=', '==', '!=', '&&', '||', '!', '~', '?', ':', '=', '+=', '->', '.',
       '++', '--', ';', '[', ']', '{', '}', '...', '-=', '<<=', '>>=', '&=', '*=']
STRS = ['"s"', '"a b"', '"\\n"', '"\\"q\\""', '"\\\\"', "'c'", "'\\''", "'\"'", 'L"w"', "L'w'", '"/*no*/"', '"//no"', 'u8"x"', 'U\'y\'', '""', '"\\x41"', '"a\\0b"']
NUMS = ['0', '1', '42', '0x1F', '1.5', '1e10', '1e+3', '0x1p-2', '.5', '3ul', '1.', '0xe', '1_U', '0x_U', '1._U', '1e+_U', '.5e-_U', '2e_U']
PASTE_OPS = [('+', '+'), ('-', '-'), ('<', '<'), ('>', '>'), ('-', '>'), ('=', '='), ('<', '='), ('&', '&'), ('|', '|'), ('<<', '='), ('*', '='), ('!', '=')]


def flat(s):
    return re.sub(r'// rest\n|\\?\n', ' ', s)


class M:
    def __init__(self, name, level, params=None, variadic=None):
        self.name, self.level, self.params, self.variadic = name, level, params, variadic
        self.gnucomma = False    # , ## __VA_ARGS__: an argument that is present but empty is read differently by compilers
        self.paste = set()       # parameter indices used with ##


class Gen:
    def __init__(self, r, cov):
        self.r, self.cov = r, cov
        self.k = 0
        self.macros = {}        # name -> M (currently defined)
        self.depth = 0
        # name -> (number of parameters, name of the variable arguments, parameters may be pasted, may use , ##)
        self.conf = {}
        for i in range(14):
            np = r.choice([0, 1, 1, 2, 2, 3])
            va = r.choice(['__VA_ARGS__', '__VA_ARGS__', 'rest']) if r.random() < .35 else None
            self.conf['FN%d' % i] = (np, va, r.random() < .4, r.random() < .4)

    def ws(self, nl=False):
        r = self.r
        k = r.random()
        if k < .72:
            return ' '
        if k < .82:
            return '  '
        if k < .88:
            return '\t'
        if k < .92:
            return ' /* c */ '
        if k < .95:
            return ' \\\n '
        if nl:
            return r.choice(['\n', '\n   ', ' // rest\n'])
        return ' '

    def plain(self):
        r = self.r
        k = r.random()
        if k < .35:
            return r.choice(IDENTS)
        if k < .55:
            return r.choice(NUMS)
        if k < .68:
            return r.choice(STRS)
        return r.choice(OPS)

    def usable(self, level):
        return [m for m in self.macros.values() if m.level < level]

    def seq(self, level, n, params=(), in_args=False, paste=()):
        """n token groups using macros below `level` and the parameters"""
        r = self.r
        self.depth += 1
        out = []
        for _ in range(n):
            k = r.random() if self.depth < 4 else .9 if not params or r.random() < .6 else .1
            if params and k < .35:
                i = r.randrange(len(params))
                if i in paste:
                    out.append(r.choice(IDENTS))
                else:
                    out.append(params[i])
            elif k < .62:
                us = self.usable(level)
                if us:
                    out.append(self.use(r.choice(us), level, in_args, params, paste))
                else:
                    out.append(self.plain())
            elif k < .68:
                out.append('(' + self.seq(level, r.randrange(0, 3), params, in_args, paste) + ')')
            else:
                out.append(self.plain())
        self.depth -= 1
        return self.join(out, in_args)

    def join(self, out, nl):
        r = self.r
        s = ''
        for i, t in enumerate(out):
            if i and (r.random() < .8 or self.glue(s, t)):
                s += self.ws(nl)
            s += t
        return s

    def glue(self, a, b):
        """would a and b merge or change when written without a space"""
        if not a or not b:
            return False
        j = tokens(a[-6:] + b[:6])
        return True if (a[-1].isalnum() or a[-1] in '_."\'' or not b[0].isalnum()) else tokens(a[-6:]) + tokens(b[:6]) != j

    def use(self, m, level, in_args=False, params=(), paste=()):
        r = self.r
        if m.params is None:
            return m.name
        if r.random() < .06:
            self.cov.add('function-like name without arguments')
            return m.name + ' ' + r.choice(['+', ';', 'za', '1'])
        args = []
        n = len(m.params)
        if m.gnucomma and m.variadic:
            # no empty variable arguments, not even after substitution
            cnt = n + r.choice([0, 0, 1, 1, 2, 3])
            self.cov.add('variadic call %d extra' % (cnt - n))
            return m.name + '(' + ', '.join(self.join([self.plain() for _ in range(r.randrange(1, 4))], in_args) + self.deferred() if i not in m.paste else
                                           self.arg(m, i, level) for i in range(cnt)) + ')'
        for i in range(n):
            args.append(self.arg(m, i, level, params, paste))
        if m.variadic:
            for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
                args.append(self.arg(m, -1, level, params, paste))
            self.cov.add('variadic call %d extra' % (len(args) - n))
            if len(args) == n and n and r.random() < .5:
                args.append('')
        self.cov.add('call arity %d' % len(args))
        sp = r.choice(['', '', '', ' ', '\n' if in_args else ' '])
        return m.name + sp + '(' + ','.join(args) + ')'

    def deferred(self):
        """an invocation that a macro expands to nothing keeps apart until the next scan"""
        r = self.r
        if r.random() < .5:
            return ''
        # no macro is used in its replacement: which names stay unavailable until then is read differently
        self.cov.add('deferred invocation')
        return ' DFN EMPTYM (%s)' % r.choice(IDENTS)

    def arg(self, m, i, level, params=(), paste=()):
        r = self.r
        if i in m.paste:
            return r.choice(['', ' ', 'za', 'zb', ' x', 'y ', 'q1', ' 7', '12'])
        k = r.random()
        if k < .1:
            return r.choice(['', ' ', ' /* */ '])
        pre, post = r.choice(['', '', ' ']), r.choice(['', '', ' ', '  '])
        if k < .2:
            return pre + '(' + self.seq(level, r.randrange(0, 3), params, True, paste) + ',' + self.seq(level, 1, params, True, paste) + ')' + post
        return pre + self.seq(level, r.randrange(1, 4), params, True, paste) + (self.deferred() if r.random() < .1 else '') + post

    def define(self):
        r = self.r
        self.k += 1
        k = r.random()
        lvl = r.randrange(0, 4)
        self.depth = 1
        if k < .35:
            name = 'OBJ%d' % r.randrange(12)
            m = M(name, lvl)
            body = flat(self.seq(lvl, r.choice([0, 1, 1, 2, 3, 5])))
            if r.random() < .12:
                body += ' ' + name          # self reference
                self.cov.add('self-referential object macro')
            if r.random() < .1:
                body += ' za ## ' + r.choice(['zb', '1', '_x'])
                self.cov.add('## in object-like macro')
            if r.random() < .12:
                # # is an ordinary token in an object-like macro
                body += r.choice([' # ', ' #', '#']) + r.choice(['x', 'p0', name, '1', '__VA_ARGS__x', ''])
                self.cov.add('# in object-like macro')
            self.set(m)
            return '#define %s%s' % (name, ' ' + body if body else '')
        name = r.choice(sorted(self.conf))
        np, variadic, pasted, gnucomma = self.conf[name]
        params = ['p%d' % i for i in range(np)]
        m = M(name, lvl, params, variadic)
        m.gnucomma = gnucomma
        if pasted:
            m.paste = set(range(np))
        allp = params + ([variadic] if variadic else [])
        parts = []
        for _ in range(r.choice([1, 2, 3, 4])):
            q = r.random()
            if q < .18 and allp:
                parts.append(r.choice(['#', '# ']) + r.choice(allp))
                self.cov.add('stringize')
            elif q < .36 and params and pasted:
                i = r.randrange(np)
                j = r.randrange(np)
                form = r.randrange(5)
                sp = r.choice([' ## ', '##', ' ##', '## '])
                if form == 0:
                    parts.append('id_' + sp + params[i])
                elif form == 1:
                    parts.append('k_' + sp + params[i] + sp + params[j])
                elif form == 2:
                    parts.append(params[i] + sp + 'L')
                elif form == 3:
                    a, b = r.choice(PASTE_OPS)
                    parts.append(a + sp + b)
                else:
                    parts.append('v1' + sp + params[i] + ' 1' + sp + '2')
                self.cov.add('paste form %d' % form)
            elif q < .44 and variadic == '__VA_ARGS__':
                parts.append('__VA_OPT__(' + r.choice(['', ', ', 'za ']) + flat(self.seq(0, r.randrange(0, 3), allp)) + ')')
                self.cov.add('__VA_OPT__')
            elif q < .52 and variadic and gnucomma:
                parts.append('zf(za' + r.choice([', ## ', ',##', ', ##']) + variadic + ')')
                self.cov.add('GNU comma paste')
            elif q < .57:
                parts.append(name + '(' + (r.choice(params) if params else '') + ')')
                self.cov.add('recursive function-like macro')
            else:
                ps = [p for i, p in enumerate(params)] + ([variadic] if variadic else [])
                parts.append(flat(self.seq(lvl, r.choice([1, 2]), ps)))
        # parameters that take part in ## must only get simple arguments: drop other uses of them in nested calls
        plist = params + ([('...' if variadic == '__VA_ARGS__' else variadic + '...')] if variadic else [])
        if variadic == '__VA_ARGS__' and np == 0:
            self.cov.add('only variadic')
        self.set(m)
        sep = r.choice([', ', ',', ' , '])
        return '#define %s(%s) %s' % (name, sep.join(plist), ' '.join(parts))

    def set(self, m):
        self.macros[m.name] = m

    def line(self):
        r = self.r
        k = r.random()
        self.depth = 0
        if k < .32:
            return self.define()
        if k < .37 and self.macros:
            n = r.choice(sorted(self.macros))
            del self.macros[n]
            self.cov.add('undef')
            return r.choice(['#undef ', '# undef ', '#undef\t']) + n
        if k < .42:
            return self.cond(2)
        if k < .44:
            return r.choice(['#', '# /* null */', '   #   ', '/* c */ # // null'])
        if k < .47:
            self.cov.add('__COUNTER__')
            return '__COUNTER__ + __COUNTER__'
        if k < .48:
            self.cov.add('#x of source text')
            return 'STR(zdir %s, %s) ;' % (self.join([self.plain() for _ in range(r.randrange(1, 5))], True), self.join([self.plain() for _ in range(r.randrange(1, 3))], True))
        if k < .5:
            self.cov.add('__LINE__')
            return 'line __LINE__ ;'
        return self.seq(99, r.choice([1, 2, 3, 5]), in_args=False) + ' ;'

    def cond(self, d):
        """conditional group; both compilers see the same macro state on every path, so definitions inside are not tracked"""
        r = self.r
        saved = dict(self.macros)
        out = []
        names = ['OBJ%d' % i for i in range(12)] + ['FN%d' % i for i in range(14)] + ['UNDEFD'] + 3 * ['CD0', 'CD1', 'CD2', 'CD3']
        k = r.random()
        if k < .3:
            out.append('#ifdef ' + r.choice(names))
        elif k < .5:
            out.append('#ifndef ' + r.choice(names))
        else:
            out.append('#if ' + self.expr(2))
        self.cov.add('conditional')

        def block():
            for _ in range(r.randrange(0, 3)):
                q = r.random()
                if d and q < .3:
                    out.append(self.cond(d - 1))
                elif q < .4:
                    n = r.randrange(4)
                    out.append(r.choice(['#undef CD%d', '#define CD%d 0', '#define CD%d 1', '#define CD%d', '#define CD%d(x) x']) % n)
                    self.cov.add('definition in conditional group')
                elif q < .5:
                    out.append('cd CD%d ;' % r.randrange(4))
                else:
                    out.append('blk%d ;' % r.randrange(99))
        block()
        for _ in range(r.choice([0, 0, 1, 2])):
            out.append('#elif ' + self.expr(2))
            block()
        if r.random() < .6:
            out.append(r.choice(['#else', '# else', '#else // c']))
            block()
        out.append(r.choice(['#endif', '# endif /* c */']))
        self.macros = saved
        return '\n'.join(out)

    def expr(self, d):
        r = self.r
        k = r.random()
        if d == 0 or k < .2:
            return r.choice(['0', '1', '2', '-1', "'a'", '0x10', '1u', 'UNDEFD', 'za', '10L'])
        if k < .45:
            n = r.choice(['OBJ%d', 'FN%d', 'CD%d']) % r.randrange(12)
            n = 'CD' + str(int(n[2:]) % 4) if n[0] == 'C' else n
            return r.choice(['defined(%s)', 'defined %s', '!defined(%s)', 'defined ( %s )']) % n
        if k < .55:
            return '(%s) ? (%s) : (%s)' % (self.expr(d - 1), self.expr(d - 1), self.expr(d - 1))
        return '(%s) %s (%s)' % (self.expr(d - 1), r.choice(['&&', '||', '==', '<', '+', '-', '>=', '!=', '&', '|', '*']), self.expr(d - 1))


def macro_case(ctx, r):
    cov = set()
    g = Gen(r, cov)
    lines = []
    lines.append('#define STR(...) #__VA_ARGS__')
    lines.append('#define _U (za _U)')
    lines.append('#define EMPTYM')
    lines.append('#define DFN(x) [x dfn x]')
    for _ in range(6):
        lines.append(g.define())
    for _ in range(r.randrange(15, 35)):
        lines.append(g.line())
    # multi-line invocations with newlines in the arguments, each on its own
    for _ in range(4):
        fs = [m for m in g.macros.values() if m.params is not None]
        if fs:
            lines.append('ML ' + g.use(r.choice(fs), 99, True) + ' END ;')
    text = '\n'.join(lines) + '\n'
    args = []
    if r.random() < .3:
        args += r.choice([['-D', 'CMD1'], ['-DCMD1=4 + za'], ['-D', 'CMD1=a=b'], ['-DCMD1=x == y'], ['-DCMD1=-1=2 CMD1='], ['-DCMD1='], ['-D', 'CMD1= = '],
                          ['-DCMD1="s = t"'], ['-DCMD1=old', '-UCMD1', '-DCMD1=new=1'], ['-DCMD1=CMD1x', '-DCMD1x=[CMD1]']])
        text += 'CMD1 ;\n'
        cov.add('-D')
    if r.random() < .2:
        args += ['-DCMD2=7', '-UCMD2']
        text += 'CMD2 ;\n'
        cov.add('-U')
    return {'main.c': text}, args, cov


def include_case(ctx, r):
    """file inclusion: search order, guards, include_next, #line, computed includes, -include"""
    cov = set()
    files = {}
    dirs = ['', 'i1', 'i2', 'i3', 'sub']
    names = ['a.h', 'b.h', 'c.h', 'd.h', 'sub/e.h', 'f.h']
    n = 0
    placed = {}
    for d in dirs:
        for nm in names:
            if d == 'sub' and nm.startswith('sub/'):
                continue
            if r.random() < .45:
                placed.setdefault(nm, []).append(d)
    body_of = {}
    order = {nm: i for i, nm in enumerate(names)}
    allp = [(os.path.join(d, nm), nm) for nm in placed for d in placed[nm]]
    for p, nm in allp:
        n += 1
        t = []
        kind = r.randrange(5)
        g = 'G_%d' % r.randrange(6) if r.random() < .2 else 'G_' + re.sub(r'\W', '_', p)
        t.append('in_%s __FILE__ __LINE__ ;' % re.sub(r'\W', '_', p))
        # only include files that come later in the order: no unguarded recursion
        for q in names[order[nm] + 1:]:
            if r.random() < .3:
                if r.random() < .35:
                    t.append('#include <%s>' % q if any(x in ('i1', 'i2', 'i3') for x in placed.get(q, [])) else '')
                elif visible(q, os.path.dirname(p), placed):
                    t.append(r.choice(['#include "%s"', '# include "%s" // c', '#include /* c */ "%s"', '#  include\t"%s"']) % q)
        nd = os.path.dirname(p) if not nm.startswith('sub/') else os.path.dirname(os.path.dirname(p))
        if nd in ('i1', 'i2') and any(x in ('i2', 'i3') and x > nd for x in placed[nm]):
            t.append('#include_next <%s>' % nm)
            cov.add('include_next')
        t.append('end_%s __LINE__ ;' % re.sub(r'\W', '_', p))
        if r.random() < .2:
            t.insert(r.randrange(len(t) + 1), '#define %s_V %d' % (nm[0], n) if False else 'v%d ;' % n)
        txt_ = '\n'.join(t)
        if kind == 0:
            txt_ = '#pragma once\n' + txt_
            cov.add('#pragma once')
        elif kind in (1, 2):
            pre = r.choice(['', '/* comment first */\n', '\n\n', '// c\n'])
            txt_ = pre + '#ifndef %s\n#define %s\n%s\n#endif%s' % (g, g, txt_, r.choice(['', ' /* %s */' % g, '\n\n// tail']))
            cov.add('include guard')
        elif kind == 3:
            # looks like a guard but is not one
            form = r.randrange(12)
            if form == 0:
                txt_ = '#ifndef %s\n#define %s\n%s\n#else\nsecond time %d ;\n#endif' % (g, g, txt_, n)
            elif form == 1:
                txt_ = '#ifndef %s\n#define %s\n%s\n#endif\nafter guard %d ;' % (g, g, txt_, n)
            elif form == 2:
                txt_ = 'before %d ;\n#ifndef %s\n#define %s\n%s\n#endif' % (n, g, g, txt_)
            elif form == 3:
                txt_ = '#ifndef %s\n#define %s_OTHER\n%s\n#endif' % (g, g, txt_)
            elif form == 4:
                # only present once the name is defined
                txt_ = '%s %s\n#define %s\n%s\n#endif' % (r.choice(['#ifdef', '#if 1 ||', '#if defined']), g, g, txt_)
            elif form == 5:
                txt_ = '#if !%s\n#define %s %d\n%s\n#endif' % (g, g, r.randrange(2), txt_)
            elif form == 6:
                txt_ = '#ifndef %s\n#define %s\n%s\n#elif %d\nsecond time %d ;\n#endif' % (g, g, txt_, r.randrange(2), n)
            elif form == 7:
                # two guarded groups
                txt_ = '#ifndef %s\n#define %s\n%s\n#endif\n#ifndef %s_2\ntwo %d ;\n%s#endif' % (g, g, txt_, g, n, r.choice(['', '#define %s_2\n' % g]))
            elif form == 8:
                txt_ = '#ifndef %s\n#define %s\n%s\n#undef %s\n#endif' % (g, g, txt_, g)
            elif form == 9:
                txt_ = '#undef %s\n#ifndef %s\n#define %s\n%s\n#endif' % (g, g, g, txt_)
            elif form == 10:
                txt_ = '#ifndef %s\ninside %d ;\n#define %s\n%s\n#endif' % (g, n, g, txt_)
            else:
                txt_ = '#ifndef %s\n#if 0\n#endif\n#else\n#define %s\n%s\n#endif' % (g, g, txt_)
            cov.add('not quite an include guard %d' % form)
        files[p] = txt_ + r.choice(['\n', '\n', ''])
    main = []
    for _ in range(r.randrange(4, 12)):
        k = r.random()
        cand = [q for q in placed if visible(q, '', placed)]
        cands = [q for q in placed if any(x in ('i1', 'i2', 'i3') for x in placed[q])]
        if k < .35 and cand:
            main.append('#include "%s"' % r.choice(sorted(cand)))
            cov.add('#include ""')
        elif k < .6 and cands:
            main.append('#include <%s>' % r.choice(sorted(cands)))
            cov.add('#include <>')
        elif k < .7 and cand:
            q = r.choice(sorted(cand))
            main.append('#define INC "%s"\n#include INC\n#undef INC' % q)
            cov.add('computed include ""')
        elif k < .76 and cands:
            q = r.choice(sorted(cands))
            main.append('#define INC2 <%s>\n#include INC2\n#undef INC2' % q)
            cov.add('computed include <>')
        elif k < .82:
            main.append('#line@ %d%s\nl __LINE__ __FILE__ ;' % (r.choice([r.randrange(1, 5000), r.randrange(1, 2000000)]), r.choice(['', ' "other.c"'])))
            cov.add('#line')
        elif k < .87:
            main.append(r.choice(['#undef', '#undef', '#define']) + ' G_%d' % r.randrange(6))
            cov.add('guard name changed outside')
        else:
            main.append('m __LINE__ __FILE__ ;')
    args = []
    args += r.choice([['-Ii1', '-Ii2'], ['-Ii2', '-Ii1'], ['-Ii1', '-Ii2', '-Ii3'], ['-Ii3', '-Ii1', '-idirafter', 'i2'], ['-idirafter', 'i1', '-Ii2', '-Ii3'],
                      ['-idirafter', 'i2', '-Ii3', '-idirafter', 'i1'], ['-idirafter', 'i3', '-idirafter', 'i2', '-idirafter', 'i1']])
    for d in ('i1', 'i2', 'i3'):
        if '-I' + d not in args and d not in args:
            args += ['-I' + d]
    cov.add(' '.join(args))
    if r.random() < .2 and any('' in placed[q] for q in placed):
        q = r.choice(sorted(q for q in placed if '' in placed[q]))
        args += ['-include', q]
        cov.add('-include')
    if r.random() < .4:
        d = r.choice(['i1', 'i2', 'i3'])
        files[d + '/stdbool.h'] = 'own stdbool __FILE__ ;\n'
        main.insert(r.randrange(len(main) + 1), '#include <stdbool.h>')
        cov.add('own standard header, directory after: %s' % (d in args))
    if r.random() < .3:
        # conditional inclusion and nesting of conditionals over files
        files['cond.h'] = '#ifdef SECOND\nsecond ;\n#undef SECOND\n#else\nfirst ;\n#define SECOND\n#endif\n'
        for _ in range(r.randrange(1, 4)):
            main.insert(r.randrange(len(main) + 1), r.choice(['#if 0\n#include "nope.h"\n#else\n#include "cond.h"\n#endif', '#include "cond.h"', '#ifdef SECOND\n#include "cond.h"\n#endif']))
        cov.add('inclusion in conditional groups')
    files['main.c'] = '\n'.join(main) + '\n'
    # include_next is only comparable when the order of the directories is i1, i2, i3
    if any('include_next' in t for t in files.values()):
        args = ['-Ii1', '-Ii2', '-Ii3'] + [a for a in args if a == '-include' or a.endswith('.h')]
    return files, args, cov


def visible(q, d, placed):
    ds = placed.get(q, [])
    return d in ds or any(x in ('i1', 'i2', 'i3') for x in ds)


def norm(toks):
    """the white space between tokens that result from expansion is not specified: only strings made from source text keep it"""
    toks = [t.replace('"./', '"') for t in toks]      # spelling of __FILE__
    return [t.replace(' ', '') if t[0] == '"' and not t.startswith('"zdir') else t for t in toks]


DIRECTIVE = re.compile(r'^[ \t]*#[ \t]*(endif|else|ifdef[ \t]+\w+|ifndef[ \t]+\w+|undef[ \t]+\w+|include[ \t]+("[^"]*"|<[^>]*>))$', re.M)


def extra(r, text, cov):
    """tokens behind a directive that takes none are ignored"""
    def add(m):
        if r.random() < .06:
            cov.add('extra tokens behind #' + m[1].split()[0])
            return m[0] + r.choice([' zx', ' zx 1', ' OBJ1', '(2)', ' ;', ' "s"', ' za // c'])
        return m[0]
    return DIRECTIVE.sub(add, text)


def check(ctx, kind, j):
    r = ctx.sub(kind, j)
    files, args, cov = (macro_case if kind == 'macro' else include_case)(ctx, r)
    rx = ctx.sub('extra', kind, j)
    files = {f: extra(rx, t, cov) for f, t in files.items()}
    d = ctx.uniq('p')
    for f in ('i1', 'i2', 'i3', 'sub', 'i1/sub', 'i2/sub', 'i3/sub'):
        os.makedirs(os.path.join(d, f), exist_ok=True)
    for f, t in files.items():
        os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
        open(os.path.join(d, f), 'w').write(re.sub(r'#line@ (\d+)', lambda m: '#line %d' % (int(m[1]) + 1), t))
    try:
        ref = run([RVGCC, '-E', '-P', '-w', '-std=gnu11', *args, 'main.c'], 60, cwd=d)
        if ref.rc != 0:
            ctx.inconcl('reference rejects: ' + txt(ref.err)[:300])
            return
        if len(ref.out) > 60000:
            ctx.bump('too long, skipped')
            return
        ref2 = run(['clang', '-E', '-P', '-w', '-std=gnu11', *args, 'main.c'], 60, cwd=d)
        # known finding: #line N makes the next line N + 1, so the references get N + 1
        open(os.path.join(d, 'main.c'), 'w').write(re.sub(r'#line@ (\d+)', r'#line \1', files['main.c']))
        x = run([ctx.toycc(), '-E', *args, 'main.c'], 30, cwd=d)
        want = norm(tokens(txt(ref.out)))
        got = norm(tokens(txt(x.out))) if x.rc == 0 else None
        if got == want:
            ctx.count(len(want))
            ctx.seen(*cov)
            ctx.bump('texts')
            ctx.sample({'kind': kind, 'text': files['main.c'][:200]})
            return
        if ref2.rc != 0 or norm(tokens(txt(ref2.out))) != want:
            ctx.inconcl('reference preprocessors disagree: ' + txt(ref2.err)[:200])
            return
        if got is None:
            key = 'valid text rejected or preprocessor failed (rc %s): %s' % (x.rc, summarize(x.err))
        else:
            i = next((i for i in range(max(len(got), len(want))) if i >= len(got) or i >= len(want) or got[i] != want[i]))
            key = 'token %d is %s, expected %s, after ... %s' % (i, got[i] if i < len(got) else '(end)', want[i] if i < len(want) else '(end)',
                                                              ' '.join(want[max(0, i - 8):i]))
        ctx.violate('preprocessing (%s): ' % kind + key, 'toycc -E %s\n%s\n%s\n--- stderr\n%s\n--- got\n%s\n--- want\n%s\n' % (
            ' '.join(args), '\n'.join('=== %s\n%s' % f for f in files.items()), key, txt(x.err)[:1000], txt(x.out), txt(ref.out)))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def strip_lines(s):
    return '\n'.join(l for l in txt(s).splitlines() if not re.match(r'\s*\.(loc|file)\b', l) and not l.lstrip().startswith('#'))


def roundtrip(ctx, path, args):
    """-E output compiles to the same program as its source"""
    d = ctx.uniq('rt')
    args = args + CLOCK
    try:
        a = run([ctx.toycc(), *args, '-S', '-o', os.path.join(d, 'a.s'), path], 60, cwd=d)
        if a.rc != 0:
            ctx.inconcl('does not compile: ' + path)
            return
        e = run([ctx.toycc(), *args, '-E', '-o', os.path.join(d, 'e.c'), path], 60, cwd=d)
        b = run([ctx.toycc(), '-S', '-o', os.path.join(d, 'b.s'), 'e.c'], 60, cwd=d) if e.rc == 0 else e
        A = strip_lines(open(os.path.join(d, 'a.s'), 'rb').read())
        B = strip_lines(open(os.path.join(d, 'b.s'), 'rb').read()) if b.rc == 0 else None
        if A != B:
            why = 'rc %s %s' % (b.rc, summarize(b.err)) if B is None else next((x, y) for x, y in zip(A.split('\n') + [''], B.split('\n') + ['']) if x != y)
            ctx.violate('-E output of %s does not compile to the same program' % os.path.basename(path), str(why))
            return
        ctx.count(1)
        ctx.bump('roundtrips')
        ctx.seen('roundtrip ' + os.path.basename(path))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def probe_line(ctx):
    d = ctx.uniq('l')
    open(os.path.join(d, 'main.c'), 'w').write('#line 100\n__LINE__\n')
    x = run([ctx.toycc(), '-E', 'main.c'], 30, cwd=d)
    ctx.count(1)
    if tokens(txt(x.out)) != ['100']:
        ctx.violate('#line N: the following line is numbered N + 1' if tokens(txt(x.out)) == ['101'] else '#line 100 numbers the next line ' + txt(x.out).strip(),
                    '#line 100\n__LINE__\n\ngives %s' % txt(x.out))


def search_order(ctx):
    """every order and kind of include directories: which of the files with the same name is read, by #include "", <> and #include_next"""
    d = ctx.uniq('so')
    for sub in ('', 'i1', 'i2', 'i3', 'sub'):
        os.makedirs(os.path.join(d, sub), exist_ok=True)
    where = {'all': ['', 'i1', 'i2', 'i3', 'sub'], 'inc': ['i1', 'i2', 'i3'], 'p12': ['i1', 'i2'], 'p13': ['i1', 'i3'], 'p23': ['i2', 'i3', 'sub'], 'one': ['i2'], 'stdbool': ['i1', 'i3'], 'float': ['i2', 'i3'],
             'n123': ['i1', 'i2', 'i3'], 'n12': ['i1', 'i2'], 'n23': ['i2', 'i3', 'sub']}
    for n, ds in where.items():
        for x in ds:
            own = 'own_%s_%s ;\n' % (n, x or 'cur')
            nxt = '#ifndef %s_%s\n#define %s_%s\n#include_next <%s.h>\n#endif\n' % (n, x, n, x, n) if n + x in ('n123i1', 'n123i2', 'n12i1', 'n23i2') else ''
            with open(os.path.join(d, x, n + '.h'), 'w') as f:
                f.write(own + nxt)
    with open(os.path.join(d, 'sub', 'via.h'), 'w') as f:
        f.write('via ;\n#include "all.h"\n#include "p23.h"\n#include "p12.h"\n#include <all.h>\n')
    with open(os.path.join(d, 'main.c'), 'w') as f:
        f.write(''.join('#include <%s.h>\n' % n for n in ('all', 'inc', 'p12', 'p13', 'one', 'stdbool', 'float')) + '#include "all.h"\n#include "p13.h"\n#include "sub/via.h"\n#include "one.h"\n')
    with open(os.path.join(d, 'next.c'), 'w') as f:
        f.write('#include <n123.h>\n#include <n12.h>\n#include "n23.h"\n')

    def one(a):
        args, m = a
        x = run([ctx.toycc(), *args, '-E', m], 30, cwd=d)
        y = run([RVGCC, '-E', '-P', *args, m], 30, cwd=d)
        X, Y = [re.findall(r'\b(?:own_\w+|via)\b', txt(z.out)) for z in (x, y)]
        if y.rc != 0:
            # a #include_next that finds nothing: rejected by both
            if x.rc == 0:
                ctx.violate('a header that does not exist is found: %s %s' % (' '.join(args), m), txt(x.out))
            ctx.count(1)
            ctx.bump('searches that find nothing')
            return
        if x.rc != 0 or X != Y:
            ctx.violate('search order of include directories: %s %s' % (' '.join(args), m), 'expected %s\ngot (rc %s) %s\n%s' % (Y, x.rc, X, txt(x.err)))
            return
        ctx.count(len(X))
        ctx.seen('search order %s %s' % (' '.join(args), m))
    orders = []
    for perm in (('i1', 'i2', 'i3'), ('i1', 'i3', 'i2'), ('i2', 'i1', 'i3'), ('i2', 'i3', 'i1'), ('i3', 'i1', 'i2'), ('i3', 'i2', 'i1')):
        for k in range(8):
            args = []
            for i, x in enumerate(perm):
                args += ['-idirafter', x] if k >> i & 1 else ['-I' + x]
            orders.append((args, 'main.c'))
            if k == 0 or perm[0] == 'i1':
                orders.append((args, 'next.c'))
    ctx.pmap(one, orders)


def body(ctx):
    ctx.rule = ('An evaluation is one preprocessing token compared with the reference preprocessor (gcc, confirmed by clang on a difference), or one '
                'program whose -E output was recompiled; distinct: preprocessing features observed.')
    ctx.assumptions = ['gcc -E yields the token sequence of the standard; recursion that the standard leaves unspecified is not generated']
    ctx.toycc()
    probe_line(ctx)
    search_order(ctx)
    predef.compare(ctx, predef.NAMES)
    jobs = [('macro', j) for j in range(ctx.scale(1500, 20000))] + [('include', j) for j in range(ctx.scale(500, 6000))]
    ctx.pmap(lambda j: check(ctx, *j), jobs)
    srcs = sorted(os.path.join(REPO, 'test', f) for f in os.listdir(os.path.join(REPO, 'test')) if f.endswith('.c'))
    srcs += [os.path.join(REPO, s) for s in sources()]
    inc = ['-I' + os.path.join(REPO, x) for x in ('test', '', 'parser', 'preprocessor')]
    ctx.pmap(lambda s: roundtrip(ctx, s, inc), srcs)


if __name__ == '__main__':
    main('C09', body)
