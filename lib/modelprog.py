"""Runs programs whose event trace the model knows (offline trace checking)."""
import os
from vlib import *
from cmodel import *

PRE = '''void ev(long id, long v); void evu(long, unsigned long); void evd(long id, double d);
void evf(long id, float f); void evL(long id, long double x);
void evm(long id, const void *p, long n); void evs(long id, const char *s);
void *memset(void *, int, unsigned long); void *memcpy(void *, const void *, unsigned long);
enum E { E_NEG = -5, E_A = 0, E_B = 7, E_MAX = 2147483647 };
'''


class Trace:
    """Expected events of one program: (id, matcher, description)."""

    def __init__(self):
        self.exp = []
        self.ids = 0

    def new(self):
        self.ids += 1
        return self.ids

    def add(self, id, val, desc, t=None):
        """val: int, FP, or None (anything)"""
        self.exp.append((id, val, t, desc))

    def words(self):
        out = []
        for id, val, t, desc in self.exp:
            if t is not None and t.isf:
                b = fbits(val, t)
                if t is LDOUBLE:
                    out.append((id, None if b is None else s64(b), t, desc, 0))
                    out.append((id, None if b is None else s64(b >> 64), t, desc, 1))
                else:
                    out.append((id, None if b is None else s64(b), t, desc, 0))
            else:
                out.append((id, None if val is None else s64(val), None, desc, 0))
        return out


def diff(words, got):
    """None if the recorded trace is what the model says, else a description."""
    n = max(len(words), len(got))
    prev = None
    for i in range(n):
        if i >= len(words):
            return ('unexpected extra event', i, got[i])
        id, val, t, desc, half = words[i]
        if i >= len(got):
            return ('trace ends early, expected: ' + desc, i, (id, val))
        gid, gv = got[i]
        if gid != id:
            return ('wrong control flow, expected event of: ' + desc, i, (gid, gv, 'want', id, val))
        if val is None:
            if t is not None and t.isf:
                u = gv & (1 << 64) - 1
                if t is LDOUBLE:
                    if half == 0:
                        prev = u
                        continue
                    u = u << 64 | prev
                elif t is FLOAT:
                    u &= 0xffffffff
                if not bits_isnan(u, t):
                    return ('not a NaN: ' + desc, i, (hex(u),))
            continue
        if gv != val:
            return (desc, i, ('got', gv, hex(gv & (1 << 64) - 1), 'want', val, hex(val & (1 << 64) - 1)))
    return None


def check_program(ctx, name, src, trace, flags=(), extra_objs=(), srcs=None, toy_kind='plain', ref_opts=('-O0',)):
    """Compile src with toycc, run it, check its trace; a disagreement counts
    as a violation only if the reference compiler agrees with the model."""
    d = ctx.uniq('p')
    c = os.path.join(d, name + '.c')
    with open(c, 'w') as f:
        f.write(src)
    words = trace.words() if hasattr(trace, 'words') else trace
    why = None
    r = ctx.cc_toy(c, os.path.join(d, 't.o'), flags, toy_kind)
    got = None
    if r.timed_out:
        why = ('the compiler does not terminate', 0, ())
    elif r.rc != 0:
        why = ('valid program rejected or compiler failed (rc %s): %s' % (r.rc, summarize(r.err)), 0, ())
    else:
        l = ctx.link([os.path.join(d, 't.o'), *extra_objs], os.path.join(d, 't.exe'))
        if l.rc != 0:
            why = ('the object does not link: ' + summarize(l.err), 0, ())
        else:
            x = ctx.execute(os.path.join(d, 't.exe'))
            got = parse_events(x.out)
            dd = diff(words, got)
            if x.timed_out:
                why = ('the compiled program does not terminate', 0, ())
            elif dd:
                why = dd
            elif x.rc != 0:
                why = ('the compiled program ends with status %s' % x.rc, 0, ())
    if why is None:
        ctx.count(len(words))
        shutil.rmtree(d, ignore_errors=True)
        return True
    # second opinion
    for opt in ref_opts:
        r2 = ctx.cc_ref(c, os.path.join(d, 'g.o'), flags, opt)
        ok = False
        note = ''
        if r2.rc == 0:
            l = ctx.link([os.path.join(d, 'g.o'), *extra_objs], os.path.join(d, 'g.exe'))
            if l.rc == 0:
                x = ctx.execute(os.path.join(d, 'g.exe'))
                dd = diff(words, parse_events(x.out))
                ok = dd is None and x.rc == 0
                note = str(dd)
            else:
                note = txt(l.err)[:300]
        else:
            note = txt(r2.err)[:500]
        if not ok:
            ctx.inconcl('model and reference disagree (%s %s): %s | toycc: %s' % (name, opt, note, why))
            return None
    ctx.violate('%s' % why[0], 'program %s\n%s\nevent index %s: %s\ncompiler stderr: %s\n' % (
        name, why[0], why[1], why[2], txt(r.err)[:2000]), {name + '.c': src})
    shutil.rmtree(d, ignore_errors=True)
    return False


def summarize(err):
    """last diagnostic line, without paths and line numbers"""
    lines = [l.strip() for l in txt(err).splitlines() if l.strip()]
    if not lines:
        return '(no message)'
    m = [l for l in lines if l.startswith('^')] or lines[-1:]
    return re.sub(r'/tmp/\S+', '<tmp>', m[0])[:200]


def emit(e_text, id, t):
    """statement recording the value of an expression of type t"""
    f = {FLOAT: 'evf', DOUBLE: 'evd', LDOUBLE: 'evL'}.get(t, 'ev')
    return '%s(%d, %s);' % (f, id, e_text)


def ctext(v, t):
    """a C constant expression for value v of type t"""
    if t.isf:
        suf = {'float': 'f', 'double': '', 'long double': 'L'}[t.name]
        if v.k == 'nan':
            return '(%s)(0.0/0.0)' % t.name
        if v.k == 'inf':
            return '(%s)(%s1.0/0.0)' % (t.name, '-' if v.neg else '')
        return ('-' if v.neg else '') + hexfloat(v.m) + suf
    if v == -(1 << 63):
        return '(-9223372036854775807L - 1)'
    if v > (1 << 63) - 1:
        return '%dUL' % v
    if v > (1 << 31) - 1 or v < -(1 << 31) + 1:
        return '%dL' % v
    return '%d' % v


def build_and_run(ctx, d, tag, objs_fn):
    """objs_fn() -> list of objects or raises Violation; returns Res"""
    exe = os.path.join(d, tag + '.exe')
    objs = objs_fn()
    l = ctx.link(objs, exe)
    if l.rc != 0:
        return None, 'does not link: ' + summarize(l.err)
    return ctx.execute(exe), None


def describe_diff(a, b, names=None):
    """first difference between two event traces"""
    for i in range(max(len(a), len(b))):
        if i >= len(a):
            return i, 'trace ends early; missing event %s' % (b[i],)
        if i >= len(b):
            return i, 'extra event %s' % (a[i],)
        if a[i] != b[i]:
            return i, 'event %s, expected %s' % (a[i], b[i])
    return None


def check_diff(ctx, name, src, flags=(), label=None, ref_opts=('-O0', '-O1'), extra_objs=(), toy_flags=(), key=None,
               ref_flags=(), keep_src=True, toy_kind='plain'):
    """Differential trace check of one program.  label(event index, got, want)
    names the violated construct.  The reference traces (all ref_opts) must
    agree, otherwise the case is inconclusive."""
    d = ctx.uniq('d')
    c = os.path.join(d, name + '.c')
    with open(c, 'w') as f:
        f.write(src)

    def attempt():
        o = os.path.join(d, 't.o')
        r = ctx.cc_toy(c, o, list(flags) + list(toy_flags), toy_kind)
        if r.timed_out:
            return None, 'the compiler does not terminate', r
        if r.rc != 0:
            return None, 'valid program rejected or compiler failed (rc %s): %s' % (r.rc, summarize(r.err)), r
        x, why = build_and_run(ctx, d, 't', lambda: [o, *extra_objs])
        if why:
            return None, 'the object ' + why, r
        if x.timed_out:
            return None, 'the compiled program does not terminate', r
        return (x.rc, parse_events(x.out)), None, r

    refs = []

    def reference(opt):
        o = os.path.join(d, 'g%s.o' % opt)
        r = ctx.cc_ref(c, o, list(flags) + list(ref_flags), opt)
        if r.rc != 0:
            return None, 'reference rejects: ' + txt(r.err)[:600]
        x, why = build_and_run(ctx, d, 'g' + opt, lambda: [o, *extra_objs])
        if why or x.timed_out or x.rc is None or x.rc < 0 or x.rc >= 128:
            return None, 'reference run: %s rc=%s' % (why, x and x.rc)
        return (x.rc, parse_events(x.out)), None

    try:
        got, why, r = attempt()
        ref, rwhy = reference(ref_opts[0])
        if ref is None:
            ctx.inconcl('%s: %s' % (name, rwhy))
            return None
        if got == ref:
            ctx.count(len(ref[1]) or 1)
            return ref[1]
        for opt in ref_opts[1:]:
            ref2, rwhy = reference(opt)
            if ref2 != ref:
                ctx.inconcl('%s: reference levels disagree %s' % (name, rwhy))
                return None
        if why is None:
            dd = describe_diff(got[1], ref[1])
            if dd is None:
                why = 'exit status %s instead of %s' % (got[0], ref[0])
                lab = why
            else:
                i = dd[0]
                w = ref[1][i] if i < len(ref[1]) else None
                g = got[1][i] if i < len(got[1]) else None
                why = 'event %d: got %s, expected %s (status %s)' % (i, g, w, got[0])
                lab = (label(i, g, w) if label else None) or why
        else:
            lab = why
        ctx.violate(lab, 'program %s flags %s\n%s\n%s\ncompiler stderr:\n%s' % (
            name, ' '.join(list(flags) + list(toy_flags)), lab, why, txt(r.err)[:2000]), {name + '.c': src})
        return False
    finally:
        shutil.rmtree(d, ignore_errors=True)
