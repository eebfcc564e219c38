"""Hostile inputs for the compiler: semantic templates (every operator and context x every kind of operand),
mutations of valid programs, preprocessor and lexical hostilities."""
import re

DECLS = '''
typedef struct S S; typedef int T; typedef int VT[3]; typedef int FT(int);
struct S { int a; char c; int b : 3; unsigned long long w : 40; int arr[2]; struct S *next; struct { int x; float y; }; double d; };
union U { int i; float f; char c[5]; long double ld; };
struct Inc; union IncU; struct Empty {}; struct Flex { int n; char data[]; }; enum E { E0, E1 = 5 };
extern struct Inc inc; extern int unk[]; struct S gs; union U gu; int gi; static int si; _Thread_local int tl; int garr[3]; int g2[2][3];
void vf(void); int fi(int, ...); struct S fs(struct S, long double); int (*fp)(int); float ff(float); long double fld(void); _Bool fb(void); int fo();
void *vp; struct Inc *incp; const char *str = "x"; double gd; _Atomic int at; int (*pa)[3]; struct Flex *flexp;
'''
LOCALS = '''int i = 1; char ch = 2; short sh; long l = 3; unsigned un; unsigned long ul; _Bool bo; float f = 1; double d = 2; long double ld = 3;
int arr[3]; int a2[2][3]; struct S s; struct S *sp = &s; struct S sa[2]; union U u; enum E e; int *ip = &i; char *cp; void *p = 0; int **ipp = &ip; int n = 3; int vla[n]; int vla2[n][n + 1]; int (*pvla)[n] = vla2;
struct Empty em; static int st; S tdef; volatile int vo; register int rg;'''
OPERANDS = '''0 1 -1 3 0x7fffffff 4294967296 1.5 2.5f 3.0L 'a' L'x' "str" L"w" u"x" i ch sh l un ul bo f d ld arr a2 s sp sa u e E1 ip cp p ipp vla vla2 pvla em st tdef vo rg at
gi gs gu garr g2 si tl unk inc incp vp fp pa flexp vf fi fs ff fld fb fo str nosuch (i) (s) (vla) s.b s.w s.a s.arr s.x sp->b sp->next u.c u.ld flexp->data flexp->n incp->x
vf() fi(1) fs(s,ld) fs(s,ld).a fs(s,ld).arr ff(f) fld() fb() fo() fp(1) (*fp)(1) (int)d (float)i (void)0 (struct S){1} (int[]){1,2} (int[3]){1} (S){.b=1} (char[]){"ab"} &i &s &vla &fs &arr[1] *ip *vp *arr *vla *fp **ipp
arr[1] vla[1] vla2[1] vla2[1][2] a2[1] sa[1] sa[1].b g2[1] pa[0] ({1;}) ({int q=1;q;}) ({;}) ({}) ({s;}) ({vla;}) ({vf();}) (i,s) (i,vf()) (1?s:gs) (1?vf():vf()) (1?ip:0) (1?p:ip) (1?arr:ip) (1?i:d) i++ ++i s.b++ d-- ip++ i=2 s=gs s.b=3 (arr) !s ~i -d sizeof(i) sizeof(struct{int x;}) sizeof(vla) sizeof(int[n]) _Alignof(int) &&lab __func__ __FUNCTION__
__builtin_reg_class(int) __builtin_types_compatible_p(int,long) __builtin_compare_and_swap(&i,&i,2) __builtin_atomic_exchange(&i,2) _Generic(i,int:1,default:2) alloca(8) T S struct int void int* (T) () {} {1} [] T() ... ; , : ? "'''.split()
TYPES = '''int char void short long unsigned float double struct{int_x;} struct_S union_U struct_Inc enum_E S T VT FT _Bool long_double int* void* struct_S* struct_Inc* int[3] int[] int[n] int[n][2] int(*)[3] int(*)(int) int(int) void(void) FT* VT* struct_Flex struct_Empty typeof(i) typeof(int*) typeof(vla) typeof(s.b) typeof(vf) _Atomic_int const_int nosuch int_T struct enum{} union{} long_long_long unsigned_float static_int _Alignas(8)_int'''.split()
UN = ['&%s', '*%s', '+%s', '-%s', '!%s', '~%s', '++%s', '--%s', '%s++', '%s--', 'sizeof %s', 'sizeof(%s)', '_Alignof(%s)', '_Alignof %s', '(%s)', '%s()', '%s(1)', '%s(s)', '%s[1]', '1[%s]', '%s[s]',
      '%s.a', '%s.b', '%s->a', '%s.nosuch', '%s->nosuch', '%s.x', '%s->', '%s.1', '&&%s', 'typeof(%s)', '({%s;})', '_Generic(%s, int: 1, struct S: 2, char *: 3, default: 4)', '_Generic(%s)', '_Generic(%s, int: 1)', '_Generic(%s, default: 1, default: 2)', '*&%s', '&*%s', '**%s', '-(-%s)',
      '%s ? 1 : 2', '1 ? %s : 2', '1 ? 2 : %s', '%s ?: 3', '1 ? : %s', 'fi(%s)', 'fi(1, %s)', 'fs(%s, 1)', 'fs(s, %s)', 'vf(%s)', 'fp(%s)', 'fo(%s)', 'alloca(%s)', '__builtin_compare_and_swap(%s, &i, 1)', '__builtin_compare_and_swap(&i, %s, 1)', '__builtin_compare_and_swap(&i, &i, %s)', '__builtin_atomic_exchange(%s, 1)', '__builtin_atomic_exchange(&i, %s)', '__builtin_reg_class(%s)', '__builtin_types_compatible_p(%s, int)', '__builtin_va_start(%s, i)', 'arr[%s]', 'sp[%s]', 'vp[%s]', 'vla2[%s]', '(struct S){%s}', '(int[]){%s}', '(union U){%s}', '(S){.b = %s}', '(int[3]){[%s] = 1}', '(int[%s]){1}', '__func__[%s]']
BIN = '+ - * / % << >> < > <= >= == != & | ^ && || , = += -= *= /= %= &= |= ^= <<= >>='.split()
STMT = ['%s;', 'if (%s) ; else ;', 'while (%s) break;', 'for (%s; %s; %s) break;', 'do ; while (%s);', 'switch (%s) { case 1: default:; }', 'switch (i) { case %s: ; }', 'switch (i) { case 1 ... %s: ; }', 'switch (i) { case %s ... 9: ; }', 'return %s;', 'goto *%s;', 'goto %s;',
        '%s: ;', 'int x = %s;', 'static int x = %s;', 'static long x = %s;', 'static double x = %s;', 'static struct S x = %s;', 'struct S x = %s;', 'struct S x = {%s};', 'struct S x = {.b = %s};', 'struct S x = {.arr[%s] = 1};', 'int x[] = %s;', 'int x[] = {%s};', 'char x[] = %s;', 'char x[2] = %s;', 'static char x[2] = {%s};', 'int x[%s];', 'int x[%s] = {1};', 'static int x[%s];', 'int x[][%s] = {1};', 'int x[3] = {[%s] = 1};', 'int x[3] = {[%s ... 2] = 1};', 'int x[3] = {[0 ... %s] = 1};', 'union U x = {%s};', 'union U x = %s;', 'struct { int b : %s; } x;', 'struct { char b : %s, : %s; } x;', '_Alignas(%s) int x;', 'struct { _Alignas(%s) char c; } x;', 'int x __attribute__((aligned(%s)));', 'struct __attribute__((aligned(%s), packed)) { int a; } x;', 'enum { X = %s };', 'enum { X = %s, Y } x;', 'typeof(%s) x;', 'typeof(%s) x = 1;', 'typeof(%s) *x;', 'typeof(%s) x[2];', 'typedef typeof(%s) X; X x;', 'asm(%s);', 'asm("nop" : %s);', '_Static_assert(%s, "x");', '_Static_assert(1, %s);', 'int *x = %s;', 'static int *x = %s;', 'static int *x = &%s;', 'static char *x = %s;', 'static void (*x)(void) = %s;', 'void *x = &%s;', 'float x = %s;', 'long double x = %s;', '_Bool x = %s;', 'char x = %s;', 'va_list ap; __builtin_va_start(ap, %s);', '{ %s; }', 'extern int x = %s;', 'int x(int y) = %s;', 'void x = %s;', 'struct Inc x = %s;', 'int x[2][2] = {%s};', 'int x[2][2] = %s;', 'struct S x[2] = {%s, %s};', 'static struct { int a:3, b:5; } x = {%s, %s};', '_Atomic int x; x += %s;', 'i += %s;', 's.b += %s;', 's.w = %s;', 'l = %s;', 'p = %s;', 'bo = %s;', 'd = %s;', 'u = %s;', 's = %s;', 'arr = %s;', 'vla = %s;', 'e = %s;', 'f = %s;', 'ld = %s;', 'cp = %s;', 'fp = %s;']
TYSTMT = ['@ x;', '@ x = {1};', '@ x = 1;', '@ *x;', '@ x[2];', '@ (*x)[2];', '@ x(void);', '@ x(@ y);', 'static @ x;', 'extern @ x;', 'typedef @ X;', '(@)i;', '(@)s;', '(@)d;', '(@)p;', '(@)arr;', '(@)vf();', '(@){1};', '(@){};', '(@){1,2,3};', '(@){[1]=1};', '(@){.a=1};', '(@){"ab"};', 'sizeof(@);', '_Alignof(@);', '_Alignas(@) int x;', 'struct { @ m; } x;', 'struct { @ m; int y; } x = {1, 2};', 'struct { @; } x;', 'struct { @ m : 3; } x;', 'union { @ m; } x = {1};', 'for (@ x;;) break;', 'for (@ x = 1;;) break;', '__builtin_types_compatible_p(@, @);', '__builtin_reg_class(@);', '_Generic(i, @: 1, default: 2);', '_Generic(s, @: 1, default: 2);', 'typeof(@) x;', 'typeof((@)0) x;', '@ x, *y, z[2], w(int);', 'sizeof(@[2]);', 'sizeof(@*);', 'sizeof(@(*)(@));', '(@*)p + 1;', '((@*)p)[1];', '*(@*)p;', '(@*)p - (@*)p;', '(*(@*)p).a;', '((@*)p)++;', '@;', '@ @ x;', '@ x @ y;', 'const @ x; volatile @ y;', 'register @ x;', '_Thread_local static @ x;', 'inline @ x;', '@ static x;', '@ typedef x;', '({ @ x; x; });', 'fi(1, *(@*)p);', 'va_arg(*(va_list*)p, @);', '*(@*)p = *(@*)p;', '@ x = *(@*)p;']
TOP = ['@ g;', '@ g = 1;', '@ g = {1};', '@ g[3] = {1, 2};', '@ g[] = {1, 2};', '@ *g = 0;', '@ *g = &gi;', 'static @ g;', 'extern @ g;', '_Thread_local @ g;', '_Thread_local @ g = 1;', '@ f1(void) { }', '@ f1(@ a) { return a; }', '@ f1(@ a, @ b) { return a; }', '@ f1(@, @) ;', '@ f1(@ a, ...) { return a; }', 'void f1(@ a[3]) { a; }', 'void f1(@ a[static 3]) { a[1]; }', 'void f1(int n, @ a[n]) { a[1]; sizeof *a; }', 'void f1(int n, @ (*a)[n]) { a[1]; }', '@ f1(void) { @ x; return x; } void f2(void) { f1(); }', 'struct X { @ a; @ b[]; }; struct X g;', 'struct X { @ a; } g = {1};', 'struct X { struct X a; };', 'struct X { struct X *a; @ b; } g = {&g, 1};', 'union X { @ a; int b; } g = {.b = 1};', 'typedef @ X; X g; X f1(X x) { X y; return x; }', 'enum X { A, B = sizeof(@) };', 'int g[sizeof(@)];', 'int g = _Alignof(@);', '@ f1(), f2(void), *g;', '@', '@ f1(@', '@ g = ', '@ g[', 'struct { @ a', 'inline @ f1(void) {}', 'static inline @ f1(@ x) { return x; } void f2(void) { @ y; f1(y); }', '_Alignas(@) int g;', '@ (f1)(void);', '@ (*f1(int))(int);', '@ f1 g;', 'extern @ g = 1;', '@ g; @ g; extern @ g;', '@ g; int g;', 'int g; @ g(void);', '@ f1(void); int f1(int x) { return x; }', '; @ g;', '@ a, b, c = 1, *d = &a;', '_Static_assert(sizeof(@) > 0, "x");', 'asm("nop"); @ g;', '@ main(int argc, @ argv) {}']


def ty(r):
    return r.choice(TYPES).replace('_x;', ' x;').replace('int_T', 'int T').replace('struct_', 'struct ').replace('union_U', 'union U').replace('enum_E', 'enum E').replace('long_double', 'long double').replace('_Atomic_int', '_Atomic int').replace('const_int', 'const int').replace('long_long_long', 'long long long').replace('unsigned_float', 'unsigned float').replace('static_int', 'static int').replace(')_int', ') int')


def opnd(r):
    return r.choice(OPERANDS)


def expr(r, d=0):
    q = r.random()
    if d > 2 or q < .25:
        return opnd(r)
    if q < .6:
        t = r.choice(UN)
        return t % ((expr(r, d + 1),) * t.count('%s'))
    if q < .66:
        return '(%s)%s' % (ty(r), expr(r, d + 1))
    b = '%s %s %s' % (expr(r, d + 1), r.choice(BIN), expr(r, d + 1))
    return b if r.random() < .5 else '(%s)' % b


def fill(r, t):
    while '@' in t:
        t = t.replace('@', ty(r), 1)
    return t


# names that mean something to the compiler, declared as something else and used
SPECIAL = ['alloca', 'alloca', '__va_area__', '__alloca_size__', '__func__', '__FUNCTION__', 'main', '__builtin_compare_and_swap', '__builtin_atomic_exchange',
           '__builtin_types_compatible_p', '__builtin_reg_class', 'va_start', 'va_list', '__va_elem', 'memcpy', '__tls_get_addr', 'asm', 'typeof', 'inline', '__attribute__',
           'defined', '__VA_ARGS__', '__VA_OPT__', 'offsetof']
REDECL = ['int %s;', 'int %s = 3;', 'int %s();', 'void *%s();', 'int %s(void);', 'struct S %s(int);', 'static int %s(int q, ...) { return q; }', 'int (*%s)(int);', 'typedef int %s;', 'enum { %s };', 'int %s[3];',
          'struct %s { int %s; };', '_Thread_local int %s;', 'struct S %s;', 'int %s() { return 1; }', 'extern struct Inc %s;', '#define %s 3', '#define %s(x) x', '#undef %s', 'long double %s(long double);']
REUSE = ['%s', '%s()', '%s(1)', '%s(1, 2)', '%s(s)', '%s(1.5)', '&%s', 'sizeof(%s)', '%s[1]', '*%s', '%s = 1', '%s(%s)', '(%s)(8)', '(*%s)(8)', '(&%s)(8)', '%s + 1', 's.%s', '%s.a', '(%s)1', '%s(&i, &i, 2)',
         '%s(&i, 2)', '%s(int, long)', '%s(i)', '%s: i', 'goto %s', '&&%s', 'int %s = 2']


def special(r):
    n = r.choice(SPECIAL)
    d, d2 = (x.replace('%s', n) + '\n' for x in (r.choice(REDECL), r.choice(REDECL)))
    k = r.randrange(3)
    return DECLS + (d if k != 1 else '') + (d2 if k == 2 else '') + 'int fn(int par, ...) {\n' + LOCALS + '\n' + (d if k == 1 else '') + ''.join(
        r.choice(REUSE).replace('%s', n) + ';\n' for _ in range(r.randrange(1, 3))) + 'return 0; }\n'


def semantic(r):
    if r.random() < .05:
        return special(r).encode()
    out = [DECLS, '#include <stdarg.h>\n']
    q = r.random()
    if q < .2:
        for _ in range(r.choice([1, 1, 2])):
            out.append(fill(r, r.choice(TOP)) + '\n')
        out.append('int gx = %s;\n' % expr(r) if r.random() < .3 else '')
        if r.random() < .4:
            t = r.choice(STMT)
            x = (t % tuple(expr(r) for _ in range(t.count('%s')))).split(';')[0] + ';'
            out.append(x.replace('static ', '') + '\n')
    else:
        out.append(r.choice(['int', 'void', 'struct S', 'float', 'long double', 'struct Inc *', 'union U']) + ' fn(int par, ...) {\n')
        out.append(LOCALS + '\nlab:;\n')
        for _ in range(r.choice([1, 1, 1, 2])):
            z = r.random()
            if z < .35:
                t = r.choice(STMT)
                out.append(t % tuple(expr(r, r.choice([0, 2, 3])) for _ in range(t.count('%s'))) + '\n')
            elif z < .6:
                out.append(fill(r, r.choice(TYSTMT)) + '\n')
            elif z < .8:
                t = r.choice(UN)
                out.append('%s;\n' % (t % ((opnd(r),) * t.count('%s'))))
            else:
                out.append('%s %s %s;\n' % (opnd(r), r.choice(BIN), opnd(r)))
        out.append('return 0;\n}\n' if r.random() < .3 else '}\n')
    return ''.join(out).encode()


TOKRE = re.compile(rb'\s+|//[^\n]*|/\*.*?\*/|[A-Za-z_]\w*|\.?\d(?:[eEpP][+-]|[\w.])*|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|<<=|>>=|\.\.\.|[-+*/%&|^=!<>]=|->|\+\+|--|&&|\|\||<<|>>|##|.', re.S)
KW = '''return if else for while short int long sizeof char struct union void typedef _Bool enum static goto break continue switch case default extern _Alignof _Alignas do signed unsigned const volatile auto register restrict _Noreturn float double typeof asm _Thread_local _Atomic __attribute__ inline _Static_assert _Generic alloca __VA_ARGS__ __VA_OPT__ defined __FILE__ __LINE__ __COUNTER__ __func__ main
( ) { } [ ] ; , : ? . -> ... = == + - * / % & | ^ ~ ! && || << >> ++ -- += <<= # ## \\ @ ` $ 0 1 2 -1 08 0x 0b2 1.e 1e+ 1.5f 0x1p 99999999999999999999 'a' '' ' "s" " "" L"x" u8"y" u'x' U" '\\ '\\x '\\777 "\\ "\\x" // /* */
#if #ifdef #ifndef #elif #else #endif #define #undef #include #include_next #line #pragma #error # ##'''.encode().split()


def mutate(r, data, pool):
    q = r.random()
    if q < .15 and data:            # bytes
        b = bytearray(data)
        for _ in range(r.choice([1, 1, 2, 5])):
            k = r.randrange(5)
            p = r.randrange(len(b) + 1) if b else 0
            if k == 0 and p < len(b):
                b[p] ^= 1 << r.randrange(8)
            elif k == 1:
                b[p:p] = bytes([r.choice([0, 10, 13, 34, 39, 92, 35, 47, 42, 0xc3, 0xff, 0xf0, 255, r.randrange(256)])])
            elif k == 2:
                del b[p:p + r.choice([1, 1, 3, 20])]
            elif k == 3:
                e = p + r.choice([1, 4, 40])
                b[p:p] = b[p:e]
            else:
                del b[p:]
        return bytes(b)
    toks = TOKRE.findall(data)
    if not toks:
        return data
    for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
        k = r.randrange(9)
        # prefer non-blank positions
        for _ in range(4):
            p = r.randrange(len(toks))
            if toks[p].strip():
                break
        if k == 0:
            del toks[p:p + r.choice([1, 1, 1, 2, 5])]
        elif k == 1:
            toks[p:p] = [r.choice(KW), b' ']
        elif k == 2:
            toks[p] = r.choice(KW)
        elif k == 3:
            toks[p] = r.choice(toks)
        elif k == 4:
            e = p + r.choice([1, 3, 10, 30])
            toks[p:p] = toks[p:e]
        elif k == 5:
            o = r.choice(pool)
            ot = TOKRE.findall(o)
            if ot:
                s = r.randrange(len(ot))
                toks[p:p] = ot[s:s + r.choice([2, 6, 20])]
        elif k == 6:
            x = r.randrange(len(toks))
            toks[p], toks[x] = toks[x], toks[p]
        elif k == 7:
            del toks[p:]
        else:
            toks[p:p] = [b' ', opnd(r).encode(), b' ']
        if not toks:
            break
    out = b''.join(toks)
    if r.random() < .1:
        out = out.rstrip(b'\n')
    return out


PPN = [b'A', b'B', b'F', b'G', b'V', b'__VA_ARGS__', b'__VA_OPT__', b'defined', b'x', b'__LINE__', b'__COUNTER__']
PPT = PPN * 2 + [b'(', b')', b',', b'#', b'##', b'1', b'"s"', b'+', b'-', b'...', b'0', b'1.5', b"'c'", b'?', b':', b'/', b'%', b'==', b'&&', b'!', b'<', b'>', b'{', b'}', b';', b'\\', b'.', b'0x', b'u8', b'L', b'L"s"', b'//', b'/*', b'*/', b'F(', b'V(', b'G(']


def ppline(r):
    k = r.randrange(16)
    s = lambda n: b' '.join(r.choice(PPT) for _ in range(r.randrange(n)))
    if k < 3:
        return b'#define %s %s' % (r.choice(PPN), s(6))
    if k < 5:
        return b'#define %s(%s) %s' % (r.choice(PPN), b','.join(r.choice([b'a', b'b', b'x', b'...', b'a...', b'1', b'']) for _ in range(r.randrange(4))), s(9).replace(b'A', b'a').replace(b'B', b'b'))
    if k == 5:
        return b'#' + r.choice([b'undef ', b'ifdef ', b'ifndef ', b'undef', b'ifdef', b'ifndef']) + r.choice([b'', b'A', b'1', b'F x'])
    if k == 6:
        return b'#if ' + s(8)
    if k == 7:
        return b'#' + r.choice([b'elif', b'else', b'endif', b'elif ' + s(5), b'endif x'])
    if k == 8:
        return b'#endif'
    if k == 9:
        return b'#' + r.choice([b'line', b'line 5', b'line x', b'line 5 "f"', b'line 5 x', b'line 99999999999', b'5', b'5 "f"', b'', b' ', b'pragma', b'pragma once', b'pragma x', b'error', b'error x', b'warning', b'foo', b'12 34', b'line A', b'line "x"'])
    if k == 10:
        return b'#' + r.choice([b'include', b'include "', b'include <', b'include "nosuch.h"', b'include <nosuch.h>', b'include A', b'include x', b'include <x', b'include ""', b'include <>', b'include_next <stddef.h>', b'include_next "x"', b'include "/"', b'include "."', b'include <stddef.h> x', b'include 1', b'include_next', b'include "/dev/null"', b'include <.>', b'include "main.c"'])
    if k == 11:
        return b'# ## ' + s(4)
    return s(12)


def ppfile(r):
    lines = [ppline(r) for _ in range(r.choice([2, 4, 8, 15]))]
    out = b'\n'.join(lines)
    if r.random() < .5:
        out = out.replace(b' ', b'', r.choice([1, 3, 100]))
    return out + (b'\n' if r.random() < .8 else b'')


LEX = [b'"', b'\\', b"'", b'\n', b'\r', b'\t', b' ', b'//', b'/*', b'*/', b'u8"', b'u"', b'U"', b'L"', b"L'", b"u'", b"U'", b'\\x', b'\\x1', b'\\777', b'\\u', b'\\u00e9', b'\\U0001f600', b'\\U', b'\\N', b'\xef\xbb\xbf', b'\xc3\xa9', b'\xe3\x81\x82', b'\xf0\x9f\x98\x80', b'\xff', b'\xc3', b'\xe3\x81', b'\xf0', b'\x80', b'\0', b'0x', b'0b', b'1e', b'1e+', b'.', b'..', b'...', b'1.', b'.5', b'0x1.8p', b'0xp1', b'08', b'1_0', b'999999999999999999999999', b'1ULL', b'1uLl', b'1.0fl', b'@', b'`', b'$', b'a', b'int x = ', b';', b'char *s = ', b'#', b'##', b'#if', b'#define A ', b'A', b'\\\n', b'?', b'??/', b'%:', b'<:', b'x', b'"ab" L"cd"', b'u8"a" u"b"', b'\\\\', b'\\"', b"\\'", b'1 ', b' = ']


def lexical(r):
    return b''.join(r.choice(LEX) for _ in range(r.choice([1, 2, 3, 5, 9, 20])))


def nested(r):
    d = r.choice([5, 50, 300])
    k = r.randrange(14)
    n = b'%d' % d
    if k == 0:
        s = b'int x = ' + b'(' * d + b'1' + b')' * (d - r.choice([0, 0, 1])) + b';'
    elif k == 1:
        s = b'int x' + b'[1]' * min(d, 60) + b';'
    elif k == 2:
        s = b'int f(void) ' + b'{' * d + b'}' * (d - r.choice([0, 0, 1]))
    elif k == 3:
        s = b'int ' + b'*' * d + b'x;'
    elif k == 4:
        s = b'int ' + b'(' * d + b'x' + b')' * d + b';'
    elif k == 5:
        s = b''.join(b'struct { ' for _ in range(d)) + b'int x;' + b'} a;' * d
    elif k == 6:
        s = b'int f(int x) { return ' + b'-~!+' * d + b'x; }'
    elif k == 7:
        s = b'int f(int x) { ' + b'if (x) ' * d + b'; ' + b'}'
    elif k == 8:
        s = b'int x = ' + b'1 ? 2 : ' * d + b'3;'
    elif k == 9:
        s = b'#if 1\n' * d + b'int x;\n' + b'#endif\n' * (d - r.choice([0, 0, 1]))
    elif k == 10:
        s = b''.join(b'#define A%d A%d\n' % (i, i + 1) for i in range(d)) + b'int A0;'
    elif k == 11:
        s = b'int x' + b'[2]' * 4 + b' = ' + b'{' * d + b'1' + b'}' * d + b';'
    elif k == 12:
        s = b'#define F(x) x\nint x = ' + b'F(' * min(d, 60) + b'1' + b')' * min(d, 60) + b';'
    else:
        s = b'int f(int x) { x = ' + b'({ ' * min(d, 60) + b'x;' + b'});' * min(d, 60) + b' }'
    return s + b'\n'
