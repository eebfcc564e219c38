import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
from modelprog import *
import unicodedata

# What every program declares (used by the planted lines).
DECL = '''struct S { int a; char c; int b : 3; int arr[2]; struct S *next; }; union U { int i; float f; }; enum E { E0, E1 = 5 };
struct Inc; typedef int T; extern struct Inc inc; extern int unk[];
int fi(int, int); void vf(void); int va(int, ...); struct S fs(struct S); static int sfun(void); int (*fp)(int);
int gi; static int si; int garr[3]; struct S gs; union U gu; double gd; void *vp; int *gip; const char *str; static int sfun(void) { return 0; }
#define ONE(x) x
#define ID(...) __VA_ARGS__
#define TWO(x, y) (x + y)
#define EMPTY
'''

# (kind, planted text, token the caret must point to or None, valid counterpart)
# kinds: s statement, f file scope, e end of the file, p directive on its own line, l lexical (anywhere)
# @ marks the token in the text.
CAT = []


def C(kind, texts, twin=''):
    for t in texts if isinstance(texts, list) else [texts]:
        CAT.append((kind, t, twin))


# -- names
C('s', ['gi = @undeclared1;', '@undeclared2 = 3;', 'if (gi) @undeclared3();', 'gi = fi(1, @undeclared4);', 'return gi + @undeclared5 * 2;', '{ int local9; } gi = @local9;',
        'gs.a = @undeclared6.x;', 'for (int i9 = 0; i9 < 3; i9++) ; gi = @i9;', 'gi = sizeof(@undeclared7);', 'switch (@undeclared8) { default:; }', 'do ; while (@undeclared9);'], 'gi = 3;')
C('s', ['gi = @undeclfn(1);', '@undeclfn2(gi, 3);'], 'gi = fi(1, 2);')
C('s', ['goto @nolabel;', '{ { goto @nolabel2; } }', 'void *lp = &&@nolabel3;'], 'goto yes; yes:;')
C('s', ['gi = gs.@nomember;', 'gi = gs.next->@nomember2;', 'gu.@nomember3 = 1;', 'gi = fs(gs).@nomember4;'], 'gi = gs.next->a;')
C('s', ['struct S q9 = { .@nomember5 = 1 };', 'struct S q9 = { .a = 1, .@nomember6 = 2 };'], 'struct S q9 = { .a = 1, .c = 2 };')
C('s', ['enum @NoEnum e9;', 'gi = sizeof(enum @NoEnum2);'], 'enum E e9;')
C('s', ['struct @E e9;', 'union @S s9;', 'enum @S s9;', 'struct @U *u9;'], 'struct S s9;')
# -- argument counts
C('s', ['gi = fi(1@);', 'gi = fi(@);', 'gi = fi(gi + (2)@);', 'va(@);', 'fi(fi(1@), 2);'], 'gi = fi(1, va(2));')
C('s', ['gi = fi(1, 2, @3);', 'vf(@1);', 'sfun(@gi);', 'gi = fi(1, fi(1, 2, @4));', 'fp(1, @2);'], 'gi = fi(1, 2); vf(); va(1, 2, 3); fp(1);')
# -- types of operands
C('s', ['*@gi;', 'gi = *@gd;', 'gi = @3[4];', 'gi = *@gs;'], 'gi = *gip;')
C('s', ['gi = *@vp;', '*@vp = 1;'], 'gi = *(int *)vp;')
C('s', ['gi = @gi.a;', 'gi = @gd.a;', 'gi = @gip.a;'], 'gi = gs.a;')
C('s', ['gi = gi->a;', 'gi = gs->a;', 'gi = gd->a;'], 'gi = gs.next->a;')
C('s', ['@3 = gi;', '@gi + 1 = 2;', '@fi(1, 2) = 3;', '@3++;', '(@gi + 1)++;', '&@3;', 'gip = &(@gi + 1);', '@gi++ = 3;', '(@gi = 3)++;', '@3 += gi;'], 'gi += 3;')
C('s', ['@garr = 0;', '@garr = garr;'], 'garr[0] = 0;')
C('s', ['gip = &gs.b;', 'vp = &gs.next->b;'], 'gip = &gs.a;')
C('s', ['gi = gi(3);', 'gi = gs(1);', '3(4);', 'gi = gip(1);'], 'gi = fp(1);')
C('s', ['gip = gip @+ gip;', 'gip = 1 @- gip;', 'gs @+ 1;', 'gi = gs @- gs;', 'gip = gip @+ 1.5;' if False else 'gip = gip @+ gs;'], 'gip = gip + 1; gi = gip - gip;')
C('s', ['switch (@gd) { default:; }', 'switch (@gs) { case 1:; }', 'switch (@gip) { default:; }'], 'switch (gi) { default:; }')
C('s', ['gi = (struct S)gi;' if False else 'gi = fs(gs).a.@b;' if False else 'gi = gs.a.@a;'], 'gi = gs.a;')
# -- declarations
C('s', ['void @v9;', 'int q8, void @v8;' if False else 'void @v7, *v6;'], 'void *v9;')
C('s', ['struct Inc @i9;', 'int @u9[];', 'struct Nope @n9;', 'union Nope2 @n8, *n7;'], 'struct Inc *i9;')
C('s', ['int @;9', 'char *@= 0;', 'int a9, @;'] if False else ['int a9, @;'], 'int a9, b9;')
C('s', ['int a9[@-1];', 'char a9[@3 - 5];', 'int a9[2][@-3];'], 'int a9[3];')
C('s', ['struct Inc a9[@3];'] if False else ['static int v9[@gi];' if False else 'static int v9 = @gi;', 'static int v9 = fi(1, 2);', 'static int *v9 = &garr[@gi];', 'static double v9 = @gd;', 'static long v9 = (long)@gip;'], 'static int v9 = 3 + E1; static int *w9 = &garr[1];')
C('s', ['enum { X9 = @gi };', 'switch (gi) { case @gi: ; }', 'struct { int b9 : @gi; } s9;', '_Alignas(@gi) int a9;', 'int a9[3] = { [@gi] = 1 };', '_Static_assert(@gi, "x");' if False else 'switch (gi) { case 1 ... @gi: ; }'],
  'enum { X9 = 3 }; switch (gi) { case X9: ; case 5 ... 9: ; } struct { int b9 : 2; } s9; int a9[3] = { [2] = 1 };')
C('s', ['enum { X9 = 1 @/ 0 };', 'int a9[2 @/ 0];', 'switch (gi) { case 3 @% 0: ; }', 'static int v9 = 1 @/ (2 - 2);'], 'enum { X9 = 4 / 2 };')
C('s', ['int v9[gi] = @{ 1 };', 'int v9[gi] = @{};'], 'int v9[gi];')
C('s', ['static int @v9[gi];', 'extern int @v9[gi];', 'static int (*@v9)[gi];' if False else 'static int @w9[2][gi];'], 'int v9[gi];')
C('s', ['int a9[2] = { [@2] = 1 };', 'int a9[3] = { 1, [@3] = 2 };', 'int a9[2] = { [@5 ... 6] = 1 };', 'int a9[4] = { [2 ... @4] = 1 };'], 'int a9[3] = { [2] = 1, [0 ... 1] = 2 };')
C('s', ['int a9[4] = { [3 ... 2] = 1 };'], 'int a9[4] = { [2 ... 3] = 1 };')
C('s', ['int i9 = { @.a = 1 };', 'int a9[2] = { @.a = 1 };', 'struct S s9 = { @[0] = 1 };', 'int a9[2][2] = { [0].@a = 1 };'], 'struct S s9 = { .arr[0] = 1 };')
C('s', ['struct S s9 = { .@3 = 1 };'], 'struct S s9 = { .a = 1 };')
C('s', ['struct S9 { int a; }; struct @S9 { int b; };', 'union U9 { int a; } x9; union @U9 { int b; };', 'enum E9 { P9 }; enum @E9 { Q9 };'], 'struct S9 { int a; }; { struct S9 { int b; }; }')
C('s', ['struct { struct Inc @m9; } s9;', 'struct { int a; void @m9; } s9;', 'struct { int m9[]; int @b; } s9;' if False else 'union { struct Inc @m9; int i; } u9;'], 'struct { struct Inc *m9; } s9;')
C('s', ['struct { double b9 : 3; } s9;', 'struct { int b9 : 33; } s9;', 'struct { char b9 : 9; } s9;', 'struct { int b9 : -1; } s9;', 'struct { int *b9 : 2; } s9;'], 'struct { int b9 : 32; char c9 : 8; int : 0; } s9;')
C('s', ['typedef static int T9;', 'static extern int x9;' if False else 'typedef extern int T9;'], 'typedef int T9;')
C('s', ['gi = sizeof(static int);', 'gi = (@static int)gi;' if False else 'gi = sizeof(typedef int);'], 'gi = sizeof(int);')
C('s', ['unsigned float x9;', 'long char x9;', 'short double x9;', 'long long long x9;', 'int double x9;', 'signed _Bool x9;', 'unsigned void *x9;', 'char int x9;'], 'unsigned long long int x9; long double y9;')
C('s', ['_Alignas(@3) int x9;' if False else 'int x9 __attribute__((@nosuch));' if False else 'struct __attribute__((@nosuch)) { int a; } x9;'], 'struct __attribute__((packed)) { int a; } x9;')
C('s', ['int (x9 @3);', 'int (*x9 @3)[2];', 'int *(x9 @int);', 'gi = sizeof(int (* @3)[2]);', 'gi = (long)(int (*@gi)(void))0;'], 'int (x9); int (*y9)[2]; gi = sizeof(int (*)[2]);')
C('s', ['enum { X9 = (long)&@gi };', 'enum { X9 = (long)@garr };', 'switch (gi) { case (long)@garr: ; }', 'switch (gi) { case (long)*&@garr: ; }', 'switch (gi) { case (long)&gs.@a: ; }', 'switch (gi) { case (long)@fi: ; }',
        'switch (gi) { case (long)*@fi: ; }', 'struct { int b9 : (long)&@gi; } s9;', 'int a9[3] = { [(long)@garr] = 1 };', 'switch (gi) { case (long)gs.@arr: ; }', 'switch (gi) { case (long)@"x": ; }'],
  'enum { X9 = (long)sizeof(garr) }; static long y9 = (long)&gi; static long z9 = (long)gs.arr; static long f9 = (long)*fi;')
# -- generic selection
C('s', ['gi = _Generic(gs, int: 1, char: 2);', 'gi = _Generic(@gd, int: 1);'], 'gi = _Generic(gd, int: 1, default: 2);')
# -- statements
C('s', ['@break;', '@continue;', 'if (gi) @break;', 'switch (gi) { default: @continue; }', '{ @continue; }'], 'while (1) { if (gi) break; continue; }')
C('s', ['@case 3:;', '@default:;', '{ @case 4:; }'], 'switch (gi) { case 3:; default:; }')
C('s', ['switch (gi) { case 5 ... 3:; }', 'switch (gi) { case 1 ... 0:; }'], 'switch (gi) { case 3 ... 5:; }')
C('s', ['asm(@3);', 'asm(@gi);', 'asm(@L"nop");', 'asm(@u"nop");', 'asm(@U"nop");'], 'asm("nop");')
C('s', ['goto @3;', 'goto @;'], 'goto yes; yes:;')
# -- syntax
C('s', ['gi = 1 @gi = 2;', 'gi = (1 @;', 'gi = 1 @) + 2;', 'fi(1, 2 @;', 'garr[1 @= 3;', 'gi = 1 + @;', 'gi = @* ;', 'gi = gi ? 1 @;', 'gi = @];', 'if @gi) ;', 'if (gi @{ }', 'while (gi @;', 'while @;',
        'for (gi = 0 @) ;', 'for (;; @;', 'do ; @gi = 1;', 'do ; while (gi) @}', 'switch @gi { }', 'return 1 @2;', 'break @3;' if False else 'gi = 3 @4;', 'int x9 @y9;', 'int x9 = @;', 'int (x9 @;', 'int x9[3 @;',
        'int a9[2] = { 1 @2 };', 'int a9[] = { 1, 2 @;', 'struct { int a @} s9;', 'struct { int a; @) s9;', 'enum { A9 @B9 };', 'enum { @3 };', 'gi = sizeof @;', 'gi = (int @3;', 'gs.@3 = 1;', 'gs.next->@3 = 1;', 'fi(@, 2);', 'fi(1, @);',
        'gi = fi(1 @2);', '@else ;', 'gi = @if;', '@) ;', 'goto yes @yes:;', 'gi @@ 3;' if False else 'gi = 1 @! 2;', 'gi = 1 @~ 2;', 'typedef int @;9' if False else 'gi = @= 3;', 'gi = _Generic(1 @);', 'gi = _Alignof @gi 3;' if False else 'gi = (@)3;',
        'gi = ({ 3 @});' , 'asm("nop" @;', 'gi = @, 3;', 'int fn9(int @3);' if False else 'gi = &@;'], 'gi = (1 + garr[1]) * fi(1, 2) ? 2 : ({ 3; });')
# -- file scope
C('f', ['int @f9 { return 0; }', 'int f9(void) @return 0; }', 'int f9(int a@; int b) { return a; }', '@3;', 'int x9 @y9;', 'struct S9 { int a; } @3;', '@if (1) ;', '@};', 'int x9 = @;', 'int f9(void @{ }',
        'return@ 3;' if False else '@return 3;'], 'int f9(int a, int b) { return a; }')
C('f', ['int x9 = @gi;', 'int x9 = @undeclared1;', 'int x9 = fi(1, 2);', 'int *x9 = &garr[@gi];', 'int x9 = 1 @/ 0;', 'int a9[2] = { @gi };', 'struct S s9 = { .a = @gi };', 'char c9 = (char)&@gi;' if False else 'long x9 = @gip[0];'], 'int x9 = 3; int *y9 = &garr[1];')
C('f', ['void @v9;', 'struct Inc @i9 = { };' if False else 'struct Nope @n9;' if False else 'void @v8 = 3;', 'int @v9[gi];', 'int @v9[3][gi];'], 'void *v9; struct Inc *i9;')
C('f', ['int f9(int) @{ return 0; }', 'int f9(int a, @char) { return a; }'] if False else [], '')
C('f', ['int f9(int a) { return 0; } int @f9(int a) { return 1; }', 'int sfun(void)@;' if False else 'int f8(void); static int @f8(void) { return 0; }'], 'int f9(int a); int f9(int a) { return 0; }')
C('f', ['struct S9 { int a; }; struct @S9 { int b; };', 'enum E9 { P9 }; enum @E9 { Q9 };'], 'struct S9 { int a; };')
C('f', ['int x9 = ({ 3; });', 'void *p9 = &&@lab;'], 'int x9 = 3;')
C('f', ['int f9(void) { return @a9; } int a9;', 'int f9(void) { return @f8(); } int f8(void) { return 0; }', 'int f9(int p9) { return p9; } int f8(void) { return @p9; }', 'int f9(void) { int l9 = 1; return l9; } int x9 = @l9;'], 'int a9; int f9(void) { return a9; }')
# -- directives
C('p', ['#@nosuch', '#@includ "x.h"', '#@', '#  @foo bar'] if False else ['#@nosuch', '#@includ "x.h"', '#  @foo bar'], '#pragma whatever')
C('p', ['#@error planted', '#  @error', '#if 1\n#@error in group\n#endif'], '#if 0\n#error\n#endif')
C('p', ['#include @"nosuchfile.h"', '#include @<nosuchfile.h>', '#include @3', '#include @', '#include @foo', '#define NF9 "nosuch9.h"\n#include @NF9', '#include_next @<nosuchfile.h>',
        '#include <stddef.h@\nstatic int q9 = 3 > 2;', '#define IN9 <stddef.h\n#include IN9@\nstatic int q9 = 3 > 2;', '#include_next <stddef.h@\nstatic int q9 = 3 > 2;'], '#include <stddef.h>')
C('p', ['#@else', '#@endif', '#@elif 1', '#if 1\n#else\n#@else\n#endif', '#if 0\n#else\n#@elif 1\n#endif', '#if 0\n#endif\n#@endif'], '#if 1\n#else\n#endif')
C('p', ['#@if 1', '#@ifdef X9', '#@ifndef X9', '#if 0\n#endif\n#@if 1\n#else', '#@if 0'], '#ifdef X9\n#endif')
C('p', ['#define @3', '#define @', '#define @"x"', '#define @+ 3', '#undef @3', '#undef @', '#ifdef @3\n#endif', '#ifndef @\n#endif', '#ifdef @\n#endif'], '#define X9 3\n#undef X9')
C('p', ['#define F9(a @b) a', '#define F9(@3) a', '#define F9(a, @', '#define F9(a, ..., @b) a' if False else '#define F9(a, @+) a', '#define F9(@, b) 3'], '#define F9(a, b) a')
C('p', ['#define F9(a) #@b\nF9(1)', '#define F9(a) # @3\nF9(1)'], '#define F9(a) #a')
C('p', ['#if @\n#endif', '#if 1 @2\n#endif', '#if (1 @\n#endif', '#if 1 + @\n#endif', '#if 1 @) + 1\n#endif', '#if 0\n#elif @\n#endif', '#if 1 @/ 0\n#endif', '#if defined @3\n#endif', '#if defined(X9 @\n#endif', '#if @= 3\n#endif'], '#if 1 + (2) && !defined(X9)\n#endif')
C('p', ['#line @foo', '#line @', '#line 3 @foo', '#line @"x"'], '#line 7')
C('p', ['#define F9 @## a\nF9', '#define F9 a @##\nF9', '#define F9(x) x @##\nF9(1)', '#define F9(x) @## x\nF9(1)'], '#define F9(a, b) a ## b')
C('p', ['#define F9() 3\nint q9 = F9(@1);', '#define F9(a) a\nint q9 = F9(1, @2);', '#define F9(a, b) a\nint q9 = F9(1@);'], '#define F9(a, b) a\nint q9 = F9(1, 2);')
# -- lexical
C('l', ['@"unclosed', "@'u", "@'", "@'ab", 'L@"unclosed', 'gi = @\'\\', '@"abc\\"'] if False else ['@"unclosed string;', "@'u;", '@"abc\\";'], '"closed"; \'c\';')
C('l', ['gi = @1x;', 'gi = @0xg;', 'gi = @0b2;', 'gi = @1.5q;', 'gi = @12abc;', 'gi = @1e;' if False else 'gi = @09z;', 'gi = @1.2.3;', 'gi = @0x1.8;' if False else 'gi = @1ulll;', 'gi = @3luz;'], 'gi = 0x1f + 017 + 1.5e3 + 0b11 + 1ul;')
C('l', ['gi = "\\x@";' if False else 'gi = 3 @` 4;', 'gi = 3 @\x01 4;', 'gi = 3 @\x7f;'], 'gi = 3;')
C('l', ['str = "\\x@";', "gi = '\\x@';", 'str = "\\x@g";'], 'str = "\\x41";')

C('s', ['gi = sizeof(%s"a" %s@%s"b");' % (a, m, b) for a in ('u8', 'u', 'U', 'L') for b in ('u8', 'u', 'U', 'L') if a != b for m in ('', '"x" ')],
  'gi = sizeof(u8"a" "b" u8"c") + sizeof("x" u"a" u"b") + sizeof(U"a" "" U"c") + sizeof(L"a" L"b" "c");')

# -- more constraints
C('s', ['static int x9 = gs.@a;', 'static int *x9 = &gs.next->@a;', 'static int x9 = *@gip;', 'static int x9 = garr[@1];', 'int l9; static int *x9 = &@l9;', 'int l9[2]; static int *x9 = @l9;', 'struct S l9; static int *x9 = &l9.@a;', 'static int *x9 = (int *)@gip;', 'static int x9 = @gi ? 1 : 2;', 'static int x9 = @gi && 1;', 'static int x9 = -@gi;', 'static int x9 = (@gi = 3);', 'static int x9 = @gi++;', 'static double x9 = 1.0 + @gd;', 'static double x9 = (double)@gi;', 'static int x9 = (int)@gd;', 'static char x9[2] = { 1, @gi };', 'static struct S x9 = { 1, .b = @gi };', 'static int x9 = ~@gi;', 'static int x9 = !@gi;', 'static int x9 = (1, @gi);', 'static int x9 = 1 ? @gi : 2;', 'static int x9 = 0 || @gi;', 'static long x9 = (long)&gi * @2;', 'static long x9 = -(long)&@gi;', 'static long x9 = (long)&gi + (long)&@gi;'],
  'static int x9 = 1 ? 2 : 3; static int *y9 = &gs.a; static int *z9 = gs.arr + 1;')
C('s', ['_Alignas(@3) int x9;', '_Alignas(@-4) int x9;', '_Alignas(@12) char x9;', 'struct { _Alignas(@6) int a; } s9;', '_Alignas(@8 + 1) static int x9;'],
  '_Alignas(16) int x9; _Alignas(long) char y9;')
C('s', ['gi = sizeof(_Alignas(8) int);', 'gi = ((@_Alignas(8) int)gi);'],
  'gi = sizeof(int);')
C('s', ['extern struct Inc a9@[];', 'extern struct Inc a9[@3];', 'struct Inc (*p9)[@3];', 'struct Nope9 a9[@2];', 'void a9[@3];', 'gi = sizeof(void [@3]);', 'extern int a9[2][@];', 'int a9[@][];', 'extern void a9[@];', 'struct Inc a9[@] = {};'],
  'struct Inc *a9[3]; extern int b9[][2];')
C('s', ['int fa9(int)[3];', 'int fa9(int)(int);', 'int a9[2](int);', 'int (*pa9)[2](void);'],
  'int (*fa9(int))[3]; int (*b9[2])(int);')
C('s', ['char a9[3] = @L"ab";', 'int a9[3] = @"ab";', 'short a9[3] = @"ab";', 'char a9[] = { @u"ab" };', 'struct { int a[3]; } s9 = { @"ab" };', 'double a9[2] = @"a";', 'long a9[] = @L"ab";'],
  'int a9[3] = L"ab"; char b9[] = "ab"; unsigned short c9[] = u"ab";')
C('s', ['int a9[2] = { [0]@[0] = 1 };', 'int a9[] = { [0]@[1] = 1 };', 'int a9[] = { [@-1] = 1 };', 'int a9[] = { [@-1 ... 2] = 1 };', 'struct S s9 = { .a@[0] = 1 };', 'struct S s9 = { .arr[@2] = 1 };', 'struct S s9 = { .arr@.a = 1 };', 'struct S s9 = { .a@.b = 1 };'],
  'struct S s9 = { .arr[1] = 1 }; int a9[] = { [2] = 1, [0 ... 1] = 2 };')
C('s', ['int x9 = { 1 @2 };', 'gi = (int){ 1 @;', 'int x9[2] = @3;', 'struct S s9 = @3;', 'struct S s9 = @gu;', 'int x9[2] = @garr;', 'char x9[2] = @str;'],
  'int x9 = { 1 }; struct S s9 = gs; union U u9 = gu; int y9[2] = { 3 };')
C('f', ['struct Nope9 @x9;', 'static struct Nope9 @x9;', 'struct Nope9 @x9; int y9;', 'union Nope9 @x9, *y9;'],
  'struct N9 x9; struct N9 { int a; };')
C('f', ['typedef int @T9[gi];', 'typedef int (*@T9)[gi];', 'int x9 = sizeof(@int[gi]);', 'int (*@x9)[gi];', 'struct { int @a[gi]; } s9;'],
  'typedef int T9[3];')
C('f', ['extern int f9(void) = @3;', 'int f9(void) @= 0;', 'typedef int T9 @= 3;', 'typedef struct { int a; } T9 @= {};'],
  'int f9(void); typedef int T9;')
C('p', ['#define F9(a, b) a ## b\nint q9 = @F9(+, /);', '#define F9(a, b) a ## b\nconst char *q9 = @F9("a", "b");', '#define F9(a, b) a ## b\nint q9 = @F9(x, +);', '#define F9(a, b) a ## b\nint q9 = @F9(1, =);'],
  '#define F9(a, b) a ## b\nint q9 = F9(1, 2);')
C('p', ['#define F9(a@\nint q9;', '#define F9(a,@\nint q9;', '#define F9(...@\nint q9;', '#define F9(... @a) a\nint q9;', '#define F9(..., @a) a\nint q9;'],
  '#define F9(a, ...) a\nint q9;')
C('s', ['str = L"a" @u"b";', 'str = u"a" @U"b";', 'str = L"a" "b" @u"c";', 'str = u8"a" @L"b";', 'str = "x" L"a" @U"b";'],
  'gip = L"a" "b" L"c"; str = "a" u8"b";')
C('l', ["gi = @'", "gi = @''", "gi = @'a", "gi = L@'", "gi = u@'a"],
  "gi = 'a';")
C('e', ['@/* never closed', 'gi = 3; @/* never * / closed /', 'gi = 3 @/*/ 2;'],
  '/* closed */ int c9; /*/*/')
C('s', ['gi = ({ @});'],
  'gi = ({ int x9 = 3; x9; });')
C('s', ['gi = 1 + @vf();', 'switch (@vf()) { default:; }', 'garr[@vf()] = 1;'],
  'vf(); gi = (vf(), 1); (void)vf(); gi ? vf() : vf();')
C('s', ['gi = 1 + @gs;', '@gs++;', '--@gs;', '@gs += 1;', 'garr[@gs] = 1;'],
  'gs = fs(gs); gi = gs.a;')
C('s', ['gi = @gd % 2;', 'gi = 2 % @gd;', 'gi = @gd & 1;', 'gi = @gd << 1;', 'gi = @gd ^ 2;', 'gi = 1 | @gd;', '@gd %= 2;', '@gd <<= 1;', '@gi |= gd;', 'gi = garr[@gd];', 'gip = gip + @gd;', 'gip = @gd + gip;', 'gip += @gd;'],
  'gi = gi % 2 & 1 << gi; gd = gd / 2; gip = gip + 1; gi = gip == vp;')
C('s', ['gi = inc.@x;', 'struct Inc *p9; p9->@x;', 'struct Inc @f9(void); gi = f9().a;'],
  'struct Inc *p9; gi = sizeof(struct Inc *); p9 = &inc;')
C('s', ['switch (gi) { case @: ; }', 'switch (gi) { case 1 @; }', 'switch (gi) { default @; }', 'switch (gi) { case 1 ... @: ; }', 'for (int i9 = 0, @; i9 < 3; i9++) ;', 'for (int i9 @: 3) ;', 'if () ;', 'while (@) ;', 'do { } while (@);', 'do { } while (gi) @gi = 3;', 'do { } @gi = 3;', 'for @;', 'switch (@) { }', 'return @return;', 'goto *@;', 'yes @yes: ;', '@: ;'],
  'for (int i9 = 0, j9 = 1; i9 < 3; i9++) ; do { } while (gi); goto *vp;')
C('s', ['typeof @gi x9;', 'typeof(@) x9;', 'typeof(int @gi) x9;', 'typeof(@undeclared1) x9;', '_Alignas @8 int x9;', '_Alignas(@) int x9;', '_Atomic(int @ x9;', 'gi = _Generic(@);', 'gi = _Generic(gi, @);', 'gi = _Generic(gi, int @1);', 'gi = _Generic(gi, int: 1, @);', 'gi = _Generic(gi, default @2);', 'gi = __builtin_types_compatible_p(int @);', 'gi = __builtin_types_compatible_p(int, @3);', 'gi = (int) { @;', 'gi = ((int) @) + 1;', 'gi = sizeof(int) @2;', 'gi = sizeof @int;'],
  'typeof(gi) x9; _Alignas(8) int y9; gi = _Generic(gi, int: 1, default: 2); gi = __builtin_types_compatible_p(int, T); gi = (int){ 3 };')
C('s', ['gi = __builtin_atomic_exchange(@gi, 1);', 'gi = __builtin_compare_and_swap(@gi, &gi, 1);', 'gi = __builtin_compare_and_swap(&gi, @gi, 1);', 'gi = __builtin_atomic_exchange(&gi @);', 'gi = __builtin_compare_and_swap(&gi, &gi @);', 'gi = __builtin_atomic_exchange(@&gs, 1);'],
  'gi = __builtin_atomic_exchange(&gi, 1); gi = __builtin_compare_and_swap(&gi, &gi, 1);')


# keywords where a name has to be
KEYWORDS = ('auto break case char const continue default do double else enum extern float for goto if inline int long register restrict return short signed sizeof static '
            'struct switch typedef union unsigned void volatile while _Alignas _Alignof _Atomic _Bool _Generic _Noreturn _Thread_local').split()
NAMES = [('s', 'int *@%s = 0;', 'int *%s = 0;'), ('s', 'gs.@%s = 1;', ''), ('s', 'struct @%s { int a; };', 'struct %s { int a; };'), ('s', 'enum @%s { X9 };', 'enum %s { X9 };'),
         ('s', 'goto @%s;', ''), ('s', 'enum { @%s };', 'enum { %s };'), ('f', 'int *@%s = 0;', 'int *%s = 0;'), ('f', 'int *@%s(void) { return 0; }', 'int *%s(void) { return 0; }'),
         ('s', 'struct S s9 = { .@%s = 1 };', ''), ('s', 'gi = @%s;', ''), ('s', '{ goto @%s; %s: ; }', '{ goto %s; %s: ; }'), ('s', 'void *p9 = &&@%s;', ''), ('f', 'union @%s;', 'union %s;'),
         ('f', 'typedef int *@%s;', 'typedef int *%s;')]
KWCAT = []
for i_, kw_ in enumerate(KEYWORDS):
    for j_, (k_, t_, v_) in enumerate(NAMES):
        if (kw_ in ('const', 'volatile', 'restrict', '_Atomic') and 'typedef' in t_) or (kw_ == 'default' and '%s:' in t_):
            continue
        KWCAT.append((k_, t_.replace('%s', kw_), v_.replace('%s', kw_ + '9')))


def width(s):
    w = 0
    for c in s:
        if unicodedata.combining(c):
            continue
        w += 2 if unicodedata.east_asian_width(c) in 'WF' else 1
    return w


class Layout:
    """a program as list of files, lines numbered by construction"""
    def __init__(self, r, plant, cov):
        self.r, self.cov = r, cov
        kind, text, twin = plant
        self.files = {}
        self.n = 0
        self.where = None       # (file, line of the marked token, text of that line, column or None)
        self.kind = kind
        self.text = text

    def fresh(self):
        self.n += 1
        return 'z%d' % self.n

    def fill_file(self):
        r = self.r
        k = r.randrange(13)
        n = self.fresh()
        if k == 0:
            return ['']
        if k == 1:
            return ['/* several', ' * lines "of', "   comment' */"]
        if k == 2:
            return ['// comment \\', 'continued']
        if k == 3:
            return ['int %s; /* x */ static int %ss = 3;' % (n, n)]
        if k == 4:
            return ['#define %s(a, b) a + \\' % n, '\tb + \\', '\t3']
        if k == 5:
            return ['#if 0', 'garbage ) } undeclared', '#nosuch directive', '#else', 'int %s;' % n, '#endif']
        if k == 6:
            return ['int \\', '%s\\' % n[:1], '%s = \\' % n[1:], '3;']
        if k == 7:
            return ['static int %s(int a) {' % n, '\treturn a + 1;', '}']
        if k == 8:
            return ['struct %s {' % n, '\tint a, b;', '\tstruct %s *next;' % n, '};']
        if k == 9:
            return ['static const char *%s = "a\\' % n, 'b" "c"', ' "d";']
        if k == 10:
            return ['#line %d "presumed.c"' % r.randrange(1, 500)]
        if k == 11:
            return ['\t', '\f', '   ']
        h = n + '.h'
        self.files[h] = [x for _ in range(r.randrange(0, 4)) for x in self.plain()]
        return ['#include "%s"' % h]

    def plain(self):
        r = self.r
        return r.choice([[''], ['int %s;' % self.fresh()], ['/*', '*/'], ['// c'], ['#define %s \\' % self.fresh(), '1']])

    def fill_stmt(self):
        r = self.r
        k = r.randrange(11)
        n = self.fresh()
        return [[''], ['gi = fi(gi,', '\t', '\t3);'], ['/* c', '*/ gi++;'], ['if (gi) {', '\tgi = 3;', '} else', '\tgi--;'], ['int %s = gi \\' % n, ' + 1;'], ['#ifdef NOPE', 'undeclared(', '#endif'],
                ['for (int i = 0;', ' i < 3;', ' i++)', ' gi += i;'], ['str = "x\\n\\', 'y";'], ['gi = TWO(gi,', '3', ');'], ['#define %s 3' % n, 'gi = %s;' % n, '#undef %s' % n], ['str = "a"', '"b" // "', '"c";']][k]

    def build(self, planted):
        """returns the files; planted: text with @, or the twin"""
        r, kind = self.r, self.kind
        out = DECL.rstrip('\n').split('\n')
        mark = '@' in planted and '@' in self.text
        # what the violation is wrapped in (same physical line)
        lines = planted.split('\n')
        first = lines[0]
        if kind in 's' or (kind == 'l'):
            pre = r.choice(['', '', '', 'gi = 1; ', 'int %s = 2; ' % self.fresh(), '/* c */ ', 'gi = 1; /* \u3042 */ ', 'str = "\u00e9\u3042"; '])
            ind = r.choice(['', '  ', '    '])
            lines[0] = ind + pre + lines[0]
            bal = planted.replace('@', '')
            if kind == 's' and r.random() < .2 and bal.count('(') == bal.count(')') and bal.count('{') == bal.count('}') and bal.count('[') == bal.count(']') and bal.rstrip().endswith(';'):
                self.cov.add('in a macro argument')
                lines[0] = ind + pre + 'ID(' + lines[0][len(ind + pre):] + ')'
            lines[-1] += r.choice(['', '', ' gi = 2;', ' // c']) if kind == 's' else ''
        elif kind == 'f':
            lines[0] = r.choice(['', '', 'int %s; ' % self.fresh(), '/* c */ ']) + lines[0]
        self.col0 = lines[0].index(first)
        body = []
        for _ in range(r.randrange(0, 8)):
            body += self.fill_file()
        tail = []
        for _ in range(r.randrange(0, 4) if kind != 'e' else 0):
            tail += self.fill_file()
        if kind in 'sl' or (kind == 'p' and r.random() < .4 and 'int q9' not in planted):
            f = ['static int fun(int par)', '{'] if r.random() < .5 else ['static int fun(int par) {']
            close = ['\treturn 0;', '}']
            for _ in range(r.randrange(0, 5)):
                f += self.fill_stmt()
            for _ in range(r.randrange(0, 3)):
                w = r.choice(['if (par) {', '{', 'while (gi < 3) {', 'for (;;) {', 'switch (gi) { case 1: default: {'])
                if re.search('break|continue|case|default', planted) and w not in ('if (par) {', '{'):
                    w = '{'
                f.append(w)
                f += self.fill_stmt()
                close.insert(0, '}' if 'switch' not in w else '} }')
            g = []
            for _ in range(r.randrange(0, 3)):
                g += self.fill_stmt()
            body += f
            after = g + close
        else:
            after = []
        # into an included file?
        place = r.random()
        name = 'main.c'
        if place < .3:
            self.cov.add('in an included file')
            h = self.fresh() + '.h'
            head = []
            for _ in range(r.randrange(0, 4)):
                head += self.fill_stmt() if after else self.plain()
            self.files[h] = head + ['\x00'] + [x for x in ([''] if r.random() < .5 else [])]
            main = out + body + ['#include "%s"' % h] + after + tail
            self.files['main.c'] = main
            name = h
        else:
            self.files['main.c'] = out + body + ['\x00'] + after + tail
        ls = self.files[name]
        at = ls.index('\x00')
        res = None
        for i, l in enumerate(lines):
            if '@' in l and mark:
                res = (name, at + 1 + i, l.replace('@', '', 1), (self.col0 if i == 0 else 0, len(l)))
        if mark and res is None:
            res = (name, at + 1, lines[0], (self.col0, len(lines[0])))
        new = [l.replace('@', '', 1) if mark and res and at + 1 + i == res[1] and res[3] is not None else l for i, l in enumerate(lines)]
        ls[at:at + 1] = new
        return res or (name, at + 1, lines[0], (self.col0, len(lines[0])))


def encode(r, lines, cov):
    nl = '\n'
    if r.random() < .15:
        nl = '\r\n'
        cov.add('CRLF')
    t = nl.join(lines)
    if r.random() < .9:
        t += nl
    b = t.encode('utf8', 'surrogateescape')
    if r.random() < .08:
        b = b'\xef\xbb\xbf' + b
        cov.add('BOM')
    return b


def places(files, name, line):
    """the ways to name a line: (file, number) in the file, or as presumed after #line"""
    res = [(name, line)]
    for i, l in enumerate(files[name][:line - 1]):
        m = re.match(r'#line (\d+) "(.*)"', l)
        if m:
            n = line + int(m[1]) - (i + 1)
            res[1:] = [(m[2], n), (m[2], n - 1)]
    return res


def rejected(ctx, q, cat=CAT):
    r = ctx.sub('reject', q, len(cat))
    plant = cat[q % len(cat)]
    kind, text, twin = plant
    cov = set()
    L = Layout(r, plant, cov)
    name, line, ltext, col = L.build(text if '@' in text else text)
    d = ctx.uniq('e')
    src = {}
    for f, ls in L.files.items():
        src[f] = encode(r, ls, cov)
        open(os.path.join(d, f), 'wb').write(src[f])
    mode = r.choice(['-S', '-S', '-c'])
    stdin = name == 'main.c' and r.random() < .08 and '.h' not in text
    out = os.path.join(d, 'out.o')
    if stdin:
        x = run([ctx.toycc(), mode, '-o', out, '-xc', '-'], 30, cwd=d, inp=src['main.c'])
        cov.add('standard input')
    else:
        given = r.choice(['main.c', './main.c', os.path.join(d, 'main.c')])
        x = run([ctx.toycc(), mode, '-o', out, given], 30, cwd=d)
    err = txt(x.err)
    key = None
    # what misses at the end of a directive may be reported where the next token is
    openend = kind == 'p' and re.search('@$', text, re.M)
    ctx.count()
    lines = err.split('\n')
    m = re.match(r'(.*):(\d+):$', lines[0]) if lines else None
    if x.timed_out:
        key = 'the compiler does not terminate on: ' + text
    elif x.rc == 0:
        key = 'invalid program accepted: ' + text
    elif x.rc != 1 or not err.strip():
        key = 'invalid program ends with status %s and %s: %s' % (x.rc, 'a message' if err.strip() else 'no message', text)
    elif os.path.exists(out):
        key = 'output left for an invalid program: ' + text
    elif not m:
        key = 'the diagnostic names no position: %s: %s' % (text, lines[0][:100])
    elif (os.path.basename(m[1]) if m[1] not in ('-', '<stdin>') or not stdin else 'main.c', int(m[2])) not in places(L.files, name, line) and not openend:
        key = 'the diagnostic does not name the place of: ' + text
    elif not re.match(r' *\^ .', lines[2] if len(lines) > 2 else ''):
        key = 'no message after the position: ' + text
    elif openend:
        pass
    elif lines[1].strip() != ltext.strip():
        key = 'the quoted line is not the one of the violation: ' + text
    elif '\t' not in ltext and not width(ltext[:col[0]]) <= lines[2].index('^') <= width(ltext[:col[1]]):
        key = 'the caret points elsewhere: ' + text
    if key:
        ctx.violate(key, 'planted at %s:%d (column %s), mode %s\n%s\n--- diagnostics (status %s)\n%s' % (name, line, col, mode, ltext, x.rc, err[:1500]),
                    {f.replace('/', '_'): b for f, b in src.items()})
    else:
        ctx.seen(text, *cov)
        ctx.sample({'planted': text, 'at': '%s:%d' % (name, line), 'diagnostic': lines[:3]})
    shutil.rmtree(d, ignore_errors=True)


def accepted(ctx, q, cat=CAT):
    """the valid counterparts in the same places"""
    r = ctx.sub('accept', q, len(cat))
    kind, text, twin = cat[q % len(cat)]
    if not twin:
        return
    cov = set()
    L = Layout(r, (kind, twin, twin), cov)
    if kind == 'l':
        twin += ' ;'
    L.build(twin)
    d = ctx.uniq('a')
    src = {}
    for f, ls in L.files.items():
        src[f] = encode(r, ls, cov)
        open(os.path.join(d, f), 'wb').write(src[f])
    x = run([ctx.toycc(), '-S', '-o', 'out.s', 'main.c'], 30, cwd=d)
    ctx.count()
    if x.rc != 0:
        g = run([RVGCC, '-w', '-std=gnu11', '-S', '-o', 'g.s', 'main.c'], 30, cwd=d)
        if g.rc == 0:
            ctx.violate('valid program rejected: %s: %s' % (twin, summarize(x.err)), txt(x.err)[:2000], {f: b for f, b in src.items()})
        else:
            ctx.inconcl('the reference rejects the counterpart %s: %s' % (twin, txt(g.err)[:300]))
    else:
        ctx.seen('valid ' + twin)
    shutil.rmtree(d, ignore_errors=True)


class Marked:
    """a valid program in which every call of mk() is on a line known by construction"""
    def __init__(self, r):
        self.r = r
        self.ids = 0
        self.files = {'main.c': []}
        self.cur = 'main.c'
        self.line = ['']            # line being written, per open file
        self.at = {}                # id -> (file, first line, last line, presumed)
        self.v = 0
        self.nh = 0
        self.delta = {}             # file -> (name, number - line)

    # -- text
    def lines(self):
        return self.files[self.cur]

    def no(self):
        return len(self.lines()) + 1

    def nl(self):
        self.lines().append(self.line[-1])
        self.line[-1] = ''

    def fresh(self):
        """start a new line"""
        if self.line[-1].strip() or (self.lines() and self.lines()[-1].endswith('\\')):
            self.nl()
        self.line[-1] = ''

    def logical(self):
        """first line of the logical line being written"""
        n = self.no()
        while n > 1 and self.lines()[n - 2].endswith('\\'):
            n -= 1
        return n

    def own(self, t):
        self.fresh()
        for l in t.split('\n'):
            self.lines().append(l)

    def gap(self):
        r = self.r
        k = r.random()
        if k < .72:
            self.line[-1] += ' '
        elif k < .86:
            self.nl()
        elif k < .89:
            self.line[-1] += ' // \'c"'
            self.nl()
        elif k < .92:
            self.line[-1] += '/* c'
            for _ in range(r.randrange(3)):
                self.nl()
            self.line[-1] += '*/'
        elif k < .95:
            self.line[-1] += ' \\'
            self.nl()
        elif k < .965:
            self.nl()
            self.own(r.choice(['#if 0\nmk(\n#else\n#endif', '#define Z%d 1 \\\n 2' % r.randrange(9999), '', '#pragma x', '#ifdef NOPE\n)\n#endif', '#if 1 \\\n && 1\n#endif']))
        elif k < .97 and len(self.line) == 1:
            self.nl()
            n, f = r.randrange(1, 900), r.choice(['gram.y', 'other.c', ''])
            self.own('#line %d%s' % (n, ' "%s"' % f if f else ''))
            old = self.delta.get(self.cur, (None, 0))
            self.delta[self.cur] = (f or old[0], n - len(self.lines()))
        else:
            self.line[-1] += '\t'

    def put(self, *toks):
        for t in toks:
            if callable(t):
                t()
            else:
                for w in t.split():
                    self.gap()
                    self.line[-1] += w

    def mk(self):
        self.ids += 1
        i = self.ids
        k = self.r.random()
        self.gap()
        a, a0 = self.no(), self.logical()
        if k < .55:
            self.line[-1] += 'mk(%d, __LINE__)' % i
            l = a
        elif k < .65:
            self.line[-1] += 'CAT(m, k)(%d, __LINE__)' % i
            l = a
        elif k < .75:
            self.line[-1] += 'ID(mk(%d, __LINE__))' % i
            l = a
        elif k < .85:
            self.line[-1] += '(mk)(%d, 0)' % i
            l = None
        else:
            self.line[-1] += 'mk'
            self.gap2()
            self.line[-1] += '('
            self.gap2()
            self.line[-1] += '%d,' % i
            self.gap2()
            self.line[-1] += '0'
            self.gap2()
            self.line[-1] += ')'
            l = None
        self.at[i] = (self.cur, a0, self.no(), l and (a0, l), self.delta.get(self.cur))

    def gap2(self):
        if self.r.random() < .3:
            self.nl()

    # -- grammar
    def expr(self, d=0):
        r, m, e = self.r, self.mk, lambda: self.expr(d + 1)
        k = r.randrange(13) if d < 3 else 0
        if k < 2:
            m()
        elif k == 2:
            self.put('(', e, r.choice(['+', '-', '*', '|', '<', '==', '&&', '||', ',']), e, ')')
        elif k == 3:
            self.put('(', e, '?', e, ':', e, ')')
        elif k == 4:
            self.put('id', '(', e, ',', e, ')')
        elif k == 5:
            self.put('(', 'gi', r.choice(['=', '+=', '-=', '|=']), e, ')')
        elif k == 6:
            self.put('( {', lambda: self.stmt(d + 1), e, '; } )')
        elif k == 7:
            self.put(r.choice(['-', '!', '~', '( int )', '( long )']), e)
        elif k == 8:
            self.put('ga [', e, '& 3 ]')
        elif k == 9:
            self.put('( ( struct P ) { .a =', e, ',', e, '} ) . a')
        elif k == 10:
            self.put('fp', '(', e, ',', e, ')')
        elif k == 11:
            self.put('TWO (', 'gi ,', e, ')') if False else self.put('( gi ++ ,', e, ')')
        else:
            m()

    def stmt(self, d=0):
        r, e, s = self.r, lambda: self.expr(1), lambda: self.stmt(d + 1)
        k = r.randrange(16) if d < 3 else 0
        self.v += 1
        v = 'v%d' % self.v
        if k < 3:
            self.put(e, ';')
        elif k == 3:
            self.put('if (', e, ') {', s, '} else {', s, '}')
        elif k == 4:
            self.put('for ( int %s =' % v, e, '& 1 ; %s < 2 &&' % v, e, '| 1 ; %s ++ ,' % v, e, ')', '{', s, '}')
        elif k == 5:
            self.put('{ int %s = 0 ; while ( %s ++ < 1 &&' % (v, v), e, '| 1 )', s, '}')
        elif k == 6:
            self.put('{ int %s = 0 ; do' % v, s, 'while ( (', e, '& 0 ) + %s ++ < 1 ) ; }' % v)
        elif k == 7:
            self.put('switch (', e, ') { case 1 :', s, 'break ; default :', s, '}')
        elif k == 8:
            self.put('{ int %s =' % v, e, ', %sb =' % v, e, ';', s, '}')
        elif k == 9:
            self.put('{ int %s [ ] = {' % v, e, ', [ 2 ] =', e, '} ;', s, '}')
        elif k == 10:
            self.put('{ struct P %s = { .b =' % v, e, ', .a =', e, '} ;', s, '}')
        elif k == 11:
            self.put('%s :' % v, s)
        elif k == 12:
            self.put('{ if ( 0 & ', e, ') goto %s ;' % v, s, '%s :' % v, e, '; }')
        elif k == 13 and len(self.line) == 1:
            self.header(s)
        else:
            self.put('{', s, s, '}')

    def header(self, f):
        self.nh += 1
        h = 'h%d.h' % self.nh
        self.fresh()
        old = self.cur
        self.files[h] = []
        self.cur = h
        self.line.append('')
        f()
        self.nl()
        self.line.pop()
        self.cur = old
        self.lines().append('#include "%s"' % h)

    def function(self, n):
        self.put('static int f%d ( int par ) {' % n)
        for _ in range(self.r.randrange(1, 6)):
            self.put(lambda: self.stmt(0))
        self.put('return', lambda: self.expr(1), '; }')

    def program(self):
        self.lines().extend(['long mk(long, long); static int gi, ga[4]; struct P { int a, b; };', '#define CAT(a, b) a##b', '#define ID(...) __VA_ARGS__',
                             'static int id(int a, int b) { return 1; } static int (*fp)(int, int) = id;'])
        n = self.r.randrange(1, 4)
        for i in range(n):
            if self.r.random() < .3:
                self.header(lambda: self.function(i))
            else:
                self.function(i)
        self.fresh()
        self.lines().append('int main(void) { %s return 0; }' % ' '.join('f%d(1);' % i for i in range(n)))


def linetable(b):
    """address -> (file, line) from the decoded line table"""
    rows = []
    for l in txt(b).split('\n'):
        m = re.match(r'(\S+)\s+(\d+)\s+(0x[0-9a-f]+)\b', l)
        if m:
            rows.append((int(m[3], 16), m[1], int(m[2])))
    rows.sort(key=lambda x: x[0])
    return rows


def positions(ctx, q):
    """run a program; every recorded call must be attributed to its place"""
    r = ctx.sub('loc', q)
    M = Marked(r)
    M.program()
    cov = set()
    d = ctx.uniq('l')
    src = {}
    for f, ls in M.files.items():
        src[f] = encode(r, ls, cov)
        open(os.path.join(d, f), 'wb').write(src[f])
    x = ctx.cc_toy(os.path.join(d, 'main.c'), os.path.join(d, 'm.o'))
    if x.rc != 0:
        g = ctx.cc_ref(os.path.join(d, 'main.c'), os.path.join(d, 'g.o'))
        if g.rc == 0:
            ctx.violate('valid program rejected: ' + summarize(x.err), txt(x.err)[:2000], src)
        else:
            ctx.inconcl('the reference rejects a program too: ' + txt(g.err)[:500])
        return
    exe = os.path.join(d, 'm')
    l = ctx.link([os.path.join(d, 'm.o')], exe)
    if l.rc != 0:
        ctx.violate('the object does not link: ' + summarize(l.err), txt(l.err)[:2000], src)
        return
    x = ctx.execute(exe)
    if x.rc != 0:
        g = ctx.cc_ref(os.path.join(d, 'main.c'), os.path.join(d, 'g.o'))
        ctx.link([os.path.join(d, 'g.o')], exe)
        y = ctx.execute(exe)
        if y.rc == 0:
            ctx.violate('the marked program ends with status %s' % x.rc, txt(x.err)[:2000], src)
        else:
            ctx.inconcl('marked program ends with %s' % y.rc)
        return
    rows = linetable(run(['riscv64-linux-gnu-readelf', '-W', '--debug-dump=decodedline', exe], 60).out)
    addrs = [a for a, _, _ in rows]
    import bisect
    ev = parse_events(x.out)
    for (i, ra), (i2, line) in zip(ev[::2], ev[1::2]):
        name, a, b, ln, dl = M.at[i]
        k = bisect.bisect_right(addrs, ra - 1) - 1
        got = rows[k][1:] if k >= 0 else None
        ctx.count()
        key = None
        if got is None or got[0] != name or not a <= got[1] <= b:
            key = 'a call is attributed to the wrong %s by the line table' % ('file' if got and got[0] != name else 'line')
        elif ln is not None and line not in [n + k for n in ln for k in ((0,) if dl is None else (dl[1], dl[1] - 1))]:
            key = '__LINE__ does not give the number of its line'
        if key:
            ctx.violate(key, 'call %d is at %s:%d-%d, line table says %s, __LINE__ gives %s, #line %s' % (i, name, a, b, got, line, dl), src)
            break
        ctx.seen('%s of %d lines%s%s' % ('call', b - a + 1, ', in a header' if name != 'main.c' else '', ', after #line' if dl else ''))
    else:
        ctx.bump('calls whose recorded position was compared', len(ev) // 2)
        shutil.rmtree(d, ignore_errors=True)


def probe_splice(ctx):
    d = ctx.uniq('s')
    open(os.path.join(d, 'main.c'), 'w').write('a \\\n__LINE__\n')
    x = run([ctx.toycc(), '-E', 'main.c'], 30, cwd=d)
    ctx.count()
    got = txt(x.out).split()
    if got != ['a', '2']:
        ctx.violate('__LINE__ after a line splice is the number of the first line of the spliced line' if got == ['a', '1'] else '__LINE__ on the second line gives %s' % got, 'a \\\n__LINE__\n\ngives %s' % got)


def body(ctx):
    ctx.rule = ('An evaluation is one program with one planted violation whose status, output and first diagnostic (file, line, quoted line, caret) were compared with the place known by construction, '
                'or its valid counterpart, or one position recorded in the output; distinct: violations and layouts.')
    ctx.assumptions = ['the position of a token is that in the file it is spelled in']
    probe_splice(ctx)
    k = ctx.scale(6, 80)
    jobs = [(rejected, i) for i in range(k * len(CAT))] + [(accepted, i) for i in range(ctx.scale(2, 20) * len(CAT))]
    jobs += [(f, i, KWCAT) for f in (rejected, accepted) for i in range(len(KWCAT))]
    jobs += [(positions, i) for i in range(ctx.scale(600, 8000))]
    ctx.extra['violations in the catalogue'] = len(CAT) + len(KWCAT)
    ctx.pmap(lambda j: j[0](ctx, *j[1:]), jobs)


if __name__ == '__main__':
    main('C19', body)
