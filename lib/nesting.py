"""Programs that nest one construct of the language to a given depth: the
time and memory toycc needs must stay bounded (no re-reading of a construct
for each level)."""


def nest(f, b, n):
    for i in range(n):
        b = f(b, i)
    return b


FORMS = {
    'declparen': lambda n: 'int '+nest(lambda b,i:'(%s)'%b,'x',n)+';',
    'declptr': lambda n: 'int '+nest(lambda b,i:'(*%s)'%b,'x',n)+';',
    'declfn': lambda n: 'int '+nest(lambda b,i:'(*%s)(int)'%b,'x',n)+';',
    'declarr': lambda n: 'int '+nest(lambda b,i:'(*%s)[2]'%b,'x',n)+';',
    'abstract': lambda n: 'int y = sizeof(int '+nest(lambda b,i:'(*%s)[2]'%b,'',n)+');',
    'abstractfn': lambda n: 'int f('+nest(lambda b,i:'int (*)(%s)'%b,'int',n)+');',
    'paramfn': lambda n: 'int f('+nest(lambda b,i:'int p%d(%s)'%(i,b),'int x',n)+');',
    'castparen': lambda n: 'int main(void){return '+nest(lambda b,i:'(int)(%s)'%b,'1',n)+';}',
    'complit': lambda n: 'int main(void){return '+nest(lambda b,i:'(int){%s}'%b,'1',n)+';}',
    'complitarr': lambda n: 'int main(void){return '+nest(lambda b,i:'(int[]){%s,2}[0]'%b,'1',n)+';}',
    'complitfix': lambda n: 'int main(void){return '+nest(lambda b,i:'(int[2]){%s,2}[0]'%b,'1',n)+';}',
    'complitstruct': lambda n: 'struct S{int a;};int main(void){return '+nest(lambda b,i:'(struct S){%s}.a'%b,'1',n)+';}',
    'complitstruct2': lambda n: 'struct S{int a;struct{int b,c;}d;};int main(void){return '+nest(lambda b,i:'(struct S){1,%s}.a'%b,'1',n)+';}',
    'complitsarr': lambda n: 'struct S{int a;};int main(void){return '+nest(lambda b,i:'(struct S[]){%s}[0].a'%b,'1',n)+';}',
    'complitunion': lambda n: 'struct S{union {int a; long b;}u;};int main(void){return '+nest(lambda b,i:'(struct S){%s}.u.a'%b,'1',n)+';}',
    'typeofcl': lambda n: 'int main(void){return '+nest(lambda b,i:'(typeof(%s)){1}'%b,'1',n)+';}',
    'typeof': lambda n: 'int main(void){'+nest(lambda b,i:'typeof(%s)'%b,'1',n)+' x;}',
    'alignof': lambda n: 'int main(void){return '+nest(lambda b,i:'_Alignof(int[%s])'%b,'1',n)+';}',
    'generic': lambda n: 'int main(void){return '+nest(lambda b,i:'_Generic(%s, int: 1, default: 2)'%b,'1',n)+';}',
    'generic2': lambda n: 'int main(void){return '+nest(lambda b,i:'_Generic(1, int: %s, default: 2)'%b,'1',n)+';}',
    'generic3': lambda n: 'int main(void){return '+nest(lambda b,i:'_Generic(1, int: 2, default: %s)'%b,'1',n)+';}',
    'stexpr': lambda n: 'int main(void){return '+nest(lambda b,i:'({ %s; })'%b,'1',n)+';}',
    'stexprinit': lambda n: 'int main(void){return '+nest(lambda b,i:'({ int a[] = {%s}; a[0]; })'%b,'1',n)+';}',
    'cond': lambda n: 'int main(void){return '+nest(lambda b,i:'(%s ? 1 : 2)'%b,'1',n)+';}',
    'condr': lambda n: 'int x;int main(void){return '+nest(lambda b,i:'x ? 1 : %s'%b,'1',n)+';}',
    'elvis': lambda n: 'int x;int main(void){return '+nest(lambda b,i:'(%s ?: 2)'%b,'x',n)+';}',
    'assign': lambda n: 'int x;int main(void){return '+nest(lambda b,i:'(x += %s)'%b,'x',n)+';}',
    'assignl': lambda n: 'int *x;int main(void){return '+nest(lambda b,i:'*(%s += 1)'%b if 0 else '(*(int*)%s += 1)'%b,'x',n)+';}',
    'inc': lambda n: 'int main(void){ int *x;return '+nest(lambda b,i:'(*(int*)(long)(%s))++'%b,'*x',n)+';}',
    'preinc': lambda n: 'int main(void){ int *x;return '+nest(lambda b,i:'++*(int*)(long)(%s)'%b,'*x',n)+';}',
    'bfop': lambda n: 'struct S{int b:3;}*p;int main(void){return '+nest(lambda b,i:'(p[%s].b += 1)'%b,'1',n)+';}',
    'atomop': lambda n: '_Atomic int*p;int main(void){return '+nest(lambda b,i:'(p[%s] += 1)'%b,'1',n)+';}',
    'idx': lambda n: 'int a[9];int main(void){return '+nest(lambda b,i:'a[%s]'%b,'1',n)+';}',
    'call': lambda n: 'int f(int);int main(void){return '+nest(lambda b,i:'f(%s)'%b,'1',n)+';}',
    'calls': lambda n: 'struct S{long a[4];}f(struct S);int main(void){struct S s; s = '+nest(lambda b,i:'f(%s)'%b,'s',n)+';}',
    'callptr': lambda n: 'int (*f(int))(int);int main(void){return '+nest(lambda b,i:'f(%s)(1)'%b,'1',n)+';}',
    'comma': lambda n: 'int main(void){return '+nest(lambda b,i:'(%s, 1)'%b,'1',n)+';}',
    'not': lambda n: 'int x;int main(void){return '+nest(lambda b,i:'!%s'%b,'x',n)+';}',
    'neg': lambda n: 'int x;int main(void){return '+nest(lambda b,i:'- %s'%b,'x',n)+';}',
    'add': lambda n: 'int x;int main(void){return '+nest(lambda b,i:'(1 + %s)'%b,'x',n)+';}',
    'cmp': lambda n: 'int x;int main(void){return '+nest(lambda b,i:'(1 < %s)'%b,'x',n)+';}',
    'constadd': lambda n: 'int x['+nest(lambda b,i:'(1 + %s)'%b,'1',n)+'];',
    'constcmp': lambda n: 'int x = '+nest(lambda b,i:'(1 < %s)'%b,'1',n)+';',
    'constcond': lambda n: 'int x = '+nest(lambda b,i:'(%s ? 1 : 2)'%b,'1',n)+';',
    'constcond2': lambda n: 'int x = '+nest(lambda b,i:'(1 ? %s : 2)'%b,'1',n)+';',
    'constfl': lambda n: 'double x = '+nest(lambda b,i:'(%s * 2.5)'%b,'1',n)+';',
    'constflc': lambda n: 'double x = '+nest(lambda b,i:'(%s ? 2.5 : 1)'%b,'1',n)+';',
    'constland': lambda n: 'int x = '+nest(lambda b,i:'(%s && 1)'%b,'1',n)+';',
    'constbool': lambda n: 'int x = '+nest(lambda b,i:'!(_Bool)(%s)'%b,'1.5',n)+';',
    'constcast': lambda n: 'int x = '+nest(lambda b,i:'(int)(float)(%s)'%b,'1.5',n)+';',
    'constaddr': lambda n: 'char a[9]; char *x = '+nest(lambda b,i:'(%s + 1)'%b,'a',n)+';',
    'constaddr2': lambda n: 'char a[9]; char *x = '+nest(lambda b,i:'&*(%s)'%b,'a',n)+';',
    'constaddr3': lambda n: 'char a[9]; char *x = '+nest(lambda b,i:'&(%s)[1]'%b,'a',n)+';',
    'shift': lambda n: 'int x = '+nest(lambda b,i:'(%s >> 1)'%b,'1',n)+';',
    'div': lambda n: 'int x = '+nest(lambda b,i:'(%s / 1)'%b,'1',n)+';',
    'struct': lambda n: nest(lambda b,i:'struct { %s s%d; }'%(b,i),'int',n)+' x;',
    'structinit': lambda n: nest(lambda b,i:'struct { %s s%d; }'%(b,i),'int',n)+' x = {1};',
    'structinitb': lambda n: nest(lambda b,i:'struct { %s s%d; }'%(b,i),'int',n)+' x = '+nest(lambda b,i:'{%s}'%b,'1',n)+';',
    'unioninit': lambda n: nest(lambda b,i:'union { %s s%d; }'%(b,i),'int',n)+' x = {1};',
    'lstructinit': lambda n: 'int main(void){'+nest(lambda b,i:'struct { %s s%d; }'%(b,i),'int',n)+' x = {1};}',
    'lunioninit': lambda n: 'int main(void){'+nest(lambda b,i:'union { %s s%d; }'%(b,i),'int',n)+' x = {1};}',
    'anon': lambda n: nest(lambda b,i:'struct { int a%d; %s; }'%(i,b),'int z',n)+' x; int y = sizeof(x.z);',
    'arrdim': lambda n: 'int x'+'[1]'*n+';',
    'arrinit': lambda n: 'int x'+'[1]'*n+'='+'{'*n+'1'+'}'*n+';',
    'arrinit0': lambda n: 'int x'+'[]'+'[1]'*(n-1)+'='+'{'*n+'1'+'}'*n+';',
    'arrinit1': lambda n: 'int x'+'[]'+'[1]'*(n-1)+'={1};',
    'vla': lambda n: 'int main(int n){int x'+'[n]'*n+';}',
    'block': lambda n: 'int main(void)'+'{'*n+'}'*n,
    'if': lambda n: 'int main(void){'+nest(lambda b,i:'if (1) {%s} else {;}'%b,';',n)+'}',
    'ifelse': lambda n: 'int main(void){'+nest(lambda b,i:'if (1) ; else %s'%b,';',n)+'}',
    'for': lambda n: 'int main(void){'+nest(lambda b,i:'for (int a=({%s;1;});;) ;'%b,';',n)+'}',
    'switch': lambda n: 'int main(void){'+nest(lambda b,i:'switch (1) { case 1: %s }'%b,';',n)+'}',
    'fnbody': lambda n: 'int main(void){'+nest(lambda b,i:'{ int g(int (*)(int)); %s }'%b,';',n)+'}',
    'macro': lambda n: '#define F(x) x\nint x = '+nest(lambda b,i:'F(%s)'%b,'1',n)+';',
    'ppif': lambda n: '#if 1\n'*n+'#endif\n'*n,
    'ppexpr': lambda n: '#if '+'('*n+'1'+')'*n+'\n#endif\n',
    'ppdef': lambda n: '#if '+'!defined(A) && '*n+'1\n#endif\n',
    'macrochain': lambda n: ''.join('#define A%d A%d\n'%(i,i+1) for i in range(n))+'int A0;',
    'kr': lambda n: 'int f('+nest(lambda b,i:'int (*p%d)(%s)'%(i,b),'void',n)+') {}',
    'fnret': lambda n: 'int '+nest(lambda b,i:'(*%s(int))'%b,'f',n)+'(void);',
    'attr': lambda n: nest(lambda b,i:'struct { %s s%d; } __attribute__((packed))'%(b,i),'int',n)+' x;',
    'atomic': lambda n: nest(lambda b,i:'_Atomic(%s)'%b,'int',n)+' x;',
    'strcat': lambda n: 'char *x = '+'"a" '*n+';',
    'enum': lambda n: 'enum { '+','.join('A%d = %s'%(i,'A%d+1'%(i-1) if i else '0') for i in range(n))+' };',
    'labels': lambda n: 'int main(void){'+''.join('L%d: goto L%d;'%(i,(i*7)%n) for i in range(n))+'}',
}


# int expressions around an int expression, mixed at random by mixed()
EXPRS = ['(%s)', '(int)%s', '(int){%s}', '(int[]){%s, 2}[0]', '(int[2]){1, %s}[1]', '(struct S){%s}.a', '(struct S[]){%s}[0].a', '(struct S[]){[0] = {%s}}[0].a',
         '(struct U){1, %s}.d.b', '(struct U){.d.c = %s}.a', '(union V){%s}.a', '(struct W[]){1, %s}[0].v.a', '(int[][2]){1, %s}[0][1]', '({ %s; })', '({ int q[] = {%s}; q[0]; })',
         '({ struct S q = {%s}; q.a; })', '({ struct S q[] = {1, %s}; q[1].a; })', '({ int q = %s; q; })', '(g ? %s : 1)', '(%s ? 1 : 2)', '(%s ?: 2)', '(g += %s)',
         '(*(int *)(long)(%s))++', '_Generic(%s, int: 1, default: 2)', '_Generic(1, int: %s, default: 2)', '(int)sizeof(%s)', '(int)sizeof(typeof(%s))', '(typeof(%s))1', '(typeof(%s)){1}',
         'f(%s)', 'fp(%s)(1)', 'h((struct S){%s}).a', '(1, %s)', '!%s', '-(%s)', '(1 + %s)', '(%s < 2)', '(%s && 1)', 'arr[%s]', '&arr[%s] - arr', '(bf->b += %s)', '(at += %s)',
         '(%s << 1)', '(int)(float)%s', '(_Bool)%s']
PRE = ('struct S { int a; }; struct U { int a; struct { int b, c; } d; }; union V { int a; long b; }; struct W { int z; union V v; }; int g, arr[9], f(int), (*fp(int))(int);'
       'struct S h(struct S); struct { int b : 3; } *bf; _Atomic int at;\n')


def mixed(r, n):
    e = '1'
    for _ in range(n):
        e = r.choice(EXPRS) % e
    return PRE + 'int main(void) { return %s; }\n' % e
