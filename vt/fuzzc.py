"""Inputs for the robustness checks: mutated C sources."""
import os, re

TOK = re.compile(rb'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|[A-Za-z_]\w*|\d[\w.]*|<<=|>>=|\.\.\.|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|##|[ \t]+|\n|.', re.S)

KW = b"""break case char continue default do double else enum extern float for goto if int long return short signed sizeof static struct switch typedef union
unsigned void while asm __interrupt __func__ const volatile auto register restrict inline _Bool __FILE__ __LINE__ main L""".split()
OPS = b"+ - * / % & | ^ ~ ! < > = ? : , ; . ( ) [ ] { } << >> <= >= == != && || += -= *= /= %= &= |= ^= <<= >>= -> ++ -- ... # ## \\ \" ' /* */ // \n @ $ `".split(b" ")
NUMS = b"""0 1 -1 2 3 7 8 15 16 31 32 33 127 128 255 256 32767 32768 32768u 65535 65535u 65536 0x7fffffff 0x80000000 0xffffffffu 2147483647 2147483648 4294967295u 4294967296
99999999999999999999 0x1ffffffff 0777777777777 08 0x 0xg 1.5f 1e38 1e39f 3.4e38f 1e-46 1e99999 1e 1.e+ .5 5. 0x1p3 1u 1l 1ul 1lu 1uu 'a' 'ab' 'abc' 'abcde' '\\0' '\\xff' '\\777' '\\x' ''
'\\' L'a' L'\\xffff' L'ab' "" "a" L"" L"ab" "\\x4" "\\" "\\xfffff" sizeof(int) sizeof(char[100]) (char)300 (1/0) (1%0) (-2147483647-1)/-1 1<<32 1<<-1 0u-1""".split(b" ")
PP = [b"#include \"%s\"\n", b"#include <%s>\n", b"#define A 1\n", b"#define B A B\n", b"#define A A\n", b"#undef A\n", b"#ifdef A\n", b"#ifndef A\n", b"#else\n", b"#endif\n", b"#if 1\n", b"#line 5 \"x.c\"\n",
      b"#line 99999999999\n", b"# 12 \"y.h\"\n", b"#pragma pack(push,1)\n", b"#pragma pack(pop)\n", b"#pragma pack(3)\n", b"#pragma pack()\n", b"#pragma x\n", b"#error x\n", b"#\n", b"#foo\n", b"#line 0 \"" + b"z" * 300 + b"\"\n"]

SNIPS = [
    b"int f(int a, ...) { int *p = &a; return p[1] + *(&a + 1); } int main() { return f(1, 2, 3); }\n",
    b"struct A { int a; struct B { char c[3]; union { int x; float y; } u; } b; } s = { 1, { { 1, 2, 3 }, { 4 } } }, t[2] = { { 1 }, { 2 } };\n",
    b"struct A { int x[3]; char c; }; struct A g(struct A a, int n) { if (n) return g(a, n - 1); a.x[1]++; return a; }\n",
    b"int sw(int x) { switch (x) { case 0: case 1: return 1; case -1: default: break; case 5 ... 7: ; } switch (x & 3) { } return 0; }\n",
    b"int lp(void) { int i, s = 0; for (i = 0; i < 10; i++) { if (i == 3) continue; if (i == 7) break; s += i; } while (s) { s--; } do s++; while (s < 5); return s; }\n",
    b"int go(int n) { goto a; b: return n; a: if (n > 3) goto b; n++; goto a; }\n",
    b"typedef int (*fp)(int, char*); int call(fp f) { return f(1, \"x\") + (*f)(2, 0); } int (*tab[3])(int); char *names[] = { \"a\", \"bc\", 0 };\n",
    b"enum E { X, Y = 5, Z } e = Z; enum { Q = sizeof(int) * 2, R = Q << 1 }; int arr[R][Q];\n",
    b"float ff(float a, int b) { float c = a * b / 2.5f - 1; return c < a ? -c : (int)c + (unsigned)a; }\n",
    b"unsigned u(unsigned a, int b) { return a / b % 7 << b >> (a & 3) ^ ~b | !a && b || a == b; }\n",
    b"int inc(char *p, short *q, unsigned char **r) { return ++*p + (*q)-- + **r++ + *++*r + p[*q] + 3[p] + (p - (char*)0); }\n",
    b"int asg(int *p) { *p += 3; *p -= 1; *p *= 2; *p /= 3; *p %= 5; *p <<= 2; *p >>= 1; *p &= 7; *p |= 8; *p ^= 1; return *p = *p, *p; }\n",
    b"extern int ext[], ext2; static int st = 5; int ext[4] = { 1, 2 }; int tern(int a) { return a ? a > 2 ? 1 : 2 : sizeof ext / sizeof *ext; }\n",
    b"void asmf(void) { asm(\"nop\\n\" \"nop\"); asm(\"mov eax, [ebp + 8]\"); }\n",
    b"void __interrupt isr(void** pp) { int x = 1; }\n",
    b"wchar w; char c1[] = \"abc\\n\\t\\x41\\101\", c2[5] = \"abc\", c3[2][3] = { \"ab\", { 'x', 'y' } }; unsigned short w1[] = L\"ab\" L\"c\";\n",
    b"int vf(void) { static int cnt = 1, a[3] = { 1, 2, 3 }; int b[2] = { 4, 5 }; char s[] = \"hi\"; struct { int x; } z = { 1 }; return cnt++ + a[1] + b[0] + s[1] + z.x; }\n",
    b"struct L { struct L *next; int (*f)(struct L*); } l = { &l, 0 }; int fl(struct L *p) { while (p) { p->f(p); p = p->next->next; } return p == &l; }\n",
    b"#define N 10\n#ifdef N\nint n[N];\n#else\nint m;\n#endif\n#undef N\n#ifndef N\nint k = __LINE__; char *f = __FILE__;\n#endif\n",
    b"int r(int a, int b, int c) { return r(r(1, 2, 3), r(a, b, c), a + b * c - (a, b)) + r(a++, --b, c ? a : b); }\n",
    b"union U { int i; float f; char c[4]; }; int un(union U u, union U *p) { u = *p; *p = u; return p->c[2] + (*p).i + un(u, &u); }\n",
    b"#pragma pack(push, 1)\nstruct P { char a; int b; short c; };\n#pragma pack(pop)\nint sp = sizeof(struct P); int off = (int)&((struct P*)0)->c;\n",
    b"void *vp(void *p, int n) { char **a = p; return n ? (void*)(a + n) : (void*)&a[n]; }\n",
    b"int nest(int a) { { int a = 1; { int a = 2; struct S { int q; }; { struct S { char q[9]; }; a = sizeof(struct S); } } } return a; }\n",
    b"int k(); int k2() { return k(1, 2) + k(); } int undecl(void) { return foo(1) + bar; }\n",
    b"long lo; unsigned long ul; signed char sc; double d; long double ld; short int si; unsigned int ui; long int li;\n",
]


def corpus(repo, gen=()):
    c = list(SNIPS) + list(gen)
    for d in ("v0100/srclib", "v0100/tests"):
        p = os.path.join(repo, d)
        if os.path.isdir(p):
            for base, ds, fs in os.walk(p):
                ds.sort()
                for f in sorted(fs):
                    if f.endswith((".c", ".h")):
                        q = os.path.join(base, f)
                        if os.path.getsize(q) < 6000:
                            with open(q, "rb") as fh:
                                c.append(fh.read())
    return c


def toks(b):
    return TOK.findall(b)


def rtok(r):
    k = r.random()
    if k < .3:
        return b" " + r.choice(KW) + b" "
    if k < .6:
        return r.choice(OPS)
    if k < .85:
        return b" " + r.choice(NUMS) + b" "
    if k < .92:
        return b"\n" + r.choice(PP)
    if k < .96:
        return b" " + bytes(r.choice(b"abcxyz_") for _ in range(r.choice([1, 2, 30, 31, 63, 64, 126, 127, 128, 300]))) + b" "
    return bytes(r.randrange(256) for _ in range(r.choice([1, 1, 2, 5])))


def deep(r):
    n = r.choice([3, 10, 30, 60, 100, 128, 200, 500, 2000])
    k = r.randrange(17)
    if k == 0:
        return b"int d = " + b"(" * n + b"1" + b")" * n + b";\n"
    if k == 1:
        return b"int d(int a) { return " + b"-" * 0 + b"- " * n + b"a; }\n"
    if k == 2:
        return b"int d(void) " + b"{ " * n + b"}" * n + b"\n"
    if k == 3:
        return b"int d(int a) { " + b"if (a) " * n + b"; }\n"
    if k == 4:
        return b"int " + b"*" * n + b"d;\n"
    if k == 5:
        return b"int d" + b"[1]" * n + b";\n"
    if k == 6:
        return b"int " + b"(" * n + b"d" + b")" * n + b";\n"
    if k == 7:
        return b"int d(int a) { return " + b"a + (" * n + b"a" + b")" * n + b"; }\n"
    if k == 8:
        return b"int d(int a) { switch (a) { " + b"".join(b"case %d: " % i for i in range(n)) + b"; } }\n"
    if k == 9:
        return b"int d(" + b", ".join(b"int a%d" % i for i in range(n)) + b") { return a0; }\n"
    if k == 10:
        return b"struct S { " + b"".join(b"int m%d;" % i for i in range(n)) + b" } d;\n"
    if k == 11:
        return b"char *d = " + b'"%s"' % (b"x" * (n - 1)) + b" " + b'"abc" ' * (n // 10) + b";\n"
    if k == 12:
        return b"int d(int a) { " + b"".join(b"goto l%d; l%d: " % (i, i) for i in range(min(n, 60))) + b"return a; }\n"
    if k == 13:
        return b"int d(int a) { return " + b"a ? " * n + b"1" + b" : 2" * n + b"; }\n"
    if k == 14:
        return b"struct { " * n + b"int a; " + b"} x; " * n + b"\n"
    if k == 15:
        return b"".join(b"#ifdef Z%d\n" % i for i in range(n)) + b"#endif\n" * r.choice([n, n - 1, n + 1])
    return b"int d[][2] = { " + b"{ " * n + b"1 " + b"} " * n + b"};\n" + b"#define " + b"M" * n + b" " + b"y" * n + b"\nint M;\n"


def mutate(r, corp, maxlen=9000):
    base = r.choice(corp)
    if len(base) > maxlen:
        o = r.randrange(len(base) - maxlen)
        base = base[o:o + maxlen]
    t = toks(base)
    for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3, 5, 9])):
        n = len(t)
        k = r.random()
        i = r.randrange(n) if n else 0
        if k < .14:
            del t[i:i + r.choice([1, 1, 1, 2, 5])]
        elif k < .28:
            t.insert(i, rtok(r))
        elif k < .5 and n:
            t[i] = rtok(r)
        elif k < .58 and n:
            j = r.randrange(n)
            t[i], t[j] = t[j], t[i]
        elif k < .66 and n:
            j = min(n, i + r.randint(1, 12))
            t[i:i] = t[i:j] * r.choice([1, 1, 2, 3, 40, 300] if len(b"".join(t[i:j])) < 20 else [1, 2])
        elif k < .74:
            o = toks(r.choice(SNIPS if r.random() < .6 else corp)[:4000])
            if o:
                a = r.randrange(len(o))
                t[i:i] = o[a:a + r.randint(1, 25)]
        elif k < .80:
            del t[i:]
        elif k < .86:
            t.insert(0 if r.random() < .5 else n, deep(r))
        elif k < .92 and n:
            # an identifier or number of the text somewhere else
            names = [x for x in t if x[:1].isalnum()]
            js = [j for j, x in enumerate(t) if x[:1].isalnum()]
            if names:
                t[r.choice(js)] = r.choice(names)
        elif n:
            b = bytearray(t[i])
            if b:
                b[r.randrange(len(b))] = r.choice([0, 9, 10, 13, 26, 34, 39, 92, 127, 128, 255, r.randrange(256)])
            t[i] = bytes(b)
    out = b"".join(t)
    if r.random() < .08:
        out += r.choice(corp)[:3000]
    return out[:60000]
