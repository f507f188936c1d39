"""Programs that break one rule of the language, and their valid neighbours.

Three families: a matrix of operators and places against operand categories,
a matrix of pairs of declarations of one name, and a catalogue of single
rules.  The verdict of each cell of the matrices is in data/reject.json
(made by tools/mkreject.py from gcc -std=c99 -pedantic-errors; E: either, the
cells where SmallerC's documented leniency or subset decides)."""
import json, os, random, re

PRE = """struct S { int m; char n[3]; struct S *next; %(F)s int (*h)(int); };
struct T { char x; int y; };
union U { int a; char b; };
struct I;
enum E { EA, EB = 5, EC };
typedef int INT;
typedef struct S SS;
int i, j; unsigned u; char c; short s; signed char sc; unsigned char uc;%(f)s
int *p, *q; char *cp; void *vp; int **pp; struct S *sp; struct T *tp; struct I *ip;%(fp)s
int a[4]; int a2[2][3]; struct S st; struct T tt; union U un; INT ti; SS ss; enum E ev;
int f0(void); int f1(int); int f2(int, char *); void vf(int); int vfn(int, ...); struct S sf(int);%(ff)s int *pf(void);
int kr(); int (*fptr)(int); void (*vfp)(int); char *names[3]; int (*tab[2])(int);
""".replace("%(f)s", "%(f)s")


def pre(fl):
    return PRE % ({"F": "float g;", "f": " float f; double d;", "fp": " float *fp;", "ff": " float ff(float);"} if fl
                  else {"F": "", "f": "", "fp": "", "ff": ""})


# categories: alternatives with the same type class, value class and lvalueness
CAT = {
    "int": ["i", "u", "a[1]", "st.m", "sp->m", "*p", "**pp", "un.a", "ti", "a2[1][i]", "tp->y", "sp->next->m", "ev", "ss.m", "j"],
    "nar": ["c", "s", "uc", "sc", "st.n[0]", "*cp", "un.b", "tt.x", "names[1][0]", "cp[i]"],
    "rint": ["f1(3)", "i + 1", "-i", "i++", "(i, j)", "i ? 1 : j", "vfn(1)", "vfn(2, i)", "!i", "i == j", "(char)i", "p - q", "fptr(1)", "(*fptr)(2)", "tab[1](3)", "f0()", "(i = 2)", "kr(1)", "p == q"],
    "zero": ["0", "EA", "0u", "1 - 1"],
    "const": ["3", "'x'", "EB", "sizeof(int)", "sizeof i", "2 + 5", "1 ? 2 : 3", "3u", "EB + EC", "sizeof(struct S)", "(char)7"],
    "flt": ["f", "*fp", "st.g", "sp->g", "fp[1]", "d"],
    "rflt": ["ff(1)", "f + 1", "f * f", "-f", "(float)i", "i ? f : 1"],
    "cflt": ["1.5f", "2.0", "1.5 + 1"],
    "pint": ["p", "*pp", "pp[1]", "q"],
    "rpint": ["&i", "a + 1", "&a[2]", "(int *)vp", "p + 1", "pf()", "p - 1", "a2[1]+1", "&st.m", "p++", "i ? p : q"],
    "pchar": ["cp", "names[1]", "*names"],
    "pvoid": ["vp"],
    "rpvoid": ["(void *)p", "(void *)i"],
    "ppint": ["pp"],
    "arr": ["a", "a2[1]"],
    "arr2": ["a2"],
    "pstruct": ["sp", "st.next", "sp->next"],
    "ptstruct": ["tp"],
    "pinc": ["ip"],
    "struct": ["st", "*sp", "sp[1]", "ss", "*sp->next"],
    "rstruct": ["sf(1)"],
    "struct2": ["tt", "*tp"],
    "union": ["un"],
    "func": ["f1", "*f1", "*fptr"],
    "fptr": ["fptr", "tab[0]", "st.h", "sp->h"],
    "void": ["vf(1)", "(void)i", "vfp(3)", "(*vfp)(1)"],
    "str": ['"ab"', '"a" "b"'],
    "inc": ["*ip", "ip[0]"],
}
FLOATY = ("flt", "rflt", "cflt")
UN = {"neg": "-%s", "pos": "+%s", "not": "~%s", "lnot": "!%s", "deref": "*%s", "addr": "&%s", "preinc": "++%s", "postinc": "%s++", "predec": "--%s",
      "postdec": "%s--", "sizeof": "sizeof %s", "toint": "(int)%s", "tochar": "(char)%s", "toflt": "(float)%s", "toptr": "(int *)%s", "tovp": "(void *)%s",
      "tovoid": "(void)%s", "tostruct": "(struct S)%s", "tofp": "(int (*)(int))%s", "call0": "%s()", "call1": "%s(1)", "call2": "%s(1, cp)",
      "mem": "%s.m", "memn": "%s.nn", "arrow": "%s->m", "arrowy": "%s->y", "idx": "%s[1]", "ridx": "1[%s]", "idxp": "%s[p]", "in": "a[%s]"}
BIN = ["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "&&", "||", "==", "!=", "<", ">", "<=", ">=", ","]
ASG = ["=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "|=", "^="]
STM = {"if": "if (%s) ;", "while": "while (%s) break;", "for": "for (;%s;) break;", "for1": "for (%s;;) break;", "for3": "for (;i;%s) break;", "do": "do ; while (%s);",
       "switch": "switch (%s) { case 1: ; }", "condq": "%s ? 1 : 2;", "land": "1 && %s;", "lor": "%s || 0;", "case": "switch (i) { case %s: ; }", "dim": "{ int z[%s]; }",
       "sdim": "{ static int z[%s]; }", "expr": "%s;", "initint": "{ int z = %s; }", "initbr": "{ int z = { %s }; }", "initchar": "{ char z = %s; }", "initptr": "{ int *z = %s; }", "initflt": "{ float z = %s; }",
       "initstruct": "{ struct S z = %s; }", "initarr": "{ int z[2] = { %s }; }", "sinit": "{ static int z = %s; }", "sinitp": "{ static int *z = %s; }",
       "sinitc": "{ static char z[3] = { 1, %s }; }", "sinits": "{ static struct T z = { 1, %s }; }", "arg": "f1(%s);", "argp": "f2(1, %s);", "argflt": "ff(%s);", "argv": "vfn(1, %s);", "argkr": "kr(%s);",
       "few": "f2(%s);", "many": "f1(1, %s);", "argst": "sf(%s);", "argfp": "fptr(%s);", "argvoid": "f0(%s);", "enum": "{ enum { ZZ = %s }; }", "switchfn": "switch (1) { default: %s; }"}
RET = {"int": "int", "flt": "float", "pint": "int *", "pvoid": "void *", "struct": "struct S", "void": "void", "pstruct": "struct S *"}
GLB = {"gint": "int z = %s;", "gptr": "int *z = %s;", "gflt": "float z = %s;", "genum": "enum { ZZ = %s };", "gdim": "int z[%s];", "garr": "int z[] = { 1, %s };", "gchar": "static char z = %s;",
       "gstruct": "struct T z = { %s };", "gstruct2": "struct T z = { 1, %s };", "gunion": "union U z = { %s };", "garr2": "int z[2][2] = { { %s }, { 1 } };", "gnames": "char *z[2] = { 0, %s };", "gfp": "int (*z)(int) = %s;", "gmem": "struct Z { int k[%s]; };"}


def par(e):
    return e if re.fullmatch(r"\w+|'.'|\"[^\"]*\"", e) else "(%s)" % e


def cells():
    """[(key, kind, template)]; the operand categories are in the key."""
    out = []
    for k, o in UN.items():
        for n in CAT:
            out.append((("un", k, n), "stmt", o))
    for o in BIN + ASG:
        for n in CAT:
            for m in CAT:
                out.append((("bin", o, n, m), "stmt", "%s " + o.replace("%", "%%") + " %s"))
    for n in CAT:
        for m in CAT:
            out.append((("cond", "?", n, m), "stmt", "i ? %s : %s"))
    for k, o in STM.items():
        for n in CAT:
            out.append((("st", k, n), "whole", o))
    for k, o in RET.items():
        for n in CAT:
            out.append((("ret", k, n), "ret", o))
        out.append((("ret", k, "-"), "ret", o))
    for k, o in GLB.items():
        for n in CAT:
            out.append((("g", k, n), "file", o))
    return out


def operands(r, key, kind):
    """One spelling of the operands of a cell (r None: the first)."""
    ops = []
    for n in key[2:]:
        if n == "-":
            ops.append("")
            continue
        e = CAT[n][0] if r is None else r.choice(CAT[n])
        ops.append(e)
    if kind == "stmt":
        ops = [par(e) for e in ops]
    if key[0] == "bin" or key[0] == "cond":
        pass
    elif key[0] == "st" and key[1] in ("condq", "land", "lor", "many", "few", "arg", "argp", "argflt", "argv", "argkr", "argst", "argfp", "argvoid"):
        ops = [par(e) for e in ops]
    elif key[0] in ("st", "g"):
        ops = [e if "," not in e else "(%s)" % e for e in ops]
    return tuple(ops)


def floaty(key):
    return any(n in FLOATY for n in key[2:]) or key[1] in ("flt", "toflt", "initflt", "argflt", "gflt")


# ---- pairs of declarations of one name ----
DECL = ["int x;", "unsigned x;", "char x;", "INT x;", "float x;", "int *x;", "char *x;", "int **x;", "int x[3];", "int x[4];", "AT x;", "int x[2][3];", "int x[3][3];", "struct S x;", "struct T x;", "struct S *x;",
        "int x = 1;", "int x[3] = { 1 };", "int x[] = { 1, 2, 3 };", "static int x;", "static int x = 2;", "static int x[3];", "static struct S x;",
        "extern int x;", "extern unsigned x;", "extern int x[];", "extern int x[3];", "extern struct S x;", "extern char *x;",
        "typedef int x;", "typedef char x;", "typedef int x(int);", "typedef struct S x;", "enum { x };", "enum { x = 1, y };", "enum x { q };", "struct x { int q; };", "union x { int q; };", "struct x;",
        "int x(void);", "int x();", "int x(int);", "int x(char);", "int x(int, int);", "int x(int, ...);", "int x(int *);", "int x(int []);", "int x(char *);", "void x(int);", "char x(int);", "struct S x(int);", "int *x(int);", "FT x;",
        "int x(int k) { return k; }", "void x(int k) { }", "int x(void) { return 1; }", "static int x(int);", "static int x(int k) { return k; }", "extern int x(int);", "static int x(void);",
        "int (*x)(int);", "int (*x)(int, int);", "int (*x)(int) = 0;", "int x(int (*)(int));", "int x(int g(int));"]
DPRE = "struct S { int a; char b; };\nstruct T { int a; };\ntypedef int INT;\ntypedef int FT(int);\ntypedef char AT[3];\nenum E0 { A0 };\n"
PAIR = {"ff": "%s\n@@%s\n", "fb": "%s\nvoid fn(void) {\n@@%s\n}\n", "bb": "void fn(void) {\n%s\n@@%s\n}\n", "nb": "void fn(void) {\n%s\n{\n@@%s\n}\n}\n"}
ONE = {"f": "@@%s\n", "b": "void fn(void) {\n@@%s\n}\n", "for": "void fn(void) {\n@@for (%s x < 1; ) ;\n}\n", "param": "void fn(int x) {\n@@%s\n}\n", "paramn": "void fn(int x) {\n{\n@@%s\n}\n}\n", "mem": "struct M {\n@@%s\n};\n",
       "mem2": "struct M { int x;\n@@%s\n};\n", "memu": "union M { int z;\n@@%s\n};\n", "pname": "@@void fn(%s) { }\n", "proto": "@@void fn(%s);\n", "protou": "@@void fn(int, %s);\n", "cast": "void fn(void) {\n@@(%s)0;\n}\n",
       "sz": "@@int sz = sizeof(%s);\n", "asz": "void fn(void) { int k;\n%s\n@@k = sizeof x;\n}\n", "addr": "void fn(void) { int k;\n%s\n@@k = &x != 0;\n}\n", "uselater": "void fn(void) { int k;\n{\n%s\n}\n@@k = &x != 0;\n}\n",
       "dup": "@@struct M { int z; %s char x; };\n", "label": "void fn(void) { goto x;\n@@%s\nx: ;\n}\n"}


def decls():
    """[(key, text)]; @@ marks the line that is to be reported."""
    out = []
    for k, t in PAIR.items():
        for a in DECL:
            for b in DECL:
                if k in ("bb", "nb") and ("{ return" in a or a.endswith("{ }")):
                    continue
                out.append((("d" + k, a, b), DPRE + t % (a, b)))
    for k, t in ONE.items():
        for d in DECL:
            e = d
            if k in ("pname", "proto", "protou", "cast", "sz"):
                e = d.rstrip(";")
            if k in ("cast", "sz"):
                e = e.replace("x", "", 1) if e.count("x") == 1 else e
            out.append((("d" + k, d), DPRE + t % e))
    return out


# ---- single rules: (name, place, violating, valid) ----
# place: stmt (inside "int target(int x, char *y)"), vstmt (inside "void vtarget(int x)"), file; @@ marks the reported line
# when it is not the first
RULES = [
    ("break-outside", "stmt", [
        "break;", "if (i) break;", "{ break; }", "switch (i) { case 1: break; } break;", "while (0) ; break;", "do ; while (0); break;", "for (;0;) ; break;"], [
        "while (i) break;", "switch (i) { case 1: if (j) break; }", "for (;;) { { break; } }", "do { break; } while (1);",
        "switch (i) { default: while (j) { break; } break; }"]),
    ("continue-outside", "stmt", [
        "continue;", "if (i) continue;", "switch (i) { case 1: continue; }", "{ continue; }", "while (0) ; continue;", "for (;0;) ; continue;",
        "do ; while (0); continue;", "while (0) ; switch (i) { default: continue; }"], [
        "while (i--) continue;", "do { if (j) continue; } while (0);", "for (;i--;) { switch (j) { case 1: continue; } }",
        "while (i--) switch (j) { default: { continue; } }"]),
    ("case-outside", "stmt", [
        "case 1: ;", "default: ;", "while (i) { case 1: break; }", "switch (i) { case 1: ; } case 2: ;", "switch (i) { case 1: ; } default: ;", "if (i) case 3: ;",
        "for (;i;) { default: break; }"], [
        "switch (i) { case 1: ; case 2: ; default: ; }", "switch (i) { while (j) { case 1: break; } }", "switch (i) case 3: ;", "switch (i) default: ;",
        "switch (i) { if (j) case 3: ; else default: ; }", "switch (i) { case 1: switch (j) { case 1: ; } case 2: ; }"]),
    ("case-dup", "stmt", [
        "switch (i) { case 1: case 1: ; }", "switch (i) { case 2: ; case 1 + 1: ; }", "switch (i) { case 'A': ; case 65: ; }", "switch (i) { case EB: case 5: ; }",
        "switch (i) { case 0: case 1: case 2: case 3: case 4: case 5: case 6: case 7: case 3: ; }", "switch (i) { case -1: case ~0: ; }",
        "switch (i) { case 7: { case 8: case 7: ; } }", "switch (i) { case 1: switch (j) { case 2: case 2: ; } }",
        "switch (i) { case 1: switch (j) { case 2: ; } case 1: ; }", "switch (i) { case 9: default: case 9: ; }"], [
        "switch (i) { case 1: switch (j) { case 1: ; } case 2: ; }", "switch (i) { case -1: case 1: case 0: ; }",
        "switch (i) { case 'a': case 'A': ; } switch (i) { case 'a': ; }", "switch (i) { case EA: case EB: case EC: ; }",
        "switch (i) { case 3: case 13: case 23: case 33: ; }"]),
    ("default-dup", "stmt", [
        "switch (i) { default: ; default: ; }", "switch (i) { default: case 1: { default: ; } }", "switch (i) { default: switch (j) { default: ; } default: ; }",
        "switch (i) { default: ; case 1: switch (j) { default: default: ; } }"], [
        "switch (i) { default: ; }", "switch (i) { default: switch (j) { default: ; } }", "switch (i) { case 1: switch (j) { default: ; } default: ; }"]),
    ("case-const", "stmt", [
        "switch (i) { case i: ; }", "switch (i) { case f1(1): ; }", "switch (i) { case : ; }", "switch (i) { case a[1]: ; }", "switch (i) { case x: ; }",
        "switch (i) { case \"a\": ; }", "switch (i) { case 1 ; }", "switch (i) { case 1 }", "switch (i) { default ; }", "switch (i) { case sp->m: ; }",
        "switch (i) { case i + 1: ; }"], [
        "switch (i) { case sizeof(int): ; }", "switch (i) { case EB + 1: ; }", "switch (i) { case 'a' - 1: ; }", "switch (i) { case (1 ? 2 : 3): ; }",
        "switch (i) { case (int)7u: ; }", "switch (i) { case sizeof st: ; }"]),
    ("switch-form", "stmt", [
        "switch i { case 1: ; }", "switch (i { case 1: ; }", "switch () { case 1: ; }", "switch (i) }", "switch { }", "switch (st) { }", "switch (p) { }",
        "switch (vf(1)) { }", "switch (f1) { }", "switch (a) { }"], [
        "switch (i) { }", "switch (i) ;", "switch (c) { case 1: ; }", "switch (i, j) { case 1: ; }", "switch (f1(1)) { default: ; }"]),
    ("label", "stmt", [
        "l1: ; l1: ;", "l1: i = 1; { l1: ; }", "if (i) { goto l1; } l1: l2: l1: ;", "goto 5;", "goto ;", "goto l1 ; l1 ;", "goto *p;", "goto;", "goto l1"], [
        "l1: ; l2: ;", "goto l1; l1: ;", "l1: if (i) goto l1;", "{ { goto l3; } } i = 1; l3: ;", "l1: l2: l3: i = 1; goto l2;", "i = 2; st: ; goto st;",
        "{ int l4; l4: l4 = 1; if (i) goto l4; }", "SS: ; goto SS;"]),
    ("goto-undef", "stmt", [
        "goto l1;", "if (i) goto l1;", "l2: goto l1;", "{ goto x; }", "goto l1; l12: ;", "goto l11; l1: ;", "{ { goto l1; } } L1: ;"], [
        "goto l1; l1: ;", "{ goto x; } x: ;"]),
    ("undeclared", "stmt", [
        "i = nosuch;", "nosuch = 1;", "i = i + nosuch * 2;", "if (nosuch) ;", "f1(nosuch);", "i = sizeof nosuch;", "p = &nosuch;", "nosuch++;", "*nosuch = 1;",
        "nosuch[1] = 2;", "nosuch.m = 1;", "nosuch->m = 1;", "i = a[nosuch];", "return nosuch;", "i = i ? nosuch : 1;", "i = i && nosuch;", "(void)nosuch;",
        "for (nosuch = 0; ; ) ;", "switch (i) { case nosuch: ; }", "i = (int)nosuch;", "i = m;", "i = S;", "i = E;", "i = next;", "i = ii;", "i = I;", "i = x1;",
        "i = xy;", "i = _x;", "i = X;"], [
        "i = x;", "i = *y;", "i = EB;", "i = st.m;", "{ int z; z = i; }", "i = c;"]),
    ("scope", "stmt", [
        "{ int z; } z = 1;", "{ int z; { int w; } z = w; }", "for (i = 0; i < 3; i++) { int z; z = 1; } i = z;", "if (i) { int z; } else z = 1;",
        "{ enum { ZA }; } i = ZA;", "{ struct Z { int k; }; } { struct Z z; z.k = 1; }", "{ typedef int ZT; } { ZT z; z = 1; }", "do { int z; z = 0; } while (z);",
        "{ int z1, z2; } { int z1; z1 = z2; }", "while (i--) { static int z; } z = 2;"], [
        "{ int z; z = 1; { int z; z = 2; } }", "{ int x; x = 2; { char x; x = 1; } }", "{ enum { ZA }; i = ZA; } { int ZA; ZA = 1; }",
        "{ struct S { char q; }; struct S z; z.q = 1; } st.m = 1;", "{ typedef char INT; INT z; z = 'a'; } { INT z; z = 1; }", "{ int f1; f1 = 3; } f1(1);",
        "{ extern int i; i = 1; }", "{ int INT; INT = 3; } { INT z; z = 2; }"]),
    ("redeclared", "stmt", [
        "{ int z; int z; }", "{ int z; char z; }", "{ int z, z; }", "{ int z; { } int z; }", "{ int z; enum { z }; }", "{ enum { ZA, ZA }; }",
        "{ enum { ZA }; int ZA; }", "{ typedef int z; int z; }", "{ struct Z { int a; }; struct Z { int b; }; }", "{ struct Z { int a; }; union Z { int b; }; }",
        "{ enum Z { ZA }; struct Z { int a; }; }", "{ enum Z { ZA }; enum Z { ZB }; }", "{ struct Z { int a; char a; }; }", "{ struct Z { int a, *a; }; }",
        "{ union Z { int a; int b; int a; }; }", "{ int z; static int z; }", "{ int z; int z(void); }", "{ int z(void); int z; }", "{ static int z; int z = 1; }"], [
        "{ int z; { int z; z = 1; } z = 2; }", "{ struct Z { int Z; } Z; Z.Z = 1; }", "{ struct Z { int a; }; struct Y { int a; }; }",
        "{ enum Z { ZA }; int Z; Z = ZA; }", "{ int z(int); int z(int); }", "{ extern int i; extern int i; }",
        "{ struct Z { struct { int a; } b, c; } z; z.b.a = z.c.a = 1; }", "{ struct Z; struct Z { int a; }; struct Z z; z.a = 1; }",
        "{ struct Z { int z; }; int z; z = 1; }"]),
    ("member", "stmt", [
        "st.q = 1;", "sp->q = 1;", "st.x = 1;", "tt.m = 1;", "un.m = 1;", "sp->next->x = 1;", "st.next.m = 1;", "sp.m = 1;", "st->m = 1;", "i.m = 1;", "p->m = 1;",
        "i->m = 1;", "a.m = 1;", "ip->m = 1;", "(*ip).m = 1;", "f1.m = 1;", "sf(1).q;", "st.1;", "st.;", "sp->;", "st.(m) = 1;", "sp->3;", "cp->m = 1;", "pp->m = 1;",
        "st.n.m = 1;", "sf(1)->m;", "vp->m = 1;", "st.S;", "st.i = 1;", "sp->sp = 0;"], [
        "st.m = 1;", "sp->m = 1;", "sp->next->m = 1;", "(*sp).m = 1;", "(&st)->m = 1;", "i = sf(1).m;", "tt.y = 1;", "un.b = 1;", "sp[1].m = 2;",
        "((struct S *)vp)->m = 1;", "(st).m = 1;", "st.n[0] = 1;", "i = sp->next->next->n[2];", "i = (i ? &st : sp)->m;", "i = sf(1).n[1];"]),
    ("incomplete", "stmt", [
        "{ struct I z; }", "i = sizeof(struct I);", "i = sizeof *ip;", "*ip;", "ip++;", "ip + 1;", "ip[1];", "{ struct I z[3]; }", "{ struct Q q; }",
        "i = sizeof(struct Q);", "{ struct Z { struct Z z; }; }", "{ struct Z { struct I z; }; }", "{ struct Z { int k; struct Z *n; struct Z m[2]; }; }",
        "{ union Z { union Z a; }; }", "{ int z[]; }", "i = ip - ip;", "vp++;", "vp + 1;", "vp[1];", "i = vp - vp;", "--ip;", "ip += 1;"], [
        "{ struct I *z; z = ip; }", "{ struct Z { struct Z *z; }; struct Z k; k.z = &k; }", "{ struct Q *q; q = 0; }", "vp = ip;", "ip = 0;", "if (ip == 0) ;",
        "{ struct Y; struct Z { struct Y *y; }; struct Y { struct Z z; }; struct Y k; k.z.y = &k; }", "i = sizeof(struct I *);", "{ int z[] = { 1, 2 }; i = sizeof z; }"]),
    ("lvalue", "stmt", [
        "1 = i;", "i + 1 = 2;", "f1(1) = 2;", "-i = 1;", "(i, 1) = 2;", "i++ = 1;", "++i = 1;", "++i++;", "i++++;", "--i--;", "&1;", "&(i + 1);", "&f1(1);", "&i++;",
        "(int)i = 1;", "&(int)i;", "(char)i = 1;", "EB = 1;", "EB++;", "++1;", "5--;", "a = p;", "a++;", "--a;", "f1 = fptr;", "f1++;", "sizeof i = 1;", "&&i;",
        "(i ? i : j) = 1;", "i = j = 1 = 2;", "i || j = 1;", "!i = 1;", "~i = 1;", "i == 1 = 2;", "&sizeof i;", "names = 0;", "st.n = cp;", "a2[1] = a;", "&EB;",
        "& &i;", "(i + j)++;", "-i++ = 2;", "i += 1 = 2;", "3 += i;", "f1(1) += 2;", "i + 1 += 2;", "a += 1;"], [
        "(i) = 1;", "*p = 1;", "*(p + 1) = 1;", "*&i = 1;", "a[1] = 2;", "1[a] = 2;", "(*p)++;", "*p++ = 1;", "++*p;", "&a;", "p = &a[1];", "&a2[1];", "&f1;",
        "sp = &st;", "p = &st.m;", "p = &sp->m;", "**pp = 1;", "i = j = 1;", "*(i ? &i : &j) = 1;", "*(char *)p = 1;", "-i++;", "i = -j--;", "&*p;", "&p[1];",
        "*sp = st;", "i += j -= 2;", "(i)++;", "*(a + 1) = 1;", "*pf() = 3;", "*(vp ? p : q) = 4;", "((struct S *)vp)->m++;"]),
    ("call", "stmt", [
        "f1();", "f1(1, 2);", "f0(1);", "f2(1);", "f2(1, cp, 3);", "vfn();", "i(1);", "p(1);", "5(1);", "st(1);", "f1(vf(1));", "f1(1;", "f1(1,);", "f1(,1);", "f1 1);",
        "f2(,);", "fptr();", "fptr(1, 2);", "(*fptr)();", "tab[0]();", "st.h();", "st.m(1);", "sf(1)(2);", "cp(1);", "\"ab\"(1);", "a(1);", "f1(st);", "sf(st);",
        "vf(st);", "f1(f1(1, 2));", "vfn(1, vf(2));", "st.h(1, 2);", "(f0)(1);", "(&f1)();", "f1((1, 2), 3);", "kr(vf(1));"], [
        "f1(1);", "f0();", "f2(1, cp);", "vfn(1);", "vfn(1, 2, 3, cp);", "kr();", "kr(1, 2);", "fptr(1);", "(*fptr)(1);", "tab[1](2);", "st.h(3);", "(&f1)(1);",
        "(f1)(1);", "f1((1, 2));", "f1(f1(f1(1)));", "f2(f1(1), (char *)p);", "vf('a');", "vfn(1, st);", "(**fptr)(2);", "sp->h(sp->m);"]),
    ("return-type", "stmt", [
        "return;", "return st;", "return vf(1);", "return 1, ;", "return 1", "return (1;", "return ];", "return sf(1);", "return struct S;", "return int;"], [
        "return 1;", "return (1);", "return i, 2;", "return f1(2);", "return 'a';", "return st.m;", "return (i ? 1 : 2);"]),
    ("return-void", "vstmt", [
        "return 1;", "return i;", "return st;", "return f1(1);", "return 'a';", "return p;", "return sf(1);"], [
        "return;", "if (i) return; else return;", "{ return; }"]),
    ("array-dim", "stmt", [
        "{ int z[0]; }", "{ int z[-1]; }", "{ int z[i]; }", "{ int z[1 - 1]; }", "{ int z[x]; }", "{ int z[2][0]; }", "{ int z[2][]; }", "{ int z[][3]; }",
        "{ int z[2; }", "{ int z]; }", "{ int z[2]]; }", "{ int z[3 - 5]; }", "{ int z[p]; }", "{ int z[f1(1)]; }", "{ int z[z]; }", "{ static int z[i]; }",
        "{ char z[3][i]; }", "{ struct Z { int k[i]; }; }", "{ struct Z { int k[0]; }; }", "{ struct Z { int k[]; }; }", "{ struct Z { int k[][2]; }; }",
        "{ int z[st]; }", "{ int z['a' - 'b']; }", "{ int z[EA]; }", "i = sizeof(int[0]);", "i = sizeof(int[i]);"], [
        "{ int z[1]; z[0] = 1; }", "{ int z[2 * 3 - 1]; z[0] = 1; }", "{ int z[sizeof(int)]; z[0] = 1; }", "{ char z['a' - '_']; z[0] = 1; }",
        "{ int z[EB]; z[4] = 1; }", "{ int z[2][3]; z[1][2] = 1; }", "{ int z[EB == 5 ? 3 : -1]; z[1] = 1; }", "{ int z[] = { 1 }; z[0] = 1; }",
        "{ int z[][2] = { { 1, 2 }, { 3, 4 } }; z[1][1] = i; }", "i = sizeof(int[3]);", "{ char z[sizeof st]; z[0] = 1; }"]),
    ("init", "stmt", [
        "{ int z = ; }", "{ int z[2] = { 1, 2, 3 }; }", "{ int z[2] = 1; }", "{ int z[2] = { i }; }", "{ struct T z = { 1, 2, 3 }; }", "{ struct T z = 1; }",
        "{ int z = { 1, 2 }; }", "{ int z = { }; }", "{ int z[2] = { }; }", "{ char z[2] = \"abcd\"; }", "{ int z[2] = { 1, 2 ; }", "{ int z[2][2] = { { 1, 2, 3 } }; }",
        "{ int z[2] = { { 1, 2 } }; }", "{ extern int z = 1; }", "{ int z(void) = 1; }", "{ typedef int z = 1; }", "{ static int z = i; }", "{ static int z = f1(1); }",
        "{ static int *z = p; }", "{ static int z = a[1]; }", "{ static int *z = &x; }", "{ int z[] = { }; }", "{ int z == 1; }", "{ int z 1; }", "{ int z = 1, ; }",
        "{ int z = 1 2; }", "{ struct T z = st; }", "{ int z = st; }", "{ static struct T z = { i }; }", "{ struct T z = { 1, 2 ; }", "{ struct T z = { 1 2 }; }",
        "{ union U z = { 1, 2 }; }", "{ struct Z { int k = 1; }; }", "{ static int z[2] = { 1, x }; }", "{ static char *z = y; }", "{ static int z = *p; }",
        "{ static int z = i++; }", "{ int z[3] = { 1, , 2 }; }", "{ int z[3] = { , 1 }; }"], [
        "{ int z = 1; }", "{ int z[2] = { 1, 2 }; }", "{ int z[2] = { 1 }; }", "{ int z[2] = { 1, 2, }; }", "{ struct T z = { 1, 2 }; }", "{ struct T z = { 1 }; }",
        "{ struct S z = st; }", "{ struct S z = sf(1); }", "{ int z = { 1 }; }", "{ char z[] = \"abcd\"; }", "{ char z[5] = \"abcd\"; }", "{ char z[4] = \"abcd\"; }",
        "{ char z[] = { \"ab\" }; }", "{ int z[2][2] = { { 1 }, { 2 } }; }", "{ int z[2][2] = { 1, 2, 3 }; }", "{ static int *z = &i; }", "{ static int *z = a + 1; }",
        "{ static char *z = \"ab\"; }", "{ static int (*z)(int) = f1; }", "{ static int (*z)(int) = &f1; }", "{ int z = i + f1(2); }",
        "{ struct { int k; struct T t; } z = { 1, { 2, 3 } }; z.k = 1; }", "{ union U z = { 1 }; }", "{ static int z = sizeof(int) * 2; }", "{ int *z = &x, **w = &z; }",
        "{ static int z = EB; }", "{ char *z[2] = { \"a\", \"b\" }; z[0] = 0; }", "{ static int *z = &a[2]; }", "{ static char *z = \"a\" \"b\"; }",
        "{ static int *z = 0; }", "{ static void *z = &i; }"]),
    ("declarator", "stmt", [
        "{ int ; }", "{ int 5; }", "{ int *; }", "{ int z w; }", "{ int z[2](void); }", "{ int z(void)[2]; }", "{ int z(void)(void); }", "{ int (z; }", "{ int z); }",
        "{ void z; }", "{ void z[2]; }", "{ int int; }", "{ short char z; }", "{ int char z; }", "{ unsigned signed z; }", "{ unsigned unsigned z; }",
        "{ unsigned void z; }", "{ unsigned struct S z; }", "{ struct S int z; }", "{ short short z; }", "{ static z; }", "{ static extern int z; }",
        "{ typedef static int z; }", "{ int z, char w; }", "{ struct { int k; }; }", "{ struct Z { }; }", "{ struct Z { int; }; }", "{ struct Z { int k }; }",
        "{ struct Z { k; }; }", "{ struct Z { int k; } ", "{ struct; }", "{ struct 5 z; }", "{ enum { }; }", "{ enum { 5 }; }", "{ enum { ZA ZB }; }",
        "{ enum { ZA = }; }", "{ enum { ZA = i }; }", "{ enum Q z; }", "{ enum; }", "{ int f(void) { return 1; } }", "{ static int z(void); }", "{ int z[2] { 1 }; }",
        "{ int z { 1 }; }", "{ int z(1); }", "{ int z(i); }", "{ int z(x, y); }", "{ int z(int,); }", "{ int z(, int); }", "{ int z(...); }",
        "{ int z(int, ..., int); }", "{ int z(int ...); }", "{ int z(int, void); }", "{ int z(void, int); }", "{ int z(void v); }", "{ int z(void, ...); }",
        "{ struct Z { int f(void); }; }", "{ struct Z { static int k; }; }", "{ int z = 1) ; }", "{ int z = 1] ; }", "{ int z } ", "{ struct T z{ ; }",
        "{ signed void z; }", "{ union Z { void v; }; }", "{ int *z[2](void); }", "{ struct S z,; }", "{ struct S *z, ; }", "{ enum E z,; }", "{ union { int k; } z,; }", "{ int (*z(void))(void)(void); }"], [
        "{ int z, *w, v[2], (*u)(void); }", "{ unsigned int z; short int w; unsigned short v; signed char t; }", "{ int (z); z = 1; }", "{ int *(z[2]); z[1] = p; }",
        "{ int (*z)[2]; z = 0; }", "{ int *(*z)(int, char *); z = 0; }", "{ struct { int k; } z; z.k = 1; }", "{ struct Z { int k; } z, *w; w = &z; }",
        "{ enum { ZA, ZB = 4, ZC }; i = ZC; }", "{ enum Z { ZA } z; z = ZA; }", "{ enum { ZA, }; i = ZA; }", "{ enum { ZA = 'a', ZB = ZA + 1 }; i = ZB; }",
        "{ int z(int, ...); }", "{ void z(void); }", "{ void *z; z = p; }", "{ typedef int Z, *ZP; Z z; ZP w; w = &z; }", "{ extern int i; }",
        "{ static int z; z = 1; }", "{ int (*(*z)(int))(char); z = 0; }", "{ int (*z[2])(int); z[0] = f1; }",
        "{ struct Z { int (*k)(void); int *l[2]; } z; z.l[0] = p; }", "{ int z(int (*)(void), char *, struct S); }", "{ int z(int k[], char l[2][3]); }",
        "{ int int_, while1, ifx; int_ = while1 = ifx = 1; }", "{ union Z { int k; char l[8]; } z; z.k = 1; }", "{ char z[2][3], *w = z[1]; *w = 1; }",
        "{ const int z = 1; volatile int w; w = z; }", "{ register int z; z = 1; }"]),
    ("type-name", "stmt", [
        "i = sizeof(int z);", "i = (int z)i;", "i = (void)i;", "i = (int[2])i;", "(struct S)i;", "(struct Q)i;", "i = (int)st;", "i = (int)sf(1);", "(union U)i;",
        "i = sizeof();", "i = sizeof;", "i = sizeof(void)(1);", "i = ()i;", "i = (int;", "i = (int *i);", "p = (int *)st;", "i = (unsigned struct S *)p;",
        "i = (int)vf(1);", "i = (char)(void)1;", "i = sizeof(static int);", "i = sizeof(extern int);", "i = sizeof(typedef int);", "i = (int(void))f1;"], [
        "i = sizeof(int *);", "i = sizeof(int (*)(int));", "i = sizeof(struct S[2]);", "i = (unsigned char)i;", "p = (int *)cp;", "vp = (void *)cp;", "(void)i;",
        "(void)st;", "(void)vf(1);", "fptr = (int (*)(int))f1;", "i = (int)(char)j;", "i = (int)p;", "i = sizeof(SS);", "i = (INT)j;", "i = sizeof(char[2][3]);",
        "i = sizeof i + sizeof(i);", "i = sizeof -i;", "i = sizeof *p;", "i = sizeof st.n;", "i = sizeof \"abc\";", "p = (int *)&st;"]),
    ("stmt-syntax", "stmt", [
        "if i ;", "if (i ;", "if () ;", "if (i) else ;", "else ;", "if (i) ; ; else ;", "if ;", "while i ;", "while () ;", "while (i ;", "while ;", "do ; while i;",
        "do ; while ();", "do ; while (i)", "do while (i) ;", "do ; ", "do i = 1; i = 2; while (i);", "for (;;;) ;", "for (;) ;", "for (i) ;", "for i ;",
        "for (i = 0; i < 1) ;", "for (i = 0, i < 1, i++) ;", "for () ;", "for (;; ;", "i = 1", "i = ;", "= 1;", "i = (1;", "i = 1);", "i = a[1;", "i = a1];", "i = 1 +;",
        "i = + ;", "i = * 2 *;", "i = 1 2;", "i j;", "i = j k;", "i = (1, );", "i = , 1;", "i ? 1;", "i ? : 2;", "i ? 1 : ;", "i = 1 : 2;", "i = i ? j;", "(i;", "i);",
        "[1];", "{ ;", "i = );", "i = {1};", "p = &;", "!;", "i = sizeof ;", "i++ j;", "++;", "i = -;", "i =  = 1;", "i <> 1;", "i =< 1;", "i => 1;", "i !== 1;",
        "i === 1;", "i = 1 /* */ 2;", "int = 1;", "i = int;", "while = 1;", "i = if;", "return return;", "if (int) ;", "i = (1 2);", "f1(1 2);", "a[1 2] = 3;",
        "a[] = 1;", "a[1,] = 1;", "for (i = 0;; i++,) ;", "if (i = ) ;", "if (i) while ;", "i.;", "i..m;", "i -> ;", "i ->> m;", ", ;", "i, ;", ",i;", "? ;", ": ;",
        "% ;", "@ ;", "` ;", "i = 1 @ 2;", "$ ;", "\\ ;"], [
        ";", "{ }", "{ ; }", ";;", "if (i) ; else ;", "if (i) { } else if (j) ; else { }", "while (i) i--;", "do ; while (i--);", "do { i = 1; i = 2; } while (0);",
        "for (;;) break;", "for (i = 0; i < 3; i++) ;", "for (i = 0, j = 1; i < j; i++, j--) ;", "i = (1, 2);", "i = i ? j : 1;", "i = i ? j ? 1 : 2 : 3;", "i = -1;",
        "i = - -1;", "i = !~-+i;", "i = a[1, 2];", "((i)) = ((1));", "if (i) if (j) ; else ;", "i = j = c = 1;", "i = 1 ? 2 : 3 ? 4 : 5;", "i+++j;", "i = i---j;",
        "p = &*&*p;", "i = (i)+(j);", "i = (i)-(j);", "p = &i, i = *p;", "{ { { } } }", "if (i) { ; } else ;", "i, j;", "for (i = 0; ; ) if (i++) break;", "*p++;",
        "i=1;j=2;", "i=i<<1>>1<=2!=3&4|5^6&&7||8;"]),
    ("operand", "stmt", [
        "i = st + 1;", "i = -st;", "i = !st;", "i = ~p;", "i = p * 2;", "i = p / q;", "i = p % 2;", "i = p << 1;", "i = 1 >> p;", "i = p & 1;", "i = p | q;",
        "i = p ^ 1;", "p = p + q;", "p = -p;", "p = 1 - p;", "i = *i;", "i = **p;", "i = i[j];", "i = st[1];", "i = *st;", "i = st && 1;", "i = 1 || st;",
        "i = st == ss;", "i = st < ss;", "i = st ? 1 : 2;", "i = i ? st : 1;", "i = i ? p : st;", "st = 1;", "st = tt;", "st = p;", "i = st;", "p = st;", "i = vf(1);",
        "i = 1 + vf(1);", "i = vf(1) + 1;", "i = !vf(1);", "i = vf(1) && 1;", "if (vf(1)) ;", "if (st) ;", "while (st) ;", "for (;st;) ;", "do ; while (vf(1));",
        "a[st] = 1;", "a[p] = 1;", "p += q;", "p *= 2;", "p %= 2;", "p <<= 1;", "p &= 1;", "i += p;", "i -= p;", "i *= p;", "i <<= p;", "st += 1;", "st++;", "--st;",
        "i = f1 + 1;", "i = f1 * 2;", "i = -f1;", "i = ~f1;", "f1 += 1;", "fptr++;", "fptr + 1;", "fptr - fptr;", "i = p - cp;", "i = i ? p : cp;", "i = i ? vf(1) : 1;",
        "i = i ? 1 : vf(1);", "st = sf;", "st = f1(1);", "*vf(1);", "i = un + 1;", "i = un == un;", "i = sf(1) + 1;", "i = p == 5;", "i = 5 < p;", "i = p == st;",
        "i = (1, st);", "i = -vp;", "i = vp * 2;", "i = +p;", "i = +st;", "i = +\"ab\";", "i = \"a\" + \"b\";"], [
        "p = p + 1;", "p = 1 + p;", "p = p - 1;", "i = p - q;", "i = p < q;", "i = p == 0;", "i = 0 != p;", "i = !p;", "i = p && q;", "i = p || i;", "if (p) ;",
        "p += 1;", "p -= i;", "p++;", "st = ss;", "st = *sp;", "st = sf(1);", "i = i ? p == q : 1;", "p = i ? p : 0;", "p = i ? 0 : q;", "vp = i ? vp : p;",
        "st = i ? st : ss;", "i ? vf(1) : vf(2);", "vp = p;", "p = vp;", "p = 0;", "fptr = f1;", "fptr = &f1;", "fptr = 0;", "i = fptr == f1;", "i = !fptr;",
        "i = f1 == 0;", "i = \"ab\"[1];", "i = 1[\"ab\"];", "i = *\"ab\";", "i = cp - y;", "i = a - p;", "i = &a[3] - a;", "p = a2[1];", "i = (vf(1), 2);",
        "i = vp == p;", "i = p == vp;", "cp = names[1];", "i = ~c;", "i = -'a';", "i <<= c;", "c += 1;", "i = (st, 1);", "i = *a;", "i = **a2;", "i = !\"ab\";",
        "un = un;", "i = EB + EC;", "ev = EB;", "ev = 3;"]),
    ("literal", "stmt", [
        "i = '';", "i = 'abcde';", "i = 'a;", "i = '", "cp = \"abc;", "cp = \"", "i = 0x;", "i = 0xg;", "i = 08;", "i = 019;", "i = 1a;", "i = 1_;", "i = 12x3;",
        "i = 0x12h;", "i = 1uu;", "i = 1ulu;", "i = 1lul;", "i = 4294967296;", "i = 0x100000000;", "i = 040000000000;", "i = 99999999999;", "i = '\\x';", "i = '\\xg';",
        "cp = \"\\x\";", "i = '\n';", "i = L'';", "i = L'ab';", "i = L'", "i = 0x1G;", "i = 3u3;", "i = 0X;", "i = 1 .;", "i = \"a\"b;"], [
        "i = 'a';", "i = '\\n';", "i = '\\'';", "i = '\"';", "i = '\\x41';", "i = '\\101';", "i = '\\0';", "i = L'a';", "i = 0x7f;", "i = 0X7F;", "i = 017;", "i = 0;",
        "i = 00;", "i = 32767;", "u = 65535u;", "u = 0xffff;", "u = 7U;", "cp = \"\";", "cp = \"\\\"\";", "cp = \"\\\\\";", "cp = \"a\\x41\" \"b\";", "cp = \"\\0\\1\";",
        "cp = \"'\";", "i = '\\a' + '\\b' + '\\f' + '\\r' + '\\t' + '\\v' + '\\\\' + '\\?';", "cp = \"/* no */ // no\";", "i = 1 /* '\" */ + 2;",
        "i = 0x0000000000000001;", "i = 000000000000000007;"]),
    ("literal32", "stmt32", [
        "i = 4294967296;", "i = 0x100000000;", "i = 040000000000;", "u = 4294967296u;", "u = 0x1ffffffffu;", "i = 99999999999999999999;"], [
        "i = 2147483647;", "u = 4294967295u;", "u = 0xffffffff;", "i = 0x7fffffff;", "u = 037777777777;", "i = 65536;", "i = 3L; u = 3uL; u = 3LU;",
        "{ long z; unsigned long w; long int v; z = w = v = 1; }"]),
    ("literal16", "stmt16", [
        "i = 65536;", "i = 0x10000;", "i = 0200000;", "u = 65536u;", "{ long z; }", "{ unsigned long z; }", "{ long int z; }"], [
        "u = 65535u;", "u = 0xffff;", "i = 0x7fff;", "u = 0177777;", "i = 32767;"]),
    ("float", "stmtf", [
        "f = f % 2;", "f = ~f;", "f = f << 1;", "f = 1 << f;", "f = f & 1;", "f = 1 | f;", "f = f ^ f;", "a[f] = 1;", "switch (f) { }", "f %= 2;", "i %= f;", "i <<= f;",
        "f &= 1;", "p = p + f;", "p = f + p;", "p = p - f;", "p = f;", "f = p;", "p = (int *)f;", "f = (float)p;", "f = *f;", "f = f[1];", "f = f.m;", "f = f(1);",
        "i = f == p;", "i = p < f;", "p = i ? p : f;", "f = i ? st : f;", "f = i ? f : vf(1);", "f = i ? vf(1) : f;", "{ int z[1.5]; }", "{ enum { ZA = 1.5 }; }",
        "switch (i) { case 1.5: ; }", "f = 1.5e;", "f = 1e+;", "f = 1.5x;", "f = 1.5.5;", "f = 1.5ff;", "f = 1.5u;", "f = 1e1.5;", "{ unsigned float z; }",
        "{ long float z; }", "{ short double z; }", "{ float int z; }", "{ char z[2] = 1.5; }", "st = f;", "f = st;", "1.5 = f;", "f + 1 = 2;", "&1.5;",
        "{ static float z = f; }", "p += f;", "f += p;", "p[f] = 1;"], [
        "f = 1.5;", "f = 1.5f;", "f = 1e3;", "f = .5;", "f = 1.;", "f = 1.e-2f;", "f = i;", "i = f;", "f = f * 2 + i / f - 1;", "i = f < 1;", "i = !f;", "f = -f;",
        "f = +f;", "i = f && i;", "if (f) ;", "while (f) break;", "i = f ? 1 : 2;", "f = i ? f : 1;", "f = i ? 1 : f;", "f = ff(1);", "f = ff(f);", "i = f1(f);",
        "vfn(1, f);", "f = (float)i;", "i = (int)f;", "c = f;", "{ static float z = 1.5; z = 2; }", "{ static float z = 1; z = 2; }", "{ double z; z = f; }",
        "{ float z[2] = { 1, 2.5 }; z[0] = 1; }", "st.g = 1.5;", "*fp = 2;", "fp = &f;", "i = f == 1.5f;", "f = EB;", "{ int z[(int)2.5]; z[0] = 1; }",
        "i = sizeof f + sizeof 1.5;"]),
    ("asm", "stmt", [
        "asm;", "asm();", "asm(i);", "asm(\"nop\";", "asm(\"nop\")", "asm \"nop\";", "asm(\"nop\", 1);", "i = asm(\"nop\");"], [
        "asm(\"\");", "asm(\"nop\");", "asm(\"nop\" \"\");"]),
    ("file-syntax", "file", [
        "int z", "int z(", "int z(void", "int z[", "int z[3", "int z = 1 int w;", "int 5;", "5;", "i = 1;", "if (1) ;", "return 1;", "{ }", ";", "int;", "int *;", "z;",
        "z w;", "int z, ;", "int , z;", "int z; }", "int z(void) int w;", "int z(void) { return 1; ", "int z(void) return 1;", "int z(void) { return 1; };",
        "int z(int) { return 1; }", "int z(int k, char) { return k; }", "int z(int k, int k) { return k; }", "void z(void v) { }", "int z(void, int k) { return k; }",
        "int z(int k, void) { return k; }", "int z(...) { return 1; }", "struct { int k; };", "struct Z { int k; }", "struct Z { int k; } z w;", "struct Z { int k };",
        "struct Z { };", "struct Z int z;", "enum { };", "enum Q z;", "struct Q z;", "typedef;", "typedef int;", "typedef int Z = 1;",
        "typedef int Z(void) { return 1; }", "extern;", "static;", "static z;", "extern int z = 1;", "static extern int z;", "typedef extern int z;", "int z(void) = 1;",
        "int z(void)(void);", "int z(void)[2];", "int z[2](void);", "void z;", "void z[2];", "struct I z;", "struct I z[2];", "int z[];", "static int z[];",
        "int z[2][];", "int z[-1];", "int z[0];", "int z[i];", "int z[2] = { 1, 2, 3 };", "int z = i;", "int z = f1(1);", "int *z = p;", "int z = a[0];",
        "char z[2] = \"abc\";", "int z = { };", "int z[] = { };", "int z = 1 +;", "int z = (1;", "int z = 1);", "int z{;", "int z { 1 };", "int z[2] { 1 };",
        "struct T z = 1;", "struct T z = { 1, 2, 3 };", "struct T z = st;", "break;", "case 1: ;", "goto l;", "l: ;", "int z(int k) { int k; return k; }",
        "int i(void);", "int f1;", "int f1(void);", "char f1(int);", "int f1(int, int);", "extern char i;", "static int i;", "typedef int i;", "enum { i };",
        "enum { EA };", "enum E { ZZ };", "struct S { int q; };", "union S { int q; };", "struct E { int q; };", "enum { ZA, ZB = ZA, ZA };",
        "int z(void) { return 1; } int z(void) { return 2; }", "int z(int); int z(char);", "int z; char z;", "int z; int z(void);", "else ;", "while (1) ;",
        "do ; while (0);", "for (;;) ;", "#pragma pack(3)", "#pragma pack(pop)", "int z @;", "asm(\"nop\";", "union Z { int a; int a; };", "struct Z { struct Z z; };",
        "int (z;", "int z);", "unsigned void z;", "short char z;", "signed unsigned z;", "struct S z,;", "struct Z { int k; } *z,;", "enum { ZZ } z,;"], [
        "int z;", "int z = 1;", "int z(void);", "int z(int);", "int z(void) { return 1; }", "int z(int k, char *l) { return k + *l; }", "static int z;", "extern int z;",
        "extern int z; int z;", "int z(int); int z(int);", "int z(int); int z(int k) { return k; }", "static int z(void); static int z(void) { return 1; }",
        "struct Z { int k; };", "struct Z;", "struct Z { int k; } z;", "enum { ZA };", "enum Z { ZA } z;", "typedef int Z; Z z;", "typedef int Z(int); Z z;",
        "extern int z[]; int z[3];", "int z[] = { 1, 2 };", "int z[2] = { 1, 2, };", "char z[] = \"abc\";", "char *z[] = { \"a\", \"b\", 0 };", "int *z = &i;",
        "int *z = a + 2;", "int (*z)(int) = f1;", "int z = sizeof(struct S) + EB;", "struct S z = { 1, \"ab\" };", "struct T z[2] = { { 1, 2 }, { 3 } };",
        "extern int i; extern int i;", "int f1(int); int f2(int, char *);", "struct Z { struct Z *n; union { int a; char b; } u; };",
        "int z(struct S); struct S w(struct S, int);", "int z(int (*)(int), ...);", "int z, w = 2, *v = &w;", "void *z(void);",
        "int z(int k) { { int k; k = 1; } return k; }", "int z(int S) { return S; }", "asm(\"\");", "#pragma pack(1)\n#pragma pack()",
        "#pragma pack(push, 2)\n#pragma pack(pop)", "union Z { int a; char b; } z = { 3 };", "int (*z[2])(int) = { f1, 0 };",
        "int z(int k[3], int l[][2]) { return k[0] + l[0][0]; }", "char z[3][4] = { \"ab\", \"cd\" };", "unsigned z = -1;",
        "short int z; unsigned char w; signed char v;"]),
]


def plain(key, kind, t, ops):
    """A cell's bare program and the line to report."""
    head = pre(True)
    if kind == "ret":
        return head + "%s fn(void)\n{\nreturn %s;\n}\n" % (t, ops[0] if key[2] != "-" else ""), head.count("\n") + 3
    if kind == "file":
        return head + t % ops + "\n", head.count("\n") + 1
    return head + "void fn(void)\n{\n%s\n}\n" % ((t % ops) + (";" if kind == "stmt" else "")), head.count("\n") + 3


def plain_rule(place, t):
    head = pre(True if place not in ("stmt16",) else False)
    if "@@" in t:
        at = t[:t.index("@@")].count("\n")
        t = t.replace("@@", "")
    else:
        at = 0
    if place == "file":
        return head + t + "\n", head.count("\n") + 1 + at
    fn = "void target(int x, char *y)" if place == "vstmt" else "int target(int x, char *y)"
    return head + fn + "\n{\n" + t + "\n" + ("" if place == "vstmt" else "return x;") + "\n}\n", head.count("\n") + 3 + at


def table():
    with open(data("reject.json")) as f:
        return json.load(f)


# ---- mutants of a valid program (data/base.c) ----
TOK = re.compile(r"""\s+|[A-Za-z_]\w*|0[xX][0-9a-fA-F]+|\d+\.?\d*(?:[eE][+-]?\d+)?[uUlLfF]*|"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*'|\.\.\.|<<=|>>=|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|.""")


def data(name):
    return os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "data", name)


_base = []


def mutant(n):
    """The n-th mutant: (text, line of its first changed token)."""
    if not _base:
        with open(data("base.c")) as f:
            ts = TOK.findall(f.read())
        at, ln = [], 1
        for t in ts:
            at.append(ln)
            ln += t.count("\n")
        _base.extend([ts, at, [i for i, t in enumerate(ts) if not t.isspace()], [t for t in ts if not t.isspace()]])
    r = random.Random("mutant %d" % n)
    ts, at, idx, allt = _base
    ts = list(ts)
    first = 1 << 30
    for _ in range(1 if r.random() < .9 else 2):
        i, k = r.choice(idx), r.random()
        first = min(first, at[i])
        if k < .3:
            ts[i] = " "
        elif k < .45:
            ts[i] = ts[i] + " " + ts[i]
        elif k < .75:
            ts[i] = r.choice(allt)
        elif k < .9:
            ts[i] = ts[i] + " " + r.choice(allt)
        else:
            j = r.choice(idx)
            first = min(first, at[j])
            ts[i], ts[j] = ts[j], ts[i]
    return "".join(ts), first


# ---- carriers ----
def noise(r, splice=False):
    """A line that means nothing (or several)."""
    k = r.randrange(9)
    if k < 3:
        return ["", "   ", "\t"][k]
    if k == 3:
        return "/* %s */" % r.choice(["break;", "int i; }", "'", "\"", "*", "// x", "{", "#if 0", "/"])
    if k == 4:
        return "// %s" % r.choice(["*/", "/*", "\"", "'", "}", "return", "??"])
    if k == 5:
        return "/*" + "\n".join(r.choice(["", "x;", "}", "* /", "'", "\"", "#endif", "/ *", "//"]) for _ in range(r.randrange(2, 6))) + "\n*/"
    if k == 6 and splice:
        return r.choice(["// a \\\n } b", "/* \\\n */", "\\\n", "/\\\n* c *\\\n/", "#if 0\n }\n@\n#endif", "#ifdef NO\n(\n#else\n\n#endif", "#define NOISE%d 1 \\\n 2" % r.randrange(10 ** 9), "#undef NO"])
    return " " * r.randrange(4)


def mix(r, text, amount, splice=False):
    out = []
    for ln in text.split("\n"):
        while r.random() < amount:
            out.append(noise(r, splice))
        out.append(ln)
    return "\n".join(out)


WRAP = ["%s;", "%s;", "%s;", "(%s);", "i = (%s, 1);", "f1((%s, 1));", "a[(%s, 2)] = 1;", "if ((%s, i)) ;", "while ((%s, 0)) ;", "for (%s;0;) ;", "for (;0;%s) ;", "i ? (%s, 1) : 2;", "i && (%s, 1);", "i = 0 || (%s, 1);",
        "i += (%s, 3);", "p = (%s, a) + 1;", "{ int z = (%s, 2); }", "sp->m = ((%s), (2));", "i, %s, j;", "do %s; while (0);", "if (i) %s; else ;", "if (i) ; else %s;", "switch ((%s, 1)) { case 3: ; }", "i = f2(1, (%s, cp));", "(void)(%s);", "{ { %s; } }"]
NEST = [("if (i) {", "}"), ("if (!j) ; else {", "}"), ("{", "}"), ("{ int loc; loc = 1;", "}")]
LOOP = [("while (i--) {", "}"), ("do {", "} while (i--);"), ("for (;i;) {", "}"), ("switch (i) { default: {", "} }"), ("switch (i) { case 7: case 9: {", "} break; }"), ("for (i = 0; i < 3; i++) { j++;", "}")]
OPEN = re.compile(r"goto|label")


def fillers():
    out = []
    for name, place, neg, pos in RULES:
        if place == "stmt":
            out += [t for t in pos if not re.search(r"goto|\bl\d+ *:|\b[xL]\w* *:|@@|pragma|asm|\n|return|\bz\(|extern", t)]
    return out


FILL = fillers()


def func(r, k):
    """A valid function of k statements."""
    n = "fill%d" % r.randrange(10 ** 9)
    b = [r.choice(FILL) for _ in range(k)]
    return "int %s(int x, char *y)\n{\n%s\nreturn x;\n}\n" % (n, "\n".join("{ %s }" % t if r.random() < .7 or not re.match(r"\w+ *[-+=]|p|if|for|while", t) else t for t in b))


def carry(r, place, snip, fl=True, splice=False):
    """A program around the snippet (@@: the line to report): (text, line)."""
    head = pre(fl)
    for _ in range(r.choice([0, 0, 1, 2])):
        head += func(r, r.randrange(4))
    if "@@" not in snip:
        snip = "@@" + snip
    if place == "file":
        body = snip + "\n"
    else:
        pl, post, end = [], [], []
        for _ in range(r.choice([0, 0, 1, 1, 2, 4])):
            o, cl = r.choice(NEST + LOOP if place == "any" else NEST)
            pl.append(o)
            if r.random() < .4:
                pl.append("{ %s }" % r.choice(FILL))
            post.insert(0, cl)
        for _ in range(r.choice([0, 0, 1, 2])):
            pl.append("{ %s }" % r.choice(FILL))
        if r.random() < .5:
            post.insert(0, "i = 1;")
        fn = {"vstmt": "void target(int x, char *y)", "any": "int target(int x, char *y)", "stmt": "int target(int x, char *y)"}.get(place, place)
        ret = "" if place not in ("any", "stmt") else "return x;\n"
        body = fn + "\n{\n" + "\n".join(pl + [snip] + post) + "\n" + ret + "}\n"
    tail = ""
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        tail += func(r, r.randrange(4))
    am = r.choice([0, 0, .05, .3])
    a, b = (head + body + tail).split("@@")
    a = mix(r, a, am, splice)
    b = b.split("\n")
    # (nothing between the lines of the snippet itself)
    k = snip.split("@@")[1].count("\n") + 1
    b = "\n".join(b[:k]) + "\n" + mix(r, "\n".join(b[k:]), am, splice)
    return a + b, a.count("\n") + 1
