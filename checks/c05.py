"""C05: what the compiler evaluates itself has the value C prescribes for the run-time operation."""
from vt import prog, targets
from vt.fexpr import Types, Gen, X, Bad, bits, f32, unbits

TECHNIQUE = "random constant expressions in every context that folds them, compiled and run; the value, size and signedness the program reports compared with an exact evaluator, together with the same expression over variables"
NOTE = ("Random sampling biased to type boundaries, every operator and context, int of 16 and 32 bits, float on 32-bit targets. Assumes the exact evaluator; expressions that divide by zero, "
        "shift out of range or convert out of range are undefined and not judged.")
RULE = "a case is one constant expression in one context (value, sizeof or signedness compared with the exact evaluator); distinct: one per program"

PRE = r"""
int putchar(int);
%s
typedef union { %s unsigned u; int i; } U;
void px(unsigned v) { int i; for (i = sizeof v * 8 - 4; i >= 0; i -= 4) putchar("0123456789abcdef"[(v >> i) & 15]); putchar('\n'); }
int ti(int a) { return a; } unsigned tu(unsigned a) { return a; } char tc(char a) { return a; } short th(short a) { return a; } unsigned char tb(unsigned char a) { return a; }
"""


def program(c, key, target):
    r = c.rng("const", key)
    dm = targets.TARGETS[target].dm()
    B = dm.bits
    fl = B == 32
    T = Types(B, floats=fl)
    T.nan = not target.startswith("dos")
    g = Gen(r, T)
    src = PRE % ("float tf(float a) { return a; }" if fl else "", "float f;" if fl else "")
    if fl:
        src += "void pf(float f) { U u; u.f = f; if ((u.u & 0x7f800000) == 0x7f800000 && (u.u & 0x7fffff)) u.u = 0x7fc00000; px(u.u); }\n"
    main, exp, fns = [], [], 0
    n = 0

    def show(t, v):
        if t == "float":
            return "%08x" % (0x7fc00000 if v != v else bits(v))
        return "%0*x" % (B // 4, v & ((1 << B) - 1))

    def out(t, ctext, v):
        nonlocal n
        main.append(("pf(%s);" if t == "float" else "px(%s);") % ctext)
        exp.append(show(t, v))
        n += 1

    k = 0
    tries = 0
    # run-time leaves hold the same values as the constants they stand for
    while k < 26 and tries < 400:
        tries += 1
        fx = fl and r.random() < .4
        leaves = []

        def leaf():
            x = g.constant(fx)
            leaves.append(x)
            return x
        e = g.expr(r.choice([0, 1, 1, 2, 2, 3, 4]), leaf, fx)
        if len(e.c) > 90:
            continue
        try:
            v = e.f(None)
        except Bad:
            continue
        if e.t == "float" and (v != v or v in (float("inf"), float("-inf"))) and r.random() < .7:
            continue
        k += 1
        size = T.size[e.t]
        form = r.randrange(17)
        try:
            if form <= 2:
                t = r.choice(T.names)
                w = T.conv(e.t, t, v)
                nm = "g%d" % k
                if form == 0:
                    src += "%s%s %s = %s;\n" % (r.choice(["", "static "]), t, nm, e.c)
                    out(t, nm, w)
                elif form == 1:
                    src += "%s %s[3] = { 1, %s, 2 };\n" % (t, nm, g.par(e, 2))
                    out(t, nm + "[1]", w)
                    out(t, nm + "[2]", T.conv("int", t, 2))
                else:
                    src += "struct { char c; %s m; char d; } %s = { 1, %s, 2 };\n" % (t, nm, g.par(e, 2))
                    out(t, nm + ".m", w)
                    out("int", nm + ".d", 2)
            elif form == 3:
                t = r.choice(T.names)
                src += "%s r%d(void) { %s }\n" % (t, k, "return %s;" % e.c if r.random() < .5 else "static %s s = %s; return s;" % (t, e.c) if r.random() < .5 else "%s a = %s; return a;" % (t, e.c))
                out(t, "r%d()" % k, T.conv(e.t, t, v))
            elif form == 4:
                if e.t == "float" or not 1 <= v <= 2000:
                    continue
                src += "char d%d[%s];\n" % (k, e.c)
                out("int", "sizeof d%d" % k, v)
            elif form == 5:
                if e.t == "float" or not dm.imin <= v <= dm.imax:
                    continue
                if v == dm.imax:
                    continue
                src += "enum { e%da = %s, e%db };\n" % (k, g.par(e, 2), k)
                out("int", "e%da" % k, v)
                out("int", "e%db" % k, T.wrap("int", v + 1))
            elif form == 6:
                if e.t == "float":
                    continue
                w = T.wrap("int", v)
                oth = T.wrap("int", w + r.choice([1, -1, 256, 3]))
                src += "int s%d(int x) { switch (x) { case %s: return 5; case %s: return 6; default: return 7; } }\n" % (k, e.c if B == 32 or e.t == "int" else "(int)(%s)" % e.c, g.intlit(oth)[0])
                for x in (w, oth, T.wrap("int", w ^ 64)):
                    out("int", "s%d(%s)" % (k, g.intlit(x)[0]), 5 if x == w else 6 if x == oth else 7)
            elif form == 7:
                st = r.choice(["if (%s) return 1; return 2;", "return (%s) ? 1 : 2;", "while (%s) return 1; return 2;", "for (; %s; ) return 1; return 2;",
                               "int x = 0; do { if (x++) return 1; } while (%s); return 2;", "return 2 - !!(%s);", "return x && (%s) ? 1 : 2;", "return (%s) && x ? 1 : 2;",
                               "return (%s) || !x ? 1 : 2;", "return 2 - (!x || (%s));", "if (!(%s)) return 2; else return 1;"])
                st = st if "x++" in st or "x" not in st else "int x = ti(1); " + st
                src += "int c%d(void) { %s }\n" % (k, st % e.c)
                out("int", "c%d()" % k, 1 if T.true(v) else 2)
            elif form == 8:
                out("int", "sizeof(%s)" % e.c, size)
            elif form == 9:
                if e.t == "float":
                    continue
                # signedness of the promoted type
                out("int", "((%s) * 0 - 1 > 0)" % e.c, int(T.promote(e.t) == "unsigned"))
                out("int", "((1 ? -1 : (%s)) > 0)" % e.c, int(T.common("int", e.t) == "unsigned"))
            elif form == 10:
                t = r.choice(["ti:int", "tu:unsigned", "tc:char", "th:short", "tb:unsigned char"] + (["tf:float"] * 2 if fl else [])).split(":")
                out(t[1], "%s(%s)" % (t[0], g.par(e, 2)), T.conv(e.t, t[1], v))
            elif form == 11:
                # a constant part of a larger expression
                t = r.choice(T.names)
                xv = g.floatval() if t == "float" else g.intval(t)
                src += "%s x%d = %s;\n" % (t, k, "0" if t == "float" else g.intlit(xv)[0])
                if t == "float":
                    main.append("{ U u; u.u = 0x%x; x%d = u.f; }" % (0x7fc00000 if xv != xv else bits(xv), k))
                    if xv != xv:
                        continue
                lv = X("x%d" % k, 16, t, lambda _, xv=xv: xv)
                op = r.choice(["+", "-", "*", "/", "<", ">=", "==", "&&", "||"] + ([] if "float" in (t, e.t) else ["&", "|", "^", "%"]))
                b = g.binary(op, lv, e) if r.random() < .5 else g.binary(op, e, lv)
                if r.random() < .4:
                    op2 = r.choice(["+", "-", "*"] + ([] if "float" in (b.t, t) else ["&", "|", "^"]))
                    b = g.binary(op2, b, g.constant(False))
                out(b.t, b.c, b.f(None))
            elif form == 12:
                # the very same expression over variables
                vs = []

                def leafv():
                    x = g.constant(fx)
                    vs.append(x)
                    if r.random() < .3:
                        return x
                    return X("v%d_%d" % (k, len(vs) - 1), 16, x.t, x.f)
                e2 = g.expr(r.choice([1, 2, 3]), leafv, fx)
                if len(e2.c) > 110:
                    continue
                v2 = e2.f(None)
                src += "".join("%s v%d_%d = %s;\n" % (x.t, k, i, x.c) for i, x in enumerate(vs))
                out(e2.t, e2.c, v2)
            elif form == 13:
                if e.t == "float":
                    continue
                w = v & 15
                src += "static char z%d[16] = \"0123456789abcdef\";\n" % k
                out("int", "z%d[(%s) & 15]" % (k, e.c), ord("0123456789abcdef"[w]))
                out("int", "*(z%d + ((%s) & 15))" % (k, e.c), ord("0123456789abcdef"[w]))
            elif form == 14:
                t = r.choice(list(T.I))
                i0 = g.intval(t)
                if e.t == "float":
                    continue
                op = r.choice(["+", "-", "*", "&", "|", "^", "/", "%"])
                be = g.binary(op, X("", 16, t, lambda _, i0=i0: i0), e)
                w = T.conv(be.t, t, be.f(None))
                src += "%s a%d(%s y) { y %s= %s; return y; }\n" % (t, k, t, op, g.par(e, 2))
                out(t, "a%d(%s)" % (k, g.intlit(i0)[0]), w)
            elif form == 15:
                # literals alone
                if fl and r.random() < .6:
                    s, x = g.floatlit(g.floatval(False))
                    out("float", s, x)
                else:
                    t = r.choice(list(T.I))
                    x = g.intval(t)
                    s, ty = g.intlit(x)
                    out("int", s, x)
                    out("int", "sizeof %s" % s if s[0] not in "(-" else "sizeof(%s)" % s, T.size[ty])
            else:
                t = r.choice(T.names)
                w = T.conv(e.t, t, v)
                out(t, "(%s)(%s)" % (t, e.c), w)
        except Bad:
            continue
    parts = [main[i:i + 40] for i in range(0, len(main), 40)]
    src += "".join("void m%d(void) {\n%s\n}\n" % (i, "\n".join(p)) for i, p in enumerate(parts))
    src += "int main(void) { %s return 0; }\n" % " ".join("m%d();" % i for i in range(len(parts)))
    return {"files": {"m.c": src}, "exp": ("\n".join(exp) + "\n").encode(), "n": n, "vkey": "const", "sample": "%d folded values, e.g. %s gives %s" % (n, main[-1] if main else "", exp[-1] if exp else "")}


def check(c):
    c.rule = RULE
    c.assumptions = ["the exact evaluator", "the assemblers, CPU, DOSBox and qemu that run the programs"]
    c.b.inst(("lcl", "lcds", "lcdh"))
    for t, n in (("linux", (2200, 60000)), ("doss", (600, 12000)), ("mips", (400, 8000)), ("dosh", (60, 2000))):
        if len(c.viol) < 10:
            prog.explore(c, t, ["%s-%d" % (t, i) for i in range(c.n(*n))], program, per=15, unit="constants_compared")
