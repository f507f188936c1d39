"""C07: floating-point code against exact binary32 arithmetic."""
import math
from vt import prog, targets
from vt.fexpr import Types, Gen, X, Bad, bits, f32, unbits

TECHNIQUE = "random mixed float/integer expressions, assignments, calls and conditions over boundary and special operands run on every 32-bit target; result bits compared with exact IEEE binary32 arithmetic"
NOTE = ("Random sampling biased to boundaries; all special values. Assumes the oracle (double rounding from binary64 is exact for these operations; integer conversions use exact rationals), "
        "the host FPU, DOSBox's FPU. DOSBox does not compare NaNs properly, so those are judged natively and on MIPS only. NaN signs and payloads and out-of-range conversions (undefined) are not judged.")
RULE = "a case is one expression evaluated for one operand tuple, result bits compared; distinct: one per program"

PRE = r"""
int putchar(int);
typedef union { float f; unsigned u; int i; } U;
void px(unsigned v) { int i; for (i = 28; i >= 0; i -= 4) putchar("0123456789abcdef"[(v >> i) & 15]); putchar('\n'); }
void pf(float f) { U u; u.f = f; if ((u.u & 0x7f800000) == 0x7f800000 && (u.u & 0x7fffff)) u.u = 0x7fc00000; px(u.u); }
void pb(unsigned u) { if ((u & 0x7f800000) == 0x7f800000 && (u & 0x7fffff)) u = 0x7fc00000; px(u); }
float fn(unsigned u) { U x; x.u = u; return x.f; }
float f1(float a) { return a; }
float mix(int i, float a, unsigned u, float b) { return i ? a : u ? b : a; }
"""


def show(t, v):
    if t == "float":
        return "%08x" % (0x7fc00000 if v != v else bits(v))
    return "%08x" % (v & 0xffffffff)


def program(c, key, target):
    r = c.rng("fp", key)
    T = Types(32)
    T.nan = not target.startswith("dos")      # DOSBox's FPU takes unordered for greater
    g = Gen(r, T)
    src, exp, calls = PRE, [], ""
    n = 0
    for k in range(r.randint(10, 16)):
        nv = r.randint(1, 4)
        vt = [r.choice(["float", "float", r.choice(list(T.I))]) for _ in range(nv)]
        vars_ = ["abcd"[i] for i in range(nv)]
        wh = r.random()      # where the operands live

        def leaf():
            if r.random() < .12:
                return g.constant(True)
            i = r.randrange(nv)
            if vt[i] == "float" and r.random() < .1:
                return X("f1(%s)" % vars_[i], 16, "float", lambda e, i=i: e[i])
            return X(vars_[i], 16, vt[i], lambda e, i=i: e[i])
        for _ in range(40):
            e = g.expr(r.randint(1, 4), leaf)
            if not e.const and len(e.c) < 75:
                break
        form = r.choice([0, 1, 2, 3, 4, 5, 7, 8])
        ret = r.choice(["float", "float", e.t, r.choice(T.names)])
        init = None
        body = ""
        if form <= 2:
            body = "return %s;" % e.c
            f = lambda env: T.conv(e.t, ret, e.f(env))
        elif form == 3:          # a condition
            st = r.choice(["if (%s) return 1; return 2;", "return (%s) ? 1 : 2;", "while (%s) return 1; return 2;", "for (; %s; ) return 1; return 2;",
                           "do { if (x++) return 1; } while (%s); return 2;", "return 2 - !!(%s);", "return (%s) && 1 ? 1 : 2;", "if (!(%s)) return 2; else return 1;",
                           "return 2 - ((%s) || 0);"])
            ret = "int"
            body = ("int x = 0; " if "x++" in st else "") + st % e.c
            f = lambda env: 1 if T.true(e.f(env)) else 2
        elif form == 4:          # through a local of some type
            lt = r.choice(T.names)
            body = r.choice(["%s t = %s; return t;", "%s t; t = %s; return t;", "%s t[2]; t[1] = %s; t[0] = 7; return t[1];"]) % (lt, e.c)
            f = lambda env: T.conv(lt, ret, T.conv(e.t, lt, e.f(env)))
        elif form == 5:          # read and reassigned
            lt = r.choice(T.names)
            v0 = g.floatval() if lt == "float" else g.intval(lt)
            i0 = "fn(%uu)".replace("%u", "%d") % bits(v0) if lt == "float" else g.intlit(v0)[0]
            op = r.choice("+-*/")
            if lt != "float" and T.I[lt][0] == 32 and v0 < 0:
                v0 = T.wrap(lt, v0)
            lv = X("t", 16, lt, lambda env, v0=v0: v0)
            be = g.binary(op, lv, e)
            body = "%s t; t = %s; %s t = %s; return t;" % (lt, i0, r.choice(["", "", "px(7);"]), be.c)
            pre7 = "px(7)" in body
            f = lambda env: T.conv(lt, ret, T.conv(be.t, lt, be.f(env)))
            if pre7:
                f0 = f
                f = lambda env: (f0(env), "00000007\n")
        elif form == 7:          # argument conversion
            pt = r.choice(["mix(0, %s, 0, 3)", "mix(1, %s, 5, 2)", "mix(0, 1, 5, %s)", "f1(%s)"])
            body = "return %s;" % (pt % e.c)
            f = lambda env: T.conv("float", ret, 1.0 if False else T.conv(e.t, "float", e.f(env)))
        else:                    # switch or index on a converted value
            body = "static short tab[8] = {5, 9, 2, 6, 1, 3, 4, 8}; int z = %s; return tab[z & 7];" % e.c
            tab = [5, 9, 2, 6, 1, 3, 4, 8]
            f = lambda env: T.conv("int", ret, tab[T.conv(e.t, "int", e.f(env)) & 7])
        params = ", ".join("%s %s" % (t, v) for t, v in zip(vt, vars_))
        if wh < .25:
            src += "".join("%s%s g%d%s;\n" % (r.choice(["", "static "]), t, k, v) for t, v in zip(vt, vars_))
            src += "%s r%d(%s) { %s }\n" % (ret, k, params, body)
        else:
            src += "%s r%d(%s) { %s }\n" % (ret, k, params, body)
        done = 0
        for _ in range(70):
            if done >= 24:
                break
            env = [g.floatval() if t == "float" else g.intval(t) for t in vt]
            try:
                v = f(env)
            except Bad:
                continue
            if isinstance(v, tuple):
                exp.append(v[1][:-1])
                v = v[0]
            done += 1
            n += 1
            args = []
            for t, x in zip(vt, env):
                if t == "float":
                    args.append("fn(0x%xu)" % (0x7fc00000 if x != x else bits(x)))
                else:
                    args.append(g.intlit(x)[0] if x != -(1 << 31) else "(-2147483647 - 1)")
            calls += " %s(r%d(%s));\n" % ("pf" if ret == "float" else "px", k, ", ".join(args))
            exp.append(show(ret, v))
    # several calling functions: main would be too long for one
    lines = calls.split("\n")
    src += "".join("void m%d(void) {\n%s\n}\n" % (i, "\n".join(lines[i * 60:i * 60 + 60])) for i in range((len(lines) + 59) // 60))
    src += "int main(void) { %s return 0; }\n" % " ".join("m%d();" % i for i in range((len(lines) + 59) // 60))
    return {"files": {"m.c": src}, "exp": ("\n".join(exp) + "\n").encode(), "n": n, "vkey": "float", "sample": "%d float results, e.g. %s" % (n, exp[-1] if exp else "")}


def check(c):
    c.rule = RULE
    c.assumptions = ["the exact-arithmetic oracle", "the host's x87, DOSBox's FPU, qemu"]
    c.b.inst(("lcl", "lcdh", "lcdu"))
    for t, n in (("linux", (420, 20000)), ("dosh", (60, 2000)), ("dosu", (30, 1500)), ("mips", (150, 8000))):
        if len(c.viol) < 10:
            prog.explore(c, t, ["%s-%d" % (t, i) for i in range(c.n(*n))], program, per=10, unit="float_results_compared")
