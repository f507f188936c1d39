"""Programs that stress calls and control flow, with Python models of what they print."""


def w32(v):
    v &= 0xffffffff
    return v - (1 << 32) if v >> 31 else v


class Bits:
    """int of a target"""

    def __init__(self, bits):
        self.b = bits
        self.m = (1 << bits) - 1

    def w(self, v):
        v &= self.m
        return v - self.m - 1 if v >> (self.b - 1) else v

    @property
    def max(self):
        return self.m >> 1

    @property
    def min(self):
        return -(self.m >> 1) - 1

    def lit(self, v):
        """A constant expression of type int."""
        v = self.w(v)
        return "(-%d - 1)" % self.max if v == self.min else str(v) if v >= 0 else "(%d)" % v


# ---- control flow: statement trees, flattened to a little machine that gives the meaning ------------------------------

class Maze:
    """One function: random nesting of every statement form with gotos into and out of everything."""

    def __init__(self, r, I, name):
        self.r, self.I, self.name = r, I, name
        self.labels = ["L%d" % i for i in range(r.randint(0, 5))]
        self.todo = list(self.labels)
        self.code = []      # (op, args)
        self.nlab = 0
        self.at = {}
        self.k = 0
        self.uid = 0
        body = self.block(r.randint(2, 5), r.randint(3, 7), None, None)
        while self.todo:
            l = self.todo.pop()
            self.mark(l)
            body += "%s: %s\n" % (l, self.acc())
        self.op("ret")
        self.text = "int %s(int a, int b) { int acc = a, fuel = 200; int c0 = b, c1 = 0, c2 = 0;\n%s return acc; }\n" % (name, body)

    def op(self, *a):
        self.code.append(a)

    def new(self):
        self.nlab += 1
        return "@%d" % self.nlab

    def mark(self, l):
        self.at[l] = len(self.code)

    def acc(self):
        """acc = acc * odd + k"""
        self.k += 1
        k = self.r.choice([self.k, self.r.randint(0, 3000)])
        v = self.r.choice(["c0", "c1", "c2", None, None])
        self.op("acc", k, v)
        return "acc = acc * 5 + %d%s;" % (k, " + " + v if v else "")

    def cond(self, jump):
        """A condition; the machine jumps to `jump` when it is false.  Every test takes fuel."""
        r = self.r
        k = r.randrange(7)
        v = r.choice(["acc", "c0", "c1", "c2"])
        m = r.choice([1, 2, 3, 4, 7])
        n = r.randint(-3, 3)
        t = [("(%s & %d) != 0" % (v, m), "and", v, m), ("%s > %d" % (v, n), "gt", v, n), ("%s == %d" % (v, n), "eq", v, n),
             ("!(%s & %d)" % (v, m), "nand", v, m), ("%s < %d || (c1 & 1)" % (v, n), "ltor", v, n),
             ("%s != %d && %s & %d" % (v, n, v, m), "neand", v, (n, m)), ("%s & %d" % (v, m), "and", v, m)][k]
        self.op("if", t[1], t[2], t[3], jump)
        return "(--fuel > 0 && (%s))" % t[0]

    def stmt(self, d, brk, cont):
        r = self.r
        lab = ""
        if self.todo and r.random() < .25:
            lab = self.todo.pop()
            self.mark(lab)
            lab += ": "
        k = r.random()
        if d <= 0 or k < .2:
            j = r.random()
            if j < .12 and brk:
                self.op("jmp", brk)
                return lab + "break;\n"
            if j < .22 and cont:
                self.op("jmp", cont)
                return lab + "continue;\n"
            if j < .34 and self.labels:
                l = r.choice(self.labels)
                n = self.new()
                c = self.cond(n)
                self.op("jmp", l)
                self.mark(n)
                return lab + "if (%s) goto %s;\n" % (c, l)
            if j < .44:
                v = r.choice(["c0", "c1", "c2"])
                dd = r.choice([1, -1])
                self.op("add", v, dd)
                return lab + r.choice(["%s%s;\n" % (v, "++" if dd > 0 else "--"), "%s%s;\n" % ("++" if dd > 0 else "--", v), "%s += %d;\n" % (v, dd)])
            if j < .5:
                self.op("nop")
                return lab + ";\n"
            if j < .6:
                # a nested scope whose declarations hide the outer ones
                self.uid += 1
                a, b = r.randint(0, 99), r.randint(0, 99)
                self.op("shadow", a, b)
                return lab + "{ int c0 = acc ^ %d; { int c1 = c0 + %d, c0 = %d; acc = acc + c1 - c0; } acc = acc ^ c0; }\n" % (a, b, b)
            if j < .64:
                self.op("ret")
                n = self.new()
                self.code.pop()
                c = self.cond(n)
                self.op("ret")
                self.mark(n)
                return lab + "if (%s) return acc;\n" % c
            return lab + self.acc() + "\n"
        if k < .38:
            e, x = self.new(), self.new()
            c = self.cond(e)
            s = "if (%s)\n%s" % (c, self.sub(d - 1, brk, cont))
            if r.random() < .5:
                self.op("jmp", x)
                self.mark(e)
                s += "else\n" + self.sub(d - 1, brk, cont)
                self.mark(x)
            else:
                self.mark(e)
                if s.rstrip().endswith(";") or True:
                    s = "{ " + s + "}\n"
            return lab + s
        if k < .52:
            t, x = self.new(), self.new()
            self.mark(t)
            c = self.cond(x)
            s = "while (%s)\n%s" % (c, self.sub(d - 1, x, t))
            self.op("jmp", t)
            self.mark(x)
            return lab + s
        if k < .64:
            t, ct, x = self.new(), self.new(), self.new()
            self.mark(t)
            s = "do\n" + self.sub(d - 1, x, ct)
            self.mark(ct)
            s += "while (%s);\n" % self.cond(x)
            self.op("jmp", t)
            self.mark(x)
            return lab + s
        if k < .8:
            t, ct, x = self.new(), self.new(), self.new()
            v = r.choice(["c0", "c1", "c2"])
            n = r.randint(0, 4)
            init = r.random() < .8
            if init:
                self.op("set", v, 0)
            self.mark(t)
            form = r.random()
            if form < .7:
                self.op("if", "lt", v, n, x)
                self.op("fuel", x)
                c = "%s < %d && --fuel > 0" % (v, n)
            else:
                c = self.cond(x)
            body = self.sub(d - 1, x, ct)
            self.mark(ct)
            inc = r.random() < .9
            if inc:
                self.op("add", v, 1)
            self.op("jmp", t)
            self.mark(x)
            return lab + "for (%s; %s; %s)\n%s" % ("%s = 0" % v if init else "", c, "%s++" % v if inc else "", body)
        if k < .94:
            return lab + self.switch(d, cont)
        return lab + "{\n" + self.block(d - 1, r.randint(1, 4), brk, cont) + "}\n"

    def switch(self, d, cont):
        r = self.r
        x = self.new()
        v = r.choice(["acc", "c0", "c1", "acc & 7", "c2 + 1", "(char)acc", "acc % 5"])
        style = r.random()
        n = r.choice([0, 1, 2, 3, 5, 8, 12, 25])
        if style < .5:
            base = r.randint(-6, 4)
            vals = list(range(base, base + n))
        elif style < .8:
            vals = sorted({r.choice([r.randint(-10, 10), r.randint(-200, 200), self.I.w(r.getrandbits(self.I.b)), self.I.min, self.I.max,
                                     127, 128, 255, -128, -129, 256]) for _ in range(n)})
        else:
            s = r.choice([2, 3, 16, 100])
            vals = [i * s - 2 * s for i in range(n)]
        r.shuffle(vals)
        hasdef = r.random() < .6
        items = list(vals)
        if hasdef:
            items.insert(r.randint(0, len(items)), None)
        labs = {}
        for it in items:
            labs[it] = self.new()
        tab = {self.I.w(it): labs[it] for it in items if it is not None}
        self.op("switch", v, tab, labs.get(None, x))
        s = "switch (%s) {\n" % v
        if r.random() < .1:
            s += "acc = 12345;\n"          # unreachable
        left = list(items)
        while left:
            k = min(len(left), r.choice([1, 1, 1, 2, 3]))
            for it in left[:k]:
                self.mark(labs[it])
                s += "default: " if it is None else "case %s: " % (self.I.lit(it) if r.random() < .9 or it <= 0 else "%d - 1" % (it + 1) if it < self.I.max else str(it))
            left = left[k:]
            if not left and r.random() < .3:
                self.op("nop")
                s += ";\n"
                break
            s += "\n" + self.block(d - 2, r.randint(1, 2), x, cont)
            if r.random() < .6:
                self.op("jmp", x)
                s += "break;\n"
        self.mark(x)
        return s + "}\n"

    def sub(self, d, brk, cont):
        """A loop's or if's body."""
        if self.r.random() < .3:
            s = self.stmt(d, brk, cont)
            return "{ " + s + "}\n" if s.lstrip().startswith("if") and self.r.random() < .5 else "{ " + s + "}\n" if "if (" in s else s
        return "{\n" + self.block(d, self.r.randint(1, 4), brk, cont) + "}\n"

    def block(self, d, n, brk, cont):
        return "".join(self.stmt(d, brk, cont) for _ in range(n))

    def run(self, a, b):
        I = self.I
        V = {"acc": a, "c0": b, "c1": 0, "c2": 0}
        fuel = 200
        pc = 0
        steps = 0
        w = I.w
        while True:
            steps += 1
            if steps > 20000 or fuel < -3000:
                return None
            o = self.code[pc]
            pc += 1
            k = o[0]
            if k == "acc":
                V["acc"] = w(V["acc"] * 5 + o[1] + (V[o[2]] if o[2] else 0))
            elif k == "if":
                _, op, v, n, j = o
                if op != "lt":
                    fuel -= 1
                    if fuel <= 0:
                        pc = self.at[j]
                        continue
                x = V[v]
                if op == "and":
                    t = x & n
                elif op == "gt":
                    t = x > n
                elif op == "eq":
                    t = x == n
                elif op == "nand":
                    t = not (x & n)
                elif op == "ltor":
                    t = x < n or V["c1"] & 1
                elif op == "neand":
                    t = x != n[0] and x & n[1]
                elif op == "lt":
                    t = x < n
                if not t:
                    pc = self.at[j]
            elif k == "fuel":
                fuel -= 1
                if fuel <= 0:
                    pc = self.at[o[1]]
            elif k == "jmp":
                pc = self.at[o[1]]
            elif k == "add":
                V[o[1]] = w(V[o[1]] + o[2])
            elif k == "set":
                V[o[1]] = o[2]
            elif k == "shadow":
                c0 = w(V["acc"] ^ o[1])
                c1 = w(c0 + o[2])
                c0i = o[2]
                V["acc"] = w(w(V["acc"] + c1) - c0i)
                V["acc"] = w(V["acc"] ^ c0)
            elif k == "switch":
                e = o[1]
                if e in V:
                    x = V[e]
                elif e == "acc & 7":
                    x = V["acc"] & 7
                elif e == "c2 + 1":
                    x = w(V["c2"] + 1)
                elif e == "(char)acc":
                    x = ((V["acc"] & 255) ^ 128) - 128
                else:
                    x = abs(V["acc"]) % 5 * (1 if V["acc"] >= 0 else -1)
                pc = self.at[o[2].get(x, o[3])]
            elif k == "ret":
                return V["acc"]


HEX = r"""
int putchar(int);
void px(unsigned v) { int i; for (i = sizeof v * 8 - 4; i >= 0; i -= 4) putchar("0123456789abcdef"[(v >> i) & 15]); putchar('\n'); }
"""


def mazes(r, I, n=12):
    """-> source, expected output"""
    src, exp, main = HEX, [], ""
    tries = 0
    k = 0
    while k < n and tries < 8 * n:
        tries += 1
        m = Maze(r, I, "f%d" % k)
        if len(m.code) > 500:
            continue
        args = [(I.w(r.choice([0, 1, -1, 2, r.getrandbits(16), r.getrandbits(32)])), r.randint(-3, 6)) for _ in range(6)]
        res = [m.run(a, b) for a, b in args]
        if any(x is None for x in res):
            args = [a for a, x in zip(args, res) if x is not None]
            res = [x for x in res if x is not None]
            if len(args) < 2:
                continue
        src += m.text
        k += 1
        for (a, b), x in zip(args, res):
            main += "px(f%d(%s, %s));\n" % (k - 1, I.lit(a), I.lit(b))
            exp.append("%0*x" % (I.b // 4, x & I.m))
    src += "int main(void) {\n%sreturn 0; }\n" % main
    return src, ("\n".join(exp) + "\n").encode()


# ---- calls -----------------------------------------------------------------------------------------------------------

class Calls:
    """A set of functions taking any mix of fixed and variable, scalar and structure arguments; calls nested in arguments,
    through pointers, before definition without a prototype; every activation keeps a filled local area that must survive."""

    PRE = HEX + r"""
#include <stdarg.h>
unsigned H;
void mix(unsigned v) { H = H * 31 + v; }
void mixb(void *p, unsigned n) { unsigned char *q = p; while (n--) mix(*q++); }
void fill(void *p, unsigned n, int k) { unsigned char *q = p; while (n--) { *q++ = k; k = k * 5 + 1; } }
int ok(void *p, unsigned n, int k) { unsigned char *q = p; while (n--) { if (*q++ != (k & 255)) return 0; k = k * 5 + 1; } return 1; }
"""

    def __init__(self, r, I, floats):
        self.r, self.I = r, I
        self.src = self.PRE
        self.sizes = sorted(r.sample(range(1, 40), 5)) + [r.choice([64, 100, 129])]
        for n in self.sizes:
            if n % 4 == 0 and r.random() < .5:
                self.src += "struct S%d { int w[%d]; };\n" % (n, n // (I.b // 8))
            else:
                self.src += "struct S%d { unsigned char b[%d]; };\n" % (n, n)
            self.src += "struct S%d mk%d(int k) { struct S%d s; fill(&s, sizeof s, k); return s; }\n" % (n, n, n)
        self.H = 0
        self.lines = []
        self.fns = []

    # model
    def mix(self, v):
        self.H = (self.H * 31 + v) & self.I.m

    def bytes(self, n, k):
        o = []
        for _ in range(n):
            o.append(k & 255)
            k = (k * 5 + 1) & self.I.m
        return o

    def randty(self):
        r = self.r
        k = r.random()
        if k < .35:
            return "int"
        if k < .5:
            return "unsigned"
        if k < .58:
            return "char"
        if k < .66:
            return "short"
        if k < .72:
            return "unsigned char"
        if k < .8:
            return "char*"
        return r.choice(self.sizes)

    def conv(self, ty, v):
        if ty == "char":
            return ((v & 255) ^ 128) - 128
        if ty == "unsigned char":
            return v & 255
        if ty == "short":
            return ((v & 65535) ^ 32768) - 32768
        if ty == "unsigned":
            return v & self.I.m
        return self.I.w(v)

    def decl(self, ty):
        return "struct S%d" % ty if isinstance(ty, int) else ty

    STR = ["", "a", "xyz", "hello, world"]

    def take(self, ty, e):
        """C text that mixes a parameter in."""
        if isinstance(ty, int):
            return "mixb(&%s, sizeof %s);" % (e, e)
        if ty == "char*":
            return "mixb(%s, 3);" % e
        return "mix(%s);" % e

    def model(self, ty, v):
        if isinstance(ty, int):
            for x in self.bytes(ty, v):
                self.mix(x)
        elif ty == "char*":
            for x in (self.STR[v] + "\0\0\0\0")[:3]:
                self.mix(ord(x))
        else:
            self.mix(self.conv(ty, v) & self.I.m)

    def function(self, i):
        r = self.r
        f = {"name": "g%d" % i, "par": [self.randty() for _ in range(r.randint(0 if i % 3 else 1, 7))]}
        f["var"] = bool(f["par"]) and r.random() < .5
        if f["var"] and f["par"][-1] in ("char", "short", "unsigned char"):
            f["par"][-1] = "int"
        f["ret"] = r.choice(["int", "int", "unsigned", "void", r.choice(self.sizes), "char", "short"])
        f["arr"] = r.choice([0, 1, 3, 5, 16, 33, 130])
        f["nop"] = False
        # old-style declarations: only for what needs no promotion or structure result knowledge
        f["old"] = not f["var"] and r.random() < .3 and all(isinstance(t, int) or t in ("int", "unsigned", "char*") for t in f["par"])
        ps = ", ".join("%s p%d" % (self.decl(t), k) for k, t in enumerate(f["par"])) or "void"
        sig = "%s %s(%s%s)" % (self.decl(f["ret"]), f["name"], ps, ", ..." if f["var"] else "")
        f["sig"] = sig
        f["decl"] = "%s %s();\n" % (self.decl(f["ret"]), f["name"]) if f["old"] else sig + ";\n"
        body = "{\n"
        if f["arr"]:
            body += " unsigned char area[%d];\n" % f["arr"]
        if f["var"]:
            body += " va_list ap, ap2;\n"
        f["locals"] = [(self.r.randint(-99, 99)) for _ in range(r.randint(0, 4))]
        for k, v in enumerate(f["locals"]):
            body += " int l%d = %d;\n" % (k, v)
        f["rv"] = r.randint(0, 250)
        if isinstance(f["ret"], int):
            body += " struct S%d res;\n" % f["ret"]
        if f["arr"]:
            body += " fill(area, sizeof area, %d);\n" % f["rv"]
        order = list(range(len(f["par"])))
        r.shuffle(order)
        f["order"] = order
        for k in order:
            body += " " + self.take(f["par"][k], "p%d" % k) + "\n"
        f["vt"] = None
        f["twice"] = r.random() < .4
        if f["var"]:
            # the variable part is described by a global format string
            body += " va_start(ap, p%d); ap2 = ap;\n vmix(ap); %s va_end(ap);\n" % (len(f["par"]) - 1, "vmix(ap2);" if f["twice"] else "")
        f["inner"] = None
        if self.fns and r.random() < .5:
            g = r.choice(self.fns)
            c, m = self.call(g, 1)
            body += " " + c + "\n"
            f["inner"] = m
        for k, v in enumerate(f["locals"]):
            body += " mix(l%d == %d);\n" % (k, v)
        if f["arr"]:
            body += " mix(ok(area, sizeof area, %d));\n" % f["rv"]
        if isinstance(f["ret"], int):
            body += " fill(&res, sizeof res, %d);\n return res;\n" % f["rv"]
        elif f["ret"] != "void":
            body += " return %s;\n" % self.I.lit(f["rv"] * 201)
        body += "}\n"
        f["text"] = sig + "\n" + body
        self.fns.append(f)
        return f

    def run(self, f, vals, vfmt):
        for k in f["order"]:
            self.model(f["par"][k], vals[k])
        if f["var"]:
            for _ in range(2 if f["twice"] else 1):
                for t, v in vfmt:
                    self.model(t, v)
        if f["inner"]:
            f["inner"]()
        for _ in f["locals"]:
            self.mix(1)
        if f["arr"]:
            self.mix(1)

    def value(self, ty, d):
        """-> C text, value, effects"""
        r = self.r
        if isinstance(ty, int):
            k = r.randint(0, 255)
            return "mk%d(%d)" % (ty, k), k
        if ty == "char*":
            k = r.randrange(4)
            return "strs[%d]" % k, k
        v = r.choice([0, 1, -1, r.getrandbits(15), -r.getrandbits(15), r.getrandbits(self.I.b), r.randint(-130, 260)])
        v = self.I.w(v)
        return self.I.lit(v), v

    def call(self, f, d):
        """A statement that calls f and mixes the result; -> C text, model function."""
        r = self.r
        args, vals, fmt = [], [], []
        for t in f["par"]:
            c, v = self.value(t, d)
            args.append(c)
            vals.append(v)
        pre = ""
        if f["var"]:
            for _ in range(r.randint(0, 6)):
                t = r.choice(["int", "unsigned", "char*", r.choice(self.sizes), r.choice(self.sizes)])
                c, v = self.value(t, d)
                if t == "unsigned":
                    c = "(unsigned)" + c
                args.append(c)
                fmt.append((t, v))
            pre = "vf = \"%s\"; " % "".join("i" if t == "int" else "u" if t == "unsigned" else "p" if t == "char*" else "ABCDEFGH"[self.sizes.index(t)] for t, v in fmt)
        fn = f["name"]
        k = r.random()
        if k < .2 and not f["old"] or k < .1:
            self.tabn += 1
            t = "t%d" % self.tabn
            self.tabs += "%s (*%s)(%s) = %s;\n" % (self.decl(f["ret"]), t, f["sig"].split("(", 1)[1][:-1], fn)
            fn = r.choice(["(*%s)", "%s"]) % t
        e = "%s(%s)" % (fn, ", ".join(args))
        rv, ret = f["rv"], f["ret"]
        if isinstance(ret, int):
            off = r.randrange(ret)
            k = r.random()
            if k < .4:
                c = "{ struct S%d t; t = %s; mixb(&t, sizeof t); }" % (ret, e)
                fin = lambda: [self.mix(x) for x in self.bytes(ret, rv)]
            elif k < .7 and "struct S%d { unsigned char" % ret in self.src:
                c = "mix(%s.b[%d]);" % (e, off)
                fin = lambda: self.mix(self.bytes(ret, rv)[off])
            else:
                c = "%s;" % e
                fin = lambda: None
        elif ret == "void":
            c = e + ";"
            fin = lambda: None
        else:
            v = self.conv(ret, self.I.w(rv * 201))
            if r.random() < .3:
                x = r.randint(1, 50)
                c = "{ int t = %d; t += %s * 3; mix(t); }" % (x, e)
                fin = lambda: self.mix((x + v * 3) & self.I.m)
            else:
                c = "mix(%s);" % e
                fin = lambda: self.mix(v & self.I.m)
        if c.startswith("mix(") and not f["var"]:
            pass

        def m():
            # "mix(f())": the callee's own mixing comes first
            self.run(f, vals, fmt)
            fin()
        return pre + c, m

    def program(self, n=8, calls=14):
        r = self.r
        self.tabs, self.tabn = "", 0
        self.src += "char *strs[] = { %s };\nchar *vf;\n" % ", ".join('"%s\\0\\0\\0"' % s for s in self.STR)
        self.src += "void vmix(va_list ap) { char *p; for (p = vf; *p; p++) switch (*p) {\n case 'i': mix(va_arg(ap, int)); break;\n case 'u': mix(va_arg(ap, unsigned)); break;\n"
        self.src += " case 'p': mixb(va_arg(ap, char*), 3); break;\n"
        for k, s in enumerate(self.sizes):
            self.src += " case '%s': { struct S%d t; t = va_arg(ap, struct S%d); mixb(&t, sizeof t); break; }\n" % ("ABCDEFGH"[k], s, s)
        self.src += " } }\n"
        texts = [self.function(i)["text"] for i in range(n)]
        main, exp = "", []
        for _ in range(calls):
            f = r.choice(self.fns)
            c, m = self.call(f, 0)
            main += " H = 1; %s px(H);\n" % c
            self.H = 1
            m()
            exp.append("%0*x" % (self.I.b // 4, self.H & self.I.m))
        self.src += "".join(f["decl"] for f in self.fns) + self.tabs
        if r.random() < .5:
            r.shuffle(texts)
        main = "int main(void) {\n unsigned char guard[37]; fill(guard, sizeof guard, 77);\n%s px(ok(guard, sizeof guard, 77));\n return 0; }\n" % main
        exp.append("%0*x" % (self.I.b // 4, 1))
        if r.random() < .5:
            self.src += main + "".join(texts)
        else:
            self.src += "".join(texts) + main
        return self.src, ("\n".join(exp) + "\n").encode()
