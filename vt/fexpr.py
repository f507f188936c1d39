"""Typed C expressions over integer types and float, with exact Python meaning (values, types, conversions)."""
import math, struct
from fractions import Fraction


class Bad(Exception):
    """The evaluation is undefined (or implementation-defined in a way not promised)."""


def f32(x):
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def bits(x):
    return struct.unpack("<I", struct.pack("<f", x))[0]


def unbits(b):
    return struct.unpack("<f", struct.pack("<I", b))[0]


def frac32(q, neg=False):
    """Fraction -> nearest binary32, ties to even."""
    if q == 0:
        return -0.0 if neg else 0.0
    s, q = q < 0, abs(q)
    e = 0
    n, d = q.numerator, q.denominator
    e = n.bit_length() - d.bit_length()
    if Fraction(2) ** e > q:
        e -= 1
    e = max(e, -126)
    m = q / Fraction(2) ** (e - 23)
    k = m.numerator // m.denominator
    rest = m - k
    if rest > Fraction(1, 2) or rest == Fraction(1, 2) and k & 1:
        k += 1
    if k >= 1 << 24:
        k, e = k // 2, e + 1
    v = math.inf if e > 127 else math.ldexp(k, e - 23)
    return -v if s else v


class Types:
    def __init__(self, bits, char_signed=True, floats=True):
        self.bits = bits
        self.I = {"char": (8, char_signed), "signed char": (8, True), "unsigned char": (8, False), "short": (16, True), "unsigned short": (16, False),
                  "int": (bits, True), "unsigned": (bits, False)}
        if bits == 32:
            self.I["long"] = (32, True)
            self.I["unsigned long"] = (32, False)
        self.names = list(self.I) + (["float", "float", "float"] if floats else [])
        self.size = {n: b // 8 for n, (b, s) in self.I.items()}
        self.size["float"] = 4

    def wrap(self, t, v):
        b, s = self.I[t]
        v &= (1 << b) - 1
        return v - (1 << b) if s and v >> (b - 1) else v

    nan = True     # whether comparing NaNs is judged

    def true(self, v):
        if v != v and not self.nan:
            raise Bad
        return v != 0

    def promote(self, t):
        if t == "float":
            return t
        b, s = self.I[t]
        if b < self.bits:
            return "int"
        return "int" if s else "unsigned"

    def common(self, a, b):
        if "float" in (a, b):
            return "float"
        return "unsigned" if "unsigned" in (self.promote(a), self.promote(b)) else "int"

    def conv(self, fr, to, v):
        if to == "float":
            return f32(v) if fr == "float" else frac32(Fraction(v))
        if fr == "float":
            if v != v or math.isinf(v):
                raise Bad
            k = int(v)
            b, s = self.I[to]
            lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)
            if not lo <= k <= hi:
                raise Bad
            return k
        return self.wrap(to, v)


class X:
    __slots__ = ("c", "p", "t", "f", "const", "atom")

    def __init__(self, c, p, t, f, const=False):
        self.c, self.p, self.t, self.f, self.const = c, p, t, f, const


CMP = ("==", "!=", "<", ">", "<=", ">=")
PREC = {",": 1, "?:": 3, "||": 4, "&&": 5, "|": 6, "^": 7, "&": 8, "==": 9, "!=": 9, "<": 10, ">": 10, "<=": 10, ">=": 10,
        "<<": 11, ">>": 11, "+": 12, "-": 12, "*": 13, "/": 13, "%": 13, "u": 14, "a": 16}


class Gen:
    def __init__(self, r, T):
        self.r, self.T = r, T

    def par(self, x, need):
        return x.c if x.p >= need and self.r.random() < .8 else "(%s)" % x.c

    # leaves
    def intval(self, t):
        r = self.r
        b, s = self.T.I[t]
        lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)
        k = r.random()
        if k < .35:
            v = r.randint(-5, 20)
        elif k < .5:
            v = r.choice([lo, hi, lo + 1, hi - 1, hi // 2, 0, 1])
        elif k < .7:
            v = (1 << r.randrange(b)) + r.randint(-1, 1)
        else:
            v = r.getrandbits(b) >> r.choice([0, 0, b // 2, b // 4])
        return self.T.wrap(t, v)

    def floatval(self, special=True):
        r = self.r
        k = r.random()
        if k < .2:
            return float(r.randint(-20, 20))
        if k < .35:
            return f32(r.uniform(-100, 100))
        if k < .45:
            return f32(r.choice([-1, 1]) * math.ldexp(r.choice([1, 1, 3]), r.randint(-149, 126)))
        if k < .55:
            n = r.choice([7, 8, 15, 16, 23, 24, 25, 30, 31, 32, 33])
            return f32(r.choice([-1, 1]) * ((1 << n) + r.choice([0, 0, -1, 1, .5, -.5, 256, -128])))
        if k < .65 and special:
            return r.choice([0.0, -0.0, math.inf, -math.inf, math.nan, unbits(1), unbits(0x7fffff), unbits(0x800000), unbits(0x7f7fffff), -unbits(1)])
        if k < .8:
            return f32(r.choice([.5, 1.5, 2.5, -.5, 1 + 2 ** -23, 1 - 2 ** -24, .1, 1 / 3, 3.14159, 16777216.0, 16777215.0, 8388607.5]))
        x = unbits(r.getrandbits(32))
        return x if x == x and not math.isinf(x) else 1.25

    def intlit(self, v, t=None):
        """An integer constant of value v: text, type.  v in int or unsigned range."""
        r = self.r
        B = self.T.bits
        imax = (1 << (B - 1)) - 1
        if v < 0:
            if v == -imax - 1:
                return "(-%d - 1)" % imax, "int"
            return "-%d" % -v if r.random() < .7 else "-0x%x" % -v, "int"
        k = r.random()
        suf = ""
        if v > imax:
            suf = r.choice(["u", "U"]) if B == 16 or r.random() < .7 else ""
            if not suf:
                return (r.choice(["0x%x", "0x%X", "0%o"]) % v), "unsigned"
            return (r.choice(["%d", "0x%x", "0%o"]) % v) + suf, "unsigned"
        if r.random() < .15:
            suf = r.choice(["u", "U"])
        if k < .12 and 32 <= v < 127 and not suf and v not in (39, 92, 63, 34):
            return "'%c'" % v, "int"
        if k < .17 and v < 128 and not suf:
            return "'\\x%x'" % v if r.random() < .5 else "'\\%o'" % v, "int"
        return (r.choice(["%d", "%d", "%d", "0x%x", "0X%X", "0%o"]) % v) + suf, "unsigned" if suf else "int"

    def floatlit(self, v):
        """Decimal constant whose value rounds to a float: text, value (v is only a hint)."""
        r = self.r
        v = abs(v)
        if v == 0:
            return r.choice(["0.0", ".0", "0.", "0e5", "0.f", "0.0F"]), 0.0
        k = r.random()
        if k < .5:
            s = "%.*e" % (r.choice([8, 8, 9, 12, 17, 3]), v)
        elif k < .7 and 1e-6 < v < 1e9:
            s = "%.*f" % (r.randint(1, 12), v)
        elif k < .85:
            # near a midpoint of two floats
            b = bits(f32(v))
            if b >= 0x7f7fffff:
                b = 0x7f7ffff0
            m = (Fraction(unbits(b)) + Fraction(unbits(b + 1))) / 2
            e = int(math.floor(math.log10(float(m)))) if float(m) > 0 else -46
            nd = r.choice([20, 40, 60, 100])
            q = m / Fraction(10) ** e
            dg = str(q.numerator * 10 ** nd // q.denominator + r.choice([0, 0, 1, -1]))
            s = dg[0] + "." + dg[1:] + "e%d" % e if len(dg) == nd + 1 else repr(v)
        else:
            s = repr(v)
        if "e" not in s and "." not in s:
            s += ".0"
        if r.random() < .2 and "e" in s:
            s = s.replace("e", "E")
        val = frac32(Fraction(s.lower()))
        if math.isinf(val):
            return "3.25", 3.25
        if val == 0 or abs(val) < 1.2e-38:
            pass
        return s + r.choice(["f", "F", "", "f"]), val

    def constant(self, floats):
        r = self.r
        if floats and r.random() < .45:
            s, v = self.floatlit(self.floatval(False))
            neg = r.random() < .25
            if neg:
                return X("-" + s, PREC["u"], "float", lambda env, v=-v: v, True)
            return X(s, PREC["a"], "float", lambda env, v=v: v, True)
        t = r.choice(["int", "int", "unsigned", "short", "unsigned char"])
        v = self.intval(t)
        s, ty = self.intlit(v)
        return X(s, PREC["u"] if s[0] == "-" else PREC["a"], ty, lambda env, v=v: v, True)

    # operators
    def unary(self, op, a):
        T = self.T
        if op == "!":
            return X("!" + self.par(a, 14), 14, "int", lambda e: int(not T.true(a.f(e))), a.const)
        t = T.promote(a.t)
        ca = self.par(a, 14)
        if ca[0] == op:
            ca = "(" + ca + ")"
        if op == "-":
            if t == "float":
                return X("-" + ca, 14, t, lambda e: -T.conv(a.t, t, a.f(e)), a.const)
            return X("-" + ca, 14, t, lambda e: T.wrap(t, -a.f(e)), a.const)
        if op == "+":
            return X("+" + ca, 14, t, lambda e: T.conv(a.t, t, a.f(e)), a.const)
        if op == "~":
            return X("~" + ca, 14, t, lambda e: T.wrap(t, ~T.wrap(t, a.f(e))), a.const)

    def cast(self, to, a):
        T = self.T
        return X("(%s)%s" % (to, self.par(a, 14)), 14, to, lambda e: T.conv(a.t, to, a.f(e)), a.const)

    def binary(self, op, a, b):
        T = self.T
        p = PREC[op]
        c = "%s %s %s" % (self.par(a, p), op, self.par(b, p + 1))
        k = a.const and b.const
        if op == "&&":
            return X(c, p, "int", lambda e: int(T.true(a.f(e)) and T.true(b.f(e))), k)
        if op == "||":
            return X(c, p, "int", lambda e: int(T.true(a.f(e)) or T.true(b.f(e))), k)
        if op in ("<<", ">>"):
            t = T.promote(a.t)

            def f(e):
                x, n = T.wrap(t, a.f(e)), b.f(e)
                if not 0 <= n < T.bits:
                    raise Bad
                return T.wrap(t, x << n) if op == "<<" else x >> n
            return X(c, p, t, f, k)
        t = T.common(a.t, b.t)

        def g(e):
            x, y = T.conv(a.t, t, a.f(e)), T.conv(b.t, t, b.f(e))
            if op in CMP and (x != x or y != y) and not T.nan:
                raise Bad
            if op == "==":
                return int(x == y)
            if op == "!=":
                return int(x != y)
            if op == "<":
                return int(x < y)
            if op == ">":
                return int(x > y)
            if op == "<=":
                return int(x <= y)
            if op == ">=":
                return int(x >= y)
            if t == "float":
                if op == "+":
                    return f32(x + y)
                if op == "-":
                    return f32(x - y)
                if op == "*":
                    return f32(x * y)
                if y == 0:
                    if x != x or x == 0:
                        return math.nan
                    return math.copysign(math.inf, x) * math.copysign(1, y)
                return f32(x / y)
            if op in "/%":
                if y == 0:
                    raise Bad
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                if t == "int" and q > (1 << (T.bits - 1)) - 1:
                    raise Bad
                return T.wrap(t, q if op == "/" else x - q * y)
            v = {"+": x + y, "-": x - y, "*": x * y, "&": x & y, "|": x | y, "^": x ^ y}[op] if op != "*" else x * y
            return T.wrap(t, v)
        return X(c, p, "int" if op in ("==", "!=", "<", ">", "<=", ">=") else t, g, k)

    def cond(self, q, a, b):
        T = self.T
        t = T.common(a.t, b.t)
        c = "%s ? %s : %s" % (self.par(q, 4), self.par(a, 3), self.par(b, 3))
        return X(c, 3, t, lambda e: T.conv(a.t, t, a.f(e)) if T.true(q.f(e)) else T.conv(b.t, t, b.f(e)), q.const and a.const and b.const)

    INTOPS = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"]
    CMP = ["==", "!=", "<", ">", "<=", ">="]

    def expr(self, d, leaf, floats=True, isconst=False):
        """A random expression; leaf() makes the leaves."""
        r = self.r
        if d <= 0 or r.random() < .1:
            return leaf()
        k = r.random()
        if k < .12:
            a = self.expr(d - 1, leaf, floats)
            op = r.choice("!-+~--") if a.t != "float" else r.choice("!--+-")
            return self.unary(op, a)
        if k < .24:
            a = self.expr(d - 1, leaf, floats)
            return self.cast(r.choice(self.T.names if floats else list(self.T.I)), a)
        if k < .32:
            return self.cond(*[self.expr(d - 1, leaf, floats) for _ in range(3)])
        if k < .40:
            return self.binary(r.choice(["&&", "||"]), self.expr(d - 1, leaf, floats), self.expr(d - 1, leaf, floats))
        a, b = self.expr(d - 1, leaf, floats), self.expr(d - 1, leaf, floats)
        if k < .52:
            return self.binary(r.choice(self.CMP), a, b)
        ops = ["+", "-", "*", "/"] if "float" in (a.t, b.t) else self.INTOPS
        op = r.choice(ops)
        if op in ("<<", ">>"):
            n = r.randrange(self.T.bits)
            if r.random() < .8:
                s = str(n)
                b = X(s, 16, "int", lambda e, n=n: n, True)
        return self.binary(op, a, b)
