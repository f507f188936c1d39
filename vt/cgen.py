"""Random C programs together with what they must print.

A program is generated for a data model (int size, pointer size, char signedness) and executed, while it is being
generated, by an interpreter with C's integer semantics over a byte-addressed memory.  A function whose execution
would be undefined (division by zero, shift count out of range, INT_MIN / -1) or too long is thrown away and the
memory restored, so every program that comes out is well defined and its output is known.

Expressions carry read and write sets of objects: operands that are not separated by a sequence point never touch an
object that another one modifies, so the evaluation order the compiler picks does not matter.
"""
import struct


class UB(Exception):
    pass


class DM:
    """Data model."""

    def __init__(self, int_size=4, ptr_size=4, char_signed=True, longs=True, mem=1 << 18):
        self.int_size, self.ptr_size, self.char_signed, self.longs = int_size, ptr_size, char_signed, longs
        self.bits = int_size * 8
        self.mem = mem
        self.imax = (1 << (self.bits - 1)) - 1
        self.imin = -self.imax - 1
        self.umax = (1 << self.bits) - 1


class Ty:
    bool = False

    def __init__(self, name, size, signed):
        self.name, self.size, self.signed = name, size, signed
        self.bits = size * 8
        self.min = -(1 << (self.bits - 1)) if signed else 0
        self.max = (1 << (self.bits - 1)) - 1 if signed else (1 << self.bits) - 1

    def __repr__(self):
        return self.name

    def wrap(self, v):
        if self.bool:
            return int(v != 0)
        v &= (1 << self.bits) - 1
        if self.signed and v > self.max:
            v -= 1 << self.bits
        return v


def types(dm):
    t = [Ty("char", 1, dm.char_signed), Ty("signed char", 1, True), Ty("unsigned char", 1, False),
         Ty("short", 2, True), Ty("unsigned short", 2, False), Ty("int", dm.int_size, True),
         Ty("unsigned", dm.int_size, False)]
    if dm.longs:
        t += [Ty("long", 4, True), Ty("unsigned long", 4, False)]
    return t


# C operator precedences (higher binds tighter)
PREC = {",": 1, "=": 2, "?:": 3, "||": 4, "&&": 5, "|": 6, "^": 7, "&": 8, "==": 9, "!=": 9, "<": 10, ">": 10,
        "<=": 10, ">=": 10, "<<": 11, ">>": 11, "+": 12, "-": 12, "*": 13, "/": 13, "%": 13, "u": 14, "p": 15, "a": 16}


class E:
    """An int-valued expression: C text, precedence, Python text, type, objects read and written, const value."""
    __slots__ = ("c", "p", "py", "ty", "r", "w", "k", "eff")

    def __init__(self, c, p, py, ty, r=frozenset(), w=frozenset(), k=None):
        self.c, self.p, self.py, self.ty, self.r, self.w, self.k = c, p, py, ty, r, w, k


class Place:
    """An lvalue of integer type."""
    __slots__ = ("c", "p", "addr", "ty", "obj", "r", "w")

    def __init__(self, c, p, addr, ty, obj, r=frozenset(), w=frozenset()):
        self.c, self.p, self.addr, self.ty, self.obj, self.r, self.w = c, p, addr, ty, obj, r, w


class Var:
    """A named object: kind 'i' scalar, 'a' array, 'm' matrix, 's' struct, 'as' array of struct, 'p' pointer to element."""
    __slots__ = ("name", "kind", "ty", "n", "n2", "st", "addr", "glob", "target", "k", "ro", "size", "const")

    def __init__(self, name, kind, ty, addr, glob, n=0, n2=0, st=None, target=None, k=0, ro=False, size=0):
        self.name, self.kind, self.ty, self.addr, self.glob = name, kind, ty, addr, glob
        self.n, self.n2, self.st, self.target, self.k, self.ro, self.size = n, n2, st, target, k, ro, size

    def base(self):
        return str(self.addr) if self.glob else "fp+%d" % self.addr


class Struct:
    def __init__(self, tag, members, union=False, pack=None):
        self.tag, self.union = tag, union
        self.m = []   # (name, ty, n, offset)   n: 0 scalar or array length; ty may be a Struct
        off, al, sz = 0, 1, 0
        for name, ty, n in members:
            a = ty.align if isinstance(ty, Struct) else ty.size
            if pack:
                a = min(a, pack)
            s = ty.size * (n or 1)
            if union:
                self.m.append((name, ty, n, 0))
                sz = max(sz, s)
            else:
                off = (off + a - 1) // a * a
                self.m.append((name, ty, n, off))
                off += s
                sz = off
            al = max(al, a)
        self.align = al
        self.size = (sz + al - 1) // al * al

    def decl(self):
        return "%s %s { %s };" % ("union" if self.union else "struct", self.tag, " ".join(
            "%s %s%s;" % (t.cname if isinstance(t, Struct) else t.name, n, "[%d]" % k if k else "")
            for n, t, k, o in self.m))

    @property
    def cname(self):
        return ("union " if self.union else "struct ") + self.tag


class Fn:
    pass


class Gen:
    BIN = ["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "==", "!=", "<", ">", "<=", ">=", "&&", "||"]

    def __init__(self, rng, dm, opt=None):
        self.rnd = rng
        self.dm = dm
        self.opt = {"depth": 4, "fns": 12, "inputs": 3, "stmts": 6, "budget": 3000, "ptrs": True, "structs": True,
                    "calls": True, "effects": True, "ctl": True, "bigconst": 0.3, "prefix": "", "goto": True,
                    "agg": 0.5, "fptr": True, "rec": True, "stack": 5000, "big": 0.06, "header": "int putchar(int);\n"}
        self.opt.update(opt or {})
        self.T = types(dm)
        self.tint = [t for t in self.T if t.name == "int"][0]
        self.tuns = [t for t in self.T if t.name == "unsigned"][0]
        self.M = bytearray(dm.mem)
        self.heap = 64          # synthetic address of the next static object
        self.stack0 = dm.mem // 2
        self.uid = self.lid = 0
        self.globals = []
        self.structs = []
        self.fns = []
        self.text = []
        self.steps = 0
        self.budget = 0
        self.used = {}
        self.ns = self._namespace()
        self.out = []
        self.maincalls = []
        self.feat = {}

    # ---- runtime -----------------------------------------------------------------------------------------------
    def _namespace(self):
        M, dm = self.M, self.dm
        bits, umask, imax = dm.bits, dm.umax, dm.imax
        half, full = 1 << (bits - 1), 1 << bits
        b1, B1, h2, H2, i4, I4 = [struct.Struct("<" + c) for c in "bBhHiI"]

        def ld(s):
            u = s.unpack_from
            return lambda a: u(M, a)[0]

        def W(x):
            x &= umask
            return x - full if x > imax else x

        def U(x):
            return x & umask

        ns = {"len": len, "W": W, "U": U, "l1s": ld(b1), "l1u": ld(B1), "l2s": ld(h2), "l2u": ld(H2), "l4s": ld(i4), "l4u": ld(I4)}

        def mkst(s, size, signed):
            p = s.pack_into
            mask = (1 << (size * 8)) - 1
            mx = mask >> 1
            fl = mask + 1

            def st(a, v):
                v &= mask
                if signed and v > mx:
                    v -= fl
                p(M, a, v)
                return v
            return st

        for nm, s, size, sg in (("1s", b1, 1, 1), ("1u", B1, 1, 0), ("2s", h2, 2, 1), ("2u", H2, 2, 0), ("4s", i4, 4, 1),
                                ("4u", I4, 4, 0)):
            st = mkst(s, size, sg)
            l = ns["l" + nm]
            ns["s" + nm] = st

            def rmw(a, f, l=l, st=st):
                return st(a, f(l(a)))

            def post(a, d, l=l, st=st):
                v = l(a)
                st(a, v + d)
                return v
            ns["r" + nm] = rmw
            ns["q" + nm] = post
            mask = (1 << (size * 8)) - 1

            def cv(v, mask=mask, mx=mask >> 1, sg=sg):
                v &= mask
                return v - mask - 1 if sg and v > mx else v
            ns["c" + nm] = cv

        pb1 = B1.pack_into

        def st1b(a, v):
            v = 1 if v else 0
            pb1(M, a, v)
            return v

        def rmw1b(a, f):
            return st1b(a, f(M[a]))

        def post1b(a, d):
            v = M[a]
            st1b(a, v + d)
            return v
        ns.update(s1b=st1b, r1b=rmw1b, q1b=post1b, c1b=lambda v: 1 if v else 0, l1b=ns["l1u"])

        def divs(a, b):
            if b == 0 or (a == -half and b == -1):
                raise UB("div")
            q = abs(a) // abs(b)
            return -q if (a < 0) != (b < 0) else q

        def mods(a, b):
            if b == 0 or (a == -half and b == -1):
                raise UB("div")
            r = abs(a) % abs(b)
            return -r if a < 0 else r

        def divu(a, b):
            if b == 0:
                raise UB("div")
            return a // b

        def modu(a, b):
            if b == 0:
                raise UB("div")
            return a % b

        def sh(n):
            if n < 0 or n >= bits:
                raise UB("shift")
            return n

        ns.update(divs=divs, mods=mods, divu=divu, modu=modu, sh=sh)

        def seq(a, b):
            return b
        ns["seq"] = seq

        def cpy(d, s, n):
            M[d:d + n] = M[s:s + n]
            return 0
        ns["cpy"] = cpy

        def callf(i, sp, *args):
            return self.call(self.fns[i], args, sp)
        ns["callf"] = callf

        def gb(a, n):
            return bytes(M[a:a + n])
        ns["gb"] = gb

        def pb(a, b):
            M[a:a + len(b)] = b
            return b
        ns["pb"] = pb
        for nm, u in (("1s", b1), ("1u", B1), ("2s", h2), ("2u", H2), ("4s", i4), ("4u", I4), ("1b", B1)):
            ns["l%s_" % nm] = lambda b, o, u=u.unpack_from: u(b, o)[0]

        def pin(a, base, size, n, sz):
            """a must point into [base, base + n*size], leaving room for sz bytes."""
            if a < base or a + sz > base + n * size:
                raise UB("pointer")
            return a
        ns["pin"] = pin
        return ns

    def sfx(self, ty):
        return "1b" if ty.bool else "%d%s" % (ty.size, "s" if ty.signed else "u")

    def arith(self, ty):
        """Integer promotion."""
        if ty.size < self.dm.int_size:
            return self.tint
        return self.tint if ty.signed else self.tuns

    def common(self, a, b):
        a, b = self.arith(a), self.arith(b)
        return self.tuns if (not a.signed or not b.signed) else self.tint

    def conv(self, py, fr, to):
        if fr.min >= to.min and fr.max <= to.max:
            return py
        if to.size == self.dm.int_size:
            return ("W(%s)" if to.signed else "U(%s)") % py
        return "c%s(%s)" % (self.sfx(to), py)

    def wrapi(self, py, ty):
        return ("W(%s)" if ty.signed else "U(%s)") % py

    # ---- helpers -----------------------------------------------------------------------------------------------
    LOCALS = ("v", "a", "lc", "L", "w", "t")

    def name(self, p):
        """Names of locals restart in each function: the compiler's identifier table is small."""
        if p in self.LOCALS:
            self.lid += 1
            return "%s%d" % (p, self.lid)
        self.uid += 1
        return "%s%s%d" % (self.opt["prefix"], p, self.uid)

    def pick(self, *weighted):
        tot = sum(w for w, _ in weighted)
        x = self.rnd.random() * tot
        for w, v in weighted:
            x -= w
            if x < 0:
                return v
        return weighted[-1][1]

    def hit(self, f):
        self.feat[f] = self.feat.get(f, 0) + 1

    def paren(self, e, need):
        """C text of e where an operand of precedence >= need is wanted; sometimes redundant parentheses."""
        if e.p < need or self.rnd.random() < 0.08:
            return "(%s)" % e.c
        return e.c

    # ---- constants ---------------------------------------------------------------------------------------------
    INTERESTING = (0, 1, 2, 3, 4, 5, 7, 8, 10, 15, 16, 31, 32, 63, 64, 100, 126, 127, 128, 129, 255, 256, 257, 1000,
                   4095, 4096, 16384, 32766, 32767, 32768, 65535, 65536, 65537, 0x7fffff, 0x1000000, 0x7ffffffe,
                   0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0xaaaaaaaa, 0x12345678)

    def constval(self):
        r = self.rnd
        m = r.random()
        if m < 0.45:
            v = r.randint(0, 20)
        elif m < 0.8:
            v = r.choice(self.INTERESTING)
        elif m < 0.9:
            v = 1 << r.randint(0, self.dm.bits - 1)
        else:
            v = r.getrandbits(self.dm.bits)
        return v & self.dm.umax

    def const(self, v=None, ty=None):
        """A literal; ty forces the type (int or unsigned)."""
        r = self.rnd
        if v is None:
            v = self.constval()
            if r.random() < 0.5 and v > self.dm.imax:
                v &= self.dm.imax
        if ty is None:
            if 32 <= v < 127 and r.random() < 0.15 and chr(v) not in "'\\":
                return E("'%s'" % chr(v), 16, str(v), self.tint, k=v)
            if v < 256 and r.random() < 0.06:
                w = v - 256 if self.dm.char_signed and v > 127 else v
                c = "'\\x%02x'" % v if r.random() < 0.6 else "'\\%03o'" % v
                return E(c, 16, "(%d)" % w, self.tint, k=w)
        style = r.random()
        uns = ty is self.tuns or (ty is None and (r.random() < 0.15))
        if style < 0.6:
            s = str(v)
            if v > self.dm.imax:
                uns = True
        elif style < 0.9:
            s = ("0x%x" if r.random() < 0.7 else "0X%X") % v
        else:
            s = "0%o" % v
        if ty is self.tint and v > self.dm.imax:
            raise ValueError
        t = self.tuns if uns or v > self.dm.imax else self.tint
        sfx = r.choice(["u", "U"]) if uns else ""
        if self.dm.longs and r.random() < 0.05:
            sfx += r.choice(["L", "l"])
        return E(s + sfx, 16, str(v), t, k=v)

    def argval(self, ty):
        r = self.rnd
        m = r.random()
        if m < 0.3:
            v = r.randint(-3, 12)
        elif m < 0.5:
            v = r.choice([ty.min, ty.max, ty.min + 1, ty.max - 1, 0, 1, -1, ty.max // 2, 1 << (ty.bits - 1)])
        elif m < 0.75:
            v = r.choice(self.INTERESTING) * r.choice([1, -1])
        else:
            v = r.getrandbits(ty.bits)
        return ty.wrap(v)

    def lit(self, v):
        """A constant expression of value v (of int or unsigned type as needed)."""
        if v < 0:
            if v == self.dm.imin:
                return "(-%d - 1)" % self.dm.imax
            return "-%d" % -v
        if v > self.dm.imax:
            return "%dU" % v
        return str(v)

    # ---- objects -----------------------------------------------------------------------------------------------
    def alloc(self, size, align=8):
        a = (self.heap + align - 1) // align * align
        self.heap = a + size + 8
        if self.heap > self.stack0:
            raise UB("static memory")
        return a

    def store(self, addr, ty, v):
        self.ns["s" + self.sfx(ty)](addr, v)

    def randty(self):
        return self.rnd.choice(self.T)

    def mkstruct(self):
        r = self.rnd
        ms = []
        for i in range(r.randint(1, 6)):
            sub = [s for s in self.structs if not s.union and s.size < 32]
            if sub and r.random() < 0.12:
                ms.append(("m%d" % i, r.choice(sub), 0))
            else:
                ms.append(("m%d" % i, self.randty(), r.choice([0, 0, 0, 0, 2, 4])))
        s = Struct(self.name("S"), ms, union=r.random() < 0.2)
        self.structs.append(s)
        self.text.append(s.decl())
        return s

    def flat(self, st, pre="", off=0):
        """All scalar members: (access text, type, offset)."""
        for n, t, k, o in st.m:
            if isinstance(t, Struct):
                yield from self.flat(t, pre + n + ".", off + o)
            elif k:
                for i in range(k):
                    yield pre + "%s[%d]" % (n, i), t, off + o + i * t.size
            else:
                yield pre + n, t, off + o

    def initlist(self, st, base):
        """A brace-enclosed initializer for a struct at address base (stores the values too)."""
        parts = []
        for n, t, k, o in (st.m[:1] if st.union else st.m):
            if isinstance(t, Struct):
                parts.append(self.initlist(t, base + o))
            elif k:
                vs = [self.argval(t) for _ in range(k)]
                for i, v in enumerate(vs):
                    self.store(base + o + i * t.size, t, v)
                parts.append("{ %s }" % ", ".join(map(self.lit, vs)))
            else:
                v = self.argval(t)
                self.store(base + o, t, v)
                parts.append(self.lit(v))
        return "{ %s }" % ", ".join(parts)

    def mkglobal(self, static=False):
        """A global object; its definition goes to self.text."""
        r = self.rnd
        kind = self.pick((5, "i"), (4, "a"), (1, "m"), (3 if self.opt["structs"] else 0, "s"),
                         (1.5 if self.opt["structs"] else 0, "as"), (1.5 if self.opt["ptrs"] else 0, "p"))
        pre = "static " if static or r.random() < 0.3 else ""
        cands = [v for v in self.globals if v.kind in "ia" and not v.ro]
        if kind == "p" and not cands:
            kind = "i"
        nm = self.name("g")
        if kind == "i":
            ty = self.randty()
            a = self.alloc(ty.size)
            v = Var(nm, "i", ty, a, True, size=ty.size)
            if r.random() < 0.8:
                x = self.argval(ty)
                self.store(a, ty, x)
                self.text.append("%s%s %s = %s;" % (pre, ty, nm, self.lit(x)))
            else:
                self.text.append("%s%s %s;" % (pre, ty, nm))
        elif kind == "a":
            ty = self.randty()
            n = r.choice([2, 4, 4, 8, 16]) if r.random() > self.opt["big"] else r.choice([64, 128])
            a = self.alloc(ty.size * n)
            v = Var(nm, "a", ty, a, True, n=n, size=ty.size * n)
            if r.random() < 0.75:
                xs = [self.argval(ty) for _ in range(r.randint(1, min(n, 20)))]
                for i, x in enumerate(xs):
                    self.store(a + i * ty.size, ty, x)
                self.text.append("%s%s %s[%d] = { %s };" % (pre, ty, nm, n, ", ".join(map(self.lit, xs))))
            else:
                self.text.append("%s%s %s[%d];" % (pre, ty, nm, n))
        elif kind == "m":
            ty = self.randty()
            n, n2 = r.choice([2, 4]), r.choice([2, 4])
            a = self.alloc(ty.size * n * n2)
            v = Var(nm, "m", ty, a, True, n=n, n2=n2, size=ty.size * n * n2)
            rows = []
            for i in range(n):
                xs = [self.argval(ty) for _ in range(n2)]
                for j, x in enumerate(xs):
                    self.store(a + (i * n2 + j) * ty.size, ty, x)
                rows.append("{ %s }" % ", ".join(map(self.lit, xs)))
            self.text.append("%s%s %s[%d][%d] = { %s };" % (pre, ty, nm, n, n2, ", ".join(rows)))
        elif kind in ("s", "as"):
            st = r.choice(self.structs) if self.structs and r.random() < 0.7 else self.mkstruct()
            n = 0 if kind == "s" else r.choice([2, 4])
            a = self.alloc(st.size * (n or 1))
            v = Var(nm, kind, None, a, True, n=n, st=st, size=st.size * (n or 1))
            if kind == "s":
                self.text.append("%s%s %s = %s;" % (pre, st.cname, nm, self.initlist(st, a)))
            else:
                self.text.append("%s%s %s[%d] = { %s };" % (pre, st.cname, nm, n, ", ".join(
                    self.initlist(st, a + i * st.size) for i in range(n))))
        else:
            t = r.choice(cands)
            k = r.randint(0, t.n - 1) if t.kind == "a" else 0
            a = self.alloc(self.dm.ptr_size)
            v = Var(nm, "p", t.ty, a, True, target=t, k=k, size=self.dm.ptr_size)
            self.stptr(a, t.addr + k * t.ty.size)
            self.text.append("%s%s *%s = %s;" % (pre, t.ty, nm, ("&%s" % t.name) if t.kind == "i" else r.choice(
                ["&%s[%d]" % (t.name, k), "%s + %d" % (t.name, k)] + ([t.name] if k == 0 else []))))
        self.globals.append(v)
        return v

    def stptr(self, a, v):
        self.M[a:a + self.dm.ptr_size] = v.to_bytes(self.dm.ptr_size, "little")

    def ldp(self, addr):
        return "l4u(%s)" % addr if self.dm.ptr_size == 4 else "l2u(%s)" % addr

    # ---- places ------------------------------------------------------------------------------------------------
    def scope_vars(self):
        return [v for sc in reversed(self.scopes) for v in reversed(sc)] + self.globals

    def place(self, d, av_r, av_w, write, scal=0.45):
        """A random lvalue.  av_r: objects that must not be read, av_w: objects that must not be written."""
        r = self.rnd
        bad = av_w if write else av_r
        locs = [v for sc in reversed(self.scopes) for v in reversed(sc)]

        def ok(v):
            o = v.target.name if v.kind in ("p", "ps") else v.name
            if o in bad or (write and (v.ro or (v.kind in ("p", "ps") and v.target.ro))):
                return False
            if v.kind in ("p", "ps") and v.name in av_r:
                return False
            return True
        shadow = {}
        for v in locs + self.globals:
            shadow.setdefault(v.name, v)
        pool = [v for v in (locs * 2 + self.globals) if shadow[v.name] is v and ok(v)]
        if r.random() < scal:
            p2 = [v for v in pool if v.kind == "i"]
            pool = p2 or pool
        if not pool:
            return None
        v = r.choice(pool)
        self.hit("place." + v.kind + (".g" if v.glob else ".l"))
        return self.place_of(v, d, av_r, av_w, write)

    def index(self, n, d, av_r, av_w, obj):
        """An index expression in [0, n), n a power of two."""
        r = self.rnd
        if d <= 0 or r.random() < 0.45:
            k = r.randrange(n)
            return E(str(k), 16, str(k), self.tint, k=k)
        e = self.expr(d - 1, av_r | {obj} if False else av_r, av_w | {obj})
        if r.random() < 0.25 and self.common(e.ty, self.tuns) is self.tuns:
            c = "%s %% %dU" % (self.paren(e, 13), n)
            return E(c, 13, "(U(%s) %% %d)" % (e.py, n), self.tuns, e.r, e.w)
        return E("%s & %d" % (self.paren(e, 9 if r.random() < .5 else 8), n - 1), 8, "((%s) & %d)" % (self.conv(e.py, e.ty, self.arith(e.ty)), n - 1),
                 self.arith(e.ty), e.r, e.w)

    def place_of(self, v, d, av_r, av_w, write):
        r = self.rnd
        obj = v.target.name if v.kind in ("p", "ps") else v.name
        if v.kind == "i":
            if r.random() < 0.05:
                return Place("*&" + v.name, 14, v.base(), v.ty, obj)
            return Place(v.name, 16, v.base(), v.ty, obj)
        if v.kind == "a":
            ix = self.index(v.n, d, av_r, av_w, obj)
            addr = "%s+(%s)*%d" % (v.base(), ix.py, v.ty.size)
            m = r.random()
            if m < 0.75:
                return Place("%s[%s]" % (v.name, ix.c), 15, addr, v.ty, obj, ix.r, ix.w)
            if m < 0.9:
                return Place("*(%s + %s)" % (v.name, self.paren(ix, 13)), 14, addr, v.ty, obj, ix.r, ix.w)
            if m < 0.95 and ix.k is None:
                return Place("%s[%s]" % (self.paren(ix, 15), v.name), 15, addr, v.ty, obj, ix.r, ix.w)
            return Place("*&%s[%s]" % (v.name, ix.c), 14, addr, v.ty, obj, ix.r, ix.w)
        if v.kind == "m":
            ix = self.index(v.n, d, av_r, av_w, obj)
            iy = self.index(v.n2, d, av_r | ix.w, av_w | ix.w | ix.r, obj)
            addr = "%s+((%s)*%d+(%s))*%d" % (v.base(), ix.py, v.n2, iy.py, v.ty.size)
            c = "%s[%s][%s]" % (v.name, ix.c, iy.c)
            return Place(c, 15, addr, v.ty, obj, ix.r | iy.r, ix.w | iy.w)
        if v.kind in ("s", "as", "ps"):
            base, c, rs, ws = v.base(), v.name, frozenset(), frozenset()
            if v.kind == "as":
                ix = self.index(v.n, d, av_r, av_w, obj)
                base = "%s+(%s)*%d" % (base, ix.py, v.st.size)
                rs, ws = ix.r, ix.w
                if r.random() < 0.8:
                    c = "%s[%s]." % (v.name, ix.c)
                else:
                    c = "(%s + %s)->" % (v.name, self.paren(ix, 13))
            elif v.kind == "ps":
                base = self.ldp(base)
                c = v.name + "->" if r.random() < 0.85 else "(*%s)." % v.name
                rs = frozenset([v.name])
            else:
                c = v.name + "." if r.random() < 0.9 else "(&%s)->" % v.name
            mem = r.choice(v.st.m)
            off = 0
            while True:
                n, t, k, o = mem
                off += o
                if isinstance(t, Struct):
                    c += n + "."
                    mem = r.choice(t.m)
                    continue
                break
            if k:
                ix = self.index(k, d, av_r | ws, av_w | ws | rs, obj)
                return Place("%s%s[%s]" % (c, n, ix.c), 15, "%s+%d+(%s)*%d" % (base, off, ix.py, t.size), t, obj,
                             rs | ix.r, ws | ix.w)
            return Place(c + n, 15, "%s+%d" % (base, off), t, obj, rs, ws)
        # pointer to an element of an array (or to a scalar)
        t = v.target
        n = t.n if t.kind == "a" else 1
        rs = frozenset([v.name])
        lo, hi = -v.k, n - 1 - v.k
        base = self.ldp(v.base())
        m = r.random()
        if m < 0.35 or lo == hi:
            return Place("*" + v.name, 14, base, v.ty, obj, rs)
        if m < 0.75 or hi < 1 or d <= 0:
            j = r.randint(lo, hi)
            addr = "%s+%d" % (base, j * v.ty.size)
            if r.random() < 0.6:
                return Place("%s[%d]" % (v.name, j), 15, addr, v.ty, obj, rs)
            return Place("*(%s %s %d)" % (v.name, "-" if j < 0 else "+", abs(j)), 14, addr, v.ty, obj, rs)
        w = 1
        while w * 2 <= hi + 1:
            w *= 2
        ix = self.index(w, d, av_r, av_w, obj)
        addr = "%s+(%s)*%d" % (base, ix.py, v.ty.size)
        return Place("%s[%s]" % (v.name, ix.c), 15, addr, v.ty, obj, rs | ix.r, ix.w)

    # ---- expressions -------------------------------------------------------------------------------------------
    def leaf(self, av_r, av_w, d=0):
        r = self.rnd
        if r.random() < 0.32:
            return self.const()
        pl = self.place(d, av_r, av_w, False)
        if pl is None:
            return self.const()
        return E(pl.c, pl.p, "l%s(%s)" % (self.sfx(pl.ty), pl.addr), pl.ty, pl.r | {pl.obj}, pl.w)

    def unary(self, op, e):
        if op == "!":
            c = "!" + self.paren(e, 14)
            return E(c, 14, "(0 if (%s) else 1)" % e.py, self.tint, e.r, e.w)
        t = self.arith(e.ty)
        inner = self.paren(e, 14)
        if inner[0] == op:
            inner = " " + inner
        pre = self.conv(e.py, e.ty, t)
        py = {"-": "-(%s)", "~": "~(%s)", "+": "(%s)"}[op] % pre
        return E(op + inner, 14, self.wrapi(py, t), t, e.r, e.w)

    def binary(self, op, a, b):
        """a op b, already known to be compatible."""
        p = PREC[op]
        c = "%s %s %s" % (self.paren(a, p), op, self.paren(b, p + 1))
        R, Wr = a.r | b.r, a.w | b.w
        if op in ("&&", "||"):
            py = "(1 if (%s) %s (%s) else 0)" % (a.py, "and" if op == "&&" else "or", b.py)
            return E(c, p, py, self.tint, R, Wr)
        if op in ("<<", ">>"):
            t = self.arith(a.ty)
            x = self.conv(a.py, a.ty, t)
            n = "sh(%s)" % self.conv(b.py, b.ty, self.arith(b.ty))
            py = self.wrapi("(%s) << %s" % (x, n), t) if op == "<<" else "((%s) >> %s)" % (x, n)
            return E(c, p, py, t, R, Wr)
        t = self.common(a.ty, b.ty)
        x, y = self.conv(a.py, a.ty, t), self.conv(b.py, b.ty, t)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return E(c, p, "(1 if (%s) %s (%s) else 0)" % (x, op, y), self.tint, R, Wr)
        if op in ("/", "%"):
            f = ("div" if op == "/" else "mod") + ("s" if t.signed else "u")
            return E(c, p, "%s(%s, %s)" % (f, x, y), t, R, Wr)
        if op in ("&", "|", "^"):
            return E(c, p, "((%s) %s (%s))" % (x, op, y), t, R, Wr)
        return E(c, p, self.wrapi("(%s) %s (%s)" % (x, op, y), t), t, R, Wr)

    def expr(self, d, av_r=frozenset(), av_w=frozenset()):
        r = self.rnd
        if d <= 0 or r.random() < 0.1:
            return self.leaf(av_r, av_w, 1 if r.random() < 0.3 else 0)
        k = self.pick((50, "bin"), (8, "un"), (8, "cast"), (6, "tern"), (6 if self.opt["effects"] else 0, "asg"),
                      (4 if self.opt["effects"] else 0, "inc"), (2, "comma"), (7 if self.opt["calls"] else 0, "call"), (2, "sizeof"),
                      (8, "leaf"), (3 if self.opt["ptrs"] else 0, "ptr"), (1.5, "str"))
        self.hit("expr." + k)
        if k == "bin":
            op = r.choice(self.BIN)
            self.hit("op." + op)
            da, db = (d - 1, d - 1) if r.random() < 0.5 else ((d - 1, r.randint(0, d - 1)) if r.random() < 0.5 else (r.randint(0, d - 1), d - 1))
            a = self.expr(da, av_r, av_w)
            sp = op in ("&&", "||")
            if sp:
                b = self.expr(db, av_r, av_w)
            else:
                b = self.expr(db, av_r | a.w, av_w | a.w | a.r)
            if op in ("<<", ">>"):
                m = r.random()
                if m < 0.45:
                    v = r.randrange(self.dm.bits)
                    b = E(str(v), 16, str(v), self.tint, k=v)
                elif m < 0.95:
                    t = self.arith(b.ty)
                    b = E("%s & %d" % (self.paren(b, 8), self.dm.bits - 1), 8,
                          "((%s) & %d)" % (self.conv(b.py, b.ty, t), self.dm.bits - 1), t, b.r, b.w)
            elif op in ("/", "%"):
                m = r.random()
                if m < 0.35:
                    v = self.constval() or 3
                    if v > self.dm.imax or r.random() < 0.7:
                        b = self.const(v)
                    else:
                        b = E("-%d" % v, 14, "(-%d)" % v, self.tint)
                elif m < 0.9:
                    t = self.arith(b.ty)
                    b = E("%s | 1" % self.paren(b, 6), 6, "((%s) | 1)" % self.conv(b.py, b.ty, t), t, b.r, b.w)
            elif r.random() < 0.2 and not sp:
                b = self.const()
            return self.binary(op, a, b)
        if k == "un":
            return self.unary(r.choice("-~!-~!+"), self.expr(d - 1, av_r, av_w))
        if k == "cast":
            e = self.expr(d - 1, av_r, av_w)
            t = self.randty()
            return E("(%s)%s" % (t, self.paren(e, 14)), 14, self.conv(e.py, e.ty, t), t, e.r, e.w)
        if k == "tern":
            c = self.expr(d - 1, av_r, av_w)
            a = self.expr(d - 1, av_r, av_w)
            b = self.expr(d - 1, av_r, av_w)
            t = self.common(a.ty, b.ty)
            return E("%s ? %s : %s" % (self.paren(c, 4), self.paren(a, 2), self.paren(b, 3)), 3,
                     "((%s) if (%s) else (%s))" % (self.conv(a.py, a.ty, t), c.py, self.conv(b.py, b.ty, t)), t,
                     a.r | b.r | c.r, a.w | b.w | c.w)
        if k == "asg":
            e = self.assign(d - 1, av_r, av_w)
            if e:
                return e
            return self.leaf(av_r, av_w)
        if k == "inc":
            e = self.incdec(d - 1, av_r, av_w)
            return e or self.leaf(av_r, av_w)
        if k == "comma":
            a = self.expr(d - 1, av_r, av_w)
            b = self.expr(d - 1, av_r, av_w)
            return E("%s, %s" % (self.paren(a, 1), self.paren(b, 2)), 1, "seq(%s, %s)" % (a.py, b.py), b.ty, a.r | b.r,
                     a.w | b.w) if True else None
        if k == "call":
            e = self.callexpr(d - 1, av_r, av_w)
            return e or self.leaf(av_r, av_w)
        if k == "sizeof":
            vs = self.scope_vars()
            v = r.choice(vs) if vs and r.random() < 0.6 else None
            shadow = {}
            for x in vs:
                shadow.setdefault(x.name, x)
            if v is not None and shadow[v.name] is v and v.kind in ("i", "a", "m") and v.name not in av_r:
                s, n = v.size, "sizeof %s" % v.name if r.random() < .5 else "sizeof(%s)" % v.name
                if v.kind != "i" and r.random() < 0.4:
                    n, s = "sizeof %s[0]" % v.name, v.ty.size * (v.n2 if v.kind == "m" else 1)
            else:
                t = self.randty()
                n, s = "sizeof(%s)" % t, t.size
            return E(n, 14, str(s), self.tuns)
        if k == "ptr":
            return self.ptrexpr(d, av_r, av_w)
        if k == "str":
            n = r.choice([2, 4, 8])
            s = "".join(r.choice("abcdefghijkXYZ0189 _+") for _ in range(n))
            ix = self.index(n, d - 1, av_r, av_w, "")
            return E('"%s"[%s]' % (s, ix.c), 15, "(%r[%s])" % (s.encode(), ix.py), self.T[0], ix.r, ix.w)
        return self.leaf(av_r, av_w, d - 1)

    def sexpr(self, st, d, av_r, av_w):
        """A struct-valued expression whose Python value is the bytes of the struct; None if there is none."""
        r = self.rnd
        shadow = {}
        for v in self.scope_vars():
            shadow.setdefault(v.name, v)
        srcs = [v for v in shadow.values() if v.kind in ("s", "as", "ps") and v.st is st
                and (v.target.name if v.kind == "ps" else v.name) not in av_r and not (v.kind == "ps" and v.name in av_r)]
        fs = [f for f in self.fns if f.ret is st and not (f.r & av_r) and not (f.w & (av_r | av_w)) and f.cost < 60] if d > 0 else []
        k = self.pick((4 if srcs else 0, "v"), (4 if fs else 0, "f"), (0.0001, "n"))
        if k == "v":
            v = r.choice(srcs)
            if v.kind == "s":
                c, p, a, R, W = v.name, 16, v.base(), frozenset([v.name]), frozenset()
            elif v.kind == "ps":
                c, p, a, R, W = "*" + v.name, 14, self.ldp(v.base()), frozenset([v.name, v.target.name]), frozenset()
            else:
                ix = self.index(v.n, d - 1, av_r, av_w, v.name)
                c, p, a, R, W = "%s[%s]" % (v.name, ix.c), 15, "%s+(%s)*%d" % (v.base(), ix.py, st.size), ix.r | {v.name}, ix.w
            return E(c, p, "gb(%s, %d)" % (a, st.size), st, R, W)
        if k == "f":
            e = self.callf(r.choice(fs), d, av_r, av_w)
            self.hit("sret")
            return e
        return None

    def ptrexpr(self, d, av_r, av_w):
        """Comparison or difference of pointers into one array."""
        r = self.rnd
        shadow = {}
        for v in self.scope_vars():
            shadow.setdefault(v.name, v)
        arrs = [v for v in shadow.values() if v.kind == "a" and v.name not in av_r]
        if not arrs:
            return self.leaf(av_r, av_w)
        v = r.choice(arrs)
        a = self.index(v.n, d - 1, av_r, av_w, v.name)
        b = self.index(v.n, d - 1, av_r | a.w, av_w | a.w | a.r, v.name)
        ca = "&%s[%s]" % (v.name, a.c) if r.random() < .5 else "(%s + %s)" % (v.name, self.paren(a, 13))
        cb = "&%s[%s]" % (v.name, b.c) if r.random() < .5 else "(%s + %s)" % (v.name, self.paren(b, 13))
        op = r.choice(["-", "-", "==", "!=", "<", ">", "<=", ">="])
        R, Wr = a.r | b.r, a.w | b.w
        if op == "-":
            # ptrdiff_t is int here; parenthesised because of its operands
            return E("(%s - %s)" % (ca, cb), 16, "((%s) - (%s))" % (a.py, b.py), self.tint, R, Wr)
        return E("(%s %s %s)" % (ca, op, cb), 16, "(1 if (%s) %s (%s) else 0)" % (a.py, op, b.py), self.tint, R, Wr)

    def assign(self, d, av_r, av_w):
        r = self.rnd
        compound = r.random() < 0.55
        pl = self.place(d, av_r, av_w, True)
        if pl is None:
            return None
        op = r.choice(["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^"]) if compound else ""
        # the right side may read the target (ordered before the store) but must not write it
        e = self.expr(d, av_r | pl.w, av_w | pl.w | pl.r | {pl.obj})
        if pl.obj in av_r:
            return None
        s = self.sfx(pl.ty)
        if not compound:
            py = "s%s(%s, %s)" % (s, pl.addr, e.py)
        else:
            self.hit("asgop." + op)
            cur = E("x", 16, "x", pl.ty)
            if op in ("<<", ">>"):
                if r.random() < 0.5:
                    v = r.randrange(self.dm.bits)
                    e = E(str(v), 16, str(v), self.tint)
                else:
                    t = self.arith(e.ty)
                    e = E("%s & %d" % (self.paren(e, 8), self.dm.bits - 1), 8,
                          "((%s) & %d)" % (self.conv(e.py, e.ty, t), self.dm.bits - 1), t, e.r, e.w)
            elif op in ("/", "%"):
                if r.random() < 0.4:
                    e = self.const(self.constval() or 7)
                else:
                    t = self.arith(e.ty)
                    e = E("%s | 1" % self.paren(e, 6), 6, "((%s) | 1)" % self.conv(e.py, e.ty, t), t, e.r, e.w)
            res = self.binary(op, cur, E("y", 16, "y", e.ty))
            py = "(lambda a, y: r%s(a, lambda x: %s))(%s, %s)" % (s, res.py, pl.addr, e.py)
        c = "%s %s= %s" % (pl.c if pl.p >= 14 else "(%s)" % pl.c, op, self.paren(e, 2))
        return E(c, 2, py, pl.ty, pl.r | e.r | {pl.obj}, pl.w | e.w | {pl.obj})

    def incdec(self, d, av_r, av_w):
        r = self.rnd
        pl = self.place(d, av_r, av_w, True)
        if pl is None or pl.obj in av_r:
            return None
        op = r.choice(["++", "--"])
        dl = 1 if op == "++" else -1
        s = self.sfx(pl.ty)
        R, Wr = pl.r | {pl.obj}, pl.w | {pl.obj}
        if r.random() < 0.5:
            return E(op + (pl.c if pl.p >= 14 else "(%s)" % pl.c), 14, "r%s(%s, lambda x: x+(%d))" % (s, pl.addr, dl), pl.ty, R, Wr)
        return E((pl.c if pl.p >= 15 else "(%s)" % pl.c) + op, 15, "q%s(%s, %d)" % (s, pl.addr, dl), pl.ty, R, Wr)

    def callexpr(self, d, av_r, av_w):
        r = self.rnd
        cands = [f for f in self.fns if not (f.r & av_r) and not (f.w & (av_r | av_w)) and f.cost < 60]
        if not cands:
            return None
        f = r.choice(cands)
        e = self.callf(f, d, av_r, av_w)
        if e is None or not isinstance(f.ret, Struct):
            return e
        # a member of a returned struct
        c, t, off = r.choice([x for x in self.flat(f.ret)])
        self.hit("sretmem")
        return E("%s.%s" % (e.c, c), 15, "l%s_((%s), %d)" % (self.sfx(t), e.py, off), t, e.r, e.w)

    def callf(self, f, d, av_r, av_w, name=None, fidx=None):
        r = self.rnd
        args, R, Wr = [], frozenset(), frozenset()
        # the call is sequenced after its arguments, but other arguments' calls may interleave: keep them apart
        ar, aw = av_r | f.w, av_w | f.w | f.r
        for t, _ in f.params:
            if isinstance(t, Struct):
                e = self.sexpr(t, d - 1, ar | Wr, aw | Wr | R)
                if e is None:
                    return None
                self.hit("sarg")
            else:
                e = self.expr(d - 1, ar | Wr, aw | Wr | R)
            args.append((e, t))
            R, Wr = R | e.r, Wr | e.w
        ct = "%s(%s)" % (name or (f.name if r.random() < 0.93 else "(%s)" % f.name), ", ".join(self.paren(e, 2) for e, t in args))
        py = "callf(%s, fp+%d%s)" % (fidx or f.idx, self.FRAME, "".join(
            ", " + (e.py if isinstance(t, Struct) else self.conv(e.py, e.ty, t)) for e, t in args))
        self.curcost += f.cost
        return E(ct, 15, py, f.ret, R | f.r, Wr | f.w)

    FRAME = 1024

    # ---- statements --------------------------------------------------------------------------------------------
    def comp(self, py):
        return eval("lambda fp: " + py, self.ns)

    def note(self, e):
        self.fr |= e.r
        self.fw |= e.w

    def ind(self):
        return "  " * (self.level + 1)

    def newlocal(self, kinds=None):
        """Declares an initialised local; returns (C lines, run function)."""
        r = self.rnd
        kind = kinds or self.pick((6, "i"), (2, "a"), (1 if self.opt["structs"] else 0, "s"), (2 if self.opt["ptrs"] else 0, "p"),
                                  (1 if self.opt["structs"] and self.opt["ptrs"] else 0, "ps"), (0.7, "st"))
        shadow = {}
        for v in self.scope_vars():
            shadow.setdefault(v.name, v)
        vis = [v for v in shadow.values()]
        if kind == "p":
            c = [v for v in vis if v.kind in "ia" and not v.ro]
            if not c:
                kind = "i"
        if kind == "ps":
            c = [v for v in vis if v.kind in ("s", "as")]
            if not c:
                kind = "i"
        outer = [v.name for sc in self.scopes[:-1] for v in sc if v.kind == "i" and not v.ro and not v.name.startswith("lc")]
        cur = {v.name for v in self.scopes[-1]}
        outer = [n for n in outer if n not in cur and n not in self.pinned]
        nm = r.choice(outer) if outer and r.random() < 0.12 and kind in ("i", "a") else self.name("v")

        def place(size, align=4):
            self.frame = (self.frame + align - 1) // align * align
            a = self.frame
            self.frame += size
            if self.frame > self.FRAME:
                raise UB("frame")
            return a
        ind = self.ind()
        if kind == "i":
            ty = self.randty()
            e = self.expr(r.randint(0, 2), frozenset([nm]) , frozenset([nm]))
            self.note(e)
            a = place(ty.size)
            v = Var(nm, "i", ty, a, False, size=ty.size)
            self.scopes[-1].append(v)
            f = self.comp("s%s(fp+%d, %s)" % (self.sfx(ty), a, e.py))
            return [ind + "%s %s = %s;" % (ty, nm, self.paren(e, 2))], f
        if kind == "a":
            # the compiler wants constants in the initializer of an aggregate
            ty = self.randty()
            n = r.choice([2, 4, 8]) if r.random() > self.opt["big"] else r.choice([32, 64])
            a = place(ty.size * n)
            xs = [self.argval(ty) for _ in range(r.randint(1, min(n, 12)))]
            v = Var(nm, "a", ty, a, False, n=n, size=ty.size * n)
            self.scopes[-1].append(v)
            img = b"".join((x & ((1 << ty.bits) - 1)).to_bytes(ty.size, "little") for x in xs).ljust(ty.size * n, b"\0")
            M = self.M

            def f(fp):
                M[fp + a:fp + a + len(img)] = img
            return [ind + "%s %s[%d] = { %s };" % (ty, nm, n, ", ".join(map(self.lit, xs)))], f
        if kind == "s":
            st = r.choice(self.structs) if self.structs else None
            if st is None:
                return self.newlocal("i")
            a = place(st.size, 4)
            v = Var(nm, "s", None, a, False, st=st, size=st.size)
            same = [x for x in vis if x.kind == "s" and x.st is st]
            if same and r.random() < 0.6:
                o = r.choice(same)
                self.fr |= {o.name}
                self.scopes[-1].append(v)
                self.hit("structinit")
                return [ind + "%s %s = %s;" % (st.cname, nm, o.name)], self.comp("cpy(fp+%d, %s, %d)" % (a, o.base(), st.size))
            tmp = bytes(self.M[0:64])
            scratch = self.dm.mem - 256
            self.M[scratch:scratch + st.size] = bytes(st.size)
            txt = self.initlist(st, scratch)
            img = bytes(self.M[scratch:scratch + st.size])
            self.scopes[-1].append(v)
            M = self.M

            def f(fp):
                M[fp + a:fp + a + len(img)] = img
            return [ind + "%s %s = %s;" % (st.cname, nm, txt)], f
        if kind == "st":
            ty = self.randty()
            nm = self.name("t")
            a = self.alloc(ty.size)
            x = self.argval(ty)
            self.store(a, ty, x)
            v = Var(nm, "i", ty, a, True, size=ty.size)
            self.scopes[-1].append(v)
            self.statics = True
            return [ind + "static %s %s = %s;" % (ty, nm, self.lit(x))], (lambda fp: None)
        if kind == "ps":
            t = r.choice(c)
            a = place(self.dm.ptr_size)
            v = Var(nm, "ps", None, a, False, st=t.st, target=t, size=self.dm.ptr_size)
            ws = "s4u" if self.dm.ptr_size == 4 else "s2u"
            if t.kind == "s":
                txt, addr = "&" + t.name, t.base()
            else:
                ix = self.index(t.n, 1, frozenset(), frozenset(), t.name)
                self.note(ix)
                txt, addr = "&%s[%s]" % (t.name, ix.c), "%s+(%s)*%d" % (t.base(), ix.py, t.st.size)
            self.scopes[-1].append(v)
            return [ind + "%s *%s = %s;" % (t.st.cname, nm, txt)], self.comp("%s(fp+%d, %s)" % (ws, a, addr))
        t = r.choice(c)
        k = r.randint(0, t.n - 1) if t.kind == "a" else 0
        a = place(self.dm.ptr_size)
        v = Var(nm, "p", t.ty, a, False, target=t, k=k, size=self.dm.ptr_size)
        ws = "s4u" if self.dm.ptr_size == 4 else "s2u"
        self.scopes[-1].append(v)
        txt = ("&" + t.name) if t.kind == "i" else r.choice(["&%s[%d]" % (t.name, k), "%s + %d" % (t.name, k)])
        q = "const " if False else ""
        return [ind + "%s%s *%s = %s;" % (q, t.ty, nm, txt)], self.comp("%s(fp+%d, %s+%d)" % (ws, a, t.base(), k * t.ty.size))

    def block(self, depth, n, inloop, decls=True):
        """A list of statements in a new scope: (lines, runner).  The runner returns None, 'b', 'c', ('r', v), ('g', l)."""
        r = self.rnd
        self.scopes.append([])
        lines, runs, labels = [], [], {}
        if decls:
            for _ in range(r.choice([0, 0, 1, 1, 2, 3]) if depth else r.randint(1, 5)):
                ls, f = self.newlocal()
                lines += ls
                runs.append(f)
        for _ in range(n):
            if decls and r.random() < 0.1:
                ls, f = self.newlocal()
            else:
                ls, f = self.stmt(depth, inloop)
            lines += ls
            runs.append(f)
        # a forward goto within this block
        if self.opt["goto"] and self.opt["ctl"] and len(runs) > 2 and r.random() < 0.08:
            pass
        self.scopes.pop()
        runs = tuple(runs)

        def go(fp):
            for f in runs:
                s = f(fp)
                if s is not None and s.__class__ is not int:
                    return s
            return None
        return lines, go

    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise UB("steps")

    def cond(self):
        e = self.expr(self.rnd.randint(1, self.opt["depth"] - 1))
        self.note(e)
        return e

    def stmt(self, depth, inloop):
        r = self.rnd
        ind = self.ind()
        ctl = 1 if depth < 3 and self.opt["ctl"] else 0
        k = self.pick((12, "asg"), (2, "inc"), (3 * ctl, "if"), (1.6 * ctl, "for"), (1 * ctl, "while"), (1 * ctl, "do"),
                      (1.4 * ctl, "switch"), (1 * ctl, "block"), (0.6 if depth else 0, "return"),
                      (0.8 if inloop and depth else 0, "break"), (0.8 if inloop and depth else 0, "cont"),
                      (1, "expr"), (1.2 if self.opt["structs"] else 0, "scpy"), (1.0 if self.opt["ptrs"] else 0, "walk"),
                      (0.9 * ctl if self.opt["goto"] else 0, "goto"), (1.3 if self.opt["ptrs"] else 0, "pmach"),
                      (0.8 if self.opt["fptr"] and self.opt["calls"] else 0, "fptr"), (0.7 * self.opt["agg"], "sasg"))
        self.hit("stmt." + k)
        D = self.opt["depth"]
        if k == "asg":
            e = self.assign(r.randint(0, D), frozenset(), frozenset())
        elif k == "inc":
            e = self.incdec(r.randint(0, 2), frozenset(), frozenset())
        elif k == "expr":
            e = self.expr(r.randint(1, D))
        elif k == "scpy":
            shadow = {}
            for v in self.scope_vars():
                shadow.setdefault(v.name, v)
            ss = [v for v in shadow.values() if v.kind in ("s", "ps", "as")]
            if ss:
                a = r.choice(ss)
                bs = [v for v in ss if v.st is a.st]
                b = r.choice(bs)

                def acc(v):
                    if v.kind == "s":
                        return v.name, v.base(), v.name
                    if v.kind == "ps":
                        return "*" + v.name, self.ldp(v.base()), v.target.name
                    i = r.randrange(v.n)
                    return "%s[%d]" % (v.name, i), "%s+%d" % (v.base(), i * v.st.size), v.name
                ca, aa, oa = acc(a)
                cb, ab, ob = acc(b)
                self.fr |= {ob, a.name, b.name}
                self.fw |= {oa}
                return [ind + "%s = %s;" % (ca, cb)], self.comp("cpy(%s, %s, %d)" % (aa, ab, a.st.size))
            e = None
        elif k == "walk":
            return self.walk(depth)
        elif k == "pmach":
            return self.pmach()
        elif k == "fptr":
            return self.fptr()
        elif k == "sasg":
            return self.sasg()
        elif k == "goto":
            return self.gotoblock(depth, inloop)
        elif k == "if":
            c = self.cond()
            self.level += 1
            l1, f1 = self.block(depth + 1, r.randint(1, 3), inloop)
            has = r.random() < 0.5
            if has:
                l2, f2 = self.block(depth + 1, r.randint(1, 3), inloop)
            self.level -= 1
            cf = self.comp(c.py)
            lines = [ind + "if (%s) {" % c.c] + l1
            if has:
                lines += [ind + "} else {"] + l2
                run = lambda fp: f1(fp) if cf(fp) else f2(fp)
            else:
                run = lambda fp: f1(fp) if cf(fp) else None
            return lines + [ind + "}"], run
        elif k == "block":
            self.level += 1
            l1, f1 = self.block(depth + 1, r.randint(1, 3), inloop)
            self.level -= 1
            return [ind + "{"] + l1 + [ind + "}"], f1
        elif k in ("for", "while", "do"):
            return self.loop(k, depth)
        elif k == "switch":
            return self.switch(depth, inloop)
        elif k == "return":
            e = self.retval(r.randint(0, D))
            f = self.comp(e.py if isinstance(self.ret, Struct) else self.conv(e.py, e.ty, self.ret))
            return [ind + "return %s;" % e.c], (lambda fp: ("r", f(fp)))
        elif k == "break":
            c = self.expr(1)
            self.note(c)
            cf = self.comp(c.py)
            return [ind + "if (%s) break;" % c.c], (lambda fp: "b" if cf(fp) else None)
        elif k == "cont":
            if self.noc:
                return [ind + ";"], (lambda fp: None)
            c = self.expr(1)
            self.note(c)
            cf = self.comp(c.py)
            return [ind + "if (%s) continue;" % c.c], (lambda fp: "c" if cf(fp) else None)
        if e is None:
            return [ind + ";"], (lambda fp: None)
        self.note(e)
        f = self.comp(e.py)

        def run(fp):
            f(fp)
        return [ind + e.c + ";"], run

    def counter(self):
        """A protected loop counter local (declared at function level)."""
        nm = self.name("lc")
        ty = self.rnd.choice([t for t in self.T if t.size >= 1])
        self.frame = (self.frame + 3) // 4 * 4
        a = self.frame
        self.frame += ty.size
        if self.frame > self.FRAME:
            raise UB("frame")
        v = Var(nm, "i", ty, a, False, ro=True, size=ty.size)
        self.scopes[0].append(v)
        self.fdecl.append("  %s %s = 0;" % (ty, nm))
        self.finit.append((a, ty))
        return v

    def loop(self, k, depth):
        r = self.rnd
        ind = self.ind()
        v = self.counter()
        n = r.randint(1, 5)
        ty = v.ty
        self.level += 1
        nc, self.noc = self.noc, (k != "for")
        save = self.curcost
        self.curcost = 0
        l1, f1 = self.block(depth + 1, r.randint(1, 3), True)
        self.noc = nc
        self.level -= 1
        self.curcost = save + self.curcost * n + n
        s, l = self.ns["s" + self.sfx(ty)], self.ns["l" + self.sfx(ty)]
        a = v.addr
        tick = self.tick
        extra = None
        if r.random() < 0.3:
            extra = self.expr(2)
            self.note(extra)
        xf = self.comp(extra.py) if extra else (lambda fp: 1)
        if k == "for":
            up = r.random() < 0.6
            if up:
                lo = r.randint(0, 3)
                step = r.choice([1, 1, 1, 2, 3])
                hi = lo + n * step
                rel = r.choice(["<", "<", "!=", "<="])
                if rel == "!=":
                    cnd, cc = (lambda x: x != hi), "%s != %d" % (v.name, hi)
                elif rel == "<":
                    cnd, cc = (lambda x: x < hi), "%s < %d" % (v.name, hi)
                else:
                    cnd, cc = (lambda x: x <= hi), "%s <= %d" % (v.name, hi)
                inc = r.choice(["%s++", "++%s"]) % v.name if step == 1 and r.random() < .8 else "%s += %d" % (v.name, step)
                start = lo
            else:
                start, step = n, -1
                cnd = lambda x: x > 0
                cc = r.choice(["%s > 0", "%s", "%s != 0", "0 < %s"]) % v.name
                if not ty.signed or True:
                    cnd = (lambda x: x > 0) if ">" in cc or "<" in cc else (lambda x: x != 0)
                inc = r.choice(["%s--", "--%s", "%s -= 1"]) % v.name
            cond = "%s && %s" % (cc, self.paren(extra, 6)) if extra else cc

            def run(fp):
                s(fp + a, start)
                while cnd(l(fp + a)) and xf(fp):
                    tick()
                    q = f1(fp)
                    if q is not None:
                        if q == "b":
                            break
                        if q != "c":
                            return q
                    s(fp + a, l(fp + a) + step)
                return None
            return [ind + "for (%s = %d; %s; %s) {" % (v.name, start, cond, inc)] + l1 + [ind + "}"], run
        if k == "while":
            cond = "%s-- > 0" % v.name if True else ""
            cc = "%s && %s" % (cond, self.paren(extra, 6)) if extra else cond

            def run(fp):
                s(fp + a, n)
                while True:
                    x = l(fp + a)
                    s(fp + a, x - 1)
                    if not x > 0 or not xf(fp):
                        break
                    tick()
                    q = f1(fp)
                    if q is not None:
                        if q == "b":
                            break
                        if q != "c":
                            return q
                return None
            return [ind + "%s = %d;" % (v.name, n), ind + "while (%s) {" % cc] + l1 + [ind + "}"], run
        cc = "++%s < %d" % (v.name, n)
        if extra:
            cc = "%s && %s" % (cc, self.paren(extra, 6))

        def run(fp):
            s(fp + a, 0)
            while True:
                tick()
                q = f1(fp)
                if q is not None:
                    if q == "b":
                        break
                    if q != "c":
                        return q
                s(fp + a, l(fp + a) + 1)
                if not l(fp + a) < n or not xf(fp):
                    break
            return None
        return [ind + "%s = 0;" % v.name, ind + "do {"] + l1 + [ind + "} while (%s);" % cc], run

    def switch(self, depth, inloop):
        r = self.rnd
        ind = self.ind()
        e = self.expr(r.randint(1, 3))
        if r.random() < 0.7:
            t = self.arith(e.ty)
            m = r.choice([1, 3, 7, 15])
            e = E("%s & %d" % (self.paren(e, 8), m), 8, "((%s) & %d)" % (self.conv(e.py, e.ty, t), m), t, e.r, e.w)
            dom = list(range(m + 2))
        else:
            dom = list(dict.fromkeys([self.argval(self.tint) for _ in range(12)] + [0, 1, -1]))
        t = self.arith(e.ty)
        if not t.signed:
            dom = [x for x in dom if x >= 0]
        self.note(e)
        r.shuffle(dom)
        ncase = r.randint(1, min(7, len(dom))) if r.random() < 0.8 else len(dom)
        vals = dom[:ncase]
        hasdef = r.random() < 0.6
        order = list(vals) + (["d"] if hasdef else [])
        r.shuffle(order)
        self.level += 1
        nob = self.noc
        lines, runs, entry = [], [], {}
        self.scopes.append([])
        for x in order:
            entry[x] = len(runs)
            lines.append(ind + ("default:" if x == "d" else "case %s:" % (self.lit(x))))
            if r.random() < 0.2:
                continue
            for _ in range(r.randint(1, 2)):
                ls, f = self.stmt(depth + 1, False)
                lines += ls
                runs.append(f)
            if r.random() < 0.6:
                lines.append(ind + "  break;")
                runs.append(lambda fp: "b")
        if lines and lines[-1].rstrip().endswith(":"):
            lines.append(ind + "  ;")
        self.scopes.pop()
        self.level -= 1
        cf = self.comp(self.conv(e.py, e.ty, t))
        runs = tuple(runs)
        dflt = entry.get("d", len(runs))
        table = {t.wrap(x): i for x, i in entry.items() if x != "d"}

        def run(fp):
            i = table.get(cf(fp), dflt)
            while i < len(runs):
                s = runs[i](fp)
                if s is not None and s.__class__ is not int:
                    if s == "b":
                        return None
                    return s
                i += 1
            return None
        return [ind + "switch (%s) {" % e.c] + lines + [ind + "}"], run

    def gotoblock(self, depth, inloop):
        """if (c) goto L; stmts; L: stmts   or a backward-goto loop."""
        r = self.rnd
        ind = self.ind()
        lab = self.name("L")
        if r.random() < 0.6:
            c = self.cond()
            self.level += 1
            nl = self.scopes
            l1, f1 = self.block(depth + 1, r.randint(1, 3), inloop, decls=False)
            l2, f2 = self.stmt(depth + 1, inloop)
            self.level -= 1
            cf = self.comp(c.py)

            def run(fp):
                if not cf(fp):
                    s = f1(fp)
                    if s is not None:
                        return s
                s = f2(fp)
                return s if s.__class__ is not int else None
            return [ind + "if (%s) goto %s;" % (c.c, lab)] + l1 + [ind + lab + ":"] + l2, run
        v = self.counter()
        n = r.randint(1, 4)
        self.level += 1
        save, self.curcost = self.curcost, 0
        l1, f1 = self.block(depth + 1, r.randint(1, 2), inloop, decls=False)
        self.curcost = save + n * (self.curcost + 1)
        self.level -= 1
        s_, l_ = self.ns["s" + self.sfx(v.ty)], self.ns["l" + self.sfx(v.ty)]
        a, tick = v.addr, self.tick

        def run(fp):
            s_(fp + a, 0)
            while True:
                tick()
                s = f1(fp)
                if s is not None:
                    return s
                s_(fp + a, l_(fp + a) + 1)
                if not l_(fp + a) < n:
                    return None
        return [ind + "%s = 0;" % v.name, ind + lab + ":"] + (l1 or [ind + ";"]) + [
            ind + "if (++%s < %d) goto %s;" % (v.name, n, lab)], run

    def walk(self, depth):
        """A pointer walking over an array."""
        r = self.rnd
        ind = self.ind()
        shadow = {}
        for v in self.scope_vars():
            shadow.setdefault(v.name, v)
        arrs = [v for v in shadow.values() if v.kind == "a" and not v.ro]
        if not arrs:
            return [ind + ";"], (lambda fp: None)
        t = r.choice(arrs)
        p = self.name("w")
        # the walking pointer is visible only as text of this template
        n = t.n
        sz = t.ty.size
        D = 2
        obj = frozenset([t.name])
        e = self.expr(D, frozenset([t.name]), obj)
        self.note(e)
        self.fr |= obj
        self.fw |= obj
        f = self.comp(e.py)
        cv = self.ns["s" + self.sfx(t.ty)]
        ld = self.ns["l" + self.sfx(t.ty)]
        base = self.comp(t.base())
        forms = ["up", "down", "preinc", "postdec", "swap"]
        form = r.choice(forms)
        conv = self.conv
        if form == "up":
            op = r.choice(["=", "+=", "^=", "-="])
            res = {"=": "y", "+=": "x+y", "^=": "x^y", "-=": "x-y"}[op]
            if op == "^=":
                ct = self.common(t.ty, e.ty)
                g = eval("lambda x, y: (%s) ^ (%s)" % (conv("x", t.ty, ct), conv("y", e.ty, ct)), self.ns)
            else:
                g = eval("lambda x, y: " + res)
            rel = r.choice(["<", "!="])
            lines = [ind + "{ %s *%s; for (%s = %s; %s %s %s + %d; ) *%s++ %s %s; }" % (
                t.ty, p, p, t.name, p, rel, t.name, n, p, op, self.paren(e, 2))]

            def run(fp):
                b = base(fp)
                for i in range(n):
                    self.tick()
                    y = f(fp)
                    cv(b + i * sz, g(ld(b + i * sz), y))
            return lines, run
        if form == "down":
            lines = [ind + "{ %s *%s = %s + %d; while (%s > %s) *--%s += %s; }" % (
                t.ty, p, t.name, n, p, t.name, p, self.paren(e, 2))]

            def run(fp):
                b = base(fp)
                for i in reversed(range(n)):
                    self.tick()
                    cv(b + i * sz, ld(b + i * sz) + f(fp))
            return lines, run
        if form == "preinc":
            k = r.randint(0, n - 2)
            step = r.randint(1, n - 1 - k)
            lines = [ind + "{ %s *%s = &%s[%d]; %s += %d; *%s = %s; %s -= %d; (*%s)++; --*%s; ++*%s; }" % (
                t.ty, p, t.name, k, p, step, p, self.paren(e, 2), p, step, p, p, p)]

            def run(fp):
                b = base(fp)
                cv(b + (k + step) * sz, f(fp))
                cv(b + k * sz, ld(b + k * sz) + 1)
            return lines, run
        if form == "postdec":
            k = r.randint(1, n - 1)
            acc = self.name("w")
            lines = [ind + "{ %s *%s = %s + %d; %s[-1] = *%s-- + %s; }" % (
                t.ty, p, t.name, k, t.name + " + %d" % k if False else "(%s + %d)" % (t.name, k), p, self.paren(e, 13))]

            def run(fp):
                b = base(fp)
                cv(b + (k - 1) * sz, ld(b + k * sz) + f(fp))
            return lines, run
        i, j = r.randrange(n), r.randrange(n)
        q = self.name("w")
        tmp = self.name("w")
        lines = [ind + "{ %s *%s = %s + %d, *%s = &%s[%d], %s = *%s; *%s = *%s; *%s = %s; }" % (
            t.ty, p, t.name, i, q, t.name, j, tmp, p, p, q, q, tmp)]

        def run(fp):
            b = base(fp)
            x, y = ld(b + i * sz), ld(b + j * sz)
            cv(b + i * sz, y)
            cv(b + j * sz, x)
        return lines, run

    def visible(self):
        shadow = {}
        for v in self.scope_vars():
            shadow.setdefault(v.name, v)
        return list(shadow.values())

    NOP = staticmethod(lambda fp: None)

    def sasg(self):
        """s = struct expression, s = cond ? s1 : s2, (s = t).m."""
        r = self.rnd
        ind = self.ind()
        dst = [v for v in self.visible() if v.kind in ("s", "as")]
        if not dst:
            return [ind + ";"], self.NOP
        v = r.choice(dst)
        if v.kind == "s":
            c, a, R, W = v.name, v.base(), frozenset(), frozenset()
        else:
            ix = self.index(v.n, 2, frozenset(), frozenset(), v.name)
            c, a, R, W = "%s[%s]" % (v.name, ix.c), "%s+(%s)*%d" % (v.base(), ix.py, v.st.size), ix.r, ix.w
        e = self.sexpr(v.st, 3, W, W | R | {v.name})
        if e is None:
            return [ind + ";"], self.NOP
        self.note(e)
        self.fr |= R | {v.name}
        self.fw |= W | {v.name}
        text = "%s = %s" % (c, self.paren(e, 2))
        py = "pb(%s, %s)" % (a, e.py)
        if r.random() < 0.3:
            # the value of the assignment
            m, t, off = r.choice(list(self.flat(v.st)))
            pl = self.place(1, frozenset(), frozenset([v.name]) | R | W | e.r | e.w, True)
            if pl is not None and v.name not in pl.r | pl.w and not ((R | W | e.r | e.w) & pl.w) and not (e.w | W) & pl.r:
                self.fr |= pl.r
                self.fw |= pl.w | {pl.obj}
                self.hit("sasg.value")
                return [ind + "%s = (%s).%s;" % (pl.c if pl.p >= 14 else "(%s)" % pl.c, text, m)], self.comp(
                    "s%s(%s, l%s_(%s, %d))" % (self.sfx(pl.ty), pl.addr, self.sfx(t), py, off))
        return [ind + text + ";"], self.comp("len(%s)" % py)

    def fptr(self):
        """A call through a pointer to function, a table of them, or a pointer passed down."""
        r = self.rnd
        ind = self.ind()
        cands = [f for f in self.fns if f.cost < 60 and not isinstance(f.ret, Struct)]
        if not cands:
            return [ind + ";"], self.NOP
        f = r.choice(cands)
        same = [g for g in cands if g.protos == f.protos and g.ret is f.ret]
        sig = "(%s)" % f.protos
        form = r.choice(["local", "local", "table", "gtable", "member"])
        n = 1
        tab = [f]
        nm = self.name("w")
        if form in ("table", "gtable"):
            n = r.choice([2, 4])
            tab = [r.choice(same) for _ in range(n)]
        allr = frozenset().union(*[g.r for g in tab])
        allw = frozenset().union(*[g.w for g in tab])
        names = ", ".join(("&" if r.random() < 0.3 else "") + g.name for g in tab)
        pre = []
        post = "}"
        if form == "local":
            decl = "{ %s (*%s)%s = %s; " % (f.ret, nm, sig, names)
            ref, idx = nm if r.random() < 0.5 else "(*%s)" % nm, str(f.idx)
        elif form == "member":
            decl = "{ struct { char c; %s (*f)%s; } %s; %s.f = %s; " % (f.ret, sig, nm, nm, names)
            ref, idx = nm + ".f", str(f.idx)
        else:
            if form == "gtable":
                nm = self.name("g")
                self.text.append("static %s (*%s[])%s = { %s };" % (f.ret, nm, sig, names))
                decl = "{ "
            else:
                decl = "{ static %s (*%s[%d])%s = { %s }; " % (f.ret, nm, n, sig, names)
            ix = self.index(n, 2, allw, allw | allr, "")
            ref, idx = "%s[%s]" % (nm, ix.c), "(%s)[%s]" % ([g.idx for g in tab], ix.py)
            allr, allw = allr | ix.r, allw | ix.w
        g = Fn()
        g.r, g.w, g.params, g.ret, g.cost, g.idx, g.name = allr, allw, f.params, f.ret, max(x.cost for x in tab), f.idx, f.name
        e = self.callf(g, 2, frozenset(), frozenset(), ref, idx)
        if e is None:
            return [ind + ";"], self.NOP
        self.note(e)
        pl = self.place(1, frozenset(), e.r | e.w, True)
        if pl is None or (pl.w & (e.r | e.w)) or (pl.r & e.w):
            return [ind + ";"], self.NOP
        self.fr |= pl.r
        self.fw |= pl.w | {pl.obj}
        self.hit("fptr." + form)
        return [ind + decl + "%s = %s; }" % (pl.c if pl.p >= 14 else "(%s)" % pl.c, self.paren(e, 2))], self.comp(
            "s%s(%s, %s)" % (self.sfx(pl.ty), pl.addr, e.py))

    def pmach(self):
        """A pointer kept in some object moves over an array: every pointer operator in every operand position."""
        r = self.rnd
        ind = self.ind()
        arrs = [v for v in self.visible() if v.kind in ("a", "as") and not v.ro]
        if not arrs:
            return [ind + ";"], self.NOP
        t = r.choice(arrs)
        st = t.kind == "as"
        size = t.st.size if st else t.ty.size
        n = t.n
        tn = t.st.cname if st else t.ty.name
        if st:
            mem, mt, moff = r.choice(list(self.flat(t.st)))
        else:
            mem, mt, moff = None, t.ty, 0
        home = r.choice(["local", "local", "global", "larr", "garr", "mem", "pp", "param"])
        ps = self.dm.ptr_size
        k0 = r.randrange(n)
        init = "%s + %d" % (t.name, k0) if r.random() < .5 else "&%s[%d]" % (t.name, k0)
        w = self.name("w")
        glob = home in ("global", "garr")
        lines = []
        if glob:
            w = self.name("g")
            a = self.alloc(ps * 4)
            slot = str(a)
        else:
            self.frame = (self.frame + 3) // 4 * 4
            a = self.frame
            self.frame += ps
            if self.frame > self.FRAME:
                raise UB("frame")
            slot = "fp+%d" % a
        if home == "local":
            lines.append("%s *%s = %s;" % (tn, w, init))
            P = w
        elif home == "global":
            self.text.append("static %s *%s;" % (tn, w))
            lines.append("%s = %s;" % (w, init))
            P = w
        elif home in ("larr", "garr"):
            i = r.randrange(3)
            d = "%s *%s[3];" % (tn, w)
            if home == "garr":
                self.text.append("static " + d)
            else:
                lines.append(d)
            P = "%s[%d]" % (w, i)
            lines.append("%s = %s;" % (P, init))
        elif home == "mem":
            lines.append("struct { char c; %s *p; } %s;" % (tn, w))
            P = w + ".p"
            lines.append("%s = %s;" % (P, init))
        else:
            q = self.name("w")
            lines.append("%s *%s = %s, **%s = &%s;" % (tn, w, init, q, w))
            P = "(*%s)" % q if r.random() < 0.7 else "%s[0]" % q
        obj = frozenset([t.name])
        base = t.base()
        ws = "s4u" if ps == 4 else "s2u"
        P_ = self.ldp(slot)

        def pin(x, need):
            return "pin(%s, %s, %d, %d, %d)" % (x, base, size, n, need)

        steps = [self.comp("%s(%s, %s+%d)" % (ws, slot, base, k0 * size))]
        self.fr |= obj
        self.fw |= obj
        ops = 0
        while ops < r.randint(3, 9):
            ops += 1
            form = r.choice(["step", "stepread", "stepwrite", "add", "addvar", "set", "read", "write", "cmp", "diff", "bool",
                             "rmw", "cond", "int", "idx"])
            self.hit("pm." + form)
            dl = r.choice([1, -1])
            op = "++" if dl > 0 else "--"
            prefix = r.random() < 0.5
            stepc = (op + P) if prefix else (P + op)
            # value of the stepped pointer
            stepv = "(lambda p: (%s(%s, %s), p%s)[1])(%s)" % (ws, slot, pin("p+%d" % (dl * size), 0), "+%d" % (dl * size) if prefix else "", P_)
            if form == "step":
                lines.append(stepc + ";")
                steps.append(self.comp(stepv))
                continue
            if form == "add":
                k = r.randint(1, max(1, n // 2)) * dl
                lines.append("%s %s= %d;" % (P, "+" if k > 0 else "-", abs(k)) if r.random() < 0.7 else
                             "%s = %s %s %d;" % (P, P, "+" if k > 0 else "-", abs(k)))
                steps.append(self.comp("%s(%s, %s)" % (ws, slot, pin("%s+%d" % (P_, k * size), 0))))
                continue
            if form == "addvar":
                e = self.expr(2, frozenset(), frozenset())
                self.note(e)
                ar = self.arith(e.ty)
                m = r.choice([1, 3])
                m = min(m, n - 1)
                sgn = r.choice("+-")
                lines.append("%s %s= %s & %d;" % (P, sgn, self.paren(e, 8), m))
                steps.append(self.comp("%s(%s, %s)" % (ws, slot, pin("%s%s((%s)&%d)*%d" % (
                    P_, sgn, self.conv(e.py, e.ty, ar), m, size), 0))))
                continue
            if form == "set":
                ix = self.index(n, 2, frozenset(), frozenset(), t.name)
                self.note(ix)
                lines.append("%s = %s;" % (P, "&%s[%s]" % (t.name, ix.c) if r.random() < .5 else "%s + %s" % (t.name, self.paren(ix, 13))))
                steps.append(self.comp("%s(%s, %s+(%s)*%d)" % (ws, slot, base, ix.py, size)))
                if r.random() < 0.5 and ix.k is not None:
                    # the address as an integer
                    pl = self.place(0, frozenset(), obj, True)
                    if pl is not None:
                        # the same operation on the same address, once as a constant and once from the pointer
                        o = r.choice(["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", "=="])
                        A, B = "(unsigned)&%s[%d]" % (t.name, ix.k), "(unsigned)%s" % P
                        if r.random() < 0.5:
                            u = self.place(0, frozenset([pl.obj]), frozenset(), False)
                            cst = u.c if u is not None and o not in "/%<<>>" and u.p >= 15 else str(r.choice([1, 3, 4, 5, 7, 10]))
                            if u is not None:
                                self.fr |= u.r | {u.obj}
                                self.fw |= u.w
                            x, y = "%s %s %s" % (A, o, cst), "%s %s %s" % (B, o, cst)
                        else:
                            cst = str(r.choice([1, 3, 1000, 65535, 40000])) + ("U" if self.dm.int_size == 2 else "")
                            u = self.place(0, frozenset([pl.obj]), frozenset(), False)
                            if u is not None and u.p >= 15:
                                cst = u.c
                                self.fr |= u.r | {u.obj}
                                self.fw |= u.w
                            if o in ("<<", ">>"):
                                A, B = "(%s & 7)" % A, "(%s & 7)" % B
                            x, y = "%s %s %s" % (cst, o, A), "%s %s %s" % (cst, o, B)
                        x, y = "(%s)" % x, "(%s)" % y
                        self.fr |= pl.r
                        self.fw |= pl.w | {pl.obj}
                        self.hit("pm.addrint")
                        lines.append("%s = %s == %s;" % (pl.c if pl.p >= 14 else "(%s)" % pl.c, x, y))
                        steps.append(self.comp("s%s(%s, 1)" % (self.sfx(pl.ty), pl.addr)))
                continue
            # an element through the pointer
            j = 0
            if form in ("idx",):
                ix = self.index(min(n, 2), 2, frozenset(), frozenset(), t.name)
                acc = ("%s[%s]." % (P, ix.c) + mem) if st else ("%s[%s]" % (P, ix.c) if r.random() < .7 else "*(%s + %s)" % (P, self.paren(ix, 13)))
                addr = "(%s+(%s)*%d)" % (P_, ix.py, size)
                rr, ww = ix.r, ix.w
            elif form in ("stepread", "stepwrite"):
                if st:
                    acc = "(%s)->%s" % (stepc, mem)
                else:
                    acc = "*" + stepc
                addr = stepv
                rr = ww = frozenset()
            else:
                j = r.randint(-1, 2) if r.random() < 0.5 else 0
                if j == 0:
                    acc = (r.choice(["%s->%s", "(*%s).%s"]) % (P, mem)) if st else "*" + P
                else:
                    acc = ("%s[%d]." % (P, j) + mem) if st else ("%s[%d]" % (P, j) if r.random() < .6 else "*(%s %s %d)" % (P, "+" if j > 0 else "-", abs(j)))
                addr = "(%s+%d)" % (P_, j * size)
                rr = ww = frozenset()
            ea = pin(addr, size) + ("+%d" % moff if moff else "")
            s = self.sfx(mt)
            ap = acc if acc[0] != "*" else acc
            if form in ("read", "stepread", "idx", "cond", "bool", "cmp", "diff"):
                pl = self.place(1, rr | ww, obj | rr | ww, True)
                if pl is None or pl.w & (obj | rr | ww) or pl.r & ww:
                    continue
                self.fr |= pl.r | rr
                self.fw |= pl.w | {pl.obj} | ww
                pc = pl.c if pl.p >= 14 else "(%s)" % pl.c
                if form in ("read", "stepread", "idx"):
                    if r.random() < 0.6:
                        val, vt = E(acc, 14, "l%s(%s)" % (s, ea), mt), mt
                    else:
                        val = self.binary(r.choice(["+", "-", "*", "^", "<", ">="]), E(acc, 14, "l%s(%s)" % (s, ea), mt), self.const())
                elif form == "cond":
                    a2, b2 = self.expr(1, pl.w, obj | pl.w | pl.r | {pl.obj}), self.const()
                    self.note(a2)
                    tt = self.common(a2.ty, b2.ty)
                    val = E("%s ? %s : %s" % (P, self.paren(a2, 2), self.paren(b2, 3)), 3, self.conv(a2.py, a2.ty, tt), tt)
                elif form == "bool":
                    b2 = self.expr(1, pl.w, obj | pl.w | pl.r | {pl.obj})
                    self.note(b2)
                    m = r.choice(["!%s", "!!%s", "%s && %s", "%s || %s", "%s != 0", "0 == %s"])
                    if "&&" in m:
                        val = E(m % (P, self.paren(b2, 6)), 5, "(1 if (%s) else 0)" % b2.py, self.tint)
                    elif "||" in m:
                        val = E(m % (P, self.paren(b2, 5)), 4, "1", self.tint)
                    else:
                        val = E(m % P, 9, "1" if m in ("!!%s", "%s != 0") else "0", self.tint)
                elif form == "cmp":
                    o = r.choice(["==", "!=", "<", ">", "<=", ">="])
                    kk = r.randint(0, n)
                    b = r.choice(["%s + %d", "&%s[%d]"]) % (t.name, kk)
                    bpy = "%s+%d" % (base, kk * size)
                    val = E("%s %s %s" % (P, o, b), PREC[o], "(1 if %s %s %s else 0)" % (P_, o, bpy), self.tint)
                else:
                    val = E("(%s - %s)" % (P, t.name), 16, "((%s-(%s))//%d)" % (P_, base, size), self.tint)
                o = r.choice(["", "", "+", "^"])
                if o:
                    ct = self.binary(o, E("x", 16, "x", pl.ty), E("y", 16, "y", val.ty))
                    py = "(lambda a, y: r%s(a, lambda x: %s))(%s, %s)" % (self.sfx(pl.ty), ct.py, pl.addr, val.py)
                else:
                    py = "s%s(%s, %s)" % (self.sfx(pl.ty), pl.addr, val.py)
                lines.append("%s %s= %s;" % (pc, o, self.paren(val, 2)))
                steps.append(self.comp(py))
                continue
            if form == "rmw":
                if mt.size and r.random() < 0.5:
                    lines.append(("(%s)%s;" if r.random() < .5 else "%s%s;") % (("(%s)" % acc), op) if r.random() < .5 else "%s%s;" % (op, acc))
                    steps.append(self.comp("q%s(%s, %d)" % (s, ea, dl)))
                    continue
                o = r.choice(["+", "-", "*", "&", "|", "^"])
            else:
                o = r.choice(["", "", "+", "^"])
            e = self.expr(2, obj, obj)
            self.note(e)
            if o:
                ct = self.binary(o, E("x", 16, "x", mt), E("y", 16, "y", e.ty))
                py = "(lambda a, y: r%s(a, lambda x: %s))(%s, %s)" % (s, ct.py, ea, e.py)
            else:
                py = "s%s(%s, %s)" % (s, ea, e.py)
            lines.append("%s %s= %s;" % (acc, o, self.paren(e, 2)))
            steps.append(self.comp(py))
        steps = tuple(steps)

        def run(fp):
            for f in steps:
                f(fp)
        return [ind + "{"] + [ind + "  " + x for x in lines] + [ind + "}"], run

    # ---- functions ---------------------------------------------------------------------------------------------
    def call(self, f, args, sp):
        self.steps += 1
        if self.steps > self.budget or sp + 2 * self.FRAME > self.dm.mem - 512:
            raise UB("steps")
        self.M[sp:sp + self.FRAME] = bytes(self.FRAME)
        for (t, off), v in zip(f.params, args):
            if isinstance(t, Struct):
                self.M[sp + off:sp + off + t.size] = v
            else:
                self.store(sp + off, t, v)
        self.rdepth += f.frame + 48
        if self.rdepth > self.opt["stack"]:
            self.rdepth = 0
            raise UB("stack")
        s = f.run(sp)
        self.rdepth -= f.frame + 48
        if isinstance(s, tuple) and s[0] == "r":
            return s[1]
        return f.final(sp)

    def function(self):
        """Generates one function and runs it on its inputs; None if that was undefined."""
        r = self.rnd
        snap_heap, snap_text = self.heap, len(self.text)
        snapM = bytes(self.M)
        uid = self.uid
        f = Fn()
        self.lid = 0
        f.name = self.name("f")
        f.idx = len(self.fns)
        f.ret = self.randty()
        like = None
        agg = self.opt["agg"] if self.opt["structs"] else 0
        if self.opt["fptr"] and self.fns and r.random() < 0.3:
            like = r.choice(self.fns)
            f.ret = like.ret
        elif r.random() < agg * 0.4:
            c = [v.st for v in self.globals if v.kind in ("s", "as") and v.st.size <= 64]
            if c:
                f.ret = r.choice(c)
        self.ret = f.ret
        self.scopes = [[]]
        self.frame = 0
        self.level = 0
        self.fr, self.fw = frozenset(), frozenset()
        self.fdecl, self.finit = [], []
        self.pinned = set()
        self.noc = False
        self.statics = False
        self.curcost = 1
        f.params = []
        ps = []
        if like:
            sig = [t for t, _ in like.params]
        else:
            sig = [self.randty() for _ in range(r.choice([0, 1, 2, 2, 3, 3, 4, 6]))]
            c = [v.st for v in self.globals if v.kind in ("s", "as") and v.st.size <= 64]
            for i in range(len(sig)):
                if c and r.random() < agg * 0.3:
                    sig[i] = r.choice(c)
        for t in sig:
            self.frame = (self.frame + 3) // 4 * 4
            nm = self.name("a")
            if isinstance(t, Struct):
                v = Var(nm, "s", None, self.frame, False, st=t, size=t.size)
                ps.append("%s %s" % (t.cname, nm))
            else:
                v = Var(nm, "i", t, self.frame, False, size=t.size)
                ps.append("%s %s" % (t, nm))
            f.params.append((t, self.frame))
            self.frame += t.size
            self.scopes[0].append(v)
        f.protos = ", ".join(x.rsplit(" ", 1)[0] for x in ps) or "void"
        self.cur = f
        self.recursive = False
        try:
            lines, go = self.block(0, r.randint(1, self.opt["stmts"]), False)
            # the block's locals are out of scope in the final return: use parameters and globals
            rec = []
            if self.opt["rec"] and r.random() < 0.15:
                ls, rf = self.recurse(f)
                if ls:
                    rec = ls
                    body = go
                    go = lambda fp: rf(fp) or body(fp)
            e = self.retval(r.randint(1, self.opt["depth"]))
            fin = self.comp(e.py if isinstance(f.ret, Struct) else self.conv(e.py, e.ty, f.ret))
            f.run, f.final = go, fin
            f.frame = self.frame
            loc = {v.name for v in self.scopes[0]}
            gl = {v.name for v in self.globals}
            # statics behave like globals private to the function: calling it twice in one expression is unordered
            f.r = frozenset(x for x in self.fr if x in gl)
            f.w = frozenset(x for x in self.fw if x in gl)
            if self.statics:
                f.w |= {"#" + f.name}
                f.r |= {"#" + f.name}
            f.cost = self.curcost
            f.lines = ["%s%s %s(%s) {" % ("static " if r.random() < 0.3 else "", self.tname(f.ret), f.name, ", ".join(ps) or "void")] + \
                self.fdecl + rec + ["  {"] + lines + ["  }", "  return %s;" % e.c, "}"]
            f.results = []
            self.fns.append(f)
            for _ in range(self.opt["inputs"] if ps else 1):
                args, texts = [], []
                for t, _ in f.params:
                    if isinstance(t, Struct):
                        gv = r.choice([v for v in self.globals if v.kind in ("s", "as") and v.st is t])
                        i = r.randrange(gv.n) if gv.kind == "as" else 0
                        texts.append("%s[%d]" % (gv.name, i) if gv.kind == "as" else gv.name)
                        a = gv.addr + i * t.size
                        args.append(bytes(self.M[a:a + t.size]))
                    else:
                        args.append(self.argval(t))
                        texts.append(self.lit(args[-1]))
                self.steps, self.budget, self.rdepth = 0, self.opt["budget"], 0
                v = self.call(f, args, self.stack0)
                if isinstance(f.ret, Struct):
                    v = self.bhash([v[o:o + t.size] for _, t, o in self.flat(f.ret)])
                f.results.append((texts, v, self.ghash()))
        except UB:
            if self.fns and self.fns[-1] is f:
                self.fns.pop()
            self.M[:] = snapM
            self.heap = snap_heap
            del self.text[snap_text:]
            return None
        except RecursionError:
            self.M[:] = snapM
            return None
        self.text += f.lines
        return f

    def tname(self, t):
        return t.cname if isinstance(t, Struct) else t.name

    def retval(self, d):
        """The expression of a return statement."""
        if isinstance(self.ret, Struct):
            e = self.sexpr(self.ret, d, frozenset(), frozenset())
            if e is None:
                raise UB("no struct")
        else:
            e = self.expr(d)
        self.note(e)
        return e

    def bhash(self, parts):
        h, mask = 0, self.dm.umax
        for p in parts:
            for b in p:
                h = (h * 31 + b) & mask
        return h

    def recurse(self, f):
        """Code at the start of f that makes it call itself while a parameter is large enough."""
        r = self.rnd
        ints = [v for v in self.scopes[0] if v.kind == "i" and not v.ro and v.name.startswith("a")]
        if not ints or isinstance(f.ret, Struct) or any(isinstance(t, Struct) for t, _ in f.params):
            return None, None
        p = r.choice(ints)
        lim = r.choice([1, 2, 3, 5])
        mask = r.choice([3, 7])
        # f(a...) : if ((p & mask) > lim-1) v = f(..., (p & mask) - 1, ...);   the recursive depth is bounded by mask
        x = Var(self.name("v"), "i", self.randty(), 0, False)
        self.frame = (self.frame + 3) // 4 * 4
        x.addr, x.size = self.frame, x.ty.size
        self.frame += x.ty.size
        args, R, W = [], frozenset(), frozenset()
        arith = self.arith(p.ty)
        down = "(%s & %d) - 1" % (p.name, mask)
        downpy = "((%s) & %d) - 1" % (self.conv("l%s(%s)" % (self.sfx(p.ty), p.base()), p.ty, arith), mask)
        byname = {v.addr: v for v in ints}
        for t, off in f.params:
            if off == p.addr:
                args.append((down, self.conv(self.wrapi(downpy, arith), arith, t)))
            else:
                e = self.expr(1, W, W | R)
                R, W = R | e.r, W | e.w
                if p.name in e.w:
                    return None, None
                args.append((self.paren(e, 2), self.conv(e.py, e.ty, t)))
        self.fr |= R
        self.fw |= W
        cf = self.comp("(((%s) & %d) > %d)" % (self.conv("l%s(%s)" % (self.sfx(p.ty), p.base()), p.ty, arith), mask, lim - 1))
        call = self.comp("s%s(%s, callf(%d, fp+%d%s))" % (self.sfx(x.ty), x.base(), f.idx, self.FRAME, "".join(", " + a for _, a in args)))
        z = self.ns["s" + self.sfx(x.ty)]
        self.scopes[0].append(x)
        self.fdecl.append("  %s %s = 0;" % (x.ty, x.name))
        self.curcost *= 4
        self.hit("recursion")

        def run(fp):
            z(fp + x.addr, 0)
            if cf(fp):
                call(fp)
        return ["  if ((%s & %d) > %d) %s = %s(%s);" % (p.name, mask, lim - 1, x.name, f.name, ", ".join(a for a, _ in args))], run

    def ghash(self):
        h = 0
        mask = self.dm.umax
        for v in self.globals:
            if v.kind != "p":
                if v.st is None:
                    img = self.M[v.addr:v.addr + v.size]
                else:
                    img = b"".join(self.M[v.addr + i * v.st.size + o:v.addr + i * v.st.size + o + t.size]
                                   for i in range(v.n or 1) for c, t, o in self.flat(v.st))
                for b in img:
                    h = (h * 31 + b) & mask
        return h

    def program(self):
        """(C text, expected output bytes, list of per-line owners)."""
        r = self.rnd
        o = self.opt
        for _ in range(r.randint(6, 14)):
            self.mkglobal()
        tries = 0
        while len(self.fns) < o["fns"] and tries < o["fns"] * 6:
            tries += 1
            self.function()
        hexd = self.dm.bits // 4
        t = list(self.text)
        exp, own = [], []
        t.append("static unsigned hh;")
        t.append("static void %shb(unsigned char *p, unsigned n) { while (n--) hh = hh * 31 + *p++; }" % o["prefix"])
        t.append("static void %spu(unsigned v) { int i; for (i = %d; i >= 0; i -= 4) putchar(\"0123456789abcdef\"[(v >> i) & 15]); putchar(' '); }" % (o["prefix"], self.dm.bits - 4))
        t.append("static void %sgh(void) { hh = 0;" % o["prefix"])
        for v in self.globals:
            if v.kind == "p":
                continue
            if v.st is None:
                t.append("  %shb((unsigned char*)&%s, sizeof %s);" % (o["prefix"], v.name, v.name))
                continue
            for i in range(v.n or 1):
                for c, ty, off in self.flat(v.st):
                    t.append("  %shb((unsigned char*)&%s%s.%s, sizeof(%s));" % (
                        o["prefix"], v.name, "[%d]" % i if v.n else "", c, ty))
        t.append("  %spu(hh); putchar('\\n'); }" % o["prefix"])
        for st in {id(f.ret): f.ret for f in self.fns if isinstance(f.ret, Struct)}.values():
            t.append("static void %sp%s(%s s) { hh = 0;" % (o["prefix"], st.tag, st.cname))
            for c, ty, off in self.flat(st):
                t.append("  %shb((unsigned char*)&s.%s, sizeof(%s));" % (o["prefix"], c, ty))
            t.append("  %spu(hh); }" % o["prefix"])
        t.append("int main(void) {")
        for f in self.fns:
            for args, v, h in f.results:
                t.append("  %sp%s(%s(%s)); %sgh();" % (o["prefix"], f.ret.tag if isinstance(f.ret, Struct) else "u", f.name, ", ".join(args), o["prefix"]))
                exp.append("%0*x %0*x \n" % (hexd, v & self.dm.umax, hexd, h))
                own.append(f.name)
        t.append("  return 0;\n}")
        return o["header"] + "\n".join(t) + "\n", "".join(exp).encode(), own
