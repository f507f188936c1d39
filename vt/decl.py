"""Random declarations with initializers: C text and the exact layout and contents the objects must have."""
import struct
from .fexpr import Types, Gen as FGen, bits, frac32

ESC = {0: "\\0", 7: "\\a", 8: "\\b", 9: "\\t", 10: "\\n", 11: "\\v", 12: "\\f", 13: "\\r", 34: '\\"', 92: "\\\\", 39: "\\'"}


class S:
    """Scalar type."""
    def __init__(self, name, size, kind):
        self.name, self.size, self.align, self.kind = name, size, size, kind

    def dec(self, d):
        return "%s %s" % (self.name, d) if d else self.name


class P:
    """Pointer; base is the C spelling of what it points to ("" plus fn for functions)."""
    def __init__(self, base, size, fn=False):
        self.base, self.size, self.align, self.fn = base, size, size, fn

    def dec(self, d):
        return "int (*%s)(int)" % d if self.fn else "%s *%s" % (self.base, d)


class A:
    def __init__(self, e, n):
        self.e, self.n = e, n
        self.align = e.align

    @property
    def size(self):
        return self.e.size * self.n

    def dec(self, d):
        return self.e.dec("%s[%d]" % (d, self.n))


class R:
    def __init__(self, union, tag, members, pack):
        self.union, self.tag, self.m, self.pack = union, tag, [], pack
        off, al, sz = 0, 1, 0
        for n, t in members:
            a = min(t.align, pack) if pack else t.align
            al = max(al, a)
            if union:
                self.m.append((n, t, 0))
                sz = max(sz, t.size)
            else:
                off = (off + a - 1) // a * a
                self.m.append((n, t, off))
                off += t.size
                sz = off
        self.align = al
        self.size = (sz + al - 1) // al * al

    @property
    def kw(self):
        return ("union " if self.union else "struct ") + (self.tag or "")

    def dec(self, d):
        return "%s %s" % (self.kw if self.tag else self.body(), d) if d else (self.kw if self.tag else self.body())

    def body(self):
        # members of the same type in a row share a declaration now and then
        return "%s { %s }" % (self.kw, " ".join(t.dec(n) + ";" for n, t, o in self.m))


class Decls:
    def __init__(self, r, dm, packing=True):
        self.r, self.dm = r, dm
        self.T = Types(dm.bits, dm.char_signed, floats=dm.bits == 32)
        self.g = FGen(r, self.T)
        self.scal = [S(n, b // 8, "i") for n, (b, s) in self.T.I.items()]
        if dm.bits == 32:
            self.scal.append(S("float", 4, "f"))
        self.byname = {s.name: s for s in self.scal}
        self.recs = []
        self.pack = 0
        self.packing = packing
        self.text = []
        self.objs = []        # (name, type, value, lvalue text)
        self.targets = []     # things whose address is constant: (C text, type)
        self.uid = 0
        self.fns = []
        self.typedefs = []

    def name(self, p="o"):
        self.uid += 1
        return "%s%d" % (p, self.uid)

    def scalar(self):
        r = self.r
        if r.random() < .22:
            return P(r.choice(["char", "char", "int", "short", "void"]), self.dm.ptr_size, r.random() < .15)
        return r.choice(self.scal)

    def type(self, d):
        r = self.r
        k = r.random()
        if d <= 0 or k < .35:
            return self.scalar()
        if k < .65:
            n = r.choice([1, 2, 2, 3, 3, 4, 5, 7])
            return A(self.type(d - 1), n)
        if k < .85 and self.recs:
            return r.choice(self.recs)
        return self.record(d - 1, False)

    def record(self, d, tagged=True):
        r = self.r
        # an untagged record is written where it is used and takes the packing in force there
        pack = r.choice([0, 0, 0, 0, 1, 2, 4]) if tagged else self.pack
        if self.dm.int_size == 2 and pack > 2:
            pack = r.choice([1, 2])
        if not self.packing:
            pack = 0
        outer, self.pack = self.pack, pack
        ms = [("m%d" % i, self.type(d)) for i in range(r.randint(1, 6))]
        self.pack = outer
        rec = R(r.random() < .2, self.name("S") if tagged else None, ms, pack)
        if tagged:
            t = "%s;" % rec.body()
            if pack:
                form = r.randrange(3)
                if form == 0:
                    t = "#pragma pack(push, %d)\n%s\n#pragma pack(pop)" % (pack, t)
                elif form == 1:
                    t = "#pragma pack(push)\n#pragma pack(%d)\n%s\n#pragma pack(pop)" % (pack, t)
                else:
                    t = "#pragma pack(%d)\n%s\n#pragma pack()" % (pack, t)
            self.text.append(t)
            self.recs.append(rec)
        return rec

    # -- initializers ------------------------------------------------------------------------------------------
    def zero(self, t):
        if isinstance(t, A):
            return [self.zero(t.e) for _ in range(t.n)]
        if isinstance(t, R):
            return [self.zero(t.m[0][1])] if t.union else [self.zero(x) for n, x, o in t.m]
        return 0

    def scalar_init(self, t):
        r = self.r
        if isinstance(t, P):
            return self.ptr_init(t)
        if t.kind == "f":
            if r.random() < .3:
                v = r.choice([0, 1, -1, 1000, -77])
                return str(v), frac32(v)
            s, v = self.g.floatlit(self.g.floatval(False))
            return s, v
        if r.random() < .1:
            v = self.g.intval("int")
            tx, ty = self.g.intlit(v)
            return tx, self.T.wrap(t.name, v)
        v = self.g.intval(t.name)
        if v >= 0 and r.random() < .3:
            v &= 127
        tx, ty = self.g.intlit(v)
        if r.random() < .05:
            tx = "(%s)" % tx
        return tx, v

    def ptr_init(self, t):
        """-> text, expected ('=', C text it equals) or ('s', bytes) or 0"""
        r = self.r
        if t.fn:
            if self.fns and r.random() < .8:
                f = r.choice(self.fns)
                return r.choice(["%s", "&%s"]) % f, ("=", f)
            return "0", 0
        k = r.random()
        if k < .25 or not self.targets:
            if t.base == "char" and k < .2:
                tx, b = self.string(r.randint(0, 9))
                return tx, ("s", b + b"\0")
            return r.choice(["0", "(void*)0" if t.base == "void" else "0"]), 0
        if t.base == "char" and k < .4:
            tx, b = self.string(r.randint(0, 9))
            if r.random() < .3:
                n = r.randint(0, len(b))
                return r.choice(["%s + %d", "&%s[%d]"]) % (tx if '" "' not in tx else "(%s)" % tx, n), ("s", b[n:] + b"\0")
            return tx, ("s", b + b"\0")
        c, ty = r.choice(self.targets)
        # one step into the object: the compiler takes a name, or a name and one displacement
        k = r.random()
        if isinstance(ty, A):
            i = r.randint(0, ty.n)
            et = ty.e
            if k < .6 or isinstance(ty.e, A):
                i = min(i, ty.n - 1)
                tx = "&%s[%d]" % (c, i) if not isinstance(ty.e, A) or r.random() < .5 else "%s[%d]" % (c, i)
                if tx[0] != "&":
                    et = ty.e.e
            else:
                tx = r.choice(["%s + %d" % (c, i), "%d + %s" % (i, c)]) if i else c
            want = "((char*)%s + %d)" % (c, i * ty.e.size)
        elif isinstance(ty, R) and k < .6:
            n, et, o = r.choice(ty.m)
            if isinstance(et, A) and r.random() < .6:
                tx = "%s.%s" % (c, n)
                et = et.e
            else:
                tx = "&%s.%s" % (c, n)
            want = "((char*)&%s + %d)" % (c, o)
        else:
            tx, et, i = "&" + c, ty, 0
            if r.random() < .4:
                i = r.randint(-2, 3)
                tx += " %s %d" % ("-" if i < 0 else "+", abs(i))
            want = "((char*)&%s + %d)" % (c, i * ty.size)
        same = isinstance(et, S) and et.name == t.base or t.base == "void"
        if not same:
            tx = "(%s*)(%s)" % (t.base, tx)
        return tx, ("=", want)

    def string(self, n, wide=False):
        """A string literal (perhaps in several pieces) of n characters."""
        r = self.r
        b = bytes(r.choice([r.randint(32, 126), r.randint(97, 122), r.choice(list(ESC)), r.randrange(256)]) for _ in range(n))
        out, prev = "", False
        for x in b:
            if prev and (chr(x) in "0123456789abcdefABCDEF"):
                # an escape must not swallow the character
                out += '" "' if not wide else '" L"'
            prev = False
            k = r.random()
            if x in ESC and (k < .8 or x in (10, 13, 34, 92)) and x != 0:
                out += ESC[x]
            elif 32 <= x < 127 and x not in (34, 92, 63) and k < .9:
                out += chr(x)
            elif k < .95 and not wide or wide:
                out += "\\x%x" % x
                prev = True
            else:
                out += "\\%03o" % x
        if wide:
            return 'L"%s"' % out, b
        if r.random() < .12 and "\\" not in out and len(out) > 1 and '"' not in out:
            m = r.randint(1, len(out) - 1)
            out = out[:m] + '" "' + out[m:]
        return '"%s"' % out, b

    def init(self, t, top=True):
        """A braced or scalar initializer: text, value."""
        r = self.r
        if isinstance(t, A):
            if isinstance(t.e, S) and t.e.name in ("char", "signed char", "unsigned char") and r.random() < .6:
                n = min(t.n, r.choice([t.n, t.n - 1, r.randint(0, t.n)]))
                tx, b = self.string(n)
                if r.random() < .15:
                    tx = "{ %s }" % tx
                v = [self.T.wrap(t.e.name, x) for x in b] + [0] * (t.n - n)
                return tx, v
            return self.braced(t, [t.e] * t.n)
        if isinstance(t, R):
            return self.braced(t, [t.m[0][1]] if t.union else [x for n, x, o in t.m])
        tx, v = self.scalar_init(t)
        if top and r.random() < .06:
            tx = "{ %s }" % tx
        return tx, v

    def braced(self, t, subs):
        r = self.r
        n = len(subs) if r.random() < .55 else r.randint(1, len(subs))
        items, vals = [], []
        for i in range(n):
            last = i == n - 1
            s = subs[i]
            if isinstance(s, (A, R)) and r.random() < .35:
                tx, v = self.elided(s, last)
            else:
                tx, v = self.init(s, False)
            items.append(tx)
            vals.append(v)
        vals += [self.zero(s) for s in subs[n:]]
        return "{ %s%s }" % (", ".join(items), "," if r.random() < .1 else ""), vals

    def elided(self, t, last):
        """The items of an aggregate without its braces; all of them unless it is the last in its list."""
        r = self.r
        if not isinstance(t, (A, R)):
            return self.init(t, False)
        if isinstance(t, A) and isinstance(t.e, S) and "char" in t.e.name and r.random() < .5:
            n = r.randint(0, t.n)
            tx, b = self.string(n)
            return tx, [self.T.wrap(t.e.name, x) for x in b] + [0] * (t.n - n)
        subs = [t.e] * t.n if isinstance(t, A) else [t.m[0][1]] if t.union else [x for n, x, o in t.m]
        n = len(subs)
        if last and r.random() < .3:
            n = r.randint(1, n)
        items, vals = [], []
        for i in range(n):
            s = subs[i]
            lst = last and i == n - 1
            # a brace here would belong to this sub-object, which is fine
            if isinstance(s, (A, R)) and r.random() < .6:
                tx, v = self.elided(s, lst)
            elif isinstance(s, (A, R)):
                tx, v = self.init(s, False)
                if i == 0 and tx[0] == "{" or i == 0 and tx[0] == '"':
                    # "{...}" or a string first would be taken for the whole aggregate
                    tx, v = self.elided(s, lst)
                    if tx[0] in '{"':
                        tx, v = self.plain(s)
            else:
                tx, v = self.init(s, False)
            items.append(tx)
            vals.append(v)
        vals += [self.zero(s) for s in subs[n:]]
        return ", ".join(items), vals

    def plain(self, t):
        if isinstance(t, A):
            l = [self.plain(t.e) for _ in range(t.n)]
        elif isinstance(t, R):
            l = [self.plain(t.m[0][1])] if t.union else [self.plain(x) for n, x, o in t.m]
        else:
            return self.init(t, False)
        return ", ".join(a for a, b in l), [b for a, b in l]

    # -- expected contents ------------------------------------------------------------------------------------------
    def leaves(self, t, v, off=0):
        """-> list of (offset, bytes | pointer expectation)"""
        if isinstance(t, A):
            o = []
            for i in range(t.n):
                o += self.leaves(t.e, v[i], off + i * t.e.size)
            return o
        if isinstance(t, R):
            o = []
            for (n, x, mo), y in zip(t.m, v):
                o += self.leaves(x, y, off + mo)
            return o
        if isinstance(t, P):
            return [(off, v if v else b"\0" * t.size)]
        if t.kind == "f":
            return [(off, struct.pack("<I", bits(v)))]
        return [(off, (v & ((1 << t.size * 8) - 1)).to_bytes(t.size, "little"))]

    def path(self, t):
        """A random sub-object: (suffix, offset, type)"""
        r = self.r
        s, off = "", 0
        while isinstance(t, (A, R)) and r.random() < .8:
            if isinstance(t, A):
                i = r.randrange(t.n)
                s += "[%d]" % i
                off += i * t.e.size
                t = t.e
            else:
                n, x, o = r.choice(t.m)
                s += "." + n
                off += o
                t = x
        return s, off, t
