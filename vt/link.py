"""Linker: ELF object and archive writer, an independent layout model, and loaders that read the images back."""
import struct

PROGBITS, SYMTAB, STRTAB, RELA, NOTE, NOBITS, REL = 1, 2, 3, 4, 7, 8, 9
W, A, X = 1, 2, 4
UND, ABS, COMMON = 0, 0xFFF1, 0xFFF2
R32, RPC32, R16, RPC16 = 1, 2, 20, 21
LOCAL, GLOBAL, WEAK = 0, 1, 2
FORMATS = ["tiny", "small", "huge", "unreal", "pe", "elf", "mach", "flat16", "flat32", "aout"]
M32 = 0xFFFFFFFF


class Sec:
    def __init__(self, name, typ, flags, align, data=b"", size=None):
        self.name, self.typ, self.flags, self.align, self.data = name, typ, flags, align, bytes(data)
        self.size = len(self.data) if size is None else size
        self.rels = []          # (offset, type, Sym or None for symbol index 0)
        self.addr = self.fofs = None


class Sym:
    def __init__(self, name, bind, sec, value=0, typ=0):
        self.name, self.bind, self.sec, self.value, self.typ = name, bind, sec, value, typ   # sec: Sec, UND, ABS or COMMON


class Obj:
    def __init__(self, name):
        self.name, self.secs, self.syms, self.path = name, [], [], None

    def sec(self, *a, **k):
        s = Sec(*a, **k)
        self.secs.append(s)
        return s

    def sym(self, *a, **k):
        s = Sym(*a, **k)
        self.syms.append(s)
        return s

    def ref(self, name):
        """The undefined global of that name (or the definition)."""
        for s in self.syms:
            if s.name == name and s.bind == GLOBAL:
                return s
        return self.sym(name, GLOBAL, UND)

    def secsym(self, sec):
        for s in self.syms:
            if s.typ == 3 and s.sec is sec:
                return s
        return self.sym("", LOCAL, sec, 0, 3)

    # -- the file --------------------------------------------------------------------------------------------------
    def image(self, r, hdr=None, reltype=REL):
        """The ELF file.  r decides everything that must not matter: the place of tables, gaps, the order of relocations."""
        loc = [s for s in self.syms if s.bind == LOCAL]
        glo = [s for s in self.syms if s.bind != LOCAL]
        order = loc + glo
        symidx = {id(s): i + 1 for i, s in enumerate(order)}
        ents = [("sec", s) for s in self.secs]
        for s in self.secs:
            if s.rels:
                ents.insert(r.randrange(len(ents) + 1), ("rel", s))
        for t in ("symtab", "strtab", "shstrtab"):
            ents.insert(r.randrange(len(ents) + 1), (t, None))
        idx = {}
        for i, (k, s) in enumerate(ents):
            idx[(k, id(s) if s else 0)] = i + 1
        strtab = bytearray(b"\0")
        stro = {}
        names = [s.name for s in order if s.name]
        r.shuffle(names)
        for n in names:
            if n not in stro:
                # a tail of a name stored earlier may be shared
                p = bytes(strtab).find(n.encode() + b"\0") if r.random() < .3 else -1
                if p > 0:
                    stro[n] = p
                else:
                    stro[n] = len(strtab)
                    strtab += n.encode() + b"\0"
        sst = bytearray(b"\0")
        sso = {}

        def sname(n):
            if not n:
                return 0
            if n not in sso:
                p = bytes(sst).find(n.encode() + b"\0") if r.random() < .5 else -1
                sso[n] = p if p > 0 else len(sst)
                if p <= 0:
                    sst.extend(n.encode() + b"\0")
            return sso[n]
        heads = []
        relnames = {}
        for k, s in ents:
            if k == "rel":
                relnames[id(s)] = sname(".rel" + s.name)
            elif k == "sec":
                sname(s.name)
            else:
                sname("." + k)
        body = {}
        for k, s in ents:
            if k == "sec":
                body[(k, id(s))] = s.data if s.typ != NOBITS else b""
            elif k == "rel":
                rels = list(s.rels)
                r.shuffle(rels)
                body[(k, id(s))] = b"".join(struct.pack("<II", o, (symidx[id(y)] << 8 if y is not None else 0) | t) +
                                            (b"\0" * 4 if reltype == RELA else b"") for o, t, y in rels)
            elif k == "symtab":
                b = b"\0" * 16
                for s2 in order:
                    shn = s2.sec if isinstance(s2.sec, int) else idx[("sec", id(s2.sec))]
                    b += struct.pack("<IIIBBH", stro.get(s2.name, 0), s2.value & M32, r.choice([0, 0, 4, 77]), (s2.bind << 4) | s2.typ, 0, shn)
                body[(k, 0)] = b
            elif k == "strtab":
                body[(k, 0)] = bytes(strtab)
            else:
                body[(k, 0)] = bytes(sst)
        # placement in the file
        pieces = [(k, id(s) if s else 0) for k, s in ents] + [("shdr", 0)]
        r.shuffle(pieces)
        out = bytearray(52)
        offs = {}
        shnum = len(ents) + 1
        for p in pieces:
            if r.random() < .3:
                out += bytes(r.getrandbits(8) for _ in range(r.randrange(1, 20)))
            while len(out) % 4:
                out.append(0)
            offs[p] = len(out)
            out += b"\0" * (shnum * 40) if p[0] == "shdr" else body[p]
        sh = b"\0" * 40
        for k, s in ents:
            key = (k, id(s) if s else 0)
            if k == "sec":
                sh += struct.pack("<10I", sname(s.name), s.typ, s.flags, 0, offs[key], s.size, 0, 0, s.align, 0)
            elif k == "rel":
                sh += struct.pack("<10I", relnames[id(s)], reltype, r.choice([0, 0x40]), 0, offs[key], len(body[key]), idx[("symtab", 0)],
                                  idx[("sec", id(s))], 4, 12 if reltype == RELA else 8)
            elif k == "symtab":
                sh += struct.pack("<10I", sname(".symtab"), SYMTAB, 0, 0, offs[key], len(body[key]), idx[("strtab", 0)], len(loc) + 1, 4, 16)
            else:
                sh += struct.pack("<10I", sname("." + k), STRTAB, 0, 0, offs[key], len(body[key]), 0, 0, 1, 0)
        o = offs[("shdr", 0)]
        out[o:o + len(sh)] = sh
        out[:52] = b"\x7fELF\1\1\1" + b"\0" * 9 + struct.pack("<HHIIIIIHHHHHH", 1, 3, 1, 0, 0, o, 0, 52, 0, 0, 40, shnum, idx[("shstrtab", 0)])
        if hdr:
            hdr(out, o, shnum)
        return bytes(out)


# -- archives ------------------------------------------------------------------------------------------------------
def archive(members, r, style=None):
    """members: [(name, bytes)] -> an archive in one of the usual forms."""
    style = style or r.choice(["gnu", "bsd", "mixed", "short"])
    out = bytearray(b"!<arch>\n")

    def hdr(name, size):
        return ("%-16s%-12s%-6s%-6s%-8s%-10s`\n" % (name, r.choice(["0", "1388534400", ""]), r.choice(["0", "1000", ""]), r.choice(["0", ""]), r.choice(["100644", "644"]), size)).encode()

    def put(h, data):
        out.extend(h)
        out.extend(data)
        if len(out) % 2:
            out.append(10)
    if r.random() < .5:
        # a symbol table whose contents are of no use to this linker
        junk = struct.pack(">I", 0) + bytes(r.randrange(0, 30))
        put(hdr("/" if style != "bsd" else "__.SYMDEF", len(junk)), junk)
    long_ = b""
    pos = {}
    if style in ("gnu", "mixed"):
        for n, _ in members:
            if len(n) > 15 or (style == "gnu" and r.random() < .2):
                pos.setdefault(n, len(long_))
                if pos[n] == len(long_):
                    long_ += n.encode() + b"/\n"
        if long_ or r.random() < .2:
            put(hdr("//", len(long_)), long_)
    for n, d in members:
        if n in pos:
            put(hdr("/%d" % pos[n], len(d)), d)
        elif len(n) > 15 or (style in ("bsd", "mixed") and r.random() < .4):
            nb = n.encode() + b"\0" * r.randrange(0, 5)
            if r.random() < .5:
                nb += b"\0" * (-len(nb) % 4)
            put(hdr("#1/%d" % len(nb), len(d) + len(nb)), nb + d)
        else:
            put(hdr(n + ("/" if style != "bsd" and len(n) <= 15 else ""), len(d)), d)
    return bytes(out)


# -- resolution ----------------------------------------------------------------------------------------------------
class LinkErr(Exception):
    pass


def startstop(n):
    return (n.startswith("__start_") and len(n) > 8) or (n.startswith("__stop_") and len(n) > 7)


def resolve(objs, entry):
    """-> (included objects in order, deferred names).  LinkErr if a symbol is missing or defined twice."""
    first = {}
    for o in objs:
        for s in o.syms:
            if s.bind == GLOBAL and s.sec != UND and s.name:
                first.setdefault(s.name, o)
    need, todo, deferred = set(), [entry], []
    seen = set()
    while todo:
        n = todo.pop(0)
        if n in seen:
            continue
        seen.add(n)
        if n not in first:
            if startstop(n):
                deferred.append(n)
                continue
            raise LinkErr("Symbol '%s' not found" % n)
        o = first[n]
        if id(o) in need:
            continue
        need.add(id(o))
        todo += [s.name for s in o.syms if s.bind == GLOBAL and s.sec == UND and s.name]
    inc = [o for o in objs if id(o) in need]
    defs = {}
    for o in inc:
        for s in o.syms:
            if s.bind == GLOBAL and s.sec != UND and s.name:
                if s.name in defs and defs[s.name] is not o:
                    raise LinkErr("Symbol '%s' defined multiple times" % s.name)
                defs[s.name] = o
    return inc, deferred


# -- layout --------------------------------------------------------------------------------------------------------
class Desc:
    def __init__(self, name, attrs):
        self.name, self.attrs = name, attrs
        self.parts = []         # (Obj, Sec)
        self.start = self.stop = None
        self.relod = False

    x = property(lambda s: bool(s.attrs & X))
    w = property(lambda s: bool(s.attrs & W))
    nobits = property(lambda s: bool(s.attrs & NOBITS))


def order(d):
    n = d.name.encode()
    return (d.nobits, not d.x, d.w, n != b".text" if d.x else False, not n.startswith(b".dll_") if d.w else False, n)


PAGED = ("pe", "elf", "mach", "aout")
B16 = ("tiny", "small", "flat16")


class Model:
    """Where everything has to be.  opts: fmt, origin, stack, nobss, entry, norel."""

    def __init__(self, objs, fmt, entry="__start", origin=None, stack=None, nobss=False, norel=False, base=None):
        self.fmt, self.entry, self.nobss, self.norel = fmt, entry, nobss, norel
        self.inc, self.deferred = resolve(objs, entry)
        self.sections()
        self.stackarg = stack
        self.org0 = origin
        self.base = base
        self.place()

    def sections(self):
        d = {}
        sites = 0
        for o in self.inc:
            for s in o.secs:
                if not s.flags & A:
                    continue
                at = (s.flags & (W | X)) | (s.typ & NOBITS)
                if s.name in d:
                    if d[s.name].attrs != at:
                        raise LinkErr("Inconsistent section type/flags")
                else:
                    if self.fmt == "unreal" and s.name == ".relod":
                        raise LinkErr("Unexpected section .relod")
                    d[s.name] = Desc(s.name, at)
                d[s.name].parts.append((o, s))
                sites += sum(1 for _, t, y in s.rels if t == R32 and y is not None)
        if self.fmt == "unreal" and sites:
            d[".relod"] = Desc(".relod", 0)
            d[".relod"].relod = True
        self.sites = sites
        self.descs = sorted(d.values(), key=order)
        if not self.descs or not self.descs[0].x:
            raise LinkErr("Executable section not found")
        for e in self.descs:
            if e.x and (e.w or e.nobits):
                raise LinkErr("Inconsistent section type/flags")
        self.hasdata = not self.descs[-1].x

    def lay(self, org):
        """Addresses from org on; self.runs: [(addr, fill, size, written)] paddings."""
        f = self.fmt
        ofs = org
        self.pads = []
        self.code = [None, 0]
        self.data = [None, 0]
        self.codeend = None

        def chk(v):
            if v > M32:
                raise LinkErr("Too much code")
            return v

        def pad(to, fill, written, seg):
            if to != ofs:
                self.pads.append((seg, ofs, to - ofs, fill, written))
            return chk(to)
        seg = "c"
        for j, d in enumerate(self.descs):
            d.start = d.stop = None
            comb = self.code if d.x else self.data
            written = not d.nobits or self.nobss
            d.seg = seg
            for o, s in d.parts:
                al = s.align
                if al & (al - 1):
                    raise LinkErr("Section alignment not a power of 2")
                if f in B16 and d.x and al > 4:
                    al = 4
                if f == "huge":
                    if s.name in (".relot", ".relod"):
                        al = 4
                    if al > 16:
                        raise LinkErr("Section alignment larger than paragraph")
                if f in ("pe", "elf", "mach", "aout") and al > 4096:
                    raise LinkErr("Section alignment larger than page")
                if al > 1:
                    ofs = pad(-(-ofs // al) * al, 0xCC if d.x else 0, written, seg)
                end = chk(ofs + s.size)
                if f in B16 and end > 0x10000:
                    raise LinkErr("Too much code")
                s.addr, s.seg = ofs, seg
                d.start = ofs if d.start is None else d.start
                d.stop = end
                ofs = end
            if d.relod:
                ofs = pad(-(-ofs // 4) * 4, 0, True, seg)
                d.start = ofs
                ofs = d.stop = chk(ofs + 4 * self.sites)
            comb[0] = d.start if comb[0] is None else comb[0]
            comb[1] = max(comb[1], d.stop)
            nxt = self.descs[j + 1] if j + 1 < len(self.descs) else None
            if d.x and (nxt is None or not nxt.x):
                if f == "small":
                    ofs = pad(-(-ofs // 16) * 16, 0xCC, True, seg)
                    self.codeend = ofs
                    seg = "d"
                    ofs = 4 if nxt else 0
                elif f in PAGED:
                    ofs = pad(-(-ofs // 4096) * 4096, 0xCC, True, seg)
            elif f in PAGED and not d.x:
                last = (self.nobss and nxt is None) or (not self.nobss and not d.nobits and (nxt is None or nxt.nobits))
                if f == "pe":
                    last |= not d.w and not d.nobits and (nxt is None or nxt.w)
                    last |= d.name.startswith(".dll_") and d.w and not d.nobits and (nxt is None or not nxt.name.startswith(".dll_"))
                if last:
                    ofs = pad(-(-ofs // 4096) * 4096, 0, True, seg)
        self.end = ofs

    def place(self):
        f, org, st = self.fmt, self.org0, self.stackarg
        self.stack = None
        if f in ("tiny", "small"):
            self.stack = 8192 if st is None else st
            if self.stack < 4096:
                raise LinkErr("Too small stack")
            if self.stack > 0xFFFC:
                raise LinkErr("Too big stack")
        elif f in ("huge", "unreal"):
            self.stack = 32768 if st is None else st
            if self.stack < 8192:
                raise LinkErr("Too small stack")
            if self.stack > 0xFFFC:
                raise LinkErr("Too big stack")
        self.jump = 0
        if f in ("tiny", "flat16", "flat32"):
            org = 0x100 if f == "tiny" else 0 if org is None else org
            if f == "flat16" and org > 0xFFFF:
                raise LinkErr("Too much code")
            self.load = org
            self.lay(org)
            if self.symbol(self.entry) != org:
                self.jump = 5 if f == "flat32" else 3
                if org + self.jump > (0xFFFF if f == "flat16" else M32):
                    raise LinkErr("Too much code")
                self.lay(org + self.jump)
        elif f in ("small", "huge", "unreal"):
            self.lay(64)
        elif f == "aout":
            self.lay(0 if self.base is None else self.base)
        else:
            b = {"pe": 0x400000, "elf": 0x8048000, "mach": 0x1000}[f] if org is None else org & 0xFFFFF000
            if self.base is not None:
                b = self.base
            if b >= 0xFFFFF000:
                raise LinkErr("Too much code")
            self.image = b
            if f == "mach":
                n = (b != 0)
                hdr = 28 + n * 56 + (1 + self.hasdata) * (56 + 68) + 56 + 24 + 80
                self.lay(b + hdr)
            else:
                self.lay(b + 4096)
        if f in ("tiny", "small"):
            top = (self.data if self.hasdata else self.code)[1]
            if top > 0xFFFC - self.stack:
                raise LinkErr("Too big stack")
        if f in ("huge", "unreal"):
            if (self.data if self.hasdata else self.code)[1] > 524288:
                raise LinkErr("Executable too big")
        self.check_rels()

    def check_rels(self):
        if self.fmt in ("huge", "unreal"):
            for o in self.inc:
                for s in o.secs:
                    if s.name == ".fxnsz" and not s.flags & A and any(v >= 0xFFF0 for v in struct.unpack("<%dI" % (s.size // 4), s.data)):
                        raise LinkErr("Function larger than 64KB")
        for n in self.deferred:
            self.symbol(n)
        for o in self.inc:
            for s in o.secs:
                if not s.flags & A or s.typ == NOBITS:
                    continue
                for off, t, y in s.rels:
                    if y is not None:
                        self.value(y)
                    if t not in (R32, RPC32, R16, RPC16):
                        raise LinkErr("Unsupported relocation type")
                    if self.fmt == "pe" and not self.norel and not s.name.startswith((".dll_import", ".dll_iat")):
                        if y is None:
                            raise LinkErr("Unsupported relocation type in PE")
                        if t == R16:
                            raise LinkErr("Unsupported relocation size in PE")

    def symbol(self, name):
        if name in self.deferred:
            stop = not name.startswith("__start_")
            sn = name[7 if stop else 8:]
            for d in self.descs:
                if len(d.name) == len(sn) and all(a == b or (a == "_" and b == ".") for a, b in zip(sn, d.name)):
                    return d.stop if stop else d.start
            if sn == "allcode__":
                return self.code[stop]
            if sn == "alldata__" and self.hasdata:
                return self.data[stop]
            if sn == "stack__" and self.fmt in ("tiny", "small"):
                return 0xFFFC if stop else 0xFFFC - self.stack
            raise LinkErr("Symbol '%s' not found" % name)
        for o in self.inc:
            for s in o.syms:
                if s.bind == GLOBAL and s.sec != UND and s.name == name:
                    if s.sec == COMMON:
                        raise LinkErr("Common symbols unsupported")
                    if s.sec == ABS:
                        raise LinkErr("Absolute symbols unsupported")
                    return (s.sec.addr + s.value) & M32
        return None

    def value(self, y):
        if y.bind == WEAK:
            raise LinkErr("Unsupported relocation symbol type")
        if y.bind == LOCAL:
            if y.sec == ABS:
                raise LinkErr("Absolute symbols unsupported")
            return (y.sec.addr + (0 if y.typ == 3 else y.value)) & M32
        return self.symbol(y.name)

    def bytes(self, o, s):
        """The relocated contents."""
        if s.typ == NOBITS:
            return b"\0" * s.size
        b = bytearray(s.data)
        for off, t, y in s.rels:
            n = 4 if t in (R32, RPC32) else 2
            v = int.from_bytes(b[off:off + n], "little")
            v += self.value(y) if y is not None else 0
            if t in (RPC32, RPC16):
                v -= s.addr + off
            b[off:off + n] = (v & ((1 << 8 * n) - 1)).to_bytes(n, "little")
        return bytes(b)

    def relod(self):
        return sorted(s.addr + off for o in self.inc for s in o.secs if s.flags & A for off, t, y in s.rels if t == R32 and y is not None)

    def pieces(self):
        """[(seg, addr, bytes, desc)] of everything that has contents."""
        for d in self.descs:
            for o, s in d.parts:
                yield d.seg, s.addr, self.bytes(o, s), d, s, o


# -- loaders -------------------------------------------------------------------------------------------------------
class Bad(Exception):
    pass


def need(c, *a):
    if not c:
        raise Bad(a[0] % a[1:] if len(a) > 1 else a[0])


class Mem:
    """Memory a loader set up: disjoint regions with permissions."""

    def __init__(self):
        self.regs = []          # (addr, bytearray, perm)
        self.holes = []

    def map(self, addr, data, size, perm):
        need(len(data) <= size, "more file data (%d) than memory (%d) at %x", len(data), size, addr)
        need(addr + size <= 1 << 32, "region at %x wraps", addr)
        for a, b, p in self.regs:
            need(addr + size <= a or addr >= a + len(b), "regions at %x and %x overlap", a, addr)
        for a, n in self.holes:
            need(addr + size <= a or addr >= a + n, "regions at %x and %x overlap", a, addr)
        if size > 1 << 26:
            need(not data, "a region of %x bytes", size)
            self.holes.append((addr, size))
            return
        self.regs.append((addr, bytearray(data) + bytearray(size - len(data)), perm))

    def get(self, addr, n):
        if n == 0:
            return b"", None
        for a, b, p in self.regs:
            if a <= addr and addr + n <= a + len(b):
                return bytes(b[addr - a:addr - a + n]), p
        raise Bad("nothing loaded at %x..%x" % (addr, addr + n))

    def put(self, addr, d):
        for a, b, p in self.regs:
            if a <= addr and addr + len(d) <= a + len(b):
                b[addr - a:addr - a + len(d)] = d
                return
        raise Bad("nothing loaded at %x" % addr)


def cut(f, o, n, what):
    need(o + n <= len(f), "%s (%x..%x) lies beyond the end of the file (%x)", what, o, o + n, len(f))
    return f[o:o + n]


def load_elf(f):
    need(f[:7] == b"\x7fELF\1\1\1", "ELF magic")
    (typ, mach, ver, entry, phoff, shoff, flags, ehsz, phsz, phn, shsz, shn, shs) = struct.unpack_from("<HHIIIIIHHHHHH", f, 16)
    need((typ, mach, ver, ehsz, phsz, shn) == (2, 3, 1, 52, 32, 0), "ELF header %r", (typ, mach, ver, ehsz, phsz, shn))
    need(1 <= phn <= 2, "%d program headers", phn)
    m = Mem()
    prev = -1
    for i in range(phn):
        t, o, v, p, fs, ms, fl, al = struct.unpack("<8I", cut(f, phoff + 32 * i, 32, "program header"))
        need(t == 1, "segment type %d", t)
        need(al == 4096 and (v - o) % 4096 == 0, "segment at %x has offset %x, alignment %x", v, o, al)
        need(fs <= ms and (v > prev or not ms), "segment order or sizes")
        prev = v if ms else prev
        if ms:
            m.map(v, cut(f, o, fs, "segment"), ms, fl)
    return m, entry


def load_mach(f, origin):
    mg, cpu, sub, typ, nc, sz, fl = struct.unpack_from("<7I", f)
    need((mg, cpu, sub, typ, fl) == (0xFEEDFACE, 7, 3, 2, 1), "Mach-O header %r", (mg, cpu, sub, typ, fl))
    o = 28
    m = Mem()
    eip = None
    info = {}
    for i in range(nc):
        c, n = struct.unpack("<II", cut(f, o, 8, "load command"))
        if c == 1:
            name, va, vs, fo, fs, mp, ip, ns, fl = struct.unpack("<16sIIIIIIII", cut(f, o + 8, 48, "segment command"))
            name = name.rstrip(b"\0").decode()
            need(n == 56 + 68 * ns, "segment command size %d for %d sections", n, ns)
            need(name not in info, "two segments %s", name)
            info[name] = (va, vs, fo, fs)
            if name == "__PAGEZERO":
                need((va, fs, mp, ip) == (0, 0, 0, 0) and vs == origin, "__PAGEZERO %r", (va, vs, fs, mp, ip))
                m.map(va, b"", vs, 0)
            else:
                need(va % 4096 == 0 and vs % 4096 == 0 and fo % 4096 == 0 and (name == "__LINKEDIT" or fs % 4096 == 0), "segment %s alignment", name)
                if vs:
                    m.map(va, cut(f, fo, fs, name), vs, (4 if ip & 1 else 0) | (ip & 2) | (1 if ip & 4 else 0))
            for k in range(ns):
                sn, sg, ad, ss, so, al, ro, nr, sf, r1, r2 = struct.unpack("<16s16s9I", cut(f, o + 56 + 68 * k, 68, "section header"))
                need(sg.rstrip(b"\0").decode() == name, "section %r in segment %s", sg, name)
                need(va <= ad and ad + ss <= va + vs, "section %r outside its segment", sn)
                need(so - fo == ad - va, "section %r offset", sn)
                info[sn.rstrip(b"\0").decode()] = (ad, ss)
        elif c == 5:
            fl, cnt = struct.unpack_from("<II", f, o + 8)
            need((fl, cnt, n) == (1, 16, 80), "thread command")
            eip = struct.unpack_from("<I", f, o + 16 + 40)[0]
        elif c == 2:
            so, ns, st, sl = struct.unpack_from("<4I", f, o + 8)
            le = info.get("__LINKEDIT")
            need(le and le[2] <= so and so + 12 * ns <= st and st + sl <= le[2] + le[3], "symbol table outside __LINKEDIT")
            strs = cut(f, st, sl, "string table")
            syms = {}
            for k in range(ns):
                sx, ty, se, de, va = struct.unpack("<IBBHI", cut(f, so + 12 * k, 12, "symbol"))
                syms[strs[sx:].split(b"\0")[0].decode()] = va
            info["syms"] = syms
        o += n
    need(o == 28 + sz, "size of load commands")
    need(eip is not None, "no thread command")
    return m, eip, info


def load_pe(f, newbase=None):
    """-> Mem (with base relocations applied for newbase), entry address, info."""
    need(f[:2] == b"MZ", "MZ")
    pe = struct.unpack_from("<I", f, 60)[0]
    need(cut(f, pe, 4, "PE") == b"PE\0\0", "PE signature")
    mach, ns, ts, ps, nsy, osz, ch = struct.unpack_from("<HHIIIHH", f, pe + 4)
    need((mach, ps, nsy, osz) == (0x14C, 0, 0, 224), "COFF header")
    oh = pe + 24
    (mg, mj, mn, szc, szi, szu, ep, bc, bd, ib, sa, fa) = struct.unpack_from("<HBBIIIIIIIII", f, oh)
    (szimg, szh, cks, sub, dllc, sr, sc, hr, hc, lf, nd) = struct.unpack_from("<IIIHHIIIIII", f, oh + 56)
    need(mg == 0x10B and sa == 4096 and fa == 512 and nd == 16, "optional header")
    need(ch & 0x0002 and ch & 0x0100 and not ch & 0x2000, "characteristics %x", ch)
    dirs = [struct.unpack_from("<II", f, oh + 96 + 8 * i) for i in range(16)]
    need(szh % 512 == 0 and oh + 224 + 40 * ns <= szh, "size of headers")
    base = ib if newbase is None else newbase
    m = Mem()
    m.map(base, f[:szh], 4096, 4)
    prev = 4096
    secs = {}
    filepos = szh
    init = 0
    for i in range(ns):
        name, vs, va, rs, rp, pr, pl, nr, nl, c = struct.unpack("<8sIIIIIIHHI", cut(f, oh + 224 + 40 * i, 40, "section header"))
        name = name.rstrip(b"\0").decode()
        need(va == prev, "section %s at %x, expected next at %x", name, va, prev)
        need(rp % 512 == 0 and rs % 512 == 0 and (rs == 0 or rp == filepos), "section %s raw data at %x size %x", name, rp, rs)
        filepos += rs
        perm = (c >> 29) & 7   # X R W as bits 1 2 4
        perm = (4 if perm & 2 else 0) | (2 if perm & 4 else 0) | (1 if perm & 1 else 0)
        full = -(-vs // 4096) * 4096
        m.map(base + va, cut(f, rp, min(rs, full), name)[:full], full, perm)
        secs[name] = (va, vs, rs, c)
        if c & 0x40:
            init += vs
        prev = va + full
    need(szimg == prev, "SizeOfImage %x, sections end at %x", szimg, prev)
    need(filepos == len(f), "file size %x, sections end at %x", len(f), filepos)
    rel = []
    if dirs[5][1]:
        need(not ch & 1, "relocations stripped, but present")
        va, sz = dirs[5]
        need(secs.get(".reloc") and secs[".reloc"][0] == va and sz <= secs[".reloc"][1], "relocation directory %x %x", va, sz)
        o = va
        lastpage = -1
        while o < va + sz:
            page, n = struct.unpack("<II", m.get(base + o, 8)[0])
            need(n >= 8 and n % 4 == 0 and o + n <= va + sz and page % 4096 == 0, "relocation block %x size %x", page, n)
            need(page > lastpage, "relocation blocks out of order")
            lastpage = page
            for k in range((n - 8) // 2):
                e = struct.unpack("<H", m.get(base + o + 8 + 2 * k, 2)[0])[0]
                if e >> 12 == 3:
                    rel.append(page + (e & 4095))
                else:
                    need(e == 0, "relocation entry %x", e)
            o += n
    else:
        need(ch & 1, "no relocations, but not marked as stripped")
    if newbase is not None:
        for a in rel:
            v = int.from_bytes(m.get(base + a, 4)[0], "little")
            m.put(base + a, ((v + newbase - ib) & M32).to_bytes(4, "little"))
    return m, base + ep, {"base": ib, "secs": secs, "dirs": dirs, "rel": rel, "sub": sub, "bc": bc, "szc": szc, "szi": szi, "bd": bd, "init": init}


def load_mz(f):
    need(f[:2] == b"MZ", "MZ")
    part, pages, nrel, hs, mina, maxa, ss, sp, ck, ip, cs, relo, ov = struct.unpack_from("<13H", f, 2)
    need(nrel == 0, "%d relocations", nrel)
    size = (pages - (part != 0)) * 512 + part
    need(part < 512 and size == len(f), "size in the header %x, file size %x", size, len(f))
    img = f[hs * 16:size]
    s16 = lambda v: v - 0x10000 if v & 0x8000 else v
    return img, dict(hs=hs, ip=ip, cs=cs, ss=ss, sp=sp, mina=mina, maxa=maxa, start=(((cs << 4) + ip) & 0xFFFFF), top=-(-len(img) // 16) * 16 + mina * 16)


def load_aout(f, base=0):
    mg, t, d, b, sy, e, tr, dr = struct.unpack_from("<8I", f)
    need(mg & 0xFFFF == 0o407 and (mg >> 16) & 0xFF == 0x64, "a.out magic %x", mg)
    need(t % 4096 == 0 and d % 4096 == 0 and b % 4096 == 0 and sy == 0, "a.out sizes %x %x %x", t, d, b)
    need(len(f) == 32 + t + d + tr + dr, "a.out file size")
    m = Mem()
    if t:
        m.map(base, f[32:32 + t], t, 5)
    if d + b:
        m.map(base + t, f[32 + t:32 + t + d], d + b, 6)
    o = 32 + t + d
    sites = []
    for n, start in ((tr, 0), (dr, t)):
        need(n % 8 == 0, "relocation table size")
        for k in range(n // 8):
            a, i = struct.unpack_from("<II", f, o)
            o += 8
            pc, ln, ext = (i >> 24) & 1, (i >> 25) & 3, (i >> 27) & 1
            need(ext == 0 and ln in (1, 2), "relocation entry %x", i)
            sz = 1 << ln
            v = int.from_bytes(m.get(base + start + a, sz)[0], "little")
            v += -base if pc else base
            m.put(base + start + a, (v & ((1 << 8 * sz) - 1)).to_bytes(sz, "little"))
            sites.append(start + a)
    return m, base + e, dict(text=t, data=d, bss=b, sites=sites)


# -- comparison ----------------------------------------------------------------------------------------------------
def hexd(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return "at +%#x: %s, expected %s" % (i, a[i:i + 8].hex(), b[i:i + 8].hex())
    return "lengths %d and %d" % (len(a), len(b))


def compare(mod, f, stub=None, skip=(), rebase=None, objs=None, opts=None):
    """Raises Bad if the image f does not have what the model says."""
    fmt = mod.fmt
    ent = mod.symbol(mod.entry)

    def bss_perm(d):
        return 2 if d.w else 0

    def each(get, perms=True, mm=mod):
        for seg, addr, data, d, s, o in mm.pieces():
            if s.name.startswith(skip) if skip else False:
                continue
            got, p = get(seg, addr, len(data))
            need(got == data, "section %s of %s at %x: %s", s.name, o.name, addr, hexd(got, data))
            if perms and p is not None:
                need(p & 4, "section %s not readable", s.name)
                need(bool(p & 1) == d.x, "section %s: executable %d", s.name, p & 1)
                if d.w:
                    need(p & 2, "section %s not writable", s.name)
                elif d.x or fmt == "pe":
                    need(not p & 2, "section %s writable", s.name)
        for d in mm.descs:
            if d.relod:
                got, p = get(d.seg, d.start, d.stop - d.start)
                got = sorted(struct.unpack("<%dI" % (len(got) // 4), got))
                need(got == mm.relod(), ".relod lists %s, sites are %s", [hex(x) for x in got][:40], [hex(x) for x in mm.relod()][:40])

    def pads(get):
        for seg, addr, n, fill, written in mod.pads:
            if written and n:
                got, p = get(seg, addr, n)
                need(got == bytes([fill]) * n, "padding at %x (%d bytes): %s", addr, n, got[:16].hex())
    if fmt in ("tiny", "flat16", "flat32"):
        def get(seg, a, n):
            o = a - mod.load
            if o + n <= len(f):
                return f[o:o + n], None
            need(not mod.nobss, "file too short: %x, section up to %x", len(f), o + n)
            # beyond the file only zero-initialised sections
            return f[o:o + n] + bytes(max(0, o + n - max(len(f), o))), None
        last = [d for d in mod.descs if not d.nobits or mod.nobss]
        need(len(f) == max(d.stop for d in last) - mod.load, "file size %x, contents end at %x", len(f), max(d.stop for d in last) - mod.load)
        each(get)
        pads(get)
        if mod.jump:
            need(f[0] == 0xE9, "no jump at the start: %s", f[:5].hex())
            bits = 8 * (mod.jump - 1)
            d = int.from_bytes(f[1:mod.jump], "little")
            need((mod.load + mod.jump + d - ent) % (1 << bits) == 0, "jump to %x, entry %x", mod.load + mod.jump + d, ent)
        else:
            need(ent == mod.load, "entry")
    elif fmt in ("small", "huge", "unreal"):
        img, h = load_mz(f)
        need(h["hs"] * 16 == 64, "header size")
        off = 64
        if fmt == "small":
            ds = (h["ss"] << 4) & 0xFFFFF
            need(ds == mod.codeend - 64, "SS %x, code ends at %x", h["ss"], mod.codeend)
            need(h["sp"] == 0xFFFC, "SP %x", h["sp"])
            need(h["top"] >= ds + 0x10000 - 16 and h["top"] >= ds + 0xFFFE, "memory up to %x, stack segment up to %x", h["top"], ds + 0x10000)
            need(h["ip"] == ent, "IP %x, entry %x", h["ip"], ent)
            written = [d.stop for d in mod.descs if not d.x and (not d.nobits or mod.nobss)]
            size = ds + (max(written) if written else 4 if mod.hasdata else 0)
            if mod.hasdata:
                need(img[ds:ds + 4] == b"NULL", "the first bytes of the data segment: %r", img[ds:ds + 4])

            def get(seg, a, n):
                o = a - off if seg == "c" else a + ds
                return img[o:o + n] + bytes(n - len(img[o:o + n])), None
        else:
            top = (mod.data if mod.hasdata else mod.code)[1] - 64
            ss = (h["ss"] << 4) & 0xFFFFF
            need(top <= ss < top + 16, "SS %x, contents end at %x", ss, top)
            need(h["sp"] == mod.stack, "SP %x, stack %x", h["sp"], mod.stack)
            need(h["top"] >= ss + h["sp"], "memory up to %x, stack up to %x", h["top"], ss + h["sp"])
            need(h["ip"] < 16, "IP %x", h["ip"])
            written = [d.stop for d in mod.descs if not d.nobits or mod.nobss]
            size = max(written) - 64

            def get(seg, a, n):
                o = a - 64
                return img[o:o + n] + bytes(n - len(img[o:o + n])), None
        need(h["start"] == ent - 64, "CS:IP %x:%x is %x, entry %x", h["cs"], h["ip"], h["start"], ent)
        need(h["maxa"] >= h["mina"], "MaxAlloc")
        need(len(img) == size, "image size %x, contents %x", len(img), size)
        each(get)
        pads(get)
    elif fmt == "aout":
        if stub is not None:
            need(f[:len(stub)] == stub, "stub altered")
            f = f[len(stub) + 64:]
        m, e, h = load_aout(f)
        need(e == ent, "entry %x, expected %x", e, ent)
        each(lambda s, a, n: m.get(a, n))
        pads(lambda s, a, n: m.get(a, n))
        last = mod.code[1] if not mod.hasdata else mod.data[1]
        need(h["text"] + h["data"] + h["bss"] == -(-last // 4096) * 4096, "sizes %x %x %x, contents end at %x", h["text"], h["data"], h["bss"], last)
        if not mod.nobss and any(d.nobits for d in mod.descs):
            w = [d.stop for d in mod.descs if not d.nobits]
            need(h["text"] + h["data"] == -(-max(w) // 4096) * 4096, "initialised part %x+%x, ends at %x", h["text"], h["data"], max(w))
        if rebase is not None:
            m2, e2, h2 = load_aout(f, rebase)
            mm = Model(objs, base=rebase, **opts)
            need(e2 == mm.symbol(mm.entry), "entry after relocation")
            each(lambda s, a, n: m2.get(a, n), mm=mm)
            mod.lay(0)
    elif fmt == "elf":
        m, e = load_elf(f)
        need(e == ent, "entry %x, expected %x", e, ent)
        each(lambda s, a, n: m.get(a, n))
        pads(lambda s, a, n: m.get(a, n))
    elif fmt == "mach":
        m, e, h = load_mach(f, mod.image)
        need(e == ent, "entry %x, expected %x", e, ent)
        need(h["syms"].get("start") == ent and h["syms"].get("__mh_execute_header") == mod.image, "symbols %r", h["syms"])
        need(m.get(mod.image, 28)[0] == f[:28], "the header is not mapped at the image base")
        each(lambda s, a, n: m.get(a, n))
        pads(lambda s, a, n: m.get(a, n))
    elif fmt == "pe":
        m, e, h = load_pe(f)
        need(e == ent, "entry %x, expected %x", e, ent)
        need(h["base"] == mod.image, "image base %x", h["base"])
        each(lambda s, a, n: m.get(a, n))
        if not skip:
            pads(lambda s, a, n: m.get(a, n))
        need(h["init"] == h["szi"], "SizeOfInitializedData %x, sections %x", h["szi"], h["init"])
        tx = h["secs"].get(".text")
        need(tx and h["bc"] == tx[0] and h["szc"] == tx[1], "BaseOfCode, SizeOfCode")
        if not mod.norel:
            want = sorted(s.addr + off - mod.image for o in mod.inc for s in o.secs if s.flags & A and s.typ == PROGBITS and not s.name.startswith((".dll_import", ".dll_iat")) for off, t, y in s.rels if t == R32)
            need(sorted(h["rel"]) == want, "base relocations: %d, sites %d; missing %s, extra %s", len(h["rel"]), len(want), [hex(x) for x in set(want) - set(h["rel"])][:9], [hex(x) for x in set(h["rel"]) - set(want)][:9])
            if rebase is not None:
                m2, e2, h2 = load_pe(f, rebase)
                mm = Model(objs, base=rebase, **opts)
                need(e2 == mm.symbol(mm.entry), "entry after relocation")
                each(lambda s, a, n: m2.get(a, n), mm=mm)
                mod.place()


def compare_map(mod, text):
    """The map file against the model."""
    lines = text.decode("latin-1").split("\n")
    need(lines[0].split()[:3] == ["File", "Ofs", "Sym"], "map header %r", lines[0])
    got, cur = [], None
    for ln in lines[1:]:
        t = ln.split()
        if not t:
            cur = None
        elif len(t) >= 2 and t[1] == "section":
            cur = {"name": ln.split("section ", 1)[1].rstrip()[:-1], "start": int(t[0], 16), "syms": [], "stop": None}
            got.append(cur)
        elif len(t) == 1:
            cur["stop"] = int(t[0], 16)
        elif len(t) == 2:
            need(t[1] in mod.deferred and mod.symbol(t[1]) == int(t[0], 16), "map: %s at %s", t[1], t[0])
        else:
            cur["syms"].append((t[2], int(t[1], 16), int(t[0], 16)))
    need([g["name"] for g in got] == [d.name for d in mod.descs], "map sections %r, expected %r", [g["name"] for g in got], [d.name for d in mod.descs])
    for g, d in zip(got, mod.descs):
        need(g["start"] == d.start and g["stop"] == d.stop, "map: section %s %x..%x, expected %x..%x", d.name, g["start"], g["stop"] or 0, d.start, d.stop)
        want = sorted((y.name, (s.addr + y.value) & M32) for o, s in d.parts for y in o.syms if y.bind == GLOBAL and y.sec is s and y.name)
        need(sorted(x[:2] for x in g["syms"]) == want, "map: symbols of %s: %r, expected %r", d.name, sorted(x[:2] for x in g["syms"])[:20], want[:20])
    return [(n, a, fo, d.nobits and not mod.nobss) for g, d in zip(got, mod.descs) for n, a, fo in g["syms"]]


def map_offsets(mod, syms, hdr):
    """File offsets in the map of symbols in stored sections."""
    f = mod.fmt
    for n, a, fo, nostore in syms:
        if nostore:
            continue
        d = next(d for d in mod.descs if any(y.name == n and y.bind == GLOBAL and y.sec is s for o, s in d.parts for y in o.syms))
        if f in ("tiny", "flat16", "flat32"):
            w = a - mod.load
        elif f == "small":
            w = a if d.seg == "c" else mod.codeend + a
        elif f in ("huge", "unreal"):
            w = a
        elif f == "pe":
            w = a - mod.image - 4096 + 1024
        elif f == "aout":
            w = a + hdr
        else:
            w = a - mod.image
        need(fo == w & M32, "map: %s at file offset %x, is at %x", n, fo, w)


# -- generation ----------------------------------------------------------------------------------------------------
CODE = [".text", ".text", ".text", ".text2", ".init", ".a.code", "Zcode", ".fini"]
RO = [".rodata", ".rodata", ".rodata.str", ".const", "ro_x"]
RW = [".data", ".data", ".data2", ".my.sec", "heap_", ".ctor"]
BSS = [".bss", ".bss", ".bss2", "zero"]
NAL = [".comment", ".debug_x", ".note.x", ".fxnsz"]


class Gen:
    def __init__(self, r, fmt, nobj=None, small=False):
        self.r, self.fmt, self.small = r, fmt, small
        self.uniq = 0
        self.b16 = fmt in B16

    def name(self):
        self.uniq += 1
        r = self.r
        return r.choice(["_", "", "f", "g_", "$x", "sym."]) + "s%d" % self.uniq + r.choice(["", "", "_tail", "x" * r.choice([1, 30, 300])])

    def size(self):
        r = self.r
        k = r.random()
        if self.small or k < .4:
            return r.randrange(0, 60)
        if k < .5:
            return r.choice([0, 1, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1027, 1028, 2047, 2048, 2049, 3072, 4095, 4096, 4097])
        return r.randrange(0, 300 if self.b16 else 5000) if k < .95 else r.randrange(0, 2000 if self.b16 else 40000)

    def align(self, x):
        r = self.r
        if self.fmt == "huge":
            return r.choice([0, 1, 1, 2, 4, 4, 8, 16])
        if self.b16:
            return r.choice([1, 2, 4, 16, 64]) if x else r.choice([0, 1, 2, 4, 8, 16, 32])
        return r.choice([0, 1, 1, 2, 4, 4, 8, 16, 16, 32, 64] + ([128, 4096] if r.random() < .1 else []))

    def secs(self, o):
        r = self.r
        big = lambda n: bytes(r.getrandbits(8) for _ in range(n)) if n < 3000 else r.randbytes(n)
        kinds = []
        for pool, typ, fl, lo, hi in ((CODE, PROGBITS, A | X, 0, 3), (RO, PROGBITS, A, 0, 2), (RW, PROGBITS, A | W, 0, 2), (BSS, NOBITS, A | W, 0, 2), (NAL, PROGBITS, 0, 0, 1)):
            for _ in range(r.randrange(lo, hi + 1)):
                kinds.append((r.choice(pool), typ, fl))
        r.shuffle(kinds)
        for n, typ, fl in kinds:
            if n == ".fxnsz":
                d = b"".join(struct.pack("<I", r.choice([0, 1, 100, 0xFFEF])) for _ in range(r.randrange(1, 5)))
                o.sec(n, typ, fl, 1, d)
            elif typ == NOBITS:
                o.sec(n, typ, fl, self.align(False), b"", self.size() if r.random() < .9 or self.b16 or self.fmt in ("huge", "unreal") else r.randrange(1 << 20))
            else:
                o.sec(n, typ, fl, self.align(fl & X), big(self.size()))
        if self.fmt == "huge" and r.random() < .5:
            for n in (".relot", ".relod"):
                if r.random() < .6:
                    o.sec(n, PROGBITS, A, r.choice([1, 2, 4, 4]), big(4 * r.randrange(1, 5)))

    def defs(self, o, n):
        """Symbols defined in o; returns the global names."""
        r = self.r
        names = []
        al = [s for s in o.secs if s.flags & A]
        if r.random() < .5:
            o.sym("file.c", LOCAL, ABS, 0, 4)
        for s in al:
            if r.random() < .6:
                o.secsym(s)
        for _ in range(r.randrange(0, 3)):
            if al:
                s = r.choice(al)
                o.sym(r.choice(["L1", "loc", "tmp", ".L.5"]), LOCAL, s, r.randrange(0, s.size + 1), r.choice([0, 1, 2]))
        for _ in range(n):
            if al:
                s = r.choice(al)
                nm = self.name()
                o.sym(nm, GLOBAL, s, r.randrange(0, s.size + 1), r.choice([0, 1, 2]))
                names.append(nm)
        return names

    def rels(self, o, exts, types):
        """Relocations in o against its own symbols and the given external names."""
        r = self.r
        for s in o.secs:
            if s.typ != PROGBITS or s.size < 4 or s.name == ".fxnsz":
                continue
            if not s.flags & A:
                if r.random() < .5:
                    continue
            dense = r.random() < .1
            pos = r.randrange(0, 8)
            while pos + 4 <= s.size:
                t = r.choice(types)
                n = 4 if t in (R32, RPC32) else 2
                if r.random() < .15 and pos > 3:      # around the edges of a buffer of 1024
                    e = -(-pos // 1024) * 1024 - r.randrange(0, 5)
                    pos = max(pos, e)
                    if pos + 4 > s.size:
                        pos = s.size - 4 if s.size - 4 >= pos - 4 and not dense else pos
                        break
                y = None
                k = r.random()
                if k < .35 and exts:
                    y = o.ref(r.choice(exts))
                elif k < .65:
                    own = [x for x in o.syms if isinstance(x.sec, Sec) and x.sec.flags & A]
                    y = r.choice(own) if own else None
                elif k < .97 or self.fmt == "pe":
                    al = [x for x in o.secs if x.flags & A]
                    y = o.secsym(r.choice(al)) if al else None
                if y is not None or self.fmt != "pe":
                    s.rels.append((pos, t, y))
                pos += n + (0 if dense else int(r.expovariate(1 / 40.0)) if s.size < 3000 else int(r.expovariate(1 / 600.0)))
            if s.size >= 8 and r.random() < .3 and not any(p >= s.size - 7 for p, _, _ in s.rels) and (self.fmt != "pe" or any(x.flags & A for x in o.secs)):
                al = [x for x in o.secs if x.flags & A]
                s.rels.append((s.size - 4, R32 if R32 in types else types[0], o.secsym(r.choice(al)) if al else None))

    def types(self):
        f, r = self.fmt, self.r
        if self.b16:
            return [R16, RPC16] if r.random() < .8 else [R16, RPC16, R32, RPC32]
        if f == "pe":
            return [R32, RPC32, R32, RPC32, RPC16] if r.random() < .2 else [R32, RPC32]
        if f in ("huge", "unreal"):
            return [R32, RPC32, R16, RPC16] if r.random() < .3 else [R32, RPC32]
        return [R32, RPC32] if r.random() < .8 else [R32, RPC32, R16, RPC16]

    def program(self):
        """Objects of a program that links, plus some nobody needs."""
        r = self.r
        n = r.choice([1, 2, 2, 3, 3, 4, 6, 9])
        objs = []
        glob = {}
        for i in range(n + r.randrange(0, 3)):
            o = Obj(r.choice(["a%d.o", "obj_%d.o", "a_rather_long_name_%d.o"]) % i)
            self.secs(o)
            if i == 0 and not any(s.flags & X for s in o.secs):
                o.sec(".text", PROGBITS, A | X, self.align(True), r.randbytes(1 + self.size()))
            glob[i] = self.defs(o, r.randrange(1, 5))
            objs.append(o)
        self.entry = r.choice(["__start", "__start", "__start", "_main", "go"])
        x = r.choice([s for s in objs[0].secs if s.flags & X])
        objs[0].sym(self.entry, GLOBAL, x, 0 if r.random() < .3 else r.randrange(0, max(1, x.size)), 2)
        types = self.types()
        used = objs[:n]
        for i, o in enumerate(used):
            # a chain keeps every one of the first n reachable
            exts = []
            if i + 1 < n and glob[i + 1]:
                exts.append(r.choice(glob[i + 1]))
                o.ref(exts[0])
            for _ in range(r.randrange(0, 4)):
                j = r.randrange(n)
                if glob[j]:
                    exts.append(r.choice(glob[j]))
            if r.random() < .3:
                present = [s.name for k in used for s in k.secs if s.flags & A]
                pn = r.choice(present + ["allcode__", "alldata__"] + (["stack__"] if self.fmt in ("tiny", "small") else []))
                if pn != "alldata__" or any(not s.flags & X and s.flags & A for k in used[:1] for s in k.secs):
                    exts.append(r.choice(["__start_", "__stop_"]) + pn.replace(".", "_"))
                    self.cond = True
            self.rels(o, [e for e in exts], types)
        for i in range(n, len(objs)):
            o = objs[i]
            # nobody needs it: duplicates, undefined names and odd sections in it must not matter
            if r.random() < .5:
                self.dup(o, r.choice([g for j in range(n) for g in glob[j]] or [self.entry]))
            if r.random() < .4:
                o.ref("nowhere_%d" % i)
        head = objs[0]
        tail = objs[1:]
        if r.random() < .5:
            # unneeded ones must stay behind those whose symbols they repeat
            keep = tail[n - 1:]
            t2 = tail[:n - 1]
            r.shuffle(t2)
            tail = t2 + keep
            k = r.randrange(n)
            tail.insert(k if k < n - 1 else max(0, n - 1), head)
            return tail
        return [head] + tail

    def dup(self, o, name):
        al = [s for s in o.secs if s.flags & A]
        if al and not any(y.name == name for y in o.syms):
            o.sym(name, GLOBAL, self.r.choice(al), 0)


def imports(r, exts):
    """Objects of a PE import table as the library lays it out.  -> (objects, what has to be found: [(dll, [(function, slot symbol)])])"""
    objs, want = [], []
    o = Obj("dimports.o")

    def s(ob, name, data=b"", size=None):
        return ob.sec(name, PROGBITS, A | W, 4, data)
    a = s(o, ".dll_import", bytes(4))
    o.sym("__dll_imports", GLOBAL, a, 4)
    s(o, ".dll_import1", bytes(20))
    e = s(o, ".dll_imports_end", bytes(4))
    o.sym("__dll_imports_end", GLOBAL, e, 0)
    i = s(o, ".dll_iat", bytes(4))
    o.sym("__dll_iats", GLOBAL, i, 4)
    e = s(o, ".dll_iats_end", bytes(4))
    o.sym("__dll_iats_end", GLOBAL, e, 0)
    objs.append(o)
    for k in range(r.randrange(1, 4)):
        dll = r.choice(["kernel32", "user32", "msvcrt", "x"]) + str(k)
        d = Obj(dll + ".o")
        d0 = s(d, ".dll_import0_" + dll, bytes(20))
        d2 = s(d, ".dll_import2_" + dll)
        d2t = s(d, ".dll_import2_" + dll + "_trailer", bytes(4))
        d4 = s(d, ".dll_import4_" + dll, (dll + ".dll").encode() + b"\0" * r.choice([1, 2, 3]))
        i2 = s(d, ".dll_iat2_" + dll)
        s(d, ".dll_iat2_" + dll + "_trailer", bytes(4))
        d0.rels = [(0, R32, d.secsym(d2)), (12, R32, d.secsym(d4)), (16, R32, d.secsym(i2))]
        d.sym("__dll_" + dll, GLOBAL, d0, 0)
        o.ref("__dll_" + dll)
        objs.append(d)
        fns = []
        for j in range(r.randrange(1, 5)):
            fn = "Fn%d_%s" % (j, "y" * r.randrange(0, 9))
            f = Obj("%s_%d.o" % (dll, j))
            f2 = s(f, ".dll_import2_" + dll, bytes(4))
            f3 = s(f, ".dll_import3_" + dll, b"\0\0" + fn.encode() + b"\0")
            fi = s(f, ".dll_iat2_" + dll, bytes(4))
            f2.rels = [(0, R32, f.secsym(f3))]
            fi.rels = [(0, R32, f.secsym(f3))]
            slot = "__imp_%s_%d" % (dll, j)
            f.sym(slot, GLOBAL, fi, 0)
            exts.append(slot)
            f.ref("__dll_imports")
            f.ref("__dll_" + dll)
            fns.append((fn, slot))
            objs.append(f)
        want.append((dll + ".dll", fns))
    return objs, want


def check_imports(mod, f, want):
    """What a Windows loader would find."""
    m, e, h = load_pe(f)
    base = h["base"]
    inc = {y.name for o in mod.inc for y in o.syms if y.bind == GLOBAL and y.sec != UND}
    va, n = h["dirs"][1]
    need(base + va == mod.symbol("__dll_imports") and n == mod.symbol("__dll_imports_end") - mod.symbol("__dll_imports"), "import directory %x %x", va, n)
    va2, n2 = h["dirs"][12]
    need(base + va2 == mod.symbol("__dll_iats") and n2 == mod.symbol("__dll_iats_end") - mod.symbol("__dll_iats"), "import address directory %x %x", va2, n2)

    def cstr(a):
        s = b""
        while True:
            c = m.get(base + a, 1)[0]
            if c == b"\0":
                return s.decode("latin-1")
            s += c
            a += 1
    got = []
    o = va
    while True:
        need(o + 20 <= va + n, "the import directory has no end")
        oft, ts, fc, nm, ft = struct.unpack("<5I", m.get(base + o, 20)[0])
        if not (oft or nm or ft):
            break
        fns = []
        k = 0
        while True:
            t = struct.unpack("<I", m.get(base + oft + 4 * k, 4)[0])[0]
            t2 = struct.unpack("<I", m.get(base + ft + 4 * k, 4)[0])[0]
            need(t == t2, "lookup and address tables differ: %x %x", t, t2)
            if not t:
                break
            need(va2 <= ft + 4 * k < va2 + n2, "an address slot lies outside the directory")
            fns.append((cstr(t + 2), base + ft + 4 * k))
            k += 1
        got.append((cstr(nm), fns))
        o += 20
    exp = []
    for dll, fns in want:
        exp.append((dll, [(fn, mod.symbol(slot)) for fn, slot in fns if slot in inc]))
    exp = [x for x in exp if any(x[0] == g[0] for g in got) or x[1]]
    need(sorted(got) == sorted(exp), "imports %r, expected %r", got, exp)
    return sum(len(x[1]) for x in got)
