"""What an ELF32 i386 object means, in a form that does not depend on the assembler's choice of encodings.

canon(path, bits) -> dict: per section the data with its fixups, code as a list of instructions whose branch and
fixup targets are instructions or places in sections, the global symbols, the undefined symbols in use, and the sizes
of the uninitialised sections.  diff(a, b) names the first difference."""
import re
import struct
import subprocess

SIZES = {1: 4, 2: 4, 20: 2, 21: 2, 22: 1, 23: 1}
PC = (2, 21, 23)
NOPS = re.compile(r"nop|xchg +(e?)ax,\1ax$|lea +esi,\[esi\+(eiz\*1\+)?0x0\]$|lea +esi,\[esi\]$|lea +edi,\[edi(\+eiz\*1)?(\+0x0)?\]$|lea +si,\[si(\+0x0)?\]$|mov +esi,esi$|mov +edi,edi$|data16|cs nop|lea +esi,ds:0x0$")


class Bad(Exception):
    pass


class Obj:
    def __init__(self, path):
        with open(path, "rb") as f:
            d = f.read()
        if d[:4] != b"\x7fELF" or d[4] != 1:
            raise Bad("no ELF object")
        if struct.unpack_from("<H", d, 16)[0] != 1 or struct.unpack_from("<H", d, 18)[0] != 3:
            raise Bad("no relocatable i386 object")
        shoff, = struct.unpack_from("<I", d, 32)
        n, strn = struct.unpack_from("<HH", d, 48)
        sh = [struct.unpack_from("<10I", d, shoff + 40 * i) for i in range(n)]
        s = d[sh[strn][4]:sh[strn][4] + sh[strn][5]]

        def name(t, o):
            return t[o:t.index(b"\0", o)].decode("latin-1")
        self.names = [name(s, h[0]) for h in sh]
        self.sec, self.syms, self.rel = {}, [], {}
        for i, h in enumerate(sh):
            if h[1] == 2:
                st = d[sh[h[6]][4]:sh[h[6]][4] + sh[h[6]][5]]
                for o in range(h[4], h[4] + h[5], 16):
                    nm, v, sz, info, oth, x = struct.unpack_from("<IIIBBH", d, o)
                    self.syms.append((name(st, nm), v, info >> 4, info & 15, x))
        for i, h in enumerate(sh):
            if h[1] == 1:
                self.sec[i] = (self.names[i], h[2], d[h[4]:h[4] + h[5]], h[8])
            elif h[1] == 8:
                self.sec[i] = (self.names[i], h[2], h[5], h[8])
            elif h[1] == 9:
                self.rel.setdefault(h[7], []).extend((o, inf & 255, inf >> 8) for o, inf in struct.iter_unpack("<II", d[h[4]:h[4] + h[5]]))
            elif h[1] == 4:
                raise Bad("RELA section")


def disas(data, bits, tmp):
    with open(tmp, "wb") as f:
        f.write(data)
    out = subprocess.run(["objdump", "-D", "-z", "-b", "binary", "-m", "i8086" if bits == 16 else "i386", "-M", "intel", "--insn-width=15", tmp],
                         stdout=subprocess.PIPE, env={"PATH": "/usr/bin:/bin", "LC_ALL": "C"}).stdout.decode("latin-1")
    res = []
    for l in out.split("\n"):
        m = re.match(r" *([0-9a-f]+):\t([0-9a-f ]+?) *(?:\t(.*))?$", l)
        if m:
            res.append((int(m.group(1), 16), len(m.group(2).split()), (m.group(3) or "").split("#")[0].strip()))
    return res


def canon(path, bits, tmp):
    o = Obj(path)
    code, out = {}, {"code": {}, "data": {}, "bss": {}, "sym": {}, "und": set(), "flags": {}}
    # code first: where the instructions are
    for i, (nm, fl, data, al) in sorted(o.sec.items()):
        if fl & 4 and isinstance(data, bytes):
            b = bytearray(data)
            for off, t, s in o.rel.get(i, ()):
                b[off:off + SIZES[t]] = bytes(SIZES[t])
            ins = disas(bytes(b), bits, tmp)
            keep, index = [], {}
            for a, ln, txt in ins:
                index[a] = len(keep)
                if not NOPS.match(txt):
                    keep.append((a, ln, txt))
            index[len(data)] = len(keep)
            code[i] = (keep, index)

    def place(i, off):
        if i in code:
            keep, index = code[i]
            d = 0
            while off - d not in index and d < 16 and off - d > 0:
                d += 1
            return (o.sec[i][0], "insn", index.get(off - d, off), d)
        return (o.sec[i][0], off)

    def target(sec, off, t, s, add):
        nm, v, bind, typ, x = o.syms[s]
        if t in PC:
            add += off  # (relative to the field)
        if x in o.sec:
            if t in PC and x == sec:
                return place(x, (v + add) & (0xffff if t == 21 else 0xffffffff))
            if t in PC:
                return ("pc",) + place(x, v + add - off + SIZES[t])
            a = (v + add) & 0xffffffff
            return (t,) + place(x, a)
        if x == 0:
            out["und"].add(nm)
            return (t, nm, add - off if t in PC else add)
        raise Bad("symbol %r in section %d" % (nm, x))

    def field(data, off, t):
        n = SIZES[t]
        return int.from_bytes(data[off:off + n], "little", signed=True)

    for i, (nm, fl, data, al) in sorted(o.sec.items()):
        if nm in (".comment", ".note.GNU-stack"):
            continue
        if not isinstance(data, bytes):
            out["bss"][nm] = out["bss"].get(nm, 0) + data
            continue
        rels = sorted(o.rel.get(i, ()))
        for off, t, s in rels:
            if t not in SIZES or off + SIZES[t] > len(data):
                raise Bad("fixup of type %d at %d of %s" % (t, off, nm))
        if i in code:
            keep, index = code[i]
            res, k = [], 0
            for a, ln, txt in keep:
                fx = []
                while k < len(rels) and rels[k][0] < a:
                    raise Bad("fixup between instructions at %d" % rels[k][0])
                while k < len(rels) and rels[k][0] < a + ln:
                    off, t, s = rels[k]
                    tg = target(i, off, t, s, field(data, off, t))
                    # a branch resolved by the assembler looks the same
                    if t in PC and o.syms[s][4] == i:
                        tg = target(i, off, t, s, field(data, off, t) + SIZES[t])
                    fx.append(tg)
                    k += 1
                m = re.match(r"(j\w+|call\w?|loop\w*)( +)0x([0-9a-f]+)$", txt)
                if m:
                    if fx:
                        txt = m.group(1)
                        if fx[0][0] not in (1, 2, 20, 21):
                            pass
                    else:
                        txt = m.group(1)
                        fx = [place(i, int(m.group(3), 16))]
                m = re.match(r"(test|xchg) +(.*),(.*)$", txt)
                if m:
                    txt = m.group(1) + " " + ",".join(sorted(m.groups()[1:]))
                if re.match(r"f(add|mul)p? ", txt):
                    # the sum of the top and itself
                    txt = re.sub(r" st\(0\),st$| st,st\(0\)$", " st,st", txt)
                res.append((re.sub(r"  +", " ", txt), tuple(fx)))
            out["code"][nm] = out["code"].get(nm, []) + res
            out["flags"][nm] = fl & 7
        else:
            b = bytearray(data)
            fx = []
            for off, t, s in rels:
                fx.append((off, target(i, off, t, s, field(data, off, t))))
                b[off:off + SIZES[t]] = bytes(SIZES[t])
            if data:
                out["data"][nm] = (bytes(b), fx)
                out["flags"][nm] = fl & 7
    for nm, v, bind, typ, x in o.syms:
        if bind == 1 and x:
            if nm in out["sym"]:
                raise Bad("two global symbols %s" % nm)
            out["sym"][nm] = place(x, v)
    out["bss"] = {k: v for k, v in out["bss"].items() if v}
    out["code"] = {k: v for k, v in out["code"].items() if v}
    return out


FILL = {bytes.fromhex(h) for h in "00 90 0000 9090 6690 8bc0 89f6 8bf6 89c0 000000 909090 8d7600 669090 906690 8d7400 0f1f00 8d4000 6689f6".split()}


def ungap(x, y):
    """y with the filling of x in gaps before places aligned by 4 or 2: each assembler fills them in its way."""
    y = bytearray(y)
    i = 0
    while i < len(x):
        if x[i] != y[i]:
            for e in ((i | 1) + 1, (i | 3) + 1):
                for g in range(max(0, e - 3), i + 1):
                    if x[g:e] in FILL and bytes(y[g:e]) in FILL:
                        y[g:e] = x[g:e]
        i += 1
    return bytes(y)


def diff(a, b):
    """The first difference as (kind, text), or None."""
    for k in ("code", "data", "bss", "sym"):
        if set(a[k]) != set(b[k]):
            return k + "-names", "%s: only in one of them: %s" % (k, sorted(set(a[k]) ^ set(b[k]))[:8])
    for nm in a["code"]:
        x, y = a["code"][nm], b["code"][nm]
        for i in range(min(len(x), len(y))):
            if x[i] != y[i]:
                return "code", "%s, instruction %d: %s and %s" % (nm, i, x[i], y[i])
        if len(x) != len(y):
            return "code-length", "%s: %d and %d instructions" % (nm, len(x), len(y))
    for nm in a["data"]:
        x, y = a["data"][nm], b["data"][nm]
        if nm == ".fxnsz":
            if len(x[0]) != len(y[0]):
                return "fxnsz", "%d and %d bytes" % (len(x[0]), len(y[0]))
            continue
        if len(x[0]) == len(y[0]):
            y = (ungap(x[0], y[0]), y[1])
        if x[0] != y[0]:
            i = next((i for i in range(min(len(x[0]), len(y[0]))) if x[0][i] != y[0][i]), min(len(x[0]), len(y[0])))
            return "data", "%s at %d: %r and %r" % (nm, i, x[0][i:i + 24], y[0][i:i + 24])
        if x[1] != y[1]:
            return "fixups", "%s: %s" % (nm, sorted(set(x[1]) ^ set(y[1]))[:4])
    for k in ("bss", "sym"):
        for nm in a[k]:
            if a[k][nm] != b[k][nm]:
                return k, "%s: %s and %s" % (nm, a[k][nm], b[k][nm])
    if a["und"] != b["und"]:
        return "und", "undefined symbols in use: %s" % sorted(a["und"] ^ b["und"])[:8]
    for nm in a["flags"]:
        if a["flags"][nm] != b["flags"][nm]:
            return "flags", "%s: %d and %d" % (nm, a["flags"][nm], b["flags"][nm])
    return None
