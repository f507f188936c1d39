"""C19: printf-family output against the C standard's text (own formatter; exact decimal expansions of floats)."""
import math, struct

from vt import prog
from vt.clib import cstr, ARENA

TECHNIQUE = "random formats and arguments run through every printf function of several library builds; comparison with an exact formatter, destination guards, guard pages"
NOTE = ("Random exploration of conversions, flags, widths, precisions, length modifiers, snprintf sizes and float values (all exponents, ties, subnormals, "
        "infinities, NaNs); floats are compared with exact decimal expansion. Assumes Python's float formatting for correctly rounded decimals; DOSBox. Windows and macOS executables run in a loader of ours (vt/native/osrun.c), DPMI ones in DOSBox with a host of ours (vt/native/dpmihost.asm).")
RULE = ("a case is one printf-family call: its text, return value, stored %n and the bytes around the destination are compared with the standard's; "
        "distinct: one per generated program (about 30 calls)")


def f32(x):
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def bits_f(u):
    return struct.unpack("<f", struct.pack("<I", u))[0]


def fmt_int(v, bits, conv, flags, width, prec):
    """The text of one integer conversion (v already converted to the argument type's range)."""
    neg = conv in "di" and v < 0
    a = abs(v)
    d = {"d": "%d", "i": "%d", "u": "%d", "o": "%o", "x": "%x", "X": "%X"}[conv] % a
    if prec is not None and prec >= 0:
        if prec == 0 and a == 0:
            d = ""
        d = d.rjust(prec, "0")
    if conv == "o" and "#" in flags and not d.startswith("0"):
        d = "0" + d
    pre = ""
    if conv in "xX" and "#" in flags and a:
        pre = "0" + conv
    if conv in "di":
        pre = "-" if neg else "+" if "+" in flags else " " if " " in flags else ""
    return pad(pre, d, flags, width, "0" in flags and (prec is None or prec < 0))


def pad(pre, d, flags, width, zero):
    w = width or 0
    if "-" in flags:
        return (pre + d).ljust(w)
    if zero:
        return pre + d.rjust(w - len(pre), "0")
    return (pre + d).rjust(w)


def fmt_float(u, conv, flags, width, prec):
    neg = u >> 31
    m = u & 0x7fffffff
    pre = "-" if neg else "+" if "+" in flags else " " if " " in flags else ""
    if m >= 0x7f800000:
        d = "nan" if m > 0x7f800000 else "inf"
        if conv.isupper():
            d = d.upper()
        return pad(pre, d, flags, width, False)
    x = bits_f(m)
    p = "" if prec is None or prec < 0 else ".%d" % prec
    d = ("%" + ("#" if "#" in flags else "") + p + conv) % x
    return pad(pre, d, flags, width, "0" in flags)


def rfloat(r):
    k = r.random()
    if k < 0.25:
        return r.getrandbits(32)
    if k < 0.35:
        return r.choice([0, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00000, 0xffc00000, 1, 0x007fffff, 0x00800000, 0x7f7fffff, 0x3f800000, 0x80000001])
    if k < 0.6:      # decimal ties and short decimals
        x = r.randint(0, 10 ** r.randint(1, 7)) / 2 ** r.randint(0, 6)
    elif k < 0.8:
        x = r.randint(1, 9999999) * 10.0 ** r.randint(-12, 6)
    elif k < 0.9:
        x = float("9" * r.randint(1, 8)) * 10.0 ** r.randint(-10, 5) + 0
    else:
        x = 10.0 ** r.randint(-40, 38) * r.choice([1, 0.5, 0.99999994, 5, 9.9999999])
    if r.random() < 0.3:
        x = -x
    return struct.unpack("<I", struct.pack("<f", f32(x)))[0]


HEAD = r"""
#include <stdarg.h>
#include <string.h>
static unsigned char big_[3000];
unsigned char *B = big_ + 8;
int NN; short NH; signed char NC; long_t NL;
union FU { unsigned u; float_t f; };
float_t F(unsigned u) { union FU x; x.u = u; return x.f; }
void pre(void) { memset(big_, 0x5a, sizeof big_); NN = -77; NH = -77; NC = -77; }
void show(int ret, unsigned n, unsigned total) { unsigned i; /* n: bytes of text stored, total: bytes that may be written */
  for (i = 0; i < 8; i++) if (big_[i] != 0x5a) putchar('!');
  for (i = 8 + total; i < sizeof big_; i++) if (big_[i] != 0x5a) { putchar('@'); break; }
  px(ret);
  for (i = 0; i < n; i++) { int c = B[i]; if (c < 32 || c > 126 || c == '\\') { putchar('\\'); putchar('a' + (c >> 4)); putchar('a' + (c & 15)); } else putchar(c); }
  putchar('|'); px(B[n]); nl(); }
int vs(int n, char *f, ...) { va_list a; int r; va_start(a, f); if (n < 0) r = vsprintf((char*)B, f, a); else r = vsnprintf((char*)B, n, f, a); va_end(a); return r; }
int vp(char *f, ...) { va_list a; int r; va_start(a, f); r = vprintf(f, a); va_end(a); return r; }
int vf(char *f, ...) { va_list a; int r; va_start(a, f); r = vfprintf(stdout, f, a); va_end(a); return r; }
"""


def esc(b):
    out = []
    for x in b:
        out.append(chr(x) if 32 <= x < 127 and x != 92 else "\\%c%c" % (97 + (x >> 4), 97 + (x & 15)))
    return "".join(out)


def one_format(r, bits, floats):
    """(format bytes, list of C argument texts, expected bytes, (%n kind, value) or None)."""
    f, args, out = b"", [], b""
    pct_n = None
    M = (1 << bits) - 1
    for _ in range(r.choice([1, 1, 1, 2, 3, r.randint(1, 6)])):
        k = r.random()
        if k < 0.15:
            t = r.choice([b"%%", b"abc", b"\n", b"\t", b"x y ", b"\377", b"-", b"%%d", b""])
            f += t
            out += t.replace(b"%%", b"%")
            continue
        flags = "".join(r.sample("-+ #0", r.choice([0, 0, 0, 1, 1, 2, 2, 3])))
        if r.random() < 0.1 and flags:
            flags += flags[0]
        width = r.choice([None, None, r.randint(1, 12), r.randint(1, 30), 0 if r.random() < .3 else 5, 120 if r.random() < .1 else 9])
        prec = r.choice([None, None, None, 0, r.randint(0, 12), r.randint(0, 30), -1])
        wtxt = ptxt = ""
        a = []
        wflags = flags
        if width is not None:
            if r.random() < 0.3:
                wtxt = "*"
                if r.random() < 0.3:
                    a.append(str(-width))
                    wflags += "-"
                else:
                    a.append(str(width))
            elif width:
                wtxt = str(width)
            else:
                width = None
        kinds = "iiiiisssccn" + ("ffffff" if floats else "")
        kind = r.choice(kinds)
        if kind == "f" and prec is not None and r.random() < 0.15:
            prec = r.choice([40, 60, 149, 150, 151, 160, 200])
        if kind == "i" and prec is not None and r.random() < 0.05:
            prec = 100
        if prec is not None:
            if r.random() < 0.3:
                ptxt = ".*"
                a.append(str(prec))
            elif prec < 0:
                ptxt, prec = ".", 0
            else:
                ptxt = "." + (str(prec) if prec or r.random() < 0.5 else "")
        p = None if prec is None or prec < 0 else prec
        if kind == "i":
            conv = r.choice("diiuuoxxXX")
            ln = r.choice(["", "", "", "h", "hh", "z", "j", "t"] + (["l", "l"] if bits == 32 else []))
            v = r.choice([0, 1, -1, 9, 10, 1 << (bits - 1), (1 << (bits - 1)) - 1, M, r.getrandbits(bits), r.getrandbits(bits), r.randint(-200, 200), r.randint(0, 9)]) & M
            b = {"h": 16, "hh": 8}.get(ln, bits)
            w = v & ((1 << b) - 1)
            if conv in "di" and w >> (b - 1):
                w -= 1 << b
            if conv not in "di":
                flags2 = wflags.replace("+", "").replace(" ", "")
            else:
                flags2 = wflags
            if "#" in flags and conv in "diu":
                flags = flags.replace("#", "")
                flags2 = flags2.replace("#", "")
            f += ("%%%s%s%s%s%s" % (flags, wtxt, ptxt, ln, conv)).encode()
            a.append("%dU" % v if r.random() < 0.5 else "(int)%dU" % v)
            out += fmt_int(w, b, conv, flags2, width, p).encode()
        elif kind == "f":
            conv = r.choice("eEfFgGfge")
            u = rfloat(r)
            ln = r.choice(["", "", "", "l", "L"])
            f += ("%%%s%s%s%s%s" % (flags, wtxt, ptxt, ln, conv)).encode()
            a.append("F(%dU)" % u)
            out += fmt_float(u, conv, wflags, width, p).encode()
        elif kind == "s":
            s = bytes(r.choice(b"abcXYZ \x80\xff%\n") for _ in range(r.choice([0, 1, 3, 8, r.randint(0, 40)])))
            fl = "-" if "-" in flags else ""
            f += ("%%%s%s%ss" % (fl, wtxt, ptxt)).encode()
            if p is not None and r.random() < 0.4:
                s = s[:p]
                a.append("ARENASTR:" + cstr(s) if len(s) == p else cstr(s))
            else:
                a.append(cstr(s))
            t = s[:p] if p is not None else s
            out += t.ljust(width or 0) if "-" in wflags else t.rjust(width or 0)
        elif kind == "c":
            v = r.choice([65, 0x80, 0xff, 0, 10, -1, 0x141, r.randint(32, 126)])
            if v & 255 in (13, 26):
                v = 65
            fl = "-" if "-" in flags else ""
            a = a[:1] if wtxt == "*" else []
            f += ("%%%s%sc" % (fl, wtxt)).encode()
            a.append(str(v))
            t = bytes([v & 255])
            out += t.ljust(width or 0) if "-" in wflags else t.rjust(width or 0)
        else:
            if pct_n:
                continue
            which = r.choice(["", "h", "hh"] + (["l"] if bits == 32 else []))
            f += ("%%%sn" % which).encode()
            var = {"": "NN", "h": "NH", "hh": "NC", "l": "NL"}[which]
            a = ["&" + var]
            n = len(out)
            if which == "hh":
                n = (n & 255) - (256 if n & 128 else 0)
            pct_n = (var, n)
        args += a
    return f, args, out, pct_n


def calls(c, key, target):
    r = c.rng("printf", key)
    bits = 16 if target in ("dost", "doss") else 32
    N = 300
    code, exp = [], []
    mix = {}
    for _ in range(30):
        while True:
            f, args, out, pn = one_format(r, bits, bits == 32)
            if len(out) < 1500:
                break
        al = ""
        used = False
        for a in args:
            if a.startswith("ARENASTR:") and used:
                al += ", " + a[9:]
            elif a.startswith("ARENASTR:"):
                used = True      # one per call: they share the end of the arena
                n = eval("len(b%s)" % a[9:])
                al += ", (char*)A0 + %d" % (N - n)
                code.append("set(%d, %s, %d);" % (N - n, a[9:], n))
            else:
                al += ", " + a
        fc = cstr(f)
        ln = len(out)
        how = r.choice(["sprintf", "sprintf", "snprintf", "snprintf", "snprintf", "vs", "vsn", "vsn", "printf", "fprintf", "vp", "vf"])
        if b"\r" in out or b"\x1a" in out or b"\0" in out:
            how = r.choice(["sprintf", "vs", "snprintf"])
        mix["calls." + how] = mix.get("calls." + how, 0) + 1
        h = "%%0%dx " % (bits // 4)
        M = (1 << bits) - 1
        if how in ("sprintf", "vs"):
            call = "sprintf((char*)B, %s%s)" % (fc, al) if how == "sprintf" else "vs(-1, %s%s)" % (fc, al)
            code.append("pre(); { int r = %s; show(r, %d, %d); }" % (call, ln, ln + 1))
            exp.append(h % ln + esc(out) + "|" + h % 0)
        elif how in ("snprintf", "vsn"):
            n = r.choice([0, 1, ln, ln + 1, ln + 1, max(0, ln - 1), r.randint(0, ln + 5), 2900])
            call = "snprintf(%s, %d, %s%s)" % ("(char*)B" if n or r.random() < .7 else "0", n, fc, al) if how == "snprintf" else "vs(%d, %s%s)" % (n, fc, al)
            st = min(ln, max(0, n - 1))
            code.append("pre(); { int r = %s; show(r, %d, %d); }" % (call, st, n if ln + 1 > n else ln + 1))
            exp.append(h % ln + esc(out[:st]) + "|" + h % (0 if n else 0x5a))
        else:
            call = {"printf": "printf(%s%s)", "fprintf": "fprintf(stdout, %s%s)", "vp": "vp(%s%s)", "vf": "vf(%s%s)"}[how] % (fc, al)
            code.append("pre(); { int r = %s; putchar('|'); px(r); nl(); }" % call)
            exp.append(out.decode("latin-1") + "|" + h % ln)
        if pn:
            code.append("px(%s); nl();" % pn[0])
            exp.append(h % (pn[1] & M))
    src = ["#define ARENA_N %d\n#define ARENA_P 4096\n#include <stdio.h>" % N, ARENA,
           (HEAD if bits == 32 else HEAD.replace("float_t F(unsigned u) { union FU x; x.u = u; return x.f; }", "")).replace("long_t", "long" if bits == 32 else "int").replace("float_t", "float" if bits == 32 else "int")]
    fns = ""
    for k in range(0, len(code), 12):
        src.append("void m%d(void) { %s }" % (k, "\n".join(code[k:k + 12])))
        fns += "m%d(); " % k
    src.append("int main(void) { arena(1); fill(1); %s return 0; }" % fns)
    e = "".join(x + "\n" for x in exp).encode("latin-1")
    mix["float_calls"] = sum("F(" in x for x in code)
    return {"files": {"m.c": "\n".join(src).encode("latin-1")}, "exp": e, "n": 30, "cov": mix, "vkey": "printf", "sample": code[-1][:150]}


def check(c):
    c.rule = RULE
    c.assumptions = ["Python's correctly rounded float formatting", "DOSBox for the DOS libraries"]
    c.b.inst(("lcl", "lcds", "lcdh", "lcdu", "lcw", "lcm", "lcdp"))
    for t, n in (("linux", (300, 20000)), ("doss", (120, 4000)), ("dost", (30, 500)), ("dosh", (60, 2000)), ("dosu", (60, 2000)), ("win", (40, 2000)), ("macos", (40, 2000)), ("dosp", (24, 1500))):
        prog.explore(c, t, ["%s-%d" % (t, i) for i in range(c.n(*n))], calls, per=10, unit="calls_compared")
        if len(c.viol) >= 10:
            return
