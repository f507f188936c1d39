"""C20: strto*, ato* and the scanf family against own models (exact rational conversion of decimals)."""
import struct

from vt import prog
from vt.clib import cstr, ARENA

TECHNIQUE = "random texts, bases, formats and streams run through every parsing function of several library builds; comparison with exact models, guard pages"
NOTE = ("Random exploration: subject sequences around every limit, decimal ties and their neighbours, formats with widths, suppression, modifiers and sets, "
        "on strings, files (several buffer sizes) and standard input. Decimals beyond the library's documented 112 significant digits only where they do not "
        "matter; out-of-range scanf and ato* values are undefined in C and left out. Windows and macOS executables run in a loader of ours (vt/native/osrun.c), DPMI ones in DOSBox with a host of ours (vt/native/dpmihost.asm).")
RULE = "a case is one call: its result, errno, end pointer or number of items, stored objects, %n counts and the characters left; distinct: one per program (30 calls)"
ERANGE = 34
WS = b" \t\n\v\f\r"


def dec_to_f32(digits, exp):
    """The binary32 bits (rounded to nearest even) of int(digits) * 10**exp."""
    n = int(digits or "0")
    if n == 0:
        return 0
    if len(digits.lstrip("0")) + exp > 60:
        return 0x7f800000
    if len(digits.lstrip("0")) + exp < -60:
        return 0
    num, den = (n * 10 ** exp, 1) if exp >= 0 else (n, 10 ** -exp)
    # 2**e <= num/den < 2**(e+1)
    e = num.bit_length() - den.bit_length()
    if (num if e < 0 else num) * (1 << max(0, -e)) < den * (1 << max(0, e)):
        e -= 1
    q = max(e, -126) - 23            # units of 2**q
    a, b = (num << -q, den) if q < 0 else (num, den << q)
    m, rem = divmod(a, b)
    if 2 * rem > b or 2 * rem == b and m & 1:
        m += 1
    # m < 2**24 + 1
    if m >= 1 << 24:
        m >>= 1
        q += 1
    if m >= 1 << 23:
        E = q + 23 + 127
        return 0x7f800000 if E >= 255 else (E << 23) | (m - (1 << 23))
    return m


def parse_float(s):
    """(length of the subject sequence, bits, overflow, exotic) for the text s (bytes, no leading space)."""
    t = s.decode("latin-1")
    i, neg = 0, False
    if t[:1] in ("-", "+") and t[:1]:
        neg = t[0] == "-"
        i = 1
    low = t[i:].lower()
    sg = 0x80000000 if neg else 0
    if low.startswith("nan"):
        return i + 3, sg | 0x7fc00000, False, low[3:4] == "("
    if low.startswith("inf"):
        return i + (8 if low.startswith("infinity") else 3), sg | 0x7f800000, False, False
    j = i
    while j < len(t) and t[j].isascii() and t[j].isdigit():
        j += 1
    ip, fp = t[i:j], ""
    if t[j:j + 1] == ".":
        k = j + 1
        while k < len(t) and t[k].isascii() and t[k].isdigit():
            k += 1
        fp = t[j + 1:k]
        if ip or fp:
            j = k
    if not ip and not fp:
        return 0, 0, False, False
    ex = 0
    if t[j:j + 1] in ("e", "E") and t[j:j + 1]:
        k = j + 1
        es = 1
        if t[k:k + 1] in ("-", "+") and t[k:k + 1]:
            es = -1 if t[k] == "-" else 1
            k += 1
        l = k
        while l < len(t) and t[l].isascii() and t[l].isdigit():
            l += 1
        if l > k:
            ex = es * int(t[k:l])
            j = l
    d = ip + fp
    sig = d.strip("0")
    u = dec_to_f32(d, ex - len(fp)) if abs(ex) < 10 ** 6 else (0 if not sig or ex < 0 else 0x7f800000)
    exotic = low[:2] == "0x"
    if len(sig) > 112:      # the documented limit: only the first 112 significant digits are looked at
        lead = d.lstrip("0")
        cut = lead[:112]
        if dec_to_f32(cut, ex - len(fp) + len(lead) - 112) != u:
            exotic = True
    return j, sg | u, u == 0x7f800000, exotic


def rdec(r):
    """A decimal text, often next to a rounding boundary."""
    k = r.random()
    if k < 0.25:
        u = r.choice([r.getrandbits(31) % 0x7f800000, r.getrandbits(31) % 0x7f800000, r.randrange(1 << 24), 0x7f7fffff, 0x007fffff, 0x00800000, r.randrange(1, 9)])
        lo = struct.unpack("<f", struct.pack("<I", u))[0]
        hi = struct.unpack("<f", struct.pack("<I", u + 1))[0] if u < 0x7f7fffff else 2.0 ** 128
        m = (lo + hi) / 2                    # exact in binary64
        s = "%.*e" % (r.choice([160, 8, 9, 17, 40, 111]), m)
        mant, e = s.split("e")
        mant = mant.rstrip("0") if r.random() < .8 else mant
        if len(mant) < 110 and r.random() < 0.6:
            d = r.choice(["1", "0000001", "00"])
            if r.random() < 0.5 and mant[-1] in "123456789":
                mant = mant[:-1] + chr(ord(mant[-1]) - 1) + "9" * r.randint(1, 5)
            else:
                mant = mant.rstrip(".") + ("" if "." in mant else ".") + d
        s = mant + "e" + e
        return s
    if k < 0.45:
        return "%d.%s" % (r.choice([0, 1, r.randrange(10 ** r.randint(1, 12))]), "".join(r.choice("0123456789") for _ in range(r.randint(0, 30))))
    if k < 0.6:
        return "%s%s%se%s%d" % ("".join(r.choice("0123456789") for _ in range(r.randint(0, 10))), r.choice([".", "", "."]), "".join(r.choice("0123456789") for _ in range(r.randint(0, 10))), r.choice(["", "-", "+"]), r.choice([0, 1, 5, 38, 39, 44, 45, 46, 50, 300, 2147483647, 2147483648, 4294967296, 99999999999]))
    if k < 0.7:      # very long
        z = "0" * r.choice([10, 40, 111, 112, 113, 150, 300])
        d = str(r.randrange(1, 10 ** r.randint(1, 9)))
        return r.choice([z + d, d + z, "0." + z + d, d + "." + z, d + z + "." + z, d + "." + z + d, z + "." + d, "0." + "1" * 130, "1" * 130 + "e-100", "0." + "3" * 200, "1." + "0" * 140 + "7",
                         "0." + z + d + "e%d" % len(z), d + z + "e-%d" % len(z)])
    if k < 0.8:
        return r.choice(["inf", "INF", "infinity", "INFINITY", "nan", "NaN", "infinit", "in", "na", "i", "n", "inf.", "nano", "Infinityy", "-", "+", ".", ".e1", "e1", "1e", "1e+", "1e-x", "1.e5", ".5e1", "0e5", "0.0", "-0", "00", "1e5e5", "1..2", "--1", "+-1", ""])
    if k < 0.9:
        return "%.*g" % (r.randint(1, 20), struct.unpack("<f", struct.pack("<I", r.getrandbits(31) % 0x7f800000))[0])
    return "%.*f" % (r.randint(0, 12), r.uniform(-1000, 1000) * 10.0 ** r.randint(-8, 8))


HEAD = r"""
#include <stdarg.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
static unsigned char raw_[1200];
unsigned char *B = raw_ + 8;    /* ten slots of 100 bytes */
void pre(void) { memset(raw_, 0x5a, sizeof raw_); errno = 0; }
/* what the slot holds: bytes up to and including the last that is not 0x5a */
void show(int i, int fl) { unsigned char *p = B + i * 100; int n = 100, j; while (n > 0 && p[n - 1] == 0x5a) n--;
  if (fl) { unsigned u; memcpy(&u, p, sizeof u); if ((u & 0x7f800000U) == 0x7f800000U && (u & 0x7fffffU)) u = u & 0x80000000U | 0x7fc00000U; n -= sizeof u; if (n > 0) putchar('@'); px(u); return; }
  for (j = 0; j < n; j++) { putchar("0123456789abcdef"[p[j] >> 4]); putchar("0123456789abcdef"[p[j] & 15]); } putchar(' '); }
int vs(char *s, char *f, ...) { va_list a; int r; va_start(a, f); r = vsscanf(s, f, a); va_end(a); return r; }
int vf(FILE *s, char *f, ...) { va_list a; int r; va_start(a, f); r = vfscanf(s, f, a); va_end(a); return r; }
int vi(char *f, ...) { va_list a; int r; va_start(a, f); r = vscanf(f, a); va_end(a); return r; }
int done(int r, int res) { return r; }
void rest(FILE *f) { int c, n = 0; unsigned h = 0; while ((c = fgetc(f)) != EOF) { h = h * 31 + c; n++; } px(n); px(h); }
char fbuf[64];
FILE *mk(char *s, int n, int mode, int size) { FILE *f = fopen("T.DAT", "wb"); fwrite(s, 1, n, f); fclose(f); f = fopen("T.DAT", "r"); if (mode >= 0) setvbuf(f, size ? fbuf : 0, mode, size); return f; }
FILE *mk(char *s, int n, int mode, int size);
"""
HEAD = HEAD.replace("FILE *mk(char *s, int n, int mode, int size);\n", "")
HEADL = r"""
char *S(unsigned o, char *s, unsigned n) { set(o, s, n); return (char*)A0 + o; }
void tol(char *s, int base, int u) { char *e = 0; unsigned v; errno = 0; if (u == 2) v = strtoul(s, &e, base); else v = strtol(s, &e, base); px(v); px(e - s); px(errno); nl(); }
void pf(float f) { union { float f; unsigned u; } x; x.f = f; if ((x.u & 0x7f800000U) == 0x7f800000U && (x.u & 0x7fffffU)) x.u = x.u & 0x80000000U | 0x7fc00000U; px(x.u); }
void tof(char *s, int how) { char *e = 0; errno = 0; if (how == 1) pf(strtof(s, &e)); else pf((float)strtod(s, &e)); px(e - s); px(errno == ERANGE); nl(); }
"""


def rint_text(r, base):
    k = r.random()
    digs = "0123456789abcdefghijklmnopqrstuvwxyz"[:base]

    def inbase(n):
        s = ""
        while True:
            s = digs[n % base] + s
            n //= base
            if not n:
                return s
    if k < 0.5:
        n = r.choice([0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0x100000000, 0x100000001, (1 << 32) * base, r.getrandbits(33), r.getrandbits(16), r.getrandbits(70)])
        s = inbase(n)
    else:
        s = "".join(r.choice(digs) for _ in range(r.randint(0, 14)))
    s = "".join(ch.upper() if r.random() < .3 else ch for ch in s)
    return s


def strtoint(s, base, unsigned):
    """(value, end, erange)."""
    i = 0
    while i < len(s) and s[i] in WS:
        i += 1
    neg = False
    if s[i:i + 1] in (b"-", b"+") and i < len(s):
        neg = s[i] == 45
        i += 1

    def dig(ch):
        c = chr(ch)
        if "0" <= c <= "9":
            return ord(c) - 48
        if "a" <= c.lower() <= "z":
            return ord(c.lower()) - 87
        return 99
    if base in (0, 16) and s[i:i + 2].lower() == b"0x" and len(s) > i + 2 and dig(s[i + 2]) < 16:
        base = 16
        i += 2
    elif base == 0:
        base = 8 if s[i:i + 1] == b"0" else 10
    j, v = i, 0
    while j < len(s) and dig(s[j]) < base:
        v = v * base + dig(s[j])
        j += 1
    if j == i:
        return 0, 0, False
    if unsigned:
        if v > 0xffffffff:
            return 0xffffffff, j, True
        return (-v if neg else v) & 0xffffffff, j, False
    v = -v if neg else v
    if v > 0x7fffffff:
        return 0x7fffffff, j, True
    if v < -0x80000000:
        return 0x80000000, j, True
    return v & 0xffffffff, j, False


def numbers(c, key, target):
    r = c.rng("numbers", key)
    bits = 16 if target in ("dost", "doss") else 32
    N = 600
    code, exp, mix = [], [], {}
    h = "%%0%dx " % (bits // 4)
    M = (1 << bits) - 1
    while len(exp) < 40:
        lead = "".join(r.choice(" \t\n\v\f\r") for _ in range(r.choice([0, 0, 0, 1, 3])))
        sign = r.choice(["", "", "-", "+", "-"])
        tail = r.choice(["", "", "", " ", "x", "g", ".", "\200", "-", "z9", "\377"])
        how = r.choice(["strtol", "strtoul", "atoi", "atol"] + ["strtof"] * 4 + ["strtod", "atof"]) if bits == 32 else "atoi"
        if how in ("strtol", "strtoul"):
            base = r.choice([0, 0, 10, 16, 8, 2, 36, r.randint(2, 36)])
            bb = base or r.choice([8, 10, 16])
            pre = {16: r.choice(["0x", "0X", "", "0x0"]), 8: r.choice(["0", "", "00"])}.get(bb, r.choice(["", "", "0"])) if base in (0, 8, 16) else r.choice(["", "", "0", "0x"])
            s = (lead + sign + pre + rint_text(r, bb) + tail).encode("latin-1")
            if r.random() < 0.1:
                s = r.choice([b"", b" ", b"-", b"0x", b"0xg", b"-0x", b" +0xz", b"0", b"-0", b"08", b"z", b"--1", b"+ 1", b"\t-"])
            v, e, er = strtoint(s, base, how == "strtoul")
            code.append("tol(S(%d, %s, %d), %d, %d);" % (N - len(s) - 1, cstr(s), len(s) + 1, base, 1 + (how == "strtoul")))
            exp.append(h % v + h % e + h % (ERANGE if er else 0))
        elif how in ("atoi", "atol"):
            v = r.choice([0, 1, M >> 1, (M >> 1) - 1, -(M >> 1), -(M >> 1) - 1, r.randint(-(M >> 1), M >> 1), r.randint(-99, 99)])
            s = (lead + ("-" if v < 0 else r.choice(["", "+"])) + r.choice(["", "0", "000"]) + str(abs(v)) + tail).encode("latin-1")
            if r.random() < 0.1:
                s, v = r.choice([(b"", 0), (b"-", 0), (b"x1", 0), (b"+ 1", 0), (b"--3", 0), (b" +7-", 7), (b"\n\r\v\f\t -12", -12)])
            elif tail == "z9":
                pass
            code.append("px(%s(S(%d, %s, %d))); nl();" % (how, N - len(s) - 1, cstr(s), len(s) + 1))
            exp.append(h % (v & M))
        else:
            t = rdec(r)
            if t[:1] in "-+":
                sign = ""
            s = (lead + sign + t + tail).encode("latin-1")
            if len(s) > N - 2:
                continue
            n, u, over, exotic = parse_float(s.lstrip(WS))
            if exotic:
                continue
            over = over and b"inf" not in s.lower()
            if how == "atof":
                if over:
                    continue
                code.append("pf((float)atof(S(%d, %s, %d))); nl();" % (N - len(s) - 1, cstr(s), len(s) + 1))
                exp.append(h % u)
            else:
                code.append("tof(S(%d, %s, %d), %d);" % (N - len(s) - 1, cstr(s), len(s) + 1, 1 + (how == "strtod")))
                # underflow may or may not set errno: only ask where the result is normal or zero input
                m = u & 0x7fffffff
                e = n + (len(s) - len(s.lstrip(WS))) if n else 0
                line = h % u + h % e + h % over
                if not over and m < 0x00800000:
                    code[-1] = code[-1].replace("tof(", "errno = 0; tof(")
                exp.append(line)
        mix["calls." + how] = mix.get("calls." + how, 0) + 1
    return build(target, bits, N, code, exp, mix, "numbers", HEADL)


def build(target, bits, N, code, exp, mix, vkey, extra):
    src = ["#define ARENA_N %d\n#define ARENA_P 4096\n#include <stdio.h>" % N, ARENA, HEAD]
    if bits == 32:
        src.append(extra)
    else:
        src.append("char *S(unsigned o, char *s, unsigned n) { set(o, s, n); return (char*)A0 + o; }")
        src[2] = src[2].replace("if ((u & 0x7f800000U) == 0x7f800000U && (u & 0x7fffffU)) u = u & 0x80000000U | 0x7fc00000U;", "")
    fns = ""
    for k in range(0, len(code), 10):
        src.append("void m%d(void) { int r; FILE *f; %s }" % (k, "\n".join(code[k:k + 10])))
        fns += "m%d(); " % k
    src.append("int main(void) { arena(1); fill(1); %s return 0; }" % fns)
    return {"files": {"m.c": "\n".join(src).encode("latin-1")}, "exp": "".join(x + "\n" for x in exp).encode("latin-1"), "n": len(exp), "cov": mix, "vkey": vkey,
            "sample": code[-1][:160]}


class Skip(Exception):
    pass


def scan_item(conv, width, s, p):
    """Reads the input item of a numeric conversion: (text, matches)."""
    w = width or 10 ** 9
    lim = min(len(s), p + w)
    if conv == "f":
        # longest prefix of a matching sequence
        t = s[p:lim].decode("latin-1")
        i = 0
        if t[:1] and t[0] in "+-":
            i = 1
        low = t[i:].lower()
        for word in ("infinity", "nan"):
            if low[:1] and low[0] == word[0]:
                k = 0
                while k < len(low) and k < len(word) and low[k] == word[k]:
                    k += 1
                if word == "nan" and low[3:4] == "(" or low[:2] == "0x":
                    raise Skip
                return t[:i + k], k == len(word) or word == "infinity" and k == 3
        if low[:2] == "0x":
            raise Skip
        j = i
        nd = 0
        while j < len(t) and t[j] in "0123456789":
            j += 1
            nd += 1
        if j < len(t) and t[j] == ".":
            j += 1
            while j < len(t) and t[j] in "0123456789":
                j += 1
                nd += 1
        if not nd:
            return t[:j], False
        if j < len(t) and t[j] in "eE":
            j += 1
            if j < len(t) and t[j] in "+-":
                j += 1
            k = j
            while j < len(t) and t[j] in "0123456789":
                j += 1
            return t[:j], j > k
        return t[:j], True
    base = {"d": 10, "u": 10, "o": 8, "x": 16, "X": 16, "i": 0}[conv]
    i = p
    if i < lim and s[i] in b"+-":
        i += 1
    st = i
    hexp = False
    if base in (0, 16) and i < lim and s[i] == 48:
        i += 1
        if i < lim and s[i] in b"xX":
            i += 1
            hexp = True
            base = 16
            st = i
        elif base == 0:
            base = 8
    elif base == 0:
        base = 10
    digs = b"0123456789abcdef"[:base] + (b"ABCDEF" if base == 16 else b"")
    while i < lim and s[i] in digs:
        i += 1
    return s[p:i].decode("latin-1"), i > st


def one_scan(r, bits, floats):
    """(format, input, args (slot kinds), ret, slots {i: expected hex text}, chars consumed)."""
    M = (1 << bits) - 1
    fmt, inp = b"", b""
    dirs = []
    for _ in range(r.choice([1, 1, 2, 3, r.randint(1, 6)])):
        k = r.choice("wl%ddddiuoxXscc[[nn" + ("ffffff" if floats else ""))
        d = {"k": k, "w": None, "sup": False, "ln": ""}
        if k == "w":
            d["t"] = r.choice([b" ", b"\n", b"\t ", b"  "])
        elif k == "l":
            d["t"] = r.choice([b",", b"ab", b":", b"-", b"0x", b"\377"])
        elif k == "%":
            d["t"] = b"%%"
        else:
            if r.random() < 0.35 and k != "n":
                d["w"] = r.choice([1, 2, 3, 5, 10, r.randint(1, 20)])
            if k in "s[" and d["w"] is None:
                d["w"] = 40 if r.random() < .5 else None
            d["sup"] = r.random() < 0.15 and k != "n"
            if k in "diuoxXn":
                d["ln"] = r.choice(["", "", "h", "hh", "j", "z", "t"] + (["l", "l"] if bits == 32 else []))
            elif k == "f":
                d["ln"] = r.choice(["", "", "l", "L"])
                d["cv"] = r.choice("fFeEgG")
            elif k == "[":
                chars = bytes(r.sample(b"abcxyz019 \n,:^\377\200", r.randint(1, 8)))
                neg = r.random() < 0.5
                if chars[:1] == b"^":
                    chars = b"a" + chars
                br = r.random() < 0.3
                d["set"] = set(chars) | ({93} if br else set())
                d["neg"] = neg
                d["txt"] = b"[" + (b"^" if neg else b"") + (b"]" if br else b"") + chars + b"]"
        dirs.append(d)
    # text for them, sometimes spoiled
    for d in dirs:
        k = d["k"]
        if k == "w":
            fmt += d["t"]
            inp += r.choice([b"", b" ", b"\n\t ", b"  "])
            continue
        if k in "l%":
            fmt += d["t"]
            inp += b"%" if k == "%" else d["t"]
            continue
        fmt += b"%" + (b"*" if d["sup"] else b"") + (str(d["w"]).encode() if d["w"] else b"") + d["ln"].encode() + \
            (d["txt"] if k == "[" else d["cv"].encode() if k == "f" else k.encode())
        if k not in "c[n" and r.random() < 0.4:
            inp += r.choice([b" ", b"\n", b" \t"])
        if k in "diuoxX":
            b = {"h": 16, "hh": 8}.get(d["ln"], bits)
            v = r.choice([0, 1, (1 << (b - 1)) - 1, r.getrandbits(b - 1), r.randint(0, 99)])
            base = {"d": 10, "u": 10, "o": 8, "i": r.choice([8, 10, 16])}.get(k, 16)
            t = {10: "%d", 8: "%o", 16: r.choice(["%x", "%X"])}[base] % v
            if k == "i":
                t = {10: "", 8: "0", 16: r.choice(["0x", "0X"])}[base] + t if base != 10 or v else "0"
            elif base == 16 and r.random() < 0.4:
                t = r.choice(["0x", "0X", "0", "00"]) + t
            elif r.random() < 0.2 and k != "i":
                t = "00" + t
            inp += (r.choice(["", "", "-", "+"]) + t).encode()
        elif k == "f":
            t = rdec(r)[:120]
            inp += (r.choice(["", "", "-", "+"]) + t).encode() if t[:1] not in "+-" else t.encode()
        elif k == "s":
            inp += bytes(r.choice(b"abcXYZ019.%-\377") for _ in range(r.randint(1, 20)))
        elif k == "c":
            inp += bytes(r.choice(b"abc XY\n\377") for _ in range(d["w"] or 1))
        elif k == "[":
            good = [x for x in b"abcxyz019 \n,:^]\377\200QW" if (x in d["set"]) != d["neg"]] or [65]
            inp += bytes(r.choice(good) for _ in range(r.randint(1, 15)))
    k = r.random()
    if k < 0.25:
        inp = inp[:r.randint(0, len(inp))]
    elif k < 0.45 and inp:
        i = r.randrange(len(inp))
        inp = inp[:i] + bytes([r.choice(b"x-+.e0 9zg\n,")]) + inp[i:]
    elif k < 0.75:
        inp += r.choice([b" ", b"1", b"x", b".5", b"abc", b"e", b"\n"])
    # the model
    p, cnt, slots, args = 0, 0, {}, []
    some = False     # some conversion completed
    ret = None
    hx = lambda b: "".join("%02x" % x for x in b)
    for d in dirs:
        k = d["k"]
        if k == "w":
            while p < len(inp) and inp[p] in WS:
                p += 1
            continue
        if k in "l%":
            for ch in (d["t"] if k == "l" else b"%"):
                if k == "%":
                    while p < len(inp) and inp[p] in WS:
                        p += 1
                if p >= len(inp):
                    ret = "input"
                    break
                if inp[p] != ch:
                    ret = "match"
                    break
                p += 1
            if ret:
                break
            continue
        if k == "n":
            sz = {"h": 2, "hh": 1}.get(d["ln"], bits // 8)
            slots[len(args)] = hx((p & ((1 << 8 * sz) - 1)).to_bytes(sz, "little"))
            args.append(False)
            continue
        if k not in "c[":
            while p < len(inp) and inp[p] in WS:
                p += 1
        if p >= len(inp):
            ret = "input"
            break
        val = None
        if k == "c":
            w = d["w"] or 1
            it = inp[p:p + w]
            p += len(it)
            if len(it) < w:
                raise Skip      # the partly filled array is nobody's business
            val = it
        elif k in "s[":
            q = p
            lim = min(len(inp), p + (d["w"] or 10 ** 9))
            while q < lim and (inp[q] not in WS if k == "s" else (inp[q] in d["set"]) != d["neg"]):
                q += 1
            if q == p:
                ret = "match"
                break
            val = inp[p:q] + b"\0"
            p = q
        else:
            t, ok = scan_item("f" if k == "f" else k, d["w"], inp, p)
            p += len(t)
            if not ok and p == len(inp) and not cnt:
                raise Skip      # an incomplete item at the end of input: the library says EOF on purpose, C and others 0
            if not ok:
                ret = "match"
                break
            if k == "f":
                n, u, over, exotic = parse_float(t.encode("latin-1"))
                if exotic or over and "inf" not in t.lower():
                    raise Skip
                val = u
            else:
                body = t.lstrip("+-")
                if k in "xX" or k == "i" and body[:2].lower() == "0x":
                    v = int(body[2:] if body[:2].lower() == "0x" else body, 16)
                elif k == "o" or k == "i" and body[0] == "0":
                    v = int(body, 8)
                else:
                    v = int(body)
                if t[0] == "-":
                    v = -v
                b = {"h": 16, "hh": 8}.get(d["ln"], bits)
                if k in "di" and not -(1 << (b - 1)) <= v < 1 << (b - 1) or k not in "di" and abs(v) >= 1 << b:
                    if not d["sup"]:
                        raise Skip
                val = (v & ((1 << b) - 1)).to_bytes(b // 8, "little")
        some = True
        if not d["sup"]:
            i = len(args)
            args.append(k == "f")
            cnt += 1
            if k == "f":
                slots[i] = "%08x" % val
            else:
                v = bytes(val)
                if v[-1:] == b"\x5a":
                    raise Skip
                if len(v) > 95:
                    raise Skip
                slots[i] = hx(v)
    if ret == "input" and not cnt:
        if some:
            raise Skip       # C99 and C11 disagree with each other and with practice after suppressed conversions
        ret = -1
    else:
        ret = cnt
    # the arguments of the directives that were not reached
    nargs = sum(1 for d in dirs if d["k"] not in "wl%" and not d["sup"])
    fl = [d["k"] == "f" for d in dirs if d["k"] not in "wl%" and not d["sup"]]
    return fmt, inp, nargs, fl, ret, slots, p


def scans(c, key, target):
    r = c.rng("scans", key)
    bits = 16 if target in ("dost", "doss") else 32
    N = 600
    code, exp, mix = [], [], {}
    h = "%%0%dx " % (bits // 4)
    M = (1 << bits) - 1
    stdin = b""
    std = target == "linux" and r.random() < .3
    while len(exp) < 30:
        try:
            fmt, inp, nargs, fl, ret, slots, used = one_scan(r, bits, bits == 32)
        except Skip:
            continue
        if nargs > 10 or b"\0" in inp or b"\0" in fmt:
            continue
        if (b"%n" in fmt or b"hn" in fmt) and any(s.endswith("5a") for s in slots.values()):
            continue
        how = r.choice(["sscanf", "sscanf", "vsscanf", "fscanf", "fscanf", "vfscanf"])
        last = std and len(exp) == 29
        if last:
            how = r.choice(["scanf", "vscanf"])
        if b"\r" in inp or b"\x1a" in inp:
            how = "sscanf"
        al = "".join(", B + %d" % (100 * i) for i in range(nargs))
        o = N - len(inp) - 1
        if how in ("sscanf", "vsscanf"):
            code.append("pre(); r = %s(S(%d, %s, %d), %s%s); px(r);" % ("sscanf" if how == "sscanf" else "vs", o, cstr(inp), len(inp) + 1, cstr(fmt), al))
        elif last:
            stdin = inp
            code.append("pre(); r = %s(%s%s); px(r);" % ("scanf" if how == "scanf" else "vi", cstr(fmt), al))
        else:
            mode, size = r.choice([(-1, 0), ("_IONBF", 0), ("_IOFBF", 1), ("_IOFBF", 2), ("_IOFBF", 7), ("_IOFBF", 64), ("_IOLBF", 5)])
            code.append("pre(); f = mk(S(%d, %s, %d), %d, %s, %d); r = %s(f, %s%s); px(r);" % (o, cstr(inp), len(inp) + 1, len(inp), mode, size, "fscanf" if how == "fscanf" else "vf", cstr(fmt), al))
        line = h % (ret & M)
        for i in range(nargs):
            code[-1] += " show(%d, %d);" % (i, fl[i])
            line += (slots.get(i, "5a5a5a5a" if fl[i] else "")) + " "
        if how in ("fscanf", "vfscanf") or last:
            code[-1] += " rest(%s);" % ("stdin" if last else "f") + ("" if last else " fclose(f);")
            hv = 0
            for x in inp[used:]:
                hv = (hv * 31 + x) & M
            line += h % (len(inp) - used) + h % hv
        code[-1] += " nl();"
        exp.append(line)
        mix["calls." + how] = mix.get("calls." + how, 0) + 1
        mix["outcome." + ("eof" if ret < 0 else "partial" if ret < nargs else "all")] = mix.get("outcome." + ("eof" if ret < 0 else "partial" if ret < nargs else "all"), 0) + 1
    e = build(target, bits, N, code, exp, mix, "scanf", HEADL)
    if std:
        e["stdin"] = stdin
    return e


def check(c):
    c.rule = RULE
    c.assumptions = ["the model's reading of C11 7.21.6.2 and 7.22.1; DOSBox for the DOS libraries"]
    c.b.inst(("lcl", "lcds", "lcdh", "lcdu", "lcw", "lcm", "lcdp"))
    for t, n in (("linux", (240, 15000)), ("doss", (60, 2000)), ("dost", (20, 300)), ("dosh", (60, 2000)), ("dosu", (40, 1500)), ("win", (40, 2000)), ("macos", (40, 2000)), ("dosp", (24, 1500))):
        for mk in (numbers, scans):
            prog.explore(c, t, ["%s-%d" % (t, i) for i in range(c.n(*n))], mk, per=10, unit="calls_compared")
            if len(c.viol) >= 10:
                return
