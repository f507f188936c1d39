"""C23: string, memory, ctype, search, sort functions against a byte-array model, on the 32-bit and 16-bit libraries."""
from vt import prog
from vt.clib import Arena, cstr

TECHNIQUE = "random calls run on every library build; comparison of results and of all memory with a byte-array model, over-reads trapped by guard pages"
NOTE = ("Random exploration of arguments and overlaps, with buffers next to inaccessible pages on Linux; every call's result and a hash of the whole "
        "arena are compared with a model. ctype functions and abs/labs-type boundaries are enumerated. Assumes the model, DOSBox. Windows and macOS executables run in a loader of ours (vt/native/osrun.c), DPMI ones in DOSBox with a host of ours (vt/native/dpmihost.asm).")
RULE = ("a case is one call of a library function with its arguments placed in a byte arena; its result and the arena's new contents "
        "are compared with a model; distinct: one per generated program (about 60 calls)")


def rbytes(r, n, alpha):
    return bytes(r.choice(alpha) for _ in range(n))


ALPHAS = [list(range(1, 256)), [97, 98], [97, 98, 99], [0x7f, 0x80, 0x81, 0xff, 1], [0xff, 0xfe, 1], list(b"abc ,;")]


def sign(v):
    return (v > 0) - (v < 0)


def cmpb(a, b):
    return (a > b) - (a < b)


def sref(a, o):
    return "(char*)A + %d" % o


def strings(c, key, target):
    r = c.rng("str", key)
    bits = 16 if target in ("dost", "doss") else 32
    big = r.random() < 0.12
    N = 24000 if big else 600
    a = Arena(N, bits, r.random() < 0.75)
    mx = 6000 if big else r.choice([8, 40, 150])
    calls = 0
    mix = {}

    def place(n, others=()):
        """A position for n bytes: often at either end of the arena, clear of the others."""
        for _ in range(100):
            o = r.choice([0, N - n, N - n, r.randint(0, N - n), r.randint(0, N - n)])
            if all(o + n <= p or p + m <= o for p, m in others):
                return o
        return None

    while calls < (12 if big else 60):
        al = r.choice(ALPHAS)
        ln = r.choice([0, 1, 2, r.randint(0, mx), r.randint(0, mx)])
        f = r.choice(["memset", "memcpy", "memmove", "memmove", "memchr", "memcmp", "strcpy", "strncpy", "strxfrm", "strcat", "strncat", "strlen",
                      "strchr", "strrchr", "strstr", "strspn", "strcspn", "strpbrk", "strtok", "strcmp", "strcmp", "strncmp", "strncmp", "strcoll", "strerror"])
        a.fill(r.choice([1, 3, 7, 251, 85]))
        ch = r.choice([r.choice(al), 0, r.randint(-128, 300)])
        chb = ch & 255
        if f in ("strcmp", "strcoll", "strncmp", "memcmp"):
            s = rbytes(r, ln, al)
            k = r.random()
            if k < 0.3:
                t = s
            elif k < 0.6 and s:
                i = r.randrange(len(s))
                t = s[:i] + bytes([r.choice(al)]) + s[i + 1:]
            elif k < 0.8:
                t = s[:r.randint(0, len(s))]
            else:
                t = s + rbytes(r, r.randint(0, 3), al)
            if f == "memcmp":
                s, t = s[:min(len(s), len(t))], t[:min(len(s), len(t))]
                if r.random() < 0.3:
                    s, t = s.replace(b"\xff", b"\0"), t.replace(b"\xff", b"\0")
                n = len(s)
                o = place(n)
                p = place(n, [(o, n)])
                if p is None:
                    continue
                a.set(o, s)
                a.set(p, t)
                a.do("px(sg(memcmp(A + %d, A + %d, %d)));" % (o, p, n), cmpb(s, t))
            else:
                o = place(len(s) + 1)
                p = place(len(t) + 1, [(o, len(s) + 1)])
                if p is None:
                    continue
                if r.random() < 0.05:
                    p, t = o, s
                a.set(o, s + b"\0")
                if p != o:
                    a.set(p, t + b"\0")
                if f == "strncmp":
                    n = r.choice([0, 1, len(s), len(s) + 1, len(t), max(0, len(t) - 1), r.randint(0, mx + 5), 0xffff if bits == 16 else 0xffffffff])
                    a.do("px(sg(strncmp(%s, %s, %dU)));" % (sref(a, o), sref(a, p), n), cmpb(s[:n], t[:n]))
                    # no terminator within n
                    n = min(len(s), len(t))
                    if n:
                        o, p = place(n), None
                        p = place(n, [(o, n)])
                        if p is not None:
                            a.set(o, s[:n])
                            a.set(p, t[:n])
                            a.do("px(sg(strncmp(%s, %s, %dU)));" % (sref(a, o), sref(a, p), n), cmpb(s[:n], t[:n]))
                else:
                    a.do("px(sg(%s(%s, %s)));" % (f, sref(a, o), sref(a, p)), cmpb(s, t))
        elif f == "memset":
            o = place(ln)
            a.off("memset(A + %d, %d, %d)" % (o, ch, ln), o)
            a.m[o:o + ln] = bytes([chb]) * ln
        elif f in ("memcpy", "memmove"):
            o = place(ln)
            if f == "memcpy":
                p = place(ln, [(o, ln)])
            else:
                p = r.choice([o, max(0, o - r.randint(0, ln + 1)), min(N - ln, o + r.randint(0, ln + 1)), place(ln)])
            if p is None:
                continue
            a.off("%s(A + %d, A + %d, %d)" % (f, p, o, ln), p)
            a.m[p:p + ln] = bytes(a.m[o:o + ln])
        elif f == "memchr":
            s = rbytes(r, ln, al + [0])
            o = place(ln)
            a.set(o, s)
            n = r.choice([ln, r.randint(0, ln)])
            i = s.find(bytes([chb]), 0, n)
            a.off("memchr(%s, %d, %d)" % (sref(a, o), ch, n), None if i < 0 else o + i)
        elif f in ("strlen", "strchr", "strrchr"):
            s = rbytes(r, ln, al)
            o = place(ln + 1)
            a.set(o, s + b"\0")
            if f == "strlen":
                a.do("px(strlen(%s));" % sref(a, o), ln)
            else:
                z = s + b"\0"
                i = z.find(bytes([chb])) if f == "strchr" else z.rfind(bytes([chb]))
                a.off("%s(%s, %d)" % (f, sref(a, o), ch), None if i < 0 else o + i)
        elif f in ("strstr", "strspn", "strcspn", "strpbrk"):
            s = rbytes(r, ln, al)
            k = r.random()
            if f == "strstr":
                i = r.randint(0, len(s))
                t = s[i:i + r.randint(0, 6)] if k < 0.5 else s[i:] + rbytes(r, 1, al) if k < 0.6 else rbytes(r, r.randint(0, 4), al)
                if k > 0.9 and len(s) > 2:
                    t = s[1:-1] + bytes([s[-1] ^ 1 or 1])
            else:
                t = rbytes(r, r.randint(0, 5), al)
            o = place(len(s) + 1)
            p = place(len(t) + 1, [(o, len(s) + 1)])
            if p is None:
                continue
            a.set(o, s + b"\0")
            a.set(p, t + b"\0")
            if f == "strstr":
                i = s.find(t)
                a.off("strstr(%s, %s)" % (sref(a, o), sref(a, p)), None if i < 0 else o + i)
            elif f == "strpbrk":
                i = next((i for i, x in enumerate(s) if x in t), None)
                a.off("strpbrk(%s, %s)" % (sref(a, o), sref(a, p)), None if i is None else o + i)
            else:
                i = next((i for i, x in enumerate(s) if (x in t) == (f == "strcspn")), len(s))
                a.do("px(%s(%s, %s));" % (f, sref(a, o), sref(a, p)), i)
        elif f == "strerror":
            e = r.choice([0, 1, -1, r.randint(-32768, 32767)])
            a.do("{ char *s = strerror(%d); px(s != 0 && strlen(s) > 0 && strlen(s) < 64); }" % e, 1)
        elif f == "strtok":
            s = rbytes(r, r.randint(0, 30), list(b"ab,;. "))
            o = place(len(s) + 1)
            a.set(o, s + b"\0")
            pos = o            # model: next position or None
            first = True
            for _ in range(r.randint(1, 9)):
                d = r.choice([b",", b",;", b" ", b",;. ", b"", b"x", b"a", b"ab"])
                if not first and pos is None and r.random() < 0.7:
                    break
                code = "strtok(%s, %s)" % (sref(a, o) if first else "0", cstr(d))
                first = False
                if pos is None:
                    a.off(code, None)
                    continue
                q = pos
                while a.m[q] and a.m[q] in d:
                    q += 1
                if not a.m[q]:
                    pos = None
                    a.off(code, None)
                    continue
                e = q
                while a.m[e] and a.m[e] not in d:
                    e += 1
                if a.m[e]:
                    a.m[e] = 0
                    pos = e + 1
                else:
                    pos = None
                    a.off(code, q)
                    # after the last token a further call gives NULL whatever the delimiters
                    a.off("strtok(0, %s)" % cstr(r.choice([b",", b";", b""])), None)
                    continue
                a.off(code, q)
        else:   # strcpy strncpy strxfrm strcat strncat
            s = rbytes(r, ln, al)
            pre = rbytes(r, r.randint(0, 20), al) if "cat" in f else b""
            n = r.choice([0, 1, ln, ln + 1, max(0, ln - 1), r.randint(0, ln + 40)])
            if f == "strcpy":
                need = ln + 1
            elif f == "strncpy":
                need = n
            elif f == "strxfrm":
                need = n
            elif f == "strcat":
                need = len(pre) + ln + 1
            else:
                need = len(pre) + min(n, ln) + 1
            term = True
            if f in ("strncpy", "strncat") and n <= ln and r.random() < 0.5:
                # the source need not be terminated within n
                s, ln, term = s[:n], n, False
            slen = ln + (1 if term else 0)
            o = place(slen)
            p = place(need, [(o, slen)])
            if p is None:
                continue
            a.set(o, s + (b"\0" if term else b""))
            if pre or "cat" in f:
                a.set(p, pre + b"\0")
            S, D = sref(a, o), sref(a, p)
            if f == "strcpy":
                a.off("strcpy(%s, %s)" % (D, S), p)
                a.m[p:p + ln + 1] = s + b"\0"
            elif f == "strncpy":
                a.off("strncpy(%s, %s, %d)" % (D, S, n), p)
                a.m[p:p + n] = (s + b"\0" * n)[:n]
            elif f == "strxfrm":
                a.do("px(strxfrm(%s, %s, %d));" % (D if n or r.random() < .5 else "0", S, n), ln)
                if ln < n:
                    a.m[p:p + ln + 1] = s + b"\0"
                else:
                    # contents are indeterminate within n: make them known again
                    a.code.append("{ unsigned i; for (i = 0; i < %d; i++) A0[%d + i] = 7; }" % (n, p))
                    a.m[p:p + n] = b"\7" * n
            elif f == "strcat":
                a.off("strcat(%s, %s)" % (D, S), p)
                a.m[p:p + need] = pre + s + b"\0"
            else:
                a.off("strncat(%s, %s, %d)" % (D, S, n), p)
                a.m[p:p + need] = pre + s[:n] + b"\0"
        a.all()
        calls += 1
        mix["calls." + f] = mix.get("calls." + f, 0) + 1
    src, exp = a.program(["string.h"])
    return {"files": {"m.c": src}, "exp": exp, "n": calls, "cov": mix, "vkey": "string"}


SORT = r"""
#include <stdlib.h>
static unsigned bad, mode, esz, cnt;
static unsigned char *base; static unsigned char kb[32];
static int key(unsigned char *p) { unsigned k = esz > 1 ? p[0] + p[1] * 256 : p[0];
  switch (mode) { case 0: return p[0]; case 1: return -p[0]; case 2: return 0; case 3: return p[0] & 3; case 4: return (k * 7 + 3) & 1023; case 5: return p[esz - 1]; default: return (signed char)p[0]; } }
static int cmp(void *a, void *b) { unsigned i = (unsigned char*)a - base, j = (unsigned char*)b - base;
  if (i >= cnt * esz || i % esz || j >= cnt * esz || j % esz) bad++;
  { int x = key(a), y = key(b); return x < y ? -1 - (x & 7) : x > y ? 1 + (y & 3) * 100 : 0; } }
static int bcmp_(void *a, void *b) { unsigned j = (unsigned char*)b - base;
  if ((unsigned char*)a != kb || j >= cnt * esz || j % esz) bad++;
  { int x = key(a), y = key(b); return x < y ? -300 : x > y ? 2 : 0; } }
static unsigned sum(void) { unsigned s = 0, i, j, h; for (i = 0; i < cnt; i++) { h = 7; for (j = 0; j < esz; j++) h = h * 31 + base[i * esz + j]; s += h * h + h; } return s; }
void sorttest(unsigned n, unsigned e, unsigned m, unsigned seed, unsigned mul) {
  unsigned i, x = seed; unsigned s;
  cnt = n; esz = e; mode = m; bad = 0; base = A0 + AN - n * e;
  fill(3);
  for (i = 0; i < n * e; i++) { x = (x * mul + 12345) & 0xffff; base[i] = x >> 7; }
  s = sum();
  qsort(base, n, e, cmp);
  px(s == sum());
  for (i = 1; i < n; i++) if (key(base + (i - 1) * e) > key(base + i * e)) bad++;
  px(bad);
  hsh(0, AN - n * e);
  for (i = 0; i < 12; i++) {
    unsigned char *p; unsigned j, has = 0;
    for (j = 0; j < e; j++) { x = (x * mul + 12345) & 0xffff; kb[j] = x >> 7; }
    if (n && (i & 1)) for (j = 0; j < e; j++) kb[j] = base[((x + i) % n) * e + j];
    for (j = 0; j < n; j++) if (key(base + j * e) == key(kb)) has = 1;
    p = bsearch(kb, base, n, e, bcmp_);
    if (p && ((unsigned)(p - base) >= n * e || (p - base) % e || key(p) != key(kb)) || !p != !has) bad++;
  }
  px(bad); px(s == sum()); if (guards()) px(0xbad); nl();
}
"""


def sorting(c, key, target):
    r = c.rng("sort", key)
    bits = 16 if target in ("dost", "doss") else 32
    N = 4000
    a = Arena(N, bits, 1)
    for _ in range(8):
        e = r.choice([1, 2, 3, 4, 5, 7, 8, 12, 20, 32])
        n = r.choice([0, 1, 2, 3, r.randint(0, 20), r.randint(0, min(200, N // e))])
        if n * e > N:
            continue
        m = bytearray((i * 3 + (i >> 3)) & 255 for i in range(N))
        a.m = m
        a.do("sorttest(%d, %d, %d, %d, %d);" % (n, e, r.randrange(7), r.randrange(65536) & 0x7fff, r.choice([4005, 1, 25173, 13])), 1, 0,
             a.hash(0, N - n * e), 0, 1)
        a.out.append("".join(a.line) + "\n")
        a.line = []
    src, exp = a.program(["string.h"], extra=SORT)
    return {"files": {"m.c": src}, "exp": exp, "n": exp.count(b"\n"), "cov": {"calls.qsort": exp.count(b"\n"), "calls.bsearch": 12 * exp.count(b"\n")}, "vkey": "sort"}


def misc(c, key, target):
    """ctype exhaustively; abs, labs, div, ldiv, rand."""
    r = c.rng("misc", key)
    bits = 16 if target in ("dost", "doss") else 32
    out = []
    code = []
    import string
    cls = {"isalnum": string.ascii_letters + string.digits, "isalpha": string.ascii_letters, "isblank": " \t",
           "iscntrl": "".join(map(chr, list(range(32)) + [127])), "isdigit": string.digits, "isgraph": "".join(map(chr, range(33, 127))),
           "islower": string.ascii_lowercase, "isprint": "".join(map(chr, range(32, 127))), "ispunct": string.punctuation,
           "isspace": " \t\n\v\f\r", "isupper": string.ascii_uppercase, "isxdigit": string.hexdigits}
    for f, s in cls.items():
        code.append("for (i = -1; i < 256; i++) putchar(%s(i) ? '1' : '0'); nl();" % f)
        out.append("".join("1" if i >= 0 and chr(i) in s else "0" for i in range(-1, 256)))
    for f, g in (("tolower", str.lower), ("toupper", str.upper)):
        code.append("for (i = -1; i < 256; i++) px(%s(i)); nl();" % f)
        out.append("".join("%0*x " % (bits // 4, (ord(g(chr(i))) if 0 <= i < 128 else i) & ((1 << bits) - 1)) for i in range(-1, 256)))
    mx = (1 << (bits - 1)) - 1
    edge = [0, 1, -1, mx, -mx, -mx - 1, 2, -2, 10, 7, -7]

    def lit(v):
        return "(-%d-1)" % mx if v == -mx - 1 else "(%d)" % v
    M = (1 << bits) - 1
    line = []
    for _ in range(60):
        x = r.choice(edge + [r.randint(-mx, mx), r.randint(-1000, 1000)])
        y = r.choice(edge + [r.randint(-mx, mx), r.randint(-1000, 1000)])
        if x != -mx - 1:
            code.append("px(abs(%s));" % lit(x))
            line.append("%0*x " % (bits // 4, abs(x)))
            if bits == 32:
                code.append("px(labs(%s));" % lit(x))
                line.append("%08x " % abs(x))
        if y and not (x == -mx - 1 and y == -1):
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            code.append("d = div(%s, %s); px(d.quot); px(d.rem); px(div(%s, %s).rem);" % (lit(x), lit(y), lit(x), lit(y)))
            line += ["%0*x " % (bits // 4, v & M) for v in (q, x - q * y, x - q * y)]
            if bits == 32:
                code.append("{ ldiv_t l; l = ldiv(%s, %s); px(l.quot); px(l.rem); }" % (lit(x), lit(y)))
                line += ["%08x " % (v & M) for v in (q, x - q * y)]
    code.append("nl();")
    out.append("".join(line))
    # rand: the range, the default seed, repeatability, both ends of the range reached within reason
    sd = r.randrange(30000)
    code.append("{ static int t[50]; int k; unsigned bad = 0; for (k = 0; k < 50; k++) { t[k] = rand(); if (t[k] < 0 || t[k] > RAND_MAX) bad++; } "
                "srand(1); for (k = 0; k < 50; k++) if (t[k] != rand()) bad += 100; px(bad); "
                "srand(%d); for (k = 0; k < 50; k++) t[k] = rand(); srand(%d); for (k = 0; k < 50; k++) if (t[k] != rand()) bad += 1000; px(bad); "
                "{ unsigned hi = 0, lo = 0, o = 0; srand(%d); for (k = 0; k < 3000; k++) { int v = rand(); if (v < 0 || v > RAND_MAX) bad++; o |= v; if (v < 8192) lo++; if (v >= 24576) hi++; } "
                "px(bad); px(o); px(lo > 500 && lo < 1000 && hi > 500 && hi < 1000); } nl(); }" % (sd, sd, sd))
    out.append("".join("%0*x " % (bits // 4, v) for v in (0, 0, 0, 32767, 1)))
    body = []
    for i in range(0, len(code), 30):
        body.append("void c%d(void) { int i; div_t d;\n  %s\n}" % (i, "\n  ".join(code[i:i + 30])))
    src = ("#include <stdio.h>\n#include <stdlib.h>\n#include <ctype.h>\nvoid px(unsigned v) { int i; for (i = sizeof(unsigned) * 8 - 4; i >= 0; i -= 4) "
           "putchar(\"0123456789abcdef\"[(v >> i) & 15]); putchar(' '); }\nvoid nl(void) { putchar('\\n'); }\n%s\nint main(void) { %s return 0; }\n" % (
               "\n".join(body), " ".join("c%d();" % i for i in range(0, len(code), 30))))
    return {"files": {"m.c": src}, "exp": "".join(x + "\n" for x in out).encode(), "n": 14 * 257 + 300, "vkey": "misc"}


def check(c):
    c.rule = RULE
    c.assumptions = ["the byte-array model of the functions", "DOSBox for the 16-bit, huge and unreal libraries", "output through putchar"]
    c.b.inst(("lcl", "lcds", "lcdh", "lcdu", "lcw", "lcm", "lcdp"))
    for t, k in (("linux", (160, 8000)), ("doss", (160, 3000)), ("dost", (40, 500)), ("dosh", (70, 1500)), ("dosu", (70, 1500)), ("win", (30, 2000)), ("macos", (30, 2000)), ("dosp", (24, 1000))):
        n = c.n(*k)
        prog.explore(c, t, range(n), strings, per=10, unit="calls_compared")
        prog.explore(c, t, range(max(3, n // 6)), sorting, per=5, unit="sorts_checked")
        prog.explore(c, t, range(max(2, n // 40)), misc, per=2)
        if len(c.viol) >= 10:
            return
