"""C25: calendar functions against an independent calendar, over every day they can represent."""
import datetime, struct, time

from vt import prog
from vt.clib import cstr

TECHNIQUE = "run calendar functions over every representable day and random instants on several library builds; comparison with an independent calendar and C library"
NOTE = ("Every day from 1970 to 2105 at several times of day, random instants, and random strftime formats, sizes and fields; the oracle is Python's "
        "datetime and strftime of the host's C library. Assumes a time zone of 0 in the kernel, as in this sandbox. Windows and macOS executables run in a loader of ours (vt/native/osrun.c), DPMI ones in DOSBox with a host of ours (vt/native/dpmihost.asm).")
RULE = ("a case is one instant converted by gmtime and back by mktime, or one strftime/asctime/ctime/difftime call, compared with an independent calendar; "
        "distinct: one per generated program")

COMMON = r"""
#include <stdio.h>
#include <string.h>
#include <time.h>
void px(unsigned v) { int i; for (i = sizeof(unsigned) * 8 - 4; i >= 0; i -= 4) putchar("0123456789abcdef"[(v >> i) & 15]); putchar(' '); }
void nl(void) { putchar('\n'); }
unsigned h;
void mix(int v) { h = h * 31 + v; }
void mixtm(struct tm *t) { mix(t->tm_sec); mix(t->tm_min); mix(t->tm_hour); mix(t->tm_mday); mix(t->tm_mon); mix(t->tm_year); mix(t->tm_wday); mix(t->tm_yday); mix(t->tm_isdst); }
void show(char *s) { while (*s) { int c = *s++ & 255; if (c < 32 || c > 126 || c == '\\') { putchar('\\'); putchar('a' + (c >> 4)); putchar('a' + (c & 15)); } else putchar(c); } nl(); }
"""
EPOCH = datetime.datetime(1970, 1, 1)


def fields(t):
    d = EPOCH + datetime.timedelta(seconds=t)
    return (d.second, d.minute, d.hour, d.day, d.month - 1, d.year - 1900, (d.weekday() + 1) % 7, (d - datetime.datetime(d.year, 1, 1)).days, 0)


def mixh(h, f):
    for v in f:
        h = (h * 31 + v) & 0xffffffff
    return h


DAYS = 49673


def days(c, key, target):
    """A slice of all days at one or two times of day, and random instants."""
    r = c.rng("days", key)
    i, n = key
    lo, hi = DAYS * i // n, DAYS * (i + 1) // n
    secs = [r.choice([0, 86399, r.randrange(86400)]), r.randrange(86400)]
    src = [COMMON, r"""
struct tm keep;
void one(time_t t, int loc) { struct tm *p = loc ? localtime(&t) : gmtime(&t); struct tm c; time_t u;
  if (!p) { mix(77); return; }
  mixtm(p); c = *p; c.tm_wday = 99; c.tm_yday = -5; c.tm_isdst = 0; u = mktime(&c);
  if (u != t) { putchar('!'); px(t); px(u); } mixtm(&c); }
void range(unsigned lo, unsigned hi, unsigned sec, int loc) { unsigned d; h = 0; for (d = lo; d < hi; d++) { one(d * 86400U + sec, loc); if (d % 97 == 96) { px(h); } } px(h); nl(); }
"""]
    main, exp = [], []
    for loc, s in ((0, secs[0]), (1, secs[1])):
        main.append("range(%d, %d, %dU, %d);" % (lo, hi, s, loc))
        h, line = 0, []
        for d in range(lo, hi):
            f = fields(d * 86400 + s)
            h = mixh(mixh(h, f), f)
            if d % 97 == 96:
                line.append("%08x " % h)
        exp.append("".join(line) + "%08x " % h)
    for _ in range(40):
        t = r.choice([r.randrange(DAYS * 86400), r.randrange(DAYS) * 86400 + r.choice([0, 1, 86399, 3599, 3600]), 0, 1, DAYS * 86400 - 1, 2 ** 31 - 1, 2 ** 31])
        f = fields(t)
        main.append("h = 0; one(%dU, %d); px(h); nl();" % (t, r.randint(0, 1)))
        exp.append("%08x " % mixh(mixh(0, f), f))
        if r.random() < 0.3:
            main.append("{ time_t t = %dU; show(ctime(&t)); show(asctime(gmtime(&t))); }" % t)
            s = (EPOCH + datetime.timedelta(seconds=t)).strftime("%a %b %d %H:%M:%S %Y\\ak").replace("\\ak", "\\ak")
            d = EPOCH + datetime.timedelta(seconds=t)
            s = "%s %s%3d %02d:%02d:%02d %d\\ak" % (d.strftime("%a"), d.strftime("%b"), d.day, d.hour, d.minute, d.second, d.year)
            exp += [s, s]
        if r.random() < 0.5:
            a = r.choice([t, r.getrandbits(32), 0, 2 ** 32 - 1])
            b = r.choice([a, r.getrandbits(32), a ^ 1, 0, 2 ** 24 + 1, 2 ** 32 - 1])
            main.append("{ union { float f; unsigned u; } x; x.f = difftime(%dU, %dU); px(x.u); nl(); }" % (a, b))
            exp.append("%08x " % struct.unpack("<I", struct.pack("<f", float(a - b)))[0])
    # what gmtime cannot represent
    body, fns = [], ""
    for k in range(0, len(main), 20):
        body.append("void m%d(void) { %s }" % (k, "\n".join(main[k:k + 20])))
        fns += "m%d(); " % k
    src.append("\n".join(body) + "\nint main(void) { time_t a, b, c; clock_t k; %s c = time(&a); b = time(NULL); k = clock(); px(a == c && b - a < 60); px(clock() - k < 1000000 * 60U); px(a - %dU < 3600U); nl(); return 0; }" % (
        fns, int(time.time()) - 5 if target in ("linux", "win", "macos") else 0))
    exp.append("00000001 00000001 %08x " % (target in ("linux", "win", "macos")))
    return {"files": {"m.c": "\n".join(src)}, "exp": "".join(x + "\n" for x in exp).encode(), "n": 2 * (hi - lo) + 60, "vkey": "calendar",
            "sample": "days %d to %d after the epoch, %d and %d s into the day" % (lo, hi, *secs)}


def esc(b):
    out = []
    for x in b:
        out.append(chr(x) if 32 <= x < 127 and x != 92 else "\\%c%c" % (97 + (x >> 4), 97 + (x & 15)))
    return "".join(out)


def fmt(c, key, target):
    r = c.rng("fmt", key, target)
    calls, exp = [], []
    n = 0
    for _ in range(50):
        t = r.choice([r.randrange(DAYS * 86400), r.randrange(0, 136) * 31557600 % (DAYS * 86400) + r.randrange(-5, 6) * 86400 + r.randrange(86400)])
        t = min(max(t, 0), DAYS * 86400 - 1)
        f = fields(t)
        tm = "{ %s }" % ", ".join(map(str, f))
        st = time.struct_time((f[5] + 1900, f[4] + 1, f[3], f[2], f[1], f[0], (f[6] - 1) % 7, f[7] + 1, 0))
        parts = []
        for _ in range(r.randint(1, 6)):
            k = r.random()
            if k < 0.8:
                parts.append("%" + r.choice(["", "", "", "", "E", "O"] if k < 0.2 else [""]) + r.choice("aAbBcCdDeFgGhHIjmMnprRStTuUVwWxXyY"))
            elif k < 0.87:
                parts.append("%%")
            else:
                parts.append(r.choice(["a", "Z:", "-- ", "x1", " "]))
        s = "".join(parts)
        # glibc: the E and O modifiers change nothing in the C locale, but are invalid with some conversions
        want = time.strftime("".join(p if len(p) < 3 or p[0] != "%" else "%" + p[2] for p in parts), st).encode()
        size = r.choice([120, 120, len(want), len(want) + 1, max(0, len(want) - 1), r.randint(0, len(want) + 2), 0])
        ret = len(want) if size > len(want) else 0
        calls.append("{ static struct tm t = %s; sf(&t, %s, %d); }" % (tm, cstr(s.encode()), size))
        exp.append("%d %s" % (ret, esc(want) if ret else ""))
        n += 1
        if r.random() < 0.3:
            calls.append("{ static struct tm t = %s; show(asctime(&t)); }" % tm)
            exp.append("%s %s%3d %02d:%02d:%02d %d\\ak" % (time.strftime("%a", st), time.strftime("%b", st), f[3], f[2], f[1], f[0], f[5] + 1900))
            n += 1
    src = [COMMON, r"""
char buf[200];
void sf(struct tm *t, char *f, unsigned n) { unsigned r, i; memset(buf, 0x5a, sizeof buf); r = strftime(buf + 8, n, f, t);
  for (i = 0; i < 8; i++) if (buf[i] != 0x5a) putchar('!');
  for (i = 8 + n; i < sizeof buf; i++) if (buf[i] != 0x5a) { putchar('!'); break; }
  printf("%u ", r); if (r) { if (strlen(buf + 8) != r) putchar('!'); show(buf + 8); } else nl(); }
"""]
    fns = ""
    for k in range(0, len(calls), 15):
        src.append("void m%d(void) { %s }" % (k, "\n".join(calls[k:k + 15])))
        fns += "m%d(); " % k
    src.append("int main(void) { %s return 0; }" % fns)
    return {"files": {"m.c": "\n".join(src)}, "exp": "".join(x + "\n" for x in exp).encode(), "n": n, "vkey": "strftime", "sample": exp[0]}


def check(c):
    c.rule = RULE
    c.assumptions = ["Python's datetime and the host C library's strftime as the calendar", "the kernel's time zone is 0", "DOSBox"]
    c.b.inst(("lcl", "lcds", "lcdh", "lcdu", "lcw", "lcm", "lcdp"))
    for t, k in (("linux", 32), ("dosh", 32), ("dosu", 32), ("win", 32), ("macos", 32), ("dosp", 32)):
        if c.thorough:
            k *= 4
        keys = [(i, k) for i in range(k)]
        if t != "linux" and not c.thorough:
            keys = keys[c.seed % 4::4]
        prog.explore(c, t, keys, days, per=2, unit="instants")
    for t, n in (("linux", (120, 6000)), ("doss", (60, 1500)), ("dosh", (24, 500)), ("win", (24, 1000)), ("macos", (24, 1000)), ("dosu", (24, 500)), ("dost", (12, 200)), ("dosp", (24, 400))):
        prog.explore(c, t, range(c.n(*n)), fmt, per=8, unit="format_calls")
        if len(c.viol) >= 10:
            return
