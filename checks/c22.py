"""C22: histories of stream operations against an abstract file: a byte sequence, a position and two indicators."""
from vt import prog

TECHNIQUE = "random operation histories on several streams run on real library builds; every result, indicator and position compared online-logged against an abstract file model, final contents re-read"
NOTE = ("Sampled histories over all modes, buffer kinds and sizes, seeks, push-back, freopen, tmpfile, text and binary, to 60 KB files; a+ is refused by design, and ungetc is only "
        "promised after a successful read. Assumes DOSBox's file functions. Windows and macOS executables run in a loader of ours (vt/native/osrun.c), DPMI ones in DOSBox with a host of ours (vt/native/dpmihost.asm).")
RULE = "a case is one stream operation whose result, data, feof and ferror (and often position) are compared; distinct: one per history"

SRC = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
%(defs)s
short T[] = { %(table)s };
FILE *F[4]; fpos_t G[4];
char *names[] = { "F0.DAT", "F1.DAT", "F2.DAT", "NOFILE.DAT" };
char *modes[] = { "r", "rb", "w", "wb", "a", "ab", "r+", "rb+", "r+b", "w+", "wb+", "w+b" };
char xbuf[4][300];
unsigned char *D; char can[32];
unsigned short seed;
void px(unsigned short v) { int i; for (i = 12; i >= 0; i -= 4) putchar("0123456789abcdef"[(v >> i) & 15]); putchar(' '); }
unsigned char rnd(void) { seed = seed * 25173 + 13849; return seed >> 8; }
unsigned gen(unsigned char *p, unsigned n, int text) { unsigned i; for (i = 0; i < n; i++) { p[i] = rnd(); if (text) p[i] = (p[i] & 31) ? 32 + p[i] %% 95 : 10; } return n; }
unsigned short hash(unsigned char *p, unsigned n) { unsigned short h = 7; while (n--) h = h * 31 + *p++; return h; }
#ifdef B16
void tell(FILE *f) { fpos_t p; if (__ftell(f, &p)) { px(-1); px(-1); } else { px(p.halves[1]); px(p.halves[0]); } }
int seek(FILE *f, short hi, short lo, int w) { fpos_t p; p.halves[0] = lo; p.halves[1] = hi; return __fseek(f, &p, w); }
#else
void tell(FILE *f) { long p = ftell(f); px(p >> 16); px(p); }
int seek(FILE *f, short hi, short lo, int w) { return fseek(f, ((long)hi << 16) + (unsigned short)lo, w); }
#endif
int vff(FILE *f, char *s, ...) { int r; va_list a; va_start(a, s); r = vfprintf(f, s, a); va_end(a); return r; }
int main(void)
{
  short *t = T, r; unsigned i, n;
  D = malloc(%(big)d);
  for (i = 0; i < 4; i++) remove(names[i]);
  for (; *t != 99; t += 6)
  {
    FILE *f = F[t[1]];
    int s = t[1]; unsigned a = (unsigned short)t[2], b = (unsigned short)t[3]; short c = t[4]; 
    seed = t[5];
    putchar('A' + *t);
    switch (*t)
    {
    case 0: F[s] = f = fopen(names[a], modes[b]); px(f != 0); break;
    case 1: px(fclose(f)); F[s] = f = 0; break;
    case 2: px(c ? getc(f) : fgetc(f)); break;
    case 3: memset(D, 0x77, a + 4); px((unsigned char*)fgets((char*)D, a, f) == D); px(hash(D, a + 4)); break;
    case 4: memset(D, 0x77, a * b + 4); px(fread(D, a, b, f)); px(hash(D, a * b + 4)); break;
    case 5: px(c ? putc(a, f) : fputc(a, f)); break;
    case 6: n = gen(D, a, 1); D[n] = 0; px(fputs((char*)D, f) < 0); break;
    case 7: gen(D, a * b, c); px(fwrite(D, a, b, f)); break;
    case 8: px(c ? vff(f, "%%d:%%s%%5u\n", (int)(short)a, "xyz", b) : fprintf(f, "%%d:%%s%%5u\n", (int)(short)a, "xyz", b)); break;
    case 9: px(ungetc(a, f)); break;
    case 10: px(seek(f, t[3], t[2], c) != 0); break;
    case 11: tell(f); break;
    case 12: rewind(f); break;
    case 13: if (c == 9) setbuf(f, 0); else px(setvbuf(f, a ? (a & 1 ? xbuf[s] : 0) : 0, c == 0 ? _IOFBF : c == 1 ? _IOLBF : _IONBF, b)); break;
    case 14: px(fflush(f)); break;
    case 15: px(freopen(names[a], modes[b], f) == f); break;
    case 16: px(fgetpos(f, &G[s])); break;
    case 17: px(fsetpos(f, &G[s])); break;
    case 18: clearerr(f); break;
    case 20: { FILE *g = fopen(names[a], "rb"); unsigned short h = 7; unsigned len = 0; int ch; if (!g) { px(-1); break; } while ((ch = fgetc(g)) != EOF) { h = h * 31 + ch; len++; } fclose(g); px(len); px(h); break; }
    case 21: F[s] = f = tmpfile(); px(f != 0); break;
    case 22: px(fflush(0)); break;
    case 23: px(fscanf(f, "%%d", &r, &r) == 1 ? 1 : 0); break;
    case 24: px(rename(names[a], names[b]) != 0); break;
    case 25: px(remove(names[a]) != 0); break;
    }
    if (f) { putchar(feof(f) ? 'e' : '-'); putchar(ferror(f) ? 'r' : '-'); }
    putchar('\n');
  }
  for (i = 0; i < 4; i++) if (F[i]) { px(fclose(F[i])); putchar('\n'); }
  for (i = 0; i < 4; i++) { FILE *g = fopen(names[i], "rb"); unsigned short h = 7; unsigned len = 0; int ch; if (!g) { px(-1); putchar('\n'); continue; } while ((ch = fgetc(g)) != EOF) { h = h * 31 + ch; len++; } fclose(g); px(len); px(h); putchar('\n'); }
  for (i = 0; i < 3; i++) remove(names[i]);
  return 0;
}
"""
MODES = ["r", "rb", "w", "wb", "a", "ab", "r+", "rb+", "r+b", "w+", "wb+", "w+b"]


def hx(v):
    return "%04x " % (v & 0xffff)


class Rnd:
    def __init__(self, s):
        self.s = s & 0xffff

    def gen(self, n, text):
        o = bytearray()
        for _ in range(n):
            self.s = (self.s * 25173 + 13849) & 0xffff
            b = self.s >> 8
            if text:
                b = 32 + b % 95 if b & 31 else 10
            o.append(b)
        return bytes(o)


def hash16(b):
    h = 7
    for x in b:
        h = (h * 31 + x) & 0xffff
    return h


class Stream:
    """The abstract stream."""

    def __init__(self, file, mode, dos, tmp=False):
        self.f, self.mode = file, mode
        self.rd = mode[0] == "r" or "+" in mode
        self.wr = mode[0] != "r" or "+" in mode
        self.app = mode[0] == "a"
        self.text = dos and "b" not in mode
        self.pos = len(file) if self.app else 0
        self.posknown = not self.app      # where an appending stream is before its first write is its own business
        self.eof = False
        self.push = None                  # pushed back character
        self.last = None                  # 'r', 'w', None (free to do either)
        self.canpush = False
        self.used = False                 # anything done since it was opened (for setvbuf)
        self.update = "+" in mode
        self.tmp = tmp

    def getc(self):
        self.last, self.used = "r", True
        if self.push is not None:
            c, self.push = self.push, None
            self.pos += 1
            self.canpush = True
            return c
        if self.eof:
            self.canpush = False
            return -1
        while self.pos < len(self.f):
            c = self.f[self.pos]
            self.pos += 1
            if not (self.text and c == 13):
                self.canpush = True
                return c
        self.eof = True
        self.canpush = False
        return -1

    def put(self, data):
        self.last, self.used = "w", True
        self.canpush = False
        if not data:
            return
        if self.text:
            data = data.replace(b"\n", b"\r\n")
        if self.app:
            self.pos = len(self.f)
            self.posknown = True
        if self.pos > len(self.f):
            self.f.extend(bytes(self.pos - len(self.f)))
        self.f[self.pos:self.pos + len(data)] = data
        self.pos += len(data)

    def moved(self):
        self.last = None
        self.push = None
        self.canpush = False
        self.eof = False


def history(c, key, target):
    r = c.rng("stdio", key)
    dos = target not in ("linux", "macos")
    bits = 16 if target in ("dost", "doss") else 32
    big = {"linux": 6000}.get(target, 3000)
    nops = r.choice([40, 120, 250])
    chunk = r.choice([8, 40, 300, 1030, big - 10])
    files = [None, None, None, None]
    S = [None] * 4
    saved = [None] * 4
    T, out = [], []
    cov = {}
    style = r.choice(["any", "any", "update", "readonly", "append"])
    nstreams = r.choice([1, 1, 2, 3])

    def emit(op, s, a=0, b=0, cc=0, seed=0):
        T.append((op, s, a, b, cc, seed))
        cov["ops"] = cov.get("ops", 0) + 1

    def line(op, s, text):
        st = S[s]
        out.append(chr(65 + op) + text + (("e" if st.eof else "-") + "-" if st else ""))

    def size():
        k = r.random()
        if k < 0.4:
            return r.randint(1, 12)
        if k < 0.7:
            return r.randint(1, chunk)
        return max(1, min(big - 10, r.choice([1, 255, 256, 300, 1023, 1024, 1025, 2047, 2048, 2049, chunk])))

    guard = 0
    while len(T) < nops and guard < nops * 10:
        guard += 1
        s = r.randrange(nstreams)
        st = S[s]
        if st is None:
            busy = [id(x.f) for x in S if x]
            a = r.choice([s, s, s, s, 3]) if r.random() < .9 else r.randrange(4)
            if files[a] is not None and id(files[a]) in busy:
                continue
            if r.random() < 0.06 and target != "linux" or r.random() < 0.03:
                if any(x and x.tmp for x in S):
                    continue
                emit(21, s)
                S[s] = Stream(bytearray(), "w+b", dos, True)
                line(21, s, hx(1))
                continue
            if files[a] is None and r.random() < .7:
                m = r.choice([2, 3, 9, 10, 11, 3, 3])
            elif style == "readonly":
                m = r.choice([0, 1, 1, 1, 3])
            elif style == "update":
                m = r.choice([6, 7, 8, 9, 10, 11, 7, 7])
            elif style == "append":
                m = r.choice([4, 5, 5, 1])
            else:
                m = r.randrange(12)
            if a == 3 and MODES[m][0] != "r":
                continue
            emit(0, s, a, m)
            mode = MODES[m]
            if mode[0] == "r" and files[a] is None:
                line(0, s, hx(0))
                continue
            if mode[0] == "w" or files[a] is None:
                files[a] = files[a] if files[a] is not None else bytearray()
                if mode[0] == "w":
                    del files[a][:]
            S[s] = Stream(files[a], mode, dos)
            S[s].name = a
            line(0, s, hx(1))
            if r.random() < 0.5:
                m2 = r.choice([0, 1, 2, 0, 9])
                own = r.random() < 0.6
                n = r.choice([1, 2, 3, 7, 16, 100, 255, 300, 300]) if own or r.random() < .5 else r.choice([512, 1024, 2000])
                if m2 == 2 and r.random() < .5:
                    n = 0
                emit(13, s, 1 if own and m2 != 2 else 0, n, m2)
                line(13, s, "" if m2 == 9 else hx(0))
            continue
        ops = []
        if st.rd and (not st.update or st.last in (None, "r")):
            ops += [2, 2, 3, 4, 4, 4]
            if st.canpush and st.push is None and st.last == "r":
                ops += [9, 9]
        if st.wr and (not st.update or st.last in (None, "w") or st.last == "r" and st.eof and st.push is None):
            ops += [5, 5, 6, 7, 7, 7, 8]
        ops += [10, 10, 11, 11, 18] + ([12] if r.random() < .5 else []) + [16, 17]
        if st.last != "r" or not st.wr or not st.update:
            ops += [14] if st.wr else []
        if r.random() < 0.25:
            ops += [1, 1, 15, 22]
        if r.random() < 0.1:
            ops += [20, 24, 25]
        op = r.choice(ops)
        if op == 2:
            w = r.randint(0, 1)
            emit(2, s, 0, 0, w)
            line(2, s, hx(st.getc()))
        elif op == 3:
            n = min(size() + 1, big - 10)
            if r.random() < .05:
                n = 1
            emit(3, s, n)
            d = bytearray()
            got = -2
            while len(d) < n - 1:
                got = st.getc()
                if got < 0:
                    break
                d.append(got)
                if got == 10:
                    break
            if got == -1 and not d:
                buf = bytes([0x77]) * (n + 4)
                line(3, s, hx(0) + hx(hash16(buf)))
            else:
                buf = bytes(d) + b"\0"
                buf += bytes([0x77]) * (n + 4 - len(buf))
                line(3, s, hx(1) + hx(hash16(buf)))
            if n == 1:
                st.used = True
        elif op == 4:
            e = r.choice([1, 1, 2, 3, 10, 64])
            n = max(1, min(size(), big - 10) // e)
            emit(4, s, e, n)
            d = bytearray()
            while len(d) < e * n:
                ch = st.getc()
                if ch < 0:
                    break
                d.append(ch)
            buf = bytes(d) + bytes([0x77]) * (e * n + 4 - len(d))
            line(4, s, hx(len(d) // e) + hx(hash16(buf)))
        elif op == 5:
            ch = r.choice([10, 65, 0, 255, 10, 32, r.randrange(256)])
            if ch == 13:
                ch = 14
            w = r.randint(0, 1)
            v = ch if r.random() < .8 else ch + 256 * r.randint(1, 100)
            emit(5, s, v, 0, w)
            # (the text "\n" written as "\r\n" still gives '\n' back)
            st.put(bytes([ch]))
            line(5, s, hx(ch))
        elif op == 6:
            n, seed = size(), r.getrandbits(16)
            emit(6, s, n, 0, 0, seed)
            st.put(Rnd(seed).gen(n, 1))
            line(6, s, hx(0))
        elif op == 7:
            e = r.choice([1, 1, 2, 3, 10, 64])
            n = max(1, min(size(), big - 10) // e)
            seed = r.getrandbits(16)
            text = 1 if st.text or r.random() < .3 else 0
            if len(st.f) + 2 * e * n > 30000:
                continue
            emit(7, s, e, n, text, seed)
            st.put(Rnd(seed).gen(e * n, text))
            line(7, s, hx(n))
        elif op == 8:
            a, b = r.getrandbits(16), r.getrandbits(16)
            w = r.randint(0, 1)
            emit(8, s, a, b, w)
            t = "%d:xyz%5d\n" % (a - 65536 if a > 32767 else a, b)
            st.put(t.encode())
            line(8, s, hx(len(t)))
        elif op == 9:
            prev = st.f[st.pos - 1] if st.pos <= len(st.f) else 65
            ch = r.choice([prev, prev, 65, 255, r.randrange(256)])
            if st.text and ch in (13, 26):
                continue
            emit(9, s, ch)
            st.push = ch
            st.pos -= 1
            st.eof = False
            st.canpush = False
            line(9, s, hx(ch))
        elif op == 10:
            wh = r.choice([0, 0, 1, 1, 2])
            base = [0, st.pos, len(st.f)][wh]
            if st.text and st.push is not None and wh == 1:
                continue
            if st.app:
                # the stream appends whatever the position is
                emit(10, s, r.randint(0, 5), 0, 0)
                st.moved()
                st.posknown = False
                line(10, s, hx(0))
                continue
            k = r.random()
            if k < 0.45:
                to = r.randint(0, len(st.f))
            elif k < 0.6:
                to = base + r.randint(-10, 10)
            elif k < 0.7:
                to = st.pos
            elif k < 0.85:
                to = st.pos + r.choice([-1024, 1024, -1, 1, -1023, 1025, -300, 300, 600])
            else:
                to = r.choice([0, len(st.f), len(st.f) - 1, -5, -1])
            if to > len(st.f) and (dos or r.random() < .7):
                to = len(st.f)
            if to < 0 and dos:
                to = 0           # DOS lets a file position be anything
            if to < 0:
                continue             # what a failed fseek does to push-back, buffer and direction is not specified
            off = to - base
            emit(10, s, off & 0xffff, off >> 16, wh)
            st.used = True
            st.moved()
            st.pos = to
            line(10, s, hx(0))
        elif op == 11:
            if not st.posknown or st.text and st.push is not None:
                continue
            emit(11, s)
            line(11, s, hx(st.pos >> 16) + hx(st.pos))
        elif op == 12:
            emit(12, s)
            st.used = True
            st.moved()
            if st.app:
                st.posknown = False
            else:
                st.pos = 0
            line(12, s, "")
        elif op == 14:
            emit(14, s)
            if st.last == "w":
                st.last = None
            line(14, s, hx(0))
        elif op == 16:
            if not st.posknown or st.push is not None:
                continue
            emit(16, s)
            saved[s] = (id(st), st.pos)
            line(16, s, hx(0))
        elif op == 17:
            if not saved[s] or saved[s][0] != id(st) or st.app or saved[s][1] > len(st.f):
                continue
            emit(17, s)
            st.used = True
            st.moved()
            st.pos = saved[s][1]
            line(17, s, hx(0))
        elif op == 18:
            emit(18, s)
            st.eof = False
            line(18, s, "")
        elif op == 1:
            emit(1, s)
            S[s] = None
            if saved[s]:
                saved[s] = None
            line(1, s, hx(0))
            if not st.tmp and r.random() < .5 and len(st.f) < 60000:
                emit(20, s, st.name)
                line(20, s, hx(len(st.f)) + hx(hash16(st.f)))
        elif op == 15:
            if st.tmp:
                continue
            a = st.name
            m = r.randrange(12)
            emit(15, s, a, m)
            mode = MODES[m]
            if mode[0] == "w":
                del files[a][:]
            saved[s] = None
            S[s] = Stream(files[a], mode, dos)
            S[s].name = a
            line(15, s, hx(1))
        elif op == 22:
            if any(x and x.rd and x.last == "r" for x in S):
                continue
            emit(22, s)
            for x in S:
                if x and x.last == "w":
                    x.last = None
            line(22, s, hx(0))
        elif op == 20:
            # a second stream on the same file sees what was flushed
            if st.tmp or st.last == "w" or st.push is not None or dos and st.wr:
                continue
            emit(20, s, st.name)
            line(20, s, hx(len(st.f)) + hx(hash16(st.f)))
        elif op in (24, 25):
            free = [i for i in range(3) if files[i] is not None and not any(x and x.f is files[i] for x in S)]
            if not free:
                continue
            a = r.choice(free)
            if op == 25:
                emit(25, s, a)
                files[a] = None
                line(25, s, hx(0))
            else:
                b = r.choice([i for i in range(4) if i != a])
                if files[b] is not None:
                    continue
                if b == 3:
                    continue
                emit(24, s, a, b)
                files[b], files[a] = files[a], None
                line(24, s, hx(0))
    for x in S:
        if x:
            out.append(hx(0))
    for f in files:
        if f is None:
            out.append(hx(-1))
        else:
            out.append(hx(len(f)) + hx(hash16(f)))
    words = [str(((x & 0xffff) ^ 0x8000) - 0x8000) if isinstance(x, int) else x for o in T for x in o] + ["99"]
    src = SRC % {"defs": "#define B16" if bits == 16 else "", "table": ", ".join(words), "big": big * 2 + 16}
    exp = "".join(x + "\n" for x in out).encode()
    return {"files": {"m.c": src}, "exp": exp, "n": len(T), "vkey": "stdio", "cov": cov, "sample": "history of %d operations on %d streams (%s)" % (len(T), nstreams, style)}


def check(c):
    c.rule = RULE
    c.assumptions = ["DOSBox implements DOS file functions"]
    c.b.inst(("lcl", "lcds", "lcdh", "lcdu", "lcw", "lcm", "lcdp"))
    for t, n in (("linux", (300, 20000)), ("doss", (100, 3000)), ("dost", (40, 800)), ("dosh", (60, 1500)), ("dosu", (40, 1000)), ("win", (100, 6000)), ("macos", (60, 4000)), ("dosp", (40, 1500))):
        prog.explore(c, t, ["%s-%d" % (t, i) for i in range(c.n(*n))], history, per=10, unit="operations_checked", progs="histories_run")
        if len(c.viol) >= 10:
            return
