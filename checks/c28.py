"""C28: the 32-bit helpers of the library against exact arithmetic."""
from vt import prog

TECHNIQUE = "helper calls with random and boundary operands run on the 16-bit and 32-bit libraries; comparison with exact arithmetic"
NOTE = "Boundary values are paired exhaustively, the rest sampled; neighbouring memory is checked. Assumes DOSBox for the DOS libraries. Windows and macOS executables run in a loader of ours (vt/native/osrun.c), DPMI ones in DOSBox with a host of ours (vt/native/dpmihost.asm)."
RULE = "a case is one helper call with one pair of operands, its result and the memory around its operands compared; distinct: one per generated program"

SRC = r"""
#include <stdio.h>
void __lngFromUnsigned(unsigned short l[2], unsigned n); void __lngFromSigned(unsigned short l[2], int n);
unsigned __lngToUnsigned(unsigned short l[2]); int __lngToSigned(unsigned short l[2]);
void __lngAdd(unsigned short a[2], unsigned short b[2]); void __lngSub(unsigned short a[2], unsigned short b[2]);
int __lngEq(unsigned short a[2], unsigned short b[2]); int __lngUnsignedLess(unsigned short a[2], unsigned short b[2]);
int __lngSignedLess(unsigned short a[2], unsigned short b[2]); int __lngLessThan0(unsigned short a[2]);
void ph(unsigned short v) { int i; for (i = 12; i >= 0; i -= 4) putchar("0123456789abcdef"[(v >> i) & 15]); }
unsigned short m[8];
unsigned short T[][2] = { %s };
void pl(int i) { ph(m[i + 1]); ph(m[i]); putchar(' '); }
void init(int i, int j) { m[0] = m[3] = m[4] = m[7] = 0x5aa5; m[1] = T[i][0]; m[2] = T[i][1]; m[5] = T[j][0]; m[6] = T[j][1]; }
void end(void) { if (m[0] != 0x5aa5 || m[3] != 0x5aa5 || m[4] != 0x5aa5 || m[7] != 0x5aa5) putchar('!'); }
void pair(int i, int j) {
  unsigned char f = 0;
  init(i, j); __lngAdd(m + 1, m + 5); pl(1); if (i != j) pl(5); end();
  init(i, j); __lngSub(m + 1, m + 5); pl(1); end();
  init(i, j); __lngAdd(m + 1, m + 1); pl(1); end();
  init(i, j); __lngSub(m + 1, m + 1); pl(1); end();
  init(i, j);
  if (__lngEq(m + 1, m + 5)) f |= 1; if (__lngUnsignedLess(m + 1, m + 5)) f |= 2; if (__lngSignedLess(m + 1, m + 5)) f |= 4; if (__lngLessThan0(m + 1)) f |= 8;
  if (__lngEq(m + 1, m + 1)) f |= 16; if (__lngUnsignedLess(m + 1, m + 1)) f |= 32; if (__lngSignedLess(m + 5, m + 1)) f |= 64;
  pl(1); ph(f); ph(__lngToUnsigned(m + 1)); ph((unsigned)__lngToSigned(m + 1)); ph((unsigned)__lngToUnsigned(m + 1) >> (sizeof(int) * 8 - 16)); end();
  init(i, j); __lngFromUnsigned(m + 1, T[i][0]); pl(1); end();
  init(i, j); __lngFromSigned(m + 1, (short)T[i][0]); pl(1); end();
  if (sizeof(int) == 4) { init(i, j); __lngFromSigned(m + 1, T[i][0] + (T[i][1] << (sizeof(int) * 8 - 16))); pl(1); end();
    init(i, j); __lngFromUnsigned(m + 1, T[i][0] + (T[i][1] << (sizeof(int) * 8 - 16))); pl(1); end(); }
  putchar('\n');
}
int main(void) { int i, j; for (i = 0; i < %d; i++) for (j = 0; j < %d; j++) pair(i, j); return 0; }
"""
EDGE = [0, 1, 0xffff, 0x10000, 0x7fff, 0x8000, 0x7fffffff, 0x80000000, 0xffffffff, 0xffff0000, 0x8000ffff, 0x7fff0000, 0xfffffffe, 0x1ffff, 0x17fff, 0x18000]


def lng(c, key, target):
    r = c.rng("lng", key)
    bits = 16 if target in ("dost", "doss") else 32
    vals = list(EDGE) if key == 0 else [r.choice(EDGE + [r.getrandbits(32), r.getrandbits(32), r.getrandbits(17), r.getrandbits(16) << 16]) for _ in range(16)]
    if key and r.random() < 0.5:
        b = r.getrandbits(32)
        vals = [(b + r.choice([0, 1, -1, 65536, -65536, 65535, 0x80000000])) & 0xffffffff for _ in range(16)]
    M = 0xffffffff
    out = []

    def s(v):
        return v - (1 << 32) if v >> 31 else v
    for i, a in enumerate(vals):
        for j, b in enumerate(vals):
            f = (a == b) | (a < b) << 1 | (s(a) < s(b)) << 2 | (s(a) < 0) << 3 | 16 | (s(b) < s(a)) << 6
            L = "%08x " % ((a + b) & M) + ("%08x " % b if i != j else "") + "%08x %08x %08x " % ((a - b) & M, (a * 2) & M, 0)
            L += "%08x %04x%04x%04x%04x" % (a, f, a & 0xffff, a & 0xffff, (a >> 16 if bits == 32 else a & 0xffff))
            lo = a & 0xffff
            L += "%08x %08x " % (lo, lo if lo < 32768 else (lo | 0xffff0000))
            if bits == 32:
                L += "%08x %08x " % (a, a)
            out.append(L)
    t = ", ".join("{0x%x, 0x%x}" % (v & 0xffff, v >> 16) if bits == 32 else "{0x%xU, 0x%xU}" % (v & 0xffff, v >> 16) for v in vals)
    return {"files": {"m.c": SRC % (t, len(vals), len(vals))}, "exp": "".join(x + "\n" for x in out).encode(), "n": 256 * 15, "vkey": "lng",
            "sample": "values %s" % " ".join("%x" % v for v in vals[:6])}


def check(c):
    c.rule = RULE
    c.assumptions = ["exact arithmetic in the checker", "DOSBox"]
    c.b.inst(("lcl", "lcds", "lcdh", "lcdu", "lcw", "lcm", "lcdp"))
    for t, n in (("doss", (60, 4000)), ("dost", (40, 1000)), ("linux", (60, 4000)), ("dosh", (16, 500)), ("dosu", (16, 500)), ("win", (16, 1000)), ("macos", (16, 1000)), ("dosp", (16, 500))):
        prog.explore(c, t, range(c.n(*n)), lng, per=8, unit="pairs_compared")
