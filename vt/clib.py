"""Pieces of C and oracles shared by the checks of the library."""
import struct


def cstr(b):
    """A C string literal with the bytes b (octal escapes, always three digits, where needed)."""
    out = ['"']
    for x in b:
        ch = chr(x)
        if 32 <= x < 127 and ch not in '"\\?%':
            out.append(ch)
        elif ch == "%":
            out.append("%")
        else:
            out.append("\\%03o" % x)
    out.append('"')
    return "".join(out)


# An arena of N bytes; on Linux between two inaccessible pages, at the end of its pages or at their start.
ARENA = r"""
#ifdef _LINUX
static int sys2(int n, void *b, unsigned c, int d) {
  asm("push ebx\n mov eax, [ebp+8]\n mov ebx, [ebp+12]\n mov ecx, [ebp+16]\n mov edx, [ebp+20]\n int 0x80\n pop ebx");
}
#endif
unsigned char *A, *A0;
static unsigned AN;
#ifndef _LINUX
static unsigned char As[ARENA_N + 64];
#endif
void arena(int at_end) {
  AN = ARENA_N;
#ifdef _LINUX
  { static unsigned args[6] = { 0, ARENA_P + 8192, 3, 0x22, -1, 0 };
    unsigned p = sys2(90, args, 0, 0);
    sys2(125, (void*)p, 4096, 0);
    sys2(125, (void*)(p + 4096 + ARENA_P), 4096, 0);
    A = (unsigned char*)(p + 4096 + (at_end ? ARENA_P - ARENA_N : 0));
    A0 = A; }
#else
  A = As + 32;
  A0 = A;
  { int i; for (i = 0; i < 32; i++) As[i] = As[32 + ARENA_N + i] = 0xA5; }
#endif
}
int guards(void) {
#ifndef _LINUX
  int i; for (i = 0; i < 32; i++) if (As[i] != 0xA5 || As[32 + ARENA_N + i] != 0xA5) return 1;
#endif
  return A != A0;
}
void fill(unsigned k) { unsigned i; for (i = 0; i < ARENA_N; i++) A0[i] = i * k + (i >> 3); }
void set(unsigned o, char *s, unsigned n) { unsigned char *p = A0 + o; while (n--) *p++ = *s++; }
void px(unsigned v) { int i; for (i = sizeof(unsigned) * 8 - 4; i >= 0; i -= 4) putchar("0123456789abcdef"[(v >> i) & 15]); putchar(' '); }
void pz(unsigned v) { px(v); }
void hsh(unsigned o, unsigned n) { unsigned h = 0; unsigned char *p = A0 + o; while (n--) h = h * 31 + *p++; px(h); }
void nl(void) { putchar('\n'); }
void all(void) { hsh(0, ARENA_N); if (guards()) px(0xbad); nl(); }
int sg(int v) { return v < 0 ? -1 : v > 0; }
void off(void *p) { if (p) px((unsigned char*)p - A0); else px(-1); }
"""


class Arena:
    """The model of the C arena and the program text made for it."""

    def __init__(self, n, bits, at_end=1):
        self.n, self.bits, self.at_end = n, bits, at_end
        self.mask = (1 << bits) - 1
        self.m = bytearray(n)
        self.code, self.out = [], []
        self.line = []

    def fill(self, k):
        self.code.append("fill(%d);" % k)
        for i in range(self.n):
            self.m[i] = (i * k + (i >> 3)) & 255

    def set(self, o, b):
        if b:
            self.code.append("set(%d, %s, %d);" % (o, cstr(b), len(b)))
            self.m[o:o + len(b)] = b

    def px(self, v):
        self.line.append("%0*x " % (self.bits // 4, v & self.mask))

    def do(self, code, *vals):
        self.code.append(code)
        for v in vals:
            self.px(v)

    def off(self, code, o):
        self.do("off(%s);" % code, -1 if o is None else o)

    def hash(self, o, n):
        h = 0
        for b in self.m[o:o + n]:
            h = (h * 31 + b) & self.mask
        return h

    def all(self):
        self.do("all();", self.hash(0, self.n))
        self.out.append("".join(self.line) + "\n")
        self.line = []

    def cs(self, o):
        """The C string at o."""
        e = self.m.index(0, o)
        return bytes(self.m[o:e])

    def program(self, includes, per=12, extra=""):
        p = (self.n + 4095) // 4096 * 4096
        t = ["#define ARENA_N %d\n#define ARENA_P %d" % (self.n, p), "#include <stdio.h>"] + ["#include <%s>" % i for i in includes]
        t.append(ARENA + extra)
        fns = []
        # small functions: the compiler limits the size of one
        for i in range(0, len(self.code), 40):
            t.append("void c%d(void) {\n  %s\n}" % (i, "\n  ".join(self.code[i:i + 40])))
            fns.append("c%d();" % i)
        t.append("int main(void) { arena(%d); %s return 0; }" % (self.at_end, " ".join(fns)))
        return "\n".join(t) + "\n", "".join(self.out).encode()
