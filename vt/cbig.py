"""Programs with data and code far beyond 64 KB, and what they print."""
import struct

TYPES = [("signed char", 1, "b"), ("unsigned char", 1, "B"), ("short", 2, "h"), ("unsigned short", 2, "H"), ("int", 4, "i"),
         ("unsigned", 4, "I")]


def bigdata(r, total=220000):
    """(C source, expected output): operations on objects that span several 64 KB areas."""
    n = r.randint(1, 6)
    ms, off, al = [], 0, 1
    for k in range(n):
        t = r.choice(TYPES)
        cnt = r.choice([0, 0, 0, 3, 5])
        off = (off + t[1] - 1) // t[1] * t[1]
        ms.append(("m%d" % k, t, cnt, off))
        off += t[1] * (cnt or 1)
        al = max(al, t[1])
    ssz = (off + al - 1) // al * al
    N = total // ssz
    S = N * ssz
    M = bytearray(S)
    L, exp = [], []
    L.append("#include <string.h>\n#include <stdio.h>\n#include <stdlib.h>")
    L.append("struct S { %s };" % " ".join("%s %s%s;" % (t[0], nm, "[%d]" % c if c else "") for nm, t, c, o in ms))
    L.append("char pad0[%d];" % r.randint(1, 40000))
    L.append("struct S big[%d]; char pad1[%d]; struct S *gp = big; int one = 1;" % (N, r.randint(1, 3000)))
    L.append("unsigned h(char *p, unsigned n) { unsigned x = 0; while (n--) x = x * 31 + (*p++ & 255); return x; }")
    L.append("void out(unsigned v) { printf(\"%x\\n\", v); }")
    L.append("struct S rs(struct S s, int k) { s.m0%s += k; return s; }" % ("[0]" if ms[0][2] else ""))

    def mem(i, m, j=0):
        return i * ssz + m[3] + j * m[1][1]

    def get(a, t):
        return struct.unpack_from("<" + t[2], M, a)[0]

    def put(a, t, v):
        v &= (1 << (8 * t[1])) - 1
        M[a:a + t[1]] = v.to_bytes(t[1], "little")

    def hsh(a, n):
        x = 0
        for b in M[a:a + n]:
            x = (x * 31 + b) & 0xffffffff
        return x

    def region(maxlen=3000):
        ln = r.randint(1, maxlen)
        a = r.randint(0, S - ln)
        return a, ln

    body = []
    fill = ms[-1]
    fa, fb = r.randint(1, 65535), r.randint(0, 65535)
    body.append("for (i = 0; i < %d; i++) ((unsigned char*)big)[i] = i * %d + (i >> 8) + %d;" % (S, fa & 255, fb & 255))
    for i in range(S):
        M[i] = (i * (fa & 255) + (i >> 8) + (fb & 255)) & 255
    # padding bytes of struct are kept by whole-struct copies, which the compiler does byte by byte
    for _ in range(r.randint(25, 45)):
        k = r.choice(["member", "member", "sassign", "walk", "memcpy", "memmove", "memset", "diff", "cmp", "byval", "hash", "str",
                      "idx", "cross", "memchr", "memcmp", "swap"])
        m = r.choice(ms)
        j = r.randrange(m[2]) if m[2] else 0
        sub = "%s%s" % (m[0], "[%d]" % j if m[2] else "")
        i1, i2 = r.randrange(N), r.randrange(N)
        if r.random() < 0.3:
            i1 = r.choice([0, N - 1])
        t = m[1]
        if k == "member":
            v = r.getrandbits(31)
            op = r.choice(["=", "+=", "^=", "-=", "++"])
            a = mem(i1, m, j)
            x = get(a, t)
            acc = r.choice(["big[%d].%s", "(&big[%d])->%s", "gp[%d].%s", "(gp + %d)->%s"]) % (i1, sub)
            if op == "++":
                body.append("%s++;" % acc)
                put(a, t, x + 1)
            else:
                body.append("%s %s %d;" % (acc, op, v))
                put(a, t, {"=": v, "+=": x + v, "^=": x ^ v, "-=": x - v}[op])
            body.append("out(%s);" % acc)
            exp.append(get(a, t) & 0xffffffff)
        elif k == "idx":
            a = mem(i1, m, j)
            body.append("i = %d; out(big[i].%s); out((gp + i)->%s);" % (i1, sub, sub))
            exp += [get(a, t) & 0xffffffff] * 2
        elif k == "sassign":
            body.append(r.choice(["big[%d] = big[%d];", "i = %d; gp[i] = *(big + %d * one);", "*(gp + %d) = gp[%d];"]) % (i1, i2))
            M[i1 * ssz:(i1 + 1) * ssz] = M[i2 * ssz:(i2 + 1) * ssz]
            body.append("out(h((char*)&big[%d], %d));" % (i1, ssz))
            exp.append(hsh(i1 * ssz, ssz))
        elif k == "swap":
            body.append("{ struct S t = big[%d]; big[%d] = gp[%d]; gp[%d] = t; }" % (i1, i1, i2, i2))
            A, B = M[i1 * ssz:(i1 + 1) * ssz], M[i2 * ssz:(i2 + 1) * ssz]
            M[i1 * ssz:(i1 + 1) * ssz] = B
            M[i2 * ssz:(i2 + 1) * ssz] = A
            body.append("out(h((char*)&big[%d], %d));" % (i2, ssz))
            exp.append(hsh(i2 * ssz, ssz))
        elif k == "byval":
            v = r.randint(-100, 100)
            body.append("big[%d] = rs(gp[%d], %d);" % (i1, i2, v))
            M[i1 * ssz:(i1 + 1) * ssz] = M[i2 * ssz:(i2 + 1) * ssz]
            a = mem(i1, ms[0])
            put(a, ms[0][1], get(a, ms[0][1]) + v)
            body.append("out(h((char*)&big[%d], %d));" % (i1, ssz))
            exp.append(hsh(i1 * ssz, ssz))
        elif k == "walk":
            step = r.choice([1, 3, 7, 1 + 65536 // ssz, 1 + 32768 // ssz])
            s, cnt = 0, 0
            i = i1 % max(1, N // 4)
            start = i
            while i < N:
                s = (s * 3 + get(mem(i, m, j), t)) & 0xffffffff
                i += step
            body.append("{ struct S *p; unsigned s = 0; for (p = gp + %d; p < big + %d; p += %d) s = s * 3 + p->%s; out(s); }" % (
                start, N, step, sub))
            exp.append(s)
        elif k in ("memcpy", "memmove"):
            ln = r.choice([r.randint(1, 300), r.randint(1, 30000), r.randint(60000, 100000)])
            a = r.randint(0, S - ln)
            if k == "memcpy":
                if S < 2 * ln:
                    continue
                b = r.choice([x for x in (r.randint(0, S - ln) for _ in range(60)) if abs(x - a) >= ln] or [None])
                if b is None:
                    continue
            else:
                b = max(0, min(S - ln, a + r.randint(-5000, 5000)))
            body.append("%s((char*)big + %d, (char*)gp + %d, %d);" % (k, b, a, ln))
            M[b:b + ln] = bytes(M[a:a + ln])
            body.append("out(h((char*)big + %d, %d));" % (max(0, b - 50), min(S - max(0, b - 50), 100)))
            exp.append(hsh(max(0, b - 50), min(S - max(0, b - 50), 100)))
        elif k == "memset":
            ln = r.choice([r.randint(1, 300), r.randint(1, 90000)])
            a = r.randint(0, S - ln)
            v = r.randrange(256)
            body.append("memset((char*)big + %d, %d, %d);" % (a, v, ln))
            M[a:a + ln] = bytes([v]) * ln
        elif k == "memchr":
            a, ln = region(100000 if r.random() < .3 else 3000)
            v = r.randrange(256)
            i = M.find(bytes([v]), a, a + ln)
            body.append("{ char *p = memchr((char*)big + %d, %d, %d); out(p ? p - (char*)big : -1); }" % (a, v, ln))
            exp.append(i & 0xffffffff)
        elif k == "memcmp":
            ln = r.choice([r.randint(1, 300), r.randint(1, 90000)])
            a, b = r.randint(0, S - ln), r.randint(0, S - ln)
            if r.random() < 0.6 and abs(a - b) >= ln:
                body.append("memcpy((char*)big + %d, (char*)big + %d, %d);" % (a, b, ln))
                M[a:a + ln] = bytes(M[b:b + ln])
                if r.random() < 0.5:
                    o = r.randrange(ln)
                    v = r.randrange(256)
                    body.append("((char*)big)[%d] = %d;" % (a + o, v))
                    M[a + o] = v
            x, y = bytes(M[a:a + ln]), bytes(M[b:b + ln])
            body.append("i = memcmp((char*)big + %d, (char*)gp + %d, %d); out(i < 0 ? 1 : i > 0 ? 2 : 0);" % (a, b, ln))
            exp.append(1 if x < y else 2 if x > y else 0)
        elif k == "str":
            ln = r.choice([r.randint(1, 300), r.randint(66000, 90000)])
            a = r.randint(0, S - ln - 1)
            v = r.randrange(1, 256)
            body.append("memset((char*)big + %d, %d, %d); ((char*)big)[%d] = 0; out(strlen((char*)big + %d)); out(strchr((char*)gp + %d, 0) - (char*)big);" % (
                a, v, ln, a + ln, a, a))
            M[a:a + ln] = bytes([v]) * ln
            M[a + ln] = 0
            exp += [ln, a + ln]
        elif k == "diff":
            body.append("{ struct S *p = gp + %d, *q = &big[%d]; out(p - q); out((char*)p - (char*)q); }" % (i1, i2))
            exp += [(i1 - i2) & 0xffffffff, ((i1 - i2) * ssz) & 0xffffffff]
        elif k == "cmp":
            body.append("{ struct S *p = gp + %d, *q = &big[%d]; out((p < q) | (p <= q) << 1 | (p > q) << 2 | (p >= q) << 3 | (p == q) << 4 | (p != q) << 5); }" % (i1, i2))
            exp.append((i1 < i2) | (i1 <= i2) << 1 | (i1 > i2) << 2 | (i1 >= i2) << 3 | (i1 == i2) << 4 | (i1 != i2) << 5)
        elif k == "hash":
            a, ln = region(20000)
            body.append("out(h((char*)gp + %d, %d));" % (a, ln))
            exp.append(hsh(a, ln))
        else:
            # unaligned accesses of every size around each 64 KB boundary of the address space
            w = r.choice(TYPES[2:])
            body.append("{ unsigned s = 0; char *p = (char*)big, *e = (char*)big + %d; p += (65536 - ((unsigned)p & 65535)) & 65535; "
                        "for (; p < e - 8; p += 65536) if (p > (char*)big + 8) for (i = -6; i < 6; i++) { %s *q = (%s*)(p + i); %s v = *q; "
                        "*q = v + i; s += *q - v - i; *q ^= 1; *q ^= 1; *q = v; } out(s & %dU); }" % (S, w[0], w[0], w[0], (1 << 8 * w[1]) - 1))
            exp.append(0)
    body.append("out(h((char*)big, sizeof big)); out(sizeof big);")
    exp += [hsh(0, S), S]
    # large structures assigned as a whole
    z = r.randint(65000, 90000)
    L.append("struct Z { char a; int b; char c[%d]; int d; }; struct Z *z1, *z2;" % z)
    zsz = (8 + z + 3) // 4 * 4 + 4
    off = zsz - 4
    body.append("z1 = malloc(sizeof(struct Z)); z2 = malloc(sizeof(struct Z)); if (!z1 || !z2) { out(0xbad); return 0; } out(sizeof(struct Z));")
    exp.append(zsz)
    b0, c0, d0 = r.getrandbits(31), r.randint(1, 100), r.getrandbits(31)
    body.append("for (i = 0; i < %d; i++) z1->c[i] = i * %d; z1->a = 5; z1->b = %d; z1->d = %d; memset(z2, 0x55, sizeof *z2); *z2 = *z1; memset(z1, 0, sizeof *z1);" % (z, c0, b0, d0))
    body.append("out(z2->a); out(z2->b); out(z2->d); out(h(z2->c, sizeof z2->c)); out(z2->c[%d] & 255);" % (z - 1))
    x = 0
    for i in range(z):
        x = (x * 31 + ((i * c0) & 255)) & 0xffffffff
    exp += [5, b0, d0, x, ((z - 1) * c0) & 255]
    L.append("int main(void) {\n  int i;\n  %s\n  return 0;\n}" % "\n  ".join(body))
    return "\n".join(L) + "\n", "".join("%x\n" % v for v in exp).encode()
