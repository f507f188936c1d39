"""C24: mathematical functions against quadruple precision."""
import os, subprocess

from vt import core, targets

TECHNIQUE = "the functions of <math.h>, both the f-suffixed and the plain ones, are called with millions of random, boundary and special arguments (Linux natively, huge and unreal mode in DOSBox); an independent judge computes every result in quadruple precision and compares bits (exact functions, infinities, zeros and their signs, text round trips), the error in units in the last place against the bound the algorithm has, and errno"
NOTE = "Arguments are sampled (about 12 million quick), special values exhaustively paired. The error allowed to exp, pow, expm1, cosh, sinh grows with the exponent computed in single precision; sin, cos and tan get what a 64-bit pi loses. In DOSBox what its FPU gets wrong (NaN compares, conversions of huge numbers, -0) is left out. Windows and macOS executables run in a loader of ours (vt/native/osrun.c) and DPMI ones with a host of ours."
RULE = "a case is one call, its result, second result and errno compared; distinct: different calls of the largest batch of each function"

SRC = r"""#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
#include <math.h>
typedef union { unsigned u; float f; int i; } T;
T q[3 * 256], r[3 * 256];
char buf[200];
void one(T *q, T *r) {
  float a = q[1].f, b = q[2].f; char *e;
  r[0].u = r[1].u = 0; errno = 0;
  switch (q[0].u) {
  case 0: r->f = frexpf(a, &r[1].i); break; case 64: r->f = frexp(a, &r[1].i); break;
  case 1: r->f = ldexpf(a, q[2].i); break; case 65: r->f = ldexp(a, q[2].i); break;
  case 2: r->f = modff(a, &r[1].f); break; case 66: r->f = modf(a, (double*)&r[1].f); break;
#define O2(n, g) case n: r->f = g##f(a, b); break; case n + 64: r->f = g(a, b); break;
#define O1(n, g) case n: r->f = g##f(a); break; case n + 64: r->f = g(a); break;
  O2(3, fmod) O1(4, fabs) O1(5, ceil) O1(6, floor) O1(7, round) O1(8, trunc) O1(9, sqrt) O2(10, hypot) O1(11, exp) O1(12, exp2) O1(13, expm1) O2(14, pow) O1(15, log) O1(16, log2) O1(17, log10)
  O1(18, sin) O1(19, cos) O1(20, tan) O2(21, atan2) O1(22, atan) O1(23, acos) O1(24, asin) O1(25, cosh) O1(26, sinh) O1(27, tanh)
  case 28: case 92: sprintf(buf, q[0].u == 28 ? "%.9g" : "%.8e", a); r->f = strtod(buf, &e); r[1].u = *e; break;
  default: r[1].u = 77;
  }
  r[2].u = errno == EDOM ? 1 : errno == ERANGE ? 2 : errno ? 3 : 0;
}
int main(int argc, char **argv) {
  FILE *f = fopen(argv[1], "rb"), *g = fopen(argv[2], "wb");
  int n, i;
  if (!f || !g) return 1;
  while ((n = fread(q, 12, 256, f)) > 0) {
    for (i = 0; i < n; i++) one(q + 3 * i, r + 3 * i);
    if (fwrite(r, 12, n, g) != n) return 2;
  }
  return fclose(g) != 0;
}
"""
NOPS = 29


def build_ref(c):
    src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vt", "native", "mathref.c")
    d = c.dir("ref")
    subprocess.run(["gcc", "-O2", "-w", src, "-o", d + "/mathref", "-lquadmath", "-lm"], check=True, stdin=subprocess.DEVNULL)
    return d + "/mathref"


def judge(ref, d, i, o, extra):
    p = subprocess.run([ref, "judge", i, o, extra], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, check=True)
    bad, stat = [], []
    dist = 0
    for ln in p.stdout.decode().split("\n"):
        w = ln.split()
        if w and w[0] == "BAD":
            bad.append((w[1], w[2], ln))
        elif w and w[0] in ("SHORT", "LONG"):
            bad.append(("all", "length", "the program gave too %s a result file" % w[0].lower()))
        elif w and w[0] == "DISTINCT":
            dist = int(w[1])
        elif w and w[0] == "STAT":
            stat.append((w[1], int(w[2]), float(w[3]), [int(x) for x in w[4:]]))
    return bad, [x[:4] + (dist,) for x in stat]


def one(a):
    c, ref, t, exe, k, op, n = a
    d = c.dir("n%s%s-%d" % (t, k, op))
    seed = core.stable_seed(c.seed, k) & 0x7fffffff
    with open(d + "/in", "wb") as f:
        subprocess.run([ref, "gen", str(seed), str(op), str(n)], stdout=f, check=True, stdin=subprocess.DEVNULL)
    p = core.run(targets.argv(c.b, t, "")[:-1] + [exe, "in", "out"], cwd=d, timeout=120, mem_mb=512)
    if p.rc is None:
        return [], [], "inc"
    if p.rc:
        return [("all", "status", "the program ends with status %s: %s" % (p.rc, p.err[-200:]))], [], None
    bad, stat = judge(ref, d, "in", "out", "0")
    os.unlink(d + "/in"), os.unlink(d + "/out")
    return bad, stat, None


def dos(a):
    c, ref, t, n = a
    d = c.dir("d" + t)
    with open(d + "/mt.c", "w") as f:
        f.write(SRC)
    exe, r = targets.compile_c(c.b, d, t, "mt")
    if not exe:
        return [("all", "rejected", r.out[-500:].decode("latin-1"))], [], None
    with open(d + "/IN.DAT", "wb") as f:
        for op in range(NOPS):
            subprocess.run([ref, "gen", str(core.stable_seed(c.seed, t) & 0x7fffffff), str(op), str(n)], stdout=f, check=True, stdin=subprocess.DEVNULL)
    r = targets.dos_run(c.b, d, [exe + " IN.DAT OUT.DAT"], timeout=120)[0]
    if r is None or r[0] is None:
        return [], [], "inc"
    if not r[1]:
        return [("all", "status", "the program fails")], [], None
    return judge(ref, d, "IN.DAT", "OUT.DAT", ".1") + (None,)


def check(c):
    c.rule = RULE
    c.assumptions = ["libquadmath and the exact functions of the host's libm", "the host's x87", "DOSBox's FPU where it is used"]
    c.b.inst(("lcl", "lcdh", "lcdu", "lcw", "lcm", "lcdp"))
    ref = build_ref(c)
    d = c.dir("l")
    with open(d + "/mt.c", "w") as f:
        f.write(SRC)
    n = 100000
    jobs = []
    for t, m in (("linux", (10, 600)), ("win", (1, 30)), ("macos", (1, 30))):
        exe, r = targets.compile_c(c.b, d, t, "mt")
        if not exe:
            c.violation(t + ":rejected", r.out[-500:].decode("latin-1"), {"mt.c": SRC})
            return
        os.rename(d + "/" + exe, d + "/" + t)
        jobs += [(one, (c, ref, t, d + "/" + t, k if t == "linux" else "%s%d" % (t, k), op, n if t == "linux" else n // 4)) for k in range(c.n(*m)) for op in range(NOPS)]
    jobs += [(dos, (c, ref, t, c.n(4000, 60000))) for t in ("dosh", "dosu", "dosp")]
    best, dist = {}, {}
    for (f, a), (bad, stat, inc) in zip(jobs, c.pmap(call, jobs)):
        t = a[2]
        c.inconclusive += inc is not None
        for fn, key, what in bad:
            c.violation("%s:%s:%s" % (t, fn, key), t + ": " + what, {"mt.c": SRC})
        for fn, cnt, mx, (spec, edom, erng, over, under), ds in stat:
            c.case(n=cnt)
            c.count("calls of " + fn, cnt)
            c.count("special results", spec)
            c.count("domain errors", edom)
            c.count("pole errors", erng)
            c.count("overflows", over)
            if t == "linux":
                dist[fn] = max(dist.get(fn, 0), ds)
                best[fn] = max(best.get(fn, 0), mx)
    c.cov["largest error seen, as a fraction of the bound"] = {k: round(v, 3) for k, v in sorted(best.items()) if v}
    # one batch per function: others may repeat some of its calls
    c.nontrivial.update(range(sum(dist.values())))
    c.samples.append("powf(0x3f7fffff, 0x45851ed5), modff(-inf), ldexpf(0x00000001, 2147483647), printf(\"%.9g\") and strtod")


def call(x):
    return x[0](x[1])
