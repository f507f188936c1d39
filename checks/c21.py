"""C21: the heap under random histories; an online content monitor in the program and an offline checker over its event log."""
from vt import prog

TECHNIQUE = ("random and adversarial allocation histories run on the real heaps with a content monitor inside the program and an offline checker of the event log "
             "(disjointness, alignment, bounds, zeroing, reuse, bounded footprint)")
NOTE = ("Sampled histories (mixed sizes, realloc chains, exhaustion, impossible sizes, calloc of reused memory) on the Linux, tiny, small, huge and unreal heaps; "
        "Windows and macOS programs run in a loader of ours (vt/native/osrun.c) whose HeapAlloc puts canaries around blocks. DPMI programs run in DOSBox with a DPMI host of ours (vt/native/dpmihost.asm). Assumes DOSBox's memory allocation for huge and unreal.")
RULE = "a case is one allocator call whose result and the state of all live blocks around it were checked; distinct: one per history"

SRC = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
char can1[64];
unsigned short T[] = { %s };
unsigned char *P[SLOTS]; unsigned Z[SLOTS]; unsigned char K[SLOTS];
char can2[64];
void px(unsigned v) { int i; for (i = sizeof(unsigned) * 8 - 4; i >= 0; i -= 4) putchar("0123456789abcdef"[(v >> i) & 15]); putchar(' '); }
void fillb(unsigned char *p, unsigned from, unsigned n, unsigned char k) { for (; from < n; from++) p[from] = k + from + (from >> 8) * 7; }
int okb(unsigned char *p, unsigned n, unsigned char k) { unsigned i; for (i = 0; i < n; i++) if (p[i] != ((k + i + (i >> 8) * 7) & 255)) return 0; return 1; }
void bad(char *w, int op, int s) { printf("BAD %%s op %%d slot %%d\n", w, op, s); }
void allb(int op) { int i; for (i = 0; i < SLOTS; i++) if (P[i] && !okb(P[i], Z[i], K[i])) { bad("content", op, i); fillb(P[i], 0, Z[i], K[i]); }
  for (i = 0; i < 64; i++) if (can1[i] != (i & 63) || can2[i] != (i & 63)) { bad("static data", op, i); can1[i] = can2[i] = i & 63; } }
int main(void)
{
  unsigned op, i, big = 0, step; unsigned short *t = T; unsigned char *p;
  char loc[4];
  for (i = 0; i < 64; i++) can1[i] = can2[i] = i;
  px((unsigned)can1); px((unsigned)can2); px((unsigned)T); px((unsigned)loc); putchar('\n');
  for (op = 0; *t != 99; op++, t += 5)
  {
    unsigned s = t[1], n = t[2], m = t[4];
    if (sizeof(int) > 2) n += (unsigned)t[3] << (sizeof(int) * 8 - 16);
    putchar('a' + t[0]); putchar(' '); px(s); px(n);
    switch (t[0])
    {
    case 0: case 1: /* malloc, calloc */
      if (P[s]) { if (!okb(P[s], Z[s], K[s])) bad("content", op, s); free(P[s]); P[s] = 0; }
      if (t[0] == 0) p = malloc(n); else { p = calloc(n, m); px(m); n = n * m; }
      px((unsigned)p);
      if (p) {
        if (t[0] == 1) for (i = 0; i < n; i++) if (p[i]) { bad("calloc not zero", op, s); break; }
        if (n > 0 && n <= MAXN) { P[s] = p; Z[s] = n; K[s] = op * 37 + s; fillb(p, 0, n, K[s]); }
        else if (n) { p[0] = 1; free(p); putchar('x'); }
      }
      break;
    case 2: /* realloc */
      p = realloc(P[s], n);
      px((unsigned)p);
      if (p) {
        unsigned c = P[s] ? n < Z[s] ? n : Z[s] : 0;
        if (n > MAXN) { putchar('x'); free(p); P[s] = 0; break; }
        if (P[s] && !okb(p, c, K[s])) bad("realloc prefix", op, s);
        if (!P[s]) K[s] = op * 37 + s;
        P[s] = p; Z[s] = n; fillb(p, c, n, K[s]);
      } else if (P[s] && n && !okb(P[s], Z[s], K[s])) bad("content after failed realloc", op, s);
      break;
    case 3: if (P[s] && !okb(P[s], Z[s], K[s])) bad("content", op, s); free(P[s]); P[s] = 0; break;
    case 4: /* the biggest block there is now (found by bisection), given back */
      big = 0; for (step = 0x8000U; step > 15; step >>= 1) if ((p = malloc(big + step))) { big += step; free(p); }
      px(big);
      break;
    case 5: /* after everything was freed, the block of case 4 must be there again */
      for (i = 0; i < SLOTS; i++) if (P[i]) { if (!okb(P[i], Z[i], K[i])) bad("content", op, i); free(P[i]); P[i] = 0; }
      if (big) { p = malloc(big); px((unsigned)p); if (!p) bad("freed memory is not reusable", op, 0); else free(p); }
      break;
    }
    if ((op & 15) == 15) allb(op);
    putchar('\n');
  }
  allb(op);
  printf("END\n");
  return 0;
}
"""


def history(c, key, target):
    r = c.rng("heap", key)
    bits = 16 if target in ("dost", "doss") else 32
    slots = r.choice([4, 12, 30])
    cap = {"dost": 20000, "doss": 20000, "dosh": 60000, "dosu": 60000}.get(target, 60000)
    nops = r.choice([60, 300, 700]) if bits == 32 else r.choice([60, 250, 500])
    mx = r.choice([40, 300, 2000, cap // slots, cap // 2])
    style = r.choice(["mix", "mix", "realloc", "cycle", "odd", "shrink"])
    M = (1 << bits) - 1
    ops = []

    def size():
        k = r.random()
        if k < 0.45:
            return r.randint(1, mx)
        if k < 0.65:
            return r.randint(1, 64)
        if k < 0.8:
            return max(1, min(cap, (1 << r.randint(0, mx.bit_length())) + r.randint(-9, 9)))
        return r.randint(1, max(1, mx // 10))

    def weird():
        return r.choice([0, 0, M, M - r.randint(0, 40), M - r.randint(0, 4000), (M >> 1) + r.randint(-30, 30), M - (M >> 2), M - r.randint(0, M >> 3), cap * 10 & M or 1])
    ops.append((4, 0, 0, 0)) if r.random() < .7 and target != "linux" else None
    phase = 0
    for i in range(nops):
        s = r.randrange(slots)
        if i % 60 == 0:
            phase = r.random()
        k = r.random()
        if style == "odd" and k < 0.25 or k < 0.01:
            w = weird()
            kind = r.choice([0, 1, 2])
            ops.append((kind, s, w, r.choice([1, 2, 3, 0x100, 0x101, 0xffff]) if kind == 1 else 0))
        elif style == "realloc" and k < 0.75:
            ops.append((2, s, size(), 0))
        elif style == "shrink" and k < 0.8:
            if r.random() < 0.25:
                ops.append((2, s, mx, 0))
            else:
                ops.append((2, s, r.randint(1, mx), 0))
        elif k < 0.1 + 0.75 * phase:
            ops.append((r.choice([3, 3, 3, 3]), s, 0, 0))
        elif k < 0.93:
            if r.random() < 0.3:
                n = size()
                e = r.choice([1, 2, 4, n, 3])
                ops.append((1, s, max(1, n // e), e))
            else:
                ops.append((0, s, size(), 0))
        else:
            ops.append((2, s, size(), 0))
        if style == "cycle" and i % 97 == 96:
            ops.append((5, 0, 0, 0))
    ops.append((5, 0, 0, 0))
    ops = [o for o in ops if o]
    words = ["%dU" % x for o in ops for x in (o[0], o[1], o[2] & 0xffff, o[2] >> 16 & 0xffff, o[3])] + ["99"]
    src = "#define SLOTS %d\n#define MAXN %dU\n" % (slots, 60000 if bits == 16 else 1000000 if target in ("linux", "win", "macos") else 250000) + SRC % ", ".join(words)
    return {"files": {"m.c": src}, "judge": lambda out, ok: judge(out, ok, ops, bits, target, slots), "n": len(ops), "vkey": "heap", "cov": {"histories." + style: 1},
            "sample": "history of %d calls, %d slots, sizes to %d, style %s" % (len(ops), slots, mx, style)}


def judge(out, ok, ops, bits, target, slots):
    text = out.decode("latin-1")
    lines = text.split("\n")
    if "BAD" in text:
        i = text.index("BAD")
        return "heap", text[max(0, i - 200):i + 100].strip().split("BAD")[-1]
    if "END" not in lines:
        return "heap", "the program died after %d of %d operations: %s" % (len(lines) - 2, len(ops), lines[-1][:80])
    if not ok:
        return "heap", "exit status not 0"
    M = (1 << bits) - 1
    objs = [int(x, 16) for x in lines[0].split()]
    live = {}
    align = {"win": 8, "macos": 4}.get(target, 8 if bits == 16 else 16)     # no type needs more than 4
    lo = hi = None
    peak = total = 0
    for op, l in zip(ops, lines[1:]):
        f = l.split()
        k = ord(f[0]) - 97
        xd = f[-1].endswith("x") or f[-1] == "x"
        f = [x.rstrip("x") for x in f if x != "x"]
        s, n = int(f[1], 16), int(f[2], 16)
        assert k == op[0] and s == op[1], l
        if k == 3:
            live.pop(s, None)
        elif k == 5:
            live.clear()
        elif k in (0, 1, 2):
            p = int(f[-1], 16)
            want = n
            if k == 1:
                want = n * int(f[3], 16)
            if k < 2:
                live.pop(s, None)
            if p:
                if not want and target != "win":
                    # C lets a zero size give a unique pointer; the library gives NULL
                    return "heap", "%s of 0 bytes gives %x" % ("malloc calloc realloc".split()[k], p)
                if want > M or p + want > M + 1:
                    return "heap", "an impossible request (%d bytes) succeeds: %s" % (want, l)
                if p % align:
                    return "heap", "misaligned block %x" % p
                old = live.pop(s, None)
                for t, (q, z) in live.items():
                    if p < q + z and q < p + want:
                        return "heap", "overlapping blocks %x+%x and %x+%x" % (p, want, q, z)
                for o in objs:
                    if p <= o < p + want:
                        return "heap", "block %x+%x contains a program object at %x" % (p, want, o)
                if not xd:
                    live[s] = (p, want)
                    total = sum(z for q, z in live.values())
                    peak = max(peak, total)
                    lo = p if lo is None else min(lo, p)
                    hi = p + want if hi is None else max(hi, p + want)
            elif 0 < want <= 40 and sum(z + 32 for q, z in live.values()) < {"linux": 10 ** 9}.get(target, 10 ** 9 if target in ("win", "macos") else 8000):
                return "heap", "a request of %d bytes fails with only %d bytes live" % (want, total)
            elif want and target in ("linux", "win", "macos") and want < 1000000:
                return "heap", "a request of %d bytes fails" % want
    # first fit with coalescing keeps the footprint within a small multiple of what was live
    if target in ("linux", "macos") and lo is not None and hi - lo > 6 * (peak + slots * 64) + 16384:
        return "heap", "the heap grew to %d bytes for at most %d live" % (hi - lo, peak)
    return None


def check(c):
    c.rule = RULE
    c.assumptions = ["DOSBox implements DOS memory allocation"]
    c.b.inst(("lcl", "lcds", "lcdh", "lcdu", "lcw", "lcm", "lcdp"))
    for t, n in (("linux", (240, 20000)), ("doss", (120, 4000)), ("dost", (60, 1500)), ("dosh", (40, 2000)), ("dosu", (24, 1000)), ("win", (60, 5000)), ("macos", (60, 5000)), ("dosp", (24, 1500))):
        prog.explore(c, t, ["%s-%d" % (t, i) for i in range(c.n(*n))], history, per=10, unit="calls_checked", progs="histories_run")
        if len(c.viol) >= 10:
            return
