#!/usr/bin/env python3
"""Makes data/reject.json (see vt/reject.py) from gcc's verdicts; E where this tree's compiler and gcc differ, which is
listed for review.  With a number: also audits so many random spellings of the cells against gcc."""
import json, os, re, subprocess, sys, collections, random, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from concurrent.futures import ThreadPoolExecutor
from vt import reject
from vt.build import Build
T = os.path.join(Build().tools(), "smlrc")
D = tempfile.mkdtemp()


def both(a):
    n, src, *opt = a
    f = os.path.join(D, "m%d" % n)
    with open(f + ".c", "w") as h:
        h.write(src)
    s = subprocess.run([T] + (opt or ["-seg32"]) + [f + ".c", f + ".s"], capture_output=True, text=True, errors="replace")
    g = subprocess.run(["gcc", "-m32", "-std=c99", "-pedantic-errors", "-Wno-overflow", "-Wno-div-by-zero", "-fsyntax-only", "-x", "c", f + ".c"], capture_output=True, text=True, errors="replace")
    for e in ".c", ".s":
        if os.path.exists(f + e):
            os.unlink(f + e)
    m = re.search(r"\((-?\d+):(-?\d+)\)\n(.*)", s.stdout)
    gm = [re.sub(r"'[^']*'|‘[^’]*’", "X", x.split("error: ")[1]) for x in g.stderr.split("\n") if "error: " in x]
    return s.returncode, (int(m.group(1)), m.group(3)) if m else (0, s.stdout[-60:]), g.returncode, gm[0] if gm else ""


def main():
    out = {}
    ex = ThreadPoolExecutor(8)
    for fam in ("cells", "decls"):
        items, lines = [], []
        if fam == "cells":
            for i, (key, kind, t) in enumerate(reject.cells()):
                src, ln = reject.plain(key, kind, t, reject.operands(None, key, kind))
                items.append((i, src))
                lines.append(ln)
            names = [k for k, _, _ in reject.cells()]
        else:
            for i, (key, src) in enumerate(reject.decls()):
                lines.append(src[:src.index("@@")].count("\n") + 1)
                items.append((i, src.replace("@@", "")))
            names = [k for k, _ in reject.decls()]
        v, off, ee = "", collections.Counter(), collections.defaultdict(list)
        for i, (s, m, g, gm) in enumerate(ex.map(both, items)):
            if bool(s) == bool(g):
                v += "R" if s else "A"
                if s:
                    off[m[0] - lines[i]] += 1
                    if m[0] != lines[i] and off[m[0] - lines[i]] < 10:
                        print("  line", m, lines[i], names[i])
            else:
                v += "E"
                ee[("accepts: " + gm) if g else ("refuses: " + m[1])].append(names[i])
        out[fam] = v
        print(fam, collections.Counter(v), "line offsets", off)
        for k, l in sorted(ee.items(), key=lambda x: -len(x[1])):
            print("  E %d %s %s" % (len(l), k, l[:6]))
    v, ee, off = "", collections.Counter(), collections.Counter()
    for i, (s, m, g, gm) in enumerate(ex.map(both, ((i, reject.mutant(i)[0]) for i in range(60000)))):
        if s and m[0] < reject.mutant(i)[1]:
            print("  mutant line", i, m, reject.mutant(i)[1])
        v += ("R" if s else "A") if bool(s) == bool(g) else "E"
        if v[-1] == "E":
            ee[("accepts: " + gm) if g else ("refuses: " + m[1])] += 1
    out["mutants"] = v
    print("mutants", collections.Counter(v))
    for k, n in ee.most_common():
        print("  E %d %s" % (n, k))
    json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "data", "reject.json"), "w"))
    items, what = [], []
    for name, place, neg, pos in reject.RULES:
        for exp, l in (("R", neg), ("A", pos)):
            for t in l:
                src, ln = reject.plain_rule(place, t)
                items.append((len(items), src, "-seg16" if place == "stmt16" else "-seg32"))
                what.append((name, place, exp, t, ln))
    for (name, place, exp, t, ln), (s, m, g, gm) in zip(what, ex.map(both, items)):
        bad = []
        if bool(s) != (exp == "R"):
            bad.append("smlrc %s %s" % ("refuses" if s else "accepts", m[1] if s else ""))
        elif s and m[0] != ln:
            bad.append("line %d not %d %s" % (m[0], ln, m[1]))
        if bool(g) != (exp == "R") and place not in ("stmt16",):
            bad.append("gcc %s %s" % ("refuses" if g else "accepts", gm))
        if bad:
            print("RULE", name, place, exp, repr(t), "; ".join(bad))
    if len(sys.argv) > 1:
        n, r = int(sys.argv[1]), random.Random(7)
        cs = reject.cells()
        it, w = [], []
        for i in range(n):
            j = r.randrange(len(cs))
            key, kind, t = cs[j]
            ops = reject.operands(r, key, kind)
            src, ln = reject.plain(key, kind, t, ops)
            it.append((i, src))
            w.append((key, ops, out["cells"][j], ln))
        c = collections.Counter()
        for (key, ops, v, ln), (s, m, g, gm) in zip(w, ex.map(both, it)):
            if v == "E":
                continue
            b = ("R" if g else "A") != v, ("R" if s else "A") != v, bool(s) and m[0] != ln
            c[b] += 1
            if any(b):
                print("AUDIT", key, ops, v, "gcc", g, gm, "smlrc", s, m, ln)
        print("audit", c)


main()
