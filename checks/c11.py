"""C11: preprocessing yields the tokens the C standard prescribes."""
import os, re
from vt import core, ppgen

TECHNIQUE = "random trees of preprocessor input run through smlrpp; the token sequence is compared online with gcc -E -std=c99 -pedantic-errors, the line markers with the generator's own record of where each line came from"
NOTE = "Sampling; inputs that gcc rejects as violating constraints are left out. Assumes gcc's preprocessor (two unspecified behaviours are avoided: order of # and ##, and calls that begin inside a replacement and end outside)."
RULE = "a case is one tree of files preprocessed (its whole token sequence and every sentinel's file and line compared); distinct: different trees"
FLAGS = ["-U", "__STDC_VERSION__", "-zI"]


def lines_of(out):
    """Tokens of preprocessed output with file and line: list of (token, file, line)."""
    f, l = None, 0
    res = []
    for ln in out.split("\n"):
        m = re.match(r'\s*#\s*(?:line\s+)?(\d+)(?:\s+"((?:\\.|[^"\\])*)")?(?:\s+\d+)*\s*$', ln)
        if m:
            l = int(m.group(1))
            if m.group(2) is not None:
                f = m.group(2)
            continue
        if re.match(r"\s*#\s*pragma\b", ln):
            l += 1
            continue
        for t in ppgen.tokens(ln):
            res.append((t, f, l))
        l += 1
    return res


def one(c, d, files, sent, flags, gflags):
    """None | "invalid" | (key, what)"""
    for n, t in files.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(t)
    g = core.run(["gcc", "-E", "-std=c99", "-pedantic-errors", "-undef", "-U__STDC_VERSION__", "-nostdinc", "-ftabstop=1", "-I", ".", "-x", "c", "m.c"] + gflags, cwd=d, env={"PATH": "/usr/bin:/bin", "LC_ALL": "C"}, mem_mb=0)
    if g.rc:
        return "invalid", g.err
    p = core.run(["smlrpp"] + FLAGS + flags + ["-I", ".", "m.c"], cwd=d, env=c.b.env(), timeout=30)
    if p.rc is None:
        return "timeout", None
    if p.rc:
        return ("rejected", "smlrpp rejects what gcc -E -pedantic-errors accepts: rc=%d %s" % (p.rc, p.err[:300].decode("latin-1"))), None
    a, b = lines_of(p.out.decode("latin-1")), lines_of(g.out.decode("latin-1"))
    ta, tb = [x[0] for x in a], [x[0] for x in b]
    if ta != tb:
        i = next((i for i in range(min(len(ta), len(tb))) if ta[i] != tb[i]), min(len(ta), len(tb)))
        return ("tokens", "token %d: expected ... %s, got ... %s" % (i, " ".join(tb[max(0, i - 6):i + 8]), " ".join(ta[max(0, i - 6):i + 8]))), None
    for t, f, l in a:
        if t in sent and (os.path.normpath(f or ""), l) != sent[t]:
            return ("line", "%s stands on line %d of %s, but the output says line %d of %s" % ((t,) + sent[t][::-1] + (l, f))), None
    return None, (len(ta), sum(x[0] in sent for x in a))


def worker(a):
    c, k, n = a
    res, st = [], {}
    for i in range(n):
        r = c.rng("pp", k, i)
        g = ppgen.G(r)
        files = g.make(r.choice([3, 6, 10, 16, 25]))
        flags, gf = [], []
        if r.random() < .2:
            v = r.choice(["", "=", "=3", "=x y", "=(1,2)"])
            flags += ["-DCMD" + v]
            gf += ["-DCMD" + v]
            files["m.c"] = files["m.c"] + "CMD\n#ifdef CMD\nyes\n#endif\n"
        d = c.dir("p%d/%d" % (k, i))
        j, extra = one(c, d, files, g.sent, flags, gf)
        core.shutil.rmtree(d, ignore_errors=True)
        if j == "invalid":
            st["left_out_as_invalid"] = st.get("left_out_as_invalid", 0) + 1
            continue
        if j == "timeout":
            st["inconclusive"] = st.get("inconclusive", 0) + 1
            continue
        st["trees"] = st.get("trees", 0) + 1
        if j:
            res.append((j, files))
            continue
        st["tokens_compared"] = st.get("tokens_compared", 0) + extra[0]
        st["line_positions_compared"] = st.get("line_positions_compared", 0) + extra[1]
        for a_, b_ in g.feat.items():
            st["f." + a_] = st.get("f." + a_, 0) + b_
    return res, st


def check(c):
    c.rule = RULE
    c.assumptions = ["gcc's preprocessor as the reference", "the generator's record of line numbers"]
    c.b.tools()
    n = c.n(9000, 300000)
    per = 60
    for k, (res, st) in enumerate(c.pmap(worker, [(c, k, per) for k in range(n // per)])):
        for a, b in st.items():
            if a == "inconclusive":
                c.inconclusive += b
            else:
                c.count(a, b)
        c.case(None, None, n=st.get("trees", 0))
        for i in range(st.get("trees", 0)):
            c.nontrivial.add(k * 1000 + i)
        for (key, what), files in res:
            if sum(v[0] == key for v in c.viol) < 4:
                c.violation(key, what, files)
        if len(c.viol) > 10:
            break
    if c.cov.get("left_out_as_invalid", 0) > 3 * c.cov.get("trees", 1):
        raise RuntimeError("the generator makes too few valid inputs")
