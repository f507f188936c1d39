"""C10: programs that break a rule are rejected at the right line, their valid neighbours accepted."""
import os, re, subprocess

from vt import core, reject, targets

TECHNIQUE = "runtime monitoring of the compiler's verdict: exit status, diagnostic and reported file and line observed for generated programs with one or two planted violations, or none, at random places; oracle: verdict tables made from gcc -std=c99 -pedantic-errors (operator by operand matrix, pairs of declarations, mutants), a catalogue of single rules, and the generator's record of where the violation is"
NOTE = "Where SmallerC documents or shows a leniency or a subset that differs from C99 (a cell of the tables marked E), nothing is judged. The verdict tables and the catalogue are visited completely in the thorough tier; places, spellings and contexts are sampled."
RULE = "a case is one compilation whose exit status, diagnostic, reported file and line, or whose complete output, was judged; distinct: different program text"
MODES = [("smlrc", "-seg32", True), ("smlrc", "-seg32", True), ("smlrc", "-seg32", True), ("smlrc", "-seg16", False), ("smlrc", "-huge", True), ("smlrc", "-unreal", True), ("smlrc", "-seg32 -winstack", True), ("smlrcmips", "", True)]
OPENEND = {"i = 1", "goto l1", "return 1", "do ; while (i)", "do while (i) ;", "do ; ", "{ ;", "{ struct Z { int k; } ", "asm(\"nop\")", "int z", "int z(", "int z(void", "int z[", "int z[3", "int z(void) { return 1; ", "struct Z { int k; }"}


class Job:
    def __init__(self, key, src, exp, line, fl=True, after=False, kind=""):
        self.key, self.src, self.exp, self.line, self.fl, self.after, self.kind = key, src, exp, line, fl, after, kind


def spawn(argv, cwd, env=None):
    for t in 30, 90:
        try:
            p = subprocess.run(argv, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
            return p.returncode, p.stdout.decode("latin-1")
        except subprocess.TimeoutExpired:
            pass
    return None, ""


def cap(out):
    return any(x.decode("latin-1") in out for x in targets.CAPACITY)


def judge(c, d, j, mode, st):
    """One compilation: None or (key, what)."""
    tool, opt, fl = mode
    with open(d + "/p.c", "w", encoding="latin-1") as f:
        f.write(j.src)
    if os.path.exists(d + "/p.asm"):
        os.unlink(d + "/p.asm")
    rc, out = spawn([os.path.join(c.b.tools(), tool)] + opt.split() + ["p.c", "p.asm"], d)
    if rc is None:
        st["inconclusive"] = st.get("inconclusive", 0) + 1
        return None
    return verdict(j, rc, out, "p.c", d + "/p.asm", st)


def verdict(j, rc, out, name, asm, st):
    if j.exp == "A":
        if rc:
            if cap(out):
                st["capacity"] = st.get("capacity", 0) + 1
                return None
            return "refused:" + j.key, "a valid program is refused (status %d): %s" % (rc, out[:300])
        with open(asm, "rb") as f:
            tail = f.read()[-60:]
        if b"Compilation succeeded" not in tail:
            return "incomplete:" + j.key, "status 0 and no complete output: ...%r" % tail
        st["accepted"] = st.get("accepted", 0) + 1
        return None
    if rc == 0:
        return "accepted:" + j.key, "a program with a violation is accepted (it is on line %d)" % j.line
    m = re.search(r'Error in "([^"\n]*)" \((-?\d+):(-?\d+)\)\n(.+)', out)
    if rc < 0 or not m:
        return "no-diagnostic:" + j.key, "rejected without a diagnostic (status %d): %s" % (rc, out[:300])
    if cap(out):
        st["capacity"] = st.get("capacity", 0) + 1
        return None
    at = int(m.group(2))
    if m.group(1) != name:
        return "wrong-file:" + j.key, "reported in %s, is in %s: %s" % (m.group(1), name, m.group(0))
    last = j.src.count("\n") + 1
    if not (j.line <= at <= last if j.after else at == j.line):
        return "wrong-line:" + j.key, "reported on line %d, is on line %d: %s" % (at, j.line, m.group(0))
    st["rejected"] = st.get("rejected", 0) + 1
    msg = re.sub(r"'[^']*'|token .*|\d+", "", m.group(4))[:40]
    st.setdefault("messages", set()).add(msg)
    return None


# ---- the jobs ----
def cell_job(r, i, t, fl):
    key, kind, tem = reject.cells()[i] if not _C else _C[i]
    v = t["cells"][i]
    if v == "E" or not fl and reject.floaty(key):
        return None
    # (in a static initializer, a dimension or a case label not every spelling of an accepted operand is constant)
    fixed = v == "A" and (key[0] == "g" or key[0] == "st" and key[1] in ("sinit", "sinitp", "sinitc", "sinits", "sdim", "dim", "case", "enum"))
    ops = reject.operands(None if fixed else r, key, kind)
    e = tem % ops if kind != "ret" else "return %s;" % ops[0]
    k = "/".join(key)
    if kind == "stmt":
        # (an operand of a category may be an array, struct or void: only in places for any expression)
        src, ln = reject.carry(r, "any", r.choice(reject.WRAP) % e, fl)
    elif kind == "whole":
        src, ln = reject.carry(r, "any", e, fl)
    elif kind == "ret":
        src, ln = reject.carry(r, "%s target(int x, char *y)" % tem, e, fl)
    else:
        src, ln = reject.carry(r, "file", e, fl)
    return Job(k, src, v, ln, fl, kind="cell")


_C, _D = [], []


def decl_job(r, i, t):
    key, text = _D[i]
    v = t["decls"][i]
    if v == "E":
        return None
    k = "/".join(key)
    am = r.choice([0, .1, .3])
    # (the first declaration may break a rule by itself)
    first = key[0] in ("dbb", "dnb", "dasz", "daddr", "duselater") and t["decls"][_DI[("db", key[1])]] == "R" or key[0] == "dlabel" and t["decls"][_DI[("db", key[1])]] == "R"
    a, b = text.split("@@")
    a = "\n".join(a.split("\n")[:-1])
    fill = "" if r.random() < .5 else "int fill(int k)\n{\nint m = k;\nreturn m * 2;\n}\n"
    pre = reject.mix(r, fill + a, am)
    src = pre + "\n" + b
    ln = pre.count("\n") + 2
    if r.random() < .3:
        src = src.rstrip("\n") + "\n" + reject.noise(r) + "\nint fill2(int k)\n{\nreturn k;\n}\n"
    return Job(k, src, v, 1 if first else ln, True, first, kind="decl")


_DI = {}


def rule_job(r, n, fl=None):
    name, place, exp, t = _R[n]
    if place == "stmt16":
        fl = False
    elif place in ("stmt32", "stmtf"):
        fl = True
    snip = t
    ctx = {"stmt": "stmt", "stmt16": "stmt", "stmt32": "stmt", "stmtf": "stmt"}.get(place, place)
    free = name not in ("break-outside", "continue-outside", "case-outside") and not re.search(r"\b(break|continue|case|default|goto|else)\b|\w+ *: *;|^\w+:", t)
    if ctx == "stmt" and free and t not in OPENEND:
        ctx = "any"
    src, ln = reject.carry(r, ctx, snip, fl, False)
    after = t in OPENEND or name == "goto-undef" or exp == "R" and place == "file" and not t.rstrip().endswith((";", "}")) or "'\n" in t
    return Job("%s:%s" % (name, t), src, exp, ln, fl, after, kind="rule"), place


_R = []


def mutant_job(i, t):
    v = t["mutants"][i]
    if v == "E":
        return None
    src, ln = reject.mutant(i)
    return Job("mutant", src, v, ln, True, True, kind="mutant")


def two(r, t):
    """Two violations: the first is the one reported."""
    js = []
    while len(js) < 2:
        n = r.randrange(len(_R))
        name, place, exp, s = _R[n]
        if exp == "R" and place == "stmt" and s not in OPENEND and "\n" not in s and "@@" not in s and name not in ("goto-undef", "label", "literal") and not re.search(r"[{(\[](?![^{]*[})\]])", s) and s.count("{") == s.count("}") and s.count("(") == s.count(")") \
           and "\"" not in s and "'" not in s and s.rstrip().endswith((";", "}")):
            js.append((name, s))
    mid = "\n".join(["{ %s }" % r.choice(reject.FILL) for _ in range(r.randrange(3))] + [""])
    src, ln = reject.carry(r, "stmt", "@@%s\n%s%s" % (js[0][1], mid, js[1][1]), True)
    return Job("two:%s:%s" % (js[0][1], js[1][1]), src, "R", ln, True, False, kind="two")


def init(t):
    if not _C:
        _C.extend(reject.cells())
        _D.extend(reject.decls())
        for i, (k, _) in enumerate(_D):
            _DI[k] = i
        for name, place, neg, pos in reject.RULES:
            for exp, l in (("R", neg), ("A", pos)):
                for s in l:
                    _R.append((name, place, exp, s))
        assert len(_C) == len(t["cells"]) and len(_D) == len(t["decls"])


def work(a):
    c, n, items = a
    t = reject.table()
    init(t)
    d = c.dir("w%d" % n)
    st, viol, seen = {}, [], []
    for what, i, rep in items:
        r = c.rng(what, i, rep)
        mode = r.choice(MODES)
        place = None
        if what == "cell":
            j = cell_job(r, i, t, mode[2])
        elif what == "decl":
            j = decl_job(r, i, t)
            mode = mode if mode[2] and mode[0] == "smlrc" else MODES[0]
        elif what == "rule":
            j, place = rule_job(r, i, mode[2])
            if j.fl != mode[2]:
                mode = r.choice([m for m in MODES if m[2] == j.fl])
            # (file-scope redefinitions are left to the assembler for MIPS)
            if place == "file" and mode[0] == "smlrcmips":
                mode = MODES[0]
        elif what == "two":
            j = two(r, t)
            mode = mode if mode[2] else MODES[0]
        else:
            j = mutant_job(i, t)
            mode = MODES[0]
        if j is None:
            st["not_judged"] = st.get("not_judged", 0) + 1
            continue
        st[j.kind] = st.get(j.kind, 0) + 1
        v = judge(c, d, j, mode, st)
        seen.append(hash(j.src))
        if v:
            viol.append((v[0], "%s\n%s\n(%s %s)\n%s" % (v[1], j.key, mode[0], mode[1], j.src), {"p.c": j.src}))
    return st, viol, seen


def merge(c, res):
    msgs = set()
    for st, viol, seen in res:
        for k, v in st.items():
            if k == "messages":
                msgs |= v
            elif k == "inconclusive":
                c.inconclusive += v
            else:
                c.count(k, v)
        for k, w, f in viol:
            c.violation(k, w, f)
        for s in seen:
            c.case(s)
    c.count("distinct_messages", len(msgs))
    return msgs


# ---- through the driver ----
PPNEG = ['#if 1', '#if 0', '#ifdef A', '#ifndef A', '#if 1\n#else', '#else', '#endif', '#elif 1', '#if 1\n#endif\n#endif', '#if\n#endif', '#if 1 +\n#endif', '#if (1\n#endif', '#if 1)\n#endif', '#if 1 2\n#endif', '#if 1/0\n#endif', '#if 1%0\n#endif', '#if "a"\n#endif', '#if 1.5\n#endif',
         '#if 1 ? 2\n#endif', '#if defined\n#endif', '#if defined(\n#endif', '#if defined(A\n#endif', '#if defined 1\n#endif', '#if 0x\n#endif', '#if 08\n#endif', '#if 1 = 1\n#endif', '#ifdef\n#endif', '#ifdef 1\n#endif', '#ifndef "a"\n#endif', '#undef', '#undef 1', '#define', '#define 1 2',
         '#define "a" 1', '#define F(a', '#define F(a b) a', '#define F(a,a) a', '#define F(1) 1', '#define F(a,) a', '#define F(...,a) a', '#define F(a) #b', '#define F(a) #', '#define G ## a', '#define G a ##', '#define F(a) ## a', '#define F(a) __VA_ARGS__', '#define A 1\n#define A 2',
         '#define A 1\n#define A() 1', '#define F(a) a\n#define F(b) b', '#define A 1 2\n#define A 12', '#define defined 1', '#define __LINE__ 5', '#include', '#include nosuch', '#include "nosuch.h"', '#include <nosuch.h>', '#include "nosuch', '#include <nosuch', '#error', '#error stop here',
         '#if 1\n#error stop\n#endif', '#line', '#line x', '#line 5 x', '#line -1', '#nosuch', '#12x', '#define F(a) a\nint z = F(1;', '#define F(a) a\nint z = F(1,2);', '#define F(a,b) a\nint z = F(1);', '#define F(a,b) a\nint z = F();', '#define F() 1\nint z = F(1);', '/* open', 'int z = "abc;', "int z = 'a;",
         '#if 1\n/* #endif', '#define F(x) #x\nchar *z = F(");', '#define A(x x', '#if 1 == \n#endif', '#if ~\n#endif', '#if !\n#endif', '#if 1 &&\n#endif', '#if 99999999999999999999\n#endif', "#if ''\n#endif", "#if 'a\n#endif", '#if 1L ? : 2\n#endif', '#if 1 : 2\n#endif', '#if A B\n#endif', '#if FOO(1)\n#endif',
         '#if 0\n#elif\n#endif', '#if 0\n#elif 1 +\n#endif', '#pragma pack(3)', '#define CAT(a,b) a##b\nint z = CAT(1,;);', '#define CAT(a,b) a##b\nint z CAT(+,1) 2;', '#define M int z = 1\nM', '#define M }\nint z(void) { M }', '#define M(x) x x\nint M(z);']
PPPOS = ['#if 1\n#endif', '#if 0\n#endif', '#ifdef A\n(\n#else\n#endif', '#if 0\n@ ` ) ]\n#endif', '#if 0\n#elif 1\n#else\n(\n#endif', '#if 1\n#elif\n#endif', '#if 0\n#if 1\n#else\n#endif\n#error no\n#endif', '#define A 1\n#define A 1', '#define A 1\n#undef A\n#define A 2\nint z = A;', '#undef NOTDEFINED',
         '#define F(a) a\n#define F(a) a\nint z = F(1);', '#define F() 1\nint z = F();', '#define F(a) #a\nchar *z = F(");" + 1);', '#define F(a, b) a ## b\nint F(z, 1);', '#define F(a, ...) a + __VA_ARGS__\nint z = F(1, 2);', '#define E\nE int E z E ; E', '#', '#line 7', '#line 9 "other.c"', '#include <stddef.h>',
         '#include <stdio.h>\n#include <string.h>\n#include <stdlib.h>', '#if defined(A) || !defined B && 1\n#endif', "#if 'a' == 97 && (3 ? 1 : 0) && -1 < 0 && ~0 == -1\n#endif", '#if FOO\n#error\n#endif', '#ifndef A\n#define A\n#endif', '/* a */ # /* b */ define /* c */ A /* d */ 1\nint z = A;',
         'int z = 1\\\n2;', '#define M(x) x x\nM(;) int z;' if False else 'char *z = "a//b/*c";', '#define I(x) <x.h>\n#include I(stddef)', '#if 0x7fffffff > 0 && 10u > 9 && 5L\n#endif', '#define A(x) (x)\nint z = A((1, 2) , 3) ;' if False else '#define A(x) (x)\nint z = A(A(A(1)));', '#define f(x) x f\nint z = f(1);' if False else '#define self self\nint self;']


def driver(a):
    c, n = a
    r = c.rng("driver", n)
    t = reject.table()
    init(t)
    d = c.dir("d%d" % n)
    env = c.b.env()
    tgt = r.choice(["-linux", "-linux", "-dost", "-doss", "-dosh", "-dosu", "-win", "-flat32"])
    st, viol = {}, []
    fl = tgt not in ("-dost", "-doss")
    files = {}
    if n < len(PPNEG) + len(PPPOS):
        neg = n < len(PPNEG)
        s = PPNEG[n] if neg else PPPOS[n - len(PPNEG)]
        pre = reject.mix(r, "int pre;\nint pre2(int x);", .4, True) + "\n"
        pp, ln, exp, key, after = pre + s + "\nint post;\nint main(void)\n{\nreturn 0;\n}\n", pre.count("\n") + 1, "R" if neg else "A", "pp:" + s, True
    else:
        for _ in range(100):
            i = r.randrange(len(_R))
            j, place = rule_job(r, i, fl)
            name, _, exp, s = _R[i]
            if j.fl == fl and s not in OPENEND and not ("\n" in s or "#" in s or "L'" in s and exp == "R" or name == "literal" and exp == "R"):
                break
        src, ln = reject.carry(r, "stmt" if place.startswith("stmt") else place, s, fl, True)
        pp, exp, key, after = src, j.exp, "driver:" + j.key, j.after
        names = set(re.findall(r"\b(f0|f1|f2|vf|vfn|sf|ff|pf|kr)\b", src))
        if exp == "A":
            pp += "int main(void)\n{\nreturn 0;\n}\n"
    name = "p.c"
    lines = pp.split("\n")
    if n >= len(PPNEG) and exp == "R" and r.random() < .5 and len(lines) > 6:
        # the first part in a header (not inside a comment, a conditional or a spliced line)
        cuts = [k for k in range(1, len(lines)) if lines[k].startswith(("int ", "struct ", "union", "typedef"))]
        k = r.choice(cuts)
        files["h1.h"] = "\n".join(lines[:k]) + "\n"
        inc = [reject.noise(r) for _ in range(r.randrange(3))] + ['#include "h1.h"']
        inc = "\n".join(inc).split("\n")
        lines = inc + lines[k:]
        if ln <= k:
            name = "h1.h"
        else:
            ln += len(inc) - k
    files["p.c"] = "\n".join(lines)
    files["ok.c"] = "int okfun(int x)\n{\nreturn x + 1;\n}\n"
    for f, s in files.items():
        with open(os.path.join(d, f), "w", encoding="latin-1") as h:
            h.write(s)
    multi = r.random() < .3
    link = not (exp == "A" and n >= len(PPNEG) + len(PPPOS))      # (the carriers' externals are nowhere defined)
    form = r.choice(["exe", "exe", "obj", "asm"]) if link and exp == "R" else "exe" if link else "asm"
    if tgt == "-flat32" and form == "exe":
        tgt, form = "-linux", "exe"
    outn = {"exe": "out.bin", "obj": "p.o", "asm": "p.asm"}[form]
    srcs = ["p.c"]
    if multi and form == "exe":
        srcs = r.choice([["ok.c", "p.c"], ["p.c", "ok.c"]])
    argv = [os.path.join(c.b.tools(), "smlrcc"), tgt] + {"exe": ["-o", outn], "obj": ["-c"], "asm": ["-S"]}[form] + srcs
    rc, out = spawn(argv, d, env)
    if rc is None:
        return {"inconclusive": 1}, [], []
    have = os.path.exists(os.path.join(d, outn))
    what = None
    if exp == "R":
        ms = re.findall(r'Error in "([^"\n]*)" \((-?\d+):', out) + re.findall(r"^([\w./]+): (?:error: )?line (\d+):(?! warning)", out, re.M)
        fileonly = re.findall(r"^([\w./]+): (?!warning)", out, re.M)
        if rc == 0:
            what = "driver-status:" + key, "the driver's exit status is 0"
        elif have and form in ("exe", "obj"):
            what = "driver-output:" + key, "%s was made" % outn
        elif cap(out):
            st["capacity"] = 1
        elif not ms and not fileonly:
            what = "driver-diagnostic:" + key, "no diagnostic with a place"
        elif n >= len(PPNEG):
            m = [x for x in ms]
            if not any(f.endswith(name) and (int(l) == ln if not after else int(l) >= ln) for f, l in m):
                what = "driver-place:" + key, "reported %r; it is in %s, line %d" % (m, name, ln)
        else:
            if ms and not any(f.endswith("p.c") and ln <= int(l) <= files["p.c"].count("\n") + 1 for f, l in ms):
                what = "driver-place:" + key, "reported %r; it is in p.c, line %d or the next ones" % (ms, ln)
        if not what:
            st["driver_rejected"] = 1
    else:
        if rc and not cap(out):
            what = "driver-refused:" + key, "a valid program is refused (status %d)" % rc
        elif not rc and not have:
            what = "driver-noout:" + key, "status 0 and no %s" % outn
        else:
            st["driver_accepted"] = 1
    st["driver"] = 1
    st["driver_" + form] = 1
    if what:
        viol.append((what[0], "%s\n%s\n%s\n%s" % (what[1], " ".join(argv[1:]), out[:600], files["p.c"]), files))
    return st, viol, [hash(files["p.c"])]


def check(c):
    c.rule = RULE
    c.assumptions = ["the committed verdict tables (data/reject.json, from gcc -std=c99 -pedantic-errors) are right where gcc and the tree they were made on agreed"]
    c.b.inst(("lcl", "lcds", "lcdh", "lcdu", "lcw"))
    t = reject.table()
    init(t)
    r = c.rng("order")
    items = []
    full = c.thorough

    def take(what, total, n):
        ids = list(range(total))
        if n >= total:
            for rep in range(n // total):
                items.extend((what, i, rep) for i in ids)
        else:
            items.extend((what, i, 0) for i in r.sample(ids, n))
    take("rule", len(_R), len(_R) * c.n(2, 40))
    # (accepted cells are the rarer ones: all of them)
    for what, tab in (("cell", t["cells"]), ("decl", t["decls"]), ("mutant", t["mutants"])):
        acc = [i for i, v in enumerate(tab) if v == "A"]
        rej = [i for i, v in enumerate(tab) if v == "R"]
        for ids, q in ((acc, c.n(3000, 60000)), (rej, c.n({"cell": 14000, "decl": 6000, "mutant": 4000}[what], 200000))):
            if what == "mutant":
                q = min(q, len(ids)) if full else min(q, 2500)
            for rep in range(max(1, q // len(ids))):
                items.extend((what, i, rep) for i in (ids if q >= len(ids) else r.sample(ids, q)))
    items.extend(("two", i, 0) for i in range(c.n(800, 20000)))
    r.shuffle(items)
    k = 64 if not full else 1024
    msgs = merge(c, c.pmap(work, [(c, n, items[n::k]) for n in range(k)]))
    c.count("catalogue_entries", len(_R))
    merge(c, c.pmap(driver, [(c, n) for n in range(len(PPNEG) + len(PPPOS) + c.n(250, 6000))]))
    c.samples.extend(sorted(msgs)[:6])
