"""C27: one program, every target."""
import os, shutil

from vt import core, port, prog, sem, targets
from checks import c05, c06, c07, c08

TECHNIQUE = "generated application programs (files, streams, sorting, trees, variadic and structure calls, non-local jumps, formatted text, arguments, status) compiled for all eight targets with randomly chosen neutral options, assemblers and ways to link, and run there; output, status and files written are compared with the same program under gcc and glibc; the code generators' own checks run on Windows, macOS and DPMI executables"
NOTE = ("Programs are sampled. DOS programs run in DOSBox, DPMI ones there with a host of ours (vt/native/dpmihost.asm), Windows and macOS ones in a loader of ours (vt/native/osrun.c), so what the real "
        "systems add is not seen. Programs too big for the tiny model are left out there.")
RULE = ("a case is one program on one target (or one result of a code generation program) whose output, exit status and files are compared with the reference; "
        "distinct: program and target, or program")
ALL = ("linux", "dost", "doss", "dosh", "dosu", "dosp", "win", "macos")
WIDE = ("linux", "dosh", "dosu", "dosp", "win", "macos")


def files_of(d, tag, text):
    o = {}
    for n in os.listdir(d):
        l = n.lower()
        if l[0] in "fg" and l[1:1 + len(tag)] == tag and l[-4:] in (".txt", ".dat"):
            with open(os.path.join(d, n), "rb") as f:
                b = f.read()
            o[l] = targets.dos_text(b) if text and l.endswith(".txt") else b
    return o


def what(exp, got):
    for n, a, b in zip(("output", "exit status"), exp, got):
        if a != b:
            return "%s: %s" % (n, prog.diff(b, a)) if isinstance(a, bytes) else "%s: expected %r, got %r" % (n, a, b)
    for n in sorted(set(exp[2]) | set(got[2])):
        a, b = exp[2].get(n), got[2].get(n)
        if a != b:
            return "file %s: %s" % (n, "not there" if b is None else "should not be there" if a is None else
                                    "expected %d bytes, got %d; first difference at %d" % (len(a), len(b), next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))))
    return None


def options(r, target, seg16):
    o = []
    if r.random() < .3:
        o.append("-nobss")
    k = r.random()
    if k < .25:
        o.append("-signed-char")
    elif k < .5:
        o.append("-unsigned-char")
    k = r.random()
    if k < .12:
        o += ["-asm", "yasm"]
    elif k < .2 and not seg16 and target not in ("dosh", "dosu"):
        o += ["-asm", "n2f"]
    if r.random() < .15:
        o += ["-map", "%s.map"]
    if target == "win" and r.random() < .2:
        o.append("-winstack")
    return o


def build(c, r, target, d, base, srcs):
    """One of the ways from sources to an executable: (exe or None, Proc)."""
    opts = [x % base if "%" in x else x for x in options(r, target, target in ("dost", "doss"))]
    way = r.random()
    if way < .6 or len(srcs) == 1:
        return targets.compile_c(c.b, d, target, base, opts, srcs[1:], timeout=60) + (opts,)
    # separately, perhaps through an archive
    t = targets.TARGETS[target]
    lopts = [x for i, x in enumerate(opts) if x == "-map" or i and opts[i - 1] == "-map"]
    copts = [x for i, x in enumerate(opts) if not (x == "-map" or i and opts[i - 1] == "-map")]
    exe = targets.exe_name(target, base)
    objs = []
    if target == "dosp":
        targets.compile_c(c.b, d, target, "none", ())       # (puts the DPMI host there)
    for s in srcs:
        n = s[:-2] + ".o"
        p = core.run(["smlrcc", t.flag, "-c"] + copts + [s, "-o", n], cwd=d, env=c.b.env(), timeout=60, merge=True)
        if p.rc:
            return None, p, opts
        objs.append(n)
    if way > .8:
        a = srcs[1][:-2] + ".a"
        p = core.run(["smlrcc", t.flag, "-c"] + copts + objs[1:] + ["-o", a], cwd=d, env=c.b.env(), timeout=60, merge=True)
        if p.rc:
            return None, p, opts
        objs[1:] = [a]
        opts = opts + ["(archive)"]
    p = core.run(["smlrcc", t.flag] + lopts + objs + ["-o", exe], cwd=d, env=c.b.env(), timeout=60, merge=True)
    return (exe if p.rc == 0 and os.path.exists(d + "/" + exe) else None), p, opts + ["(separate)"]


def worker(arg):
    c, keys = arg
    d = c.dir("app-%s" % keys[0])
    es = []
    for k, key in enumerate(keys):
        r = c.rng("app", key)
        wide = key % 3 == 2
        g = port.P(r, wide, "%02d" % k, key % 3 == 0)
        fs = g.program()
        rd = d + "/r%d" % k
        os.makedirs(rd)
        for n, t in fs.items():
            with open(rd + "/" + n, "w") as f:
                f.write(t)
        p = core.run(["gcc", "-w", "-O0", "-fno-builtin", "-o", "ref"] + list(fs), cwd=rd, timeout=60)
        if p.rc:
            raise RuntimeError("reference compile: %r" % p)
        stdin = (g.stdin or "").encode()
        p = core.run(["./ref"] + g.args, cwd=rd, stdin=stdin, timeout=20)
        if p.timeout or p.rc != g.status:
            raise RuntimeError("reference run %s: %r" % (key, p.rc))
        es.append((key, k, g, fs, (p.out, p.rc, files_of(rd, g.tag, False)), wide))
    out = []
    for target in ALL:
        td = d + "/" + target
        os.makedirs(td)
        dos = target.startswith("dos")
        run = []
        for key, k, g, fs, exp, wide in es:
            if wide and target not in WIDE or target in ("dost", "doss") and key % 3:
                continue
            r = c.rng("opt", key, target)
            base = "p%02d" % k if not dos else "P%02d" % k
            sub = td if dos else td + "/%d" % k
            os.makedirs(sub, exist_ok=True)
            srcs = []
            for i, (n, t) in enumerate(fs.items()):
                s = base + ("" if i == 0 else "xyz"[i - 1]) + ".c"
                with open(sub + "/" + s, "w") as f:
                    f.write(t)
                srcs.append(s)
            exe, p, opts = build(c, r, target, sub, base, srcs)
            if exe is None:
                if target in ("dost", "doss") and (targets.capacity(p) or b"oo large" in p.out or b"oo big" in p.out or b"xceeds" in p.out):
                    out.append((key, target, None, {"too_big_for_model": 1}, None))
                elif targets.capacity(p):
                    out.append((key, target, None, {"skipped_capacity": 1}, None))
                elif p.timeout:
                    out.append((key, target, None, {"timeouts": 1}, None))
                else:
                    out.append((key, target, ("rejected", "valid program rejected with %s: %s" % (" ".join(opts), p.out[-300:].decode("latin-1"))), {}, fs))
                continue
            run.append((key, k, g, fs, exp, sub, exe, opts))
        res = {}
        if dos:
            for key, k, g, fs, exp, sub, exe, opts in run:
                with open(sub + "/I%02d.TXT" % k, "wb") as f:
                    f.write((g.stdin or "").replace("\n", "\r\n").encode())
            rs = targets.dos_run(c.b, td, ["%s%s < I%02d.TXT" % (e[6], "".join(" " + a for a in e[2].args), e[1]) for e in run], want={i: e[2].status for i, e in enumerate(run)})
            for e, x in zip(run, rs):
                res[e[0]] = x if x is None or x[0] is None else (targets.dos_text(x[0]), e[2].status if x[1] else "another", files_of(td, e[2].tag, True))
        else:
            for key, k, g, fs, exp, sub, exe, opts in run:
                p = core.run(targets.argv(c.b, target, exe) + g.args, cwd=sub, stdin=(g.stdin or "").encode(), timeout=20, mem_mb=1024)
                res[key] = (None, None) if p.timeout else (targets.out_text(target, p.out), p.rc, files_of(sub, g.tag, target == "win"))
        for key, k, g, fs, exp, sub, exe, opts in run:
            x = res[key]
            cov = {"programs on " + target: 1}
            if x is None:
                out.append((key, target, None, {"timeouts": 1}, None))
                continue
            if x[0] is None:
                bad = ("hang", "the program does not end (%s)" % " ".join(opts))
            elif target in ("dost", "doss") and (b"NOMEM" in x[0] or b"no memory" in x[0]):
                out.append((key, target, None, {"out_of_memory_in_model": 1}, None))
                continue
            else:
                w = what(exp, x)
                bad = ("app", "%s (%s)" % (w, " ".join(opts))) if w else None
            cov.update({"lines_compared": exp[0].count(b"\n"), "files_compared": len(exp[2]), "episodes_run": g.cov["episodes"], "streams_read_from_stdin": g.stdin is not None,
                        "built_separately": "(separate)" in opts, "built_with_archives": "(archive)" in opts, "other_assemblers": "-asm" in opts, "with -nobss": "-nobss" in opts})
            out.append((key, target, bad, cov, dict(fs, **{"args.txt": " ".join(g.args), "stdin.txt": g.stdin or "", "expected.txt": exp[0], "got.txt": x[0] or b""}) if bad else None))
    shutil.rmtree(d, ignore_errors=True)
    return out


def check(c):
    c.rule = RULE
    c.assumptions = ["gcc -O0 and glibc as the reference for portable programs", "DOSBox", "our loaders for Windows, macOS and DPMI programs"]
    c.b.inst(("lcl", "lcds", "lcdh", "lcdu", "lcw", "lcm", "lcdp"))
    n = c.n(120, 6000)
    for recs in c.pmap(worker, [(c, list(range(i, min(n, i + 6)))) for i in range(0, n, 6)]):
        for key, target, bad, cov, fs in recs:
            for k, v in cov.items():
                c.count(k, v)
            if "programs on " + target in cov or bad:
                c.case()
                c.nontrivial.add(("app", key, target))
            if bad:
                c.violation("%s:%s" % (target, bad[0]), "%s: %s" % (target, bad[1]), fs)
                if len(c.viol) >= 10:
                    return
    if c.cov.get("too_big_for_model", 0) + c.cov.get("out_of_memory_in_model", 0) > n // 3:
        c.violation("capacity", "most programs do not fit into the small models: %s" % c.cov)
    for t in ("win", "macos", "dosp"):
        sem.explore(c, t, c.n(40, 3000), [{}, {"gen": {"big": .5, "fns": 8}}, {"gen": {"agg": .9}}, {"flags": ("-nobss",)}, {"flags": ("-unsigned-char",), "uchar": True}], 10)
        for f, k in ((c05.program, 16), (c06.program, 24), (c07.program, 24), (c08.maze, 16), (c08.calls, 16)):
            if len(c.viol) < 10:
                prog.explore(c, t, ["%s-%d" % (t, i) for i in range(c.n(k, k * 60))], f, per=8)
