"""Random programs against the values C prescribes, on one target."""
import os, random, shutil, time

from . import core, targets
from .cgen import Gen


def first_diff(out, exp, own):
    a, e = out.split(b"\n"), exp.split(b"\n")
    for i in range(len(e)):
        if i >= len(a) or a[i] != e[i]:
            return "line %d (function %s): expected %r, got %r" % (
                i + 1, own[i] if i < len(own) else "-", e[i], a[i] if i < len(a) else b"<end of output>")
    return "extra output %r" % out[len(exp):][:80]


OPTSETS = {
    "linux": [(), (), ("-signed-char",), ("-unsigned-char",), ("-nobss",), ("-no-leading-underscore",) if False else ()],
}


def gen(c, seed, dm, opts):
    g = Gen(c.rng("prog", seed), dm, opts)
    src, exp, own = g.program()
    return src, exp, own, g


def build_batch(c, target, d, items, variants):
    """Generates and compiles the programs of items: list of dicts."""
    out = []
    hangs = 0
    T = targets.TARGETS[target]
    for k, it in enumerate(items):
        if hangs > 1 or time.time() > c.deadline:
            break
        rnd = c.rng("var", it)
        v = rnd.choice(variants)
        dm = T.dm()
        if v.get("uchar"):
            dm.char_signed = False
        src, exp, own, g = gen(c, it, dm, v.get("gen"))
        base = ("p%05d" if T.run == "native" else "P%05d") % k
        with open(os.path.join(d, base + ".c"), "w") as f:
            f.write(src)
        exe, r = targets.compile_c(c.b, d, target, base, v.get("flags", ()))
        hangs += r.timeout
        e = {"seed": it, "base": base, "exe": exe, "exp": exp, "own": own, "proc": r, "fns": len(g.fns), "v": v,
             "feat": g.feat, "lines": len(own), "src": src}
        out.append(e)
    return out


def judge(c, target, d, e, out, ok):
    """None or (key, what)."""
    if e["exe"] is None:
        if targets.capacity(e["proc"]):
            return "skip"
        if e["proc"].timeout:
            return ("compile-hang", "the toolchain did not finish on a valid program")
        return ("rejected", "a valid program was rejected: %s" % e["proc"].out[:400].decode("latin-1"))
    if out is None:
        return ("hang", "the compiled program does not terminate (the C program does)")
    if out != e["exp"] or not ok:
        what = "%s: %s%s" % (target, first_diff(out, e["exp"], e["own"]) if out != e["exp"] else "right output",
                             "" if ok else "; exit status not 0")
        return ("wrong-result", what)
    return None


def worker(arg):
    c, target, chunk, items, variants = arg
    d = c.dir("%s-%d" % (target, chunk))
    es = build_batch(c, target, d, items, variants)
    runnable = [e for e in es if e["exe"]]
    if targets.TARGETS[target].run == "native":
        hangs = 0
        for e in list(runnable):
            if hangs > 1:
                es.remove(e)
                continue
            r = core.run(targets.argv(c.b, target, e["exe"]), cwd=d, timeout=10, mem_mb=0 if target == "mips" else 512)
            e["res"] = (None, None) if r.timeout else (targets.out_text(target, r.out), r.rc == 0)
            hangs += r.timeout
    else:
        rs = targets.dos_run(c.b, d, [e["exe"] for e in runnable])
        for e, r in zip(runnable, rs):
            if r is None:
                es.remove(e)
            else:
                e["res"] = (targets.dos_text(r[0]), r[1])
    outl = []
    for e in es:
        out, ok = e.get("res", (None, None))
        j = judge(c, target, d, e, out, ok)
        rec = {"seed": e["seed"], "fns": e["fns"], "lines": e["lines"], "feat": e["feat"], "j": j, "src": None, "out": None,
               "exp": None, "flags": e["v"].get("flags", ()), "bytes": len(e["src"])}
        if j and j != "skip":
            rec["src"], rec["out"], rec["exp"] = e["src"], out or b"", e["exp"]
            if j[0] in ("wrong-result", "hang") and targets.TARGETS[target].dm().int_size == 4:
                # a second opinion on the expected output
                ref = targets.gcc_ref(d, e["base"], ("-funsigned-char",) if e["v"].get("uchar") else ("-fsigned-char",))
                if ref is not None and ref != e["exp"]:
                    rec["j"] = "oracle"
            if j[0] == "rejected":
                r = core.run(["gcc", "-m32", "-w", "-fsyntax-only", e["base"] + ".c"], cwd=d, timeout=60)
                if r.rc:
                    rec["j"] = "oracle"
        outl.append(rec)
    shutil.rmtree(d, ignore_errors=True)
    return outl


def explore(c, target, count, variants, per=25):
    """Runs count random programs on the target and records what was seen."""
    items = ["%s-%d" % (target, i) for i in range(count)]
    chunks = [items[i:i + per] for i in range(0, len(items), per)]
    args = [(c, target, i, ch, variants) for i, ch in enumerate(chunks)]
    skipped = 0
    feats = c.cov.setdefault("constructs_generated", {})
    for recs in c.pmap(worker, args):
        for rec in recs:
            if rec["j"] == "skip":
                c.count("skipped_capacity")
                skipped += 1
                continue
            if rec["j"] == "oracle":
                c.inconclusive += 1
                continue
            c.case(n=rec["lines"])
            c.nontrivial.add((target, rec["seed"]))
            c.count("programs_run")
            c.count("functions_run", rec["fns"])
            c.count("results_compared", rec["lines"])
            for k, v in rec["feat"].items():
                feats[k] = feats.get(k, 0) + v
            if rec["j"]:
                key, what = rec["j"]
                c.violation("%s:%s" % (target, key), "%s [options %s]" % (what, " ".join(rec["flags"]) or "-"),
                            {"prog.c": rec["src"], "expected.txt": rec["exp"], "got.txt": rec["out"]})
                if len(c.viol) >= 10:
                    return
            elif len(c.samples) < 3:
                c.samples.append("%s program %s: %d functions, %d result lines matched, %d bytes of C" % (
                    target, rec["seed"], rec["fns"], rec["lines"], rec["bytes"]))
    if skipped > 3 and skipped > count // 4 and not c.viol:
        c.violation(target + ":capacity", "%s: %d of %d programs are refused for lack of capacity" % (target, skipped, count))
