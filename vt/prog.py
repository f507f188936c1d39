"""Programs with a known meaning on any of the targets: written, compiled, run, judged.

make(c, key, target) -> dict: files {name: text} (the first .c is the main one), exp (bytes) or judge(out, ok) ->
None | (key, what), n (number of results in it), flags, extra (further sources in order), sample, oracle (a callable on
the directory giving a second opinion on the expected output, or None), stdin, args, status.
"""
import os, shutil, time

from . import core, targets


def diff(out, exp):
    a, e = out.split(b"\n"), exp.split(b"\n")
    for i in range(max(len(a), len(e))):
        x = a[i] if i < len(a) else b"<end of output>"
        y = e[i] if i < len(e) else b"<end of output>"
        if x != y:
            return "line %d: expected %r, got %r" % (i + 1, y[:200], x[:200])
    return "same"


def _worker(arg):
    c, target, chunk, keys, make = arg
    d = c.dir("%s-%s-%d" % (make.__name__, target, chunk))
    T = targets.TARGETS[target]
    es = []
    hangs = 0
    for k, key in enumerate(keys):
        if hangs > 1 or time.time() > c.deadline:
            break
        e = make(c, key, target)
        if e is None:
            continue
        base = ("p%05d" if T.run == "native" else "P%05d") % k
        sub = os.path.join(d, base + ".d") if T.run == "native" else d
        os.makedirs(sub, exist_ok=True)
        names = []
        for i, (n, t) in enumerate(e["files"].items()):
            fn = n
            if n.endswith(".c"):
                fn = base + ".c" if not names else "%s%c.c" % (base, 97 + len(names) - 1)
                names.append(fn)
            with open(os.path.join(sub, fn), "wb") as f:
                f.write(t if isinstance(t, bytes) else t.encode("latin-1"))
        exe, r = targets.compile_c(c.b, sub, target, base, e.get("flags", ()), names[1:], timeout=60)
        hangs += r.timeout
        e.update(key=key, base=base, exe=exe, proc=r, dir=sub)
        es.append(e)
    if T.run == "native":
        hangs = 0
        for e in es:
            if e["exe"] and hangs <= 1:
                p = core.run(list(e.get("wrap", ())) + targets.argv(c.b, target, e["exe"]) + list(e.get("args", ())), cwd=e["dir"], timeout=e.get("timeout", 20), mem_mb=0 if target == "mips" else 1024,
                             stdin=e.get("stdin"), env=e.get("env"))
                e["res"] = (None, None) if p.timeout else (targets.out_text(target, p.out), p.rc == 0, p.rc, p.err)
                hangs += p.timeout
    else:
        run = [e for e in es if e["exe"]]
        for e, r in zip(run, targets.dos_run(c.b, d, [e["exe"] + "".join(" " + a for a in e.get("args", ())) for e in run])):
            if r is not None:
                e["res"] = (targets.dos_text(r[0]), r[1])
    recs = []
    for e in es:
        rec = {"key": e["key"], "n": e.get("n", 1), "j": None, "sample": e.get("sample"), "cov": e.get("cov", {}), "files": None}
        if e.get("post") and e.get("res") and e["res"][0] is not None:
            rec["cov"] = dict(rec["cov"], **e["post"](e["res"]))
        if e["exe"] is None:
            r = e["proc"]
            if targets.capacity(r):
                rec["j"] = "skip"
            elif r.timeout:
                rec["j"] = ("compile-hang", "the toolchain did not finish on a valid program")
            else:
                rec["j"] = (e.get("rejkey", "rejected"), "a valid program was rejected: %s" % r.out[:600].decode("latin-1"))
        elif "res" not in e:
            rec["j"] = "skip"
        elif e["res"][0] is None:
            rec["j"] = ("hang", "the compiled program does not terminate")
        elif e.get("judge"):
            rec["j"] = e["judge"](*e["res"][:2])
        elif e["res"][0] != e["exp"]:
            rec["j"] = (e.get("vkey", "wrong-result"), diff(e["res"][0], e["exp"]))
        elif not e["res"][1] and not e.get("anystatus"):
            rec["j"] = ("status", "right output but exit status not 0 (%s)" % (e["res"][2:],))
        if rec["j"] and rec["j"] != "skip":
            if e.get("oracle"):
                ref = e["oracle"](e["dir"], e["base"])
                if ref is not None and ref != e["exp"]:
                    rec["j"] = "oracle"
            rec["files"] = dict(e["files"])
            rec["files"]["got.txt"] = e.get("res", (b"",))[0] or b""
            if "exp" in e:
                rec["files"]["expected.txt"] = e["exp"]
        recs.append(rec)
    shutil.rmtree(d, ignore_errors=True)
    return recs


def explore(c, target, keys, make, per=25, unit="results_compared", progs="programs_run"):
    """Runs make's programs for the keys on the target."""
    keys = list(keys)
    skipped = 0
    chunks = [keys[i:i + per] for i in range(0, len(keys), per)]
    for recs in c.pmap(_worker, [(c, target, i, ch, make) for i, ch in enumerate(chunks)]):
        for rec in recs:
            if rec["j"] == "skip":
                c.count("skipped_capacity")
                skipped += 1
                continue
            if rec["j"] == "oracle":
                c.inconclusive += 1
                continue
            c.case(n=rec["n"])
            c.nontrivial.add((make.__name__, target, rec["key"]))
            c.count(progs)
            c.count(unit, rec["n"])
            for k, v in rec["cov"].items():
                c.count(k, v)
            if rec["sample"] and len(c.samples) < 5 and not rec["j"]:
                c.samples.append("%s: %s" % (target, rec["sample"]))
            if rec["j"]:
                c.violation("%s:%s" % (target, rec["j"][0]), "%s: %s" % (target, rec["j"][1]), rec["files"])
                if len(c.viol) >= 10:
                    return
    if skipped > 3 and skipped > len(keys) // 3 and not c.viol:
        c.violation(target + ":capacity", "%s: %d of %d programs are refused for lack of capacity" % (target, skipped, len(keys)))
