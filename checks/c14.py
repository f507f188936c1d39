"""C14: exactly the needed objects, and conflicts reported."""
import os, re, subprocess
from vt import core, link as L
from checks import c13

TECHNIQUE = "random symbol graphs over objects and archives (GNU, BSD, mixed and short member names, symbol tables, ar-made and smlrcc-made archives) linked by the real linker, optimised and under AddressSanitizer+UBSan; an independent closure decides which objects belong into the image, the image is read back byte by byte, the map has to list exactly the symbols of the included objects, and missing or doubly defined symbols have to be named; archives made by the driver are unpacked with ar"
NOTE = "Sampling of graphs of up to 300 objects. Weak and common symbols are documented as unsupported and not generated."
RULE = "a case is one link of one graph, or one archive made by the driver and compared member by member; distinct: different graphs"


def names(r, n):
    """Symbol names, many of them prefixes, suffixes or case variants of each other."""
    out = []
    base = ["f", "_f", "ff", "F", "f_", "f.1", "f$1", "main", "_main", "__start_", "__stop", "x" * 255, "x" * 256, "x" * 257, "y" * 3000, "a b", "\xe9", "0", ".text", "start", "?q@@", "sym'q", "per%s", "@at"]
    seen = {"__start"}
    while len(out) < n:
        b = r.choice(base)
        k = r.random()
        if k < .3:
            b = b + str(len(out))
        elif k < .6:
            b = b + r.choice(["", "_", "a", "A", ".", "$"]) * r.randrange(1, 4) + (str(r.randrange(n)) if r.random() < .7 else "")
        elif k < .8:
            b = str(r.randrange(2 * n)) + b
        elif out:
            b = r.choice(out) + r.choice("abc01")
        if b not in seen and b != "__start_" and not L.startstop(b):
            seen.add(b)
            out.append(b)
    return out


def graph(r, fmt):
    """Objects: the program, bystanders, and a few defects on some draws."""
    n = r.choice([1, 2, 3, 5, 8, 13, 20] + ([60, 300] if r.random() < .05 else []))
    nb = r.randrange(0, n + 3)
    tot = n + nb
    sy = names(r, tot * 2)
    objs = []
    for i in range(tot):
        o = L.Obj(r.choice(["a%d.o", "exactly15c%d.o", "exactly_16ch%d.o", "a_very_long_member_name_%d.o", "sp ace%d.o", "%d", "dot.dot.%d.o", "/slash%d"]) % i)
        t = o.sec(".text", L.PROGBITS, L.A | L.X, 4, ("T%05d" % i).encode() + bytes(r.randrange(30)))
        o.mine = []
        if r.random() < .6:
            dd = o.sec(".data", L.PROGBITS, L.A | L.W, r.choice([1, 4]), ("D%05d" % i).encode() * r.randrange(1, 4))
        else:
            dd = t
        for k in range(1 if i % 3 else 2):
            nm = sy[2 * i + k]
            o.sym(nm, L.GLOBAL, r.choice([t, dd]), r.randrange(0, 6), r.choice([0, 1, 2]))
            o.mine.append(nm)
        if r.random() < .3:       # a local symbol that has the name of somebody's global
            o.sym(r.choice(sy[:2 * tot]), L.LOCAL, t, 0)
        objs.append(o)
    entry = "__start" if r.random() < .7 else r.choice(["go", "e" * 300, "_"])
    objs[0].sym(entry, L.GLOBAL, objs[0].secs[0], 0, 2)
    objs[0].mine.append(entry)

    def refer(a, b, nm=None):
        nm = nm or r.choice(b.mine)
        y = a.ref(nm)
        if r.random() < .7:
            t = a.secs[0]
            p = len(t.data)
            t.data += bytes(4)
            t.size += 4
            t.rels.append((p, L.R32 if fmt not in L.B16 else L.R16, y))
    order = list(range(n))
    r.shuffle(order)
    order.remove(0)
    order.insert(0, 0)
    shape = r.random()
    for k in range(1, n):            # a tree or a chain from the entry
        refer(objs[order[k - 1 if shape < .3 else r.randrange(k)]], objs[order[k]])
    for _ in range(r.randrange(0, n + 1)):
        refer(objs[r.randrange(n)], objs[r.randrange(n)])
    for i in range(n, tot):
        for _ in range(r.randrange(0, 3)):
            refer(objs[i], objs[r.randrange(tot)])
        if r.random() < .4:
            objs[i].ref("missing_" + r.choice(sy))
    for i in range(n, tot):          # repeated definitions in bystanders
        if r.random() < .5:
            s = r.choice(objs[r.randrange(n)].mine)
            if not any(y.name == s for y in objs[i].syms):
                objs[i].sym(s, L.GLOBAL, objs[i].secs[0], 1)
    k = r.random()
    if k < .12:
        objs[r.randrange(n)].ref("nowhere" + r.choice(["", "_1", "z" * 500]))
    elif k < .24 and n > 1:
        a, b = r.sample(range(n), 2)
        s = r.choice(objs[a].mine)
        if not any(y.name == s for y in objs[b].syms):
            objs[b].sym(s, L.GLOBAL, objs[b].secs[0], 2)
    elif k < .28:
        entry = r.choice(["no_entry", entry[:-1] + "x", entry + "x"])
    r.shuffle(objs)
    return objs, entry


def expect(objs, entry):
    """-> (included, names missing, names defined twice)"""
    first = {}
    for o in objs:
        for s in o.syms:
            if s.bind == L.GLOBAL and s.sec != L.UND:
                first.setdefault(s.name, o)
    inc, miss, todo = [], set(), [entry]
    ids = set()
    while todo:
        s = todo.pop()
        o = first.get(s)
        if o is None:
            miss.add(s)
        elif id(o) not in ids:
            ids.add(id(o))
            todo += [y.name for y in o.syms if y.bind == L.GLOBAL and y.sec == L.UND]
    inc = [o for o in objs if id(o) in ids]
    cnt = {}
    for o in inc:
        for y in o.syms:
            if y.bind == L.GLOBAL and y.sec != L.UND:
                cnt[y.name] = cnt.get(y.name, 0) + 1
    return inc, miss, {k for k, v in cnt.items() if v > 1}


def one(a):
    c, k, n, tools, san = a
    res, st = [], {"ok": 0, "miss": 0, "dup": 0, "inc": 0, "members": 0, "archives": 0, "objects": 0, "included": 0, "seen": set(), "styles": set()}
    for i in range(n):
        r = c.rng("g", k, i)
        d = c.dir("g%d" % k)
        c13.clean(d)
        fmt = r.choice(["elf", "flat32", "pe", "mach", "flat16", "tiny", "small", "huge", "unreal", "aout", "elf", "flat32"])
        objs, entry = graph(r, fmt)
        # group into files
        paths, j = [], 0
        pa = r.choice([0, .3, .8, 1])
        while j < len(objs):
            if r.random() < pa:
                m = r.randrange(1, min(len(objs) - j, 40) + 1)
                mem = objs[j:j + m]
                style = r.choice(["gnu", "bsd", "mixed", "short", "ar", "empty"])
                st["styles"].add(style)
                p = "l%d.%s" % (j, r.choice(["a", "a", "lib", "o"]))
                if style == "ar" and all("/" not in o.name for o in mem) and len({o.name for o in mem}) == len(mem):
                    for o in mem:
                        with open(d + "/" + o.name, "wb") as f:
                            f.write(o.image(r))
                    subprocess.run(["ar", r.choice(["rc", "rcs", "rcS", "rcD"]), p] + ["./" + o.name for o in mem], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, check=True)
                    for o in mem:
                        os.remove(d + "/" + o.name)
                else:
                    if style == "empty" and r.random() < .5:
                        with open(d + "/empty%d.a" % j, "wb") as f:
                            f.write(b"!<arch>\n")
                        paths.append("empty%d.a" % j)
                    if style in ("short", "bsd", "ar", "empty") and any("/" in o.name for o in mem):
                        style = "mixed"
                    with open(d + "/" + p, "wb") as f:
                        f.write(L.archive([(o.name.replace("/", "_") if style in ("ar", "empty") else o.name, o.image(r)) for o in mem], r, None if style in ("ar", "empty") else style))
                paths.append(p)
                st["members"] += m
                st["archives"] += 1
                j += m
            else:
                p = "o%d.o" % j
                with open(d + "/" + p, "wb") as f:
                    f.write(objs[j].image(r))
                paths.append(p)
                j += 1
        files_order = list(objs)
        if r.random() < .15 and paths:      # an input given twice: its second copy must never matter
            q = r.choice(paths)
            paths.append(q)
        opts = dict(fmt=fmt, entry=entry, nobss=False)
        args = c13.command(r, fmt, opts, paths)
        if r.random() < .3:
            with open(d + "/out", "w") as f:
                f.write("old")
        if any(" " in x for x in args):
            p = core.run([(san if r.random() < .3 else tools) + "/smlrl"] + args, cwd=d, env={"ASAN_OPTIONS": "detect_leaks=0"}, timeout=60, mem_mb=0)
        else:
            p = c13.link(san if r.random() < .3 else tools, d, args, r)
        if p.rc is None:
            st["inc"] += 1
            continue
        inc, miss, dup = expect(files_order, entry)
        st["objects"] += len(objs)
        st["seen"].add(core.stable_seed(k, i, len(objs)))
        v = None
        txt = p.out + p.err
        quoted = {x.decode("latin-1") for x in re.findall(rb"Symbol '(.*)' ", txt)}
        if c13.BAD.search(txt):
            v = "sanitizer", txt[-1500:].decode("latin-1")
        elif p.rc < 0:
            v = "signal", "signal %d" % -p.rc
        elif miss or dup:
            st["miss" if miss else "dup"] += 1
            want = {x.encode().decode("latin-1") for x in (miss or dup)}
            w2 = want | {x.encode().decode("latin-1") for x in dup}
            if p.rc == 0:
                v = "accepted", "exit 0; missing %r, defined twice %r" % (sorted(miss)[:5], sorted(dup)[:5])
            elif os.path.exists(d + "/out"):
                v = "left", "the output file is left; missing %r, defined twice %r" % (sorted(miss)[:5], sorted(dup)[:5])
            elif not quoted & w2:
                v = "message", "message %r; missing %r, defined twice %r" % (txt[-200:], sorted(miss)[:5], sorted(dup)[:5])
            elif (b"not found" in txt.split(b"Symbol '")[-1]) != bool(quoted & {x.encode().decode("latin-1") for x in miss}):
                v = "message", "message %r; missing %r, defined twice %r" % (txt[-200:], sorted(miss)[:5], sorted(dup)[:5])
        else:
            m, err = c13.model(files_order, opts)

            def check(img):
                L.compare(m, img, objs=files_order, opts=opts)
                # every included object shows its mark once; no other does
                for o in files_order:
                    mark = o.secs[0].data[:6]
                    L.need(img.count(mark) == (o in inc), "object %s appears %d times, is %sneeded", o.name, img.count(mark), "" if o in inc else "not ")
                if "map" in args and " " not in "".join(y.name for o in inc for y in o.syms):
                    with open(d + "/map", "rb") as f:
                        t = f.read()
                    L.compare_map(m, t) if all(ord(ch) < 128 for o in inc for y in o.syms for ch in y.name) else None
            v = c13.verdict(p, d, m, err, check)
            st["ok"] += 1
            st["included"] += len(inc)
        if v:
            res.append((v[0], "%s\nsmlrl %s" % (v[1], " ".join(args)), c13.files(d)))
    return res, st


def driver(a):
    """Archives made by smlrcc hold the objects unchanged, in order, under their names."""
    c, k, n, tools = a
    res, st = [], {"n": 0, "members": 0, "inc": 0}
    for i in range(n):
        r = c.rng("drv", k, i)
        d = c.dir("d%d" % k)
        subprocess.run(["find", d, "-mindepth", "1", "-delete"], check=True)
        objs = []
        for j in range(r.choice([1, 2, 3, 7, 20])):
            nm = r.choice(["a%d.o", "exactly15ch%d.o", "exactly_16chr%d.o", "long_member_name_of_more_than_sixteen_%d.o", "sub/m%d.o", "sub/dir/with_a_rather_long_name_%d.o", "d.o.t%d.o", "A%d.O"]) % j
            if nm.endswith(".O"):
                nm = nm[:-1] + "o"
            os.makedirs(os.path.dirname(d + "/" + nm), exist_ok=True)
            o = L.Obj(nm)
            t = o.sec(".text", L.PROGBITS, L.A | L.X, 4, r.randbytes(r.randrange(1, 3000)))
            o.sym("s%d" % j if j else "__start", L.GLOBAL, t, 0)
            if j:
                objs[-1][2].ref("s%d" % j)
            objs.append([nm, None, o])
        for x in objs:
            x[1] = x[2].image(r)
            with open(d + "/" + x[0], "wb") as f:
                f.write(x[1])
        env = c.b.env()
        p = core.run([tools + "/smlrcc"] + [x[0] for x in objs] + ["-c", "-o", "lib.a"], cwd=d, env=env, timeout=30)
        if p.rc is None:
            st["inc"] += 1
            continue
        v = None
        if p.rc:
            v = "archive-refused", "smlrcc: exit %d %s" % (p.rc, (p.out + p.err)[-300:].decode("latin-1"))
        else:
            t = subprocess.run(["ar", "t", "lib.a"], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            q = subprocess.run(["ar", "p", "lib.a"], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if t.returncode or q.returncode:
                v = "archive-bad", "ar: %s" % (t.stderr + q.stderr)[-300:].decode("latin-1")
            elif t.stdout.decode().split("\n")[:-1] != [os.path.basename(x[0]) for x in objs]:
                v = "archive-names", "ar t: %r, members %r" % (t.stdout, [x[0] for x in objs])
            elif q.stdout != b"".join(x[1] for x in objs):
                v = "archive-contents", "ar p gives %d bytes, members have %d" % (len(q.stdout), sum(len(x[1]) for x in objs))
            else:
                q = core.run([tools + "/smlrl", "-flat32", "lib.a", "-o", "out"], cwd=d, env=env, timeout=30)
                m, err = c13.model([x[2] for x in objs], dict(fmt="flat32", entry="__start"))
                v = c13.verdict(q, d, m, err, lambda img: L.compare(m, img))
        st["n"] += 1
        st["members"] += len(objs)
        if v:
            res.append((v[0], v[1], {x[0]: x[1] for x in objs}))
    return res, st


def check(c):
    c.rule = RULE
    tools, san = c.b.tools(), c.b.san_tools()
    c.b.inst(())
    c.assumptions += ["GNU ar as reader and writer of archives"]
    for res, st in c.pmap(one, [(c, k, 40, tools, san) for k in range(c.n(90, 2500))]):
        for key, what, fl in res:
            c.violation(key, what, fl)
        for x in st["seen"]:
            c.case(x)
        c.inconclusive += st["inc"]
        for a, b in (("links compared", "ok"), ("missing symbols named", "miss"), ("double definitions named", "dup"), ("archives", "archives"), ("members", "members"), ("objects offered", "objects"), ("objects included", "included")):
            c.count(a, st[b])
    for res, st in c.pmap(driver, [(c, k, 20, tools) for k in range(c.n(8, 100))]):
        for key, what, fl in res:
            c.violation(key, what, fl)
        c.case(n=st["n"])
        c.inconclusive += st["inc"]
        c.count("archives made by smlrcc", st["n"])
        c.count("members compared", st["members"])
    c.samples += ["graphs of 1 to 300 objects in random order, loose or in archives; names such as f, _f, f., f$, x*255"]
