"""C13: images hold every section and fixup where the format says."""
import os, re, struct
from vt import core, link as L

TECHNIQUE = "random relocatable objects (written here) linked by the real linker, optimised and under AddressSanitizer+UBSan, for every output format; per-format loaders read each image back into memory as the target system would and a model written from the documentation decides where every byte, permission, entry point, zeroed region, base relocation and map line has to be; images with base relocations are also loaded elsewhere; planted violations of each limit have to be reported"
NOTE = "Sampling. The objects are synthetic (objects of NASM, YASM and FASM are linked in C17 and everywhere else); absolute and common symbols are only expected to be refused."
RULE = "a case is one link compared byte by byte or one planted limit; distinct: different object contents, format and options"
BAD = re.compile(rb"ERROR: \w+Sanitizer|runtime error:|Sanitizer:DEADLYSIGNAL")


def command(r, fmt, opts, paths, extra=()):
    o = [["-" + ("win" if fmt == "pe" and r.random() < .3 else fmt)], ["-o", "out"]]
    if opts.get("entry", "__start") != "__start" or r.random() < .3:
        o.append(["-entry", opts.get("entry", "__start")])
    if opts.get("nobss"):
        o.append(["-nobss"])
    if opts.get("origin") is not None:
        v = opts["origin"]
        o.append(["-origin", r.choice([hex(v), str(v), "0%o" % v])])
    if opts.get("stack") is not None:
        o.append(["-stack", r.choice([hex(opts["stack"]), str(opts["stack"])])])
    if opts.get("norel"):
        o.append(["-norel"])
    o += [list(x) for x in extra]
    k = r.random()
    if k < .5:
        o.append(["-map", "map"])
    if r.random() < .15:
        o.append(["-verbose"])
    r.shuffle(o)
    cut = r.randrange(len(o) + 1)
    a = [x for g in o[:cut] for x in g]
    z = [x for g in o[cut:] for x in g]
    return a + paths + z


def options(r, fmt, entry):
    opts = dict(fmt=fmt, entry=entry, nobss=r.random() < .3)
    if fmt in ("pe", "elf", "mach", "flat16", "flat32") and r.random() < .4:
        opts["origin"] = r.choice([0, 0x100, 0x7c00, 1, 0x1235] if fmt == "flat16" else [0x1000, 0x10000, 0x20000, 0x7c00, 0x100, 0, 0x12345, 0x400000, 0x7fff0000])
    if fmt in ("tiny", "small", "huge", "unreal") and r.random() < .3:
        opts["stack"] = r.choice([8192, 8193, 12000, 0x4000] + ([4096, 5000] if fmt in ("tiny", "small") else [0xFFFC]))
    if fmt == "pe":
        opts["norel"] = r.random() < .2
    return opts


def write(r, d, objs):
    paths = []
    for i, o in enumerate(objs):
        o.path = "%d_%s" % (i, o.name)
        with open(os.path.join(d, o.path), "wb") as f:
            f.write(o.image(r))
        paths.append(o.path)
    return paths


def clean(d):
    for x in os.listdir(d):
        os.remove(os.path.join(d, x))


def link(tool, d, args, r):
    if r.random() < .1:
        with open(d + "/args.txt", "w") as f:
            f.write(r.choice(["\n", " ", "\r\n", "\t"]).join(args) + r.choice(["", "\n"]))
        args = ["@args.txt"]
    return core.run([tool + "/smlrl"] + args, cwd=d, env={"PATH": "/bin", "ASAN_OPTIONS": "detect_leaks=0", "UBSAN_OPTIONS": "print_stacktrace=1"}, timeout=30, mem_mb=0, fsize_mb=64)


def verdict(p, d, model, err, check):
    """-> None or (key, what)"""
    if p.rc is None:
        return None
    txt = p.out + p.err
    if BAD.search(txt):
        return "sanitizer", txt[-1500:].decode("latin-1")
    if p.rc < 0:
        return "signal", "signal %d" % -p.rc
    out = d + "/out"
    if err is not None:
        if p.rc == 0:
            return "accepted", "exit 0, expected: %s" % err
        if os.path.exists(out):
            return "left", "the output file is left after: %s" % err
        m = re.search(r"'(.*)'", err)
        if not txt.strip() or (m and m.group(1).encode() not in txt):
            return "message", "message %r for: %s" % (txt[-200:], err)
        return None
    if p.rc:
        return "refused", "exit %d: %s" % (p.rc, txt[-300:].decode("latin-1"))
    with open(out, "rb") as f:
        img = f.read()
    try:
        check(img)
    except L.Bad as e:
        return "image-" + model.fmt, str(e)
    except (struct.error, IndexError) as e:
        return "image-" + model.fmt, "malformed: %s" % e
    return None


def files(d):
    res = {}
    for x in sorted(os.listdir(d)):
        with open(os.path.join(d, x), "rb") as f:
            res[x] = f.read(1 << 20)
    return res


def model(objs, opts):
    try:
        return L.Model(objs, **opts), None
    except L.LinkErr as e:
        return None, str(e)


def one(a):
    c, k, n, tools, san = a
    res, st = [], {"ok": 0, "err": 0, "secs": 0, "rels": 0, "rebased": 0, "maps": 0, "syms": 0, "bytes": 0, "imports": 0, "stubs": 0, "seen": set(), "inc": 0}
    for i in range(n):
        r = c.rng("prog", k, i)
        d = c.dir("p%d" % k)
        clean(d)
        fmt = L.FORMATS[(k * n + i) % len(L.FORMATS)]
        g = L.Gen(r, fmt)
        objs = g.program()
        want, extra, stub = None, [], None
        if fmt == "pe":
            if r.random() < .4:
                exts = []
                imp, want = L.imports(r, exts)
                main = next(o for o in objs if any(y.name == g.entry and y.sec != 0 for y in o.syms))
                t = main.sec(".text", L.PROGBITS, L.A | L.X, 1, bytes(8 * len(exts)))
                for j, x in enumerate(exts):
                    if r.random() < .7:
                        t.rels.append((8 * j, L.R32, main.ref(x)))
                main.ref("__dll_imports")
                objs += imp
            if r.random() < .2:
                extra.append(("-pesubsys", "10") if r.random() < .5 else ("-gui",))
        if fmt == "aout" and r.random() < .4:
            # any MZ file whose header tells its size
            sz = r.choice([64, 511, 512, 513, 1023, 1024, 1025, 2048, 3000])
            stub = bytearray(b"MZ" + bytes(r.getrandbits(8) for _ in range(sz - 2)))
            struct.pack_into("<HH", stub, 2, sz % 512, -(-sz // 512))
            with open(d + "/stub", "wb") as f:
                f.write(stub)
            extra.append(("-stub", "stub"))
        heap = {}
        if stub is not None:
            for o, v in (("-stack", 65536), ("-minheap", 0x80000), ("-maxheap", 0x1000000)):
                heap[o] = v
                if r.random() < .4:
                    heap[o] = r.choice([4096, 1, 100000, 0x200000, 0x123456])
                    extra.append((o, str(heap[o])))
        opts = options(r, fmt, g.entry)
        paths = write(r, d, objs)
        args = command(r, fmt, opts, paths, extra)
        p = link(san if r.random() < .3 else tools, d, args, r)
        if p.rc is None:
            st["inc"] += 1
            continue
        m, err = model(objs, opts)
        rebase = 0x10000 * r.randrange(1, 2000) if fmt in ("pe", "aout") else None

        def check(img):
            hdr = 32
            if stub is not None:
                hdr += len(stub) + 64
                info = struct.unpack("<4I", img[len(stub):len(stub) + 16])
                up = lambda v: (v + 4095) & ~4095
                L.need(info == (0x21245044, up(heap["-stack"]), up(heap["-minheap"]), max(up(heap["-maxheap"]), up(heap["-minheap"]))), "stub record %r, options %r", info, heap)
                st["stubs"] += 1
            L.compare(m, img, stub=bytes(stub) if stub is not None else None, skip=(".dll_import", ".dll_iat") if want else (), rebase=rebase, objs=objs,
                      opts={x: y for x, y in opts.items() if x != "origin"})
            st["rebased"] += rebase is not None
            if want:
                st["imports"] += L.check_imports(m, img, want)
            if fmt == "pe" and extra:
                sub = 2 if extra[0] == ("-gui",) else 10
                L.need(L.load_pe(img)[2]["sub"] == sub, "subsystem")
            if "map" in args:
                with open(d + "/map", "rb") as f:
                    sy = L.compare_map(m, f.read())
                L.map_offsets(m, sy, hdr)
                st["maps"] += 1
                st["syms"] += len(sy)
            st["bytes"] += len(img)
        v = verdict(p, d, m, err, check)
        if v:
            res.append((v[0], "%s\nsmlrl %s" % (v[1], " ".join(args)), files(d)))
        if m:
            st["ok"] += 1
            st["secs"] += sum(len(x.parts) for x in m.descs)
            st["rels"] += sum(len(s.rels) for o in m.inc for s in o.secs)
        else:
            st["err"] += 1
        st["seen"].add(core.stable_seed(fmt, opts, [len(o.secs) for o in objs], k, i))
    return res, st


def base_obj(r, fmt, entry_at=0):
    o = L.Obj("m.o")
    t = o.sec(".text", L.PROGBITS, L.A | L.X, 1, r.randbytes(r.randrange(20, 60)))
    o.sym("__start", L.GLOBAL, t, entry_at)
    return o, t


def limits(r, fmt, kind):
    """-> (objects, options) at or beyond a limit, or None."""
    o, t = base_obj(r, fmt)
    opts = dict(fmt=fmt, entry="__start", nobss=False)
    objs = [o]
    A, W, X, P, N = L.A, L.W, L.X, L.PROGBITS, L.NOBITS
    dl = r.choice([-17, -16, -4, -2, -1, 0, 1, 2, 3, 4, 5, 16, 17, 4096])

    def fit(sec, top, seg=None):
        """Resizes sec so that its end is top + dl."""
        m = L.Model(objs, **opts)
        sec.size += max(0, top + dl - (sec.addr + sec.size))
        sec.size = min(sec.size, 0xFFFFFFFF)
        if sec.typ == P:
            sec.data = sec.data + bytes(sec.size - len(sec.data))
    if kind == "fill-bss":
        b = o.sec(".bss", N, A | W, r.choice([1, 4]), b"", 1)
        opts["nobss"] = fmt in L.B16 and r.random() < .3
        if r.random() < .5:
            opts["stack"] = 16384
        top = {"tiny": 0xFFFC - opts.get("stack", 8192), "small": 0xFFFC - opts.get("stack", 8192), "flat16": 0x10000, "huge": 524288, "unreal": 524288}.get(fmt, 1 << 32)
        if fmt in ("pe", "elf", "mach", "aout"):
            dl -= 4096 * r.randrange(2)
        fit(b, top)
    elif kind == "fill-code":
        if fmt not in ("tiny", "small", "flat16", "huge", "unreal"):
            return None
        top = {"tiny": 0xFFFC - 8192, "small": 0x10000, "flat16": 0x10000, "huge": 524288, "unreal": 524288}[fmt]
        if r.random() < .5:
            o.sec(".data", P, A | W, 1, b"x")
        fit(t, top)
    elif kind == "fill-data":
        if fmt not in ("tiny", "small", "flat16"):
            return None
        dd = o.sec(".data", P, A | W, 1, b"x" * 8)
        fit(dd, {"tiny": 0xFFFC - 8192, "small": 0xFFFC - 8192, "flat16": 0x10000}[fmt])
    elif kind == "align":
        al = r.choice([16, 32, 4096, 8192, 3, 6, 12, 0x80000000, 65536])
        x = r.random() < .5
        (t if x else o.sec(".data", P, A | W, 1, b"abc")).align = al
        if fmt in L.B16 + ("unreal", "flat32") and al > 4096:
            return None
    elif kind == "flags":
        o2 = L.Obj("n.o")
        n, f1 = r.choice([(".text", A | X), (".data", A | W), (".rodata", A), (".foo", A | W)])
        if n != ".text":
            o.sec(n, P, f1, 1, b"abcd")
        typ, f2 = r.choice([(P, A | W), (P, A), (P, A | X), (N, A | W), (P, A | W | X)])
        s = o2.sec(n, typ, f2, 1, b"" if typ == N else b"abcd", 4)
        o2.sym("sym2", L.GLOBAL, s, 0)
        o.ref("sym2")
        objs.append(o2)
    elif kind == "wcode":
        t.flags |= W
    elif kind == "nocode":
        t.flags = A | r.choice([0, W])
    elif kind == "stack":
        if fmt not in ("tiny", "small", "huge", "unreal"):
            return None
        opts["stack"] = r.choice([0, 1, 4095, 4096, 8191, 8192, 0xFFFC, 0xFFFD, 0xFFFF, 0x10000, 0xFFFC - 0x100 - t.size])
    elif kind == "origin":
        if fmt not in ("flat16", "flat32", "elf", "pe", "mach"):
            return None
        opts["origin"] = r.choice([0xFFFD, 0xFFFE, 0xFFFF, 0x10000] if fmt == "flat16" else [0xFFFFF000, 0xFFFFEFFF, 0xFFFFE000, 0xFFFFD000, 0xFFFF0000, 0xFFFFFFFE])
        o.syms[0].value = r.choice([0, 1])
        if fmt == "flat16":
            t.data, t.size = b"x" * 1, 1
    elif kind == "reltype":
        t.rels.append((4, r.choice([0, 3, 4, 9, 22, 23, 255]), o.secsym(t)))
    elif kind == "common":
        y = o.sym("cc", L.GLOBAL, L.COMMON, 4)
        t.rels.append((4, L.R32, y))
    elif kind == "abs":
        y = o.sym("aa", r.choice([L.GLOBAL, L.LOCAL]), L.ABS, 0x1234)
        if r.random() < .7:
            t.rels.append((4, L.R32, y))
    elif kind == "weak":
        y = o.sym("ww", L.WEAK, r.choice([L.UND, t]), 0)
        t.rels.append((4, L.R32, y))
    elif kind == "pe-rel":
        if fmt != "pe":
            return None
        t.rels.append((4, r.choice([L.R32, L.R16]), r.choice([None, o.secsym(t)])))
        opts["norel"] = r.random() < .3
    elif kind == "relod":
        if fmt != "unreal":
            return None
        o.sec(".relod", P, A, 4, b"abcd")
    elif kind == "deferred":
        n = r.choice(["__start__data", "__stop__text", "__start_allcode__", "__stop_alldata__", "__start_stack__", "__stop_stack__", "__start_", "__stop_", "__start__", "__start_nosuch", "__stop_my_sec", "__start__bss"])
        if r.random() < .5:
            o.sec(r.choice([".data", "my.sec", ".bss_"]), P, A | W, 1, b"abcd")
        t.rels.append((4, L.R32, o.ref(n)))
        if r.random() < .2:
            opts["entry"] = r.choice(["__start__text", "__start_allcode__", "nosuch"])
    elif kind == "fxnsz":
        if fmt not in ("huge", "unreal"):
            return None
        o.sec(".fxnsz", P, 0, 1, struct.pack("<3I", 10, r.choice([0xFFEF, 0xFFF0, 0xFFFF, 0x10000, 1 << 31]), 20))
    elif kind == "nonalloc":
        o2 = L.Obj("n.o")
        s = o2.sec(".data", P, A | W, 1, b"datadata")
        o2.sym("sym2", L.GLOBAL, s, 0)
        o.ref("sym2")
        o.sec(r.choice([".data", ".comment"]), P, r.choice([0, W]), 1, b"not part of the image")
        objs.append(o2)
    elif kind == "nobits-ro":
        o.sec(".rob", N, A, 4, b"", 16)
    return objs, opts


KINDS = ["fill-bss", "fill-code", "fill-data", "align", "flags", "wcode", "nocode", "stack", "origin", "reltype", "common", "abs", "weak", "pe-rel", "relod", "deferred", "fxnsz", "nonalloc", "nobits-ro"]
NOIMAGE = {"nobits-ro"}     # kinds for which refusing is as good as a right image


def lim(a):
    c, k, n, tools, san = a
    res, st = [], {"at": 0, "beyond": 0, "kinds": set(), "inc": 0}
    for i in range(n):
        r = c.rng("lim", k, i)
        d = c.dir("l%d" % k)
        clean(d)
        kind = KINDS[(k * n + i) % len(KINDS)]
        fmt = r.choice(L.FORMATS)
        try:
            lm = limits(r, fmt, kind)
        except L.LinkErr:
            continue
        if lm is None:
            continue
        objs, opts = lm
        paths = write(r, d, objs)
        args = command(r, fmt, opts, paths)
        big = sum(s.size for o in objs for s in o.secs) > 50 << 20 and opts["nobss"]
        if big:
            continue
        p = link(san if r.random() < .5 else tools, d, args, r)
        if p.rc is None:
            st["inc"] += 1
            continue
        m, err = model(objs, opts)
        if err is None and fmt != "flat16" and fmt in ("flat32",) and m.end > 1 << 32:
            continue

        def check(img):
            if sum(s.size for o in objs for s in o.secs) < 1 << 22:
                L.compare(m, img)
        if kind in NOIMAGE and p.rc > 0 and not BAD.search(p.out + p.err):
            v = None
        else:
            v = verdict(p, d, m, err, check)
        if v:
            res.append((kind + "-" + v[0], "%s\n%s %s; smlrl %s" % (v[1], kind, fmt, " ".join(args)), files(d)))
        st["at" if err is None else "beyond"] += 1
        st["kinds"].add((kind, fmt, err is None))
    return res, st


def check(c):
    c.rule = RULE
    tools, san = c.b.tools(), c.b.san_tools()
    c.assumptions += ["the objects written by vt/link.py are well-formed ELF (checked with readelf during development)", "the loaders' reading of the PE, ELF, Mach-O, MZ and a.out formats"]
    per = 40
    for res, st in c.pmap(one, [(c, k, per, tools, san) for k in range(c.n(110, 2500))]):
        for key, what, fl in res:
            c.violation(key, what, fl)
        for x in st["seen"]:
            c.case(x)
        c.inconclusive += st["inc"]
        for a, b in (("links compared", "ok"), ("links expected to fail", "err"), ("sections placed", "secs"), ("relocations", "rels"), ("images loaded at another base", "rebased"),
                     ("maps", "maps"), ("map symbols", "syms"), ("image bytes compared", "bytes"), ("imported functions", "imports"), ("stub records", "stubs")):
            c.count(a, st[b])
    kinds = set()
    for res, st in c.pmap(lim, [(c, k, 38, tools, san) for k in range(c.n(60, 1500))]):
        for key, what, fl in res:
            c.violation(key, what, fl)
        kinds |= st["kinds"]
        c.case(n=st["at"] + st["beyond"])
        c.count("limit met", st["at"])
        c.count("limit exceeded", st["beyond"])
        c.inconclusive += st["inc"]
    for k in kinds:
        c.case(("limit",) + k, n=0)
    c.count("limit kinds x formats x outcome", len(kinds))
    c.samples += ["fmt, sections, relocations and options are drawn; e.g. kinds of limits: " + ", ".join(KINDS)]
