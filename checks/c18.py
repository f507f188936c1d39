"""C18: the toolchain is deterministic and reproduces itself when self-hosted."""
import os, re, shutil, zlib

from vt import core, fuzzc, link as L, ppgen, sem, targets
from vt.build import SYSPATH
from checks import c12, c13, c14, c16

TECHNIQUE = "differential monitoring: the tools built by gcc, by clang (-O0, pattern-filled locals), by clang's MemorySanitizer and by Smaller C itself (Linux, and DOS under DOSBox) run on the same generated, mutated and rejected inputs, in different directories, environments and heap fill patterns; status, messages and output bytes must agree; and the self-built tools must rebuild themselves and the libraries to the same bytes"
NOTE = "Sampling of inputs. Inputs using __DATE__/__TIME__ are left out; runs that need too much stack or memory in one build are left to C09/C12. DOS-hosted tools see only small inputs."
RULE = "a case is one input compared between builds; distinct: different inputs"

PROGS = {"smlrc": ["smlrc.c"], "smlrl": ["smlrl.c"], "smlrcc": ["smlrcc.c"], "n2f": ["n2f.c"], "demz": ["demz.c"],
         "smlrpp": ["ucpp/" + f + ".c" for f in ("arith", "assert", "cpp", "eval", "lexer", "macro", "mem", "nhash")]}
DEFS = {"smlrpp": ["-DSTAND_ALONE", "-DUCPP_CONFIG"]}
MIPS = ("smlrcmips", ["smlrc.c"], ["-DMIPS"])


def selfbuild(c, frm, fmt, host, d, exe=""):
    """All tools compiled by the toolchain in frm."""
    s = c.b.src() + "/v0100"

    def job(x):
        name, srcs, defs = x
        w = os.path.join(d, "w-" + name)
        shutil.copytree(s, w, ignore=shutil.ignore_patterns("srclib", "tests", "doc", "bind*", "binw", "binl", "binm", "lib"))
        c.b.sh(["smlrcc", fmt, "-SI", c.b.include(), "-D" + host] + defs + srcs + ["-o", name + exe], cwd=w, env={"PATH": frm + ":" + SYSPATH}, timeout=400, what="self-build of " + name)
        shutil.move(os.path.join(w, name + exe), os.path.join(d, name + exe))
        shutil.rmtree(w)
    import concurrent.futures as cf
    jobs = [(n, f, DEFS.get(n, []) + ([] if host == "HOST_DOS" and n == "x" else [])) for n, f in PROGS.items()]
    if fmt == "-linux":
        jobs.append(MIPS)
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(job, jobs))


def fixpoint(a):
    """A tool or library built by the self-built tools, against the first build: None or (key, what)."""
    c, kind, name, first, stage2, want = a
    d = c.dir("fix-" + name)
    s = c.b.src() + "/v0100"
    env = {"PATH": stage2 + ":" + SYSPATH, "LC_ALL": "C", "SHELL": "/bin/sh", "HOME": c.b.root + "/h", "SMLRC": first}
    if kind == "tool":
        w = d + "/w"
        shutil.copytree(s, w, ignore=shutil.ignore_patterns("srclib", "tests", "doc", "bind*", "binw", "binl", "binm", "lib"))
        srcs, defs = (MIPS[1], MIPS[2]) if name == "smlrcmips" else (PROGS[name], DEFS.get(name, []))
        p = core.run(["smlrcc", "-linux", "-SI", c.b.include(), "-DHOST_LINUX"] + defs + srcs + ["-o", "out"], cwd=w, env=env, timeout=300, merge=True)
        out = w + "/out"
    else:
        w = d + "/w"
        os.makedirs(w)
        shutil.copytree(s + "/srclib", w + "/srclib")
        lines = ["srclib/" + x if x.endswith((".c", ".asm")) else x for x in open(s + "/srclib/" + name + ".txt").read().split()]
        open(w + "/" + name + ".op", "w").write("\n".join(lines) + "\n")
        p = core.run(["smlrcc", "-SI", c.b.include(), "-I", "srclib", "@" + name + ".op"], cwd=w, env=env, timeout=300, merge=True)
        out = w + "/" + name + ".a"
    v = None
    if p.rc is None:
        v = "timeout"
    elif p.rc:
        v = ("fixpoint-refused", "the self-built toolchain fails to build %s: %s" % (name, p.out[-500:].decode("latin-1")))
    else:
        x, y = open(out, "rb").read(), open(want, "rb").read()
        if x != y:
            i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
            v = ("fixpoint-" + kind, "%s built by the self-built tools differs from the one built by the gcc-built ones (%d and %d bytes, first at %d)" % (name, len(x), len(y), i))
    shutil.rmtree(d, ignore_errors=True)
    return name, v


WIDTH = "pp-if-width"


def narrow(c, d):
    """smlrpp built by gcc with the arithmetic of #if that Smaller C gets: 32 bits."""
    w = d + "/w"
    shutil.copytree(c.b.src() + "/v0100/ucpp", w)
    t = open(w + "/config.h", newline="").read()
    u = t
    for a, b in (("unsigned long long", "unsigned"), ("long long", "int"), ("NATIVE_UNSIGNED_BITS    64", "NATIVE_UNSIGNED_BITS    32"), ("(-9223372036854775807LL - 1)", "(-0x7fffffff - 1)"), ("9223372036854775807LL", "0x7fffffff")):
        u = u.replace("\t", "    ").replace(a, b)
    if not re.search(r"\dLL", u):
        open(w + "/config.h", "w", newline="").write(u)
        c.b.sh(["gcc", "-w", "-O2", "-DSTAND_ALONE", "-DUCPP_CONFIG", "-DHOST_LINUX"] + [w + "/" + os.path.basename(f) for f in PROGS["smlrpp"]] + ["-o", d + "/smlrpp"], what="32-bit smlrpp")
    shutil.rmtree(w)


def put(d, files):
    for n, t in files.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(t)


def envs(r, i):
    """Different surroundings for one and the same command."""
    e = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "MSAN_OPTIONS": "exitcode=99"}
    if i:
        e.update({"MALLOC_PERTURB_": str(r.randint(1, 255)), "TZ": r.choice(["Pacific/Kiritimati", "America/Noronha", "XXX12"]), "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "PAD" + "x" * r.randint(0, 50): "y" * r.randint(0, 30000), "HOME": "/none", "TMPDIR": "/none"})
    return e


def versions(c, tool, argv, out, files, variants, r, base, keep=(), stack=False):
    """Runs one command with every build; -> (state of the first, None or (key, what))"""
    res = []
    for i, (name, path) in enumerate(variants):
        d = os.path.join(base, ("a" if i == 0 else "b%d" % i * r.randint(1, 20)), "x" * (0 if i == 0 else r.randint(1, 100)))
        os.makedirs(d)
        put(d, files)
        p = core.run([os.path.join(path, tool)] + argv, cwd=d, env=envs(r, i), timeout=60, cpu_s=40, mem_mb=0 if name == "msan" else 4096, fsize_mb=64)
        o = {}
        for x in os.listdir(d):
            q = os.path.join(d, x)
            if os.path.isfile(q) and (x not in files or open(q, "rb").read() != files[x]):
                o[x] = open(q, "rb").read()
        if p.rc is None or p.rc in (-9, -24, -25):
            return "inconclusive", None
        if p.rc == 99 and b"MemorySanitizer" in p.err:
            m = re.search(rb"in (\w+)", p.err[p.err.find(b"#0"):])
            return "bad", ("msan-" + tool + "-" + (m.group(1).decode() if m else "?"), "uses memory it never set: " + p.err[:1500].decode("latin-1"))
        own = os.path.join(path, tool).encode()     # (messages may name the program)
        p.out, p.err = p.out.replace(own, b"TOOL"), p.err.replace(own, b"TOOL")
        res.append((name, p, o, d))
    n0, p0, o0, d0 = res[0]
    if p0.rc < 0 or any(m in p0.out + p0.err for m in (b"Out of memory", b"out of memory")):
        return "inconclusive", None
    for n, p, o, d in res[1:]:
        if (p.rc, p.out, p.err) != (p0.rc, p0.out, p0.err):
            if any(m in p.out + p.err for m in (b"ut of memory",)) or p.rc == -11 and stack:
                return "inconclusive", None
            return "bad", ("differs-%s-%s" % (tool, n), "%s %s: %s and %s builds differ: status %r and %r, output %r and %r" % (tool, " ".join(argv), n0, n, p0.rc, p.rc, (p0.out + p0.err)[-400:], (p.out + p.err)[-400:]))
        if o != o0:
            k = sorted(k for k in set(o) | set(o0) if o.get(k) != o0.get(k))[0]
            x, y = o0.get(k), o.get(k)
            if x is None or y is None:
                t = "only one leaves %r" % k
            else:
                i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
                t = "%r differs at %d: %r and %r" % (k, i, x[max(0, i - 30):i + 30], y[max(0, i - 30):i + 30])
            return "bad", ("bytes-%s-%s" % (tool, n), "%s %s: %s and %s builds (or surroundings): %s" % (tool, " ".join(argv), n0, n, t))
    return ("accepted" if p0.rc == 0 else "rejected"), None


SEGS = [["-seg16"], ["-seg32"], ["-huge"], ["-unreal"], ["-seg32", "-winstack"], ["-seg32", "-nobss"], []]


def compilers(a):
    c, k, n, corp, gens, builds, msan = a
    res, st = [], {}
    for i in range(n):
        r = c.rng("cc", k, i)
        q = r.random()
        if q < .25:
            src = gens[(k * n + i) % len(gens)]
            if r.random() < .4:
                src = fuzzc.mutate(r, [src])
        elif q < .5:
            src = r.choice(corp)
        else:
            src = fuzzc.mutate(r, corp)
        if b"%s" in src[:3000] and b"#include" in src:
            src = src.replace(b"%s", b"h.h")
        tool = "smlrc" if r.random() < .8 else "smlrcmips"
        opts = list(r.choice(SEGS)) if tool == "smlrc" else []
        for o in ("-Wall", "-verbose", "-unsigned-char", "-signed-wchar", "-long-wchar", "-no-leading-underscore", "-no-externs"):
            if r.random() < .12:
                opts.append(o)
        d = c.dir("cc%d-%d" % (k, i))
        v = list(builds) + ([("msan", msan)] if i % 3 == 0 and os.path.exists(os.path.join(msan, tool)) else [])
        s, bad = versions(c, tool, opts + ["in.c", "out.asm"], "out.asm", {"in.c": src, "h.h": b"int hh;\n"}, v, r, d, stack=True)
        st[s] = st.get(s, 0) + 1
        st.setdefault("seen", set()).add(zlib.crc32(src) << 8 | len(opts))
        st["runs"] = st.get("runs", 0) + len(v)
        if bad:
            res.append((bad, {"in.c": src}))
        shutil.rmtree(d, ignore_errors=True)
    return "smlrc", res, st


def preprocessors(a):
    c, k, n, corp, builds, msan, pp32 = a
    res, st = [], {}
    for i in range(n):
        r = c.rng("pp", k, i)
        files = c12.tree(r, corp)
        if k == 0 and i == 0:
            files = {"m.c": b"#if 0x7fffffff * 2 + 2 == 0\nnarrow\n#else\nwide\n#endif\n"}
        if any(re.search(rb"__(DATE|TIME)__", t) for t in files.values()):
            continue
        opts = list(r.choice(c12.OPTS) if r.random() < .4 else c12.OPTS[r.randrange(2)])
        files["args"] = b"-DX=1\n"
        argv = (opts + ["-I", ".", "m.c"] if opts[-1] not in ("-I", "-D", "-U", "-J", "-o") else ["m.c"] + opts) + (["-o", "m.i"] if r.random() < .5 and opts[-1][:2] != "-o" else [])
        d = c.dir("pp%d-%d" % (k, i))
        v = list(builds) + ([("msan", msan)] if i % 3 == 0 else [])
        s, bad = versions(c, "smlrpp", argv, "m.i", files, v, r, d, stack=True)
        if bad and bad[0].endswith("-self") and pp32:
            # is it only that numbers of #if have 32 bits in the self-built one?
            s2, bad2 = versions(c, "smlrpp", argv, "m.i", files, [("gcc32", pp32), ("self", builds[1][1])], r, d + "/w", stack=True)
            if s2 in ("accepted", "rejected"):
                bad = (WIDTH, "smlrpp %s: numbers of #if have 64 bits in the gcc-built smlrpp and 32 bits in the self-built one" % " ".join(argv))
        st[s] = st.get(s, 0) + 1
        st.setdefault("seen", set()).add(zlib.crc32(b"".join(files.values())) << 8 | len(opts))
        st["runs"] = st.get("runs", 0) + len(v)
        if bad:
            res.append((bad, files))
        shutil.rmtree(d, ignore_errors=True)
    return "smlrpp", res, st


def linkers(a):
    c, k, n, builds, msan = a
    res, st = [], {}
    for i in range(n):
        r = c.rng("ld", k, i)
        fmt = L.FORMATS[(k * n + i) % len(L.FORMATS)]
        if r.random() < .6:
            g = L.Gen(r, fmt)
            objs, entry = g.program(), g.entry
        else:
            g = None
            objs = c14.graph(r, fmt)
            objs, entry = (objs[0], objs[1]) if isinstance(objs, tuple) else (objs, "__start")
        opts = c13.options(r, fmt, entry)
        files, paths = {}, []
        if r.random() < .3:
            m = [(o.name, o.image(r)) for o in objs]
            cut = r.randint(0, len(m))
            for j, (nm, b) in enumerate(m[:cut]):
                files["%d.o" % j] = b
            files["l.a"] = c13.L.archive(m[cut:], r)
            paths = ["%d.o" % j for j in range(cut)] + ["l.a"]
        else:
            for j, o in enumerate(objs):
                files["%d.o" % j] = o.image(r)
                paths.append("%d.o" % j)
        if r.random() < .1 and paths:     # a file that is cut short or missing
            x = r.choice(paths)
            if r.random() < .5:
                files[x] = files[x][:r.randrange(len(files[x]))] if r.random() < .3 else b"\x7fELF" + r.randbytes(60)
            else:
                del files[x]
        argv = c13.command(r, fmt, opts, paths)
        if "-o" not in argv:
            argv += ["-o", "out"]
        d = c.dir("ld%d-%d" % (k, i))
        v = list(builds) + ([("msan", msan)] if i % 3 == 0 else [])
        s, bad = versions(c, "smlrl", argv, "out", files, v, r, d)
        st[s] = st.get(s, 0) + 1
        st.setdefault("seen", set()).add(zlib.crc32(b"".join(files.values())) << 8 | len(argv))
        st["runs"] = st.get("runs", 0) + len(v)
        if bad:
            res.append((bad, files))
        shutil.rmtree(d, ignore_errors=True)
    return "smlrl", res, st


def wrappers(a):
    """n2f -f asm on assembly the compiler made."""
    c, k, n, corp, gens, builds, msan = a
    res, st = [], {}
    for i in range(n):
        r = c.rng("n2f", k, i)
        src = r.choice(gens) if r.random() < .6 else r.choice(corp)
        d = c.dir("nf%d-%d" % (k, i))
        put(d, {"in.c": src, "h.h": b""})
        p = core.run([builds[0][1] + "/smlrc", r.choice(["-seg32", "-seg16", "-huge"]), "in.c", "in.asm"], cwd=d, timeout=60)
        if p.rc == 0:
            asm = open(d + "/in.asm", "rb").read()
            if r.random() < .2:
                asm = fuzzc.mutate(r, [asm])
            s, bad = versions(c, "n2f", ["-f", "asm", "in.asm", "-o", "in.fas"], "in.fas", {"in.asm": asm}, builds, r, d)
            st[s] = st.get(s, 0) + 1
            st.setdefault("seen", set()).add(zlib.crc32(asm))
            st["runs"] = st.get("runs", 0) + len(builds)
            if bad:
                res.append((bad, {"in.asm": asm}))
        shutil.rmtree(d, ignore_errors=True)
    return "n2f", res, st


def drivers(a):
    """The self-built driver against C16's model."""
    c, k, n, drv, stubs, prefix = a
    res, st = [], {}
    for i in range(k * n, k * n + n):
        i, key, why, steps, p, args, env, log = c16.one((drv, stubs, prefix, c.seed, 1000000 + i, c.dir("drv")))
        if why == "timeout":
            st["inconclusive"] = st.get("inconclusive", 0) + 1
            continue
        st["accepted" if p.rc == 0 else "rejected"] = st.get("accepted" if p.rc == 0 else "rejected", 0) + 1
        st.setdefault("seen", set()).add(hash(key))
        st["runs"] = st.get("runs", 0) + 1
        if why:
            res.append((("driver-" + why[0], "the self-built driver: %s\nargs %r" % (why[1], args)), {"args.txt": "\0".join(args)}))
    return "smlrcc", res, st


def norm(b):
    return b.replace(b"\r\n", b"\n").replace(b"\r", b"").lower() if b is not None else None


def deep(src):
    """The depth of the nesting of src."""
    n = m = 0
    for ch in src.decode("latin-1"):
        n += (ch in "({[") - (ch in ")}]")
        m = max(m, n)
    return m


DEEP = b"struct { " * 150 + b"int a; " + b"} b; " * 150 + b"\nint f(void){return 0;}\n"


def dos(a):
    """The tools hosted on DOS."""
    c, k, n, corp, gens, plain, dosd, pp32, ext = a
    d = c.dir("dos%d" % k)
    for t in ("smlrc", "smlrpp", "smlrl"):
        shutil.copy(os.path.join(dosd, t + ".exe"), os.path.join(d, t.upper() + ".EXE"))
    jobs, cmds, res, st = [], [], [], {}
    for i in range(n):
        r = c.rng("dos", k, i)
        q = r.random()
        files = {}
        if i == 0 and k < 2:
            files["C%05d.C" % i] = DEEP
            argv = ["smlrc", "-seg32", "C%05d.C" % i, "C%05d.ASM" % i]
            out = argv[-1]
        elif q < .5:
            src = r.choice(corp) if r.random() < .6 else fuzzc.mutate(r, corp)
            src = src[:4000].replace(b"%s", b"h.h")
            if r.random() < .25:
                src = r.choice(gens)[:20000]
            # (deep declarations: see DEEP)
            if b"\r" in src or b"\x1a" in src or deep(src) > 60:
                continue
            files["C%05d.C" % i] = src
            argv = ["smlrc"] + r.choice(SEGS) + r.choice([[], ["-Wall"], ["-verbose"]]) + ["C%05d.C" % i, "C%05d.ASM" % i]
            out = "C%05d.ASM" % i
        elif q < .7 and pp32:
            src = ppgen.G(r).make(4)
            if len(src) > 1 or any(re.search("__(DATE|TIME|FILE)__", t) for t in src.values()):
                continue
            files["P%05d.C" % i] = list(src.values())[0].encode()
            argv = ["smlrpp", "-zI", "-o", "P%05d.I" % i, "P%05d.C" % i]
            out = "P%05d.I" % i
        else:
            fmt = r.choice(L.FORMATS)
            g = L.Gen(r, fmt, small=True)
            objs = g.program()
            opts = c13.options(r, fmt, g.entry)
            paths = []
            for j, o in enumerate(objs[:12]):
                files["L%03d%02d.O" % (i, j)] = o.image(r)
                paths.append("L%03d%02d.O" % (i, j))
            args = [x for x in c13.command(r, fmt, opts, paths)]
            args = ["L%05d.EXE" % i if x == "out" else "L%05d.MAP" % i if x == "map" else x for x in args]
            with open(d + "/L%05d.TXT" % i, "w") as f:
                f.write("\n".join(args))
            argv = ["smlrl", "@L%05d.TXT" % i]
            out = "L%05d.EXE" % i
        put(d, files)
        # (numbers of #if: see WIDTH)
        p = core.run([os.path.join(pp32 if argv[0] == "smlrpp" else plain, argv[0])] + argv[1:], cwd=d, timeout=60, env={"PATH": "/bin"})
        if p.rc is None or p.rc < 0:
            continue
        ref = None
        if os.path.exists(os.path.join(d, out)):
            with open(os.path.join(d, out), "rb") as f:
                ref = f.read()
            os.unlink(os.path.join(d, out))
        jobs.append((argv, out, p, ref, files))
        cmds.append(" ".join(argv))
    got = targets.dos_run(c.b, d, cmds, timeout=200 + 3 * len(cmds))
    st["inconclusive"] = 0
    for (argv, out, p, ref, files), g in zip(jobs, got):
        if g is None or g == (None, None):
            st["inconclusive"] += 1
            continue
        txt, ok = g
        y = None
        if os.path.exists(os.path.join(d, out)):
            with open(os.path.join(d, out), "rb") as f:
                y = f.read()
        # (the linker hosted in the huge model is documented to refuse relocations against local symbols)
        if any(m in txt for m in (b"ut of memory", b"exhausted", b"Stack", b"Unsupported relocation symbol type")):
            st["inconclusive"] += 1
            continue
        st["accepted" if p.rc == 0 else "rejected"] = st.get("accepted" if p.rc == 0 else "rejected", 0) + 1
        st["runs"] = st.get("runs", 0) + 1
        st.setdefault("seen", set()).add(zlib.crc32(b"".join(files.values())))
        text = argv[0] != "smlrl"
        cv = norm if text else (lambda b: b)
        if b"".join(files.values()) == DEEP and (ok != (p.rc == 0) or norm(y or b"") != ref):
            res.append((("dos-deep-declarations", "150 nested structures overflow the stack of smlrc hosted on DOS: %r" % txt[-300:]), files))
        elif ok != (p.rc == 0):
            res.append((("dos-status-" + argv[0] + ext, "%s hosted on DOS: %s, on Linux status %d: %r, %r" % (" ".join(argv), "status 0" if ok else "failed", p.rc, txt[-300:], p.out[-300:])), files))
        elif norm(txt) != norm(p.out) and argv[0] == "smlrc":
            res.append((("dos-message-" + argv[0] + ext, "%s hosted on DOS prints %r, on Linux %r" % (" ".join(argv), txt[-300:], p.out[-300:])), files))
        elif p.rc == 0 and cv(y) != cv(ref):
            i = next((i for i in range(min(len(y or b""), len(ref))) if cv(y)[i:i + 1] != cv(ref)[i:i + 1]), 0)
            res.append((("dos-bytes-" + argv[0] + ext, "%s hosted on DOS and on Linux differ at %d: %r, %r" % (" ".join(argv), i, y and cv(y)[i:i + 60], cv(ref)[i:i + 60])), files))
    shutil.rmtree(d, ignore_errors=True)
    return "DOS-hosted " + ext, res, st


def call(j):
    return j[0](j[1])


def check(c):
    c.rule = RULE
    c.assumptions += ["NASM and DOSBox", "clang's MemorySanitizer", "the C code of the tools is built unchanged by all compilers"]
    plain = c.b.tools()
    c.b.inst(("lcl", "lcdh", "lcdu", "lcw"), stub=False)
    stage2 = c.b.once("c18self", lambda d: selfbuild(c, plain, "-linux", "HOST_LINUX", d))
    dosh = c.b.once("c18dosh", lambda d: selfbuild(c, plain, "-dosh", "HOST_DOS", d, ".exe"))
    dosu = c.b.once("c18dosu", lambda d: selfbuild(c, plain, "-dosu", "HOST_DOS", d, ".exe"))
    pp32 = c.b.once("c18pp32", lambda d: narrow(c, d))
    pp32 = pp32 if os.path.exists(pp32 + "/smlrpp") else None
    patt = c.b.once("c18clang", lambda d: c.b._make_tools(d, "clang", ["-w", "-O0", "-ftrivial-auto-var-init=pattern"]))
    msan = c.b.once("c18msan", lambda d: c.b._make_tools(d, "clang", ["-w", "-O1", "-g", "-fsanitize=memory", "-fno-omit-frame-pointer"]))
    builds = [("gcc", plain), ("self", stage2), ("clang", patt)]
    inst = c.b.root + "/inst/smlrc"
    gens = []
    for i in range(c.n(24, 200)):
        t = c.rng("t", i).choice(["linux", "dosh", "doss"])
        gens.append(sem.gen(c, ("g", i), targets.TARGETS[t].dm(), {"fns": 3})[0].encode())
    corp = fuzzc.corpus("/repo", gens[:8])
    c.cov["corpus_files"] = len(corp)
    # the driver, self-built, with a prefix of our own
    stub = c.b.native("stubtool")
    stubs = c.dir("stubs")
    for x in c16.STUBS:
        shutil.copy(stub, os.path.join(stubs, x))

    def mkdrv(d):
        c16.prefix(d)
        c.b.sh(["smlrcc", "-linux", "-SI", c.b.include(), "-DHOST_LINUX", '-DPATH_PREFIX="%s/prefix"' % d, c.b.src() + "/v0100/smlrcc.c", "-o", d + "/smlrcc"], env={"PATH": plain + ":" + SYSPATH}, what="self-built driver")
    drv = c.b.once("c18drv", mkdrv)
    fix = [("tool", n, inst, stage2, os.path.join(stage2, n)) for n in list(PROGS) + ["smlrcmips"]]
    fix += [("lib", n, inst, stage2, c.b.lib(n)) for n in (("lcl", "lcdh", "lcw") if not c.thorough else ("lcl", "lcds", "lcdh", "lcdu", "lcdp", "lcw", "lcm"))]
    for name, v in c.pmap(fixpoint, [(c,) + f for f in fix]):
        if v == "timeout":
            c.inconclusive += 1
            continue
        c.case(hash(("fix", name)))
        c.count("rebuilt by the self-built tools")
        if v:
            c.violation(v[0], v[1])
    jobs = []
    jobs += [(compilers, (c, k, 30, corp, gens, builds, msan)) for k in range(c.n(60, 3000))]
    jobs += [(preprocessors, (c, k, 30, corp + c12.PPSNIP * 6, builds, msan, pp32)) for k in range(c.n(50, 2500))]
    jobs += [(linkers, (c, k, 20, builds, msan)) for k in range(c.n(30, 1500))]
    jobs += [(wrappers, (c, k, 20, corp, gens, builds, msan)) for k in range(c.n(8, 200))]
    jobs += [(drivers, (c, k, 25, drv + "/smlrcc", stubs, drv + "/prefix/smlrc")) for k in range(c.n(16, 400))]
    jobs = [(dos, (c, k, 24, corp, gens, plain, *((dosh, pp32, "dosh") if k % 2 else (dosu, pp32, "dosu")))) for k in range(c.n(6, 100))] + jobs
    for what, res, st in c.pmap(call, jobs):
        for x in st.pop("seen", ()):
            c.nontrivial.add(x)
        c.inconclusive += st.pop("inconclusive", 0)
        n = st.get("accepted", 0) + st.get("rejected", 0) + st.get("bad", 0)
        c.case(n=n)
        for a, b in st.items():
            c.count("%s: %s" % (what, a), b)
        for (key, t), files in res:
            if sum(v[0] == key for v in c.viol) < 4:
                c.violation(key, t, files)
    c.samples = ["%s=%s" % kv for kv in sorted(c.cov.items()) if kv[0].startswith("smlr")][:6]
