"""C16: the driver runs the documented steps with arguments intact and leaves only the requested files."""
import os, shlex, shutil

from vt import core
from vt.build import SYSPATH

TECHNIQUE = "the driver runs with every tool replaced by a recording stand-in that makes its output out of its inputs; a checker compares the recorded commands, the provenance of every output, the directory before and after, and the status with an independent model of the documentation, with and without a failing step"
NOTE = "Combinations are sampled (5000 quick). Pre-existing files with the names of intermediates, repeated -ppg/-nopp and several format options are out of scope; the DOS and Windows builds of the driver are not run here."
RULE = "a case is one driver run judged; distinct: one per format, kind of output, kinds of inputs, preprocessor, option set and failing step"

FORMATS = {  # option: (compiler options, macros, linker option, library, default output, preprocessor's macros, wide char default, exe)
    "-tiny": (["-seg16"], [], "-tiny", None, "a.com"),
    "-dost": (["-seg16"], ["_DOS"], "-tiny", "lcds.a", "a.com"),
    "-small": (["-seg16"], [], "-small", None, "a.exe"),
    "-doss": (["-seg16"], ["_DOS"], "-small", "lcds.a", "a.exe"),
    "-huge": (["-huge"], [], "-huge", None, "a.exe"),
    "-dosh": (["-huge"], ["_DOS"], "-huge", "lcdh.a", "a.exe"),
    "-unreal": (["-unreal"], [], "-unreal", None, "a.exe"),
    "-dosu": (["-unreal"], ["_DOS"], "-unreal", "lcdu.a", "a.exe"),
    "-aout": (["-seg32"], [], "-aout", None, "a.out"),
    "-dosp": (["-seg32"], ["_DOS", "_DPMI"], "-aout", "lcdp.a", "a.exe"),
    "-pe": (["-seg32"], [], "-pe", None, "a.exe"),
    "-win": (["-seg32", "-winstack"], ["_WINDOWS"], "-pe", "lcw.a", "a.exe"),
    "-elf": (["-seg32"], [], "-elf", None, "a.out"),
    "-linux": (["-seg32"], ["_LINUX"], "-elf", "lcl.a", "a.out"),
    "-macos": (["-seg32"], ["_MACOS"], "-mach", "lcm.a", "a.out"),
    "-flat16": (["-seg16"], [], "-flat16", None, "a.bin"),
    "-flat32": (["-seg32"], [], "-flat32", None, "a.bin"),
}
VALUED = {"-D", "-U", "-I", "-J", "-SI", "-isystem", "-f", "-map", "-pesubsys", "-entry", "-origin", "-stack", "-minheap", "-maxheap", "-stub"}
JOINED = ("-D", "-U", "-I", "-J", "-SI", "-isystem")
ODD = ["a b", "it's", "$HOME", "x;y", "q\"q", "b`t", "p&q", "(x)", "st*r", "qu?st", "h#sh", "t~", "br[a]", "cu{r}", "pi|pe", "l<t", "g>t", "ex!", "ca^t", "back\\slash", "per%ct", "eq=al", "co,ma", "t\tab", "dot.dot", "ünï", "plus+", "  two", "end ", "a@b", "''", "\\\"", "$(true)", "&&", "new\nline", "a'b\"c d"]
STUBS = ("smlrpp", "gcc", "smlrc", "nasm", "yasm", "n2f", "smlrl", "chmod")


def parse(argv):
    """(flags, [(option, value)], positional arguments, output)"""
    flags, vals, pos, out, i = [], [], [], None, 1
    while i < len(argv):
        a = argv[i]
        if a == "-o" and i + 1 < len(argv):
            out = argv[i + 1]
            i += 1
        elif a in VALUED and i + 1 < len(argv):
            vals.append((a, argv[i + 1]))
            i += 1
        elif a.startswith("-"):
            for j in sorted(JOINED, key=len, reverse=True):
                if a.startswith(j) and len(a) > len(j) and not a.startswith("-Sm"):
                    vals.append((j, a[len(j):]))
                    break
            else:
                flags.append(a)
        else:
            pos.append(a)
        i += 1
    return flags, vals, pos, out


def of(vals, *names):
    return [v for o, v in vals if o in names]


class Spec:
    pass


def gen(r):
    s = Spec()
    s.fmt = r.choice(list(FORMATS)) if r.random() < .9 else None
    s.mode = r.choice(["link"] * 5 + ["c", "S", "S2", "a", "a"])
    odd = r.random() < .45
    used = set()

    def name(ext):
        for _ in range(100):
            b = r.choice(ODD) if odd and r.random() < .6 else r.choice(["f", "main", "x1", "util", "a_long_file_name", "exactly13cha", "exactly14char", "exactly_15char", "m.n", "Z"]) + (str(r.randint(0, 99)) if r.random() < .7 else "")
            d = r.choice(["", "", "", "sub/", "s p/", "./", "sub/../", "../side/"])
            if d == "" and (b[0] in "-@"):
                continue
            e = ext if r.random() < .9 else ext.upper()
            k = os.path.normpath("w/" + d + b).lower()
            if k not in used:
                used.add(k)
                return d + b + e
        return "n%d%s" % (len(used), ext)
    kinds = {"link": [".c", ".c", ".c", ".i", ".asm", ".o", ".a"], "c": [".c", ".c", ".i", ".asm", ".o"], "S": [".c", ".c", ".i"], "S2": [".c", ".i"], "a": [".c", ".c", ".i", ".asm", ".o", ".o"]}[s.mode]
    n = r.choice([1, 1, 1, 2, 2, 3, 4, 6] + ([12] if r.random() < .3 else []))
    if r.random() < .01:
        n = r.choice([60, 200])
    s.ins = [name(r.choice(kinds)) for _ in range(n)]
    s.out = None
    if s.mode == "a":
        s.out = name(r.choice([".a", ".a", ".A"]))
    elif s.mode == "link":
        if r.random() < .6:
            s.out = name(r.choice(["", ".exe", ".bin", ".com", ".out", ".x y", ".a"]))
    elif n == 1 and r.random() < .6:
        s.out = name(".o" if s.mode == "c" else r.choice([".asm", ".s", ".a"]))
        if s.mode == "c" and r.random() < .3:
            s.out = name(r.choice([".obj", "", ".aa"]))
    s.pp = r.choice(["", "", "", "", "-ppg", "-nopp", "SMLRPPG", "SMLRPPG-nopp"])
    s.asm = r.choice([None, None, "-asm", "SMLRASM", "both"])
    s.asmname = r.choice(["nasm", "yasm", "n2f", "../tools x/my nasm", "../tools/yasm"])
    s.defs, s.opts = [], []  # ordered: (kind, [tokens], meaning)
    val = lambda: r.choice(["X", "X=1", "S=\"str\"", "S2='c'", "F(x)=((x)*2)", "E=", "P=a b", "Q=$HOME", "R=`x`", "B=\\", "N=1;2", "A=&&", "T=*", "W=a=b", "L=" + "z" * 300])
    path = lambda: r.choice(["inc", "../inc", "/usr/include", "in c", "i'nc", "$X", "a;b", "."])
    for _ in range(r.choice([0, 0, 1, 2, 3, 5])):
        o = r.choice(["-D", "-D", "-I", "-SI"])
        v = val() if o == "-D" else path()
        s.opts.append(("pp", [o + v] if r.random() < .6 else [o, v], (o, v)))
    for o in ("-signed-char", "-unsigned-char", "-signed-wchar", "-unsigned-wchar", "-short-wchar", "-long-wchar", "-leading-underscore", "-no-leading-underscore", "-winstack", "-Wall", "-norel", "-gui", "-nobss"):
        if r.random() < .12:
            s.opts.append(("flag", [o], o))
    for o in ("-map", "-pesubsys", "-entry", "-origin", "-stack", "-minheap", "-maxheap"):
        if r.random() < .1:
            v = name(".map") if o == "-map" else r.choice(["_main", "__start", "_a$b", "my start"]) if o == "-entry" else r.choice(["10", "0x1000", "4096", "010", "65536"])
            if o == "-map" and s.mode != "link":
                continue
            s.opts.append(("link", [o, v], (o, v)))
    s.stub = None
    if r.random() < (.3 if s.fmt in ("-dosp", "-aout") else .02):
        s.stub = r.choice(["../stub.exe", "my stub.exe", "st'ub"])
        s.opts.append(("stub", ["-stub", s.stub], s.stub))
    s.sl = r.choice([None] * 5 + ["sl", "sl", "sl/", "sl x", "nosuchdir"])
    if s.sl:
        s.opts.append(("sl", ["-SL" + s.sl] if r.random() < .5 else ["-SL", s.sl], s.sl))
    s.v = r.choice([None, None, "-v", "-verbose"])
    if s.v:
        s.opts.append(("v", [s.v], None))
    r.shuffle(s.opts)
    # where the system files are
    s.where = {}
    for k in ("SMLRC", "HOME"):
        if r.random() < .5:
            s.where[k] = (r.random() < .6, r.random() < .6, r.random() < .6, r.choice(["", "/"]), r.choice(["", " x"]))  # include, lib, stub, slash, odd
    s.slhas = (r.random() < .8, r.random() < .8)
    s.old = r.random() < .2     # the output exists already
    s.atfile = r.random() < .15
    s.err = None
    x = r.random()
    if x < .05:
        s.err = r.choice(["badopt", "noinput", "badtype", "lastparam"])
    elif x < .45:
        s.err = "fail"
    if s.err == "badtype" and s.mode in ("c", "S", "S2"):
        s.out = None        # -o with several inputs is out of scope
    s.args = build(r, s, odd)
    return s


def build(r, s, odd):
    toks = [("o", t) for _, t, _ in s.opts]
    if s.fmt:
        toks.append(("o", [s.fmt]))
    if s.mode in ("c", "a"):
        toks.append(("o", ["-c"]))
    elif s.mode == "S":
        toks.append(("o", ["-S"]))
    elif s.mode == "S2":
        toks += [("o", ["-c"]), ("o", ["-S"])]
    if s.out:
        toks.append(("o", ["-o", s.out]))
    if s.pp in ("-ppg", "-nopp"):
        toks.append(("o", [s.pp]))
    if s.pp == "SMLRPPG-nopp":
        toks.append(("o", ["-nopp"]))
    if s.asm in ("-asm", "both"):
        toks.append(("o", ["-asm", s.asmname]))
    # insert the others among the ordered option tokens without disturbing the order of s.opts
    fixed, rest = toks[:len(s.opts)], toks[len(s.opts):]
    seq = list(fixed)
    for t in rest:
        seq.insert(r.randint(0, len(seq)), t)
    ins = list(s.ins)
    s.known = len(ins)      # inputs before the bad one
    if s.err == "noinput":
        ins = []
    elif s.err == "badtype":
        s.known = r.randint(0, len(ins))
        ins.insert(s.known, r.choice(["readme.txt", "x", ".c", ".asm", "a.cc", "a.obj", "", "o", "a.s", "c", "x.as", "asm", "a/b"]))
    elif s.err == "badopt":
        seq.insert(r.randint(0, len(seq)), ("o", [r.choice(["-foo", "-", "--", "-E", "-shared", "-linuxx", "-co", "-Scc", "-S1", "-O2", "-stubs", "-w", "-c1", "-nop", "-V", "-tin", "-S ", " -c".strip() + " "])]))
    pos = sorted(r.randint(0, len(seq)) for _ in ins)
    out = []
    for i in range(len(seq) + 1):
        out += [x for p, x in zip(pos, ins) if p == i]
        if i < len(seq):
            out += seq[i][1]
    if s.err == "lastparam":
        out.append(r.choice(["-o", "-D", "-I", "-SI", "-SL", "-map", "-entry", "-asm", "-stub", "-origin", "-stack"]))
    return out


def tree(d):
    m = {}
    for dp, dn, fn in os.walk(d):
        for n in dn:
            m[os.path.relpath(os.path.join(dp, n), d)] = "dir"
        for n in fn:
            p = os.path.join(dp, n)
            with open(p, "rb") as f:
                m[os.path.relpath(p, d)] = f.read()
    return m


def expect(s, root, prefix):
    """The steps and outputs the documentation prescribes."""
    fmt = s.fmt or "-linux"
    copt, macros, lopt, lib, default = FORMATS[fmt]
    pp = "gcc" if s.pp in ("-ppg", "SMLRPPG") else None if s.pp in ("-nopp", "SMLRPPG-nopp") else "smlrpp"
    flags = [m for k, _, m in s.opts if k == "flag"]
    has = lambda a, b, d: {a: True, b: False}[[f for f in flags if f in (a, b)][-1]] if [f for f in flags if f in (a, b)] else d
    nix = fmt in ("-elf", "-linux", "-macos")
    uchar = has("-unsigned-char", "-signed-char", False)
    uw = has("-unsigned-wchar", "-signed-wchar", not nix)
    sw = has("-short-wchar", "-long-wchar", not nix)
    cflags = set(copt) | {f for f in flags if f not in ("-norel", "-gui")}
    if nix and not any(f in flags for f in ("-signed-wchar", "-unsigned-wchar")):
        cflags.add("-signed-wchar")
    if nix and not any(f in flags for f in ("-short-wchar", "-long-wchar")):
        cflags.add("-long-wchar")
    defs = [m[1] for k, _, m in s.opts if k == "pp" and m[0] == "-D"]
    alldefs = defs + macros
    if pp:
        cflags.add("-nopp")
        b16 = copt[0] == "-seg16"
        alldefs += ["__SMALLER_C__", "__SMALLER_PP__", "__SMALLER_C_16__" if b16 else "__SMALLER_C_32__", "__SMALLER_C_%sCHAR__" % "SU"[uchar], "__SMALLER_C_%sWCHAR__" % "SU"[uw], "__SMALLER_C_WCHAR%d__" % (16 if sw else 32)]
        alldefs += {"-huge": ["__HUGE__"], "-unreal": ["__UNREAL__"]}.get(copt[0], [])
    # the system files
    inc = libp = stub = None
    if lib and s.sl and s.sl != "nosuchdir" and s.slhas[0]:
        libp = "sl"
        stub = s.slhas[1]
    for k in ("SMLRC", "HOME"):
        w = s.where.get(k)
        if w:
            if not inc and w[0]:
                inc = k
            if not libp and w[1] and lib:
                libp, stub = k, w[2]
    if not inc:
        inc = "prefix"
    if lib and not libp:
        libp, stub = "prefix", True
    base = lambda k: {"prefix": prefix, "sl": None}[k] if k in ("prefix", "sl") else os.path.join(root, k.lower() + s.where[k][4]) + ("/smlrc" if k == "HOME" else "")
    incp = os.path.join(base(inc), "include")
    libdir = None
    if libp:
        libdir = os.path.join(root, "w", s.sl) if libp == "sl" else os.path.join(base(libp), "lib")
    e = Spec()
    e.paths_I = [m[1] for k, _, m in s.opts if k == "pp" and m[0] == "-I"]
    e.paths_S = [m[1] for k, _, m in s.opts if k == "pp" and m[0] == "-SI"]
    e.incp, e.defs, e.alldefs, e.pp, e.cflags, e.flags = incp, defs, alldefs, pp, cflags, flags
    e.asm = s.asmname if s.asm in ("-asm", "both") else ("yasm" if s.asm == "SMLRASM" else "nasm")
    e.steps = []            # (tool, index of the input)
    e.outs = {}             # path: (index of the last step making it, content)
    content = {}
    link_in = []
    members = []
    e.link = s.mode == "link"
    for i, f in enumerate(s.ins[:s.known]):
        ext = os.path.splitext(f)[1].lower()
        b = f[:-len(ext)]
        text = "<%d>" % i
        if ext in (".o", ".a"):
            if e.link:
                link_in.append((f, text))
            elif s.mode == "a":
                members.append((f, text))
            continue
        if s.mode in ("S", "S2") and ext == ".asm":
            continue
        if ext == ".c" and pp:
            e.steps.append((pp, i))
            text = "%s(%s)" % (pp, text)
        if ext in (".c", ".i"):
            e.steps.append(("smlrc", i))
            text = "smlrc(%s)" % text
            if s.mode in ("S", "S2"):
                e.outs[s.out or b + ".asm"] = (len(e.steps) - 1, text)
                continue
        e.steps.append((os.path.basename(e.asm), i))
        text = "%s(%s)" % (os.path.basename(e.asm), text)
        if s.mode == "c":
            e.outs[s.out or b + ".o"] = (len(e.steps) - 1, text)
        elif s.mode == "a":
            members.append((b + ".o", text))
        else:
            link_in.append((b + ".o", text))
    e.out = e.arch = None
    e.mustfail = None
    e.map = None
    if e.link:
        if lib and not stub and fmt == "-dosp" and s.stub is None:
            e.mustfail = "no stub"
        e.libpath = os.path.join(libdir, lib) if lib else None
        e.stubpath = s.stub if s.stub is not None else (os.path.join(libdir, "dpstub.exe") if fmt == "-dosp" else None)
        if not e.mustfail and s.known == len(s.ins):
            e.out = s.out or default
            e.steps.append(("smlrl", None))
            text = ",".join(t for _, t in link_in) + (("," if link_in else "") + "LIB" if lib else "")
            e.outs[e.out] = (len(e.steps) - 1, "smlrl(%s)" % text)
            ms = [m[1] for k, _, m in s.opts if k == "link" and m[0] == "-map"]
            if ms:
                e.map = ms[-1]
                e.outs[e.map] = (len(e.steps) - 1, "map")
        e.link_in = [f for f, _ in link_in]
        e.lopt = lopt
        e.lvals = [m for k, _, m in s.opts if k == "link"]
        e.lflags = {lopt} | {f for f in flags if f in ("-norel", "-gui", "-nobss")}
        e.exe = nix
    elif s.mode == "a":
        e.arch = members
    return e


def archive(data):
    """[(name, content)] of an archive, or the reason it isn't one."""
    if data[:8] != b"!<arch>\n":
        return "no archive header"
    p, m = 8, []
    while p < len(data):
        h = data[p:p + 60]
        if len(h) < 60 or h[58:] != b"`\n":
            return "bad member header at %d" % p
        n = h[:16].rstrip(b" ")
        sz = int(h[48:58])
        body = data[p + 60:p + 60 + sz]
        if len(body) < sz:
            return "member at %d cut short" % p
        if n.startswith(b"#1/"):
            k = int(n[3:])
            n, body = body[:k], body[k:]
        elif n.endswith(b"/"):
            n = n[:-1]
        else:
            return "member name %r" % n
        m.append((n, body))
        p += 60 + sz
        if p & 1:
            if data[p:p + 1] != b"\n":
                return "no padding at %d" % p
            p += 1
    return m


def one(job):
    driver, stubs, prefix, seed, i, tmp = job
    r = core.rng("C16", seed, "case", i)
    s = gen(r)
    root = os.path.join(tmp, "c%d" % i)
    w = root + "/w"
    for d in ("w/sub", "w/s p", "side", "inc"):
        os.makedirs(os.path.join(root, d))
    for sub, nm in (("tools", "yasm"), ("tools x", "my nasm")):
        os.makedirs(root + "/" + sub)
        shutil.copy(stubs + "/nasm", os.path.join(root, sub, nm))
    put = lambda p, t: (os.makedirs(os.path.dirname(p), exist_ok=True), open(p, "w").write(t))
    for k, f in enumerate(s.ins):
        put(os.path.join(w, f), "<%d>" % k)
    fmt = s.fmt or "-linux"
    lib = FORMATS[fmt][3]
    e = {"PATH": stubs + ":" + SYSPATH, "LC_ALL": "C", "SHELL": "/bin/sh", "STUBLOG": root + "/log"}
    for k, (hi, hl, hs, sl, oddn) in s.where.items():
        d = os.path.join(root, k.lower() + oddn)
        sub = "/smlrc" if k == "HOME" else ""
        os.makedirs(d + sub)
        if hi:
            put(d + sub + "/include/limits.h", "")
        if hl and lib:
            put(d + sub + "/lib/" + lib, "LIB")
        if hs:
            put(d + sub + "/lib/dpstub.exe", "STUB")
        e[k] = d + sl
    if s.sl and s.sl != "nosuchdir":
        os.makedirs(os.path.join(w, s.sl))
        if s.slhas[0] and lib:
            put(os.path.join(w, s.sl, lib), "LIB")
        if s.slhas[1]:
            put(os.path.join(w, s.sl, "dpstub.exe"), "STUB")
    if s.pp.startswith("SMLRPPG"):
        e["SMLRPPG"] = "gcc"
    if s.asm in ("SMLRASM", "both"):
        e["SMLRASM"] = "yasm"
    x = expect(s, root, prefix)
    if s.old and (x.out or s.out):
        put(os.path.join(w, x.out or s.out), "old contents")
    failing = None
    if s.err == "fail" and x.steps and not x.mustfail:
        failing = r.randint(0, len(x.steps) - 1 + (1 if x.link and x.exe else 0))
        how = r.choice([0, 1, 2])
        e["STUBFAIL"] = "%d,%d" % (failing, how)
    args = list(s.args)
    if s.atfile:     # some of the arguments come from files
        a = r.randint(0, len(args))
        z = r.randint(a, len(args))
        sep = "".join(chr(k) for k in (9, 10, 11, 12, 13, 32))
        if z > a and not any(any(ch in sep for ch in t) or not t for t in args[a:z]) and all(ord(ch) < 256 for t in args[a:z] for ch in t):
            put(root + "/args.txt", r.choice(["", "\n", " "]) + "".join(t + r.choice(["\n", " ", "\r\n", "\t", "\f", "\v", "  "]) for t in args[a:z - 1]) + args[z - 1] + r.choice(["", "\n", "\r\n "]))
            args[a:z] = ["@../args.txt"]
    before = tree(root)
    p = core.run([driver] + args, cwd=w, env=e, timeout=60)
    key = (fmt, s.mode, tuple(sorted({os.path.splitext(f)[1].lower() for f in s.ins})), x.pp, tuple(sorted({str(k) for k, _, _ in s.opts})), s.err and (s.err, failing and len(x.steps) - failing))
    log = []
    try:
        with open(root + "/log", "rb") as f:
            log = [[t.decode("utf-8", "surrogateescape") for t in rec.split(b"\0")[:-1]] for rec in f.read().split(b"\1")[:-1]]
        os.remove(root + "/log")
    except FileNotFoundError:
        pass
    after = tree(root)
    why = judge(s, x, p, log, before, after, failing, root)
    res = (i, key, why, len(log), p, args, {k: v for k, v in e.items() if k not in ("PATH",)}, log)
    if not why:
        shutil.rmtree(root, ignore_errors=True)
    if p.timeout:
        return (i, key, "timeout", len(log), p, args, {}, [])
    return res


def judge(s, x, p, log, before, after, failing, root):
    if p.timeout:
        return "timeout"
    if p.rc < 0:
        return ("signal", "the driver died of signal %d" % -p.rc)
    w = root + "/w"
    rel = lambda f: os.path.relpath(os.path.normpath(os.path.join(w, f)), root)
    chm = [l for l in log if os.path.basename(l[0]) == "chmod"]
    steps = [l for l in log if os.path.basename(l[0]) != "chmod"]
    if failing is not None and failing == len(x.steps) and not chm:
        failing = None
    # which steps ran
    want = x.steps
    ok_status = s.err is None or (s.err == "fail" and failing is None)
    if x.mustfail:
        ok_status = False
    if s.err in ("badopt", "noinput", "lastparam"):
        want = []
    elif failing is not None:
        want = want[:failing + 1]
    if s.err in ("badopt", "noinput", "lastparam", "badtype") or x.mustfail:
        if p.rc == 0:
            return ("status-" + (x.mustfail or s.err), "status 0 though the command line is wrong (%s)" % (x.mustfail or s.err))
        if len(steps) > len(want):
            return ("steps-after-error", "more steps ran than before the error: %r" % (steps,))
    elif len(steps) != len(want):
        return ("step-count", "%d steps ran, not %d: %r; wanted %r" % (len(steps), len(want), steps, want))
    if ok_status and p.rc:
        return ("status", "status %d though every step succeeded" % p.rc)
    if not ok_status and p.rc == 0:
        return ("status-0", "status 0 though step %r failed" % failing)
    if p.rc and not (p.out + p.err).strip():
        return ("no-message", "failure without a message")
    # the arguments of every step
    chain = None
    for n, (l, (tool, idx)) in enumerate(zip(steps, want)):
        if os.path.basename(l[0]) != tool:
            return ("step-order", "step %d is %r, not %s of %r" % (n, l, tool, idx is not None and s.ins[idx]))
        fl, va, po, out = parse(l)
        t = "asm" if tool not in ("smlrpp", "gcc", "smlrc", "smlrl") else tool
        bad = lambda what: ("args-" + t + "-" + what, "step %d: wrong %s: %r" % (n, what, l))
        if t == "smlrc":
            if len(po) != 2:
                return bad("inputs")
            out = po.pop()
        if out is None:
            return bad("output")
        if t != "smlrl":
            first = n == 0 or want[n - 1][1] != idx
            src = s.ins[idx] if first else chain
            if po != [src]:
                return bad("input")
            chain = out
        final = n + 1 == len(x.steps) or want[n][1] is None or x.steps[n + 1][1] != idx
        if t in ("smlrpp", "gcc"):
            if set(fl) != ({"-zI"} if t == "smlrpp" else {"-E", "-undef", "-nostdinc"}) or of(va, "-U") != (["__STDC_VERSION__"] if t == "smlrpp" else []):
                return bad("fixed options")
        if t == "smlrc" and set(fl) != x.cflags:
            return bad("options")
        if t == "smlrc":
            for a, b in (("-signed-char", "-unsigned-char"), ("-signed-wchar", "-unsigned-wchar"), ("-short-wchar", "-long-wchar"), ("-leading-underscore", "-no-leading-underscore")):
                g, h = [f for f in fl if f in (a, b)], [f for f in x.flags if f in (a, b)]
                if h and g[-1] != h[-1]:
                    return bad("order of options")
        if t in ("smlrpp", "gcc") or t == "smlrc" and not x.pp:
            d = of(va, "-D")
            if sorted(d) != sorted(x.alldefs):
                return bad("macros")
            names = set(x.defs)
            if [v for v in d if v in names] != x.defs:
                return bad("order of macros")
            if of(va, "-I") != x.paths_I:
                return bad("include paths")
            so = "-SI" if t == "smlrc" else "-J" if t == "smlrpp" else "-isystem"
            sy = of(va, "-J", "-SI", "-isystem")
            if of(va, so) != sy or sy[:-1] != x.paths_S or os.path.normpath(sy[-1]) != os.path.normpath(x.incp):
                return bad("system include paths")
        elif t == "smlrc" and (of(va, "-D", "-I", "-SI")):
            return bad("preprocessor options")
        if t == "asm":
            if fl or va != [("-f", "elf")]:
                return bad("options")
        if t == "smlrl":
            user = [f for f in po]
            wantin = list(x.link_in)
            if x.libpath:
                if not user or os.path.normpath(os.path.join(w, user[-1])) != os.path.normpath(x.libpath):
                    return bad("library")
                user.pop()
            if user != wantin:
                # names of intermediates are the driver's business: only those given must be the same
                if len(user) != len(wantin) or [a for a, b in zip(user, wantin) if b in s.ins] != [b for b in wantin if b in s.ins]:
                    return bad("inputs")
            if set(fl) != x.lflags:
                return bad("options")
            st = of(va, "-stub")
            if x.stubpath is None and st or x.stubpath is not None and (not st or (st[-1] != x.stubpath if s.stub is not None else os.path.normpath(os.path.join(w, st[-1])) != os.path.normpath(x.stubpath))):
                return bad("stub")
            lv = [v for v in va if v[0] != "-stub"]
            if lv != x.lvals:
                return bad("values")
            if out != x.out:
                return bad("output")
    # what was printed with -v
    if s.v and s.err != "badopt" and s.err != "lastparam" and not any("\n" in t for l in log for t in l):
        seen = []
        for ln in p.out.decode("utf-8", "surrogateescape").split("\n"):
            try:
                t = shlex.split(ln)
            except ValueError:
                continue
            if t and os.path.basename(t[0]) in STUBS + ("my nasm",):
                t[0] = os.path.basename(t[0])
                seen.append(t)
        if seen != [[os.path.basename(l[0])] + l[1:] for l in log]:
            return ("verbose", "the commands printed are not those executed: %r" % (seen,))
    # the files
    new = {k: v for k, v in after.items() if before.get(k) != v}
    gone = [k for k in before if k not in after]
    outs = {rel(k): v for k, v in x.outs.items()}
    main = rel(x.out or s.out) if (x.out or s.out) else None
    arch = rel(s.out) if s.mode == "a" else None
    for k in gone:
        if k == main and not ok_status:
            continue
        return ("deleted", "%r is gone" % k)
    for k, v in new.items():
        if k == arch and ok_status:
            m = archive(v)
            wantm = [(os.path.basename(n.replace("\\", "/")).encode(), t.encode()) for n, t in x.arch]
            if m != wantm:
                return ("archive", "the archive holds %r, not %r" % (m, wantm))
            continue
        if k in outs and (ok_status or outs[k][0] < len(want) - (1 if failing is not None and failing < len(x.steps) else 0) or k != main):
            if v == outs[k][1].encode():
                continue
            if ok_status:
                return ("contents", "%r holds %r, not %r" % (k, v[:300], outs[k][1][:300]))
            if x.map and k == rel(x.map):
                continue
        if v == "dir":
            return ("new-dir", "a directory %r was made" % k)
        return ("left-over" if ok_status else "left-over-fail", "%r was left or changed (status %d, contents %r)" % (k, p.rc, v[:100]))
    if ok_status:
        for k in outs:
            if after.get(k) != outs[k][1].encode():
                return ("no-output", "%r is not there (or old)" % k)
        if arch and arch not in new:
            return ("no-archive", "no archive was made")
        if x.link and x.exe and not os.access(os.path.join(root, main), os.X_OK):
            return ("not-executable", "%r is not executable" % main)
    return None


def prefix(d):
    """The system files of the default location."""
    os.makedirs(d + "/prefix/smlrc/include")
    os.makedirs(d + "/prefix/smlrc/lib")
    open(d + "/prefix/smlrc/include/limits.h", "w").close()
    for f in {v[3] for v in FORMATS.values() if v[3]}:
        with open(d + "/prefix/smlrc/lib/" + f, "w") as o:
            o.write("LIB")
    with open(d + "/prefix/smlrc/lib/dpstub.exe", "w") as o:
        o.write("STUB")


def check(c):
    c.rule = RULE
    stub = c.b.native("stubtool")

    def mk(d):
        prefix(d)
        c.b.sh(["gcc", "-w", "-O2", '-DPATH_PREFIX="%s/prefix"' % d, "-DHOST_LINUX", c.b.src() + "/v0100/smlrcc.c", "-o", d + "/smlrcc"], what="smlrcc")
    drv = c.b.once("c16", mk)
    stubs = c.dir("stubs")
    for n in STUBS:
        shutil.copy(stub, os.path.join(stubs, n))
    tmp = c.dir("t")
    jobs = [(drv + "/smlrcc", stubs, drv + "/prefix/smlrc", c.seed, i, tmp) for i in range(c.n(5000, 100000))]
    for i, key, why, steps, p, args, env, log in c.pmap(one, jobs):
        c.count("steps observed", steps)
        if why == "timeout":
            c.inconclusive += 1
            continue
        c.case(key, sample={"args": args, "env": env, "steps": [" ".join(l)[:200] for l in log][:4], "status": p.rc} if i in (3, 7, 11, 19, 23, 31) else None)
        c.count("failing runs" if p.rc else "successful runs")
        if why:
            c.violation(why[0], "%s\nargs: %r\nenv: %r\nlog: %r\nstatus %r, output %r" % (why[1], args, env, log, p.rc, p.out[-600:]), {"args.txt": "\0".join(args), "log.txt": "\n".join(repr(l) for l in log)})
    c.count("formats", len(FORMATS))
