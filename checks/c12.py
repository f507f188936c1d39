"""C12: the preprocessor survives any input and reports what is wrong."""
import os, re, zlib
from vt import core, fuzzc, ppgen

TECHNIQUE = "AddressSanitizer+UBSan and MemorySanitizer builds of smlrpp on generated, mutated and extreme include trees under random options, with an oracle on exit status, diagnostics and termination; plus trees with one planted error at a known place, whose report must name that file and line (gcc confirms each planted error)"
NOTE = "Sampling. Non-termination is judged against gcc -E: an input on which gcc too needs long or produces large output is left undecided."
RULE = "a case is one tree preprocessed under one option set by one sanitized build, or one planted error; distinct: different trees"
BAD = re.compile(rb"ERROR: \w+Sanitizer|runtime error:|WARNING: MemorySanitizer|Sanitizer:DEADLYSIGNAL|Sanitizer CHECK")
OPTS = [["-zI"], ["-U", "__STDC_VERSION__", "-zI"], ["-zI", "-C"], ["-zI", "-s"], ["-zI", "-l"], ["-zI", "-lg"], ["-zI", "-CC"], ["-zI", "-a"], ["-zI", "-na"], ["-zI", "-a0"], ["-zI", "-V"],
        ["-zI", "-u"], ["-zI", "-X"], ["-zI", "-c90"], ["-zI", "-t"], ["-zI", "-wt"], ["-zI", "-wtt"], ["-zI", "-wa"], ["-zI", "-w0"], ["-zI", "-Y"], ["-zI", "-Z"], ["-zI", "-d"], ["-zI", "-e"], ["-zI", "-M"], ["-zI", "-Ma"],
        ["-zI", "-v"], ["-h"], ["-zI", "-DA"], ["-zI", "-DA=1 + 2"], ["-zI", "-D", "f(x)=x"], ["-zI", "-UA"], ["-zI", "-Afoo(bar)"], ["-zI", "-Bfoo(bar)"], ["-zI", "-A", "-B"], ["-zI", "-J", "inc"], ["-zI", "-Iinc"],
        ["-zI", "-D"], ["-I"], ["-U"], ["-J"], ["-o"], ["-zI", "-D9"], ["-zI", "-D="], ["-zI", "-D#"], ["-zI", "-U__FILE__"], ["-zI", "-D__LINE__=3"], ["-zI", "-DA=\""], ["-zI", "-DA=/*"], ["-zI", "x.c"], ["-zI", "@args"], ["-zI", "@none"], ["-zI", "-D" + "q" * 5000 + "=1"], ["-zI", "-DA", "-DA=2"]]
PPSNIP = [b"#define A(x) #x x##x\nA(1)\nA(\"a\\\"b\")\n", b"#define v(f, ...) f(__VA_ARGS__)\nv(v, 1, 2)\n#assert cpu(x86)\n#if #cpu(x86)\nyes\n#endif\n#unassert cpu(x86)\n",
          b"#if 1/0\n#endif\n#if 1 + \n#endif\n#if (1\n#elif 5 %% 2\n#endif\n", b"_Pragma(\"pack(1)\") _Pragma(L\"x\") _Pragma(1)\n#pragma pack(1) A\n",
          b"??=define X ??/\n 1\nX ??( ??) ??< ??>\n%:define Y %: %:%:\nY <: :> <% %>\n", b"#define EMPTY\n#define f(x) x EMPTY (2)\nf(f)(1)\nf(f(f(1)))\nf\n(3)\n",
          b"#ifndef G\n#define G\n#include \"h.h\"\n#include <h.h>\n#define H \"h.h\"\n#include H\n#endif\n#line 50 \"foo\"\n__LINE__ __FILE__\n#line 99999999999999999999\n",
          b"#define a a b\n#define b b a\na b\n#undef a\n#undef b\n#define cat(x, y) x ## y\ncat(cat(1, 2), cat)\ncat(/, *)\ncat(, )\ncat(\", \")\n",
          b"#if 'a' == 97 && L'\\x41' == 0101 && '\\377' < 0 && 0xffffffffffffffffu > -1 && -1 >> 3 && 1 << 63 && (2, 3) && defined A && defined(B) ? 1 : 0\n#endif\n",
          b"\\u00c0b \\U0001F600 \xc3\xa9t\xc3\xa9 \xff\xfe \\u12 caf\\u00e9\n#define \\u00c0 1\n", b"#if 0\n#if\n#else\n#elif\n#endif\n#foo\n'\n\"\n#endif\n", b"#ident \"x\"\n# 1 \"f\"\n#\n # define A \\\n  1 \\\n + 2\nA\n"]
# (text, what) of constraint violations; %s is a fresh name.  gcc -pedantic-errors confirms each.
BADS = ["#error some text", "#include \"nonexistent_%s.h\"", "#include <nonexistent_%s.h>", "#include", "#include foo_%s", "#if", "#if 1 +", "#if (1", "#if 1)", "#if 1/0", "#if 5 %% 0", "#if 1 2", "#if \"a\"", "#if 1.5", "#if 0x", "#if 09",
        "#if 1 ? 2", "#if defined", "#if defined(", "#if defined(X", "#if =", "#if 18446744073709551616", "#define", "#define 1", "#define \"x\"", "#define %s(", "#define %s(a", "#define %s(a,", "#define %s(a,a) a", "#define %s(1) a", "#define %s(a b) a",
        "#define %s(a) #b", "#define %s ## x", "#define %s x ##", "#define %s(a) ##a", "#define %s(a) a##", "#define %s(a) #", "#undef", "#undef 1", "#ifdef", "#ifdef 3", "#ifndef", "#ifndef \"a\"", "#nonsense_%s", "#line foo", "#line", "#line -1", "#define %s(..., a) a",
        "#undef __FILE__", "#define __LINE__ 3", "#define defined 1", "#undef defined"]
CALLS = [("#define %s(a, b) a b\n", "%s(1)"), ("#define %s(a, b) a b\n", "%s(1, 2, 3)"), ("#define %s() a\n", "%s(1)"), ("#define %s(a, b) a b\n", "x %s(1)"), ("#define %s 1\n", "#define %s 2"), ("#define %s 1\n", "#define %s() 1"), ("#define %s(a) a\n", "#define %s(b) b"), ("#define %s(a) a\n", "#define %s(a) a 1")]
TOP = ["#else", "#elif 1", "#endif"]
ENV = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "UBSAN_OPTIONS": "print_stacktrace=1", "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1"}


def key(txt):
    m = re.search(rb"SUMMARY: \S+ ([\w-]+) .*? in (\w+)", txt)
    if m and m.group(1) != b"undefined-behavior":
        return "%s-%s" % (m.group(1).decode(), m.group(2).decode())
    m = re.search(rb"runtime error: ([a-z ]{3,40})", txt)
    f = re.search(rb"#0 0x\w+ in (\w+)", txt)
    return "ub-%s%s" % ((m.group(1).decode().strip().replace(" ", "-") if m else "?"), "-" + f.group(1).decode() if f else "")


def errors(err):
    """[(file, line, text)] of the errors, and the messages without a place."""
    res, other = [], []
    for ln in err.split(b"\n"):
        if not ln or ln.startswith(b"\t") or b"warning: " in ln[:ln.find(b": line") + 12 if b": line" in ln else 400]:
            continue
        m = re.match(rb"(.*?): line (\d+): (.*)$", ln)
        if m:
            res.append((m.group(1).decode("latin-1"), int(m.group(2)), m.group(3).decode("latin-1")))
        else:
            other.append(ln.decode("latin-1"))
    return res, other


def judge(files, p, opts):
    if BAD.search(p.err):
        return key(p.err), p.err[:1500].decode("latin-1")
    if p.rc is None:
        return None
    if p.rc < 0:
        return "signal", "ended by signal %d" % -p.rc
    if p.rc not in (0, 1):
        return "status", "exit status %d" % p.rc
    odd = any(o[:2] in ("-v", "-h", "-o", "-D", "-U", "-A", "-B", "-I", "-J", "-X", "-Y") or o in ("x.c", "@args", "@none") for o in opts)
    errs, other = errors(p.err)
    text = b"".join(files.values())
    # a message may itself contain new lines or "warning" if the source has odd names: such sources are judged on the status only
    plain = not (b"\r" in text or b"\0" in text or b"\v" in text or b"\f" in text or b"warning" in text or re.search(rb"line\s", text))
    if p.rc == 0 and errs and plain and not odd:
        return "status0", "exit 0 in spite of: %s: line %d: %s" % errs[0]
    if p.rc and not errs and not other and not odd:
        return "silent", "exit %d without an error message; stderr: %r" % (p.rc, p.err[:300])
    if plain and not odd:
        for f, l, t in errs:
            f = os.path.normpath(f)
            # a header found beside its includer is named as the #include has it
            while f[:3] == "../":
                f = f[3:]
            f = f if f in files else (sorted(x for x in files if x.endswith("/" + f)) + [f])[0]
            if f == "." or any(x.startswith(f + "/") for x in files):
                # a directory, which opens as a file does
                if "read error" not in t:
                    return "file", "an error names the directory %r: %s" % (f, t)
                continue
            if f not in files:
                return "file", "an error names %r, which is no file of the tree: %s" % (f, t)
            if not 1 <= l <= files[f].count(b"\n") + 2:
                return "lineno", "an error names line %d of %s, which has %d: %s" % (l, f, files[f].count(b"\n"), t)
    return None


def write(d, files):
    for n, t in files.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(t)


def tree(r, corp):
    """A tree of (mutated) files."""
    k = r.random()
    if k < .45:
        g = ppgen.G(r)
        files = {n: t.encode() for n, t in g.make(r.choice([3, 6, 10, 16])).items()}
        if r.random() < .9:
            n = r.choice(sorted(files))
            files[n] = fuzzc.mutate(r, [files[n]] + corp)
    else:
        files = {"m.c": fuzzc.mutate(r, corp)}
    if r.random() < .35:
        # lexical errors in the middle of things, mostly of macro calls
        n = r.choice(sorted(files))
        t = files[n]
        for _ in range(r.choice([1, 1, 2, 5])):
            at = [m.end() for m in re.finditer(rb"\(|,|[A-Z][A-Z0-9]*[ \t]*\(|#[ \t]*[a-z]+[ \t]+" if r.random() < .8 else rb"\b", t)]
            if at:
                p = r.choice(at)
                t = t[:p] + r.choice([b'"', b"'", b'"abc\n', b"'\n", b"/*", b"/* x\n", b'L"q\n', b'<', b"\\\n", b"\\", b"??/\n", b"//", b'" \\\n"', b"__VA_ARGS__", b"#", b"##", b"%:", b"\n#define Q \n", b"\n#endif\n", b"\n#include \"none\"\n"]) + t[p:]
        files[n] = t
    if r.random() < .15 and len(files) > 1 or r.random() < .04:
        # conditionals that do not balance, across files
        for _ in range(r.choice([1, 2, 3, 6])):
            n = r.choice(sorted(files))
            ls = files[n].split(b"\n")
            ls.insert(r.choice([0, len(ls), r.randrange(len(ls) + 1)]), r.choice([b"#if 0", b"#if 1", b"#ifdef X", b"#ifndef X", b"#else", b"#endif", b"#elif 1", b"#elif 0", b"#endif\n#endif", b"#if 0\n#else"]))
            files[n] = b"\n".join(ls)
    files["m.c"] = files["m.c"].replace(b"%s", r.choice([b"h.h", b"h.h", b"inc/h.h", b"inc/h.h", b"none.h", b"inc", b".", b"", b"x" * r.choice([60, 255, 256, 5000])]))
    if len(files["m.c"]) > 100000:
        files["m.c"] = files["m.c"][:100000]
    files["h.h"] = r.choice([b"int h;\n#define HM 1\n"] * 4 + [b"#if 0\nint h;\n", b"#ifdef HM\n#else\n", b"#define HM 1\n#endif\n#else\n"])
    files["inc/h.h"] = b"#ifndef IH\n#define IH\n#include \"../h.h\"\n#endif\n" + r.choice([b""] * 4 + [b"#if 0\n", b"#else\n"])
    return files


def fuzz(a):
    c, k, n, tools, plain, corp = a
    res, st = [], {"src": set(), "runs": 0, "accepted": 0, "rejected": 0}
    for i in range(n):
        r = c.rng("fz", k, i)
        files = tree(r, corp)
        opts = list(r.choice(OPTS) if r.random() < .5 else OPTS[r.randrange(2)])
        d = c.dir("f%d/%d" % (k, i))
        write(d, files)
        with open(d + "/args", "w") as f:
            f.write(r.choice(["", "-DX=1", " -l\n-DY \n", "-I inc"]))
        st["src"].add(zlib.crc32(b"".join(files.values())) << 16 | len(files["m.c"]) & 65535)
        argv = opts + ["-I", ".", "m.c"] if opts[-1] not in ("-I", "-D", "-U", "-J", "-o") else ["m.c"] + opts
        p = core.run([r.choice(tools)] + argv, cwd=d, env=ENV, timeout=60, cpu_s=30, mem_mb=0, fsize_mb=64, retry=False)
        st["runs"] += 1
        j = None
        if p.rc is None or p.rc in (-24, -9, -25):
            st["slow"] = st.get("slow", 0) + 1
            q = core.run([plain] + argv, cwd=d, env=ENV, timeout=120, cpu_s=40, fsize_mb=256, retry=False)
            if q.rc in (-24, -9):
                g = core.run(["gcc", "-E", "-std=c99", "-undef", "-nostdinc", "-I", ".", "-x", "c", "m.c"], cwd=d, env={"PATH": "/usr/bin:/bin", "LC_ALL": "C"}, timeout=30, cpu_s=4, mem_mb=0, retry=False)
                if g.rc in (0, 1) and len(g.out) < 1 << 20:
                    j = "hang", "does not end within 40 s of CPU time (gcc -E ends at once)"
            if not j:
                st["inconclusive"] = st.get("inconclusive", 0) + 1
        else:
            j = judge(files, p, opts)
            st["accepted" if p.rc == 0 else "rejected"] += 1
            for f, l, t in errors(p.err)[0][:3]:
                m = "msg." + re.sub(r"[^a-z# ]", "", re.sub(r"'.*'", "", t.lower()))[:28]
                st[m] = st.get(m, 0) + 1
        if j:
            res.append((j[0], "smlrpp %s: %s" % (" ".join(argv)[:200], j[1]), files))
        core.shutil.rmtree(d, ignore_errors=True)
    return res, st


def plant(a):
    """Trees with one error in a known place."""
    c, k, n, smlrpp = a
    res, st = [], {"src": set(), "planted": 0, "left_out": 0}
    for i in range(n):
        r = c.rng("pl", k, i)
        g = ppgen.G(r)
        files = g.make(r.choice([3, 6, 10, 16]))
        name = "BAD%d" % r.randrange(1000)
        # a sentinel line on a line by itself, followed by another line that begins anew
        cand = []
        for t, (f, l) in g.sent.items():
            ls = files[f].split("\n")
            if l <= len(ls) and re.match(t + r"\b", ls[l - 1]) and (l >= len(ls) or not re.search(r"^[ \t]*[,)(]", ls[l])):
                x = ls[l - 1]
                # complete in itself: nothing open
                if x.count("(") == x.count(")") and "/*" not in x and not x.endswith("\\") and "\\\n" not in x:
                    cand.append((f, l))
        if not cand:
            continue
        f, l = r.choice(cand)
        pre, bad, where, exact = "", None, (f, l), True
        q = r.random()
        if q < .62:
            bad = r.choice(BADS)
            bad = bad % name if "%s" in bad else bad.replace("%%", "%")
        elif q < .85:
            pre, bad = r.choice(CALLS)
            pre, bad = pre % name, bad % name
        elif q < .92:
            # at the top level of a fresh header
            files[f] = "\n".join(files[f].split("\n"))
            bad = "#include \"fresh.h\""
            body = ["int fresh;"] * r.randint(0, 4)
            files["fresh.h"] = "\n".join(body + [r.choice(TOP)] + ["int after;", ""])
            where = ("fresh.h", len(body) + 1)
        else:
            bad = "#include \"fresh.h\""
            files["fresh.h"] = "int fresh;\n" + r.choice(["#if 1\n", "#ifdef X\nint x;\n", "/* open\n", "\"abc\n", "#define %s(a) a\n%s(1\n" % (name, name), "#if 0\n", "#if 1\n#else\n"]) + "int after;\n"
            where, exact = ("fresh.h", None), False
        ls = files[f].split("\n")
        ls[l - 1] = bad
        if f != "m.c" and not re.match(r"#", files[f]) is None and where[0] == "fresh.h":
            pass
        files[f] = "\n".join(ls)
        # other conditionals would react to an opened #if: close it
        if re.match(r"#if", bad):
            ls.insert(l, "#endif")
            files[f] = "\n".join(ls)
        if pre:
            # the definition goes first of all, in the main file (lines there move by one)
            files["m.c"] = pre + files["m.c"]
            if f == "m.c":
                where = (f, l + 1)
        d = c.dir("b%d/%d" % (k, i))
        # fresh.h is included from directories too
        write(d, {n_: t.encode() for n_, t in files.items()})
        gc = core.run(["gcc", "-E", "-std=c99", "-pedantic-errors", "-undef", "-U__STDC_VERSION__", "-nostdinc", "-I", ".", "-x", "c", "m.c"], cwd=d, env={"PATH": "/usr/bin:/bin", "LC_ALL": "C"}, mem_mb=0)
        gerr = re.findall(rb"^([^\s:]+):(\d+):(?:\d+:)? (?:fatal )?error:", gc.err, re.M)
        ok = gc.rc and gerr and os.path.normpath(gerr[0][0].decode()) == where[0] and (not exact or int(gerr[0][1]) == where[1])
        if not ok:
            st["left_out"] += 1
            core.shutil.rmtree(d, ignore_errors=True)
            continue
        p = core.run([smlrpp, "-U", "__STDC_VERSION__", "-zI", "-I", ".", "m.c"], cwd=d, env=ENV, timeout=60)
        core.shutil.rmtree(d, ignore_errors=True)
        if p.rc is None:
            st["inconclusive"] = st.get("inconclusive", 0) + 1
            continue
        st["planted"] += 1
        st["k." + re.sub(r"BAD\d+", "@", bad)[:24]] = st.get("k." + re.sub(r"BAD\d+", "@", bad)[:24], 0) + 1
        st["src"].add(zlib.crc32("".join(files.values()).encode()) << 16 | l & 65535)
        errs, other = errors(p.err)
        kk = re.sub(r"\W+", "-", re.sub(r"BAD\d+", "N", bad)).strip("-")
        if p.rc < 0 or p.rc > 1:
            res.append(("crash-" + kk, "exit %d for %s" % (p.rc, bad), files))
        elif p.rc == 0:
            res.append(("accepted-" + kk, "exit 0 although line %s of %s is %r" % (where[1], where[0], bad), files))
        elif not errs:
            res.append(("nomessage-" + kk, "no message for %r: %r" % (bad, p.err[:200]), files))
        elif os.path.normpath(errs[0][0]) != where[0] and not where[0].endswith("/" + errs[0][0]) or exact and errs[0][1] != where[1]:
            res.append(("place-" + kk, "%r stands on line %s of %s, reported: %s: line %d: %s" % ((bad,) + where[::-1] + errs[0]), files))
    return res, st


def extremes():
    """(name, text, known exit statuses) of large inputs."""
    N = 20000
    yield "parens", "#if " + "(" * N + "1" + ")" * N + "\nok\n#endif\n", (0, 1)
    yield "unary", "#if " + "!" * N + "1\nok\n#endif\n", (0, 1)
    yield "ternary", "#if " + "1?" * N + "1" + ":1" * N + "\nok\n#endif\n", (0, 1)
    yield "sum", "#if " + "1+" * 100000 + "1\nok\n#endif\n", (0, 1)
    yield "calls", "#define f(x) x\n" + "f(" * 1500 + "1" + ")" * 1500 + "\n", (0, 1)
    yield "chain", "".join("#define m%d m%d\n" % (i, i + 1) for i in range(3000)) + "m0\n", (0, 1)
    yield "args", "#define f(...) __VA_ARGS__\nf(" + "1," * 30000 + "1)\n", (0, 1)
    yield "params", "#define f(" + ",".join("a%d" % i for i in range(5000)) + ") a0\nf(" + "1," * 4999 + "1)\n", (0, 1)
    yield "ident", "int " + "x" * 1000000 + ";\n#define " + "y" * 1000000 + " 1\n" + "y" * 1000000 + "\n", (0, 1)
    yield "string", '"' + "x" * 3000000 + '"\n', (0, 1)
    yield "number", "#if " + "1" * 100000 + "\n#endif\n", (1,)
    yield "nest63", "#if 1\n" * 63 + "x\n" + "#endif\n" * 63, (0,)
    yield "nest70", "#if 1\n" * 70 + "x\n" + "#endif\n" * 70, (0, 1)
    yield "skipnest", "#if 0\n" + "#if 1\n" * 5000 + "x\n" + "#endif\n" * 5001, (0, 1)
    yield "selfinclude", "#include \"m.c\"\n", (1,)
    yield "incname", "#include \"" + "a" * 100000 + "\"\n", (1,)
    yield "splices", "int a" + "\\\n" * 100000 + "b;\n", (0,)
    yield "newlines", "\n" * 1000000 + "x\n", (0,)
    yield "macros", "".join("#define q%d %d\n" % (i, i) for i in range(60000)) + "q59999\n" + "".join("#undef q%d\n" % i for i in range(60000)), (0,)
    yield "comment", "/*" + "*" * 2000000 + "/ x\n", (0,)


def extreme(a):
    c, i, (name, text, codes), exe, plain = a
    d = c.dir("extreme%d%d" % (i, plain))
    with open(d + "/m.c", "w") as f:
        f.write(text)
    p = core.run([exe, "-zI", "-I", ".", "m.c"], cwd=d, env=ENV, timeout=200, cpu_s=60 if plain else 150, mem_mb=0, fsize_mb=512)
    core.shutil.rmtree(d, ignore_errors=True)
    if p.rc in (-24,) and plain and codes:
        return ("hang-" + name, "no end within 60 s", {"m.c": text}), 0
    if p.rc is None or p.rc == -24:
        return None, 1
    if not codes:
        # nesting beyond what the machine stack holds
        return (("stack-" + name, "nesting overflows the machine stack (exit %d)" % p.rc, {"m.c": text}) if p.rc not in (0, 1) else None), 0
    if p.rc not in codes or BAD.search(p.err):
        return ("extreme-" + name, "exit %d: %s" % (p.rc, p.err[:300].decode("latin-1")), {"m.c": text}), 0
    return None, 0


def check(c):
    c.rule = RULE
    c.assumptions = ["gcc -E -pedantic-errors agrees that a planted error is one", "gcc's and clang's sanitizer run-times"]
    plain = os.path.join(c.b.tools(), "smlrpp")
    s = c.b.src() + "/v0100/ucpp/"
    srcs = [s + f + ".c" for f in ("arith", "assert", "cpp", "eval", "lexer", "macro", "mem", "nhash")]
    defs = ["-DSTAND_ALONE", "-DUCPP_CONFIG", "-DHOST_LINUX", '-DPATH_PREFIX="/x"']

    def mk(cc, fl):
        return lambda d: c.b.sh([cc, "-w", "-O1", "-g", "-fno-omit-frame-pointer"] + fl + defs + srcs + ["-o", d + "/smlrpp"], what="smlrpp")
    asan = c.b.once("c12asan", mk("gcc", ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"])) + "/smlrpp"
    msan = c.b.once("c12msan", mk("clang", ["-fsanitize=memory", "-fno-sanitize-recover=all"])) + "/smlrpp"
    corp = fuzzc.corpus("/repo") + PPSNIP * 6
    n1, n2, per = c.n(5000, 400000), c.n(2500, 100000), 50
    jobs = [(fuzz, (c, k, per, [asan, asan, msan], plain, corp)) for k in range(n1 // per)] + [(plant, (c, k, per, plain)) for k in range(n2 // per)]
    seen = {}
    for res, st in c.pmap(call, jobs):
        src = st.pop("src")
        c.nontrivial.update(src)
        c.case(None, None, n=st.get("runs", 0) + st.get("planted", 0))
        for a, b in st.items():
            if a == "inconclusive":
                c.inconclusive += b
            elif a[:4] == "msg." or a[:2] == "k.":
                seen[a] = seen.get(a, 0) + b
            else:
                c.count(a, b)
        for kk, what, files in res:
            if sum(v[0] == kk for v in c.viol) < 2:
                c.violation(kk, what, files)
        if len(c.viol) >= 15:
            break
    ext = list(extremes()) + [("deep-parens", "#if " + "(" * 1000000 + "1" + ")" * 1000000 + "\n#endif\n", None), ("deep-chain", "".join("#define m%d m%d\n" % (i, i + 1) for i in range(60000)) + "m0\n", None)]
    for v, inc in c.pmap(extreme, [(c, i, x, exe, exe == plain) for i, x in enumerate(ext) for exe in ((plain, asan) if x[2] else (plain,))]):
        c.case(hash(str(v)), None)
        c.count("extreme_inputs")
        c.inconclusive += inc
        if v:
            c.violation(*v)
    c.cov["distinct_messages"] = sum(k[:4] == "msg." for k in seen)
    c.cov["planted_kinds"] = sum(k[:2] == "k." for k in seen)
    c.samples = ["%s x%d" % kv for kv in sorted(seen.items(), key=lambda x: -x[1])[:6]]


def call(j):
    return j[0](j[1])
