"""C09: the compiler survives any input."""
import os, re, zlib
from vt import core, fuzzc, sem, targets

TECHNIQUE = "AddressSanitizer, UBSan (bounds, null, division, shift-free) and MemorySanitizer builds of smlrc/smlrcmips on generated, mutated and deeply nested sources under random options; an oracle judges the exit, the diagnostic's file and line and the completeness of the output"
NOTE = "Sampling. Memory errors inside one static pool that stay within the same array are visible to MSan and the behavioural checks only. Undefined integer arithmetic (wrap-around, shift counts) is not judged here."
RULE = "a case is one source compiled by one sanitized compiler; distinct: different sources; accepted and rejected ones are both counted in coverage"
OPTS = [["-seg16"], ["-seg32"], ["-huge"], ["-unreal"], ["-seg32", "-winstack"], []]
MISC = [["-verbose"], ["-Wall"], ["-signed-char"], ["-unsigned-char"], ["-signed-wchar"], ["-long-wchar"], ["-no-leading-underscore"], ["-leading-underscore"], ["-no-externs"], ["-label", "1001"],
        ["-nobss"], ["-D", "A"], ["-D", "N=5"], ["-D", "LONG=" + "a+" * 20 + "1"], ["-I", "inc"], ["-SI", "inc"], ["-nopp"], ["-I", "q" * 200]]
ODD = [["-D", "9x"], ["-zz"], ["-label"], ["-I", "q" * 255], ["-I", "q" * 256], ["-I"], ["-D"], ["-D", ""], ["-D", "x" * 300], ["-D", "=1"], ["-D", "a=" + "1" * 500], ["-seg64"], ["more.c"], ["-label", "99999999999"]]
UB = "-fsanitize=bounds,null,integer-divide-by-zero,unreachable,return,object-size,pointer-overflow,vla-bound,bool"
BAD = re.compile(rb"ERROR: \w+Sanitizer|runtime error:|WARNING: MemorySanitizer|Sanitizer:DEADLYSIGNAL|Sanitizer CHECK")


def summary(txt):
    m = re.search(rb"SUMMARY: (\S+) (\S+) [^\n]*?([\w.]+:\d+)[^\n]*? in (\w+)", txt) or re.search(rb"(\w+\.c:\d+):\d+: (runtime error: [^\n]{0,60})", txt)
    if m:
        return b" ".join(m.groups()).decode("latin-1")
    return txt[:100].decode("latin-1")


def key(txt):
    """A violation is identified by the kind of error and the function."""
    m = re.search(rb"SUMMARY: \S+ (\S+) .*? in (\w+)", txt)
    if m:
        return "%s-%s" % (m.group(1).decode(), m.group(2).decode())
    m = re.search(rb"runtime error: ([a-z ]{3,40})", txt)
    f = re.search(rb"#0 0x\w+ in (\w+)", txt)
    return "ub-%s%s" % ((m.group(1).decode().strip().replace(" ", "-") if m else "?"), "-" + f.group(1).decode() if f else "")


def judge(src, r, asm, names, comment, odd):
    """None or (key, what) for a run that ended by itself.  odd: the command
    line itself may be what is refused."""
    out = r.out + r.err
    if BAD.search(out):
        return key(out), "sanitizer: " + summary(out)
    if r.rc is None:
        return None
    if r.rc < 0:
        return "signal", "ended by signal %d: %r" % (-r.rc, out[-200:])
    if r.rc == 0:
        if not asm.rstrip().endswith(comment + b" Compilation succeeded."):
            return "incomplete", "exit 0 but the output ends with %r" % asm[-80:]
        return None
    m = re.search(rb'Error in "([^\n]*)" \((-?\d+):(-?\d+)\)\n(?s:.)+', r.out)
    if not m:
        return "nomessage", "exit %d without a diagnostic: %r" % (r.rc, out[-200:])
    if b"Internal error" in r.out and b"Internal error 1\n" not in r.out:
        return None
    if b"#" not in src and not odd:
        if m.group(1) == b"" and re.search(rb"command line option|Wide char too wide|name too long|not specified", r.out):
            return None
        if m.group(1) not in names:
            return "file", "diagnostic names %r" % m.group(1)
        ln = int(m.group(2))
        if not 1 <= ln <= src.count(b"\n") + src.count(b"\r") + 1:
            return "line", "diagnostic names line %d of %d" % (ln, src.count(b"\n") + 1)
    return None


def worker(a):
    work, k, seed, n, tools, plain, gens, corp = a
    r = core.rng("C09w", seed, k)
    d = os.path.join(work, "w%d" % k)
    os.makedirs(os.path.join(d, "inc"), exist_ok=True)
    with open(os.path.join(d, "inc", "h.h"), "w") as f:
        f.write("#ifndef H\n#define H\nint inc_h;\n#include \"h2.h\"\n#endif\n")
    with open(os.path.join(d, "inc", "h2.h"), "w") as f:
        f.write("int inc_h2; struct H2 { int a; };\n")
    with open(os.path.join(d, "self.h"), "w") as f:
        f.write("#include \"self.h\"\n")
    res = []
    env = {"PATH": "/usr/bin:/bin", "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1",
           "UBSAN_OPTIONS": "print_stacktrace=1", "LC_ALL": "C"}
    st = {"accepted": 0, "rejected": 0, "bytes": 0, "hangs_rerun": 0, "src": set()}
    for i in range(n):
        if i < len(gens):
            src = gens[i]
        else:
            src = fuzzc.mutate(r, corp)
        if b"%s" in src:
            src = src.replace(b"%s", r.choice([b"inc/h.h", b"h.h", b"none.h", b"self.h", b"x" * r.choice([60, 95, 126, 127, 200, 255, 256, 1000])]))
        st["src"].add(zlib.crc32(src) << 32 | len(src))
        tool = r.choice(tools)
        mips = "mips" in tool
        opts = list(r.choice(OPTS)) if not mips else []
        for _ in range(r.choice([0, 0, 1, 2])):
            opts += r.choice(MISC)
        odd = sum(map(len, opts)) > 150
        if r.random() < .02:
            opts += r.choice(ODD)
            odd = True
        with open(os.path.join(d, "in.c"), "wb") as f:
            f.write(src)
        asmf = os.path.join(d, "out.s")
        if os.path.exists(asmf):
            os.unlink(asmf)
        argv = [tool] + opts + ["in.c", "out.s"]
        p = core.run(argv, cwd=d, env=env, timeout=60, cpu_s=30, mem_mb=0, fsize_mb=64, retry=False)
        if p.rc is None or p.rc in (-24, -9, -25) or p.rc != 0 and (b"SIGXCPU" in p.err or b"CPU" in p.err[:200]):
            # once more with the plain build and a limit on its own CPU time
            st["hangs_rerun"] += 1
            q = core.run([os.path.join(plain, os.path.basename(tool))] + argv[1:], cwd=d, env=env, timeout=120, cpu_s=40, fsize_mb=64, retry=False)
            if q.rc in (-24, -9, -25):
                res.append(("hang", "does not end (40 s of CPU time or 64 MB of output) %s" % " ".join(argv[1:]), src))
            elif q.rc is None:
                st["inconclusive"] = st.get("inconclusive", 0) + 1
            continue
        asm = b""
        if p.rc == 0:
            try:
                with open(asmf, "rb") as f:
                    asm = f.read()
            except OSError:
                pass
        j = judge(src, p, asm, (b"in.c",), b"#" if mips else b";", odd)
        st["accepted" if p.rc == 0 else "rejected"] += 1
        m = re.search(rb"\(-?\d+:-?\d+\)\n([A-Za-z ]{5,40})", p.out)
        if m:
            st["msg." + m.group(1).decode().strip()] = st.get("msg." + m.group(1).decode().strip(), 0) + 1
        st["bytes"] += len(src)
        if j:
            res.append((j[0], "%s: %s" % (" ".join([os.path.basename(tool)] + opts), j[1]), src))
    return res, st


def check(c):
    c.rule = RULE
    c.assumptions = ["gcc's and clang's sanitizer run-times", "the option lists cover what the driver can pass"]
    plain = c.b.tools()
    asan = c.b.once("c09asan", lambda d: mk(c, d, "gcc", ["-fsanitize=address", UB, "-fno-sanitize-recover=all"]))
    msan = c.b.once("c09msan", lambda d: mk(c, d, "clang", ["-fsanitize=memory", "-fno-sanitize-recover=all"]))
    tools = [os.path.join(asan, t) for t in ("smlrc", "smlrc", "smlrcmips")] + [os.path.join(msan, "smlrc"), os.path.join(msan, "smlrcmips")]
    gens = []
    for i in range(12):
        gens.append(sem.gen(c, ("g", i), targets.TARGETS["linux"].dm(), {"fns": 3})[0].encode())
    corp = fuzzc.corpus("/repo", gens)
    c.cov["corpus_files"] = len(corp)
    n = c.n(12000, 600000)
    per = 60
    jobs = [(c.work, k, c.seed, per, tools, plain, gens[k % 12:k % 12 + 1], corp) for k in range(n // per)]
    seen = {}
    for k, (res, st) in enumerate(c.pmap(worker, jobs)):
        for a, b in st.items():
            if a == "src":
                continue
            if a == "inconclusive":
                c.inconclusive += b
            elif a.startswith("msg."):
                seen[a] = seen.get(a, 0) + b
            else:
                c.count(a, b)
        c.case(None, None, n=per)
        c.nontrivial.update(st["src"])
        for key_, what, src in res:
            if sum(v[0] == key_ for v in c.viol) < 3:
                c.violation(key_, what, {"in.c": src})
        if len(c.viol) >= 12:
            break
    c.cov["distinct_messages"] = len(seen)
    c.samples = ["%s x%d" % kv for kv in sorted(seen.items(), key=lambda x: -x[1])[:6]]


def mk(c, d, cc, flags):
    s = c.b.src() + "/v0100/smlrc.c"
    for out, defs in (("smlrc", ["-DPATH_PREFIX=\"/x\"", "-DHOST_LINUX"]), ("smlrcmips", ["-DMIPS"])):
        c.b.sh([cc, "-w", "-O1", "-g", "-fno-omit-frame-pointer"] + flags + defs + [s, "-o", os.path.join(d, out)], what=out)
