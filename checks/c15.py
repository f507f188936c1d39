"""C15: faults while compiling, assembling, archiving and linking are reported."""
import hashlib, os, re, shutil, stat

from vt import core, fuzzc, link, targets

TECHNIQUE = "every tool and the driver run under a ptrace fault injector that makes system calls fail (errors on open, read, write, seek, close, memory, fork, exec, wait; full disks; killed children; short transfers), and on missing, foreign and truncated inputs under ASan; status, message, output and inputs are compared with those of the undisturbed run"
NOTE = "Faults are sampled per tool, system call and file (about 1500 quick); what NASM does about its own faults is only judged by its status. Inputs named as outputs are out of scope."
RULE = "a case is one disturbed run judged; distinct: one per scenario, tool, system call, file kind and fault"

ERR = {"open-r": [2, 13, 24], "open-w": [13, 28, 30], "read": [5], "write": [28, 5], "close": [5, 28], "lseek": [29], "brk": [12], "mmap": [12], "fork": [11], "execve": [2, 12], "wait": [10], "unlink": [13], "chmod": [1]}

A_C = """#include <stdio.h>
#include "h1.h"
extern int other(int x);
int tab[300] = { 1, 2, 3 };
int main(void) { int i, s = 0; for (i = 0; i < 10; i++) s += other(i) + H1(i) + tab[i]; printf("%d\\n", s); return 0; }
"""
B_C = "char *names[] = { \"a\", \"b\" };\nstatic int z[1000];\nint other(int x) { z[x] = x * 3; return z[x] + names[x & 1][0]; }\n"
H1 = "#define H1(x) ((x) * 2)\n#define STR(x) #x\n"


def big_c(r):
    return "#include \"h1.h\"\n" + "\n".join("int f%d(int a, int b) { int i; for (i = a; i < b; i++) if (i %% %d == 0) a += H1(i) - b * %d; return a; } char *s%d = \"%s\";" % (
        i, r.randint(2, 99), r.randint(1, 9999), i, "x" * r.randint(1, 90)) for i in range(120)) + "\n"


class S:
    """A scenario: files to put, the command, its outputs."""
    def __init__(self, name, argv, outs, stdout=None, exe=False, need=()):
        self.name, self.argv, self.outs, self.stdout, self.exe, self.need = name, argv, outs, stdout, exe, need


def scenarios():
    s = []
    s.append(S("pp", ["smlrpp", "-zI", "-D", "__SMALLER_C__", "-D", "__SMALLER_C_32__", "-D", "_LINUX", "-J", "@INC", "a.c", "-o", "a.i"], ["a.i"]))
    s.append(S("pp-big", ["smlrpp", "big.c", "-o", "big.i"], ["big.i"]))
    s.append(S("pp-stdout", ["smlrpp", "big.c"], ["stdout.txt"], "stdout.txt"))
    s.append(S("cc", ["smlrc", "-seg32", "b.c", "b.asm"], ["b.asm"]))
    s.append(S("cc-16", ["smlrc", "-seg16", "b.c", "b.asm"], ["b.asm"]))
    s.append(S("cc-big", ["smlrc", "-huge", "bigp.i", "big.asm"], ["big.asm"]))
    s.append(S("cc-mips", ["smlrcmips", "b.c", "b.s"], ["b.s"]))
    s.append(S("cc-pp", ["smlrc", "-seg32", "p.c", "p.asm"], ["p.asm"]))
    for f, n in (("-elf", "t"), ("-pe", "t.exe"), ("-mach", "t.m"), ("-huge", "th.exe"), ("-small", "ts.exe"), ("-tiny", "t.com"), ("-flat16", "t.bin"), ("-flat32", "t.bin"), ("-aout", "t.aout")):
        obj = ["m16.o", "n16.o"] if f in ("-small", "-tiny", "-flat16") else ["mh.o", "nh.o"] if f == "-huge" else ["m.o", "n.o"]
        s.append(S("ld" + f, ["smlrl", f] + (["-entry", "_main"] if f not in ("-flat16", "-flat32") else ["-entry", "_main"]) + obj + ["-o", n], [n]))
    s.append(S("ld-map", ["smlrl", "-elf", "-map", "t.map", "-entry", "_main", "m.o", "lib.a", "-o", "t"], ["t", "t.map"]))
    s.append(S("ld-args", ["smlrl", "@args.txt"], ["t"]))
    s.append(S("ld-stub", ["smlrl", "-aout", "-stub", "stub.exe", "-entry", "_main", "m.o", "n.o", "-o", "t.exe"], ["t.exe"]))
    s.append(S("n2f-asm", ["n2f", "-f", "asm", "n.asm", "-o", "n.fas"], ["n.fas"]))
    s.append(S("n2f-elf", ["n2f", "-f", "elf", "n.asm", "-o", "nf.o"], ["nf.o"]))
    s.append(S("demz", ["demz", "ts0.exe", "ts0.bin"], ["ts0.bin"]))
    s.append(S("drv-linux", ["smlrcc", "-linux", "a.c", "b.c", "-o", "prog"], ["prog"], exe=True))
    s.append(S("drv-map", ["smlrcc", "-linux", "-map", "prog.map", "a.c", "b.c", "-o", "prog"], ["prog", "prog.map"], exe=True))
    s.append(S("drv-win", ["smlrcc", "-win", "a.c", "b.c", "-o", "prog.exe"], ["prog.exe"]))
    s.append(S("drv-dosp", ["smlrcc", "-dosp", "a.c", "b.c", "-o", "prog.exe"], ["prog.exe"]))
    s.append(S("drv-c", ["smlrcc", "-elf", "-c", "b.c", "-o", "b.o"], ["b.o"]))
    s.append(S("drv-S", ["smlrcc", "-elf", "-S", "b.c", "-o", "b.asm"], ["b.asm"]))
    s.append(S("drv-a", ["smlrcc", "-elf", "-c", "b.c", "k.asm", "m.o", "-o", "lib2.a"], ["lib2.a"]))
    s.append(S("drv-op", ["smlrcc", "@drv.txt"], ["prog"], exe=True))
    s.append(S("drv-fasm", ["smlrcc", "-elf", "-asm", "n2f", "-c", "b.c", "-o", "b.o"], ["b.o"]))
    return s


def prepare(c):
    """The inputs of all scenarios."""
    d = c.dir("in")
    w = lambda n, t: open(os.path.join(d, n), "w").write(t)
    w("a.c", A_C), w("b.c", B_C), w("h1.h", H1), w("big.c", big_c(c.rng("big"))), w("p.c", '#include "h2.h"\nint main(void) { return X; }\n'), w("h2.h", "#define X 5\nint y[3];\n")
    w("m.c", "extern int other(int x); int arr[9] = { 3 }; int main(void) { return other(4) + arr[0]; }\n")
    w("n.c", B_C)
    env = c.b.env()
    for seg, suf in (("-seg32", ""), ("-seg16", "16"), ("-huge", "h")):
        for n in "mn":
            c.b.sh(["smlrc", seg, n + ".c", n + suf + ".asm"], cwd=d, env=env)
            c.b.sh(["nasm", "-f", "elf", n + suf + ".asm", "-o", n + suf + ".o"], cwd=d, env=env)
    c.b.sh(["smlrcc", "-elf", "-c", "n.o", "-o", "lib.a"], cwd=d, env=env)
    shutil.copy(d + "/n.asm", d + "/k.asm")
    w("args.txt", "-elf -entry _main\nm.o n.o\n-o t\n")
    w("drv.txt", "-linux\na.c b.c\n-o prog\n")
    shutil.copy(c.b.stub(), d + "/stub.exe")
    c.b.sh(["smlrpp", "-zI", "-I", ".", "big.c", "-o", "bigp.i"], cwd=d, env=env)
    c.b.sh(["smlrl", "-small", "-entry", "_main", "m16.o", "n16.o", "-o", "ts0.exe"], cwd=d, env=env)
    for n in os.listdir(d):
        os.chmod(os.path.join(d, n), 0o644)
    return d


def snap(d):
    o = {}
    for n in os.listdir(d):
        p = os.path.join(d, n)
        if os.path.isfile(p) and not os.path.islink(p):
            with open(p, "rb") as f:
                o[n] = (f.read(), bool(os.stat(p).st_mode & 0o100))
    return o


def fresh(c, tag):
    d = c.dir("w-" + tag)
    shutil.rmtree(d)
    shutil.copytree(c.inputs, d)
    os.makedirs(d + ".tmp", exist_ok=True)
    return d


def go(c, s, d, pre, timeout=60):
    log = d + ".log"
    out = open(os.path.join(d, s.stdout), "wb") if s.stdout else None
    env = c.b.env()
    argv = [c.faulter, log] + pre + ["--"] + [c.b.include() if a == "@INC" else a for a in s.argv]
    if out:
        out.close()
        argv = ["sh", "-c", "exec \"$@\" > " + s.stdout, "x"] + argv
    p = core.run(argv, cwd=d, env=env, timeout=timeout, mem_mb=0)
    try:
        with open(log) as f:
            lines = f.read().split("\n")[:-1]
    except FileNotFoundError:
        lines = []
    return p, lines


def kind(path):
    b = os.path.basename(path)
    return b if not re.match(r"smlrcc?[^.]*$|tmp\d+|file\w{6}$", b) else "tmp"


def crashed(rc):
    return rc in (128 + 11, 128 + 6, 128 + 8, 128 + 4, 128 + 7)


def judge(c, s, d, p, lines, ref, mode):
    """None or (key, what) for one disturbed run."""
    hits = [l.split() for l in lines if l.endswith(" HIT")]
    h = hits[0] if hits else None
    where = "undisturbed" if h is None else "%s %s of %s" % (h[1], h[2], kind(h[3]))
    tag = "%s:%s" % (s.name, where.replace(" ", "-"))
    now = snap(d)
    base = c.base
    for n, v in base.items():
        if n in s.outs:
            continue
        if now.get(n, (None,))[0] != v[0]:
            return tag + ":input", "%s: the input file %s is %s after the fault" % (where, n, "changed" if n in now else "gone")
    if p.timeout:
        return tag + ":hang", where + ": the tools do not end"
    same = all(now.get(o) == ref.get(o) for o in s.outs)
    if p.rc == 0:
        if not same and not (h and h[1] in ("nasm", "chmod", "dash", "sh", "fasm", "ld.so")):
            bad = [o for o in s.outs if now.get(o) != ref.get(o)]
            return tag + ":silent", "%s fails, the status is 0 and %s" % (where, "; ".join("%s is %s" % (o, "missing" if o not in now else "wrong (%d bytes, not %d)" % (len(now[o][0]), len(ref[o][0])) if now[o][0] != ref[o][0] else "not executable") for o in bad))
        return None
    if mode == "short" and not same:
        return tag + ":short", "short reads and writes make it fail: %r" % p
    if crashed(p.rc) and not (mode == "kill"):
        return tag + ":crash", "%s fails: the tool dies of signal %d" % (where, p.rc - 128)
    if mode == "kill" and h and h[1] == s.argv[0]:
        return None
    if not (p.out + p.err).strip() and not s.stdout:
        return tag + ":quiet", "%s fails: status %d without any message" % (where, p.rc)
    if s.stdout and not p.err.strip() and not now.get(s.stdout, (b"",))[0].strip():
        return tag + ":quiet", "%s fails: status %d without any message" % (where, p.rc)
    if any(x[2] == "unlink" for x in hits):
        return None
    for o in s.outs:
        v = now.get(o)
        if v is None or o.endswith(".map") or s.stdout or o.endswith(".i"):
            continue
        if o.endswith((".asm", ".s")) and (b"Compilation succeeded." not in v[0] or h and h[2] == "close" and v == ref.get(o)):
            continue  # marked as incomplete, or complete: nothing but its closing failed
        return tag + ":left", "%s fails, the status is %d, but the output file %s is there (%d bytes)" % (where, p.rc, o, len(v[0]))
    return None


def faults(arg):
    c, s, jobs = arg
    d = fresh(c, "%s-%s" % (s.name, jobs[0][0]))
    out = []
    ref = c.refs[s.name]
    for key, pre, what in jobs:
        for n in os.listdir(d):
            if n not in c.base:
                os.unlink(os.path.join(d, n))
        for n, v in c.base.items():
            q = os.path.join(d, n)
            if n in s.outs or not os.path.exists(q) or os.path.getsize(q) != len(v[0]):
                with open(q, "wb") as f:
                    f.write(v[0])
        p, lines = go(c, s, d, pre)
        bad = judge(c, s, d, p, lines, ref, pre[1])
        hit = [l for l in lines if l.endswith(" HIT")]
        out.append((key, bad, {"faults_hit": int(bool(hit)), "runs_that_reported": int(bool(p.rc)), "runs_unharmed": int(p.rc == 0), "calls_seen": len(lines)},
                    "%s\n%s\nhit: %s\n%r" % (" ".join(s.argv), pre, hit[:3], p)))
    shutil.rmtree(d, ignore_errors=True)
    return out


def plan(c, s, lines):
    """Which faults to try in the scenario."""
    r = c.rng("plan", s.name)
    jobs = []
    per = c.n(3, 60)
    groups = {}
    for l in lines:
        w = l.split()
        groups.setdefault((w[1], w[2], kind(w[3]) if w[2] not in ("brk", "mmap", "fork", "execve", "wait", "lseek") else ""), []).append(int(w[0]))
    for g, ix in sorted(groups.items()):
        pick = {ix[0], ix[-1]} | set(r.sample(ix, min(len(ix), per - 2)))
        if g[1] in ("brk", "mmap"):
            pick = set(r.sample(ix, min(len(ix), 2 if not c.thorough else 20)))
        if g[1] == "lseek" and not c.thorough:
            pick = {r.choice(ix), ix[-1]}
        for k in sorted(pick):
            e = r.choice(ERR[g[1]])
            mode = "sticky" if g[1] == "write" and r.random() < .5 or g[1] in ("brk", "mmap") and r.random() < .5 else "fail"
            jobs.append((g + (k, mode, e), ["all", mode, str(k), str(e)], g))
        if len(set(x.split()[1] for x in lines)) > 1 and g[0] != s.argv[0] and g[1] in ("read", "write", "close"):
            jobs.append((g + ("kill",), ["all", "kill", str(r.choice(ix)), "0"], g))
    for k in (1, 3, 511):
        if len(lines) < 1500 or k == 511:
            jobs.append((("short", k), ["all", "short", str(k), "0"], None))
    return jobs


# --- inputs that are missing, foreign or cut off ----------------------------------------------------------------------
def foreign(c):
    """Files that are not what a tool expects: {name: bytes}."""
    d = c.dir("foreign")
    o = {"empty": b"", "zeros": b"\0" * 3000, "text": b"hello\n" * 50, "ar-only": b"!<arch>\n", "ar-cut": b"!<arch>\nfoo.o/          0           0", "elf-only": b"\x7fELF", "elf32": b"\x7fELF\x01\x01\x01" + b"\0" * 45,
         "ff": b"\xff" * 2000}
    src = "int f(int a) { return a + 1; } int g = 5; int main(void) { return f(g); }\n"
    with open(d + "/x.c", "w") as f:
        f.write(src)
    for n, cmd in (("elf64", ["gcc", "-c", "x.c"]), ("mips", ["mipsel-linux-gnu-gcc", "-c", "x.c"]), ("exe64", ["gcc", "x.c"])):
        p = core.run(cmd + ["-o", n + ".o"], cwd=d)
        if p.rc == 0:
            o[n] = open(d + "/" + n + ".o", "rb").read()
    with open(d + "/x.asm", "w") as f:
        f.write("section .text\nglobal main\nmain: mov eax, 1\n ret\n")
    for fm in ("coff", "win32", "macho32", "obj", "elf64", "bin", "aout", "as86"):
        if core.run(["nasm", "-f", fm, "x.asm", "-o", "n.o"], cwd=d).rc == 0:
            o["nasm-" + fm] = open(d + "/n.o", "rb").read()
    return o


def inputs(c):
    """Bad inputs to every tool: a status other than 0 and a message, the inputs untouched, no output."""
    env = c.b.env(PATH=c.b.san_tools() + ":" + c.b.env()["PATH"], ASAN_OPTIONS="detect_leaks=0:exitcode=88:allocator_may_return_null=1")
    d = fresh(c, "bad")
    fo = foreign(c)
    for n, v in fo.items():
        with open(d + "/F-" + n + ".o", "wb") as f:
            f.write(v)
    # not empty: remove() deletes an empty directory where an output is expected
    for n in ("o", "c", "a", "h", "asm"):
        os.makedirs(d + "/dir.%s/sub" % n)
    with open(d + "/incdir.c", "w") as f:
        f.write('#include "dir.h"\nint main(void) { return 0; }\n')
    with open(d + "/incno.c", "w") as f:
        f.write('#include "nosuch.h"\nint main(void) { return 0; }\n')
    cases = []
    for x in ("nosuch", "dir"):
        cases += [("pp", ["smlrpp", x + ".c", "-o", "out.i"], "out.i"), ("cc", ["smlrc", "-seg32", x + ".c", "out.asm"], "out.asm"), ("mips", ["smlrcmips", x + ".c", "out.s"], "out.s"),
                  ("ld", ["smlrl", "-elf", "-entry", "_main", "m.o", "n.o", x + ".o", "-o", "out"], "out"), ("lda", ["smlrl", "-elf", "-entry", "_main", "m.o", "n.o", x + ".a", "-o", "out"], "out"),
                  ("n2f", ["n2f", "-f", "asm", x + ".asm", "-o", "out.fas"], "out.fas"), ("n2f-elf", ["n2f", "-f", "elf", x + ".asm", "-o", "out.o"], "out.o"), ("demz", ["demz", x + ".o", "out.bin"], "out.bin"),
                  ("stub", ["smlrl", "-aout", "-stub", x + ".o", "-entry", "_main", "m.o", "n.o", "-o", "out"], "out")]
        for y in ("c", "asm", "o", "a"):
            cases.append(("drv-" + y, ["smlrcc", "-linux", "a.c", "b.c", x + "." + y, "-o", "out"], "out"))
        cases.append(("drv-lib", ["smlrcc", "-elf", "-c", "b.c", x + ".o", "-o", "out.a"], "out.a"))
        cases.append(("drv-i", ["smlrcc", "-linux", x + ".i", "-o", "out"], "out"))
    for x in ("incdir.c", "incno.c"):
        cases += [("pp-inc", ["smlrpp", "-I", ".", x, "-o", "out.i"], None), ("cc-inc", ["smlrc", "-seg32", "-I", ".", x, "out.asm"], "out.asm"), ("drv-inc", ["smlrcc", "-linux", "-I", ".", x, "-o", "out"], "out")]
    for n in sorted(fo):
        for f in ("-elf", "-pe", "-huge", "-tiny"):
            o16 = ["m16.o", "n16.o"] if f == "-tiny" else ["mh.o", "nh.o"] if f == "-huge" else ["m.o", "n.o"]
            cases.append(("foreign-" + n, ["smlrl", f, "-entry", "_main"] + o16 + ["F-" + n + ".o", "-o", "out"], "out"))
        cases.append(("drv-foreign-" + n, ["smlrcc", "-linux", "a.c", "b.c", "F-" + n + ".o", "-o", "out"], "out"))
    for x in ("nodir/out", "dir.h", "file.txt/out"):
        cases += [("pp-to", ["smlrpp", "b.c", "-o", x], x), ("cc-to", ["smlrc", "-seg32", "b.c", x], x), ("ld-to", ["smlrl", "-elf", "-entry", "_main", "m.o", "n.o", "-o", x], x), ("demz-to", ["demz", "ts0.exe", x], x),
                  ("n2f-to", ["n2f", "-f", "asm", "n.asm", "-o", x], x), ("n2fe-to", ["n2f", "-f", "elf", "n.asm", "-o", x], x), ("drv-to", ["smlrcc", "-linux", "a.c", "b.c", "-o", x], x),
                  ("drv-c-to", ["smlrcc", "-elf", "-c", "b.c", "-o", x], x), ("drv-S-to", ["smlrcc", "-elf", "-S", "b.c", "-o", x], x),
                  ("map-to", ["smlrl", "-elf", "-map", x, "-entry", "_main", "m.o", "n.o", "-o", "out"], "out")]
    with open(d + "/file.txt", "w") as f:
        f.write("x")
    before = snap(d)

    def one(case):
        name, argv, out = case
        sub = d + "-%d" % cases.index(case)
        shutil.copytree(d, sub)
        p = core.run(argv, cwd=sub, env=env, timeout=30, mem_mb=0)
        now = snap(sub)
        bad = None
        if p.timeout:
            bad = "hang", "does not end"
        elif p.rc == 88 or p.rc < 0 or b"runtime error:" in p.err or b"ERROR: AddressSanitizer" in p.err:
            bad = "crash", "crashes: %s" % (p.err or p.out)[:500].decode("latin-1")
        elif p.rc == 0 and name not in ("foreign-ar-only", "drv-foreign-ar-only"):
            bad = "silent", "ends with status 0"
        elif p.rc and not (p.out + p.err).strip():
            bad = "quiet", "ends with status %d and no message" % p.rc
        elif p.rc and out and os.path.isfile(os.path.join(sub, out)) and not out.endswith(".i") and not (out.endswith((".asm", ".s")) and b"Compilation succeeded." not in now.get(out, (b"",))[0]) and out not in before:
            bad = "left", "ends with status %d and leaves %s" % (p.rc, out)
        for n, v in before.items():
            if now.get(n, (None,))[0] != v[0]:
                bad = "input", "the file %s is %s" % (n, "changed" if n in now else "gone")
        for n in ("dir.o", "dir.c", "dir.a", "dir.h", "dir.asm"):
            if not os.path.isdir(sub + "/" + n):
                bad = "input", "the directory %s is gone" % n
        shutil.rmtree(sub, ignore_errors=True)
        return name, bad, argv, p
    for name, bad, argv, p in c.pmap(one, cases, processes=False):
        c.case(("bad", name, tuple(argv)))
        c.count("bad_inputs_tried")
        if bad:
            c.violation("bad:%s:%s" % (name, bad[0]), "%s: %s" % (" ".join(argv), bad[1]), {"got.txt": repr(p)})
    shutil.rmtree(d, ignore_errors=True)


def cut(arg):
    """Objects and archives cut off or damaged at many places, linked by the linker built with ASan and UBSan."""
    c, name, fmt, argv, victim, jobs = arg
    d = fresh(c, "cut-%s-%s" % (name, jobs[0][0]))
    env = c.b.env(PATH=c.b.san_tools() + ":" + c.b.env()["PATH"], ASAN_OPTIONS="detect_leaks=0:exitcode=88:allocator_may_return_null=1:max_allocation_size_mb=3000")
    with open(c.inputs + "/" + victim, "rb") as f:
        orig = f.read()
    out = []
    for key, edit in jobs:
        b = bytearray(orig)
        if edit[0] == "cut":
            del b[edit[1]:]
        else:
            for p_, v in edit[1]:
                b[p_:p_ + len(v)] = v
        with open(d + "/" + victim, "wb") as f:
            f.write(b)
        if os.path.exists(d + "/out"):
            os.unlink(d + "/out")
        p = core.run(argv, cwd=d, env=env, timeout=30, mem_mb=0, fsize_mb=64)
        o = open(d + "/out", "rb").read() if os.path.exists(d + "/out") else None
        bad = None
        what = "%s of %d bytes %s" % (victim, len(orig), "cut to %d" % edit[1] if edit[0] == "cut" else "with %r" % (edit[1],))
        if p.timeout:
            bad = "hang", what + ": the linker does not end"
        elif p.rc == 88 or p.rc < 0 or b"runtime error:" in p.err or b"ERROR: AddressSanitizer" in p.err:
            m = re.search(rb"(ERROR: AddressSanitizer: [\w-]+|runtime error: [^\n]{0,80})", p.err)
            bad = "crash", "%s: %s" % (what, (m.group(1) if m else p.err[:300]).decode("latin-1")) + "\n" + p.err[:3000].decode("latin-1")
        elif p.rc and o is not None:
            bad = "left", what + ": status %d, but there is an output file" % p.rc
        elif p.rc and not (p.out + p.err).strip():
            bad = "quiet", what + ": status %d without a message" % p.rc
        elif p.rc == 0 and edit[0] == "header" and (name != "ar" or o != c.cutref[name]):
            bad = "silent", what + ": status 0"
        elif p.rc == 0 and edit[0] == "cut" and o != c.cutref[name]:
            bad = "silent", what + ": status 0 and %s" % ("no output" if o is None else "a different program")
        elif p.rc == 0 and o is None:
            bad = "silent", what + ": status 0 and no output"
        out.append((key, bad, bytes(b), p.rc))
        if bad and bad[0] == "hang":
            break
    shutil.rmtree(d, ignore_errors=True)
    return name, edit[0], out


def cuts(c):
    todo = []
    c.cutref = {}
    for name, fmt, argv, victim in (
            ("elf", "-elf", ["smlrl", "-elf", "-entry", "_main", "m.o", "n.o", "-o", "out"], "n.o"), ("elf-first", "-elf", ["smlrl", "-elf", "-entry", "_main", "m.o", "n.o", "-o", "out"], "m.o"),
            ("ar", "-pe", ["smlrl", "-pe", "-entry", "_main", "m.o", "lib.a", "-o", "out"], "lib.a"), ("huge", "-huge", ["smlrl", "-huge", "-entry", "_main", "mh.o", "nh.o", "-o", "out"], "nh.o"),
            ("tiny", "-tiny", ["smlrl", "-tiny", "-entry", "_main", "m16.o", "n16.o", "-o", "out"], "n16.o")):
        d = fresh(c, "cutref")
        c.b.sh(argv, cwd=d, env=c.b.env())
        with open(d + "/out", "rb") as f:
            c.cutref[name] = f.read()
        size = os.path.getsize(c.inputs + "/" + victim)
        with open(c.inputs + "/" + victim, "rb") as f:
            orig = f.read()
        r = c.rng("cut", name)
        ks = list(range(size)) if c.thorough else sorted(set(list(range(0, min(size, 120))) + r.sample(range(size), min(size, 80)) + list(range(size - 40, size))))
        jobs = [(("cut", k), ("cut", k)) for k in ks]
        if name != "ar":
            # headers of other kinds of files: class, byte order, version, type, machine, sizes of the structures, no section table
            for i, (p, v) in enumerate([(0, b"\x7e"), (1, b"e"), (3, b"G"), (4, b"\2"), (4, b"\0"), (5, b"\2"), (5, b"\0"), (6, b"\0"), (16, b"\2\0"), (16, b"\3\0"), (16, b"\0\0"), (16, b"\1\1"), (18, b"\x3e\0"), (18, b"\x08\0"),
                                        (18, b"\x28\0"), (18, b"\0\0"), (18, b"\3\1"), (32, b"\0\0\0\0"), (32, size.to_bytes(4, "little")), (32, b"\0\0\0\x7f"), (40, b"\0\0"), (40, b"\x40\0"), (46, b"\x27\0"),
                                        (46, b"\x40\0"), (46, b"\0\0"), (48, b"\xff\xff"), (48, b"\0\1"), (50, b"\0\0")]):
                jobs.append((("header", i), ("header", [(p, v)])))
        else:
            # the end of a member header, lengths beyond the end and not numbers, members too small for an object
            for m in [i for i in range(8, size, 2) if orig[i + 58:i + 60] == b"\x60\n"]:
                for i, (p, v) in enumerate([(58, b"\x61"), (59, b"\r"), (48, b"9999999   "), (48, b"%-10d" % (size * 2)), (48, b"0         "), (48, b"51        "), (48, b"x         "), (0, b"#1/99999        ")]):
                    jobs.append((("member", m, i), ("header", [(m + p, v)])))
        for i in range(0, len(jobs), 40):
            todo.append((c, name, fmt, argv, victim, jobs[i:i + 40]))
    for name, kind_, out in c.pmap(cut, todo):
        for key, bad, data, rc in out:
            c.case((name, key))
            c.count("cut_or_damaged_objects")
            c.count("damaged_refused" if rc else "damaged_accepted")
            if bad:
                c.violation("%s:%s:%s" % (name, key[0], bad[0]), bad[1], {"object": data})


def check(c):
    c.rule = RULE
    c.assumptions = ["ptrace-injected errors stand for real ones", "the undisturbed run's output is right (other checks decide that)"]
    c.b.inst(("lcl", "lcw", "lcdp"), stub=True)
    c.faulter = c.b.native("faulter")
    c.inputs = prepare(c)
    c.base = snap(c.inputs)
    c.refs = {}
    ss = scenarios()
    todo = []

    def base(s):
        d = fresh(c, "ref-" + s.name)
        p, lines = go(c, s, d, ["all", "count", "0", "0"])
        o = snap(d)
        shutil.rmtree(d, ignore_errors=True)
        return s, p, lines, o
    for s, p, lines, o in c.pmap(base, ss, processes=False):
        if p.rc != 0 or any(x not in o for x in s.outs):
            raise RuntimeError("scenario %s fails undisturbed: %r" % (s.name, p))
        c.refs[s.name] = {x: o[x] for x in s.outs}
        c.count("fault_points", len(lines))
        jobs = plan(c, s, lines)
        for i in range(0, len(jobs), 12):
            todo.append((c, s, jobs[i:i + 12]))
    for arg, recs in zip(todo, c.pmap(faults, todo)):
        for key, bad, cov, rep in recs:
            c.case((arg[1].name,) + tuple(key))
            for k, v in cov.items():
                c.count(k, v)
            if bad:
                c.violation(bad[0], bad[1], {"run.txt": rep})
    inputs(c)
    cuts(c)
