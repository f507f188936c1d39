"""C17: the three assemblers give equivalent objects; n2f rewrites faithfully."""
import os, re, shutil, subprocess, zlib

from vt import core, targets, sem, prog, fuzzc, objcmp
from checks import c03, c05, c06, c07, c08, c19

TECHNIQUE = "offline checker over the objects NASM, YASM and FASM (through n2f) make of the same compiler output: instructions, data, fixups and symbols compared in an encoding-independent form; n2f's rewritten text compared online with a model; programs linked from units and library members of different assemblers run natively and in DOSBox and are judged by exact oracles"
NOTE = "n2f is compared on 32-bit output (FASM's ELF output has no 16-bit fixups, and the wrapper does not make the sections of the 16-bit modes 16-bit), NASM and YASM on all models. Random sampling of programs; the runtime library is compared completely."
RULE = "a case is one object compared with NASM's for the same text, one rewritten text compared with the model, or one printed result of a program of mixed objects; distinct: different assembly text"
SYSPATH = "/usr/local/bin:/usr/bin:/bin"
MODES = {"-linux": 32, "-win": 32, "-macos": 32, "-dosp": 32, "-doss": 16, "-dost": 16, "-dosh": 16, "-dosu": 16}
TGT = {"-linux": "linux", "-win": "linux", "-macos": "linux", "-dosp": "linux", "-doss": "doss", "-dost": "dost", "-dosh": "dosh", "-dosu": "dosu"}
WORDS = ("eax ebx esi ds cs st0 xmm0 mov add push call ret jmp je db dw dd resb rb section segment align alignb bits use32 org times equ extern extrn global public format byte word dword ptr offset "
         "near far short macro if else end repeat while virtual struc data at as dup rep lock include file store load forward label proc rel abs wrt strict nop int in out loop test cmp not and or xor shl neg "
         "common static absolute struct default float cpu L1 L2 L5 a ax al ah s ST cr0 dr7 true false defined used display assert match define restore irp purge").split()


def assemble(c, asm, out, which, d, env):
    argv = {"nasm": ["nasm", "-f", "elf"], "yasm": ["yasm", "-f", "elf"], "n2f": ["n2f", "-f", "elf"]}[which]
    return core.run(argv + [asm, "-o", out], cwd=d, env=env, timeout=120, merge=True)


def compare(c, d, asm, bits, env, st, must=True):
    """Assembles asm with every assembler; None or (key, what)."""
    ref = None
    forms = ("nasm", "yasm", "n2f") if bits == 32 else ("nasm", "yasm")
    got = {}
    for w in forms:
        p = assemble(c, asm, w + ".o", w, d, env)
        if p.timeout or b"out of memory" in p.out:
            # (FASM has 16 MB)
            st["inconclusive"] = st.get("inconclusive", 0) + 1
            return None
        if p.rc == 0 and not os.path.exists(os.path.join(d, w + ".o")):
            return "no-object-" + w, "%s: exit status 0 and no object" % w
        got[w] = p
    bad = [w for w in forms if got[w].rc]
    if bad and (must or len(bad) < len(forms) and must is False):
        return "rejected-" + bad[0], "%s rejects what the compiler wrote: %s" % (bad[0], got[bad[0]].out[:500].decode("latin-1"))
    if bad and must is None or len(bad) == len(forms):
        st["all_reject"] = st.get("all_reject", 0) + 1
        return None
    for w in forms:
        try:
            o = objcmp.canon(os.path.join(d, w + ".o"), bits, os.path.join(d, "text.bin"))
        except objcmp.Bad as e:
            return "object-" + w, "%s: %s" % (w, e)
        if w == "nasm":
            ref = o
            st["instructions"] = st.get("instructions", 0) + sum(map(len, o["code"].values()))
            st["data_bytes"] = st.get("data_bytes", 0) + sum(len(x[0]) for x in o["data"].values())
            st["fixups"] = st.get("fixups", 0) + sum(len(x[1]) for x in o["data"].values()) + sum(len(f) for x in o["code"].values() for t, f in x)
            continue
        st["objects_compared"] = st.get("objects_compared", 0) + 1
        df = objcmp.diff(ref, o)
        if df:
            return df[0] + "-" + w, "nasm and %s: %s" % (w, df[1])
    return None


def strings(r):
    """Initialised data with every kind of byte, and names that mean something to assemblers."""
    out = []
    ws = r.sample(WORDS, r.randint(3, 12))
    kw = set("if else struct default float int static while union do".split())
    for w in ws:
        if w in kw:
            continue
        k = r.randrange(6)
        if k == 0:
            out.append("int %s = %d;" % (w, r.randrange(-40000, 40000)))
        elif k == 1:
            out.append("static char %s[%d];" % (w, r.randint(1, 70)))
        elif k == 2:
            out.append("int %s(int a) { %s: if (a > 3) { a--; goto %s; } return a * %d; }" % (w, r.choice(("again", "L1", "eax", "end")), "@", r.randrange(100)))
            m = re.search(r"\{ (\w+):", out[-1])
            out[-1] = out[-1].replace("@", m.group(1))
        elif k == 3:
            n = r.choice([1, 2, 5, 30, 127, 128, 129, 300])
            raw = bytes(r.choice((r.randrange(1, 256), r.choice(b"\"'`;\\%$ \t\n\r:[]{},#"))) for _ in range(n))
            out.append("%schar %s[] = \"%s\";" % (r.choice(("", "unsigned ", "static ")), w, "".join("\\x%02x\"\"" % b if b < 32 or b > 126 else "\\" + chr(b) if b in b"\"\\?" else chr(b) for b in raw)))
        elif k == 4:
            out.append("char *%s = \"%s\"; " % (w, r.choice(("section .data", "; comment", "\\n section .text", "a'b\\\"c", "bits 16", "\\t alignb 64", "db 1,2,3", "\\\\", "%include", "`x`", "", "\\0", "\\0\\0x", "extern _foo", "%d%%"))))
        else:
            out.append("extern int %s; int get_%s(void) { return %s; } int *adr_%s = &%s;" % (w, w, w, w, w))
    r.shuffle(out)
    return "\n".join(out) + "\nchar *use(int i) { return i ? \"%s\" : \"; x\"; }\n" % r.choice(("section .bss", "\\x80\\xff", "'", "\\\"", "a;b"))


def units(a):
    c, k, n, corp, root = a
    res, st = [], {"seen": set()}
    env = c.b.env()
    for i in range(n):
        r = c.rng("u", k, i)
        mode = r.choice(["-linux"] * 5 + sorted(MODES))
        bits, t = MODES[mode], TGT[mode]
        q = r.random()
        extra = []
        if q < .3:
            g = sem.gen(c, ("c17", k, i), targets.TARGETS[t].dm(), r.choice([None, {"big": .5, "fns": 8}, {"agg": .9, "fns": 8}, {"depth": 5, "fns": 5}]))[0]
        elif q < .55:
            fn = r.choice([c05.program, c06.program, c07.program, c08.calls, c08.maze] + ([c19.calls] if t == "linux" else []))
            e = None
            try:
                e = fn(c, "c17-%d-%d" % (k, i), t)
            except KeyError:
                pass
            if e is None:
                continue
            g = [x for n_, x in e["files"].items() if n_.endswith(".c")]
            g = r.choice(g)
            extra = list(e.get("flags", ()))
        elif q < .8:
            g = strings(r)
        else:
            g = r.choice(corp) if r.random() < .5 else fuzzc.mutate(r, corp)
            g = g.replace(b"%s", b"h.h")
        src = g if isinstance(g, bytes) else g.encode("latin-1")
        d = c.dir("u%d-%d" % (k, i))
        with open(d + "/m.c", "wb") as f:
            f.write(src)
        extra += r.choice([[], [], [], ["-nobss"], ["-verbose"], ["-unsigned-char"], ["-Wall"]])
        p = core.run(["smlrcc", mode, "-S", "-SI", root + "/include"] + extra + ["m.c"], cwd=d, env=env, timeout=60, merge=True)
        if p.rc == 0 and os.path.exists(d + "/m.asm"):
            with open(d + "/m.asm", "rb") as f:
                asm = f.read()
            st["seen"].add(zlib.crc32(asm))
            st["units"] = st.get("units", 0) + 1
            st["mode" + mode] = st.get("mode" + mode, 0) + 1
            # inline assembly is the source's own
            v = compare(c, d, "m.asm", bits, env, st, must=True if b"asm" not in src else None)
            if v:
                res.append((v[0], "smlrcc %s -S %s: %s" % (mode, " ".join(extra), v[1]), {"m.c": src, "m.asm": asm}))
        else:
            st["not_compiled"] = st.get("not_compiled", 0) + 1
        shutil.rmtree(d, ignore_errors=True)
    return res, st


def library(a):
    """One source of one of the libraries."""
    c, lib, mode, src, opts = a
    res, st = [], {"seen": set()}
    env = c.b.env()
    d = c.dir("lib-%s-%s" % (lib, os.path.basename(src)))
    if src.endswith(".asm"):
        shutil.copy(src, d + "/m.asm")
        rc = 0
    else:
        shutil.copy(src, d + "/m.c")
        for h in os.listdir(os.path.dirname(src)):
            if h.endswith(".h"):
                shutil.copy(os.path.join(os.path.dirname(src), h), d)
        rc = core.run(["smlrcc", mode, "-S", "-SI", c.b.include()] + opts + ["m.c"], cwd=d, env=env, timeout=60, merge=True).rc
    if rc == 0:
        st["library_units"] = 1
        with open(d + "/m.asm", "rb") as f:
            asm = f.read()
        st["seen"].add(zlib.crc32(asm))
        v = compare(c, d, "m.asm", MODES[mode], env, st)
        if v:
            res.append((v[0] + "-" + lib, "%s of %s: %s" % (os.path.basename(src), lib, v[1]), {"m.asm": asm}))
    else:
        st["not_compiled"] = 1
    shutil.rmtree(d, ignore_errors=True)
    return res, st


# ---- the rewriting ----
def asmtext(r, flat=False):
    """Assembly in the dialect of the compiler and the library, as a list of (line without end, kind)."""
    labels = ["_%s%d" % (r.choice(("f", "x", "data", "eax", "section", "global_", "resb")), i) for i in range(r.randint(2, 7))]
    where = {}
    ext = ["_ext%d" % i for i in range(r.randint(0, 3))]
    sp = lambda: r.choice([" ", " ", "\t", "  ", " \t ", "\t\t"])
    ld = lambda: r.choice(["", "", "\t", "  ", "    ", "\t ", " \t"])
    cm = lambda: r.choice(["", "", "", " ; note", "\t;section .data", " ; 'x", ";\"", " "])
    body, used = [], 0
    secs = [".text"] if flat else r.choice([[".text"], [".text", ".data"], [".text", ".data", ".bss", ".rodata"], [".rodata", ".text"], [".bss", ".data", ".text", ".rodata"], [".text", ".data", ".bss", ".rodata", ".custom"], [".custom", "zz.last", ".text", ".Aaa", ".data"]])
    defs = list(labels)
    r.shuffle(defs)

    def frag(s):
        if not flat:
            body.append(ld() + "section" + sp() + s + cm().replace(";\"", " ;").replace("'", ""))
        if r.random() < .5:
            body.append(ld() + ("align" if s == ".text" else "alignb") + sp() + str(r.choice((1, 2, 4))) + cm())
        if defs and r.random() < .7:
            x = defs.pop()
            where[x] = s
            if r.random() < .6:
                body.append(ld() + "global" + sp() + x + cm())
            body.append(ld() + x + ":" + cm())
        for _ in range(r.choice((1, 2, 4, 9))):
            if r.random() < .12:
                body.append(ld() + r.choice(("", ";", "; section .data", ";extern _foo", ";\tglobal x ; y", ";section")))
            if s == ".bss":
                body.append(ld() + r.choice(("resb", "resw", "resd")) + sp() + str(r.randint(1, 9)) + cm())
            elif s == ".text":
                lab = "_start" if flat else r.choice(labels)
                body.append(ld() + r.choice([
                    "mov" + sp() + "eax, [ebp%+d]" % r.randrange(-200, 200), "push" + sp() + "dword %d" % r.randrange(-300, 300), "leave", "ret", "cdq", "mov\teax, %s" % lab, "jmp\t" + lab if 1 else "",
                    "call\t" + lab, "call\t" + r.choice(ext or [lab]), "mov\tal, [%s+%d]" % (r.choice(ext), r.randrange(9)) if ext else "nop", "je\t" + lab, "cmp\teax, 0x%x" % r.randrange(1 << 31), "movzx\tecx, byte [%s]" % lab,
                    "test\teax, eax", "shl\teax, %d" % r.randrange(32), "imul\teax, eax, %d" % r.randrange(-200, 200), "int\t0x%x" % r.randrange(256), "fld\tdword [esp]", "rep\tmovsb", "push\tdword [ebx+4*ecx+%s]" % lab,
                    "idiv\tecx", "sub\tesp, %10d" % r.randrange(5000), "mov\t[ebp-4], al", "sete\tal", "xor\tedx, edx", "add\teax, %s+%d" % (r.choice(ext), r.randrange(100)) if ext else "cwde", "db\t0x%x, %d" % (r.choice((0x98, 0x99, 0xf8)), r.choice((0x98, 0x99, 0xf9))), "sahf", "fstp\tst0" if r.random() < .001 else "fchs"]) + cm())
            else:
                body.append(ld() + r.choice([
                    "db" + sp() + "%d" % r.randrange(-128, 256), "dw" + sp() + "0x%x, %d" % (r.randrange(65536), r.randrange(100)), "dd" + sp() + r.choice(labels), "dd" + sp() + ("%s%+d" % (r.choice(ext), r.randrange(-50, 50)) if ext else r.choice(labels)), "dd" + sp() + "%d,%d , -%d" % (r.randrange(1 << 31), r.randrange(9), r.randrange(9)),
                    "db" + sp() + "\"%s\",10,0" % r.choice(("a;b", "section .text", "it's", "\\n\\", "  spaces  \t tab", "%d %s", "`", "a,b", "\x80\xe9")), "db" + sp() + "'%s'" % r.choice(("x", ";", "\"", "global a")), "times" + sp() + "%d db %d" % (r.randint(1, 20), r.randrange(9))]) + cm())
    for x in range(r.choice((1, 3, 6, 12)) if not flat else 1):
        frag(r.choice(secs))
    for s in secs:
        while defs and (s == ".text" or r.random() < .3):
            frag(s)
        if not flat and r.random() < .3:
            frag(s)
    while defs:
        x = defs.pop()
        body.append("section .text" if not flat else "")
        body += [x + ":", "\tret"]
    if flat:
        # (absolute addresses depend on the encodings chosen, but that of the start)
        body = [re.sub(r"^(\s*(?:jmp|call|je)\s+)_start", lambda m: m.group(1) + r.choice(labels), l) for l in body]
    head = [ld() + "bits" + sp() + "32"] + (["_start:"] if flat else [])
    if not flat:
        for x in ext:
            (head if r.random() < .5 else body).append(ld() + "extern" + sp() + x + cm().replace(";\"", " ;").replace("'", ""))
    for _ in range(r.randrange(3)):
        head.append(r.choice(("", "; x", "\t;section .data", "   ")))
    return head + body


def tokens(t):
    """Text as lists of tokens per line: blanks outside strings do not count."""
    res = []
    for l in t:
        l = re.sub(r"\"[^\"]*\"|'[^']*'|[ \t]+", lambda m: m.group() if m.group()[0] in "\"'" else " ", l).strip()
        if l:
            res.append(l)
    return res


def strip_comment(l):
    return re.sub(r"(\"[^\"]*\"|'[^']*')|;.*", lambda m: m.group(1) or "", l)


def rewrite(lines, elf):
    """What n2f -f asm shall write, without comments."""
    pre, secs, cur, names = [], {}, None, []
    for l in lines:
        m = re.match(r"[ \t]*section[ \t]+([^ \t]+)", l)
        if m:
            cur = m.group(1)
            secs.setdefault(cur, [])
            continue
        l = strip_comment(l)
        m = re.match(r"([ \t]*)([^ \t]+)([ \t]+)?(.*)$", l)
        if m:
            w = {"alignb": "align", "global": "public", "resb": "rb", "resw": "rw", "resd": "rd", "extern": "extrn"}.get(m.group(2), m.group(2))
            l = "use" + m.group(4) if w == "bits" else w + (m.group(3) or "") + m.group(4)
        (pre if cur is None else secs[cur]).append(l)
    first = [".text", ".rodata", ".data", ".bss"]
    order = [s for s in first if s in secs] + sorted(s for s in secs if s not in first)
    out = (["format elf"] if elf else []) + pre
    for s in order:
        out.append("section \"%s\"%s" % (s, {".text": " executable", ".data": " writable", ".bss": " writable"}.get(s, "")))
        out += secs[s]
    return tokens(out)


def rewriting(a):
    c, k, n = a
    res, st = [], {"seen": set()}
    env = c.b.env()
    for i in range(n):
        r = c.rng("r", k, i)
        flat = r.random() < .15
        lines = asmtext(r, flat)
        end = r.choice(["\n", "\n", "\n", "\r\n", "\r"])
        asm = (end.join(lines) + r.choice([end, end, ""])).encode("latin-1")
        if end == "\r":
            # (the other assemblers do not end a line there)
            plain = ("\n".join(lines) + "\n").encode("latin-1")
        else:
            plain = asm
        d = c.dir("r%d-%d" % (k, i))
        with open(d + "/in.asm", "wb") as f:
            f.write(asm)
        st["seen"].add(zlib.crc32(asm))
        inp = r.choice(["in.asm", "in.asm", "my in.asm", "it's.asm"]) if r.random() < .3 else "in.asm"
        out = r.choice(["out.fas", "out.fas", "my out.fas", "$HOME.fas", "o'ut`x.fas"])
        os.rename(d + "/in.asm", d + "/" + inp)
        argv = ["n2f"] + r.choice([["-f", "asm", inp, "-o", out], ["-o", out, "-f", "asm", inp], [inp, "-f", "asm", "-o", out]])
        p = core.run(argv, cwd=d, env=env, timeout=60, merge=True)
        why = None
        if p.timeout:
            st["inconclusive"] = st.get("inconclusive", 0) + 1
            continue
        if p.rc or not os.path.exists(d + "/" + out):
            why = ("n2f-status", "%s: exit status %d: %s" % (" ".join(argv), p.rc, p.out[:300].decode("latin-1")))
        else:
            with open(d + "/" + out, "rb") as f:
                g = tokens([strip_comment(l) for l in f.read().decode("latin-1").split("\n")])
            w = rewrite(lines, False)
            st["texts"] = st.get("texts", 0) + 1
            if g != w:
                j = next((j for j in range(min(len(g), len(w))) if g[j] != w[j]), min(len(g), len(w)))
                why = ("n2f-text", "line %d (comments and blanks aside) is %r and should be %r" % (j + 1, g[j:j + 1], w[j:j + 1]))
        if not why and flat:
            # a flat binary: NASM's instructions
            with open(d + "/n.asm", "wb") as f:
                f.write(plain)
            p = core.run(["nasm", "-f", "bin", "n.asm", "-o", "n.bin"], cwd=d, env=env, timeout=60, merge=True)
            if p.rc == 0:
                argv = ["n2f"] + r.choice([["-f", "bin", inp, "-o", "f.bin"], [inp, "-o", "f.bin"]])
                q = core.run(argv, cwd=d, env=env, timeout=60, merge=True)
                if q.rc or not os.path.exists(d + "/f.bin"):
                    why = ("n2f-bin-status", "%s: %s" % (" ".join(argv), q.out[:400].decode("latin-1")))
                else:
                    x, y = flatcanon(d + "/n.bin", d), flatcanon(d + "/f.bin", d)
                    st["flat"] = st.get("flat", 0) + 1
                    if x != y:
                        j = next((j for j in range(min(len(x), len(y))) if x[j] != y[j]), min(len(x), len(y)))
                        why = ("n2f-bin", "flat binary, instruction %d: nasm %r, n2f %r" % (j, x[j:j + 1], y[j:j + 1]))
        elif not why:
            # -f elf and YASM against NASM
            with open(d + "/m.asm", "wb") as f:
                f.write(plain)
            why = compare(c, d, "m.asm", 32, env, st, must=False)
        if why:
            res.append((why[0], why[1], {"in.asm": asm}))
        shutil.rmtree(d, ignore_errors=True)
    return res, st


def flatcanon(path, d):
    with open(path, "rb") as f:
        b = f.read()
    ins = objcmp.disas(b, 32, d + "/t.bin")
    index, keep = {}, []
    for a, ln, t in ins:
        index[a] = len(keep)
        if not objcmp.NOPS.match(t):
            keep.append((a, t))
    index[len(b)] = len(keep)
    # absolute addresses depend on the lengths: places are compared, not numbers, where a number is one
    return [re.sub(r"0x([0-9a-f]+)", lambda m: "@%d" % index[int(m.group(1), 16)] if re.match(r"j|call|loop", t) and int(m.group(1), 16) in index else m.group(), t.replace("+0x0]", "]")) for a, t in keep]


def failures(a):
    """What the wrapper and the driver do when the assembler does not accept the text."""
    c, k, n = a
    res, st = [], {"seen": set()}
    env = c.b.env()
    for i in range(n):
        r = c.rng("f", k, i)
        d = c.dir("f%d-%d" % (k, i))
        lines = asmtext(r)
        bad = r.choice(["\tmov eax", "\tfoo eax, 1", "\tmov eax, _undefined_%d" % i, "_dup:\n\tret\n_dup:", "\tdb ,", "\tpush [", "\tmov al, ebx", "\tcall"])
        at = r.randrange(next(j for j, l in enumerate(lines) if "section" in l and l.strip()[0] != ";") + 1, len(lines) + 1)
        if re.search(r"^\s*(section\s+\.bss)", "\n".join(lines), re.M) and bad.startswith("\td"):
            bad = "\tfoo eax, 1"
        lines.insert(at, bad)
        asm = "\n".join(lines) + "\n"
        with open(d + "/in.asm", "wb") as f:
            f.write(asm.encode("latin-1"))
        st["seen"].add(zlib.crc32(asm.encode("latin-1")))
        q = r.randrange(3)
        fmt = r.choice(["elf", "bin"])
        if q == 0:
            argv, out = ["n2f", "-f", fmt, "in.asm", "-o", "out.o"], "out.o"
        elif q == 1:
            argv, out = ["smlrcc", "-linux", "-asm", r.choice(["nasm", "yasm", "n2f"]), "-c", "in.asm", "-o", "out.o"], "out.o"
        else:
            argv, out = ["smlrcc", "-linux", "-asm", r.choice(["nasm", "yasm", "n2f"]), "in.asm", "-o", "out"], "out"
        p = core.run(argv, cwd=d, env=env, timeout=60, merge=True)
        if p.timeout:
            st["inconclusive"] = st.get("inconclusive", 0) + 1
        else:
            st["failures"] = st.get("failures", 0) + 1
            left = sorted(set(os.listdir(d)) - {"in.asm"})
            if p.rc <= 0:
                res.append(("failure-status", "%s: exit status %d in spite of the line %r" % (" ".join(argv), p.rc, bad), {"in.asm": asm}))
            elif left:
                res.append(("failure-left", "%s: failed and left %s (line %r)" % (" ".join(argv), left, bad), {"in.asm": asm}))
            elif not p.out.strip():
                res.append(("failure-silent", "%s: failed without a message (line %r)" % (" ".join(argv), bad), {"in.asm": asm}))
        shutil.rmtree(d, ignore_errors=True)
    return res, st


def options(a):
    """Options given for the assembler reach it, and options of the wrapper are checked."""
    c, = a
    res, st = [], {"seen": set(), "option_runs": 0}
    d = c.dir("opt")
    env = c.b.env()
    with open(d + "/m.asm", "w") as f:
        f.write("bits 32\nsection .text\nglobal _main\n_main:\n\tret\n")
    for argv, want in ((["n2f"], False), (["n2f", "-f"], False), (["n2f", "-f", "obj", "m.asm"], False), (["n2f", "-x", "m.asm"], False), (["n2f", "-f", "asm", "m.asm"], False),
                       (["n2f", "m.asm", "m.asm", "-o", "x.o"], False), (["n2f", "-f", "elf", "none.asm", "-o", "x.o"], False), (["n2f", "-f", "elf", "m.asm", "-o"], False), (["n2f", "-f", "elf", "m.asm", "-o", "none/x.o"], False),
                       (["n2f", "-f", "asm", "m.asm", "-o", "none/x.o"], False), (["n2f", "-f", "elf", "m.asm", "-o", "x.o"], True), (["n2f", "-o", "x.o", "m.asm", "-f", "elf"], True), (["n2f", "-f", "bin", "m.asm", "-o", "x.o"], True), (["n2f", "m.asm", "-o", "x.o"], True)):
        p = core.run(argv, cwd=d, env=env, timeout=60, merge=True)
        st["option_runs"] += 1
        if p.timeout:
            continue
        there = os.path.exists(d + "/x.o")
        if (p.rc == 0) != want or there != want:
            res.append(("n2f-options", "%s: exit status %d, output %s" % (" ".join(argv), p.rc, "written" if there else "not written"), {}))
        if there:
            os.unlink(d + "/x.o")
    return res, st


def mixed(a):
    """Units and library of different assemblers in one program."""
    c, k, target, n, libs = a
    res, st = [], {"seen": set()}
    T = targets.TARGETS[target]
    env = c.b.env()
    d = c.dir("mix%s%d" % (target, k))
    runs = []
    for i in range(n):
        r = c.rng("mix", target, k, i)
        e = c03.multi(c, ("c17", k, i), target) if r.random() < .3 else None
        if e is None:
            fn = r.choice([c08.calls, c08.maze, c19.calls, c06.program, c05.program, c07.program])
            e = fn(c, "c17m-%d-%d" % (k, i), target)
            if e is None:
                continue
        forms = ["nasm", "yasm", "n2f"] if target == "linux" else ["nasm", "yasm"]
        base = ("p%04d" if target == "linux" else "P%04d") % i
        sub = c.dir("mix%s%d/%s" % (target, k, base)) if target == "linux" else d
        objs, ok, used = [], True, []
        for j, (n_, t) in enumerate(e["files"].items()):
            if not n_.endswith(".c"):
                with open(os.path.join(sub, n_), "wb") as f:
                    f.write(t if isinstance(t, bytes) else t.encode("latin-1"))
                continue
            s = "%s%c" % (base, 97 + j)
            with open(os.path.join(sub, s + ".c"), "wb") as f:
                f.write(t if isinstance(t, bytes) else t.encode("latin-1"))
            w = r.choice(forms)
            used.append(w)
            p = core.run(["smlrcc", T.flag, "-asm", w, "-c"] + list(e.get("flags", ())) + [s + ".c", "-o", s + ".o"], cwd=sub, env=env, timeout=60, merge=True)
            ok &= p.rc == 0
            if p.rc and not targets.capacity(p) and not p.timeout:
                res.append(("mix-rejected", "%s with %s: %s" % (target, w, p.out[-400:].decode("latin-1")), e["files"]))
            objs.append(s + ".o")
        if not ok:
            continue
        exe = targets.exe_name(target, base)
        lib = r.choice(libs)
        p = core.run(["smlrcc", T.flag, "-SL", lib] + objs + ["-o", exe], cwd=sub, env=env, timeout=60, merge=True)
        if p.rc:
            if not targets.capacity(p) and not p.timeout:
                res.append(("mix-link", "%s: units by %s, library %s: %s" % (target, used, os.path.basename(lib), p.out[-400:].decode("latin-1")), e["files"]))
            continue
        runs.append((e, exe, sub, "units by %s, library %s" % (used, os.path.basename(lib))))
    if target == "linux":
        got = []
        for e, exe, sub, how in runs:
            p = core.run(["./" + exe], cwd=sub, timeout=30, stdin=e.get("stdin"))
            got.append((None, None) if p.timeout else (p.out, p.rc == 0))
    else:
        got = targets.dos_run(c.b, d, [x[1] for x in runs])
    for (e, exe, sub, how), g in zip(runs, got):
        if g is None or g == (None, None):
            st["inconclusive"] = st.get("inconclusive", 0) + 1
            continue
        out, ok = g
        out = out if target == "linux" else out.replace(b"\r\n", b"\n")
        st["mixed_programs"] = st.get("mixed_programs", 0) + 1
        st["mixed_results"] = st.get("mixed_results", 0) + e.get("n", 1)
        st["seen"].add(zlib.crc32(b"".join(t if isinstance(t, bytes) else t.encode("latin-1") for t in e["files"].values())))
        if "judge" in e:
            j = e["judge"](out, ok)
        else:
            j = None if out == e["exp"] and ok else ("mixed", prog.diff(out, e["exp"]))
        if j:
            res.append(("mix-wrong", "%s, %s: %s" % (target, how, j[1]), e["files"]))
    shutil.rmtree(d, ignore_errors=True)
    return res, st


def libdirs(c):
    """Directories with the library of each assembler, and of a random mix of them."""
    forms = {"nasm": c.b.lib("lcl"), "yasm": c.b.lib("lcl", ("-asm", "yasm"), "yasm"), "n2f": c.b.lib("lcl", ("-asm", "n2f"), "n2f")}
    dirs = []
    for w, p in forms.items():
        d = c.dir("L" + w)
        shutil.copy(p, d + "/lcl.a")
        dirs.append(d)
        x = c.dir("X" + w)
        subprocess.run(["ar", "x", p], cwd=x, check=True)
    for k in range(3):
        r = c.rng("mixlib", k)
        d = c.dir("Lmix%d" % k)
        names = sorted(os.listdir(c.dir("Xnasm")))
        m = c.dir("Lmix%d/o" % k)
        for n in names:
            src = c.dir("X" + r.choice(list(forms))) + "/" + n
            shutil.copy(src, m)
        subprocess.run(["ar", "rc", d + "/lcl.a"] + [m + "/" + n for n in names], check=True)
        dirs.append(d)
    return dirs


def doslib(c):
    dirs = []
    for w, x in (("nasm", ()), ("yasm", ("-asm", "yasm"))):
        d = c.dir("D" + w)
        shutil.copy(c.b.lib("lcdh", x, w if x else ""), d + "/lcdh.a")
        dirs.append(d)
    return dirs


def call(j):
    return j[0](j[1])


def check(c):
    c.rule = RULE
    c.assumptions += ["objdump's disassembler", "NASM as the reference for what the text means", "the oracles of C05-C08 and C19 for the programs run"]
    root = c.b.inst(("lcl", "lcdh"))
    ld, dd = libdirs(c), doslib(c)
    gens = [sem.gen(c, ("c17g", i), targets.TARGETS["linux"].dm(), {"fns": 3})[0].encode() for i in range(10)]
    corp = fuzzc.corpus(c.b.src(), gens)
    jobs = [(mixed, (c, k, "dosh", c.n(5, 20), dd)) for k in range(c.n(4, 60))]
    jobs += [(mixed, (c, k, "linux", 6, ld)) for k in range(c.n(10, 400))]
    src = c.b.src() + "/v0100/srclib/"
    for lib in ("lcl", "lcw", "lcm", "lcds", "lcdh", "lcdu", "lcdp"):
        with open(src + lib + ".txt") as f:
            w = f.read().split()
        mode = w[0]
        opts = []
        fs = [x for x in w if x.endswith((".c", ".asm"))]
        if not c.thorough and lib not in ("lcl", "lcdh"):
            # those with assembly of their own, and some of the rest
            r = c.rng("lib", lib)
            fs = [x for x in fs if r.random() < .15 or x.endswith(".asm") or "asm(" in open(src + x, encoding="latin-1").read()]
        jobs += [(library, (c, lib, mode, src + x, opts)) for x in fs if os.path.exists(src + x)]
    jobs += [(units, (c, k, 20, corp, root)) for k in range(c.n(55, 3000))]
    jobs += [(rewriting, (c, k, 25)) for k in range(c.n(40, 2000))]
    jobs += [(failures, (c, k, 10)) for k in range(c.n(10, 300))]
    jobs += [(options, (c,))]
    for res, st in c.pmap(call, jobs):
        c.nontrivial.update(st.pop("seen"))
        c.inconclusive += st.pop("inconclusive", 0)
        c.case(n=sum(st.get(x, 0) for x in ("objects_compared", "texts", "flat", "failures", "option_runs", "mixed_results")))
        for kk, v in st.items():
            c.count(kk, v)
        for key, what, files in res:
            if sum(v[0] == key for v in c.viol) < 2:
                c.violation(key, what, files)
        if len(c.viol) >= 15:
            break
    c.samples = ["%d objects of YASM and n2f equal NASM's: %d instructions, %d fixups" % (c.cov.get("objects_compared", 0), c.cov.get("instructions", 0), c.cov.get("fixups", 0))]
