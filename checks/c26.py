"""C26: the life of a process."""
import os, re, shutil, subprocess

from vt import build, core, life, targets

TECHNIQUE = "generated programs that register handlers, leave files open and end in every way, jump with longjmp, call system(), get random arguments and environments, or use temporary files run on Linux and in DOSBox; their status, output, error output, files and leftovers are compared with the same program under glibc or with a model; the DOS argument parser also runs natively under ASan"
NOTE = "Programs are sampled. abort() is exit(EXIT_FAILURE) and system() runs $SHELL, as documented; argument splitting follows the Microsoft rules the sources name. Windows and macOS programs run in a loader of ours (vt/native/osrun.c) and DPMI ones in DOSBox with a host of ours (vt/native/dpmihost.asm)."
RULE = "a case is one program run whose output, error output, status and files are compared; distinct: one per program text or per argument vector"

LINUX_GCC = ["gcc", "-DREF", "-O0", "-w", "-fno-builtin"]


def files_of(d):
    o = {}
    for n in sorted(os.listdir(d)):
        p = os.path.join(d, n)
        if os.path.isdir(p):
            o[n] = b""
            for k, v in files_of(p).items():
                o[n + "/" + k] = v
        else:
            with open(p, "rb") as f:
                o[n] = f.read()
    return o


def same(a, b):
    """What differs between two (rc, out, err, files)."""
    for n, x, y in zip(("exit status", "standard output", "error output"), a, b):
        if x != y:
            if isinstance(x, bytes):
                p, q = x.split(b"\n"), y.split(b"\n")
                for i in range(max(len(p), len(q))):
                    u, v = (p[i] if i < len(p) else b"<end>"), (q[i] if i < len(q) else b"<end>")
                    if u != v:
                        return "%s, line %d: expected %r, got %r" % (n, i + 1, u[:120], v[:120])
            return "%s: expected %r, got %r" % (n, x, y)
    if a[3] != b[3]:
        for n in sorted(set(a[3]) | set(b[3])):
            if a[3].get(n) != b[3].get(n):
                return "file %s: expected %r bytes, got %r" % (n, len(a[3][n]) if n in a[3] else None, len(b[3][n]) if n in b[3] else None)
    return None


# --- the life of a process on Linux, against glibc ------------------------------------------------------------------
def linux_life(arg):
    c, keys, kind = arg[:3]
    target = arg[3] if len(arg) > 3 else "linux"
    out = []
    for key in keys:
        d = c.dir("%s-%s-%s" % (kind, target, key))
        os.makedirs(d + "/a"), os.makedirs(d + "/b")
        g = life.G(c.rng(kind, key) if target == "linux" else c.rng(kind, target, key), target == "win")
        t = g.program() if kind == "life" else g.tmp_program()
        with open(d + "/m.c", "w") as f:
            f.write(t)
        p = core.run(LINUX_GCC + ["m.c", "-o", "ref"], cwd=d, timeout=60)
        if p.rc:
            raise RuntimeError("reference compile: %r" % p)
        o = core.run(["smlrcc", "-" + target, "m.c", "-o", "our"], cwd=d, env=c.b.env(), timeout=60, merge=True)
        if o.rc is None or o.rc:
            out.append((key, None if targets.capacity(o) else ("rejected", "valid program rejected: %r" % o.out[-300:], t), {}))
            continue
        env = {"SHELL": "/bin/sh", "PATH": "/usr/bin:/bin", "LC_ALL": "C"}
        wrap, res = [], []
        for side, exe in (("a", "ref"), ("b", "our")):
            if kind == "tmp":
                pre = "".join("echo kept > /tmp/tmp%05d.tmp;" % i for i in g.pre)
                wrap = ["unshare", "-Urm", "sh", "-c", "mount -t tmpfs none /tmp || exit 99; %s\"$@\"; s=$?; cat /tmp/* > left.txt; ls /tmp | wc -l > nleft.txt; exit $s" % pre, "x"]
            p = core.run(wrap + (targets.argv(c.b, target, "../our") if side == "b" else ["../" + exe]), cwd=d + "/" + side, env=env, timeout=20, mem_mb=1024)
            txt = targets.dos_text if target == "win" and side == "b" else lambda x: x
            res.append((p.rc, txt(p.out), txt(p.err), files_of(d + "/" + side)) if not p.timeout else None)
        if res[0] is None:
            out.append((key, None, {"reference_timeouts": 1}))
        elif res[1] is None:
            out.append((key, ("hang", "the program does not end", t), {}))
        else:
            w = same(*res)
            out.append((key, (kind, w, t) if w else None, {
                "lines_compared": res[0][1].count(b"\n"), "files_compared": len(res[0][3]), "handlers_run": len(re.findall(rb"^h \d", res[0][1], re.M)),
                "jumps_taken": len(re.findall(rb"^(j|one|neg|c|jt|v 1) ", res[0][1], re.M)), "status_nonzero": int(res[0][0] != 0)}))
        shutil.rmtree(d, ignore_errors=True)
    return out


# --- in DOSBox ------------------------------------------------------------------------------------------------------
def dos_life(arg):
    c, target, keys = arg
    d = c.dir("dl-%s-%s" % (target, keys[0]))
    es, cmds = [], []
    for k, key in enumerate(keys):
        base = "P%04d" % k
        t = life.G(c.rng("doslife", target, key), True).program()
        t = re.sub(r'"f(\d)\.out"', '"Q%02d\\1.OUT"' % k, t)
        with open(d + "/" + base + ".c", "w") as f:
            f.write(t)
        os.makedirs(d + "/r%d" % k)
        p = core.run(LINUX_GCC + [base + ".c", "-o", base + ".ref"], cwd=d, timeout=60)
        if p.rc:
            raise RuntimeError("reference compile: %r" % p)
        p = core.run(["../" + base + ".ref"], cwd=d + "/r%d" % k, timeout=20)
        if p.timeout:
            continue
        ref = (p.rc, p.out, files_of(d + "/r%d" % k))
        exe, o = targets.compile_c(c.b, d, target, base, timeout=60)
        if exe is None:
            es.append((key, None if targets.capacity(o) else ("rejected", "valid program rejected: %r" % o.out[-300:], t), None))
            continue
        es.append((key, ref, (t, len(cmds), k)))
        cmds.append(exe)
    rcs = {}
    res = targets.dos_run(c.b, d, cmds, want={x[2][1]: x[1][0] for x in es if x[2]})
    out = []
    for key, ref, m in es:
        if m is None:
            out.append((key, ref, {}))
            continue
        t, i, k = m
        if res[i] is None:
            continue
        if res[i][0] is None:
            out.append((key, ("hang", "the program does not end", t), {}))
            continue
        got = {}
        for n in os.listdir(d):
            if re.match("Q%02d\\d\\.OUT$" % k, n):
                with open(d + "/" + n, "rb") as f:
                    got[n] = f.read()
        w = same((True, ref[1], b"", ref[2]), (res[i][1], targets.dos_text(res[i][0]), b"", got))
        if w and w.startswith("exit status"):
            w = "exit status is not %d" % ref[0]
        out.append((key, ("life", w, t) if w else None, {"lines_compared_dos": ref[1].count(b"\n"), "files_compared_dos": len(ref[2]), "handlers_run_dos": len(re.findall(rb"^h \d", ref[1], re.M))}))
    shutil.rmtree(d, ignore_errors=True)
    return out


# --- arguments and environment --------------------------------------------------------------------------------------
ARGS = r"""#include <stdio.h>
#include <stdlib.h>
#include <string.h>
void hex(char *s) { if (!s) { printf("NULL\n"); return; } while (*s) printf("%02x", (unsigned char)*s++); printf(".\n"); }
int main(int argc, char **argv) {
  int i, e; char *k[64]; int nk = 0;
#ifdef _DOS
  freopen("ARGS.TXT", "ab", stdout);
#endif
  printf("%d\n", argc);
  for (i = 1; i < argc; i++) hex(argv[i]);
  hex(argv[argc]);
  for (e = 0, i = 1; i < argc; i++) {
    if (e) { char *p = getenv(argv[i]); hex(p); if (p && nk < 64) { k[nk++] = p; } }
    else if (!strcmp(argv[i], "@@")) e = 1;
  }
#if defined _LINUX || defined _MACOS   /* elsewhere the next call may reuse the string */
  for (i = 0; i < nk; i++) hex(k[i]);
#endif
  strcpy(argc > 1 ? argv[argc - 1] : argv[0], "");   /* the strings may be modified */
  return 0;
}
"""


def hexs(b):
    return b"NULL\n" if b is None else b.hex().encode() + b".\n"


def word(r, n=None):
    n = r.choice([0, 1, 1, 2, 3, 5, 8, 20, 100, 1000]) if n is None else n
    a = r.choice([b"abcXYZ019_", bytes(range(1, 256)), b" \t\"'\\$`*", b"\\\" a"])
    return bytes(r.choice(a) for _ in range(n))


def name(r):
    return r.choice([b"A", b"AB", b"ABC", b"B", b"A_", b"a", b"", b"PATH", b"PAT", b"PATHX", b"X" * r.randint(1, 40), word(r, 3).replace(b"=", b"-")])


def linux_args(arg):
    c, exe, keys = arg[:3]
    target = arg[3] if len(arg) > 3 else "linux"
    out = []
    for key in keys:
        r = c.rng("args", key)
        args = [word(r) for _ in range(r.choice([0, 1, 2, 3, 10, 50, 500]))]
        args = [a for a in args if a != b"@@"]
        env = {name(r) or b"Z": word(r) for _ in range(r.choice([0, 0, 1, 3, 10, 40]))}
        ask = [r.choice(sorted(env)) if env and r.random() < .5 else name(r) for _ in range(r.choice([0, 3, 10]))]
        if r.random() < .1 and env:
            ask.append(sorted(env)[0] + b"=")
        av = [exe.encode()] + args + ([b"@@"] + ask if ask else [])
        p = core.run(targets.argv(c.b, target, exe)[:-1] + av, env=env, timeout=20)
        vals = []
        for a in ask:
            v = env.get(a) if b"=" not in a else next((v[len(a) - len(k):] for k, v in env.items() if (k + b"=" + v).startswith(a + b"=")), None)
            vals.append(v)
        exp = b"%d\n" % len(av) + b"".join(hexs(a) for a in av[1:]) + b"NULL\n" + b"".join(map(hexs, vals)) + b"".join(hexs(v) for v in vals if v is not None)
        bad = None
        if p.timeout or p.rc != 0 or p.out != exp:
            bad = ("args", "arguments %r, environment %r, asked %r: %s" % (av[1:][:20], dict(list(env.items())[:20]), ask, same((0, exp, b"", {}), (p.rc, p.out, p.err, {}))), repr((av, env)))
        out.append((key, bad, {"arguments_passed": len(av), "variables_asked": len(ask)}))
    return out


def msvc(s):
    """The argument strings of a command tail by the rules of the Microsoft run time (msvcr90 and later)."""
    out, i, n = [], 0, len(s)
    while True:
        while i < n and s[i] in b" \t":
            i += 1
        if i >= n:
            return out
        cur, q = bytearray(), False
        while i < n and (q or s[i] not in b" \t"):
            if s[i] == 0x5c:
                k = 0
                while i < n and s[i] == 0x5c:
                    k += 1
                    i += 1
                if i < n and s[i] == 0x22:
                    cur += b"\\" * (k // 2)
                    if k % 2:
                        cur += b'"'
                        i += 1
                else:
                    cur += b"\\" * k
            elif s[i] == 0x22:
                if q and i + 1 < n and s[i + 1] == 0x22:
                    cur += b'"'
                    i += 1
                else:
                    q = not q
                i += 1
            else:
                cur.append(s[i])
                i += 1
        out.append(bytes(cur))


def win_args(arg):
    """Command lines as Windows passes them, split by the start-up code; the environment through kernel32."""
    c, exe, keys = arg
    out = []
    for key in keys:
        r = c.rng("wargs", key)
        cmd = tail(r, 1000)
        av = [a for a in msvc(b"prog.exe " + cmd) if a != b"@@"]
        cmd = b"prog.exe " + cmd.replace(b"@@", b"@")
        env = {re.sub(rb"[^A-Za-z0-9_]", b"q", name(r)) or b"Z": word(r) for _ in range(r.choice([0, 0, 1, 3, 10, 40]))}
        env = {k: v for k, v in env.items() if not any(k.upper() == q.upper() and k > q for q in env)}       # names do not depend on case
        ask = [r.choice(sorted(env)) if env and r.random() < .5 else name(r).replace(b'"', b"q") for _ in range(r.choice([0, 3, 10]))]
        ask = [re.sub(rb"[^A-Za-z0-9_]", b"q", a) or b"Z" for a in ask]
        av = msvc(cmd)
        full = cmd
        if ask:
            full = cmd + b" @@ " + b" ".join(ask)
            if msvc(full)[len(av):] != [b"@@"] + ask:
                full, ask = cmd, []
        p = core.run(targets.argv(c.b, "win", exe)[:-1] + [b"-l", full, exe], env=env, timeout=20)
        vals = [next((v for k, v in env.items() if k.upper() == a.upper()), None) for a in ask]
        got = msvc(full)
        exp = b"%d\n" % len(got) + b"".join(hexs(a) for a in got[1:]) + b"NULL\n" + b"".join(map(hexs, vals))
        o = targets.dos_text(p.out) if not p.timeout else None
        bad = None
        if o != exp or p.rc:
            bad = ("args", "command line %r, environment %r, asked %r: %s" % (full[:300], dict(list(env.items())[:20]), ask, same((0, exp, b"", {}), (p.rc, o, p.err, {})) if o is not None else "no end"),
                   repr((full, env)))
        out.append((key, bad, {"command_lines_split_windows": 1, "variables_asked_windows": len(ask)}))
    return out


def tail(r, maxlen, wild=True):
    a = r.choice([b'a b"\\', b'ab "', b' \\"x', b"a ", b'abc de\t"\\\'&^()' if wild else b'abc de"\\'])
    return bytes(r.choice(a) for _ in range(r.choice([0, 1, 2, 3, 5, 10, 30, 60, maxlen, r.randint(0, maxlen)])))


def dos_args(arg):
    c, target, keys = arg
    d = c.dir("da-%s-%s" % (target, keys[0]))
    with open(d + "/ARGS.c", "w") as f:
        f.write(ARGS)
    exe, o = targets.compile_c(c.b, d, target, "ARGS")
    if exe is None:
        return [(keys[0], ("rejected", "valid program rejected: %r" % o.out[-300:], ARGS), {})]
    env = {"AB": "12 34", "ABC": "x=y;z", "Q": "v" * 60, "EMPTYISH": "."}
    cases = []
    for key in keys:
        r = c.rng("dargs", target, key)
        s = tail(r, 98, False)
        # what the batch interpreter does with quotes, redirection and spaces at the end is not ours
        s = s.replace(b"\t", b" ").strip(b" ")
        ask = [r.choice([b"AB", b"ABC", b"A", b"Q", b"QQ", b"ABCD", b"B", b"EMPTYISH", b"12"]) for _ in range(r.choice([0, 1, 3]))]
        av = msvc(s)
        cmd = s
        if ask:
            cmd = s + b" @@ " + b" ".join(ask)
        got = msvc(cmd)
        if ask and got[len(av):] != [b"@@"] + ask:
            cmd, ask, got = s, [], av
        cmd = b"%d " % len(cases) + cmd
        got = [b"%d" % len(cases)] + got
        vals = [env[a.decode()].encode() if a.decode() in env else None for a in ask]
        exp = b"%d\n" % (1 + len(got)) + b"".join(map(hexs, got)) + b"NULL\n" + b"".join(map(hexs, vals))
        cases.append((key, cmd, exp, len(got), len(ask)))
    res = targets.dos_run(c.b, d, [exe + " " + x[1].decode("latin-1") for x in cases], env=env, redirect=False)
    all_ = b""
    if os.path.exists(d + "/ARGS.TXT"):
        with open(d + "/ARGS.TXT", "rb") as f:
            all_ = f.read().replace(b"\r\n", b"\n")
    pos, out = 0, []
    for (key, cmd, exp, n, na), r in zip(cases, res):
        if r is None:
            break
        got = all_[pos:pos + len(exp)]
        pos += len(exp)
        out.append((key, ("dos-args", "command tail %r: expected %r, got %r" % (cmd, exp, got), repr(cmd)) if got != exp else None, {"arguments_parsed_dos": n, "variables_asked_dos": na}))
        if got != exp:
            break
    shutil.rmtree(d, ignore_errors=True)
    return out


PARSER = r"""#include <stdio.h>
#include <stdlib.h>
#include <string.h>
int __ArgParser__(char *in, char *out, char **argv);
int main(int argc, char **argv) {
  static unsigned char l[70000]; unsigned n;
  while (fread(&n, 4, 1, stdin) == 1 && fread(l, 1, n, stdin) == n) {
    char *s = malloc(n + 1), *o = argc > 1 ? s : malloc(n + 1), **v = malloc((n / 2 + 2) * sizeof *v); int c, i;
    memcpy(s, l, n); s[n] = 0;
    c = __ArgParser__(s, o, v);
    fwrite(&c, 4, 1, stdout);
    for (i = 0; i < c; i++) fwrite(v[i], 1, strlen(v[i]) + 1, stdout);
    i = v[c] != 0; fwrite(&i, 4, 1, stdout);
    if (o != s) free(o); free(s); free(v);
  }
  return 0;
}
"""


def parser(c):
    """The argument parser of the DOS and Windows start-up code as a native program under ASan."""
    d = c.dir("parser")
    with open(d + "/p.c", "w") as f:
        f.write(PARSER)
    src = os.path.join(c.b.src(), "v0100/srclib/c0.c")
    p = core.run(["gcc", "-w", "-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "p.c", src, "-o", "p"], cwd=d, timeout=120, mem_mb=0)
    if p.rc:
        c.count("argument_parser_not_native")       # it is still seen in DOSBox
        return
    todo = [b for b in (bytes((b'a "\\'[(i >> (2 * j)) & 3] for j in range(n))) for n in range(8) for i in range(4 ** n))]
    r = c.rng("parser")
    todo += [tail(r, r.choice([127, 127, 1000])) for _ in range(c.n(20000, 1000000))]
    data = b"".join(len(s).to_bytes(4, "little") + s for s in todo)
    for mode in ([], ["same"]):
        p = core.run(["./p"] + mode, cwd=d, stdin=data, timeout=300, mem_mb=0, env={"ASAN_OPTIONS": "detect_leaks=0"})
        o, pos = p.out, 0
        for s in todo:
            exp = msvc(s)
            e = len(exp).to_bytes(4, "little") + b"".join(a + b"\0" for a in exp) + b"\0\0\0\0"
            if o[pos:pos + len(e)] != e:
                c.violation("arg-parser", "command tail %r: expected %r, got %r %r" % (s, exp, o[pos:pos + len(e) + 8], p.err[:600]), {"tail": s})
                break
            pos += len(e)
        c.case(n=len(todo))
        c.count("tails_parsed_natively", len(todo))
    c.nontrivial.update(hash(("tail", s)) for s in todo)


# --- system() in DOS ------------------------------------------------------------------------------------------------
CHILD = r"""#include <stdio.h>
#include <stdlib.h>
#include <string.h>
int main(int argc, char **argv) {
  int i, s = 0; float f;
  char *p = getenv("KEEP");
  for (i = 1; i < argc; i++) printf("[%s]", argv[i]);
  printf(" %s\n", p ? p : "none");
  if (argc > 2 && !strcmp(argv[1], "file")) { FILE *g = fopen(argv[2], "ab"); fprintf(g, "child\n"); fclose(g); }
  return argc > 1 ? atoi(argv[1]) : 0;
}
"""
PARENT = r"""#include <stdio.h>
#include <stdlib.h>
#include <string.h>
FILE *f;
int done;
void atx(void) { printf("atexit %d\n", done); }
int run(char *s, int lvl) { char pad[40]; int r; memset(pad, lvl, sizeof pad); r = lvl ? run(s, lvl - 1) : system(s); if (pad[0] != lvl || pad[39] != lvl) printf("BAD pad\n"); return r; }
int main(void) {
  char *e, *t, list[40]; int i;
  atexit(&atx);
  e = getenv("KEEP");
  strcpy(list, "one,two,three,four,five,six,seven,8,9,10");
  t = strtok(list, ",");
  srand(5);
  printf("shell %d\n", !!system(NULL));
@@
  done = 1;
  return 0;
}
"""


def dos_system(arg):
    c, target, keys = arg
    d = c.dir("ds-%s" % target)
    kids = []
    for n, k in enumerate(("dost", "doss", "dosh", "dosu")):
        with open(d + "/KID%d.c" % n, "w") as f:
            f.write(CHILD)
        exe, o = targets.compile_c(c.b, d, k, "KID%d" % n)
        if exe is None:
            return [("x", ("rejected", "valid program rejected: %r" % o.out[-300:], CHILD), {})]
        kids.append(exe)
    es = []
    for k, key in enumerate(keys):
        r = c.rng("sys", target, key)
        b, exp = [], [b"shell 1"]
        words = ["one", "two", "three", "four", "five", "six", "seven", "8", "9", "10"]
        fx = "S%d%02d.TXT" % ("dost doss dosh dosu dosp".split().index(target), k)
        for i in range(r.randint(1, 5)):
            t = r.random()
            b.append('  printf("before %d %%s\\n", t);' % i)
            exp.append(b"before %d %s" % (i, words[i].encode()))
            kid = r.choice(kids)
            kid = r.choice([kid, kid.lower(), ".\\\\" + kid, "./" + kid, "C:\\\\" + kid])
            if t < .7:
                n = r.choice([0, 1, 2, 7, 127, 128, 200, 255, 256, 300])
                a = [str(n)] + [r.choice(["a", "./b", "x.exe", "/c", "-d", "\\\\e", "%d" % r.randint(0, 99), "f" * r.randint(1, 30)]) for _ in range(r.randint(0, 4))]
                if r.random() < .15:
                    a = ["./first"] + a[1:]
                    n = 0
                line = kid + r.choice([" ", "  "]) + " ".join(a) + r.choice(["", " "])
                exp.append("".join("[%s]" % x.replace("\\\\", "\\") for x in a).encode() + b" kept value")
                exp.append(b"status %d kept value" % (n & 255))
                lvl = r.choice([0, 0, 1, 5])
                b.append('  i = run("%s", %d); printf("status %%d %%s\\n", i, e ? e : "lost");' % (line, lvl))
            elif t < .85:
                b.append('  if ((f = fopen("%s", "ab")) != NULL) { fprintf(f, "parent %d\\n"); i = system("%s file %s"); fprintf(f, "after\\n"); fclose(f); } printf("status %%d %%s\\n", i, e);' % (fx, i, kid, fx))
                exp.append(b"[file][" + fx.encode() + b"] kept value")
                exp.append(b"status 0 kept value")
            else:
                b.append('  i = system("NOSUCH%d.EXE a"); printf("status %%d %%s\\n", i, e);' % r.randint(0, 9))
                exp.append(b"status -1 kept value")
            if target != "doss" and target != "dost":
                b.append('  { float x = %d.5f, y = 3; x = x * y / 7; printf("%%d\\n", (int)(x * 1000)); }' % (i + 1))
                exp.append(b"%d" % int((i + 1.5) * 3 / 7 * 1000))
            b.append('  t = strtok(NULL, ",");')
        exp.append(b"atexit 1")
        base = "PAR%04d" % k
        t = PARENT.replace("@@", "\n".join(b))
        with open(d + "/" + base + ".c", "w") as f:
            f.write(t)
        exe, o = targets.compile_c(c.b, d, target, base)
        es.append((key, t, exe, b"\n".join(exp) + b"\n", o))
    ok = [e for e in es if e[2]]
    res = dict(zip([e[0] for e in ok], targets.dos_run(c.b, d, [e[2] for e in ok], env={"KEEP": "kept value"})))
    out = []
    for key, t, exe, exp, o in es:
        if not exe:
            out.append((key, ("rejected", "valid program rejected: %r" % o.out[-300:], t), {}))
        elif res[key] is not None:
            got = targets.dos_text(res[key][0])
            w = same((True, exp, b"", {}), (res[key][1], got, b"", {})) if got is not None else "the program does not end"
            out.append((key, ("system", w, t) if w else None, {"children_run_dos": exp.count(b"status")}))
    shutil.rmtree(d, ignore_errors=True)
    return out


def collect(c, what, target, results):
    for recs in results:
        for key, bad, cov in recs:
            c.case()
            c.nontrivial.add((what, target, key))
            c.count("programs_" + what)
            for k, v in cov.items():
                c.count(k, v)
            if bad:
                c.violation("%s:%s" % (target, bad[0]), "%s: %s" % (target, bad[1]), {"program.c": bad[2]})
                if len(c.viol) >= 10:
                    return


def chunks(keys, n):
    keys = list(keys)
    return [keys[i:i + n] for i in range(0, len(keys), n)]


def check(c):
    c.rule = RULE
    c.assumptions = ["glibc and gcc -O0 as the reference for process life, setjmp and files", "DOSBox's DOS", "the documented rules of the Microsoft argument parser"]
    c.b.inst(("lcl", "lcds", "lcdh", "lcdu", "lcw", "lcm", "lcdp"))
    parser(c)
    collect(c, "life", "linux", c.pmap(linux_life, [(c, k, "life") for k in chunks(range(c.n(600, 30000)), 25)]))
    if core.run(["unshare", "-Urm", "sh", "-c", "mount -t tmpfs none /tmp"]).rc == 0:
        collect(c, "tmp", "linux", c.pmap(linux_life, [(c, k, "tmp") for k in chunks(range(c.n(100, 5000)), 10)]))
    d = c.dir("args")
    with open(d + "/args.c", "w") as f:
        f.write(ARGS)
    exe, o = targets.compile_c(c.b, d, "linux", "args")
    if exe is None:
        c.violation("linux:rejected", "valid program rejected: %r" % o.out[-300:], {"program.c": ARGS})
    else:
        collect(c, "args", "linux", c.pmap(linux_args, [(c, d + "/args", k) for k in chunks(range(c.n(600, 30000)), 50)]))
    for t, k in (("win", 150), ("macos", 100)):
        collect(c, "life", t, c.pmap(linux_life, [(c, k, "life", t) for k in chunks(range(c.n(k, k * 40)), 12)]))
        exe, o = targets.compile_c(c.b, d, t, "args")
        if exe is None:
            c.violation(t + ":rejected", "valid program rejected: %r" % o.out[-300:], {"program.c": ARGS})
        elif t == "win":
            collect(c, "args", t, c.pmap(win_args, [(c, d + "/" + exe, k) for k in chunks(range(c.n(300, 15000)), 50)]))
        else:
            os.rename(d + "/" + exe, d + "/args.m")
            collect(c, "args", t, c.pmap(linux_args, [(c, d + "/args.m", k, t) for k in chunks(range(c.n(100, 5000)), 25)]))
    for t in ("doss", "dosh", "dosu", "dosp"):
        if len(c.viol) < 10:
            collect(c, "life", t, c.pmap(dos_life, [(c, t, k) for k in chunks(range(c.n(60, 3000)), 20)]))
    for t in ("dost", "doss", "dosh", "dosu", "dosp"):
        if len(c.viol) < 10:
            collect(c, "args", t, c.pmap(dos_args, [(c, t, k) for k in chunks(range(c.n(60, 3000)), 60)]))
    if len(c.viol) < 10:
        collect(c, "system", "dos", c.pmap(dos_system, [(c, t, list(range(i * 12, i * 12 + 12))) for i in range(c.n(1, 40)) for t in ("dost", "doss", "dosh", "dosu", "dosp")]))
