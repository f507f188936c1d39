"""Compiling for and running on the targets: native Linux, DOSBox (tiny, small, huge, unreal), qemu-mipsel."""
import os, shutil, signal, subprocess, tempfile, time

from . import core
from .cgen import DM

DOSBOX_CONF = """[sdl]
output=surface
[dosbox]
memsize=16
[cpu]
core=normal
cputype=pentium_slow
cycles=max
[mixer]
nosound=true
[speaker]
pcspeaker=false
[autoexec]
"""


class T:
    def __init__(self, name, flag, lib, dm, run):
        self.name, self.flag, self.lib, self.dm, self.run = name, flag, lib, dm, run


TARGETS = {
    "linux": T("linux", "-linux", "lcl", lambda: DM(), "native"),
    "dost": T("dost", "-dost", "lcds", lambda: DM(2, 2, True, False, 60000), "dos"),
    "doss": T("doss", "-doss", "lcds", lambda: DM(2, 2, True, False, 60000), "dos"),
    "dosh": T("dosh", "-dosh", "lcdh", lambda: DM(), "dos"),
    "mips": T("mips", None, None, lambda: DM(), "native"),
    "dosu": T("dosu", "-dosu", "lcdu", lambda: DM(), "dos"),
    "dosp": T("dosp", "-dosp", "lcdp", lambda: DM(), "dos"),
    "win": T("win", "-win", "lcw", lambda: DM(), "native"),
    "macos": T("macos", "-macos", "lcm", lambda: DM(), "native"),
}

OSRUN = ("-m32", "-O1", "-mno-sse", "-mno-mmx", "-ffreestanding", "-fno-pic", "-no-pie", "-nostdlib", "-static", "-fno-stack-protector",
         "-fcf-protection=none", "-fno-asynchronous-unwind-tables", "-Wl,-Ttext-segment=0x70000000", "-Wl,--build-id=none")


#: A program that runs into these limits of the compiler is skipped.
CAPACITY = (b"Identifier table exhausted", b"Expression too long", b"exhausted", b"Too many", b"too long", b"Too big stack or too much data", b"Too much code")


def exe_name(target, base):
    if target in ("linux", "mips", "macos"):
        return base
    if target == "win":
        return base + ".exe"
    return base.upper() + (".COM" if target == "dost" else ".EXE")


def argv(b, target, exe):
    """The command that runs a natively executable result."""
    return (["qemu-mipsel"] if target == "mips" else [b.native("osrun", OSRUN)] if target in ("win", "macos") else []) + ["./" + exe]


def out_text(target, out):
    """What a program wrote to standard output, line ends aside."""
    return dos_text(out) if target.startswith("dos") or target == "win" else out


def dpmi_host(b):
    """CWSDPMI.EXE: our DPMI host, which the stub of DPMI programs looks for next to the program."""
    import hashlib
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "native", "dpmihost.asm")
    with open(src, "rb") as f:
        h = hashlib.sha256(f.read()).hexdigest()[:8]
    return os.path.join(b.once("dpmihost" + h, lambda d: b.sh(["nasm", "-f", "bin", src, "-o", "CWSDPMI.EXE"], cwd=d, what="DPMI host")), "CWSDPMI.EXE")


def compile_c(b, d, target, base, opts=(), extra=(), timeout=30):
    """smlrcc -<target> base.c -o exe in d: (exe or None, Proc)."""
    exe = exe_name(target, base)
    if target == "mips":
        return compile_mips(b, d, base, opts, extra, timeout)
    if target == "dosp" and not os.path.exists(os.path.join(d, "CWSDPMI.EXE")):
        try:
            os.symlink(dpmi_host(b), os.path.join(d, "CWSDPMI.EXE"))
        except FileExistsError:
            pass
    r = core.run(["smlrcc", TARGETS[target].flag] + list(opts) + [base + ".c"] + list(extra) + ["-o", exe], cwd=d,
                 env=b.env(), timeout=timeout, merge=True)
    if r.rc == 0 and os.path.exists(os.path.join(d, exe)):
        return exe, r
    return None, r


MIPS_RT = r"""int putchar(int); static char ob_[65536]; static int on_;
static void sys(int n, int a, int b, int c) { register int v0 asm("$2") = n; register int a0 asm("$4") = a; register int a1 asm("$5") = b;
  register int a2 asm("$6") = c; asm volatile("syscall" : "+r"(v0) : "r"(a0), "r"(a1), "r"(a2) : "$7","$8","$9","$10","$11","$12","$13","$14","$15","$24","$25","memory"); }
static void fl_(void) { sys(4004, 1, (int)ob_, on_); on_ = 0; }
int putchar(int c) { ob_[on_++] = c; if (on_ == sizeof ob_) fl_(); return (unsigned char)c; }
void *memcpy(void *d, const void *s, unsigned n) { char *a = d; const char *b = s; while (n--) *a++ = *b++; return d; }
void *memset(void *d, int c, unsigned n) { char *a = d; while (n--) *a++ = c; return d; }
typedef union { unsigned u; float f; } U;
unsigned __addsf3(unsigned a, unsigned b) { U x, y; x.u = a; y.u = b; x.f += y.f; return x.u; }
unsigned __subsf3(unsigned a, unsigned b) { U x, y; x.u = a; y.u = b; x.f -= y.f; return x.u; }
unsigned __mulsf3(unsigned a, unsigned b) { U x, y; x.u = a; y.u = b; x.f *= y.f; return x.u; }
unsigned __divsf3(unsigned a, unsigned b) { U x, y; x.u = a; y.u = b; x.f /= y.f; return x.u; }
unsigned __negsf2(unsigned a) { return a ^ 0x80000000u; }
unsigned __floatsisf(int a) { U x; x.f = a; return x.u; }
unsigned __floatunsisf(unsigned a) { U x; x.f = a; return x.u; }
int __fixsfsi(unsigned a) { U x; x.u = a; return x.f; }
unsigned __fixunssfsi(unsigned a) { U x; x.u = a; return x.f; }
int __lesf2(unsigned a, unsigned b) { U x, y; x.u = a; y.u = b; return x.f < y.f ? -1 : x.f == y.f ? 0 : 1; }
int __gesf2(unsigned a, unsigned b) { U x, y; x.u = a; y.u = b; return x.f > y.f ? 1 : x.f == y.f ? 0 : -1; }
int main(void);
void _exit(int r) { fl_(); sys(4246, r, 0, 0); for (;;); }
void start_(void) { _exit(main()); }
asm(".globl __start\n.ent __start\n__start: addiu $29,$29,-32\n jal start_\n nop\n.end __start\n");
"""
MIPS_GCC = ["mipsel-linux-gnu-gcc", "-mno-abicalls", "-fno-pic", "-mips32r2", "-mfp32", "-O1", "-G0", "-w", "-ffreestanding", "-nostdlib",
            "-fno-builtin", "-fno-stack-protector"]


def mips_rt(b):
    def mk(d):
        with open(os.path.join(d, "rt.c"), "w") as f:
            f.write(MIPS_RT)
        b.sh(MIPS_GCC + ["-c", "rt.c", "-o", "rt.o"], cwd=d, what="MIPS runtime")
    import hashlib
    return os.path.join(b.once("mipsrt" + hashlib.sha256(MIPS_RT.encode()).hexdigest()[:8], mk), "rt.o")


def compile_mips(b, d, base, opts, extra, timeout):
    rt = mips_rt(b)
    objs = []
    for src in [base + ".c"] + list(extra):
        stem = src.rsplit(".", 1)[0]
        r = core.run(["smlrcmips", "-nopp"] + list(opts) + [src, stem + ".s"], cwd=d, env=b.env(), timeout=timeout, merge=True)
        if r.rc:
            return None, r
        r = core.run(["mipsel-linux-gnu-as", "-mips32r2", "-G0", "-no-mips16", "-mno-shared", stem + ".s", "-o", stem + ".o"], cwd=d, env=b.env(),
                     timeout=timeout, merge=True)
        if r.rc:
            return None, r
        objs.append(stem + ".o")
    r = core.run(["mipsel-linux-gnu-ld", "-static"] + objs + [rt, "-o", base], cwd=d, env=b.env(), timeout=timeout, merge=True)
    return (base if r.rc == 0 else None), r


def capacity(r):
    return any(x in r.out for x in CAPACITY)


def dos_run(b, d, cmds, timeout=None, env=None, want=None, redirect=True):
    """Runs the commands (8.3 names, arguments) of cmds one after another in one DOSBox; returns a list of
    (output, ok): (None, None) if the command did not come back, None if it was not run because others did not.
    ok: whether the exit code is want[i] (else 0).  Without redirect the command line is taken as it is."""
    res = [None] * len(cmds)
    todo = list(range(len(cmds)))
    tries = {}
    while todo:
        for i in todo:
            for e in ("OUT", "RC"):
                p = os.path.join(d, "R%05d.%s" % (i, e))
                if os.path.exists(p):
                    os.unlink(p)
        bat = ["@echo off"] + ["set %s=%s" % kv for kv in (env or {}).items()]
        for i in todo:
            w = (want or {}).get(i, 0)
            bat += ["%s > R%05d.OUT" % (cmds[i], i) if redirect else cmds[i]] + (["if errorlevel %d goto b%d" % (w + 1, i)] if w < 255 else []) + (
                ["if not errorlevel %d goto b%d" % (w, i)] if w else []) + ["echo OK> R%05d.RC" % i, "goto e%d" % i,
                    ":b%d" % i, "echo BAD> R%05d.RC" % i, ":e%d" % i]
        bat += ["echo D> DONE.TXT", "exit", ""]
        with open(os.path.join(d, "RUN.BAT"), "w") as f:
            f.write("\r\n".join(bat))
        with open(os.path.join(d, "dosbox.conf"), "w") as f:
            f.write(DOSBOX_CONF)
        if os.path.exists(os.path.join(d, "DONE.TXT")):
            os.unlink(os.path.join(d, "DONE.TXT"))
        lim = timeout or (25 + 1.5 * len(todo))
        p = subprocess.Popen(["dosbox", "-conf", "dosbox.conf", "-c", "mount c " + d, "-c", "c:", "-c", "run.bat", "-c", "exit"],
                             cwd=d, env=b.env(HOME=d), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                             stderr=subprocess.DEVNULL, preexec_fn=core._limits(0, 0, 4096))
        # progress is a command coming back; a command that takes long alone is given up
        t0 = last = time.time()
        seen = -1
        while True:
            try:
                p.wait(0.05 if time.time() - t0 < 3 else 0.3)
                break
            except subprocess.TimeoutExpired:
                pass
            n = sum(os.path.exists(os.path.join(d, "R%05d.RC" % i)) for i in todo)
            if n != seen:
                seen, last = n, time.time()
            if time.time() - last > 40 or time.time() - t0 > 20 + 40 + lim:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        rest = []
        stuck = False
        hung = sum(r == (None, None) for r in res)
        for i in todo:
            rc = os.path.join(d, "R%05d.RC" % i)
            if os.path.exists(rc) and not stuck:
                with open(rc, "rb") as f:
                    ok = f.read().strip() == b"OK"
                try:
                    with open(os.path.join(d, "R%05d.OUT" % i), "rb") as f:
                        out = f.read()
                except FileNotFoundError:
                    out = b""
                res[i] = (out, ok)
            elif not stuck:
                # the one that did not come back: once more, then given up
                stuck = True
                tries[i] = tries.get(i, 0) + 1
                if tries[i] < 2:
                    rest.insert(0, i)
                else:
                    res[i] = (None, None)
                    if hung:
                        return res          # a second one: enough seen; the others stay None
            else:
                rest.append(i)
        todo = rest
    return res


def dos_text(b):
    """DOS text output: CR LF to LF."""
    return b.replace(b"\r\n", b"\n") if b is not None else None


# --- the reference compiler ---------------------------------------------------------------------------------------
GCC_RT = r"""int putchar(int);
static char ob_[65536]; static int on_;
static void fl_(void) { int n; __asm__ volatile("int $0x80" : "=a"(n) : "0"(4), "b"(1), "c"(ob_), "d"(on_) : "memory"); on_ = 0; }
int putchar(int c) { ob_[on_++] = c; if (on_ == sizeof ob_) fl_(); return (unsigned char)c; }
void *memcpy(void *d, const void *s, unsigned n) { char *a = d; const char *b = s; while (n--) *a++ = *b++; return d; }
void *memset(void *d, int c, unsigned n) { char *a = d; while (n--) *a++ = c; return d; }
int main(void);
void _start(void) { __asm__ volatile("andl $-16, %esp\n call main_\n"); }
__attribute__((used)) void main_(void) { int r = main(); fl_(); __asm__ volatile("int $0x80" : : "a"(1), "b"(r)); for (;;); }
"""


def gcc_ref(d, base, opts=()):
    """Output of base.c compiled by gcc -m32 (None if it does not compile)."""
    with open(os.path.join(d, base + "_rt.c"), "w") as f:
        f.write(GCC_RT)
    r = core.run(["gcc", "-m32", "-w", "-fwrapv", "-ffreestanding", "-nostdlib", "-static", "-fno-pic", "-no-pie",
                  "-fno-strict-aliasing", "-fno-stack-protector", "-O0"] + list(opts) + [base + "_rt.c", base + ".c", "-o", base + "_ref"],
                 cwd=d, env={"PATH": "/usr/bin:/bin", "LC_ALL": "C"}, timeout=60)
    if r.rc:
        return None
    r = core.run(["./" + base + "_ref"], cwd=d, timeout=20)
    return r.out if r.rc == 0 else None
