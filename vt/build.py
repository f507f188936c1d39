"""Builds what the checks run, from the working tree of /repo, outside /repo.

Everything lands in /verif/.build/<hash of the sources>/; a component is built once per hash, under a file lock, so
that checks may run at the same time.  Nothing is read from /repo/_build.
"""
import fcntl, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SYSPATH = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
LIBS = {"lcl": "linux", "lcds": "dos16", "lcdh": "dosh", "lcdu": "dosu", "lcdp": "dosp", "lcw": "win", "lcm": "macos"}


class BuildError(Exception):
    pass


def _files():
    out = []
    for top in ("GNUmakefile", "Makefile", "common.mk", "configure"):
        p = os.path.join(REPO, top)
        if os.path.exists(p):
            out.append(p)
    base = os.path.join(REPO, "v0100")
    for d, ds, fs in os.walk(base):
        rel = os.path.relpath(d, base)
        top = rel.split(os.sep)[0]
        if top in ("tests", "doc", "lib") or top.startswith("bin"):
            ds[:] = []
            continue
        ds.sort()
        for f in sorted(fs):
            out.append(os.path.join(d, f))
    return out


def _hash(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        try:
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
        except OSError:
            pass
    with open(os.path.abspath(__file__), "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()[:20]


class Build:
    def __init__(self):
        self.files = _files()
        self.key = _hash(self.files)
        self.root = os.path.join(VERIF, ".build", self.key)
        os.makedirs(self.root, exist_ok=True)
        self._prune()
        self.wall = 0.0

    def _prune(self):
        base = os.path.join(VERIF, ".build")
        ents = [os.path.join(base, e) for e in os.listdir(base)]
        ents = [e for e in ents if os.path.isdir(e) and e != self.root]
        ents.sort(key=os.path.getmtime, reverse=True)
        now = time.time()
        for e in ents[2:]:
            if now - os.path.getmtime(e) > 3 * 3600:
                shutil.rmtree(e, ignore_errors=True)

    def once(self, name, fn):
        """Runs fn(dir) once; returns the directory of the component."""
        d = os.path.join(self.root, name)
        stamp = d + ".done"
        if os.path.exists(stamp):
            return d
        t = time.time()
        os.makedirs(os.path.dirname(d), exist_ok=True)
        with open(d + ".lock", "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(stamp):
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d)
                fn(d)
                open(stamp, "w").close()
        self.wall += time.time() - t
        return d

    def sh(self, cmd, cwd=None, env=None, timeout=600, what=""):
        e = {"PATH": SYSPATH, "LC_ALL": "C", "HOME": "/nonexistent", "SHELL": "/bin/sh"}
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str), stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise BuildError("build step timed out: %s" % (what or cmd))
        if p.returncode:
            raise BuildError("build step failed (%s): %s\n%s" % (p.returncode, what or cmd, p.stdout[-3000:].decode("latin-1")))
        return p.stdout

    # -- sources ---------------------------------------------------------------------------------------------------
    def src(self):
        """A private mirror of the sources (without tests)."""
        def mk(d):
            for f in self.files:
                to = os.path.join(d, os.path.relpath(f, REPO))
                os.makedirs(os.path.dirname(to), exist_ok=True)
                shutil.copyfile(f, to, follow_symlinks=True)
                shutil.copymode(f, to)
        return self.once("src", mk)

    # -- tools -----------------------------------------------------------------------------------------------------
    def _ucpp(self, s):
        return [os.path.join(s, "v0100/ucpp", f + ".c") for f in
                ("arith", "assert", "cpp", "eval", "lexer", "macro", "mem", "nhash")]

    def _make_tools(self, d, cc, flags):
        s = self.src()
        v = os.path.join(s, "v0100")
        inst = self.root + "/inst"
        prefix = ['-DPATH_PREFIX="%s"' % inst, "-DHOST_LINUX"]
        jobs = []

        def start(out, args):
            jobs.append((out, subprocess.Popen([cc] + flags + args + ["-o", os.path.join(d, out)], cwd=d,
                                               env={"PATH": SYSPATH, "LC_ALL": "C"}, stdin=subprocess.DEVNULL,
                                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        start("smlrc", prefix + [v + "/smlrc.c"])
        start("smlrcmips", ["-DMIPS", v + "/smlrc.c"])
        start("smlrl", prefix + [v + "/smlrl.c"])
        start("smlrcc", prefix + [v + "/smlrcc.c"])
        start("n2f", prefix + [v + "/n2f.c"])
        start("demz", [v + "/demz.c"])
        start("smlrpp", prefix + ["-DSTAND_ALONE", "-DUCPP_CONFIG"] + self._ucpp(s))
        bad = []
        for out, p in jobs:
            txt = p.communicate(timeout=600)[0]
            if p.returncode:
                bad.append("%s: %s" % (out, txt[-2000:].decode("latin-1")))
        if bad:
            raise BuildError("\n".join(bad))

    def tools(self):
        """smlrc smlrcmips smlrl smlrcc smlrpp n2f demz, built by gcc as the project builds them."""
        return self.once("tools", lambda d: self._make_tools(d, "gcc", ["-pipe", "-w", "-O2"]))

    def san_tools(self, flags=("-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"), name="san"):
        return self.once(name, lambda d: self._make_tools(
            d, "gcc", ["-pipe", "-w", "-O1", "-g", "-fno-omit-frame-pointer"] + list(flags)))

    def cov_tools(self):
        return self.once("cov", lambda d: self._make_tools(d, "gcc", ["-pipe", "-w", "-O0", "--coverage"]))

    # -- libraries -------------------------------------------------------------------------------------------------
    def native(self, name, flags=("-O2",)):
        """A helper program of ours: vt/native/<name>.c."""
        src = os.path.join(VERIF, "vt", "native", name + ".c")
        with open(src, "rb") as f:
            h = hashlib.sha256(f.read() + repr(flags).encode()).hexdigest()[:10]
        return os.path.join(self.once("native-%s-%s" % (name, h), lambda d: self.sh(
            ["gcc", "-w"] + list(flags) + [src, "-o", os.path.join(d, name)], what=name)), name)

    def include(self):
        return os.path.join(self.src(), "v0100/include")

    def lib(self, name, extra=(), tag=""):
        """Path of <name>.a, compiled by the current toolchain."""
        tools = self.tools()
        s = self.src()

        def mk(d):
            w = os.path.join(d, "w")
            os.makedirs(w)
            shutil.copytree(os.path.join(s, "v0100/srclib"), os.path.join(w, "srclib"))
            lines = []
            with open(os.path.join(s, "v0100/srclib", name + ".txt")) as f:
                for ln in f.read().split():
                    lines.append("srclib/" + ln if ln.endswith((".c", ".asm")) else ln)
            with open(os.path.join(w, name + ".op"), "w") as f:
                f.write("\n".join(list(extra) + lines) + "\n")
            self.sh(["smlrcc", "-SI", self.include(), "-I", "srclib", "@" + name + ".op"], cwd=w,
                    env={"PATH": tools + ":" + SYSPATH}, timeout=300, what="library " + name)
            shutil.move(os.path.join(w, name + ".a"), os.path.join(d, name + ".a"))
            shutil.rmtree(w)
        return os.path.join(self.once("lib-" + name + tag, mk), name + ".a")

    def stub(self):
        tools = self.tools()

        def mk(d):
            shutil.copy(os.path.join(self.src(), "v0100/srclib/dpstub.asm"), d)
            self.sh(["smlrcc", "-small", "dpstub.asm", "-o", "dpstub.exe"], cwd=d,
                    env={"PATH": tools + ":" + SYSPATH}, what="dpstub")
        return os.path.join(self.once("stub", mk), "dpstub.exe")

    def inst(self, libs=("lcl",), stub=False):
        """An installed tree root/inst/smlrc/{include,lib}: the drivers built here look there."""
        import concurrent.futures as cf
        self.tools()
        with cf.ThreadPoolExecutor(8) as ex:
            paths = list(ex.map(self.lib, libs))
        if stub or "lcdp" in libs:
            paths.append(self.stub())
        root = self.root + "/inst/smlrc"
        with open(self.root + "/inst.lock", "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            os.makedirs(root + "/lib", exist_ok=True)
            if not os.path.exists(root + "/include"):
                os.symlink(self.include(), root + "/include")
            for p in paths:
                to = os.path.join(root, "lib", os.path.basename(p))
                if not os.path.exists(to):
                    os.symlink(p, to)
        return root

    def env(self, **kw):
        e = {"PATH": self.tools() + ":" + SYSPATH, "LC_ALL": "C", "HOME": "/nonexistent", "SHELL": "/bin/sh",
             "SDL_VIDEODRIVER": "dummy", "SDL_AUDIODRIVER": "dummy", "QEMU_LD_PREFIX": "/usr/mipsel-linux-gnu"}
        e.update(kw)
        return e
