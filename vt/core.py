"""The frame of every check: cases, violations, known findings, evidence, exit status."""
import concurrent.futures as cf
import ctypes
import hashlib, json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, time, traceback

from .build import Build, BuildError, VERIF, REPO

NCPU = min(8, os.cpu_count() or 1)


def stable_seed(*a):
    return int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:8], "little")


def rng(*a):
    return random.Random(stable_seed(*a))


class Proc:
    """Result of one run: .rc (int, negative for a signal, None for a timeout), .out, .err."""
    __slots__ = ("rc", "out", "err", "timeout", "wall")

    def __repr__(self):
        return "rc=%r out=%r err=%r" % (self.rc, self.out[:300], self.err[:300])


try:
    _prctl = ctypes.CDLL(None).prctl
except Exception:
    _prctl = lambda *a: 0


def _limits(mem_mb, cpu_s, fsize_mb):
    def f():
        os.setsid()
        _prctl(1, 9, 0, 0, 0)     # PR_SET_PDEATHSIG: no orphans when a worker is ended
        if mem_mb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_mb << 20, mem_mb << 20))
        if cpu_s:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu_s, cpu_s + 2))
        resource.setrlimit(resource.RLIMIT_FSIZE, (fsize_mb << 20, fsize_mb << 20))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run(argv, cwd=None, env=None, stdin=None, timeout=20, mem_mb=2048, cpu_s=None, fsize_mb=256, retry=True,
        merge=False, pass_fds=()):
    """Runs argv in its own session with limits.  A timeout is tried once more with three times the limit."""
    t0 = time.time()
    p = subprocess.Popen(argv, cwd=cwd, env=env, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT if merge else subprocess.PIPE,
                         preexec_fn=_limits(mem_mb, cpu_s, fsize_mb), pass_fds=pass_fds)
    r = Proc()
    r.timeout = False
    try:
        r.out, r.err = p.communicate(stdin, timeout)
        r.rc = p.returncode
    except subprocess.TimeoutExpired:
        r.timeout, r.rc = True, None
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    if r.timeout:
        try:
            r.out, r.err = p.communicate(timeout=10)
        except Exception:
            r.out = r.err = b""
        if retry:
            return run(argv, cwd, env, stdin, timeout * 3, mem_mb, cpu_s, fsize_mb, False, merge, pass_fds)
    r.err = r.err or b""
    r.wall = time.time() - t0
    return r


class Check:
    """One run of one property's check."""

    def __init__(self, pid, level="exploration"):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.deadline = self.t0 + (600 if os.environ.get("VERIF_TIER") != "thorough" else 6 * 3600)   # no new work after it
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.thorough = self.tier == "thorough"
        self.b = Build()
        self.work = tempfile.mkdtemp(prefix="vt-%s-" % pid, dir=os.environ.get("VERIF_TMP", "/tmp"))
        self.evals = 0
        self.nontrivial = set()
        self.samples = []
        self.cov = {}
        self.viol = []          # (key, what, replay)
        self.known_hit = {}
        self.inconclusive = 0
        self.assumptions = []
        self.rule = ""
        self.known = {}
        try:
            with open(os.path.join(VERIF, "known_findings.json")) as f:
                for k in json.load(f):
                    if k["property"] == pid and k.get("status") == "known":
                        self.known[k["key"]] = k["what"]
        except FileNotFoundError:
            pass
        self.replays = os.path.join(VERIF, "replays", pid)
        shutil.rmtree(self.replays, ignore_errors=True)

    def n(self, quick, thorough):
        """A case count for the tier (VERIF_SCALE scales it for experiments)."""
        return max(1, int((thorough if self.thorough else quick) * float(os.environ.get("VERIF_SCALE", "1"))))

    def rng(self, *a):
        return rng(self.pid, self.seed, *a)

    def dir(self, name):
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        return d

    def case(self, key=None, sample=None, n=1):
        """Counts a case; key identifies a distinct non-trivial one."""
        self.evals += n
        if key is not None:
            self.nontrivial.add(hash(key) if not isinstance(key, int) else key)
        if sample is not None and len(self.samples) < 6:
            self.samples.append(sample)

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def violation(self, key, what, files=None):
        """Records a violation; files: {name: bytes|str} saved for replay."""
        if key in self.known:
            self.known_hit[key] = what
            return
        if len(self.viol) >= int(os.environ.get("VERIF_MAXV", "50")):
            self.viol.append((key, what, self.viol[-1][2]))
            return
        d = os.path.join(self.replays, "%03d" % len(self.viol))
        os.makedirs(d, exist_ok=True)
        for name, data in (files or {}).items():
            if isinstance(data, str):
                data = data.encode("utf-8", "surrogateescape")
            with open(os.path.join(d, name.replace("/", "_")), "wb") as f:
                f.write(data)
        with open(os.path.join(d, "what.txt"), "w", errors="replace") as f:
            f.write("property %s\nkey %s\nseed %d tier %s\n%s\n" % (self.pid, key, self.seed, self.tier, what))
        self.viol.append((key, what, d))

    def pmap(self, fn, items, workers=NCPU, processes=True):
        """Runs fn(item) for all items in worker processes; yields results in order."""
        items = list(items)
        if not items:
            return
        if processes:
            import multiprocessing as mp
            ctx = mp.get_context("fork")
            # (a multiprocessing.Pool would wait for ever if a worker were ended from outside)
            with cf.ProcessPoolExecutor(workers, mp_context=ctx) as ex:
                for r in ex.map(fn, items, chunksize=1):
                    yield r
        else:
            with cf.ThreadPoolExecutor(workers) as ex:
                for r in ex.map(fn, items):
                    yield r

    def finish(self):
        wall = time.time() - self.t0
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.nontrivial), "rule": self.rule,
               "samples": self.samples[:6]}
        cov.update(self.cov)
        cov["inconclusive"] = self.inconclusive
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % self.pid)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.pid + ".json"))
        for k, w in sorted(self.known.items()):
            if k in self.known_hit:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, w))
        seen = 0
        for key, what, path in self.viol[:50]:
            first = what.strip().split("\n")[0][:300]
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            if seen < 10:
                print("  [%s] %s" % (key, first))
            seen += 1
        print("%s %s seed=%d: %d cases, %d distinct, %d violations, %d inconclusive, %.1f s (build %.1f s)" % (
            self.pid, self.tier, self.seed, self.evals, len(self.nontrivial), len(self.viol), self.inconclusive,
            wall, self.b.wall))
        shutil.rmtree(self.work, ignore_errors=True)
        return 1 if self.viol else 0


def main(pid, fn, level="exploration"):
    c = Check(pid, level)
    try:
        fn(c)
        rc = c.finish()
    except BuildError as e:
        print("check %s: cannot build the tree: %s" % (pid, e))
        rc = 3
    except Exception:
        traceback.print_exc()
        print("check %s: the check itself failed" % pid)
        rc = 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("work dir kept:", c.work)
        else:
            shutil.rmtree(c.work, ignore_errors=True)
    sys.stdout.flush()
    return rc
