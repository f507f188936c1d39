#!/usr/bin/env python3
"""reduce.py FILE.c 'command': line reducer for failing programs; the command (run with the candidate as $1) says 0 = still failing."""
import os, re, subprocess, sys, tempfile, concurrent.futures as cf

def main():
    path, cmd = sys.argv[1:3]
    lines = open(path).read().split("\n")
    d = tempfile.mkdtemp()
    n = [0]

    def ok(ls):
        n[0] += 1
        w = tempfile.mkdtemp(dir=d)
        f = os.path.join(w, "r.c")
        open(f, "w").write("\n".join(ls))
        try:
            rc = subprocess.run(["bash", "-c", cmd, "x", f], cwd=w, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                stderr=subprocess.DEVNULL, timeout=60).returncode
        except subprocess.TimeoutExpired:
            rc = 1
        subprocess.run(["rm", "-rf", w])
        return rc == 0

    def blocks(ls):
        """Line ranges that are brace-balanced constructs."""
        out = []
        for i in range(len(ls)):
            dep = 0
            for j in range(i, len(ls)):
                dep += ls[j].count("{") - ls[j].count("}")
                if dep < 0:
                    break
                if dep == 0:
                    if j > i:
                        out.append((i, j + 1))
                    break
        return sorted(out, key=lambda x: x[0] - x[1])

    def cands(ls):
        for a, b in blocks(ls):
            yield ls[:a] + ls[b:]
            # unwrap
            yield ls[:a] + ls[a + 1:b - 1] + ls[b:]
        k = len(ls) // 2
        while k >= 1:
            for i in range(0, len(ls), k):
                yield ls[:i] + ls[i + k:]
            k //= 2
        for i, l in enumerate(ls):
            parts = re.split(r"(?<=;)", l)
            if len(parts) > 2:
                for j in range(len(parts)):
                    yield ls[:i] + ["".join(parts[:j] + parts[j + 1:])] + ls[i + 1:]
            for m in re.finditer(r"\([^()]*\)", l):
                yield ls[:i] + [l[:m.start()] + "1" + l[m.end():]] + ls[i + 1:]
            for m in re.finditer(r"\(([^()]*)\)", l):
                yield ls[:i] + [l[:m.start()] + m.group(1) + l[m.end():]] + ls[i + 1:]
            for m in re.finditer(r"\b\w+(\[[^][]*\]|\.\w+)* *(\+|-|\*|/|%|\||&|\^|<<|>>|<|>|==|!=|&&|\|\||<=|>=|,) *", l):
                yield ls[:i] + [l[:m.start()] + l[m.end():]] + ls[i + 1:]
            for m in re.finditer(r" *(\+|-|\*|/|%|\||&|\^|<<|>>|<|>|==|!=|&&|\|\||<=|>=|,) *\w+(\[[^][]*\]|\.\w+)*", l):
                yield ls[:i] + [l[:m.start()] + l[m.end():]] + ls[i + 1:]
            for m in re.finditer(r"(?<=[=(,] )[^=;,]+(?=[,;])", l):
                yield ls[:i] + [l[:m.start()] + "1" + l[m.end():]] + ls[i + 1:]

    assert ok(lines), "not failing"
    with cf.ThreadPoolExecutor(8) as ex:
        prog = True
        while prog:
            prog = False
            skip = 0
            while True:
                it = cands(lines)
                for _ in range(skip):
                    next(it, None)
                found = None
                while found is None:
                    batch = []
                    for x in it:
                        batch.append(x)
                        if len(batch) == 16:
                            break
                    if not batch:
                        break
                    for x, r in zip(batch, list(ex.map(ok, batch))):
                        if r and len("\n".join(x)) < len("\n".join(lines)):
                            found = x
                            break
                    if found is None:
                        skip += len(batch)
                if found is None:
                    break
                lines = found
                prog = True
                skip = max(0, skip - 3)
                if n[0] > 20000:
                    break
            if n[0] > 20000:
                break
    open(path + ".red", "w").write("\n".join(lines))
    print("\n".join(lines))
    print(n[0], "tries", file=sys.stderr)
main()
