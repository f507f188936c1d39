"""C08: calls, aggregates and control flow on the 32-bit flat model."""
import os
from vt import sem, prog, targets
from vt.flow import Bits, mazes, Calls
from vt.cgen import Gen

TECHNIQUE = "random call graphs, variadic and structure calls, goto mazes and switches run natively against models; a part single-stepped under ptrace with the memory below the stack pointer overwritten before every instruction"
NOTE = ("Random exploration with exact oracles; the stepper makes every instruction an interruption point for the programs it runs. Assumes nasm, the CPU and the Python models "
        "(program generator cross-checked with gcc -m32).")
RULE = "a case is one printed result of a called function (32 bits of hash or accumulator); distinct: one per program"


def maze(c, key, target, n=4):
    I = Bits(targets.TARGETS[target].dm().bits)
    src, exp = mazes(c.rng("maze", key), I, n)
    return {"files": {"m.c": src}, "exp": exp, "n": exp.count(b"\n"), "vkey": "flow", "oracle": gcc, "sample": "%d results of random statement trees with gotos" % exp.count(b"\n")}


def calls(c, key, target):
    I = Bits(targets.TARGETS[target].dm().bits)
    src, exp = Calls(c.rng("calls", key), I, False).program()
    return {"files": {"m.c": src}, "exp": exp, "n": exp.count(b"\n"), "vkey": "calls", "sample": "%d results of calls with structure and variable arguments" % exp.count(b"\n")}


def gcc(d, base):
    return targets.gcc_ref(d, base, ("-fsigned-char",))


def stepped(c, key, target):
    r = c.rng("step", key)
    k = r.randrange(3)
    if k == 0:
        e = maze(c, key, target, 2)
    elif k == 1:
        e = calls(c, key, target)
    else:
        g = Gen(r, targets.TARGETS[target].dm(), {"fns": 6, "depth": 4, "stmts": 4, "budget": 500})
        src, exp, own = g.program()
        e = {"files": {"m.c": src}, "exp": exp, "n": exp.count(b"\n")}
    e.update(wrap=[c.stepper, "200000", str(r.randrange(1 << 20))], vkey="below-the-stack-pointer", sample="run one instruction at a time, stack below the pointer overwritten", timeout=60,
             post=steps)
    return e


def steps(res):
    """Counts of the stepper from its stderr."""
    w = res[3].split()
    return {"instructions_stepped": int(w[1]), "overwrites_below_sp": int(w[3])} if w[:1] == [b"STEPS"] and len(w) > 3 else {"steps_lost": 1}


def check(c):
    c.rule = RULE
    c.assumptions = ["nasm and the CPU", "the Python models of the generated programs (cross-checked with gcc -m32 where it can compile them)"]
    c.b.inst(("lcl",))
    c.stepper = c.b.native("stepper")
    agg = {"agg": 0.9, "fns": 10, "depth": 3}
    variants = [{"gen": agg}, {"gen": dict(agg, big=0.4)}, {"gen": {"depth": 3, "fns": 16, "stmts": 8, "effects": True}}, {"gen": {"depth": 2, "fns": 12, "stmts": 10}}]
    sem.explore(c, "linux", c.n(400, 20000), variants)
    for fn, n in ((maze, (500, 20000)), (calls, (600, 20000)), (stepped, (70, 3000))):
        if len(c.viol) < 10:
            prog.explore(c, "linux", ["%s-%d" % (fn.__name__, i) for i in range(c.n(*n))], fn)
