"""C04: MIPS code computes what C prescribes: random programs, run by qemu, against an interpreter of C."""
from vt import sem, targets

TECHNIQUE = 'random programs run by qemu-mipsel; comparison with an interpreter of C semantics'
NOTE = "Random exploration. Assumes the generator's interpreter (cross-checked with gcc -m32), GNU binutils for mipsel and qemu."
RULE = ("a case is one call of a generated function with one argument vector on the MIPS target (its result and a hash of all "
        "global objects after it are compared with an interpreter of C semantics); distinct: one per generated program")


def check(c):
    c.rule = RULE
    c.assumptions = ["the generator's interpreter of C integer semantics (its disagreements are cross-checked with gcc -m32)",
                     "GNU as and ld for mipsel, qemu-mipsel"]
    c.b.tools()
    targets.mips_rt(c.b)
    deep = {"depth": 6, "fns": 6, "stmts": 4}
    flat = {"depth": 3, "fns": 14, "stmts": 8}
    expr = {"depth": 5, "fns": 14, "stmts": 3, "ctl": False, "agg": 0.2}
    variants = [{}, {"gen": deep}, {"gen": flat}, {"gen": expr}, {"gen": {"big": 0.5, "fns": 8}},
                {"flags": ("-unsigned-char",), "uchar": True}, {"gen": {"ptrs": False, "agg": 0, "depth": 5}}]
    sem.explore(c, "mips", c.n(1500, 30000), variants)
