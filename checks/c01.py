"""C01: 32-bit x86 code computes what C prescribes: random programs, run natively, against an interpreter of C."""
from vt import sem

TECHNIQUE = 'random programs run natively; online comparison with an interpreter of C semantics'
NOTE = "Random exploration: every generated program is run and every result and all global objects are compared with an interpreter of C. Assumes the generator's interpreter (cross-checked with gcc -m32 on every mismatch), nasm and the CPU."
RULE = ("a case is one call of a generated function with one argument vector (its result and a hash of all global objects "
        "after it are compared with an interpreter of C semantics); non-trivial and distinct: one per generated program")


def check(c):
    c.rule = RULE
    c.assumptions = ["the generator's interpreter of C integer semantics (its disagreements are cross-checked with gcc -m32)",
                     "nasm, the kernel's execution of 32-bit ELF files"]
    c.b.inst(("lcl",))
    deep = {"depth": 6, "fns": 6, "stmts": 4}
    flat = {"depth": 3, "fns": 14, "stmts": 8}
    expr = {"depth": 5, "fns": 14, "stmts": 3, "ctl": False, "agg": 0.2}
    variants = [{}, {"gen": deep}, {"gen": flat}, {"gen": expr}, {"gen": {"big": 0.5, "fns": 8}},
                {"flags": ("-unsigned-char",), "uchar": True}, {"flags": ("-nobss",)}, {"gen": {"ptrs": False, "agg": 0, "depth": 5}}]
    sem.explore(c, "linux", c.n(2400, 30000), variants)
