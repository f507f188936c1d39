"""C02: 16-bit code (tiny, small) computes what C prescribes: random programs run in DOSBox against an interpreter of C."""
from vt import sem

TECHNIQUE = 'random programs run in DOSBox (tiny and small models); comparison with an interpreter of C semantics'
NOTE = "Random exploration on both 16-bit models. Assumes the generator's interpreter of 16-bit C, nasm and DOSBox."
RULE = ("a case is one call of a generated function with one argument vector on a 16-bit target (its result and a hash of all "
        "global objects after it are compared with an interpreter of C with 16-bit int); distinct: one per generated program")


def check(c):
    c.rule = RULE
    c.assumptions = ["the generator's interpreter of C integer semantics, instantiated for 16-bit int and pointers",
                     "DOSBox's emulation of real-mode x86 and DOS"]
    c.b.inst(("lcds",))
    variants = [{}, {"gen": {"depth": 6, "fns": 6, "stmts": 4}}, {"gen": {"depth": 3, "fns": 14, "stmts": 8}},
                {"gen": {"depth": 5, "fns": 14, "stmts": 3, "ctl": False, "agg": 0.2}}, {"gen": {"big": 0.5, "fns": 8}},
                {"flags": ("-unsigned-char",), "uchar": True}, {"flags": ("-nobss",)}]
    for v in variants:
        v.setdefault("gen", {})["stack"] = 3000
    sem.explore(c, "dost", c.n(900, 15000), variants)
    if len(c.viol) < 10:
        sem.explore(c, "doss", c.n(900, 15000), variants)
