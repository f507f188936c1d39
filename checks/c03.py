"""C03: huge- and unreal-mode code computes what C prescribes: random programs run in DOSBox."""
from vt import sem, prog, cbig, targets
from vt.cgen import Gen

TECHNIQUE = 'random programs, large-data and large-code programs run in DOSBox (huge and unreal); comparison with an interpreter of C'
NOTE = "Random exploration on both models, with data and code spanning 64 KB areas. Assumes the generator's interpreter and memory model, nasm and DOSBox."
RULE = ("a case is one call of a generated function with one argument vector on a huge/unreal target (its result and a hash of "
        "all global objects after it are compared with an interpreter of C), or one printed result of a program whose data (over "
        "200 KB) or code (over 64 KB, several units) spans segments; distinct: one per generated program")


def bigdata(c, key, target):
    src, exp = cbig.bigdata(c.rng("big", key))
    return {"files": {"m.c": src}, "exp": exp, "n": exp.count(b"\n"), "sample": "%d operations on 220 KB of structures" % exp.count(b"\n")}


def multi(c, key, target):
    """Several units in one image: code well above 64 KB, calls between the units."""
    r = c.rng("multi", key)
    files, exp, mains = {}, b"", []
    for u in range(r.randint(9, 13)):
        pre = "u%c_" % (97 + u)
        g = Gen(c.rng("multi", key, u), targets.TARGETS[target].dm(), {"prefix": pre, "fns": 14, "stmts": 6})
        s, e, own = g.program()
        files["u%d.c" % u] = s.replace("int main(void)", "int %smain(void)" % pre)
        mains.append((pre, e))
    order = [r.randrange(len(mains)) for _ in range(0)] + list(range(len(mains)))
    r.shuffle(order)
    main = "".join("int %smain(void);\n" % p for p, e in mains)
    main += "int (*tab[])(void) = {%s};\n" % ", ".join(mains[i][0] + "main" for i in order)
    main += "int main(void) { int i, s = 0; for (i = 0; i < %d; i++) s += tab[i](); %s return s; }\n" % (
        len(order) - 1, "s += %smain();" % mains[order[-1]][0])
    for i in order:
        exp += mains[i][1]
    return {"files": dict([("main.c", main)] + list(files.items())), "exp": exp, "n": exp.count(b"\n"),
            "sample": "%d units linked into one image, %d results" % (len(mains), exp.count(b"\n"))}


def check(c):
    c.rule = RULE
    c.assumptions = ["the generator's interpreter of C integer semantics", "DOSBox's emulation of real- and unreal-mode x86 and DOS"]
    c.b.inst(("lcdh", "lcdu"))
    variants = [{}, {"gen": {"depth": 6, "fns": 6, "stmts": 4}}, {"gen": {"depth": 3, "fns": 14, "stmts": 8}},
                {"gen": {"depth": 5, "fns": 14, "stmts": 3, "ctl": False, "agg": 0.2}}, {"gen": {"big": 0.5, "fns": 8}},
                {"flags": ("-unsigned-char",), "uchar": True}, {"flags": ("-nobss",)}]
    sem.explore(c, "dosh", c.n(600, 12000), variants)
    if len(c.viol) < 10:
        sem.explore(c, "dosu", c.n(400, 8000), variants)
    for t in ("dosh", "dosu"):
        if len(c.viol) < 10:
            prog.explore(c, t, range(c.n(32, 800)), bigdata, per=4)
        if len(c.viol) < 10:
            prog.explore(c, t, range(c.n(8, 300)), multi, per=1)
