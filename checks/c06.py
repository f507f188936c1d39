"""C06: sizes, layout, linkage and initial contents of objects."""
from vt import prog, targets
from vt.decl import Decls, A, R, S, P

TECHNIQUE = "random declarations and initializers compiled in one or two units and run; sizeof, offsets, alignment and every initialized byte the program finds compared with an exact layout and initialization model"
# packed structures only where the machine has unaligned loads: GNU as aligns .word and .half for MIPS by itself
NOTE = ("Random sampling over nested arrays, structures, unions, packing, brace elision, strings, address constants, static/automatic/extern objects and declarators. Assumes the model "
        "(mismatches on Linux are cross-checked with gcc -m32). Padding and bytes of unions beyond the first member are not judged.")
RULE = "a case is one object (its size, alignment, member offsets and contents) or one declarator's sizes; distinct: one per program"

PRE = r"""
int putchar(int);
void px(unsigned v) { int i; for (i = sizeof v * 8 - 4; i >= 0; i -= 4) putchar("0123456789abcdef"[(v >> i) & 15]); putchar(' '); }
void nl(void) { putchar('\n'); }
void D(void *p, unsigned off, unsigned n) { unsigned char *q = p; for (q += off; n; n--, q++) { putchar("0123456789abcdef"[*q >> 4]); putchar("0123456789abcdef"[*q & 15]); } putchar(' '); }
void K(void *p, unsigned off, unsigned n) { unsigned char *q = p; unsigned short h = 7; for (q += off; n; n--) h = h * 31 + *q++; px(h); }
char *L(char *p) { char *v, *d = (char*)&v; unsigned i; for (i = 0; i < sizeof v; i++) d[i] = p[i]; return v; }
void G(void *p, unsigned off, void *want) { putchar(L((char*)p + off) == (char*)want ? 'y' : 'n'); }
void Z(void *p, unsigned off, char *want, unsigned n) { char *s = L((char*)p + off); while (n && *s++ == *want++) n--; putchar(n ? 'N' : 'Y'); }
void dirty(void) { unsigned char a[600]; int i; for (i = 0; i < 600; i++) a[i] = 0x5a + i; }
int fa(int x) { return x + 1; } int fb(int x) { return x * 3; }
"""


def hash16(b):
    h = 7
    for x in b:
        h = (h * 31 + x) & 0xffff
    return h


def hexs(b):
    return "".join("%02x" % x for x in b)


class Prog:
    def __init__(self, r, target):
        self.r = r
        self.dm = targets.TARGETS[target].dm()
        self.d = Decls(r, self.dm, target != "mips")
        self.d.fns = ["fa", "fb"]
        self.out, self.exp = [], []
        self.cells = 0

    def hx(self, v):
        return "%0*x " % (self.dm.bits // 4, v & ((1 << self.dm.bits) - 1))

    def look(self, c, t, v, align=True, size=True):
        """Statements that report on the object, and the line they must print."""
        r, d = self.r, self.d
        s, e = "", ""
        if size:
            s += "px(sizeof(%s)); " % c if r.random() < .6 else "px(sizeof %s); " % c
            e += self.hx(t.size)
        al = min(t.align, self.dm.int_size)
        if align and al > 1:
            s += "px((unsigned)&%s %% %d); " % (c, al)
            e += self.hx(0)
        for _ in range(2):
            sfx, off, st = d.path(t)
            if sfx:
                s += "px((char*)&%s%s - (char*)&%s); px(sizeof %s%s); " % (c, sfx, c, c, sfx)
                e += self.hx(off) + self.hx(st.size)
        # merge the plain bytes into runs
        runs = []
        for off, x in d.leaves(t, v):
            if isinstance(x, bytes):
                if runs and isinstance(runs[-1][1], bytes) and runs[-1][0] + len(runs[-1][1]) == off:
                    runs[-1] = (runs[-1][0], runs[-1][1] + x)
                else:
                    runs.append((off, x))
            else:
                runs.append((off, x))
        for off, x in runs:
            if isinstance(x, bytes):
                if len(x) <= 40:
                    s += "D(&%s, %d, %d); " % (c, off, len(x))
                    e += hexs(x) + " "
                else:
                    s += "K(&%s, %d, %d); " % (c, off, len(x))
                    e += self.hx(hash16(x))
            elif x[0] == "=":
                s += "G(&%s, %d, %s); " % (c, off, x[1])
                e += "y"
            else:
                b = x[1]
                s += "{ static unsigned char w[] = { %s }; Z(&%s, %d, (char*)w, %d); } " % (", ".join(map(str, b)), c, off, len(b))
                e += "Y"
        return s + "nl();", e


def program(c, key, target):
    r = c.rng("decl", key)
    p = Prog(r, target)
    d = p.d
    dm = p.dm
    lim = 1500 if dm.bits == 16 else 4000
    unit2, unit2fn = "", ""
    body, fns = [], []
    cov = {}
    for _ in range(r.randint(2, 6)):
        d.record(r.randint(1, 3))
        if d.recs[-1].size > 500:
            d.recs.pop()
    for k in range(r.randint(10, 18)):
        form = r.choice(["global"] * 6 + ["static"] * 2 + ["open", "open", "local", "local", "slocal", "extern", "extern", "wide", "tentative", "shadow", "chain", "chain", "typedef", "bigchar"])
        t = d.type(r.choice([0, 1, 2, 2, 3]))
        if t.size > 700 or t.size == 0:
            continue
        cov[form] = cov.get(form, 0) + 1
        nm = d.name()
        if form in ("global", "static"):
            if r.random() < .2:
                tx, v = "", d.zero(t)
            else:
                tx, v = d.init(t)
                tx = " = " + tx
            d.text.append("%s%s%s;" % ("static " if form == "static" else "", t.dec(nm), tx))
            d.targets.append((nm, t))
            body.append(p.look(nm, t, v))
        elif form == "open":
            n = r.randint(1, 5)
            e = d.type(1)
            a = A(e, n)
            if isinstance(e, S) and "char" in e.name and r.random() < .5:
                tx, b = d.string(r.randint(0, 12))
                v = [d.T.wrap(e.name, x) for x in b] + [0]
                a = A(e, len(v))
            else:
                l = []
                for i in range(n):
                    if isinstance(e, (A, R)) and r.random() < .3:
                        l.append(d.elided(e, i == n - 1))
                    else:
                        l.append(d.init(e, False))
                tx, v = "{ %s }" % ", ".join(x for x, y in l), [y for x, y in l]
            d.text.append("%s = %s;" % (e.dec(nm + "[]"), tx))
            d.targets.append((nm, a))
            body.append(p.look(nm, a, v))
        elif form in ("local", "slocal"):
            tx, v = d.init(t)
            f = d.name("f")
            s, e = p.look(nm, t, v)
            q = "static " if form == "slocal" else ""
            pre = ""
            k2 = r.random()
            guard = "unsigned char ga%s[%d];" % (nm, r.randint(1, 9)) if r.random() < .4 else ""
            d.text.append("void %s(void) { %s %s%s = %s; %s }" % (f, guard, q, t.dec(nm), tx, s))
            fns.append(f)
            body.append(("dirty(); %s(); dirty(); %s();" % (f, f), e + "\n" + e))
        elif form == "extern":
            if isinstance(t, R) and not t.tag:
                continue

            def tagged(x):
                return isinstance(x, (S, P)) or isinstance(x, A) and tagged(x.e)
            if not tagged(t):
                continue
            d2 = Decls(r, dm, target != "mips")
            d2.uid = 5000 + 100 * k
            tx, v = d2.init(t)
            unit2 += "%s = %s;\n" % (t.dec(nm), tx)
            decl = "extern %s;" % t.dec(nm)
            if isinstance(t, A) and r.random() < .5:
                decl = "extern %s;" % t.e.dec(nm + "[]")
                s, e = p.look(nm, t, v, size=False, align=False)
            else:
                s, e = p.look(nm, t, v)
            if r.random() < .4:
                f = d.name("f")
                d.text.append("void %s(void) { %s %s }" % (f, decl, s))
                body.append((f + "();", e))
            else:
                d.text.append(decl)
                body.append((s, e))
                if r.random() < .3:
                    d.text.append(decl)
        elif form == "wide":
            n = r.randint(0, 6)
            tx, b = d.string(n, True)
            m = r.choice([0, n + 1, n, n + 3])
            d.text.append("wchar_t %s[%s] = %s;" % (nm, m or "", tx))
            cnt = m or n + 1
            s = "px(sizeof %s / sizeof(wchar_t)); " % nm
            e = p.hx(cnt)
            for i in range(cnt):
                s += "px(%s[%d]); " % (nm, i)
                e += p.hx(b[i] if i < n else 0)
            body.append((s + "nl();", e))
        elif form == "tentative":
            if not isinstance(t, (S, P)) and not (isinstance(t, A) and isinstance(t.e, S)):
                continue
            v = d.zero(t)
            seq = ["extern %s;" % t.dec(nm)] * r.randint(1, 2) + ["%s;" % t.dec(nm)]
            if r.random() < .6:
                tx, v = d.init(t)
                seq[-1] = "%s = %s;" % (t.dec(nm), tx)
            d.text += seq
            s, e = p.look(nm, t, v)
            body.append((s, e))
        elif form == "shadow":
            # tags, typedefs, enumerators and objects of inner scopes
            f, a, b = d.name("f"), r.randint(1, 9), r.randint(10, 30)
            d.text.append("struct T%s { char a[%d]; }; enum { E%s = %d }; char V%s[%d]; typedef char Y%s[%d];" % (nm, a, nm, a, nm, a, nm, a))
            inner = "struct T%s { short b[%d]; } x; enum { E%s = %d }; int V%s[%d]; typedef short Y%s[%d];" % (nm, b, nm, b, nm, b, nm, b)
            pr = "px(sizeof(struct T%s)); px(E%s); px(sizeof V%s); px(sizeof(Y%s)); " % (nm, nm, nm, nm)
            d.text.append("void %s(void) { %s { %s %s } %s nl(); }" % (f, pr, inner, pr, pr))
            o = p.hx(a) * 4
            body.append((f + "();", o + p.hx(2 * b) + p.hx(b) + p.hx(dm.int_size * b) + p.hx(2 * b) + o))
        elif form == "typedef":
            td = d.name("Y")
            if not isinstance(t, (S, A, P)) and not (isinstance(t, R) and t.tag):
                continue
            d.text.append("typedef %s;" % t.dec(td))
            n = r.randint(1, 4)
            if r.random() < .5:
                a = A(t, n)
                tx, v = d.init(a) if a.size < 900 else ("{ 0 }", None)
                if v is None:
                    continue
                d.text.append("%s %s[%d] = %s;" % (td, nm, n, tx))
                body.append(p.look(nm, a, v))
            else:
                tx, v = d.init(t)
                d.text.append("%s %s = %s, *q%s;" % (td, nm, tx, nm))
                s, e = p.look(nm, t, v)
                body.append(("q%s = &%s; px(sizeof *q%s); px(sizeof(%s)); " % (nm, nm, nm, td) + s, p.hx(t.size) * 2 + e))
        elif form == "bigchar":
            n = r.choice([100, 255, 256, 400])
            tx, b = d.string(r.randint(60, 200) if n > 100 else 90)
            if len(tx) > 600:
                continue
            if len(b) > n:
                continue
            a = A(d.byname["char"], n)
            d.text.append("char %s[%d] = %s;" % (nm, n, tx))
            body.append(p.look(nm, a, [d.T.wrap("char", x) for x in b] + [0] * (n - len(b))))
        elif form == "chain":
            # a declarator read inside out
            base = r.choice(d.scal + [x for x in d.recs])
            chain, text = [], nm
            prev = None
            for _ in range(r.randint(1, 5)):
                ch = r.choice("PPAF")
                if prev is None and ch == "F" or prev == "F" and ch in "AF" or prev == "A" and ch == "F":
                    ch = "P"
                if ch == "A":
                    chain.append(("A", r.randint(1, 5)))
                else:
                    chain.append((ch, 0))
                prev = ch
            for i, (ch, n) in enumerate(chain):
                if ch == "P":
                    nxt = chain[i + 1][0] if i + 1 < len(chain) else None
                    text = "*" + text
                    if nxt in ("A", "F"):
                        text = "(" + text + ")"
                elif ch == "A":
                    text = "%s[%d]" % (text, n)
                else:
                    text = "%s(%s)" % (text, r.choice(["void", "int", "char*, int"]))

            def size(i):
                if i == len(chain):
                    return base.size
                ch, n = chain[i]
                if ch == "P":
                    return dm.ptr_size
                if ch == "A":
                    x = size(i + 1)
                    return x and n * x
                return 0
            if size(0) is None or size(0) > 2000:
                continue
            d.text.append("%s;" % base.dec(text) if r.random() < .7 else "static %s;" % base.dec(text))
            s, e, expr = "", "", nm
            for i in range(len(chain) + 1):
                sz = size(i)
                if sz:
                    s += "px(sizeof(%s)); " % expr
                    e += p.hx(sz)
                if i < len(chain):
                    ch, n = chain[i]
                    if ch == "F":
                        args = {"void": "", "int": "1", "char*, int": '"a", 2'}
                        # the parameter list was chosen when the text was made
                        import re
                        lst = re.findall(r"\((void|int|char\*, int)\)", text)
                        j = [q for q, _ in chain[:i]].count("F")
                        expr = "%s(%s)" % (expr, args[lst[j]])
                    else:
                        expr = "(*%s)" % expr if r.random() < .5 or ch == "P" and i + 1 < len(chain) and chain[i + 1][0] == "F" else "%s[0]" % expr
            body.append((s + "nl();", e))
    # statics of the same name in both units, a function of each
    sv = r.randint(1, 1000)
    unit2 += "static int hid = %d; static int hf(void) { return hid; } int out2(void) { return hf() + 1; }\n" % sv
    d.text.append("static int hid = %d; static int hf(void) { return hid * 2; } int out2(void);" % (sv + 5))
    body.append(("px(hid); px(hf()); px(out2()); nl();", p.hx(sv + 5) + p.hx(2 * sv + 10) + p.hx(sv + 1)))
    if len(body) > 16 and dm.bits == 16:
        body = body[:16] + body[-1:]
    wsig, wlong = r.random() < .5, dm.bits == 32 and r.random() < .5
    hdr = "typedef %s wchar_t;\n" % (("int" if wsig else "unsigned") if wlong else "short" if wsig else "unsigned short")
    flags = ["-signed-wchar" if wsig else "-unsigned-wchar", "-long-wchar" if wlong else "-short-wchar"]
    src = hdr + PRE + "\n".join(d.text) + "\n"
    src += "".join("void b%d(void) { %s }\n" % (i, s) for i, (s, e) in enumerate(body))
    src += "int main(void) { %s return 0; }\n" % " ".join("b%d();" % i for i in range(len(body)))
    exp = "".join(e + "\n" for s, e in body).encode()
    return {"files": {"m.c": src, "n.c": unit2}, "exp": exp, "flags": flags, "n": len(body), "cov": {"form." + a: b for a, b in cov.items()}, "vkey": "layout", "sample": "%d objects, e.g. %s" % (len(body), body[0][0][:60])}


def check(c):
    c.rule = RULE
    c.assumptions = ["the layout and initialization model", "the assemblers, linkers and machines that run the programs"]
    c.b.inst(("lcl", "lcds", "lcdh"))
    for t, n in (("linux", (1000, 30000)), ("doss", (150, 4000)), ("dosh", (80, 2500)), ("mips", (300, 8000))):
        if len(c.viol) < 10:
            prog.explore(c, t, ["%s-%d" % (t, i) for i in range(c.n(*n))], program, per=15, unit="objects_compared")
