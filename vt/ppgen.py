"""Random preprocessor inputs: a tree of files that violate no constraint (gcc -E has the last word)."""
import re

PUNCT = "+ - * / % & | ^ ~ ! < > = ? : ; . [ ] { } << >> <= >= == != && || += -= *= /= %= &= |= ^= <<= >>= -> ++ -- ...".split()
PPTOK = re.compile(r'L?"(?:\\.|[^"\\\n])*"|L?\'(?:\\.|[^\'\\\n])*\'|[A-Za-z_]\w*|\.?\d(?:[eEpP][-+]|[\w.])*|%:%:|\.\.\.|<<=|>>=|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|##|<:|:>|<%|%>|%:|[^\s]')


def tokens(s):
    return PPTOK.findall(s)


class Mac:
    def __init__(self, name, nparam, var, body, names):
        self.name, self.n, self.var, self.body, self.params = name, nparam, var, body, names


class G:
    def __init__(self, r, line=True, c90=False):
        self.r = r
        self.macs = {}
        self.files = {}
        self.sent = {}          # sentinel -> (file, line)
        self.uid = 0
        self.feat = {}
        self.guards = 0

    def f(self, k):
        self.feat[k] = self.feat.get(k, 0) + 1

    def ident(self):
        r = self.r
        return r.choice(["x", "y", "foo", "bar", "a1", "_z", "B", "int", "if", "L", "u8", "defined_", "e", "E1", "x0", "include", "define"])

    def num(self):
        return self.r.choice(["0", "1", "42", "0x1F", "1.5e+3", ".5", "1e-2f", "100u", "0x1p-3", "7L", "3.", "1..2", "12abc", "0xe+1"])

    def string(self):
        r = self.r
        return r.choice(['"s"', '""', '"a b"', '"a,b)"', '"/* no */"', '"//x"', '"\\"q\\""', '"\\\\"', "'c'", "'\\''", "'\"'", "L\"w\"", "L'x'", '"#"', "'('", '"\\n"', "'\\\\'", '"F0(1)"', '"  two  "'])

    def ws(self, nl=False):
        r = self.r
        k = r.random()
        if k < .75:
            return " "
        if k < .80:
            return "  \t "
        if k < .86:
            self.f("comment")
            return r.choice(["/* c */", "/**/", "/* \" */", "/* ' // */", " /* # */ ", "/***/"])
        if k < .89:
            self.f("splice")
            return " \\\n"
        if nl and k < .96:
            self.f("arg_newline")
            return r.choice(["\n", " // tail ) , \n", "\n\n", "/* a\n b */"])
        return " "

    def tok(self, params=(), depth=0):
        """One token (or a call) for a replacement list or text."""
        r = self.r
        k = r.random()
        if params and k < .45:
            return r.choice(params)
        if k < .55:
            return self.ident()
        if k < .63:
            return self.num()
        if k < .69:
            return self.string()
        if k < .80:
            return r.choice(PUNCT)
        if k < .84:
            return "(" + self.ws() + self.tok(params, depth + 1) + ")"
        if k < .86 and not params:
            self.f("builtin")
            return r.choice(["__FILE__", "__STDC__"])
        if self.macs and depth < 3:
            return self.use(r.choice(list(self.macs.values())), params, depth + 1)
        return ","  if depth == 0 and not params else self.ident()

    def use(self, m, params=(), depth=0):
        r = self.r
        if m.n is None:
            return m.name
        if r.random() < .08:
            self.f("bare_name")
            return m.name          # without parentheses: not a call
        n = m.n
        args = []
        for i in range(n):
            args.append(self.arg(params, depth))
        if m.var:
            for i in range(r.choice([1, 1, 2, 3]) if n or True else 1):
                args.append(self.arg(params, depth))
        nl = not params
        sep = r.choice(["", "", " ", self.ws(nl)])
        if sep.startswith("\n") and "#" in sep:
            sep = " "
        s = m.name + sep + "("
        s += ",".join((self.ws(nl) if r.random() < .5 else "") + a + (self.ws(nl) if r.random() < .3 else "") for a in args)
        self.f("call")
        return s + ")"

    def arg(self, params, depth):
        r = self.r
        k = r.random()
        if k < .1:
            self.f("empty_arg")
            return ""
        n = r.choice([1, 1, 1, 2, 3])
        out = []
        for _ in range(n):
            t = self.tok(params, depth + 1)
            if t == ",":
                t = "(,)"
            out.append(t)
        return self.ws().join(out)

    def define(self):
        r = self.r
        k = r.random()
        self.uid += 1
        if k < .4:
            name, n, var = "O%d" % self.uid, None, False
        else:
            name, n, var = "F%d" % self.uid, r.choice([0, 1, 1, 2, 2, 3, 4]), r.random() < .25
        if r.random() < .08:
            # an identifier of ordinary use, or of a keyword
            name = r.choice(["x", "y", "foo", "B", "_z", "if"])
            if name in self.macs:
                name = "O%d" % self.uid
                n, var = None, False
        params = [r.choice(["a", "b", "p", "q", "x", "y", "B", "foo"]) + str(i) if r.random() < .6 else "pqrs"[i] for i in range(n or 0)]
        ps = params + (["__VA_ARGS__"] if var else [])
        body = []
        for _ in range(r.choice([0, 1, 1, 2, 3, 4, 6])):
            k = r.random()
            if ps and k < .13:
                body.append("#" + r.choice(["", " "]) + r.choice(ps))
                self.f("stringize")
            elif k < .27:
                self.f("paste")
                l = r.choice(ps) if ps and r.random() < .6 else r.choice(["x", "L_", "foo", "O", "F"])
                rr = r.choice(ps) if ps and r.random() < .6 else r.choice(["1", "2", "x", "_t", "0"])
                body.append(l + r.choice([" ## ", "##"]) + rr)
            elif k < .33:
                body.append(name + ("" if n is None or r.random() < .4 else "(" + ",".join("1" for _ in range((n or 0) + var)) + ")"))
                self.f("self_ref")
            elif k < .36 and n is None:
                body.append(r.choice(["defined", "@", "(", ")", ","]))
            else:
                body.append(self.tok(ps, 1).replace("\\\n", " ").replace("\n", " "))
        bt = ""
        for b in body:
            bt += (self.ws().replace("\n", "\n") if bt else "") + b
        # comments ending lines or new lines inside a definition are not allowed
        if re.search(r"(?<!\\)\n", bt) or "//" in re.sub(r'"(?:\\.|[^"\\])*"', '""', bt):
            bt = "1"
        m = Mac(name, n, var, bt, ps)
        h = "#define " if r.random() < .8 else r.choice(["# define ", "#define\t", " #define ", "#/**/define ", "# \\\ndefine "])
        if n is None:
            s = h + name + " " + bt
        else:
            s = h + name + "(" + r.choice([", ", ","]).join(params + (["..."] if var else [])) + ")" + r.choice([" ", ""]) + bt
            if s.endswith(")" + bt) and not bt:
                pass
        if n is None and r.random() < .1:
            s = h + name
            m.body = ""
        return m, s

    # -- conditions ------------------------------------------------------------------------------------------------
    def cond(self, d=0):
        """(text, value, unsigned) of an integer expression without overflow; identifiers of macros are not used here."""
        r = self.r
        k = r.random()
        if d > 3 or k < .3:
            j = r.random()
            if j < .55:
                v = r.choice([0, 1, 2, 3, 7, 10, 31, 32, 255, 65536, 2147483647, 2147483648, 4294967295, 4294967296, 9223372036854775807, r.randrange(1 << 31)])
                u = r.random() < .12
                t = r.choice(["%d", "0x%X", "0%o", "0x%x"]) % v
                return t + (r.choice(["u", "U", "ul", "UL"]) if u else r.choice(["", "", "L", "l"])), v, u
            if j < .7:
                c = r.choice([("'a'", 97), ("'\\n'", 10), ("'\\0'", 0), ("'\\x41'", 65), ("'\\101'", 65), ("' '", 32), ("'\\''", 39), ("'\"'", 34), ("L'a'", 97)])
                return c[0], c[1], False
            if j < .85:
                if self.macs and r.random() < .6:
                    m = r.choice(list(self.macs))
                    return r.choice(["defined %s", "defined(%s)", "defined ( %s )"]) % m, 1, False
                return r.choice(["defined %s", "defined(%s)"]) % "NOT_DEFINED", 0, False
            return r.choice(["undefined_name", "int", "while"]), 0, False
        if k < .42:
            t, v, u = self.cond(d + 1)
            op = r.choice("!~-+")
            if op == "!":
                return "!" + "(%s)" % t, int(not v), False
            if op == "~":
                return "~(%s)" % t, self.wrap(~v, u)[0], u
            if op == "-":
                if not u and v == -(1 << 63):
                    return t, v, u
                return "- (%s)" % t, self.wrap(-v, u)[0], u
            return "+(%s)" % t, v, u
        if k < .5:
            a, b, cc = self.cond(d + 1), self.cond(d + 1), self.cond(d + 1)
            u = b[2] or cc[2]
            v = b[1] if a[1] else cc[1]
            return "(%s) ? (%s) : (%s)" % (a[0], b[0], cc[0]), self.wrap(v, u)[0], u
        a, b = self.cond(d + 1), self.cond(d + 1)
        op = r.choice("+ - * / % << >> < > <= >= == != & | ^ && ||".split())
        u = a[2] or b[2]
        x, y = (a[1], b[1]) if not u else (a[1] & ((1 << 64) - 1), b[1] & ((1 << 64) - 1))
        lit = True
        if op in "/%" and len(op) == 1:
            if y == 0:
                return a
            q = abs(x) // abs(y)
            q = -q if (x < 0) != (y < 0) else q
            v = q if op == "/" else x - q * y
        elif op in ("<<", ">>"):
            y = b[1]
            if not 0 <= y < 64:
                y = r.randrange(0, 64)
                b = (str(y), y, False)
            u = a[2]
            x = a[1]
            if op == "<<":
                v = x << y
                if not u and (x < 0 or v >= 1 << 63):
                    return a
            else:
                if x < 0 and not u:
                    return a
                v = x >> y
        elif op in ("<", ">", "<=", ">=", "==", "!="):
            v = int(eval("x %s y" % op))
            u = False
        elif op == "&&":
            v, u = int(bool(x) and bool(y)), False
        elif op == "||":
            v, u = int(bool(x) or bool(y)), False
        else:
            v = eval("x %s y" % op)
        w, ok = self.wrap(v, u)
        if not ok:
            return a
        self.f("op" + op)
        if r.random() < .5:
            return "(%s) %s (%s)" % (a[0], op, b[0]), w, u
        return "((%s) %s(%s))" % (a[0], op, b[0]), w, u

    @staticmethod
    def wrap(v, u):
        if u:
            return v & ((1 << 64) - 1), True
        return v, -(1 << 63) <= v < 1 << 63

    def prec(self):
        """An expression without parentheses, to check precedence and associativity, valued by Python."""
        r = self.r
        ops = [["||"], ["&&"], ["|"], ["^"], ["&"], ["==", "!="], ["<", ">"], ["<<", ">>"], ["+", "-"], ["*"]]
        flat = [o for l in ops for o in l]
        n = r.randint(2, 6)
        nums = [r.randint(0, 6) for _ in range(n)]
        os_ = [r.choice(flat) for _ in range(n - 1)]
        pr = {o: i for i, l in enumerate(ops) for o in l}

        def ev(lo, hi):
            if lo == hi:
                return nums[lo]
            m = min(pr[os_[i]] for i in range(lo, hi))
            k = max(i for i in range(lo, hi) if pr[os_[i]] == m)
            a, b = ev(lo, k), ev(k + 1, hi)
            o = os_[k]
            if o in ("<<", ">>") and (not 0 <= b < 40 or a < 0 or a > 1 << 20):
                raise ValueError
            return int({"||": lambda: bool(a) or bool(b), "&&": lambda: bool(a) and bool(b)}.get(o, lambda: eval("a %s b" % o, {"a": a, "b": b}))())
        try:
            v = ev(0, n - 1)
        except ValueError:
            return None
        t = str(nums[0])
        for o, x in zip(os_, nums[1:]):
            t += " %s %d" % (o, x)
        return t, v

    # -- files ------------------------------------------------------------------------------------------------------
    def file(self, name, depth, size):
        r = self.r
        out = []
        lines = 0          # newlines written

        def emit(s):
            nonlocal lines
            out.append(s + "\n")
            lines += s.count("\n") + 1

        def text():
            self.uid += 1
            t = "T%d" % self.uid
            self.sent[t] = (name, lines + 1)
            s = t
            for _ in range(r.choice([1, 2, 3, 5])):
                s += self.ws() + self.tok()
            if r.random() < .2:
                # a line that begins with an operator
                self.f("operator_first")
                for _ in range(r.choice([1, 1, 2])):
                    s += "\n" + r.choice(["", " ", "\t", "/* c */", "  "]) + r.choice([p for p in PUNCT if p[0] not in "(#"] + ["%", "%", "/", "%="]) + r.choice(["", " "]) + r.choice([self.ident(), self.num(), "-" + self.ident()])
            if r.random() < .15:
                s += " __LINE__"
            if r.random() < .1:
                s += " // trailing " + r.choice(["", "' ", '"', "/*"])
            emit(s)

        def block(n, d):
            for _ in range(n):
                k = r.random()
                if k < .3:
                    m, s = self.define()
                    if m.name in self.macs:
                        if r.random() < .5:
                            continue
                        emit("#undef " + m.name)
                        self.f("undef")
                    emit(s)
                    # its own definition again is allowed
                    if r.random() < .05 and "\\" not in s and "/*" not in s:
                        emit(s)
                        self.f("redefine_same")
                    self.macs[m.name] = m
                elif k < .68:
                    text()
                elif k < .72 and self.macs:
                    n_ = r.choice(list(self.macs))
                    del self.macs[n_]
                    emit("#undef " + n_)
                    self.f("undef")
                elif k < .90 and d < 4:
                    conds(d)
                elif k < .94 and depth < 3:
                    include()
                elif k < .96:
                    emit(r.choice(["#", "# ", "#pragma foo bar", "#/* c */", ""]))
                elif k < .98:
                    emit("/* a comment\n over lines\n#if 0\n */" + r.choice(["", " x"]))
                    self.f("ml_comment")
                else:
                    emit("")
                    emit("\\")
                    emit("")

        def skipped(d):
            """A group that is not taken: only its directives' names matter."""
            for _ in range(r.randint(0, 3)):
                k = r.random()
                if k < .3:
                    emit(r.choice(["#error no", "#include \"nonexistent.h\"", "#define x y z", "#undef foo", "#nonsense directive", "#if 1/0\n#endif", "#ifdef q\n#else\n#endif", "#line foo", "#elsewhere", "# 1.5"]))
                elif k < .5:
                    # a nested conditional that stays untaken
                    emit(r.choice(["#if 1", "#ifdef __STDC__", "#ifndef zz", "#if 0"]))
                    skipped(d + 1)
                    if r.random() < .5:
                        emit(r.choice(["#else", "#elif 1"]))
                        emit("SKIPPED it is")
                    emit("#endif")
                else:
                    emit(r.choice(["skipped text", "it\"s quote\"", "F1(", "/* c\n#endif\n*/ z", "x \\", "'a'"]))
                self.f("skipped")

        def conds(d):
            r_ = r
            form = r.random()
            taken = False
            n = r.choice([0, 0, 1, 2, 3])
            for i in range(n + 1):
                kw = "#if" if i == 0 else "#elif"
                if i == 0 and form < .35:
                    if self.macs and r.random() < .5:
                        t, v = r.choice(list(self.macs)), True
                    else:
                        t, v = "NOT_DEFINED", False
                    neg = r.random() < .5
                    emit(("#ifndef " if neg else "#ifdef ") + t)
                    v = v != neg
                elif taken and i and r.random() < .5:
                    # not evaluated any more; gcc with -pedantic wants it parsable only if evaluated
                    t, v, u = self.cond()
                    emit("#elif " + t)
                    v = False
                else:
                    p = self.prec() if r.random() < .25 else None
                    t, v = p if p else self.cond()[:2]
                    if self.macs and r.random() < .3:
                        pass
                    emit(kw + r.choice([" ", "\t", " /* c */ "]) + t)
                    self.f("if")
                if v and not taken:
                    taken = True
                    keep = None
                    block(r.randint(0, 3), d + 1)
                else:
                    skipped(d)
            if r.random() < .5:
                emit(r.choice(["#else", "# else", "#else /* c */"]))
                if taken:
                    skipped(d)
                else:
                    block(r.randint(0, 3), d + 1)
            emit(r.choice(["#endif", "# endif // x", "#endif /* c */"]))

        def include():
            self.uid += 1
            h = "h%d.h" % self.uid
            dirn = r.choice(["", "", "sub/"])
            guard = r.random() < .5
            fn = dirn + h
            g = "G_%d" % self.uid
            size2 = r.randint(0, 6)
            body = self.file(fn, depth + 1, size2) if not guard else None
            if guard:
                # the guard shifts the lines by two
                body = self.file(fn, depth + 1, size2, ) if False else None
                save = self.file_guarded(fn, depth + 1, size2, g)
                body = save
            self.files[fn] = body
            # quoted includes look beside the including file first
            base = fn
            if "/" in name and "/" in fn:
                q = '"%s"' % r.choice([h, h])
            elif "/" in name:
                q = '"%s"' % fn          # found through -I.
            else:
                q = '"%s"' % fn
            if r.random() < .3:
                q = "<%s>" % fn
            if r.random() < .2:
                self.uid += 1
                emit("#define INC%d %s" % (self.uid, q))
                q = "INC%d" % self.uid
                self.f("macro_include")
            emit("#include " + q)
            self.f("include")
            if guard and r.random() < .5:
                emit("#include <%s>" % fn)
                self.f("include_twice")
        self._emit = emit
        block(size, 0)
        text()
        s = "".join(out)
        if r.random() < .08 and s.endswith("\n") and depth:
            pass
        return s

    def file_guarded(self, fn, depth, size, g):
        before = set(self.sent)
        s = self.file(fn, depth, size)
        for t in set(self.sent) - before:
            f, l = self.sent[t]
            if f == fn:
                self.sent[t] = (f, l + 2)
        return "#ifndef %s\n#define %s\n%s#endif\n" % (g, g, s)

    def make(self, size):
        self.files["m.c"] = self.file("m.c", 0, size)
        return self.files
