"""Programs about the life of a process: handlers, ways to end, buffered files, setjmp/longjmp."""

PRE = r"""#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <assert.h>
#ifdef REF
#define abort() exit(EXIT_FAILURE)
#undef assert
#define assert(e) ((e) ? (void)0 : (void)(fprintf(stderr, "Assertion \"%s\" failed!\nFunction: %s\nFile: %s, Line: %d\n", #e, __func__, __FILE__, __LINE__), exit(EXIT_FAILURE)))
#endif
#define NJ 12
jmp_buf jb[NJ], jx;
int act[NJ], fuel, cnt, dep;
FILE *F[4];
void tr(char *s, int a, int b) { printf("%s %d %d\n", s, a, b); }
"""


class G:
    def __init__(self, r, dos):
        self.r, self.dos = r, dos
        self.nh = r.choice([0, 1, 2, 3, 5, 9, 20, 31, 32]) if r.random() < .9 else 0
        self.n = r.randint(2, 9)

    def num(self):
        return self.r.choice([0, 1, 2, 3, 7, 41, 127, 128, 200, 255] + [self.r.randint(0, 255)] * 4)

    def jv(self):
        r = self.r
        if self.dos:
            return r.choice(["0", "1", "-1", "2", "cnt & 7", "32767", "-32767"])
        return r.choice(["0", "1", "-1", "2", "cnt", "-cnt", "cnt & 3", "32767", "-32767", "cnt * 7 - 40"])

    def file_ops(self, k=None):
        """Some output to the open files."""
        r = self.r
        o = []
        for _ in range(r.choice([0, 1, 1, 2, 4])):
            i = r.randrange(4)
            t = r.random()
            if t < .35:
                o.append("if (F[%d]) fprintf(F[%d], \"x%%d %%s\\n\", cnt, \"%s\");" % (i, i, "abc" * r.randint(0, 5)))
            elif t < .5:
                o.append("if (F[%d]) { int i; for (i = 0; i < %d; i++) fputc('a' + i %% 26, F[%d]); }" % (i, r.choice([1, 3, 100, 511, 512, 513, 1024, 1500, 5000]), i))
            elif t < .62:
                o.append("if (F[%d]) { char b[%d]; memset(b, 'm', sizeof b); fwrite(b, 1, sizeof b, F[%d]); }" % (i, r.choice([1, 7, 512, 1023, 1025, 3000]), i))
            elif t < .7:
                o.append("if (F[%d]) fflush(F[%d]);" % (i, i))
            elif t < .76:
                o.append("if (F[%d]) { fclose(F[%d]); F[%d] = NULL; }" % (i, i, i))
            elif t < .82:
                o.append("fflush(NULL);")
            elif t < .85 and not self.dos:
                o.append("{ int st = system(\"%s\"); tr(\"sys\", st & 127, st >> 8 & 255); }" % r.choice(
                    ["exit %d" % self.num(), "true", "false", "echo a b >> f9.out", "kill -9 $$", "exit 3; echo no", "test -f f0.out", "echo sub 1>&2", ": > f8.out", "[ $PPID -gt 1 ]", "nosuchcommand 2> /dev/null; exit $?"]))
            elif t < .9:
                o.append("{ int i; for (i = 0; i < %d; i++) putchar('0' + i %% 10); putchar('\\n'); }" % r.choice([1, 60, 511, 513, 1200]))
            else:
                o.append("fputs(\"err\\n\", stderr);")
        return " ".join(o)

    def opens(self):
        r = self.r
        o = []
        for i in range(4):
            if r.random() < .6:
                o.append("F[%d] = fopen(\"f%d.out\", \"%s\");" % (i, i, r.choice(["wb", "wb", "w+b", "ab"])))
                k = r.random()
                if k < .2:
                    o.append("setvbuf(F[%d], NULL, %s, %d);" % (i, r.choice(["_IOFBF", "_IONBF", "_IOLBF"]), r.choice([1, 2, 16, 512, 3000])))
                elif k < .3:
                    o.append("{ static char b[BUFSIZ]; setbuf(F[%d], b); }" % i)
        if r.random() < .2:
            o.append("setvbuf(stdout, NULL, %s, %d);" % (r.choice(["_IOFBF", "_IONBF", "_IOLBF"]), r.choice([1, 16, 4000])))
        return "\n".join("  " + x for x in o)

    def end(self, allow_exit=True):
        """Ways to end the program."""
        r = self.r
        k = r.random()
        if k < .4:
            return "exit(%d);" % self.num()
        if k < .5:
            return "abort();"
        if k < .58:
            return "assert(%s);" % r.choice(["cnt < 0", "cnt != cnt", "0", "F[0] == F[1] && cnt == -1", "NULL"])
        if k < .7:
            return "fflush(NULL); _Exit(%d);" % self.num()
        if k < .85:
            return "rec(%d, 0);" % r.choice([1, 10, 100, 200 if self.dos else 400])
        return ""

    def handlers(self):
        r = self.r
        h = []
        for i in range(self.nh):
            b = "tr(\"h\", %d, cnt++);" % i
            b += self.file_ops()
            if r.random() < .12:
                b += " { static int once; if (!once) { once = 1; if (atexit(&h%d)) tr(\"full\", 1, 0); } }" % r.randrange(self.nh)
            if r.random() < .08:
                b += " if (cnt & 1) exit(%d);" % self.num()
            if r.random() < .08:
                b += " jtest(%d);" % r.randint(0, 5)
            if r.random() < .03:
                b += " fflush(NULL); _Exit(%d);" % self.num()
            h.append("void h%d(void) { %s }" % (i, b))
        return "".join("void h%d(void);\n" % i for i in range(self.nh)), "\n".join(h)

    def func(self, i):
        """A function that may set jump point i and calls deeper ones."""
        r = self.r
        n = self.n
        loc = "int a = x * 3 + %d, b = x - %d; char c[%d]; struct { int q[3]; char z; } s; short h = x + %d; int *p = &b;" % (
            r.randint(0, 99), r.randint(0, 99), r.choice([1, 5, 64, 300]), r.randint(0, 9))
        loc += " int *v[2]; v[0] = &a; v[1] = p;"
        o = [loc, "memset(c, x & 127, sizeof c); s.q[0] = x; s.q[1] = a; s.q[2] = b; s.z = x;"]
        chk = "if (a != x * 3 + a0 || *v[0] != a || b != *p || c[0] != (x & 127) || c[sizeof c - 1] != (x & 127) || s.q[0] != x || s.q[1] != a || s.q[2] != b || s.z != (char)x || h != (short)(x + h0)) tr(\"BAD\", %d, x);" % i
        o.append("{ static int dummy; } ")
        o[0] += " int a0 = a - x * 3, h0 = h - x;"
        cleanup = "{ int j; for (j = %d; j < NJ; j++) act[j] = 0; }" % (i + 1)
        body = []
        if r.random() < .75:
            act = "act[%d] = 1;" % i
            k = r.random()
            if k < .3:
                body.append("if (setjmp(jb[%d])) { %s tr(\"j\", %d, x); %s } else %s" % (i, cleanup, i, chk, act))
            elif k < .6:
                body.append("switch (setjmp(jb[%d])) { case 0: %s break; case 1: %s tr(\"one\", %d, x); break; case -1: tr(\"neg\", %d, x); default: %s tr(\"j\", %d, cnt); %s }" % (i, act, cleanup, i, i, cleanup, i, chk))
            elif k < .8:
                body.append("{ static int st; int w; st = x; w = 0; if (setjmp(jb[%d]) == 0) %s else { w = 1; %s } tr(\"v\", w, st); %s }" % (i, act, cleanup, chk))
            else:
                body.append("if (setjmp(jb[%d]) %s) { tr(\"c\", %d, x); } %s %s" % (i, r.choice(["> 1", "!= 0", "< 0", "== 2", ">= 1"]), i, cleanup, act))
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.random()
            if k < .45 and i + 1 < n:
                j = r.randint(i + 1, n - 1)
                body.append("f%d(%s);" % (j, r.choice(["x + 1", "x % 500 * 2" if self.dos else "x * 2", "cnt & 255" if self.dos else "cnt", "-x", "%d" % r.randint(0, 999)])))
            elif k < .75:
                t = r.randrange(n)
                body.append("if (act[%d] && fuel > 0) { fuel--; longjmp(jb[%d], %s); }" % (t, t, self.jv()))
            elif k < .8:
                t = r.randrange(n)
                body.append("if (act[%d] && fuel > 0) rj(%d, %d, %s);" % (t, r.choice([1, 5, 50, 300]), t, self.jv()))
            elif k < .86:
                t = r.randrange(n)
                body.append("{ static int arr[%d]; int j; for (j = 0; j < sizeof arr / sizeof *arr; j++) arr[j] = j * 7 %% 5; qt = %d; qsort(arr, sizeof arr / sizeof *arr, sizeof *arr, &cmp); }" % (r.choice([2, 9, 40]), t))
            elif k < .93:
                body.append(self.file_ops())
            else:
                body.append("tr(\"f\", %d, cnt++);" % i)
        body.append(chk)
        return "int f%d(int x) { %s dep++; %s act[%d] = 0; dep--; return x + cnt; }" % (i, " ".join(o), "\n  ".join(body), i)

    def program(self):
        r = self.r
        hd, h = self.handlers()
        fs = "\n".join(self.func(i) for i in range(self.n - 1, -1, -1))
        fd = "".join("int f%d(int x);\n" % i for i in range(self.n))
        how = self.end()
        s = [PRE, hd, fd, "int qt;",
             "int rec(int n, int k) { char pad[20]; memset(pad, n, sizeof pad); if (n > 0) { int r; r = rec(n - 1, k + 1) + pad[3]; return r; } tr(\"deep\", k, cnt); %s return 0; }" % (
                 r.choice(["exit(%d);" % self.num(), "exit(k & 255);", "abort();", "if (k < 0)", "fflush(NULL); _Exit(%d);" % self.num()])),
             "void rj(int n, int t, int v) { char pad[16]; pad[0] = n; if (n > 0) rj(n - 1, t, v); else { fuel--; longjmp(jb[t], v); } pad[1] = pad[0]; }",
             "int cmp(const void *a, const void *b) { if (act[qt] && fuel > 0) { fuel--; longjmp(jb[qt], cnt); } return *(int*)a - *(int*)b; }",
             "void jtest(int v) { int r; r = cnt; if (setjmp(jx)) { tr(\"jt\", r, v); return; } if (v >= 0) longjmp(jx, v); }",
             fs, h]
        reg = "".join("  if (atexit(&h%d)) tr(\"atexit\", %d, 0);\n" % (r.randrange(self.nh) if r.random() < .2 else i, i) for i in range(self.nh) if r.random() < .85)
        m = "%s\n%s  fuel = %d;\n  { int i; for (i = 0; i < %d; i++) { int j; for (j = 0; j < NJ; j++) act[j] = 0; tr(\"r\", f0(i), cnt++); } }\n  %s\n  %s" % (
            self.opens(), reg, r.choice([0, 1, 5, 20, 60]), r.randint(1, 4), self.file_ops(), how)
        k = r.random()
        if k < .3:
            m += "\n}"
        elif k < .85:
            m += "\n  return %d;\n}" % self.num()
        else:
            m += "\n  exit(%d);\n}" % self.num()
        s.append("int main(%s) {\n%s" % (r.choice(["void", "int argc, char **argv", ""]), m))
        return "\n".join(s) + "\n"

    def tmp_program(self):
        """Names and files come and go; the standard sequences (rand, strtok, getenv) are not disturbed."""
        r = self.r
        self.pre = [] if r.random() < .5 else sorted(r.sample(range(12), r.randint(1, 8)))
        nm = ["a.txt", "b.txt", "c d.txt", "sub/x.txt", "nodir/x.txt", "dir", "e" * 60]
        o = ["tr(\"shell\", !!system(NULL), 0); srand(3); for (i = 0; i < 200; i++) rnd[i] = rand(); srand(3); strcpy(list, \"w0,w1;w2,,w3;;w4,w5,w6,w7\"); tok = strtok(list, \",;\");"
             " i = system(\"mkdir sub dir\"); tr(\"mkdir\", i, 0); env = getenv(\"SHELL\");"]
        for n in range(r.randint(5, 40)):
            k = r.randrange(12)
            a, b = r.choice(nm), r.choice(nm)
            m = r.choice([x for x in nm if x != "dir"])
            if k == 0:
                o.append("if ((f = fopen(\"%s\", \"%s\")) != NULL) { fprintf(f, \"n%d\\n\"); tr(\"wr\", fclose(f), %d); } else tr(\"no\", %d, 0);" % (a, r.choice(["w", "a", "w+", "r+"]), n, n, n))
            elif k == 1:
                o.append("tr(\"rm\", !!remove(\"%s\"), %d);" % (r.choice([a for a in nm if a != "dir"]), n))
            elif k in (2, 3):
                o.append("tr(\"mv\", !!rename(\"%s\", \"%s\"), %d);" % (m, b, n))
            elif k == 4:
                o.append("rd(\"%s\");" % a)
            elif k in (5, 6):
                j = r.randrange(8)
                o.append("if (!T[%d]) { T[%d] = tmpfile(); tr(\"tmp\", !T[%d], 0); if (T[%d]) { for (i = 0; i < %d; i++) fprintf(T[%d], \"t%%d\\n\", i); } }" % (j, j, j, j, r.choice([0, 1, 10, 1000]), j))
            elif k == 7:
                j = r.randrange(8)
                o.append("if (T[%d]) { int h = 0, x; rewind(T[%d]); while ((x = fgetc(T[%d])) != EOF) h = (h * 31 + x) & 0x7fffff; tr(\"hash\", h, 0); fseek(T[%d], 0, SEEK_END); }" % (j, j, j, j))
            elif k == 8:
                j = r.randrange(8)
                o.append("if (T[%d]) { tr(\"cl\", fclose(T[%d]), 0); T[%d] = NULL; }" % (j, j, j))
            elif k == 9:
                o.append("for (i = 0; i < %d; i++) { char *p = tmpnam(%s); if (!p || strlen(p) >= L_tmpnam || !strcmp(p, last) || (f = fopen(p, \"r\"))) tr(\"BADNAME\", i, 0); else strcpy(last, p); %s }" % (
                    r.choice([1, 2, 5, 30]), r.choice(["NULL", "nb"]), "" if r.random() < .5 else "f = fopen(p, \"wb\"); fputs(\"mine\", f); fclose(f); if (nmine < 50) strcpy(mine[nmine++], p); else remove(p);"))
            elif k == 10:
                o.append("for (i = 0; i < %d; i++) { int x = rand(); if (nr >= 200 || x != rnd[nr++]) { tr(\"RAND\", nr, 0); break; } }" % r.randint(1, 20))
            else:
                o.append("tok = tok ? strtok(NULL, \",;\") : NULL; printf(\"tok %s %d\\n\", tok ? tok : \"end\", env && !strcmp(env, \"/bin/sh\"));")
            if r.random() < .1:
                o.append("i = system(\"%s\"); tr(\"sys\", i >> 8, i & 127);" % r.choice(["exit 7", "ls > ls.txt", "true"]))
        o.append("for (i = 0; i < nmine; i++) { f = fopen(mine[i], \"r\"); tr(\"mine\", f ? fgetc(f) : -1, 0); if (f) fclose(f); tr(\"rm\", remove(mine[i]), 0); }")
        r.shuffle(nm)
        end = r.choice(["return %d;" % self.num(), "exit(%d);" % self.num(), "abort();", "return 0;"])
        return PRE + """#define L_tmp 5000
int rnd[200], nr, nmine; char list[60], last[L_tmp], nb[L_tmp], mine[50][30]; FILE *T[8];
void rd(char *n) { FILE *f = fopen(n, "r"); char b[100]; int k; if (!f) { printf("none %s\\n", n); return; } k = fread(b, 1, sizeof b - 1, f); if (k < 0) k = 0; b[k] = 0; fclose(f); printf("%s: %s\\n", n, b); }
int main(void) {
  FILE *f; char *tok, *env; int i;
  """.replace("\\\\", "\\") + "\n  ".join(o) + "\n  " + end + "\n}\n"
