"""Portable application programs: the same text has one meaning wherever int has at least 16 bits.

Signed values stay within -32767..32767 (intervals are tracked), unsigned ones are reduced to 16 bits where more bits
would show, and nothing depends on the size, order or representation of types.  Files written in text mode are called
*.txt, binary ones *.dat.
"""

PRE = r"""#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <ctype.h>
#include <limits.h>
#include <setjmp.h>
#include <stddef.h>
#include <errno.h>
#include <assert.h>
#define M(x) ((unsigned)(x) & 0xFFFFu)
"""
HELP = r"""unsigned rs_ = %du, hs_ = 1;
int rnd(int n) { rs_ = M(rs_ * 25173u + 13849u); return (int)((rs_ >> 5) %% (unsigned)n); }
void mix(int v) { hs_ = M(hs_ * 31u + (unsigned)v); hs_ ^= hs_ >> 7; }
void rep(char *s, int a, int b) { printf("%%s %%d %%d %%u\n", s, a, b, hs_); }
void mixs(char *s) { while (*s) mix(*s++); }
"""
HEAD = "extern unsigned rs_, hs_; int rnd(int n); void mix(int v); void rep(char *s, int a, int b); void mixs(char *s);\n"

WORDS = "alpha beta gamma delta eps zeta eta theta iota kappa lambda mu nu xi omicron pi rho sigma tau upsilon phi chi psi omega a b c the of and".split()


class P:
    def __init__(self, r, wide=False, tag="", small=False):
        self.r = r
        self.small = small          # for the 16-bit models too, which have no long and what needs it
        self.tag = tag              # keeps the file names of programs in one directory apart
        self.wide = wide            # int of 32 bits, floats, long
        self.k = 0
        self.units = [[], []]
        self.protos = []
        self.calls = []
        self.cov = {}
        self.stdin = None
        self.args = []

    # --- expressions ------------------------------------------------------------------------------------------------
    def sx(self, env, d):
        """A signed expression over env [(text, lo, hi)] and its bounds."""
        r = self.r
        if d <= 0 or r.random() < .15:
            if env and r.random() < .7:
                return r.choice(env)
            v = r.choice([0, 1, 2, 3, 5, 7, 10, 16, 63, 100, 127, 128, 255, 256, 1000, 32767, r.randint(0, 32767)])
            if r.random() < .2:
                v = -v
            return ("(%d)" % v if v < 0 else "%d" % v, v, v)
        k = r.random()
        a, al, ah = self.sx(env, d - 1)
        if k < .08:
            return "(-%s)" % a if not a.startswith("-") else "(- %s)" % a, -ah, -al
        if k < .12:
            return "(!%s)" % a, 0, 1
        if k < .16 and al > -32767:
            return "(~%s)" % a, -ah - 1, -al - 1
        b, bl, bh = self.sx(env, d - 1)
        if k < .3:
            return self.fit("(%s + %s)" % (a, b), al + bl, ah + bh, a, al, ah, b, bl, bh, "+")
        if k < .42:
            return self.fit("(%s - %s)" % (a, b), al - bh, ah - bl, a, al, ah, b, bl, bh, "-")
        if k < .52:
            p = [al * bl, al * bh, ah * bl, ah * bh]
            return self.fit("(%s * %s)" % (a, b), min(p), max(p), a, al, ah, b, bl, bh, "*")
        if k < .62:
            n = r.choice([1, 2, 3, 4, 7, 8, 10, 16, 100, 255, 256, 1000, 4096, 32767, -3, -8, -10])
            m = max(abs(al), abs(ah))
            if r.random() < .5:
                return "(%s / %d)" % (a, n), -(m // abs(n)), m // abs(n)
            t = min(m, abs(n) - 1)
            return "(%s %% %d)" % (a, n), -t if al < 0 else 0, t if ah > 0 else 0
        if k < .68:
            if al >= 0:
                n = r.randint(0, 8)
                if ah << n <= 32767 and r.random() < .5:
                    return "(%s << %d)" % (a, n), al << n, ah << n
                return "(%s >> %d)" % (a, n), al >> n, ah >> n
            return "(%s < 0)" % a, 0, 1
        if k < .78:
            if al >= 0 and bl >= 0:
                op = r.choice("&|^")
                t = (1 << max(ah, bh).bit_length()) - 1
                return "(%s %s %s)" % (a, op, b), 0, min(t, ah, bh) if op == "&" else t
            return "(%s & 255)" % a, 0, 255
        if k < .88:
            return "(%s %s %s)" % (a, r.choice(["<", "<=", ">", ">=", "==", "!=", "&&", "||"]), b), 0, 1
        if k < .96:
            q = self.sx(env, d - 2)[0]
            return "(%s ? %s : %s)" % (q, a, b), min(al, bl), max(ah, bh)
        return "(%s, %s)" % (a, b), bl, bh

    def fit(self, t, lo, hi, a, al, ah, b, bl, bh, op):
        if lo >= -32767 and hi <= 32767:
            return t, lo, hi
        n, m = (120, 180) if op == "*" else (15000, 16000)
        f = lambda l, h, n: (max(l, -n + 1) if l < 0 else 0, min(h, n - 1) if h > 0 else 0)
        x, y = f(al, ah, n), f(bl, bh, m)
        t = "((%s %% %d) %s (%s %% %d))" % (a, n, op, b, m)
        if op == "+":
            return t, x[0] + y[0], x[1] + y[1]
        if op == "-":
            return t, x[0] - y[1], x[1] - y[0]
        p = [u * v for u in x for v in y]
        return t, min(p), max(p)

    def ux(self, env, d):
        """An unsigned expression whose low 16 bits are the same everywhere."""
        r = self.r
        if d <= 0 or r.random() < .15:
            if env and r.random() < .7:
                return r.choice(env)
            return "%du" % r.choice([0, 1, 2, 3, 255, 256, 257, 0x7fff, 0x8000, 0x8001, 0xffff, r.randint(0, 0xffff)])
        a = self.ux(env, d - 1)
        k = r.random()
        if k < .1:
            return "(%s%s)" % (r.choice("-~"), a if a[0] not in "-~" else "(%s)" % a)
        b = self.ux(env, d - 1)
        if k < .55:
            return "(%s %s %s)" % (a, r.choice("+-*&|^+-*"), b)
        if k < .65:
            return "(%s << %d)" % (a, r.randint(0, 15))
        if k < .75:
            return "(M(%s) >> %d)" % (a, r.randint(0, 15))
        if k < .85:
            return "(M(%s) %s (M(%s) | 1u))" % (a, r.choice("/%"), b)
        if k < .93:
            return "(M(%s) %s M(%s) ? %s : %s)" % (a, r.choice(["<", ">", "<=", ">=", "==", "!="]), b, b, a)
        return "(unsigned)(unsigned char)(%s)" % a

    # --- episodes ---------------------------------------------------------------------------------------------------
    def unit(self, text, protos=""):
        u = self.r.choice([0, 0, 1])
        self.units[u].append(text)
        if protos:
            self.protos.append(protos)

    def e_calc(self, n):
        r = self.r
        vs = [("v%d" % i, -32767, 32767) for i in range(r.randint(2, 5))]
        us = ["u%d" % i for i in range(r.randint(1, 3))]
        b = ["int %s;" % ", ".join(v[0] for v in vs), "unsigned %s;" % ", ".join(us), "short h; unsigned char c; unsigned short w; int i;"]
        b += ["%s = %d;" % (v[0], r.randint(-32767, 32767)) for v in vs] + ["%s = %du;" % (u, r.randint(0, 65535)) for u in us] + ["h = 5; c = 200; w = 60000u;"]
        env = vs + [("h", -32767, 32767), ("c", 0, 255), ("i", 0, 100)]
        uenv = us + ["(unsigned)w", "(unsigned)c"]
        loop = []
        for _ in range(r.randint(3, 9)):
            k = r.random()
            if k < .45:
                v = r.choice(vs)
                loop.append("%s = %s;" % (v[0], self.sx(env, r.randint(2, 4))[0]))
            elif k < .6:
                loop.append("%s = M(%s);" % (r.choice(us), self.ux(uenv, r.randint(2, 4))))
            elif k < .68:
                loop.append("c = %s;" % self.ux(uenv, 3))
            elif k < .76:
                loop.append("w = %s;" % self.ux(uenv, 3))
            elif k < .84:
                loop.append("h = %s;" % self.sx(env, 3)[0])
            else:
                loop.append("if (%s) mix(%s); else mix(%s);" % (self.sx(env, 2)[0], self.sx(env, 2)[0], self.sx(env, 2)[0]))
        loop.append(" ".join("mix(%s);" % v[0] for v in vs))
        loop.append(" ".join("mix((int)(M(%s) >> 1));" % u for u in us) + " mix(h); mix(c); mix(w >> 1);")
        if r.random() < .3:
            loop.append('printf("%%d %%u %%x %%o %%c\\n", %s, M(%s), M(%s), M(%s), %s %% 26 + 90);' % (r.choice(vs)[0], us[0], us[-1], us[0], "c"))
        b.append("for (i = 0; i < %d; i++) {\n  %s\n}" % (r.choice([1, 3, 10, 40]), "\n  ".join(loop)))
        b.append('rep("calc", %s, (int)(M(%s) >> 1));' % (vs[0][0], us[0]))
        self.unit("void e%d(void) {\n%s\n}\n" % (n, "\n".join(b)))

    def e_sort(self, n):
        r = self.r
        N = r.choice([1, 2, 5, 20, 60, 120])
        desc = r.choice(["", "-"])
        self.unit(r"""struct R%(n)d { char name[%(nm)d]; int key; short ord; struct { unsigned char f, g; } in; };
static int cmp%(n)d(const void *a, const void *b) { const struct R%(n)d *x = a, *y = b; int d = %(d)s(x->key - y->key); if (d) return d; d = strcmp(x->name, y->name); return d ? d : x->ord - y->ord; }
static int find%(n)d(const void *k, const void *e) { int a = *(int *)k, b = ((struct R%(n)d *)e)->key; return %(d)s(a - b); }
static struct R%(n)d t%(n)d[%(N)d];
void e%(n)d(void) {
  int i, k, f = 0; struct R%(n)d *p, c;
  for (i = 0; i < %(N)d; i++) { p = t%(n)d + i; sprintf(p->name, "%(w)s%%d", rnd(%(m)d)); p->key = rnd(%(m2)d) - %(m2)d / 2; p->ord = i; p->in.f = rnd(256); p->in.g = p->in.f ^ 255; }
  c = t%(n)d[%(N)d / 2];
  qsort(t%(n)d, %(N)d, sizeof t%(n)d[0], cmp%(n)d);
  for (i = 0; i < %(N)d; i++) { p = &t%(n)d[i]; mixs(p->name); mix(p->key); mix(p->ord); mix(p->in.f * 2 + p->in.g); if (i && cmp%(n)d(p - 1, p) >= 0) rep("order", i, 0); }
  for (k = -%(m2)d; k < %(m2)d; k += %(st)d) { p = bsearch(&k, t%(n)d, %(N)d, sizeof *p, find%(n)d); if (p) { f++; if (p->key != k) rep("bs", k, p->key); } }
  p = bsearch(&c.key, t%(n)d, %(N)d, sizeof *p, find%(n)d);
  rep("sort", f, p != NULL && p->key == c.key);
  printf("%%-*s|%%*d|%%s\n", %(nm)d, t%(n)d->name, 7, t%(n)d[%(N)d - 1].key, c.name);
}
""" % dict(n=n, N=N, nm=r.choice([12, 15, 16, 20, 33]), d=desc, w=r.choice(WORDS)[:5], m=r.choice([3, 50, 1000]), m2=r.choice([4, 40, 400, 2000]), st=r.choice([1, 3])))

    def e_text(self, n):
        r = self.r
        line = " ".join(r.choice(WORDS) + r.choice(["", "", ",", ".", ";", "=%d" % r.randint(-999, 999), "!"]) for _ in range(r.randint(1, 14)))
        self.unit(r"""static char buf%(n)d[%(sz)d];
void e%(n)d(void) {
  char w[40], *p, *q; int i, a, b, cnt = 0; unsigned u;
  strcpy(buf%(n)d, "%(line)s");
  %(xf)s
  for (p = strtok(buf%(n)d, "%(del)s"); p; p = strtok(NULL, "%(del)s")) {
    cnt++; mixs(p); mix((int)strlen(p));
    if ((q = strchr(p, '=')) != NULL) { a = atoi(q + 1); *q = 0; rep(p, a, (int)(q - p)); }
    if (strstr(p, "%(sub)s")) rep("has", cnt, strncmp(p, "%(sub)s", 2) == 0);
    strncpy(w, p, sizeof w - 1); w[sizeof w - 1] = 0;
    for (i = 0; w[i]; i++) w[i] = isupper(w[i] & 255) ? tolower(w[i] & 255) : toupper(w[i] & 255);
    a = strcmp(w, p); b = memcmp(w, p, 1); mix((a > 0) - (a < 0)); mix((b > 0) - (b < 0));
    i = (int)strspn(w, "ABCDEFGHIJKLM"); mix(i); mix((int)strcspn(w, "XYZ")); mix(strrchr(w, 'A') ? (int)(strrchr(w, 'A') - w) : -1);
  }
  a = sscanf("%(nums)s", "%%d %%x %%u %%3c", &a, &u, (unsigned *)&i, w); mix(a); mix((int)(u & 0x7fff));
  %(conv)s rep("text", cnt, i); putchar(*p); putchar('\n');
}
""" % dict(n=n, sz=len(line) + r.choice([1, 2, 40, 300]), line=line, del_="", sub=r.choice(["al", "ta", "om", "e", "psi"]),
           nums="%d %x %d abc" % (r.randint(-3000, 3000), r.randint(0, 65535), r.randint(0, 30000)), 
           conv='i = (int)strtol(" %s,", &p, %d);' % (r.choice(["123", "-77", "0x1f", "0777", "101", "zz"]), r.choice([0, 0, 8, 10, 16, 2])) if self.wide else 'i = atoi(" %s,"); p = "k";' % r.choice(["123", "-77", "777z", "+101", "32767"]),
           xf=r.choice(["", "for (p = buf%d; *p; p++) *p = (char)toupper(*p);" % n, "for (p = buf%d, q = p + strlen(p) - 1; p < q; p++, q--) { int t = *p; *p = *q; *q = (char)t; }" % n,
                        "memmove(buf%d, buf%d + 1, strlen(buf%d));" % (n, n, n)]), **{"del": r.choice([" ", " ,.", " ,.;!", "ae "])}))

    def e_tree(self, n):
        r = self.r
        N = r.choice([5, 40, 150])
        self.unit(r"""typedef struct N%(n)d { struct N%(n)d *l, *r; int k, c; char *s; } N%(n)d;
static int depth%(n)d(N%(n)d *t) { int a, b; if (!t) return 0; a = depth%(n)d(t->l); b = depth%(n)d(t->r); return 1 + (a > b ? a : b); }
static N%(n)d *ins%(n)d(N%(n)d *t, int k) {
  if (!t) { char b[20]; t = %(alloc)s; if (!t) { puts("no memory"); exit(3); } t->l = t->r = NULL; t->k = k; t->c = 1; sprintf(b, "<%%d>", k); t->s = malloc(strlen(b) + 1); strcpy(t->s, b); return t; }
  if (k < t->k) t->l = ins%(n)d(t->l, k); else if (k > t->k) t->r = ins%(n)d(t->r, k); else t->c++;
  return t;
}
static void walk%(n)d(N%(n)d *t, void (*f)(N%(n)d *)) { if (t) { walk%(n)d(t->l, f); f(t); walk%(n)d(t->r, f); } }
static void kill%(n)d(N%(n)d *t) { if (t) { kill%(n)d(t->l); kill%(n)d(t->r); free(t->s); free(t); } }
static void see%(n)d(N%(n)d *t) { mix(t->k); mix(t->c); mixs(t->s); }
void e%(n)d(void) {
  N%(n)d *t; int i, j;
  for (j = 0; j < %(rounds)d; j++) {
    t = NULL;
    for (i = 0; i < %(N)d; i++) t = ins%(n)d(t, rnd(%(m)d)%(neg)s);
    walk%(n)d(t, see%(n)d); rep("tree", depth%(n)d(t), t->k); kill%(n)d(t);
  }
}
""" % dict(n=n, N=N, m=r.choice([10, 500, 3000]), neg=r.choice(["", " - 250"]), rounds=r.choice([1, 2, 5]),
           alloc=r.choice(["malloc(sizeof *t)", "(N%d *)calloc(1, sizeof(N%d))" % (n, n), "realloc(NULL, sizeof(N%d))" % n])))

    def e_heap(self, n):
        r = self.r
        S = r.choice([4, 9, 16])
        self.unit(r"""void e%(n)d(void) {
  static unsigned char *p[%(S)d]; static int z[%(S)d], f[%(S)d]; int i, j, k; unsigned char *q;
  for (i = 0; i < %(S)d; i++) { p[i] = NULL; z[i] = 0; f[i] = 0; }
  for (i = 0; i < %(it)d; i++) {
    j = rnd(%(S)d);
    for (k = 0; k < z[j]; k++) if (p[j][k] != ((f[j] + k) & 255)) { rep("HEAP", i, k); return; }
    switch (rnd(%(sw)d)) {
    case 0: free(p[j]); p[j] = NULL; z[j] = 0; break;
    case 1: free(p[j]); z[j] = rnd(%(max)d) + 1; p[j] = calloc(z[j], 1); for (k = 0; k < z[j]; k++) mix(p[j][k]); break;
    case 2: free(p[j]); z[j] = rnd(%(max)d) + 1; p[j] = malloc(z[j]); break;
    default: { int o = z[j]; z[j] = rnd(%(max)d) + 1; q = realloc(p[j], z[j]); if (!q) { rep("NOMEM", i, j); return; } p[j] = q;
        for (k = 0; k < o && k < z[j]; k++) if (p[j][k] != ((f[j] + k) & 255)) { rep("MOVE", i, k); return; } }
    }
    if (z[j] && !p[j]) { rep("NOMEM", i, j); return; }
    f[j] = rnd(256); for (k = 0; k < z[j]; k++) p[j][k] = f[j] + k;
    mix(z[j]);
  }
  for (i = 0; i < %(S)d; i++) free(p[i]);
  rep("heap", z[0], z[1]);
}
""" % dict(n=n, S=S, it=r.choice([30, 200]), sw=r.choice([4, 5, 8]), max=r.choice([20, 300, 900])))

    def e_file(self, n):
        r = self.r
        txt = r.random() < .5
        fn = "f%s%x.%s" % (self.tag, n, "txt" if txt else "dat")
        b = "" if txt else "b"
        N = r.choice([1, 5, 40, 150])
        o = ["FILE *f = fopen(\"%s\", \"w%s\"); int i, c, k = 0, s = 0; char l[100]; short h[8]; size_t z; long_t p;" % (fn, b), 'if (!f) { rep("open", errno != 0, 0); return; }']
        if r.random() < .3:
            o.append("setvbuf(f, NULL, %s, %d);" % (r.choice(["_IOFBF", "_IONBF", "_IOLBF"]), r.choice([2, 16, 100, 512, 1500])))
        line = r.choice(['fprintf(f, "%d: %s %05d|%-6x|%+d\\n", i, l, rnd(9999), rnd(30000), rnd(9) - 4);', 'fputs(l, f); putc(\'\\n\', f); fprintf(f, "%d\\n", rnd(100));',
                         'fprintf(f, "%*s%d %c\\n", rnd(20), "", rnd(1000) - 500, \'a\' + rnd(26));'])
        if txt:
            o.append('for (i = 0; i < %d; i++) { for (k = rnd(70), l[k] = 0; k; ) l[--k] = \'!\' + rnd(90); %s }' % (N, line))
        else:
            o.append('for (i = 0; i < %d; i++) { for (k = 0; k < 8; k++) h[k] = rnd(30000) - 15000; z = fwrite(h, sizeof h[0], %s, f); mix((int)z); fputc(%s, f); }' % (
                N, r.choice(["8", "1 + rnd(8)", "3"]), r.choice(["13", "10", "26", "255", "0", "rnd(256)"])))
        o.append('if (ferror(f) || fclose(f)) rep("write", 0, 0);')
        if r.random() < .4:
            o.append('f = fopen("%s", "a%s"); if (!f) { rep("app", 0, 0); return; } fputs("%s", f); fclose(f);' % (fn, b, r.choice(["tail", "tail\\n", "\\n\\n", "x y z\\n"])))
        o.append('f = fopen("%s", "r%s"); if (!f) { rep("reopen", 0, 0); return; }' % (fn, b))
        rd = r.choice([0, 1, 3] if self.small and not txt else [0, 1, 2, 3])
        if txt:
            o.append(['while ((c = getc(f)) != EOF) { mix(c); s++; }', 'while (fgets(l, %d, f)) { mixs(l); s++; }' % r.choice([2, 10, 100]),
                      'while ((c = fgetc(f)) != EOF) { if (s % 7 == 3) { ungetc(c ^ 1, f); c = fgetc(f); } mix(c); s++; }',
                      'while (fscanf(f, "%20s", l) == 1) { mixs(l); s++; c = fgetc(f); mix(c); }'][rd])
        else:
            o.append(['while ((c = getc(f)) != EOF) { mix(c); s++; }', 'while ((z = fread(l, 1, %d, f)) != 0) { for (i = 0; i < (int)z; i++) mix(l[i] & 255); s += (int)z; }' % r.choice([1, 7, 64, 100]),
                      'fseek(f, 0, SEEK_END); while (s < 30 && !fseek(f, %s, %s)) { c = fgetc(f); mix(c); s++; if (c == EOF) { clearerr(f); rewind(f); } }' % (r.choice(["s * 3", "s"]), "SEEK_SET"),
                      'while (fread(h, sizeof *h, 1, f) == 1) { mix(h[0] >> 1 & 0x3fff); s++; %s }' % ("if (s % 7 == 0) { fpos_t ps; c = getc(f); fgetpos(f, &ps); k = getc(f); fsetpos(f, &ps); mix(c == EOF); mix(k == getc(f)); }" if self.small else "if (s % 5 == 0) fseek(f, 1, SEEK_CUR);")][rd])
        o.append('mix(feof(f) != 0); mix(ferror(f) != 0); mix(fclose(f));')
        k = r.random()
        if k < .15:
            o.append('mix(remove("%s"));' % fn)
        elif k < .3:
            o.append('remove("g%s"); mix(rename("%s", "g%s"));' % (fn[1:], fn, fn[1:]))
        elif k < .4:
            o.append('f = fopen("nosuch.%s", "r"); mix(f == NULL);' % fn[-3:])
        elif k < .5 and not self.small:
            o.append('f = fopen("%s", "r+%s"); if (f) { fseek(f, %d, SEEK_SET); fputc(\'X\', f); fclose(f); }' % (fn, b, r.randint(0, 12 if not txt else 0)))
        o.append('rep("file", s, k);')
        self.unit("void e%d(void) { %s }\n" % (n, "\n  ".join(o).replace("long_t p;", "")))
        self.cov["files"] = self.cov.get("files", 0) + 1

    def e_var(self, n):
        r = self.r
        fm, args = [], []
        for _ in range(r.randint(1, 7)):
            k = r.choice("iuscp")
            fm.append(k)
            args.append({"i": "%d" % r.randint(-32767, 32767), "u": "%du" % r.randint(0, 65535), "s": '"%s"' % r.choice(WORDS), "c": "'%s'" % chr(r.randint(97, 122)), "p": "&loc"}[k])
        self.unit(r"""static int sum%(n)d(char *f, va_list ap) { int s = 0; char *t; int *p;
  for (; *f; f++) switch (*f) { case 'i': s = (s + va_arg(ap, int) %% 7000) %% 20000; break; case 'u': s = (s + (int)(va_arg(ap, unsigned) %% 100u)) %% 20000; break;
    case 's': t = va_arg(ap, char *); mixs(t); s ^= (int)strlen(t); break; case 'c': mix(va_arg(ap, int)); break; case 'p': p = va_arg(ap, int *); *p += 1; mix(*p); }
  return s; }
static int va%(n)d(int n, char *f, ...) { va_list ap; int s; va_start(ap, f); s = sum%(n)d(f, ap); va_end(ap); if (n > 0) { va_start(ap, f); s = (s + sum%(n)d(f, ap)) %% 15000; va_end(ap); } return s; }
static void out%(n)d(char *f, ...) { char b[200]; va_list ap; va_start(ap, f); mix(vsprintf(b, f, ap)); va_end(ap); puts(b); }
void e%(n)d(void) { int loc = %(l)d, i; for (i = 0; i < 3; i++) rep("va", va%(n)d(i, "%(f)s"%(a)s), loc);
  out%(n)d("%%5d|%%-5s|%%x|%%c|%%05u|%%.3d|%%%%", %(l)d, "%(w)s", %(l)d, 'z', %(l)du, %(l)d %% 100); }
""" % dict(n=n, f="".join(fm), a="".join(", " + a for a in args), l=r.randint(0, 30000), w=r.choice(WORDS)))

    def e_struct(self, n):
        r = self.r
        fs = [r.choice(["char c%d[%d]" % (i, r.randint(1, 9)), "int i%d" % i, "short s%d" % i, "unsigned char u%d" % i, "int a%d[%d]" % (i, r.randint(1, 4))]) for i in range(r.randint(1, 5))]
        def each(v, what):
            o = []
            for f in fs:
                nm = f.split()[-1]
                if "[" in nm:
                    b, k = nm[:-1].split("[")
                    o += [what("%s%s[%d]" % (v, b, j), f.split()[0]) for j in range(int(k))]
                else:
                    o.append(what(v + nm, f.split()[0]))
            return " ".join(o)
        self.unit(r"""typedef struct { %(fs)s; } S%(n)d;
static S%(n)d mk%(n)d(int k) { S%(n)d s; %(fill)s return s; }
static void see%(n)d(S%(n)d *s) { %(see)s }
static S%(n)d pass%(n)d(int a, S%(n)d s, int b, S%(n)d *q) { if (a > 0) { S%(n)d t; t = pass%(n)d(a - 1, s, b + 1, q); see%(n)d(&t); } *q = s; %(touch)s mix(a); mix(b); return s; }
static S%(n)d (*fp%(n)d)(int, S%(n)d, int, S%(n)d *) = pass%(n)d;
void e%(n)d(void) { S%(n)d a[3], b; union { S%(n)d s; unsigned char raw[sizeof(S%(n)d)]; } u; int i;
  for (i = 0; i < 3; i++) a[i] = mk%(n)d(rnd(100)); b = fp%(n)d(2, a[1], 5, &a[2]); u.s = b; see%(n)d(&a[2]); see%(n)d(&u.s); a[0] = a[1]; see%(n)d(a); see%(n)d(&b);
  rep("struct", (int)(offsetof(S%(n)d, %(last)s) < sizeof(S%(n)d)), (int)(sizeof a / sizeof *a)); }
""" % dict(n=n, fs="; ".join(fs), fill=each("s.", lambda m, t: "%s = k; k = (k * 7 + 3) %% 100;" % m), see=each("s->", lambda m, t: "mix(%s);" % m),
           touch=each("s.", lambda m, t: "%s += 1;" % m), last=fs[-1].split()[-1].split("[")[0]))

    def e_jump(self, n):
        r = self.r
        self.unit(r"""static jmp_buf j%(n)d, k%(n)d; static int dep%(n)d;
static void deep%(n)d(int d) { char pad[%(pad)d]; memset(pad, d, sizeof pad); dep%(n)d = d; if (d == 0) longjmp(%(which)s, %(val)s); deep%(n)d(d - 1); mix(pad[%(pad)d - 1]); }
void e%(n)d(void) { static int tries; int v; tries = 0;
  v = setjmp(j%(n)d); tries++; mix(v); rep("jump", tries, v);
  if (tries < %(t)d) { if (setjmp(k%(n)d) == 0) deep%(n)d(rnd(20) + 1); else { rep("inner", tries, dep%(n)d); if (tries < %(t)d) longjmp(j%(n)d, tries); } }
}
""" % dict(n=n, pad=r.choice([1, 8, 100]), which=r.choice(["j%d" % n, "k%d" % n]), val=r.choice(["d", "1", "dep%d + 5" % n, "-3"]), t=r.randint(2, 6)))

    def e_switch(self, n):
        r = self.r
        cs = r.sample(range(-40, 200), r.randint(3, 20)) + ([r.choice([-32767, 32767, 1000, -1000])] if r.random() < .4 else [])
        body = []
        for c in dict.fromkeys(cs):
            body.append("case %d: s = %s;%s" % (c, self.sx([("s", -32767, 32767), ("x", -300, 300)], 2)[0], r.choice(["", " break;", " break;", " continue;", " goto out%d;" % n if r.random() < .2 else " break;"])))
        body.insert(r.randint(0, len(body)), "default: s = (s %% 1000 + %d) %% 5000; break;" % r.randint(1, 99))
        self.unit(r"""void e%(n)d(void) { int x, s = %(s)d; enum { A%(n)d = %(en)d, B%(n)d, C%(n)d };
  for (x = -50; x < 210; x += %(st)d) { switch (x) { %(b)s } mix(s); }
  x = 0; do { if (x == B%(n)d %% 20) continue; mix(x); if (x > 25) break; } while (x++ < 30);
out%(n)d: rep("switch", s, C%(n)d); }
""" % dict(n=n, s=r.randint(-99, 99), st=r.randint(1, 4), b="\n".join(body), en=r.randint(-50, 1000)))

    def e_ptr(self, n):
        r = self.r
        a, b, c = r.randint(1, 4), r.randint(1, 5), r.randint(1, 6)
        self.unit(r"""static int t%(n)d[%(a)d][%(b)d][%(c)d]; static char *w%(n)d[] = { %(w)s }; static int (*f%(n)d[])(int) = { abs, isdigit, isalpha, toupper };
static const char m%(n)d[2][%(ml)d] = { "%(m0)s", "%(m1)s" };
static void fill%(n)d(int (*p)[%(b)d][%(c)d], int k) { int i, j, l; for (i = 0; i < k; i++) for (j = 0; j < %(b)d; j++) for (l = 0; l < %(c)d; l++) p[i][j][l] = i * 100 + j * 10 + l; }
void e%(n)d(void) { int *p = &t%(n)d[0][0][0], i, **pp = &p; char **w; const char (*q)[%(ml)d] = m%(n)d; int (*r)[%(c)d];
  fill%(n)d(t%(n)d, %(a)d); for (i = 0; i < %(a)d * %(b)d * %(c)d; i++) { mix(*(*pp)++); mix(p[-1] - *(p - 1)); }
  mix((int)(p - t%(n)d[0][0])); r = t%(n)d[%(a)d - 1]; mix(r[%(b)d - 1][%(c)d - 1]); mix((*(r + %(b)d - 1))[0]);
  for (w = w%(n)d; w < w%(n)d + sizeof w%(n)d / sizeof *w; w++) { mixs(*w); mix((int)strlen(*w)); }
  for (i = 0; i < 4; i++) mix(f%(n)d[i]('a' + i) != 0); mix((*f%(n)d[0])(-77)); mixs((char *)q[1]); mix(q[0][0]); mix((int)(&q[1] - q));
  rep("ptr", (int)(sizeof t%(n)d / sizeof(int)), p == &t%(n)d[%(a)d - 1][%(b)d - 1][%(c)d]); }
""" % dict(n=n, a=a, b=b, c=c, w=", ".join('"%s"' % r.choice(WORDS) for _ in range(r.randint(1, 6))), ml=r.choice([9, 10, 16]), m0=r.choice(WORDS), m1=r.choice(WORDS)))

    def e_fmt(self, n):
        r = self.r
        o = []
        for _ in range(r.randint(2, 8)):
            fl = "".join(x for x in "-+ 0#" if r.random() < .2)
            cv = r.choice("diuxXocs")
            if cv in "dius":
                fl = fl.replace("#", "")
            if cv in "cs":
                fl = fl.replace("0", "").replace("+", "").replace(" ", "").replace("#", "")
            if cv in "uxXoc":
                fl = fl.replace("+", "").replace(" ", "")
            if "-" in fl:
                fl = fl.replace("0", "")
            if "+" in fl:
                fl = fl.replace(" ", "")
            w = r.choice(["", "", "3", "8", "12", "*"])
            p = r.choice(["", "", ".0", ".3", ".6", ".*"]) if cv != "c" else ""
            if p:
                fl = fl.replace("0", "")
            ar = (", %d" % r.randint(-9, 14) if w == "*" else "") + (", %d" % r.randint(0, 9) if p == ".*" else "")
            v = {"s": '"%s"' % r.choice(WORDS), "c": "'%s'" % r.choice("abc#?")}.get(cv) or (
                str(r.choice([0, 1, -1, 32767, -32767, r.randint(-32767, 32767)])) if cv in "di" else "%du" % r.choice([0, 1, 65535, 32768, r.randint(0, 65535)]))
            o.append('mix(printf("[%%%s%s%s%s]\\n"%s, %s));' % (fl, w, p, cv, ar, v))
        o.append('{ char b[30]; mix(snprintf(b, %d, "%%d-%%s", %d, "%s")); puts(b); }' % (r.choice([1, 3, 10, 30]), r.randint(-999, 999), r.choice(WORDS)))
        self.unit("void e%d(void) { %s\n rep(\"fmt\", 0, 0); }\n" % (n, "\n  ".join(o)))

    def e_stack(self, n):
        """Deep recursion with large frames."""
        r = self.r
        sz, dp = r.choice([(10, 60), (300, 15), (2000, 3), (5000, 1)] if not self.wide else [(3000, 2), (5000, 1), (20, 100)])
        self.unit(r"""static int big%(n)d(int d, unsigned char *up) { unsigned char a[%(sz)d]; int i, s = 0; for (i = 0; i < %(sz)d; i++) a[i] = i + d; if (up) s = up[%(sz)d - 1];
  if (d > 0) s = (s + big%(n)d(d - 1, a)) %% 10000; for (i = 0; i < %(sz)d; i++) if (a[i] != ((i + d) & 255)) return -1; return s + a[%(sz)d / 2]; }
void e%(n)d(void) { rep("stack", big%(n)d(%(dp)d, NULL), %(sz)d); }
""" % dict(n=n, sz=sz, dp=dp))

    def e_init(self, n):
        r = self.r
        self.unit(r"""static int z%(n)d[%(zn)d]; int cm%(n)d; static char *nm%(n)d[%(k)d] = { %(w)s }; static struct { int a; char b[8]; short c[3]; char *p; } st%(n)d[] = { %(st)s };
static unsigned char tb%(n)d[%(tn)d] = { %(tb)s }; int *ip%(n)d = &z%(n)d[%(zn)d - 1];
static int next%(n)d(void) { static int c = %(c)d; static char b[%(bl)d]; b[0]++; return c += b[0]; }
void e%(n)d(void) { int i, j; for (i = 0; i < %(zn)d; i++) if (z%(n)d[i]) rep("ZERO", i, z%(n)d[i]); mix(cm%(n)d); for (i = 0; i < %(k)d; i++) if (nm%(n)d[i]) mixs(nm%(n)d[i]); else mix(-1);
  for (i = 0; i < (int)(sizeof st%(n)d / sizeof *st%(n)d); i++) { mix(st%(n)d[i].a); mixs(st%(n)d[i].b); for (j = 0; j < 3; j++) mix(st%(n)d[i].c[j]); mix(st%(n)d[i].p ? *st%(n)d[i].p : -5); }
  for (i = 0; i < %(tn)d; i++) mix(tb%(n)d[i]); *ip%(n)d = 3; mix(z%(n)d[%(zn)d - 1]); next%(n)d(); { int la[5] = { %(la)s }; char lb[12] = "%(lb)s"; for (i = 0; i < 5; i++) mix(la[i]); for (i = 0; i < 12; i++) mix(lb[i]); }
  rep("init", next%(n)d(), (int)(sizeof st%(n)d / sizeof *st%(n)d)); }
""" % dict(n=n, zn=r.choice([1, 10, 700]), k=r.randint(3, 6), w=", ".join(r.choice(["0", '"%s"' % r.choice(WORDS)]) for _ in range(3)),
           st=", ".join('{ %d, "%s", { %s }, %s }' % (r.randint(-9999, 9999), r.choice([w for w in WORDS if len(w) < 8]), ", ".join(str(r.randint(-99, 999)) for _ in range(r.randint(1, 3))),
                                                  r.choice(["0", '"x"', "(char *)tb%d" % n if 0 else '"%s"' % r.choice(WORDS)])) for _ in range(r.randint(1, 4))),
           tn=r.randint(4, 30), tb=", ".join(str(r.randint(0, 255)) for _ in range(r.randint(1, 4))), c=r.randint(-99, 99), bl=r.choice([1, 2, 900]),
           la=", ".join(str(r.randint(-999, 999)) for _ in range(r.randint(1, 5))), lb=r.choice([w for w in WORDS if len(w) < 12])))

    def e_in(self, n):
        """Standard input, read to its end."""
        r = self.r
        if self.stdin is not None:
            return self.e_calc(n)
        k = r.randrange(4)
        if k == 2:
            s = "\n".join(" ".join(str(r.randint(-9999, 9999)) for _ in range(r.randint(1, 5))) for _ in range(r.choice([1, 5, 60]))) + r.choice(["", "\n"])
        else:
            s = "".join("".join(r.choice("abcdefghij XYZ0189.,-") for _ in range(r.choice([0, 1, 8, 30, 78]))) + "\n" for _ in range(r.choice([1, 3, 10, 80]))) + r.choice(["", "last"])
        self.stdin = s
        self.unit(r"""void e%(n)d(void) { int c, k = 0, s = 0, v; char l[%(sz)d];
  %(b)s
  mix(feof(stdin) != 0); mix(ferror(stdin) != 0); c = getchar(); rep("in", k, c == EOF); mix(s); }
""" % dict(n=n, sz=r.choice([10, 64, 100]), b=["while ((c = getchar()) != EOF) { mix(c); k++; }", "while (fgets(l, sizeof l, stdin)) { mixs(l); k++; if (k < 4) printf(\"<%s>\", l); }",
                                              "while (scanf(\"%d\", &v) == 1) { mix(v); k++; s = (s + v) % 10000; }", "while ((v = (int)fread(l, 1, sizeof l, stdin)) > 0) { for (c = 0; c < v; c++) mix(l[c]); k += v; }"][k]))
        self.cov["stdin_read"] = 1

    def e_wide(self, n):
        """32-bit ints, long, float."""
        r = self.r
        self.unit(r"""static float fm%(n)d[%(N)d]; static float poly%(n)d(float x, int k) { return k ? fm%(n)d[k] + x * poly%(n)d(x, k - 1) : fm%(n)d[0]; }
void e%(n)d(void) { unsigned long a = %(a)dul, b = %(b)dul; long c = -%(c)dl; int i; float f = %(f)s, g;
  for (i = 0; i < %(N)d; i++) fm%(n)d[i] = (float)(rnd(2000) - 1000) / %(dv)s;
  for (i = 0; i < 30; i++) { a = (a * 1103515245ul + 12345ul) & 0xFFFFFFFFul; b ^= a >> (i & 15); c = (c / 3 + i * 1000l) %% 1000000l; printf("%%lu %%lx %%ld\n", a, b, c); g = f; if (g < 100 && g > -100) f = f * %(m)s + (float)i; }
  g = (float)((int)(f * 8.0f)) / 8.0f; printf("%%d %%.3f %%g\n", (int)g, g, (float)(b & 0xFFFFFF)); printf("%%e %%.2f\n", (float)poly%(n)d(0.5f, %(N)d - 1), fm%(n)d[0]);
  rep("wide", (int)(a >> 20), sizeof(long) >= 4); }
""" % dict(n=n, N=r.randint(2, 9), a=r.randint(0, 2**32 - 1), b=r.randint(0, 2**32 - 1), c=r.randint(0, 2**31 - 1), f=r.choice(["1.5f", "0.0f", "-2.25f", "1e-3f"]), dv=r.choice(["8", "16.0f", "1024"]), m=r.choice(["0.5f", "2.0f", "-0.25f"])))

    EPS = ["calc", "calc", "sort", "text", "tree", "heap", "file", "file", "var", "struct", "jump", "switch", "ptr", "fmt", "stack", "init", "in"]

    def program(self):
        r = self.r
        seed = r.randint(0, 65535)
        order = []
        for i in range(r.randint(2, 5) if self.small else r.randint(5, 11)):
            e = r.choice(self.EPS + (["wide"] * 3 if self.wide else []))
            getattr(self, "e_" + e)(i)
            order.append(i)
            self.cov["episodes"] = self.cov.get("episodes", 0) + 1
        rs = list(order)
        for i in order:
            if r.random() < .12:
                rs.append(i)
        # (an episode that reads standard input a second time finds its end)
        self.status = r.choice([0, 0, 1, 3, 42, 100, 255])
        how = r.choice(["return %d;" % self.status, "exit(%d);" % self.status, "exit(%d);" % self.status])
        if r.random() < .5:
            self.args = ["".join(r.choice("abcXYZ0123456789._-") for _ in range(r.randint(1, 9))) for _ in range(r.randint(1, 5))]
        h = r.randint(0, 3)
        ats = "".join("static void at%d(void) { rep(\"atexit\", %d, 0); }\n" % (i, i) for i in range(h))
        main = "int main(int argc, char **argv) {\n  int i;\n%s  for (i = 1; i < argc; i++) { printf(\"arg %%d [%%s]\\n\", i, argv[i]); mixs(argv[i]); }\n  mix(argv[argc] == NULL);\n%s  fflush(stdout);\n  rep(\"end\", %d, argc);\n  %s\n}\n" % (
            "".join("  atexit(at%d);\n" % i for i in range(h)), "".join("  e%d();\n" % i for i in rs), self.status, how)
        protos = "".join("void e%d(void);\n" % i for i in order)
        a = PRE + HEAD + protos + (HELP % seed) + "\n".join(self.units[0]) + ats + main
        files = {"m.c": a}
        if self.units[1]:
            files["n.c"] = PRE + HEAD + "\n".join(self.units[1])
        return files
