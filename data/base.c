struct S { int m; char n[3]; struct S *next; float g; int (*h)(int); };
struct T { char x; int y; };
union U { int a; char b; };
struct I;
enum E { EA, EB = 5, EC };
typedef int INT;
typedef struct S SS, *SP;
typedef int (*FP)(int, char *);
typedef char ARR[4];
int i, j; unsigned u; char c; short s; float f;
extern int ext; static int sta = 3;
int *p, *q; char *cp = "hello"; float *fp; void *vp; int **pp; struct S *sp; struct I *ip;
int a[4] = { 1, 2, 3 }; int a2[2][3] = { { 1, 2 }, { 3, 4, 5 } }; struct S st = { 1, "ab", 0, 1.5f, 0 }; struct T tt; union U un = { 3 };
char str[] = "abc", str2[6] = { 'a', 'b', 0 }; INT i2 = sizeof(struct T) * 2; ARR arr; FP fpp; char *names[] = { "x", "y", 0 };
int f0(void); int f1(int); int f2(int, char *); void vf(int x); int vfn(int n, ...); struct S sf(int); float ff(float); int *pf(void);
int (*fptr)(int); void (*vfp)(int); int (*tab[2])(int) = { f1, 0 };
static int loc(int x, char *y) { return x + *y; }
int f1(int x)
{
  int k = x, n[3], *r = &k;
  static int calls = 0;
  register unsigned z;
  struct T lt;
  for (k = 0; k < 10; k++) {
    if (k & 1) continue;
    else if (k == 6) break;
    a[k % 4] += k * 3;
  }
  while (k > 0) k--;
  do { k += 2; n[k % 3] = k; } while (k < 5);
  switch (k) {
  case 1: k = 2; break;
  case EB + 3:
  case 'x': { int w = 2; k += w; } break;
  default: k = 0;
  }
  lt.y = k; lt.x = 'c';
  goto end;
again:
  k = sp->next->m + st.n[1] - (*sp).m;
end:
  if (!k) goto again;
  z = k ? x : -x;
  return *r + (int)z + calls++ + lt.y + n[0];
}
int f2(int x, char *y)
{
  INT t = sizeof x + sizeof(int *) + sizeof(struct S), v = ~x;
  extern int ext;
  enum L { LA = 1, LB } e = LB;
  t = (x << 2) | (v >> 1) ^ (t & 0x7f);
  t *= 2, v -= t; t /= 3; t %= 7; v <<= 1; v >>= 2; v &= 5; v |= 8; v ^= 1;
  p = &a[1] + 1; q = a2[1]; i = p - q; pp = &p; **pp = 5; cp = (char *)p; vp = p; p = vp;
  i = f1(loc(3, "ab" "cd")) + fptr(2) + (*fptr)(3) + tab[1](4); vf(i); (void)f0();
  st = sf(3); sp = &st; *sp = st; i = sf(2).m; f = ff(f * 2.0f) + i; i = (int)f; i = f < 1.5 && f > i || !f;
  i = x == 1 ? 2 : x != 3 ? 4 : 5; i = (1, 2); i = p == 0 && p != q && p < q || vp == p;
  vfn(1, 2, "a", f); i = 'a' + L'b' + '\n' + '\x41' + 017 + 0xfF + 10u + 3L; un.b = e; st.h = f1; st.h(1);
  { int x = 3; y[x] = x; --x; ++x; } ;
  return t + (y != 0) + ext;
}
struct S sf(int x) { struct S r; r.m = x; return r; }
float ff(float x) { return x * 2 + 1; }
void vf(int x) { if (x) return; i = x; }
int main(void) { struct I *z; z = ip; return f1(3) + (z != 0); }
