/* Reference for the math check: generates arguments, judges results with quadruple precision.
   mathref gen SEED OP N          records { op, a, b }
   mathref judge RECS RESULTS EXTRA   results { r, r2, errno }; EXTRA: ulps allowed on top; prints "op key a b r r2 errno what" and statistics */
#include <quadmath.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
typedef __float128 Q;
typedef uint32_t u32;
enum { FREXP, LDEXP, MODF, FMOD, FABS, CEIL, FLOOR, ROUND, TRUNC, SQRT, HYPOT, EXP, EXP2, EXPM1, POW, LOG, LOG2, LOG10, SIN, COS, TAN, ATAN2, ATAN, ACOS, ASIN, COSH, SINH, TANH, TEXT, NOPS };
static const char *names[] = { "frexp", "ldexp", "modf", "fmod", "fabs", "ceil", "floor", "round", "trunc", "sqrt", "hypot", "exp", "exp2", "expm1", "pow", "log", "log2", "log10", "sin", "cos", "tan", "atan2", "atan", "acos", "asin", "cosh", "sinh", "tanh", "text" };
static float F(u32 u) { float f; memcpy(&f, &u, 4); return f; }
static u32 U(float f) { u32 u; memcpy(&u, &f, 4); return u; }
static uint64_t s;
static u32 rnd(void) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (s * 0x2545F4914F6CDD1DULL) >> 32; }
static const u32 special[] = { 0, 0x80000000, 1, 0x80000001, 0x7fffff, 0x807fffff, 0x800000, 0x80800000, 0x3f800000, 0xbf800000, 0x7f7fffff, 0xff7fffff, 0x7f800000, 0xff800000, 0x7fc00000, 0xffc00000, 0x7f800001,
  0x3f000000, 0xbf000000, 0x3f7fffff, 0xbf7fffff, 0x3f800001, 0xbf800001, 0x40000000, 0xc0000000, 0x40400000, 0xc0400000, 0x40200000, 0xc0200000, 0x3fc00000, 0xbfc00000, 0x3effffff, 0xbeffffff, 0x4b000000, 0xcb000000, 0x4affffff, 0xcaffffff, 0x4b000001, 0x4b800000, 0x4b800001, 0x4b7fffff, 0xcb7fffff,
  0x4f000000, 0xcf000000, 0x4f800000, 0x4effffff, 0x40490fdb, 0x3fc90fdb, 0xbfc90fdb, 0x3f490fdb, 0x42b17218, 0x42b17217, 0x42b17219, 0xc2aeac50, 0xc2cff1b5, 0xc2cff1b4, 0x42fe0000, 0x43000000, 0x42ffffff, 0xc3150000, 0xc3160000, 0xc3158000, 0x42b2d4fc, 0x42b2d4fd, 0x5f000000, 0x5effffff, 0xdf000000, 0x5f000001, 0x41a00000, 0xc1a00000, 0x3e800000, 0x34000000, 0x33800000, 0x33000000 };
#define NS (sizeof special / sizeof *special)
static u32 fl(int op) {
  u32 k = rnd() % 100, v;
  if (k < 12) return special[rnd() % NS];
  if (k < 18) return special[rnd() % NS] + rnd() % 9 - 4;
  if (k < 30) return rnd();
  if (k < 40) { v = (u32)U((float)((int)(rnd() % 2001) - 1000) / (1 << rnd() % 4)); return v; }
  if (k < 45) return U((float)(int)rnd());
  if (k < 50) { v = rnd() % 24; return (rnd() & 0x80000000) | (127 + v) << 23 | (rnd() & 0x7fffff & ~((1u << (23 - v)) - 1)) | (rnd() & 1) << (22 - v > 22 ? 0 : 22 - v); }
  if (k < 53) return (rnd() & 0x80000000) | rnd() >> (9 + rnd() % 23);
  switch (op) {
  case EXP: case EXP2: case EXPM1: case COSH: case SINH: return U(((float)(int)rnd() / 2147483648.f) * (k < 70 ? 160 : k < 85 ? 30 : 2));
  case TANH: return U(((float)(int)rnd() / 2147483648.f) * (k < 80 ? 12 : 1.5));
  case ASIN: case ACOS: return U((float)(int)rnd() / 2147483648.f);
  case SIN: case COS: case TAN: if (k < 75) return U(((float)(int)rnd() / 2147483648.f) * (k < 65 ? 10 : 10000)); v = rnd() % 20000; return U((float)(v * 1.57079632679489661923)) + rnd() % 3 - 1;
  case LOG: case LOG2: case LOG10: if (k < 65) return U(1 + (float)(int)rnd() / 2147483648.f / (1 << rnd() % 22)); return rnd() & 0x7fffffff;
  default: return (rnd() & 0x807fffff) | (127 - 24 + rnd() % 49) << 23;
  }
}
static u32 rec[3 * 4096], res[3 * 4096];
static int isnanu(u32 u) { return (u & 0x7fffffff) > 0x7f800000; }
static int isinfu(u32 u) { return (u & 0x7fffffff) == 0x7f800000; }
static Q ulpq(Q v) { int e; v = fabsq(v); if (v == 0) return ldexpq(1, -149); frexpq(v, &e); e -= 24; if (e < -149) e = -149; if (e > 104) e = 104; return ldexpq(1, e); }
static double maxu[NOPS]; static long cnt[NOPS], spec[NOPS], edom[NOPS], erng[NOPS], over[NOPS], under[NOPS]; static double extra;
static long nbad;
static void bad(u32 *q, u32 *r, const char *key, const char *fmt, ...) {
  static struct { const char *k; int op, n; } seen[400]; int i;
  nbad++;
  for (i = 0; i < 399 && seen[i].k && (seen[i].op != q[0] % 64 || strcmp(seen[i].k, key)); i++);
  seen[i].k = key; seen[i].op = q[0] % 64;
  if (seen[i].n++ < 5) printf("BAD %s %s a=%08x (%.9g) b=%08x (%.9g) r=%08x (%.9g) r2=%08x errno=%u%s%s\n", names[q[0] & 63], key, q[1], F(q[1]), q[2], F(q[2]), r[0], F(r[0]), r[1], r[2], q[0] & 64 ? " (double)" : "", fmt);
}
static void judge(u32 *q, u32 *r) {
  int op = q[0] & 63, e = 0, nan, two = op == FMOD || op == HYPOT || op == POW || op == ATAN2;
  float a = F(q[1]), b = F(q[2]), ip, ex; Q t, d; char buf[100];
  Q A = a, B = b;
  double lim = 1, z, y;
  int exact = 0, dom = 0, pole = 0; float want = 0;
  nan = isnanu(q[1]) || (two && isnanu(q[2]));
  if (extra > 0) {
    /* DOSBox: its FPU keeps doubles, takes NaNs for equal to anything, rounds to integers through 64-bit integers and makes +0 of -0 */
    float m = fabsf(a); double z = POW == op && a > 0 ? b * log2(a) : 0;
    if (nan || isnan(a)) return;
    if (op == MODF || op >= CEIL && op <= TRUNC) { if (m >= 0x1p62f || a <= 0 && a > -1) return; }
    if (op == EXP || op == EXP2) { if (a > -1.01 && a <= 0) return; }
    if (op == EXPM1 || op == SINH || op == TANH) { if (m < .01 && a != 0) return; if (op == EXPM1 && a < 0 && a > -1.01) return; }
    if (op == COSH && m < 2) return;
    if (op == POW) { if (fabsf(b) >= 0x1p60f || a < 0 && isinf(b)) return; z = b * log2(fabsf(a)); if (z > -1.1 && z <= 0) return; }
    if (op == FMOD && !(fabs((double)a / b) < 0x1p28) && b != 0 && !isinf(a)) return;
    if (op == FMOD && b != 0 && fmodf(a, b) == 0 || (op == LDEXP || op == FMOD) && (a == 0 || isinf(a) || isinf(b))) return;
  }
  cnt[op]++;
  switch (op) {
  case FREXP: exact = 1; want = isnan(a) || isinf(a) ? a : frexpf(a, &e); if (isnan(a) || isinf(a)) e = (int)r[1];
    if ((int)r[1] != e) bad(q, r, "exponent", ""); break;
  case LDEXP: exact = 1; want = ldexpf(a, (int)q[2] > 100000 ? 100000 : (int)q[2] < -100000 ? -100000 : (int)q[2]); break;
  case MODF: exact = 1; want = modff(a, &ip); if (r[1] != U(ip) && !(isnan(ip) && isnanu(r[1]))) bad(q, r, "integer-part", ""); break;
  case FMOD: exact = 1; want = fmodf(a, b); dom = !nan && (isinf(a) || b == 0); break;
  case FABS: exact = 1; want = fabsf(a); break;
  case CEIL: exact = 1; want = ceilf(a); break;
  case FLOOR: exact = 1; want = floorf(a); break;
  case ROUND: exact = 1; want = roundf(a); break;
  case TRUNC: exact = 1; want = truncf(a); break;
  case SQRT: exact = 1; want = sqrtf(a); dom = a < 0; break;
  case TEXT: exact = 1; want = a; if (r[1]) bad(q, r, "end", ""); break;
  case HYPOT: t = hypotq(A, B); break;
  case EXP: t = expq(A); lim = 1.5 + 1.1 * fabs(a * 1.4427); break;
  case EXP2: t = exp2q(A); lim = 1.5; break;
  case EXPM1: t = expm1q(A); lim = 4 + 1.5 * fabs(a * 1.4427); break;
  case POW: t = powq(A, B); dom = !nan && a < 0 && !isinf(a) && !isinf(b) && b != truncf(b); pole = a == 0 && b < 0 && !isinf(b);
    lim = 1.5; if (a != 0 && !isinf(a) && !isinf(b) && !nan) { z = fabs((double)(B * log2q(fabsq(A)))); if (z > 200) z = 200; lim += 1.45 * z; } break;
  case LOG: t = logq(A); dom = a < 0; pole = a == 0; break;
  case LOG2: t = log2q(A); dom = a < 0; pole = a == 0; break;
  case LOG10: t = log10q(A); dom = a < 0; pole = a == 0; break;
  case SIN: t = sinq(A); dom = isinf(a); break;
  case COS: t = cosq(A); dom = isinf(a); break;
  case TAN: t = tanq(A); dom = isinf(a); break;
  case ATAN2: t = atan2q(A, B); break;
  case ATAN: t = atanq(A); break;
  case ACOS: t = acosq(A); dom = fabsf(a) > 1; break;
  case ASIN: t = asinq(A); dom = fabsf(a) > 1; break;
  case COSH: t = coshq(A); lim = 4 + 1.9 * fabs(a * 1.4427); break;
  case SINH: t = sinhq(A); lim = 6 + 1.9 * fabs(a * 1.4427); break;
  case TANH: t = tanhq(A); lim = 10; break;
  }
  /* errno */
  if (!nan) {
    int fin = !isinf(a) && (!two || !isinf(b)), of;
    if (exact) of = op == LDEXP && !isinf(a) && isinf(want); else of = fin && !dom && !pole && fabsq(t) > (Q)0x1.ffffffp127;
    if (dom) { edom[op]++; if (r[2] != 1) bad(q, r, "errno-domain", ""); }
    else if (pole) { erng[op]++; if (r[2] != 2) bad(q, r, "errno-pole", ""); }
    else if (of) { over[op]++; if (r[2] != 2 && (exact || fabsq(t) > (Q)0x1.ffffffp127 * (1 + lim * 0x1p-23))) bad(q, r, "errno-overflow", ""); }
    else if (r[2] && !(r[2] == 2 && (exact ? op == LDEXP && fabsf(want) < 0x1p-125f : fabsq(t) < (Q)0x1p-125 || fabsq(t) > (Q)0x1.fffffep127 * (1 - lim * 0x1p-22)))) bad(q, r, "errno-set", "");
  }
  if (exact) {
    if (isnan(want)) { spec[op]++; if (!isnanu(r[0])) bad(q, r, "not-nan", ""); }
    else if (U(want) != r[0]) { snprintf(buf, sizeof buf, " expected %08x (%.9g)", U(want), want); bad(q, r, "value", buf); }
    return;
  }
  if (isnanq(t)) { spec[op]++; if (!isnanu(r[0])) bad(q, r, "not-nan", ""); return; }
  if (isnanu(r[0])) { snprintf(buf, sizeof buf, " expected %.9g", (double)t); bad(q, r, "nan", buf); return; }
  if (isinfq(t) || t == 0) {
    spec[op]++;
    /* hugely over- or underflowing is not infinite */
    if (U((float)t) != r[0]) { snprintf(buf, sizeof buf, " expected %.9g", (double)t); bad(q, r, "special", buf); }
    return;
  }
  if (op == SIN || op == COS || op == TAN) {
    Q red = fabsq(A) * (fabsf(a) >= 0x1p63f ? ldexpq(1, -62) : ldexpq(1, -65));
    if (op == TAN) red *= 1 + t * t;
    if (fabsf(a) >= 0x1p60f || red > 0.05Q || (op == TAN && red > fabsq(t) * 0.01Q)) {
      under[op]++;
      if (op != TAN && fabsf(F(r[0])) > 1) bad(q, r, "beyond-1", "");
      return;
    }
    lim += (double)(red / ulpq(t));
  }
  d = isinfu(r[0]) ? ldexpq(r[0] >> 31 ? -1 : 1, 128) : (Q)F(r[0]);
  if ((Q)fabsq(t) > ldexpq(1, 128)) t = ldexpq(t < 0 ? -1 : 1, 128);
  if (fabsq(t) < ldexpq(1, -126)) under[op]++;
  /* the sign is right even if the result is nothing */
  if ((r[0] >> 31) != (t < 0) && !((op == SIN || op == COS || op == TAN) && fabsq(t) < fabsq(A) * ldexpq(1, -64))) bad(q, r, "sign", "");
  y = (double)(fabsq(d - t) / ulpq(t));
  z = y / (lim + extra);
  if (z > maxu[op]) maxu[op] = z;
  if (y > lim + extra) { snprintf(buf, sizeof buf, " expected %.9g, off by %.2f ulp (limit %.2f)", (double)t, y, lim); bad(q, r, "accuracy", buf); }
}
static uint64_t *hs; static long nh;
static int cmp(const void *a, const void *b) { uint64_t x = *(uint64_t*)a, y = *(uint64_t*)b; return x < y ? -1 : x > y; }
int main(int c, char **v) {
  long n, i; int j;
  if (c > 4 && !strcmp(v[1], "gen")) {
    int op = atoi(v[3]);
    s = strtoull(v[2], 0, 0) * 0x9E3779B97F4A7C15ULL + op * 77777 + 12345; for (i = 0; i < 20; i++) rnd();
    n = atol(v[4]);
    for (i = 0; i < n; i++) {
      u32 q[3]; q[0] = op | (rnd() & 64); q[1] = fl(op); q[2] = fl(op);
      if (op == LDEXP) { u32 k = rnd() % 10; q[2] = k < 5 ? rnd() % 320 - 160 : k < 7 ? 280 + rnd() % 30 : k < 9 ? -(280 + (int)(rnd() % 30)) : k == 9 ? (rnd() & 1 ? rnd() : rnd() & 1 ? 0x7fffffff : 0x80000000) : 0; }
      if (op == POW && rnd() % 2) {
        /* whole powers; pairs whose result is in range */
        if (rnd() % 2) q[2] = U((float)((int)(rnd() % 41) - 20));
        else { float x = F(q[1] & 0x7fffffff); double l = x > 0 && x < INFINITY ? log2(x) : 1; double z = (double)(int)rnd() / 2147483648.0 * 150; if (l != 0) q[2] = U((float)(z / l)); }
      }
      if (op == FMOD && rnd() % 3 == 0 && !isnanu(q[2])) { float m = F(q[2]) * (float)(int)(rnd() % 2000 - 1000); q[1] = U(m) + rnd() % 3 - 1; }
      fwrite(q, 4, 3, stdout);
    }
    return 0;
  }
  if (c > 4 && !strcmp(v[1], "judge")) {
    FILE *f = fopen(v[2], "rb"), *g = fopen(v[3], "rb");
    extra = atof(v[4]);
    while ((n = fread(rec, 12, 4096, f)) > 0) {
      if (fread(res, 12, n, g) != n) { printf("SHORT\n"); return 0; }
      hs = realloc(hs, (nh + n) * 8);
      for (i = 0; i < n; i++) judge(rec + 3 * i, res + 3 * i), hs[nh++] = ((uint64_t)rec[3 * i] << 56) ^ ((uint64_t)rec[3 * i + 1] << 32 | rec[3 * i + 2]) * 0x9E3779B97F4A7C15ULL;
    }
    if (fread(res, 1, 1, g)) printf("LONG\n");
    for (j = 0; j < NOPS; j++) if (cnt[j]) printf("STAT %s %ld %.3f %ld %ld %ld %ld %ld\n", names[j], cnt[j], maxu[j], spec[j], edom[j], erng[j], over[j], under[j]);
    qsort(hs, nh, 8, cmp);
    for (i = n = 0; i < nh; i++) n += !i || hs[i] != hs[i - 1];
    printf("DISTINCT %ld\n", n);
    printf("NBAD %ld\n", nbad);
    return 0;
  }
  return 2;
}
