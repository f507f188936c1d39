/* osrun program args...
   Runs a 32-bit Windows (PE) or macOS (Mach-O) program of ours on Linux, as a hostile but conforming system would:
   - segments and sections are mapped where the headers say, with the protection they say, everything else unmapped;
   - Windows: the imports of kernel32 and msvcrt get stand-ins.  They are stdcall, change ecx, edx and the flags, report
     failures through GetLastError, hand out handles that are never reused, put canaries around heap blocks and fill
     them (new: 0xBA, freed: 0xDD), always move a reallocated block, honour sharing, commit the stack page by page
     through a guard page and call the unhandled-exception filter on a fault;
   - macOS: int 0x80 is caught by a seccomp filter (it looks at where the instruction is) and does what the BSD call of
     that number does; ecx, edx and the flags are changed.
   Exit status: the program's; 120..126 and a line "osrun: ..." on stderr when the program breaks a rule of the system
   (damaged heap, freed twice, call through an import that does not exist, ...), 127 when osrun itself fails.
   Built with -m32 -ffreestanding -nostdlib -static, linked at 0x70000000.  OSRUN_TZ=minutes: offset of the local time. */
typedef unsigned u32;
typedef unsigned char u8;
typedef unsigned short u16;
typedef unsigned long long u64;
#define NULL ((void *)0)
#define STD __attribute__((stdcall))
#define NOINL __attribute__((noinline))

static int sys6(int n, u32 a, u32 b, u32 c, u32 d, u32 e, u32 f)
{
  int r;
  u32 args[2];
  args[0] = f;
  args[1] = n;
  __asm__ volatile("pushl %%ebp\n pushl %%ebx\n movl 4(%%eax),%%ebx\n pushl %%ebx\n movl (%%eax),%%ebp\n popl %%eax\n popl %%ebx\n"
                   "int $0x80\n popl %%ebp" : "=a"(r) : "0"(args), "b"(a), "c"(b), "d"(c), "S"(d), "D"(e) : "memory");
  return r;
}
#define S0(n) sys6(n, 0, 0, 0, 0, 0, 0)
#define S1(n, a) sys6(n, (u32)(a), 0, 0, 0, 0, 0)
#define S2(n, a, b) sys6(n, (u32)(a), (u32)(b), 0, 0, 0, 0)
#define S3(n, a, b, c) sys6(n, (u32)(a), (u32)(b), (u32)(c), 0, 0, 0)
#define S4(n, a, b, c, d) sys6(n, (u32)(a), (u32)(b), (u32)(c), (u32)(d), 0, 0)
#define S6(n, a, b, c, d, e, f) sys6(n, (u32)(a), (u32)(b), (u32)(c), (u32)(d), (u32)(e), (u32)(f))
enum { N_fork = 2, N_read, N_write, N_open, N_close, N_waitpid, N_unlink = 10, N_execve, N_lseek = 19, N_getpid, N_access = 33, N_rename = 38,
       N_ioctl = 54, N_gettimeofday = 78, N_mprotect = 125, N_prctl = 172, N_rt_sigreturn = 173, N_rt_sigaction = 174, N_sigaltstack = 186,
       N_mmap2 = 192, N_fstat64 = 197, N_stat64 = 195, N_exit_group = 252, N_clock_gettime = 265, N_seccomp = 354 };

void *memset(void *d, int c, u32 n) { u8 *p = d; while (n--) *p++ = c; return d; }
void *memcpy(void *d, const void *s, u32 n) { u8 *p = d; const u8 *q = s; while (n--) *p++ = *q++; return d; }
static u32 len(const char *s) { u32 n = 0; while (s[n]) n++; return n; }
static int same(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return *a == *b; }
static int up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static void say(const char *s) { S3(N_write, 2, s, len(s)); }
static void hex(u32 v) { char b[11]; int i; b[0] = '0'; b[1] = 'x'; for (i = 0; i < 8; i++) b[2 + i] = "0123456789abcdef"[v >> (28 - 4 * i) & 15]; b[10] = 0; say(b); }
static void quit(int st) { for (;;) S1(N_exit_group, st); }
static void broke(int st, const char *s, u32 v) { say("osrun: "); say(s); say(" "); hex(v); say("\n"); quit(st); }
static u32 ncalls, nheap, nstk, nexc;
static char **envp;
static char *envget(const char *n)
{
  char **e;
  for (e = envp; *e; e++)
  {
    const char *a = *e, *b = n;
    while (*b && up(*a) == up(*b)) a++, b++;
    if (!*b && *a == '=') return (char *)a + 1;
  }
  return NULL;
}
static void *map(u32 at, u32 n, int prot)
{
  int r = S6(N_mmap2, at, n, prot, 0x02 | 0x20 | 0x4000 | (at ? 0x100010 : 0), -1, 0);   /* private anonymous noreserve fixed(_noreplace) */
  if ((u32)r > 0xfffff000u || (at && r != (int)at)) broke(127, "cannot map", at);
  return (void *)r;
}

/* --- reports ------------------------------------------------------------------------------------------------------ */
static void stats(void)
{
  char *f = envget("OSRUN_STATS");
  u32 v[4];
  int fd;
  if (!f) return;
  v[0] = ncalls; v[1] = nheap; v[2] = nstk; v[3] = nexc;
  fd = S3(N_open, f, 02001 | 0100, 0644);
  if (fd >= 0) { S3(N_write, fd, v, 16); S1(N_close, fd); }
}

/* --- the heap ----------------------------------------------------------------------------------------------------- */
#define ARENA 0x20000000u
#define ARENA_END 0x60000000u
#define BIG 0x38000000u
#define MAGIC 0x5afe5afeu
#define DEAD 0xdeadc0deu
typedef struct blk { u32 magic, size, cls, pad; struct blk *next, *prev; u8 fence[16]; } blk;
static u32 top = ARENA, lim = ARENA;
static blk *freel[32], *live;
static void checkblk(blk *b, const char *what)
{
  int i;
  if (b->magic == DEAD) broke(121, "block freed or reallocated twice", (u32)(b + 1));
  if (b->magic != MAGIC) broke(120, what, (u32)(b + 1));
  for (i = 0; i < 16; i++)
    if (b->fence[i] != 0xfa || ((u8 *)(b + 1))[b->size + i] != 0xfb) broke(120, "bytes around a heap block overwritten", (u32)(b + 1));
}
static void *hget(u32 n, int zero)
{
  u32 c = 4, need;
  blk *b;
  if (n > BIG) return NULL;
  need = n + sizeof(blk) + 16;
  while ((1u << c) < need) c++;
  if (c > 20)
  {
    need = (need + 0xfff) & ~0xfffu;
    c = 31;
    for (b = freel[31]; b; b = b->next) if (b->pad >= need) break;
    if (b)
    {
      if (b->prev) b->prev->next = b->next; else freel[31] = b->next;
      if (b->next) b->next->prev = b->prev;
      need = b->pad;
    }
  }
  else
  {
    need = 1u << c;
    if ((b = freel[c])) freel[c] = b->next;
  }
  if (!b)
  {
    if (need > ARENA_END - top) return NULL;
    b = (blk *)top;
    top += need;
    if (top > lim)
    {
      u32 e = (top + 0xfffff) & ~0xfffffu;
      if (S6(N_mmap2, lim, e - lim, 3, 0x02 | 0x20 | 0x4000 | 0x100010, -1, 0) != (int)lim) { top -= need; return NULL; }
      lim = e;
    }
    b->pad = need;
  }
  b->magic = MAGIC;
  b->size = n;
  b->cls = c;
  memset(b->fence, 0xfa, 16);
  memset(b + 1, zero ? 0 : 0xba, n > 0x100000 && !zero ? 0x100000 : n);
  memset((u8 *)(b + 1) + n, 0xfb, 16);
  b->next = live; b->prev = NULL;
  if (live) live->prev = b;
  live = b;
  nheap++;
  return b + 1;
}
static void hput(void *p)
{
  blk *b = (blk *)p - 1;
  if ((u32)p < ARENA + sizeof(blk) || (u32)p >= top) broke(122, "not a heap block", (u32)p);
  checkblk(b, "not a heap block");
  if (b->prev) b->prev->next = b->next; else live = b->next;
  if (b->next) b->next->prev = b->prev;
  b->magic = DEAD;
  memset(p, 0xdd, b->size > 0x100000 ? 0x100000 : b->size);
  b->next = freel[b->cls]; b->prev = NULL;
  if (b->cls == 31 && b->next) b->next->prev = b;
  freel[b->cls] = b;
}
static void leave(int st)
{
  blk *b;
  for (b = live; b; b = b->next) checkblk(b, "damaged heap block");
  stats();
  quit(st);
}

/* --- Windows: files ----------------------------------------------------------------------------------------------- */
struct st64 { u64 dev; u32 p0, ino32, mode, nlink, uid, gid; u64 rdev; u32 p1; u64 size; u32 rest[14]; };
typedef struct { int kind, fd, acc; u64 dev; u32 ino; int status; } hnd;     /* kind: 0 free, 1 file, 2 process, 3 thread, 4 closed */
static hnd H[4096];
static u32 nh = 9, lasterr = 0xabad1dea;
static u32 HV(u32 i) { return i * 4 + i % 4 * 0x100000; }
static hnd *hfind(u32 v)
{
  u32 i = (v & 0xfffff) / 4;
  if (i && i < nh && HV(i) == v && (H[i].kind == 1 || H[i].kind == 2 || H[i].kind == 3)) return &H[i];
  lasterr = 6;
  return NULL;
}
static u32 hnew(int kind, int fd)
{
  if (nh >= 4096) broke(127, "handles", nh);
  memset(&H[nh], 0, sizeof H[nh]);
  H[nh].kind = kind;
  H[nh].fd = fd;
  return HV(nh++);
}
static int werr(int e)
{
  switch (-e)
  {
  case 2: lasterr = 2; break;
  case 20: lasterr = 3; break;
  case 1: case 13: case 21: case 30: lasterr = 5; break;
  case 17: lasterr = 183; break;
  case 24: case 23: lasterr = 4; break;
  case 28: lasterr = 112; break;
  case 9: lasterr = 6; break;
  case 36: lasterr = 206; break;
  default: lasterr = 31; break;
  }
  return 0;
}
static char pbuf[2][4200];
static int badname;
static char *path(const char *n, int k)
{
  u32 i = 0;
  badname = 0;
  if (n[0] && n[1] == ':') n += 2;
  for (; n[i] && i < 4199; i++)
  {
    pbuf[k][i] = n[i] == '\\' ? '/' : n[i];
    if (n[i] == '"' || n[i] == '<' || n[i] == '>' || n[i] == '|' || n[i] == '*' || n[i] == '?' || n[i] == ':' || (u8)n[i] < 32) badname = 1;
  }
  pbuf[k][i] = 0;
  if (i > 259) badname = 2;
  return pbuf[k];
}
static int nameok(void)
{
  if (badname) lasterr = badname == 1 ? 123 : 206;
  return !badname;
}
static hnd *openedas(struct st64 *s)
{
  u32 i;
  for (i = 9; i < nh; i++) if (H[i].kind == 1 && H[i].dev == s->dev && H[i].ino == s->ino32) return &H[i];
  return NULL;
}
static STD int w_CloseHandle(u32 h)
{
  hnd *p = hfind(h);
  if (!p) return 0;
  if (p->kind == 1) S1(N_close, p->fd);
  p->kind = 4;
  return 1;
}
static STD u32 w_CreateFileA(char *name, u32 acc, u32 share, void *sec, u32 disp, u32 attr, u32 tmpl)
{
  struct st64 s;
  char *n = path(name, 0);
  int ex, fd, fl, created = 0;
  u32 h, i;
  (void)sec; (void)tmpl;
  if (!*n) { lasterr = 3; return -1; }
  if (!nameok()) return -1;
  if (disp < 1 || disp > 5 || (attr & ~0x1ffu)) { lasterr = 87; return -1; }
  ex = S2(N_stat64, n, &s);
  if (ex == 0 && (s.mode & 0170000) == 0040000) { lasterr = disp == 1 ? 80 : 5; return -1; }
  if (ex == 0 && disp == 1) { lasterr = 80; return -1; }
  if (ex && (disp == 3 || disp == 5)) { werr(ex); return -1; }
  if (n[len(n) - 1] == '/') { lasterr = 123; return -1; }
  if (disp == 5 && !(acc & 0x40000000)) { lasterr = 87; return -1; }
  if (ex == 0 && !(s.mode & 0200) && (disp == 2 || acc & 0x40000000)) { lasterr = 5; return -1; }
  if (ex == 0 && (s.mode & 0170000) == 0100000)
    for (i = 9; i < nh; i++)
      if (H[i].kind == 1 && H[i].dev == s.dev && H[i].ino == s.ino32 && ((acc & 0x40000000 && !(share & 2)) || (H[i].acc & 1) || (acc & 0x40000000)
          || disp == 2 || disp == 5))
      { lasterr = 32; return -1; }
  fl = (acc & 0xc0000000) == 0xc0000000 ? 2 : acc & 0x40000000 ? 1 : 0;
  if (ex && (disp == 1 || disp == 2 || disp == 4))
  {
    fd = S3(N_open, n, 0100 | 0200 | 1, attr & 1 ? 0444 : 0644);
    if (fd < 0) { werr(fd); return -1; }
    S1(N_close, fd);
    created = 1;
  }
  if (created && attr & 1)           /* the attribute counts from the next opening on */
    { S2(15, n, 0644); fd = S3(N_open, n, fl, 0); S2(15, n, 0444); }
  else
    fd = S3(N_open, n, fl | ((disp == 2 || disp == 5) ? 01000 : 0), 0);
  if (fd < 0) { werr(fd); return -1; }
  if (ex == 0 && disp == 2 && attr & 1) S2(15, n, 0444);
  h = hnew(1, fd);
  S2(N_fstat64, fd, &s);
  H[nh - 1].acc = (acc & 0x40000000 ? 1 : 0) | (acc & 0x80000000 ? 2 : 0);
  H[nh - 1].dev = s.dev;
  H[nh - 1].ino = s.ino32;
  if (disp == 2 || disp == 4) lasterr = created ? 0 : 183;
  return h;
}
static STD int w_DeleteFileA(char *name)
{
  struct st64 s;
  char *n = path(name, 0);
  int r;
  if (!nameok()) return 0;
  r = S2(N_stat64, n, &s);
  if (r) return werr(r);
  if ((s.mode & 0170000) == 0040000 || !(s.mode & 0200)) { lasterr = 5; return 0; }
  if (openedas(&s)) { lasterr = 32; return 0; }
  r = S1(N_unlink, n);
  return r ? werr(r) : 1;
}
static STD int w_MoveFileA(char *a, char *b)
{
  struct st64 s, t;
  char *x = path(a, 0), *y;
  int r;
  if (!nameok()) return 0;
  y = path(b, 1);
  if (!nameok()) return 0;
  r = S2(N_stat64, x, &s);
  if (r) return werr(r);
  if (openedas(&s)) { lasterr = 32; return 0; }
  if (S2(N_stat64, y, &t) == 0 && t.ino32 != s.ino32) { lasterr = 183; return 0; }
  r = S2(N_rename, x, y);
  return r ? werr(r) : 1;
}
static STD int w_ReadFile(u32 h, void *buf, u32 n, u32 *got, void *ov)
{
  hnd *p = hfind(h);
  struct st64 s;
  int r;
  *got = 0;
  if (ov) broke(123, "overlapped reading of", h);
  if (!p) return 0;
  if (p->kind != 1) { lasterr = 6; return 0; }
  if (!(p->acc & 2)) { lasterr = 5; return 0; }
  r = S3(N_read, p->fd, buf, n);
  if (r < 0) { if (r == -14) lasterr = 998; else werr(r); return 0; }
  if (r == 0 && n && S2(N_fstat64, p->fd, &s) == 0 && (s.mode & 0170000) == 0010000) { lasterr = 109; return 0; }   /* the other end is closed */
  *got = r;
  return 1;
}
static STD int w_WriteFile(u32 h, void *buf, u32 n, u32 *put, void *ov)
{
  hnd *p = hfind(h);
  int r;
  u32 k = 0;
  *put = 0;
  if (ov) broke(123, "overlapped writing of", h);
  if (!p) return 0;
  if (p->kind != 1) { lasterr = 6; return 0; }
  if (!(p->acc & 1)) { lasterr = 5; return 0; }
  while (k < n)
  {
    r = S3(N_write, p->fd, (u8 *)buf + k, n - k);
    if (r < 0) { if (r == -14) lasterr = 998; else werr(r); return 0; }
    k += r;
    *put = k;
  }
  return 1;
}
static STD u32 w_SetFilePointer(u32 h, int lo, int *hi, u32 whence)
{
  hnd *p = hfind(h);
  int r;
  if (!p) return -1;
  if (p->kind != 1) { lasterr = 6; return -1; }
  if (hi) broke(123, "64-bit seek of", h);
  if (whence > 2) { lasterr = 87; return -1; }
  r = S3(N_lseek, p->fd, lo, whence);
  if (r < 0 && r > -4096) { if (r == -22) lasterr = 131; else if (r == -29) lasterr = 25; else werr(r); return -1; }
  return r;
}
static STD u32 w_GetFileAttributesA(char *name)
{
  struct st64 s;
  char *n = path(name, 0);
  int r;
  if (!nameok()) return -1;
  r = S2(N_stat64, n, &s);
  if (r) { werr(r); return -1; }
  return ((s.mode & 0170000) == 0040000 ? 0x10 : 0x20) | (s.mode & 0200 ? 0 : 1);
}
static STD u32 w_GetFileType(u32 h)
{
  hnd *p = hfind(h);
  struct st64 s;
  if (!p || p->kind != 1 || S2(N_fstat64, p->fd, &s)) return 0;
  s.mode &= 0170000;
  return s.mode == 0020000 ? 2 : s.mode == 0010000 || s.mode == 0140000 ? 3 : 1;
}
static STD u32 w_GetStdHandle(u32 w)
{
  w = -(int)w - 10;
  if (w > 2) { lasterr = 87; return -1; }
  return HV(w + 5);
}

/* --- Windows: the rest -------------------------------------------------------------------------------------------- */
static STD void w_ExitProcess(u32 st) { leave(st & 255); }
static STD u32 w_GetLastError(void) { return lasterr; }
static STD void w_SetLastError(u32 e) { lasterr = e; }
static char *cmdline;
static STD char *w_GetCommandLineA(void) { return cmdline; }
static STD u32 w_GetEnvironmentVariableA(char *n, char *buf, u32 size)
{
  char *v = envget(n);
  u32 l;
  if (!v) { lasterr = 203; return 0; }
  l = len(v);
  if (l + 1 > size) return l + 1;
  memcpy(buf, v, l + 1);
  return l;
}
#define HEAP 0x00d70000u
static STD u32 w_GetProcessHeap(void) { return HEAP; }
static STD void *w_HeapAlloc(u32 h, u32 fl, u32 n)
{
  if (h != HEAP) broke(122, "not a heap", h);
  if (fl & ~8u & ~1u) broke(122, "HeapAlloc flags", fl);
  return hget(n, fl & 8);
}
static STD int w_HeapFree(u32 h, u32 fl, void *p)
{
  if (h != HEAP) broke(122, "not a heap", h);
  (void)fl;
  if (p) hput(p);
  return 1;
}
static STD void *w_HeapReAlloc(u32 h, u32 fl, void *p, u32 n)
{
  u32 old;
  void *q;
  if (h != HEAP) broke(122, "not a heap", h);
  if (!p) broke(122, "HeapReAlloc of a null pointer", 0);
  if ((u32)p < ARENA + sizeof(blk) || (u32)p >= top) broke(122, "not a heap block", (u32)p);
  checkblk((blk *)p - 1, "not a heap block");
  old = ((blk *)p)[-1].size;
  if (!(q = hget(n, fl & 8))) return NULL;
  memcpy(q, p, old < n ? old : n);
  hput(p);
  return q;
}
static STD u32 w_GetTickCount(void)
{
  u32 t[2];
  S2(N_clock_gettime, 1, t);
  return t[0] * 1000 + t[1] / 1000000;
}
typedef struct { u16 y, mo, dw, d, h, mi, s, ms; } SYST;
static int leap(u32 y) { return y % 4 == 0 && (y % 100 || y % 400 == 0); }
static u32 mdays(u32 y, u32 m) { static const u8 t[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; return t[m - 1] + (m == 2 && leap(y)); }
static void fromdays(u32 days, SYST *t)           /* days from 1601-01-01, a Monday */
{
  u32 y = 1601, m = 1;
  t->dw = (days + 1) % 7;
  y += days / 146097 * 400; days %= 146097;
  while (days >= 365u + leap(y)) days -= 365 + leap(y), y++;
  while (days >= mdays(y, m)) days -= mdays(y, m), m++;
  t->y = y; t->mo = m; t->d = days + 1;
}
static u32 todays(SYST *t)
{
  u32 y = t->y - 1, n = y * 365 + y / 4 - y / 100 + y / 400 - (1600 * 365 + 400 - 16 + 4), m;
  for (m = 1; m < t->mo; m++) n += mdays(t->y, m);
  return n + t->d - 1;
}
static STD void w_GetSystemTime(SYST *t)
{
  u32 v[2];
  S2(N_clock_gettime, 0, v);
  fromdays(134774 + v[0] / 86400, t);
  v[0] %= 86400;
  t->h = v[0] / 3600; t->mi = v[0] / 60 % 60; t->s = v[0] % 60; t->ms = v[1] / 1000000;
}
static int tz;
static int shift(SYST *a, SYST *b, int by)
{
  u32 days;
  int min;
  if (a->y < 1601 || a->y > 30827 || a->mo < 1 || a->mo > 12 || a->d < 1 || a->d > mdays(a->y, a->mo) || a->h > 23 || a->mi > 59 || a->s > 59 || a->ms > 999)
  { lasterr = 87; return 0; }
  days = todays(a);
  min = a->h * 60 + a->mi + by;
  while (min < 0) { if (!days) { lasterr = 87; return 0; } min += 1440, days--; }
  while (min >= 1440) min -= 1440, days++;
  { u16 s = a->s, ms = a->ms; fromdays(days, b); b->s = s; b->ms = ms; }
  b->h = min / 60; b->mi = min % 60;
  return 1;
}
static STD int w_Utc2Loc(void *z, SYST *a, SYST *b) { if (z) broke(123, "time zone", (u32)z); return shift(a, b, tz); }
static STD int w_Loc2Utc(void *z, SYST *a, SYST *b) { if (z) broke(123, "time zone", (u32)z); return shift(a, b, -tz); }
static STD int w_CreateProcessA(char *app, char *cmd, void *s1, void *s2, int inh, u32 fl, void *env, char *dir, u32 *si, u32 *pi)
{
  int pid, i;
  char *av[4];
  (void)s1; (void)s2; (void)inh; (void)fl; (void)env; (void)dir;
  if (!app || si[0] != 68) { lasterr = 87; return 0; }
  for (i = 1; i < 17; i++) if (si[i]) broke(123, "startup information", i);
  app = path(app, 0);
  if (S2(N_access, app, 1)) { lasterr = 2; return 0; }
  pid = S0(N_fork);
  if (pid < 0) { lasterr = 8; return 0; }
  if (!pid)
  {
    av[0] = app; av[1] = "-c"; av[2] = cmd ? cmd : ""; av[3] = NULL;
    if (cmd && cmd[0] == '/' && up(cmd[1]) == 'C' && cmd[2] == ' ') av[2] = cmd + 3;
    S3(N_execve, app, av, envp);
    quit(1);
  }
  pi[0] = hnew(2, pid); H[nh - 1].status = 259;
  pi[1] = hnew(3, pid);
  pi[2] = pid;
  pi[3] = pid + 4;
  return 1;
}
static STD u32 w_WaitForSingleObject(u32 h, u32 ms)
{
  hnd *p = hfind(h);
  int st = 0;
  if (!p) return -1;
  if (p->kind != 2 || ms != 0xffffffff) { lasterr = 6; return -1; }
  if (p->status == 259 && S3(N_waitpid, p->fd, &st, 0) == p->fd) p->status = st & 127 ? 128 + (st & 127) : st >> 8 & 255;
  return 0;
}
static STD int w_GetExitCodeProcess(u32 h, u32 *st)
{
  hnd *p = hfind(h);
  if (!p || p->kind != 2) { lasterr = 6; return 0; }
  *st = p->status;
  return 1;
}
static u32 filter;
static STD u32 w_SetUnhandledExceptionFilter(u32 f) { u32 o = filter; filter = f; return o; }
static u32 findfn(const char *dll, const char *fn);
static STD u32 w_LoadLibraryExA(char *n, u32 a, u32 b)
{
  (void)a; (void)b;
  if (up(*n) == 'K') return 0x6b000000;
  if (up(*n) == 'M') return 0x6d000000;
  lasterr = 126;
  return 0;
}
static STD int w_FreeLibrary(u32 h) { return h == 0x6b000000 || h == 0x6d000000; }
static STD u32 w_GetProcAddress(u32 h, char *n)
{
  u32 r = findfn(h == 0x6b000000 ? "kernel32.dll" : "msvcrt.dll", n);
  if (!r) lasterr = 127;
  return r;
}
static int c_abs(int a) { return a < 0 ? -a : a; }
static STD u32 w_FlushFileBuffers(u32 h) { return hfind(h) != NULL; }

static const struct { const char *dll, *fn; void *p; int std; } F[] = {
#define K(n) { "kernel32.dll", #n, (void *)w_##n, 1 }
  K(CloseHandle), K(CreateFileA), K(CreateProcessA), K(DeleteFileA), K(ExitProcess), K(FreeLibrary), K(GetCommandLineA), K(GetEnvironmentVariableA),
  K(GetExitCodeProcess), K(GetFileAttributesA), K(GetFileType), K(GetLastError), K(SetLastError), K(GetProcAddress), K(GetProcessHeap),
  K(GetStdHandle), K(GetSystemTime), K(GetTickCount), K(HeapAlloc), K(HeapFree), K(HeapReAlloc), K(LoadLibraryExA), K(MoveFileA), K(ReadFile),
  K(WriteFile), K(SetFilePointer), K(SetUnhandledExceptionFilter), K(WaitForSingleObject), K(FlushFileBuffers),
  { "kernel32.dll", "SystemTimeToTzSpecificLocalTime", (void *)w_Utc2Loc, 1 },
  { "kernel32.dll", "TzSpecificLocalTimeToSystemTime", (void *)w_Loc2Utc, 1 },
  { "msvcrt.dll", "abs", (void *)c_abs, 0 },
};
#define NF (sizeof F / sizeof F[0])
static u8 thunks[NF * 80];
static u32 retsp[16], nret;
/* a thunk: the return address goes to a stack of ours, the function is called on the program's stack, then the
   registers a function may change are changed */
static void mkthunk(int i)
{
  u8 *t = thunks + i * 80;
  int n = 0;
#define B(x) t[n++] = (x)
#define D(x) *(u32 *)(t + n) = (u32)(x), n += 4
  B(0x9c); B(0x58); B(0xf6); B(0xc4); B(4);                /* pushf; pop eax; test ah, 4 */
  B(0x74); B(5); B(0xe9); D(0); n -= 4;                    /* jz +5; jmp df_set */
  { extern void df_set(void); D((u32)df_set - (u32)(t + n + 4)); }
  B(0xff); B(0x05); D(&ncalls);                            /* inc dword [ncalls] */
  B(0xa1); D(&nret);                                       /* mov eax, [nret] */
  B(0x8f); B(0x04); B(0x85); D(retsp);                     /* pop dword [retsp + eax*4] */
  B(0xff); B(0x05); D(&nret);
  B(0xe8); D((u32)F[i].p - (u32)(t + n + 4));              /* call */
  B(0xff); B(0x0d); D(&nret);                              /* dec */
  B(0x8b); B(0x0d); D(&nret);                              /* mov ecx, [nret] */
  B(0x8b); B(0x14); B(0x8d); D(retsp);                     /* mov edx, [retsp + ecx*4] */
  B(0x52);                                                 /* push edx */
  B(0xb9); D(0xcccc0000 + i);                              /* mov ecx */
  B(0xba); D(0xdddd0000 + i);                              /* mov edx */
  B(0xc3);
  if (n > 80) broke(127, "thunk", n);
}
__attribute__((used)) void df_set(void) { broke(124, "system called with the direction flag set", 0); }
static u32 findfn(const char *dll, const char *fn)
{
  u32 i;
  for (i = 0; i < NF; i++)
  {
    const char *a = dll, *b = F[i].dll;
    while (*a && up(*a) == up(*b)) a++, b++;
    if (up(*a) == up(*b) && same(fn, F[i].fn)) return (u32)(thunks + i * 80);
  }
  return 0;
}

/* --- signals ------------------------------------------------------------------------------------------------------ */
struct sigctx { u32 gs, fs, es, ds, edi, esi, ebp, esp, ebx, edx, ecx, eax, trapno, err, eip, cs, eflags, uesp, ss, fp, oldmask, cr2; };
struct uctx { u32 flags, link, sp, fl, sz; struct sigctx c; };
static u32 stk_lo, stk_guard, stk_hi;
static u8 altstack[65536];
static int mac;
static void unhandled(void) { say("osrun: the exception filter returned\n"); stats(); quit(124); }
static u32 xptrs[2];
static void on_fault(int sig, u32 *info, struct uctx *u)
{
  u32 *sp;
  u32 a = u->c.cr2;
  if (sig == 11 && stk_guard && a >= stk_guard && a < stk_guard + 0x1000 && stk_guard > stk_lo + 0x1000)
  {
    S3(N_mprotect, stk_guard, 0x1000, 3);
    stk_guard -= 0x1000;
    nstk++;
    return;
  }
  nexc++;
  if (mac || !filter)
  {
    say("osrun: signal "); hex(sig); say(" at "); hex(u->c.eip); say(" address "); hex(a); say("\n");
    stats();
    quit(128 + sig);
  }
  xptrs[0] = (u32)info;
  xptrs[1] = (u32)&u->c;
  if (envget("OSRUN_DEBUG")) { say("osrun: signal "); hex(sig); say(" at "); hex(u->c.eip); say(" address "); hex(a); say("\n"); }
  sp = (u32 *)(altstack + 16384);
  *--sp = (u32)xptrs;
  *--sp = (u32)unhandled;
  u->c.uesp = u->c.esp = (u32)sp;
  u->c.eip = filter;
  u->c.eflags &= ~0x400u;
  nret = 0;
  filter = 0;
}
extern void restore_rt(void);
__asm__("restore_rt: movl $173, %eax\n int $0x80\n");
static void sigset_(int sig, void *h)
{
  struct { void *h; u32 fl; void *r; u32 m[2]; } a;
  a.h = h; a.fl = 4 | 0x08000000 | 0x04000000 | 0x40000000; a.r = (void *)restore_rt; a.m[0] = a.m[1] = 0;
  if (S4(N_rt_sigaction, sig, &a, 0, 8)) broke(127, "sigaction", sig);
}

/* --- macOS -------------------------------------------------------------------------------------------------------- */
static int merrno(int e)      /* Linux errno to BSD errno where they differ */
{
  switch (e) { case 11: return 35; case 36: return 63; case 39: return 66; case 40: return 62; case 38: return 78; default: return e; }
}
static void on_sys(int sig, u32 *info, struct uctx *u)
{
  u32 *s = (u32 *)u->c.uesp + 1;
  int n = u->c.eax, r = -38;
  u32 v = 0, edx = 0xdddd0000 + n, t[2];
  struct st64 st;
  u8 lt[64];
  (void)sig; (void)info;
  ncalls++;
  if (u->c.eflags & 0x400) df_set();
  switch (n)
  {
  case 1: leave(s[0] & 255);
  case 2: r = S0(N_fork); edx = r == 0; if (r == 0) v = 4711; break;
  case 3: r = S3(N_read, s[0], s[1], s[2]); break;
  case 4: r = S3(N_write, s[0], s[1], s[2]); break;
  case 5:
  {
    u32 f = s[1], fl = f & 3;
    if (f & ~(3u | 8 | 0x200 | 0x400 | 0x800)) broke(123, "open flags", f);
    if (f & 8) fl |= 02000;
    if (f & 0x200) fl |= 0100;
    if (f & 0x400) fl |= 01000;
    if (f & 0x800) fl |= 0200;
    r = S3(N_open, s[0], fl, f & 0x200 ? s[2] : 0);
    break;
  }
  case 6: r = S1(N_close, s[0]); break;
  case 7: r = S3(N_waitpid, s[0], s[1], s[2]); break;
  case 10: r = S1(N_unlink, s[0]); break;
  case 33: r = S2(N_access, s[0], s[1]); break;
  case 54:
    if (s[1] != 0x402C7413) broke(123, "ioctl", s[1]);
    r = S3(N_ioctl, s[0], 0x5401, lt);
    if (r == 0) memset((void *)s[2], 0x5a, 44);
    break;
  case 59: r = S3(N_execve, s[0], s[1], s[2]); break;
  case 116: S2(N_gettimeofday, t, 0); r = 0; v = t[0]; edx = t[1]; u->c.eax = v; u->c.edx = edx; u->c.eflags &= ~1u; return;
  case 117: r = -22; break;
  case 128: r = S2(N_rename, s[0], s[1]); break;
  case 199:
    if ((s[2] ^ (int)s[1] >> 31) != 0) broke(123, "64-bit seek", s[2]);
    r = S3(N_lseek, s[0], s[1], s[3]);
    edx = r < 0 ? edx : 0;
    break;
  default: broke(123, "system call", n);
  }
  (void)st;
  if (r < 0 && r > -4096) { u->c.eax = merrno(-r); u->c.edx = edx; u->c.eflags |= 1; }
  else { u->c.eax = v ? v : (u32)r; u->c.edx = edx; u->c.eflags &= ~1u; }
  u->c.ecx = 0xcccc0000 + n;
}

/* --- loading ------------------------------------------------------------------------------------------------------ */
static u8 *img;
static u32 imgsize;
static u32 rd(u32 o) { if (o + 4 > imgsize || o + 4 < o) broke(127, "file cut short", o); return *(u32 *)(img + o); }
static u32 rd2(u32 o) { return rd(o) & 0xffff; }
static int prot3(int r, int w, int x) { return (r ? 1 : 0) | (w ? 2 : 0) | (x ? 4 : 0); }
static u32 load_mac(u32 *stackneed)
{
  u32 n = rd(16), o = 28, i, eip = 0;
  (void)stackneed;
  for (i = 0; i < n; i++, o += rd(o + 4))
  {
    u32 c = rd(o), va, vs, fo, fs, pr;
    if (c == 1)
    {
      va = rd(o + 24); vs = rd(o + 28); fo = rd(o + 32); fs = rd(o + 36); pr = rd(o + 44);
      if (!vs || !pr) continue;
      map(va, (vs + 0xfff) & ~0xfffu, 3);
      if (fo + fs > imgsize && fo < imgsize && pr == 1) fs = imgsize - fo;     /* the end of __LINKEDIT */
      if (fo + fs > imgsize) broke(127, "segment beyond the file", fo);
      memcpy((void *)va, img + fo, fs < vs ? fs : vs);
      if (S3(N_mprotect, va, (vs + 0xfff) & ~0xfffu, prot3(pr & 1, pr & 2, pr & 4))) broke(127, "mprotect", va);
    }
    else if (c == 5) eip = rd(o + 16 + 10 * 4);
  }
  return eip;
}
static u32 load_pe(void)
{
  u32 pe = rd(0x3c), oh = pe + 24, ns = rd2(pe + 6), sh = oh + rd2(pe + 20), base = rd(oh + 28), size = rd(oh + 56), i, imp = rd(oh + 104);
  u32 res = rd(oh + 72), com = rd(oh + 76);
  if (rd(pe) != 0x4550) broke(127, "not PE", rd(pe));
  map(base, (size + 0xfff) & ~0xfffu, 3);
  memcpy((void *)base, img, rd(oh + 60));
  for (i = 0; i < ns; i++)
  {
    u32 s = sh + 40 * i, vs = rd(s + 8), va = rd(s + 12), rs = rd(s + 16), ro = rd(s + 20);
    if (rs > vs) rs = vs;
    if (ro + rs > imgsize) broke(127, "section beyond the file", ro);
    if (va + vs > ((size + 0xfff) & ~0xfffu)) broke(127, "section beyond the image", va);
    memcpy((void *)(base + va), img + ro, rs);
  }
  if (imp)
    for (imp += base; ((u32 *)imp)[3]; imp += 20)
    {
      char *dll = (char *)base + ((u32 *)imp)[3];
      u32 *names = (u32 *)(base + (((u32 *)imp)[0] ? ((u32 *)imp)[0] : ((u32 *)imp)[4])), *iat = (u32 *)(base + ((u32 *)imp)[4]);
      for (; *names; names++, iat++)
      {
        u32 f;
        if (*names >> 31) broke(126, "import by ordinal", *names);
        f = findfn(dll, (char *)base + *names + 2);
        if (!f) { say("osrun: import "); say(dll); say(" "); say((char *)base + *names + 2); say("\n"); quit(126); }
        *iat = f;
      }
    }
  S3(N_mprotect, base, (size + 0xfff) & ~0xfffu, 0);
  S3(N_mprotect, base, 0x1000, 1);
  for (i = 0; i < ns; i++)
  {
    u32 s = sh + 40 * i, vs = rd(s + 8), va = rd(s + 12), ch = rd(s + 36);
    S3(N_mprotect, base + va, (vs + 0xfff) & ~0xfffu, prot3(ch >> 30 & 1, ch >> 31, ch >> 29 & 1));
  }
  res = (res + 0xffff) & ~0xffffu;
  com = ((com + 0xfff) & ~0xfffu) + 0x1000;
  if (com > res) com = res;
  stk_lo = (u32)map(0, res + 0x1000, 0);
  stk_hi = stk_lo + res;
  stk_guard = stk_hi - com;
  S3(N_mprotect, stk_guard + 0x1000, stk_hi - stk_guard - 0x1000, 3);
  return base + rd(oh + 16);
}
static char *put(char *p, const char *s)       /* the quoting that the argument parser of the C libraries undoes */
{
  const char *q;
  int n = 0, quote = !*s;
  for (q = s; *q; q++) if (*q == ' ' || *q == '\t' || *q == '"') quote = 1;
  if (quote) *p++ = '"';
  for (; *s; s++)
  {
    if (*s == '\\') n++;
    else
    {
      if (*s == '"') { while (n--) *p++ = '\\'; *p++ = '\\'; }
      n = 0;
    }
    *p++ = *s;
  }
  if (quote) { while (n-- > 0) *p++ = '\\'; *p++ = '"'; }
  *p++ = ' ';
  return p;
}
extern u8 text_end[];
static void ended(void) { broke(125, "the entry point returned", 0); }
static void init_std(void)
{
  int i;
  for (i = 0; i < 3; i++) { H[5 + i].kind = 1; H[5 + i].fd = i; H[5 + i].acc = i ? 1 : 2; H[5 + i].ino = 0; }
  H[8].kind = 4;
}
__attribute__((used)) void start_c(u32 *sp)
{
  int argc = sp[0], fd, i;
  char **argv = (char **)(sp + 1);
  struct st64 st;
  u32 eip, esp, alt[3];
  envp = argv + argc + 1;
  if (argc < 2) broke(127, "usage: osrun program args", 0);
  if (argv[1][0] == '-' && argv[1][1] == 'l') { cmdline = argv[2]; argv += 2; argc -= 2; }     /* -l COMMANDLINE program */
  fd = S3(N_open, argv[1], 0, 0);
  if (fd < 0) broke(127, "cannot open the program", fd);
  S2(N_fstat64, fd, &st);
  imgsize = (u32)st.size;
  img = (u8 *)S6(N_mmap2, 0, imgsize, 1, 2, fd, 0);
  S1(N_close, fd);
  if (envget("OSRUN_TZ")) { char *p = envget("OSRUN_TZ"); int neg = *p == '-'; for (p += neg; *p; p++) tz = tz * 10 + *p - '0'; if (neg) tz = -tz; }
  alt[0] = (u32)altstack + 32768; alt[1] = 0; alt[2] = 32768;
  if (S2(N_sigaltstack, alt, 0)) broke(127, "sigaltstack", 0);
  sigset_(11, on_fault); sigset_(7, on_fault); sigset_(8, on_fault); sigset_(4, on_fault); sigset_(5, on_fault);
  if (rd(0) == 0xfeedface)
  {
    u32 n, base, *p;
    u8 *str;
    mac = 1;
    eip = load_mac(&n);
    base = (u32)map(0, 0x800000, 3);            /* 8 MB */
    str = (u8 *)(base + 0x800000);
    *--str = 0;
    /* strings, then argc argv envp apple; the stack pointer at the end is 16-byte aligned */
    {
      static char *ptr[8192];
      int k = 0, na = argc - 1, ne = 0;
      for (i = 0; i < na; i++) { u32 l = len(argv[1 + i]) + 1; str -= l; memcpy(str, argv[1 + i], l); ptr[k++] = (char *)str; if (k > 8000) broke(127, "arguments", k); }
      for (i = 0; envp[i] && k < 8100; i++, ne++) { u32 l = len(envp[i]) + 1; str -= l; memcpy(str, envp[i], l); ptr[k++] = (char *)str; }
      p = (u32 *)(((u32)str & ~15u) - 16 - ((na + ne + 8) * 4 & ~15u) - 16);
      esp = (u32)p;
      *p++ = na;
      for (i = 0; i < na; i++) *p++ = (u32)ptr[i];
      *p++ = 0;
      for (i = 0; i < ne; i++) *p++ = (u32)ptr[na + i];
      *p++ = 0;
      *p++ = (u32)ptr[0];
      *p++ = 0;
      { u32 *q = (u32 *)(base + 0x700000); u32 x = 12345; for (; q < (u32 *)esp; q++) *q = x = x * 1664525 + 1013904223; }
    }
    sigset_(31, on_sys);
    {
      /* allowed: 64-bit programs (a shell), and calls from osrun's own text; the rest traps */
      struct { u16 code; u8 jt, jf; u32 k; } pr[8];
      struct { u16 n; void *p; } fp;
      memset(pr, 0, sizeof pr);
#define P(i, c, t, f, kk) pr[i].code = c, pr[i].jt = t, pr[i].jf = f, pr[i].k = kk
      P(0, 0x20, 0, 0, 4);                             /* arch */
      P(1, 0x15, 0, 3, 0x40000003);                    /* i386? */
      P(2, 0x20, 0, 0, 8);                             /* ip */
      P(3, 0x35, 0, 2, 0x70000000);                    /* >= text */
      P(4, 0x35, 1, 0, (u32)text_end);
      P(5, 0x06, 0, 0, 0x7fff0000);
      P(6, 0x06, 0, 0, 0x00030000);
      fp.n = 7; fp.p = pr;
      if (sys6(N_prctl, 38, 1, 0, 0, 0, 0)) broke(127, "no_new_privs", 0);
      i = sys6(N_prctl, 22, 2, (u32)&fp, 0, 0, 0);
      if (i) broke(127, "seccomp", i);
    }
  }
  else
  {
    char *p;
    u32 n = 4096;
    init_std();
    for (i = 0; i < (int)NF; i++) mkthunk(i);
    S3(N_mprotect, (u32)thunks & ~0xfffu, (sizeof thunks + 0x1fff) & ~0xfffu, 7);
    eip = load_pe();
    for (i = 1; i < argc; i++) n += 2 * len(argv[i]) + 3;
    p = (char *)map(0, n, 3);
    if (cmdline) memcpy(p, cmdline, len(cmdline) + 1);
    else
    {
      char *q = p;
      for (i = 1; i < argc; i++) q = put(q, argv[i]);
      q[-1] = 0;
    }
    cmdline = p;
    S3(N_mprotect, p, n, 1);                    /* "*GetCommandLineA() is read-only" */
    esp = stk_hi - 0x40;
    { u32 *q = (u32 *)(stk_guard + 0x1000), x = 777; for (; q < (u32 *)stk_hi; q++) *q = x = x * 1664525 + 1013904223; }
    esp -= 4;
    *(u32 *)esp = (u32)ended;
  }
  {
    static u16 cw = 0x27f;
    static u32 go[2];
    go[0] = eip; go[1] = esp;
    if (mac) cw = 0x37f;
    __asm__ volatile("fninit\n fldcw %0\n movl %1, %%eax\n movl %2, %%esp\n pushl %%eax\n movl $0xa5a5a5a5, %%eax\n movl $0xb5b5b5b5, %%ebx\n"
                     "movl $0xc5c5c5c5, %%ecx\n movl $0xd5d5d5d5, %%edx\n movl $0xe5e5e5e5, %%esi\n movl $0xf5f5f5f5, %%edi\n xorl %%ebp, %%ebp\n"
                     "cld\n ret" : : "m"(cw), "r"(go[0]), "r"(go[1]) : "memory");
  }
}
__asm__(".globl _start\n_start: xorl %ebp, %ebp\n movl %esp, %eax\n andl $-16, %esp\n subl $12, %esp\n pushl %eax\n call start_c\n hlt\n"
        ".section .text.zzz,\"ax\"\n.globl text_end\ntext_end: .byte 0\n.text\n");
