/* Runs a command under ptrace (x86-64, following children) and disturbs its system calls.
   faulter LOG CLASS MODE K ERRNO -- command...
   CLASS  io: calls on files outside the system directories; mem: brk and anonymous mmap once the program has used a file; proc: fork, execve, wait; all
   MODE   count: only log;  fail: call K of the class fails with ERRNO;  sticky: so does every later call of the same
          kind;  short: every read and write transfers at most K bytes;  kill: the process making call K is killed
   Each counted call is a line of LOG:  index exe call path [HIT].  Exit status of the command, 128 + n for a signal. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

typedef struct { pid_t pid; int in, spoil, started; } P;
static P ps[4096];
static int np;
static P *get(pid_t p) { int i; for (i = 0; i < np; i++) if (ps[i].pid == p) return &ps[i];
  if (np == 4096) exit(250); ps[np].pid = p; ps[np].in = ps[np].spoil = ps[np].started = 0; return &ps[np++]; }
static FILE *lg;
static char self[300];

static void rstr(pid_t p, unsigned long a, char *b, int n) {
  struct iovec l = { b, n - 1 }, r = { (void*)a, n - 1 }; ssize_t k = process_vm_readv(p, &l, 1, &r, 1, 0);
  int i;
  if (k < 0) { r.iov_len = l.iov_len = 4096 - (a & 4095) < n - 1 ? 4096 - (a & 4095) : n - 1; k = process_vm_readv(p, &l, 1, &r, 1, 0); }
  b[k < 0 ? 0 : k] = 0;
  for (i = 0; b[i]; i++) if (b[i] <= ' ' || b[i] > 126) b[i] = '?';
}
static void link_of(char *b, int n, const char *f, pid_t p, long fd) {
  char s[64]; ssize_t k; snprintf(s, sizeof s, f, p, fd); k = readlink(s, b, n - 1); b[k < 0 ? 0 : k] = 0;
  for (k = 0; b[k]; k++) if (b[k] <= ' ') b[k] = '?';
}
static int sysfile(const char *s) {
  static const char *d[] = { "/lib", "/usr/lib", "/etc/", "/proc/", "/sys/", "/dev/", "pipe:", "socket:", "anon_inode", "/usr/share/locale", "/usr/share/zoneinfo", 0 };
  int i; for (i = 0; d[i]; i++) if (!strncmp(s, d[i], strlen(d[i]))) return 1; return *s == 0;
}

int main(int argc, char **argv) {
  int st, first, ret = 255, err; long k, n = 0; char *cls, *mode; pid_t child; int stickynr = -1; char stickyname[20] = "";
  if (argc < 8) return 254;
  lg = fopen(argv[1], "w"); if (!lg) return 254;
  cls = argv[2]; mode = argv[3]; k = atol(argv[4]); err = atoi(argv[5]);
  child = fork();
  if (!child) { prctl(PR_SET_PDEATHSIG, SIGKILL); ptrace(PTRACE_TRACEME, 0, 0, 0); raise(SIGSTOP); fclose(lg); execvp(argv[7], argv + 7); _exit(127); }
  if (waitpid(child, &st, 0) != child || !WIFSTOPPED(st)) return 253;
  if (ptrace(PTRACE_SETOPTIONS, child, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK | PTRACE_O_TRACECLONE | PTRACE_O_TRACEEXEC | PTRACE_O_EXITKILL)) return 253;
  first = child; get(child);
  ptrace(PTRACE_SYSCALL, child, 0, 0);
  for (;;) {
    pid_t p = waitpid(-1, &st, __WALL); P *q; int sig = 0;
    if (p < 0) break;
    q = get(p);
    if (WIFEXITED(st) || WIFSIGNALED(st)) {
      if (p == first) ret = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
      *q = ps[--np];
      if (!np) break;
      continue;
    }
    if (!WIFSTOPPED(st)) continue;
    sig = WSTOPSIG(st);
    if (sig == (SIGTRAP | 0x80)) {
      struct user_regs_struct r; sig = 0;
      if (ptrace(PTRACE_GETREGS, p, 0, &r)) continue;
      if (!q->in) {
        char path[300] = "", exe[300]; const char *nm = 0; int want = 0, c = 0; long nr = r.orig_rax; int hit = 0;
        q->in = 1; q->spoil = 0;
        switch (nr) {
        case SYS_openat: rstr(p, r.rsi, path, sizeof path); nm = (r.rdx & 3) ? "open-w" : "open-r"; c = 1; break;
        case SYS_open: rstr(p, r.rdi, path, sizeof path); nm = (r.rsi & 3) ? "open-w" : "open-r"; c = 1; break;
        case SYS_unlink: rstr(p, r.rdi, path, sizeof path); nm = "unlink"; c = 1; break;
        case SYS_unlinkat: rstr(p, r.rsi, path, sizeof path); nm = "unlink"; c = 1; break;
        case SYS_chmod: rstr(p, r.rdi, path, sizeof path); nm = "chmod"; c = 1; break;
        case SYS_fchmodat: rstr(p, r.rsi, path, sizeof path); nm = "chmod"; c = 1; break;
        case SYS_read: case SYS_pread64: nm = "read"; c = 2; break;
        case SYS_readv: nm = "read"; c = 2; break;
        case SYS_write: case SYS_pwrite64: case SYS_writev: nm = "write"; c = 2; break;
        case SYS_close: nm = "close"; c = 2; break;
        case SYS_lseek: nm = "lseek"; c = 2; break;
        case SYS_brk: if (r.rdi) { nm = "brk"; c = 3; } break;
        case SYS_mmap: if (r.r10 & 0x20) { nm = "mmap"; c = 3; } break;
        case SYS_fork: case SYS_vfork: case SYS_clone: nm = "fork"; c = 4; break;
        case 435: nm = "fork"; c = 4; break;
        case SYS_execve: rstr(p, r.rdi, path, sizeof path); nm = "execve"; c = 4; break;
        case SYS_wait4: nm = "wait"; c = 4; break;
        }
        if (c == 2) link_of(path, sizeof path, "/proc/%d/fd/%ld", p, (long)r.rdi);
        if (c == 1 || c == 2) want = !sysfile(path) && (!strcmp(cls, "io") || !strcmp(cls, "all"));
        if (want) q->started = 1;
        if (c == 3 && q->started) want = !strcmp(cls, "mem") || !strcmp(cls, "all");
        if (c == 4) want = !strcmp(cls, "proc") || !strcmp(cls, "all");
        if (want) {
          link_of(exe, sizeof exe, "/proc/%d/exe", p, 0);
          if (!self[0]) link_of(self, sizeof self, "/proc/%d/exe", getpid(), 0);
          if (!strcmp(exe, self)) want = 0;     /* the command has not started yet */
        }
        if (want) {
          if (!strcmp(mode, "short")) {
            if ((nr == SYS_read || nr == SYS_write) && r.rdx > (unsigned long)k) { r.rdx = k; ptrace(PTRACE_SETREGS, p, 0, &r); hit = 1; }
          } else if (n == k || (stickynr >= 0 && !strcmp(nm, stickyname))) {
            if (!strcmp(mode, "fail") || !strcmp(mode, "sticky")) { hit = 1; q->spoil = 1; r.orig_rax = -1; ptrace(PTRACE_SETREGS, p, 0, &r); }
            if (!strcmp(mode, "sticky") && stickynr < 0) { stickynr = nr; strcpy(stickyname, nm); }
            if (!strcmp(mode, "kill")) hit = 1;
          }
          fprintf(lg, "%ld %s %s %s%s\n", n, strrchr(exe, '/') ? strrchr(exe, '/') + 1 : exe, nm, *path ? path : "-", hit ? " HIT" : "");
          n++;
          if (hit && !strcmp(mode, "kill")) { kill(p, SIGKILL); fflush(lg); continue; }
        }
      } else {
        q->in = 0;
        if (q->spoil) { q->spoil = 0; r.rax = -(long)err; ptrace(PTRACE_SETREGS, p, 0, &r); }
      }
    } else if (sig == SIGTRAP && st >> 16) {
      if (st >> 16 == PTRACE_EVENT_EXEC) q->in = 1, q->started = 0;   /* the exit of execve is still to come */
      sig = 0;
    } else if (sig == SIGSTOP)
      sig = 0;
    ptrace(PTRACE_SYSCALL, p, 0, sig);
  }
  fclose(lg);
  return ret;
}
