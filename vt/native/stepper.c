/* stepper LIMIT SEED program args...
   Runs a 32-bit program one instruction at a time; before every instruction fills the memory below the stack pointer with
   garbage, as an interrupt or signal handler running on the same stack may.  Prints counters to stderr. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stddef.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <sys/ptrace.h>
#include <sys/wait.h>
#include <sys/user.h>
#include <sys/uio.h>
int main(int argc, char **argv)
{
  long limit = atol(argv[1]), steps = 0, clob = 0, moved = 0;
  unsigned seed = atoi(argv[2]) * 2654435761u + 1;
  unsigned long long last = 0;
  int st;
  pid_t p = fork();
  if (!p) { if (ptrace(PTRACE_TRACEME, 0, 0, 0)) _exit(125); execv(argv[3], argv + 3); _exit(126); }
  if (waitpid(p, &st, 0) < 0 || !WIFSTOPPED(st)) { fprintf(stderr, "NOTRACE\n"); return 125; }
  ptrace(PTRACE_SETOPTIONS, p, 0, PTRACE_O_EXITKILL);
  for (;;)
  {
    unsigned long long sp = (unsigned)ptrace(PTRACE_PEEKUSER, p, offsetof(struct user_regs_struct, rsp), 0);
    unsigned g[64];
    struct iovec l, r;
    int i, n = 1 + (seed >> 9) % 64;
    for (i = 0; i < n; i++) seed = seed * 1664525 + 1013904223, g[i] = seed;
    l.iov_base = g; l.iov_len = n * 4;
    r.iov_base = (void *)(sp - n * 4); r.iov_len = n * 4;
    if (process_vm_writev(p, &l, 1, &r, 1, 0) == n * 4) clob++;
    moved += sp != last; last = sp;
    if (steps++ >= limit) { ptrace(PTRACE_CONT, p, 0, 0); }
    else if (ptrace(PTRACE_SINGLESTEP, p, 0, 0)) { fprintf(stderr, "NOSTEP\n"); return 125; }
    if (waitpid(p, &st, 0) < 0) return 125;
    if (WIFEXITED(st)) { fprintf(stderr, "STEPS %ld CLOBBERS %ld SPMOVES %ld\n", steps, clob, moved); return WEXITSTATUS(st); }
    if (WIFSIGNALED(st)) { fprintf(stderr, "STEPS %ld SIGNAL %d\n", steps, WTERMSIG(st)); return 128 + WTERMSIG(st); }
    if (WSTOPSIG(st) != SIGTRAP) { fprintf(stderr, "STEPS %ld SIGNAL %d\n", steps, WSTOPSIG(st)); ptrace(PTRACE_KILL, p, 0, 0); waitpid(p, &st, 0); return 128 + 11; }
  }
}
