/* Stands for every tool the driver runs: logs its arguments and makes its output out of its inputs, so that the output tells where it came from.
   STUBLOG: the log; STUBFAIL=n,how: the n-th command fails (how: 0 no output, 1 part of the output, 2 killed with part of the output). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>

static void cat(FILE* o, const char* n)
{
  FILE* f = fopen(n, "rb");
  int c;
  if (!f) { fprintf(o, "<missing %s>", n); return; }
  while ((c = getc(f)) != EOF) putc(c, o);
  fclose(f);
}

static int ends(const char* s, const char* e)
{
  size_t a = strlen(s), b = strlen(e);
  return a >= b && !strcasecmp(s + a - b, e);
}

int main(int argc, char** argv)
{
  const char* tool = strrchr(argv[0], '/') ? strrchr(argv[0], '/') + 1 : argv[0];
  const char* log = getenv("STUBLOG");
  const char* fail = getenv("STUBFAIL");
  int how = -1, i, no = 0, fd;
  char* out = 0, * map = 0;
  char* in[4000];
  int ins = 0;
  static char buf[1 << 20];
  size_t n = 0;
  FILE* f = fopen(log, "rb");
  if (f) { int c; while ((c = getc(f)) != EOF) no += c == 1; fclose(f); }
  n += sprintf(buf, "%s", tool) + 1;
  for (i = 1; i < argc; i++) { if (n + strlen(argv[i]) + 2 > sizeof buf) return 99; strcpy(buf + n, argv[i]); n += strlen(argv[i]) + 1; }
  buf[n++] = 1;
  fd = open(log, O_WRONLY | O_CREAT | O_APPEND, 0666);
  if (write(fd, buf, n) != (ssize_t)n) return 98;
  close(fd);
  if (fail && atoi(fail) == no) how = strchr(fail, ',') ? atoi(strchr(fail, ',') + 1) : 0;
  if (!strcmp(tool, "chmod")) { if (how >= 0) return 1; return chmod(argv[argc - 1], 0755) ? 1 : 0; }
  for (i = 1; i < argc; i++)
  {
    static const char* const two[] = { "-D", "-U", "-I", "-J", "-SI", "-isystem", "-f", "-map", "-pesubsys", "-entry", "-origin", "-stack", "-minheap", "-maxheap", "-stub", 0 };
    int k;
    if (!strcmp(argv[i], "-o") && i + 1 < argc) { out = argv[++i]; continue; }
    for (k = 0; two[k]; k++)
      if (!strcmp(argv[i], two[k]) && i + 1 < argc) { if (!strcmp(argv[i], "-map")) map = argv[i + 1]; i++; break; }
    if (two[k]) continue;
    if (argv[i][0] != '-') in[ins++] = argv[i];
  }
  if (!out && !strcmp(tool, "smlrc") && ins) out = in[--ins];
  if (how == 0) { fputs("stub: failed\n", stderr); return 3; }
  if (map && (f = fopen(map, "wb"))) { fprintf(f, "map"); fclose(f); }
  if (!out) { fputs("stub: no output\n", stderr); return 4; }
  f = fopen(out, "wb");
  if (!f) { fprintf(stderr, "stub: can't create %s\n", out); return 5; }
  fprintf(f, "%s(", tool);
  if (how > 0) { fclose(f); if (how == 2) raise(SIGKILL); fputs("stub: failed\n", stderr); return 3; }
  for (i = 0; i < ins; i++) { if (i) putc(',', f); cat(f, in[i]); }
  putc(')', f);
  fclose(f);
  (void)ends;
  return 0;
}
