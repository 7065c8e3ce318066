/* Stands in for a tool of the tool chain: records that it is run, and runs the
   real one, possibly with a fault.
   VF_REAL: directory of the real tools; VF_LOG: the log; VF_PLAN: tool:n:when:how:limit
   (the n-th run of the tool; when: start, mid, end, write; how: exit status, or -signal) */
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

static void die(int how) {
  if (how >= 0) _exit(how);
  struct rlimit r = {0, 0};
  setrlimit(RLIMIT_CORE, &r);
  signal(-how, SIG_DFL);
  raise(-how);
  _exit(99);
}

int main(int argc, char **argv) {
  char *base = strrchr(argv[0], '/');
  base = base ? base + 1 : argv[0];
  char real[4096], *log = getenv("VF_LOG"), *plan = getenv("VF_PLAN");
  snprintf(real, sizeof real, "%s/%s", getenv("VF_REAL"), base);
  const char *out = "-";
  for (int i = 1; i < argc; ++i) if (strcmp(argv[i], "-o") == 0 && i + 1 < argc) out = argv[i + 1];
  int fd = open(log, O_RDWR | O_CREAT | O_APPEND, 0644), n = 1;
  flock(fd, LOCK_EX);
  FILE *fp = fdopen(dup(fd), "r");
  char line[8192];
  size_t bl = strlen(base);
  fseek(fp, 0, SEEK_SET);
  while (fgets(line, sizeof line, fp)) if (strncmp(line, base, bl) == 0 && line[bl] == ' ') ++n;
  snprintf(line, sizeof line, "%s %s", base, out);
  for (int i = 1; i < argc; ++i) { strncat(line, " ", sizeof line - strlen(line) - 2); strncat(line, argv[i], sizeof line - strlen(line) - 2); }
  strcat(line, "\n");
  if (write(fd, line, strlen(line)) < 0) return 99;
  flock(fd, LOCK_UN);
  fclose(fp); close(fd);

  char tool[16], when[16]; int pn, how; long limit;
  argv[0] = real;
  if (plan && sscanf(plan, "%15[^:]:%d:%15[^:]:%d:%ld", tool, &pn, when, &how, &limit) == 5 && strcmp(tool, base) == 0 && pn == n) {
    if (strcmp(when, "start") == 0) die(how);
    if (strcmp(when, "write") == 0) {
      struct rlimit r = {limit, limit};
      signal(SIGXFSZ, SIG_IGN);
      setrlimit(RLIMIT_FSIZE, &r);
    } else {
      int text = out[0] == '-' && out[1] == '\0', mid = strcmp(when, "mid") == 0, p[2];
      if (text && pipe(p) < 0) return 99;
      pid_t pid = fork();
      if (pid == 0) {
        if (text) { dup2(p[1], 1); close(p[0]); close(p[1]); }
        execv(real, argv);
        _exit(99);
      }
      char *buf = NULL; size_t len = 0, cap = 0;
      if (text) {
        close(p[1]);
        for (;;) {
          if (len == cap) buf = realloc(buf, cap = cap ? cap * 2 : 65536);
          ssize_t k = read(p[0], buf + len, cap - len);
          if (k <= 0) break;
          len += k;
        }
      }
      int st;
      waitpid(pid, &st, 0);
      if (text) {
        size_t w = mid ? len / 2 : len, o = 0;
        while (o < w) { ssize_t k = write(1, buf + o, w - o); if (k <= 0) break; o += k; }
      } else if (mid) {
        FILE *f = fopen(out, "r+");
        if (f) { fseek(f, 0, SEEK_END); long sz = ftell(f); fclose(f); if (truncate(out, sz / 2) < 0) return 99; }
      }
      die(how);
    }
  }
  execv(real, argv);
  perror(real);
  return 98;
}
