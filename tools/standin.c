/* Stands in for `cargo` (under the driver) or for `rustc` (under the wrapper): records how it was started,
 * then behaves as planned.  Everything it reads and writes is below $FAKE_DIR, except the copies it is told
 * to make (below the scratch project) and the files whose times it is told to look at.
 *
 *   $FAKE_DIR/plan.out, plan.err   bytes for stdout and stderr
 *   $FAKE_DIR/plan.exit            "exit N" or "kill N"
 *   $FAKE_DIR/plan.stat            paths, one per line, whose mtimes to record
 *   $FAKE_DIR/plan.copy            pairs of lines: from, to  (times are kept)
 *   $FAKE_DIR/plan.stdin           if it exists, standard input is copied to $FAKE_DIR/in.K
 *   $FAKE_DIR/rec.K                argc, argv, cwd, environment, mtimes; NUL-separated; K = 0, 1, ...
 */
#define _GNU_SOURCE
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

extern char **environ;
static const char *dir;

static FILE *in(const char *name) {
  char p[4096];
  snprintf(p, sizeof p, "%s/%s", dir, name);
  return fopen(p, "rb");
}

static void pour(const char *name, int fd) {
  FILE *f = in(name);
  char b[65536];
  size_t n;
  if (!f) return;
  while ((n = fread(b, 1, sizeof b, f)) > 0)
    for (size_t o = 0; o < n;) {
      ssize_t w = write(fd, b + o, n - o);
      if (w <= 0) break;
      o += w;
    }
  fclose(f);
}

static int line(FILE *f, char *b, int n) {
  if (!fgets(b, n, f)) return 0;
  b[strcspn(b, "\n")] = 0;
  return 1;
}

int main(int argc, char **argv) {
  char p[4096], q[4096], b[65536];
  FILE *f, *r = 0;
  int k;
  dir = getenv("FAKE_DIR");
  if (!dir) return 99;
  for (k = 0; k < 1000 && !r; k++) {
    snprintf(p, sizeof p, "%s/rec.%d", dir, k);
    int fd = open(p, O_CREAT | O_EXCL | O_WRONLY, 0644);
    if (fd >= 0) r = fdopen(fd, "wb");
  }
  if (!r) return 98;
  fprintf(r, "%d%c", argc, 0);
  for (int i = 0; i < argc; i++) fprintf(r, "%s%c", argv[i], 0);
  fprintf(r, "%s%c", getcwd(p, sizeof p) ? p : "", 0);
  for (char **e = environ; *e; e++) fprintf(r, "%s%c", *e, 0);
  fprintf(r, "%c", 0);
  if ((f = in("plan.stat"))) {
    while (line(f, p, sizeof p)) {
      struct stat s;
      if (stat(p, &s) == 0) fprintf(r, "%lld.%09ld%c", (long long)s.st_mtim.tv_sec, s.st_mtim.tv_nsec, 0);
      else fprintf(r, "-1%c", 0);
    }
    fclose(f);
  }
  fclose(r);
  if ((f = in("plan.stdin"))) {
    ssize_t n;
    fclose(f);
    snprintf(p, sizeof p, "%s/in.%d", dir, k - 1);
    if ((f = fopen(p, "wb"))) {
      while ((n = read(0, b, sizeof b)) > 0) fwrite(b, 1, n, f);
      fclose(f);
    }
  }
  if ((f = in("plan.copy"))) {
    while (line(f, p, sizeof p) && line(f, q, sizeof q)) {
      struct stat s;
      FILE *x = fopen(p, "rb"), *y = fopen(q, "wb");
      size_t n;
      if (!x || !y) return 97;
      while ((n = fread(b, 1, sizeof b, x)) > 0) fwrite(b, 1, n, y);
      fstat(fileno(x), &s);
      fclose(x);
      fclose(y);
      struct timespec t[2] = {s.st_mtim, s.st_mtim};
      utimensat(AT_FDCWD, q, t, 0);
    }
    fclose(f);
  }
  pour("plan.out", 1);
  pour("plan.err", 2);
  if ((f = in("plan.exit"))) {
    int n = 0;
    if (fscanf(f, "%15s %d", p, &n) == 2) {
      if (!strcmp(p, "kill")) {
        struct rlimit z = {0, 0};
        setrlimit(RLIMIT_CORE, &z);
        signal(n, SIG_DFL);
        raise(n);
      }
      return n;
    }
  }
  return 0;
}
