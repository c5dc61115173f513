/* Preloaded into mairix: every file-system call on a path that starts with
 * $SCHED_PREFIX is announced on descriptor $SCHED_FD and waits there for a
 * grant, so that a controller decides how several processes interleave. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

static int fd = -1;
static const char *prefix;

static void gate(const char *op, const char *path)
{
  char buf[4200], c;
  int e = errno, n;
  if (fd < 0 || !path || strncmp(path, prefix, strlen(prefix)) != 0) return;
  n = snprintf(buf, sizeof buf, "%s %s", op, path);
  if (n > 0 && write(fd, buf, n) == n) {
    while (read(fd, &c, 1) < 0 && errno == EINTR) ;
  }
  errno = e;
}

__attribute__((constructor)) static void init(void)
{
  const char *f = getenv("SCHED_FD");
  prefix = getenv("SCHED_PREFIX");
  if (f && prefix) {
    fd = atoi(f);
    fcntl(fd, F_SETFD, FD_CLOEXEC);
    gate("start", prefix);
  }
}

#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name)) dlsym(RTLD_NEXT, #name)

int link(const char *a, const char *b) { REAL(link); gate("link", b); return real(a, b); }
int symlink(const char *a, const char *b) { REAL(symlink); gate("symlink", b); return real(a, b); }
int rename(const char *a, const char *b) { REAL(rename); gate("rename", a); gate("rename-to", b); return real(a, b); }
int unlink(const char *a) { REAL(unlink); gate("unlink", a); return real(a); }
int remove(const char *a) { REAL(remove); gate("unlink", a); return real(a); }
int mkdir(const char *a, mode_t m) { REAL(mkdir); gate("mkdir", a); return real(a, m); }
int truncate(const char *a, off_t l) { REAL(truncate); gate("write", a); return real(a, l); }
int access(const char *a, int m) { REAL(access); gate("access", a); return real(a, m); }

static const char *how(int fl) { return (fl & O_ACCMODE) == O_RDONLY && !(fl & (O_CREAT | O_TRUNC)) ? "open" : "write"; }

#define OPEN(name) \
int name(const char *a, int fl, ...) \
{ \
  va_list ap; mode_t m = 0; REAL(name); \
  if (fl & (O_CREAT | O_TMPFILE)) { va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } \
  gate(how(fl), a); \
  return real(a, fl, m); \
}
OPEN(open)
OPEN(open64)
int creat(const char *a, mode_t m) { REAL(creat); gate("write", a); return real(a, m); }
FILE *fopen(const char *a, const char *m) { REAL(fopen); gate(m[0] == 'r' && !strchr(m, '+') ? "open" : "write", a); return real(a, m); }
FILE *fopen64(const char *a, const char *m) { REAL(fopen64); gate(m[0] == 'r' && !strchr(m, '+') ? "open" : "write", a); return real(a, m); }
int stat(const char *a, struct stat *s) { REAL(stat); gate("stat", a); return real(a, s); }
int stat64(const char *a, struct stat64 *s) { REAL(stat64); gate("stat", a); return real(a, s); }
int lstat(const char *a, struct stat *s) { REAL(lstat); gate("stat", a); return real(a, s); }
int lstat64(const char *a, struct stat64 *s) { REAL(lstat64); gate("stat", a); return real(a, s); }
