/* Preloaded into mairix: of the calls of class $FAULT_CLASS that the program itself makes (not its
 * libraries), number $FAULT_AT fails, and with $FAULT_MANY all that follow too.  The number of such calls
 * is written to $FAULT_OUT at the end.  The lock file can always be removed, and standard streams work. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdio_ext.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

static long n, at;
static int many, ready, err, full;
static const char *cls, *out;
static char *lo, *hi;

static int phdr(struct dl_phdr_info *i, size_t s, void *d)
{
  int k;
  for (k = 0; k < i->dlpi_phnum; k++) {
    const ElfW(Phdr) *p = &i->dlpi_phdr[k];
    char *a = (char *) i->dlpi_addr + p->p_vaddr;
    if (p->p_type == PT_LOAD && (p->p_flags & PF_X)) {
      if (!lo || a < lo) lo = a;
      if (a + p->p_memsz > hi) hi = a + p->p_memsz;
    }
  }
  return 1;     /* the first is the program */
}

__attribute__((constructor)) static void init(void)
{
  const char *a = getenv("FAULT_AT"), *m = getenv("FAULT_MANY"), *e = getenv("FAULT_ERRNO");
  cls = getenv("FAULT_CLASS");
  out = getenv("FAULT_OUT");
  if (a) at = atol(a);
  if (m) many = atoi(m);
  if (e) err = atoi(e);
  full = cls && *cls == 'f';      /* no room: writing fails, and so does storing into a hole of a mapped file */
  if (full) many = 1;
  dl_iterate_phdr(phdr, NULL);
  unsetenv("LD_PRELOAD");      /* only this process */
  if (cls) ready = 1;
}

__attribute__((destructor)) static void fini(void)
{
  ready = 0;
  if (out) {
    FILE *f = fopen(out, "w");
    if (f) { fprintf(f, "%ld\n", n); fclose(f); }
  }
}

static int fails(const char *c, void *ret)
{
  const char *p = cls, *q = c;
  if (full && *c == 't') return 0;
  if (full ? *c == 'w' : *c == 't') q = full ? "full" : "write";
  if (!ready || (char *) ret < lo || (char *) ret >= hi) return 0;
  while (*p && *p == *q) p++, q++;
  if (*p || *q) return 0;
  n++;
  if (at && (n == at || (many && n > at))) { errno = err; return 1; }
  return 0;
}
#define F(c) fails(c, __builtin_return_address(0))
#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name)) dlsym(RTLD_NEXT, #name)

extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t);
void *malloc(size_t s) { return F("mem") ? NULL : __libc_malloc(s); }
void *calloc(size_t a, size_t b) { return F("mem") ? NULL : __libc_calloc(a, b); }
void *realloc(void *p, size_t s) { return F("mem") ? NULL : __libc_realloc(p, s); }

static void *nohole(void *m, size_t l, int d, off_t o)
{
  off_t e, at = lseek(d, 0, SEEK_CUR), h = lseek(d, o, SEEK_HOLE);
  struct stat sb;
  if (m == MAP_FAILED || fstat(d, &sb) < 0) return m;
  e = sb.st_size;
  lseek(d, at, SEEK_SET);
  h = (h + 4095) & ~4095L;
  if (h < e && h - o < l) {
    int z = memfd_create("full", 0);
    mmap((char *) m + (h - o), l - (h - o), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, z, 0);    /* SIGBUS */
    close(z);
  }
  return m;
}
#define MMAP(name) \
void *name(void *a, size_t l, int p, int f, int d, off_t o) \
{ \
  REAL(name); \
  if (full && (p & PROT_WRITE) && (f & MAP_SHARED) && d >= 0) { int k = F("write"); void *m = real(a, l, p, f, d, o); return k ? nohole(m, l, d, o) : m; } \
  return F("map") ? MAP_FAILED : real(a, l, p, f, d, o); \
}
MMAP(mmap)
MMAP(mmap64)
int stat(const char *a, struct stat *s) { REAL(stat); return F("stat") ? -1 : real(a, s); }
int lstat(const char *a, struct stat *s) { REAL(lstat); return F("stat") ? -1 : real(a, s); }
int fstat(int a, struct stat *s) { REAL(fstat); return F("stat") ? -1 : real(a, s); }
int ftruncate(int a, off_t l) { REAL(ftruncate); return F("trunc") ? -1 : real(a, l); }
off_t lseek(int a, off_t l, int w) { REAL(lseek); return F("trunc") ? -1 : real(a, l, w); }
ssize_t write(int a, const void *b, size_t l) { REAL(write); return a > 2 && F("write") ? -1 : real(a, b, l); }
ssize_t pwrite(int a, const void *b, size_t l, off_t o) { REAL(pwrite); return F("write") ? -1 : real(a, b, l, o); }
int posix_fallocate(int a, off_t o, off_t l) { REAL(posix_fallocate); return F("write") ? err : real(a, o, l); }
int fallocate(int a, int m, off_t o, off_t l) { REAL(fallocate); return F("write") ? -1 : real(a, m, o, l); }
int fsync(int a) { REAL(fsync); return F("trunc") ? -1 : real(a); }
int mkdir(const char *a, mode_t m) { REAL(mkdir); return F("make") ? -1 : real(a, m); }
int symlink(const char *a, const char *b) { REAL(symlink); return F("make") ? -1 : real(a, b); }
int link(const char *a, const char *b) { REAL(link); return F("make") ? -1 : real(a, b); }
int rename(const char *a, const char *b) { REAL(rename); return F("make") ? -1 : real(a, b); }
int unlink(const char *a)
{
  REAL(unlink);
  return !strstr(a, ".lock") && F("remove") ? -1 : real(a);
}
DIR *opendir(const char *a) { REAL(opendir); return F("dir") ? NULL : real(a); }
#define OPEN(name) \
int name(const char *a, int fl, ...) \
{ \
  va_list ap; mode_t m = 0; REAL(name); \
  if (fl & (O_CREAT | O_TMPFILE)) { va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } \
  return F((fl & O_ACCMODE) == O_RDONLY ? "open" : "make") ? -1 : real(a, fl, m); \
}
OPEN(open)
OPEN(open64)
FILE *fopen(const char *a, const char *m) { REAL(fopen); return F(*m == 'r' ? "open" : "make") ? NULL : real(a, m); }
FILE *tmpfile(void) { REAL(tmpfile); return F("make") ? NULL : real(); }
size_t fwrite(const void *b, size_t s, size_t k, FILE *f)
{
  REAL(fwrite);
  if (f != stdout && f != stderr && F("write")) { f->_flags |= 0x20; /* ferror() */ return 0; }
  return real(b, s, k, f);
}
int fputs(const char *b, FILE *f)
{
  REAL(fputs);
  if (f != stdout && f != stderr && F("write")) { f->_flags |= 0x20; return EOF; }
  return real(b, f);
}
int fclose(FILE *f)
{
  REAL(fclose);
  if (__fwriting(f) && F("write")) {    /* what was still in the buffer is lost */
    __fpurge(f);
    real(f);
    errno = err;
    return EOF;
  }
  return real(f);
}
int fflush(FILE *f)
{
  REAL(fflush);
  if (f && f != stdout && f != stderr && __fpending(f) && F("write")) { __fpurge(f); f->_flags |= 0x20; return EOF; }
  return real(f);
}
#define ZOPEN(name) \
void *name(const char *a, const char *m) \
{ \
  static void *(*real)(const char *, const char *); \
  if (!real) real = (void *(*)(const char *, const char *)) dlsym(RTLD_NEXT, #name); \
  return F("open") ? NULL : real(a, m); \
}
ZOPEN(gzopen)
ZOPEN(BZ2_bzopen)
