/* Preloaded into mairix: counts events, which are file-system calls and, once a file whose name
 * starts with $CRASH_DB is open for writing, calls of memcpy and the like as well, and sends the process
 * signal $CRASH_SIG before event number $CRASH_AT.  The number of events, and that of the first one
 * with the file open, are written to $CRASH_OUT at the end. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/types.h>
#include <unistd.h>

static long n, at, first;
static int sig = SIGKILL, ready;
static const char *db, *out;

static void event(void)
{
  if (ready && ++n == at) { ready = 0; raise(sig); ready = 1; }
}

__attribute__((constructor)) static void init(void)
{
  const char *a = getenv("CRASH_AT"), *s = getenv("CRASH_SIG");
  db = getenv("CRASH_DB");
  out = getenv("CRASH_OUT");
  if (a) at = atol(a);
  if (s) sig = atoi(s);
  if (db) ready = 1;
}

__attribute__((destructor)) static void fini(void)
{
  ready = 0;
  if (out) {
    FILE *f = fopen(out, "w");
    if (f) { fprintf(f, "%ld %ld\n", n, first); fclose(f); }
  }
}

void *memcpy(void *d, const void *s, size_t l)
{
  volatile char *p = d; const volatile char *q = s;
  if (first) event();
  while (l--) *p++ = *q++;
  return d;
}
void *__memcpy_chk(void *d, const void *s, size_t l, size_t m) { return memcpy(d, s, l); }
void *memmove(void *d, const void *s, size_t l)
{
  volatile char *p = d; const volatile char *q = s;
  if (first) event();
  if ((char *) d <= (const char *) s) while (l--) *p++ = *q++;
  else while (l--) p[l] = q[l];
  return d;
}
void *memset(void *d, int c, size_t l)
{
  volatile char *p = d;
  if (first) event();
  while (l--) *p++ = c;
  return d;
}
char *strcpy(char *d, const char *s)
{
  volatile char *p = d;
  if (first) event();
  while ((*p++ = *s++)) ;
  return d;
}
size_t strlen(const char *s)
{
  const volatile char *p = s;
  if (first) event();
  while (*p) p++;
  return p - s;
}

#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name)) dlsym(RTLD_NEXT, #name)
int close(int a) { REAL(close); event(); return real(a); }
int fsync(int a) { REAL(fsync); event(); return real(a); }
int fdatasync(int a) { REAL(fdatasync); event(); return real(a); }
int ftruncate(int a, off_t l) { REAL(ftruncate); event(); return real(a, l); }
int ftruncate64(int a, off64_t l) { REAL(ftruncate64); event(); return real(a, l); }
off_t lseek(int a, off_t l, int w) { REAL(lseek); event(); return real(a, l, w); }
off64_t lseek64(int a, off64_t l, int w) { REAL(lseek64); event(); return real(a, l, w); }
ssize_t write(int a, const void *b, size_t l) { REAL(write); event(); return real(a, b, l); }
void *mmap(void *a, size_t l, int p, int f, int d, off_t o) { REAL(mmap); event(); return real(a, l, p, f, d, o); }
int munmap(void *a, size_t l) { REAL(munmap); event(); return real(a, l); }
int msync(void *a, size_t l, int f) { REAL(msync); event(); return real(a, l, f); }
int rename(const char *a, const char *b) { REAL(rename); event(); return real(a, b); }
int unlink(const char *a) { REAL(unlink); event(); return real(a); }
int link(const char *a, const char *b) { REAL(link); event(); return real(a, b); }

static void opening(const char *a, int fl)
{
  const char *p = a, *q = db;
  event();
  if (first || !ready || (fl & O_ACCMODE) == O_RDONLY) return;
  while (*q && *p == *q) p++, q++;
  if (*q) return;
  for (; *p; p++) if (p[0] == '.' && p[1] == 'l' && p[2] == 'o') return;    /* not the lock */
  first = n;
}
#define OPEN(name) \
int name(const char *a, int fl, ...) \
{ \
  va_list ap; mode_t m = 0; REAL(name); \
  if (fl & (O_CREAT | O_TMPFILE)) { va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); } \
  opening(a, fl); \
  return real(a, fl, m); \
}
OPEN(open)
OPEN(open64)
