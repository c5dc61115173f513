/* Preloaded into mairix: the clock stands at $FAKE_NOW seconds. */
#define _GNU_SOURCE
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>
static time_t now(void) { const char *e = getenv("FAKE_NOW"); return e ? (time_t) atoll(e) : 0; }
time_t time(time_t *t) { time_t n = now(); if (t) *t = n; return n; }
int gettimeofday(struct timeval *tv, void *tz) { (void) tz; tv->tv_sec = now(); tv->tv_usec = 0; return 0; }
int clock_gettime(clockid_t c, struct timespec *ts) { (void) c; ts->tv_sec = now(); ts->tv_nsec = 0; return 0; }
