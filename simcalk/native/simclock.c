/* Simulated wall clock (LD_PRELOAD): CLOCK_REALTIME starts at SIMCLOCK_START seconds and moves by
   SIMCLOCK_STEP seconds at every reading (backwards too); SIMCLOCK_JUMP adds that many seconds
   after SIMCLOCK_AT readings.  Other clocks are left alone. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static long long n;
static double start, step, jump, at;
static int ready;

static double now(void) {
  if (!ready) {
    const char *s;
    start = (s = getenv("SIMCLOCK_START")) ? atof(s) : 1.7e9;
    step = (s = getenv("SIMCLOCK_STEP")) ? atof(s) : 1e-3;
    jump = (s = getenv("SIMCLOCK_JUMP")) ? atof(s) : 0;
    at = (s = getenv("SIMCLOCK_AT")) ? atof(s) : 1e18;
    ready = 1;
  }
  n++;
  return start + step * (double)n + (n > at ? jump : 0);
}

int clock_gettime(clockid_t c, struct timespec *t) {
  if (c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE) return (int)syscall(SYS_clock_gettime, c, t);
  double x = now();
  t->tv_sec = (time_t)x;
  t->tv_nsec = (long)((x - (double)t->tv_sec) * 1e9);
  return 0;
}

int gettimeofday(struct timeval *restrict t, void *restrict z) {
  double x = now();
  (void)z;
  t->tv_sec = (time_t)x;
  t->tv_usec = (suseconds_t)((x - (double)t->tv_sec) * 1e6);
  return 0;
}

time_t time(time_t *p) {
  time_t x = (time_t)now();
  if (p) *p = x;
  return x;
}
