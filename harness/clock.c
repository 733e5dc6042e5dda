/* The time of day as given by NBV_NOW (linked with --wrap), so that every
   backup of a history has a completion time of its own. */
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>

time_t __real_time(time_t *);
int __real_clock_gettime(clockid_t, struct timespec *);
int __real_gettimeofday(struct timeval *, void *);

static int fixed(time_t *t)
{
  const char *s = getenv("NBV_NOW");
  if(s == NULL || *s == 0) return 0;
  *t = (time_t)strtoll(s, NULL, 10);
  return 1;
}

time_t __wrap_time(time_t *out)
{
  time_t t;
  if(!fixed(&t)) return __real_time(out);
  if(out) *out = t;
  return t;
}

int __wrap_clock_gettime(clockid_t id, struct timespec *ts)
{
  int r = __real_clock_gettime(id, ts);
  time_t t;
  if(r == 0 && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) && fixed(&t)) ts->tv_sec = t;
  return r;
}

int __wrap_gettimeofday(struct timeval *tv, void *tz)
{
  int r = __real_gettimeofday(tv, tz);
  time_t t;
  if(r == 0 && fixed(&t)) tv->tv_sec = t;
  return r;
}
