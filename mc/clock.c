/* A clock the checks control.
 *
 * Preloaded into a worker.  While disarmed every call goes to the real clock.
 * While armed, all clocks stand still until the k-th query since arming, and
 * from that query on show a later time.  A search with a time limit therefore
 * expires at exactly the k-th look at the clock.  If asked to, the clock goes on
 * by the same amount at every later query.  It never goes back: the next call
 * starts at the time last shown.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <sys/time.h>
#include <time.h>

#define NS 1000000000LL
static volatile int armed = 0, ticking = 0;
static volatile long expire_at = 0, queries = 0;
static volatile long long base = 1000000 * NS, jump = 100 * NS, shown = 1000000 * NS;

static int (*real_gettime)(clockid_t, struct timespec *);
static int (*real_tod)(struct timeval *, void *);
static time_t (*real_time)(time_t *);
static clock_t (*real_clock)(void);

static long long now_ns(void)
{
    long q = ++queries;
    shown = base;
    if (expire_at > 0 && q >= expire_at)
        shown = base + (ticking ? (q - expire_at + 1) * jump : jump);
    return shown;
}

/* expire at query k (0: never) by this many nanoseconds */
void mc_arm(long k, long long by, int tick)
{
    expire_at = k;
    jump = by;
    ticking = tick;
    queries = 0;
    base = shown;
    armed = 1;
}

long mc_disarm(void)
{
    armed = 0;
    return queries;
}

int clock_gettime(clockid_t id, struct timespec *ts)
{
    if (armed && ts)
    {
        long long t = now_ns();
        ts->tv_sec = t / NS;
        ts->tv_nsec = t % NS;
        return 0;
    }
    if (!real_gettime) real_gettime = dlsym(RTLD_NEXT, "clock_gettime");
    return real_gettime(id, ts);
}

int gettimeofday(struct timeval *tv, void *tz)
{
    if (armed && tv)
    {
        long long t = now_ns();
        tv->tv_sec = t / NS;
        tv->tv_usec = t % NS / 1000;
        return 0;
    }
    if (!real_tod) real_tod = dlsym(RTLD_NEXT, "gettimeofday");
    return real_tod(tv, tz);
}

time_t time(time_t *t)
{
    if (armed)
    {
        time_t v = now_ns() / NS;
        if (t) *t = v;
        return v;
    }
    if (!real_time) real_time = dlsym(RTLD_NEXT, "time");
    return real_time(t);
}

clock_t clock(void)
{
    if (armed) return (clock_t)(now_ns() / (NS / CLOCKS_PER_SEC));
    if (!real_clock) real_clock = dlsym(RTLD_NEXT, "clock");
    return real_clock();
}
