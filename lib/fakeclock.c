/* Replacement of the real-time clock, loaded by LD_PRELOAD (see fakeclock.py).
 *
 * While switched off, the functions behave as usual.
 */
#define _GNU_SOURCE
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static volatile int active;
static volatile long long now_ns;
static volatile long long readings;

void fakeclock_set(long long ns) { now_ns = ns; active = 1; }
void fakeclock_off(void) { active = 0; }
long long fakeclock_readings(void) { return readings; }

int clock_gettime(clockid_t id, struct timespec *ts)
{
    if (active && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
        ts->tv_sec = now_ns / 1000000000LL;
        ts->tv_nsec = now_ns % 1000000000LL;
        readings++;
        return 0;
    }
    return syscall(SYS_clock_gettime, id, ts);
}

int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
    struct timespec ts;
    (void)tz;
    if (clock_gettime(CLOCK_REALTIME, &ts))
        return -1;
    if (tv) {
        tv->tv_sec = ts.tv_sec;
        tv->tv_usec = ts.tv_nsec / 1000;
    }
    return 0;
}

time_t time(time_t *out)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (out)
        *out = ts.tv_sec;
    return ts.tv_sec;
}
