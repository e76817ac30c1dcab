/* Simulated system clock: interposes the C library's wall clock calls.
 * While sim_clock_on is 0 the real clock is read.  Only the wall clock
 * (CLOCK_REALTIME) is simulated; CLOCK_MONOTONIC, which the harness uses for
 * its own budgets, is left alone.
 *   sim_clock_ns      current simulated time, nanoseconds since the epoch
 *   sim_clock_tick    added to it after every reading (a clock that moves)
 *   sim_clock_jump_at countdown of readings after which sim_clock_jump is added
 */
#define _GNU_SOURCE
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
volatile int sim_clock_on = 0;
volatile long long sim_clock_ns = 0, sim_clock_tick = 0, sim_clock_jump = 0;
volatile long long sim_clock_jump_at = 0, sim_clock_reads = 0;
static long long now_ns(void) {
    if (sim_clock_jump_at > 0 && --sim_clock_jump_at == 0) sim_clock_ns += sim_clock_jump;
    long long r = sim_clock_ns;
    sim_clock_ns += sim_clock_tick;
    sim_clock_reads++;
    return r;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
    if (sim_clock_on && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) {
        long long n = now_ns();
        ts->tv_sec = n / 1000000000LL; ts->tv_nsec = n % 1000000000LL;
        return 0;
    }
    return (int)syscall(SYS_clock_gettime, c, ts);
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    struct timespec ts; (void)tz;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return 0;
}
time_t time(time_t *t) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
