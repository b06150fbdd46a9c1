#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <time.h>
#include <sys/time.h>
#include <sys/select.h>
#include <unistd.h>
#include <errno.h>
#include <sys/syscall.h>
static double K = 1, B = 0;
__attribute__((constructor)) static void begin(void) {
	const char *k = getenv("VMON_SPEED"), *b = getenv("VMON_SPEED_FROM");
	if (k && b) { K = atof(k); B = atof(b); }
}
static double now(void) {
	struct timespec t;
	syscall(SYS_clock_gettime, CLOCK_REALTIME, &t);
	double r = t.tv_sec + t.tv_nsec / 1e9;
	return B ? B + (r - B) * K : r;
}
time_t time(time_t *p) { time_t t = (time_t)now(); if (p) *p = t; return t; }
int gettimeofday(struct timeval *restrict tv, void *restrict z) { double n = now(); if (tv) { tv->tv_sec = (time_t)n; tv->tv_usec = (n - (time_t)n) * 1e6; } return 0; }
int clock_gettime(clockid_t c, struct timespec *ts) {
	if (c != CLOCK_REALTIME) return syscall(SYS_clock_gettime, c, ts);
	double n = now(); ts->tv_sec = (time_t)n; ts->tv_nsec = (n - (time_t)n) * 1e9; return 0;
}
static struct timespec quick(const struct timespec *t) { double d = (t->tv_sec + t->tv_nsec / 1e9) / K; struct timespec q = {(time_t)d, (long)((d - (time_t)d) * 1e9)}; return q; }
int nanosleep(const struct timespec *t, struct timespec *rem) { struct timespec q = quick(t); return syscall(SYS_nanosleep, &q, rem); }
int clock_nanosleep(clockid_t c, int f, const struct timespec *t, struct timespec *rem) {
	if (f) return syscall(SYS_clock_nanosleep, c, f, t, rem) < 0 ? errno : 0;
	struct timespec q = quick(t);
	return syscall(SYS_clock_nanosleep, c, 0, &q, rem) < 0 ? errno : 0;
}
unsigned sleep(unsigned s) { struct timespec t = {s, 0}; nanosleep(&t, 0); return 0; }
