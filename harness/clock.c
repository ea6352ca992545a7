// A clock for the program under test (LD_PRELOAD): it starts at FAKE_START (microseconds), every reading lets
// it advance by FAKE_STEP microseconds, and waiting advances it by the time asked for, without waiting.
// Readings and the sums of the waits between them are appended to the file FAKE_LOG.
#define _GNU_SOURCE
#include <poll.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static long long now, step;
static int started;
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;

static long long waited;   // since the last reading, in nanoseconds
static int waits;

static void append(const char *what, long long v)
{
	const char *name = getenv("FAKE_LOG");
	FILE *f = name ? fopen(name, "a") : NULL;
	if (f)
	{
		fprintf(f, "%s %lld\n", what, v);
		fclose(f);
	}
}

static void flush_waits(void)
{
	if (waits) append("wait", waited);
	waits = 0;
	waited = 0;
}

static void __attribute__((destructor)) finish(void) { flush_waits(); }

static void note(const char *what, long long v)
{
	if (*what == 'w')
	{
		waited += v > 0 ? v : 0;
		waits = 1;
		return;
	}
	flush_waits();
	append(what, v);
}

static long long seconds(long long t) { return t >= 0 ? t / 1000000 : -((999999 - t) / 1000000); }

static void start(void)
{
	if (!started)
	{
		started = 1;
		now = atoll(getenv("FAKE_START") ? getenv("FAKE_START") : "0");
		step = atoll(getenv("FAKE_STEP") ? getenv("FAKE_STEP") : "0");
	}
}

static long long reading(void)
{
	pthread_mutex_lock(&lock);
	start();
	long long t = now;
	now += step;
	note("read", t);
	pthread_mutex_unlock(&lock);
	return t;
}

static void waiting(long long ns)
{
	pthread_mutex_lock(&lock);
	start();
	note("wait", ns);
	if (ns > 0)
	{
		now += ns / 1000;
	}
	pthread_mutex_unlock(&lock);
}

time_t time(time_t *p)
{
	time_t t = (time_t)seconds(reading());
	if (p) *p = t;
	return t;
}

int gettimeofday(struct timeval *tv, void *tz)
{
	long long t = reading();
	tv->tv_sec = seconds(t);
	tv->tv_usec = t - seconds(t) * 1000000;
	return 0;
}

int clock_gettime(clockid_t id, struct timespec *ts)
{
	long long t = reading();
	ts->tv_sec = seconds(t);
	ts->tv_nsec = (t - seconds(t) * 1000000) * 1000;
	return 0;
}

int timespec_get(struct timespec *ts, int base)
{
	clock_gettime(CLOCK_REALTIME, ts);
	return base;
}

int nanosleep(const struct timespec *t, struct timespec *rest)
{
	waiting(t->tv_sec * 1000000000LL + t->tv_nsec);
	return 0;
}

int clock_nanosleep(clockid_t id, int flags, const struct timespec *t, struct timespec *rest)
{
	long long ns = t->tv_sec * 1000000000LL + t->tv_nsec;
	if (flags & TIMER_ABSTIME)
	{
		start();
		ns -= now * 1000;
	}
	waiting(ns);
	return 0;
}

int usleep(useconds_t us) { waiting(us * 1000LL); return 0; }
unsigned int sleep(unsigned int s) { waiting(s * 1000000000LL); return 0; }

int poll(struct pollfd *fds, nfds_t n, int ms)
{
	if (n == 0 && ms >= 0)
	{
		waiting(ms * 1000000LL);
		return 0;
	}
	return (int)syscall(SYS_poll, fds, n, ms);
}

int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t)
{
	if (n == 0 && t)
	{
		waiting(t->tv_sec * 1000000000LL + t->tv_usec * 1000LL);
		return 0;
	}
	return (int)syscall(SYS_select, n, r, w, e, t);
}
