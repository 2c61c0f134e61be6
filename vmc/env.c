#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "env.h"
#include "real.h"
#include "vmc.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

bool env_virtual_time = true;

uint64_t env_now = T0;
int (*env_sleep_hook)(uint64_t us, uint64_t *remain_us);
void (*env_clock_hook)(void);
int (*env_clockid_hook)(clockid_t, int sleeping);

uint64_t env_ms(void) { return env_now / 1000; }
void env_advance_us(uint64_t us) { env_now += us; }

int __wrap_clock_gettime(clockid_t c, struct timespec *ts) {
	if (!env_virtual_time) {
		return __real_clock_gettime(c, ts);
	}
	int e = env_clockid_hook ? env_clockid_hook(c, 0) : 0;
	if (e) {
		errno = e;
		return -1;
	}
	if (env_clock_hook) {
		env_clock_hook();
	}
	vmc_tick();
	ts->tv_sec = (time_t)(env_now / 1000000);
	ts->tv_nsec = (long)(env_now % 1000000) * 1000;
	env_now++;      /* reading the clock takes time, so busy waits progress */
	return 0;
}

static int vsleep(const struct timespec *rq, struct timespec *rem, int absolute) {
	uint64_t us = (uint64_t)rq->tv_sec * 1000000 + ((uint64_t)rq->tv_nsec + 999) / 1000;
	if (rq->tv_nsec < 0 || rq->tv_nsec > 999999999 || rq->tv_sec < 0) {
		return EINVAL;
	}
	if (absolute) {
		us = us > env_now ? us - env_now : 0;
	}
	vmc_tick();
	uint64_t r = 0;
	int rv = 0;
	if (env_sleep_hook) {
		rv = env_sleep_hook(us, &r);
	} else {
		env_now += us;
	}
	if (rv == EINTR && rem && !absolute) {
		rem->tv_sec = (time_t)(r / 1000000);
		rem->tv_nsec = (long)(r % 1000000) * 1000;
	}
	return rv;
}

int __wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec *rq, struct timespec *rem) {
	if (!env_virtual_time) {
		return __real_clock_nanosleep(c, fl, rq, rem);
	}
	int e = env_clockid_hook ? env_clockid_hook(c, 1) : 0;
	if (e) {
		return e;
	}
	return vsleep(rq, rem, fl & TIMER_ABSTIME);
}

int __wrap_nanosleep(const struct timespec *rq, struct timespec *rem) {
	if (!env_virtual_time) {
		return __real_nanosleep(rq, rem);
	}
	int rv = vsleep(rq, rem, 0);
	if (rv) {
		errno = rv;
		return -1;
	}
	return 0;
}

int __wrap_usleep(useconds_t us) {
	struct timespec t = {us / 1000000, (long)(us % 1000000) * 1000};
	return __wrap_nanosleep(&t, NULL);
}

/* ---- timers ---- */
int env_timers_live;
bool env_timer_armed;
uint64_t env_timer_period_us;
bool env_timer_is_thread;
void (*env_timer_fn)(union sigval);
int env_timer_fail;

int __wrap_timer_create(clockid_t c, struct sigevent *se, timer_t *t) {
	(void)c;
	if (env_timer_fail == 1) {
		errno = EAGAIN;
		return -1;
	}
	env_timers_live++;
	env_timer_armed = false;
	env_timer_is_thread = se && se->sigev_notify == SIGEV_THREAD;
	env_timer_fn = env_timer_is_thread ? se->sigev_notify_function : NULL;
	*t = (timer_t)(uintptr_t)0x1234;
	return 0;
}
int __wrap_timer_settime(timer_t t, int f, const struct itimerspec *n, struct itimerspec *o) {
	(void)t; (void)f; (void)o;
	if (env_timer_fail == 2) {
		errno = EINVAL;
		return -1;
	}
	env_timer_armed = n->it_value.tv_sec || n->it_value.tv_nsec;
	env_timer_period_us = (uint64_t)n->it_interval.tv_sec * 1000000 + (uint64_t)n->it_interval.tv_nsec / 1000;
	return 0;
}
int __wrap_timer_delete(timer_t t) {
	(void)t;
	if (env_timers_live > 0) {
		env_timers_live--;
	}
	env_timer_armed = false;
	return 0;
}
int (*env_setitimer_hook)(void);
void env_timer_fire(void) {
	if (env_timer_armed && env_timers_live > 0 && env_timer_fn) {
		union sigval v;
		memset(&v, 0, sizeof(v));
		env_timer_fn(v);
	}
}

/* ---- allocator ---- */
#define TBITS 16
#define TSZ (1u << TBITS)
static struct { void *p; size_t n; long seq; } tab[TSZ];
static long live, live_bytes;
volatile long env_alloc_seq, env_alloc_fail_at, env_alloc_failed;
bool env_alloc_track = true;
int (*volatile env_alloc_hook)(size_t n);
static pthread_mutex_t amtx = PTHREAD_MUTEX_INITIALIZER;

static unsigned slot(void *p) {
	uint64_t h = (uint64_t)(uintptr_t)p;
	h ^= h >> 17;
	h *= 0x9E3779B97F4A7C15ULL;
	return (unsigned)(h >> (64 - TBITS));
}

static void track(void *p, size_t n) {
	if (!p || !env_alloc_track || live > (long)TSZ / 2) {
		return;
	}
	__real_pthread_mutex_lock(&amtx);
	unsigned i = slot(p);
	while (tab[i].p) {
		i = (i + 1) & (TSZ - 1);
	}
	tab[i].p = p;
	tab[i].n = n;
	tab[i].seq = env_alloc_seq;
	live++;
	live_bytes += (long)n;
	__real_pthread_mutex_unlock(&amtx);
}

static void untrack(void *p) {
	if (!p || !live) {
		return;
	}
	__real_pthread_mutex_lock(&amtx);
	unsigned i = slot(p);
	while (tab[i].p) {
		if (tab[i].p == p) {
			live--;
			live_bytes -= (long)tab[i].n;
			/* backward-shift deletion */
			unsigned h = i, j = i;
			for (;;) {
				j = (j + 1) & (TSZ - 1);
				if (!tab[j].p) {
					break;
				}
				unsigned k = slot(tab[j].p);
				if (((j - k) & (TSZ - 1)) >= ((j - h) & (TSZ - 1))) {
					tab[h] = tab[j];
					h = j;
				}
			}
			tab[h].p = NULL;
			break;
		}
		i = (i + 1) & (TSZ - 1);
	}
	__real_pthread_mutex_unlock(&amtx);
}

long env_live(void) { return live; }
long env_live_bytes(void) { return live_bytes; }
void env_alloc_mark(void) {
	memset(tab, 0, sizeof(tab));
	live = live_bytes = 0;
}
void env_alloc_dump(void) {
	for (unsigned i = 0; i < TSZ; i++) {
		if (tab[i].p) {
			vmc_log("live block: %zu bytes, allocation #%ld", tab[i].n, tab[i].seq);
		}
	}
}

static int failing(size_t n) {
	env_alloc_seq++;
	if (env_alloc_hook && env_alloc_hook(n)) {
		env_alloc_failed++;
		errno = ENOMEM;
		return 1;
	}
	if (env_alloc_fail_at && env_alloc_seq == env_alloc_fail_at) {
		env_alloc_failed++;
		errno = ENOMEM;
		return 1;
	}
	return 0;
}

void *__wrap_malloc(size_t n) {
	if (failing(n)) {
		return NULL;
	}
	void *p = __real_malloc(n);
	if (p && n <= (1 << 20)) {
		memset(p, 0xBE, n);     /* uninitialised memory is at least deterministic */
	}
	track(p, n);
	return p;
}
void *__wrap_calloc(size_t a, size_t b) {
	if (failing(a * b)) {
		return NULL;
	}
	void *p = __real_calloc(a, b);
	track(p, a * b);
	return p;
}
void *__wrap_realloc(void *o, size_t n) {
	if (failing(n)) {
		return NULL;
	}
	untrack(o);
	void *p = __real_realloc(o, n);
	if (p) {
		track(p, n);
	}
	return p;
}
void __wrap_free(void *p) {
	untrack(p);
	__real_free(p);
}
char *__wrap_strdup(const char *s) {
	size_t n = strlen(s) + 1;
	char *p = __wrap_malloc(n);
	if (p) {
		memcpy(p, s, n);
	}
	return p;
}

/* ---- mutexes ---- */
int (*env_lock_hook)(pthread_mutex_t *, int op);
#define LK(op, real) do { if (env_lock_hook) { int r_ = env_lock_hook(m, op); if (r_ != -1000) { return r_; } } return real; } while (0)
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { LK(0, __real_pthread_mutex_lock(m)); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { LK(1, __real_pthread_mutex_trylock(m)); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { LK(2, __real_pthread_mutex_unlock(m)); }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { LK(3, __real_pthread_mutex_destroy(m)); }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { LK(4, __real_pthread_mutex_init(m, a)); }

/* ---- system calls ---- */
struct env_sys env_sys;
int __wrap_open(const char *path, int flags, ...) {
	va_list ap;
	va_start(ap, flags);
	int mode = va_arg(ap, int);
	va_end(ap);
	return env_sys.open ? env_sys.open(path, flags, mode) : __real_open(path, flags, mode);
}
int __wrap_close(int fd) { return env_sys.close ? env_sys.close(fd) : __real_close(fd); }
ssize_t __wrap_read(int fd, void *b, size_t n) { return env_sys.read ? env_sys.read(fd, b, n) : __real_read(fd, b, n); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { return env_sys.write ? env_sys.write(fd, b, n) : __real_write(fd, b, n); }
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
	return env_sys.select ? env_sys.select(n, r, w, e, tv) : __real_select(n, r, w, e, tv);
}
int __wrap_ioctl(int fd, unsigned long req, ...) {
	va_list ap;
	va_start(ap, req);
	void *a = va_arg(ap, void *);
	va_end(ap);
	return env_sys.ioctl ? env_sys.ioctl(fd, req, a) : __real_ioctl(fd, req, a);
}

void env_reset(void) {
	env_now = T0;
	env_sleep_hook = NULL;
	env_clock_hook = NULL;
	env_clockid_hook = NULL;
	env_timer_fail = 0;
	env_alloc_seq = env_alloc_fail_at = env_alloc_failed = 0;
	env_alloc_hook = NULL;
	env_lock_hook = NULL;
	memset(&env_sys, 0, sizeof(env_sys));
}
