/* Virtual environment: clock, timers, allocator, mutexes, system calls. */
#ifndef VMC_ENV_H
#define VMC_ENV_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <sys/select.h>
#include <sys/types.h>
#include <pthread.h>
#include <signal.h>
#include <time.h>

/* ---- virtual time (microseconds) ---- */
extern bool env_virtual_time;           /* default true */
extern uint64_t env_now;                /* current virtual time, starts at T0 */
#define T0 (1000ULL * 1000000ULL)
#define T0MS (T0 / 1000)
uint64_t env_ms(void);
void env_advance_us(uint64_t us);
/* called when the code sleeps; default: advance.  Returns 0, or EINTR with
 * *remain_us set, as clock_nanosleep would */
extern int (*env_sleep_hook)(uint64_t us, uint64_t *remain_us);
extern void (*env_clock_hook)(void);    /* called on each clock read */
/* support of a clock id: 0 fine, else what clock_gettime (as errno) / clock_nanosleep return */
extern int (*env_clockid_hook)(clockid_t, int sleeping);

/* ---- periodic timer ---- */
extern int env_timers_live;             /* created and not deleted */
extern bool env_timer_armed;
extern uint64_t env_timer_period_us;
extern bool env_timer_is_thread;
extern void (*env_timer_fn)(union sigval);
void env_timer_fire(void);              /* one expiry, in the calling thread */
extern int env_timer_fail;              /* 1: timer_create fails, 2: timer_settime fails */

/* ---- allocator ---- */
long env_live(void);                    /* live blocks allocated through wraps */
long env_live_bytes(void);
extern volatile long env_alloc_seq;              /* allocations so far */
extern volatile long env_alloc_fail_at;          /* this allocation fails (1-based; 0: none) */
extern volatile long env_alloc_failed;           /* number of failures injected */
extern bool env_alloc_track;
extern int (*volatile env_alloc_hook)(size_t n); /* returns 1 to fail */
void env_alloc_dump(void);              /* vmc_log of live blocks */
void env_alloc_mark(void);              /* forget what is live now */

/* ---- mutexes ---- */
extern int (*env_lock_hook)(pthread_mutex_t *, int op);    /* op 0 lock 1 trylock 2 unlock 3 destroy 4 init; -1000: pass */

/* ---- system calls ---- */
struct env_sys {
	int (*open)(const char *path, int flags, int mode);
	int (*close)(int fd);
	ssize_t (*read)(int fd, void *buf, size_t n);
	ssize_t (*write)(int fd, const void *buf, size_t n);
	int (*select)(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv);
	int (*ioctl)(int fd, unsigned long req, void *arg);
};
extern struct env_sys env_sys;          /* NULL members: the real call */

void env_reset(void);                   /* everything to defaults */
#endif
