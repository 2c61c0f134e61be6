/* Entry points the whole harness program is linked with --wrap for; the
 * engine uses the real ones. */
#ifndef VMC_REAL_H
#define VMC_REAL_H
#include <pthread.h>
#include <signal.h>
#include <stddef.h>
#include <sys/select.h>
#include <sys/types.h>
#include <termios.h>
#include <time.h>
int __real_clock_gettime(clockid_t, struct timespec *);
int __real_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *);
int __real_nanosleep(const struct timespec *, struct timespec *);
int __real_timer_create(clockid_t, struct sigevent *, timer_t *);
int __real_timer_settime(timer_t, int, const struct itimerspec *, struct itimerspec *);
int __real_timer_delete(timer_t);
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
char *__real_strdup(const char *);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_mutex_destroy(pthread_mutex_t *);
int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *);
int __real_open(const char *, int, ...);
int __real_close(int);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *);
int __real_ioctl(int, unsigned long, ...);
#define __real__exit _exit
#define __real_fork fork
#define __real_dup2 dup2
#endif
