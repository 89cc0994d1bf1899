/* Linked into every simulated process with ld --wrap: all nondeterminism of
 * the library goes to the kernel.  Not instrumented. */
#define _GNU_SOURCE
#include "kapi.h"
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <pthread.h>
#include <dirent.h>
#include <unistd.h>
#include <sys/select.h>

void __sanitizer_cov_trace_pc(void) { if (__builtin_expect(--k_bb_budget <= 0, 0)) k_bb_slow(); }
/* only in libfine.so: one step per access to memory outside the thread's own stack */
#define ACCESS(n) void __sanitizer_cov_##n(void *p) { if ((unsigned long)((char *)p - (char *)__builtin_frame_address(0)) > 0x40000ul && __builtin_expect(--k_bb_budget <= 0, 0)) k_bb_slow(); }
ACCESS(load1) ACCESS(load2) ACCESS(load4) ACCESS(load8) ACCESS(load16) ACCESS(store1) ACCESS(store2) ACCESS(store4) ACCESS(store8) ACCESS(store16)

#define OPENBODY int m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); } return k_open(p, fl, m);
int __wrap_open(const char *p, int fl, ...) { OPENBODY }
int __wrap_open64(const char *p, int fl, ...) { OPENBODY }
int __wrap_openat(int d, const char *p, int fl, ...) { (void)d; OPENBODY }
int __wrap_openat64(int d, const char *p, int fl, ...) { (void)d; OPENBODY }
int __wrap_creat(const char *p, mode_t m) { return k_open(p, O_CREAT|O_WRONLY|O_TRUNC, m); }
int __wrap_creat64(const char *p, mode_t m) { return k_open(p, O_CREAT|O_WRONLY|O_TRUNC, m); }
int __wrap_close(int fd) { return k_close(fd); }
ssize_t __wrap_read(int fd, void *b, size_t n) { return k_read(fd, b, n); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { return k_write(fd, b, n); }
ssize_t __wrap_pread(int fd, void *b, size_t n, off_t o) { return k_pread(fd, b, n, o); }
ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t o) { return k_pwrite(fd, b, n, o); }
ssize_t __wrap_pread64(int fd, void *b, size_t n, off_t o) { return k_pread(fd, b, n, o); }
ssize_t __wrap_pwrite64(int fd, const void *b, size_t n, off_t o) { return k_pwrite(fd, b, n, o); }
off_t __wrap_lseek(int fd, off_t o, int w) { return k_lseek(fd, o, w); }
off_t __wrap_lseek64(int fd, off_t o, int w) { return k_lseek(fd, o, w); }
int __wrap_fsync(int fd) { return k_fsync(fd); }
int __wrap_fdatasync(int fd) { return k_fsync(fd); }
int __wrap_ftruncate(int fd, off_t n) { return k_ftruncate(fd, n); }
int __wrap_ftruncate64(int fd, off_t n) { return k_ftruncate(fd, n); }
int __wrap_stat(const char *p, struct stat *s) { return k_stat(p, s); }
int __wrap_stat64(const char *p, struct stat *s) { return k_stat(p, s); }
int __wrap_lstat(const char *p, struct stat *s) { return k_stat(p, s); }
int __wrap_lstat64(const char *p, struct stat *s) { return k_stat(p, s); }
int __wrap_fstat(int fd, struct stat *s) { return k_fstat(fd, s); }
int __wrap_fstat64(int fd, struct stat *s) { return k_fstat(fd, s); }
int __wrap_access(const char *p, int m) { return k_access(p, m); }
int __wrap_unlink(const char *p) { return k_unlink(p); }
int __wrap_remove(const char *p) { return k_remove(p); }
int __wrap_rename(const char *a, const char *b) { return k_rename(a, b); }
int __wrap_link(const char *a, const char *b) { return k_link(a, b); }
int __wrap_mkdir(const char *p, mode_t m) { return k_mkdir(p, m); }
int __wrap_rmdir(const char *p) { return k_rmdir(p); }
DIR *__wrap_opendir(const char *p) { return (DIR *)k_opendir(p); }
struct dirent *__wrap_readdir(DIR *d) { return (struct dirent *)k_readdir(d); }
struct dirent *__wrap_readdir64(DIR *d) { return (struct dirent *)k_readdir(d); }
int __wrap_closedir(DIR *d) { return k_closedir(d); }
int __wrap_dup(int fd) { return k_dup(fd); }
int __wrap_flock(int fd, int op) { return k_flock(fd, op); }
int __wrap_fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return k_fcntl(fd, cmd, a); }
int __wrap_fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return k_fcntl(fd, cmd, a); }
time_t __wrap_time(time_t *t) { time_t v = (time_t)(k_time_us() / 1000000); if (t) *t = v; return v; }
int __wrap_gettimeofday(struct timeval *tv, void *tz) { (void)tz; int64_t u = k_time_us(); tv->tv_sec = u / 1000000; tv->tv_usec = u % 1000000; return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) { (void)c; int64_t u = k_time_us(); ts->tv_sec = u / 1000000; ts->tv_nsec = (u % 1000000) * 1000; return 0; }
int __wrap_usleep(unsigned long us) { k_sleep_us((int64_t)us); return 0; }
unsigned __wrap_sleep(unsigned s) { k_sleep_us((int64_t)s * 1000000); return 0; }
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { (void)b; k_sleep_us(a->tv_sec * 1000000LL + a->tv_nsec / 1000); return 0; }
int __wrap_select(int n, void *r, void *w, void *e, struct timeval *tv) { (void)n; (void)r; (void)w; (void)e; if (tv) k_sleep_us(tv->tv_sec * 1000000LL + tv->tv_usec); return 0; }
int __wrap_sched_yield(void) { k_yield(); return 0; }
int __wrap_getpid(void) { return 4242; }
unsigned __wrap_getgid(void) { return 1000; }
unsigned __wrap_getuid(void) { return 1000; }
int __wrap_getgroups(int n, unsigned *l) { (void)n; (void)l; return 0; }
unsigned __wrap_umask(unsigned m) { (void)m; return 022; }
FILE *__wrap_popen(const char *c, const char *t) { (void)c; (void)t; return NULL; }
void *__wrap_malloc(size_t n) { return k_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return k_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return k_realloc(p, n); }
void __wrap_free(void *p) { k_free(p); }
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *r = k_malloc(n); if (r) memcpy(r, s, n); return r; }
char *__wrap_strndup(const char *s, size_t n) { size_t l = strnlen(s, n); char *r = k_malloc(l + 1); if (r) { memcpy(r, s, l); r[l] = 0; } return r; }
void __wrap_exit(int c) { (void)c; k_die("the library called exit()"); }
void __wrap__exit(int c) { (void)c; k_die("the library called _exit()"); }
void __wrap_abort(void) { k_die("the library called abort()"); }
void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
    char b[400]; const char *q = strrchr(f, '/'); (void)l; snprintf(b, sizeof b, "assertion failed: %.200s (%s, %s)", e, q ? q + 1 : f, fn); k_die(b); }
int __wrap_sigaction(int s, const void *a, void *o) { (void)s; (void)a; if (o) memset(o, 0, sizeof(void *)); return 0; }
int __wrap_atexit(void (*f)(void)) { (void)f; return 0; }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { int t = 0; if (a) pthread_mutexattr_gettype(a, &t); return k_mutex_init(m, t == PTHREAD_MUTEX_RECURSIVE); }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { return k_mutex_destroy(m); }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { return k_mutex_lock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { return k_mutex_trylock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { return k_mutex_unlock(m); }
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) { return k_once(o, f); }
int __wrap_pthread_key_create(pthread_key_t *k, void (*f)(void *)) { (void)f; return k_key_create(k); }
int __wrap_pthread_key_delete(pthread_key_t k) { return k_key_delete(k); }
void *__wrap_pthread_getspecific(pthread_key_t k) { return k_getspecific(k); }
int __wrap_pthread_setspecific(pthread_key_t k, const void *v) { return k_setspecific(k, v); }
