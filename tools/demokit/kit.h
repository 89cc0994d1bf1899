/* Small helper for the demonstrations: real library, real files in a scratch
 * directory, a child process that is killed before its n-th changing system call. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <errno.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include "global.h"
#include "except.h"
#include "store.h"
#include "index.h"
#include "search.h"
#include "ind.h"
#include "analysis.h"
#include "document.h"
#include "array.h"
#include "internal.h"
#undef close
#undef free
#undef malloc
static int kit_kill_at = -1, kit_calls, kit_torn;   /* torn: the n-th call, if a write, stores half its bytes */
static int (*kit_fail)(const char *what, const char *path);  /* nonzero errno: fail the call */
static int (*kit_short)(const char *path, int n);   /* >= 0: write only that many bytes */
static char kit_fdname[1024][200];
ssize_t __real_write(int, const void *, size_t); int __real_open(const char *, int, ...); int __real_open64(const char *, int, ...); int __real_remove(const char *); int __real_unlink(const char *); int __real_close(int); int __real_rename(const char *, const char *); ssize_t __real_read(int, void *, size_t);
static void kit_step(void) { if (kit_kill_at >= 0 && ++kit_calls == kit_kill_at) _exit(99); }
ssize_t __wrap_write(int fd, const void *b, size_t n) {
    int e; if (kit_kill_at >= 0 && kit_torn && kit_calls + 1 == kit_kill_at) { __real_write(fd, b, n / 2); _exit(99); }
    kit_step(); if (kit_fail && fd >= 0 && fd < 1024 && (e = kit_fail("write", kit_fdname[fd]))) { errno = e; return -1; }
    if (kit_short && fd >= 0 && fd < 1024 && (e = kit_short(kit_fdname[fd], (int)n)) >= 0) return __real_write(fd, b, e);
    return __real_write(fd, b, n); }
static int kit_open(const char *p, int fl, int m) { int e, fd; if ((fl & O_ACCMODE) != O_RDONLY) kit_step(); if (kit_fail && (e = kit_fail((fl & O_ACCMODE) != O_RDONLY ? "create" : "open", p))) { errno = e; return -1; } fd = __real_open(p, fl, m); if (fd >= 0 && fd < 1024) snprintf(kit_fdname[fd], 200, "%s", p); return fd; }
#define KIT_OPEN int m = 0; va_list ap; va_start(ap, fl); if (fl & O_CREAT) m = va_arg(ap, int); va_end(ap); return kit_open(p, fl, m);
int __wrap_open(const char *p, int fl, ...) { KIT_OPEN }
int __wrap_open64(const char *p, int fl, ...) { KIT_OPEN }
int __wrap_remove(const char *p) { int e; kit_step(); if (kit_fail && (e = kit_fail("remove", p))) { errno = e; return -1; } return __real_remove(p); }
int __wrap_unlink(const char *p) { kit_step(); return __real_unlink(p); }
int __wrap_rename(const char *a, const char *b) { kit_step(); return __real_rename(a, b); }
int __wrap_close(int fd) { int e = 0; if (kit_fail && fd >= 0 && fd < 1024) e = kit_fail("close", kit_fdname[fd]); if (fd >= 0 && fd < 1024) kit_fdname[fd][0] = 0; int r = __real_close(fd); if (e) { errno = e; return -1; } return r; }
ssize_t __wrap_read(int fd, void *b, size_t n) { int e; if (kit_fail && fd >= 0 && fd < 1024 && (e = kit_fail("read", kit_fdname[fd]))) { errno = e; return -1; } return __real_read(fd, b, n); }

static char kit_dir[300];
static void kit_wipe(const char *d) { DIR *dp = opendir(d); struct dirent *e; char p[600]; if (!dp) return; while ((e = readdir(dp))) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; snprintf(p, sizeof p, "%s/%s", d, e->d_name); if (__real_unlink(p)) { kit_wipe(p); rmdir(p); } } closedir(dp); }
static void kit_done(void) { if (kit_dir[0]) { kit_wipe(kit_dir); rmdir(kit_dir); } }
static const char *kit_scratch(void) { snprintf(kit_dir, sizeof kit_dir, "%s/ferretdemoXXXXXX", getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp"); if (!mkdtemp(kit_dir)) { perror("mkdtemp"); exit(2); } return kit_dir; }
/* run fn(arg) in a child, killed at call n (0: never); returns 99 killed, 0 fine, other: fn's result or 128+signal */
static int kit_child(int (*fn)(void *), void *arg, int n, int torn) {
    int st; pid_t p; fflush(stdout); p = fork();
    if (p == 0) { alarm(60); frt_init(0, NULL); kit_calls = 0; kit_kill_at = n ? n : -1; kit_torn = torn; int r = fn(arg); fflush(stdout); _exit(r); }
    waitpid(p, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st); }
static FieldInfos *kit_fis(void) { FieldInfos *fis = fis_new(STORE_YES, INDEX_YES, TERM_VECTOR_WITH_POSITIONS_OFFSETS); return fis; }
static void kit_add(IndexWriter *iw, const char *id, const char *body) { Document *d = doc_new(); doc_add_field(d, df_add_data(df_new(intern("id")), estrdup(id)))->destroy_data = true; doc_add_field(d, df_add_data(df_new(intern("body")), estrdup(body)))->destroy_data = true; iw_add_doc(iw, d); doc_destroy(d); }
static Config kit_cfg(int mbd, int mf, int compound) { Config c = default_config; c.max_buffered_docs = mbd; c.merge_factor = mf; c.use_compound_file = compound; return c; }
#define KIT_TRY(stmt) ({ volatile int kit_rc = 0; TRY stmt; XCATCHALL HANDLED(); kit_rc = xcontext.excode; XENDTRY kit_rc; })
