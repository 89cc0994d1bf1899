/* Interface between a simulated process (library + client, one .so copy) and
 * the simulator kernel (main executable).  C only. */
#ifndef KAPI_H
#define KAPI_H
#include <stddef.h>
#include <stdint.h>
#include <sys/types.h>
#ifdef __cplusplus
extern "C" {
#endif

/* ---- system-call seam ------------------------------------------------ */
int     k_open(const char *path, int flags, int mode);
int     k_close(int fd);
ssize_t k_read(int fd, void *buf, size_t n);
ssize_t k_write(int fd, const void *buf, size_t n);
ssize_t k_pread(int fd, void *buf, size_t n, int64_t off);
ssize_t k_pwrite(int fd, const void *buf, size_t n, int64_t off);
int64_t k_lseek(int fd, int64_t off, int whence);
int     k_fsync(int fd);
int     k_ftruncate(int fd, int64_t len);
int     k_stat(const char *path, void *st);
int     k_fstat(int fd, void *st);
int     k_access(const char *path, int mode);
int     k_unlink(const char *path);
int     k_remove(const char *path);
int     k_rename(const char *a, const char *b);
int     k_link(const char *a, const char *b);
int     k_mkdir(const char *path, int mode);
int     k_rmdir(const char *path);
void   *k_opendir(const char *path);
void   *k_readdir(void *d);
int     k_closedir(void *d);
int     k_dup(int fd);
int     k_flock(int fd, int op);
int     k_fcntl(int fd, int cmd, long arg);
int64_t k_time_us(void);
void    k_sleep_us(int64_t us);
void   *k_malloc(size_t n);
void   *k_calloc(size_t a, size_t b);
void   *k_realloc(void *p, size_t n);
void    k_free(void *p);
int     k_mutex_init(void *m, int recursive);
int     k_mutex_destroy(void *m);
int     k_mutex_lock(void *m);
int     k_mutex_trylock(void *m);
int     k_mutex_unlock(void *m);
int     k_once(void *o, void (*f)(void));
int     k_key_create(unsigned *k);
int     k_key_delete(unsigned k);
void   *k_getspecific(unsigned k);
int     k_setspecific(unsigned k, const void *v);
void    k_yield(void);
void    k_die(const char *why) __attribute__((noreturn));
int     k_real_write(int fd, const void *buf, size_t n);
extern long k_bb_budget;
void    k_bb_slow(void);

/* ---- client protocol --------------------------------------------------*/
typedef struct CField { const char *name; int nvals; const char **vals; const int *lens; float boost; } CField;
typedef struct CDoc { int nf; CField *f; float boost; } CDoc;

/* schema of one field, applied when an index is created */
typedef struct CSchemaField { const char *name; int store; int index; int tv; float boost; } CSchemaField;
typedef struct CSchema { int nf; CSchemaField *f; int dstore, dindex, dtv; } CSchema;

typedef struct CConfig {
    int chunk_size, max_buffer_memory, index_interval, skip_interval, merge_factor,
        max_buffered_docs, max_merge_docs, max_field_length, use_compound;
} CConfig;

/* query tree, shared with the reference model */
enum { Q_TERM = 1, Q_BOOL, Q_PHRASE, Q_PREFIX, Q_WILD, Q_RANGE, Q_FUZZY, Q_MULTI, Q_ALL,
       Q_SPANTERM, Q_SPANFIRST, Q_SPANOR, Q_SPANNEAR, Q_SPANNOT, Q_FILTERED, Q_CONST,
       Q_TRANGE, Q_SPANMULTI, Q_SPANPREFIX };
typedef struct CQuery {
    int type;
    const char *field;
    int ns; const char **s;      /* strings: terms / lower+upper / prefix */
    const int *pi;               /* phrase position increments */
    int a, b, c;                 /* slop / flags / prefix length ...; c: boost */
    float x;                     /* min similarity */
    int nc; struct CQuery **ch; const int *occ;   /* children; occur 0 should 1 must 2 must_not */
} CQuery;

typedef struct CSearch {
    CQuery *q; CQuery *filter;    /* filter: a range (Q_RANGE) or any query; NULL none */
    int first, num;               /* num<0: all */
    int sort;                     /* 0 score, 1 docid, 2 int, 3 string, 4 float, 5 auto, 6 docid rev ... */
    const char *sort_field; int sort_rev; const char *sort_field2; int sort2; int sort2_rev;
    int filter_cached;            /* use the filter twice */
} CSearch;

/* typed stream operations for the store property */
typedef struct CStream { int code; int a; int64_t n; const char *s; int len; } CStream;

enum {
    OP_NOP = 0,
    OP_OPEN_STORE, OP_CLOSE_STORE, OP_CREATE, OP_OPEN_W, OP_CLOSE_W, OP_ADD, OP_DELTERM, OP_DELTERMS,
    OP_COMMIT, OP_OPTIMIZE, OP_DOCCOUNT, OP_ADD_READERS,
    OP_OPEN_R, OP_CLOSE_R, OP_DUMP, OP_RDEL, OP_RUNDEL, OP_RNORM, OP_RCOMMIT, OP_IS_LATEST, OP_SEARCH,
    OP_IS_LOCKED, OP_CLEAR_LOCKS, OP_EXIT, OP_SLEEP, OP_LOCKOBJ, OP_UNLOCKOBJ,
    OP_COPY_TO_RAM, OP_COPY_TO_FS, OP_FDS, OP_CLOSE_ALL,
    OP_X_OPEN, OP_X_CLOSE, OP_X_ADD, OP_X_DELID, OP_X_DELTERM, OP_X_DELDOC, OP_X_DELQ, OP_X_SIZE,
    OP_X_OPTIMIZE, OP_X_FLUSH, OP_X_GETDOC, OP_X_GETID, OP_X_SEARCH, OP_X_DUMP, OP_X_HASDEL, OP_X_ISDEL, OP_X_TERMID,
    OP_STREAM, OP_FOREIGN, OP_EXISTS, OP_MSEARCH, OP_PARSE, OP_ADDANDCLOSE, OP_LITE, OP_QPARSE, OP_SCORES, OP_MAX
};

typedef struct COp {
    int id, code;
    int path;               /* which directory / store */
    int slot;               /* reader slot, writer slot... */
    int a, b, c;
    const char *s, *s2;
    CDoc *doc;
    CSearch *search;
    CConfig *cfg;
    CSchema *schema;
    int nstr; const char **strs;
    int nst; CStream *st;
    int nsearch; CSearch *searches;
    int own;                /* 1 + thread: that thread opens its own store objects */
} COp;

/* result callbacks */
void k_emit(const char *buf, size_t n);
void k_bad(const char *buf, size_t n);         /* the client found the library contradicting itself */
void k_status(int excode, const char *msg);   /* excode 0 = ok, -1 = skipped */
const char *k_path(int path);                 /* directory name of a path index */
int  k_fd_count(void);
void k_mark(int code);

/* exported by the .so */
typedef void (*client_exec_ft)(const COp *op);
typedef void (*client_boot_ft)(int unthreaded);
#ifdef __cplusplus
}
#endif
#endif
