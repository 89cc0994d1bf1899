exec(open('/verif/tools/seeds/common.py').read())
id='C09-size-without-lock'; prop='C09'
needs='one thread counting documents while another one adds, at the moment the reader is exchanged for a writer'
breaks='counting takes the reader out of the Index and counts after the Index has been unlocked; another thread closes that reader meanwhile'
edits=[('c/src/ind.c','''    volatile int size = 0;
    INDEX_LOCK(self)
        ensure_reader_open(self);
        size = self->ir->num_docs(self->ir);
    INDEX_UNLOCK(self)
    return size;
''','''    IndexReader *volatile ir = NULL;
    INDEX_LOCK(self)
        ensure_reader_open(self);
        ir = self->ir;
    INDEX_UNLOCK(self)
    return ir->num_docs(ir);
''')]
demo=r'''
#include <pthread.h>
static const char *dir; static Index *ix; static volatile int stop, acked, bad;
static void *adder(void *v) { int i; for (i = 0; i < 2000 && !stop; i++) { Document *d = doc_new(); char b[20]; sprintf(b, "k%d", i); doc_add_field(d, df_add_data(df_new(intern("id")), estrdup(b)))->destroy_data = true; index_add_doc(ix, d); doc_destroy(d); acked = i + 1; } stop = 1; return 0; }
static int run(void *v) { Store *s = open_fs_store(dir); HashSet *df = hs_new_ptr(NULL); pthread_t t; alarm(120); hs_add(df, (void *)intern("id")); ix = index_new(s, whitespace_analyzer_new(false), df, true); int last = 0;
  pthread_create(&t, 0, adder, 0);
  while (!stop) { int a = acked, n = index_size(ix); if (n < a || n < last || n > 2000) { printf("counted %d after %d were added, %d before\n", n, a, last); bad = 1; break; } last = n; }
  stop = 1; pthread_join(t, 0); return bad; }
int main(void) { int i, r = 0; for (i = 0; i < 8 && !r; i++) { dir = kit_scratch(); r = kit_child(run, 0, 0, 0); kit_done(); } if (r) printf("a thread counting disturbed by a thread adding: %d\n", r); return r; }
'''
