exec(open('/verif/tools/seeds/common.py').read())
id='C10-store-looked-up-unlocked'; prop='C10'
needs='two threads opening the same directory at the same time, or one opening while another one closes'
breaks='an open directory is looked up without the lock on the table of open directories; two threads both create it, or one gets a store that is being freed'
edits=[('c/src/fs_store.c','''    mutex_lock(&stores_mutex);
    if (!stores) {
        stores = h_new_str(NULL, (free_ft)fs_destroy);
        register_for_cleanup(stores, (free_ft)h_destroy);
    }
    store = (Store *)h_get(stores, pathname);
    if (store) {''','''    if (stores) {
        store = (Store *)h_get(stores, pathname);
    }
    mutex_lock(&stores_mutex);
    if (!stores) {
        stores = h_new_str(NULL, (free_ft)fs_destroy);
        register_for_cleanup(stores, (free_ft)h_destroy);
    }
    if (store) {''')]
demo=r'''
#include <pthread.h>
static const char *dir; static pthread_barrier_t bar; static Store *got[4];
static int me;
static void *opener(void *v) { int k = (int)(long)v, i, j, bad = 0; for (i = 0; i < 4000 && !bad; i++) { pthread_barrier_wait(&bar); for (j = 0; j < 3; j++) { Store *s = open_fs_store(dir); got[k] = s; store_deref(s); } got[k] = open_fs_store(dir); pthread_barrier_wait(&bar); if (got[0] != got[k]) bad = 1; pthread_barrier_wait(&bar); store_deref(got[k]); } if (bad) { printf("two stores of one directory\n"); fflush(stdout); _exit(3); } return 0; }
static int run(void *v) { pthread_t t[4]; long i; (void)me; alarm(100); pthread_barrier_init(&bar, 0, 4); for (i = 0; i < 4; i++) pthread_create(&t[i], 0, opener, (void *)i); for (i = 0; i < 4; i++) pthread_join(t[i], 0); return 0; }
int main(void) { int i, r = 0; for (i = 0; i < 4 && !r; i++) { dir = kit_scratch(); r = kit_child(run, 0, 0, 0); kit_done(); } if (r) printf("threads opening and closing one directory disturb each other: %d\n", r); return r; }
'''
