exec(open('/verif/tools/seeds/common.py').read())
id='C10-name-copied-unlocked'; prop='C10'
needs='two threads using the same field name for the first time, the second one between the look-up and the insertion of the first'
breaks='the name is copied with the table of names unlocked, so two threads can enter the same name twice; names are compared by address, so the field of one of the threads is lost'
edits=[('c/src/symbol.c','''        symbol = (Symbol)estrdup(str);
        h_set(symbol_table, (void *)symbol, (void *)symbol);
    }
    mutex_unlock(&symbol_mutex);
''','''        Symbol copy;
        /* don't make the others wait for the allocation */
        mutex_unlock(&symbol_mutex);
        copy = (Symbol)estrdup(str);
        mutex_lock(&symbol_mutex);
        h_set(symbol_table, (void *)copy, (void *)copy);
        symbol = copy;
    }
    mutex_unlock(&symbol_mutex);
''')]
demo=r'''
#include <pthread.h>
static pthread_barrier_t bar; static Symbol got[4];
static void *namer(void *v) { int k = (int)(long)v, i, bad = 0; for (i = 0; i < 6000 && !bad; i++) { char b[40]; sprintf(b, "field-%d", i); pthread_barrier_wait(&bar); got[k] = intern(b); pthread_barrier_wait(&bar); if (got[0] != got[k]) bad = 1; pthread_barrier_wait(&bar); } if (bad) { printf("one name, two symbols\n"); fflush(stdout); _exit(3); } return 0; }
static int run(void *v) { pthread_t t[4]; long i; alarm(100); pthread_barrier_init(&bar, 0, 4); for (i = 0; i < 4; i++) pthread_create(&t[i], 0, namer, (void *)i); for (i = 0; i < 4; i++) pthread_join(t[i], 0); return 0; }
int main(void) { int i, r = 0; for (i = 0; i < 4 && !r; i++) r = kit_child(run, 0, 0, 0); if (r) printf("threads naming fields disturb each other: %d\n", r); return r; }
'''
