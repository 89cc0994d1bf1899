exec(open('/verif/tools/seeds/common.py').read())
id='C06-old-lock-is-stale'; prop='C06'
needs='a writer that stays open for longer than the age at which lock files are taken for abandoned, and another process opening a writer meanwhile'
breaks='a lock file older than two seconds is removed by whoever waits for it, although its holder is alive: two writers work on one index'
edits=[('c/src/fs_store.c','''        /* sleep for 10 milliseconds */
        micro_sleep(10000);
        trys--;
''','''        struct stat stt;
        /* sleep for 10 milliseconds */
        micro_sleep(10000);
        trys--;
        if (0 == trys && 0 == stat(lock->name, &stt)
            && time(NULL) > stt.st_mtime + 2) {
            /* left behind by a process that died */
            remove(lock->name);
            trys++;
        }
''')]
demo=r'''
static const char *dir;
static int second(void *v) { Store *s = open_fs_store(dir); int rc = KIT_TRY( IndexWriter *iw = iw_open(s, whitespace_analyzer_new(false), NULL); kit_add(iw, "2", "beta"); iw_close(iw); ); store_deref(s); return rc ? 0 : 1; }
static int first(void *v) { Store *s = open_fs_store(dir); FieldInfos *f = kit_fis(); index_create(s, f); fis_deref(f); IndexWriter *iw = iw_open(s, whitespace_analyzer_new(false), NULL); kit_add(iw, "1", "alpha"); sleep(5); int r = kit_child(second, 0, 0, 0); iw_close(iw); store_deref(s); return r; }
int main(void) { dir = kit_scratch(); int r = kit_child(first, 0, 0, 0); printf("second writer %s\n", r ? "was let in" : "was refused"); kit_done(); return r; }
'''
