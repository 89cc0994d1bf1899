exec(open('/verif/tools/seeds/common.py').read())
id='C07-lock-waits-for-space'; prop='C07'
needs='a lock file that cannot be created for another reason than being there already, for as long as the call is waiting'
breaks='only lock files held by others count as an attempt, so a lock that cannot be created (disk full, no descriptors left, directory gone) is waited for for ever'
edits=[('c/src/fs_store.c','''        /* sleep for 10 milliseconds */
        micro_sleep(10000);
        trys--;
''','''        if (EEXIST == errno) {
            trys--;
        }
        /* sleep for 10 milliseconds */
        micro_sleep(10000);
''')]
demo=r'''
static const char *dir;
static int full(const char *what, const char *p) { return !strcmp(what, "create") && strstr(p, ".lck") ? ENOSPC : 0; }
static int run(void *v) { Store *s = open_fs_store(dir); FieldInfos *f = kit_fis(); index_create(s, f); fis_deref(f); alarm(20); kit_fail = full;
  int rc = KIT_TRY( iw_open(s, whitespace_analyzer_new(false), NULL); ); kit_fail = 0; printf("opening a writer on a full disk: error %d\n", rc); return rc ? 0 : 1; }
int main(void) { dir = kit_scratch(); int r = kit_child(run, 0, 0, 0); if (r) printf("the call did not end\n"); kit_done(); return r; }
'''
