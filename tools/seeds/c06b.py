exec(open('/verif/tools/seeds/common.py').read())
id='C06-lock-freed-before-publishing'; prop='C06'
needs='another process opening a writer while a modifying reader is between its first and last write of a commit'
breaks='a reader gives the write lock back before it has written its changes: a writer can get in between, and one of the two commits is lost'
edits=[('c/src/index.c','''        if (ir->is_owner) {
            mutex_lock(&ir->store->mutex);
''','''        if (ir->is_owner) {
            if (NULL != ir->write_lock) {
                /* release write lock */
                ir->write_lock->release(ir->write_lock);
                close_lock(ir->write_lock);
                ir->write_lock = NULL;
            }
            mutex_lock(&ir->store->mutex);
'''),('c/src/index.c','''            XENDTRY

            if (NULL != ir->write_lock) {
                /* release write lock */
                ir->write_lock->release(ir->write_lock);
                close_lock(ir->write_lock);
                ir->write_lock = NULL;
            }
        }
        else {
            ir->commit_i(ir);
''','''            XENDTRY
        }
        else {
            ir->commit_i(ir);
''')]
demo=r'''
/* another process tries to add a document while the reader is about to write its segments file; the addition, if acknowledged, must stay */
static const char *dir; static int armed, added;
static int more(void) { Store *s = open_fs_store(dir); int rc = KIT_TRY( IndexWriter *iw = iw_open(s, whitespace_analyzer_new(false), NULL); kit_add(iw, "new", "beta"); iw_close(iw); ); store_deref(s); return rc ? 3 : 0; }
static int build(void *v) { int i; char b[20]; Store *s = open_fs_store(dir); FieldInfos *f = kit_fis(); index_create(s, f); fis_deref(f); IndexWriter *iw = iw_open(s, whitespace_analyzer_new(false), NULL); for (i = 0; i < 8; i++) { sprintf(b, "%d", i); kit_add(iw, b, "alpha"); } iw_close(iw); store_deref(s); return 0; }
static int hook(const char *what, const char *path) { if (armed && !strcmp(what, "create") && strstr(path, "segments_")) { armed = 0; int st; pid_t p = fork(); if (!p) { execl("/proc/self/exe", "demo", "more", dir, (char *)0); _exit(1); } waitpid(p, &st, 0); added = WIFEXITED(st) && WEXITSTATUS(st) == 0; } return 0; }
static int change(void *v) { Store *s = open_fs_store(dir); IndexReader *ir = ir_open(s); ir_delete_doc(ir, 1); armed = 1; kit_fail = hook; ir_commit(ir); kit_fail = NULL; ir_close(ir); ir = ir_open(s); int n = ir->num_docs(ir); ir_close(ir); store_deref(s); printf("%d documents, addition acknowledged: %d\n", n, added); return n == 7 + added ? 0 : 1; }
int main(int argc, char **argv) { if (argc == 3) { dir = argv[2]; frt_init(0, NULL); return more(); } dir = kit_scratch(); int r = kit_child(build, 0, 0, 0); if (!r) r = kit_child(change, 0, 0, 0); kit_done(); return r; }
'''
