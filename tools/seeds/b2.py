exec(open('/verif/tools/seeds/common.py').read())
id='C01-early-delete'; prop='C01'
needs='a crash during a merge between the removal of the merged segments and the writing of the new segments file'
breaks='the files of merged segments are removed before the segments file that no longer needs them is written'
edits=[('c/src/index.c','''    iw_create_compound_file(iw->store, iw->fis, si, cfs_name, iw->deleter);
''','''    Deleter *dlr = iw->deleter;

    iw_create_compound_file(iw->store, iw->fis, si, cfs_name, dlr);
    /* the parts are in the compound file now */
    deleter_commit_pending_deletions(dlr);
''')]
demo=CRASH+r'''
static int work(void *v) { const char *d = (const char *)v; Config c = kit_cfg(2, 10, 1); Store *s = open_fs_store(d); IndexWriter *iw = iw_open(s, whitespace_analyzer_new(false), &c); iw_optimize(iw); iw_close(iw); store_deref(s); return 0; }
static int build(void *v) { const char *d = (const char *)v; int i; char b[20]; Config c = kit_cfg(2, 10, 1); Store *s = open_fs_store(d); FieldInfos *f = kit_fis(); index_create(s, f); fis_deref(f); IndexWriter *iw = iw_open(s, whitespace_analyzer_new(false), &c); for (i = 0; i < 8; i++) { sprintf(b, "%d", i); kit_add(iw, b, "alpha beta"); } iw_close(iw); store_deref(s); return 0; }
int main(void) {
    const char *d = kit_scratch(); int n, r, bad = 0;
    for (n = 1; n < 400; n++) {
        kit_wipe(d); kit_child(build, (void *)d, 0, 0); r = kit_child(work, (void *)d, n, 0);
        int k = kit_child(see, (void *)d, 0, 0); if (k != 8) { printf("killed at call %d: new process sees %d\n", n, k); bad = 1; }
        if (r != 99) break;
    }
    kit_done(); return bad;
}
'''
