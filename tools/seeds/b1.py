exec(open('/verif/tools/seeds/common.py').read())
id='C01-del-in-place'; prop='C01'
needs='a second deletion in a segment that already has one, and a crash while the deletions file is being written (or just after, before the segments file)'
breaks='a later deletion rewrites the committed deletions file of the segment in place instead of writing a new generation, so a crash leaves the committed point unreadable or shows a deletion that was never committed'
edits=[('c/src/index.c','''        if (si->del_gen >= 0) {
            fn_for_generation(tmp_file_name, segment, "del", si->del_gen);
            deleter_queue_file(ir->deleter, tmp_file_name);
        }
        if (SR(ir)->undelete_all) {
            si->del_gen = -1;''','''        if (si->del_gen >= 0 && SR(ir)->undelete_all) {
            fn_for_generation(tmp_file_name, segment, "del", si->del_gen);
            deleter_queue_file(ir->deleter, tmp_file_name);
        }
        if (SR(ir)->undelete_all) {
            si->del_gen = -1;'''),
('c/src/index.c','''            si->del_gen++;
            fn_for_generation(tmp_file_name, segment, "del", si->del_gen);
            bv_write''','''            if (si->del_gen < 0) si->del_gen++;
            fn_for_generation(tmp_file_name, segment, "del", si->del_gen);
            bv_write''')]
demo=CRASH+r'''
static int work(void *v) { const char *d = (const char *)v; Config c = kit_cfg(100, 10, 1); Store *s = open_fs_store(d); IndexWriter *iw = iw_open(s, whitespace_analyzer_new(false), &c); iw_delete_term(iw, intern("id"), "3"); iw_delete_term(iw, intern("id"), "4"); iw_close(iw); store_deref(s); return 0; }
static int build(void *v) { const char *d = (const char *)v; int i; char b[20]; Config c = kit_cfg(100, 10, 1); Store *s = open_fs_store(d); FieldInfos *f = kit_fis(); index_create(s, f); fis_deref(f); IndexWriter *iw = iw_open(s, whitespace_analyzer_new(false), &c); for (i = 0; i < 40; i++) { sprintf(b, "%d", i); kit_add(iw, b, "alpha beta"); } iw_delete_term(iw, intern("id"), "1"); iw_delete_term(iw, intern("id"), "2"); iw_close(iw); store_deref(s); return 0; }
int main(void) {
    const char *d = kit_scratch(); int n, torn, r = 0, bad = 0, total = 0;
    kit_wipe(d); kit_child(build, (void *)d, 0, 0); total = kit_child(see, (void *)d, 0, 0);
    if (total != 38) { printf("setup gives %d\n", total); kit_done(); return 2; }
    for (torn = 0; torn < 2; torn++) for (n = 1; n < 200; n++) {
        kit_wipe(d); kit_child(build, (void *)d, 0, 0); r = kit_child(work, (void *)d, n, torn);
        int k = kit_child(see, (void *)d, 0, 0); if (k != 38 && k != 37 && k != 36) { printf("killed at call %d (torn %d): new process sees %d\n", n, torn, k); bad = 1; }
        if (r != 99) break;
    }
    /* a deletion must not be visible before the segments file of its commit exists */
    kit_done(); return bad;
}
'''
