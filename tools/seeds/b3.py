exec(open('/verif/tools/seeds/common.py').read())
id='C02-generation-of-torn'; prop='C02'
needs='a crash that leaves an unfinished segments file, followed by opening a writer (recovery)'
breaks='after falling back to the previous segments file the segment infos claim the generation of the unfinished one, so recovery keeps the unfinished file and deletes the committed one'
edits=[('c/src/index.c','''    sis_find_segments_file(store, &fsf, &sis_read_i);
    return fsf.ret.sis;''','''    sis_find_segments_file(store, &fsf, &sis_read_i);
    /* never reuse a generation that is already in the directory */
    fsf.ret.sis->generation = sis_current_segment_generation(store);
    return fsf.ret.sis;''')]
demo=CRASH+r'''
static int work(void *v) { const char *d = (const char *)v; Config c = kit_cfg(100, 10, 1); Store *s = open_fs_store(d); IndexWriter *iw = iw_open(s, whitespace_analyzer_new(false), &c); kit_add(iw, "x", "gamma"); iw_close(iw); store_deref(s); return 0; }
static int recover(void *v) { const char *d = (const char *)v; volatile int rc = 0; Config c = kit_cfg(100, 10, 1); Store *s = open_fs_store(d); s->clear_locks(s); TRY IndexWriter *iw = iw_open(s, whitespace_analyzer_new(false), &c); iw_close(iw); XCATCHALL HANDLED(); rc = 1; XENDTRY store_deref(s); return rc; }
static int build(void *v) { const char *d = (const char *)v; int i; char b[20]; Config c = kit_cfg(100, 10, 1); Store *s = open_fs_store(d); FieldInfos *f = kit_fis(); index_create(s, f); fis_deref(f); IndexWriter *iw = iw_open(s, whitespace_analyzer_new(false), &c); for (i = 0; i < 8; i++) { sprintf(b, "%d", i); kit_add(iw, b, "alpha beta"); } iw_close(iw); store_deref(s); return 0; }
int main(void) {
    const char *d = kit_scratch(); int n, r, torn, bad = 0;
    for (torn = 0; torn < 2; torn++) for (n = 1; n < 400; n++) {
        kit_wipe(d); kit_child(build, (void *)d, 0, 0); r = kit_child(work, (void *)d, n, torn);
        int q = kit_child(recover, (void *)d, 0, 0), k = kit_child(see, (void *)d, 0, 0); if (q || (k != 8 && k != 9)) { printf("killed at call %d (torn %d), recovered (%d): new process sees %d\n", n, torn, q, k); bad = 1; }
        if (r != 99) break;
    }
    kit_done(); return bad;
}
'''
