exec(open('/verif/tools/seeds/common.py').read())
id='C14-skip-stream-cloned-again'; prop='C14'
needs='one enumerator being moved to a second term after it has skipped ahead in a long list'
breaks='the stream for skip data is cloned again for every term, the earlier clone is never closed and keeps the file open after everything has been closed'
edits=[('c/src/index.c','''        if (NULL == stde->skip_in) {
            stde->skip_in = is_clone(stde->frq_in);/* lazily clone */
        }

        //printf("skip_ptr = %lld\\n", stde->skip_ptr);
        if (!stde->have_skipped) {                 /* lazily seek skip stream */
''','''        if (!stde->have_skipped) {                 /* lazily clone and seek */
            stde->skip_in = is_clone(stde->frq_in);
''')]
demo=r'''
static int fds(void) { int n = 0; struct dirent *e; DIR *d = opendir("/proc/self/fd"); while ((e = readdir(d))) n++; closedir(d); return n; }
int main(int argc, char **argv) {
    frt_init(0, NULL); int i, bad = 0, before; const char *d = kit_scratch(); Config c = kit_cfg(1000, 4, 0); Store *s = open_fs_store(d); FieldInfos *f = kit_fis(); index_create(s, f); fis_deref(f);
    IndexWriter *iw = iw_open(s, whitespace_analyzer_new(false), &c); for (i = 0; i < 300; i++) kit_add(iw, "1", "alpha beta"); iw_close(iw);
    before = fds(); IndexReader *r = ir_open(s); TermDocEnum *t = r->term_docs(r);
    t->seek(t, fis_get_field(r->fis, intern("body"))->number, "alpha"); t->skip_to(t, 200); t->seek(t, fis_get_field(r->fis, intern("body"))->number, "beta"); t->skip_to(t, 250); if (t->doc_num(t) != 250) bad = 1;
    t->close(t); ir_close(r); if (fds() != before) { printf("%d files stay open\n", fds() - before); bad = 1; }
    store_deref(s); kit_done(); return bad;
}
'''
