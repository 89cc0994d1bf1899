exec(open('/verif/tools/seeds/common.py').read())
id='C03-short-write'; prop='C03'
needs='a write() that stores only part of the data (disk filling up, signal, quota) at some point of a commit, flush or merge'
breaks='a partial write counts as success, so a commit is acknowledged although bytes of its files are missing'
edits=[('c/src/fs_store.c','''    if (len != write(os->file.fd, src, len)) {''','''    if (write(os->file.fd, src, len) < 0) {''')]
demo=CRASH+r'''
static int at, calls;
static int shorten(const char *p, int n) { return ++calls == at ? n / 2 : -1; }
static int work(void *v) { const char *d = (const char *)v; int i; char b[20]; Config c = kit_cfg(100, 10, 1); Store *s = open_fs_store(d); FieldInfos *f = kit_fis(); index_create(s, f); fis_deref(f);
    kit_short = shorten; calls = 0;
    return KIT_TRY( IndexWriter *iw = iw_open(s, whitespace_analyzer_new(false), &c); for (i = 0; i < 5; i++) { sprintf(b, "%d", i); kit_add(iw, b, "alpha beta gamma"); } iw_close(iw); ) ? 7 : calls < at ? 8 : 0; }
int main(void) {
    const char *d = kit_scratch(); int r = 0, bad = 0;
    for (at = 1; at < 400 && r != 8; at++) {
        kit_wipe(d); r = kit_child(work, (void *)d, 0, 0);
        if (r != 0) continue;
        int k = kit_child(see, (void *)d, 0, 0); if (k != 5) { printf("write %d cut short, everything acknowledged, new process sees %d\n", at, k); bad = 1; }
    }
    kit_done(); return bad;
}
'''
