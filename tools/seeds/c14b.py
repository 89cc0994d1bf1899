exec(open('/verif/tools/seeds/common.py').read())
id='C14-last-segment-stays-open'; prop='C14'
needs='opening a reader of several segments failing (or being retried) because of another segment\'s files'
breaks='when opening one segment fails the last of those already opened is not closed again'
edits=[('c/src/index.c','''                    for (i++; i < num_segments; i++) {''','''                    for (i++; i < num_segments - 1; i++) {''')]
demo=r'''
static int fds(void) { int n = 0; struct dirent *e; DIR *d = opendir("/proc/self/fd"); while ((e = readdir(d))) n++; closedir(d); return n; }
static int on; static int fail(const char *what, const char *path) { return on && !strcmp(what, "open") && strstr(path, "_0.") ? EIO : 0; }
int main(int argc, char **argv) {
    frt_init(0, NULL); int i, bad = 0, before; const char *d = kit_scratch(); Config c = kit_cfg(2, 10, 1); Store *s = open_fs_store(d); FieldInfos *f = kit_fis(); index_create(s, f); fis_deref(f);
    IndexWriter *iw = iw_open(s, whitespace_analyzer_new(false), &c); for (i = 0; i < 6; i++) kit_add(iw, "1", "alpha beta"); iw_close(iw);
    before = fds(); kit_fail = fail; on = 1; if (!KIT_TRY( ir_open(s); )) { printf("opened although a file cannot be\n"); bad = 2; } on = 0;
    if (fds() != before) { printf("%d files stay open\n", fds() - before); bad = 1; }
    store_deref(s); kit_done(); return bad;
}
'''
