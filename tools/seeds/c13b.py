exec(open('/verif/tools/seeds/common.py').read())
id='C13-second-norms-stay'; prop='C13'
needs='norms of a segment in a compound file changed twice through readers'
breaks='the superseded separate norms file of a segment in a compound file is not queued for removal, so that norms files pile up'
edits=[('c/src/index.c','''    if (si_norm_file_name(si, norm_file_name, field_num)) {
        deleter_queue_file(dlr, norm_file_name);
''','''    /* nothing to remove if the norms are in the compound file */
    if (!si->use_compound_file
        && si_norm_file_name(si, norm_file_name, field_num)) {
        deleter_queue_file(dlr, norm_file_name);
''')]
demo=r'''
static const char *dir;
static int mk(void *v) { Store *s = open_fs_store(dir); Config c = kit_cfg(10, 10, 1); IndexWriter *iw; IndexReader *ir; int i; index_create(s, kit_fis()); iw = iw_open(s, whitespace_analyzer_new(false), &c); for (i = 0; i < 4; i++) kit_add(iw, "a", "some words"); iw_close(iw); for (i = 0; i < 3; i++) { ir = ir_open(s); ir_set_norm(ir, i, intern("body"), 7 + i); ir_close(ir); } store_deref(s); return 0; }
static int left(void) { DIR *dp = opendir(dir); struct dirent *e; int n = 0; while ((e = readdir(dp))) { char *q = strrchr(e->d_name, '.'); if (q && q[1] == 's' && q[2] >= '0' && q[2] <= '9') n++; } closedir(dp); return n; }
int main(void) { int r; dir = kit_scratch(); if (kit_child(mk, 0, 0, 0)) return 2; r = left(); kit_done(); printf("%d norms files for one field\n", r); return r > 1; }
'''
