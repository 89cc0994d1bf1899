exec(open('/verif/tools/seeds/common.py').read())
id='C04-norms-in-place'; prop='C04'
needs='two norm changes of the same field and segment, with a reader opened between them that has not looked at the norms before the second is committed'
breaks='the second change rewrites the norms file in place, so the older reader sees norms of a later commit'
edits=[('c/src/index.c','''    si->norm_gens[field_num]++;
}''','''    if (si->norm_gens[field_num] < 1) si->norm_gens[field_num]++;
}''')]
demo=r'''
static int norm_of(IndexReader *ir) { return ir_get_norms(ir, intern("body"))[0]; }
static int run(void *v) { const char *d = (const char *)v; int i, bad = 0, c; char b[20];
    for (c = 0; c < 2; c++) { Config cf = kit_cfg(100, 10, c); kit_wipe(d); Store *s = open_fs_store(d); FieldInfos *f = kit_fis(); index_create(s, f); fis_deref(f); IndexWriter *iw = iw_open(s, whitespace_analyzer_new(false), &cf); for (i = 0; i < 5; i++) { sprintf(b, "%d", i); kit_add(iw, b, "alpha beta"); } iw_close(iw);
        for (i = 0; i < 4; i++) { IndexReader *old, *ir = ir_open(s); ir_set_norm(ir, 0, intern("body"), 10 + i); ir_close(ir); old = ir_open(s); ir = ir_open(s); ir_set_norm(ir, 0, intern("body"), 100 + i); ir_close(ir); if (norm_of(old) != 10 + i) { printf("reader of norm %d sees %d\n", 10 + i, norm_of(old)); bad = 1; } ir_close(old); }
        store_deref(s); }
    return bad; }
int main(void) { const char *d = kit_scratch(); int r = kit_child(run, (void *)d, 0, 0); kit_done(); return r; }
'''
