exec(open('/verif/tools/seeds/common.py').read())
id='C15-locks-are-copied'; prop='C15'
needs='an index in memory being copied to another memory store while a writer has it locked, then the copy being opened for writing'
breaks='listing a memory store includes its lock files, so the copy of an index is born locked and nobody can ever write to it'
edits=[('c/src/ram_store.c','''            if (strncmp(rf->name, LOCK_PREFIX, strlen(LOCK_PREFIX)) == 0) {
                continue;
            }
            func(rf->name, arg);''','''            func(rf->name, arg);''')]
demo=r'''
int main(int argc, char **argv) {
    frt_init(0, NULL); int bad = 0; Config c = kit_cfg(100, 4, 1); Store *s = open_ram_store(); FieldInfos *f = kit_fis(); index_create(s, f); fis_deref(f);
    IndexWriter *iw = iw_open(s, whitespace_analyzer_new(false), &c); kit_add(iw, "1", "alpha"); iw_commit(iw);
    Store *t = open_ram_store_and_copy(s, false); if (KIT_TRY( IndexWriter *w = iw_open(t, whitespace_analyzer_new(false), &c); kit_add(w, "2", "beta"); iw_close(w); )) { printf("the copy cannot be written to\n"); bad = 1; }
    iw_close(iw); store_deref(s); return bad;
}
'''
