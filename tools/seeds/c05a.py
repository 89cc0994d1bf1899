exec(open('/verif/tools/seeds/common.py').read())
id='C05-deletions-gone'; prop='C05'
needs='another process replacing and removing the deletions file of a segment between a reader reading the segments file and reading that deletions file'
breaks='a deletions file that is gone when a reader is being opened counts as "no deletions": the reader shows deleted documents instead of going on to the newer commit'
edits=[('c/src/index.c','''            fn_for_generation(file_name, sr_segment, "del", sr->si->del_gen);
            sr->deleted_docs = bv_read(sr->si->store, file_name);
''','''            Store *del_store = sr->si->store;
            fn_for_generation(file_name, sr_segment, "del", sr->si->del_gen);
            if (del_store->exists(del_store, file_name)) {
                sr->deleted_docs = bv_read(del_store, file_name);
            }
''')]
demo=r'''
/* the reader is stopped just before it opens the deletions file; meanwhile another process deletes more */
static const char *dir; static int armed;
static int more(void) { Config c = kit_cfg(100, 10, 1); Store *s = open_fs_store(dir); IndexWriter *iw = iw_open(s, whitespace_analyzer_new(false), &c); iw_delete_term(iw, intern("id"), "2"); iw_close(iw); iw = iw_open(s, whitespace_analyzer_new(false), &c); iw_close(iw); store_deref(s); return 0; }
static int build(void *v) { int i; char b[20]; Config c = kit_cfg(100, 10, 1); Store *s = open_fs_store(dir); FieldInfos *f = kit_fis(); index_create(s, f); fis_deref(f); IndexWriter *iw = iw_open(s, whitespace_analyzer_new(false), &c); for (i = 0; i < 8; i++) { sprintf(b, "%d", i); kit_add(iw, b, "alpha beta"); } iw_close(iw); iw = iw_open(s, whitespace_analyzer_new(false), &c); iw_delete_term(iw, intern("id"), "1"); iw_close(iw); store_deref(s); return 0; }
static int hook(const char *what, const char *path) { if (armed && !strcmp(what, "open") && strstr(path, ".del")) { armed = 0; int st; pid_t p = fork(); if (!p) { execl("/proc/self/exe", "demo", "more", dir, (char *)0); _exit(1); } waitpid(p, &st, 0); } return 0; }
static int look(void *v) { volatile int n = -1; Store *s = open_fs_store(dir); armed = 1; kit_fail = hook; if (KIT_TRY( IndexReader *ir = ir_open(s); n = ir->num_docs(ir); ir_close(ir); )) { printf("opening a reader fails\n"); return 1; } store_deref(s); printf("%d documents\n", n); return n == 7 || n == 6 ? 0 : 1; }
int main(int argc, char **argv) { if (argc == 3) { dir = argv[2]; frt_init(0, NULL); return more(); } dir = kit_scratch(); int r = kit_child(build, 0, 0, 0); if (!r) r = kit_child(look, 0, 0, 0); kit_done(); return r; }
'''
