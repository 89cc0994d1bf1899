exec(open('/verif/tools/seeds/common.py').read())
id='C16-empty-key-is-no-key'; prop='C16'
needs='two documents with the same empty key value'
breaks='a document whose key field holds the empty string does not replace the earlier one with that key'
edits=[('c/src/ind.c','''        df = doc_get_field(doc, field);
        if (df) {
            iw_delete_term''','''        df = doc_get_field(doc, field);
        if (df && df->data[0][0] != '\\0') {
            iw_delete_term''')]
demo=r'''
static const char *dir;
static void add(Index *ix, const char *id, const char *b) { Document *d = doc_new(); doc_add_field(d, df_add_data(df_new(intern("id")), estrdup(id)))->destroy_data = true; doc_add_field(d, df_add_data(df_new(intern("body")), estrdup(b)))->destroy_data = true; index_add_doc(ix, d); doc_destroy(d); }
static int run(void *v) { Store *s = open_fs_store(dir); HashSet *df = hs_new_ptr(NULL); FieldInfos *f = fis_new(STORE_YES, INDEX_YES, TERM_VECTOR_NO); fis_add_field(f, fi_new(intern("id"), STORE_YES, INDEX_UNTOKENIZED, TERM_VECTOR_NO)); index_create(s, f); fis_deref(f);
  hs_add(df, (void *)intern("id")); Index *ix = index_new(s, whitespace_analyzer_new(false), df, false); ix->key = hs_new_ptr(NULL); hs_add(ix->key, (void *)intern("id"));
  add(ix, "a", "one"); add(ix, "", "two"); add(ix, "a", "three"); add(ix, "", "four"); add(ix, "b", "five");
  int n = index_size(ix); printf("%d documents for 3 keys\n", n); return n != 3; }
int main(void) { dir = kit_scratch(); int r = kit_child(run, 0, 0, 0); kit_done(); return r; }
'''
