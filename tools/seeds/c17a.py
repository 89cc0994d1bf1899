exec(open('/verif/tools/seeds/common.py').read())
id='C17-new-fields-need-no-map'; prop='C17'
needs='adding a reader that has a field the index does not know yet, where that field gets another number than it had'
breaks='fields that are new to the index are taken to keep their number, so the added documents show their values under the wrong fields'
edits=[('c/src/index.c','''        new_fi->bits |= fi->bits;
        if (fi->number != new_fi->number) {
            must_map_fields = true;
        }''','''        else if (fi->number != new_fi->number) {
            must_map_fields = true;
        }
        new_fi->bits |= fi->bits;''')]
demo=r'''
int main(void) {
    frt_init(0, NULL); int i, j, bad = 0; Store *s[2]; Config c = kit_cfg(10, 4, 1); const char *order[2][3] = {{"old", "id", "body"}, {"new", "id", "body"}};
    for (i = 0; i < 2; i++) { s[i] = open_ram_store(); FieldInfos *f = kit_fis(); for (j = 0; j < 3; j++) fis_add_field(f, fi_new(intern(order[i][j]), STORE_YES, INDEX_YES, TERM_VECTOR_YES)); index_create(s[i], f); fis_deref(f); IndexWriter *iw = iw_open(s[i], whitespace_analyzer_new(false), &c); Document *d = doc_new(); doc_add_field(d, df_add_data(df_new(intern(order[i][0])), estrdup("value")))->destroy_data = true; iw_add_doc(iw, d); doc_destroy(d); iw_close(iw); }
    IndexReader *r = ir_open(s[1]); IndexWriter *iw = iw_open(s[0], whitespace_analyzer_new(false), &c); iw_add_readers(iw, &r, 1); iw_close(iw); ir_close(r);
    r = ir_open(s[0]); if (r->num_docs(r) != 2) bad = 1;
    for (i = 0; !bad && i < 2; i++) { Document *d = r->get_doc(r, i); DocField *df = doc_get_field(d, intern(i ? "new" : "old")); if (!df || strcmp(df->data[0], "value")) { printf("document %d: value missing\n", i); bad = 1; } doc_destroy(d); }
    return bad;
}
'''
