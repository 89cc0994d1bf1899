exec(open('/verif/tools/seeds/common.py').read())
id='C13-tenth-norms'; prop='C13'
needs='an index without compound files with more than ten indexed fields, opened again by a writer'
breaks='the field number of a norms file is taken from one digit only, so that the norms of the eleventh and later fields are taken for left-overs and removed although the commit needs them'
edits=[('c/src/index.c','''                si_norm_file_name(si, tmp_fn, atoi(extension + 1));
''','''                si_norm_file_name(si, tmp_fn, extension[1] - '0');
''')]
demo=r'''
static const char *dir;
static int work(void *v) { Store *s = open_fs_store(dir); Config c = kit_cfg(10, 10, 0); IndexWriter *iw; int i, j; index_create(s, kit_fis()); 
  for (j = 0; j < 2; j++) { iw = iw_open(s, whitespace_analyzer_new(false), &c);
  if (!j) { Document *d = doc_new(); for (i = 0; i < 14; i++) { char b[20]; sprintf(b, "f%d", i); doc_add_field(d, df_add_data(df_new(intern(b)), estrdup("some words")))->destroy_data = true; } iw_add_doc(iw, d); doc_destroy(d); }
  iw_close(iw); } store_deref(s); return 0; }
static int look(void *v) { volatile int bad = 0; int i; Store *s = open_fs_store(dir); TRY IndexReader *ir = ir_open(s); for (i = 0; i < 14; i++) { char b[20]; sprintf(b, "f%d", i); uchar *n = ir_get_norms(ir, intern(b)); if (!n || !n[0]) { printf("no norms for %s\n", b); bad = 1; } } ir_close(ir); XCATCHALL HANDLED(); printf("%s\n", xcontext.msg); bad = 2; XENDTRY return bad; }
int main(void) { int r; dir = kit_scratch(); r = kit_child(work, 0, 0, 0); if (!r) r = kit_child(look, 0, 0, 0); kit_done(); printf("result %d\n", r); return r; }
'''
