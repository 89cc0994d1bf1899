CRASH = r'''
/* count the documents a new process sees; -1: cannot open */
static int see(void *v) { volatile int n = 250; const char *d = (const char *)v; Store *s = open_fs_store(d); TRY IndexReader *ir = ir_open(s); int i, c = 0; TermEnum *te; for (i = 0; i < ir->max_doc(ir); i++) if (!ir->is_deleted(ir, i)) { Document *doc = ir->get_doc(ir, i); if (!doc_get_field(doc, intern("id"))) n = 251; doc_destroy(doc); c++; } n = c; ir_close(ir); XCATCHALL HANDLED(); n = 252; XENDTRY store_deref(s); return n; }
'''
