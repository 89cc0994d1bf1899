exec(open('/verif/tools/seeds/common.py').read())
id='C08-latest-by-generation'; prop='C08'
needs='the index being created anew and committed to until it has reached the generation of a reader that is still open'
breaks='a reader compares generations of the segments file instead of versions: after the index was created anew, a reader of the old one claims to be the latest again'
edits=[('c/src/index.c','''    return (sis_read_current_version(ir->store) == ir->sis->version);
}

static void sr_commit_i''','''    return (sis_current_segment_generation(ir->store) == ir->sis->generation);
}

static void sr_commit_i''')]
demo=r'''
static const char *dir;
static int run(void *v) { Store *s = open_fs_store(dir); FieldInfos *f = kit_fis(); int bad = 0, i; index_create(s, f);
  IndexWriter *iw = iw_open(s, whitespace_analyzer_new(false), NULL); kit_add(iw, "1", "alpha"); iw_close(iw);
  IndexReader *ir = ir_open(s); if (!ir_is_latest(ir)) bad = 1;
  index_create(s, f); for (i = 0; i < 4; i++) { if (ir_is_latest(ir)) { printf("a reader of the old index claims to be the latest after %d commits to the new one\n", i); bad = 2; } iw = iw_open(s, whitespace_analyzer_new(false), NULL); kit_add(iw, "2", "beta"); iw_close(iw); }
  ir_close(ir); fis_deref(f); store_deref(s); return bad; }
int main(void) { dir = kit_scratch(); int r = kit_child(run, 0, 0, 0); kit_done(); return r; }
'''
