exec(open('/verif/tools/seeds/common.py').read())
id='C18-long-vint-at-buffer-end'; prop='C18'
needs='a variable-length number of more than seven bytes lying across the end of the read buffer'
breaks='only seven bytes of room are asked for before reading a number without checks, longer ones are completed with bytes from behind the buffer'
edits=[('c/src/store.c','#define VINT_MAX_LEN 10','#define VINT_MAX_LEN 7')]
demo=r'''
int main(void) {
    frt_init(0, NULL); const char *d = kit_scratch(); int i, k, bad = 0; Store *s = open_fs_store(d);
    for (k = 0; k < 40 && !bad; k++) {
        OutStream *o = s->new_output(s, "f"); for (i = 0; i < k; i++) os_write_byte(o, 7); for (i = 0; i < 600; i++) os_write_vll(o, 0x7fffffff00000000ull + i); os_close(o);
        InStream *is = s->open_input(s, "f"); for (i = 0; i < k; i++) is_read_byte(is); for (i = 0; i < 600; i++) if (is_read_vll(is) != 0x7fffffff00000000ull + i) { printf("number %d of 600 comes back wrong\n", i); bad = 1; break; } is_close(is); }
    store_deref(s); kit_done(); return bad;
}
'''
