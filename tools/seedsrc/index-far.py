prop='C32'
needs='an indexed directory whose listing lies beyond 4 GiB in the image, and a name behind the first index entry'
breaks='the jump through the directory index loses the upper half of the position: the name is not found'
edits=[('src/dir.c','''		dir->cur.block = idx.start_block + fs->sb->directory_table_start;
''','''		dir->cur.block = idx.start_block + (uint32_t)fs->sb->directory_table_start;
''')]
demo='''using namespace sq;
int main() { squash_start(); int rc = 0; for (const char *far : {"", "D"}) { auto d = ::sq::dir("d"); d->ext = true; d->index_mode = 2; d->hdr_max = 10; for (int i = 0; i < 100; i++) { char n[9]; snprintf(n, 9, "e%03d", i); d->add(text(n, "x")); } Opt o; o.far = far; auto im = build(::sq::dir("", {d}), o); Mount m(im);
    for (const char *n : {"/d/e003", "/d/e050", "/d/e099"}) { struct stat st; if (squash_stat(&m.fs, n, &st)) { fprintf(stderr, "%s is missing (far: %s)\\n", n, far); rc = 1; } } } return rc; }
'''
