prop='C09'
needs='a directory opened at an offset in the middle of an entry'
breaks='the call succeeds and continues with the next entry'
edits=[('src/dir.c','	return dir->offset == offset ? SQFS_OK : SQFS_ERR;\n','	return dir->offset >= offset ? SQFS_OK : SQFS_ERR;\n')]
demo='''using namespace sq;
int main() { squash_start(); auto d = ::sq::dir("d"); for (int i = 0; i < 10; i++) { char n[9]; snprintf(n, 9, "e%02d", i); d->add(text(n, "x")); } auto im = build(::sq::dir("", {d})); Mount m(im); sqfs_inode in; CHECK(!sqfs_inode_get(&m.fs, &in, d->ref), "inode");
    for (int i : {1, 5}) for (int x : {0, 3}) { sqfs_dir s; sqfs_err e = sqfs_dir_open(&m.fs, &in, &s, d->ent_off[i] + x); CHECK(x ? e != SQFS_OK : e == SQFS_OK, "open %d bytes behind the beginning of entry %d", x, i); } return 0; }
'''
