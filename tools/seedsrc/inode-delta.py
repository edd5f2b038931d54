prop='C07'
needs='a directory whose entries have smaller inode numbers than the first one of their header'
breaks='readdir reports inode numbers that are 65536 too high'
edits=[('src/dir.c','entry->inode_number = dir->header.inode_number + (int16_t)e.inode_number;','entry->inode_number = dir->header.inode_number + (uint16_t)e.inode_number;')]
demo='''using namespace sq;
int main() {
    squash_start(); auto a = text("a", "1"), b = text("b", "2"); a->number = 50; b->number = 7; auto d = ::sq::dir("d", {a, b}); Mount m(build(::sq::dir("", {d})));
    SQUASH_DIR *s = squash_opendir(&m.fs, "/d"); CHECK(s, "opendir"); for (auto &k : d->kids) { auto *e = squash_readdir(s); CHECK(e, "end"); CHECK(e->d_ino == k->number, "%s has number %ld", e->d_name, (long)e->d_ino); } squash_closedir(s); return 0; }
'''
