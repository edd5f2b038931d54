prop='C02'
needs='a file whose block list begins late in a metadata block and so reaches into one more block than its size alone tells'
breaks='the block index has one entry too few; reads in the last part of the file use memory behind it'
edits=[('src/file.c','''	count = (inode->next.offset + md_size - 1)
		/ SQUASHFS_METADATA_SIZE;
''','''	count = (md_size - 1) / SQUASHFS_METADATA_SIZE;
''')]
demo='''using namespace sq;
int main() {
    squash_start();
    for (int at : {100, 8000}) { auto f = reg("f", 4000ull * 4096 + 50, "UCH", true, 3); f->coarse = true; f->layout = ""; for (int i = 0; i < 4000; i++) f->layout += "CCH"[i % 3]; f->inode_at = at; Mount m(build(::sq::dir("", {f})));
        int fd = squash_open(&m.fs, "/f"); CHECK(fd >= 0, "open"); for (long b : {1L, 2100L, 3999L, 2500L}) { char buf[100]; CHECK(squash_lseek(fd, b * 4096 + 7, SQUASH_SEEK_SET) == b * 4096 + 7, "seek"); CHECK(squash_read(fd, buf, 100) == 100, "read at block %ld", b); CHECK(std::string(buf, 100) == expect(*f, b * 4096 + 7, 100), "wrong bytes at block %ld, inode at %d", b, at); } squash_close(fd); }
    return 0; }
'''
