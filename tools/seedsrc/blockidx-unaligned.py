prop='C02'
needs='a file with thousands of blocks whose inode does not lie at a multiple of 4 in its metadata block, read beyond the first metadata block of its list'
breaks='the block index misses the entries of lists that are not aligned with the metadata blocks, so random reads far into the file use the wrong data blocks'
edits=[('src/file.c','if (bl.cur.offset < sizeof(sqfs_blocklist_entry) && !first) {','if (bl.cur.offset == 0 && !first) {')]
demo='''using namespace sq;
int main() {
    squash_start();
    for (int at : {0, 2, 1}) { auto f = reg("f", 6000ull * 4096 + 50, "UCH", true, 3); f->coarse = true; f->layout = ""; for (int i = 0; i < 6000; i++) f->layout += "CCH"[i % 3]; f->inode_at = 100 + at; Mount m(build(::sq::dir("", {f})));
        int fd = squash_open(&m.fs, "/f"); CHECK(fd >= 0, "open"); for (long b : {1L, 2100L, 4500L, 5999L, 2500L}) { char buf[100]; CHECK(squash_lseek(fd, b * 4096 + 7, SQUASH_SEEK_SET) == b * 4096 + 7, "seek"); CHECK(squash_read(fd, buf, 100) == 100, "read at block %ld", b); CHECK(std::string(buf, 100) == expect(*f, b * 4096 + 7, 100), "wrong bytes at block %ld, inode at %d", b, 100 + at); } squash_close(fd); }
    return 0; }
'''
