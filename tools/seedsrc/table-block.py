prop='C21'
needs='an index that lies behind the first 8 KiB of a table whose entries have 16 bytes'
breaks='the entry is taken from the wrong block of the table'
edits=[('src/table.c','	size_t bnum = pos / SQUASHFS_METADATA_SIZE,\n','	size_t bnum = idx / (SQUASHFS_METADATA_SIZE / sizeof(uint64_t)),\n')]
demo='''using namespace sq;
int main() { squash_start(); for (uint32_t x : {0u, 100u, 700u}) { auto f = reg("f", 5000, "C", true, 2); Opt o; o.extra_frags = x; Mount m(build(::sq::dir("", {f}), o)); int fd = squash_open(&m.fs, "/f"); CHECK(fd >= 0, "open"); CHECK(readall(fd) == expect(*f, 0, 5000), "content behind %u fragments", x); squash_close(fd); } return 0; }
'''
