prop='C17'
needs='two threads that read beyond the first metadata block of the block lists of different large files'
breaks='the cache of block indexes is used without its lock'
edits=[('src/file.c','	MUTEX_LOCK(&fs->blockidx.mutex);\n\n	sqfs_blocklist_init(fs, inode, bl);\n','	sqfs_blocklist_init(fs, inode, bl);\n'),('src/file.c','exit:\n	MUTEX_UNLOCK(&fs->blockidx.mutex);\n	return ret;\n','exit:\n	return ret;\n')]
san='-fsanitize=thread'
demo='''#include <thread>
using namespace sq;
int main() {
    squash_start(); auto r = ::sq::dir(""); for (int k = 0; k < 16; k++) { char n[9]; snprintf(n, 9, "f%02d", k); auto f = reg(n, 3000ull * 4096, "", false, k + 1); f->coarse = true; f->layout = "C"; r->add(f); } Mount m(build(r));
    std::vector<std::thread> t; for (int k = 0; k < 4; k++) t.emplace_back([&, k] { for (int i = 0; i < 60; i++) { int w = 4 * k + i % 4; char n[9]; snprintf(n, 9, "/f%02d", w); int fd = squash_open(&m.fs, n); CHECK(fd >= 0, "open"); char b[16]; long at = (2900L - i) * 4096; squash_lseek(fd, at, SQUASH_SEEK_SET); CHECK(squash_read(fd, b, 16) == 16, "read"); CHECK(std::string(b, 16) == expect(*r->kids[w], at, 16), "bytes"); squash_close(fd); } });
    for (auto &x : t) x.join(); return 0; }
'''
