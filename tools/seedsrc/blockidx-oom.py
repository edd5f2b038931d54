prop='C19'
needs='no memory for the block index of a large file'
breaks='a null pointer is written through'
edits=[('src/file.c','	if (!blockidx)\n		return SQFS_ERR;\n','')]
san=''
flags='-Wl,--wrap=malloc'
demo='''using namespace sq;
static bool fail; extern "C" void *__real_malloc(size_t); extern "C" void *__wrap_malloc(size_t n) { return fail && n % 16 == 0 && n < 64 ? nullptr : __real_malloc(n); }
int main() {
    squash_start(); auto f = reg("f", 6000ull * 4096, "C", false, 3); f->coarse = true; Mount m(build(::sq::dir("", {f}))); int fd = squash_open(&m.fs, "/f"); CHECK(fd >= 0, "open"); char b[16]; squash_lseek(fd, 5000l * 4096, SQUASH_SEEK_SET); fail = true; ssize_t n = squash_read(fd, b, 16); fail = false; CHECK(n == -1 || (n == 16 && std::string(b, 16) == expect(*f, 5000l * 4096, 16)), "read"); squash_close(fd); return 0; }
'''
