prop='C04'
needs='a table of descriptors that grows into memory that was used before, and a number nobody opened'
breaks='the new part of the table is not cleared: numbers that were never opened look open'
edits=[('src/fd.c','		       (nr - squash_global_fdtable.nr) * sizeof(struct squash_file *));\n','		       (nr - squash_global_fdtable.nr));\n')]
san=''
flags='-Wl,--wrap=realloc'
demo='''using namespace sq;
extern "C" void *__real_realloc(void *, size_t); extern "C" void *__wrap_realloc(void *p, size_t n) { static size_t old; void *q = __real_realloc(p, n); if (!p) old = 0; if (q && n > old) memset((char *)q + old, 0x41, n - old); old = n; return q; }
int main() {
    squash_start(); Mount m(build(::sq::dir("", {text("a", "1")}))); std::vector<int> v; int hi = 0; for (int i = 0; i < 60; i++) { int fd = squash_open(&m.fs, "/a"); CHECK(fd >= 0, "open"); hi = std::max(hi, fd); v.push_back(fd); }
    for (int k = hi + 1; k < (int)squash_global_fdtable.nr; k++) CHECK(!squash_find_file(k), "%d was never opened", k); for (int fd : v) squash_close(fd); return 0; }
'''
