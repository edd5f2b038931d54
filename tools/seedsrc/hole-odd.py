prop='C01'
needs='a read that ends inside a hole at a length that is no multiple of 8'
breaks='the last bytes of the caller\'s buffer are not filled with the zeros of the hole'
edits=[('src/file.c','			memset(buf, 0, take);\n','			uint64_t *word = buf;\n			size_t words = take / sizeof(*word);\n			while (words--)\n				*word++ = 0;\n')]
san=''
demo='''using namespace sq;
int main() {
    squash_start(); auto f = reg("f", 3 * 4096, "CHC"); Mount m(build(::sq::dir("", {f}))); int fd = squash_open(&m.fs, "/f"); CHECK(fd >= 0, "open");
    for (int n : {8, 16, 5, 13}) { char b[32]; memset(b, 0x55, 32); squash_lseek(fd, 4096 + 100, SQUASH_SEEK_SET); CHECK(squash_read(fd, b, n) == n, "read"); CHECK(std::string(b, n) == std::string(n, 0), "%d bytes of the hole", n); } squash_close(fd); return 0; }
'''
