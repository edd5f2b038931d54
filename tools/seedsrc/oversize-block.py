prop='C18'
needs='a damaged block whose stored bytes decompress to more than a block can hold'
breaks='the part that fits is delivered as if it was the content of the file'
edits=[('src/decompress.c','	if (zerr != Z_OK)\n','	if (zerr != Z_OK && zerr != Z_BUF_ERROR)\n')]
demo='''using namespace sq;
int main() {
    squash_start(); auto f = reg("f", 4096, "C"), g = reg("g", 4096, "C", false, 2); auto im = build(::sq::dir("", {f, g})); 
    std::vector<uint8_t> z(9000, 7); auto c = deflate1(z.data(), z.size()); CHECK(c.size() <= f->blocks[0].second, "size"); memcpy(im->mem + im->off() + f->blocks[0].first, c.data(), c.size());
    Mount m(im); std::string s(4096, 0); int fd = squash_open(&m.fs, "/f"); CHECK(fd >= 0, "open"); ssize_t n = squash_read(fd, &s[0], 4096); CHECK(n == -1, "a damaged block was read: %zd", n); squash_close(fd);
    fd = squash_open(&m.fs, "/g"); CHECK(readall(fd) == expect(*g, 0, 4096), "the other file"); squash_close(fd); return 0; }
'''
