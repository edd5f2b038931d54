prop='C01'
needs='a file whose last, partial block is a hole (no fragment), read with a buffer that reaches beyond the end of the file'
breaks='a read at the end of a sparse file returns a whole block of zeros although the file ends earlier'
edits=[('src/file.c','''				data_size = (size_t)(file_size - bl.pos);
				if (data_size > block_size)
					data_size = block_size;
''','''				data_size = block_size;
''')]
demo='''using namespace sq;
int main() {
    squash_start(); auto f = reg("f", 2 * 4096 + 100, "CCH", false, 3); Mount m(build(::sq::dir("", {f})));
    int fd = squash_open(&m.fs, "/f"); CHECK(fd >= 0, "open"); std::string got = readall(fd); CHECK(got.size() == f->size, "the file has %zu bytes, %zu were read", (size_t)f->size, got.size()); CHECK(got == expect(*f, 0, f->size), "content"); squash_close(fd); return 0; }
'''
