prop='C03'
needs='a read that fails because of a damaged block, followed by a use of the position'
breaks='the descriptor moves although nothing was read'
edits=[('src/fd.c','''	if (SQFS_OK != error)
	{
		goto failure;
	}
	file->pos += nbyte;
	return nbyte;
''','''	file->pos += nbyte;
	if (SQFS_OK != error)
	{
		goto failure;
	}
	return nbyte;
''')]
demo='''using namespace sq;
int main() {
    squash_start(); auto f = reg("f", 3 * 4096, "CCC"); auto im = build(::sq::dir("", {f})); memset(im->mem + im->off() + f->blocks[1].first, 0xff, 8); Mount m(im); char b[4096];
    int fd = squash_open(&m.fs, "/f"); CHECK(fd >= 0, "open"); CHECK(squash_read(fd, b, 4096) == 4096, "first block"); CHECK(squash_read(fd, b, 100) == -1, "damaged block"); off_t p = squash_lseek(fd, 0, SQUASH_SEEK_CUR); CHECK(p == 4096, "the position is %ld", (long)p); squash_close(fd); return 0; }
'''
