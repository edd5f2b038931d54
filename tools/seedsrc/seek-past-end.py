prop='C03'
needs='a read at a position beyond the end of the file, followed by a question for the position or a relative seek'
breaks='the cursor is pulled back to the end of the file by a read that returned no bytes'
edits=[('src/fd.c','''	file->pos += nbyte;
	return nbyte;
''','''	file->pos += nbyte;
	if (file->pos > file->node.xtra.reg.file_size) {
		file->pos = file->node.xtra.reg.file_size;
	}
	return nbyte;
''')]
edits=[('src/fd.c','''	file->pos += nbyte;
	return nbyte;
''','''	file->pos = file->pos + nbyte > file->node.xtra.reg.file_size ? file->node.xtra.reg.file_size : file->pos + nbyte;
	return nbyte;
''')]
demo='''using namespace sq;
int main() {
    squash_start(); Mount m(build(::sq::dir("", {reg("f", 5000)}))); char b[16];
    int fd = squash_open(&m.fs, "/f"); CHECK(fd >= 0, "open"); CHECK(squash_lseek(fd, 6000, SQUASH_SEEK_SET) == 6000, "seek"); CHECK(squash_read(fd, b, 16) == 0, "read"); CHECK(squash_lseek(fd, 0, SQUASH_SEEK_CUR) == 6000, "the position moved"); squash_close(fd); return 0; }
'''
