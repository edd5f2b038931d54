prop='C18'
needs='a damaged compressed block'
breaks='the memory for the decompressed data is released twice'
edits=[('src/fs.c','''		err = fs->decompressor((*block)->data, size, decomp, &outsize);
		if (err) {
			free(decomp);
			goto error;
		}
		(*block)->data = decomp;
		(*block)->size = outsize;
		(*block)->data_need_freeing = 1;
''','''		err = fs->decompressor((*block)->data, size, decomp, &outsize);
		(*block)->data = decomp;
		(*block)->size = outsize;
		(*block)->data_need_freeing = 1;
		if (err) {
			free(decomp);
			goto error;
		}
''')]
demo='''using namespace sq;
int main() {
    squash_start(); auto f = reg("f", 2 * 4096, "CC"); auto im = build(::sq::dir("", {f})); memset(im->mem + im->off() + f->blocks[1].first, 0xff, 8); Mount m(im); char b[4096];
    int fd = squash_open(&m.fs, "/f"); CHECK(fd >= 0, "open"); CHECK(squash_read(fd, b, 4096) == 4096, "first block"); CHECK(squash_read(fd, b, 100) == -1, "damaged block"); squash_close(fd); return 0; }
'''
