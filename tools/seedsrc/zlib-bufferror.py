prop='C28'
needs='a compressed block that unpacks to more than its announced size, or whose stored bytes end early'
breaks='the block is accepted, its content cut off or padded with arbitrary memory'
edits=[('src/decompress.c','''	if (zerr != Z_OK)
		return SQFS_ERR;
''','''	if (zerr != Z_OK && zerr != Z_BUF_ERROR)
		return SQFS_ERR;
''')]
demo='''#include <zlib.h>
using namespace sq;
int main() { squash_start(); int rc = 0; { auto n = reg("f", 4096, "C", false, 1); auto im = build(::sq::dir("", {n})); Mount m(im); sqfs_block *p = nullptr; auto b = n->blocks[0];
    if (sqfs_data_block_read(&m.fs, b.first, b.second, &p)) rc = 1; else sqfs_block_dispose(p);
    p = nullptr; if (!sqfs_block_read(&m.fs, b.first, 1, b.second, 100, &p)) { fprintf(stderr, "a block of 4096 bytes was read into 100\\n"); rc = 1; }
    p = nullptr; if (!sqfs_block_read(&m.fs, b.first, 1, b.second / 2, 4096, &p)) { fprintf(stderr, "half a block was read\\n"); rc = 1; } } return rc; }
'''
