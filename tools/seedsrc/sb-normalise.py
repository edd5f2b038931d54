prop='C29'
needs='an image without export table in read-only memory'
breaks='opening the image writes to it, which ends the process'
edits=[('src/fs.c','''	if (sqfs_export_ok(fs)) {
		err |= sqfs_table_init''','''	if (!sqfs_export_ok(fs)) {
		fs->sb->flags &= ~(1 << SQUASHFS_EXPORT); /* some writers leave the flag set */
	} else {
		err |= sqfs_table_init''')]
demo='''#include <sys/mman.h>
using namespace sq;
int main() { squash_start(); int rc = 0; { Opt o; o.export_table = false; auto im = build(::sq::dir("", {text("a", "content")}), o); size_t n = (im->len + 4095) / 4096 * 4096; char *p = (char *)mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); memcpy(p, im->mem, im->len); mprotect(p, n, PROT_READ);
    sqfs fs; memset(&fs, 0, sizeof fs); if (sqfs_init(&fs, (const uint8_t *)p, 0)) rc = 1; else { struct stat st; if (squash_stat(&fs, "/a", &st)) rc = 1; sqfs_destroy(&fs); } munmap(p, n); } return rc; }
'''
