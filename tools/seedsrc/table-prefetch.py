prop='C29'
needs='an image whose last table ends with the memory it lies in, or is followed by bytes that look like another table entry'
breaks='looking up an entry in the last block of a table reads behind the image, and its result depends on what is there'
edits=[('src/table.c','''	sqfs_off_t bpos = table->blocks[bnum];
''','''	sqfs_off_t bpos = table->blocks[bnum];
	if (table->blocks[bnum + 1] == table->blocks[bnum]) {
		return SQFS_ERR; /* two blocks at one place: the table is damaged */
	}
''')]
demo='''#include <sys/mman.h>
using namespace sq;
int main() { squash_start(); int rc = 0; { auto im = build(::sq::dir("", {text("a", "content")})); size_t n = (im->len + 4095) / 4096 * 4096; char *p = (char *)mmap(0, n + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); char *q = p + n - im->len; memcpy(q, im->mem, im->len);
    memcpy(p + n, p + n - 8, 8); // the bytes behind the image repeat its last ones
    sqfs fs; memset(&fs, 0, sizeof fs); if (sqfs_init(&fs, (const uint8_t *)q, 0)) rc = 1; else { sqfs_id_t id; if (sqfs_id_get(&fs, 0, &id)) { fprintf(stderr, "the id table cannot be read\\n"); rc = 1; } sqfs_destroy(&fs); } munmap(p, n + 4096); } return rc; }
'''
