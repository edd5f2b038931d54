prop='C19'
needs='no memory for a longer path while a tree is walked'
breaks='the walk loses its path buffer'
edits=[('src/traverse.c','''		if (!(next_path = realloc(trv->path, next_cap)))
			return SQFS_ERR;
		
		trv->path = next_path;
''','''		next_path = realloc(trv->path, next_cap);
		trv->path = next_path;
		if (!next_path)
			return SQFS_ERR;
''')]
flags='-Wl,--wrap=realloc'
san=''
demo='''using namespace sq;
#include <malloc.h>
static bool fail; static void *saved; extern "C" void *__real_realloc(void *, size_t); extern "C" void *__wrap_realloc(void *p, size_t n) { return fail ? nullptr : __real_realloc(p, n); }
int main() {
    std::string L(100, 'n'); Mount m(build(::sq::dir("", {text("a", "1"), text(L, "1")}))); sqfs_traverse t; sqfs_err e; CHECK(!sqfs_traverse_open(&t, &m.fs, sqfs_inode_root(&m.fs)), "open");
    CHECK(sqfs_traverse_next(&t, &e), "a"); fail = true; CHECK(!sqfs_traverse_next(&t, &e) && e, "no failure"); fail = false; CHECK(t.path, "the path is lost"); sqfs_traverse_close(&t); return 0; }
'''
