prop='C23'
needs='a failing chdir to a directory outside while the working directory is inside'
breaks='relative paths no longer refer to the working directory in the memory filesystem'
sample=True
edits=[('sample/enclose_io_unix.c','''		ret = chdir(path);
		if (0 == ret) {
			enclose_io_cwd[0] = '\\0';
		}
		return ret;
''','''		enclose_io_cwd[0] = '\\0';
		ret = chdir(path);
		return ret;
''')]
demo='''extern "C" {
#include "enclose_io_common.h"
}
extern "C" sqfs *enclose_io_fs;
using namespace sq;
int main() { squash_start(); Mount m(build(::sq::dir("", {::sq::dir("__enclose_io_memfs__", {::sq::dir("d", {text("f", "hello")})})}))); enclose_io_fs = &m.fs; struct stat st;
    CHECK(!enclose_io_chdir("/__enclose_io_memfs__/d"), "chdir"); CHECK(!enclose_io_stat("f", &st), "stat"); CHECK(enclose_io_chdir("/nowhere/at/all") == -1, "chdir elsewhere"); CHECK(!enclose_io_stat("f", &st) && st.st_size == 5, "the working directory is lost"); return 0; }
'''
