prop='C25'
needs='scandir with a selection on a directory that was created through the layer'
breaks='the entries that the caller does not want are listed too'
sample=True
edits=[('sample/enclose_io_unix.c','''			squash_scandir(enclose_io_fs, dirname, namelist, select, compar),
			scandir(mkdir_workdir_expanded, namelist, select, compar)
''','''			squash_scandir(enclose_io_fs, dirname, namelist, select, compar),
			scandir(mkdir_workdir_expanded, namelist, NULL, compar)
''')]
demo='''extern "C" {
#include "enclose_io_common.h"
}
#include <unistd.h>
extern "C" sqfs *enclose_io_fs;
using namespace sq;
static int nodot(const struct SQUASH_DIRENT *e) { return e->d_name[0] != '.'; }
int main() { squash_start(); auto *m = new Mount(build(::sq::dir("", {::sq::dir("__enclose_io_memfs__", {text("f", "hello")})}))); enclose_io_fs = &m->fs; 
    CHECK(!enclose_io_mkdir("/__enclose_io_memfs__/n", 0755), "mkdir"); CHECK(!enclose_io_mkdir("/__enclose_io_memfs__/n/m", 0755), "mkdir"); struct SQUASH_DIRENT **l = nullptr; int n = enclose_io_scandir("/__enclose_io_memfs__/n", &l, nodot, nullptr); CHECK(n == 1, "%d entries", n); CHECK(!strcmp(l[0]->d_name, "m"), "name"); return 0; }
'''
