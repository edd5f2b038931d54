prop='C23'
needs='scandir of a relative name while the working directory is in the memory filesystem, with an order of the caller'
breaks='the entries are not sorted as asked'
sample=True
edits=[('sample/enclose_io_unix.c','			squash_scandir(enclose_io_fs, enclose_io_expanded, namelist, select, compar),\n','			squash_scandir(enclose_io_fs, enclose_io_expanded, namelist, select, NULL),\n')]
demo='''extern "C" {
#include "enclose_io_common.h"
}
extern "C" sqfs *enclose_io_fs;
using namespace sq;
static int rev(const struct SQUASH_DIRENT **a, const struct SQUASH_DIRENT **b) { return strcmp((*b)->d_name, (*a)->d_name); }
int main() { squash_start(); Mount m(build(::sq::dir("", {::sq::dir("__enclose_io_memfs__", {::sq::dir("d", {text("a", "1"), text("b", "1"), text("c", "1")})})}))); enclose_io_fs = &m.fs; 
    for (int k = 0; k < 2; k++) { if (k) CHECK(!enclose_io_chdir("/__enclose_io_memfs__"), "chdir"); struct SQUASH_DIRENT **l = nullptr; int n = enclose_io_scandir(k ? "d" : "/__enclose_io_memfs__/d", &l, nullptr, rev); CHECK(n == 3, "%d", n); CHECK(!strcmp(l[0]->d_name, "c") && !strcmp(l[2]->d_name, "a"), "order"); for (int i = 0; i < n; i++) free(l[i]); free(l); } return 0; }
'''
