prop='C22'
needs='a descriptor that was opened through a symbolic link to a directory, turned into a stream'
breaks='the link itself is looked at: no stream can be opened'
sample=True
edits=[('sample/enclose_io_unix.c','	error = sqfs_lookup_path_inner(fs, &dir->node, dir->filename, &found, 1);\n','	error = sqfs_lookup_path_inner(fs, &dir->node, dir->filename, &found, 0);\n')]
demo='''extern "C" {
#include "enclose_io_common.h"
}
extern "C" sqfs *enclose_io_fs;
using namespace sq;
int main() { squash_start(); Mount m(build(::sq::dir("", {::sq::dir("__enclose_io_memfs__", {::sq::dir("d", {text("f", "hello")}), lnk("l", "d")})}))); enclose_io_fs = &m.fs;
    for (const char *p : {"/__enclose_io_memfs__/d", "/__enclose_io_memfs__/l"}) { int fd = enclose_io_open(2, p, O_RDONLY); CHECK(fd >= 0, "open"); ::DIR *d = (::DIR *)(void *)enclose_io_fdopendir(fd); CHECK(d, "fdopendir of %s", p); auto *e = enclose_io_readdir(d); CHECK(e && !strcmp(e->d_name, "f"), "entry"); enclose_io_closedir(d); } return 0; }
'''
